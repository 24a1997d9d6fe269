// irv: path-wise symbolic execution of LLVM IR with unbounded memory objects,
// loop induction and proof obligations.
#pragma once
#include "solver.h"
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <regex>
#include <set>

namespace irv {
struct Val {
    T t = nullptr;
    std::shared_ptr<std::vector<Val>> g;
};

// What every completed iteration of a summarised loop wrote: cell i of
// iteration q covers [lo + stride*q + d, +n) and holds val with tv := q, or
// uf(q) bounded by hi when the value has no closed form.
struct Cell {
    uint64_t d;
    unsigned n;
    T val = nullptr;
    T tv = nullptr;
    int uf = -1;
    uint64_t hi = ~0ull;
    bool tried = false; // a value has been tried
};
struct LogNode {
    enum K { STORE, COPY, SET, BASE, LOOP } kind;
    T off = nullptr;
    T len = nullptr;  // COPY, SET
    unsigned n = 0;   // STORE size in bytes
    T val = nullptr;  // STORE value, SET byte
    const LogNode * src = nullptr;
    T srcOff = nullptr;
    const LogNode * next = nullptr;
    enum B { UNINIT, ZERO, UFB, DATA } base = UNINIT;
    int uf = -1;
    const std::vector<T> * data = nullptr; // bytes
    bool rev = false;                      // LOOP: iterations go down; off is that of the lowest
    uint64_t stride = 0;                   // LOOP (len: completed iterations, uf: unknown contents)
    std::shared_ptr<std::vector<Cell>> cells;
};

struct ObjInfo {
    int id;
    std::string name;
    T base;
    T size;
    enum K { STACK, HEAP, REGION, GLOBAL } kind;
    bool ro = false;
    uint64_t birth = 0;
};
struct ObjState {
    const LogNode * log;
    bool alive = true;
};
typedef std::map<int, ObjState> Mem;

struct FnInfo {
    llvm::Function * F;
    std::unordered_map<const llvm::Value *, int> idx;
    int n = 0;
    std::unique_ptr<llvm::DominatorTree> dt;
    std::unique_ptr<llvm::LoopInfo> li;
};

struct LoopCnt {
    int n = 0;
    bool sym = false;
    int f = 0; // iterations whose end was decided by the path condition only
    bool forced = false;
};
struct Frame {
    llvm::Function * F = nullptr;
    FnInfo * fi = nullptr;
    llvm::BasicBlock * bb = nullptr;
    llvm::BasicBlock * prev = nullptr;
    llvm::BasicBlock::iterator it;
    std::vector<Val> regs;
    const llvm::CallBase * call = nullptr;
    std::vector<int> allocas;
    std::map<const llvm::Loop *, LoopCnt> cnt;
    uint64_t hash = 0;
};
struct NdRec { // one recorded nondeterministic choice
    char kind; // 'v' value, 'r' region
    T val;     // value, or size
    int uf;
    const NdRec * parent;
};
struct Reg {
    llvm::Function * fn;
    T ctx;
    T obj;
    uint64_t size;
};
struct State {
    std::vector<Frame> fr;
    std::shared_ptr<Mem> mem;
    const PC * pc = nullptr;
    std::shared_ptr<Model> m;
    const NdRec * nd = nullptr;
    std::vector<Reg> invs, rebuilds;
    bool havoc = false;
    bool throwOk = false;
    Val ret;
    llvm::BasicBlock * pendingTo = nullptr;
    uint64_t steps = 0;
    const llvm::Value * excType = nullptr; // in-flight / caught exception type
    T excObj = nullptr;
    std::map<const llvm::GlobalVariable *, int> excIds;
};

struct WriteRec {
    int obj;
    T off;
    T len;
    const PC * pc;
};
struct Ctx {
    Ctx * parent = nullptr;
    const llvm::Loop * loop = nullptr;
    size_t depth = 0;
    size_t retDepth = 0;
    bool assume = false;
    uint64_t watermark = ~0ull; // track writes to objects born before
    std::vector<WriteRec> writes;
    std::set<int> frees;
    std::unordered_set<T> conds;
    std::vector<State *> back, exits, rets;
    std::vector<State *> wl;
};

struct Obl {
    std::string name;
    std::string kind;
    uint64_t instances = 0, discharged = 0, trivial = 0, failed = 0, undecided = 0;
    double secs = 0;
};
struct Failure {
    std::string name, kind, loc, detail, solver;
    bool undecided = false;
    bool exact = true;
    std::string model; // JSON
};

struct ToolError {
    std::string what;
};
struct Restart {};
struct ForkOn {
    T cond;
};
struct KillPath {};

struct Options {
    std::string entry;
    bool hunt = false;
    int unroll = 11;
    double timeLimit = 600;
    int maxFailures = 8;
    bool verbose = false;
    bool merge = false;
    std::vector<std::pair<std::string, std::string>> contracts; // regex -> function
};

class Exec {
  public:
    Exec(llvm::Module & M, Options o);
    void run();
    std::map<std::string, Obl> obls;
    std::vector<Failure> failures;
    std::map<std::string, uint64_t> covers;
    void declareCovers(llvm::Function * F);
    std::set<std::string> functionsSeen, contractsUsed, externsUsed, loopsInductive, loopsUnrolled;
    uint64_t paths = 0, instrs = 0, pruned = 0, throws = 0;
    std::set<std::string> headerFns;
    std::set<unsigned> headerLines;
    Solver S;
    std::string error;

  private:
    llvm::Module & M;
    const llvm::DataLayout & DL;
    Options O;
    std::unordered_map<llvm::Function *, std::unique_ptr<FnInfo>> fns;
    std::unordered_map<llvm::Function *, llvm::Function *> contractFor;
    std::vector<ObjInfo *> objs;
    std::unordered_map<const llvm::GlobalVariable *, int> gobj;
    std::unordered_map<const llvm::Function *, T> faddr;
    std::vector<llvm::Function *> fnList;
    std::unordered_map<int, ObjState> ginit;
    std::set<uint64_t> inductive;
    std::set<std::string> symGlobals;
    std::map<uint64_t, int> userUf;
    Ctx * ctx = nullptr;
    std::chrono::steady_clock::time_point start;
    uint64_t fresh = 0;
    uint64_t birthNo = 0;

    FnInfo * info(llvm::Function * F);
    llvm::Function * contractOf(llvm::Function * F);
    void explore(std::vector<State *> init, Ctx & c);
    void stepPath(State * s);
    void exec(State & s, llvm::Instruction & I);
    void takeEdge(State & s, llvm::BasicBlock * to);
    bool mergeArms(State & s, T cond, llvm::BasicBlock * a, llvm::BasicBlock * b);
    void branchOn(State & s, T cond, llvm::BasicBlock * a, llvm::BasicBlock * b, llvm::Instruction & I);
    void enter(State & s, llvm::Function * F, const llvm::CallBase * call, std::vector<Val> args);
    void leave(State & s, Val v);
    void execCall(State & s, llvm::CallBase & I);
    bool builtin(State & s, llvm::CallBase & I, llvm::Function * F, Val & out, bool & done);
    bool intrinsic(State & s, llvm::IntrinsicInst & I);
    void unwind(State & s, llvm::Instruction & I);
    void doInductive(State & s, const llvm::Loop * L, llvm::BasicBlock * header);
    T callPred(State & s, llvm::Function * f, T arg);
    std::vector<State *> callHook(State & s, llvm::Function * f, T arg);

    Val get(State & s, llvm::Value * v);
    Val evalConst(State & s, llvm::Constant * c);
    T gepOffset(State & s, llvm::GEPOperator & g);
    void set(State & s, llvm::Instruction & I, Val v);
    void setT(State & s, llvm::Instruction & I, T t);
    Val zeroVal(llvm::Type * ty);
    Val undefVal(llvm::Type * ty, const char * n);

    // path conditions
    void addPC(State & s, T c);
    bool must(State & s, T c, bool hard = false);
    bool may(State & s, T c);
    Res query(State & s, T c, std::shared_ptr<Model> * m, bool hard = false, bool quick = false);
    bool evalIn(State & s, T c);
    void obligation(State & s, T c, const std::string & kind, const std::string & name, llvm::Instruction * I,
                    const std::string & detail = "");
    void checkInit(State & s, T c, llvm::Instruction * I, const char * what);
    void fail(State & s, T bad, const std::string & kind, const std::string & name, llvm::Instruction * I,
              const std::string & detail);
    std::string modelJson(State & s, T extra);
    T ranged(State & s, T v, uint64_t hi);

    // memory
    int newObj(State & s, const std::string & n, T size, ObjInfo::K k, const LogNode * log);
    const LogNode * baseNode(LogNode::B b, int uf = -1, const std::vector<T> * data = nullptr);
    ObjState & obj(State & s, int id);
    const ObjState & objc(State & s, int id);
    Mem & wmem(State & s);
    bool splitPtr(State & s, T p, int & o, T & off, llvm::Instruction * I);
    void resolve(State & s, T p, int & o, T & off, llvm::Instruction * I, const char * what);
    void bounds(State & s, int o, T off, T len, llvm::Instruction * I, const char * what, bool write);
    T readLog(State & s, const LogNode * l, T off, unsigned n, int depth = 0);
    T cellValue(State & s, const Cell & c, T q);
    T load(State & s, T p, unsigned n, llvm::Instruction * I);
    void store(State & s, T p, T v, llvm::Instruction * I);
    void rawStore(State & s, int o, T off, T v);
    Val loadTy(State & s, T p, llvm::Type * ty, llvm::Instruction * I);
    void storeTy(State & s, T p, Val v, llvm::Type * ty, llvm::Instruction * I);
    void copyMem(State & s, T d, T sp, T n, llvm::Instruction & I, bool move);
    void setMem(State & s, T d, T b, T n, llvm::Instruction & I);
    int globalObj(State & s, llvm::GlobalVariable * g);
    void initBytes(State & s, llvm::Constant * c, uint64_t off, std::vector<T> & out);
    void noteWrite(State & s, int o, T off, T len);
    std::string cstr(State & s, T p);
    std::string locOf(llvm::Instruction * I);
    void noteLoc(const llvm::DILocation * dl);
    std::unordered_set<const llvm::DILocation *> seenDL;
    void tick();
};
} // namespace irv
