// irv: hash-consed bit-vector terms with a linear normal form.
#pragma once
#include <llvm/ADT/APInt.h>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace irv {
using llvm::APInt;

enum class Op : uint8_t {
    CONST, VAR, UF, SUM, MUL, UDIV, SDIV, UREM, SREM,
    AND, OR, XOR, SHL, LSHR, ASHR, CONCAT, EXTRACT, SEXT, ITE, EQ, ULT, SLT
};

struct Term;
typedef const Term * T;

struct Term {
    Op op;
    unsigned w;
    uint32_t id = 0;
    uint32_t aux = 0;          // VAR: var index; UF: uf index; EXTRACT: low bit
    APInt c;                   // CONST: value; SUM: constant part
    std::vector<T> a;          // arguments (CONCAT: high part first)
    std::vector<APInt> k;      // SUM coefficients
    bool uninit = false;       // mentions an indeterminate byte
    bool hasBase = false;      // mentions an object's base address
    uint64_t lo = 0, hi = ~0ull; // unsigned interval (w <= 64)
    Term() : op(Op::CONST), w(1), c(1, 0) {}
    bool isConst() const { return op == Op::CONST; }
    bool isTrue() const { return op == Op::CONST && w == 1 && c.isOne(); }
    bool isFalse() const { return op == Op::CONST && w == 1 && c.isZero(); }
};

struct VarInfo {
    std::string name;
    unsigned w;
    bool isBase = false;   // an object's base address
    int obj = -1;          // object id for bases
    bool uninit = false;
    int fn = -1;
};
struct UFInfo {
    std::string name;
    std::vector<unsigned> aw;
    unsigned w;
    bool uninit = false;
    int sem = 0; // what it means: 1 byte swap, 2 shift left, 3 shift right
};
extern std::vector<VarInfo> vars;
extern std::vector<UFInfo> ufs;

T mkC(const APInt & v);
T mkC(unsigned w, uint64_t v);
T mkVar(const std::string & name, unsigned w, uint64_t lo = 0, uint64_t hi = ~0ull);
T mkBaseVar(const std::string & name, int obj);
T mkUninitVar(const std::string & name, unsigned w);
int newUF(const std::string & name, std::vector<unsigned> aw, unsigned w, bool uninit = false);
T mkUF(int uf, std::vector<T> args);

T mkAdd(T a, T b);
T mkSub(T a, T b);
T mkNeg(T a);
T mkMulC(T a, const APInt & k);
T mkMul(T a, T b);
T mkUDiv(T a, T b);
T mkSDiv(T a, T b);
T mkURem(T a, T b);
T mkSRem(T a, T b);
T mkAnd(T a, T b);
T mkOr(T a, T b);
T mkXor(T a, T b);
T mkShl(T a, T b);
T mkLShr(T a, T b);
T mkAShr(T a, T b);
T mkConcat(std::vector<T> parts); // high first
T mkExtract(T a, unsigned lo, unsigned w);
T mkZExt(T a, unsigned w);
T mkSExt(T a, unsigned w);
T mkTrunc(T a, unsigned w);
T mkIte(T c, T a, T b);
T mkEq(T a, T b);
T mkUlt(T a, T b);
T mkSlt(T a, T b);
inline T mkNot(T a) { return mkXor(a, mkC(a->w, ~0ull)); }
T mkBNot(T a); // width 1
inline T mkNe(T a, T b) { return mkBNot(mkEq(a, b)); }
inline T mkUle(T a, T b) { return mkBNot(mkUlt(b, a)); }
inline T mkUge(T a, T b) { return mkBNot(mkUlt(a, b)); }
inline T mkUgt(T a, T b) { return mkUlt(b, a); }
inline T mkSle(T a, T b) { return mkBNot(mkSlt(b, a)); }
inline T mkTrue() { return mkC(1, 1); }
inline T mkFalse() { return mkC(1, 0); }
T mkBSwap(T a);
T mkOpaque(int sem, std::vector<T> args); // 32 bit operations kept as atoms of the normal form (see UFInfo::sem)
// Rebuild a term replacing some sub terms.
T substitute(T t, const std::unordered_map<T, T> & m, std::unordered_map<T, T> & memo);

std::string str(T t, int depth = 6);

// A concrete model.
struct Model {
    std::unordered_map<uint32_t, APInt> v;                 // var index -> value
    std::unordered_map<uint32_t, std::map<std::vector<uint64_t>, APInt>> f;
    std::unordered_map<uint32_t, APInt> felse;
};
APInt eval(T t, const Model & m, std::unordered_map<T, APInt> & memo);
void collectVars(T t, std::unordered_set<T> & seen, std::vector<T> & out); // VAR and UF terms
size_t termCount();
} // namespace irv
