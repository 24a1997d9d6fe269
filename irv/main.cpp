#include <llvm/Analysis/ValueTracking.h>
#include <sys/personality.h>
#include <unistd.h>
#include "exec.h"
#include <cstdio>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
using namespace llvm;
namespace irv {
// Every witness written in a function the entry can reach is expected.
void Exec::declareCovers(Function * F)
{
    std::set<Function *> seen{F};
    std::vector<Function *> todo{F};
    while (!todo.empty()) {
        auto f = todo.back();
        todo.pop_back();
        for (auto & b : *f) {
            for (auto & i : b) {
                for (auto & op : i.operands()) {
                    if (auto g = dyn_cast<Function>(op->stripPointerCasts()); g && !g->isDeclaration() && seen.insert(g).second) {
                        todo.push_back(g);
                    }
                }
                auto c = dyn_cast<CallBase>(&i);
                if (!c || !c->getCalledFunction() || c->getCalledFunction()->getName() != "vp_cover") {
                    continue;
                }
                StringRef text;
                if (getConstantStringInfo(c->getArgOperand(0), text)) {
                    covers[text.str()];
                }
            }
        }
    }
}

void Exec::run()
{
    Function * F = M.getFunction(O.entry);
    if (!F || F->isDeclaration()) {
        throw ToolError{"no such proof: " + O.entry};
    }
    for (int attempt = 0;; ++attempt) {
        if (attempt > 40) {
            throw ToolError{"too many restarts"};
        }
        obls.clear();
        failures.clear();
        covers.clear();
        declareCovers(F);
        loopsUnrolled.clear();
        throws = 0;
        ctx = nullptr;
        State * s = new State;
        s->mem = std::make_shared<Mem>();
        s->m = std::make_shared<Model>();
        Ctx c;
        ctx = nullptr;
        try {
            ctx = &c;
            enter(*s, F, nullptr, {});
            ctx = nullptr;
            explore({s}, c);
            for (auto * x : c.rets) {
                delete x;
            }
            return;
        } catch (Restart &) {
            if (O.verbose) {
                fprintf(stderr, "[restart] %zu inductive loops\n", inductive.size());
            }
        }
    }
}
} // namespace irv

static std::string js(const std::string & s)
{
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
        } else if (c == '\n') {
            r += "\\n";
        } else if ((unsigned char)c < 32) {
            r += ' ';
        } else {
            r += c;
        }
    }
    return r + "\"";
}

int main(int argc, char ** argv)
{
    // repeatable runs: the same addresses every time, where the system permits
    if (int p = personality(0xffffffff); p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) {
        execv("/proc/self/exe", argv);
    }
    irv::Options o;
    std::string file, outFile;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return std::string(argv[++i]); };
        if (a == "--entry") {
            o.entry = val();
        } else if (a == "--hunt") {
            o.hunt = true;
            o.unroll = std::stoi(val());
        } else if (a == "--merge") {
            o.merge = true;
        } else if (a == "--unroll") {
            o.unroll = std::stoi(val());
        } else if (a == "--time") {
            o.timeLimit = std::stod(val());
        } else if (a == "--out") {
            outFile = val();
        } else if (a == "--max-failures") {
            o.maxFailures = std::stoi(val());
        } else if (a == "--contract") {
            std::string v = val();
            auto p = v.find("=>");
            o.contracts.push_back({v.substr(0, p), v.substr(p + 2)});
        } else if (a == "-v") {
            o.verbose = true;
        } else {
            file = a;
        }
    }
    LLVMContext C;
    SMDiagnostic err;
    auto M = parseIRFile(file, err, C);
    if (!M) {
        err.print("irv", errs());
        return 4;
    }
    if (o.entry.empty()) { // list
        for (auto & f : *M) {
            if (!f.isDeclaration() && f.getName().starts_with("proof_")) {
                printf("%s\n", f.getName().str().c_str());
            }
        }
        return 0;
    }
    auto t0 = std::chrono::steady_clock::now();
    irv::Exec E(*M, o);
    std::string error;
    try {
        E.run();
    } catch (irv::ToolError & e) {
        error = e.what;
    }
    double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    std::ostringstream j;
    uint64_t inst = 0, dis = 0, triv = 0;
    for (auto & [k, ob] : E.obls) {
        inst += ob.instances;
        dis += ob.discharged;
        triv += ob.trivial;
    }
    j << "{\"entry\":" << js(o.entry) << ",\"hunt\":" << (o.hunt ? "true" : "false") << ",\"error\":" << js(error)
      << ",\"wall_s\":" << wall << ",\"instances\":" << inst << ",\"discharged\":" << dis << ",\"by_normal_form\":" << triv
      << ",\"paths\":" << E.paths << ",\"instructions\":" << E.instrs << ",\"pruned\":" << E.pruned
      << ",\"throw_exits\":" << E.throws << ",\"solver\":{\"queries\":" << E.S.stats.queries
      << ",\"z3_incremental\":" << E.S.stats.z3inc << ",\"z3_fresh\":" << E.S.stats.z3fresh
      << ",\"cvc5\":" << E.S.stats.cvc5 << ",\"unknown\":" << E.S.stats.unknown << ",\"linear\":" << E.S.stats.linear << ",\"crosschecked\":" << E.S.stats.crosschecked << ",\"model_pool\":" << E.S.stats.pool
      << ",\"model_hits\":" << E.S.stats.modelHits << ",\"seconds\":" << E.S.stats.seconds
      << ",\"slowest_s\":" << E.S.stats.slowest << "},\"obligations\":[";
    bool first = true;
    for (auto & [k, ob] : E.obls) {
        j << (first ? "" : ",") << "\n{\"kind\":" << js(ob.kind) << ",\"name\":" << js(ob.name)
          << ",\"instances\":" << ob.instances << ",\"discharged\":" << ob.discharged << ",\"failed\":" << ob.failed
          << ",\"undecided\":" << ob.undecided << ",\"s\":" << ob.secs << "}";
        first = false;
    }
    j << "],\"failures\":[";
    first = true;
    for (auto & f : E.failures) {
        j << (first ? "" : ",") << "\n{\"kind\":" << js(f.kind) << ",\"name\":" << js(f.name) << ",\"loc\":" << js(f.loc)
          << ",\"undecided\":" << (f.undecided ? "true" : "false") << ",\"exact\":" << (f.exact ? "true" : "false")
          << ",\"solver\":" << js(f.solver) << ",\"detail\":" << js(f.detail) << ",\"model\":"
          << (f.model.empty() ? "null" : f.model) << "}";
        first = false;
    }
    j << "],\"covers\":{";
    first = true;
    for (auto & [k, n] : E.covers) {
        j << (first ? "" : ",") << js(k) << ":" << n;
        first = false;
    }
    auto list = [&](const char * n, const std::set<std::string> & v, bool demangle) {
        j << ",\"" << n << "\":[";
        bool f1 = true;
        for (auto & x : v) {
            j << (f1 ? "" : ",") << js((demangle ? llvm::demangle(x) : x).substr(0, 300));
            f1 = false;
        }
        j << "]";
    };
    j << "}";
    j << ",\"header_lines\":[";
    first = true;
    for (auto n : E.headerLines) {
        j << (first ? "" : ",") << n;
        first = false;
    }
    j << "]";
    list("functions", E.functionsSeen, true);
    list("header_functions", E.headerFns, false);
    list("contracts", E.contractsUsed, false);
    list("externs", E.externsUsed, false);
    list("loops_inductive", E.loopsInductive, false);
    list("loops_unrolled", E.loopsUnrolled, false);
    j << "}\n";
    if (outFile.empty()) {
        fputs(j.str().c_str(), stdout);
    } else {
        std::ofstream(outFile) << j.str();
    }
    fflush(stdout);
    _exit(error.empty() ? (E.failures.empty() ? 0 : 1) : 3);
}
