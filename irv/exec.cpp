#include "exec.h"
#include <llvm/ADT/SmallString.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/Operator.h>
#include <sstream>
#include <cstdio>

using namespace llvm;

namespace irv {

static uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    return h * 0x100000001b3ull;
}

Exec::Exec(Module & M, Options o) : M(M), DL(M.getDataLayout()), O(std::move(o))
{
    // `const char vp_for_<function>[] = "regex"`: <function> is the contract of the functions it names
    for (auto & g : M.globals()) {
        if (g.getName().starts_with("vp_for_") && g.hasInitializer()) {
            if (auto * d = dyn_cast<ConstantDataArray>(g.getInitializer()); d && d->isCString()) {
                this->O.contracts.push_back({d->getAsCString().str(), g.getName().substr(7).str()});
            }
        }
    }

    start = std::chrono::steady_clock::now();
}

void Exec::tick()
{
    double t = std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count();
    if (t > O.timeLimit) {
        throw ToolError{"time limit reached"};
    }
}

FnInfo * Exec::info(Function * F)
{
    auto & p = fns[F];
    if (!p) {
        p = std::make_unique<FnInfo>();
        p->F = F;
        for (auto & a : F->args()) {
            p->idx[&a] = p->n++;
        }
        for (auto & bb : *F) {
            for (auto & i : bb) {
                if (!i.getType()->isVoidTy()) {
                    p->idx[&i] = p->n++;
                }
            }
        }
        p->dt = std::make_unique<DominatorTree>(*F);
        p->li = std::make_unique<LoopInfo>(*p->dt);
    }
    return p.get();
}

static std::string dem(StringRef n)
{
    return demangle(n.str());
}

void Exec::noteLoc(const DILocation * dl)
{
    // the functions of the verified header whose code is executed, inlined or not
    for (; dl && seenDL.insert(dl).second; dl = dl->getInlinedAt()) {
        if (dl->getLine() && dl->getFilename().ends_with("zpp_bits.h")) {
            headerLines.insert(dl->getLine());
            if (auto * sp = dl->getScope()->getSubprogram()) {
                { auto nm = sp->getName().str(); auto lt = nm.find('<'); headerFns.insert(lt == std::string::npos || nm.rfind("operator", 0) == 0 && lt == 8 ? nm : nm.substr(0, lt)); }
            }
        }
    }
}

std::string Exec::locOf(Instruction * I)
{
    if (!I) {
        return "?";
    }
    std::string r;
    DebugLoc d = I->getDebugLoc();
    if (d) {
        auto * sc = dyn_cast_or_null<DIScope>(d.getScope());
        std::string file = sc ? sc->getFilename().str() : "";
        auto p = file.rfind('/');
        if (p != std::string::npos) {
            file = file.substr(p + 1);
        }
        std::string fn;
        if (auto * ls = dyn_cast_or_null<DILocalScope>(d.getScope())) {
            if (auto * sp = ls->getSubprogram()) {
                fn = sp->getName().str();
            }
        }
        r = file + ":" + std::to_string(d.getLine()) + (fn.empty() ? "" : " (" + fn + ")");
        // first caller outside the same file, for orientation
        if (auto * ia = d.getInlinedAt()) {
            while (ia->getInlinedAt()) {
                ia = ia->getInlinedAt();
            }
            auto f2 = ia->getFilename().str();
            auto q = f2.rfind('/');
            if (q != std::string::npos) {
                f2 = f2.substr(q + 1);
            }
            r += " <- " + f2 + ":" + std::to_string(ia->getLine());
        }
    } else {
        r = dem(I->getFunction()->getName()).substr(0, 80);
    }
    return r;
}

// ---------------------------------------------------------------- path conds
void Exec::addPC(State & s, T c)
{
    if (c->isTrue()) {
        return;
    }
    if (c->isFalse()) {
        throw KillPath{};
    }
    if (c->op == Op::AND) {
        addPC(s, c->a[0]);
        addPC(s, c->a[1]);
        return;
    }
    bool ok = s.m && evalIn(s, c);
    s.pc = new PC(c, s.pc, s.pc ? s.pc->depth + 1 : 1);
    if (!ok) {
        s.m = nullptr;
    }
}
bool Exec::evalIn(State & s, T c)
{
    std::unordered_map<T, APInt> memo;
    return eval(c, *s.m, memo).isOne();
}
Res Exec::query(State & s, T c, std::shared_ptr<Model> * m, bool hard, bool quick)
{
    if (c->isFalse()) {
        return Res::UNSAT;
    }
    tick();
    // feasibility of a branch below a havoc is only an optimisation: an
    // undecided branch is explored
    S.quick = quick && s.havoc;
    Res r = S.check(s.pc, c->isTrue() ? nullptr : c, m, hard);
    S.quick = false;
    return r;
}
bool Exec::must(State & s, T c, bool hard)
{
    if (c->isConst()) {
        return c->isTrue();
    }
    if (s.m && !evalIn(s, c)) {
        ++S.stats.modelHits;
        return false;
    }
    std::shared_ptr<Model> m;
    Res r = query(s, mkBNot(c), &m, hard);
    return r == Res::UNSAT;
}
bool Exec::may(State & s, T c)
{
    if (c->isConst()) {
        return c->isTrue();
    }
    if (s.m && evalIn(s, c)) {
        ++S.stats.modelHits;
        return true;
    }
    std::shared_ptr<Model> m;
    Res r = query(s, c, &m);
    return r != Res::UNSAT;
}

static std::string hexOf(const APInt & v, unsigned bytes)
{
    std::string s;
    static const char * d = "0123456789abcdef";
    for (unsigned i = 0; i < bytes; ++i) { // little endian
        unsigned b = i * 8 < v.getBitWidth() ? unsigned(v.extractBits(std::min(8u, v.getBitWidth() - i * 8), i * 8).getZExtValue()) : 0;
        s += d[b >> 4];
        s += d[b & 15];
    }
    return s;
}

std::string Exec::modelJson(State & s, T extra)
{
    // look for a small witness first
    std::vector<const NdRec *> rec;
    for (auto r = s.nd; r; r = r->parent) {
        rec.push_back(r);
    }
    std::reverse(rec.begin(), rec.end());
    std::shared_ptr<Model> m;
    bool ok = false;
    for (uint64_t cap : {16ull, 64ull, 512ull, 8192ull, 1ull << 20, ~0ull}) {
        T c = extra;
        bool any = false;
        for (auto r : rec) {
            if (r->kind != 'v' && !r->val->isConst()) {
                any = true;
                if (cap != ~0ull) {
                    c = mkAnd(c, mkUle(r->val, mkC(64, cap)));
                }
            }
        }
        if (!any && cap != 16) {
            break;
        }
        m = nullptr;
        if (S.check(s.pc, c, &m, true) == Res::SAT && m) {
            ok = true;
            break;
        }
    }
    if (!ok) {
        return "";
    }
    std::unordered_map<T, APInt> memo;
    std::ostringstream o;
    o << "{\"values\":[";
    bool first = true;
    for (auto r : rec) {
        if (!first) {
            o << ",";
        }
        first = false;
        APInt v = eval(r->val, *m, memo);
        if (r->kind != 'r') {
            o << "{\"k\":\"v\",\"hex\":\"" << hexOf(v, (r->val->w + 7) / 8) << "\"}";
        } else {
            uint64_t n = v.getZExtValue();
            o << "{\"k\":\"r\",\"size\":" << n;
            APInt el(8, 0);
            auto e = m->felse.find(uint32_t(r->uf));
            if (e != m->felse.end()) {
                el = e->second;
            }
            o << ",\"else\":" << el.getZExtValue() << ",\"bytes\":[";
            bool f2 = true;
            auto f = m->f.find(uint32_t(r->uf));
            if (f != m->f.end()) {
                for (auto & [k, b] : f->second) {
                    if (k[0] < n) {
                        o << (f2 ? "" : ",") << "[" << k[0] << "," << b.getZExtValue() << "]";
                        f2 = false;
                    }
                }
            }
            o << "]}";
        }
    }
    o << "],\"uf\":[";
    first = true;
    for (auto & [id, uf] : userUf) {
        uint64_t el = 0;
        auto e = m->felse.find(uint32_t(uf));
        if (e != m->felse.end()) {
            el = e->second.getZExtValue();
        }
        o << (first ? "" : ",") << "{\"id\":" << (id >> 8) << ",\"n\":" << (id & 255) << ",\"else\":" << el << ",\"t\":[";
        first = false;
        auto f = m->f.find(uint32_t(uf));
        bool f2 = true;
        if (f != m->f.end()) {
            for (auto & [k, b] : f->second) {
                o << (f2 ? "" : ",") << "[";
                f2 = false;
                for (auto x : k) {
                    o << x << ",";
                }
                o << b.getZExtValue() << "]";
            }
        }
        o << "]}";
    }
    o << "]}";
    return o.str();
}

void Exec::fail(State & s, T bad, const std::string & kind, const std::string & name, Instruction * I,
                const std::string & detail)
{
    std::string loc = locOf(I);
    for (auto & f : failures) {
        if (f.name == name && f.kind == kind && (kind == "assert" || f.loc == loc)) {
            if (!(f.model.empty() && !s.havoc)) {
                return;
            }
        }
    }
    Failure f;
    f.name = name;
    f.kind = kind;
    f.loc = loc;
    f.detail = detail;
    f.exact = !s.havoc;
    f.solver = S.lastOutput;
    f.model = modelJson(s, bad);
    {
        std::ostringstream o;
        o << "negated obligation: " << str(bad, 7) << "\npath condition (last 12):\n";
        int k = 0;
        for (auto p = s.pc; p && k < 12; p = p->parent, ++k) {
            o << "  " << str(p->cond, 6) << "\n";
        }
        o << "call stack:\n";
        for (auto it = s.fr.rbegin(); it != s.fr.rend(); ++it) {
            o << "  " << dem(it->F->getName()).substr(0, 160) << "\n";
        }
        f.detail += "\n" + o.str();
    }
    failures.push_back(f);
    if (int(failures.size()) >= O.maxFailures) {
        throw ToolError{"too many failures"};
    }
}

void Exec::obligation(State & s, T c, const std::string & kind, const std::string & name, Instruction * I,
                      const std::string & detail)
{
    if (ctx->assume) {
        addPC(s, c);
        return;
    }
    auto t0 = std::chrono::steady_clock::now();
    Obl & o = obls[kind + ":" + name];
    o.kind = kind;
    o.name = name;
    ++o.instances;
    if (c->isTrue()) {
        ++o.discharged;
        ++o.trivial;
        return;
    }
    Res r;
    std::shared_ptr<Model> m;
    if (s.m && !evalIn(s, c)) {
        r = Res::SAT;
    } else {
        r = query(s, mkBNot(c), &m, true);
    }
    o.secs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (r == Res::UNSAT) {
        ++o.discharged;
        return;
    }
    if (r == Res::SAT) {
        ++o.failed;
        fail(s, mkBNot(c), kind, name, I, detail);
    } else {
        ++o.undecided;
        bool dup = false;
        for (auto & f : failures) {
            dup |= f.name == name && f.kind == kind;
        }
        if (!dup) {
            Failure f;
            f.name = name;
            f.kind = kind;
            f.loc = locOf(I);
            f.undecided = true;
            f.solver = "unknown (solver limits reached)";
            f.detail = detail;
            failures.push_back(f);
        }
    }
    addPC(s, c);
    if (!s.m) {
        std::shared_ptr<Model> mm;
        if (query(s, mkTrue(), &mm) == Res::UNSAT) {
            throw KillPath{};
        }
        s.m = mm;
    }
}

void Exec::checkInit(State & s, T c, Instruction * I, const char * what)
{
    if (!c->uninit) {
        return;
    }
    // c must not depend on indeterminate bytes: compare with a renamed copy
    std::unordered_set<T> seen;
    std::vector<T> vs;
    collectVars(c, seen, vs);
    std::unordered_map<T, T> m, memo;
    static std::unordered_map<uint32_t, int> twin;
    for (auto v : vs) {
        if (v->op == Op::VAR && vars[v->aux].uninit) {
            m[v] = mkUninitVar("u'", v->w);
        } else if (v->op == Op::UF && ufs[v->aux].uninit) {
            auto it = twin.find(v->aux);
            if (it == twin.end()) {
                it = twin.emplace(v->aux, newUF("uninit'", ufs[v->aux].aw, ufs[v->aux].w, true)).first;
            }
            m[v] = mkUF(it->second, v->a);
        }
    }
    T c2 = substitute(c, m, memo);
    obligation(s, mkEq(c, c2), "init", std::string(what) + " on uninitialised data", I, "term " + str(c));
}

T Exec::ranged(State & s, T v, uint64_t hi)
{
    (void)s;
    (void)hi;
    return v;
}

// ---------------------------------------------------------------- memory
const LogNode * Exec::baseNode(LogNode::B b, int uf, const std::vector<T> * data)
{
    auto n = new LogNode;
    n->kind = LogNode::BASE;
    n->base = b;
    n->uf = uf;
    n->data = data;
    if (b == LogNode::UNINIT && uf < 0) {
        n->uf = newUF("uninit", {64}, 8, true);
    }
    return n;
}
Mem & Exec::wmem(State & s)
{
    if (s.mem.use_count() > 1) {
        s.mem = std::make_shared<Mem>(*s.mem);
    }
    return *s.mem;
}
ObjState & Exec::obj(State & s, int id)
{
    auto & m = wmem(s);
    auto it = m.find(id);
    if (it == m.end()) {
        auto g = ginit.find(id);
        if (g == ginit.end()) {
            throw ToolError{"object not present in this state: " + objs[id]->name};
        }
        it = m.emplace(id, g->second).first;
    }
    return it->second;
}
const ObjState & Exec::objc(State & s, int id)
{
    auto it = s.mem->find(id);
    if (it == s.mem->end()) {
        return obj(s, id);
    }
    return it->second;
}
int Exec::newObj(State & s, const std::string & n, T size, ObjInfo::K k, const LogNode * log)
{
    int id = int(objs.size());
    auto o = new ObjInfo{id, n, nullptr, size, k};
    o->birth = ++birthNo;
    objs.push_back(o);
    o->base = mkBaseVar("&" + n, id);
    wmem(s).emplace(id, ObjState{log, true});
    return id;
}

void Exec::initBytes(State & s, Constant * c, uint64_t off, std::vector<T> & out)
{
    Type * ty = c->getType();
    auto putT = [&](T t) {
        for (unsigned i = 0; i * 8 < t->w; ++i) {
            out[off + i] = mkExtract(t, i * 8, 8);
        }
    };
    if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) {
        uint64_t n = DL.getTypeStoreSize(ty);
        for (uint64_t i = 0; i < n; ++i) {
            out[off + i] = mkC(8, 0);
        }
        return;
    }
    if (isa<UndefValue>(c)) {
        uint64_t n = DL.getTypeStoreSize(ty);
        for (uint64_t i = 0; i < n; ++i) {
            out[off + i] = mkC(8, 0);
        }
        return;
    }
    if (auto * d = dyn_cast<ConstantDataSequential>(c)) {
        uint64_t es = DL.getTypeAllocSize(d->getElementType());
        for (unsigned i = 0; i < d->getNumElements(); ++i) {
            initBytes(s, d->getElementAsConstant(i), off + i * es, out);
        }
        return;
    }
    if (auto * a = dyn_cast<ConstantArray>(c)) {
        uint64_t es = DL.getTypeAllocSize(a->getType()->getElementType());
        for (unsigned i = 0; i < a->getNumOperands(); ++i) {
            initBytes(s, a->getOperand(i), off + i * es, out);
        }
        return;
    }
    if (auto * a = dyn_cast<ConstantStruct>(c)) {
        auto * sl = DL.getStructLayout(a->getType());
        for (unsigned i = 0; i < a->getNumOperands(); ++i) {
            initBytes(s, a->getOperand(i), off + sl->getElementOffset(i), out);
        }
        return;
    }
    Val v = evalConst(s, c);
    if (!v.t) {
        throw ToolError{"unsupported global initialiser"};
    }
    T t = v.t;
    uint64_t n = DL.getTypeStoreSize(ty);
    if (t->w != n * 8) {
        t = mkZExt(t, unsigned(n * 8));
    }
    putT(t);
}

int Exec::globalObj(State & s, GlobalVariable * g)
{
    auto it = gobj.find(g);
    if (it != gobj.end()) {
        return it->second;
    }
    int id = int(objs.size());
    uint64_t sz = g->getValueType()->isSized() ? uint64_t(DL.getTypeAllocSize(g->getValueType())) : 0;
    auto o = new ObjInfo{id, g->getName().str(), nullptr, mkC(64, sz), ObjInfo::GLOBAL};
    objs.push_back(o);
    o->base = mkBaseVar("&" + o->name, id);
    o->ro = g->isConstant();
    o->birth = 0;
    gobj[g] = id;
    const LogNode * log;
    if (g->hasInitializer()) {
        auto * d = new std::vector<T>(sz, mkC(8, 0));
        initBytes(s, g->getInitializer(), 0, *d);
        log = baseNode(LogNode::DATA, -1, d);
    } else {
        log = baseNode(LogNode::UFB, newUF("ext_" + o->name, {64}, 8));
    }
    ginit[id] = ObjState{log, true};
    return id;
}

bool Exec::splitPtr(State & s, T p, int & o, T & off, Instruction * I)
{
    for (int guard = 0; guard < 64; ++guard) {
        if (p->op == Op::VAR && vars[p->aux].isBase) {
            o = vars[p->aux].obj;
            off = mkC(64, 0);
            return true;
        }
        if (p->op == Op::SUM) {
            int found = -1;
            T base = nullptr;
            T ite = nullptr;
            APInt itek(64, 0);
            for (size_t i = 0; i < p->a.size(); ++i) {
                T x = p->a[i];
                if (x->op == Op::VAR && vars[x->aux].isBase && p->k[i].isOne()) {
                    ++found;
                    base = x;
                } else if (x->op == Op::ITE && x->hasBase) {
                    ite = x;
                    itek = p->k[i];
                }
            }
            if (found == 0 && !ite) {
                o = vars[base->aux].obj;
                off = mkSub(p, base);
                return true;
            }
            if (ite) {
                T r = mkSub(p, mkMulC(ite, itek));
                T c = ite->a[0];
                if (must(s, c)) {
                    p = mkAdd(r, mkMulC(ite->a[1], itek));
                    continue;
                }
                if (must(s, mkBNot(c))) {
                    p = mkAdd(r, mkMulC(ite->a[2], itek));
                    continue;
                }
                throw ForkOn{c};
            }
            return false;
        }
        if (p->op == Op::ITE) {
            T c = p->a[0];
            if (must(s, c)) {
                p = p->a[1];
                continue;
            }
            if (must(s, mkBNot(c))) {
                p = p->a[2];
                continue;
            }
            throw ForkOn{c};
        }
        if (p->op == Op::AND || p->op == Op::OR || p->op == Op::CONCAT || p->op == Op::EXTRACT) {
            return false;
        }
        return false;
    }
    return false;
}

void Exec::resolve(State & s, T p, int & o, T & off, Instruction * I, const char * what)
{
    if (!splitPtr(s, p, o, off, I)) {
        obligation(s, mkFalse(), "memory", std::string(what) + " through an invalid pointer", I, "pointer " + str(p));
        throw KillPath{};
    }
    auto & info = *objs[o];
    if (s.mem->find(o) == s.mem->end() && ginit.find(o) == ginit.end()) {
        obligation(s, mkFalse(), "memory", std::string(what) + " through a foreign pointer", I, info.name);
        throw KillPath{};
    }
    if (!objc(s, o).alive) {
        obligation(s, mkFalse(), "memory", std::string(what) + " of dead object", I, info.name);
        throw KillPath{};
    }
}

void Exec::bounds(State & s, int o, T off, T len, Instruction * I, const char * what, bool write)
{
    auto & info = *objs[o];
    if (write && info.ro) {
        obligation(s, mkFalse(), "memory", std::string(what) + " to read-only object", I, info.name);
        throw KillPath{};
    }
    // len <= size && off <= size - len
    T ok = mkAnd(mkUle(len, info.size), mkUle(off, mkSub(info.size, len)));
    obligation(s, ok, "memory", std::string(what) + " in bounds", I,
               info.name + " size " + str(info.size) + " offset " + str(off) + " length " + str(len));
}

void Exec::noteWrite(State & s, int o, T off, T len)
{
    for (Ctx * c = ctx; c; c = c->parent) {
        if (c->loop && objs[o]->birth <= c->watermark) {
            c->writes.push_back({o, off, len, s.pc});
        }
    }
}

T Exec::readLog(State & s, const LogNode * l, T off, unsigned n, int depth)
{
    if (depth > 4000) {
        throw ToolError{"memory log too deep"};
    }
    auto split = [&](const LogNode * at) {
        std::vector<T> p;
        for (unsigned i = n; i-- > 0;) {
            p.push_back(readLog(s, at, mkAdd(off, mkC(64, i)), 1, depth + 1));
        }
        return mkConcat(p);
    };
    for (;; l = l->next) {
        switch (l->kind) {
        case LogNode::STORE: {
            T d = mkSub(off, l->off);
            if (d->isConst()) {
                int64_t k = d->c.getSExtValue();
                if (k >= 0 && uint64_t(k) + n <= l->n) {
                    return mkExtract(l->val, unsigned(k) * 8, n * 8);
                }
                if (k >= int64_t(l->n) || k <= -int64_t(n)) {
                    continue;
                }
                return split(l);
            }
            // may they overlap at all?
            T ov = n == 1 ? mkUlt(d, mkC(64, l->n))
                          : mkOr(mkUlt(d, mkC(64, l->n)), mkUlt(mkNeg(d), mkC(64, n)));
            if (!may(s, ov)) {
                continue;
            }
            if (n > 1) {
                if (n <= l->n && must(s, mkEq(d, mkC(64, 0)))) {
                    return mkExtract(l->val, 0, n * 8);
                }
                return split(l);
            }
            T sel = l->n == 1 ? l->val : mkExtract(mkLShr(l->val, mkShl(l->n * 8 >= 64 ? (l->n * 8 == 64 ? d : mkZExt(d, l->n * 8)) : mkExtract(d, 0, l->n * 8), mkC(l->n * 8, 3))), 0, 8);
            if (must(s, ov)) {
                return sel;
            }
            T rest = readLog(s, l->next, off, n, depth + 1);
            return mkIte(ov, sel, rest);
        }
        case LogNode::COPY:
        case LogNode::SET: {
            T d = mkSub(off, l->off);
            T in; // the whole range lies inside
            T ov;
            if (n == 1) {
                in = ov = mkUlt(d, l->len);
            } else {
                in = mkAnd(mkUle(mkC(64, n), l->len), mkUle(d, mkSub(l->len, mkC(64, n))));
                ov = mkOr(mkUlt(d, l->len), mkAnd(mkUlt(mkNeg(d), mkC(64, n)), mkNe(l->len, mkC(64, 0))));
            }
            auto inner = [&]() -> T {
                if (l->kind == LogNode::SET) {
                    std::vector<T> p(n, l->val);
                    return mkConcat(p);
                }
                return readLog(s, l->src, mkAdd(l->srcOff, d), n, depth + 1);
            };
            if (!may(s, ov)) {
                continue;
            }
            if (must(s, in)) {
                return inner();
            }
            if (n > 1) {
                return split(l);
            }
            T a = inner();
            T b = readLog(s, l->next, off, n, depth + 1);
            return mkIte(ov, a, b);
        }
        case LogNode::LOOP: {
            T d = mkSub(off, l->off);
            T span = mkMulC(l->len, APInt(64, l->stride)); // cannot wrap: every cell lies inside the object
            T ov = n == 1 ? mkUlt(d, span)
                          : mkOr(mkUlt(d, span), mkAnd(mkUlt(mkNeg(d), mkC(64, n)), mkNe(l->len, mkC(64, 0))));
            // d = stride * q + r
            int64_t st = int64_t(l->stride), r = -1;
            T q = nullptr;
            if (d->isConst()) {
                int64_t k = d->c.getSExtValue();
                r = ((k % st) + st) % st;
                q = mkC(APInt(64, uint64_t((k - r) / st), true));
            } else {
                T x = d->op == Op::SUM ? d : nullptr;
                bool ok = st == 1 || x;
                if (st == 1) {
                    r = 0;
                    q = d;
                } else if (x) {
                    for (auto & k : x->k) {
                        ok &= k.getSExtValue() % st == 0;
                    }
                    if (!ok) {
                        // terms that break the stride may be known to vanish here
                        T rest = mkC(64, 0);
                        for (size_t i = 0; i < x->a.size(); ++i) {
                            if (x->k[i].getSExtValue() % st != 0) {
                                rest = mkAdd(rest, mkMulC(x->a[i], x->k[i]));
                            }
                        }
                        if (must(s, mkEq(rest, mkC(64, 0)))) {
                            T y = mkSub(x, rest);
                            if (y->isConst()) {
                                int64_t k = y->c.getSExtValue();
                                r = ((k % st) + st) % st;
                                q = mkC(APInt(64, uint64_t((k - r) / st), true));
                            } else if (y->op == Op::SUM) {
                                x = y;
                                ok = true;
                            }
                        }
                    }
                    if (ok) {
                        int64_t k = x->c.getSExtValue();
                        r = ((k % st) + st) % st;
                        q = mkC(APInt(64, uint64_t((k - r) / st), true));
                        for (size_t i = 0; i < x->a.size(); ++i) {
                            q = mkAdd(q, mkMulC(x->a[i], APInt(64, uint64_t(x->k[i].getSExtValue() / st), true)));
                        }
                    }
                }
            }
            auto unknown = [&]() {
                std::vector<T> p;
                for (unsigned i = n; i-- > 0;) {
                    p.push_back(mkUF(l->uf, {mkAdd(off, mkC(64, i))}));
                }
                return mkConcat(p);
            };
            if (q) {
                const Cell * in = nullptr;
                bool touch = uint64_t(r) + n > l->stride;
                for (auto & c : *l->cells) {
                    if (c.d <= uint64_t(r) && uint64_t(r) + n <= c.d + c.n) {
                        in = &c;
                    } else if (uint64_t(r) < c.d + c.n && c.d < uint64_t(r) + n) {
                        touch = true;
                    }
                }
                if (in) {
                    T inr = mkUlt(q, l->len);
                    auto value = [&]() { return mkExtract(cellValue(s, *in, l->rev ? mkSub(mkSub(l->len, mkC(64, 1)), q) : q), unsigned(r - in->d) * 8, n * 8); };
                    if (must(s, inr)) {
                        return value();
                    }
                    // q is only a residue: outside the count it must also be outside the range
                    if (must(s, mkOr(inr, mkBNot(mkUlt(d, span))))) {
                        if (!may(s, inr)) {
                            continue;
                        }
                        T a = value();
                        T b = readLog(s, l->next, off, n, depth + 1);
                        return mkIte(inr, a, b);
                    }
                } else if (!touch) {
                    continue; // falls between the cells
                } else if (n > 1) {
                    if (!may(s, ov)) {
                        continue;
                    }
                    return split(l);
                }
            }
            if (!may(s, ov)) {
                continue;
            }
            if (n > 1) {
                return split(l);
            }
            if (must(s, ov)) {
                return unknown();
            }
            return mkIte(ov, unknown(), readLog(s, l->next, off, n, depth + 1));
        }
        case LogNode::BASE: {
            if (l->base == LogNode::ZERO) {
                return mkC(n * 8, 0);
            }
            std::vector<T> p;
            for (unsigned i = n; i-- > 0;) {
                T o = mkAdd(off, mkC(64, i));
                if (l->base == LogNode::DATA) {
                    auto & d = *l->data;
                    if (o->isConst()) {
                        uint64_t k = o->c.getZExtValue();
                        p.push_back(k < d.size() ? d[k] : mkC(8, 0));
                    } else {
                        if (d.size() > 4096) {
                            throw ToolError{"symbolic index into a large constant table"};
                        }
                        T r = mkC(8, 0);
                        for (size_t k = 0; k < d.size(); ++k) {
                            r = mkIte(mkEq(o, mkC(64, k)), d[k], r);
                        }
                        p.push_back(r);
                    }
                } else {
                    p.push_back(mkUF(l->uf, {o}));
                }
            }
            return mkConcat(p);
        }
        }
    }
}

T Exec::cellValue(State & s, const Cell & c, T q)
{
    if (c.val) {
        std::unordered_map<T, T> m{{c.tv, q}}, memo;
        return substitute(c.val, m, memo);
    }
    T v = mkUF(c.uf, {q});
    if (c.n <= 8 && c.hi < (c.n == 8 ? ~0ull : (1ull << (8 * c.n)) - 1)) {
        addPC(s, mkUle(v, mkC(c.n * 8, c.hi)));
    }
    return v;
}
T Exec::load(State & s, T p, unsigned n, Instruction * I)
{
    checkInit(s, p, I, "load address");
    int o;
    T off;
    resolve(s, p, o, off, I, "load");
    bounds(s, o, off, mkC(64, n), I, "load", false);
    return readLog(s, objc(s, o).log, off, n);
}
void Exec::rawStore(State & s, int o, T off, T v)
{
    auto & os = obj(s, o);
    auto nl = new LogNode;
    nl->kind = LogNode::STORE;
    nl->off = off;
    nl->n = v->w / 8;
    nl->val = v;
    // drop directly overwritten predecessors at the same place
    const LogNode * nx = os.log;
    int hops = 0;
    std::vector<const LogNode *> keep;
    bool dropped = false;
    if (off->isConst()) {
        for (auto q = nx; q->kind == LogNode::STORE && q->off->isConst() && hops < 64; q = q->next, ++hops) {
            if (q->off == off && q->n == nl->n) {
                // rebuild the prefix without q
                nx = q->next;
                for (auto it = keep.rbegin(); it != keep.rend(); ++it) {
                    auto c = new LogNode(**it);
                    c->next = nx;
                    nx = c;
                }
                dropped = true;
                break;
            }
            keep.push_back(q);
        }
    } else if (nx->kind == LogNode::STORE && nx->off == off && nx->n == nl->n) {
        nx = nx->next;
    }
    (void)dropped;
    nl->next = nx;
    os.log = nl;
}
void Exec::store(State & s, T p, T v, Instruction * I)
{
    checkInit(s, p, I, "store address");
    int o;
    T off;
    resolve(s, p, o, off, I, "store");
    bounds(s, o, off, mkC(64, v->w / 8), I, "store", true);
    noteWrite(s, o, off, mkC(64, v->w / 8));
    rawStore(s, o, off, v);
}

Val Exec::loadTy(State & s, T p, Type * ty, Instruction * I)
{
    Val v;
    if (auto * st = dyn_cast<StructType>(ty)) {
        v.g = std::make_shared<std::vector<Val>>();
        auto * sl = DL.getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) {
            v.g->push_back(loadTy(s, mkAdd(p, mkC(64, sl->getElementOffset(i))), st->getElementType(i), I));
        }
        return v;
    }
    if (auto * at = dyn_cast<ArrayType>(ty)) {
        v.g = std::make_shared<std::vector<Val>>();
        uint64_t es = DL.getTypeAllocSize(at->getElementType());
        for (unsigned i = 0; i < at->getNumElements(); ++i) {
            v.g->push_back(loadTy(s, mkAdd(p, mkC(64, i * es)), at->getElementType(), I));
        }
        return v;
    }
    if (ty->isVectorTy()) {
        throw ToolError{"vector type"};
    }
    unsigned bytes = unsigned(DL.getTypeStoreSize(ty));
    unsigned bits = unsigned(DL.getTypeSizeInBits(ty));
    T t = load(s, p, bytes, I);
    v.t = bits == bytes * 8 ? t : mkTrunc(t, bits);
    return v;
}
void Exec::storeTy(State & s, T p, Val v, Type * ty, Instruction * I)
{
    if (auto * st = dyn_cast<StructType>(ty)) {
        auto * sl = DL.getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) {
            storeTy(s, mkAdd(p, mkC(64, sl->getElementOffset(i))), (*v.g)[i], st->getElementType(i), I);
        }
        return;
    }
    if (auto * at = dyn_cast<ArrayType>(ty)) {
        uint64_t es = DL.getTypeAllocSize(at->getElementType());
        for (unsigned i = 0; i < at->getNumElements(); ++i) {
            storeTy(s, mkAdd(p, mkC(64, i * es)), (*v.g)[i], at->getElementType(), I);
        }
        return;
    }
    unsigned bytes = unsigned(DL.getTypeStoreSize(ty));
    store(s, p, mkZExt(v.t, bytes * 8), I);
}

void Exec::copyMem(State & s, T d, T sp, T n, Instruction & I, bool move)
{
    checkInit(s, n, &I, "copy length");
    if (n->isConst() && n->c.isZero()) {
        return;
    }
    int od, os;
    T fd, fs;
    bool okd = splitPtr(s, d, od, fd, &I);
    bool oks = splitPtr(s, sp, os, fs, &I);
    if (!okd || !oks) {
        // only legal when nothing is copied
        obligation(s, mkEq(n, mkC(64, 0)), "memory", "copy through an invalid pointer", &I, str(okd ? sp : d));
        addPC(s, mkEq(n, mkC(64, 0)));
        return;
    }
    auto chk = [&](int o, T off, bool w) {
        auto & info = *objs[o];
        T in = mkAnd(mkUle(n, info.size), mkUle(off, mkSub(info.size, n)));
        if (!objc(s, o).alive || (w && info.ro)) {
            in = mkFalse();
        }
        obligation(s, mkOr(mkEq(n, mkC(64, 0)), in), "memory", w ? "copy destination in bounds" : "copy source in bounds",
                   &I, info.name + " size " + str(info.size) + " offset " + str(off) + " length " + str(n));
    };
    chk(od, fd, true);
    chk(os, fs, false);
    if (od == os && !move && fd != fs) {
        T dist = mkSub(fd, fs);
        T sep = mkOr(mkEq(n, mkC(64, 0)),
                     mkAnd(mkUge(dist, n), mkUge(mkNeg(dist), n)));
        obligation(s, sep, "memory", "copy ranges do not overlap", &I, "");
    }
    noteWrite(s, od, fd, n);
    if (n->isConst() && n->c.getZExtValue() <= 16) {
        unsigned k = unsigned(n->c.getZExtValue());
        T v = readLog(s, objc(s, os).log, fs, k);
        rawStore(s, od, fd, v);
        return;
    }
    const LogNode * src = objc(s, os).log;
    auto nl = new LogNode;
    nl->kind = LogNode::COPY;
    nl->off = fd;
    nl->len = n;
    nl->src = src;
    nl->srcOff = fs;
    auto & o = obj(s, od);
    nl->next = o.log;
    // whole-object overwrite forgets history
    o.log = nl;
}
void Exec::setMem(State & s, T d, T b, T n, Instruction & I)
{
    checkInit(s, n, &I, "fill length");
    if (n->isConst() && n->c.isZero()) {
        return;
    }
    int od;
    T fd;
    if (!splitPtr(s, d, od, fd, &I)) {
        obligation(s, mkEq(n, mkC(64, 0)), "memory", "fill through an invalid pointer", &I, str(d));
        addPC(s, mkEq(n, mkC(64, 0)));
        return;
    }
    auto & info = *objs[od];
    T in = mkAnd(mkUle(n, info.size), mkUle(fd, mkSub(info.size, n)));
    if (!objc(s, od).alive || info.ro) {
        in = mkFalse();
    }
    obligation(s, mkOr(mkEq(n, mkC(64, 0)), in), "memory", "fill in bounds", &I,
               info.name + " size " + str(info.size) + " offset " + str(fd) + " length " + str(n));
    noteWrite(s, od, fd, n);
    if (n->isConst() && n->c.getZExtValue() <= 16) {
        unsigned k = unsigned(n->c.getZExtValue());
        rawStore(s, od, fd, mkConcat(std::vector<T>(k, b)));
        return;
    }
    auto nl = new LogNode;
    nl->kind = LogNode::SET;
    nl->off = fd;
    nl->len = n;
    nl->val = b;
    auto & o = obj(s, od);
    nl->next = o.log;
    o.log = nl;
}

std::string Exec::cstr(State & s, T p)
{
    int o;
    T off;
    if (!splitPtr(s, p, o, off, nullptr) || !off->isConst()) {
        return "?";
    }
    std::string r;
    for (uint64_t i = off->c.getZExtValue(); r.size() < 200; ++i) {
        T b = readLog(s, objc(s, o).log, mkC(64, i), 1);
        if (!b->isConst() || b->c.isZero()) {
            break;
        }
        r += char(b->c.getZExtValue());
    }
    return r;
}

// ---------------------------------------------------------------- values
Val Exec::zeroVal(Type * ty)
{
    Val v;
    if (auto * st = dyn_cast<StructType>(ty)) {
        v.g = std::make_shared<std::vector<Val>>();
        for (auto * e : st->elements()) {
            v.g->push_back(zeroVal(e));
        }
    } else if (auto * at = dyn_cast<ArrayType>(ty)) {
        v.g = std::make_shared<std::vector<Val>>();
        for (unsigned i = 0; i < at->getNumElements(); ++i) {
            v.g->push_back(zeroVal(at->getElementType()));
        }
    } else if (ty->isSized() && !ty->isVectorTy()) {
        v.t = mkC(APInt(unsigned(DL.getTypeSizeInBits(ty)), 0));
    } else {
        throw ToolError{"zero of unsupported type"};
    }
    return v;
}
Val Exec::undefVal(Type * ty, const char * n)
{
    Val v;
    if (auto * st = dyn_cast<StructType>(ty)) {
        v.g = std::make_shared<std::vector<Val>>();
        for (auto * e : st->elements()) {
            v.g->push_back(undefVal(e, n));
        }
    } else if (auto * at = dyn_cast<ArrayType>(ty)) {
        v.g = std::make_shared<std::vector<Val>>();
        for (unsigned i = 0; i < at->getNumElements(); ++i) {
            v.g->push_back(undefVal(at->getElementType(), n));
        }
    } else if (!ty->isVectorTy()) {
        v.t = mkUninitVar(n, unsigned(DL.getTypeSizeInBits(ty)));
    } else {
        throw ToolError{"undef of unsupported type"};
    }
    return v;
}

Val Exec::get(State & s, Value * v)
{
    if (auto * c = dyn_cast<Constant>(v)) {
        return evalConst(s, c);
    }
    auto & f = s.fr.back();
    auto it = f.fi->idx.find(v);
    if (it == f.fi->idx.end()) {
        throw ToolError{"unknown value"};
    }
    return f.regs[it->second];
}

Val Exec::evalConst(State & s, Constant * c)
{
    Val v;
    if (auto * ci = dyn_cast<ConstantInt>(c)) {
        v.t = mkC(ci->getValue());
        return v;
    }
    if (auto * cf = dyn_cast<ConstantFP>(c)) {
        v.t = mkC(cf->getValueAPF().bitcastToAPInt());
        return v;
    }
    if (isa<ConstantPointerNull>(c)) {
        v.t = mkC(64, 0);
        return v;
    }
    if (isa<UndefValue>(c)) { // and poison
        return undefVal(c->getType(), "undef");
    }
    if (isa<ConstantAggregateZero>(c)) {
        return zeroVal(c->getType());
    }
    if (auto * ca = dyn_cast<ConstantAggregate>(c)) {
        v.g = std::make_shared<std::vector<Val>>();
        for (auto & op : ca->operands()) {
            v.g->push_back(evalConst(s, cast<Constant>(&op)));
        }
        return v;
    }
    if (auto * cd = dyn_cast<ConstantDataSequential>(c)) {
        v.g = std::make_shared<std::vector<Val>>();
        for (unsigned i = 0; i < cd->getNumElements(); ++i) {
            v.g->push_back(evalConst(s, cd->getElementAsConstant(i)));
        }
        return v;
    }
    if (auto * ga = dyn_cast<GlobalAlias>(c)) {
        return evalConst(s, ga->getAliasee());
    }
    if (auto * f = dyn_cast<Function>(c)) {
        auto it = faddr.find(f);
        if (it == faddr.end()) {
            T t = mkBaseVar("fn:" + dem(f->getName()).substr(0, 60), -1);
            vars[t->aux].isBase = false;
            vars[t->aux].fn = int(fnList.size());
            fnList.push_back(f);
            it = faddr.emplace(f, t).first;
        }
        v.t = it->second;
        return v;
    }
    if (auto * g = dyn_cast<GlobalVariable>(c)) {
        int id = globalObj(s, g);
        v.t = objs[id]->base;
        return v;
    }
    if (auto * ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            auto * g = cast<GEPOperator>(ce);
            T b = get(s, g->getPointerOperand()).t;
            v.t = mkAdd(b, gepOffset(s, *g));
            return v;
        }
        case Instruction::PtrToInt:
        case Instruction::IntToPtr:
        case Instruction::BitCast:
        case Instruction::Trunc:
        case Instruction::ZExt: {
            T t = evalConst(s, ce->getOperand(0)).t;
            unsigned w = unsigned(DL.getTypeSizeInBits(ce->getType()));
            v.t = w <= t->w ? mkTrunc(t, w) : mkZExt(t, w);
            return v;
        }
        case Instruction::Add:
            v.t = mkAdd(evalConst(s, ce->getOperand(0)).t, evalConst(s, ce->getOperand(1)).t);
            return v;
        case Instruction::Sub:
            v.t = mkSub(evalConst(s, ce->getOperand(0)).t, evalConst(s, ce->getOperand(1)).t);
            return v;
        case Instruction::And:
            v.t = mkAnd(evalConst(s, ce->getOperand(0)).t, evalConst(s, ce->getOperand(1)).t);
            return v;
        case Instruction::Or:
            v.t = mkOr(evalConst(s, ce->getOperand(0)).t, evalConst(s, ce->getOperand(1)).t);
            return v;
        case Instruction::Xor:
            v.t = mkXor(evalConst(s, ce->getOperand(0)).t, evalConst(s, ce->getOperand(1)).t);
            return v;
        case Instruction::ICmp: {
            T a = evalConst(s, ce->getOperand(0)).t, b = evalConst(s, ce->getOperand(1)).t;
            if (ce->getPredicate() == CmpInst::ICMP_EQ) {
                v.t = mkEq(a, b);
                return v;
            }
            if (ce->getPredicate() == CmpInst::ICMP_NE) {
                v.t = mkNe(a, b);
                return v;
            }
            switch (ce->getPredicate()) {
            case CmpInst::ICMP_ULT: v.t = mkUlt(a, b); return v;
            case CmpInst::ICMP_UGT: v.t = mkUlt(b, a); return v;
            case CmpInst::ICMP_ULE: v.t = mkBNot(mkUlt(b, a)); return v;
            case CmpInst::ICMP_UGE: v.t = mkBNot(mkUlt(a, b)); return v;
            default: break;
            }
            break;
        }
        default:
            break;
        }
        { std::string txt; raw_string_ostream os(txt); c->print(os); throw ToolError{"unsupported constant expression " + os.str().substr(0, 200)}; }
    }
    throw ToolError{"unsupported constant"};
}

T Exec::gepOffset(State & s, GEPOperator & g)
{
    T off = mkC(64, 0);
    for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
        Value * idx = gti.getOperand();
        if (StructType * st = gti.getStructTypeOrNull()) {
            unsigned k = unsigned(cast<ConstantInt>(idx)->getZExtValue());
            off = mkAdd(off, mkC(64, DL.getStructLayout(st)->getElementOffset(k)));
        } else {
            uint64_t es = DL.getTypeAllocSize(gti.getIndexedType());
            T i = get(s, idx).t;
            if (i->w < 64) {
                i = mkSExt(i, 64);
            } else if (i->w > 64) {
                i = mkTrunc(i, 64);
            }
            off = mkAdd(off, mkMulC(i, APInt(64, es)));
        }
    }
    return off;
}

void Exec::set(State & s, Instruction & I, Val v)
{
    auto & f = s.fr.back();
    f.regs[f.fi->idx.at(&I)] = std::move(v);
}
void Exec::setT(State & s, Instruction & I, T t)
{
    Val v;
    v.t = t;
    set(s, I, v);
}

// ---------------------------------------------------------------- control
Function * Exec::contractOf(Function * F)
{
    auto it = contractFor.find(F);
    if (it != contractFor.end()) {
        return it->second;
    }
    Function * r = nullptr;
    if (!O.contracts.empty()) {
        std::string d = dem(F->getName());
        for (auto & [re, fn] : O.contracts) {
            if (std::regex_search(d, std::regex(re))) {
                Function * c = M.getFunction(fn);
                if (c && c->getFunctionType() == F->getFunctionType()) {
                    r = c;
                    contractsUsed.insert(fn + " for " + d.substr(0, 200));
                    break;
                }
            }
        }
    }
    contractFor[F] = r;
    return r;
}

void Exec::enter(State & s, Function * F, const CallBase * call, std::vector<Val> args)
{
    if (s.fr.size() > 400) {
        throw ToolError{"call depth"};
    }
    functionsSeen.insert(F->getName().str());
    Frame f;
    f.F = F;
    f.fi = info(F);
    f.regs.resize(f.fi->n);
    f.bb = &F->getEntryBlock();
    f.it = f.bb->begin();
    f.call = call;
    f.hash = mix(s.fr.empty() ? 1 : s.fr.back().hash, uint64_t(uintptr_t(call)));
    f.hash = mix(f.hash, uint64_t(uintptr_t(F)));
    unsigned i = 0;
    for (auto & a : F->args()) {
        Val v = args[i];
        if (call && call->isByValArgument(i)) {
            Type * ty = call->getParamByValType(i);
            int o = newObj(s, "byval", mkC(64, DL.getTypeAllocSize(ty)), ObjInfo::STACK, baseNode(LogNode::UNINIT));
            int so;
            T off;
            if (!splitPtr(s, v.t, so, off, nullptr)) {
                throw ToolError{"byval pointer"};
            }
            auto nl = new LogNode;
            nl->kind = LogNode::COPY;
            nl->off = mkC(64, 0);
            nl->len = mkC(64, DL.getTypeAllocSize(ty));
            nl->src = objc(s, so).log;
            nl->srcOff = off;
            nl->next = objc(s, o).log;
            obj(s, o).log = nl;
            f.allocas.push_back(o);
            v.t = objs[o]->base;
        }
        f.regs[f.fi->idx.at(&a)] = v;
        ++i;
    }
    s.fr.push_back(std::move(f));
}

void Exec::leave(State & s, Val v)
{
    auto & f = s.fr.back();
    for (int o : f.allocas) {
        wmem(s).erase(o);
    }
    const CallBase * call = f.call;
    s.fr.pop_back();
    s.ret = v;
    if (s.fr.size() <= ctx->retDepth || s.fr.empty()) {
        ctx->rets.push_back(new State(s));
        throw KillPath{};
    }
    if (call) {
        auto & g = s.fr.back();
        if (!call->getType()->isVoidTy()) {
            g.regs[g.fi->idx.at(call)] = v;
        }
        if (auto * inv = dyn_cast<InvokeInst>(call)) {
            takeEdge(s, inv->getNormalDest());
        } else {
            ++g.it;
        }
    }
}

void Exec::unwind(State & s, Instruction & I)
{
    ++throws;
    // find the innermost invoke
    while (!s.fr.empty()) {
        if (s.fr.size() <= ctx->retDepth + 1) {
            break;
        }
        auto & f = s.fr.back();
        for (int o : f.allocas) {
            wmem(s).erase(o);
        }
        const CallBase * call = f.call;
        s.fr.pop_back();
        if (auto * inv = dyn_cast_or_null<InvokeInst>(call)) {
            takeEdge(s, inv->getUnwindDest());
            return;
        }
    }
    // leaves the proof harness
    if (!s.throwOk) {
        obligation(s, mkFalse(), "throw", "no exception escapes", &I, "");
    }
    throw KillPath{};
}

void Exec::takeEdge(State & s, BasicBlock * to)
{
    auto & f = s.fr.back();
    BasicBlock * from = f.bb;
    size_t depth = s.fr.size() - 1;
    if (ctx->loop && depth == ctx->depth) {
        if (to == ctx->loop->getHeader() && ctx->loop->contains(from)) {
            s.pendingTo = to;
            ctx->back.push_back(new State(s));
            throw KillPath{};
        }
        if (!ctx->loop->contains(to)) {
            s.pendingTo = to;
            ctx->exits.push_back(new State(s));
            throw KillPath{};
        }
    }
    const Loop * L = f.fi->li->getLoopFor(to);
    if (L && L->getHeader() == to) {
        uint64_t key = mix(f.hash, uint64_t(uintptr_t(to)));
        if (L->contains(from)) {
            auto & c = f.cnt[L];
            if (c.forced && !c.sym && ++c.f > std::max(32, O.unroll)) {
                // the path condition says it runs long
                c.sym = true;
                c.n = 1 << 20;
            }
            c.forced = false;
            if (c.sym) {
                ++c.n;
                c.sym = false;
                // the loops of the contracts themselves are kept as they are written
                int limit = O.unroll;
                if (auto * dl = to->getTerminator()->getDebugLoc().get()) {
                    auto file = dl->getFilename();
                    if (!file.ends_with("zpp_bits.h") && !file.starts_with("/usr/") && file.find("include/c++") == StringRef::npos) {
                        limit = std::max(limit, 11);
                    }
                }
                if (c.n > limit) {
                    if (O.hunt) {
                        ++pruned;
                        throw KillPath{};
                    }
                    inductive.insert(key);
                    loopsInductive.insert(locOf(to->getTerminator()));
                    throw Restart{};
                }
            }
        } else {
            f.cnt[L] = LoopCnt{};
            if (inductive.count(key)) {
                doInductive(s, L, to);
                throw KillPath{};
            }
            loopsUnrolled.insert(locOf(to->getTerminator()));
        }
    }
    // phis, simultaneously
    std::vector<std::pair<int, Val>> nv;
    for (auto & phi : to->phis()) {
        nv.emplace_back(f.fi->idx.at(&phi), get(s, phi.getIncomingValueForBlock(from)));
    }
    for (auto & [i, v] : nv) {
        f.regs[i] = v;
    }
    f.prev = from;
    f.bb = to;
    f.it = to->getFirstNonPHIIt();
}

// Two arms that only compute (loads only from locals) and meet again are
// executed together: their results become if-then-else terms.
bool Exec::mergeArms(State & s, T cond, BasicBlock * a, BasicBlock * b)
{
    if (a == b) {
        return false;
    }
    auto from = s.fr.back().bb;
    auto arm = [&](BasicBlock * x) -> BasicBlock * { // where an arm leads
        auto br = dyn_cast<BranchInst>(x->getTerminator());
        if (!br || br->isConditional() || x->getSinglePredecessor() != from || x->size() > 24) {
            return nullptr;
        }
        for (auto & i : *x) {
            if (i.isTerminator() || isa<DbgInfoIntrinsic>(i) || isa<CastInst>(i) || isa<CmpInst>(i) || isa<SelectInst>(i) || isa<LoadInst>(i) ||
                isa<GetElementPtrInst>(i)) {
                continue;
            }
            if (auto o = dyn_cast<BinaryOperator>(&i); o && o->getOpcode() != Instruction::UDiv && o->getOpcode() != Instruction::SDiv &&
                                                       o->getOpcode() != Instruction::URem && o->getOpcode() != Instruction::SRem) {
                continue;
            }
            return nullptr;
        }
        return br->getSuccessor(0);
    };
    BasicBlock *ja = arm(a), *jb = arm(b), *j;
    std::vector<BasicBlock *> todo;
    if (ja && ja == jb) {
        j = ja;
        todo = {a, b};
    } else if (ja == b) {
        j = b;
        todo = {a};
        b = from;
    } else if (jb == a) {
        j = a;
        todo = {b};
        a = from;
    } else {
        return false;
    }
    auto & fi = *s.fr.back().fi;
    auto L = fi.li->getLoopFor(from);
    if (fi.li->getLoopFor(j) != L || (L && L->getHeader() == j)) {
        return false;
    }
    auto bb = s.fr.back().bb;
    auto it = s.fr.back().it;
    auto restore = [&] {
        s.fr.back().bb = bb;
        s.fr.back().it = it;
        return false;
    };
    for (auto x : todo) {
        s.fr.back().bb = x;
        for (auto & i : *x) {
            if (i.isTerminator() || isa<DbgInfoIntrinsic>(i)) {
                continue;
            }
            if (auto l = dyn_cast<LoadInst>(&i)) {
                if (!l->getType()->isIntegerTy() && !l->getType()->isPointerTy()) {
                    return restore();
                }
                T p = get(s, l->getPointerOperand()).t;
                if (!p || p->uninit) {
                    return restore();
                }
                bool fine = false;
                uint64_t n = DL.getTypeStoreSize(l->getType());
                for (auto o : objs) {
                    if (!o || o->kind != ObjInfo::STACK || !o->size->isConst()) {
                        continue;
                    }
                    T d = mkSub(p, o->base);
                    if (d->isConst() && d->c.getZExtValue() + n <= o->size->c.getZExtValue() && d->c.getZExtValue() < (1ull << 32)) {
                        fine = s.mem->find(o->id) != s.mem->end() && objc(s, o->id).alive;
                        break;
                    }
                }
                if (!fine) {
                    return restore();
                }
            }
            s.fr.back().it = i.getIterator();
            exec(s, i);
        }
    }
    std::vector<std::pair<int, Val>> nv;
    for (auto & phi : j->phis()) {
        if (!phi.getType()->isIntegerTy() && !phi.getType()->isPointerTy()) {
            return restore();
        }
        T x = get(s, phi.getIncomingValueForBlock(a)).t, y = get(s, phi.getIncomingValueForBlock(b)).t;
        Val v;
        v.t = mkIte(cond, x, y);
        nv.emplace_back(fi.idx.at(&phi), v);
    }
    auto & f = s.fr.back();
    for (auto & [i, v] : nv) {
        f.regs[i] = v;
    }
    f.prev = nullptr;
    f.bb = j;
    f.it = j->getFirstNonPHIIt();
    return true;
}

void Exec::branchOn(State & s, T cond, BasicBlock * a, BasicBlock * b, Instruction & I)
{
    if (cond->isConst()) {
        takeEdge(s, cond->isTrue() ? a : b);
        return;
    }
    checkInit(s, cond, &I, "branch");
    if (O.merge && mergeArms(s, cond, a, b)) {
        return;
    }
    if (ctx->loop) {
        for (Ctx * c = ctx; c && c->loop; c = c->parent) {
            c->conds.insert(cond);
        }
    }
    bool ca, cb;
    std::shared_ptr<Model> ma, mb;
    if (s.m) {
        bool v = evalIn(s, cond);
        (v ? ma : mb) = s.m;
        Res r = query(s, v ? mkBNot(cond) : cond, v ? &mb : &ma, false, true);
        ca = v || r != Res::UNSAT;
        cb = !v || r != Res::UNSAT;
    } else {
        ca = query(s, cond, &ma, false, true) != Res::UNSAT;
        cb = query(s, mkBNot(cond), &mb, false, true) != Res::UNSAT;
    }
    if (!ca && !cb) {
        throw KillPath{}; // path condition became unsatisfiable
    }
    if (ca != cb) {
        if (!s.m) {
            s.m = ca ? ma : mb;
        }
        {
            auto & f = s.fr.back();
            auto leaves = [](const Loop * L, BasicBlock * x) { return !L->contains(x) && !isa<UnreachableInst>(x->getTerminator()); };
            for (const Loop * L = f.fi->li->getLoopFor(f.bb); L; L = L->getParentLoop()) {
                if (leaves(L, a) || leaves(L, b)) {
                    f.cnt[L].forced = true;
                }
            }
        }
        takeEdge(s, ca ? a : b);
        return;
    }
    // both: mark loops exited symbolically
    auto & f = s.fr.back();
    for (const Loop * L = f.fi->li->getLoopFor(f.bb); L; L = L->getParentLoop()) {
        f.cnt[L].sym = true;
    }
    // a symbolic decision anywhere in a callee counts for the callers' loops too
    for (size_t i = 0; i + 1 < s.fr.size(); ++i) {
        auto & g = s.fr[i];
        for (const Loop * L = g.fi->li->getLoopFor(g.bb); L; L = L->getParentLoop()) {
            g.cnt[L].sym = true;
        }
    }
    State * o = new State(s);
    auto go = [&](State & x, T c, std::shared_ptr<Model> m, BasicBlock * to) {
        addPC(x, c);
        x.m = m;
        takeEdge(x, to);
    };
    // continue inside the innermost loop first: an unbounded loop is found
    // (and the run restarted) before its exits are explored
    if (auto * L = f.fi->li->getLoopFor(f.bb); L && L->contains(b) && (!L->contains(a) || b == L->getHeader())) {
        std::swap(a, b);
        std::swap(ma, mb);
        cond = mkBNot(cond);
    }
    // explore b later
    try {
        go(*o, mkBNot(cond), mb, b);
        ctx->wl.push_back(o);
    } catch (KillPath &) {
        delete o;
    }
    go(s, cond, ma, a);
}

void Exec::stepPath(State * sp)
{
    State & s = *sp;
    try {
        for (;;) {
            auto & f = s.fr.back();
            Instruction & I = *f.it;
            ++instrs;
            if (auto * dl = I.getDebugLoc().get()) {
                noteLoc(dl);
            }
            if ((instrs & 1023) == 0) {
                tick();
            }
            if (++s.steps > 4000000) {
                throw ToolError{"path too long"};
            }
            try {
                exec(s, I);
            } catch (ForkOn & fk) {
                State * o = new State(s);
                bool okO = true, okS = true;
                try {
                    addPC(*o, mkBNot(fk.cond));
                } catch (KillPath &) {
                    okO = false;
                }
                try {
                    addPC(s, fk.cond);
                } catch (KillPath &) {
                    okS = false;
                }
                if (okO) {
                    ctx->wl.push_back(o);
                } else {
                    delete o;
                }
                if (!okS) {
                    throw KillPath{};
                }
            }
        }
    } catch (KillPath &) {
        ++paths;
    }
    delete sp;
}

void Exec::explore(std::vector<State *> init, Ctx & c)
{
    c.parent = ctx;
    if (ctx) {
        c.assume |= ctx->assume;
    }
    ctx = &c;
    c.wl = std::move(init);
    while (!c.wl.empty()) {
        State * s = c.wl.back();
        c.wl.pop_back();
        if (s->pendingTo) {
            BasicBlock * to = s->pendingTo;
            s->pendingTo = nullptr;
            try {
                takeEdge(*s, to);
            } catch (KillPath &) {
                ++paths;
                delete s;
                continue;
            }
        }
        stepPath(s);
    }
    ctx = c.parent;
}

// ---------------------------------------------------------------- instructions
void Exec::exec(State & s, Instruction & I)
{
    auto & f = s.fr.back();
    auto next = [&] { ++s.fr.back().it; };
    auto W = [&](Type * t) { return unsigned(DL.getTypeSizeInBits(t)); };
    if (I.getType()->isVectorTy()) {
        throw ToolError{"vector instruction at " + locOf(&I)};
    }
    switch (I.getOpcode()) {
    case Instruction::Alloca: {
        auto & A = cast<AllocaInst>(I);
        T n = get(s, A.getArraySize()).t;
        if (n->w < 64) {
            n = mkZExt(n, 64);
        }
        T sz = mkMulC(n, APInt(64, DL.getTypeAllocSize(A.getAllocatedType())));
        std::string nm = A.getName().empty() ? std::string("tmp") : A.getName().str();
        int o = newObj(s, nm, sz, ObjInfo::STACK, baseNode(LogNode::UNINIT));
        f.allocas.push_back(o);
        setT(s, I, objs[o]->base);
        next();
        return;
    }
    case Instruction::Load: {
        auto & L = cast<LoadInst>(I);
        Val v = loadTy(s, get(s, L.getPointerOperand()).t, L.getType(), &I);
        set(s, I, v);
        next();
        return;
    }
    case Instruction::Store: {
        auto & L = cast<StoreInst>(I);
        storeTy(s, get(s, L.getPointerOperand()).t, get(s, L.getValueOperand()), L.getValueOperand()->getType(), &I);
        next();
        return;
    }
    case Instruction::GetElementPtr: {
        auto & g = cast<GEPOperator>(I);
        setT(s, I, mkAdd(get(s, g.getPointerOperand()).t, gepOffset(s, g)));
        next();
        return;
    }
    case Instruction::Add:
    case Instruction::Sub:
    case Instruction::Mul:
    case Instruction::And:
    case Instruction::Or:
    case Instruction::Xor:
    case Instruction::Shl:
    case Instruction::LShr:
    case Instruction::AShr:
    case Instruction::UDiv:
    case Instruction::SDiv:
    case Instruction::URem:
    case Instruction::SRem: {
        T a = get(s, I.getOperand(0)).t, b = get(s, I.getOperand(1)).t;
        T r = nullptr;
        auto divisible = [&](uint64_t k) -> T {
            // a == k * q with q small enough not to have wrapped?
            if (a->op != Op::SUM || a->w > 64 || k < 2) {
                return nullptr;
            }
            if (a->c.isZero() ? false : a->c.getSExtValue() % int64_t(k) != 0) {
                return nullptr;
            }
            for (auto & c : a->k) {
                if (c.getSExtValue() % int64_t(k) != 0) {
                    return nullptr;
                }
            }
            T q = mkC(APInt(a->w, uint64_t(a->c.getSExtValue() / int64_t(k))));
            for (size_t i = 0; i < a->a.size(); ++i) {
                q = mkAdd(q, mkMulC(a->a[i], APInt(a->w, uint64_t(a->k[i].getSExtValue() / int64_t(k)))));
            }
            // q in [0, 2^(w-1)/k)
            APInt lim = APInt::getSignedMaxValue(a->w).udiv(APInt(a->w, k));
            if (must(s, mkUle(q, mkC(lim)))) {
                return q;
            }
            return nullptr;
        };
        switch (I.getOpcode()) {
        case Instruction::Add: r = mkAdd(a, b); break;
        case Instruction::Sub: r = mkSub(a, b); break;
        case Instruction::Mul: r = mkMul(a, b); break;
        case Instruction::And: r = mkAnd(a, b); break;
        case Instruction::Or: r = mkOr(a, b); break;
        case Instruction::Xor: r = mkXor(a, b); break;
        case Instruction::Shl: r = mkShl(a, b); break;
        case Instruction::LShr:
        case Instruction::AShr:
            if (b->isConst() && b->c.ult(40)) {
                r = divisible(1ull << b->c.getZExtValue());
            }
            if (!r) {
                r = I.getOpcode() == Instruction::LShr ? mkLShr(a, b) : mkAShr(a, b);
            }
            break;
        case Instruction::UDiv:
        case Instruction::SDiv:
            if (b->isConst() && b->w <= 64 && b->c.isStrictlyPositive()) {
                r = divisible(b->c.getZExtValue());
            }
            if (!b->isConst()) {
                obligation(s, mkNe(b, mkC(b->w, 0)), "arith", "division by zero", &I);
            }
            if (!r) {
                r = I.getOpcode() == Instruction::UDiv ? mkUDiv(a, b) : mkSDiv(a, b);
            }
            break;
        case Instruction::URem:
        case Instruction::SRem:
            if (!b->isConst()) {
                obligation(s, mkNe(b, mkC(b->w, 0)), "arith", "division by zero", &I);
            }
            r = I.getOpcode() == Instruction::URem ? mkURem(a, b) : mkSRem(a, b);
            break;
        }
        setT(s, I, r);
        next();
        return;
    }
    case Instruction::Trunc:
        setT(s, I, mkTrunc(get(s, I.getOperand(0)).t, W(I.getType())));
        next();
        return;
    case Instruction::ZExt:
        setT(s, I, mkZExt(get(s, I.getOperand(0)).t, W(I.getType())));
        next();
        return;
    case Instruction::SExt:
        setT(s, I, mkSExt(get(s, I.getOperand(0)).t, W(I.getType())));
        next();
        return;
    case Instruction::PtrToInt:
    case Instruction::IntToPtr: {
        T t = get(s, I.getOperand(0)).t;
        unsigned w = W(I.getType());
        setT(s, I, w <= t->w ? mkTrunc(t, w) : mkZExt(t, w));
        next();
        return;
    }
    case Instruction::BitCast:
    case Instruction::Freeze:
        set(s, I, get(s, I.getOperand(0)));
        next();
        return;
    case Instruction::ICmp: {
        auto & C = cast<ICmpInst>(I);
        T a = get(s, C.getOperand(0)).t, b = get(s, C.getOperand(1)).t;
        T r = nullptr;
        if (C.isEquality() && a->hasBase && b->hasBase && a->w == 64) {
            // pointers into two different live objects never compare equal
            int oa, ob;
            T fa, fb;
            if (splitPtr(s, a, oa, fa, &I) && splitPtr(s, b, ob, fb, &I) && oa != ob && oa >= 0 && ob >= 0 &&
                (s.mem->count(oa) || ginit.count(oa)) && (s.mem->count(ob) || ginit.count(ob)) &&
                objc(s, oa).alive && objc(s, ob).alive) {
                auto inside = [&](int o, T f) {
                    return f->isConst() && (f->c.isZero() || must(s, mkUlt(f, objs[o]->size)));
                };
                if (inside(oa, fa) && inside(ob, fb)) {
                    setT(s, I, C.getPredicate() == CmpInst::ICMP_EQ ? mkFalse() : mkTrue());
                    next();
                    return;
                }
            }
        }
        switch (C.getPredicate()) {
        case CmpInst::ICMP_EQ: r = mkEq(a, b); break;
        case CmpInst::ICMP_NE: r = mkNe(a, b); break;
        case CmpInst::ICMP_ULT: r = mkUlt(a, b); break;
        case CmpInst::ICMP_ULE: r = mkUle(a, b); break;
        case CmpInst::ICMP_UGT: r = mkUlt(b, a); break;
        case CmpInst::ICMP_UGE: r = mkUle(b, a); break;
        case CmpInst::ICMP_SLT: r = mkSlt(a, b); break;
        case CmpInst::ICMP_SLE: r = mkSle(a, b); break;
        case CmpInst::ICMP_SGT: r = mkSlt(b, a); break;
        case CmpInst::ICMP_SGE: r = mkSle(b, a); break;
        default: throw ToolError{"icmp"};
        }
        setT(s, I, r);
        next();
        return;
    }
    case Instruction::Select: {
        T c = get(s, I.getOperand(0)).t;
        Val a = get(s, I.getOperand(1)), b = get(s, I.getOperand(2));
        if (a.t) {
            setT(s, I, mkIte(c, a.t, b.t));
        } else {
            if (must(s, c)) {
                set(s, I, a);
            } else if (must(s, mkBNot(c))) {
                set(s, I, b);
            } else {
                throw ForkOn{c};
            }
        }
        next();
        return;
    }
    case Instruction::ExtractValue: {
        auto & E = cast<ExtractValueInst>(I);
        Val v = get(s, E.getAggregateOperand());
        for (unsigned i : E.indices()) {
            Val w = (*v.g)[i];
            v = w;
        }
        set(s, I, v);
        next();
        return;
    }
    case Instruction::InsertValue: {
        auto & E = cast<InsertValueInst>(I);
        Val v = get(s, E.getAggregateOperand());
        Val x = get(s, E.getInsertedValueOperand());
        std::function<Val(Val, ArrayRef<unsigned>)> ins = [&](Val v, ArrayRef<unsigned> ix) -> Val {
            if (ix.empty()) {
                return x;
            }
            Val r;
            r.g = std::make_shared<std::vector<Val>>(*v.g);
            (*r.g)[ix[0]] = ins((*v.g)[ix[0]], ix.drop_front());
            return r;
        };
        set(s, I, ins(v, E.getIndices()));
        next();
        return;
    }
    case Instruction::Br: {
        auto & B = cast<BranchInst>(I);
        if (B.isUnconditional()) {
            takeEdge(s, B.getSuccessor(0));
        } else {
            branchOn(s, get(s, B.getCondition()).t, B.getSuccessor(0), B.getSuccessor(1), I);
        }
        return;
    }
    case Instruction::Switch: {
        auto & B = cast<SwitchInst>(I);
        T c = get(s, B.getCondition()).t;
        if (c->isConst()) {
            auto * ci = ConstantInt::get(M.getContext(), c->c);
            takeEdge(s, B.findCaseValue(ci)->getCaseSuccessor());
            return;
        }
        checkInit(s, c, &I, "switch");
        // group by successor
        std::map<BasicBlock *, T> g;
        std::vector<BasicBlock *> order;
        T any = mkFalse();
        for (auto & cs : B.cases()) {
            T e = mkEq(c, mkC(cs.getCaseValue()->getValue()));
            auto * bb = cs.getCaseSuccessor();
            if (!g.count(bb)) {
                g[bb] = mkFalse();
                order.push_back(bb);
            }
            g[bb] = mkOr(g[bb], e);
            any = mkOr(any, e);
        }
        auto * db = B.getDefaultDest();
        if (!g.count(db)) {
            g[db] = mkFalse();
            order.push_back(db);
        }
        g[db] = mkOr(g[db], mkBNot(any));
        std::vector<std::pair<BasicBlock *, std::shared_ptr<Model>>> feas;
        for (auto * bb : order) {
            T cc = g[bb];
            if (cc->isFalse()) {
                continue;
            }
            std::shared_ptr<Model> m;
            if (s.m && evalIn(s, cc)) {
                feas.emplace_back(bb, s.m);
            } else if (query(s, cc, &m, false, true) != Res::UNSAT) {
                feas.emplace_back(bb, m);
            }
        }
        if (feas.empty()) {
            throw KillPath{};
        }
        if (feas.size() > 1) {
            for (auto & fr : s.fr) {
                for (const Loop * L = fr.fi->li->getLoopFor(fr.bb); L; L = L->getParentLoop()) {
                    fr.cnt[L].sym = true;
                }
            }
        }
        for (size_t i = 1; i < feas.size(); ++i) {
            State * o = new State(s);
            try {
                addPC(*o, g[feas[i].first]);
                o->m = feas[i].second;
                takeEdge(*o, feas[i].first);
                ctx->wl.push_back(o);
            } catch (KillPath &) {
                delete o;
            }
        }
        if (feas.size() > 1) {
            addPC(s, g[feas[0].first]);
        }
        s.m = feas[0].second;
        takeEdge(s, feas[0].first);
        return;
    }
    case Instruction::Ret: {
        auto & R = cast<ReturnInst>(I);
        Val v;
        if (R.getReturnValue()) {
            v = get(s, R.getReturnValue());
        }
        leave(s, v);
        return;
    }
    case Instruction::Unreachable:
        obligation(s, mkFalse(), "reach", "unreachable code is not reached", &I, "");
        throw KillPath{};
    case Instruction::Call:
    case Instruction::Invoke:
        execCall(s, cast<CallBase>(I));
        return;
    case Instruction::LandingPad: {
        auto & L = cast<LandingPadInst>(I);
        int sel = 0;
        bool match = L.isCleanup();
        for (unsigned i = 0; i < L.getNumClauses() && L.isCatch(i); ++i) {
            Constant * c = L.getClause(i);
            auto * g = dyn_cast<GlobalVariable>(c);
            if (!g || g == s.excType) {
                if (g) {
                    auto it = s.excIds.emplace(g, int(s.excIds.size()) + 1).first;
                    sel = it->second;
                } else {
                    sel = 100000;
                }
                match = true;
                break;
            }
        }
        if (!match) {
            unwind(s, I);
            return;
        }
        Val v;
        v.g = std::make_shared<std::vector<Val>>(2);
        (*v.g)[0].t = s.excObj;
        (*v.g)[1].t = mkC(32, uint64_t(sel));
        set(s, I, v);
        next();
        return;
    }
    case Instruction::Resume:
        unwind(s, I);
        return;
    case Instruction::FNeg: {
        T a = get(s, I.getOperand(0)).t;
        setT(s, I, mkXor(a, mkC(APInt::getSignMask(a->w))));
        next();
        return;
    }
    default:
        throw ToolError{std::string("unsupported instruction ") + I.getOpcodeName() + " at " + locOf(&I)};
    }
}

bool Exec::intrinsic(State & s, IntrinsicInst & I)
{
    auto arg = [&](unsigned i) { return get(s, I.getArgOperand(i)).t; };
    auto next = [&] { ++s.fr.back().it; };
    auto pair = [&](T a, T o) {
        Val v;
        v.g = std::make_shared<std::vector<Val>>(2);
        (*v.g)[0].t = a;
        (*v.g)[1].t = o;
        set(s, I, v);
        next();
    };
    switch (I.getIntrinsicID()) {
    case Intrinsic::lifetime_start:
    case Intrinsic::lifetime_end:
    case Intrinsic::dbg_declare:
    case Intrinsic::dbg_value:
    case Intrinsic::dbg_label:
    case Intrinsic::dbg_assign:
    case Intrinsic::donothing:
    case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::invariant_end:
    case Intrinsic::stackrestore:
        next();
        return true;
    case Intrinsic::invariant_start:
    case Intrinsic::stacksave:
        setT(s, I, mkC(64, 0));
        next();
        return true;
    case Intrinsic::assume: {
        T c = arg(0);
        checkInit(s, c, &I, "assume");
        obligation(s, c, "reach", "compiler assumption holds", &I, str(c));
        next();
        return true;
    }
    case Intrinsic::trap:
    case Intrinsic::ubsantrap: {
        std::string k = "trap";
        if (I.getIntrinsicID() == Intrinsic::ubsantrap) {
            static const char * names[] = {"add overflow", "builtin unreachable", "cfi", "divrem overflow",
                                           "dynamic type cache miss", "float cast overflow", "function type mismatch",
                                           "implicit conversion", "invalid builtin", "invalid objc cast",
                                           "load of invalid bool/enum value", "missing return", "mul overflow",
                                           "negate overflow", "nullability arg", "nullability return", "nonnull arg",
                                           "nonnull return", "out of bounds index", "pointer overflow",
                                           "shift out of bounds", "sub overflow",
                                           "type mismatch (null or misaligned access)", "alignment assumption",
                                           "vla bound"};
            uint64_t n = arg(0)->c.getZExtValue();
            k = n < sizeof(names) / sizeof(*names) ? names[n] : "ub";
        }
        obligation(s, mkFalse(), "ub", k, &I, "");
        throw KillPath{};
    }
    case Intrinsic::expect:
    case Intrinsic::expect_with_probability:
    case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group:
    case Intrinsic::ssa_copy:
        set(s, I, get(s, I.getArgOperand(0)));
        next();
        return true;
    case Intrinsic::is_constant:
        setT(s, I, mkFalse());
        next();
        return true;
    case Intrinsic::objectsize:
        setT(s, I, mkC(unsigned(DL.getTypeSizeInBits(I.getType())), ~0ull));
        next();
        return true;
    case Intrinsic::eh_typeid_for: {
        auto * g = dyn_cast<GlobalVariable>(I.getArgOperand(0)->stripPointerCasts());
        auto it = s.excIds.emplace(g, int(s.excIds.size()) + 1).first;
        setT(s, I, mkC(32, uint64_t(it->second)));
        next();
        return true;
    }
    case Intrinsic::memcpy:
    case Intrinsic::memcpy_inline:
    case Intrinsic::memmove: {
        T n = arg(2);
        copyMem(s, arg(0), arg(1), n->w < 64 ? mkZExt(n, 64) : n, I, I.getIntrinsicID() == Intrinsic::memmove);
        next();
        return true;
    }
    case Intrinsic::memset: {
        T n = arg(2);
        setMem(s, arg(0), arg(1), n->w < 64 ? mkZExt(n, 64) : n, I);
        next();
        return true;
    }
    case Intrinsic::bswap:
        setT(s, I, mkBSwap(arg(0)));
        next();
        return true;
    case Intrinsic::umin:
        setT(s, I, mkIte(mkUlt(arg(0), arg(1)), arg(0), arg(1)));
        next();
        return true;
    case Intrinsic::umax:
        setT(s, I, mkIte(mkUlt(arg(1), arg(0)), arg(0), arg(1)));
        next();
        return true;
    case Intrinsic::smin:
        setT(s, I, mkIte(mkSlt(arg(0), arg(1)), arg(0), arg(1)));
        next();
        return true;
    case Intrinsic::smax:
        setT(s, I, mkIte(mkSlt(arg(1), arg(0)), arg(0), arg(1)));
        next();
        return true;
    case Intrinsic::abs: {
        T a = arg(0);
        setT(s, I, mkIte(mkExtract(a, a->w - 1, 1), mkNeg(a), a));
        next();
        return true;
    }
    case Intrinsic::usub_sat: {
        T a = arg(0), b = arg(1);
        setT(s, I, mkIte(mkUlt(a, b), mkC(a->w, 0), mkSub(a, b)));
        next();
        return true;
    }
    case Intrinsic::uadd_sat: {
        T a = arg(0), b = arg(1);
        T r = mkAdd(a, b);
        setT(s, I, mkIte(mkUlt(r, a), mkC(a->w, ~0ull), r));
        next();
        return true;
    }
    case Intrinsic::uadd_with_overflow: {
        T a = arg(0), b = arg(1);
        T r = mkAdd(a, b);
        pair(r, mkUlt(r, a));
        return true;
    }
    case Intrinsic::usub_with_overflow: {
        T a = arg(0), b = arg(1);
        pair(mkSub(a, b), mkUlt(a, b));
        return true;
    }
    case Intrinsic::umul_with_overflow: {
        T a = arg(0), b = arg(1);
        if (a->isConst()) {
            std::swap(a, b);
        }
        T r = mkMul(a, b);
        T ov;
        if (b->isConst()) {
            ov = b->c.isZero() ? mkFalse() : mkUlt(mkC(APInt::getAllOnes(a->w).udiv(b->c)), a);
        } else {
            T w = mkMul(mkZExt(a, a->w * 2), mkZExt(b, a->w * 2));
            ov = mkNe(mkExtract(w, a->w, a->w), mkC(a->w, 0));
        }
        pair(r, ov);
        return true;
    }
    case Intrinsic::sadd_with_overflow:
    case Intrinsic::ssub_with_overflow:
    case Intrinsic::smul_with_overflow: {
        T a = arg(0), b = arg(1);
        unsigned w = a->w;
        T r, x;
        if (I.getIntrinsicID() == Intrinsic::smul_with_overflow) {
            r = mkMul(a, b);
            x = mkMul(mkSExt(a, 2 * w), mkSExt(b, 2 * w));
            pair(r, mkNe(x, mkSExt(r, 2 * w)));
        } else {
            bool add = I.getIntrinsicID() == Intrinsic::sadd_with_overflow;
            r = add ? mkAdd(a, b) : mkSub(a, b);
            T sa = mkExtract(a, w - 1, 1), sb = mkExtract(b, w - 1, 1), sr = mkExtract(r, w - 1, 1);
            T ov = add ? mkAnd(mkEq(sa, sb), mkNe(sa, sr)) : mkAnd(mkNe(sa, sb), mkNe(sa, sr));
            pair(r, ov);
        }
        return true;
    }
    case Intrinsic::fshl:
    case Intrinsic::fshr: {
        T a = arg(0), b = arg(1), c = arg(2);
        unsigned w = a->w;
        bool left = I.getIntrinsicID() == Intrinsic::fshl;
        if (c->isConst()) {
            unsigned k = unsigned(c->c.urem(APInt(w, w)).getZExtValue());
            T r;
            if (k == 0) {
                r = left ? a : b;
            } else if (left) {
                r = mkConcat({mkExtract(a, 0, w - k), mkExtract(b, w - k, k)});
            } else {
                r = mkConcat({mkExtract(a, 0, k), mkExtract(b, k, w - k)});
            }
            setT(s, I, r);
        } else {
            T k = mkURem(c, mkC(w, w));
            T z = mkEq(k, mkC(w, 0));
            T inv = mkSub(mkC(w, w), k);
            T r = left ? mkIte(z, a, mkOr(mkShl(a, k), mkLShr(b, inv))) : mkIte(z, b, mkOr(mkShl(a, inv), mkLShr(b, k)));
            setT(s, I, r);
        }
        next();
        return true;
    }
    case Intrinsic::ctpop: {
        T a = arg(0);
        T r = mkC(a->w, 0);
        for (unsigned i = 0; i < a->w; ++i) {
            r = mkAdd(r, mkZExt(mkExtract(a, i, 1), a->w));
        }
        setT(s, I, r);
        next();
        return true;
    }
    case Intrinsic::ctlz:
    case Intrinsic::cttz: {
        T a = arg(0);
        unsigned from = 0, to = a->w; // the answers the path condition leaves possible
        if (I.getIntrinsicID() == Intrinsic::ctlz && !a->isConst() && a->w > 8) {
            auto top = [&](unsigned k) { return mkEq(mkExtract(a, a->w - k, k), mkC(k, 0)); };
            for (unsigned lo = 1, hi = a->w; lo <= hi;) { // the most leading zeros there must be
                unsigned k = (lo + hi) / 2;
                if (must(s, top(k))) {
                    from = k;
                    lo = k + 1;
                } else {
                    hi = k - 1;
                }
            }
            for (unsigned lo = from, hi = a->w; lo < hi;) { // the most there can be
                unsigned k = (lo + hi) / 2;
                if (must(s, mkBNot(top(k + 1)))) {
                    to = k;
                    hi = k;
                } else {
                    lo = k + 1;
                }
            }
        }
        if (to < a->w || from > 0) {
            T r = mkC(a->w, to);
            for (unsigned n = to; n-- > from;) {
                r = mkIte(mkExtract(a, a->w - 1 - n, 1), mkC(a->w, n), r);
            }
            setT(s, I, r);
            next();
            return true;
        }
        T r = mkC(a->w, a->w);
        for (unsigned i = 0; i < a->w; ++i) {
            unsigned bit = I.getIntrinsicID() == Intrinsic::ctlz ? i : a->w - 1 - i;
            unsigned cnt = I.getIntrinsicID() == Intrinsic::ctlz ? a->w - 1 - i : a->w - 1 - i;
            r = mkIte(mkExtract(a, bit, 1), mkC(a->w, cnt), r);
        }
        setT(s, I, r);
        next();
        return true;
    }
    default:
        return false;
    }
}

void Exec::execCall(State & s, CallBase & I)
{
    if (auto * ii = dyn_cast<IntrinsicInst>(&I)) {
        if (intrinsic(s, *ii)) {
            return;
        }
        throw ToolError{"unsupported intrinsic " + ii->getCalledFunction()->getName().str()};
    }
    Function * F = dyn_cast<Function>(I.getCalledOperand()->stripPointerCastsAndAliases());
    if (!F) {
        T p = get(s, I.getCalledOperand()).t;
        for (int guard = 0; p->op == Op::ITE && guard < 32; ++guard) {
            if (must(s, p->a[0])) {
                p = p->a[1];
            } else if (must(s, mkBNot(p->a[0]))) {
                p = p->a[2];
            } else {
                throw ForkOn{p->a[0]};
            }
        }
        if (p->op != Op::VAR || vars[p->aux].fn < 0) {
            obligation(s, mkFalse(), "memory", "call through an invalid function pointer", &I, str(p));
            throw KillPath{};
        }
        F = fnList[vars[p->aux].fn];
    }
    if (I.isInlineAsm()) {
        throw ToolError{"inline asm"};
    }
    Val out;
    bool done = false;
    if (builtin(s, I, F, out, done)) {
        if (!done) {
            if (!I.getType()->isVoidTy()) {
                set(s, I, out);
            }
            if (auto * inv = dyn_cast<InvokeInst>(&I)) {
                takeEdge(s, inv->getNormalDest());
            } else {
                ++s.fr.back().it;
            }
        }
        return;
    }
    if (Function * c = contractOf(F)) {
        F = c;
    }
    if (F->isDeclaration()) {
        throw ToolError{"call of external function " + dem(F->getName()) + " at " + locOf(&I)};
    }
    std::vector<Val> args;
    for (auto & a : I.args()) {
        args.push_back(get(s, a));
    }
    enter(s, F, &I, args);
}

bool Exec::builtin(State & s, CallBase & I, Function * F, Val & out, bool & done)
{
    StringRef n = F->getName();
    auto arg = [&](unsigned i) { return get(s, I.getArgOperand(i)).t; };
    auto z64 = [&](T t) { return t->w < 64 ? mkZExt(t, 64) : t; };
    done = false;
    if (n.starts_with("vp_")) {
        if (n == "vp_nondet_u64" || n == "vp_nondet_u32" || n == "vp_nondet_u16" || n == "vp_nondet_u8") {
            unsigned w = n == "vp_nondet_u64" ? 64 : n == "vp_nondet_u32" ? 32 : n == "vp_nondet_u16" ? 16 : 8;
            T v = mkVar("n" + std::to_string(fresh++), w);
            s.nd = new NdRec{'v', v, -1, s.nd};
            out.t = v;
            return true;
        }
        if (n == "vp_nondet_size") { // 0 .. 2^40
            T v = mkVar("s" + std::to_string(fresh++), 64, 0, 1ull << 40);
            s.nd = new NdRec{'s', v, -1, s.nd};
            out.t = v;
            return true;
        }
        if (n == "vp_havoc") { // (void *, u64 const)
            T sz = arg(1);
            if (!sz->isConst()) {
                throw ToolError{"vp_havoc size"};
            }
            uint64_t k = sz->c.getZExtValue();
            T p = arg(0);
            for (uint64_t i = 0; i < k;) {
                unsigned c = unsigned(std::min<uint64_t>(8, k - i));
                T v = mkVar("h" + std::to_string(fresh++), c * 8);
                s.nd = new NdRec{'v', v, -1, s.nd};
                store(s, mkAdd(p, mkC(64, i)), v, &I);
                i += c;
            }
            return true;
        }
        if (n == "vp_assume") {
            T c = arg(0);
            if (c->w > 1) {
                c = mkNe(c, mkC(c->w, 0));
            }
            checkInit(s, c, &I, "assumption");
            if (!may(s, c)) {
                throw KillPath{};
            }
            addPC(s, c);
            return true;
        }
        if (n == "vp_assert") {
            T c = arg(0);
            if (c->w > 1) {
                c = mkNe(c, mkC(c->w, 0));
            }
            std::string nm = cstr(s, arg(1));
            checkInit(s, c, &I, "assertion");
            obligation(s, c, "assert", nm, &I, "");
            return true;
        }
        if (n == "vp_cover") {
            std::string nm = cstr(s, arg(0));
            if (!ctx->assume) {
                auto & c = covers[nm];
                if (c < 3) {
                    std::shared_ptr<Model> m;
                    if (s.m || query(s, mkTrue(), &m) == Res::SAT) {
                        ++c;
                    }
                } else {
                    ++c;
                }
            }
            return true;
        }
        if (n == "vp_declare_cover") {
            covers[cstr(s, arg(0))];
            return true;
        }
        if (n == "vp_region" || n == "vp_region_at") {
            T sz = arg(0);
            addPC(s, mkUle(sz, mkC(64, 1ull << 40)));
            int uf = newUF("m" + std::to_string(fresh++), {64}, 8);
            int o = newObj(s, "region" + std::to_string(fresh), sz, ObjInfo::REGION, baseNode(LogNode::UFB, uf));
            s.nd = new NdRec{'r', sz, uf, s.nd};
            out.t = objs[o]->base;
            return true;
        }
        if (n.starts_with("vp_uf")) { // vp_uf1(id,a) vp_uf2(id,a,b): u64
            T id = arg(0);
            unsigned k = unsigned(I.arg_size() - 1);
            if (!id->isConst()) {
                throw ToolError{"vp_uf id"};
            }
            uint64_t key = (id->c.getZExtValue() << 8) | k;
            auto it = userUf.find(key);
            if (it == userUf.end()) {
                it = userUf.emplace(key, newUF("uf" + std::to_string(id->c.getZExtValue()), std::vector<unsigned>(k, 64), 64)).first;
            }
            std::vector<T> a;
            for (unsigned i = 0; i < k; ++i) {
                a.push_back(z64(arg(i + 1)));
            }
            out.t = mkUF(it->second, a);
            return true;
        }
        if (n == "vp_swap32" || n == "vp_shl32" || n == "vp_shr32") {
            std::vector<T> a;
            for (unsigned i = 0; i < I.arg_size(); ++i) {
                a.push_back(arg(i));
            }
            out.t = mkOpaque(n == "vp_swap32" ? 1 : n == "vp_shl32" ? 2 : 3, a);
            return true;
        }
        if (n == "vp_heap_live") {
            uint64_t c = 0;
            for (auto & [id, os] : *s.mem) {
                c += os.alive && objs[id]->kind == ObjInfo::HEAP;
            }
            out.t = mkC(64, c);
            return true;
        }
        if (n == "vp_is_heap") { // (ptr, size): live heap/region object start with at least size bytes
            int o;
            T off;
            T p = arg(0);
            T r = mkFalse();
            if (splitPtr(s, p, o, off, &I) && s.mem->count(o) && objc(s, o).alive) {
                r = mkAnd(mkEq(off, mkC(64, 0)), mkUle(z64(arg(1)), objs[o]->size));
            }
            out.t = mkZExt(r, unsigned(DL.getTypeSizeInBits(I.getType())));
            return true;
        }
        if (n == "vp_object_size") { // exact size of the object p points to the start of
            int o;
            T off;
            if (splitPtr(s, arg(0), o, off, &I)) {
                out.t = mkSub(objs[o]->size, off);
            } else {
                out.t = mkC(64, 0);
            }
            return true;
        }
        if (n == "vp_throw_ok") {
            s.throwOk = !arg(0)->isConst() || !arg(0)->c.isZero();
            return true;
        }
        if (n == "vp_throw_exit") { // resource exhaustion reported by exception: the path ends
            ++throws;
            throw KillPath{};
        }
        if (n == "vp_invariant") { // (bool (*)(void *), void *)
            T f = arg(0);
            if (f->op != Op::VAR || vars[f->aux].fn < 0) {
                throw ToolError{"vp_invariant"};
            }
            s.invs.push_back({fnList[vars[f->aux].fn], arg(1), nullptr, 0});
            return true;
        }
        if (n == "vp_rebuild") { // (void * obj, u64 size, void (*)(void *), void * ctx)
            T f = arg(2);
            if (f->op != Op::VAR || vars[f->aux].fn < 0 || !arg(1)->isConst()) {
                throw ToolError{"vp_rebuild"};
            }
            s.rebuilds.push_back({fnList[vars[f->aux].fn], arg(3), arg(0), arg(1)->c.getZExtValue()});
            return true;
        }
        if (n == "vp_invariant_clear") {
            s.invs.clear();
            s.rebuilds.clear();
            return true;
        }
        if (n == "vp_symbolic") { // make all of a (global) object symbolic: (void*, size)
            int o;
            T off;
            resolve(s, arg(0), o, off, &I, "vp_symbolic");
            int uf = newUF("g" + std::to_string(fresh++), {64}, 8);
            T len = arg(1);
            if (off->isConst() && off->c.isZero() && len == objs[o]->size) {
                obj(s, o).log = baseNode(LogNode::UFB, uf);
            } else {
                auto c = new LogNode;
                c->kind = LogNode::COPY;
                c->off = off;
                c->len = len;
                c->src = baseNode(LogNode::UFB, uf);
                c->srcOff = off;
                c->next = obj(s, o).log;
                obj(s, o).log = c;
            }
            s.nd = new NdRec{'r', objs[o]->size, uf, s.nd};
            return true;
        }
        if (n == "vp_is_verifier") {
            out.t = mkC(32, 1);
            return true;
        }
        if (n == "vp_pick") { // enumerate 0..max by forking
            T v = arg(0);
            T mx = arg(1);
            if (v->isConst()) {
                out.t = v;
                return true;
            }
            uint64_t k = mx->c.getZExtValue();
            for (uint64_t i = 0; i <= k; ++i) {
                T e = mkEq(v, mkC(64, i));
                if (must(s, e)) {
                    out.t = mkC(64, i);
                    return true;
                }
                if (may(s, e)) {
                    throw ForkOn{e};
                }
            }
            obligation(s, mkFalse(), "cases", "case split is complete", &I, str(v));
            throw KillPath{};
        }
        if (n == "vp_print") {
            fprintf(stderr, "[vp_print] %s = %s\n", cstr(s, arg(0)).c_str(), str(arg(1), 8).c_str());
            return true;
        }
        if (F->isDeclaration()) {
            throw ToolError{"unknown primitive " + n.str()};
        }
        return false;
    }
    if (n == "_Znwm" || n == "_ZnwmSt11align_val_t" || n == "_Znam" || n == "malloc" || n == "_ZnwmRKSt9nothrow_t") {
        T sz = z64(arg(0));
        T big = mkUlt(mkC(64, 1ull << 40), sz);
        if (may(s, big)) {
            if (must(s, big)) {
                // allocation failure: std::bad_alloc
                externsUsed.insert("operator new: more than 2^40 bytes throws");
                if (!s.throwOk) {
                    obligation(s, mkFalse(), "throw", "no allocation beyond the address space", &I, str(sz));
                }
                ++throws;
                throw KillPath{};
            }
            throw ForkOn{big};
        }
        int o = newObj(s, "heap" + std::to_string(fresh++), sz, ObjInfo::HEAP, baseNode(LogNode::UNINIT));
        out.t = objs[o]->base;
        return true;
    }
    if (n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv") || n == "free") {
        T p = arg(0);
        if (p->isConst() && p->c.isZero()) {
            return true;
        }
        if (p->op == Op::ITE) {
            // fork on null
            if (!must(s, p->a[0]) && !must(s, mkBNot(p->a[0]))) {
                throw ForkOn{p->a[0]};
            }
            p = must(s, p->a[0]) ? p->a[1] : p->a[2];
            if (p->isConst() && p->c.isZero()) {
                return true;
            }
        }
        int o;
        T off;
        resolve(s, p, o, off, &I, "free");
        bool heap = objs[o]->kind == ObjInfo::HEAP || objs[o]->kind == ObjInfo::REGION;
        obligation(s, heap ? mkEq(off, mkC(64, 0)) : mkFalse(), "memory", "free of an allocated block", &I, "");
        obj(s, o).alive = false;
        for (Ctx * c = ctx; c; c = c->parent) {
            if (c->loop && objs[o]->birth <= c->watermark) {
                c->frees.insert(o);
            }
        }
        return true;
    }
    if (n == "memcpy" || n == "memmove") {
        copyMem(s, arg(0), arg(1), z64(arg(2)), I, n == "memmove");
        out.t = arg(0);
        return true;
    }
    if (n == "memset") {
        setMem(s, arg(0), mkTrunc(arg(1), 8), z64(arg(2)), I);
        out.t = arg(0);
        return true;
    }
    if (n == "memcmp" || n == "bcmp") {
        T len = z64(arg(2));
        if (!len->isConst()) {
            for (uint64_t k = 0; k <= 24; ++k) {
                T e = mkEq(len, mkC(64, k));
                if (must(s, e)) {
                    len = mkC(64, k);
                    break;
                }
                if (may(s, e)) {
                    throw ForkOn{e};
                }
            }
            if (!len->isConst()) {
                throw ToolError{"memcmp of unbounded length"};
            }
        }
        uint64_t k = len->c.getZExtValue();
        T r = mkC(32, 0);
        if (k) {
            int oa, ob;
            T fa, fb;
            resolve(s, arg(0), oa, fa, &I, "memcmp");
            resolve(s, arg(1), ob, fb, &I, "memcmp");
            bounds(s, oa, fa, len, &I, "memcmp", false);
            bounds(s, ob, fb, len, &I, "memcmp", false);
            for (uint64_t i = k; i-- > 0;) {
                T a = readLog(s, objc(s, oa).log, mkAdd(fa, mkC(64, i)), 1);
                T b = readLog(s, objc(s, ob).log, mkAdd(fb, mkC(64, i)), 1);
                r = mkIte(mkEq(a, b), r, mkIte(mkUlt(a, b), mkC(32, ~0ull), mkC(32, 1)));
            }
        }
        out.t = r;
        return true;
    }
    if (n == "strlen") {
        int o;
        T off;
        resolve(s, arg(0), o, off, &I, "strlen");
        if (!off->isConst()) {
            throw ToolError{"strlen"};
        }
        uint64_t k = 0;
        for (;; ++k) {
            T b = readLog(s, objc(s, o).log, mkAdd(off, mkC(64, k)), 1);
            if (!b->isConst()) {
                throw ToolError{"strlen of symbolic data"};
            }
            if (b->c.isZero()) {
                break;
            }
        }
        out.t = mkC(64, k);
        return true;
    }
    if (n == "__cxa_guard_acquire") {
        T b = load(s, arg(0), 1, &I);
        out.t = mkZExt(mkEq(b, mkC(8, 0)), 32);
        return true;
    }
    if (n == "__cxa_guard_release") {
        store(s, arg(0), mkC(8, 1), &I);
        return true;
    }
    if (n == "__cxa_atexit" || n == "__cxa_begin_catch" || n == "__cxa_end_catch" || n == "__cxa_free_exception") {
        if (n == "__cxa_begin_catch") {
            out.t = arg(0);
        } else if (n == "__cxa_atexit") {
            out.t = mkC(32, 0);
        }
        return true;
    }
    if (n == "__cxa_allocate_exception") {
        int o = newObj(s, "exception", z64(arg(0)), ObjInfo::STACK, baseNode(LogNode::UNINIT));
        out.t = objs[o]->base;
        return true;
    }
    if (n == "__cxa_throw") {
        s.excObj = arg(0);
        s.excType = dyn_cast<GlobalVariable>(I.getArgOperand(1)->stripPointerCasts());
        done = true;
        if (auto * inv = dyn_cast<InvokeInst>(&I)) {
            ++throws;
            takeEdge(s, inv->getUnwindDest());
        } else {
            unwind(s, I);
        }
        return true;
    }
    if (n == "__cxa_rethrow") {
        done = true;
        if (auto * inv = dyn_cast<InvokeInst>(&I)) {
            takeEdge(s, inv->getUnwindDest());
        } else {
            unwind(s, I);
        }
        return true;
    }
    if (n.starts_with("_ZSt") && n.contains("__throw_")) {
        externsUsed.insert(dem(n));
        if (!s.throwOk) {
            obligation(s, mkFalse(), "throw", "no standard exception is thrown: " + dem(n), &I, "");
        }
        ++throws;
        throw KillPath{};
    }
    if (n == "_ZSt9terminatev" || n == "abort" || n == "__cxa_pure_virtual" || n == "__clang_call_terminate" ||
        n.contains("__glibcxx_assert_fail") || n.contains("__libcpp_verbose_abort")) {
        obligation(s, mkFalse(), "reach", "no termination (" + dem(n) + ")", &I, "");
        throw KillPath{};
    }
    if (F->isDeclaration()) {
        std::string d = dem(n);
        if (d.find("std::runtime_error::") == 0 || d.find("std::system_error::~") == 0 ||
            d.find("std::logic_error::") == 0 || d.find("std::exception::") == 0) {
            externsUsed.insert(d);
            return true;
        }
    }
    return false;
}
} // namespace irv
