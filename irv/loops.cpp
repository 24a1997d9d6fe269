// irv: inductive treatment of loops.
#include "exec.h"
#include <cstdio>
using namespace llvm;

namespace irv {

static void collectPCs(const PC * from, const PC * to, T & acc)
{
    // conjunction of the conditions added after `to`
    for (auto p = from; p && p != to; p = p->parent) {
        acc = mkAnd(acc, p->cond);
    }
}

T Exec::callPred(State & s, Function * f, T arg)
{
    State * h = new State(s);
    h->pendingTo = nullptr;
    Ctx c;
    c.retDepth = h->fr.size();
    c.assume = true;
    Val a;
    a.t = arg;
    enter(*h, f, nullptr, {a});
    explore({h}, c);
    T r = mkFalse();
    for (auto * x : c.rets) {
        T b = x->ret.t;
        if (b->w > 1) {
            b = mkNe(b, mkC(b->w, 0));
        }
        T acc = b;
        collectPCs(x->pc, s.pc, acc);
        r = mkOr(r, acc);
        delete x;
    }
    return r;
}

std::vector<State *> Exec::callHook(State & s, Function * f, T arg)
{
    State * h = new State(s);
    h->pendingTo = nullptr;
    Ctx c;
    c.retDepth = h->fr.size();
    c.assume = true;
    Val a;
    a.t = arg;
    enter(*h, f, nullptr, {a});
    explore({h}, c);
    return c.rets;
}

namespace {
struct LV { // a loop variable: a phi or a memory cell
    bool phi = false;
    PHINode * p = nullptr;
    int obj = -1;
    uint64_t off = 0;
    unsigned n = 0; // bytes
    unsigned w = 64;
    T init = nullptr;
    enum K { FRESH, LIN } kind = FRESH;
    bool tried = false;
    APInt c;
    T base = nullptr; // pointer with a known object
    T cur = nullptr;
};
struct Cand {
    // lhs <= bound; lhs: -1 is the iteration counter
    int lv;
    T bound;
    bool ge = false; // lhs >= bound instead
    bool dead = false;
    // relation between two variables: cur(lv) <= cur(lv2)
    int lv2 = -1;
};
} // namespace

static T baseOf(T p)
{
    if (p->op == Op::VAR && vars[p->aux].isBase) {
        return p;
    }
    if (p->op == Op::SUM) {
        T b = nullptr;
        for (size_t i = 0; i < p->a.size(); ++i) {
            if (p->a[i]->op == Op::VAR && vars[p->a[i]->aux].isBase && p->k[i].isOne()) {
                if (b) {
                    return nullptr;
                }
                b = p->a[i];
            } else if (p->a[i]->hasBase) {
                return nullptr;
            }
        }
        return b;
    }
    return nullptr;
}

void Exec::doInductive(State & s0, const Loop * L, BasicBlock * header)
{
    BasicBlock * from = s0.fr.back().bb;
    FnInfo * fi = s0.fr.back().fi;
    std::vector<LV> lvs;
    for (auto & phi : header->phis()) {
        LV v;
        v.phi = true;
        v.p = &phi;
        v.init = get(s0, phi.getIncomingValueForBlock(from)).t;
        if (!v.init) {
            throw ToolError{"aggregate loop variable"};
        }
        v.w = v.init->w;
        v.base = v.w == 64 ? baseOf(v.init) : nullptr;
        lvs.push_back(v);
    }
    uint64_t watermark = birthNo;
    std::map<int, T> whole; // object -> lowest offset written (nullptr: everything)
    struct Summ {
        T lo;           // offset of the first iteration
        uint64_t stride;
        bool rev = false; // each iteration writes `stride` bytes lower
        T at(T t) const { return rev ? mkSub(lo, mkMulC(t, APInt(64, stride))) : mkAdd(lo, mkMulC(t, APInt(64, stride))); }
        std::vector<Cell> cells;
        T prev;         // what `whole` said before
    };
    std::map<int, Summ> summ;
    std::set<int> summTried;
    std::vector<Cand> cands;
    std::set<std::pair<int, T>> seenC, seenG;
    std::set<std::pair<int, int>> seenR;
    std::vector<bool> invLive(s0.invs.size(), true);
    std::vector<State *> exits;
    bool outerAssume = ctx->assume;

    auto isRebuilt = [&](State & s, int o, T off) {
        for (auto & r : s.rebuilds) {
            int ro;
            T roff;
            if (splitPtr(s, r.obj, ro, roff, nullptr) && ro == o && off->isConst() && roff->isConst()) {
                uint64_t a = off->c.getZExtValue(), b = roff->c.getZExtValue();
                if (a >= b && a < b + r.size) {
                    return true;
                }
            }
        }
        return false;
    };

    // registered invariants must hold on entry
    for (size_t i = 0; i < s0.invs.size(); ++i) {
        T p = callPred(s0, s0.invs[i].fn, s0.invs[i].ctx);
        if (!must(s0, p)) {
            if (O.verbose) {
                fprintf(stderr, "[loop] invariant %zu does not hold on entry: %s\n", i, str(p, 5).c_str());
            }
            invLive[i] = false;
        }
    }

    for (int round = 0;; ++round) {
        if (round > 60) {
            throw ToolError{"loop invariants did not stabilise"};
        }
        bool final = false;
        bool changed = false;
        for (int pass = 0; pass < 2; ++pass) {
            // pass 0: assume mode; pass 1 (only when stable): checking mode
            if (pass == 1 && (changed || outerAssume)) {
                break;
            }
            final = pass == 1;
            State * h = new State(s0);
            h->havoc = true;
            size_t ufMark = ufs.size();
            T t = mkVar("t" + std::to_string(fresh++), 64);
            Frame & f = h->fr.back();
            f.prev = from;
            f.bb = header;
            f.it = header->getFirstNonPHIIt();
            for (auto & [o, lo] : whole) {
                int uf = newUF("hv" + std::to_string(fresh++), {64}, 8);
                if (!lo) {
                    obj(*h, o).log = baseNode(LogNode::UFB, uf);
                } else {
                    auto n = new LogNode;
                    n->kind = LogNode::COPY;
                    n->off = lo;
                    n->len = mkSub(objs[o]->size, lo);
                    n->src = baseNode(LogNode::UFB, uf);
                    n->srcOff = lo;
                    n->next = obj(*h, o).log;
                    obj(*h, o).log = n;
                }
            }
            for (auto & [o, sm] : summ) {
                auto n = new LogNode;
                n->kind = LogNode::LOOP;
                n->off = sm.rev ? sm.at(mkSub(t, mkC(64, 1))) : sm.lo;
                n->rev = sm.rev;
                n->len = t;
                n->stride = sm.stride;
                n->cells = std::make_shared<std::vector<Cell>>(sm.cells);
                n->uf = newUF("hv" + std::to_string(fresh++), {64}, 8);
                n->next = obj(*h, o).log;
                obj(*h, o).log = n;
            }
            for (auto & v : lvs) {
                T c;
                if (v.kind == LV::LIN) {
                    T tt = v.w == 64 ? t : v.w < 64 ? mkTrunc(t, v.w) : mkZExt(t, v.w);
                    c = mkAdd(v.init, mkMulC(tt, v.c));
                } else if (v.base) {
                    c = mkAdd(v.base, mkVar("o" + std::to_string(fresh++), 64));
                } else {
                    c = mkVar("x" + std::to_string(fresh++), v.w);
                }
                v.cur = c;
                if (v.phi) {
                    f.regs[fi->idx.at(v.p)] = Val{c, nullptr};
                } else {
                    rawStore(*h, v.obj, mkC(64, v.off), c);
                }
            }
            std::vector<State *> hs{h};
            for (auto & r : s0.rebuilds) {
                std::vector<State *> nx;
                for (auto * x : hs) {
                    auto rs = callHook(*x, r.fn, r.ctx);
                    nx.insert(nx.end(), rs.begin(), rs.end());
                    delete x;
                }
                hs = nx;
            }
            std::vector<State *> live;
            for (auto * x : hs) {
                bool ok = true;
                try {
                    for (auto & c : cands) {
                        if (c.dead) {
                            continue;
                        }
                        T lhs = c.lv < 0 ? t : lvs[c.lv].cur;
                        T rhs = c.lv2 >= 0 ? lvs[c.lv2].cur : c.bound;
                        addPC(*x, c.ge ? mkUle(rhs, lhs) : mkUle(lhs, rhs));
                    }
                    for (size_t i = 0; i < s0.invs.size(); ++i) {
                        if (invLive[i]) {
                            addPC(*x, callPred(*x, s0.invs[i].fn, s0.invs[i].ctx));
                        }
                    }
                } catch (KillPath &) {
                    ok = false;
                }
                if (ok) {
                    live.push_back(x);
                } else {
                    delete x;
                }
            }
            Ctx c;
            c.loop = L;
            c.depth = s0.fr.size() - 1;
            c.retDepth = ctx->retDepth;
            c.assume = pass == 0;
            c.watermark = watermark;
            explore(live, c);
            if (final) {
                for (auto * x : exits) {
                    delete x;
                }
                exits = c.exits;
                for (auto * x : c.back) {
                    delete x;
                }
                break;
            }
            // ---- modified memory
            std::vector<std::pair<int, T>> late; // writes not known to respect the frame
            auto atEntry = [&](T off) -> T {
                std::unordered_map<T, T> m, memo;
                m[t] = mkC(64, 0);
                for (auto & v : lvs) {
                    if (v.kind == LV::LIN || !v.cur) {
                        continue;
                    }
                    if (v.base && v.cur->op == Op::SUM) {
                        T d = mkSub(v.cur, v.base);
                        if (d->op == Op::VAR) {
                            m[d] = mkSub(v.init, v.base);
                        }
                    } else if (v.cur->op == Op::VAR) {
                        m[v.cur] = v.init;
                    }
                }
                T r = substitute(off, m, memo);
                // only values that exist before the loop
                std::unordered_set<T> seen;
                std::vector<T> vs;
                collectVars(r, seen, vs);
                for (auto x : vs) {
                    if ((x->op == Op::VAR && x->aux >= t->aux) ||
                        (x->op == Op::UF && ufs[x->aux].name.rfind("hv", 0) == 0)) {
                        return nullptr;
                    }
                }
                return r;
            };
            for (auto & w : c.writes) {
                if (s0.mem->find(w.obj) == s0.mem->end() && !ginit.count(w.obj)) {
                    continue;
                }
                if (isRebuilt(s0, w.obj, w.off)) {
                    continue;
                }
                if (auto it = summ.find(w.obj); it != summ.end()) {
                    T d = mkSub(w.off, it->second.at(t));
                    bool ok = false;
                    if (d->isConst() && w.len->isConst()) {
                        ok = d->c.ult(it->second.stride) && w.len->c.ule(it->second.stride);
                        for (uint64_t i = 0; ok && i < w.len->c.getZExtValue(); ++i) {
                            bool in = false;
                            for (auto & cl : it->second.cells) {
                                in |= cl.d <= d->c.getZExtValue() + i && d->c.getZExtValue() + i < cl.d + cl.n;
                            }
                            ok = in;
                        }
                    }
                    if (!ok) {
                        if (O.verbose) {
                            fprintf(stderr, "   [summary] %s dropped: write at %s\n", objs[w.obj]->name.c_str(), str(d, 3).c_str());
                        }
                        whole[w.obj] = it->second.prev;
                        summ.erase(it);
                        changed = true;
                    }
                    continue;
                }
                if (auto it = whole.find(w.obj); it != whole.end()) {
                    if (it->second) {
                        // the frame below the lowest offset
                        State tmp(s0);
                        tmp.pc = w.pc;
                        tmp.m = nullptr;
                        if (!must(tmp, mkUle(it->second, w.off))) {
                            late.push_back({w.obj, w.off});
                        }
                    }
                    continue;
                }
                if (objs[w.obj]->kind == ObjInfo::HEAP || true) {
                    if (w.off->isConst() && w.len->isConst() && w.len->c.ule(64)) {
                        uint64_t off = w.off->c.getZExtValue();
                        unsigned n = unsigned(w.len->c.getZExtValue());
                        unsigned covered = 0;
                        bool overlap = false;
                        for (auto & v : lvs) {
                            if (v.phi || v.obj != w.obj) {
                                continue;
                            }
                            // the cells are disjoint
                            if (off < v.off + v.n && v.off < off + n) {
                                overlap = true;
                                covered += unsigned(std::min<uint64_t>(off + n, v.off + v.n) - std::max<uint64_t>(off, v.off));
                            }
                        }
                        if (covered == n) {
                            continue;
                        }
                        if (overlap) {
                            // merge into one cell
                            uint64_t lo = off, hi = off + n;
                            std::vector<LV> keep;
                            for (auto & v : lvs) {
                                if (!v.phi && v.obj == w.obj && v.off < hi && lo < v.off + v.n) {
                                    lo = std::min(lo, v.off);
                                    hi = std::max<uint64_t>(hi, v.off + v.n);
                                } else {
                                    keep.push_back(v);
                                }
                            }
                            lvs = keep;
                            cands.clear();
                            seenC.clear();
                            seenG.clear();
                            seenR.clear();
                            off = lo;
                            n = unsigned(hi - lo);
                        }
                        // split large cells into words
                        for (uint64_t o2 = off; o2 < off + n;) {
                            unsigned k = unsigned(std::min<uint64_t>(8, off + n - o2));
                            LV v;
                            v.obj = w.obj;
                            v.off = o2;
                            v.n = k;
                            v.w = k * 8;
                            v.init = readLog(s0, objc(s0, w.obj).log, mkC(64, o2), k);
                            v.base = v.w == 64 ? baseOf(v.init) : nullptr;
                            lvs.push_back(v);
                            o2 += k;
                        }
                        changed = true;
                        continue;
                    }
                    whole[w.obj] = atEntry(w.off);
                    std::vector<LV> keep;
                    for (auto & v : lvs) {
                        if (v.phi || v.obj != w.obj) {
                            keep.push_back(v);
                        }
                    }
                    if (keep.size() != lvs.size()) {
                        lvs = keep;
                        cands.clear();
                        seenC.clear();
                        seenG.clear();
                        seenR.clear();
                    }
                    changed = true;
                }
            }
            for (int o : c.frees) {
                bool ok = false;
                if (s0.mem->count(o) && objs[o]->birth <= watermark) {
                    // objects owned by rebuilt structures were replaced in the havocked state; a free of an
                    // object visible at entry is not supported otherwise
                    for (auto * x : live) {
                        (void)x;
                    }
                    ok = false;
                }
                if (!ok && s0.mem->count(o)) {
                    throw ToolError{"loop frees an object that existed before it: " + objs[o]->name};
                }
            }
            if (!changed) {
                // ---- shapes of the loop variables
                for (size_t i = 0; i < lvs.size(); ++i) {
                    auto & v = lvs[i];
                    auto nextOf = [&](State & b) -> T {
                        if (v.phi) {
                            // value flowing along the back edge
                            return get(b, v.p->getIncomingValueForBlock(b.fr.back().bb)).t;
                        }
                        return readLog(b, objc(b, v.obj).log, mkC(64, v.off), v.n);
                    };
                    if (!v.tried) {
                        v.tried = true;
                        bool lin = !c.back.empty();
                        bool sameBase = true;
                        T b0 = v.w == 64 ? baseOf(v.init) : nullptr;
                        APInt d(v.w, 0);
                        bool first = true;
                        for (auto * b : c.back) {
                            T nx = nextOf(*b);
                            T dl = mkSub(nx, v.cur);
                            if (!dl->isConst() || (!first && dl->c != d)) {
                                lin = false;
                            } else {
                                d = dl->c;
                                first = false;
                            }
                            if (baseOf(nx) != b0 && nx != v.cur && !(nx->op == Op::SUM && std::find(nx->a.begin(), nx->a.end(), v.cur) != nx->a.end())) {
                                sameBase = false;
                            }
                        }
                        if (lin && v.w > 1) {
                            v.kind = LV::LIN;
                            v.c = d;
                            changed = true;
                        } else if (lin && d.isZero()) {
                            v.kind = LV::LIN;
                            v.c = d;
                            changed = true;
                        } else if (v.base && !(b0 && sameBase)) {
                            v.base = nullptr;
                            changed = true;
                        }
                    } else if (v.kind == LV::LIN) {
                        T tt = v.w == 64 ? t : v.w < 64 ? mkTrunc(t, v.w) : mkZExt(t, v.w);
                        T want = mkAdd(v.init, mkMulC(mkAdd(tt, mkC(v.w, 1)), v.c));
                        for (auto * b : c.back) {
                            T nx = nextOf(*b);
                            if (nx != want && !must(*b, mkEq(nx, want))) {
                                v.kind = LV::FRESH;
                                T b0 = v.w == 64 ? baseOf(v.init) : nullptr;
                                if (b0) {
                                    v.base = b0;
                                }
                                changed = true;
                                break;
                            }
                        }
                    } else if (v.base) {
                        for (auto * b : c.back) {
                            if (baseOf(nextOf(*b)) != v.base) {
                                v.base = nullptr;
                                changed = true;
                                break;
                            }
                        }
                    }
                }
            }
            if (!changed) {
                // ---- check the candidates that were assumed
                auto nextOf = [&](const LV & v, State & b) -> T {
                    if (v.phi) {
                        return get(b, v.p->getIncomingValueForBlock(b.fr.back().bb)).t;
                    }
                    return readLog(b, objc(b, v.obj).log, mkC(64, v.off), v.n);
                };
                for (auto & cd : cands) {
                    if (cd.dead) {
                        continue;
                    }
                    for (auto * b : c.back) {
                        T lhs = cd.lv < 0 ? mkAdd(t, mkC(64, 1)) : nextOf(lvs[cd.lv], *b);
                        T rhs = cd.lv2 >= 0 ? nextOf(lvs[cd.lv2], *b) : cd.bound;
                        if (!must(*b, cd.ge ? mkUle(rhs, lhs) : mkUle(lhs, rhs))) {
                            cd.dead = true;
                            changed = true;
                            if (O.verbose) {
                                fprintf(stderr, "   [drop] lv%d %s %s\n", cd.lv, cd.ge ? ">=" : "<=",
                                        cd.lv2 >= 0 ? ("lv" + std::to_string(cd.lv2)).c_str() : str(cd.bound, 3).c_str());
                            }
                            break;
                        }
                    }
                }
                for (size_t i = 0; i < s0.invs.size(); ++i) {
                    if (!invLive[i]) {
                        continue;
                    }
                    for (auto * b : c.back) {
                        T p = callPred(*b, s0.invs[i].fn, s0.invs[i].ctx);
                        if (!must(*b, p, true)) {
                            if (O.verbose) {
                                fprintf(stderr, "[loop] invariant %zu not preserved: %s\n", i, str(p, 6).c_str());
                            }
                            invLive[i] = false;
                            changed = true;
                            break;
                        }
                    }
                }
                // ---- harvest new candidates from the branch conditions
                std::unordered_map<T, bool> fm;
                std::unordered_set<uint32_t> freshIds;
                for (auto & v : lvs) {
                    std::unordered_set<T> seen;
                    std::vector<T> vs;
                    collectVars(v.cur, seen, vs);
                    for (auto x : vs) {
                        if (v.kind != LV::LIN && !vars[x->aux].isBase) {
                            freshIds.insert(x->id);
                        }
                    }
                }
                std::function<bool(T)> inv = [&](T x) -> bool {
                    // does x mention only values that exist outside the loop?
                    auto it = fm.find(x);
                    if (it != fm.end()) {
                        return it->second;
                    }
                    bool r = true;
                    if (x == t) {
                        r = false;
                    }
                    if (x->op == Op::VAR && x->aux >= t->aux) {
                        r = false; // created by this round
                    }
                    if (x->op == Op::UF && ufs[x->aux].name.rfind("hv", 0) == 0) {
                        r = false;
                    }
                    for (auto y : x->a) {
                        r = r && inv(y);
                    }
                    fm[x] = r;
                    return r;
                };
                auto add = [&](int lv, T bound, bool ge) {
                    if (bound->w != (lv < 0 ? 64 : lvs[lv].w) || !inv(bound)) {
                        return;
                    }
                    auto & sn = ge ? seenG : seenC;
                    if (!sn.insert({lv, bound}).second) {
                        return;
                    }
                    T i0 = lv < 0 ? mkC(64, 0) : lvs[lv].init;
                    if (i0->hasBase != bound->hasBase) {
                        return;
                    }
                    if (!must(s0, ge ? mkUle(bound, i0) : mkUle(i0, bound))) {
                        return;
                    }
                    Cand cd;
                    cd.lv = lv;
                    cd.bound = bound;
                    cd.ge = ge;
                    cands.push_back(cd);
                    changed = true;
                };
                for (size_t i = 0; i < lvs.size(); ++i) {
                    if (lvs[i].kind == LV::FRESH && lvs[i].w > 1) {
                        add(int(i), lvs[i].init, true);
                        add(int(i), lvs[i].init, false);
                        if (lvs[i].w == 64 && !lvs[i].init->hasBase) {
                            // an offset or a count stays within the size of some block
                            for (auto & [o, st] : *s0.mem) {
                                if (st.alive && objs[o]->kind == ObjInfo::REGION && !objs[o]->size->isConst()) {
                                    add(int(i), objs[o]->size, false);
                                }
                            }
                        }
                    }
                }
                for (T cd : c.conds) {
                    std::vector<T> todo{cd};
                    while (!todo.empty()) {
                        T x = todo.back();
                        todo.pop_back();
                        if (x->w == 1 && (x->op == Op::XOR || x->op == Op::AND || x->op == Op::OR)) {
                            for (auto y : x->a) {
                                todo.push_back(y);
                            }
                            continue;
                        }
                        if (x->op != Op::EQ && x->op != Op::ULT) {
                            continue;
                        }
                        T A = x->a[0], B = x->a[1];
                        std::set<T> ds{mkSub(A, B), A, B};
                        for (T d : ds) {
                            auto coef = [&](T v, APInt & k, T & rest) {
                                if (d == v) {
                                    k = APInt(d->w, 1);
                                    rest = mkC(d->w, 0);
                                    return true;
                                }
                                if (d->op != Op::SUM) {
                                    return false;
                                }
                                for (size_t i = 0; i < d->a.size(); ++i) {
                                    if (d->a[i] == v) {
                                        k = d->k[i];
                                        rest = mkSub(d, mkMulC(v, k));
                                        return true;
                                    }
                                }
                                return false;
                            };
                            auto bounds = [&](int lv, T base, const APInt & k0, T rest) {
                                // k*v + rest compared with something: v <= rest / -k
                                if (!inv(rest)) {
                                    // v + k <= n gives v <= n whatever k is
                                    if (rest->op != Op::SUM) {
                                        return;
                                    }
                                    T keep = mkC(rest->c);
                                    for (size_t j = 0; j < rest->a.size(); ++j) {
                                        if (inv(rest->a[j])) {
                                            keep = mkAdd(keep, mkMulC(rest->a[j], rest->k[j]));
                                        }
                                    }
                                    if (keep->isConst()) {
                                        return;
                                    }
                                    rest = keep;
                                }
                                APInt k = k0;
                                if (k.isNegative()) {
                                    k = -k;
                                } else {
                                    rest = mkNeg(rest);
                                }
                                T bare = rest->op == Op::SUM ? mkSub(rest, mkC(rest->c)) : rest;
                                auto put = [&](T q) {
                                    if (base) {
                                        q = mkAdd(base, q);
                                    }
                                    add(lv, q, false);
                                };
                                // at least one positive coefficient, or a constant
                                bool pos = rest->op != Op::SUM;
                                if (rest->op == Op::SUM) {
                                    for (auto & kk : rest->k) {
                                        pos |= !kk.isNegative();
                                    }
                                }
                                if (!pos) {
                                    return;
                                }
                                if (k.isOne()) {
                                    put(rest);
                                    if (bare != rest) {
                                        put(bare);
                                    }
                                    if (lv < 0) {
                                        put(mkAdd(rest, mkC(rest->w, 1)));
                                    }
                                    return;
                                }
                                if (k.isZero() || lv >= 0) {
                                    return;
                                }
                                bool ok = true;
                                auto divBy = [&](T r) {
                                    auto dv = [&](const APInt & v) {
                                        if (v.srem(k) != 0) {
                                            ok = false;
                                        }
                                        return v.sdiv(k);
                                    };
                                    if (r->isConst()) {
                                        return mkC(dv(r->c));
                                    }
                                    if (r->op != Op::SUM) {
                                        ok = false;
                                        return r;
                                    }
                                    T q = mkC(dv(r->c));
                                    for (size_t j = 0; j < r->a.size(); ++j) {
                                        q = mkAdd(q, mkMulC(r->a[j], dv(r->k[j])));
                                    }
                                    return q;
                                };
                                T q = divBy(rest);
                                if (ok) {
                                    put(q);
                                    put(mkAdd(q, mkC(q->w, 1)));
                                    return;
                                }
                                ok = true;
                                q = divBy(bare);
                                if (ok) {
                                    put(q);
                                    return;
                                }
                                put(mkUDiv(bare, mkC(k)));
                                if (rest != bare) {
                                    put(mkUDiv(rest, mkC(k)));
                                }
                            };
                            APInt k;
                            T rest;
                            if (d->w == 64 && coef(t, k, rest)) {
                                bounds(-1, nullptr, k, rest);
                            }
                            if (x->op == Op::ULT && d == t) {
                                add(-1, d == A ? B : A, false);
                            }
                            for (size_t i = 0; i < lvs.size(); ++i) {
                                if (lvs[i].kind == LV::LIN || lvs[i].w < 8 || lvs[i].w != d->w) {
                                    continue;
                                }
                                T v = lvs[i].cur;
                                if (lvs[i].base) {
                                    v = mkSub(v, lvs[i].base);
                                }
                                if (coef(v, k, rest)) {
                                    if (k.isOne() || k.isAllOnes()) {
                                        bounds(int(i), lvs[i].base, k, rest);
                                    }
                                }
                                if (d == v && x->op == Op::ULT) {
                                    T o = d == A ? B : A;
                                    if (lvs[i].base) {
                                        o = mkAdd(lvs[i].base, o);
                                    }
                                    add(int(i), o, false);
                                }
                            }
                        }
                    }
                }
                // pairwise order between non-linear variables of equal width
                for (size_t i = 0; i < lvs.size(); ++i) {
                    for (size_t j = 0; j < lvs.size(); ++j) {
                        if (i == j || lvs[i].w != lvs[j].w || lvs[i].w != 64 ||
                            (lvs[i].kind == LV::LIN && lvs[j].kind == LV::LIN)) {
                            continue;
                        }
                        if (lvs[i].base || lvs[j].base || lvs[i].init->hasBase || lvs[j].init->hasBase) {
                            continue;
                        }
                        if (!seenR.insert({int(i), int(j)}).second) {
                            continue;
                        }
                        if (!must(s0, mkUle(lvs[i].init, lvs[j].init))) {
                            continue;
                        }
                        Cand cd;
                        cd.lv = int(i);
                        cd.lv2 = int(j);
                        cd.bound = nullptr;
                        cands.push_back(cd);
                        changed = true;
                    }
                }
            }
            if (!changed) {
                for (auto & [o, off] : late) {
                    T & lo = whole[o];
                    T at0 = atEntry(off);
                    changed = true;
                    if (O.verbose) {
                        fprintf(stderr, "   [frame] %s: %s below %s\n", objs[o]->name.c_str(), str(off, 3).c_str(), lo ? str(lo, 3).c_str() : "-");
                    }
                    if (lo && at0 && at0 != lo && must(s0, mkUle(at0, lo))) {
                        lo = at0;
                    } else {
                        lo = nullptr;
                    }
                }
            }
            // ---- summaries: check them, then try to introduce new ones
            std::unordered_map<T, bool> pm;
            std::function<bool(T)> pure = [&](T x) -> bool {
                // a function of the iteration and of what existed before the loop
                if (x == t) {
                    return true;
                }
                if ((x->op == Op::VAR && x->aux >= t->aux) || (x->op == Op::UF && x->aux >= ufMark) || x->uninit) {
                    return false;
                }
                auto it = pm.find(x);
                if (it != pm.end()) {
                    return it->second;
                }
                bool r = true;
                for (auto y : x->a) {
                    r = r && pure(y);
                }
                return pm[x] = r;
            };
            if (!changed) {
                for (auto & [o, sm] : summ) {
                    for (auto & cl : sm.cells) {
                        T at = mkAdd(sm.at(t), mkC(64, cl.d));
                        for (auto * b : c.back) {
                            T e = readLog(*b, objc(*b, o).log, at, cl.n);
                            if (cl.val) {
                                std::unordered_map<T, T> m{{cl.tv, t}}, memo;
                                T want = substitute(cl.val, m, memo);
                                if (e == want || must(*b, mkEq(e, want), true)) {
                                    continue;
                                }
                                if (O.verbose) {
                                    fprintf(stderr, "   [summary] %s+%lu not %s but %s\n", objs[o]->name.c_str(), cl.d, str(want, 4).c_str(), str(e, 4).c_str());
                                }
                                cl.val = nullptr;
                                cl.hi = want->hi;
                                cl.uf = newUF("hv" + std::to_string(fresh++), {64}, cl.n * 8);
                                changed = true;
                            }
                            if (!cl.val && !cl.tried && pure(e)) {
                                // read back from the object itself: known once its frame is
                                cl.tried = true;
                                cl.val = e;
                                cl.tv = t;
                                changed = true;
                                continue;
                            }
                            if (cl.hi != ~0ull && !must(*b, mkUle(e, mkC(cl.n * 8, cl.hi)))) {
                                cl.hi = e->hi > cl.hi && e->hi < 4096 ? e->hi : ~0ull;
                                changed = true;
                            }
                        }
                    }
                }
            }
            if (!changed && !c.back.empty()) {
                std::vector<std::pair<int, Summ>> add;
                for (auto & [o, lo] : whole) {
                    if (!summTried.insert(o).second) {
                        continue;
                    }
                    Summ sm;
                    sm.prev = lo;
                    sm.lo = nullptr;
                    sm.stride = 0;
                    std::unordered_map<T, bool> fm;
                    std::function<bool(T, bool)> pre = [&](T x, bool allowT) -> bool {
                        if (x == t) {
                            return allowT;
                        }
                        if ((x->op == Op::VAR && x->aux >= t->aux) || (x->op == Op::UF && x->aux >= ufMark)) {
                            return false;
                        }
                        if (x->uninit) {
                            return false;
                        }
                        auto it = fm.find(x);
                        if (it != fm.end()) {
                            return it->second;
                        }
                        bool r = true;
                        for (auto y : x->a) {
                            r = r && pre(y, allowT);
                        }
                        fm[x] = r;
                        return r;
                    };
                    std::vector<std::tuple<T, uint64_t>> ws; // offset at t = 0, length
                    bool ok = true;
                    for (auto & w : c.writes) {
                        if (w.obj != o) {
                            continue;
                        }
                        uint64_t st = 0;
                        bool rev = false;
                        if (w.off == t) {
                            st = 1;
                        } else if (w.off->op == Op::SUM) {
                            for (size_t i = 0; i < w.off->a.size(); ++i) {
                                if (w.off->a[i] == t) {
                                    rev = w.off->k[i].isNegative();
                                    st = w.off->k[i].abs().getZExtValue();
                                }
                            }
                        }
                        if (!st || (sm.stride && (st != sm.stride || rev != sm.rev)) || !w.len->isConst() || w.len->c.ugt(64)) {
                            ok = false;
                            break;
                        }
                        sm.stride = st;
                        sm.rev = rev;
                        T l0 = rev ? mkAdd(w.off, mkMulC(t, APInt(64, st))) : mkSub(w.off, mkMulC(t, APInt(64, st)));
                        fm.clear();
                        if (!pre(l0, false)) {
                            ok = false;
                            break;
                        }
                        ws.push_back({l0, w.len->c.getZExtValue()});
                    }
                    if (!ok || ws.empty()) {
                        continue;
                    }
                    T ref = std::get<0>(ws[0]);
                    int64_t mn = 0;
                    std::set<std::pair<int64_t, int64_t>> iv;
                    for (auto & [l0, n] : ws) {
                        T d = mkSub(l0, ref);
                        if (!d->isConst()) {
                            ok = false;
                            break;
                        }
                        mn = std::min(mn, d->c.getSExtValue());
                        iv.insert({d->c.getSExtValue(), int64_t(n)});
                    }
                    if (!ok) {
                        continue;
                    }
                    sm.lo = mkAdd(ref, mkC(APInt(64, uint64_t(mn), true)));
                    // disjoint cells; overlapping writes are taken byte by byte
                    std::vector<std::pair<int64_t, int64_t>> cl(iv.begin(), iv.end());
                    std::vector<bool> bytewise(cl.size(), false);
                    int64_t top = 0;
                    for (size_t i = 0; i < cl.size(); ++i) {
                        top = std::max(top, cl[i].first - mn + cl[i].second);
                        for (size_t j = 0; j < cl.size(); ++j) {
                            if (i != j && cl[i].first < cl[j].first + cl[j].second && cl[j].first < cl[i].first + cl[i].second) {
                                bytewise[i] = true;
                            }
                        }
                    }
                    if (uint64_t(top) > sm.stride) {
                        continue;
                    }
                    std::set<int64_t> bytes;
                    for (size_t i = 0; i < cl.size(); ++i) {
                        if (bytewise[i]) {
                            for (int64_t k = 0; k < cl[i].second; ++k) {
                                bytes.insert(cl[i].first - mn + k);
                            }
                        } else {
                            for (int64_t k = 0; k < cl[i].second; k += 8) {
                                Cell x;
                                x.d = uint64_t(cl[i].first - mn + k);
                                x.n = unsigned(std::min<int64_t>(8, cl[i].second - k));
                                sm.cells.push_back(x);
                            }
                        }
                    }
                    for (auto k : bytes) {
                        Cell x;
                        x.d = uint64_t(k);
                        x.n = 1;
                        sm.cells.push_back(x);
                    }
                    for (auto & x : sm.cells) {
                        T at = mkAdd(sm.at(t), mkC(64, x.d));
                        T e = nullptr;
                        uint64_t hi = 0;
                        for (auto * b : c.back) {
                            T v = readLog(*b, objc(*b, o).log, at, x.n);
                            hi = std::max(hi, v->hi);
                            if (!e || e == v) {
                                e = v;
                            } else if (!must(*b, mkEq(e, v))) {
                                e = v; // the check of the next round decides
                            }
                        }
                        fm.clear();
                        if (pre(e, true) && !e->uninit) {
                            x.val = e;
                            x.tv = t;
                        } else {
                            x.hi = hi;
                            x.uf = newUF("hv" + std::to_string(fresh++), {64}, x.n * 8);
                        }
                    }
                    if (O.verbose) {
                        fprintf(stderr, "   [summary] %s from %s stride %lu\n", objs[o]->name.c_str(), str(sm.lo, 3).c_str(), sm.stride);
                        for (auto & x : sm.cells) {
                            fprintf(stderr, "      +%lu:%u %s\n", x.d, x.n, x.val ? str(x.val, 5).c_str() : ("<= " + std::to_string(x.hi)).c_str());
                        }
                    }
                    add.push_back({o, sm});
                }
                for (auto & [o, sm] : add) {
                    whole.erase(o);
                    summ.emplace(o, sm);
                    changed = true;
                }
            }
            for (auto * b : c.back) {
                delete b;
            }
            for (auto * x : exits) {
                delete x;
            }
            exits = c.exits;
            if (changed) {
                break;
            }
        }
        if (!changed) {
            if (O.verbose) {
                fprintf(stderr, "[loop] %s stable after %d rounds: %zu vars %zu whole, exits %zu\n",
                        locOf(header->getTerminator()).c_str(), round, lvs.size(), whole.size(), exits.size());
                for (auto & v : lvs) {
                    fprintf(stderr, "   %s %s init %s%s\n", v.phi ? "phi" : objs[v.obj]->name.c_str(),
                            v.kind == LV::LIN ? "lin" : "free", str(v.init, 3).c_str(),
                            v.kind == LV::LIN ? (" step " + std::to_string(v.c.getSExtValue())).c_str() : "");
                }
                for (auto & cd : cands) {
                    if (!cd.dead) {
                        fprintf(stderr, "   cand lv%d %s %s\n", cd.lv, cd.ge ? ">=" : "<=",
                                cd.lv2 >= 0 ? ("lv" + std::to_string(cd.lv2)).c_str() : str(cd.bound, 3).c_str());
                    }
                }
            }
            break;
        }
    }
    for (auto * x : exits) {
        ctx->wl.push_back(x);
    }
}
} // namespace irv
