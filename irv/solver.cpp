#include "solver.h"
#include <llvm/ADT/SmallString.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <unistd.h>
#include <z3.h>

namespace irv {
static const unsigned unitsPerMs = getenv("IRV_UNITS") ? atoi(getenv("IRV_UNITS")) : 4000;
struct Solver::Impl {
    Z3_context c;
    Z3_solver inc;
    std::vector<const PC *> stack; // asserted, one push each
    std::unordered_map<T, Z3_ast> bv, bl, quot;
    std::vector<Z3_func_decl> fd;
    std::vector<Z3_ast> axioms; // ranges of variables
    size_t asserted = 0;
    Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(c, w); }
    Z3_ast keep(Z3_ast a)
    {
        Z3_inc_ref(c, a);
        return a;
    }
    Z3_func_decl decl(int uf)
    {
        while (int(fd.size()) <= uf) {
            int i = int(fd.size());
            std::vector<Z3_sort> d;
            for (auto w : ufs[i].aw) {
                d.push_back(bvs(w));
            }
            std::string n = "f" + std::to_string(i) + "_" + ufs[i].name;
            Z3_func_decl f =
                Z3_mk_func_decl(c, Z3_mk_string_symbol(c, n.c_str()), unsigned(d.size()), d.data(), bvs(ufs[i].w));
            Z3_inc_ref(c, Z3_func_decl_to_ast(c, f));
            fd.push_back(f);
        }
        return fd[uf];
    }
    Z3_ast num(const APInt & v)
    {
        llvm::SmallString<64> s;
        v.toStringUnsigned(s, 10);
        return Z3_mk_numeral(c, s.c_str(), bvs(v.getBitWidth()));
    }
    Z3_ast B(T t) // as Bool
    {
        auto it = bl.find(t);
        if (it != bl.end()) {
            return it->second;
        }
        Z3_ast r;
        switch (t->op) {
        case Op::CONST: r = t->c.isOne() ? Z3_mk_true(c) : Z3_mk_false(c); break;
        case Op::EQ: r = Z3_mk_eq(c, V(t->a[0]), V(t->a[1])); break;
        case Op::ULT: r = Z3_mk_bvult(c, V(t->a[0]), V(t->a[1])); break;
        case Op::SLT: r = Z3_mk_bvslt(c, V(t->a[0]), V(t->a[1])); break;
        case Op::AND: {
            Z3_ast x[2] = {B(t->a[0]), B(t->a[1])};
            r = Z3_mk_and(c, 2, x);
            break;
        }
        case Op::OR: {
            Z3_ast x[2] = {B(t->a[0]), B(t->a[1])};
            r = Z3_mk_or(c, 2, x);
            break;
        }
        case Op::XOR: {
            if (t->a[0]->isConst() || t->a[1]->isConst()) {
                T x = t->a[0]->isConst() ? t->a[1] : t->a[0];
                T k = t->a[0]->isConst() ? t->a[0] : t->a[1];
                r = k->c.isOne() ? Z3_mk_not(c, B(x)) : B(x);
            } else {
                r = Z3_mk_xor(c, B(t->a[0]), B(t->a[1]));
            }
            break;
        }
        case Op::ITE: r = Z3_mk_ite(c, B(t->a[0]), B(t->a[1]), B(t->a[2])); break;
        default: r = Z3_mk_eq(c, V(t), num(APInt(1, 1))); break;
        }
        return bl[t] = keep(r);
    }
    Z3_ast V(T t)
    {
        auto it = bv.find(t);
        if (it != bv.end()) {
            return it->second;
        }
        Z3_ast r = nullptr;
        bool boolish = t->w == 1 && (t->op == Op::EQ || t->op == Op::ULT || t->op == Op::SLT || t->op == Op::AND ||
                                     t->op == Op::OR || t->op == Op::XOR || t->op == Op::ITE);
        if (boolish) {
            r = Z3_mk_ite(c, B(t), num(APInt(1, 1)), num(APInt(1, 0)));
            return bv[t] = keep(r);
        }
        auto bin = [&](Z3_ast (*f)(Z3_context, Z3_ast, Z3_ast)) { return f(c, V(t->a[0]), V(t->a[1])); };
        switch (t->op) {
        case Op::CONST: r = num(t->c); break;
        case Op::VAR: {
            std::string n = "v" + std::to_string(t->aux) + "_" + vars[t->aux].name;
            r = Z3_mk_const(c, Z3_mk_string_symbol(c, n.c_str()), bvs(t->w));
            if (t->w <= 64 && (t->lo > 0 || t->hi < (t->w == 64 ? ~0ull : (1ull << t->w) - 1))) {
                if (t->lo > 0) {
                    axioms.push_back(keep(Z3_mk_bvuge(c, r, num(APInt(t->w, t->lo)))));
                }
                axioms.push_back(keep(Z3_mk_bvule(c, r, num(APInt(t->w, t->hi)))));
            }
            break;
        }
        case Op::UF: {
            std::vector<Z3_ast> x;
            for (auto y : t->a) {
                x.push_back(V(y));
            }
            switch (ufs[t->aux].sem) {
            case 0: r = Z3_mk_app(c, decl(int(t->aux)), unsigned(x.size()), x.data()); break;
            case 1: {
                r = Z3_mk_extract(c, 7, 0, x[0]);
                for (unsigned i = 8; i < t->w; i += 8) {
                    r = Z3_mk_concat(c, r, Z3_mk_extract(c, i + 7, i, x[0]));
                }
                break;
            }
            default: r = (ufs[t->aux].sem == 2 ? Z3_mk_bvshl : Z3_mk_bvlshr)(c, x[0], x[1]);
            }
            break;
        }
        case Op::SUM: {
            for (size_t i = 0; i < t->a.size(); ++i) {
                Z3_ast x = V(t->a[i]);
                bool neg = false;
                if (t->k[i].isAllOnes()) {
                    neg = true;
                } else if (t->k[i].isPowerOf2() && !t->k[i].isOne()) {
                    x = Z3_mk_bvshl(c, x, num(APInt(t->w, t->k[i].logBase2())));
                } else if ((-t->k[i]).isPowerOf2()) {
                    x = Z3_mk_bvshl(c, x, num(APInt(t->w, (-t->k[i]).logBase2())));
                    neg = true;
                } else if (!t->k[i].isOne()) {
                    x = Z3_mk_bvmul(c, num(t->k[i]), x);
                }
                r = !r ? (neg ? Z3_mk_bvneg(c, x) : x) : (neg ? Z3_mk_bvsub(c, r, x) : Z3_mk_bvadd(c, r, x));
            }
            if (!t->c.isZero()) {
                r = Z3_mk_bvadd(c, r, num(t->c));
            }
            break;
        }
        case Op::MUL: r = bin(Z3_mk_bvmul); break;
        case Op::UDIV:
        case Op::UREM:
            if (t->a[1]->isConst() && !t->a[1]->c.isZero()) {
                // q with X - k*q < k and no overflow is the quotient
                T qt = mkUDiv(t->a[0], t->a[1]);
                APInt k = t->a[1]->c;
                Z3_ast X = V(t->a[0]), K = num(k);
                Z3_ast q;
                auto qi = quot.find(qt);
                if (qi == quot.end()) {
                    std::string n = "d" + std::to_string(qt->id);
                    q = keep(Z3_mk_const(c, Z3_mk_string_symbol(c, n.c_str()), bvs(t->w)));
                    axioms.push_back(keep(Z3_mk_bvule(c, q, num(APInt::getMaxValue(t->w).udiv(k)))));
                    axioms.push_back(keep(Z3_mk_bvule(c, Z3_mk_bvmul(c, K, q), X)));
                    axioms.push_back(keep(Z3_mk_bvult(c, Z3_mk_bvsub(c, X, Z3_mk_bvmul(c, K, q)), K)));
                    quot[qt] = q;
                } else {
                    q = qi->second;
                }
                r = t->op == Op::UDIV ? q : Z3_mk_bvsub(c, X, Z3_mk_bvmul(c, K, q));
                break;
            }
            r = bin(t->op == Op::UDIV ? Z3_mk_bvudiv : Z3_mk_bvurem);
            break;
        case Op::SDIV: r = bin(Z3_mk_bvsdiv); break;
        case Op::SREM: r = bin(Z3_mk_bvsrem); break;
        case Op::AND: r = bin(Z3_mk_bvand); break;
        case Op::OR: r = bin(Z3_mk_bvor); break;
        case Op::XOR: r = bin(Z3_mk_bvxor); break;
        case Op::SHL: r = bin(Z3_mk_bvshl); break;
        case Op::LSHR: r = bin(Z3_mk_bvlshr); break;
        case Op::ASHR: r = bin(Z3_mk_bvashr); break;
        case Op::CONCAT:
            r = V(t->a[0]);
            for (size_t i = 1; i < t->a.size(); ++i) {
                r = Z3_mk_concat(c, r, V(t->a[i]));
            }
            break;
        case Op::EXTRACT: r = Z3_mk_extract(c, t->aux + t->w - 1, t->aux, V(t->a[0])); break;
        case Op::SEXT: r = Z3_mk_sign_ext(c, t->w - t->a[0]->w, V(t->a[0])); break;
        case Op::ITE: r = Z3_mk_ite(c, B(t->a[0]), V(t->a[1]), V(t->a[2])); break;
        default: abort();
        }
        return bv[t] = keep(r);
    }
    // The budget is counted in z3's resource units so that a run is repeatable
    // on a busy machine; the time limit is only a guard.
    void setTimeout(Z3_solver s, unsigned ms)
    {
        Z3_params p = Z3_mk_params(c);
        Z3_params_inc_ref(c, p);
        Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "rlimit"), ms * unitsPerMs);
        Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), ms < 10000 ? ms * 10 : ms * 2);
        Z3_solver_set_params(c, s, p);
        Z3_params_dec_ref(c, p);
    }
    APInt bvval(Z3_ast a, unsigned w)
    {
        if (Z3_get_ast_kind(c, a) != Z3_NUMERAL_AST) {
            return APInt(w, 0);
        }
        return APInt(w, Z3_get_numeral_string(c, a), 10);
    }
    std::shared_ptr<Model> model(Z3_solver s)
    {
        auto m = std::make_shared<Model>();
        Z3_model zm = Z3_solver_get_model(c, s);
        Z3_model_inc_ref(c, zm);
        for (unsigned i = 0; i < Z3_model_get_num_consts(c, zm); ++i) {
            Z3_func_decl d = Z3_model_get_const_decl(c, zm, i);
            std::string n = Z3_get_symbol_string(c, Z3_get_decl_name(c, d));
            if (n.empty() || n[0] != 'v') {
                continue;
            }
            unsigned idx = unsigned(strtoul(n.c_str() + 1, nullptr, 10));
            if (idx >= vars.size()) {
                continue;
            }
            Z3_ast v = Z3_model_get_const_interp(c, zm, d);
            if (v) {
                m->v.emplace(idx, bvval(v, vars[idx].w));
            }
        }
        for (unsigned i = 0; i < Z3_model_get_num_funcs(c, zm); ++i) {
            Z3_func_decl d = Z3_model_get_func_decl(c, zm, i);
            std::string n = Z3_get_symbol_string(c, Z3_get_decl_name(c, d));
            if (n.empty() || n[0] != 'f') {
                continue;
            }
            unsigned idx = unsigned(strtoul(n.c_str() + 1, nullptr, 10));
            if (idx >= ufs.size()) {
                continue;
            }
            Z3_func_interp fi = Z3_model_get_func_interp(c, zm, d);
            if (!fi) {
                continue;
            }
            Z3_func_interp_inc_ref(c, fi);
            auto & tb = m->f[idx];
            for (unsigned e = 0; e < Z3_func_interp_get_num_entries(c, fi); ++e) {
                Z3_func_entry fe = Z3_func_interp_get_entry(c, fi, e);
                Z3_func_entry_inc_ref(c, fe);
                std::vector<uint64_t> k;
                for (unsigned j = 0; j < Z3_func_entry_get_num_args(c, fe); ++j) {
                    k.push_back(bvval(Z3_func_entry_get_arg(c, fe, j), ufs[idx].aw[j]).getZExtValue());
                }
                tb.emplace(k, bvval(Z3_func_entry_get_value(c, fe), ufs[idx].w));
                Z3_func_entry_dec_ref(c, fe);
            }
            Z3_ast e = Z3_func_interp_get_else(c, fi);
            if (e) {
                m->felse.emplace(idx, bvval(e, ufs[idx].w));
            }
            Z3_func_interp_dec_ref(c, fi);
        }
        Z3_model_dec_ref(c, zm);
        return m;
    }
    static void onError(Z3_context c, Z3_error_code e)
    {
        fprintf(stderr, "irv: z3 error: %s\n", Z3_get_error_msg(c, e));
        _exit(4);
    }
};

Solver::Solver() : p(new Impl)
{
    Z3_config cfg = Z3_mk_config();
    p->c = Z3_mk_context(cfg);
    Z3_set_error_handler(p->c, Impl::onError);
    Z3_del_config(cfg);
    p->inc = Z3_mk_simple_solver(p->c);
    Z3_solver_inc_ref(p->c, p->inc);
}
Solver::~Solver() {}

// ---------------------------------------------------------------- linear prover
// A small, sound, incomplete decision step: unsigned comparisons between
// linear terms that provably do not wrap are read as integer inequalities and
// refuted by adding up facts and interval bounds.
namespace {
typedef __int128 I;
typedef LinFact LF;

static const I BIG = I(1) << 56;
static const I HUGE_C = I(1) << 100;

// a zero extension stands for the number it extends
T bareAtom(T t)
{
    while (t->op == Op::CONCAT && t->a[0]->isConst() && t->a[0]->c.isZero()) {
        T r = t->a.size() == 2 ? t->a[1] : mkConcat(std::vector<T>(t->a.begin() + 1, t->a.end()));
        if (r->w <= 1) {
            break;
        }
        t = r;
    }
    return t;
}
bool toLin(T t, LF & f, bool & ok)
{
    // integer expression whose value is congruent to t
    f.m.clear();
    f.c = 0;
    if (t->w > 64) {
        return ok = false;
    }
    if (t->isConst()) {
        f.c = I(t->c.getZExtValue());
        return true;
    }
    if (t->op == Op::SUM) {
        f.c = I(t->c.getSExtValue());
        bool order = true;
        for (size_t i = 0; i < t->a.size(); ++i) {
            T x = bareAtom(t->a[i]);
            order = order && (f.m.empty() || f.m.back().first->id < x->id);
            f.m.emplace_back(x, I(t->k[i].getSExtValue()));
        }
        if (!order) {
            std::sort(f.m.begin(), f.m.end(), [](auto & x, auto & y) { return x.first->id < y.first->id; });
            size_t n = 0;
            for (size_t i = 0; i < f.m.size(); ++i) {
                if (n && f.m[n - 1].first == f.m[i].first) {
                    f.m[n - 1].second += f.m[i].second;
                } else {
                    f.m[n++] = f.m[i];
                }
            }
            f.m.resize(n);
            f.m.erase(std::remove_if(f.m.begin(), f.m.end(), [](auto & x) { return x.second == 0; }), f.m.end());
        }
        return true;
    }
    f.m.emplace_back(bareAtom(t), 1);
    return true;
}
LF comb(const LF & a, const LF & b, I kb) // a + kb*b
{
    LF r;
    r.c = a.c + kb * b.c;
    size_t i = 0, j = 0;
    while (i < a.m.size() || j < b.m.size()) {
        if (j == b.m.size() || (i < a.m.size() && a.m[i].first->id < b.m[j].first->id)) {
            r.m.push_back(a.m[i++]);
        } else if (i == a.m.size() || b.m[j].first->id < a.m[i].first->id) {
            r.m.emplace_back(b.m[j].first, kb * b.m[j].second);
            ++j;
        } else {
            I k = a.m[i].second + kb * b.m[j].second;
            if (k != 0) {
                r.m.emplace_back(a.m[i].first, k);
            }
            ++i;
            ++j;
        }
    }
    return r;
}
I lowBound(const LF & f)
{
    I r = f.c;
    if (f.m.size() > 64 || r > HUGE_C * 1024 || r < -HUGE_C * 1024) {
        return -(I(1) << 126);
    }
    for (auto & [t, k] : f.m) {
        if (k > BIG || k < -BIG) {
            return -(I(1) << 126);
        }
        r += k > 0 ? k * I(t->lo) : k * I(t->hi);
    }
    return r;
}
std::string dec(I v)
{
    if (v == 0) {
        return "0";
    }
    bool n = v < 0;
    unsigned __int128 u = n ? -(unsigned __int128)v : (unsigned __int128)v;
    std::string r;
    while (u) {
        r.insert(r.begin(), char('0' + int(u % 10)));
        u /= 10;
    }
    return n ? "-" + r : r;
}
// the same integer facts, given to z3's linear arithmetic
struct Lia {
    Z3_context c = nullptr;
    Z3_solver s = nullptr;
    Z3_sort is = nullptr;
    std::unordered_map<T, Z3_ast> atom;
    std::vector<const PC *> stack;
    std::vector<std::vector<T>> bnd;
    std::unordered_map<T, int> bounded;
    uint64_t calls = 0;
    void init()
    {
        Z3_config cfg = Z3_mk_config();
        c = Z3_mk_context(cfg);
        Z3_del_config(cfg);
        s = Z3_mk_simple_solver(c);
        Z3_solver_inc_ref(c, s);
        Z3_params p = Z3_mk_params(c);
        Z3_params_inc_ref(c, p);
        Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "rlimit"), 100 * unitsPerMs);
        Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), 2000);
        Z3_solver_set_params(c, s, p);
        is = Z3_mk_int_sort(c);
        push();
    }
    void push()
    {
        Z3_solver_push(c, s);
        bnd.emplace_back();
    }
    void pop(unsigned n)
    {
        Z3_solver_pop(c, s, n);
        while (n--) {
            for (T t : bnd.back()) {
                --bounded[t];
            }
            bnd.pop_back();
        }
    }
    Z3_ast num(I v) { return Z3_mk_numeral(c, dec(v).c_str(), is); }
    Z3_ast at(T t)
    {
        auto it = atom.find(t);
        if (it == atom.end()) {
            Z3_ast a = Z3_mk_const(c, Z3_mk_string_symbol(c, ("a" + std::to_string(t->id)).c_str()), is);
            Z3_inc_ref(c, a);
            it = atom.emplace(t, a).first;
        }
        if (!bounded[t]) {
            ++bounded[t];
            bnd.back().push_back(t);
            Z3_solver_assert(c, s, Z3_mk_ge(c, it->second, num(I(t->lo))));
            Z3_solver_assert(c, s, Z3_mk_le(c, it->second, num(I(t->hi))));
        }
        return it->second;
    }
    void add(const LF & f)
    {
        std::vector<Z3_ast> x{num(f.c)};
        for (auto & [t, k] : f.m) {
            Z3_ast m[2] = {num(k), at(t)};
            x.push_back(Z3_mk_mul(c, 2, m));
        }
        Z3_solver_assert(c, s, Z3_mk_ge(c, Z3_mk_add(c, unsigned(x.size()), x.data()), num(0)));
    }
    bool ge0(const PC * base, const std::vector<const LF *> & facts, size_t nb, const LF & e)
    {
        if (!c) {
            init();
        }
        ++calls;
        std::vector<const PC *> want;
        for (auto q = base; q; q = q->parent) {
            if (q->factsDone && !q->facts.empty()) {
                want.push_back(q);
            }
        }
        std::reverse(want.begin(), want.end());
        size_t common = 0;
        while (common < want.size() && common < stack.size() && want[common] == stack[common]) {
            ++common;
        }
        if (stack.size() > common) {
            pop(unsigned(stack.size() - common));
            stack.resize(common);
        }
        for (size_t i = common; i < want.size(); ++i) {
            push();
            for (auto & f : want[i]->facts) {
                add(f);
            }
            stack.push_back(want[i]);
        }
        push();
        for (size_t i = nb; i < facts.size(); ++i) {
            add(*facts[i]);
        }
        LF n;
        n.c = -1;
        add(comb(n, e, -1)); // e <= -1
        bool r = Z3_solver_check(c, s) == Z3_L_FALSE;
        pop(1);
        return r;
    }
};
Lia lia;
struct Ctxt;
bool refute(Ctxt & c, T q);
struct Ctxt {
    std::vector<const LF *> facts; // those of base first
    const PC * base = nullptr;
    size_t nb = 0;
    int budget = 0;
    bool combined = false;
    std::unordered_set<T> divs; // quotients whose defining facts are present
    Ctxt sub() const
    {
        Ctxt r;
        r.facts = facts;
        r.base = base;
        r.nb = nb;
        return r;
    }
    static void setMult(I a, I b, I & mult, I & scale)
    {
        // scale*a == mult*b, both positive
        if (a % b == 0) {
            mult = a / b;
            scale = 1;
            return;
        }
        I x = a < 0 ? -a : a, y = b < 0 ? -b : b, g = x, h = y;
        if (x > BIG || y > BIG) {
            return;
        }
        while (h) {
            I r = g % h;
            g = h;
            h = r;
        }
        if (y / g > 4096 || x / g > BIG) {
            return;
        }
        scale = y / g;
        mult = x / g;
    }
    // k*q <= X <= k*q + k-1 for every quotient q = X / k among the atoms
    void defineAtoms(T t, std::vector<LF> & out)
    {
        if (t->w > 64 || t->op == Op::CONST || t->op == Op::VAR) {
            return;
        }
        if (t->op == Op::SUM) {
            for (auto y : t->a) {
                defineAtoms(y, out);
            }
            return;
        }
        if (t->w == 1) {
            for (auto y : t->a) {
                defineAtoms(y, out);
            }
            return;
        }
        if (t->op == Op::CONCAT && t->a.size() == 2 && t->a[0]->isConst() && t->a[0]->c.isZero() && t->a[1]->op == Op::EXTRACT && !divs.count(t)) {
            // X >> k
            T e = t->a[1], x = e->a[0];
            LF X, q;
            if (e->aux && e->aux < 20 && x->w <= 64 && e->aux + e->w == x->w && exact(x, X)) {
                divs.insert(t);
                I k = I(1) << e->aux;
                q.m.emplace_back(bareAtom(t), 1);
                out.push_back(comb(X, q, -k));
                LF up;
                up.c = k - 1;
                up = comb(up, q, k);
                out.push_back(comb(up, X, -1));
                defineAtoms(x, out);
            }
            return;
        }
        if (t->op == Op::ITE && t->w == 64 && !divs.count(t)) {
            // a choice whose condition the facts decide, minima and maxima
            divs.insert(t);
            T c0 = t->a[0], x = t->a[1], y = t->a[2];
            LF X, Y, q;
            q.m.emplace_back(t, 1);
            auto same = [&](const LF & Z) {
                out.push_back(comb(Z, q, -1));
                out.push_back(comb(q, Z, -1));
            };
            bool ex = exact(x, X), ey = exact(y, Y);
            bool lt = c0->op == Op::ULT && ex && ey;
            bool min = lt && c0->a[0] == x && c0->a[1] == y, max = lt && c0->a[0] == y && c0->a[1] == x;
            if (min || max) {
                bool le = ge0(comb(Y, X, -1)), ge = !le && ge0(comb(X, Y, -1));
                if (le) {
                    same(min ? X : Y);
                } else if (ge) {
                    same(min ? Y : X);
                } else {
                    for (auto Z : {&X, &Y}) {
                        out.push_back(min ? comb(*Z, q, -1) : comb(q, *Z, -1));
                    }
                }
            } else if (ey && refute(*this, c0)) {
                same(Y);
            } else if (ex && refute(*this, mkBNot(c0))) {
                same(X);
            }
            defineAtoms(x, out);
            defineAtoms(y, out);
            return;
        }
        if (t->op == Op::UDIV && t->a[1]->isConst() && !t->a[1]->c.isZero() && !divs.count(t)) {
            LF X, q;
            if (t->a[1]->c.ult(1u << 20) && exact(t->a[0], X)) {
                divs.insert(t);
                I k = I(t->a[1]->c.getZExtValue());
                q.m.emplace_back(t, 1);
                out.push_back(comb(X, q, -k));
                LF up;
                up.c = k - 1;
                up = comb(up, q, k);
                out.push_back(comb(up, X, -1));
                defineAtoms(t->a[0], out);
            }
        }
    }
    bool prove(const LF & e, int depth) // e >= 0 ?
    {
        if (lowBound(e) >= 0) {
            return true;
        }
        if (depth == 0 || --budget < 0 || e.c > HUGE_C || e.c < -HUGE_C) {
            return false;
        }
        for (auto & [t, k] : e.m) {
            if (k > BIG || k < -BIG) {
                return false;
            }
        }
        for (size_t fi = facts.size(); fi-- > 0;) {
            auto f = facts[fi];
            // use a fact only when it removes a term that hurts: coefficient
            // of the same sign, negative side first
            I mult = 0, scale = 1;
            size_t i = 0, j = 0;
            while (i < e.m.size() && j < f->m.size()) {
                if (e.m[i].first->id < f->m[j].first->id) {
                    ++i;
                } else if (f->m[j].first->id < e.m[i].first->id) {
                    ++j;
                } else {
                    I a = e.m[i].second, b = f->m[j].second;
                    if (a < 0 && b < 0) {
                        setMult(a, b, mult, scale);
                        break;
                    }
                    if (a > 0 && b > 0 && e.m[i].first->lo == 0 && mult == 0) {
                        // positive terms are also worth replacing
                        setMult(a, b, mult, scale);
                    }
                    ++i;
                    ++j;
                }
            }
            if (mult > 0) {
                combined = true;
                LF g;
                if (scale > 1) {
                    // e >= 0 over the integers follows from scale*e + (scale-1) >= 0
                    g.c = scale - 1;
                    g = comb(comb(g, e, scale), *f, -mult);
                } else {
                    g = comb(e, *f, -mult);
                }
                if (prove(g, depth - 1)) {
                    return true;
                }
            }
        }
        return false;
    }
    bool ge0(const LF & e)
    {
        combined = false;
        for (int d = 1; d <= 3; ++d) {
            budget = 60;
            if (prove(e, d)) {
                return true;
            }
            if (!combined) {
                return false; // nothing to combine
            }
        }
        for (auto & [t, k] : e.m) {
            if (k > BIG || k < -BIG) {
                return false;
            }
        }
        return lia.ge0(base, facts, nb, e);
    }
    bool exact(T t, LF & f)
    {
        bool ok = true;
        if (!toLin(t, f, ok) || !ok) {
            return false;
        }
        if (t->op != Op::SUM) {
            return true;
        }
        I top = t->w == 64 ? (I(1) << 64) : (I(1) << t->w);
        // exact when 0 <= f < 2^w
        LF up;
        up.c = top - 1;
        LF hi = comb(up, f, -1);
        if (ge0(f)) {
            return ge0(hi);
        }
        return false;
    }
};
bool isNot(T t, T & x)
{
    if (t->op == Op::XOR && t->w == 1) {
        if (t->a[0]->isTrue()) {
            x = t->a[1];
            return true;
        }
        if (t->a[1]->isTrue()) {
            x = t->a[0];
            return true;
        }
    }
    return false;
}
void tighten(LF & f)
{
    // integer rounding: divide by the gcd of the coefficients
    I g = 0;
    for (auto & [t, k] : f.m) {
        I x = k < 0 ? -k : k, y = g;
        while (y) {
            I r = x % y;
            x = y;
            y = r;
        }
        g = x;
    }
    if (g <= 1) {
        return;
    }
    for (auto & [t, k] : f.m) {
        k /= g;
    }
    I q = f.c / g;
    if (f.c < 0 && f.c % g != 0) {
        --q;
    }
    f.c = q;
}
void derive(Ctxt & c, T cond, std::vector<LF> & out)
{
    T x;
    bool neg = false;
    T t = cond;
    while (isNot(t, x)) {
        neg = !neg;
        t = x;
    }
    if ((t->op == Op::AND && t->w == 1 && !neg) || (t->op == Op::OR && t->w == 1 && neg)) {
        T a = neg ? mkBNot(t->a[0]) : t->a[0], b = neg ? mkBNot(t->a[1]) : t->a[1];
        std::vector<LF> fa, fb;
        derive(c, a, fa);
        Ctxt c2 = c.sub();
        for (auto & f : fa) {
            tighten(f);
            c2.facts.push_back(&f);
        }
        derive(c2, b, fb);
        // the second may help to read the first
        if (fa.empty() && !fb.empty()) {
            Ctxt c3 = c.sub();
            for (auto & f : fb) {
                c3.facts.push_back(&f);
            }
            derive(c3, a, fa);
        }
        out.insert(out.end(), fa.begin(), fa.end());
        out.insert(out.end(), fb.begin(), fb.end());
        return;
    }
    if (t->op == Op::ULT) {
        LF a, b;
        if (!neg) {
            // A < B (mod values). exactness of both sides
            bool ea = c.exact(t->a[0], a), eb = c.exact(t->a[1], b);
            if (ea && eb) {
                LF f = comb(b, a, -1);
                f.c -= 1;
                out.push_back(f);
            } else if (eb && t->a[0]->op == Op::SUM) {
                // A = x - y wrapped is large: A < B small implies it did not
                // wrap when the wrapped value would exceed B
                bool ok = true;
                if (toLin(t->a[0], a, ok) && ok) {
                    I top = I(1) << t->a[0]->w;
                    // if a in [-M, 2^w): wrapped value a + 2^w >= 2^w - M; contradiction if B <= 2^w - M
                    LF lo = a; // a >= -M ?
                    I lb = lowBound(a);
                    LF up;
                    up.c = top - 1;
                    if (lb < 0 && lb >= -(top - 1) && c.ge0(comb(up, a, -1))) {
                        // need B <= 2^w + lb
                        LF q;
                        q.c = top + lb;
                        if (c.ge0(comb(q, b, -1))) {
                            out.push_back(a); // a >= 0
                            LF f = comb(b, a, -1);
                            f.c -= 1;
                            out.push_back(f);
                        }
                    }
                    (void)lo;
                }
            }
        } else {
            // A >= B
            if (c.exact(t->a[0], a) && c.exact(t->a[1], b)) {
                out.push_back(comb(a, b, -1));
            } else if (t->a[0]->op != Op::SUM && t->a[1]->op == Op::SUM) {
            }
        }
        return;
    }
    if (t->op == Op::EQ && !neg) {
        LF a, b;
        if (c.exact(t->a[0], a) && c.exact(t->a[1], b)) {
            out.push_back(comb(a, b, -1));
            out.push_back(comb(b, a, -1));
        }
        return;
    }
    if (t->op == Op::EQ && neg) {
        // A != B with B at the edge of A's range
        LF a, b;
        if (c.exact(t->a[0], a) && c.exact(t->a[1], b)) {
            LF d = comb(a, b, -1);
            if (c.ge0(d)) {
                d.c -= 1;
                out.push_back(d);
            } else {
                LF e = comb(b, a, -1);
                if (c.ge0(e)) {
                    e.c -= 1;
                    out.push_back(e);
                }
            }
        }
    }
}
// is q impossible under the facts?
bool refute(Ctxt & c, T q)
{
    T x;
    bool neg = false;
    T t = q;
    while (isNot(t, x)) {
        neg = !neg;
        t = x;
    }
    if (t->isConst()) {
        return t->isTrue() == neg;
    }
    if (t->w == 1 && ((t->op == Op::AND && neg) || (t->op == Op::OR && !neg))) {
        T a = neg ? mkBNot(t->a[0]) : t->a[0], b = neg ? mkBNot(t->a[1]) : t->a[1];
        // q = a or b: refute b under not-a as well
        if (!refute(c, a)) {
            return false;
        }
        std::vector<LF> ex;
        derive(c, mkBNot(a), ex);
        for (auto & f : ex) {
            tighten(f);
        }
        Ctxt c2 = c.sub();
        for (auto & f : ex) {
            c2.facts.push_back(&f);
        }
        return refute(c2, b);
    }
    if (t->w == 1 && ((t->op == Op::AND && !neg) || (t->op == Op::OR && neg))) {
        T a = neg ? mkBNot(t->a[0]) : t->a[0], b = neg ? mkBNot(t->a[1]) : t->a[1];
        if (refute(c, a)) {
            return true;
        }
        std::vector<LF> ex;
        derive(c, a, ex);
        for (auto & f : ex) {
            tighten(f);
        }
        Ctxt c2 = c.sub();
        for (auto & f : ex) {
            c2.facts.push_back(&f);
        }
        return refute(c2, b);
    }
    if (t->op == Op::ULT) {
        LF a, b;
        bool ea = c.exact(t->a[0], a), eb = c.exact(t->a[1], b);
        if (ea && eb) {
            LF d = neg ? comb(b, a, -1) : comb(a, b, -1);
            if (neg) {
                d.c -= 1;
            }
            if (c.ge0(d)) {
                return true;
            }
        }
    } else if (t->op == Op::EQ && t->a[0]->w > 1) {
        LF a, b;
        bool ea = c.exact(t->a[0], a), eb = c.exact(t->a[1], b);
        if (ea && eb) {
            LF d = comb(a, b, -1), e = comb(b, a, -1);
            if (neg) {
                return c.ge0(d) && c.ge0(e);
            }
            d.c -= 1;
            e.c -= 1;
            if (c.ge0(d) || c.ge0(e)) {
                return true;
            }
        }
    }
    // the facts of q may contradict the rest
    std::vector<LF> ex;
    derive(c, q, ex);
    for (auto & f : ex) {
        tighten(f);
        LF n;
        n.c = -1;
        LF d = comb(n, f, -1);
        if (c.ge0(d)) {
            return true;
        }
    }
    return false;
}
} // namespace

// numbers a condition fixes: number == constant, or number == number
static void fixes(T cond, std::vector<std::pair<T, T>> & out)
{
    if (cond->w == 1 && cond->op == Op::AND) {
        fixes(cond->a[0], out);
        fixes(cond->a[1], out);
        return;
    }
    if (cond->op != Op::EQ) {
        return;
    }
    T a = cond->a[0], b = cond->a[1];
    if (a->isConst()) {
        std::swap(a, b);
    }
    if (!b->isConst() || a->w < 2 || a->w > 64 || (a->op != Op::CONCAT && a->op != Op::VAR && a->op != Op::UF)) {
        return;
    }
    T x = bareAtom(a);
    T c = mkC(x->w, b->c.getZExtValue());
    out.push_back({x, c});
    if (x->w < 64) {
        out.push_back({mkZExt(x, 64), mkC(64, b->c.getZExtValue())});
    }
}
static void atomsOf(T t, std::unordered_set<T> & seen, std::vector<T> & out)
{
    if (t->isConst() || t->w > 64 || !seen.insert(t).second) {
        return;
    }
    if (t->op == Op::SUM || t->w == 1) {
        for (auto x : t->a) {
            atomsOf(x, seen, out);
        }
        return;
    }
    T x = bareAtom(t);
    if (x->op == Op::CONCAT || x->op == Op::UF || x->op == Op::VAR) {
        out.push_back(x);
    }
}
// atoms that the fixed numbers make equal to other atoms
static void congruences(Ctxt & c, const std::vector<T> & atoms, const std::unordered_map<T, T> & m,
                        std::unordered_map<T, T> & memo, std::vector<LF> & out)
{
    for (T x : atoms) {
        T y = substitute(x, m, memo);
        if (y == x) {
            continue;
        }
        LF a, b;
        bool ok = true;
        toLin(x, a, ok);
        if (y->op == Op::SUM || !toLin(y, b, ok) || !ok) {
            continue;
        }
        out.push_back(comb(a, b, -1));
        out.push_back(comb(b, a, -1));
    }
}

bool Solver::linUnsat(const PC * pc, T q)
{
    Ctxt c;
    std::vector<const PC *> ch;
    for (auto p = pc; p; p = p->parent) {
        ch.push_back(p);
    }
    std::unordered_map<T, T> m, memo;
    for (auto it = ch.rbegin(); it != ch.rend(); ++it) {
        if (!(*it)->factsDone) {
            std::vector<LF> defs;
            c.defineAtoms((*it)->cond, defs);
            fixes((*it)->cond, (*it)->eqs);
            if (!m.empty() || !(*it)->eqs.empty()) {
                std::vector<T> atoms;
                std::unordered_set<T> seen;
                atomsOf((*it)->cond, seen, atoms);
                std::unordered_map<T, T> m2 = m, memo2;
                if (!(*it)->eqs.empty()) {
                    m2.insert((*it)->eqs.begin(), (*it)->eqs.end());
                    for (auto b = ch.rbegin(); b != it; ++b) {
                        atomsOf((*b)->cond, seen, atoms);
                    }
                    for (auto & e : (*it)->eqs) {
                        // the fixed number itself is a fact already
                        atoms.erase(std::remove(atoms.begin(), atoms.end(), e.first), atoms.end());
                    }
                }
                congruences(c, atoms, m2, memo2, defs);
            }
            size_t nf = c.facts.size();
            for (auto & f : defs) {
                c.facts.push_back(&f);
            }
            std::vector<LF> out;
            derive(c, (*it)->cond, out);
            c.facts.resize(nf);
            for (auto & f : out) {
                tighten(f);
            }
            (*it)->facts = defs;
            (*it)->facts.insert((*it)->facts.end(), out.begin(), out.end());
            (*it)->factsDone = true;
        }
        for (auto & f : (*it)->facts) {
            c.facts.push_back(&f);
        }
        m.insert((*it)->eqs.begin(), (*it)->eqs.end());
        c.base = *it;
        c.nb = c.facts.size();
    }
    std::vector<LF> defs;
    c.defineAtoms(q, defs);
    if (!m.empty()) {
        std::vector<T> atoms;
        std::unordered_set<T> seen;
        atomsOf(q, seen, atoms);
        congruences(c, atoms, m, memo, defs);
    }
    for (auto & f : defs) {
        c.facts.push_back(&f);
    }
    return refute(c, q);
}

static bool holds(const PC * pc, T extra, const Model & m)
{
    std::unordered_map<T, APInt> memo;
    if (extra && !eval(extra, m, memo).isOne()) {
        return false;
    }
    for (; pc; pc = pc->parent) {
        if (!eval(pc->cond, m, memo).isOne()) {
            return false;
        }
    }
    return true;
}

Res Solver::check(const PC * pc, T extra, std::shared_ptr<Model> * m, bool hard)
{
    auto t0 = std::chrono::steady_clock::now();
    auto & P = *p;
    ++stats.queries;
    auto fin = [&](Res r, const char * o) {
        stats.seconds += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        lastOutput = o;
        return r;
    };
    if (extra && linUnsat(pc, extra)) {
        ++stats.linear;
        if (crosscheck) {
            std::vector<T> all;
            Z3_solver z = Z3_mk_solver(P.c);
            Z3_solver_inc_ref(P.c, z);
            for (auto q = pc; q; q = q->parent) {
                Z3_solver_assert(P.c, z, P.B(q->cond));
            }
            Z3_solver_assert(P.c, z, P.B(extra));
            for (auto x : P.axioms) {
                Z3_solver_assert(P.c, z, x);
            }
            P.setTimeout(z, 20000);
            if (Z3_solver_check(P.c, z) == Z3_L_TRUE) {
                fprintf(stderr, "irv: linear step unsound on: %s\n", str(extra, 8).c_str());
                for (auto q = pc; q; q = q->parent) {
                    fprintf(stderr, "   %s\n", str(q->cond, 8).c_str());
                }
                _exit(5);
            }
            ++stats.crosschecked;
            Z3_solver_dec_ref(P.c, z);
        }
        return fin(Res::UNSAT, "unsat (linear)");
    }
    for (size_t i = pool.size(); i-- > 0;) {
        if (holds(pc, extra, *pool[i])) {
            ++stats.pool;
            if (m) {
                *m = pool[i];
            }
            auto keep = pool[i];
            pool.erase(pool.begin() + long(i));
            pool.push_back(keep);
            return fin(Res::SAT, "sat");
        }
    }
    // synchronise the assertion stack
    std::vector<const PC *> want;
    for (auto q = pc; q; q = q->parent) {
        want.push_back(q);
    }
    std::reverse(want.begin(), want.end());
    size_t common = 0;
    while (common < want.size() && common < P.stack.size() && want[common] == P.stack[common]) {
        ++common;
    }
    if (P.stack.size() > common) {
        Z3_solver_pop(P.c, P.inc, unsigned(P.stack.size() - common));
        P.stack.resize(common);
    }
    for (size_t i = common; i < want.size(); ++i) {
        P.B(want[i]->cond);
    }
    if (extra) {
        P.B(extra);
    }
    if (P.asserted < P.axioms.size()) {
        Z3_solver_pop(P.c, P.inc, unsigned(P.stack.size()));
        P.stack.clear();
        common = 0;
        for (; P.asserted < P.axioms.size(); ++P.asserted) {
            Z3_solver_assert(P.c, P.inc, P.axioms[P.asserted]);
        }
    }
    for (size_t i = common; i < want.size(); ++i) {
        Z3_solver_push(P.c, P.inc);
        Z3_solver_assert(P.c, P.inc, P.B(want[i]->cond));
        P.stack.push_back(want[i]);
    }
    Z3_solver_push(P.c, P.inc);
    if (extra) {
        Z3_solver_assert(P.c, P.inc, P.B(extra));
    }
    P.setTimeout(P.inc, unsigned(quick ? quickTimeoutMs : timeoutMs));
    Z3_lbool r = Z3_solver_check(P.c, P.inc);
    ++stats.z3inc;
    Res res = r == Z3_L_TRUE ? Res::SAT : r == Z3_L_FALSE ? Res::UNSAT : Res::UNKNOWN;
    if (getenv("IRV_RL")) {
        Z3_stats st = Z3_solver_get_statistics(P.c, P.inc);
        Z3_stats_inc_ref(P.c, st);
        double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        static unsigned last = 0;
        for (unsigned i = 0; i < Z3_stats_size(P.c, st); ++i) {
            if (!strcmp(Z3_stats_get_key(P.c, st, i), "rlimit count")) {
                unsigned v = Z3_stats_get_uint_value(P.c, st, i);
                fprintf(stderr, "[rl] %.4f s %u\n", dt, v - last);
                last = v;
            }
        }
        Z3_stats_dec_ref(P.c, st);
    }
    if (res == Res::SAT && m) {
        *m = P.model(P.inc);
    }
    std::string why;
    if (res == Res::UNKNOWN) {
        why = Z3_solver_get_reason_unknown(P.c, P.inc);
    }
    Z3_solver_pop(P.c, P.inc, 1);
    if (res == Res::UNKNOWN && !quick) {
        // fresh solver, bit-blasting tactic
        ++stats.z3fresh;
        std::vector<T> all;
        for (auto q : want) {
            all.push_back(q->cond);
        }
        auto run = [&](const char * tac, unsigned ms) {
            Z3_solver s;
            if (tac) {
                Z3_tactic a = Z3_mk_tactic(P.c, tac);
                Z3_tactic_inc_ref(P.c, a);
                s = Z3_mk_solver_from_tactic(P.c, a);
                Z3_tactic_dec_ref(P.c, a);
            } else {
                s = Z3_mk_solver(P.c);
            }
            Z3_solver_inc_ref(P.c, s);
            P.setTimeout(s, ms);
            for (auto x : P.axioms) {
                Z3_solver_assert(P.c, s, x);
            }
            for (auto t : all) {
                Z3_solver_assert(P.c, s, P.B(t));
            }
            if (extra) {
                Z3_solver_assert(P.c, s, P.B(extra));
            }
            Z3_lbool r = Z3_solver_check(P.c, s);
            Res x = r == Z3_L_TRUE ? Res::SAT : r == Z3_L_FALSE ? Res::UNSAT : Res::UNKNOWN;
            if (x == Res::SAT && m) {
                *m = P.model(s);
            }
            if (!dumpDir.empty()) {
                static int n = 0;
                std::ofstream o(dumpDir + "/q" + std::to_string(n++) + ".smt2");
                o << Z3_solver_to_string(P.c, s) << "(check-sat)\n";
            }
            Z3_solver_dec_ref(P.c, s);
            return x;
        };
        res = run("qfufbv", hard ? unsigned(hardTimeoutMs) : unsigned(timeoutMs) * 2);
        if (res == Res::UNKNOWN && hard) {
            if (useCvc5) {
                ++stats.cvc5;
                char fn[] = "/tmp/irv_cvc5_XXXXXX";
                int fd = mkstemp(fn);
                if (fd >= 0) {
                    close(fd);
                    Z3_solver s = Z3_mk_simple_solver(P.c);
                    Z3_solver_inc_ref(P.c, s);
                    for (auto x : P.axioms) {
                        Z3_solver_assert(P.c, s, x);
                    }
                    for (auto t : all) {
                        Z3_solver_assert(P.c, s, P.B(t));
                    }
                    if (extra) {
                        Z3_solver_assert(P.c, s, P.B(extra));
                    }
                    {
                        std::ofstream o(fn);
                        o << "(set-logic QF_UFBV)\n" << Z3_solver_to_string(P.c, s) << "(check-sat)\n";
                    }
                    Z3_solver_dec_ref(P.c, s);
                    std::string cmd = "timeout " + std::to_string(hardTimeoutMs / 1000) + " cvc5 -q " + fn + " 2>&1";
                    std::string out;
                    if (FILE * f = popen(cmd.c_str(), "r")) {
                        char b[256];
                        while (fgets(b, sizeof b, f)) {
                            out += b;
                        }
                        pclose(f);
                    }
                    unlink(fn);
                    if (out.rfind("unsat", 0) == 0) {
                        res = Res::UNSAT;
                    }
                }
            }
        }
        if (res == Res::UNKNOWN) {
            ++stats.unknown;
            lastOutput = "unknown (" + why + ")";
        }
    }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    stats.seconds += dt;
    static bool slow = getenv("IRV_SLOW") != nullptr;
    if (slow && dt > 0.2) {
        fprintf(stderr, "[slow]%s%s %.2f %s %s\n", quick ? "q" : "", hard ? "h" : "", dt, res == Res::SAT ? "sat" : res == Res::UNSAT ? "unsat" : "unknown", extra ? str(extra, 6).c_str() : "-");
        if (dt > 1) {
            for (auto q = pc; q; q = q->parent) {
                fprintf(stderr, "     %s\n", str(q->cond, 6).c_str());
                for (auto & f : q->facts) {
                    fprintf(stderr, "          ");
                    for (auto & [t, k] : f.m) {
                        fprintf(stderr, "%s*%s + ", dec(k).c_str(), str(t, 2).c_str());
                    }
                    fprintf(stderr, "%s >= 0\n", dec(f.c).c_str());
                }
            }
        }
    }
    stats.slowest = std::max(stats.slowest, dt);
    if (res == Res::SAT && m && *m) {
        pool.push_back(*m);
        if (pool.size() > 24) {
            pool.erase(pool.begin());
        }
    }
    if (res == Res::SAT) {
        lastOutput = "sat";
    } else if (res == Res::UNSAT) {
        lastOutput = "unsat";
    }
    return res;
}
} // namespace irv
