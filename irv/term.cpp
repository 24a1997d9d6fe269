#include "term.h"
#include <functional>
#include <algorithm>
#include <cassert>
#include <llvm/ADT/Hashing.h>
#include <llvm/ADT/SmallString.h>
#include <sstream>

namespace irv {
std::vector<VarInfo> vars;
std::vector<UFInfo> ufs;

namespace {
struct H {
    size_t operator()(T t) const
    {
        size_t h = size_t(t->op) * 1000003u + t->w * 7919u + t->aux * 31u;
        h ^= llvm::hash_value(t->c) + 0x9e3779b97f4a7c15ull + (h << 6);
        for (auto x : t->a) {
            h = (h ^ x->id) * 0x100000001b3ull;
        }
        for (auto & x : t->k) {
            h = (h ^ size_t(llvm::hash_value(x))) * 0x100000001b3ull;
        }
        return h;
    }
};
struct E {
    bool operator()(T x, T y) const
    {
        if (x->op != y->op || x->w != y->w || x->aux != y->aux || x->a != y->a) {
            return false;
        }
        if (x->c.getBitWidth() != y->c.getBitWidth() || x->c != y->c) {
            return false;
        }
        if (x->k.size() != y->k.size()) {
            return false;
        }
        for (size_t i = 0; i < x->k.size(); ++i) {
            if (x->k[i] != y->k[i]) {
                return false;
            }
        }
        return true;
    }
};
std::unordered_set<T, H, E> & table()
{
    static std::unordered_set<T, H, E> t;
    return t;
}
uint64_t maxOf(unsigned w)
{
    return w >= 64 ? ~0ull : ((1ull << w) - 1);
}

void interval(Term & t)
{
    t.lo = 0;
    t.hi = maxOf(t.w);
    if (t.w > 64) {
        return;
    }
    typedef unsigned __int128 u128;
    switch (t.op) {
    case Op::CONST:
        t.lo = t.hi = t.c.getZExtValue();
        break;
    case Op::SUM: {
        // try an interpretation without wrap-around, coefficients taken as
        // signed values
        __int128 lo = 0, hi = 0;
        bool ok = true;
        {
            __int128 c = t.w == 64 ? __int128(int64_t(t.c.getZExtValue()))
                                   : __int128(t.c.getSExtValue());
            lo += c;
            hi += c;
        }
        for (size_t i = 0; i < t.a.size() && ok; ++i) {
            __int128 k = t.k[i].getSExtValue();
            __int128 al = t.a[i]->lo, ah = t.a[i]->hi;
            if (k > (__int128(1) << 48) || k < -(__int128(1) << 48)) {
                ok = false;
                break;
            }
            if (k >= 0) {
                lo += k * al;
                hi += k * ah;
            } else {
                lo += k * ah;
                hi += k * al;
            }
        }
        if (ok && lo >= 0 && hi <= __int128(maxOf(t.w))) {
            t.lo = uint64_t(lo);
            t.hi = uint64_t(hi);
        } else if (ok) {
            // the constant may be large as unsigned
            u128 c = t.c.getZExtValue();
            __int128 l2 = lo, h2 = hi;
            if (t.c.isNegative()) {
                l2 += (__int128(1) << t.w);
                h2 += (__int128(1) << t.w);
            }
            (void)c;
            if (l2 >= 0 && h2 <= __int128(maxOf(t.w))) {
                t.lo = uint64_t(l2);
                t.hi = uint64_t(h2);
            }
        }
        break;
    }
    case Op::MUL: {
        u128 h = u128(t.a[0]->hi) * u128(t.a[1]->hi);
        if (h <= maxOf(t.w)) {
            t.hi = uint64_t(h);
            t.lo = t.a[0]->lo * t.a[1]->lo;
        }
        break;
    }
    case Op::UDIV:
        if (t.a[1]->lo > 0) {
            t.hi = t.a[0]->hi / t.a[1]->lo;
            t.lo = t.a[0]->lo / t.a[1]->hi;
        }
        break;
    case Op::UREM:
        if (t.a[1]->lo > 0) {
            t.hi = std::min(t.a[0]->hi, t.a[1]->hi - 1);
        }
        break;
    case Op::AND:
        t.hi = std::min(t.a[0]->hi, t.a[1]->hi);
        break;
    case Op::OR:
    case Op::XOR: {
        uint64_t m = t.a[0]->hi | t.a[1]->hi;
        unsigned b = 64 - (m ? __builtin_clzll(m) : 64);
        t.hi = maxOf(b ? b : 1);
        if (!b) {
            t.hi = 0;
        }
        if (t.op == Op::OR) {
            t.lo = std::max(t.a[0]->lo, t.a[1]->lo);
        }
        break;
    }
    case Op::LSHR:
        t.hi = t.a[0]->hi;
        break;
    case Op::CONCAT: {
        unsigned sh = t.w;
        uint64_t lo = 0, hi = 0;
        for (auto p : t.a) {
            sh -= p->w;
            lo |= (p->lo << sh);
            hi |= (p->hi << sh);
        }
        t.lo = lo;
        t.hi = hi;
        break;
    }
    case Op::EXTRACT:
        if (t.aux == 0 && t.a[0]->w <= 64 && t.a[0]->hi <= maxOf(t.w)) {
            t.lo = t.a[0]->lo;
            t.hi = t.a[0]->hi;
        } else if (t.a[0]->w <= 64 && t.aux + t.w == t.a[0]->w) {
            t.lo = t.a[0]->lo >> t.aux;
            t.hi = t.a[0]->hi >> t.aux;
        }
        break;
    case Op::ITE:
        t.lo = std::min(t.a[1]->lo, t.a[2]->lo);
        t.hi = std::max(t.a[1]->hi, t.a[2]->hi);
        break;
    default:
        break;
    }
}

T intern(Term && t)
{
    auto & tb = table();
    auto it = tb.find(&t);
    if (it != tb.end()) {
        return *it;
    }
    for (auto x : t.a) {
        t.uninit |= x->uninit;
        t.hasBase |= x->hasBase;
    }
    if (t.op != Op::VAR) {
        interval(t);
    }
    t.id = uint32_t(tb.size() + 1);
    T n = new Term(std::move(t));
    tb.insert(n);
    return n;
}
T mk(Op op, unsigned w, std::vector<T> a, uint32_t aux = 0)
{
    Term t;
    t.op = op;
    t.w = w;
    t.aux = aux;
    t.c = APInt(1, 0);
    t.a = std::move(a);
    return intern(std::move(t));
}
} // namespace

size_t termCount()
{
    return table().size();
}

T mkC(const APInt & v)
{
    Term t;
    t.op = Op::CONST;
    t.w = v.getBitWidth();
    t.c = v;
    return intern(std::move(t));
}
T mkC(unsigned w, uint64_t v)
{
    if (w > 64) {
        return mkC(APInt(w, v, v == ~0ull));
    }
    return mkC(APInt(w, v & maxOf(w)));
}
T mkVar(const std::string & name, unsigned w, uint64_t lo, uint64_t hi)
{
    vars.push_back({name, w});
    Term t;
    t.op = Op::VAR;
    t.w = w;
    t.aux = uint32_t(vars.size() - 1);
    t.lo = lo;
    t.hi = std::min(hi, maxOf(w));
    return intern(std::move(t));
}
T mkBaseVar(const std::string & name, int obj)
{
    VarInfo vi{name, 64};
    vi.isBase = true;
    vi.obj = obj;
    vars.push_back(vi);
    Term t;
    t.op = Op::VAR;
    t.w = 64;
    t.aux = uint32_t(vars.size() - 1);
    t.lo = 4096;
    t.hi = (1ull << 47);
    t.hasBase = true;
    return intern(std::move(t));
}
T mkUninitVar(const std::string & name, unsigned w)
{
    VarInfo vi{name, w};
    vi.uninit = true;
    vars.push_back(vi);
    Term t;
    t.op = Op::VAR;
    t.w = w;
    t.aux = uint32_t(vars.size() - 1);
    t.lo = 0;
    t.hi = maxOf(w);
    t.uninit = true;
    return intern(std::move(t));
}
int newUF(const std::string & name, std::vector<unsigned> aw, unsigned w, bool uninit)
{
    ufs.push_back({name, std::move(aw), w, uninit});
    return int(ufs.size() - 1);
}
static APInt meaning(int sem, const APInt & x, const APInt * n)
{
    uint64_t k = n ? n->getLimitedValue(x.getBitWidth()) : 0;
    return sem == 1 ? x.byteSwap() : sem == 2 ? x.shl(unsigned(k)) : x.lshr(unsigned(k));
}
static bool opaque = false; // some term is
T mkOpaque(int sem, std::vector<T> args)
{
    static int id[4];
    if (!id[sem]) {
        id[sem] = newUF(sem == 1 ? "swap" : sem == 2 ? "shl" : "shr", std::vector<unsigned>(args.size(), 32), 32) + 1;
        ufs.back().sem = sem;
        opaque = true;
    }
    return mkUF(id[sem] - 1, std::move(args));
}
T mkUF(int uf, std::vector<T> args)
{
    if (int sem = ufs[uf].sem) {
        bool c = true;
        for (auto x : args) {
            c &= x->isConst();
        }
        if (c) {
            return mkC(meaning(sem, args[0]->c, args.size() > 1 ? &args[1]->c : nullptr));
        }
        if (sem == 1 && args[0]->op == Op::UF && ufs[args[0]->aux].sem == 1) {
            return args[0]->a[0];
        }
        if (sem > 1 && args[1]->isConst() && args[1]->c.isZero()) {
            return args[0];
        }
    }
    Term t;
    t.op = Op::UF;
    t.w = ufs[uf].w;
    t.aux = uint32_t(uf);
    t.c = APInt(1, 0);
    t.a = std::move(args);
    t.uninit = ufs[uf].uninit;
    return intern(std::move(t));
}

// ---- linear sums -------------------------------------------------------
namespace {
struct Lin {
    unsigned w;
    APInt c;
    std::map<uint32_t, std::pair<T, APInt>> m;
    explicit Lin(unsigned w) : w(w), c(w, 0) {}
    void add(T t, const APInt & k)
    {
        if (t->op == Op::CONST) {
            c += t->c * k;
            return;
        }
        if (t->op == Op::SUM) {
            c += t->c * k;
            for (size_t i = 0; i < t->a.size(); ++i) {
                atom(t->a[i], t->k[i] * k);
            }
            return;
        }
        atom(t, k);
    }
    void atom(T t, APInt k)
    {
        if (k.isZero()) {
            return;
        }
        // 2^n * (0_n : x[w-n-1:0]) == 2^n * x
        unsigned tz = k.countr_zero();
        if (tz && t->op == Op::CONCAT && t->a.size() == 2 && t->a[0]->isConst() &&
            t->a[0]->c.isZero() && t->a[0]->w <= tz && t->a[1]->op == Op::EXTRACT &&
            t->a[1]->aux == 0 && t->a[1]->a[0]->w == w) {
            add(t->a[1]->a[0], k);
            return;
        }
        // ~x == -x - 1
        if (t->op == Op::XOR && t->a.size() == 2 && (t->a[0]->isConst() || t->a[1]->isConst())) {
            unsigned i = t->a[0]->isConst() ? 0 : 1;
            if (t->a[i]->c.isAllOnes()) {
                add(t->a[1 - i], -k);
                c -= k;
                return;
            }
        }
        auto it = m.find(t->id);
        if (it == m.end()) {
            m.emplace(t->id, std::make_pair(t, k));
        } else {
            it->second.second += k;
            if (it->second.second.isZero()) {
                m.erase(it);
            }
        }
    }
    T build()
    {
        if (m.empty()) {
            return mkC(c);
        }
        if (m.size() == 1 && c.isZero() && m.begin()->second.second.isOne()) {
            return m.begin()->second.first;
        }
        Term t;
        t.op = Op::SUM;
        t.w = w;
        t.c = c;
        for (auto & [id, p] : m) {
            t.a.push_back(p.first);
            t.k.push_back(p.second);
        }
        return intern(std::move(t));
    }
};
} // namespace

T mkAdd(T a, T b)
{
    assert(a->w == b->w);
    if (a->isConst() && b->isConst()) {
        return mkC(a->c + b->c);
    }
    if (a->w == 1) {
        return mkXor(a, b);
    }
    Lin l(a->w);
    l.add(a, APInt(a->w, 1));
    l.add(b, APInt(a->w, 1));
    return l.build();
}
T mkSub(T a, T b)
{
    assert(a->w == b->w);
    if (a == b) {
        return mkC(a->w, 0);
    }
    if (a->isConst() && b->isConst()) {
        return mkC(a->c - b->c);
    }
    if (a->w == 1) {
        return mkXor(a, b);
    }
    Lin l(a->w);
    l.add(a, APInt(a->w, 1));
    l.add(b, APInt::getAllOnes(a->w));
    return l.build();
}
T mkNeg(T a)
{
    return mkSub(mkC(a->w, 0), a);
}
T mkMulC(T a, const APInt & k)
{
    if (a->w == 1) {
        return k.isZero() ? mkC(1, 0) : a;
    }
    Lin l(a->w);
    l.add(a, k);
    return l.build();
}
T mkMul(T a, T b)
{
    if (a->isConst()) {
        std::swap(a, b);
    }
    if (b->isConst()) {
        return mkMulC(a, b->c);
    }
    if (a->w == 1) {
        return mkAnd(a, b);
    }
    if (a->id > b->id) {
        std::swap(a, b);
    }
    return mk(Op::MUL, a->w, {a, b});
}

// ---- structure ---------------------------------------------------------
namespace {
// SUM of the shape 2^k * atom: bits below k are zero.
bool shlView(T t, T & x, unsigned & k)
{
    if (t->op == Op::SUM && t->a.size() == 1 && t->c.isZero() && t->k[0].isPowerOf2()) {
        k = t->k[0].logBase2();
        if (k == 0) {
            return false;
        }
        x = t->a[0];
        return true;
    }
    return false;
}
// Number of leading bits known to be zero, from structure and interval.
unsigned leadingZeros(T t)
{
    unsigned z = 0;
    if (t->w <= 64) {
        z = t->hi == 0 ? t->w : (unsigned(__builtin_clzll(t->hi)) - (64 - t->w));
    } else if (t->op == Op::CONCAT && t->a[0]->isConst() && t->a[0]->c.isZero()) {
        z = t->a[0]->w;
        if (t->a.size() == 2) {
            z += leadingZeros(t->a[1]);
        }
    }
    return z;
}
} // namespace

T mkConcat(std::vector<T> in)
{
    std::vector<T> p;
    for (auto x : in) {
        if (x->w == 0) {
            continue;
        }
        if (x->op == Op::CONCAT) {
            for (auto y : x->a) {
                p.push_back(y);
            }
        } else {
            p.push_back(x);
        }
    }
    // merge neighbours
    std::vector<T> q;
    for (auto x : p) {
        if (!q.empty()) {
            T y = q.back();
            if (y->isConst() && x->isConst()) {
                q.back() = mkC(y->c.concat(x->c));
                continue;
            }
            T ya = y->op == Op::EXTRACT ? y->a[0] : y;
            unsigned yl = y->op == Op::EXTRACT ? y->aux : 0;
            T xa = x->op == Op::EXTRACT ? x->a[0] : x;
            unsigned xl = x->op == Op::EXTRACT ? x->aux : 0;
            if (ya == xa && yl == xl + x->w) {
                q.back() = mkExtract(xa, xl, x->w + y->w);
                if (q.back()->op == Op::CONCAT) { // cannot normally happen
                    std::vector<T> r(q.begin(), q.end());
                    q.clear();
                    for (auto z : r) {
                        if (z->op == Op::CONCAT) {
                            q.insert(q.end(), z->a.begin(), z->a.end());
                        } else {
                            q.push_back(z);
                        }
                    }
                }
                continue;
            }
            // parts of a sum whose own simplification hid where they come from
            if (y->op == Op::EXTRACT && y->a[0]->op == Op::SUM && y->aux >= x->w && mkExtract(y->a[0], y->aux - x->w, x->w) == x) {
                q.back() = mkExtract(y->a[0], y->aux - x->w, x->w + y->w);
                continue;
            }
            if (x->op == Op::EXTRACT && x->a[0]->op == Op::SUM && x->aux + x->w + y->w <= x->a[0]->w &&
                mkExtract(x->a[0], x->aux + x->w, y->w) == y) {
                q.back() = mkExtract(x->a[0], x->aux, x->w + y->w);
                continue;
            }
            // ITE(c,a,b):ITE(c,d,e)
            if (y->op == Op::ITE && x->op == Op::ITE && y->a[0] == x->a[0]) {
                T t1 = mkConcat({y->a[1], x->a[1]});
                T t2 = mkConcat({y->a[2], x->a[2]});
                q.back() = mkIte(y->a[0], t1, t2);
                continue;
            }
        }
        q.push_back(x);
    }
    if (q.size() == 1) {
        return q[0];
    }
    unsigned w = 0;
    for (auto x : q) {
        w += x->w;
    }
    // trailing zeros: canonical form is a scaled sum
    if (q.back()->isConst() && q.back()->c.isZero()) {
        unsigned k = q.back()->w;
        q.pop_back();
        std::vector<T> r;
        r.push_back(mkC(k, 0));
        r.insert(r.end(), q.begin(), q.end());
        T up = mkConcat(r);
        return mkMulC(up, APInt::getOneBitSet(w, k));
    }
    // zero-extension of the low part of a value whose upper part is known to be zero
    if (q.size() == 2 && q[0]->isConst() && q[0]->c.isZero() && q[1]->op == Op::EXTRACT && q[1]->aux == 0) {
        T x = q[1]->a[0];
        if (x->w >= w && x->w <= 64 && leadingZeros(x) >= x->w - q[1]->w) {
            return mkExtract(x, 0, w);
        }
    }
    return mk(Op::CONCAT, w, std::move(q));
}

T mkExtract(T a, unsigned lo, unsigned w)
{
    assert(lo + w <= a->w && w > 0);
    if (w == a->w) {
        return a;
    }
    switch (a->op) {
    case Op::VAR:
        if (vars[a->aux].isBase && lo + w <= 4) {
            return mkC(w, 0); // objects are 16-byte aligned
        }
        if (vars[a->aux].fn >= 0 && lo == 0 && w == 1) {
            return mkC(1, 0); // functions are at even addresses (member pointers rely on it)
        }
        break;
    case Op::CONST:
        return mkC(a->c.extractBits(w, lo));
    case Op::EXTRACT:
        return mkExtract(a->a[0], a->aux + lo, w);
    case Op::CONCAT: {
        std::vector<T> parts;
        unsigned top = a->w;
        for (auto p : a->a) {
            unsigned pl = top - p->w;
            unsigned l = std::max(pl, lo), h = std::min(top, lo + w);
            if (l < h) {
                parts.push_back(mkExtract(p, l - pl, h - l));
            }
            top = pl;
        }
        return mkConcat(parts);
    }
    case Op::SEXT: {
        T x = a->a[0];
        if (lo + w <= x->w) {
            return mkExtract(x, lo, w);
        }
        if (lo == 0) {
            return mkSExt(x, w);
        }
        if (lo < x->w) {
            return mkSExt(mkExtract(x, lo, x->w - lo), w);
        }
        return mkSExt(mkExtract(x, x->w - 1, 1), w);
    }
    case Op::ITE:
        if (a->a[1]->isConst() || a->a[2]->isConst() || a->a[1]->op == Op::CONCAT ||
            a->a[2]->op == Op::CONCAT || a->a[1]->op == Op::ITE || a->a[2]->op == Op::ITE) {
            return mkIte(a->a[0], mkExtract(a->a[1], lo, w), mkExtract(a->a[2], lo, w));
        }
        break;
    case Op::AND:
        return mkAnd(mkExtract(a->a[0], lo, w), mkExtract(a->a[1], lo, w));
    case Op::OR:
        return mkOr(mkExtract(a->a[0], lo, w), mkExtract(a->a[1], lo, w));
    case Op::XOR:
        return mkXor(mkExtract(a->a[0], lo, w), mkExtract(a->a[1], lo, w));
    case Op::SUM: {
        T x;
        unsigned k;
        if (shlView(a, x, k)) {
            if (lo + w <= k) {
                return mkC(w, 0);
            }
            if (lo >= k) {
                return mkExtract(x, lo - k, w);
            }
            return mkConcat({mkExtract(x, 0, lo + w - k), mkC(k - lo, 0)});
        }
        if (lo == 0 && w > 1) {
            Lin l(w);
            l.c = a->c.trunc(w);
            for (size_t i = 0; i < a->a.size(); ++i) {
                APInt kk = a->k[i].trunc(w);
                if (!kk.isZero()) {
                    l.add(mkExtract(a->a[i], 0, w), kk);
                }
            }
            return l.build();
        }
        if (lo == 0 && w == 1) {
            T r = mkC(1, a->c[0]);
            for (size_t i = 0; i < a->a.size(); ++i) {
                if (a->k[i][0]) {
                    r = mkXor(r, mkExtract(a->a[i], 0, 1));
                }
            }
            return r;
        }
        break;
    }
    default:
        break;
    }
    if (a->w <= 64 && leadingZeros(a) >= a->w - lo) {
        return mkC(w, 0);
    }
    return mk(Op::EXTRACT, w, {a}, lo);
}
T mkZExt(T a, unsigned w)
{
    if (a->w == w) {
        return a;
    }
    return mkConcat({mkC(w - a->w, 0), a});
}
T mkTrunc(T a, unsigned w)
{
    return mkExtract(a, 0, w);
}
T mkSExt(T a, unsigned w)
{
    if (a->w == w) {
        return a;
    }
    if (a->isConst()) {
        return mkC(a->c.sext(w));
    }
    if (leadingZeros(a) > 0) {
        return mkZExt(a, w);
    }
    if (a->op == Op::SEXT) {
        return mkSExt(a->a[0], w);
    }
    return mk(Op::SEXT, w, {a});
}

T mkBNot(T a)
{
    assert(a->w == 1);
    return mkXor(a, mkC(1, 1));
}

namespace {
// split points of a term usable for slicing bitwise operations
void cuts(T t, std::vector<unsigned> & c)
{
    if (t->op == Op::CONCAT) {
        unsigned top = t->w;
        for (auto p : t->a) {
            top -= p->w;
            if (top) {
                c.push_back(top);
            }
        }
        return;
    }
    T x;
    unsigned k;
    if (shlView(t, x, k)) {
        c.push_back(k);
        std::vector<unsigned> d;
        cuts(x, d);
        for (auto y : d) {
            if (y + k < t->w) {
                c.push_back(y + k);
            }
        }
        return;
    }
    if (t->isConst() && t->w > 1) {
        unsigned runs = 0;
        std::vector<unsigned> d;
        for (unsigned i = 1; i < t->w; ++i) {
            if (t->c[i] != t->c[i - 1]) {
                d.push_back(i);
                ++runs;
            }
        }
        if (runs <= 9) {
            c.insert(c.end(), d.begin(), d.end());
        }
    }
}
// A polynomial over GF(2), bit by bit: sets of atoms multiplied, with the bits each product counts in
typedef std::map<std::vector<uint32_t>, APInt> Poly;
std::unordered_map<uint32_t, T> atoms;
void addTo(Poly & p, const std::vector<uint32_t> & m, const APInt & k)
{
    auto [it, fresh] = p.emplace(m, k);
    if (!fresh) {
        it->second ^= k;
    }
    if (it->second.isZero()) {
        p.erase(it);
    }
}
bool product(T t, std::vector<uint32_t> & m, APInt & k)
{
    if (t->isConst()) {
        k &= t->c;
        return true;
    }
    if (t->op == Op::AND) {
        return product(t->a[0], m, k) && product(t->a[1], m, k);
    }
    if (t->op == Op::OR || t->op == Op::XOR) {
        return false;
    }
    m.push_back(t->id);
    atoms[t->id] = t;
    return true;
}
bool polyOf(T t, Poly & p)
{
    if (t->op == Op::XOR) {
        return polyOf(t->a[0], p) && polyOf(t->a[1], p);
    }
    std::vector<uint32_t> m;
    APInt k = APInt::getAllOnes(t->w);
    if (!product(t, m, k)) {
        return false;
    }
    std::sort(m.begin(), m.end());
    m.erase(std::unique(m.begin(), m.end()), m.end());
    if (!k.isZero()) {
        addTo(p, m, k);
    }
    return true;
}
T polynomial(Op op, T a, T b)
{
    Poly x, y, r;
    if (!polyOf(a, x) || !polyOf(b, y) || x.size() * y.size() > 4096) {
        return nullptr;
    }
    if (op != Op::AND) {
        r = x;
        for (auto & [m, k] : y) {
            addTo(r, m, k);
        }
    }
    if (op != Op::XOR) {
        for (auto & [m, k] : x) {
            for (auto & [n, l] : y) {
                APInt c = k & l;
                if (!c.isZero()) {
                    std::vector<uint32_t> u;
                    std::set_union(m.begin(), m.end(), n.begin(), n.end(), std::back_inserter(u));
                    addTo(r, u, c);
                }
            }
        }
    }
    if (r.size() > 64) {
        return nullptr;
    }
    T sum = nullptr;
    for (auto & [m, k] : r) {
        T t = nullptr;
        for (auto i : m) {
            t = t ? mk(Op::AND, a->w, {t, atoms[i]}) : atoms[i];
        }
        if (!t) {
            t = mkC(k);
        } else if (!k.isAllOnes()) {
            t = mk(Op::AND, a->w, {t, mkC(k)});
        }
        sum = sum ? mk(Op::XOR, a->w, {sum, t}) : t;
    }
    return sum ? sum : mkC(a->w, 0);
}
T bitop(Op op, T a, T b)
{
    unsigned w = a->w;
    if (a->isConst() && b->isConst()) {
        return mkC(op == Op::AND ? a->c & b->c : op == Op::OR ? a->c | b->c : a->c ^ b->c);
    }
    if (a == b) {
        return op == Op::XOR ? mkC(w, 0) : a;
    }
    if (a->isConst()) {
        std::swap(a, b);
    }
    if (b->isConst()) {
        if (b->c.isZero()) {
            return op == Op::AND ? b : a;
        }
        if (b->c.isAllOnes()) {
            if (op == Op::AND) {
                return a;
            }
            if (op == Op::OR) {
                return b;
            }
            // a xor 1..1
            if (a->op == Op::XOR && a->a[1]->isConst() && a->a[1]->c.isAllOnes()) {
                return a->a[0];
            }
            if (a->op == Op::XOR && a->a[0]->isConst() && a->a[0]->c.isAllOnes()) {
                return a->a[1];
            }
        }
    }
    if (opaque && w == 32) {
        // polynomials over GF(2): sums (xor) of products (and) of atoms
        if (T r = polynomial(op, a, b)) {
            return r;
        }
    }
    if (w > 1) {
        std::vector<unsigned> c, d;
        cuts(a, c);
        cuts(b, d);
        if (!c.empty() || !d.empty()) {
            c.insert(c.end(), d.begin(), d.end());
            std::sort(c.begin(), c.end());
            c.erase(std::unique(c.begin(), c.end()), c.end());
            c.push_back(w);
            // worth it only when some slice of either is constant
            bool useful = false;
            unsigned lo = 0;
            for (auto h : c) {
                T x = mkExtract(a, lo, h - lo), y = mkExtract(b, lo, h - lo);
                bool triv = op == Op::XOR ? ((x->isConst() && (x->c.isZero())) || (y->isConst() && (y->c.isZero())))
                                          : (x->isConst() && (x->c.isZero() || x->c.isAllOnes())) ||
                                                (y->isConst() && (y->c.isZero() || y->c.isAllOnes()));
                if (triv || x == y) {
                    useful = true;
                }
                lo = h;
            }
            if (useful) {
                std::vector<T> parts;
                lo = 0;
                for (auto h : c) {
                    T x = mkExtract(a, lo, h - lo), y = mkExtract(b, lo, h - lo);
                    parts.push_back(bitop(op, x, y));
                    lo = h;
                }
                std::reverse(parts.begin(), parts.end());
                return mkConcat(parts);
            }
        }
    } else {
        // complement
        T na = op == Op::XOR ? nullptr : mkXor(a, mkC(1, 1));
        if (op != Op::XOR && na == b) {
            return op == Op::AND ? mkC(1, 0) : mkC(1, 1);
        }
        if (op == Op::AND) { // absorption: a & (a & x)
            if (b->op == Op::AND && (b->a[0] == a || b->a[1] == a)) {
                return b;
            }
            if (a->op == Op::AND && (a->a[0] == b || a->a[1] == b)) {
                return a;
            }
        }
        if (op == Op::XOR && !b->isConst()) {
            // not(x) ^ y = not(x ^ y)
            auto neg = [](T t) {
                return t->op == Op::XOR && (t->a[0]->isConst() || t->a[1]->isConst());
            };
            auto strip = [](T t) { return t->a[0]->isConst() ? t->a[1] : t->a[0]; };
            if (neg(a)) {
                return mkBNot(bitop(Op::XOR, strip(a), b));
            }
            if (neg(b)) {
                return mkBNot(bitop(Op::XOR, a, strip(b)));
            }
        }
    }
    if (a->id > b->id) {
        std::swap(a, b);
    }
    if (op == Op::XOR && b->op == Op::XOR && (b->a[0] == a || b->a[1] == a)) {
        return b->a[0] == a ? b->a[1] : b->a[0];
    }
    if (op == Op::XOR && a->op == Op::XOR && (a->a[0] == b || a->a[1] == b)) {
        return a->a[0] == b ? a->a[1] : a->a[0];
    }
    return mk(op, w, {a, b});
}
} // namespace

T mkAnd(T a, T b)
{
    assert(a->w == b->w);
    return bitop(Op::AND, a, b);
}
T mkOr(T a, T b)
{
    assert(a->w == b->w);
    return bitop(Op::OR, a, b);
}
T mkXor(T a, T b)
{
    assert(a->w == b->w);
    return bitop(Op::XOR, a, b);
}
T mkShl(T a, T b)
{
    unsigned w = a->w;
    if (b->isConst()) {
        if (b->c.uge(w)) {
            return mkC(w, 0);
        }
        unsigned k = unsigned(b->c.getZExtValue());
        if (k == 0) {
            return a;
        }
        if (a->isConst()) {
            return mkC(a->c.shl(k));
        }
        return mkMulC(a, APInt::getOneBitSet(w, k));
    }
    return mk(Op::SHL, w, {a, b});
}
T mkLShr(T a, T b)
{
    unsigned w = a->w;
    if (b->isConst()) {
        if (b->c.uge(w)) {
            return mkC(w, 0);
        }
        unsigned k = unsigned(b->c.getZExtValue());
        if (k == 0) {
            return a;
        }
        return mkConcat({mkC(k, 0), mkExtract(a, k, w - k)});
    }
    if (a->isConst() && a->c.isZero()) {
        return a;
    }
    return mk(Op::LSHR, w, {a, b});
}
T mkAShr(T a, T b)
{
    unsigned w = a->w;
    if (b->isConst()) {
        unsigned k = b->c.uge(w) ? w - 1 : unsigned(b->c.getZExtValue());
        if (k == 0) {
            return a;
        }
        return mkSExt(mkExtract(a, k, w - k), w);
    }
    if (leadingZeros(a) > 0) {
        return mkLShr(a, b);
    }
    return mk(Op::ASHR, w, {a, b});
}
// A tree of constants: at most `n` leaves, through one scaled summand.
static bool constTree(T t, int & n)
{
    if (t->isConst()) {
        return --n >= 0;
    }
    if (t->op == Op::ITE) {
        return constTree(t->a[1], n) && constTree(t->a[2], n);
    }
    return t->op == Op::SUM && t->a.size() == 1 && constTree(t->a[0], n);
}
static T mapTree(T t, const std::function<APInt(const APInt &)> & f)
{
    if (t->isConst()) {
        return mkC(f(t->c));
    }
    if (t->op == Op::ITE) {
        T x = mapTree(t->a[1], f);
        T y = mapTree(t->a[2], f);
        return mkIte(t->a[0], x, y);
    }
    return mapTree(t->a[0], [&](const APInt & v) { return f(t->c + t->k[0] * v); });
}
T mkUDiv(T a, T b)
{
    if (int n = 70; b->isConst() && !b->c.isZero() && !a->isConst() && constTree(a, n)) {
        return mapTree(a, [&](const APInt & v) { return v.udiv(b->c); });
    }
    if (b->isConst() && !b->c.isZero()) {
        if (a->isConst()) {
            return mkC(a->c.udiv(b->c));
        }
        if (b->c.isPowerOf2()) {
            return mkLShr(a, mkC(a->w, b->c.logBase2()));
        }
        if (b->c.isOne()) {
            return a;
        }
        // exact division of a scaled term known not to wrap
        if (a->op == Op::SUM && a->w <= 64 && a->a.size() == 1 && a->c.isZero() && a->k[0] == b->c &&
            a->a[0]->hi <= maxOf(a->w) / b->c.getZExtValue()) {
            return a->a[0];
        }
    }
    return mk(Op::UDIV, a->w, {a, b});
}
T mkSDiv(T a, T b)
{
    if (a->isConst() && b->isConst() && !b->c.isZero()) {
        return mkC(a->c.sdiv(b->c));
    }
    if (leadingZeros(a) > 0 && leadingZeros(b) > 0) {
        return mkUDiv(a, b);
    }
    return mk(Op::SDIV, a->w, {a, b});
}
T mkURem(T a, T b)
{
    if (b->isConst() && !b->c.isZero()) {
        if (a->isConst()) {
            return mkC(a->c.urem(b->c));
        }
        if (b->c.isPowerOf2()) {
            return mkAnd(a, mkC(b->c - 1));
        }
        if (a->w <= 64 && a->hi < b->c.getZExtValue()) {
            return a;
        }
    }
    return mk(Op::UREM, a->w, {a, b});
}
T mkSRem(T a, T b)
{
    if (a->isConst() && b->isConst() && !b->c.isZero()) {
        return mkC(a->c.srem(b->c));
    }
    if (leadingZeros(a) > 0 && leadingZeros(b) > 0) {
        return mkURem(a, b);
    }
    return mk(Op::SREM, a->w, {a, b});
}
T mkIte(T c, T a, T b)
{
    assert(c->w == 1 && a->w == b->w);
    if (c->isConst()) {
        return c->c.isOne() ? a : b;
    }
    if (a == b) {
        return a;
    }
    if (c->op == Op::XOR && (c->a[1]->isConst() || c->a[0]->isConst())) {
        return mkIte(c->a[1]->isConst() ? c->a[0] : c->a[1], b, a);
    }
    if (a->w == 1) {
        if (a->isTrue() && b->isFalse()) {
            return c;
        }
        if (a->isFalse() && b->isTrue()) {
            return mkBNot(c);
        }
        if (a->isTrue()) {
            return mkOr(c, b);
        }
        if (a->isFalse()) {
            return mkAnd(mkBNot(c), b);
        }
        if (b->isTrue()) {
            return mkOr(mkBNot(c), a);
        }
        if (b->isFalse()) {
            return mkAnd(c, a);
        }
    }
    if (a->op == Op::ITE && a->a[0] == c) {
        return mkIte(c, a->a[1], b);
    }
    if (b->op == Op::ITE && b->a[0] == c) {
        return mkIte(c, a, b->a[2]);
    }
    // same leading / trailing parts of concatenations
    if (a->op == Op::CONCAT && b->op == Op::CONCAT && a->a[0]->w == b->a[0]->w && a->a[0] == b->a[0]) {
        unsigned r = a->w - a->a[0]->w;
        return mkConcat({a->a[0], mkIte(c, mkExtract(a, 0, r), mkExtract(b, 0, r))});
    }
    if (a->op == Op::CONCAT && b->op == Op::CONCAT) {
        if (a->a.back() == b->a.back()) {
            unsigned r = a->a.back()->w;
            return mkConcat({mkIte(c, mkExtract(a, r, a->w - r), mkExtract(b, r, a->w - r)), a->a.back()});
        }
        T x = a->a[0], y = b->a[0];
        if (x->isConst() && y->isConst()) {
            unsigned w = std::min(x->w, y->w), n = 0;
            while (n < w && x->c[x->w - 1 - n] == y->c[y->w - 1 - n]) {
                ++n;
            }
            if (n) {
                return mkConcat({mkC(x->c.extractBits(n, x->w - n)), mkIte(c, mkExtract(a, 0, a->w - n), mkExtract(b, 0, a->w - n))});
            }
        }
        if (x->w == y->w) { // one differing part and common ones behind it
            unsigned r = a->w - x->w;
            if (mkExtract(a, 0, r) == mkExtract(b, 0, r)) {
                return mkConcat({mkIte(c, x, y), mkExtract(a, 0, r)});
            }
        }
    }
    return mk(Op::ITE, a->w, {c, a, b});
}
T mkEq(T a, T b)
{
    assert(a->w == b->w);
    if (a == b) {
        return mkC(1, 1);
    }
    if (a->isConst()) {
        std::swap(a, b);
    }
    if (a->isConst()) {
        return mkC(1, a->c == b->c);
    }
    if (a->w == 1) {
        return mkBNot(mkXor(a, b));
    }
    if (a->w <= 64 && (a->hi < b->lo || b->hi < a->lo)) {
        return mkC(1, 0);
    }
    if (a->op == Op::ITE && b->isConst()) {
        if (a->a[1]->isConst() || a->a[2]->isConst()) {
            return mkIte(a->a[0], mkEq(a->a[1], b), mkEq(a->a[2], b));
        }
    }
    if (a->op == Op::CONCAT || b->op == Op::CONCAT) {
        T x = a->op == Op::CONCAT ? a : b;
        T y = a->op == Op::CONCAT ? b : a;
        if (y->isConst() || y->op == Op::CONCAT) {
            if (y->isConst()) {
                // slices with a constant are compared away; neighbouring
                // unknown slices stay one number
                T r = mkC(1, 1);
                unsigned hi = x->w;
                std::vector<T> run;
                auto flush = [&](unsigned lo) {
                    if (run.empty()) {
                        return;
                    }
                    T g = run.size() == 1 ? run[0] : mkConcat(run);
                    T v = mkC(y->c.extractBits(g->w, lo));
                    if (g->op == Op::CONCAT) {
                        bool plain = g->w <= 64;
                        for (auto p : g->a) {
                            plain = plain && !p->isConst() && p->op != Op::ITE;
                        }
                        if (plain) {
                            bool swap = g->id > v->id;
                            r = mkAnd(r, mk(Op::EQ, 1, {swap ? v : g, swap ? g : v}));
                            run.clear();
                            return;
                        }
                        unsigned h = g->w;
                        for (auto p : g->a) {
                            h -= p->w;
                            r = mkAnd(r, mkEq(p, mkC(v->c.extractBits(p->w, h))));
                        }
                    } else {
                        r = mkAnd(r, mkEq(g, v));
                    }
                    run.clear();
                };
                for (auto p : x->a) {
                    if (p->isConst()) {
                        flush(hi);
                        if (p->c != y->c.extractBits(p->w, hi - p->w)) {
                            return mkC(1, 0);
                        }
                    } else {
                        run.push_back(p);
                    }
                    hi -= p->w;
                }
                flush(0);
                return r;
            }
            // compare slice-wise along the common refinement
            std::vector<unsigned> c, d;
            auto cc = [](T t, std::vector<unsigned> & c) {
                if (t->op == Op::CONCAT) {
                    unsigned top = t->w;
                    for (auto p : t->a) {
                        top -= p->w;
                        if (top) {
                            c.push_back(top);
                        }
                    }
                }
            };
            cc(x, c);
            cc(y, d);
            bool same = y->isConst() || c == d;
            if (!same && c.size() + d.size() < 24) {
                same = true;
            }
            if (same) {
                c.insert(c.end(), d.begin(), d.end());
                std::sort(c.begin(), c.end());
                c.erase(std::unique(c.begin(), c.end()), c.end());
                c.push_back(x->w);
                T r = mkC(1, 1);
                unsigned lo = 0;
                for (auto h : c) {
                    r = mkAnd(r, mkEq(mkExtract(x, lo, h - lo), mkExtract(y, lo, h - lo)));
                    if (r->isFalse()) {
                        return r;
                    }
                    lo = h;
                }
                return r;
            }
        }
    }
    if (a->op == Op::SEXT && b->isConst()) {
        T x = a->a[0];
        APInt lowc = b->c.trunc(x->w);
        if (lowc.sext(a->w) != b->c) {
            return mkC(1, 0);
        }
        return mkEq(x, mkC(lowc));
    }
    if (a->op == Op::SUM || b->op == Op::SUM) {
        T d = mkSub(a, b);
        if (d->isConst()) {
            return mkC(1, d->c.isZero());
        }
        if (d->op != Op::SUM) {
            return mkEq(d, mkC(d->w, 0));
        }
        if (d->w <= 64 && d->lo > 0) {
            return mkC(1, 0);
        }
        // canonical: atoms == constant with first coefficient "positive"
        if (d->a.size() == 1) {
            // k*x == c
            if (d->k[0].isOne()) {
                return mkEq(d->a[0], mkC(-d->c));
            }
            if (d->k[0].isAllOnes()) {
                return mkEq(d->a[0], mkC(d->c));
            }
            T x;
            unsigned k;
            if (d->c.isZero() && shlView(d, x, k)) {
                return mkEq(mkExtract(x, 0, d->w - k), mkC(d->w - k, 0));
            }
            if (d->k[0][0]) { // odd: invertible; leave
            }
        }
        if (d->a.size() == 2 && d->c.isZero()) {
            if (d->k[0].isOne() && d->k[1].isAllOnes()) {
                a = d->a[0];
                b = d->a[1];
                if (a->op != Op::SUM && b->op != Op::SUM && (a->op == Op::CONCAT || b->op == Op::CONCAT) &&
                    !(a->op == Op::CONCAT && b->op == Op::CONCAT)) {
                    // fallthrough to generic
                }
            } else if (d->k[1].isOne() && d->k[0].isAllOnes()) {
                a = d->a[1];
                b = d->a[0];
            }
        }
    }
    if (a->op == Op::CONCAT && leadingZeros(a) && b->w == a->w && leadingZeros(b) >= 1 && a->w <= 64) {
        unsigned z = std::min(leadingZeros(a), leadingZeros(b));
        if (z && z < a->w) {
            T x = mkExtract(a, 0, a->w - z), y = mkExtract(b, 0, a->w - z);
            if (x->w < a->w && !(x->op == Op::EXTRACT || y->op == Op::EXTRACT)) {
                return mkEq(x, y);
            }
        }
    }
    if (a->id > b->id) {
        std::swap(a, b);
    }
    return mk(Op::EQ, 1, {a, b});
}
T mkUlt(T a, T b)
{
    assert(a->w == b->w);
    if (a == b) {
        return mkC(1, 0);
    }
    if (a->isConst() && b->isConst()) {
        return mkC(1, a->c.ult(b->c));
    }
    if (b->isConst() && b->c.isZero()) {
        return mkC(1, 0);
    }
    if (a->isConst() && a->c.isAllOnes()) {
        return mkC(1, 0);
    }
    if (a->w <= 64) {
        if (a->hi < b->lo) {
            return mkC(1, 1);
        }
        if (a->lo >= b->hi) {
            return mkC(1, 0);
        }
    }
    if (b->isConst() && b->c.isOne()) {
        return mkEq(a, mkC(a->w, 0));
    }
    if (a->isConst() && a->c.isZero()) {
        return mkNe(b, a);
    }
    if (b->isConst() && b->c.isAllOnes()) {
        return mkNe(a, b);
    }
    if (a->w == 1) {
        return mkAnd(mkBNot(a), b);
    }
    if (a->op == Op::ITE && b->isConst() && (a->a[1]->isConst() && a->a[2]->isConst())) {
        return mkIte(a->a[0], mkUlt(a->a[1], b), mkUlt(a->a[2], b));
    }
    if (b->op == Op::ITE && a->isConst() && (b->a[1]->isConst() && b->a[2]->isConst())) {
        return mkIte(b->a[0], mkUlt(a, b->a[1]), mkUlt(a, b->a[2]));
    }
    if ((a->op == Op::CONCAT || a->isConst()) && (b->op == Op::CONCAT || b->isConst())) {
        unsigned z = std::min(leadingZeros(a), leadingZeros(b));
        if (z && z < a->w) {
            T x = mkExtract(a, 0, a->w - z), y = mkExtract(b, 0, a->w - z);
            return mkUlt(x, y);
        }
    }
    return mk(Op::ULT, 1, {a, b});
}
T mkSlt(T a, T b)
{
    assert(a->w == b->w);
    if (a == b) {
        return mkC(1, 0);
    }
    if (a->isConst() && b->isConst()) {
        return mkC(1, a->c.slt(b->c));
    }
    if (b->isConst() && b->c.isZero()) {
        return mkExtract(a, a->w - 1, 1);
    }
    if (a->isConst() && a->c.isAllOnes()) {
        return mkBNot(mkExtract(b, b->w - 1, 1));
    }
    if (leadingZeros(a) > 0 && leadingZeros(b) > 0) {
        return mkUlt(a, b);
    }
    if (a->op == Op::SEXT && b->isConst() && b->c.getSignificantBits() <= a->a[0]->w) {
        return mkSlt(a->a[0], mkC(b->c.trunc(a->a[0]->w)));
    }
    if (b->op == Op::SEXT && a->isConst() && a->c.getSignificantBits() <= b->a[0]->w) {
        return mkSlt(mkC(a->c.trunc(b->a[0]->w)), b->a[0]);
    }
    return mk(Op::SLT, 1, {a, b});
}
T mkBSwap(T a)
{
    std::vector<T> p;
    for (unsigned i = 0; i < a->w; i += 8) {
        p.push_back(mkExtract(a, i, 8));
    }
    return mkConcat(p);
}

T substitute(T t, const std::unordered_map<T, T> & m, std::unordered_map<T, T> & memo)
{
    auto f = m.find(t);
    if (f != m.end()) {
        return f->second;
    }
    if (t->a.empty()) {
        return t;
    }
    auto g = memo.find(t);
    if (g != memo.end()) {
        return g->second;
    }
    std::vector<T> n;
    bool ch = false;
    for (auto x : t->a) {
        n.push_back(substitute(x, m, memo));
        ch |= n.back() != x;
    }
    T r = t;
    if (ch) {
        switch (t->op) {
        case Op::UF: r = mkUF(int(t->aux), n); break;
        case Op::SUM: {
            r = mkC(t->c);
            for (size_t i = 0; i < n.size(); ++i) {
                r = mkAdd(r, mkMulC(n[i], t->k[i]));
            }
            break;
        }
        case Op::MUL: r = mkMul(n[0], n[1]); break;
        case Op::UDIV: r = mkUDiv(n[0], n[1]); break;
        case Op::SDIV: r = mkSDiv(n[0], n[1]); break;
        case Op::UREM: r = mkURem(n[0], n[1]); break;
        case Op::SREM: r = mkSRem(n[0], n[1]); break;
        case Op::AND: r = mkAnd(n[0], n[1]); break;
        case Op::OR: r = mkOr(n[0], n[1]); break;
        case Op::XOR: r = mkXor(n[0], n[1]); break;
        case Op::SHL: r = mkShl(n[0], n[1]); break;
        case Op::LSHR: r = mkLShr(n[0], n[1]); break;
        case Op::ASHR: r = mkAShr(n[0], n[1]); break;
        case Op::CONCAT: r = mkConcat(n); break;
        case Op::EXTRACT: r = mkExtract(n[0], t->aux, t->w); break;
        case Op::SEXT: r = mkSExt(n[0], t->w); break;
        case Op::ITE: r = mkIte(n[0], n[1], n[2]); break;
        case Op::EQ: r = mkEq(n[0], n[1]); break;
        case Op::ULT: r = mkUlt(n[0], n[1]); break;
        case Op::SLT: r = mkSlt(n[0], n[1]); break;
        default: break;
        }
    }
    memo[t] = r;
    return r;
}

std::string str(T t, int depth)
{
    std::ostringstream o;
    auto ap = [](const APInt & v) {
        llvm::SmallString<40> s;
        if (v.getBitWidth() <= 64 && v.getBitWidth() > 1 && v.isNegative() && (-v).ult(65536)) {
            (-v).toStringUnsigned(s, 10);
            return "-" + std::string(s.str());
        }
        v.toString(s, v.getActiveBits() > 16 ? 16 : 10, false, v.getActiveBits() > 16);
        return std::string(s.str());
    };
    if (t->op == Op::CONST) {
        return ap(t->c);
    }
    if (t->op == Op::VAR) {
        return vars[t->aux].name;
    }
    if (depth <= 0) {
        return "#" + std::to_string(t->id);
    }
    static const char * names[] = {"const", "var", "uf", "+", "*", "udiv", "sdiv", "urem", "srem", "&", "|", "^",
                                   "<<", ">>", "a>>", "concat", "ext", "sext", "ite", "=", "ult", "slt"};
    if (t->op == Op::SUM) {
        o << "(";
        for (size_t i = 0; i < t->a.size(); ++i) {
            if (i) {
                o << " + ";
            }
            if (!t->k[i].isOne()) {
                o << ap(t->k[i]) << "*";
            }
            o << str(t->a[i], depth - 1);
        }
        if (!t->c.isZero()) {
            o << " + " << ap(t->c);
        }
        o << ")";
        return o.str();
    }
    if (t->op == Op::EXTRACT) {
        o << str(t->a[0], depth - 1) << "[" << t->aux + t->w - 1 << ":" << t->aux << "]";
        return o.str();
    }
    o << "(" << (t->op == Op::UF ? ufs[t->aux].name : std::string(names[int(t->op)]));
    for (auto x : t->a) {
        o << " " << str(x, depth - 1);
    }
    o << ")";
    return o.str();
}

APInt eval(T t, const Model & m, std::unordered_map<T, APInt> & memo)
{
    if (t->op == Op::CONST) {
        return t->c;
    }
    auto it = memo.find(t);
    if (it != memo.end()) {
        return it->second;
    }
    APInt r(t->w, 0);
    if (t->op == Op::ITE) {
        r = eval(t->a[0], m, memo).isOne() ? eval(t->a[1], m, memo) : eval(t->a[2], m, memo);
        memo.emplace(t, r);
        return r;
    }
    std::vector<APInt> x;
    for (auto y : t->a) {
        x.push_back(eval(y, m, memo));
    }
    switch (t->op) {
    case Op::VAR: {
        auto f = m.v.find(t->aux);
        if (f != m.v.end()) {
            r = f->second;
        } else {
            r = APInt(t->w, t->w <= 64 ? t->lo : 0);
        }
        break;
    }
    case Op::UF: {
        std::vector<uint64_t> k;
        for (auto & v : x) {
            k.push_back(v.getZExtValue());
        }
        if (ufs[t->aux].sem) {
            r = meaning(ufs[t->aux].sem, x[0], x.size() > 1 ? &x[1] : nullptr);
            break;
        }
        auto f = m.f.find(t->aux);
        bool found = false;
        if (f != m.f.end()) {
            auto g = f->second.find(k);
            if (g != f->second.end()) {
                r = g->second;
                found = true;
            }
        }
        if (!found) {
            auto e = m.felse.find(t->aux);
            if (e != m.felse.end()) {
                r = e->second;
            }
        }
        break;
    }
    case Op::SUM:
        r = t->c;
        for (size_t i = 0; i < x.size(); ++i) {
            r += x[i] * t->k[i];
        }
        break;
    case Op::MUL: r = x[0] * x[1]; break;
    case Op::UDIV: r = x[1].isZero() ? APInt::getAllOnes(t->w) : x[0].udiv(x[1]); break;
    case Op::SDIV:
        r = x[1].isZero() ? (x[0].isNegative() ? APInt(t->w, 1) : APInt::getAllOnes(t->w)) : x[0].sdiv(x[1]);
        break;
    case Op::UREM: r = x[1].isZero() ? x[0] : x[0].urem(x[1]); break;
    case Op::SREM: r = x[1].isZero() ? x[0] : x[0].srem(x[1]); break;
    case Op::AND: r = x[0] & x[1]; break;
    case Op::OR: r = x[0] | x[1]; break;
    case Op::XOR: r = x[0] ^ x[1]; break;
    case Op::SHL: r = x[1].uge(t->w) ? APInt(t->w, 0) : x[0].shl(x[1]); break;
    case Op::LSHR: r = x[1].uge(t->w) ? APInt(t->w, 0) : x[0].lshr(x[1]); break;
    case Op::ASHR: r = x[1].uge(t->w) ? x[0].ashr(t->w - 1) : x[0].ashr(x[1]); break;
    case Op::CONCAT:
        r = x[0];
        for (size_t i = 1; i < x.size(); ++i) {
            r = r.concat(x[i]);
        }
        break;
    case Op::EXTRACT: r = x[0].extractBits(t->w, t->aux); break;
    case Op::SEXT: r = x[0].sext(t->w); break;
    case Op::EQ: r = APInt(1, x[0] == x[1]); break;
    case Op::ULT: r = APInt(1, x[0].ult(x[1])); break;
    case Op::SLT: r = APInt(1, x[0].slt(x[1])); break;
    default: break;
    }
    memo.emplace(t, r);
    return r;
}

void collectVars(T t, std::unordered_set<T> & seen, std::vector<T> & out)
{
    if (!seen.insert(t).second) {
        return;
    }
    if (t->op == Op::VAR || t->op == Op::UF) {
        out.push_back(t);
    }
    for (auto x : t->a) {
        collectVars(x, seen, out);
    }
}
} // namespace irv
