#include "expr.h"
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <algorithm>

int gNumExpr = 0;

// ---- arena and hash table ----
static std::vector<Expr *> table(1 << 16, nullptr);
static size_t tableCnt = 0;
static Expr *arena = nullptr;
static size_t arenaLeft = 0;

static Expr *allocExpr() {
    if (!arenaLeft) {
        arenaLeft = 4096;
        arena = (Expr *)malloc(sizeof(Expr) * arenaLeft);
    }
    arenaLeft--;
    return arena++;
}

// ---- variable supports ----
static Sup *emptySup() {
    static Sup *s = new Sup{{}, 0};
    return s;
}
static std::map<std::vector<int>, Sup *> supTab;
static int supIds = 1;
static Sup *internSup(const std::vector<int> &v) {
    if (v.empty()) return emptySup();
    auto it = supTab.find(v);
    if (it != supTab.end()) return it->second;
    Sup *s = new Sup{v, supIds++};
    supTab[v] = s;
    return s;
}
static std::unordered_map<u64, Sup *> supUn;
Sup *supUnion(Sup *a, Sup *b) {
    if (a == b || b->v.empty()) return a;
    if (a->v.empty()) return b;
    if (a->id > b->id) std::swap(a, b);
    u64 key = ((u64)a->id << 32) | (uint32_t)b->id;
    auto it = supUn.find(key);
    if (it != supUn.end()) return it->second;
    std::vector<int> r;
    std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
    Sup *s = internSup(r);
    supUn[key] = s;
    return s;
}

static uint32_t hashOf(Op op, unsigned w, unsigned off, Expr *a, Expr *b, Expr *c, u128 cv) {
    u64 h = op * 0x9E3779B97F4A7C15ull + w * 0x85EBCA6Bu + off * 0xC2B2AE35u;
    h ^= (u64)cv * 0xff51afd7ed558ccdull + (u64)(cv >> 64) * 0xc4ceb9fe1a85ec53ull;
    if (a) h = (h ^ a->id) * 0x9FB21C651E98DF25ull;
    if (b) h = (h ^ (b->id + 0x1234567)) * 0x9FB21C651E98DF25ull;
    if (c) h = (h ^ (c->id + 0x89abcdef)) * 0x9FB21C651E98DF25ull;
    return (uint32_t)(h ^ (h >> 32));
}

static void grow() {
    std::vector<Expr *> n(table.size() * 2, nullptr);
    size_t m = n.size() - 1;
    for (Expr *e : table)
        if (e) {
            size_t i = e->hash & m;
            while (n[i]) i = (i + 1) & m;
            n[i] = e;
        }
    table.swap(n);
}

static void computeRange(Expr *e) {
    u64 mx = e->w >= 64 ? ~0ull : (u64)maskw(e->w);
    e->lo = 0;
    e->hi = mx;
    if (e->w > 64) return;
    switch (e->op) {
    case X_CONST: e->lo = e->hi = (u64)e->c; break;
    case X_CONCAT: {
        unsigned lw = e->k[1]->w;
        if (lw < 64) {
            e->lo = (e->k[0]->lo << lw) | e->k[1]->lo;
            e->hi = (e->k[0]->hi << lw) | e->k[1]->hi;
        }
        break;
    }
    case X_EXTRACT:
        if (e->k[0]->w <= 64) {
            if (e->off == 0) {
                if (e->k[0]->hi <= mx) { e->lo = e->k[0]->lo; e->hi = e->k[0]->hi; }
            } else {
                u64 h = e->k[0]->hi >> e->off;
                if (h <= mx) { e->hi = h; e->lo = e->k[0]->lo >> e->off; }
            }
        }
        break;
    case X_ADD: {
        u128 h = (u128)e->k[0]->hi + e->k[1]->hi;
        if (h <= mx) { e->lo = e->k[0]->lo + e->k[1]->lo; e->hi = (u64)h; }
        else {
            // x + c where every sum wraps
            u128 l = (u128)e->k[0]->lo + e->k[1]->lo;
            u128 m = (u128)mx + 1;
            if (l >= m && h >= m) { e->lo = (u64)(l - m); e->hi = (u64)(h - m); }
        }
        break;
    }
    case X_SUB:
        if (e->k[0]->lo >= e->k[1]->hi) { e->lo = e->k[0]->lo - e->k[1]->hi; e->hi = e->k[0]->hi - e->k[1]->lo; }
        break;
    case X_MUL: {
        u128 h = (u128)e->k[0]->hi * e->k[1]->hi;
        if (h <= mx) { e->lo = e->k[0]->lo * e->k[1]->lo; e->hi = (u64)h; }
        break;
    }
    case X_UDIV:
        if (e->k[1]->lo > 0) { e->hi = e->k[0]->hi / e->k[1]->lo; e->lo = e->k[0]->lo / e->k[1]->hi; }
        break;
    case X_UREM:
        if (e->k[1]->lo > 0) { e->hi = std::min(e->k[0]->hi, e->k[1]->hi - 1); }
        break;
    case X_AND: e->hi = std::min(e->k[0]->hi, e->k[1]->hi); break;
    case X_OR: {
        e->lo = std::max(e->k[0]->lo, e->k[1]->lo);
        u64 h = e->k[0]->hi | e->k[1]->hi;
        if (h) { int b = 64 - __builtin_clzll(h); h = b >= 64 ? ~0ull : (1ull << b) - 1; }
        e->hi = std::min(mx, h);
        break;
    }
    case X_XOR: {
        u64 h = e->k[0]->hi | e->k[1]->hi;
        if (h) { int b = 64 - __builtin_clzll(h); h = b >= 64 ? ~0ull : (1ull << b) - 1; }
        e->hi = std::min(mx, h);
        break;
    }
    case X_LSHR: e->hi = e->k[0]->hi; break;
    case X_ITE:
        e->lo = std::min(e->k[1]->lo, e->k[2]->lo);
        e->hi = std::max(e->k[1]->hi, e->k[2]->hi);
        break;
    default: break;
    }
}

static Expr *mk(Op op, unsigned w, Expr *a = nullptr, Expr *b = nullptr, Expr *c = nullptr, unsigned off = 0, u128 cv = 0) {
    uint32_t h = hashOf(op, w, off, a, b, c, cv);
    size_t m = table.size() - 1, i = h & m;
    while (Expr *e = table[i]) {
        if (e->hash == h && e->op == op && e->w == w && e->off == off && e->k[0] == a && e->k[1] == b && e->k[2] == c && e->c == cv)
            return e;
        i = (i + 1) & m;
    }
    Expr *e = allocExpr();
    e->op = op;
    e->w = w;
    e->off = off;
    e->id = gNumExpr++;
    e->hash = h;
    e->k[0] = a; e->k[1] = b; e->k[2] = c;
    e->c = cv;
    e->stamp = 0;
    e->val = 0;
    e->z3 = nullptr;
    e->z3gen = 0;
    e->lit = -1;
    e->litgen = 0;
    e->tt = nullptr;
    e->cleaf = 0;
    if (op == X_CONST) { e->sup = emptySup(); e->cleaf = 1; }
    else if (op == X_VAR) e->sup = internSup({(int)off});
    else {
        e->sup = a->sup;
        if (b) e->sup = supUnion(e->sup, b->sup);
        if (c) e->sup = supUnion(e->sup, c->sup);
        if (op == X_ITE && b->cleaf && c->cleaf) e->cleaf = 1;
    }
    computeRange(e);
    table[i] = e;
    if (++tableCnt * 2 > table.size()) grow();
    return e;
}

Expr *mkConst(u128 v, unsigned w) { return mk(X_CONST, w, nullptr, nullptr, nullptr, 0, v & maskw(w)); }
Expr *mkVar(int idx) { return mk(X_VAR, 8, nullptr, nullptr, nullptr, idx); }

static i128 sx(u128 v, unsigned w) {
    if (w < 128 && ((v >> (w - 1)) & 1)) v |= ~maskw(w);
    return (i128)v;
}

unsigned trailingZeros(Expr *e) {
    if (e->isC()) {
        if (!e->c) return e->w;
        unsigned n = 0;
        while (!((e->c >> n) & 1)) n++;
        return n;
    }
    switch (e->op) {
    case X_CONCAT: {
        unsigned t = trailingZeros(e->k[1]);
        return t == e->k[1]->w ? t + trailingZeros(e->k[0]) : t;
    }
    case X_ADD: case X_SUB: return std::min(trailingZeros(e->k[0]), trailingZeros(e->k[1]));
    case X_MUL: return std::min((unsigned)e->w, trailingZeros(e->k[0]) + trailingZeros(e->k[1]));
    default: return 0;
    }
}

Expr *mkConcat(Expr *a, Expr *b) {
    unsigned w = a->w + b->w;
    if (w > 128) { fprintf(stderr, "gsym: concat wider than 128\n"); exit(3); }
    if (a->isC() && b->isC()) return mkConst((a->c << b->w) | b->c, w);
    if (a->op == X_CONCAT) return mkConcat(a->k[0], mkConcat(a->k[1], b));
    Expr *head = b->op == X_CONCAT ? b->k[0] : b;
    Expr *rest = b->op == X_CONCAT ? b->k[1] : nullptr;
    Expr *m = nullptr;
    if (a->isC() && !a->c && b->op == X_EXTRACT && b->off == 0 && b->k[0]->w == w && w <= 64 && b->k[0]->hi < (1ull << b->w))
        return b->k[0];
    if (a->isC() && !a->c && w <= 64 && b->op == X_MUL && (u128)b->k[0]->hi * b->k[1]->hi < ((u128)1 << b->w))
        return mkMul(mkZExt(b->k[0], w), mkZExt(b->k[1], w));
    if (a->isC() && head->isC()) m = mkConst((a->c << head->w) | head->c, a->w + head->w);
    else if (a->op == X_EXTRACT && head->op == X_EXTRACT && a->k[0] == head->k[0] && a->off == head->off + head->w)
        m = mkExtract(a->k[0], head->off, a->w + head->w);
    else if (a->op == X_ITE && head->op == X_ITE && a->k[0] == head->k[0] && a->cleaf && head->cleaf)
        m = mkIte(a->k[0], mkConcat(a->k[1], head->k[1]), mkConcat(a->k[2], head->k[2]));
    if (m) {
        if (!rest) return m;
        return mkConcat(m, rest);
    }
    return mk(X_CONCAT, w, a, b);
}

static std::unordered_map<u64, Expr *> extractMemo;

Expr *mkExtract(Expr *e, unsigned off, unsigned w) {
    if (off == 0 && w == e->w) return e;
    if (e->isC()) return mkConst(e->c >> off, w);
    switch (e->op) {
    case X_EXTRACT: return mkExtract(e->k[0], e->off + off, w);
    case X_CONCAT: {
        unsigned lw = e->k[1]->w;
        if (off >= lw) return mkExtract(e->k[0], off - lw, w);
        if (off + w <= lw) return mkExtract(e->k[1], off, w);
        return mkConcat(mkExtract(e->k[0], 0, off + w - lw), mkExtract(e->k[1], off, lw - off));
    }
    case X_SEXT:
        if (off + w <= e->k[0]->w) return mkExtract(e->k[0], off, w);
        if (off == 0) return mkSExt(e->k[0], w);
        break;
    case X_AND: return mkAnd(mkExtract(e->k[0], off, w), mkExtract(e->k[1], off, w));
    case X_OR: return mkOr(mkExtract(e->k[0], off, w), mkExtract(e->k[1], off, w));
    case X_XOR: return mkXor(mkExtract(e->k[0], off, w), mkExtract(e->k[1], off, w));
    case X_ADD: if (off == 0) return mkAdd(mkExtract(e->k[0], 0, w), mkExtract(e->k[1], 0, w)); break;
    case X_SUB: if (off == 0) return mkSub(mkExtract(e->k[0], 0, w), mkExtract(e->k[1], 0, w)); break;
    case X_MUL: if (off == 0) return mkMul(mkExtract(e->k[0], 0, w), mkExtract(e->k[1], 0, w)); break;
    case X_ITE:
        if (e->cleaf || e->k[1]->isC() || e->k[2]->isC()) {
            u64 key = ((u64)e->id << 16) | (off << 8) | w;
            auto it = extractMemo.find(key);
            if (it != extractMemo.end()) return it->second;
            Expr *r = mkIte(e->k[0], mkExtract(e->k[1], off, w), mkExtract(e->k[2], off, w));
            extractMemo[key] = r;
            return r;
        }
        break;
    default: break;
    }
    // high part known zero
    if (e->w <= 64 && off < 64 && (e->hi >> off) == 0) return mkConst(0, w);
    return mk(X_EXTRACT, w, e, nullptr, nullptr, off);
}

Expr *mkZExt(Expr *e, unsigned w) {
    if (w == e->w) return e;
    return mkConcat(mkConst(0, w - e->w), e);
}
Expr *mkSExt(Expr *e, unsigned w) {
    if (w == e->w) return e;
    if (e->isC()) return mkConst((u128)sx(e->c, e->w), w);
    if (e->w <= 64 && e->hi < (1ull << (e->w - 1))) return mkZExt(e, w);
    if (e->op == X_SEXT) return mkSExt(e->k[0], w);
    if (e->w == 1) return mkIte(e, mkConst(~(u128)0, w), mkConst(0, w));
    return mk(X_SEXT, w, e);
}

// Apply a binary op to the leaves of a constant-leaf ITE against a constant.
template <class F> static Expr *mapLeaves(Expr *e, F f, int budget = 64) {
    if (e->isC()) return f(e);
    return mkIte(e->k[0], mapLeaves(e->k[1], f, budget), mapLeaves(e->k[2], f, budget));
}
static int leafCount(Expr *e, int cap) {
    if (e->op != X_ITE) return 1;
    if (cap <= 0) return 1000000;
    int a = leafCount(e->k[1], cap - 1);
    if (a > cap) return a;
    return a + leafCount(e->k[2], cap - a);
}
static bool smallTree(Expr *e) { return e->op == X_ITE && e->cleaf && leafCount(e, 600) <= 600; }

Expr *mkAdd(Expr *a, Expr *b) {
    if (a->isC()) std::swap(a, b);
    unsigned w = a->w;
    if (a->isC()) return mkConst(a->c + b->c, w);
    if (w == 1) return mkXor(a, b);
    if (b->isC()) {
        if (!b->c) return a;
        if (a->op == X_ADD && a->k[1]->isC()) return mkAdd(a->k[0], mkConst(a->k[1]->c + b->c, w));
        if (smallTree(a)) return mapLeaves(a, [&](Expr *l) { return mkConst(l->c + b->c, w); });
    }
    // (x - y) + y
    if (a->op == X_SUB && a->k[1] == b) return a->k[0];
    if (b->op == X_SUB && b->k[1] == a) return b->k[0];
    // keep constants outermost
    if (a->op == X_ADD && a->k[1]->isC()) return mkAdd(mkAdd(a->k[0], b), a->k[1]);
    if (b->op == X_ADD && b->k[1]->isC()) return mkAdd(mkAdd(a, b->k[0]), b->k[1]);
    // disjoint bits
    if (w <= 64) {
        unsigned ta = trailingZeros(a), tb = trailingZeros(b);
        if (ta && ta < 64 && b->hi < (1ull << ta)) return mkOr(a, b);
        if (tb && tb < 64 && a->hi < (1ull << tb)) return mkOr(a, b);
    }
    if (!b->isC() && a->id > b->id) std::swap(a, b);
    return mk(X_ADD, w, a, b);
}
Expr *mkSub(Expr *a, Expr *b) {
    unsigned w = a->w;
    if (a == b) return mkConst(0, w);
    if (w == 1) return mkXor(a, b);
    if (b->isC()) return mkAdd(a, mkConst((~b->c) + 1, w));
    if (a->op == X_ADD) {
        if (a->k[0] == b) return a->k[1];
        if (a->k[1] == b) return a->k[0];
        if (a->k[1]->isC()) return mkAdd(mkSub(a->k[0], b), a->k[1]);
    }
    if (b->op == X_ADD && b->k[1]->isC()) return mkAdd(mkSub(a, b->k[0]), mkConst((~b->k[1]->c) + 1, w));
    if (a->isC() && smallTree(b)) return mapLeaves(b, [&](Expr *l) { return mkConst(a->c - l->c, w); });
    return mk(X_SUB, w, a, b);
}
Expr *mkMul(Expr *a, Expr *b) {
    if (a->isC()) std::swap(a, b);
    unsigned w = a->w;
    if (a->isC()) return mkConst(a->c * b->c, w);
    if (w == 1) return mkAnd(a, b);
    if (b->isC()) {
        if (!b->c) return b;
        if (b->c == 1) return a;
        if (!(b->c & (b->c - 1))) {
            unsigned n = 0;
            while (!((b->c >> n) & 1)) n++;
            return mkShl(a, mkConst(n, w));
        }
        if (smallTree(a)) return mapLeaves(a, [&](Expr *l) { return mkConst(l->c * b->c, w); });
    } else if (a->id > b->id) std::swap(a, b);
    return mk(X_MUL, w, a, b);
}
static bool isPow2(u128 c, unsigned &n) {
    if (!c || (c & (c - 1))) return false;
    n = 0;
    while (!((c >> n) & 1)) n++;
    return true;
}
Expr *mkUDiv(Expr *a, Expr *b) {
    unsigned w = a->w, n;
    if (b->isC() && b->c) {
        if (a->isC()) return mkConst(a->c / b->c, w);
        if (isPow2(b->c, n)) return mkLShr(a, mkConst(n, w));
        if (w <= 64 && a->hi < (u64)b->c) return mkConst(0, w);
        if (smallTree(a)) return mapLeaves(a, [&](Expr *l) { return mkConst(l->c / b->c, w); });
    }
    return mk(X_UDIV, w, a, b);
}
Expr *mkURem(Expr *a, Expr *b) {
    unsigned w = a->w, n;
    if (b->isC() && b->c) {
        if (a->isC()) return mkConst(a->c % b->c, w);
        if (isPow2(b->c, n)) return n ? mkZExt(mkExtract(a, 0, n), w) : mkConst(0, w);
        if (w <= 64 && a->hi < (u64)b->c) return a;
        if (smallTree(a)) return mapLeaves(a, [&](Expr *l) { return mkConst(l->c % b->c, w); });
    }
    return mk(X_UREM, w, a, b);
}
Expr *mkSDiv(Expr *a, Expr *b) {
    unsigned w = a->w;
    if (a->isC() && b->isC() && b->c) return mkConst((u128)(sx(a->c, w) / sx(b->c, w)), w);
    if (w <= 64 && a->hi < (1ull << (w - 1)) && b->hi < (1ull << (w - 1))) return mkUDiv(a, b);
    return mk(X_SDIV, w, a, b);
}
Expr *mkSRem(Expr *a, Expr *b) {
    unsigned w = a->w;
    if (a->isC() && b->isC() && b->c) return mkConst((u128)(sx(a->c, w) % sx(b->c, w)), w);
    if (w <= 64 && a->hi < (1ull << (w - 1)) && b->hi < (1ull << (w - 1))) return mkURem(a, b);
    return mk(X_SREM, w, a, b);
}

static void cuts(Expr *e, unsigned base, std::vector<unsigned> &out) {
    while (e->op == X_CONCAT) {
        out.push_back(base + e->k[1]->w);
        e = e->k[1];
    }
}
static void constCuts(Expr *e, std::vector<unsigned> &out) {
    for (unsigned i = 1; i < e->w; i++)
        if (((e->c >> i) & 1) != ((e->c >> (i - 1)) & 1)) out.push_back(i);
}
template <class F> static Expr *segmented(Expr *a, Expr *b, F f, bool useConst) {
    std::vector<unsigned> c;
    cuts(a, 0, c);
    cuts(b, 0, c);
    if (useConst) {
        if (a->isC()) constCuts(a, c);
        if (b->isC()) constCuts(b, c);
    }
    if (c.empty()) return nullptr;
    c.push_back(0);
    c.push_back(a->w);
    std::sort(c.begin(), c.end());
    c.erase(std::unique(c.begin(), c.end()), c.end());
    Expr *r = nullptr;
    for (size_t i = 0; i + 1 < c.size(); i++) {
        unsigned lo = c[i], n = c[i + 1] - lo;
        Expr *s = f(mkExtract(a, lo, n), mkExtract(b, lo, n));
        r = r ? mkConcat(s, r) : s;
    }
    return r;
}

static bool isNotOf(Expr *a, Expr *b) { return (a->op == X_NOT && a->k[0] == b) || (b->op == X_NOT && b->k[0] == a); }

Expr *mkAnd(Expr *a, Expr *b) {
    if (a->isC()) std::swap(a, b);
    unsigned w = a->w;
    if (a->isC()) return mkConst(a->c & b->c, w);
    if (a == b) return a;
    if (b->isC()) {
        if (!b->c) return b;
        if (b->c == maskw(w)) return a;
    }
    if (w == 1) {
        if (isNotOf(a, b)) return mkConst(0, 1);
        if (a->op == X_AND && (a->k[0] == b || a->k[1] == b)) return a;
        if (b->op == X_AND && (b->k[0] == a || b->k[1] == a)) return b;
        if (a->id > b->id) std::swap(a, b);
        return mk(X_AND, 1, a, b);
    }
    if (b->isC() && smallTree(a)) return mapLeaves(a, [&](Expr *l) { return mkConst(l->c & b->c, w); });
    if (Expr *r = segmented(a, b, mkAnd, true)) return r;
    if (!b->isC() && a->id > b->id) std::swap(a, b);
    return mk(X_AND, w, a, b);
}
Expr *mkOr(Expr *a, Expr *b) {
    if (a->isC()) std::swap(a, b);
    unsigned w = a->w;
    if (a->isC()) return mkConst(a->c | b->c, w);
    if (a == b) return a;
    if (b->isC()) {
        if (!b->c) return a;
        if (b->c == maskw(w)) return b;
    }
    if (w == 1) {
        if (isNotOf(a, b)) return mkConst(1, 1);
        if (a->op == X_OR && (a->k[0] == b || a->k[1] == b)) return a;
        if (b->op == X_OR && (b->k[0] == a || b->k[1] == a)) return b;
        if (a->id > b->id) std::swap(a, b);
        return mk(X_OR, 1, a, b);
    }
    if (b->isC() && smallTree(a)) return mapLeaves(a, [&](Expr *l) { return mkConst(l->c | b->c, w); });
    if (Expr *r = segmented(a, b, mkOr, true)) return r;
    if (!b->isC() && a->id > b->id) std::swap(a, b);
    return mk(X_OR, w, a, b);
}
Expr *mkXor(Expr *a, Expr *b) {
    if (a->isC()) std::swap(a, b);
    unsigned w = a->w;
    if (a->isC()) return mkConst(a->c ^ b->c, w);
    if (a == b) return mkConst(0, w);
    if (b->isC()) {
        if (!b->c) return a;
        if (w == 1) return mkNot(a);
        if (a->op == X_XOR && a->k[1]->isC()) return mkXor(a->k[0], mkConst(a->k[1]->c ^ b->c, w));
        if (smallTree(a)) return mapLeaves(a, [&](Expr *l) { return mkConst(l->c ^ b->c, w); });
    }
    if (w == 1) {
        if (a->op == X_NOT) return mkNot(mkXor(a->k[0], b));
        if (b->op == X_NOT) return mkNot(mkXor(a, b->k[0]));
        if (a->id > b->id) std::swap(a, b);
        return mk(X_XOR, 1, a, b);
    }
    if (Expr *r = segmented(a, b, mkXor, false)) return r;
    if (!b->isC() && a->id > b->id) std::swap(a, b);
    return mk(X_XOR, w, a, b);
}
Expr *mkNot(Expr *a) {
    if (a->w != 1) return mkXor(a, mkConst(~(u128)0, a->w));
    if (a->isC()) return mkConst(!a->c, 1);
    if (a->op == X_NOT) return a->k[0];
    return mk(X_NOT, 1, a);
}

Expr *mkShl(Expr *a, Expr *b) {
    unsigned w = a->w;
    if (b->isC()) {
        if (b->c >= w) return mkConst(0, w);
        unsigned n = (unsigned)b->c;
        if (!n) return a;
        return mkConcat(mkExtract(a, 0, w - n), mkConst(0, n));
    }
    if (a->isC() && !a->c) return a;
    if (a->isC() && smallTree(b)) return mapLeaves(b, [&](Expr *l) { return l->c >= w ? mkConst(0, w) : mkConst(a->c << (unsigned)l->c, w); });
    return mk(X_SHL, w, a, b);
}
Expr *mkLShr(Expr *a, Expr *b) {
    unsigned w = a->w;
    if (b->isC()) {
        if (b->c >= w) return mkConst(0, w);
        unsigned n = (unsigned)b->c;
        if (!n) return a;
        return mkZExt(mkExtract(a, n, w - n), w);
    }
    if (a->isC() && !a->c) return a;
    if (a->isC() && smallTree(b)) return mapLeaves(b, [&](Expr *l) { return l->c >= w ? mkConst(0, w) : mkConst(a->c >> (unsigned)l->c, w); });
    return mk(X_LSHR, w, a, b);
}
Expr *mkAShr(Expr *a, Expr *b) {
    unsigned w = a->w;
    if (w <= 64 && a->hi < (1ull << (w - 1))) return mkLShr(a, b);
    if (b->isC()) {
        unsigned n = b->c >= w ? w - 1 : (unsigned)b->c;
        if (!n) return a;
        return mkSExt(mkExtract(a, n, w - n), w);
    }
    return mk(X_ASHR, w, a, b);
}

Expr *mkEq(Expr *a, Expr *b) {
    if (a == b) return mkConst(1, 1);
    if (a->isC()) std::swap(a, b);
    unsigned w = a->w;
    if (a->isC()) return mkConst(a->c == b->c, 1);
    if (w == 1) return mkNot(mkXor(a, b));
    if (w <= 64 && (a->hi < b->lo || b->hi < a->lo)) return mkConst(0, 1);
    if (b->isC()) {
        if (a->op == X_ADD && a->k[1]->isC()) return mkEq(a->k[0], mkConst(b->c - a->k[1]->c, w));
        if (a->op == X_SUB && a->k[0]->isC()) return mkEq(a->k[1], mkConst(a->k[0]->c - b->c, w));
        if (a->op == X_SUB && !b->c) return mkEq(a->k[0], a->k[1]);
        if (a->op == X_XOR && a->k[1]->isC()) return mkEq(a->k[0], mkConst(b->c ^ a->k[1]->c, w));
        if (a->op == X_XOR && !b->c) return mkEq(a->k[0], a->k[1]);
        if (a->op == X_SEXT) {
            Expr *t = mkConst(b->c, a->k[0]->w);
            if (mkSExt(t, w)->c != b->c) return mkConst(0, 1);
            return mkEq(a->k[0], t);
        }
        if (smallTree(a)) return mapLeaves(a, [&](Expr *l) { return mkConst(l->c == b->c, 1); });
        if (a->op == X_ITE && (a->k[1]->isC() || a->k[2]->isC())) return mkIte(a->k[0], mkEq(a->k[1], b), mkEq(a->k[2], b));
        if (a->op == X_MUL && a->k[1]->isC() && w <= 64) {
            // no wrap: x*c == k
            u64 c = (u64)a->k[1]->c;
            if ((u128)a->k[0]->hi * c <= (u128)(u64)maskw(w)) {
                if ((u64)b->c % c) return mkConst(0, 1);
                return mkEq(a->k[0], mkConst((u64)b->c / c, w));
            }
        }
    } else {
        if (a->op == X_ADD && b->op == X_ADD && a->k[1] == b->k[1]) return mkEq(a->k[0], b->k[0]);
    }
    if (a->op == X_CONCAT || b->op == X_CONCAT) {
        std::vector<unsigned> c;
        cuts(a, 0, c);
        cuts(b, 0, c);
        c.push_back(0);
        c.push_back(w);
        std::sort(c.begin(), c.end());
        c.erase(std::unique(c.begin(), c.end()), c.end());
        Expr *r = mkConst(1, 1);
        for (size_t i = c.size() - 1; i > 0; i--) {
            unsigned lo = c[i - 1], n = c[i] - lo;
            r = mkAnd(r, mkEq(mkExtract(a, lo, n), mkExtract(b, lo, n)));
            if (r->isC() && !r->c) return r;
        }
        return r;
    }
    if (!b->isC() && a->id > b->id) std::swap(a, b);
    return mk(X_EQ, 1, a, b);
}

static unsigned leadZeroBits(Expr *e) {
    if (e->w > 64) {
        if (e->op == X_CONCAT && e->k[0]->isC() && !e->k[0]->c) return e->k[0]->w;
        if (e->isC()) { unsigned n = 0; while (n < e->w && !((e->c >> (e->w - 1 - n)) & 1)) n++; return n; }
        return 0;
    }
    if (!e->hi) return e->w;
    return e->w - (64 - __builtin_clzll(e->hi));
}

Expr *mkUlt(Expr *a, Expr *b) {
    unsigned w = a->w;
    if (a == b) return mkConst(0, 1);
    if (a->isC() && b->isC()) return mkConst(a->c < b->c, 1);
    if (w == 1) return mkAnd(mkNot(a), b);
    if (w <= 64) {
        if (a->hi < b->lo) return mkConst(1, 1);
        if (a->lo >= b->hi) return mkConst(0, 1);
    }
    if (b->isC()) {
        if (!b->c) return mkConst(0, 1);
        if (b->c == 1) return mkEq(a, mkConst(0, w));
        if (smallTree(a)) return mapLeaves(a, [&](Expr *l) { return mkConst(l->c < b->c, 1); });
    }
    if (a->isC()) {
        if (smallTree(b)) return mapLeaves(b, [&](Expr *l) { return mkConst(a->c < l->c, 1); });
        if (!a->c) return mkNot(mkEq(b, mkConst(0, w)));
    }
    unsigned z = std::min(leadZeroBits(a), leadZeroBits(b));
    if (z && z < w && (a->isC() || (a->op == X_CONCAT && a->k[0]->isC()) ) && (b->isC() || (b->op == X_CONCAT && b->k[0]->isC()))) {
        return mkUlt(mkExtract(a, 0, w - z), mkExtract(b, 0, w - z));
    }
    return mk(X_ULT, 1, a, b);
}
Expr *mkSlt(Expr *a, Expr *b) {
    unsigned w = a->w;
    if (a == b) return mkConst(0, 1);
    if (a->isC() && b->isC()) return mkConst(sx(a->c, w) < sx(b->c, w), 1);
    if (w <= 64) {
        u64 s = 1ull << (w - 1);
        if (a->hi < s && b->hi < s) return mkUlt(a, b);
        if (a->lo >= s && b->hi < s) return mkConst(1, 1);
        if (a->hi < s && b->lo >= s) return mkConst(0, 1);
        if (a->lo >= s && b->lo >= s) return mkUlt(a, b);
    }
    if (b->isC() && !b->c) return mkExtract(a, w - 1, 1);
    if (a->isC() && a->c == maskw(w)) return mkNot(mkExtract(b, w - 1, 1));
    if (b->isC() && smallTree(a)) return mapLeaves(a, [&](Expr *l) { return mkConst(sx(l->c, w) < sx(b->c, w), 1); });
    if (a->isC() && smallTree(b)) return mapLeaves(b, [&](Expr *l) { return mkConst(sx(a->c, w) < sx(l->c, w), 1); });
    return mk(X_SLT, 1, a, b);
}

Expr *mkIte(Expr *c, Expr *a, Expr *b) {
    if (c->isC()) return c->c ? a : b;
    if (a == b) return a;
    if (c->op == X_NOT) return mkIte(c->k[0], b, a);
    unsigned w = a->w;
    if (w == 1) {
        if (a->isC()) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
        if (b->isC()) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
    }
    if (a->op == X_ITE && a->k[0] == c) a = a->k[1];
    if (b->op == X_ITE && b->k[0] == c) b = b->k[2];
    if (a == b) return a;
    // common leading constants (zero extensions)
    unsigned za = a->op == X_CONCAT && a->k[0]->isC() ? a->k[0]->w : a->isC() ? w : 0;
    unsigned zb = b->op == X_CONCAT && b->k[0]->isC() ? b->k[0]->w : b->isC() ? w : 0;
    unsigned z = std::min(za, zb);
    if (z && z < w && !(a->isC() && b->isC())) {
        Expr *ha = mkExtract(a, w - z, z), *hb = mkExtract(b, w - z, z);
        if (ha == hb) return mkConcat(ha, mkIte(c, mkExtract(a, 0, w - z), mkExtract(b, 0, w - z)));
    }
    // c ? x : (d ? x : y)
    if (b->op == X_ITE && b->k[1] == a) return mkIte(mkOr(c, b->k[0]), a, b->k[2]);
    return mk(X_ITE, w, c, a, b);
}

// ---- evaluation ----
static u64 stampCounter = 0;
u64 newStamp() { return ++stampCounter; }

static u128 evalOp(Op op, Expr *e, u128 a, u128 b, u128 c) {
    unsigned w = e->w, kw = e->k[0] ? e->k[0]->w : 0;
    u128 m = maskw(w);
    switch (op) {
    case X_CONCAT: return ((a << e->k[1]->w) | b) & m;
    case X_EXTRACT: return (a >> e->off) & m;
    case X_SEXT: return (u128)sx(a, kw) & m;
    case X_ADD: return (a + b) & m;
    case X_SUB: return (a - b) & m;
    case X_MUL: return (a * b) & m;
    case X_UDIV: return b ? a / b : m;
    case X_UREM: return b ? a % b : a;
    case X_SDIV: { i128 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; return (u128)(y == -1 ? -x : x / y) & m; }
    case X_SREM: { i128 x = sx(a, w), y = sx(b, w); if (!y) return a; return (u128)(y == -1 ? 0 : x % y) & m; }
    case X_AND: return a & b;
    case X_OR: return a | b;
    case X_XOR: return a ^ b;
    case X_NOT: return !a;
    case X_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case X_LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case X_ASHR: return (u128)(sx(a, w) >> (b >= w ? w - 1 : (unsigned)b)) & m;
    case X_EQ: return a == b;
    case X_ULT: return a < b;
    case X_SLT: return sx(a, kw) < sx(b, kw);
    case X_ITE: return a ? b : c;
    default: return 0;
    }
}

u128 evalExpr(Expr *e, const uint8_t *model, u64 stamp) {
    if (e->op == X_CONST) return e->c;
    if (e->op == X_VAR) return model[e->off];
    if (e->stamp == stamp) return e->val;
    u128 r;
    if (e->op == X_ITE) {
        r = evalExpr(e->k[0], model, stamp) ? evalExpr(e->k[1], model, stamp) : evalExpr(e->k[2], model, stamp);
    } else {
        int n = e->nk();
        u128 a = evalExpr(e->k[0], model, stamp);
        u128 b = n > 1 ? evalExpr(e->k[1], model, stamp) : 0;
        r = evalOp(e->op, e, a, b, 0);
    }
    e->stamp = stamp;
    e->val = r;
    return r;
}

Dom *truthTable(Expr *e) {
    if (e->tt) return e->tt;
    Dom *d = new Dom{{0, 0, 0, 0}};
    static uint8_t buf[65536];
    int v = e->sup->v[0];
    uint8_t save = buf[v];
    for (int i = 0; i < 256; i++) {
        buf[v] = (uint8_t)i;
        if (evalExpr(e, buf, newStamp())) d->w[i >> 6] |= 1ull << (i & 63);
    }
    buf[v] = save;
    e->tt = d;
    return d;
}

static const char *opn[] = {"const", "var", "concat", "extract", "sext", "add", "sub", "mul", "udiv", "urem", "sdiv", "srem", "and", "or", "xor", "not", "shl", "lshr", "ashr", "eq", "ult", "slt", "ite"};
std::string exprStr(Expr *e, int depth) {
    char b[64];
    if (e->isC()) { snprintf(b, 64, "%llu:%u", (unsigned long long)e->c, e->w); return b; }
    if (e->op == X_VAR) { snprintf(b, 64, "b%u", e->off); return b; }
    if (!depth) return "...";
    std::string s = std::string("(") + opn[e->op];
    if (e->op == X_EXTRACT) { snprintf(b, 64, "[%u+%u]", e->off, e->w); s += b; }
    else if (e->op != X_NOT) { snprintf(b, 64, "%u", e->w); s += b; }
    for (int i = 0; i < e->nk(); i++) s += " " + exprStr(e->k[i], depth - 1);
    return s + ")";
}
