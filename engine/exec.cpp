// Symbolic executor for LLVM IR: explores every feasible path of a harness.
#include "ir.h"
#include "solver.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <ctime>
#include <algorithm>
#include <atomic>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <set>
#include <deque>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <signal.h>

static Module mod;
static const int MAXVAR = 4096;

static double nowS() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

// ---- options ----
static std::string optEntry, optOut;
static std::vector<u64> optParams;
static std::vector<std::string> optInput; // unused
static bool optTrace = false; // print where values are made concrete
static u64 optMaxSteps = 40000000, optLoadCand = 4200, optStoreCand = 300;
static double optTime = 600;
static int optJobs = 1;
static u64 optSamples = 16;
static u64 optMemMB = 3000;
static bool optVerbose = false;

// ---- state shared by all worker processes ----
struct Shared {
    std::atomic<int> active;
    std::atomic<int> stop; // 1 violation, 2 error/incomplete
    std::atomic<u64> paths, assumedAway, instrs, forks, branches, fdDecisions, crossChecks;
    std::atomic<u64> zq, zsat, zunsat, zunk, zcache, ztimeUs, zmaxUs, workers;
    std::atomic<u64> exprs, samples, asserts, assertsProved, maxDepth, concretized, maxPathSteps;
    std::atomic<u64> cover[256];
    std::atomic<int> msgLock;
    char kind[32];
    char msg[4096];
    char where[4096];
    int nbytes;
    uint8_t bytes[MAXVAR];
};
static Shared *sh;
static uint8_t *dbgCov; // shared: debug location executed
static std::atomic<int> *slots; // worker slots shared between gsym processes

// ---- memory ----
struct Obj {
    uint32_t rc = 1;
    bool ro = false;
    u64 size = 0;
    std::vector<uint8_t> d;     // concrete bytes, may be shorter than size
    std::vector<Expr *> s;      // symbolic bytes, empty or same length as d
    void need(u64 n) {
        if (d.size() < n) {
            u64 c = std::min<u64>(size, std::max<u64>(n, d.size() * 2));
            d.resize(c, 0);
            if (!s.empty()) s.resize(c, nullptr);
        }
    }
    Expr *sym(u64 i) const { return s.empty() || i >= s.size() ? nullptr : s[i]; }
    uint8_t byte(u64 i) const { return i < d.size() ? d[i] : 0; }
};
static const u64 CH = 64;
struct Chunk {
    uint32_t rc = 1;
    Obj *o[CH] = {};
};
struct Mem {
    std::vector<Chunk *> c;
    Mem() {}
    Mem(const Mem &m) : c(m.c) { for (Chunk *x : c) if (x) x->rc++; }
    Mem &operator=(const Mem &m) {
        Mem t(m);
        c.swap(t.c);
        return *this;
    }
    static void dropObj(Obj *o) { if (o && --o->rc == 0) delete o; }
    static void dropChunk(Chunk *x) {
        if (x && --x->rc == 0) {
            for (u64 i = 0; i < CH; i++) dropObj(x->o[i]);
            delete x;
        }
    }
    ~Mem() { for (Chunk *x : c) dropChunk(x); }
    Obj *get(u64 id) const {
        u64 ci = id / CH;
        if (ci >= c.size() || !c[ci]) return nullptr;
        return c[ci]->o[id % CH];
    }
    Chunk *wchunk(u64 ci) {
        if (ci >= c.size()) c.resize(ci + 1, nullptr);
        Chunk *x = c[ci];
        if (!x) return c[ci] = new Chunk;
        if (x->rc > 1) {
            Chunk *n = new Chunk;
            for (u64 i = 0; i < CH; i++) {
                n->o[i] = x->o[i];
                if (n->o[i]) n->o[i]->rc++;
            }
            x->rc--;
            c[ci] = x = n;
        }
        return x;
    }
    Obj *getw(u64 id) {
        Chunk *x = wchunk(id / CH);
        Obj *o = x->o[id % CH];
        if (!o) return nullptr;
        if (o->rc > 1) {
            Obj *n = new Obj(*o);
            n->rc = 1;
            o->rc--;
            x->o[id % CH] = o = n;
        }
        return o;
    }
    void set(u64 id, Obj *o) {
        Chunk *x = wchunk(id / CH);
        dropObj(x->o[id % CH]);
        x->o[id % CH] = o;
    }
};

struct Frame {
    Function *f;
    uint32_t bb = 0, pc = 0, prev = 0;
    std::vector<CV> r;
    std::vector<u64> allocas;
    u64 bytes = 64; // at least what a native frame takes, with the allocas
};
// stack of the native main thread
static const u64 STACK = 8u << 20;

struct State {
    std::vector<Frame> st;
    Mem mem;
    u64 nextId;
    std::vector<Expr *> cs;   // path condition
    std::vector<Dom *> dom;   // per variable: values allowed by one-variable constraints
    std::vector<uint8_t> multi; // variable occurs in a constraint with others
    std::vector<uint8_t> model; // satisfies cs
    u64 stamp;
    u64 steps = 0;
    u64 depth = 0;
    u64 stack = 0;
    std::vector<Expr *> outs;
    u64 covers[4] = {0, 0, 0, 0};
    int maxVar = 0;
    bool panics = false; // a panic is what is asked for
};

static std::deque<State *> work;
static State *S;
static double tStart;
static u64 pathsHere = 0;

struct PathEnd {};

static void lockMsg() {
    int e = 0;
    while (!sh->msgLock.compare_exchange_weak(e, 1)) { e = 0; usleep(10); }
}
static std::string whereStr() {
    std::string w;
    for (int i = (int)S->st.size() - 1; i >= 0 && w.size() < 3500; i--) {
        Frame &f = S->st[i];
        uint32_t pc = i == (int)S->st.size() - 1 ? f.pc : f.pc; // callers: pc of the call
        if (f.f->blocks.empty() || pc >= f.f->blocks[f.bb].insts.size()) continue;
        for (Loc &l : locChain(mod, f.f->blocks[f.bb].insts[pc].dbg)) {
            w += l.fn + " (" + l.file + ":" + std::to_string(l.line) + ")\n";
        }
        if (!f.f->blocks[f.bb].insts[pc].dbg) w += f.f->name + "\n";
    }
    return w;
}
static void report(int stop, const char *kind, const std::string &msg) {
    lockMsg();
    if (!sh->stop || (stop == 1 && sh->stop == 2)) {
        snprintf(sh->kind, sizeof sh->kind, "%s", kind);
        snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
        std::string w = S ? whereStr() : "";
        snprintf(sh->where, sizeof sh->where, "%s", w.c_str());
        sh->nbytes = S ? S->maxVar : 0;
        if (S) memcpy(sh->bytes, S->model.data(), S->maxVar);
        sh->stop = stop;
    }
    sh->msgLock = 0;
}
[[noreturn]] static void violation(const char *kind, const std::string &msg) {
    report(1, kind, msg);
    throw PathEnd{};
}
[[noreturn]] static void engineErr(const std::string &msg) {
    report(2, "engine", msg);
    throw PathEnd{};
}

// ---- path conditions ----
static std::map<std::vector<u64>, Dom *> domTab;
static Dom *internDom(const Dom &d) {
    std::vector<u64> k(d.w, d.w + 4);
    auto it = domTab.find(k);
    if (it != domTab.end()) return it->second;
    Dom *n = new Dom(d);
    domTab[k] = n;
    return n;
}
static const Dom fullDom = {{~0ull, ~0ull, ~0ull, ~0ull}};
static const Dom &domOf(State *s, int v) { return s->dom[v] ? *s->dom[v] : fullDom; }
static void ensureVar(State *s, int v) {
    if (v >= MAXVAR) { engineErr("too many input bytes"); }
    if (v >= s->maxVar) {
        s->maxVar = v + 1;
        s->dom.resize(v + 1, nullptr);
        s->multi.resize(v + 1, 0);
        s->model.resize(v + 1, 0);
        s->stamp = newStamp();
    }
}
static u128 ev(State *s, Expr *e) { return evalExpr(e, s->model.data(), s->stamp); }

static void addCs(State *s, Expr *c) {
    if (c->isC()) {
        if (!c->c) { fprintf(stderr, "gsym: false constraint added\n"); abort(); }
        return;
    }
    if (c->op == X_AND) { addCs(s, c->k[0]); addCs(s, c->k[1]); return; }
    if (c->op == X_NOT && c->k[0]->op == X_OR) { addCs(s, mkNot(c->k[0]->k[0])); addCs(s, mkNot(c->k[0]->k[1])); return; }
    s->cs.push_back(c);
    if (c->sup->v.size() == 1) {
        int v = c->sup->v[0];
        Dom d = domOf(s, v);
        Dom *t = truthTable(c);
        for (int i = 0; i < 4; i++) d.w[i] &= t->w[i];
        s->dom[v] = internDom(d);
    } else
        for (int v : c->sup->v) s->multi[v] = 1;
}

struct FoldKey {
    u64 id, w[4];
    bool operator==(const FoldKey &o) const { return !memcmp(this, &o, sizeof o); }
};
struct FoldHash {
    size_t operator()(const FoldKey &k) const {
        u64 h = k.id;
        for (u64 x : k.w) h = (h ^ x) * 0x9E3779B97F4A7C15ull, h ^= h >> 29;
        return h;
    }
};
// Costly for the solver?
static std::unordered_map<u64, bool> heavyTab;
static bool heavy(Expr *e) {
    if (e->isC() || e->op == X_VAR) return false;
    auto it = heavyTab.find(e->id);
    if (it != heavyTab.end()) return it->second;
    bool h = e->w > 16 && e->op >= X_MUL && e->op <= X_SREM;
    for (int i = 0; i < 3 && !h; i++)
        if (e->k[i]) h = heavy(e->k[i]);
    return heavyTab[e->id] = h;
}
// Ask the solver too about a condition on one variable that its remaining
// values decide (once for each condition and set of values;
// not about wide multiplications and divisions, nor for more than 1 s).
static std::unordered_set<FoldKey, FoldHash> crossed;
static void crossCheck(State *s, Expr *q, bool expect) {
    static double spent;
    if (q->sup->v.size() != 1 || spent > 1 || heavy(q)) return;
    int v = q->sup->v[0];
    const Dom &d = domOf(s, v);
    if (!crossed.insert(FoldKey{q->id, {d.w[0], d.w[1], d.w[2], d.w[3]}}).second) return;
    std::vector<Expr *> sl = {q};
    for (Expr *c : s->cs)
        if (c->sup->v.size() == 1 && c->sup->v[0] == v) sl.push_back(c);
    std::vector<uint8_t> m = s->model;
    double t0 = nowS();
    int r = solve(sl, {v}, m.data());
    spent += nowS() - t0;
    if (r < 0) engineErr("solver gave no answer");
    if ((r == 1) != expect) engineErr("solver disagrees with value set on " + exprStr(q));
    sh->crossChecks++;
}

// Is `q` satisfiable together with the path condition?  If so `out` gets a
// satisfying assignment.
static bool feasible(State *s, Expr *q, std::vector<uint8_t> &out) {
    if (q->isC()) {
        if (q->c) out = s->model;
        return q->c;
    }
    if (q->sup->v.size() == 1) {
        int v = q->sup->v[0];
        const Dom &d = domOf(s, v);
        Dom *t = truthTable(q);
        int pick = -1;
        for (int i = 0; i < 4; i++) {
            u64 m = d.w[i] & t->w[i];
            if (m) { pick = i * 64 + __builtin_ctzll(m); break; }
        }
        if (pick < 0) { sh->fdDecisions++; crossCheck(s, q, false); return false; }
        if (!s->multi[v]) {
            sh->fdDecisions++;
            crossCheck(s, q, true);
            out = s->model;
            out[v] = pick;
            return true;
        }
    }
    // contradicted by a condition already on the path
    Expr *nq = mkNot(q);
    for (Expr *c : s->cs)
        if (c == nq) return false;
    // constraints connected to q through shared variables
    std::vector<uint8_t> in(s->maxVar, 0);
    std::vector<int> vars;
    for (int v : q->sup->v) { in[v] = 1; vars.push_back(v); }
    std::vector<Expr *> sl = {q};
    std::vector<uint8_t> used(s->cs.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < s->cs.size(); i++) {
            if (used[i]) continue;
            Expr *c = s->cs[i];
            bool hit = false;
            for (int v : c->sup->v) if (in[v]) { hit = true; break; }
            if (!hit) continue;
            used[i] = 1;
            sl.push_back(c);
            for (int v : c->sup->v)
                if (!in[v]) { in[v] = 1; vars.push_back(v); ch = true; }
        }
    }
    std::sort(vars.begin(), vars.end());
    out = s->model;
    int r = solve(sl, vars, out.data());
    if (r < 0) engineErr("solver gave no answer");
    return r == 1;
}

static void setModel(State *s, std::vector<uint8_t> &m) {
    s->model.swap(m);
    s->stamp = newStamp();
}

static State *clone(State *s) {
    State *n = new State(*s);
    return n;
}

// Decide a condition on the current path.  If both outcomes are feasible the
// state is cloned: the clone (which will re-execute the current instruction
// with the opposite outcome assumed) is queued.
static bool decide(Expr *c) {
    if (c->isC()) return c->c;
    sh->branches++;
    bool v = ev(S, c) != 0;
    Expr *mine = v ? c : mkNot(c), *other = mkNot(mine);
    std::vector<uint8_t> m;
    if (feasible(S, other, m)) {
        State *n = clone(S);
        addCs(n, other);
        setModel(n, m);
        n->depth++;
        S->depth++;
        addCs(S, mine);
        work.push_back(n);
        sh->forks++;
    }
    return v;
}

// Replace an expression of one variable by a constant if the values the
// variable can still take leave it only one value.
static std::unordered_map<FoldKey, Expr *, FoldHash> foldTab;
static Expr *foldDom(State *s, Expr *e) {
    if (e->isC() || e->sup->v.size() != 1 || e->w > 64) return e;
    int v = e->sup->v[0];
    if (v >= s->maxVar || !s->dom[v]) return e;
    Dom *d = s->dom[v];
    FoldKey key = {e->id, {d->w[0], d->w[1], d->w[2], d->w[3]}};
    auto it = foldTab.find(key);
    if (it != foldTab.end()) return it->second;
    static std::vector<uint8_t> m;
    m.assign(MAXVAR, 0);
    bool first = true, same = true;
    u64 val = 0;
    for (int i = 0; i < 256 && same; i++)
        if (d->w[i >> 6] >> (i & 63) & 1) {
            m[v] = i;
            u64 x = (u64)evalExpr(e, m.data(), newStamp());
            if (first) { val = x; first = false; }
            else if (x != val) same = false;
        }
    s->stamp = newStamp();
    Expr *r = same && !first ? mkConst(val, e->w) : e;
    if (r != e) crossCheck(s, mkNot(mkEq(e, r)), false);
    foldTab[key] = r;
    return r;
}

static Expr *toE(const CV &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static CV fromE(Expr *e) {
    if (e->isC() && e->w <= 64) return {(u64)e->c, nullptr};
    return {0, e};
}

// Make a value concrete, forking over its feasible values.
static u64 concretize(Expr *e) {
    if (e->isC()) return (u64)e->c;
    sh->concretized++;
    if (optTrace) fprintf(stderr, "conc %s\n", whereStr().c_str());
    u64 v = (u64)ev(S, e);
    Expr *eq = mkEq(e, mkConst(v, e->w));
    if (!decide(eq)) { fprintf(stderr, "gsym: concretize\n"); abort(); }
    return v;
}

// ---- registers ----
static inline const CV &opv(const Opnd &o, unsigned i = 0) {
    Frame &f = S->st.back();
    return o.slot >= 0 ? f.r[o.slot + i] : f.f->consts[o.cidx + i];
}
static inline void setr(int slot, const CV &v) { S->st.back().r[slot] = v; }
static u64 concOp(const Opnd &o, unsigned w) {
    const CV &v = opv(o);
    if (!v.e) return v.c;
    u64 x = concretize(toE(v, w));
    if (o.slot >= 0) setr(o.slot, {x, nullptr});
    return x;
}

// ---- memory access ----
static u64 newObj(u64 size) {
    Obj *o = new Obj;
    o->size = size;
    u64 id = S->nextId++;
    if (id >= (1u << 30)) engineErr("too many objects");
    S->mem.set(id, o);
    return objAddr(id);
}
static Obj *objFor(u64 addr, u64 n, bool write) {
    u64 id = addr >> 32, off = addr & 0xffffffff;
    Obj *o = S->mem.get(id);
    if (!o || off + n > o->size) {
        char b[200];
        snprintf(b, 200, "invalid memory %s of %llu bytes at object %llu offset %llu size %lld", write ? "write" : "read", (unsigned long long)n, (unsigned long long)id, (unsigned long long)off, o ? (long long)o->size : -1);
        violation("memory", b);
    }
    if (write) {
        if (o->ro) violation("memory", "write to constant");
        o = S->mem.getw(id);
        o->need(off + n);
    }
    return o;
}
static CV loadRaw(Obj *o, u64 off, unsigned w) {
    unsigned nb = (w + 7) / 8;
    bool sym = false;
    if (!o->s.empty())
        for (unsigned i = 0; i < nb; i++) if (o->sym(off + i)) { sym = true; break; }
    if (!sym && w <= 64) {
        u64 v = 0;
        if (off + nb <= o->d.size()) memcpy(&v, &o->d[off], nb);
        else for (unsigned i = 0; i < nb; i++) v |= (u64)o->byte(off + i) << (8 * i);
        if (w < 64) v &= (1ull << w) - 1;
        return {v, nullptr};
    }
    Expr *e = nullptr;
    for (unsigned i = 0; i < nb; i++) {
        Expr *b = o->sym(off + i);
        if (!b) b = mkConst(o->byte(off + i), 8);
        e = e ? mkConcat(b, e) : b;
    }
    if (w < nb * 8) e = mkExtract(e, 0, w);
    return fromE(e);
}
static void storeRaw(Obj *o, u64 off, unsigned w, const CV &v) {
    unsigned nb = (w + 7) / 8;
    if (!v.e) {
        u64 c = v.c;
        for (unsigned i = 0; i < nb; i++) o->d[off + i] = (uint8_t)(c >> (8 * i));
        if (!o->s.empty()) for (unsigned i = 0; i < nb; i++) o->s[off + i] = nullptr;
        return;
    }
    Expr *e = v.e;
    if (w < nb * 8) e = mkZExt(e, nb * 8);
    for (unsigned i = 0; i < nb; i++) {
        Expr *b = mkExtract(e, 8 * i, 8);
        if (b->isC()) {
            o->d[off + i] = (uint8_t)b->c;
            if (!o->s.empty()) o->s[off + i] = nullptr;
        } else {
            if (o->s.empty()) o->s.resize(o->d.size(), nullptr);
            o->s[off + i] = b;
        }
    }
}
static void show(Expr *e, int depth) {
    static const char *nm[] = {"const", "var", "concat", "extract", "sext", "add", "sub", "mul", "udiv", "urem", "sdiv", "srem", "and", "or", "xor", "not", "shl", "lshr", "ashr", "eq", "ult", "slt", "ite"};
    if (e->isC()) { fprintf(stderr, "%lu:%u", (u64)e->c, e->w); return; }
    fprintf(stderr, "(%s:%u@%u", nm[e->op], e->w, e->off);
    if (!depth) fprintf(stderr, " ..");
    else for (int i = 0; i < 3; i++) if (e->k[i]) { fprintf(stderr, " "); show(e->k[i], depth - 1); }
    fprintf(stderr, ")");
}
// Offsets a symbolic address can take inside one object.  Forks if the address
// may also fall outside.  Empty result: too many, caller concretizes.
static bool candidates(Expr *addr, u64 n, u64 limit, u64 &id, Expr *&offE, std::vector<u64> &cand) {
    u64 a = (u64)ev(S, addr);
    id = a >> 32;
    Obj *o = S->mem.get(id);
    u64 off = a & 0xffffffff;
    if (!o || off + n > o->size) objFor(a, n, false); // reports
    u64 base = objAddr(id);
    offE = mkSub(addr, mkConst(base, 64));
    // object number and offset were joined without a carry
    Expr *lead = addr->op == X_ADD && addr->k[1]->isC() ? addr->k[0] : addr;
    if (lead->op == X_CONCAT && addr->lo >> 32 == id && addr->hi >> 32 == id && lead->lo >> 32 == id && lead->hi >> 32 == id) {
        offE = mkZExt(mkExtract(lead, 0, 32), 64);
        if (lead != addr) offE = mkAdd(offE, addr->k[1]);
    }
    u64 last = o->size - n;
    if (offE->hi > last || offE->lo > last) {
        Expr *inb = mkNot(mkUlt(mkConst(last, 64), offE));
        if (!decide(inb)) { fprintf(stderr, "gsym: bounds\n"); abort(); }
    }
    if (offE->isC()) { cand.push_back((u64)offE->c); return true; }
    if (offE->sup->v.size() == 1) {
        int v = offE->sup->v[0];
        const Dom &d = domOf(S, v);
        std::vector<uint8_t> m = S->model;
        std::set<u64> cs;
        for (int i = 0; i < 256; i++)
            if (d.w[i >> 6] >> (i & 63) & 1) {
                m[v] = i;
                u64 x = (u64)evalExpr(offE, m.data(), newStamp());
                if (x <= last) cs.insert(x);
            }
        S->stamp = newStamp();
        cand.assign(cs.begin(), cs.end());
        return cand.size() <= limit;
    }
    // offE = c0 + step * x
    Expr *x = offE;
    u64 c0 = 0, step = 1;
    for (int i = 0; i < 4; i++) {
        if (x->op == X_ADD && x->k[1]->isC()) { c0 += (u64)x->k[1]->c * step; x = x->k[0]; }
        else if (x->op == X_MUL && x->k[1]->isC()) { step *= (u64)x->k[1]->c; x = x->k[0]; }
        else break;
    }
    u64 lo = std::min(offE->lo, last), hi = std::min(offE->hi, last);
    u64 tz = 1ull << std::min(trailingZeros(x), 20u);
    if (step && step < (1u << 20)) step *= tz;
    else { step = tz = 1; c0 = 0; }
    if (!x->isC() && step < (1u << 24)) {
        // smallest value >= lo congruent to c0 modulo step (addresses wrap at
        // 2^64, so only trust the congruence when x cannot overflow)
        if (x->hi < (1ull << 40)) {
            u64 r = c0 % step, m = lo % step;
            // c0 may be "negative"
            if ((i64)c0 < 0) r = (step - ((0 - c0) % step)) % step;
            lo = m <= r ? lo - m + r : lo - m + step + r;
        } else step = 1;
    } else step = 1;
    if (hi < lo) return false;
    if ((hi - lo) / step + 1 > limit) return false;
    for (u64 x = lo; x <= hi; x += step) cand.push_back(x);
    return true;
}
static Expr *selTree(Expr *offE, const std::vector<u64> &c, const std::vector<Expr *> &v, size_t a, size_t b) {
    bool same = true;
    for (size_t i = a + 1; i < b; i++) if (v[i] != v[a]) { same = false; break; }
    if (same) return v[a];
    size_t m = (a + b) / 2;
    Expr *cond = b - a == 2 ? mkEq(offE, mkConst(c[a], 64)) : mkUlt(offE, mkConst(c[m], 64));
    return mkIte(cond, selTree(offE, c, v, a, m), selTree(offE, c, v, m, b));
}
// A lookup in a table made of a few runs of equal or counting entries (which
// may wrap at a power of two) is expressed by the index, not entry by entry.
static Expr *runTable(Expr *offE, const std::vector<u64> &c, const std::vector<Expr *> &v, unsigned w) {
    size_t n = c.size();
    if (n < 3 || w > 64) return nullptr;
    u64 st = c[1] - c[0];
    for (size_t i = 1; i < n; i++) if (c[i] - c[i - 1] != st) return nullptr;
    struct Run { size_t a, b; int kind; unsigned k; }; // kind 0: equal, 1: counting
    std::vector<Run> runs;
    for (size_t i = 0; i < n;) {
        Run r = {i, i + 1, 0, w};
        bool wrapped = false;
        while (r.b < n) {
            Expr *p = v[r.b - 1], *q = v[r.b];
            if (p == q) {
                if (r.kind == 1) break;
            } else {
                if (!p->isC() || !q->isC() || (r.kind == 0 && r.b - r.a > 1)) break;
                u64 x = (u64)p->c + 1, y = (u64)q->c;
                if (x == y) {
                    if (wrapped && y >> r.k) break;
                } else if (y == 0 && !(x & (x - 1)) && w < 64 && x <= (1ull << w)) {
                    unsigned k = __builtin_ctzll(x);
                    if (k == 0 || (wrapped && k != r.k)) break;
                    r.k = k;
                    wrapped = true;
                } else break;
                r.kind = 1;
            }
            r.b++;
        }
        runs.push_back(r);
        if (runs.size() > 12) return nullptr;
        i = r.b;
    }
    Expr *x = nullptr;
    Expr *rel = mkSub(offE, mkConst(c[0], 64));
    if (st == 1) x = rel;
    else if (rel->op == X_MUL && rel->k[1]->isC() && (u64)rel->k[1]->c == st && rel->k[0]->hi < (1ull << 40)) x = rel->k[0];
    else if (!(st & (st - 1))) x = mkLShr(rel, mkConst(__builtin_ctzll(st), 64));
    else return nullptr;
    Expr *res = nullptr;
    for (size_t i = runs.size(); i-- > 0;) {
        Run &r = runs[i];
        Expr *e = v[r.a];
        if (r.kind) {
            e = mkAdd(mkExtract(x, 0, w), mkConst((u64)v[r.a]->c - r.a, w));
            if (r.k < w) e = mkZExt(mkExtract(e, 0, r.k), w);
        }
        res = res ? mkIte(mkUlt(x, mkConst(r.b, 64)), e, res) : e;
    }
    return res;
}
static CV loadVal(const CV &p, unsigned w, u64 extra) {
    unsigned nb = (w + 7) / 8;
    if (!p.e) return loadRaw(objFor(p.c + extra, nb, false), (p.c + extra) & 0xffffffff, w);
    Expr *a = mkAdd(p.e, mkConst(extra, 64));
    u64 id;
    Expr *offE;
    std::vector<u64> cand;
    if (!candidates(a, nb, optLoadCand, id, offE, cand)) {
        u64 x = concretize(a);
        return loadRaw(objFor(x, nb, false), x & 0xffffffff, w);
    }
    Obj *o = S->mem.get(id);
    std::vector<Expr *> vs;
    for (u64 c : cand) vs.push_back(toE(loadRaw(o, c, w), w));
    if (Expr *a2 = runTable(offE, cand, vs, w)) return fromE(a2);
    if (optTrace) show(offE, 6), fprintf(stderr, "\n");
    if (optTrace) fprintf(stderr, "select %zu w %u %s\n", cand.size(), w, whereStr().c_str());
    return fromE(selTree(offE, cand, vs, 0, cand.size()));
}
static void storeVal(const CV &p, unsigned w, u64 extra, const CV &v) {
    unsigned nb = (w + 7) / 8;
    if (!p.e) {
        Obj *o = objFor(p.c + extra, nb, true);
        storeRaw(o, (p.c + extra) & 0xffffffff, w, v);
        return;
    }
    Expr *a = mkAdd(p.e, mkConst(extra, 64));
    u64 id;
    Expr *offE;
    std::vector<u64> cand;
    if (!candidates(a, nb, optStoreCand, id, offE, cand)) {
        u64 x = concretize(a);
        Obj *o = objFor(x, nb, true);
        storeRaw(o, x & 0xffffffff, w, v);
        return;
    }
    Obj *o = S->mem.getw(id);
    if (o->ro) violation("memory", "write to constant");
    o->need(cand.back() + nb);
    Expr *ve = toE(v, w);
    for (u64 c : cand) {
        Expr *old = toE(loadRaw(o, c, w), w);
        storeRaw(o, c, w, fromE(mkIte(mkEq(offE, mkConst(c, 64)), ve, old)));
    }
}
static void copyMem(u64 dst, u64 src, u64 n) {
    if (!n) return;
    Obj *so = objFor(src, n, false);
    so->rc++; // keep alive across copy-on-write
    Obj *d = objFor(dst, n, true);
    u64 si = src & 0xffffffff, di = dst & 0xffffffff;
    std::vector<uint8_t> t(n);
    for (u64 i = 0; i < n; i++) t[i] = so->byte(si + i);
    bool hs = !so->s.empty();
    std::vector<Expr *> ts;
    if (hs) {
        ts.resize(n);
        bool any = false;
        for (u64 i = 0; i < n; i++) if ((ts[i] = so->sym(si + i))) any = true;
        hs = any;
    }
    memcpy(&d->d[di], t.data(), n);
    if (hs) {
        if (d->s.empty()) d->s.resize(d->d.size(), nullptr);
        for (u64 i = 0; i < n; i++) d->s[di + i] = ts[i];
    } else if (!d->s.empty())
        for (u64 i = 0; i < n; i++) d->s[di + i] = nullptr;
    Mem::dropObj(so);
}

// ---- intrinsics ----
enum Intr {
    N_NOP = 1, N_MEMCPY, N_MEMSET, N_UMAX, N_UMIN, N_SMAX, N_SMIN, N_ABS, N_CTLZ, N_CTTZ, N_CTPOP, N_BSWAP, N_BITREV,
    N_FSHL, N_FSHR, N_UADDSAT, N_USUBSAT, N_SADDSAT, N_SSUBSAT, N_UADDO, N_USUBO, N_UMULO, N_SADDO, N_SSUBO, N_SMULO, N_UCMP, N_SCMP,
    N_ISCONST, N_ARG0, N_LOADREL, N_MALLOC, N_CALLOC, N_REALLOC, N_FREE, N_MEMALIGN, N_POSIXMEMALIGN, N_MEMCMP, N_BCMP, N_STRLEN,
    N_BYTE, N_ASSUME, N_ASSERT, N_FAIL, N_COVER, N_CONC, N_PARAM, N_OUT, N_SYMB, N_PANICS, N_TRAP, N_PTRMASK, N_OBJSIZE, N_NATIVE, N_FABS, N_FMIN, N_FMAX, N_FROUND, N_FCOPYSIGN, N_FMA, N_FTOSAT, N_RANDOM, N_DEFAULT_TRUE, N_ERRNO
};
static bool pre(const std::string &s, const char *p) { return !s.compare(0, strlen(p), p); }
static int classify(Function *f) {
    const std::string &n = f->name;
    static const std::map<std::string, int> ex = {
        {"malloc", N_MALLOC}, {"calloc", N_CALLOC}, {"realloc", N_REALLOC}, {"free", N_FREE}, {"aligned_alloc", N_MEMALIGN}, {"memalign", N_MEMALIGN}, {"posix_memalign", N_POSIXMEMALIGN},
        {"memcmp", N_MEMCMP}, {"bcmp", N_BCMP}, {"strlen", N_STRLEN}, {"memcpy", N_MEMCPY}, {"memmove", N_MEMCPY}, {"memset", N_MEMSET}, {"getrandom", N_RANDOM},
        {"gsym_byte", N_BYTE}, {"gsym_assume", N_ASSUME}, {"gsym_assert", N_ASSERT}, {"gsym_fail", N_FAIL}, {"gsym_cover", N_COVER}, {"gsym_conc", N_CONC}, {"gsym_param", N_PARAM}, {"gsym_out", N_OUT}, {"gsym_symbolic", N_SYMB}, {"gsym_panics", N_PANICS}};
    auto it = ex.find(n);
    if (it != ex.end()) return it->second;
    static const std::vector<std::pair<const char *, int>> px = {
        {"llvm.lifetime.", N_NOP}, {"llvm.dbg.", N_NOP}, {"llvm.assume", N_NOP}, {"llvm.experimental.noalias", N_NOP}, {"llvm.prefetch", N_NOP}, {"llvm.donothing", N_NOP}, {"llvm.sideeffect", N_NOP}, {"llvm.va_", N_NOP},
        {"llvm.invariant.start", N_NOP}, {"llvm.invariant.end", N_NOP},
        {"llvm.memcpy.", N_MEMCPY}, {"llvm.memmove.", N_MEMCPY}, {"llvm.memset.", N_MEMSET}, {"llvm.umax.", N_UMAX}, {"llvm.umin.", N_UMIN}, {"llvm.smax.", N_SMAX}, {"llvm.smin.", N_SMIN},
        {"llvm.abs.", N_ABS}, {"llvm.ctlz.", N_CTLZ}, {"llvm.cttz.", N_CTTZ}, {"llvm.ctpop.", N_CTPOP}, {"llvm.bswap.", N_BSWAP}, {"llvm.bitreverse.", N_BITREV}, {"llvm.fshl.", N_FSHL}, {"llvm.fshr.", N_FSHR},
        {"llvm.uadd.sat.", N_UADDSAT}, {"llvm.usub.sat.", N_USUBSAT}, {"llvm.sadd.sat.", N_SADDSAT}, {"llvm.ssub.sat.", N_SSUBSAT},
        {"llvm.uadd.with.overflow.", N_UADDO}, {"llvm.usub.with.overflow.", N_USUBO}, {"llvm.umul.with.overflow.", N_UMULO}, {"llvm.sadd.with.overflow.", N_SADDO}, {"llvm.ssub.with.overflow.", N_SSUBO}, {"llvm.smul.with.overflow.", N_SMULO},
        {"llvm.ucmp.", N_UCMP}, {"llvm.scmp.", N_SCMP}, {"llvm.is.constant.", N_ISCONST}, {"llvm.expect.", N_ARG0}, {"llvm.threadlocal.address", N_ARG0}, {"llvm.load.relative.", N_LOADREL}, {"llvm.trap", N_TRAP}, {"llvm.ptrmask", N_PTRMASK}, {"llvm.objectsize", N_OBJSIZE}, {"llvm.ubsantrap", N_TRAP}, {"llvm.debugtrap", N_TRAP},
        {"llvm.launder.invariant", N_ARG0}, {"llvm.fabs.", N_FABS},
        {"llvm.minnum.", N_FMIN}, {"llvm.minimumnum.", N_FMIN}, {"llvm.maxnum.", N_FMAX}, {"llvm.maximumnum.", N_FMAX}, {"llvm.copysign.", N_FCOPYSIGN}, {"llvm.fma.", N_FMA}, {"llvm.fptoui.sat.", N_FTOSAT}, {"llvm.fptosi.sat.", N_FTOSAT},
        {"llvm.floor.", N_FROUND}, {"llvm.ceil.", N_FROUND}, {"llvm.trunc.", N_FROUND}, {"llvm.round.", N_FROUND}, {"llvm.roundeven.", N_FROUND}, {"llvm.rint.", N_FROUND}, {"llvm.nearbyint.", N_FROUND}, {"llvm.sqrt.", N_FROUND},
         {"llvm.allow.runtime.check", N_DEFAULT_TRUE}, {"llvm.ssa.copy", N_ARG0}};
    for (auto &p : px) if (pre(n, p.first)) return p.second;
    return -1;
}

static std::string demangle(const std::string &n) {
    if (n.compare(0, 2, "_R")) return n;
    std::string out;
    for (size_t i = 2; i < n.size();) {
        if (isdigit(n[i]) && !(i && (n[i - 1] == 's') && 0)) {
            size_t l = 0, j = i;
            while (j < n.size() && isdigit(n[j])) l = l * 10 + (n[j++] - '0');
            if (j < n.size() && n[j] == '_') j++;
            if (l > 0 && j + l <= n.size() && (isalpha(n[j]) || n[j] == '_')) {
                if (!out.empty()) out += "::";
                out += n.substr(j, l);
                i = j + l;
                continue;
            }
            i = j;
        } else if (n[i] == 's' || n[i] == 'B') { // disambiguator / back reference: skip to _
            size_t j = i + 1;
            while (j < n.size() && isalnum(n[j])) j++;
            if (j < n.size() && n[j] == '_') { i = j + 1; }
            else i++;
        } else i++;
    }
    return out.empty() ? n : out;
}

static Expr *popcount(Expr *e) {
    unsigned w = e->w;
    Expr *r = mkConst(0, w);
    for (unsigned i = 0; i < w; i++) r = mkAdd(r, mkZExt(mkExtract(e, i, 1), w));
    return r;
}

static u64 allocSize(const Opnd &o) {
    const CV &v = opv(o);
    if (!v.e) return v.c;
    // symbolic size: reserve the largest possible (storage is grown on use)
    Expr *e = v.e;
    if (e->hi < (1ull << 31)) return e->hi;
    return concOp(o, 64);
}
static CV doAlloc(u64 n, bool) {
    if (n >= (1ull << 32)) return {0, nullptr}; // allocation failure
    return {newObj(n ? n : 1), nullptr};
}

static inline u64 msk(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static double asD(u64 v, unsigned w) {
    if (w == 32) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
    double d;
    memcpy(&d, &v, 8);
    return d;
}
static u64 fromD(double d, unsigned w) {
    if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; }
    u64 v;
    memcpy(&v, &d, 8);
    return v;
}

static bool intrinsic(int k, Inst &I) {
    auto A = [&](int i) -> const CV & { return opv(I.args[i]); };
    unsigned w = I.argt.empty() ? 0 : (I.argt[0]->k == T_VECTOR ? I.argt[0]->el[0]->w : I.argt[0]->w);
    unsigned lanes = !I.argt.empty() && I.argt[0]->k == T_VECTOR ? I.argt[0]->n : 1;
    auto E = [&](int i, unsigned ww) { return toE(A(i), ww); };
    auto ret = [&](const CV &v) { if (I.dst >= 0) setr(I.dst, v); };
    auto retE = [&](Expr *e) { ret(fromE(e)); };
    auto ret2 = [&](Expr *a, Expr *b) { if (I.dst >= 0) { setr(I.dst, fromE(a)); setr(I.dst + 1, fromE(b)); } };
    if (lanes > 1 && k >= N_UMAX && k <= N_SCMP && k != N_UADDO) {
        if (k > N_SMIN) engineErr("vector intrinsic " + I.callee->name);
        for (unsigned l = 0; l < lanes; l++) {
            Expr *a = toE(opv(I.args[0], l), w), *b = toE(opv(I.args[1], l), w);
            Expr *c = k == N_UMAX ? mkUlt(a, b) : k == N_UMIN ? mkUlt(b, a) : k == N_SMAX ? mkSlt(a, b) : mkSlt(b, a);
            setr(I.dst + l, fromE(mkIte(c, b, a)));
        }
        return true;
    }
    switch (k) {
    case N_NOP: return true;
    case N_MEMCPY: {
        u64 n = concOp(I.args[2], 64);
        u64 d = concOp(I.args[0], 64), s = concOp(I.args[1], 64);
        copyMem(d, s, n);
        ret({d, nullptr});
        return true;
    }
    case N_RANDOM: {
        // keys of hash tables: any will do, results should not depend on them
        u64 n = concOp(I.args[1], 64), d = concOp(I.args[0], 64);
        if (n) {
            Obj *o = objFor(d, n, true);
            u64 off = d & 0xffffffff;
            for (u64 i = 0; i < n; i++) {
                o->d[off + i] = (uint8_t)(i * 73 + 41);
                if (!o->s.empty()) o->s[off + i] = nullptr;
            }
        }
        ret({n, nullptr});
        return true;
    }
    case N_MEMSET: {
        u64 n = concOp(I.args[2], 64), d = concOp(I.args[0], 64);
        CV v = A(1);
        if (v.e) v = fromE(mkExtract(v.e, 0, 8));
        else v.c &= 255;
        if (n) {
            u64 off = d & 0xffffffff;
            // zero fill of untouched memory needs no storage
            Obj *ro = S->mem.get(d >> 32);
            if (ro && !v.e && !v.c && off >= ro->d.size() && off + n <= ro->size) { ret({d, nullptr}); return true; }
            Obj *o = objFor(d, n, true);
            if (!v.e) {
                memset(&o->d[off], (int)v.c, n);
                if (!o->s.empty()) for (u64 i = 0; i < n; i++) o->s[off + i] = nullptr;
            } else
                for (u64 i = 0; i < n; i++) storeRaw(o, off + i, 8, v);
        }
        ret({d, nullptr});
        return true;
    }
    case N_UMAX: retE(mkIte(mkUlt(E(0, w), E(1, w)), E(1, w), E(0, w))); return true;
    case N_UMIN: retE(mkIte(mkUlt(E(1, w), E(0, w)), E(1, w), E(0, w))); return true;
    case N_SMAX: retE(mkIte(mkSlt(E(0, w), E(1, w)), E(1, w), E(0, w))); return true;
    case N_SMIN: retE(mkIte(mkSlt(E(1, w), E(0, w)), E(1, w), E(0, w))); return true;
    case N_ABS: { Expr *a = E(0, w); retE(mkIte(mkSlt(a, mkConst(0, w)), mkSub(mkConst(0, w), a), a)); return true; }
    case N_CTLZ: {
        Expr *a = E(0, w), *r = mkConst(w, w);
        for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(a, i, 1), mkConst(w - 1 - i, w), r);
        retE(r);
        return true;
    }
    case N_CTTZ: {
        Expr *a = E(0, w), *r = mkConst(w, w);
        for (int i = w - 1; i >= 0; i--) r = mkIte(mkExtract(a, i, 1), mkConst(i, w), r);
        retE(r);
        return true;
    }
    case N_CTPOP: retE(popcount(E(0, w))); return true;
    case N_BSWAP: {
        Expr *a = E(0, w), *r = nullptr;
        for (unsigned i = 0; i < w / 8; i++) { Expr *b = mkExtract(a, 8 * i, 8); r = r ? mkConcat(r, b) : b; }
        retE(r);
        return true;
    }
    case N_BITREV: {
        Expr *a = E(0, w), *r = nullptr;
        for (unsigned i = 0; i < w; i++) { Expr *b = mkExtract(a, i, 1); r = r ? mkConcat(r, b) : b; }
        retE(r);
        return true;
    }
    case N_FSHL: case N_FSHR: {
        Expr *s = E(2, w);
        if (!s->isC()) { concOp(I.args[2], w); s = E(2, w); }
        unsigned n = (unsigned)(s->c % w);
        Expr *a = E(0, w), *b = E(1, w);
        if (!n) retE(k == N_FSHL ? a : b);
        else if (k == N_FSHL) retE(mkOr(mkShl(a, mkConst(n, w)), mkLShr(b, mkConst(w - n, w))));
        else retE(mkOr(mkShl(a, mkConst(w - n, w)), mkLShr(b, mkConst(n, w))));
        return true;
    }
    case N_UADDSAT: { Expr *a = mkZExt(E(0, w), w + 1), *b = mkZExt(E(1, w), w + 1), *s = mkAdd(a, b); retE(mkIte(mkExtract(s, w, 1), mkConst(~(u128)0, w), mkExtract(s, 0, w))); return true; }
    case N_USUBSAT: { Expr *a = E(0, w), *b = E(1, w); retE(mkIte(mkUlt(a, b), mkConst(0, w), mkSub(a, b))); return true; }
    case N_UADDO: {
        Expr *a = E(0, w), *b = E(1, w);
        if (w <= 64 && (u128)a->hi + b->hi <= maskw(w)) { ret2(mkAdd(a, b), mkConst(0, 1)); return true; }
        Expr *s = mkAdd(mkZExt(a, w + 1), mkZExt(b, w + 1));
        ret2(mkAdd(a, b), mkExtract(s, w, 1));
        return true;
    }
    case N_USUBO: { Expr *a = E(0, w), *b = E(1, w); ret2(mkSub(a, b), mkUlt(a, b)); return true; }
    case N_UMULO: {
        Expr *a = E(0, w), *b = E(1, w);
        if (w > 64) engineErr("umulo width");
        if ((u128)a->hi * b->hi <= maskw(w)) { ret2(mkMul(a, b), mkConst(0, 1)); return true; }
        Expr *p = mkMul(mkZExt(a, 2 * w), mkZExt(b, 2 * w));
        ret2(mkMul(a, b), mkNot(mkEq(mkExtract(p, w, w), mkConst(0, w))));
        return true;
    }
    case N_SADDO: case N_SSUBO: case N_SMULO: {
        unsigned ww = k == N_SMULO ? 2 * w : w + 1;
        Expr *a = mkSExt(E(0, w), ww), *b = mkSExt(E(1, w), ww);
        Expr *r = k == N_SADDO ? mkAdd(a, b) : k == N_SSUBO ? mkSub(a, b) : mkMul(a, b);
        Expr *lo = mkExtract(r, 0, w);
        ret2(lo, mkNot(mkEq(r, mkSExt(lo, ww))));
        return true;
    }
    case N_SADDSAT: case N_SSUBSAT: {
        Expr *a = mkSExt(E(0, w), w + 1), *b = mkSExt(E(1, w), w + 1);
        Expr *r = k == N_SADDSAT ? mkAdd(a, b) : mkSub(a, b);
        Expr *lo = mkExtract(r, 0, w);
        Expr *ov = mkNot(mkEq(r, mkSExt(lo, w + 1)));
        retE(mkIte(ov, mkIte(mkExtract(r, w, 1), mkConst((u128)1 << (w - 1), w), mkConst(maskw(w - 1), w)), lo));
        return true;
    }
    case N_UCMP: case N_SCMP: {
        Expr *a = E(0, w), *b = E(1, w);
        unsigned rw = I.dw;
        Expr *lt = k == N_UCMP ? mkUlt(a, b) : mkSlt(a, b);
        retE(mkIte(mkEq(a, b), mkConst(0, rw), mkIte(lt, mkConst(~(u128)0, rw), mkConst(1, rw))));
        return true;
    }
    case N_ISCONST: ret({0, nullptr}); return true;
    case N_DEFAULT_TRUE: ret({1, nullptr}); return true;
    case N_ARG0: ret(A(0)); return true;
    case N_LOADREL: {
        u64 p = concOp(I.args[0], 64);
        unsigned ow = I.argt[1]->w;
        u64 o = concOp(I.args[1], ow);
        CV v = loadVal({p + o, nullptr}, 32, 0);
        if (v.e) engineErr("load.relative");
        ret({p + mod.relValue((uint32_t)v.c), nullptr});
        return true;
    }
    case N_MALLOC: ret(doAlloc(allocSize(I.args[0]), false)); return true;
    case N_CALLOC: {
        u64 a = concOp(I.args[0], 64), b = allocSize(I.args[1]);
        ret(doAlloc(a * b, true));
        return true;
    }
    case N_MEMALIGN: ret(doAlloc(allocSize(I.args[1]), false)); return true;
    case N_POSIXMEMALIGN: {
        CV p = doAlloc(allocSize(I.args[2]), false);
        storeVal(A(0), 64, 0, p);
        ret({p.c ? 0u : 12u, nullptr});
        return true;
    }
    case N_REALLOC: {
        u64 p = concOp(I.args[0], 64), n = allocSize(I.args[1]);
        CV q = doAlloc(n, false);
        if (q.c && p) {
            Obj *o = S->mem.get(p >> 32);
            if (!o) violation("memory", "realloc of freed memory");
            Obj *d = S->mem.getw(q.c >> 32);
            u64 m = std::min<u64>(o->d.size(), d->size);
            d->need(m);
            std::copy(o->d.begin(), o->d.begin() + m, d->d.begin());
            if (!o->s.empty()) {
                d->s.assign(d->d.size(), nullptr);
                std::copy(o->s.begin(), o->s.begin() + m, d->s.begin());
            }
            S->mem.set(p >> 32, nullptr);
        }
        ret(q);
        return true;
    }
    case N_FREE: {
        u64 p = concOp(I.args[0], 64);
        if (p) {
            if (!S->mem.get(p >> 32) || (p & 0xffffffff)) violation("memory", "bad free");
            S->mem.set(p >> 32, nullptr);
        }
        return true;
    }
    case N_MEMCMP: case N_BCMP: {
        u64 n = concOp(I.args[2], 64), a = concOp(I.args[0], 64), b = concOp(I.args[1], 64);
        unsigned rw = I.dw;
        if (!n) { ret({0, nullptr}); return true; }
        Obj *oa = objFor(a, n, false), *ob = objFor(b, n, false);
        u64 ai = a & 0xffffffff, bi = b & 0xffffffff;
        if (k == N_BCMP) {
            Expr *ne = mkConst(0, 1);
            for (u64 i = 0; i < n; i++) {
                Expr *x = oa->sym(ai + i), *y = ob->sym(bi + i);
                if (!x && !y) {
                    if (oa->byte(ai + i) != ob->byte(bi + i)) { ne = mkConst(1, 1); break; }
                    continue;
                }
                if (!x) x = mkConst(oa->byte(ai + i), 8);
                if (!y) y = mkConst(ob->byte(bi + i), 8);
                ne = mkOr(ne, mkNot(mkEq(x, y)));
            }
            retE(mkZExt(ne, rw));
            return true;
        }
        Expr *r = mkConst(0, rw);
        for (u64 i = n; i-- > 0;) {
            Expr *x = oa->sym(ai + i), *y = ob->sym(bi + i);
            if (!x) x = mkConst(oa->byte(ai + i), 8);
            if (!y) y = mkConst(ob->byte(bi + i), 8);
            r = mkIte(mkEq(x, y), r, mkIte(mkUlt(x, y), mkConst(~(u128)0, rw), mkConst(1, rw)));
        }
        retE(r);
        return true;
    }
    case N_STRLEN: {
        u64 a = concOp(I.args[0], 64), n = 0;
        for (;; n++) {
            CV c = loadVal({a + n, nullptr}, 8, 0);
            if (c.e) engineErr("strlen of symbolic bytes");
            if (!c.c) break;
        }
        ret({n, nullptr});
        return true;
    }
    case N_PTRMASK: retE(mkAnd(E(0, 64), E(1, 64))); return true;
    case N_OBJSIZE: ret({~0ull, nullptr}); return true;
    case N_FABS: ret({concOp(I.args[0], w) & (w == 64 ? ~(1ull << 63) : 0x7fffffffu), nullptr}); return true;
    case N_FMIN: case N_FMAX: {
        u64 x = concOp(I.args[0], w), y = concOp(I.args[1], w);
        double a = asD(x, w), b = asD(y, w);
        bool first = a != a ? false : b != b ? true : k == N_FMIN ? a < b || (a == b && std::signbit(a)) : a > b || (a == b && !std::signbit(a));
        ret({first ? x : y, nullptr});
        return true;
    }
    case N_FCOPYSIGN: {
        u64 x = concOp(I.args[0], w), y = concOp(I.args[1], w), sign = 1ull << (w - 1);
        ret({(x & ~sign) | (y & sign), nullptr});
        return true;
    }
    case N_FMA: {
        double a = asD(concOp(I.args[0], w), w), b = asD(concOp(I.args[1], w), w), c = asD(concOp(I.args[2], w), w);
        ret({fromD(w == 32 ? (double)std::fma((float)a, (float)b, (float)c) : std::fma(a, b, c), w), nullptr});
        return true;
    }
    case N_FROUND: {
        double a = asD(concOp(I.args[0], w), w);
        const std::string &n = I.callee->name;
        double r = pre(n, "llvm.floor.") ? std::floor(a) : pre(n, "llvm.ceil.") ? std::ceil(a) : pre(n, "llvm.trunc.") ? std::trunc(a) : pre(n, "llvm.round.") ? std::round(a) : pre(n, "llvm.sqrt.") ? (w == 32 ? (double)std::sqrt((float)a) : std::sqrt(a)) : std::nearbyint(a);
        ret({fromD(r, w), nullptr});
        return true;
    }
    case N_FTOSAT: {
        const std::string &n = I.callee->name;
        double a = asD(concOp(I.args[0], w), w);
        unsigned b = atoi(n.c_str() + strlen("llvm.fptoui.sat.i"));
        bool sg = pre(n, "llvm.fptosi");
        if (b < 1 || b > 64 || lanes > 1) engineErr("intrinsic " + n);
        double hi = std::ldexp(1.0, sg ? b - 1 : b), lo = sg ? -hi : 0;
        u64 r = a != a ? 0 : a >= hi ? (sg ? (1ull << (b - 1)) - 1 : msk(b)) : a <= lo ? (sg ? 1ull << (b - 1) : 0) : sg ? (u64)(i64)a & msk(b) : (u64)a;
        ret({r, nullptr});
        return true;
    }
    case N_TRAP: violation("abort", "trap");
    // ---- harness interface ----
    case N_BYTE: {
        u64 v = concOp(I.args[0], 32);
        ensureVar(S, (int)v);
        retE(mkVar((int)v));
        return true;
    }
    case N_SYMB: ret({1, nullptr}); return true;
    case N_PARAM: {
        u64 i = concOp(I.args[0], 32);
        ret({i < optParams.size() ? optParams[i] : 0, nullptr});
        return true;
    }
    case N_CONC: {
        const CV &v = A(0);
        if (v.e) ret({concretize(v.e), nullptr});
        else ret(v);
        return true;
    }
    case N_PANICS: S->panics = true; return true;
    case N_OUT: S->outs.push_back(toE(A(0), 64)); return true;
    case N_COVER: {
        u64 i = concOp(I.args[0], 32) & 255;
        S->covers[i >> 6] |= 1ull << (i & 63);
        sh->cover[i]++;
        return true;
    }
    case N_ASSUME: {
        Expr *c = mkExtract(E(0, w), 0, 1);
        if (c->isC()) {
            if (!c->c) { sh->assumedAway++; throw PathEnd{}; }
            return true;
        }
        if (!ev(S, c)) {
            std::vector<uint8_t> m;
            if (!feasible(S, c, m)) { sh->assumedAway++; throw PathEnd{}; }
            addCs(S, c);
            setModel(S, m);
        } else addCs(S, c);
        return true;
    }
    case N_ASSERT: {
        Expr *c = mkExtract(E(0, w), 0, 1);
        sh->asserts++;
        u64 code = A(1).c;
        if (c->isC()) {
            if (!c->c) violation("assert", "assertion " + std::to_string(code));
            return true;
        }
        if (!ev(S, c)) violation("assert", "assertion " + std::to_string(code));
        std::vector<uint8_t> m;
        if (feasible(S, mkNot(c), m)) {
            addCs(S, mkNot(c));
            setModel(S, m);
            violation("assert", "assertion " + std::to_string(code));
        }
        sh->assertsProved++;
        addCs(S, c);
        return true;
    }
    case N_FAIL: violation("assert", "failure " + std::to_string(A(0).c));
    }
    engineErr("intrinsic " + I.callee->name);
}

// ---- execution ----
static void enterBlock(uint32_t target) {
    Frame &f = S->st.back();
    uint32_t from = f.bb;
    Block &B = f.f->blocks[target];
    if (!B.phis.empty()) {
        static std::vector<CV> tmp;
        tmp.clear();
        for (Phi &p : B.phis) {
            const Opnd *src = nullptr;
            for (auto &in : p.in) if (in.first == from) { src = &in.second; break; }
            if (!src) engineErr("phi without predecessor in " + f.f->name);
            for (uint32_t i = 0; i < p.n; i++) tmp.push_back(opv(*src, i));
        }
        size_t k = 0;
        for (Phi &p : B.phis)
            for (uint32_t i = 0; i < p.n; i++) f.r[p.dst + i] = tmp[k++];
    }
    f.prev = from;
    f.bb = target;
    f.pc = 0;
}

static Expr *binE(IOp op, Expr *a, Expr *b) {
    switch (op) {
    case I_ADD: return mkAdd(a, b);
    case I_SUB: return mkSub(a, b);
    case I_MUL: return mkMul(a, b);
    case I_UDIV: return mkUDiv(a, b);
    case I_UREM: return mkURem(a, b);
    case I_SDIV: return mkSDiv(a, b);
    case I_SREM: return mkSRem(a, b);
    case I_AND: return mkAnd(a, b);
    case I_OR: return mkOr(a, b);
    case I_XOR: return mkXor(a, b);
    case I_SHL: return mkShl(a, b);
    case I_LSHR: return mkLShr(a, b);
    case I_ASHR: return mkAShr(a, b);
    default: return nullptr;
    }
}
static inline i64 sxt(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

static u64 binC(IOp op, u64 a, u64 b, unsigned w) {
    switch (op) {
    case I_ADD: return (a + b) & msk(w);
    case I_SUB: return (a - b) & msk(w);
    case I_MUL: return (a * b) & msk(w);
    case I_UDIV: if (!b) engineErr("division by zero"); return a / b;
    case I_UREM: if (!b) engineErr("division by zero"); return a % b;
    case I_SDIV: if (!b) engineErr("division by zero"); return (u64)(sxt(b, w) == -1 ? -sxt(a, w) : sxt(a, w) / sxt(b, w)) & msk(w);
    case I_SREM: if (!b) engineErr("division by zero"); return (u64)(sxt(b, w) == -1 ? 0 : sxt(a, w) % sxt(b, w)) & msk(w);
    case I_AND: return a & b;
    case I_OR: return a | b;
    case I_XOR: return a ^ b;
    case I_SHL: return b >= w ? 0 : (a << b) & msk(w);
    case I_LSHR: return b >= w ? 0 : a >> b;
    case I_ASHR: return (u64)(sxt(a, w) >> (b >= w ? w - 1 : b)) & msk(w);
    default: return 0;
    }
}
static Expr *cmpE(int p, Expr *a, Expr *b) {
    switch (p) {
    case P_EQ: return mkEq(a, b);
    case P_NE: return mkNot(mkEq(a, b));
    case P_UGT: return mkUlt(b, a);
    case P_UGE: return mkUle(b, a);
    case P_ULT: return mkUlt(a, b);
    case P_ULE: return mkUle(a, b);
    case P_SGT: return mkSlt(b, a);
    case P_SGE: return mkSle(b, a);
    case P_SLT: return mkSlt(a, b);
    default: return mkSle(a, b);
    }
}
static bool cmpC(int p, u64 a, u64 b, unsigned w) {
    switch (p) {
    case P_EQ: return a == b;
    case P_NE: return a != b;
    case P_UGT: return a > b;
    case P_UGE: return a >= b;
    case P_ULT: return a < b;
    case P_ULE: return a <= b;
    case P_SGT: return sxt(a, w) > sxt(b, w);
    case P_SGE: return sxt(a, w) >= sxt(b, w);
    case P_SLT: return sxt(a, w) < sxt(b, w);
    default: return sxt(a, w) <= sxt(b, w);
    }
}

static std::string panicText(Inst &I) {
    std::string n = I.callee ? demangle(I.callee->name) : "indirect";
    return "panic: " + n;
}

static void finishPath();

static void call(Inst &I) {
    Function *f = I.callee;
    if (!f) {
        u64 a = concOp(I.a, 64);
        f = mod.funcAt(a);
        if (!f) violation("memory", "call of a non-function");
    }
    if (!f->intr) f->intr = f->defined && f->name.compare(0, 5, "gsym_") ? (classify(f) > 0 && !f->defined ? classify(f) : -1) : classify(f);
    if (f->intr > 0) {
        if (!I.callee) {
            Inst J = I;
            J.callee = f;
            intrinsic(f->intr, J);
        } else intrinsic(f->intr, I);
        S->st.back().pc++;
        return;
    }
    if (f->name == "gsym_init") {
        // the function which std registers to be given the arguments
        for (auto &x : mod.fmap)
            if (x.first.find("ARGV_INIT_ARRAY") != std::string::npos && x.second->defined) f = x.second;
    }
    if (f->name == "gsym_end") {
        finishPath();
        throw PathEnd{};
    }
    if (f->noreturn && !(f->defined && f->name == "exit")) {
        if (S->panics) {
            finishPath();
            throw PathEnd{};
        }
        Inst J = I;
        J.callee = f;
        violation("panic", panicText(J));
    }
    if (!f->defined) engineErr("call of external function " + f->name);
    mod.parseBody(f);
    f->calls++;
    Frame n;
    n.f = f;
    n.r.assign(f->nslots, CV{0, nullptr});
    if (I.args.size() != f->argSlot.size()) engineErr("argument count for " + f->name);
    for (size_t i = 0; i < I.args.size(); i++) {
        unsigned k = f->argTy[i]->slots;
        for (unsigned j = 0; j < k; j++) n.r[f->argSlot[i] + j] = opv(I.args[i], j);
    }
    S->stack += n.bytes;
    if (S->stack > STACK) violation("stack", "stack overflow");
    S->st.push_back(std::move(n));
    if (S->st.size() > sh->maxDepth) sh->maxDepth = S->st.size();
}

static void finishPath() {
    pathsHere++;
    u64 pn = sh->paths++;
    bool take = pn < 6 || (pn & (pn - 1)) == 0 || pn % 997 == 0;
    if (take && optSamples && sh->samples < optSamples) {
        sh->samples++;
        std::string l = "{\"bytes\":\"";
        char b[40];
        for (int i = 0; i < S->maxVar; i++) { snprintf(b, 40, "%02x", S->model[i]); l += b; }
        u64 h = 1469598103934665603ull;
        for (Expr *e : S->outs) {
            u64 v = (u64)ev(S, e);
            for (int i = 0; i < 8; i++) h = (h ^ ((v >> (8 * i)) & 255)) * 1099511628211ull;
        }
        snprintf(b, 40, "\",\"out\":\"%016llx\"}\n", (unsigned long long)h);
        l += b;
        int fd = open((optOut + ".samples").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
        if (fd >= 0) {
            if (write(fd, l.data(), l.size()) < 0) {}
            close(fd);
        }
    }
    u64 prev = sh->maxPathSteps;
    while (S->steps > prev && !sh->maxPathSteps.compare_exchange_weak(prev, S->steps)) {}
}

static void run1() {
    Frame *fp = &S->st.back();
    Block *B = &fp->f->blocks[fp->bb];
    if (fp->pc >= B->insts.size()) engineErr("fell off block");
    Inst &I = B->insts[fp->pc];
    S->steps++;
    if (I.dbg) dbgCov[I.dbg] = 1;
    switch (I.op) {
    case I_NOP: fp->pc++; return;
    case I_UNSUP: engineErr("unsupported " + I.text);
    case I_ADD: case I_SUB: case I_MUL: case I_UDIV: case I_UREM: case I_SDIV: case I_SREM:
    case I_AND: case I_OR: case I_XOR: case I_SHL: case I_LSHR: case I_ASHR:
        for (uint32_t l = 0; l < I.lanes; l++) {
            const CV &a = opv(I.a, l), &b = opv(I.b, l);
            if (!a.e && !b.e) setr(I.dst + l, {binC(I.op, a.c, b.c, I.w), nullptr});
            else {
                Expr *x = toE(a, I.w), *y = toE(b, I.w);
                if ((I.op >= I_UDIV && I.op <= I_SREM) && !(y->isC() && y->c)) {
                    if (decide(mkEq(y, mkConst(0, I.w)))) engineErr("division by zero");
                }
                setr(I.dst + l, fromE(binE(I.op, x, y)));
            }
        }
        S->st.back().pc++;
        return;
    case I_ICMP:
        for (uint32_t l = 0; l < I.lanes; l++) {
            const CV &a = opv(I.a, l), &b = opv(I.b, l);
            if (!a.e && !b.e) setr(I.dst + l, {cmpC(I.pred, a.c, b.c, I.w), nullptr});
            else setr(I.dst + l, fromE(foldDom(S, cmpE(I.pred, toE(a, I.w), toE(b, I.w)))));
        }
        fp->pc++;
        return;
    case I_ZEXT:
        for (uint32_t l = 0; l < I.lanes; l++) {
            const CV &a = opv(I.a, l);
            if (!a.e && I.dw <= 64) setr(I.dst + l, {I.dw < I.w ? a.c & msk(I.dw) : a.c, nullptr});
            else {
                Expr *x = toE(a, I.w);
                setr(I.dst + l, fromE(I.dw < I.w ? mkExtract(x, 0, I.dw) : mkZExt(x, I.dw)));
            }
        }
        fp->pc++;
        return;
    case I_SEXT:
        for (uint32_t l = 0; l < I.lanes; l++) {
            const CV &a = opv(I.a, l);
            if (!a.e && I.dw <= 64) setr(I.dst + l, {(u64)sxt(a.c, I.w) & msk(I.dw), nullptr});
            else setr(I.dst + l, fromE(mkSExt(toE(a, I.w), I.dw)));
        }
        fp->pc++;
        return;
    case I_TRUNC:
        for (uint32_t l = 0; l < I.lanes; l++) {
            const CV &a = opv(I.a, l);
            if (!a.e) setr(I.dst + l, {a.c & msk(I.dw), nullptr});
            else setr(I.dst + l, fromE(mkExtract(a.e, 0, I.dw)));
        }
        fp->pc++;
        return;
    case I_COPY:
        for (uint32_t l = 0; l < I.lanes; l++) setr(I.dst + l, opv(I.a, l));
        fp->pc++;
        return;
    case I_RESHAPE: { // bits of vectors, the first lane lowest
        std::vector<CV> in(I.lanes);
        bool sym = I.dw > 64 || I.w > 64;
        for (uint32_t l = 0; l < I.lanes; l++) { in[l] = opv(I.a, l); sym |= in[l].e != nullptr; }
        for (uint32_t k = 0; k < I.dslots; k++) {
            u64 c = 0;
            Expr *e = nullptr;
            for (unsigned b = 0; b < I.dw;) {
                unsigned at = k * I.dw + b, l = at / I.w, o = at % I.w, n = std::min(I.w - o, I.dw - b);
                if (sym) {
                    Expr *p = mkExtract(toE(in[l], I.w), o, n);
                    e = e ? mkConcat(p, e) : p;
                } else
                    c |= (in[l].c >> o & msk(n)) << b;
                b += n;
            }
            setr(I.dst + k, sym ? fromE(e) : CV{c, nullptr});
        }
        fp->pc++;
        return;
    }
    case I_SELECT: {
        if (I.aux) { // vector condition
            for (uint32_t l = 0; l < I.lanes; l++) {
                Expr *c = toE(opv(I.a, l), 1);
                setr(I.dst + l, fromE(mkIte(c, toE(opv(I.b, l), I.w), toE(opv(I.c, l), I.w))));
            }
            fp->pc++;
            return;
        }
        const CV &c = opv(I.a);
        if (!c.e) {
            const Opnd &o = c.c ? I.b : I.c;
            for (uint32_t l = 0; l < I.lanes; l++) setr(I.dst + l, opv(o, l));
            fp->pc++;
            return;
        }
        bool ptr = false;
        for (uint32_t l = 0; l < I.lanes; l++)
            if (I.ty->leaves[l].second == 64 && I.ty->k != T_INT) ptr = true;
        if (ptr) {
            Expr *ce = c.e;
            bool v = decide(ce);
            const Opnd &o = v ? I.b : I.c;
            for (uint32_t l = 0; l < I.lanes; l++) setr(I.dst + l, opv(o, l));
            S->st.back().pc++;
            return;
        }
        Expr *ce = c.e;
        for (uint32_t l = 0; l < I.lanes; l++) {
            unsigned w = I.ty->leaves[l].second;
            setr(I.dst + l, fromE(mkIte(ce, toE(opv(I.b, l), w), toE(opv(I.c, l), w))));
        }
        fp->pc++;
        return;
    }
    case I_GEP: {
        const CV &b = opv(I.a);
        bool sym = b.e != nullptr;
        for (auto &g : I.gidx) if (opv(g.first).e) sym = true;
        if (!sym) {
            u64 a = b.c + I.goff;
            for (size_t i = 0; i < I.gidx.size(); i++) a += (u64)sxt(opv(I.gidx[i].first).c, I.gw[i]) * I.gidx[i].second;
            setr(I.dst, {a, nullptr});
        } else {
            Expr *a = mkAdd(toE(b, 64), mkConst((u64)I.goff, 64));
            for (size_t i = 0; i < I.gidx.size(); i++) {
                Expr *x = mkSExt(toE(opv(I.gidx[i].first), I.gw[i]), 64);
                a = mkAdd(a, mkMul(x, mkConst(I.gidx[i].second, 64)));
            }
            setr(I.dst, fromE(a));
        }
        fp->pc++;
        return;
    }
    case I_LOAD: {
        CV p = opv(I.a);
        for (uint32_t l = 0; l < I.ty->slots; l++) {
            CV v = loadVal(p, I.ty->leaves[l].second, I.ty->leaves[l].first);
            if (v.e) v = fromE(foldDom(S, v.e));
            setr(I.dst + l, v);
        }
        S->st.back().pc++;
        return;
    }
    case I_STORE: {
        CV p = opv(I.a);
        for (uint32_t l = 0; l < I.ty->slots; l++) storeVal(p, I.ty->leaves[l].second, I.ty->leaves[l].first, opv(I.b, l));
        S->st.back().pc++;
        return;
    }
    case I_ALLOCA: {
        u64 a = newObj(I.goff ? I.goff : 1);
        fp->allocas.push_back(a >> 32);
        fp->bytes += I.goff;
        S->stack += I.goff;
        setr(I.dst, {a, nullptr});
        fp->pc++;
        return;
    }
    case I_BR: enterBlock(I.aux); return;
    case I_CBR: {
        const CV &c = opv(I.a);
        bool v;
        if (!c.e) v = c.c & 1;
        else {
            Expr *e = c.e;
            v = decide(e);
        }
        enterBlock(v ? I.aux : I.aux2);
        return;
    }
    case I_SWITCH: {
        const CV &c = opv(I.a);
        if (!c.e) {
            for (auto &k : I.cases) if (k.first == c.c) { enterBlock(k.second); return; }
            enterBlock(I.aux);
            return;
        }
        Expr *e = c.e;
        // group cases by target
        std::vector<uint32_t> order;
        std::map<uint32_t, Expr *> cond;
        for (auto &k : I.cases) {
            if (k.second == I.aux) continue;
            Expr *q = mkEq(e, mkConst(k.first, I.w));
            auto it = cond.find(k.second);
            if (it == cond.end()) { cond[k.second] = q; order.push_back(k.second); }
            else it->second = mkOr(it->second, q);
        }
        u128 cv = ev(S, e);
        uint32_t tgt = I.aux;
        for (auto &k : I.cases) if (k.first == cv) { tgt = k.second; break; }
        Expr *mine = nullptr;
        if (tgt != I.aux) mine = cond[tgt];
        else {
            mine = mkConst(1, 1);
            for (auto &kv : cond) mine = mkAnd(mine, mkNot(kv.second));
        }
        decide(mine);
        enterBlock(tgt);
        return;
    }
    case I_RET: {
        static std::vector<CV> rv;
        rv.clear();
        if (I.ty) for (uint32_t l = 0; l < I.ty->slots; l++) rv.push_back(opv(I.a, l));
        for (u64 id : fp->allocas) S->mem.set(id, nullptr);
        S->stack -= std::min(S->stack, fp->bytes);
        S->st.pop_back();
        if (S->st.empty()) {
            finishPath();
            throw PathEnd{};
        }
        Frame &c = S->st.back();
        Inst &ci = c.f->blocks[c.bb].insts[c.pc];
        if (ci.dst >= 0) for (size_t l = 0; l < rv.size(); l++) c.r[ci.dst + l] = rv[l];
        c.pc++;
        return;
    }
    case I_UNREACHABLE: violation("unreachable", "unreachable code reached");
    case I_CALL: call(I); return;
    case I_EXTRACTV:
        for (uint32_t l = 0; l < I.dslots; l++) setr(I.dst + l, opv(I.a, I.aux + l));
        fp->pc++;
        return;
    case I_INSERTV:
        for (uint32_t l = 0; l < I.dslots; l++)
            setr(I.dst + l, l >= I.aux && l < I.aux + I.aux2 ? opv(I.b, l - I.aux) : opv(I.a, l));
        fp->pc++;
        return;
    case I_INSERTEL: {
        u64 i = concOp(I.c, 64);
        for (uint32_t l = 0; l < I.dslots; l++) setr(I.dst + l, l == i ? opv(I.b) : opv(I.a, l));
        S->st.back().pc++;
        return;
    }
    case I_EXTRACTEL: {
        u64 i = concOp(I.c, 64);
        setr(I.dst, opv(I.a, (unsigned)i));
        S->st.back().pc++;
        return;
    }
    case I_SHUFFLE: {
        std::vector<CV> t;
        u64 n = I.ty->n;
        for (int m : I.mask) t.push_back((u64)m < n ? opv(I.a, m) : opv(I.b, m - n));
        for (size_t l = 0; l < t.size(); l++) setr(I.dst + l, t[l]);
        fp->pc++;
        return;
    }
    case I_ATOMICRMW: {
        CV p = opv(I.a);
        CV old = loadVal(p, I.w, 0);
        Expr *o = toE(old, I.w), *v = toE(opv(I.b), I.w), *r = nullptr;
        if (I.text == "xchg") r = v;
        else if (I.text == "add") r = mkAdd(o, v);
        else if (I.text == "sub") r = mkSub(o, v);
        else if (I.text == "and") r = mkAnd(o, v);
        else if (I.text == "or") r = mkOr(o, v);
        else if (I.text == "xor") r = mkXor(o, v);
        else if (I.text == "umax") r = mkIte(mkUlt(o, v), v, o);
        else engineErr("atomicrmw " + I.text);
        storeVal(p, I.w, 0, fromE(r));
        setr(I.dst, old);
        S->st.back().pc++;
        return;
    }
    case I_CMPXCHG: {
        CV p = opv(I.a);
        CV old = loadVal(p, I.w, 0);
        Expr *eq = mkEq(toE(old, I.w), toE(opv(I.b), I.w));
        storeVal(p, I.w, 0, fromE(mkIte(eq, toE(opv(I.c), I.w), toE(old, I.w))));
        setr(I.dst, old);
        setr(I.dst + 1, fromE(eq));
        S->st.back().pc++;
        return;
    }
    case I_FADD: case I_FSUB: case I_FMUL: case I_FDIV: {
        double a = asD(concOp(I.a, I.w), I.w), b = asD(concOp(I.b, I.w), I.w);
        double r = I.op == I_FADD ? a + b : I.op == I_FSUB ? a - b : I.op == I_FMUL ? a * b : a / b;
        if (I.w == 32) { float x = (float)a, y = (float)b; r = I.op == I_FADD ? x + y : I.op == I_FSUB ? x - y : I.op == I_FMUL ? x * y : x / y; }
        setr(I.dst, {fromD(r, I.w), nullptr});
        S->st.back().pc++;
        return;
    }
    case I_FNEG: setr(I.dst, {concOp(I.a, I.w) ^ (1ull << (I.w - 1)), nullptr}); S->st.back().pc++; return;
    case I_FCMP: {
        double a = asD(concOp(I.a, I.w), I.w), b = asD(concOp(I.b, I.w), I.w);
        bool un = a != a || b != b;
        int p = I.pred & 7;
        bool r = p == 0 ? false : p == 1 ? a == b : p == 2 ? a > b : p == 3 ? a >= b : p == 4 ? a < b : p == 5 ? a <= b : p == 6 ? (a != b && !un) : !un;
        if (I.pred >= 8) r = I.pred == 8 ? (un || a == b) : I.pred == 9 ? (un || a > b) : I.pred == 10 ? (un || a >= b) : I.pred == 11 ? (un || a < b) : I.pred == 12 ? (un || a <= b) : I.pred == 13 ? (un || a != b) : I.pred == 14 ? un : true;
        setr(I.dst, {r, nullptr});
        S->st.back().pc++;
        return;
    }
    case I_UITOFP: setr(I.dst, {fromD((double)concOp(I.a, I.w), I.dw), nullptr}); S->st.back().pc++; return;
    case I_SITOFP: setr(I.dst, {fromD((double)sxt(concOp(I.a, I.w), I.w), I.dw), nullptr}); S->st.back().pc++; return;
    case I_FPTOUI: setr(I.dst, {(u64)asD(concOp(I.a, I.w), I.w) & msk(I.dw), nullptr}); S->st.back().pc++; return;
    case I_FPTOSI: setr(I.dst, {(u64)(i64)asD(concOp(I.a, I.w), I.w) & msk(I.dw), nullptr}); S->st.back().pc++; return;
    case I_FPEXT: case I_FPTRUNC: setr(I.dst, {fromD(asD(concOp(I.a, I.w), I.w), I.dw), nullptr}); S->st.back().pc++; return;
    }
}

static void flushStats() {
    static SolverStats last = {};
    static u64 lastE = 0;
    sh->zq += gSol.queries - last.queries;
    sh->zsat += gSol.sat - last.sat;
    sh->zunsat += gSol.unsat - last.unsat;
    sh->zunk += gSol.unknown - last.unknown;
    sh->zcache += gSol.cacheHits - last.cacheHits;
    sh->ztimeUs += (u64)((gSol.time - last.time) * 1e6);
    u64 mx = (u64)(gSol.maxTime * 1e6), p = sh->zmaxUs;
    while (mx > p && !sh->zmaxUs.compare_exchange_weak(p, mx)) {}
    sh->exprs += gNumExpr - lastE;
    lastE = gNumExpr;
    last = gSol;
}

static bool tryFork() {
    static double lastFork = 0;
    if (work.empty() || optJobs <= 1) return false;
    double t = nowS();
    if (t - lastFork < 0.03) return false;
    int a = slots->load();
    do {
        if (a >= optJobs) return false;
    } while (!slots->compare_exchange_weak(a, a + 1));
    sh->active++;
    sh->workers++;
    lastFork = t;
    flushStats();
    fflush(stdout);
    pid_t p = fork();
    if (p < 0) {
        sh->active--;
        (*slots)--;
        return false;
    }
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, 0);
        State *mine = work.front();
        work.clear(); // other states stay with the parent (leaked here)
        work.push_back(mine);
        return true; // child
    }
    delete work.front();
    work.pop_front();
    return false;
}

static u64 rssMB() {
    FILE *f = fopen("/proc/self/statm", "r");
    if (!f) return 0;
    u64 a, b;
    int n = fscanf(f, "%lu %lu", &a, &b);
    fclose(f);
    return n == 2 ? b * 4096 / 1048576 : 0;
}

static bool isChild = false;
static void explore() {
    double lastCheck = 0;
    while (!work.empty() && !sh->stop) {
        S = work.back();
        work.pop_back();
        u64 base = S->steps;
        try {
            for (;;) {
                run1();
                if ((S->steps & 1023) == 0) {
                    if (sh->stop) throw PathEnd{};
                    if (S->steps > optMaxSteps) violation("hang", "path longer than " + std::to_string(optMaxSteps) + " instructions");
                    if ((S->steps & 0xffff) == 0) {
                        if (nowS() - tStart > optTime) engineErr("time limit");
                        if (!work.empty()) {
                            State *cur = S;
                            if (tryFork()) {
                                isChild = true;
                                S = work.back();
                                work.pop_back();
                                base = S->steps;
                                (void)cur;
                            }
                        }
                    }
                }
            }
        } catch (PathEnd &) {}
        sh->instrs += S->steps - base;
        delete S;
        S = nullptr;
        double t = nowS();
        if (t - lastCheck > 0.25) {
            lastCheck = t;
            if (t - tStart > optTime) { report(2, "engine", "time limit"); }
            if (rssMB() > optMemMB) { report(2, "engine", "memory limit"); }
        }
        if (!sh->stop && work.size() >= 1 && tryFork()) isChild = true;
    }
    flushStats();
}

static std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

int main(int argc, char **argv) {
    // large stack for recursive expression walks
    rlimit rl;
    getrlimit(RLIMIT_STACK, &rl);
    if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (512u << 20) && !getenv("GSYM_STACK")) {
        rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1ull << 30) : rl.rlim_max;
        setrlimit(RLIMIT_STACK, &rl);
        setenv("GSYM_STACK", "1", 1);
        execv("/proc/self/exe", argv);
    }
    std::string file, slotFile, lim = "gift/src/", lim2 = "tool/src/";
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--entry") optEntry = nx();
        else if (a == "--param") optParams.push_back(strtoull(nx().c_str(), nullptr, 0));
        else if (a == "--out") optOut = nx();
        else if (a == "--jobs") optJobs = atoi(nx().c_str());
        else if (a == "--slots") slotFile = nx();
        else if (a == "--time") optTime = atof(nx().c_str());
        else if (a == "--max-steps") optMaxSteps = strtoull(nx().c_str(), nullptr, 0);
        else if (a == "--samples") optSamples = strtoull(nx().c_str(), nullptr, 0);
        else if (a == "--trace") optTrace = true;
        else if (a == "--load-cand") optLoadCand = strtoull(nx().c_str(), nullptr, 0);
        else if (a == "--store-cand") optStoreCand = strtoull(nx().c_str(), nullptr, 0);
        else if (a == "--mem") optMemMB = strtoull(nx().c_str(), nullptr, 0);
        else if (a == "--cov") lim = nx();
        else if (a == "-v") optVerbose = true;
        else file = a;
    }
    if (file.empty() || optEntry.empty() || optOut.empty()) {
        fprintf(stderr, "usage: gsym FILE.ll --entry NAME --out FILE [--param N]...\n");
        return 3;
    }
    unlink((optOut + ".samples").c_str());
    tStart = nowS();
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void *)sh, 0, sizeof *sh);
    if (!slotFile.empty()) {
        int fd = open(slotFile.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, 64)) { perror("slots"); return 3; }
        slots = (std::atomic<int> *)mmap(nullptr, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
        for (;;) { // wait for a free slot
            int a = slots->load();
            if (a < optJobs && slots->compare_exchange_weak(a, a + 1)) break;
            usleep(2000);
        }
        tStart = nowS();
    } else {
        slots = (std::atomic<int> *)mmap(nullptr, 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        *slots = 1;
    }
    mod.load(file.c_str());
    size_t nmd = mod.mdPos.size() + 2;
    dbgCov = (uint8_t *)mmap(nullptr, nmd, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto it = mod.fmap.find(optEntry);
    if (it == mod.fmap.end() || !it->second->defined) { fprintf(stderr, "gsym: no entry %s\n", optEntry.c_str()); return 3; }
    mod.parseBody(it->second);
    State *s0 = new State;
    s0->nextId = 1;
    for (Global *g : mod.globals) {
        Obj *o = new Obj;
        o->size = g->data.size() ? g->data.size() : 1;
        o->d = g->data;
        o->ro = g->constant;
        s0->mem.set(g->addr >> 32, o);
        s0->nextId = (g->addr >> 32) + 1;
    }
    s0->nextId += 16;
    s0->stamp = newStamp();
    Frame f;
    f.f = it->second;
    f.r.assign(f.f->nslots, CV{0, nullptr});
    s0->st.push_back(f);
    work.push_back(s0);
    sh->active = 1;
    sh->workers = 1;
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    pid_t root = getpid();
    explore();
    sh->active--;
    (*slots)--;
    if (getpid() != root) _exit(0);
    // wait for every worker
    bool crashed = false;
    for (;;) {
        int st;
        pid_t p = waitpid(-1, &st, 0);
        if (p < 0) break;
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) crashed = true;
    }
    if (crashed && !sh->stop) {
        sh->stop = 2;
        strcpy(sh->kind, "engine");
        strcpy(sh->msg, "worker process died");
    }
    if (sh->active != 0 && !sh->stop) { sh->stop = 2; strcpy(sh->kind, "engine"); strcpy(sh->msg, "workers unaccounted for"); }
    // coverage of the library's own source
    std::map<std::string, std::set<int>> lines;
    std::set<std::string> fns;
    std::set<std::string> all;
    for (size_t i = 1; i < nmd - 1; i++)
        if (dbgCov[i]) {
            auto c = locChain(mod, i);
            if (c.empty()) continue;
            if (c[0].file.find(lim) != std::string::npos || c[0].file.find(lim2) != std::string::npos) {
                lines[c[0].file].insert(c[0].line);
                size_t sl = c[0].file.rfind('/');
                fns.insert(c[0].file.substr(sl + 1) + ":" + c[0].fn);
            }
        }
    FILE *o = fopen(optOut.c_str(), "w");
    if (!o) { perror(optOut.c_str()); return 3; }
    const char *status = sh->stop == 0 ? "ok" : sh->stop == 1 ? "violation" : "error";
    fprintf(o, "{\"status\":\"%s\",\"entry\":\"%s\",\"params\":[", status, optEntry.c_str());
    for (size_t i = 0; i < optParams.size(); i++) fprintf(o, "%s%llu", i ? "," : "", (unsigned long long)optParams[i]);
    fprintf(o, "],\n\"paths\":%lu,\"assumed_away\":%lu,\"instructions\":%lu,\"forks\":%lu,\"branches\":%lu,\"fd_decisions\":%lu,\"cross_checks\":%lu,\n", (u64)sh->paths, (u64)sh->assumedAway, (u64)sh->instrs, (u64)sh->forks, (u64)sh->branches, (u64)sh->fdDecisions, (u64)sh->crossChecks);
    fprintf(o, "\"z3_queries\":%lu,\"z3_sat\":%lu,\"z3_unsat\":%lu,\"z3_unknown\":%lu,\"z3_cache_hits\":%lu,\"z3_time\":%.3f,\"z3_max\":%.3f,\n", (u64)sh->zq, (u64)sh->zsat, (u64)sh->zunsat, (u64)sh->zunk, (u64)sh->zcache, sh->ztimeUs / 1e6, sh->zmaxUs / 1e6);
    fprintf(o, "\"asserts\":%lu,\"asserts_symbolic\":%lu,\"workers\":%lu,\"exprs\":%lu,\"concretized\":%lu,\"max_path_steps\":%lu,\"wall\":%.3f,\n", (u64)sh->asserts, (u64)sh->assertsProved, (u64)sh->workers, (u64)sh->exprs, (u64)sh->concretized, (u64)sh->maxPathSteps, nowS() - tStart);
    fprintf(o, "\"covers\":{");
    bool first = true;
    for (int i = 0; i < 256; i++)
        if (sh->cover[i]) { fprintf(o, "%s\"%d\":%lu", first ? "" : ",", i, (u64)sh->cover[i]); first = false; }
    fprintf(o, "},\n\"functions\":[");
    first = true;
    for (auto &x : fns) { fprintf(o, "%s\"%s\"", first ? "" : ",", jesc(x).c_str()); first = false; }
    fprintf(o, "],\n\"lines\":{");
    first = true;
    for (auto &x : lines) {
        fprintf(o, "%s\"%s\":[", first ? "" : ",", jesc(x.first).c_str());
        bool f2 = true;
        for (int l : x.second) { fprintf(o, "%s%d", f2 ? "" : ",", l); f2 = false; }
        fprintf(o, "]");
        first = false;
    }
    fprintf(o, "}");
    if (sh->stop) {
        fprintf(o, ",\n\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"bytes\":\"", sh->kind, jesc(sh->msg).c_str(), jesc(sh->where).c_str());
        for (int i = 0; i < sh->nbytes; i++) fprintf(o, "%02x", sh->bytes[i]);
        fprintf(o, "\"");
    }
    fprintf(o, "}\n");
    fclose(o);
    return sh->stop == 0 ? 0 : sh->stop == 1 ? 1 : 2;
}
