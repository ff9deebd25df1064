#include "solver.h"
#include <z3.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <algorithm>
#include <unordered_map>

SolverStats gSol = {};
static Z3_context ctx;
static Z3_solver sol;
static uint32_t gen = 0;
static int nlits = 0;
static std::vector<Z3_ast> lits;
static Z3_sort bvs[129];
static bool z3err = false;

static void onErr(Z3_context c, Z3_error_code e) {
    fprintf(stderr, "gsym: z3 error: %s\n", Z3_get_error_msg(c, e));
    z3err = true;
}
static void reset() {
    if (ctx) {
        Z3_solver_dec_ref(ctx, sol);
        Z3_del_context(ctx);
    }
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    ctx = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(ctx, onErr);
    sol = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_FD"));
    Z3_solver_inc_ref(ctx, sol);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "max_conflicts"), 3000000);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "threads"), 1);
    Z3_solver_set_params(ctx, sol, p);
    Z3_params_dec_ref(ctx, p);
    memset(bvs, 0, sizeof bvs);
    gen++;
    nlits = 0;
    lits.clear();
}
static Z3_sort bv(unsigned w) {
    if (!bvs[w]) bvs[w] = Z3_mk_bv_sort(ctx, w);
    return bvs[w];
}
static Z3_ast num(u128 c, unsigned w) {
    if (w <= 64) return Z3_mk_unsigned_int64(ctx, (u64)c, bv(w));
    return Z3_mk_concat(ctx, Z3_mk_unsigned_int64(ctx, (u64)(c >> 64), bv(w - 64)), Z3_mk_unsigned_int64(ctx, (u64)c, bv(64)));
}
static Z3_ast tr(Expr *e);
// as a bit-vector even if of width 1
static Z3_ast trb(Expr *e) {
    Z3_ast a = tr(e);
    if (e->w == 1) return Z3_mk_ite(ctx, a, num(1, 1), num(0, 1));
    return a;
}
// width-1 expressions are translated to booleans
static Z3_ast tr(Expr *e) {
    if (e->z3 && e->z3gen == gen) return (Z3_ast)e->z3;
    Z3_ast r = nullptr;
    bool b1 = e->w == 1;
    switch (e->op) {
    case X_CONST: r = b1 ? (e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : num(e->c, e->w); break;
    case X_VAR: {
        r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, e->off), bv(8));
        break;
    }
    case X_CONCAT: r = Z3_mk_concat(ctx, trb(e->k[0]), trb(e->k[1])); break;
    case X_EXTRACT:
        r = Z3_mk_extract(ctx, e->off + e->w - 1, e->off, trb(e->k[0]));
        if (b1) r = Z3_mk_eq(ctx, r, num(1, 1));
        break;
    case X_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->k[0]->w, trb(e->k[0])); break;
    case X_ADD: r = Z3_mk_bvadd(ctx, tr(e->k[0]), tr(e->k[1])); break;
    case X_SUB: r = Z3_mk_bvsub(ctx, tr(e->k[0]), tr(e->k[1])); break;
    case X_MUL: r = Z3_mk_bvmul(ctx, tr(e->k[0]), tr(e->k[1])); break;
    case X_UDIV: r = Z3_mk_bvudiv(ctx, tr(e->k[0]), tr(e->k[1])); break;
    case X_UREM: r = Z3_mk_bvurem(ctx, tr(e->k[0]), tr(e->k[1])); break;
    case X_SDIV: r = Z3_mk_bvsdiv(ctx, tr(e->k[0]), tr(e->k[1])); break;
    case X_SREM: r = Z3_mk_bvsrem(ctx, tr(e->k[0]), tr(e->k[1])); break;
    case X_AND: case X_OR: case X_XOR: {
        Z3_ast a[2] = {tr(e->k[0]), tr(e->k[1])};
        if (b1) r = e->op == X_AND ? Z3_mk_and(ctx, 2, a) : e->op == X_OR ? Z3_mk_or(ctx, 2, a) : Z3_mk_xor(ctx, a[0], a[1]);
        else r = e->op == X_AND ? Z3_mk_bvand(ctx, a[0], a[1]) : e->op == X_OR ? Z3_mk_bvor(ctx, a[0], a[1]) : Z3_mk_bvxor(ctx, a[0], a[1]);
        break;
    }
    case X_NOT: r = Z3_mk_not(ctx, tr(e->k[0])); break;
    case X_SHL: r = Z3_mk_bvshl(ctx, tr(e->k[0]), tr(e->k[1])); break;
    case X_LSHR: r = Z3_mk_bvlshr(ctx, tr(e->k[0]), tr(e->k[1])); break;
    case X_ASHR: r = Z3_mk_bvashr(ctx, tr(e->k[0]), tr(e->k[1])); break;
    case X_EQ: r = Z3_mk_eq(ctx, tr(e->k[0]), tr(e->k[1])); break;
    case X_ULT: r = Z3_mk_bvult(ctx, trb(e->k[0]), trb(e->k[1])); break;
    case X_SLT: r = Z3_mk_bvslt(ctx, trb(e->k[0]), trb(e->k[1])); break;
    case X_ITE: r = Z3_mk_ite(ctx, tr(e->k[0]), tr(e->k[1]), tr(e->k[2])); break;
    }
    e->z3 = r;
    e->z3gen = gen;
    return r;
}

struct Entry { int res; std::vector<uint8_t> vals; };
static std::unordered_map<u64, std::unordered_map<u64, Entry>> cache;
static size_t cacheN = 0;

static double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

int solve(const std::vector<Expr *> &cs0, const std::vector<int> &vars, uint8_t *model) {
    std::vector<Expr *> cs = cs0;
    std::sort(cs.begin(), cs.end(), [](Expr *a, Expr *b) { return a->id < b->id; });
    cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    u64 h1 = 1469598103934665603ull, h2 = 0x9E3779B97F4A7C15ull;
    for (Expr *e : cs) {
        h1 = (h1 ^ e->id) * 1099511628211ull;
        h2 = (h2 + e->id + 1) * 0xBF58476D1CE4E5B9ull;
        h2 ^= h2 >> 29;
    }
    auto &bucket = cache[h1];
    auto it = bucket.find(h2);
    if (it != bucket.end()) {
        gSol.cacheHits++;
        if (it->second.res == 1)
            for (size_t i = 0; i < vars.size(); i++) model[vars[i]] = it->second.vals[i];
        return it->second.res;
    }
    if (!ctx || nlits > 20000) {
        reset();
        if (cacheN > 300000) { cache.clear(); cacheN = 0; }
    }
    double t0 = now();
    std::vector<Z3_ast> as;
    for (Expr *e : cs) {
        if (e->lit < 0 || e->litgen != gen) {
            Z3_ast l = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, 1000000 + nlits), Z3_mk_bool_sort(ctx));
            e->lit = nlits++;
            e->litgen = gen;
            lits.push_back(l);
            Z3_solver_assert(ctx, sol, Z3_mk_implies(ctx, l, tr(e)));
        }
        as.push_back(lits[e->lit]);
    }
    Z3_lbool r = Z3_solver_check_assumptions(ctx, sol, as.size(), as.data());
    int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (z3err) res = -1;
    Entry en;
    en.res = res;
    if (res == 1) {
        Z3_model m = Z3_solver_get_model(ctx, sol);
        Z3_model_inc_ref(ctx, m);
        for (int v : vars) {
            Z3_ast c = tr(mkVar(v)), o = nullptr;
            unsigned val = 0;
            if (!Z3_model_eval(ctx, m, c, true, &o) || !Z3_get_numeral_uint(ctx, o, &val)) { res = en.res = -1; break; }
            en.vals.push_back((uint8_t)val);
        }
        Z3_model_dec_ref(ctx, m);
    }
    if (res == 1) {
        for (size_t i = 0; i < vars.size(); i++) model[vars[i]] = en.vals[i];
        // the model must satisfy the constraints
        u64 st = newStamp();
        for (Expr *e : cs)
            if (!evalExpr(e, model, st)) { fprintf(stderr, "gsym: z3 model does not satisfy constraint %s\n", exprStr(e).c_str()); res = en.res = -1; break; }
    }
    double dt = now() - t0;
    gSol.time += dt;
    if (dt > gSol.maxTime) gSol.maxTime = dt;
    gSol.queries++;
    if (res == 1) gSol.sat++;
    else if (res == 0) gSol.unsat++;
    else gSol.unknown++;
    if (res >= 0) { cache[h1][h2] = en; cacheN++; }
    return res;
}
