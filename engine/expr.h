// Hash-consed bit-vector expressions over input bytes.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <unordered_map>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;

enum Op : uint8_t {
    X_CONST, X_VAR, X_CONCAT, X_EXTRACT, X_SEXT,
    X_ADD, X_SUB, X_MUL, X_UDIV, X_UREM, X_SDIV, X_SREM,
    X_AND, X_OR, X_XOR, X_NOT /* width 1 only */,
    X_SHL, X_LSHR, X_ASHR,
    X_EQ, X_ULT, X_SLT, X_ITE
};

// Interned set of variables an expression depends on.
struct Sup {
    std::vector<int> v; // sorted
    int id;
};

struct Dom { u64 w[4]; }; // set of byte values

struct Expr {
    Op op;
    uint8_t cleaf; // ITE tree with constant leaves only
    uint16_t w;
    uint32_t off; // EXTRACT offset, VAR index
    uint32_t id;
    uint32_t hash;
    Expr *k[3];
    u128 c;
    u64 lo, hi; // unsigned range (width <= 64)
    Sup *sup;
    // evaluation memo
    u64 stamp;
    u128 val;
    // solver memo
    void *z3;
    uint32_t z3gen;
    int32_t lit; // assumption literal index, -1 none
    uint32_t litgen;
    Dom *tt; // truth table (width 1, one variable)
    int nk() const {
        switch (op) {
        case X_CONST: case X_VAR: return 0;
        case X_EXTRACT: case X_SEXT: case X_NOT: return 1;
        case X_ITE: return 3;
        default: return 2;
        }
    }
    bool isC() const { return op == X_CONST; }
};

extern int gNumExpr;
static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1) << w) - 1; }

Expr *mkConst(u128 v, unsigned w);
Expr *mkVar(int idx);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkExtract(Expr *e, unsigned off, unsigned w);
Expr *mkZExt(Expr *e, unsigned w);
Expr *mkSExt(Expr *e, unsigned w);
Expr *mkAdd(Expr *a, Expr *b);
Expr *mkSub(Expr *a, Expr *b);
Expr *mkMul(Expr *a, Expr *b);
Expr *mkUDiv(Expr *a, Expr *b);
Expr *mkURem(Expr *a, Expr *b);
Expr *mkSDiv(Expr *a, Expr *b);
Expr *mkSRem(Expr *a, Expr *b);
Expr *mkAnd(Expr *a, Expr *b);
Expr *mkOr(Expr *a, Expr *b);
Expr *mkXor(Expr *a, Expr *b);
Expr *mkNot(Expr *a);
Expr *mkShl(Expr *a, Expr *b);
Expr *mkLShr(Expr *a, Expr *b);
Expr *mkAShr(Expr *a, Expr *b);
Expr *mkEq(Expr *a, Expr *b);
Expr *mkUlt(Expr *a, Expr *b);
Expr *mkSlt(Expr *a, Expr *b);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
static inline Expr *mkUle(Expr *a, Expr *b) { return mkNot(mkUlt(b, a)); }
static inline Expr *mkSle(Expr *a, Expr *b) { return mkNot(mkSlt(b, a)); }

// Evaluate under an assignment. `stamp` must be unique per assignment.
u128 evalExpr(Expr *e, const uint8_t *model, u64 stamp);
u64 newStamp();
// Truth table over its single variable of a width-1 expression.
Dom *truthTable(Expr *e);
Sup *supUnion(Sup *a, Sup *b);
unsigned trailingZeros(Expr *e);
std::string exprStr(Expr *e, int depth = 6);
