// Parsed form of a textual LLVM IR module.
#pragma once
#include "expr.h"
#include <string>
#include <vector>
#include <unordered_map>

enum TKind : uint8_t { T_VOID, T_INT, T_PTR, T_FLOAT, T_ARRAY, T_STRUCT, T_VECTOR, T_OTHER };
struct Type {
    TKind k;
    unsigned w = 0; // bits of a scalar
    u64 n = 0;      // array / vector length
    std::vector<Type *> el;
    bool packed = false;
    u64 size = 0, align = 1;
    std::vector<u64> offs;              // struct field offsets
    std::vector<std::pair<u64, unsigned>> leaves; // (byte offset, bits), only if small
    unsigned slots = 0;
    bool scalar() const { return k == T_INT || k == T_PTR || k == T_FLOAT; }
};

// A register or constant, flattened to leaves.
struct Opnd {
    int slot = -1;  // >= 0: first register slot
    int cidx = -1;  // else index of first leaf in Function::consts
};

struct CV { u64 c; Expr *e; }; // value of a leaf; e != null if symbolic or wider than 64 bits

enum IOp : uint8_t {
    I_NOP, I_UNSUP,
    I_ADD, I_SUB, I_MUL, I_UDIV, I_UREM, I_SDIV, I_SREM, I_AND, I_OR, I_XOR, I_SHL, I_LSHR, I_ASHR,
    I_ICMP, I_ZEXT, I_SEXT, I_TRUNC, I_COPY, I_RESHAPE, I_SELECT, I_GEP, I_LOAD, I_STORE, I_ALLOCA,
    I_BR, I_CBR, I_SWITCH, I_RET, I_UNREACHABLE, I_CALL, I_EXTRACTV, I_INSERTV,
    I_ATOMICRMW, I_CMPXCHG, I_INSERTEL, I_EXTRACTEL, I_SHUFFLE,
    I_FADD, I_FSUB, I_FMUL, I_FDIV, I_FNEG, I_FCMP, I_UITOFP, I_SITOFP, I_FPTOUI, I_FPTOSI, I_FPEXT, I_FPTRUNC
};
enum Pred : uint8_t { P_EQ, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE };

struct Function;
struct Inst {
    IOp op = I_NOP;
    uint8_t pred = 0;
    uint8_t flags = 0;  // 1: switch/br invoke continuation
    uint16_t w = 0;     // operand width
    uint16_t dw = 0;    // result width
    uint32_t lanes = 1;
    int dst = -1;
    uint32_t dslots = 0;
    uint32_t aux = 0, aux2 = 0; // extractvalue slot offset etc, block targets
    uint32_t dbg = 0;
    Opnd a, b, c;
    Type *ty = nullptr;
    Function *callee = nullptr;
    std::vector<Opnd> args;
    std::vector<Type *> argt;
    std::vector<std::pair<Opnd, u64>> gidx; // GEP: index and scale
    std::vector<uint16_t> gw;               // GEP: width of index
    i64 goff = 0;
    std::vector<std::pair<u128, uint32_t>> cases;
    std::vector<int> mask;
    std::string text;
};
struct Phi {
    int dst;
    uint32_t n;
    std::vector<std::pair<uint32_t, Opnd>> in;
};
struct Block {
    std::string name;
    std::vector<Phi> phis;
    std::vector<Inst> insts;
};
struct Function {
    std::string name;
    bool defined = false, parsed = false, noreturn = false;
    size_t bodyPos = 0, headPos = 0;
    int idx = 0;
    int intr = 0; // 0: not yet classified, -1: ordinary
    Type *ret = nullptr;
    std::vector<int> argSlot;
    std::vector<Type *> argTy;
    std::vector<Block> blocks;
    std::vector<CV> consts;
    unsigned nslots = 0;
    u64 calls = 0;
};
struct Global {
    std::string name;
    u64 addr = 0;
    Type *ty = nullptr;
    bool constant = false, external = false;
    size_t initPos = 0;
    u64 align = 1;
    std::vector<uint8_t> data;
};

struct Module {
    std::string src;
    std::vector<Function *> funcs;
    std::unordered_map<std::string, Function *> fmap;
    std::vector<Global *> globals;
    std::unordered_map<std::string, Global *> gmap;
    std::unordered_map<std::string, size_t> typeDefs;
    std::unordered_map<std::string, Type *> namedTypes;
    std::unordered_map<int, bool> attrNoret;
    std::vector<size_t> mdPos; // metadata id -> position of its text
    void load(const char *path);
    void parseBody(Function *f);
    Function *funcAt(u64 addr);
    u64 relValue(uint32_t code);
};
static const u64 FUNC_BASE = 0x7F00000000000000ull;
static inline u64 objAddr(u64 id) { return id << 32; }
// Describe a debug location: innermost first.
struct Loc { std::string file, fn; int line; };
std::vector<Loc> locChain(Module &m, uint32_t md);
