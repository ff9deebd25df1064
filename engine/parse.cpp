#include "ir.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <functional>

[[noreturn]] static void die(const std::string &m) {
    fprintf(stderr, "gsym: parse: %s\n", m.c_str());
    exit(3);
}

struct Unsup { std::string what; };

enum Tok : uint8_t { K_END, K_WORD, K_LOCAL, K_GLOBAL, K_INT, K_FP, K_STR, K_META, K_ATTR, K_PUNCT };

struct Lexer {
    const char *p, *end;
    Tok k = K_END;
    std::string s; // text or name
    char ch = 0;
    bool neg = false;
    u128 v = 0;
    const char *start = nullptr;
    Lexer(const char *a, const char *e) : p(a), end(e) { next(); }
    static bool idc(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.' || c == '$' || c == '-'; }
    void skipWs() {
        while (p < end) {
            if (*p == ';') { while (p < end && *p != '\n') p++; }
            else if (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') p++;
            else break;
        }
    }
    void quoted() {
        s.clear();
        p++;
        while (p < end && *p != '"') {
            if (*p == '\\' && isxdigit(p[1]) && isxdigit(p[2])) {
                char b[3] = {p[1], p[2], 0};
                s.push_back((char)strtol(b, nullptr, 16));
                p += 3;
            } else if (*p == '\\' && p[1] == '\\') {
                s.push_back('\\');
                p += 2;
            } else s.push_back(*p++);
        }
        p++;
    }
    void next() {
        skipWs();
        start = p;
        if (p >= end) { k = K_END; return; }
        char c = *p;
        if (c == '%' || c == '@') {
            k = c == '%' ? K_LOCAL : K_GLOBAL;
            p++;
            if (*p == '"') quoted();
            else { const char *q = p; while (p < end && idc(*p)) p++; s.assign(q, p - q); }
            return;
        }
        if (c == '#') {
            p++;
            const char *q = p;
            while (p < end && idc(*p)) p++;
            s.assign(q, p - q);
            k = K_ATTR;
            return;
        }
        if (c == '!') {
            p++;
            const char *q = p;
            while (p < end && (idc(*p))) p++;
            s.assign(q, p - q);
            k = K_META;
            return;
        }
        if (c == '"') { quoted(); k = K_STR; return; }
        if (c == 'c' && p[1] == '"') { p++; quoted(); k = K_STR; return; }
        if (isdigit(c) || (c == '-' && isdigit(p[1]))) {
            const char *q = p;
            neg = c == '-';
            if (neg) p++;
            v = 0;
            if (*p == '0' && (p[1] == 'x')) {
                p += 2;
                if (*p == 'K' || *p == 'H' || *p == 'L' || *p == 'M' || *p == 'R') p++;
                while (isxdigit(*p)) { v = v * 16 + (isdigit(*p) ? *p - '0' : (tolower(*p) - 'a' + 10)); p++; }
                k = K_FP;
                s.assign(q, p - q);
                return;
            }
            while (isdigit(*p)) { v = v * 10 + (*p - '0'); p++; }
            if (*p == '.' || *p == 'e') {
                while (isalnum(*p) || *p == '.' || *p == '+' || *p == '-') p++;
                k = K_FP;
                s.assign(q, p - q);
                double d = strtod(s.c_str(), nullptr);
                u64 b;
                memcpy(&b, &d, 8);
                v = b;
                neg = false;
                return;
            }
            if (idc(*p) && *p != '-') { // label like 12abc (does not happen)
            }
            if (neg) v = (u128)0 - v;
            k = K_INT;
            s.assign(q, p - q);
            return;
        }
        if (isalpha(c) || c == '_' || c == '$' || c == '.') {
            const char *q = p;
            while (p < end && idc(*p)) p++;
            s.assign(q, p - q);
            k = K_WORD;
            return;
        }
        k = K_PUNCT;
        ch = c;
        p++;
        if (c == '.' && p[0] == '.' && p[1] == '.') p += 2;
    }
    bool is(char c) const { return k == K_PUNCT && ch == c; }
    bool isw(const char *w) const { return k == K_WORD && s == w; }
    void expect(char c) {
        if (!is(c)) throw Unsup{std::string("expected ") + c + " at: " + std::string(start, std::min<size_t>(60, end - start))};
        next();
    }
    bool acc(char c) { if (is(c)) { next(); return true; } return false; }
    bool accw(const char *w) { if (isw(w)) { next(); return true; } return false; }
    void skipParens() { // at '('
        int d = 0;
        do {
            if (is('(')) d++;
            else if (is(')')) d--;
            else if (k == K_END) throw Unsup{"unbalanced"};
            next();
        } while (d);
    }
};

static std::map<std::string, Type *> typeIntern;
static Module *M;

static void layout(Type *t) {
    switch (t->k) {
    case T_INT:
        t->size = (t->w + 7) / 8;
        t->align = t->w <= 8 ? 1 : t->w <= 16 ? 2 : t->w <= 32 ? 4 : t->w <= 64 ? 8 : 16;
        t->size = (t->size + t->align - 1) / t->align * t->align;
        t->slots = 1;
        t->leaves = {{0, t->w}};
        break;
    case T_PTR: t->size = t->align = 8; t->w = 64; t->slots = 1; t->leaves = {{0, 64}}; break;
    case T_FLOAT: t->size = t->align = t->w / 8; t->slots = 1; t->leaves = {{0, t->w}}; break;
    case T_ARRAY: case T_VECTOR: {
        Type *e = t->el[0];
        t->size = e->size * t->n;
        t->align = t->k == T_VECTOR ? std::max<u64>(1, t->size) : e->align;
        u64 tot = (u64)e->slots * t->n;
        t->slots = tot <= 4096 ? (unsigned)tot : 0;
        if (t->slots)
            for (u64 i = 0; i < t->n; i++)
                for (auto &l : e->leaves) t->leaves.push_back({i * e->size + l.first, l.second});
        break;
    }
    case T_STRUCT: {
        u64 o = 0, al = 1;
        u64 tot = 0;
        for (Type *e : t->el) {
            u64 a = t->packed ? 1 : e->align;
            o = (o + a - 1) / a * a;
            t->offs.push_back(o);
            o += e->size;
            al = std::max(al, a);
            tot += e->slots;
        }
        t->align = al;
        t->size = (o + al - 1) / al * al;
        t->slots = tot <= 4096 ? (unsigned)tot : 0;
        if (t->slots)
            for (size_t i = 0; i < t->el.size(); i++)
                for (auto &l : t->el[i]->leaves) t->leaves.push_back({t->offs[i] + l.first, l.second});
        break;
    }
    default: break;
    }
}
static Type *intern(const std::string &key, std::function<Type *()> f) {
    auto it = typeIntern.find(key);
    if (it != typeIntern.end()) return it->second;
    Type *t = f();
    layout(t);
    typeIntern[key] = t;
    return t;
}
static Type *intT(unsigned w) {
    return intern("i" + std::to_string(w), [=] { Type *t = new Type{T_INT}; t->w = w; return t; });
}
static Type *ptrT() { return intern("ptr", [] { return new Type{T_PTR}; }); }

static bool isTypeWord(const std::string &s) {
    if (s == "ptr" || s == "void" || s == "float" || s == "double" || s == "half" || s == "label" || s == "metadata" || s == "token" || s == "x86_fp80" || s == "fp128") return true;
    if (s.size() > 1 && s[0] == 'i') {
        for (size_t i = 1; i < s.size(); i++) if (!isdigit(s[i])) return false;
        return true;
    }
    return false;
}

static Type *parseType(Lexer &L) {
    Type *r = nullptr;
    if (L.k == K_WORD) {
        const std::string &s = L.s;
        if (s == "ptr") {
            r = ptrT();
            L.next();
            if (L.isw("addrspace")) { L.next(); L.skipParens(); }
            return r;
        }
        if (s == "void") r = intern("void", [] { return new Type{T_VOID}; });
        else if (s == "float") r = intern("float", [] { Type *t = new Type{T_FLOAT}; t->w = 32; return t; });
        else if (s == "double") r = intern("double", [] { Type *t = new Type{T_FLOAT}; t->w = 64; return t; });
        else if (s == "label" || s == "metadata" || s == "token") r = intern(s, [] { return new Type{T_OTHER}; });
        else if (s[0] == 'i' && isTypeWord(s)) r = intT(atoi(s.c_str() + 1));
        else throw Unsup{"type " + s};
        L.next();
        return r;
    }
    if (L.k == K_LOCAL) {
        auto it = M->namedTypes.find(L.s);
        if (it != M->namedTypes.end()) { L.next(); return it->second; }
        auto d = M->typeDefs.find(L.s);
        if (d == M->typeDefs.end()) throw Unsup{"named type " + L.s};
        std::string nm = L.s;
        Lexer L2(M->src.data() + d->second, M->src.data() + M->src.size());
        Type *t = L2.isw("opaque") ? intern("opaque", [] { return new Type{T_OTHER}; }) : parseType(L2);
        M->namedTypes[nm] = t;
        L.next();
        return t;
    }
    if (L.is('[')) {
        L.next();
        u64 n = (u64)L.v;
        L.next();
        if (!L.accw("x")) throw Unsup{"array type"};
        Type *e = parseType(L);
        L.expect(']');
        char key[64];
        snprintf(key, 64, "[%llu %p", (unsigned long long)n, (void *)e);
        return intern(key, [=] { Type *t = new Type{T_ARRAY}; t->n = n; t->el = {e}; return t; });
    }
    bool packed = false;
    if (L.is('<')) {
        L.next();
        if (L.is('{')) packed = true;
        else {
            u64 n = (u64)L.v;
            L.next();
            if (!L.accw("x")) throw Unsup{"vector type"};
            Type *e = parseType(L);
            L.expect('>');
            char key[64];
            snprintf(key, 64, "<%llu %p", (unsigned long long)n, (void *)e);
            return intern(key, [=] { Type *t = new Type{T_VECTOR}; t->n = n; t->el = {e}; return t; });
        }
    }
    if (L.is('{')) {
        L.next();
        std::vector<Type *> el;
        if (!L.is('}'))
            do el.push_back(parseType(L)); while (L.acc(','));
        L.expect('}');
        if (packed) L.expect('>');
        std::string key = packed ? "<{" : "{";
        for (Type *t : el) { char b[32]; snprintf(b, 32, "%p,", (void *)t); key += b; }
        return intern(key, [=] { Type *t = new Type{T_STRUCT}; t->el = el; t->packed = packed; return t; });
    }
    throw Unsup{"type at " + std::string(L.start, std::min<size_t>(40, L.end - L.start))};
}

// ---- constants ----
static u64 symAddr(const std::string &n) {
    auto g = M->gmap.find(n);
    if (g != M->gmap.end()) return g->second->addr;
    auto f = M->fmap.find(n);
    if (f != M->fmap.end()) return FUNC_BASE + 16 * (u64)f->second->idx;
    throw Unsup{"unknown symbol @" + n};
}

static void parseConst(Lexer &L, Type *t, std::vector<CV> &out);

// Distances between objects do not fit in 32 bits here: numbers for them
static const uint32_t REL_BASE = 0x70000000;
static std::vector<u64> relDist;
static u64 relCode(u64 v) {
    relDist.push_back(v);
    return REL_BASE + relDist.size() - 1;
}
u64 Module::relValue(uint32_t code) {
    if (code >= REL_BASE && code - REL_BASE < relDist.size()) return relDist[code - REL_BASE];
    return (u64)(i64)(int32_t)code;
}

static u64 constInt(Lexer &L, Type *t) {
    std::vector<CV> o;
    parseConst(L, t, o);
    if (o.size() != 1 || (o[0].e && !o[0].e->isC())) throw Unsup{"const expr"};
    return o[0].e ? (u64)o[0].e->c : o[0].c;
}
static void parseGepTail(Lexer &L, Type *srcT, bool constant, u64 &base, std::vector<std::pair<Type *, u64>> *) {
    // constant GEP indices after base
    Type *cur = srcT;
    bool first = true;
    while (L.acc(',')) {
        L.accw("inrange");
        Type *it = parseType(L);
        i64 v = (i64)constInt(L, it);
        if (it->w < 64) v = (i64)(v << (64 - it->w)) >> (64 - it->w);
        if (first) { base += v * (i64)cur->size; first = false; }
        else if (cur->k == T_STRUCT) { base += cur->offs[v]; cur = cur->el[v]; }
        else { cur = cur->el[0]; base += v * (i64)cur->size; }
    }
    (void)constant;
}
static void zeroLeaves(Type *t, std::vector<CV> &out) {
    if (!t->slots && t->k != T_STRUCT && !(t->k == T_ARRAY && !t->n)) throw Unsup{"large constant"};
    for (auto &l : t->leaves) out.push_back({0, l.second > 64 ? mkConst(0, l.second) : nullptr});
}
static void pushInt(u128 v, unsigned w, std::vector<CV> &out) {
    v &= maskw(w);
    if (w > 64) out.push_back({0, mkConst(v, w)});
    else out.push_back({(u64)v, nullptr});
}
static void parseConst(Lexer &L, Type *t, std::vector<CV> &out) {
    if (L.k == K_INT) { pushInt(L.v, t->w, out); L.next(); return; }
    if (L.k == K_FP) {
        if (t->w == 32) { // float constants are written as doubles
            u64 b = (u64)L.v;
            double d;
            memcpy(&d, &b, 8);
            float f = (float)d;
            uint32_t fb;
            memcpy(&fb, &f, 4);
            out.push_back({fb, nullptr});
        } else out.push_back({(u64)L.v, nullptr});
        L.next();
        return;
    }
    if (L.k == K_GLOBAL) { out.push_back({symAddr(L.s), nullptr}); L.next(); return; }
    if (L.k == K_STR) {
        for (unsigned char c : L.s) out.push_back({c, nullptr});
        L.next();
        return;
    }
    if (L.k == K_WORD) {
        std::string s = L.s;
        if (s == "true" || s == "false") { out.push_back({s == "true", nullptr}); L.next(); return; }
        if (s == "null" || s == "undef" || s == "poison" || s == "zeroinitializer" || s == "none") { zeroLeaves(t, out); L.next(); return; }
        if (s == "splat") {
            L.next();
            L.expect('(');
            Type *e = parseType(L);
            std::vector<CV> o;
            parseConst(L, e, o);
            L.expect(')');
            for (u64 i = 0; i < t->n; i++) out.insert(out.end(), o.begin(), o.end());
            return;
        }
        if (s == "inttoptr" || s == "ptrtoint" || s == "bitcast" || s == "trunc" || s == "zext" || s == "addrspacecast" || s == "ptrtoaddr") {
            L.next();
            L.expect('(');
            Type *ft = parseType(L);
            u64 v = constInt(L, ft);
            if (!L.accw("to")) throw Unsup{"const cast"};
            Type *tt = parseType(L);
            L.expect(')');
            // distance of objects, which only load.relative may use
            if (s == "trunc" && tt->w == 32 && (i64)v != (i64)(int32_t)v) v = relCode(v);
            pushInt(v, tt->w, out);
            return;
        }
        if (s == "getelementptr") {
            L.next();
            while (L.k == K_WORD && !isTypeWord(L.s)) { L.next(); if (L.is('(')&&0) L.skipParens(); }
            L.expect('(');
            Type *st = parseType(L);
            L.expect(',');
            Type *pt = parseType(L);
            u64 b = constInt(L, pt);
            parseGepTail(L, st, true, b, nullptr);
            L.expect(')');
            out.push_back({b, nullptr});
            return;
        }
        if (s == "sub" || s == "add" || s == "xor" || s == "mul") {
            L.next();
            while (L.k == K_WORD && !isTypeWord(L.s)) L.next();
            L.expect('(');
            Type *at = parseType(L);
            u64 a = constInt(L, at);
            L.expect(',');
            Type *bt = parseType(L);
            u64 b = constInt(L, bt);
            L.expect(')');
            pushInt(s == "sub" ? a - b : s == "add" ? a + b : s == "xor" ? a ^ b : a * b, t->w, out);
            return;
        }
        throw Unsup{"constant " + s};
    }
    if (L.is('[') || L.is('{') || L.is('<')) {
        bool pk = false;
        char close = L.is('[') ? ']' : L.is('{') ? '}' : '>';
        L.next();
        if (close == '>' && L.is('{')) { pk = true; close = '}'; L.next(); }
        if (!L.is(close))
            do {
                Type *e = parseType(L);
                parseConst(L, e, out);
            } while (L.acc(','));
        L.expect(close);
        if (pk) L.expect('>');
        return;
    }
    throw Unsup{"constant at " + std::string(L.start, std::min<size_t>(40, L.end - L.start))};
}

// Initializer straight into bytes (for large globals).
static void initBytes(Lexer &L, Type *t, uint8_t *out) {
    if (L.isw("zeroinitializer") || L.isw("undef") || L.isw("poison") || L.isw("null")) { L.next(); return; }
    if (t->k == T_ARRAY || t->k == T_VECTOR) {
        if (L.k == K_STR) { memcpy(out, L.s.data(), std::min<u64>(L.s.size(), t->size)); L.next(); return; }
        bool v = L.is('<');
        L.next();
        u64 i = 0;
        if (!L.is(']'))
            do {
                Type *e = parseType(L);
                initBytes(L, e, out + i * e->size);
                i++;
            } while (L.acc(','));
        L.expect(v ? '>' : ']');
        return;
    }
    if (t->k == T_STRUCT) {
        if (t->packed) L.expect('<');
        L.expect('{');
        size_t i = 0;
        if (!L.is('}'))
            do {
                Type *e = parseType(L);
                initBytes(L, e, out + t->offs[i]);
                i++;
            } while (L.acc(','));
        L.expect('}');
        if (t->packed) L.expect('>');
        return;
    }
    std::vector<CV> o;
    parseConst(L, t, o);
    u128 v = o[0].e ? o[0].e->c : o[0].c;
    for (u64 i = 0; i < (t->w + 7) / 8; i++) out[i] = (uint8_t)(v >> (8 * i));
}

// ---- module ----
void Module::load(const char *path) {
    M = this;
    FILE *f = fopen(path, "rb");
    if (!f) die(std::string("cannot open ") + path);
    fseek(f, 0, SEEK_END);
    long n = ftell(f);
    fseek(f, 0, SEEK_SET);
    src.resize(n);
    if (fread(&src[0], 1, n, f) != (size_t)n) die("read");
    fclose(f);
    const char *b = src.data(), *e = b + n;
    const char *p = b;
    std::vector<std::pair<Function *, int>> fattr;
    while (p < e) {
        const char *nl = (const char *)memchr(p, '\n', e - p);
        if (!nl) nl = e;
        if (*p == '@') {
            Lexer L(p, nl);
            Global *g = new Global;
            g->name = L.s;
            L.next();
            L.expect('=');
            bool alias = false;
            for (;;) {
                if (L.isw("global")) { L.next(); break; }
                if (L.isw("constant")) { g->constant = true; L.next(); break; }
                if (L.isw("alias") || L.isw("ifunc")) { alias = true; break; }
                if (L.isw("external") || L.isw("extern_weak")) g->external = true;
                if (L.k == K_END) die("global " + g->name);
                L.next();
                if (L.is('(')) L.skipParens();
            }
            if (!alias) {
                g->initPos = L.start - b;
                globals.push_back(g);
                gmap[g->name] = g;
            }
        } else if (!strncmp(p, "define ", 7) || !strncmp(p, "declare ", 8)) {
            Function *fn = new Function;
            fn->defined = p[2] == 'f';
            const char *q = p;
            Lexer L(p, nl);
            while (L.k != K_GLOBAL && L.k != K_END) L.next();
            fn->name = L.s;
            fn->headPos = p - b;
            fn->idx = funcs.size();
            funcs.push_back(fn);
            fmap[fn->name] = fn;
            // attribute group after the parameter list
            const char *h = nl;
            while (h > q && *h != ')') h--;
            for (const char *z = h; z < nl; z++)
                if (*z == '#' && isdigit(z[1])) { fattr.push_back({fn, atoi(z + 1)}); break; }
            if (fn->defined) {
                fn->bodyPos = nl + 1 - b;
                const char *c = nl;
                while (!(c[0] == '\n' && c[1] == '}')) c++;
                p = c + 2;
                continue;
            }
        } else if (*p == '%') {
            Lexer L(p, nl);
            std::string nm = L.s;
            L.next();
            L.expect('=');
            L.next(); // type
            typeDefs[nm] = L.start - b;
        } else if (!strncmp(p, "attributes #", 12)) {
            int id = atoi(p + 12);
            std::string s(p, nl - p);
            attrNoret[id] = s.find(" noreturn ") != std::string::npos;
        } else if (*p == '!' && isdigit(p[1])) {
            size_t id = strtoul(p + 1, nullptr, 10);
            if (mdPos.size() <= id) mdPos.resize(id + 1000, 0);
            mdPos[id] = p - b;
        }
        p = nl + 1;
    }
    for (auto &fa : fattr) fa.first->noreturn = attrNoret[fa.second];
    // assign addresses, then initializers
    u64 id = 1;
    for (Global *g : globals) g->addr = objAddr(id++);
    for (Global *g : globals) {
        try {
            const char *nl = (const char *)memchr(b + g->initPos, '\n', n - g->initPos);
            Lexer L(b + g->initPos, nl ? nl : e);
            g->ty = parseType(L);
            g->data.assign(g->ty->size, 0);
            if (!g->external && L.k != K_END && !L.is(',')) initBytes(L, g->ty, g->data.data());
        } catch (Unsup &u) {
            die("global " + g->name + ": " + u.what);
        }
    }
}

Function *Module::funcAt(u64 a) {
    if (a < FUNC_BASE) return nullptr;
    u64 i = (a - FUNC_BASE) / 16;
    return i < funcs.size() && (a - FUNC_BASE) % 16 == 0 ? funcs[i] : nullptr;
}

struct BodyParser {
    Function *f;
    std::unordered_map<std::string, std::pair<int, Type *>> regs;
    std::unordered_map<std::string, uint32_t> bbs;
    struct Fix { size_t blk; size_t phi; };

    int newReg(const std::string &n, Type *t) {
        int s = f->nslots;
        unsigned k = t->slots ? t->slots : 1;
        if (t->k == T_STRUCT && t->el.empty()) k = 1;
        f->nslots += k;
        regs[n] = {s, t};
        return s;
    }
    // Registers may be used before their definition (phis, block order).
    int regSlot(const std::string &n, Type *t) {
        auto it = regs.find(n);
        if (it != regs.end()) return it->second.first;
        return newReg(n, t);
    }
    uint32_t bb(const std::string &n) {
        auto it = bbs.find(n);
        if (it == bbs.end()) throw Unsup{"block " + n};
        return it->second;
    }
    Opnd value(Lexer &L, Type *t) {
        Opnd o;
        if (L.k == K_LOCAL) { o.slot = regSlot(L.s, t); L.next(); return o; }
        o.cidx = f->consts.size();
        std::vector<CV> c;
        parseConst(L, t, c);
        f->consts.insert(f->consts.end(), c.begin(), c.end());
        return o;
    }
    uint32_t label(Lexer &L) {
        if (!L.accw("label")) throw Unsup{"label"};
        uint32_t r = bb(L.s);
        L.next();
        return r;
    }
    static void skipAttrs(Lexer &L) { // parameter / return attributes
        while (L.k == K_WORD && !isTypeWord(L.s)) {
            if (L.s == "true" || L.s == "false" || L.s == "null" || L.s == "undef" || L.s == "poison" || L.s == "zeroinitializer" || L.s == "none" ||
                L.s == "inttoptr" || L.s == "ptrtoint" || L.s == "getelementptr" || L.s == "bitcast" || L.s == "splat" || L.s == "asm" || L.s == "sub" || L.s == "trunc" || L.s == "add") return;
            bool al = L.s == "align";
            L.next();
            if (al && L.k == K_INT) L.next();
            else if (L.is('(')) L.skipParens();
        }
    }
    void dst(Inst &I, const std::string &n, Type *t) {
        I.dst = regSlot(n, t);
        I.dslots = t->slots;
        I.dw = t->k == T_VECTOR ? t->el[0]->w : t->w;
    }
    void parseInst(Lexer &L, Block &B);
};

static const std::map<std::string, IOp> binops = {
    {"add", I_ADD}, {"sub", I_SUB}, {"mul", I_MUL}, {"udiv", I_UDIV}, {"urem", I_UREM}, {"sdiv", I_SDIV}, {"srem", I_SREM},
    {"and", I_AND}, {"or", I_OR}, {"xor", I_XOR}, {"shl", I_SHL}, {"lshr", I_LSHR}, {"ashr", I_ASHR},
    {"fadd", I_FADD}, {"fsub", I_FSUB}, {"fmul", I_FMUL}, {"fdiv", I_FDIV}};
static const std::map<std::string, IOp> casts = {
    {"zext", I_ZEXT}, {"sext", I_SEXT}, {"trunc", I_TRUNC}, {"bitcast", I_COPY}, {"ptrtoint", I_ZEXT}, {"ptrtoaddr", I_ZEXT}, {"inttoptr", I_ZEXT}, {"addrspacecast", I_COPY},
    {"uitofp", I_UITOFP}, {"sitofp", I_SITOFP}, {"fptoui", I_FPTOUI}, {"fptosi", I_FPTOSI}, {"fpext", I_FPEXT}, {"fptrunc", I_FPTRUNC}};
static const std::map<std::string, int> preds = {{"eq", P_EQ}, {"ne", P_NE}, {"ugt", P_UGT}, {"uge", P_UGE}, {"ult", P_ULT}, {"ule", P_ULE}, {"sgt", P_SGT}, {"sge", P_SGE}, {"slt", P_SLT}, {"sle", P_SLE}};

static unsigned elW(Type *t) { return t->k == T_VECTOR ? t->el[0]->w : t->w; }
static unsigned nLanes(Type *t) { return t->k == T_VECTOR ? (unsigned)t->n : 1; }
static unsigned aggSlot(Type *t, Lexer &L, Type *&res) {
    unsigned s = 0;
    while (L.acc(',')) {
        if (L.k != K_INT) break;
        u64 i = (u64)L.v;
        L.next();
        if (t->k == T_STRUCT) {
            for (u64 j = 0; j < i; j++) s += t->el[j]->slots;
            t = t->el[i];
        } else { t = t->el[0]; s += t->slots * i; }
    }
    res = t;
    return s;
}

void BodyParser::parseInst(Lexer &L, Block &B) {
    std::string res;
    const char *st = L.start;
    if (L.k == K_LOCAL) {
        res = L.s;
        L.next();
        L.expect('=');
    }
    std::string op = L.s;
    if (op == "tail" || op == "musttail" || op == "notail") { L.next(); op = L.s; }
    L.next();
    Inst I;
    auto finish = [&]() { B.insts.push_back(std::move(I)); };
    auto bi = binops.find(op);
    if (bi != binops.end()) {
        while (L.k == K_WORD && !isTypeWord(L.s)) L.next();
        Type *t = parseType(L);
        I.op = bi->second;
        I.w = elW(t);
        I.lanes = nLanes(t);
        I.a = value(L, t);
        L.expect(',');
        I.b = value(L, t);
        dst(I, res, t);
        finish();
        return;
    }
    auto ci = casts.find(op);
    if (ci != casts.end()) {
        while (L.k == K_WORD && !isTypeWord(L.s)) L.next();
        Type *t = parseType(L);
        I.op = ci->second;
        I.w = elW(t);
        I.lanes = nLanes(t);
        I.a = value(L, t);
        if (!L.accw("to")) throw Unsup{"cast"};
        Type *tt = parseType(L);
        if (op == "bitcast" && (t->slots != tt->slots || elW(t) != elW(tt))) {
            if (t->slots * elW(t) != tt->slots * elW(tt)) throw Unsup{"bitcast between shapes"};
            I.op = I_RESHAPE;
            I.lanes = t->slots;
        }
        dst(I, res, tt);
        if (I.op == I_ZEXT && elW(tt) == I.w) I.op = I_COPY;
        if (I.op == I_COPY) I.lanes = t->slots;
        finish();
        return;
    }
    if (op == "icmp" || op == "fcmp") {
        while (L.k == K_WORD && (op == "fcmp" ? isTypeWord(L.s) == false && false : L.s == "samesign")) L.next();
        if (op == "fcmp") {
            static const char *fp[] = {"false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno", "true"};
            for (;;) {
                bool found = false;
                for (int i = 0; i < 16; i++) if (L.s == fp[i]) { I.pred = i; found = true; }
                L.next();
                if (found) break;
            }
            I.op = I_FCMP;
        } else {
            I.pred = preds.at(L.s);
            L.next();
            I.op = I_ICMP;
        }
        Type *t = parseType(L);
        I.w = elW(t);
        I.lanes = nLanes(t);
        I.a = value(L, t);
        L.expect(',');
        I.b = value(L, t);
        Type *rt = intT(1);
        if (t->k == T_VECTOR) {
            char key[64];
            snprintf(key, 64, "<%llu %p", (unsigned long long)t->n, (void *)rt);
            Type *e = rt;
            u64 n = t->n;
            rt = intern(key, [=] { Type *x = new Type{T_VECTOR}; x->n = n; x->el = {e}; return x; });
        }
        dst(I, res, rt);
        finish();
        return;
    }
    if (op == "fneg" || op == "freeze") {
        while (L.k == K_WORD && !isTypeWord(L.s)) L.next();
        Type *t = parseType(L);
        I.op = op == "freeze" ? I_COPY : I_FNEG;
        I.w = elW(t);
        I.lanes = op == "freeze" ? t->slots : nLanes(t);
        I.a = value(L, t);
        dst(I, res, t);
        finish();
        return;
    }
    if (op == "select") {
        while (L.k == K_WORD && !isTypeWord(L.s)) L.next();
        Type *ct = parseType(L);
        I.op = I_SELECT;
        I.aux = ct->k == T_VECTOR;
        I.a = value(L, ct);
        L.expect(',');
        Type *t = parseType(L);
        I.b = value(L, t);
        L.expect(',');
        Type *t2 = parseType(L);
        I.c = value(L, t2);
        I.ty = t;
        I.w = elW(t);
        I.lanes = t->slots;
        dst(I, res, t);
        finish();
        return;
    }
    if (op == "phi") {
        while (L.k == K_WORD && !isTypeWord(L.s)) L.next();
        Type *t = parseType(L);
        Phi P;
        P.dst = regSlot(res, t);
        P.n = t->slots;
        do {
            L.expect('[');
            Opnd v = value(L, t);
            L.expect(',');
            uint32_t b = bb(L.s);
            L.next();
            L.expect(']');
            P.in.push_back({b, v});
        } while (L.acc(',') && L.is('['));
        B.phis.push_back(std::move(P));
        return;
    }
    if (op == "getelementptr") {
        while (L.k == K_WORD && !isTypeWord(L.s)) { L.next(); if (L.is('(')) L.skipParens(); }
        Type *cur = parseType(L);
        L.expect(',');
        Type *pt = parseType(L);
        if (pt->k != T_PTR) throw Unsup{"vector gep"};
        I.op = I_GEP;
        I.a = value(L, pt);
        bool first = true;
        while (L.acc(',')) {
            if (L.k == K_META) break;
            Type *it = parseType(L);
            if (it->k != T_INT) throw Unsup{"vector gep"};
            u64 scale;
            if (first) { scale = cur->size; first = false; }
            else if (cur->k == T_STRUCT) {
                u64 v = constInt(L, it);
                I.goff += cur->offs[v];
                cur = cur->el[v];
                continue;
            } else { cur = cur->el[0]; scale = cur->size; }
            if (L.k == K_INT) {
                i64 v = (i64)L.v;
                I.goff += v * (i64)scale;
                L.next();
            } else {
                I.gidx.push_back({value(L, it), scale});
                I.gw.push_back(it->w);
            }
        }
        dst(I, res, ptrT());
        finish();
        return;
    }
    if (op == "load") {
        while (L.isw("atomic") || L.isw("volatile")) L.next();
        I.op = I_LOAD;
        I.ty = parseType(L);
        L.expect(',');
        Type *pt = parseType(L);
        I.a = value(L, pt);
        if (!I.ty->slots) throw Unsup{"large load"};
        dst(I, res, I.ty);
        finish();
        return;
    }
    if (op == "store") {
        while (L.isw("atomic") || L.isw("volatile")) L.next();
        I.op = I_STORE;
        I.ty = parseType(L);
        I.b = value(L, I.ty);
        L.expect(',');
        Type *pt = parseType(L);
        I.a = value(L, pt);
        finish();
        return;
    }
    if (op == "alloca") {
        I.op = I_ALLOCA;
        L.accw("inalloca");
        Type *t = parseType(L);
        I.goff = t->size;
        if (L.is(',')) {
            Lexer s = L;
            s.next();
            if (s.k == K_WORD && isTypeWord(s.s)) {
                L.next();
                Type *it = parseType(L);
                I.goff *= constInt(L, it);
            }
        }
        dst(I, res, ptrT());
        finish();
        return;
    }
    if (op == "br") {
        if (L.isw("label")) { I.op = I_BR; I.aux = label(L); }
        else {
            Type *t = parseType(L);
            I.op = I_CBR;
            I.a = value(L, t);
            L.expect(',');
            I.aux = label(L);
            L.expect(',');
            I.aux2 = label(L);
        }
        finish();
        return;
    }
    if (op == "switch") {
        I.op = I_SWITCH;
        Type *t = parseType(L);
        I.w = t->w;
        I.a = value(L, t);
        L.expect(',');
        I.aux = label(L);
        L.expect('[');
        while (!L.is(']')) {
            Type *ct = parseType(L);
            u128 v = L.v & maskw(ct->w);
            L.next();
            L.expect(',');
            I.cases.push_back({v, label(L)});
        }
        finish();
        return;
    }
    if (op == "ret") {
        I.op = I_RET;
        if (L.isw("void")) { I.ty = nullptr; }
        else {
            I.ty = parseType(L);
            I.a = value(L, I.ty);
        }
        finish();
        return;
    }
    if (op == "unreachable") { I.op = I_UNREACHABLE; finish(); return; }
    if (op == "extractvalue") {
        Type *t = parseType(L);
        I.op = I_EXTRACTV;
        I.a = value(L, t);
        Type *rt;
        I.aux = aggSlot(t, L, rt);
        dst(I, res, rt);
        finish();
        return;
    }
    if (op == "insertvalue") {
        Type *t = parseType(L);
        I.op = I_INSERTV;
        I.a = value(L, t);
        L.expect(',');
        Type *vt = parseType(L);
        I.b = value(L, vt);
        I.aux2 = vt->slots;
        Type *rt;
        I.aux = aggSlot(t, L, rt);
        dst(I, res, t);
        finish();
        return;
    }
    if (op == "insertelement" || op == "extractelement") {
        Type *t = parseType(L);
        I.a = value(L, t);
        I.ty = t;
        L.expect(',');
        if (op[0] == 'i') {
            I.op = I_INSERTEL;
            Type *et = parseType(L);
            I.b = value(L, et);
            L.expect(',');
        } else I.op = I_EXTRACTEL;
        Type *it = parseType(L);
        I.c = value(L, it);
        dst(I, res, op[0] == 'i' ? t : t->el[0]);
        finish();
        return;
    }
    if (op == "shufflevector") {
        Type *t = parseType(L);
        I.a = value(L, t);
        L.expect(',');
        parseType(L);
        I.b = value(L, t);
        L.expect(',');
        Type *mt = parseType(L);
        std::vector<CV> mk;
        parseConst(L, mt, mk);
        for (auto &c : mk) I.mask.push_back((int)c.c);
        I.op = I_SHUFFLE;
        I.ty = t;
        Type *e = t->el[0];
        u64 n = mk.size();
        char key[64];
        snprintf(key, 64, "<%llu %p", (unsigned long long)n, (void *)e);
        Type *rt = intern(key, [=] { Type *x = new Type{T_VECTOR}; x->n = n; x->el = {e}; return x; });
        dst(I, res, rt);
        finish();
        return;
    }
    if (op == "atomicrmw") {
        L.accw("volatile");
        I.op = I_ATOMICRMW;
        I.text = L.s;
        L.next();
        Type *pt = parseType(L);
        I.a = value(L, pt);
        L.expect(',');
        I.ty = parseType(L);
        I.b = value(L, I.ty);
        I.w = I.ty->w;
        dst(I, res, I.ty);
        finish();
        return;
    }
    if (op == "cmpxchg") {
        while (L.isw("weak") || L.isw("volatile")) L.next();
        I.op = I_CMPXCHG;
        Type *pt = parseType(L);
        I.a = value(L, pt);
        L.expect(',');
        I.ty = parseType(L);
        I.b = value(L, I.ty);
        L.expect(',');
        parseType(L);
        I.c = value(L, I.ty);
        I.w = I.ty->w;
        std::vector<Type *> el = {I.ty, intT(1)};
        char key[64];
        snprintf(key, 64, "{%p,%p,", (void *)el[0], (void *)el[1]);
        Type *rt = intern(key, [=] { Type *x = new Type{T_STRUCT}; x->el = el; return x; });
        dst(I, res, rt);
        finish();
        return;
    }
    if (op == "fence") return;
    if (op == "landingpad" || op == "resume" || op == "cleanupret") { I.op = I_UNREACHABLE; finish(); return; }
    if (op == "call" || op == "invoke") {
        I.op = I_CALL;
        // fast-math flags, calling convention, return attributes
        skipAttrs(L);
        Type *rt = parseType(L);
        if (L.is('(')) L.skipParens(); // explicit function type
        I.ty = rt;
        if (L.isw("asm")) throw Unsup{"inline asm"};
        if (L.k == K_GLOBAL) {
            auto it = M->fmap.find(L.s);
            if (it == M->fmap.end()) throw Unsup{"call of " + L.s};
            I.callee = it->second;
            L.next();
        } else I.a = value(L, ptrT());
        L.expect('(');
        bool dbgOnly = false;
        if (!L.is(')'))
            do {
                if (L.isw("metadata")) { // skip to , or )
                    int d = 0;
                    if (I.callee && I.callee->name.find("llvm.dbg") == std::string::npos && I.callee->name.find("llvm.experimental") == std::string::npos && I.callee->name.find("llvm.type.test") == std::string::npos) dbgOnly = dbgOnly;
                    while (!(d == 0 && (L.is(',') || L.is(')')))) {
                        if (L.is('(') || L.is('{')) d++;
                        if (L.is(')') || L.is('}')) d--;
                        L.next();
                    }
                    continue;
                }
                Type *t = parseType(L);
                skipAttrs(L);
                I.args.push_back(value(L, t));
                I.argt.push_back(t);
            } while (L.acc(','));
        L.expect(')');
        if (!res.empty()) dst(I, res, rt);
        if (op == "invoke") {
            while (!L.isw("to")) { if (L.is('(')) L.skipParens(); else L.next(); if (L.k == K_END) throw Unsup{"invoke"}; }
            L.next();
            uint32_t normal = label(L);
            if (!L.accw("unwind")) throw Unsup{"unwind"};
            label(L);
            Inst J;
            J.op = I_BR;
            J.aux = normal;
            finish();
            B.insts.push_back(std::move(J));
            return;
        }
        finish();
        return;
    }
    (void)st;
    throw Unsup{"instruction " + op};
}

void Module::parseBody(Function *f) {
    if (f->parsed) return;
    f->parsed = true;
    M = this;
    const char *b = src.data();
    const char *nl = (const char *)memchr(b + f->headPos, '\n', src.size() - f->headPos);
    BodyParser P;
    P.f = f;
    try {
        Lexer L(b + f->headPos, nl);
        L.next(); // define / declare
        // linkage, visibility, cc, attrs
        BodyParser::skipAttrs(L);
        f->ret = parseType(L);
        if (L.k != K_GLOBAL) throw Unsup{"function name"};
        L.next();
        L.expect('(');
        int an = 0;
        if (!L.is(')'))
            do {
                if (L.is('.')) { L.next(); continue; }
                Type *t = parseType(L);
                BodyParser::skipAttrs(L);
                std::string nm = std::to_string(an);
                bool named = false;
                if (L.k == K_LOCAL) { nm = L.s; L.next(); named = !isdigit((unsigned char)nm[0]); }
                if (!named) an++;
                f->argTy.push_back(t);
                f->argSlot.push_back(P.newReg(nm, t));
            } while (L.acc(','));
        if (!f->defined) return;
        // first pass: block labels
        const char *p = b + f->bodyPos;
        const char *fin = p;
        while (!(fin[0] == '}' && fin[-1] == '\n')) {
            fin = (const char *)memchr(fin, '\n', src.size()) + 1;
        }
        std::vector<std::pair<std::string, const char *>> starts;
        bool first = true;
        for (const char *q = p; q < fin;) {
            const char *e = (const char *)memchr(q, '\n', fin - q);
            if (!e) e = fin;
            if (q < e && *q != ' ' && *q != '\t' && *q != ';' && *q != ']' ) {
                // label line
                Lexer LL(q, e);
                std::string nm;
                if (*q == '"') { nm = LL.s; q = LL.p; }
                else { const char *c = q; while (c < e && *c != ':') c++; nm.assign(q, c - q); q = c; }
                while (q < e && *q != ':') q++;
                starts.push_back({nm, e});
                first = false;
            } else if (first && q < e) {
                // implicit entry label: number after the unnamed arguments
                starts.push_back({std::to_string(an), q});
                first = false;
            }
            q = e + 1;
        }
        for (size_t i = 0; i < starts.size(); i++) P.bbs[starts[i].first] = i;
        f->blocks.resize(starts.size());
        for (size_t i = 0; i < starts.size(); i++) {
            f->blocks[i].name = starts[i].first;
            const char *q = starts[i].second;
            const char *e = i + 1 < starts.size() ? starts[i + 1].second : fin;
            // lines of the block; the next label line is cut off below
            std::vector<std::pair<const char *, const char *>> lines;
            while (q < e) {
                const char *ln = (const char *)memchr(q, '\n', e - q);
                if (!ln) ln = e;
                if (q < ln && (*q == ' ' || *q == '\t')) lines.push_back({q, ln});
                q = ln + 1;
            }
            for (size_t j = 0; j < lines.size(); j++) {
                const char *a = lines[j].first, *z = lines[j].second;
                const char *t = a;
                while (t < z && (*t == ' ' || *t == '\t')) t++;
                if (t == z || *t == ';' || (*t == '#' && !strncmp(t, "#dbg", 4))) continue;
                // multi-line: switch ... [ ... ], invoke ... to label
                if (!strncmp(t, "switch ", 7)) {
                    while (j + 1 < lines.size()) {
                        const char *x = lines[j].second - 1;
                        (void)x;
                        j++;
                        const char *y = lines[j].first;
                        while (*y == ' ') y++;
                        z = lines[j].second;
                        if (*y == ']') break;
                    }
                } else {
                    const char *inv = (const char *)memmem(t, z - t, "invoke ", 7);
                    if (inv && j + 1 < lines.size()) {
                        const char *y = lines[j + 1].first;
                        while (*y == ' ') y++;
                        if (!strncmp(y, "to label", 8)) { j++; z = lines[j].second; }
                    }
                    if (memmem(t, z - t, "landingpad ", 11)) {
                        while (j + 1 < lines.size()) {
                            const char *y = lines[j + 1].first;
                            while (*y == ' ') y++;
                            if (!strncmp(y, "cleanup", 7) || !strncmp(y, "catch", 5) || !strncmp(y, "filter", 6)) j++;
                            else break;
                        }
                    }
                }
                uint32_t dbg = 0;
                const char *d = (const char *)memmem(t, z - t, "!dbg !", 6);
                if (d) dbg = strtoul(d + 6, nullptr, 10);
                size_t n0 = f->blocks[i].insts.size();
                try {
                    Lexer LI(t, z);
                    P.parseInst(LI, f->blocks[i]);
                } catch (Unsup &u) {
                    Inst I;
                    I.op = I_UNSUP;
                    I.text = u.what + " in: " + std::string(t, z - t);
                    f->blocks[i].insts.push_back(I);
                }
                for (size_t k = n0; k < f->blocks[i].insts.size(); k++) f->blocks[i].insts[k].dbg = dbg;
            }
        }
    } catch (Unsup &u) {
        die("function " + f->name + ": " + u.what);
    }
}

// ---- debug locations ----
static std::string mdField(const std::string &l, const char *key) {
    std::string k = std::string(key) + ": ";
    size_t p = 0;
    for (;;) {
        p = l.find(k, p);
        if (p == std::string::npos) return "";
        if (p && (l[p - 1] == '(' || l[p - 1] == ' ')) break;
        p++;
    }
    p += k.size();
    if (l[p] == '"') {
        size_t e = l.find('"', p + 1);
        return l.substr(p + 1, e - p - 1);
    }
    size_t e = l.find_first_of(",)", p);
    return l.substr(p, e - p);
}
static std::string mdLine(Module &m, uint32_t id) {
    if (id >= m.mdPos.size() || !m.mdPos[id]) return "";
    size_t p = m.mdPos[id], e = m.src.find('\n', p);
    return m.src.substr(p, e - p);
}
static uint32_t mdRef(const std::string &s) { return s.size() > 1 && s[0] == '!' ? (uint32_t)strtoul(s.c_str() + 1, nullptr, 10) : 0; }
std::vector<Loc> locChain(Module &m, uint32_t md) {
    std::vector<Loc> out;
    int guard = 0;
    while (md && guard++ < 40) {
        std::string l = mdLine(m, md);
        if (l.find("DILocation(") == std::string::npos) break;
        Loc lc;
        lc.line = atoi(mdField(l, "line").c_str());
        uint32_t sc = mdRef(mdField(l, "scope"));
        uint32_t file = 0;
        int g2 = 0;
        while (sc && g2++ < 40) {
            std::string s = mdLine(m, sc);
            if (!file) file = mdRef(mdField(s, "file"));
            if (s.find("DISubprogram(") != std::string::npos) {
                lc.fn = mdField(s, "name");
                uint32_t par = mdRef(mdField(s, "scope"));
                std::string pl = par ? mdLine(m, par) : "";
                std::string pn = mdField(pl, "name");
                if (!pn.empty()) lc.fn = pn + "::" + lc.fn;
                break;
            }
            sc = mdRef(mdField(s, "scope"));
        }
        if (file) {
            std::string fl = mdLine(m, file);
            lc.file = mdField(fl, "filename");
            std::string dir = mdField(fl, "directory");
            if (!lc.file.empty() && lc.file[0] != '/' && !dir.empty()) lc.file = dir + "/" + lc.file;
        }
        out.push_back(lc);
        md = mdRef(mdField(l, "inlinedAt"));
    }
    return out;
}
