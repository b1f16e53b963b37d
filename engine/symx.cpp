/*
 * symx - a small path-based symbolic executor for LLVM 18 bitcode.
 *
 * It interprets the IR clang produces from the real sources.  Harness inputs
 * are SMT bit-vector symbols; every branch, assertion, memory access, division
 * and allocation size that depends on them is decided by Z3 (QF_BV / QF_FPBV).
 * Exploration is exhaustive: the run reports "complete" only when every
 * feasible path of the harness has been followed to its end.
 *
 * usage: symx prog.bc out.json [--timeout s] [--steps n] [--workers n]
 *             [--samples n] [--max-errors n] [--entry f]
 */
#include <fstream>
#include <llvm/ADT/APFloat.h>
#include <llvm/Analysis/ConstantFolding.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3++.h>

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <ctime>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

using namespace llvm;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static u64 mask(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static int64_t sx(u64 v, unsigned w) { return w >= 64 ? (int64_t) v : (int64_t) (v << (64 - w)) >> (64 - w); }

struct EngineError { std::string msg; };
[[noreturn]] static void die(const std::string &m) { throw EngineError{m}; }

/* ------------------------------------------------------------------ exprs */
enum Op : u8 { CONST, SYM, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
    EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT,
    FADD, FSUB, FMUL, FDIV, FREM, FOLT, FOLE, FOEQ, FUNO, SI2F, UI2F, F2SI, F2UI, FEXT, FTRUNC };

struct SymSet {
    u64 w[4] = {0, 0, 0, 0};
    /* bit 223 is shared by all further inputs and 224.. by uninitialised bytes: never "known" */
    bool anon() const { return (w[3] >> 31) != 0; }
    void add(unsigned i) { w[(i >> 6) & 3] |= 1ULL << (i & 63); }
    void unite(const SymSet &o) { for (int i = 0; i < 4; i++) w[i] |= o.w[i]; }
    bool meets(const SymSet &o) const { for (int i = 0; i < 4; i++) if (w[i] & o.w[i]) return true; return false; }
    bool within(const SymSet &o) const { for (int i = 0; i < 4; i++) if (w[i] & ~o.w[i]) return false; return true; }
};
enum { UNDEF_BASE = 100000 };
static unsigned symbit(unsigned id) { return id >= UNDEF_BASE ? 224 + (id - UNDEF_BASE) % 32 : id >= 223 ? 223 : id; }

struct Expr {
    Op op; u8 w; bool undef; u32 id; u64 k; const Expr *a[3]; SymSet syms; u64 stamp; u64 val;
};
typedef const Expr *E;

struct ExprKey { Op op; u8 w; u64 k; E a, b, c; };
struct KeyHash { size_t operator()(const ExprKey &x) const {
    u64 h = x.op * 0x9E3779B97F4A7C15ULL + x.w; auto m = [&](u64 v) { h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; };
    m(x.k); m((u64) x.a); m((u64) x.b); m((u64) x.c); return h; } };
struct KeyEq { bool operator()(const ExprKey &x, const ExprKey &y) const {
    return x.op == y.op && x.w == y.w && x.k == y.k && x.a == y.a && x.b == y.b && x.c == y.c; } };
static std::unordered_map<ExprKey, E, KeyHash, KeyEq> g_exprs;
static std::deque<Expr> g_pool;

static E raw(Op op, unsigned w, u64 k, E a = nullptr, E b = nullptr, E c = nullptr) {
    ExprKey key{op, (u8) w, k, a, b, c};
    auto it = g_exprs.find(key);
    if (it != g_exprs.end()) return it->second;
    g_pool.emplace_back();
    Expr &e = g_pool.back();
    e.op = op; e.w = (u8) w; e.k = k; e.a[0] = a; e.a[1] = b; e.a[2] = c; e.id = (u32) g_pool.size(); e.stamp = 0; e.val = 0; e.undef = false;
    for (int i = 0; i < 3; i++) if (e.a[i]) { e.syms.unite(e.a[i]->syms); e.undef |= e.a[i]->undef; }
    if (op == SYM) { e.syms.add(symbit((unsigned) k)); e.undef = k >= UNDEF_BASE; }
    g_exprs.emplace(key, &e);
    return &e;
}
static E mkc(u64 v, unsigned w) { return raw(CONST, w, v & mask(w)); }
static bool isc(E e) { return e->op == CONST; }

static double asD(u64 v, unsigned w) { if (w == 32) { float f; u32 t = (u32) v; memcpy(&f, &t, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static u64 fromD(double d, unsigned w) { if (w == 32) { float f = (float) d; u32 t; memcpy(&t, &f, 4); return t; } u64 v; memcpy(&v, &d, 8); return v; }

/* concrete evaluation of one operation; w = result width, aw = operand width */
static u64 apply(Op op, unsigned w, unsigned aw, u64 k, u64 x, u64 y, u64 z, unsigned bw) {
    switch (op) {
    case ADD: return (x + y) & mask(w);
    case SUB: return (x - y) & mask(w);
    case MUL: return (x * y) & mask(w);
    case UDIV: return y ? x / y : mask(w);
    case UREM: return y ? x % y : x;
    case SDIV: { int64_t a = sx(x, w), b = sx(y, w); if (!b) return a < 0 ? 1 : mask(w); if (b == -1) return (0 - x) & mask(w); return (u64) (a / b) & mask(w); }
    case SREM: { int64_t a = sx(x, w), b = sx(y, w); if (!b) return x; if (b == -1) return 0; return (u64) (a % b) & mask(w); }
    case AND: return x & y;
    case OR: return x | y;
    case XOR: return x ^ y;
    case SHL: return y >= w ? 0 : (x << y) & mask(w);
    case LSHR: return y >= w ? 0 : x >> y;
    case ASHR: return (u64) (sx(x, w) >> (y >= w ? w - 1 : y)) & mask(w);
    case EQ: return x == y;
    case ULT: return x < y;
    case ULE: return x <= y;
    case SLT: return sx(x, aw) < sx(y, aw);
    case SLE: return sx(x, aw) <= sx(y, aw);
    case ITE: return x ? y : z;
    case CONCAT: return ((x << bw) | y) & mask(w);
    case EXTRACT: return (x >> k) & mask(w);
    case ZEXT: return x;
    case SEXT: return (u64) sx(x, aw) & mask(w);
    case FADD: return fromD(asD(x, w) + asD(y, w), w);
    case FSUB: return fromD(asD(x, w) - asD(y, w), w);
    case FMUL: return fromD(asD(x, w) * asD(y, w), w);
    case FDIV: return fromD(asD(x, w) / asD(y, w), w);
    case FREM: return fromD(fmod(asD(x, w), asD(y, w)), w);
    case FOLT: return asD(x, aw) < asD(y, aw);
    case FOLE: return asD(x, aw) <= asD(y, aw);
    case FOEQ: return asD(x, aw) == asD(y, aw);
    case FUNO: return std::isnan(asD(x, aw)) || std::isnan(asD(y, aw));
    case SI2F: return fromD((double) sx(x, aw), w);
    case UI2F: return fromD((double) x, w);
    case F2SI: { double d = asD(x, aw); if (!(d > -9.3e18 && d < 9.2e18)) return 1ULL << (w - 1); return (u64) (int64_t) d & mask(w); }
    case F2UI: { double d = asD(x, aw); if (!(d > -1 && d < 1.8e19)) return 1ULL << (w - 1); return (u64) d & mask(w); }
    case FEXT: case FTRUNC: return fromD(asD(x, aw), w);
    default: die("apply");
    }
}

static E mk(Op op, unsigned w, E a, E b = nullptr, E c = nullptr, u64 k = 0);
static E mknot(E a) { return mk(XOR, 1, a, mkc(1, 1)); }
static bool commut(Op op) { return op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ; }

static E mk(Op op, unsigned w, E a, E b, E c, u64 k) {
    if (isc(a) && (!b || isc(b)) && (!c || isc(c)))
        return mkc(apply(op, w, a->w, k, a->k, b ? b->k : 0, c ? c->k : 0, b ? b->w : 0), w);
    if (commut(op) && (isc(a) || (!isc(b) && a->id > b->id))) std::swap(a, b);
    bool bc = b && isc(b);
    switch (op) {
    case ADD:
        if (bc && b->k == 0) return a;
        if (bc && a->op == ADD && isc(a->a[1])) return mk(ADD, w, a->a[0], mkc(a->a[1]->k + b->k, w));
        if (bc && a->op == ITE && isc(a->a[1]) && isc(a->a[2])) return mk(ITE, w, a->a[0], mk(ADD, w, a->a[1], b), mk(ADD, w, a->a[2], b));
        break;
    case SUB:
        if (bc) return mk(ADD, w, a, mkc(0 - b->k, w));
        if (a == b) return mkc(0, w);
        break;
    case MUL:
        if (bc && b->k == 0) return b;
        if (bc && b->k == 1) return a;
        if (bc && (b->k & (b->k - 1)) == 0) return mk(SHL, w, a, mkc(__builtin_ctzll(b->k), w));
        break;
    case UDIV: case SDIV: if (bc && b->k == 1) return a; break;
    case AND:
        if (bc && b->k == 0) return b;
        if (bc && b->k == mask(w)) return a;
        if (a == b) return a;
        if (w == 1 && (a == mknot(b))) return mkc(0, 1);
        if (bc && a->op == ZEXT && a->a[0]->w < 64 && (b->k & mask(a->a[0]->w)) == mask(a->a[0]->w)) return a;
        break;
    case OR:
        if (bc && b->k == 0) return a;
        if (bc && b->k == mask(w)) return b;
        if (a == b) return a;
        if (w == 1 && (a == mknot(b))) return mkc(1, 1);
        break;
    case XOR:
        if (bc && b->k == 0) return a;
        if (a == b) return mkc(0, w);
        if (bc && a->op == XOR && isc(a->a[1])) return mk(XOR, w, a->a[0], mkc(a->a[1]->k ^ b->k, w));
        break;
    case SHL: case LSHR: case ASHR:
        if (bc && b->k == 0) return a;
        break;
    case EQ:
        if (a == b) return mkc(1, 1);
        if (a->w == 1 && bc) return b->k ? a : mknot(a);
        if (bc) {
            if (a->op == ZEXT) { unsigned n = a->a[0]->w; if (b->k & ~mask(n)) return mkc(0, 1); return mk(EQ, 1, a->a[0], mkc(b->k, n)); }
            if (a->op == SEXT) { unsigned n = a->a[0]->w; if (((u64) sx(b->k & mask(n), n) & mask(a->w)) != b->k) return mkc(0, 1); return mk(EQ, 1, a->a[0], mkc(b->k, n)); }
            if (a->op == ADD && isc(a->a[1])) return mk(EQ, 1, a->a[0], mkc(b->k - a->a[1]->k, a->w));
            if (a->op == XOR && isc(a->a[1])) return mk(EQ, 1, a->a[0], mkc(b->k ^ a->a[1]->k, a->w));
            if (a->op == ITE) {
                E t = a->a[1], f = a->a[2];
                if (isc(t) || isc(f)) return mk(ITE, 1, a->a[0], mk(EQ, 1, t, b), mk(EQ, 1, f, b));
            }
            if (a->op == CONCAT) {
                unsigned lw = a->a[1]->w;
                return mk(AND, 1, mk(EQ, 1, a->a[0], mkc(b->k >> lw, a->a[0]->w)), mk(EQ, 1, a->a[1], mkc(b->k, lw)));
            }
        }
        break;
    case ULT: if (a == b) return mkc(0, 1); if (bc && b->k == 0) return mkc(0, 1);
        if (bc && a->op == ZEXT) { if (b->k > mask(a->a[0]->w)) return mkc(1, 1); return mk(ULT, 1, a->a[0], mkc(b->k, a->a[0]->w)); }
        if (isc(a) && b->op == ZEXT) { if (a->k >= mask(b->a[0]->w)) return mkc(0, 1); return mk(ULT, 1, mkc(a->k, b->a[0]->w), b->a[0]); }
        goto cmpite;
    case ULE: if (a == b) return mkc(1, 1); if (isc(a) && a->k == 0) return mkc(1, 1);
        if (bc && a->op == ZEXT) { if (b->k >= mask(a->a[0]->w)) return mkc(1, 1); return mk(ULE, 1, a->a[0], mkc(b->k, a->a[0]->w)); }
        if (isc(a) && b->op == ZEXT) { if (a->k > mask(b->a[0]->w)) return mkc(0, 1); return mk(ULE, 1, mkc(a->k, b->a[0]->w), b->a[0]); }
        goto cmpite;
    case SLT: if (a == b) return mkc(0, 1);
        if (bc && a->op == ZEXT) { if (sx(b->k, a->w) < 0) return mkc(0, 1); return mk(ULT, 1, a, b); }
        if (isc(a) && b->op == ZEXT) { if (sx(a->k, b->w) < 0) return mkc(1, 1); return mk(ULT, 1, a, b); }
        goto cmpite;
    case SLE: if (a == b) return mkc(1, 1);
        if (bc && a->op == ZEXT) { if (sx(b->k, a->w) < 0) return mkc(0, 1); return mk(ULE, 1, a, b); }
        if (isc(a) && b->op == ZEXT) { if (sx(a->k, b->w) < 0) return mkc(1, 1); return mk(ULE, 1, a, b); }
    cmpite:
        if (bc && a->op == ITE && (isc(a->a[1]) || isc(a->a[2]))) return mk(ITE, 1, a->a[0], mk(op, 1, a->a[1], b), mk(op, 1, a->a[2], b));
        if (isc(a) && b->op == ITE && (isc(b->a[1]) || isc(b->a[2]))) return mk(ITE, 1, b->a[0], mk(op, 1, a, b->a[1]), mk(op, 1, a, b->a[2]));
        break;
    case ITE:
        if (isc(a)) return a->k ? b : c;
        if (b == c) return b;
        if (w == 1) {
            if (isc(b) && isc(c)) return b->k ? a : mknot(a);
            if (isc(b)) return b->k ? mk(OR, 1, a, c) : mk(AND, 1, mknot(a), c);
            if (isc(c)) return c->k ? mk(OR, 1, mknot(a), b) : mk(AND, 1, a, b);
        }
        if (a->op == XOR && a->w == 1 && isc(a->a[1])) return mk(ITE, w, a->a[0], c, b);
        break;
    case CONCAT:
        if (a->op == EXTRACT && b->op == EXTRACT && a->a[0] == b->a[0] && a->k == b->k + b->w) return mk(EXTRACT, w, a->a[0], nullptr, nullptr, b->k);
        if (isc(a) && a->k == 0) return mk(ZEXT, w, b);
        break;
    case EXTRACT:
        if (w == a->w) return a;
        if (a->op == EXTRACT) return mk(EXTRACT, w, a->a[0], nullptr, nullptr, k + a->k);
        if (a->op == CONCAT) {
            unsigned lw = a->a[1]->w;
            if (k >= lw) return mk(EXTRACT, w, a->a[0], nullptr, nullptr, k - lw);
            if (k + w <= lw) return mk(EXTRACT, w, a->a[1], nullptr, nullptr, k);
        }
        if (a->op == ZEXT || a->op == SEXT) {
            unsigned n = a->a[0]->w;
            if (k + w <= n) return mk(EXTRACT, w, a->a[0], nullptr, nullptr, k);
            if (a->op == ZEXT && k >= n) return mkc(0, w);
            if (k == 0) return mk(a->op, w, a->a[0]);
            if (a->op == ZEXT) return mk(ZEXT, w, mk(EXTRACT, n - k, a->a[0], nullptr, nullptr, k));
        }
        if (a->op == ITE && (isc(a->a[1]) || isc(a->a[2])))
            return mk(ITE, w, a->a[0], mk(EXTRACT, w, a->a[1], nullptr, nullptr, k), mk(EXTRACT, w, a->a[2], nullptr, nullptr, k));
        if (k == 0 && (a->op == ADD || a->op == SUB || a->op == MUL || a->op == AND || a->op == OR || a->op == XOR))
            return mk(a->op, w, mk(EXTRACT, w, a->a[0], nullptr, nullptr, 0), mk(EXTRACT, w, a->a[1], nullptr, nullptr, 0));
        if (a->op == AND || a->op == OR || a->op == XOR)
            return mk(a->op, w, mk(EXTRACT, w, a->a[0], nullptr, nullptr, k), mk(EXTRACT, w, a->a[1], nullptr, nullptr, k));
        break;
    case ZEXT:
        if (w == a->w) return a;
        if (a->op == ZEXT) return mk(ZEXT, w, a->a[0]);
        if (a->op == ITE && isc(a->a[1]) && isc(a->a[2])) return mk(ITE, w, a->a[0], mk(ZEXT, w, a->a[1]), mk(ZEXT, w, a->a[2]));
        break;
    case SEXT:
        if (w == a->w) return a;
        if (a->op == SEXT) return mk(SEXT, w, a->a[0]);
        if (a->op == ZEXT) return mk(ZEXT, w, a->a[0]);
        if (a->op == ITE && isc(a->a[1]) && isc(a->a[2])) return mk(ITE, w, a->a[0], mk(SEXT, w, a->a[1]), mk(SEXT, w, a->a[2]));
        break;
    default: break;
    }
    return raw(op, w, k, a, b, c);
}

/* ------------------------------------------------------------------ values */
struct Val { u64 v = 0; E e = nullptr; };
static Val cv(u64 v) { Val r; r.v = v; return r; }
static Val ev(E e) { Val r; if (isc(e)) r.v = e->k; else r.e = e; return r; }
static E ex(const Val &x, unsigned w) { return x.e ? x.e : mkc(x.v, w); }

struct Model { std::vector<u64> in, un; };
static u64 symval(const Model &m, u64 id) {
    if (id >= UNDEF_BASE) { id -= UNDEF_BASE; return id < m.un.size() ? m.un[id] : 0; }
    return id < m.in.size() ? m.in[id] : 0;
}
static u64 g_stamp = 0;
static u64 evalr(E e, const Model &m) {
    if (e->op == CONST) return e->k;
    Expr *x = const_cast<Expr *>(e);
    if (x->stamp == g_stamp) return x->val;
    u64 r;
    if (e->op == SYM) r = symval(m, e->k) & mask(e->w);
    else if (e->op == ITE) r = evalr(e->a[0], m) ? evalr(e->a[1], m) : evalr(e->a[2], m);
    else r = apply(e->op, e->w, e->a[0]->w, e->k, evalr(e->a[0], m), e->a[1] ? evalr(e->a[1], m) : 0, e->a[2] ? evalr(e->a[2], m) : 0, e->a[1] ? e->a[1]->w : 0);
    x->stamp = g_stamp; x->val = r;
    return r;
}
static u64 eval(E e, const Model &m) { ++g_stamp; return evalr(e, m); }

/* ------------------------------------------------------------------ memory */
struct Obj {
    int refs = 0; u32 size = 0; bool ro = false; u8 kind = 0;
    std::vector<u8> data, st;           /* st: 0 concrete, 1 symbolic, 2 uninitialised */
    std::vector<E> sy;                  /* lazily sized */
};
struct ObjRef {
    Obj *p = nullptr;
    ObjRef() {}
    explicit ObjRef(Obj *o) : p(o) { if (p) ++p->refs; }
    ObjRef(const ObjRef &o) : p(o.p) { if (p) ++p->refs; }
    ObjRef(ObjRef &&o) noexcept : p(o.p) { o.p = nullptr; }
    ObjRef &operator=(ObjRef o) { std::swap(p, o.p); return *this; }
    ~ObjRef() { if (p && --p->refs == 0) delete p; }
};
enum { R_GLOBAL = 1, R_STACK = 2, R_HEAP = 3, R_FUNC = 4 };
static u64 mkaddr(unsigned region, u64 id) { return ((u64) region << 44) | (id << 24); }

/* --------------------------------------------------------- compiled program */
struct Opnd { int slot = -1; u64 c = 0; bool undef = false; u8 w = 0; };
enum IK : u8 { I_BIN, I_ICMP, I_FCMP, I_CAST, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_SELECT, I_PHI,
    I_EXTRACTV, I_INSERTV, I_FNEG, I_UNREACH, I_NOP, I_COPY };
struct CFn;
struct CInst {
    IK k; u8 op = 0; u8 w = 0, aw = 0; int dst = -1; int ndst = 0; std::vector<Opnd> o;
    std::vector<std::pair<u64, int>> cases; int t = 0, f = 0; /* branch targets (block index) */
    std::vector<std::pair<Opnd, u64>> gep; u64 off = 0; u64 size = 0; u64 align = 1;
    std::vector<u8> leafw; std::vector<u64> leafo; /* aggregate load/store/phi */
    std::vector<std::pair<int, std::vector<Opnd>>> phi;
    Function *callee = nullptr; int intrin = 0; std::vector<std::pair<int, int>> args; /* (first opnd, count) */
    std::vector<u64> byval;
    int line = 0; const char *file = "";
    bool neg = false;
};
struct CBlock { int first, nphi; };
struct CFn { Function *f = nullptr; std::string name, file; bool compiled = false; int nslots = 0; std::vector<CInst> code; std::vector<int> bstart; std::vector<std::pair<int,int>> argslot; int bif = 0; bool seen = false; };

static Module *M;
static const DataLayout *DL;
static std::map<Function *, CFn *> g_fns;
static std::vector<CFn *> g_fnlist;
static std::map<GlobalVariable *, u64> g_gaddr;
static std::set<std::string> g_files;

enum BIF { B_NONE, B_SYM8, B_SYM32, B_SYM64, B_ASSUME, B_ASSERT, B_REACHED, B_PICK, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMCPY, B_MEMMOVE, B_MEMSET,
    B_ABORT, B_EXIT, B_LEAKCHK, B_CONC, B_UNMODELLED, B_OBJSIZE, B_POISON, B_KILL, B_FMTD, B_STRTOD, B_FORK };
static int bif_of(StringRef n) {
    static std::map<std::string, int> t = {
        {"__vp_sym8", B_SYM8}, {"__vp_sym32", B_SYM32}, {"__vp_sym64", B_SYM64}, {"__vp_assume", B_ASSUME}, {"__vp_assert", B_ASSERT},
        {"__vp_reached", B_REACHED}, {"__vp_pick", B_PICK}, {"__vp_conc", B_CONC}, {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE},
        {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"abort", B_ABORT}, {"exit", B_EXIT}, {"_exit", B_EXIT},
        {"__assert_fail", B_ABORT}, {"__vp_unmodelled", B_UNMODELLED}, {"__vp_poison", B_POISON}, {"__vp_kill", B_KILL}, {"__vp_fmtd", B_FMTD}, {"__vp_strtod", B_STRTOD}, {"__vp_fork", B_FORK}};
    auto i = t.find(n.str());
    return i == t.end() ? B_NONE : i->second;
}

struct Frame {
    CFn *fn; int pc; int cur; std::vector<Val> r; size_t stk; u64 va = 0; u32 vasz = 0; int ret; int prev = -1;
};

struct State {
    std::vector<Frame> fr;
    std::vector<ObjRef> glob, stk, heap;
    std::vector<E> pc;
    SymSet known;
    Model m;
    std::vector<std::pair<u8, bool>> inputs; /* widths */
    int nundef = 0;
    u64 steps = 0;
    u32 asserts = 0; u64 depth = 0;
    bool reached = false;
    /* in a child process: the parent, where it goes on */
    std::shared_ptr<const State> parent; u64 shaddr = 0, shlen = 0; int fkdst = -1;
};

/* ------------------------------------------------------------------ solver */
struct Stats { u64 paths = 0, completed = 0, assumed_away = 0, err_paths = 0, forks = 0, insts = 0, queries = 0, sat = 0, unsat = 0, unknown = 0, cache = 0, asserts = 0, sym_asserts = 0, maxdepth = 0, reached = 0, killed = 0; double solver_s = 0; };
static Stats S;

static z3::context *Z;
static z3::solver *ZS;
static std::unordered_map<E, z3::expr> *ztr;

static z3::expr b2v(const z3::expr &b) { return b.is_bool() ? z3::ite(b, Z->bv_val(1, 1), Z->bv_val(0, 1)) : b; }
static z3::expr tofp(const z3::expr &bv, unsigned w) {
    Z3_sort s = w == 32 ? Z3_mk_fpa_sort_32(*Z) : Z3_mk_fpa_sort_64(*Z);
    return z3::expr(*Z, Z3_mk_fpa_to_fp_bv(*Z, bv, s));
}
static z3::expr fpbv(Z3_ast f) { return z3::expr(*Z, Z3_mk_fpa_to_ieee_bv(*Z, f)); }
static z3::expr tr(E e) {
    auto it = ztr->find(e);
    if (it != ztr->end()) return it->second;
    z3::expr r(*Z);
    auto A = [&](int i) { return tr(e->a[i]); };
    auto B = [&](int i) { return b2v(tr(e->a[i])); };
    unsigned w = e->w, aw = e->a[0] ? e->a[0]->w : 0;
    auto RNE = [&] { return Z3_mk_fpa_rne(*Z); };
    auto RTZ = [&] { return Z3_mk_fpa_rtz(*Z); };
    auto SORT = [&](unsigned x) { return x == 32 ? Z3_mk_fpa_sort_32(*Z) : Z3_mk_fpa_sort_64(*Z); };
    switch (e->op) {
    case CONST: r = w == 1 ? Z->bool_val(e->k != 0) : Z->bv_val((uint64_t) e->k, w); break;
    case SYM: { char n[32]; snprintf(n, sizeof n, "s%llu_%u", (unsigned long long) e->k, w); r = w == 1 ? Z->bool_const(n) : Z->bv_const(n, w); break; }
    case ADD: r = B(0) + B(1); break;
    case SUB: r = B(0) - B(1); break;
    case MUL: r = B(0) * B(1); break;
    case UDIV: r = z3::udiv(B(0), B(1)); break;
    case SDIV: r = B(0) / B(1); break;
    case UREM: r = z3::urem(B(0), B(1)); break;
    case SREM: r = z3::srem(B(0), B(1)); break;
    case AND: r = w == 1 ? (A(0) && A(1)) : (A(0) & A(1)); break;
    case OR: r = w == 1 ? (A(0) || A(1)) : (A(0) | A(1)); break;
    case XOR: if (w == 1) { if (isc(e->a[1])) r = e->a[1]->k ? !A(0) : A(0); else r = (A(0) != A(1)); } else r = A(0) ^ A(1); break;
    case SHL: r = z3::shl(B(0), B(1)); break;
    case LSHR: r = z3::lshr(B(0), B(1)); break;
    case ASHR: r = z3::ashr(B(0), B(1)); break;
    case EQ: r = A(0) == A(1); break;
    case ULT: r = z3::ult(B(0), B(1)); break;
    case ULE: r = z3::ule(B(0), B(1)); break;
    case SLT: r = z3::slt(B(0), B(1)); break;
    case SLE: r = z3::sle(B(0), B(1)); break;
    case ITE: r = z3::ite(A(0), A(1), A(2)); break;
    case CONCAT: r = z3::concat(B(0), B(1)); break;
    case EXTRACT: r = B(0).extract(e->k + w - 1, e->k); break;
    case ZEXT: r = z3::zext(B(0), w - aw); break;
    case SEXT: r = z3::sext(B(0), w - aw); break;
    case FADD: r = fpbv(Z3_mk_fpa_add(*Z, RNE(), tofp(A(0), w), tofp(A(1), w))); break;
    case FSUB: r = fpbv(Z3_mk_fpa_sub(*Z, RNE(), tofp(A(0), w), tofp(A(1), w))); break;
    case FMUL: r = fpbv(Z3_mk_fpa_mul(*Z, RNE(), tofp(A(0), w), tofp(A(1), w))); break;
    case FDIV: r = fpbv(Z3_mk_fpa_div(*Z, RNE(), tofp(A(0), w), tofp(A(1), w))); break;
    /* IEEE comparisons stated on the bit patterns: exact, and far cheaper than the FP theory */
    case FOLT: case FOLE: case FOEQ: case FUNO: {
        z3::expr x = A(0), y = A(1);
        z3::expr inf = aw == 32 ? Z->bv_val((uint64_t) 0x7f800000u, 32) : Z->bv_val((uint64_t) 0x7ff0000000000000ull, 64);
        z3::expr one = Z->bv_val(1, aw), msb = aw == 32 ? Z->bv_val((uint64_t) 0x80000000u, 32) : Z->bv_val((uint64_t) 0x8000000000000000ull, 64);
        z3::expr un = z3::ugt(x & ~msb, inf) || z3::ugt(y & ~msb, inf);
        if (e->op == FUNO) { r = un; break; }
        z3::expr zz = z3::shl(x | y, one) == 0;
        auto key = [&](const z3::expr &v) { return z3::ite((v & msb) != 0, ~v, v ^ msb); };
        z3::expr eq = x == y || zz;
        if (e->op == FOEQ) r = !un && eq;
        else { z3::expr lt = !zz && z3::ult(key(x), key(y)); r = e->op == FOLT ? (!un && lt) : (!un && (lt || eq)); }
        break; }
    case SI2F: r = fpbv(Z3_mk_fpa_to_fp_signed(*Z, RNE(), B(0), SORT(w))); break;
    case UI2F: r = fpbv(Z3_mk_fpa_to_fp_unsigned(*Z, RNE(), B(0), SORT(w))); break;
    case F2SI: r = z3::expr(*Z, Z3_mk_fpa_to_sbv(*Z, RTZ(), tofp(A(0), aw), w)); break;
    case F2UI: r = z3::expr(*Z, Z3_mk_fpa_to_ubv(*Z, RTZ(), tofp(A(0), aw), w)); break;
    case FEXT: case FTRUNC: r = fpbv(Z3_mk_fpa_to_fp_float(*Z, RNE(), tofp(A(0), aw), SORT(w))); break;
    default: die("no SMT translation");
    }
    if (w == 1 && !r.is_bool()) r = (r == Z->bv_val(1, 1));
    ztr->emplace(e, r);
    return r;
}
struct QRes { int sat; std::vector<std::pair<u64, u64>> m; };
struct VHash { size_t operator()(const std::vector<u32> &v) const { u64 h = v.size(); for (u32 x : v) { h ^= x; h *= 0x9E3779B97F4A7C15ULL; h ^= h >> 29; } return h; } };
static std::unordered_map<std::vector<u32>, QRes, VHash> g_cache;
static unsigned g_rlimit = 400000000;

static void collect(E e, std::set<E> &seen, std::vector<E> &syms) {
    if (e->op == CONST || !seen.insert(e).second) return;
    if (e->op == SYM) { syms.push_back(e); return; }
    for (int i = 0; i < 3; i++) if (e->a[i]) collect(e->a[i], seen, syms);
}

/* is pc AND q satisfiable?  on sat fills *out with a model of everything */
static bool feasible(const State &st, E q, Model *out) {
    if (isc(q)) { if (q->k && out) *out = st.m; return q->k != 0; }
    SymSet s = q->syms;
    std::vector<E> use; std::vector<char> in(st.pc.size(), 0);
    bool ch = true;
    while (ch) { ch = false;
        for (size_t i = 0; i < st.pc.size(); i++) if (!in[i] && st.pc[i]->syms.meets(s)) { in[i] = 1; if (!st.pc[i]->syms.within(s)) { s.unite(st.pc[i]->syms); ch = true; } } }
    std::vector<u32> key;
    for (size_t i = 0; i < st.pc.size(); i++) if (in[i]) { use.push_back(st.pc[i]); key.push_back(st.pc[i]->id); }
    key.push_back(q->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = g_cache.find(key);
    if (it == g_cache.end()) {
        double t0 = now();
        S.queries++;
        QRes r;
        ZS->reset();
        for (E e : use) ZS->add(tr(e));
        ZS->add(tr(q));
        z3::check_result cr = ZS->check();
        if (getenv("SYMX_DUMP") && now() - t0 > atof(getenv("SYMX_DUMP"))) { char n[64]; snprintf(n, sizeof n, "/tmp/q-%d-%llu.smt2", (int) getpid(), (unsigned long long) S.queries); std::ofstream(n) << ZS->to_smt2(); }
        if (cr == z3::unknown) { S.unknown++; r.sat = 2; }
        else if (cr == z3::unsat) { S.unsat++; r.sat = 0; }
        else {
            S.sat++; r.sat = 1;
            z3::model zm = ZS->get_model();
            std::set<E> seen; std::vector<E> syms;
            for (E e : use) collect(e, seen, syms);
            collect(q, seen, syms);
            for (E y : syms) {
                z3::expr v = zm.eval(tr(y), true);
                u64 x = y->w == 1 ? (v.is_true() ? 1 : 0) : v.get_numeral_uint64();
                r.m.push_back({y->k, x});
            }
        }
        S.solver_s += now() - t0;
        it = g_cache.emplace(std::move(key), std::move(r)).first;
    } else S.cache++;
    if (it->second.sat == 2) die("solver returned unknown");
    if (it->second.sat == 0) return false;
    if (out) {
        *out = st.m;
        for (auto &p : it->second.m) {
            if (p.first >= UNDEF_BASE) { size_t i = p.first - UNDEF_BASE; if (out->un.size() <= i) out->un.resize(i + 1, 0); out->un[i] = p.second; }
            else { if (out->in.size() <= p.first) out->in.resize(p.first + 1, 0); out->in[p.first] = p.second; }
        }
    }
    return true;
}

/* ------------------------------------------------------------------ compile */
static unsigned widthOf(Type *t) {
    if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 64) die("integer wider than 64 bits"); return w; }
    if (t->isPointerTy()) return 64;
    if (t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isX86_FP80Ty()) die("long double");
    std::string s; raw_string_ostream os(s); t->print(os);
    die("unsupported type " + s);
}
static void leaves(Type *t, u64 off, std::vector<u8> &w, std::vector<u64> &o) {
    if (auto *stt = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(stt); for (unsigned i = 0; i < stt->getNumElements(); i++) leaves(stt->getElementType(i), off + sl->getElementOffset(i), w, o); return; }
    if (auto *at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), off + i * es, w, o); return; }
    w.push_back((u8) widthOf(t)); o.push_back(off);
}
static int nleaves(Type *t) { if (t->isVoidTy()) return 0; std::vector<u8> w; std::vector<u64> o; leaves(t, 0, w, o); return (int) w.size(); }

static u64 fnaddr(Function *f) {
    CFn *&c = g_fns[f];
    if (!c) {
        c = new CFn; c->f = f; c->name = f->getName().str();
        c->bif = bif_of(f->getName());
        if (auto *sp = f->getSubprogram()) { std::string d = sp->getDirectory().str(), n = sp->getFilename().str(); c->file = n.size() && n[0] == '/' ? n : d + "/" + n; }
        g_fnlist.push_back(c);
        c->nslots = (int) g_fnlist.size() - 1; /* temporarily the index */
        c->argslot.push_back({(int) g_fnlist.size() - 1, 0});
    }
    return mkaddr(R_FUNC, (u64) c->argslot[0].first + 1);
}
static CFn *fnof(Function *f) { fnaddr(f); return g_fns[f]; }

static u64 constval(const Constant *c, bool *undef);
static u64 gaddr(GlobalVariable *g);

static u64 constval(const Constant *c, bool *undef) {
    if (auto *i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) die("wide constant"); return i->getZExtValue(); }
    if (auto *f = dyn_cast<ConstantFP>(c)) { if (f->getType()->isX86_FP80Ty()) die("long double"); return f->getValueAPF().bitcastToAPInt().getZExtValue(); }
    if (isa<ConstantPointerNull>(c)) return 0;
    if (isa<UndefValue>(c)) { if (undef) *undef = true; return 0; }
    if (isa<ConstantAggregateZero>(c)) return 0;
    if (auto *f = dyn_cast<Function>(c)) return fnaddr(const_cast<Function *>(f));
    if (auto *g = dyn_cast<GlobalVariable>(c)) return gaddr(const_cast<GlobalVariable *>(g));
    if (auto *a = dyn_cast<GlobalAlias>(c)) return constval(a->getAliasee(), undef);
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        unsigned w = widthOf(ce->getType());
        auto v = [&](unsigned i) { return constval(cast<Constant>(ce->getOperand(i)), undef); };
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            auto *gp = cast<GEPOperator>(ce);
            APInt off(64, 0);
            if (!gp->accumulateConstantOffset(*DL, off)) die("constant gep");
            return v(0) + off.getZExtValue();
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: return v(0) & mask(w);
        case Instruction::Add: return (v(0) + v(1)) & mask(w);
        case Instruction::Sub: return (v(0) - v(1)) & mask(w);
        case Instruction::Select: return v(0) ? v(1) : v(2);
        default: break;
        }
        std::string s; raw_string_ostream os(s); ce->print(os);
        die("constant expression " + s);
    }
    std::string s; raw_string_ostream os(s); c->print(os);
    die("constant " + s);
}
static std::vector<ObjRef> g_globals; /* initial global objects, index = id */
static void initmem(Obj *o, u64 off, const Constant *c) {
    Type *t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
    if (auto *d = dyn_cast<ConstantDataSequential>(c)) {
        u64 es = DL->getTypeAllocSize(d->getElementType());
        for (u64 i = 0; i < d->getNumElements(); i++) initmem(o, off + i * es, d->getElementAsConstant((unsigned) i));
        return;
    }
    if (auto *a = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(cast<ArrayType>(t)->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) initmem(o, off + i * es, a->getOperand(i)); return; }
    if (auto *s = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < s->getNumOperands(); i++) initmem(o, off + sl->getElementOffset(i), s->getOperand(i)); return; }
    u64 v = constval(c, nullptr), n = DL->getTypeStoreSize(t);
    for (u64 i = 0; i < n; i++) o->data[off + i] = (u8) (v >> (8 * i));
}
static std::vector<GlobalVariable *> g_pending;
static u64 gaddr(GlobalVariable *g) {
    auto it = g_gaddr.find(g);
    if (it != g_gaddr.end()) return it->second;
    Obj *o = new Obj;
    o->size = g->getValueType()->isSized() ? (u32) DL->getTypeAllocSize(g->getValueType()) : 8;
    o->ro = g->isConstant(); o->kind = R_GLOBAL;
    o->data.assign(o->size, 0); o->st.assign(o->size, 0);
    g_globals.push_back(ObjRef(o));
    u64 a = mkaddr(R_GLOBAL, g_globals.size() - 1);
    g_gaddr[g] = a;
    g_pending.push_back(g);
    return a;
}

static void compile(CFn *cf) {
    if (cf->compiled) return;
    cf->compiled = true;
    Function *F = cf->f;
    std::map<Value *, int> slot;
    int n = 0;
    cf->argslot.resize(1);
    for (auto &a : F->args()) { slot[&a] = n; int k = nleaves(a.getType()); cf->argslot.push_back({n, k}); n += k; }
    for (auto &I : instructions(F)) { if (!I.getType()->isVoidTy()) { slot[&I] = n; n += nleaves(I.getType()); } }
    cf->nslots = n;
    std::map<BasicBlock *, int> bidx;
    int bi = 0;
    for (auto &B : *F) bidx[&B] = bi++;
    cf->bstart.assign(bi, 0);
    auto opn = [&](Value *v, std::vector<Opnd> &out) {
        if (auto *c = dyn_cast<Constant>(v)) {
            if (c->getType()->isAggregateType()) {
                std::vector<u8> w; std::vector<u64> o; leaves(c->getType(), 0, w, o);
                if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (u8 x : w) { Opnd q; q.w = x; q.undef = isa<UndefValue>(c); out.push_back(q); } return; }
                if (auto *cs = dyn_cast<ConstantStruct>(c)) { for (auto &e : cs->operands()) { Opnd q; q.c = constval(cast<Constant>(e), &q.undef); q.w = (u8) widthOf(e->getType()); out.push_back(q); } return; }
                die("aggregate constant operand");
            }
            Opnd q; q.c = constval(c, &q.undef); q.w = (u8) widthOf(c->getType()); out.push_back(q); return;
        }
        auto it = slot.find(v);
        if (it == slot.end()) die("operand without slot");
        std::vector<u8> w; std::vector<u64> o; leaves(v->getType(), 0, w, o);
        for (size_t i = 0; i < w.size(); i++) { Opnd q; q.slot = it->second + (int) i; q.w = w[i]; out.push_back(q); }
    };
    for (auto &B : *F) {
        cf->bstart[bidx[&B]] = (int) cf->code.size();
        for (auto &I : B) {
            CInst c;
            if (auto &dl = I.getDebugLoc()) { c.line = (int) dl.getLine(); if (auto *sc = dl->getScope()) c.file = g_files.insert(cast<DIScope>(sc)->getFilename().str()).first->c_str(); }
            if (!I.getType()->isVoidTy()) { c.dst = slot[&I]; c.ndst = nleaves(I.getType()); }
            if (c.ndst == 1 && !I.getType()->isAggregateType()) c.w = (u8) widthOf(I.getType());
            auto bin = [&](Op op) { c.k = I_BIN; c.op = op; opn(I.getOperand(0), c.o); opn(I.getOperand(1), c.o); c.aw = c.o[0].w; };
            auto cst = [&](Op op) { c.k = I_CAST; c.op = op; opn(I.getOperand(0), c.o); c.aw = c.o[0].w; };
            switch (I.getOpcode()) {
            case Instruction::Add: bin(ADD); break;
            case Instruction::Sub: bin(SUB); break;
            case Instruction::Mul: bin(MUL); break;
            case Instruction::UDiv: bin(UDIV); break;
            case Instruction::SDiv: bin(SDIV); break;
            case Instruction::URem: bin(UREM); break;
            case Instruction::SRem: bin(SREM); break;
            case Instruction::And: bin(AND); break;
            case Instruction::Or: bin(OR); break;
            case Instruction::Xor: bin(XOR); break;
            case Instruction::Shl: bin(SHL); break;
            case Instruction::LShr: bin(LSHR); break;
            case Instruction::AShr: bin(ASHR); break;
            case Instruction::FAdd: bin(FADD); break;
            case Instruction::FSub: bin(FSUB); break;
            case Instruction::FMul: bin(FMUL); break;
            case Instruction::FDiv: bin(FDIV); break;
            case Instruction::FRem: bin(FREM); break;
            case Instruction::FNeg: c.k = I_FNEG; opn(I.getOperand(0), c.o); break;
            case Instruction::ICmp: c.k = I_ICMP; c.op = (u8) cast<ICmpInst>(I).getPredicate(); opn(I.getOperand(0), c.o); opn(I.getOperand(1), c.o); c.aw = c.o[0].w; break;
            case Instruction::FCmp: c.k = I_FCMP; c.op = (u8) cast<FCmpInst>(I).getPredicate(); opn(I.getOperand(0), c.o); opn(I.getOperand(1), c.o); c.aw = c.o[0].w; break;
            case Instruction::Trunc: cst(EXTRACT); break;
            case Instruction::ZExt: cst(ZEXT); break;
            case Instruction::SExt: cst(SEXT); break;
            case Instruction::PtrToInt: case Instruction::IntToPtr: { cst(ZEXT); if (c.w < c.aw) c.op = EXTRACT; break; }
            case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: c.k = I_COPY; opn(I.getOperand(0), c.o); break;
            case Instruction::SIToFP: cst(SI2F); break;
            case Instruction::UIToFP: cst(UI2F); break;
            case Instruction::FPToSI: cst(F2SI); break;
            case Instruction::FPToUI: cst(F2UI); break;
            case Instruction::FPExt: cst(FEXT); break;
            case Instruction::FPTrunc: cst(FTRUNC); break;
            case Instruction::Load: c.k = I_LOAD; opn(I.getOperand(0), c.o); leaves(I.getType(), 0, c.leafw, c.leafo); c.size = DL->getTypeStoreSize(I.getType()); break;
            case Instruction::Store: { c.k = I_STORE; auto &si = cast<StoreInst>(I); opn(si.getPointerOperand(), c.o); opn(si.getValueOperand(), c.o); leaves(si.getValueOperand()->getType(), 0, c.leafw, c.leafo); c.size = DL->getTypeStoreSize(si.getValueOperand()->getType()); break; }
            case Instruction::GetElementPtr: {
                c.k = I_GEP; auto &g = cast<GetElementPtrInst>(I); opn(g.getPointerOperand(), c.o);
                for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                    Value *ix = it.getOperand();
                    if (StructType *sty = it.getStructTypeOrNull()) { c.off += DL->getStructLayout(sty)->getElementOffset((unsigned) cast<ConstantInt>(ix)->getZExtValue()); continue; }
                    u64 es = DL->getTypeAllocSize(it.getIndexedType());
                    if (auto *ci = dyn_cast<ConstantInt>(ix)) { c.off += es * (u64) ci->getSExtValue(); continue; }
                    std::vector<Opnd> t; opn(ix, t); c.gep.push_back({t[0], es});
                }
                break;
            }
            case Instruction::Alloca: { c.k = I_ALLOCA; auto &a = cast<AllocaInst>(I); c.size = DL->getTypeAllocSize(a.getAllocatedType()); opn(a.getArraySize(), c.o); break; }
            case Instruction::Br: { auto &b = cast<BranchInst>(I); if (b.isUnconditional()) { c.k = I_BR; c.t = bidx[b.getSuccessor(0)]; } else { c.k = I_CBR; opn(b.getCondition(), c.o); c.t = bidx[b.getSuccessor(0)]; c.f = bidx[b.getSuccessor(1)]; } break; }
            case Instruction::Switch: { auto &s = cast<SwitchInst>(I); c.k = I_SWITCH; opn(s.getCondition(), c.o); c.aw = c.o[0].w; c.f = bidx[s.getDefaultDest()]; for (auto &cs : s.cases()) c.cases.push_back({cs.getCaseValue()->getZExtValue(), bidx[cs.getCaseSuccessor()]}); break; }
            case Instruction::Ret: c.k = I_RET; if (I.getNumOperands()) opn(I.getOperand(0), c.o); break;
            case Instruction::Select: c.k = I_SELECT; opn(I.getOperand(0), c.o); opn(I.getOperand(1), c.o); opn(I.getOperand(2), c.o); break;
            case Instruction::Unreachable: c.k = I_UNREACH; break;
            case Instruction::PHI: { c.k = I_PHI; auto &p = cast<PHINode>(I); for (unsigned i = 0; i < p.getNumIncomingValues(); i++) { std::vector<Opnd> t; opn(p.getIncomingValue(i), t); c.phi.push_back({bidx[p.getIncomingBlock(i)], t}); } break; }
            case Instruction::ExtractValue: { c.k = I_COPY; auto &x = cast<ExtractValueInst>(I); std::vector<Opnd> t; opn(x.getAggregateOperand(), t);
                Type *ty = x.getAggregateOperand()->getType(); int at = 0;
                for (unsigned ix : x.indices()) { if (auto *stt = dyn_cast<StructType>(ty)) { for (unsigned i = 0; i < ix; i++) at += nleaves(stt->getElementType(i)); ty = stt->getElementType(ix); } else { ty = cast<ArrayType>(ty)->getElementType(); at += (int) ix * nleaves(ty); } }
                for (int i = 0; i < c.ndst; i++) c.o.push_back(t[at + i]); break; }
            case Instruction::InsertValue: { c.k = I_COPY; auto &x = cast<InsertValueInst>(I); opn(x.getAggregateOperand(), c.o); std::vector<Opnd> t; opn(x.getInsertedValueOperand(), t);
                Type *ty = x.getAggregateOperand()->getType(); int at = 0;
                for (unsigned ix : x.indices()) { if (auto *stt = dyn_cast<StructType>(ty)) { for (unsigned i = 0; i < ix; i++) at += nleaves(stt->getElementType(i)); ty = stt->getElementType(ix); } else { ty = cast<ArrayType>(ty)->getElementType(); at += (int) ix * nleaves(ty); } }
                for (size_t i = 0; i < t.size(); i++) c.o[at + i] = t[i]; break; }
            case Instruction::Call: {
                auto &ci = cast<CallInst>(I);
                c.k = I_CALL;
                if (isa<DbgInfoIntrinsic>(I)) { c.k = I_NOP; break; }
                Function *f = ci.getCalledFunction();
                if (!f) if (auto *al = dyn_cast<GlobalAlias>(ci.getCalledOperand())) f = dyn_cast<Function>(al->getAliasee());
                if (ci.isInlineAsm()) die("inline asm in " + cf->name);
                c.callee = f;
                if (f && f->isIntrinsic()) {
                    c.intrin = (int) f->getIntrinsicID();
                    switch (c.intrin) { case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stackrestore: c.k = I_NOP; break; default: break; }
                    if (c.k == I_NOP) break;
                } else if (f) fnaddr(f);
                { std::vector<Opnd> t; if (!f || !f->isIntrinsic()) opn(ci.getCalledOperand(), t); else t.push_back(Opnd()); c.o.push_back(t[0]); }
                for (unsigned i = 0; i < ci.arg_size(); i++) { int first = (int) c.o.size(); if (ci.getArgOperand(i)->getType()->isMetadataTy()) continue; opn(ci.getArgOperand(i), c.o); c.args.push_back({first, (int) c.o.size() - first}); c.byval.push_back(ci.isByValArgument(i) ? (u64) DL->getTypeAllocSize(ci.getParamByValType(i)) : 0); }
                break;
            }
            case Instruction::AtomicRMW: case Instruction::AtomicCmpXchg: case Instruction::Fence: die("atomic instruction"); break;
            default: { std::string s; raw_string_ostream os(s); I.print(os); die("instruction " + s); }
            }
            cf->code.push_back(std::move(c));
        }
    }
}

/* ------------------------------------------------------------------ errors */
struct Report { std::string kind, msg, file, func, stack; int line; std::vector<std::vector<long long>> inputs; u64 count = 0; };
static std::map<std::string, Report> g_errs;
static std::vector<std::string> g_samples;
static u64 g_nsamples = 32, g_seen = 0, g_steps = 3000000, g_maxerr = 60;
static double g_deadline, g_t0;
static std::string g_fatal;
static bool g_dfs_stop = false;
static u64 g_totalerr = 0;
static u64 g_rng = 88172645463325252ULL;
static u64 rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return g_rng; }

static std::vector<State *> g_work;
struct PathEnd { };

static std::vector<long long> inputs_of(const State &s, const Model &m) {
    std::vector<long long> r;
    for (size_t i = 0; i < s.inputs.size(); i++) { u64 v = i < m.in.size() ? m.in[i] : 0; unsigned w = s.inputs[i].first; v &= mask(w); r.push_back(w == 8 ? (long long) v : sx(v, w)); }
    return r;
}
static void report(const State &s, const std::string &kind, const std::string &msg, const Model &m) {
    /* innermost frame that belongs to the sources under test or the harness, not to the libc models */
    std::string file, func, stack; int line = 0; bool got = false;
    for (size_t i = s.fr.size(); i-- > 0;) {
        const Frame &f = s.fr[i];
        const CInst &c = f.fn->code[f.cur];
        stack += (stack.empty() ? "" : " < ") + f.fn->name + ":" + std::to_string(c.line);
        if (!got && f.fn->file.find("/libc.c") == std::string::npos && f.fn->file.find("/vp.c") == std::string::npos && f.fn->file.find("/vp.h") == std::string::npos) { file = f.fn->file; func = f.fn->name; line = c.line; got = true; }
    }
    std::string key = kind + "|" + msg + "|" + func + "|" + std::to_string(line);
    Report &r = g_errs[key];
    if (r.count == 0) { r.kind = kind; r.msg = msg; r.file = file; r.func = func; r.line = line; r.stack = stack; }
    if (kind != "uninit" || r.count == 0) g_totalerr++;
    r.count++;
    if (r.inputs.size() < 3) r.inputs.push_back(inputs_of(s, m));
    if (g_totalerr >= g_maxerr) g_dfs_stop = true;
}

static void addpc(State &s, E c) {
    if (isc(c)) return;
    if (c->op == AND && c->w == 1) { addpc(s, c->a[0]); addpc(s, c->a[1]); return; }
    if (c->op == EQ && c->a[0]->op == SYM && isc(c->a[1]) && !c->syms.anon()) s.known.unite(c->a[0]->syms);
    s.pc.push_back(c);
}
static State *forkst(State &s) { S.forks++; return new State(s); }

/* ------------------------------------------------------------------ interp */
struct Interp {
    State *s;
    Frame *f;

    Val get(const Opnd &o) {
        if (o.slot >= 0) return f->r[o.slot];
        if (o.undef) return ev(raw(SYM, o.w, UNDEF_BASE + (u64) s->nundef++));
        return cv(o.c);
    }
    [[noreturn]] void endpath() { throw PathEnd(); }
    void err(const std::string &k, const std::string &m) { report(*s, k, m, s->m); S.err_paths++; endpath(); }

    /* decide a 1-bit expression: returns the side this state follows; the other side is queued */
    bool branch(E c, bool advance_other_to_reexec) {
        bool side = eval(c, s->m) != 0;
        if (c->syms.within(s->known)) return side;
        E other = side ? mknot(c) : c;
        Model om;
        if (feasible(*s, other, &om)) {
            if (c->undef) checkundef(c);
            State *o = forkst(*s);
            o->m = om;
            addpc(*o, other);
            /* 'o' re-executes the current instruction and takes the other side */
            o->fr.back().pc = o->fr.back().cur;
            g_work.push_back(o);
            addpc(*s, side ? c : mknot(c));
        }
        return side;
    }
    std::set<std::pair<CFn *, int>> undef_done;
    void checkundef(E c) {
        /* does the outcome really depend on the uninitialised bytes? */
        report(*s, "uninit", "a decision depends on uninitialised memory", s->m);
    }
    u64 concretize(Val v, unsigned w) {
        if (!v.e) return v.v;
        u64 x = eval(v.e, s->m);
        if (v.e->undef) checkundef(v.e);
        if (v.e->syms.within(s->known)) return x;
        E eq = mk(EQ, 1, v.e, mkc(x, w));
        Model om;
        if (feasible(*s, mknot(eq), &om)) {
            State *o = forkst(*s);
            o->m = om; addpc(*o, mknot(eq));
            o->fr.back().pc = o->fr.back().cur;
            g_work.push_back(o);
            addpc(*s, eq);
        }
        return x;
    }

    std::vector<ObjRef> *region(u64 a) { switch (a >> 44) { case R_GLOBAL: return &s->glob; case R_STACK: return &s->stk; case R_HEAP: return &s->heap; default: return nullptr; } }
    Obj *lookup(u64 a) { auto *r = region(a); if (!r) return nullptr; u64 id = (a >> 24) & 0xfffff; return id < r->size() ? (*r)[id].p : nullptr; }
    Obj *writable(u64 a) {
        auto *r = region(a); ObjRef &ref = (*r)[(a >> 24) & 0xfffff];
        if (ref.p->refs > 1) { Obj *n = new Obj(*ref.p); n->refs = 0; ref = ObjRef(n); }
        return ref.p;
    }
    std::string addrdesc(u64 a, u64 n) {
        char b[160];
        if ((a >> 24) == 0) { snprintf(b, sizeof b, "null pointer dereference"); return b; }
        auto *r = region(a); u64 id = (a >> 24) & 0xfffff;
        if (!r) { snprintf(b, sizeof b, "wild pointer dereference"); return b; }
        const char *k = (a >> 44) == R_HEAP ? "heap" : (a >> 44) == R_STACK ? "stack" : "global";
        if (id < r->size() && (*r)[id].p) snprintf(b, sizeof b, "%s out of bounds access", k);
        else if (id < r->size()) snprintf(b, sizeof b, "%s use after free", k);
        else snprintf(b, sizeof b, "%s out of bounds access", k);
        return b;
    }
    /* ensure [a, a+n) is accessible; returns the object */
    Obj *access(u64 a, u64 n, bool wr) {
        Obj *o = lookup(a);
        u64 off = a & 0xffffff;
        if (!o || off + n > o->size) err("memory", addrdesc(a, n));
        if (wr && o->ro) err("memory", "write to read-only memory");
        return o;
    }
    E bytesym(Obj *o, u64 off) { if (o->sy.size() < o->size) o->sy.resize(o->size, nullptr); return o->sy[off]; }
    Val rdbytes(u64 a, u64 n, unsigned w) {
        Obj *o = access(a, n, false);
        u64 off = a & 0xffffff;
        bool conc = true, un = false;
        u64 v = 0;
        for (u64 i = 0; i < n; i++) { u8 t = o->st[off + i]; if (t) { conc = false; if (t == 2) un = true; } v |= (u64) o->data[off + i] << (8 * i); }
        if (conc) return cv(v & mask(w));
        if (un) { o = writable(a); if (o->sy.size() < o->size) o->sy.resize(o->size, nullptr);
            for (u64 i = 0; i < n; i++) if (o->st[off + i] == 2) { o->sy[off + i] = raw(SYM, 8, UNDEF_BASE + (u64) s->nundef++); o->st[off + i] = 1; } }
        E r = nullptr;
        for (u64 i = 0; i < n; i++) {
            E b = o->st[off + i] ? o->sy[off + i] : mkc(o->data[off + i], 8);
            r = r ? mk(CONCAT, r->w + 8, b, r) : b;
        }
        if (r->w > w) r = mk(EXTRACT, w, r, nullptr, nullptr, 0);
        return ev(r);
    }
    void wrbytes(u64 a, u64 n, const Val &v, unsigned w) {
        access(a, n, true);
        Obj *o = writable(a);
        u64 off = a & 0xffffff;
        if (!v.e) { for (u64 i = 0; i < n; i++) { o->data[off + i] = (u8) (v.v >> (8 * i)); o->st[off + i] = 0; } return; }
        if (o->sy.size() < o->size) o->sy.resize(o->size, nullptr);
        E e = v.e;
        if (e->w < n * 8) e = mk(ZEXT, (unsigned) n * 8, e);
        for (u64 i = 0; i < n; i++) {
            E b = mk(EXTRACT, 8, e, nullptr, nullptr, i * 8);
            if (isc(b)) { o->data[off + i] = (u8) b->k; o->st[off + i] = 0; } else { o->sy[off + i] = b; o->st[off + i] = 1; }
        }
    }
    /* symbolic address: settle which object it points into, report anything outside.  Returns the object base. */
    u64 settle(E a, u64 n, bool wr) {
        u64 x = eval(a, s->m);
        Obj *o = lookup(x);
        u64 off = x & 0xffffff;
        if (!o || off + n > o->size) {
            /* the current model is already outside */
            err("memory", addrdesc(x, n));
        }
        u64 base = x & ~0xffffffULL;
        E inb = mk(ULE, 1, mk(SUB, 64, a, mkc(base, 64)), mkc(o->size - n, 64));
        branch(inb, true); /* side is true under the model; the other state re-executes with a model outside */
        return base;
    }
    Val load(const Val &ap, u64 n, unsigned w) {
        if (!ap.e) return rdbytes(ap.v, n, w);
        if (ap.e->undef) checkundef(ap.e);
        if (ap.e->syms.within(s->known)) return rdbytes(eval(ap.e, s->m), n, w);
        u64 base = settle(ap.e, n, false);
        Obj *o = lookup(base);
        if (n == 1 || o->ro) {
            /* if-then-else over the object's contents, runs of equal values collapsed */
            u64 stride = n;
            E idx = mk(SUB, 64, ap.e, mkc(base, 64));
            std::vector<std::pair<u64, Val>> el;
            if (n > 1) { /* only aligned accesses */
                E al = mk(EQ, 1, mk(EXTRACT, 3, idx, nullptr, nullptr, 0), mkc(0, 3));
                if (n == 4) al = mk(EQ, 1, mk(EXTRACT, 2, idx, nullptr, nullptr, 0), mkc(0, 2));
                if (n == 2) al = mk(EQ, 1, mk(EXTRACT, 1, idx, nullptr, nullptr, 0), mkc(0, 1));
                if (feasible(*s, mknot(al), nullptr)) { u64 x = concretize(ap, 64); return rdbytes(x, n, w); }
            }
            bool un = false;
            for (u8 t : o->st) if (t == 2) un = true;
            if (o->size <= 4096 && !un) {
                for (u64 i = 0; i + n <= o->size; i += stride) el.push_back({i, rdbytes(base + i, n, w)});
                E r = ex(el.back().second, w);
                for (size_t i = el.size() - 1; i-- > 0;) {
                    E v = ex(el[i].second, w);
                    E nx = ex(el[i + 1].second, w);
                    if (v == nx) continue;
                    r = mk(ITE, w, mk(ULT, 1, idx, mkc(el[i + 1].first, 64)), v, r);
                }
                return ev(r);
            }
        }
        return rdbytes(concretize(ap, 64), n, w);
    }
    void store(const Val &ap, u64 n, const Val &v, unsigned w) {
        u64 a = ap.v;
        if (ap.e) {
            if (!ap.e->syms.within(s->known)) settle(ap.e, n, true);
            a = concretize(ap, 64);
        }
        wrbytes(a, n, v, w);
    }
    u64 alloc(unsigned reg, u64 size, u8 fill, bool init) {
        Obj *o = new Obj; o->size = (u32) size; o->kind = (u8) reg;
        o->data.assign(size, fill); o->st.assign(size, init ? 0 : 2);
        auto &v = reg == R_STACK ? s->stk : s->heap;
        v.push_back(ObjRef(o));
        if (v.size() >= 0xfffff) die("too many objects");
        return mkaddr(reg, v.size() - 1);
    }
    void copymem(u64 d, u64 sr, u64 n, bool chk) {
        if (n == 0) return;
        access(sr, n, false); access(d, n, true);
        if (chk && d != sr && (d >> 24) == (sr >> 24) && (d < sr ? d + n > sr : sr + n > d)) err("memory", "memcpy with overlapping regions");
        ObjRef keep((region(sr))->at((sr >> 24) & 0xfffff));
        Obj *o = writable(d), *p = keep.p;
        u64 od = d & 0xffffff, os = sr & 0xffffff;
        std::vector<u8> dt(p->data.begin() + os, p->data.begin() + os + n), st(p->st.begin() + os, p->st.begin() + os + n);
        std::vector<E> sy; bool any = false;
        for (u8 t : st) if (t == 1) any = true;
        if (any) { sy.assign(p->sy.begin() + os, p->sy.begin() + os + n); if (o->sy.size() < o->size) o->sy.resize(o->size, nullptr); std::copy(sy.begin(), sy.end(), o->sy.begin() + od); }
        std::copy(dt.begin(), dt.end(), o->data.begin() + od);
        std::copy(st.begin(), st.end(), o->st.begin() + od);
    }
    std::string cstr(u64 a) { std::string r; for (;;) { Obj *o = lookup(a); if (!o || (a & 0xffffff) >= o->size) break; char ch = (char) o->data[a & 0xffffff]; if (!ch) break; r += ch; a++; if (r.size() > 300) break; } return r; }

    void jump(int to) {
        int from = f->prev; (void) from;
        int at = f->fn->bstart[to];
        auto &code = f->fn->code;
        if (code[at].k == I_PHI) {
            std::vector<std::pair<int, Val>> upd;
            int p = at;
            for (; code[p].k == I_PHI; p++) {
                for (auto &in : code[p].phi) if (in.first == f->prev) { for (size_t i = 0; i < in.second.size(); i++) upd.push_back({code[p].dst + (int) i, get(in.second[i])}); break; }
            }
            for (auto &u : upd) f->r[u.first] = u.second;
            at = p;
        }
        f->pc = at;
        f->prev = to;
    }
    void setErrno(int v);
    u64 errnoAddr = 0;

    void enter(CFn *fn, std::vector<Val> &args, const CInst *call, int fixed, std::vector<u8> *argw) {
        compile(fn);
        if (s->fr.size() > 2000) err("recursion", "recursion deeper than 2000 frames");
        fn->seen = true;
        Frame nf; nf.fn = fn; nf.pc = 0; nf.cur = 0; nf.r.resize(fn->nslots); nf.stk = s->stk.size(); nf.ret = call ? call->dst : -1; nf.prev = 0;
        if (fn->f->isVarArg()) {
            u64 n = args.size() - fixed;
            nf.va = alloc(R_STACK, n * 8 ? n * 8 : 1, 0, true); nf.vasz = (u32) (n * 8);
            for (u64 i = 0; i < n; i++) { Val v = args[fixed + i]; unsigned w = (*argw)[fixed + i]; if (v.e && w < 64) v = ev(mk(ZEXT, 64, v.e)); wrbytes(nf.va + i * 8, 8, v, 64); }
        }
        for (size_t i = 0; i < args.size() && i < (size_t) fixed; i++) nf.r[i] = args[i];
        s->fr.push_back(std::move(nf));
        f = &s->fr.back();
    }
    void ret(const CInst &c) {
        std::vector<Val> rv;
        for (auto &o : c.o) rv.push_back(get(o));
        size_t base = f->stk;
        int dst = f->ret;
        s->stk.resize(base);
        s->fr.pop_back();
        if (s->fr.empty()) { complete(); endpath(); }
        f = &s->fr.back();
        if (dst >= 0) for (size_t i = 0; i < rv.size(); i++) f->r[dst + i] = rv[i];
    }
    void complete() {
        S.completed++;
        if (s->reached) S.reached++;
        ++g_seen;
        std::string o = "{\"in\":[";
        bool take = g_samples.size() < g_nsamples;
        size_t at = g_samples.size();
        if (!take && g_nsamples) { u64 k = rnd() % g_seen; if (k < g_nsamples) { take = true; at = k; } }
        if (!take) return;
        auto v = inputs_of(*s, s->m);
        for (size_t i = 0; i < v.size(); i++) o += (i ? "," : "") + std::to_string(v[i]);
        o += "],\"asserts\":" + std::to_string(s->asserts) + ",\"undef\":" + std::to_string(s->nundef) + ",\"reached\":" + (s->reached ? "true" : "false") + "}";
        if (at < g_samples.size()) g_samples[at] = o; else g_samples.push_back(o);
    }
    Val newsym(unsigned w) {
        u64 id = s->inputs.size();
        s->inputs.push_back({(u8) w, true});
        if (s->m.in.size() <= id) s->m.in.resize(id + 1, 0);
        return ev(raw(SYM, w, id));
    }
    void call(const CInst &c);
    void intrinsic(const CInst &c);
    bool builtin(CFn *fn, const CInst &c, std::vector<Val> &a, std::vector<u8> &w);
    void step();
    void run(State *st) {
        s = st;
        f = &s->fr.back();
        try {
            for (;;) {
                step();
                if ((++S.insts & 0xfff) == 0 && now() > g_deadline) { g_fatal = "time budget exhausted"; g_dfs_stop = true; break; }
                if (++s->steps > g_steps) { report(*s, "nontermination", "path exceeds the step budget", s->m); S.err_paths++; break; }
            }
        } catch (PathEnd &) {}
        if (s->pc.size() > S.maxdepth) S.maxdepth = s->pc.size();
        S.paths++;
        S.asserts += s->asserts;
        delete s;
    }
};

void Interp::step() {
    const CInst &c = f->fn->code[f->pc];
    f->cur = f->pc++;
    switch (c.k) {
    case I_NOP: break;
    case I_PHI: die("stray phi");
    case I_COPY: { if (c.o.size() == 1) f->r[c.dst] = get(c.o[0]); else { std::vector<Val> t; for (auto &o : c.o) t.push_back(get(o)); for (size_t i = 0; i < t.size(); i++) f->r[c.dst + i] = t[i]; } break; }
    case I_BIN: {
        Val a = get(c.o[0]), b = get(c.o[1]);
        if (c.op == UDIV || c.op == SDIV || c.op == UREM || c.op == SREM) {
            if (b.e) { E z = mk(EQ, 1, b.e, mkc(0, c.w)); if (branch(z, true)) err("arith", "division by zero"); }
            else if (b.v == 0) err("arith", "division by zero");
        }
        if (c.op == SHL || c.op == LSHR || c.op == ASHR) {
            if (b.e) { E z = mk(ULT, 1, b.e, mkc(c.w, c.w)); if (!branch(z, true)) err("arith", "shift amount out of range"); }
            else if (b.v >= c.w) err("arith", "shift amount out of range");
        }
        if (!a.e && !b.e) f->r[c.dst] = cv(apply((Op) c.op, c.w, c.aw, 0, a.v, b.v, 0, 0));
        else f->r[c.dst] = ev(mk((Op) c.op, c.w, ex(a, c.w), ex(b, c.w)));
        break;
    }
    case I_FNEG: { Val a = get(c.o[0]); u64 sb = 1ULL << (c.w - 1); f->r[c.dst] = a.e ? ev(mk(XOR, c.w, a.e, mkc(sb, c.w))) : cv(a.v ^ sb); break; }
    case I_ICMP: {
        Val a = get(c.o[0]), b = get(c.o[1]);
        Op op; bool sw = false, ng = false;
        switch ((CmpInst::Predicate) c.op) {
        case CmpInst::ICMP_EQ: op = EQ; break;
        case CmpInst::ICMP_NE: op = EQ; ng = true; break;
        case CmpInst::ICMP_ULT: op = ULT; break;
        case CmpInst::ICMP_ULE: op = ULE; break;
        case CmpInst::ICMP_UGT: op = ULT; sw = true; break;
        case CmpInst::ICMP_UGE: op = ULE; sw = true; break;
        case CmpInst::ICMP_SLT: op = SLT; break;
        case CmpInst::ICMP_SLE: op = SLE; break;
        case CmpInst::ICMP_SGT: op = SLT; sw = true; break;
        default: op = SLE; sw = true; break;
        }
        if (sw) std::swap(a, b);
        if (!a.e && !b.e) f->r[c.dst] = cv(apply(op, 1, c.aw, 0, a.v, b.v, 0, 0) ^ (ng ? 1 : 0));
        else { E r = mk(op, 1, ex(a, c.aw), ex(b, c.aw)); f->r[c.dst] = ev(ng ? mknot(r) : r); }
        break;
    }
    case I_FCMP: {
        E a = ex(get(c.o[0]), c.aw), b = ex(get(c.o[1]), c.aw);
        E u = mk(FUNO, 1, a, b), r;
        switch ((CmpInst::Predicate) c.op) {
        case CmpInst::FCMP_OEQ: r = mk(FOEQ, 1, a, b); break;
        case CmpInst::FCMP_OGT: r = mk(FOLT, 1, b, a); break;
        case CmpInst::FCMP_OGE: r = mk(FOLE, 1, b, a); break;
        case CmpInst::FCMP_OLT: r = mk(FOLT, 1, a, b); break;
        case CmpInst::FCMP_OLE: r = mk(FOLE, 1, a, b); break;
        case CmpInst::FCMP_ONE: r = mk(AND, 1, mknot(u), mknot(mk(FOEQ, 1, a, b))); break;
        case CmpInst::FCMP_ORD: r = mknot(u); break;
        case CmpInst::FCMP_UNO: r = u; break;
        case CmpInst::FCMP_UEQ: r = mk(OR, 1, u, mk(FOEQ, 1, a, b)); break;
        case CmpInst::FCMP_UGT: r = mk(OR, 1, u, mk(FOLT, 1, b, a)); break;
        case CmpInst::FCMP_UGE: r = mk(OR, 1, u, mk(FOLE, 1, b, a)); break;
        case CmpInst::FCMP_ULT: r = mk(OR, 1, u, mk(FOLT, 1, a, b)); break;
        case CmpInst::FCMP_ULE: r = mk(OR, 1, u, mk(FOLE, 1, a, b)); break;
        case CmpInst::FCMP_UNE: r = mknot(mk(FOEQ, 1, a, b)); break;
        case CmpInst::FCMP_TRUE: r = mkc(1, 1); break;
        default: r = mkc(0, 1); break;
        }
        f->r[c.dst] = ev(r);
        break;
    }
    case I_CAST: {
        Val a = get(c.o[0]);
        if (!a.e) f->r[c.dst] = cv(apply((Op) c.op, c.w, c.aw, 0, a.v, 0, 0, 0));
        else f->r[c.dst] = ev(mk((Op) c.op, c.w, a.e));
        break;
    }
    case I_SELECT: {
        Val k = get(c.o[0]); size_t n = (c.o.size() - 1) / 2;
        if (!k.e) { for (size_t i = 0; i < n; i++) f->r[c.dst + i] = get(c.o[1 + i + (k.v ? 0 : n)]); }
        else for (size_t i = 0; i < n; i++) { unsigned w = c.o[1 + i].w; f->r[c.dst + i] = ev(mk(ITE, w, k.e, ex(get(c.o[1 + i]), w), ex(get(c.o[1 + n + i]), w))); }
        break;
    }
    case I_LOAD: {
        Val a = get(c.o[0]);
        if (c.leafw.size() == 1) { f->r[c.dst] = load(a, c.size, c.leafw[0]); break; }
        u64 b = concretize(a, 64);
        for (size_t i = 0; i < c.leafw.size(); i++) f->r[c.dst + i] = rdbytes(b + c.leafo[i], (c.leafw[i] + 7) / 8, c.leafw[i]);
        break;
    }
    case I_STORE: {
        Val a = get(c.o[0]);
        if (c.leafw.size() == 1) { store(a, c.size, get(c.o[1]), c.leafw[0]); break; }
        u64 b = concretize(a, 64);
        for (size_t i = 0; i < c.leafw.size(); i++) wrbytes(b + c.leafo[i], (c.leafw[i] + 7) / 8, get(c.o[1 + i]), c.leafw[i]);
        break;
    }
    case I_GEP: {
        Val p = get(c.o[0]);
        u64 cc = c.off; E e = nullptr;
        for (auto &g : c.gep) {
            Val i = get(g.first); unsigned w = g.first.w;
            if (!i.e) cc += (u64) sx(i.v, w) * g.second;
            else { E x = w < 64 ? mk(SEXT, 64, i.e) : i.e; x = mk(MUL, 64, x, mkc(g.second, 64)); e = e ? mk(ADD, 64, e, x) : x; }
        }
        if (!p.e && !e) f->r[c.dst] = cv(p.v + cc);
        else { E r = mk(ADD, 64, ex(p, 64), mkc(cc, 64)); if (e) r = mk(ADD, 64, e, r); f->r[c.dst] = ev(r); }
        break;
    }
    case I_ALLOCA: { u64 n = concretize(get(c.o[0]), 64); u64 sz = n * c.size; f->r[c.dst] = cv(alloc(R_STACK, sz ? sz : 1, 0xbe, false)); break; }
    case I_BR: jump(c.t); break;
    case I_CBR: { Val k = get(c.o[0]); bool t = k.e ? branch(k.e, true) : k.v != 0; jump(t ? c.t : c.f); break; }
    case I_SWITCH: {
        Val k = get(c.o[0]);
        if (!k.e) { int t = c.f; for (auto &cs : c.cases) if (cs.first == k.v) { t = cs.second; break; } jump(t); break; }
        /* decide case by case */
        int t = c.f;
        for (auto &cs : c.cases) { E q = mk(EQ, 1, k.e, mkc(cs.first, c.aw)); if (isc(q)) { if (q->k) { t = cs.second; break; } continue; } if (branch(q, true)) { t = cs.second; break; } }
        jump(t);
        break;
    }
    case I_RET: ret(c); break;
    case I_CALL: call(c); break;
    case I_UNREACH: err("unreachable", "unreachable code reached");
    default: die("bad instruction");
    }
}

void Interp::setErrno(int v) {
    static CFn *el = nullptr; static GlobalVariable *g = nullptr;
    if (!g) g = M->getGlobalVariable("vp_errno", true);
    (void) el;
    if (g) wrbytes(g_gaddr[g], 4, cv((u32) v), 32);
}

bool Interp::builtin(CFn *fn, const CInst &c, std::vector<Val> &a, std::vector<u8> &w) {
    auto R = [&](Val v) { if (c.dst >= 0) f->r[c.dst] = v; };
    switch (fn->bif) {
    case B_NONE: return false;
    case B_SYM8: R(newsym(8)); return true;
    case B_SYM32: R(newsym(32)); return true;
    case B_SYM64: R(newsym(64)); return true;
    case B_FMTD: { /* (dst, cap, format, double bits): real number conversions are the C library's, on concrete values */
        u64 d = concretize(a[0], 64), cap = concretize(a[1], 64), fp = concretize(a[2], 64), b = concretize(a[3], 64); std::string fmt; double v;
        for (;; fp++) { access(fp, 1, false); char ch = (char) concretize(rdbytes(fp, 1, 8), 8); if (!ch) break; fmt += ch; }
        memcpy(&v, &b, 8); std::string out(512, 0); int r = snprintf(&out[0], out.size(), fmt.c_str(), v);
        if (r < 0 || (u64) r >= cap || r > 500) die("fmtd");
        access(d, r + 1, true); for (int i = 0; i <= r; i++) wrbytes(d + i, 1, cv((u8) out[i]), 8);
        R(cv((u64) r)); return true; }
    case B_STRTOD: { /* (s, pointer to the result bits) -> characters used */
        u64 p = concretize(a[0], 64), q = concretize(a[1], 64); std::string t;
        for (;; p++) { access(p, 1, false); char ch = (char) concretize(rdbytes(p, 1, 8), 8); if (!ch) break; t += ch; }
        char *e; double v = strtod(t.c_str(), &e); u64 b; memcpy(&b, &v, 8); access(q, 8, true); wrbytes(q, 8, cv(b), 64); R(cv((u64) (e - t.c_str()))); return true; }
    case B_CONC: R(cv(concretize(a[0], w[0]))); return true;
    case B_PICK: {
        int64_t lo = (int64_t) concretize(a[0], 64), hi = (int64_t) concretize(a[1], 64);
        if (lo > hi) { S.assumed_away++; endpath(); }
        u64 id = s->inputs.size();
        Val x = newsym(64);
        for (int64_t v = hi; v > lo; v--) {
            State *o = forkst(*s);
            addpc(*o, mk(EQ, 1, x.e, mkc((u64) v, 64)));
            o->m.in[id] = (u64) v;
            if (c.dst >= 0) o->fr.back().r[c.dst] = cv((u64) v);
            g_work.push_back(o);
        }
        addpc(*s, mk(EQ, 1, x.e, mkc((u64) lo, 64)));
        s->m.in[id] = (u64) lo;
        R(cv((u64) lo));
        return true;
    }
    case B_ASSUME: {
        if (!a[0].e) { if (!(a[0].v & mask(w[0]))) { S.assumed_away++; endpath(); } return true; }
        E q = mknot(mk(EQ, 1, a[0].e, mkc(0, w[0])));
        if (isc(q)) { if (!q->k) { S.assumed_away++; endpath(); } return true; }
        if (eval(q, s->m)) { addpc(*s, q); return true; }
        Model om;
        if (!feasible(*s, q, &om)) { S.assumed_away++; endpath(); }
        s->m = om; addpc(*s, q);
        return true;
    }
    case B_ASSERT: {
        s->asserts++;
        if (!a[0].e) { if (!(a[0].v & mask(w[0]))) { err("assert", cstr(a[1].v)); } return true; }
        S.sym_asserts++;
        E q = mknot(mk(EQ, 1, a[0].e, mkc(0, w[0])));
        if (isc(q)) { if (!q->k) err("assert", cstr(a[1].v)); return true; }
        Model om;
        if (!eval(q, s->m)) { report(*s, "assert", cstr(a[1].v), s->m); S.err_paths++; if (!feasible(*s, q, &om)) endpath(); s->m = om; addpc(*s, q); return true; }
        if (feasible(*s, mknot(q), &om)) { report(*s, "assert", cstr(a[1].v), om); addpc(*s, q); }
        return true;
    }
    case B_REACHED: s->reached = true; return true;
    case B_KILL: S.killed++; endpath();
    case B_UNMODELLED: die("unmodelled: " + cstr(a[0].v));
    case B_MALLOC: case B_CALLOC: {
        u64 n = concretize(a[0], 64);
        if (fn->bif == B_CALLOC) { u64 m = concretize(a[1], 64); u64 t; if (__builtin_mul_overflow(n, m, &t)) { setErrno(12); R(cv(0)); return true; } n = t; }
        if (n > (1u << 23)) { setErrno(12); R(cv(0)); return true; }
        R(cv(alloc(R_HEAP, n, fn->bif == B_CALLOC ? 0 : 0xbe, fn->bif == B_CALLOC)));
        return true;
    }
    case B_REALLOC: {
        u64 p = concretize(a[0], 64), n = concretize(a[1], 64);
        if (p == 0) { if (n > (1u << 23)) { setErrno(12); R(cv(0)); return true; } R(cv(alloc(R_HEAP, n, 0xbe, false))); return true; }
        Obj *o = lookup(p);
        if ((p >> 44) != R_HEAP || !o || (p & 0xffffff)) err("memory", o ? "realloc of a pointer that is not a heap block" : "realloc of a freed block");
        if (n == 0) { s->heap[(p >> 24) & 0xfffff] = ObjRef(); R(cv(0)); return true; }
        if (n > (1u << 23)) { setErrno(12); R(cv(0)); return true; }
        u64 q = alloc(R_HEAP, n, 0xbe, false);
        copymem(q, p, std::min<u64>(n, lookup(p)->size), false);
        s->heap[(p >> 24) & 0xfffff] = ObjRef();
        R(cv(q));
        return true;
    }
    case B_FREE: {
        u64 p = concretize(a[0], 64);
        if (!p) return true;
        Obj *o = lookup(p);
        if ((p >> 44) != R_HEAP || (p & 0xffffff)) err("memory", "free of a pointer that is not a heap block");
        if (!o) err("memory", "double free");
        s->heap[(p >> 24) & 0xfffff] = ObjRef();
        return true;
    }
    case B_POISON: { u64 p = concretize(a[0], 64), n = concretize(a[1], 64); if (n) { access(p, n, true); Obj *o = writable(p); for (u64 i = 0; i < n; i++) o->st[(p & 0xffffff) + i] = 2; } return true; }
    case B_MEMCPY: case B_MEMMOVE: { u64 d = concretize(a[0], 64), q = concretize(a[1], 64), n = concretize(a[2], 64); copymem(d, q, n, fn->bif == B_MEMCPY); R(cv(d)); return true; }
    case B_MEMSET: { u64 d = concretize(a[0], 64), n = concretize(a[2], 64); if (n) { access(d, n, true); Val v = a[1]; if (v.e && w[1] > 8) v = ev(mk(EXTRACT, 8, v.e, nullptr, nullptr, 0)); else if (!v.e) v.v &= 255; for (u64 i = 0; i < n; i++) wrbytes(d + i, 1, v, 8); } R(cv(d)); return true; }
    case B_ABORT: err("abort", "abort() or assert() failure in the code");
    case B_FORK: { /* (shared block, bytes): the child runs first */
        u64 p = concretize(a[0], 64), n = concretize(a[1], 64);
        access(p, n, true);
        auto q = std::make_shared<State>(*s);
        q->shaddr = p; q->shlen = n; q->fkdst = c.dst;
        s->parent = q;
        R(cv(0));
        return true; }
    case B_EXIT: {
        if (!s->parent) err("abort", "process exit");
        std::shared_ptr<const State> q = s->parent;
        std::vector<Val> sh; /* what the parent sees of the child */
        for (u64 i = 0; i < q->shlen; i++) sh.push_back(rdbytes(q->shaddr + i, 1, 8));
        s->fr = q->fr; s->glob = q->glob; s->stk = q->stk; s->heap = q->heap; s->parent = q->parent;
        f = &s->fr.back();
        for (u64 i = 0; i < q->shlen; i++) wrbytes(q->shaddr + i, 1, sh[i], 8);
        if (q->fkdst >= 0) f->r[q->fkdst] = cv(1);
        return true; }
    default: return false;
    }
}

void Interp::call(const CInst &c) {
    if (c.intrin) { intrinsic(c); return; }
    u64 t = c.callee ? fnaddr(c.callee) : concretize(get(c.o[0]), 64);
    if ((t >> 44) != R_FUNC || (t & 0xffffff)) err("memory", t ? "call through a wild pointer" : "call through a null pointer");
    u64 idx = ((t >> 24) & 0xfffff) - 1;
    if (idx >= g_fnlist.size()) err("memory", "call through a wild pointer");
    CFn *fn = g_fnlist[idx];
    std::vector<Val> a; std::vector<u8> w;
    for (size_t i = 0; i < c.args.size(); i++) for (int j = 0; j < c.args[i].second; j++) { a.push_back(get(c.o[c.args[i].first + j])); w.push_back(c.o[c.args[i].first + j].w); }
    if (fn->bif && (fn->f->isDeclaration() || fn->bif != B_NONE)) { if (builtin(fn, c, a, w)) return; }
    if (fn->f->isDeclaration()) die("call to unmodelled external function " + fn->name);
    /* by-value aggregates */
    std::vector<std::pair<size_t, u64>> bv;
    for (size_t i = 0, k = 0; i < c.args.size(); k += c.args[i].second, i++) if (c.byval[i]) bv.push_back({k, c.byval[i]});
    int fixed = 0;
    for (auto &arg : fn->f->args()) fixed += nleaves(arg.getType());
    if ((int) a.size() < fixed) die("too few arguments for " + fn->name);
    for (auto &b : bv) { u64 p = alloc(R_STACK, b.second, 0, false); copymem(p, concretize(a[b.first], 64), b.second, false); a[b.first] = cv(p); }
    enter(fn, a, &c, fixed, &w);
}

void Interp::intrinsic(const CInst &c) {
    auto A = [&](int i) { return get(c.o[1 + i]); };
    auto W = [&](int i) { return (unsigned) c.o[1 + i].w; };
    auto R = [&](Val v) { f->r[c.dst] = v; };
    switch (c.intrin) {
    case Intrinsic::memcpy: case Intrinsic::memmove: { u64 d = concretize(A(0), 64), q = concretize(A(1), 64), n = concretize(A(2), W(2)); copymem(d, q, n, c.intrin == Intrinsic::memcpy); return; }
    case Intrinsic::memset: { u64 d = concretize(A(0), 64), n = concretize(A(2), W(2)); Val v = A(1); if (n) { access(d, n, true); for (u64 i = 0; i < n; i++) wrbytes(d + i, 1, v, 8); } return; }
    case Intrinsic::vastart: { u64 p = concretize(A(0), 64); wrbytes(p, 4, cv(48), 32); wrbytes(p + 4, 4, cv(304), 32); wrbytes(p + 8, 8, cv(f->va), 64); wrbytes(p + 16, 8, cv(0), 64); return; }
    case Intrinsic::vaend: return;
    case Intrinsic::vacopy: { u64 d = concretize(A(0), 64), q = concretize(A(1), 64); copymem(d, q, 24, false); return; }
    case Intrinsic::expect: R(A(0)); return;
    case Intrinsic::stacksave: R(cv(0)); return;
    case Intrinsic::trap: err("abort", "trap"); 
    case Intrinsic::fabs: { Val a = A(0); u64 m = ~(1ULL << (c.w - 1)) & mask(c.w); R(a.e ? ev(mk(AND, c.w, a.e, mkc(m, c.w))) : cv(a.v & m)); return; }
    case Intrinsic::abs: { Val a = A(0); E x = ex(a, c.w); R(ev(mk(ITE, c.w, mk(SLT, 1, x, mkc(0, c.w)), mk(SUB, c.w, mkc(0, c.w), x), x))); return; }
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: {
        E x = ex(A(0), c.w), y = ex(A(1), c.w);
        Op op = (c.intrin == Intrinsic::smax || c.intrin == Intrinsic::smin) ? SLT : ULT;
        bool mx = c.intrin == Intrinsic::smax || c.intrin == Intrinsic::umax;
        E lt = mk(op, 1, x, y);
        R(ev(mx ? mk(ITE, c.w, lt, y, x) : mk(ITE, c.w, lt, x, y))); return;
    }
    case Intrinsic::bswap: { E x = ex(A(0), c.w), r = nullptr; for (unsigned i = 0; i < c.w; i += 8) { E b = mk(EXTRACT, 8, x, nullptr, nullptr, i); r = r ? mk(CONCAT, r->w + 8, r, b) : b; } R(ev(r)); return; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
        E x = ex(A(0), c.w), y = ex(A(1), c.w); u64 k = concretize(A(2), c.w) % c.w;
        if (c.intrin == Intrinsic::fshr) { if (!k) { R(ev(y)); return; } k = c.w - k; } else if (!k) { R(ev(x)); return; }
        R(ev(mk(OR, c.w, mk(SHL, c.w, x, mkc(k, c.w)), mk(LSHR, c.w, y, mkc(c.w - k, c.w))))); return;
    }
    case Intrinsic::uadd_with_overflow: { unsigned w = W(0); E x = ex(A(0), w), y = ex(A(1), w), r = mk(ADD, w, x, y); f->r[c.dst] = ev(r); f->r[c.dst + 1] = ev(mk(ULT, 1, r, x)); return; }
    case Intrinsic::usub_with_overflow: { unsigned w = W(0); E x = ex(A(0), w), y = ex(A(1), w), r = mk(SUB, w, x, y); f->r[c.dst] = ev(r); f->r[c.dst + 1] = ev(mk(ULT, 1, x, y)); return; }
    case Intrinsic::umul_with_overflow: { unsigned w = W(0); E x = ex(A(0), w), y = ex(A(1), w), r = mk(MUL, w, x, y);
        E ov = mk(AND, 1, mknot(mk(EQ, 1, x, mkc(0, w))), mknot(mk(EQ, 1, mk(UDIV, w, r, x), y)));
        f->r[c.dst] = ev(r); f->r[c.dst + 1] = ev(ov); return; }
    case Intrinsic::sadd_with_overflow: { unsigned w = W(0); E x = ex(A(0), w), y = ex(A(1), w), r = mk(ADD, w, x, y);
        E ov = mk(SLT, 1, mk(AND, w, mk(XOR, w, r, x), mk(XOR, w, r, y)), mkc(0, w)); f->r[c.dst] = ev(r); f->r[c.dst + 1] = ev(ov); return; }
    case Intrinsic::ssub_with_overflow: { unsigned w = W(0); E x = ex(A(0), w), y = ex(A(1), w), r = mk(SUB, w, x, y);
        E ov = mk(SLT, 1, mk(AND, w, mk(XOR, w, x, y), mk(XOR, w, r, x)), mkc(0, w)); f->r[c.dst] = ev(r); f->r[c.dst + 1] = ev(ov); return; }
    case Intrinsic::is_fpclass: {
        unsigned w = W(0), mb = w == 32 ? 23 : 52; u64 m = concretize(A(1), 32);
        if (w != 32 && w != 64) die("is.fpclass width");
        E x = ex(A(0), w), a = mk(AND, w, x, mkc(mask(w) >> 1, w)), neg = mk(SLT, 1, x, mkc(0, w)), r = mkc(0, 1);
        u64 inf = (mask(w) >> 1) & ~((1ULL << mb) - 1), q = inf | (1ULL << (mb - 1)), mn = 1ULL << mb;
        auto LT = [&](E p, E o) { return mk(ULT, 1, p, o); };
        auto add = [&](int bit, E t) { if (m >> bit & 1) r = mk(OR, 1, r, t); };
        E z = mk(EQ, 1, a, mkc(0, w)), i = mk(EQ, 1, a, mkc(inf, w)), sub = mk(AND, 1, LT(a, mkc(mn, w)), mknot(z)), nrm = mk(AND, 1, LT(a, mkc(inf, w)), mknot(LT(a, mkc(mn, w)))), pos = mknot(neg);
        add(0, mk(AND, 1, LT(mkc(inf, w), a), LT(a, mkc(q, w)))); add(1, mknot(LT(a, mkc(q, w))));
        add(2, mk(AND, 1, i, neg)); add(3, mk(AND, 1, nrm, neg)); add(4, mk(AND, 1, sub, neg)); add(5, mk(AND, 1, z, neg));
        add(6, mk(AND, 1, z, pos)); add(7, mk(AND, 1, sub, pos)); add(8, mk(AND, 1, nrm, pos)); add(9, mk(AND, 1, i, pos));
        R(ev(r)); return;
    }
    default: die(std::string("intrinsic ") + c.callee->getName().str());
    }
}

/* ------------------------------------------------------------------ output */
static std::string js(const std::string &s) { std::string r = "\""; for (char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if ((u8) ch < 32) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; } else r += ch; } return r + "\""; }

static void write_out(const char *path, bool complete) {
    FILE *fp = fopen(path, "w");
    if (!fp) return;
    fprintf(fp, "{\"complete\":%s,\"fatal\":%s,\"stopped\":%s,\n", complete ? "true" : "false", js(g_fatal).c_str(), g_dfs_stop ? "true" : "false");
    fprintf(fp, "\"paths\":%llu,\"completed\":%llu,\"assumed_away\":%llu,\"err_paths\":%llu,\"killed\":%llu,\"forks\":%llu,\"insts\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"cache_hits\":%llu,\"asserts\":%llu,\"symbolic_asserts\":%llu,\"maxdepth\":%llu,\"reached\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\n",
        (unsigned long long) S.paths, (unsigned long long) S.completed, (unsigned long long) S.assumed_away, (unsigned long long) S.err_paths, (unsigned long long) S.killed, (unsigned long long) S.forks, (unsigned long long) S.insts, (unsigned long long) S.queries, (unsigned long long) S.sat, (unsigned long long) S.unsat, (unsigned long long) S.cache, (unsigned long long) S.asserts, (unsigned long long) S.sym_asserts, (unsigned long long) S.maxdepth, (unsigned long long) S.reached, S.solver_s, now() - g_t0);
    fprintf(fp, "\"errors\":[");
    bool first = true;
    for (auto &kv : g_errs) {
        Report &r = kv.second;
        fprintf(fp, "%s{\"kind\":%s,\"msg\":%s,\"file\":%s,\"func\":%s,\"line\":%d,\"count\":%llu,\"stack\":%s,\"inputs\":[", first ? "" : ",\n", js(r.kind).c_str(), js(r.msg).c_str(), js(r.file).c_str(), js(r.func).c_str(), r.line, (unsigned long long) r.count, js(r.stack).c_str());
        for (size_t i = 0; i < r.inputs.size(); i++) { fprintf(fp, "%s[", i ? "," : ""); for (size_t j = 0; j < r.inputs[i].size(); j++) fprintf(fp, "%s%lld", j ? "," : "", r.inputs[i][j]); fprintf(fp, "]"); }
        fprintf(fp, "]}");
        first = false;
    }
    fprintf(fp, "],\n\"samples\":[");
    for (size_t i = 0; i < g_samples.size(); i++) fprintf(fp, "%s%s", i ? ",\n" : "", g_samples[i].c_str());
    fprintf(fp, "],\n\"functions\":[");
    first = true;
    for (CFn *c : g_fnlist) if (c->seen && !c->f->isDeclaration()) { fprintf(fp, "%s[%s,%s]", first ? "" : ",", js(c->name).c_str(), js(c->file).c_str()); first = false; }
    fprintf(fp, "]}\n");
    fclose(fp);
}

int main(int ac, char **av) {
    if (ac < 3) { fprintf(stderr, "usage\n"); return 2; }
    double timeout = 300; int workers = 1; std::string entry = "vp_entry";
    for (int i = 3; i + 1 < ac; i += 2) {
        std::string o = av[i];
        if (o == "--timeout") timeout = atof(av[i + 1]);
        else if (o == "--steps") g_steps = strtoull(av[i + 1], nullptr, 10);
        else if (o == "--workers") workers = atoi(av[i + 1]);
        else if (o == "--samples") g_nsamples = strtoull(av[i + 1], nullptr, 10);
        else if (o == "--max-errors") g_maxerr = strtoull(av[i + 1], nullptr, 10);
        else if (o == "--entry") entry = av[i + 1];
        else if (o == "--seed") g_rng ^= strtoull(av[i + 1], nullptr, 10) * 0x9E3779B97F4A7C15ULL;
    }
    g_t0 = now(); g_deadline = g_t0 + timeout;
    LLVMContext ctx; SMDiagnostic diag;
    std::unique_ptr<Module> mod = parseIRFile(av[1], diag, ctx);
    if (!mod) { diag.print("symx", errs()); return 2; }
    M = mod.get(); DL = &M->getDataLayout();
    z3::context zc; Z = &zc;
    std::unordered_map<E, z3::expr> zt; ztr = &zt;
    z3::params zp(zc); zp.set("rlimit", g_rlimit);
    z3::solver zs(zc, "QF_BV"); zs.set(zp); ZS = &zs;
    bool fp = false;
    for (auto &F : *M) for (auto &I : instructions(F)) switch (I.getOpcode()) { case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: case Instruction::FNeg: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: fp = true; default: break; }
    z3::solver zf(zc, "QF_FPBV"); zf.set(zp);
    if (fp) ZS = &zf;
    std::vector<pid_t> kids; std::vector<std::string> outs;
    std::string outp = av[2];
    try {
        Function *mainf = M->getFunction(entry);
        if (!mainf || mainf->isDeclaration()) die("no entry " + entry);
        for (auto &F : *M) if (!F.isIntrinsic()) fnaddr(&F);
        for (auto &g : M->globals()) gaddr(&g);
        while (!g_pending.empty()) { GlobalVariable *g = g_pending.back(); g_pending.pop_back(); if (g->hasInitializer()) initmem(g_globals[(g_gaddr[g] >> 24) & 0xfffff].p, 0, g->getInitializer()); }
        State *s0 = new State;
        s0->glob = g_globals;
        g_globals.clear();
        Interp in;
        { in.s = s0; std::vector<Val> none; std::vector<u8> nw; in.enter(fnof(mainf), none, nullptr, 0, &nw); }
        s0->stk.clear();
        g_work.push_back(s0);
        int *shared = nullptr;
        if (workers > 1) {
            /* breadth first until there is enough to share */
            std::deque<State *> q; q.push_back(s0); g_work.clear();
            double lim = now() + 1.5;
            while (!q.empty() && q.size() < (size_t) workers * 24 && !g_dfs_stop && now() < lim) {
                State *s = q.front(); q.pop_front();
                g_work.clear();
                in.run(s);
                for (State *x : g_work) q.push_back(x);
                g_work.clear();
            }
            std::vector<State *> init(q.begin(), q.end());
            if (init.size() > 1 && !g_dfs_stop) {
                shared = (int *) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
                *shared = 0;
                /* persist what the prefix phase found, then split */
                write_out((outp + ".p").c_str(), true); outs.push_back(outp + ".p");
                bool child = false; std::string mine;
                for (int i = 0; i < workers; i++) {
                    std::string o = outp + "." + std::to_string(i);
                    pid_t p = fork();
                    if (p == 0) { child = true; mine = o; break; }
                    kids.push_back(p); outs.push_back(o);
                }
                if (!child) {
                    bool ok = true;
                    for (pid_t p : kids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) ok = false; }
                    FILE *f = fopen(outp.c_str(), "w");
                    fprintf(f, "{\"parts\":[");
                    for (size_t i = 0; i < outs.size(); i++) fprintf(f, "%s%s", i ? "," : "", js(outs[i]).c_str());
                    fprintf(f, "],\"ok\":%s,\"wall_s\":%.3f}\n", ok ? "true" : "false", now() - g_t0);
                    fclose(f);
                    fflush(nullptr);
                    _exit(0);
                }
                outp = mine; S = Stats(); g_errs.clear(); g_samples.clear(); g_seen = 0;
                for (CFn *c : g_fnlist) c->seen = c->seen;
                for (;;) {
                    int k = __sync_fetch_and_add(shared, 1);
                    if (k >= (int) init.size() || g_dfs_stop || shared[1]) break;
                    g_work.push_back(init[k]);
                    while (!g_work.empty() && !g_dfs_stop) { State *s = g_work.back(); g_work.pop_back(); in.run(s); }
                    if (g_dfs_stop) shared[1] = 1;
                }
                write_out(outp.c_str(), g_work.empty() && !g_dfs_stop && g_fatal.empty() && !shared[1]);
                fflush(nullptr);
                _exit(0);
            }
            for (State *x : init) g_work.push_back(x);
        }
        while (!g_work.empty() && !g_dfs_stop) { State *s = g_work.back(); g_work.pop_back(); in.run(s); }
    } catch (EngineError &e) { g_fatal = e.msg; }
    catch (z3::exception &e) { g_fatal = std::string("z3: ") + e.msg(); }
    write_out(outp.c_str(), g_work.empty() && !g_dfs_stop && g_fatal.empty());
    fflush(nullptr);
    _exit(0);
}
