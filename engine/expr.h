/* Hash-consed bit-vector expressions (width 1..64), byte-array update lists, evaluation under a model, z3 back end. */
#ifndef EXPR_H_
#define EXPR_H_
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <z3.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
#include <sys/wait.h>
#include <fstream>
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

enum Op : u8 { CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
               EQ, ULT, ULE, SLT, SLE, ITE, ZEXT, SEXT, EXTRACT, CONCAT, READ };
struct Expr;
typedef std::vector<u32> VarSet;           /* sorted variable ids */
struct Upd { Upd* next; Expr* idx; Expr* val; Expr* root; u32 id; u32 len; Z3_ast z; const VarSet* vs; };
struct Expr { Op op; u8 w; u32 id; u64 v; Expr *a, *b, *c; Upd* u; Z3_ast z; u32 epoch; u64 ev; const VarSet* vs; };

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 s = 1ULL << (w - 1); v &= maskw(w); return (i64)((v ^ s) - s); }

struct KeyHash { size_t operator()(const Expr* e) const {
    u64 h = e->op * 0x9E3779B97F4A7C15ULL + e->w;
    h = (h ^ e->v) * 0xff51afd7ed558ccdULL; h ^= h >> 29;
    h = (h ^ (u64)(e->a ? e->a->id + 1 : 0)) * 0xc4ceb9fe1a85ec53ULL; h ^= h >> 31;
    h = (h ^ (u64)(e->b ? e->b->id + 1 : 0)) * 0xff51afd7ed558ccdULL; h ^= h >> 30;
    h = (h ^ (u64)(e->c ? e->c->id + 1 : 0)) * 0xc4ceb9fe1a85ec53ULL; h ^= h >> 32;
    return (size_t)(h ^ (u64)(e->u ? e->u->id + 1 : 0) * 0x9E3779B97F4A7C15ULL); } };
struct KeyEq { bool operator()(const Expr* x, const Expr* y) const {
    return x->op == y->op && x->w == y->w && x->v == y->v && x->a == y->a && x->b == y->b && x->c == y->c && x->u == y->u; } };

static std::unordered_set<Expr*, KeyHash, KeyEq> g_exprs;
static u32 g_exprId, g_updId;
static char* g_pool; static size_t g_poolLeft;
static void* poolAlloc(size_t n)
{
    n = (n + 15) & ~(size_t)15;
    if (n > g_poolLeft) { g_poolLeft = 1 << 20; g_pool = (char*)malloc(g_poolLeft); }
    void* p = g_pool; g_pool += n; g_poolLeft -= n; return p;
}
struct VarInfo { std::string name; u8 w; };
static std::vector<VarInfo> g_vars; static std::vector<Expr*> g_varExpr;

static Expr* intern(Op op, u8 w, u64 v, Expr* a = 0, Expr* b = 0, Expr* c = 0, Upd* u = 0)
{
    Expr k; memset(&k, 0, sizeof k); k.op = op; k.w = w; k.v = v; k.a = a; k.b = b; k.c = c; k.u = u;
    auto it = g_exprs.find(&k);
    if (it != g_exprs.end()) return *it;
    Expr* e = (Expr*)poolAlloc(sizeof(Expr)); *e = k; e->id = g_exprId++;
    g_exprs.insert(e); return e;
}
static Expr* mkC(u64 v, unsigned w) { return intern(CONST, w, v & maskw(w)); }
static Expr* mkVar(const std::string& n, unsigned w)
{
    g_vars.push_back(VarInfo{n, (u8)w});
    Expr* e = intern(VAR, w, g_vars.size() - 1); g_varExpr.push_back(e); return e;
}
static inline bool isC(Expr* e) { return e->op == CONST; }
static Expr* mkExtract(Expr* a, unsigned lo, unsigned w);
static Expr* mkBin(Op op, Expr* a, Expr* b);
static Expr* mkEq(Expr* a, Expr* b);
static Expr* mkIte(Expr* c, Expr* a, Expr* b);
static Expr* mkNot(Expr* a) { return mkBin(XOR, a, mkC(1, 1)); }

static u64 foldBin(Op op, u64 x, u64 y, unsigned w)
{
    u64 m = maskw(w);
    switch (op) {
    case ADD: return (x + y) & m; case SUB: return (x - y) & m; case MUL: return (x * y) & m;
    case UDIV: return y ? x / y : m; case UREM: return y ? x % y : x;
    case SDIV: { i64 p = sx(x, w), q = sx(y, w); if (!q) return p < 0 ? 1 : m; if (q == -1) return (0 - x) & m; return (u64)(p / q) & m; }
    case SREM: { i64 p = sx(x, w), q = sx(y, w); if (!q) return x; if (q == -1) return 0; return (u64)(p % q) & m; }
    case AND: return x & y; case OR: return x | y; case XOR: return x ^ y;
    case SHL: return y >= w ? 0 : (x << y) & m; case LSHR: return y >= w ? 0 : x >> y;
    case ASHR: return (u64)(sx(x, w) >> (y >= w ? (w == 64 ? 63 : w - 1) : y)) & m;
    case EQ: return x == y; case ULT: return x < y; case ULE: return x <= y;
    case SLT: return sx(x, w) < sx(y, w); case SLE: return sx(x, w) <= sx(y, w);
    default: abort();
    }
}
static Expr* mkZext(Expr* a, unsigned w)
{
    if (a->w == w) return a;
    if (isC(a)) return mkC(a->v, w);
    if (a->op == ZEXT) return mkZext(a->a, w);
    return intern(ZEXT, w, 0, a);
}
static Expr* mkSext(Expr* a, unsigned w)
{
    if (a->w == w) return a;
    if (isC(a)) return mkC((u64)sx(a->v, a->w), w);
    if (a->op == ZEXT) return mkZext(a->a, w);
    return intern(SEXT, w, 0, a);
}
/* extract without pushing it into the operand, so that the pieces of a stored value join again when loaded */
static Expr* mkRawExtract(Expr* a, unsigned lo, unsigned w)
{
    if (w == a->w) return a;
    switch (a->op) {
    case ADD: case SUB: case MUL: case AND: case OR: case XOR: case SHL: case LSHR: case ITE: return intern(EXTRACT, w, lo, a);
    default: return mkExtract(a, lo, w);
    }
}
static Expr* norm(Expr* e) { return e->op == EXTRACT ? mkExtract(e->a, (unsigned)e->v, e->w) : e; }
static Expr* mkConcat(Expr* hi, Expr* lo)
{
    unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return mkC((hi->v << lo->w) | lo->v, w);
    if (isC(hi) && hi->v == 0) return mkZext(lo, w);
    if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a == lo->a && hi->v == lo->v + lo->w) return mkRawExtract(hi->a, (unsigned)lo->v, w);
    if (hi->op == EXTRACT && hi->a == lo && hi->v == lo->w) return mkExtract(hi->a, 0, w);
    /* (x : extract(y)) : extract(y) */
    if (hi->op == CONCAT && hi->b->op == EXTRACT && lo->op == EXTRACT && hi->b->a == lo->a && hi->b->v == lo->v + lo->w)
        return mkConcat(hi->a, mkRawExtract(lo->a, (unsigned)lo->v, hi->b->w + lo->w));
    return intern(CONCAT, w, 0, hi, lo);
}
static Expr* mkExtract(Expr* a, unsigned lo, unsigned w)
{
    if (lo == 0 && w == a->w) return a;
    if (isC(a)) return mkC(a->v >> lo, w);
    switch (a->op) {
    case EXTRACT: return mkExtract(a->a, lo + (unsigned)a->v, w);
    case ZEXT:
        if (lo >= a->a->w) return mkC(0, w);
        if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
        return mkZext(mkExtract(a->a, lo, a->a->w - lo), w);
    case SEXT: if (lo + w <= a->a->w) return mkExtract(a->a, lo, w); break;
    case CONCAT:
        if (lo + w <= a->b->w) return mkExtract(a->b, lo, w);
        if (lo >= a->b->w) return mkExtract(a->a, lo - a->b->w, w);
        return mkConcat(mkExtract(a->a, 0, lo + w - a->b->w), mkExtract(a->b, lo, a->b->w - lo));
    case ITE: if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w)); break;
    case AND: case OR: case XOR:
        return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    case ADD: case SUB: case MUL: if (lo == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
    case SHL: if (isC(a->b)) { u64 s = a->b->v;
            if (lo >= s) return mkExtract(a->a, (unsigned)(lo - s), w);
            if (lo + w <= s) return mkC(0, w); } break;
    case LSHR: if (isC(a->b)) { u64 s = a->b->v;
            if (lo + s >= a->w) return mkC(0, w);
            if (lo + s + w <= a->w) return mkExtract(a->a, (unsigned)(lo + s), w); } break;
    default: break;
    }
    return intern(EXTRACT, w, lo, a);
}
/* the low bits that can be set */
static u64 maxBits(Expr* e, int depth = 4)
{
    if (isC(e)) return e->v;
    if (depth == 0) return maskw(e->w);
    switch (e->op) {
    case ZEXT: return maxBits(e->a, depth - 1);
    case CONCAT: return (maxBits(e->a, depth - 1) << e->b->w) | maxBits(e->b, depth - 1);
    case AND: return maxBits(e->a, depth - 1) & maxBits(e->b, depth - 1);
    case OR: case XOR: return maxBits(e->a, depth - 1) | maxBits(e->b, depth - 1);
    case ITE: return maxBits(e->b, depth - 1) | maxBits(e->c, depth - 1);
    case SHL: if (isC(e->b)) return e->b->v >= e->w ? 0 : (maxBits(e->a, depth - 1) << e->b->v) & maskw(e->w); break;
    case LSHR: if (isC(e->b)) return e->b->v >= e->w ? 0 : maxBits(e->a, depth - 1) >> e->b->v; break;
    default: break;
    }
    return maskw(e->w);
}
/* an upper bound of the value */
static u64 ubound(Expr* e, int depth = 5)
{
    u64 mb = maxBits(e); if (depth == 0) return mb;
    switch (e->op) {
    case ZEXT: return ubound(e->a, depth - 1);
    case ADD: { u64 x = ubound(e->a, depth - 1), y = ubound(e->b, depth - 1); if (x > maskw(e->w) - y) return maskw(e->w); return std::min(x + y, mb); }
    case MUL: { u64 x = ubound(e->a, depth - 1), y = ubound(e->b, depth - 1); if (x && y > maskw(e->w) / x) return maskw(e->w); return std::min(x * y, mb); }
    case ITE: return std::max(ubound(e->b, depth - 1), ubound(e->c, depth - 1));
    case UREM: if (isC(e->b) && e->b->v) return std::min(mb, e->b->v - 1); return mb;
    case UDIV: if (isC(e->b) && e->b->v) return std::min(mb, ubound(e->a, depth - 1) / e->b->v); return mb;
    default: return mb;
    }
}
static unsigned narrowTo(Expr* a, Expr* b)
{
    u64 m = std::max(ubound(a), ubound(b)); unsigned k = m ? 64 - __builtin_clzll(m) : 1; if (k < 8) k = 8;
    return k + 4 <= a->w ? k : 0;
}
/* facts of the path being executed: conditions met again inside larger expressions collapse */
static const std::shared_ptr<std::unordered_set<Expr*>>* g_known;
static bool knownTrue(Expr* e) { return g_known && (*g_known)->count(e); }
/* linear form of sums and differences, used to cancel common terms */
struct Lin { std::vector<std::pair<Expr*, u64>> t; u64 c = 0; bool merged = false, over = false; };
static void linAdd(Lin& l, Expr* e, u64 k, int depth)
{
    if (isC(e)) { l.c += k * e->v; return; }
    if (depth > 0 && e->op == ADD) { linAdd(l, e->a, k, depth - 1); linAdd(l, e->b, k, depth - 1); return; }
    if (depth > 0 && e->op == SUB) { linAdd(l, e->a, k, depth - 1); linAdd(l, e->b, 0 - k, depth - 1); return; }
    for (auto& p : l.t) if (p.first == e) { p.second += k; l.merged = true; return; }
    if (l.t.size() >= 12) { l.over = true; return; }
    l.t.push_back({e, k});
}
static Expr* linBuild(const Lin& l, unsigned w, bool neg, bool withConst)
{   /* the terms with positive (neg: negated negative) coefficients */
    Expr* r = 0; u64 m = maskw(w);
    std::vector<std::pair<Expr*, u64>> v;
    for (auto& p : l.t) { u64 k = p.second & m; if (!k) continue; bool n = w > 1 && (k >> (w - 1)) & 1; if (n != neg) continue; v.push_back({p.first, neg ? (0 - k) & m : k}); }
    std::sort(v.begin(), v.end(), [](const std::pair<Expr*, u64>& x, const std::pair<Expr*, u64>& y) { return x.first->id < y.first->id; });
    for (auto& p : v) { Expr* x = p.second == 1 ? p.first : mkBin(MUL, p.first, mkC(p.second, w)); r = r ? mkBin(ADD, r, x) : x; }
    if (withConst && (l.c & m)) r = r ? mkBin(ADD, r, mkC(l.c, w)) : mkC(l.c, w);
    return r ? r : mkC(0, w);
}
static bool sumOp(Expr* e) { return e->op == ADD || e->op == SUB; }
static bool commut(Op o) { return o == ADD || o == MUL || o == AND || o == OR || o == XOR; }
static Expr* mkBin(Op op, Expr* a, Expr* b)
{
    unsigned w = a->w;
    if (a->w != b->w) { fprintf(stderr, "width mismatch op %d %d %d\n", op, a->w, b->w); abort(); }
    if (isC(a) && isC(b)) return mkC(foldBin(op, a->v, b->v, w), w);
    if (commut(op) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
    if (isC(b)) {
        u64 c = b->v;
        switch (op) {
        case SUB: return mkBin(ADD, a, mkC(0 - c, w));
        case ADD: if (!c) return a; if (a->op == ADD && isC(a->b)) return mkBin(ADD, a->a, mkC(a->b->v + c, w)); break;
        case MUL: if (!c) return b; if (c == 1) return a; if ((c & (c - 1)) == 0) return mkBin(SHL, a, mkC(__builtin_ctzll(c), w)); break;
        case AND: if (!c) return b; if (c == maskw(w)) return a;
                  if (a->op == AND && isC(a->b)) return mkBin(AND, a->a, mkC(a->b->v & c, w));
                  if ((c & (c + 1)) == 0) { unsigned k = 64 - __builtin_clzll(c); return mkZext(mkExtract(a, 0, k), w); }
                  if ((maxBits(a) & ~c) == 0) return a;
                  break;
        case OR: if (!c) return a; if (c == maskw(w)) return b; break;
        case XOR: if (!c) return a; if (a->op == XOR && isC(a->b)) return mkBin(XOR, a->a, mkC(a->b->v ^ c, w)); break;
        case SHL: if (c >= w) return mkC(0, w); if (!c) return a;
                  if (a->op == ZEXT && a->a->w + c <= w) return mkZext(mkConcat(a->a, mkC(0, (unsigned)c)), w);
                  break;
        case LSHR: if (c >= w) return mkC(0, w); if (!c) return a; return mkZext(mkExtract(a, (unsigned)c, w - (unsigned)c), w);
        case ASHR: if (!c) return a; break;
        case UDIV: if (c == 1) return a; if (c && (c & (c - 1)) == 0) return mkBin(LSHR, a, mkC(__builtin_ctzll(c), w)); break;
        case UREM: if (c && (c & (c - 1)) == 0) return mkBin(AND, a, mkC(c - 1, w)); break;
        default: break;
        }
    }
    if (w == 1 && g_known && (op == AND || op == OR)) for (int k = 0; k < 2; k++) {
        Expr *x = k ? b : a, *y = k ? a : b;
        if (knownTrue(x)) return op == AND ? y : mkC(1, 1);
        if (knownTrue(mkNot(x))) return op == AND ? mkC(0, 1) : y;
    }
    if (op == SUB && isC(a) && a->v == 0 && b->op == ZEXT && b->a->w == 1) return mkIte(b->a, mkC(maskw(w), w), mkC(0, w));
    if (op == AND || op == OR || op == XOR) {
        if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkZext(mkBin(op, a->a, b->a), w);
        if (w > 1) for (int k = 0; k < 2; k++) {
            Expr *x = k ? b : a, *y = k ? a : b;
            if (x->op != ITE) continue;
            if (op == AND && isC(x->b) && isC(x->c) && (x->b->v == 0 || x->b->v == maskw(w)) && (x->c->v == 0 || x->c->v == maskw(w)))
                return mkIte(x->a, x->b->v ? y : x->b, x->c->v ? y : x->c);
            if (op == XOR && isC(y) && isC(x->b) && isC(x->c)) return mkIte(x->a, mkC(x->b->v ^ y->v, w), mkC(x->c->v ^ y->v, w));
            if (op != AND && y->op == ITE && x->a == y->a && ((isC(x->b) && x->b->v == 0) || (isC(y->b) && y->b->v == 0)) && ((isC(x->c) && x->c->v == 0) || (isC(y->c) && y->c->v == 0)))
                return mkIte(x->a, mkBin(op, x->b, y->b), mkBin(op, x->c, y->c));
        }
    }
    if (a == b) { if (op == SUB || op == XOR) return mkC(0, w); if (op == AND || op == OR) return a; }
    if (op == SUB) {
        if (a->op == ADD && a->a == b) return a->b;
        if (a->op == ADD && a->b == b) return a->a;
        if (b->op == ADD && isC(b->b)) return mkBin(ADD, mkBin(SUB, a, b->a), mkC(0 - b->b->v, w));
        if (a->op == ADD && isC(a->b)) return mkBin(ADD, mkBin(SUB, a->a, b), a->b);
    }
    if ((op == ADD || op == SUB) && w > 1 && (sumOp(a) || sumOp(b))) {
        Lin l; linAdd(l, a, 1, 8); linAdd(l, b, op == ADD ? 1 : ~0ull, 8);
        if (l.merged && !l.over) { Expr *p = linBuild(l, w, false, false), *n = linBuild(l, w, true, false); Expr* r = isC(n) ? p : mkBin(SUB, p, n); return (l.c & maskw(w)) ? mkBin(ADD, r, mkC(l.c, w)) : r; }
    }
    if (op == ADD && a->op == ADD && isC(a->b)) return mkBin(ADD, mkBin(ADD, a->a, b), a->b);
    if (op == ADD && b->op == ADD && isC(b->b)) return mkBin(ADD, mkBin(ADD, a, b->a), b->b);
    if (op == ADD && a->op == SUB && a->b == b) return a->a;
    if (op == ADD && b->op == SUB && b->b == a) return b->a;
    if ((op == OR || op == ADD || op == XOR) && (maxBits(a) & maxBits(b)) == 0 && w > 8) {
        /* disjoint bits: assemble by concatenation where one operand occupies the low part */
        Expr *hi = a, *lo = b; u64 mh = maxBits(hi), ml = maxBits(lo);
        if (mh && ml && mh < ml) { std::swap(hi, lo); std::swap(mh, ml); }
        if (ml && mh) { unsigned k = 64 - __builtin_clzll(ml);
            if (k < w && (mh & maskw(k)) == 0) return mkConcat(mkExtract(hi, k, w - k), mkExtract(lo, 0, k)); }
    }
    return intern(op, w, 0, a, b);
}
static Expr* mkEq(Expr* a, Expr* b)
{
    if (a == b) return mkC(1, 1);
    if (isC(a) && isC(b)) return mkC(a->v == b->v, 1);
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
    unsigned w = a->w;
    if (w == 1) { if (isC(b)) return b->v ? a : mkNot(a); return mkNot(mkBin(XOR, a, b)); }
    if (isC(b)) {
        u64 c = b->v;
        if (a->op == ZEXT) { if (c & ~maskw(a->a->w)) return mkC(0, 1); return mkEq(a->a, mkC(c, a->a->w)); }
        if (a->op == SEXT) { u64 t = c & maskw(a->a->w); if (((u64)sx(t, a->a->w) & maskw(w)) != c) return mkC(0, 1); return mkEq(a->a, mkC(t, a->a->w)); }
        if (a->op == ADD && isC(a->b)) return mkEq(a->a, mkC(c - a->b->v, w));
        if (a->op == XOR && isC(a->b)) return mkEq(a->a, mkC(c ^ a->b->v, w));
        if (a->op == CONCAT) return mkBin(AND, mkEq(a->a, mkC(c >> a->b->w, a->a->w)), mkEq(a->b, mkC(c, a->b->w)));
        if (a->op == ITE) {
            if (isC(a->b) && isC(a->c)) { bool x = a->b->v == c, y = a->c->v == c;
                return x ? (y ? mkC(1, 1) : a->a) : (y ? mkNot(a->a) : mkC(0, 1)); }
            if (isC(a->b)) return a->b->v == c ? mkBin(OR, a->a, mkEq(a->c, b)) : mkBin(AND, mkNot(a->a), mkEq(a->c, b));
            if (isC(a->c)) return a->c->v == c ? mkBin(OR, mkNot(a->a), mkEq(a->b, b)) : mkBin(AND, a->a, mkEq(a->b, b));
        }
        if (c & ~maxBits(a)) return mkC(0, 1);
    } else {
        if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
        if (a->op == ADD && a->b == b) return mkEq(a->a, mkC(0, w));
        if (a->op == ADD && isC(a->b) && b->op == ADD && isC(b->b) && a->a == b->a) return mkC(a->b->v == b->b->v, 1);
        if (a->op == ADD && a->a == b) return mkEq(a->b, mkC(0, w));
        if (b->op == ADD && b->a == a) return mkEq(b->b, mkC(0, w));
    }
    if (isC(b) && b->v > ubound(a)) return mkC(0, 1);
    if (sumOp(a) || sumOp(b)) {
        Lin l; linAdd(l, a, 1, 8); size_t na = l.t.size(); linAdd(l, b, ~0ull, 8);
        if (l.merged && !l.over && !isC(b)) { Expr *p = linBuild(l, w, false, true), *n = linBuild(l, w, true, false); if (p != a || n != b) if (p != b || n != a) return mkEq(p, n); }
        (void)na;
    }
    if (a->op == ADD || b->op == ADD || a->op == MUL || b->op == MUL) if (unsigned k = narrowTo(a, b)) return mkEq(mkExtract(a, 0, k), mkExtract(b, 0, k));
    return intern(EQ, 1, 0, a, b);
}
static Expr* mkCmp(Op op, Expr* a, Expr* b)   /* ULT ULE SLT SLE */
{
    if (isC(a) && isC(b)) return mkC(foldBin(op, a->v, b->v, a->w), 1);
    if (a == b) return mkC(op == ULE || op == SLE, 1);
    unsigned w = a->w;
    if (op == ULT || op == ULE) {
        u64 ma = maxBits(a), mb = maxBits(b);
        if (isC(b) && (op == ULT ? ma < b->v : ma <= b->v)) return mkC(1, 1);
        if (isC(a) && (op == ULT ? mb <= a->v : mb < a->v)) return mkC(0, 1);
        { u64 ua = ubound(a), ub = ubound(b);
          if (isC(b) && (op == ULT ? ua < b->v : ua <= b->v)) return mkC(1, 1);
          if (isC(a) && (op == ULT ? ub <= a->v : ub < a->v)) return mkC(0, 1); }
        if (isC(b) && b->v == 0) return op == ULT ? mkC(0, 1) : mkEq(a, b);
        if (isC(a) && a->v == 0) return op == ULE ? mkC(1, 1) : mkNot(mkEq(b, a));
        if (a->op == ZEXT && (b->op == ZEXT ? b->a->w <= a->a->w : isC(b) && b->v <= maskw(a->a->w))) {
            unsigned n = a->a->w;
            return mkCmp(op, a->a, isC(b) ? mkC(b->v, n) : mkZext(b->a, n));
        }
        if (b->op == ZEXT && (a->op == ZEXT || (isC(a) && a->v <= maskw(b->a->w)))) {
            unsigned n = b->a->w;
            return mkCmp(op, isC(a) ? mkC(a->v, n) : mkZext(a->a, n), b->a);
        }
        if (unsigned k = narrowTo(a, b)) return mkCmp(op, mkExtract(a, 0, k), mkExtract(b, 0, k));
    } else {
        u64 s = 1ULL << (w - 1);   /* both non-negative: unsigned comparison */
        if (!(maxBits(a) & s) && !(maxBits(b) & s)) return mkCmp(op == SLT ? ULT : ULE, a, b);
    }
    return intern(op, 1, 0, a, b);
}
static Expr* mkIte(Expr* c, Expr* a, Expr* b)
{
    if (isC(c)) return c->v ? a : b;
    if (a == b) return a;
    if (a->w == 1) {
        if (isC(a) && isC(b)) return a->v ? c : mkNot(c);
        if (isC(a)) return a->v ? mkBin(OR, c, b) : mkBin(AND, mkNot(c), b);
        if (isC(b)) return b->v ? mkBin(OR, mkNot(c), a) : mkBin(AND, c, a);
    }
    if (c->op == XOR && isC(c->b)) return mkIte(c->a, b, a);
    if (g_known) { if (knownTrue(c)) return a; if (knownTrue(mkNot(c))) return b; }
    if (b->op == ITE && b->a == c) b = b->c;
    if (a->op == ITE && a->a == c) a = a->b;
    if (a == b) return a;
    return intern(ITE, a->w, 0, c, a, b);
}
static Upd* mkRoot(Expr* fill)
{
    Upd* u = (Upd*)poolAlloc(sizeof(Upd)); memset(u, 0, sizeof *u); u->root = fill; u->id = g_updId++; return u;
}
static Upd* mkUpd(Upd* next, Expr* idx, Expr* val)
{
    Upd* u = (Upd*)poolAlloc(sizeof(Upd)); memset(u, 0, sizeof *u);
    u->next = next; u->idx = idx; u->val = val; u->id = g_updId++; u->len = next->len + 1; return u;
}
static Expr* mkRead(Upd* u, Expr* idx)
{
    for (; u->next; u = u->next) {
        if (u->idx == idx) return norm(u->val);
        Expr* e = mkEq(u->idx, idx);
        if (isC(e)) { if (e->v) return norm(u->val); continue; }
        break;
    }
    if (!u->next) return u->root;
    return intern(READ, 8, 0, idx, 0, 0, u);
}

/* ---- models and evaluation ---- */
struct Model { std::vector<u64> v; u64 get(u32 i) const { return i < v.size() ? v[i] : 0; }
               void set(u32 i, u64 x) { if (i >= v.size()) v.resize(i + 1, 0); v[i] = x; } };
static u32 g_epoch;
static u64 evalRec(Expr* e, const Model& m)
{
    if (e->op == CONST) return e->v;
    if (e->op == VAR) return m.get((u32)e->v) & maskw(e->w);
    if (e->epoch == g_epoch) return e->ev;
    u64 r;
    switch (e->op) {
    case ITE: r = evalRec(evalRec(e->a, m) ? e->b : e->c, m); break;
    case ZEXT: r = evalRec(e->a, m); break;
    case SEXT: r = (u64)sx(evalRec(e->a, m), e->a->w) & maskw(e->w); break;
    case EXTRACT: r = (evalRec(e->a, m) >> e->v) & maskw(e->w); break;
    case CONCAT: r = (evalRec(e->a, m) << e->b->w) | evalRec(e->b, m); break;
    case READ: {
        u64 i = evalRec(e->a, m); Upd* u = e->u;
        while (u->next && evalRec(u->idx, m) != i) u = u->next;
        r = evalRec(u->next ? u->val : u->root, m); break; }
    default: r = foldBin(e->op, evalRec(e->a, m), evalRec(e->b, m), e->a->w);
    }
    e->epoch = g_epoch; e->ev = r; return r;
}
static u64 evalExpr(Expr* e, const Model& m) { g_epoch++; return evalRec(e, m); }

/* ---- variable sets ---- */
static const VarSet g_noVars;
static const VarSet* mergeVS(const VarSet* a, const VarSet* b)
{
    if (a == b || b->empty()) return a;
    if (a->empty()) return b;
    if (std::includes(a->begin(), a->end(), b->begin(), b->end())) return a;
    if (std::includes(b->begin(), b->end(), a->begin(), a->end())) return b;
    VarSet* r = new VarSet; std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(*r)); return r;
}
static const size_t ITE_READ = 300;   /* longer update chains go to the array theory */
static bool hasRead(Expr* e, int depth = 0)
{   /* memo in the top bit of epoch-independent field */
    static std::unordered_map<Expr*, bool> memo;
    if (e->op == CONST || e->op == VAR) return false;
    if (e->op == READ) { size_t n = 0; Upd* u = e->u; while (u->next && n <= ITE_READ) { n++; u = u->next; } if (u->next) return true;
        for (u = e->u; u->next; u = u->next) if (hasRead(u->idx) || hasRead(u->val)) return memo[e] = true;
        return memo[e] = hasRead(u->root) || hasRead(e->a); }
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    bool r = (e->a && hasRead(e->a)) || (e->b && hasRead(e->b)) || (e->c && hasRead(e->c));
    return memo[e] = r;
}
static const VarSet* varsOf(Expr* e);
static const VarSet* varsOfUpd(Upd* u)
{
    std::vector<Upd*> st;
    while (!u->vs) { st.push_back(u); if (!u->next) break; u = u->next; }
    while (!st.empty()) { u = st.back(); st.pop_back();
        u->vs = u->next ? mergeVS(u->next->vs, mergeVS(varsOf(u->idx), varsOf(u->val))) : varsOf(u->root); }
    return u->vs;
}
static const VarSet* varsOf(Expr* e)
{
    if (e->vs) return e->vs;
    if (e->op == CONST) return e->vs = &g_noVars;
    if (e->op == VAR) { VarSet* s = new VarSet; s->push_back((u32)e->v); return e->vs = s; }
    const VarSet* r = &g_noVars;
    if (e->a) r = mergeVS(r, varsOf(e->a));
    if (e->b) r = mergeVS(r, varsOf(e->b));
    if (e->c) r = mergeVS(r, varsOf(e->c));
    if (e->u) r = mergeVS(r, varsOfUpd(e->u));
    return e->vs = r;
}

/* ---- z3 ---- */
static Z3_context zc; static Z3_solver zs, zsa; static Z3_sort zIdx, zByte, zArr;
static u64 g_queries, g_modelHits, g_cacheHits, g_unknown; static double g_solveTime; static u32 g_rlimit = 40000000;
static Z3_sort bvSort(unsigned w) { static Z3_sort t[65]; if (!t[w]) t[w] = Z3_mk_bv_sort(zc, w); return t[w]; }
static Z3_ast zConst(u64 v, unsigned w) { return Z3_mk_unsigned_int64(zc, v, bvSort(w)); }
static Z3_ast tr(Expr* e);
static Z3_ast trBV(Expr* e) { return e->w == 1 ? Z3_mk_ite(zc, tr(e), zConst(1, 1), zConst(0, 1)) : tr(e); }
static Z3_ast trUpd(Upd* u)
{
    std::vector<Upd*> st;
    while (!u->z) { st.push_back(u); if (!u->next) break; u = u->next; }
    while (!st.empty()) { u = st.back(); st.pop_back();
        u->z = u->next ? Z3_mk_store(zc, u->next->z, tr(u->idx), tr(u->val)) : Z3_mk_const_array(zc, zIdx, tr(u->root)); }
    return u->z;
}
static Z3_ast tr(Expr* e)
{
    if (e->z) return e->z;
    Z3_ast r;
    if (e->w == 1) switch (e->op) {
        case CONST: r = e->v ? Z3_mk_true(zc) : Z3_mk_false(zc); return e->z = r;
        case AND: { Z3_ast k[2] = {tr(e->a), tr(e->b)}; return e->z = Z3_mk_and(zc, 2, k); }
        case OR: { Z3_ast k[2] = {tr(e->a), tr(e->b)}; return e->z = Z3_mk_or(zc, 2, k); }
        case XOR: if (isC(e->b) && e->b->v) return e->z = Z3_mk_not(zc, tr(e->a));
                  return e->z = Z3_mk_xor(zc, tr(e->a), tr(e->b));
        case ITE: return e->z = Z3_mk_ite(zc, tr(e->a), tr(e->b), tr(e->c));
        case EQ: return e->z = Z3_mk_eq(zc, tr(e->a), tr(e->b));
        case ULT: return e->z = Z3_mk_bvult(zc, tr(e->a), tr(e->b));
        case ULE: return e->z = Z3_mk_bvule(zc, tr(e->a), tr(e->b));
        case SLT: return e->z = Z3_mk_bvslt(zc, tr(e->a), tr(e->b));
        case SLE: return e->z = Z3_mk_bvsle(zc, tr(e->a), tr(e->b));
        case EXTRACT: return e->z = Z3_mk_eq(zc, Z3_mk_extract(zc, (unsigned)e->v, (unsigned)e->v, trBV(e->a)), zConst(1, 1));
        case ADD: case SUB: return e->z = Z3_mk_xor(zc, tr(e->a), tr(e->b));
        case MUL: { Z3_ast k[2] = {tr(e->a), tr(e->b)}; return e->z = Z3_mk_and(zc, 2, k); }
        default: fprintf(stderr, "tr1 op %d\n", e->op); abort();
    }
    switch (e->op) {
    case CONST: r = zConst(e->v, e->w); break;
    case VAR: r = Z3_mk_const(zc, Z3_mk_string_symbol(zc, g_vars[e->v].name.c_str()), bvSort(e->w)); break;
    case ADD: r = Z3_mk_bvadd(zc, tr(e->a), tr(e->b)); break;
    case SUB: r = Z3_mk_bvsub(zc, tr(e->a), tr(e->b)); break;
    case MUL: r = Z3_mk_bvmul(zc, tr(e->a), tr(e->b)); break;
    case UDIV: r = Z3_mk_bvudiv(zc, tr(e->a), tr(e->b)); break;
    case SDIV: r = Z3_mk_bvsdiv(zc, tr(e->a), tr(e->b)); break;
    case UREM: r = Z3_mk_bvurem(zc, tr(e->a), tr(e->b)); break;
    case SREM: r = Z3_mk_bvsrem(zc, tr(e->a), tr(e->b)); break;
    case AND: r = Z3_mk_bvand(zc, tr(e->a), tr(e->b)); break;
    case OR: r = Z3_mk_bvor(zc, tr(e->a), tr(e->b)); break;
    case XOR: r = Z3_mk_bvxor(zc, tr(e->a), tr(e->b)); break;
    case SHL: r = Z3_mk_bvshl(zc, tr(e->a), tr(e->b)); break;
    case LSHR: r = Z3_mk_bvlshr(zc, tr(e->a), tr(e->b)); break;
    case ASHR: r = Z3_mk_bvashr(zc, tr(e->a), tr(e->b)); break;
    case ITE: r = Z3_mk_ite(zc, tr(e->a), tr(e->b), tr(e->c)); break;
    case ZEXT: r = Z3_mk_zero_ext(zc, e->w - e->a->w, trBV(e->a)); break;
    case SEXT: r = Z3_mk_sign_ext(zc, e->w - e->a->w, trBV(e->a)); break;
    case EXTRACT: r = Z3_mk_extract(zc, (unsigned)(e->v + e->w - 1), (unsigned)e->v, trBV(e->a)); break;
    case CONCAT: r = Z3_mk_concat(zc, trBV(e->a), trBV(e->b)); break;
    case READ: {
        std::vector<Upd*> ch; Upd* u = e->u;
        while (u->next && ch.size() <= ITE_READ) { ch.push_back(u); u = u->next; }
        if (u->next) { r = Z3_mk_select(zc, trUpd(e->u), tr(e->a)); break; }
        r = tr(u->root);
        for (size_t k = ch.size(); k-- > 0;) { Expr* c = mkEq(e->a, ch[k]->idx); if (isC(c)) { if (c->v) r = tr(ch[k]->val); } else r = Z3_mk_ite(zc, tr(c), tr(ch[k]->val), r); }
        break; }
    default: fprintf(stderr, "tr op %d\n", e->op); abort();
    }
    return e->z = r;
}
static void zInit()
{
    Z3_config c = Z3_mk_config(); zc = Z3_mk_context(c); Z3_del_config(c);
    zs = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BV")); Z3_solver_inc_ref(zc, zs);
    zsa = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_ABV")); Z3_solver_inc_ref(zc, zsa);
    Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p);
    Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "rlimit"), g_rlimit);
    Z3_solver_set_params(zc, zs, p); Z3_solver_set_params(zc, zsa, p);
    zIdx = Z3_mk_bv_sort(zc, 64); zByte = Z3_mk_bv_sort(zc, 8); zArr = Z3_mk_array_sort(zc, zIdx, zByte);
}
static volatile double g_queryT;   /* when the running query was started */
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct QRes { int sat; std::vector<std::pair<u32, u64>> model; };
struct VecHash { size_t operator()(const std::vector<u32>& v) const { u64 h = v.size(); for (u32 x : v) { h = (h ^ x) * 0x9E3779B97F4A7C15ULL; h ^= h >> 29; } return (size_t)h; } };
static std::unordered_map<std::vector<u32>, QRes, VecHash> g_qcache;

/* the second solver: two configurations of cvc5 run side by side. 1/0/-1 */
extern char** environ;
static std::string g_extBase; static u64 g_external; static double g_queryLimit = 120, g_slowLimit = 120, g_fastLimit = 1; static bool over();
static int solveExternal(const std::string& text, const VarSet& vs, std::vector<std::pair<u32, u64>>& model, bool arr)
{
    static int have = -1; if (have < 0) have = access("/usr/bin/cvc5", X_OK) == 0;
    if (!have || g_extBase.empty() || over()) return -1;
    std::string base = g_extBase + "." + std::to_string(getpid()), in = base + ".q.smt2", get; std::vector<u32> asked;
    for (u32 v : vs) if (text.find("(declare-fun " + g_vars[v].name + " ") != std::string::npos) { asked.push_back(v); get += " " + g_vars[v].name; }
    FILE* F = fopen(in.c_str(), "w"); if (!F) return -1;
    fprintf(F, "(set-logic %s)\n%s(check-sat)\n", arr ? "QF_ABV" : "QF_BV", text.c_str());
    if (asked.size()) fprintf(F, "(get-value (%s))\n", get.c_str());
    fclose(F);
    int n = arr ? 1 : 2, res = -1; pid_t pid[2]; std::string outs[2]; bool live[2] = {false, false};
    for (int k = 0; k < n; k++) {
        outs[k] = base + ".q" + std::to_string(k);
        posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
        posix_spawn_file_actions_addopen(&fa, 1, outs[k].c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); posix_spawn_file_actions_addopen(&fa, 2, "/dev/null", O_WRONLY, 0);
        const char* av[] = {"cvc5", "--tlimit=20000", "--produce-models", in.c_str(), k ? "--solve-bv-as-int=sum" : nullptr, nullptr};
        live[k] = posix_spawn(&pid[k], "/usr/bin/cvc5", &fa, nullptr, (char* const*)av, environ) == 0; posix_spawn_file_actions_destroy(&fa);
    }
    for (double t0 = now(); res < 0 && (live[0] || live[1]) && now() - t0 < (over() ? 3 : 25);) {
        for (int k = 0; k < n && res < 0; k++) if (live[k]) {
            int st; pid_t p = waitpid(pid[k], &st, WNOHANG); if (p == 0 || (p < 0 && errno == EINTR)) continue;
            live[k] = false; std::ifstream f(outs[k]); std::string first, rest, l; std::getline(f, first);
            if (first == "unsat") res = 0;
            else if (first == "sat") {
                while (std::getline(f, l)) rest += l + " ";
                size_t at = 0; bool ok = true; model.clear(); std::unordered_set<u32> got;
                for (u32 v : asked) {
                    size_t i = rest.find("(" + g_vars[v].name + " #", at); if (i == std::string::npos) { ok = false; break; }
                    i += g_vars[v].name.size() + 3; model.push_back({v, strtoull(rest.c_str() + i + 1, 0, rest[i] == 'b' ? 2 : 16)}); got.insert(v);
                }
                for (u32 v : vs) if (!got.count(v)) model.push_back({v, 0});
                if (ok) res = 1;
            }
        }
        if (res < 0) usleep(3000);
    }
    for (int k = 0; k < n; k++) { if (live[k]) { kill(pid[k], SIGKILL); int st; while (waitpid(pid[k], &st, 0) < 0 && errno == EINTR) {} } unlink(outs[k].c_str()); }
    unlink(in.c_str());
    return res;
}
/* Is cs && q satisfiable?  cs: path constraints; only those sharing variables (transitively) with q are sent. 1/0/-1 */
static int solve(const std::vector<Expr*>& cs, Expr* q, const QRes** out)
{
    std::vector<Expr*> use; std::vector<char> in(cs.size(), 0);
    const VarSet* vs = varsOf(q);
    for (bool ch = true; ch;) {
        ch = false;
        for (size_t i = cs.size(); i-- > 0;) if (!in[i]) {
            const VarSet* v = varsOf(cs[i]);
            bool inter = false; size_t x = 0, y = 0;
            while (x < v->size() && y < vs->size()) { if ((*v)[x] == (*vs)[y]) { inter = true; break; } if ((*v)[x] < (*vs)[y]) x++; else y++; }
            if (inter) { in[i] = 1; use.push_back(cs[i]); const VarSet* n = mergeVS(vs, v); if (n != vs) { vs = n; ch = true; } }
        }
    }
    std::vector<u32> key; for (Expr* e : use) key.push_back(e->id);
    std::sort(key.begin(), key.end()); key.push_back(q->id);
    auto it = g_qcache.find(key);
    if (it != g_qcache.end()) { g_cacheHits++; *out = &it->second; return it->second.sat; }
    /* an earlier assignment may already satisfy this query */
    static std::vector<Model> recent; static size_t rpos;
    for (size_t k = 0; k < recent.size(); k++) {
        const Model& m = recent[(rpos + recent.size() - 1 - k) % recent.size()]; g_epoch++;
        bool ok = evalRec(q, m); for (size_t i = 0; ok && i < use.size(); i++) ok = evalRec(use[i], m);
        if (ok) { g_modelHits++; QRes& qr = g_qcache[key]; qr.sat = 1; for (u32 v : *vs) qr.model.push_back({v, m.get(v)}); *out = &qr; return 1; }
    }
    double t0 = now(); g_queries++;
    bool arr = hasRead(q); for (size_t i = 0; !arr && i < use.size(); i++) arr = hasRead(use[i]);
    static const char* modeEnv = getenv("VSE_INC"); static bool incMode = modeEnv && atoi(modeEnv);
    Z3_solver z = arr ? zsa : zs; bool inc = incMode && !arr;
    std::vector<Z3_ast> lits;
    if (inc) {
        static std::unordered_map<Expr*, Z3_ast> lit; static u64 nAss = 0;
        if (nAss > (u64)atoi(modeEnv)) { Z3_solver_reset(zc, z); lit.clear(); nAss = 0; }
        auto get = [&](Expr* e) { auto i2 = lit.find(e); if (i2 != lit.end()) return i2->second;
            Z3_ast b = Z3_mk_const(zc, Z3_mk_int_symbol(zc, (int)e->id), Z3_mk_bool_sort(zc)); Z3_solver_assert(zc, z, Z3_mk_implies(zc, b, tr(e))); nAss++; lit[e] = b; return b; };
        for (Expr* e : use) lits.push_back(get(e)); lits.push_back(get(q));
    } else {
    Z3_solver_reset(zc, z);
    for (Expr* e : use) Z3_solver_assert(zc, z, tr(e));
    Z3_solver_assert(zc, z, tr(q));
    }
    if (getenv("VSE_DUMP")) { char fn[256]; snprintf(fn, sizeof fn, "%s/%d-%llu.smt2", getenv("VSE_DUMP"), (int)getpid(), (unsigned long long)g_queries); FILE* F = fopen(fn, "w"); if (F) { fprintf(F, "%s(check-sat)\n", Z3_solver_to_string(zc, z)); fclose(F); } }
    auto check = [&]() { g_queryT = now(); Z3_lbool l = inc ? Z3_solver_check_assumptions(zc, z, lits.size(), lits.data()) : Z3_solver_check(zc, z); g_queryT = 0; return l; };
    g_queryLimit = g_fastLimit; Z3_lbool r = check(); g_queryLimit = g_slowLimit;
    if (r == Z3_L_UNDEF && !inc) {   /* a hard one: ask the second solver, then the first again, with time */
        auto load = [&]() { Z3_solver_reset(zc, z); for (Expr* e : use) Z3_solver_assert(zc, z, tr(e)); Z3_solver_assert(zc, z, tr(q)); };
        load(); std::vector<std::pair<u32, u64>> xm; int x = solveExternal(Z3_solver_to_string(zc, z), *vs, xm, arr);
        Model mm; bool good = x == 0;
        if (x == 1) { for (auto& p : xm) mm.set(p.first, p.second); g_epoch++; good = evalRec(q, mm); for (size_t i = 0; good && i < use.size(); i++) good = evalRec(use[i], mm); }
        if (good) {
            g_external++; g_solveTime += now() - t0; QRes& qr = g_qcache[key]; qr.sat = x; if (x) { qr.model = xm; if (recent.size() < 32) recent.push_back(mm); else { recent[rpos] = mm; rpos = (rpos + 1) % 32; } }
            *out = &qr; return x;
        }
        r = check();
    }
    QRes& qr = g_qcache[key]; qr.sat = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (r == Z3_L_TRUE) {
        Z3_model m = Z3_solver_get_model(zc, z); Z3_model_inc_ref(zc, m); Model mm;
        for (u32 v : *vs) { Z3_ast a; uint64_t x = 0; if (Z3_model_eval(zc, m, tr(g_varExpr[v]), true, &a)) Z3_get_numeral_uint64(zc, a, &x); qr.model.push_back({v, x}); mm.set(v, x); }
        Z3_model_dec_ref(zc, m);
        g_epoch++; if (!evalRec(q, mm)) { fprintf(stderr, "model does not satisfy the query\n"); abort(); }
        if (recent.size() < 32) recent.push_back(mm); else { recent[rpos] = mm; rpos = (rpos + 1) % 32; }
    }
    if (qr.sat < 0) g_unknown++;
    g_solveTime += now() - t0;
    if (now() - t0 > 5 && getenv("VSE_SLOW")) { char fn[256]; snprintf(fn, sizeof fn, "%s/%d-%llu-%.0f.smt2", getenv("VSE_SLOW"), (int)getpid(), (unsigned long long)g_queries, now() - t0); FILE* F = fopen(fn, "w"); if (F) { fprintf(F, "%s(check-sat)\n", Z3_solver_to_string(zc, z)); fclose(F); } }
    *out = &qr; return qr.sat;
}
#endif
