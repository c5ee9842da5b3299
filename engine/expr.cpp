#include "expr.h"
#include <algorithm>
#include <cstdio>
#include <cassert>

std::vector<std::string> ufNames;
static std::unordered_map<std::string, uint32_t> ufMap;
std::vector<uint8_t> symWidth;

uint32_t ufId(const std::string &name)
{
    auto it = ufMap.find(name);
    if (it != ufMap.end()) return it->second;
    ufNames.push_back(name);
    return ufMap[name] = ufNames.size() - 1;
}

typedef double (*F1)(double);
static const std::map<std::string, F1> fn1 = {
    {"exp", exp}, {"log", log}, {"log2", log2}, {"log10", log10}, {"sin", sin}, {"cos", cos}, {"tan", tan},
    {"asin", asin}, {"acos", acos}, {"atan", atan}, {"sinh", sinh}, {"cosh", cosh}, {"tanh", tanh},
    {"asinh", asinh}, {"acosh", acosh}, {"atanh", atanh}, {"tgamma", tgamma}, {"lgamma", lgamma}, {"round", round}, {"cbrt", cbrt},
    {"exp2", exp2}, {"expm1", expm1}, {"log1p", log1p}, {"rint", rint}, {"nearbyint", nearbyint}, {"sqrt", sqrt}};

double ufEval(uint32_t id, const double *x, int n)
{
    const std::string &s = ufNames[id];
    if (n == 1) { auto it = fn1.find(s); if (it != fn1.end()) return it->second(x[0]); }
    if (s == "pow") return pow(x[0], x[1]);
    if (s == "fmod") return fmod(x[0], x[1]);
    if (s == "atan2") return atan2(x[0], x[1]);
    if (s == "hypot") return hypot(x[0], x[1]);
    if (s == "remainder") return remainder(x[0], x[1]);
    if (s == "fmax") return fmax(x[0], x[1]);
    if (s == "fmin") return fmin(x[0], x[1]);
    return NAN;
}

// ---------------------------------------------------------------- interning
static size_t hashExpr(const Expr *e)
{
    uint64_t h = e->op * 0x9E3779B97F4A7C15ull + e->w * 1315423911ull;
    h ^= e->k + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    for (int i = 0; i < e->n; i++) h = (h ^ e->a[i]->id) * 0x100000001B3ull + (h >> 29);
    return h;
}
struct EH { size_t operator()(const Expr *e) const { return hashExpr(e); } };
struct EEq { bool operator()(const Expr *x, const Expr *y) const {
    if (x->op != y->op || x->w != y->w || x->k != y->k || x->n != y->n) return false;
    for (int i = 0; i < x->n; i++) if (x->a[i] != y->a[i]) return false;
    return true; } };
static std::unordered_set<const Expr *, EH, EEq> table;
static uint32_t nextId = 1;

struct SupH { size_t operator()(const Sup *s) const { size_t h = 7; for (uint32_t x : *s) h = h * 1000003 + x; return h; } };
struct SupEq { bool operator()(const Sup *a, const Sup *b) const { return *a == *b; } };
static std::unordered_set<const Sup *, SupH, SupEq> sups;
static const Sup *internSup(Sup &&s)
{
    auto it = sups.find(&s);
    if (it != sups.end()) return *it;
    const Sup *p = new Sup(std::move(s));
    sups.insert(p);
    return p;
}
static const Sup *emptySup = internSup(Sup());
static const Sup *unionSup(const Sup *a, const Sup *b)
{
    if (a == b || b->empty()) return a;
    if (a->empty()) return b;
    Sup r;
    std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
    return internSup(std::move(r));
}

static E intern(Op op, unsigned w, uint64_t k, E a, E b, E c, E d)
{
    Expr t;
    t.op = op; t.w = w; t.k = k; t.n = 0;
    E as[4] = {a, b, c, d};
    for (int i = 0; i < 4; i++) if (as[i]) t.a[t.n++] = as[i];
    auto it = table.find(&t);
    if (it != table.end()) return *it;
    Expr *e = new Expr(t);
    e->id = nextId++;
    e->stamp = 0;
    e->fp = (op >= O_FADD && op <= O_UITOFP) || op == O_UF;
    e->hasuf = op == O_UF;
    e->real = op >= O_RVAR;
    e->uninit = op == O_UNINIT;
    const Sup *s = emptySup;
    if (op == O_SYM || op == O_RVAR) s = internSup(Sup{(uint32_t)k});
    if (op == O_UNINIT) s = internSup(Sup{UNINIT_BASE + (uint32_t)k});
    for (int i = 0; i < e->n; i++)
    {
        s = unionSup(s, e->a[i]->sup);
        e->fp |= e->a[i]->fp; e->hasuf |= e->a[i]->hasuf; e->real |= e->a[i]->real; e->uninit |= e->a[i]->uninit;
    }
    e->sup = s;
    table.insert(e);
    return e;
}

E mkConst(uint64_t v, unsigned w) { return intern(O_CONST, w, v & maskw(w), nullptr, nullptr, nullptr, nullptr); }
E mkSym(uint32_t idx, unsigned w)
{
    if (idx >= symWidth.size()) symWidth.resize(idx + 1, 0);
    symWidth[idx] = w;
    // index and width together identify a symbol: paths may reuse an index with another width
    return intern(O_SYM, w, idx, nullptr, nullptr, nullptr, nullptr);
}
E mkUninit(uint32_t idx, unsigned w) { return intern(O_UNINIT, w, idx, nullptr, nullptr, nullptr, nullptr); }

uint64_t foldOp(Op op, unsigned w, unsigned cw, uint64_t a, uint64_t b, uint64_t c, uint64_t k)
{
    // w: result width, cw: operand width
    uint64_t m = maskw(w);
    switch (op)
    {
    case O_ADD: return (a + b) & m;
    case O_SUB: return (a - b) & m;
    case O_MUL: return (a * b) & m;
    case O_UDIV: return b ? (a / b) & m : m;
    case O_UREM: return b ? (a % b) & m : a;
    case O_SDIV: { int64_t x = sx(a, w), y = sx(b, w); if (y == 0) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (uint64_t)(x / y) & m; }
    case O_SREM: { int64_t x = sx(a, w), y = sx(b, w); if (y == 0) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
    case O_SHL: return b >= w ? 0 : (a << b) & m;
    case O_LSHR: return b >= w ? 0 : (a >> b) & m;
    case O_ASHR: return (uint64_t)(sx(a, w) >> (b >= w ? (w - 1) : b)) & m;
    case O_AND: return a & b;
    case O_OR: return a | b;
    case O_XOR: return a ^ b;
    case O_EQ: return a == b;
    case O_ULT: return a < b;
    case O_ULE: return a <= b;
    case O_SLT: return sx(a, cw) < sx(b, cw);
    case O_SLE: return sx(a, cw) <= sx(b, cw);
    case O_NOT: return ~a & m;
    case O_ITE: return a ? b : c;
    case O_EXTRACT: return (a >> k) & m;
    case O_ZEXT: return a;
    case O_SEXT: return (uint64_t)sx(a, cw) & m;
    case O_FADD: return d2bits(bits2d(a) + bits2d(b));
    case O_FSUB: return d2bits(bits2d(a) - bits2d(b));
    case O_FMUL: return d2bits(bits2d(a) * bits2d(b));
    case O_FDIV: return d2bits(bits2d(a) / bits2d(b));
    case O_FNEG: return a ^ 0x8000000000000000ull;
    case O_FABS: return a & 0x7FFFFFFFFFFFFFFFull;
    case O_FFLOOR: return d2bits(floor(bits2d(a)));
    case O_FCEIL: return d2bits(ceil(bits2d(a)));
    case O_FTRUNC: return d2bits(trunc(bits2d(a)));
    case O_FROUND: return d2bits(round(bits2d(a)));
    case O_FSQRT: return d2bits(sqrt(bits2d(a)));
    case O_FOEQ: return bits2d(a) == bits2d(b);
    case O_FOLT: return bits2d(a) < bits2d(b);
    case O_FOLE: return bits2d(a) <= bits2d(b);
    case O_FUNO: return std::isnan(bits2d(a)) || std::isnan(bits2d(b));
    case O_FPTOSI: {
        double d = bits2d(a);
        // x86 behaviour for values out of range: the "integer indefinite" value
        if (w <= 32) { if (!(d > -2147483649.0 && d < 2147483648.0)) return 0x80000000ull & m; return (uint64_t)(int64_t)d & m; }
        if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return 0x8000000000000000ull;
        return (uint64_t)(int64_t)d; }
    case O_FPTOUI: {
        double d = bits2d(a);
        if (w <= 32) { if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return 0; return (uint64_t)(int64_t)d & m; }
        if (d >= 9223372036854775808.0) return d < 18446744073709551616.0 ? (uint64_t)(int64_t)(d - 9223372036854775808.0) ^ 0x8000000000000000ull : 0;
        return d >= -9223372036854775808.0 ? (uint64_t)(int64_t)d : 0x8000000000000000ull; }
    case O_SITOFP: return d2bits((double)sx(a, cw));
    case O_UITOFP: return d2bits((double)a);
    default: fprintf(stderr, "foldOp %d\n", op); abort();
    }
}

static inline bool isC(E e) { return e->op == O_CONST; }

E mkNot(E a)
{
    if (isC(a)) return mkConst(~a->k, a->w);
    if (a->op == O_NOT) return a->a[0];
    if (a->w == 1)
    {
        if (a->op == O_ULT) return mkOp(O_ULE, 1, a->a[1], a->a[0]);
        if (a->op == O_ULE) return mkOp(O_ULT, 1, a->a[1], a->a[0]);
        if (a->op == O_SLT) return mkOp(O_SLE, 1, a->a[1], a->a[0]);
        if (a->op == O_SLE) return mkOp(O_SLT, 1, a->a[1], a->a[0]);
    }
    return intern(O_NOT, a->w, 0, a, nullptr, nullptr, nullptr);
}

E mkExtract(E a, unsigned lo, unsigned w)
{
    if (lo == 0 && w == a->w) return a;
    if (isC(a)) return mkConst(a->k >> lo, w);
    if (a->op == O_EXTRACT) return mkExtract(a->a[0], lo + a->k, w);
    if (a->op == O_CONCAT)
    {
        unsigned lw = a->a[1]->w;
        if (lo + w <= lw) return mkExtract(a->a[1], lo, w);
        if (lo >= lw) return mkExtract(a->a[0], lo - lw, w);
    }
    if (a->op == O_ZEXT)
    {
        unsigned iw = a->a[0]->w;
        if (lo + w <= iw) return mkExtract(a->a[0], lo, w);
        if (lo >= iw) return mkConst(0, w);
        return mkOp(O_ZEXT, w, mkExtract(a->a[0], lo, iw - lo));
    }
    if (a->op == O_SEXT)
    {
        unsigned iw = a->a[0]->w;
        if (lo + w <= iw) return mkExtract(a->a[0], lo, w);
    }
    if (lo == 0 && (a->op == O_AND || a->op == O_OR || a->op == O_XOR || a->op == O_ADD || a->op == O_SUB) && (isC(a->a[1]) || isC(a->a[0])))
        return mkOp(a->op, w, mkExtract(a->a[0], 0, w), mkExtract(a->a[1], 0, w));
    if (a->op == O_ITE && (isC(a->a[1]) || isC(a->a[2])))
        return mkIte(a->a[0], mkExtract(a->a[1], lo, w), mkExtract(a->a[2], lo, w));
    return intern(O_EXTRACT, w, lo, a, nullptr, nullptr, nullptr);
}

E mkConcat(E hi, E lo)
{
    unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return mkConst((hi->k << lo->w) | lo->k, w);
    if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a[0] == lo->a[0] && hi->k == lo->k + lo->w)
        return mkExtract(hi->a[0], lo->k, w);
    if (isC(hi) && hi->k == 0) return mkOp(O_ZEXT, w, lo);
    if (hi->op == O_EXTRACT && lo->op == O_CONCAT && lo->a[0]->op == O_EXTRACT && hi->a[0] == lo->a[0]->a[0] && hi->k == lo->a[0]->k + lo->a[0]->w)
        return mkConcat(mkConcat(hi, lo->a[0]), lo->a[1]);
    return intern(O_CONCAT, w, 0, hi, lo, nullptr, nullptr);
}

E mkIte(E c, E t, E f)
{
    if (isC(c)) return c->k ? t : f;
    if (t == f) return t;
    if (c->op == O_NOT) return mkIte(c->a[0], f, t);
    if (t->w == 1)
    {
        if (isC(t) && isC(f)) return t->k ? c : mkNot(c);
        if (isC(t)) return t->k ? mkOp(O_OR, 1, c, f) : mkOp(O_AND, 1, mkNot(c), f);
        if (isC(f)) return f->k ? mkOp(O_OR, 1, mkNot(c), t) : mkOp(O_AND, 1, c, t);
    }
    if (t->op == O_ITE && t->a[0] == c) t = t->a[1];
    if (f->op == O_ITE && f->a[0] == c) f = f->a[2];
    if (t == f) return t;
    return intern(O_ITE, t->w, 0, c, t, f, nullptr);
}

E mkUF(const std::string &name, unsigned w, E a, E b)
{
    if (isC(a) && (!b || isC(b)))
    {
        double x[2] = {bits2d(a->k), b ? bits2d(b->k) : 0};
        return mkConst(d2bits(ufEval(ufId(name), x, b ? 2 : 1)), w);
    }
    return intern(O_UF, w, ufId(name), a, b, nullptr, nullptr);
}

E mkOp(Op op, unsigned w, E a, E b, E c, uint64_t k, E d)
{
    if (op >= O_RVAR) return intern(op, w, k, a, b, c, d);
    if (op == O_NOT) return mkNot(a);
    if (op == O_ITE) return mkIte(a, b, c);
    if (op == O_EXTRACT) return mkExtract(a, k, w);
    if (op == O_CONCAT) return mkConcat(a, b);
    if (isC(a) && (!b || isC(b)) && (!c || isC(c)))
        return mkConst(foldOp(op, w, a->w, a->k, b ? b->k : 0, c ? c->k : 0, k), w);
    uint64_t m = maskw(w);
    switch (op)
    {
    case O_ADD:
        if (isC(a)) std::swap(a, b);
        if (isC(b) && b->k == 0) return a;
        if (isC(b) && a->op == O_ADD && isC(a->a[1])) return mkOp(O_ADD, w, a->a[0], mkConst(a->a[1]->k + b->k, w));
        break;
    case O_SUB:
        if (a == b) return mkConst(0, w);
        if (isC(b)) return mkOp(O_ADD, w, a, mkConst(0 - b->k, w));
        if (a->op == O_ADD && a->a[0] == b) return a->a[1];
        if (a->op == O_ADD && a->a[1] == b) return a->a[0];
        break;
    case O_MUL:
        if (isC(a)) std::swap(a, b);
        if (isC(b) && b->k == 0) return b;
        if (isC(b) && b->k == 1) return a;
        if (isC(b) && (b->k & (b->k - 1)) == 0) return mkOp(O_SHL, w, a, mkConst(__builtin_ctzll(b->k), w));
        break;
    case O_SHL: case O_LSHR: case O_ASHR:
        if (isC(b) && b->k == 0) return a;
        if (op == O_LSHR && isC(b) && b->k < w) return mkOp(O_ZEXT, w, mkExtract(a, b->k, w - b->k));
        if (op == O_SHL && isC(b) && b->k < w && a->op != O_ADD) return mkConcat(mkExtract(a, 0, w - b->k), mkConst(0, b->k));
        break;
    case O_AND:
        if (isC(a)) std::swap(a, b);
        if (isC(b) && b->k == 0) return b;
        if (isC(b) && b->k == m) return a;
        if (a == b) return a;
        if (w == 1 && (a == mkNot(b))) return mkConst(0, 1);
        if (isC(b) && a->op == O_ZEXT && (b->k & maskw(a->a[0]->w)) == maskw(a->a[0]->w)) return a;
        if (a->id > b->id && !isC(b)) std::swap(a, b);
        break;
    case O_OR:
        if (isC(a)) std::swap(a, b);
        if (isC(b) && b->k == 0) return a;
        if (isC(b) && b->k == m) return b;
        if (a == b) return a;
        if (w == 1 && (a == mkNot(b))) return mkConst(1, 1);
        if (a->id > b->id && !isC(b)) std::swap(a, b);
        break;
    case O_XOR:
        if (isC(a)) std::swap(a, b);
        if (isC(b) && b->k == 0) return a;
        if (isC(b) && b->k == m) return mkNot(a);
        if (a == b) return mkConst(0, w);
        break;
    case O_EQ:
        if (a == b && !a->fp) return mkConst(1, 1);
        if (a == b) return mkConst(1, 1);
        if (isC(a)) std::swap(a, b);
        if (isC(b))
        {
            if (a->w == 1) return b->k ? a : mkNot(a);
            if (a->op == O_ZEXT)
            {
                if (b->k & ~maskw(a->a[0]->w)) return mkConst(0, 1);
                return mkOp(O_EQ, 1, a->a[0], mkConst(b->k, a->a[0]->w));
            }
            if (a->op == O_SEXT)
            {
                unsigned iw = a->a[0]->w;
                if (((uint64_t)sx(b->k & maskw(iw), iw) & maskw(a->w)) != b->k) return mkConst(0, 1);
                return mkOp(O_EQ, 1, a->a[0], mkConst(b->k, iw));
            }
            if (a->op == O_ADD && isC(a->a[1])) return mkOp(O_EQ, 1, a->a[0], mkConst(b->k - a->a[1]->k, a->w));
            if (a->op == O_ITE && isC(a->a[1]) && isC(a->a[2]))
            {
                bool t = a->a[1]->k == b->k, f = a->a[2]->k == b->k;
                if (t && f) return mkConst(1, 1);
                if (!t && !f) return mkConst(0, 1);
                return t ? a->a[0] : mkNot(a->a[0]);
            }
            if (a->op == O_ITE && isC(a->a[1])) return mkIte(a->a[0], mkConst(a->a[1]->k == b->k, 1), mkOp(O_EQ, 1, a->a[2], b));
            if (a->op == O_CONCAT)
                return mkOp(O_AND, 1, mkOp(O_EQ, 1, a->a[0], mkConst(b->k >> a->a[1]->w, a->a[0]->w)),
                            mkOp(O_EQ, 1, a->a[1], mkConst(b->k, a->a[1]->w)));
        }
        else
        {
            if (a->op == O_ZEXT && b->op == O_ZEXT && a->a[0]->w == b->a[0]->w) return mkOp(O_EQ, 1, a->a[0], b->a[0]);
            if (a->op == O_SEXT && b->op == O_SEXT && a->a[0]->w == b->a[0]->w) return mkOp(O_EQ, 1, a->a[0], b->a[0]);
            if (a->id > b->id) std::swap(a, b);
        }
        break;
    case O_ULT:
        if (a == b) return mkConst(0, 1);
        if (isC(b) && b->k == 0) return mkConst(0, 1);
        if (isC(b) && a->op == O_ZEXT && b->k > maskw(a->a[0]->w)) return mkConst(1, 1);
        if (isC(b) && a->op == O_ZEXT) return mkOp(O_ULT, 1, a->a[0], mkConst(b->k, a->a[0]->w));
        if (isC(a) && b->op == O_ZEXT && a->k >= maskw(b->a[0]->w)) return mkConst(0, 1);
        if (isC(a) && b->op == O_ZEXT) return mkOp(O_ULT, 1, mkConst(a->k, b->a[0]->w), b->a[0]);
        break;
    case O_ULE:
        if (a == b) return mkConst(1, 1);
        if (isC(a) && a->k == 0) return mkConst(1, 1);
        if (isC(b) && a->op == O_ZEXT && b->k >= maskw(a->a[0]->w)) return mkConst(1, 1);
        if (isC(b) && a->op == O_ZEXT) return mkOp(O_ULE, 1, a->a[0], mkConst(b->k, a->a[0]->w));
        if (isC(a) && b->op == O_ZEXT && a->k > maskw(b->a[0]->w)) return mkConst(0, 1);
        if (isC(a) && b->op == O_ZEXT) return mkOp(O_ULE, 1, mkConst(a->k, b->a[0]->w), b->a[0]);
        break;
    case O_SLT: case O_SLE:
        if (a == b) return mkConst(op == O_SLE, 1);
        if (a->op == O_ZEXT && b->op == O_ZEXT && a->a[0]->w == b->a[0]->w)
            return mkOp(op == O_SLT ? O_ULT : O_ULE, 1, a->a[0], b->a[0]);
        if (a->op == O_ZEXT && isC(b)) { if (sx(b->k, a->w) < 0) return mkConst(0, 1); return mkOp(op == O_SLT ? O_ULT : O_ULE, 1, a, b); }
        if (b->op == O_ZEXT && isC(a)) { if (sx(a->k, b->w) < 0) return mkConst(1, 1); return mkOp(op == O_SLT ? O_ULT : O_ULE, 1, a, b); }
        break;
    case O_ZEXT:
        if (w == a->w) return a;
        if (a->op == O_ZEXT) return mkOp(O_ZEXT, w, a->a[0]);
        break;
    case O_SEXT:
        if (w == a->w) return a;
        if (a->op == O_SEXT) return mkOp(O_SEXT, w, a->a[0]);
        if (a->op == O_ZEXT) return mkOp(O_ZEXT, w, a->a[0]);
        break;
    case O_FADD: case O_FMUL:
        if (a->id > b->id) std::swap(a, b);     // commutative (up to NaN payload, which the harnesses never observe)
        break;
    case O_FOEQ:
        if (a->id > b->id) std::swap(a, b);
        if (a->op == O_SITOFP && isC(b)) {}
        break;
    case O_FNEG: if (a->op == O_FNEG) return a->a[0]; break;
    case O_FABS: if (a->op == O_FABS) return a; if (a->op == O_FNEG) return mkOp(O_FABS, 64, a->a[0]); break;
    default: break;
    }
    return intern(op, w, k, a, b, c, d);
}

static uint64_t curStamp = 0;
static uint64_t ev(E e, const Model &m)
{
    if (e->op == O_CONST) return e->k;
    if (e->stamp == curStamp) return e->val;
    uint64_t r;
    switch (e->op)
    {
    case O_SYM: case O_RVAR: r = m.get(e->k) & maskw(e->w); break;
    case O_UNINIT: r = 0; break;
    case O_ITE: r = ev(e->a[0], m) ? ev(e->a[1], m) : ev(e->a[2], m); break;
    case O_CONCAT: r = (ev(e->a[0], m) << e->a[1]->w) | ev(e->a[1], m); break;
    case O_UF: case O_RUF:
    {
        double x[4];
        for (int i = 0; i < e->n; i++) x[i] = bits2d(ev(e->a[i], m));
        r = d2bits(ufEval(e->k, x, e->n));
        break;
    }
    case O_RCONST: r = e->k; break;
    case O_RADD: r = d2bits(bits2d(ev(e->a[0], m)) + bits2d(ev(e->a[1], m))); break;
    case O_RMUL: r = d2bits(bits2d(ev(e->a[0], m)) * bits2d(ev(e->a[1], m))); break;
    case O_RDIV: r = d2bits(bits2d(ev(e->a[0], m)) / bits2d(ev(e->a[1], m))); break;
    case O_RPOW: r = d2bits(pow(bits2d(ev(e->a[0], m)), bits2d(ev(e->a[1], m)))); break;
    case O_RMIN: r = d2bits(std::fmin(bits2d(ev(e->a[0], m)), bits2d(ev(e->a[1], m)))); break;
    case O_RMAX: r = d2bits(std::fmax(bits2d(ev(e->a[0], m)), bits2d(ev(e->a[1], m)))); break;
    case O_REQ: r = bits2d(ev(e->a[0], m)) == bits2d(ev(e->a[1], m)); break;
    case O_RLT: r = bits2d(ev(e->a[0], m)) < bits2d(ev(e->a[1], m)); break;
    case O_RLE: r = bits2d(ev(e->a[0], m)) <= bits2d(ev(e->a[1], m)); break;
    default:
    {
        uint64_t x = ev(e->a[0], m), y = e->n > 1 ? ev(e->a[1], m) : 0;
        r = foldOp(e->op, e->w, e->a[0]->w, x, y, 0, e->k);
    }
    }
    e->stamp = curStamp;
    e->val = r;
    return r;
}
uint64_t evalExpr(E e, const Model &m) { curStamp++; return ev(e, m); }

std::string exprStr(E e, int depth)
{
    static const char *names[] = {"const","sym","uninit","add","sub","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor",
        "=","u<","u<=","s<","s<=","not","ite","concat","extract","zext","sext","f+","f-","f*","f/","fneg","fabs","ffloor","fceil","ftrunc","fround","fsqrt",
        "f=","f<","f<=","funo","fptosi","fptoui","sitofp","uitofp","uf","rvar","rconst","r+","r*","r/","rpow","ruf","r=","r<","r<="};
    char buf[64];
    if (e->op == O_CONST) { snprintf(buf, sizeof buf, "%llu", (unsigned long long)e->k); return buf; }
    if (e->op == O_RCONST) { snprintf(buf, sizeof buf, "%.17g", bits2d(e->k)); return buf; }
    if (e->op == O_SYM || e->op == O_RVAR) { snprintf(buf, sizeof buf, "s%llu", (unsigned long long)e->k); return buf; }
    if (e->op == O_UNINIT) { snprintf(buf, sizeof buf, "u%llu", (unsigned long long)e->k); return buf; }
    if (depth == 0) return "...";
    std::string s = "(";
    s += names[e->op];
    if (e->op == O_EXTRACT) s += "[" + std::to_string(e->k) + "+" + std::to_string(e->w) + "]";
    if (e->op == O_UF || e->op == O_RUF) s += ":" + ufNames[e->k];
    for (int i = 0; i < e->n; i++) s += " " + exprStr(e->a[i], depth - 1);
    return s + ")";
}

// the same expression with every uninitialised part replaced by zero
E zeroUninit(E e)
{
    static std::unordered_map<E, E> memo;
    if (!e->uninit) return e;
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    E a[4] = {nullptr, nullptr, nullptr, nullptr}, r;
    for (int i = 0; i < e->n; i++) a[i] = zeroUninit(e->a[i]);
    switch (e->op)
    {
    case O_UNINIT: r = mkConst(0, e->w); break;
    case O_NOT: r = mkNot(a[0]); break;
    case O_EXTRACT: r = mkExtract(a[0], e->k, e->w); break;
    case O_CONCAT: r = mkConcat(a[0], a[1]); break;
    case O_ITE: r = mkIte(a[0], a[1], a[2]); break;
    case O_UF: r = mkUF(ufNames[e->k], e->w, a[0], a[1]); break;
    default: r = mkOp(e->op, e->w, a[0], a[1], a[2], e->k, a[3]);
    }
    memo[e] = r;
    return r;
}
