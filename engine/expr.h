// Hash-consed expressions over bit-vectors, IEEE doubles (as 64-bit patterns) and reals.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <cmath>
#include <cfenv>

enum Op : uint8_t {
    O_CONST, O_SYM, O_UNINIT,
    O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR,
    O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
    O_NOT, O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
    // doubles
    O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FNEG, O_FABS, O_FFLOOR, O_FCEIL, O_FTRUNC, O_FROUND, O_FSQRT,
    O_FOEQ, O_FOLT, O_FOLE, O_FUNO,
    O_FPTOSI, O_FPTOUI, O_SITOFP, O_UITOFP,
    O_UF,           // uninterpreted libm function (k = name id), evaluated by the host libm
    // reals
    O_RVAR, O_RCONST, O_RADD, O_RMUL, O_RDIV, O_RPOW, O_RMIN, O_RMAX, O_RUF, O_REQ, O_RLT, O_RLE,
};

typedef std::vector<uint32_t> Sup;          // sorted symbol keys

struct Expr {
    Op op; uint8_t w; uint8_t n; bool fp, hasuf, real, uninit;
    uint32_t id;
    uint64_t k;             // constant / symbol index / extract low bit / UF name id
    const Expr *a[4];
    const Sup *sup;
    mutable uint64_t stamp, val;
};
typedef const Expr *E;

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
inline double bits2d(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
inline uint64_t d2bits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }

struct Model { std::vector<uint64_t> v; uint64_t get(uint32_t i) const { return i < v.size() ? v[i] : 0; }
               void set(uint32_t i, uint64_t x) { if (i >= v.size()) v.resize(i + 1, 0); v[i] = x; } };

extern std::vector<std::string> ufNames;
uint32_t ufId(const std::string &name);
double ufEval(uint32_t id, const double *args, int n);

E mkConst(uint64_t v, unsigned w);
E mkSym(uint32_t idx, unsigned w);
E mkUninit(uint32_t idx, unsigned w);
E mkOp(Op op, unsigned w, E a, E b = nullptr, E c = nullptr, uint64_t k = 0, E d = nullptr);
E mkNot(E a);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkIte(E c, E t, E f);
E mkUF(const std::string &name, unsigned w, E a, E b = nullptr);
uint64_t evalExpr(E e, const Model &m);
E zeroUninit(E e);
std::string exprStr(E e, int depth = 6);
uint64_t foldOp(Op op, unsigned w, unsigned cw, uint64_t a, uint64_t b, uint64_t c, uint64_t k);
// symbol widths (index -> width)
extern std::vector<uint8_t> symWidth;
#define UNINIT_BASE 0x40000000u
