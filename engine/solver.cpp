#include "solver.h"
#include <z3++.h>
#include <chrono>
#include <algorithm>
#include <functional>

SolverStats solverStats;

static z3::context *ctx;
struct Tr { z3::expr e; bool isBool; };
static std::unordered_map<E, z3::expr> *bvCache, *boolCache, *fpCache;
static std::vector<std::pair<E, std::vector<E>>> dummy;

static void init()
{
    if (ctx) return;
    ctx = new z3::context();
    bvCache = new std::unordered_map<E, z3::expr>();
    boolCache = new std::unordered_map<E, z3::expr>();
    fpCache = new std::unordered_map<E, z3::expr>();
}

static z3::expr toBV(E e);
static z3::expr toFP(E e);
static z3::expr wrap(Z3_ast a) { ctx->check_error(); return z3::expr(*ctx, a); }

static z3::sort fpSort() { return ctx->fpa_sort(11, 53); }
static z3::expr rne() { return wrap(Z3_mk_fpa_rne(*ctx)); }

static bool fpProducing(E e) { return (e->op >= O_FADD && e->op <= O_FSQRT) || e->op == O_SITOFP || e->op == O_UITOFP; }

static z3::expr toBool(E e)
{
    auto it = boolCache->find(e);
    if (it != boolCache->end()) return it->second;
    z3::expr r(*ctx);
    auto A = [&](int i) { return e->a[i]; };
    switch (e->op)
    {
    case O_CONST: r = ctx->bool_val(e->k != 0); break;
    case O_NOT: r = !toBool(A(0)); break;
    case O_AND: r = toBool(A(0)) && toBool(A(1)); break;
    case O_OR: r = toBool(A(0)) || toBool(A(1)); break;
    case O_XOR: r = toBool(A(0)) != toBool(A(1)); break;
    case O_ITE: r = z3::ite(toBool(A(0)), toBool(A(1)), toBool(A(2))); break;
    case O_EQ: r = A(0)->w == 1 ? toBool(A(0)) == toBool(A(1)) : toBV(A(0)) == toBV(A(1)); break;
    case O_ULT: r = z3::ult(toBV(A(0)), toBV(A(1))); break;
    case O_ULE: r = z3::ule(toBV(A(0)), toBV(A(1))); break;
    case O_SLT: r = toBV(A(0)) < toBV(A(1)); break;
    case O_SLE: r = toBV(A(0)) <= toBV(A(1)); break;
    case O_FOEQ: r = wrap(Z3_mk_fpa_eq(*ctx, toFP(A(0)), toFP(A(1)))); break;
    case O_FOLT: r = wrap(Z3_mk_fpa_lt(*ctx, toFP(A(0)), toFP(A(1)))); break;
    case O_FOLE: r = wrap(Z3_mk_fpa_leq(*ctx, toFP(A(0)), toFP(A(1)))); break;
    case O_FUNO: r = wrap(Z3_mk_fpa_is_nan(*ctx, toFP(A(0)))) || wrap(Z3_mk_fpa_is_nan(*ctx, toFP(A(1)))); break;
    default: r = toBV(e) == ctx->bv_val(1, 1); break;
    }
    boolCache->emplace(e, r);
    return r;
}

static z3::expr toFP(E e)
{
    auto it = fpCache->find(e);
    if (it != fpCache->end()) return it->second;
    z3::expr r(*ctx);
    auto A = [&](int i) { return toFP(e->a[i]); };
    switch (e->op)
    {
    case O_FADD: r = wrap(Z3_mk_fpa_add(*ctx, rne(), A(0), A(1))); break;
    case O_FSUB: r = wrap(Z3_mk_fpa_sub(*ctx, rne(), A(0), A(1))); break;
    case O_FMUL: r = wrap(Z3_mk_fpa_mul(*ctx, rne(), A(0), A(1))); break;
    case O_FDIV: r = wrap(Z3_mk_fpa_div(*ctx, rne(), A(0), A(1))); break;
    case O_FNEG: r = wrap(Z3_mk_fpa_neg(*ctx, A(0))); break;
    case O_FABS: r = wrap(Z3_mk_fpa_abs(*ctx, A(0))); break;
    case O_FFLOOR: r = wrap(Z3_mk_fpa_round_to_integral(*ctx, wrap(Z3_mk_fpa_rtn(*ctx)), A(0))); break;
    case O_FCEIL: r = wrap(Z3_mk_fpa_round_to_integral(*ctx, wrap(Z3_mk_fpa_rtp(*ctx)), A(0))); break;
    case O_FTRUNC: r = wrap(Z3_mk_fpa_round_to_integral(*ctx, wrap(Z3_mk_fpa_rtz(*ctx)), A(0))); break;
    case O_FROUND: r = wrap(Z3_mk_fpa_round_to_integral(*ctx, wrap(Z3_mk_fpa_rna(*ctx)), A(0))); break;
    case O_FSQRT: r = wrap(Z3_mk_fpa_sqrt(*ctx, rne(), A(0))); break;
    case O_SITOFP: r = wrap(Z3_mk_fpa_to_fp_signed(*ctx, rne(), toBV(e->a[0]), fpSort())); break;
    case O_UITOFP: r = wrap(Z3_mk_fpa_to_fp_unsigned(*ctx, rne(), toBV(e->a[0]), fpSort())); break;
    case O_ITE: r = z3::ite(toBool(e->a[0]), A(1), A(2)); break;
    default: r = wrap(Z3_mk_fpa_to_fp_bv(*ctx, toBV(e), fpSort())); break;
    }
    fpCache->emplace(e, r);
    return r;
}

static std::vector<E> ufApps;           // UF applications met since the last query began
static std::unordered_map<E, bool> ufSeen;

static z3::expr toBV(E e)
{
    auto it = bvCache->find(e);
    if (it != bvCache->end()) return it->second;
    z3::expr r(*ctx);
    auto A = [&](int i) { return toBV(e->a[i]); };
    if (e->w == 1 && e->op != O_SYM && e->op != O_UNINIT && e->op != O_EXTRACT)
    {
        r = z3::ite(toBool(e), ctx->bv_val(1, 1), ctx->bv_val(0, 1));
        bvCache->emplace(e, r);
        return r;
    }
    switch (e->op)
    {
    case O_CONST: r = ctx->bv_val((uint64_t)e->k, e->w); break;
    case O_SYM: r = ctx->bv_const(("s" + std::to_string(e->k) + "_" + std::to_string(e->w)).c_str(), e->w); break;
    case O_UNINIT: r = ctx->bv_const(("u" + std::to_string(e->k) + "_" + std::to_string(e->w)).c_str(), e->w); break;
    case O_UF: r = ctx->bv_const(("uf" + std::to_string(e->id)).c_str(), e->w); break;
    case O_ADD: r = A(0) + A(1); break;
    case O_SUB: r = A(0) - A(1); break;
    case O_MUL: r = A(0) * A(1); break;
    case O_UDIV: r = z3::udiv(A(0), A(1)); break;
    case O_SDIV: r = A(0) / A(1); break;
    case O_UREM: r = z3::urem(A(0), A(1)); break;
    case O_SREM: r = z3::srem(A(0), A(1)); break;
    case O_SHL: r = z3::shl(A(0), A(1)); break;
    case O_LSHR: r = z3::lshr(A(0), A(1)); break;
    case O_ASHR: r = z3::ashr(A(0), A(1)); break;
    case O_AND: r = A(0) & A(1); break;
    case O_OR: r = A(0) | A(1); break;
    case O_XOR: r = A(0) ^ A(1); break;
    case O_NOT: r = ~A(0); break;
    case O_ITE: r = z3::ite(toBool(e->a[0]), A(1), A(2)); break;
    case O_CONCAT: r = z3::concat(A(0), A(1)); break;
    case O_EXTRACT: r = A(0).extract(e->k + e->w - 1, e->k); break;
    case O_ZEXT: r = e->a[0]->w == 1 ? z3::ite(toBool(e->a[0]), ctx->bv_val(1, e->w), ctx->bv_val(0, e->w)) : z3::zext(A(0), e->w - e->a[0]->w); break;
    case O_SEXT: r = z3::sext(A(0), e->w - e->a[0]->w); break;
    case O_FPTOSI: case O_FPTOUI:
    {
        // x86 semantics outside the range of the target ("integer indefinite")
        z3::expr f = toFP(e->a[0]);
        auto K = [&](double d) { return wrap(Z3_mk_fpa_numeral_double(*ctx, d, fpSort())); };
        auto lt = [&](z3::expr a, z3::expr b) { return wrap(Z3_mk_fpa_lt(*ctx, a, b)); };
        auto le = [&](z3::expr a, z3::expr b) { return wrap(Z3_mk_fpa_leq(*ctx, a, b)); };
        z3::expr rtz = wrap(Z3_mk_fpa_rtz(*ctx));
        z3::expr s64 = z3::ite(le(K(-9223372036854775808.0), f) && lt(f, K(9223372036854775808.0)),
                               wrap(Z3_mk_fpa_to_sbv(*ctx, rtz, f, 64)), ctx->bv_val((uint64_t)0x8000000000000000ull, 64));
        if (e->op == O_FPTOSI && e->w <= 32)
            r = z3::ite(lt(K(-2147483649.0), f) && lt(f, K(2147483648.0)), wrap(Z3_mk_fpa_to_sbv(*ctx, rtz, f, 32)), ctx->bv_val((uint64_t)0x80000000ull, 32));
        else if (e->op == O_FPTOSI) r = s64;
        else if (e->w <= 32) r = s64;
        else r = z3::ite(le(K(9223372036854775808.0), f),
                         z3::ite(lt(f, K(18446744073709551616.0)), wrap(Z3_mk_fpa_to_ubv(*ctx, rtz, f, 64)), ctx->bv_val(0, 64)), s64);
        if (e->w < r.get_sort().bv_size()) r = r.extract(e->w - 1, 0);
        break;
    }
    default:
        if (fpProducing(e)) { r = wrap(Z3_mk_fpa_to_ieee_bv(*ctx, toFP(e))); break; }
        fprintf(stderr, "toBV: op %d\n", e->op);
        abort();
    }
    bvCache->emplace(e, r);
    return r;
}

static void collectUF(E e, std::unordered_set<E> &seen, std::vector<E> &out)
{
    if (!e->hasuf || !seen.insert(e).second) return;
    for (int i = 0; i < e->n; i++) collectUF(e->a[i], seen, out);
    if (e->op == O_UF) out.push_back(e);
}
static void collectCasts(E e, std::unordered_set<E> &seen, std::vector<E> &out)
{
    if (!e->fp || !seen.insert(e).second) return;
    for (int i = 0; i < e->n; i++) collectCasts(e->a[i], seen, out);
    if (e->op == O_FPTOSI || e->op == O_FPTOUI) out.push_back(e);
}

SR solveBV(const std::vector<E> &cs, const std::vector<std::pair<uint32_t, unsigned>> &syms, Model &m, unsigned rlimit)
{
    init();
    auto t0 = std::chrono::steady_clock::now();
    solverStats.queries++;
    bool fp = false, uf = false;
    for (E c : cs) { fp |= c->fp; uf |= c->hasuf; }
    SR res = S_UNKNOWN;
    try
    {
        static z3::solver *sBV, *sFP;
        z3::solver *s;
        if (fp) { if (!sFP) sFP = new z3::solver(*ctx, "QF_FP"); s = sFP; }
        else { if (!sBV) sBV = new z3::solver(*ctx, "QF_BV"); s = sBV; }
        z3::params p(*ctx);
        p.set("rlimit", rlimit);
        s->reset();
        s->set(p);
        for (E c : cs) s->add(toBool(c));
        if (uf)
        {
            std::unordered_set<E> seen;
            std::vector<E> apps;
            for (E c : cs) collectUF(c, seen, apps);
            for (size_t i = 0; i < apps.size(); i++)
                for (size_t j = i + 1; j < apps.size(); j++)
                    if (apps[i]->k == apps[j]->k && apps[i]->n == apps[j]->n)
                    {
                        z3::expr eq = ctx->bool_val(true);
                        for (int q = 0; q < apps[i]->n; q++) eq = eq && toBV(apps[i]->a[q]) == toBV(apps[j]->a[q]);
                        s->add(z3::implies(eq, toBV(apps[i]) == toBV(apps[j])));
                    }
        }
        z3::check_result r = s->check();
        if (r == z3::unsat) res = S_UNSAT;
        else if (r == z3::sat)
        {
            res = S_SAT;
            z3::model zm = s->get_model();
            for (auto &sy : syms)
            {
                z3::expr v = zm.eval(toBV(mkSym(sy.first, sy.second)), true);
                uint64_t x = 0;
                if (v.is_numeral()) x = v.get_numeral_uint64();
                m.set(sy.first, x);
            }
        }
    }
    catch (z3::exception &ex) { fprintf(stderr, "z3: %s\n", ex.msg()); res = S_UNKNOWN; }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    solverStats.secs += dt;
    solverStats.maxSecs = std::max(solverStats.maxSecs, dt);
    if (res == S_SAT) solverStats.sat++; else if (res == S_UNSAT) solverStats.unsat++; else solverStats.unknown++;
    return res;
}

// ---------------------------------------------------------------- reals
// Terms become fractions of polynomials over the variables and atoms. A power with a constant rational
// exponent p/q over a base b is t^p with a fresh t > 0, t^q = b; any other power is a positive atom; any other
// function application is an atom. Applications with arguments of the same normal form share their atom,
// others get congruence constraints. sin and cos of one argument satisfy s^2 + c^2 = 1. Every denominator
// that occurs is nonzero.
namespace {
struct Frac { z3::expr n, d; };
struct RealQ
{
    z3::context &c;
    std::unordered_map<E, Frac> cache;
    std::vector<z3::expr> side;
    struct Atom { std::string fn, key; z3::expr v; std::vector<Frac> args; };
    std::vector<Atom> atoms;
    std::unordered_set<std::string> dens;
    RealQ(z3::context &x) : c(x) {}
    z3::expr one() { return c.real_val(1); }
    bool isOne(const z3::expr &e) { return e.is_numeral() && e.get_decimal_string(3) == "1"; }
    z3::expr som(const z3::expr &e) { z3::params p(c); p.set("som", true); p.set("som_blowup", 1000u); return e.simplify(p); }
    z3::expr ipow(const z3::expr &b, long n) { if (n == 0) return one(); z3::expr r = b; for (long i = 1; i < n; i++) r = r * b; return r; }
    void nonzero(const z3::expr &e) { if (e.is_numeral() && e.get_decimal_string(3) != "0") return; if (dens.insert(e.to_string()).second) side.push_back(e != c.real_val(0)); }
    z3::expr diff(const Frac &a, const Frac &b) { return a.n * b.d - b.n * a.d; }
    std::string keyOf(const Frac &f) { return som(f.n).to_string() + "/" + som(f.d).to_string(); }
    Atom &atom(const std::string &fn, const std::vector<Frac> &args, bool &fresh)
    {
        std::string key;
        for (auto &a : args) key += keyOf(a) + ";";
        for (auto &a : atoms) if (a.fn == fn && a.key == key) { fresh = false; return a; }
        fresh = true;
        atoms.push_back({fn, key, c.real_const((fn + std::to_string(atoms.size())).c_str()), args});
        return atoms.back();
    }
    z3::expr number(double d)
    {
        char buf[400];
        for (int q = 1; q <= 1000; q++)     // rounded quotients of small numbers are meant exactly
            if (fabs(d * q - nearbyint(d * q)) <= 1e-15 * fabs(d * q) && fabs(d * q) < 1e6 + 1e15 * (q == 1) && (nearbyint(d * q) != 0 || d == 0))
            {
                snprintf(buf, sizeof buf, "%.0f/%d", nearbyint(d * q), q);
                return c.real_val(buf);
            }
        for (int p = 1; p <= 17; p++) { snprintf(buf, sizeof buf, "%.*e", p, d); if (strtod(buf, nullptr) == d) break; }
        std::string s = buf; size_t pe = s.find('e'); int ex = atoi(s.c_str() + pe + 1); s = s.substr(0, pe);
        z3::expr v = c.real_val(s.c_str()), ten = c.real_val(10);
        for (int i = 0; i < abs(ex); i++) v = ex > 0 ? v * ten : v / ten;
        return v.simplify();
    }
    // the number a term always is
    bool numeral(const Frac &f, double &d)
    {
        z3::expr n = som(f.n), dd = som(f.d);
        if (!n.is_numeral() || !dd.is_numeral()) return false;
        double q = strtod(dd.get_decimal_string(17).c_str(), nullptr);
        if (q == 0) return false;
        d = strtod(n.get_decimal_string(17).c_str(), nullptr) / q;
        return true;
    }
    const Frac &frac(E e)
    {
        auto it = cache.find(e);
        if (it != cache.end()) return it->second;
        return cache.emplace(e, build(e)).first->second;
    }
    Frac build(E e)
    {
        switch (e->op)
        {
        case O_RVAR: return {c.real_const(("r" + std::to_string(e->k)).c_str()), one()};
        case O_RCONST: return {number(bits2d(e->k)), one()};
        case O_RADD:
        {
            Frac a = frac(e->a[0]), b = frac(e->a[1]);
            if (z3::eq(a.d, b.d)) return {a.n + b.n, a.d};
            if (isOne(a.d)) return {a.n * b.d + b.n, b.d};
            if (isOne(b.d)) return {a.n + b.n * a.d, a.d};
            return {a.n * b.d + b.n * a.d, a.d * b.d};
        }
        case O_RMUL:
        {
            Frac a = frac(e->a[0]), b = frac(e->a[1]);
            return {a.n * b.n, isOne(a.d) ? b.d : isOne(b.d) ? a.d : a.d * b.d};
        }
        case O_RDIV:
        {
            Frac a = frac(e->a[0]), b = frac(e->a[1]);
            nonzero(b.n);
            return {isOne(b.d) ? a.n : a.n * b.d, isOne(a.d) ? b.n : a.d * b.n};
        }
        case O_RMIN: case O_RMAX:
        {
            bool f;
            Frac a = frac(e->a[0]), b = frac(e->a[1]);
            z3::expr va = value(a), vb = value(b);
            Atom &t = atom(e->op == O_RMIN ? "min" : "max", {a, b}, f);
            if (f)
            {
                side.push_back(t.v == va || t.v == vb);
                side.push_back(e->op == O_RMIN ? t.v <= va && t.v <= vb : t.v >= va && t.v >= vb);
            }
            return {t.v, one()};
        }
        case O_RPOW:
        {
            Frac b = frac(e->a[0]);
            double d;
            if (numeral(frac(e->a[1]), d))
            {
                for (int q = 1; q <= 12; q++)
                    if (fabs(d * q - nearbyint(d * q)) < 1e-9 && fabs(d * q) <= 24)
                    {
                        long p = (long)nearbyint(d * q);
                        z3::expr n = b.n, dd = b.d;
                        if (q > 1)
                        {
                            bool f;
                            Atom &t = atom("root" + std::to_string(q) + "_", {b}, f);
                            if (f) { side.push_back(t.v > 0); side.push_back(ipow(t.v, q) * b.d == b.n); }
                            n = t.v; dd = one();
                        }
                        if (p >= 0) return {ipow(n, p), isOne(dd) ? dd : ipow(dd, p)};
                        nonzero(n);
                        return {isOne(dd) ? dd : ipow(dd, -p), ipow(n, -p)};
                    }
            }
            bool f;
            Atom &t = atom("pow", {b, frac(e->a[1])}, f);
            if (f) side.push_back(t.v > 0);
            return {t.v, one()};
        }
        case O_RUF:
        {
            bool f;
            std::vector<Frac> args;
            for (int i = 0; i < e->n; i++) args.push_back(frac(e->a[i]));
            double c0;
            if (args.size() == 1 && numeral(args[0], c0))
            {
                double v = ufEval(e->k, &c0, 1);
                if (std::isfinite(v)) return {number(v), one()};
            }
            z3::expr v = atom("f_" + ufNames[e->k], args, f).v;
            std::string nm = ufNames[e->k];
            if (nm == "sin" || nm == "cos")
            {
                bool g;
                z3::expr w = atom(nm == "sin" ? "f_cos" : "f_sin", args, g).v;
                if (f || g) side.push_back(v * v + w * w == c.real_val(1));
            }
            return {v, one()};
        }
        default: fprintf(stderr, "real term %d\n", e->op); abort();
        }
    }
    std::map<std::string, z3::expr> vals;
    z3::expr value(const Frac &f)
    {
        if (isOne(f.d)) return f.n;
        std::string k = keyOf(f);
        auto it = vals.find(k);
        if (it != vals.end()) return it->second;
        z3::expr v = c.real_const(("val" + std::to_string(vals.size())).c_str());
        side.push_back(v * f.d == f.n);
        vals.emplace(k, v);
        return v;
    }
    z3::expr pred(E e)
    {
        switch (e->op)
        {
        case O_REQ: { Frac a = frac(e->a[0]), b = frac(e->a[1]); return som(diff(a, b)) == c.real_val(0); }
        case O_RLT: case O_RLE:
        {
            Frac a = frac(e->a[0]), b = frac(e->a[1]);
            z3::expr v = diff(a, b);
            if (!isOne(a.d)) v = v * a.d;
            if (!isOne(b.d)) v = v * b.d;
            v = som(v);
            return e->op == O_RLT ? v < 0 : v <= 0;
        }
        case O_NOT: return !pred(e->a[0]);
        case O_CONST: return c.bool_val(e->k != 0);
        default: fprintf(stderr, "real predicate %d\n", e->op); abort();
        }
    }
};
}
SR solveReal(const std::vector<E> &cs, const std::vector<uint32_t> &rvars, Model &m, unsigned rlimit)
{
    init();
    auto t0 = std::chrono::steady_clock::now();
    solverStats.queries++;
    SR res = S_UNKNOWN;
    try
    {
        RealQ q(*ctx);
        z3::solver s(*ctx, "QF_NRA");
        z3::params p(*ctx);
        p.set("rlimit", rlimit);
        s.set(p);
        for (E c : cs) s.add(q.pred(c));
        size_t pairs = 0;
        for (size_t i = 0; i < q.atoms.size(); i++)
            for (size_t j = i + 1; j < q.atoms.size() && pairs < 40; j++)
                if (q.atoms[i].fn == q.atoms[j].fn)
                {
                    z3::expr same = ctx->bool_val(true);
                    for (size_t k = 0; k < q.atoms[i].args.size(); k++) same = same && q.som(q.diff(q.atoms[i].args[k], q.atoms[j].args[k])) == ctx->real_val(0);
                    s.add(z3::implies(same, q.atoms[i].v == q.atoms[j].v));
                    pairs++;
                }
        for (auto &x : q.side) s.add(x);
        z3::check_result r = s.check();
        if (r == z3::unsat) res = S_UNSAT;
        else if (r == z3::sat)
        {
            res = S_SAT;
            z3::model zm = s.get_model();
            for (uint32_t v : rvars)
            {
                z3::expr x = zm.eval(ctx->real_const(("r" + std::to_string(v)).c_str()), true);
                std::string d = x.get_decimal_string(17);
                m.set(v, d2bits(strtod(d.c_str(), nullptr)));
            }
        }
    }
    catch (z3::exception &ex) { if (getenv("SYMX_Z3MSG")) fprintf(stderr, "z3: %s\n", ex.msg()); res = S_UNKNOWN; }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    solverStats.secs += dt;
    solverStats.maxSecs = std::max(solverStats.maxSecs, dt);
    if (res == S_SAT) solverStats.sat++; else if (res == S_UNSAT) solverStats.unsat++; else solverStats.unknown++;
    return res;
}
