/* C04: every operator computes its mathematical function, errors exactly outside of its domain. */
#include "symx.h"
#include <string.h>
#include <math.h>
#include "arith_context.h"
#include "arith_evaluation.h"
#include "history.h"
static const Operator *get(const char *n, OpPlacement p) { const Operator *o = ctx_lookup_op(g_ctx, n, p); CHECK(o != NULL, "operators: missing operator"); return o; }
static uint64_t bits(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static bool near(double x, double y) { return x == y || fabs(x - y) <= 1e-12 * fabs(y); }
static bool same(double x, double y) { if (bits(x) == bits(y)) return true; return x == y || (x != x && y != y); }
static int eval(const char *n, OpPlacement p, int argc, const double *a, double *out)
{
    *out = 12345;
    return arith_op_evaluate(get(n, p), argc, a, out);
}
static void want(const char *n, OpPlacement p, int argc, const double *a, double expected)
{
    double out;
    CHECK(eval(n, p, argc, a, &out) == LISTENERERR_SUCCESS, "operators: error within the domain");
    CHECK(same(out, expected), "operators: wrong value");
    symx_reach("value");
}
static void fails(const char *n, OpPlacement p, int argc, const double *a, int code)
{
    double out;
    CHECK(eval(n, p, argc, a, &out) == code, "operators: no (or a wrong) error outside of the domain");
    symx_reach("error");
}
static const char *fn1[] = {"exp","ln","ld","lg","sin","cos","tan","asin","acos","atan","sinh","cosh","tanh","asinh","acosh","atanh","abs","ceil","floor","round","trunc","gamma"};
static double spec1(int i, double x)
{
    switch (i)
    {
        case 0: return exp(x); case 1: return log(x); case 2: return log2(x); case 3: return log10(x); case 4: return sin(x); case 5: return cos(x); case 6: return tan(x);
        case 7: return asin(x); case 8: return acos(x); case 9: return atan(x); case 10: return sinh(x); case 11: return cosh(x); case 12: return tanh(x); case 13: return asinh(x);
        case 14: return acosh(x); case 15: return atanh(x); case 16: return fabs(x); case 17: return ceil(x); case 18: return floor(x); case 19: return round(x); case 20: return trunc(x);
        default: return tgamma(x);
    }
}
static double whole(const char *n, int lo, int hi) { return lo + (int)symx_concretize(symx_range(n, 0, hi - lo)); }
/* truncated towards zero */
static double cut(double x) { return x < 0 ? -floor(-x) : floor(x); }
void symx_main(void)
{
    symx_budget(4000000);
    init_arith_ctx();
    init_history();
    double a[5], x, y;
#if MODE == 0
    /* any doubles at all */
    x = a[0] = symx_double("x"); y = a[1] = symx_double("y");
    unsigned op = symx_choose("op", 17);
    switch (op)
    {
        case 0: { unsigned i = symx_choose("fn", sizeof fn1 / sizeof *fn1); want(fn1[i], OP_PLACE_FUNCTION, 1, a, spec1(i, x)); break; }
        case 1: want("+", OP_PLACE_INFIX, 2, a, x + y); break;
        case 2: want("-", OP_PLACE_INFIX, 2, a, x - y); break;
        case 3: want("*", OP_PLACE_INFIX, 2, a, x * y); break;
        case 4: if (y == 0) fails("/", OP_PLACE_INFIX, 2, a, LISTENERERR_DIVISION_BY_ZERO); else want("/", OP_PLACE_INFIX, 2, a, x / y); break;
        case 5:
            if (x == 0 && y <= 0) fails("^", OP_PLACE_INFIX, 2, a, LISTENERERR_DIVISION_BY_ZERO);
            else if (x < 0 && y != trunc(y)) fails("^", OP_PLACE_INFIX, 2, a, LISTENERERR_COMPLEX_SOLUTION);
            else want("^", OP_PLACE_INFIX, 2, a, pow(x, y));
            break;
        case 6: want("mod", OP_PLACE_INFIX, 2, a, fmod(x, y)); break;
        case 7: want("+", OP_PLACE_PREFIX, 1, a, x); want("$", OP_PLACE_PREFIX, 1, a, x); break;
        case 8: want("-", OP_PLACE_PREFIX, 1, a, -x); break;
        case 9: want("%", OP_PLACE_POSTFIX, 1, a, x / 100); break;
        case 10: if (x >= 0) want("root", OP_PLACE_FUNCTION, 2, a, pow(x, 1 / y)); else fails("root", OP_PLACE_FUNCTION, 2, a, LISTENERERR_COMPLEX_SOLUTION); break;
        case 11: if (x >= 0) want("sqrt", OP_PLACE_FUNCTION, 1, a, sqrt(x)); else fails("sqrt", OP_PLACE_FUNCTION, 1, a, LISTENERERR_COMPLEX_SOLUTION); break;
        case 12: want("log", OP_PLACE_FUNCTION, 2, a, log(x) / log(y)); break;
        case 13: want("frac", OP_PLACE_FUNCTION, 1, a, x - floor(x)); break;
        case 14: want("sgn", OP_PLACE_FUNCTION, 1, a, x > 0 ? 1 : x < 0 ? -1 : 0); break;
        case 15: fails("deriv", OP_PLACE_FUNCTION, 2, a, LISTENERERR_IMPOSSIBLE_DERIV); fails("'", OP_PLACE_POSTFIX, 1, a, LISTENERERR_IMPOSSIBLE_DERIV); break;
        case 16:
        {
            double c;
            CHECK(eval("pi", OP_PLACE_FUNCTION, 0, a, &c) == 0 && fabs(c - 3.14159265358979) < 1e-9, "operators: pi is wrong");
            CHECK(eval("e", OP_PLACE_FUNCTION, 0, a, &c) == 0 && fabs(c - 2.71828182845905) < 1e-9, "operators: e is wrong");
            CHECK(eval("phi", OP_PLACE_FUNCTION, 0, a, &c) == 0 && fabs(c - 1.61803398874989) < 1e-9, "operators: phi is wrong");
            want("clight", OP_PLACE_FUNCTION, 0, a, 299792458);
            want("csound", OP_PLACE_FUNCTION, 0, a, 343.2);
            Operator none = *get("ans", OP_PLACE_FUNCTION);
            none.id = 58 + symx_range("id", 0, 200);
            CHECK(arith_op_evaluate(&none, 1, a, &c) == LISTENERERR_UNKNOWN_OP, "operators: unknown operator evaluated");
            break;
        }
    }
#elif MODE == 1
    /* functions of any number of arguments */
    unsigned n = symx_choose("n", ARGS + 1);
    bool nan = false;
    for (unsigned i = 0; i < n; i++) { a[i] = symx_double("a"); }
    switch (symx_choose("op", 4))
    {
        case 0: { double s = 0; for (unsigned i = 0; i < n; i++) s += a[i]; want("sum", OP_PLACE_FUNCTION, n, a, s); break; }
        case 1: { double s = 1; for (unsigned i = 0; i < n; i++) s *= a[i]; want("prod", OP_PLACE_FUNCTION, n, a, s); break; }
        case 2: { double s = 0; for (unsigned i = 0; i < n; i++) s += a[i]; want("avg", OP_PLACE_FUNCTION, n, a, n == 0 ? 0 : s / n); break; }
        case 3:
        {
            double hi, lo;
            int one = 0, two = 0;
            for (unsigned i = 0; i < n; i++) symx_assume(a[i] == a[i]);
            CHECK(eval("max", OP_PLACE_FUNCTION, n, a, &hi) == 0 && eval("min", OP_PLACE_FUNCTION, n, a, &lo) == 0, "operators: max or min fail");
            if (n == 0) { CHECK(same(hi, -INFINITY) && same(lo, INFINITY), "operators: max or min of nothing"); break; }
            for (unsigned i = 0; i < n; i++)
            {
                CHECK(hi >= a[i], "operators: max is not the greatest");
                CHECK(lo <= a[i], "operators: min is not the least");
                one |= hi == a[i]; two |= lo == a[i];
            }
            CHECK(one && two, "operators: max or min is none of the values");
            symx_reach("value");
            break;
        }
    }
#elif MODE == 2
    /* functions of whole numbers; fractions are cut off */
    static const double frac[] = {0, 0.5, 0.75};
    double p = whole("p", LO, HI), q = whole("q", LO, HI);
    double f = frac[symx_choose("frac", 3)];
    a[0] = p < 0 ? p - f : p + f;
    a[1] = q < 0 ? q - f : q + f;
    switch (symx_choose("op", 7))
    {
        case 0:
        {
            if (q != LO) break;          /* one argument */
            double r = 1;
            for (int i = 2; i <= p; i++) r *= i;
            double v;
            CHECK(eval("!", OP_PLACE_POSTFIX, 1, a, &v) == 0 && near(v, r), "operators: factorial is wrong");
            symx_reach("value");
            break;
        }
        case 1:
        {
            double n = fabs(p), k = fabs(q);
            static double pas[64];
            memset(pas, 0, sizeof pas);
            pas[0] = 1;
            for (int i = 1; i <= n; i++) for (int j = i; j > 0; j--) pas[j] += pas[j - 1];
            double v;
            CHECK(eval("C", OP_PLACE_INFIX, 2, a, &v) == 0 && near(v, pas[(int)k]), "operators: binomial coefficient is wrong");
            break;
        }
        case 2:
        case 3:
        {
            int u = fabs(p), v = fabs(q), g = 0;
            for (int d = 1; d <= u || d <= v; d++) if (u % d == 0 && v % d == 0) g = d;
            want("gcd", OP_PLACE_FUNCTION, 2, a, g);
            if (u || v) want("lcm", OP_PLACE_FUNCTION, 2, a, (double)u * v / g);
            break;
        }
        case 4:
        {
            if (q != LO) break;
            double u = 0, v = 1;
            int n = fabs(p);
            for (int i = 0; i < n; i++) { double w = u + v; u = v; v = w; }
            want("fib", OP_PLACE_FUNCTION, 1, a, p < 0 && n % 2 == 0 ? -u : u);
            break;
        }
        case 5:
        {
            double r;
            if (fabs(p) > RND || fabs(q) > RND) break;
            CHECK(eval("rand", OP_PLACE_FUNCTION, 2, a, &r) == 0, "operators: rand fails");
            if (q <= p) CHECK(r == -1, "operators: rand of an empty range");
            else { CHECK(r >= p && r < q, "operators: rand outside of its range"); CHECK(r == floor(r), "operators: rand yields a fraction"); symx_reach("value"); }
            break;
        }
        case 6:
        {
            a[2] = p * q; a[3] = 3;
            int n = 1 + symx_choose("n", 4);
            double u = 0, r = 0, v;
            for (int i = 0; i < n; i++) u += a[i];
            u /= n;
            for (int i = 0; i < n; i++) r += (a[i] - u) * (a[i] - u);
            r /= n;
            CHECK(eval("var", OP_PLACE_FUNCTION, n, a, &v) == 0 && fabs(v - r) <= 1e-9 * (1 + r), "operators: var is wrong");
            break;
        }
    }
#elif MODE == 3
    /* huge numbers and non-numbers end */
    static const double big[] = {INFINITY, -INFINITY, NAN, 1e308, -1e308, 1e17, -1e17, 4611686018427387904.0, 1e-300};
    a[0] = big[symx_choose("x", 9)]; a[1] = big[symx_choose("y", 9)];
    double r;
    static const char *fs[] = {"gcd", "lcm", "fib"};
    for (int i = 0; i < 3; i++) CHECK(eval(fs[i], OP_PLACE_FUNCTION, i < 2 ? 2 : 1, a, &r) == 0, "operators: error");
    CHECK(eval("!", OP_PLACE_POSTFIX, 1, a, &r) == 0 && eval("C", OP_PLACE_INFIX, 2, a, &r) == 0, "operators: error");
    symx_reach("value");
#endif
    unload_history();
    unload_arith_ctx();
}
