/* Exact real meaning of expressions, on handles of real terms. Powers follow exp(e * ln b): products and powers in
   bases are taken apart (their factors are positive), exponents are split into monomials. */
#ifndef REF_REAL_H
#define REF_REAL_H
#include "symx.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <math.h>
#include "node.h"
#include "operator.h"
#ifndef T_CH
#define T_CH 10
#endif
typedef struct T { int kind; char fn[8]; double val; int var; int n; struct T *ch[T_CH]; } T;   /* kind 0 constant, 1 variable, 2 operation */
static T rr_t[1500]; static int rr_nt;
static real rr_var[4]; static const char *const rr_name[4] = {"x", "y", "z", "w"};
static T *t_new(int kind) { if (rr_nt == 1500) symx_discard(); T *t = &rr_t[rr_nt++]; t->kind = kind; t->n = 0; t->fn[0] = 0; return t; }
/* the calculator's own digits of e and pi stand for the numbers */
static T *t_const(double d) { T *t = t_new(0); t->val = d == 2.71828182846 ? exp(1) : d == 3.14159265359 ? acos(-1) : d; return t; }
static T *t_var(int i) { T *t = t_new(1); t->var = i; return t; }
static T *t_op(const char *fn) { T *t = t_new(2); strcpy(t->fn, fn); return t; }
static T *t_op1(const char *fn, T *a) { T *t = t_op(fn); t->n = 1; t->ch[0] = a; return t; }
static T *t_op2(const char *fn, T *a, T *b) { T *t = t_op(fn); t->n = 2; t->ch[0] = a; t->ch[1] = b; return t; }
static bool is_fn(const T *t, const char *fn) { return t->kind == 2 && strcmp(t->fn, fn) == 0; }
static bool t_vars(const T *t) { if (t->kind == 1) return true; for (int i = 0; i < t->n; i++) if (t_vars(t->ch[i])) return true; return false; }
static bool t_uses(const T *t, int v) { if (t->kind == 1) return t->var == v; for (int i = 0; i < t->n; i++) if (t_uses(t->ch[i], v)) return true; return false; }
static bool t_has(const T *t, const char *fn) { if (is_fn(t, fn)) return true; for (int i = 0; i < t->n; i++) if (t_has(t->ch[i], fn)) return true; return false; }
/* text for the calculator */
static char *t_print(const T *t, char *o)
{
    if (t->kind == 0) return o + sprintf(o, t->val < 0 ? "(%g)" : "%g", t->val);
    if (t->kind == 1) return o + sprintf(o, "%s", rr_name[t->var]);
    if (t->n == 2 && strchr("+-*/^", t->fn[0])) { *o++ = '('; o = t_print(t->ch[0], o); *o++ = t->fn[0]; o = t_print(t->ch[1], o); *o++ = ')'; *o = 0; return o; }
    if (strcmp(t->fn, "neg") == 0) { *o++ = '('; *o++ = '-'; o = t_print(t->ch[0], o); *o++ = ')'; *o = 0; return o; }
    if (strcmp(t->fn, "pct") == 0) { *o++ = '('; o = t_print(t->ch[0], o); *o++ = '%'; *o++ = ')'; *o = 0; return o; }
    if (t->n == 0) return o + sprintf(o, "%s", t->fn);
    o += sprintf(o, "%s(", t->fn);
    for (int i = 0; i < t->n; i++) { if (i) *o++ = ','; o = t_print(t->ch[i], o); }
    *o++ = ')'; *o = 0;
    return o;
}
/* tree of the calculator; NULL: something that has no meaning here */
static bool rr_foreign;
static T *t_read(const Node *n)
{
    if (get_type(n) == NTYPE_CONSTANT)
    {
        /* ln(e) and the like, folded in doubles */
        double d = get_const_value(n);
        if (d != 0 && fabs(d - nearbyint(d)) <= 1e-11 * fabs(d) && fabs(d) < 1e4) d = nearbyint(d);
        return t_const(d);
    }
    if (get_type(n) == NTYPE_VARIABLE)
    {
        for (int i = 0; i < 4; i++) if (strcmp(rr_name[i], get_var_name(n)) == 0) return t_var(i);
        rr_foreign = true;
        return t_const(0);
    }
    const Operator *op = get_op(n);
    T *t = t_op(strlen(op->name) < 8 ? op->name : "?");
    if (op->placement == OP_PLACE_PREFIX) strcpy(t->fn, op->name[0] == '-' ? "neg" : op->name[0] == '+' || op->name[0] == '$' ? "id" : "?");
    if (op->placement == OP_PLACE_POSTFIX) strcpy(t->fn, op->name[0] == '%' ? "pct" : op->name[0] == '!' ? "fact" : "?");
    t->n = (int)get_num_children(n);
    if (t->n > T_CH) symx_discard();
    for (int i = 0; i < t->n; i++) t->ch[i] = t_read(get_child(n, i));
    return t;
}
/* value of a constant expression; NAN: undefined */
static double t_num(const T *t)
{
    double a[T_CH], r;
    if (t->kind == 0) return t->val;
    if (t->kind == 1) return NAN;
    for (int i = 0; i < t->n; i++) { a[i] = t_num(t->ch[i]); if (isnan(a[i])) return NAN; }
    if (!strcmp(t->fn, "+")) return a[0] + a[1];
    if (!strcmp(t->fn, "-")) return a[0] - a[1];
    if (!strcmp(t->fn, "neg")) return -a[0];
    if (!strcmp(t->fn, "id")) return a[0];
    if (!strcmp(t->fn, "*")) return a[0] * a[1];
    if (!strcmp(t->fn, "/")) return a[1] == 0 ? NAN : a[0] / a[1];
    if (!strcmp(t->fn, "^")) return (a[0] == 0 && a[1] <= 0) || (a[0] < 0 && a[1] != trunc(a[1])) ? NAN : pow(a[0], a[1]);
    if (!strcmp(t->fn, "root")) return a[0] <= 0 || a[1] == 0 ? NAN : pow(a[0], 1 / a[1]);
    if (!strcmp(t->fn, "sqrt")) return a[0] < 0 ? NAN : sqrt(a[0]);
    if (!strcmp(t->fn, "exp")) return exp(a[0]);
    if (!strcmp(t->fn, "ln")) return a[0] <= 0 ? NAN : log(a[0]);
    if (!strcmp(t->fn, "log")) return a[0] <= 0 || a[1] <= 0 || a[1] == 1 ? NAN : log(a[0]) / log(a[1]);
    if (!strcmp(t->fn, "sin")) return sin(a[0]);
    if (!strcmp(t->fn, "cos")) return cos(a[0]);
    if (!strcmp(t->fn, "tan")) return tan(a[0]);
    if (!strcmp(t->fn, "asin")) return asin(a[0]);
    if (!strcmp(t->fn, "acos")) return acos(a[0]);
    if (!strcmp(t->fn, "atan")) return atan(a[0]);
    if (!strcmp(t->fn, "abs")) return fabs(a[0]);
    if (!strcmp(t->fn, "pct")) return a[0] / 100;
    if (!strcmp(t->fn, "count")) return t->n;
    if (!strcmp(t->fn, "e")) return exp(1);
    if (!strcmp(t->fn, "pi")) return acos(-1);
    if (!strcmp(t->fn, "sum") || !strcmp(t->fn, "avg")) { r = 0; for (int i = 0; i < t->n; i++) r += a[i]; return t->fn[0] == 's' ? r : t->n ? r / t->n : NAN; }
    if (!strcmp(t->fn, "prod")) { r = 1; for (int i = 0; i < t->n; i++) r *= a[i]; return r; }
    if (!strcmp(t->fn, "min") || !strcmp(t->fn, "max")) { if (!t->n) return NAN; r = a[0]; for (int i = 1; i < t->n; i++) r = t->fn[1] == 'i' ? fmin(r, a[i]) : fmax(r, a[i]); return r; }
    return NAN;
}
/* ---- domain conditions: of the given expression they are assumed, of the answer they are proved */
static bool rr_given;
static struct { real h; int kind; } rr_known[200]; static int rr_nknown;
static bool rr_seen(real h, int kind)
{
    for (int i = 0; i < rr_nknown; i++) if (symx_rsame(rr_known[i].h, h) && (rr_known[i].kind == kind || rr_known[i].kind == 1)) return true;
    if (rr_nknown < 200) { rr_known[rr_nknown].h = h; rr_known[rr_nknown].kind = kind; rr_nknown++; }
    return false;
}
static real k(double d) { return symx_rconst(d); }
/* only where the given expression has no value either */
static void nowhere(const char *what)
{
    real zero = k(0), one = k(1);
    (void)what;
    if (symx_rcheck_eq(zero, one, "simplified: undefined everywhere") == 2) symx_reach("undecided");
    symx_discard();
}
static void need_positive(real h)
{
    if (rr_seen(h, 1)) return;
    real zero = k(0);
    if (rr_given) symx_rassume_lt(zero, h);
    else if (symx_rcheck_lt(zero, h, "simplified: undefined where the given expression is defined (not positive)") == 2) symx_reach("undecided");
}
static void need_nonzero(real h)
{
    if (rr_seen(h, 0)) return;
    real zero = k(0);
    if (rr_given) symx_rassume_ne(h, zero);
    else if (symx_rcheck_ne(h, zero, "simplified: undefined where the given expression is defined (zero)") == 2) symx_reach("undecided");
}
static void need_inside(real h)
{
    if (!rr_given) return;
    real one = k(1), minus = k(-1);
    symx_rassume_lt(h, one);
    symx_rassume_lt(minus, h);
}
typedef struct { double c; bool unit; real h; } Mono;
typedef struct { Mono m[24]; int n; } Poly;
static real val(const T *t);
static void p_add(Poly *p, double c, bool unit, real h)
{
    for (int i = 0; i < p->n; i++) if (p->m[i].unit == unit && (unit || symx_rsame(p->m[i].h, h))) { p->m[i].c += c; return; }
    if (p->n == 24) symx_discard();
    p->m[p->n].c = c; p->m[p->n].unit = unit; p->m[p->n].h = h; p->n++;
}
static void p_mul(const Poly *a, const Poly *b, Poly *o)
{
    o->n = 0;
    for (int i = 0; i < a->n; i++)
        for (int j = 0; j < b->n; j++)
        {
            const Mono *x = &a->m[i], *y = &b->m[j];
            real h = x->unit ? y->h : x->h;
            if (!x->unit && !y->unit) h = symx_rmul(x->h, y->h);
            p_add(o, x->c * y->c, x->unit && y->unit, h);
        }
}
static void expand(const T *t, Poly *o)
{
    o->n = 0;
    if (!t_vars(t))
    {
        double d = t_num(t);
        if (isnan(d) || isinf(d)) { if (rr_given) symx_discard(); nowhere("no number"); }
        p_add(o, d, true, 0);
        return;
    }
    Poly a, b;
    if (is_fn(t, "+") || is_fn(t, "-") || is_fn(t, "sum") || is_fn(t, "neg"))
    {
        for (int i = 0; i < t->n; i++)
        {
            expand(t->ch[i], &a);
            double s = is_fn(t, "neg") || (is_fn(t, "-") && i) ? -1 : 1;
            for (int j = 0; j < a.n; j++) p_add(o, s * a.m[j].c, a.m[j].unit, a.m[j].h);
        }
        return;
    }
    if (is_fn(t, "*") || is_fn(t, "prod"))
    {
        p_add(o, 1, true, 0);
        for (int i = 0; i < t->n; i++) { expand(t->ch[i], &a); p_mul(o, &a, &b); *o = b; }
        return;
    }
    if (is_fn(t, "id")) { expand(t->ch[0], o); return; }
    if (is_fn(t, "pct") || is_fn(t, "avg"))
    {
        double d = t->fn[0] == 'p' ? 100 : t->n;
        for (int i = 0; i < t->n; i++) { expand(t->ch[i], &a); for (int j = 0; j < a.n; j++) p_add(o, a.m[j].c / d, a.m[j].unit, a.m[j].h); }
        return;
    }
    if (is_fn(t, "/"))
    {
        expand(t->ch[0], &a);
        if (!t_vars(t->ch[1])) { double d = t_num(t->ch[1]); if (!(d < 0 || d > 0)) { if (rr_given) symx_discard(); nowhere("division by zero"); } for (int j = 0; j < a.n; j++) p_add(o, a.m[j].c / d, a.m[j].unit, a.m[j].h); return; }
        real d = val(t->ch[1]), one = k(1);
        need_nonzero(d);
        /* one term: its coefficient goes to the numerator */
        expand(t->ch[1], &b);
        int live = 0, last = 0;
        for (int j = 0; j < b.n; j++) if (b.m[j].c != 0) { live++; last = j; }
        if (live == 1 && !b.m[last].unit)
        {
            d = b.m[last].h;
            for (int j = 0; j < a.n; j++) a.m[j].c /= b.m[last].c;
        }
        for (int j = 0; j < a.n; j++) { real h = symx_rdiv(a.m[j].unit ? one : a.m[j].h, d); p_add(o, a.m[j].c, symx_rsame(h, one), h); }
        return;
    }
    p_add(o, 1, false, val(t));
}
static bool p_integer(const Poly *p) { for (int i = 0; i < p->n; i++) if (p->m[i].c != 0 && (!p->m[i].unit || p->m[i].c != trunc(p->m[i].c) || fabs(p->m[i].c) > 20)) return false; return true; }
static double p_const(const Poly *p) { double c = 0; for (int i = 0; i < p->n; i++) if (p->m[i].unit) c += p->m[i].c; return c; }
static real const_power(double d, const Poly *e);
static real power1(real b, const Poly *e)
{
    real r = k(1);
    for (int i = 0; i < e->n; i++)
    {
        if (e->m[i].c == 0) continue;
        real f = b;
        if (!e->m[i].unit) f = symx_rpow(b, e->m[i].h);
        if (e->m[i].c != 1) { real c = k(e->m[i].c); f = symx_rpow(f, c); }
        r = symx_rmul(r, f);
    }
    return r;
}
/* p/q of a small rational number, or of a double next to one */
static bool rational(double d, double *p, double *q)
{
    for (*q = 1; *q <= 1000; (*q)++)
    {
        *p = nearbyint(d * *q);
        if (fabs(d * *q - *p) <= 1e-15 * fabs(d * *q) && fabs(*p) < 1e6 && (*p != 0 || d == 0)) return true;
    }
    return false;
}
static real primes(double n, const Poly *e, double sign, real r)
{
    Poly a = *e;
    for (int i = 0; i < a.n; i++) a.m[i].c *= sign;
    for (double p = 2; p * p <= n; p++) while (fmod(n, p) == 0) { real q = power1(k(p), &a); r = symx_rmul(r, q); n /= p; }
    if (n > 1) { real q = power1(k(n), &a); r = symx_rmul(r, q); }
    return r;
}
static real const_power(double d, const Poly *e)
{
    real r = k(1);
    double p, q;
    if (!(d > 0)) { if (rr_given) symx_discard(); need_positive(k(d)); return r; }
    if (rational(d, &p, &q)) { r = primes(p, e, 1, r); return primes(q, e, -1, r); }
    for (int i = 2; i <= 3; i++)
        if (rational(i == 2 ? d * d : d * d * d, &p, &q) && p <= 1000)
        {
            Poly a = *e;
            for (int j = 0; j < a.n; j++) a.m[j].c /= i;
            r = primes(p, &a, 1, r);
            return primes(q, &a, -1, r);
        }
    return power1(k(d), e);
}
/* a number; roots of small rationals are recognised */
static real number(double d)
{
    double p, q;
    Poly e;
    if (rational(d, &p, &q)) return k(d);
    e.n = 0; p_add(&e, 1, true, 0);
    real r = const_power(fabs(d), &e), m = k(-1);
    return d < 0 ? symx_rmul(m, r) : r;
}
static double gcd2(double a, double b) { while (b > 0.5) { double t = fmod(a, b); a = b; b = t; } return a; }
/* base^e for a base that is positive with all its factors */
static real power(const T *base, const Poly *e)
{
    Poly a, b;
    if (!t_vars(base)) return const_power(t_num(base), e);
    if (is_fn(base, "*") || is_fn(base, "prod"))
    {
        real r = k(1);
        for (int i = 0; i < base->n; i++) { real f = power(base->ch[i], e); r = symx_rmul(r, f); }
        return r;
    }
    if (is_fn(base, "/"))
    {
        for (int i = 0; i < e->n; i++) { a.m[i] = e->m[i]; a.m[i].c = -a.m[i].c; }
        a.n = e->n;
        real p = power(base->ch[0], e), q = power(base->ch[1], &a);
        return symx_rmul(p, q);
    }
    if (is_fn(base, "id")) return power(base->ch[0], e);
    if (is_fn(base, "^")) { expand(base->ch[1], &a); p_mul(&a, e, &b); return power(base->ch[0], &b); }
    if (is_fn(base, "sqrt")) { a.n = 0; p_add(&a, 0.5, true, 0); p_mul(&a, e, &b); return power(base->ch[0], &b); }
    if (is_fn(base, "root")) { T one = {.kind = 0, .val = 1}, d = {.kind = 2, .fn = "/", .n = 2}; d.ch[0] = &one; d.ch[1] = base->ch[1]; expand(&d, &a); p_mul(&a, e, &b); return power(base->ch[0], &b); }
    if (is_fn(base, "exp")) { expand(base->ch[0], &a); p_mul(&a, e, &b); T c = {.kind = 0, .val = exp(1)}; return power(&c, &b); }
    if (is_fn(base, "tan"))
    {
        real u = val(base->ch[0]), s = symx_ruf("sin", u), c = symx_ruf("cos", u);
        need_positive(s); need_positive(c);
        for (int i = 0; i < e->n; i++) { a.m[i] = e->m[i]; a.m[i].c = -a.m[i].c; }
        a.n = e->n;
        real p = power1(s, e), q = power1(c, &a);
        return symx_rmul(p, q);
    }
    if (base->kind == 2)
    {
        /* content * primitive part */
        expand(base, &a);
        double num = 0, den = 1, p, q;
        bool ok = true;
        int live = 0, last = 0;
        for (int i = 0; i < a.n && ok; i++)
        {
            if (a.m[i].c == 0) continue;
            live++; last = i;
            ok = rational(a.m[i].c, &p, &q);
            if (!ok) break;
            num = num == 0 ? fabs(p) : gcd2(num, fabs(p));
            den = den * q / gcd2(den, q);
        }
        if (ok && live)
        {
            /* coefficients p/q: gcd of the numerators over a common denominator */
            num = 0;
            for (int i = 0; i < a.n; i++) if (a.m[i].c != 0) { double v = nearbyint(fabs(a.m[i].c) * den); num = num == 0 ? v : gcd2(num, v); }
            double content = num / den;
            if (live == 1 && a.m[last].unit) return const_power(a.m[last].c, e);
            real h = k(0);
            for (int i = 0; i < a.n; i++)
            {
                if (a.m[i].c == 0) continue;
                real f = k(nearbyint(a.m[i].c * den) / num);
                if (!a.m[i].unit) f = symx_rmul(f, a.m[i].h);
                h = symx_radd(h, f);
            }
            need_positive(h);
            real x = power1(h, e);
            if (content == 1) return x;
            real y = const_power(content, e);
            return symx_rmul(y, x);
        }
    }
    real h = val(base);
    if (base->kind != 1) need_positive(h);
    return power1(h, e);
}
/* ln of something positive with all its factors */
static real logarithm(const T *t)
{
    if (!t_vars(t))
    {
        double d = t_num(t);
        if (!(d > 0) || isinf(d)) { if (rr_given) symx_discard(); nowhere("logarithm"); }
        return number(log(d));
    }
    if (is_fn(t, "*") || is_fn(t, "prod") || is_fn(t, "/"))
    {
        real r = k(0), m = k(-1);
        for (int i = 0; i < t->n; i++)
        {
            real l = logarithm(t->ch[i]);
            if (i && t->fn[0] == '/') l = symx_rmul(m, l);
            r = symx_radd(r, l);
        }
        return r;
    }
    if (is_fn(t, "^") || is_fn(t, "sqrt") || is_fn(t, "exp"))
    {
        real e = k(0.5), b = k(1);
        if (t->fn[0] == '^') e = val(t->ch[1]);
        if (t->fn[0] == 'e') e = val(t->ch[0]); else b = logarithm(t->ch[0]);
        return symx_rmul(e, b);
    }
    if (is_fn(t, "id")) return logarithm(t->ch[0]);
    real a = val(t);
    need_positive(a);
    return symx_ruf("ln", a);
}
/* any power: integer exponents are repeated products */
static real any_power(const T *base, const Poly *e)
{
    if (!p_integer(e)) return power(base, e);
    double c = p_const(e);
    real b = val(base);
    if (c <= 0) { if (t_vars(base)) need_nonzero(b); else if (t_num(base) == 0) { if (rr_given) symx_discard(); need_nonzero(b); } }
    if (c == 0) return k(1);
    if (c == 1) return b;
    real x = k(c);
    return symx_rpow(b, x);
}
static real val(const T *t)
{
    if (t->kind == 1) return rr_var[t->var];
    if (!t_vars(t))
    {
        double d = t_num(t);
        if (isnan(d) || isinf(d))
        {
            if (rr_given) symx_discard();
            nowhere("simplified: undefined everywhere");
        }
        return number(d);
    }
    const char *f = t->fn;
    Poly p;
    if (!strcmp(f, "+") || !strcmp(f, "sum") || !strcmp(f, "avg"))
    {
        real r = k(0);
        for (int i = 0; i < t->n; i++) { real v = val(t->ch[i]); r = symx_radd(r, v); }
        if (f[0] == 'a') { real n = k(t->n); r = symx_rdiv(r, n); }
        return r;
    }
    if (!strcmp(f, "id")) return val(t->ch[0]);
    if (!strcmp(f, "neg") || !strcmp(f, "-"))
    {
        real a = val(t->ch[t->n - 1]), m = k(-1);
        a = symx_rmul(m, a);
        if (t->n == 1) return a;
        real b = val(t->ch[0]);
        return symx_radd(b, a);
    }
    if (!strcmp(f, "*") || !strcmp(f, "prod"))
    {
        real r = k(1);
        for (int i = 0; i < t->n; i++) { real v = val(t->ch[i]); r = symx_rmul(r, v); }
        return r;
    }
    if (!strcmp(f, "pct")) { real a = val(t->ch[0]), h = k(100); return symx_rdiv(a, h); }
    if (!strcmp(f, "/"))
    {
        real a = val(t->ch[0]), b = val(t->ch[1]);
        need_nonzero(b);
        return symx_rdiv(a, b);
    }
    if (!strcmp(f, "^")) { expand(t->ch[1], &p); return any_power(t->ch[0], &p); }
    if (!strcmp(f, "sqrt")) { p.n = 0; p_add(&p, 0.5, true, 0); return power(t->ch[0], &p); }
    if (!strcmp(f, "root"))
    {
        T one = {.kind = 0, .val = 1}, d = {.kind = 2, .fn = "/", .n = 2}; d.ch[0] = &one; d.ch[1] = t->ch[1];
        if (!t_vars(t->ch[1]) && t_num(t->ch[1]) == 0) { if (rr_given) symx_discard(); nowhere("simplified: undefined everywhere"); }
        expand(&d, &p);
        return power(t->ch[0], &p);
    }
    if (!strcmp(f, "exp")) { T c = {.kind = 0, .val = exp(1)}; expand(t->ch[0], &p); return power(&c, &p); }
    if (!strcmp(f, "count")) return k(t->n);
    if (!strcmp(f, "ln") || !strcmp(f, "log"))
    {
        real l = logarithm(t->ch[0]);
        if (f[1] == 'n') return l;
        if (!t_vars(t->ch[1]))
        {
            double b = t_num(t->ch[1]);
            if (!(b > 0) || b == 1) { if (rr_given) symx_discard(); nowhere("simplified: undefined everywhere"); }
            real q = number(log(b));
            return symx_rdiv(l, q);
        }
        real q = logarithm(t->ch[1]);
        need_nonzero(q);
        return symx_rdiv(l, q);
    }
    if (!strcmp(f, "min") || !strcmp(f, "max"))
    {
        real r = val(t->ch[0]);
        for (int i = 1; i < t->n; i++) { real v = val(t->ch[i]); r = f[1] == 'i' ? symx_rmin(r, v) : symx_rmax(r, v); }
        return r;
    }
    if (t->n == 1)
    {
        real a = val(t->ch[0]);
        if (!strcmp(f, "tan"))
        {
            real s = symx_ruf("sin", a), c = symx_ruf("cos", a);
            need_nonzero(c);
            return symx_rdiv(s, c);
        }
        if (!strcmp(f, "abs")) { real m = k(-1); m = symx_rmul(m, a); return symx_rmax(a, m); }
        if (!strcmp(f, "asin") || !strcmp(f, "acos")) need_inside(a);
        if (!strcmp(f, "sin") || !strcmp(f, "cos") || !strcmp(f, "asin") || !strcmp(f, "acos") || !strcmp(f, "atan") || !strcmp(f, "sinh") || !strcmp(f, "floor") || !strcmp(f, "ceil")) return symx_ruf(f, a);
    }
    if (rr_given) symx_discard();
    nowhere("simplified: contains something that was not there");
    return 0;
}
/* ---- reading templates in prefix notation: + - * / ^ take two, ~ negates, NAME.k is a function of k arguments,
   numbers, variables; uppercase letters are expressions and # constants chosen by the callbacks */
typedef T *(*Filler)(char c);
static T *t_template(const char **s, Filler fill)
{
    while (**s == ' ') (*s)++;
    char w[12]; int n = 0;
    while (**s && **s != ' ' && n < 11) w[n++] = *(*s)++;
    w[n] = 0;
    if (n == 1 && strchr("+-*/^", w[0])) { T *a = t_template(s, fill), *b = t_template(s, fill); return t_op2(w, a, b); }
    if (w[0] == '~') { T *a = t_template(s, fill); return t_op1("neg", a); }
    if (w[0] == '%') { T *a = t_template(s, fill); return t_op1("pct", a); }
    if (w[0] >= '0' && w[0] <= '9') return t_const(strtod(w, NULL));
    for (int i = 0; i < 4; i++) if (n == 1 && w[0] == rr_name[i][0]) return t_var(i);
    char *dot = strchr(w, '.');
    if (dot)
    {
        *dot = 0;
        T *t = t_op(w);
        t->n = dot[1] - '0';
        for (int i = 0; i < t->n; i++) t->ch[i] = t_template(s, fill);
        return t;
    }
    return fill(w[0]);
}
#endif
