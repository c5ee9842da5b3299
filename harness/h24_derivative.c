/* C24: derivatives are correct. */
#include "ref_real.h"
#include "commands.h"
#include "arith_context.h"
#include "ruleset.inc"
#include "symx.h"
#ifndef NLEAF
#define NLEAF 3
#endif
static T *leaf(void)
{
    unsigned c = symx_choose("leaf", NLEAF);
    static const char *const l[] = {"x", "y", "2", "3", "0.5", "1"};
    const char *s = l[c];
    if (s[0] >= 'x') return t_var(s[0] - 'x');
    return t_const(strtod(s, NULL));
}
#if MODE == 0
static T *gen(int n)
{
    if (n == 0) return leaf();
    static const char *const fn[] = {"+", "-", "*", "^", "/", "neg", "sin", "cos", "ln", "exp", "tan", "asin", "acos", "atan", "sqrt", "log", "abs", "sum", "prod"};
    static const int ar[] = {2, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 1, 3, 3};
    unsigned o = symx_choose("op", NFN);
    T *t = t_op(fn[o]);
    t->n = ar[o];
    int rest = n - 1;
    for (int i = 0; i < t->n; i++) { int q = i + 1 < t->n && rest > 0 ? (int)symx_choose("share", rest + 1) : i + 1 < t->n ? 0 : rest; t->ch[i] = gen(q); rest -= q; }
    return t;
}
static T *expression(void) { int n = symx_choose("operations", OPS + 1); return gen(n); }
#elif MODE == 2
/* long chains of two alternating terms, nested functions */
static T *term(unsigned k)
{
    static const char *const e[] = {"x", "y", "sin.1 x", "* 2 x", "^ x 2", "ln.1 x", "* x y", "3", "~ x"};
    const char *s = e[k];
    return t_template(&s, NULL);
}
static T *expression(void)
{
    static const int lengths[] = {3, 5, 8, 12};
    unsigned form = symx_choose("shape", 7);
    int n = lengths[symx_choose("length", form == 4 ? 2 : form == 2 || form == 3 || form == 6 ? LENGTHS - 1 : LENGTHS)];
    unsigned a = symx_choose("first", TERMS), b = form == 4 ? a : symx_choose("second", TERMS);
    if (form >= 5)
    {
        T *t = t_op(form == 5 ? "sum" : "prod");
        t->n = n;
        for (int i = 0; i < n; i++) t->ch[i] = term(i % 2 ? b : a);
        return t;
    }
    T *t = term(a);
    if (form == 4) { static const char *const fn[] = {"sin", "exp", "cos"}; for (int i = 1; i < n; i++) t = t_op1(fn[i % 3], t); return t; }
    static const char *const op[][2] = {{"+", "+"}, {"+", "-"}, {"*", "*"}, {"*", "/"}};
    for (int i = 1; i < n; i++) t = t_op2(op[form][i % 2], t, term(i % 2 ? b : a));
    return t;
}
#else
static T *filler(char c)
{
    if (c == '#')
    {
        static const double v[] = {2, 3, -1, 0.5, -2, 1, 0};
        return t_const(v[symx_choose("constant", NCONST)]);
    }
    static const char *const e[] = {"x", "+ x 1", "* x y", "sin.1 x", "^ x 2", "y", "* 2 x", "ln.1 x", "2"};
    const char *s = e[symx_choose("expression", NEXPR)];
    return t_template(&s, filler);
}
static const char *const tpl[] = {
    "* # A", "* # ^ A #", "+ A A", "- A A", "* A A", "^ A A", "^ A #", "^ # A", "/ A A", "/ # A", "/ A #", "~ A", "* * A A A", "+ * A A A",
    "* sin.1 A cos.1 A", "sin.1 * A A", "cos.1 + A A", "^ sin.1 A #", "^ cos.1 A #", "tan.1 A", "* tan.1 A A", "asin.1 A", "acos.1 A", "atan.1 A", "atan.1 * # A",
    "ln.1 A", "ln.1 * A A", "* A ln.1 A", "^ ln.1 A #", "exp.1 A", "* A exp.1 A", "exp.1 * # A", "exp.1 ~ A", "^ e.0 A", "sqrt.1 A", "* A sqrt.1 A", "root.2 A #", "log.2 A #",
    "sum.3 A A #", "prod.3 A # A", "% A", "avg.2 A #", "min.2 A #", "abs.1 A", "sin.1 sin.1 A", "sin.1 ^ A #", "^ + A # #", "- ^ A # * # A", "+ * # ^ A # A", "* ^ A # sin.1 A", "* ^ A # ^ e.0 A",
};
static T *expression(void)
{
    unsigned i = symx_choose("template", sizeof tpl / sizeof *tpl);
    const char *s = tpl[i];
    return t_template(&s, filler);
}
#endif
/* ---- the derivative, as an expression */
static T *num(double d) { T *t = t_new(0); t->val = d; return t; }
static T *d(const T *t, int v, bool *known)
{
    if (!t_uses(t, v)) return num(0);
    if (t->kind == 1) return num(1);
    T *a = t->ch[0], *b = t->n > 1 ? t->ch[1] : NULL;
    if (is_fn(t, "+") || is_fn(t, "-") || is_fn(t, "sum") || is_fn(t, "neg") || is_fn(t, "pct") || is_fn(t, "avg"))
    {
        T *r = t_op(t->fn);
        r->n = t->n;
        for (int i = 0; i < t->n; i++) r->ch[i] = d(t->ch[i], v, known);
        return r;
    }
    if (is_fn(t, "*") || is_fn(t, "prod"))
    {
        T *r = t_op("sum");
        r->n = t->n;
        for (int i = 0; i < t->n; i++)
        {
            T *f = t_op("prod");
            f->n = t->n;
            for (int j = 0; j < t->n; j++) f->ch[j] = j == i ? d(t->ch[j], v, known) : t->ch[j];
            r->ch[i] = f;
        }
        return r;
    }
    if (is_fn(t, "/")) { T *p = t_op2("*", d(a, v, known), b), *q = t_op2("*", a, d(b, v, known)); return t_op2("/", t_op2("-", p, q), t_op2("*", b, b)); }
    if (is_fn(t, "^"))
    {
        if (!t_uses(b, v)) { T *e = t_op2("-", b, num(1)); return t_op2("*", t_op2("*", b, t_op2("^", a, e)), d(a, v, known)); }
        T *l = t_op2("*", d(b, v, known), t_op1("ln", a)), *r = t_uses(a, v) ? t_op2("/", t_op2("*", b, d(a, v, known)), a) : num(0);
        return t_op2("*", (T *)t, t_op2("+", l, r));
    }
    T *da = d(a, v, known);
    if (is_fn(t, "sin")) return t_op2("*", t_op1("cos", a), da);
    if (is_fn(t, "cos")) return t_op2("*", t_op1("neg", t_op1("sin", a)), da);
    if (is_fn(t, "tan")) return t_op2("/", da, t_op2("*", t_op1("cos", a), t_op1("cos", a)));
    if (is_fn(t, "ln")) return t_op2("/", da, a);
    if (is_fn(t, "exp")) return t_op2("*", (T *)t, da);
    if (is_fn(t, "sqrt")) return t_op2("/", da, t_op2("*", num(2), (T *)t));
    if (is_fn(t, "root") && !t_uses(b, v)) return t_op2("*", t_op2("/", num(1), b), t_op2("*", t_op2("/", (T *)t, a), da));
    if (is_fn(t, "log") && !t_uses(b, v)) return t_op2("/", da, t_op2("*", a, t_op1("ln", b)));
    if (is_fn(t, "asin")) return t_op2("/", da, t_op1("sqrt", t_op2("-", num(1), t_op2("*", a, a))));
    if (is_fn(t, "acos")) return t_op1("neg", t_op2("/", da, t_op1("sqrt", t_op2("-", num(1), t_op2("*", a, a)))));
    if (is_fn(t, "atan")) return t_op2("/", da, t_op2("+", num(1), t_op2("*", a, a)));
    *known = false;
    return num(0);
}
/* the operators of the derivation rules */
static bool covered(const T *t)
{
    if (t->kind == 2)
    {
        static const char *const fn[] = {"+", "-", "*", "^", "neg", "sin", "cos", "tan", "asin", "acos", "atan", "ln", "/", "sqrt", "exp"};
        bool in = false;
        for (unsigned i = 0; i < sizeof fn / sizeof *fn; i++) if (is_fn(t, fn[i])) in = true;
        if (!in) return false;
    }
    for (int i = 0; i < t->n; i++) if (!covered(t->ch[i])) return false;
    return true;
}
static T *subst(const T *t)
{
    T *r = t_new(t->kind);
    *r = *t;
    if (t->kind == 1 && t->var == 0) { T *z = t_var(2); return t_op2("*", num(2), z); }
    if (t->kind == 1) r->var += 2;
    for (int i = 0; i < t->n; i++) r->ch[i] = subst(t->ch[i]);
    return r;
}
void symx_main(void)
{
    symx_budget(2000000000);
    symx_file("./simplification.ruleset", ruleset_data, ruleset_len);
    init_commands();
    symx_output_reset();
    rr_var[0] = symx_rvar("x"); rr_var[1] = symx_rvar("y"); rr_var[2] = symx_rvar("z"); rr_var[3] = symx_rvar("w");
    symx_budget(600000000);
    T *t = expression();
    static char text[4000], line[4100];
    t_print(t, text);
    unsigned form = symx_choose("form", FORMS);
    int nv = t_uses(t, 0) + t_uses(t, 1), v = form == 1 ? 1 : form == 2 ? (t_uses(t, 0) ? 0 : 1) : 0;
    bool known = true;
    T *want;
    if (form == 0 || form == 1) sprintf(line, "deriv(%s,%s)", text, rr_name[v]);
    else if (form == 2) sprintf(line, "(%s)'", text);
    else if (form == 3) sprintf(line, "deriv(deriv(%s,x),y)", text);
    else sprintf(line, "f(2*z,w)");
    Node *n;
    if (form == 4)
    {
        /* evaluated at other arguments after the definition */
        static char def[4100];
        if (nv == 1) { v = t_uses(t, 0) ? 0 : 1; sprintf(def, "f(x,y)=(%s)'", text); }
        else sprintf(def, "f(x,y)=deriv(%s,x)", text);
        if (!exec_command(def)) { symx_reach("error"); return; }
    }
    bool ok = arith_parse(line, 0, &n);
    if (form == 2 && nv > 1)
    {
        /* an expression that simplifies to one variable has a derivative */
        if (!ok) { symx_reach("error"); return; }
    }
    if (!ok)
    {
        Node *plain;
        symx_reach("error");
        if (arith_parse(text, 0, &plain))
        {
            T *p = t_read(plain);
            /* acos and asin of what is greater than 1 for all positive variables are defined nowhere */
            CHECK(!covered(t) || !covered(p) || form == 3 || (form == 4 && (strstr(text, "asin") || strstr(text, "acos"))), "derivative: none found");
        }
        return;
    }
    if (form == 2 && nv > 1)
    {
        Node *plain;
        bool fine = arith_parse(text, 0, &plain);
        CHECK(fine, "derivative: of an expression that is an error");
        T *p = t_read(plain);
        CHECK(t_uses(p, 0) + t_uses(p, 1) < 2, "derivative: of two variables without naming one");
        v = t_uses(p, 0) ? 0 : 1;
    }
    want = d(t, v, &known);
    if (form == 3) want = d(want, 1, &known);
    if (!known) { symx_reach("no reference"); return; }
    if (form == 4) { want = subst(want); t = subst(t); }
    for (int i = 0; i < 4; i++) { real zero = k(0); symx_rassume_lt(zero, rr_var[i]); rr_known[rr_nknown].h = rr_var[i]; rr_known[rr_nknown++].kind = 1; }
    rr_given = true;
    val(t);
    real w = val(want);
    rr_foreign = false;
    T *s = t_read(n);
    CHECK(!rr_foreign, "derivative: new variable");
    for (int i = 0; i < 4; i++) if (t_uses(s, i)) CHECK(t_uses(t, i), "derivative: new variable");
    rr_given = false;
    real got = val(s);
    int r = symx_rcheck_eq(w, got, "derivative: wrong");
    if (r == 1) symx_reach("proved");
    if (r == 2)
    {
        symx_reach("undecided");
#ifdef DUMP
        static char b[12000]; char *e = b + sprintf(b, "UNDECIDED %s => ", line);
        t_print(s, e);
        symx_dump(b);
#endif
    }
}
