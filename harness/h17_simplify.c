/* C17: simplification never changes what an expression means. */
#include "ref_real.h"
#include "commands.h"
#include "arith_context.h"
#include "ruleset.inc"
#include "symx.h"
#ifndef NLEAF
#define NLEAF 3
#endif
static T *leaf(void)
{
    unsigned c = symx_choose("leaf", NLEAF);
    static const char *const l[] = {"x", "y", "2", "3", "0.5", "1", "0"};
    const char *s = l[c];
    if (s[0] >= 'x') return t_var(s[0] - 'x');
    return t_const(strtod(s, NULL));
}
#if MODE == 0
/* every expression with exactly k operations */
static T *gen(int k)
{
    if (k == 0) return leaf();
    unsigned o = symx_choose("op", 6);
    static const char *const fn[] = {"+", "-", "*", "/", "^", "neg"};
    if (o == 5) { T *a = gen(k - 1); return t_op1("neg", a); }
    int l = symx_choose("left", k);
    T *a = gen(l), *b = gen(k - 1 - l);
    return t_op2(fn[o], a, b);
}
static T *expression(void) { return gen(1 + symx_choose("operations", OPS)); }
#elif MODE == 1
static T *gen(int k)
{
    if (k == 0) return leaf();
    static const char *const fn[] = {"+", "*", "^", "/", "sin", "cos", "tan", "ln", "sqrt", "exp", "root", "log", "sum", "min", "avg", "pct", "abs", "id"};
    static const int ar[] = {2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 2, 2, 3, 2, 2, 1, 1, 1};
    unsigned o = symx_choose("op", NFN);
    T *t = t_op(fn[o]);
    t->n = ar[o];
    int rest = k - 1;
    for (int i = 0; i < t->n; i++) { int q = i + 1 < t->n && rest > 0 ? (int)symx_choose("share", rest + 1) : i + 1 < t->n ? 0 : rest; t->ch[i] = gen(q); rest -= q; }
    if (!strcmp(t->fn, "id")) return t->ch[0];
    return t;
}
static T *expression(void) { return gen(1 + symx_choose("operations", OPS)); }
#elif MODE == 4
/* long chains of two alternating terms */
static T *term(unsigned k)
{
    static const char *const e[] = {"x", "y", "* 2 x", "* x y", "^ x 2", "3", "/ y x", "~ x", "sin.1 x", "* ~ 2 y"};
    const char *s = e[k];
    return t_template(&s, NULL);
}
static T *expression(void)
{
    static const int lengths[] = {5, 8, 12, 17};
    int n = lengths[symx_choose("length", LENGTHS)];
    unsigned form = symx_choose("form", 7), a = symx_choose("first", TERMS), b = symx_choose("second", TERMS);
    if (form >= 5)
    {
        T *t = t_op(form == 5 ? "sum" : "prod");
        if (n > T_CH) symx_discard();
        t->n = n;
        for (int i = 0; i < n; i++) t->ch[i] = term(i % 2 ? b : a);
        return t;
    }
    static const char *const op[][2] = {{"+", "+"}, {"+", "-"}, {"*", "*"}, {"*", "/"}, {"+", "+"}};
    T *t = term(a);
    for (int i = 1; i < n; i++) t = form == 4 ? t_op2("+", term(i % 2 ? b : a), t) : t_op2(op[form][i % 2], t, term(i % 2 ? b : a));
    return t;
}
#else
static T *filler(char c)
{
    static T *A, *B; static int an, bn;
    if (c == '#')
    {
        static const double v[] = {2, 3, -1, 0.5, -2, 1, 0};
        return t_const(v[symx_choose("constant", NCONST)]);
    }
    static const char *const e[] = {"x", "y", "* x y", "+ x 1", "~ x", "^ x y", "sin.1 x", "cos.1 x", "^ x 2", "/ x y", "- x y", "* 2 x", "2"};
    /* the same letter stands for the same expression */
    if (c == 'A' || c == 'B')
    {
        T **slot = c == 'A' ? &A : &B;
        (void)an; (void)bn;
        if (*slot == NULL || *slot >= &rr_t[rr_nt] || *slot < rr_t)
        {
            const char *s = e[symx_choose("expression", NEXPR)];
            *slot = t_template(&s, filler);
        }
        return *slot;
    }
    const char *s = e[symx_choose("expression", NEXPR)];
    return t_template(&s, filler);
}
static const char *const tpl[] = {
#if MODE == 2
    "+ * # A * # A", "+ * # A A", "- A * # A", "+ * A # * A #", "* ^ A # ^ A #", "/ ^ A # ^ A #", "* A ^ A #", "* ^ A # A", "^ ^ A # #", "^ * A B #", "^ / A B #", "^ + A # 2", "^ + A B 2", "+ + ^ A 2 * * 2 A B ^ B 2", "+ + * * 2 A B ^ A 2 ^ B 2", "- - * 2 * A B ~ ^ A 2 ~ ^ B 2", "* # + # A", "* + # A + # A", "* # * # + # A", "+ # + # A", "+ + A # #", "+ - A # - A #", "- # - # A", "- A - B A", "+ A ~ A", "- ~ A ~ A", "* ~ A ~ B", "/ ~ A ~ B", "^ ~ A 2", "^ ~ A 3", "^ ~ A ~ 2", "/ A A", "/ * # A A", "/ # / A #", "/ / A # #", "/ A / B #", "* A / B A", "/ A ^ A #", "+ / A # / A #", "+ / # A / # A", "* # / # A", "* A ~ #", "* ^ # A ^ # A", "/ ^ # A ^ # A", "^ # * # A", "* ^ A B ^ A #", "* ^ A B A", "* ^ A B / 1 A", "^ ^ A B #", "^ A ~ #", "^ A / 1 #", "sqrt.1 * # A", "sqrt.1 ^ A #", "* sqrt.1 A sqrt.1 A", "root.2 A #", "root.2 ^ A # #", "root.2 A 2", "* A sqrt.1 A", "/ A sqrt.1 A", "^ sqrt.1 A 2", "+ ^ sin.1 A 2 ^ cos.1 A 2", "+ + ^ cos.1 A 2 B ^ sin.1 A 2", "/ sin.1 A cos.1 A", "* * # sin.1 A ^ cos.1 A ~ 1", "/ ^ sin.1 A # ^ cos.1 A #", "* tan.1 A cos.1 A", "- 1 ^ sin.1 A 2", "* + ^ A # B ^ A #", "* + A B A", "* + A B + A B", "* + A B - A B", "- * A B * B A", "+ * A B * B A", "+ * A # * B #", "+ + * # A * # B * # A",
#elif MODE == 3
    "sum.2 A #", "sum.3 # A #", "sum.3 A B A", "sum.4 A B ~ A B", "sum.3 A sum.2 B # A", "sum.2 prod.2 # A A", "sum.3 prod.2 A B # prod.2 A #", "sum.1 A", "sum.3 A ~ B B", "sum.2 sum.2 A B sum.2 A B", "prod.2 # A", "prod.3 A # A", "prod.3 # A #", "prod.3 A ~ B #", "prod.3 A ^ A # #", "prod.3 ^ A # B ^ A #", "prod.3 ^ A B # A", "prod.2 A sum.2 # A", "prod.2 # sum.2 # A", "prod.3 # B sum.2 # A", "prod.1 A", "prod.3 sin.1 A # ^ cos.1 A ~ 1", "prod.3 ^ sin.1 A # B ^ cos.1 A ~ #", "prod.2 + ^ A # B ^ A #", "^ prod.3 A B # #", "~ sum.3 A B #", "~ prod.3 A B #", "~ ~ prod.2 A #", "min.3 A B A", "max.3 A B A", "min.2 A A", "max.4 A B # A", "min.3 # A #", "avg.2 A #", "avg.3 A B A", "avg.1 A", "log.2 A e.0", "* log.2 A e.0 #", "log.2 A 2", "log.2 A A", "exp.1 A", "* exp.1 A exp.1 #", "/ exp.1 A exp.1 B", "^ exp.1 A #", "exp.1 * # A", "exp.1 ~ A", "exp.1 0", "tan.1 A", "/ 1 tan.1 A", "* tan.1 A tan.1 A", "^ tan.1 A #", "% A", "* % A #", "% % A", "sqrt.1 A", "sqrt.1 sqrt.1 A", "sqrt.1 / A #", "root.2 root.2 A # #", "root.2 A ~ 2", "root.2 A B", "^ A / B #", "^ # + A #", "^ e.0 ln.1 A", "ln.1 ^ A #", "ln.1 e.0", "+ ln.1 A ln.1 A", "abs.1 ~ A", "atan.1 - A A", "* 0 ln.1 A", "* 0 A", "+ 0 A", "^ 1 A", "^ A 0", "^ A 1", "^ 0 2", "/ 0 A", "sinh.1 + A A", "* floor.1 A floor.1 A",
#endif
};
static T *expression(void)
{
    unsigned i = symx_choose("template", sizeof tpl / sizeof *tpl);
    const char *s = tpl[i];
    return t_template(&s, filler);
}
#endif
void symx_main(void)
{
    symx_budget(2000000000);
    symx_file("./simplification.ruleset", ruleset_data, ruleset_len);
    init_commands();
    symx_output_reset();
    rr_var[0] = symx_rvar("x"); rr_var[1] = symx_rvar("y"); rr_var[2] = symx_rvar("z"); rr_var[3] = symx_rvar("w");
    symx_budget(40000000);
    T *t = expression();
    static char text[4000];
    t_print(t, text);
    for (int i = 0; i < 4; i++) { real zero = k(0); symx_rassume_lt(zero, rr_var[i]); rr_known[rr_nknown].h = rr_var[i]; rr_known[rr_nknown++].kind = 1; }
    rr_given = true;
    real want = val(t);
    Node *n;
    bool ok = arith_parse(text, 0, &n);
    if (!ok)
    {
        /* refused: nowhere defined */
        real zero = k(0), one = k(1);
        symx_reach("refused");
        if (symx_rcheck_eq(zero, one, "simplify: error for an expression that is defined") == 2) symx_reach("undecided");
        return;
    }
    rr_foreign = false;
    T *s = t_read(n);
    CHECK(!rr_foreign, "simplify: new variable");
    for (int i = 0; i < 4; i++) if (t_uses(s, i)) CHECK(t_uses(t, i), "simplify: new variable");
    rr_given = false;
    real got = val(s);
    int r = symx_rcheck_eq(want, got, "simplify: different value");
    if (r == 1) symx_reach("proved");
    if (r == 2)
    {
        symx_reach("undecided");
#ifdef DUMP
        static char b[800]; char *e = b + sprintf(b, "UNDECIDED %s => ", text);
        t_print(s, e);
        symx_dump(b);
#endif
    }
}
