/* C06: user definitions mean substitution of their right-hand side. */
#if MODE == 4
#define RT_MAX 1200
#define RP_MAX 700
#define RS_TOK 1200
#define RS_XS 20000
#define RS_LINE 2400
#endif
#include "ref_session.h"
#ifndef STEPS
#define STEPS 1
#endif
static char t[64];
void symx_main(void)
{
    symx_budget(40000000);
    init_commands();
    rs_init();
#if MODE == 0
    /* sessions of definitions, uses and clears */
    static const char *const tpl[] = {"N(P)=#~P", "N(x,y)=P~P", "N=#~N", "N(P)=N(P~2)~N", "N(2~#)~3", "N(#,3)", "3~N", "clear N", "clear", "N(N(#))~N(P)", "N()=N(#)"};
    rs_set_N = NAMES; rs_set_hash = "02"; rs_set_op = OPS;
    for (int s = 0; s < STEPS; s++)
    {
        rs_fill(tpl[symx_choose("step", s + 1 == STEPS ? 10 : 11)], t);
        if (rs_check(t) && s == STEPS - 1 && rs_ndef > 1) symx_reach("two definitions");
    }
#elif MODE == 1
    /* one definition of a free form, then uses */
    rs_set_any = ANY;
    static const char *const form[] = {DEF2, DEF1, "f(x,y?2)=x*y", "f(x,y,??)=x-y", "f(x,f(y)?)=x", "f(2?x,y)=y", "?f(x)?=x", "f(x?)?y=2", "f=2?=3", "f(x,y)=?sin?y"};
    rs_fill(form[symx_choose("def", 10)], t);
    if (rs_check(t)) symx_reach("defined"); else symx_reach("refused");
    rs_check(symx_choose("use", 2) ? "3-f(2,7)*2" : "3-f(z^2,2)*x");
    rs_check("f");
    rs_check("f(3)^2");
    rs_check("clear f");
    rs_check("f(2)");
#elif MODE == 3
    /* longer histories of defining, building on definitions, clearing and defining anew */
    static const char *const tpl[] = {"f(x)=x-7", "f(y,x)=x/y", "g(x)=f(x^2)-x", "c=f(3)", "c=8", "clear f", "clear", "g(y)=c-y", "f=c"};
    for (int s = 0; s < STEPS; s++)
    {
        const char *c = tpl[symx_choose("step", 9)];
        bool ok = rs_check(c);
        if (!ok) symx_reach("refused");
    }
    static const char *const probe[] = {"f(4)", "f(2,9)", "g(5)-c", "f-c", "g(z)", "clear g", "g(1)"};
    for (int i = 0; i < 7; i++) rs_check(probe[i]);
#elif MODE == 4
    /* many uses in one expression, nested or side by side */
    static char big[2400];
    static const unsigned counts[] = {1, 2, 3, 4, 5, 7, 9, 11, 16, 17, 25, 33, 50, 65, 101};
    rs_check("f(x)=x+1");
    rs_check("g(x,y)=f(x)-y");
    rs_check("c=3");
    unsigned n = counts[symx_choose("uses", USES)], shape = symx_choose("shape", 4);
    big[0] = 0;
    if (shape == 0)
    {
        for (unsigned i = 0; i < n; i++) strcat(big, "f(");
        strcat(big, "2");
        for (unsigned i = 0; i < n; i++) strcat(big, ")");
    }
    else if (shape == 1)
    {
        for (unsigned i = 0; i < n; i++) strcat(big, i ? "-f(7)" : "f(2)");
    }
    else if (shape == 2)
    {
        for (unsigned i = 0; i < n; i++) strcat(big, "g(c,");
        strcat(big, "z");
        for (unsigned i = 0; i < n; i++) strcat(big, ")");
    }
    else
    {
        for (unsigned i = 0; i < n; i++) strcat(big, i ? "+c" : "c");
    }
    rs_check(big);
    if (n > 10) symx_reach("many");
    rs_check("f(4)");
#else
    /* functions of many parameters, permuted arguments */
    unsigned n = symx_range("params", 1, 11);
    static const char *const par[] = {"a", "b", "c", "d", "x", "y", "z", "u", "v", "w", "aa"};
    strcpy(t, "h(");
    for (unsigned i = 0; i < n; i++) { if (i) strcat(t, ","); strcat(t, par[i]); }
    strcat(t, ")=");
    unsigned i = symx_choose("i", 11), j = symx_choose("j", 11);
    strcat(t, par[i]); strcat(t, symx_choose("op", 2) ? "-" : "/"); strcat(t, par[j]);
    bool ok = rs_check(t);
    CHECK(ok == (n <= 10 && i < n && j < n), "session: definition of many parameters");
    strcpy(t, "2-h(");
    for (unsigned k = 0; k < n; k++) { if (k) strcat(t, ","); if (k < 11) { static char b[4]; b[0] = par[(k * 3 + 1) % 11][0]; b[1] = '+'; b[2] = '1' + k % 9; b[3] = 0; strcat(t, b); } }
    strcat(t, ")");
    rs_check(t);
#endif
    rs_close();
    unload_commands();
}
