/* C14: the table command against its definition. */
#include "ref_session.h"
/* value of an expression at v for its variable(s); nonzero: undefined */
static int value_at(const X *x, const char *n1, double v1, const char *n2, double v2, double *out)
{
    if (x->kind == NTYPE_CONSTANT) { *out = x->val; return 0; }
    if (x->kind == NTYPE_VARIABLE)
    {
        if (strcmp(x->name, n1) == 0) { *out = v1; return 0; }
        if (n2 && strcmp(x->name, n2) == 0) { *out = v2; return 0; }
        return 1;
    }
    double a[RS_CH];
    for (size_t i = 0; i < x->n; i++) { int e = value_at(x->ch[i], n1, v1, n2, v2, &a[i]); if (e) return e; }
    return arith_op_evaluate(x->op, x->n, a, out);
}
static bool only(const X *x, const char **n1, const char *n2)
{
    if (x->kind == NTYPE_VARIABLE)
    {
        if (*n1 == NULL) *n1 = x->name;
        return strcmp(x->name, *n1) == 0 || (n2 && strcmp(x->name, n2) == 0);
    }
    for (size_t i = 0; i < x->n; i++) if (!only(x->ch[i], n1, n2)) return false;
    return true;
}
#if MODE == 3
#define ROWS 1100
#else
#define ROWS 40
#endif
static char cell[ROWS * 3 + 8][40]; static int ncell;
static int rows; static bool folded; static double fold_value; static const char *varname;
static void add(const char *fmt, double d) { snprintf(cell[ncell++], 40, fmt, d); }
static bool inter;
/* splits at the first occurrence of the text */
static char *cut(char *s, const char *at)
{
    char *p = s ? strstr(s, at) : NULL;
    if (!p) return NULL;
    *p = 0;
    return p + strlen(at);
}
static bool reference(const char *cmd)
{
    static char w[160];
    strcpy(w, cmd + 6);
    char *e = w, *from = cut(e, ";"), *to = cut(from, ";"), *step = cut(to, ";"), *f = cut(step, " fold "), *init = cut(f, ";");
    ncell = rows = 0;
    folded = false;
    if (!step || (f && !init)) return false;
    X *xe = rs_expr(e), *xf, *xt, *xs, *ff = NULL, *fi = NULL;
    if (!xe) return false;
    const char *var = NULL;
    if (!only(xe, &var, NULL)) return false;
    if (!(xf = rs_expr(from)) || !(xt = rs_expr(to)) || !(xs = rs_expr(step))) return false;
    if (xf->kind != NTYPE_CONSTANT || xt->kind != NTYPE_CONSTANT || xs->kind != NTYPE_CONSTANT) return false;
    double a = xf->val, b = xt->val, s = xs->val;
    if (s == 0) return false;
    if (a + s == a || b + s == b) return false;
    if (f)
    {
        const char *acc = "x";
        if (!(ff = rs_expr(f)) || !(fi = rs_expr(init))) return false;
        if (!only(ff, &acc, "y") || fi->kind != NTYPE_CONSTANT) return false;
        folded = true;
        fold_value = fi->val;
    }
    if (a < b) s = fabs(s); else if (a > b) s = -fabs(s);
    varname = var;
    for (int i = 0; ; i++)
    {
        double x = i ? a + i * s : a, y;
        if (s > 0 ? !(x <= b) : !(x >= b)) break;
        if (rows == ROWS) symx_discard();
        rows++;
        if (inter) add("%.0f", i + 1);
        add("%.10f", x);
        int err = value_at(xe, var ? var : "", x, NULL, 0, &y);
        if (err) strcpy(cell[ncell++], "Error"); else add("%.10f", y);
        if (!err && folded)
        {
            double next;
            if (value_at(ff, "x", fold_value, "y", y, &next)) symx_discard();
            fold_value = next;
        }
    }
    return true;
}
/* what is left of a line without colours, blanks and borders, word by word */
static const char *next_word(const char *p, char *word)
{
    int n = 0;
    for (;;)
    {
        if (p[0] == 27 && p[1] == '[') { while (*p && *p != 'm') p++; if (*p) p++; continue; }
        if (*p == ' ') { p++; if (n) break; continue; }
        if (*p == '\n' || *p == 0) break;
        if (n < 39) word[n++] = *p;
        p++;
    }
    word[n] = 0;
    return n ? p : NULL;
}
static void run(const char *text)
{
    static char work[160];
    bool ok = reference(text);
    strcpy(work, text);
    symx_output_reset();
    set_interactive(inter);
    bool res = exec_command(work);
    set_interactive(false);
    symx_observe(res);
    CHECK(!(ok && !res), "table: a correct request is rejected");
    CHECK(!(!ok && res), "table: a malformed request is accepted");
    if (!ok)
    {
        CHECK(symx_stdout_len() == 0, "table: output although the request is rejected");
        CHECK(symx_stderr_len() > 0, "table: error is not reported");
        symx_reach("rejected");
        return;
    }
    const char *p = symx_stdout();
    char word[40];
    if (inter)
    {
        /* header: the variable, then the expression */
        const char *q = p;
        if (varname) { q = next_word(q, word); CHECK(q != NULL && strcmp(word, varname) == 0, "table: header does not name the variable"); }
        CHECK(q != NULL && next_word(q, word) != NULL, "table: header does not show the expression");
        while (*p != '\n' && *p) p++;
        if (*p) p++;
    }
    int per = inter ? 3 : 2;
    for (int r = 0; r < rows; r++)
    {
        for (int c = 0; c < per; c++)
        {
            p = next_word(p, word);
            CHECK(p != NULL, "table: a row or a value is missing");
            CHECK(strcmp(word, cell[r * per + c]) == 0, c == per - 1 ? "table: value is wrong" : "table: row is wrong");
        }
        char extra[40];
        CHECK(next_word(p, extra) == NULL, "table: something else in a row");
        while (*p != '\n' && *p) p++;
        CHECK(*p == '\n', "table: row does not end");
        p++;
    }
    if (folded)
    {
        char want[60];
        snprintf(want, sizeof want, "Fold result: %-.10g\n", fold_value);
        CHECK(strcmp(p, want) == 0, "table: result of the fold is wrong");
        double d;
        CHECK(history_get(0, &d) && rs_near(d, fold_value), "table: result of the fold is not remembered");
        rs_hist[rs_nhist++] = fold_value;
        symx_reach("folded");
    }
    else CHECK(*p == 0, "table: too many rows");
    if (rows > 1) symx_reach("rows");
}
static char t[160];
void symx_main(void)
{
    symx_budget(60000000);
    init_commands();
    rs_init();
    uint64_t live;
#if MODE == 0
    static const char *const exprs[] = {"x~#", "1/(x-#)", "#", "-a~a", "sqrt(k)+k", "x*y", "@#", "#~", "1/0"};
    static const char *const ranges[] = {"# ; # ; #", "-# ; # ; 0.5", "# ; -# ; -#", "#*2;#+1;2-#", "#.5 ; 3 ; 1.5", "1/# ; 2 ; 1", "x ; 2 ; 1", "0 ; y ; 1", "0 ; 1 ; x", "# ; 1e20 ; 1", "1e20 ; # ; 1", "ans ; 2 ; 1"};
    static const char *const folds[] = {"", " fold x+y ; #", " fold 2*x-y ; #", " fold x ; 3", " fold y ; 1", " fold x+z ; 1", " fold x+y ; z", " fold x+y", " fold ; 1", " fold x+y ; "};
    rs_set_hash = HASH; rs_set_op = "-/";
    char buf[160];
    strcpy(buf, "table ");
    strcat(buf, exprs[symx_choose("expression", sizeof exprs / sizeof *exprs)]);
    strcat(buf, " ; ");
    strcat(buf, ranges[symx_choose("range", sizeof ranges / sizeof *ranges)]);
    strcat(buf, folds[symx_choose("fold", FOLDS)]);
    rs_fill(buf, t);
    inter = symx_choose("interactive", 2);
#elif MODE == 1
    /* arbitrary characters */
    rs_set_any = ANY;
    static const char *const forms[] = {"table x?0?2?1", "table x;0;2;1?fold x+?y?1", "table ???;0;1;1", "table 2;0;1???1", "table x-1?;?;?2;1", "table x ; 0 ; 1 ; 1 fold?x?y?2", "table x;?1;?;?fold y ; 2"};
    rs_fill(forms[symx_choose("form", 7)], t);
    inter = false;
#elif MODE == 3
    static const int sizes[] = {1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1025};
    int sn = 0;
    while (sn < 26 && sizes[sn] <= SIZE) sn++;
    int n = sizes[symx_choose("size", sn)];
    if (n >= 100) symx_reach("large");
    static const char *const forms[] = {"table x*2-1;1;%d;1", "table x;%d;1;1", "table 1/(x-9) ; 1 ; %d ; 1 fold x+y ; 0.5", "table x ; 1-%d ; 0 ; 1 fold y-x ; 0", "table x+7 ; 0 ; (%d-1)/4 ; 0.25"};
    snprintf(t, sizeof t, forms[symx_choose("form", 5)], n);
    inter = symx_choose("interactive", 2);
#else
    /* two tables, the second one uses what the first one left behind; functions of the user */
    rs_check("f(a,b)=a*b-1");
    rs_check("4");
    rs_set_hash = "013";
    rs_fill("table f(k,#) ; # ; 3 ; 1 fold x-y ; ans", t);
    run(t);
    rs_fill("table f(ans,z)-ans ; # ; ans+6 ; # fold f(x,y) ; @1", t);
#endif
    for (char *p = t; *p; p++) *p = (char)symx_concretize((uint8_t)*p);
    live = symx_live_heap();
    run(t);
    CHECK(MODE == 2 || symx_live_heap() == live, "table: memory not released");
    rs_close();
}
