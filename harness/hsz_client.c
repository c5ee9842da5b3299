/* Sizes, continued: texts, commands, files (see hsz_sizes.c). */
#include "symx.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include "arith_context.h"
#include "arith_evaluation.h"
#include "commands.h"
#include "console_util.h"
#include "context.h"
#include "history.h"
#include "matching.h"
#include "node.h"
#include "parser.h"
#include "rewrite_rule.h"
#include "simplification.h"
#include "table.h"
#include "tree_to_string.h"
#include "tree_util.h"
static const int sizes[] = {0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1025, 2050, 4100};
static int pick(int max)
{
    int n = 0;
    while (n < (int)(sizeof sizes / sizeof *sizes) && sizes[n] <= max) n++;
    int s = sizes[symx_choose("size", n)];
    if (s >= 100) symx_reach("large");
    return s;
}
static int place(int n) { int at[] = {0, 1, n / 2, n - 2, n - 1}; int p = at[symx_choose("place", 5)]; return p < 0 || p >= n ? n - 1 : p; }
#define TEXT 40000
static char text[TEXT]; static int len;
static void put(const char *s) { while (*s) { if (len == TEXT - 1) symx_discard(); text[len++] = *s++; } text[len] = 0; }
static void many(int n, const char *s) { for (int i = 0; i < n; i++) put(s); }
#define OP(name, place) ctx_lookup_op(g_ctx, name, OP_PLACE_##place)
static Node *op1(const Operator *o, Node *a) { Node *n = malloc_operator_node(o, 1, 0); set_child(n, 0, a); return n; }
static Node *op2(const Operator *o, Node *a, Node *b) { Node *n = malloc_operator_node(o, 2, 0); set_child(n, 0, a); set_child(n, 1, b); return n; }
static Node *var(const char *s) { return malloc_variable_node(s, 0, 0); }
/* an expression of n parts: its text and its tree; closing: what is missing at the end when left away */
#define SHAPES 14
static Node *build(unsigned shape, int n, int *closing)
{
    Node *t;
    char num[24];
    len = 0; text[0] = 0; *closing = 0;
    switch (shape)
    {
    case 0: t = var("x"); put("x"); for (int i = 0; i < n; i++) { put(i % 2 ? "-y" : "+y"); t = op2(OP(i % 2 ? "-" : "+", INFIX), t, var("y")); } return t;
    case 1: many(n, "x^"); put("y"); t = var("y"); for (int i = 0; i < n; i++) t = op2(OP("^", INFIX), var("x"), t); return t;
    case 2: many(n, "-"); put("x"); t = var("x"); for (int i = 0; i < n; i++) t = op1(OP("-", PREFIX), t); return t;
    case 3: many(n, "("); put("x"); many(n, ")"); *closing = n; return var("x");
    case 4: put("sum("); for (int i = 0; i < n; i++) { if (i) put(","); sprintf(num, "%d", i % 50); put(i % 7 ? num : "x"); } put(")"); *closing = 1;
        t = malloc_operator_node(OP("sum", FUNCTION), n, 0); for (int i = 0; i < n; i++) set_child(t, i, i % 7 ? malloc_constant_node(i % 50, 0) : var("x")); return t;
    case 5: many(n, "sin("); put("x"); many(n, ")"); *closing = n; t = var("x"); for (int i = 0; i < n; i++) t = op1(OP("sin", FUNCTION), t); return t;
    case 6: put("x"); t = var("x"); for (int i = 0; i < n; i++) { put(" y"); t = op2(OP("*", INFIX), t, var("y")); } return t;
    case 7: put("x"); many(n, "!"); t = var("x"); for (int i = 0; i < n; i++) t = op1(OP("!", POSTFIX), t); return t;
    case 8: many(n, "(x+"); put("1"); many(n, ")"); *closing = n; t = malloc_constant_node(1, 0); for (int i = 0; i < n; i++) t = op2(OP("+", INFIX), var("x"), t); return t;
    case 9: many(n, "a"); put("z"); return var(text);
    case 10: many(n, "1"); put("2"); return malloc_constant_node(strtod(text, NULL), 0);
    case 11: put("x"); many(n, " "); put("-"); many(n, " "); put("y"); return op2(OP("-", INFIX), var("x"), var("y"));
    case 12: put("x"); t = NULL; for (int i = 0; i < n; i++) { put("+x*y^2"); }
        t = var("x"); for (int i = 0; i < n; i++) t = op2(OP("+", INFIX), t, op2(OP("*", INFIX), var("x"), op2(OP("^", INFIX), var("y"), malloc_constant_node(2, 0)))); return t;
    default: many(n, "max(1,"); put("x"); many(n, ")"); *closing = n; t = var("x"); for (int i = 0; i < n; i++) t = op2(OP("max", FUNCTION), malloc_constant_node(1, 0), t); return t;
    }
}
#if PROP == 1
void symx_main(void)
{
    symx_budget(100000000);
    init_arith_ctx();
    int n = pick(SIZE), closing;
    unsigned shape = symx_choose("shape", SHAPES);
    uint64_t live = symx_live_heap();
    Node *want = build(shape, n, &closing);
    unsigned bad = symx_choose("malformed", 4);
    if (bad == 1) { if (!closing) symx_discard(); text[--len] = 0; }
    if (bad == 2) put("+");
    if (bad == 3) put(")");
    Node *t = parse_easy(g_ctx, text);
    if (bad) { CHECK(t == NULL, "parser: accepts a long text that is no expression"); symx_reach("rejected"); }
    else { CHECK(t != NULL, "parser: rejects a long expression"); CHECK(tree_equals(t, want), "parser: wrong tree of a long expression"); symx_reach("accepted"); free_tree(t); }
    free_tree(want);
    CHECK(symx_live_heap() == live, "parser: memory is not released");
}
#elif PROP == 3
void symx_main(void)
{
    symx_budget(200000000);
    init_arith_ctx();
    int n = pick(SIZE), closing;
    Node *t = build(symx_choose("shape", SHAPES), n, &closing);
    if (get_type(t) == NTYPE_CONSTANT) symx_discard();
    char *s = tree_to_str(t, false);
    Node *u = parse_easy(g_ctx, s);
    CHECK(u != NULL, "printing: the printed text of a large tree is no expression");
    CHECK(tree_equals(t, u), "printing: the printed text of a large tree means another tree");
    if (strlen(s) > 200) symx_reach("long text");
    free(s); free_tree(t); free_tree(u);
}
#elif PROP == 13
static char *cell[TEXT / 8];
void symx_main(void)
{
    symx_budget(200000000);
    uint64_t live = symx_live_heap();
    int rows = 1, wide = 3, n = pick(SIZE), at = 0;
    unsigned what = symx_choose("what", 3);      /* many rows, a wide cell, a high cell */
    if (what == 0) rows = n; else wide = n;
    if (what) rows = 4, at = symx_choose("row", 4);
    if (rows == 0 || (what == 2 && n == 0)) symx_discard();
    Table *t = get_empty_table();
    int cols = 1 + symx_choose("columns", 3), lines = 0;
    bool right = symx_choose("right", 2);
    TableHAlign al[3] = {right ? H_ALIGN_RIGHT : H_ALIGN_LEFT, H_ALIGN_LEFT, H_ALIGN_LEFT};
    TableVAlign va[3] = {V_ALIGN_TOP, V_ALIGN_TOP, V_ALIGN_TOP};
    set_default_alignments(t, 3, al, va);
    for (int r = 0; r < rows; r++)
    {
        char buf[TEXT / 4];
        int k = 0;
        if (what && r == at) for (int i = 0; i < wide; i++) { buf[k++] = (char)('a' + i % 26); if (what == 2 && i + 1 < wide) buf[k++] = '\n'; }
        else k = sprintf(buf, "%c%d", 'a' + r % 26, r);
        buf[k] = 0;
        for (int c = 0; c < cols; c++) if (c == 0) add_cell_fmt(t, "%s", buf); else add_cell(t, c == 1 ? "|" : "end");
        if (r + 1 < rows) next_row(t);
    }
    symx_output_reset();
    print_table(t);
    /* every line: the text and blanks up to a common width, then the other columns */
    const char *p = symx_stdout();
    int width = -1;
    for (int r = 0; r < rows; r++)
    {
        int high = what == 2 && r == at ? wide : 1;
        for (int l = 0; l < high; l++)
        {
            char want[TEXT / 4];
            if (what == 2 && r == at) sprintf(want, "%c", 'a' + l % 26);
            else if (what == 1 && r == at) { for (int i = 0; i < wide; i++) want[i] = (char)('a' + i % 26); want[wide] = 0; }
            else sprintf(want, "%c%d", 'a' + r % 26, r);
            int n = strlen(want), w = 0, tail = (cols > 1) + (cols > 2 ? 3 : 0);
            while (p[w] && p[w] != '\n') w++;
            CHECK(p[w] == '\n', "table: a line is missing");
            if (width < 0) width = w;
            CHECK(w == width && w - tail >= n, "table: lines of a large table differ in length");
            int from = right ? w - tail - n : 0;
            for (int i = 0; i < w - tail; i++) if (p[i] != (i >= from && i < from + n ? want[i - from] : ' ')) symx_fail("table: text in a large table is wrong");
            if (cols > 1) CHECK(p[w - tail] == (l ? ' ' : '|'), "table: second column of a large table is wrong");
            if (cols > 2) CHECK(memcmp(p + w - 3, l ? "   " : "end", 3) == 0, "table: third column of a large table is wrong");
            p += w + 1;
            lines++;
        }
    }
    CHECK(*p == 0, "table: too many lines");
    free_table(t);
    CHECK(symx_live_heap() == live, "table: memory not released");
}
#elif PROP == 15 || PROP == 16
static const Operator *sum, *prod;
#if PROP == 15
static Pattern p;
/* what a variable of the pattern is bound to */
static int id_of(const Node *t, const char *name)
{
    if (get_type(t) == NTYPE_VARIABLE) return strcmp(get_var_name(t), name) == 0 ? (int)get_id(t) : -1;
    if (get_type(t) == NTYPE_OPERATOR) for (size_t i = 0; i < get_num_children(t); i++) { int r = id_of(get_child(t, i), name); if (r >= 0) return r; }
    return -1;
}
static NodeList *bound(Matching *m, const char *name) { int i = id_of(p.pattern, name); CHECK(i >= 0, "matching: variable has no place"); return &m->mapped_nodes[i]; }
#endif
void symx_main(void)
{
    symx_budget(200000000);
    init_arith_ctx();
    uint64_t live = symx_live_heap();
    sum = OP("sum", FUNCTION); prod = OP("prod", FUNCTION);
    int n = pick(SIZE), at = n ? place(n) : 0;
    static double v[5000];
    Node *t = malloc_operator_node(sum, n, 0);
    for (int i = 0; i < n; i++) { v[i] = symx_double("const"); symx_assume(v[i] == v[i]); set_child(t, i, i == at ? var("z") : malloc_constant_node(v[i], 0)); }
#if PROP == 15
    static const char *const pat[] = {"sum([xs])", "sum(x,[xs])", "sum([xs],x)", "sum([xs],[ys])", "sum([xs],sin(1),[ys])", "sum(x,[xs],y)"};
    unsigned k = symx_choose("pattern", 6);
    CHECK(get_pattern(parse_easy(g_ctx, pat[k]), 0, NULL, &p) == 0, "matching: pattern refused");
    Matching m, *all;
    bool want = k == 0 || k == 3 || ((k == 1 || k == 2) && n >= 1) || (k == 5 && n >= 2);
    CHECK(get_matching((const Node **)&t, &p, NULL, &m) == want, "matching: wrong answer for a large tree");
    if (want)
    {
        NodeList *l = bound(&m, "[xs]");
        CHECK(l != NULL, "matching: list is not bound");
        size_t from = k == 1 || k == 5, size = k == 3 ? l->size : n - from - (k == 2 || k == 5);
        CHECK(l->size == size, "matching: list of a wrong length");
        for (size_t i = 0; i < size; i++) CHECK(l->nodes[i] == get_child(t, from + i), "matching: list of the wrong nodes");
        if (k == 3)
        {
            NodeList *q = bound(&m, "[ys]");
            CHECK(q != NULL && q->size == n - size, "matching: second list of a wrong length");
            for (size_t i = 0; i < q->size; i++) CHECK(q->nodes[i] == get_child(t, size + i), "matching: second list of the wrong nodes");
        }
        if (k == 1 || k == 5) CHECK(bound(&m, "x")->size == 1 && bound(&m, "x")->nodes[0] == get_child(t, 0), "matching: first item is bound wrongly");
        if (k == 2) CHECK(bound(&m, "x")->nodes[0] == get_child(t, n - 1), "matching: last item is bound wrongly");
        symx_reach("found");
    }
    else symx_reach("not found");
    size_t c = get_all_matchings((const Node **)&t, &p, NULL, &all);
    CHECK(c == (size_t)(k == 3 ? n + 1 : want), "matching: wrong number of matchings");
    if (k == 3)
    {
        /* every split, once */
        static bool seen[5000];
        memset(seen, 0, sizeof seen);
        for (size_t i = 0; i < c; i++)
        {
            NodeList *l = bound(&all[i], "[xs]"), *r = bound(&all[i], "[ys]");
            CHECK(l->size + r->size == (size_t)n && !seen[l->size], "matching: a split is missing");
            seen[l->size] = true;
            if (l->size) CHECK(l->nodes[0] == get_child(t, 0) && l->nodes[l->size - 1] == get_child(t, l->size - 1), "matching: a split binds the wrong nodes");
            if (r->size) CHECK(r->nodes[0] == get_child(t, l->size) && r->nodes[r->size - 1] == get_child(t, n - 1), "matching: a split binds the wrong nodes");
        }
    }
    free(all);
    free_pattern(&p);
#else
    static const char *const left[] = {"sum([xs])", "sum(x,[xs])", "x+0", "sum([xs],z,[ys])"}, *const right[] = {"prod([xs],1,[xs])", "x+sum([xs])", "x", "prod([ys],[xs])"};
    unsigned k = symx_choose("rule", 4), cap = 0;
    Pattern p;
    RewriteRule r;
    if (k == 2)
    {
        free_tree(t);
        t = var("y");
        for (int i = 0; i < n; i++) t = op2(OP("+", INFIX), t, malloc_constant_node(0, 0));
        if (n > 1) cap = symx_choose("cap", 2) ? n / 2 : n - 1;
    }
    Node *o = tree_copy(t);
    CHECK(get_pattern(parse_easy(g_ctx, left[k]), 0, NULL, &p) == 0 && get_rule(p, parse_easy(g_ctx, right[k]), &r), "rules: rule refused");
    Vector set = get_empty_ruleset();
    add_to_ruleset(&set, r);
    size_t steps = apply_ruleset(&t, &set, NULL, k == 1 ? 1 : cap ? cap : 5000);
    if (k == 2) { CHECK(steps == (cap ? cap : (unsigned)n), "rules: wrong number of steps on a large tree"); for (size_t i = 0; i < n - steps; i++) { CHECK(get_type(t) == NTYPE_OPERATOR, "rules: too much of a large tree is rewritten"); o = o; Node *in = tree_copy(get_child(t, 0)); free_tree(t); t = in; } CHECK(get_type(t) == NTYPE_VARIABLE, "rules: too little of a large tree is rewritten"); }
    else if (k == 1)
    {
        CHECK(steps == (n > 0), "rules: wrong number of steps on a large tree");
        if (n)
        {
            CHECK(get_type(t) == NTYPE_OPERATOR && get_op(t) == OP("+", INFIX) && tree_equals(get_child(t, 0), get_child(o, 0)), "rules: wrong result for a large tree");
            const Node *s = get_child(t, 1);
            CHECK(get_op(s) == sum && get_num_children(s) == (size_t)n - 1, "rules: list of a wrong length");
            for (int i = 1; i < n; i++) CHECK(tree_equals(get_child(s, i - 1), get_child(o, i)), "rules: list of the wrong trees");
        }
    }
    else if (k == 0)
    {
        CHECK(steps == 1 && get_op(t) == prod && get_num_children(t) == (size_t)(2 * n + 1), "rules: wrong result for a large tree");
        for (int i = 0; i < n; i++) CHECK(tree_equals(get_child(t, i), get_child(o, i)) && tree_equals(get_child(t, n + 1 + i), get_child(o, i)), "rules: list of the wrong trees");
    }
    else
    {
        /* z stands for anything: the first one */
        CHECK(steps == (n > 0), "rules: wrong number of steps on a large tree");
        if (n) { CHECK(get_op(t) == prod && get_num_children(t) == (size_t)n - 1, "rules: list of a wrong length"); for (int i = 1; i < n; i++) CHECK(tree_equals(get_child(t, i - 1), get_child(o, i)), "rules: list of the wrong trees"); }
    }
    free_ruleset(&set);
    free_tree(o);
#endif
    free_tree(t);
    CHECK(symx_live_heap() == live, "matching: memory not released");
}
#elif PROP == 18 || PROP == 25 || PROP == 19
static void one(unsigned k, int n)
{
    len = 0; text[0] = 0;
    switch (k)
    {
    case 0: many(n, "("); put("1"); many(n, ")"); break;
    case 1: many(n, "("); break;
    case 2: put("sum("); many(n, "1,"); put("1)"); break;
    case 3: put("sum("); many(n, "1,"); break;
    case 4: put("f("); many(n, "1,"); put("1)"); break;
    case 5: many(n, "a"); put("z"); break;
    case 6: many(n, "a"); put("z=3"); break;
    case 7: many(n, "a"); put("z(x)=x+1"); break;
    case 8: put("h(x"); for (int i = 0; i < n; i++) { char b[16]; sprintf(b, ",p%c%c%c", 'a' + i % 26, 'a' + i / 26 % 26, 'a' + i / 676); put(b); } put(")=x+1"); break;
    case 9: many(n, "9"); put("1"); break;
    case 10: put("0."); many(n, "3"); put("+1"); break;
    case 11: many(n, " "); put("1"); many(n, " "); break;
    case 12: many(n, "-"); put("1"); break;
    case 13: put("1"); many(n, "+1"); break;
    case 14: put("x"); many(n, "*(x-1)"); break;
    case 15: many(n, "?"); break;
    case 16: many(n, "1 "); put("/0"); break;
    case 17: put("clear "); many(n, "a"); put("z"); break;
    case 18: put("help "); many(n, "a"); break;
    case 19: put("load "); many(n, "a"); break;
    case 20: put("load simplification "); many(n, "a"); break;
    case 21: put("table "); many(n, "a"); put("z;1;2;1"); break;
    case 22: put("table x"); many(n, "+1"); put(";1;2;1"); break;
    case 23: put("table x;1;2;1"); many(n, ";1"); break;
    case 24: put("table x;1;2;1 fold x+y;"); many(n, "1"); break;
    case 25: put("table x;1;2;1 fold "); many(n, "x+"); put("y;1"); break;
    case 26: many(n, "="); break;
    case 27: many(n, "f=("); break;
    case 28: put("2"); many(n, "!"); break;
    case 29: put("deriv("); put("x"); many(n, "+x"); put(",x)"); break;
    case 30: many(n, "@"); put("0"); break;
    case 31: put("c="); many(n, "1+"); put("1"); break;
    case 32: put("h(x)="); many(n, "x*"); put("x"); break;
    case 33: put("h(x)="); many(n, "f("); put("x"); many(n, ")"); break;
    case 34: put("table 1/x;"); many(n, "0"); put("1;2;1"); break;
    case 35: many(n, ","); break;
    case 36: many(n, "f"); put("(2)"); break;
    case 37: put("x"); many(n, "'"); break;
    default: put("f(x,"); many(n, "("); put(")=1"); break;
    }
}
#define FORMS 39
#if PROP == 19
static bool line(const char *s) { static char l[TEXT]; strcpy(l, s); return exec_command(l); }
static char first[20000]; static size_t nfirst;
static void probes(void)
{
    static const char *const p[] = {"ans", "@1", "@2", "f(3)", "c", "h", "h(1)", "az", "x+0", "sum(1,2)-f(2)", "c=8", "f(x,y)=x", "table f(x);1;3;1 fold x+y;0", "ans", "clear f", "f(2)", "clear", "c"};
    for (size_t i = 0; i < sizeof p / sizeof *p; i++) printf("<%d>", line(p[i]));
}
void symx_main(void)
{
    symx_budget(4000000000);
    symx_opaque_numbers(1);
    static const char *const base[] = {"f(x)=x^2+1", "c=7", "3", "1/4"};
    init_commands();
    for (int i = 0; i < 4; i++) line(base[i]);
    symx_output_reset();
    probes();
    nfirst = symx_stdout_len();
    if (nfirst > sizeof first) symx_discard();
    memcpy(first, symx_stdout(), nfirst);
    unload_commands();
    init_commands();
    for (int i = 0; i < 4; i++) line(base[i]);
    unsigned k = symx_choose("form", FORMS);
    int n = pick(k == 33 ? 9 : k == 37 || k == 29 ? SIZE / 4 : SIZE);
    bool inter = symx_choose("interactive", 2);
    one(k, n);
    set_interactive(inter);
    bool ok = line(text);
    if (ok) { symx_reach("succeeded"); return; }
    CHECK(is_interactive() == inter, "failed command: interactive mode changed");
    set_interactive(false);
    symx_output_reset();
    probes();
    CHECK(symx_stdout_len() == nfirst && memcmp(first, symx_stdout(), nfirst) == 0, "failed command: a long one has an effect");
    symx_reach("failed");
    unload_commands();
}
#else
static void run(const char *s, bool loads)
{
    char *copy = malloc(strlen(s) + 1);
    strcpy(copy, s);
    symx_output_reset();
    bool ok = exec_command(copy);
    if (ok) symx_reach("succeeded"); else symx_reach("failed");
#if PROP == 18
    if (!ok) CHECK(symx_stderr_len() > 0, "command: failure without a message");
    else if (!loads) CHECK(symx_stderr_len() == 0, "command: success, but an error message");
#endif
    free(copy);
}
void symx_main(void)
{
    symx_budget(4000000000);
    symx_opaque_numbers(1);
    uint64_t live = symx_live_heap();
    init_commands();
    run("f(x)=x^2+1", false);
    run("c=7", false);
    unsigned k = symx_choose("form", FORMS);
    int n = pick(k == 33 ? 9 : k == 37 || k == 29 ? SIZE / 4 : SIZE);
    set_interactive(symx_choose("interactive", 2));
    uint64_t before = symx_live_heap();
    one(k, n);
    run(text, false);
#if PROP == 25
    bool defines = strchr(text, '=') != NULL;
    run("3", false);
    before = defines ? symx_live_heap() : before;
    one(k, n);
    run(text, false);
    CHECK(symx_live_heap() == before, "memory: a long command leaves something behind");
#else
    (void)before;
    set_interactive(false);
    run("1+1", false);
    CHECK(strcmp(symx_stdout(), "2\n") == 0, "command: session is broken after a long command");
#endif
    unload_commands();
    CHECK(symx_live_heap() == live, "memory: something is left after shutting down");
}
#endif
#elif PROP == 6
static void name_of(int i, char *s) { sprintf(s, "d%c%c%c", 'a' + i % 26, 'a' + i / 26 % 26, 'a' + i / 676); }
static bool line(const char *s) { static char l[200]; strcpy(l, s); symx_output_reset(); return exec_command(l); }
static void gives(const char *name, bool konst, bool known, int v)
{
    char c[40], want[40];
    sprintf(c, konst ? "%s" : "%s(1)-1", name);
    sprintf(want, "%d\n", v);
    if (konst && !known) sprintf(want, "%s\n", name);
    bool r = line(c);
    if (!known && !konst) { strcpy(want, ""); sprintf(c, "%s*(1)-1", name); }
    if (known) CHECK(r && strcmp(symx_stdout(), want) == 0, "session: one of many definitions means something else");
    else CHECK(!r || strchr(symx_stdout(), 'd') != NULL, "session: removed definition is still used");
}
void symx_main(void)
{
    symx_budget(40000000000);
    init_commands();
    int n = pick(SIZE);
    bool konst = symx_choose("constants", 2);
    char c[60], nm[12];
    for (int i = 0; i < n; i++) { name_of(i, nm); sprintf(c, konst ? "%s=%d" : "%s(x)=x+%d", nm, i); CHECK(line(c), "session: one of many definitions is refused"); }
    int at = n ? place(n) : 0, how = n ? symx_choose("change", 4) : 0, extra = -1;
    if (n) name_of(at, nm);
    if (how == 1) { sprintf(c, konst ? "%s=%d" : "%s(x)=x+%d", nm, 7777); CHECK(!line(c), "session: one of many is defined twice"); }
    if (how == 2) { sprintf(c, "clear %s", nm); CHECK(line(c), "session: one of many can not be removed"); }
    if (how == 3) { CHECK(line("clear"), "session: many can not be removed"); }
    if (how == 2 && symx_choose("again", 2)) { name_of(at, nm); sprintf(c, konst ? "%s=%d" : "%s(x)=x+%d", nm, 5); CHECK(line(c), "session: removed one can not be defined anew"); extra = 5; }
    for (int i = 0; i < n; i += i > 3 && i < at - 3 ? (at - i) / 2 : i > at + 3 && i < n - 4 ? (n - i) / 2 : 1)
    {
        name_of(i, nm);
        bool known = how != 3 && !(how == 2 && i == at && extra < 0);
        gives(nm, konst, known, i == at && extra >= 0 ? extra : i);
    }
    unload_commands();
}
#elif PROP == 21
int ccalc_main(int argc, char **argv);
static char *argv[TEXT / 8]; static char args[1200][8];
void symx_main(void)
{
    symx_budget(40000000000);
    uint64_t live = symx_live_heap();
    int n = pick(SIZE), at = n ? place(n) : 0;
    bool fails = n && symx_choose("fails", 2), lines = symx_choose("lines", 2);
    int argc = 1;
    argv[0] = "ccalc";
    char want[20];
    if (lines)
    {
        for (int i = 0; i < n; i++) put(fails && i == at ? "1/0\n" : i + 1 == n ? "3-1\n" : "clear\n");
        symx_stdin(text, len);
    }
    else
    {
        symx_stdin("", 0);
        strcpy(args[0], "-c");
        argv[argc++] = args[0];
        for (int i = 0; i < n; i++) { strcpy(args[i + 1], fails && i == at ? "1/0" : i + 1 == n ? "3-1" : "clear"); argv[argc++] = args[i + 1]; }
    }
    argv[argc] = NULL;
    symx_isatty(0);
    symx_output_reset();
    int code = ccalc_main(argc, argv);
    CHECK((code != 0) == fails, "main: exit status after many commands is wrong");
    /* lines go on after a failure, arguments do not */
    bool last = n && !(fails && at == n - 1) && (lines || !fails);
    CHECK(strcmp(symx_stdout(), last ? "2\n" : "") == 0, "main: wrong output of many commands");
    if (fails && !lines) { sprintf(want, "%d", at + 1); CHECK(strstr(symx_stderr(), want) != NULL, "main: does not say which command failed"); }
    if (fails) symx_reach("failure"); else symx_reach("success");
    symx_run_atexit();
    CHECK(symx_live_heap() == live, "main: memory not released");
}
#elif PROP == 22
#define SZ 60000
static char out[SZ], err[SZ]; static size_t nout, nerr;
static char l[TEXT];
static bool line(const char *s) { strcpy(l, s); return exec_command(l); }
static void after(void) { line("g(3)"); line("c"); line("ans"); line("@1"); }
void symx_main(void)
{
    symx_budget(6000000000);
    symx_opaque_numbers(1);
    int n = pick(SIZE);
    unsigned k = symx_choose("form", 9);
    len = 0; text[0] = 0;
    switch (k)
    {
    case 0: put("1"); many(n, "+1"); put("\n5"); break;
    case 1: put("#"); many(n, "c"); put("\nc=4\n"); break;
    case 2: many(n, " "); put("2\n"); break;
    case 3: put("c=3"); many(n, " "); put("\n6"); break;
    case 4: many(n, "\n"); put("c=2\n"); break;
    case 5: for (int i = 0; i < n && i < 300; i++) { char b[24]; sprintf(b, "%d-1\n", i); put(b); } break;
    case 6: put("g(x)=x"); many(n, "+x"); put("\ng(2)\n"); break;
    case 7: many(n, "a"); put("=3\n"); many(n, "a"); break;
    default: for (int i = 0; i < n && i < 300; i++) put(i % 3 ? "1/0\n" : "# x\nc=7\n"); break;
    }
    symx_file("script", text, len);
    init_commands();
    symx_output_reset();
    for (int p = 0; p < len; )
    {
        int m = 0;
        while (p < len && text[p] != '\n') l[m++] = text[p++];
        p++;
        l[m] = 0;
        if (l[0] && l[0] != '#') exec_command(l);
    }
    after();
    nout = symx_stdout_len(); nerr = symx_stderr_len();
    if (nout > SZ || nerr > SZ) symx_discard();
    memcpy(out, symx_stdout(), nout);
    memcpy(err, symx_stderr(), nerr);
    unload_commands();
    init_commands();
    symx_output_reset();
    CHECK(line("load script"), "load: reports failure for a readable file");
    CHECK(symx_open_files() == 0, "load: file left open");
    after();
    CHECK(symx_stdout_len() == nout && memcmp(out, symx_stdout(), nout) == 0, "load: different output for a long file");
    CHECK(symx_stderr_len() == nerr && memcmp(err, symx_stderr(), nerr) == 0, "load: different messages for a long file");
    unload_commands();
}
#elif PROP == 26
static char data[TEXT * 2]; static size_t nd;
static void add(const char *s) { size_t m = strlen(s); if (nd + m > sizeof data) symx_discard(); memcpy(data + nd, s, m); nd += m; }
void symx_main(void)
{
    symx_budget(6000000000);
    init_commands();
    int n = pick(SIZE), at = symx_choose("set", 7);
    unsigned k = symx_choose("form", 6), total = 7;
    for (int s = 0; s < 7; s++)
    {
        add("RULESET\n");
        if (s == 2) add("x+0 -> x\n");
        if (s != at) continue;
        switch (k)
        {
        case 0: for (int i = 0; i < n; i++) { char b[40]; sprintf(b, "x+%d0007 -> x\n", i + 1); add(b); } break;
        case 1: add("#"); for (int i = 0; i < n; i++) add("c"); add("\nx*1 -> x\n"); break;
        case 2: for (int i = 0; i < n; i++) add("\n"); add("x*1 -> x\n"); break;
        case 3: add("x"); for (int i = 0; i < n; i++) add("+5"); add(" -> x\nx*1 -> x\n"); break;
        case 4: add("x"); for (int i = 0; i < n; i++) add(" "); add("->"); for (int i = 0; i < n; i++) add(" "); add("y\nx*1 -> x\n"); total = 0; break;
        default: for (int i = 0; i < n; i++) add("# c\n"); add("x*1 -> \n"); total = 0; break;
        }
    }
    symx_file("rules", data, nd);
    char cmd[] = "load simplification rules";
    symx_output_reset();
    bool r = exec_command(cmd);
    CHECK(r == (total > 0), "rules: wrong answer for a large rule file");
    if (r) { CHECK(symx_stderr_len() == 0, "rules: message for a correct rule file"); symx_reach("loaded"); } else { CHECK(symx_stderr_len() > 0, "rules: no message for a malformed rule file"); symx_reach("refused"); }
    if (r && n && k == 0 && (at == 2 || at == 3))
    {
        char e[60], want[8] = "y\n";
        sprintf(e, "y+%d0007", place(n) + 1);
        symx_output_reset();
        CHECK(exec_command(e) && strcmp(symx_stdout(), want) == 0, "rules: one of many rules is not applied");
    }
    unload_commands();
}
#endif
