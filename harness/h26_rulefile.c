/* C26: reading rule files. */
#include "symx.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "operator.h"
#include "node.h"
#include "tree_util.h"
#include "parser.h"
#include "commands.h"
#include "simplification.h"
#include "arith_context.h"
#include "propositional_context.h"
#include "rewrite_rule.h"
#include "rule_parsing.h"
#if MODE == 3
#include "ruleset.inc"
#define MAXSETS 7
#else
#define MAXSETS 3
#endif
static char data[20000]; static size_t len;
static bool eq(const Node *a, const Node *b)
{
    if (get_type(a) != get_type(b)) return false;
    if (get_type(a) == NTYPE_CONSTANT) return get_const_value(a) == get_const_value(b);
    if (get_type(a) == NTYPE_VARIABLE) return strcmp(get_var_name(a), get_var_name(b)) == 0;
    if (get_op(a) != get_op(b) || get_num_children(a) != get_num_children(b)) return false;
    for (size_t i = 0; i < get_num_children(a); i++) if (!eq(get_child(a, i), get_child(b, i))) return false;
    return true;
}
/* ---- reference */
typedef struct { Node *left, *right, *cond[3]; size_t n; } Rule;
static Rule want[400]; static size_t nwant, in_set[MAXSETS]; static int sets;
static size_t distinct(const Node *t, const char **names, size_t n)
{
    if (get_type(t) == NTYPE_VARIABLE)
    {
        for (size_t i = 0; i < n; i++) if (strcmp(names[i], get_var_name(t)) == 0) return n;
        if (n < 30) names[n++] = get_var_name(t);
    }
    else if (get_type(t) == NTYPE_OPERATOR) for (size_t i = 0; i < get_num_children(t); i++) n = distinct(get_child(t, i), names, n);
    return n;
}
/* one rule, as written; false: malformed */
static bool ref_rule(const char *line)
{
    static char text[200];
    strcpy(text, line);
    Rule *r = &want[nwant++];
    memset(r, 0, sizeof *r);
    char *arrow = strstr(text, "->"), *where = strstr(text, " WHERE ");
    if (arrow == NULL) return false;
    if (where != NULL && where < arrow) symx_discard();
    *arrow = 0;
    if (where) *where = 0;
    bool ok = (r->left = parse_easy(g_propositional_ctx, text)) != NULL;
    ok &= (r->right = parse_easy(g_propositional_ctx, arrow + 2)) != NULL;
    for (char *c = where ? where + 7 : NULL; c != NULL; )
    {
        char *next = strstr(c, " ; ");
        if (next) *next = 0;
        if (r->n == 3) return false;
        r->cond[r->n] = parse_easy(g_propositional_ctx, c);
        if (r->cond[r->n++] == NULL) return false;
        c = next ? next + 3 : NULL;
    }
    if (!ok) return false;
    const char *lv[30], *rv[30];
    size_t nl = distinct(r->left, lv, 0), nr = distinct(r->right, rv, 0);
    if (nl > MAX_MAPPED_VARS) return false;
    for (size_t i = 0; i < nr; i++)
    {
        bool found = false;
        for (size_t k = 0; k < nl; k++) found |= strcmp(lv[k], rv[i]) == 0;
        if (!found) return false;
    }
    return true;
}
static bool reference(void)
{
    static char line[200];
    sets = 0;
    nwant = 0;
    for (size_t i = 0; i < len; )
    {
        size_t n = 0;
        while (i < len && data[i] != '\n') { if (n == 199) symx_discard(); line[n++] = data[i++]; }
        i++;
        line[n] = 0;
        for (size_t k = 0; k < n; k++) if (line[k] == '#') { line[k] = 0; break; }
        char *p = line;
        while (*p == ' ') p++;
        if (strncmp(p, "RULESET", 7) == 0)
        {
            if (sets == MAXSETS) return true;
            in_set[sets++] = 0;
            continue;
        }
        if (*p == 0 || sets == 0) continue;
        if (!ref_rule(p)) return false;
        in_set[sets - 1]++;
    }
    return true;
}
/* ---- */
static void compare(const RewriteRule *got, const Rule *w)
{
    CHECK(eq(got->pattern.pattern, w->left), "rule file: left side is not the one written");
    CHECK(eq(got->after, w->right), "rule file: right side is not the one written");
    size_t n = 0;
    bool used[3] = {false, false, false};
    for (size_t i = 0; i < MAX_MAPPED_VARS; i++)
        for (size_t k = 0; k < got->pattern.num_constraints[i]; k++)
        {
            n++;
            size_t q = 0;
            while (q < w->n && (used[q] || !eq(got->pattern.constraints[i][k], w->cond[q]))) q++;
            CHECK(q < w->n, "rule file: a condition that was not written");
            used[q] = true;
        }
    CHECK(n == w->n, "rule file: a condition is lost");
}
static void put(const char *s) { size_t n = strlen(s); memcpy(data + len, s, n); len += n; }
static void put_any(const char *set)
{
    char c = (char)symx_byte("c");
    bool in = false;
    for (int i = 0; set[i]; i++) in |= c == set[i];
    symx_assume(in);
    data[len++] = c;
}
static void fill(const char *t)
{
    for (; *t; t++) { if (*t == '?') put_any(ANY); else data[len++] = *t; }
}
static void check_file(void)
{
    /* what has been read stays concrete from here on */
    for (size_t i = 0; i < len; i++) data[i] = (char)symx_concretize((uint8_t)data[i]);
    symx_file("/f.rules", data, len);
    bool ok = reference();
    uint64_t live = symx_live_heap();
    Vector v[MAXSETS];
    for (int i = 0; i < MAXSETS; i++) v[i] = get_empty_ruleset();
    symx_output_reset();
    FILE *f = fopen("/f.rules", "r");
    ssize_t n = parse_rulesets_from_file(f, g_propositional_ctx, MAXSETS, v);
    fclose(f);
    symx_observe(n);
    if (ok)
    {
        CHECK(n != -1, "rule file: a correct file is rejected");
        CHECK(n == sets, "rule file: number of rule sets is wrong");
        size_t k = 0;
        for (int i = 0; i < MAXSETS; i++)
        {
            CHECK(vec_count(&v[i]) == (i < sets ? in_set[i] : 0), "rule file: number of rules is wrong");
            for (size_t q = 0; q < vec_count(&v[i]); q++, k++) compare(vec_get(&v[i], q), &want[k]);
        }
        if (k > 0) symx_reach("rules");
        symx_reach("accepted");
    }
    else
    {
        CHECK(n == -1, "rule file: a malformed file is accepted");
        CHECK(symx_stderr_len() > 0, "rule file: malformed file not reported");
        symx_reach("rejected");
    }
    for (int i = 0; i < MAXSETS; i++) free_ruleset(&v[i]);
    CHECK(symx_live_heap() == live, "rule file: not everything is released");
}
/* lines put together from pieces */
static void pieces(void)
{
    static const char *const lines[] = {
        "RULESET\n", "\n", "# a -> b\n", "   \n", "x+1 -> 1+x\n", "  sum([xs], x) -> x   # note\n", "x*y -> y WHERE type(x) == CONST ; y > 1\n", "-x -> x WHERE x > 0 || x < 1 # ; y\n", "  RULESET # next\n",
        "x*(y+2) -> x*y WHERE equal(x,y) ; x > 1 ; y > 2\n",
        /* malformed */
        "x+1\n", "x -> y\n", "x -> \n", "-> x\n", "x+ -> x\n", "x -> 1 WHERE y > 2 ; \n", "x -> x WHERE x > 0 ; x > 1 ; x > 2 ; x > 3\n", "sum(a,b,c,d,e,f,g,h,i,j,k) -> a\n", "x y -> x\n", "x -> x WHERE x >\n", "x -> x ->\n",
    };
    for (int i = 0; i < LINES; i++) put(i == 0 && FIRST ? "RULESET\n" : lines[symx_choose("line", sizeof lines / sizeof *lines)]);
    if (len && symx_choose("no newline", 2)) len--;
    check_file();
}
static void form(void)
{
    put("RULESET\n");
    unsigned k = symx_choose("form", 8);
    fill(k == 0 ? "x?1 -> ??x\n" : k == 1 ? "x+y ??> x\n" : k == 2 ? "x->1???WHERE x > 1\n" : k == 3 ? "x -> 1 WHERE??x > 1\n" : k == 4 ? "x -> 1 WHERE x > 1???y < 2\nx -> x" : k == 5 ? "??RULESET\n1 -> 2" : k == 6 ? "x -> 1 ???\n?x -> 2" : "1 -> 2?RULESE?\n2 -> 3?");
    check_file();
}
/* through the calculator: a file that is not fine leaves the rules as they are */
static void reload(void)
{
    static const char good[] = "RULESET\nx+0 -> x\nRULESET\nRULESET\nRULESET\nRULESET\nRULESET\nRULESET\nx*1 -> x\nx*2 -> x+x\n";
    symx_file("/good.rules", good, strlen(good));
    if (symx_choose("before", 2)) { ssize_t n = init_simplification("/good.rules"); CHECK(n == 3, "rule file: number of rules is wrong"); }
    bool had = simplification_is_initialized();
    uint64_t live = symx_live_heap();
    unsigned n = symx_choose("sets", 10), bad = symx_choose("malformed in", n + 1);
    size_t rules = 0;
    for (unsigned i = 0; i < n; i++)
    {
        put("RULESET\n");
        if (i % 3 == 0) { put("x*0 -> x\n"); if (i < 7) rules++; }
        if (bad == i + 1) put("x*0 -> y\n");
    }
    symx_file("/new.rules", data, len);
    bool ok = n >= 7 && (bad == 0 || bad > 7);
    symx_output_reset();
    ssize_t r = init_simplification(symx_choose("missing", 2) ? "/missing.rules" : "/new.rules");
    if (r == -1) { CHECK(symx_live_heap() == live && simplification_is_initialized() == had, "rule file: missing file changes something"); symx_reach("missing"); }
    else if (ok) { CHECK(r == (ssize_t)rules && simplification_is_initialized(), "rule file: a correct file is rejected"); symx_reach("accepted"); }
    else
    {
        CHECK(r == -2, "rule file: a malformed file is accepted");
        CHECK(symx_stderr_len() > 0, "rule file: malformed file not reported");
        CHECK(symx_live_heap() == live, "rule file: not everything is released");
        CHECK(simplification_is_initialized() == had, "rule file: rules are lost or half loaded");
        symx_reach("rejected");
    }
    CHECK(symx_open_files() == 0, "rule file: not closed");
    /* which rules are in effect? */
    char cmd[] = "a+0";
    symx_output_reset();
    exec_command(cmd);
    bool old = had && r < 0;
    CHECK(strcmp(symx_stdout(), old ? "a\n" : "a+0\n") == 0, "rule file: other rules in effect");
}
void symx_main(void)
{
    symx_budget(20000000);
    init_commands();
    symx_budget(80000000);
    if (MODE == 0) pieces();
    else if (MODE == 1) form();
    else if (MODE == 2) reload();
#if MODE == 3
    else
    {
        len = ruleset_len;
        CHECK(len <= sizeof data, "harness: shipped rule file too big");
        memcpy(data, ruleset_data, len);
        check_file();
    }
#endif
}
