/* C29: help lists exactly what there is. */
#include "ref_session.h"
/* what was printed, without colours */
static char text[6000]; static size_t text_len;
static void read_output(void)
{
    const char *p = symx_stdout();
    size_t n = symx_stdout_len();
    text_len = 0;
    for (size_t i = 0; i < n; i++)
    {
        if (p[i] == 27) { while (i < n && p[i] != 'm') i++; continue; }
        if (text_len + 1 < sizeof text) text[text_len++] = p[i];
    }
    CHECK(text_len + 1 < sizeof text, "help: more than expected is printed");
    text[text_len] = 0;
}
static char *at;
/* the next word of the line; empty at its end */
static char word[80];
static void next_word(void)
{
    size_t n = 0;
    while (*at == ' ') at++;
    while (*at && *at != ' ' && *at != '\n' && n + 1 < sizeof word) word[n++] = *at++;
    word[n] = 0;
}
static void next_line(void) { while (*at && *at != '\n') at++; if (*at) at++; }
static bool line_is(const char *s) { size_t n = strlen(s); return strncmp(at, s, n) == 0 && at[n] == '\n'; }
static void run(const char *t)
{
    char work[40];
    strcpy(work, t);
    symx_output_reset();
    bool ok = exec_command(work);
    CHECK(ok && symx_stderr_len() == 0, "help: fails");
    read_output();
    at = text;
}
#define OPS 58
static const Operator *builtin[OPS];
static void form(const Operator *op, char *out)
{
    bool letter = rt_letter(op->name[0]);
    if (op->placement == OP_PLACE_PREFIX) sprintf(out, "%sx", op->name);
    else if (op->placement == OP_PLACE_POSTFIX) sprintf(out, "x%s", op->name);
    else if (op->placement == OP_PLACE_INFIX) sprintf(out, letter ? "x %s y" : "x%sy", op->name);
    else if (op->arity == 0) strcpy(out, op->name);
    else if (op->arity == OP_DYNAMIC_ARITY) sprintf(out, "%s(*)", op->name);
    else sprintf(out, "%s(%d)", op->name, (int)op->arity);
}
static void check_short(void)
{
    run("help");
    static const char *const command[] = {"table <expr> ; <from> ; <to> ; <step>", "fold <expr> ; <init>", "load [simplification] <path>", "clear [<func>]", "help [operators]", "license", "quit"};
    for (unsigned i = 0; i < sizeof command / sizeof *command; i++) CHECK(strstr(text, command[i]) != NULL, "help: a command is missing");
    at = strstr(text, "\nPseudo operators:\n");
    CHECK(at != NULL, "help: no operators");
    at++;
    static bool seen[OPS];
    memset(seen, 0, sizeof seen);
    int count = 0;
    while (*at && !line_is("User-defined functions and constants:"))
    {
        char *end = at;
        while (*end && *end != '\n') end++;
        if (end > at && end[-1] == ':') { at = end + 1; continue; }
        while (at < end)
        {
            while (at < end && *at == ' ') at++;
            if (at == end) break;
            int found = -1; size_t flen = 0;
            for (int i = 0; i < OPS; i++)
            {
                char f[40];
                form(builtin[i], f);
                size_t n = strlen(f);
                if (n <= (size_t)(end - at) && memcmp(at, f, n) == 0 && (at + n == end || at[n] == ' ')) { if (found < 0 || n > flen) { found = i; flen = n; } }
            }
            CHECK(found >= 0, "help: shows an operator that there is not");
            CHECK(!seen[found], "help: shows an operator twice");
            seen[found] = true;
            count++;
            at += flen;
        }
        at = *end ? end + 1 : end;
    }
    CHECK(count == OPS, "help: an operator is missing");
    if (rs_ndef == 0) { CHECK(*at == 0, "help: shows definitions where there are none"); symx_reach("none"); return; }
    CHECK(*at != 0, "help: does not show the definitions");
    next_line();
    for (int i = 0; i < rs_ndef; i++)
    {
        const RsDef *d = &rs_def[i];
        static char left[80], right[160];
        char *eq = at, *end = at;
        while (*end && *end != '\n') end++;
        CHECK(*end == '\n', "help: a definition is missing");
        while (eq < end && *eq != '=') eq++;
        CHECK(eq < end && eq - at < 80 && end - eq < 160, "help: a definition is not shown as one");
        memcpy(left, at, eq - at); left[eq - at] = 0;
        memcpy(right, eq + 1, end - eq - 1); right[end - eq - 1] = 0;
        size_t n = rs_tokens(left);
        RNode *r = rp_parse(&rs_ctx, n, rs_tok);
        CHECK(r != NULL && r->kind == NTYPE_OPERATOR && strcmp(r->op->name, d->name) == 0, "help: a definition is missing, or not in order");
        CHECK(r->n == d->n && (rs_tok[n - 1][0] != ')' ? true : d->n > 0 || !d->konst), "help: a definition has other parameters");
        for (size_t k = 0; k < d->n; k++) CHECK(r->ch[k]->kind == NTYPE_VARIABLE && strcmp(rs_tok[r->ch[k]->tok], d->par[k]) == 0, "help: a definition has other parameters");
        for (char *p = right; *p; p++) if (*p == 'e') symx_discard();      /* exponents are not read back */
        n = rs_tokens(right);
        r = rp_parse(&rs_ctx, n, rs_tok);
        CHECK(r != NULL, "help: the right-hand side of a definition is no expression");
        X *x = rs_expand(r);
        CHECK(rs_near(rs_at(x), rs_at(d->body)), "help: a definition has another meaning");
        at = end + 1;
        symx_reach("definition");
    }
    CHECK(*at == 0, "help: shows more definitions than there are");
}
static void check_operators(void)
{
    run("help operators");
    static const struct { const char *title; OpPlacement place; bool constant; } part[] = {{"Infix operators:", OP_PLACE_INFIX, false}, {"Prefix operators:", OP_PLACE_PREFIX, false}, {"Postfix operators:", OP_PLACE_POSTFIX, false}, {"Functions:", OP_PLACE_FUNCTION, false}, {"Constants:", OP_PLACE_FUNCTION, true}};
    for (int p = 0; p < 5; p++)
    {
        while (*at == '\n') at++;
        CHECK(line_is(part[p].title), "help: a list of operators is missing");
        next_line(); next_line();
        static bool seen[OPS];
        memset(seen, 0, sizeof seen);
        while (*at && *at != '\n')
        {
            next_word();
            int found = -1;
            for (int i = 0; i < OPS; i++)
                if (builtin[i]->placement == part[p].place && (part[p].place != OP_PLACE_FUNCTION || (builtin[i]->arity == 0) == part[p].constant) && strcmp(builtin[i]->name, word) == 0) found = i;
            CHECK(found >= 0 && !seen[found], "help: an operator is listed twice or where it does not belong");
            seen[found] = true;
            const Operator *op = builtin[found];
            char want[64];
            if (part[p].place != OP_PLACE_FUNCTION)
            {
                next_word(); sprintf(want, "%d", (int)op->precedence);
                CHECK(strcmp(word, want) == 0, "help: wrong precedence");
                if (p == 0) { next_word(); CHECK(strcmp(word, op->assoc == OP_ASSOC_LEFT ? "Left" : "Right") == 0, "help: wrong associativity"); }
            }
            else if (!part[p].constant)
            {
                next_word();
                if (op->arity == OP_DYNAMIC_ARITY) strcpy(want, "*"); else sprintf(want, "%d", (int)op->arity);
                CHECK(strcmp(word, want) == 0, "help: wrong number of operands");
            }
            else if (op->id == 57 ? rs_nhist > 0 : true)
            {
                double v = 0;
                if (op->id == 57) v = rs_hist[rs_nhist - 1]; else arith_op_evaluate(op, 0, NULL, &v);
                next_word();
                snprintf(want, sizeof want, "%-.10g", v);
                CHECK(strcmp(word, want) == 0, "help: wrong value of a constant");
                if (op->id == 57) symx_reach("last result");
            }
            else symx_reach("no result");
            char *d = at;
            while (*d == ' ') d++;
            CHECK(*d && *d != '\n', "help: an operator without description");
            next_line();
        }
        for (int i = 0; i < OPS; i++)
            if (builtin[i]->placement == part[p].place && (part[p].place != OP_PLACE_FUNCTION || (builtin[i]->arity == 0) == part[p].constant)) CHECK(seen[i], "help: an operator is not listed");
    }
    CHECK(*at == 0, "help: more than the operators");
}
static char line[64];
void symx_main(void)
{
    symx_budget(60000000);
    init_commands();
    rs_init();
    int n = 0;
    LinkedListIterator it = list_get_iterator(&rs_ctx.op_list);
    const Operator *op;
    while (n < OPS && (op = (const Operator *)iterator_get_next((Iterator *)&it)) != NULL) builtin[n++] = op;
    CHECK(n == OPS, "help: operators");
    rs_set_N = "fg"; rs_set_P = "xy"; rs_set_op = OPSET; rs_set_hash = "038";
    static const char *const tpl[] = {"N(P)=x~#", "N(x,P)=x~y", "N=#~2", "f(x)=g(P)~#", "N(x)=f(-x)~x", "a=-#", "clear N", "clear", "#~3", "1/#", "h(x)=(x+#)*-P", "N(x,y)=sqrt(x^P)!"};
    for (int s = 0; s < STEPS; s++) { rs_fill(tpl[symx_choose("step", sizeof tpl / sizeof *tpl)], line); rs_check(line); }
    int before = rs_nhist;
    check_short();
    check_operators();
    run("license");
    CHECK(strstr(text, "GNU General Public License") != NULL, "help: license");
    /* nothing has changed by that */
    CHECK(rs_nhist == before, "help");
    rs_check("ans"); rs_check("f(2)"); rs_check("g");
    unload_commands();
}
