/* C27: the mark under an error message lies under the part of the line that is wrong. */
#include "ref_session.h"
#include "ruleset.inc"
/* the places that may be marked, each with what is wrong there */
enum { SYNTAX, OPERANDS, VALUE, WHOLE };
static struct { size_t start, len; int kind; } acc[96]; static int nacc;
static void accept(size_t start, size_t len, int kind) { if (nacc == 96) symx_discard(); acc[nacc].start = start; acc[nacc].len = len; acc[nacc++].kind = kind; }
static size_t part_at, part_len;                 /* the part of the line the tokens are from */
static void accept_token(size_t i, int kind)
{
    if (i == rt_n) accept(part_at + part_len, 1, kind);      /* behind the end */
    else accept(part_at + rt_start[i], rt_len[i], kind);
}
/* the first token that no expression can have after the ones before it; functions with a wrong number of operands */
static bool syntax(const ParsingContext *ctx)
{
    static struct { const Operator *op; size_t tok, args; } st[RS_TOK];
    size_t depth = 0, i;
    bool operand = true, fresh = false, good = true;
    const Operator *fn = NULL; size_t fn_tok = 0;
    for (i = 0; i < rt_n; i++)
    {
        const char *t = rs_tok[i];
        if (t[0] == ' ') continue;
        const Operator *infix = ctx_lookup_op(ctx, t, OP_PLACE_INFIX), *postfix = ctx_lookup_op(ctx, t, OP_PLACE_POSTFIX);
        if (fn != NULL)
        {
            if (!rp_open(t)) break;
            st[depth].op = fn; st[depth].tok = fn_tok; st[depth++].args = 0;
            fn = NULL; fresh = true;
            continue;
        }
        if (rp_close(t))
        {
            if (depth == 0 || (operand && !(fresh && st[depth - 1].op != NULL))) break;
            depth--;
            if (!operand) st[depth].args++;
            if (st[depth].op != NULL && st[depth].op->arity != OP_DYNAMIC_ARITY && st[depth].op->arity != st[depth].args) { accept_token(st[depth].tok, OPERANDS); good = false; }
            operand = fresh = false;
            continue;
        }
        if (rp_delim(t))
        {
            if (operand || depth == 0 || st[depth - 1].op == NULL) break;
            st[depth - 1].args++;
            operand = true; fresh = false;
            continue;
        }
        if (!operand && infix != NULL) { operand = true; fresh = false; continue; }
        if (!operand && postfix != NULL) continue;
        fresh = false;
        operand = true;                          /* an operand; after another one: the product of both */
        if (rp_open(t)) { st[depth].op = NULL; st[depth++].args = 0; continue; }
        const Operator *f = ctx_lookup_op(ctx, t, OP_PLACE_FUNCTION);
        if (f != NULL) { if (f->arity == 0) operand = false; else { fn = f; fn_tok = i; } continue; }
        if (ctx_lookup_op(ctx, t, OP_PLACE_PREFIX) != NULL) continue;
        char *end;
        strtod(t, &end);
        if (*end != 0 && (infix != NULL || postfix != NULL || !rp_letter(t[0]))) break;
        operand = false;
    }
    if (i == rt_n && !operand && fn == NULL && depth == 0) return good;
    accept_token(i, SYNTAX);
    return false;
}
/* 0: has a value, 1: has variables, 2: an operator in it fails */
static int values(const X *x, double *out)
{
    if (x->kind == NTYPE_CONSTANT) { *out = x->val; return 0; }
    if (x->kind == NTYPE_VARIABLE) return 1;
    double a[RS_CH];
    int worst = 0;
    for (size_t i = 0; i < x->n; i++) { int e = values(x->ch[i], &a[i]); if (e > worst) worst = e; }
    if (worst) return worst;
    X flat = *x;
    X leaf[RS_CH];
    for (size_t i = 0; i < x->n; i++) { leaf[i].kind = NTYPE_CONSTANT; leaf[i].val = a[i]; leaf[i].n = 0; flat.ch[i] = &leaf[i]; }
    if (rs_eval(&flat, out) == 0) return 0;
    accept_token(x->tok, VALUE);
    return 2;
}
static const char *names[40]; static int nnames;
static void list(const X *x)
{
    if (x->kind == NTYPE_VARIABLE) { for (int i = 0; i < nnames; i++) if (strcmp(names[i], x->name) == 0) return; names[nnames++] = x->name; }
    for (size_t i = 0; i < x->n; i++) list(x->ch[i]);
}
/* what can be wrong with one expression of the line; -1: malformed, else number of its variables, its value in *v */
static int expression(const char *text, size_t at, double *v)
{
    part_at = at; part_len = strlen(text);
    rs_tokens(text);
    nnames = 0;
    if (!syntax(&rs_ctx)) return -1;
    RNode *r = rp_parse(&rs_ctx, rt_n, rs_tok);
    if (r == NULL) { symx_reach("disagree"); CHECK(0, "marks: the two references disagree"); }
    X *x = rs_expand(r);
    list(x);
    if (values(x, v) == 2) return -1;
    return nnames;
}
static void definition(const char *line)
{
    char left[96];
    size_t eq = 0;
    while (line[eq] != '=') eq++;
    memcpy(left, line, eq); left[eq] = 0;
    size_t n = rs_tokens(left), first = n, count = 0;
    accept(0, eq ? eq : 1, WHOLE);
    for (size_t i = 0; i < n; i++) if (rs_tok[i][0] != ' ') { if (first == n) first = i; count++; }
    if (first == n || !rt_letter(rs_tok[first][0])) return;
    char name[RS_NAME * 2];
    strcpy(name, rs_tok[first]);
    if (ctx_lookup_op(&rs_ctx, name, OP_PLACE_FUNCTION)) return;
    ctx_add_op(&rs_ctx, op_get_function(name, count == 1 ? 0 : OP_DYNAMIC_ARITY));
    part_at = 0; part_len = eq;
    rs_tokens(left);
    RNode *r = syntax(&rs_ctx) ? rp_parse(&rs_ctx, n, rs_tok) : NULL;
    size_t operands = r ? r->n : 0;
    ctx_delete_op(&rs_ctx, name, OP_PLACE_FUNCTION);
    if (r == NULL || r->kind != NTYPE_OPERATOR) return;
    ctx_add_op(&rs_ctx, op_get_function(name, operands));
    double v;
    expression(line + eq + 1, eq + 1, &v);
    ctx_delete_op(&rs_ctx, name, OP_PLACE_FUNCTION);
}
static int rs_mark;
static bool table(const char *line)
{
    static char arg[6][96]; size_t at[6], n = 0, pos = 6;
    static const char *const delim[] = {";", ";", ";", " fold ", ";"};
    for (;;)
    {
        const char *e = n < 5 ? strstr(line + pos, delim[n]) : NULL;
        size_t end = e ? (size_t)(e - line) : strlen(line), from = pos, to = end;
        while (from < to && line[from] == ' ') from++;
        while (to > from + 1 && line[to - 1] == ' ') to--;
        at[n] = from;
        memcpy(arg[n], line + from, to - from); arg[n][to - from] = 0;
        n++;
        if (!e) break;
        pos = end + strlen(delim[n - 1]);
    }
    if (n != 4 && n != 6) return false;
    for (size_t i = 0; i < n; i++)
    {
        double v = 0;
        int vars = expression(arg[i], at[i], &v);
        size_t len = strlen(arg[i]);
        if (i == 0 && vars > 1) accept(at[i], len, WHOLE);
        if (i != 0 && i != 4 && vars > 0) accept(at[i], len, WHOLE);
        if (i == 3 && vars == 0) accept(at[i], len, WHOLE);
        if (i == 4) for (int k = 0; k < nnames; k++) if (strcmp(names[k], "x") && strcmp(names[k], "y")) accept(at[i], len, WHOLE);
    }
    return true;
}
static void check_line(const char *line)
{
    static char work[96];
    size_t len = strlen(line);
    bool must = true, eq = strchr(line, '=') != NULL;
    nacc = 0; rs_nx = rs_ndef ? rs_mark : 0;
    double v;
    if (rs_starts("table ", line)) must = table(line);
    else if (eq) { definition(line); must = false; }
    else if (rs_starts("clear", line)) { accept(6, len > 7 ? len - 6 : 1, WHOLE); must = false; }
    else if (rs_starts("load", line) || rs_starts("help", line) || rs_starts("license", line)) symx_discard();
    else expression(line, 0, &v);
    strcpy(work, line);
    symx_output_reset();
    bool ok = exec_command(work);
    symx_observe(ok);
    if (ok) { symx_reach("succeeded"); return; }
    static char err[400];
    size_t n = symx_stderr_len();
    CHECK(n < sizeof err, "marks: message is too long");
    memcpy(err, symx_stderr(), n); err[n] = 0;
    char *hat = strchr(err, '^');
    if (hat == NULL) { CHECK(!must, "marks: no mark under the line"); symx_reach("no mark"); return; }
    CHECK(strchr(hat + 1, '^') == NULL, "marks: two marks");
    char *from = hat, *to = hat + 1;
    while (from > err && from[-1] == '~') from--;
    while (*to == '~') to++;
    for (char *p = err; p < from; p++) CHECK(*p != '~' && *p != '\n', "marks: the mark is not on the line of the message");
    CHECK(from == hat || to == hat + 1, "marks: the mark is malformed");
    int kind = strstr(err, "Wrong number of operands") ? OPERANDS
        : strstr(err, "Expected ") || strstr(err, "Unexpected ") || strstr(err, "Missing ") ? SYNTAX
        : strstr(err, "history") || strstr(err, "Division") || strstr(err, "Complex") || strstr(err, "differentiable") ? VALUE : WHOLE;
    size_t start = from - err, mlen = to - from;
#if RULES
    /* rules rewrite the expression before it fails: the mark has to be under a token of the line, that of a derivative under a derivative */
    bool derivative = strstr(err, "differentiable") || strstr(err, " in expr'") || strstr(err, "'deriv'");
    if (derivative) { rs_tokens(line); for (size_t i = 0; i < rt_n; i++) if (strcmp(rs_tok[i], "'") == 0 || strcmp(rs_tok[i], "deriv") == 0) { accept(rt_start[i], rt_len[i], kind); } symx_reach("derivative"); }
    else if (kind >= VALUE && !eq) { rs_tokens(line); for (size_t i = 0; i < rt_n; i++) accept(rt_start[i], rt_len[i], kind); }
#endif
    bool found = false;
    for (int i = 0; i < nacc; i++) found |= acc[i].start == start && acc[i].len == mlen && acc[i].kind == kind;
    if (!found) { symx_observe(start); symx_observe(mlen); symx_observe(kind); }
    CHECK(found, kind == SYNTAX ? "marks: the token marked as misplaced is not" : kind == OPERANDS ? "marks: the function marked has the right number of operands"
        : kind == VALUE ? "marks: the operator marked does not fail" : "marks: another part of the line is marked");
    symx_reach(kind == SYNTAX ? "syntax" : kind == OPERANDS ? "operands" : kind == VALUE ? "value" : "part");
    symx_reach(from == hat && start > 0 && err[0] == ' ' && to > hat && err[start - 1] == ' ' && to[0] == ' ' ? "mark first" : "message first");
}
static char line[120];
void symx_main(void)
{
    symx_budget(60000000);
#if RULES
    symx_file("./simplification.ruleset", ruleset_data, ruleset_len);
#endif
    init_commands();
    rs_init();
    rs_set_any = ANY;
    rs_check("f(x)=sqrt(1/x)"); rs_check("g(x,y)=root(x,y)-f(y)"); rs_check("c=7"); rs_check("3");
    rs_mark = rs_nx;
    set_interactive(true);
#if MODE == 2
    unsigned pad = symx_choose("blanks", 61);
#else
    unsigned pad = symx_choose("blanks", 3) * 28;
#endif
    memset(line, ' ', pad);
#if MODE == 0
    static const char *const words[] = {"x", "f", "root", "sum", "(", ")", ",", "+", "-", "/", "!", "@", "c", " ", "#"};
    line[pad] = 0;
    unsigned n = symx_choose("words", LEN + 1);
    for (unsigned i = 0; i < n; i++)
    {
        unsigned w = symx_choose("word", sizeof words / sizeof *words + 1);
        size_t end = strlen(line);
        if (w == sizeof words / sizeof *words) { line[end] = (char)symx_range("digit", '0', '9'); line[end + 1] = 0; }
        else strcat(line, words[w]);
    }
#elif MODE == 2
    static const char *const tpl[] = {"1/?", "1+", ")", "@?", "root(?)-2", "f(?)", "g(?,0)", "(-1)^.?", "1+?+a b$", "c(", "sqrt(-?)"};
    rs_fill(tpl[symx_choose("line", sizeof tpl / sizeof *tpl)], line + pad);
#else
    static const char *const tpl[] = {"1+?/?*2", "f(?)+g(1,?)", "g(??2)", "(root(?1)?", "sum(1,f(0)?2)-1/0", "sqrt(-2)?3", "2*(x+?)?", "@?+ans", "f(f(?))", "1/(?-2)", "x+1/?+root(2)", "c?(1)", "{1?2)", "(-1)^?.5", "sum(1,2,root(1?))", "f(g(?,0))+f(?)", "deriv(?,?)", "5'+?", "log(1)?(2", "((root(1)))?", "1+2*(x!)'?", "?-(x*y)'", "2*deriv(x!?,x)+1", "sin((x?2!)')", "?-deriv(x,2)",
        "h(x)=1/?+x", "h(x?)=x", "h(?)=2", "h?=1/0", "?=f(0)", "h(x)=g(x?)", "f(x)=?", "h(x)=h(?)", "h(x,y,z)=f(0)?", "  h  =  1?", "h(x)= x+f(?)", "1?=2", "h(x)=1+(x!)'?",
        "clear ?", "clear f?", "clear sin", "clearf?",
        "table ?;1;2;1", "table x/?;1;2;?", "table x;?;2;1/0", "table x+y;1;?;1", "table x;1;2;1 fold ?;0", "table x;1;2;1 fold x+1/0;?", "table x ; f(0) ;2;1?", "table x;1;y?;1", "table x;1;2;1 fold x+z;?"};
    unsigned k = symx_choose("line", sizeof tpl / sizeof *tpl);
    if (k >= 38) pad = 0;
    rs_fill(tpl[k], line + pad);
#endif
    check_line(line);
    rs_close();
    unload_commands();
}
