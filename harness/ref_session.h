/* Reference model of a session: definitions by substitution, evaluation by composition, a plain list of results. */
#ifndef REF_SESSION_H
#define REF_SESSION_H
#include "ref_parse.h"
#include "ref_token.h"
#include <stdio.h>
#include <math.h>
#include "arith_context.h"
#include "arith_evaluation.h"
#include "commands.h"
#include "history.h"
#include "console_util.h"
#define RS_NAME 12
#define RS_CH 12
typedef struct X { int kind; const Operator *op; int user; double val; char name[RS_NAME]; size_t n; size_t tok; struct X *ch[RS_CH]; } X;   /* tok: the token it stems from; all of a definition's body stems from the call */
#ifndef RS_TOK
#define RS_TOK 48
#define RS_XS 600
#define RS_LINE 128
#endif
static X rs_xs[RS_XS]; static int rs_nx;
typedef struct { char name[RS_NAME]; size_t n; char par[RS_CH][RS_NAME]; X *body; bool konst; } RsDef;
static RsDef rs_def[12]; static int rs_ndef;
static double rs_hist[24]; static int rs_nhist;
static ParsingContext rs_ctx;
static char rs_tokbuf[RS_TOK][RS_NAME * 2]; static const char *rs_tok[RS_TOK];

static void rs_rebuild(void)
{
    rs_ctx = get_arith_ctx();
    for (int i = 0; i < rs_ndef; i++) ctx_add_op(&rs_ctx, op_get_function(rs_def[i].name, rs_def[i].n));
}
static void rs_close(void) { ctx_destroy(&rs_ctx); }
static void rs_init(void)
{
    rs_rebuild();
    LinkedListIterator it = list_get_iterator(&rs_ctx.op_list);
    Operator *op;
    rt_nkw = 0;
    while ((op = iterator_get_next((Iterator *)&it)) != NULL) if (!rt_letter(op->name[0])) rt_kw[rt_nkw++] = op->name;
}
static X *rs_new(void) { if (rs_nx == RS_XS) symx_discard(); X *x = &rs_xs[rs_nx++]; x->n = 0; x->op = NULL; return x; }
static int rs_find(const char *name) { for (int i = 0; i < rs_ndef; i++) if (strcmp(rs_def[i].name, name) == 0) return i; return -1; }
/* tokens of a text: returns their number */
static size_t rs_tokens(const char *text)
{
    rt_tokenize(text);
    if (rt_n > RS_TOK) symx_discard();
    for (size_t i = 0; i < rt_n; i++)
    {
        if (rt_len[i] >= RS_NAME * 2) symx_discard();
        memcpy(rs_tokbuf[i], text + rt_start[i], rt_len[i]);
        rs_tokbuf[i][rt_len[i]] = 0;
        rs_tok[i] = rs_tokbuf[i];
    }
    return rt_n;
}
/* the meaning of a parsed expression, with the parameters of a definition bound (def >= 0) */
static X *rs_subst(const X *body, const RsDef *d, X **args, size_t tok)
{
    if (body->kind == NTYPE_VARIABLE) for (size_t i = 0; i < d->n; i++) if (strcmp(d->par[i], body->name) == 0) return args[i];
    X *x = rs_new();
    *x = *body;
    x->tok = tok;
    for (size_t i = 0; i < body->n; i++) x->ch[i] = rs_subst(body->ch[i], d, args, tok);
    return x;
}
static X *rs_expand(const RNode *r)
{
    X *x = rs_new();
    x->kind = r->kind;
    x->tok = r->tok;
    if (r->kind == NTYPE_CONSTANT) { x->val = strtod(rs_tok[r->tok], NULL); return x; }
    if (r->kind == NTYPE_VARIABLE) { if (strlen(rs_tok[r->tok]) >= RS_NAME) symx_discard(); strcpy(x->name, rs_tok[r->tok]); return x; }
    if (r->n > RS_CH) symx_discard();
    x->n = r->n;
    for (size_t i = 0; i < r->n; i++) x->ch[i] = rs_expand(r->ch[i]);
    int u = -1;
    if (r->op->placement == OP_PLACE_FUNCTION) u = rs_find(r->op->name);
    if (u >= 0) return rs_subst(rs_def[u].body, &rs_def[u], x->ch, r->tok);
    x->op = r->op;
    return x;
}
static bool rs_vars(const X *x) { if (x->kind == NTYPE_VARIABLE) return true; for (size_t i = 0; i < x->n; i++) if (rs_vars(x->ch[i])) return true; return false; }
static int rs_eval(const X *x, double *out)
{
    if (x->kind == NTYPE_CONSTANT) { *out = x->val; return 0; }
    if (x->kind == NTYPE_VARIABLE) return LISTENERERR_VARIABLE_ENCOUNTERED;
    double a[RS_CH];
    for (size_t i = 0; i < x->n; i++) { int e = rs_eval(x->ch[i], &a[i]); if (e) return e; }
    bool at = x->op->id == 1 && x->op->placement == OP_PLACE_PREFIX, ans = x->op->id == 57;
    if (at || ans)
    {
        double i = at ? trunc(a[0]) : 0;
        if (!(i >= 0 && i < rs_nhist)) return LISTENERERR_HISTORY_NOT_SET;
        *out = rs_hist[rs_nhist - 1 - (int)i];
        return 0;
    }
    return arith_op_evaluate(x->op, x->n, a, out);
}
/* computes everything that has no variables; nonzero: not possible */
static int rs_fold(X **x)
{
    double v;
    if (!rs_vars(*x))
    {
        int e = rs_eval(*x, &v);
        if (e) return e;
        X *c = rs_new();
        c->kind = NTYPE_CONSTANT;
        c->val = v;
        *x = c;
        return 0;
    }
    X *y = rs_new();
    *y = **x;
    *x = y;
    for (size_t i = 0; i < y->n; i++) { int e = rs_fold(&y->ch[i]); if (e) return e; }
    return 0;
}
/* parses, expands and computes; NULL: error */
static X *rs_expr(const char *text)
{
    size_t n = rs_tokens(text);
    RNode *r = rp_parse(&rs_ctx, n, rs_tok);
    if (r == NULL) return NULL;
    X *x = rs_expand(r);
    return rs_fold(&x) ? NULL : x;
}
static bool rs_uses(const RNode *r, const char *name)
{
    if (r->kind == NTYPE_OPERATOR && r->op->placement == OP_PLACE_FUNCTION && strcmp(r->op->name, name) == 0) return true;
    for (size_t i = 0; i < r->n; i++) if (rs_uses(r->ch[i], name)) return true;
    return false;
}
static bool rs_bound(const X *x, const RsDef *d)
{
    if (x->kind == NTYPE_VARIABLE)
    {
        for (size_t i = 0; i < d->n; i++) if (strcmp(d->par[i], x->name) == 0) return true;
        return false;
    }
    for (size_t i = 0; i < x->n; i++) if (!rs_bound(x->ch[i], d)) return false;
    return true;
}
static bool rs_define(const char *text)
{
    char left[48];
    size_t eq = 0;
    while (text[eq] != '=') eq++;
    memcpy(left, text, eq);
    left[eq] = 0;
    size_t n = rs_tokens(left), first = n, count = 0;
    for (size_t i = 0; i < n; i++) if (rs_tok[i][0] != ' ') { if (first == n) first = i; count++; }
    if (first == n || !rt_letter(rs_tok[first][0])) return false;
    if (strlen(rs_tok[first]) >= RS_NAME || rs_ndef == 12) symx_discard();
    RsDef *d = &rs_def[rs_ndef];
    strcpy(d->name, rs_tok[first]);
    if (ctx_lookup_op(&rs_ctx, d->name, OP_PLACE_FUNCTION)) return false;
    d->konst = count == 1;
    ctx_add_op(&rs_ctx, op_get_function(d->name, d->konst ? 0 : OP_DYNAMIC_ARITY));
    bool ok = false;
    RNode *r = rp_parse(&rs_ctx, n, rs_tok);
    if (r && r->kind == NTYPE_OPERATOR && r->op->placement == OP_PLACE_FUNCTION)
    {
        ok = r->n <= 10;
        d->n = r->n;
        for (size_t i = 0; i < r->n && ok; i++)
        {
            ok = r->ch[i]->kind == NTYPE_VARIABLE && rs_tok[r->ch[i]->tok][0] != '[';
            if (!ok) break;
            if (strlen(rs_tok[r->ch[i]->tok]) >= RS_NAME) symx_discard();
            strcpy(d->par[i], rs_tok[r->ch[i]->tok]);
            for (size_t k = 0; k < i; k++) if (strcmp(d->par[k], d->par[i]) == 0) ok = false;
        }
    }
    ctx_delete_op(&rs_ctx, d->name, OP_PLACE_FUNCTION);
    if (!ok) return false;
    const Operator *op = ctx_add_op(&rs_ctx, op_get_function(d->name, d->n));
    (void)op;
    n = rs_tokens(text + eq + 1);
    r = rp_parse(&rs_ctx, n, rs_tok);
    ok = r != NULL && !rs_uses(r, d->name);
    if (ok)
    {
        X *x = rs_expand(r);
        ok = rs_fold(&x) == 0 && rs_bound(x, d);
        d->body = x;
    }
    if (ok) rs_ndef++;
    else ctx_delete_op(&rs_ctx, d->name, OP_PLACE_FUNCTION);
    return ok;
}
static void rs_forget(int i)
{
    for (; i + 1 < rs_ndef; i++) rs_def[i] = rs_def[i + 1];
    rs_ndef--;
    rs_rebuild();           /* the old table stays: bodies refer to its operators */
}
/* what a printed expression is worth for given variables */
static double rs_at(const X *x)
{
    if (x->kind == NTYPE_CONSTANT) return x->val;
    if (x->kind == NTYPE_VARIABLE) { double v = 1.375; for (const char *p = x->name; *p; p++) v += (*p % 16) * 0.17; return v; }
    double a[RS_CH], v = NAN;
    for (size_t i = 0; i < x->n; i++) a[i] = rs_at(x->ch[i]);
    return arith_op_evaluate(x->op, x->n, a, &v) ? NAN : v;
}
static bool rs_near(double a, double b) { if (a == b || (a != a && b != b)) return true; return fabs(a - b) <= 1e-8 * (fabs(a) + fabs(b)); }
static bool rs_starts(const char *pre, const char *s) { while (*pre) if (*pre++ != *s++) return false; return true; }
enum { RS_EVAL, RS_DEF, RS_CLEAR };
static int rs_kind; static X *rs_res;
/* what the command has to do: returns whether it succeeds */
static bool rs_exec(const char *t)
{
    rs_res = NULL;
    bool eq = false;
    for (const char *p = t; *p; p++) eq |= *p == '=';
    if (eq) { rs_kind = RS_DEF; return rs_define(t); }
    if (rs_starts("clear", t))
    {
        rs_kind = RS_CLEAR;
        if (t[5] == 0) { while (rs_ndef) rs_forget(rs_ndef - 1); return true; }
        int i = t[6] ? rs_find(t + 6) : -1;
        if (i >= 0) rs_forget(i);
        return i >= 0;
    }
    rs_kind = RS_EVAL;
    rs_res = rs_expr(t);
    if (rs_res && !rs_vars(rs_res)) { if (rs_nhist == 24) symx_discard(); rs_hist[rs_nhist++] = rs_res->val; }
    return rs_res != NULL;
}
/* runs the command for real and compares; symbolic characters have been made concrete by then */
static bool rs_check(const char *t)
{
    static char work[RS_LINE];
    bool ok = rs_exec(t);
    strcpy(work, t);
    symx_output_reset();
    bool res = exec_command(work);
    symx_observe(res);
    CHECK(res == ok, rs_kind == RS_DEF ? (ok ? "session: a correct definition is refused" : "session: an incorrect definition is accepted")
        : rs_kind == RS_CLEAR ? (ok ? "session: clear fails" : "session: clear of something that is not defined succeeds")
        : (ok ? "session: an expression with a meaning is refused" : "session: an expression without a meaning is calculated"));
    if (!ok) { CHECK(symx_stderr_len() > 0, "session: an error is not reported"); CHECK(symx_stdout_len() == 0, "session: a failed command prints a result"); }
    else if (rs_kind != RS_EVAL) CHECK(symx_stdout_len() == 0, "session: unexpected output");
    else if (rs_res->kind == NTYPE_CONSTANT)
    {
        char buf[64];
        snprintf(buf, sizeof buf, "%-.10g\n", rs_res->val);
        CHECK(strcmp(symx_stdout(), buf) == 0, "session: calculated value is wrong");
        symx_reach("value");
    }
    else
    {
        static char out[400];
        size_t len = symx_stdout_len();
        CHECK(len > 1 && len < sizeof out && symx_stdout()[len - 1] == '\n', "session: expression is not printed");
        memcpy(out, symx_stdout(), len - 1);
        out[len - 1] = 0;
        for (size_t i = 0; i < len; i++) if (out[i] == 'e' || out[i] == 'n') return ok;   /* exponents, nan, inf */
        X *want = rs_res;
        size_t n = rs_tokens(out);
        RNode *r = rp_parse(&rs_ctx, n, rs_tok);
        CHECK(r != NULL, "session: printed expression is none");
        X *x = rs_expand(r);
        CHECK(rs_near(rs_at(x), rs_at(want)), "session: printed expression has another meaning");
        rs_res = want;
        symx_reach("expression");
    }
    return ok;
}
/* text from a template: # digit, ~ operator, N/P a name, ? any of a wider set; the characters are symbolic */
static const char *rs_set_N = "fg", *rs_set_P = "xy", *rs_set_hash = "027", *rs_set_op = "+-*/^", *rs_set_any = " 2x.(),+-/^!%@'fg=";
static char rs_of(const char *set)
{
    char c = (char)symx_byte("c");
    bool in = false;
    for (int i = 0; set[i]; i++) in |= c == set[i];
    symx_assume(in);
    return c;
}
static void rs_fill(const char *p, char *out)
{
    for (; *p; p++)
    {
        if (*p == '#') *out++ = rs_of(rs_set_hash);
        else if (*p == '~') *out++ = rs_of(rs_set_op);
        else if (*p == 'N') *out++ = rs_of(rs_set_N);
        else if (*p == 'P') *out++ = rs_of(rs_set_P);
        else if (*p == '?') *out++ = rs_of(rs_set_any);
        else *out++ = *p;
    }
    *out = 0;
}
#endif
