/* C11: the operator table under additions and removals. */
#include "symx.h"
#include <string.h>
#include <stdlib.h>
#include "context.h"
#include "arith_context.h"
#include "linked_list.h"
#define NNAMES 3
static const char *const names[NNAMES] = {"a", "ab", "+"};
typedef struct { bool on; unsigned prec, assoc; size_t arity; const Operator *ptr; size_t id; unsigned order; } Ent;
static Ent m[4][NNAMES];
static unsigned clock_;
static const Operator *glue;
static void verify(ParsingContext *ctx)
{
    unsigned n = 0;
    for (int p = 0; p < 4; p++) for (int i = 0; i < NNAMES; i++)
    {
        const Operator *op = ctx_lookup_op(ctx, names[i], p);
        if (!m[p][i].on) { CHECK(op == NULL, "operators: finds one that is not registered"); continue; }
        n++;
        CHECK(op == m[p][i].ptr, "operators: registered one is not found");
        CHECK(strcmp(op->name, names[i]) == 0 && op->placement == (OpPlacement)p && op->arity == m[p][i].arity, "operators: attributes changed");
        CHECK(op->precedence == m[p][i].prec && op->assoc == (OpAssociativity)m[p][i].assoc, "operators: precedence or associativity changed");
        CHECK(op->id == m[p][i].id, "operators: identifier changed");
        for (int q = 0; q < 4; q++) for (int j = 0; j < NNAMES; j++)
            if (m[q][j].on && (q != p || j != i)) CHECK(m[q][j].id != op->id, "operators: identifiers are not unique");
    }
    CHECK(list_count(&ctx->op_list) == n, "operators: wrong number");
    for (int i = 0; i < NNAMES; i++)
    {
        bool any = false;
        for (int p = 0; p < 4; p++) any |= m[p][i].on;
        CHECK(trie_contains(&ctx->keywords_trie, names[i], NULL) == any, "operators: name is (not) a keyword any more");
    }
    CHECK(ctx->glue_op == glue, "operators: glue operator changed");
    CHECK(ctx_lookup_op(ctx, "b", OP_PLACE_INFIX) == NULL && ctx_lookup_op(ctx, "", OP_PLACE_PREFIX) == NULL && ctx_lookup_op(ctx, "a b", OP_PLACE_FUNCTION) == NULL, "operators: finds one that never existed");
    /* registration order */
    unsigned last = 0;
    LinkedListIterator it = list_get_iterator(&ctx->op_list);
    Operator *op;
    while ((op = iterator_get_next((Iterator *)&it)) != NULL)
    {
        unsigned o = 0;
        for (int p = 0; p < 4; p++) for (int i = 0; i < NNAMES; i++) if (m[p][i].on && m[p][i].ptr == op) o = m[p][i].order;
        CHECK(o > last, "operators: list is out of order");
        last = o;
    }
}
static bool has_conflict(unsigned prec, unsigned assoc)
{
    for (int i = 0; i < NNAMES; i++) if (m[1][i].on && m[1][i].prec == prec && m[1][i].assoc != assoc) return true;
    return false;
}
static void add(ParsingContext *ctx)
{
    unsigned p = symx_choose("placement", 4), i = symx_choose("name", NNAMES);
    Operator op;
    unsigned prec = 255, assoc = OP_ASSOC_LEFT;
    size_t arity = 1;
    if (p != OP_PLACE_FUNCTION) prec = symx_byte("precedence");
    if (p == OP_PLACE_INFIX) { arity = 2; assoc = symx_range("associativity", 0, 1); op = op_get_infix(names[i], prec, assoc); }
    else if (p == OP_PLACE_PREFIX) { op = op_get_prefix(names[i], prec); assoc = op.assoc; }
    else if (p == OP_PLACE_POSTFIX) { op = op_get_postfix(names[i], prec); assoc = op.assoc; }
    else { arity = symx_choose("arity", 2) ? OP_DYNAMIC_ARITY : 2; op = op_get_function(names[i], arity); prec = op.precedence; assoc = op.assoc; }
    bool refuse = m[p][i].on || (p == OP_PLACE_INFIX && has_conflict(prec, assoc));
    uint64_t live = symx_live_heap();
    const Operator *r = ctx_add_op(ctx, op);
    CHECK((r == NULL) == refuse, refuse ? "operators: ambiguous operator is accepted" : "operators: operator is refused");
    if (refuse) { CHECK(symx_live_heap() == live, "operators: refused one leaves something behind"); symx_reach("refused"); return; }
    m[p][i] = (Ent){true, prec, assoc, arity, r, r->id, ++clock_};
    symx_reach("added");
}
static void step(ParsingContext *ctx)
{
    switch (symx_choose("do", 3))
    {
    case 0: add(ctx); break;
    case 1:
    {
        unsigned p = symx_choose("placement", 4), i = symx_choose("name", NNAMES);
        bool on = m[p][i].on;
        CHECK(ctx_delete_op(ctx, names[i], p) == on, "operators: deleting reports a wrong result");
        if (on) { if (glue == m[p][i].ptr) glue = NULL; m[p][i].on = false; symx_reach("deleted"); }
        break;
    }
    default:
    {
        unsigned p = symx_choose("placement", 4), i = symx_choose("name", NNAMES);
        const Operator *op = m[p][i].on ? m[p][i].ptr : NULL;
        bool ok = op == NULL || op->arity == 2 || op->arity == OP_DYNAMIC_ARITY;
        CHECK(ctx_set_glue_op(ctx, op) == ok, "operators: glue operator with a wrong arity");
        if (ok) glue = op;
        if (ok && op) symx_reach("glue");
    }
    }
    verify(ctx);
}
void symx_main(void)
{
    symx_budget(30000000);
    uint64_t live = symx_live_heap();
#if MODE == 0
    ParsingContext ctx = ctx_create();
    verify(&ctx);
    /* something to delete */
    for (int i = 0; i < PRE; i++) { add(&ctx); }
    verify(&ctx);
    for (int s = 0; s < STEPS; s++) step(&ctx);
    ctx_destroy(&ctx);
    CHECK(symx_live_heap() == live, "operators: memory is not released");
#else
    /* the calculator's own table: every operator stays reachable when others come and go */
    ParsingContext ctx = get_arith_ctx();
    char name[4];
    unsigned len = symx_range("len", 1, LEN);
    static const char set[] = "sincoC+-!";
    for (unsigned i = 0; i < len; i++)
    {
        char c = (char)symx_byte("c");
        bool in = false;
        for (int k = 0; set[k]; k++) in |= c == set[k];
        symx_assume(in);
        name[i] = c;
    }
    name[len] = 0;
    unsigned p = symx_choose("placement", 4);
    Operator op = p == 0 ? op_get_prefix(name, 9) : p == 1 ? op_get_infix(name, symx_byte("precedence"), OP_ASSOC_RIGHT) : p == 2 ? op_get_postfix(name, 9) : op_get_function(name, 1);
    Operator before[64]; const Operator *ptr[64]; size_t n = 0;
    bool clash = false, assoc = false;
    LinkedListIterator it = list_get_iterator(&ctx.op_list);
    Operator *o;
    while ((o = iterator_get_next((Iterator *)&it)) != NULL)
    {
        CHECK(n < 64 && o->id == n, "operators: identifiers are not in order");
        ptr[n] = o; before[n++] = *o;
        if (o->placement == (OpPlacement)p && strcmp(o->name, name) == 0) clash = true;
        if (p == 1 && o->placement == OP_PLACE_INFIX && o->precedence == op.precedence && o->assoc != op.assoc) assoc = true;
    }
    const Operator *r = ctx_add_op(&ctx, op);
    CHECK((r == NULL) == (clash || assoc), "operators: wrong decision about a further operator");
    symx_reach(r ? "added" : "refused");
    if (r) CHECK(r->id == n, "operators: identifier is not new");
    for (int round = 0; round < 2; round++)
    {
        for (size_t i = 0; i < n; i++)
        {
            CHECK(ctx_lookup_op(&ctx, before[i].name, before[i].placement) == ptr[i], "operators: one got lost");
            CHECK(ptr[i]->id == before[i].id && ptr[i]->arity == before[i].arity && ptr[i]->precedence == before[i].precedence && ptr[i]->assoc == before[i].assoc && ptr[i]->placement == before[i].placement && ptr[i]->name == before[i].name, "operators: one changed");
            CHECK(trie_contains(&ctx.keywords_trie, before[i].name, NULL), "operators: keyword got lost");
        }
        CHECK(ctx_lookup_op(&ctx, name, p) == (r ? r : clash ? ctx_lookup_op(&ctx, name, p) : NULL), "operators: wrong further operator");
        if (!r) break;
        CHECK(ctx_delete_op(&ctx, name, p), "operators: further operator is not deleted");
        r = NULL;
    }
    ctx_destroy(&ctx);
    CHECK(symx_live_heap() == live, "operators: memory is not released");
#endif
}
