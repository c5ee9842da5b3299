/* C07: ans and @i yield the results of earlier evaluations. */
#include "ref_session.h"
#include "ruleset.inc"
static char t[64];
void symx_main(void)
{
    symx_budget(60000000);
#if MODE == 0
    /* the store itself: any values, any index */
    init_history();
    uint64_t model[STEPS];
    unsigned n = symx_range("n", 0, STEPS);
    for (unsigned i = 0; i < n; i++) { double d = symx_double("v"); memcpy(&model[i], &d, 8); history_add(d); }
    uint64_t idx = symx_u64("index");
    double d = 0; uint64_t b;
    bool ok = history_get(idx, &d);
    CHECK(ok == (idx < n), "history: answers for a wrong index");
    if (ok)
    {
        memcpy(&b, &d, 8);
        bool same = false;
        for (unsigned i = 0; i < n; i++) if (idx == n - 1 - i) same = b == model[i];
        CHECK(same, "history: gives the wrong result");
        symx_reach("found");
    }
    else symx_reach("not found");
    unload_history();
#elif MODE == 1
    /* sessions */
    init_commands();
    rs_init();
    static const char *const tpl[] = {"3-7", "ans", "ans*ans-#", "@#", "@0-@1", "@-1", "1/0", "x+ans", "2+", "c=ans+1", "c", "clear c", "@(1/#)", "@(@0)", "@2.9", "help me", "a=@1", "4e9", "@ans", "0/5"};
    rs_set_hash = "0127";
    for (int s = 0; s < STEPS; s++)
    {
        rs_fill(tpl[symx_choose("step", sizeof tpl / sizeof *tpl)], t);
        if (rs_check(t)) symx_reach("accepted"); else symx_reach("refused");
    }
    double d;
    for (int i = 0; i < rs_nhist; i++) CHECK(history_get(i, &d) && rs_near(d, rs_hist[rs_nhist - 1 - i]), "history: remembered result is wrong");
    CHECK(!history_get(rs_nhist, &d), "history: too many results");
    rs_close();
    unload_commands();
#elif MODE == 4
    /* the operators @ and ans themselves, with any number as index */
    init_commands();
    uint64_t model[STEPS];
    unsigned n = symx_choose("n", STEPS + 1);
    for (unsigned i = 0; i < n; i++) { double d = symx_double("v"); memcpy(&model[i], &d, 8); history_add(d); }
    const Operator *at = ctx_lookup_op(g_ctx, "@", OP_PLACE_PREFIX), *last = ctx_lookup_op(g_ctx, "ans", OP_PLACE_FUNCTION);
    CHECK(at != NULL && last != NULL, "history: @ or ans is gone");
    double idx = symx_double("index"), d = 0;
    symx_assume(idx > -2147483648.0 && idx < 2147483647.0);
    ListenerError e = arith_op_evaluate(at, 1, &idx, &d);
    bool in = false;
    for (unsigned i = 0; i < n; i++)
        if (i == 0 ? idx > -1 && idx < 1 : idx >= i && idx < i + 1)
        {
            in = true;
            CHECK(e == LISTENERERR_SUCCESS, "history: a remembered result is not found");
            CHECK(memcmp(&d, &model[n - 1 - i], 8) == 0, "history: gives the wrong result");
            symx_reach("found");
        }
    if (!in) { CHECK(e == LISTENERERR_HISTORY_NOT_SET, "history: answers for a wrong index"); symx_reach("not found"); }
    e = arith_op_evaluate(last, 0, NULL, &d);
    CHECK(e == (n ? LISTENERERR_SUCCESS : LISTENERERR_HISTORY_NOT_SET), "history: ans");
    if (n) CHECK(memcmp(&d, &model[n - 1], 8) == 0, "history: ans is not the last result");
    unload_commands();
#elif MODE == 3
    symx_file("./simplification.ruleset", ruleset_data, ruleset_len);
    init_commands();
    rs_init();
    static const char *const tpl[] = {"3-7", "ans*#", "@0-@1", "1/0", "x+ans", "-@#", "ans'", "c=-ans", "c", "2^-#", "ans/-4"};
    rs_set_hash = "013";
    for (int s = 0; s < STEPS; s++)
    {
        int k = symx_choose("step", sizeof tpl / sizeof *tpl);
        rs_fill(tpl[k], t);
        if (k == 6) { strcpy(t, "(x^2)'"); exec_command(t); continue; }
        if (rs_check(t)) symx_reach("accepted"); else symx_reach("refused");
    }
    double d;
    for (int i = 0; i < rs_nhist; i++) CHECK(history_get(i, &d) && rs_near(d, rs_hist[rs_nhist - 1 - i]), "history: remembered result is wrong");
    CHECK(!history_get(rs_nhist, &d), "history: too many results");
    rs_close();
    unload_commands();
#else
    /* many results: growth of the store; also with a simplification and table folds in between */
    init_commands();
    rs_init();
    unsigned n = symx_choose("n", STEPS + 1);
    for (unsigned i = 0; i < n; i++) { snprintf(t, sizeof t, "%d-2", (int)i); rs_check(t); if (i % 3 == 1) rs_check("1/0"); if (i % 4 == 2) rs_check("x-2"); }
    strcpy(t, "@##"); rs_set_hash = "012";
    rs_fill("@##", t);
    if (rs_check(t)) symx_reach("accepted"); else symx_reach("refused");
    rs_check("@0"); rs_check("@1-ans");
    rs_close();
    unload_commands();
#endif
}
