/* C19: a failed command changes nothing. Two sessions: one with the failing commands, one without; every probe answers the same. */
#include "symx.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "commands.h"
#include "console_util.h"
#include "arith_context.h"
#include "linked_list.h"
#include "ruleset.inc"
static char t[200];
static bool line(const char *l) { strcpy(t, l); return exec_command(t); }
static uint8_t any(void)
{
#if STEPS > 1
    static const char few[] = "x1( ";
    return few[symx_choose("c", 4)];
#endif
    uint8_t b = symx_byte("c"); symx_assume(b != 0 && b != '\n'); return b; }
static void fill(const char *tpl, char *out)
{
    size_t n = 0;
    for (; *tpl; tpl++) out[n++] = *tpl == '?' ? (char)any() : *tpl;
    out[n] = 0;
}
static void before(void)
{
    line("f(x)=x^2+1");
    line("g(x,y)=f(x)-y");
    line("c=7");
    line("h=c+1");
    line("3");
    line("1/4");
}
/* what a user can ask for afterwards; each may be the first */
static const char *const probe[] = {"f(3)", "g(3,c)", "c", "h+0", "ans", "@1", "@2", "f(x)", "k(2)", "k", "k=5", "k(x)=2x", "f(x)=x", "c=8", "clear f", "clear k", "clear", "x+0", "x*1", "(x^3)'", "2C3", "help operators", "table f(x);1;2;1", "load cf", "g(x,y)=f(x)", "x=2", "sin(0)", "k l", "f 2", "load simplification gf", "y+y"};
#define NPROBE (sizeof probe / sizeof *probe)
#define OUTSZ 30000
static char answer[NPROBE][OUTSZ]; static size_t nanswer[NPROBE]; static bool rc[NPROBE];
static const char conf[] = "w=3\nw+1\n";
static const char bad1[] = "RULESET\nx -> y\n";
static const char bad2[] = "RULESET\nx+0 -> 0 + x\nRULESET\nx*1 -> (\n";
static const char bad3[] = "x -> 1\nx*1 WHERE -> y\n";
static const char good[] = "RULESET\nx+0 -> x\nRULESET\nRULESET\nRULESET\nRULESET\nRULESET\nRULESET\n";
static const char *const failing[] = {
    "f(x)=?", "f(x)=x+?", "f(x)=f(x)?", "f(?)=x", "f(x,?)=x", "f(x,x)=?", "f(x)=1/0?", "f(x)=(?", "f=?", "f(x)=y?", "c=?", "c=c?", "c=1/0?", "c(?)=x", "c(x)=c?", "k(x)=?", "k(x)=y?", "k(?)=y", "k=?", "k(x)=k(?)", "k(x,x)=?", "k(1)=?", "k(x)?=1", "?k=1", "h=h?", "g(x)=g(x,?)", "sin(x)=?", "sum(?)=x", "e=?", "?(x)=x", "f?x)=1", "f(x=?", "k(f(x))=?", "k(c)=?", "f(c)=?", "f(f)=?", "k k=?", "?=", "=?", "k=x'?",
    "1/0?", "?/0", "@9?", "@?", "2+?", "f(?)", "f(1,?)", "(?", "x y?", "k(?)", "deriv(x?,2)", "x'?", "0^?", "root(?,2)", "ans(?)", "f(1/?)", "[?", "sum?", "?",
    "clear ?", "clear k?", "clear sin?", "clear f?", "clear?", "load ?", "load simplification ?", "load simplification bad?", "load simplification cf?", "table ?", "table x;?;2;1", "table x;1;2;?", "table x;1;2;1 fold ?;0", "table x;1;2;1 fold z;?", "table x;1;2;1 fold x;?", "table ?;1;2;1", "table x+y;?;2;1", "table k(?);1;2;1",
};
#ifdef VOCAB
static const char *const vocab[] = {"f", "c", "k", "x", "2", "(", ")", ",", "=", "+", "/0", "'", "@", "ans", "y", ";", "table ", "clear ", "(x)", "f(x)=", "k="};
#endif
static size_t size_of_op(void)
{
    LinkedListIterator it = list_get_iterator(&g_ctx->op_list);
    size_t n = 0;
    while (iterator_get_next((Iterator *)&it)) n++;
    return n;
}
static void files(void)
{
    symx_file("cf", conf, sizeof conf - 1);
    symx_file("bad1", bad1, sizeof bad1 - 1);
    symx_file("bad2", bad2, sizeof bad2 - 1);
    symx_file("bad3", bad3, sizeof bad3 - 1);
    symx_file("gf", good, sizeof good - 1);
#if RULES
    symx_file("./simplification.ruleset", ruleset_data, ruleset_len);
#endif
}
static void open_session(void) { init_commands(); set_interactive(true); before(); }
void symx_main(void)
{
    symx_budget(200000000);
    symx_opaque_numbers(1);
    files();
    /* the session without the failed commands */
    for (size_t i = 0; i < NPROBE; i++)
    {
        symx_budget(2000000000);
        open_session();
        symx_output_reset();
        rc[i] = line(probe[i]);
        nanswer[i] = symx_stdout_len();
        if (nanswer[i] > OUTSZ) symx_discard();
        memcpy(answer[i], symx_stdout(), nanswer[i]);
        unload_commands();
    }
    symx_budget(2000000000);
    open_session();
    symx_budget(100000000);
    size_t ops = size_of_op();
    for (int i = 0; i < STEPS; i++)
    {
#ifdef VOCAB
        t[0] = 0;
        unsigned n = 1 + symx_choose("length", LEN);
        for (unsigned j = 0; j < n; j++) strcat(t, vocab[symx_choose("word", sizeof vocab / sizeof *vocab)]);
#else
        fill(failing[symx_choose("template", sizeof failing / sizeof *failing)], t);
#endif
        if (exec_command(t)) symx_discard();
    }
    symx_reach("failed");
    CHECK(size_of_op() == ops, "failed command: an operator appeared or vanished");
    /* cheap questions first, all of them; they add to the history only at the end */
    unsigned p = symx_choose("probe", NPROBE);
    symx_output_reset();
    bool r = line(probe[p]);
    size_t n = symx_stdout_len();
    CHECK(r == rc[p], "failed command: a later command succeeds or fails differently");
    CHECK(n == nanswer[p] && memcmp(symx_stdout(), answer[p], n) == 0, "failed command: a later command answers differently");
    symx_reach("probed");
}
