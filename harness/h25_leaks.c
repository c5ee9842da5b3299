/* C25: every block is released, and commands that add nothing leave the heap as it was. */
#include "symx.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "commands.h"
#include "console_util.h"
#include "ruleset.inc"
#include "cmd_lists.h"
static char t[200];
static const char conf[] = "d=3\n\n# comment\nq(x)=x\n1/0\n5";
static const char bad[] = "RULESET\nx -> y\nx\n";
static const char good[] = "RULESET\nx+0 -> x\nRULESET\nRULESET\nRULESET\nRULESET\nRULESET\nRULESET\n";
static const char bad2[] = "RULESET\nx+0 -> x\nRULESET\nx*1 -> x WHERE x\nx/1 -> (\n";
static uint8_t any(void) { uint8_t b = symx_byte("c"); symx_assume(b != 0 && b != '\n'); return b; }
static void fill(const char *tpl, char *out)
{
    size_t n = 0;
    for (; *tpl; tpl++) out[n++] = *tpl == '?' ? (char)any() : *tpl;
    out[n] = 0;
}
static void run(void)
{
    bool adds = strchr(t, '=') || strncmp(t, "load", 4) == 0 || strncmp(t, "clear", 5) == 0;
    uint64_t before = symx_live_heap();
    char *copy = malloc(strlen(t) + 1);
    strcpy(copy, t);
    bool ok = exec_command(copy);
    free(copy);
    uint64_t after = symx_live_heap();
    if (!ok) { CHECK(after == before, "leak: a failed command keeps memory"); symx_reach("failed"); }
    else if (!adds) { CHECK(after == before, "leak: a command that adds nothing keeps memory"); symx_reach("nothing added"); }
}
static void do_line(const char *l) { strcpy(t, l); run(); }
#ifdef VOCAB
static const char *const vocab[] = {"f", "c", "k", "x", "2", "(", ")", ",", "=", "+", "/0", "'", "sum", ";", "table ", "clear ", "(x)", "f(x)=", "k=", " fold ", "deriv("};
#endif
void symx_main(void)
{
    symx_budget(1000000000);
    symx_opaque_numbers(1);
    uint64_t live = symx_live_heap();
    symx_file("cf", conf, sizeof conf - 1);
    symx_file("bf", bad, sizeof bad - 1);
    symx_file("b2", bad2, sizeof bad2 - 1);
    symx_file("gf", good, sizeof good - 1);
#if RULES
    symx_file("./simplification.ruleset", ruleset_data, ruleset_len);
#endif
    init_commands();
    do_line("f(x)=x^2+1"); do_line("g(x,y)=f(x)-y"); do_line("c=7"); do_line("h=c"); do_line("3"); do_line("1/4");
    set_interactive(INTER);
#if MODE == 0
    fill(one[symx_choose("template", sizeof one / sizeof *one)], t);
    run();
#elif MODE == 1
    for (int i = 0; i < STEPS; i++)
    {
        if (i + 1 < STEPS) strcpy(t, change[symx_choose("change", sizeof change / sizeof *change)]);
        else strcpy(t, nasty[symx_choose("command", sizeof nasty / sizeof *nasty)]);
        run();
    }
#elif MODE == 2
    t[0] = 0;
    unsigned n = 1 + symx_choose("length", LEN);
    for (unsigned j = 0; j < n; j++) strcat(t, vocab[symx_choose("word", sizeof vocab / sizeof *vocab)]);
    run();
#else
    /* rule files, replaced by others, good and bad */
    static const char *const l[] = {"load simplification gf", "load simplification bf", "load simplification b2", "load simplification cf", "load simplification none", "x+0", "k(x)=x+0", "clear", "load cf"};
    for (int i = 0; i < STEPS; i++) { strcpy(t, l[symx_choose("load", sizeof l / sizeof *l)]); run(); }
#endif
    CHECK(symx_open_files() == 0, "leak: a file is left open");
#if UNLOAD
    unload_commands();
    CHECK(symx_live_heap() == live, "leak: memory is not released at the end");
#endif
    symx_reach("end");
}
