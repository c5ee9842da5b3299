/* C22: loading a file equals typing its lines. */
#include "symx.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "commands.h"
#include "console_util.h"
#include "simplification.h"
#include "ruleset.inc"
#define SZ 20000
static char t[300];
static char out[SZ], err[SZ]; static size_t nout, nerr;
static char content[600]; static size_t n;
static const char nested[] = "# nested\nc=9\n\nc+1";
static const char rules[] = "RULESET\nx+0 -> x\nRULESET\nRULESET\nRULESET\nRULESET\nRULESET\nRULESET\n";
static const char badrules[] = "RULESET\nx+0 -> x\nx*1 -> \n";
static bool line(const char *l) { strcpy(t, l); return exec_command(t); }
static void before(void)
{
    line("f(x)=x+1");
    line("c=7");
    line("3");
    line("1/4");
}
static void after(void)
{
    static const char *const probe[] = {"f(3)", "c", "ans", "@1", "@2", "x+0", "k", "k(1)"};
    for (size_t i = 0; i < sizeof probe / sizeof *probe; i++) line(probe[i]);
}
static void take(void)
{
    nout = symx_stdout_len(); nerr = symx_stderr_len();
    if (nout > SZ || nerr > SZ) symx_discard();
    memcpy(out, symx_stdout(), nout);
    memcpy(err, symx_stderr(), nerr);
}
static void compare(void)
{
    CHECK(symx_stdout_len() == nout && memcmp(out, symx_stdout(), nout) == 0, "load: different output");
    CHECK(symx_stderr_len() == nerr && memcmp(err, symx_stderr(), nerr) == 0, "load: different messages");
}
static void quitted(int code) { compare(); symx_reach("quit"); }
/* the same lines, typed: true when one of them was quit */
static bool type(void)
{
    size_t p = 0;
    while (p < n)
    {
        char l[300];
        size_t k = 0;
        while (p < n && content[p] != '\n') l[k++] = content[p++];
        p++;
        l[k] = 0;
        if (strcmp(l, "quit") == 0) return true;
        if (l[0] == 0 || l[0] == '#') continue;
        exec_command(l);
    }
    return false;
}
static uint8_t any(void) { uint8_t b = symx_byte("c"); symx_assume(b != 0); return b; }
static const char *const lines[] = {"1+2", "f(x)=x?", "c=?", "", "#?1", " ", "?", "load nested", "load none", "f(?)", "load simplification rf", "load simplification bf", "x+0", "clear", "table x;1;2;1", "quit", "quit ", " #1", "ans+1", "k(x)=f(x)",
    "1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1"};
void symx_main(void)
{
    symx_budget(100000000);
    symx_opaque_numbers(1);
    uint64_t live = symx_live_heap();
    symx_file("nested", nested, sizeof nested - 1);
    symx_file("rf", rules, sizeof rules - 1);
    symx_file("bf", badrules, sizeof badrules - 1);
    n = 0;
#if MODE == 0
    /* any bytes */
    unsigned len = symx_choose("length", LEN + 1);
    for (unsigned i = 0; i < len; i++) content[n++] = (char)any();
#elif MODE == 1
    /* lines of a script */
    unsigned k = symx_choose("lines", LINES + 1);
    for (unsigned i = 0; i < k; i++)
    {
        const char *s = lines[symx_choose("line", sizeof lines / sizeof *lines)];
        for (; *s; s++) { if (*s == '?') { static const char few[] = "1x(\n #"; uint8_t b = k > 2 ? (uint8_t)few[symx_choose("c", 6)] : any(); content[n++] = (char)b; } else content[n++] = *s; }
        if (i + 1 < k || symx_choose("newline", 2)) content[n++] = '\n';
    }
#endif
#if MODE < 2
    symx_file("script", content, n);
    init_commands();
    before();
    symx_output_reset();
    bool quit = type();
    if (!quit) after();
    take();
#if LEAKS
    unload_commands();
    CHECK(symx_live_heap() == live, "load: memory not released");
#else
    unload_simplification();
#endif
    init_commands();
    before();
    symx_output_reset();
    if (quit) { symx_exit_ok(1); symx_on_exit(quitted); }
    bool r = line("load script");
    CHECK(!quit, "load: quit in a file is ignored");
    CHECK(r, "load: reports failure for a readable file");
    CHECK(symx_open_files() == 0, "load: file left open");
    CHECK(!is_interactive(), "load: interactive mode changed");
    after();
    compare();
    symx_reach("same");
#if LEAKS
    unload_commands();
    CHECK(symx_live_heap() == live, "load: memory not released");
#endif
#else
    /* what can not be loaded; interactive mode survives */
    static const char *const what[] = {"load script", "load script ", "load  script", "load ", "load none", "load nested", "load simplification rf", "load simplification bf", "load simplification none", "load simplification ", "load simplification script", "load loop"};
    static const char script[] = "1/0\n2+\nf(x)=5\n";
    static const char loop[] = "load nested\nload loop2\n5", loop2[] = "load nested\n6\n";
    symx_file("script", script, sizeof script - 1);
    symx_file("loop", loop, sizeof loop - 1);
    symx_file("loop2", loop2, sizeof loop2 - 1);
    static const bool good[] = {1, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 1};
    init_commands();
    before();
    bool inter = symx_choose("interactive", 2);
    for (int i = 0; i < STEPS; i++)
    {
        unsigned k = symx_choose("what", sizeof what / sizeof *what);
        set_interactive(inter);
        symx_output_reset();
        bool r = line(what[k]);
        CHECK(r == good[k], "load: reports the wrong result");
        if (!r) CHECK(symx_stderr_len() > 0, "load: fails without a message");
        CHECK(is_interactive() == inter, "load: interactive mode changed");
        CHECK(symx_open_files() == 0, "load: file left open");
        if (r) symx_reach("loaded"); else symx_reach("refused");
    }
    unload_commands();
    CHECK(symx_live_heap() == live, "load: memory not released");
#endif
}
