/* C21: switches and exit codes. main is compared with its documentation; what a single command prints is taken from exec_command. */
#include "symx.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "commands.h"
#include "console_util.h"
int ccalc_main(int argc, char **argv);
#define SZ 20000
typedef struct { char s[SZ]; size_t n; } Text;
static Text help, version, banner, out, err; static int want_code;
static uint64_t live;
static void put(Text *t, const char *s, size_t n) { if (t->n + n >= SZ) symx_discard(); memcpy(t->s + t->n, s, n); t->n += n; t->s[t->n] = 0; }
static void take(void) { put(&out, symx_stdout(), symx_stdout_len()); put(&err, symx_stderr(), symx_stderr_len()); symx_output_reset(); }
static bool same(const Text *t, const char *s, size_t n) { return t->n == n && memcmp(t->s, s, n) == 0; }
static int args; static char *argv[8]; static char argbuf[8][40];
static const char *in; static size_t nin; static int tty;
static int failed_at;
static bool is(const char *a, const char *s, const char *l) { return strcmp(a, s) == 0 || strcmp(a, l) == 0; }
/* what is to happen */
enum { UNKNOWN, HELP, VERSION, RUN };
static int kind;
static void expected(void)
{
    bool i = false, q = false, h = false, v = false;
    int c = -1;
    out.n = err.n = 0; out.s[0] = err.s[0] = 0;
    failed_at = 0;
    for (int k = 1; k < args; k++)
    {
        const char *a = argv[k];
        if (is(a, "-c", "--commands")) { c = k; break; }
        if (is(a, "-i", "--interactive")) i = true;
        else if (is(a, "-q", "--quiet")) q = true;
        else if (is(a, "-h", "--help")) h = true;
        else if (is(a, "-v", "--version")) v = true;
        else { kind = UNKNOWN; want_code = EXIT_FAILURE; return; }
    }
    want_code = EXIT_SUCCESS;
    if (h) { kind = HELP; return; }
    if (v) { kind = VERSION; return; }
    kind = RUN;
    if ((i || c == -1) && !q && tty) put(&out, banner.s, banner.n);
    symx_output_reset();
    init_commands();
    take();
    bool ok = true;
    if (c != -1)
    {
        for (int k = c + 1; k < args && ok; k++)
        {
            char t[64];
            strcpy(t, argv[k]);
            ok = exec_command(t);
            if (!ok) failed_at = k - c;
        }
        take();
        if (!ok) want_code = EXIT_FAILURE;
        if (!ok || !i) { unload_commands(); return; }
    }
    set_interactive(tty);
    size_t p = 0;
    bool quit = false;
    while (p < nin && !quit)
    {
        char t[64];
        size_t n = 0;
        while (p < nin && in[p] != '\n') t[n++] = in[p++];
        p++;
        t[n] = 0;
        quit = strcmp(t, "quit") == 0;
        if (quit || t[0] == 0 || t[0] == '#') continue;
        if (!exec_command(t)) want_code = EXIT_FAILURE;
    }
    if (!quit && tty) printf("\n");
    take();
    unload_commands();
}
static void judge(int code)
{
    const char *so = symx_stdout(), *se = symx_stderr();
    size_t no = symx_stdout_len(), ne = symx_stderr_len();
    CHECK((code == 0) == (want_code == EXIT_SUCCESS), "main: exit status is wrong");
    if (kind == UNKNOWN)
    {
        CHECK(no == 0, "main: unknown switch, but something was done");
        CHECK(ne > 0, "main: unknown switch without a message");
        symx_reach("unknown switch");
        return;
    }
    if (kind == HELP) { CHECK(same(&help, so, no) && ne == 0, "main: help is not just help"); symx_reach("help"); return; }
    if (kind == VERSION) { CHECK(same(&version, so, no) && ne == 0, "main: version is not just the version"); symx_reach("version"); return; }
    CHECK(same(&out, so, no), "main: wrong commands executed or wrong output");
    CHECK(ne >= err.n && memcmp(se, err.s, err.n) == 0, "main: wrong messages");
    if (failed_at)
    {
        char num[12];
        snprintf(num, sizeof num, "%d", failed_at);
        CHECK(ne > err.n && strstr(se + err.n, num) != NULL, "main: does not say which command failed");
        symx_reach("argument failed");
    }
    else CHECK(ne == err.n, "main: additional messages");
    if (code) symx_reach("failure"); else symx_reach("success");
}
static void ended(int code) { judge(code); symx_reach("quit"); }
static int run(int n, char **a, const char *input, size_t len, int t)
{
    symx_stdin(input, len);
    symx_isatty(t);
    symx_output_reset();
    return ccalc_main(n, a);
}
static void record(Text *t) { t->n = 0; put(t, symx_stdout(), symx_stdout_len()); }
#define IN(s) {s, sizeof(s) - 1}
static const struct { const char *s; size_t n; } input[] = {IN(""), IN("1+2\n"), IN("1/0\nc\n"), IN("c\nquit\nc=1\n"), IN("2+\nquit"), IN("# 1/0\n\n3\n \nd=c\nd"), IN("quit\n1/0"), IN("load f\nc"), IN("c=2\r\nquit \n"), IN("quit=1\n#quit\n\nquit\n\n"), IN("load none\nquit\n"), IN("\n\n\n")};
#ifndef WORDS
static const char *const arg[] = {"-i", "-q", "-h", "-v", "-c", "--interactive", "--quiet", "--help", "--version", "--commands", "1+2", "1/0", "c=2"};
#else
static const char *const arg[] = {"-i", "-c", "1+2", "1/0", "c=2", "c", "2+", "-h", "", "load f", "load none", "quit", "-1", "#1"};
#endif
static const char *const odd[] = {"-?", "?", "--?", "-?i", "-c?", "--h?lp", "--hel?", "--help?", "??", "--?ersion", "-", "--", "", "-ic", "-Q", "help", "--commands=1"};
static const char file[] = "c=4\n1/0\n5\n";
void symx_main(void)
{
    symx_budget(60000000);
    live = symx_live_heap();
    static char *a0[2] = {"ccalc", NULL};
    a0[1] = "-h"; run(2, a0, "", 0, 1); record(&help);
    CHECK(strstr(help.s, "--help") && strstr(help.s, "--version") && strstr(help.s, "--interactive") && strstr(help.s, "--quiet") && strstr(help.s, "--commands"), "main: help does not list the switches");
    a0[1] = "-v"; run(2, a0, "", 0, 1); record(&version);
    CHECK(strstr(version.s, "ccalc") && strstr(version.s, "1."), "main: version does not say the version");
    run(1, a0, "", 0, 1); record(&banner);
    symx_run_atexit();
    if (banner.n) banner.n--;
    banner.s[banner.n] = 0;
    CHECK(banner.n > 0 && memcmp(banner.s, version.s, version.n) == 0, "main: no welcome");
    symx_file("f", file, sizeof file - 1);
    tty = symx_choose("tty", 2);
    args = 1;
    argv[0] = "ccalc";
    int n = symx_choose("arguments", ARGS + 1);
#if ODD
    int at = symx_choose("odd at", n + 1);
#endif
    for (int i = 0; i < n; i++)
    {
#if ODD
        if (i == at)
        {
            const char *s = odd[symx_choose("odd", sizeof odd / sizeof *odd)];
            int k = 0;
            for (; *s; s++) { argbuf[args][k++] = *s; if (*s == '?') { uint8_t b = symx_byte("c"); symx_assume(b != 0); argbuf[args][k - 1] = (char)b; } }
            argbuf[args][k] = 0;
        }
        else
#endif
        strcpy(argbuf[args], arg[symx_choose("argument", sizeof arg / sizeof *arg)]);
        argv[args] = argbuf[args];
        args++;
    }
    argv[args] = NULL;
    unsigned k = symx_choose("input", INPUTS);
    in = input[k].s; nin = input[k].n;
    expected();
    symx_exit_ok(1);
    symx_on_exit(ended);
    static char copy[8][40];
    static char *given[8];
    for (int i = 0; i < args; i++) { strcpy(copy[i], argv[i]); given[i] = copy[i]; }
    int code = run(args, given, in, nin, tty);
    judge(code);
    symx_run_atexit();
    CHECK(symx_live_heap() == live, "main: memory not released");
}
