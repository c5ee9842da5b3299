/* C18: no command line crashes, corrupts memory, aborts or ends the session; failure always says why. */
#include "symx.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "commands.h"
#include "console_util.h"
#include "history.h"
#include "ruleset.inc"
#ifndef ALPHABET
#define ALPHABET 0
#endif
/* '#': any byte, '~': one of a few bytes of the grammar */
static uint8_t any(void)
{
    uint8_t b = symx_byte("c");
    symx_assume(b != 0 && b != '\n');
    return b;
}
static uint8_t some(void)
{
    static const char few[] = "(),[]=;'@!+-*/^. x1fc#\"";
    return few[symx_choose("t", sizeof few - 1)];
}
static void fill(const char *tpl, char *out)
{
    size_t n = 0;
    for (; *tpl; tpl++) out[n++] = *tpl == '?' ? (char)any() : *tpl == '~' ? (char)some() : *tpl;
    out[n] = 0;
}
static void run(char *line, bool loads)
{
    /* an exact-size block: reading beyond the line is seen */
    char *copy = malloc(strlen(line) + 1);
    strcpy(copy, line);
    symx_output_reset();
    bool ok = exec_command(copy);
    if (ok) symx_reach("succeeded"); else symx_reach("failed");
    if (!ok) CHECK(symx_stderr_len() > 0, "command: failure without a message");
    else if (!loads) CHECK(symx_stderr_len() == 0, "command: success, but an error message");
    free(copy);
}
static void do_line(const char *l) { char t[160]; strcpy(t, l); exec_command(t); }
static void used_session(void)
{
    do_line("f(x)=x^2+1");
    do_line("g(x,y)=f(x)-y");
    do_line("c=7");
    do_line("h=c");
    do_line("3");
    do_line("1/4");
}
static const char conf[] = "c=3\n\n# comment\nq(x)=x\n1/0\n5";
static const char bad[] = "RULESET\nx -> y\nx\n";
static const char good[] = "RULESET\nx+0 -> x\nRULESET\nRULESET\nRULESET\nRULESET\nRULESET\nRULESET\n";
static char t[200];
#ifndef LIST
#define LIST 0
#endif
/* templates for one command each */
#include "cmd_lists.h"
#ifdef VOCAB
static const char *const vocab[] = {"f", "c", "k", "x", "2", "(", ")", "[", "]", ",", "=", "+", "-", "/", "^", "'", "!", "@", "ans", "sum", "deriv", ";", " ", "table ", " fold ", "clear ", "sin", "mod"};
#define NVOCAB (sizeof vocab / sizeof *vocab)
#endif
void symx_main(void)
{
    symx_budget(60000000);
    symx_opaque_numbers(1);
    symx_file("cf", conf, sizeof conf - 1);
    symx_file("bf", bad, sizeof bad - 1);
    symx_file("gf", good, sizeof good - 1);
#if RULES
    symx_file("./simplification.ruleset", ruleset_data, ruleset_len);
#endif
    init_commands();
    bool loads = false;
#if MODE == 0
    /* any bytes at all, also through the input loop */
#if USED
    used_session();
#endif
    unsigned n = symx_choose("length", LEN + 1);
    for (unsigned i = 0; i < n; i++) t[i] = (char)any();
    t[n] = 0;
    set_interactive(INTER);
    run(t, false);
#elif MODE == 1
    used_session();
    set_interactive(symx_choose("interactive", 2));
    unsigned k = symx_choose("template", sizeof one / sizeof *one);
    fill(one[k], t);
    run(t, strncmp(one[k], "load", 4) == 0);
    /* and the session goes on */
    set_interactive(false);
    strcpy(t, "1+1"); run(t, false);
    strcpy(t, "help operators"); run(t, false);
    strcpy(t, "clear"); run(t, false);
#elif MODE == 2
    /* any sequence of words */
    used_session();
    t[0] = 0;
    unsigned n = 1 + symx_choose("length", LEN);
    for (unsigned i = 0; i < n; i++) strcat(t, vocab[symx_choose("word", NVOCAB)]);
    run(t, false);
#elif MODE == 3
    /* sequences of commands that are hard to digest */
    if (symx_choose("used", 2)) used_session();
    set_interactive(INTER);
    for (int i = 0; i < STEPS; i++)
    {
        /* all but the last come from the ones that may change something */
        if (i + 1 < STEPS) strcpy(t, change[symx_choose("change", sizeof change / sizeof *change)]);
        else strcpy(t, nasty[symx_choose("command", sizeof nasty / sizeof *nasty)]);
        run(t, strncmp(t, "load", 4) == 0);
    }
#else
    /* through the input loop: lines with any byte, with or without a newline at the end */
    used_session();
    static char in[64];
    size_t n = 0;
    unsigned lines = 1 + symx_choose("lines", 2);
    for (unsigned i = 0; i < lines; i++)
    {
        unsigned len = symx_choose("length", (i ? LEN : FIRST) + 1);
        for (unsigned j = 0; j < len; j++) in[n++] = (char)symx_byte("c");
        if (i + 1 < lines || symx_choose("newline", 2)) in[n++] = '\n';
    }
    symx_stdin(in, n);
    symx_output_reset();
    bool r = process_input(stdin);
    if (r) symx_reach("succeeded"); else symx_reach("failed");
    if (!r) CHECK(symx_stderr_len() > 0, "command: failure without a message");
    else CHECK(symx_stderr_len() == 0, "command: success, but an error message");
#endif
}
