/* Native runtime: the same harness, compiled with the real code and the real C library, runs on
   the concrete inputs the solver produced. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#include "symx.h"

static FILE *in; static FILE *tracef; static int exit_ok; static int finished;
static void bail(int rc, const char *what, const char *msg)
{
    if (tracef) { fprintf(tracef, "%s %s\n", what, msg); fflush(tracef); }
    _exit(rc);
}
static uint64_t next(const char *name)
{
    char nm[128], kind[8]; unsigned long long v;
    if (!in || fscanf(in, "%127s %7s %llu", nm, kind, &v) != 3) bail(78, "MISMATCH", "no more inputs");
    for (int i = 0; ; i++)
    {
        if (nm[i] != (name[i] == ' ' ? '_' : name[i])) bail(78, "MISMATCH", name);
        if (!nm[i]) break;
    }
    return v;
}
uint8_t symx_byte(const char *n) { return (uint8_t)next(n); }
uint32_t symx_u32(const char *n) { return (uint32_t)next(n); }
uint64_t symx_u64(const char *n) { return next(n); }
double symx_double(const char *n) { uint64_t v = next(n); double d; memcpy(&d, &v, 8); return d; }
unsigned symx_range(const char *n, unsigned lo, unsigned hi) { return (unsigned)next(n); }
unsigned symx_choose(const char *n, unsigned c) { return (unsigned)next(n); }
void symx_assume(int c) { if (!c) bail(79, "ASSUME", "assumption does not hold natively"); }
void symx_assert(int c, const char *m) { if (!c) bail(77, "ASSERT", m); }
void symx_fail(const char *m) { bail(77, "ASSERT", m); }
void symx_discard(void) { bail(79, "ASSUME", "discarded"); }
void symx_reach(const char *l) {}
void symx_observe(uint64_t v) { if (tracef) fprintf(tracef, "OBS %llu\n", (unsigned long long)v); }
void symx_observe_double(double d) { uint64_t v; memcpy(&v, &d, 8); if (d != d) v = 0x7ff8000000000000ull; symx_observe(v); }
uint64_t symx_concretize(uint64_t v) { return v; }
int symx_is_symbolic(uint64_t v) { return 0; }
void symx_budget(uint64_t n) {}
void symx_exit_ok(int ok) { exit_ok = ok; }
void symx_exit(int c) { finished = 1; bail(0, "END", "exit"); }
void symx_dump(const char *s) {}
void symx_opaque_numbers(int on) {}

static long long live;
#if defined(__SANITIZE_ADDRESS__) || defined(RT_MSAN)
int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void *, size_t), void (*f)(const volatile void *));
static void hm(const volatile void *p, size_t n) { live++; }
static void hf(const volatile void *p) { if (p) live--; }
#endif
uint64_t symx_live_heap(void) { return (uint64_t)live; }

typedef union { uint64_t u; double d; } rd;
real symx_rvar(const char *n) { return next(n); }
real symx_rconst(double d) { rd r; r.d = d; return r.u; }
real symx_radd(real a, real b) { rd x, y; x.u = a; y.u = b; x.d += y.d; return x.u; }
real symx_rmul(real a, real b) { rd x, y; x.u = a; y.u = b; x.d *= y.d; return x.u; }
int symx_rsame(real a, real b) { return a == b; }
real symx_rmin(real a, real b) { rd x, y; x.u = a; y.u = b; x.d = fmin(x.d, y.d); return x.u; }
real symx_rmax(real a, real b) { rd x, y; x.u = a; y.u = b; x.d = fmax(x.d, y.d); return x.u; }
real symx_rdiv(real a, real b) { rd x, y; x.u = a; y.u = b; x.d /= y.d; return x.u; }
real symx_rpow(real a, real b) { rd x, y; x.u = a; y.u = b; x.d = pow(x.d, y.d); return x.u; }
real symx_ruf(const char *f, real a)
{
    rd x; x.u = a;
    static const struct { const char *n; double (*f)(double); } t[] = {{"sin", sin}, {"cos", cos}, {"tan", tan}, {"exp", exp}, {"ln", log}, {"log", log10}, {"ld", log2}, {"asin", asin}, {"acos", acos}, {"atan", atan},
        {"sinh", sinh}, {"cosh", cosh}, {"tanh", tanh}, {"asinh", asinh}, {"acosh", acosh}, {"atanh", atanh}, {"sqrt", sqrt}, {"abs", fabs}, {"floor", floor}, {"ceil", ceil}};
    for (size_t i = 0; i < sizeof t / sizeof *t; i++) if (!strcmp(t[i].n, f)) { x.d = t[i].f(x.d); return x.u; }
    x.d = sin(x.d * 1.7 + strlen(f)) + 2.1; return x.u;
}
void symx_rassume_lt(real a, real b) { rd x, y; x.u = a; y.u = b; if (!(x.d < y.d)) bail(79, "ASSUME", "real order"); }
void symx_rassume_ne(real a, real b) { rd x, y; x.u = a; y.u = b; if (x.d == y.d) bail(79, "ASSUME", "real inequality"); }
int symx_rcheck_eq(real a, real b, const char *m)
{
    rd x, y; x.u = a; y.u = b;
    double s = fabs(x.d) + fabs(y.d) + 1e-9;
    if (isnan(x.d) || isinf(x.d)) bail(79, "ASSUME", "reference value undefined in doubles");
    if (!(fabs(x.d - y.d) <= 1e-7 * s)) { char buf[300]; snprintf(buf, sizeof buf, "%s (%.17g vs %.17g)", m, x.d, y.d); bail(77, "ASSERT", buf); }
    return 1;
}
int symx_rcheck_ne(real a, real b, const char *m)
{
    rd x, y; x.u = a; y.u = b;
    if (x.d == y.d) bail(77, "ASSERT", m);
    return 1;
}
int symx_rcheck_lt(real a, real b, const char *m)
{
    rd x, y; x.u = a; y.u = b;
    if (!(x.d < y.d)) bail(77, "ASSERT", m);
    return 1;
}

/* environment */
static char obuf[2][1 << 20]; static size_t olen[2];
static ssize_t w0(void *c, const char *b, size_t n) { size_t k = (size_t)c; for (size_t i = 0; i < n && olen[k] + 1 < sizeof obuf[0]; i++) obuf[k][olen[k]++] = b[i]; obuf[k][olen[k]] = 0; return n; }
const char *symx_stdout(void) { fflush(stdout); return obuf[0]; }
const char *symx_stderr(void) { fflush(stderr); return obuf[1]; }
size_t symx_stdout_len(void) { fflush(stdout); return olen[0]; }
size_t symx_stderr_len(void) { fflush(stderr); return olen[1]; }
void symx_output_reset(void) { fflush(stdout); fflush(stderr); olen[0] = olen[1] = 0; obuf[0][0] = obuf[1][0] = 0; }
static struct { const char *path, *data; size_t len; } files[8]; static int nfiles; static int open_files;
void symx_file(const char *path, const char *data, size_t len)
{
    int i = 0;
    for (; i < nfiles; i++) if (!strcmp(files[i].path, path)) break;
    if (i == nfiles) nfiles++;
    files[i].path = path; files[i].data = data; files[i].len = len;
}
static FILE *memfile(const char *d, size_t n) { FILE *f = tmpfile(); if (n && fwrite(d, 1, n, f) != n) abort(); rewind(f); return f; }
void symx_stdin(const char *d, size_t n) { long long l = live; stdin = memfile(d, n); live = l; }
static FILE *opened[64]; static int nopened;
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *path, const char *mode)
{
    for (int i = 0; i < nfiles; i++) if (!strcmp(files[i].path, path)) { long long l = live; FILE *f = memfile(files[i].data, files[i].len); live = l; open_files++; if (nopened < 64) opened[nopened++] = f; return f; }
    return NULL;
}
int __real_fclose(FILE *);
int __wrap_fclose(FILE *f)
{
    for (int i = 0; i < nopened; i++) if (opened[i] == f) { opened[i] = NULL; open_files--; long long l = live; int r = __real_fclose(f); live = l; return r; }
    return __real_fclose(f);
}
/* stdio allocates its own buffers lazily: they are the library's, not the program's */
ssize_t __real_getline(char **l, size_t *n, FILE *f);
ssize_t __wrap_getline(char **l, size_t *n, FILE *f)
{
    int c = fgetc(f);           /* forces the buffer into being */
    (void)c;
    if (c != EOF) ungetc(c, f);
    return __real_getline(l, n, f);
}
int symx_open_files(void) { return open_files; }
static int tty;
void symx_isatty(int v) { tty = v; }
int __wrap_isatty(int fd) { return tty; }
int __wrap_rand(void) { return (int)(symx_u32("rand") & 0x7fffffff); }
void __wrap_srand(unsigned s) {}
long __wrap_time(long *t) { long v = (long)(symx_u32("time") & 0x7fffffff); if (t) *t = v; return v; }
static void (*handlers[16])(void); static int nhandlers;
#ifdef RT_MSAN
void __real_exit(int);
/* MemorySanitizer registers handlers itself: let it */
#else
int __wrap_atexit(void (*h)(void)) { handlers[nhandlers++] = h; return 0; }
#endif
void symx_run_atexit(void) { while (nhandlers) handlers[--nhandlers](); }
static void (*on_exit_hook)(int);
void symx_on_exit(void (*h)(int)) { on_exit_hook = h; }
void __wrap_exit(int code)
{
    symx_run_atexit();
    if (on_exit_hook) on_exit_hook(code);
    if (!exit_ok) bail(76, "EXIT", "the program ended itself");
    bail(0, "END", "exit");
}

void symx_main(void);
int main(int argc, char **argv)
{
    in = __real_fopen(argv[1], "r");
    static char inbuf[1 << 16];
    setvbuf(in, inbuf, _IOFBF, sizeof inbuf);
    const char *t = argc > 2 ? argv[2] : NULL;
    if (t) tracef = __real_fopen(t, "w");
    if (tracef) setvbuf(tracef, malloc(1 << 16), _IOFBF, 1 << 16);
    cookie_io_functions_t io = {NULL, w0, NULL, NULL};
    FILE *o = fopencookie((void *)0, "w", io), *e = fopencookie((void *)1, "w", io);
    setvbuf(o, malloc(1 << 16), _IOFBF, 1 << 16);
    setvbuf(e, NULL, _IONBF, 0);
    stdout = o; stderr = e;
#if defined(__SANITIZE_ADDRESS__) || defined(RT_MSAN)
    __sanitizer_install_malloc_and_free_hooks(hm, hf);
#endif
    symx_main();
    bail(0, "END", "return");
}
