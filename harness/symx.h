/* Interface between the harnesses and the executor (or, natively, the replay runtime). */
#ifndef SYMX_H
#define SYMX_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>

/* symbolic inputs */
uint8_t  symx_byte(const char *name);                              /* any byte */
uint32_t symx_u32(const char *name);
uint64_t symx_u64(const char *name);
double   symx_double(const char *name);                            /* any bit pattern */
unsigned symx_range(const char *name, unsigned lo, unsigned hi);   /* lo..hi, stays symbolic (hi <= 255) */
unsigned symx_choose(const char *name, unsigned n);                /* 0..n-1, one path each */

void symx_assume(int cond);
void symx_assert(int cond, const char *msg);
void symx_fail(const char *msg);
void symx_discard(void);
void symx_reach(const char *label);                 /* vacuity witness */
void symx_observe(uint64_t v);                      /* compared between executor and native run */
void symx_observe_double(double d);
uint64_t symx_concretize(uint64_t v);
int symx_is_symbolic(uint64_t v);
uint64_t symx_live_heap(void);                      /* live heap blocks */
void symx_budget(uint64_t instructions);            /* termination bound for what follows (0: none) */
void symx_exit_ok(int ok);                          /* may exit() be called from here on? */
void symx_on_exit(void (*h)(int code));             /* called by exit() after the handlers */
void symx_run_atexit(void);
void symx_exit(int code);
void symx_dump(const char *s);
void symx_opaque_numbers(int on);                   /* printing a symbolic number gives a stand-in text */

/* reals: handles of exact real terms (natively: doubles) */
typedef uint64_t real;
real symx_rvar(const char *name);
real symx_rconst(double d);
real symx_radd(real a, real b);
real symx_rmul(real a, real b);
real symx_rdiv(real a, real b);
real symx_rpow(real a, real b);
real symx_ruf(const char *fn, real a);
void symx_rassume_lt(real a, real b);
void symx_rassume_ne(real a, real b);
int  symx_rsame(real a, real b);                      /* the same term */
real symx_rmin(real a, real b);
real symx_rmax(real a, real b);
int  symx_rcheck_ne(real a, real b, const char *msg);
int  symx_rcheck_lt(real a, real b, const char *msg);
int  symx_rcheck_eq(real a, real b, const char *msg);  /* 1 proved, 0 refuted, 2 undecided */

/* environment: virtual files, captured output */
void symx_file(const char *path, const char *data, size_t len);
void symx_stdin(const char *data, size_t len);
const char *symx_stdout(void);                      /* everything printed so far */
const char *symx_stderr(void);
size_t symx_stdout_len(void);
size_t symx_stderr_len(void);
void symx_output_reset(void);
int  symx_open_files(void);                         /* virtual files opened and not closed */
void symx_isatty(int v);

#define CHECK(c, msg) symx_assert((c) ? 1 : 0, msg)
#endif
