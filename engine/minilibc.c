/* Model of the C library used inside the executor: virtual files, captured output, string
   functions and printf, written so that symbolic bytes flow through it. */
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <stdbool.h>
#include <sys/types.h>
#include "symx.h"

void *malloc(size_t); void free(void *); void *realloc(void *, size_t);
int symx_fmt_double(char *buf, size_t cap, const char *fmt, double d);

struct vfile { const char *path; char *data; size_t len; };
struct file { int kind; struct vfile *v; size_t pos; int eof; };     /* kind: 0 stdin, 1 stdout, 2 stderr, 3 virtual, 4 write */
static struct file f_in = {0}, f_out = {1}, f_err = {2};
typedef struct file FILE_;
FILE_ *stdin = &f_in, *stdout = &f_out, *stderr = &f_err;

#define OUTCAP (1 << 20)
static char *out_buf[2]; static size_t out_len[2], out_cap[2];
static struct vfile files[8]; static int nfiles; static struct vfile v_in;
static int open_files; static int tty;
static char nothing[1];
static int errno_;
int *__errno_location(void) { return &errno_; }

/* library buffers do not count as heap blocks of the program: they are globals of growing size */
static char pool0[4096], pool1[65536], pool2[1 << 20], pool3[4096], pool4[65536], pool5[1 << 20];
static void put(int which, char c)
{
    if (out_len[which] + 1 >= out_cap[which])
    {
        char *n; size_t cap;
        if (out_cap[which] == 0) { n = which ? pool3 : pool0; cap = sizeof pool0; }
        else if (out_cap[which] == sizeof pool0) { n = which ? pool4 : pool1; cap = sizeof pool1; }
        else if (out_cap[which] == sizeof pool1) { n = which ? pool5 : pool2; cap = sizeof pool2; }
        else return;
        for (size_t i = 0; i < out_len[which]; i++) n[i] = out_buf[which][i];
        out_buf[which] = n;
        out_cap[which] = cap;
    }
    out_buf[which][out_len[which]++] = c;
    out_buf[which][out_len[which]] = 0;
}
const char *symx_stdout(void) { return out_buf[0] ? out_buf[0] : nothing; }
const char *symx_stderr(void) { return out_buf[1] ? out_buf[1] : nothing; }
size_t symx_stdout_len(void) { return out_len[0]; }
size_t symx_stderr_len(void) { return out_len[1]; }
void symx_output_reset(void) { for (int i = 0; i < 2; i++) { out_len[i] = 0; if (out_buf[i]) out_buf[i][0] = 0; } }
void symx_file(const char *path, const char *data, size_t len)
{
    for (int i = 0; i < nfiles; i++)
    {
        const char *a = files[i].path, *b = path;
        while (*a && *a == *b) { a++; b++; }
        if (*a == *b) { files[i].data = (char *)data; files[i].len = len; return; }
    }
    files[nfiles].path = path; files[nfiles].data = (char *)data; files[nfiles].len = len; nfiles++;
}
void symx_stdin(const char *data, size_t len) { v_in.data = (char *)data; v_in.len = len; f_in.v = &v_in; f_in.pos = 0; f_in.eof = 0; }
int symx_open_files(void) { return open_files; }
void symx_isatty(int v) { tty = v; }
int isatty(int fd) { return tty; }

/* ---- strings */
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b)
{
    while (*a && *a == *b) { a++; b++; }
    return (unsigned char)*a < (unsigned char)*b ? -1 : (unsigned char)*a > (unsigned char)*b;
}
int strncmp(const char *a, const char *b, size_t n)
{
    for (; n; n--, a++, b++)
    {
        if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1;
        if (!*a) return 0;
    }
    return 0;
}
int memcmp(const void *x, const void *y, size_t n)
{
    const unsigned char *a = x, *b = y;
    for (; n; n--, a++, b++) if (*a != *b) return *a < *b ? -1 : 1;
    return 0;
}
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)); return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = s; for (; n; n--, p++) if (*p == (unsigned char)c) return (void *)p; return 0; }
char *strstr(const char *h, const char *n)
{
    for (;; h++)
    {
        size_t i = 0;
        while (n[i] && h[i] == n[i]) i++;
        if (!n[i]) return (char *)h;
        if (!*h) return 0;
    }
}
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : 0; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *r = malloc(n); for (size_t i = 0; i < n; i++) r[i] = s[i]; return r; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *r = malloc(n + 1); for (size_t i = 0; i < n; i++) r[i] = s[i]; r[n] = 0; return r; }
char *strerror(int e) { return "No such file or directory"; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isprint(int c) { return c >= 32 && c <= 126; }
int ispunct(int c) { return isprint(c) && c != 32 && !isalnum(c); }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
long strtol(const char *s, char **e, int base)
{
    const char *p = s; long v = 0; int neg = 0, any = 0;
    while (isspace(*p)) p++;
    if (*p == '-' || *p == '+') neg = *p++ == '-';
    for (; isdigit(*p); p++) { v = v * 10 + (*p - '0'); any = 1; }
    if (e) *e = (char *)(any ? p : s);
    return neg ? -v : v;
}
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
double strtod(const char *, char **);
double atof(const char *s) { return strtod(s, 0); }

long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long strtoul(const char *s, char **e, int b) { return (unsigned long)strtol(s, e, b); }
unsigned long strtoull(const char *s, char **e, int b) { return (unsigned long)strtol(s, e, b); }
long atol(const char *s) { return strtol(s, 0, 10); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isblank(int c) { return c == ' ' || c == 9; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isgraph(int c) { return c > 32 && c <= 126; }
char *strncat(char *d, const char *s, size_t n) { size_t k = strlen(d), i = 0; for (; i < n && s[i]; i++) d[k + i] = s[i]; d[k + i] = 0; return d; }
int strcasecmp(const char *a, const char *b)
{
    while (*a && tolower(*a) == tolower(*b)) { a++; b++; }
    return tolower((unsigned char)*a) - tolower((unsigned char)*b);
}
int strncasecmp(const char *a, const char *b, size_t n)
{
    for (; n; n--, a++, b++)
    {
        int d = tolower((unsigned char)*a) - tolower((unsigned char)*b);
        if (d || !*a) return d;
    }
    return 0;
}
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
char *strtok_r(char *s, const char *sep, char **save)
{
    if (!s) s = *save;
    s += strspn(s, sep);
    if (!*s) { *save = s; return 0; }
    char *r = s;
    s += strcspn(s, sep);
    if (*s) *s++ = 0;
    *save = s;
    return r;
}
char *strtok(char *s, const char *sep) { static char *save; return strtok_r(s, sep, &save); }
char *strsep(char **p, const char *sep)
{
    char *r = *p;
    if (!r) return 0;
    char *e = r + strcspn(r, sep);
    if (*e) { *e = 0; *p = e + 1; } else *p = 0;
    return r;
}
void *bsearch(const void *k, const void *b, size_t n, size_t w, int (*cmp)(const void *, const void *))
{
    size_t lo = 0, hi = n;
    while (lo < hi)
    {
        size_t mid = lo + (hi - lo) / 2; const char *p = (const char *)b + mid * w;
        int c = cmp(k, p);
        if (c == 0) return (void *)p;
        if (c < 0) hi = mid; else lo = mid + 1;
    }
    return 0;
}
double fmax(double a, double b) { return a != a ? b : b != b ? a : a < b ? b : a; }
double fmin(double a, double b) { return a != a ? b : b != b ? a : b < a ? b : a; }
double copysign(double a, double b) { union { double d; uint64_t u; } x, y; x.d = a; y.d = b; x.u = (x.u & ~(1ull << 63)) | (y.u & (1ull << 63)); return x.d; }
double round(double); double trunc(double);
long lround(double d) { return (long)round(d); }
long long llround(double d) { return (long long)round(d); }
double modf(double d, double *i) { *i = trunc(d); return d - *i; }

/* ---- sorting (insertion sort: same result for a total order) */
void qsort(void *b, size_t n, size_t w, int (*cmp)(const void *, const void *))
{
    char *a = b, t;
    for (size_t i = 1; i < n; i++)
        for (size_t j = i; j > 0 && cmp(a + (j - 1) * w, a + j * w) > 0; j--)
            for (size_t k = 0; k < w; k++) { t = a[(j - 1) * w + k]; a[(j - 1) * w + k] = a[j * w + k]; a[j * w + k] = t; }
}

/* ---- printf */
struct sink { int kind; char *buf; size_t cap, n; };
static void emit(struct sink *s, char c)
{
    if (s->kind == 3) { if (s->n + 1 < s->cap) s->buf[s->n] = c; }
    else if (s->kind == 1 || s->kind == 2) put(s->kind - 1, c);
    s->n++;
}
static int format(struct sink *s, const char *f, va_list ap)
{
    for (; *f; f++)
    {
        if (*f != '%') { emit(s, *f); continue; }
        const char *start = f;
        f++;
        bool left = false, zero = false, plus = false, space = false, alt = false;
        for (;; f++)
        {
            if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true;
            else if (*f == ' ') space = true; else if (*f == '#') alt = true; else break;
        }
        long width = 0, prec = -1;
        if (*f == '*') { width = va_arg(ap, int); f++; if (width < 0) { left = true; width = -width; } }
        else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        if (*f == '.')
        {
            f++;
            prec = 0;
            if (*f == '*') { prec = va_arg(ap, int); f++; if (prec < 0) prec = -1; }
            else
            {
                bool neg = false;
                if (*f == '-') { neg = true; f++; }      /* glibc: a negative precision counts as none */
                while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0');
                if (neg) prec = -1;
            }
        }
        int lng = 0;
        while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j' || *f == 't') { if (*f != 'h') lng = 1; f++; }
        char tmp[400];
        const char *txt = tmp; size_t len = 0; bool num = false;
        switch (*f)
        {
        case '%': emit(s, '%'); continue;
        case 'c': tmp[0] = (char)va_arg(ap, int); len = 1; break;
        case 's':
            txt = va_arg(ap, const char *);
            if (!txt) { txt = "(null)"; }
            if (left == false && width > 0 || left == false)
            {
                if (width == 0)
                {
                    for (size_t i = 0; (prec < 0 || i < (size_t)prec) && txt[i]; i++) emit(s, txt[i]);
                    continue;
                }
            }
            while ((prec < 0 || len < (size_t)prec) && txt[len]) len++;
            break;
        case 'd': case 'i':
        {
            long v = lng ? va_arg(ap, long) : va_arg(ap, int);
            unsigned long u = v < 0 ? 0ul - (unsigned long)v : (unsigned long)v;
            u = symx_concretize(u);
            char d[24]; int n = 0;
            do { d[n++] = '0' + u % 10; u /= 10; } while (u);
            while (n < prec) d[n++] = '0';
            if (v < 0) d[n++] = '-'; else if (plus) d[n++] = '+'; else if (space) d[n++] = ' ';
            while (n) tmp[len++] = d[--n];
            num = true;
            break;
        }
        case 'u': case 'x': case 'X':
        {
            unsigned long u = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
            u = symx_concretize(u);
            char d[24]; int n = 0; unsigned b = *f == 'u' ? 10 : 16;
            do { unsigned q = u % b; d[n++] = q < 10 ? '0' + q : (*f == 'x' ? 'a' : 'A') + q - 10; u /= b; } while (u);
            while (n < prec) d[n++] = '0';
            while (n) tmp[len++] = d[--n];
            num = true;
            break;
        }
        case 'g': case 'f': case 'e': case 'G': case 'F': case 'E':
        {
            char spec[24]; int n = 0;
            spec[n++] = '%';
            if (plus) spec[n++] = '+';
            if (space) spec[n++] = ' ';
            if (alt) spec[n++] = '#';
            if (prec >= 0) { spec[n++] = '.'; if (prec >= 100) prec = 99; if (prec >= 10) spec[n++] = '0' + prec / 10; spec[n++] = '0' + prec % 10; }
            spec[n++] = *f; spec[n] = 0;
            len = symx_fmt_double(tmp, sizeof tmp, spec, va_arg(ap, double));
            num = true;
            break;
        }
        default: symx_fail("minilibc: unsupported printf conversion"); return -1;
        }
        (void)start;
        size_t pad = (size_t)width > len ? width - len : 0;
        if (!left && !(zero && num)) for (size_t i = 0; i < pad; i++) emit(s, ' ');
        size_t i = 0;
        if (!left && zero && num)
        {
            if (len && (txt[0] == '-' || txt[0] == '+')) emit(s, txt[i++]);
            for (size_t k = 0; k < pad; k++) emit(s, '0');
        }
        for (; i < len; i++) emit(s, txt[i]);
        if (left) for (size_t k = 0; k < pad; k++) emit(s, ' ');
    }
    return (int)s->n;
}
int vsnprintf(char *buf, size_t cap, const char *f, va_list ap)
{
    struct sink s = {3, buf, cap, 0};
    int n = format(&s, f, ap);
    if (cap) buf[(size_t)n < cap ? (size_t)n : cap - 1] = 0;
    return n;
}
int snprintf(char *buf, size_t cap, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(buf, cap, f, ap); va_end(ap); return r; }
int vsprintf(char *buf, const char *f, va_list ap) { return vsnprintf(buf, (size_t)1 << 30, f, ap); }
int sprintf(char *buf, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(buf, (size_t)1 << 30, f, ap); va_end(ap); return r; }
int vfprintf(FILE_ *o, const char *f, va_list ap) { struct sink s = {o->kind, 0, 0, 0}; return format(&s, f, ap); }
int fprintf(FILE_ *o, const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(o, f, ap); va_end(ap); return r; }
int vprintf(const char *f, va_list ap) { return vfprintf(stdout, f, ap); }
int printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(stdout, f, ap); va_end(ap); return r; }
int fputs(const char *t, FILE_ *o) { for (; *t; t++) put(o->kind - 1, *t); return 1; }
int puts(const char *t) { fputs(t, stdout); put(0, '\n'); return 1; }
int fputc(int c, FILE_ *o) { put(o->kind - 1, (char)c); return (unsigned char)c; }
int putc(int c, FILE_ *o) { return fputc(c, o); }
int putchar(int c) { return fputc(c, stdout); }
int dprintf(int fd, const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(fd == 2 ? stderr : stdout, f, ap); va_end(ap); return r; }
int asprintf(char **out, const char *f, ...)
{
    va_list ap, aq; va_start(ap, f); va_copy(aq, ap);
    int n = vsnprintf(0, 0, f, ap);
    *out = malloc(n + 1);
    vsnprintf(*out, n + 1, f, aq);
    va_end(ap); va_end(aq);
    return n;
}
size_t fwrite(const void *p, size_t s, size_t n, FILE_ *o) { for (size_t i = 0; i < s * n; i++) put(o->kind - 1, ((const char *)p)[i]); return n; }
int fflush(FILE_ *o) { return 0; }
void perror(const char *s) { fprintf(stderr, "%s: error\n", s); }

/* ---- files */
FILE_ *fopen(const char *path, const char *mode)
{
    for (int i = 0; i < nfiles; i++)
        if (strcmp(files[i].path, path) == 0)
        {
            static FILE_ handles[64]; static int used;
            if (used == 64) symx_discard();
            FILE_ *f = &handles[used++];
            f->kind = 3; f->v = &files[i]; f->pos = 0; f->eof = 0;
            open_files++;
            return f;
        }
    errno_ = 2;
    return 0;
}
int fclose(FILE_ *f)
{
    if (!f) symx_fail("fclose(NULL)");
    if (f->kind == 3) { if (!f->v) symx_fail("file closed twice"); f->v = 0; open_files--; }
    return 0;
}
int fgetc(FILE_ *f)
{
    if (!f) symx_fail("read from NULL file");
    if (f->kind == 3 && !f->v) symx_fail("read from closed file");
    if (!f->v || f->pos >= f->v->len) { f->eof = 1; return -1; }
    return (unsigned char)f->v->data[f->pos++];
}
int ungetc(int c, FILE_ *f) { if (c < 0 || !f->pos) return -1; f->pos--; f->eof = 0; return c; }
size_t fread(void *p, size_t s, size_t n, FILE_ *f)
{
    size_t i = 0;
    for (; i < s * n; i++) { int c = fgetc(f); if (c < 0) break; ((char *)p)[i] = (char)c; }
    return s ? i / s : 0;
}
void rewind(FILE_ *f) { f->pos = 0; f->eof = 0; }
int getc(FILE_ *f) { return fgetc(f); }
int getchar(void) { return fgetc(stdin); }
int feof(FILE_ *f) { return f->eof; }
int ferror(FILE_ *f) { return 0; }
char *fgets(char *b, int n, FILE_ *f)
{
    int i = 0;
    while (i < n - 1) { int c = fgetc(f); if (c < 0) break; b[i++] = (char)c; if (c == '\n') break; }
    if (!i) return 0;
    b[i] = 0;
    return b;
}
ssize_t getdelim(char **line, size_t *cap, int delim, FILE_ *f)
{
    if (!f) symx_fail("getline on NULL file");
    if (f->kind == 3 && !f->v) symx_fail("getline on closed file");
    size_t n = 0;
    if (!*line || *cap == 0) { *cap = 120; *line = realloc(*line, 120); }
    for (;;)
    {
        if (!f->v || f->pos >= f->v->len) { f->eof = 1; break; }
        char c = f->v->data[f->pos++];
        if (n + 2 > *cap) { *cap *= 2; *line = realloc(*line, *cap); }
        (*line)[n++] = c;
        if (c == (char)delim) break;
    }
    if (n == 0) return -1;
    (*line)[n] = 0;
    return (ssize_t)n;
}
ssize_t __getdelim(char **line, size_t *cap, int delim, FILE_ *f) { return getdelim(line, cap, delim, f); }
ssize_t getline(char **line, size_t *cap, FILE_ *f) { return getdelim(line, cap, '\n', f); }

/* ---- process */
static void (*handlers[16])(void); static int nhandlers;
int atexit(void (*h)(void)) { handlers[nhandlers++] = h; return 0; }
static void (*on_exit_hook)(int);
void symx_on_exit(void (*h)(int)) { on_exit_hook = h; }
void exit(int code)
{
    while (nhandlers) handlers[--nhandlers]();
    if (on_exit_hook) on_exit_hook(code);
    symx_exit(code);
    for (;;) {}
}
void symx_run_atexit(void) { while (nhandlers) handlers[--nhandlers](); }
int rand(void) { return (int)(symx_u32("rand") & 0x7fffffff); }
void srand(unsigned s) { }
long time(long *t) { long v = (long)(symx_u32("time") & 0x7fffffff); if (t) *t = v; return v; }
