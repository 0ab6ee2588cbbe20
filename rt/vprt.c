// C library functions as seen by the symbolic executor (plain definitions; executed symbolically like any other code).
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
typedef struct vp_file {
    const unsigned char *p;
    size_t n, pos;
    int eof;
} vp_file;


size_t strlen(const char *s) {
    size_t n = 0;
    while (s[n]) n++;
    return n;
}
size_t strnlen(const char *s, size_t m) {
    size_t n = 0;
    while (n < m && s[n]) n++;
    return n;
}
int memcmp(const void *a, const void *b, size_t n) {
    const unsigned char *x = a, *y = b;
    for (size_t i = 0; i < n; i++)
        if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
int strcmp(const char *a, const char *b) {
    size_t i = 0;
    while (a[i] && a[i] == b[i]) i++;
    return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
}
int strncmp(const char *a, const char *b, size_t n) {
    for (size_t i = 0; i < n; i++) {
        if (a[i] != b[i]) return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
        if (!a[i]) return 0;
    }
    return 0;
}
static int lowc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char *a, const char *b) {
    size_t i = 0;
    while (a[i] && lowc((unsigned char)a[i]) == lowc((unsigned char)b[i])) i++;
    return lowc((unsigned char)a[i]) - lowc((unsigned char)b[i]);
}
void *memchr(const void *p, int c, size_t n) {
    const unsigned char *x = p;
    for (size_t i = 0; i < n; i++)
        if (x[i] == (unsigned char)c) return (void *)(x + i);
    return 0;
}
void *memrchr(const void *p, int c, size_t n) {
    const unsigned char *x = p;
    while (n--)
        if (x[n] == (unsigned char)c) return (void *)(x + n);
    return 0;
}
char *strchr(const char *s, int c) {
    for (;; s++) {
        if (*s == (char)c) return (char *)s;
        if (!*s) return 0;
    }
}
char *strrchr(const char *s, int c) {
    char *r = 0;
    for (;; s++) {
        if (*s == (char)c) r = (char *)s;
        if (!*s) return r;
    }
}
size_t strspn(const char *s, const char *a) {
    size_t n = 0;
    while (s[n] && strchr(a, s[n])) n++;
    return n;
}
size_t strcspn(const char *s, const char *a) {
    size_t n = 0;
    while (s[n] && !strchr(a, s[n])) n++;
    return n;
}
char *strcpy(char *d, const char *s) {
    size_t i = 0;
    do d[i] = s[i];
    while (s[i++]);
    return d;
}
char *stpcpy(char *d, const char *s) {
    size_t i = 0;
    for (;; i++) {
        d[i] = s[i];
        if (!s[i]) return d + i;
    }
}
char *strncpy(char *d, const char *s, size_t n) {
    size_t i = 0;
    for (; i < n && s[i]; i++) d[i] = s[i];
    for (; i < n; i++) d[i] = 0;
    return d;
}
char *strcat(char *d, const char *s) {
    strcpy(d + strlen(d), s);
    return d;
}
void *mempcpy(void *d, const void *s, size_t n) { return (char *)__builtin_memcpy(d, s, n) + n; }
void explicit_bzero(void *p, size_t n) {
    volatile unsigned char *q = p;
    while (n--) *q++ = 0;
}
int isxdigit(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int abs(int x) { return x < 0 ? -x : x; }

// ---- stdio streams over memory
void *vp_fopen_mem(const void *p, size_t n) {
    vp_file *f = malloc(sizeof(vp_file));
    f->p = p;
    f->n = n;
    f->pos = 0;
    f->eof = 0;
    return f;
}
int fclose(void *fp) {
    free(fp);
    return 0;
}
size_t fread(void *out, size_t sz, size_t cnt, void *fp) {
    vp_file *f = fp;
    size_t want = sz * cnt, have = f->n - f->pos;
    if (!want) return 0;
    if (have < want) {
        f->eof = 1;
        want = have;
    }
    __builtin_memcpy(out, f->p + f->pos, want);
    f->pos += want;
    return want / sz;
}
int fgetc(void *fp) {
    vp_file *f = fp;
    if (f->pos >= f->n) {
        f->eof = 1;
        return -1;
    }
    return f->p[f->pos++];
}
int getc(void *fp) { return fgetc(fp); }
int _IO_getc(void *fp) { return fgetc(fp); }
int feof(void *fp) { return ((vp_file *)fp)->eof; }
int ferror(void *fp) { return 0; }
int fseek(void *fp, long o, int w) {
    vp_file *f = fp;
    size_t b = w == 0 ? 0 : w == 1 ? f->pos : f->n;
    f->pos = b + o;
    f->eof = 0;
    return 0;
}
long ftell(void *fp) { return (long)((vp_file *)fp)->pos; }
void rewind(void *fp) { fseek(fp, 0, 0); }
void clearerr(void *fp) { ((vp_file *)fp)->eof = 0; }

// ---- formatted output: what the code under test uses (%[0][width][l|ll|h|hh|z]{x,X,u,d,c,s,%})
static int fmt(char *out, size_t cap, const char *f, va_list ap) {
    size_t o = 0;
#define PUT(c)                                                                                                         \
    do {                                                                                                               \
        if (o + 1 < cap) out[o] = (c);                                                                                 \
        o++;                                                                                                           \
    } while (0)
    for (; *f; f++) {
        if (*f != '%') {
            PUT(*f);
            continue;
        }
        f++;
        int zero = 0, width = 0, lng = 0, left = 0, shrt = 0, prec = -1;
        for (;; f++) {
            if (*f == '0') zero = 1;
            else if (*f == '-') left = 1;
            else break;
        }
        if (*f == '*') {
            width = va_arg(ap, int);
            f++;
        }
        while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        if (*f == '.') {
            f++;
            prec = 0;
            if (*f == '*') {
                prec = va_arg(ap, int);
                f++;
            }
            while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0');
            zero = 0;
        }
        while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j') {
            if (*f == 'h') shrt++;
            else lng = 1;
            f++;
        }
        char c = *f;
        if (c == '%') PUT('%');
        else if (c == 'c') PUT((char)va_arg(ap, int));
        else if (c == 's') {
            const char *s = va_arg(ap, const char *);
            int n = 0;
            while ((prec < 0 || n < prec) && s[n]) n++;
            for (int i = n; !left && i < width; i++) PUT(' ');
            for (int i = 0; i < n; i++) PUT(s[i]);
            for (int i = n; left && i < width; i++) PUT(' ');
        }
        else if (c == 'x' || c == 'X' || c == 'u' || c == 'd' || c == 'i') {
            unsigned long v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
            int neg = 0;
            if (shrt == 1) v = c == 'd' || c == 'i' ? (unsigned long)(long)(short)v : (unsigned short)v;
            if (shrt == 2) v = c == 'd' || c == 'i' ? (unsigned long)(long)(signed char)v : (unsigned char)v;
            if (c == 'd' || c == 'i') {
                long sv = lng || shrt ? (long)v : (long)(int)v;
                neg = sv < 0;
                v = neg ? -(unsigned long)sv : (unsigned long)sv;
            }
            unsigned base = c == 'x' || c == 'X' ? 16 : 10;
            if (base == 16 && zero && !left && width) { // fixed width: no branch on the digits' values
                int nd = width;
                while (nd < 16 && v >> (4 * nd)) nd++;
                while (nd--) {
                    unsigned d = (unsigned)(v >> (4 * nd)) & 15;
                    PUT((char)('0' + d + (((9 - (int)d) >> 31) & (c == 'X' ? 7 : 39))));
                }
                continue;
            }
            char b[24];
            int n = 0;
            do {
                unsigned d = (unsigned)(v % base);
                b[n++] = (char)(d < 10 ? '0' + d : (c == 'X' ? 'A' : 'a') + d - 10);
                v /= base;
            } while (v);
            while (n < prec && n < 24) b[n++] = '0';
            int tot = n + neg;
            if (!left && !zero)
                for (; tot < width; tot++) PUT(' ');
            if (neg) PUT('-');
            if (!left && zero)
                for (; tot < width; tot++) PUT('0');
            while (n) PUT(b[--n]);
            for (; tot < width; tot++) PUT(' ');
        }
        else
            abort();
    }
    if (cap) out[o < cap ? o : cap - 1] = 0;
    return (int)o;
}
int vsnprintf(char *o, size_t n, const char *f, va_list ap) { return fmt(o, n, f, ap); }
int vsprintf(char *o, const char *f, va_list ap) { return fmt(o, ~(size_t)0, f, ap); }
int snprintf(char *o, size_t n, const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    int r = fmt(o, n, f, ap);
    va_end(ap);
    return r;
}
int sprintf(char *o, const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    int r = fmt(o, ~(size_t)0, f, ap);
    va_end(ap);
    return r;
}
// standard output: kept in a buffer the harness can look at
char vp_stdout_buf[4096];
size_t vp_stdout_len;
int vprintf(const char *f, va_list ap) {
    int r = fmt(vp_stdout_buf + vp_stdout_len, sizeof vp_stdout_buf - vp_stdout_len, f, ap);
    vp_stdout_len += r;
    return r;
}
void vp_stdout_begin(void) { vp_stdout_len = 0; }
size_t vp_stdout_take(char *out, size_t cap) {
    for (size_t i = 0; i < cap && i < vp_stdout_len; i++) out[i] = vp_stdout_buf[i];
    return vp_stdout_len;
}
int printf(const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    int r = vprintf(f, ap);
    va_end(ap);
    return r;
}
int putchar(int c) {
    if (vp_stdout_len < sizeof vp_stdout_buf) vp_stdout_buf[vp_stdout_len++] = (char)c;
    return c;
}
int puts(const char *s) {
    while (*s) putchar(*s++);
    return putchar('\n');
}
static char vp_stdout_obj[8];
void *stdout = vp_stdout_obj, *stderr = vp_stdout_obj + 4;
int fputc(int c, void *fp) { return fp == stdout ? putchar(c) : c; }
int putc(int c, void *fp) { return fputc(c, fp); }
int fputs(const char *s, void *fp) {
    while (*s) fputc(*s++, fp);
    return 1;
}
size_t fwrite(const void *p, size_t sz, size_t cnt, void *fp) {
    for (size_t i = 0; i < sz * cnt; i++) fputc(((const unsigned char *)p)[i], fp);
    return cnt;
}
int vfprintf(void *fp, const char *f, va_list ap) { return fp == stdout ? vprintf(f, ap) : 0; }
int fprintf(void *fp, const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    int r = vfprintf(fp, f, ap);
    va_end(ap);
    return r;
}
int fflush(void *fp) { return 0; }

// ---- locks
void vp_prim_spawn(int, void (*)(void));
void vp_prim_switch(int);
void vp_prim_acquire(const void *);
void vp_prim_release(const void *);
void vp_prim_race(int);
void vp_symbolic(void *, size_t, const char *);
void vp_assert(int, const char *);
size_t vp_pick(size_t);
#include "sched.h"
int pthread_mutex_lock(void *m) { return vp_lock(m, 0, vp_kind(m) == 1); }
int pthread_mutex_trylock(void *m) { return vp_trylock(m, 0, vp_kind(m) == 1); }
int pthread_mutex_unlock(void *m) { return vp_unlock(m, 0); }
int pthread_rwlock_wrlock(void *m) { return vp_lock(m, 0, 0); }
int pthread_rwlock_rdlock(void *m) { return vp_lock(m, 1, 0); }
int pthread_rwlock_trywrlock(void *m) { return vp_trylock(m, 0, 0); }
int pthread_rwlock_tryrdlock(void *m) { return vp_trylock(m, 1, 0); }
int pthread_rwlock_unlock(void *m) { return vp_unlock(m, 1); }
int pthread_mutex_init(int *m, const int *attr) {
    for (int i = 0; i < 10; i++) m[i] = 0;
    if (attr) m[4] = *attr & 3;
    return 0;
}
int pthread_mutex_destroy(void *m) { return 0; }
int pthread_mutexattr_init(int *a) { return *a = 0; }
int pthread_mutexattr_settype(int *a, int k) {
    *a = k;
    return 0;
}
int pthread_mutexattr_destroy(int *a) { return 0; }
int pthread_rwlock_init(void *m, void *attr) { return 0; }
int pthread_rwlock_destroy(void *m) { return 0; }
int pthread_once(int *o, void (*f)(void)) {
    vp_prim_race(0);
    int first = !*o;
    *o = 1;
    vp_prim_acquire(o);
    vp_prim_race(1);
    if (first) {
        f();
        vp_prim_release(o);
    }
    return 0;
}

// ---- clock
static int64_t vp_now;
void vp_set_time(int64_t t) { vp_now = t; }
int64_t time(int64_t *p) {
    if (p) *p = vp_now;
    return vp_now;
}
