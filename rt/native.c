// Native counterpart of the checker's intrinsics: runs one harness entry on concrete inputs read from a file.
// usage: prog replay.txt      (lines: "entry NAME", "arg N", "in NAME HEX", "poison HH")
#define _GNU_SOURCE
#include "vp.h"
#include <dlfcn.h>
#include <inttypes.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
#include <valgrind/memcheck.h>

static char **inName;
static unsigned char **inData;
static size_t *inLen;
static int nIn, curIn;
static int poison = 0xA5;
static int64_t now;
static int timeSet;
char vp_stdout_buf[4096]; // only meaningful under the symbolic executor
size_t vp_stdout_len;

static void finish(int code) {
    fflush(stdout);
    _exit(code);
}
static uint64_t rng;
static FILE *record;
static unsigned rnd(void) {
    rng = rng * 6364136223846793005ull + 1442695040888963407ull;
    return (unsigned)(rng >> 33);
}
void vp_symbolic(void *p, size_t n, const char *name) {
    if (record) { // search mode: random bytes, logged so that a failure can be replayed
        static const char alpha[] = "0123456789abcdefABCDEFGHxXhHZz+/-_= \n";
        unsigned mode = rnd() % 4;
        unsigned char *q = p;
        fprintf(record, "in %s ", name);
        for (size_t i = 0; i < n; i++) {
            q[i] = mode == 0 ? (unsigned char)rnd() : mode == 1 ? (unsigned char)alpha[rnd() % (sizeof alpha - 1)] : mode == 2 ? (rnd() % 4 ? 0 : (unsigned char)rnd()) : (rnd() % 8 ? (unsigned char)rnd() : 0xff);
            fprintf(record, "%02x", q[i]);
        }
        fprintf(record, "\n");
        fflush(record);
        return;
    }
    if (curIn >= nIn) {
        // inputs after the failing point: not part of the recorded run
        memset(p, 0, n);
        return;
    }
    size_t k = inLen[curIn] < n ? inLen[curIn] : n;
    if (strcmp(inName[curIn], name) || inLen[curIn] != n) {
        printf("replay: input mismatch %s/%s\n", inName[curIn], name);
        finish(78);
    }
    memcpy(p, inData[curIn], k);
    curIn++;
}
size_t vp_pick(size_t x) { return x; }
void vp_assume(int c) {
    if (!c) {
        printf("replay: outside the assumptions\n");
        finish(77);
    }
}
void vp_assert(int c, const char *msg) {
    if (!c) {
        printf("ASSERTION FAILED: %s\n", msg);
        finish(42);
    }
}
static void hex(const char *k, const char *name, const unsigned char *p, size_t n) {
    printf("%s %s ", k, name);
    for (size_t i = 0; i < n; i++) printf("%02x", p[i]);
    printf("\n");
}
void vp_assert_eq(const void *a, const void *b, size_t n, const char *msg) {
    if (RUNNING_ON_VALGRIND) {
        if (VALGRIND_CHECK_MEM_IS_DEFINED(a, n)) {
            printf("UNINITIALISED: %s\n", msg);
            finish(43);
        }
    }
    if (n) hex("obs", msg, a, n);
    if (memcmp(a, b, n)) {
        hex("expected", msg, b, n);
        printf("ASSERTION FAILED: %s\n", msg);
        finish(42);
    }
}
void vp_assert_init(const void *p, size_t n) {
    if (RUNNING_ON_VALGRIND && VALGRIND_CHECK_MEM_IS_DEFINED(p, n)) {
        printf("UNINITIALISED: output\n");
        finish(43);
    }
}
void vp_observe(const void *p, size_t n, const char *name) { hex("obs", name, p, n); }
void vp_reach(const char *l) {}
void vp_merge(int on) {}
void vp_undef(void *p, size_t n) {
    memset(p, poison, n);
    if (RUNNING_ON_VALGRIND) (void)VALGRIND_MAKE_MEM_UNDEFINED(p, n);
}
void vp_cut(void) {
    printf("replay: done\n");
    finish(0);
}
// threads of a replay: coroutines that follow the recorded schedule; the sanitizers are told
#include <ucontext.h>
#include <valgrind/valgrind.h>
void *__tsan_get_current_fiber(void) __attribute__((weak));
void *__tsan_create_fiber(unsigned) __attribute__((weak));
void __tsan_switch_to_fiber(void *, unsigned) __attribute__((weak));
void __tsan_acquire(void *) __attribute__((weak));
void __tsan_release(void *) __attribute__((weak));
void __sanitizer_start_switch_fiber(void **, const void *, size_t) __attribute__((weak));
void __sanitizer_finish_switch_fiber(void *, const void **, size_t *) __attribute__((weak));
enum { STACK = 1 << 20 };
static struct {
    ucontext_t c;
    void *fiber, *fake;
    const void *stack;
    size_t size;
    void (*f)(void);
} co[4];
static int running, leaving;
static void arrived(void) {
    const void *b = 0;
    size_t n = 0;
    if (__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(co[running].fake, &b, &n);
    if (leaving == 0 && !co[0].stack) co[0].stack = b, co[0].size = n;
}
static void trampoline(void) {
    arrived();
    co[running].f();
}
void vp_prim_spawn(int t, void (*f)(void)) {
    if (!co[0].fiber && __tsan_get_current_fiber) co[0].fiber = __tsan_get_current_fiber();
    getcontext(&co[t].c);
    co[t].size = STACK;
    co[t].c.uc_stack.ss_sp = mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    co[t].c.uc_stack.ss_size = STACK;
    co[t].stack = co[t].c.uc_stack.ss_sp;
    memset((void *)co[t].stack, poison, STACK);
    co[t].f = f;
    VALGRIND_STACK_REGISTER(co[t].stack, (char *)co[t].stack + STACK);
    makecontext(&co[t].c, trampoline, 0);
    if (__tsan_create_fiber) co[t].fiber = __tsan_create_fiber(0);
}
void vp_prim_switch(int t) {
    int me = running;
    leaving = me;
    running = t;
    if (__sanitizer_start_switch_fiber) __sanitizer_start_switch_fiber(&co[me].fake, co[t].stack, co[t].size);
    if (__tsan_switch_to_fiber) __tsan_switch_to_fiber(co[t].fiber, 1); // not a synchronisation
    swapcontext(&co[me].c, &co[t].c);
    arrived();
}
void vp_prim_acquire(const void *m) {
    if (__tsan_acquire) __tsan_acquire((void *)m);
}
void vp_prim_release(const void *m) {
    if (__tsan_release) __tsan_release((void *)m);
}
void vp_prim_race(int on) {}
#include "sched.h"
int __wrap_pthread_mutex_lock(void *m) { return vp_lock(m, 0, vp_kind(m) == 1); }
int __wrap_pthread_mutex_trylock(void *m) { return vp_trylock(m, 0, vp_kind(m) == 1); }
int __wrap_pthread_mutex_unlock(void *m) { return vp_unlock(m, 0); }
int __wrap_pthread_rwlock_wrlock(void *m) { return vp_lock(m, 0, 0); }
int __wrap_pthread_rwlock_rdlock(void *m) { return vp_lock(m, 1, 0); }
int __wrap_pthread_rwlock_trywrlock(void *m) { return vp_trylock(m, 0, 0); }
int __wrap_pthread_rwlock_tryrdlock(void *m) { return vp_trylock(m, 1, 0); }
int __wrap_pthread_rwlock_unlock(void *m) { return vp_unlock(m, 1); }
size_t vp_live_heap(void) { return 0; }
unsigned char *vp_huge(size_t n, size_t limit) {
    unsigned char *p = mmap(0, n ? n : 1, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); // the zero page
    if (p == MAP_FAILED) finish(79);
    return p;
}
int vp_huge_short(void) { return 0; }
FILE *vp_fopen_mem(const void *p, size_t n) {
    FILE *f = tmpfile();
    if (!f) finish(79);
    if (n && fwrite(p, 1, n, f) != n) finish(79);
    rewind(f);
    return f;
}
static int outSaved = -1;
static FILE *outFile;
void vp_stdout_begin(void) {
    fflush(stdout);
    outFile = tmpfile();
    outSaved = dup(1);
    if (!outFile || outSaved < 0 || dup2(fileno(outFile), 1) < 0) finish(79);
}
size_t vp_stdout_take(char *out, size_t cap) {
    fflush(stdout);
    dup2(outSaved, 1);
    close(outSaved);
    rewind(outFile);
    size_t n = 0;
    for (int c; (c = fgetc(outFile)) != EOF; n++)
        if (n < cap) out[n] = (char)c;
    fclose(outFile);
    return n;
}
void vp_set_time(int64_t t) {
    now = t;
    timeSet = 1;
}
time_t time(time_t *p) {
    if (p) *p = now;
    return now;
}
typedef void (*fn)(long, long, long, long, long, long, long, long);
__attribute__((noinline)) static void dirty(int v) {
    volatile unsigned char b[65536];
    for (size_t i = 0; i < sizeof b; i++) b[i] = (unsigned char)v;
}
int main(int argc, char **argv) {
    if (argc < 2) return 80;
    FILE *f = fopen(argv[1], "r");
    if (!f) return 80;
    static char entry[256];
    long a[8] = {0};
    int na = 0;
    char *line = 0;
    size_t cap = 0;
    ssize_t n;
    while ((n = getline(&line, &cap, f)) > 0) {
        if (line[n - 1] == '\n') line[--n] = 0;
        if (!strncmp(line, "entry ", 6)) snprintf(entry, sizeof entry, "%s", line + 6);
        else if (!strncmp(line, "arg ", 4)) a[na++ & 7] = atol(line + 4);
        else if (!strncmp(line, "poison ", 7)) poison = (int)strtol(line + 7, 0, 16);
        else if (!strncmp(line, "random ", 7)) {
            char *sp = strchr(line + 7, ' ');
            rng = strtoull(line + 7, 0, 10) * 0x9E3779B97F4A7C15ull + 12345;
            if (sp) record = fopen(sp + 1, "w");
        }
        else if (!strncmp(line, "in ", 3)) {
            char *nm = line + 3, *sp = strchr(nm, ' ');
            if (!sp) continue;
            *sp = 0;
            char *h = sp + 1;
            size_t l = strlen(h) / 2;
            inName = realloc(inName, (nIn + 1) * sizeof *inName);
            inData = realloc(inData, (nIn + 1) * sizeof *inData);
            inLen = realloc(inLen, (nIn + 1) * sizeof *inLen);
            inName[nIn] = strdup(nm);
            inData[nIn] = malloc(l + 1);
            inLen[nIn] = l;
            for (size_t i = 0; i < l; i++) {
                char b[3] = {h[2 * i], h[2 * i + 1], 0};
                inData[nIn][i] = (unsigned char)strtol(b, 0, 16);
            }
            nIn++;
        }
    }
    if (record) {
        fprintf(record, "entry %s\n", entry);
        for (int i = 0; i < na; i++) fprintf(record, "arg %ld\n", a[i]);
        fprintf(record, "poison %02x\n", poison);
    }
    fn e = (fn)dlsym(RTLD_DEFAULT, entry);
    if (!e) {
        printf("replay: no entry %s\n", entry);
        return 80;
    }
    if (RUNNING_ON_VALGRIND == 0) dirty(poison);
    e(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
    printf("replay: done\n");
    finish(0);
}
