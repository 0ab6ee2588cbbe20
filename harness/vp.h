// Interface between harnesses and the checker.
// Under irsym these are intrinsics of the symbolic executor; in native replays rt/native.c implements them.
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#define VP_ENTRY extern "C" __attribute__((noinline)) void
#else
#define VP_ENTRY __attribute__((noinline)) void
#endif
void vp_symbolic(void *p, size_t n, const char *name); // fresh symbolic bytes
void vp_assume(int c);
void vp_assert(int c, const char *msg);
void vp_assert_eq(const void *a, const void *b, size_t n, const char *msg); // a: result of the code under test, b: expected
void vp_assert_init(const void *p, size_t n);                               // every byte was written
void vp_observe(const void *p, size_t n, const char *name);
void vp_reach(const char *label); // vacuity witness
void vp_merge(int on);
void vp_undef(void *p, size_t n); // make memory uninitialised
void vp_cut(void);
size_t vp_pick(size_t x); // x itself; under irsym one path per value it can have
void vp_spawn(void (*f)(void *), void *arg); // a thread (at most 3), run by vp_join
void vp_join(void);                          // every schedule of the threads, to their ends
size_t vp_live_heap(void);
uint8_t *vp_huge(size_t n, size_t limit); // n read-only zero bytes; under irsym the run ends when more than limit of them have been read
int vp_huge_short(void);                  // under irsym 1: the run got here without reading that much
FILE *vp_fopen_mem(const void *p, size_t n); // a stdio stream holding exactly these bytes
void vp_stdout_begin(void);                  // standard output is kept from here on
size_t vp_stdout_take(char *out, size_t cap); // what was written, up to cap bytes of it; its whole length is returned
void vp_set_time(int64_t t);                 // what time() returns from now on
#ifdef __cplusplus
}
#endif
#endif
