// U01, U02: hex text
#include <stdlib.h>
#include "libpgfe/utils.h"
#include "vp.h"
static int hexval(uint8_t c) { // branchless
    int d = (c >= '0') & (c <= '9'), u = (c >= 'A') & (c <= 'F'), l = (c >= 'a') & (c <= 'f');
    return d * (c - '0') + u * (c - 'A' + 10) + l * (c - 'a' + 10) - (1 - d - u - l);
}
static signed char val[256];
static void mk(void) {
    for (int c = 0; c < 256; c++) val[c] = (signed char)hexval((uint8_t)c);
}
static char *heap(size_t n) { return (char *)malloc(n); }

VP_ENTRY u_hex(size_t n) {
    uint8_t *in = (uint8_t *)heap(n), *back = (uint8_t *)heap(n);
    char *out = heap(2 * n + 1), *want = heap(2 * n + 1);
    vp_symbolic(in, n, "bytes");
    size_t r = pgfe_hash_to_hex_string(in, n, out);
    for (size_t i = 0; i < n; i++) {
        want[2 * i] = "0123456789abcdef"[in[i] >> 4];
        want[2 * i + 1] = "0123456789abcdef"[in[i] & 15];
    }
    want[2 * n] = 0;
    vp_assert(r == 2 * n, "returned length");
    vp_assert_eq(out, want, 2 * n + 1, "hex text");
    vp_reach("hex");
}
// printing writes the same digits and nothing else
VP_ENTRY u_print(size_t n) {
    uint8_t *in = (uint8_t *)heap(n);
    char *out = heap(2 * n + 4), *want = heap(2 * n + 1);
    vp_symbolic(in, n, "bytes");
    for (size_t i = 0; i < n; i++) {
        want[2 * i] = "0123456789abcdef"[in[i] >> 4];
        want[2 * i + 1] = "0123456789abcdef"[in[i] & 15];
    }
    vp_stdout_begin();
    pgfe_print_hash(in, n);
    size_t r = vp_stdout_take(out, 2 * n + 4);
    vp_assert(r == 2 * n, "length of the printed text");
    vp_assert_eq(out, want, 2 * n, "printed text");
    vp_reach("print");
}
// the text of n bytes in any case, prefix 0: none 1: 0x 2: 0X, suffix 0: none 1: h 2: H
VP_ENTRY u_parse(size_t n, int prefix, int suffix) {
    mk();
    size_t pl = prefix ? 2 : 0, sl = suffix ? 1 : 0;
    char *s = heap(pl + 2 * n + sl + 1);
    uint8_t *out = (uint8_t *)heap(n), *want = (uint8_t *)heap(n);
    if (prefix) memcpy(s, prefix == 1 ? "0x" : "0X", 2);
    vp_symbolic(s + pl, 2 * n, "digits");
    for (size_t i = 0; i < 2 * n; i++) vp_assume(val[(uint8_t)s[pl + i]] >= 0);
    for (size_t i = 0; i < n; i++) want[i] = (uint8_t)(val[(uint8_t)s[pl + 2 * i]] * 16 + val[(uint8_t)s[pl + 2 * i + 1]]);
    if (suffix) s[pl + 2 * n] = suffix == 1 ? 'h' : 'H';
    s[pl + 2 * n + sl] = 0;
    size_t r = pgfe_hex_string_to_hash(s, out);
    vp_assert(r == n, "number of bytes");
    vp_assert_eq(out, want, n, "bytes");
    vp_assert(pgfe_hash_length(s) == n, "length");
    vp_reach("parse");
}
// There and back: bytes made of symbolic digits
VP_ENTRY u_round(size_t n) {
    uint8_t *d = (uint8_t *)heap(2 * n), *in = (uint8_t *)heap(n), *back = (uint8_t *)heap(n);
    char *s = heap(2 * n + 1);
    vp_symbolic(d, 2 * n, "digits");
    for (size_t i = 0; i < n; i++) in[i] = (uint8_t)((d[2 * i] & 15) << 4 | (d[2 * i + 1] & 15));
    pgfe_hash_to_hex_string(in, n, s);
    size_t r = pgfe_hex_string_to_hash(s, back);
    vp_assert(r == n, "number of bytes");
    vp_assert_eq(back, in, n, "bytes");
    vp_reach("round");
}
static void check_text(const char *s, size_t n) {
    char *want = heap(n + 1), *c = heap(n + 1), *in = heap(n + 1);
    size_t m = 0, i = 0, r;
    mk();
    if (n >= 2) {
        int p = (s[0] == '0') & ((s[1] == 'x') | (s[1] == 'X'));
        if (p) i = 2;
    }
    for (; i < n; i++)
        if (val[(uint8_t)s[i]] >= 0) want[m++] = s[i];
    want[m] = 0;
    r = pgfe_hash_string_clean(s, c);
    vp_assert(r == m, "cleaned length");
    if (r == m) vp_assert_eq(c, want, m + 1, "cleaned text");
    memcpy(in, s, n + 1);
    r = pgfe_hash_string_clean_(in);
    vp_assert(r == m, "length cleaned in place");
    if (r == m) vp_assert_eq(in, want, m + 1, "text cleaned in place");
    size_t b = (m + 1) / 2;
    vp_assert(pgfe_hash_length(s) == b, "number of bytes told");
    b = vp_pick(b);
    m = vp_pick(m);
    uint8_t *out = (uint8_t *)heap(b), *w = (uint8_t *)heap(b);
    r = pgfe_hex_string_to_hash(s, out);
    vp_assert(r == b, "number of bytes");
    size_t odd = m % 2;
    for (size_t j = 0; j < b; j++) {
        int hi = odd ? (j ? val[(uint8_t)want[2 * j - 1]] : 0) : val[(uint8_t)want[2 * j]];
        w[j] = (uint8_t)(hi * 16 + val[(uint8_t)want[odd ? 2 * j : 2 * j + 1]]);
    }
    if (r == b) vp_assert_eq(out, w, b, "bytes");
}
VP_ENTRY u_any(size_t n) {
    char *s = heap(n + 1);
    vp_symbolic(s, n, "text");
    s[n] = 0;
    for (size_t i = 0; i < n; i++) vp_assume(s[i] != 0);
    check_text(s, n);
    vp_reach("any");
}
// longer text of digits with arbitrary characters at the places given by mask
VP_ENTRY u_holes(size_t n, uint64_t mask) {
    char *s = heap(n + 1);
    mk();
    vp_symbolic(s, n, "text");
    s[n] = 0;
    for (size_t i = 0; i < n; i++)
        if (i < 64 && (mask >> i & 1)) vp_assume(s[i] != 0);
        else vp_assume(val[(uint8_t)s[i]] >= 0);
    check_text(s, n);
    vp_reach("holes");
}
