// B01-B04: base encodings (C functions)
#include "base.h"

VP_ENTRY e_encode(int k, size_t n) {
    size_t m = ref_base_encoded_size(k, n);
    uint8_t *in = (uint8_t *)heap(n);
    char *out = heap(m + 1), *want = heap(m + 1);
    vp_symbolic(in, n, "input");
    size_t r = lib_encode(k, in, n, out);
    vp_assert(r == m, "returned length");
    vp_assert(ref_base_encode(k, in, n, want) == m, "reference length");
    vp_assert_eq(out, want, m + 1, "text");
    vp_reach("encode");
}
VP_ENTRY e_round(int k, size_t n) {
    size_t m = ref_base_encoded_size(k, n);
    uint8_t *in = grouped_bytes(k, n, "groups"), *back = (uint8_t *)heap((m + base_chunk[k] - 1) / base_chunk[k] * base_unit[k] + 1);
    char *text = heap(m + 1);
    lib_encode(k, in, n, text);
    size_t r = lib_decode(k, text, back);
    vp_assert(r == n, "length after decoding");
    vp_assert_eq(back, in, n, "bytes after decoding");
    vp_reach("round");
}
// decoding the standard text (independent encoder), so that encoder and decoder cannot be wrong together
VP_ENTRY e_decode_ref(int k, size_t n, int pad) {
    size_t m = ref_base_encoded_size(k, n);
    uint8_t *in = grouped_bytes(k, n, "groups"), *back = (uint8_t *)heap((m + base_chunk[k] - 1) / base_chunk[k] * base_unit[k] + 1);
    char *text = heap(m + 1);
    ref_base_encode(k, in, n, text);
    if (!pad) text[(8 * n + base_bits[k] - 1) / base_bits[k]] = 0;
    size_t r = lib_decode(k, text, back);
    vp_assert(r == n, "length after decoding");
    vp_assert_eq(back, in, n, "bytes after decoding");
    vp_reach("decode_ref");
}
static signed char value[5][256];
static void mkvalues(int k) {
    for (int c = 0; c < 256; c++) value[k][c] = (signed char)ref_base_value(k, (uint8_t)c);
}
// What the text means: alphabet characters up to the first '=' (base16 has no padding: '=' is skipped there).
static size_t meaning(int k, const char *s, size_t n, uint8_t *out) {
    unsigned acc = 0, nb = 0, b = base_bits[k];
    size_t o = 0;
    for (size_t i = 0; i < n; i++) {
        int v = value[k][(uint8_t)s[i]];
        if (k && s[i] == '=') break;
        if (v < 0) continue;
        acc = (acc << b | (unsigned)v) & 0xffff;
        nb += b;
        if (nb >= 8) {
            nb -= 8;
            out[o++] = (uint8_t)(acc >> nb);
        }
    }
    return o;
}
static size_t room(int k, size_t n) { return (n + base_chunk[k] - 1) / base_chunk[k] * base_unit[k] + 1; }
static void check_decode(int k, char *s, size_t n) {
    uint8_t *out = (uint8_t *)heap(room(k, n)), *want = (uint8_t *)heap(room(k, n));
    size_t w = meaning(k, s, n, want);
    size_t r = lib_decode(k, s, out);
    vp_assert(r == w, "number of bytes decoded");
    if (r == w) vp_assert_eq(out, want, w, "bytes decoded");
}
// any text of n characters; alphabet characters all come before any '='
VP_ENTRY e_lenient(int k, size_t n) {
    mkvalues(k);
    char *s = sym_text(n, "text");
    int pad = 0;
    for (size_t i = 0; i < n && k; i++) {
        if (s[i] == '=') pad = 1;
        else if (pad) vp_assume(value[k][(uint8_t)s[i]] < 0);
    }
    check_decode(k, s, n);
    vp_reach("lenient");
}
// longer text of alphabet characters of either case with any characters at the places given by mask, and e '=' at the end
VP_ENTRY e_holes(int k, size_t n, uint64_t mask, size_t e) {
    mkvalues(k);
    char *s = heap(n + e + 1);
    vp_symbolic(s, n, "text");
    for (size_t i = 0; i < n; i++)
        if (i < 64 && (mask >> i & 1)) vp_assume((s[i] != 0) & (s[i] != '='));
        else vp_assume(value[k][(uint8_t)s[i]] >= 0);
    memset(s + n, '=', e);
    s[n + e] = 0;
    check_decode(k, s, n + e);
    vp_reach("holes");
}
// any text at all: memory only
VP_ENTRY e_any(int k, size_t n) {
    char *s = sym_text(n, "text");
    uint8_t *out = (uint8_t *)heap(room(k, n));
    size_t r = lib_decode(k, s, out);
    vp_assert(r < room(k, n), "returned length within the room");
    vp_assert_init(out, r);
    vp_reach("any");
}
// all padding, or padding in the middle of well-formed groups
VP_ENTRY e_overpad(int k, size_t n, size_t e, size_t tail) {
    mkvalues(k);
    char *s = heap(n + e + tail + 1);
    vp_symbolic(s, n, "text");
    for (size_t i = 0; i < n; i++) vp_assume(value[k][(uint8_t)s[i]] >= 0);
    memset(s + n, '=', e);
    vp_symbolic(s + n + e, tail, "tail");
    for (size_t i = 0; i < tail; i++) vp_assume(s[n + e + i] != 0);
    s[n + e + tail] = 0;
    uint8_t *out = (uint8_t *)heap(room(k, n + e + tail));
    size_t r = lib_decode(k, s, out);
    vp_assert(r < room(k, n + e + tail), "returned length within the room");
    vp_assert_init(out, r);
    vp_reach("overpad");
}
