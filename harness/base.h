// Base encodings: access to the library by kind (0 base16, 1 base32, 2 base32hex, 3 base64, 4 base64url)
#ifndef BASE_H
#define BASE_H
#include <stdlib.h>
#include "libpgfe/base_encoding/base16.h"
#include "libpgfe/base_encoding/base32.h"
#include "libpgfe/base_encoding/base64.h"
#include "../ref/ref.h"
#include "vp.h"
static inline size_t lib_encode(int k, const uint8_t *in, size_t n, char *out) {
    switch (k) {
    case 0: return pgfe_encode_base16(in, n, out);
    case 1: return pgfe_encode_base32(in, n, out);
    case 2: return pgfe_encode_base32hex(in, n, out);
    case 3: return pgfe_encode_base64(in, n, out);
    default: return pgfe_encode_base64_url(in, n, out);
    }
}
static inline size_t lib_decode(int k, const char *in, uint8_t *out) {
    switch (k) {
    case 0: return pgfe_decode_base16(in, out);
    case 1: return pgfe_decode_base32(in, out);
    case 2: return pgfe_decode_base32hex(in, out);
    default: return pgfe_decode_base64(in, out);
    }
}
static const unsigned base_bits[] = {4, 5, 5, 6, 6}, base_unit[] = {1, 5, 5, 3, 3}, base_chunk[] = {2, 8, 8, 4, 4};
static inline char *heap(size_t n) { return (char *)malloc(n); }
// every byte string of n bytes, put together from its groups of bits: the group values are the symbolic variables
static inline uint8_t *grouped_bytes(int k, size_t n, const char *name) {
    unsigned b = base_bits[k];
    size_t g = (8 * n + b - 1) / b;
    uint8_t *v = (uint8_t *)malloc(g + 1), *p = (uint8_t *)malloc(n);
    vp_symbolic(v, g, name);
    for (size_t i = 0; i < n; i++) {
        unsigned x = 0;
        for (size_t j = 8 * i / b; j <= (8 * i + 7) / b; j++) {
            int sh = (int)((j + 1) * b) - (int)(8 * i + 8); // bits of group j below the end of byte i
            unsigned gv = v[j] & ((1u << b) - 1);
            x |= sh >= 0 ? gv >> sh : gv << -sh;
        }
        p[i] = (uint8_t)x;
    }
    return p;
}
// characters all before the first NUL
static inline char *sym_text(size_t n, const char *name) {
    char *p = (char *)malloc(n + 1);
    vp_symbolic(p, n, name);
    p[n] = 0;
    for (size_t i = 0; i < n; i++) vp_assume(p[i] != 0);
    return p;
}
#endif
