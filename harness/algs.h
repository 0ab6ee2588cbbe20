// Dispatch over the library's per-algorithm C functions (C and C++ harnesses).
#ifndef ALGS_H
#define ALGS_H
#include "libpgfe/hashes.h"
#include "libpgfe/hmac/hmac.h"
#include "ref.h"
#include "vp.h"
#include <stdlib.h>

// X(enum, ref number, lower-case name)
#define FIXED_ALGS(X)                                                                                                  \
    X(MD5, R_MD5, md5)                                                                                                 \
    X(SHA1, R_SHA1, sha1)                                                                                              \
    X(SHA224, R_SHA224, sha224)                                                                                        \
    X(SHA256, R_SHA256, sha256)                                                                                        \
    X(SHA384, R_SHA384, sha384)                                                                                        \
    X(SHA512, R_SHA512, sha512)                                                                                        \
    X(SHA512_224, R_SHA512_224, sha512_224)                                                                            \
    X(SHA512_256, R_SHA512_256, sha512_256)                                                                            \
    X(SHA3_224, R_SHA3_224, sha3_224)                                                                                  \
    X(SHA3_256, R_SHA3_256, sha3_256)                                                                                  \
    X(SHA3_384, R_SHA3_384, sha3_384)                                                                                  \
    X(SHA3_512, R_SHA3_512, sha3_512)
#define XOF_ALGS(X)                                                                                                    \
    X(RawSHAKE128, R_RAWSHAKE128, rawshake128)                                                                         \
    X(SHAKE128, R_SHAKE128, shake128)                                                                                  \
    X(RawSHAKE256, R_RAWSHAKE256, rawshake256)                                                                         \
    X(SHAKE256, R_SHAKE256, shake256)

typedef union any_ctx {
#define X(E, R, n) struct pgfe_##n##_ctx n;
    FIXED_ALGS(X) XOF_ALGS(X)
#undef X
} any_ctx;
typedef union any_hmac_ctx {
#define X(E, R, n) struct pgfe_hmac_##n##_ctx n;
    FIXED_ALGS(X)
#undef X
} any_hmac_ctx;

static inline size_t alg_ctx_size(int alg) {
    switch (alg) {
#define X(E, R, n) case R: return sizeof(struct pgfe_##n##_ctx);
        FIXED_ALGS(X) XOF_ALGS(X)
#undef X
    }
    return 0;
}
static inline void alg_init(int alg, void *c) {
    switch (alg) {
#define X(E, R, n) case R: pgfe_##n##_init((struct pgfe_##n##_ctx *)c); break;
        FIXED_ALGS(X) XOF_ALGS(X)
#undef X
    }
}
static inline void alg_update(int alg, void *c, const uint8_t *p, size_t n_) {
    switch (alg) {
#define X(E, R, n) case R: pgfe_##n##_update((struct pgfe_##n##_ctx *)c, p, n_); break;
        FIXED_ALGS(X) XOF_ALGS(X)
#undef X
    }
}
static inline void alg_digest(int alg, void *c, uint8_t *out, size_t outn) {
    switch (alg) {
#define X(E, R, n) case R: pgfe_##n##_digest((struct pgfe_##n##_ctx *)c, out); break;
        FIXED_ALGS(X)
#undef X
#define X(E, R, n) case R: pgfe_##n##_digest((struct pgfe_##n##_ctx *)c, out, outn * 8); break;
        XOF_ALGS(X)
#undef X
    }
}
static inline void alg_encode(int alg, const uint8_t *p, size_t n_, uint8_t *out, size_t outn) {
    switch (alg) {
#define X(E, R, n) case R: pgfe_##n##_encode(p, n_, out); break;
        FIXED_ALGS(X)
#undef X
#define X(E, R, n) case R: pgfe_##n##_encode(p, n_, out, outn * 8); break;
        XOF_ALGS(X)
#undef X
    }
}
static inline void alg_encode_default(int alg, const uint8_t *p, uint8_t *out, size_t outn) {
    switch (alg) {
#define X(E, R, n) case R: pgfe_##n##_encode_default(p, out); break;
        FIXED_ALGS(X)
#undef X
#define X(E, R, n) case R: pgfe_##n##_encode_default(p, out, outn * 8); break;
        XOF_ALGS(X)
#undef X
    }
}
static inline void alg_encode_f(int alg, FILE *f, uint8_t *out, size_t outn) {
    switch (alg) {
#define X(E, R, n) case R: pgfe_##n##_encode_f(f, out); break;
        FIXED_ALGS(X)
#undef X
#define X(E, R, n) case R: pgfe_##n##_encode_f(f, out, outn * 8); break;
        XOF_ALGS(X)
#undef X
    }
}
static inline void alg_encode_multiple3(int alg, uint8_t *out, size_t outn, const uint8_t *a, size_t an, const uint8_t *b, size_t bn, const uint8_t *c, size_t cn) {
    switch (alg) {
#define X(E, R, n) case R: pgfe_##n##_encode_multiple(out, (size_t)3, a, an, b, bn, c, cn); break;
        FIXED_ALGS(X)
#undef X
#define X(E, R, n) case R: pgfe_##n##_encode_multiple(out, outn * 8, (size_t)3, a, an, b, bn, c, cn); break;
        XOF_ALGS(X)
#undef X
    }
}
static inline void alg_encode_multiple12(int alg, uint8_t *out, size_t outn, const uint8_t *const *p, const size_t *n) {
#define P12 p[0], n[0], p[1], n[1], p[2], n[2], p[3], n[3], p[4], n[4], p[5], n[5], p[6], n[6], p[7], n[7], p[8], n[8], p[9], n[9], p[10], n[10], p[11], n[11]
    switch (alg) {
#define X(E, R, n_) case R: pgfe_##n_##_encode_multiple(out, (size_t)12, P12); break;
        FIXED_ALGS(X)
#undef X
#define X(E, R, n_) case R: pgfe_##n_##_encode_multiple(out, outn * 8, (size_t)12, P12); break;
        XOF_ALGS(X)
#undef X
    }
#undef P12
}
static inline void alg_encode_multiple0(int alg, uint8_t *out, size_t outn) {
    switch (alg) {
#define X(E, R, n) case R: pgfe_##n##_encode_multiple(out, (size_t)0); break;
        FIXED_ALGS(X)
#undef X
#define X(E, R, n) case R: pgfe_##n##_encode_multiple(out, outn * 8, (size_t)0); break;
        XOF_ALGS(X)
#undef X
    }
}
static inline size_t hmac_ctx_size(int alg) {
    switch (alg) {
#define X(E, R, n) case R: return sizeof(struct pgfe_hmac_##n##_ctx);
        FIXED_ALGS(X)
#undef X
    }
    return 0;
}
static inline void hmac_init(int alg, void *c) {
    switch (alg) {
#define X(E, R, n) case R: pgfe_hmac_##n##_init((struct pgfe_hmac_##n##_ctx *)c); break;
        FIXED_ALGS(X)
#undef X
    }
}
static inline void hmac_set_key(int alg, void *c, const uint8_t *k, size_t kn) {
    switch (alg) {
#define X(E, R, n) case R: pgfe_hmac_##n##_set_key((struct pgfe_hmac_##n##_ctx *)c, k, kn); break;
        FIXED_ALGS(X)
#undef X
    }
}
static inline void hmac_update(int alg, void *c, const uint8_t *k, size_t kn) {
    switch (alg) {
#define X(E, R, n) case R: pgfe_hmac_##n##_update((struct pgfe_hmac_##n##_ctx *)c, k, kn); break;
        FIXED_ALGS(X)
#undef X
    }
}
static inline void hmac_digest(int alg, void *c, uint8_t *out) {
    switch (alg) {
#define X(E, R, n) case R: pgfe_hmac_##n##_digest((struct pgfe_hmac_##n##_ctx *)c, out); break;
        FIXED_ALGS(X)
#undef X
    }
}
static inline void hmac_oneshot(int alg, const uint8_t *k, size_t kn, const uint8_t *m, size_t mn, uint8_t *out) {
    switch (alg) {
#define X(E, R, n) case R: pgfe_hmac_##n(k, kn, m, mn, out); break;
        FIXED_ALGS(X)
#undef X
    }
}
static inline enum pgfe_algorithm_choice alg_enum(int alg) {
    switch (alg) {
#define X(E, R, n) case R: return E;
        FIXED_ALGS(X) XOF_ALGS(X)
#undef X
    }
    return (enum pgfe_algorithm_choice)0;
}
// exactly n bytes of fresh symbolic data, so that reading past them is a memory error
static inline uint8_t *sym_bytes(size_t n, const char *name) {
    uint8_t *p = (uint8_t *)malloc(n);
    vp_symbolic(p, n, name);
    return p;
}
static inline uint8_t *new_bytes(size_t n) { return (uint8_t *)malloc(n); }
#endif
