// S02, M02, A01: encoder objects and algorithm names
#include "libpgfe/generic.hpp"
#include "libpgfe/hashes/hash_encoder.hpp"
#include "libpgfe/hmac/hmac_encoder.hpp"
#include "algs.h"
#include <new>
#include <string>
using namespace libpgfe;
typedef uint8_t u8;

// one update through the chosen form: 0 pointer+length, 1 C string, 2 std::string, 3 SequentialData
template <class E> static void feed(E &e, const u8 *m, size_t n, int form) {
    if (form == 0) {
        u8 *x = new_bytes(n);
        memcpy(x, m, n);
        e.update(x, n);
        vp_undef(x, n); // the encoder has taken what it needs
        free(x);
    } else if (form == 1) {
        char *x = (char *)new_bytes(n + 1);
        memcpy(x, m, n);
        x[n] = 0;
        e.update(x);
        free(x);
    } else if (form == 2) {
        std::string s((const char *)m, n);
        e.update(s);
    } else {
        SequentialData sd(m, n);
        e.update(sd);
    }
}
static void no_nul(const u8 *m, size_t n, int form) {
    if (form == 1)
        for (size_t i = 0; i < n; i++) vp_assume(m[i] != 0);
}
static size_t want_len(int alg, size_t bits) {
    size_t d = ref_digest_size(alg), b = (bits + 7) / 8;
    if (!bits) return d;
    return alg >= R_RAWSHAKE128 ? b : b < d ? b : d;
}
static void check_digest(const SequentialData *sd, int alg, const u8 *m, size_t n, size_t bits) {
    size_t l = want_len(alg, bits), big = ref_digest_size(alg);
    if (l > big) big = l;
    u8 *want = new_bytes(big);
    ref_hash_n(alg, m, n, want, alg >= R_RAWSHAKE128 ? l : big);
    vp_assert(sd != 0 && sd->length() == l, "digest length");
    if (sd && sd->length() == l) vp_assert_eq(sd->data(), want, l, "digest");
    free(want);
}
static void sizes(HashEncoder &e, int alg) {
    vp_assert(e.digest_size() == ref_digest_size(alg), "digest size");
    vp_assert(e.block_size() == ref_block_size(alg), "block size");
    vp_assert(e.algorithm() == alg_enum(alg), "algorithm");
}
// an encoder built over any memory contents; two updates in forms f1, f2
VP_ENTRY s2_digest(int alg, size_t n1, int f1, size_t n2, int f2, size_t bits) {
    u8 *m = sym_bytes(n1 + n2, "msg"), *mem = sym_bytes(sizeof(HashEncoder), "memory");
    ref_init();
    no_nul(m, n1, f1);
    no_nul(m + n1, n2, f2);
    HashEncoder *e = new (mem) HashEncoder(alg_enum(alg));
    sizes(*e, alg);
    feed(*e, m, n1, f1);
    feed(*e, m + n1, n2, f2);
    check_digest(bits ? e->get_digest(bits) : e->get_digest(), alg, m, n1 + n2, bits);
    sizes(*e, alg);
    e->~HashEncoder();
    vp_reach("digest");
}
// reset after un unfinished bytes (fin: after a digest), then a new message
VP_ENTRY s2_reset(int alg, size_t un, int fin, size_t n, size_t bits) {
    u8 *u = sym_bytes(un, "earlier"), *m = sym_bytes(n, "msg");
    ref_init();
    HashEncoder e(alg_enum(alg));
    e.update(u, un);
    if (fin) check_digest(e.get_digest(bits), alg, u, un, bits);
    e.reset();
    sizes(e, alg);
    e.update(m, n);
    check_digest(e.get_digest(bits), alg, m, n, bits);
    e.reset();
    check_digest(e.get_digest(), alg, m, 0, 0);
    vp_reach("reset");
}
// two encoders side by side; through the base class
VP_ENTRY s2_two(int a, int b, size_t n, size_t k) {
    u8 *m = sym_bytes(n, "msg"), *q = sym_bytes(k, "other");
    ref_init();
    HashEncoder x(alg_enum(a)), y(alg_enum(b));
    AbstractEncoder *px = &x;
    std::string s((const char *)q, k);
    px->update(m, n / 2);
    y.update(s);
    SequentialData sd(m + n / 2, n - n / 2);
    px->update(sd);
    check_digest(y.get_digest(), b, q, k, 0);
    check_digest(x.get_digest(), a, m, n, 0);
    px->reset();
    x.update(q, k);
    check_digest(x.get_digest(), a, q, k, 0);
    vp_reach("two");
}

// ---- M02
// key form kf, message in two updates of forms f1, f2
VP_ENTRY m2_mac(int alg, size_t kn, int kf, size_t n1, int f1, size_t n2) {
    int f2 = (f1 + 1 + kf) % 4;
    size_t o = ref_digest_size(alg);
    u8 *k = sym_bytes(kn, "key"), *m = sym_bytes(n1 + n2, "msg"), *mem = sym_bytes(sizeof(HMACEncoder), "memory"), *want = new_bytes(o);
    ref_init();
    no_nul(k, kn, kf);
    no_nul(m, n1, f1);
    no_nul(m + n1, n2, f2);
    HMACEncoder *e;
    if (kf == 0) {
        u8 *x = new_bytes(kn);
        memcpy(x, k, kn);
        e = new (mem) HMACEncoder(alg_enum(alg), x, kn);
        vp_undef(x, kn);
        free(x);
    } else if (kf == 1) {
        char *x = (char *)new_bytes(kn + 1);
        memcpy(x, k, kn);
        x[kn] = 0;
        e = new (mem) HMACEncoder(alg_enum(alg), x);
        free(x);
    } else if (kf == 2) {
        std::string s((const char *)k, kn);
        e = new (mem) HMACEncoder(alg_enum(alg), s);
    } else {
        SequentialData sd(k, kn);
        e = new (mem) HMACEncoder(alg_enum(alg), sd);
    }
    vp_assert(e->digest_size() == o && e->block_size() == ref_block_size(alg) && e->algorithm() == alg_enum(alg), "sizes");
    feed(*e, m, n1, f1);
    feed(*e, m + n1, n2, f2);
    const SequentialData *d = e->get_digest();
    ref_hmac(alg, k, kn, m, n1 + n2, want);
    vp_assert(d != 0 && d->length() == o, "length");
    if (d && d->length() == o) vp_assert_eq(d->data(), want, o, "mac");
    e->~HMACEncoder();
    vp_reach("mac");
}
VP_ENTRY m2_two(int a, int b, size_t n) {
    size_t oa = ref_digest_size(a), ob = ref_digest_size(b);
    u8 *k = sym_bytes(9, "key"), *m = sym_bytes(n, "msg"), *wa = new_bytes(oa), *wb = new_bytes(ob);
    ref_init();
    HMACEncoder x(alg_enum(a), k, 5), y(alg_enum(b), k + 5, 4);
    x.update(m, n / 2);
    y.update(m, n);
    const SequentialData *dy = y.get_digest();
    x.update(m + n / 2, n - n / 2);
    AbstractEncoder *p = &x;
    const SequentialData *dx = p->get_digest();
    ref_hmac(a, k, 5, m, n, wa);
    ref_hmac(b, k + 5, 4, m, n, wb);
    vp_assert(dx && dx->length() == oa && dy && dy->length() == ob, "length");
    vp_assert_eq(dx->data(), wa, oa, "mac");
    vp_assert_eq(dy->data(), wb, ob, "mac");
    vp_reach("two");
}

// ---- A01
static const char *const NAMES[16][2] = {{"md5", "MD5"}, {"sha1", "SHA1"}, {"sha224", "SHA224"}, {"sha256", "SHA256"}, {"sha384", "SHA384"}, {"sha512", "SHA512"},
    {"sha512_224", "SHA512_224"}, {"sha512_256", "SHA512_256"}, {"sha3_224", "SHA3_224"}, {"sha3_256", "SHA3_256"}, {"sha3_384", "SHA3_384"}, {"sha3_512", "SHA3_512"},
    {"rawshake128", "RawSHAKE128"}, {"shake128", "SHAKE128"}, {"rawshake256", "RawSHAKE256"}, {"shake256", "SHAKE256"}};
static int lookup(const char *s, size_t n) { // -1: the unknown-name error
    try {
        return (int)_algstr(s);
    } catch (const std::exception &) {
        return -1;
    }
}
// every documented name selects its algorithm, in every form; the encoders built from it agree
VP_ENTRY a_names(int alg) {
    for (int c = 0; c < 2; c++) {
        const char *s = NAMES[alg][c];
        vp_assert(_algstr(s) == alg_enum(alg), "name as C string");
        vp_assert(_algstr(std::string(s)) == alg_enum(alg), "name as std::string");
        vp_assert(libpgfe::operator"" _pgfe_alg(s, strlen(s)) == alg_enum(alg), "name as literal");
        HashEncoder e(_algstr(s));
        sizes(e, alg);
    }
    vp_assert(pgfe_digest_length.at(alg_enum(alg)) == ref_digest_size(alg), "digest length table");
    vp_assert(pgfe_block_length.at(alg_enum(alg)) == ref_block_size(alg), "block length table");
    vp_assert(pgfe_digest_length.size() == 16 && pgfe_block_length.size() == 16, "table sizes");
    vp_assert((int)alg_enum(alg) == alg, "selector value");
    size_t d = 0, b = 0;
    switch (alg) {
#define Z(E) case R_##E: d = PGFE_##E##_DIGEST_SIZE, b = PGFE_##E##_BLOCK_SIZE; break;
        Z(MD5) Z(SHA1) Z(SHA224) Z(SHA256) Z(SHA384) Z(SHA512) Z(SHA512_224) Z(SHA512_256) Z(SHA3_224) Z(SHA3_256) Z(SHA3_384) Z(SHA3_512) Z(SHAKE128) Z(SHAKE256)
#undef Z
    case R_RAWSHAKE128: d = PGFE_RawSHAKE128_DIGEST_SIZE, b = PGFE_RawSHAKE128_BLOCK_SIZE; break;
    case R_RAWSHAKE256: d = PGFE_RawSHAKE256_DIGEST_SIZE, b = PGFE_RawSHAKE256_BLOCK_SIZE; break;
    }
    vp_assert(d == ref_digest_size(alg) && b == ref_block_size(alg), "size constants");
    vp_reach("names");
}
// any text of n characters: an algorithm exactly when it is a documented name
VP_ENTRY a_any(size_t n) {
    char *s = (char *)new_bytes(n + 1);
    vp_symbolic(s, n, "name");
    s[n] = 0;
    for (size_t i = 0; i < n; i++) vp_assume(s[i] != 0);
    int want = -1;
    for (int a = 0; a < 16; a++)
        for (int c = 0; c < 2; c++) {
            if (strlen(NAMES[a][c]) != n) continue;
            int eq = 1;
            for (size_t i = 0; i < n; i++) eq &= s[i] == NAMES[a][c][i];
            want = eq ? a : want;
        }
    vp_assert(lookup(s, n) == want, "algorithm of the name");
    vp_reach("any");
}
// a documented name with one character replaced by any other, or one appended or cut off
VP_ENTRY a_near(int alg, int c, int pos) {
    size_t n = strlen(NAMES[alg][c]);
    char *s = (char *)new_bytes(n + 2), x;
    memcpy(s, NAMES[alg][c], n + 1);
    s[n + 1] = 0;
    vp_symbolic(&x, 1, "character");
    vp_assume((size_t)pos < n ? x != 0 : 1);
    if ((size_t)pos > n) return;
    s[pos] = x;
    size_t l = (size_t)pos < n ? n : n + 1;
    int want = -1;
    for (int a = 0; a < 16; a++)
        for (int d = 0; d < 2; d++) {
            size_t k = strlen(NAMES[a][d]);
            int eq = k <= n;
            for (size_t i = 0; i <= k && i <= n; i++) eq &= s[i] == NAMES[a][d][i];
            want = eq ? a : want;
        }
    vp_assert(lookup(s, l) == want, "algorithm of the name");
    vp_reach("near");
}
