// F01-F04: Blowfish
#include "libpgfe/fishes/blowfish.h"
#include "libpgfe/fishes/blowfish.hpp"
#include "ref.h"
#include "vp.h"
#include <new>
#include <stdlib.h>
#include <string>
using namespace libpgfe;
typedef uint8_t u8;
typedef struct pgfe_blowfish_ctx Ctx;
static u8 *new_bytes(size_t n) { return (u8 *)malloc(n); }
static u8 *sym_bytes(size_t n, const char *name) {
    u8 *p = new_bytes(n);
    vp_symbolic(p, n, name);
    return p;
}
// an expanded key with any contents
static Ctx *any_ctx(ref_bf *r) {
    Ctx *c = (Ctx *)malloc(sizeof(Ctx));
    vp_symbolic(c->P, sizeof c->P, "P");
    vp_symbolic(c->S, sizeof c->S, "S");
    memcpy(r->P, c->P, sizeof c->P);
    memcpy(r->S, c->S, sizeof c->S);
    return c;
}
static void same_ctx(const Ctx *c, const ref_bf *r, const char *what) {
    vp_assert_eq(c->P, r->P, sizeof c->P, what);
    vp_assert_eq(c->S, r->S, sizeof c->S, what);
}

// ---- F01
VP_ENTRY f_unit(int mode) {
    static ref_bf r;
    Ctx *c = any_ctx(&r);
    pgfe_fake_uint64_t x, y;
    uint32_t l, rr;
    vp_symbolic(&l, 4, "left");
    vp_symbolic(&rr, 4, "right");
    x.left = l;
    x.right = rr;
    if (mode == 0) {
        pgfe_blowfish_encrypt_unit(c, &x);
        ref_bf_enc(&r, &l, &rr);
    } else if (mode == 1) {
        pgfe_blowfish_decrypt_unit(c, &x);
        ref_bf_dec(&r, &l, &rr);
    } else if (mode == 2) {
        pgfe_blowfish_encrypt_unit(c, &x);
        y = x;
        pgfe_blowfish_decrypt_unit(c, &y);
        x = y;
    } else {
        pgfe_blowfish_decrypt_unit(c, &x);
        y = x;
        pgfe_blowfish_encrypt_unit(c, &y);
        x = y;
    }
    vp_assert_eq(&x.left, &l, 4, "left half");
    vp_assert_eq(&x.right, &rr, 4, "right half");
    same_ctx(c, &r, "expanded key left alone");
    vp_reach("unit");
}

// ---- F02
static void ref_buf(const ref_bf *r, const u8 *m, size_t n, int dec, u8 *out) {
    for (size_t i = 0; i < n; i += 8) {
        uint32_t h[2] = {0, 0};
        for (size_t j = 0; j < 8; j++) h[j / 4] = h[j / 4] << 8 | (i + j < n ? m[i + j] : 0);
        if (dec) ref_bf_dec(r, &h[0], &h[1]);
        else ref_bf_enc(r, &h[0], &h[1]);
        for (int j = 0; j < 8; j++) out[i + j] = (u8)(h[j / 4] >> (24 - 8 * (j & 3)));
    }
}
// buffer of n bytes, output exactly as large as the padded length; alias: output over input (n a multiple of 8)
VP_ENTRY f_buf(size_t n, int dec, int alias) {
    static ref_bf r;
    Ctx *c = any_ctx(&r);
    size_t p = (n + 7) / 8 * 8;
    u8 *m = sym_bytes(n, "data"), *m0 = new_bytes(n), *out = alias ? m : new_bytes(p), *want = new_bytes(p);
    memcpy(m0, m, n);
    size_t got = dec ? pgfe_blowfish_decrypt(c, m, n, out) : pgfe_blowfish_encrypt(c, m, n, out);
    vp_assert(got == p, "length returned");
    ref_buf(&r, m0, n, dec, want);
    vp_assert_eq(out, want, p, "data");
    if (!alias) vp_assert_eq(m, m0, n, "input left alone");
    same_ctx(c, &r, "expanded key left alone");
    vp_reach("buf");
}
VP_ENTRY f_roundtrip(size_t n, int first) {
    static ref_bf r;
    Ctx *c = any_ctx(&r);
    size_t p = (n + 7) / 8 * 8;
    u8 *m = sym_bytes(n, "data"), *mid = new_bytes(p), *back = new_bytes(p), *want = new_bytes(p);
    size_t a = first ? pgfe_blowfish_decrypt(c, m, n, mid) : pgfe_blowfish_encrypt(c, m, n, mid);
    size_t b = first ? pgfe_blowfish_encrypt(c, mid, p, back) : pgfe_blowfish_decrypt(c, mid, p, back);
    vp_assert((a == p) & (b == p), "lengths returned");
    memset(want, 0, p);
    memcpy(want, m, n);
    vp_assert_eq(back, want, p, "data and padding");
    vp_reach("roundtrip");
}

// ---- F03
VP_ENTRY f_init(size_t kn) {
    static ref_bf r;
    u8 *k = sym_bytes(kn, "key"), *k0 = new_bytes(kn);
    memcpy(k0, k, kn);
    Ctx *c = (Ctx *)malloc(sizeof(Ctx));
    pgfe_blowfish_init(c, k, kn);
    ref_bf_init(&r, k0, kn);
    same_ctx(c, &r, "expanded key");
    vp_assert_eq(k, k0, kn, "key left alone");
    vp_reach("init");
}
// a second key over the context of a first one
VP_ENTRY f_again(size_t kn1, size_t kn2) {
    static ref_bf r;
    u8 *k1 = sym_bytes(kn1, "key1"), *k2 = sym_bytes(kn2, "key2");
    Ctx *c = (Ctx *)malloc(sizeof(Ctx));
    vp_symbolic(c, sizeof(Ctx), "memory");
    pgfe_blowfish_init(c, k1, kn1);
    pgfe_blowfish_init(c, k2, kn2);
    ref_bf_init(&r, k2, kn2);
    same_ctx(c, &r, "expanded key");
    vp_reach("again");
}

// ---- F04
static void no_nul(const u8 *m, size_t n, int form) {
    if (form == 1)
        for (size_t i = 0; i < n; i++) vp_assume(m[i] != 0);
}
static SequentialData *run(Blowfish &b, const u8 *m, size_t n, int form, int dec) {
    if (form == 0) {
        u8 *x = new_bytes(n);
        memcpy(x, m, n);
        SequentialData *s = new SequentialData(dec ? b.decrypt(x, n) : b.encrypt(x, n));
        free(x);
        return s;
    }
    if (form == 1) {
        char *x = (char *)new_bytes(n + 1);
        memcpy(x, m, n);
        x[n] = 0;
        SequentialData *s = new SequentialData(dec ? b.decrypt(x) : b.encrypt(x));
        free(x);
        return s;
    }
    if (form == 2) {
        std::string x((const char *)m, n);
        return new SequentialData(dec ? b.decrypt(x) : b.encrypt(x));
    }
    SequentialData x(m, n);
    return new SequentialData(dec ? b.decrypt(x) : b.encrypt(x));
}
VP_ENTRY f_obj(size_t kn, int kform, size_t n1, int f1, size_t n2, int f2) {
    static ref_bf r;
    u8 *k = sym_bytes(kn, "key"), *m1 = sym_bytes(n1, "data"), *m2 = sym_bytes(n2, "cipher"), *memo = sym_bytes(sizeof(Blowfish), "memory");
    no_nul(k, kn, kform);
    no_nul(m1, n1, f1);
    no_nul(m2, n2, f2);
    Blowfish *b;
    {
        u8 *x = new_bytes(kn + 1);
        memcpy(x, k, kn);
        x[kn] = 0;
        if (kform == 0) {
            u8 *y = new_bytes(kn);
            memcpy(y, k, kn);
            b = new (memo) Blowfish(y, kn);
            vp_undef(y, kn);
            free(y);
        } else if (kform == 1) b = new (memo) Blowfish((const char *)x);
        else if (kform == 2) b = new (memo) Blowfish(std::string((const char *)x, kn));
        else b = new (memo) Blowfish(SequentialData(x, kn));
        vp_undef(x, kn + 1);
        free(x);
    }
    ref_bf_init(&r, k, kn);
    size_t p1 = (n1 + 7) / 8 * 8, p2 = (n2 + 7) / 8 * 8;
    u8 *w1 = new_bytes(p1), *w2 = new_bytes(p2), *back = new_bytes(p1);
    ref_buf(&r, m1, n1, 0, w1);
    ref_buf(&r, m2, n2, 1, w2);
    SequentialData *e = run(*b, m1, n1, f1, 0);
    vp_assert(e->length() == p1, "length of the encryption");
    if (e->length() != p1) return;
    vp_assert_eq(e->data(), w1, p1, "encryption");
    SequentialData *d = run(*b, m2, n2, f2, 1);
    vp_assert(d->length() == p2, "length of the decryption");
    if (d->length() != p2) return;
    vp_assert_eq(d->data(), w2, p2, "decryption");
    SequentialData bd = b->decrypt(*e);
    memset(back, 0, p1);
    memcpy(back, m1, n1);
    vp_assert(bd.length() == p1, "length of the data decrypted again");
    if (bd.length() == p1) vp_assert_eq(bd.data(), back, p1, "data decrypted again");
    AbstractSymmetricCrypter &ab = *b; // through the base class
    SequentialData *eb = new SequentialData(f1 == 2 ? ab.encrypt(std::string((const char *)m1, n1)) : ab.encrypt(m1, n1));
    vp_assert(eb->length() == p1, "length through the base class");
    if (eb->length() == p1) vp_assert_eq(eb->data(), w1, p1, "encryption through the base class");
    b->~Blowfish();
    vp_reach("obj");
}
