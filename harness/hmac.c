// M01: HMAC (C functions) against RFC 2104.
#include "algs.h"

VP_ENTRY m_oneshot(int alg, size_t kn, size_t n) {
    size_t o = ref_digest_size(alg);
    uint8_t *k = sym_bytes(kn, "key"), *m = sym_bytes(n, "msg"), *out = new_bytes(o), *want = new_bytes(o);
    hmac_oneshot(alg, k, kn, m, n, out);
    ref_hmac(alg, k, kn, m, n, want);
    vp_assert_eq(out, want, o, "mac");
    vp_reach("oneshot");
}
VP_ENTRY m_select(int alg, size_t kn, size_t n) {
    size_t o = ref_digest_size(alg);
    uint8_t *k = sym_bytes(kn, "key"), *m = sym_bytes(n, "msg"), *out = new_bytes(o), *want = new_bytes(o);
    pgfe_hmac(alg_enum(alg), k, kn, m, n, out);
    ref_hmac(alg, k, kn, m, n, want);
    vp_assert_eq(out, want, o, "mac");
    vp_reach("select");
}
// context over any memory contents, message cut anywhere; rekey: another key of rn bytes was set (and used) first
VP_ENTRY m_ctx(int alg, size_t kn, size_t n, size_t rn, int rekey) {
    size_t o = ref_digest_size(alg);
    uint8_t *k = sym_bytes(kn, "key"), *k0 = sym_bytes(rn, "first_key"), *m = sym_bytes(n, "msg"), *out = new_bytes(o), *want = new_bytes(o), cut;
    uint8_t *c = sym_bytes(hmac_ctx_size(alg), "memory");
    vp_merge(0);
    ref_init();
    vp_symbolic(&cut, 1, "cut");
    vp_assume(cut <= n);
    size_t a = vp_pick(cut);
    hmac_init(alg, c);
    if (rekey) {
        hmac_set_key(alg, c, k0, rn);
        hmac_update(alg, c, m, n / 2);
        if (rekey > 1) hmac_digest(alg, c, out);
    }
    hmac_set_key(alg, c, k, kn);
    hmac_update(alg, c, m, a);
    hmac_update(alg, c, m + a, n - a);
    hmac_digest(alg, c, out);
    ref_hmac(alg, k, kn, m, n, want);
    vp_assert_eq(out, want, o, "mac");
    vp_reach("ctx");
}
// no key set: the key is empty
VP_ENTRY m_nokey(int alg, size_t n) {
    size_t o = ref_digest_size(alg);
    uint8_t *m = sym_bytes(n, "msg"), *out = new_bytes(o), *want = new_bytes(o);
    void *c = malloc(hmac_ctx_size(alg));
    hmac_init(alg, c);
    hmac_update(alg, c, m, n);
    hmac_digest(alg, c, out);
    ref_hmac(alg, m, 0, m, n, want);
    vp_assert_eq(out, want, o, "mac");
    vp_reach("nokey");
}
