// H01-H09: hash functions against the references.
#include "algs.h"
typedef const uint8_t *cbp;

static size_t outlen(int alg, size_t outn) { return outn ? outn : ref_digest_size(alg); }

// every message of length n: one-shot function
VP_ENTRY h_oneshot(int alg, size_t n, size_t outn) {
    outn = outlen(alg, outn);
    uint8_t *m = sym_bytes(n, "msg"), *out = new_bytes(outn), *want = new_bytes(outn);
    alg_encode(alg, m, n, out, outn);
    ref_hash_n(alg, m, n, want, outn);
    vp_assert_eq(out, want, outn, "digest");
    vp_reach("oneshot");
}
// init/update/digest over memory with unknown contents
VP_ENTRY h_context(int alg, size_t n, size_t outn) {
    outn = outlen(alg, outn);
    uint8_t *m = sym_bytes(n, "msg"), *out = new_bytes(outn), *want = new_bytes(outn);
    void *c = malloc(alg_ctx_size(alg));
    alg_init(alg, c);
    alg_update(alg, c, m, n);
    alg_digest(alg, c, out, outn);
    ref_hash_n(alg, m, n, want, outn);
    vp_assert_eq(out, want, outn, "digest");
    vp_reach("context");
}
// long messages: a fixed prefix, then every value of the last tn bytes, fed in pieces of `piece` bytes (0: at once)
VP_ENTRY h_long(int alg, size_t n, size_t tn, size_t piece) {
    size_t outn = ref_digest_size(alg);
    uint8_t *m = new_bytes(n), *out = new_bytes(outn), *want = new_bytes(outn);
    uint32_t x = 12345;
    for (size_t i = 0; i < n - tn; i++) {
        x = x * 1103515245u + 12345u;
        m[i] = (uint8_t)(x >> 16);
    }
    vp_symbolic(m + (n - tn), tn, "tail");
    if (piece == 0) alg_encode(alg, m, n, out, outn);
    else {
        void *c = malloc(alg_ctx_size(alg));
        alg_init(alg, c);
        for (size_t i = 0; i < n; i += piece) alg_update(alg, c, m + i, n - i < piece ? n - i : piece);
        alg_digest(alg, c, out, outn);
    }
    ref_hash(alg, m, n, want);
    vp_assert_eq(out, want, outn, "digest");
    vp_reach("long");
}

// ---------------------------------------------------------------- H07: ways of feeding
// message of n bytes cut at two symbolic places lo <= a <= b <= n, b = min(a + d, n), d <= span
VP_ENTRY h_split(int alg, size_t n, size_t lo, size_t span) {
    size_t outn = ref_digest_size(alg);
    uint8_t *m = sym_bytes(n, "msg"), *out = new_bytes(outn), *want = new_bytes(outn), ad[2];
    vp_merge(0);
    ref_init();
    vp_symbolic(ad, 2, "cuts");
    vp_assume(ad[0] >= lo);
    vp_assume(ad[0] <= n);
    vp_assume(ad[1] <= span);
    size_t a = vp_pick(ad[0]), d = vp_pick(ad[1]); // one path per cut
    size_t b = a + d < n ? a + d : n;
    void *c = malloc(alg_ctx_size(alg));
    alg_init(alg, c);
    alg_update(alg, c, m, a);
    alg_update(alg, c, m + a, b - a);
    alg_update(alg, c, m + b, n - b);
    alg_digest(alg, c, out, outn);
    ref_hash(alg, m, n, want);
    vp_assert_eq(out, want, outn, "digest");
    vp_reach("split");
}
// fixed piece size
VP_ENTRY h_pieces(int alg, size_t n, size_t piece) {
    size_t outn = ref_digest_size(alg);
    uint8_t *m = sym_bytes(n, "msg"), *out = new_bytes(outn), *want = new_bytes(outn);
    void *c = malloc(alg_ctx_size(alg));
    alg_init(alg, c);
    for (size_t i = 0; i < n; i += piece) {
        alg_update(alg, c, m + i, n - i < piece ? n - i : piece);
        alg_update(alg, c, m + i, 0);
    }
    alg_digest(alg, c, out, outn);
    ref_hash(alg, m, n, want);
    vp_assert_eq(out, want, outn, "digest");
    vp_reach("pieces");
}
// three pieces as a list; bit i of `nulls` replaces piece i by a NULL pointer (skipped whatever its size)
VP_ENTRY h_multiple(int alg, size_t a, size_t b, size_t c, int nulls, size_t outn) {
    outn = outlen(alg, outn);
    uint8_t *pa = sym_bytes(a, "a"), *pb = sym_bytes(b, "b"), *pc = sym_bytes(c, "c");
    uint8_t *all = new_bytes(a + b + c), *out = new_bytes(outn), *want = new_bytes(outn);
    size_t n = 0;
    if (!(nulls & 1)) for (size_t i = 0; i < a; i++) all[n++] = pa[i];
    if (!(nulls & 2)) for (size_t i = 0; i < b; i++) all[n++] = pb[i];
    if (!(nulls & 4)) for (size_t i = 0; i < c; i++) all[n++] = pc[i];
    alg_encode_multiple3(alg, out, outn, nulls & 1 ? 0 : pa, a, nulls & 2 ? 0 : pb, b, nulls & 4 ? 0 : pc, c);
    ref_hash_n(alg, all, n, want, outn);
    vp_assert_eq(out, want, outn, "digest of the pieces");
    vp_reach("multiple");
}
VP_ENTRY h_multiple0(int alg) {
    size_t outn = ref_digest_size(alg);
    uint8_t *out = new_bytes(outn), *want = new_bytes(outn);
    alg_encode_multiple0(alg, out, outn);
    ref_hash_n(alg, want, 0, want, outn);
    vp_assert_eq(out, want, outn, "digest of no pieces");
    vp_reach("multiple0");
}
// twelve pieces of different sizes, some NULL, some empty
VP_ENTRY h_many(int alg, size_t step, int nulls) {
    size_t outn = ref_digest_size(alg), total = 0, k = 0, sz[12];
    const uint8_t *p[12];
    for (int i = 0; i < 12; i++) sz[i] = (i * step + i / 3) % (step + 2), total += sz[i];
    uint8_t *all = sym_bytes(total, "msg"), *joined = new_bytes(total), *out = new_bytes(outn), *want = new_bytes(outn);
    total = 0;
    for (int i = 0; i < 12; i++) {
        uint8_t *x = new_bytes(sz[i]);
        for (size_t j = 0; j < sz[i]; j++) x[j] = all[total + j];
        total += sz[i];
        if (nulls >> i & 1) p[i] = 0;
        else {
            p[i] = x;
            for (size_t j = 0; j < sz[i]; j++) joined[k++] = x[j];
        }
    }
    alg_encode_multiple12(alg, out, outn, p, sz);
    ref_hash_n(alg, joined, k, want, outn);
    vp_assert_eq(out, want, outn, "digest of twelve pieces");
    vp_reach("many");
}
// a stdio stream of n bytes: the first n - tn fixed when tn < n
VP_ENTRY h_stream(int alg, size_t n, size_t tn, size_t outn) {
    outn = outlen(alg, outn);
    uint8_t *m = new_bytes(n), *out = new_bytes(outn), *want = new_bytes(outn);
    if (tn > n) tn = n;
    for (size_t i = 0; i < n - tn; i++) m[i] = (uint8_t)(i * 7 + (i >> 8));
    vp_symbolic(m + (n - tn), tn, "tail");
    FILE *f = vp_fopen_mem(m, n);
    alg_encode_f(alg, f, out, outn);
    ref_hash_n(alg, m, n, want, outn);
    vp_assert_eq(out, want, outn, "digest of the stream");
    vp_reach("stream");
}
// NUL-terminated string of exactly n characters
VP_ENTRY h_string(int alg, size_t n, size_t outn) {
    outn = outlen(alg, outn);
    uint8_t *m = new_bytes(n + 1), *out = new_bytes(outn), *want = new_bytes(outn);
    vp_symbolic(m, n, "text");
    for (size_t i = 0; i < n; i++) vp_assume(m[i] != 0);
    m[n] = 0;
    alg_encode_default(alg, m, out, outn);
    ref_hash_n(alg, m, n, want, outn);
    vp_assert_eq(out, want, outn, "digest of the string");
    vp_reach("string");
}
// the first NUL ends the string, wherever it is
VP_ENTRY h_string_any(int alg, size_t n) {
    size_t outn = ref_digest_size(alg), k = 0;
    uint8_t *m = new_bytes(n + 1), *out = new_bytes(outn), *want = new_bytes(outn);
    vp_merge(0);
    ref_init();
    vp_symbolic(m, n, "text");
    m[n] = 0;
    while (m[k]) k++;
    alg_encode_default(alg, m, out, outn);
    ref_hash(alg, m, k, want);
    vp_assert_eq(out, want, outn, "digest of the string");
    vp_reach("string");
}

// ---------------------------------------------------------------- H08: any amount of data before
// A context in the middle of any message: every chaining value, every total length congruent to idx modulo the block
// size, idx pending bytes; then k more bytes and the digest.
VP_ENTRY h_midstate(int alg, size_t idx, size_t k) {
    size_t bs = ref_block_size(alg), outn = ref_digest_size(alg), n = idx + k, pos = 0;
    uint8_t *tail = sym_bytes(n, "tail"), *out = new_bytes(outn), *want = new_bytes(outn);
    uint64_t st[8], len[2] = {0, 0}, hi, lo;
    vp_symbolic(st, sizeof st, "state");
    vp_symbolic(len, sizeof len, "length");
    len[0] = (len[0] & ~(uint64_t)(8 * bs - 1)) | 8 * idx; // low 64 bits of the bit length
    any_ctx *c = (any_ctx *)malloc(alg_ctx_size(alg));
    alg_init(alg, c);
    if (alg == R_MD5) {
        len[1] &= 7; // byte length below 2^64
        for (int i = 0; i < 4; i++) c->md5.state[i] = (uint32_t)st[i], st[i] = (uint32_t)st[i];
        c->md5.block_len = len[0] >> 3 | len[1] << 61;
        for (size_t i = 0; i < idx; i++) c->md5.block[i] = tail[i];
        lo = len[0] + 8 * k, hi = 0; // modulo 2^64, as RFC 1321 counts
    }
    else if (bs == 64) {
        len[1] = 0;
        for (int i = 0; i < (alg == R_SHA1 ? 5 : 8); i++) {
            st[i] = (uint32_t)st[i];
            if (alg == R_SHA1) c->sha1.state[i] = (uint32_t)st[i];
            else c->sha256.state[i] = (uint32_t)st[i];
        }
        if (alg == R_SHA1) {
            c->sha1.len_low = (uint32_t)len[0], c->sha1.len_high = (uint32_t)(len[0] >> 32), c->sha1.index = idx;
            for (size_t i = 0; i < idx; i++) c->sha1.block[i] = tail[i];
        }
        else {
            c->sha256.len_low = (uint32_t)len[0], c->sha256.len_high = (uint32_t)(len[0] >> 32), c->sha256.index = idx;
            for (size_t i = 0; i < idx; i++) c->sha256.block[i] = tail[i];
        }
        lo = len[0] + 8 * k, hi = 0;
        vp_assume(lo >= len[0]); // the standard's length limit
    }
    else {
        for (int i = 0; i < 8; i++) c->sha512.state[i] = st[i];
        c->sha512.len_low = len[0], c->sha512.len_high = len[1], c->sha512.index = idx;
        for (size_t i = 0; i < idx; i++) c->sha512.block[i] = tail[i];
        lo = len[0] + 8 * k;
        hi = len[1] + (lo < len[0]);
        vp_assume(hi >= len[1]);
    }
    alg_update(alg, c, tail + idx, k);
    alg_digest(alg, c, out, outn);
    for (; n - pos >= bs; pos += bs) ref_md_block(alg, st, tail + pos);
    ref_md_finish(alg, st, tail + pos, n - pos, hi, lo, want);
    vp_assert_eq(out, want, outn, "digest");
    vp_reach("midstate");
}
VP_ENTRY h_midstate_keccak(int alg, size_t idx, size_t k, size_t outn) {
    outn = outlen(alg, outn);
    size_t n = idx + k;
    uint8_t *tail = sym_bytes(n, "tail"), *out = new_bytes(outn), *want = new_bytes(outn);
    uint64_t st[25];
    vp_symbolic(st, sizeof st, "state");
    any_ctx *ac = (any_ctx *)malloc(alg_ctx_size(alg));
    alg_init(alg, ac);
    struct pgfe_keccak_sponge_ctx *c = (struct pgfe_keccak_sponge_ctx *)ac;
    vp_symbolic(c->data_queue, ref_block_size(alg), "stale"); // whatever earlier blocks left in the queue
    for (int x = 0; x < 5; x++)
        for (int y = 0; y < 5; y++) c->state[x][y] = st[x + 5 * y];
    for (size_t i = 0; i < idx; i++) c->data_queue[i] = tail[i];
    c->inqueue_bits = (uint32_t)(8 * idx);
    alg_update(alg, ac, tail + idx, k);
    alg_digest(alg, ac, out, outn);
    ref_sponge_finish(alg, st, tail, n, want, outn);
    vp_assert_eq(out, want, outn, "digest");
    vp_reach("midstate");
}

// ---------------------------------------------------------------- H09: independence and reuse
// two contexts of (possibly) different algorithms, operations interleaved in every order: at each step a symbolic bit
// chooses which of them takes its next operation
VP_ENTRY h_interleave(int alg1, int alg2, size_t n1, size_t n2) {
    int alg[2] = {alg1, alg2};
    size_t n[2] = {n1, n2}, o[2] = {ref_digest_size(alg1), ref_digest_size(alg2)};
    uint8_t *m[2], *out[2], *want[2], pick[8];
    void *c[2];
    int step[2] = {0, 0};
    vp_merge(0);
    ref_init();
    m[0] = sym_bytes(n1, "m1");
    m[1] = sym_bytes(n2, "m2");
    for (int i = 0; i < 2; i++) {
        out[i] = new_bytes(o[i]), want[i] = new_bytes(o[i]);
        c[i] = malloc(alg_ctx_size(alg[i]));
    }
    vp_symbolic(pick, 8, "order");
    for (int t = 0; t < 8; t++) {
        int w = step[0] == 4 ? 1 : step[1] == 4 ? 0 : (int)vp_pick(pick[t] & 1);
        size_t h = n[w] / 3;
        switch (step[w]++) {
        case 0: alg_init(alg[w], c[w]); break;
        case 1: alg_update(alg[w], c[w], m[w], h); break;
        case 2: alg_update(alg[w], c[w], m[w] + h, n[w] - h); break;
        case 3: alg_digest(alg[w], c[w], out[w], o[w]); break;
        }
    }
    for (int i = 0; i < 2; i++) {
        ref_hash(alg[i], m[i], n[i], want[i]);
        vp_assert_eq(out[i], want[i], o[i], "digest of each context");
    }
    vp_reach("interleave");
}
// a context used for another message (finished when fin is set, abandoned otherwise) and initialised again
VP_ENTRY h_reinit(int alg, size_t used, size_t n, int fin) {
    size_t outn = ref_digest_size(alg);
    uint8_t *m = sym_bytes(n, "msg"), *u = sym_bytes(used, "before"), *out = new_bytes(outn), *want = new_bytes(outn), *junk = new_bytes(outn);
    void *c = malloc(alg_ctx_size(alg));
    alg_init(alg, c);
    alg_update(alg, c, u, used);
    if (fin) alg_digest(alg, c, junk, outn);
    alg_init(alg, c);
    alg_update(alg, c, m, n);
    alg_digest(alg, c, out, outn);
    ref_hash(alg, m, n, want);
    vp_assert_eq(out, want, outn, "digest after re-initialisation");
    vp_reach("reinit");
}
// initialisation over memory holding any bytes at all
VP_ENTRY h_overany(int alg, size_t n) {
    size_t outn = ref_digest_size(alg), cs = alg_ctx_size(alg);
    uint8_t *c = sym_bytes(cs, "memory"), *m = sym_bytes(n, "msg"), *out = new_bytes(outn), *want = new_bytes(outn);
    alg_init(alg, c);
    alg_update(alg, c, m, n);
    alg_digest(alg, c, out, outn);
    ref_hash(alg, m, n, want);
    vp_assert_eq(out, want, outn, "digest");
    vp_reach("overany");
}
// a one-shot call of one algorithm between the operations of another's context
VP_ENTRY h_oneshot_between(int alg, int other, size_t n, size_t on) {
    size_t outn = ref_digest_size(alg), oo = ref_digest_size(other), h = n / 2;
    uint8_t *m = sym_bytes(n, "msg"), *x = sym_bytes(on, "other"), *out = new_bytes(outn), *want = new_bytes(outn), *xo = new_bytes(oo), *xw = new_bytes(oo);
    void *c = malloc(alg_ctx_size(alg));
    ref_hash(other, x, on, xw);
    alg_init(alg, c);
    alg_encode(other, x, on, xo, oo);
    vp_assert_eq(xo, xw, oo, "one-shot digest");
    alg_update(alg, c, m, h);
    alg_encode(other, x, on, xo, oo);
    vp_assert_eq(xo, xw, oo, "one-shot digest");
    alg_update(alg, c, m + h, n - h);
    alg_encode(other, x, on, xo, oo);
    alg_digest(alg, c, out, outn);
    ref_hash(alg, m, n, want);
    vp_assert_eq(out, want, outn, "context digest");
    vp_assert_eq(xo, xw, oo, "one-shot digest");
    vp_reach("between");
}

// a few bytes, then one update of about base bytes (zeros); under irsym its first limit bytes
VP_ENTRY h_huge(int alg, size_t pending, size_t base, size_t spread, size_t limit) {
    size_t outn = ref_digest_size(alg);
    uint32_t d;
    vp_symbolic(&d, sizeof d, "length");
    vp_assume(d <= 2 * spread);
    size_t n = base - spread + d;
    uint8_t *m = vp_huge(pending + base + spread, limit + pending), *out = new_bytes(outn), *want = new_bytes(outn);
    vp_reach("huge");
    if (pending) {
        void *c = malloc(alg_ctx_size(alg));
        alg_init(alg, c);
        alg_update(alg, c, m, pending);
        alg_update(alg, c, m + pending, n);
        vp_assert(!vp_huge_short(), "the update ended before the end of the data"); // compiled: the digest decides
        alg_digest(alg, c, out, outn);
    } else {
        alg_encode(alg, m, n, out, outn);
        vp_assert(!vp_huge_short(), "the call ended before the end of the data");
    }
    ref_hash(alg, m, pending + n, want);
    vp_assert(!memcmp(out, want, outn), "digest");
}
