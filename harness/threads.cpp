// T01: the library keeps no state of its own: threads working on separate objects, or only reading shared ones
#include "libpgfe/base_encoding/base16.hpp"
#include "libpgfe/base_encoding/base32.hpp"
#include "libpgfe/base_encoding/base64.hpp"
#include "libpgfe/fishes/blowfish.hpp"
#include "libpgfe/generic.hpp"
#include "libpgfe/hashes/hash_encoder.hpp"
#include "libpgfe/hmac/hmac_encoder.hpp"
#include "libpgfe/otp/hotp.h"
#include "libpgfe/otp/hotp.hpp"
#include "libpgfe/otp/totp.h"
#include "libpgfe/otp/totp.hpp"
#include "libpgfe/sequential_data.hpp"
#include "libpgfe/utils.h"
#include "libpgfe/utils.hpp"
#include "algs.h"
#include "base.h"
#include <string>
using namespace libpgfe;
typedef uint8_t u8;
enum { IN = 24, OUT = 12000 };

struct Out {
    u8 *p;
    size_t n;
    void put(const void *q, size_t l) {
        if (n + l <= OUT) memcpy(p + n, q, l);
        n += l;
    }
    void put(const std::string &s) { num(s.length()), put(s.data(), s.length()); }
    void put(const SequentialData &s) { num(s.length()), put(s.data(), s.length()); }
    void num(uint64_t v) { put(&v, 8); }
};
struct Shared { // only ever read after it has been made
    pgfe_blowfish_ctx bf;
    Blowfish *bo;
    HOTP *hotp;
    SequentialData *sd;
    Base64 *b64;
    HashEncoder *he;
    const Base32 *b32;
};

static void base_obj(AbstractBaseEncoding &e, int k, const u8 *in, Out &o) {
    std::string s = e.encode(in, 7);
    o.put(s);
    char t[2 * 8 + 9];
    t[lib_encode(k, in, 5, t)] = 0;
    o.put(e.decode(t));
    o.num(e.unit_size() + e.chunk_size() + e.bit_size() + e.alphabet_size());
}
// one family of operations; in: IN bytes, v: 0..3 chooses among its variants
static void ops(int fam, int v, const u8 *in, Out &o, Shared *sh) {
    u8 h[96];
    switch (fam) {
    case 0: // hash functions in C
        for (int a = 0; a < R_NALG; a++) {
            size_t n = ref_digest_size(a);
            if (a % 2 == v % 2) {
                void *c = malloc(alg_ctx_size(a));
                alg_init(a, c);
                alg_update(a, c, in, 9);
                alg_update(a, c, in + 9, 5);
                alg_digest(a, c, h, n);
                free(c);
            } else
                alg_encode(a, in, 13, h, n);
            o.put(h, n);
        }
        break;
    case 1: // other forms
        for (int a = 0; a < R_NALG; a++) {
            size_t n = ref_digest_size(a);
            if (a % 2 == v % 2) alg_encode_multiple3(a, h, n, in, 3, in + 3, 4, in + 7, 2);
            else {
                static const u8 text[] = "abc";
                alg_encode_default(a, text, h, n);
            }
            o.put(h, n);
        }
        break;
    case 2: // HMAC in C
        for (int a = 0; a <= R_SHA3_512; a++) {
            size_t n = ref_digest_size(a);
            pgfe_hmac((enum pgfe_algorithm_choice)alg_enum(a), in, 6, in + 6, 7, h);
            o.put(h, n);
        }
        break;
    case 3: // base encodings in C
        for (int k = 0; k < 5; k++) {
            char t[80];
            size_t m = lib_encode(k, in, 11, t);
            t[m] = 0;
            o.num(m);
            o.put(t, m);
            size_t d = lib_decode(k, t, h);
            o.num(d);
            o.put(h, d);
        }
        break;
    case 4: // base codec objects
        if (v % 4 == 0) {
            Base16 e;
            base_obj(e, 0, in, o);
        } else if (v % 4 == 1) {
            Base32 e(v > 3);
            base_obj(e, v > 3 ? 2 : 1, in, o);
        } else {
            Base64 e(v % 4 == 3);
            base_obj(e, v % 4 + 1, in, o);
        }
        break;
    case 5: { // Blowfish: an expanded key of one's own, and a shared one
        static const u8 key[] = "a key of the tests";
        pgfe_blowfish_ctx *c = (pgfe_blowfish_ctx *)malloc(sizeof(pgfe_blowfish_ctx));
        if (v & 1) {
            pgfe_blowfish_init(c, key, 5 + v);
            o.num(pgfe_blowfish_encrypt(c, in, 3, h));
            o.put(h, 8);
        }
        if (sh) {
            o.num(pgfe_blowfish_encrypt(&sh->bf, in, 5, h));
            o.put(h, 8);
            o.num(pgfe_blowfish_decrypt(&sh->bf, in, 8, h));
            o.put(h, 8);
        }
        free(c);
        break;
    }
    case 6: // Blowfish objects
        if (v & 1) {
            Blowfish b("another key");
            o.put(b.encrypt(in, 4));
        }
        if (sh) {
            o.put(sh->bo->encrypt(in, 4));
            o.put(sh->bo->decrypt(in, 8));
        }
        break;
    case 7: // hash encoders
        for (int a = v % 2; a < R_NALG; a += 2) {
            HashEncoder e((pgfe_algorithm_choice)alg_enum(a));
            e.update(in, 7);
            std::string s((const char *)in, 4);
            e.update(s);
            o.put(*e.get_digest());
            e.reset();
            e.update(in, 2);
            o.put(*e.get_digest());
            o.num(e.digest_size() + e.block_size());
        }
        break;
    case 8: // HMAC encoders
        for (int a = v % 2; a <= R_SHA3_512; a += 2) {
            HMACEncoder e((pgfe_algorithm_choice)alg_enum(a), in, 5);
            e.update(in + 5, 7);
            o.put(*e.get_digest());
            o.num(e.digest_size() + e.block_size());
        }
        break;
    case 9: { // one-time passwords in C
        int32_t left = 0;
        uint64_t c = 0;
        memcpy(&c, in + 8, 8);
        o.num(pgfe_hotp_generic((enum pgfe_algorithm_choice)alg_enum(1 + v), in, 6, c, 6));
        o.num(pgfe_hotp_8digits(in, 7, c));
        o.num(pgfe_totp_generic((enum pgfe_algorithm_choice)alg_enum(3 + v), in, 6, 6, 30, 0, &left));
        o.num(left);
        o.num(pgfe_totp_6digits(in, 6, 60, &left));
        break;
    }
    case 10: { // one-time password objects
        uint64_t c = 0;
        memcpy(&c, in + 8, 8);
        HOTP a(in, 6, v & 1 ? SHA256 : SHA1);
        a.set_counter(c);
        o.num(a.generate());
        TOTP t(in, 5);
        o.num(t.generate(8));
        o.num(t.remaining_time());
        a.set_secret_from_base32("MFRGGZDF");
        a.set_counter(3);
        o.num(a.generate(7));
        if (sh) {
            o.num(sh->hotp->generate());
            o.num(((const AbstractOTP *)sh->hotp)->generate(8));
        }
        break;
    }
    case 11: { // byte sequences, helpers, names
        SequentialData s(in, 6), t(s);
        o.put(s.hex_str());
        o.put(s.to_str());
        t[1] = t[4] = 'x';
        o.put(t.trim());
        SequentialData *x = utils::sequential_data::from_hex_string("00ff7Fa");
        o.put(*x);
        delete x;
        char hx[20];
        pgfe_hash_to_hex_string(in, 5, hx);
        o.put(hx, 10);
        o.num(pgfe_hex_string_to_hash("0a1B", h));
        o.put(h, 2);
        o.num(pgfe_hash_length("0123ab"));
        o.num(_algstr(v & 1 ? "SHA256" : "md5"));
        if (sh) {
            size_t z;
            o.put(sh->sd->hex_str());
            o.put(sh->sd->to_str());
            o.put(sh->sd->trim_left());
            o.put(sh->sd->to_pgfe_seq(z), 4);
            o.num(z);
            o.num(sh->b32->is_hex_mode() + sh->b32->bit_size());
            o.num(sh->he->digest_size() + sh->he->block_size() + sh->he->algorithm());
            SequentialData y(*sh->sd);
            o.put(y);
        }
        break;
    }
    }
}
enum { FAMS = 12 };
struct Job {
    int fam, v;
    u8 *in;
    Out o;
    Shared *sh;
};
static void work(void *p) {
    Job *j = (Job *)p;
    ops(j->fam, j->v, j->in, j->o, j->sh);
}
static Job job(int fam, int v, Shared *sh, const char *name) {
    Job j = {fam, v, (u8 *)malloc(IN), {(u8 *)malloc(OUT), 0}, sh};
    vp_symbolic(j.in, IN, name);
    return j;
}
static void alone(const Job &j) {
    Job k = j;
    k.o.p = (u8 *)malloc(OUT);
    k.o.n = 0;
    work(&k);
    vp_assert((j.o.n == k.o.n) & (k.o.n <= OUT), "amount of output");
    if (j.o.n == k.o.n) vp_assert_eq(j.o.p, k.o.p, k.o.n, "the same as alone");
    free(k.o.p);
    free(j.o.p);
    free(j.in);
}
// families a and b at the same time; c: a third thread (or -1)
VP_ENTRY t_pair(int a, int va, int b, int vb, int c, int64_t now) {
    static Shared sh;
    u8 *s = (u8 *)malloc(8);
    vp_symbolic(s, 8, "shared");
    vp_set_time(now);
    pgfe_blowfish_init(&sh.bf, (const u8 *)"shared", 6);
    Blowfish bo("shared object");
    HOTP hotp(s, 4);
    hotp.set_counter(77);
    SequentialData sd(s, 4);
    sd[1] = 'y';
    Base64 b64;
    Base32 b32;
    HashEncoder he(SHA256);
    sh.bo = &bo;
    sh.hotp = &hotp;
    sh.sd = &sd;
    sh.b64 = &b64;
    sh.b32 = &b32;
    sh.he = &he;
    Job x = job(a, va, &sh, "first"), y = job(b, vb, &sh, "second"), z = job(c < 0 ? 0 : c, 1, &sh, "third");
    vp_spawn(work, &x);
    vp_spawn(work, &y);
    if (c >= 0) vp_spawn(work, &z);
    vp_join();
    alone(x);
    alone(y);
    if (c >= 0) alone(z);
    free(s);
    vp_reach("threads");
}
