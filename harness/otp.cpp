// O01-O05: one-time passwords (C functions and objects)
#include "libpgfe/otp/hotp.h"
#include "libpgfe/otp/hotp.hpp"
#include "libpgfe/otp/totp.h"
#include "libpgfe/otp/totp.hpp"
#include "libpgfe/exceptions.hpp"
#include "algs.h"
#include <new>
#include <string>
using namespace libpgfe;
typedef uint8_t u8;

// ---- pgfe_hmac can be replaced by "any MAC": the library's calls then record their arguments and get these bytes.
// HMAC itself is decided by M01; code that gets its MAC elsewhere is simply executed in full.
static int any_mac;
static u8 mac[64];
static struct { int n, alg; size_t sl, dl; u8 secret[320], data[16]; } call;
extern "C" void __real_pgfe_hmac(enum pgfe_algorithm_choice, const pgfe_encode_t *, size_t, const pgfe_encode_t *, size_t, pgfe_encode_t *);
extern "C" void __wrap_pgfe_hmac(enum pgfe_algorithm_choice alg, const pgfe_encode_t *s, size_t sl, const pgfe_encode_t *d, size_t dl, pgfe_encode_t *out) {
    if (!any_mac || alg > SHA3_512 || sl > 320 || dl > 16) {
        __real_pgfe_hmac(alg, s, sl, d, dl, out);
        return;
    }
    call.n++;
    call.alg = alg;
    call.sl = sl;
    call.dl = dl;
    memcpy(call.secret, s, sl);
    memcpy(call.data, d, dl);
    memcpy(out, mac, ref_digest_size(alg));
}
static uint32_t p10(unsigned d) {
    uint32_t p = 1;
    for (unsigned i = 0; i < d; i++) p *= 10;
    return p;
}
// the code for a MAC; free: the standard defines none (window outside a short MAC)
static uint32_t truncated(const u8 *h, size_t n, unsigned digits, int *free_) {
    uint32_t o = h[n - 1] & 15, v;
    *free_ = o + 4 > n;
    o = o + 4 > n ? 0 : o;
    v = (uint32_t)h[o] << 24 | (uint32_t)h[o + 1] << 16 | (uint32_t)h[o + 2] << 8 | h[o + 3];
    v &= 0x7fffffffu;
    return digits >= 10 ? v : v % p10(digits);
}
static void be64(u8 *o, uint64_t c) {
    for (int i = 0; i < 8; i++) o[i] = (u8)(c >> (56 - 8 * i));
}
static void start(int alg, int any) {
    any_mac = any;
    if (any) vp_symbolic(mac, ref_digest_size(alg), "mac");
    if (any && alg == R_MD5) mac[15] = (u8)((mac[15] & 0xf0) | (unsigned)vp_pick(mac[15] & 15)); // one path per window
    call.n = 0;
}
// the code of the last generation must be the HOTP code of (secret, counter)
static void is_code(uint32_t got, int alg, const u8 *k, size_t kn, uint64_t c, unsigned digits, const char *what) {
    size_t hn = ref_digest_size(alg);
    u8 cb[8], *h = new_bytes(hn);
    int fr;
    be64(cb, c);
    if (any_mac && call.n) {
        vp_assert(call.alg == (int)alg_enum(alg), "algorithm of the MAC");
        vp_assert(call.sl == kn && call.dl == 8, "lengths given to the MAC");
        if (call.sl != kn || call.dl != 8) return;
        vp_assert_eq(call.secret, k, kn, "secret used");
        vp_assert_eq(call.data, cb, 8, "counter used");
        memcpy(h, mac, hn);
    } else
        ref_hmac(alg, k, kn, cb, 8, h);
    call.n = 0;
    uint32_t want = truncated(h, hn, digits, &fr);
    if (alg == R_MD5) {
        want = fr ? 0 : want;
        uint32_t g = fr ? 0 : got;
        vp_assert_eq(&g, &want, 4, what);
        vp_assert(digits >= 10 ? got <= 0x7fffffffu : got < p10(digits), "range of the code");
    } else
        vp_assert_eq(&got, &want, 4, what);
}

// ---- O01
VP_ENTRY o_hotp(int alg, size_t kn, int digits, int any) {
    u8 *k = sym_bytes(kn, "secret");
    uint64_t c;
    vp_symbolic(&c, 8, "counter");
    ref_init();
    start(alg, any);
    is_code(pgfe_hotp_generic(alg_enum(alg), k, kn, c, (u8)digits), alg, k, kn, c, digits, "code");
    if (alg == R_SHA1) {
        is_code(pgfe_hotp(k, kn, c, (u8)digits), alg, k, kn, c, digits, "short form");
        if (digits == 4) is_code(pgfe_hotp_4digits(k, kn, c), alg, k, kn, c, 4, "4-digit form");
        if (digits == 6) is_code(pgfe_hotp_6digits(k, kn, c), alg, k, kn, c, 6, "6-digit form");
        if (digits == 8) is_code(pgfe_hotp_8digits(k, kn, c), alg, k, kn, c, 8, "8-digit form");
    }
    vp_reach("hotp");
}
// any digit count of 10 and more gives the whole value; any count below is the value modulo the power
VP_ENTRY o_digits(int alg) {
    u8 k[5], d;
    uint64_t c;
    vp_symbolic(k, 5, "secret");
    vp_symbolic(&c, 8, "counter");
    vp_symbolic(&d, 1, "digits");
    start(alg, 1);
    if (d >= 10) is_code(pgfe_hotp_generic(alg_enum(alg), k, 5, c, d), alg, k, 5, c, 10, "code");
    else {
        unsigned e = (unsigned)vp_pick(d);
        is_code(pgfe_hotp_generic(alg_enum(alg), k, 5, c, (u8)e), alg, k, 5, c, e, "code");
    }
    vp_reach("digits");
}

// ---- O02
static int64_t off_of(int64_t now, int64_t init) { return now - init; }
// clock, initial time (and, when iv is 0, interval) symbolic
VP_ENTRY o_totp(int alg, size_t kn, int digits, int64_t iv, int any) {
    u8 *k = sym_bytes(kn, "secret");
    int64_t now, init;
    uint32_t interval;
    vp_symbolic(&now, 8, "now");
    vp_symbolic(&init, 8, "initial");
    if (iv) interval = (uint32_t)iv;
    else {
        vp_symbolic(&interval, 4, "interval");
        vp_assume((interval >= 1) & (interval <= 0x7fffffffu));
    }
    vp_assume((now >= 0) & (now < (int64_t)1 << 62) & (init <= now) & (init >= -((int64_t)1 << 62)));
    ref_init();
    start(alg, any);
    vp_set_time(now);
    int32_t delta = -77;
    uint64_t c = (uint64_t)(off_of(now, init) / (int64_t)interval);
    int64_t left = (int64_t)interval - off_of(now, init) % (int64_t)interval;
    is_code(pgfe_totp_generic(alg_enum(alg), k, kn, (u8)digits, interval, init, &delta), alg, k, kn, c, digits, "code");
    int32_t left32 = (int32_t)left;
    vp_assert_eq(&delta, &left32, 4, "time left");
    is_code(pgfe_totp_generic(alg_enum(alg), k, kn, (u8)digits, interval, init, 0), alg, k, kn, c, digits, "code without time left");
    vp_reach("totp");
}
VP_ENTRY o_totp_short(size_t kn, int form, int64_t iv, int any) {
    u8 *k = sym_bytes(kn, "secret");
    int64_t now;
    uint32_t interval = (uint32_t)iv;
    vp_symbolic(&now, 8, "now");
    if (!iv) {
        vp_symbolic(&interval, 4, "interval");
        vp_assume((interval >= 1) & (interval <= 0x7fffffffu));
    }
    vp_assume(now >= 0);
    ref_init();
    start(R_SHA1, any);
    vp_set_time(now);
    int32_t delta = -77;
    uint64_t c = (uint64_t)(now / (int64_t)interval);
    uint32_t r = form == 4 ? pgfe_totp_4digits(k, kn, interval, &delta) : form == 6 ? pgfe_totp_6digits(k, kn, interval, &delta) : form == 8 ? pgfe_totp_8digits(k, kn, interval, &delta) : pgfe_totp(k, kn, (u8)form, interval, &delta);
    is_code(r, R_SHA1, k, kn, c, form, "code");
    int32_t left32 = (int32_t)((int64_t)interval - now % (int64_t)interval);
    vp_assert_eq(&delta, &left32, 4, "time left");
    vp_reach("totp_short");
}
// any time init + q * iv + r with r < iv and q < 2^bits, given by its step number q and place r in the step
struct When {
    int64_t t, r;
    uint64_t q;
};
static When some_time(int64_t init, int64_t iv, int bits) {
    When w;
    uint32_t q;
    uint16_t s;
    vp_symbolic(&q, 4, "step");
    vp_symbolic(&s, 2, "place");
    w.q = q & (((uint64_t)1 << bits) - 1);
    w.r = iv > 65535 ? (int64_t)s : (int64_t)(s % (uint32_t)iv);
    w.t = init + (int64_t)w.q * iv + w.r;
    return w;
}
// the time left is between 1 and the interval, and is when the step number changes
VP_ENTRY o_left(int64_t iv, int bits) {
    u8 k[4] = {1, 2, 3, 4};
    start(R_SHA1, 1);
    When w = some_time(0, iv, bits);
    int32_t d1 = -5, d2 = -5;
    u8 c0[8], c1[8], c2[8];
    vp_set_time(w.t);
    pgfe_totp_generic(SHA1, k, 4, 6, (uint32_t)iv, 0, &d1);
    if (!call.n) return;
    vp_assert((d1 >= 1) & (d1 <= iv), "range of the time left");
    memcpy(c0, call.data, 8);
    vp_set_time(w.t + d1 - 1);
    pgfe_totp_generic(SHA1, k, 4, 6, (uint32_t)iv, 0, &d2);
    memcpy(c1, call.data, 8);
    vp_assert(d2 == 1, "time left in the last second");
    vp_assert_eq(c1, c0, 8, "step in the last second");
    vp_set_time(w.t + d1);
    pgfe_totp_generic(SHA1, k, 4, 6, (uint32_t)iv, 0, &d2);
    memcpy(c2, call.data, 8);
    uint64_t a = 0, b = 0;
    for (int i = 0; i < 8; i++) a = a << 8 | c0[i], b = b << 8 | c2[i];
    vp_assert(b == a + 1, "step when the time is up");
    vp_assert(d2 == iv, "time left in a new step");
    vp_reach("left");
}

// ---- O03
// ops: decimal digits, one per step before a generate call: 7 nothing, 1 other interval, 2 new initial time, 3 other secret,
// 4 generate as text, 5 other interval and new initial time, 6 other digit count; the clock advances by any amount before
// every step. Times are initial + q * interval + r with q below 2^bits.
VP_ENTRY o_totp_obj(int alg, int ctor, int64_t i1, int64_t i2, int64_t ops, int bits) {
    u8 k[4], k2[6];
    size_t kn = 4, kn2 = ctor % 2 ? 6 : 4;
    const u8 *cur = k;
    vp_symbolic(k, 4, "secret");
    vp_symbolic(k2, 6, "secret2");
    start(alg, 1);
    int64_t init = 0, iv = i1;
    When w = some_time(0, iv, bits);
    int64_t now = w.t, since = now; // since: time since the initial time
    vp_set_time(now);
    u8 *memo = sym_bytes(sizeof(TOTP), "memory");
    TOTP *o;
    std::string ks((const char *)k, 4);
    SequentialData kd(k, 4);
    if (ctor == 0) o = new (memo) TOTP(k, 4, (uint32_t)iv, alg_enum(alg));
    else if (ctor == 1) {
        o = new (memo) TOTP((uint32_t)iv, alg_enum(alg));
        o->set_secret(k, 4);
    } else if (ctor == 2) o = new (memo) TOTP(ks, (uint32_t)iv, alg_enum(alg));
    else if (ctor == 3) o = new (memo) TOTP(kd, (uint32_t)iv, alg_enum(alg));
    else {
        for (int i = 0; i < 4; i++) vp_assume(k[i] != 0);
        char z[5];
        memcpy(z, k, 4);
        z[4] = 0;
        o = new (memo) TOTP(z, (uint32_t)iv, alg_enum(alg));
    }
    vp_assert(o->interval() == (uint32_t)iv && o->initial_time() == 0, "configuration told");
    for (; ops; ops /= 10) {
        int op = (int)(ops % 10);
        if (op == 1 || op == 5) {
            iv = iv == i1 ? i2 : i1;
            o->set_interval((uint32_t)iv);
        }
        if (op == 2 || op == 5) { // the clock will stand q steps and r seconds after the new initial time
            uint16_t adv;
            vp_symbolic(&adv, 2, "advance");
            w = some_time(0, iv, bits);
            since = w.t;
            init = now + adv - w.t;
            w.t = now + adv;
            o->set_initial_time(init);
        } else {
            w = some_time(0, iv, bits);
            vp_assume(w.t >= since); // the clock does not go back
            since = w.t;
            w.t += init;
        }
        now = w.t;
        vp_set_time(now);
        if (op == 3) {
            cur = cur == k ? k2 : k;
            kn = cur == k ? 4 : kn2;
            o->set_secret(cur, kn);
        }
        vp_assert(o->interval() == (uint32_t)iv && o->initial_time() == init, "configuration told");
        vp_merge(op == 4);
        uint32_t r;
        if (op == 4) {
            std::string s = o->generate_str(1);
            vp_assert(s.length() == 1, "length of the text");
            r = (uint32_t)(s[0] - '0');
        } else r = o->generate(op == 6 ? 8 : 1);
        is_code(r, alg, cur, kn, w.q, op == 6 ? 8 : 1, "code");
        vp_assert(o->remaining_time() == iv - w.r, "time left");
        uint16_t d;
        vp_symbolic(&d, 2, "look");
        vp_assume(d < iv - w.r);
        vp_set_time(now + d);
        vp_assert(o->remaining_time() == iv - w.r - d, "time left later");
        now += d;
        since += d;
    }
    o->~TOTP();
    vp_reach("totp_obj");
}

// ---- O04
static void set_form(HOTP &o, const u8 *k, size_t kn, int form) {
    if (form == 0) {
        u8 *x = new_bytes(kn);
        memcpy(x, k, kn);
        o.set_secret(x, kn);
        vp_undef(x, kn);
        free(x);
    } else if (form == 1) {
        char *x = (char *)new_bytes(kn + 1);
        memcpy(x, k, kn);
        x[kn] = 0;
        o.set_secret(x);
        vp_undef(x, kn);
        free(x);
    } else if (form == 2) {
        std::string s((const char *)k, kn);
        o.set_secret(s);
    } else if (form == 3) {
        SequentialData sd(k, kn);
        o.set_secret(sd);
    } else { // base32 text
        char *x = (char *)new_bytes(ref_base_encoded_size(1, kn) + 1);
        size_t n = ref_base_encode(1, k, kn, x);
        x[n] = 0;
        std::string s(x);
        if (form == 4) o.set_secret(x, true);
        else if (form == 5) o.set_secret(s, true);
        else if (form == 6) o.set_secret_from_base32(x);
        else o.set_secret_from_base32(s);
        free(x);
    }
}
static void no_nul(const u8 *m, size_t n, int form) {
    if (form == 1)
        for (size_t i = 0; i < n; i++) vp_assume(m[i] != 0);
}
VP_ENTRY o_obj(int alg, int ctor, size_t kn, int form, size_t kn2, int any) {
    u8 *k = sym_bytes(kn, "secret"), *k2 = sym_bytes(kn2, "secret2"), *memo = sym_bytes(sizeof(HOTP), "memory");
    uint64_t c, c2;
    vp_symbolic(&c, 8, "counter");
    vp_symbolic(&c2, 8, "counter2");
    no_nul(k, kn, ctor);
    no_nul(k2, kn2, form);
    ref_init();
    start(alg, any);
    HOTP *o;
    std::string ks((const char *)k, kn);
    SequentialData kd(k, kn);
    char *z = (char *)new_bytes(kn + 1);
    memcpy(z, k, kn);
    z[kn] = 0;
    if (ctor == 0) o = new (memo) HOTP(k, kn, alg_enum(alg));
    else if (ctor == 1) o = new (memo) HOTP(z, alg_enum(alg));
    else if (ctor == 2) o = new (memo) HOTP(ks, alg_enum(alg));
    else if (ctor == 3) o = new (memo) HOTP(kd, alg_enum(alg));
    else {
        o = new (memo) HOTP(alg_enum(alg));
        int threw = 0;
        try {
            o->generate();
        } catch (const NotInitializedException &) {
            threw = 1;
        }
        vp_assert(threw, "no secret: the not-initialised error");
        set_form(*o, k, kn, ctor == 5 ? 6 : 0);
    }
    vp_assert(o->algorithm() == alg_enum(alg), "algorithm");
    is_code(o->generate(8), alg, k, kn, 0, 8, "code of a new object"); // counter not set yet: 0
    o->set_counter(c);
    is_code(o->generate(), alg, k, kn, c, 6, "code");
    set_form(*o, k2, kn2, form);
    is_code(o->generate(9), alg, k2, kn2, c, 9, "code with the second secret");
    o->set_counter(c2);
    is_code(o->generate(10), alg, k2, kn2, c2, 10, "code with the second counter");
    const HOTP &co = *o;
    is_code(co.generate(3), alg, k2, kn2, c2, 3, "code again");
    o->~HOTP();
    vp_reach("obj");
}

// ---- O05
VP_ENTRY o_str(int digits, int which) {
    u8 k[3] = {1, 0, 2};
    start(R_SHA1, 1);
    int64_t now;
    vp_symbolic(&now, 8, "now");
    vp_assume((now >= 0) & (now < (int64_t)1 << 40));
    vp_set_time(now);
    std::string s;
    uint32_t v;
    if (which == 0) {
        HOTP o(k, 3);
        o.set_counter(7);
        v = o.generate((u8)digits);
        s = o.generate_str((u8)digits);
    } else if (which == 1) {
        TOTP o(k, 3);
        v = o.generate((u8)digits);
        s = o.generate_str((u8)digits);
    } else {
        HOTP o(k, 3);
        o.set_counter(7);
        const AbstractOTP &b = o;
        v = b.generate((u8)digits);
        s = b.generate_str((u8)digits);
    }
    vp_assert(s.length() == (size_t)digits, "number of digits");
    if (s.length() != (size_t)digits) return;
    u8 want[12];
    uint32_t r = v;
    for (int i = digits; i > 0; i -= 2) { // decimal digits, two at a time
        uint32_t p = r % 100;
        r /= 100;
        want[i - 1] = (u8)('0' + p % 10);
        if (i > 1) want[i - 2] = (u8)('0' + p / 10);
    }
    vp_assert_eq(s.data(), want, digits, "digits");
    vp_reach("str");
}
