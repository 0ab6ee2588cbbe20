// S01 (and U01): byte sequences of the C++ layer
#include "libpgfe/sequential_data.hpp"
#include "libpgfe/utils.hpp"
#include "vp.h"
#include <stdlib.h>
#include <string>
using namespace libpgfe;
typedef uint8_t u8;

static u8 *heap(size_t n) { return (u8 *)malloc(n); }
static const char HEX[] = "0123456789abcdef";

// every view of a sequence against the bytes it must hold
static void same(const SequentialData &sd, const u8 *want, size_t n, const char *what) {
    vp_assert(sd.length() == n, "length");
    if (sd.length() != n) return;
    vp_assert_eq(sd.data(), want, n, what);
    size_t sz = n + 7;
    const pgfe_encode_t *p = sd.to_pgfe_seq(sz);
    vp_assert(sz == n, "length given with the pointer");
    vp_assert_eq(p, want, n, "pointer view");
    vp_assert_eq(sd.to_pgfe_seq(), want, n, "pointer view without length");
}
static void views(const SequentialData &sd, const u8 *want, size_t n, const char *what) {
    same(sd, want, n, what);
    std::string s = sd.to_str(), s2 = sd.to_str(false), h = sd.hex_str();
    vp_assert(s.length() == n && s2.length() == n, "string length");
    vp_assert_eq(s.data(), want, n, "string view");
    vp_assert_eq(s2.data(), want, n, "string view");
    u8 *wh = heap(2 * n);
    for (size_t i = 0; i < n; i++) wh[2 * i] = HEX[want[i] >> 4], wh[2 * i + 1] = HEX[want[i] & 15];
    vp_assert(h.length() == 2 * n, "hex length");
    vp_assert_eq(h.data(), wh, 2 * n, "hex view");
    same(sd, want, n, what);
    free(wh);
}
// constructors: 0 pointer+length, 1 std::string, 2 C string, 3 to_sequential_data(ptr,n), 4 to_sequential_data(string), 5 to_sequential_data(cstr)
VP_ENTRY s_views(size_t n, int form) {
    u8 *in = heap(n + 1), *want = heap(n);
    vp_symbolic(in, n, "bytes");
    in[n] = 0;
    if (form == 2 || form == 5)
        for (size_t i = 0; i < n; i++) vp_assume(in[i] != 0);
    memcpy(want, in, n);
    SequentialData *sd;
    if (form == 1 || form == 4) {
        std::string s((const char *)in, n);
        sd = form == 1 ? new SequentialData(s) : utils::to_sequential_data(s);
    } else if (form == 2 || form == 5)
        sd = form == 2 ? new SequentialData((const char *)in) : utils::to_sequential_data((const char *)in);
    else {
        u8 *x = heap(n); // exactly the bytes: nothing after them may be read
        memcpy(x, in, n);
        sd = form == 0 ? new SequentialData(x, n) : utils::to_sequential_data(x, n);
        vp_undef(x, n);
        free(x);
    }
    vp_undef(in, n + 1); // the sequence owns a copy
    free(in);
    views(*sd, want, n, "bytes");
    delete sd;
    vp_reach("views");
}
// copies: 0 copy, 1 pointer, 2 move, 3 default + append; changing the copy leaves the original alone
VP_ENTRY s_copy(size_t n, int form) {
    u8 *in = heap(n), *x = heap(1);
    vp_symbolic(in, n, "bytes");
    SequentialData a(in, n);
    SequentialData *b;
    if (form == 0) b = new SequentialData(a);
    else if (form == 1) b = new SequentialData((const SequentialData *)&a);
    else if (form == 2) b = new SequentialData(std::move(a));
    else {
        b = new SequentialData();
        vp_assert(b->length() == 0, "empty when new");
        b->append(a);
    }
    same(*b, in, n, "copied bytes");
    if (form != 2) {
        b->push_back(0x41);
        same(a, in, n, "original");
        b->pop_back();
    }
    views(*b, in, n, "copied bytes");
    delete b;
    if (form != 2) same(a, in, n, "original");
    vp_reach("copy");
}
// trimming: form 0..2 trim, trim_left, trim_right; the positions of the zero bytes are arbitrary
VP_ENTRY s_trim(size_t n, int form, int inplace) {
    u8 *in = heap(n);
    vp_symbolic(in, n, "bytes");
    size_t l = 0, r = n;
    if (form != 2)
        while (l < n && in[l] == 0) l++;
    if (form != 1)
        while (r > l && in[r - 1] == 0) r--;
    SequentialData a(in, n);
    SequentialData t(form == 0 ? a.trim() : form == 1 ? a.trim_left() : a.trim_right());
    same(t, in + l, r - l, "trimmed bytes");
    same(a, in, n, "original");
    if (inplace) {
        if (form == 0) a.trim_();
        else if (form == 1) a.trim_left_();
        else a.trim_right_();
        same(a, in + l, r - l, "bytes trimmed in place");
    }
    vp_reach("trim");
}
// longer sequences: `lead` and `trail` zero bytes around n bytes whose first and last are not zero
VP_ENTRY s_trim_long(size_t lead, size_t n, size_t trail) {
    size_t t = lead + n + trail;
    u8 *in = heap(t);
    memset(in, 0, t);
    vp_symbolic(in + lead, n, "bytes");
    vp_assume(n == 0 || in[lead] != 0);
    vp_assume(n == 0 || in[lead + n - 1] != 0);
    SequentialData a(in, t);
    size_t e = n == 0;
    same(a.trim(), in + lead, n, "trimmed bytes");
    SequentialData l(a.trim_left()), r(a.trim_right());
    same(l, in + lead, e ? 0 : n + trail, "bytes trimmed left");
    same(r, in, e ? 0 : lead + n, "bytes trimmed right");
    same(a, in, t, "original");
    views(l, in + lead, e ? 0 : n + trail, "bytes trimmed left");
    vp_reach("trim_long");
}
static int hexval(u8 c) {
    int d = (c >= '0') & (c <= '9'), u = (c >= 'A') & (c <= 'F'), l = (c >= 'a') & (c <= 'f');
    return d * (c - '0') + u * (c - 'A' + 10) + l * (c - 'a' + 10) - (1 - d - u - l);
}
// U01: the C++ forms of parsing hex text: 0 C string, 1 std::string
VP_ENTRY u_from_hex(size_t n, int prefix, int suffix, int form) {
    size_t pl = prefix ? 2 : 0, sl = suffix ? 1 : 0;
    char *s = (char *)heap(pl + 2 * n + sl + 1);
    u8 *want = heap(n);
    if (prefix) memcpy(s, prefix == 1 ? "0x" : "0X", 2);
    vp_symbolic(s + pl, 2 * n, "digits");
    for (size_t i = 0; i < 2 * n; i++) vp_assume(hexval((u8)s[pl + i]) >= 0);
    for (size_t i = 0; i < n; i++) want[i] = (u8)(hexval((u8)s[pl + 2 * i]) * 16 + hexval((u8)s[pl + 2 * i + 1]));
    if (suffix) s[pl + 2 * n] = suffix == 1 ? 'h' : 'H';
    s[pl + 2 * n + sl] = 0;
    SequentialData *sd;
    if (form) {
        std::string t(s);
        sd = utils::sequential_data::from_hex_string(t);
    } else
        sd = utils::sequential_data::from_hex_string(s);
    same(*sd, want, n, "bytes");
    // and back
    std::string h = sd->hex_str();
    u8 *wh = heap(2 * n);
    for (size_t i = 0; i < n; i++) wh[2 * i] = HEX[want[i] >> 4], wh[2 * i + 1] = HEX[want[i] & 15];
    vp_assert(h.length() == 2 * n, "hex length");
    vp_assert_eq(h.data(), wh, 2 * n, "hex text");
    delete sd;
    vp_reach("from_hex");
}
// U02: any text through the C++ form gives what the C function gives
VP_ENTRY u_from_any(size_t n) {
    char *s = (char *)heap(n + 1);
    vp_symbolic(s, n, "text");
    s[n] = 0;
    for (size_t i = 0; i < n; i++) vp_assume(s[i] != 0);
    u8 *out = heap(n + 1);
    size_t r = vp_pick(pgfe_hex_string_to_hash(s, out));
    SequentialData *sd = utils::sequential_data::from_hex_string(s);
    vp_assert(sd->length() == r, "length");
    if (sd->length() == r) vp_assert_eq(sd->data(), out, r, "bytes");
    delete sd;
    vp_reach("from_any");
}
