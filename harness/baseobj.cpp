// B05: base codec objects
#include "libpgfe/base_encoding/base16.hpp"
#include "libpgfe/base_encoding/base32.hpp"
#include "libpgfe/base_encoding/base64.hpp"
#include "base.h"
#include <new>
#include <string>
using namespace libpgfe;

static const size_t OBJ = sizeof(Base16) > sizeof(Base32) ? (sizeof(Base16) > sizeof(Base64) ? sizeof(Base16) : sizeof(Base64)) : (sizeof(Base32) > sizeof(Base64) ? sizeof(Base32) : sizeof(Base64));
static AbstractBaseEncoding *make(int k, void *mem) {
    switch (k) {
    case 0: return new (mem) Base16();
    case 1: return new (mem) Base32(false);
    case 2: return new (mem) Base32(true);
    case 3: return new (mem) Base64(false);
    default: return new (mem) Base64(true);
    }
}
static AbstractBaseEncoding *make_default(int k, void *mem) {
    switch (k) {
    case 0: return new (mem) Base16();
    case 1:
    case 2: return new (mem) Base32();
    default: return new (mem) Base64();
    }
}
static void destroy(int k, AbstractBaseEncoding *e) {
    if (k == 0) ((Base16 *)e)->~Base16();
    else if (k < 3) ((Base32 *)e)->~Base32();
    else ((Base64 *)e)->~Base64();
}
static void sizes(int k, AbstractBaseEncoding *e) {
    static const unsigned alpha[] = {16, 32, 32, 64, 64};
    vp_assert(e->unit_size() == base_unit[k], "unit size");
    vp_assert(e->chunk_size() == base_chunk[k], "chunk size");
    vp_assert(e->bit_size() == base_bits[k], "bit size");
    vp_assert(e->alphabet_size() == alpha[k], "alphabet size");
    if (k == 1 || k == 2) vp_assert(((Base32 *)e)->is_hex_mode() == (k == 2), "hex mode");
    if (k >= 3) vp_assert(((Base64 *)e)->is_url_safe_mode() == (k == 4), "url-safe mode");
}
// encode in the forms 0 pointer and length, 1 C string, 2 std::string, 3 SequentialData
static void encode(int k, AbstractBaseEncoding *e, int form, size_t n, const char *name) {
    size_t m = ref_base_encoded_size(k, n);
    uint8_t *in = (uint8_t *)heap(n);
    char *want = heap(m + 1);
    vp_symbolic(in, n, name);
    if (form == 1)
        for (size_t i = 0; i < n; i++) vp_assume(in[i] != 0);
    ref_base_encode(k, in, n, want);
    std::string r;
    if (form == 0) r = e->encode(in, n);
    else if (form == 1) {
        char *s = heap(n + 1);
        memcpy(s, in, n);
        s[n] = 0;
        r = e->encode(s);
        free(s);
    } else if (form == 2) {
        std::string s((const char *)in, n);
        r = e->encode(s);
    } else {
        SequentialData sd(in, n);
        r = e->encode(sd);
    }
    vp_assert(r.length() == m, "length of the text");
    if (r.length() == m) vp_assert_eq(r.c_str(), want, m + 1, "text");
    free(want);
    free(in);
}
static SequentialData call_decode(AbstractBaseEncoding *e, int form, const char *text) {
    if (form == 4) return e->decode(text);
    std::string s(text);
    return e->decode(s);
}
// decode, forms 4 C string, 5 std::string: the text of any n bytes; 6, 7: any text of n characters
static void decode(int k, AbstractBaseEncoding *e, int form, size_t n, const char *name) {
    if (form < 6) {
        size_t m = ref_base_encoded_size(k, n);
        uint8_t *in = grouped_bytes(k, n, name);
        char *text = heap(m + 1);
        ref_base_encode(k, in, n, text);
        SequentialData sd = call_decode(e, form, text);
        vp_assert(sd.length() == n, "number of bytes decoded");
        if (sd.length() == n) vp_assert_eq(sd.to_pgfe_seq(), in, n, "bytes decoded");
        free(text);
        free(in);
    } else {
        char *text = sym_text(n, name);
        uint8_t *want = (uint8_t *)heap((n + base_chunk[k] - 1) / base_chunk[k] * base_unit[k] + 1);
        size_t w = lib_decode(k, text, want);
        SequentialData sd = call_decode(e, form - 2, text);
        vp_assert(sd.length() == w, "number of bytes decoded");
        if (sd.length() == w) vp_assert_eq(sd.to_pgfe_seq(), want, w, "bytes decoded");
        free(text);
        free(want);
    }
}
static void op(int k, AbstractBaseEncoding *e, int form, size_t n, const char *name) {
    if (form < 4) encode(k, e, form, n, name);
    else decode(k, e, form, n, name);
}
// an object built over any memory contents, then three calls
VP_ENTRY b5_seq(int k, int f1, size_t n1, int f2, size_t n2, int f3, size_t n3) {
    uint8_t *mem = (uint8_t *)heap(OBJ);
    vp_symbolic(mem, OBJ, "memory");
    AbstractBaseEncoding *e = make(k, mem);
    sizes(k, e);
    op(k, e, f1, n1, "first");
    op(k, e, f2, n2, "second");
    op(k, e, f3, n3, "third");
    sizes(k, e);
    destroy(k, e);
    free(mem);
    vp_reach("seq");
}
// the default mode; one call per object, two objects side by side
VP_ENTRY b5_two(int k, int j, int f, size_t n, size_t m) {
    uint8_t *mem = (uint8_t *)heap(OBJ), *mem2 = (uint8_t *)heap(OBJ);
    vp_symbolic(mem, OBJ, "memory");
    vp_symbolic(mem2, OBJ, "memory2");
    AbstractBaseEncoding *a = make_default(k, mem), *b = make(j, mem2);
    int ka = k == 0 ? 0 : k == 1 || k == 2 ? 1 : 3;
    op(ka, a, f, n, "first");
    op(j, b, (f + 1) % 4, m, "second");
    op(j, b, 4 + f % 2, m, "third");
    op(ka, a, 5 - f % 2, n, "fourth");
    sizes(ka, a);
    sizes(j, b);
    destroy(ka, a);
    destroy(j, b);
    vp_reach("two");
}
// ---- B06: calls of several threads on one object
struct Call {
    int k, form;
    size_t n, m;
    uint8_t *in;
    char *text;
    std::string str;
    char mem[sizeof(SequentialData)];
    SequentialData *sd;
};
struct Worker {
    AbstractBaseEncoding *e;
    Call *c[2];
};
static Call *prepare(int k, int form, size_t n, const char *name) {
    Call *c = new Call();
    c->k = k;
    c->form = form;
    c->n = n;
    c->m = ref_base_encoded_size(k, n);
    c->in = grouped_bytes(k, n, name);
    if (form == 1)
        for (size_t i = 0; i < n; i++) vp_assume(c->in[i] != 0);
    c->text = heap(c->m + 1);
    ref_base_encode(k, c->in, n, c->text);
    c->sd = 0;
    if (form == 1) {
        uint8_t *z = (uint8_t *)heap(n + 1);
        memcpy(z, c->in, n);
        z[n] = 0;
        free(c->in);
        c->in = z;
    }
    return c;
}
static void work(void *p) {
    Worker *w = (Worker *)p;
    for (int i = 0; i < 2; i++)
        if (w->c[i]) {
            Call *c = w->c[i];
            switch (c->form) {
            case 0: c->str = w->e->encode(c->in, c->n); break;
            case 1: c->str = w->e->encode((const char *)c->in); break;
            case 2: c->str = w->e->encode(std::string((const char *)c->in, c->n)); break;
            case 3: c->str = w->e->encode(SequentialData(c->in, c->n)); break;
            case 4: c->sd = new (c->mem) SequentialData(w->e->decode(c->text)); break;
            default: c->sd = new (c->mem) SequentialData(w->e->decode(std::string(c->text))); break;
            }
        }
}
static void checked(Call *c) {
    if (!c) return;
    if (c->form < 4) {
        vp_assert(c->str.length() == c->m, "length of the text");
        if (c->str.length() == c->m) vp_assert_eq(c->str.c_str(), c->text, c->m + 1, "text");
    } else {
        vp_assert(c->sd->length() == c->n, "number of bytes decoded");
        if (c->sd->length() == c->n) vp_assert_eq(c->sd->to_pgfe_seq(), c->in, c->n, "bytes decoded");
        c->sd->~SequentialData();
    }
    free(c->in);
    free(c->text);
    delete c;
}
// form -1: no such call. Threads: a then b | c then d
VP_ENTRY b6_two(int k, int fa, size_t na, int fb, size_t nb, int fc, size_t nc) {
    uint8_t *mem = (uint8_t *)heap(OBJ);
    AbstractBaseEncoding *e = make(k, mem);
    Call *a = prepare(k, fa, na, "a"), *b = fb < 0 ? 0 : prepare(k, fb, nb, "b"), *c = prepare(k, fc, nc, "c");
    Worker w1 = {e, {a, b}}, w2 = {e, {c, 0}};
    vp_spawn(work, &w1);
    vp_spawn(work, &w2);
    vp_join();
    checked(a);
    checked(b);
    checked(c);
    sizes(k, e);
    destroy(k, e);
    free(mem);
    vp_reach("two threads");
}
VP_ENTRY b6_three(int k, int fa, size_t na, int fb, size_t nb, int fc, size_t nc) {
    uint8_t *mem = (uint8_t *)heap(OBJ);
    AbstractBaseEncoding *e = make(k, mem);
    Call *a = prepare(k, fa, na, "a"), *b = prepare(k, fb, nb, "b"), *c = prepare(k, fc, nc, "c");
    Worker w1 = {e, {a, 0}}, w2 = {e, {b, 0}}, w3 = {e, {c, 0}};
    vp_spawn(work, &w1);
    vp_spawn(work, &w2);
    vp_spawn(work, &w3);
    vp_join();
    checked(a);
    checked(b);
    checked(c);
    sizes(k, e);
    destroy(k, e);
    free(mem);
    vp_reach("three threads");
}
