#include "ref.h"
#include "pi_tables.h"
const unsigned *ref_pi = REF_PI;

static const uint8_t DS[R_NALG] = {16, 20, 28, 32, 48, 64, 28, 32, 28, 32, 48, 64, 32, 32, 64, 64};
static const uint8_t BS[R_NALG] = {64, 64, 64, 64, 128, 128, 128, 128, 144, 136, 104, 72, 168, 168, 136, 136};
size_t ref_digest_size(int a) { return DS[a]; }
size_t ref_block_size(int a) { return BS[a]; }

// ---------------------------------------------------------------- MD5 (RFC 1321)
static uint32_t rol(uint32_t x, unsigned n) { return (x << n) | (x >> (32 - n)); }
static uint32_t ror(uint32_t x, unsigned n) { return (x >> n) | (x << (32 - n)); }
static uint64_t ror64(uint64_t x, unsigned n) { return (x >> n) | (x << (64 - n)); }
static uint32_t be32(const uint8_t *p) { return (uint32_t)p[0] << 24 | (uint32_t)p[1] << 16 | (uint32_t)p[2] << 8 | p[3]; }
static uint32_t le32(const uint8_t *p) { return (uint32_t)p[3] << 24 | (uint32_t)p[2] << 16 | (uint32_t)p[1] << 8 | p[0]; }
static uint64_t be64(const uint8_t *p) { return (uint64_t)be32(p) << 32 | be32(p + 4); }

static const uint32_t MD5T[64] = {
    0xd76aa478, 0xe8c7b756, 0x242070db, 0xc1bdceee, 0xf57c0faf, 0x4787c62a, 0xa8304613, 0xfd469501, 0x698098d8, 0x8b44f7af, 0xffff5bb1, 0x895cd7be, 0x6b901122,
    0xfd987193, 0xa679438e, 0x49b40821, 0xf61e2562, 0xc040b340, 0x265e5a51, 0xe9b6c7aa, 0xd62f105d, 0x02441453, 0xd8a1e681, 0xe7d3fbc8, 0x21e1cde6, 0xc33707d6,
    0xf4d50d87, 0x455a14ed, 0xa9e3e905, 0xfcefa3f8, 0x676f02d9, 0x8d2a4c8a, 0xfffa3942, 0x8771f681, 0x6d9d6122, 0xfde5380c, 0xa4beea44, 0x4bdecfa9, 0xf6bb4b60,
    0xbebfbc70, 0x289b7ec6, 0xeaa127fa, 0xd4ef3085, 0x04881d05, 0xd9d4d039, 0xe6db99e5, 0x1fa27cf8, 0xc4ac5665, 0xf4292244, 0x432aff97, 0xab9423a7, 0xfc93a039,
    0x655b59c3, 0x8f0ccc92, 0xffeff47d, 0x85845dd1, 0x6fa87e4f, 0xfe2ce6e0, 0xa3014314, 0x4e0811a1, 0xf7537e82, 0xbd3af235, 0x2ad7d2bb, 0xeb86d391};
static const uint8_t MD5S[16] = {7, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21};
static void md5_block(uint64_t st[8], const uint8_t *b) {
    uint32_t A = st[0], B = st[1], C = st[2], D = st[3];
    for (int i = 0; i < 64; i++) {
        uint32_t f, t;
        int g;
        if (i < 16) f = (B & C) | (~B & D), g = i;
        else if (i < 32) f = (B & D) | (C & ~D), g = (5 * i + 1) % 16;
        else if (i < 48) f = B ^ C ^ D, g = (3 * i + 5) % 16;
        else f = C ^ (B | ~D), g = (7 * i) % 16;
        t = B + rol(A + f + le32(b + 4 * g) + MD5T[i], MD5S[(i / 16) * 4 + i % 4]);
        A = D;
        D = C;
        C = B;
        B = t;
    }
    st[0] = (uint32_t)(st[0] + A);
    st[1] = (uint32_t)(st[1] + B);
    st[2] = (uint32_t)(st[2] + C);
    st[3] = (uint32_t)(st[3] + D);
}

// ---------------------------------------------------------------- SHA-1 (FIPS 180-4, 6.1)
static void sha1_block(uint64_t st[8], const uint8_t *b) {
    uint32_t w[80], a = st[0], bb = st[1], c = st[2], d = st[3], e = st[4];
    for (int t = 0; t < 80; t++) w[t] = t < 16 ? be32(b + 4 * t) : rol(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1);
    for (int t = 0; t < 80; t++) {
        uint32_t f, k;
        if (t < 20) f = (bb & c) ^ (~bb & d), k = 0x5a827999;
        else if (t < 40) f = bb ^ c ^ d, k = 0x6ed9eba1;
        else if (t < 60) f = (bb & c) ^ (bb & d) ^ (c & d), k = 0x8f1bbcdc;
        else f = bb ^ c ^ d, k = 0xca62c1d6;
        uint32_t T = rol(a, 5) + f + e + k + w[t];
        e = d;
        d = c;
        c = rol(bb, 30);
        bb = a;
        a = T;
    }
    st[0] = (uint32_t)(st[0] + a);
    st[1] = (uint32_t)(st[1] + bb);
    st[2] = (uint32_t)(st[2] + c);
    st[3] = (uint32_t)(st[3] + d);
    st[4] = (uint32_t)(st[4] + e);
}

// ---------------------------------------------------------------- SHA-2 (FIPS 180-4, 6.2 and 6.4)
static const uint64_t K512[80] = {
    0x428a2f98d728ae22, 0x7137449123ef65cd, 0xb5c0fbcfec4d3b2f, 0xe9b5dba58189dbbc, 0x3956c25bf348b538, 0x59f111f1b605d019, 0x923f82a4af194f9b, 0xab1c5ed5da6d8118,
    0xd807aa98a3030242, 0x12835b0145706fbe, 0x243185be4ee4b28c, 0x550c7dc3d5ffb4e2, 0x72be5d74f27b896f, 0x80deb1fe3b1696b1, 0x9bdc06a725c71235, 0xc19bf174cf692694,
    0xe49b69c19ef14ad2, 0xefbe4786384f25e3, 0x0fc19dc68b8cd5b5, 0x240ca1cc77ac9c65, 0x2de92c6f592b0275, 0x4a7484aa6ea6e483, 0x5cb0a9dcbd41fbd4, 0x76f988da831153b5,
    0x983e5152ee66dfab, 0xa831c66d2db43210, 0xb00327c898fb213f, 0xbf597fc7beef0ee4, 0xc6e00bf33da88fc2, 0xd5a79147930aa725, 0x06ca6351e003826f, 0x142929670a0e6e70,
    0x27b70a8546d22ffc, 0x2e1b21385c26c926, 0x4d2c6dfc5ac42aed, 0x53380d139d95b3df, 0x650a73548baf63de, 0x766a0abb3c77b2a8, 0x81c2c92e47edaee6, 0x92722c851482353b,
    0xa2bfe8a14cf10364, 0xa81a664bbc423001, 0xc24b8b70d0f89791, 0xc76c51a30654be30, 0xd192e819d6ef5218, 0xd69906245565a910, 0xf40e35855771202a, 0x106aa07032bbd1b8,
    0x19a4c116b8d2d0c8, 0x1e376c085141ab53, 0x2748774cdf8eeb99, 0x34b0bcb5e19b48a8, 0x391c0cb3c5c95a63, 0x4ed8aa4ae3418acb, 0x5b9cca4f7763e373, 0x682e6ff3d6b2b8a3,
    0x748f82ee5defb2fc, 0x78a5636f43172f60, 0x84c87814a1f0ab72, 0x8cc702081a6439ec, 0x90befffa23631e28, 0xa4506cebde82bde9, 0xbef9a3f7b2c67915, 0xc67178f2e372532b,
    0xca273eceea26619c, 0xd186b8c721c0c207, 0xeada7dd6cde0eb1e, 0xf57d4f7fee6ed178, 0x06f067aa72176fba, 0x0a637dc5a2c898a6, 0x113f9804bef90dae, 0x1b710b35131c471b,
    0x28db77f523047d84, 0x32caab7b40c72493, 0x3c9ebe0a15c9bebc, 0x431d67c49c100d4c, 0x4cc5d4becb3e42b6, 0x597f299cfc657e2a, 0x5fcb6fab3ad6faec, 0x6c44198c4a475817};
static void sha256_block(uint64_t st[8], const uint8_t *b) {
    uint32_t w[64], v[8];
    for (int t = 0; t < 16; t++) w[t] = be32(b + 4 * t);
    for (int t = 16; t < 64; t++) {
        uint32_t x = w[t - 2], y = w[t - 15];
        w[t] = (ror(x, 17) ^ ror(x, 19) ^ (x >> 10)) + w[t - 7] + (ror(y, 7) ^ ror(y, 18) ^ (y >> 3)) + w[t - 16];
    }
    for (int i = 0; i < 8; i++) v[i] = (uint32_t)st[i];
    for (int t = 0; t < 64; t++) {
        uint32_t s1 = ror(v[4], 6) ^ ror(v[4], 11) ^ ror(v[4], 25), ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
        uint32_t t1 = v[7] + s1 + ch + (uint32_t)(K512[t] >> 32) + w[t]; // SHA-256's constants are the first 32 bits of SHA-512's
        uint32_t s0 = ror(v[0], 2) ^ ror(v[0], 13) ^ ror(v[0], 22), mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        uint32_t t2 = s0 + mj;
        for (int i = 7; i > 0; i--) v[i] = v[i - 1];
        v[4] += t1;
        v[0] = t1 + t2;
    }
    for (int i = 0; i < 8; i++) st[i] = (uint32_t)((uint32_t)st[i] + v[i]);
}
static void sha512_block(uint64_t st[8], const uint8_t *b) {
    uint64_t w[80], v[8];
    for (int t = 0; t < 16; t++) w[t] = be64(b + 8 * t);
    for (int t = 16; t < 80; t++) {
        uint64_t x = w[t - 2], y = w[t - 15];
        w[t] = (ror64(x, 19) ^ ror64(x, 61) ^ (x >> 6)) + w[t - 7] + (ror64(y, 1) ^ ror64(y, 8) ^ (y >> 7)) + w[t - 16];
    }
    for (int i = 0; i < 8; i++) v[i] = st[i];
    for (int t = 0; t < 80; t++) {
        uint64_t s1 = ror64(v[4], 14) ^ ror64(v[4], 18) ^ ror64(v[4], 41), ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
        uint64_t t1 = v[7] + s1 + ch + K512[t] + w[t];
        uint64_t s0 = ror64(v[0], 28) ^ ror64(v[0], 34) ^ ror64(v[0], 39), mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        uint64_t t2 = s0 + mj;
        for (int i = 7; i > 0; i--) v[i] = v[i - 1];
        v[4] += t1;
        v[0] = t1 + t2;
    }
    for (int i = 0; i < 8; i++) st[i] += v[i];
}
static const uint64_t IV[8][8] = {
    {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476},
    {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0},
    {0xc1059ed8, 0x367cd507, 0x3070dd17, 0xf70e5939, 0xffc00b31, 0x68581511, 0x64f98fa7, 0xbefa4fa4},
    {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19},
    {0xcbbb9d5dc1059ed8, 0x629a292a367cd507, 0x9159015a3070dd17, 0x152fecd8f70e5939, 0x67332667ffc00b31, 0x8eb44a8768581511, 0xdb0c2e0d64f98fa7, 0x47b5481dbefa4fa4},
    {0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179},
    {0x8C3D37C819544DA2, 0x73E1996689DCD4D6, 0x1DFAB7AE32FF9C82, 0x679DD514582F9FCF, 0x0F6D2B697BD44DA8, 0x77E36F7304C48942, 0x3F9D85A86A1D36C8, 0x1112E6AD91D692A1},
    {0x22312194FC2BF72C, 0x9F555FA3C84C64C2, 0x2393B86B6F53B151, 0x963877195940EABD, 0x96283EE2A88EFFE3, 0xBE5E1E2553863992, 0x2B0199FC2C85B8AA, 0x0EB72DDC81C52CA2}};
void ref_md_init(int alg, uint64_t st[8]) {
    for (int i = 0; i < 8; i++) st[i] = IV[alg][i];
}
void ref_md_block(int alg, uint64_t st[8], const uint8_t *b) {
    if (alg == R_MD5) md5_block(st, b);
    else if (alg == R_SHA1) sha1_block(st, b);
    else if (alg <= R_SHA256) sha256_block(st, b);
    else sha512_block(st, b);
}
void ref_md_finish(int alg, const uint64_t st0[8], const uint8_t *tail, size_t tn, uint64_t hi, uint64_t lo, uint8_t *out) {
    uint64_t st[8];
    uint8_t pad[256];
    size_t bs = BS[alg], lf = bs == 128 ? 16 : 8;
    size_t total = tn + 1 + lf <= bs ? bs : 2 * bs;
    for (int i = 0; i < 8; i++) st[i] = st0[i];
    for (size_t i = 0; i < total; i++) pad[i] = i < tn ? tail[i] : i == tn ? 0x80 : 0;
    for (int i = 0; i < 8; i++) {
        if (alg == R_MD5) pad[total - 8 + i] = (uint8_t)(lo >> 8 * i);
        else {
            pad[total - 1 - i] = (uint8_t)(lo >> 8 * i);
            if (lf == 16) pad[total - 9 - i] = (uint8_t)(hi >> 8 * i);
        }
    }
    for (size_t i = 0; i < total; i += bs) ref_md_block(alg, st, pad + i);
    for (size_t i = 0; i < DS[alg]; i++) {
        if (alg == R_MD5) out[i] = (uint8_t)(st[i / 4] >> 8 * (i % 4));
        else if (alg <= R_SHA256) out[i] = (uint8_t)(st[i / 4] >> (24 - 8 * (i % 4)));
        else out[i] = (uint8_t)(st[i / 8] >> (56 - 8 * (i % 8)));
    }
}

// ---------------------------------------------------------------- Keccak (FIPS 202, section 3; rotation offsets and constants by their definitions)
static uint64_t rol64(uint64_t x, unsigned n) { return n ? (x << n) | (x >> (64 - n)) : x; }
static int rc_bit(unsigned t) { // algorithm 5
    unsigned R = 0x80;          // R[0] is the top bit of 8
    unsigned r[9];
    t %= 255;
    if (!t) return 1;
    for (int i = 0; i < 8; i++) r[i] = (R >> (7 - i)) & 1;
    for (unsigned i = 1; i <= t; i++) {
        for (int k = 8; k > 0; k--) r[k] = r[k - 1];
        r[0] = 0;
        r[0] ^= r[8];
        r[4] ^= r[8];
        r[5] ^= r[8];
        r[6] ^= r[8];
    }
    return r[0];
}
static uint64_t RCs[24];
static int haveRC;
static void mkRC(void) {
    if (haveRC) return;
    for (int ir = 0; ir < 24; ir++) {
        RCs[ir] = 0;
        for (int j = 0; j <= 6; j++)
            if (rc_bit(j + 7 * ir)) RCs[ir] |= 1ull << ((1u << j) - 1);
    }
    haveRC = 1;
}
void ref_init(void) { mkRC(); }
static void keccak_f(uint64_t a[25]) { // lane (x,y) at a[x+5y]
    unsigned off[25];
    int x = 1, y = 0;
    mkRC();
    off[0] = 0;
    for (int t = 0; t < 24; t++) {
        off[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64;
        int nx = y, ny = (2 * x + 3 * y) % 5;
        x = nx;
        y = ny;
    }
    for (int r = 0; r < 24; r++) {
        uint64_t c[5], b[25];
        for (x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        for (x = 0; x < 5; x++)
            for (y = 0; y < 5; y++) a[x + 5 * y] ^= c[(x + 4) % 5] ^ rol64(c[(x + 1) % 5], 1);
        for (x = 0; x < 5; x++)
            for (y = 0; y < 5; y++) { // rho then pi: A'[x,y] = A[(x+3y) mod 5, x]
                int sx = (x + 3 * y) % 5, sy = x;
                b[x + 5 * y] = rol64(a[sx + 5 * sy], off[sx + 5 * sy]);
            }
        for (x = 0; x < 5; x++)
            for (y = 0; y < 5; y++) a[x + 5 * y] = b[x + 5 * y] ^ (~b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
        a[0] ^= RCs[r];
    }
}
// sponge from a given state (whole blocks absorbed so far), with the rest of the message
static void sponge_from(uint64_t a[25], unsigned rate, uint8_t suffix, const uint8_t *m, size_t n, uint8_t *out, size_t outn) {
    for (size_t pos = 0;; pos += rate) {
        size_t k = n - pos < rate ? n - pos : rate;
        for (size_t i = 0; i < k; i++) a[i / 8] ^= (uint64_t)m[pos + i] << 8 * (i % 8);
        if (k == rate) {
            keccak_f(a);
            continue;
        }
        a[k / 8] ^= (uint64_t)suffix << 8 * (k % 8);
        a[(rate - 1) / 8] ^= 0x80ull << 8 * ((rate - 1) % 8);
        keccak_f(a);
        break;
    }
    for (size_t pos = 0; pos < outn; pos += rate) {
        if (pos) keccak_f(a);
        for (size_t i = 0; i < rate && pos + i < outn; i++) out[pos + i] = (uint8_t)(a[i / 8] >> 8 * (i % 8));
    }
}
static uint8_t suffix_of(int alg) { return alg <= R_SHA3_512 ? 0x06 : alg == R_SHAKE128 || alg == R_SHAKE256 ? 0x1f : 0x07; }
void ref_sponge_finish(int alg, const uint64_t st[25], const uint8_t *tail, size_t tn, uint8_t *out, size_t outn) {
    uint64_t a[25];
    for (int i = 0; i < 25; i++) a[i] = st[i];
    sponge_from(a, BS[alg], suffix_of(alg), tail, tn, out, outn);
}
static void sponge(unsigned rate, uint8_t suffix, const uint8_t *m, size_t n, uint8_t *out, size_t outn) {
    uint64_t a[25];
    for (int i = 0; i < 25; i++) a[i] = 0;
    sponge_from(a, rate, suffix, m, n, out, outn);
}
void ref_hash_n(int alg, const uint8_t *m, size_t n, uint8_t *out, size_t outn) {
    if (alg >= R_SHA3_224) {
        sponge(BS[alg], suffix_of(alg), m, n, out, outn);
        return;
    }
    uint64_t st[8];
    size_t pos = 0, bs = BS[alg];
    ref_md_init(alg, st);
    for (; n - pos >= bs; pos += bs) ref_md_block(alg, st, m + pos);
    ref_md_finish(alg, st, m + pos, n - pos, (uint64_t)n >> 61, (uint64_t)n << 3, out);
}
void ref_hash(int alg, const uint8_t *m, size_t n, uint8_t *out) { ref_hash_n(alg, m, n, out, DS[alg]); }

// ---------------------------------------------------------------- HMAC (RFC 2104), HOTP (RFC 4226)
static uint8_t hbuf[1 << 17];
void ref_hmac(int alg, const uint8_t *k, size_t kn, const uint8_t *m, size_t n, uint8_t *out) {
    uint8_t kk[256], in[64];
    size_t bs = BS[alg];
    for (size_t i = 0; i < bs; i++) kk[i] = 0;
    if (kn > bs) ref_hash(alg, k, kn, kk);
    else
        for (size_t i = 0; i < kn; i++) kk[i] = k[i];
    for (size_t i = 0; i < bs; i++) hbuf[i] = kk[i] ^ 0x36;
    for (size_t i = 0; i < n; i++) hbuf[bs + i] = m[i];
    ref_hash(alg, hbuf, bs + n, in);
    for (size_t i = 0; i < bs; i++) hbuf[i] = kk[i] ^ 0x5c;
    for (size_t i = 0; i < DS[alg]; i++) hbuf[bs + i] = in[i];
    ref_hash(alg, hbuf, bs + DS[alg], out);
}
uint32_t ref_hotp(int alg, const uint8_t *k, size_t kn, uint64_t c, unsigned digits) {
    uint8_t cb[8], h[64];
    for (int i = 0; i < 8; i++) cb[i] = (uint8_t)(c >> (56 - 8 * i));
    ref_hmac(alg, k, kn, cb, 8, h);
    size_t ds = DS[alg];
    uint32_t o = h[ds - 1] & 15, v = 0, p = 1;
    for (uint32_t i = 0; i < 16; i++) // select without a symbolic index
        if (i + 4 <= ds) {
            uint32_t w = be32(h + i), same = i == o;
            v |= w & (0u - same);
        }
    v &= 0x7fffffffu;
    if (digits >= 10) return v;
    for (unsigned i = 0; i < digits; i++) p *= 10;
    return v % p;
}

// ---------------------------------------------------------------- RFC 4648
static const char AL[5][65] = {"0123456789ABCDEF", "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", "0123456789ABCDEFGHIJKLMNOPQRSTUV",
                               "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"};
static const uint8_t BITS[5] = {4, 5, 5, 6, 6}, UNIT[5] = {1, 5, 5, 3, 3}, CHUNK[5] = {2, 8, 8, 4, 4};
size_t ref_base_encoded_size(int k, size_t n) { return (n + UNIT[k] - 1) / UNIT[k] * CHUNK[k]; }
size_t ref_base_encode(int k, const uint8_t *in, size_t n, char *out) {
    size_t o = 0, bits = BITS[k];
    for (size_t pos = 0; pos < 8 * n; pos += bits) {
        unsigned v = 0;
        for (size_t b = pos; b < pos + bits; b++) v = v << 1 | (b < 8 * n ? (in[b / 8] >> (7 - b % 8)) & 1 : 0);
        out[o++] = AL[k][v];
    }
    while (o % CHUNK[k]) out[o++] = '=';
    out[o] = 0;
    return o;
}
int ref_base_value(int k, uint8_t c) {
    int v = -1;
    for (int i = 0; i < (1 << BITS[k]); i++) {
        char a = AL[k][i];
        if (c == (uint8_t)a) v = i;
        if (k < 3 && a >= 'A' && a <= 'Z' && c == (uint8_t)(a + 32)) v = i;
    }
    if (k >= 3) {
        if (c == '+' || c == '-') v = 62;
        if (c == '/' || c == '_') v = 63;
    }
    return v;
}

// ---------------------------------------------------------------- Blowfish
static uint32_t bf_f(const ref_bf *k, uint32_t x) { return ((k->S[0][x >> 24] + k->S[1][x >> 16 & 255]) ^ k->S[2][x >> 8 & 255]) + k->S[3][x & 255]; }
void ref_bf_enc(const ref_bf *k, uint32_t *l, uint32_t *r) {
    uint32_t L = *l, R = *r;
    for (int i = 0; i < 16; i += 2) {
        L ^= k->P[i];
        R ^= bf_f(k, L);
        R ^= k->P[i + 1];
        L ^= bf_f(k, R);
    }
    L ^= k->P[16];
    R ^= k->P[17];
    *l = R;
    *r = L;
}
void ref_bf_dec(const ref_bf *k, uint32_t *l, uint32_t *r) {
    uint32_t L = *l, R = *r;
    for (int i = 16; i > 0; i -= 2) {
        L ^= k->P[i + 1];
        R ^= bf_f(k, L);
        R ^= k->P[i];
        L ^= bf_f(k, R);
    }
    L ^= k->P[1];
    R ^= k->P[0];
    *l = R;
    *r = L;
}
void ref_bf_init(ref_bf *k, const uint8_t *key, size_t n) {
    size_t j = 0;
    uint32_t l = 0, r = 0;
    for (int i = 0; i < 18; i++) {
        uint32_t d = 0;
        for (int b = 0; b < 4; b++) {
            d = d << 8 | key[j];
            j = j + 1 == n ? 0 : j + 1;
        }
        k->P[i] = REF_PI[i] ^ d;
    }
    for (int s = 0; s < 4; s++)
        for (int i = 0; i < 256; i++) k->S[s][i] = REF_PI[18 + 256 * s + i];
    for (int i = 0; i < 18; i += 2) {
        ref_bf_enc(k, &l, &r);
        k->P[i] = l;
        k->P[i + 1] = r;
    }
    for (int s = 0; s < 4; s++)
        for (int i = 0; i < 256; i += 2) {
            ref_bf_enc(k, &l, &r);
            k->S[s][i] = l;
            k->S[s][i + 1] = r;
        }
}
