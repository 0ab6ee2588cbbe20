// Independent reference implementations, written from the standards (FIPS 180-4, FIPS 202, RFC 1321/2104/4226/6238/4648, Schneier's Blowfish).
#ifndef REF_H
#define REF_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
// algorithm numbers, in the order of enum pgfe_algorithm_choice as documented
enum { R_MD5, R_SHA1, R_SHA224, R_SHA256, R_SHA384, R_SHA512, R_SHA512_224, R_SHA512_256, R_SHA3_224, R_SHA3_256, R_SHA3_384, R_SHA3_512,
       R_RAWSHAKE128, R_SHAKE128, R_RAWSHAKE256, R_SHAKE256, R_NALG };
size_t ref_digest_size(int alg);
size_t ref_block_size(int alg);
void ref_init(void); // computes the tables now (saves doing it on every path)
void ref_hash(int alg, const uint8_t *m, size_t n, uint8_t *out);               // default digest size
void ref_hash_n(int alg, const uint8_t *m, size_t n, uint8_t *out, size_t outn); // any output size for the XOFs
void ref_hmac(int alg, const uint8_t *k, size_t kn, const uint8_t *m, size_t n, uint8_t *out);
// end of a Merkle-Damgard hash from a chaining value: tail bytes in the open block and total bit length (hi:lo)
void ref_md_finish(int alg, const uint64_t st[8], const uint8_t *tail, size_t tn, uint64_t hi, uint64_t lo, uint8_t *out);
void ref_sponge_finish(int alg, const uint64_t st[25], const uint8_t *tail, size_t tn, uint8_t *out, size_t outn); // from a Keccak state
// chaining value after absorbing whole blocks
void ref_md_init(int alg, uint64_t st[8]);
void ref_md_block(int alg, uint64_t st[8], const uint8_t *b);
uint32_t ref_hotp(int alg, const uint8_t *k, size_t kn, uint64_t c, unsigned digits);
// base encodings: kind 0 base16, 1 base32, 2 base32hex, 3 base64, 4 base64url
size_t ref_base_encode(int kind, const uint8_t *in, size_t n, char *out);
int ref_base_value(int kind, uint8_t c); // value of an alphabet character (lenient), -1 otherwise
size_t ref_base_encoded_size(int kind, size_t n);
typedef struct { uint32_t P[18], S[4][256]; } ref_bf;
void ref_bf_enc(const ref_bf *k, uint32_t *l, uint32_t *r);
void ref_bf_dec(const ref_bf *k, uint32_t *l, uint32_t *r);
void ref_bf_init(ref_bf *k, const uint8_t *key, size_t n);
extern const unsigned *ref_pi;
#ifdef __cplusplus
}
#endif
#endif
