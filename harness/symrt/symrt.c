/* What the symbolic executor models, natively: used to replay concrete inputs against the real code. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static const uint8_t *in; static size_t in_n, in_p; static uint64_t params[16]; static int exhausted;
static char *tr; static size_t tr_n, tr_c; static int failed, assumed; static uint64_t failed_ids[64];
static void put(const char *s) { size_t n = strlen(s); if (tr_n + n + 1 > tr_c) { tr_c = 2 * (tr_n + n + 64); tr = realloc(tr, tr_c); } memcpy(tr + tr_n, s, n + 1); tr_n += n; }
void symrt_reset(const uint8_t *p, size_t n) { in = p; in_n = n; in_p = 0; failed = assumed = exhausted = 0; tr_n = 0; put(""); }
void symrt_param(uint64_t i, uint64_t v) { if (i < 16) params[i] = v; }
const char *symrt_trace(void) { return tr; }
int symrt_status(void) { return failed ? 1 : assumed ? 2 : exhausted ? 3 : 0; }
/* the failed assertions, separated by commas */
const char *symrt_failed(void) { static char b[64 * 21]; char *p = b; *p = 0; for (int i = 0; i < failed; i++) p += sprintf(p, "%s%llu", i ? "," : "", (unsigned long long)failed_ids[i]); return b; }
void __sym_bytes(uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) { if (in_p < in_n) p[i] = in[in_p++]; else { p[i] = 'a'; exhausted = 1; } } }
void symrt_stop(void) __attribute__((noreturn));
void symrt_stop(void) { printf("%s\t%s\t%s\n", failed ? "CHECK" : "ASSUMED", tr, symrt_failed()); fflush(stdout); _Exit(failed ? 1 : 77); }
void __sym_assume(uint64_t c) { if (!c) { assumed = 1; symrt_stop(); } }
void __sym_check(uint64_t c, uint64_t id) { if (c) return; for (int i = 0; i < failed; i++) if (failed_ids[i] == id) return; if (failed < 64) failed_ids[failed++] = id; }
uint64_t __sym_concretize(uint64_t x) { return x; }
void __sym_observe(uint64_t t, uint64_t v) { char b[64]; snprintf(b, sizeof b, "%llu=%llu;", (unsigned long long)t, (unsigned long long)v); put(b); }
void __sym_observe_bytes(uint64_t t, const uint8_t *p, size_t n) { char b[32]; snprintf(b, sizeof b, "%llu:", (unsigned long long)t); put(b); for (size_t i = 0; i < n; i++) { snprintf(b, sizeof b, "%02x", p[i]); put(b); } put(";"); }
void __sym_cover(uint64_t id) { (void)id; }
uint64_t __sym_param(uint64_t i) { return i < 16 ? params[i] : 0; }
#define ROL(x,n) ((uint32_t)((x) << (n)) | ((x) >> (32 - (n))))
#define ROR(x,n) ((uint32_t)((x) >> (n)) | ((x) << (32 - (n))))
#define RORQ(x,n) ((uint64_t)((x) >> (n)) | ((x) << (64 - (n))))
static uint32_t be(const uint8_t *b) { return (uint32_t)b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3]; }
void __sym_sha1(uint32_t *s, const uint8_t *b) {
  uint32_t w[80], a = s[0], c, d, e, f, k, bb = s[1], t; int i; c = s[2]; d = s[3]; e = s[4];
  for (i = 0; i < 16; i++) w[i] = be(b + 4 * i);
  for (; i < 80; i++) { t = w[i-3] ^ w[i-8] ^ w[i-14] ^ w[i-16]; w[i] = ROL(t, 1); }
  for (i = 0; i < 80; i++) {
    if (i < 20) { f = (bb & c) | (~bb & d); k = 0x5A827999; } else if (i < 40) { f = bb ^ c ^ d; k = 0x6ED9EBA1; } else if (i < 60) { f = (bb & c) | (bb & d) | (c & d); k = 0x8F1BBCDC; } else { f = bb ^ c ^ d; k = 0xCA62C1D6; }
    t = ROL(a, 5) + f + e + k + w[i]; e = d; d = c; c = ROL(bb, 30); bb = a; a = t;
  }
  s[0] += a; s[1] += bb; s[2] += c; s[3] += d; s[4] += e;
}
static const uint32_t K2[64] = {0x428a2f98u,0x71374491u,0xb5c0fbcfu,0xe9b5dba5u,0x3956c25bu,0x59f111f1u,0x923f82a4u,0xab1c5ed5u,0xd807aa98u,0x12835b01u,0x243185beu,0x550c7dc3u,0x72be5d74u,0x80deb1feu,0x9bdc06a7u,0xc19bf174u,0xe49b69c1u,0xefbe4786u,0xfc19dc6u,0x240ca1ccu,0x2de92c6fu,0x4a7484aau,0x5cb0a9dcu,0x76f988dau,0x983e5152u,0xa831c66du,0xb00327c8u,0xbf597fc7u,0xc6e00bf3u,0xd5a79147u,0x6ca6351u,0x14292967u,0x27b70a85u,0x2e1b2138u,0x4d2c6dfcu,0x53380d13u,0x650a7354u,0x766a0abbu,0x81c2c92eu,0x92722c85u,0xa2bfe8a1u,0xa81a664bu,0xc24b8b70u,0xc76c51a3u,0xd192e819u,0xd6990624u,0xf40e3585u,0x106aa070u,0x19a4c116u,0x1e376c08u,0x2748774cu,0x34b0bcb5u,0x391c0cb3u,0x4ed8aa4au,0x5b9cca4fu,0x682e6ff3u,0x748f82eeu,0x78a5636fu,0x84c87814u,0x8cc70208u,0x90befffau,0xa4506cebu,0xbef9a3f7u,0xc67178f2u};
static const uint64_t K5[80] = {0x428a2f98d728ae22ull,0x7137449123ef65cdull,0xb5c0fbcfec4d3b2full,0xe9b5dba58189dbbcull,0x3956c25bf348b538ull,0x59f111f1b605d019ull,0x923f82a4af194f9bull,0xab1c5ed5da6d8118ull,0xd807aa98a3030242ull,0x12835b0145706fbeull,0x243185be4ee4b28cull,0x550c7dc3d5ffb4e2ull,0x72be5d74f27b896full,0x80deb1fe3b1696b1ull,0x9bdc06a725c71235ull,0xc19bf174cf692694ull,0xe49b69c19ef14ad2ull,0xefbe4786384f25e3ull,0xfc19dc68b8cd5b5ull,0x240ca1cc77ac9c65ull,0x2de92c6f592b0275ull,0x4a7484aa6ea6e483ull,0x5cb0a9dcbd41fbd4ull,0x76f988da831153b5ull,0x983e5152ee66dfabull,0xa831c66d2db43210ull,0xb00327c898fb213full,0xbf597fc7beef0ee4ull,0xc6e00bf33da88fc2ull,0xd5a79147930aa725ull,0x6ca6351e003826full,0x142929670a0e6e70ull,0x27b70a8546d22ffcull,0x2e1b21385c26c926ull,0x4d2c6dfc5ac42aedull,0x53380d139d95b3dfull,0x650a73548baf63deull,0x766a0abb3c77b2a8ull,0x81c2c92e47edaee6ull,0x92722c851482353bull,0xa2bfe8a14cf10364ull,0xa81a664bbc423001ull,0xc24b8b70d0f89791ull,0xc76c51a30654be30ull,0xd192e819d6ef5218ull,0xd69906245565a910ull,0xf40e35855771202aull,0x106aa07032bbd1b8ull,0x19a4c116b8d2d0c8ull,0x1e376c085141ab53ull,0x2748774cdf8eeb99ull,0x34b0bcb5e19b48a8ull,0x391c0cb3c5c95a63ull,0x4ed8aa4ae3418acbull,0x5b9cca4f7763e373ull,0x682e6ff3d6b2b8a3ull,0x748f82ee5defb2fcull,0x78a5636f43172f60ull,0x84c87814a1f0ab72ull,0x8cc702081a6439ecull,0x90befffa23631e28ull,0xa4506cebde82bde9ull,0xbef9a3f7b2c67915ull,0xc67178f2e372532bull,0xca273eceea26619cull,0xd186b8c721c0c207ull,0xeada7dd6cde0eb1eull,0xf57d4f7fee6ed178ull,0x6f067aa72176fbaull,0xa637dc5a2c898a6ull,0x113f9804bef90daeull,0x1b710b35131c471bull,0x28db77f523047d84ull,0x32caab7b40c72493ull,0x3c9ebe0a15c9bebcull,0x431d67c49c100d4cull,0x4cc5d4becb3e42b6ull,0x597f299cfc657e2aull,0x5fcb6fab3ad6faecull,0x6c44198c4a475817ull};
void __sym_sha256(uint32_t *s, const uint8_t *b) {
  uint32_t w[64], v[8], t1, t2; int i, j;
  for (i = 0; i < 16; i++) w[i] = be(b + 4 * i);
  for (; i < 64; i++) w[i] = w[i-16] + (ROR(w[i-15],7) ^ ROR(w[i-15],18) ^ (w[i-15] >> 3)) + w[i-7] + (ROR(w[i-2],17) ^ ROR(w[i-2],19) ^ (w[i-2] >> 10));
  for (j = 0; j < 8; j++) v[j] = s[j];
  for (i = 0; i < 64; i++) {
    t1 = v[7] + (ROR(v[4],6) ^ ROR(v[4],11) ^ ROR(v[4],25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + K2[i] + w[i];
    t2 = (ROR(v[0],2) ^ ROR(v[0],13) ^ ROR(v[0],22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
    for (j = 7; j > 0; j--) v[j] = v[j-1];
    v[4] += t1; v[0] = t1 + t2;
  }
  for (j = 0; j < 8; j++) s[j] += v[j];
}
void __sym_sha512(uint64_t *s, const uint8_t *b) {
  uint64_t w[80], v[8], t1, t2; int i, j;
  for (i = 0; i < 16; i++) w[i] = ((uint64_t)be(b + 8 * i) << 32 | be(b + 8 * i + 4));
  for (; i < 80; i++) w[i] = w[i-16] + (RORQ(w[i-15],1) ^ RORQ(w[i-15],8) ^ (w[i-15] >> 7)) + w[i-7] + (RORQ(w[i-2],19) ^ RORQ(w[i-2],61) ^ (w[i-2] >> 6));
  for (j = 0; j < 8; j++) v[j] = s[j];
  for (i = 0; i < 80; i++) {
    t1 = v[7] + (RORQ(v[4],14) ^ RORQ(v[4],18) ^ RORQ(v[4],41)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + K5[i] + w[i];
    t2 = (RORQ(v[0],28) ^ RORQ(v[0],34) ^ RORQ(v[0],39)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
    for (j = 7; j > 0; j--) v[j] = v[j-1];
    v[4] += t1; v[0] = t1 + t2;
  }
  for (j = 0; j < 8; j++) s[j] += v[j];
}
