// @wrap
// @covers end, twoblocks, longkey
// @quick N=130 STEP=1 SYM=4
// @thorough N=400 STEP=1 SYM=16
// @timeout 300 850
// @bounds sha256 of texts of every length 0..N and hmac with every pair of a key length out of 0..3, 20, 31..33, 63..65, 100, 128..130 and a text length out of 0, 1, 54..57, 63..65, 119, 120, 128; SYM bytes at the start, the end and next to a block boundary any value (including NUL), the others fixed; hmac in hexadecimal (no text or key of 64 bytes) and raw (no key of 32 bytes)
#include "out.h"
static const uint32_t h_k[64] = {
  0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
  0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
  0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
  0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
static uint32_t h_rot(uint32_t x, uint32_t n) { return (x >> n) | (x << (32 - n)); }
static uint32_t h_be(const uint8_t **c) { uint32_t n = (uint32_t)*(*c)++ << 24; n |= (uint32_t)*(*c)++ << 16; n |= (uint32_t)*(*c)++ << 8; n |= (uint32_t)*(*c)++; return n; }
__attribute__((noinline)) static void h_block(uint32_t *iv, const uint8_t *p) {
  uint32_t a = iv[0], b = iv[1], c = iv[2], d = iv[3], e = iv[4], f = iv[5], g = iv[6], h = iv[7], s0, s1, t1, t2, w[16], n; uint32_t i;
  for (i = 0; i < 64; i++) {
    if (i < 16) { n = h_be(&p); t1 = w[i] = n; }
    else { s0 = w[(i + 1) & 15]; s0 = h_rot(s0, 7) ^ h_rot(s0, 18) ^ (s0 >> 3); s1 = w[(i + 14) & 15]; s1 = h_rot(s1, 17) ^ h_rot(s1, 19) ^ (s1 >> 10); t1 = w[i & 15] += s0 + s1 + w[(i + 9) & 15]; }
    t1 += h + (h_rot(e, 6) ^ h_rot(e, 11) ^ h_rot(e, 25)) + ((e & f) ^ (~e & g)) + h_k[i]; t2 = (h_rot(a, 2) ^ h_rot(a, 13) ^ h_rot(a, 22)) + ((a & b) ^ (a & c) ^ (b & c));
    h = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2; }
  iv[0] += a; iv[1] += b; iv[2] += c; iv[3] += d; iv[4] += e; iv[5] += f; iv[6] += g; iv[7] += h; }
static void h_ref(const uint8_t *p, int n, uint8_t *out) { // FIPS 180-4
  static uint8_t m[1024]; int len = (n + 9 + 63) / 64 * 64; memset(m, 0, sizeof m); memcpy(m, p, (size_t)n); m[n] = 0x80; uint64_t bits = (uint64_t)n * 8; for (int i = 0; i < 8; i++) m[len - 1 - i] = (uint8_t)(bits >> (8 * i));
  uint32_t H[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
  for (int o = 0; o < len; o += 64) h_block(H, m + o);
  for (int i = 0; i < 32; i++) out[i] = (uint8_t)(H[i / 4] >> (24 - 8 * (i % 4))); }
static void h_text(uint8_t *p, int n, const char *name) { int k = sx_param("SYM", 4); char nm[16]; for (int i = 0; i < n; i++) p[i] = (uint8_t)(i * 37 + 11);
  if (n <= k) { if (n) sx_bytes(p, (uint64_t)n, name); return; }
  sprintf(nm, "%se", name); sx_bytes(p + n - k / 2, (uint64_t)(k / 2), nm); sprintf(nm, "%ss", name); sx_bytes(p, (uint64_t)(k - k / 2), nm); if (n > 65 + k / 2) { sprintf(nm, "%sb", name); sx_bytes(p + 63, 2, nm); sx_cover("twoblocks"); } }
static void h_hex(const uint8_t *d, char *t) { for (int i = 0; i < 32; i++) sprintf(t + 2 * i, "%02x", d[i]); }
void h_sha(void) {
  static uint8_t key[512], txt[600], buf[700], want[32], in[32]; char hex[70];
  static const short kl[] = {0, 1, 2, 3, 20, 31, 32, 33, 63, 64, 65, 100, 128, 129, 130}, tl[] = {0, 1, 54, 55, 56, 57, 63, 64, 65, 119, 120, 128};
  int mac = sx_choose("hmac", 3), n, k = 0; if (!mac) n = sx_choose("blocks", 8) * 64 + sx_choose("length", 64); else { n = tl[sx_choose("text", 12)]; k = kl[sx_choose("key", 15)]; } if (!mac) sx_assume(n <= sx_param("N", 200));
  if (mac == 1) sx_assume(n != 64 && k != 64); if (mac == 2) sx_assume(k != 32); // whether a digest can equal its own input is not asked
  if (mac || n != 64) h_text(txt, n, "t"); if (k) h_text(key, k, "k"); DictuVM *vm = o_new(); x_vals[0] = o_mk(vm, (char *)txt, n); push(vm, x_vals[0]); x_vals[1] = o_mk(vm, (char *)key, k); push(vm, x_vals[1]);
  memcpy(txt, AS_CSTRING(x_vals[0]), (size_t)n); memcpy(key, AS_CSTRING(x_vals[1]), (size_t)k);
  if (!mac) h_ref(txt, n, want);
  else { uint8_t kk[64] = {0}; if (k > 64) { sx_cover("longkey"); h_ref(key, k, kk); } else memcpy(kk, key, (size_t)k);
    for (int i = 0; i < 64; i++) buf[i] = kk[i] ^ 0x36; memcpy(buf + 64, txt, (size_t)n); h_ref(buf, 64 + n, in); for (int i = 0; i < 64; i++) buf[i] = kk[i] ^ 0x5c; memcpy(buf + 64, in, 32); h_ref(buf, 96, want); }
  o_ok(vm, mac == 0 ? "import Hashlib; out(Hashlib.sha256(val(0)));" : mac == 1 ? "import Hashlib; out(Hashlib.hmac(val(1), val(0)));" : "import Hashlib; out(Hashlib.hmac(val(1), val(0), true));");
  h_hex(want, hex);
  sx_assert(o_n == 1 && (mac == 2 ? o_str(0, (char *)want, 32) : o_str(0, hex, 64)), mac ? "hmac() is HMAC-SHA-256 of key and text" : "sha256() is SHA-256 of the text");
  pop(vm); pop(vm); dictuFreeVM(vm); sx_cover("end");
}
