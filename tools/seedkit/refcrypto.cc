#include "refcrypto.h"
#include <cstring>
#include <cmath>
namespace ref {
namespace {
inline uint32_t ror32(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
inline uint64_t ror64(uint64_t x, int n) { return (x >> n) | (x << (64 - n)); }
const uint64_t K512[80] = {
    0x428a2f98d728ae22ull, 0x7137449123ef65cdull, 0xb5c0fbcfec4d3b2full, 0xe9b5dba58189dbbcull, 0x3956c25bf348b538ull,
    0x59f111f1b605d019ull, 0x923f82a4af194f9bull, 0xab1c5ed5da6d8118ull, 0xd807aa98a3030242ull, 0x12835b0145706fbeull,
    0x243185be4ee4b28cull, 0x550c7dc3d5ffb4e2ull, 0x72be5d74f27b896full, 0x80deb1fe3b1696b1ull, 0x9bdc06a725c71235ull,
    0xc19bf174cf692694ull, 0xe49b69c19ef14ad2ull, 0xefbe4786384f25e3ull, 0x0fc19dc68b8cd5b5ull, 0x240ca1cc77ac9c65ull,
    0x2de92c6f592b0275ull, 0x4a7484aa6ea6e483ull, 0x5cb0a9dcbd41fbd4ull, 0x76f988da831153b5ull, 0x983e5152ee66dfabull,
    0xa831c66d2db43210ull, 0xb00327c898fb213full, 0xbf597fc7beef0ee4ull, 0xc6e00bf33da88fc2ull, 0xd5a79147930aa725ull,
    0x06ca6351e003826full, 0x142929670a0e6e70ull, 0x27b70a8546d22ffcull, 0x2e1b21385c26c926ull, 0x4d2c6dfc5ac42aedull,
    0x53380d139d95b3dfull, 0x650a73548baf63deull, 0x766a0abb3c77b2a8ull, 0x81c2c92e47edaee6ull, 0x92722c851482353bull,
    0xa2bfe8a14cf10364ull, 0xa81a664bbc423001ull, 0xc24b8b70d0f89791ull, 0xc76c51a30654be30ull, 0xd192e819d6ef5218ull,
    0xd69906245565a910ull, 0xf40e35855771202aull, 0x106aa07032bbd1b8ull, 0x19a4c116b8d2d0c8ull, 0x1e376c085141ab53ull,
    0x2748774cdf8eeb99ull, 0x34b0bcb5e19b48a8ull, 0x391c0cb3c5c95a63ull, 0x4ed8aa4ae3418acbull, 0x5b9cca4f7763e373ull,
    0x682e6ff3d6b2b8a3ull, 0x748f82ee5defb2fcull, 0x78a5636f43172f60ull, 0x84c87814a1f0ab72ull, 0x8cc702081a6439ecull,
    0x90befffa23631e28ull, 0xa4506cebde82bde9ull, 0xbef9a3f7b2c67915ull, 0xc67178f2e372532bull, 0xca273eceea26619cull,
    0xd186b8c721c0c207ull, 0xeada7dd6cde0eb1eull, 0xf57d4f7fee6ed178ull, 0x06f067aa72176fbaull, 0x0a637dc5a2c898a6ull,
    0x113f9804bef90daeull, 0x1b710b35131c471bull, 0x28db77f523047d84ull, 0x32caab7b40c72493ull, 0x3c9ebe0a15c9bebcull,
    0x431d67c49c100d4cull, 0x4cc5d4becb3e42b6ull, 0x597f299cfc657e2aull, 0x5fcb6fab3ad6faecull, 0x6c44198c4a475817ull};

void Sha256Block(uint32_t* h, const uint8_t* p) {
  uint32_t w[64];
  for (int i = 0; i < 16; i++) w[i] = p[4*i] << 24 | p[4*i+1] << 16 | p[4*i+2] << 8 | p[4*i+3];
  for (int i = 16; i < 64; i++) {
    uint32_t s0 = ror32(w[i-15], 7) ^ ror32(w[i-15], 18) ^ (w[i-15] >> 3);
    uint32_t s1 = ror32(w[i-2], 17) ^ ror32(w[i-2], 19) ^ (w[i-2] >> 10);
    w[i] = w[i-16] + s0 + w[i-7] + s1;
  }
  uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], hh = h[7];
  for (int i = 0; i < 64; i++) {
    uint32_t S1 = ror32(e, 6) ^ ror32(e, 11) ^ ror32(e, 25);
    uint32_t t1 = hh + S1 + ((e & f) ^ (~e & g)) + (uint32_t)(K512[i] >> 32) + w[i];
    uint32_t S0 = ror32(a, 2) ^ ror32(a, 13) ^ ror32(a, 22);
    uint32_t t2 = S0 + ((a & b) ^ (a & c) ^ (b & c));
    hh = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
  }
  h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += hh;
}
void Sha512Block(uint64_t* h, const uint8_t* p) {
  uint64_t w[80];
  for (int i = 0; i < 16; i++) { w[i] = 0; for (int j = 0; j < 8; j++) w[i] = w[i] << 8 | p[8*i+j]; }
  for (int i = 16; i < 80; i++) {
    uint64_t s0 = ror64(w[i-15], 1) ^ ror64(w[i-15], 8) ^ (w[i-15] >> 7);
    uint64_t s1 = ror64(w[i-2], 19) ^ ror64(w[i-2], 61) ^ (w[i-2] >> 6);
    w[i] = w[i-16] + s0 + w[i-7] + s1;
  }
  uint64_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], hh = h[7];
  for (int i = 0; i < 80; i++) {
    uint64_t S1 = ror64(e, 14) ^ ror64(e, 18) ^ ror64(e, 41);
    uint64_t t1 = hh + S1 + ((e & f) ^ (~e & g)) + K512[i] + w[i];
    uint64_t S0 = ror64(a, 28) ^ ror64(a, 34) ^ ror64(a, 39);
    uint64_t t2 = S0 + ((a & b) ^ (a & c) ^ (b & c));
    hh = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
  }
  h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += hh;
}
}  // namespace
Bytes Sha256(const Bytes& m) {
  uint32_t h[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
  Bytes b = m; b.push_back(0x80);
  while (b.size() % 64 != 56) b.push_back(0);
  uint64_t n = (uint64_t)m.size() * 8;
  for (int i = 7; i >= 0; i--) b.push_back(n >> (8*i));
  for (size_t i = 0; i < b.size(); i += 64) Sha256Block(h, &b[i]);
  Bytes o(32);
  for (int i = 0; i < 32; i++) o[i] = h[i/4] >> (24 - 8*(i%4));
  return o;
}
Bytes Sha384(const Bytes& m) {
  uint64_t h[8] = {0xcbbb9d5dc1059ed8ull, 0x629a292a367cd507ull, 0x9159015a3070dd17ull, 0x152fecd8f70e5939ull,
                   0x67332667ffc00b31ull, 0x8eb44a8768581511ull, 0xdb0c2e0d64f98fa7ull, 0x47b5481dbefa4fa4ull};
  Bytes b = m; b.push_back(0x80);
  while (b.size() % 128 != 112) b.push_back(0);
  for (int i = 0; i < 8; i++) b.push_back(0);
  uint64_t n = (uint64_t)m.size() * 8;
  for (int i = 7; i >= 0; i--) b.push_back(n >> (8*i));
  for (size_t i = 0; i < b.size(); i += 128) Sha512Block(h, &b[i]);
  Bytes o(48);
  for (int i = 0; i < 48; i++) o[i] = h[i/8] >> (56 - 8*(i%8));
  return o;
}
static Bytes H(Hash h, const Bytes& m) { return h == kSha256 ? Sha256(m) : Sha384(m); }
Bytes Hmac(Hash h, const Bytes& key, const Bytes& msg) {
  size_t bs = h == kSha256 ? 64 : 128;
  Bytes k = key.size() > bs ? H(h, key) : key;
  k.resize(bs, 0);
  Bytes in(bs), out(bs);
  for (size_t i = 0; i < bs; i++) { in[i] = k[i] ^ 0x36; out[i] = k[i] ^ 0x5c; }
  in.insert(in.end(), msg.begin(), msg.end());
  Bytes d = H(h, in);
  out.insert(out.end(), d.begin(), d.end());
  return H(h, out);
}
Bytes HkdfExpand(Hash h, const Bytes& prk, const Bytes& info, size_t len) {
  Bytes out, t;
  for (uint8_t i = 1; out.size() < len; i++) {
    Bytes m = t; m.insert(m.end(), info.begin(), info.end()); m.push_back(i);
    t = Hmac(h, prk, m);
    out.insert(out.end(), t.begin(), t.end());
  }
  out.resize(len);
  return out;
}
Bytes ExpandLabel(Hash h, const Bytes& secret, const std::string& label, size_t len) {
  std::string l = "tls13 " + label;
  Bytes info = {(uint8_t)(len >> 8), (uint8_t)len, (uint8_t)l.size()};
  info.insert(info.end(), l.begin(), l.end());
  info.push_back(0);
  return HkdfExpand(h, secret, info, len);
}
namespace {
struct Aes {
  static uint8_t sb[256]; static uint32_t T[4][256]; static bool init;
  static uint8_t xt(uint8_t x) { return (x << 1) ^ ((x >> 7) * 0x1b); }
  static void Init() {
    uint8_t p = 1, q = 1;
    do {
      p = p ^ (p << 1) ^ ((p & 0x80) ? 0x1b : 0);
      q ^= q << 1; q ^= q << 2; q ^= q << 4; if (q & 0x80) q ^= 0x09;
      uint8_t x = q ^ (uint8_t)(q << 1 | q >> 7) ^ (uint8_t)(q << 2 | q >> 6) ^ (uint8_t)(q << 3 | q >> 5) ^ (uint8_t)(q << 4 | q >> 4);
      sb[p] = x ^ 0x63;
    } while (p != 1);
    sb[0] = 0x63;
    for (int i = 0; i < 256; i++) {
      uint8_t s = sb[i], s2 = xt(s), s3 = s2 ^ s;
      uint32_t t = (uint32_t)s2 << 24 | (uint32_t)s << 16 | (uint32_t)s << 8 | s3;
      for (int j = 0; j < 4; j++) { T[j][i] = t; t = ror32(t, 8); }
    }
    init = true;
  }
  uint32_t rk[60]; int rounds;
  explicit Aes(const Bytes& key) {
    if (!init) Init();
    int nk = key.size() / 4; rounds = nk + 6;
    for (int i = 0; i < nk; i++) rk[i] = key[4*i] << 24 | key[4*i+1] << 16 | key[4*i+2] << 8 | key[4*i+3];
    uint8_t rcon = 1;
    for (int i = nk; i < 4 * (rounds + 1); i++) {
      uint32_t t = rk[i-1];
      auto sub = [](uint32_t x) { return (uint32_t)sb[x >> 24] << 24 | (uint32_t)sb[(x >> 16) & 255] << 16 | (uint32_t)sb[(x >> 8) & 255] << 8 | sb[x & 255]; };
      if (i % nk == 0) { t = sub(t << 8 | t >> 24) ^ ((uint32_t)rcon << 24); rcon = xt(rcon); }
      else if (nk > 6 && i % nk == 4) t = sub(t);
      rk[i] = rk[i-nk] ^ t;
    }
  }
  void Enc(const uint8_t* in, uint8_t* out) const {
    uint32_t s[4], t[4];
    for (int i = 0; i < 4; i++) s[i] = (in[4*i] << 24 | in[4*i+1] << 16 | in[4*i+2] << 8 | in[4*i+3]) ^ rk[i];
    for (int r = 1; r < rounds; r++) {
      for (int i = 0; i < 4; i++)
        t[i] = T[0][s[i] >> 24] ^ T[1][(s[(i+1)&3] >> 16) & 255] ^ T[2][(s[(i+2)&3] >> 8) & 255] ^ T[3][s[(i+3)&3] & 255] ^ rk[4*r+i];
      memcpy(s, t, 16);
    }
    for (int i = 0; i < 4; i++) {
      t[i] = ((uint32_t)sb[s[i] >> 24] << 24 | (uint32_t)sb[(s[(i+1)&3] >> 16) & 255] << 16 | (uint32_t)sb[(s[(i+2)&3] >> 8) & 255] << 8 | sb[s[(i+3)&3] & 255]) ^ rk[4*rounds+i];
      for (int j = 0; j < 4; j++) out[4*i+j] = t[i] >> (24 - 8*j);
    }
  }
};
uint8_t Aes::sb[256]; uint32_t Aes::T[4][256]; bool Aes::init = false;
struct Ghash {
  uint64_t hh[16], hl[16]; uint64_t yh = 0, yl = 0;
  explicit Ghash(const uint8_t* h) {
    uint64_t vh = 0, vl = 0;
    for (int i = 0; i < 8; i++) { vh = vh << 8 | h[i]; vl = vl << 8 | h[8+i]; }
    hh[0] = hl[0] = 0; hh[8] = vh; hl[8] = vl;
    for (int i = 4; i > 0; i >>= 1) {
      uint64_t t = (vl & 1) * 0xe1ull << 56;
      vl = vh << 63 | vl >> 1; vh = (vh >> 1) ^ t;
      hh[i] = vh; hl[i] = vl;
    }
    for (int i = 2; i < 16; i <<= 1)
      for (int j = 1; j < i; j++) { hh[i+j] = hh[i] ^ hh[j]; hl[i+j] = hl[i] ^ hl[j]; }
  }
  void Block(const uint8_t* p) {
    static const uint64_t last4[16] = {0x0000, 0x1c20, 0x3840, 0x2460, 0x7080, 0x6ca0, 0x48c0, 0x54e0,
                                       0xe100, 0xfd20, 0xd940, 0xc560, 0x9180, 0x8da0, 0xa9c0, 0xb5e0};
    uint8_t x[16];
    for (int i = 0; i < 8; i++) { x[i] = p[i] ^ (yh >> (56 - 8*i)); x[8+i] = p[8+i] ^ (yl >> (56 - 8*i)); }
    uint8_t lo = x[15] & 0xf;
    uint64_t zh = hh[lo], zl = hl[lo];
    for (int i = 15; i >= 0; i--) {
      lo = x[i] & 0xf; uint8_t hi = x[i] >> 4;
      if (i != 15) {
        uint8_t rem = zl & 0xf;
        zl = zh << 60 | zl >> 4; zh = zh >> 4; zh ^= last4[rem] << 48;
        zh ^= hh[lo]; zl ^= hl[lo];
      }
      uint8_t rem = zl & 0xf;
      zl = zh << 60 | zl >> 4; zh = zh >> 4; zh ^= last4[rem] << 48;
      zh ^= hh[hi]; zl ^= hl[hi];
    }
    yh = zh; yl = zl;
  }
  void Update(const uint8_t* p, size_t n) {
    while (n >= 16) { Block(p); p += 16; n -= 16; }
    if (n) { uint8_t b[16] = {0}; memcpy(b, p, n); Block(b); }
  }
};
void Gcm(const Bytes& key, const Bytes& nonce, const Bytes& aad, const uint8_t* in, size_t n, bool enc, uint8_t* out, uint8_t* tag) {
  Aes aes(key);
  uint8_t h[16] = {0}; aes.Enc(h, h);
  uint8_t j[16] = {0}; memcpy(j, nonce.data(), 12); j[15] = 1;
  uint8_t ek[16]; aes.Enc(j, ek);
  uint32_t ctr = 1;
  for (size_t i = 0; i < n; i += 16) {
    ctr++;
    j[12] = ctr >> 24; j[13] = ctr >> 16; j[14] = ctr >> 8; j[15] = ctr;
    uint8_t ks[16]; aes.Enc(j, ks);
    for (size_t k = 0; k < 16 && i + k < n; k++) out[i+k] = in[i+k] ^ ks[k];
  }
  Ghash g(h);
  g.Update(aad.data(), aad.size());
  g.Update(enc ? out : in, n);
  uint8_t l[16]; uint64_t a = aad.size() * 8ull, c = n * 8ull;
  for (int i = 0; i < 8; i++) { l[i] = a >> (56 - 8*i); l[8+i] = c >> (56 - 8*i); }
  g.Block(l);
  for (int i = 0; i < 8; i++) { tag[i] = (g.yh >> (56 - 8*i)) ^ ek[i]; tag[8+i] = (g.yl >> (56 - 8*i)) ^ ek[8+i]; }
}
inline uint32_t ld32(const uint8_t* p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
void ChaBlock(const Bytes& key, uint32_t ctr, const Bytes& nonce, uint8_t* out) {
  uint32_t s[16] = {0x61707865, 0x3320646e, 0x79622d32, 0x6b206574}, x[16];
  for (int i = 0; i < 8; i++) s[4+i] = ld32(&key[4*i]);
  s[12] = ctr;
  for (int i = 0; i < 3; i++) s[13+i] = ld32(&nonce[4*i]);
  memcpy(x, s, 64);
#define QR(a, b, c, d) x[a] += x[b]; x[d] = ror32(x[d] ^ x[a], 16); x[c] += x[d]; x[b] = ror32(x[b] ^ x[c], 20); \
  x[a] += x[b]; x[d] = ror32(x[d] ^ x[a], 24); x[c] += x[d]; x[b] = ror32(x[b] ^ x[c], 25);
  for (int i = 0; i < 10; i++) {
    QR(0, 4, 8, 12) QR(1, 5, 9, 13) QR(2, 6, 10, 14) QR(3, 7, 11, 15)
    QR(0, 5, 10, 15) QR(1, 6, 11, 12) QR(2, 7, 8, 13) QR(3, 4, 9, 14)
  }
  for (int i = 0; i < 16; i++) { uint32_t v = x[i] + s[i]; out[4*i] = v; out[4*i+1] = v >> 8; out[4*i+2] = v >> 16; out[4*i+3] = v >> 24; }
}
struct Poly {
  uint32_t r[5], h[5] = {0, 0, 0, 0, 0}, pad[4];
  explicit Poly(const uint8_t* k) {
    r[0] = ld32(k) & 0x3ffffff; r[1] = (ld32(k+3) >> 2) & 0x3ffff03; r[2] = (ld32(k+6) >> 4) & 0x3ffc0ff;
    r[3] = (ld32(k+9) >> 6) & 0x3f03fff; r[4] = (ld32(k+12) >> 8) & 0x00fffff;
    for (int i = 0; i < 4; i++) pad[i] = ld32(k + 16 + 4*i);
  }
  void Block(const uint8_t* m) {  // always full 16-byte blocks (AEAD construction)
    h[0] += ld32(m) & 0x3ffffff; h[1] += (ld32(m+3) >> 2) & 0x3ffffff; h[2] += (ld32(m+6) >> 4) & 0x3ffffff;
    h[3] += (ld32(m+9) >> 6) & 0x3ffffff; h[4] += (ld32(m+12) >> 8) | (1 << 24);
    uint64_t d[5];
    for (int i = 0; i < 5; i++) {
      d[i] = 0;
      for (int j = 0; j < 5; j++) { int k = i - j; d[i] += (uint64_t)h[j] * (k >= 0 ? r[k] : 5 * r[k+5]); }
    }
    uint64_t c = 0;
    for (int i = 0; i < 5; i++) { d[i] += c; c = d[i] >> 26; h[i] = d[i] & 0x3ffffff; }
    h[0] += c * 5; h[1] += h[0] >> 26; h[0] &= 0x3ffffff;
  }
  void Update(const uint8_t* p, size_t n) {
    while (n >= 16) { Block(p); p += 16; n -= 16; }
    if (n) { uint8_t b[16] = {0}; memcpy(b, p, n); Block(b); }
  }
  void Final(uint8_t* tag) {
    uint32_t c = 0;
    for (int pass = 0; pass < 2; pass++) {
      for (int i = 0; i < 5; i++) { h[i] += c; c = h[i] >> 26; h[i] &= 0x3ffffff; }
      c *= 5;
    }
    h[0] += c;
    uint32_t g[5]; c = 5;
    for (int i = 0; i < 5; i++) { g[i] = h[i] + c; c = g[i] >> 26; g[i] &= 0x3ffffff; }
    if (c) memcpy(h, g, sizeof(h));
    uint32_t o[4] = {h[0] | h[1] << 26, h[1] >> 6 | h[2] << 20, h[2] >> 12 | h[3] << 14, h[3] >> 18 | h[4] << 8};
    uint64_t f = 0;
    for (int i = 0; i < 4; i++) { f += (uint64_t)o[i] + pad[i]; for (int j = 0; j < 4; j++) tag[4*i+j] = f >> (8*j); f >>= 32; }
  }
};
void Cha(const Bytes& key, const Bytes& nonce, const Bytes& aad, const uint8_t* in, size_t n, bool enc, uint8_t* out, uint8_t* tag) {
  uint8_t b[64]; ChaBlock(key, 0, nonce, b);
  Poly p(b);
  for (size_t i = 0; i < n; i += 64) {
    uint8_t ks[64]; ChaBlock(key, 1 + i / 64, nonce, ks);
    for (size_t k = 0; k < 64 && i + k < n; k++) out[i+k] = in[i+k] ^ ks[k];
  }
  p.Update(aad.data(), aad.size());
  p.Update(enc ? out : in, n);
  uint8_t l[16]; uint64_t a = aad.size(), c = n;
  for (int i = 0; i < 8; i++) { l[i] = a >> (8*i); l[8+i] = c >> (8*i); }
  p.Block(l);
  p.Final(tag);
}
}  // namespace
Bytes Seal(Aead a, const Bytes& key, const Bytes& nonce, const Bytes& aad, const Bytes& pt) {
  Bytes out(pt.size() + 16);
  (a == kChaCha ? Cha : Gcm)(key, nonce, aad, pt.data(), pt.size(), true, out.data(), out.data() + pt.size());
  return out;
}
bool Open(Aead a, const Bytes& key, const Bytes& nonce, const Bytes& aad, const Bytes& ct, Bytes* pt, Bytes* raw) {
  if (ct.size() < 16) return false;
  Bytes out(ct.size() - 16); uint8_t tag[16];
  (a == kChaCha ? Cha : Gcm)(key, nonce, aad, ct.data(), ct.size() - 16, false, out.data(), tag);
  if (raw) *raw = out;
  if (memcmp(tag, ct.data() + ct.size() - 16, 16)) return false;
  if (pt) *pt = out;
  return true;
}
static Bytes Hex(const char* s) {
  Bytes o;
  auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  for (; *s; s += 2) o.push_back(v(s[0]) << 4 | v(s[1]));
  return o;
}
bool SelfTest() {
  std::string abc = "abc"; Bytes m(abc.begin(), abc.end());
  if (Sha256(m) != Hex("ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad")) return false;
  if (Sha384(m) != Hex("cb00753f45a35e8bb5a03d699ac65007272c32ab0eded1631a8b605a43ff5bed8086072ba1e7cc2358baeca134c825a7")) return false;
  // GCM spec test case 4 (AES-128) .
  Bytes k = Hex("feffe9928665731c6d6a8f9467308308"), iv = Hex("cafebabefacedbaddecaf888");
  Bytes p = Hex("d9313225f88406e5a55909c5aff5269a86a7a9531534f7da2e4c303d8a318a721c3c0c95956809532fcf0e2449a6b525b16aedf5aa0de657ba637b39");
  Bytes aad = Hex("feedfacedeadbeeffeedfacedeadbeefabaddad2");
  if (Seal(kAes128Gcm, k, iv, aad, p) != Hex("42831ec2217774244b7221b784d0d49ce3aa212f2c02a4e035c17e2329aca12e21d514b25466931c7d8f6a5aac84aa051ba30b396a0aac973d58e0915bc94fbc3221a5db94fae95ae7121a47")) return false;
  k = Hex("feffe9928665731c6d6a8f9467308308feffe9928665731c6d6a8f9467308308");
  if (Seal(kAes256Gcm, k, iv, aad, p) != Hex("522dc1f099567d07f47f37a32a84427d643a8cdcbfe5c0c97598a2bd2555d1aa8cb08e48590dbb3da7b08b1056828838c5f61e6393ba7a0abcc9f66276fc6ece0f4e1768cddf8853bb2d551b")) return false;
  // RFC 8439 section 2.8.2.
  k = Hex("808182838485868788898a8b8c8d8e8f909192939495969798999a9b9c9d9e9f"); iv = Hex("070000004041424344454647");
  aad = Hex("50515253c0c1c2c3c4c5c6c7");
  std::string t = "Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.";
  Bytes o = Seal(kChaCha, k, iv, aad, Bytes(t.begin(), t.end()));
  if (Bytes(o.end() - 16, o.end()) != Hex("1ae10b594f09e26a7e902ecbd0600691")) return false;
  // RFC 5869 test case 1 (expand).
  Bytes prk = Hex("077709362c2e32df0ddc3f0dc47bba6390b6c73bb50f9c3122ec844ad7c2b3e5");
  if (HkdfExpand(kSha256, prk, Hex("f0f1f2f3f4f5f6f7f8f9"), 42) != Hex("3cb25f25faacd57a90434f64d0362f2a2d2d0a90cf1a5a4c5db02d56ecc4c5bf34007208d5b887185865")) return false;
  return true;
}
}  // namespace ref
