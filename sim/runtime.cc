#include "runtime.h"

#include <algorithm>

#include <openssl/bio.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#ifdef OPENSSL_IS_BORINGSSL
#include <openssl/aead.h>
#endif
#ifdef SIM_SCHED
#include "sched.h"
// What the library call reads, writes and which handle it uses, for the race
// detector; each is also a scheduling point.
#define H_NEW(c) sched::HandleNew(c)
#define H_USE(c) sched::HandleUse(c, true)
#define H_RUSE(c) sched::HandleUse(c, false)
#define H_FREE(c) sched::HandleFree(c)
#define M_R(p, n) do { if (p) sched::OnRead(p, n); } while (0)
#define M_W(p, n) do { if (p) sched::OnWrite(p, n); } while (0)
#else
#define H_NEW(c)
#define H_USE(c)
#define H_RUSE(c)
#define H_FREE(c)
#define M_R(p, n)
#define M_W(p, n)
#endif
#include <unordered_map>
#include <unordered_set>

namespace flt {
int in_lib = 0;
int live_cipher, live_hmac, live_aead, live_bio;
static bool armed;
static uint32_t skip_left, count_left;
static Mode mode;
static bool fired;
static uint64_t fired_by[16];
static const char* fired_op = "";
static uint32_t hmac_calls;
static bool fired_after_hmac;
std::vector<NonceUse> nonces;
bool nonce_reuse;
std::string nonce_reuse_msg;

void Arm(uint32_t skip, Mode m, uint32_t count) {
  armed = true;
  skip_left = skip;
  count_left = count;
  mode = m;
  fired = false;
  hmac_calls = 0;
  fired_after_hmac = false;
}
void Disarm() { armed = false; }
// The queue belongs to the thread, and simulated threads share one.
static void PushError(int reason) {
#ifndef SIM_SCHED
  HarnessScope h;
  ERR_put_error(ERR_LIB_EVP, 0, reason, __FILE__, __LINE__);
#endif
}
void StaleErrors() {
#ifndef SIM_SCHED
  if (!S->Chance(1, 24)) return;
  S->Fault("ssl.stale_error");
  for (uint32_t n = S->Chance(1, 8) ? 40 : 1 + S->Pick(2); n; n--) PushError(100 + S->Pick(20));
#endif
}
bool Fired() { return fired; }
uint64_t FiredCount(int t) { return fired_by[t & 15]; }
const char* FiredOp() { return fired_op; }
bool FiredInDerivation() { return fired && fired_after_hmac; }

// Decides whether this call fails: 0 no, 1 without calling, 2 after calling.
static int Decide(const char* op, bool can_after = true) {
  if (!armed || !S) return 0;
  if (op[0] == 'H') hmac_calls++;
  if (skip_left > 0) {
    skip_left--;
    return 0;
  }
  if (--count_left == 0) armed = false;
  if (!fired) fired_after_hmac = hmac_calls > 0;
  fired = true;
#ifdef SIM_SCHED
  fired_by[sched::Self() & 15]++;
#else
  fired_by[0]++;
#endif
  fired_op = op;
  HarnessScope h;
  S->Fault((std::string("ssl.") + op).c_str());
  S->Ev((std::string("ssl-fault ") + op).c_str(), {mode});
  PushError(ERR_R_INTERNAL_ERROR);
  return mode == kFailAfter && can_after ? 2 : 1;
}

struct CtxInfo {
  std::string key, nonce;
  bool used = false;
};
static std::unordered_map<const void*, CtxInfo>& Ctxs() {
  static auto* m = new std::unordered_map<const void*, CtxInfo>;
  return *m;
}
static std::unordered_set<std::string>& Seen() {
  static auto* m = new std::unordered_set<std::string>;
  return *m;
}
static std::string Hex(const std::string& s) {
  std::string o;
  char b[4];
  for (unsigned char c : s) {
    snprintf(b, sizeof(b), "%02x", c);
    o += b;
  }
  return o;
}
static void Use(const std::string& key, const std::string& nonce) {
  if (!Seen().insert(key + "/" + nonce).second) {
    nonce_reuse = true;
    nonce_reuse_msg = "key " + Hex(key) + " nonce " + Hex(nonce) + " was used to encrypt twice";
  }
  nonces.push_back({key, nonce});
}
static void OnInit(const void* ctx, int keylen, const uint8_t* key, const uint8_t* iv) {
  HarnessScope h;
  CtxInfo& c = Ctxs()[ctx];
  if (key) c.key.assign((const char*)key, keylen > 0 ? keylen : 0);
  if (iv) {
    c.nonce.assign((const char*)iv, 12);
    c.used = false;
  }
}
static void OnEncrypt(const void* ctx) {
  HarnessScope h;
  CtxInfo& c = Ctxs()[ctx];
  if (!c.used) {
    c.used = true;
    Use(c.key, c.nonce);
  }
}
}  // namespace flt
using namespace flt;

#define WRAP(ret, name, params) \
  extern "C" ret __real_##name params; \
  extern "C" ret __wrap_##name params
// A call with int result: 0 means failure.
#define INT_CALL(name, args)                         \
  do {                                               \
    int d_ = Decide(#name);                          \
    if (d_ == 1) return 0;                           \
    int r_;                                          \
    {                                                \
      HarnessScope h_;                               \
      r_ = __real_##name args;                       \
    }                                                \
    return d_ == 2 ? 0 : r_;                         \
  } while (0)

WRAP(EVP_CIPHER_CTX*, EVP_CIPHER_CTX_new, (void)) {
  if (Decide("EVP_CIPHER_CTX_new", false)) return nullptr;
  HarnessScope h;
  EVP_CIPHER_CTX* c = __real_EVP_CIPHER_CTX_new();
  if (c) {
    live_cipher++;
    H_NEW(c);
    Ctxs()[c] = CtxInfo();
  }
  return c;
}
WRAP(void, EVP_CIPHER_CTX_free, (EVP_CIPHER_CTX * c)) {
  H_FREE(c);
  HarnessScope h;
  if (c) {
    live_cipher--;
    Ctxs().erase(c);
  }
  __real_EVP_CIPHER_CTX_free(c);
}
static int KeyLen(EVP_CIPHER_CTX* ctx, const EVP_CIPHER* t) {
  if (t) return EVP_CIPHER_key_length(t);
  return ctx ? EVP_CIPHER_CTX_key_length(ctx) : 0;
}
WRAP(int, EVP_EncryptInit_ex, (EVP_CIPHER_CTX * ctx, const EVP_CIPHER* t, ENGINE* e, const uint8_t* key, const uint8_t* iv)) {
  H_USE(ctx);
  M_R(key, KeyLen(ctx, t));
  M_R(iv, 12);
  if (key || iv) OnInit(ctx, key ? KeyLen(ctx, t) : 0, key, iv);
  INT_CALL(EVP_EncryptInit_ex, (ctx, t, e, key, iv));
}
WRAP(int, EVP_DecryptInit_ex, (EVP_CIPHER_CTX * ctx, const EVP_CIPHER* t, ENGINE* e, const uint8_t* key, const uint8_t* iv)) {
  H_USE(ctx);
  M_R(key, KeyLen(ctx, t));
  M_R(iv, 12);
  if (key || iv) OnInit(ctx, key ? KeyLen(ctx, t) : 0, key, iv);
  INT_CALL(EVP_DecryptInit_ex, (ctx, t, e, key, iv));
}
WRAP(int, EVP_CipherInit_ex, (EVP_CIPHER_CTX * ctx, const EVP_CIPHER* t, ENGINE* e, const uint8_t* key, const uint8_t* iv, int enc)) {
  H_USE(ctx);
  M_R(key, KeyLen(ctx, t));
  M_R(iv, 12);
  if (key || iv) OnInit(ctx, key ? KeyLen(ctx, t) : 0, key, iv);
  INT_CALL(EVP_CipherInit_ex, (ctx, t, e, key, iv, enc));
}
WRAP(int, EVP_EncryptUpdate, (EVP_CIPHER_CTX * ctx, uint8_t* out, int* outl, const uint8_t* in, int inl)) {
  H_USE(ctx);
  M_R(in, inl);
  M_W(out, inl);
  M_W(outl, sizeof(*outl));
  if (out) OnEncrypt(ctx);
  INT_CALL(EVP_EncryptUpdate, (ctx, out, outl, in, inl));
}
WRAP(int, EVP_DecryptUpdate, (EVP_CIPHER_CTX * ctx, uint8_t* out, int* outl, const uint8_t* in, int inl)) {
  H_USE(ctx);
  M_R(in, inl);
  M_W(out, inl);
  M_W(outl, sizeof(*outl));
  INT_CALL(EVP_DecryptUpdate, (ctx, out, outl, in, inl));
}
WRAP(int, EVP_CipherUpdate, (EVP_CIPHER_CTX * ctx, uint8_t* out, int* outl, const uint8_t* in, int inl)) {
  H_USE(ctx);
  M_R(in, inl);
  M_W(out, inl);
  M_W(outl, sizeof(*outl));
  INT_CALL(EVP_CipherUpdate, (ctx, out, outl, in, inl));
}
WRAP(int, EVP_EncryptFinal_ex, (EVP_CIPHER_CTX * ctx, uint8_t* out, int* outl)) {
  H_USE(ctx);
  M_W(outl, sizeof(*outl));
  INT_CALL(EVP_EncryptFinal_ex, (ctx, out, outl));
}
WRAP(int, EVP_DecryptFinal_ex, (EVP_CIPHER_CTX * ctx, uint8_t* out, int* outl)) {
  H_USE(ctx);
  M_W(outl, sizeof(*outl));
  INT_CALL(EVP_DecryptFinal_ex, (ctx, out, outl));
}
WRAP(int, EVP_CipherFinal_ex, (EVP_CIPHER_CTX * ctx, uint8_t* out, int* outl)) {
  H_USE(ctx);
  M_W(outl, sizeof(*outl));
  INT_CALL(EVP_CipherFinal_ex, (ctx, out, outl));
}
WRAP(int, EVP_CIPHER_CTX_ctrl, (EVP_CIPHER_CTX * ctx, int type, int arg, void* ptr)) {
  H_USE(ctx);
  if (type == EVP_CTRL_AEAD_GET_TAG) M_W(ptr, arg);
  if (type == EVP_CTRL_AEAD_SET_TAG) M_R(ptr, arg);
  INT_CALL(EVP_CIPHER_CTX_ctrl, (ctx, type, arg, ptr));
}
WRAP(HMAC_CTX*, HMAC_CTX_new, (void)) {
  if (Decide("HMAC_CTX_new", false)) return nullptr;
  HarnessScope h;
  HMAC_CTX* c = __real_HMAC_CTX_new();
  if (c) {
    live_hmac++;
    H_NEW(c);
  }
  return c;
}
WRAP(void, HMAC_CTX_free, (HMAC_CTX * c)) {
  H_FREE(c);
  HarnessScope h;
  if (c) live_hmac--;
  __real_HMAC_CTX_free(c);
}
#ifdef OPENSSL_IS_BORINGSSL
typedef size_t hmac_len_t;
typedef size_t hmac_key_len_t;
#else
typedef size_t hmac_len_t;
typedef int hmac_key_len_t;
#endif
WRAP(int, HMAC_Init_ex, (HMAC_CTX * c, const void* key, hmac_key_len_t len, const EVP_MD* md, ENGINE* e)) {
  H_USE(c);
  M_R(key, len);
  INT_CALL(HMAC_Init_ex, (c, key, len, md, e));
}
WRAP(int, HMAC_Update, (HMAC_CTX * c, const uint8_t* d, hmac_len_t len)) {
  H_USE(c);
  M_R(d, len);
  INT_CALL(HMAC_Update, (c, d, len));
}
WRAP(int, HMAC_Final, (HMAC_CTX * c, uint8_t* md, unsigned int* len)) {
  H_USE(c);
  M_W(md, 1);
  M_W(len, sizeof(*len));
  INT_CALL(HMAC_Final, (c, md, len));
}
WRAP(BIO*, BIO_new, (const BIO_METHOD* t)) {
  if (Decide("BIO_new", false)) return nullptr;
  HarnessScope h;
  BIO* b = __real_BIO_new(t);
  if (b) {
    live_bio++;
    H_NEW(b);
  }
  return b;
}
WRAP(void, BIO_free_all, (BIO * b)) {
  H_FREE(b);
  HarnessScope h;
  if (b) live_bio--;
  __real_BIO_free_all(b);
}
WRAP(int, BIO_free, (BIO * b)) {
  H_FREE(b);
  HarnessScope h;
  if (b) live_bio--;
  return __real_BIO_free(b);
}
#ifdef OPENSSL_IS_BORINGSSL
WRAP(EVP_AEAD_CTX*, EVP_AEAD_CTX_new, (const EVP_AEAD* a, const uint8_t* key, size_t klen, size_t tlen)) {
  if (Decide("EVP_AEAD_CTX_new", false)) return nullptr;
  HarnessScope h;
  EVP_AEAD_CTX* c = __real_EVP_AEAD_CTX_new(a, key, klen, tlen);
  if (c) {
    live_aead++;
    H_NEW(c);
    Ctxs()[c].key.assign((const char*)key, klen);
  }
  return c;
}
WRAP(void, EVP_AEAD_CTX_free, (EVP_AEAD_CTX * c)) {
  H_FREE(c);
  HarnessScope h;
  if (c) {
    live_aead--;
    Ctxs().erase(c);
  }
  __real_EVP_AEAD_CTX_free(c);
}
WRAP(int, EVP_AEAD_CTX_seal, (const EVP_AEAD_CTX* c, uint8_t* out, size_t* ol, size_t mo, const uint8_t* n, size_t nl, const uint8_t* in, size_t il, const uint8_t* ad, size_t al)) {
  H_RUSE(c);
  M_R(n, nl);
  M_R(in, il);
  M_R(ad, al);
  M_W(out, std::min(mo, il + 16));
  M_W(ol, sizeof(*ol));
  {
    HarnessScope h;
    Use(Ctxs()[c].key, std::string((const char*)n, nl));
  }
  INT_CALL(EVP_AEAD_CTX_seal, (c, out, ol, mo, n, nl, in, il, ad, al));
}
WRAP(int, EVP_AEAD_CTX_open, (const EVP_AEAD_CTX* c, uint8_t* out, size_t* ol, size_t mo, const uint8_t* n, size_t nl, const uint8_t* in, size_t il, const uint8_t* ad, size_t al)) {
  H_RUSE(c);
  M_R(n, nl);
  M_R(in, il);
  M_R(ad, al);
  M_W(out, std::min(mo, il));
  M_W(ol, sizeof(*ol));
  int d = Decide("EVP_AEAD_CTX_open");
  // The library clears the output when it reports a failure.
  if (d == 1) {
    if (mo) memset(out, 0, mo);
    *ol = 0;
    return 0;
  }
  HarnessScope h;
  int r = __real_EVP_AEAD_CTX_open(c, out, ol, mo, n, nl, in, il, ad, al);
  if (d == 2) {
    if (mo) memset(out, 0, mo);
    *ol = 0;
    return 0;
  }
  return r;
}
#endif

// ---- heap accounting -------------------------------------------------------
namespace {
const size_t kSlots = 1 << 16;
const void* g_ptr[kSlots];
size_t g_len[kSlots];
size_t g_live = 0, g_bytes = 0;
bool g_track = false;
size_t Slot(const void* p) { return (((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ull) >> 48; }
void OnMalloc(const volatile void* vp, size_t n) {
  if (!g_track || !flt::in_lib || g_live > kSlots / 2) return;
  const void* p = (const void*)vp;
  size_t i = Slot(p);
  while (g_ptr[i]) i = (i + 1) % kSlots;
  g_ptr[i] = p;
  g_len[i] = n;
  g_live++;
  g_bytes += n;
}
void OnFree(const volatile void* vp) {
  if (!g_live) return;
  const void* p = (const void*)vp;
  size_t i = Slot(p);
  while (g_ptr[i] && g_ptr[i] != p) i = (i + 1) % kSlots;
  if (!g_ptr[i]) return;
  g_live--;
  g_bytes -= g_len[i];
  // Backward-shift deletion.
  size_t j = i;
  for (;;) {
    g_ptr[i] = nullptr;
    for (;;) {
      j = (j + 1) % kSlots;
      if (!g_ptr[j]) return;
      size_t k = Slot(g_ptr[j]);
      if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
      break;
    }
    g_ptr[i] = g_ptr[j];
    g_len[i] = g_len[j];
    i = j;
  }
}
}  // namespace
#ifdef SIM_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
#endif

namespace runtime {
void Init() {
#ifdef SIM_SCHED
  sched::Init();
#endif
#ifdef SIM_ASAN
  __sanitizer_install_malloc_and_free_hooks(OnMalloc, OnFree);
#endif
  // Warm up lazily created library state so that it is not seen inside runs.
  uint8_t k[32] = {0}, out[64];
  for (const EVP_CIPHER* c : {EVP_aes_128_gcm(), EVP_aes_256_gcm()}) {
    EVP_CIPHER_CTX* x = __real_EVP_CIPHER_CTX_new();
    int n;
    __real_EVP_EncryptInit_ex(x, c, nullptr, k, k);
    __real_EVP_EncryptUpdate(x, out, &n, k, 16);
    __real_EVP_EncryptFinal_ex(x, out, &n);
    __real_EVP_CIPHER_CTX_free(x);
  }
  for (const EVP_MD* m : {EVP_sha256(), EVP_sha384()}) {
    HMAC_CTX* x = __real_HMAC_CTX_new();
    unsigned n;
    __real_HMAC_Init_ex(x, k, 32, m, nullptr);
    __real_HMAC_Update(x, k, 32);
    __real_HMAC_Final(x, out, &n);
    __real_HMAC_CTX_free(x);
  }
}
void DropLeaks() {
  memset(g_ptr, 0, sizeof(g_ptr));
  g_live = g_bytes = 0;
}
void BeginRun() {
  flt::in_lib = 0;
  flt::Disarm();
  fired = false;
  memset(fired_by, 0, sizeof(fired_by));
  live_cipher = live_hmac = live_aead = live_bio = 0;
  Ctxs().clear();
  Seen().clear();
  nonces.clear();
  nonce_reuse = false;
  ERR_clear_error();
  if (g_live) DropLeaks();
  g_track = true;
#ifdef SIM_SCHED
  sched::BeginRun();
#endif
}
void EndRun() {
#ifdef SIM_SCHED
  sched::EndRun();
#endif
  g_track = false;
  flt::in_lib = 0;
  flt::Disarm();
}
size_t LeakedBlocks(size_t* bytes) {
#ifdef SIM_SCHED
  return sched::LiveBlocks(bytes);
#endif
  *bytes = g_bytes;
  return g_live;
}
}  // namespace runtime
