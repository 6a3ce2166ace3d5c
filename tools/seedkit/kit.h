// Helpers for the demonstrations.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "include/s2a_frame_protector.h"
#include "include/s2a_options.h"
#include "refcrypto.h"
#include "src/record_protocol/s2a_crypter.h"
#include "src/record_protocol/s2a_ticket_sender.h"
typedef std::vector<uint8_t> Bytes;
using s2a::aead_crypter::Iovec;
using s2a::frame_protector::S2AFrameProtector;
using s2a::record_protocol::S2ACrypter;
using s2a::s2a_options::S2AOptions;
#define CHECK(c)                                              \
  do {                                                        \
    if (!(c)) {                                               \
      printf("demo: failed at line %d: %s\n", __LINE__, #c);  \
      fflush(stdout);                                         \
      _exit(1);                                               \
    }                                                         \
  } while (0)
#include <unistd.h>

inline S2AOptions::Ciphersuite Suite(int i) {
  return i == 0 ? S2AOptions::Ciphersuite::AES_128_GCM_SHA256 : i == 1 ? S2AOptions::Ciphersuite::AES_256_GCM_SHA384 : S2AOptions::Ciphersuite::CHACHA20_POLY1305_SHA256;
}
// One direction of an independent TLS 1.3 peer.
struct Dir {
  int suite;
  Bytes secret, key, iv;
  uint64_t seq;
  ref::Aead a;
  ref::Hash h;
  Dir(int s, const Bytes& sec, uint64_t q) : suite(s), secret(sec), seq(q) {
    a = s == 0 ? ref::kAes128Gcm : s == 1 ? ref::kAes256Gcm : ref::kChaCha;
    h = s == 1 ? ref::kSha384 : ref::kSha256;
    Derive();
  }
  void Derive() {
    key = ref::ExpandLabel(h, secret, "key", suite == 0 ? 16 : 32);
    iv = ref::ExpandLabel(h, secret, "iv", 12);
  }
  void Update() {
    secret = ref::ExpandLabel(h, secret, "traffic upd", secret.size());
    Derive();
    seq = 0;
  }
  Bytes Nonce() {
    Bytes n = iv;
    for (int i = 0; i < 8; i++) n[4 + i] ^= (uint8_t)(seq >> (56 - 8 * i));
    return n;
  }
  Bytes Seal(int type, Bytes content, size_t pad = 0) {
    if (type) content.push_back(type);
    content.insert(content.end(), pad, 0);
    size_t n = content.size() + 16;
    Bytes r = {23, 3, 3, (uint8_t)(n >> 8), (uint8_t)n};
    Bytes ct = ref::Seal(a, key, Nonce(), r, content);
    seq++;
    r.insert(r.end(), ct.begin(), ct.end());
    return r;
  }
  // Opens one record; true and the content without the type byte on success.
  bool Open(const Bytes& r, Bytes* out) {
    Bytes hd(r.begin(), r.begin() + 5), ct(r.begin() + 5, r.end());
    if (!ref::Open(a, key, Nonce(), hd, ct, out)) return false;
    seq++;
    if (out->empty() || out->back() != 23) return false;
    out->pop_back();
    return true;
  }
};
inline Bytes operator+(Bytes a, const Bytes& b) {
  a.insert(a.end(), b.begin(), b.end());
  return a;
}
struct Conn {
  std::unique_ptr<S2AFrameProtector> fp;
  std::set<void*> live;
  bool bad_free = false;
  Bytes in_secret, out_secret;
  std::function<Iovec(size_t)> alloc;
  Conn(int suite, uint64_t in_seq = 0, uint64_t out_seq = 0) {
    size_t n = suite == 1 ? 48 : 32;
    in_secret = Bytes(n, 0x11);
    out_secret = Bytes(n, 0x22);
    alloc = [this](size_t n) {
      void* p = malloc(n ? n : 1);
      memset(p, 0xa5, n);
      live.insert(p);
      return Iovec{p, n};
    };
    S2AFrameProtector::S2AFrameProtectorOptions o = {
        S2AOptions::TlsVersion::TLS1_3, Suite(suite), in_secret, out_secret, in_seq, out_seq, "s2a:1",
        S2AOptions::Identity::FromHostname("me"), 7, nullptr, nullptr,
        [this](size_t n) { return alloc(n); },
        [this](Iovec v) {
          if (!live.erase(v.iov_base)) bad_free = true;
          else free(v.iov_base);
        },
        [](const std::string&) {}};
    auto r = S2AFrameProtector::Create(o);
    CHECK(r.ok());
    fp = std::move(*r);
  }
  bool Protect(Bytes d, Bytes* out) {
    auto r = fp->Protect({{d.data(), d.size()}});
    out->clear();
    Take(r.bytes, out);
    return r.status.ok();
  }
  bool Unprotect(Bytes d, Bytes* out) {
    auto r = fp->Unprotect({{d.data(), d.size()}});
    out->clear();
    Take(r.bytes, out);
    return r.status.ok();
  }
  void Take(std::vector<Iovec>& v, Bytes* out) {
    for (auto& i : v) {
      out->insert(out->end(), (uint8_t*)i.iov_base, (uint8_t*)i.iov_base + i.iov_len);
      live.erase(i.iov_base);
      free(i.iov_base);
    }
  }
};
