// Reference TLS 1.3 record layer (RFC 8446 sections 5 and 7) and a reference
// model of what a receiver must do with each record. Shares no code with /repo.
#pragma once
#include "core.h"
#include "refcrypto.h"
#include "vault.h"

namespace tlsref {
using sim::Bytes;

struct Suite {
  int id;  // 0 AES128, 1 AES256, 2 ChaCha
  ref::Aead aead;
  ref::Hash hash;
  size_t keylen, secretlen;
};
inline Suite GetSuite(int id) {
  switch (id) {
    case 0: return {0, ref::kAes128Gcm, ref::kSha256, 16, 32};
    case 1: return {1, ref::kAes256Gcm, ref::kSha384, 32, 48};
    default: return {2, ref::kChaCha, ref::kSha256, 32, 32};
  }
}
const size_t kOverhead = 22, kMaxPlain = 16384;
enum { kAlert = 21, kHandshake = 22, kAppData = 23 };

struct Dir {
  Suite s;
  Bytes secret, key, iv;
  uint64_t seq = 0;
  bool over = false;  // counter exhausted
  int epoch = 0;
  void Init(int suite, const Bytes& sec, uint64_t sq) {
    s = GetSuite(suite);
    secret = sec;
    seq = sq;
    Derive();
  }
  void Derive() {
    vault::Secret(secret);
    key = ref::ExpandLabel(s.hash, secret, "key", s.keylen);
    iv = ref::ExpandLabel(s.hash, secret, "iv", 12);
    vault::Secret(key);
    vault::Secret(iv);
  }
  void Update() {
    secret = ref::ExpandLabel(s.hash, secret, "traffic upd", s.secretlen);
    Derive();
    seq = 0;
    over = false;
    epoch++;
  }
  Bytes Nonce(uint64_t q) const {
    Bytes n = iv;
    for (int i = 0; i < 8; i++) n[4 + i] ^= (uint8_t)(q >> (56 - 8 * i));
    return n;
  }
  void Advance() {
    seq++;
    if (seq == 0) over = true;
  }
  static Bytes Header(size_t payload) {
    return {23, 3, 3, (uint8_t)(payload >> 8), (uint8_t)payload};
  }
  // Seals content || type || zeros(pad) at the current position; advances.
  Bytes Seal(int type, const Bytes& content, size_t pad) {
    Bytes inner = content;
    inner.push_back((uint8_t)type);
    inner.insert(inner.end(), pad, 0);
    return SealRaw(inner);
  }
  Bytes SealRaw(const Bytes& inner) {
    vault::Data(inner);
    Bytes h = Header(inner.size() + 16);
    Bytes ct = ref::Seal(s.aead, key, Nonce(seq), h, inner);
    Advance();
    h.insert(h.end(), ct.begin(), ct.end());
    return h;
  }
  bool OpenAt(const Bytes& rec, uint64_t q, Bytes* inner) const {
    if (rec.size() < 5 + 16) return false;
    Bytes h(rec.begin(), rec.begin() + 5), ct(rec.begin() + 5, rec.end());
    return ref::Open(s.aead, key, Nonce(q), h, ct, inner);
  }
};

// Splits a buffer of concatenated records by their headers.
inline bool SplitRecords(const Bytes& b, std::vector<Bytes>* out) {
  size_t p = 0;
  while (p < b.size()) {
    if (b.size() - p < 5) return false;
    size_t n = 5 + ((size_t)b[p + 3] << 8) + b[p + 4];
    if (b.size() - p < n) return false;
    out->push_back(Bytes(b.begin() + p, b.begin() + p + n));
    p += n;
  }
  return true;
}

// What a receiver must do. Feed() returns the required outcome of one record.
struct RxModel {
  Dir in;
  // 0: outcomes are fully determined. 1: an authentic record was reported as an
  // error; going on and giving up are both fine. 2: position unknown; whatever
  // is returned must still be authentic and in order.
  int taint = 0;
  bool closed = false;
  bool dead = false;  // a key update failed
  Bytes pend;         // unfinished handshake message
  std::vector<Bytes> tickets;      // of the first run, at most 5
  size_t all_tickets = 0;          // every complete ticket ever
  int phase = 0;                   // 0 none yet, 1 receiving, 2 run over
  bool batch_due = false;
  size_t key_updates = 0;
  std::vector<Dir> old;  // keys no longer in use

  struct Exp {
    bool ok;
    Bytes data;
    bool auth = false;       // the record authenticates
    bool maybe_ok = false;   // an error is as good as success here
    const char* why = "";
  };
  Exp Err(const char* why, int t, bool auth = false) {
    if (t > taint) taint = t;
    Exp e;
    e.ok = false;
    e.auth = auth;
    e.why = why;
    return e;
  }
  Exp Feed(const Bytes& rec) {
    if (closed) return Err("closed", 1);
    if (dead) return Err("dead", 1);
    if (rec.size() < kOverhead) return Err("short", 2);
    if (rec.size() > kOverhead + kMaxPlain) return Err("long", 2);
    if (rec[0] != 23 || rec[1] != 3 || rec[2] != 3 || rec.size() != 5 + ((size_t)rec[3] << 8) + rec[4])
      return Err("header", 2);
    if (in.over) return Err("exhausted", 1);
    Bytes inner;
    if (!in.OpenAt(rec, in.seq, &inner)) return Err("auth", 2);
    in.Advance();
    size_t n = inner.size();
    while (n > 0 && inner[n - 1] == 0) n--;
    if (n == 0) return Err("typeless", 1, true);
    int type = inner[n - 1];
    Exp e;
    e.ok = true;
    e.auth = true;
    Bytes content(inner.begin(), inner.begin() + n - 1);
    switch (type) {
      case kAppData:
        if (!pend.empty()) return Err("appdata inside handshake message", 1, true);
        e.data = content;
        if (phase == 1) {
          phase = 2;
          batch_due = true;
        }
        return e;
      case kAlert:
        if (content.size() < 2) return Err("short alert", 1, true);
        if (content[1] == 0) {
          closed = true;
          return Err("close notify", 1, true);
        }
        return Err("alert", 1, true);
      case kHandshake: {
        if (content.empty()) e.maybe_ok = true;
        pend.insert(pend.end(), content.begin(), content.end());
        while (!pend.empty()) {
          if (pend[0] != 4 && pend[0] != 24) return Err("handshake type", 2, true);
          if (pend.size() < 4) break;
          size_t len = ((size_t)pend[1] << 16) | (pend[2] << 8) | pend[3];
          if (len == 0) return Err("empty message", 2, true);
          if (pend.size() < 4 + len) break;
          Bytes msg(pend.begin(), pend.begin() + 4 + len);
          pend.erase(pend.begin(), pend.begin() + 4 + len);
          if (msg[0] == 4) {
            all_tickets++;
            if (phase < 2) {
              phase = 1;
              if (tickets.size() < 5) tickets.push_back(msg);
            }
          } else {
            if (!pend.empty()) return Err("bytes after key update", 2, true);
            if (old.size() >= 12) old.erase(old.begin() + 4);
            old.push_back(in);
            in.Update();
            key_updates++;
          }
        }
        return e;
      }
      default:
        return Err("unknown type", 1, true);
    }
  }
};
}  // namespace tlsref
