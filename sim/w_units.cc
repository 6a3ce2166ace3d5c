// Worlds for the building blocks that keep state between calls: AEAD crypters
// (C16), secret derivation (C17), handshake reassembly (C18).
#include <memory>

#include "endpoint.h"
#include "refcrypto.h"
#include "runtime.h"
#include "src/crypto/hkdf.h"
#include "src/crypto/s2a_aead_crypter.h"
#include "src/record_protocol/handshake_message_handler.h"

using namespace sim;
using s2a::aead_crypter::Iovec;
using s2a::aead_crypter::S2AAeadCrypter;

namespace {

// ---- C16 ---------------------------------------------------------------------
struct Crypter {
  ref::Aead alg;
  Bytes key;
  std::unique_ptr<S2AAeadCrypter> c;
  uint64_t ops = 0;
  Bytes last;
};

size_t PickLen() {
  if (S->Chance(1, 150)) {
    S->Probe("size.over_64k");
    return 65536 - 20 + S->Pick(S->Chance(1, 2) ? 40 : 100000);
  }
  switch (S->Weighted({4, 4, 3, 2, 1})) {
    case 0: return S->Pick(40);
    case 1: return 16 * S->Pick(9);
    case 2: return S->Pick(300);
    case 3: return S->Pick(3000);
    default: return S->Chance(1, 2) ? 16384 + S->Pick(40) : S->Pick(20000);
  }
}

void MaybeFault() {
  flt::StaleErrors();
  if (S->Chance(1, 6)) flt::Arm(S->Pick(10), S->Chance(1, 2) ? flt::kFailAfter : flt::kFailBefore, 1 + S->Pick(2));
}

bool Make(Crypter* c) {
  c->alg = (ref::Aead)S->Pick(3);
  size_t need = c->alg == ref::kAes128Gcm ? 16 : 32;
  c->key = S->RandBytes(need);
  Bytes k = c->key;
  bool bad = S->Chance(1, 12);
  if (bad) {
    size_t n = S->Pick(40);
    if (n == 16 || n == 32) n = 17;
    k = S->RandBytes(n);
  }
  MaybeFault();
  absl::variant<absl::Status, std::unique_ptr<S2AAeadCrypter>> r = absl::Status();
  {
    flt::LibScope l;
    r = c->alg == ref::kChaCha ? s2a::aead_crypter::CreateChachaPolyAeadCrypter(k) : s2a::aead_crypter::CreateAesGcmAeadCrypter(k);
  }
  bool fired = flt::Fired();
  flt::Disarm();
  bool ok = r.index() == 1;
  S->Step("create", {(uint64_t)c->alg, ok, bad, fired});
  if (bad) {
    S->Check(!ok, "bad-key-accepted", "a key of unsupported size was accepted");
    return false;
  }
  if (!ok) {
    S->Check(!absl::get<0>(r).ok(), "no-object", "creation gave an OK status and no object");
    S->Check(fired, "create-failed", "creating a crypter from a valid key failed although no library call failed");
    return false;
  }
  c->c = std::move(absl::get<1>(r));
  S->Check(c->c != nullptr, "no-object", "creation succeeded without an object");
  S->Check(c->c->KeyLength() == need && c->c->NonceLength() == 12 && c->c->TagLength() == 16, "wrong-lengths", "key, nonce or tag length is wrong");
  size_t n = PickLen();
  S->Check(c->c->MaxCiphertextAndTagLength(n) == n + 16 && c->c->MaxPlaintextLength(n + 16) == n, "wrong-lengths", "promised output lengths are wrong");
  return true;
}

struct Out {
  uint8_t* p;
  size_t n;
  explicit Out(size_t n_) : p((uint8_t*)malloc(n_ ? n_ : 1)), n(n_) { memset(p, ep::kFill, n); }
  ~Out() { free(p); }
  Bytes Get() const { return Bytes(p, p + n); }
};

void CryptOp(Crypter& c) {
  size_t len = PickLen();
  Bytes pt = S->RandBytes(len), nonce = S->RandBytes(12), aad = S->RandBytes(S->Chance(1, 4) ? 0 : S->Chance(1, 60) ? 40 + S->Pick(S->Chance(1, 8) ? 70000 : 3000) : S->Pick(40));
  if (c.last.size() == 12 && S->Chance(1, 6)) nonce = c.last;  // same nonce as the operation before
  c.last = nonce;
  bool dec = S->Chance(1, 2);
  Bytes good = ref::Seal(c.alg, c.key, nonce, aad, pt);
  Bytes in = dec ? good : pt;
  // What is wrong with this call, if anything.
  enum { kNone, kText, kTag, kAad, kNonce, kNonceLen, kShortIn, kNullPiece, kNullAad, kSmallOut, kMoreIn };
  int bad = kNone;
  switch (S->Weighted({5, 1, 1, 1, 1, 1, 1, 1, 1, 2, 1})) {
    case 0: break;
    case 1: if (dec && len) { bad = kText; in[S->Pick(len)] ^= 1 << S->Pick(8); } break;
    case 2: if (dec) { bad = kTag; in[len + S->Pick(16)] ^= 1 << S->Pick(8); } break;
    case 3:
      if (dec) {
        bad = kAad;
        if (!aad.empty() && S->Chance(1, 2)) aad[S->Pick(aad.size())] ^= 1 << S->Pick(8);
        else if (!aad.empty() && S->Chance(1, 2)) aad.pop_back();
        else aad.push_back(0);
      }
      break;
    case 4: if (dec) { bad = kNonce; nonce[S->Pick(12)] ^= 1 << S->Pick(8); } break;
    case 5: { bad = kNonceLen; size_t n = S->Pick(20); if (n == 12) n = 13; if (S->Chance(1, 3)) nonce = S->RandBytes(n); else nonce.resize(n); } break;
    case 6: if (dec) { bad = kShortIn; in.resize(S->Pick(in.size())); } break;
    case 7: bad = kNullPiece; break;
    case 8: bad = kNullAad; break;
    case 9: bad = kSmallOut; break;
    case 10: if (dec) { bad = kMoreIn; size_t m = 1 + S->Pick(20); Bytes x = S->RandBytes(m); in.insert(in.end(), x.begin(), x.end()); } break;
  }
  size_t need = dec ? (in.size() >= 16 ? in.size() - 16 : 0) : in.size() + 16;
  size_t outn = need;
  if (bad == kSmallOut) {
    if (need == 0) bad = kNone;
    else outn = S->Chance(1, 3) ? need - 1 : S->Chance(1, 2) && need > 16 ? need - 1 - S->Pick(16) : S->Pick(need);
  } else if (S->Chance(1, 4)) {
    outn += 1 + S->Pick(40);  // larger than needed
  }
  ep::Pieces pin, paad;
  pin.Make(in);
  paad.Make(aad);
  if (aad.empty() && S->Chance(1, 2)) paad.v.clear();
  std::vector<Iovec> vin = pin.v, vaad = paad.v;
  if (bad == kNullPiece) vin.insert(vin.begin() + S->Pick(vin.size() + 1), Iovec{nullptr, 1 + S->Pick(20)});
  if (bad == kNullAad) vaad.insert(vaad.begin() + S->Pick(vaad.size() + 1), Iovec{nullptr, 1 + S->Pick(20)});
  // A missing piece may make the output too small as well: give it room.
  if (bad == kNullPiece && S->Chance(2, 3)) outn += 24;
  Out out(outn);
  bool nullout = dec && outn == 0 && S->Chance(1, 2);
  MaybeFault();
  S2AAeadCrypter::CrypterStatus st(absl::Status(), 0);
  {
    flt::LibScope l;
    if (dec) st = c.c->Decrypt(nonce, vaad, vin, Iovec{nullout ? nullptr : out.p, out.n});
    else st = c.c->Encrypt(nonce, vaad, vin, Iovec{out.p, out.n});
  }
  bool fired = flt::Fired();
  const char* op = flt::FiredOp();
  flt::Disarm();
  bool ok = st.GetStatus().ok();
  c.ops++;
  S->Step(dec ? "decrypt" : "encrypt", {(uint64_t)c.alg, (uint64_t)bad, ok, fired, in.size() < 64 ? in.size() : 64 + in.size() / 1000, vin.size() < 4 ? vin.size() : 4});
  if (bad) S->Fault(dec ? "bad-input.decrypt" : "bad-input.encrypt");
  S->Check(pin.Intact() && paad.Intact(), "input-modified", "the call changed its input buffers");
  if (bad) {
    char b[120];
    snprintf(b, sizeof(b), "%s with defect %d (1 text 2 tag 3 aad 4 nonce 5 nonce length 6 short 7 null piece 8 null aad 9 small output 10 longer) succeeded", dec ? "decrypt" : "encrypt", bad);
    S->Check(!ok, "bad-input-accepted", b);
  }
  if (!bad && !fired) S->Check(ok, "good-input-rejected", std::string(dec ? "decrypt" : "encrypt") + " of valid input failed: " + std::string(st.GetStatus().message()));
  if (ok) {
    // A library failure that was tolerated must not show in the result.
    Bytes want = dec ? pt : good;
    S->Check(st.GetBytesWritten() == want.size(), "wrong-count", "the reported byte count is wrong");
    Bytes got(out.p, out.p + want.size());
    S->Check(got == want, "wrong-output", std::string(dec ? "decrypt" : "encrypt") + " gave wrong output" + (fired ? std::string(" after a failed ") + op : ""));
  } else if (dec) {
    S->Check(ep::OnlyFill(out.p, out.n), "unauthenticated-text", "a failed decrypt left text in the output buffer");
  }
}

void AeadWorld() {
  size_t n = 1 + S->Pick(4), ops = 4 + S->Pick(24);
  std::vector<Crypter> cs(n);
  for (auto& c : cs) Make(&c);
  for (size_t i = 0; i < ops; i++) {
    S->now += 1 + S->Pick(100);
    Crypter& c = cs[S->Pick(n)];
    if (!c.c || S->Chance(1, 40)) {
      {
        flt::LibScope l;
        c.c.reset();
      }
      Make(&c);
      continue;
    }
    CryptOp(c);
  }
  flt::LibScope l;
  cs.clear();
}
Reg r16("C16", AeadWorld);

// ---- C17 ---------------------------------------------------------------------
void HkdfWorld() {
  size_t ops = 3 + S->Pick(20);
  for (size_t i = 0; i < ops; i++) {
    S->now += 1 + S->Pick(100);
    bool h384 = S->Chance(1, 2);
    size_t hl = h384 ? 48 : 32;
    size_t plen = S->Chance(1, 2) ? hl : S->Chance(1, 3) ? S->Pick(hl) : hl + S->Pick(S->Chance(1, 12) ? 5000 : 150);
    size_t olen;
    switch (S->Weighted({6, 4, 3, 1, 1})) {
      case 0: olen = 1 + S->Pick(48); break;
      case 1: olen = hl * (1 + S->Pick(4)); break;
      case 2: olen = S->Pick(200); break;
      case 3: olen = hl * (250 + S->Pick(6)) - S->Pick(3); break;
      default: olen = hl * 255 + 1 + S->Pick(S->Chance(1, 2) ? 3 : 5000); break;
    }
    Bytes prk = S->RandBytes(plen), info = S->RandBytes(S->Chance(1, 4) ? 0 : S->Chance(1, 4) ? S->Pick(S->Chance(1, 6) ? 70000 : 600) : S->Pick(60));
    // In place only as the record layer itself does it: one block at most.
    bool alias = S->Chance(1, 4) && plen <= hl;
    if (alias) olen = plen;
    Bytes out(olen, ep::kFill), prk0 = prk, info0 = info;
    flt::StaleErrors();
    if (S->Chance(1, 5)) flt::Arm(S->Pick(12), S->Chance(1, 2) ? flt::kFailAfter : flt::kFailBefore, 1);
    absl::Status st;
    {
      flt::LibScope l;
      auto f = h384 ? s2a::hkdf::HashFunction::SHA384_hash_function : s2a::hkdf::HashFunction::SHA256_hash_function;
      st = alias ? s2a::hkdf::HkdfDeriveSecret(f, prk, info, prk) : s2a::hkdf::HkdfDeriveSecret(f, prk, info, out);
    }
    bool fired = flt::Fired();
    flt::Disarm();
    if (alias) out = prk;
    bool ok = st.ok();
    S->Step("derive", {h384, plen, info.size(), olen, alias, ok, fired});
    S->nontrivial = true;
    S->Check(out.size() == olen && info == info0 && (alias || prk == prk0), "input-modified", "inputs or the output size were changed");
    bool bad = plen < hl || olen > 255 * hl;
    if (bad) S->Check(!ok, "bad-request-accepted", "a too short secret or too long request succeeded");
    else if (!fired && olen) S->Check(ok, "good-request-rejected", "a valid derivation failed: " + std::string(st.message()));
    if (ok) {
      Bytes want = ref::HkdfExpand(h384 ? ref::kSha384 : ref::kSha256, prk0, info, olen);
      S->Check(out == want, "wrong-secret", fired ? "a derivation reported success after a library failure but the result is wrong" : "the derived secret is wrong");
    }
    S->Check(flt::live_hmac == 0, "handle-leak", "a derivation left an HMAC handle allocated");
  }
}
Reg r17("C17", HkdfWorld);

// ---- C18 ---------------------------------------------------------------------
using s2a::handshake_message_handler::HandshakeMessageHandler;
struct HsModel {
  Bytes pend;
  std::vector<Bytes> tickets;
  bool retrieved = false;
};
struct Hs {
  std::unique_ptr<HandshakeMessageHandler> h;
  HsModel m;
  Bytes stream;  // not yet fed
};

Bytes NextMsg() {
  Bytes b;
  size_t len;
  switch (S->Weighted({8, 6, 1, 1, 1, 1})) {
    case 0:
      len = S->Chance(1, 4) ? 1 + S->Pick(3) : S->Chance(1, 6) ? (S->Chance(1, 6) ? 65500 + S->Pick(100) * (1 + S->Pick(700)) : 200 + S->Pick(40000)) : 1 + S->Pick(300);
      b = S->RandBytes(len);
      b.insert(b.begin(), {4, (uint8_t)(len >> 16), (uint8_t)(len >> 8), (uint8_t)len});
      return b;
    case 1: return {24, 0, 0, 1, (uint8_t)(S->Chance(1, 5) ? S->Pick(256) : S->Pick(2))};
    case 2:  // odd key update size
      len = 1 + S->Pick(6);
      b = S->RandBytes(len);
      b.insert(b.begin(), {24, 0, 0, (uint8_t)len});
      return b;
    case 3: {  // other type
      static const uint8_t t[] = {0, 1, 2, 5, 8, 11, 13, 15, 20, 254, 255, 3, 23, 25};
      len = S->Pick(30);
      b = S->RandBytes(len);
      b.insert(b.begin(), {t[S->Pick(14)], 0, 0, (uint8_t)len});
      return b;
    }
    case 4: return {(uint8_t)(S->Chance(1, 2) ? 4 : 24), 0, 0, 0};  // no content
    default:  // claims more than will come
      return {4, (uint8_t)S->Pick(256), (uint8_t)S->Pick(256), (uint8_t)S->Pick(256)};
  }
}

void Feed(Hs& s, const Bytes& piece) {
  // Reference parse.
  bool err = false, ku = false, tk = false, kudone = false;
  uint8_t kutype = 0;
  size_t at = 0;
  HsModel& m = s.m;
  while (at < piece.size() && !err) {
    m.pend.push_back(piece[at++]);
    uint8_t t = m.pend[0];
    if (t != 4 && t != 24) err = true;
    if (t == 24) ku = true;
    if (t == 4) tk = true;
    if (!err && m.pend.size() >= 4) {
      size_t len = ((size_t)m.pend[1] << 16) | (m.pend[2] << 8) | m.pend[3];
      if (len == 0) err = true;
      else if (m.pend.size() == 4 + len) {
        if (t == 4) {
          if (!m.retrieved && m.tickets.size() < 5) m.tickets.push_back(m.pend);
          else S->Probe("ticket.ignored");
        } else if (at < piece.size()) {
          err = true;
        } else {
          kudone = true;
          kutype = m.pend[4];
        }
        m.pend.clear();
      }
    }
    if (err) m.pend.clear();
  }
  uint8_t* p = (uint8_t*)malloc(piece.size() ? piece.size() : 1);
  if (!piece.empty()) memcpy(p, piece.data(), piece.size());
  absl::variant<absl::Status, HandshakeMessageHandler::Result> r = absl::Status();
  {
    flt::LibScope l;
    r = s.h->ProcessHandshakeMessage(p, piece.size());
  }
  free(p);
  bool ok = r.index() == 1;
  S->Step("feed", {piece.size() < 8 ? piece.size() : 8, ok, ku, tk, m.pend.size() < 5 ? m.pend.size() : 5});
  if (err) {
    S->Fault("hs.invalid");
    S->Check(!ok && !absl::get<0>(r).ok(), "bad-message-accepted", "an unexpected, empty or misplaced handshake message was accepted");
    return;
  }
  S->Check(ok, "good-message-rejected", "valid handshake bytes were rejected: " + (ok ? "" : std::string(absl::get<0>(r).message())));
  const auto& x = absl::get<1>(r);
  if (!m.pend.empty()) S->Fault("hs.fragment");
  S->Check(x.expecting_to_read_more_bytes == !m.pend.empty(), "wrong-more-expected", "the 'more expected' state is wrong");
  S->Check(x.contains_key_update == ku && x.contains_ticket == tk, "wrong-kind", "the reported kinds of messages are wrong");
  S->Check(x.num_full_tickets_stored == (m.retrieved ? 0 : m.tickets.size()), "wrong-ticket-count", "the number of stored tickets is wrong");
  if (kudone) S->Check(x.key_update_type == kutype, "wrong-key-update", "the key update type is wrong");
}

void Retrieve(Hs& s) {
  absl::variant<absl::Status, std::unique_ptr<std::vector<std::unique_ptr<HandshakeMessageHandler::Message>>>> r = absl::Status();
  {
    flt::LibScope l;
    r = s.h->GetStoredTickets();
  }
  bool ok = r.index() == 1;
  bool want = !s.m.retrieved && (s.m.pend.empty() || s.m.pend[0] != 4);
  S->Step("retrieve", {ok, s.m.tickets.size()});
  S->Check(ok == want, "wrong-retrieval", want ? "retrieving tickets failed" : "tickets were handed out while a ticket was incomplete or a second time");
  if (!ok) {
    S->Check(!absl::get<0>(r).ok(), "wrong-retrieval", "failed retrieval without an error");
    return;
  }
  s.m.retrieved = true;
  auto& v = absl::get<1>(r);
  S->Check(v != nullptr && v->size() == s.m.tickets.size(), "wrong-tickets", "the number of retrieved tickets is wrong");
  for (size_t i = 0; i < v->size(); i++) {
    Bytes b;
    for (auto& f : *(*v)[i]) b.insert(b.end(), f->begin(), f->end());
    S->Check(b == s.m.tickets[i], "wrong-tickets", "a retrieved ticket differs from the ticket message received");
  }
  flt::LibScope l;
  v.reset();
}

void HsWorld() {
  size_t n = 1 + S->Pick(2);
  std::vector<Hs> hs(n);
  for (auto& h : hs) {
    flt::LibScope l;
    h.h.reset(new HandshakeMessageHandler);
  }
  size_t ops = 5 + S->Pick(60);
  uint32_t style = S->Pick(4);
  for (size_t i = 0; i < ops; i++) {
    S->now += 1 + S->Pick(1000);
    Hs& s = hs[S->Pick(n)];
    switch (S->Weighted({20, 1, 1})) {
      case 1: Retrieve(s); continue;
      case 2: {
        absl::variant<absl::Status, HandshakeMessageHandler::Result> r = absl::Status();
        size_t claim = S->Pick(5);
        {
          flt::LibScope l;
          r = s.h->ProcessHandshakeMessage(nullptr, claim);
        }
        S->Step("null");
        S->Check(r.index() == 0 && !absl::get<0>(r).ok(), "bad-message-accepted", "a null piece was accepted");
        continue;
      }
    }
    // A piece of the stream; messages are appended when it runs dry. A key
    // update ends its piece unless the peer misbehaves.
    if (s.stream.empty()) {
      size_t k = 1 + S->Pick(style == 0 ? 1 : 4);
      while (k--) {
        Bytes m = NextMsg();
        s.stream.insert(s.stream.end(), m.begin(), m.end());
        if (m[0] == 24 && !S->Chance(1, 8)) break;
      }
    }
    if (S->Chance(1, 400)) {  // very many tiny pieces
      S->Probe("burst.fragments");
      size_t most = 1 + S->Pick(2), left = 300 + S->Pick(1200);
      while (!s.stream.empty() && left--) {
        size_t t = std::min<size_t>(s.stream.size(), 1 + (left % 5 ? 0 : left % most));
        Bytes piece(s.stream.begin(), s.stream.begin() + t);
        s.stream.erase(s.stream.begin(), s.stream.begin() + t);
        Feed(s, piece);
      }
      continue;
    }
    size_t take = s.stream.size();
    switch (style) {
      case 0: break;
      case 1: take = 1 + S->Pick(3); break;
      case 2: take = S->Pick(12); break;
      default: take = S->Chance(1, 3) ? take : S->Pick(s.stream.size() + 1); break;
    }
    if (take > s.stream.size()) take = s.stream.size();
    Bytes piece(s.stream.begin(), s.stream.begin() + take);
    s.stream.erase(s.stream.begin(), s.stream.begin() + take);
    Feed(s, piece);
    if (s.m.pend.empty() && S->Chance(1, 10)) Retrieve(s);
  }
  for (auto& s : hs) {
    Retrieve(s);
    flt::LibScope l;
    s.h.reset();
  }
}
Reg r18("C18", HsWorld);

}  // namespace
