// Record-layer worlds: one real endpoint (or two) against a reference TLS 1.3
// peer, a simulated network, an attacker, a failing allocator and a failing
// cryptographic library.
#include <memory>

#include "endpoint.h"
#include "pb.h"
#include "src/proto/upb-generated/proto/s2a.upb.h"
#include "upb/upb.hpp"
#ifdef SIM_SCHED
#include "sched.h"
#endif

namespace proxy {  // w_proxy.cc
void SecretSessions();
void ManySessions();
void SteadySession();
}  // namespace proxy

namespace {
using namespace ep;
using tlsref::Dir;
using tlsref::RxModel;

struct Prof {
  const char* name;
  // Action weights.
  uint32_t app, hs, alert, weird, write, update, deliver;
  int crypter_pct;   // share of runs driving the record layer directly
  bool pad;          // peer pads records
  bool big;          // large writes and records are common
  bool tamper, partial, sslf, allocf, wrap;
  bool two;          // second connection in the same process
  bool nonces;
};
const Prof kProfs[] = {
    //        app hs alert weird write upd deliver cr%  pad big tamper partial ssl alloc wrap two nonces
    {"C02", 8, 2, 0, 0, 3, 0, 8, 25, true, false, true, true, false, false, false, true, false},
    {"C03", 3, 1, 0, 0, 10, 3, 4, 60, false, false, false, false, true, true, true, true, true},
    {"C04", 8, 1, 0, 0, 6, 1, 8, 30, true, true, false, false, false, false, false, false, false},
    {"C05", 5, 8, 0, 0, 4, 3, 8, 50, true, false, false, false, false, false, false, true, false},
    {"C06", 4, 9, 1, 1, 1, 0, 8, 30, true, false, false, false, false, false, false, true, false},
    {"C07", 6, 3, 2, 4, 3, 0, 8, 35, true, false, false, false, false, false, false, true, false},
    {"C14", 6, 2, 1, 2, 5, 0, 8, 10, true, false, true, true, true, true, false, false, false},
    {"C15", 5, 4, 0, 0, 6, 3, 7, 50, false, false, false, false, true, false, false, true, false},
    {"C22", 6, 4, 1, 2, 6, 2, 8, 40, true, false, true, true, true, true, true, true, false},
    {"C23", 6, 4, 1, 2, 6, 2, 8, 50, true, false, false, false, false, false, false, false, false},
};

bool HasWindow(const Bytes& buf, const Bytes& raw) {
  size_t n = std::min(buf.size(), raw.size());
  size_t run = 0, nz = 0;
  for (size_t i = 0; i < n; i++) {
    if (buf[i] == raw[i]) {
      run++;
      if (raw[i] != 0 && raw[i] != kFill) nz++;
      if (run >= 8 && nz >= 6) return true;
    } else {
      run = nz = 0;
    }
  }
  return false;
}

struct Conn {
  const Prof& p;
  int id;
  TicketWorld tw;  // outlives the endpoint
  Sut sut;
  Dir peer_out;  // peer's sending side
  RxModel rx;
  Dir tx;
  uint64_t gap = 0;
  bool tx_dead = false;
  std::vector<Bytes> net;      // in flight towards the endpoint
  std::vector<Bytes> seen;     // everything the attacker saw
  std::vector<Bytes> own;      // the endpoint's own records
  std::vector<Bytes> genuine;  // nonempty application contents, in order
  size_t gpos = 0;
  size_t batches_checked = 0;
  bool peer_mid_message = false;
  int peer_tickets = 0;
  bool gone = false;
  bool calm = false;  // no faults during a burst
  bool small = false;  // sizes that suit a simulated thread

  Conn(const Prof& prof, int i) : p(prof), id(i) {}

  void Use() { CurTickets() = &tw; }

  static std::string RandName() {
    uint32_t n = S->Weighted({3, 2, 1}) == 0 ? 1 + S->Pick(20) : S->Pick(60);
    Bytes b = S->RandBytes(n);
    if (S->Chance(1, 2))
      for (auto& c : b) c = 'a' + c % 26;
    return std::string(b.begin(), b.end());
  }

  // |other|: configuration of another connection of the process.
  void Start(const Config* other = nullptr) {
    Use();
    Config c;
    c.suite = S->Pick(3);
    bool partner = other && S->Chance(1, 5);
    if (partner) c.suite = other->suite;
    size_t sl = tlsref::GetSuite(c.suite).secretlen;
    c.in_secret = S->RandBytes(sl);
    c.out_secret = S->RandBytes(sl);
    if (partner) {  // the other end of that connection, in the same process
      c.in_secret = other->out_secret;
      c.out_secret = other->in_secret;
      S->Probe("many.both_ends");
    }
    vault::Secret(c.in_secret);
    vault::Secret(c.out_secret);
    c.crypter = (int)S->Pick(100) >= 100 - p.crypter_pct;
    if (S->Chance(1, 4)) {
      c.in_seq = S->Pick(1000);
      c.out_seq = S->Pick(1000);
    }
    if (S->Chance(1, 8)) {  // wide values: carries between bytes
      static const uint64_t k[] = {0xff, 0xffff, 0xfffffe, 0xffffffffull, 0xfffffffffffeull, 0x7fffffffffffffffull};
      c.in_seq = k[S->Pick(6)];
      c.out_seq = k[S->Pick(6)];
      S->Probe("seq.wide");
    }
    if (p.wrap && S->Chance(1, 2)) {
      c.out_seq = ~0ull - S->Pick(10);
      if (S->Chance(1, 2)) c.in_seq = ~0ull - S->Pick(10);
      S->Probe("seq.near_wrap");
    }
    std::string name = RandName();
    switch (S->Pick(4)) {
      case 0: c.identity = S2AOptions::Identity::FromSpiffeId(name); break;
      case 1: c.identity = S2AOptions::Identity::FromHostname(name); break;
      case 2: c.identity = S2AOptions::Identity::FromUid(name); break;
      default: break;
    }
    c.url = "s2a-" + std::to_string(S->Pick(1000));
    c.conn_id = ((uint64_t)S->Pick(0x7fffffff) << 33) | S->Pick(0x7fffffff);
    if (other && S->Chance(1, 3)) {  // nothing tells the two apart but their secrets
      c.identity = other->identity;
      c.url = other->url;
      c.conn_id = other->conn_id;
      S->Probe("many.same_names");
    }
    tw.wait_mode = S->Pick(3);
    tw.inspect = [this](s2a::s2a_ticket_sender::TicketSenderOptions& o) { InspectRequest(o); };
    S->Step("connect", {(uint64_t)id, (uint64_t)c.suite, c.crypter});
    if (p.sslf) flt::StaleErrors();
    if (p.sslf && S->Chance(1, 3)) {
      flt::Arm(S->Pick(24), (flt::Mode)S->Pick(2), 1 + S->Weighted({5, 1}) * 3);
      bool ok = sut.Create(c);
      flt::Disarm();
      S->Step("create-under-fault", {ok, flt::Fired()});
      if (!ok && !flt::Fired()) S->Fail("create", "creating a connection failed although nothing was wrong");
      if (flt::live_cipher + flt::live_aead + flt::live_hmac + flt::live_bio && !ok && id == 0)
        S->Fail("handle-leak", "a failed creation left cryptographic library handles behind");
      if (!ok) {
        bool again = sut.Create(c);
        if (!again) S->Fail("create", "creating a connection failed although nothing was wrong");
      }
    } else if (!sut.Create(c)) {
      S->Fail("create", "creating a connection failed although nothing was wrong");
    }
    peer_out.Init(c.suite, c.in_secret, c.in_seq);
    rx.in.Init(c.suite, c.in_secret, c.in_seq);
    tx.Init(c.suite, c.out_secret, c.out_seq);
  }

  // The request built for S2A from a batch.
  void InspectRequest(s2a::s2a_ticket_sender::TicketSenderOptions& o) {
    upb::Arena arena;
    s2a_proto_SessionReq* req = s2a_proto_SessionReq_new(arena.ptr());
    bool ok;
    {
      flt::LibScope l;
      ok = s2a::s2a_ticket_sender::PrepareResumptionTicketReq(o.connection_id, o.local_identity, o.tickets, arena.ptr(), req);
    }
    bool none = o.local_identity.GetIdentityType() == S2AOptions::IdentityType::NONE;
    if (ok == none) {
      S->Note("ticket-request", none ? "a ticket request without a local identity was built" : "no ticket request was built");
      return;
    }
    if (!ok) return;
    size_t n = 0;
    char* buf = s2a_proto_SessionReq_serialize(req, arena.ptr(), &n);
    pb::M m(std::string(buf, n));
    pb::M t(m.Str(4));
    std::string name;
    int kind = pb::IdKind(t.Str(3), &name);
    std::vector<std::string> want;
    for (auto& x : *o.tickets) want.push_back(*x);
    if (!m.ok || !t.ok || m.f.size() != 1) return S->Note("ticket-request", "the ticket request does not consist of one ticket message");
    if (t.Strs(1) != want) return S->Note("ticket-request", "the ticket request does not carry exactly the tickets");
    if (t.Int(2) != sut.cfg.conn_id) return S->Note("ticket-request", "the ticket request carries a wrong connection id");
    if (kind != (int)sut.cfg.identity.GetIdentityType() || name != sut.cfg.identity.GetIdentityString())
      return S->Note("ticket-request", "the ticket request carries a wrong local identity");
    S->Probe("ticket.request_checked");
  }

  // ---- peer -----------------------------------------------------------------
  size_t Size() {
    if (small) return S->Chance(1, 12) ? S->Pick(1500) : S->Pick(60);
    switch (S->Weighted({4, 4, 3, p.big ? 3u : 1u, p.big ? 2u : 0u})) {
      case 0: return 1 + S->Pick(20);
      case 1: return S->Pick(4) ? 20 + S->Pick(180) : 0;
      case 2: return 1 + S->Pick(1500);
      case 3: S->Probe("size.large"); return 16384 - S->Pick(p.big ? 4 : 20);
      default: return 1500 + S->Pick(14884);
    }
  }
  size_t Pad(size_t content) {
    if (!p.pad || S->Weighted({3, 1}) == 0) return 0;
    size_t room = small ? 40 : 16384 - content;
    S->Probe("record.padded");
    size_t n = S->Weighted({3, 1}) ? room : std::min<size_t>(1 + S->Pick(64), room);
    return n;
  }
  void Push(const Bytes& rec) {
    net.push_back(rec);
    if (seen.size() < 64) seen.push_back(rec);
  }
  void PeerApp() {
    size_t n = Size();
    Bytes d = S->RandBytes(n);
    size_t pad = Pad(n);
    S->Step("peer-app", {(uint64_t)id, n > 0, n >= 16000, pad > 0});
    if (n) genuine.push_back(d);
    Push(peer_out.Seal(tlsref::kAppData, d, pad));
  }
  static Bytes Msg(int type, const Bytes& body) {
    Bytes m = {(uint8_t)type, (uint8_t)(body.size() >> 16), (uint8_t)(body.size() >> 8), (uint8_t)body.size()};
    m.insert(m.end(), body.begin(), body.end());
    return m;
  }
  Bytes Ticket() {
    size_t n;
    switch (small ? S->Pick(2) : S->Weighted({60, 20, 10, 9, 1})) {
      case 0: n = 1 + S->Pick(200); break;
      case 1: n = 1; break;
      case 2: n = 200 + S->Pick(3000); break;
      case 4: n = 65520 + S->Pick(40) + (S->Chance(1, 3) ? S->Pick(70000) : 0); S->Probe("ticket.over_64k"); break;
      default: n = 16000 + S->Pick(3000); S->Probe("ticket.longer_than_record"); break;
    }
    peer_tickets++;
    return Msg(4, S->RandBytes(n));
  }
  // Cuts |stream| into handshake records.
  void SendHandshake(const Bytes& stream, size_t from = 0) {
    size_t q = from;
    uint32_t style = S->Weighted({4, 3, 1});
    int left = 24;
    while (q < stream.size()) {
      size_t n = stream.size() - q;
      if (left > 0 && style == 1) n = 1 + S->Pick((uint32_t)n);
      if (left > 0 && style == 2) n = 1 + S->Pick(4);
      left--;
      n = std::min(std::min(n, stream.size() - q), (size_t)16384);
      if (n < stream.size() - q) S->Probe("handshake.fragmented");
      Bytes part(stream.begin() + q, stream.begin() + q + n);
      Push(peer_out.Seal(tlsref::kHandshake, part, Pad(n)));
      q += n;
    }
  }
  void PeerHandshake() {
    uint32_t tickets = S->Weighted({3, 4, 2, 1}) , ku;
    if (tickets == 3) tickets = 3 + S->Pick(5);
    ku = tickets == 0 ? 1 : S->Weighted({3, 1});
    Bytes stream;
    for (uint32_t i = 0; i < tickets; i++) {
      Bytes t = Ticket();
      stream.insert(stream.end(), t.begin(), t.end());
    }
    if (ku) {
      Bytes k = Msg(24, {(uint8_t)S->Pick(2)});
      stream.insert(stream.end(), k.begin(), k.end());
    }
    S->Step("peer-handshake", {(uint64_t)id, tickets, ku});
    if (tickets >= 6) S->Probe("ticket.more_than_five_at_once");
    SendHandshake(stream);
    if (ku) {
      peer_out.Update();
      S->Probe("ku.inbound");
    }
  }
  void PeerAlert() {
    Bytes a;
    switch (S->Weighted({3, 2, 1, 1})) {
      case 0: a = {(uint8_t)(1 + S->Pick(2)), (uint8_t)(1 + S->Pick(120))}; break;
      case 1: a = {(uint8_t)(1 + S->Pick(2)), 0}; S->Probe("alert.close_notify"); break;
      case 2: a = S->RandBytes(S->Pick(2)); S->Probe("alert.malformed"); break;
      default: a = S->RandBytes(3 + S->Pick(4)); break;
    }
    S->Step("peer-alert", {(uint64_t)id, a.size()});
    Push(peer_out.Seal(tlsref::kAlert, a, Pad(a.size())));
  }
  void PeerWeird() {
    uint32_t k = S->Pick(6);
    S->Step("peer-weird", {(uint64_t)id, k});
    S->nontrivial = true;
    switch (k) {
      case 0: {  // unknown inner type
        static const uint8_t t[] = {20, 24, 1, 2, 0x80, 0xff, 25};
        Push(peer_out.Seal(t[S->Pick(7)], S->RandBytes(S->Pick(40)), Pad(40)));
        break;
      }
      case 1:  // no type at all
        Push(peer_out.SealRaw(Bytes(1 + S->Pick(40), 0)));
        break;
      case 2:  // empty handshake record
        Push(peer_out.Seal(tlsref::kHandshake, Bytes(), Pad(0)));
        break;
      case 3: {  // application data inside a handshake message
        Bytes t = Ticket();
        size_t cut = 1 + S->Pick((uint32_t)t.size() - 1);
        cut = std::min<size_t>(cut, 16384);
        Push(peer_out.Seal(tlsref::kHandshake, Bytes(t.begin(), t.begin() + cut), 0));
        Bytes d = S->RandBytes(1 + S->Pick(50));
        genuine.push_back(d);
        Push(peer_out.Seal(tlsref::kAppData, d, 0));
        SendHandshake(t, cut);
        S->Probe("weird.appdata_inside_message");
        break;
      }
      case 4: {  // unknown or empty handshake message, possibly after a ticket
        Bytes stream;
        if (S->Chance(1, 2)) stream = Ticket();
        Bytes m = S->Chance(1, 2) ? Msg(S->Chance(1, 2) ? 4 : 24, {}) : Msg(S->Chance(1, 2) ? 1 : 11, S->RandBytes(1 + S->Pick(40)));
        stream.insert(stream.end(), m.begin(), m.end());
        SendHandshake(stream);
        S->Probe("weird.bad_handshake_message");
        break;
      }
      default: {  // something after a key update in the same record
        Bytes stream = Msg(24, {(uint8_t)S->Pick(2)});
        Bytes t = Ticket();
        stream.insert(stream.end(), t.begin(), t.end());
        if (stream.size() > 16384) stream.resize(16384);
        Push(peer_out.Seal(tlsref::kHandshake, stream, 0));
        S->Probe("weird.bytes_after_key_update");
        break;
      }
    }
  }

  // ---- attacker -----------------------------------------------------------------
  void Attack() {
    size_t n = net.size();
    size_t i = n ? S->Pick((uint32_t)n) : 0;
    uint32_t k = S->Pick(14);
    if (n == 0 && k < 9) return;
    if (k > 2 && k < 9 && net[i].size() < 6) return;
    S->Step("attack", {(uint64_t)id, k});
    switch (k) {
      case 0: S->Fault("net.drop"); net.erase(net.begin() + i); break;
      case 1: S->Fault("net.duplicate"); net.insert(net.begin() + i, Bytes(net[i])); break;
      case 2:
        S->Fault("net.reorder");
        std::swap(net[i], net[S->Pick((uint32_t)n)]);
        break;
      case 3: {
        S->Fault("net.bitflip");
        size_t at = S->Weighted({2, 1, 1}) == 0 ? S->Pick((uint32_t)net[i].size())
                    : S->Chance(1, 2)           ? net[i].size() - 1 - S->Pick((uint32_t)std::min<size_t>(16, net[i].size()))
                                                : std::min<size_t>(5 + S->Pick(4), net[i].size() - 1);
        net[i][at] ^= 1 << S->Pick(8);
        break;
      }
      case 4: {
        S->Fault("net.header_edit");
        size_t at = S->Pick(5);
        if (at < net[i].size()) net[i][at] = (uint8_t)S->Pick(256);
        break;
      }
      case 5: {  // shorten consistently with the header
        S->Fault("net.shorten");
        size_t cut = 1 + S->Pick(20);
        if (net[i].size() > 5 + cut) {
          net[i].resize(net[i].size() - cut);
          size_t l = net[i].size() - 5;
          net[i][3] = l >> 8;
          net[i][4] = l;
        }
        break;
      }
      case 6: {  // lengthen consistently with the header
        S->Fault("net.lengthen");
        Bytes x = S->RandBytes(1 + S->Pick(20));
        net[i].insert(net[i].end(), x.begin(), x.end());
        size_t l = net[i].size() - 5;
        net[i][3] = l >> 8;
        net[i][4] = l;
        break;
      }
      case 7: {  // splice two records
        S->Fault("net.splice");
        Bytes& a = net[i];
        const Bytes& b = net[S->Pick((uint32_t)n)];
        size_t c = 5 + S->Pick(40);
        if (a.size() > c && b.size() > c) {
          Bytes r(a.begin(), a.begin() + c);
          r.insert(r.end(), b.begin() + c, b.end());
          size_t l = r.size() - 5;
          r[3] = l >> 8;
          r[4] = l;
          a = r;
        }
        break;
      }
      case 8: S->Fault("net.truncate_bytes"); net[i].resize(S->Pick((uint32_t)net[i].size())); break;
      case 9:
        if (seen.empty()) return;
        S->Fault("net.replay");
        net.insert(net.begin() + i, seen[S->Pick((uint32_t)seen.size())]);
        break;
      case 10:
        if (own.empty()) return;
        S->Fault("net.reflect");
        net.insert(net.begin() + i, own[S->Pick((uint32_t)own.size())]);
        break;
      case 11: {  // random forgery with a correct header
        S->Fault("net.forge");
        size_t l = 17 + S->Pick(100);
        Bytes r = Dir::Header(l), x = S->RandBytes(l);
        r.insert(r.end(), x.begin(), x.end());
        net.insert(net.begin() + i, r);
        break;
      }
      case 12: {  // sealed with the endpoint's own sending key or with a stale key
        S->Fault("net.wrong_key");
        // Only keys the receiver must not accept now or later: its own sending key, keys it has left behind, and
        // wrong keys. (The attacker does not hold the current and the coming ones.)
        Dir d = S->Chance(1, 2) || rx.old.empty() ? tx : rx.old[S->Pick((uint32_t)rx.old.size())];
        if (S->Chance(1, 4)) d.Update();
        if (S->Chance(3, 4)) d.seq = rx.in.seq;
        bool live = d.key == rx.in.key;
        Dir next = rx.in;
        for (int u = 0; u < 2 && !live; u++) next.Update(), live = d.key == next.key;
        if (live || S->Chance(1, 8)) d.key[S->Pick((uint32_t)d.key.size())] ^= 1;
        net.insert(net.begin() + i, d.Seal(23, S->RandBytes(S->Pick(100)), 0));
        break;
      }
      default: {  // right key, wrong position
        S->Fault("net.wrong_position");
        Dir d = rx.in;
        // A position this connection never reaches (the attacker does not really
        // hold the key), which coincides with the right one in the low bits.
        d.seq ^= 1ull << (16 + 8 * S->Pick(6));
        net.insert(net.begin() + i, d.Seal(23, S->RandBytes(S->Pick(100)), 0));
        break;
      }
    }
  }

  // ---- receiving ------------------------------------------------------------------
  void Deliver() {
    if (net.empty()) return;
    size_t k = 1;
    if (!sut.cr && net.size() > 1 && S->Chance(1, 2)) k = 1 + S->Pick((uint32_t)std::min<size_t>(net.size(), 8));
    Bytes bytes;
    for (size_t i = 0; i < k; i++) bytes.insert(bytes.end(), net[i].begin(), net[i].end());
    net.erase(net.begin(), net.begin() + k);
    if (p.partial && !calm && S->Chance(1, 12)) {
      S->Fault("net.partial_record");
      if (S->Chance(1, 2) || net.empty()) {
        size_t cut = 1 + S->Pick(std::min<uint32_t>(30, bytes.size() ? bytes.size() : 1));
        if (cut > bytes.size()) cut = bytes.size();
        bytes.resize(bytes.size() - cut);
      } else {
        size_t n = S->Pick((uint32_t)std::min<size_t>(net[0].size(), 40));
        bytes.insert(bytes.end(), net[0].begin(), net[0].begin() + n);
      }
    }
    Call(bytes);
  }
  void Call(const Bytes& bytes) {
    Use();
    // How a record layer must divide these bytes.
    std::vector<Bytes> units;
    bool bad = bytes.empty();
    if (sut.cr) {
      units.push_back(bytes);
      if (bytes.size() < 5 || bytes.size() != 5 + ((size_t)bytes[3] << 8) + bytes[4]) bad = true;
    } else {
      size_t q = 0;
      while (q < bytes.size()) {
        if (bytes.size() - q < 5 || bytes[q] != 23 || bytes[q + 1] != 3 || bytes[q + 2] != 3) { bad = true; break; }
        size_t n = 5 + ((size_t)bytes[q + 3] << 8) + bytes[q + 4];
        if (bytes.size() - q < n) { bad = true; break; }
        units.push_back(Bytes(bytes.begin() + q, bytes.begin() + q + n));
        q += n;
      }
    }
    for (auto& u : units)
      if (u.size() < tlsref::kOverhead || u.size() > tlsref::kOverhead + tlsref::kMaxPlain || u[0] != 23 || u[1] != 3 || u[2] != 3) bad = true;
    if (p.sslf) flt::StaleErrors();
    bool arm = p.sslf && !calm && S->Chance(1, 4);
    if (arm) flt::Arm(S->Weighted({2, 1}) ? S->Pick(40) : S->Pick(8), (flt::Mode)S->Pick(2), 1 + S->Weighted({5, 1}) * 2);
    sut.ledger.failed_alloc = false;
    if (p.allocf && !calm && S->Chance(1, 5)) {
      sut.ledger.fail_next = S->Weighted({3, 1}) ? S->Pick(4) : 0;
      sut.ledger.fail_mode = S->Pick(2);
    }
    sut.ledger.small_out = p.allocf && !calm && S->Chance(1, 12);
    bool was_closed = rx.closed, was_dead = rx.dead;
    Res r = sut.Unprotect(bytes, units.size(), p.partial);
    flt::Disarm();
    sut.ledger.fail_next = -1;
    sut.ledger.small_out = false;
    bool fired = arm && flt::Fired();
    bool disturbed = fired || sut.ledger.failed_alloc;
    if (r.single && !sut.cr && units.size() != 1) bad = true;
    S->Step("unprotect", {(uint64_t)id, units.size(), r.ok, disturbed, r.single, (uint64_t)rx.taint});
    Bytes got = r.Data();
    S->EvBytes("data", got.data(), got.size());
    if (r.ok && was_closed) S->Fail("after-close", "an unprotect call succeeded after close notify");
    if (r.ok && was_dead) S->Fail("after-failed-update", "an unprotect call succeeded after a failed inbound key update");
    RxModel before = rx;
    int taint0 = rx.taint;
    if (r.ok && bad) S->Fail("malformed-accepted", "a call with a malformed, partial or surplus record reported success");
    if (disturbed && !r.ok) {
      // Not delivered; how far it got is unknown.
      if (fired && units.size() == 1 && flt::FiredInDerivation()) {
        RxModel probe = rx;
        size_t ku = probe.key_updates;
        if (!bad && taint0 < 2) probe.Feed(units[0]);
        if (probe.key_updates > ku) {
          rx.dead = true;
          S->Probe("ku.inbound_failed");
        }
      }
      rx.taint = 2;
      Tickets(r, true);
      return;
    }
    if (taint0 == 2) {
      Genuine(r);
      Tickets(r, true);
      return;
    }
    if (bad) {
      rx.taint = 2;
      Tickets(r, true);
      return;
    }
    bool err = false, maybe = false;
    const char* why = "";
    Bytes want;
    for (size_t i = 0; i < units.size(); i++) {
      Dir at = rx.in;
      RxModel::Exp e = rx.Feed(units[i]);
      if (e.maybe_ok) maybe = true;
      if (!e.ok) {
        err = true;
        why = e.why;
        S->Probe((std::string("rx.") + why).c_str());
        if (!e.auth && !strcmp(why, "auth") && !r.ok) CheckCleared(r, units, i, at);
        if (units.size() > 1) rx.taint = 2;
        break;
      }
      want.insert(want.end(), e.data.begin(), e.data.end());
    }
    if (err && r.ok) S->Fail("bad-record-accepted", std::string("an unprotect call that must fail (") + why + ") reported success");
    if (!err && !r.ok) {
      if (taint0 == 0 && !maybe) S->Fail("good-record-rejected", "an unprotect call on authentic, well-formed records in the right order failed");
      rx = before;
      rx.taint = 2;
      Tickets(r, true);
      return;
    }
    if (!err && got != want)
      S->Fail("wrong-data", "unprotect returned " + std::to_string(got.size()) + " bytes that differ from the " + std::to_string(want.size()) + " bytes sent");
    if (r.ok) Genuine(r);
    Tickets(r, taint0 != 0 || disturbed);
  }
  // Whatever is returned is something the peer sent, in order, at most once.
  void Genuine(const Res& r) {
    if (!r.ok) return;
    for (auto& part : r.parts) {
      if (part.empty()) continue;
      size_t i = gpos;
      while (i < genuine.size() && genuine[i] != part) i++;
      if (i == genuine.size()) S->Fail("forged-data", "unprotect returned data the peer did not send, or not in this order");
      gpos = i + 1;
    }
  }
  void CheckCleared(const Res& r, const std::vector<Bytes>& units, size_t i, const Dir& at) {
    S->Probe("rx.clearing_checked");
    const Bytes& u = units[i];
    Bytes raw, pt;
    ref::Open(at.s.aead, at.key, at.Nonce(at.seq), Bytes(u.begin(), u.begin() + 5), Bytes(u.begin() + 5, u.end()), &pt, &raw);
    std::vector<Bytes> bufs = sut.ledger.released;
    if (r.single) bufs.push_back(r.callerbuf);
    for (auto& b : bufs) {
      bool left = units.size() == 1 ? !OnlyFill(b.data(), b.size()) : HasWindow(b, raw);
      if (left) S->Fail("unauthenticated-text", "decrypted text of a record that failed authentication was left in a buffer");
    }
  }
  void Tickets(const Res& r, bool unsure) {
    if (tw.batches.size() > 1) S->Fail("ticket-batches", "tickets were handed to S2A more than once");
    bool fresh = tw.batches.size() > batches_checked;
    if (!fresh) {
      if (rx.batch_due && !unsure && tw.batches.empty() && r.ok)
        S->Fail("tickets-lost", "application data followed complete tickets but no tickets were handed to S2A");
      return;
    }
    batches_checked = tw.batches.size();
    S->nontrivial = true;
    const TicketBatch& b = tw.batches[0];
    S->Probe(b.tickets.size() >= 5 ? "ticket.batch_full" : "ticket.batch");
    if (b.url != sut.cfg.url || b.id != sut.cfg.conn_id || b.identity != sut.cfg.identity.GetIdentityString() ||
        b.identity_type != (int)sut.cfg.identity.GetIdentityType() || b.factory != sut.factory)
      S->Fail("ticket-batch-identity", "the ticket batch does not name this connection's id, address, identity and channel");
    if (b.tickets.size() > 5) S->Fail("ticket-batch", "more than five tickets were handed over");
    if (rx.taint == 2) return;
    if (b.tickets != rx.tickets)
      S->Fail("ticket-batch", "the " + std::to_string(b.tickets.size()) + " tickets handed over are not exactly the " +
                                  std::to_string(rx.tickets.size()) + " tickets of the first run");
    if (rx.phase != 2 && rx.tickets.size() < 5) S->Fail("ticket-batch", "tickets were handed over before the run of tickets ended");
  }

  // ---- sending ----------------------------------------------------------------------
  void Write() {
    Use();
    size_t n = calm ? S->Pick(30) : Size();
    if (!calm && !small && S->Chance(1, p.big ? 6 : 30)) n = 16384 * (S->Chance(1, 6) ? 4 + S->Pick(S->Chance(1, 8) ? 60 : 9) : 1 + S->Pick(3)) + (S->Chance(1, 2) ? S->Pick(100) : 0);
    // The record layer itself also makes alert and handshake records, one at a
    // time, and refuses what does not fit one record.
    uint8_t type = 23;
    bool over = false;
    if (sut.cr && !calm && S->Chance(1, 5)) {
      type = 21 + S->Pick(3);
      n = S->Chance(1, 4) ? 16384 + 1 + S->Pick(S->Chance(1, 2) ? 3 : 400) : std::min<size_t>(n, 16384);
      over = n > 16384;
      S->Probe(over ? "write.oversized" : "write.typed");
    }
    Bytes d = S->RandBytes(n);
    vault::Data(d);
    size_t nrec = n == 0 || over ? 1 : (n + 16383) / 16384;
    size_t promised = sut.fp ? sut.Promised(n) : n + nrec * tlsref::kOverhead;
    if (p.sslf) flt::StaleErrors();
    bool arm = p.sslf && !calm && S->Chance(1, 4);
    if (arm) flt::Arm(S->Weighted({3, 1}) ? S->Pick(20) : S->Pick(6), (flt::Mode)S->Pick(2), 1 + S->Weighted({5, 1}) * 2);
    sut.ledger.failed_alloc = false;
    if (p.allocf && !calm && S->Chance(1, 5)) {
      sut.ledger.fail_next = 0;
      sut.ledger.fail_mode = S->Pick(2);
    }
    sut.ledger.small_out = p.allocf && !calm && S->Chance(1, 8);
    Res r = type != 23 || over ? sut.ProtectAs(d, type == 21   ? S2ACrypter::RecordType::ALERT
                                                  : type == 22 ? S2ACrypter::RecordType::HANDSHAKE
                                                               : S2ACrypter::RecordType::APPLICATION_DATA)
                               : sut.Protect(d);
    flt::Disarm();
    sut.ledger.fail_next = -1;
    sut.ledger.small_out = false;
    bool disturbed = (arm && flt::Fired()) || sut.ledger.failed_alloc || over;
    if (over && r.ok) S->Fail("bad-record", "the record layer made a record of more than 2^14 bytes");
    S->Step("protect", {(uint64_t)id, nrec, r.ok, disturbed});
    Bytes out = r.Data();
    S->EvBytes("records", out.data(), out.size());
    // Remaining positions in this key epoch (0 stands for 2^64).
    uint64_t left = tx.over ? 0 : (uint64_t)0 - tx.seq;
    bool huge = !tx.over && tx.seq == 0;
    bool can = huge || left >= nrec, sure = huge || (left >= nrec + gap);
    if (r.ok) {
      if (tx_dead) S->Fail("after-failed-update", "protect succeeded after a failed outbound key update");
      if (!can) S->Fail("sequence-wrap", "protect succeeded although the record counter is exhausted");
      if (out.size() != promised)
        S->Fail("size", "a write of " + std::to_string(n) + " bytes produced " + std::to_string(out.size()) + " bytes, promised " + std::to_string(promised));
      std::vector<Bytes> recs;
      if (!tlsref::SplitRecords(out, &recs)) S->Fail("bad-record", "protect's output is not a sequence of whole records");
      Bytes text;
      uint64_t q = tx.seq;
      bool first = true;
      for (auto& rec : recs) {
        if (rec[0] != 23 || rec[1] != 3 || rec[2] != 3) S->Fail("bad-record", "a produced record has a malformed header");
        if (sut.fp && rec.size() > sut.fp->MaxRecordSize()) S->Fail("size", "a produced record is larger than the advertised maximum");
        Bytes inner;
        bool ok = tx.OpenAt(rec, q, &inner);
        if (first)
          for (uint64_t g = 0; !ok && g < gap && q != ~0ull; g++) ok = tx.OpenAt(rec, ++q, &inner);
        if (!ok) S->Fail("bad-record", "a produced record does not decrypt at its position under the RFC 8446 key");
        first = false;
        q++;
        if (inner.empty() || inner.back() != type) S->Fail("bad-record", "a produced record has a wrong content type");
        inner.pop_back();
        if (inner.size() > 16384) S->Fail("bad-record", "a produced record holds more than 2^14 bytes");
        text.insert(text.end(), inner.begin(), inner.end());
        if (own.size() < 32) own.push_back(rec);
      }
      if (text != d) S->Fail("wrong-data", "the produced records do not decrypt to the written bytes");
      if (q < tx.seq || (q == 0 && !recs.empty())) tx.over = true;
      tx.seq = q;
      gap = 0;
    } else {
      if (!disturbed && !tx_dead && sure) S->Fail("protect-failed", "protecting failed although nothing was wrong");
      if (!can) S->Probe("tx.exhausted");
      if (!tx_dead) gap += nrec;
    }
  }
  void Update() {
    if (!sut.cr) return;
    if (p.sslf) flt::StaleErrors();
    bool arm = p.sslf && !calm && S->Chance(1, 3);
    if (arm) flt::Arm(S->Pick(20), (flt::Mode)S->Pick(2), 1);
    bool ok = sut.UpdateOut();
    flt::Disarm();
    bool fired = arm && flt::Fired();
    S->Step("update-out", {(uint64_t)id, ok, fired});
    S->Probe(ok ? "ku.outbound" : "ku.outbound_failed");
    if (tx_dead) return;
    if (!ok && !fired) S->Fail("update-failed", "an outbound key update failed although nothing was wrong");
    if (!ok) tx_dead = true;
    else {
      tx.Update();
      gap = 0;
    }
  }
  void Finish() {
    Use();
    bool wait = !tw.batches.empty() && tw.wait_mode != 0;
    sut.Destroy();
    if (S->failed) throw sim::StopRun();
    if (tw.waits != (wait ? 1 : 0))
      S->Fail("ticket-wait", wait ? "destroying the connection did not wait for the outstanding ticket hand-over" : "destroying the connection waited without a reason");
    gone = true;
  }
  // Much more of one thing than usual.
  void Drain() {
    for (int guard = 0; !net.empty() && guard < 3000; guard++) Deliver();
  }
  void Burst() {
    calm = true;
    if (net.size() < 40) Drain();
    uint32_t kind = S->Weighted({p.hs ? 2u : 1u, p.write ? 3u : 1u, p.hs ? 2u : 1u, 2, p.hs ? 2u : 1u, 1});
    uint32_t n = 60 + S->Pick(S->Chance(1, 2) ? 60 : 500);
    S->Step("burst", {(uint64_t)id, kind});
    switch (kind) {
      case 0:  // inbound key updates
        S->Probe("burst.key_updates_in");
        for (uint32_t i = 0; i < n; i++) {
          Push(peer_out.Seal(tlsref::kHandshake, Msg(24, {(uint8_t)(i & 1)}), 0));
          peer_out.Update();
          if (i % 7 == 3 || i + 3 > n) PeerSmall();
          if (i % 16 == 15) Drain();
        }
        break;
      case 1:  // outbound key updates and writes
        S->Probe("burst.writes");
        for (uint32_t i = 0; i < n; i++) {
          if (sut.cr && p.update) Update();
          if (!sut.cr || i % 7 == 3 || i + 3 > n || i % 64 < 2) Write();
        }
        break;
      case 2: {  // one message in very many records
        S->Probe("burst.fragments");
        peer_tickets++;
        Bytes t = Msg(4, S->RandBytes(n));
        for (size_t q = 0; q < t.size();) {
          size_t m = std::min<size_t>(t.size() - q, q % 11 ? 1 : 1 + q % 3);
          Push(peer_out.Seal(tlsref::kHandshake, Bytes(t.begin() + q, t.begin() + q + m), 0));
          q += m;
        }
        PeerSmall();
        break;
      }
      case 3:  // very many records in one call
        S->Probe("burst.records_in_call");
        for (uint32_t i = 0; i < n; i++) PeerSmall();
        if (!sut.cr && S->Chance(3, 4)) {
          Bytes all;
          for (auto& r : net) all.insert(all.end(), r.begin(), r.end());
          net.clear();
          Call(all);
        }
        break;
      case 4: {  // very many tickets
        S->Probe("burst.tickets");
        Bytes stream;
        for (uint32_t i = 0; i < n; i++) {
          peer_tickets++;
          Bytes t = Msg(4, Bytes(1 + i % 9, (uint8_t)i));
          stream.insert(stream.end(), t.begin(), t.end());
          if (i % 32 == 31 || i + 1 == n || S->Chance(1, 20)) {
            SendHandshake(stream);
            stream.clear();
            if (S->Chance(1, 3)) PeerSmall();
          }
        }
        PeerSmall();
        break;
      }
      default:  // a whole conversation of small records both ways
        S->Probe("burst.conversation");
        for (uint32_t i = 0; i < n; i++) {
          PeerSmall();
          Deliver();
          Write();
        }
        break;
    }
    Drain();
    calm = false;
  }
  void PeerSmall() {
    Bytes d = S->RandBytes(1 + S->Pick(12));
    genuine.push_back(d);
    Push(peer_out.Seal(tlsref::kAppData, d, 0));
  }
  void Action() {
    S->now += 50 + S->Pick(2000);
    bool t = p.tamper && S->Chance(1, 7);
    if (t) return Attack();
    switch (S->WeightedV({p.deliver, p.app, p.hs, p.alert, p.weird, p.write, p.update})) {
      case 0: return Deliver();
      case 1: return PeerApp();
      case 2: return PeerHandshake();
      case 3: return PeerAlert();
      case 4: return PeerWeird();
      case 5: return Write();
      default: return Update();
    }
  }
};

// ---- C24: many connections that come and go ------------------------------------------
// The kinds of traffic and trouble differ between them; each is judged alone.
const Prof* AnyProf(bool faults) {
  static Prof calm[8];
  uint32_t k = S->Pick(8);
  if (faults) return &kProfs[k];
  calm[k] = kProfs[k];
  calm[k].sslf = calm[k].big = false;
  return &calm[k];
}
#ifdef SIM_SCHED
// The same with every connection in a thread of its own.
void ManyThreads() {
  FakeFactory::live = 0;
  {
    std::vector<std::unique_ptr<Conn>> cs;
    std::vector<Config> made;
    uint32_t nt = 2 + S->Pick(2);
    for (uint32_t t = 0; t < nt; t++) {
      uint32_t lives = 1 + S->Pick(2), steps = 3 + S->Pick(12);
      static const char* name[] = {"conn-a", "conn-b", "conn-c"};
      sched::Spawn(name[t], [&cs, &made, t, lives, steps] {
        for (uint32_t k = 0; k < lives; k++) {
          Conn* c = new Conn(*AnyProf(false), t * 10 + k + 1);
          cs.emplace_back(c);
          c->small = true;
          c->Start(made.empty() ? nullptr : &made.back());
          made.push_back(c->sut.cfg);
          for (uint32_t i = 0; i < steps; i++) {
            sched::Point("next");
            c->Action();
          }
          c->Drain();
          if (S->Chance(1, 2)) c->Write();
          c->Finish();
        }
      });
    }
    sched::Run();
    S->nontrivial = true;
  }
  ForgetTickets();
  if (FakeFactory::live != 0) S->Fail("memory-leak", "a channel factory handed to a connection was not destroyed with it");
}
sim::Reg r24("C24", ManyThreads);
#else
void ManyWorld() {
  FakeFactory::live = 0;
  {
    std::vector<std::unique_ptr<Conn>> cs;
    Config last;
    int ids = 1;
    auto add = [&] {
      cs.emplace_back(new Conn(*AnyProf(true), ids));
      cs.back()->Start(ids > 1 ? &last : nullptr);
      last = cs.back()->sut.cfg;
      ids++;
    };
    for (uint32_t n = 2 + S->Pick(3); n; n--) add();
    uint32_t steps = 10 + S->Pick(S->Chance(1, 6) ? 120 : 50);
    uint32_t burst = S->Chance(1, 40) ? 1 + S->Pick(steps) : 0;
    for (uint32_t k = 0; k < steps; k++) {
      if (k + 1 == burst) cs[S->Pick(cs.size())]->Burst();
      switch (S->Weighted({12, 1, 1})) {
        case 0: cs[S->Pick(cs.size())]->Action(); break;
        case 1:
          if (cs.size() < 6) add();
          break;
        default: {
          if (cs.size() < 2) break;
          size_t i = S->Pick(cs.size());
          S->Step("connection-ends", {(uint64_t)cs[i]->id});
          S->Probe("many.ended_early");
          cs[i]->Finish();
          cs.erase(cs.begin() + i);
        }
      }
    }
    while (!cs.empty()) {
      size_t i = S->Pick(cs.size());
      cs[i]->Drain();
      if (S->Chance(1, 2)) cs[i]->Write();
      cs[i]->Finish();
      cs.erase(cs.begin() + i);
    }
    S->nontrivial = true;
  }
  ForgetTickets();
  if (FakeFactory::live != 0) S->Fail("memory-leak", "a channel factory handed to a connection was not destroyed with it");
}

// ---- C23: a long life in cycles --------------------------------------------------------
void Cycle(Conn& c, const std::vector<std::pair<uint32_t, uint32_t>>& recipe) {
  for (auto& op : recipe) {
    uint32_t n = op.second;
    Bytes d(1 + n % 60, (uint8_t)n);
    auto record = [&](int type, const Bytes& body) { return c.peer_out.Seal(type, body, 0); };
    switch (op.first) {
      case 0:  // data in
        c.genuine.push_back(d);
        c.Push(record(tlsref::kAppData, d));
        c.Drain();
        break;
      case 1: c.Write(); break;
      case 2: {  // tickets, whole or in pieces
        Bytes t;
        for (uint32_t i = 0; i < 1 + n % 3; i++) {
          Bytes one = Conn::Msg(4, Bytes(1 + n % 300, (uint8_t)i));
          t.insert(t.end(), one.begin(), one.end());
        }
        size_t cut = n % 2 ? t.size() : 1 + n % (t.size() - 1);
        c.Push(record(tlsref::kHandshake, Bytes(t.begin(), t.begin() + cut)));
        if (cut < t.size()) c.Push(record(tlsref::kHandshake, Bytes(t.begin() + cut, t.end())));
        c.Drain();
        break;
      }
      case 3:  // the peer's key update
        c.Push(record(tlsref::kHandshake, Conn::Msg(24, {(uint8_t)(n & 1)})));
        c.peer_out.Update();
        c.Drain();
        break;
      case 4: c.Update(); break;
      case 5: {  // several records in one call
        Bytes all;
        for (uint32_t i = 0; i < (c.sut.cr ? 1 : 2 + n % 6); i++) {
          c.genuine.push_back(d);
          Bytes r = record(tlsref::kAppData, d);
          all.insert(all.end(), r.begin(), r.end());
        }
        c.Call(all);
        break;
      }
      case 6:  // an alert
        c.Push(record(tlsref::kAlert, {1, (uint8_t)(1 + n % 100)}));
        c.Drain();
        break;
      case 7: {  // a forged record
        Bytes r = c.own.empty() ? Bytes(40, 23) : c.own[0];
        r[0] = 23, r[1] = r[2] = 3, r[3] = (r.size() - 5) >> 8, r[4] = r.size() - 5;
        c.Call(r);
        break;
      }
      case 8:  // not a record at all
        c.Call(Bytes(1 + n % 30, (uint8_t)n));
        break;
      case 9:  // no memory for the application's buffers
        c.sut.ledger.fail_next = 0;
        c.sut.ledger.fail_mode = n & 1;
        if (c.sut.fp) c.sut.Protect(d);
        c.sut.ledger.fail_next = -1;
        c.tx_dead = c.tx_dead || false;
        c.gap += c.sut.fp ? 1 : 0;
        break;
      default: {  // another connection, short-lived
        Conn o(c.p, 9);
        o.calm = true;
        o.Start();
        o.PeerSmall();
        o.Push(o.peer_out.Seal(tlsref::kHandshake, Conn::Msg(4, Bytes(1 + n % 80, 1)), 0));
        o.PeerSmall();
        o.Drain();
        o.Write();
        o.Finish();
        c.Use();
      }
    }
  }
}
void SteadyWorld() {
  if (S->Chance(1, 3)) return proxy::SteadySession();
  {
    Conn c(kProfs[9], 1);
    c.calm = true;
    c.Start();
    std::vector<std::pair<uint32_t, uint32_t>> recipe;
    uint32_t k = 1 + S->Pick(4);
    for (uint32_t i = 0; i < k; i++) {
      uint32_t op = S->Weighted({4, 4, 4, 4, 3, 3, 2, 1, 1, 1, 1});
      recipe.push_back({op, S->Pick(1000)});
      S->Step("recipe", {op});
      static const char* names[] = {"data", "write", "tickets", "key_update_in", "key_update_out", "batch", "alert", "forged", "garbage", "no_buffer", "short_connection"};
      S->Probe((std::string("steady.") + names[op]).c_str());
    }
    runtime::Steady st;
    for (uint32_t i = 0; i < st.Cycles(); i++) {
      S->now += 1000000;
      Cycle(c, recipe);
      st.End(i);
    }
    S->Count("cycles", st.Cycles());
    S->nontrivial = true;
    c.Finish();
  }
  ForgetTickets();
}

template <int I>
void RecordWorld() {
  const Prof& p = kProfs[I];
  S->check_nonces = p.nonces;
  FakeFactory::live = 0;
  int n = p.two && S->Chance(1, 4) ? 2 : 1;
  {
    std::vector<std::unique_ptr<Conn>> cs;
    for (int i = 0; i < n; i++) {
      cs.emplace_back(new Conn(p, i));
      cs.back()->Start();
    }
    uint32_t steps = 4 + S->Pick(S->Chance(1, 6) ? 80 : 30);
    uint32_t burst = S->Chance(1, 40) ? 1 + S->Pick(steps) : 0;
    for (uint32_t k = 0; k < steps; k++) {
      if (k + 1 == burst) cs[S->Pick(n)]->Burst();
      cs[S->Pick(n)]->Action();
    }
    for (auto& c : cs) {
      for (int guard = 0; !c->net.empty() && guard < 500; guard++) c->Deliver();
      if (S->Chance(1, 2)) c->Write();
    }
    // Destroy in either order.
    if (n == 2 && S->Chance(1, 2)) std::swap(cs[0], cs[1]);
    for (auto& c : cs) c->Finish();
    for (auto& c : cs)
      if (c->p.update || c->p.hs) S->nontrivial = S->nontrivial || c->rx.key_updates || c->rx.all_tickets;
    if (!p.tamper && !p.sslf && !p.allocf && (p.app || p.write)) S->nontrivial = true;
  }
  ForgetTickets();
  if (FakeFactory::live != 0) S->Fail("memory-leak", "a channel factory handed to a connection was not destroyed with it");
}
sim::Reg r0("C02", RecordWorld<0>), r1("C03", RecordWorld<1>), r2("C04", RecordWorld<2>), r3("C05", RecordWorld<3>),
    r4("C06", RecordWorld<4>), r5("C07", RecordWorld<5>), r6("C14", RecordWorld<6>), r7("C15", RecordWorld<7>);

// C22: the same with everything that can go wrong, watching what is said about it.
void SecretsWorld() {
  vault::Begin();
  if (S->Chance(1, 3)) proxy::SecretSessions();
  else RecordWorld<8>();
}
void IndependentWorld() {
  if (S->Chance(1, 4)) proxy::ManySessions();
  else ManyWorld();
}
sim::Reg r8("C22", SecretsWorld), r9("C23", SteadyWorld), r10("C24", IndependentWorld);

// ---- C01: two real endpoints over a byte-stream network ---------------------------
struct Link {  // one direction
  Sut* from;
  Sut* to;
  int id;
  Bytes written;     // by the application
  Bytes wire;        // arrived, not yet consumed by the receiver
  Bytes read;        // returned to the application
  uint64_t last_at = 0;
  uint64_t in_flight = 0;
  bool stalled = false;
  bool want_read = false;
};

void Send(Link& l, size_t maxwrites);
void TryRead(Link& l);
void DoWrite(Link& l) {
  size_t n;
  switch (S->Weighted({4, 1, 3, 2, 1})) {
    case 0: n = 1 + S->Pick(64); break;
    case 1: n = 0; break;
    case 2: n = 1 + S->Pick(3000); break;
    case 3: n = 16384 - 1 + S->Pick(3); break;
    default: n = 16384 * (S->Chance(1, 6) ? 4 + S->Pick(S->Chance(1, 8) ? 60 : 9) : 1 + S->Pick(4)) + S->Pick(2) * S->Pick(300); break;
  }
  Bytes d = S->RandBytes(n);
  size_t promised = l.from->fp ? l.from->Promised(n) : n + tlsref::kOverhead * (n == 0 ? 1 : (n + 16383) / 16384);
  Res r = l.from->Protect(d);
  S->Step("write", {(uint64_t)l.id, n > 0, n / 16384});
  if (!r.ok) S->Fail("protect-failed", "protecting failed although nothing was wrong");
  Bytes out = r.Data();
  S->EvBytes("records", out.data(), out.size());
  if (out.size() != promised) S->Fail("size", "a write of " + std::to_string(n) + " bytes produced " + std::to_string(out.size()) + " bytes, promised " + std::to_string(promised));
  l.written.insert(l.written.end(), d.begin(), d.end());
  // The stream is cut at arbitrary points; segments keep their order.
  size_t p = 0;
  int cuts = 12;
  while (p < out.size()) {
    size_t seg = out.size() - p;
    if (cuts-- > 0 && S->Chance(1, 2)) {
      seg = 1 + S->Pick((uint32_t)std::min<size_t>(seg, S->Chance(1, 3) ? 8 : 20000));
      seg = std::min(seg, out.size() - p);
      S->Fault("net.split");
    }
    uint64_t lat = 100 + S->Pick(5000);
    if (S->Chance(1, 10)) {
      lat += 1000000 + S->Pick(30000000);
      S->Fault("net.stall");
    }
    uint64_t at = std::max(S->now + lat, l.last_at);
    l.last_at = at;
    Bytes part(out.begin() + p, out.begin() + p + seg);
    Link* lp = &l;
    S->After(at - S->now, [lp, part] {
      lp->wire.insert(lp->wire.end(), part.begin(), part.end());
      TryRead(*lp);
    });
    p += seg;
  }
}
// Very many small records at once.
void Flood(Link& l) {
  uint32_t n = 200 + S->Pick(600);
  S->Probe("burst.records_in_call");
  Bytes all;
  for (uint32_t i = 0; i < n; i++) {
    Bytes d = S->RandBytes(i % 50 == 9 ? 0 : 1 + i % 13);
    Res r = l.from->Protect(d);
    if (!r.ok) S->Fail("protect-failed", "protecting failed although nothing was wrong");
    Bytes out = r.Data();
    if (out.size() != d.size() + tlsref::kOverhead) S->Fail("size", "a small write produced a record of the wrong size");
    all.insert(all.end(), out.begin(), out.end());
    l.written.insert(l.written.end(), d.begin(), d.end());
  }
  S->Step("flood", {(uint64_t)l.id});
  Link* lp = &l;
  l.last_at = std::max(S->now + 100, l.last_at);
  S->After(l.last_at - S->now, [lp, all] {
    lp->wire.insert(lp->wire.end(), all.begin(), all.end());
    TryRead(*lp);
  });
}
// The application hands over whole records only, in any grouping; it may be slow.
void TryRead(Link& l) {
  if (S->Chance(1, 4) && !l.want_read) {
    S->Fault("reader.slow");
    l.want_read = true;
    Link* lp = &l;
    S->After(1 + S->Pick(200000), [lp] {
      lp->want_read = false;
      TryRead(*lp);
    });
    return;
  }
  if (l.want_read) return;
  for (;;) {
    std::vector<size_t> ends;
    size_t p = 0;
    while (l.wire.size() - p >= 5) {
      size_t n = 5 + ((size_t)l.wire[p + 3] << 8) + l.wire[p + 4];
      if (l.wire.size() - p < n) break;
      p += n;
      ends.push_back(p);
    }
    if (ends.empty()) return;
    size_t k = l.to->cr ? 1 : ends.size() > 100 && S->Chance(1, 2) ? ends.size() : 1 + S->Pick((uint32_t)ends.size());
    Bytes b(l.wire.begin(), l.wire.begin() + ends[k - 1]);
    l.wire.erase(l.wire.begin(), l.wire.begin() + ends[k - 1]);
    Res r = l.to->Unprotect(b, k);
    S->Step("read", {(uint64_t)l.id, k, r.ok});
    if (!r.ok) S->Fail("good-record-rejected", "unprotecting whole untouched records failed");
    Bytes d = r.Data();
    S->EvBytes("data", d.data(), d.size());
    l.read.insert(l.read.end(), d.begin(), d.end());
    if (l.read.size() > l.written.size() || !std::equal(l.read.begin(), l.read.end(), l.written.begin()))
      S->Fail("wrong-data", "the bytes read are not a prefix of the bytes written");
  }
}
void PairWorld() {
  ForgetTickets();
  FakeFactory::live = 0;
  S->check_nonces = true;
  int npairs = S->Weighted({3, 1}) ? 2 : 1;
  {
    std::vector<std::unique_ptr<Sut>> suts;
    std::vector<std::unique_ptr<Link>> links;
    for (int i = 0; i < npairs; i++) {
      Config a, b;
      a.suite = S->Pick(3);
      size_t sl = tlsref::GetSuite(a.suite).secretlen;
      a.in_secret = S->RandBytes(sl);
      a.out_secret = S->RandBytes(sl);
      if (S->Chance(1, 2)) {
        a.in_seq = S->Pick(70000);
        a.out_seq = S->Pick(70000);
      }
      b = a;
      std::swap(b.in_secret, b.out_secret);
      std::swap(b.in_seq, b.out_seq);
      a.crypter = S->Chance(1, 8);
      b.crypter = S->Chance(1, 8);
      Sut *x = new Sut, *y = new Sut;
      suts.emplace_back(x);
      suts.emplace_back(y);
      if (!x->Create(a) || !y->Create(b)) S->Fail("create", "creating a connection failed although nothing was wrong");
      links.emplace_back(new Link{x, y, i * 2});
      links.emplace_back(new Link{y, x, i * 2 + 1});
      S->Step("pair", {(uint64_t)a.suite, a.crypter, b.crypter});
    }
    uint32_t writes = 1 + S->Pick(S->Chance(1, 5) ? 40 : 14);
    uint64_t t = 0;
    for (uint32_t i = 0; i < writes; i++) {
      t += S->Pick(20000);
      Link* l = links[S->Pick((uint32_t)links.size())].get();
      S->After(t, [l] { DoWrite(*l); });
    }
    if (S->Chance(1, 60)) {
      Link* l = links[S->Pick((uint32_t)links.size())].get();
      S->After(S->Pick(20000), [l] { Flood(*l); });
    }
    if (!S->RunLoop(100000)) S->Fail("liveness", "the network did not come to rest");
    for (auto& l : links) {
      if (l->read != l->written) S->Fail("liveness", "after the network delivered everything, not everything written was read");
      if (!l->wire.empty()) S->Fail("liveness", "bytes are left over after everything was delivered");
      if (!l->written.empty()) S->nontrivial = true;
    }
    for (auto& s : suts) s->Destroy();
  }
  if (FakeFactory::live != 0) S->Fail("memory-leak", "a channel factory handed to a connection was not destroyed with it");
}
sim::Reg rp("C01", PairWorld);
#endif
}  // namespace
