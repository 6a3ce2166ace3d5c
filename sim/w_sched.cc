// Worlds with simulated threads: concurrent use of connections (C08, C03), of
// handshake sessions (C20) and of token managers (C19).
#include <memory>

#include "absl/types/variant.h"
#include "include/access_token_manager_factory.h"
#include "include/s2a_context.h"
#include "include/s2a_frame_protector.h"
#include "include/s2a_options.h"
#include "include/s2a_proxy.h"
#include "endpoint.h"
#include "pb.h"
#include "runtime.h"
#include "sched.h"
#include "src/record_protocol/s2a_crypter.h"
#include "src/record_protocol/s2a_ticket_sender.h"
#include "tlsref.h"

using namespace sim;
using s2a::aead_crypter::Iovec;
using s2a::frame_protector::S2AFrameProtector;
using s2a::record_protocol::S2ACrypter;
using s2a::s2a_context::S2AContext;
using s2a::s2a_options::S2AOptions;
using s2a::s2a_proxy::S2AProxy;
using s2a::s2a_ticket_sender::TicketSenderOptions;
using s2a::s2a_ticket_sender::WaitOnTicketSender;
using tlsref::Dir;
using tlsref::RxModel;
typedef S2AOptions::Identity Identity;

namespace {
uint64_t g_clock;  // orders call starts and ends
uint64_t Tick() { return ++g_clock; }

S2AOptions::Ciphersuite ToSuite(int id) {
  return id == 0   ? S2AOptions::Ciphersuite::AES_128_GCM_SHA256
         : id == 1 ? S2AOptions::Ciphersuite::AES_256_GCM_SHA384
                   : S2AOptions::Ciphersuite::CHACHA20_POLY1305_SHA256;
}

// Application memory, checked like the library's own heap.
struct AppBuf {
  char* p = nullptr;
  size_t n = 0;
  AppBuf() {}
  explicit AppBuf(size_t k) : p(sched::CheckedAlloc(k ? k : 1)), n(k) { memset(p, 0xA5, k); }
  explicit AppBuf(const Bytes& b) : AppBuf(b.size()) {
    if (n) memcpy(p, b.data(), n);
  }
  AppBuf(AppBuf&& o) : p(o.p), n(o.n) { o.p = nullptr; }
  AppBuf(const AppBuf&) = delete;
  ~AppBuf() {
    if (p) sched::CheckedFree(p);
  }
  Bytes Copy(size_t k) const { return Bytes(p, p + k); }
};
struct AppPieces {
  std::vector<AppBuf> own;
  std::vector<Iovec> v;
  // |cuts| are drawn beforehand so that layouts do not depend on the schedule.
  AppPieces(const Bytes& d, uint32_t cut1, uint32_t cut2) {
    size_t a = cut1 ? cut1 % (d.size() + 1) : d.size(), b = cut2 ? cut2 % (d.size() + 1) : d.size();
    if (a > b) std::swap(a, b);
    Add(d, 0, a);
    if (b > a) Add(d, a, b);
    if (d.size() > b) Add(d, b, d.size());
  }
  void Add(const Bytes& d, size_t a, size_t b) {
    own.emplace_back(Bytes(d.begin() + a, d.begin() + b));
    v.push_back({own.back().p, b - a});
  }
};

// ---- a connection used by several threads ------------------------------------------
struct Conn;
std::vector<Conn*> g_conns;

struct Write {
  uint64_t t0 = 0, t1 = 0;
  Bytes data;
  int type = 23;
  bool ok = false, own_fault = false;
  std::vector<Bytes> recs;
  int lo = 0, hi = 0;       // key generations possible at this time
  bool must_fail = false;   // a failed key update had finished before
  std::vector<std::pair<int, uint64_t>> pos;
};
struct Delivery {
  Bytes bytes;
  size_t nrec = 0;
  bool ok = true;
  Bytes data;
  uint32_t cut1 = 0, cut2 = 0;
  bool single = false;
  const char* why = "";
};
struct Conn {
  int id = 0;
  int suite = 0;
  bool crypter = false;
  Bytes in_secret, out_secret;
  uint64_t in_seq = 0, out_seq = 0, conn_id = 0;
  std::string url, ident;
  int ident_kind = 0;
  Identity identity = Identity::GetEmptyIdentity();
  std::unique_ptr<S2AFrameProtector> fp;
  std::unique_ptr<S2ACrypter> cr;
  RxModel rx;
  std::vector<Delivery> script;
  std::vector<std::unique_ptr<Write>> writes;
  int upd_done = 0, upd_started = 0;
  bool upd_failed = false;
  std::map<void*, std::pair<size_t, int>> bufs;  // size, 1 held by the library 2 with the caller
  std::vector<std::vector<Bytes>> batches;
  int waits = 0, wait_mode = 0;
  bool reader_fault = false;
  bool alloc_fails = false;  // allocator may fail once
  int alloc_fail_at = -1, alloc_fail_thread = 0;
  int threads = 0;  // still using the connection

  Iovec Alloc(size_t n) {
    flt::HarnessScope h;
    sched::Point("allocator");
    if (alloc_fail_at == 0) {
      alloc_fail_at = -1;
      alloc_fail_thread = sched::Self();
      S->Fault("alloc.null");
      return {nullptr, 0};
    }
    if (alloc_fail_at > 0) alloc_fail_at--;
    char* p = sched::CheckedAlloc(n ? n : 1);
    bufs[p] = {n, 1};
    return {p, n};
  }
  void Release(Iovec v) {
    flt::HarnessScope h;
    sched::Point("release");
    if (!v.iov_base) return;
    auto it = bufs.find(v.iov_base);
    if (it == bufs.end() || it->second.second != 1) {
      S->Note("bad-release", "the library released a buffer it does not hold");
      return;
    }
    bufs.erase(it);
    sched::CheckedFree((char*)v.iov_base);
  }
  // The caller received |v| from the library; returns its content and frees it.
  Bytes Receive(Iovec v) {
    auto it = bufs.find(v.iov_base);
    if (it == bufs.end() || it->second.second != 1 || v.iov_len > it->second.first)
      S->Fail("bad-buffer", "a returned buffer is not a live buffer of the allocator");
    Bytes b((char*)v.iov_base, (char*)v.iov_base + v.iov_len);
    bufs.erase(it);
    sched::CheckedFree((char*)v.iov_base);
    return b;
  }
};

bool WaitOk() {
  flt::HarnessScope h;
  sched::Point("ticket wait");
  return true;
}
bool WaitFail() {
  flt::HarnessScope h;
  sched::Point("ticket wait");
  return false;
}
WaitOnTicketSender TakeTickets(TicketSenderOptions& o) {
  flt::HarnessScope h;
  sched::Point("ticket sender");
  Conn* c = nullptr;
  for (Conn* x : g_conns)
    if (x->conn_id == o.connection_id) c = x;
  if (!c) {
    S->Note("tickets", "tickets were handed over under an unknown connection id");
    return nullptr;
  }
  std::vector<Bytes> t;
  if (o.tickets)
    for (auto& x : *o.tickets) t.push_back(x ? Bytes(x->begin(), x->end()) : Bytes());
  if (o.handshaker_service_url != c->url || o.local_identity.GetIdentityString() != c->identity.GetIdentityString() ||
      o.local_identity.GetIdentityType() != c->identity.GetIdentityType())
    S->Note("tickets", "tickets were handed over with another connection's address or identity");
  S->Step("tickets", {(uint64_t)c->id, t.size()});
  c->batches.push_back(t);
  return c->wait_mode == 0 ? nullptr : c->wait_mode == 1 ? WaitOk : WaitFail;
}
}  // namespace
extern "C" WaitOnTicketSender __wrap__ZN3s2a17s2a_ticket_sender16SendTicketsToS2AERNS0_19TicketSenderOptionsE(TicketSenderOptions& o) {
  if (ep::CurTickets()) {  // w_record.cc
    sched::Point("ticket sender");
    return ep::CaptureTickets(o);
  }
  return TakeTickets(o);
}
namespace {

void CreateConn(Conn* c, bool crypter) {
  c->suite = S->Pick(3);
  size_t sl = tlsref::GetSuite(c->suite).secretlen;
  c->in_secret = S->RandBytes(sl);
  c->out_secret = S->RandBytes(sl);
  if (S->Chance(1, 3)) {
    static const uint64_t k[] = {1, 200, 0xff, 0xffff, 0xfffffffeull, 0x7fffffffffffffffull};
    c->in_seq = k[S->Pick(6)];
    c->out_seq = k[S->Pick(6)];
  }
  c->crypter = crypter;
  c->conn_id = ((uint64_t)S->Pick(0x7fffffff) << 20) + 1000 + c->id;
  c->url = "s2a" + std::to_string(c->id);
  c->ident = "me" + std::to_string(c->id);
  c->identity = S->Chance(1, 2) ? Identity::FromHostname(c->ident) : Identity::FromSpiffeId(c->ident);
  c->wait_mode = S->Pick(3);
  c->rx.in.Init(c->suite, c->in_secret, c->in_seq);
  auto logger = [](const std::string&) {
    flt::HarnessScope h;
    sched::Point("logger");
  };
  S->Step("connect", {(uint64_t)c->id, (uint64_t)c->suite, crypter});
  if (crypter) {
    flt::LibScope l;
    auto r = S2ACrypter::Create(S2AOptions::TlsVersion::TLS1_3, ToSuite(c->suite), c->conn_id, c->url, c->identity, c->in_secret,
                                c->out_secret, c->in_seq, c->out_seq, TakeTickets, nullptr, nullptr, logger);
    if (r.index() == 1) c->cr = std::move(absl::get<1>(r));
  } else {
    S2AFrameProtector::S2AFrameProtectorOptions o = {S2AOptions::TlsVersion::TLS1_3,
                                                     ToSuite(c->suite),
                                                     c->in_secret,
                                                     c->out_secret,
                                                     c->in_seq,
                                                     c->out_seq,
                                                     c->url,
                                                     c->identity,
                                                     c->conn_id,
                                                     nullptr,
                                                     nullptr,
                                                     [c](size_t n) { return c->Alloc(n); },
                                                     [c](Iovec v) { c->Release(v); },
                                                     logger};
    flt::LibScope l;
    auto r = S2AFrameProtector::Create(o);
    if (r.ok()) c->fp = std::move(*r);
  }
  S->Check(c->fp || c->cr, "create", "creating a connection failed");
}

// What the peer sends, with what the application must see.
void MakeScript(Conn* c) {
  Dir peer;
  peer.Init(c->suite, c->in_secret, c->in_seq);
  std::vector<std::pair<Bytes, RxModel::Exp>> recs;
  Bytes pend;  // handshake bytes not yet sent
  auto add = [&](const Bytes& r) { recs.push_back({r, c->rx.Feed(r)}); };
  auto flush_hs = [&](bool all) {
    while (!pend.empty()) {
      size_t n = S->Chance(1, 2) ? pend.size() : 1 + S->Pick(pend.size());
      add(peer.Seal(22, Bytes(pend.begin(), pend.begin() + n), S->Chance(1, 6) ? S->Pick(20) : 0));
      pend.erase(pend.begin(), pend.begin() + n);
      if (!all) break;
    }
  };
  int n = S->Pick(6), ended = 0;
  for (int i = 0; i < n && !ended; i++) {
    switch (S->Weighted({6, 4, 4, 1})) {
      case 0: {
        flush_hs(true);
        size_t k = S->Weighted({6, 2, 1}) == 0 ? 1 + S->Pick(60) : S->Pick(1200);
        add(peer.Seal(23, S->RandBytes(k), S->Chance(1, 6) ? S->Pick(30) : 0));
        break;
      }
      case 1: {
        int t = 1 + S->Pick(3);
        for (int k = 0; k < t; k++) {
          size_t len = 1 + S->Pick(40);
          Bytes m = {4, 0, 0, (uint8_t)len}, b = S->RandBytes(len);
          m.insert(m.end(), b.begin(), b.end());
          pend.insert(pend.end(), m.begin(), m.end());
        }
        flush_hs(S->Chance(2, 3));
        break;
      }
      case 2: {
        Bytes m = {24, 0, 0, 1, (uint8_t)S->Pick(2)};
        pend.insert(pend.end(), m.begin(), m.end());
        flush_hs(true);
        peer.Update();
        S->Probe("inbound_key_update");
        break;
      }
      default:
        flush_hs(true);
        ended = 1 + S->Pick(3);
    }
  }
  flush_hs(true);
  if (ended == 1) {  // close, then more
    add(peer.Seal(21, {1, 0}, 0));
    if (S->Chance(1, 2)) add(peer.Seal(23, {1, 2, 3}, 0));
  } else if (ended == 2) {
    add(peer.Seal(21, {2, 40}, 0));
  } else if (ended == 3) {
    Bytes r = peer.Seal(23, S->RandBytes(20), 0);
    r[5 + S->Pick(r.size() - 5)] ^= 1 << S->Pick(8);
    recs.push_back({r, c->rx.Feed(r)});
    S->Fault("net.tampered");
  }
  for (size_t i = 0; i < recs.size();) {
    Delivery d;
    size_t k = c->crypter ? 1 : 1 + S->Pick(3);
    d.ok = true;
    for (; k > 0 && i < recs.size(); k--, i++) {
      d.bytes.insert(d.bytes.end(), recs[i].first.begin(), recs[i].first.end());
      d.nrec++;
      d.data.insert(d.data.end(), recs[i].second.data.begin(), recs[i].second.data.end());
      if (!recs[i].second.ok) {
        d.ok = false;
        d.why = recs[i].second.why;
        d.data.clear();
        i++;
        break;
      }
    }
    d.cut1 = S->Chance(1, 3) ? 1 + S->Pick(2000) : 0;
    d.cut2 = S->Chance(1, 4) ? 1 + S->Pick(2000) : 0;
    d.single = d.nrec == 1 && S->Chance(1, 3);
    c->script.push_back(std::move(d));
  }
}

void Reader(Conn* c) {
  for (size_t i = 0; i < c->script.size(); i++) {
    const Delivery& d = c->script[i];
    sched::Point("deliver");
    bool ok = false;
    Bytes got;
    uint64_t fired = flt::FiredCount(sched::Self());
    if (c->crypter) {
      AppPieces hdr(Bytes(d.bytes.begin(), d.bytes.begin() + 5), 0, 0), pay(Bytes(d.bytes.begin() + 5, d.bytes.end()), d.cut1, d.cut2);
      AppBuf out(d.bytes.size());
      size_t n = 0;
      {
        flt::LibScope l;
        auto st = c->cr->Unprotect(hdr.v[0], pay.v, {out.p, out.n});
        ok = st.GetCode() == S2ACrypter::S2ACrypterStatusCode::OK;
        n = st.GetBytesWritten();
      }
      if (ok) {
        S->Check(n <= out.n, "size", "more bytes reported than the buffer holds");
        got = out.Copy(n);
      }
    } else {
      AppPieces in(d.bytes, d.cut1, d.cut2);
      if (d.single) {
        AppBuf out(d.bytes.size());
        Iovec o = {out.p, out.n};
        {
          flt::LibScope l;
          ok = c->fp->Unprotect(in.v, o).ok();
        }
        if (ok) {
          S->Check(o.iov_len <= out.n, "size", "more bytes reported than the buffer holds");
          got = out.Copy(o.iov_len);
        }
      } else {
        std::vector<Iovec> res;
        {
          flt::LibScope l;
          auto r = c->fp->Unprotect(in.v);
          ok = r.status.ok();
          res = r.bytes;
        }
        for (auto& v : res) {
          Bytes b = c->Receive(v);
          got.insert(got.end(), b.begin(), b.end());
        }
        S->Check(ok || got.empty(), "data-with-error", "data was returned together with an error");
      }
    }
    S->Step("read", {(uint64_t)c->id, i, ok, got.size()});
    bool fault = flt::FiredCount(sched::Self()) != fired || c->alloc_fail_thread == sched::Self();
    if (ok) {
      S->Check(d.ok, "bad-accepted", std::string("reading reported success although: ") + d.why);
      S->Check(got == d.data, "wrong-data", "the data read is not what the peer sent");
    } else if (d.ok) {
      S->Check(fault, "read-failed", "a correct record was rejected");
    }
    if (fault) {
      c->reader_fault = true;
      return;
    }
  }
}

void Writer(Conn* c, std::vector<Write*> ws, std::vector<uint32_t> cuts) {
  for (size_t i = 0; i < ws.size(); i++) {
    Write& w = *ws[i];
    sched::Point("write");
    AppPieces in(w.data, cuts[i * 2], cuts[i * 2 + 1]);
    uint64_t fired = flt::FiredCount(sched::Self());
    w.must_fail = c->upd_failed;
    w.lo = c->upd_done;
    w.t0 = Tick();
    Bytes out;
    if (c->crypter) {
      AppBuf rec(w.data.size() + 22);
      size_t n = 0;
      {
        flt::LibScope l;
        auto st = c->cr->Protect(w.type == 23   ? S2ACrypter::RecordType::APPLICATION_DATA
                                 : w.type == 22 ? S2ACrypter::RecordType::HANDSHAKE
                                                : S2ACrypter::RecordType::ALERT,
                                 in.v, {rec.p, rec.n});
        w.ok = st.GetCode() == S2ACrypter::S2ACrypterStatusCode::OK;
        n = st.GetBytesWritten();
      }
      if (w.ok) {
        S->Check(n == rec.n, "size", "a record has an unexpected size");
        out = rec.Copy(n);
      }
    } else if (cuts[i * 2] % 2) {
      size_t need;
      {
        flt::LibScope l;
        need = c->fp->NumberBytesToProtect(in.v);
      }
      AppBuf rec(need);
      Iovec o = {rec.p, rec.n};
      {
        flt::LibScope l;
        w.ok = c->fp->Protect(in.v, o).ok();
      }
      if (w.ok) out = rec.Copy(rec.n);
    } else {
      std::vector<Iovec> res;
      {
        flt::LibScope l;
        auto r = c->fp->Protect(in.v);
        w.ok = r.status.ok();
        res = r.bytes;
      }
      for (auto& v : res) {
        Bytes b = c->Receive(v);
        out.insert(out.end(), b.begin(), b.end());
      }
      S->Check(w.ok || out.empty(), "data-with-error", "bytes were returned together with an error");
    }
    w.t1 = Tick();
    w.hi = c->upd_started;
    w.own_fault = flt::FiredCount(sched::Self()) != fired || c->alloc_fail_thread == sched::Self();
    S->Step("written", {(uint64_t)c->id, (uint64_t)sched::Self(), w.ok, w.data.size()});
    S->EvBytes("records", out.data(), out.size());
    if (w.ok) {
      S->Check(!w.must_fail, "stale-key", "a write succeeded after an outbound key update had failed");
      S->Check(tlsref::SplitRecords(out, &w.recs), "bad-record", "the bytes produced by a write are not whole records");
      size_t want = w.data.empty() ? 1 : (w.data.size() + 16383) / 16384;
      S->Check(w.recs.size() == want, "bad-record", "a write produced an unexpected number of records");
    } else {
      // A key update that fails part-way disables the direction.
      S->Check(w.own_fault || c->upd_started > c->upd_done || c->upd_failed, "write-failed", "a write failed although nothing was wrong");
    }
  }
}
void Updater(Conn* c, int n) {
  for (int i = 0; i < n; i++) {
    sched::Point("key update");
    uint64_t fired = flt::FiredCount(sched::Self());
    c->upd_started++;
    bool ok;
    {
      flt::LibScope l;
      ok = c->cr->UpdateOutboundKey().ok();
    }
    S->Step("updated", {(uint64_t)c->id, ok});
    if (ok) {
      S->Check(!c->upd_failed, "stale-key", "a key update succeeded after an earlier one had failed");
      c->upd_done++;
      S->Probe("outbound_key_update");
    } else {
      S->Check(c->upd_failed || flt::FiredCount(sched::Self()) != fired, "update-failed", "a key update failed although nothing was wrong");
      if (!c->upd_failed) c->upd_started--;  // no new generation
      c->upd_failed = true;
      S->Probe("outbound_key_update_failed");
      return;
    }
  }
}
void Querier(Conn* c, int n) {
  for (int i = 0; i < n; i++) {
    sched::Point("query");
    size_t a, b, d;
    if (c->crypter) {
      {
        flt::LibScope l;
        a = c->cr->RecordOverhead();
      }
      S->Check(a == 22, "size", "the record overhead is wrong");
      continue;
    }
    Bytes rec = {23, 3, 3, 0, 40};
    rec.resize(45);
    AppPieces in(rec, 0, 0);
    {
      flt::LibScope l;
      a = c->fp->MaxRecordSize();
      b = c->fp->NumberBytesToProtect(20000);
      d = c->fp->NumberBytesToUnprotect(in.v);
    }
    S->Check(a == 16384 + 22 && b == 20000 + 44, "size", "a size query gave a wrong answer");
    S->Check(d >= 45 - 22 && d <= 45, "size", "the size promised for reading is wrong");
  }
}

// The history of one connection is equivalent to some sequential one.
void Judge(Conn* c) {
  // Locate every record.
  int gens = c->upd_done + 1;
  std::vector<Dir> dirs(gens);
  dirs[0].Init(c->suite, c->out_secret, c->out_seq);
  for (int g = 1; g < gens; g++) {
    dirs[g] = dirs[g - 1];
    dirs[g].Update();
  }
  size_t attempts = 0, good = 0;
  for (auto& w : c->writes) {
    size_t k = w->data.empty() ? 1 : (w->data.size() + 16383) / 16384;
    if (w->ok) good += k;
    else attempts += k;
  }
  std::vector<Write*> order;
  for (auto& w : c->writes)
    if (w->ok) order.push_back(w.get());
  std::sort(order.begin(), order.end(), [](Write* a, Write* b) { return a->t1 < b->t1; });
  std::set<std::pair<int, uint64_t>> used;
  for (Write* w : order) {
    for (size_t r = 0; r < w->recs.size(); r++) {
      const Bytes& rec = w->recs[r];
      bool found = false;
      for (int g = w->lo; g <= w->hi && g < gens && !found; g++) {
        for (uint64_t k = 0; k < good + attempts && !found; k++) {
          std::pair<int, uint64_t> p = {g, dirs[g].seq + k};
          if (used.count(p)) continue;
          Bytes inner;
          if (!dirs[g].OpenAt(rec, p.second, &inner)) continue;
          found = true;
          used.insert(p);
          w->pos.push_back({g, k});
          size_t from = r * 16384, to = std::min(w->data.size(), from + 16384);
          Bytes want(w->data.begin() + from, w->data.begin() + to);
          want.push_back(w->type);
          while (!inner.empty() && inner.back() == 0) inner.pop_back();
          S->Check(inner == want, "wrong-data", "a record does not contain what was written");
        }
      }
      S->Check(found, "bad-record", "a record does not authenticate at any free position of the key generations that were possible when it was written");
      S->Check(rec[0] == 23 && rec[1] == 3 && rec[2] == 3, "bad-record", "a record header is wrong");
    }
  }
  for (int g = 0; g < gens; g++) {
    uint64_t n = 0, max = 0;
    for (auto& p : used)
      if (p.first == g) {
        n++;
        max = std::max(max, p.second - dirs[g].seq + 1);
      }
    S->Check(max - n <= attempts, "gap", "record positions were skipped");
  }
  for (Write* w : order) {
    for (size_t r = 1; r < w->pos.size(); r++)
      S->Check(w->pos[r].first == w->pos[r - 1].first && w->pos[r].second == w->pos[r - 1].second + 1, "interleaved-write",
               "the records of one write are not consecutive");
    for (Write* v : order)
      if (w->t1 < v->t0)
        S->Check(w->pos.back() < v->pos.front(), "order", "a write that had finished before another one started comes after it in the stream");
  }
  if (!c->reader_fault) {
    if (c->rx.batch_due) {
      S->Check(c->batches.size() == 1, "tickets", "the tickets were handed over " + std::to_string(c->batches.size()) + " times");
      S->Check(c->batches[0] == c->rx.tickets, "tickets", "the tickets handed over are not those received");
    } else {
      S->Check(c->batches.size() <= 1, "tickets", "tickets were handed over more than once");
    }
  }
  for (auto& b : c->bufs)
    S->Check(b.second.second != 1, "buffer-leak", "a buffer from the allocator was neither returned nor released");
}

void ConnWorld(bool nonce_profile) {
  S->check_nonces = true;
  g_clock = 0;
  g_conns.clear();
  int nc = nonce_profile ? 1 : 1 + S->Pick(2);
  std::vector<std::unique_ptr<Conn>> conns;
  int budget = 8;  // threads
  for (int i = 0; i < nc; i++) {
    conns.emplace_back(new Conn);
    Conn* c = conns.back().get();
    c->id = i;
    g_conns.push_back(c);
    CreateConn(c, nonce_profile ? !S->Chance(1, 4) : S->Chance(1, 3));
    if (!nonce_profile || S->Chance(1, 3)) MakeScript(c);
  }
  bool fault = S->Chance(1, nonce_profile ? 2 : 5);
  if (!fault && S->Chance(1, 6)) {
    Conn* c = conns[S->Pick(nc)].get();
    if (!c->crypter) c->alloc_fail_at = S->Pick(5);
  }
  for (auto& cp : conns) {
    Conn* c = cp.get();
    int left = budget / (nc - c->id);
    int nthreads = 0;
    if (!c->script.empty()) {
      nthreads++;
      sched::Spawn(c->id ? "reader1" : "reader0", [c] { Reader(c); });
    }
    int nw = 1 + S->Pick(nonce_profile ? 3 : nc == 1 ? 3 : 2);
    bool big = S->Chance(1, 8);
    for (int k = 0; k < nw && nthreads < left - 2; k++) {
      std::vector<Write*> ws;
      std::vector<uint32_t> cuts;
      int n = 1 + S->Pick(3);
      for (int j = 0; j < n; j++) {
        c->writes.emplace_back(new Write);
        Write* w = c->writes.back().get();
        size_t len = S->Weighted({6, 1, 2}) == 0 ? 1 + S->Pick(50) : S->Pick(600);
        if (big && !c->crypter && j == 0) len = 16384 + 1 + S->Pick(40);
        w->data = S->RandBytes(len);
        if (c->crypter && S->Chance(1, 6)) w->type = S->Chance(1, 2) ? 22 : 21;
        ws.push_back(w);
        cuts.push_back(S->Chance(1, 3) ? 1 + S->Pick(2000) : S->Pick(2));
        cuts.push_back(S->Chance(1, 4) ? 1 + S->Pick(2000) : 0);
      }
      static const char* names[] = {"writer0a", "writer0b", "writer0c", "writer1a", "writer1b", "writer1c"};
      nthreads++;
      sched::Spawn(names[c->id * 3 + k], [c, ws, cuts] { Writer(c, ws, cuts); });
    }
    if (c->crypter && (nonce_profile || S->Chance(1, 2))) {
      int n = 1 + S->Pick(3);
      nthreads++;
      sched::Spawn(c->id ? "updater1" : "updater0", [c, n] { Updater(c, n); });
    }
    if (nthreads < left && S->Chance(1, 3)) {
      int n = 1 + S->Pick(4);
      nthreads++;
      sched::Spawn(c->id ? "query1" : "query0", [c, n] { Querier(c, n); });
    }
    budget -= nthreads;
  }
  if (fault) flt::Arm(S->Pick(S->Chance(1, 2) ? 12 : 60), S->Chance(1, 2) ? flt::kFailAfter : flt::kFailBefore);
  sched::Run();
  flt::Disarm();
  for (auto& c : conns) {
    {
      flt::LibScope l;
      c->fp.reset();
      c->cr.reset();
    }
    Judge(c.get());
  }
  g_conns.clear();
}
void W08() { ConnWorld(false); }
void W03() { ConnWorld(true); }

// ---- token managers (C19) ------------------------------------------------------------
struct TokenEnv {
  bool set = false;
  std::string value;
  int creating = 0;   // creations in progress
  bool writing = false;
};
struct Mgr {
  std::unique_ptr<s2a::token_manager::AccessTokenManagerInterface> m;
  bool set = false;
  std::string value;
  bool ready = false;
};
void Ask(Mgr* m, int n, uint32_t seed) {
  for (int i = 0; i < n; i++) {
    sched::Point("ask");
    bool ok, nf;
    std::string v;
    uint32_t k = (seed >> (2 * i)) & 3;
    Identity id = k == 0   ? Identity::FromHostname("h" + std::to_string(seed % 7))
                  : k == 1 ? Identity::FromSpiffeId("s")
                  : k == 2 ? Identity::FromUid("u")
                           : Identity::GetEmptyIdentity();
    {
      flt::LibScope l;
      auto r = k == 3 && (seed & 64) ? m->m->GetDefaultToken() : m->m->GetToken(id);
      ok = r.ok();
      nf = !ok && r.status().code() == absl::StatusCode::kNotFound;
      flt::HarnessScope h;
      if (ok) v = std::string(r->data(), r->size());
    }
    S->Step("token", {(uint64_t)sched::Self(), k, ok});
    if (m->set) {
      S->Check(ok, "token", "a manager created while the token was set reports an error");
      S->Check(v == m->value, "token", "a manager returns another token than at its creation");
    } else {
      S->Check(!ok, "token", "a manager created while no token was set returns one");
      S->Check(nf, "token", "the error for a missing token is not not-found");
    }
  }
}
void W19() {
  g_clock = 0;
  auto env = std::make_shared<TokenEnv>();
  const std::string name = "S2A_ACCESS_TOKEN";
  auto any_token = [] {
    size_t n = S->Weighted({4, 1, 1, 1}) == 0 ? 1 + S->Pick(12) : S->Pick(5) * 100 + S->Pick(3);
    if (S->Chance(1, 200)) n = 1000 + S->Pick(S->Chance(1, 2) ? 10000 : 120000);
    Bytes b = S->RandBytes(n);
    std::string s;
    for (uint8_t c : b) s += c ? (char)c : 'x';
    return s;
  };
  auto change = [env, name](bool set, const std::string& v) {
    sched::WaitUntil([env] { return env->creating == 0; });
    env->set = set;
    env->value = v;
    sched::EnvSet(name, set ? &v : nullptr);
    S->Step("env", {set, v.size()});
    S->Fault(set ? "env.changed" : "env.removed");
  };
  auto create = [env](Mgr* m) {
    env->creating++;
    m->set = env->set;
    m->value = env->value;
    {
      flt::LibScope l;
      auto r = s2a::token_manager::BuildAccessTokenManager();
      if (r.ok()) m->m = std::move(*r);
    }
    env->creating--;
    S->Step("manager", {m->set});
    S->Check(m->m != nullptr, "token", "no token manager could be built");
    m->ready = true;
    sched::Publish(m);
  };
  if (S->Chance(1, 2)) sched::EnvSet("OTHER", &name);
  if (S->Chance(2, 3)) {
    std::string t = any_token();
    env->set = true;
    env->value = t;
    sched::EnvSet(name, &t);
  }
  int nm = 1 + S->Pick(3);
  std::vector<std::shared_ptr<Mgr>> mgrs;
  for (int i = 0; i < nm; i++) mgrs.push_back(std::make_shared<Mgr>());
  // Some managers exist from the start, others are created by threads.
  std::vector<bool> early;
  for (auto& m : mgrs) {
    bool e = S->Chance(1, 2);
    if (e) create(m.get());
    early.push_back(e);
  }
  int nt = 1 + S->Pick(4);
  for (int i = 0; i < nm; i++)
    if (!early[i]) {
      Mgr* m = mgrs[i].get();
      int n = S->Pick(3);
      uint32_t seed = S->Pick(0x7fffffff);
      sched::Spawn("creator", [m, n, seed, create] {
        sched::Point("create");
        create(m);
        Ask(m, n, seed);
      });
    }
  for (int i = 0; i < nt; i++) {
    Mgr* m = mgrs[S->Pick(nm)].get();
    int n = 1 + S->Pick(4);
    uint32_t seed = S->Pick(0x7fffffff);
    sched::Spawn("asker", [m, n, seed] {
      sched::WaitUntil([m] { return m->ready; }, m);
      Ask(m, n, seed);
    });
  }
  if (S->Chance(3, 4)) {
    std::vector<std::pair<bool, std::string>> ch;
    int n = 1 + S->Pick(3);
    for (int i = 0; i < n; i++) ch.push_back({S->Chance(2, 3), any_token()});
    sched::Spawn("environment", [ch, change] {
      for (auto& c : ch) change(c.first, c.second);
    });
  }
  sched::Run();
  // After everything: still the values captured at creation.
  sched::EnvClear();
  for (auto& m : mgrs) {
    Ask(m.get(), 1, 3);
    flt::LibScope l;
    m->m.reset();
  }
}

// ---- handshake sessions (C20) -----------------------------------------------------------
typedef std::pair<int, std::string> Id;
Identity MakeIdentity(const Id& i) {
  switch (i.first) {
    case 1: return Identity::FromSpiffeId(i.second);
    case 2: return Identity::FromHostname(i.second);
    case 3: return Identity::FromUid(i.second);
  }
  return Identity::GetEmptyIdentity();
}
Id FromIdentity(const Identity& i) {
  std::string s = i.GetIdentityString();
  switch (i.GetIdentityType()) {
    case S2AOptions::IdentityType::SPIFFE_ID: return {1, s};
    case S2AOptions::IdentityType::HOSTNAME: return {2, s};
    case S2AOptions::IdentityType::UID: return {3, s};
    default: return {0, s};
  }
}
struct Hs;
struct HsTokens : s2a::token_manager::AccessTokenManagerInterface {
  std::set<Id> down;
  bool def_down = false;
  absl::StatusOr<std::string> Give(const std::string& s, bool bad) {
    if (bad) return absl::NotFoundError("no token");
    return std::string(s.data(), s.size());
  }
  absl::StatusOr<std::string> GetDefaultToken() override {
    flt::HarnessScope h;
    sched::Point("token source");
    return Give("default-token", def_down);
  }
  absl::StatusOr<std::string> GetToken(const Identity& i) override {
    flt::HarnessScope h;
    sched::Point("token source");
    Id id = FromIdentity(i);
    return Give("token-of-" + id.second, down.count(id) != 0);
  }
  std::string DebugName() const override { return "sim"; }
};
struct HResult {
  int suite;
  Bytes in_secret, out_secret;
  uint64_t in_seq, out_seq, conn_id;
  std::string proto, local_fp, peer_fp;
  Id peer, local;
  bool resumed;
};
enum OpKind { kSend, kResp, kPoll, kTake, kCtx };
struct Op {
  OpKind kind;
  // input
  std::string bytes;     // to S2A: peer bytes; from S2A: encoded response
  bool null = false;
  bool bad = false;      // response that must be rejected
  std::string out;       // expected relay
  uint64_t consumed = 0;
  bool selects = false;
  int result = -1;       // index of the result carried
  // outcome
  uint64_t t0 = 0, t1 = 0;
  bool ok = false;
  int msg = 0;           // request: 1 start 2 next
  std::map<Id, std::string> tokens;
  bool flag = false;     // poll
  int which = -1;        // result the connection or context belongs to
};
struct Hs {
  int id = 0;
  bool client = true;
  std::set<Id> locals;
  Id sel;
  bool has_tm = true;
  HsTokens* tm = nullptr;
  std::set<Id> down;
  bool def_down = false;
  std::vector<HResult> results;
  std::unique_ptr<S2AProxy> px;
  std::vector<std::shared_ptr<Op>> ops;
  std::string proto;
  std::map<Id, std::string> Tokens(bool selected) const {
    std::map<Id, std::string> t;
    if (!has_tm) return t;
    if (selected && !down.count(sel)) {
      t[sel] = "token-of-" + sel.second;
      return t;
    }
    for (auto& i : locals)
      if (!down.count(i)) t[i] = "token-of-" + i.second;
    if (locals.empty() && !def_down) t[{0, ""}] = "default-token";
    return t;
  }
};
void DoOp(Hs* s, Op* o) {
  o->t0 = Tick();
  switch (o->kind) {
    case kSend: {
      std::unique_ptr<S2AProxy::Buffer> b;
      std::string req;
      {
        flt::LibScope l;
        if (!o->null) b.reset(new S2AProxy::Buffer(o->bytes.begin(), o->bytes.end()));
        auto st = s->px->GetBytesForS2A(std::move(b));
        o->ok = st.status.ok();
        flt::HarnessScope h;
        if (o->ok && !st.buffer) S->Note("no-bytes", "success without a request");
        if (!o->ok && st.buffer && !st.buffer->empty()) S->Note("data-with-error", "bytes were returned together with an error");
        if (o->ok && st.buffer) req.assign(st.buffer->begin(), st.buffer->end());
      }
      o->t1 = Tick();
      if (o->ok) {
        pb::M m(req);
        S->Check(m.ok && m.CountOf(1) + m.CountOf(2) + m.CountOf(3) == 1, "bad-request", "the request for S2A is malformed");
        if (m.Has(3)) {
          o->msg = 2;
          S->Check(pb::M(m.Str(3)).Str(1) == o->bytes, "relay", "a next message does not carry exactly the peer's bytes");
        } else {
          o->msg = 1;
          S->Check(m.Has(s->client ? 1 : 2), "wrong-first-message", "the start message has the wrong role");
          pb::M x(m.Str(s->client ? 1 : 2));
          S->Check(x.Strs(1) == std::vector<std::string>{s->proto}, "relay", "the start message has the wrong protocol");
          if (!s->client) S->Check(x.Str(6) == o->bytes, "relay", "the start message does not carry exactly the peer's bytes");
        }
        for (auto& a : m.Strs(5)) {
          pb::M x(a);
          std::string n;
          int k = x.Has(1) ? pb::IdKind(x.Str(1), &n) : 0;
          bool fresh = o->tokens.insert({{k, k ? n : ""}, x.Str(2)}).second;
          S->Check(fresh, "wrong-tokens", "a token is repeated");
        }
      }
      S->Step("to-s2a", {(uint64_t)s->id, o->ok, (uint64_t)o->msg, o->tokens.size()});
      break;
    }
    case kResp: {
      std::string out;
      size_t consumed;
      {
        flt::LibScope l;
        auto st = s->px->GetBytesForPeer(std::unique_ptr<S2AProxy::Buffer>(new S2AProxy::Buffer(o->bytes.begin(), o->bytes.end())));
        o->ok = st.status.ok();
        consumed = st.bytes_consumed;
        flt::HarnessScope h;
        if (st.buffer) out.assign(st.buffer->begin(), st.buffer->end());
      }
      o->t1 = Tick();
      S->Step("from-s2a", {(uint64_t)s->id, o->ok});
      S->Check(o->ok == !o->bad, o->bad ? "bad-accepted" : "good-rejected", "a response of S2A was treated wrongly");
      S->Check(o->bad ? out.empty() : out == o->out && consumed == o->consumed, "relay", "the bytes for the peer are not those of S2A");
      break;
    }
    case kPoll: {
      {
        flt::LibScope l;
        o->flag = s->px->IsHandshakeFinished();
      }
      o->t1 = Tick();
      S->Step("finished?", {(uint64_t)s->id, o->flag});
      break;
    }
    case kTake: {
      std::unique_ptr<S2AFrameProtector> fp;
      {
        flt::LibScope l;
        auto r = s->px->CreateFrameProtector();
        o->ok = r.ok();
        if (o->ok) fp = std::move(*r);
      }
      o->t1 = Tick();
      S->Step("connection", {(uint64_t)s->id, o->ok});
      if (!o->ok) break;
      S->Check(fp != nullptr, "wrong-connection", "success without a connection");
      // Which result is it? Both directions must agree.
      Bytes pt = {1, 2, 3, 4, 5}, rec;
      AppPieces in(pt, 0, 0);
      {
        flt::LibScope l;
        auto r = fp->Protect(in.v);
        flt::HarnessScope h;
        if (r.status.ok() && r.bytes.size() == 1) rec.assign((uint8_t*)r.bytes[0].iov_base, (uint8_t*)r.bytes[0].iov_base + r.bytes[0].iov_len);
        if (r.status.ok())
          for (auto& b : r.bytes) {
            flt::LibScope l2;
            delete[] (uint8_t*)b.iov_base;
          }
      }
      for (size_t i = 0; i < s->results.size() && o->which < 0; i++) {
        Dir d;
        d.Init(s->results[i].suite, s->results[i].out_secret, s->results[i].out_seq);
        Bytes inner;
        if (d.OpenAt(rec, d.seq, &inner)) o->which = i;
      }
      S->Check(o->which >= 0, "wrong-connection", "the connection does not use the secrets of any result S2A sent");
      Dir p;
      p.Init(s->results[o->which].suite, s->results[o->which].in_secret, s->results[o->which].in_seq);
      AppPieces pin(p.Seal(23, pt, 0), 0, 0);
      Bytes back;
      {
        flt::LibScope l;
        auto r = fp->Unprotect(pin.v);
        flt::HarnessScope h;
        for (auto& b : r.bytes) {
          back.insert(back.end(), (uint8_t*)b.iov_base, (uint8_t*)b.iov_base + b.iov_len);
          flt::LibScope l2;
          delete[] (uint8_t*)b.iov_base;
        }
      }
      S->Check(back == pt, "wrong-connection", "the connection mixes the secrets of different results");
      flt::LibScope l;
      fp.reset();
      break;
    }
    case kCtx: {
      std::unique_ptr<S2AContext> ctx;
      {
        flt::LibScope l;
        auto r = s->px->GetS2AContext();
        o->ok = r.index() == 1;
        if (o->ok) ctx = std::move(absl::get<1>(r));
      }
      o->t1 = Tick();
      S->Step("context", {(uint64_t)s->id, o->ok});
      if (!o->ok) break;
      S->Check(ctx != nullptr, "no-context", "success without a context");
      for (size_t i = 0; i < s->results.size(); i++) {
        const HResult& r = s->results[i];
        if (ctx->LocalCertFingerprint() != r.local_fp) continue;
        o->which = i;
        bool same = ctx->ApplicationProtocol() == r.proto && ctx->PeerCertFingerprint() == r.peer_fp && ctx->Ciphersuite() == ToSuite(r.suite) &&
                    FromIdentity(ctx->PeerIdentity()) == r.peer && FromIdentity(ctx->LocalIdentity()) == r.local &&
                    ctx->IsHandshakeResumed() == r.resumed && ctx->TlsVersion() == S2AOptions::TlsVersion::TLS1_3;
        S->Check(same, "wrong-context", "the context mixes different results");
      }
      S->Check(o->which >= 0, "wrong-context", "the context is not that of any result S2A sent");
      flt::LibScope l;
      ctx.reset();
      break;
    }
  }
}

// Is there a one-after-another order of the calls that explains the outcomes?
struct Lin {
  const Hs& s;
  std::vector<Op*> ops;
  std::set<std::vector<int>> seen;
  explicit Lin(const Hs& h) : s(h) {
    for (auto& o : h.ops)
      if (o->t1) ops.push_back(o.get());
  }
  struct St {
    bool first = true, selected = false, fp_taken = false, ctx_taken = false;
    int result = -1;
  };
  bool Apply(const Op& o, St* st) {
    switch (o.kind) {
      case kSend: {
        bool empty = o.null || o.bytes.empty();
        if (st->first) {
          bool want = s.client ? empty : true;
          if (o.ok != want) return false;
          if (!o.ok) return true;
          if (o.msg != 1) return false;
          st->first = false;
        } else {
          if (o.ok != !empty) return false;
          if (!o.ok) return true;
          if (o.msg != 2) return false;
        }
        return o.tokens == s.Tokens(st->selected);
      }
      case kResp:
        if (o.bad) return true;
        if (o.selects) st->selected = true;
        if (o.result >= 0) st->result = o.result, st->fp_taken = st->ctx_taken = false;
        return true;
      case kPoll: return o.flag == (st->result >= 0);
      case kTake:
      case kCtx: {  // each result gives one connection and one context
        bool& taken = o.kind == kTake ? st->fp_taken : st->ctx_taken;
        bool want = st->result >= 0 && !taken;
        if (o.ok != want) return false;
        if (want) taken = true;
        return !want || o.which == st->result;
      }
    }
    return false;
  }
  bool Search(uint32_t done, St st) {
    if (done == (1u << ops.size()) - 1) return true;
    if (!seen.insert({(int)done, st.first, st.selected, st.fp_taken, st.ctx_taken, st.result}).second) return false;
    uint64_t min_end = ~0ull;
    for (size_t i = 0; i < ops.size(); i++)
      if (!(done >> i & 1)) min_end = std::min(min_end, ops[i]->t1);
    for (size_t i = 0; i < ops.size(); i++) {
      if (done >> i & 1 || ops[i]->t0 > min_end) continue;
      St n = st;
      if (Apply(*ops[i], &n) && Search(done | 1u << i, n)) return true;
    }
    return false;
  }
};

void MakeHs(Hs* s) {
  s->client = S->Chance(1, 2);
  s->proto = "proto" + std::to_string(S->Pick(5));
  int n = s->client ? S->Pick(2) : S->Pick(4);
  for (int i = 0; i < n; i++) s->locals.insert({1 + (int)S->Pick(3), "id" + std::to_string(i)});
  if (!s->locals.empty() && S->Chance(3, 4)) s->sel = *s->locals.begin();
  else s->sel = {2, "other"};
  s->has_tm = S->Chance(4, 5);
  for (auto& i : s->locals)
    if (S->Chance(1, 5)) s->down.insert(i);
  if (S->Chance(1, 5)) s->down.insert(s->sel);
  s->def_down = S->Chance(1, 5);
  std::unique_ptr<S2AOptions> opt(new S2AOptions);
  opt->set_s2a_address("s2a:" + std::to_string(s->id));
  opt->add_supported_ciphersuite(ToSuite(S->Pick(3)));
  for (auto& i : s->locals) {
    if (i.first == 1) opt->add_local_spiffe_id(i.second);
    else if (i.first == 2) opt->add_local_hostname(i.second);
    else opt->add_local_uid(i.second);
  }
  S2AProxy::S2AProxyOptions o;
  o.logger = [](const std::string&) {
    flt::HarnessScope h;
    sched::Point("logger");
  };
  o.is_client = s->client;
  o.application_protocol = s->proto;
  o.target_hostname = "host";
  {
    flt::LibScope l;
    o.options = opt->Copy();
  }
  if (s->has_tm) {
    s->tm = new HsTokens;
    s->tm->down = s->down;
    s->tm->def_down = s->def_down;
    o.token_manager.reset(s->tm);
  }
  {
    flt::LibScope l;
    s->px = S2AProxy::Create(o);
  }
  S->Check(s->px != nullptr, "create", "creating a session failed");
  S->Step("session", {(uint64_t)s->id, s->client, s->locals.size()});
}
std::shared_ptr<Op> MakeResp(Hs* s, bool final) {
  auto o = std::make_shared<Op>();
  o->kind = kResp;
  pb::W w;
  if (S->Chance(1, 3)) {
    o->selects = true;
    w.Str(1, pb::MakeId(s->sel.first, s->sel.second));
  }
  Bytes b = S->RandBytes(S->Pick(40));
  o->out.assign(b.begin(), b.end());
  w.StrZ(2, o->out);
  o->consumed = S->Pick(1000);
  w.IntZ(3, o->consumed);
  if (final) {
    HResult r;
    int k = s->results.size();
    r.suite = S->Pick(3);
    size_t n = r.suite == 1 ? 48 : 32;
    r.in_secret = S->RandBytes(n);
    r.out_secret = S->RandBytes(n);
    r.in_seq = S->Pick(3);
    r.out_seq = S->Pick(3);
    r.conn_id = 7 + s->id;
    r.proto = "p" + std::to_string(k);
    r.local_fp = "local-fp-" + std::to_string(s->id) + "-" + std::to_string(k);
    r.peer_fp = "peer-fp-" + std::to_string(s->id) + "-" + std::to_string(k);
    r.peer = {1 + (int)S->Pick(3), "peer" + std::to_string(k)};
    r.local = {1 + (int)S->Pick(3), "local" + std::to_string(k)};
    r.resumed = S->Chance(1, 2);
    s->results.push_back(r);
    o->result = k;
    pb::W st, x;
    st.IntZ(1, 1).IntZ(2, r.suite).IntZ(3, r.in_seq).IntZ(4, r.out_seq);
    st.Str(5, std::string(r.in_secret.begin(), r.in_secret.end())).Str(6, std::string(r.out_secret.begin(), r.out_secret.end()));
    st.IntZ(9, r.conn_id).IntZ(10, r.resumed);
    x.Str(1, r.proto).Str(2, st.s).Str(4, pb::MakeId(r.peer.first, r.peer.second)).Str(5, pb::MakeId(r.local.first, r.local.second));
    x.Str(6, r.local_fp).Str(7, r.peer_fp);
    w.Str(4, x.s);
    w.Str(5, "");
  } else if (S->Chance(1, 5)) {
    o->bad = true;
    o->selects = false;
    pb::W st;
    st.Int(1, 13).Str(2, "boom");
    pb::W only;
    only.StrZ(2, o->out).Str(5, st.s);
    w = only;
    S->Fault("s2a.error");
  } else {
    w.Str(5, "");
  }
  o->bytes = w.s;
  return o;
}
std::shared_ptr<Op> MakeSend(Hs*) {
  auto o = std::make_shared<Op>();
  o->kind = kSend;
  switch (S->Weighted({2, 1, 6})) {
    case 0: o->null = true; break;
    case 1: break;
    default: {
      Bytes b = S->RandBytes(1 + S->Pick(60));
      o->bytes.assign(b.begin(), b.end());
    }
  }
  return o;
}
void W20() {
  g_clock = 0;
  g_conns.clear();
  S->check_nonces = false;  // several connections may be made from one result
  int ns = 1 + S->Pick(2);
  std::vector<std::unique_ptr<Hs>> hs;
  for (int i = 0; i < ns; i++) {
    hs.emplace_back(new Hs);
    Hs* s = hs.back().get();
    s->id = i;
    MakeHs(s);
    auto feeder = [s](const char* name, std::vector<std::shared_ptr<Op>> list) {
      for (auto& o : list) s->ops.push_back(o);
      sched::Spawn(name, [s, list] {
        for (auto& o : list) {
          sched::Point("call");
          DoOp(s, o.get());
        }
      });
    };
    std::vector<std::shared_ptr<Op>> a, b, c, d;
    int n = 1 + S->Pick(3);
    for (int k = 0; k < n; k++) a.push_back(MakeSend(s));
    if (S->Chance(1, 2)) a[0]->null = s->client, a[0]->bytes = s->client ? "" : a[0]->bytes;
    n = 1 + S->Pick(3);
    int fin = S->Chance(5, 6) ? S->Pick(n) : -1;
    for (int k = 0; k < n; k++) b.push_back(MakeResp(s, k == fin || (fin >= 0 && k > fin && S->Chance(1, 3))));
    feeder(i ? "peer1" : "peer0", a);
    feeder(i ? "s2a1" : "s2a0", b);
    if (ns == 1 && S->Chance(1, 3)) {
      for (int k = 1 + S->Pick(2); k > 0; k--) c.push_back(MakeSend(s));
      feeder("peer-again", c);
    }
    if (ns == 1 && S->Chance(1, 3)) {
      d.push_back(MakeResp(s, S->Chance(1, 3)));
      feeder("s2a-again", d);
    }
    int np = 1 + S->Pick(ns == 1 ? 3 : 2);
    for (int k = 0; k < np; k++) {
      int polls = 1 + S->Pick(3);
      bool blind = S->Chance(1, 3);   // asks for the connection without polling
      if (blind && polls > 2) polls = 2;
      bool want_ctx = k == 0 || S->Chance(1, 3);
      sched::Spawn(k == 0 ? (i ? "app1a" : "app0a") : k == 1 ? (i ? "app1b" : "app0b") : "app0c", [s, polls, blind, want_ctx] {
        auto add = [s](OpKind kind) {
          auto o = std::make_shared<Op>();
          o->kind = kind;
          s->ops.push_back(o);
          DoOp(s, o.get());
          return o;
        };
        bool got = false;
        for (int q = 0; q < polls && !got; q++) {
          sched::Point("poll");
          bool fin = blind || add(kPoll)->flag;
          if (!fin) continue;
          auto t = add(kTake);
          // The first to ask after completion gets them; the search below
          // settles who that was.
          if (want_ctx) {
            auto x = add(kCtx);
            if (x->ok) got = true;
          }
          if (t->ok || !blind) got = true;
        }
      });
    }
  }
  sched::Run();
  for (auto& s : hs) {
    Lin l(*s);
    S->Check(l.ops.size() < 31, "harness", "too many calls");
    S->Check(l.Search(0, Lin::St()), "not-linearizable", "the outcomes of the calls on one session fit no one-after-another order");
    flt::LibScope ls;
    s->px.reset();
  }
}

sim::Reg r08("C08", W08), r03("C03", W03), r19("C19", W19), r20("C20", W20);
}  // namespace
