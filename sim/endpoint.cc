#include "endpoint.h"
#ifdef SIM_SCHED
#include "sched.h"
#endif

namespace ep {
#ifdef SIM_SCHED
static TicketWorld* g_tickets[16];
TicketWorld*& CurTickets() { return g_tickets[sched::Self()]; }
#else
static TicketWorld* g_tickets[1];
TicketWorld*& CurTickets() { return g_tickets[0]; }
#endif
void ForgetTickets() { memset(g_tickets, 0, sizeof(g_tickets)); }
int FakeFactory::live = 0;

// An error message reaches the application.
static void Say(const absl::Status& st) {
  flt::HarnessScope h;
  if (vault::on && !st.ok()) vault::Message(std::string(st.message()), "an error message");
}
static void Say(const S2ACrypter::S2ACrypterStatus& st) {
  flt::HarnessScope h;
  if (vault::on) vault::Message(st.GetErrorMessage(), "an error message");
}
bool Sut::UpdateOut() {
  absl::Status st;
  {
    flt::LibScope l;
    st = cr->UpdateOutboundKey();
  }
  Say(st);
  return st.ok();
}

static bool WaitOk() {
  flt::HarnessScope h;
  if (CurTickets()) CurTickets()->waits++;
  return true;
}
static bool WaitFail() {
  flt::HarnessScope h;
  if (CurTickets()) CurTickets()->waits++;
  return false;
}
s2a::s2a_ticket_sender::WaitOnTicketSender CaptureTickets(s2a::s2a_ticket_sender::TicketSenderOptions& o) {
  flt::HarnessScope h;
  if (!CurTickets()) return nullptr;
  TicketBatch b;
  b.url = o.handshaker_service_url;
  b.id = o.connection_id;
  b.identity = o.local_identity.GetIdentityString();
  b.identity_type = (int)o.local_identity.GetIdentityType();
  b.factory = o.channel_factory.get();
  if (o.tickets)
    for (auto& t : *o.tickets) b.tickets.push_back(t ? Bytes(t->begin(), t->end()) : Bytes());
  S->Step("tickets-to-s2a", {b.tickets.size()});
  CurTickets()->batches.push_back(b);
  if (CurTickets()->inspect) CurTickets()->inspect(o);
  switch (CurTickets()->wait_mode) {
    case 0: return nullptr;
    case 1: return WaitOk;
    default: return WaitFail;
  }
}

bool Sut::Create(const Config& c) {
  cfg = c;
  auto logger = [this](const std::string& m) {
    flt::HarnessScope h;
    logs++;
    vault::Message(m, "a log message");
  };
  std::unique_ptr<FakeFactory> f(new FakeFactory);
  factory = f.get();
  std::unique_ptr<s2a::s2a_channel::S2AChannelFactoryInterface::S2AChannelOptionsInterface> co(
      new s2a::s2a_channel::S2AChannelFactoryInterface::S2AChannelOptionsInterface);
  if (c.crypter) {
    flt::LibScope l;
    auto r = S2ACrypter::Create(S2AOptions::TlsVersion::TLS1_3, ToSuite(c.suite), c.conn_id, c.url, c.identity, c.in_secret,
                                c.out_secret, c.in_seq, c.out_seq, CaptureTickets, std::move(f), std::move(co), logger);
    if (r.index() == 1) cr = std::move(absl::get<1>(r));
    else Say(absl::get<0>(r));
  } else {
    S2AFrameProtector::S2AFrameProtectorOptions o = {S2AOptions::TlsVersion::TLS1_3,
                                                     ToSuite(c.suite),
                                                     c.in_secret,
                                                     c.out_secret,
                                                     c.in_seq,
                                                     c.out_seq,
                                                     cfg.url,
                                                     cfg.identity,
                                                     c.conn_id,
                                                     std::move(f),
                                                     std::move(co),
                                                     [this](size_t n) { return ledger.Alloc(n); },
                                                     [this](Iovec v) { ledger.Free(v); },
                                                     logger};
    flt::LibScope l;
    auto r = S2AFrameProtector::Create(o);
    if (r.ok()) fp = std::move(*r);
    else Say(r.status());
  }
  return alive();
}

size_t Sut::Promised(size_t n) const {
  if (fp) return fp->NumberBytesToProtect(n);
  return n + cr->RecordOverhead();
}

void Sut::After(const char* what) {
  if (S->failed) throw sim::StopRun();
  if (ledger.HeldByLibrary())
    S->Fail("buffer-leak", std::string(what) + " returned while a buffer from the allocator was neither returned nor released");
}

Res Sut::ProtectAs(const Bytes& data, S2ACrypter::RecordType type) {
  Res r;
  Pieces pi;
  pi.Make(data);
  size_t need = data.size() + cr->RecordOverhead();
  uint32_t extra = S->Weighted({6, 1}) ? 1 + S->Pick(40) : 0;
  size_t lack = ledger.Lack(need);
  if (lack) extra = 0;
  std::unique_ptr<std::vector<uint8_t>> out(new std::vector<uint8_t>(need + extra - lack, kFill));
  out->shrink_to_fit();
  s2a::record_protocol::S2ACrypter::S2ACrypterStatus st = [&] {
    flt::LibScope l;
    return cr->Protect(type, pi.v, {out->data(), out->size()});
  }();
  if (!pi.Intact()) S->Fail("input-modified", "protect modified its input");
  r.ok = st.GetCode() == S2ACrypter::S2ACrypterStatusCode::OK;
  r.code = (int)st.GetCode();
  Say(st);
  if (!r.ok) return r;
  if (st.GetBytesWritten() > out->size()) S->Fail("size", "protect claims to have written more bytes than the buffer holds");
  r.parts.push_back(Bytes(out->begin(), out->begin() + st.GetBytesWritten()));
  return r;
}

Res Sut::Protect(const Bytes& data) {
  Res r;
  Pieces in;
  in.Make(data);
  ledger.released.clear();
  if (cr) {
    // One call per record, as the frame protector does.
    size_t p = 0;
    r.ok = true;
    do {
      size_t n = std::min(data.size() - p, (size_t)tlsref::kMaxPlain);
      Bytes part(data.begin() + p, data.begin() + p + n);
      Res one = ProtectAs(part, S2ACrypter::RecordType::APPLICATION_DATA);
      if (!one.ok) {
        r.ok = false;
        r.parts.clear();
        r.code = one.code;
        break;
      }
      r.parts.push_back(one.parts[0]);
      p += n;
    } while (p < data.size());
    After("Protect");
    return r;
  }
  if (S->Chance(1, 2)) {
    // Caller-supplied buffer.
    size_t need = fp->NumberBytesToProtect(in.v);
    size_t extra = S->Weighted({6, 1}) ? 1 + S->Pick(40) : 0;
    size_t lack = ledger.Lack(need);
    size_t room = lack ? need - lack : need + extra;
    uint8_t* buf = (uint8_t*)malloc(room);
    memset(buf, kFill, room);
    Iovec out = {buf, room};
    absl::Status st;
    {
      flt::LibScope l;
      st = fp->Protect(in.v, out);
    }
    r.ok = st.ok();
    r.code = (int)st.code();
    Say(st);
    if (r.ok && lack) S->Note("size", "Protect succeeded although the caller's buffer is too small");
    if (r.ok && !S->failed) r.parts.push_back(Bytes(buf, buf + need));
    if (!S->failed) free(buf);
  } else {
    S2AFrameProtector::Result res;
    {
      flt::LibScope l;
      res = fp->Protect(in.v);
    }
    r.ok = res.status.ok();
    r.code = (int)res.status.code();
    Say(res.status);
    if (!r.ok && !res.bytes.empty()) S->Fail("data-with-error", "Protect returned buffers together with an error");
    for (auto& b : res.bytes) {
      auto it = ledger.bufs.find(b.iov_base);
      if (it == ledger.bufs.end()) S->Fail("bad-buffer", "Protect returned a buffer that did not come from the allocator or was released");
      if (b.iov_len > it->second.len) S->Fail("bad-buffer", "Protect returned more bytes than it allocated");
      r.parts.push_back(Bytes((uint8_t*)b.iov_base, (uint8_t*)b.iov_base + b.iov_len));
      it->second.state = 2;
    }
    for (auto& b : res.bytes) ledger.CallerFree(b.iov_base);
  }
  if (!S->failed && !in.Intact()) S->Fail("input-modified", "protect modified its input");
  After("Protect");
  return r;
}

Res Sut::Unprotect(const Bytes& bytes, size_t nrec, bool odd) {
  Res r;
  ledger.released.clear();
  bool single = cr || (nrec == 1 ? S->Chance(1, 3) : odd && S->Chance(1, 8));
  r.single = single;
  if (cr) {
    Bytes hdr(bytes.begin(), bytes.begin() + std::min<size_t>(5, bytes.size()));
    Bytes pay(bytes.begin() + hdr.size(), bytes.end());
    Pieces ph, pp;
    ph.orig = hdr;
    ph.Add(hdr.data(), hdr.size());
    pp.Make(pay);
    size_t need = pay.size() > 16 ? pay.size() - 16 : 0;
    size_t room = pay.size();
    switch (S->Weighted({5, 3, 1})) {
      case 1: room = need; break;
      case 2: room = pay.size() + S->Pick(30); break;
    }
    if (size_t lack = ledger.Lack(need)) room = need - lack;
    uint8_t* buf = (uint8_t*)malloc(room);
    memset(buf, kFill, room);
    auto st = [&] {
      flt::LibScope l;
      return cr->Unprotect(ph.v[0], pp.v, {buf, room});
    }();
    r.ok = st.GetCode() == S2ACrypter::S2ACrypterStatusCode::OK;
    r.code = (int)st.GetCode();
    Say(st);
    size_t n = st.GetBytesWritten();
    if (!r.ok && n != 0) S->Note("data-with-error", "Unprotect reported an error together with a byte count");
    if (r.ok && n > room) S->Note("size", "Unprotect claims more bytes than the buffer holds");
    if (!S->failed && r.ok) r.parts.push_back(Bytes(buf, buf + n));
    r.leftover = !OnlyFill(buf, room);
    r.callerbuf.assign(buf, buf + room);
    free(buf);
    if (!ph.Intact() || !pp.Intact()) S->Fail("input-modified", "unprotect modified its input");
    After("Unprotect");
    return r;
  }
  Pieces in;
  in.Make(bytes);
  if (single) {
    size_t room = fp->NumberBytesToUnprotect(in.v);
    if (S->Weighted({6, 1})) room += S->Pick(30);
    size_t need = bytes.size() > 21 ? bytes.size() - 21 : 0;
    if (size_t lack = ledger.Lack(std::min(need, room))) room = std::min(need, room) - lack;
    uint8_t* buf = (uint8_t*)malloc(room);
    memset(buf, kFill, room);
    Iovec out = {buf, room};
    absl::Status st;
    {
      flt::LibScope l;
      st = fp->Unprotect(in.v, out);
    }
    r.ok = st.ok();
    r.code = (int)st.code();
    Say(st);
    if (out.iov_base != buf) S->Note("bad-buffer", "Unprotect changed the base of the caller's buffer");
    if (out.iov_len > room) S->Note("size", "Unprotect claims more bytes than the buffer holds");
    if (!r.ok && out.iov_len != 0) S->Note("data-with-error", "Unprotect reported an error but left a nonzero data length");
    if (!S->failed && r.ok) r.parts.push_back(Bytes(buf, buf + out.iov_len));
    r.leftover = !OnlyFill(buf, room);
    r.callerbuf.assign(buf, buf + room);
    if (!S->failed) free(buf);
  } else {
    S2AFrameProtector::Result res;
    {
      flt::LibScope l;
      res = fp->Unprotect(in.v);
    }
    r.ok = res.status.ok();
    r.code = (int)res.status.code();
    Say(res.status);
    if (!r.ok && !res.bytes.empty()) S->Fail("data-with-error", "Unprotect returned data together with an error");
    for (auto& b : res.bytes) {
      if (b.iov_base == nullptr && b.iov_len == 0) {
        r.parts.push_back(Bytes());
        continue;
      }
      auto it = ledger.bufs.find(b.iov_base);
      if (it == ledger.bufs.end()) S->Fail("bad-buffer", "Unprotect returned a buffer that did not come from the allocator or was released");
      if (b.iov_len > it->second.len) S->Fail("bad-buffer", "Unprotect returned more bytes than it allocated");
      if (it->second.state == 2) S->Fail("bad-buffer", "Unprotect returned the same buffer twice");
      r.parts.push_back(Bytes((uint8_t*)b.iov_base, (uint8_t*)b.iov_base + b.iov_len));
      it->second.state = 2;
    }
    for (auto& b : res.bytes) ledger.CallerFree(b.iov_base);
  }
  if (!S->failed && !in.Intact()) S->Fail("input-modified", "unprotect modified its input");
  After("Unprotect");
  return r;
}
}  // namespace ep

#ifndef SIM_SCHED  // w_sched.cc has it there
// Link-time seam: the frame protector's ticket sender.
extern "C" s2a::s2a_ticket_sender::WaitOnTicketSender
__wrap__ZN3s2a17s2a_ticket_sender16SendTicketsToS2AERNS0_19TicketSenderOptionsE(s2a::s2a_ticket_sender::TicketSenderOptions& o) {
  return ep::CaptureTickets(o);
}
#endif
