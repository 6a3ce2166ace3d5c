// One endpoint running the real code, with its buffers, callbacks and S2A
// ticket channel owned by the simulator.
#pragma once
#include <algorithm>
#include <memory>
#include <string>

#include "absl/types/variant.h"
#include "include/s2a_frame_protector.h"
#include "include/s2a_options.h"
#include "runtime.h"
#include "src/record_protocol/s2a_crypter.h"
#include "src/record_protocol/s2a_ticket_sender.h"
#include "tlsref.h"
#include "vault.h"

namespace ep {
using s2a::aead_crypter::Iovec;
using s2a::frame_protector::S2AFrameProtector;
using s2a::record_protocol::S2ACrypter;
using s2a::s2a_options::S2AOptions;
using sim::Bytes;
typedef S2AOptions::Ciphersuite Ciphersuite;

const uint8_t kFill = 0xA5;

inline Ciphersuite ToSuite(int id) {
  return id == 0   ? Ciphersuite::AES_128_GCM_SHA256
         : id == 1 ? Ciphersuite::AES_256_GCM_SHA384
                   : Ciphersuite::CHACHA20_POLY1305_SHA256;
}

// Input laid out in separately allocated, exactly sized pieces.
struct Pieces {
  std::vector<Iovec> v;
  std::vector<uint8_t*> own;
  Bytes orig;
  void Add(const uint8_t* p, size_t n) {
    uint8_t* b = (uint8_t*)malloc(n);
    if (n) memcpy(b, p, n);
    own.push_back(b);
    v.push_back({b, n});
  }
  // style 0: one piece; 1: a few random cuts; 2: many small; 3: cuts plus empty
  // pieces (some with null base).
  void Make(const Bytes& data) {
    orig = data;
    if (data.size() > 64 && S->Chance(1, 60)) return Shred(data);
    uint32_t style = S->Weighted({8, 8, 2, 6, 3});
    if (style == 4) return Aligned(data);
    if (style == 0) {
      Add(data.data(), data.size());
      return;
    }
    size_t p = 0;
    size_t maxp = style == 2 ? 7 : (data.size() < 2 ? 2 : data.size());
    size_t limit = 60;
    while (p < data.size()) {
      if (style == 3 && S->Chance(1, 3)) Empty();
      size_t n;
      if (limit == 0) n = data.size() - p;
      else if (style == 2) n = 1 + S->Pick(maxp);
      else n = S->Chance(1, 3) ? 1 + S->Pick(8) : 1 + S->Pick((uint32_t)maxp);
      if (limit) limit--;
      if (n > data.size() - p) n = data.size() - p;
      Add(data.data() + p, n);
      p += n;
    }
    if (style == 3 && S->Chance(1, 2)) Empty();
  }
  // Cuts exactly at, or one byte off, the places where records, headers, tags
  // and full fragments begin and end.
  void Aligned(const Bytes& data) {
    S->Probe("layout.aligned");
    std::vector<size_t> at;
    size_t q = 0, n = data.size();
    while (n - q >= 5 && data[q] == 23 && data[q + 1] == 3 && data[q + 2] == 3 && at.size() < 3000) {
      size_t l = 5 + ((size_t)data[q + 3] << 8) + data[q + 4];
      for (size_t d : {(size_t)0, (size_t)1, (size_t)3, (size_t)4, (size_t)5, (size_t)6, l - 17, l - 16, l - 15, l - 1}) at.push_back(q + d);
      if (n - q < l) break;
      q += l;
    }
    if (at.empty()) {
      for (q = 0; q < n; q += 16384)
        for (size_t d : {0, 1, 2, 16382, 16383}) at.push_back(q + d);
      for (size_t d : {1, 16, 17}) at.push_back(n - d);
    }
    std::sort(at.begin(), at.end());
    uint64_t x = S->Pick(0x7fffffff);
    uint32_t keep = 1 + S->Pick(4);
    size_t p = 0;
    for (size_t a : at) {
      x = sim::Mix(x);
      if (a <= p || a >= n || x % 5 >= keep) continue;
      Add(data.data() + p, a - p);
      p = a;
    }
    Add(data.data() + p, n - p);
  }
  // Hundreds to thousands of pieces.
  void Shred(const Bytes& data) {
    S->Probe("layout.shredded");
    uint64_t x = S->Pick(0x7fffffff);
    size_t p = 0, left = 300 + S->Pick(3000), most = 1 + S->Pick(S->Chance(1, 3) ? 1 : 8);
    while (p < data.size()) {
      x = sim::Mix(x);
      if (x % 41 == 0) v.push_back({nullptr, 0});
      size_t n = left ? 1 + (x >> 20) % most : data.size() - p;
      if (left) left--;
      n = std::min(n, data.size() - p);
      Add(data.data() + p, n);
      p += n;
    }
  }
  void Empty() {
    S->Probe("layout.empty_piece");
    if (S->Chance(1, 2)) v.push_back({nullptr, 0});
    else Add(nullptr, 0);
  }
  bool Intact() const {
    Bytes b;
    for (auto& i : v) b.insert(b.end(), (uint8_t*)i.iov_base, (uint8_t*)i.iov_base + i.iov_len);
    return b == orig;
  }
  ~Pieces() {
    for (uint8_t* p : own) free(p);
  }
  Pieces() {}
  Pieces(const Pieces&) = delete;
};

// Behind the allocate/release callbacks.
struct Ledger {
  struct Buf {
    size_t len;
    int state;  // 1 held by the library, 2 returned to the caller
  };
  std::map<void*, Buf> bufs;
  int fail_next = -1;  // >=0: that many successful allocations, then failure
  int fail_mode = 0;   // 0 null, 1 short
  uint64_t allocs = 0, frees = 0;
  bool failed_alloc = false;
  bool small_out = false;  // the caller's next output buffer is too small
  // Content of the buffers released during the current call.
  std::vector<Bytes> released;

  // By how many bytes the caller's output buffer falls short of |need|.
  size_t Lack(size_t need) {
    if (!small_out || need == 0) return 0;
    small_out = false;
    failed_alloc = true;
    S->Fault("caller.small_buffer");
    switch (S->Weighted({3, 1, 1})) {
      case 0: return std::min<size_t>(need, 1 + S->Pick(26));
      case 1: return need;
      default: return 1 + S->Pick((uint32_t)need);
    }
  }
  Iovec Alloc(size_t n) {
    flt::HarnessScope h;
    allocs++;
    S->Ev("alloc", {n});
    if (fail_next == 0) {
      fail_next = -1;
      failed_alloc = true;
      S->Fault(fail_mode == 0 ? "alloc.null" : "alloc.short");
      if (fail_mode == 0) return {nullptr, 0};
      // Half, or a few bytes short (around the record overhead), or nothing at all.
      switch (S->Weighted({2, 3, 1})) {
        case 0: n = n / 2; break;
        case 1: n -= std::min<size_t>(n, 1 + S->Pick(26)); break;
        default: n = 0; break;
      }
    } else if (fail_next > 0) {
      fail_next--;
    }
    uint8_t* p = (uint8_t*)malloc(n);
    memset(p, kFill, n);
    bufs[p] = {n, 1};
    return {p, n};
  }
  void Free(Iovec v) {
    flt::HarnessScope h;
    frees++;
    S->Ev("release", {v.iov_len});
    if (v.iov_base == nullptr) return;
    auto it = bufs.find(v.iov_base);
    if (it == bufs.end()) {
      S->Note("bad-release", "the library released a buffer that is not an outstanding allocation of the release callback's allocator (double release or foreign buffer)");
      return;
    }
    if (it->second.state == 2) {
      S->Note("bad-release", "the library released a buffer it had already returned to the caller");
      return;
    }
    released.push_back(Bytes((uint8_t*)v.iov_base, (uint8_t*)v.iov_base + it->second.len));
    free(v.iov_base);
    bufs.erase(it);
  }
  size_t HeldByLibrary() {
    size_t n = 0;
    for (auto& b : bufs)
      if (b.second.state == 1) n++;
    return n;
  }
  void CallerFree(void* p) {
    auto it = bufs.find(p);
    if (it == bufs.end()) return;
    free(p);
    bufs.erase(it);
  }
  ~Ledger() {
    for (auto& b : bufs) free(b.first);
  }
};

// ---- ticket channel ----------------------------------------------------------
struct TicketBatch {
  std::string url;
  uint64_t id;
  std::string identity;
  int identity_type;
  std::vector<Bytes> tickets;
  const void* factory;
};
struct TicketWorld {
  std::vector<TicketBatch> batches;
  int wait_mode = 0;  // 0 no wait function, 1 completes, 2 fails
  int waits = 0;
  std::function<void(s2a::s2a_ticket_sender::TicketSenderOptions&)> inspect;
};
TicketWorld*& CurTickets();  // of the connection under test (of the current simulated thread)
void ForgetTickets();
s2a::s2a_ticket_sender::WaitOnTicketSender CaptureTickets(s2a::s2a_ticket_sender::TicketSenderOptions& o);

struct FakeFactory : s2a::s2a_channel::S2AChannelFactoryInterface {
  static int live;
  FakeFactory() { live++; }
  ~FakeFactory() override { live--; }
  void WaitForChannelReady() override {}
  absl::StatusOr<std::unique_ptr<s2a::s2a_channel::S2AChannelInterface>> Build(S2AChannelOptionsInterface*) override {
    return absl::UnavailableError("no channel in simulation");
  }
};

struct Config {
  int suite = 0;
  Bytes in_secret, out_secret;
  uint64_t in_seq = 0, out_seq = 0;
  std::string url = "s2a.sim:1";
  S2AOptions::Identity identity = S2AOptions::Identity::GetEmptyIdentity();
  uint64_t conn_id = 0;
  bool crypter = false;  // drive S2ACrypter directly
};

struct Res {
  bool ok = false;
  int code = 0;
  std::string msg;
  std::vector<Bytes> parts;  // returned buffers, in order
  bool leftover = false;     // the caller's buffer was written to (not zeros)
  Bytes callerbuf;           // final content of the caller's buffer
  bool single = false;       // the one-record overload was used
  Bytes Data() const {
    Bytes b;
    for (auto& p : parts) b.insert(b.end(), p.begin(), p.end());
    return b;
  }
};

class Sut {
 public:
  Config cfg;
  Ledger ledger;
  uint64_t logs = 0;
  const void* factory = nullptr;
  std::unique_ptr<S2AFrameProtector> fp;
  std::unique_ptr<S2ACrypter> cr;

  bool Create(const Config& c);
  void Destroy() {
    flt::LibScope l;
    fp.reset();
    cr.reset();
  }
  ~Sut() { Destroy(); }
  bool alive() const { return fp || cr; }

  size_t Promised(size_t n) const;
  // Protects |data| as application data, through one of the overloads.
  Res Protect(const Bytes& data);
  // One call of the record layer for any content type and size.
  Res ProtectAs(const Bytes& data, S2ACrypter::RecordType type);
  // Hands over |bytes| (which hold |nrec| whole records) in one call.
  Res Unprotect(const Bytes& bytes, size_t nrec, bool odd = false);
  bool UpdateOut();

 private:
  void After(const char* what);
};

inline bool OnlyFill(const uint8_t* p, size_t n) {
  for (size_t i = 0; i < n; i++)
    if (p[i] != 0 && p[i] != kFill) return false;
  return true;
}
}  // namespace ep
