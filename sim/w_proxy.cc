// Worlds for the handshake side: S2AProxy with a simulated S2A, peer, token
// source and application (C09-C12), and the stored session context (C13).
#include <memory>

#include "endpoint.h"
#include "include/s2a_context.h"
#include "include/s2a_proxy.h"
#include "pb.h"
#include "runtime.h"
#include "tlsref.h"

using namespace sim;
using s2a::s2a_context::S2AContext;
using s2a::s2a_options::S2AOptions;
using s2a::s2a_proxy::S2AProxy;
typedef S2AOptions::Identity Identity;
typedef S2AProxy::Buffer Buffer;

extern "C" int verif_upb_fail_decode, verif_upb_fail_encode, verif_upb_failed;
namespace {
typedef std::pair<int, std::string> Id;  // kind (0 none, 1 spiffe, 2 hostname, 3 uid) and text

Identity ToIdentity(const Id& i) {
  switch (i.first) {
    case 1: return Identity::FromSpiffeId(i.second);
    case 2: return Identity::FromHostname(i.second);
    case 3: return Identity::FromUid(i.second);
  }
  return Identity::GetEmptyIdentity();
}
Id FromIdentity(const Identity& i) {
  std::string s = i.GetIdentityString();
  switch (i.GetIdentityType()) {
    case S2AOptions::IdentityType::SPIFFE_ID: return {1, s};
    case S2AOptions::IdentityType::HOSTNAME: return {2, s};
    case S2AOptions::IdentityType::UID: return {3, s};
    default: return {0, s};
  }
}
uint64_t H(const std::string& s) {
  uint64_t h = 7;
  for (unsigned char c : s) Sim::Fold(h, c);
  return h;
}

// Arbitrary valid UTF-8, control characters included.
std::string Text(size_t n) {
  std::string r;
  Bytes b = S->RandBytes(n);
  for (uint8_t c : b) {
    if (c < 0x80) r += (char)c;
    else if (c < 0xc0) { r += (char)(0xc2 + (c & 15)); r += (char)(0x80 + (c & 63)); }
    else if (c < 0xf0) { r += (char)0xe2; r += (char)(0x80 + (c & 63)); r += (char)(0x80 + ((c * 7) & 63)); }
    else { r += (char)0xf0; r += (char)0x9f; r += (char)(0x80 + (c & 63)); r += (char)(0x80 + ((c * 5) & 63)); }
  }
  return r;
}
bool ValidUtf8(const std::string& s) {
  size_t i = 0, n = s.size();
  auto cont = [&](size_t k) { return k < n && ((uint8_t)s[k] & 0xc0) == 0x80; };
  while (i < n) {
    uint8_t c = s[i];
    uint8_t d = i + 1 < n ? (uint8_t)s[i + 1] : 0;
    if (c < 0x80) i++;
    else if (c >= 0xc2 && c < 0xe0) { if (!cont(i + 1)) return false; i += 2; }
    else if (c >= 0xe0 && c < 0xf0) {
      if (!cont(i + 1) || !cont(i + 2) || (c == 0xe0 && d < 0xa0) || (c == 0xed && d >= 0xa0)) return false;
      i += 3;
    } else if (c >= 0xf0 && c < 0xf5) {
      if (!cont(i + 1) || !cont(i + 2) || !cont(i + 3) || (c == 0xf0 && d < 0x90) || (c == 0xf4 && d >= 0x90)) return false;
      i += 4;
    } else return false;
  }
  return true;
}

std::string AnyString() {
  switch (S->Weighted({12, 6, 2, 2, 2, 2, S->Chance(1, 8) ? 1u : 0u})) {
    case 0: {
      static const char* k[] = {"a", "grpc", "host.example.com", "spiffe://d/x", "h2", "b"};
      return k[S->Pick(6)];
    }
    case 1: return Text(1 + S->Pick(30));
    case 2: {  // bytes after a NUL
      S->Fault("string.nul");
      std::string s = "good.example";
      s += '\0';
      s += "evil";
      return s;
    }
    case 3: return Text(S->Pick(3) * 100 + 127);
    case 5: {  // what a careless normalisation would change
      static const char* k[] = {" a", "a ", "a\n", "GRPC", "Host.Example.COM", "host.example.com.", "\r\n", "%61", "a,b", "\"a\"", "SPIFFE://d/x", "spiffe://d/x/", "\t"};
      return k[S->Pick(13)];
    }
    case 6: return Text(S->Chance(1, 3) ? 65000 + S->Pick(2000) : 1000 + S->Pick(8000));
    default: return "";
  }
}
std::string AnyBytes() {
  static const size_t k[] = {0, 1, 20, 31, 32, 33, 48, 63, 64, 65, 127, 128, 255, 256, 1000, 5000};
  Bytes b = S->RandBytes(S->Chance(1, 3) ? k[S->Pick(16)] : S->Chance(1, 4) ? S->Pick(100) : 32);
  if (!b.empty() && S->Chance(1, 3)) b[S->Pick(b.size())] = 0;
  return std::string(b.begin(), b.end());
}
Id AnyId() { return {1 + (int)S->Pick(3), AnyString()}; }

// ---- options ------------------------------------------------------------------
struct OptModel {
  int min = 1, max = 1;
  std::string addr;
  std::vector<int> suites;
  std::set<Id> local, target;
};
void Mutate(S2AOptions* o, OptModel* m) {
  Id i;
  switch (S->Pick(7)) {
    case 0: m->min = S->Pick(2); o->set_min_tls_version(m->min ? S2AOptions::TlsVersion::TLS1_3 : S2AOptions::TlsVersion::TLS1_2); break;
    case 1: m->max = S->Pick(2); o->set_max_tls_version(m->max ? S2AOptions::TlsVersion::TLS1_3 : S2AOptions::TlsVersion::TLS1_2); break;
    case 2: m->addr = "s2a" + AnyString(); o->set_s2a_address(m->addr); break;
    case 3: m->suites.push_back(S->Pick(3)); o->add_supported_ciphersuite(ep::ToSuite(m->suites.back())); break;
    case 4:
    case 5:
      i = AnyId();
      m->local.insert(i);
      if (i.first == 1) o->add_local_spiffe_id(i.second);
      else if (i.first == 2) o->add_local_hostname(i.second);
      else o->add_local_uid(i.second);
      break;
    default:
      i = AnyId();
      m->target.insert(i);
      if (i.first == 1) o->add_target_spiffe_id(i.second);
      else if (i.first == 2) o->add_target_hostname(i.second);
      else o->add_target_uid(i.second);
  }
}
// Many suites or identities.
void Crowd(S2AOptions* o, OptModel* m, bool local) {
  size_t n = 9 + S->Pick(60);
  S->Probe("options.crowd");
  uint32_t what = S->Pick(local ? 3 : 2);
  for (size_t i = 0; i < n; i++) {
    if (what == 0) {
      m->suites.push_back(S->Pick(3));
      o->add_supported_ciphersuite(ep::ToSuite(m->suites.back()));
      continue;
    }
    Id x = {1 + (int)S->Pick(3), "id-" + std::to_string(i)};
    if (what == 2) {
      m->local.insert(x);
      if (x.first == 1) o->add_local_spiffe_id(x.second);
      else if (x.first == 2) o->add_local_hostname(x.second);
      else o->add_local_uid(x.second);
    } else {
      m->target.insert(x);
      if (x.first == 1) o->add_target_spiffe_id(x.second);
      else if (x.first == 2) o->add_target_hostname(x.second);
      else o->add_target_uid(x.second);
    }
  }
}
uint64_t Wide() { return ((uint64_t)S->Pick(0x7fffffff) << 33 | (uint64_t)S->Pick(0x7fffffff) << 2 | S->Pick(4)) >> S->Pick(64); }
std::set<Id> Ids(const absl::flat_hash_set<Identity>& s) {
  std::set<Id> r;
  for (auto& i : s) r.insert(FromIdentity(i));
  S->Check(r.size() == s.size(), "options", "a set of identities holds duplicates");
  return r;
}
void CheckOptions(const S2AOptions& o, const OptModel& m, const char* what) {
  bool ok = (o.min_tls_version() == S2AOptions::TlsVersion::TLS1_3) == (m.min == 1) &&
            (o.max_tls_version() == S2AOptions::TlsVersion::TLS1_3) == (m.max == 1) && o.s2a_address() == m.addr &&
            o.supported_ciphersuites().size() == m.suites.size() && Ids(o.local_identities()) == m.local &&
            Ids(o.target_identities()) == m.target;
  for (size_t i = 0; ok && i < m.suites.size(); i++) ok = o.supported_ciphersuites()[i] == ep::ToSuite(m.suites[i]);
  S->Check(ok, "options", std::string(what) + " does not hold the values it was given");
  // Identities are equal only if kind and text are.
  if (!m.local.empty()) {
    const Id& a = *m.local.begin();
    Id b = S->Chance(1, 2) ? *m.local.rbegin() : Id{1 + (int)S->Pick(3), a.second};
    flt::LibScope l;
    bool same = ToIdentity(a) == ToIdentity(b);
    flt::HarnessScope h;
    S->Check(same == (a == b), "options", same ? "two different identities compare equal" : "equal identities compare different");
  }
}

// ---- token source ---------------------------------------------------------------
// Part of a token, where it matters that it is secret.
std::string Unguessable() {
  if (!vault::on) return "";
  std::string r;
  for (uint8_t c : S->RandBytes(20)) r += "ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz23456789-._"[c % 59];
  return r;
}
void SecretToken(const std::string& t) {
  if (t.empty()) return;
  vault::Secret(t.substr(0, 20));
  vault::Secret(t.substr(t.size() - std::min<size_t>(t.size(), 20)));
}
void Say(const absl::Status& st) {
  flt::HarnessScope h;
  if (vault::on && !st.ok()) vault::Message(std::string(st.message()), "an error message");
}

struct TokenWorld {
  std::map<Id, std::string> tok;  // token text by identity
  std::map<Id, bool> down;
  std::string def;
  bool def_down = false;
  uint64_t fetches = 0;
  std::string Value(const Id& i) {
    auto it = tok.find(i);
    if (it == tok.end()) it = tok.insert({i, S ? S->Chance(1, 8) ? "" : Unguessable() + AnyString() + "#" + std::to_string(tok.size()) + Unguessable() : ""}).first;
    SecretToken(it->second);
    return it->second;
  }
};
struct SimTokenManager : s2a::token_manager::AccessTokenManagerInterface {
  TokenWorld* w;
  explicit SimTokenManager(TokenWorld* w_) : w(w_) {}
  absl::StatusOr<std::string> GetDefaultToken() override {
    flt::HarnessScope h;
    w->fetches++;
    if (w->def_down) {
      S->Fault("token.default_unavailable");
      return absl::NotFoundError("no default token");
    }
    return w->def;
  }
  absl::StatusOr<std::string> GetToken(const Identity& i) override {
    flt::HarnessScope h;
    w->fetches++;
    Id id = FromIdentity(i);
    auto d = w->down.find(id);
    if (d != w->down.end() && d->second) {
      S->Fault("token.unavailable");
      return absl::UnavailableError("no token");
    }
    return w->Value(id);
  }
  std::string DebugName() const override { return "sim"; }
};

// ---- responses of the simulated S2A ------------------------------------------------
struct Result {
  std::string proto;
  bool has_state = true;
  uint64_t version = 1, suite = 0;
  uint64_t in_seq = 0, out_seq = 0;
  std::string in_key, out_key;
  uint64_t conn_id = 0;
  bool resumed = false;
  bool has_peer = true, has_local = true;
  Id peer, local;
  std::string local_fp, peer_fp;
};
struct Resp {
  bool has_status = true;
  uint64_t code = 0;
  std::string details, out;
  uint64_t consumed = 0;
  bool has_local = false;
  Id local;
  bool has_result = false;
  Result r;
};
std::string Encode(const Resp& p) {
  pb::W w;
  if (p.has_local) w.Str(1, pb::MakeId(p.local.first, p.local.second));
  w.StrZ(2, p.out);
  w.IntZ(3, p.consumed);
  if (p.has_result) {
    pb::W r;
    r.StrZ(1, p.r.proto);
    if (p.r.has_state) {
      pb::W s;
      s.IntZ(1, p.r.version).IntZ(2, p.r.suite).IntZ(3, p.r.in_seq).IntZ(4, p.r.out_seq).StrZ(5, p.r.in_key).StrZ(6, p.r.out_key);
      s.IntZ(9, p.r.conn_id).IntZ(10, p.r.resumed);
      r.Str(2, s.s);
    }
    if (p.r.has_peer) r.Str(4, pb::MakeId(p.r.peer.first, p.r.peer.second));
    if (p.r.has_local) r.Str(5, pb::MakeId(p.r.local.first, p.r.local.second));
    r.StrZ(6, p.r.local_fp).StrZ(7, p.r.peer_fp);
    w.Str(4, r.s);
  }
  if (S->Chance(1, 8)) w.Str(1000 + S->Pick(50), "unknown field of a newer S2A");
  if (p.has_status) {
    pb::W s;
    s.IntZ(1, p.code).StrZ(2, p.details);
    w.Str(5, s.s);
  }
  return w.s;
}
enum Parsed { kParsed, kMalformed, kAmbiguous };
struct Decoder {
  bool malformed = false, ambiguous = false;
  bool Fields(const pb::M& m, std::initializer_list<std::pair<int, int>> known) {
    if (!m.ok) {
      if (m.group) ambiguous = true;
      else malformed = true;
      return false;
    }
    for (auto& x : m.f)
      for (auto& k : known)
        if (x.num == k.first && x.wire != k.second) ambiguous = true;
    return true;
  }
  void Once(const pb::M& m, std::initializer_list<int> subs) {
    for (int s : subs)
      if (m.CountOf(s) > 1) ambiguous = true;
  }
  // Text fields: whether bytes that are not UTF-8 are rejected depends on the
  // version of the protobuf runtime.
  void Txt(const pb::M& m, std::initializer_list<int> fields) {
    for (auto& x : m.f)
      for (int n : fields)
        if (x.num == n && x.wire == 2 && !ValidUtf8(x.b)) ambiguous = true;
  }
  void Small(uint64_t v) {
    if (v > 0x7fffffff) ambiguous = true;
  }
  Id Ident(const std::string& b) {
    pb::M m(b);
    if (!Fields(m, {{1, 2}, {2, 2}, {3, 2}, {4, 2}})) return {0, ""};
    Txt(m, {1, 2, 4});
    for (auto& a : m.Strs(3)) {
      pb::M e(a);
      Fields(e, {{1, 2}, {2, 2}});
      Txt(e, {1, 2});
    }
    std::string n;
    int k = pb::IdKind(b, &n);
    return {k, k ? n : ""};
  }
  Resp Decode(const std::string& in) {
    Resp p;
    p.has_status = false;
    pb::M m(in);
    if (!Fields(m, {{1, 2}, {2, 2}, {3, 0}, {4, 2}, {5, 2}})) return p;
    Once(m, {1, 4, 5});
    if ((p.has_local = m.Has(1))) p.local = Ident(m.Str(1));
    p.out = m.Str(2);
    p.consumed = m.Int(3);
    if (p.consumed > 0xffffffff) ambiguous = true;
    if ((p.has_status = m.Has(5))) {
      pb::M s(m.Str(5));
      Fields(s, {{1, 0}, {2, 2}});
      Txt(s, {2});
      p.code = s.Int(1);
      Small(p.code);
    }
    if ((p.has_result = m.Has(4))) {
      pb::M r(m.Str(4));
      if (!Fields(r, {{1, 2}, {2, 2}, {4, 2}, {5, 2}, {6, 2}, {7, 2}})) return p;
      Once(r, {2, 4, 5});
      Txt(r, {1});
      p.r.proto = r.Str(1);
      if ((p.r.has_state = r.Has(2))) {
        pb::M s(r.Str(2));
        if (!Fields(s, {{1, 0}, {2, 0}, {3, 0}, {4, 0}, {5, 2}, {6, 2}, {9, 0}, {10, 0}})) return p;
        p.r.version = s.Int(1);
        p.r.suite = s.Int(2);
        Small(p.r.version);
        Small(p.r.suite);
        p.r.in_seq = s.Int(3);
        p.r.out_seq = s.Int(4);
        p.r.in_key = s.Str(5);
        p.r.out_key = s.Str(6);
        p.r.conn_id = s.Int(9);
        p.r.resumed = s.Int(10) != 0;
      }
      p.r.peer = {0, ""};
      p.r.local = {0, ""};
      if ((p.r.has_peer = r.Has(4))) p.r.peer = Ident(r.Str(4));
      if ((p.r.has_local = r.Has(5))) p.r.local = Ident(r.Str(5));
      p.r.local_fp = r.Str(6);
      p.r.peer_fp = r.Str(7);
    }
    return p;
  }
};

// ---- one session ---------------------------------------------------------------------
struct Profile {
  uint32_t w_send, w_resp, w_poll, w_opt, w_token;
  uint32_t bad_send, bad_resp;  // out of 16
  bool tokens_always;
};

struct Session {
  int num = 0;
  bool client = true;
  std::string proto, host;
  OptModel opt, orig_model;
  std::unique_ptr<S2AOptions> orig;  // kept by the application
  bool has_tm = false;
  TokenWorld tw;
  std::unique_ptr<S2AProxy> px;
  std::unique_ptr<s2a::frame_protector::S2AFrameProtector> fp;
  ep::TicketWorld tickets;
  const void* factory = nullptr;
  uint64_t logs = 0;
  // model
  bool first = true;
  bool finished = false, odd_finish = false;
  bool has_sel = false, sel_unknown = false;
  Id sel;
  std::map<Id, std::string> cache;
  Resp last_valid;
  Result res;
  bool fp_taken = false, ctx_taken = false, fresh_result = false, over = false;
  std::string last_resp;
  int rounds = 0;
  std::vector<std::string> vault_keys;

  void Create() {
    client = S->Chance(1, 2);
    proto = AnyString();
    host = AnyString();
    orig.reset(new S2AOptions);
    orig_model = OptModel();
    size_t n = S->Pick(9);
    bool single = client && !S->Chance(1, 5);
    for (size_t i = 0; i < n; i++) {
      Mutate(orig.get(), &orig_model);
      if (single && orig_model.local.size() == 1 && i + 1 < n) {
        // Most clients have at most one local identity: no more mutations.
        break;
      }
    }
    if (S->Chance(1, 50)) Crowd(orig.get(), &orig_model, !client);
    if (orig_model.addr.empty()) {  // a connection needs an address
      orig_model.addr = "s2a:1";
      orig->set_s2a_address(orig_model.addr);
    }
    CheckOptions(*orig, orig_model, "an options object");
    opt = orig_model;
    std::unique_ptr<S2AOptions> copy;
    {
      flt::LibScope l;
      copy = orig->Copy();
    }
    S->Check(copy != nullptr, "options", "copying options gave nothing");
    CheckOptions(*copy, opt, "a copy of options");
    if (S->Chance(1, 3)) {  // change the copy; the original must not notice
      if (!(client && opt.local.size() >= 1)) Mutate(copy.get(), &opt);
      CheckOptions(*orig, orig_model, "the original of changed copied options");
      CheckOptions(*copy, opt, "a changed copy of options");
    }
    has_tm = S->Chance(3, 4);
    tw.def = S->Chance(1, 8) ? "" : Unguessable() + AnyString() + "#default" + Unguessable();
    SecretToken(tw.def);
    tw.def_down = S->Chance(1, 5);
    for (auto& i : opt.local)
      if (S->Chance(1, 5)) tw.down[i] = true;
    S2AProxy::S2AProxyOptions o;
    o.logger = [this](const std::string& m) {
      flt::HarnessScope h;
      logs++;
      vault::Message(m, "a log message");
    };
    o.is_client = client;
    o.application_protocol = proto;
    o.target_hostname = host;
    o.options = std::move(copy);
    std::unique_ptr<ep::FakeFactory> f(new ep::FakeFactory);
    factory = f.get();
    o.channel_factory = std::move(f);
    o.channel_options.reset(new s2a::s2a_channel::S2AChannelFactoryInterface::S2AChannelOptionsInterface);
    if (has_tm) o.token_manager.reset(new SimTokenManager(&tw));
    {
      flt::LibScope l;
      px = S2AProxy::Create(o);
    }
    S->Check(px != nullptr, "create", "creating a session failed");
    S->Step("session", {(uint64_t)num, client, opt.local.size() < 3 ? opt.local.size() : 3, opt.target.size() < 3 ? opt.target.size() : 3, has_tm});
  }

  // Which tokens the next request has to carry.
  void ModelTokens() {
    if (!has_tm) return;
    auto up = [&](const Id& i) {
      auto d = tw.down.find(i);
      return d == tw.down.end() || !d->second;
    };
    if (has_sel) {
      if (cache.size() == 1 && cache.count(sel)) return;
      if (up(sel)) {
        std::string t = tw.Value(sel);
        cache.clear();
        cache[sel] = t;
        S->Probe("token.narrowed");
        return;
      }
      S->Probe("token.selected_unavailable");
    }
    for (auto& i : opt.local)
      if (!cache.count(i) && up(i)) cache[i] = tw.Value(i);
    if (opt.local.empty() && !tw.def_down) cache[{0, ""}] = tw.def;
  }

  void CheckIds(const std::vector<std::string>& got, const std::set<Id>& want, const char* what) {
    std::set<Id> g;
    for (auto& b : got) {
      std::string n;
      int k = pb::IdKind(b, &n);
      g.insert({k, k ? n : ""});
    }
    S->Check(g == want && got.size() == want.size(), "wrong-options-sent", std::string("the ") + what + " identities in the start request are not the configured ones");
  }

  void CheckRequest(const std::string& req, const Bytes* peer_bytes) {
    pb::M m(req);
    S->Check(m.ok, "bad-request", "the request for S2A is malformed");
    int kinds = m.CountOf(1) + m.CountOf(2) + m.CountOf(3) + m.CountOf(4);
    S->Check(kinds == 1, "bad-request", "the request for S2A is not exactly one message");
    std::string pbytes = peer_bytes ? std::string(peer_bytes->begin(), peer_bytes->end()) : "";
    if (first) {
      S->Check(m.Has(client ? 1 : 2), "wrong-first-message", "the first message to S2A is not the start message of this role");
      pb::M s(m.Str(client ? 1 : 2));
      S->Check(s.ok, "bad-request", "the start request is malformed");
      auto protos = s.Strs(1);
      S->Check(protos.size() == 1 && protos[0] == proto, "wrong-options-sent", "the application protocol in the start request is wrong");
      S->Check(s.Int(2) == (uint64_t)opt.min && s.Int(3) == (uint64_t)opt.max, "wrong-options-sent", "the TLS versions in the start request are wrong");
      auto cs = s.Ints(4);
      S->Check(std::vector<uint64_t>(opt.suites.begin(), opt.suites.end()) == cs, "wrong-options-sent", "the ciphersuites in the start request are wrong");
      if (client) {
        CheckIds(s.Strs(5), opt.target, "target");
        CheckIds(s.Strs(6), opt.local, "local");
        S->Check(s.Str(7) == host, "wrong-options-sent", "the target name in the start request is wrong");
      } else {
        CheckIds(s.Strs(5), opt.local, "local");
        S->Check(s.Str(6) == pbytes, "relay", "the start request does not carry exactly the peer's bytes");
      }
    } else {
      S->Check(m.Has(3), "wrong-message", "a later message to S2A is not a next message");
      pb::M s(m.Str(3));
      S->Check(s.ok && s.Str(1) == pbytes, "relay", "the next request does not carry exactly the peer's bytes");
    }
    // Tokens.
    if (sel_unknown) return;
    ModelTokens();
    std::map<Id, std::string> got;
    size_t count = 0;
    for (auto& a : m.Strs(5)) {
      pb::M x(a);
      S->Check(x.ok && x.Has(2), "wrong-tokens", "an authentication mechanism without token was sent");
      std::string n;
      int k = x.Has(1) ? pb::IdKind(x.Str(1), &n) : 0;
      got[{k, k ? n : ""}] = x.Str(2);
      count++;
    }
    if (!has_tm) S->Check(count == 0, "wrong-tokens", "tokens were sent without a token source");
    for (auto& g : got) {
      auto c = cache.find(g.first);
      S->Check(c != cache.end(), "wrong-tokens", "a token was sent under an identity that should not be used");
      S->Check(c->second == g.second, "wrong-tokens", "the token sent under an identity is not that identity's token");
    }
    S->Check(got.size() == cache.size() && count == got.size(), "wrong-tokens", "a token that could be obtained is missing or repeated");
    if (count) S->Probe("token.sent");
  }

  void Send(const Profile& pr) {
    Bytes b;
    int style;  // 0 null, 1 empty, 2 bytes
    bool needs = !first || !client;
    bool bad = S->Chance(pr.bad_send, 16);
    if (first && client) style = bad ? 2 : S->Pick(2);
    else if (first) style = S->Weighted({1, 1, 6});
    else style = bad ? S->Pick(2) : 2;
    (void)needs;
    if (style == 2) b = S->RandBytes(1 + (S->Chance(1, 10) ? S->Pick(S->Chance(1, 8) ? 200000 : 20000) : S->Pick(300)));
    std::unique_ptr<Buffer> buf;
    if (style) buf.reset(new Buffer(b.begin(), b.end()));
    bool want = first && client ? style != 2 && opt.local.size() <= 1 : first ? true : style == 2;
    if (want && S->Chance(1, 10)) {  // the encoder runs out of memory; then again
      std::unique_ptr<Buffer> again(buf ? new Buffer(*buf) : nullptr);
      S2AProxy::ProxyStatus st;
      verif_upb_failed = 0;
      verif_upb_fail_encode = 1;
      {
        flt::LibScope l;
        st = px->GetBytesForS2A(std::move(again));
      }
      verif_upb_fail_encode = 0;
      if (verif_upb_failed) {
        S->Fault("wire.encoder_fails");
        S->Step("to-s2a-encoder-fails", {(uint64_t)num, (uint64_t)style, first, has_sel});
        Say(st.status);
        S->Check(!st.status.ok(), "encoder-failure-hidden", "a request that could not be encoded was reported as success");
        S->Check(!st.buffer || st.buffer->empty(), "data-with-error", "bytes for S2A were returned together with an error");
      }
    }
    S2AProxy::ProxyStatus st;
    {
      flt::LibScope l;
      st = px->GetBytesForS2A(std::move(buf));
    }
    bool ok = st.status.ok();
    Say(st.status);
    S->Step("to-s2a", {(uint64_t)num, (uint64_t)style, ok, has_sel});
    if (!want) {
      S->Fault(style == 2 ? "peer.unexpected_bytes" : style == 0 || style == 1 ? "peer.missing_bytes" : "options.invalid");
      S->Check(!ok, "bad-call-accepted", "a call that lacks peer bytes, has unexpected ones or too many local identities succeeded");
      S->Check(!st.buffer || st.buffer->empty(), "data-with-error", "bytes for S2A were returned together with an error");
      return;
    }
    S->Check(ok, "good-call-rejected", "preparing a request failed: " + std::string(st.status.message()));
    S->Check(st.buffer != nullptr, "no-bytes", "no request was produced");
    std::string req(st.buffer->begin(), st.buffer->end());
    // What goes to S2A says nothing about the keys it gave out before.
    if (vault::on && !vault_keys.empty())
      for (auto& k : vault_keys) S->Check(k.size() < 16 || req.find(k) == std::string::npos, "secret-shown", "a request to S2A contains a traffic secret");
    CheckRequest(req, style ? &b : nullptr);
    {
      flt::LibScope l;
      st.buffer.reset();
    }
    first = false;
    rounds++;
  }

  Resp MakeResp(const Profile& pr, bool* final) {
    Resp p;
    Bytes o = S->RandBytes(S->Chance(1, 5) ? 0 : S->Chance(1, 10) ? S->Pick(S->Chance(1, 8) ? 200000 : 20000) : S->Pick(300));
    p.out.assign(o.begin(), o.end());
    p.consumed = S->Pick(100000);
    if (S->Chance(1, 12)) {
      static const uint64_t k[] = {0x7fffffff, 0x80000000ull, 0xffff, 0x10000, 0xffffffffull, 0xfffffffeull};
      p.consumed = k[S->Pick(6)];
    }
    if (S->Chance(1, 4)) {
      p.has_local = true;
      std::vector<Id> v(opt.local.begin(), opt.local.end());
      if (!v.empty() && S->Chance(3, 4)) p.local = v[S->Pick(v.size())];
      else p.local = S->Chance(1, 6) ? Id{0, ""} : AnyId();
      if (S->Chance(1, 4)) tw.down[p.local] = true;
    }
    *final = false;
    if (S->Chance(1, finished ? 12 : 3)) {
      *final = true;
      p.has_result = true;
      Result& r = p.r;
      r.proto = AnyString();
      r.suite = S->Pick(3);
      size_t n = r.suite == 1 ? 48 : 32;
      Bytes a = S->RandBytes(n), b = S->RandBytes(n);
      r.in_key.assign(a.begin(), a.end());
      r.out_key.assign(b.begin(), b.end());
      r.in_seq = S->Chance(1, 3) ? S->Pick(1000) : S->Chance(1, 3) ? 0xffffffff00000000ull + S->Pick(1000) : 0;
      r.out_seq = S->Chance(1, 3) ? S->Pick(1000) : S->Chance(1, 3) ? 0xfffffff0ull + S->Pick(30) : 0;
      if (S->Chance(1, 6)) {
        r.in_seq = Wide();
        r.out_seq = Wide();
      }
      r.conn_id = S->Chance(1, 6) ? Wide() : S->Chance(1, 2) ? 0x8000000000000000ull + S->Pick(100000) : S->Pick(1000);
      r.resumed = S->Chance(1, 2);
      r.has_peer = !S->Chance(1, 6);
      r.peer = S->Chance(1, 10) ? Id{0, ""} : AnyId();
      r.local = AnyId();
      r.local_fp = AnyBytes();
      r.peer_fp = AnyBytes();
    }
    return p;
  }

  void Respond(const Profile& pr) {
    std::string bytes;
    bool null = false;
    if (!last_resp.empty() && S->Chance(1, 12)) {
      bytes = last_resp;
      S->Fault("s2a.duplicate_response");
    } else {
      bool fin;
      Resp p = MakeResp(pr, &fin);
      int bad = S->Chance(pr.bad_resp, 16) ? 1 + S->Pick(fin ? 14 : 7) : 0;
      Result& r = p.r;
      if (bad > 7) p.has_local = false;
      switch (bad) {
        case 1: p.code = S->Chance(1, 3) ? 1ull << S->Pick(32) : 1 + S->Pick(16); p.details = AnyString(); S->Fault("s2a.error_status"); break;
        case 2: p.has_status = false; S->Fault("s2a.no_status"); break;
        case 3: null = S->Chance(1, 2); S->Fault("s2a.no_response"); break;
        case 8: r.has_state = false; S->Fault("s2a.result_without_state"); break;
        case 9: r.has_local = false; S->Fault("s2a.result_without_local_identity"); break;
        case 10: r.version = S->Chance(1, 3) ? S->Pick(2) + (4ull << S->Pick(29)) : 2 + S->Pick(5); S->Fault("s2a.bad_version"); break;
        case 11: r.suite = S->Chance(1, 3) ? S->Pick(3) + (4ull << S->Pick(29)) : 3 + S->Pick(5); S->Fault("s2a.bad_suite"); break;
        case 12: r.version = 0; S->Fault("s2a.tls12"); break;
        case 13: r.in_key = r.in_key.substr(0, S->Pick(r.in_key.size())); S->Fault("s2a.short_secret"); break;
        case 14: r.out_key += std::string(1 + S->Pick(16), 'x'); S->Fault("s2a.long_secret"); break;
      }
      if (bad != 3) bytes = Encode(p);
      if (bad == 4 && !bytes.empty()) { bytes.resize(S->Pick(bytes.size())); S->Fault("s2a.truncated_response"); }
      if ((bad == 5 || bad == 6) && !bytes.empty()) {
        for (size_t k = 1 + S->Pick(3); k; k--) bytes[S->Pick(bytes.size())] ^= 1 << S->Pick(8);
        S->Fault("s2a.corrupted_response");
      }
      if (bad == 7) {
        Bytes x = S->RandBytes(1 + S->Pick(60));
        bytes.assign(x.begin(), x.end());
        S->Fault("s2a.garbage_response");
      }
    }
    Deliver(bytes, null);
  }

  void Deliver(const std::string& bytes, bool null) {
    Decoder d;
    Resp p = d.Decode(bytes);
    if (vault::on)
      for (auto* k : {&p.r.in_key, &p.r.out_key})
        if (k->size() >= 16) {
          vault_keys.push_back(*k);
          vault::Secret(*k);
        }
    bool want = !bytes.empty() && !d.malformed;
    bool vague = d.ambiguous && !d.malformed;
    if (want && (!p.has_status || p.code != 0)) want = false;
    bool result_ok = false;
    if (want && p.has_result) {
      result_ok = p.r.has_state && p.r.version <= 1 && p.r.suite <= 2 && p.r.has_local;
      if (!result_ok) {
        want = false;
        if (p.has_local) sel_unknown = true;
      }
    }
    std::unique_ptr<Buffer> buf;
    if (!null) {
      buf.reset(new Buffer(bytes.begin(), bytes.end()));
      buf->shrink_to_fit();
    }
    S2AProxy::ProxyStatus st;
    if (buf && !buf->empty() && S->Chance(1, 12)) {  // the decoder runs out of memory; then again
      std::unique_ptr<Buffer> again(new Buffer(*buf));
      verif_upb_failed = 0;
      verif_upb_fail_decode = 1;
      {
        flt::LibScope l;
        st = px->GetBytesForPeer(std::move(again));
      }
      verif_upb_fail_decode = 0;
      if (verif_upb_failed) {
        S->Fault("wire.decoder_fails");
        S->Step("from-s2a-decoder-fails", {(uint64_t)num, p.has_result});
        Say(st.status);
        S->Check(!st.status.ok(), "bad-response-accepted", "a response from S2A that could not be decoded was accepted");
        S->Check(!st.buffer || st.buffer->empty(), "data-with-error", "bytes for the peer were returned together with an error");
        bool f;
        {
          flt::LibScope l;
          f = px->IsHandshakeFinished();
        }
        if (!odd_finish) S->Check(f == finished, "wrong-finished", "a response that could not be decoded changed whether the handshake is finished");
      }
    }
    {
      flt::LibScope l;
      st = px->GetBytesForPeer(std::move(buf));
    }
    bool ok = st.status.ok();
    Say(st.status);
    S->Step("from-s2a", {(uint64_t)num, ok, p.has_result, p.has_local, want, d.malformed});
    if (vague) {  // the encoding is legal but its meaning is not ours to decide
      S->Probe("response.ambiguous");
      over = true;
      return;
    }
    if (!want) {
      S->Check(!ok, "bad-response-accepted", d.malformed ? "a malformed response from S2A was accepted" : bytes.empty() ? "a missing response from S2A was accepted" : p.has_result && p.has_status && p.code == 0 ? "an invalid result from S2A was accepted" : "an error response from S2A was accepted");
      S->Check(!st.buffer || st.buffer->empty(), "data-with-error", "bytes for the peer were returned together with an error");
      return;
    }
    S->Check(ok, "good-response-rejected", "a valid response from S2A was rejected: " + std::string(st.status.message()));
    S->Check(st.buffer && std::string(st.buffer->begin(), st.buffer->end()) == p.out, "relay", "the bytes for the peer are not exactly those S2A produced");
    S->Check(st.bytes_consumed == p.consumed, "relay", "the consumed count is not the one S2A reported");
    {
      flt::LibScope l;
      st.buffer.reset();
    }
    last_resp = bytes;
    if (p.has_local) {
      has_sel = true;
      sel = p.local;
    }
    if (p.has_result) {
      finished = true;
      res = p.r;
      size_t n = res.suite == 1 ? 48 : 32;
      odd_finish = res.version != 1 || res.in_key.size() != n || res.out_key.size() != n;
      ctx_taken = false;
      fresh_result = true;
    }
  }

  void Poll() {
    bool f;
    {
      flt::LibScope l;
      f = px->IsHandshakeFinished();
    }
    S->Ev("finished", {(uint64_t)num, f});
    // Whether a result with unusable secrets counts as finished is left open.
    if (!(odd_finish && !f)) S->Check(f == finished, "wrong-finished", finished ? "the handshake is not reported finished after a valid result" : "the handshake is reported finished without a valid result");
    if (!finished) {
      {
        flt::LibScope l;
        auto r = px->CreateFrameProtector();
        flt::HarnessScope h;
        Say(r.status());
        S->Check(!r.ok(), "early-connection", "a connection was created before a valid result");
      }
      flt::LibScope l;
      auto c = px->GetS2AContext();
      flt::HarnessScope h;
      if (c.index() == 0) Say(absl::get<0>(c));
      S->Check(c.index() == 0 && !absl::get<0>(c).ok(), "early-context", "a context was returned before a valid result");
      return;
    }
    if (!ctx_taken && S->Chance(1, 2)) TakeContext();
    else if (ctx_taken && S->Chance(1, 4)) {
      flt::LibScope l;
      auto c = px->GetS2AContext();
      flt::HarnessScope h;
      if (c.index() == 0) Say(absl::get<0>(c));
      S->Step("context-again", {(uint64_t)num, c.index()});
      S->Check(c.index() == 0 && !absl::get<0>(c).ok(), "second-context", "a context that was already taken was reported as available again");
    }
    if (!fp_taken && S->Chance(1, 2)) TakeConnection();
    else if (fp) {
      if (!fresh_result && S->Chance(1, 4)) {
        flt::LibScope l;
        auto r = px->CreateFrameProtector();
        flt::HarnessScope h;
        Say(r.status());
        S->Step("connection-again", {(uint64_t)num, r.ok()});
        S->Check(!r.ok(), "second-connection", "a second connection was created from the keys of one result");
      }
      UseConnection();
    }
  }

  void TakeContext() {
    absl::variant<absl::Status, std::unique_ptr<S2AContext>> c = absl::Status();
    {
      flt::LibScope l;
      c = px->GetS2AContext();
    }
    S->Step("context", {(uint64_t)num, c.index()});
    ctx_taken = true;
    if (odd_finish && c.index() == 0) return;
    S->Check(c.index() == 1 && absl::get<1>(c) != nullptr, "no-context", "no context could be obtained after a valid result");
    const S2AContext& x = *absl::get<1>(c);
    if (vault::on) {
      auto st = x.GetSerializedContext();
      if (st.index() == 1) {
        auto& v = *absl::get<1>(st);
        for (auto& k : vault_keys) S->Check(k.size() < 16 || std::string(v.begin(), v.end()).find(k) == std::string::npos, "secret-shown", "the stored context contains a traffic secret");
      }
    }
    Id peer = res.has_peer ? res.peer : Id{0, ""};
    S->Check(x.ApplicationProtocol() == res.proto, "wrong-context", "the context reports a wrong application protocol");
    S->Check((x.TlsVersion() == S2AOptions::TlsVersion::TLS1_3) == (res.version == 1), "wrong-context", "the context reports a wrong TLS version");
    S->Check(x.Ciphersuite() == ep::ToSuite(res.suite), "wrong-context", "the context reports a wrong ciphersuite");
    S->Check(FromIdentity(x.PeerIdentity()) == peer, "wrong-context", "the context reports a wrong peer identity");
    S->Check(FromIdentity(x.LocalIdentity()) == res.local, "wrong-context", "the context reports a wrong local identity");
    S->Check(x.PeerCertFingerprint() == res.peer_fp, "wrong-context", "the context reports a wrong peer fingerprint");
    S->Check(x.LocalCertFingerprint() == res.local_fp, "wrong-context", "the context reports a wrong local fingerprint");
    S->Check(x.IsHandshakeResumed() == res.resumed, "wrong-context", "the context reports a wrong resumption flag");
    flt::LibScope l;
    absl::get<1>(c).reset();
  }

  void TakeConnection() {
    fp_taken = true;
    fresh_result = false;
    ep::CurTickets() = &tickets;
    {
      flt::LibScope l;
      auto r = px->CreateFrameProtector();
      if (r.ok()) fp = std::move(*r);
      else Say(r.status());
    }
    S->Step("connection", {(uint64_t)num, fp != nullptr, odd_finish});
    if (odd_finish) {
      S->Check(fp == nullptr, "bad-connection", "a connection was created from secrets of the wrong size or an unsupported version");
      over = true;
      return;
    }
    S->Check(fp != nullptr, "no-connection", "no connection could be obtained after a valid result");
    in.Init(res.suite, Bytes(res.in_key.begin(), res.in_key.end()), res.in_seq);
    out.Init(res.suite, Bytes(res.out_key.begin(), res.out_key.end()), res.out_seq);
    UseConnection();
  }
  tlsref::Dir in, out;
  bool tickets_sent = false;
  Bytes Un(const Bytes& rec) {
    Bytes copy = rec;
    s2a::frame_protector::S2AFrameProtector::Result r;
    {
      flt::LibScope l;
      r = fp->Unprotect({{copy.data(), copy.size()}});
    }
    S->Check(r.status.ok(), "wrong-connection", "the connection does not read records protected with the result's secret and sequence number");
    Bytes b;
    for (auto& v : r.bytes) b.insert(b.end(), (uint8_t*)v.iov_base, (uint8_t*)v.iov_base + v.iov_len);
    flt::LibScope l;
    for (auto& v : r.bytes) delete[] static_cast<uint8_t*>(v.iov_base);
    return b;
  }
  void UseConnection() {
    ep::CurTickets() = &tickets;
    Bytes d = S->RandBytes(S->Pick(200));
    s2a::frame_protector::S2AFrameProtector::Result r;
    {
      flt::LibScope l;
      r = fp->Protect({{d.data(), d.size()}});
    }
    S->Check(r.status.ok() && r.bytes.size() == 1, "wrong-connection", "the connection cannot protect");
    Bytes rec((uint8_t*)r.bytes[0].iov_base, (uint8_t*)r.bytes[0].iov_base + r.bytes[0].iov_len);
    {
      flt::LibScope l;
      delete[] static_cast<uint8_t*>(r.bytes[0].iov_base);
    }
    Bytes inner, want = d;
    want.push_back(23);
    S->Check(out.OpenAt(rec, out.seq, &inner) && inner == want, "wrong-connection", "the connection does not use the result's outbound secret and sequence number");
    out.Advance();
    S->Check(Un(in.Seal(23, d, 0)) == d, "wrong-connection", "the connection returned wrong data");
    if (!tickets_sent) {
      tickets_sent = true;
      Bytes t = S->RandBytes(20 + S->Pick(50));
      t.insert(t.begin(), {4, 0, 0, (uint8_t)t.size()});
      Un(in.Seal(22, t, 0));
      Un(in.Seal(23, d, 0));
      S->Check(tickets.batches.size() == 1, "wrong-connection", "a session ticket was not handed over");
      auto& b = tickets.batches[0];
      Id id = {b.identity_type, b.identity};
      if (res.local.first == 0) id.second = "";
      S->Check(b.id == res.conn_id, "wrong-connection", "the connection does not have the result's connection id");
      static const int kind[] = {0, 1, 2, 3};
      (void)kind;
      S->Check(FromKind(b.identity_type) == res.local.first && b.identity == res.local.second, "wrong-connection", "the connection does not have the result's local identity");
      S->Check(b.url == opt.addr, "wrong-connection", "the connection does not have the configured S2A address");
      S->Check(b.factory == factory, "wrong-connection", "the connection does not have the configured channel factory");
      S->Probe("connection.used");
    }
  }
  static int FromKind(int t) {
    switch ((S2AOptions::IdentityType)t) {
      case S2AOptions::IdentityType::SPIFFE_ID: return 1;
      case S2AOptions::IdentityType::HOSTNAME: return 2;
      case S2AOptions::IdentityType::UID: return 3;
      default: return 0;
    }
  }

  void Close() {
    ep::CurTickets() = &tickets;
    flt::LibScope l;
    fp.reset();
    px.reset();
    ep::CurTickets() = nullptr;
  }
};

void RunProxy(const Profile& pr) {
  size_t n = 1 + S->Weighted({3, 2, 1});
  std::vector<std::unique_ptr<Session>> ss;
  for (size_t i = 0; i < n; i++) {
    ss.emplace_back(new Session);
    ss.back()->num = i;
    ss.back()->Create();
  }
  size_t steps = 6 + S->Pick(S->Chance(1, 100) ? 600 : 40);
  for (size_t i = 0; i < steps; i++) {
    S->now += 1 + S->Pick(50000);
    Session& s = *ss[S->Pick(n)];
    if (s.over) {
      if (!S->Chance(1, 3)) continue;
      s.Close();
      int num = s.num;
      ss[num].reset(new Session);
      ss[num]->num = num;
      ss[num]->Create();
      continue;
    }
    switch (S->Weighted({pr.w_send, pr.w_resp, pr.w_poll, pr.w_opt, pr.w_token})) {
      case 0: s.Send(pr); break;
      case 1: s.Respond(pr); break;
      case 2: s.Poll(); break;
      case 3:
        Mutate(s.orig.get(), &s.orig_model);
        CheckOptions(*s.orig, s.orig_model, "a changed options object");
        S->Fault("options.changed_during_session");
        break;
      default: {
        // A token source recovers or fails.
        if (s.tw.tok.empty() && s.opt.local.empty()) {
          s.tw.def_down = !s.tw.def_down;
        } else {
          std::vector<Id> v(s.opt.local.begin(), s.opt.local.end());
          if (s.has_sel) v.push_back(s.sel);
          if (v.empty()) break;
          Id i = v[S->Pick(v.size())];
          s.tw.down[i] = !s.tw.down[i];
        }
        S->Ev("token-toggle", {(uint64_t)s.num});
      }
    }
  }
  // Faults stop: every session must be able to go on, and a correct result must
  // finish it.
  for (auto& s : ss) {
    if (!s->over && !(s->first && s->client && s->opt.local.size() > 1)) {
      Profile calm = pr;
      calm.bad_send = calm.bad_resp = 0;
      s->Send(calm);
      if (!s->finished) {
        Resp p;
        p.out = "fin";
        p.has_result = true;
        p.r.in_key = p.r.out_key = std::string(32, 'k');
        p.r.local = {2, "me"};
        p.r.peer = {1, "peer"};
        s->Deliver(Encode(p), false);
      }
      s->Poll();
      if (!s->over && !s->ctx_taken) s->TakeContext();
      if (!s->over && !s->fp_taken) s->TakeConnection();
    }
    s->Close();
  }
  S->Check(ep::FakeFactory::live == 0, "factory-leak", "a channel factory was never released");
}

void W09() { RunProxy({6, 6, 1, 1, 1, 3, 7, false}); }
void W10() { RunProxy({2, 6, 6, 1, 0, 1, 9, false}); }
void W11() { RunProxy({6, 2, 1, 6, 0, 2, 3, false}); }
void W12() { RunProxy({6, 5, 1, 1, 4, 1, 2, true}); }
void Secrets() { RunProxy({5, 6, 2, 1, 2, 3, 8, false}); }
void Many() { RunProxy({6, 6, 3, 3, 2, 2, 4, false}); }
struct ResetLive {
  static void Wrap(void (*f)()) {
    ep::FakeFactory::live = 0;
    f();
  }
};
Reg r09("C09", [] { ResetLive::Wrap(W09); });
Reg r10("C10", [] { ResetLive::Wrap(W10); });
Reg r11("C11", [] { ResetLive::Wrap(W11); });
Reg r12("C12", [] { ResetLive::Wrap(W12); });

// ---- C13 --------------------------------------------------------------------------
struct CtxModel {
  std::string proto, peer_fp, local_fp;
  int version, suite;
  Id peer, local;
  bool resumed;
};
bool Same(const S2AContext& x, const CtxModel& m, std::string* why) {
  auto no = [&](const char* w) {
    *why = w;
    return false;
  };
  if (x.ApplicationProtocol() != m.proto) return no("application protocol");
  if ((x.TlsVersion() == S2AOptions::TlsVersion::TLS1_3) != (m.version == 1)) return no("TLS version");
  if (x.Ciphersuite() != ep::ToSuite(m.suite)) return no("ciphersuite");
  if (FromIdentity(x.PeerIdentity()) != m.peer) return no("peer identity");
  if (FromIdentity(x.LocalIdentity()) != m.local) return no("local identity");
  if (x.PeerCertFingerprint() != m.peer_fp) return no("peer fingerprint");
  if (x.LocalCertFingerprint() != m.local_fp) return no("local fingerprint");
  if (x.IsHandshakeResumed() != m.resumed) return no("resumption flag");
  return true;
}
std::unique_ptr<S2AContext> ReadBack(const std::string& bytes, bool* ok) {
  // Exactly sized heap copy: any read outside it is caught.
  char* p = (char*)malloc(bytes.size() ? bytes.size() : 1);
  memcpy(p, bytes.data(), bytes.size());
  std::unique_ptr<S2AContext> c;
  {
    flt::LibScope l;
    auto r = s2a::s2a_context::GetS2AContextFromSerializedContext(p, bytes.size());
    *ok = r.ok();
    if (r.ok()) c = std::move(*r);
  }
  memset(p, 0xdd, bytes.size());
  free(p);
  return c;
}
std::string Store(const S2AContext& c) {
  absl::variant<absl::Status, std::unique_ptr<std::vector<char>>> r = absl::Status();
  if (S->Chance(1, 8)) {
    verif_upb_failed = 0;
    verif_upb_fail_encode = 1;
    {
      flt::LibScope l;
      r = c.GetSerializedContext();
    }
    verif_upb_fail_encode = 0;
    if (verif_upb_failed) {
      S->Fault("wire.encoder_fails");
      S->Check(r.index() == 0 && !absl::get<0>(r).ok(), "encoder-failure-hidden", "a context that could not be encoded was reported as serialized");
    }
  }
  {
    flt::LibScope l;
    r = c.GetSerializedContext();
  }
  S->Check(r.index() == 1 && absl::get<1>(r) != nullptr, "serialize-failed", "serializing a context failed");
  std::string s(absl::get<1>(r)->begin(), absl::get<1>(r)->end());
  flt::LibScope l;
  absl::get<1>(r).reset();
  return s;
}
void ContextWorld() {
  // A store of serialized contexts that faulty disks and networks damage.
  struct Item {
    CtxModel m;
    std::unique_ptr<S2AContext> live;
    std::string stored;
    bool damaged = false;
  };
  std::vector<Item> items;
  size_t ops = 4 + S->Pick(20);
  for (size_t i = 0; i < ops; i++) {
    S->now += 1 + S->Pick(1000000);
    uint32_t op = items.empty() ? 0 : S->Weighted({2, 4, 5});
    if (op == 0) {
      Item it;
      it.m.proto = AnyString();
      it.m.version = S->Pick(2);
      it.m.suite = S->Pick(3);
      it.m.peer = S->Chance(1, 8) ? Id{0, ""} : AnyId();
      it.m.local = S->Chance(1, 8) ? Id{0, ""} : AnyId();
      it.m.peer_fp = AnyBytes();
      it.m.local_fp = AnyBytes();
      it.m.resumed = S->Chance(1, 2);
      {
        Identity pi = ToIdentity(it.m.peer), li = ToIdentity(it.m.local);
        flt::LibScope l;
        it.live.reset(new S2AContext(it.m.proto, it.m.version ? S2AOptions::TlsVersion::TLS1_3 : S2AOptions::TlsVersion::TLS1_2, ep::ToSuite(it.m.suite), pi, li,
                                     it.m.peer_fp, it.m.local_fp, it.m.resumed));
      }
      std::string why;
      S->Check(Same(*it.live, it.m, &why), "context", "a new context reports a wrong " + why);
      it.stored = Store(*it.live);
      S->Step("store", {it.m.peer.first * 4ull + it.m.local.first, it.m.peer_fp.size() / 8, (uint64_t)it.m.suite});
      items.push_back(std::move(it));
      continue;
    }
    Item& it = items[S->Pick(items.size())];
    if (op == 1) {  // read back the undamaged copy
      bool ok;
      auto c = ReadBack(it.stored, &ok);
      S->Step("read", {ok});
      S->Check(ok && c, "read-failed", "an undamaged stored context could not be read back");
      std::string why;
      S->Check(Same(*c, it.m, &why), "context-changed", "a context read back has a different " + why);
      S->Check(Same(*it.live, it.m, &why), "context-changed", "the original context changed its " + why);
      if (S->Chance(1, 2)) {
        // Moves on: the copy read back replaces the original.
        flt::LibScope l;
        it.live = std::move(c);
        flt::HarnessScope h;
        it.stored = Store(*it.live);
      } else {
        flt::LibScope l;
        c.reset();
      }
      continue;
    }
    std::string bad = it.stored;
    switch (S->Pick(7)) {
      case 6: {  // written by something else: a wide version, ciphersuite or flag
        uint64_t x = S->Pick(4) + (S->Chance(1, 4) ? 0 : 4ull << S->Pick(29));
        bad += (char)(8 * (S->Chance(1, 5) ? 8 : 2 + S->Pick(2)));
        for (; x > 127; x >>= 7) bad += (char)(x | 128);
        bad += (char)x;
        S->Fault("store.wide_value");
        break;
      }
      case 0: if (!bad.empty()) bad.resize(S->Pick(bad.size())); S->Fault("store.truncated"); break;
      case 1: for (size_t k = 1 + S->Pick(3); k && !bad.empty(); k--) bad[S->Pick(bad.size())] ^= 1 << S->Pick(8); S->Fault("store.bitflip"); break;
      case 2: { Bytes x = S->RandBytes(S->Pick(80)); bad.assign(x.begin(), x.end()); S->Fault("store.garbage"); break; }
      case 3: {  // torn write: tail of another item
        Item& o = items[S->Pick(items.size())];
        size_t p = S->Pick(bad.size() + 1);
        bad = bad.substr(0, p) + (o.stored.size() > p ? o.stored.substr(p) : "");
        S->Fault("store.torn");
        break;
      }
      case 4: if (!bad.empty()) { size_t p = S->Pick(bad.size()); bad.erase(p, 1 + S->Pick(4)); } S->Fault("store.lost_bytes"); break;
      default: { size_t p = S->Pick(bad.size() + 1); std::string z(1 + S->Pick(6), (char)(S->Chance(1, 2) ? 0 : 255)); bad.insert(p, z); S->Fault("store.extra_bytes"); }
    }
    Decoder d;
    pb::M m(bad);
    CtxModel want;
    d.Fields(m, {{1, 2}, {2, 0}, {3, 0}, {4, 2}, {5, 2}, {6, 2}, {7, 2}, {8, 0}});
    d.Once(m, {4, 5});
    d.Txt(m, {1});
    want.proto = m.Str(1);
    uint64_t v = m.Int(2), cs = m.Int(3);
    d.Small(v);
    d.Small(cs);
    want.version = v;
    want.suite = cs;
    want.peer = m.Has(4) ? d.Ident(m.Str(4)) : Id{0, ""};
    want.local = m.Has(5) ? d.Ident(m.Str(5)) : Id{0, ""};
    want.peer_fp = m.Str(6);
    want.local_fp = m.Str(7);
    want.resumed = m.Int(8) != 0;
    bool ok;
    auto c = ReadBack(bad, &ok);
    S->Step("read-damaged", {ok, d.malformed, d.ambiguous});
    S->Check(!ok || c, "no-object", "reading back succeeded without a context");
    if (d.malformed) S->Check(!ok, "damaged-accepted", "a damaged stored context that is not a valid encoding was accepted");
    else if (!d.ambiguous) {
      bool valid = v <= 1 && cs <= 2;
      S->Check(ok == valid, valid ? "read-failed" : "damaged-accepted", valid ? "a valid encoding was rejected" : "an unsupported version or ciphersuite was accepted");
      std::string why;
      if (ok) S->Check(Same(*c, want, &why), "context-changed", "a context read back differs from what the bytes encode in its " + why);
    }
    flt::LibScope l;
    c.reset();
  }
  flt::LibScope l;
  for (auto& it : items) it.live.reset();
}
Reg r13("C13", ContextWorld);

// C22-C24 for the handshake side.
void SteadySessionImpl() {
  Session s;
  s.Create();
  std::vector<uint32_t> recipe;
  for (uint32_t k = 1 + S->Pick(4); k; k--) {
    recipe.push_back(S->Weighted({5, 4, 2, 2, 2, 2, 2}));
    static const char* names[] = {"request", "response", "result", "error_response", "bad_bytes", "stored_context", "token_trouble"};
    S->Probe((std::string("steady.") + names[recipe.back()]).c_str());
    S->Step("recipe", {recipe.back()});
  }
  Resp p;
  p.out = "to the peer";
  p.r.proto = "h2";
  p.r.in_key = p.r.out_key = std::string(32, 'k');
  p.r.local = {2, "me"};
  p.r.peer = {1, "peer"};
  if (S->Chance(1, 2)) {
    p.has_local = true;
    p.local = s.opt.local.empty() ? Id{2, "me"} : *s.opt.local.begin();
  }
  Profile calm = {1, 1, 1, 0, 0, 0, 0, false};
  Resp err = p;
  err.has_local = false;
  err.code = 3;
  err.details = "no";
  std::string ok = Encode(p), bad = Encode(err);
  p.has_result = true;
  std::string fin = Encode(p);
  bool sends = !(s.client && s.opt.local.size() > 1);
  runtime::Steady st;
  for (uint32_t k = 0; k < st.Cycles(); k++) {
    S->now += 1000000;
    for (uint32_t op : recipe) switch (op) {
        case 0: if (sends) s.Send(calm); break;
        case 1: s.Deliver(ok, false); break;
        case 2:
          s.Deliver(fin, false);
          if (!s.ctx_taken) s.TakeContext();
          if (!s.fp_taken) s.TakeConnection();
          else if (s.fp) s.UseConnection();
          break;
        case 3: s.Deliver(bad, false); break;
        case 4: s.Deliver(std::string("\xff\x01\x02", 3), false); break;
        case 5: {
          flt::LibScope l;
          S2AContext c("h2", S2AOptions::TlsVersion::TLS1_3, ep::ToSuite(0), Identity::FromUid("u"), Identity::FromUid("v"), "f", "g", false);
          auto v = c.GetSerializedContext();
          if (v.index() == 1) s2a::s2a_context::GetS2AContextFromSerializedContext(absl::get<1>(v)->data(), absl::get<1>(v)->size());
          break;
        }
        default:
          s.tw.def_down = !s.tw.def_down;
          for (auto& i : s.opt.local) s.tw.down[i] = !s.tw.down[i];
      }
    st.End(k);
  }
  S->Count("cycles", st.Cycles());
  S->nontrivial = true;
  s.Close();
}
}  // namespace
namespace proxy {
void SecretSessions() { ResetLive::Wrap(Secrets); }
void ManySessions() { ResetLive::Wrap(Many); }
void SteadySession() { ResetLive::Wrap(SteadySessionImpl); }
}  // namespace proxy
