// Deterministic simulation core: one integer seed (or a recorded choice tape)
// decides every choice of a run.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <queue>
#include <set>
#include <string>
#include <vector>

namespace sim {

typedef std::vector<uint8_t> Bytes;

struct StopRun {};  // thrown by harness code (never through /repo frames)

inline uint64_t Mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

class Sim {
 public:
  // ---- choices -----------------------------------------------------------
  bool replay = false;
  uint64_t rng = 0;
  std::vector<uint32_t> tape;
  size_t pos = 0;
  // Shared-memory copy of the tape and event hash (survives a crash).
  volatile uint32_t* mirror = nullptr;
  volatile uint64_t* mirror_len = nullptr;
  volatile uint64_t* mirror_hash = nullptr;
  size_t mirror_cap = 0;

  uint32_t Raw() {
    rng += 0x9e3779b97f4a7c15ull;
    uint64_t x = rng;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return static_cast<uint32_t>((x ^ (x >> 31)) >> 16);
  }
  uint32_t Take(uint32_t n, uint32_t drawn) {
    uint32_t v;
    if (replay) {
      v = pos < tape.size() ? tape[pos] : 0;
      if (v >= n) v = n - 1;
    } else {
      v = drawn;
      tape.push_back(v);
      if (mirror && pos < mirror_cap) {
        mirror[pos] = v;
        *mirror_len = pos + 1;
      }
    }
    pos++;
    return v;
  }
  // Uniform choice in [0, n). Zero is the simplest value.
  uint32_t Pick(uint32_t n) {
    if (n <= 1) return 0;
    return Take(n, replay ? 0 : Raw() % n);
  }
  uint32_t Range(uint32_t lo, uint32_t hi) { return lo + Pick(hi - lo + 1); }
  // True with probability num/den; false is the simplest.
  bool Chance(uint32_t num, uint32_t den) {
    return Take(2, replay ? 0 : (Raw() % den < num)) != 0;
  }
  // Weighted choice.
  uint32_t Weighted(std::initializer_list<uint32_t> w) {
    uint32_t total = 0;
    for (uint32_t x : w) total += x;
    uint32_t v = 0;
    if (!replay) {
      uint32_t r = Raw() % total;
      for (uint32_t x : w) {
        if (r < x) break;
        r -= x;
        v++;
      }
    }
    return Take(static_cast<uint32_t>(w.size()), v);
  }
  uint32_t WeightedV(const std::vector<uint32_t>& w) {
    uint32_t total = 0;
    for (uint32_t x : w) total += x;
    uint32_t v = 0;
    if (!replay) {
      uint32_t r = Raw() % total;
      for (uint32_t x : w) {
        if (r < x) break;
        r -= x;
        v++;
      }
    }
    v = Take(static_cast<uint32_t>(w.size()), v);
    if (w[v] == 0) {  // only possible in replay of an edited tape
      for (v = 0; v < w.size() && w[v] == 0; v++) {}
    }
    return v;
  }
  bool salted = false;  // no two RandBytes() are alike, whatever a tape says
  uint64_t salt = 0;
  Bytes RandBytes(size_t n) {
    uint64_t s = Pick(0x7fffffff);
    if (salted) s += ++salt << 32;
    Bytes b(n);
    Fill(s, b.data(), n);
    return b;
  }
  static void Fill(uint64_t seed, uint8_t* p, size_t n) {
    uint64_t x = Mix(seed);
    for (size_t i = 0; i < n; i++) {
      if (i % 8 == 0) x = Mix(x + i);
      p[i] = static_cast<uint8_t>(x >> (8 * (i % 8)));
    }
  }

  // ---- event log -----------------------------------------------------------
  bool tracing = false;
  FILE* trace_file = nullptr;
  uint64_t hash = 1469598103934665603ull;  // full event log
  uint64_t sig = 1469598103934665603ull;   // abstract interleaving signature
  uint64_t events = 0;
  bool nontrivial = false;
  bool check_nonces = false;  // any repeated (key, nonce) is a violation
  static void Fold(uint64_t& h, uint64_t v) { h = (h ^ v) * 1099511628211ull; h ^= h >> 29; }
  static void FoldStr(uint64_t& h, const char* s) { for (; *s; s++) Fold(h, (uint8_t)*s); }
  // |tag| and values become part of the run's event log.
  void Ev(const char* tag, std::initializer_list<uint64_t> v = {}) {
    events++;
    FoldStr(hash, tag);
    for (uint64_t x : v) Fold(hash, x);
    if (mirror_hash) *mirror_hash = hash;
    if (tracing) {
      char buf[64];
      std::string s;
      snprintf(buf, sizeof(buf), "t=%llu ", (unsigned long long)now);
      s = buf;
      s += tag;
      for (uint64_t x : v) {
        snprintf(buf, sizeof(buf), " %llu", (unsigned long long)x);
        s += buf;
      }
      Line(s);
    }
  }
  void Line(const std::string& s) {
    if (!trace_file) return;
    fprintf(trace_file, "%s\n", s.c_str());
    fflush(trace_file);
  }
  // Like Ev, but also part of the abstract signature used to count distinct
  // interleavings.
  void Step(const char* tag, std::initializer_list<uint64_t> v = {}) {
    FoldStr(sig, tag);
    for (uint64_t x : v) Fold(sig, x);
    Ev(tag, v);
  }
  void EvBytes(const char* tag, const uint8_t* p, size_t n) {
    uint64_t h = 7;
    for (size_t i = 0; i < n; i++) Fold(h, p[i]);
    Ev(tag, {n, h});
  }

  // ---- outcome -------------------------------------------------------------
  bool failed = false;
  std::string fail_class, fail_msg;
  // Records a violation without unwinding (for use inside callbacks).
  void Note(const std::string& cls, const std::string& msg) {
    if (failed) return;
    failed = true;
    fail_class = cls;
    fail_msg = msg;
    if (tracing) Line("VIOLATION " + cls + ": " + msg);
  }
  // Records a violation and ends the run.
  [[noreturn]] void Fail(const std::string& cls, const std::string& msg) {
    Note(cls, msg);
    throw StopRun();
  }
  void Check(bool ok, const char* cls, const std::string& msg) {
    if (!ok) Fail(cls, msg);
    if (failed) throw StopRun();
  }

  // ---- counters --------------------------------------------------------------
  std::map<std::string, uint64_t> counters;
  void Count(const char* name, uint64_t n = 1) { counters[name] += n; }
  void Fault(const char* name) {
    counters[std::string("fault.") + name]++;
    nontrivial = true;
  }
  void Probe(const char* name) { counters[std::string("probe.") + name]++; }

  // ---- discrete-event time ---------------------------------------------------
  uint64_t now = 0;  // simulated microseconds
  uint64_t seq_ = 0;
  struct Event {
    uint64_t at, seq;
    std::function<void()> fn;
  };
  struct Later {
    bool operator()(const Event& a, const Event& b) const {
      return a.at != b.at ? a.at > b.at : a.seq > b.seq;
    }
  };
  std::priority_queue<Event, std::vector<Event>, Later> queue;
  void After(uint64_t d, std::function<void()> fn) { queue.push({now + d, seq_++, fn}); }
  // Runs events until the queue is empty; returns false if |max_events| hit.
  bool RunLoop(size_t max_events) {
    while (!queue.empty()) {
      if (max_events-- == 0) return false;
      Event e = queue.top();
      queue.pop();
      now = e.at;
      e.fn();
      if (failed) throw StopRun();
    }
    return true;
  }
};

extern Sim* S;  // current run

typedef void (*World)();
struct WorldDef {
  const char* prop;
  World fn;
};
void RegisterWorld(const char* prop, World fn);
World FindWorld(const std::string& prop);
struct Reg {
  Reg(const char* prop, World fn) { RegisterWorld(prop, fn); }
};

}  // namespace sim
using sim::S;
