// Worker process: runs seeds, replays tapes, shrinks failing tapes.
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <memory>
#include <unordered_set>

#include "core.h"
#include "runtime.h"

namespace sim {
Sim* S = nullptr;
static std::vector<WorldDef>& Defs() {
  static std::vector<WorldDef> d;
  return d;
}
void RegisterWorld(const char* prop, World fn) { Defs().push_back({prop, fn}); }
World FindWorld(const std::string& prop) {
  for (auto& d : Defs())
    if (prop == d.prop) return d.fn;
  return nullptr;
}
}  // namespace sim

using namespace sim;

const size_t kTapeCap = 1 << 21;
// Shared page through which a dying process reports what it was doing.
struct Shared {
  volatile uint64_t run;
  volatile uint64_t tape_len;
  volatile uint64_t hash;
  volatile uint64_t pos;
  char cls[128];
  char msg[1024];
  volatile uint32_t tape[kTapeCap];
};
static Shared* g_sh = nullptr;

static void SetCrash(const char* cls, const char* msg) {
  if (!g_sh || g_sh->cls[0]) return;
  // The first violation of a run is the one that counts, not what unwinding it does.
  if (S && S->failed) {
    cls = S->fail_class.c_str();
    msg = S->fail_msg.c_str();
  }
  snprintf(g_sh->msg, sizeof(g_sh->msg), "%s", msg);
  snprintf(g_sh->cls, sizeof(g_sh->cls), "%s", cls);
}
#if defined(SIM_ASAN)
extern "C" void __asan_set_error_report_callback(void (*)(const char*));
static void AsanReport(const char* rep) {
  std::string r(rep);
  size_t p = r.find("AddressSanitizer: ");
  std::string type = "unknown";
  if (p != std::string::npos) {
    p += 18;
    size_t e = r.find_first_of(" \n", p);
    type = r.substr(p, e - p);
    if (type == "attempting") type = r.find("double-free") != std::string::npos ? "double-free" : "bad-free";
    if (type == "requested") type = "oversized-allocation";
  }
  // First stack frame inside /repo.
  std::string where;
  size_t q = r.find("/repo/");
  if (q != std::string::npos) where = r.substr(q, r.find('\n', q) - q);
  SetCrash(("memory:" + type).c_str(), ("AddressSanitizer: " + type + " near " + where).c_str());
}
#endif
static void OnSignal(int sig) {
  if (sig == SIGALRM) {
    SetCrash("hang", "the call did not finish (no progress for 20 s of real time)");
  } else if (sig == SIGABRT) {
    SetCrash("crash:abort", "the process aborted (failed assertion or uncaught exception)");
  } else if (sig == SIGILL || sig == SIGTRAP) {
    SetCrash("crash:ub", "undefined behaviour trap");
  } else {
    char b[64];
    snprintf(b, sizeof(b), "the process died with signal %d", sig);
    SetCrash("crash:signal", b);
  }
  _exit(99);
}
static void InstallCrashHandlers() {
  static char stack[65536];
  stack_t ss = {};
  ss.ss_sp = stack;
  ss.ss_size = sizeof(stack);
  sigaltstack(&ss, nullptr);
  struct sigaction sa = {};
  sa.sa_handler = OnSignal;
  sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGALRM, SIGABRT, SIGFPE, SIGILL, SIGTRAP}) sigaction(s, &sa, nullptr);
#if defined(SIM_ASAN)
  __asan_set_error_report_callback(AsanReport);
#else
  for (int s : {SIGSEGV, SIGBUS}) sigaction(s, &sa, nullptr);
#endif
}

static uint64_t SeedFor(uint64_t base, const std::string& prop, uint64_t run) {
  uint64_t h = 77;
  Sim::FoldStr(h, prop.c_str());
  return Mix(Mix(base ^ h) + run * 0x9e3779b97f4a7c15ull);
}

// Executes one run in this process.
static void Exec1(World w, Sim* sim) {
  S = sim;
  alarm(20);
  runtime::BeginRun();
  bool done = false;
  try {
    w();
    done = true;
  } catch (StopRun&) {
  }
  flt::Disarm();
  while (!sim->queue.empty()) sim->queue.pop();
  if (done && !sim->failed) {
    if (flt::live_cipher || flt::live_hmac || flt::live_aead || flt::live_bio) {
      char b[160];
      snprintf(b, sizeof(b), "cryptographic library handles still live after everything was destroyed: cipher %d hmac %d aead %d bio %d",
               flt::live_cipher, flt::live_hmac, flt::live_aead, flt::live_bio);
      sim->Note("handle-leak", b);
    }
    if (sim->check_nonces && flt::nonce_reuse) sim->Note("nonce-reuse", flt::nonce_reuse_msg);
  }
  runtime::EndRun();
  alarm(0);
  S = sim;
}
static void Exec(World w, Sim* sim) {
  uint64_t seed = sim->rng;
  Exec1(w, sim);
  size_t bytes;
  if (sim->failed || !runtime::LeakedBlocks(&bytes)) return;
  // A block allocated in a library call outlived the run. It is a leak only if
  // repeating the run leaks again every time (otherwise it is a one-time cache).
  size_t n = 0;
  for (int k = 0; k < 4; k++) {
    Sim again;
    again.replay = sim->replay;
    if (again.replay) again.tape = sim->tape;
    else again.rng = seed;
    Exec1(w, &again);
    n = runtime::LeakedBlocks(&bytes);
    if (!n) break;
  }
  S = sim;
  if (n) {
    char b[160];
    snprintf(b, sizeof(b), "%zu heap blocks (%zu bytes) allocated by the library are never freed", n, bytes);
    sim->Note("memory-leak", b);
  }
}

static std::string JsonEsc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

typedef std::vector<uint32_t> Tape;
static Tape ReadTape(const char* path) {
  Tape t;
  FILE* f = fopen(path, "r");
  if (!f) { fprintf(stderr, "cannot read %s\n", path); exit(2); }
  unsigned long v;
  while (fscanf(f, "%lu", &v) == 1) t.push_back(v);
  fclose(f);
  return t;
}
static void WriteTape(const char* path, const Tape& t) {
  FILE* f = fopen(path, "w");
  for (uint32_t v : t) fprintf(f, "%u ", v);
  fprintf(f, "\n");
  fclose(f);
}

struct Outcome {
  std::string cls, msg;
  uint64_t hash = 0;
  size_t used = 0;
};
// Runs one tape (or seed, if |tape| is null, recording into *rec) in a child.
static Outcome Child(World w, const Tape* tape, uint64_t seed, Tape* rec, const char* trace) {
  memset(g_sh->cls, 0, sizeof(g_sh->cls));
  memset(g_sh->msg, 0, sizeof(g_sh->msg));
  g_sh->tape_len = g_sh->hash = g_sh->pos = 0;
  pid_t p = fork();
  if (p == 0) {
    int n = open("/dev/null", O_WRONLY);
    if (!getenv("SIM_VERBOSE")) dup2(n, 2);
    Sim* s = new Sim;
    if (tape) {
      s->replay = true;
      s->tape = *tape;
    } else {
      s->rng = seed;
    }
    s->mirror = g_sh->tape;
    s->mirror_len = &g_sh->tape_len;
    s->mirror_cap = kTapeCap;
    s->mirror_hash = &g_sh->hash;
    if (trace) {
      s->tracing = true;
      s->trace_file = fopen(trace, "w");
    }
    Exec(w, s);
    g_sh->hash = s->hash;
    g_sh->pos = s->pos;
    if (s->failed) SetCrash(s->fail_class.c_str(), s->fail_msg.c_str());
    if (s->trace_file) fflush(s->trace_file);
    _exit(0);
  }
  int st;
  waitpid(p, &st, 0);
  if (!g_sh->cls[0] && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) SetCrash("crash:unknown", "the process died");
  Outcome o;
  o.cls = g_sh->cls;
  o.msg = g_sh->msg;
  o.hash = g_sh->hash;
  o.used = g_sh->pos;
  if (rec) rec->assign(g_sh->tape, g_sh->tape + g_sh->tape_len);
  return o;
}

static double Now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

static void PrintOutcome(const Outcome& o, size_t orig, size_t len, size_t attempts) {
  printf("{\"class\":\"%s\",\"msg\":\"%s\",\"hash\":\"%016llx\",\"orig_len\":%zu,\"len\":%zu,\"attempts\":%zu}\n",
         JsonEsc(o.cls).c_str(), JsonEsc(o.msg).c_str(), (unsigned long long)o.hash, orig, len, attempts);
  fflush(stdout);
}

int main(int argc, char** argv) {
  // Fixed address layout, so that address-dependent choices repeat.
  if (!getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  std::map<std::string, std::string> a;
  for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  std::string cmd = argc > 1 ? argv[1] : "";
  std::string prop = a["--prop"];
  World w = FindWorld(prop);
  if (cmd == "list") {
    for (auto& d : Defs()) printf("%s\n", d.prop);
    return 0;
  }
  if (!w) { fprintf(stderr, "no world %s\n", prop.c_str()); return 2; }
  std::string shp = a["--shm"];
  if (!shp.empty()) {
    int fd = open(shp.c_str(), O_RDWR | O_CREAT, 0600);
    if (ftruncate(fd, sizeof(Shared))) return 2;
    g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  } else {
    g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  }
  memset(g_sh->cls, 0, sizeof(g_sh->cls));
  InstallCrashHandlers();
  runtime::Init();
  uint64_t base = strtoull(a["--seed"].c_str(), 0, 10);

  if (cmd == "run") {
    // Runs start, start+stride, ... while < end, until the time limit.
    uint64_t start = strtoull(a["--start"].c_str(), 0, 10), end = strtoull(a["--end"].c_str(), 0, 10),
             stride = strtoull(a["--stride"].c_str(), 0, 10);
    double limit = atof(a["--time"].c_str()), t0 = Now();
    bool hashes = a["--hashes"] == "1";
    std::map<std::string, uint64_t> counters;
    std::unordered_set<uint64_t> sigs, all;
    uint64_t runs = 0, events = 0, simtime = 0, tapelen = 0, next = start;
    int nviol = 0;
    FILE* out = fopen(a["--out"].c_str(), "w");
    for (uint64_t r = start; r < end; r += stride) {
      if (Now() - t0 > limit) break;
      g_sh->run = r;
      {
        Sim s;
        s.rng = SeedFor(base, prop, r);
        Exec(w, &s);
        S = nullptr;
        runs++;
        next = r + stride;
        events += s.events;
        simtime += s.now;
        tapelen += s.pos;
        for (auto& c : s.counters) counters[c.first] += c.second;
        all.insert(s.hash);
        if (s.nontrivial) sigs.insert(s.sig);
        if (hashes) fprintf(out, "H %llu %016llx\n", (unsigned long long)r, (unsigned long long)s.hash);
        if (s.failed) {
          fprintf(out, "V {\"run\":%llu,\"class\":\"%s\",\"msg\":\"%s\"}\n", (unsigned long long)r,
                  JsonEsc(s.fail_class).c_str(), JsonEsc(s.fail_msg).c_str());
          fflush(out);
          if (++nviol >= 3) break;
        }
      }
    }
    fprintf(out, "S {\"runs\":%llu,\"next\":%llu,\"events\":%llu,\"sim_us\":%llu,\"choices\":%llu,\"distinct_logs\":%zu,\"counters\":{",
            (unsigned long long)runs, (unsigned long long)next, (unsigned long long)events, (unsigned long long)simtime,
            (unsigned long long)tapelen, all.size());
    bool first = true;
    for (auto& c : counters) {
      fprintf(out, "%s\"%s\":%llu", first ? "" : ",", JsonEsc(c.first).c_str(), (unsigned long long)c.second);
      first = false;
    }
    fprintf(out, "}}\n");
    for (uint64_t x : sigs) fprintf(out, "D %016llx\n", (unsigned long long)x);
    fclose(out);
    _exit(0);
  }
  if (cmd == "replay") {  // --tape F or --seed/--run; optional --trace OUT
    Outcome o;
    std::string tr = a["--trace"];
    Tape t;
    if (!a["--tape"].empty()) {
      t = ReadTape(a["--tape"].c_str());
      o = Child(w, &t, 0, nullptr, tr.empty() ? nullptr : tr.c_str());
    } else {
      o = Child(w, nullptr, SeedFor(base, prop, strtoull(a["--run"].c_str(), 0, 10)), &t, tr.empty() ? nullptr : tr.c_str());
      if (!a["--dump"].empty()) WriteTape(a["--dump"].c_str(), t);
    }
    PrintOutcome(o, t.size(), t.size(), 1);
    _exit(0);
  }
  if (cmd == "shrink") {  // --seed --run --out FILE --time SECONDS
    double t0 = Now(), limit = atof(a["--time"].c_str());
    uint64_t seed = SeedFor(base, prop, strtoull(a["--run"].c_str(), 0, 10));
    Tape best, rec2;
    Outcome o = Child(w, nullptr, seed, &best, nullptr);
    Outcome o2 = Child(w, nullptr, seed, &rec2, nullptr);
    size_t orig = best.size(), attempts = 2;
    if (o.cls.empty() || o.cls != o2.cls || o.hash != o2.hash || best != rec2) {
      fprintf(stderr, "seed does not repeat: %s %016llx / %s %016llx\n", o.cls.c_str(), (unsigned long long)o.hash,
              o2.cls.c_str(), (unsigned long long)o2.hash);
      _exit(3);
    }
    auto ok = [&](const Tape& t) {
      attempts++;
      return Child(w, &t, 0, nullptr, nullptr).cls == o.cls;
    };
    if (!ok(best)) {
      fprintf(stderr, "tape does not repeat\n");
      _exit(3);
    }
    auto left = [&] { return Now() - t0 < limit; };
    bool progress = true;
    while (progress && left()) {
      progress = false;
      // Truncate.
      for (size_t cut = best.size() / 2; cut >= 1 && left(); cut /= 2) {
        while (best.size() > cut && left()) {
          Tape t(best.begin(), best.end() - cut);
          if (!ok(t)) break;
          best = t;
          progress = true;
        }
      }
      // Delete chunks, then zero chunks.
      for (int pass = 0; pass < 2; pass++) {
        for (size_t n = best.size() / 2; n >= 1 && left(); n /= 2) {
          for (size_t i = 0; i + n <= best.size() && left();) {
            Tape t = best;
            if (pass == 0) {
              t.erase(t.begin() + i, t.begin() + i + n);
            } else {
              bool nz = false;
              for (size_t k = i; k < i + n; k++) {
                if (t[k]) nz = true;
                t[k] = 0;
              }
              if (!nz) {
                i += n;
                continue;
              }
            }
            if (ok(t)) {
              best = t;
              progress = true;
              if (pass == 1) i += n;
            } else {
              i += n;
            }
          }
        }
      }
      // Lower single values.
      for (size_t i = 0; i < best.size() && left(); i++) {
        while (best[i] > 0 && left()) {
          Tape t = best;
          t[i] /= 2;
          if (!ok(t)) {
            t[i] = best[i] - 1;
            if (best[i] < 2 || !ok(t)) break;
          }
          best = t;
          progress = true;
        }
      }
    }
    while (!best.empty() && best.back() == 0) best.pop_back();
    if (!ok(best)) best.push_back(0);
    o = Child(w, &best, 0, nullptr, nullptr);
    WriteTape(a["--out"].c_str(), best);
    PrintOutcome(o, orig, best.size(), attempts);
    _exit(0);
  }
  fprintf(stderr, "unknown command\n");
  return 2;
}
