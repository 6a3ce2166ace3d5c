#include "sched.h"

#include <malloc.h>
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <ucontext.h>
#include <unistd.h>

#include <algorithm>
#include <memory>
#include <new>
#include <unordered_map>

#include "runtime.h"

#define NOINST __attribute__((no_sanitize("thread")))
extern "C" void* __real_malloc(size_t);
extern "C" void* __real_calloc(size_t, size_t);
extern "C" void* __real_realloc(void*, size_t);
extern "C" void __real_free(void*);

namespace sched {
uint64_t total_points, total_switches;
namespace {
const int kMaxT = 10;           // 0 is the main context
const uint32_t kFreed = 0xF0000001u, kRed = 0xF0000002u;
const uint64_t kPointLimit = 30000000;
const uint64_t kForced = 200000;

typedef uint32_t Epoch;  // tid << 28 | clock
inline Epoch E(int t, uint32_t c) { return ((uint32_t)t << 28) | c; }
struct VC {
  uint32_t c[kMaxT];
  void Clear() { memset(c, 0, sizeof(c)); }
  void Join(const VC& o) {
    for (int i = 0; i < kMaxT; i++)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};
struct Fiber {
  ucontext_t ctx;
  std::function<void()> fn;
  const char* name = "";
  bool done = false;
  std::function<bool()> waiting;  // blocked while set
  const void* wait_obj = nullptr;
  VC vc;
  int in_lib = 0;
  std::vector<uint8_t> tls;
  std::vector<std::pair<void (*)(void*), void*>> atexit;
};

bool g_active = false;   // a run is in progress
bool g_running = false;  // fibers are being scheduled
bool g_abort = false;
int g_rt = 0;            // inside the runtime itself
int g_init = 0;          // inside initialisation of a function-local static
int g_cur = 0;
std::vector<Fiber*> g_f;  // [0] = main
ucontext_t g_main;
uint8_t* g_stacks = nullptr;
const size_t kStack = 1 << 20;

struct Rt {  // runtime section: no recording, no arena
  Rt() { g_rt++; }
  ~Rt() { g_rt--; }
};

// ---- schedule -----------------------------------------------------------------
uint64_t g_points, g_since, g_next;  // g_next: point at which to preempt (0 none)
int g_mode;
uint32_t g_syncp;
int g_preempts_left;

// ---- thread-local storage: that of the program and of the C++ library ------------
struct TlsPart {
  uint8_t* at;
  size_t size;
};
std::vector<TlsPart> g_tls;
std::vector<uint8_t> g_tls_image;

int PhdrCb(struct dl_phdr_info* i, size_t, void*) {
  if (i->dlpi_name && i->dlpi_name[0] && !strstr(i->dlpi_name, "libstdc++")) return 0;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) {
      size_t n = i->dlpi_phdr[k].p_memsz, at = g_tls_image.size();
      g_tls.push_back({(uint8_t*)i->dlpi_tls_data, n});
      g_tls_image.resize(at + n, 0);
      memcpy(g_tls_image.data() + at, (void*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr), i->dlpi_phdr[k].p_filesz);
    }
  }
  return 0;
}
bool IsTls(uintptr_t a) {
  for (auto& t : g_tls)
    if (a - (uintptr_t)t.at < t.size) return true;
  return false;
}
void SaveTls(std::vector<uint8_t>* v) {
  v->resize(g_tls_image.size());
  size_t o = 0;
  for (auto& t : g_tls) memcpy(v->data() + o, t.at, t.size), o += t.size;
}
void LoadTls(const std::vector<uint8_t>& v) {
  size_t o = 0;
  for (auto& t : g_tls) memcpy(t.at, v.data() + o, t.size), o += t.size;
}

// ---- shadow ---------------------------------------------------------------------
struct Cell {
  Epoch w;
  uint32_t wpc;
  Epoch r;
  uint32_t rpc;
};
const size_t kPage = 512;
struct Page {
  Cell c[kPage];
  bool atomics;
};
const size_t kTab = 1 << 18;
uint64_t* g_keys;
uint32_t* g_vals;
std::vector<uint32_t> g_used_slots;
std::vector<Page*> g_pages;
size_t g_npages;
uint64_t g_last_key;
Page* g_last_page;
struct RVec {
  Epoch e[kMaxT];
  uint32_t pc[kMaxT];
};
std::vector<RVec> g_rvecs;

Page* FindPage(uint64_t key, bool make) {
  if (g_last_key == key && g_last_page) return g_last_page;
  size_t i = (key * 0x9e3779b97f4a7c15ull) >> 46;
  while (g_keys[i]) {
    if (g_keys[i] == key + 1) {
      g_last_key = key;
      return g_last_page = g_pages[g_vals[i]];
    }
    i = (i + 1) % kTab;
  }
  if (!make) return nullptr;
  Rt rt;
  if (g_used_slots.size() > kTab / 2) {
    fprintf(stderr, "shadow table full\n");
    _exit(98);
  }
  if (g_npages == g_pages.size()) g_pages.push_back((Page*)__real_malloc(sizeof(Page)));
  memset(g_pages[g_npages], 0, sizeof(Page));
  g_keys[i] = key + 1;
  g_vals[i] = g_npages++;
  g_used_slots.push_back(i);
  g_last_key = key;
  return g_last_page = g_pages[g_vals[i]];
}
void ResetShadow() {
  for (uint32_t s : g_used_slots) g_keys[s] = 0;
  g_used_slots.clear();
  g_npages = 0;
  g_last_page = nullptr;
  g_rvecs.clear();
}

struct ACell {
  size_t size = 0;
  VC sync;
  uint32_t w[kMaxT] = {0}, r[kMaxT] = {0};
  uint32_t pc = 0;
};
std::map<uintptr_t, ACell> g_atomics;
VC g_fence;

// ---- locks ----------------------------------------------------------------------
struct LockState {
  int owner = -1;
  int readers = 0;
  int depth = 0;  // further locks of a recursive mutex by its owner
  VC vc;
};
std::map<const void*, LockState> g_locks;
std::map<const void*, VC> g_objs;

// ---- arena ----------------------------------------------------------------------
uint8_t* const kArena = (uint8_t*)0x200000000000ull;
const size_t kArenaSize = 4ull << 30;
uint8_t *g_base, *g_bump;
size_t g_live, g_live_bytes;
struct Hdr {
  uint64_t magic;
  uint64_t size;
};
const uint64_t kLive = 0x5ca1ab1e5ca1ab1eull, kDead = 0xdeadf7eedeadf7eeull;
inline bool InArena(const void* p) { return (uint8_t*)p >= kArena && (uint8_t*)p < kArena + kArenaSize; }

[[noreturn]] void ToMain() {
  g_abort = true;
  if (g_cur != 0) {
    setcontext(&g_main);
  }
  throw sim::StopRun();
}
void Violation(const std::string& cls, const std::string& msg) {
  Rt rt;
  S->Note(cls, msg);
}
// Ends the run from inside a simulated thread after a violation was noted.
void Bail() {
  if (g_cur != 0 && g_running) {
    g_rt = 0;
    g_init = 0;
    ToMain();
  }
}
std::string Hex(uint64_t x) {
  char b[32];
  snprintf(b, sizeof(b), "pc=0x%llx", (unsigned long long)x);
  return b;
}

// ---- switching --------------------------------------------------------------------
void SwitchTo(int t) {
  if (t == g_cur) return;
  Fiber* a = g_f[g_cur];
  Fiber* b = g_f[t];
  a->in_lib = flt::in_lib;
  SaveTls(&a->tls);
  LoadTls(b->tls);
  int e = errno;
  g_cur = t;
  g_since = 0;
  flt::in_lib = b->in_lib;
  total_switches++;
  int rt = g_rt;
  g_rt = 0;
  swapcontext(&a->ctx, &b->ctx);
  g_rt = rt;
  errno = e;
}
bool Runnable(int t) {
  Fiber* f = g_f[t];
  if (f->done) return false;
  if (!f->waiting) return true;
  int saved = flt::in_lib;
  flt::in_lib = 0;
  bool r = f->waiting();
  flt::in_lib = saved;
  return r;
}
void LogSwitch(int from, int to, const char* why, uint64_t pc) {
  if (pc >> 32) pc = 0;  // outside the executable: not a stable address
  sim::Sim::Fold(S->sig, from * 16 + to);
  sim::Sim::Fold(S->sig, pc);
  sim::Sim::Fold(S->hash, from * 16 + to);
  sim::Sim::Fold(S->hash, pc);
  if (S->mirror_hash) *S->mirror_hash = S->hash;
  S->events++;
  if (S->tracing) {
    char b[160];
    snprintf(b, sizeof(b), "switch %s -> %s (%s, point %llu) pc=0x%llx", g_f[from]->name, g_f[to]->name, why,
             (unsigned long long)g_points, (unsigned long long)pc);
    S->Line(b);
  }
}
// Chooses among the runnable threads; |me| first when it may stay.
void Choose(bool may_stay, const char* why, uint64_t pc, uint32_t stay_weight) {
  int cand[kMaxT], n = 0;
  int me = g_cur;
  for (int t = 1; t < (int)g_f.size(); t++)
    if (t != me && Runnable(t)) cand[n++] = t;
  if (may_stay) {
    if (n == 0) return;
    uint32_t v = 0;
    if (!S->replay) {
      uint32_t r = S->Raw() % (stay_weight + 1);
      v = r < stay_weight ? 0 : 1 + S->Raw() % n;
    }
    v = S->Take(n + 1, v);
    if (v == 0) return;
    S->nontrivial = true;
    S->counters["fault.preempt"]++;
    LogSwitch(me, cand[v - 1], why, pc);
    SwitchTo(cand[v - 1]);
    return;
  }
  bool selfok = Runnable(me);
  if (n == 0) {
    if (selfok) return;
    bool all = true;
    for (int t = 1; t < (int)g_f.size(); t++)
      if (!g_f[t]->done) all = false;
    if (all) {  // back to main
      SwitchTo(0);
      return;
    }
    std::string m = "no simulated thread can make progress; blocked:";
    for (int t = 1; t < (int)g_f.size(); t++)
      if (!g_f[t]->done) m += std::string(" ") + g_f[t]->name;
    Violation("deadlock", m);
    g_rt = 0;
    ToMain();
  }
  if (selfok) cand[n++] = me;
  uint32_t v = S->Pick(n);
  if (cand[v] == me) return;
  LogSwitch(me, cand[v], why, pc);
  SwitchTo(cand[v]);
}
void DrawGap() {
  if (g_preempts_left <= 0) {
    g_next = 0;
    return;
  }
  g_preempts_left--;
  // 0 = no further preemption; otherwise log-uniform distance.
  uint32_t k = S->Pick(17);
  if (k == 0) {
    g_next = 0;
    g_preempts_left = 0;
    return;
  }
  uint64_t lo = 1ull << (k - 1);
  g_next = g_points + lo + S->Pick((uint32_t)lo);
}
__attribute__((noinline)) void SlowPoint(uint64_t pc) {
  Rt rt;
  if (g_points > kPointLimit) {
    Violation("hang", "no completion within " + std::to_string(kPointLimit) + " scheduling points");
    g_rt = 0;
    ToMain();
  }
  if (g_since > kForced) {
    g_since = 0;
    Choose(false, "time slice", pc, 0);
    return;
  }
  DrawGap();
  Choose(true, "preempted", pc, 0);
}
inline void MemPoint(uint64_t pc) {
  if (!g_running || g_cur == 0) return;
  g_points++;
  g_since++;
  total_points++;
  if (g_points == g_next || g_since > kForced || g_points > kPointLimit) SlowPoint(pc);
}
void SyncPoint(const char* why, uint64_t pc) {
  if (!g_running || g_cur == 0 || g_init) return;
  g_points++;
  total_points++;
  Rt rt;
  if (g_points > kPointLimit || ++g_since > kForced) return SlowPoint(pc);
  if (g_mode != 1) Choose(true, why, pc, g_syncp);
}
void Yield(uint64_t pc) {  // lets the others go first
  if (!g_running || g_cur == 0 || g_init) return;
  g_points++;
  total_points++;
  Rt rt;
  if (g_points > kPointLimit) SlowPoint(pc);
  Choose(false, "yield", pc, 0);
}
inline VC& Mine() { return g_f[g_cur]->vc; }
void Tick() { Mine().c[g_cur]++; }

// ---- race detection -----------------------------------------------------------------
inline bool Hb(Epoch e) {  // e happens before the current thread's now
  return (e & 0x0fffffff) <= Mine().c[e >> 28];
}
std::string Who(int t) { return t < (int)g_f.size() ? g_f[t]->name : "?"; }
void Race(const char* what, uint64_t addr, uint64_t pc, int ot, uint32_t opc, const char* owhat) {
  Rt rt;
  (void)addr;
  Violation("data-race", std::string(what) + " by " + Who(g_cur) + " at " + Hex(pc) + " is unordered with " + owhat +
                             " by " + Who(ot) + " at " + Hex(opc));
  g_rt = 0;
  if (g_cur != 0) ToMain();
}
void BadAccess(bool write, uint32_t state, uint64_t pc, uint32_t opc) {
  {
    Rt rt;
    if (state == kFreed)
      Violation("use-after-free", std::string(write ? "write" : "read") + " by " + Who(g_cur) + " at " + Hex(pc) +
                                      " of memory freed at " + Hex(opc));
    else
      Violation("out-of-bounds", std::string(write ? "write" : "read") + " by " + Who(g_cur) + " at " + Hex(pc) +
                                     " outside any live heap block");
  }
  Bail();
}
void CheckAtomicsPlain(uintptr_t a, size_t n, bool write, uint64_t pc) {
  g_rt++;
  auto it = g_atomics.lower_bound(a >= 16 ? a - 16 : 0);
  for (; it != g_atomics.end() && it->first < a + n; ++it) {
    if (it->first + it->second.size <= a) continue;
    for (int t = 0; t < (int)g_f.size(); t++) {
      if (t == g_cur) continue;
      uint32_t lim = Mine().c[t];
      if (it->second.w[t] > lim || (write && it->second.r[t] > lim)) {
        uint32_t opc = it->second.pc;
        g_rt--;
        Race(write ? "write" : "read", a, pc, t, opc, "an atomic access");
        return;
      }
    }
  }
  g_rt--;
}
inline bool Recording() { return g_active && flt::in_lib && !g_rt && !g_init; }
void Record(uintptr_t a, size_t n, bool write, uint64_t pc) {
  if (IsTls(a)) return;
  const Epoch me = E(g_cur, Mine().c[g_cur]);
  while (n) {
    uint64_t key = a / kPage;
    size_t off = a % kPage;
    size_t m = std::min(n, kPage - off);
    Page* p = FindPage(key, true);
    if (p->atomics) CheckAtomicsPlain(a, m, write, pc);
    Cell* c = p->c + off;
    for (size_t k = 0; k < m; k++, c++) {
      if (c->w != me && c->w) {
        if (c->w >= 0xF0000000u) {
          BadAccess(write, c->w, pc, c->wpc);
          return;
        }
        if (!Hb(c->w)) {
          Race(write ? "write" : "read", a + k, pc, c->w >> 28, c->wpc, "a write");
          return;
        }
      }
      if (write) {
        if (c->r) {
          if ((c->r >> 28) == 14) {
            RVec& v = g_rvecs[c->r & 0x0fffffff];
            for (int t = 0; t < kMaxT; t++)
              if (v.e[t] && !Hb(v.e[t])) {
                Race("write", a + k, pc, t, v.pc[t], "a read");
                return;
              }
          } else if (!Hb(c->r)) {
            Race("write", a + k, pc, c->r >> 28, c->rpc, "a read");
            return;
          }
        }
        c->w = me;
        c->wpc = (uint32_t)pc;
        c->r = 0;
      } else {
        if (c->r == 0 || (c->r >> 28) == (uint32_t)g_cur || ((c->r >> 28) != 14 && Hb(c->r))) {
          c->r = me;
          c->rpc = (uint32_t)pc;
        } else if ((c->r >> 28) == 14) {
          RVec& v = g_rvecs[c->r & 0x0fffffff];
          v.e[g_cur] = me;
          v.pc[g_cur] = (uint32_t)pc;
        } else {
          g_rt++;
          RVec v;
          memset(&v, 0, sizeof(v));
          v.e[c->r >> 28] = c->r;
          v.pc[c->r >> 28] = c->rpc;
          v.e[g_cur] = me;
          v.pc[g_cur] = (uint32_t)pc;
          c->r = 0xE0000000u | (uint32_t)g_rvecs.size();
          g_rvecs.push_back(v);
          g_rt--;
        }
      }
    }
    a += m;
    n -= m;
  }
}
inline void Access(const void* p, size_t n, bool write, uint64_t pc) {
  if (!Recording() || n == 0) return;
  MemPoint(pc);
  Record((uintptr_t)p, n, write, pc);
}
void SetCells(uintptr_t a, size_t n, uint32_t w, uint64_t pc) {
  while (n) {
    Page* p = FindPage(a / kPage, w != 0);
    size_t off = a % kPage;
    size_t m = std::min(n, kPage - off);
    if (p) {
      Cell* c = p->c + off;
      for (size_t k = 0; k < m; k++, c++) {
        c->w = w;
        c->wpc = (uint32_t)pc;
        c->r = 0;
      }
    }
    a += m;
    n -= m;
  }
}
void DropAtomics(uintptr_t a, size_t n) {
  if (g_atomics.empty()) return;
  g_rt++;
  auto it = g_atomics.lower_bound(a);
  while (it != g_atomics.end() && it->first < a + n) it = g_atomics.erase(it);
  g_rt--;
}
bool HasAtomics(uintptr_t a, size_t n) {
  auto it = g_atomics.lower_bound(a);
  return it != g_atomics.end() && it->first < a + n;
}

// ---- heap -----------------------------------------------------------------------------
void* ArenaAlloc(size_t n, size_t align, uint64_t pc) {
  if (align < 16) align = 16;
  uintptr_t p = (uintptr_t)g_bump + sizeof(Hdr) + 16;
  p = (p + align - 1) / align * align;
  if (p + n + 64 > (uintptr_t)kArena + kArenaSize) {
    fprintf(stderr, "arena exhausted\n");
    _exit(98);
  }
  Hdr* h = (Hdr*)(p - sizeof(Hdr));
  h->magic = kLive;
  h->size = n;
  SetCells(p - 16, 16, kRed, 0);
  SetCells(p + n, 16, kRed, 0);
  memset((void*)p, 0xbe, n);
  g_bump = (uint8_t*)((p + n + 16 + 15) / 16 * 16);
  g_live++;
  g_live_bytes += n;
  (void)pc;
  return (void*)p;
}
void ArenaFree(void* ptr, uint64_t pc) {
  Hdr* h = (Hdr*)((uint8_t*)ptr - sizeof(Hdr));
  if (h->magic != kLive) {
    {
      Rt rt;
      Violation(h->magic == kDead ? "double-free" : "bad-free", "invalid free by " + Who(g_cur) + " at " + Hex(pc));
    }
    Bail();
    return;
  }
  if (g_active && !g_init && !HasAtomics((uintptr_t)ptr, h->size)) {
    // Freeing is a write for the purpose of race detection.
    if (!g_rt) {
      if (flt::in_lib) MemPoint(pc);
      if (h->magic == kLive && !S->failed) Record((uintptr_t)ptr, h->size, true, pc);
    }
  }
  if (h->magic != kLive) {
    {
      Rt rt;
      Violation("double-free", "invalid free by " + Who(g_cur) + " at " + Hex(pc));
    }
    Bail();
    return;
  }
  h->magic = kDead;
  g_live--;
  g_live_bytes -= h->size;
  DropAtomics((uintptr_t)ptr, h->size);
  SetCells((uintptr_t)ptr, h->size, kFreed, pc);
  memset(ptr, 0xdf, h->size);
}
void* Alloc(size_t n, size_t align, uint64_t pc) {
  if (g_active && flt::in_lib && !g_rt && !g_init) {
    MemPoint(pc);
    return ArenaAlloc(n ? n : 1, align, pc);
  }
  void* p;
  if (align > 16) {
    if (posix_memalign(&p, align, n ? n : 1)) p = nullptr;
  } else {
    p = __real_malloc(n ? n : 1);
  }
  if (g_active && p && n) {
    g_rt++;
    SetCells((uintptr_t)p, n, 0, 0);
    DropAtomics((uintptr_t)p, n);
    g_rt--;
  }
  return p;
}
void Free(void* p, uint64_t pc) {
  if (!p) return;
  if (InArena(p)) {
    ArenaFree(p, pc);
    return;
  }
  if (g_active) {  // the SSL library may get it next, unseen
    g_rt++;
    size_t n = malloc_usable_size(p);
    SetCells((uintptr_t)p, n, 0, 0);
    DropAtomics((uintptr_t)p, n);
    g_rt--;
  }
  __real_free(p);
}

// ---- locks ----------------------------------------------------------------------------
void LockEx(const void* m, uint64_t pc) {
  SyncPoint("lock", pc);
  Rt rt;
  LockState& l = g_locks[m];
  while (l.owner != -1 || l.readers) {
    if (l.owner == g_cur) {
      Violation("deadlock", Who(g_cur) + " locks a mutex it already holds at " + Hex(pc));
      g_rt = 0;
      ToMain();
    }
    if (g_cur == 0 || !g_running) {
      Violation("deadlock", "a mutex is still locked outside the simulated threads at " + Hex(pc));
      g_rt = 0;
      ToMain();
    }
    S->counters["probe.lock_contended"]++;
    g_f[g_cur]->waiting = [m] {
      LockState& s = g_locks[m];
      return s.owner == -1 && !s.readers;
    };
    Choose(false, "blocked on a lock", pc, 0);
    g_f[g_cur]->waiting = nullptr;
  }
  l.owner = g_cur;
  Mine().Join(l.vc);
}
bool TryEx(const void* m, uint64_t pc) {
  SyncPoint("trylock", pc);
  Rt rt;
  LockState& l = g_locks[m];
  if (l.owner != -1 || l.readers) return false;
  l.owner = g_cur;
  Mine().Join(l.vc);
  return true;
}
void UnlockEx(const void* m, uint64_t pc) {
  {
    Rt rt;
    LockState& l = g_locks[m];
    if (l.owner != g_cur) {
      Violation("lock-misuse", Who(g_cur) + " unlocks a mutex it does not hold at " + Hex(pc));
      g_rt = 0;
      Bail();
      return;
    }
    l.owner = -1;
    l.vc.Join(Mine());
    Tick();
  }
  SyncPoint("unlock", pc);
}
void LockSh(const void* m, uint64_t pc) {
  SyncPoint("reader lock", pc);
  Rt rt;
  LockState& l = g_locks[m];
  while (l.owner != -1) {
    if (l.owner == g_cur || g_cur == 0 || !g_running) {
      Violation("deadlock", Who(g_cur) + " locks a mutex that can never become free at " + Hex(pc));
      g_rt = 0;
      ToMain();
    }
    S->counters["probe.lock_contended"]++;
    g_f[g_cur]->waiting = [m] { return g_locks[m].owner == -1; };
    Choose(false, "blocked on a lock", pc, 0);
    g_f[g_cur]->waiting = nullptr;
  }
  l.readers++;
  Mine().Join(l.vc);
}
bool TrySh(const void* m, uint64_t pc) {
  SyncPoint("trylock", pc);
  Rt rt;
  LockState& l = g_locks[m];
  if (l.owner != -1) return false;
  l.readers++;
  Mine().Join(l.vc);
  return true;
}
void UnlockSh(const void* m, uint64_t pc) {
  {
    Rt rt;
    LockState& l = g_locks[m];
    if (l.readers <= 0) {
      Violation("lock-misuse", Who(g_cur) + " unlocks a mutex it does not hold at " + Hex(pc));
      g_rt = 0;
      Bail();
      return;
    }
    l.readers--;
    l.vc.Join(Mine());
    Tick();
  }
  SyncPoint("unlock", pc);
}
void UnlockAny(const void* m, uint64_t pc) {
  bool sh;
  {
    Rt rt;
    LockState& l = g_locks[m];
    sh = l.owner == -1 && l.readers > 0;
  }
  if (sh) UnlockSh(m, pc);
  else UnlockEx(m, pc);
}
void LockDestroy(const void* m) {
  Rt rt;
  auto it = g_locks.find(m);
  if (it == g_locks.end()) return;
  if (it->second.owner != -1 || it->second.readers) Violation("lock-misuse", "a locked mutex is destroyed");
  g_locks.erase(it);
}
bool Ours() { return g_active && flt::in_lib && !g_rt; }

// ---- fibers ---------------------------------------------------------------------------
void Main() {
  int me = g_cur;
  g_rt = 0;
  try {
    g_f[me]->fn();
  } catch (sim::StopRun&) {
    ToMain();
  }
  flt::in_lib = 1;
  while (!g_f[me]->atexit.empty()) {
    auto d = g_f[me]->atexit.back();
    g_f[me]->atexit.pop_back();
    d.first(d.second);
  }
  flt::in_lib = 0;
  g_rt++;
  g_f[me]->done = true;
  g_f[me]->fn = nullptr;
  if (S->failed) {
    g_rt = 0;
    ToMain();
  }
  Choose(false, "finished", 0, 0);
  // A finished thread is never resumed.
  abort();
}
std::map<std::string, char*> g_env;
}  // namespace

void Init() {
  g_keys = (uint64_t*)calloc(kTab, sizeof(uint64_t));
  g_vals = (uint32_t*)calloc(kTab, sizeof(uint32_t));
  void* a = mmap(kArena, kArenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (a != kArena) {
    perror("arena");
    _exit(98);
  }
  g_base = g_bump = kArena + 4096;
  g_stacks = (uint8_t*)mmap((void*)0x210000000000ull, (kStack + 4096) * kMaxT, PROT_READ | PROT_WRITE,
                            MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (g_stacks == MAP_FAILED) {
    perror("stacks");
    _exit(98);
  }
  for (int t = 0; t < kMaxT; t++) mprotect(g_stacks + t * (kStack + 4096), 4096, PROT_NONE);
  dl_iterate_phdr(PhdrCb, nullptr);
  __libc_single_threaded = 0;
}
static void FreshMain() {
  for (Fiber* f : g_f) delete f;
  g_f.clear();
  Fiber* m = new Fiber;
  m->name = "main";
  m->vc.Clear();
  m->vc.c[0] = 1;
  SaveTls(&m->tls);
  g_f.push_back(m);
  g_cur = 0;
}
void BeginRun() {
  ResetShadow();
  g_atomics.clear();
  g_fence.Clear();
  g_locks.clear();
  g_objs.clear();
  FreshMain();
  g_points = g_since = g_next = 0;
  g_running = g_abort = false;
  g_rt = g_init = 0;
  if (g_live) g_base = g_bump;
  g_bump = g_base;
  g_live = g_live_bytes = 0;
  g_active = true;
}
void EndRun() {
  EnvClear();
  if (S && S->failed) g_base = g_bump;  // abandoned threads still hold memory
  g_active = g_running = false;
  g_rt = g_init = 0;
}
size_t LiveBlocks(size_t* bytes) {
  *bytes = g_live_bytes;
  return g_live;
}
int Spawn(const char* name, std::function<void()> fn) {
  Rt rt;
  int t = (int)g_f.size();
  if (t >= kMaxT) abort();
  Fiber* f = new Fiber;
  f->name = name;
  f->fn = fn;
  f->vc = g_f[0]->vc;
  f->vc.c[t] = 1;
  g_f[0]->vc.c[0]++;
  f->tls = g_tls_image;
  getcontext(&f->ctx);
  f->ctx.uc_stack.ss_sp = g_stacks + t * (kStack + 4096) + 4096;
  f->ctx.uc_stack.ss_size = kStack;
  f->ctx.uc_link = nullptr;
  makecontext(&f->ctx, Main, 0);
  g_f.push_back(f);
  return t;
}
void Run() {
  int saved = flt::in_lib;
  {
    Rt rt;
    flt::in_lib = 0;
    g_mode = S->Pick(3);  // 0 switch at synchronisation points, 1 preempt anywhere, 2 both
    static const uint32_t stay[] = {20, 6, 2, 1};
    g_syncp = stay[S->Pick(4)];
    g_preempts_left = g_mode == 0 ? 0 : (S->Chance(1, 6) ? 60 : 1 + S->Pick(6));
    g_running = true;
    g_abort = false;
    g_points = g_since = 0;
    DrawGap();
    if (g_f.size() > 1) {
      volatile bool back = false;
      getcontext(&g_main);
      if (!back && !g_abort) {
        back = true;
        int first = 1 + S->Pick((uint32_t)g_f.size() - 1);
        SwitchTo(first);  // returns when every thread has finished
      }
    }
    g_running = false;
    g_rt = 1;
    g_init = 0;
    if (g_abort) {
      // Arrived through setcontext from an abandoned thread.
      g_cur = 0;
      LoadTls(g_f[0]->tls);
    }
    flt::in_lib = saved;
    for (auto* f : g_f) g_f[0]->vc.Join(f->vc);
    g_f[0]->vc.c[0]++;
    S->counters["scheduling_points"] += g_points;
  }
  g_rt = 0;
  if (g_abort || S->failed) throw sim::StopRun();
}
int Self() { return g_cur; }
void Point(const char* what) { SyncPoint(what, (uint64_t)__builtin_return_address(0)); }
void WaitUntil(std::function<bool()> ready, const void* obj) {
  Rt rt;
  SyncPoint("wait", 0);
  if (!ready()) {
    g_f[g_cur]->waiting = ready;
    Choose(false, "waiting", 0, 0);
    g_f[g_cur]->waiting = nullptr;
  }
  if (obj) Mine().Join(g_objs[obj]);
}
void Publish(const void* obj) {
  Rt rt;
  g_objs[obj].Join(Mine());
  Tick();
}
void OnRead(const void* p, size_t n) { Access(p, n, false, (uint64_t)__builtin_return_address(0)); }
void OnWrite(const void* p, size_t n) { Access(p, n, true, (uint64_t)__builtin_return_address(0)); }
// Handles of the SSL library are tracked at an address of their own: the library may reuse the memory of a
// released handle for something else without passing through the simulator's allocator.
inline const void* Shadowed(const void* p) { return (const void*)((uintptr_t)p ^ 0x4000000000000000ull); }
void HandleNew(const void* p) {
  if (g_active && p) {
    g_rt++;
    SetCells((uintptr_t)Shadowed(p), 1, 0, 0);
    g_rt--;
  }
}
void HandleUse(const void* p, bool write) {
  if (p) Access(Shadowed(p), 1, write, (uint64_t)__builtin_return_address(0));
}
void HandleFree(const void* p) {
  if (!p) return;
  Access(Shadowed(p), 1, true, (uint64_t)__builtin_return_address(0));
  if (g_active && !S->failed)
    SetCells((uintptr_t)Shadowed(p), 1, kFreed, (uint64_t)__builtin_return_address(0));
}
char* CheckedAlloc(size_t n) {
  Rt rt;
  char* p = (char*)ArenaAlloc(n, 16, 0);
  g_live--;
  g_live_bytes -= n;
  return p;
}
void CheckedFree(char* p) {
  Rt rt;
  g_live++;
  g_live_bytes += ((Hdr*)(p - sizeof(Hdr)))->size;
  ArenaFree(p, 0);
}
void EnvSet(const std::string& name, const std::string* value) {
  Rt rt;
  auto it = g_env.find(name);
  if (it != g_env.end()) {
    CheckedFree(it->second);
    g_env.erase(it);
  }
  if (value) {
    char* p = CheckedAlloc(value->size() + 1);
    memcpy(p, value->c_str(), value->size() + 1);
    g_env[name] = p;
  }
}
void EnvClear() {
  Rt rt;
  g_env.clear();
}
}  // namespace sched

using namespace sched;
#define PC ((uint64_t)__builtin_return_address(0))

// ---- instrumentation entry points -------------------------------------------------------
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N)                                                             \
  void __tsan_read##N(void* p) { Access(p, N, false, PC); }               \
  void __tsan_write##N(void* p) { Access(p, N, true, PC); }               \
  void __tsan_read_write##N(void* p) {                                    \
    Access(p, N, false, PC);                                              \
    Access(p, N, true, PC);                                               \
  }                                                                       \
  void __tsan_volatile_read##N(void* p) { Access(p, N, false, PC); }      \
  void __tsan_volatile_write##N(void* p) { Access(p, N, true, PC); }      \
  void __tsan_unaligned_read##N(void* p) { Access(p, N, false, PC); }     \
  void __tsan_unaligned_write##N(void* p) { Access(p, N, true, PC); }     \
  void __tsan_unaligned_read_write##N(void* p) {                          \
    Access(p, N, false, PC);                                              \
    Access(p, N, true, PC);                                               \
  }                                                                       \
  void __tsan_unaligned_volatile_read##N(void* p) { Access(p, N, false, PC); } \
  void __tsan_unaligned_volatile_write##N(void* p) { Access(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { Access(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { Access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void*) { Access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { Access(p, 8, false, PC); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) {
  Access(s, n, false, PC);
  Access(d, n, true, PC);
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, unsigned long n) {
  Access(s, n, false, PC);
  Access(d, n, true, PC);
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, unsigned long n) {
  Access(d, n, true, PC);
  return memset(d, c, n);
}
void __tsan_mutex_create(void*, unsigned) {}
void __tsan_mutex_destroy(void*, unsigned) {}
void __tsan_mutex_pre_lock(void*, unsigned) {}
void __tsan_mutex_post_lock(void*, unsigned, int) {}
int __tsan_mutex_pre_unlock(void*, unsigned) { return 0; }
void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_pre_signal(void*, unsigned) {}
void __tsan_mutex_post_signal(void*, unsigned) {}
void __tsan_mutex_pre_divert(void*, unsigned) {}
void __tsan_mutex_post_divert(void*, unsigned) {}
void __tsan_acquire(void*) {}
void __tsan_release(void*) {}
void AnnotateRWLockCreate(const char*, int, const volatile void*) {}
void AnnotateRWLockDestroy(const char*, int, const volatile void*) {}
void AnnotateRWLockAcquired(const char*, int, const volatile void*, long) {}
void AnnotateRWLockReleased(const char*, int, const volatile void*, long) {}
void AnnotateHappensBefore(const char*, int, const volatile void*) {}
void AnnotateHappensAfter(const char*, int, const volatile void*) {}
void AnnotateBenignRaceSized(const char*, int, const volatile void*, size_t, const char*) {}
void AnnotateIgnoreReadsBegin(const char*, int) {}
void AnnotateIgnoreReadsEnd(const char*, int) {}
void AnnotateIgnoreWritesBegin(const char*, int) {}
void AnnotateIgnoreWritesEnd(const char*, int) {}
}

// ---- atomics ----------------------------------------------------------------------------
namespace {
enum { kRelaxed = 0, kConsume = 1, kAcquire = 2, kRelease = 3, kAcqRel = 4, kSeqCst = 5 };
bool Acq(int mo) { return mo == kConsume || mo == kAcquire || mo == kAcqRel || mo == kSeqCst; }
bool Rel(int mo) { return mo == kRelease || mo == kAcqRel || mo == kSeqCst; }
void Atomic(volatile void* vp, size_t n, bool rd, bool wr, int mo, uint64_t pc) {
  if (!Recording()) return;
  MemPoint(pc);
  // Atomics are also synchronisation points.
  SyncPoint("atomic", pc);
  uintptr_t a = (uintptr_t)vp;
  if (IsTls(a)) return;
  Page* p = FindPage(a / kPage, true);
  Cell* c = p->c + a % kPage;
  if (c->w >= 0xF0000000u) {
    BadAccess(wr, c->w, pc, c->wpc);
    return;
  }
  if (c->w && !Hb(c->w)) {
    Race(wr ? "atomic write" : "atomic read", a, pc, c->w >> 28, c->wpc, "a plain write");
    return;
  }
  if (wr && c->r) {
    if ((c->r >> 28) == 14) {
      RVec& v = g_rvecs[c->r & 0x0fffffff];
      for (int t = 0; t < kMaxT; t++)
        if (v.e[t] && !Hb(v.e[t])) {
          Race("atomic write", a, pc, t, v.pc[t], "a plain read");
          return;
        }
    } else if (!Hb(c->r)) {
      Race("atomic write", a, pc, c->r >> 28, c->rpc, "a plain read");
      return;
    }
  }
  Rt rt;
  p->atomics = true;
  ACell& x = g_atomics[a];
  x.size = n;
  x.pc = (uint32_t)pc;
  if (rd) {
    x.r[g_cur] = Mine().c[g_cur];
    if (Acq(mo)) Mine().Join(x.sync);
  }
  if (wr) {
    x.w[g_cur] = Mine().c[g_cur];
    if (Rel(mo)) {
      if (!rd) x.sync.Clear();  // a plain store starts a new release sequence
      x.sync.Join(Mine());
      Tick();
    } else if (!rd) {
      x.sync.Clear();
    }
  }
}
}  // namespace
typedef unsigned char a8;
typedef unsigned short a16;
typedef unsigned int a32;
typedef unsigned long a64;
typedef unsigned __int128 a128;
extern "C" {
#define ATOMICS(B)                                                                                      \
  a##B __tsan_atomic##B##_load(const volatile a##B* p, int mo) {                                        \
    Atomic((volatile void*)p, B / 8, true, false, mo, PC);                                              \
    return *p;                                                                                          \
  }                                                                                                     \
  void __tsan_atomic##B##_store(volatile a##B* p, a##B v, int mo) {                                     \
    Atomic(p, B / 8, false, true, mo, PC);                                                              \
    *p = v;                                                                                             \
  }                                                                                                     \
  a##B __tsan_atomic##B##_exchange(volatile a##B* p, a##B v, int mo) {                                  \
    Atomic(p, B / 8, true, true, mo, PC);                                                               \
    a##B o = *p;                                                                                        \
    *p = v;                                                                                             \
    return o;                                                                                           \
  }                                                                                                     \
  a##B __tsan_atomic##B##_fetch_add(volatile a##B* p, a##B v, int mo) {                                 \
    Atomic(p, B / 8, true, true, mo, PC);                                                               \
    a##B o = *p;                                                                                        \
    *p = o + v;                                                                                         \
    return o;                                                                                           \
  }                                                                                                     \
  a##B __tsan_atomic##B##_fetch_sub(volatile a##B* p, a##B v, int mo) {                                 \
    Atomic(p, B / 8, true, true, mo, PC);                                                               \
    a##B o = *p;                                                                                        \
    *p = o - v;                                                                                         \
    return o;                                                                                           \
  }                                                                                                     \
  a##B __tsan_atomic##B##_fetch_and(volatile a##B* p, a##B v, int mo) {                                 \
    Atomic(p, B / 8, true, true, mo, PC);                                                               \
    a##B o = *p;                                                                                        \
    *p = o & v;                                                                                         \
    return o;                                                                                           \
  }                                                                                                     \
  a##B __tsan_atomic##B##_fetch_or(volatile a##B* p, a##B v, int mo) {                                  \
    Atomic(p, B / 8, true, true, mo, PC);                                                               \
    a##B o = *p;                                                                                        \
    *p = o | v;                                                                                         \
    return o;                                                                                           \
  }                                                                                                     \
  a##B __tsan_atomic##B##_fetch_xor(volatile a##B* p, a##B v, int mo) {                                 \
    Atomic(p, B / 8, true, true, mo, PC);                                                               \
    a##B o = *p;                                                                                        \
    *p = o ^ v;                                                                                         \
    return o;                                                                                           \
  }                                                                                                     \
  a##B __tsan_atomic##B##_fetch_nand(volatile a##B* p, a##B v, int mo) {                                \
    Atomic(p, B / 8, true, true, mo, PC);                                                               \
    a##B o = *p;                                                                                        \
    *p = ~(o & v);                                                                                      \
    return o;                                                                                           \
  }                                                                                                     \
  int __tsan_atomic##B##_compare_exchange_strong(volatile a##B* p, a##B* e, a##B v, int mo, int fmo) {  \
    SyncPoint("atomic", PC);                                                                            \
    bool ok = *p == *e;                                                                                 \
    Atomic(p, B / 8, true, ok, ok ? mo : fmo, PC);                                                      \
    ok = *p == *e;                                                                                      \
    if (ok) *p = v;                                                                                     \
    else *e = *p;                                                                                       \
    return ok;                                                                                          \
  }                                                                                                     \
  int __tsan_atomic##B##_compare_exchange_weak(volatile a##B* p, a##B* e, a##B v, int mo, int fmo) {    \
    return __tsan_atomic##B##_compare_exchange_strong(p, e, v, mo, fmo);                                \
  }                                                                                                     \
  a##B __tsan_atomic##B##_compare_exchange_val(volatile a##B* p, a##B e, a##B v, int mo, int fmo) {     \
    __tsan_atomic##B##_compare_exchange_strong(p, &e, v, mo, fmo);                                      \
    return e;                                                                                           \
  }
ATOMICS(8) ATOMICS(16) ATOMICS(32) ATOMICS(64) ATOMICS(128)
void __tsan_atomic_thread_fence(int) {
  if (!Recording()) return;
  Rt rt;
  Mine().Join(g_fence);
  g_fence.Join(Mine());
  Tick();
}
void __tsan_atomic_signal_fence(int) {}
}

// ---- heap entry points --------------------------------------------------------------------
extern "C" {
void* __wrap_malloc(size_t n) { return Alloc(n, 16, PC); }
void __wrap_free(void* p) { Free(p, PC); }
void* __wrap_calloc(size_t a, size_t b) {
  void* p = Alloc(a * b, 16, PC);
  if (p) memset(p, 0, a * b);
  return p;
}
void* __wrap_realloc(void* o, size_t n) {
  if (!o) return Alloc(n, 16, PC);
  if (!InArena(o)) {
    void* p = __real_realloc(o, n);
    if (g_active && p) {
      Rt rt;
      SetCells((uintptr_t)p, n, 0, 0);
    }
    return p;
  }
  size_t old = ((Hdr*)((uint8_t*)o - sizeof(Hdr)))->size;
  void* p = Alloc(n, 16, PC);
  memcpy(p, o, std::min(old, n));
  Free(o, PC);
  return p;
}
}
void* operator new(size_t n) { return Alloc(n, 16, PC); }
void* operator new[](size_t n) { return Alloc(n, 16, PC); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return Alloc(n, 16, PC); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return Alloc(n, 16, PC); }
void operator delete(void* p) noexcept { Free(p, PC); }
void operator delete[](void* p) noexcept { Free(p, PC); }
void operator delete(void* p, size_t) noexcept { Free(p, PC); }
void operator delete[](void* p, size_t) noexcept { Free(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { Free(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { Free(p, PC); }

// ---- libc --------------------------------------------------------------------------------
extern "C" {
size_t __real_strlen(const char*);
size_t __wrap_strlen(const char* s) {
  size_t n = __real_strlen(s);
  Access(s, n + 1, false, PC);
  return n;
}
int __real_memcmp(const void*, const void*, size_t);
int __wrap_memcmp(const void* a, const void* b, size_t n) {
  Access(a, n, false, PC);
  Access(b, n, false, PC);
  return __real_memcmp(a, b, n);
}
int __wrap_bcmp(const void* a, const void* b, size_t n) {
  Access(a, n, false, PC);
  Access(b, n, false, PC);
  return __real_memcmp(a, b, n);
}
char* __real_getenv(const char*);
static char* SimGetenv(const char* n) {
  Rt rt;
  auto it = g_env.find(n);
  return it == g_env.end() ? nullptr : it->second;
}
char* __wrap_getenv(const char* n) {
  if (!(g_active && flt::in_lib)) return __real_getenv(n);
  SyncPoint("getenv", PC);
  return SimGetenv(n);
}
char* __wrap_secure_getenv(const char* n) { return __wrap_getenv(n); }

// Function-local statics: initialised atomically, outside the simulated heap.
int __real___cxa_guard_acquire(uint64_t*);
void __real___cxa_guard_release(uint64_t*);
void __real___cxa_guard_abort(uint64_t*);
int __wrap___cxa_guard_acquire(uint64_t* g) {
  int r = __real___cxa_guard_acquire(g);
  if (r) g_init++;
  return r;
}
void __wrap___cxa_guard_release(uint64_t* g) {
  if (g_init > 0) g_init--;
  __real___cxa_guard_release(g);
}
void __wrap___cxa_guard_abort(uint64_t* g) {
  if (g_init > 0) g_init--;
  __real___cxa_guard_abort(g);
}
int __real___cxa_thread_atexit(void (*)(void*), void*, void*);
int __wrap___cxa_thread_atexit(void (*f)(void*), void* o, void* d) {
  if (g_active && g_cur != 0) {
    Rt rt;
    g_f[g_cur]->atexit.push_back({f, o});
    return 0;
  }
  return __real___cxa_thread_atexit(f, o, d);
}

// ---- locks ----
#define LOCK1(name, call)                          \
  int __real_##name(void*);                        \
  int __wrap_##name(void* m) {                     \
    if (!Ours()) return __real_##name(m);          \
    call;                                          \
    return 0;                                      \
  }
static bool Again(void* m) {
  if ((((pthread_mutex_t*)m)->__data.__kind & 3) != PTHREAD_MUTEX_RECURSIVE) return false;
  Rt rt;
  LockState& l = g_locks[m];
  return l.owner == g_cur && ++l.depth;
}
static bool NotYet(void* m) {
  Rt rt;
  LockState& l = g_locks[m];
  return l.owner == g_cur && l.depth && l.depth--;
}
LOCK1(pthread_mutex_lock, if (!Again(m)) LockEx(m, PC))
LOCK1(pthread_mutex_unlock, if (!NotYet(m)) UnlockEx(m, PC))
LOCK1(pthread_mutex_trylock, if (!Again(m) && !TryEx(m, PC)) return EBUSY)
LOCK1(pthread_rwlock_wrlock, LockEx(m, PC))
LOCK1(pthread_rwlock_rdlock, LockSh(m, PC))
LOCK1(pthread_rwlock_trywrlock, if (!TryEx(m, PC)) return EBUSY)
LOCK1(pthread_rwlock_tryrdlock, if (!TrySh(m, PC)) return EBUSY)
LOCK1(pthread_rwlock_unlock, UnlockAny(m, PC))
LOCK1(pthread_spin_lock, LockEx(m, PC))
LOCK1(pthread_spin_unlock, UnlockEx(m, PC))
int __real_pthread_mutex_destroy(void*);
int __wrap_pthread_mutex_destroy(void* m) {
  if (!Ours()) return __real_pthread_mutex_destroy(m);
  LockDestroy(m);
  return 0;
}
int __real_pthread_once(int*, void (*)(void));
int __wrap_pthread_once(int* o, void (*f)(void)) {
  if (!Ours()) return __real_pthread_once(o, f);
  g_init++;
  int r = __real_pthread_once(o, f);
  g_init--;
  return r;
}
int __wrap_sched_yield(void) {
  if (Ours()) Yield(PC);
  return 0;
}
// absl::call_once: the library's wait loop acquires like an atomic of /repo's.
struct SpinStep {
  uint32_t from, to;
  bool done;
};
uint32_t __real__ZN4absl7debian313base_internal12SpinLockWaitEPSt6atomicIjEiPKNS1_22SpinLockWaitTransitionENS1_14SchedulingModeE(volatile uint32_t* w, int n, const void* t, int mode);
uint32_t __wrap__ZN4absl7debian313base_internal12SpinLockWaitEPSt6atomicIjEiPKNS1_22SpinLockWaitTransitionENS1_14SchedulingModeE(volatile uint32_t* w, int n, const void* t, int mode) {
  if (!Ours()) return __real__ZN4absl7debian313base_internal12SpinLockWaitEPSt6atomicIjEiPKNS1_22SpinLockWaitTransitionENS1_14SchedulingModeE(w, n, t, mode);
  const SpinStep* st = (const SpinStep*)t;
  for (;;) {
    uint32_t v = *w;
    int i = 0;
    while (i < n && st[i].from != v) i++;
    if (i == n) {
      Yield(PC);
      continue;
    }
    bool wr = st[i].to != v;
    Atomic(w, 4, true, wr, __ATOMIC_ACQUIRE, PC);  // others may run here
    if (*w != v) continue;
    if (wr) *w = st[i].to;
    if (st[i].done) return v;
    Yield(PC);
  }
}
void __real__ZN4absl7debian35MutexD1Ev(void*);
void __wrap__ZN4absl7debian35MutexD1Ev(void* m) {
  if (!g_active) return __real__ZN4absl7debian35MutexD1Ev(m);
  LockDestroy(m);
}
#define ABSL_M(sym) __wrap__ZN4absl7debian35Mutex##sym
void ABSL_M(4LockEv)(void* m) { LockEx(m, PC); }
void ABSL_M(6UnlockEv)(void* m) { UnlockEx(m, PC); }
bool ABSL_M(7TryLockEv)(void* m) { return TryEx(m, PC); }
void ABSL_M(10ReaderLockEv)(void* m) { LockSh(m, PC); }
void ABSL_M(12ReaderUnlockEv)(void* m) { UnlockSh(m, PC); }
bool ABSL_M(13ReaderTryLockEv)(void* m) { return TrySh(m, PC); }
void __wrap__ZNK4absl7debian35Mutex10AssertHeldEv(const void* m) {
  Rt rt;
  if (g_active && g_locks[m].owner != g_cur) {
    Violation("crash:abort", "AssertHeld fails in " + Who(g_cur));
    g_rt = 0;
    Bail();
  }
}
void __wrap__ZNK4absl7debian35Mutex16AssertReaderHeldEv(const void* m) {
  Rt rt;
  if (g_active && g_locks[m].owner != g_cur && g_locks[m].readers == 0) {
    Violation("crash:abort", "AssertReaderHeld fails in " + Who(g_cur));
    g_rt = 0;
    Bail();
  }
}
bool _ZNK4absl7debian39Condition4EvalEv(const void*);
static bool EvalCond(const void* c) {
  return _ZNK4absl7debian39Condition4EvalEv(c);
}
static void AwaitLoop(void* m, const void* c, uint64_t pc) {
  while (!EvalCond(c)) {
    UnlockEx(m, pc);
    {
      Rt rt;
      uint64_t seen = total_switches;
      g_f[g_cur]->waiting = [seen] { return total_switches > seen; };
      Choose(false, "awaiting", pc, 0);
      g_f[g_cur]->waiting = nullptr;
    }
    LockEx(m, pc);
  }
}
void ABSL_M(5AwaitERKNS0_9ConditionE)(void* m, const void* c) { AwaitLoop(m, c, PC); }
void ABSL_M(8LockWhenERKNS0_9ConditionE)(void* m, const void* c) {
  LockEx(m, PC);
  AwaitLoop(m, c, PC);
}
// Condition variables: a waiter becomes runnable on a signal.
static std::map<const void*, uint64_t>& CvSeq() {
  static auto* x = new std::map<const void*, uint64_t>;
  return *x;
}
void __wrap__ZN4absl7debian37CondVar4WaitEPNS0_5MutexE(void* cv, void* m) {
  uint64_t seen;
  {
    Rt rt;
    seen = CvSeq()[cv];
  }
  UnlockEx(m, PC);
  {
    Rt rt;
    if (CvSeq()[cv] == seen) {
      g_f[g_cur]->waiting = [cv, seen] { return CvSeq()[cv] != seen; };
      Choose(false, "waiting on a condition variable", PC, 0);
      g_f[g_cur]->waiting = nullptr;
    }
  }
  LockEx(m, PC);
}
void __wrap__ZN4absl7debian37CondVar6SignalEv(void* cv) {
  Rt rt;
  CvSeq()[cv]++;
}
void __wrap__ZN4absl7debian37CondVar9SignalAllEv(void* cv) {
  Rt rt;
  CvSeq()[cv]++;
}
// absl spin locks used by uninstrumented absl code.
}
