// Seams between the code under test and the simulator: cryptographic-library
// fault injection, nonce log, handle accounting, heap accounting.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

#include "core.h"

namespace runtime {
void Init();
void BeginRun();
void EndRun();
// Heap blocks allocated inside library calls during the run and still live.
size_t LeakedBlocks(size_t* bytes);
void DropLeaks();
}  // namespace runtime

namespace flt {
// True while code under test is running (heap accounting).
extern int in_lib;
struct LibScope {
  LibScope() { in_lib++; }
  ~LibScope() { in_lib--; }
};
struct HarnessScope {  // inside callbacks made by the code under test
  int saved;
  HarnessScope() : saved(in_lib) { in_lib = 0; }
  ~HarnessScope() { in_lib = saved; }
};

enum Mode { kFailBefore = 0, kFailAfter = 1 };
// The (skip+1)-th call into the library from now fails; |count| consecutive
// calls fail.
void Arm(uint32_t skip, Mode mode, uint32_t count = 1);
void Disarm();
// Sometimes leaves errors of other code in the SSL library's error queue.
void StaleErrors();
bool Fired();            // since last Arm
// Faults that fired so far in this run while simulated thread |t| was running.
uint64_t FiredCount(int t);
const char* FiredOp();   // name of the last failed call
// Key derivation had started (within this arming) when the fault fired.
bool FiredInDerivation();
extern int live_cipher, live_hmac, live_aead, live_bio;

// Every (key, nonce) under which data was encrypted, in order.
struct NonceUse {
  std::string key, nonce;
};
extern std::vector<NonceUse> nonces;
extern bool nonce_reuse;
extern std::string nonce_reuse_msg;
}  // namespace flt

namespace runtime {
// The memory the library holds at the ends of cycles that repeat the same calls.
struct Steady {
  std::vector<size_t> at;
  uint32_t unit;
  Steady() { unit = 100 + S->Pick(150); }
  uint32_t Cycles() const { return 4 * unit; }
  void End(uint32_t k) {
    if (k + 1 != unit && k + 1 != 2 * unit && k + 1 != 4 * unit) return;
    size_t bytes;
    runtime::LeakedBlocks(&bytes);
    at.push_back(bytes);
    S->Ev("held", {bytes});
    const size_t slack = 1000;
    if (at.size() == 3 && at[1] > at[0] + slack && at[2] > at[1] + slack)
      S->Fail("memory-grows", "the library held " + std::to_string(at[0]) + ", " + std::to_string(at[1]) + " and " + std::to_string(at[2]) + " bytes after " + std::to_string(unit) + ", " +
                                  std::to_string(2 * unit) + " and " + std::to_string(4 * unit) + " repetitions of the same calls");
  }
};
}  // namespace runtime
