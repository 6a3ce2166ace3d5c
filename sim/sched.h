// Simulated threads: fibers on one OS thread, preempted at the granularity of
// single memory accesses of the code under test (which is compiled with
// -fsanitize=thread instrumentation that calls into sched.cc instead of the
// real runtime). Also a happens-before race detector and a poisoning heap.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>

#include "core.h"

namespace sched {
void Init();
void BeginRun();
void EndRun();
// Creates a simulated thread; it starts running inside Run().
int Spawn(const char* name, std::function<void()> fn);
// Runs all simulated threads until they finish.
void Run();
int Self();
// Explicit scheduling point (e.g. inside a callback).
void Point(const char* what);
// Blocks the calling thread until |ready| holds. |obj| (may be null) gives the
// happens-before edge from the last Publish(obj).
void WaitUntil(std::function<bool()> ready, const void* obj = nullptr);
void Publish(const void* obj);
// Accesses made by uninstrumented code on behalf of the code under test.
void OnRead(const void* p, size_t n);
void OnWrite(const void* p, size_t n);
void HandleNew(const void* p);
void HandleUse(const void* p, bool write);
void HandleFree(const void* p);
size_t LiveBlocks(size_t* bytes);
// Memory that is checked like the library's own heap (simulated environment).
char* CheckedAlloc(size_t n);
void CheckedFree(char* p);
extern uint64_t total_points, total_switches;
// Simulated environment.
void EnvSet(const std::string& name, const std::string* value);
void EnvClear();
}  // namespace sched
