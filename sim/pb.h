// Minimal protobuf wire codec for the simulated S2A and for oracles. Shares no
// code with /repo or the upb shim.
#pragma once
#include <string>
#include <vector>
#include <cstdint>
namespace pb {
struct W {
  std::string s;
  void V(uint64_t v) {
    while (v >= 0x80) { s += (char)(v | 0x80); v >>= 7; }
    s += (char)v;
  }
  W& Int(int f, uint64_t v) { V(f << 3); V(v); return *this; }
  // proto3 scalar: zero is not written.
  W& IntZ(int f, uint64_t v) { if (v) Int(f, v); return *this; }
  W& Str(int f, const std::string& b) { V(f << 3 | 2); V(b.size()); s += b; return *this; }
  W& StrZ(int f, const std::string& b) { if (!b.empty()) Str(f, b); return *this; }
  W& Fix64(int f, uint64_t v) { V(f << 3 | 1); for (int i = 0; i < 8; i++) s += (char)(v >> (8 * i)); return *this; }
  W& Fix32(int f, uint32_t v) { V(f << 3 | 5); for (int i = 0; i < 4; i++) s += (char)(v >> (8 * i)); return *this; }
};
struct F {
  int num;
  int wire;
  uint64_t v = 0;
  std::string b;
};
struct M {
  std::vector<F> f;
  bool ok = true;
  bool group = false;  // uses the deprecated group encoding
  M() {}
  explicit M(const std::string& in) { Parse(in); }
  static bool Var(const std::string& in, size_t& p, uint64_t* v) {
    *v = 0;
    for (int i = 0; i < 10; i++) {
      if (p >= in.size()) return false;
      uint8_t c = in[p++];
      if (i == 9 && c > 1) return false;
      *v |= (uint64_t)(c & 0x7f) << (7 * i);
      if (!(c & 0x80)) return true;
    }
    return false;
  }
  void Parse(const std::string& in) {
    size_t p = 0;
    while (p < in.size()) {
      uint64_t t;
      if (!Var(in, p, &t) || t > 0xffffffffull) { ok = false; return; }
      F x;
      x.num = (int)(t >> 3);
      x.wire = t & 7;
      if (x.num == 0) { ok = false; return; }
      if (x.wire == 0) {
        if (!Var(in, p, &x.v)) { ok = false; return; }
      } else if (x.wire == 2) {
        uint64_t n;
        if (!Var(in, p, &n) || n > in.size() - p) { ok = false; return; }
        x.b = in.substr(p, n);
        p += n;
      } else if (x.wire == 1 || x.wire == 5) {
        size_t n = x.wire == 1 ? 8 : 4;
        if (in.size() - p < n) { ok = false; return; }
        for (size_t i = 0; i < n; i++) x.v |= (uint64_t)(uint8_t)in[p + i] << (8 * i);
        p += n;
      } else {
        group = x.wire == 3 || x.wire == 4;
        ok = false;
        return;
      }
      f.push_back(x);
    }
  }
  bool Has(int n) const { for (auto& x : f) if (x.num == n) return true; return false; }
  int CountOf(int n) const { int c = 0; for (auto& x : f) if (x.num == n) c++; return c; }
  std::string Str(int n) const { std::string r; for (auto& x : f) if (x.num == n && x.wire == 2) r = x.b; return r; }
  uint64_t Int(int n) const { uint64_t r = 0; for (auto& x : f) if (x.num == n && x.wire != 2) r = x.v; return r; }
  std::vector<std::string> Strs(int n) const { std::vector<std::string> r; for (auto& x : f) if (x.num == n && x.wire == 2) r.push_back(x.b); return r; }
  // Repeated integers, packed or not.
  std::vector<uint64_t> Ints(int n) const {
    std::vector<uint64_t> r;
    for (auto& x : f) if (x.num == n) {
      if (x.wire != 2) { r.push_back(x.v); continue; }
      size_t p = 0;
      uint64_t v;
      while (p < x.b.size() && Var(x.b, p, &v)) r.push_back(v);
    }
    return r;
  }
};
// Identity: kind 0 none, 1 spiffe, 2 hostname, 3 uid.
inline int IdKind(const std::string& msg, std::string* name) {
  M m(msg);
  int kind = 0;
  for (auto& x : m.f) {
    if (x.num == 1) { kind = 1; *name = x.b; }
    if (x.num == 2) { kind = 2; *name = x.b; }
    if (x.num == 4) { kind = 3; *name = x.b; }
  }
  return kind;
}
inline std::string MakeId(int kind, const std::string& name) {
  W w;
  if (kind == 1) w.Str(1, name);
  if (kind == 2) w.Str(2, name);
  if (kind == 3) w.Str(4, name);
  return w.s;
}
}  // namespace pb
