// Common parts of the script-driven drivers: allocation accounting, JSON output, script reading.
#pragma once
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

// ---- allocation accounting: blocks obtained while a library call is under way --------------------
namespace alloc_acct {
static bool lib = false;            // inside a library call?
static long live = 0;               // blocks allocated inside a library call and not yet released
static long live_bytes = 0;
static int owner = 0;               // on whose behalf (drivers with several configurations)
static long owned[16];              // the same, by owner
static long fail_in = -1;           // the allocation to fail (0: the next one)
static const std::uint64_t LIB = 0x4c49424c49424c49ull, DRV = 0x4452564452564452ull;
inline void* get(std::size_t n) {
  if (lib && fail_in >= 0 && fail_in-- == 0) throw std::bad_alloc();
  auto p = static_cast<std::uint64_t*>(std::malloc(n + 16));
  if (!p) throw std::bad_alloc();
  p[0] = lib ? LIB + owner : DRV; p[1] = n;
  if (lib) { ++live; ++owned[owner]; live_bytes += (long)n; }
  return p + 2;
}
inline void put(void* v) noexcept {
  if (!v) return;
  auto p = static_cast<std::uint64_t*>(v) - 2;
  if (p[0] >= LIB && p[0] < LIB + 16) { --live; --owned[p[0] - LIB]; live_bytes -= (long)p[1]; }
  p[0] = 0;
  std::free(p);
}
struct in_lib { bool old; in_lib() : old(lib) { lib = true; } ~in_lib() { lib = old; } };
struct out_lib { bool old; out_lib() : old(lib) { lib = false; } ~out_lib() { lib = old; } };
}
void* operator new(std::size_t n) { return alloc_acct::get(n); }
void* operator new[](std::size_t n) { return alloc_acct::get(n); }
void operator delete(void* p) noexcept { alloc_acct::put(p); }
void operator delete[](void* p) noexcept { alloc_acct::put(p); }
void operator delete(void* p, std::size_t) noexcept { alloc_acct::put(p); }
void operator delete[](void* p, std::size_t) noexcept { alloc_acct::put(p); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return alloc_acct::get(n); } catch (const std::bad_alloc&) { return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return alloc_acct::get(n); } catch (const std::bad_alloc&) { return nullptr; } }
void operator delete(void* p, const std::nothrow_t&) noexcept { alloc_acct::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { alloc_acct::put(p); }
#define LIB alloc_acct::in_lib in_lib_guard__

// ---- output ---------------------------------------------------------------------------------------
struct ev {                          // one event = one JSON object on one line
  std::string s{"{"};
  bool first = true;
  ev& key(const char* k) { if (!first) s += ','; first = false; s += '"'; s += k; s += "\":"; return *this; }
  ev& str(const char* k, const std::string& v) { key(k); s += '"'; for (char c : v) { if (c == '"' || c == '\\') { s += '\\'; s += c; } else if (c == '\n') s += "\\n"; else if ((unsigned char)c < 32) s += ' '; else s += c; } s += '"'; return *this; }
  ev& num(const char* k, long long v) { key(k); s += std::to_string(v); return *this; }
  ev& boolean(const char* k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
  template <typename T> ev& list(const char* k, const T& v) {
    key(k); s += '['; bool f = true; for (auto x : v) { if (!f) s += ','; f = false; s += std::to_string((long long)x); } s += ']'; return *this; }
  ev& raw(const char* k, const std::string& v) { key(k); s += v; return *this; }
};
static std::ostream* out_ = nullptr;
inline void emit(ev& e) { e.s += "}\n"; (*out_) << e.s; out_->flush(); }
template <typename T> std::string jlist(const T& v) { std::string s = "["; bool f = true; for (auto x : v) { if (!f) s += ','; f = false; s += std::to_string((long long)x); } return s + "]"; }

// ---- input: one command per line --------------------------------------------------------------
struct cmd {
  std::vector<std::string> t; std::size_t p = 0;
  bool more() const { return p < t.size(); }
  std::string word() { if (p >= t.size()) { std::cerr << "script error: missing word\n"; std::exit(3); } return t[p++]; }
  int num() { return std::stoi(word()); }
  std::vector<int> nums() { int n = num(); std::vector<int> v; while (n--) v.push_back(num()); return v; }
};
inline bool read_cmd(std::istream& in, cmd& c) {
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    c = cmd{}; std::istringstream is(line); std::string w; while (is >> w) c.t.push_back(w);
    if (!c.t.empty()) return true;
  }
  return false;
}
