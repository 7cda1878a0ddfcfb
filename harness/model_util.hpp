#pragma once
#include <fmt/format.h>

#include "model.hpp"

namespace model {
inline std::string D(std::int64_t v) { return std::to_string(v); }
inline std::string U(std::uint64_t v) { return std::to_string(v); }
inline std::string H(std::uint64_t v) {
  static const char* digits = "0123456789abcdef";
  std::string s;
  do {
    s.insert(s.begin(), digits[v & 15]);
    v >>= 4;
  } while (v != 0);
  return "0x" + s;
}
inline std::string HS(std::int64_t v) { return v < 0 ? "-" + H(static_cast<std::uint64_t>(-(v + 1)) + 1) : H(static_cast<std::uint64_t>(v)); }
inline std::string H2(std::uint64_t v) {
  const std::string s = H(v).substr(2);
  return s.size() < 2 ? "0" + s : s;
}
inline std::string Bo(bool b) { return b ? "true" : "false"; }
template <class C, class F>
std::string L(const C& c, F f, const std::string& sep = ", ") {
  std::string s;
  bool first = true;
  for (const auto& x : c) {
    if (!first) s += sep;
    first = false;
    s += f(x);
  }
  return s;
}
template <class C>
std::string HexList(const C& c) {
  return "[" + L(c, [](std::uint64_t x) { return H(x); }) + "]";
}
template <class C>
std::string DecList(const C& c) {
  return "[" + L(c, [](auto x) { return std::to_string(x); }) + "]";
}
inline std::string VF(std::uint8_t v, std::uint32_t f) {
  return "Version=" + U(v) + " Flags=0x" + H2((f >> 16) & 255) + H2((f >> 8) & 255) + H2(f & 255);
}
inline std::string S(const FourCC& b) { return std::string(b.begin(), b.end()); }
inline std::string S(const Bytes& b) { return std::string(b.begin(), b.end()); }

// Wide cases: the `at`-th list, blob or string of the case gets exactly `n` elements, so that lengths around the
// byte and 16-bit limits occur for every one of them.
struct Wide {
  bool on = false;
  std::size_t at = 0;
  std::size_t n = 0;
  std::size_t seen = 0;
  bool used = false;
};
Wide& wide();
inline std::size_t sized(Src& s, std::size_t typical, std::size_t max) {
  Wide& w = wide();
  if (w.on && w.seen++ == w.at) {
    w.used = true;
    return w.n;
  }
  return s.size(typical, max);
}
inline std::size_t count(Src& s) { return sized(s, 3, s.chance(1, 120) ? 1500 : 40); }
inline Bytes blob(Src& s) { return s.bytes(sized(s, 8, s.chance(1, 150) ? 70000 : 600)); }
inline std::string str(Src& s) { return s.text(sized(s, 8, 400)); }
inline FourCC four(Src& s) {
  FourCC f;
  const bool print = s.chance(1, 2);
  for (auto& c : f) c = static_cast<std::uint8_t>(print ? 'a' + s.below(26) : s.below(256));
  return f;
}
template <class T>
BoxPtr box_of() {
  return std::make_unique<T>();
}
// a sample pre-filled with the kind's identity
template <class T>
Sample start(const std::string& kind, const char* type) {
  Sample s;
  s.kind = kind;
  s.type = fourcc(type);
  s.fresh = [] { return box_of<T>(); };
  return s;
}
template <class T>
Sample start_full(Src& src, const std::string& kind, const char* type, std::initializer_list<int> versions) {
  Sample s = start<T>(kind, type);
  s.full = true;
  s.version = static_cast<std::uint8_t>(*(versions.begin() + static_cast<std::ptrdiff_t>(src.below(versions.size()))));
  // a version that changes nothing about the layout is kept and shown like any other number
  const bool other = versions.size() == 1 && src.chance(1, 10);
  if (other) s.version = static_cast<std::uint8_t>(src.bits(8));
  s.flags = static_cast<std::uint32_t>(src.bits(24));
  s.variant = other ? "other version" : "v" + std::to_string(s.version);
  return s;
}
}  // namespace model
