// P08, coverage-guided: the file reader over bytes chosen by libFuzzer, with a mutator that knows boxes.
#include <spdlog/spdlog.h>

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <vector>

#include "p08_common.hpp"

extern "C" std::size_t LLVMFuzzerMutate(std::uint8_t* data, std::size_t size, std::size_t max);

extern "C" int LLVMFuzzerInitialize(int*, char***) {
  spdlog::set_level(spdlog::level::off);
  p08::forget_stdout();
  std::istringstream warm(std::string("\0\0\0\x08" "free", 8));
  p08::read_once(warm);
  return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* data, std::size_t size) {
  const std::string bad = p08::examine(std::string(reinterpret_cast<const char*>(data), size));
  if (!bad.empty()) {
    std::fprintf(stderr, "P08: %s\n", bad.c_str());
    std::abort();
  }
  return 0;
}

namespace {
using V = std::vector<std::uint8_t>;
struct Box {
  std::size_t at, header, end;
  int parent;
};
std::uint32_t be(const V& v, std::size_t i) { return std::uint32_t(v[i]) << 24 | v[i + 1] << 16 | v[i + 2] << 8 | v[i + 3]; }
void set_be(V& v, std::size_t i, std::uint32_t x) {
  for (int k = 0; k < 4; ++k) v[i + static_cast<std::size_t>(k)] = static_cast<std::uint8_t>(x >> (24 - 8 * k));
}
std::size_t children_at(const V& v, std::size_t at, std::size_t end) {
  static const char* plain[] = {"moov", "trak", "mdia", "minf", "dinf", "stbl", "edts", "udta", "ilst", "moof", "traf", "mvex", "mfra", "sinf", "schi"};
  const char* t = reinterpret_cast<const char*>(&v[at + 4]);
  for (const char* p : plain) {
    if (std::memcmp(t, p, 4) == 0) return at + 8;
  }
  if (t[0] == '\251' || std::memcmp(t, "----", 4) == 0 || std::memcmp(t, "covr", 4) == 0) return at + 8;
  if (std::memcmp(t, "meta", 4) == 0 || std::memcmp(t, "wave", 4) == 0) return at + 12;
  if (std::memcmp(t, "stsd", 4) == 0 || std::memcmp(t, "dref", 4) == 0) return at + 16;
  if (std::memcmp(t, "avc1", 4) == 0 || std::memcmp(t, "vp09", 4) == 0 || std::memcmp(t, "encv", 4) == 0) return at + 86;
  if (std::memcmp(t, "mp4a", 4) == 0 || std::memcmp(t, "Opus", 4) == 0) return at + 36;
  return end;
}
void walk(const V& v, std::size_t at, std::size_t end, int parent, std::vector<Box>& out, int depth) {
  while (at + 8 <= end && out.size() < 400 && depth < 40) {
    const std::uint32_t s = be(v, at);
    if (s < 8 || at + s > end) return;
    const int me = static_cast<int>(out.size());
    const std::size_t kids = children_at(v, at, at + s);
    out.push_back({at, std::min<std::size_t>(std::max<std::size_t>(kids, at + 8), at + s) - at, at + s, parent});
    if (kids < at + s) walk(v, kids, at + s, me, out, depth + 1);
    at += s;
  }
}
struct R {
  std::uint64_t s;
  std::uint64_t operator()(std::uint64_t n) {
    s = pbt::mix(s, 1);
    return n ? s % n : 0;
  }
};
// replaces [a,b) by x and keeps the sizes of the boxes around it right
void replace(V& v, const std::vector<Box>& boxes, int owner, std::size_t a, std::size_t b, const V& x) {
  const auto d = static_cast<std::int64_t>(x.size()) - static_cast<std::int64_t>(b - a);
  for (int i = owner; i >= 0; i = boxes[static_cast<std::size_t>(i)].parent) {
    const auto& o = boxes[static_cast<std::size_t>(i)];
    set_be(v, o.at, static_cast<std::uint32_t>(be(v, o.at) + d));
  }
  v.erase(v.begin() + static_cast<std::ptrdiff_t>(a), v.begin() + static_cast<std::ptrdiff_t>(b));
  v.insert(v.begin() + static_cast<std::ptrdiff_t>(a), x.begin(), x.end());
}
}  // namespace

extern "C" std::size_t LLVMFuzzerCustomMutator(std::uint8_t* data, std::size_t size, std::size_t max, unsigned seed) {
  R r{pbt::mix(seed, size)};
  if (size < 8 || r(3) == 0) return LLVMFuzzerMutate(data, size, max);
  V v(data, data + size);
  std::vector<Box> boxes;
  walk(v, 0, v.size(), -1, boxes, 0);
  if (boxes.empty()) return LLVMFuzzerMutate(data, size, max);
  const int bi = static_cast<int>(r(boxes.size()));
  const Box b = boxes[static_cast<std::size_t>(bi)];
  switch (r(5)) {
    case 0:
    case 1: {  // mutate the fields in front of the children
      V x(v.begin() + static_cast<std::ptrdiff_t>(b.at + 8), v.begin() + static_cast<std::ptrdiff_t>(b.at + b.header));
      const std::size_t n = x.size();
      x.resize(n + 64);
      x.resize(LLVMFuzzerMutate(x.data(), n, n + 64));
      replace(v, boxes, bi, b.at + 8, b.at + b.header, x);
      break;
    }
    case 2: {  // drop a box
      replace(v, boxes, b.parent, b.at, b.end, {});
      break;
    }
    case 3: {  // copy a box into or behind another
      const Box o = boxes[static_cast<std::size_t>(r(boxes.size()))];
      const V x(v.begin() + static_cast<std::ptrdiff_t>(o.at), v.begin() + static_cast<std::ptrdiff_t>(o.end));
      if (r(2)) {
        replace(v, boxes, bi, b.end, b.end, x);
      } else {
        replace(v, boxes, b.parent, b.end, b.end, x);
      }
      break;
    }
    default: {  // another type code
      const Box o = boxes[static_cast<std::size_t>(r(boxes.size()))];
      std::copy_n(v.begin() + static_cast<std::ptrdiff_t>(o.at + 4), 4, v.begin() + static_cast<std::ptrdiff_t>(b.at + 4));
      break;
    }
  }
  if (v.empty() || v.size() > max) return LLVMFuzzerMutate(data, size, max);
  std::copy(v.begin(), v.end(), data);
  return v.size();
}
