// P08, large inputs (built without sanitizers): time and memory grow no faster than the input does.
#include <iostream>
#include <sstream>

#include "lib.hpp"
#include "model_util.hpp"
#include "p08_common.hpp"

using namespace pbt;
using namespace model;

namespace {

struct Shape {
  std::string name;
  std::function<void(Wire&, std::size_t)> add;  // about that many bytes
  unsigned depth = 1;
};

void head(Wire& w, const char* t, std::size_t size) {
  w.u32(static_cast<std::uint32_t>(size));
  w.raw(fourcc(t));
}

std::vector<Shape> make_shapes() {
  std::vector<Shape> v;
  for (const char* t : {"free", "mdat", "zzzz", "moov", "ilst", "skip"}) {
    v.push_back({std::string("empty boxes ") + t, [=](Wire& w, std::size_t n) {
                   for (std::size_t i = 0; i < n / 8; ++i) head(w, t, 8);
                 }});
  }
  v.push_back({"boxes of all kinds", [](Wire& w, std::size_t n) {
                 Src s(77);
                 std::vector<Bytes> some;
                 for (const auto& k : kinds()) {
                   const Sample x = k.gen(s, false);
                   if (!x.registered || x.under_wave) continue;
                   if (k.name == "stsd" || k.name == "dref" || x.wire.size() > 2000) continue;
                   Wire b;
                   b.u32(static_cast<std::uint32_t>(8 + x.wire.size()));
                   b.raw(x.type);
                   b.raw(x.wire);
                   some.push_back(b.b);
                 }
                 for (std::size_t i = 0; w.b.size() < n; ++i) w.raw(some[i % some.size()]);
               }});
  v.push_back({"boxes with 64-bit sizes", [](Wire& w, std::size_t n) {
                 for (std::size_t i = 0; i < n / 24; ++i) {
                   head(w, i % 2 ? "free" : "qqqq", 1);
                   w.u64(24);
                   w.u64(i);
                 }
               }});
  for (const char* t : {"udta", "moov", "trak", "ilst", "stbl"}) {
    for (const unsigned depth : {1u, 3u}) {
      v.push_back({"siblings in " + std::to_string(depth) + " " + t, [=](Wire& w, std::size_t n) {
                     std::size_t size = 8 * depth + n / 8 * 8;
                     for (unsigned i = 0; i < depth; ++i, size -= 8) head(w, t, size);
                     for (std::size_t i = 0; i < n / 8; ++i) head(w, "free", 8);
                   }, depth});
    }
  }
  v.push_back({"many small containers", [](Wire& w, std::size_t n) {
                 for (std::size_t i = 0; i < n / 24; ++i) {
                   head(w, "trak", 24);
                   head(w, "mdia", 16);
                   head(w, "free", 8);
                 }
               }, 3});
  v.push_back({"references", [](Wire& w, std::size_t n) {
                 const std::size_t k = n / 12;
                 head(w, "dref", 16 + 12 * k);
                 w.u32(0);
                 w.u32(static_cast<std::uint32_t>(k));
                 for (std::size_t i = 0; i < k; ++i) {
                   head(w, "url ", 12);
                   w.u32(1);
                 }
               }, 2});
  for (const char* t : {"stts", "ctts", "stss", "stsz", "stco", "co64", "stsc", "trun", "elst", "sidx", "sbgp", "sdtp", "tfra", "pssh", "sgpd", "ftyp", "styp", "avcC", "iods", "esds", "hdlr"}) {
    for (const unsigned honest : {0u, 1u, 2u}) {
      v.push_back({std::string("table ") + t + (honest == 0 ? " honest" : honest == 1 ? " flagged" : " claims"), [=](Wire& w, std::size_t n) {
                     n = n / 24 * 24;
                     head(w, t, 8 + n);
                     w.u32(honest == 1 ? 0x00000f01 : 0);
                     for (std::size_t i = 4; i < n; i += 4) {
                       w.u32(i > 20 ? i : honest == 2 ? 0x7fffffff : n / (4 + 4 * (i / 4)));
                     }
                   }});
    }
  }
  struct Table {
    const char* type;
    std::vector<std::uint32_t> lead;  // words before the entries; ~0 stands for the count
    unsigned entry;                   // bytes of one
  };
  const std::uint32_t N = ~0u;
  for (const Table& t : std::vector<Table>{{"stts", {0, N}, 8}, {"ctts", {0, N}, 8}, {"ctts", {0x01000000, N}, 8}, {"stss", {0, N}, 4},
                                           {"stco", {0, N}, 4}, {"co64", {0, N}, 8}, {"stsc", {0, N}, 12}, {"stsz", {0, 0, N}, 4},
                                           {"elst", {0, N}, 12}, {"elst", {0x01000000, N}, 20}, {"trun", {0x00000f00, N}, 16}, {"trun", {0x00000100, N}, 4},
                                           {"sbgp", {0, 0x726f6c6c, N}, 8}, {"tfra", {0, 1, 0, N}, 11}, {"sgpd", {0x01000000, 0x726f6c6c, 2, N}, 2},
                                           {"sgpd", {0x01000000, 0x72617020, 0, N}, 5}, {"pssh", {0x01000000, 0, 0, 0, 0, N}, 16}}) {
    v.push_back({std::string("proper table ") + t.type + " of " + U(t.entry) + "-byte entries", [=](Wire& w, std::size_t n) {
                   const std::size_t k = n / t.entry;
                   head(w, t.type, 8 + 4 * t.lead.size() + k * t.entry + (std::string(t.type) == "pssh" ? 4 : 0));
                   for (auto x : t.lead) w.u32(x == N ? static_cast<std::uint32_t>(k) : x);
                   Bytes e(k * t.entry);
                   for (std::size_t i = 0; i < e.size(); ++i) e[i] = static_cast<std::uint8_t>(i * 7 + i / 251);
                   w.raw(e);
                   if (std::string(t.type) == "pssh") w.u32(0);
                 }});
  }
  for (const char* t : {"mdat", "free", "data", "zzzz", "emsg", "hdlr", "url ", "urn ", "ftyp", "esds", "pssh", "colr", "avcC", "vpcC", "iods", "sgpd", "dOps", "av1C"}) {
    for (const unsigned fill : {0u, 1u, 0x41u, 0x80u, 0xffu}) {
      v.push_back({std::string("bytes ") + H(fill) + " in " + t, [=](Wire& w, std::size_t n) {
                     head(w, t, 8 + n);
                     w.raw(Bytes(n, static_cast<std::uint8_t>(fill)));
                   }});
    }
  }
  for (const unsigned depth : {60u, 240u}) {
    v.push_back({"boxes below " + std::to_string(depth) + " levels", [=](Wire& w, std::size_t n) {
                   std::size_t size = 8 * depth + n / 8 * 8;
                   for (unsigned i = 0; i < depth; ++i, size -= 8) head(w, "udta", size);
                   for (std::size_t i = 0; i < n / 8; ++i) head(w, "free", 8);
                 }, depth});
    v.push_back({"media data below " + std::to_string(depth) + " levels", [=](Wire& w, std::size_t n) {
                   std::size_t size = 8 * depth + 8 + n;
                   for (unsigned i = 0; i < depth; ++i, size -= 8) head(w, "moov", size);
                   head(w, "mdat", size);
                   w.raw(Bytes(n, 0x5a));
                 }, depth});
    v.push_back({"a step at each of " + std::to_string(depth) + " levels", [=](Wire& w, std::size_t n) {
                   const std::size_t each = std::max<std::size_t>(n / depth / 8, 1) * 8;
                   std::size_t size = depth * (8 + each);
                   for (unsigned i = 0; i < depth; ++i, size -= 8 + each) {
                     head(w, "trak", size);
                     for (std::size_t k = 0; k < each / 8; ++k) head(w, "free", 8);
                   }
                 }, depth});
  }
  return v;
}

const std::vector<Shape>& shapes() {
  static const std::vector<Shape> v = make_shapes();
  return v;
}

void scale(Src& s, Ctx& c) {
  const auto& sh = shapes()[s.enumerate(shapes().size())];
  const std::size_t n = sh.depth > 10 ? s.range(150000, 300000) : s.range(1500000, 3000000);
  Wire w;
  sh.add(w, n);
  std::string in = lib::str(w.b);
  if (s.chance(1, 4)) in.resize(in.size() - 1 - s.below(16));  // and refused at the very end
  c.nontrivial();
  c.fingerprint(mix(hash_bytes(sh.name.data(), sh.name.size()), in.size()));
  c.note(sh.name + ", " + std::to_string(in.size()) + " bytes");
  c.sample(sh.name + ", " + std::to_string(in.size()) + " bytes");
  auto once = [&] {
    std::istringstream is(in);
    return p08::read_once(is);
  };
  const double size = static_cast<double>(in.size());
  p08::Run r = once();
  if (const char* show = getenv("SCALE_SHOW")) {
    FILE* f = fopen(show, "a");
    std::fprintf(f, "%-40s %8zu bytes %7.3f us/byte %7.1f B/byte %s\n", sh.name.c_str(), in.size(), r.cpu / size * 1e6, static_cast<double>(r.peak) / size, r.accepted ? "accepted" : r.error.substr(0, 60).c_str());
    fclose(f);
  }
  c.label(r.accepted ? "accepted" : "rejected");
  // several times what the costliest shape takes: a box costs about as much as its line in the dump does, at each level
  const double limit = 0.5 + (5e-6 + 0.1e-6 * sh.depth) * size;
  if (r.cpu > limit) {
    const p08::Run again = r.cpu > 2 * limit ? r : once();
    if (again.cpu > limit) fail("CPU time of " + std::to_string(again.cpu) + " s for " + sh.name + ", " + std::to_string(in.size()) + " bytes");
  }
  if (r.peak > p08::memory_limit(in.size())) fail(std::to_string(r.peak) + " bytes of memory for " + sh.name + ", " + std::to_string(in.size()) + " bytes");
}

}  // namespace

int main(int argc, char** argv) {
  Suite suite;
  suite.property = "P08";
  suite.rule = "Files of one regular shape and up to 3 MB: the time and memory of reading them stay in proportion to their size.";
  suite.init = [] {
    lib::quiet();
    p08::forget_stdout();
    std::istringstream warm(std::string("\0\0\0\x08" "free", 8));
    p08::read_once(warm);
  };
  suite.groups = {{"scale", 0, 4000, scale, 60}};
  suite.groups[0].quick = shapes().size();
  return run_main(argc, argv, suite);
}
