// P27: what writing costs (built without sanitizers): time in proportion to what is written, memory in proportion to the
// tables and never to the media data.
#include <cstdio>
#include <iostream>
#include <memory>
#include <sstream>

#include "lib.hpp"
#include "model_util.hpp"
#include "movie.hpp"
#include "p08_common.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "shiguredo/mp4/box_info.hpp"
#include "shiguredo/mp4/box_map.hpp"
#include "shiguredo/mp4/box/boxes.hpp"
#include "tree.hpp"

using namespace pbt;
using namespace model;
using shiguredo::mp4::BoxInfo;
using shiguredo::mp4::BoxType;
namespace box = shiguredo::mp4::box;

namespace {

std::string U(std::uint64_t v) { return std::to_string(v); }

// a seekable output that counts and forgets
struct Forget : std::streambuf {
  std::uint64_t pos = 0, end = 0, written = 0, moves = 0;
  int_type overflow(int_type c) override {
    if (!traits_type::eq_int_type(c, traits_type::eof())) step(1);
    return traits_type::not_eof(c);
  }
  std::streamsize xsputn(const char*, std::streamsize n) override {
    step(static_cast<std::uint64_t>(n));
    return n;
  }
  pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override {
    const std::int64_t base = dir == std::ios_base::end ? static_cast<std::int64_t>(end) : dir == std::ios_base::cur ? static_cast<std::int64_t>(pos) : 0;
    ++moves;
    pos = static_cast<std::uint64_t>(base + off);
    return pos_type(static_cast<off_type>(pos));
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
  void step(std::uint64_t n) {
    pos += n;
    written += n;
    end = std::max(end, pos);
  }
};

struct Cost {
  double cpu = 0;
  std::uint64_t peak = 0;
};
template <class F>
Cost cost(F f) {
  Cost r;
  const double t0 = p08::cpu_now();
  mem_reset();
  f();
  r.peak = mem_peak();
  r.cpu = p08::cpu_now() - t0;
  return r;
}

void show(const std::string& what, const Cost& r, double units) {
  if (const char* name = getenv("SCALE_SHOW")) {
    FILE* f = fopen(name, "a");
    std::fprintf(f, "%-90s %9.0f units %8.4f us/unit %8.2f B/unit  %.3f s %llu B\n", what.c_str(), units, r.cpu / units * 1e6, static_cast<double>(r.peak) / units, r.cpu,
                 static_cast<unsigned long long>(r.peak));
    fclose(f);
  }
}

void judge(const std::string& what, double cpu_limit, std::uint64_t mem_limit, double units, const std::function<Cost()>& once) {
  Cost r = once();
  show(what, r, units);
  if (r.peak > mem_limit) fail(U(r.peak) + " bytes of memory for " + what + "; at most " + U(mem_limit) + " were expected");
  if (r.cpu > cpu_limit) {
    r = once();
    if (r.cpu > cpu_limit) fail("CPU time of " + std::to_string(r.cpu) + " s for " + what + "; at most " + std::to_string(cpu_limit) + " s were expected");
  }
}

// ---- recordings -----------------------------------------------------------------------------------------------

struct Plan {
  movie::Spec sp;
  std::size_t samples = 0, sample_size = 0;
  unsigned turn = 1;      // samples of one track before the next one's
  unsigned chunk = 0;     // samples in a chunk; 0: as the interleaving has it
  unsigned timing = 0;    // 0: regular, 1: every other differs, 2: all different
  unsigned keys = 0;      // 0: none, 1: each 30th, 2: all
  unsigned slices = 1;    // H.264: units in a sample
  std::string text() const {
    return U(samples) + " samples of " + U(sample_size) + " bytes in " + U(sp.tracks.size()) + " " + movie::name(sp.tracks[0].codec) + " tracks, turns of " + U(turn) + ", chunks of " + U(chunk) +
           ", timing " + U(timing) + ", keys " + U(keys) + ", slices " + U(slices) + (sp.faststart ? ", fast-start" : ", progressive");
  }
};

void record(const Plan& p) {
  Forget out;
  std::ostream os(&out);
  auto ss = movie::open(p.sp, os, scratch_dir() + "/p27-XXXXXX");
  movie::begin(p.sp, ss);
  const std::size_t nt = p.sp.tracks.size();
  std::vector<std::uint64_t> ts(nt, 0);
  std::vector<std::size_t> count(nt, 0);
  Bytes data(p.sample_size, 0x42);
  Bytes unit;
  for (std::size_t i = 0; i < p.samples; ++i) {
    const std::size_t k = i / p.turn % nt;
    const bool key = p.keys == 2 || (p.keys == 1 && count[k] % 30 == 0);
    if (p.sp.tracks[k].codec == movie::Codec::h264) {
      unit.clear();
      if (key) unit.insert(unit.end(), {0, 0, 0, 1, 0x67, 66, 1, 31, 9, 0, 0, 0, 1, 0x68, 7});
      for (unsigned s = 0; s < p.slices; ++s) {
        unit.insert(unit.end(), {0, 0, 1, static_cast<std::uint8_t>(key ? 0x65 : 0x41)});
        unit.insert(unit.end(), data.begin(), data.end());
      }
      ss.tracks[k]->addData(ts[k], unit, key);
    } else {
      ss.tracks[k]->addData(ts[k], data, key);
    }
    ts[k] += p.timing == 0 ? 960 : p.timing == 1 ? 960 + i % 2 : 900 + i % 64000;
    ++count[k];
    if (p.chunk != 0 && count[k] % p.chunk == 0) ss.tracks[k]->terminateCurrentChunk();
  }
  movie::end(p.sp, ss);
}

Plan gen_plan(Src& s) {
  Plan p;
  movie::Options o;
  p.sp.mvhd_timescale = 1000;
  p.sp.duration = 60;
  p.sp.faststart = s.enumerate(2) == 1;
  auto t = movie::gen_track(s, o, 60);
  t.own_id = 0;
  const std::size_t nt = s.coin() ? 1 : 2 + s.below(6);
  for (std::size_t i = 0; i < nt; ++i) p.sp.tracks.push_back(t);
  p.turn = s.pick<unsigned>({1, 1, 7, 100});
  p.chunk = s.pick<unsigned>({0, 1, 10, 0});
  p.timing = static_cast<unsigned>(s.below(3));
  p.keys = static_cast<unsigned>(s.below(3));
  return p;
}

void samples(Src& s, Ctx& c) {
  Plan p = gen_plan(s);
  p.samples = s.range(100000, 200000);
  p.sample_size = s.pick<std::size_t>({0, 1, 5, 100});
  if (p.sp.tracks[0].codec == movie::Codec::h264) {
    p.samples /= 2;
    p.slices = s.pick<unsigned>({1, 4});
    p.sample_size = std::max<std::size_t>(p.sample_size, 1);
  }
  c.nontrivial();
  c.note(p.text());
  c.sample(p.text());
  c.fingerprint(hash_bytes(p.text().data(), p.text().size()));
  c.label(p.sp.faststart ? "fast-start" : "progressive");
  const double n = static_cast<double>(p.samples), units = n * (p.slices + static_cast<double>(p.sample_size * p.slices) / 100);
  judge(p.text(), 0.5 + 10e-6 * units, (8u << 20) + 600 * p.samples, n, [&] { return cost([&] { record(p); }); });
}

void media(Src& s, Ctx& c) {
  Plan p = gen_plan(s);
  p.sample_size = std::size_t{1} << (15 + s.below(6));
  const std::size_t total = s.range(24u << 20, 48u << 20);
  p.samples = total / p.sample_size;
  c.nontrivial();
  c.note(p.text());
  c.sample(p.text());
  c.fingerprint(hash_bytes(p.text().data(), p.text().size()));
  c.label(p.sp.faststart ? "fast-start" : "progressive");
  judge(p.text(), 0.5 + 40e-9 * static_cast<double>(total), (8u << 20) + 600 * p.samples + 10 * p.sample_size, static_cast<double>(total), [&] { return cost([&] { record(p); }); });
}

// ---- boxes and trees ------------------------------------------------------------------------------------------

struct Table {
  const char* type;
  std::vector<std::uint32_t> lead;  // words before the entries; ~0 stands for the count
  unsigned entry;                   // bytes of one
};
const std::uint32_t N = ~0u;
const std::vector<Table>& tables() {
  static const std::vector<Table> v = {{"stts", {0, N}, 8}, {"ctts", {0, N}, 8}, {"ctts", {0x01000000, N}, 8}, {"stss", {0, N}, 4}, {"stco", {0, N}, 4}, {"co64", {0, N}, 8},
                                       {"stsc", {0, N}, 12}, {"stsz", {0, 0, N}, 4}, {"elst", {0, N}, 12}, {"elst", {0x01000000, N}, 20}, {"trun", {0x00000f00, N}, 16},
                                       {"trun", {0x00000100, N}, 4}, {"sbgp", {0, 0x726f6c6c, N}, 8}, {"tfra", {0, 1, 0, N}, 11}, {"sgpd", {0x01000000, 0x726f6c6c, 2, N}, 2},
                                       {"pssh", {0x01000000, 0, 0, 0, 0, N}, 16}, {"sdtp", {0}, 1}, {"mdat", {}, 1}, {"free", {}, 1}, {"ftyp", {0x69736f6d, 1}, 4}, {"zzzz", {}, 1}};
  return v;
}

// everything writing a box involves
Cost write_out(BoxInfo& info, std::uint64_t at) {
  return cost([&] {
    Forget out;
    std::ostream os(&out);
    info.adjustOffsetAndSize(at);
    info.getSize();
    info.write(os);
  });
}

void boxes(Src& s, Ctx& c) {
  const Table& t = tables()[s.enumerate(tables().size())];
  const std::size_t n = s.range(400000, 1500000);
  const std::size_t k = n / t.entry;
  Wire w;
  for (auto x : t.lead) w.u32(x == N ? static_cast<std::uint32_t>(k) : x);
  const std::size_t head = w.b.size();
  w.b.resize(head + k * t.entry);
  for (std::size_t i = 0; i < k * t.entry; ++i) w.b[head + i] = static_cast<std::uint8_t>(i * 7 + i / 251);
  if (std::string(t.type) == "sdtp") {
    for (auto& b : w.b) b &= 0x3f;
    w.b[0] = 0;
  }
  if (std::string(t.type) == "pssh") w.u32(0);
  const std::string what = "a box " + std::string(t.type) + " of " + U(w.b.size()) + " bytes, " + U(t.entry) + " per entry";
  c.note(what);
  c.sample(what);
  c.nontrivial();
  c.fingerprint(hash_bytes(what.data(), what.size()));
  shiguredo::mp4::BoxMap& map = lib::registry_map();
  std::unique_ptr<BoxInfo> info;
  {
    auto* b = map.getBoxInstance(BoxType(std::string(t.type)));
    if (std::string(t.type) == "zzzz") b->setHeader(new shiguredo::mp4::BoxHeader({.offset = 0, .size = 8 + w.b.size(), .header_size = 8, .type = BoxType(std::string(t.type))}));
    info.reset(new BoxInfo({.box = b}));
    std::istringstream is(lib::str(w.b));
    const auto err = lib::thrown([&] { b->readData(is); });
    if (!err.empty()) fail("the check's own " + what + " is refused: " + err);
  }
  const double size = static_cast<double>(w.b.size());
  const bool sdtp = std::string(t.type) == "sdtp";  // a line for every byte
  judge(what, 0.5 + (sdtp ? 5e-6 : 0.5e-6) * size, 200000 + (sdtp ? 1200 : 200) * w.b.size(), size, [&] { return write_out(*info, 1000); });
  judge("the text of " + what, 0.5 + (sdtp ? 5e-6 : 0.5e-6) * size, 200000 + (sdtp ? 1200 : 200) * w.b.size(), size, [&] { return cost([&] { info->toString(); }); });
}

void trees(Src& s, Ctx& c) {
  const unsigned shape = static_cast<unsigned>(s.enumerate(5));
  const bool large = s.coin();  // headers of 16 bytes somewhere: the layout is settled in more than one step
  const std::size_t n = s.range(20000, 60000);
  std::size_t count = 0;
  unsigned depth = 1;
  std::vector<BoxInfo*> inners;
  const auto leaf = [&](BoxInfo* p) {
    ++count;
    return new BoxInfo({.parent = p, .box = new box::Free()});
  };
  const auto inner = [&](BoxInfo* p) {
    ++count;
    inners.push_back(p == nullptr ? new BoxInfo({.box = new box::Moov()}) : new BoxInfo({.parent = p, .box = new box::Udta()}));
    return inners.back();
  };
  std::unique_ptr<BoxInfo> root;
  std::string what;
  root.reset(inner(nullptr));
  switch (shape) {
    case 0:
      what = "siblings";
      for (std::size_t i = 0; i < n; ++i) leaf(root.get());
      break;
    case 1:
      what = "small containers";
      for (std::size_t i = 0; i < n / 3; ++i) leaf(inner(inner(root.get())));
      depth = 3;
      break;
    case 2: {
      depth = 60;
      what = "siblings below " + U(depth) + " levels";
      BoxInfo* p = root.get();
      for (unsigned i = 0; i < depth; ++i) p = inner(p);
      for (std::size_t i = 0; i < n / 2; ++i) leaf(p);
      break;
    }
    case 3: {
      depth = 60;
      what = "some at each of " + U(depth) + " levels";
      BoxInfo* p = root.get();
      for (unsigned i = 0; i < depth; ++i) {
        for (std::size_t j = 0; j < n / 2 / depth; ++j) leaf(p);
        p = inner(p);
      }
      break;
    }
    default: {
      depth = 60;
      what = "a chain of " + U(depth) + " boxes";
      BoxInfo* p = root.get();
      for (unsigned i = 0; i < depth; ++i) p = inner(p);
      leaf(p);
    }
  }
  if (large) {  // laid out before as though it lay in a box that big
    what += ", laid out for large boxes before";
    root->adjustOffsetAndSize(0);
    const bool all = s.coin();
    for (auto* i : inners) {
      if (all || i == root.get()) i->getBox()->setOffsetAndDataSize(0, 1ULL << 33);
    }
  }
  what = "a tree of " + U(count) + " boxes: " + what;
  c.note(what);
  c.sample(what);
  c.nontrivial(count > 100 || depth > 10);
  c.fingerprint(hash_bytes(what.data(), what.size()));
  const double units = static_cast<double>(count);
  judge(what, 0.5 + (20e-6 + 0.5e-6 * depth) * units, 200000 + 1000 * count, units, [&] { return write_out(*root, 32); });
  judge("the text of " + what, 0.5 + (20e-6 + 0.5e-6 * depth) * units, 200000 + (600 + 20 * depth) * count, units, [&] { return cost([&] { root->toString(); }); });
}

}  // namespace

int main(int argc, char** argv) {
  Suite suite;
  suite.property = "P27";
  suite.rule =
      "A case draws a recording of up to 200 000 samples (1-7 tracks, any codec, interleaving, chunking, timing and key frames, either writer), or one of up to "
      "48 MB of media data, or a table, or a tree of up to 60 000 boxes, writes it and compares CPU time and peak heap memory with limits that grow in proportion to "
      "the samples (or bytes of media, for time only; or boxes), several times what the costliest kind takes. Distinct by plan; all are non-trivial except short chains.";
  suite.init = [] {
    lib::quiet();
    lib::registry_map();
  };
  suite.groups = {
      {"samples", 160, 3000, samples, 40},
      {"media", 80, 2000, media, 40},
      {"boxes", 84, 2000, boxes, 40},
      {"trees", 80, 1000, trees, 40},
  };
  return run_main(argc, argv, suite);
}
