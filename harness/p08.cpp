// P08: any input file is either dumped or cleanly rejected.
#include <fstream>
#include <iostream>
#include <map>

#include "lib.hpp"
#include "p08_common.hpp"
#include "tree.hpp"

using namespace pbt;
using namespace model;

namespace {

void try_bytes(Src& s, Ctx& c, const Bytes& b) {
  c.note("input of " + std::to_string(b.size()) + " bytes: " + hex(b, 6000));
  c.fingerprint(hash_bytes(b.data(), b.size()));
  const std::string in = lib::str(b);
  p08::Run r;
  const std::string bad = p08::examine(in, &r);
  if (!bad.empty()) fail(bad + (r.accepted ? " (accepted)" : " (rejected: " + r.error + ")"));
  c.label(r.accepted ? "accepted" : "rejected");
  if (!r.accepted) {
    // which check refused it: the text up to the first number or colon
    std::string why = r.error.substr(0, 48);
    const auto p = why.find_first_of("0123456789(=");
    c.label("because: " + why.substr(0, p));
    c.nontrivial();
  }
  const auto ratio = static_cast<double>(r.peak) / static_cast<double>(p08::memory_limit(b.size()));
  c.label_if(ratio > 0.25, "memory above a quarter of the limit");
  c.label_if(r.cpu / p08::cpu_limit(b.size()) > 0.25, "CPU time above a quarter of the limit");
  if (s.chance(1, 60)) {
    c.label("through a real file");
    const std::string path = scratch_dir() + "/in.mp4";
    std::ofstream(path, std::ios::binary).write(in.data(), static_cast<std::streamsize>(in.size()));
    std::ifstream is(path, std::ios::binary);
    const p08::Run f = p08::read_once(is);
    if (f.accepted != r.accepted) fail("from a file it is " + std::string(f.accepted ? "accepted" : "rejected: " + f.error) + ", from memory not so");
  }
}

std::uint32_t nasty32(Src& s, std::uint64_t near) {
  switch (s.below(6)) {
    case 0: return s.pick<std::uint32_t>({0, 1, 2, 7, 8, 9, 15, 16, 17, 0xff, 0x100, 0xffff, 0x10000});
    case 1: return s.pick<std::uint32_t>({0xffffffff, 0xfffffffe, 0x7fffffff, 0x80000000, 0xfffffff8, 0xfffffff0, 0x7ffffff8, 0x00ffffff, 0x01000000, 0x40000000, 0x20000000, 0x10000000});
    case 2: return static_cast<std::uint32_t>(near + static_cast<std::uint64_t>(s.irange(-16, 16)));
    case 3: return static_cast<std::uint32_t>(s.below(near + 1));
    default: return static_cast<std::uint32_t>(s.bits(32));
  }
}

void put(Bytes& b, std::size_t at, std::uint64_t v, unsigned n) {
  for (unsigned i = 0; i < n && at + i < b.size(); ++i) b[at + i] = static_cast<std::uint8_t>(v >> (8 * (n - 1 - i)));
}

struct Spot {
  std::size_t offset, header, payload, size;
  FourCC type;
};

void collect(const tree::Node& n, std::vector<Spot>& out) {
  out.push_back({n.offset, n.header, n.x.wire.size(), n.size, n.x.type});
  for (const auto& k : n.kids) collect(k, out);
}

tree::Forest some_file(Src& s) {
  tree::Options o;
  o.foreign = s.chance(2, 3);
  o.max_boxes = s.chance(1, 10) ? 60 : 14;
  tree::Forest f = tree::gen_file(s, o);
  tree::layout(f);
  return f;
}

void mutate(Src& s, Ctx& c, Bytes& b, const std::vector<Spot>& spots) {
  if (b.empty()) return;
  const std::size_t n = b.size();
  auto pos = [&] { return static_cast<std::size_t>(s.below(n)); };
  auto spot = [&]() -> const Spot* { return spots.empty() ? nullptr : &s.one_of(spots); };
  switch (s.below(14)) {
    case 0: b[pos()] ^= static_cast<std::uint8_t>(1u << s.below(8)); c.label("flip"); break;
    case 1: b[pos()] = static_cast<std::uint8_t>(s.bits(8)); c.label("byte"); break;
    case 2: put(b, pos(), nasty32(s, n), 4); c.label("word"); break;
    case 3:  // a box's size
      if (const auto* p = spot()) put(b, p->offset, nasty32(s, p->size), 4);
      c.label("box size");
      break;
    case 4:  // a 64-bit size
      if (const auto* p = spot()) {
        if (p->header == 16) {
          put(b, p->offset + 8, s.coin() ? static_cast<std::uint64_t>(nasty32(s, p->size)) << (s.coin() ? 32 : 0) : s.bits(64), 8);
        } else {
          put(b, p->offset, 1, 4);
        }
      }
      c.label("64-bit size");
      break;
    case 5:  // another type code
      if (const auto* p = spot()) {
        const FourCC t = s.one_of(registry()).type;
        std::copy(t.begin(), t.end(), b.begin() + static_cast<std::ptrdiff_t>(std::min(p->offset + 4, n - 4)));
      }
      c.label("type code");
      break;
    case 6:
    case 7:  // early payload words: versions, flags, counts, lengths
      if (const auto* p = spot()) {
        const std::size_t at = p->offset + p->header + s.below(std::max<std::size_t>(std::min<std::size_t>(p->payload, 40), 1));
        put(b, at, nasty32(s, p->payload), static_cast<unsigned>(s.pick({1, 2, 4})));
      }
      c.label("payload word");
      break;
    case 8:  // cut
      b.resize(pos());
      c.label("cut");
      break;
    case 9: {  // remove a range
      const std::size_t a = pos(), l = std::min<std::size_t>(s.size(8, 200), n - a);
      b.erase(b.begin() + static_cast<std::ptrdiff_t>(a), b.begin() + static_cast<std::ptrdiff_t>(a + l));
      c.label("remove");
      break;
    }
    case 10: {  // insert
      const std::size_t a = pos();
      const Bytes x = s.bytes(s.size(8, 100));
      b.insert(b.begin() + static_cast<std::ptrdiff_t>(a), x.begin(), x.end());
      c.label("insert");
      break;
    }
    case 11: {  // repeat a range elsewhere
      const std::size_t a = pos(), l = std::min<std::size_t>(s.size(16, 400), n - a);
      const Bytes x(b.begin() + static_cast<std::ptrdiff_t>(a), b.begin() + static_cast<std::ptrdiff_t>(a + l));
      b.insert(b.begin() + static_cast<std::ptrdiff_t>(pos()), x.begin(), x.end());
      c.label("repeat");
      break;
    }
    case 12: {  // set a range to one value
      const std::size_t a = pos(), l = std::min<std::size_t>(s.size(8, 64), n - a);
      std::fill_n(b.begin() + static_cast<std::ptrdiff_t>(a), l, s.pick<std::uint8_t>({0, 0xff, 0x80, 0x7f}));
      c.label("fill");
      break;
    }
    default: {  // append
      const Bytes x = s.bytes(s.size(8, 100));
      b.insert(b.end(), x.begin(), x.end());
      c.label("append");
      break;
    }
  }
}

void mutated(Src& s, Ctx& c) {
  const tree::Forest f = some_file(s);
  Bytes b = tree::serialize(f);
  std::vector<Spot> spots;
  for (const auto& n : f) collect(n, spots);
  for (std::uint64_t k = s.range(1, 5); k > 0; --k) mutate(s, c, b, spots);
  c.sample(std::to_string(spots.size()) + " boxes, " + std::to_string(b.size()) + " bytes after mutation: " + hex(b, 60));
  try_bytes(s, c, b);
}

// payloads with every small word replaced by hostile values, in boxes whose sizes stay consistent
void claims(Src& s, Ctx& c) {
  const Kind& k = kinds()[s.enumerate(kinds().size())];
  const Sample x = k.gen(s, s.coin());
  c.label("kind " + x.kind);
  if (x.wire.size() > 4000) return;
  c.nontrivial();
  c.sample(x.kind + " " + x.variant + " " + hex(x.wire, 60));
  std::vector<std::size_t> at;
  const std::size_t n = x.wire.size();
  for (std::size_t i = 0; i < n && i < 64; ++i) at.push_back(i);
  for (int i = 0; i < 10 && n > 64; ++i) at.push_back(s.below(n));
  Bytes container;
  const FourCC t = x.kind == "unsupported" ? fourcc("uuid") : x.type;
  std::uint64_t tried = 0;
  for (const auto i : at) {
    const unsigned w = static_cast<unsigned>(s.pick({1, 2, 4, 4, 4, 8}));
    Bytes p = x.wire;
    const std::uint64_t v = w == 8 ? s.pick<std::uint64_t>({~0ULL, 1ULL << 63, 1ULL << 32, 0}) : nasty32(s, n);
    put(p, i, w == 1 ? (s.coin() ? 0xff : v) : v, w);
    if (s.chance(1, 4)) p.resize(s.below(n + 1));
    Wire out;
    if (x.under_wave) {
      out.u32(static_cast<std::uint32_t>(8 + 4 + 8 + p.size()));
      out.raw(fourcc("wave"));
      out.u32(0);
    }
    out.u32(static_cast<std::uint32_t>(8 + p.size()));
    out.raw(t);
    out.raw(p);
    if (s.chance(1, 3)) {  // something after it
      out.u32(8);
      out.raw(fourcc("free"));
    }
    p08::Run r;
    const std::string bad = p08::examine(lib::str(out.b), &r);
    ++tried;
    if (!bad.empty()) {
      c.note("input of " + std::to_string(out.b.size()) + " bytes: " + hex(out.b, 6000));
      fail(x.kind + " " + x.variant + " with " + std::to_string(v) + " in " + std::to_string(w) + " bytes at " + std::to_string(i) + ": " + bad);
    }
    c.label_if(r.accepted, "accepted");
  }
  c.sub_evals += tried;
  c.fingerprint(hash_bytes(x.wire.data(), n, tried));
}

// a payload of any kind, or noise, under any code
void typed_noise(Src& s, Ctx& c) {
  Wire out;
  const std::size_t boxes = s.range(1, 4);
  for (std::size_t i = 0; i < boxes; ++i) {
    const auto& r = s.one_of(registry());
    Bytes p;
    switch (s.below(3)) {
      case 0: p = s.bytes(s.size(24, 600)); break;
      case 1: {
        p.resize(s.size(24, 200));
        for (auto& x : p) x = s.pick<std::uint8_t>({0, 0, 0, 1, 2, 4, 8, 0x7f, 0x80, 0xff});
        break;
      }
      default: p = kinds()[s.below(kinds().size())].gen(s, true).wire; break;
    }
    const std::uint64_t size = 8 + p.size() + (s.chance(1, 8) ? static_cast<std::uint64_t>(s.irange(-20, 20)) : 0);
    if (s.chance(1, 10)) {
      out.u32(1);
      out.raw(r.type);
      out.u64(s.chance(1, 3) ? s.bits(64) : size + 8);
    } else {
      out.u32(s.chance(1, 30) ? s.below(10) : size);
      out.raw(r.type);
    }
    out.raw(p);
  }
  c.sample(hex(out.b, 80));
  try_bytes(s, c, out.b);
}

void noise(Src& s, Ctx& c) {
  const Bytes b = s.bytes(s.size(40, 5000));
  c.sample(hex(b, 80));
  try_bytes(s, c, b);
}

// containers inside containers, sizes honest or not, far beyond any sane depth
void nesting(Src& s, Ctx& c) {
  static const char* shells[] = {"moov", "trak", "udta", "mdia", "ilst", "sinf", "\251nam", "meta", "wave", "stsd", "dref", "avc1", "mp4a", "edts", "dinf"};
  const bool mixed = s.coin();
  const std::size_t one = s.below(15);
  const std::size_t depth = s.chance(1, 3) ? s.range(1, 300) : s.chance(1, 25) ? s.range(20000, 40000) : s.range(1, 3000);
  const unsigned lie = static_cast<unsigned>(s.below(5));  // 0,1: honest
  struct Shell {
    const char* type;
    std::size_t payload;
    bool large;
  };
  std::vector<Shell> v;
  std::size_t total = 0;
  for (std::size_t i = 0; i < depth; ++i) {
    const char* t = shells[mixed ? s.below(15) : one];
    std::size_t p = 0;
    if (std::string(t) == "meta" || std::string(t) == "wave") p = 4;
    if (std::string(t) == "stsd" || std::string(t) == "dref") p = 8;
    if (std::string(t) == "avc1") p = 78;
    if (std::string(t) == "mp4a") p = 28;
    v.push_back({t, p, s.chance(1, 50)});
    total += (v.back().large ? 16 : 8) + p;
  }
  const Bytes leaf = s.bytes(s.size(6, s.chance(1, 10) ? 60000 : 200));
  total += leaf.size();
  Wire w;
  std::size_t left = total;
  for (const auto& e : v) {
    std::uint64_t size = left;
    if (lie == 2) size = total;                                     // every box claims the whole file
    if (lie == 3) size = 0;                                         // every box extends to the end
    if (lie == 4 && s.chance(1, 20)) size += static_cast<std::uint64_t>(s.irange(-9, 9));
    w.u32(e.large ? 1 : size);
    w.raw(fourcc(e.type));
    if (e.large) w.u64(size);
    for (std::size_t i = 0; i < e.payload; ++i) w.u8(0);
    left -= (e.large ? 16 : 8) + e.payload;
  }
  w.raw(leaf);
  c.label(depth > 256 ? "deeper than 256" : "up to 256 deep");
  c.nontrivial();
  c.sample(std::to_string(depth) + " levels, " + std::to_string(w.b.size()) + " bytes");
  try_bytes(s, c, w.b);
}

// large inputs: time and memory grow no faster than the input
void large(Src& s, Ctx& c) {
  Wire w;
  const unsigned shape = static_cast<unsigned>(s.below(5));
  const std::size_t n = s.range(2000, 40000);
  if (shape == 0) {  // many empty boxes
    const char* t = s.pick<const char*>({"free", "moov", "zzzz", "ilst"});
    for (std::size_t i = 0; i < n; ++i) {
      w.u32(8);
      w.raw(fourcc(t));
    }
  } else if (shape == 1) {  // a table with many entries
    const char* t = s.pick<const char*>({"stts", "ctts", "stss", "stsz", "stco", "co64", "stsc", "trun", "elst", "sidx", "sbgp", "sdtp", "tfra"});
    const std::size_t bytes = n * 8;
    w.u32(static_cast<std::uint32_t>(8 + bytes));
    w.raw(fourcc(t));
    w.u32(s.coin() ? 0 : s.bits(32) & 0x01ffffff);
    for (std::size_t i = 4; i < bytes; i += 4) w.u32(i == 4 || i == 8 || i == 12 ? (s.coin() ? 0 : n / s.range(1, 4)) : i);
  } else if (shape == 2) {  // strings and opaque data
    const char* t = s.pick<const char*>({"mdat", "free", "data", "zzzz", "emsg", "hdlr", "url ", "urn ", "ftyp", "esds", "pssh", "colr", "avcC", "vpcC", "iods", "sgpd"});
    const std::uint8_t fill = s.pick<std::uint8_t>({0, 1, 0x41, 0x80, 0xff});
    w.u32(static_cast<std::uint32_t>(8 + n * 6));
    w.raw(fourcc(t));
    for (std::size_t i = 0; i < n * 6; ++i) w.u8(fill);
  } else if (shape == 3) {  // many small boxes deep inside
    const std::size_t depth = s.range(1, 250), kids = n / 12;
    std::size_t size = 8 * depth + 8 * kids;
    for (std::size_t i = 0; i < depth; ++i, size -= 8) {
      w.u32(static_cast<std::uint32_t>(size));
      w.raw(fourcc("udta"));
    }
    for (std::size_t i = 0; i < kids; ++i) {
      w.u32(8);
      w.raw(fourcc("free"));
    }
  } else {  // a deep chain around one large payload
    const std::size_t depth = s.range(1, 250);
    std::size_t size = 8 * depth + 8 + n * 3;
    for (std::size_t i = 0; i < depth; ++i, size -= 8) {
      w.u32(static_cast<std::uint32_t>(size));
      w.raw(fourcc("moov"));
    }
    w.u32(static_cast<std::uint32_t>(size));
    w.raw(fourcc("mdat"));
    w.raw(Bytes(n * 3, 0x5a));
  }
  c.label("shape " + std::to_string(shape));
  c.nontrivial();
  c.sample("shape " + std::to_string(shape) + ", " + std::to_string(w.b.size()) + " bytes");
  try_bytes(s, c, w.b);
}

// two files crossed
void spliced(Src& s, Ctx& c) {
  const tree::Forest f = some_file(s), g = some_file(s);
  const Bytes a = tree::serialize(f), b = tree::serialize(g);
  std::vector<Spot> sa, sb;
  for (const auto& n : f) collect(n, sa);
  for (const auto& n : g) collect(n, sb);
  if (sa.empty() || sb.empty()) return;
  Bytes out = a;
  const Spot& p = s.one_of(sa);
  const Spot& q = s.one_of(sb);
  // a box, or its payload, replaced by one of the other file's; ancestors' sizes are left as they were
  const bool payload = s.coin();
  const std::size_t pa = p.offset + (payload ? p.header : 0), pb = p.offset + p.size;
  const std::size_t qa = q.offset + (payload ? q.header : 0), qb = q.offset + q.size;
  out.erase(out.begin() + static_cast<std::ptrdiff_t>(pa), out.begin() + static_cast<std::ptrdiff_t>(std::min(pb, out.size())));
  out.insert(out.begin() + static_cast<std::ptrdiff_t>(pa), b.begin() + static_cast<std::ptrdiff_t>(qa), b.begin() + static_cast<std::ptrdiff_t>(std::min(qb, b.size())));
  c.sample(std::to_string(out.size()) + " bytes");
  try_bytes(s, c, out);
}

void emit_seeds(const std::string& dir) {
  std::uint64_t k = 0;
  auto write = [&](const Bytes& b) {
    std::ofstream(dir + "/s" + std::to_string(k++), std::ios::binary).write(reinterpret_cast<const char*>(b.data()), static_cast<std::streamsize>(b.size()));
  };
  for (const auto& kd : kinds()) {
    for (int i = 0; i < 4; ++i) {
      Src s(mix(hash_bytes(kd.name.data(), kd.name.size()), static_cast<std::uint64_t>(i)));
      tree::Node n;
      n.x = kd.gen(s, i % 2 == 1);
      if (n.x.kind == "unsupported") n.x.type = fourcc("uuid");
      if (n.x.wire.size() > 400) continue;
      tree::Forest f;
      if (n.x.under_wave) {
        tree::Node p;
        p.x = kind("wave").gen(s, false);
        p.kids.push_back(n);
        f.push_back(p);
      } else {
        f.push_back(n);
      }
      tree::layout(f);
      write(tree::serialize(f));
    }
  }
  for (int i = 0; i < 60; ++i) {
    Src s(mix(77, static_cast<std::uint64_t>(i)));
    tree::Forest f = some_file(s);
    const Bytes b = tree::serialize(f);
    if (!b.empty() && b.size() <= 2000) write(b);
  }
}

}  // namespace

int main(int argc, char** argv) {
  if (argc == 3 && std::string(argv[1]) == "--emit-seeds") {
    emit_seeds(argv[2]);
    return 0;
  }
  Suite suite;
  suite.property = "P08";
  suite.rule =
      "A case draws an input for the file reader: a generated file with one to five mutations (sizes, counts, type codes, "
      "cuts, insertions, repeats), payloads of every kind with each leading word replaced by a hostile value, payloads or noise "
      "under any type code, noise, deep or dishonest nesting, large regular inputs, two files crossed; the coverage-guided "
      "search adds inputs of its own. Each is read under address and undefined-behaviour sanitizers; any outcome but completion "
      "or a std::exception, memory beyond 64 kB + 1200 B per input byte, CPU time beyond 0.5 s + 150 us per byte, or memory not "
      "given back is a violation. Non-trivial: the reader rejected the input, or the input is nested, large or a claim sweep; "
      "distinct by bytes.";
  suite.assumptions = {"memory is what operator new handed out; the stack is the default 8 MiB"};
  suite.init = [] {
    lib::quiet();
    p08::forget_stdout();  // the dump itself is not looked at here
    std::istringstream warm(std::string("\0\0\0\x08" "free", 8));
    p08::read_once(warm);
  };
  suite.groups = {
      {"mutated", 50000, 2500000, mutated, 30},
      {"claims", 3000, 150000, claims, 60},
      {"typed_noise", 40000, 2000000, typed_noise, 30},
      {"noise", 10000, 300000, noise, 30},
      {"nesting", 700, 60000, nesting, 60},
      {"large", 140, 8000, large, 60},
      {"spliced", 15000, 700000, spliced, 30},
  };
  return run_main(argc, argv, suite);
}
