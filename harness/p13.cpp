// P13: files beyond 4 GiB. Media data is mostly zeros, kept sparse on both sides: the output stream stores no zero
// pages, and fwrite (a stand-in below, used for the faststart writer's intermediate file) seeks over long runs of
// zeros, so that a case costs little more than reading 4 GiB of memory.
#include <dlfcn.h>
#include <sys/mman.h>

#include <algorithm>
#include <cstdio>
#include <iostream>

#include "lib.hpp"
#include "movie.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "streams.hpp"

using namespace pbt;
using movie::Codec;

namespace {
constexpr std::uint64_t U32 = 0xffffffffULL;
constexpr std::uint64_t G4 = 0x100000000ULL;
std::string U(std::uint64_t v) { return std::to_string(v); }

bool zero_page(const char* p, std::size_t n) {
  static const std::vector<char> z(4096, 0);
  return std::memcmp(p, z.data(), n) == 0;
}
}  // namespace

extern "C" std::size_t fwrite(const void* data, std::size_t size, std::size_t n, std::FILE* f) {
  using fn = std::size_t (*)(const void*, std::size_t, std::size_t, std::FILE*);
  static const fn real = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "fwrite"));
  const std::size_t total = size * n;
  if (total < (1u << 20)) return real(data, size, n, f);
  const char* p = static_cast<const char*>(data);
  std::size_t i = 0, skipped = 0;
  while (i < total) {
    const std::size_t k = std::min<std::size_t>(4096, total - i);
    if (i + k < total && zero_page(p + i, k)) {
      skipped += k;
    } else {
      if (skipped && fseeko(f, static_cast<off_t>(skipped), SEEK_CUR) != 0) return i / size;
      skipped = 0;
      if (real(p + i, 1, k, f) != k) return i / size;
    }
    i += k;
  }
  return n;
}

namespace {

// 4 GiB of zero bytes in which the ends of the current sample are marked
class Zone {
 public:
  static Zone& get() {
    static Zone z;
    return z;
  }
  const std::uint8_t* sample(std::uint64_t n, std::uint64_t mark) {
    for (auto p : m_dirty) m_base[p] = 0;
    m_dirty.clear();
    for (unsigned k = 0; k < 8 && k < n; ++k) {
      set(k, static_cast<std::uint8_t>(mark >> 8 * k | 1));
      set(n - 1 - k, static_cast<std::uint8_t>(mark >> 8 * k | 1));
    }
    return m_base;
  }

 private:
  Zone() {
    void* p = mmap(nullptr, G4 + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) throw std::runtime_error("mmap");
    m_base = static_cast<std::uint8_t*>(p);
    madvise(p, G4, MADV_NOHUGEPAGE);
  }
  void set(std::uint64_t p, std::uint8_t v) {
    m_base[p] = v;
    m_dirty.push_back(p);
  }
  std::uint8_t* m_base;
  std::vector<std::uint64_t> m_dirty;
};
Bytes head(std::uint64_t n, std::uint64_t mark) {
  Bytes b(std::min<std::uint64_t>(n, 64), 0);
  const auto set = [&](std::uint64_t p, std::uint8_t v) {
    if (p < b.size()) b[p] = v;
  };
  for (unsigned k = 0; k < 8 && k < n; ++k) {
    set(k, static_cast<std::uint8_t>(mark >> 8 * k | 1));
    set(n - 1 - k, static_cast<std::uint8_t>(mark >> 8 * k | 1));
  }
  return b;
}
Bytes tail(std::uint64_t n, std::uint64_t mark) {
  Bytes b = head(n, mark);  // marked symmetrically
  std::reverse(b.begin(), b.end());
  return b;
}

struct Add {
  std::size_t track;
  std::uint64_t size, mark;
  bool end;  // chunk ends after it
  bool raw = false;  // media data that belongs to no sample, handed to the writer itself
};
struct Plan {
  movie::Spec sp;
  std::vector<Add> adds;
};

std::string text(const Plan& p) {
  std::string r = movie::text(p.sp) + "\n ";
  for (const auto& a : p.adds) r += (a.raw ? " raw(" : " add(" + U(a.track) + ",") + U(a.size) + ")" + (a.end ? "|" : "");
  return r;
}

struct Written {
  movie::Session ss;
  movie::DMovie m;
  std::uint64_t size;
};

void write(const Plan& p, streams::SparseBuf& buf, movie::Session& ss) {
  std::ostream os(&buf);
  ss = movie::open(p.sp, os, scratch_dir() + "/mdatXXXXXX");
  movie::begin(p.sp, ss);
  std::vector<std::uint64_t> ts(p.sp.tracks.size(), 0);
  for (const auto& a : p.adds) {
    if (a.raw) {
      ss.writer->addMdatData(Zone::get().sample(a.size, a.mark), a.size);
      continue;
    }
    ss.tracks[a.track]->addData(ts[a.track], Zone::get().sample(a.size, a.mark), a.size, true);
    ts[a.track] += 1000;
    if (a.end) ss.tracks[a.track]->terminateCurrentChunk();
  }
  movie::end(p.sp, ss);
  if (!os.good()) fail("the stream is in an error state");
}

// where the media data would start if offset tables were 32 bits wide and the header short
std::uint64_t dry_start(Plan p) {
  for (auto& a : p.adds) a.size = std::min<std::uint64_t>(a.size, 1);
  streams::SparseBuf buf;
  movie::Session ss;
  write(p, buf, ss);
  const auto m = movie::demux([&](std::uint64_t o, std::uint64_t n) { return buf.get(o, n); }, buf.size());
  return m.mdat->offset + m.mdat->header;
}

Plan gen(Src& s, bool faststart, Ctx& c) {
  Plan p;
  p.sp.faststart = faststart;
  p.sp.duration = 5;
  const std::size_t nt = 1 + s.below(3);
  movie::Options o;
  o.h264 = false;
  for (std::size_t i = 0; i < nt; ++i) {
    auto t = movie::gen_track(s, o, 5);
    t.duration = 5;
    p.sp.tracks.push_back(t);
  }
  // small samples around one or a few giants
  const auto some = [&](std::size_t n) {
    for (std::size_t i = 0; i < n; ++i) p.adds.push_back({s.below(nt), 1 + s.size(20, 3000), s.bits(64), s.chance(1, 3)});
  };
  some(s.below(6));
  const std::size_t first = p.adds.size();
  const std::size_t giants = s.chance(1, 3) ? 2 + s.below(3) : 1;
  for (std::size_t i = 0; i < giants; ++i) {
    p.adds.push_back({s.below(nt), 0, s.bits(64), s.chance(1, 2)});
    if (i + 1 < giants) some(s.below(3));
  }
  const std::size_t last = p.adds.size() - 1;
  const bool raw = s.chance(1, 4);
  if (raw) p.adds[first].raw = true;
  some(s.below(8));

  const std::uint64_t start = dry_start(p);
  // what the giants sum up to
  const unsigned target = raw && s.coin() ? 4 : s.pick<unsigned>({3, 2, 1, 1, 0, 0});
  std::uint64_t others = 0, sum;
  const std::int64_t jitter = static_cast<std::int64_t>(s.below(9)) - 4;
  if (target == 0) {  // the media data box's size at the limit
    for (const auto& a : p.adds) others += a.size;
    sum = U32 - 8 - others + static_cast<std::uint64_t>(jitter);
    c.label("data size at the limit");
  } else if (target == 1 && last + 1 < p.adds.size()) {  // a sample after the giant starts at the limit
    const std::size_t which = last + 1 + s.below(p.adds.size() - last - 1);
    for (std::size_t i = 0; i < which; ++i) others += p.adds[i].size;
    std::int64_t off = jitter;
    if (faststart && s.coin()) off -= static_cast<std::int64_t>(s.below(4 * p.adds.size() + 10));  // where wider tables push it over
    sum = G4 - start - others + static_cast<std::uint64_t>(off);
    c.label("sample offset at the limit");
  } else if (target == 4) {  // one piece of 4 GiB and more
    sum = G4 + s.pick<std::uint64_t>({0, 1, 4000});
    c.label("one piece of 4 GiB");
  } else if (target == 2) {  // well beyond
    sum = U32 + s.below(faststart ? 200u << 20 : 3000u << 20);
    c.label("well beyond");
  } else {  // far below
    sum = s.below(64u << 20);
    c.label("below");
  }
  // split between the giants, none of them above what a sample size holds
  std::vector<std::size_t> gs;
  for (std::size_t i = first; i <= last; ++i) {
    if (p.adds[i].size == 0) gs.push_back(i);  // (the raw one first)
  }
  for (std::size_t k = 0; k < gs.size(); ++k) {
    const std::uint64_t left = gs.size() - k - 1;
    std::uint64_t v = left == 0 ? sum : sum / (left + 1) + s.below(1000);
    if (target == 4 && k == 0) v = sum;
    v = std::min({v, sum, p.adds[gs[k]].raw ? G4 + 4000 : U32});
    p.adds[gs[k]].size = v;
    sum -= v;
  }
  while (sum > 0) {
    const std::uint64_t v = std::min(sum, U32);
    p.adds.insert(p.adds.begin() + static_cast<std::ptrdiff_t>(first), {s.below(nt), v, s.bits(64), false});
    sum -= v;
  }
  return p;
}

std::uint64_t at_of(std::istream& is) { return static_cast<std::uint64_t>(is.tellg()); }

void check(const Plan& p, Ctx& c) {
  c.note(text(p));
  streams::SparseBuf buf;
  movie::Session ss;
  write(p, buf, ss);
  const auto get = [&](std::uint64_t o, std::uint64_t n) {
    if (n > (64u << 20)) fail("a box other than the media data has " + U(n) + " bytes");
    if (o > buf.size() || n > buf.size() - o) fail("the file has no bytes " + U(o) + "+" + U(n));
    return buf.get(o, n);
  };
  const auto m = movie::demux(get, buf.size());
  if (m.top.back().end() != buf.size()) fail("the boxes end at " + U(m.top.back().end()) + ", the file at " + U(buf.size()));
  const std::uint64_t lo = m.mdat->offset + m.mdat->header, hi = m.mdat->end();
  std::uint64_t total = 0;
  for (const auto& a : p.adds) total += a.size;
  if (hi - lo != total) fail("the media data box holds " + U(hi - lo) + " bytes of " + U(total));
  const bool large = total + 8 > U32;
  if (m.mdat->header != (large ? 16 : 8)) fail(U(total) + " bytes of media data have a " + U(m.mdat->header) + " byte box header");
  if (m.tracks.size() != p.sp.tracks.size()) fail("wrong number of tracks");
  std::vector<std::pair<std::uint64_t, std::uint64_t>> spans;
  bool any64 = false, edge = large ? total + 8 <= U32 + 8 : total + 8 + 8 > U32;
  for (std::size_t k = 0; k < m.tracks.size(); ++k) {
    const auto& t = m.tracks[k];
    const std::string who = "track " + U(k) + ": ";
    std::vector<const Add*> want;
    for (const auto& a : p.adds) {
      if (a.track == k && !a.raw) want.push_back(&a);
    }
    if (t.samples.size() != want.size()) fail(who + U(t.samples.size()) + " samples of " + U(want.size()));
    for (std::size_t i = 0; i < want.size(); ++i) {
      const auto& x = t.samples[i];
      const auto& a = *want[i];
      const std::string which = who + "sample " + U(i) + " at " + U(x.offset) + ": ";
      if (x.size != a.size) fail(which + "has " + U(x.size) + " bytes instead of " + U(a.size));
      if (x.offset < lo || x.offset > hi || x.size > hi - x.offset) fail(which + "lies outside the media data " + U(lo) + ".." + U(hi));
      const Bytes h = head(a.size, a.mark), e = tail(a.size, a.mark);
      if (buf.get(x.offset, h.size()) != h) fail(which + "begins with other bytes: " + diff(h, buf.get(x.offset, h.size())));
      const std::uint64_t z = x.offset + x.size - e.size();
      if (buf.get(z, e.size()) != e) fail(which + "ends with other bytes: " + diff(e, buf.get(z, e.size())));
      if (x.start != 1000 * i) fail(which + "starts at time " + U(x.start));
      if (x.size) spans.emplace_back(x.offset, x.size);
      edge = edge || (x.offset > U32 - 100 && x.offset < U32 + 100);
    }
    bool need64 = false;
    for (const auto& ch : t.chunks) need64 = need64 || ch.offset > U32;
    if (need64 != t.co64) fail(who + (need64 ? "offsets beyond 32 bits are in a 32-bit table" : "a 64-bit offset table although every offset fits 32 bits"));
    any64 = any64 || need64;
  }
  {
    std::uint64_t at = lo;
    for (const auto& a : p.adds) {
      if (a.raw && a.size) {
        spans.emplace_back(at, a.size);
        const Bytes h = head(a.size, a.mark), e = tail(a.size, a.mark);
        if (buf.get(at, h.size()) != h) fail("media data of " + U(a.size) + " bytes at " + U(at) + " begins with other bytes: " + diff(h, buf.get(at, h.size())));
        if (buf.get(at + a.size - e.size(), e.size()) != e) fail("media data of " + U(a.size) + " bytes at " + U(at) + " ends with other bytes");
      }
      at += a.size;
    }
  }
  std::sort(spans.begin(), spans.end());
  for (std::size_t i = 0; i < spans.size(); ++i) {
    const std::uint64_t at = i ? spans[i - 1].first + spans[i - 1].second : lo;
    if (spans[i].first != at) fail("samples do not tile the media data: one ends at " + U(at) + ", the next starts at " + U(spans[i].first));
  }
  // the library's header reader walks the same extents (its file reader holds whole payloads in memory)
  {
    std::istream is(&buf);
    is.seekg(0);
    for (const auto& b : m.top) {
      const std::unique_ptr<shiguredo::mp4::BoxHeader> h(shiguredo::mp4::read_box_header(is));
      if (h->getOffset() != b.offset || h->getSize() != b.size || h->getHeaderSize() != b.header) {
        fail("the header of " + model::type_text(b.type) + " at " + U(b.offset) + "+" + U(b.size) + " is read as " + h->toString());
      }
      h->seekToData(is);
      if (at_of(is) != b.offset + b.header) fail("seekToData of " + model::type_text(b.type) + " at " + U(b.offset) + " goes to " + U(at_of(is)));
      h->seekToEnd(is);
      if (at_of(is) != b.offset + b.size) fail("seekToEnd of " + model::type_text(b.type) + " at " + U(b.offset) + "+" + U(b.size) + " goes to " + U(at_of(is)));
    }
  }
  c.label(p.sp.faststart ? "faststart" : "progressive");
  c.label(large ? "64-bit media data size" : "32-bit media data size");
  c.label(any64 ? "64-bit offsets" : "32-bit offsets");
  c.label_if(edge, "within 100 bytes of a limit");
  c.nontrivial(large || any64 || edge);
  std::uint64_t h = p.sp.faststart;
  for (const auto& a : p.adds) h = mix(h, mix(a.track, mix(a.size, a.end + 2 * a.raw)));
  c.fingerprint(h);
  c.sample(U(buf.size()) + " bytes: " + text(p).substr(0, 400));
}

void progressive(Src& s, Ctx& c) { check(gen(s, false, c), c); }
void faststart(Src& s, Ctx& c) { check(gen(s, true, c), c); }

}  // namespace

int main(int argc, char** argv) {
  Suite suite;
  suite.property = "P13";
  suite.rule =
      "A case draws one to three tracks and a history of small samples around giant ones whose sizes put the media data box's "
      "size or the offset of some sample within a few bytes of 2^32 (or well beyond, far below, or in one piece of media data of 4 GiB and more), writes the file with a "
      "writer onto a sparse file image and reads it with a demuxer of its own and the library's header reader. Non-trivial: a 64-bit "
      "size or table is needed, or a limit is within 100 bytes; distinct by history.";
  suite.assumptions = {"the bytes inside a giant sample are zeros except for 16 marker bytes; its first and last 64 bytes are compared"};
  suite.init = lib::quiet;
  suite.groups = {
      {"progressive", 100, 3000, progressive, 300},
      {"faststart", 80, 1500, faststart, 300},
  };
  return run_main(argc, argv, suite);
}
