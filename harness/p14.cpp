// P14: sample-table compression is lossless and minimal.
#include <algorithm>

#include "lib.hpp"
#include "movie.hpp"
#include "shiguredo/mp4/box/boxes.hpp"
#include "shiguredo/mp4/track/track.hpp"
#include "streams.hpp"

using namespace pbt;
using namespace model;
namespace trk = shiguredo::mp4::track;
namespace box = shiguredo::mp4::box;

namespace {

constexpr std::uint64_t U32 = 0xffffffffULL;

std::string U(std::uint64_t v) { return std::to_string(v); }

// a list made of runs, so that long equal stretches and single values both occur
std::vector<std::uint32_t> run_list(Src& s, bool zero_ok) {
  std::vector<std::uint32_t> pool;
  const std::size_t np = 1 + s.below(4);
  for (std::size_t i = 0; i < np; ++i) {
    std::uint32_t v = static_cast<std::uint32_t>(s.chance(1, 3) ? s.bits(32) : 1 + s.below(5));
    if (!pool.empty() && s.chance(1, 4)) v = pool.back() + (s.coin() ? 1 : 0x10000);  // a near miss
    if (v == 0 && !zero_ok) v = 1;
    pool.push_back(v);
  }
  std::vector<std::uint32_t> out;
  const std::size_t runs = s.chance(1, 30) ? 0 : 1 + s.size(6, 60);
  for (std::size_t i = 0; i < runs; ++i) {
    const std::uint32_t v = s.one_of(pool);
    std::size_t n = s.chance(1, 3) ? 1 : s.chance(1, 30) ? 1 + s.below(3000) : 1 + s.below(6);
    // run lengths (and with them run starts) around the 8- and 16-bit limits
    if (s.chance(1, 60)) n = s.pick<std::size_t>({256, 256, 65536, 32768, 65536 * 2}) + 2 - s.below(5);
    out.insert(out.end(), n, v);
  }
  return out;
}

std::vector<std::uint64_t> words(const Bytes& b, std::size_t from, unsigned width) {
  std::vector<std::uint64_t> v;
  for (std::size_t i = from; i + width <= b.size(); i += width) {
    std::uint64_t x = 0;
    for (unsigned k = 0; k < width; ++k) x = x << 8 | b[i + k];
    v.push_back(x);
  }
  return v;
}

std::uint32_t be32(const Bytes& b, std::size_t p) {
  return static_cast<std::uint32_t>(b[p] << 24 | b[p + 1] << 16 | b[p + 2] << 8 | b[p + 3]);
}

template <class C>
std::string list(const C& c) {
  std::string r = "[";
  std::size_t n = 0;
  for (const auto v : c) {
    if (n++ == 40) return r + " ...] (" + U(c.size()) + ")";
    r += (n > 1 ? " " : "") + U(v);
  }
  return r + "]";
}

void stts(Src& s, Ctx& c) {
  const auto durations = run_list(s, true);
  c.note("durations " + list(durations));
  std::vector<box::SttsEntry> entries;
  const std::size_t stale = s.below(3);
  for (std::size_t i = 0; i < stale; ++i) entries.push_back(box::SttsEntry({.sample_count = 7, .sample_duration = 9}));
  trk::make_stts_entries(&entries, durations);
  const auto e = lib::encode(box::Stts({.entries = entries}));
  PBT_CHECK(e.bytes.size() == 8 + 8 * entries.size() && be32(e.bytes, 4) == entries.size(), "stts of " + U(entries.size()) + " entries has another size");
  const auto w = words(e.bytes, 8, 4);
  c.note("stts " + list(w));
  std::vector<std::uint32_t> back;
  for (std::size_t i = 0; i + 1 < w.size(); i += 2) {
    if (w[i] == 0) fail("empty run in the time-to-sample table " + list(w));
    if (w[i] > durations.size()) fail("run longer than the list in " + list(w));
    if (i >= 2 && w[i + 1] == w[i - 1]) fail("neighbouring runs of equal duration in " + list(w));
    back.insert(back.end(), w[i], static_cast<std::uint32_t>(w[i + 1]));
  }
  if (back != durations) fail("durations " + list(durations) + " come back from " + list(w) + " as " + list(back));
  c.nontrivial(w.size() >= 4 && durations.size() * 2 > w.size());
  c.fingerprint(hash_bytes(durations.data(), durations.size() * 4));
  c.label(durations.empty() ? "empty" : w.size() == 2 ? "one run" : durations.size() * 2 == w.size() ? "no two equal" : "mixed");
  c.sample("durations " + list(durations) + " -> " + list(w));
}

std::vector<trk::ChunkInfo> chunks(Src& s, const std::vector<std::uint32_t>& counts) {
  std::vector<trk::ChunkInfo> v;
  std::uint64_t off = s.chance(1, 2) ? s.below(10000) : U32 - s.below(5000);
  const unsigned shape = static_cast<unsigned>(s.below(3));
  const bool far = s.chance(1, 3);
  for (const auto n : counts) {
    if (shape == 0) {
      off += s.below(2000);
    } else if (shape == 1) {
      off = s.chance(1, 3) ? U32 - 2 + s.below(5) : s.bits(32);
    } else {
      off = far && s.chance(1, 4) ? s.bits(63) : s.upto(U32);
    }
    v.push_back({.offset = off, .number_of_samples = n, .initialized = s.coin()});
  }
  return v;
}

void stsc(Src& s, Ctx& c) {
  const auto counts = run_list(s, s.chance(1, 10));
  c.note("samples per chunk " + list(counts));
  const auto in = chunks(s, counts);
  std::vector<box::StscEntry> entries;
  const std::size_t stale = s.below(3);
  for (std::size_t i = 0; i < stale; ++i) entries.push_back(box::StscEntry({.first_chunk = 3, .samples_per_chunk = 9, .sample_description_index = 1}));
  trk::make_stsc_entries(&entries, in);
  const auto e = lib::encode(box::Stsc({.entries = entries}));
  PBT_CHECK(e.bytes.size() == 8 + 12 * entries.size() && be32(e.bytes, 4) == entries.size(), "stsc of " + U(entries.size()) + " entries has another size");
  const auto w = words(e.bytes, 8, 4);
  c.note("stsc " + list(w));
  if (counts.empty() != w.empty()) fail(U(counts.size()) + " chunks give the table " + list(w));
  std::vector<std::uint32_t> back;
  for (std::size_t i = 0; i + 2 < w.size(); i += 3) {
    const std::uint64_t first = w[i], next = i + 3 < w.size() ? w[i + 3] : counts.size() + 1;
    if (first != back.size() + 1 || next <= first || next > counts.size() + 1) fail("first chunks are wrong in " + list(w) + " for " + U(counts.size()) + " chunks");
    if (w[i + 2] != 1) fail("sample description " + U(w[i + 2]) + " in " + list(w));
    if (i >= 3 && w[i + 1] == w[i - 2]) fail("neighbouring runs of equal sample count in " + list(w));
    back.insert(back.end(), next - first, static_cast<std::uint32_t>(w[i + 1]));
  }
  if (back != counts) fail("sample counts " + list(counts) + " come back from " + list(w) + " as " + list(back));
  c.nontrivial(w.size() >= 6 && counts.size() * 3 > w.size());
  c.fingerprint(hash_bytes(counts.data(), counts.size() * 4));
  c.label(counts.empty() ? "empty" : w.size() == 3 ? "one run" : counts.size() * 3 == w.size() ? "no two equal" : "mixed");
  c.sample("samples per chunk " + list(counts) + " -> " + list(w));
}

void offsets(Src& s, Ctx& c) {
  std::vector<std::uint32_t> counts(s.chance(1, 40) ? s.below(5000) : s.chance(1, 300) ? 65538 - s.below(5) : s.chance(1, 60) ? 258 - s.below(5) : s.size(5, 80), 1);
  const auto in = chunks(s, counts);
  std::vector<std::uint64_t> want;
  for (const auto& i : in) want.push_back(i.offset);
  c.note("offsets " + list(want));
  const bool fits = std::all_of(want.begin(), want.end(), [](auto v) { return v <= U32; });
  const std::unique_ptr<shiguredo::mp4::Box> b(trk::make_offset_box(in));
  PBT_CHECK(b, "no box");
  const std::string type = b->getType().toString();
  if (type != (fits ? "stco" : "co64")) fail("offsets " + list(want) + " are listed in a " + type + " box");
  const auto e = lib::encode(*b);
  const unsigned width = fits ? 4 : 8;
  PBT_CHECK(e.bytes.size() == 8 + width * want.size() && be32(e.bytes, 4) == want.size(), "offset table of " + U(want.size()) + " chunks has another size");
  const auto got = words(e.bytes, 8, width);
  if (got != want) fail("offsets " + list(want) + " are listed as " + list(got));
  const bool some64 = !fits, last64 = !want.empty() && want.back() > U32;
  c.label(want.empty() ? "empty" : fits ? "32-bit" : last64 ? "64-bit, last one large" : "64-bit, last one small");
  c.nontrivial(want.size() >= 2 && (some64 || std::any_of(want.begin(), want.end(), [](auto v) { return v > U32 - 10; })));
  c.fingerprint(hash_bytes(want.data(), want.size() * 8));
  c.sample(type + " " + list(want));
}

// the tables in the file of a whole history
void written(movie::Spec sp, Src& s, Ctx& c) {
  sp.faststart = s.chance(1, 3);
  if (sp.faststart) {
    std::erase_if(sp.events, [](const auto& e) { return e.kind == movie::Event::raw; });
    sp.own_metadata.reset();
  }
  c.note(movie::text(sp));
  streams::SparseBuf buf;
  std::ostream os(&buf);
  const auto session = movie::run(sp, os, sp.faststart ? scratch_dir() + "/mdatXXXXXX" : "");
  const Bytes file = buf.get(0, buf.size());
  const auto m = movie::demux(movie::fetch(file), file.size());
  std::size_t runs = 0, samples = 0, chunk_count = 0;
  PBT_CHECK(m.tracks.size() == sp.tracks.size(), "another number of tracks");
  for (const auto& t : m.tracks) {
    const std::string who = "track " + U(t.id) + ": ";
    const auto at = static_cast<std::size_t>(std::find(session.ids.begin(), session.ids.end(), t.id) - session.ids.begin());
    PBT_CHECK(at < sp.tracks.size(), who + "not one of those written");
    const auto& stbl = t.trak->need("mdia").need("minf").need("stbl");
    // durations: from each sample to the next one of the track
    std::vector<std::uint64_t> ts;
    for (const auto& e : sp.events) {
      if (e.kind == movie::Event::add && e.track == at && e.stores) ts.push_back(e.ts);
    }
    if (ts.size() != t.samples.size()) fail(who + U(ts.size()) + " samples were added and the tables hold " + U(t.samples.size()));
    for (std::size_t i = 0; i + 1 < ts.size(); ++i) {
      if (t.samples[i].duration != ts[i + 1] - ts[i]) fail(who + "sample " + U(i) + " lasts " + U(t.samples[i].duration) + " instead of " + U(ts[i + 1] - ts[i]));
    }
    const auto& tts = stbl.need("stts").payload;
    const auto w = words(tts, 8, 4);
    PBT_CHECK(be32(tts, 4) * 2 == w.size(), who + "stts has another size");
    for (std::size_t i = 2; i + 1 < w.size(); i += 2) {
      if (w[i + 1] == w[i - 1]) fail(who + "neighbouring runs of equal duration in " + list(w));
    }
    const auto& tsc = stbl.need("stsc").payload;
    const auto x = words(tsc, 8, 4);
    PBT_CHECK(be32(tsc, 4) * 3 == x.size(), who + "stsc has another size");
    for (std::size_t i = 3; i + 2 < x.size(); i += 3) {
      if (x[i + 1] == x[i - 2]) fail(who + "neighbouring runs of equal sample count in " + list(x));
    }
    const bool fits = std::all_of(t.chunks.begin(), t.chunks.end(), [](const auto& k) { return k.offset <= U32; });
    if (t.co64 == fits) fail(who + (fits ? "all offsets fit a 32-bit table and are in a 64-bit one" : "offsets beyond 32 bits in a 32-bit table"));
    runs += w.size() / 2 + x.size() / 3;
    samples += ts.size();
    chunk_count += t.chunks.size();
  }
  c.nontrivial(runs >= 3 && samples + chunk_count > runs);
  std::uint64_t h = 1;
  for (const auto& e : sp.events) h = mix(h, mix(e.kind, mix(e.track, mix(e.ts, e.data.size()))));
  c.fingerprint(h);
  c.label(sp.faststart ? "faststart" : "progressive");
  c.label(samples == 0 ? "no samples" : runs * 4 < samples + chunk_count ? "mostly runs" : "mostly changes");
  c.sample(U(samples) + " samples in " + U(chunk_count) + " chunks of " + U(m.tracks.size()) + " tracks take " + U(runs) + " runs");
}

void tracks(Src& s, Ctx& c) {
  movie::Options o;
  o.raw = true;
  o.h264 = false;
  o.max_sample = 100;
  o.max_tracks = 3;
  written(movie::gen(s, o), s, c);
}

void long_tracks(Src& s, Ctx& c) { written(movie::gen_long(s), s, c); }

}  // namespace

int main(int argc, char** argv) {
  Suite suite;
  suite.property = "P14";
  suite.rule =
      "A case draws a list of durations, samples per chunk (as runs of values with near misses) or chunk offsets (rising, "
      "around 2^32, in any order) and expands the table the library makes from it with an expander of its own; or it writes a "
      "movie with either writer and looks at the tables of its tracks. Non-trivial: at least two runs of which one has "
      "length above one (three runs for a movie), or offsets at or beyond the 32-bit limit; distinct by list or history.";
  suite.assumptions = {"chunks use the sample description with index 1, as every track of the library has exactly one"};
  suite.init = lib::quiet;
  suite.groups = {
      {"stts", 20000, 1500000, stts},
      {"stsc", 20000, 1500000, stsc},
      {"offsets", 20000, 1500000, offsets},
      {"tracks", 5000, 400000, tracks},
      {"long_tracks", 32, 3000, long_tracks},
  };
  return run_main(argc, argv, suite);
}
