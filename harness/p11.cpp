// P11: the progressive writer's file gives back every sample that was added.
#include <iostream>

#include "lib.hpp"
#include "movie.hpp"
#include "shiguredo/mp4/reader/reader.hpp"
#include "streams.hpp"

using namespace pbt;

namespace {

std::string U(std::uint64_t v) { return std::to_string(v); }

void describe(const movie::Spec& sp, const movie::DMovie& m, std::uint64_t size, std::size_t n, Ctx& c) {
  c.note(movie::text(sp));
  std::size_t chunks = 0, most = 0;
  for (const auto& t : m.tracks) {
    chunks += t.chunks.size();
    most = std::max(most, t.chunks.size());
  }
  c.nontrivial(n >= 3 && most >= 2);
  c.label(U(sp.tracks.size()) + " tracks");
  c.label(n == 0 ? "no samples" : n < 10 ? "1-9 samples" : n < 100 ? "10-99 samples" : "100+ samples");
  c.label(most <= 1 ? "one chunk" : most < 10 ? "2-9 chunks in a track" : "10+ chunks in a track");
  for (const auto& t : sp.tracks) c.label(movie::name(t.codec));
  std::uint64_t h = 1;
  for (const auto& e : sp.events) h = mix(h, mix(e.kind, mix(e.track, mix(e.ts, mix(e.key, hash_bytes(e.data.data(), e.data.size()))))));
  c.fingerprint(h);
  c.sample(U(sp.tracks.size()) + " tracks, " + U(n) + " samples in " + U(chunks) + " chunks, " + U(size) + " bytes: " + movie::text(sp).substr(0, 300));
}

void one(const movie::Spec& sp, Ctx& c) {
  c.note(movie::text(sp));
  streams::SparseBuf buf;
  std::ostream os(&buf);
  const auto session = movie::run(sp, os, "");
  const Bytes file = buf.get(0, buf.size());
  const auto f = movie::fetch(file);
  const auto m = movie::demux(f, file.size());
  const std::size_t n = movie::check_samples(sp, session, m, f, file.size());
  c.notes.clear();
  describe(sp, m, file.size(), n, c);
  // the library's own reader accepts it as well
  if (file.size() < 20000) {
    std::istringstream is(lib::str(file));
    CaptureStdout cap;
    const std::string e = lib::thrown([&] {
      shiguredo::mp4::reader::SimpleReader r(is);
      r.read();
    });
    cap.finish();
    if (!e.empty()) fail("the reader rejects the finished file: " + e);
  }
}

void histories(Src& s, Ctx& c) {
  movie::Options o;
  o.raw = true;
  one(movie::gen(s, o), c);
}

// few samples, everything at its smallest
void small(Src& s, Ctx& c) {
  movie::Options o;
  o.events = 4;
  o.max_events = 10;
  o.sample = 2;
  o.max_sample = 6;
  o.max_tracks = 2;
  one(movie::gen(s, o), c);
}

void large(Src& s, Ctx& c) {
  movie::Options o;
  o.events = 400;
  o.max_events = 5000;
  o.sample = 5;
  o.max_sample = s.chance(1, 3) ? 200000 : 40;
  if (o.max_sample > 1000) o.events = 10, o.max_events = 40;
  one(movie::gen(s, o), c);
}

// more samples, chunks or samples in a chunk than 8 or 16 bits count
void marathon(Src& s, Ctx& c) { one(movie::gen_long(s), c); }

// more tracks than 8 bits count
void many_tracks(Src& s, Ctx& c) {
  movie::Options o;
  o.max_tracks = 300;
  o.events = 600;
  o.max_events = 900;
  o.sample = 2;
  o.max_sample = 9;
  o.h264 = s.chance(1, 4);
  one(movie::gen(s, o), c);
}

}  // namespace

int main(int argc, char** argv) {
  Suite suite;
  suite.property = "P11";
  suite.rule =
      "A case draws tracks of any codec and a history of adding samples (any size, timing and key marks) and ending chunks, in "
      "any interleaving, writes it with SimpleWriter and reads the file with a demuxer of its own, which must recover every "
      "sample. Non-trivial: at least three samples and a track with two chunks or more; distinct by history.";
  suite.assumptions = {"timestamps of a track do not decrease and their gaps fit 32 bits", "calls come in the order the example uses"};
  suite.init = lib::quiet;
  suite.groups = {
      {"small", 8000, 500000, small},
      {"histories", 5000, 300000, histories},
      {"large", 250, 20000, large},
      {"marathon", 64, 4000, marathon},
      {"many_tracks", 24, 1500, many_tracks},
  };
  return run_main(argc, argv, suite);
}
