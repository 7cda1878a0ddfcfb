// P12: the faststart writer yields the same media with the index first.
#include <dirent.h>

#include <algorithm>
#include <iostream>

#include "lib.hpp"
#include "movie.hpp"
#include "shiguredo/mp4/reader/reader.hpp"
#include "shiguredo/mp4/writer/faststart_writer.hpp"
#include "streams.hpp"

using namespace pbt;

namespace {

std::string U(std::uint64_t v) { return std::to_string(v); }

std::vector<std::string> files_in(const std::string& dir) {
  std::vector<std::string> r;
  DIR* d = ::opendir(dir.c_str());
  if (!d) fail("cannot list " + dir);
  while (const dirent* e = ::readdir(d)) {
    const std::string n = e->d_name;
    if (n != "." && n != "..") r.push_back(n);
  }
  ::closedir(d);
  std::sort(r.begin(), r.end());
  return r;
}

void same_media(const movie::DMovie& a, const movie::Fetch& fa, const movie::DMovie& b, const movie::Fetch& fb) {
  if (a.tracks.size() != b.tracks.size()) fail("the two files differ in their number of tracks");
  for (std::size_t k = 0; k < a.tracks.size(); ++k) {
    const auto &x = a.tracks[k], &y = b.tracks[k];
    const std::string who = "track " + U(k) + ": ";
    if (x.id != y.id || x.handler != y.handler || x.timescale != y.timescale || x.media_duration != y.media_duration ||
        x.movie_duration != y.movie_duration || x.has_stss != y.has_stss) {
      fail(who + "the two files describe it differently");
    }
    if (x.samples.size() != y.samples.size()) fail(who + "the two files differ in their number of samples");
    for (std::size_t i = 0; i < x.samples.size(); ++i) {
      const auto &p = x.samples[i], &q = y.samples[i];
      if (p.size != q.size || p.start != q.start || p.duration != q.duration || p.key != q.key) fail(who + "the two files differ in sample " + U(i));
      if (fa(p.offset, p.size) != fb(q.offset, q.size)) fail(who + "the two files differ in the bytes of sample " + U(i));
    }
    // the same sample entry, too
    const auto &sa = x.trak->need("mdia").need("minf").need("stbl").need("stsd"), &sb = y.trak->need("mdia").need("minf").need("stbl").need("stsd");
    if (fa(sa.offset, sa.size) != fb(sb.offset, sb.size)) fail(who + "the two files differ in the sample description");
  }
  if (a.timescale != b.timescale || a.duration != b.duration || a.next_track_id != b.next_track_id) fail("the two movie headers differ");
}

void one(Src& s, movie::Spec sp, Ctx& c) {
  sp.faststart = true;
  c.note(movie::text(sp));
  const std::string dir = scratch_dir();
  // the place is given from the working directory, or in full; it stays the same wherever the process goes
  const bool from_here = s.chance(1, 5), leaves = s.chance(1, 5);
  struct Back {
    const std::string from = std::filesystem::current_path().string();
    ~Back() { std::filesystem::current_path(from); }
  } back;
  if (from_here) std::filesystem::current_path(dir);
  const std::string tmpl = (from_here ? "" : dir + "/") + (s.coin() ? "mdatXXXXXX" : "a-longer.name_XXXXXX");
  const auto before = files_in(dir);
  streams::SparseBuf buf;
  std::ostream os(&buf);
  std::unique_ptr<movie::Session> other;
  streams::SparseBuf other_buf;
  std::ostream other_os(&other_buf);
  const bool two = s.chance(1, 8);  // a second writer with the same template is open all the time
  if (two) {
    other = std::make_unique<movie::Session>(movie::open(sp, other_os, tmpl));
    movie::begin(sp, *other);
    for (std::size_t i = 0; i < sp.events.size() && i < 5; ++i) movie::apply(sp.events[i], *other);
  }
  movie::Session ss = movie::open(sp, os, tmpl);
  const std::string path = ss.fast->getIntermediateFilePath().string();
  if (two && path == other->fast->getIntermediateFilePath().string()) fail("two writers share the intermediate file " + path);
  if (files_in(dir).size() != before.size() + (two ? 2 : 1)) fail("no intermediate file was created in the given place");
  if (!std::filesystem::exists(path) || std::filesystem::path(path).filename().string().size() != std::filesystem::path(tmpl).filename().string().size()) fail("the intermediate file is said to be at " + path);
  movie::begin(sp, ss);
  const std::size_t go = leaves ? s.below(sp.events.size() + 1) : 0;
  for (std::size_t i = 0; i <= sp.events.size(); ++i) {
    if (leaves && i == go) std::filesystem::current_path("/");
    if (i < sp.events.size()) movie::apply(sp.events[i], ss);
  }
  movie::end(sp, ss);
  if (two) {
    for (std::size_t i = 5; i < sp.events.size(); ++i) movie::apply(sp.events[i], *other);
    movie::end(sp, *other);
    const Bytes ofile = other_buf.get(0, other_buf.size());
    const auto of = movie::fetch(ofile);
    const auto om = movie::demux(of, ofile.size());
    movie::check_samples(sp, *other, om, of, ofile.size());
  }
  const auto after = files_in(dir);
  if (after != before) fail("the intermediate file is still there: " + after.back());
  const Bytes file = buf.get(0, buf.size());
  const auto f = movie::fetch(file);
  const auto m = movie::demux(f, file.size());
  if (m.moov->offset > m.mdat->offset) fail("the movie box comes after the media data");
  const std::size_t n = movie::check_samples(sp, ss, m, f, file.size());

  // the progressive writer, same history
  movie::Spec pp = sp;
  pp.faststart = false;
  streams::SparseBuf pbuf;
  std::ostream pos(&pbuf);
  const auto ps = movie::run(pp, pos, "");
  const Bytes pfile = pbuf.get(0, pbuf.size());
  const auto pf = movie::fetch(pfile);
  const auto pm = movie::demux(pf, pfile.size());
  same_media(m, f, pm, pf);

  if (file.size() < 20000) {
    std::istringstream is(lib::str(file));
    CaptureStdout cap;
    const std::string e = lib::thrown([&] {
      shiguredo::mp4::reader::SimpleReader r(is);
      r.read();
    });
    cap.finish();
    if (!e.empty()) fail("the reader rejects the finished file: " + e);
  }

  std::size_t chunks = 0, most = 0;
  for (const auto& t : m.tracks) {
    chunks += t.chunks.size();
    most = std::max(most, t.chunks.size());
  }
  c.nontrivial(n >= 3 && most >= 2);
  c.label(U(sp.tracks.size()) + " tracks");
  c.label(n == 0 ? "no samples" : n < 10 ? "1-9 samples" : n < 100 ? "10-99 samples" : "100+ samples");
  c.label_if(two, "two writers");
  c.label_if(from_here, "intermediate file named from the working directory");
  c.label_if(leaves, "working directory changed while recording");
  c.label(file.size() > (1u << 20) ? "over 1 MiB" : "up to 1 MiB");  // the copy runs in 1 MiB steps
  for (const auto& t : sp.tracks) c.label(movie::name(t.codec));
  std::uint64_t h = 1;
  for (const auto& e : sp.events) h = mix(h, mix(e.kind, mix(e.track, mix(e.ts, mix(e.key, hash_bytes(e.data.data(), e.data.size()))))));
  c.fingerprint(h);
  c.sample(U(sp.tracks.size()) + " tracks, " + U(n) + " samples in " + U(chunks) + " chunks, " + U(file.size()) + " bytes: " + movie::text(sp).substr(0, 300));
}

void histories(Src& s, Ctx& c) {
  movie::Options o;
  o.raw = true;
  one(s, movie::gen(s, o), c);
}

void small(Src& s, Ctx& c) {
  movie::Options o;
  o.events = 4;
  o.max_events = 10;
  o.sample = 2;
  o.max_sample = 6;
  o.max_tracks = 2;
  one(s, movie::gen(s, o), c);
}

void large(Src& s, Ctx& c) {
  movie::Options o;
  o.events = 400;
  o.max_events = 5000;
  o.sample = 5;
  o.max_sample = s.chance(1, 3) ? 200000 : 40;
  if (o.max_sample > 1000) o.events = 10, o.max_events = 40;
  one(s, movie::gen(s, o), c);
}

void marathon(Src& s, Ctx& c) { one(s, movie::gen_long(s), c); }

void many_tracks(Src& s, Ctx& c) {
  movie::Options o;
  o.max_tracks = 300;
  o.events = 600;
  o.max_events = 900;
  o.sample = 2;
  o.max_sample = 9;
  o.h264 = s.chance(1, 4);
  one(s, movie::gen(s, o), c);
}

// media data of a few MiB, around the multiples of the copy step
void copy_steps(Src& s, Ctx& c) {
  movie::Options o;
  o.events = 3;
  o.max_events = 8;
  o.h264 = false;
  movie::Spec sp = movie::gen(s, o);
  if (sp.tracks.empty() || sp.events.empty()) return;
  std::uint64_t sum = 0;
  movie::Event* last = nullptr;
  for (auto& e : sp.events) {
    if (e.kind == movie::Event::add) last = &e;
    sum += e.data.size();
  }
  if (!last) return;
  const std::uint64_t step = std::uint64_t(1) << 20;
  const std::uint64_t want = step * (1 + s.below(3)) + s.pick<std::uint64_t>({0, 1, step - 1, 2, s.below(step)});
  if (want < sum) return;
  const std::uint64_t grow = want - sum;
  const std::uint64_t seed = s.bits(32) | 1;
  Bytes big = last->data;
  // everywhere different, all the same, or all the same in parts of the size of a step, counted from the end or from the start
  const unsigned fill = static_cast<unsigned>(s.below(4));
  const std::uint8_t same = s.pick<std::uint8_t>({0, 0, 0xff, 0x20});
  std::uint64_t x = seed;
  for (std::uint64_t i = 0; i < grow; ++i) {
    x = x * 6364136223846793005ULL + 1442695040888963407ULL;
    const bool flat = fill == 1 || (fill == 2 && (grow - 1 - i) / step % 2 == 0) || (fill == 3 && (sum + i) / step % 2 == 0);
    big.push_back(flat ? same : static_cast<std::uint8_t>(x >> 40));
  }
  c.label(fill == 0 ? "media data everywhere different" : fill == 1 ? "media data of one value" : "stretches of one value");
  last->data = big;
  last->stored = big;
  one(s, sp, c);
}

}  // namespace

int main(int argc, char** argv) {
  Suite suite;
  suite.property = "P12";
  suite.rule =
      "A case draws tracks and a history as for P11, writes it with FaststartWriter (intermediate file in a scratch directory, "
      "sometimes with a second writer open) and with SimpleWriter, reads both files with a demuxer of its own and compares both "
      "with the history and with each other. Non-trivial: at least three samples and a track with two chunks or more; distinct "
      "by history.";
  suite.assumptions = {"timestamps of a track do not decrease and their gaps fit 32 bits", "calls come in the order the example uses"};
  suite.init = lib::quiet;
  suite.groups = {
      {"small", 5000, 300000, small},
      {"histories", 3500, 200000, histories},
      {"large", 150, 12000, large},
      {"copy_steps", 100, 6000, copy_steps},
      {"marathon", 48, 3000, marathon},
      {"many_tracks", 16, 1000, many_tracks},
  };
  return run_main(argc, argv, suite);
}
