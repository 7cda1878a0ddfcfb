// P15: H.264 byte streams are split and stored without losing a NAL unit.
#include <algorithm>

#include "lib.hpp"
#include "movie.hpp"
#include "shiguredo/mp4/track/h264.hpp"
#include "streams.hpp"

using namespace pbt;
namespace trk = shiguredo::mp4::track;

namespace {

std::string U(std::uint64_t v) { return std::to_string(v); }

bool supported(std::uint8_t type) { return type >= 1 && type <= 8; }

std::string units_text(const std::vector<movie::Nal>& v) {
  std::string r;
  for (const auto& n : v) r += (r.empty() ? "" : " ") + U(n.type) + ":" + U(n.unit.size());
  return r;
}

// ---- the splitter itself ----
void splitter(Src& s, Ctx& c) {
  struct Piece {
    std::size_t start, code, unit_end, code_limit;
    std::uint8_t header;
  };
  Bytes b;
  std::vector<Piece> ps;
  const std::size_t n = 1 + s.below(6);
  const bool zeros = s.chance(1, 4);
  for (std::size_t i = 0; i < n; ++i) {
    Piece p;
    const bool four = s.coin();
    p.start = b.size();
    p.code = four ? 4 : 3;
    if (four) b.push_back(0);
    if (!ps.empty()) ps.back().code_limit = b.size();
    b.insert(b.end(), {0, 0, 1});
    const std::uint8_t type = static_cast<std::uint8_t>(s.below(32));
    const Bytes u = movie::gen_nal(s, type, 1, s.chance(1, 10) ? 300 : 12);
    p.header = u[0];
    b.insert(b.end(), u.begin(), u.end());
    p.unit_end = b.size();
    if (zeros && s.coin()) b.insert(b.end(), 1 + s.below(3), 0);
    p.code_limit = b.size();
    ps.push_back(p);
  }
  c.note("stream " + hex(b));
  const std::unique_ptr<std::uint8_t[]> exact(new std::uint8_t[b.size()]);
  std::copy(b.begin(), b.end(), exact.get());
  std::size_t at = 0;
  for (std::size_t i = 0; i < ps.size(); ++i) {
    const auto& p = ps[i];
    const auto u = trk::find_next_nal_unit(exact.get(), b.size(), at);
    const std::string got = "unit " + U(i) + " found at " + U(u.start) + " with a start code of " + U(u.start_code_size) + ", header " + U(u.header) + ", ending at " + U(u.end);
    if (u.start != at) fail(got + ", expected to start at " + U(at));
    // zero bytes that trail the previous unit may be counted on either side
    const std::size_t first = u.start + u.start_code_size;
    if (first != p.start + p.code || u.start_code_size < 3 || u.start_code_size > 4) fail(got + ", expected the unit at " + U(p.start + p.code));
    if (!zeros && (u.start_code_size != p.code || u.start != p.start)) fail(got + ", expected a start code of " + U(p.code) + " at " + U(p.start));
    if (u.header != p.header) fail(got + ", expected header " + U(p.header));
    if (i + 1 == ps.size()) {
      if (u.end != b.size()) fail(got + ", expected to end with the stream at " + U(b.size()));
    } else if (zeros ? u.end < p.unit_end || u.end > p.code_limit : u.end != p.unit_end) {
      fail(got + ", expected to end at " + U(p.unit_end));
    }
    at = u.end;
  }
  // no unit starts anywhere inside a unit, its start code or past the end
  for (int k = 0; k < 4; ++k) {
    const auto& p = s.one_of(ps);
    std::size_t q = p.start + 1 + s.below(p.unit_end - p.start);
    if (p.code == 4 && q == p.start + 1) continue;  // the 3-byte start code inside the 4-byte one
    if (q >= p.unit_end) q = b.size() + s.below(3);
    const std::size_t len = b.size();
    bool thrown = false;
    try {
      (void)trk::find_next_nal_unit(exact.get(), len, q);
    } catch (const std::exception&) {
      thrown = true;
    }
    if (!thrown) fail("a unit was found at " + U(q) + ", where no start code is");
  }
  c.nontrivial(n >= 2);
  c.label(n == 1 ? "one unit" : "several units");
  c.label_if(zeros, "trailing zeros");
  c.label_if(ps.back().unit_end - ps.back().start - ps.back().code <= 2, "last unit of 1 or 2 bytes");
  c.label_if(std::any_of(ps.begin(), ps.end(), [](const auto& p) { return p.header == 0; }), "header byte 0");
  c.fingerprint(hash_bytes(b.data(), b.size()));
  c.sample(hex(b, 60));
}

struct Avcc {
  std::uint8_t version, profile, compatibility, level, length_size;
  std::vector<Bytes> sps, pps;
};

Avcc read_avcc(const movie::Box& b) {
  Avcc a;
  movie::Cursor c{b.payload, 0, "avcC"};
  a.version = static_cast<std::uint8_t>(c.u(1));
  a.profile = static_cast<std::uint8_t>(c.u(1));
  a.compatibility = static_cast<std::uint8_t>(c.u(1));
  a.level = static_cast<std::uint8_t>(c.u(1));
  const auto ls = c.u(1);
  PBT_CHECK((ls & 0xfc) == 0xfc, "reserved bits of avcC");
  a.length_size = static_cast<std::uint8_t>((ls & 3) + 1);
  auto n = c.u(1);
  PBT_CHECK((n & 0xe0) == 0xe0, "reserved bits of avcC");
  n &= 0x1f;
  for (std::uint64_t i = 0; i < n; ++i) a.sps.push_back(c.take(c.u(2)));
  n = c.u(1);
  for (std::uint64_t i = 0; i < n; ++i) a.pps.push_back(c.take(c.u(2)));
  return a;
}

std::string sets_text(const std::vector<Bytes>& v) {
  std::string r = U(v.size()) + " sets";
  for (const auto& x : v) r += " " + hex(x, 16);
  return r;
}

// ---- whole tracks ----
struct History {
  movie::Spec sp;
  std::vector<Bytes> sps, pps;
  std::vector<std::pair<std::size_t, Bytes>> refused;  // before event i
  std::size_t slices = 0, supplemental = 0;
};

void add_set(std::vector<Bytes>* v, const Bytes& u) {
  if (std::find(v->begin(), v->end(), u) == v->end()) v->push_back(u);
}

Bytes bad_stream(Src& s) {
  if (s.chance(1, 3)) {
    // does not start with a start code, or holds nothing
    switch (s.below(5)) {
      case 0: return {};
      case 1: return Bytes{0, 0, 1};
      case 2: return Bytes{0, 0, 0, 1};
      case 3: {
        Bytes b = movie::gen_nal(s, 1, 2, 20);
        if (b[0] == 0) b[0] = 0x41;
        return b;
      }
      default: {
        auto a = movie::gen_access_unit(s, {}, 20).stream;
        a.insert(a.begin(), static_cast<std::uint8_t>(1 + s.below(255)));
        return a;
      }
    }
  }
  std::vector<movie::Nal> v;
  const std::size_t before = s.below(3), after = s.below(3);
  const auto good = [&] {
    const std::uint8_t t = s.pick<std::uint8_t>({1, 5, 6});
    v.push_back({t, movie::gen_nal(s, t, 2, 20)});
  };
  for (std::size_t i = 0; i < before; ++i) good();
  std::uint8_t t = static_cast<std::uint8_t>(s.below(24));
  t = t == 0 ? 0 : static_cast<std::uint8_t>(8 + t);
  v.push_back({t, movie::gen_nal(s, t, 1, 20)});
  for (std::size_t i = 0; i < after; ++i) good();
  return movie::assemble(s, v).stream;
}

History gen_history(Src& s, std::size_t frames, std::size_t max_unit) {
  History h;
  h.sp.mvhd_timescale = 1000;
  h.sp.faststart = false;
  h.sp.duration = 100;
  movie::TrackSpec t;
  t.codec = movie::Codec::h264;
  t.timescale = 90000;
  t.duration = static_cast<float>(s.below(100));
  t.width = 640;
  t.height = 480;
  t.profile = static_cast<std::uint8_t>(s.bits(8));
  t.compatibility = static_cast<std::uint8_t>(s.bits(8));
  t.level = static_cast<std::uint8_t>(s.bits(8));
  h.sp.tracks.push_back(t);
  std::vector<movie::Nal> known;
  for (std::size_t i = 0; i < frames; ++i) {
    if (s.chance(1, 12)) h.refused.emplace_back(h.sp.events.size(), bad_stream(s));
    std::vector<movie::Nal> v;
    const std::size_t n = 1 + s.below(s.chance(1, 4) ? 8 : 3);
    for (std::size_t k = 0; k < n; ++k) {
      std::uint8_t type;
      switch (s.below(6)) {
        case 0: type = 7; break;
        case 1: type = 8; break;
        case 2: type = 6; break;
        default: type = static_cast<std::uint8_t>(1 + s.below(5)); break;
      }
      Bytes u = type == 7 ? movie::gen_nal(s, 7, 5, 30) : type == 8 ? movie::gen_nal(s, 8, s.chance(1, 5) ? 1 : 2, 20) : movie::gen_nal(s, type, s.chance(1, 5) ? 1 : 2, max_unit);
      if (type == 7 || type == 8) {
        std::vector<Bytes> of;
        for (const auto& x : known) {
          if (x.type == type) of.push_back(x.unit);
        }
        if (!of.empty() && (of.size() >= 20 || s.coin())) u = s.one_of(of);
        known.push_back({type, u});
        add_set(type == 7 ? &h.sps : &h.pps, u);
      }
      if (type == 6) ++h.supplemental;
      if (type <= 5) ++h.slices;
      v.push_back({type, u});
    }
    const auto a = movie::assemble(s, v);
    movie::Event e;
    e.ts = 3000 * h.sp.events.size();
    e.key = s.chance(1, 4);
    e.by_vector = s.coin();
    e.data = a.stream;
    e.stored = a.sample;
    e.stores = !a.sample.empty();
    e.nals = a.nals;
    h.sp.events.push_back(e);
  }
  return h;
}

void run_history(const History& h, Ctx& c) {
  const auto& sp = h.sp;
  std::string note;
  for (std::size_t i = 0; i < sp.events.size() && i < 60; ++i) note += "[" + units_text(sp.events[i].nals) + "] ";
  c.note(note);
  for (const auto& r : h.refused) c.note("to be refused before " + U(r.first) + ": " + hex(r.second));
  streams::SparseBuf buf;
  std::ostream os(&buf);
  auto ss = movie::open(sp, os, "");
  movie::begin(sp, ss);
  std::size_t r = 0;
  const auto refuse = [&](std::size_t upto) {
    for (; r < h.refused.size() && h.refused[r].first <= upto; ++r) {
      const Bytes& d = h.refused[r].second;
      std::unique_ptr<std::uint8_t[]> p(new std::uint8_t[d.size()]);
      std::copy(d.begin(), d.end(), p.get());
      const std::string e = lib::thrown([&] { ss.tracks[0]->addData(3000 * upto, p.get(), d.size(), true); });
      if (e.empty()) fail("accepted: " + hex(d));
    }
  };
  for (std::size_t i = 0; i < sp.events.size(); ++i) {
    refuse(i);
    movie::apply(sp.events[i], ss);
  }
  refuse(sp.events.size());
  movie::end(sp, ss);
  const Bytes file = buf.get(0, buf.size());
  const auto f = movie::fetch(file);
  const auto m = movie::demux(f, file.size());
  movie::check_samples(sp, ss, m, f, file.size());
  const auto a = read_avcc(m.tracks.at(0).trak->need("mdia").need("minf").need("stbl").need("stsd").need("avc1").need("avcC"));
  if (a.length_size != 4) fail("avcC announces lengths of " + U(a.length_size) + " bytes");
  if (a.sps != h.sps) fail("sequence parameter sets: " + sets_text(a.sps) + ", expected " + sets_text(h.sps));
  if (a.pps != h.pps) fail("picture parameter sets: " + sets_text(a.pps) + ", expected " + sets_text(h.pps));
  const auto& t = sp.tracks[0];
  const std::uint8_t want[3] = {h.sps.empty() ? t.profile : h.sps[0][1], h.sps.empty() ? t.compatibility : h.sps[0][2], h.sps.empty() ? t.level : h.sps[0][3]};
  if (a.profile != want[0] || a.compatibility != want[1] || a.level != want[2]) {
    fail("avcC announces profile " + U(a.profile) + "/" + U(a.compatibility) + "/" + U(a.level) + ", expected " + U(want[0]) + "/" + U(want[1]) + "/" + U(want[2]));
  }
  c.nontrivial(h.slices >= 2 && sp.events.size() >= 2);
  c.label(h.sps.empty() ? "no SPS" : h.sps.size() == 1 ? "one SPS" : "several SPS");
  c.label_if(!h.refused.empty(), "with refused streams");
  c.label_if(h.supplemental > 0, "with supplemental units");
  c.label_if(std::any_of(sp.events.begin(), sp.events.end(), [](const auto& e) { return !e.stores; }), "with frames without slices");
  std::uint64_t hh = 1;
  for (const auto& e : sp.events) hh = mix(hh, hash_bytes(e.data.data(), e.data.size()));
  c.fingerprint(hh);
  c.sample(U(sp.events.size()) + " frames: " + note.substr(0, 200));
}

void tracks(Src& s, Ctx& c) { run_history(gen_history(s, 1 + s.size(4, 30), 40), c); }
void large(Src& s, Ctx& c) { run_history(gen_history(s, 1 + s.size(3, 12), s.chance(1, 2) ? 70000 : 5000), c); }

// one unit of a length around 2^8, 2^16 or 2^24 among small ones
void long_unit(Src& s, Ctx& c) {
  History h = gen_history(s, 0, 0);
  std::vector<movie::Nal> v;
  const std::size_t n = 1 + s.below(3), which = s.below(n);
  const unsigned w = static_cast<unsigned>(s.below(10));
  const std::size_t len = (std::size_t{1} << (w == 0 ? 24 : w < 4 ? 16 : w < 6 ? 15 : w < 8 ? 7 : 8)) + 4 - s.below(8);
  for (std::size_t i = 0; i < n; ++i) {
    const std::uint8_t t = static_cast<std::uint8_t>(i == which ? (s.chance(1, 8) ? 6 : 1 + s.below(5)) : 1 + s.below(6));
    movie::Nal u{t, i == which ? Bytes(len) : movie::gen_nal(s, t, 1, 8)};
    if (i == which) {
      std::uint64_t x = s.bits(32) | 1;
      for (auto& b : u.unit) {
        x = x * 6364136223846793005ULL + 1442695040888963407ULL;
        b = static_cast<std::uint8_t>((x >> 40) | 0x10);  // never zero: nothing to escape
      }
      u.unit[0] = static_cast<std::uint8_t>(0x60 | t);
    }
    if (t <= 5) ++h.slices;
    if (t == 6) ++h.supplemental;
    v.push_back(std::move(u));
  }
  const auto a = movie::assemble(s, v);
  movie::Event e;
  e.key = s.coin();
  e.by_vector = s.coin();
  e.data = a.stream;
  e.stored = a.sample;
  e.stores = !a.sample.empty();
  e.nals = a.nals;
  h.sp.events.push_back(e);
  run_history(h, c);
  c.label("unit of about 2^" + U(w == 0 ? 24 : w < 4 ? 16 : w < 6 ? 15 : w < 8 ? 7 : 8) + " bytes");
}

// parameter sets of up to the 16-bit limit, and as many different ones as avcC counts
void many_sets(Src& s, Ctx& c) {
  History h = gen_history(s, 1, 10);
  const std::size_t nsps = 1 + s.below(31), npps = 1 + s.below(s.chance(1, 3) ? 255 : 40);
  std::vector<movie::Nal> v;
  for (std::size_t i = 0; i < nsps + npps; ++i) {
    const std::uint8_t t = i < nsps ? 7 : 8;
    auto* to = t == 7 ? &h.sps : &h.pps;
    if (to->size() >= (t == 7 ? 31u : 255u)) break;
    Bytes u = movie::gen_nal(s, t, t == 7 ? 5 : 2, s.chance(1, 150) ? 65535 : 30);
    if (s.chance(1, 10)) u.resize(std::min<std::size_t>(65535, u.size() + 65500), 0x55);
    if (u.size() > 65535) u.resize(65535);
    if (u.back() == 0) u.back() = 0x80;
    add_set(to, u);
    v.push_back({t, u});
  }
  if (s.coin()) std::rotate(v.begin(), v.begin() + static_cast<std::ptrdiff_t>(s.below(v.size())), v.end());
  // the order in which they come is the order in which they are kept
  h.sps.clear();
  h.pps.clear();
  for (const auto& n : h.sp.events.empty() ? std::vector<movie::Nal>{} : h.sp.events[0].nals) {
    if (n.type == 7) add_set(&h.sps, n.unit);
    if (n.type == 8) add_set(&h.pps, n.unit);
  }
  std::vector<movie::Nal> use;
  for (const auto& n : v) {
    auto* to = n.type == 7 ? &h.sps : &h.pps;
    if (to->size() >= (n.type == 7 ? 31u : 255u)) continue;
    add_set(to, n.unit);
    use.push_back(n);
  }
  use.push_back({5, movie::gen_nal(s, 5, 2, 20)});
  ++h.slices;
  const auto a = movie::assemble(s, use);
  movie::Event e;
  e.ts = 3000 * h.sp.events.size();
  e.key = true;
  e.data = a.stream;
  e.stored = a.sample;
  e.stores = true;
  e.nals = a.nals;
  h.sp.events.push_back(e);
  run_history(h, c);
  c.nontrivial(h.sps.size() + h.pps.size() >= 3);
  c.label_if(h.sps.size() == 31, "31 SPS");
  c.label_if(h.pps.size() == 255, "255 PPS");
}

// one frame of up to three tiny units: every length combination near the ends
void tiny(Src& s, Ctx& c) {
  History h = gen_history(s, 0, 0);
  std::vector<movie::Nal> v;
  const std::size_t n = 1 + s.below(3);
  for (std::size_t i = 0; i < n; ++i) {
    const std::uint8_t t = static_cast<std::uint8_t>(1 + s.below(6));
    v.push_back({t, movie::gen_nal(s, t, 1, 3)});
    if (t <= 5) ++h.slices;
    if (t == 6) ++h.supplemental;
  }
  const auto a = movie::assemble(s, v);
  movie::Event e;
  e.key = s.coin();
  e.data = a.stream;
  e.stored = a.sample;
  e.stores = !a.sample.empty();
  e.nals = a.nals;
  h.sp.events.push_back(e);
  run_history(h, c);
  c.nontrivial(n >= 2);
}

}  // namespace

int main(int argc, char** argv) {
  Suite suite;
  suite.property = "P15";
  suite.rule =
      "A case draws NAL units (legal bodies from 1 byte on, with emulation prevention, any type), joins them with any mix of "
      "start codes and trailing zero bytes, and compares the units found, the samples read back from the finished file and the "
      "decoder configuration with what was joined; streams that must be refused are mixed in. Non-trivial: at least two units "
      "or frames; distinct by stream.";
  suite.assumptions = {"sequence parameter sets have at least 5 bytes, as every legal one", "at most 31 different sequence and 255 picture parameter sets of at most 65535 bytes (what avcC can hold)"};
  suite.init = lib::quiet;
  suite.groups = {
      {"splitter", 30000, 2000000, splitter},
      {"tiny", 8000, 400000, tiny},
      {"tracks", 6000, 400000, tracks},
      {"large", 200, 10000, large},
      {"long_unit", 80, 6000, long_unit},
      {"many_sets", 240, 30000, many_sets},
  };
  return run_main(argc, argv, suite);
}
