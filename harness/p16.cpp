// P16: the movie box describes every track by the parameters it was built from.
#include <dlfcn.h>
#include <sys/time.h>
#include <time.h>

#include <algorithm>
#include <chrono>
#include <iostream>

#include "lib.hpp"
#include "movie.hpp"
#include "streams.hpp"

// the clock of this process can be moved
static std::int64_t g_clock_shift = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) {
  static auto real = reinterpret_cast<int (*)(clockid_t, struct timespec*)>(dlsym(RTLD_NEXT, "clock_gettime"));
  const int r = real(id, ts);
  if (r == 0 && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) ts->tv_sec += g_clock_shift;
  return r;
}
extern "C" time_t time(time_t* t) {
  struct timespec ts {};
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t != nullptr) *t = ts.tv_sec;
  return ts.tv_sec;
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept {
  struct timespec ts {};
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}

using namespace pbt;
using movie::Box;
using movie::Codec;
using movie::Cursor;

namespace {

constexpr std::uint64_t U32 = 0xffffffffULL;
std::string U(std::uint64_t v) { return std::to_string(v); }

void eq(const std::string& what, std::uint64_t got, std::uint64_t want) {
  if (got != want) fail(what + " is " + U(got) + " instead of " + U(want));
}
void eqb(const std::string& what, const Bytes& got, const Bytes& want) {
  if (got != want) fail(what + " differs: " + diff(want, got));
}
void eq4(const std::string& what, const model::FourCC& got, const model::FourCC& want) {
  if (got != want) fail(what + " is " + model::type_text(got) + " instead of " + model::type_text(want));
}

struct Full {
  Cursor c;
  std::uint64_t version, flags;
};
Full full(const Box& b, const std::string& who, std::uint64_t max_version) {
  Full f{{b.payload, 0, who + model::type_text(b.type)}, 0, 0};
  f.version = f.c.u(1);
  f.flags = f.c.u(3);
  if (f.version > max_version) fail(f.c.what + " has version " + U(f.version));
  return f;
}

void unity(Cursor& c) {
  static const std::uint64_t m[9] = {0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000};
  for (unsigned k = 0; k < 9; ++k) eq(c.what + " matrix[" + U(k) + "]", c.u(4), m[k]);
}

struct Times {
  std::uint64_t lo, hi, value;
  bool have = false;
  void check(const std::string& what, std::uint64_t t) {
    if (t < lo || t > hi) fail(what + " is " + U(t) + ", not the time of writing " + U(lo) + ".." + U(hi));
    if (have && t != value) fail(what + " is " + U(t) + ", elsewhere it is " + U(value));
    value = t;
    have = true;
  }
};

// a 14496-1 descriptor with an expandable size
struct Descriptor {
  std::uint8_t tag;
  Bytes body;
};
Descriptor descriptor(Cursor& c) {
  Descriptor d;
  d.tag = static_cast<std::uint8_t>(c.u(1));
  std::uint64_t n = 0;
  for (unsigned k = 0;; ++k) {
    if (k == 4) fail(c.what + ": descriptor size of more than four bytes");
    const auto b = c.u(1);
    n = n << 7 | (b & 0x7f);
    if (!(b & 0x80)) break;
  }
  d.body = c.take(n);
  return d;
}

void esds(const Box& b, const std::string& who, const movie::TrackSpec& t, std::uint32_t id) {
  auto f = full(b, who, 0);
  const auto es = descriptor(f.c);
  f.c.done();
  eq(who + "esds tag", es.tag, 3);
  Cursor e{es.body, 0, who + "ES descriptor"};
  eq(who + "ESID", e.u(2), t.codec == Codec::aac ? id & 0xffff : 0);
  eq(who + "ES flags", e.u(1), 0);
  const auto dc = descriptor(e);
  const auto sl = descriptor(e);
  e.done();
  eq(who + "decoder config tag", dc.tag, 4);
  Cursor d{dc.body, 0, who + "decoder config"};
  eq(who + "object type", d.u(1), t.codec == Codec::aac ? 0x40 : 0x6b);
  eq(who + "stream type", d.u(1), 5 << 2 | 1);
  eq(who + "buffer size", d.u(3), t.buffer_size);
  eq(who + "maximum bit rate", d.u(4), t.max_bitrate);
  eq(who + "average bit rate", d.u(4), t.avg_bitrate);
  if (t.codec == Codec::aac) {
    const auto si = descriptor(d);
    eq(who + "specific info tag", si.tag, 5);
    eqb(who + "specific info", si.body, {0x11, 0x90});
  }
  d.done();
  eq(who + "SL config tag", sl.tag, 6);
  eqb(who + "SL config", sl.body, {2});
}

void btrt(const Box& b, const std::string& who, const movie::TrackSpec& t) {
  Cursor c{b.payload, 0, who + "btrt"};
  eq(who + "btrt buffer size", c.u(4), 0);
  eq(who + "btrt maximum bit rate", c.u(4), t.max_bitrate);
  eq(who + "btrt average bit rate", c.u(4), t.avg_bitrate);
  c.done();
}

void kids(const Box& b, const std::string& who, std::initializer_list<const char*> types) {
  for (const auto* t : types) b.need(t);
  if (b.kids.size() != types.size()) fail(who + model::type_text(b.type) + " has " + U(b.kids.size()) + " children");
}

void sample_entry(const Box& stsd, const std::string& who, const movie::TrackSpec& t, std::uint32_t id, const std::vector<movie::Nal>& sets) {
  auto f = full(stsd, who, 0);
  eq(who + "stsd entries", f.c.u(4), 1);
  f.c.done();
  if (stsd.kids.size() != 1) fail(who + "stsd holds " + U(stsd.kids.size()) + " entries");
  const Box& e = stsd.kids[0];
  static const char* types[] = {"avc1", "vp08", "vp09", "av01", "mp4a", "mp4a", "Opus"};
  eq4(who + "sample entry", e.type, model::fourcc(types[static_cast<int>(t.codec)]));
  Cursor c{e.payload, 0, who + "sample entry"};
  eqb(who + "sample entry reserved", c.take(6), Bytes(6, 0));
  eq(who + "data reference index", c.u(2), 1);
  if (movie::is_video(t.codec)) {
    eqb(who + "visual entry pre-defined", c.take(16), Bytes(16, 0));
    eq(who + "entry width", c.u(2), t.width);
    eq(who + "entry height", c.u(2), t.height);
    eq(who + "horizontal resolution", c.u(4), 0x480000);
    eq(who + "vertical resolution", c.u(4), 0x480000);
    eq(who + "visual entry reserved", c.u(4), 0);
    eq(who + "frame count", c.u(2), 1);
    eqb(who + "compressor name", c.take(32), Bytes(32, 0));
    eq(who + "depth", c.u(2), 24);
    eq(who + "visual entry pre-defined", c.u(2), 0xffff);
  } else {
    eqb(who + "audio entry version", c.take(8), Bytes(8, 0));
    eq(who + "channels", c.u(2), 2);
    eq(who + "sample size", c.u(2), 16);
    eq(who + "audio entry pre-defined", c.u(4), 0);
    eq(who + "sample rate", c.u(4), t.timescale > 0xffff ? 0 : static_cast<std::uint64_t>(t.timescale) << 16);
  }
  c.done();
  switch (t.codec) {
    case Codec::h264: {
      kids(e, who, {"avcC"});
      Cursor a{e.need("avcC").payload, 0, who + "avcC"};
      std::vector<Bytes> sps, pps;
      for (const auto& n : sets) {
        auto& l = n.type == 7 ? sps : pps;
        if (std::find(l.begin(), l.end(), n.unit) == l.end()) l.push_back(n.unit);
      }
      eq(who + "configuration version", a.u(1), t.configuration_version);
      const bool from_sps = !sps.empty();
      eq(who + "profile", a.u(1), from_sps ? sps[0][1] : t.profile);
      eq(who + "profile compatibility", a.u(1), from_sps ? sps[0][2] : t.compatibility);
      eq(who + "level", a.u(1), from_sps ? sps[0][3] : t.level);
      eq(who + "length size", a.u(1), 0xff);
      eq(who + "number of sequence parameter sets", a.u(1), 0xe0 | sps.size());
      for (const auto& u : sps) {
        eq(who + "sequence parameter set length", a.u(2), u.size());
        eqb(who + "sequence parameter set", a.take(u.size()), u);
      }
      eq(who + "number of picture parameter sets", a.u(1), pps.size());
      for (const auto& u : pps) {
        eq(who + "picture parameter set length", a.u(2), u.size());
        eqb(who + "picture parameter set", a.take(u.size()), u);
      }
      a.done();
      break;
    }
    case Codec::vp8:
    case Codec::vp9: {
      kids(e, who, {"vpcC", "fiel", "pasp", "btrt"});
      auto v = full(e.need("vpcC"), who, 1);
      eq(who + "vpcC version", v.version, 1);
      eq(who + "vpcC flags", v.flags, 0);
      eqb(who + "vpcC fields", v.c.take(8), {0, 21, 8 << 4 | 1 << 1 | 0, 2, 2, 2, 0, 0});
      v.c.done();
      eqb(who + "fiel", e.need("fiel").payload, {1, 0});
      eqb(who + "pasp", e.need("pasp").payload, {0, 0, 0, 1, 0, 0, 0, 1});
      btrt(e.need("btrt"), who, t);
      break;
    }
    case Codec::av1: {
      kids(e, who, {"av1C"});
      Cursor a{e.need("av1C").payload, 0, who + "av1C"};
      eq(who + "av1C marker and version", a.u(1), 0x81);
      eq(who + "av1C profile and level", a.u(1), static_cast<unsigned>(t.seq_profile << 5 | t.seq_level));
      eq(who + "av1C tier and chroma", a.u(1), static_cast<unsigned>(t.seq_tier << 7 | t.chroma_x << 3 | t.chroma_y << 2 | t.chroma_pos));
      eq(who + "av1C presentation delay", a.u(1), 0);
      eqb(who + "av1C OBUs", a.take(a.left()), t.config_obus);
      break;
    }
    case Codec::aac:
      kids(e, who, {"esds", "btrt"});
      esds(e.need("esds"), who, t, id);
      btrt(e.need("btrt"), who, t);
      break;
    case Codec::mp3:
      kids(e, who, {"esds"});
      esds(e.need("esds"), who, t, id);
      break;
    case Codec::opus: {
      kids(e, who, {"dOps"});
      Cursor a{e.need("dOps").payload, 0, who + "dOps"};
      eq(who + "dOps version", a.u(1), 0);
      eq(who + "dOps channels", a.u(1), 2);
      eq(who + "dOps pre-skip", a.u(2), t.pre_skip);
      eq(who + "dOps rate", a.u(4), 48000);
      eq(who + "dOps gain", a.u(2), 0);
      eq(who + "dOps mapping family", a.u(1), 0);
      a.done();
      break;
    }
  }
}

void groups(const Box& stbl, const std::string& who, const movie::TrackSpec& t, std::uint64_t samples) {
  if (t.codec != Codec::aac && t.codec != Codec::opus) {
    if (stbl.find("sgpd") || stbl.find("sbgp")) fail(who + "has sample groups");
    return;
  }
  auto g = full(stbl.need("sgpd"), who, 1);
  eq(who + "sgpd version", g.version, 1);
  eq4(who + "sgpd grouping", g.c.four(), model::fourcc("roll"));
  eq(who + "sgpd default length", g.c.u(4), 2);
  eq(who + "sgpd entries", g.c.u(4), 1);
  const auto d = g.c.i(2);
  const std::int64_t want = t.codec == Codec::aac ? -1 : t.roll_distance;
  if (d != want) fail(who + "roll distance is " + std::to_string(d) + " instead of " + std::to_string(want));
  g.c.done();
  auto b = full(stbl.need("sbgp"), who, 0);
  eq4(who + "sbgp grouping", b.c.four(), model::fourcc("roll"));
  const auto n = b.c.u(4);
  std::uint64_t covered = 0;
  for (std::uint64_t k = 0; k < n; ++k) {
    covered += b.c.u(4);
    eq(who + "sbgp group", b.c.u(4), 1);
  }
  b.c.done();
  eq(who + "samples in the roll group", covered, samples);
}

void track(const Box& trak, const std::string& who, const movie::Spec& sp, const movie::TrackSpec& t, std::uint32_t id, std::uint64_t samples, const std::vector<movie::Nal>& sets, Times& tm) {
  const bool video = movie::is_video(t.codec);
  kids(trak, who, {"tkhd", "edts", "mdia"});
  {
    auto f = full(trak.need("tkhd"), who, 1);
    const unsigned w = f.version ? 8 : 4;
    eq(who + "tkhd flags", f.flags, 3);
    tm.check(who + "tkhd creation time", f.c.u(w));
    tm.check(who + "tkhd modification time", f.c.u(w));
    eq(who + "track id", f.c.u(4), id);
    eq(who + "tkhd reserved", f.c.u(4), 0);
    movie::check_duration(who + "duration in the movie's timescale", f.c.u(w), sp.mvhd_timescale, t.duration);
    eqb(who + "tkhd reserved", f.c.take(8), Bytes(8, 0));
    eq(who + "layer", f.c.u(2), 0);
    eq(who + "alternate group", f.c.u(2), 0);
    eq(who + "volume", f.c.u(2), video ? 0 : 0x100);
    eq(who + "tkhd reserved", f.c.u(2), 0);
    unity(f.c);
    eq(who + "track width", f.c.u(4), video ? static_cast<std::uint64_t>(t.width) << 16 : 0);
    eq(who + "track height", f.c.u(4), video ? static_cast<std::uint64_t>(t.height) << 16 : 0);
    f.c.done();
  }
  {
    auto f = full(trak.need("edts").need("elst"), who, 1);
    const unsigned w = f.version ? 8 : 4;
    eq(who + "edits", f.c.u(4), 1);
    movie::check_duration(who + "edit duration", f.c.u(w), sp.mvhd_timescale, t.duration);
    const auto mt = f.c.i(w);
    if (mt != t.media_time) fail(who + "edit start is " + std::to_string(mt) + " instead of " + std::to_string(t.media_time));
    eq(who + "edit rate", f.c.u(4), 0x10000);
    f.c.done();
  }
  const Box& mdia = trak.need("mdia");
  kids(mdia, who, {"mdhd", "hdlr", "minf"});
  {
    auto f = full(mdia.need("mdhd"), who, 1);
    const unsigned w = f.version ? 8 : 4;
    tm.check(who + "mdhd creation time", f.c.u(w));
    tm.check(who + "mdhd modification time", f.c.u(w));
    eq(who + "timescale", f.c.u(4), t.timescale);
    movie::check_duration(who + "duration in the media timescale", f.c.u(w), t.timescale, t.duration);
    eq(who + "language", f.c.u(2), 0x55c4);
    eq(who + "mdhd pre-defined", f.c.u(2), 0);
    f.c.done();
  }
  {
    auto f = full(mdia.need("hdlr"), who, 0);
    eq(who + "hdlr pre-defined", f.c.u(4), 0);
    eq4(who + "handler", f.c.four(), model::fourcc(video ? "vide" : "soun"));
    eqb(who + "hdlr reserved", f.c.take(12), Bytes(12, 0));
    if (f.c.left() < 1 || f.c.take(f.c.left()).back() != 0) fail(who + "handler name is not terminated");
  }
  const Box& minf = mdia.need("minf");
  kids(minf, who, {video ? "vmhd" : "smhd", "dinf", "stbl"});
  if (video) {
    auto f = full(minf.need("vmhd"), who, 0);
    eq(who + "vmhd flags", f.flags, 1);
    eqb(who + "vmhd", f.c.take(8), Bytes(8, 0));
    f.c.done();
  } else {
    auto f = full(minf.need("smhd"), who, 0);
    eqb(who + "smhd", f.c.take(4), Bytes(4, 0));
    f.c.done();
  }
  {
    const Box& dref = minf.need("dinf").need("dref");
    auto f = full(dref, who, 0);
    eq(who + "dref entries", f.c.u(4), 1);
    f.c.done();
    kids(dref, who, {"url "});
    auto u = full(dref.need("url "), who, 0);
    eq(who + "url flags", u.flags, 1);
    u.c.done();
  }
  const Box& stbl = minf.need("stbl");
  if (video) {
    stbl.need("stss");
  } else if (stbl.find("stss")) {
    fail(who + "audio has a sync sample table");
  }
  sample_entry(stbl.need("stsd"), who, t, id, sets);
  groups(stbl, who, t, samples);
}

void check(const movie::Spec& sp, const movie::Session& ss, const movie::DMovie& m, Times tm) {
  // file type
  {
    Cursor c{m.ftyp->payload, 0, "ftyp"};
    eq4("major brand", c.four(), sp.custom_ftyp ? sp.major : model::fourcc("isom"));
    eq("minor version", c.u(4), sp.custom_ftyp ? sp.minor : 512);
    std::vector<model::FourCC> want = sp.compatible;
    if (!sp.custom_ftyp) want = {model::fourcc("isom"), model::fourcc("iso2"), model::fourcc("mp41")};
    for (const auto& w : want) eq4("compatible brand", c.four(), w);
    c.done();
  }
  std::uint32_t highest = ss.last_id;
  {
    auto f = full(m.moov->need("mvhd"), "", 1);
    const unsigned w = f.version ? 8 : 4;
    tm.check("mvhd creation time", f.c.u(w));
    tm.check("mvhd modification time", f.c.u(w));
    eq("movie timescale", f.c.u(4), sp.mvhd_timescale);
    movie::check_duration("movie duration", f.c.u(w), sp.mvhd_timescale, sp.duration);
    eq("rate", f.c.u(4), 0x10000);
    eq("volume", f.c.u(2), 0x100);
    eqb("mvhd reserved", f.c.take(10), Bytes(10, 0));
    unity(f.c);
    eqb("mvhd pre-defined", f.c.take(24), Bytes(24, 0));
    const auto next = f.c.u(4);
    f.c.done();
    if (next <= highest) fail("next track id is " + U(next) + " although " + U(highest) + " was handed out");
  }
  std::size_t k = 0;
  for (const auto& b : m.moov->kids) {
    if (!b.is("trak")) continue;
    if (k >= sp.tracks.size()) fail("too many tracks");
    std::uint64_t n = 0;
    std::vector<movie::Nal> sets;
    for (const auto& e : sp.events) {
      if (e.kind != movie::Event::add || e.track != k) continue;
      n += e.stores;
      for (const auto& u : e.nals) {
        if (u.type == 7 || u.type == 8) sets.push_back(u);
      }
    }
    track(b, "track " + U(k) + " (" + movie::name(sp.tracks[k].codec) + "): ", sp, sp.tracks[k], ss.ids[k], n, sets, tm);
    ++k;
  }
  eq("number of tracks", k, sp.tracks.size());
  // metadata
  const Box& meta = m.moov->need("udta").need("meta");
  kids(meta, "", {"hdlr", "ilst"});
  {
    auto f = full(meta.need("hdlr"), "metadata ", 0);
    f.c.u(4);
    eq4("metadata handler", f.c.four(), model::fourcc("mdir"));
  }
  const Box& ilst = meta.need("ilst");
  if (ilst.kids.size() != 1) fail("ilst holds " + U(ilst.kids.size()) + " items");
  eq4("metadata item", ilst.kids[0].type, model::FourCC{0xa9, 't', 'o', 'o'});
  const Box& data = ilst.kids[0].need("data");
  Cursor c{data.payload, 0, "data"};
  eq("data type", c.u(4), 1);
  eq("data language", c.u(4), 0);
  const Bytes text = c.take(c.left());
  eqb("metadata text", text, sp.own_metadata ? *sp.own_metadata : lib::bytes("shiguredo::mp4"));
}

void one(const movie::Spec& sp, Ctx& c) {
  c.note(movie::text(sp));
  streams::SparseBuf buf;
  std::ostream os(&buf);
  const auto now = [] { return static_cast<std::uint64_t>(::time(nullptr)) + 2082844800ULL; };
  Times tm{now(), 0, 0};
  c.label_if(tm.lo > U32, "written when times need 64 bits");
  const auto ss = movie::run(sp, os, scratch_dir() + "/mdatXXXXXX");
  tm.hi = now();
  const Bytes file = buf.get(0, buf.size());
  const auto f = movie::fetch(file);
  const auto m = movie::demux(f, file.size());
  check(sp, ss, m, tm);
  movie::check_samples(sp, ss, m, f, file.size());
  c.nontrivial(sp.tracks.size() >= 2);
  c.label(sp.faststart ? "faststart" : "progressive");
  c.label(U(sp.tracks.size()) + " tracks");
  std::uint64_t h = sp.faststart;
  for (const auto& t : sp.tracks) {
    c.label(movie::name(t.codec));
    const long double d = static_cast<long double>(t.duration) * t.timescale;
    c.label_if(d > static_cast<long double>(U32), "media duration beyond 32 bits");
    c.label_if(t.media_time > 0x7fffffffLL || t.media_time < -0x80000000LL, "edit start beyond 32 bits");
    c.label_if(t.own_id != 0, "own track id");
    h = mix(h, hash_bytes(&t.timescale, 4));
    h = mix(h, mix(static_cast<std::uint64_t>(t.media_time), mix(t.width, mix(t.height, mix(t.max_bitrate, t.pre_skip)))));
    h = mix(h, hash_bytes(&t.duration, 4));
  }
  c.fingerprint(h);
  c.sample(movie::text(sp).substr(0, 400));
}

void movies(Src& s, Ctx& c, bool wild, std::size_t max_tracks) {
  movie::Options o;
  o.events = 6;
  o.max_events = 40;
  o.sample = 6;
  o.max_sample = 40;
  o.max_tracks = max_tracks;
  o.wild_parameters = wild;
  auto sp = movie::gen(s, o);
  sp.faststart = s.coin();
  if (!sp.faststart && s.chance(1, 3)) sp.own_metadata = s.bytes(s.size(20, 600));
  one(sp, c);
}

// at another time of writing: from 1970 on, often around the second at which times since 1904 outgrow 32 bits
void other_day(Src& s, Ctx& c) {
  struct Restore {
    ~Restore() { g_clock_shift = 0; }
  } restore;
  g_clock_shift = 0;
  const std::int64_t real = static_cast<std::int64_t>(::time(nullptr));
  std::int64_t want = 0;
  constexpr std::int64_t turn = 0x100000000LL - 2082844800LL;
  switch (s.below(4)) {
    case 0: want = turn + static_cast<std::int64_t>(s.below(41)) - 20; break;
    case 1: want = turn + static_cast<std::int64_t>(s.bits(1 + static_cast<unsigned>(s.below(33)))); break;
    case 2: want = 0x7fffffffLL + static_cast<std::int64_t>(s.below(41)) - 20; break;
    default: want = static_cast<std::int64_t>(s.bits(1 + static_cast<unsigned>(s.below(33))));
  }
  want = std::min<std::int64_t>(want, 9'200'000'000LL);  // a clock of nanoseconds in 64 bits reaches no further
  g_clock_shift = want - real;
  c.note("the clock reads about " + std::to_string(want));
  c.label(want < turn ? "times of 32 bits" : "times of 33 bits");
  movies(s, c, s.coin(), 3);
}

}  // namespace

int main(int argc, char** argv) {
  Suite suite;
  suite.property = "P16";
  suite.rule =
      "A case draws a movie of tracks of any codec with parameters over their whole ranges, a time of writing and a history, writes it with "
      "either writer and compares every field of the finished movie box, read by a demuxer of its own, with the parameters. "
      "Non-trivial: at least two tracks; distinct by writer and parameters.";
  suite.assumptions = {"durations are single-precision seconds; a product beyond 2^24 may differ by the rounding of single precision"};
  suite.init = lib::quiet;
  suite.groups = {
      {"single", 4000, 200000, [](Src& s, Ctx& c) { movies(s, c, true, 1); }},
      {"wild", 6000, 300000, [](Src& s, Ctx& c) { movies(s, c, true, 4); }},
      {"usual", 1500, 60000, [](Src& s, Ctx& c) { movies(s, c, false, 6); }},
      {"long", 120, 6000, [](Src& s, Ctx& c) {
         auto sp = movie::gen_long(s);
         sp.faststart = s.coin();
         one(sp, c);
       }},
      {"other_day", 3000, 100000, other_day},
  };
  return run_main(argc, argv, suite);
}
