#include "movie.hpp"

#include <algorithm>
#include <cmath>
#include <cstring>

#include "shiguredo/mp4/track/aac.hpp"
#include "shiguredo/mp4/track/av1.hpp"
#include "shiguredo/mp4/track/h264.hpp"
#include "shiguredo/mp4/track/mp3.hpp"
#include "shiguredo/mp4/track/opus.hpp"
#include "shiguredo/mp4/track/vpx.hpp"
#include "shiguredo/mp4/box_info.hpp"
#include "shiguredo/mp4/writer/faststart_writer.hpp"
#include "shiguredo/mp4/writer/simple_writer.hpp"

namespace movie {

namespace trk = shiguredo::mp4::track;
namespace wr = shiguredo::mp4::writer;
using pbt::fail;

namespace {
std::string U(std::uint64_t v) { return std::to_string(v); }
constexpr std::uint64_t U32 = 0xffffffffULL;
}  // namespace

// ---- H.264 ----------------------------------------------------------------------------------------------------

Bytes gen_nal(Src& s, std::uint8_t type, std::size_t min_size, std::size_t max_size) {
  std::uint8_t ref = static_cast<std::uint8_t>(s.below(4));
  Bytes n{static_cast<std::uint8_t>(ref << 5 | type)};
  std::size_t want = min_size + s.size(8, max_size > min_size ? max_size - min_size : 0);
  const unsigned style = static_cast<unsigned>(s.below(3));
  unsigned zeros = n[0] == 0 ? 1 : 0;
  const auto push = [&](std::uint8_t b) {
    if (zeros >= 2 && b <= 3) {
      n.push_back(3);
      zeros = 0;
    }
    n.push_back(b);
    zeros = b == 0 ? zeros + 1 : 0;
  };
  while (n.size() < want) push(static_cast<std::uint8_t>(style == 0 ? s.below(256) : style == 1 ? s.below(4) : s.pick<std::uint8_t>({0, 0, 1, 0xff, 3, 0x65, 0x67})));
  if (n.back() == 0) push(static_cast<std::uint8_t>(0x80));
  return n;
}

AccessUnit assemble(Src& s, const std::vector<Nal>& nals) {
  AccessUnit a;
  a.nals = nals;
  const unsigned mix = static_cast<unsigned>(s.below(4));
  for (const auto& n : nals) {
    if (mix == 0 || (mix >= 2 && s.coin())) a.stream.push_back(0);
    a.stream.insert(a.stream.end(), {0, 0, 1});
    a.stream.insert(a.stream.end(), n.unit.begin(), n.unit.end());
    if (mix == 3 && s.chance(1, 3)) a.stream.insert(a.stream.end(), 1 + s.below(3), 0);  // trailing_zero_8bits
    if (n.type >= 1 && n.type <= 5) {
      const std::uint32_t z = static_cast<std::uint32_t>(n.unit.size());
      for (int k = 24; k >= 0; k -= 8) a.sample.push_back(static_cast<std::uint8_t>(z >> k));
      a.sample.insert(a.sample.end(), n.unit.begin(), n.unit.end());
    }
  }
  return a;
}

std::vector<Nal> gen_sets(Src& s, std::vector<std::vector<Nal>>* known) {
  if (!known->empty() && (known->size() >= 25 || s.chance(3, 4))) return s.one_of(*known);  // repeated, as encoders do
  const auto sps = gen_nal(s, 7, 5, 40);
  known->push_back({{7, sps}, {8, gen_nal(s, 8, 2, 20)}});
  return known->back();
}

AccessUnit gen_access_unit(Src& s, const std::vector<Nal>& sets, std::size_t max_size) {
  std::vector<Nal> v = sets;
  if (s.chance(1, 5)) v.push_back({6, gen_nal(s, 6, 2, 60)});
  const std::size_t slices = s.chance(1, 3) ? s.below(6) : 1;
  for (std::size_t i = 0; i < slices; ++i) {
    const std::uint8_t t = static_cast<std::uint8_t>(1 + s.below(5));
    v.push_back({t, gen_nal(s, t, s.chance(1, 6) ? 1 : 2, max_size)});
  }
  if (s.chance(1, 8)) v.push_back({6, gen_nal(s, 6, 2, 20)});
  if (v.empty()) v.push_back({1, gen_nal(s, 1, 2, 20)});
  return assemble(s, v);
}

// ---- generation -----------------------------------------------------------------------------------------------

std::string name(Codec c) {
  switch (c) {
    case Codec::h264: return "h264";
    case Codec::vp8: return "vp8";
    case Codec::vp9: return "vp9";
    case Codec::av1: return "av1";
    case Codec::aac: return "aac";
    case Codec::mp3: return "mp3";
    case Codec::opus: return "opus";
  }
  return "?";
}

namespace {
float gen_duration(Src& s, bool wild) {
  if (wild && s.chance(1, 3)) {
    switch (s.below(5)) {
      case 0: return static_cast<float>(s.below(1u << 24));
      case 1: return static_cast<float>(s.below(1u << 30)) * 1.7f;
      case 2: return std::ldexp(1.0f + static_cast<float>(s.below(1000)) / 1000.0f, static_cast<int>(s.below(30)));
      case 3: return static_cast<float>(s.below(100000)) / 7.0f;
      default: return 0.0f;
    }
  }
  switch (s.below(4)) {
    case 0: return static_cast<float>(s.below(100));
    case 1: return static_cast<float>(s.below(100000)) / 1000.0f;
    case 2: return static_cast<float>(s.below(1000)) / 8.0f;
    default: return static_cast<float>(s.below(20000));
  }
}
}  // namespace

std::string dur_text(float d) {
  char b[64];
  std::snprintf(b, sizeof b, "%.9g", static_cast<double>(d));
  return b;
}

TrackSpec gen_track(Src& s, const Options& o, float duration) {
  TrackSpec t;
  do {
    t.codec = static_cast<Codec>(6 - s.below(7));
  } while (t.codec == Codec::h264 && !o.h264);
  const bool wild = o.wild_parameters;
  t.timescale = wild && s.coin() ? static_cast<std::uint32_t>(s.bits(32)) : s.pick<std::uint32_t>({48000, 16000, 90000, 600, 1000, 44100, 1000000, 30, 96000});
  if (t.codec == Codec::opus) t.timescale = 48000;
  t.media_time = wild ? (s.chance(1, 3) ? s.sbits(64) : s.chance(1, 2) ? s.sbits(32) : static_cast<std::int64_t>(s.below(5000))) : static_cast<std::int64_t>(s.below(3) * 512);
  t.set_media_time_later = s.chance(1, 4);
  t.duration = s.chance(1, 3) ? gen_duration(s, wild) : duration;
  t.width = static_cast<std::uint32_t>(wild ? s.bits(16) : s.pick<std::uint32_t>({640, 320, 1920, 16}));
  t.height = static_cast<std::uint32_t>(wild ? s.bits(16) : s.pick<std::uint32_t>({480, 240, 1080, 18}));
  if (wild) {
    t.buffer_size = static_cast<std::uint32_t>(s.bits(24));
    t.max_bitrate = static_cast<std::uint32_t>(s.bits(32));
    t.avg_bitrate = static_cast<std::uint32_t>(s.bits(32));
    t.pre_skip = static_cast<std::uint16_t>(s.bits(16));
    t.roll_distance = static_cast<std::int16_t>(s.sbits(16));
    t.configuration_version = static_cast<std::uint8_t>(s.chance(1, 4) ? s.bits(8) : 1);
    t.profile = static_cast<std::uint8_t>(s.bits(8));
    t.compatibility = static_cast<std::uint8_t>(s.bits(8));
    t.level = static_cast<std::uint8_t>(s.bits(8));
    t.seq_profile = static_cast<std::uint8_t>(s.bits(3));
    t.seq_level = static_cast<std::uint8_t>(s.bits(5));
    t.seq_tier = static_cast<std::uint8_t>(s.bits(1));
    t.chroma_x = static_cast<std::uint8_t>(s.bits(1));
    t.chroma_y = static_cast<std::uint8_t>(s.bits(1));
    t.chroma_pos = static_cast<std::uint8_t>(s.bits(2));
    if (s.chance(1, 4)) t.own_id = static_cast<std::uint32_t>(std::max<std::uint64_t>(1000, s.bits(32)));
  }
  t.config_obus = s.bytes(s.size(6, 60));
  return t;
}

Spec gen(Src& s, const Options& o) {
  Spec sp;
  sp.mvhd_timescale = o.wild_parameters && s.coin() ? static_cast<std::uint32_t>(s.bits(32)) : s.pick<std::uint32_t>({1000, 600, 90000, 1});
  sp.duration = gen_duration(s, o.wild_parameters);
  if (s.chance(1, 4)) {
    sp.custom_ftyp = true;
    sp.major = s.coin() ? model::fourcc("mp42") : model::fourcc("isom");
    sp.minor = static_cast<std::uint32_t>(s.bits(32));
    const std::size_t n = s.below(6);
    for (std::size_t i = 0; i < n; ++i) {
      FourCC f;
      for (auto& c : f) c = static_cast<std::uint8_t>('0' + s.below(75));
      sp.compatible.push_back(f);
    }
  }
  sp.burn_ids = s.chance(1, 6) ? static_cast<unsigned>(s.below(4)) : 0;
  sp.late_ids = s.chance(1, 6) ? static_cast<unsigned>(s.below(4)) : 0;
  const std::size_t nt = s.chance(1, 40) ? 0 : 1 + s.below(o.max_tracks);
  for (std::size_t i = 0; i < nt; ++i) {
    auto t = gen_track(s, o, sp.duration);
    for (const auto& x : sp.tracks) {
      if (x.own_id != 0 && x.own_id == t.own_id) t.own_id = 0;
    }
    sp.tracks.push_back(t);
  }
  if (nt == 0) return sp;

  // timing of each track: mostly regular, sometimes not
  struct Timing {
    std::uint64_t next = 0;
    std::optional<std::uint64_t> stored;  // when the last sample was that is stored
    std::uint32_t step = 0;
    unsigned style = 0;
    std::vector<std::vector<Nal>> sets;
  };
  std::vector<Timing> tm(nt);
  for (auto& t : tm) {
    t.next = s.chance(1, 5) ? s.below(100000) : 0;
    t.step = s.pick<std::uint32_t>({960, 1024, 3000, 33, 1});
    t.style = static_cast<unsigned>(s.below(4));
  }
  const std::size_t n = s.chance(1, 30) ? 0 : 1 + s.size(o.events, o.max_events);
  std::size_t cur = 0;
  const unsigned interleave = static_cast<unsigned>(s.below(3));  // long runs, short runs, every sample
  const unsigned ends = static_cast<unsigned>(s.below(3));        // terminations: at switches, anywhere, never
  const bool same_size = s.chance(1, 6);
  const std::size_t fixed = s.size(o.sample, o.max_sample);
  for (std::size_t i = 0; i < n; ++i) {
    const bool swap = nt > 1 && s.chance(1, interleave == 0 ? 10 : interleave == 1 ? 3 : 1);
    if (swap) {
      const std::size_t to = s.below(nt);
      if (ends == 0 && to != cur) {
        Event e;
        e.kind = Event::terminate;
        e.track = cur;
        sp.events.push_back(e);
      }
      cur = to;
    }
    if (ends == 1 && s.chance(1, 4)) {
      Event e;
      e.kind = Event::terminate;
      e.track = s.below(nt);
      sp.events.push_back(e);
      if (s.chance(1, 5)) sp.events.push_back(e);
    }
    if (o.raw && s.chance(1, 60)) {
      Event e;
      e.kind = Event::raw;
      e.data = s.bytes(1 + s.below(12));
      sp.events.push_back(e);
    }
    Event e;
    e.track = cur;
    auto& t = tm[cur];
    e.ts = t.next;
    switch (t.style) {
      case 0: t.next += t.step; break;
      case 1: t.next += s.chance(1, 5) ? s.below(2000) : t.step; break;
      case 2: t.next += s.below(3) * t.step; break;
      default: t.next += s.chance(1, 30) ? s.bits(32) : t.step; break;
    }
    e.key = s.chance(2, 5);
    e.by_vector = s.coin();
    if (sp.tracks[cur].codec == Codec::h264) {
      std::vector<Nal> sets;
      if (t.sets.empty() || s.chance(1, 8)) sets = gen_sets(s, &t.sets);
      auto a = gen_access_unit(s, sets, same_size ? 12 : o.max_sample);
      e.data = a.stream;
      e.stored = a.sample;
      e.nals = a.nals;
      e.stores = !a.sample.empty();
    } else {
      e.data = s.bytes(same_size ? fixed : s.size(o.sample, o.max_sample));
      if (s.chance(1, 12)) std::fill(e.data.begin(), e.data.end(), s.coin() ? 0 : 0xff);  // as encoders make of silence
      e.stored = e.data;
    }
    // an access unit that stores nothing does not shorten the gap to the sample before it
    if (e.stores) t.stored = e.ts;
    if (t.stored) t.next = std::min<std::uint64_t>(t.next, *t.stored + 0xffffffffULL);
    if (e.data.size() < 2000) sp.events.push_back(e);
    else sp.events.push_back(std::move(e));
  }
  return sp;
}

Spec gen_long(Src& s) {
  Options o;
  o.h264 = false;
  Spec sp;
  sp.mvhd_timescale = 1000;
  sp.duration = gen_duration(s, false);
  const std::size_t nt = 1 + s.below(2);
  for (std::size_t i = 0; i < nt; ++i) sp.tracks.push_back(gen_track(s, o, sp.duration));
  static constexpr std::size_t around[] = {256, 65536, 32768};
  for (std::size_t k = 0; k < nt; ++k) {
    const std::size_t n = k == 0 ? around[s.below(3)] + 3 - s.below(6) + s.pick<std::size_t>({0, 0, 300}) : s.below(400);
    // chunks: one for all, one each, a long one first or last, or runs
    const unsigned chunking = static_cast<unsigned>(s.below(5));
    const std::size_t run = 1 + s.below(4);
    const unsigned timing = static_cast<unsigned>(s.below(4));
    const std::uint64_t step = s.pick<std::uint64_t>({1, 960, 3000});
    const std::size_t odd = s.below(n + 1);  // the one sample that differs
    const unsigned sizes = static_cast<unsigned>(s.below(3));
    const std::size_t size0 = s.below(4);
    const unsigned keys = static_cast<unsigned>(s.below(4));
    std::uint64_t ts = 0, x = s.bits(32) | 1;
    for (std::size_t i = 0; i < n; ++i) {
      Event e;
      e.track = k;
      e.ts = ts;
      ts += timing == 0 ? step : timing == 1 ? (i == odd ? step + 1 : step) : timing == 2 ? (i & 1 ? step : step + 1) : (i >= odd ? 2 * step : step);
      e.key = keys == 0 || (keys == 1 && i % 30 == 0) || (keys == 2 && (i == 0 || i == odd)) || (keys == 3 && i + 1 == n);
      e.data.resize(sizes == 0 ? size0 : sizes == 1 ? (i == odd ? size0 + 1 : size0) : (i * 7) % 4);
      for (auto& b : e.data) {
        x = x * 6364136223846793005ULL + 1442695040888963407ULL;
        b = static_cast<std::uint8_t>(x >> 40);
      }
      e.stored = e.data;
      sp.events.push_back(std::move(e));
      const bool cut = chunking == 0 ? false : chunking == 1 ? true : chunking == 2 ? i + 3 >= n : chunking == 3 ? i < 3 : (i + 1) % run == 0;
      if (cut) {
        Event t;
        t.kind = Event::terminate;
        t.track = k;
        sp.events.push_back(t);
      }
    }
  }
  return sp;
}

std::string text(const Spec& sp) {
  std::string r = sp.faststart ? "faststart" : "progressive";
  r += " mvhd_timescale=" + U(sp.mvhd_timescale) + " duration=" + dur_text(sp.duration) + (sp.custom_ftyp ? " own ftyp" : "") + (sp.burn_ids ? " burnt ids " + U(sp.burn_ids) : "") + (sp.late_ids ? " late ids " + U(sp.late_ids) : "") + "\n";
  for (std::size_t i = 0; i < sp.tracks.size(); ++i) {
    const auto& t = sp.tracks[i];
    r += "  track " + U(i) + ": " + name(t.codec) + " timescale=" + U(t.timescale) + " duration=" + dur_text(t.duration) + " media_time=" + std::to_string(t.media_time) + (t.set_media_time_later ? " (set later)" : "") + (t.own_id ? " id=" + U(t.own_id) : "") + "\n";
  }
  r += " ";
  std::size_t n = 0;
  for (const auto& e : sp.events) {
    if (n++ == 120) {
      r += " ... (" + U(sp.events.size()) + " events)";
      break;
    }
    if (e.kind == Event::terminate) r += " end(" + U(e.track) + ")";
    if (e.kind == Event::raw) r += " raw(" + U(e.data.size()) + ")";
    if (e.kind == Event::add) r += " add(" + U(e.track) + ",t=" + U(e.ts) + "," + U(e.data.size()) + "B" + (e.key ? ",key" : "") + ")";
  }
  return r;
}

// ---- running --------------------------------------------------------------------------------------------------

std::unique_ptr<trk::Track> make_track(const TrackSpec& t, wr::Writer* w, std::uint32_t id) {
  const std::int64_t mt = t.set_media_time_later ? 77 : t.media_time;
  std::unique_ptr<trk::Track> r;
  switch (t.codec) {
    case Codec::h264:
      r = std::make_unique<trk::H264Track>(trk::H264TrackParameters{.timescale = t.timescale, .media_time = mt, .duration = t.duration, .track_id = id, .width = t.width, .height = t.height, .configuration_version = t.configuration_version, .profile = t.profile, .profile_compatibility = t.compatibility, .level = t.level, .writer = w});
      break;
    case Codec::vp8:
    case Codec::vp9:
      r = std::make_unique<trk::VPXTrack>(trk::VPXTrackParameters{.codec = t.codec == Codec::vp8 ? trk::VPXCodec::VP8 : trk::VPXCodec::VP9, .timescale = t.timescale, .media_time = mt, .duration = t.duration, .track_id = id, .width = t.width, .height = t.height, .max_bitrate = t.max_bitrate, .avg_bitrate = t.avg_bitrate, .writer = w});
      break;
    case Codec::av1:
      r = std::make_unique<trk::AV1Track>(trk::AV1TrackParameters{.timescale = t.timescale, .media_time = mt, .duration = t.duration, .track_id = id, .width = t.width, .height = t.height, .seq_profile = t.seq_profile, .seq_level_idx_0 = t.seq_level, .seq_tier_0 = t.seq_tier, .chroma_subsampling_x = t.chroma_x, .chroma_subsampling_y = t.chroma_y, .chroma_sample_position = t.chroma_pos, .config_OBUs = t.config_obus, .writer = w});
      break;
    case Codec::aac:
      r = std::make_unique<trk::AACTrack>(trk::AACTrackParameters{.timescale = t.timescale, .duration = t.duration, .media_time = mt, .track_id = id, .buffer_size_db = t.buffer_size, .max_bitrate = t.max_bitrate, .avg_bitrate = t.avg_bitrate, .writer = w});
      break;
    case Codec::mp3:
      r = std::make_unique<trk::MP3Track>(trk::MP3TrackParameters{.timescale = t.timescale, .duration = t.duration, .media_time = mt, .track_id = id, .buffer_size_db = t.buffer_size, .max_bitrate = t.max_bitrate, .avg_bitrate = t.avg_bitrate, .writer = w});
      break;
    case Codec::opus:
      r = std::make_unique<trk::OpusTrack>(trk::OpusTrackParameters{.pre_skip = t.pre_skip, .duration = t.duration, .media_time = mt, .roll_distance = t.roll_distance, .track_id = id, .writer = w});
      break;
  }
  if (t.set_media_time_later) r->setMediaTime(t.media_time);
  return r;
}

namespace {
shiguredo::mp4::box::FtypParameters ftyp_params(const Spec& sp) {
  std::vector<shiguredo::mp4::Brand> cb;
  for (const auto& c : sp.compatible) cb.push_back(c);
  return {.major_brand = sp.major, .minor_version = sp.minor, .compatible_brands = cb};
}
}  // namespace

Session open(const Spec& sp, std::ostream& os, const std::string& path_template) {
  Session ss;
  if (sp.faststart) {
    std::unique_ptr<wr::FaststartWriter> w;
    if (sp.custom_ftyp) {
      w = std::make_unique<wr::FaststartWriter>(os, wr::FaststartWriterParameters{.mvhd_timescale = sp.mvhd_timescale, .duration = sp.duration, .mdat_path_templete = path_template, .ftyp_params = ftyp_params(sp)});
    } else {
      w = std::make_unique<wr::FaststartWriter>(os, wr::FaststartWriterParameters{.mvhd_timescale = sp.mvhd_timescale, .duration = sp.duration, .mdat_path_templete = path_template});
    }
    ss.fast = w.get();
    ss.writer = std::move(w);
  } else {
    std::unique_ptr<wr::SimpleWriter> w;
    if (sp.custom_ftyp) {
      w = std::make_unique<wr::SimpleWriter>(os, wr::SimpleWriterParameters{.mvhd_timescale = sp.mvhd_timescale, .duration = sp.duration, .ftyp_params = ftyp_params(sp)});
    } else {
      w = std::make_unique<wr::SimpleWriter>(os, wr::SimpleWriterParameters{.mvhd_timescale = sp.mvhd_timescale, .duration = sp.duration});
    }
    ss.simple = w.get();
    ss.writer = std::move(w);
  }
  return ss;
}

static void step() {
  if (before_call) before_call();
}

void begin(const Spec& sp, Session& ss) {
  step();
  ss.writer->writeFtypBox();
  for (unsigned i = 0; i < sp.burn_ids; ++i) ss.last_id = ss.writer->getAndUpdateNextTrackID();
  for (const auto& t : sp.tracks) {
    std::uint32_t id = t.own_id;
    if (id == 0) id = ss.last_id = ss.writer->getAndUpdateNextTrackID();
    ss.ids.push_back(id);
    ss.tracks.push_back(make_track(t, ss.writer.get(), id));
  }
}

void apply(const Event& e, Session& ss) {
  step();
  switch (e.kind) {
    case Event::terminate: ss.tracks[e.track]->terminateCurrentChunk(); break;
    case Event::raw: ss.writer->addMdatData(e.data); break;
    case Event::add:
      if (e.by_vector) {
        ss.tracks[e.track]->addData(e.ts, e.data, e.key);
      } else {
        // an exact-size copy, so that reads beyond it are seen
        std::unique_ptr<std::uint8_t[]> p(new std::uint8_t[e.data.size()]);
        if (!e.data.empty()) std::memcpy(p.get(), e.data.data(), e.data.size());
        ss.tracks[e.track]->addData(e.ts, p.get(), e.data.size(), e.key);
      }
      break;
  }
}

void end(const Spec& sp, Session& ss) {
  std::vector<trk::Track*> v;
  for (const auto& t : ss.tracks) v.push_back(t.get());
  if (sp.own_metadata) {
    step();
    for (auto* t : v) t->appendTrakBoxInfo(ss.writer->getMoovBoxInfo());
    ss.writer->appendUdtaBoxInfo({.data = *sp.own_metadata});
  } else {
    step();
    ss.writer->appendTrakAndUdtaBoxInfo(v);
  }
  for (unsigned i = 0; i < sp.late_ids; ++i) ss.last_id = ss.writer->getAndUpdateNextTrackID();
  if (ss.simple) {
    step();
    ss.simple->writeFreeBoxAndMdatHeader();
    step();
    ss.simple->writeMoovBox();
  } else {
    step();
    ss.fast->writeMoovBox();
    step();
    ss.fast->writeMdatHeader();
    step();
    ss.fast->copyMdatData();
  }
}

Session run(const Spec& sp, std::ostream& os, const std::string& path_template) {
  Session ss = open(sp, os, path_template);
  begin(sp, ss);
  for (const auto& e : sp.events) apply(e, ss);
  end(sp, ss);
  return ss;
}

// ---- demuxer --------------------------------------------------------------------------------------------------

Fetch fetch(const Bytes& b) {
  return [&b](std::uint64_t p, std::uint64_t n) {
    if (p > b.size() || n > b.size() - p) fail("the file has no bytes " + U(p) + "+" + U(n));
    return Bytes(b.begin() + static_cast<std::ptrdiff_t>(p), b.begin() + static_cast<std::ptrdiff_t>(p + n));
  };
}

std::uint64_t Cursor::u(unsigned bytes) {
  if (left() < bytes) fail(what + " ends before its fields do");
  std::uint64_t v = 0;
  for (unsigned k = 0; k < bytes; ++k) v = v << 8 | b[p++];
  return v;
}
std::int64_t Cursor::i(unsigned bytes) {
  const std::uint64_t v = u(bytes);
  const unsigned sh = 64 - 8 * bytes;
  return static_cast<std::int64_t>(v << sh) >> sh;
}
Bytes Cursor::take(std::size_t n) {
  if (left() < n) fail(what + " ends before its fields do");
  Bytes r(b.begin() + static_cast<std::ptrdiff_t>(p), b.begin() + static_cast<std::ptrdiff_t>(p + n));
  p += n;
  return r;
}
FourCC Cursor::four() {
  FourCC f;
  for (auto& c : f) c = static_cast<std::uint8_t>(u(1));
  return f;
}
void Cursor::done() const {
  if (left() != 0) fail(what + " has " + U(left()) + " more bytes than its fields");
}

const Box* Box::find(const char* t) const {
  const Box* r = nullptr;
  for (const auto& k : kids) {
    if (k.is(t)) {
      if (r) fail(model::type_text(type) + " holds more than one " + std::string(t));
      r = &k;
    }
  }
  return r;
}
const Box& Box::need(const char* t) const {
  const Box* r = find(t);
  if (!r) fail(model::type_text(type) + " holds no " + std::string(t));
  return *r;
}

namespace {
// own bytes of a container before its children; -1: not a container
int fields_of(const FourCC& t, const FourCC& parent) {
  static const char* plain[] = {"moov", "trak", "edts", "mdia", "minf", "dinf", "stbl", "udta", "ilst"};
  for (const auto* p : plain) {
    if (t == model::fourcc(p)) return 0;
  }
  if (t == model::fourcc("meta")) return 4;
  if (t == model::fourcc("dref") || t == model::fourcc("stsd")) return 8;
  if (parent == model::fourcc("ilst")) return 0;
  if (parent == model::fourcc("stsd")) {
    for (const auto* p : {"avc1", "vp08", "vp09", "av01"}) {
      if (t == model::fourcc(p)) return 78;
    }
    for (const auto* p : {"mp4a", "Opus"}) {
      if (t == model::fourcc(p)) return 28;
    }
    fail("unknown sample entry " + model::type_text(t));
  }
  return -1;
}

Box parse(const Fetch& f, std::uint64_t pos, std::uint64_t end, const FourCC& parent) {
  if (end - pos < 8) fail(U(end - pos) + " stray bytes at " + U(pos) + " inside " + model::type_text(parent));
  Box b;
  b.offset = pos;
  const Bytes h = f(pos, 8);
  Cursor c{h, 0, "box header"};
  b.size = c.u(4);
  b.type = c.four();
  if (b.size == 1) {
    const Bytes l = f(pos + 8, 8);
    Cursor cl{l, 0, "large size"};
    b.size = cl.u(8);
    b.header = 16;
  } else if (b.size == 0) {
    b.size = end - pos;
  }
  if (b.size < b.header || b.size > end - pos) fail("box " + model::type_text(b.type) + " at " + U(pos) + " has size " + U(b.size) + " but " + U(end - pos) + " bytes remain in " + model::type_text(parent));
  if (b.is("mdat")) return b;
  const int fields = fields_of(b.type, parent);
  if (fields < 0) {
    b.payload = f(pos + b.header, b.size - b.header);
    return b;
  }
  std::uint64_t p = pos + b.header + static_cast<std::uint64_t>(fields);
  if (p > b.end()) fail("box " + model::type_text(b.type) + " is too small for its fields");
  b.payload = f(pos + b.header, static_cast<std::uint64_t>(fields));
  while (p < b.end()) {
    b.kids.push_back(parse(f, p, b.end(), b.type));
    p = b.kids.back().end();
  }
  return b;
}

Cursor full(const Box& b, std::uint64_t* version, std::uint64_t* flags = nullptr) {
  Cursor c{b.payload, 0, model::type_text(b.type)};
  *version = c.u(1);
  const auto f = c.u(3);
  if (flags) *flags = f;
  return c;
}

void read_track(const Box& trak, DTrack& t) {
  t.trak = &trak;
  std::uint64_t v;
  {
    auto c = full(trak.need("tkhd"), &v);
    const unsigned w = v == 0 ? 4 : 8;
    c.u(w), c.u(w);
    t.id = static_cast<std::uint32_t>(c.u(4));
    c.u(4);
    t.movie_duration = c.u(w);
    c.take(8 + 2 + 2 + 2 + 2 + 36 + 4 + 4);
    c.done();
  }
  const Box& mdia = trak.need("mdia");
  {
    auto c = full(mdia.need("mdhd"), &v);
    const unsigned w = v == 0 ? 4 : 8;
    c.u(w), c.u(w);
    t.timescale = static_cast<std::uint32_t>(c.u(4));
    t.media_duration = c.u(w);
    c.take(4);
    c.done();
  }
  {
    auto c = full(mdia.need("hdlr"), &v);
    c.u(4);
    t.handler = c.four();
  }
  const Box& stbl = mdia.need("minf").need("stbl");
  const std::string who = "track " + U(t.id) + ": ";
  // sizes
  {
    auto c = full(stbl.need("stsz"), &v);
    const auto fixed = c.u(4), n = c.u(4);
    if (fixed == 0) {
      if (c.left() != 4 * n) fail(who + "stsz lists " + U(n) + " sizes in " + U(c.left()) + " bytes");
      for (std::uint64_t i = 0; i < n; ++i) {
        DSample x;
        x.size = c.u(4);
        t.samples.push_back(x);
      }
    } else {
      DSample x;
      x.size = fixed;
      t.samples.assign(n, x);
    }
    c.done();
  }
  // times
  {
    auto c = full(stbl.need("stts"), &v);
    const auto n = c.u(4);
    std::uint64_t i = 0, at = 0;
    for (std::uint64_t k = 0; k < n; ++k) {
      const auto count = c.u(4), delta = c.u(4);
      if (count == 0) fail(who + "stts has an empty run");
      for (std::uint64_t j = 0; j < count; ++j, ++i) {
        if (i >= t.samples.size()) fail(who + "stts covers more than the " + U(t.samples.size()) + " samples of stsz");
        t.samples[i].start = at;
        t.samples[i].duration = delta;
        at += delta;
      }
    }
    if (i != t.samples.size()) fail(who + "stts covers " + U(i) + " of " + U(t.samples.size()) + " samples");
    c.done();
  }
  // key frames
  if (const Box* b = stbl.find("stss")) {
    t.has_stss = true;
    for (auto& x : t.samples) x.key = false;
    auto c = full(*b, &v);
    const auto n = c.u(4);
    std::uint64_t prev = 0;
    for (std::uint64_t k = 0; k < n; ++k) {
      const auto i = c.u(4);
      if (i <= prev || i > t.samples.size()) fail(who + "stss lists sample " + U(i) + " after " + U(prev) + " of " + U(t.samples.size()));
      t.samples[i - 1].key = true;
      prev = i;
    }
    c.done();
  }
  // chunks
  const Box *co = stbl.find("stco"), *co64 = stbl.find("co64");
  if ((co != nullptr) == (co64 != nullptr)) fail(who + "needs exactly one of stco and co64");
  t.co64 = co64 != nullptr;
  {
    auto c = full(co ? *co : *co64, &v);
    const auto n = c.u(4);
    for (std::uint64_t k = 0; k < n; ++k) t.chunks.push_back({c.u(co ? 4 : 8), 0});
    c.done();
  }
  {
    auto c = full(stbl.need("stsc"), &v);
    const auto n = c.u(4);
    std::vector<std::uint64_t> first, per;
    for (std::uint64_t k = 0; k < n; ++k) {
      first.push_back(c.u(4));
      per.push_back(c.u(4));
      const auto d = c.u(4);
      if (d != 1) fail(who + "stsc refers to sample description " + U(d));
      if (first.back() != 1 && k == 0) fail(who + "stsc starts at chunk " + U(first.back()));
      if (k > 0 && first[k] <= first[k - 1]) fail(who + "stsc goes from chunk " + U(first[k - 1]) + " to " + U(first[k]));
      if (per.back() == 0) fail(who + "stsc has chunks without samples");
      if (first.back() > t.chunks.size()) fail(who + "stsc refers to chunk " + U(first.back()) + " of " + U(t.chunks.size()));
    }
    c.done();
    if (n == 0 && !t.chunks.empty()) fail(who + U(t.chunks.size()) + " chunks but an empty stsc");
    std::uint64_t i = 0, e = 0;
    for (std::uint64_t k = 0; k < t.chunks.size(); ++k) {
      while (e + 1 < n && first[e + 1] <= k + 1) ++e;
      std::uint64_t at = t.chunks[k].offset;
      for (std::uint64_t j = 0; j < per[e]; ++j, ++i) {
        if (i >= t.samples.size()) fail(who + "the chunks hold more than the " + U(t.samples.size()) + " samples of stsz");
        t.samples[i].offset = at;
        at += t.samples[i].size;
      }
      t.chunks[k].size = at - t.chunks[k].offset;
    }
    if (i != t.samples.size()) fail(who + "the chunks hold " + U(i) + " of " + U(t.samples.size()) + " samples");
  }
}
}  // namespace

DMovie demux(const Fetch& f, std::uint64_t size) {
  DMovie m;
  std::uint64_t p = 0;
  const FourCC none = model::fourcc("file");
  while (p < size) {
    m.top.push_back(parse(f, p, size, none));
    p = m.top.back().end();
  }
  for (const auto& b : m.top) {
    const Box** slot = b.is("ftyp") ? &m.ftyp : b.is("moov") ? &m.moov : b.is("mdat") ? &m.mdat : nullptr;
    if (!slot) {
      if (!b.is("free") && !b.is("skip")) fail("unexpected top-level box " + model::type_text(b.type));
      continue;
    }
    if (*slot) fail("more than one " + model::type_text(b.type));
    *slot = &b;
  }
  if (!m.ftyp || m.ftyp != &m.top.front()) fail("the file does not start with an ftyp box");
  if (!m.moov) fail("no moov box");
  if (!m.mdat) fail("no mdat box");
  std::uint64_t v;
  auto c = full(m.moov->need("mvhd"), &v);
  const unsigned w = v == 0 ? 4 : 8;
  m.creation = c.u(w);
  m.modification = c.u(w);
  m.timescale = static_cast<std::uint32_t>(c.u(4));
  m.duration = c.u(w);
  c.take(4 + 2 + 2 + 8 + 36 + 24);
  m.next_track_id = static_cast<std::uint32_t>(c.u(4));
  c.done();
  for (const auto& b : m.moov->kids) {
    if (!b.is("trak")) continue;
    DTrack t;
    read_track(b, t);
    m.tracks.push_back(std::move(t));
  }
  return m;
}

std::size_t check_samples(const Spec& sp, const Session& ss, const DMovie& m, const Fetch& f, std::uint64_t file_size) {
  if (m.top.back().end() != file_size) fail("the boxes do not tile the file");
  if (m.tracks.size() != sp.tracks.size()) fail("the file has " + U(m.tracks.size()) + " tracks of " + U(sp.tracks.size()));
  const std::uint64_t lo = m.mdat->offset + m.mdat->header, hi = m.mdat->end();
  std::uint64_t want_bytes = 0;
  std::vector<std::vector<const Event*>> want(sp.tracks.size());
  for (const auto& e : sp.events) {
    if (e.kind == Event::raw) want_bytes += e.data.size();
    if (e.kind == Event::add && e.stores) {
      want[e.track].push_back(&e);
      want_bytes += e.stored.size();
    }
  }
  if (hi - lo != want_bytes) fail("the media data box holds " + U(hi - lo) + " bytes, " + U(want_bytes) + " were added");
  std::vector<std::pair<std::uint64_t, std::uint64_t>> spans;
  std::size_t n = 0;
  for (std::size_t k = 0; k < sp.tracks.size(); ++k) {
    const auto& t = m.tracks[k];
    const std::string who = "track " + U(k) + " (" + name(sp.tracks[k].codec) + "): ";
    if (t.id != ss.ids[k]) fail(who + "has id " + U(t.id) + " instead of " + U(ss.ids[k]));
    const auto& w = want[k];
    if (t.samples.size() != w.size()) fail(who + U(t.samples.size()) + " samples come back of " + U(w.size()) + " added");
    for (const auto& ch : t.chunks) {
      if (ch.offset < lo || ch.size > hi - lo || ch.offset > hi - ch.size) fail(who + "a chunk at " + U(ch.offset) + "+" + U(ch.size) + " is not inside the media data " + U(lo) + ".." + U(hi));
      if (ch.size > 0) spans.emplace_back(ch.offset, ch.size);
    }
    for (std::size_t i = 0; i < w.size(); ++i, ++n) {
      const auto& x = t.samples[i];
      const Event& e = *w[i];
      const std::string which = who + "sample " + U(i) + ": ";
      if (x.size != e.stored.size()) fail(which + "has " + U(x.size) + " bytes instead of " + U(e.stored.size()));
      if (f(x.offset, x.size) != e.stored) fail(which + "its bytes at " + U(x.offset) + " are not those added: " + pbt::diff(e.stored, f(x.offset, x.size)));
      if (x.start != e.ts - w[0]->ts) fail(which + "starts at " + U(x.start) + " instead of " + U(e.ts - w[0]->ts));
      if (i + 1 < w.size()) {
        if (x.duration != w[i + 1]->ts - e.ts) fail(which + "lasts " + U(x.duration) + " instead of " + U(w[i + 1]->ts - e.ts));
      } else {
        const std::uint64_t rest = std::min<std::uint64_t>(t.media_duration > e.ts ? t.media_duration - e.ts : 0, U32);
        if (x.duration != rest) fail(which + "(the last) lasts " + U(x.duration) + " instead of the remaining " + U(rest));
      }
      const bool key = !is_video(sp.tracks[k].codec) || e.key;
      if (x.key != key) fail(which + (key ? "is a key frame and not marked" : "is marked as a key frame and is none"));
    }
  }
  std::sort(spans.begin(), spans.end());
  for (std::size_t i = 1; i < spans.size(); ++i) {
    if (spans[i - 1].first + spans[i - 1].second > spans[i].first) fail("chunks at " + U(spans[i - 1].first) + "+" + U(spans[i - 1].second) + " and " + U(spans[i].first) + " overlap");
  }
  return n;
}

void check_duration(const std::string& what, std::uint64_t got, std::uint32_t timescale, float d) {
  const long double exact = static_cast<long double>(timescale) * static_cast<long double>(d);
  const long double diff = std::fabs(static_cast<long double>(got) - exact);
  const bool precise = exact == std::floor(exact) && exact <= 16777216.0L && timescale <= 16777216u;
  const long double allowed = precise ? 0.0L : 1.0L + exact * 1.0001L / 8388608.0L;
  if (diff > allowed) fail(what + " is " + U(got) + " for " + dur_text(d) + " s at " + U(timescale) + " units per second");
}

}  // namespace movie
