// Movies: generated track parameters and writing histories, the driver that runs them through the library's writers,
// and a demuxer of our own that reads the finished file back. The demuxer shares no code with the library.
#pragma once
#include <cstdint>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "model.hpp"
#include "shiguredo/mp4/track/track.hpp"
#include "shiguredo/mp4/writer/writer.hpp"

namespace shiguredo::mp4::writer {
class SimpleWriter;
class FaststartWriter;
}  // namespace shiguredo::mp4::writer

namespace movie {

using model::FourCC;
using pbt::Bytes;
using pbt::Ctx;
using pbt::Src;

// ---- H.264 access units -------------------------------------------------------------------------------------
struct Nal {
  std::uint8_t type;
  Bytes unit;  // header and payload, emulation prevention applied, not ending in a zero byte
};
Bytes gen_nal(Src& s, std::uint8_t type, std::size_t min_size, std::size_t max_size);
struct AccessUnit {
  std::vector<Nal> nals;
  Bytes stream;  // Annex B
  Bytes sample;  // what must be stored: length-prefixed slices; empty if there is no slice
};
AccessUnit assemble(Src& s, const std::vector<Nal>& nals);
std::vector<Nal> gen_sets(Src& s, std::vector<std::vector<Nal>>* known);
AccessUnit gen_access_unit(Src& s, const std::vector<Nal>& sets, std::size_t max_size);

// ---- what is written ------------------------------------------------------------------------------------------
enum class Codec { h264, vp8, vp9, av1, aac, mp3, opus };
std::string name(Codec c);
inline bool is_video(Codec c) { return c == Codec::h264 || c == Codec::vp8 || c == Codec::vp9 || c == Codec::av1; }

struct TrackSpec {
  Codec codec = Codec::opus;
  std::uint32_t timescale = 48000;
  std::int64_t media_time = 0;
  bool set_media_time_later = false;  // through setMediaTime instead of the parameter
  float duration = 0;
  std::uint32_t own_id = 0;  // 0: ask the writer
  std::uint32_t width = 0, height = 0;
  std::uint32_t buffer_size = 768, max_bitrate = 0, avg_bitrate = 0;
  std::uint16_t pre_skip = 0;
  std::int16_t roll_distance = -4;
  std::uint8_t configuration_version = 1, profile = 66, compatibility = 0xc0, level = 31;
  std::uint8_t seq_profile = 0, seq_level = 0, seq_tier = 0, chroma_x = 1, chroma_y = 1, chroma_pos = 0;
  Bytes config_obus;
};

struct Event {
  enum Kind { add, terminate, raw } kind = add;
  std::size_t track = 0;
  std::uint64_t ts = 0;
  bool key = false;
  bool by_vector = false;
  Bytes data;      // handed to addData (or to the writer, for raw)
  Bytes stored;    // what the sample must be
  bool stores = true;
  std::vector<Nal> nals;
};

struct Spec {
  bool faststart = false;
  std::uint32_t mvhd_timescale = 1000;
  float duration = 0;
  bool custom_ftyp = false;
  FourCC major{};
  std::uint32_t minor = 0;
  std::vector<FourCC> compatible;
  unsigned burn_ids = 0;  // ids taken from the writer and not used
  unsigned late_ids = 0;  // the same, between the description of the tracks and the movie box
  std::vector<TrackSpec> tracks;
  std::vector<Event> events;
  std::optional<Bytes> own_metadata;  // progressive only: trak and udta appended by hand, with this text
};

struct Options {
  std::size_t max_tracks = 4;
  std::size_t events = 25, max_events = 300;
  std::size_t sample = 20, max_sample = 3000;
  bool wild_parameters = false;  // any value in range for every parameter
  bool raw = false;
  bool h264 = true;
};
Spec gen(Src& s, const Options& o);
// one or two tracks with a number of samples, of chunks or of samples in one chunk around 2^8 or 2^16
Spec gen_long(Src& s);
TrackSpec gen_track(Src& s, const Options& o, float duration);
std::string text(const Spec& sp);
std::string dur_text(float d);

// ---- running it -----------------------------------------------------------------------------------------------
struct Session {
  std::unique_ptr<shiguredo::mp4::writer::Writer> writer;
  shiguredo::mp4::writer::SimpleWriter* simple = nullptr;
  shiguredo::mp4::writer::FaststartWriter* fast = nullptr;
  std::vector<std::unique_ptr<shiguredo::mp4::track::Track>> tracks;
  std::vector<std::uint32_t> ids;
  std::uint32_t last_id = 0;  // largest id the writer handed out
};
std::unique_ptr<shiguredo::mp4::track::Track> make_track(const TrackSpec& t, shiguredo::mp4::writer::Writer* w, std::uint32_t id);
// `path_template`: faststart only
Session open(const Spec& sp, std::ostream& os, const std::string& path_template);
void begin(const Spec& sp, Session& ss);   // the ftyp box
void apply(const Event& e, Session& ss);
void end(const Spec& sp, Session& ss);     // everything after the last sample
// called before every call into a writer or track, if set
inline std::function<void()> before_call;
Session run(const Spec& sp, std::ostream& os, const std::string& path_template);

// ---- reading it back ------------------------------------------------------------------------------------------
using Fetch = std::function<Bytes(std::uint64_t pos, std::uint64_t n)>;

struct Box {
  FourCC type{};
  std::uint64_t offset = 0, size = 0, header = 8;
  Bytes payload;  // not for mdat; own fields only, for containers with fields
  std::vector<Box> kids;
  bool is(const char* t) const { return type == model::fourcc(t); }
  const Box* find(const char* t) const;  // only child of that type, or nullptr; several: failure
  const Box& need(const char* t) const;
  std::uint64_t end() const { return offset + size; }
};
struct DSample {
  std::uint64_t offset = 0, size = 0, start = 0, duration = 0;
  bool key = true;
};
struct DChunk {
  std::uint64_t offset = 0, size = 0;
};
struct DTrack {
  const Box* trak = nullptr;
  std::uint32_t id = 0;
  FourCC handler{};
  std::uint32_t timescale = 0;
  std::uint64_t media_duration = 0, movie_duration = 0;
  bool has_stss = false;
  std::vector<DSample> samples;
  std::vector<DChunk> chunks;
  std::uint64_t co_limit_exceeded = 0;  // offsets beyond 32 bits
  bool co64 = false;
};
struct DMovie {
  std::vector<Box> top;
  const Box* ftyp = nullptr;
  const Box* moov = nullptr;
  const Box* mdat = nullptr;
  std::uint32_t timescale = 0, next_track_id = 0;
  std::uint64_t duration = 0, creation = 0, modification = 0;
  std::vector<DTrack> tracks;
};
// fails (with a description) unless the file is well formed
DMovie demux(const Fetch& f, std::uint64_t size);
Fetch fetch(const Bytes& b);

// big-endian reader over a payload, failing when it runs out
struct Cursor {
  const Bytes& b;
  std::size_t p = 0;
  std::string what;
  std::uint64_t u(unsigned bytes);
  std::int64_t i(unsigned bytes);
  Bytes take(std::size_t n);
  FourCC four();
  std::size_t left() const { return b.size() - p; }
  void done() const;
};

// every sample of the history comes back; returns how many
struct Expectation {
  bool check_bytes = true;
};
std::size_t check_samples(const Spec& sp, const Session& ss, const DMovie& m, const Fetch& f, std::uint64_t file_size);

// the value the format must hold for seconds d in a timescale: the parameter is a single-precision number
void check_duration(const std::string& what, std::uint64_t got, std::uint32_t timescale, float d);

}  // namespace movie
