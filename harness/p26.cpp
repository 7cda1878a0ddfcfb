// P26: what is refused leaves no trace. Every history is run twice, once with refused requests put in, and must give
// the same results.
#include <chrono>
#include <cstring>
#include <memory>
#include <sstream>

#include "lib.hpp"
#include "model_util.hpp"
#include "movie.hpp"
#include "shiguredo/mp4/bitio/bitio.hpp"
#include "shiguredo/mp4/bitio/reader.hpp"
#include "shiguredo/mp4/bitio/writer.hpp"
#include "shiguredo/mp4/box_map.hpp"
#include "shiguredo/mp4/box_types.hpp"
#include "shiguredo/mp4/time/time.hpp"
#include "shiguredo/mp4/track/h264.hpp"
#include "shiguredo/mp4/track/track.hpp"
#include "shiguredo/mp4/writer/writer.hpp"
#include "streams.hpp"
#include "tree.hpp"

// the library dates its files with these clocks: stopped, so that what two runs write can be compared byte for byte
namespace std::chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(std::chrono::seconds(1'700'000'000)); }
}  // namespace _V2
}  // namespace std::chrono
extern "C" time_t time(time_t* t) {
  if (t != nullptr) *t = 1'700'000'000;
  return 1'700'000'000;
}

using namespace pbt;
using namespace model;
using shiguredo::mp4::Box;
using shiguredo::mp4::BoxMap;
using shiguredo::mp4::BoxType;
namespace bitio = shiguredo::mp4::bitio;
namespace track = shiguredo::mp4::track;

namespace {

constexpr std::uint64_t U32 = 0xffffffffULL;

// ---- writing histories ----------------------------------------------------------------------------------------

// something that must be refused, asked for just before event `at` (or before the movie box)
struct Offer {
  std::size_t at = 0;
  std::string what;
  std::size_t track = 0;
  bool is_track = false;  // a track that cannot exist; otherwise a sample
  enum Fault { none, write, tell } fault = none;  // the sample is in order, but the stream does not take it, or has no position
  movie::TrackSpec spec;
  std::uint32_t id = 0;
  movie::Event e;
};

movie::AccessUnit unit_with_new_sets(Src& s, bool stored = false) {
  std::vector<movie::Nal> nals;
  if (s.chance(5, 6)) nals.push_back({7, movie::gen_nal(s, 7, 5, 40)});
  if (s.chance(5, 6)) nals.push_back({8, movie::gen_nal(s, 8, 2, 20)});
  if (s.chance(1, 5)) nals.push_back({6, movie::gen_nal(s, 6, 2, 20)});
  const std::size_t n = s.chance(1, 3) ? (stored ? 1 : 0) + s.below(4) : 1;
  for (std::size_t i = 0; i < n; ++i) nals.push_back({1, movie::gen_nal(s, 1, 2, 60)});
  if (s.chance(1, 8)) nals.push_back({7, movie::gen_nal(s, 7, 5, 40)});
  return movie::assemble(s, nals);
}

// a unit that cannot be a sample; what comes before the fault is in order
Bytes broken_unit(Src& s, std::string& what) {
  auto a = unit_with_new_sets(s);
  Bytes d = a.stream;
  switch (s.below(4)) {
    case 0: {  // no start code at the beginning
      what = "no start code";
      d.insert(d.begin(), static_cast<std::uint8_t>(1 + s.below(255)));
      break;
    }
    case 1: {  // nothing behind the last start code
      what = "a start code at the end";
      if (s.coin()) d.push_back(0);
      d.insert(d.end(), {0, 0, 1});
      break;
    }
    default: {
      const std::uint8_t type = s.chance(1, 4) ? 0 : static_cast<std::uint8_t>(9 + s.below(23));
      what = "a NAL unit of type " + std::to_string(type);
      if (s.coin()) d.push_back(0);
      d.insert(d.end(), {0, 0, 1, static_cast<std::uint8_t>(s.below(4) << 5 | type)});
      const auto more = s.size(4, 20);
      for (std::size_t i = 0; i < more; ++i) d.push_back(static_cast<std::uint8_t>(4 + s.below(252)));
      if (s.chance(1, 3)) {
        const auto b = unit_with_new_sets(s);
        d.insert(d.end(), b.stream.begin(), b.stream.end());
      }
    }
  }
  return d;
}

// what the track would need to know to refuse by time
struct Past {
  bool any = false;
  std::uint64_t last = 0;
};

Offer gen_offer(Src& s, const movie::Spec& sp, const std::vector<Past>& past) {
  Offer o;
  std::vector<std::size_t> h264, timed;
  for (std::size_t i = 0; i < sp.tracks.size(); ++i) {
    if (sp.tracks[i].codec == movie::Codec::h264) h264.push_back(i);
    if (past[i].any) timed.push_back(i);
  }
  const unsigned k = static_cast<unsigned>(s.below(10));
  if (k >= 8 && !sp.faststart && !sp.tracks.empty()) {
    o.track = s.below(sp.tracks.size());
    o.fault = s.chance(1, 4) ? Offer::tell : Offer::write;
    o.what = o.fault == Offer::tell ? "no position" : "a stream that takes nothing";
    const auto& p = past[o.track];
    o.e.ts = p.last + std::min<std::uint64_t>(s.bits(32), ~p.last);
    if (sp.tracks[o.track].codec == movie::Codec::h264) {
      o.e.data = unit_with_new_sets(s, true).stream;
    } else {
      o.e.data = s.bytes(1 + s.size(20, 2000));
    }
  } else if (k <= 2 && !h264.empty()) {
    o.track = s.one_of(h264);
    o.e.data = broken_unit(s, o.what);
    o.e.ts = past[o.track].last + s.below(5000);
  } else if (k <= 6 && !timed.empty()) {
    o.track = s.one_of(timed);
    const auto& p = past[o.track];
    const std::uint64_t far = p.last + U32 + 1;
    if (p.last > 0 && (s.coin() || far < p.last)) {
      o.e.ts = s.coin() ? p.last - 1 : s.below(p.last);
      o.what = "time " + std::to_string(o.e.ts) + " after " + std::to_string(p.last);
    } else {
      const std::uint64_t room = ~far;
      o.e.ts = far + (room == 0 ? 0 : s.below(std::min<std::uint64_t>(room, 1ULL << (1 + s.below(62)))));
      o.what = "time " + std::to_string(o.e.ts) + " too long after " + std::to_string(p.last);
    }
    if (sp.tracks[o.track].codec == movie::Codec::h264) {
      o.e.data = unit_with_new_sets(s, true).stream;
    } else {
      o.e.data = s.bytes(s.size(20, 2000));
    }
  } else {
    o.is_track = true;
    movie::Options mo;
    mo.wild_parameters = s.coin();
    o.spec = movie::gen_track(s, mo, sp.duration);
    o.id = 1 + static_cast<std::uint32_t>(s.below(5));
    if (!movie::is_video(o.spec.codec) || s.coin()) {
      o.id = 0;
      o.what = "a track with id 0";
    } else {
      (s.coin() ? o.spec.width : o.spec.height) = static_cast<std::uint32_t>(0x10000 + s.below(0x10000));
      o.what = "a track of " + std::to_string(o.spec.width) + "x" + std::to_string(o.spec.height);
    }
    o.what += " (" + movie::name(o.spec.codec) + ")";
  }
  o.e.track = o.track;
  o.e.key = s.coin();
  o.e.by_vector = s.coin();
  if (!o.is_track) o.what = "sample of track #" + std::to_string(o.track) + ": " + o.what + " " + hex(o.e.data, 120);
  return o;
}

void make(const Offer& o, movie::Session& ss, streams::SparseBuf& buf, std::ostream& os) {
  if (o.fault == Offer::write) buf.fail_after_bytes = buf.bytes_written;
  if (o.fault == Offer::tell) buf.fail_tell = buf.tells;
  const auto err = lib::thrown([&] {
    if (o.is_track) {
      movie::make_track(o.spec, ss.writer.get(), o.id);
    } else {
      movie::apply(o.e, ss);
    }
  });
  if (err.empty()) fail("not refused: " + o.what);
  if (o.fault != Offer::none && !buf.failed) fail("an error without a failure: " + err + " for " + o.what);
  buf.failed = false;
  buf.fail_after_bytes = buf.fail_tell = streams::SparseBuf::kNever;
  os.clear();
}

struct Result {
  Bytes file;
  std::vector<std::string> seen;
};

Result history(const movie::Spec& sp, const std::vector<Offer>* offers) {
  streams::SparseBuf buf;
  buf.sticky = false;
  std::ostream os(&buf);
  Result r;
  movie::Session ss = movie::open(sp, os, scratch_dir() + "/p26-XXXXXX");
  movie::begin(sp, ss);
  std::size_t k = 0;
  const auto refuse = [&](std::size_t at) {
    if (offers == nullptr) return;
    for (; k < offers->size() && (*offers)[k].at == at; ++k) make((*offers)[k], ss, buf, os);
  };
  for (std::size_t i = 0; i < sp.events.size(); ++i) {
    refuse(i);
    movie::apply(sp.events[i], ss);
    r.seen.push_back("media data up to " + std::to_string(ss.writer->tellCurrentMdatOffset()) + " after event " + std::to_string(i));
  }
  refuse(sp.events.size());
  movie::end(sp, ss);
  r.seen.push_back("next id " + std::to_string(ss.writer->getAndUpdateNextTrackID()));
  r.file = buf.get(0, buf.size());
  return r;
}

void movies(Src& s, Ctx& c) {
  movie::Options o;
  o.max_tracks = 3;
  o.events = 14;
  o.max_events = 120;
  o.max_sample = 300;
  o.raw = true;
  o.wild_parameters = s.chance(1, 4);
  auto sp = movie::gen(s, o);
  sp.faststart = s.coin();
  if (sp.faststart) sp.own_metadata.reset();
  std::vector<Past> past(sp.tracks.size());
  std::vector<Offer> offers;
  const bool often = s.coin();
  for (std::size_t i = 0; i <= sp.events.size(); ++i) {
    while (offers.size() < 30 && (often ? s.coin() : s.chance(1, 6))) {
      offers.push_back(gen_offer(s, sp, past));
      offers.back().at = i;
    }
    if (i < sp.events.size() && sp.events[i].kind == movie::Event::add && sp.events[i].stores) past[sp.events[i].track] = {true, sp.events[i].ts};
  }
  if (offers.empty()) {
    offers.push_back(gen_offer(s, sp, past));
    offers.back().at = sp.events.size();
  }
  c.note(movie::text(sp));
  for (const auto& f : offers) {
    c.note("before event " + std::to_string(f.at) + ": " + f.what);
    c.label(f.fault != Offer::none ? "refused: by the stream" : f.is_track ? "refused: a track" : f.what.find("time ") != std::string::npos ? "refused: time" : "refused: contents");
  }
  Result plain;
  const auto err = lib::thrown([&] { plain = history(sp, nullptr); });
  if (!err.empty()) {
    c.label("the history itself cannot be written: " + err.substr(0, 60));
    return;
  }
  const Result with = history(sp, &offers);
  for (std::size_t i = 0; i < plain.seen.size(); ++i) {
    if (plain.seen[i] != with.seen[i]) fail("with refused requests put in: " + with.seen[i] + ", without: " + plain.seen[i]);
  }
  if (plain.file != with.file) fail("the refused requests left a trace in the file: " + diff(plain.file, with.file));
  c.nontrivial();
  c.sub_evals += 2;
  c.fingerprint(hash_bytes(plain.file.data(), plain.file.size(), offers.size()));
  c.sample(std::to_string(offers.size()) + " refused requests, the last: " + offers.back().what.substr(0, 150) + " in " + movie::text(sp).substr(0, 150));
}

// ---- bits -----------------------------------------------------------------------------------------------------

struct Write {
  std::string what;
  bool refused = false;
  std::function<std::uint64_t(bitio::Writer&)> f;
};

template <class T>
Write write_number(Src& s, unsigned& phase, bool refused) {
  constexpr unsigned N = sizeof(T) * 8;
  Write w;
  const bool is_signed = s.coin();
  const unsigned width = 1 + static_cast<unsigned>(s.below(refused ? N - 1 : N));
  if (is_signed) {
    using S = std::make_signed_t<T>;
    S v;
    if (refused) {  // just or far outside
      const S lim = static_cast<S>(static_cast<S>(1) << (width - 1));
      v = s.coin() ? (s.coin() ? lim : std::numeric_limits<S>::max()) : (s.coin() ? static_cast<S>(-lim - 1) : std::numeric_limits<S>::min());
    } else {
      v = static_cast<S>(s.sbits(width));
    }
    w.what = "write_int " + std::to_string(v) + " in " + std::to_string(width) + " bits";
    w.f = [v, width](bitio::Writer& b) { return bitio::write_int<S>(&b, v, width); };
  } else {
    const T v = static_cast<T>(refused ? (s.coin() ? T(1) << width : std::numeric_limits<T>::max()) : s.bits(width));
    w.what = "write_uint " + std::to_string(v) + " in " + std::to_string(width) + " bits";
    w.f = [v, width](bitio::Writer& b) { return bitio::write_uint<T>(&b, v, width); };
  }
  w.refused = refused;
  if (!refused) phase = (phase + width) % 8;
  return w;
}

Write write_op(Src& s, unsigned& phase, bool refused) {
  switch (s.below(8)) {
    case 0: {
      std::string t = s.text(s.below(20));
      if (refused) t.insert(t.begin() + static_cast<std::ptrdiff_t>(s.below(t.size() + 1)), '\0');
      return {"write_string of " + std::to_string(t.size()), refused, [t](bitio::Writer& b) { return bitio::write_string(&b, t); }};
    }
    case 1: {
      const std::string t(refused ? 256 + s.below(600) : s.coin() ? s.below(8) : 255 - s.below(2), static_cast<char>('a' + s.below(26)));
      return {"write_pascal_string of " + std::to_string(t.size()), refused, [t](bitio::Writer& b) { return bitio::write_pascal_string(&b, t); }};
    }
    case 2:
      if (refused ? phase != 0 : phase == 0) {
        const auto d = s.bytes(1 + s.below(12));
        return {"bytes", refused, [d](bitio::Writer& b) { return static_cast<std::uint64_t>(b.write(d)); }};
      }
      [[fallthrough]];
    case 3: return write_number<std::uint8_t>(s, phase, refused);
    case 4: return write_number<std::uint16_t>(s, phase, refused);
    case 5: return write_number<std::uint32_t>(s, phase, refused);
    default: return write_number<std::uint64_t>(s, phase, refused);
  }
}

void writes(Src& s, Ctx& c) {
  std::vector<Write> ops;
  unsigned phase = 0;
  unsigned refused = 0;
  for (std::size_t n = 1 + s.size(10, 80); n > 0; --n) {
    const bool r = s.chance(1, 3);
    ops.push_back(write_op(s, phase, r));
    refused += r;
  }
  const auto go = [&](bool with) {
    std::ostringstream os;
    bitio::Writer w(os);
    std::string seen;
    for (const auto& o : ops) {
      if (o.refused) {
        if (!with) continue;
        if (lib::thrown([&] { o.f(w); }).empty()) fail("not refused: " + o.what);
      } else {
        seen += std::to_string(o.f(w)) + " ";
        seen += std::to_string(os.str().size()) + " ";
      }
    }
    bitio::write_uint<std::uint8_t>(&w, 0x55, 7);  // brings out what is left in the unfinished octet
    return seen + os.str();
  };
  for (const auto& o : ops) c.note((o.refused ? "refused: " : "") + o.what);
  const auto plain = go(false), with = go(true);
  if (plain != with) fail("refused writes left a trace: " + diff(plain, with));
  c.nontrivial(refused > 0 && refused < ops.size());
  c.sub_evals += 2;
  c.fingerprint(hash_bytes(plain.data(), plain.size(), refused));
  c.sample(std::to_string(refused) + " refused writes among " + std::to_string(ops.size()) + ", the first: " + ops[0].what);
}

struct Read {
  std::string what;
  bool refused = false;
  std::function<std::string(bitio::Reader&)> f;
};

void reads(Src& s, Ctx& c) {
  const Bytes data = s.bytes(1 + s.size(20, 200));
  std::uint64_t left = data.size() * 8;
  std::vector<Read> ops;
  unsigned refused = 0;
  for (std::size_t n = 1 + s.size(10, 60); n > 0; --n) {
    const unsigned phase = static_cast<unsigned>((data.size() * 8 - left) % 8);
    if (s.chance(1, 3)) {
      const unsigned k = static_cast<unsigned>(s.below(phase != 0 ? 4 : 2));
      ++refused;
      if (k == 0) {
        ops.push_back({"read_uint of no bits", true, [](bitio::Reader& r) {
          std::uint32_t v = 0;
          bitio::read_uint(&r, &v, 0);
          return std::string();
        }});
      } else if (k == 1) {
        ops.push_back({"read_int of no bits", true, [](bitio::Reader& r) {
          std::int16_t v = 0;
          bitio::read_int(&r, &v, 0);
          return std::string();
        }});
      } else if (k == 2) {
        const std::size_t z = 1 + s.below(9);
        ops.push_back({"bytes in the middle of one", true, [z](bitio::Reader& r) {
          Bytes b(z);
          r.read(&b);
          return std::string();
        }});
      } else {
        const std::uint64_t by = s.below(4);
        ops.push_back({"a relative seek in the middle of a byte", true, [by](bitio::Reader& r) {
          r.seek(by, std::ios_base::cur);
          return std::string();
        }});
      }
      continue;
    }
    if (left == 0) continue;
    if (phase == 0 && s.chance(1, 4)) {
      const std::size_t z = 1 + s.below(std::min<std::uint64_t>(left / 8, 9));
      left -= z * 8;
      ops.push_back({"bytes", false, [z](bitio::Reader& r) {
        Bytes b(z);
        r.read(&b);
        return hex(b);
      }});
      continue;
    }
    const std::uint64_t w = 1 + s.below(std::min<std::uint64_t>(left, 64));
    left -= w;
    if (s.coin()) {
      ops.push_back({"read_uint " + std::to_string(w), false, [w](bitio::Reader& r) {
        std::uint64_t v = 0;
        bitio::read_uint(&r, &v, w);
        return std::to_string(v);
      }});
    } else {
      ops.push_back({"read_int " + std::to_string(w), false, [w](bitio::Reader& r) {
        std::int64_t v = 0;
        bitio::read_int(&r, &v, w);
        return std::to_string(v);
      }});
    }
  }
  const auto go = [&](bool with) {
    std::istringstream is(lib::str(data));
    bitio::Reader r(is);
    std::string seen;
    for (const auto& o : ops) {
      if (o.refused) {
        if (with && lib::thrown([&] { o.f(r); }).empty()) fail("not refused: " + o.what);
      } else {
        seen += o.f(r) + " ";
        seen += std::to_string(is.tellg()) + "\n";
      }
    }
    return seen;
  };
  for (const auto& o : ops) c.note((o.refused ? "refused: " : "") + o.what);
  const auto plain = go(false), with = go(true);
  if (plain != with) fail("refused reads left a trace: " + diff(plain, with));
  c.nontrivial(refused > 0 && refused < ops.size());
  c.sub_evals += 2;
  c.fingerprint(hash_bytes(plain.data(), plain.size(), refused));
  c.sample(std::to_string(refused) + " refused reads among " + std::to_string(ops.size()) + ", the first: " + (ops.empty() ? "" : ops[0].what));
}

// ---- lookups --------------------------------------------------------------------------------------------------

void lookups(Src& s, Ctx& c) {
  std::vector<FourCC> types;
  for (std::size_t n = 2 + s.below(8); n > 0; --n) types.push_back(s.coin() ? s.one_of(registry()).type : tree::unregistered_type(s));
  std::vector<std::size_t> order;
  for (std::size_t n = 1 + s.below(20); n > 0; --n) order.push_back(s.below(types.size()));
  std::vector<unsigned> kinds;
  for (std::size_t i = 0; i < order.size(); ++i) kinds.push_back(static_cast<unsigned>(s.below(5)));
  const auto go = [&](bool with) {
    BoxMap m;
    shiguredo::mp4::register_box_map(&m);
    if (with) {
      for (std::size_t i = 0; i < order.size(); ++i) {
        const BoxType t(types[order[i]]);
        switch (kinds[i]) {
          case 0:
          case 1: lib::thrown([&] { m.getSupportedVersions(t); }); break;
          case 2: m.isSupportedVersion(t, static_cast<std::uint8_t>(order[i])); break;
          case 3: m.isSupported(t); break;
          default: const std::unique_ptr<Box> b(m.getBoxInstance(t));
        }
      }
    }
    std::string r;
    for (const auto& t : types) {
      const BoxType bt(t);
      r += type_text(t) + (m.isSupported(bt) ? "+" : "-");
      for (unsigned v = 0; v < 3; ++v) r += m.isSupportedVersion(bt, static_cast<std::uint8_t>(v)) ? "y" : "n";
      r += lib::thrown([&] { for (const auto v : m.getSupportedVersions(bt)) r += std::to_string(v); });
      const std::unique_ptr<Box> b(m.getBoxInstance(bt));
      r += b->getType().toString() + "\n";
    }
    return r;
  };
  const auto plain = go(false), with = go(true);
  if (plain != with) fail("asking the registry changed it: " + diff(plain, with));
  bool unknown = false;
  for (const auto i : order) {
    bool known = false;
    for (const auto& k : registry()) known = known || k.type == types[i];
    unknown = unknown || !known;
  }
  c.nontrivial(unknown);
  c.sub_evals += 2;
  c.fingerprint(hash_bytes(plain.data(), plain.size(), order.size()));
  c.sample(std::to_string(order.size()) + " questions about " + std::to_string(types.size()) + " types");
}

}  // namespace

int main(int argc, char** argv) {
  Suite suite;
  suite.property = "P26";
  suite.rule =
      "A case draws a history of valid operations and puts requests that must be refused at random places in it, runs it with and without them, and "
      "compares every value returned and every byte written; each refused request must end with an error. Histories are whole movies with either writer "
      "(refused: access units with a fault behind good parameter sets and slices, timestamps before or too far after the previous one, impossible tracks, streams that take nothing of a sample or have no position), "
      "bit-level writes and reads, and registry lookups. Non-trivial: at least one refused request among valid operations; distinct by results.";
  suite.init = lib::quiet;
  suite.groups = {
      {"movies", 16000, 400000, movies},
      {"writes", 20000, 600000, writes},
      {"reads", 20000, 600000, reads},
      {"lookups", 1000, 20000, lookups},
  };
  return run_main(argc, argv, suite);
}
