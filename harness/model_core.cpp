#include "model_util.hpp"

#include <algorithm>
#include <cstdio>
#include <set>
#include <stdexcept>

namespace model {

FourCC fourcc(const char* s) {
  return FourCC{static_cast<std::uint8_t>(s[0]), static_cast<std::uint8_t>(s[1]), static_cast<std::uint8_t>(s[2]),
                static_cast<std::uint8_t>(s[3])};
}

std::string type_text(const FourCC& t) {
  for (auto c : t) {
    if (!((c >= 0x20 && c <= 0x7e) || c == 0xa9)) {
      return "0x" + H2(t[0]) + H2(t[1]) + H2(t[2]) + H2(t[3]);
    }
  }
  std::string s;
  for (auto c : t) {
    if (c == 0xa9) {
      s += "\xc2\xa9";
    } else {
      s += static_cast<char>(c);
    }
  }
  return s;
}

void Wire::u(std::uint64_t v, unsigned bits) {
  if (nbits == 0 && bits % 8 == 0) {
    for (unsigned i = bits; i > 0; i -= 8) b.push_back(static_cast<std::uint8_t>(v >> (i - 8)));
    return;
  }
  for (unsigned i = bits; i > 0; --i) {
    if (nbits == 0) b.push_back(0);
    if ((v >> (i - 1)) & 1) b.back() = static_cast<std::uint8_t>(b.back() | (0x80u >> nbits));
    nbits = (nbits + 1) % 8;
  }
}
void Wire::raw(const Bytes& x) { b.insert(b.end(), x.begin(), x.end()); }
void Wire::raw(const FourCC& x) { b.insert(b.end(), x.begin(), x.end()); }
void Wire::chars(const std::string& s) { b.insert(b.end(), s.begin(), s.end()); }
void Wire::cstr(const std::string& s) {
  chars(s);
  b.push_back(0);
}
void Wire::full(std::uint8_t version, std::uint32_t flags) {
  u8(version);
  u24(flags);
}

bool Sample::prefix_must_fail(std::size_t n) const {
  if (n >= wire.size()) return false;
  for (const auto& [a, b] : lenient_prefix) {
    if (n >= a && n <= b) return false;
  }
  return true;
}

std::string fixed4(double v) {
  char buf[64];
  std::snprintf(buf, sizeof buf, "%.4f", v);
  return buf;
}

// proleptic Gregorian calendar from a day count (independent of libc's calendar)
std::string time_text(std::uint64_t t) {
  const std::uint64_t epoch = 2082844800ULL;
  if (t > epoch + 0xffffffffULL) return "0000-00-00T00:00:00Z";
  const std::uint64_t days = t / 86400;
  const std::uint64_t rem = t % 86400;
  unsigned year = 1904;
  std::uint64_t d = days;
  auto leap = [](unsigned y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; };
  while (d >= (leap(year) ? 366u : 365u)) {
    d -= leap(year) ? 366 : 365;
    ++year;
  }
  static const unsigned len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  unsigned month = 0;
  for (;; ++month) {
    const unsigned l = len[month] + (month == 1 && leap(year) ? 1 : 0);
    if (d < l) break;
    d -= l;
  }
  char buf[64];
  std::snprintf(buf, sizeof buf, "%04u-%02u-%02uT%02u:%02u:%02uZ", year, month + 1, static_cast<unsigned>(d) + 1,
                static_cast<unsigned>(rem / 3600), static_cast<unsigned>(rem / 60 % 60),
                static_cast<unsigned>(rem % 60));
  return buf;
}

bool avc_high_profile(std::uint8_t p) {
  switch (p) {
    case 0x56: case 0x64: case 0x6e: case 0x76: case 0x7a: case 0x80: case 0x8a: case 0x90: case 0xf4:
      return true;
    default:
      return false;
  }
}

void add_basic(std::vector<Kind>&);
void add_tables(std::vector<Kind>&);
void add_codec(std::vector<Kind>&);

const std::vector<Kind>& kinds() {
  static const std::vector<Kind> k = [] {
    std::vector<Kind> v;
    add_basic(v);
    add_tables(v);
    add_codec(v);
    return v;
  }();
  return k;
}

const Kind& kind(const std::string& name) {
  for (const auto& k : kinds()) {
    if (k.name == name) return k;
  }
  throw std::logic_error("model: no kind " + name);
}

const Kind& pick_kind(Src& s) {
  // kinds of many forms come more often: by the number of variants among a hundred samples, up to eight times
  static const std::vector<std::size_t> slots = [] {
    std::vector<std::size_t> v;
    for (std::size_t k = 0; k < kinds().size(); ++k) {
      std::set<std::string> forms;
      for (std::uint64_t seed = 0; seed < 100; ++seed) {
        Src p(pbt::mix(seed, k + 1000));
        forms.insert(kinds()[k].gen(p, (seed & 1) != 0).variant);
      }
      v.insert(v.end(), std::clamp<std::size_t>(forms.size() / 2, 1, 8), k);
    }
    return v;
  }();
  return kinds()[slots[s.below(slots.size())]];
}

Wide& wide() {
  static Wide w;
  return w;
}

Sample wide_sample(Src& s, bool foreign) {
  struct Target {
    std::size_t kind;
    std::size_t sized_calls;
  };
  // which kinds have something sized, by a look at a few dozen samples of each
  static const std::vector<Target> targets = [] {
    std::vector<Target> v;
    for (std::size_t k = 0; k < kinds().size(); ++k) {
      std::size_t most = 0;
      for (std::uint64_t seed = 0; seed < 40; ++seed) {
        Src p(pbt::mix(seed, k));
        wide() = {.on = true, .at = ~std::size_t{0}};
        kinds()[k].gen(p, (seed & 1) != 0);
        most = std::max(most, wide().seen);
      }
      wide() = {};
      if (most > 0) v.push_back({k, most});
    }
    return v;
  }();
  const auto& t = targets[s.below(targets.size())];
  static constexpr std::size_t around[] = {128, 256, 16384, 32768, 65536};
  std::size_t n = around[s.below(5)] + 2 - s.below(5);
  if (s.chance(1, 12)) n = 70000 + s.below(40000);
  struct Reset {
    ~Reset() { wide() = {}; }
  } reset;
  wide() = {.on = true, .at = s.below(std::min<std::size_t>(t.sized_calls, 5)), .n = n};
  return kinds()[t.kind].gen(s, foreign);
}

const std::vector<RegEntry>& registry() {
  static const std::vector<RegEntry> r = [] {
    std::vector<RegEntry> v;
    auto add = [&](const char* t, const char* kind, std::vector<std::uint8_t> ver) {
      v.push_back({fourcc(t), kind, std::move(ver)});
    };
    for (const char* t : {"btrt", "colr", "data", "dOps", "fiel", "free", "ftyp", "mdat", "skip", "styp", "av1C"})
      add(t, t, {});
    for (const char* t : {"dinf", "edts", "ilst", "mdia", "mfra", "minf", "moof", "moov", "mvex", "schi", "sinf",
                          "stbl", "traf", "trak", "udta"})
      add(t, t, {});
    add("stco", "stco", {});
    for (const char* t : {"co64", "dref", "esds", "hdlr", "iods", "meta", "mfhd", "mfro", "sdtp", "smhd", "stsc",
                          "stsd", "stss", "stsz", "stts", "tfhd", "trex", "vmhd", "url ", "urn ", "wave", "avcC",
                          "pasp"})
      add(t, t, {0});
    for (const char* t : {"ctts", "elst", "emsg", "mdhd", "mehd", "mvhd", "pssh", "sbgp", "sidx", "tfdt", "tfra",
                          "tkhd", "trun"})
      add(t, t, {0, 1});
    add("sgpd", "sgpd", {1, 2});
    add("vpcC", "vpcC", {0, 1});
    for (const char* t : {"avc1", "encv", "vp08", "vp09", "vp10", "av01"}) add(t, "visual", {0});
    for (const char* t : {"mp4a", "enca", "Opus"}) add(t, "audio", {0});
    for (const char* t : {"----", "aART", "akID", "apID", "atID", "cmID", "cnID", "covr", "cpil", "cprt", "desc",
                          "disk", "egid", "geID", "gnre", "pcst", "pgap", "plID", "purd", "purl", "rtng", "sfID",
                          "soaa", "soal", "soar", "soco", "sonm", "sosn", "stik", "tmpo", "trkn", "tven", "tves",
                          "tvnn", "tvsh", "tvsn", "\251ART", "\251alb", "\251cmt", "\251com", "\251day", "\251gen",
                          "\251grp", "\251nam", "\251too", "\251wrt"})
      add(t, "ilstitem", {});
    return v;
  }();
  return r;
}

}  // namespace model
