#include "model_util.hpp"
#include "shiguredo/mp4/box/boxes.hpp"
#include "shiguredo/mp4/grouping_type.hpp"

namespace model {
namespace {
namespace bx = shiguredo::mp4::box;
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

u64 vw(Src& s, const Sample& x) { return s.bits(x.version == 0 ? 32 : 64); }
unsigned vb(const Sample& x) { return x.version == 0 ? 32 : 64; }

std::string quoted_hex(const std::array<u8, 16>& a) {
  std::string s;
  for (auto c : a) s += H2(c);
  return s;
}
std::array<u8, 16> id16(Src& s) {
  std::array<u8, 16> a{};
  const Bytes b = s.bytes(16);
  for (std::size_t i = 0; i < 16; ++i) a[i] = b[i];
  return a;
}

template <class T>
void size_variant(Sample& x, const T& c) {
  x.variant += c.empty() ? " empty" : c.size() > 100 ? " long" : "";
}

}  // namespace

void add_tables(std::vector<Kind>& k) {
  k.push_back({"co64", [](Src& s, bool) {
                 Sample x = start_full<bx::Co64>(s, "co64", "co64", {0});
                 std::vector<u64> c(count(s));
                 for (auto& v : c) v = s.bits(64);
                 Wire w;
                 w.full(x.version, x.flags);
                 w.u32(c.size());
                 for (auto v : c) w.u64(v);
                 x.wire = w.b;
                 x.interesting = !c.empty();
                 size_variant(x, c);
                 x.text = VF(x.version, x.flags) + " EntryCount=" + U(c.size()) + " ChunkOffsets=" + HexList(c);
                 x.make = [=, v = x.version, f = x.flags] {
                   return std::make_unique<bx::Co64>(bx::Co64Parameters{.version = v, .flags = f, .chunk_offsets = c});
                 };
                 return x;
               }});

  k.push_back({"stco", [](Src& s, bool) {
                 // no version is named for stco: any is accepted and the layout does not depend on it
                 Sample x = start_full<bx::Stco>(s, "stco", "stco", {0, 0, 0, 1});
                 std::vector<u32> c(count(s));
                 for (auto& v : c) v = static_cast<u32>(s.bits(32));
                 Wire w;
                 w.full(x.version, x.flags);
                 w.u32(c.size());
                 for (auto v : c) w.u32(v);
                 x.wire = w.b;
                 x.interesting = !c.empty();
                 size_variant(x, c);
                 x.text = VF(x.version, x.flags) + " EntryCount=" + U(c.size()) + " ChunkOffsets=" + HexList(c);
                 x.make = [=, v = x.version, f = x.flags] {
                   return std::make_unique<bx::Stco>(bx::StcoParameters{.version = v, .flags = f, .chunk_offsets = c});
                 };
                 return x;
               }});

  k.push_back({"stss", [](Src& s, bool) {
                 Sample x = start_full<bx::Stss>(s, "stss", "stss", {0});
                 std::vector<u32> c(count(s));
                 for (auto& v : c) v = static_cast<u32>(s.bits(32));
                 Wire w;
                 w.full(x.version, x.flags);
                 w.u32(c.size());
                 for (auto v : c) w.u32(v);
                 x.wire = w.b;
                 x.interesting = !c.empty();
                 size_variant(x, c);
                 x.text = VF(x.version, x.flags) + " EntryCount=" + U(c.size()) + " SampleNumbers=" + DecList(c);
                 x.make = [=, v = x.version, f = x.flags] {
                   return std::make_unique<bx::Stss>(bx::StssParmeters{.version = v, .flags = f, .sample_numbers = c});
                 };
                 return x;
               }});

  k.push_back({"stsz", [](Src& s, bool foreign) {
                 Sample x = start_full<bx::Stsz>(s, "stsz", "stsz", {0});
                 const bool fixed = s.chance(1, 3);
                 const u32 fsize = fixed ? static_cast<u32>(1 + s.upto(0xfffffffe)) : 0;
                 Wire w;
                 w.full(x.version, x.flags);
                 w.u32(fsize);
                 if (fixed) {
                   // every sample has the same size; only their number is stored
                   const u32 n = foreign ? static_cast<u32>(s.bits(32)) : static_cast<u32>(count(s));
                   w.u32(n);
                   x.wire = w.b;
                   x.interesting = n != 0;
                   x.variant += " fixed";
                   x.text = VF(x.version, x.flags) + " SampleSize=" + U(fsize) + " SampleCount=" + U(n) + " EntrySizes=[]";
                   // the parameters state the number of samples only through the length of entry_sizes
                   if (!foreign) {
                     x.make = [=, v = x.version, f = x.flags] {
                       return std::make_unique<bx::Stsz>(bx::StszParameters{.version = v,
                                                                            .flags = f,
                                                                            .sample_size = fsize,
                                                                            .entry_sizes = std::vector<u32>(n, fsize)});
                     };
                   }
                   return x;
                 }
                 std::vector<u32> c(count(s));
                 for (auto& v : c) v = static_cast<u32>(s.bits(32));
                 w.u32(c.size());
                 for (auto v : c) w.u32(v);
                 x.wire = w.b;
                 x.interesting = !c.empty();
                 size_variant(x, c);
                 x.text = VF(x.version, x.flags) + " SampleSize=0 SampleCount=" + U(c.size()) + " EntrySizes=" + DecList(c);
                 x.make = [=, v = x.version, f = x.flags] {
                   return std::make_unique<bx::Stsz>(
                       bx::StszParameters{.version = v, .flags = f, .sample_size = 0, .entry_sizes = c});
                 };
                 return x;
               }});

  k.push_back({"stts", [](Src& s, bool) {
                 Sample x = start_full<bx::Stts>(s, "stts", "stts", {0});
                 std::vector<std::pair<u32, u32>> c(count(s));
                 for (auto& v : c) v = {static_cast<u32>(s.bits(32)), static_cast<u32>(s.bits(32))};
                 Wire w;
                 w.full(x.version, x.flags);
                 w.u32(c.size());
                 for (auto& v : c) {
                   w.u32(v.first);
                   w.u32(v.second);
                 }
                 x.wire = w.b;
                 x.interesting = !c.empty();
                 size_variant(x, c);
                 x.text = VF(x.version, x.flags) + " EntryCount=" + U(c.size()) + " Entries=[" +
                          L(c, [](const auto& e) {
                            return "{SampleCount=" + U(e.first) + " SampleDuration=" + U(e.second) + "}";
                          }) + "]";
                 x.make = [=, v = x.version, f = x.flags] {
                   std::vector<bx::SttsEntry> es;
                   for (const auto& e : c) {
                     es.push_back(bx::SttsEntry({.sample_count = e.first, .sample_duration = e.second}));
                   }
                   return std::make_unique<bx::Stts>(bx::SttsParameters{.version = v, .flags = f, .entries = es});
                 };
                 return x;
               }});

  k.push_back({"stsc", [](Src& s, bool) {
                 Sample x = start_full<bx::Stsc>(s, "stsc", "stsc", {0});
                 std::vector<std::array<u32, 3>> c(count(s));
                 for (auto& e : c) {
                   for (auto& v : e) v = static_cast<u32>(s.bits(32));
                 }
                 Wire w;
                 w.full(x.version, x.flags);
                 w.u32(c.size());
                 for (auto& e : c) {
                   for (auto v : e) w.u32(v);
                 }
                 x.wire = w.b;
                 x.interesting = !c.empty();
                 size_variant(x, c);
                 x.text = VF(x.version, x.flags) + " EntryCount=" + U(c.size()) + " Entries=[" +
                          L(c, [](const auto& e) {
                            return "{FirstChunk=" + U(e[0]) + " SamplesPerChunk=" + U(e[1]) +
                                   " SampleDescriptionIndex=" + U(e[2]) + "}";
                          }) + "]";
                 x.make = [=, v = x.version, f = x.flags] {
                   std::vector<bx::StscEntry> es;
                   for (const auto& e : c) {
                     es.push_back(bx::StscEntry(
                         {.first_chunk = e[0], .samples_per_chunk = e[1], .sample_description_index = e[2]}));
                   }
                   return std::make_unique<bx::Stsc>(bx::StscParameters{.version = v, .flags = f, .entries = es});
                 };
                 return x;
               }});

  k.push_back({"ctts", [](Src& s, bool) {
                 Sample x = start_full<bx::Ctts>(s, "ctts", "ctts", {0, 1});
                 std::vector<std::pair<u32, std::int64_t>> c(count(s));
                 for (auto& v : c) {
                   v.first = static_cast<u32>(s.bits(32));
                   v.second = x.version == 0 ? static_cast<std::int64_t>(s.bits(32)) : s.sbits(32);
                 }
                 Wire w;
                 w.full(x.version, x.flags);
                 w.u32(c.size());
                 for (auto& v : c) {
                   w.u32(v.first);
                   w.u32(static_cast<u32>(v.second));
                 }
                 x.wire = w.b;
                 x.interesting = !c.empty();
                 size_variant(x, c);
                 x.text = VF(x.version, x.flags) + " EntryCount=" + U(c.size()) + " Entries=[" +
                          L(c, [](const auto& e) {
                            return "{SampleCount=" + U(e.first) + " SampleOffset=" + D(e.second) + "}";
                          }) + "]";
                 x.make = [=, v = x.version, f = x.flags] {
                   std::vector<bx::CttsEntry> es;
                   for (const auto& e : c) es.push_back(bx::CttsEntry(e.first, e.second));
                   return std::make_unique<bx::Ctts>(bx::CttsParameters{.version = v, .flags = f, .entries = es});
                 };
                 return x;
               }});

  k.push_back({"elst", [](Src& s, bool) {
                 Sample x = start_full<bx::Elst>(s, "elst", "elst", {0, 1});
                 struct E {
                   u64 dur;
                   std::int64_t time;
                   std::int32_t rate;
                 };
                 std::vector<E> c(count(s));
                 for (auto& e : c) {
                   e.dur = vw(s, x);
                   e.time = s.sbits(vb(x));
                   e.rate = s.coin() ? (1 << 16) : static_cast<std::int32_t>(s.sbits(32));
                 }
                 Wire w;
                 w.full(x.version, x.flags);
                 w.u32(c.size());
                 for (auto& e : c) {
                   w.u(e.dur, vb(x));
                   w.u(static_cast<u64>(e.time), vb(x));
                   w.u32(static_cast<u32>(e.rate));
                 }
                 x.wire = w.b;
                 x.interesting = !c.empty();
                 size_variant(x, c);
                 x.text = VF(x.version, x.flags) + " EntryCount=" + U(c.size()) + " Entries=[" +
                          L(c, [](const auto& e) {
                            return "{TrackDuration=" + U(e.dur) + " MediaTime=" + D(e.time) +
                                   " MediaRate=" + fixed4(e.rate / 65536.0) + "}";
                          }) + "]";
                 x.make = [=, v = x.version, f = x.flags] {
                   std::vector<bx::ElstEntry> es;
                   for (const auto& e : c) {
                     es.push_back(
                         bx::ElstEntry({.track_duration = e.dur, .media_time = e.time, .media_rate = e.rate}));
                   }
                   return std::make_unique<bx::Elst>(bx::ElstParameters{.version = v, .flags = f, .entries = es});
                 };
                 return x;
               }});

  k.push_back({"pssh", [](Src& s, bool) {
                 Sample x = start_full<bx::Pssh>(s, "pssh", "pssh", {0, 1});
                 const auto id = id16(s);
                 std::vector<std::array<u8, 16>> kids(x.version != 0 ? count(s) : s.coin() ? s.below(3) : 0);  // version 0 leaves them out
                 for (auto& a : kids) a = id16(s);
                 const Bytes d = blob(s);
                 Wire w;
                 w.full(x.version, x.flags);
                 w.raw(Bytes(id.begin(), id.end()));
                 x.text = VF(x.version, x.flags) + " SystemID=\"" + quoted_hex(id) + "\"";
                 if (x.version != 0) {
                   w.u32(kids.size());
                   for (auto& a : kids) w.raw(Bytes(a.begin(), a.end()));
                   x.text += " KIDCount=" + U(kids.size()) + " KIDs=[" +
                             L(kids, [](const auto& a) { return "\"" + quoted_hex(a) + "\""; }, " ") + "]";
                 }
                 w.u32(d.size());
                 w.raw(d);
                 x.text += " DataSize=" + U(d.size()) + " Data=" + HexList(d);
                 x.wire = w.b;
                 x.interesting = !d.empty() || !kids.empty();
                 x.make = [=, v = x.version, f = x.flags] {
                   std::vector<bx::PsshKID> ks;
                   for (const auto& a : kids) ks.push_back(bx::PsshKID({.kid = a}));
                   return std::make_unique<bx::Pssh>(
                       bx::PsshParameters{.version = v, .flags = f, .system_id = id, .kids = ks, .data = d});
                 };
                 return x;
               }});

  k.push_back({"sbgp", [](Src& s, bool) {
                 Sample x = start_full<bx::Sbgp>(s, "sbgp", "sbgp", {0, 1});
                 const FourCC g = s.coin() ? fourcc("roll") : four(s);
                 const u32 gp = x.version == 0 ? 0 : static_cast<u32>(s.bits(32));
                 std::vector<std::pair<u32, u32>> c(count(s));
                 for (auto& v : c) v = {static_cast<u32>(s.bits(32)), static_cast<u32>(s.bits(32))};
                 Wire w;
                 w.full(x.version, x.flags);
                 w.raw(g);
                 x.text = VF(x.version, x.flags) + " GroupingType=\"" + S(g) + "\"";
                 if (x.version != 0) {
                   w.u32(gp);
                   x.text += " GroupingTypeParameter=" + U(gp);
                 }
                 w.u32(c.size());
                 for (auto& v : c) {
                   w.u32(v.first);
                   w.u32(v.second);
                 }
                 x.wire = w.b;
                 x.interesting = !c.empty();
                 size_variant(x, c);
                 x.text += " EntryCount=" + U(c.size()) + " Entries=[" + L(c, [](const auto& e) {
                             return "{SampleCount=" + U(e.first) + " GroupDescriptionIndex=" + U(e.second) + "}";
                           }) + "]";
                 x.make = [=, v = x.version, f = x.flags] {
                   std::vector<bx::SbgpEntry> es;
                   for (const auto& e : c) {
                     es.push_back(bx::SbgpEntry({.sample_count = e.first, .group_description_index = e.second}));
                   }
                   return std::make_unique<bx::Sbgp>(bx::SbgpParameters{.version = v,
                                                                        .flags = f,
                                                                        .grouping_type = g,
                                                                        .grouping_type_parameter = gp,
                                                                        .entries = es});
                 };
                 return x;
               }});

  k.push_back({"sdtp", [](Src& s, bool foreign) {
                 Sample x = start_full<bx::Sdtp>(s, "sdtp", "sdtp", {0, 0});
                 if (!foreign) x.flags = 0;  // the parameters carry no flags; a caller sets them on the box
                 std::vector<u8> c(count(s));
                 for (auto& v : c) v = static_cast<u8>(s.bits(8));
                 Wire w;
                 w.full(x.version, x.flags);
                 for (auto v : c) w.u8(v);
                 x.wire = w.b;
                 x.greedy = true;
                 x.interesting = !c.empty();
                 size_variant(x, c);
                 x.lenient_prefix = {{4, w.b.size()}};
                 x.text = VF(x.version, x.flags) + " Samples=[" + L(c, [](u8 v) {
                            return "{IsLeading=" + H(v >> 6) + " SampleDependsOn=" + H((v >> 4) & 3) +
                                   " SampleIsDependedOn=" + H((v >> 2) & 3) + " SampleHasRedundancy=" + H(v & 3) + "}";
                          }) + "]";
                 x.make = [c, f = x.flags] {
                   std::vector<bx::SdtpSample> es;
                   for (auto v : c) {
                     es.push_back(bx::SdtpSample({.is_leading = static_cast<u8>(v >> 6),
                                                  .sample_depends_on = static_cast<u8>((v >> 4) & 3),
                                                  .sample_is_depended_on = static_cast<u8>((v >> 2) & 3),
                                                  .sample_has_redundancy = static_cast<u8>(v & 3)}));
                   }
                   auto p = std::make_unique<bx::Sdtp>(bx::SdtpParameters{.samples = es});
                   if (f != 0) p->setFlags(f);
                   return p;
                 };
                 return x;
               }});

  k.push_back({"sgpd", [](Src& s, bool foreign) {
                 Sample x = start_full<bx::Sgpd>(s, "sgpd", "sgpd", {1, 2});
                 if (foreign && s.chance(1, 5)) {  // a grouping type this library does not know: described, then passed over
                   FourCC t = four(s);
                   if (s.coin()) t = fourcc(s.pick<const char*>({"rap\n", "seig", "sync", "tsas", "rolL", "alsT", "tscl"}));
                   for (const char* n : {"roll", "prol", "rap ", "tele", "alst"}) {
                     if (t == fourcc(n)) t[0] = 'x';
                   }
                   const u32 v = static_cast<u32>(s.bits(32));
                   Wire w;
                   w.full(x.version, x.flags);
                   w.raw(t);
                   w.u32(v);
                   const std::size_t fixed = w.b.size();
                   w.raw(s.bytes(s.size(8, 100)));
                   x.wire = w.b;
                   x.variant += " unknown";
                   x.greedy = true;
                   x.interesting = true;
                   x.reencodable = false;
                   x.lenient_prefix = {{fixed, w.b.size()}};
                   x.text = VF(x.version, x.flags) + " GroupingType=\"" + S(t) + "\" " +
                            (x.version == 1 ? "DefaultLength=" : "DefaultSampleDescriptionIndex=") + U(v);
                   return x;
                 }
                 const int g = static_cast<int>(s.below(x.version == 1 ? 5 : 4));  // alst is undelimited in version 2
                 static const char* names[] = {"roll", "prol", "rap ", "tele", "alst"};
                 const FourCC type = fourcc(names[g]);
                 const bool explicit_len = x.version == 1 && s.coin();
                 const bool show_len = explicit_len;
                 x.variant += std::string(" ") + names[g] + (explicit_len ? "L" : "");
                 struct Opt {
                   u16 a, b;
                 };
                 struct E {
                   std::int16_t roll = 0;
                   u16 first = 0;
                   std::vector<u32> offsets;
                   std::vector<Opt> opts;
                   u8 b = 0;
                   u32 len = 0;
                 };
                 std::vector<E> c(count(s));
                 const std::size_t n_off = s.size(2, 8), n_opt = s.size(2, 8);
                 u32 def_len = 0;
                 for (auto& e : c) {
                   switch (g) {
                     case 0:
                     case 1:
                       e.roll = static_cast<std::int16_t>(s.sbits(16));
                       e.len = 2;
                       break;
                     case 2:
                       e.b = static_cast<u8>(s.bits(8));
                       e.len = 1;
                       break;
                     case 3:
                       e.b = s.coin() ? 0x80 : 0;
                       e.len = 1;
                       break;
                     default: {
                       e.first = static_cast<u16>(s.bits(16));
                       std::size_t no = explicit_len ? std::min<std::size_t>(sized(s, 2, 8), 65535) : n_off;
                       std::size_t np = explicit_len ? sized(s, 2, 8) : n_opt;
                       if (!explicit_len) {  // same total, different split
                         const std::size_t t = n_off + n_opt;
                         no = s.below(t + 1);
                         np = t - no;
                       }
                       e.offsets.resize(no);
                       for (auto& v : e.offsets) v = static_cast<u32>(s.bits(32));
                       e.opts.resize(np);
                       for (auto& o : e.opts) o = {static_cast<u16>(s.bits(16)), static_cast<u16>(s.bits(16))};
                       e.len = static_cast<u32>(4 + 4 * no + 4 * np);
                     }
                   }
                 }
                 if (x.version == 1 && !explicit_len) {
                   def_len = g <= 1 ? 2 : g <= 3 ? 1 : static_cast<u32>(4 + 4 * (n_off + n_opt));
                 }
                 const u32 def_index = x.version == 1 ? 0 : static_cast<u32>(s.bits(32));
                 // lengths that are not those of the entries: they say nothing about a fixed layout
                 bool makeable = true;
                 if (foreign && x.version == 1 && g < 4 && s.chance(1, 4)) {
                   x.variant += " odd";
                   if (explicit_len) {
                     for (auto& e : c) {
                       e.len = s.coin() ? static_cast<u32>(s.below(4)) : static_cast<u32>(s.bits(32));
                       if (e.len == 0) makeable = false;
                     }
                   } else {
                     def_len = std::max<u32>(1, static_cast<u32>(s.bits(32)));
                   }
                 }
                 Wire w;
                 w.full(x.version, x.flags);
                 w.raw(type);
                 w.u32(x.version == 1 ? def_len : def_index);
                 w.u32(c.size());
                 for (auto& e : c) {
                   if (explicit_len) w.u32(e.len);
                   switch (g) {
                     case 0:
                     case 1:
                       w.u16(static_cast<u16>(e.roll));
                       break;
                     case 2:
                     case 3:
                       w.u8(e.b);
                       break;
                     default:
                       w.u16(e.offsets.size());
                       w.u16(e.first);
                       for (auto v : e.offsets) w.u32(v);
                       for (auto& o : e.opts) {
                         w.u16(o.a);
                         w.u16(o.b);
                       }
                   }
                 }
                 x.wire = w.b;
                 x.interesting = !c.empty();
                 static const char* lists[] = {"RollDistances", "RollDistances", "VisualRandomAccessEntries",
                                               "TemporalLevelEntries", "AlternativeStartupEntries"};
                 x.text = VF(x.version, x.flags) + " GroupingType=\"" + S(type) + "\"" +
                          (x.version == 1 ? " DefaultLength=" + U(def_len)
                                          : " DefaultSampleDescriptionIndex=" + U(def_index)) +
                          " EntryCount=" + U(c.size()) + " " + lists[g] + (show_len ? "L" : "") + "=[" +
                          L(c,
                            [&](const E& e) -> std::string {
                              const std::string pre = explicit_len ? "DescriptionLength=" + U(e.len) + " " : "";
                              if (g <= 1) return explicit_len ? "{" + pre + "RollDistance=" + D(e.roll) + "}" : D(e.roll);
                              if (g == 2)
                                return "{" + pre + "NumLeadingSamplesKnown=" + Bo(e.b & 0x80) +
                                       " NumLeadingSamples=" + H(e.b & 0x7f) + "}";
                              if (g == 3) return "{" + pre + "LevelIndependentlyRecodable=" + Bo(e.b & 0x80) + "}";
                              return "{" + pre + "RollCount=" + U(e.offsets.size()) + " FirstOutputSample=" + U(e.first) +
                                     " SampleOffset=" + DecList(e.offsets) + " Opts=[" + L(e.opts, [](const Opt& o) {
                                       return "{NumOutputSamples=" + U(o.a) + " NumTotalSamples=" + U(o.b) + "}";
                                     }) + "]}";
                            }) +
                          "]";
                 x.make = [=, v = x.version, f = x.flags] {
                   std::vector<bx::RollDistance> r;
                   std::vector<bx::AlternativeStartupEntry> a;
                   std::vector<bx::VisualRandomAccessEntry> ra;
                   std::vector<bx::TemporalLevelEntry> t;
                   for (const auto& e : c) {
                     const u32 len = explicit_len ? e.len : 0;
                     switch (g) {
                       case 0:
                       case 1:
                         r.push_back(bx::RollDistance({.description_length = len, .roll_distance = e.roll}));
                         break;
                       case 2:
                         ra.push_back(bx::VisualRandomAccessEntry({.description_length = len,
                                                                   .num_leading_samples_known = (e.b & 0x80) != 0,
                                                                   .num_leading_samples = static_cast<u8>(e.b & 0x7f)}));
                         break;
                       case 3:
                         t.push_back(bx::TemporalLevelEntry(
                             {.description_length = len, .level_independently_decodable = e.b != 0}));
                         break;
                       default: {
                         std::vector<bx::AlternativeStartupEntryOpt> os;
                         for (const auto& o : e.opts) {
                           os.push_back(bx::AlternativeStartupEntryOpt(
                               {.num_output_samples = o.a, .num_total_samples = o.b}));
                         }
                         a.push_back(bx::AlternativeStartupEntry({.description_length = len,
                                                                  .roll_count = static_cast<u16>(e.offsets.size()),
                                                                  .first_output_sample = e.first,
                                                                  .sample_offsets = e.offsets,
                                                                  .opts = os}));
                       }
                     }
                   }
                   return std::make_unique<bx::Sgpd>(
                       bx::SgpdParameters{.version = v,
                                          .flags = f,
                                          .grouping_type = type,
                                          .default_length = def_len,
                                          .default_sample_description_index = def_index,
                                          .roll_distances = r,
                                          .alternative_startup_entries = a,
                                          .visual_random_access_entries = ra,
                                          .temporal_level_entries = t});
                 };
                 if (!makeable) x.make = nullptr;
                 return x;
               }});

  k.push_back({"sidx", [](Src& s, bool) {
                 Sample x = start_full<bx::Sidx>(s, "sidx", "sidx", {0, 1});
                 const u32 id = static_cast<u32>(s.bits(32)), ts = static_cast<u32>(s.bits(32));
                 const u64 ept = vw(s, x), fo = vw(s, x);
                 struct E {
                   bool type;
                   u32 size, dur;
                   bool sap;
                   u8 sap_type;
                   u32 delta;
                 };
                 std::vector<E> c(s.chance(1, 400) ? 65535 - s.below(3) : std::min<std::size_t>(count(s), 65535));
                 for (auto& e : c) {
                   e.type = s.coin();
                   e.size = static_cast<u32>(s.bits(31));
                   e.dur = static_cast<u32>(s.bits(32));
                   e.sap = s.coin();
                   e.sap_type = static_cast<u8>(s.bits(3));
                   e.delta = static_cast<u32>(s.bits(28));
                 }
                 Wire w;
                 w.full(x.version, x.flags);
                 w.u32(id);
                 w.u32(ts);
                 w.u(ept, vb(x));
                 w.u(fo, vb(x));
                 w.u16(0);
                 w.u16(c.size());
                 for (auto& e : c) {
                   w.u32((static_cast<u32>(e.type) << 31) | e.size);
                   w.u32(e.dur);
                   w.u32((static_cast<u32>(e.sap) << 31) | (static_cast<u32>(e.sap_type) << 28) | e.delta);
                 }
                 x.wire = w.b;
                 x.interesting = !c.empty();
                 size_variant(x, c);
                 x.text = VF(x.version, x.flags) + " ReferenceID=" + U(id) + " Timescale=" + U(ts) +
                          " EarliestPresentationTime=" + U(ept) + " FirstOffset=" + U(fo) +
                          " ReferenceCount=" + U(c.size()) + " References=[" + L(c, [](const E& e) {
                            return "{ReferenceType=" + Bo(e.type) + " ReferencedSize=" + U(e.size) +
                                   " SubsegmentDuration=" + U(e.dur) + " StartsWithSAP=" + Bo(e.sap) +
                                   " SAPType=" + U(e.sap_type) + " SAPDeltaTime=" + U(e.delta) + "}";
                          }) + "]";
                 x.make = [=, v = x.version, f = x.flags] {
                   std::vector<bx::SidxReference> es;
                   es.reserve(c.size());
                   for (const auto& e : c) {
                     es.push_back(bx::SidxReference({.reference_type = e.type,
                                                     .reference_size = e.size,
                                                     .subsegument_duration = e.dur,
                                                     .starts_with_sap = e.sap,
                                                     .sap_type = e.sap_type,
                                                     .sap_delta_time = e.delta}));
                   }
                   return std::make_unique<bx::Sidx>(bx::SidxParameters{.version = v,
                                                                        .flags = f,
                                                                        .reference_id = id,
                                                                        .timescale = ts,
                                                                        .earliest_presentation_time = ept,
                                                                        .first_offset = fo,
                                                                        .references = es});
                 };
                 return x;
               }});

  k.push_back({"tfra", [](Src& s, bool) {
                 Sample x = start_full<bx::Tfra>(s, "tfra", "tfra", {0, 1});
                 const u32 id = static_cast<u32>(s.bits(32));
                 std::array<u8, 3> len;
                 for (auto& l : len) l = static_cast<u8>(s.below(4));
                 struct E {
                   u64 time, off;
                   std::array<u32, 3> n;
                 };
                 std::vector<E> c(count(s));
                 for (auto& e : c) {
                   e.time = vw(s, x);
                   e.off = vw(s, x);
                   for (std::size_t i = 0; i < 3; ++i) e.n[i] = static_cast<u32>(s.bits((len[i] + 1u) * 8));
                 }
                 Wire w;
                 w.full(x.version, x.flags);
                 w.u32(id);
                 w.u32((len[0] << 4) | (len[1] << 2) | len[2]);
                 w.u32(c.size());
                 for (auto& e : c) {
                   w.u(e.time, vb(x));
                   w.u(e.off, vb(x));
                   for (std::size_t i = 0; i < 3; ++i) w.u(e.n[i], (len[i] + 1u) * 8);
                 }
                 x.wire = w.b;
                 x.interesting = !c.empty();
                 size_variant(x, c);
                 x.text = VF(x.version, x.flags) + " TrackID=" + U(id) + " LengthSizeOfTrafNum=" + H(len[0]) +
                          " LengthSizeOfTrunNum=" + H(len[1]) + " LengthSizeOfSampleNum=" + H(len[2]) +
                          " NumberOfEntry=" + U(c.size()) + " Entries=[" + L(c, [](const E& e) {
                            return "{Time=" + U(e.time) + " MoofOffset=" + U(e.off) + " TrafNumber=" + U(e.n[0]) +
                                   " TrunNumber=" + U(e.n[1]) + " SampleNumber=" + U(e.n[2]) + "}";
                          }) + "]";
                 x.make = [=, v = x.version, f = x.flags] {
                   std::vector<bx::TfraEntry> es;
                   for (const auto& e : c) {
                     es.push_back(bx::TfraEntry({.time = e.time,
                                                 .moof_offset = e.off,
                                                 .traf_number = e.n[0],
                                                 .trun_number = e.n[1],
                                                 .sample_number = e.n[2]}));
                   }
                   return std::make_unique<bx::Tfra>(bx::TfraParameters{.version = v,
                                                                        .flags = f,
                                                                        .track_id = id,
                                                                        .length_size_of_traf_num = len[0],
                                                                        .length_size_of_trun_num = len[1],
                                                                        .length_size_of_sample_num = len[2],
                                                                        .entries = es});
                 };
                 return x;
               }});

  k.push_back({"trun", [](Src& s, bool foreign) {
                 Sample x = start_full<bx::Trun>(s, "trun", "trun", {0, 1});
                 if (s.chance(3, 4)) {
                   x.flags = static_cast<u32>(s.below(2) | (s.below(2) << 2) | (s.below(16) << 8));
                 }
                 const std::int32_t off = static_cast<std::int32_t>(s.sbits(32));
                 const u32 first = static_cast<u32>(s.bits(32));
                 struct E {
                   u32 dur, size, flags;
                   std::int64_t cto;
                 };
                 std::vector<E> c(count(s));
                 for (auto& e : c) {
                   e.dur = static_cast<u32>(s.bits(32));
                   e.size = static_cast<u32>(s.bits(32));
                   e.flags = static_cast<u32>(s.bits(32));
                   e.cto = x.version == 0 ? static_cast<std::int64_t>(s.bits(32)) : s.sbits(32);
                 }
                 const u32 f = x.flags;
                 Wire w;
                 w.full(x.version, f);
                 // samples without any fields of their own occupy no space: only their number is stored
                 const bool bare = (f & 0xf00) == 0;
                 const u32 n = bare && foreign ? static_cast<u32>(s.bits(32)) : static_cast<u32>(c.size());
                 w.u32(n);
                 x.text = VF(x.version, f) + " SampleCount=" + U(n);
                 if (bare && foreign) c.clear();
                 if (f & 1) {
                   w.u32(static_cast<u32>(off));
                   x.text += " DataOffset=" + D(off);
                 }
                 if (f & 4) {
                   w.u32(first);
                   x.text += " FirstSampleFlags=" + H(first);
                 }
                 for (auto& e : c) {
                   if (f & 0x100) w.u32(e.dur);
                   if (f & 0x200) w.u32(e.size);
                   if (f & 0x400) w.u32(e.flags);
                   if (f & 0x800) w.u32(static_cast<u32>(e.cto));
                 }
                 x.wire = w.b;
                 x.interesting = n != 0;
                 x.variant += " f" + U(f & 0xf05);
                 x.text += " Entries=[" + L(bare ? std::vector<E>{} : c, [f](const E& e) {
                             std::vector<std::string> p;
                             if (f & 0x100) p.push_back("SampleDuration=" + U(e.dur));
                             if (f & 0x200) p.push_back("SampleSize=" + U(e.size));
                             if (f & 0x400) p.push_back("SampleFlags=" + H(e.flags));
                             if (f & 0x800) p.push_back("SampleCompositionTimeOffset=" + D(e.cto));
                             return "{" + L(p, [](const std::string& t) { return t; }, " ") + "}";
                           }) + "]";
                 if (bare && foreign) return x;
                 x.make = [=, v = x.version] {
                   std::vector<bx::TrunEntry> es;
                   for (const auto& e : c) {
                     es.push_back(bx::TrunEntry({.sample_duration = e.dur,
                                                 .sample_size = e.size,
                                                 .sample_flags = e.flags,
                                                 .sample_composition_time_offset = e.cto}));
                   }
                   return std::make_unique<bx::Trun>(bx::TrunParameters{
                       .version = v, .flags = f, .data_offset = off, .first_sample_flags = first, .entries = es});
                 };
                 return x;
               }});
}

}  // namespace model
