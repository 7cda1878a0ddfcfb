// P22: values the format cannot represent are refused, never mangled; the largest representable ones survive.
#include <sys/mman.h>

#include <cmath>
#include <functional>
#include <optional>
#include <sstream>

#include "lib.hpp"
#include "movie.hpp"
#include "shiguredo/mp4/bitio/bitio.hpp"
#include "shiguredo/mp4/bitio/reader.hpp"
#include "shiguredo/mp4/bitio/writer.hpp"
#include "shiguredo/mp4/box/boxes.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "shiguredo/mp4/box_type.hpp"
#include "shiguredo/mp4/grouping_type.hpp"
#include "shiguredo/mp4/track/aac.hpp"
#include "shiguredo/mp4/track/av1.hpp"
#include "shiguredo/mp4/track/h264.hpp"
#include "shiguredo/mp4/track/mp3.hpp"
#include "shiguredo/mp4/track/opus.hpp"
#include "shiguredo/mp4/track/vpx.hpp"
#include "shiguredo/mp4/writer/faststart_writer.hpp"
#include "shiguredo/mp4/writer/simple_writer.hpp"
#include "streams.hpp"

using namespace pbt;
using model::BoxPtr;
namespace bx = shiguredo::mp4::box;
namespace bitio = shiguredo::mp4::bitio;
namespace track = shiguredo::mp4::track;
namespace writer = shiguredo::mp4::writer;
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using i64 = std::int64_t;
using i128 = __int128;

namespace {

std::string text(i128 v) {
  const bool neg = v < 0;
  unsigned __int128 a = neg ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
  std::string s;
  do {
    s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(a % 10)));
    a /= 10;
  } while (a != 0);
  return neg ? "-" + s : s;
}

// accepted: the encoding must decode to the same box; refused: an exception
void judge(const std::string& what, bool representable, const std::function<BoxPtr()>& make, const std::function<BoxPtr()>& fresh) {
  BoxPtr b;
  lib::Encoded e;
  const std::string err = lib::thrown([&] {
    b = make();
    e = lib::encode(*b);
  });
  if (!representable) {
    if (!err.empty()) return;
    BoxPtr d = fresh();
    std::string as;
    const std::string derr = lib::thrown([&] {
      lib::decode(*d, e.bytes);
      as = d->toStringOnlyData();
    });
    fail(what + " has no representation but was encoded as " + hex(e.bytes, 64) + ", which reads " + (derr.empty() ? as.substr(0, 300) : derr));
  }
  if (!err.empty()) fail(what + " is representable but was refused: " + err);
  PBT_CHECK(e.bits == e.bytes.size() * 8 && e.declared == e.bytes.size(), what + ": reported and declared size");
  BoxPtr d = fresh();
  const std::string derr = lib::thrown([&] { lib::decode(*d, e.bytes); });
  if (!derr.empty()) fail(what + ": its own encoding is refused: " + derr);
  const std::string want = b->toStringOnlyData(), got = d->toStringOnlyData();
  if (want != got) fail(what + " came back changed: " + diff(want, got));
}

template <class T>
std::function<BoxPtr()> fresh() {
  return [] { return std::make_unique<T>(); };
}

// ---- numbers -------------------------------------------------------------------------------------------------
struct Field {
  std::string name;
  i128 type_lo, type_hi;  // what the parameter can hold
  i128 lo, hi;            // what the format can hold
  std::function<BoxPtr()> fresh;
  // a box with that value in that field, everything else representable; the draw happens once, before the builder runs
  std::function<std::function<BoxPtr()>(Src&, i128)> make;
};

i128 pow2(unsigned n) { return static_cast<i128>(1) << n; }

std::vector<Field>& fields() {
  static std::vector<Field> all = [] {
    std::vector<Field> f;
    const auto uns = [&](const std::string& n, unsigned type_bits, unsigned bits, std::function<BoxPtr()> fr,
                         std::function<std::function<BoxPtr()>(Src&, i128)> mk) {
      f.push_back({n, 0, pow2(type_bits) - 1, 0, pow2(bits) - 1, std::move(fr), std::move(mk)});
    };
    const auto sgn = [&](const std::string& n, unsigned type_bits, i128 lo, i128 hi, std::function<BoxPtr()> fr,
                         std::function<std::function<BoxPtr()>(Src&, i128)> mk) {
      f.push_back({n, -pow2(type_bits - 1), pow2(type_bits - 1) - 1, lo, hi, std::move(fr), std::move(mk)});
    };
    for (u8 ver = 0; ver < 2; ++ver) {
      const unsigned w = ver == 0 ? 32 : 64;
      const std::string vs = " v" + std::to_string(ver);
      // headers: one of the 64-bit fields carries the value, the others are in range
      for (int which = 0; which < 3; ++which) {
        static const char* names[] = {"creation_time", "modification_time", "duration"};
        const auto vals = [=](Src& s, i128 v) {
          std::array<u64, 3> a;
          for (int k = 0; k < 3; ++k) a[static_cast<std::size_t>(k)] = k == which ? static_cast<u64>(v) : s.bits(w);
          return a;
        };
        uns("mvhd " + std::string(names[which]) + vs, 64, w, fresh<bx::Mvhd>(), [=](Src& s, i128 v) {
          const auto a = vals(s, v);
          return [=]() -> BoxPtr {
            return std::make_unique<bx::Mvhd>(bx::MvhdParameters{
                .version = ver, .creation_time = a[0], .modification_time = a[1], .duration = a[2], .next_track_id = 7});
          };
        });
        uns("tkhd " + std::string(names[which]) + vs, 64, w, fresh<bx::Tkhd>(), [=](Src& s, i128 v) {
          const auto a = vals(s, v);
          return [=]() -> BoxPtr {
            return std::make_unique<bx::Tkhd>(
                bx::TkhdParameters{.version = ver, .creation_time = a[0], .modification_time = a[1], .track_id = 3, .duration = a[2]});
          };
        });
        uns("mdhd " + std::string(names[which]) + vs, 64, w, fresh<bx::Mdhd>(), [=](Src& s, i128 v) {
          const auto a = vals(s, v);
          return [=]() -> BoxPtr {
            return std::make_unique<bx::Mdhd>(
                bx::MdhdParameters{.version = ver, .creation_time = a[0], .modification_time = a[1], .timescale = 90000, .duration = a[2]});
          };
        });
      }
      uns("mehd fragment_duration" + vs, 64, w, fresh<bx::Mehd>(), [=](Src&, i128 v) {
        return [=]() -> BoxPtr { return std::make_unique<bx::Mehd>(bx::MehdParameters{.version = ver, .fragment_duration = static_cast<u64>(v)}); };
      });
      uns("tfdt base_media_decode_time" + vs, 64, w, fresh<bx::Tfdt>(), [=](Src&, i128 v) {
        return [=]() -> BoxPtr { return std::make_unique<bx::Tfdt>(bx::TfdtParameters{.version = ver, .base_media_decode_time = static_cast<u64>(v)}); };
      });
      for (int which = 0; which < 2; ++which) {
        uns(std::string("sidx ") + (which == 0 ? "earliest_presentation_time" : "first_offset") + vs, 64, w, fresh<bx::Sidx>(),
            [=](Src& s, i128 v) {
              const u64 other = s.bits(w);
              return [=]() -> BoxPtr {
                return std::make_unique<bx::Sidx>(bx::SidxParameters{.version = ver,
                                                                     .reference_id = 1,
                                                                     .timescale = 2,
                                                                     .earliest_presentation_time = which == 0 ? static_cast<u64>(v) : other,
                                                                     .first_offset = which == 1 ? static_cast<u64>(v) : other,
                                                                     .references = {}});
              };
            });
        uns(std::string("tfra ") + (which == 0 ? "time" : "moof_offset") + vs, 64, w, fresh<bx::Tfra>(), [=](Src& s, i128 v) {
          const u64 other = s.bits(w);
          const std::size_t at = s.below(3), n = at + 1 + s.below(2);
          return [=]() -> BoxPtr {
            std::vector<bx::TfraEntry> es;
            for (std::size_t k = 0; k < n; ++k) {
              const u64 x = k == at ? static_cast<u64>(v) : other;
              es.emplace_back(bx::TfraEntryParameters{.time = which == 0 ? x : other,
                                                      .moof_offset = which == 1 ? x : other,
                                                      .traf_number = 1,
                                                      .trun_number = 2,
                                                      .sample_number = 3});
            }
            return std::make_unique<bx::Tfra>(bx::TfraParameters{.version = ver,
                                                                 .track_id = 1,
                                                                 .length_size_of_traf_num = 0,
                                                                 .length_size_of_trun_num = 1,
                                                                 .length_size_of_sample_num = 2,
                                                                 .entries = es});
          };
        });
      }
      const auto elst = [=](Src& s, bool media, i128 v) {
        const u64 d = s.bits(w);
        const i64 m = s.sbits(w);
        const std::size_t at = s.below(3), n = at + 1 + s.below(2);
        return [=]() -> BoxPtr {
          std::vector<bx::ElstEntry> es;
          for (std::size_t k = 0; k < n; ++k)
            es.emplace_back(bx::ElstEntryParameters{.track_duration = k == at && !media ? static_cast<u64>(v) : d,
                                                    .media_time = k == at && media ? static_cast<i64>(v) : m});
          return std::make_unique<bx::Elst>(bx::ElstParameters{.version = ver, .entries = es});
        };
      };
      uns("elst track_duration" + vs, 64, w, fresh<bx::Elst>(), [=](Src& s, i128 v) { return elst(s, false, v); });
      sgn("elst media_time" + vs, 64, -pow2(w - 1), pow2(w - 1) - 1, fresh<bx::Elst>(), [=](Src& s, i128 v) { return elst(s, true, v); });
      uns("emsg presentation_time" + vs, 64, w, fresh<bx::Emsg>(), [=](Src& s, i128 v) {
        const Bytes data = s.bytes(s.size(3, 20));
        return [=]() -> BoxPtr {
          return std::make_unique<bx::Emsg>(bx::EmsgParameters{.version = ver,
                                                               .scheme_uri = "urn:x",
                                                               .value = "1",
                                                               .timescale = 1000,
                                                               .presentation_time = static_cast<u64>(v),
                                                               .event_duration = 5,
                                                               .id = 9,
                                                               .message_data = data});
        };
      });
      sgn("ctts sample_offset" + vs, 64, ver == 0 ? 0 : -pow2(31), ver == 0 ? pow2(32) - 1 : pow2(31) - 1, fresh<bx::Ctts>(), [=](Src& s, i128 v) {
        const std::size_t at = s.below(3), n = at + 1 + s.below(2);
        const i64 other = static_cast<i64>(s.bits(31));
        return [=]() -> BoxPtr {
          std::vector<bx::CttsEntry> es;
          for (std::size_t k = 0; k < n; ++k) es.emplace_back(static_cast<u32>(k), k == at ? static_cast<i64>(v) : other);
          return std::make_unique<bx::Ctts>(bx::CttsParameters{.version = ver, .entries = es});
        };
      });
      sgn("trun sample_composition_time_offset" + vs, 64, ver == 0 ? 0 : -pow2(31), ver == 0 ? pow2(32) - 1 : pow2(31) - 1, fresh<bx::Trun>(),
          [=](Src& s, i128 v) {
            const std::size_t at = s.below(3), n = at + 1 + s.below(2);
            const i64 other = static_cast<i64>(s.bits(31));
            const u32 fl = 0x800 | (s.coin() ? 0x100U : 0U) | (s.coin() ? 1U : 0U);
            return [=]() -> BoxPtr {
              std::vector<bx::TrunEntry> es;
              for (std::size_t k = 0; k < n; ++k)
                es.emplace_back(bx::TrunEntryParameters{.sample_duration = static_cast<u32>(k),
                                                        .sample_composition_time_offset = k == at ? static_cast<i64>(v) : other});
              return std::make_unique<bx::Trun>(bx::TrunParameters{.version = ver, .flags = fl, .entries = es});
            };
          });
    }
    // sidx references
    for (int which = 0; which < 3; ++which) {
      static const char* names[] = {"reference_size", "sap_type", "sap_delta_time"};
      static const unsigned bits[] = {31, 3, 28}, tb[] = {32, 8, 32};
      uns(std::string("sidx ") + names[which], tb[which], bits[which], fresh<bx::Sidx>(), [=](Src& s, i128 v) {
        const std::size_t at = s.below(3), n = at + 1 + s.below(2);
        const u32 rs = static_cast<u32>(s.bits(31)), sd = static_cast<u32>(s.bits(28));
        const bool rt = s.coin(), st = s.coin();
        return [=]() -> BoxPtr {
          std::vector<bx::SidxReference> r;
          for (std::size_t k = 0; k < n; ++k) {
            const bool h = k == at;
            r.emplace_back(bx::SidxReferenceParameters{.reference_type = rt,
                                                       .reference_size = h && which == 0 ? static_cast<u32>(v) : rs,
                                                       .subsegument_duration = 4,
                                                       .starts_with_sap = st,
                                                       .sap_type = h && which == 1 ? static_cast<u8>(v) : u8{5},
                                                       .sap_delta_time = h && which == 2 ? static_cast<u32>(v) : sd});
          }
          return std::make_unique<bx::Sidx>(
              bx::SidxParameters{.reference_id = 1, .timescale = 2, .earliest_presentation_time = 3, .first_offset = 4, .references = r});
        };
      });
    }
    // sdtp
    for (int which = 0; which < 4; ++which) {
      static const char* names[] = {"is_leading", "sample_depends_on", "sample_is_depended_on", "sample_has_redundancy"};
      uns(std::string("sdtp ") + names[which], 8, 2, fresh<bx::Sdtp>(), [=](Src& s, i128 v) {
        const std::size_t at = s.below(4), n = at + 1 + s.below(3);
        const u8 o = static_cast<u8>(s.below(4));
        return [=]() -> BoxPtr {
          std::vector<bx::SdtpSample> x;
          for (std::size_t k = 0; k < n; ++k) {
            const auto val = [&](int w) { return k == at && w == which ? static_cast<u8>(v) : o; };
            x.emplace_back(bx::StdpSampleParameters{
                .is_leading = val(0), .sample_depends_on = val(1), .sample_is_depended_on = val(2), .sample_has_redundancy = val(3)});
          }
          return std::make_unique<bx::Sdtp>(bx::SdtpParameters{.samples = x});
        };
      });
    }
    uns("sgpd num_leading_samples", 8, 7, fresh<bx::Sgpd>(), [](Src& s, i128 v) {
      const bool known = s.coin();
      const std::size_t at = s.below(3), n = at + 1 + s.below(2);
      return [=]() -> BoxPtr {
        std::vector<bx::VisualRandomAccessEntry> x;
        for (std::size_t k = 0; k < n; ++k)
          x.emplace_back(bx::VisualRandomAccessEntryParameters{.num_leading_samples_known = known,
                                                               .num_leading_samples = k == at ? static_cast<u8>(v) : u8{9}});
        return std::make_unique<bx::Sgpd>(bx::SgpdParameters{
            .grouping_type = shiguredo::mp4::GroupingTypeRap, .default_length = 1, .visual_random_access_entries = x});
      };
    });
    // tfra: how long the numbers are, and the numbers
    for (int which = 0; which < 3; ++which) {
      static const char* names[] = {"traf", "trun", "sample"};
      uns(std::string("tfra length_size_of_") + names[which] + "_num", 8, 2, fresh<bx::Tfra>(), [=](Src& s, i128 v) {
        const bool entry = s.coin();
        return [=]() -> BoxPtr {
          const auto len = [&](int w) { return w == which ? static_cast<u8>(v) : u8{1}; };
          std::vector<bx::TfraEntry> es;
          if (entry)
            es.emplace_back(bx::TfraEntryParameters{.time = 1, .moof_offset = 2, .traf_number = 3, .trun_number = 4, .sample_number = 5});
          return std::make_unique<bx::Tfra>(bx::TfraParameters{.track_id = 1,
                                                               .length_size_of_traf_num = len(0),
                                                               .length_size_of_trun_num = len(1),
                                                               .length_size_of_sample_num = len(2),
                                                               .entries = es});
        };
      });
      for (u8 size = 0; size < 4; ++size) {
        uns(std::string("tfra ") + names[which] + "_number of " + std::to_string(size + 1) + " bytes", 32, 8U * (size + 1U), fresh<bx::Tfra>(),
            [=](Src& s, i128 v) {
              const u8 other = static_cast<u8>(s.below(4));
              const std::size_t at = s.below(2), n = at + 1 + s.below(2);
              return [=]() -> BoxPtr {
                const auto len = [&](int w) { return w == which ? size : other; };
                std::vector<bx::TfraEntry> es;
                for (std::size_t k = 0; k < n; ++k) {
                  const auto num = [&](int w) { return w == which && k == at ? static_cast<u32>(v) : u32{7}; };
                  es.emplace_back(bx::TfraEntryParameters{
                      .time = 1, .moof_offset = 2, .traf_number = num(0), .trun_number = num(1), .sample_number = num(2)});
                }
                return std::make_unique<bx::Tfra>(bx::TfraParameters{.track_id = 1,
                                                                     .length_size_of_traf_num = len(0),
                                                                     .length_size_of_trun_num = len(1),
                                                                     .length_size_of_sample_num = len(2),
                                                                     .entries = es});
              };
            });
      }
    }
    // av1C
    {
      static const char* names[] = {"marker", "version", "seq_profile", "seq_level_idx_0", "seq_tier_0",
                                    "chroma_subsampling_x", "chroma_subsampling_y", "chroma_sample_position", "initial_presentation_delay_minus_one"};
      static const unsigned bits[] = {1, 7, 3, 5, 1, 1, 1, 2, 4};
      for (int which = 0; which < 9; ++which) {
        uns(std::string("av1C ") + names[which], 8, bits[which], fresh<bx::AV1CodecConfiguration>(), [=](Src& s, i128 v) {
          std::array<u8, 9> a;
          for (std::size_t k = 0; k < 9; ++k) a[k] = static_cast<u8>(static_cast<int>(k) == which ? static_cast<u64>(v) : s.bits(bits[k]));
          const Bytes obus = s.bytes(s.size(3, 20));
          return [=]() -> BoxPtr {
            return std::make_unique<bx::AV1CodecConfiguration>(
                bx::AV1CodecConfigurationParameters{.marker = a[0],
                                                    .version = a[1],
                                                    .seq_profile = a[2],
                                                    .seq_level_idx_0 = a[3],
                                                    .seq_tier_0 = a[4],
                                                    .chroma_subsampling_x = a[5],
                                                    .chroma_subsampling_y = a[6],
                                                    .chroma_sample_position = a[7],
                                                    .initial_presentation_delay_present = true,
                                                    .initial_presentation_delay_minus_one = a[8],
                                                    .config_OBUs = obus});
          };
        });
      }
    }
    // avcC
    for (int which = 0; which < 4; ++which) {
      static const char* names[] = {"length_size_minus_one", "chroma_format", "bit_depth_luma_minus8", "bit_depth_chroma_minus8"};
      static const unsigned bits[] = {2, 2, 3, 3};
      uns(std::string("avcC ") + names[which], 8, bits[which], fresh<bx::AVCDecoderConfiguration>(), [=](Src& s, i128 v) {
        std::array<u8, 4> a;
        for (std::size_t k = 0; k < 4; ++k) a[k] = static_cast<u8>(static_cast<int>(k) == which ? static_cast<u64>(v) : s.bits(bits[k]));
        const Bytes sps = s.bytes(1 + s.size(3, 20));
        return [=]() -> BoxPtr {
          return std::make_unique<bx::AVCDecoderConfiguration>(
              bx::AVCDecoderConfigurationParameters{.configuration_version = 1,
                                                    .profile = 100,
                                                    .profile_compatibility = 0,
                                                    .level = 31,
                                                    .length_size_minus_one = a[0],
                                                    .sequence_parameter_sets = {bx::AVCParameterSet({.nal_unit = sps})},
                                                    .high_profile_fields_enabled = true,
                                                    .chroma_format = a[1],
                                                    .bit_depth_luma_minus8 = a[2],
                                                    .bit_depth_chroma_minus8 = a[3]});
        };
      });
    }
    // vpcC
    for (int which = 0; which < 3; ++which) {
      static const char* names[] = {"bit_depth", "chroma_sub_sampling", "video_full_range_flag"};
      static const unsigned bits[] = {4, 3, 1};
      uns(std::string("vpcC ") + names[which], 8, bits[which], fresh<bx::VPCodecConfiguration>(), [=](Src& s, i128 v) {
        std::array<u8, 3> a;
        for (std::size_t k = 0; k < 3; ++k) a[k] = static_cast<u8>(static_cast<int>(k) == which ? static_cast<u64>(v) : s.bits(bits[k]));
        const u8 ver = static_cast<u8>(s.below(2));
        return [=]() -> BoxPtr {
          return std::make_unique<bx::VPCodecConfiguration>(bx::VPCodecConfigurationParameters{
              .version = ver, .bit_depth = a[0], .chroma_sub_sampling = a[1], .video_full_range_flag = a[2]});
        };
      });
    }
    // esds
    f.push_back({"esds stream_priority", -128, 127, 0, 31, fresh<bx::Esds>(), [](Src& s, i128 v) {
                   const bool dep = s.coin();
                   return [=]() -> BoxPtr {
                     return std::make_unique<bx::Esds>(bx::EsdsParameters{.descriptors = {std::make_shared<bx::ESDescriptor>(
                                                                              bx::ESDescriptorParameters{.ESID = 1,
                                                                                                         .stream_dependence_flag = dep,
                                                                                                         .stream_priority = static_cast<std::int8_t>(v),
                                                                                                         .depends_on_esid = 5})}});
                   };
                 }});
    const auto dcd = [](std::int8_t st, u32 buf, bool up) -> BoxPtr {
      return std::make_unique<bx::Esds>(bx::EsdsParameters{
          .descriptors = {std::make_shared<bx::DecoderConfigDescriptor>(bx::DecoderConfigDescriptorParameters{
              .object_type_indication = 0x40, .stream_type = st, .upstream = up, .buffer_size_db = buf, .max_bitrate = 1, .avg_bitrate = 2})}});
    };
    f.push_back({"esds stream_type", -128, 127, 0, 63, fresh<bx::Esds>(), [=](Src& s, i128 v) {
                   const u32 buf = static_cast<u32>(s.bits(24));
                   const bool up = s.coin();
                   return [=] { return dcd(static_cast<std::int8_t>(v), buf, up); };
                 }});
    uns("esds buffer_size_db", 32, 24, fresh<bx::Esds>(), [=](Src& s, i128 v) {
      const bool up = s.coin();
      return [=] { return dcd(5, static_cast<u32>(v), up); };
    });
    // the expandable size of a descriptor: four times seven bits
    f.push_back({"esds size of an ES descriptor", 1, pow2(32) - 4, 1, pow2(28) - 1 - 3, fresh<bx::Esds>(), [](Src&, i128 v) {
                   return [=]() -> BoxPtr {
                     return std::make_unique<bx::Esds>(bx::EsdsParameters{.descriptors = {std::make_shared<bx::ESDescriptor>(
                                                                              bx::ESDescriptorParameters{.sub_descriptors_size = static_cast<u32>(v)})}});
                   };
                 }});
    f.push_back({"esds size of a decoder config descriptor", 1, pow2(32) - 14, 1, pow2(28) - 1 - 13, fresh<bx::Esds>(), [](Src&, i128 v) {
                   return [=]() -> BoxPtr {
                     return std::make_unique<bx::Esds>(
                         bx::EsdsParameters{.descriptors = {std::make_shared<bx::DecoderConfigDescriptor>(bx::DecoderConfigDescriptorParameters{
                                                .sub_descriptors_size = static_cast<u32>(v),
                                                .object_type_indication = 1,
                                                .stream_type = 2,
                                                .buffer_size_db = 3,
                                                .max_bitrate = 4,
                                                .avg_bitrate = 5})}});
                   };
                 }});
    for (std::size_t which = 0; which < 3; ++which) {
      f.push_back({"mdhd language[" + std::to_string(which) + "]", 0, 255, 0x60, 0x7f, fresh<bx::Mdhd>(), [=](Src& s, i128 v) {
                     std::array<u8, 3> l;
                     for (std::size_t k = 0; k < 3; ++k) l[k] = k == which ? static_cast<u8>(v) : static_cast<u8>(0x60 + s.below(32));
                     const bool pad = s.coin();
                     return [=]() -> BoxPtr {
                       return std::make_unique<bx::Mdhd>(bx::MdhdParameters{
                           .creation_time = 1, .modification_time = 2, .timescale = 3, .duration = 4, .pad = pad, .language = l});
                     };
                   }});
    }
    return f;
  }();
  return all;
}

// around the limits, and anywhere
i128 near(Src& s, i128 type_lo, i128 type_hi, i128 lo, i128 hi) {
  const auto clamp = [&](i128 v) { return v < type_lo ? type_lo : v > type_hi ? type_hi : v; };
  const auto anywhere = [&](i128 a, i128 b) {
    const unsigned __int128 span = static_cast<unsigned __int128>(b - a) + 1;
    unsigned __int128 r = s.below(0);
    return a + static_cast<i128>(span == 0 ? r : r % span);
  };
  switch (s.below(8)) {
    case 0: return hi;
    case 1: return clamp(hi + 1);
    case 2: return lo;
    case 3: return clamp(lo - 1);
    case 4: return clamp(hi + 1 + static_cast<i128>(s.bits(16)) * (s.coin() ? 1 : hi + 1 > pow2(40) ? 1 : hi + 1));
    case 5: return clamp(hi - static_cast<i128>(s.bits(16)));
    case 6: return anywhere(lo, hi);
    default: return anywhere(type_lo, type_hi);
  }
}

void numbers(Src& s, Ctx& c) {
  const auto& f = fields()[s.below(fields().size())];
  i128 v = near(s, f.type_lo, f.type_hi, f.lo, f.hi);
  if (f.lo < f.type_lo || v < f.type_lo) v = f.lo;
  const bool fits = v >= f.lo && v <= f.hi;
  const auto make = f.make(s, v);
  c.label(f.name);
  c.label(fits ? (v == f.hi ? "largest" : v == f.lo ? "smallest" : "inside") : "outside");
  c.nontrivial(v != 0);
  c.fingerprint(hash_bytes(f.name.data(), f.name.size(), mix(static_cast<u64>(v), static_cast<u64>(v >> 64))));
  c.sample(f.name + " = " + text(v) + (fits ? " (representable)" : " (not representable)"));
  c.note(f.name + " = " + text(v));
  judge(f.name + " = " + text(v), fits, make, f.fresh);
}

// ---- counts and lengths -----------------------------------------------------------------------------------------
std::size_t count_near(Src& s, std::size_t hi) {
  switch (s.below(6)) {
    case 0: return hi;
    case 1: return hi + 1;
    case 2: return hi + 1 + s.below(hi < 1000 ? 3 * hi : 500);
    case 3: return hi - s.below(std::min<std::size_t>(hi, 50) + 1);
    default: return s.below(hi + 1);
  }
}
Bytes blob_of(Src& s, std::size_t n) {
  Bytes b(n);
  Rng r{s.below(0)};
  for (auto& x : b) x = static_cast<u8>(r.next());
  return b;
}
std::string text_of(Src& s, std::size_t n) {
  std::string t(n, 'x');
  Rng r{s.below(0)};
  for (auto& x : t) x = static_cast<char>(1 + r.next() % 255);
  return t;
}

void lengths(Src& s, Ctx& c) {
  std::string what;
  bool fits = true;
  std::function<BoxPtr()> make, fr;
  const auto decide = [&](const std::string& n, std::size_t v, std::size_t hi) {
    what = n + " of " + std::to_string(v);
    fits = v <= hi;
    c.label(n);
    c.label(fits ? (v == hi ? "largest" : "inside") : "outside");
    c.fingerprint(hash_bytes(n.data(), n.size(), v));
    return v;
  };
  const auto unit = [&](std::size_t n) { return bx::AVCParameterSet({.nal_unit = blob_of(s, n)}); };
  const auto avcc = [&](std::vector<bx::AVCParameterSet> sps, std::vector<bx::AVCParameterSet> pps, std::vector<bx::AVCParameterSet> ext, bool high, u8 profile) {
    fr = fresh<bx::AVCDecoderConfiguration>();
    make = [=]() -> BoxPtr {
      return std::make_unique<bx::AVCDecoderConfiguration>(bx::AVCDecoderConfigurationParameters{.configuration_version = 1,
                                                                                                 .profile = profile,
                                                                                                 .profile_compatibility = 0,
                                                                                                 .level = 31,
                                                                                                 .sequence_parameter_sets = sps,
                                                                                                 .picture_parameter_sets = pps,
                                                                                                 .high_profile_fields_enabled = high,
                                                                                                 .sequence_parameter_sets_ext = ext});
    };
  };
  const auto many = [&](std::size_t n) {
    std::vector<bx::AVCParameterSet> v;
    for (std::size_t k = 0; k < n; ++k) v.push_back(unit(s.below(4)));
    return v;
  };
  switch (s.below(13)) {
    case 0: avcc(many(decide("avcC sequence parameter sets", count_near(s, 31), 31)), many(s.below(3)), {}, false, 66); break;
    case 1: avcc(many(s.below(3)), many(decide("avcC picture parameter sets", count_near(s, 255), 255)), {}, false, 66); break;
    case 2: avcc(many(s.below(3)), many(s.below(3)), many(decide("avcC sequence parameter set extensions", count_near(s, 255), 255)), true, 100); break;
    case 3: {
      const auto where = s.below(3);
      const std::size_t n = decide("avcC parameter set bytes in list " + std::to_string(where), count_near(s, 65535), 65535);
      std::vector<bx::AVCParameterSet> l[3];
      for (unsigned k = 0; k < 3; ++k) l[k] = many(s.below(2));
      l[where].insert(l[where].begin() + static_cast<std::ptrdiff_t>(s.below(l[where].size() + 1)), unit(n));
      avcc(l[0], l[1], l[2], true, 110);
      break;
    }
    case 4: {
      const u8 profile = static_cast<u8>(s.coin() ? s.pick<int>({100, 83, 86, 110, 118, 122, 128, 138, 144, 244, 66, 77, 88, 44}) : static_cast<int>(s.below(256)));
      avcc(many(1), many(1), many(s.below(2)), true, profile);
      what = "avcC high-profile fields with profile " + std::to_string(profile);
      fits = model::avc_high_profile(profile);
      c.label("avcC high-profile fields");
      c.label(fits ? "high profile" : "other profile");
      c.fingerprint(mix(4, profile));
      break;
    }
    case 5: {
      const Bytes d = blob_of(s, decide("vpcC initialization data bytes", count_near(s, 65535), 65535));
      fr = fresh<bx::VPCodecConfiguration>();
      make = [=]() -> BoxPtr { return std::make_unique<bx::VPCodecConfiguration>(bx::VPCodecConfigurationParameters{.codec_initialization_data = d}); };
      break;
    }
    case 6: {
      const std::size_t n = decide("sidx references", count_near(s, 65535), 65535);
      fr = fresh<bx::Sidx>();
      make = [=]() -> BoxPtr {
        const bx::SidxReference r(bx::SidxReferenceParameters{
            .reference_type = false, .reference_size = 1, .subsegument_duration = 4, .starts_with_sap = true, .sap_type = 5, .sap_delta_time = 6});
        return std::make_unique<bx::Sidx>(bx::SidxParameters{.reference_id = 1,
                                                             .timescale = 2,
                                                             .earliest_presentation_time = 3,
                                                             .first_offset = 4,
                                                             .references = std::vector<bx::SidxReference>(n, r)});
      };
      break;
    }
    case 7: {
      const Bytes u = blob_of(s, decide("esds URL bytes", count_near(s, 255), 255));
      const bool ocr = s.coin();
      fr = fresh<bx::Esds>();
      make = [=]() -> BoxPtr {
        return std::make_unique<bx::Esds>(bx::EsdsParameters{.descriptors = {std::make_shared<bx::ESDescriptor>(
                                                                 bx::ESDescriptorParameters{.url_flag = true, .ocr_stream_flag = ocr, .url_string = u, .OCRESID = 2})}});
      };
      break;
    }
    case 8: {
      // the kinds of sample groups the library knows, and any other
      const auto known = s.pick<std::array<u8, 4>>({shiguredo::mp4::GroupingTypeRoll, shiguredo::mp4::GroupingTypeProl, shiguredo::mp4::GroupingTypeRap,
                                                    shiguredo::mp4::GroupingTypeTele, shiguredo::mp4::GroupingTypeAlst});
      auto g = known;
      if (s.coin()) g[s.below(4)] = static_cast<u8>(s.below(256));
      const u8 ver = static_cast<u8>(g == shiguredo::mp4::GroupingTypeAlst ? 1 : 1 + s.below(2));
      fits = g == shiguredo::mp4::GroupingTypeRoll || g == shiguredo::mp4::GroupingTypeProl || g == shiguredo::mp4::GroupingTypeRap ||
             g == shiguredo::mp4::GroupingTypeTele || g == shiguredo::mp4::GroupingTypeAlst;
      what = "sgpd of kind " + model::type_text(g);
      c.label(fits ? "sgpd known kind" : "sgpd unknown kind");
      c.fingerprint(hash_bytes(g.data(), 4, 8));
      fr = fresh<bx::Sgpd>();
      make = [=]() -> BoxPtr { return std::make_unique<bx::Sgpd>(bx::SgpdParameters{.version = ver, .grouping_type = g}); };
      break;
    }
    case 9: {
      // text with its own terminator inside
      const auto kind = s.below(6);
      std::string t = text_of(s, s.size(5, 300));
      fits = s.chance(1, 3);
      if (!fits) t.insert(s.below(t.size() + 1), 1, '\0');
      what = "text " + hex(lib::bytes(t)) + " in field " + std::to_string(kind);
      c.label(fits ? "plain text" : "text with a terminator inside");
      c.fingerprint(hash_bytes(t.data(), t.size(), kind));
      switch (kind) {
        case 0: fr = fresh<bx::Url>(); make = [=]() -> BoxPtr { return std::make_unique<bx::Url>(bx::UrlParameters{.location = t}); }; break;
        case 1: fr = fresh<bx::Urn>(); make = [=]() -> BoxPtr { return std::make_unique<bx::Urn>(bx::UrnParameters{.name = t, .location = "l"}); }; break;
        case 2: fr = fresh<bx::Urn>(); make = [=]() -> BoxPtr { return std::make_unique<bx::Urn>(bx::UrnParameters{.name = "n", .location = t}); }; break;
        case 3: fr = fresh<bx::Hdlr>(); make = [=]() -> BoxPtr { return std::make_unique<bx::Hdlr>(bx::HdlrParameters{.handler_type = {'v', 'i', 'd', 'e'}, .name = t}); }; break;
        default: {
          const u8 ver = static_cast<u8>(s.below(2));
          fr = fresh<bx::Emsg>();
          make = [=]() -> BoxPtr {
            return std::make_unique<bx::Emsg>(bx::EmsgParameters{.version = ver,
                                                                 .scheme_uri = kind == 4 ? t : "s",
                                                                 .value = kind == 5 ? t : "v",
                                                                 .timescale = 1,
                                                                 .presentation_time = 2,
                                                                 .event_duration = 3,
                                                                 .id = 4,
                                                                 .message_data = {1, 2}});
          };
        }
      }
      break;
    }
    case 10: {
      // extra sound description data has a length fixed by the entry's version
      const u16 ver = static_cast<u16>(s.below(3));
      const bool qt = s.coin();
      const std::size_t n = s.pick<std::size_t>({0, 16, 36, 15, 17, 35, 37, s.below(60)});
      fits = qt ? (ver == 1 ? n == 16 : ver == 2 ? n == 36 : true) : n == 0;
      if (qt == (ver == 0) || (qt && n == 0)) return;  // only QuickTime entries have a version, and only with extra data
      const Bytes d = blob_of(s, n);
      what = "mp4a version " + std::to_string(ver) + (qt ? " QuickTime" : "") + " with " + std::to_string(n) + " extra bytes";
      c.label(fits ? "sound data of the right length" : "sound data of a wrong length");
      c.fingerprint(mix(mix(ver, n), qt));
      fr = [] { return std::make_unique<bx::AudioSampleEntry>(shiguredo::mp4::BoxType("mp4a")); };
      make = [=]() -> BoxPtr {
        return std::make_unique<bx::AudioSampleEntry>(bx::AudioSampleEntryParameters{.type = shiguredo::mp4::BoxType("mp4a"),
                                                                                     .data_reference_index = 1,
                                                                                     .entry_version = ver,
                                                                                     .channel_count = 2,
                                                                                     .sample_size = 16,
                                                                                     .sample_rate = 48000U << 16,
                                                                                     .is_quick_time_compatible = qt,
                                                                                     .quick_time_data = d});
      };
      break;
    }
    default: {
      // brands come in fours of bytes
      const bool styp = s.coin();
      const std::size_t n = 8 + s.size(8, 70);
      fits = n % 4 == 0;
      Bytes p = s.bytes(n);
      c.label(fits ? "whole brands" : "part of a brand");
      c.fingerprint(hash_bytes(p.data(), p.size(), styp));
      c.nontrivial();
      c.note((styp ? "styp payload " : "ftyp payload ") + hex(p));
      BoxPtr b;
      if (styp) b = std::make_unique<bx::Styp>();
      else b = std::make_unique<bx::Ftyp>();
      const auto err = lib::thrown([&] { lib::decode(*b, p); });
      if (!fits && err.empty()) fail("a file type payload of " + std::to_string(n) + " bytes was accepted: " + b->toStringOnlyData());
      if (fits) {
        if (!err.empty()) fail("a file type payload of whole brands was refused: " + err);
        const auto e = lib::encode(*b);
        if (e.bytes != p) fail("file type payload came back changed: " + diff(p, e.bytes));
      }
      return;
    }
  }
  c.nontrivial();
  c.sample(what + (fits ? " (representable)" : " (not representable)"));
  c.note(what);
  judge(what, fits, make, fr);
}

// ---- type codes -------------------------------------------------------------------------------------------------
void type_codes(Src& s, Ctx& c) {
  std::string t = s.coin() ? s.text(s.below(9)) : std::string();
  if (t.empty()) {
    t.resize(s.below(9));
    for (auto& x : t) x = static_cast<char>(s.below(256));
  }
  if (s.chance(1, 40)) t += std::string(1000 * s.below(100), 'a');
  const bool fits = t.size() == 4;
  c.label("length " + (t.size() < 9 ? std::to_string(t.size()) : ">8"));
  c.nontrivial();
  c.fingerprint(hash_bytes(t.data(), t.size()));
  c.note("type code " + hex(lib::bytes(t)));
  const auto err = lib::thrown([&] {
    const shiguredo::mp4::BoxType b(t);
    if (!fits) fail("a type code of " + std::to_string(t.size()) + " characters was accepted as " + b.toString());
    const auto d = b.getData();
    PBT_CHECK(std::equal(d.begin(), d.end(), reinterpret_cast<const u8*>(t.data())), "the type code changed");
  });
  if (fits && !err.empty()) fail("a four-character type code was refused: " + err);
}

// ---- bit-level writers ------------------------------------------------------------------------------------------
struct Out {
  std::ostringstream os;
  std::string err;
  u64 bits = 0;
  Bytes bytes;
};
template <class F>
Out emit(unsigned lead, F f) {
  Out o;
  o.err = lib::thrown([&] {
    bitio::Writer w(o.os);
    for (unsigned k = 0; k < lead; ++k) bitio::write_bool(&w, k % 2 == 0);
    o.bits = f(&w);
    // fill up the last byte
    for (u64 k = lead + o.bits; k % 8 != 0; ++k) bitio::write_bool(&w, false);
  });
  o.bytes = lib::bytes(o.os.str());
  return o;
}
template <class F>
void take(const Bytes& b, unsigned lead, F f) {
  std::istringstream is(lib::str(b));
  bitio::Reader r(is);
  bool x;
  for (unsigned k = 0; k < lead; ++k) bitio::read_bool(&r, &x);
  f(&r);
}

template <class T>
void number_of(Src& s, Ctx& c, const std::string& tn) {
  const unsigned tb = sizeof(T) * 8;
  const bool sg = std::is_signed_v<T>;
  const unsigned bits = 1 + static_cast<unsigned>(s.below(tb));
  const i128 tlo = sg ? -pow2(tb - 1) : 0, thi = sg ? pow2(tb - 1) - 1 : pow2(tb) - 1;
  const i128 lo = sg ? -pow2(bits - 1) : 0, hi = sg ? pow2(bits - 1) - 1 : pow2(bits) - 1;
  i128 v = near(s, tlo, thi, lo, hi);
  const bool fits = v >= lo && v <= hi;
  const unsigned lead = s.coin() ? 0 : static_cast<unsigned>(s.below(8));
  c.label(tn + (fits ? " fits" : " too wide"));
  c.nontrivial(v != 0);
  c.fingerprint(hash_bytes(tn.data(), tn.size(), mix(mix(bits, lead), static_cast<u64>(v))));
  c.sample(tn + " " + text(v) + " in " + std::to_string(bits) + " bits after " + std::to_string(lead));
  c.note(tn + " " + text(v) + " in " + std::to_string(bits) + " bits after " + std::to_string(lead));
  const auto o = emit(lead, [&](bitio::Writer* w) {
    if constexpr (std::is_signed_v<T>) return bitio::write_int<T>(w, static_cast<T>(v), bits);
    else return bitio::write_uint<T>(w, static_cast<T>(v), bits);
  });
  if (!fits) {
    if (o.err.empty()) fail(tn + " " + text(v) + " was written into " + std::to_string(bits) + " bits as " + hex(o.bytes));
    return;
  }
  if (!o.err.empty()) fail(tn + " " + text(v) + " was refused for " + std::to_string(bits) + " bits: " + o.err);
  PBT_CHECK(o.bits == bits, "reported bits");
  take(o.bytes, lead, [&](bitio::Reader* r) {
    T back = 0;
    if constexpr (std::is_signed_v<T>) bitio::read_int<T>(r, &back, bits);
    else bitio::read_uint<T>(r, &back, bits);
    if (back != static_cast<T>(v)) fail(tn + " " + text(v) + " in " + std::to_string(bits) + " bits came back as " + text(back));
  });
}

template <class T>
void varint_of(Src& s, Ctx& c, const std::string& tn) {
  const i128 hi = pow2(7 * sizeof(T)) - 1, thi = pow2(8 * sizeof(T)) - 1;
  const i128 v = near(s, 0, thi, 0, hi);
  const bool fits = v <= hi;
  c.label(tn + (fits ? " fits" : " too wide"));
  c.nontrivial(v != 0);
  c.fingerprint(hash_bytes(tn.data(), tn.size(), static_cast<u64>(v)));
  c.note(tn + " " + text(v));
  const auto o = emit(0, [&](bitio::Writer* w) { return bitio::write_uvarint<T>(w, static_cast<T>(v)); });
  if (!fits) {
    if (o.err.empty()) fail(tn + " " + text(v) + " was written as " + hex(o.bytes));
    return;
  }
  if (!o.err.empty()) fail(tn + " " + text(v) + " was refused: " + o.err);
  PBT_CHECK(o.bits == o.bytes.size() * 8, "reported bits");
  take(o.bytes, 0, [&](bitio::Reader* r) {
    T back = 0;
    bitio::read_uvarint<T>(r, &back);
    if (back != static_cast<T>(v)) fail(tn + " " + text(v) + " came back as " + text(back));
  });
}

void bit_writers(Src& s, Ctx& c) {
  switch (s.below(14)) {
    case 0: return number_of<u8>(s, c, "unsigned 8");
    case 1: return number_of<u16>(s, c, "unsigned 16");
    case 2: return number_of<u32>(s, c, "unsigned 32");
    case 3: return number_of<u64>(s, c, "unsigned 64");
    case 4: return number_of<std::int8_t>(s, c, "signed 8");
    case 5: return number_of<std::int16_t>(s, c, "signed 16");
    case 6: return number_of<std::int32_t>(s, c, "signed 32");
    case 7: return number_of<i64>(s, c, "signed 64");
    case 8: return varint_of<u8>(s, c, "varint 8");
    case 9: return varint_of<u16>(s, c, "varint 16");
    case 10: return varint_of<u32>(s, c, "varint 32");
    case 11: return varint_of<u64>(s, c, "varint 64");
    default: {
      const bool pascal = s.coin();
      const bool bad = s.coin();
      std::string t = pascal ? text_of(s, bad ? 256 + s.size(5, 3000) : count_near(s, 255)) : text_of(s, s.size(5, 600));
      if (pascal && !bad && t.size() > 255) t.resize(255);
      if (!pascal && bad) t.insert(s.below(t.size() + 1), 1, '\0');
      if (pascal && s.coin())
        for (auto& x : t)
          if (s.chance(1, 10)) x = 0;  // a counted string may hold anything
      c.label(std::string(pascal ? "pascal string " : "string ") + (bad ? "without representation" : "with representation"));
      c.nontrivial(!t.empty());
      c.fingerprint(hash_bytes(t.data(), t.size(), pascal));
      c.note((pascal ? "pascal string " : "string ") + hex(lib::bytes(t), 4000));
      const auto o = emit(0, [&](bitio::Writer* w) { return pascal ? bitio::write_pascal_string(w, t) : bitio::write_string(w, t); });
      if (bad) {
        if (o.err.empty()) fail("string of " + std::to_string(t.size()) + " bytes was written as " + hex(o.bytes));
        return;
      }
      if (!o.err.empty()) fail("string of " + std::to_string(t.size()) + " bytes was refused: " + o.err);
      PBT_CHECK(o.bytes.size() == t.size() + 1 && o.bits == o.bytes.size() * 8, "length of the encoded string");
      take(o.bytes, 0, [&](bitio::Reader* r) {
        std::string back;
        if (pascal) bitio::read_pascal_string(r, &back, o.bits);
        else bitio::read_string(r, &back, o.bits);
        if (back != t) fail("the string came back changed: " + diff(t, back));
      });
    }
  }
}

// ---- tracks -----------------------------------------------------------------------------------------------------
void tracks(Src& s, Ctx& c) {
  movie::Options o;
  movie::TrackSpec t = movie::gen_track(s, o, 1.0F);
  streams::SparseBuf buf;
  std::ostream os(&buf);
  const bool fast = s.coin();
  std::unique_ptr<writer::Writer> w;
  if (fast) w = std::make_unique<writer::FaststartWriter>(os, writer::FaststartWriterParameters{.duration = 1.0F, .mdat_path_templete = scratch_dir() + "/p22XXXXXX"});
  else w = std::make_unique<writer::SimpleWriter>(os, writer::SimpleWriterParameters{.duration = 1.0F});
  std::uint32_t id = s.coin() ? w->getAndUpdateNextTrackID() : static_cast<u32>(1 + s.upto(0xfffffffe));
  std::string what;
  bool fits = true;
  std::uint32_t width = t.width, height = t.height;
  u64 pre_skip = t.pre_skip;
  switch (s.below(3)) {
    case 0:
      what = "track id";
      if (s.coin()) {
        id = 0;
        fits = false;
      }
      break;
    case 1: {
      what = "dimensions";
      auto& d = s.coin() ? width : height;
      d = static_cast<u32>(near(s, 0, pow2(32) - 1, 0, 65535));
      if (s.chance(1, 4)) (&d == &width ? height : width) = static_cast<u32>(near(s, 0, pow2(32) - 1, 0, 65535));
      fits = !movie::is_video(t.codec) || (width <= 65535 && height <= 65535);
      break;
    }
    default:
      what = "pre-skip";
      pre_skip = static_cast<u64>(near(s, 0, pow2(64) - 1, 0, 65535));
      fits = t.codec != movie::Codec::opus || pre_skip <= 65535;
      break;
  }
  c.label(movie::name(t.codec) + " " + what + (fits ? " representable" : " without representation"));
  c.nontrivial();
  c.fingerprint(mix(mix(static_cast<u64>(t.codec), id), mix(mix(width, height), pre_skip)));
  const std::string desc = movie::name(t.codec) + " track, id " + std::to_string(id) + ", " + std::to_string(width) + "x" + std::to_string(height) + ", pre-skip " +
                           std::to_string(pre_skip);
  c.note(desc);
  c.sample(desc);
  std::unique_ptr<track::Track> tr;
  const auto err = lib::thrown([&] {
    switch (t.codec) {
      case movie::Codec::h264:
        tr = std::make_unique<track::H264Track>(track::H264TrackParameters{
            .timescale = t.timescale, .duration = 1, .track_id = id, .width = width, .height = height, .writer = w.get()});
        break;
      case movie::Codec::vp8:
      case movie::Codec::vp9:
        tr = std::make_unique<track::VPXTrack>(track::VPXTrackParameters{
            .codec = t.codec == movie::Codec::vp8 ? track::VPXCodec::VP8 : track::VPXCodec::VP9, .timescale = t.timescale, .duration = 1, .track_id = id, .width = width, .height = height, .writer = w.get()});
        break;
      case movie::Codec::av1:
        tr = std::make_unique<track::AV1Track>(track::AV1TrackParameters{
            .timescale = t.timescale, .duration = 1, .track_id = id, .width = width, .height = height, .writer = w.get()});
        break;
      case movie::Codec::aac:
        tr = std::make_unique<track::AACTrack>(track::AACTrackParameters{
            .timescale = t.timescale, .duration = 1, .track_id = id, .max_bitrate = 1, .avg_bitrate = 1, .writer = w.get()});
        break;
      case movie::Codec::mp3:
        tr = std::make_unique<track::MP3Track>(track::MP3TrackParameters{
            .timescale = t.timescale, .duration = 1, .track_id = id, .max_bitrate = 1, .avg_bitrate = 1, .writer = w.get()});
        break;
      case movie::Codec::opus:
        tr = std::make_unique<track::OpusTrack>(track::OpusTrackParameters{.pre_skip = pre_skip, .duration = 1, .track_id = id, .writer = w.get()});
        break;
    }
  });
  if (!fits) {
    if (err.empty()) fail(desc + ": accepted, though the format cannot hold it");
    return;
  }
  if (!err.empty()) fail(desc + ": refused: " + err);
  // and what was accepted arrives in the file
  if (fast && !s.chance(1, 4)) return;
  if (t.codec == movie::Codec::h264) return;  // needs parameter sets first; P15 and P16 do that
  if (fast) return;
  auto* sw = dynamic_cast<writer::SimpleWriter*>(w.get());
  sw->writeFtypBox();
  const Bytes d = s.bytes(1 + s.below(20));
  tr->addData(0, d, true);
  tr->terminateCurrentChunk();
  sw->appendTrakAndUdtaBoxInfo({tr.get()});
  sw->writeFreeBoxAndMdatHeader();
  sw->writeMoovBox();
  const auto m = movie::demux([&](u64 p, u64 n) { return buf.get(p, n); }, buf.size());
  PBT_CHECK(m.tracks.size() == 1 && m.tracks[0].id == id, "the track id in the file");
  const auto& trak = *m.tracks[0].trak;
  if (movie::is_video(t.codec)) {
    const auto& p = trak.need("tkhd").payload;
    movie::Cursor cur{p, p.size() - 8, "tkhd"};
    PBT_CHECK(cur.u(4) == static_cast<u64>(width) << 16, "the width in tkhd");
    PBT_CHECK(cur.u(4) == static_cast<u64>(height) << 16, "the height in tkhd");
  }
  if (t.codec == movie::Codec::opus) {
    const auto& sd = trak.need("mdia").need("minf").need("stbl").need("stsd");
    PBT_CHECK(sd.kids.size() == 1, "one sample description");
    movie::Cursor cur{sd.kids[0].need("dOps").payload, 0, "dOps"};
    cur.u(2);
    PBT_CHECK(cur.u(2) == pre_skip, "the pre-skip in dOps");
  }
}

// ---- samples the size table cannot list -------------------------------------------------------------------------
void huge_samples(Src& s, Ctx& c) {
  static u8* zone = nullptr;
  constexpr u64 kZone = 1ULL << 30;
  if (zone == nullptr) zone = static_cast<u8*>(mmap(nullptr, kZone, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  PBT_CHECK(zone != MAP_FAILED, "address space for a large sample");
  movie::Options o;
  o.h264 = false;
  movie::Spec sp;
  sp.tracks.push_back(movie::gen_track(s, o, 1.0F));
  sp.tracks[0].own_id = 0;
  if (sp.tracks[0].codec == movie::Codec::h264) sp.tracks[0].codec = movie::Codec::opus;
  sp.duration = 1;
  sp.faststart = s.coin();
  const u64 size = (1ULL << 32) + s.pick<u64>({0, 1, 100, 0xffffffff, 1ULL << 33, s.bits(40)});
  streams::SparseBuf buf;
  std::ostream os(&buf);
  auto ss = movie::open(sp, os, scratch_dir() + "/p22hXXXXXX");
  movie::begin(sp, ss);
  const bool before = s.coin();
  if (before) ss.tracks[0]->addData(0, Bytes{1, 2, 3}, true);
  const u64 at = buf.bytes_written;
  c.label(sp.faststart ? "faststart" : "progressive");
  c.nontrivial();
  c.fingerprint(mix(size, mix(before, sp.faststart)));
  c.sample(movie::name(sp.tracks[0].codec) + " sample of " + std::to_string(size) + " bytes");
  c.note(movie::name(sp.tracks[0].codec) + " sample of " + std::to_string(size) + " bytes");
  // the size alone decides: nothing of the sample may be looked at
  const auto err = lib::thrown([&] { ss.tracks[0]->addData(before ? 10 : 0, zone, size, true); });
  if (err.empty()) fail("a sample of " + std::to_string(size) + " bytes was accepted");
  PBT_CHECK(buf.bytes_written == at, "part of a refused sample was written");
  // the refused sample leaves no trace
  ss.tracks[0]->addData(before ? 20 : 0, Bytes{4, 5}, true);
  movie::end(sp, ss);
  const auto f = [&](u64 p, u64 n) { return buf.get(p, n); };
  const auto m = movie::demux(f, buf.size());
  PBT_CHECK(m.tracks.size() == 1 && m.tracks[0].samples.size() == (before ? 2U : 1U), "number of samples after a refused one");
  const auto& last = m.tracks[0].samples.back();
  PBT_CHECK(f(last.offset, last.size) == (Bytes{4, 5}), "the sample after a refused one");
}

// ---- durations and time steps the tables cannot hold ------------------------------------------------------------
// the number of ticks, or nothing if 64 unsigned bits cannot hold it
std::optional<u64> ticks(std::uint32_t timescale, float seconds) {
  const float t = static_cast<float>(timescale) * seconds;
  if (std::isnan(t) || t < 0.0F || t >= 18446744073709551616.0F) return std::nullopt;
  return static_cast<u64>(t);
}

float any_duration(Src& s, std::uint32_t timescale) {
  switch (s.below(8)) {
    case 0: return -static_cast<float>(s.range(1, 100000)) / 8.0F;
    case 1: return s.pick<float>({-std::numeric_limits<float>::infinity(), std::numeric_limits<float>::infinity(), std::numeric_limits<float>::quiet_NaN(),
                                  std::numeric_limits<float>::max(), -1e-3F});
    case 2: {  // around 2^64 ticks
      float d = 18446744073709551616.0F / static_cast<float>(std::max(1U, timescale));
      for (std::uint64_t i = s.below(4); i > 0; --i) d = std::nextafter(d, 0.0F);
      for (std::uint64_t i = s.below(3); i > 0; --i) d = std::nextafter(d, std::numeric_limits<float>::max());
      return d;
    }
    case 3: return 4294967296.0F / static_cast<float>(std::max(1U, timescale)) * static_cast<float>(s.range(1, 8)) / 4.0F;
    default: return static_cast<float>(s.below(4000)) / 8.0F;
  }
}

void timing(Src& s, Ctx& c) {
  movie::Options o;
  o.h264 = false;
  movie::Spec sp;
  sp.faststart = s.coin();
  sp.mvhd_timescale = s.pick<u32>({1000, 600, 1, 90000, 0xffffffff});
  sp.duration = s.chance(1, 3) ? any_duration(s, sp.mvhd_timescale) : 10.0F;
  sp.tracks.push_back(movie::gen_track(s, o, 1.0F));
  auto& t = sp.tracks[0];
  t.own_id = 0;
  t.duration = s.chance(1, 3) ? any_duration(s, t.timescale) : 10.0F;
  // with a longer or shorter tail behind the last sample
  std::vector<u64> at{s.chance(1, 4) ? s.bits(64) : s.below(100)};
  std::size_t refused = 0;  // number of the first sample that cannot be listed
  const std::size_t n = 1 + s.below(5);
  for (std::size_t i = 1; i < n && refused == 0; ++i) {
    u64 next = at.back();
    switch (s.below(6)) {
      case 0: next += pow2(32) - 3 + s.below(6); break;
      case 1: next += s.bits(40); break;
      case 2: next -= 1 + s.below(3); break;
      default: next += s.below(5000); break;
    }
    if (next < at.back() || next - at.back() > 0xffffffff) refused = i;
    at.push_back(next);
  }
  const auto movie_d = ticks(sp.mvhd_timescale, sp.duration), track_d = ticks(t.timescale, t.duration), tkhd_d = ticks(sp.mvhd_timescale, t.duration);
  const std::size_t good = refused == 0 ? at.size() : refused;
  const u64 last = at[good - 1];
  // the last sample lasts to the end of the track, or as long as the table can say
  const u64 tail = std::min<u64>(track_d && *track_d > last ? *track_d - last : 0, 0xffffffff);
  std::string why;
  if (!movie_d) why = "the movie duration";
  else if (!track_d) why = "the track duration in the media timescale";
  else if (!tkhd_d) why = "the track duration in the movie timescale";
  std::string desc = movie::name(t.codec) + (sp.faststart ? " faststart" : " progressive") + ", movie " + std::to_string(sp.duration) + " s * " +
                     std::to_string(sp.mvhd_timescale) + ", track " + std::to_string(t.duration) + " s * " + std::to_string(t.timescale) + ", times";
  for (const auto x : at) desc += " " + std::to_string(x);
  c.note(desc);
  c.sample(desc);
  c.nontrivial(!why.empty() || refused != 0 || at.size() > 1);
  c.fingerprint(hash_bytes(reinterpret_cast<const u8*>(desc.data()), desc.size()));
  c.label(why.empty() ? "representable durations" : why + " has no representation");
  c.label_if(refused != 0, "a time step that has no representation");
  streams::SparseBuf buf;
  std::ostream os(&buf);
  movie::Session ss;
  bool adding = false;
  const auto err = lib::thrown([&] {
    ss = movie::open(sp, os, scratch_dir() + "/p22tXXXXXX");
    movie::begin(sp, ss);
    adding = true;
    for (std::size_t i = 0; i < at.size(); ++i) {
      const Bytes data{static_cast<u8>(i), 7, 9};
      if (refused != 0 && i == refused) {
        const auto off = sp.faststart ? ss.fast->tellCurrentMdatOffset() : ss.simple->tellCurrentMdatOffset();
        const auto e = lib::thrown([&] { ss.tracks[0]->addData(at[i], data, true); });
        if (e.empty()) fail(desc + ": sample " + std::to_string(i) + " was accepted, though its distance from the one before has no representation");
        PBT_CHECK(off == (sp.faststart ? ss.fast->tellCurrentMdatOffset() : ss.simple->tellCurrentMdatOffset()), "part of a refused sample was written");
      } else {
        ss.tracks[0]->addData(at[i], data, true);
      }
    }
    adding = false;
    movie::end(sp, ss);
  });
  if (!why.empty()) {
    if (err.empty()) fail(desc + ": a file was made, though " + why + " has no representation");
    // asked once more, the answer is the same
    if (ss.writer != nullptr && ss.tracks.size() == 1 && !adding) {
      if (lib::thrown([&] { movie::end(sp, ss); }).empty()) fail(desc + ": refused (" + err + "), but a file was made when asked again");
    }
    return;
  }
  if (!err.empty()) fail(desc + ": refused: " + err);
  const auto f = [&](u64 p, u64 k) { return buf.get(p, k); };
  const auto m = movie::demux(f, buf.size());
  PBT_CHECK(m.tracks.size() == 1 && m.tracks[0].samples.size() == good, "number of samples");
  PBT_CHECK(m.duration == *movie_d, "the movie duration");
  PBT_CHECK(m.tracks[0].media_duration == *track_d, "the media duration");
  PBT_CHECK(m.tracks[0].movie_duration == *tkhd_d, "the track duration");
  for (std::size_t i = 0; i < good; ++i) {
    const auto& x = m.tracks[0].samples[i];
    PBT_CHECK(x.duration == (i + 1 < good ? at[i + 1] - at[i] : tail), "duration of sample " + std::to_string(i));
    PBT_CHECK(f(x.offset, x.size) == (Bytes{static_cast<u8>(i), 7, 9}), "bytes of sample " + std::to_string(i));
  }
}

}  // namespace

int main(int argc, char** argv) {
  Suite suite;
  suite.property = "P22";
  suite.rule =
      "A case draws one field, count, length, string, type code, bit width or track parameter with a value on either side of what the format can "
      "hold (at, next to and far from the limit), has the library build and encode it, and requires an exception if it has no representation and an "
      "exact decoded copy if it has. Non-trivial: not the zero value; distinct by field and value.";
  suite.assumptions = {"fields that the chosen version or flags leave out are not written, which is not a loss",
                       "flag words are sets of 24 bits; bits above have no meaning"};
  suite.init = lib::quiet;
  suite.groups = {
      {"numbers", 60000, 2000000, numbers},
      {"lengths", 4000, 150000, lengths},
      {"type_codes", 8000, 200000, type_codes},
      {"bit_writers", 50000, 2000000, bit_writers},
      {"tracks", 8000, 200000, tracks},
      {"timing", 12000, 300000, timing},
      {"huge_samples", 150, 3000, huge_samples},
  };
  return run_main(argc, argv, suite);
}
