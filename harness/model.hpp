// Reference model of the box formats. Every generator draws field values, and from the same values makes
//  - the wire bytes, with an encoder of its own that follows the ISO BMFF / QuickTime / codec-mapping layouts,
//  - the text the library's description of that box must show,
//  - a library object built through the public parameter structures.
// Nothing here calls the library's codecs.
#pragma once
#include <array>
#include <functional>
#include <memory>
#include <string>
#include <vector>

#include "pbt.hpp"
#include "shiguredo/mp4/box.hpp"

namespace model {

using pbt::Bytes;
using pbt::Src;
using FourCC = std::array<std::uint8_t, 4>;

FourCC fourcc(const char* s);
std::string type_text(const FourCC& t);  // as dumps show it

struct Wire {
  Bytes b;
  unsigned nbits = 0;  // bits used in the last byte (0: byte aligned)
  void u(std::uint64_t v, unsigned bits);
  void u8(std::uint64_t v) { u(v, 8); }
  void u16(std::uint64_t v) { u(v, 16); }
  void u24(std::uint64_t v) { u(v, 24); }
  void u32(std::uint64_t v) { u(v, 32); }
  void u64(std::uint64_t v) { u(v, 64); }
  void raw(const Bytes& x);
  void raw(const FourCC& x);
  void chars(const std::string& s);
  void cstr(const std::string& s);
  void full(std::uint8_t version, std::uint32_t flags);
};

using BoxPtr = std::unique_ptr<shiguredo::mp4::Box>;

struct Sample {
  std::string kind;
  std::string variant;   // which optional fields / version: for coverage labels
  FourCC type{};
  Bytes wire;            // payload bytes
  std::string text;      // toStringOnlyData
  std::function<BoxPtr()> make;   // library object from the same values (null: foreign-only bytes)
  std::function<BoxPtr()> fresh;  // default-constructed object of that kind, ready to decode
  bool full = false;              // has version and flags
  std::uint8_t version = 0;
  std::uint32_t flags = 0;
  bool registered = true;         // obtainable from the registry under `type`
  bool container = false;         // may carry child boxes after its payload
  bool under_wave = false;
  bool greedy = false;            // the payload runs to the end of the box: no children possible
  bool reencodable = true;        // false: contents the library can describe but (rightly) refuses to write
  bool interesting = false;       // beyond all-default values
  // inclusive ranges of prefix lengths of `wire` that are not required to be refused
  std::vector<std::pair<std::size_t, std::size_t>> lenient_prefix;
  bool prefix_must_fail(std::size_t n) const;
};

struct Kind {
  std::string name;
  std::function<Sample(Src&, bool foreign)> gen;
};

const std::vector<Kind>& kinds();
const Kind& kind(const std::string& name);
const Kind& pick_kind(Src& s);  // one of kinds(), those of many forms more often

// A sample with one list, blob or string of a length around 2^7, 2^8, 2^14, 2^15, 2^16 or above
Sample wide_sample(Src& s, bool foreign);

// the type registry, from the formats the library documents as supported
struct RegEntry {
  FourCC type;
  std::string kind;
  std::vector<std::uint8_t> versions;  // empty: any
};
const std::vector<RegEntry>& registry();

// text helpers
std::string time_text(std::uint64_t t);
std::string fixed4(double v);

bool avc_high_profile(std::uint8_t profile);

}  // namespace model
