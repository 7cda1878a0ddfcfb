// P02: declared sizes equal the bytes actually produced and consumed.
#include "lib.hpp"

#include <algorithm>

#include "shiguredo/mp4/box/boxes.hpp"

using namespace pbt;
using namespace model;

namespace {
using shiguredo::mp4::Box;

Sample pick_sample(Src& s, Ctx& c, bool foreign, bool wide = false) {
  Sample x;
  if (wide) {
    x = wide_sample(s, foreign);
    if (!x.reencodable) x = wide_sample(s, false);
  } else {
    const auto& k = pick_kind(s);
    x = k.gen(s, foreign);
    if (!x.reencodable) x = k.gen(s, false);
  }
  c.label("kind " + x.kind);
  c.label(x.kind + " " + x.variant);
  c.nontrivial(x.interesting);
  c.fingerprint(hash_bytes(x.wire.data(), x.wire.size(), mix(2, hash_bytes(x.kind.data(), x.kind.size()))));
  c.sample(x.kind + " " + x.variant + " payload=" + hex(x.wire, 48));
  c.note("kind " + x.kind + " variant " + x.variant + " payload " + hex(x.wire, 4096));
  return x;
}

void truthful(const std::string& how, const Box& b, const lib::Encoded& e) {
  const std::string n = " declared=" + std::to_string(e.declared) + " reported bits=" + std::to_string(e.bits) +
                        " bytes written=" + std::to_string(e.bytes.size());
  if (e.bits != 8 * e.bytes.size()) fail(how + ": the encoder misreports what it wrote:" + n);
  if (e.declared != e.bytes.size()) fail(how + ": the declared payload size is not what was written:" + n);
  if (b.getDataSize() != e.declared) fail(how + ": encoding changed the declared size");
}

void built_sample(const Sample& x) {
  BoxPtr b;
  if (x.make) {
    b = x.make();
  } else {
    b = x.fresh();
    lib::decode(*b, x.wire);
  }
  truthful("built box", *b, lib::encode(*b));
}

void built(Src& s, Ctx& c) { built_sample(pick_sample(s, c, false)); }

void decoded_sample(Src& s, const Sample& x) {
  BoxPtr b = s.coin() && x.registered ? lib::from_registry(x.type, x.under_wave) : x.fresh();
  const Bytes after = x.greedy ? Bytes{} : s.bytes(s.size(3, 40));
  const Bytes before = s.bytes(s.size(2, 40));
  const auto d = lib::decode(*b, x.wire, after, before);
  if (d.bits != 8 * x.wire.size()) {
    fail("the decoder reports " + std::to_string(d.bits) + " bits for a payload of " + std::to_string(8 * x.wire.size()));
  }
  // a decoder may leave bytes it does not understand at the end unread, but must never go past them
  if (d.position > x.wire.size()) fail("the decoder moved past its payload");
  truthful("decoded box", *b, lib::encode(*b));
}

void decoded(Src& s, Ctx& c) { decoded_sample(s, pick_sample(s, c, s.coin())); }

// lists, blobs and strings around the limits of 7-, 8-, 14- and 16-bit lengths
void wide_case(Src& s, Ctx& c) {
  const Sample x = pick_sample(s, c, s.coin(), true);
  built_sample(x);
  decoded_sample(s, x);
}

void placed(Src& s, Ctx& c) {
  const Sample x = pick_sample(s, c, s.chance(1, 4));
  BoxPtr b;
  if (x.make) {
    b = x.make();
  } else {
    b = x.fresh();
    lib::decode(*b, x.wire);
  }
  const std::uint64_t payload = lib::encode(*b).bytes.size();
  const std::size_t offset = s.size(20, 5000);
  const std::size_t behind = s.size(10, 64);
  std::ostringstream os;
  const std::string fill(offset + 16 + payload + behind, '\x5a');
  os << fill;
  const std::uint64_t hs = b->getHeaderSize();
  b->setOffsetAndDataSize(offset, b->getDataSize());
  if (hs != 8 || b->getHeaderSize() != 8) fail("an ordinary box does not have an 8-byte header");
  if (b->getSize() != 8 + payload) {
    fail("total size " + std::to_string(b->getSize()) + " is not header + payload (" + std::to_string(8 + payload) + ")");
  }
  b->write(os);
  const std::string out = os.str();
  PBT_CHECK(out.size() == fill.size(), "the file grew");
  const std::size_t end = offset + b->getSize();
  for (std::size_t i = 0; i < offset; ++i) {
    if (out[i] != '\x5a') fail("bytes before the box were overwritten at " + std::to_string(i));
  }
  for (std::size_t i = end; i < out.size(); ++i) {
    if (out[i] != '\x5a') fail("bytes behind the box were overwritten at " + std::to_string(i - offset));
  }
  if (static_cast<std::uint64_t>(static_cast<std::streamoff>(os.tellp())) != end) fail("writing did not stop at the box's end");
  std::uint64_t sz = 0;
  for (std::size_t i = 0; i < 4; ++i) sz = (sz << 8) | static_cast<unsigned char>(out[offset + i]);
  if (sz != b->getSize()) fail("the size in the header is " + std::to_string(sz));
  const auto e = lib::encode(*b);
  if (Bytes(out.begin() + static_cast<std::ptrdiff_t>(offset) + 8, out.begin() + static_cast<std::ptrdiff_t>(end)) !=
      e.bytes) {
    fail("payload bytes written behind the header differ from the box's encoding");
  }
}

// a metadata box in QuickTime's form has no fields of its own: its payload starts with the first child
void quicktime_meta(Src& s, Ctx& c) {
  Bytes child = s.bytes(4 + s.size(10, 60));
  if (std::all_of(child.begin(), child.begin() + 4, [](std::uint8_t v) { return v == 0; })) child[s.below(4)] = 1;
  shiguredo::mp4::box::Meta b;
  const std::size_t times = 1 + s.below(3);
  for (std::size_t i = 0; i < times; ++i) {
    // the other form before or in between must leave nothing behind
    if (s.chance(1, 3)) {
      const auto d = lib::decode(b, {0, 0, 0, 0}, child);
      if (d.bits != 32 || d.position != 4) fail("the standard form's fields are not four bytes");
      truthful("standard metadata box", b, lib::encode(b));
    }
    const auto d = lib::decode(b, child, {}, s.bytes(s.size(3, 20)));
    if (d.bits != 0) fail("fields reported in a metadata box that has none");
    if (d.position != 0) fail("bytes of the first child were consumed: " + std::to_string(d.position));
    const auto e = lib::encode(b);
    truthful("QuickTime metadata box", b, e);
    if (!e.bytes.empty()) fail("fields were written for a metadata box that has none");
  }
  c.nontrivial(child.size() > 8 || times > 1);
  c.fingerprint(hash_bytes(child.data(), child.size(), times));
  c.sample("QuickTime meta, payload=" + hex(child, 32));
}

// a box whose version and flags were changed after it was built or decoded: other fields, other widths, other sizes.
// What the new version cannot hold is refused; what is encoded must still be what is declared.
void revised(Src& s, Ctx& c) {
  const Sample x = pick_sample(s, c, s.coin());
  BoxPtr b;
  if (x.make && s.coin()) {
    b = x.make();
  } else {
    b = x.fresh();
    lib::decode(*b, x.wire);
  }
  const std::size_t times = 1 + s.below(3);
  bool refused = false;
  for (std::size_t i = 0; i < times; ++i) {
    if (s.chance(3, 4)) b->setVersion(static_cast<std::uint8_t>(s.chance(7, 8) ? s.below(3) : s.bits(8)));
    switch (s.below(4)) {
      case 0: b->setFlags(static_cast<std::uint32_t>(s.bits(24))); break;
      case 1: b->addFlag(1U << s.below(24)); break;
      case 2: b->removeFlag(1U << s.below(24)); break;
      default: break;
    }
    const std::uint64_t declared = b->getDataSize();
    lib::Encoded e;
    refused = !lib::thrown([&] { e = lib::encode(*b); }).empty();
    if (!refused) truthful("box given version " + std::to_string(b->getVersion()) + " and flags " + std::to_string(b->getFlags()), *b, e);
    if (b->getDataSize() != declared) fail("the declared size changed by itself");
  }
  c.label_if(refused, "refused in the new version");
}

// group descriptions whose entries do not fit together; no decoder could tell them apart, but sizes must still be true
void odd_groups(Src& s, Ctx& c) {
  namespace bx = shiguredo::mp4::box;
  const auto length = [&] { return static_cast<std::uint32_t>(s.coin() ? 0 : s.bits(s.range(1, 32))); };
  const std::uint8_t version = static_cast<std::uint8_t>(s.below(4));
  const std::size_t n = s.size(4, 12);
  std::vector<bx::RollDistance> rolls;
  std::vector<bx::AlternativeStartupEntry> alts;
  std::vector<bx::VisualRandomAccessEntry> raps;
  std::vector<bx::TemporalLevelEntry> teles;
  static const char* names[] = {"roll", "prol", "alst", "rap ", "tele"};
  const std::size_t which = s.below(5);
  for (std::size_t i = 0; i < n; ++i) {
    switch (which) {
      case 0:
      case 1: rolls.emplace_back(bx::RollDistanceParameters{.description_length = length(), .roll_distance = static_cast<std::int16_t>(s.bits(16))}); break;
      case 2: {
        std::vector<std::uint32_t> offsets(s.below(4), 7);
        std::vector<bx::AlternativeStartupEntryOpt> opts;
        for (std::size_t k = s.below(3); k > 0; --k) opts.emplace_back(bx::AlternativeStartupEntryOptParameters{.num_output_samples = 1, .num_total_samples = 2});
        alts.emplace_back(bx::AlternativeStartupEntryParameters{.description_length = length(), .roll_count = static_cast<std::uint16_t>(s.coin() ? offsets.size() : s.below(5)), .first_output_sample = 3, .sample_offsets = offsets, .opts = opts});
        break;
      }
      case 3: raps.emplace_back(bx::VisualRandomAccessEntryParameters{.description_length = length(), .num_leading_samples_known = s.coin(), .num_leading_samples = static_cast<std::uint8_t>(s.bits(7))}); break;
      default: teles.emplace_back(bx::TemporalLevelEntryParameters{.description_length = length(), .level_independently_decodable = s.coin()}); break;
    }
  }
  const char* g = names[which];
  bx::Sgpd b({.version = version, .grouping_type = {std::uint8_t(g[0]), std::uint8_t(g[1]), std::uint8_t(g[2]), std::uint8_t(g[3])}, .default_length = length(),
              .roll_distances = rolls, .alternative_startup_entries = alts, .visual_random_access_entries = raps, .temporal_level_entries = teles});
  lib::Encoded e;
  const bool refused = !lib::thrown([&] { e = lib::encode(b); }).empty();
  if (!refused) truthful(std::string("group description ") + g, b, e);
  c.label(std::string("group ") + g);
  c.label_if(refused, "group refused");
  c.nontrivial(n > 1);
  c.fingerprint(hash_bytes(e.bytes.data(), e.bytes.size(), 17));
  c.sample(b.toString().substr(0, 200));
  c.note(b.toString());
}

}  // namespace

int main(int argc, char** argv) {
  Suite suite;
  suite.property = "P02";
  suite.rule =
      "A case draws one of the modelled box kinds with all its field values, builds or decodes the box, and compares the "
      "declared size, the reported bit counts and the real byte counts, also for a box placed at an offset in a larger "
      "stream, a box whose version and flags were changed, and sample groups with entries that do not fit together. Non-trivial: contents beyond the all-default form; distinct by kind and payload bytes.";
  suite.init = lib::quiet;
  suite.groups = {
      {"built", 30000, 1500000, built},
      {"decoded", 60000, 2000000, decoded},
      {"placed", 20000, 800000, placed},
      {"wide", 600, 60000, wide_case},
      {"quicktime_meta", 2000, 100000, quicktime_meta},
      {"revised", 40000, 1500000, revised},
      {"odd_groups", 20000, 500000, odd_groups},
  };
  return run_main(argc, argv, suite);
}
