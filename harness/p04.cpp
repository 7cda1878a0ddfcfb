// P04: decoding foreign bytes reports exactly the field values they hold.
#include "lib.hpp"

using namespace pbt;
using namespace model;

namespace {

void foreign_sample(Src& s, const Sample& x, Ctx& c) {
  c.label("kind " + x.kind);
  c.label(x.kind + " " + x.variant);
  c.label_if(!x.make, "not emitted by this library");
  c.nontrivial(x.interesting);
  c.fingerprint(hash_bytes(x.wire.data(), x.wire.size(), mix(4, hash_bytes(x.kind.data(), x.kind.size()))));
  c.sample(x.kind + " " + x.variant + " payload=" + hex(x.wire, 48));
  c.note("kind " + x.kind + " variant " + x.variant + " payload " + hex(x.wire, 4096));
  BoxPtr b = s.coin() && x.registered ? lib::from_registry(x.type, x.under_wave) : x.fresh();
  const Bytes after = x.greedy ? Bytes{} : s.bytes(s.size(3, 40));
  lib::decode(*b, x.wire, after, s.bytes(s.size(0, 16)));
  const std::string t = b->toStringOnlyData();
  if (t != x.text) fail(x.kind + ": description: " + diff(x.text, t));
  if (x.full) {
    PBT_CHECK(b->getVersion() == x.version, "version");
    PBT_CHECK(b->getFlags() == x.flags, "flags");
  }
}

void foreign(Src& s, Ctx& c) {
  const auto& k = pick_kind(s);
  foreign_sample(s, k.gen(s, s.chance(2, 3)), c);
}

// lists, blobs and strings around the limits of 7-, 8-, 14- and 16-bit lengths
void wide_case(Src& s, Ctx& c) { foreign_sample(s, wide_sample(s, s.chance(2, 3)), c); }

// the description of a box built from the same values is the same
void built(Src& s, Ctx& c) {
  const auto& k = pick_kind(s);
  const Sample x = k.gen(s, false);
  if (!x.make) return;
  c.label("kind " + x.kind);
  c.nontrivial(x.interesting);
  c.fingerprint(hash_bytes(x.wire.data(), x.wire.size(), mix(5, hash_bytes(x.kind.data(), x.kind.size()))));
  c.note("kind " + x.kind + " variant " + x.variant + " payload " + hex(x.wire, 4096));
  BoxPtr b = x.make();
  const std::string t = b->toStringOnlyData();
  if (t != x.text) fail(x.kind + ": description of the built box: " + diff(x.text, t));
}

}  // namespace

int main(int argc, char** argv) {
  Suite suite;
  suite.property = "P04";
  suite.rule =
      "A case draws one of the modelled box kinds, lays its field values out with an independent encoder (two thirds of "
      "the time allowing legal forms this library does not emit), decodes the bytes with the library and compares the "
      "rendered description with the one derived from the values. Non-trivial: contents beyond the all-default form; "
      "distinct by kind and payload bytes.";
  suite.init = lib::quiet;
  suite.groups = {
      {"foreign", 70000, 3000000, foreign},
      {"built", 20000, 500000, built},
      {"wide", 800, 80000, wide_case},
  };
  return run_main(argc, argv, suite);
}
