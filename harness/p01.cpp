// P01: every box survives an encode/decode round trip.
#include "lib.hpp"

using namespace pbt;
using namespace model;

namespace {
using shiguredo::mp4::Box;

Sample pick_sample(Src& s, Ctx& c, bool foreign, bool wide = false) {
  Sample x;
  if (wide) {
    x = wide_sample(s, foreign);
    if (!x.reencodable) x = wide_sample(s, false);
  } else {
    const auto& k = pick_kind(s);
    x = k.gen(s, foreign);
    if (!x.reencodable) x = k.gen(s, false);
  }
  c.label("kind " + x.kind);
  c.label(x.kind + " " + x.variant);
  c.nontrivial(x.interesting);
  c.fingerprint(hash_bytes(x.wire.data(), x.wire.size(), mix(1, hash_bytes(x.kind.data(), x.kind.size()))));
  c.sample(x.kind + " " + x.variant + " payload=" + hex(x.wire, 48));
  c.note("kind " + x.kind + " variant " + x.variant + " type " + type_text(x.type));
  c.note("model payload (" + std::to_string(x.wire.size()) + " bytes): " + hex(x.wire, 4096));
  return x;
}

// the box under test: built from parameters, or (for contents only another producer emits) decoded
BoxPtr original(const Sample& x) {
  if (x.make) return x.make();
  BoxPtr b = x.fresh();
  lib::decode(*b, x.wire);
  return b;
}

void same(const std::string& how, const std::string& text, const lib::Encoded& e, Box& got, const lib::Decoded& d) {
  if (d.position != e.bytes.size()) {
    fail(how + ": decoding consumed " + std::to_string(d.position) + " of " + std::to_string(e.bytes.size()) + " bytes");
  }
  if (d.bits != e.bits) {
    fail(how + ": the decoder reports " + std::to_string(d.bits) + " bits, the encoder " + std::to_string(e.bits));
  }
  const std::string t = got.toStringOnlyData();
  if (t != text) fail(how + ": rendered text differs: " + diff(text, t));
  const auto e2 = lib::encode(got);
  if (e2.bytes != e.bytes) fail(how + ": re-encoded bytes differ: " + diff(e.bytes, e2.bytes));
}

Bytes junk(Src& s, const Sample& x) { return x.greedy ? Bytes{} : s.bytes(s.size(2, 40)); }

void fresh_sample(Src& s, const Sample& x) {
  BoxPtr b = original(x);
  const auto e = lib::encode(*b);
  const std::string text = b->toStringOnlyData();
  BoxPtr f = x.fresh();
  const Bytes after = junk(s, x), before = s.bytes(s.size(0, 16));
  same("fresh object", text, e, *f, lib::decode(*f, e.bytes, after, before));
  if (f->getVersion() != b->getVersion() || f->getFlags() != b->getFlags()) fail("version or flags lost");
  // encoding is a pure function of the box
  const auto e2 = lib::encode(*b);
  if (e2.bytes != e.bytes) fail("encoding the same box twice differs: " + diff(e.bytes, e2.bytes));
}

void fresh_case(Src& s, Ctx& c) { fresh_sample(s, pick_sample(s, c, s.chance(1, 4))); }

void wide_case(Src& s, Ctx& c) { fresh_sample(s, pick_sample(s, c, s.chance(1, 4), true)); }

void registry_case(Src& s, Ctx& c) {
  const Sample x = pick_sample(s, c, s.chance(1, 4));
  BoxPtr b = original(x);
  const auto e = lib::encode(*b);
  const std::string text = b->toStringOnlyData();
  if (!x.registered) {
    BoxPtr r = lib::from_registry(fourcc("unsu"), false);
    same("registry placeholder", text, e, *r, lib::decode(*r, e.bytes));
    return;
  }
  BoxPtr r = lib::from_registry(x.type, x.under_wave);
  same("registry object", text, e, *r, lib::decode(*r, e.bytes, junk(s, x)));
  PBT_CHECK(r->getType() == shiguredo::mp4::BoxType(x.type), "type code of the registry object changed");
}

void reuse_case(Src& s, Ctx& c) {
  const auto& k = pick_kind(s);
  Sample x = k.gen(s, s.chance(1, 4));
  Sample y = k.gen(s, s.chance(1, 4));
  if (!x.reencodable) x = k.gen(s, false);
  if (!y.reencodable) y = k.gen(s, false);
  c.label("kind " + x.kind);
  c.nontrivial(x.interesting || y.interesting);
  c.label_if(x.variant != y.variant, "variant change");
  c.fingerprint(hash_bytes(x.wire.data(), x.wire.size(), hash_bytes(y.wire.data(), y.wire.size(), hash_bytes(k.name.data(), k.name.size()))));
  c.sample(x.kind + " " + x.variant + " then " + y.variant);
  c.note("kind " + x.kind + ": first " + x.variant + " " + hex(x.wire, 2048) + "\nthen " + y.variant + " " + hex(y.wire, 2048));
  BoxPtr o = original(y);
  const auto e = lib::encode(*o);
  const std::string text = o->toStringOnlyData();

  BoxPtr used;
  const unsigned how = static_cast<unsigned>(s.below(4));
  if (how == 0 && x.make && x.type == y.type) {
    used = x.make();
    c.label("reuse built box");
  } else {
    used = y.fresh();
    Bytes w = x.wire;
    if (how == 1 && !w.empty()) {
      w.resize(s.below(w.size()));
      c.label("reuse after cut payload");
    } else {
      c.label("reuse decoded box");
    }
    lib::thrown([&] { lib::decode(*used, w); });
    if (how == 2) {  // a third payload in between
      const Sample z = k.gen(s, false);
      lib::thrown([&] { lib::decode(*used, z.wire); });
    }
  }
  same("reused object", text, e, *used, lib::decode(*used, e.bytes, junk(s, y)));
}

}  // namespace

int main(int argc, char** argv) {
  Suite suite;
  suite.property = "P01";
  suite.rule =
      "A case draws one of the modelled box kinds and every field value (interesting corner values and uniform ones), "
      "builds the box, encodes it and decodes it with a fresh, a registry-made or a previously used object. Non-trivial: "
      "the box has contents beyond its all-default form; distinct by kind and payload bytes.";
  suite.init = lib::quiet;
  suite.groups = {
      {"fresh", 30000, 1500000, fresh_case},
      {"registry", 16000, 800000, registry_case},
      {"reuse", 24000, 1200000, reuse_case},
      {"wide", 600, 60000, wide_case},
  };
  return run_main(argc, argv, suite);
}
