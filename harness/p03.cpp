// P03: encoded payloads follow the standard byte layout (against the independent encoder of the model).
#include "lib.hpp"

using namespace pbt;
using namespace model;

namespace {

void layout_sample(const Sample& x, Ctx& c) {
  c.label("kind " + x.kind);
  c.label(x.kind + " " + x.variant);
  if (!x.make) return;
  c.nontrivial(x.interesting);
  c.fingerprint(hash_bytes(x.wire.data(), x.wire.size(), mix(3, hash_bytes(x.kind.data(), x.kind.size()))));
  c.sample(x.kind + " " + x.variant + " payload=" + hex(x.wire, 48));
  c.note("kind " + x.kind + " variant " + x.variant + "\nfields: " + x.text.substr(0, 4000));
  c.note("expected payload (" + std::to_string(x.wire.size()) + " bytes): " + hex(x.wire, 4096));
  BoxPtr b = x.make();
  const auto e = lib::encode(*b);
  if (e.bytes != x.wire) fail(x.kind + ": payload bytes: " + diff(x.wire, e.bytes));
}

void layout(Src& s, Ctx& c) { layout_sample(pick_kind(s).gen(s, false), c); }

// lists, blobs and strings around the limits of 7-, 8-, 14- and 16-bit lengths
void wide_case(Src& s, Ctx& c) { layout_sample(wide_sample(s, false), c); }

// version and flags set on the box afterwards decide the layout just as those given at construction
void relaid(Src& s, Ctx& c) {
  const auto& k = pick_kind(s);
  const Sample x = k.gen(s, false);
  if (!x.make || !x.full) return;
  c.label("kind " + x.kind);
  c.nontrivial(x.flags != 0);
  c.fingerprint(hash_bytes(x.wire.data(), x.wire.size(), mix(4, hash_bytes(x.kind.data(), x.kind.size()))));
  BoxPtr b = x.make();
  const auto v = static_cast<std::uint8_t>(s.bits(8));
  const auto f = static_cast<std::uint32_t>(s.bits(24));
  b->setVersion(v);
  b->setFlags(f);
  b->setVersion(x.version);
  b->setFlags(x.flags);
  const auto e = lib::encode(*b);
  if (e.bytes != x.wire) fail(x.kind + ": payload bytes after changing version and flags and back: " + diff(x.wire, e.bytes));
}

}  // namespace

int main(int argc, char** argv) {
  Suite suite;
  suite.property = "P03";
  suite.rule =
      "A case draws one of the modelled box kinds with every field value and compares the library's payload bytes with "
      "those of an independent encoder for the same values. Non-trivial: contents beyond the all-default form; distinct "
      "by kind and payload bytes.";
  suite.init = lib::quiet;
  suite.groups = {
      {"layout", 70000, 3000000, layout},
      {"relaid", 20000, 500000, relaid},
      {"wide", 800, 80000, wide_case},
  };
  return run_main(argc, argv, suite);
}
