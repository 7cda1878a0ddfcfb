// P18: version and flag operations on boxes obey set semantics.
#include "lib.hpp"

using namespace pbt;
using namespace model;

namespace {
using shiguredo::mp4::Box;
using shiguredo::mp4::FullBox;

std::string vf_text(unsigned version, std::uint32_t flags) {
  char buf[64];
  std::snprintf(buf, sizeof buf, "Version=%u Flags=0x%06x", version, flags);
  return buf;
}

std::uint32_t mask24(Src& s, std::uint32_t now) {
  switch (s.below(6)) {
    case 0: return std::uint32_t(1) << s.below(24);
    case 1: return now;
    case 2: return ~now & 0xffffff;
    case 3: return s.pick<std::uint32_t>({0, 0xffffff, 0x000001, 0x800000, 0x0000ff, 0x00ff00, 0xff0000, 0x010100});
    case 4: return now ^ (std::uint32_t(1) << s.below(24));
    default: return static_cast<std::uint32_t>(s.bits(24));
  }
}

struct Model {
  bool full = false;
  std::uint8_t version = 0;
  std::uint32_t flags = 0;
};

void observe(const Box& b, const Model& m, Src& s, const std::string& story) {
  if (b.getVersion() != m.version) fail("getVersion() is " + std::to_string(b.getVersion()) + ", expected " + std::to_string(m.version) + story);
  if (b.getFlags() != m.flags) {
    char buf[64];
    std::snprintf(buf, sizeof buf, "getFlags() is 0x%x, expected 0x%06x", b.getFlags(), m.flags);
    fail(buf + story);
  }
  const std::uint32_t q = mask24(s, m.flags);
  const bool want = !m.full || (m.flags & q) != 0;
  if (b.checkFlag(q) != want) {
    char buf[64];
    std::snprintf(buf, sizeof buf, "checkFlag(0x%06x) is %s", q, want ? "false" : "true");
    fail(buf + story);
  }
  if (const auto* f = dynamic_cast<const FullBox*>(&b); f && f->getVersionAndFlagsString() != vf_text(m.version, m.flags)) {
    fail("renders as " + f->getVersionAndFlagsString() + ", expected " + vf_text(m.version, m.flags) + story);
  }
}

// what an encoded box says about itself
void head(const Bytes& w, const Model& m, const std::string& story) {
  if (w.size() < 4) fail("a versioned box of " + std::to_string(w.size()) + " bytes" + story);
  const std::uint32_t f = static_cast<std::uint32_t>(w[1]) << 16 | static_cast<std::uint32_t>(w[2]) << 8 | w[3];
  if (w[0] != m.version || f != m.flags) {
    fail("encoded as " + vf_text(w[0], f) + ", expected " + vf_text(m.version, m.flags) + story);
  }
}

void history(Src& s, Ctx& c) {
  const auto& k = pick_kind(s);
  const Sample x = k.gen(s, false);
  BoxPtr b;
  bool from_params = false;
  if (x.make && s.coin()) {
    b = x.make();
    from_params = true;
  } else {
    b = x.registered && s.coin() ? lib::from_registry(x.type, x.under_wave) : x.fresh();
    lib::decode(*b, x.wire);
  }
  std::string story = "\n" + x.kind + " " + x.variant + (from_params ? " from parameters " : " decoded ") + hex(x.wire, 256);
  Model m;
  m.full = x.full;
  if (x.full) {
    m.version = x.version;
    m.flags = x.flags;
  }
  c.label("kind " + x.kind);
  c.label(x.full ? "versioned" : "unversioned");
  const std::string text0 = b->toStringOnlyData();
  observe(*b, m, s, story);
  const std::size_t n = s.range(1, 14);
  unsigned changes = 0;
  bool reversioned = false;  // the contents may be those of another version
  for (std::size_t i = 0; i < n; ++i) {
    const unsigned op = static_cast<unsigned>(s.below(8));
    char buf[64];
    const Model was = m;
    switch (op) {
      case 0: {
        const std::uint8_t v = s.coin() ? static_cast<std::uint8_t>(s.below(3)) : static_cast<std::uint8_t>(s.bits(8));
        std::snprintf(buf, sizeof buf, "\nsetVersion(%u)", v);
        story += buf;
        b->setVersion(v);
        reversioned = true;
        if (m.full) m.version = v;
        break;
      }
      case 1:
      case 2:
      case 3: {
        const std::uint32_t f = mask24(s, m.flags);
        std::snprintf(buf, sizeof buf, "\n%s(0x%06x)", op == 1 ? "setFlags" : op == 2 ? "addFlag" : "removeFlag", f);
        story += buf;
        if (op == 1) b->setFlags(f);
        if (op == 2) b->addFlag(f);
        if (op == 3) b->removeFlag(f);
        if (m.full) {
          if (op == 1) m.flags = f;
          if (op == 2) m.flags |= f;
          if (op == 3) {
            c.label_if((m.flags & f) != f, "removing flags that are not set");
            m.flags &= ~f;
          }
        }
        break;
      }
      case 4: {  // the operations through the base class or on the object itself: the same thing
        const std::uint32_t f = mask24(s, m.flags);
        std::snprintf(buf, sizeof buf, "\nadd then remove (0x%06x)", f);
        story += buf;
        b->addFlag(f);
        b->removeFlag(f);
        if (m.full) m.flags &= ~f;
        break;
      }
      case 5: {  // decoding replaces both
        const Sample y = k.gen(s, false);
        if (y.type != x.type || y.under_wave != x.under_wave) break;
        story += "\ndecode " + hex(y.wire, 256);
        lib::decode(*b, y.wire);
        reversioned = true;
        if (m.full) {
          m.version = y.version;
          m.flags = y.flags;
        }
        const std::string t = b->toStringOnlyData();
        if (t != y.text) fail("after decoding: " + diff(y.text, t) + story);
        break;
      }
      default: {  // what is encoded and what that decodes to; values another version has no room for may be refused
        story += "\nencode";
        lib::Encoded e;
        bool refused = false;
        try {
          e = lib::encode(*b);
        } catch (const std::exception&) {
          refused = true;
        }
        if (refused) {
          if (!m.full) fail("an unversioned box is refused" + story);
          c.label("refused under another version or flags");
          break;
        }
        if (m.full) {
          head(e.bytes, m, story);
          const std::string t = b->toStringOnlyData();
          const std::string want = vf_text(m.version, m.flags);
          if (t.rfind(want, 0) != 0 || (t.size() > want.size() && t[want.size()] != ' ')) fail("rendered text is " + t.substr(0, 60) + ", expected " + want + story);
          BoxPtr d = x.fresh();
          bool ok = true;
          try {
            lib::decode(*d, e.bytes);
          } catch (const std::exception&) {
            ok = false;  // an unknown version need not decode
          }
          if (ok) {
            Model w = m;
            if (x.kind == "meta" && (m.version != 0 || m.flags != 0)) w = Model{true, 0, 0};  // reads as QuickTime's meta box
            observe(*d, w, s, story + "\n(decoded from the encoded bytes)");
          } else if (!reversioned) {
            fail("cannot decode what was encoded" + story);
          }
        } else {
          c.label("unversioned encode");
        }
        break;
      }
    }
    changes += was.version != m.version || was.flags != m.flags;
    observe(*b, m, s, story);
  }
  // put back as it was: the box is the same as before
  if (x.full) {
    BoxPtr b2 = x.make ? x.make() : x.fresh();
    if (!x.make) lib::decode(*b2, x.wire);
    const std::uint32_t a = mask24(s, x.flags);
    b2->setVersion(static_cast<std::uint8_t>(s.bits(8)));
    b2->addFlag(a);
    b2->removeFlag(mask24(s, a));
    b2->setVersion(x.version);
    b2->addFlag(x.flags);
    b2->removeFlag(~x.flags & 0xffffff);
    m.version = x.version;
    m.flags = x.flags;
    observe(*b2, m, s, "\n" + x.kind + " put back to its own version and flags");
    if (b2->toStringOnlyData() != text0) fail("put back, rendered text differs: " + diff(text0, b2->toStringOnlyData()));
    if (x.reencodable) {
      const auto e = lib::encode(*b2);
      if (e.bytes != x.wire) fail("put back, encoded bytes differ: " + diff(x.wire, e.bytes));
    }
  } else if (x.reencodable) {
    BoxPtr b2 = x.make ? x.make() : x.fresh();
    if (!x.make) lib::decode(*b2, x.wire);
    b2->setVersion(static_cast<std::uint8_t>(s.bits(8)));
    b2->setFlags(mask24(s, 0));
    b2->addFlag(mask24(s, 0));
    b2->removeFlag(mask24(s, 0));
    const auto e = lib::encode(*b2);
    if (e.bytes != x.wire) fail("an unversioned box does not ignore version and flags: " + diff(x.wire, e.bytes));
    if (b2->toStringOnlyData() != text0) fail("an unversioned box does not ignore version and flags: " + diff(text0, b2->toStringOnlyData()));
    ++changes;
  }
  c.nontrivial(changes >= 1);
  c.fingerprint(hash_bytes(story.data(), story.size()));
  c.sample(story.substr(0, 400));
  c.note(story);
}

// one operation from any state, checked bit by bit
void single(Src& s, Ctx& c) {
  static const std::vector<const Kind*> full = [] {
    std::vector<const Kind*> v;
    for (const auto& k : kinds()) {
      Src zero{std::vector<std::uint64_t>{}};
      if (k.gen(zero, false).full) v.push_back(&k);
    }
    return v;
  }();
  const Kind& k = *s.one_of(full);
  Src zero{std::vector<std::uint64_t>{}};
  BoxPtr b = k.gen(zero, false).fresh();
  c.label("kind " + k.name);
  c.nontrivial();
  const std::uint32_t f = static_cast<std::uint32_t>(s.below(1u << 24)), g = s.chance(1, 3) ? mask24(s, f) : static_cast<std::uint32_t>(s.below(1u << 24));
  const std::uint8_t v = static_cast<std::uint8_t>(s.below(256));
  c.fingerprint(mix(mix(f, g), v));
  char buf[96];
  std::snprintf(buf, sizeof buf, "%s: version %u flags 0x%06x with 0x%06x", k.name.c_str(), v, f, g);
  c.sample(buf);
  c.note(buf);
  auto state = [&](std::uint32_t want, const char* what) {
    if (b->getVersion() != v || b->getFlags() != want) {
      std::snprintf(buf, sizeof buf, "%s: version %u flags 0x%x, expected %u and 0x%06x", what, b->getVersion(), b->getFlags(), v, want);
      fail(buf);
    }
    for (unsigned i = 0; i < 24; ++i) {
      if (b->checkFlag(1u << i) != ((want >> i & 1) != 0)) fail(std::string(what) + ": checkFlag is wrong for bit " + std::to_string(i));
    }
    if (b->checkFlag(g) != ((want & g) != 0)) fail(std::string(what) + ": checkFlag is wrong for the mask");
    if (b->checkFlag(0)) fail(std::string(what) + ": checkFlag(0) is true");
  };
  const bool version_first = s.coin();
  if (version_first) b->setVersion(v);
  b->setFlags(f);
  if (!version_first) b->setVersion(v);
  state(f, "set");
  b->addFlag(g);
  state(f | g, "add");
  b->addFlag(g);
  state(f | g, "add again");
  b->removeFlag(g);
  state(f & ~g, "remove");
  b->removeFlag(g);
  state(f & ~g, "remove again");
  b->setFlags(g);
  state(g, "set over");
  auto* fb = dynamic_cast<FullBox*>(b.get());
  if (fb == nullptr) fail("not a versioned box");
  if (fb->getVersionAndFlagsString() != vf_text(v, g)) fail("renders as " + fb->getVersionAndFlagsString());
}

}  // namespace

int main(int argc, char** argv) {
  Suite suite;
  suite.property = "P18";
  suite.rule =
      "A case draws a box of any kind, from parameters or decoded, and a history of setting versions, setting, adding, "
      "removing and checking flags, encoding, rendering and decoding, followed against a set model after every step, then "
      "puts version and flags back and compares bytes and text with the original; or one operation of each kind from a "
      "random state, checked bit by bit. Non-trivial: version or flags changed at least once; distinct by history.";
  suite.assumptions = {"masks have 24 bits", "a box whose fields do not fit the version it was set to may refuse to be encoded",
                       "a meta box has version and flags zero in files (other values are how QuickTime's meta box is told apart)"};
  suite.init = lib::quiet;
  suite.groups = {
      {"history", 40000, 2000000, history},
      {"single", 40000, 2000000, single},
  };
  return run_main(argc, argv, suite);
}
