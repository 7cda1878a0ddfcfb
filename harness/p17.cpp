// P17: the box type registry is complete and unknown types stay opaque.
#include <algorithm>
#include <compare>
#include <map>
#include <set>
#include <typeinfo>

#include "lib.hpp"
#include "shiguredo/mp4/box/unsupported.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "shiguredo/mp4/box_info.hpp"
#include "shiguredo/mp4/box_types.hpp"
#include "shiguredo/mp4/reader/reader.hpp"
#include "tree.hpp"

using namespace pbt;
using namespace model;

namespace {
using shiguredo::mp4::Box;
using shiguredo::mp4::BoxHeader;
using shiguredo::mp4::BoxMap;
using shiguredo::mp4::BoxType;
namespace box = shiguredo::mp4::box;

const RegEntry* entry_of(const FourCC& t) {
  static const std::map<FourCC, const RegEntry*> m = [] {
    std::map<FourCC, const RegEntry*> x;
    for (const auto& r : registry()) x[r.type] = &r;
    return x;
  }();
  const auto it = m.find(t);
  return it == m.end() ? nullptr : it->second;
}

// the dynamic type of the library object that a kind stands for
const std::type_info& type_of_kind(const std::string& k) {
  static std::map<std::string, const std::type_info*> m;
  auto& t = m[k];
  if (t == nullptr) {
    Src zero{std::vector<std::uint64_t>{}};
    const Sample x = kind(k).gen(zero, false);
    BoxPtr b = x.make ? x.make() : x.fresh();
    t = &typeid(*b);
  }
  return *t;
}

std::string show(const FourCC& t) { return hex(Bytes(t.begin(), t.end())); }

// a map of its own or the shared one: registration gives the same registry every time
BoxMap* some_map(Src& s, std::unique_ptr<BoxMap>& own) {
  if (!s.chance(1, 8)) return &lib::registry_map();
  own = std::make_unique<BoxMap>();
  shiguredo::mp4::register_box_map(own.get());
  return own.get();
}

void check_versions(BoxMap& m, const FourCC& t) {
  const RegEntry* r = entry_of(t);
  const BoxType bt(t);
  if (m.isSupported(bt) != (r != nullptr)) {
    fail(std::string("isSupported(") + show(t) + ") is " + (r ? "false for a registered" : "true for an unregistered") + " code");
  }
  if (r) {
    auto got = m.getSupportedVersions(bt);
    std::sort(got.begin(), got.end());
    auto want = r->versions;
    std::sort(want.begin(), want.end());
    if (got != want) fail("supported versions of " + type_text(t) + " are [" + hex(got) + "], not [" + hex(want) + "]");
  } else {
    const std::string e = lib::thrown([&] { m.getSupportedVersions(bt); });
    if (e.empty()) fail("getSupportedVersions(" + show(t) + ") answers for a code that is not supported");
  }
  for (unsigned v = 0; v < 256; ++v) {
    const bool want = r && (r->versions.empty() || std::find(r->versions.begin(), r->versions.end(), v) != r->versions.end());
    if (m.isSupportedVersion(bt, static_cast<std::uint8_t>(v)) != want) {
      fail("isSupportedVersion(" + type_text(t) + ", " + std::to_string(v) + ") is " + (want ? "false" : "true"));
    }
  }
}

// a payload of the entry's kind under exactly that type code, if the generator makes one in a few tries
Sample sample_for(Src& s, const RegEntry& r) {
  Sample x = kind(r.kind).gen(s, false);
  // the layout of an audio entry depends on its type code
  for (int i = 0; i < 40 && r.kind == "audio" && x.type != r.type; ++i) x = kind(r.kind).gen(s, false);
  if (r.kind != "audio") x.type = r.type;
  return x;
}

BoxHeader* header_for(Src& s, const FourCC& t, std::uint64_t data) {
  auto* h = new BoxHeader({.type = BoxType(t)});
  h->setOffsetAndDataSize(s.upto(std::uint64_t(1) << 40), data);
  return h;
}

std::string read_dump(const Bytes& b) {
  std::istringstream is(lib::str(b));
  CaptureStdout cap;
  std::string err;
  {
    shiguredo::mp4::reader::SimpleReader r(is);
    err = lib::thrown([&] { r.read(); });
  }
  const std::string out = cap.finish();
  if (!err.empty()) fail("a file with one box is refused: " + err);
  return out;
}

void entries(Src& s, Ctx& c) {
  const RegEntry& r = registry()[s.enumerate(registry().size())];
  const FourCC t = r.type;
  std::unique_ptr<BoxMap> own;
  BoxMap* m = some_map(s, own);
  c.label("code " + type_text(t));
  c.nontrivial();
  const Sample x = sample_for(s, r);
  if (x.type != t) return;
  c.fingerprint(hash_bytes(t.data(), 4, hash_bytes(x.wire.data(), x.wire.size())));
  c.sample(type_text(t) + " as " + r.kind + " " + x.variant + " payload=" + hex(x.wire, 40));
  c.note("code " + show(t) + " kind " + r.kind + " payload " + hex(x.wire, 2048));
  check_versions(*m, t);

  const bool through_header = s.coin();
  BoxPtr b;
  std::string header_text;
  if (through_header) {
    c.label("through a header");
    BoxHeader* h = header_for(s, t, x.wire.size());
    const std::string text = h->toString();
    const auto size = h->getSize();
    b.reset(m->getBoxInstance(h));
    if (!b) fail("no object for a header");
    if (b->getSize() != size) fail("the object's size is not its header's");
    if (!(h->getType() == BoxType(t))) fail("the header's type changed to " + h->getType().toString());
    header_text = text;
  } else {
    b.reset(m->getBoxInstance(BoxType(t)));
    if (!b) fail("no object");
  }
  if (typeid(*b) != type_of_kind(r.kind)) {
    fail(type_text(t) + " yields an object of class " + typeid(*b).name() + ", expected " + type_of_kind(r.kind).name());
  }
  if (!(b->getType() == BoxType(t))) fail("the object for " + type_text(t) + " says its type is " + b->getType().toString());
  if (x.under_wave) lib::set_under_wave(*b);
  const auto d = lib::decode(*b, x.wire);
  if (d.position != x.wire.size()) fail("the object did not consume a payload of its kind");
  if (b->toStringOnlyData() != x.text) fail(diff(x.text, b->toStringOnlyData()));
  if (!header_text.empty() && b->toString() != header_text + (x.text.empty() ? "" : " " + x.text)) fail("the object's text is not its header's and its own: " + b->toString());
  if (!(b->getType() == BoxType(t))) fail("decoding changed the type to " + b->getType().toString());
  if (x.reencodable) {
    // written as a box of its own it carries that type code
    if (!through_header) b->setOffsetAndDataSize(0, b->getDataSize());
    std::ostringstream os;
    if (through_header) b->setOffsetAndDataSize(0, b->getDataSize());
    b->write(os);
    const Bytes w = lib::bytes(os.str());
    if (w.size() < 8 || !std::equal(t.begin(), t.end(), w.begin() + 4)) fail("written with another type code: " + hex(w, 16));
  }
}

void unknown(Src& s, Ctx& c) {
  const FourCC t = tree::unregistered_type(s);
  std::unique_ptr<BoxMap> own;
  BoxMap* m = some_map(s, own);
  const Bytes data = s.bytes(s.size(8, 300));
  c.nontrivial();
  c.fingerprint(hash_bytes(t.data(), 4));
  c.sample(type_text(t) + " with " + std::to_string(data.size()) + " bytes");
  c.note("code " + show(t) + " payload " + hex(data, 600));
  check_versions(*m, t);
  BoxPtr b(m->getBoxInstance(BoxType(t)));
  if (!b || typeid(*b) != typeid(box::Unsupported)) fail("an unregistered code does not yield the opaque placeholder");
  const auto d = lib::decode(*b, data);
  if (d.position != data.size()) fail("the placeholder did not take its whole payload");
  const auto e = lib::encode(*b);
  if (e.bytes != data) fail("the placeholder does not keep its payload: " + diff(data, e.bytes));
  // header
  BoxHeader* h = header_for(s, t, data.size());
  BoxPtr b2(m->getBoxInstance(h));
  if (!b2 || typeid(*b2) != typeid(box::Unsupported)) fail("a header with an unregistered code does not yield the placeholder");
  if (!(h->getType() == BoxType(t))) fail("the header's type changed to " + h->getType().toString());
  if (b2->toString().rfind(h->toString(), 0) != 0) fail("the placeholder's text does not show its header: " + b2->toString());
  // written again under its header, the bytes hold the real type
  b2->setOffsetAndDataSize(0, data.size());
  lib::decode(*b2, data);
  std::ostringstream os;
  b2->write(os);
  Wire w;
  w.u32(static_cast<std::uint32_t>(8 + data.size()));
  w.raw(t);
  w.raw(data);
  if (lib::bytes(os.str()) != w.b) fail("a placeholder written under its header: " + diff(w.b, lib::bytes(os.str())));
  // file, between two known boxes or inside one
  tree::Forest f;
  tree::Node n;
  Src zero{std::vector<std::uint64_t>{}};
  n.x = kind("unsupported").gen(zero, false);
  n.x.type = t;
  n.x.wire = data;
  n.x.text = "(unsupported) Data=[";
  for (std::size_t i = 0; i < data.size(); ++i) {
    char buf[8];
    std::snprintf(buf, sizeof buf, "%s0x%x", i ? ", " : "", data[i]);
    n.x.text += buf;
  }
  n.x.text += "]";
  if (s.chance(1, 4)) n.form = tree::Form::large;
  tree::Node p;
  p.x = kind("moov").gen(zero, false);
  tree::Node q;
  q.x = kind(s.pick({"free", "mvhd", "ftyp"})).gen(s, false);
  if (s.coin()) {
    p.kids.push_back(n);
    if (s.coin()) p.kids.push_back(q);
    f.push_back(p);
  } else {
    f.push_back(q);
    f.push_back(n);
    f.push_back(p);
  }
  tree::layout(f);
  const std::string want = tree::dump(f), got = read_dump(tree::serialize(f));
  if (got != want) fail("dump of a file with an unknown box: " + diff(want, got));
}

// everything one byte, one case flip or one swap away from a registered code
void neighbours(Src& s, Ctx& c) {
  const RegEntry& r = registry()[s.enumerate(registry().size())];
  BoxMap& m = lib::registry_map();
  std::set<FourCC> around;
  for (unsigned i = 0; i < 4; ++i) {
    for (unsigned v = 0; v < 256; ++v) {
      FourCC t = r.type;
      t[i] = static_cast<std::uint8_t>(v);
      around.insert(t);
    }
    for (unsigned j = 0; j < 4; ++j) {
      FourCC t = r.type;
      std::swap(t[i], t[j]);
      around.insert(t);
    }
  }
  for (unsigned mask = 0; mask < 16; ++mask) {
    FourCC up = r.type, hi = r.type;
    for (unsigned i = 0; i < 4; ++i) {
      if (mask >> i & 1) {
        if (std::isalpha(up[i])) up[i] ^= 0x20;
        hi[i] ^= 0x80;
      }
    }
    around.insert(up);
    around.insert(hi);
  }
  {
    FourCC rev = r.type;
    std::reverse(rev.begin(), rev.end());
    around.insert(rev);
  }
  c.label("around " + type_text(r.type));
  c.nontrivial();
  c.fingerprint(hash_bytes(r.type.data(), 4));
  c.sample(std::to_string(around.size()) + " codes around " + type_text(r.type));
  c.sub_evals += around.size();
  for (const auto& t : around) {
    const RegEntry* e = entry_of(t);
    const BoxType bt(t);
    if (m.isSupported(bt) != (e != nullptr)) fail("isSupported(" + show(t) + ") is wrong");
    BoxPtr b(m.getBoxInstance(bt));
    const std::type_info& want = e ? type_of_kind(e->kind) : typeid(box::Unsupported);
    if (!b || typeid(*b) != want) fail("code " + show(t) + " yields the wrong kind of object");
    if (e && !(b->getType() == bt)) fail("code " + show(t) + " yields an object of type " + b->getType().toString());
    if (bt.toString() != type_text(t)) fail("code " + show(t) + " renders as " + bt.toString() + ", expected " + type_text(t));
  }
}

// 65536 codes that share their first or last two bytes
void sweep(Src& s, Ctx& c) {
  // the two-byte ends of registered codes first, then all 65536
  const std::uint64_t k = s.enumerate(2 * registry().size() + 65536);
  const bool front = k < registry().size() || k >= 2 * registry().size();
  const auto hi = static_cast<std::uint16_t>(k >= 2 * registry().size() ? s.coin() ? s.bits(16) : k - 2 * registry().size()
                                             : front                    ? registry()[k].type[0] << 8 | registry()[k].type[1]
                                                                        : registry()[k - registry().size()].type[2] << 8 | registry()[k - registry().size()].type[3]);
  BoxMap& m = lib::registry_map();
  c.nontrivial();
  c.fingerprint(mix(hi, front));
  c.sample(std::string("all codes ") + (front ? "starting" : "ending") + " with the two bytes " + std::to_string(hi));
  c.note(std::string("all codes ") + (front ? "starting" : "ending") + " with the two bytes " + std::to_string(hi));
  c.sub_evals += 65536;
  for (unsigned lo = 0; lo < 65536; ++lo) {
    const FourCC t = front ? FourCC{static_cast<std::uint8_t>(hi >> 8), static_cast<std::uint8_t>(hi), static_cast<std::uint8_t>(lo >> 8), static_cast<std::uint8_t>(lo)}
                           : FourCC{static_cast<std::uint8_t>(lo >> 8), static_cast<std::uint8_t>(lo), static_cast<std::uint8_t>(hi >> 8), static_cast<std::uint8_t>(hi)};
    const RegEntry* e = entry_of(t);
    const BoxType bt(t);
    if (m.isSupported(bt) != (e != nullptr)) fail("isSupported(" + show(t) + ") is wrong");
    const std::uint8_t v = static_cast<std::uint8_t>(lo * 31 + hi);
    const bool want = e && (e->versions.empty() || std::find(e->versions.begin(), e->versions.end(), v) != e->versions.end());
    if (m.isSupportedVersion(bt, v) != want) fail("isSupportedVersion(" + show(t) + ", " + std::to_string(v) + ") is wrong");
    if (lo % 16 == hi % 16 && bt.toString() != type_text(t)) fail("code " + show(t) + " renders as " + bt.toString());
  }
}

FourCC any_code(Src& s) {
  switch (s.below(5)) {
    case 0: return s.one_of(registry()).type;
    case 1: {
      FourCC t{};
      for (auto& x : t) x = s.pick<std::uint8_t>({0, 0x1f, 0x20, 0x41, 0x61, 0x7a, 0x7e, 0x7f, 0x80, 0xa8, 0xa9, 0xaa, 0xc2, 0xff});
      return t;
    }
    case 2: {
      FourCC t{};
      for (auto& x : t) x = static_cast<std::uint8_t>(s.range(0x20, 0x7e));
      return t;
    }
    case 3: return FourCC{0, 0, 0, 0};
    default: {
      FourCC t{};
      for (auto& x : t) x = static_cast<std::uint8_t>(s.below(256));
      return t;
    }
  }
}

void codes(Src& s, Ctx& c) {
  FourCC a = any_code(s), b = any_code(s);
  if (s.chance(1, 4)) b = a;
  if (s.chance(1, 4)) b[s.below(4)] = static_cast<std::uint8_t>(s.below(256));
  const FourCC zero{0, 0, 0, 0};
  c.label_if(type_text(a)[0] == '0' && type_text(a).size() == 10, "hexadecimal");
  c.label_if(std::count(a.begin(), a.end(), 0xa9) > 0, "copyright sign");
  c.label_if(a == b, "equal");
  c.label_if(a == zero || b == zero, "wildcard");
  c.nontrivial();
  c.fingerprint(hash_bytes(a.data(), 4, hash_bytes(b.data(), 4)));
  c.sample(show(a) + " and " + show(b));
  c.note(show(a) + " and " + show(b));
  const BoxType x(a);
  BoxType y(std::string(b.begin(), b.end()));
  BoxType z;
  z.setData(a[0], a[1], a[2], a[3]);
  if (x.getData() != a) fail("made from an array: getData() differs");
  if (y.getData() != b) fail("made from a string: getData() differs");
  if (z.getData() != a || !(z == x)) fail("setData() then getData() differs");
  if (x.toString() != type_text(a)) fail("renders as " + x.toString() + ", expected " + type_text(a));
  if (y.toString() != type_text(b)) fail("renders as " + y.toString() + ", expected " + type_text(b));
  if ((x == y) != (a == b)) fail("== is wrong");
  if ((x != y) != (a != b)) fail("!= is wrong");
  if ((x < y) != (a < b) || (x > y) != (a > b) || (x <= y) != (a <= b) || (x >= y) != (a >= b)) fail("ordering is not bytewise");
  const bool match = a == b || a == zero || b == zero;
  if (x.matchWith(y) != match || y.matchWith(x) != match) fail("matchWith is wrong");
  if (!x.matchWith(x) || !x.matchWith(shiguredo::mp4::box_type_any()) || !shiguredo::mp4::box_type_any().matchWith(x)) fail("a code must match itself and the wildcard");
  if (shiguredo::mp4::box_type_any().getData() != zero) fail("the wildcard changed");
}

// several objects at once: none sees what happens to another
void independence(Src& s, Ctx& c) {
  BoxMap& m = lib::registry_map();
  struct Live {
    const RegEntry* r;
    BoxPtr b;
    Sample x;
    bool filled = false;
  };
  std::vector<Live> live;
  const std::size_t codes = s.range(1, 3);
  std::vector<const RegEntry*> pool;
  for (std::size_t i = 0; i < codes; ++i) pool.push_back(&s.one_of(registry()));
  const std::size_t steps = s.range(3, 14);
  std::string story;
  auto verify = [&] {
    for (const auto& l : live) {
      if (!(l.b->getType() == BoxType(l.r->type))) fail("an object of type " + type_text(l.r->type) + " became " + l.b->getType().toString() + story);
      if (!l.filled) continue;  // what a box shows before it was ever decoded is nobody's business
      const std::string t = l.b->toStringOnlyData();
      const std::string& want = l.x.text;
      if (t != want) fail("an untouched object of type " + type_text(l.r->type) + " changed: " + diff(want, t) + story);
    }
  };
  for (std::size_t i = 0; i < steps; ++i) {
    const unsigned op = static_cast<unsigned>(s.below(4));
    if (op <= 1 || live.empty()) {
      Live l;
      l.r = s.one_of(pool);
      story += "\nget " + type_text(l.r->type);
      l.b.reset(m.getBoxInstance(BoxType(l.r->type)));
      if (!l.b) fail("no object");
      for (const auto& o : live) {
        if (o.b.get() == l.b.get()) fail("the registry handed out the same object twice" + story);
      }
      live.push_back(std::move(l));
    } else if (op == 2) {
      Live& l = live[s.below(live.size())];
      if (!l.filled) {
        l.x = sample_for(s, *l.r);
        if (l.x.type != l.r->type) continue;
        story += "\ndecode " + type_text(l.r->type) + " " + hex(l.x.wire, 64);
        if (l.x.under_wave) lib::set_under_wave(*l.b);
        lib::decode(*l.b, l.x.wire);
        l.filled = true;
      }
    } else {
      const std::size_t k = s.below(live.size());
      story += "\ndrop " + type_text(live[k].r->type);
      live.erase(live.begin() + static_cast<std::ptrdiff_t>(k));
    }
    verify();
  }
  c.nontrivial(live.size() >= 2);
  c.sample(story.substr(0, 300));
  c.note(story);
  c.sub_evals += steps;
}

// a registry of one's own: any registrations, in any order
void own_maps(Src& s, Ctx& c) {
  BoxMap m;
  std::map<FourCC, std::pair<std::size_t, std::vector<std::uint8_t>>> model;
  std::vector<const Kind*> ks;
  for (const auto& k : kinds()) ks.push_back(&k);
  const std::size_t n = s.range(0, 12);
  std::string story;
  for (std::size_t i = 0; i < n; ++i) {
    FourCC t = any_code(s);
    if (!model.empty() && s.chance(1, 4)) {  // a code registered before: the later registration counts
      auto it = model.begin();
      std::advance(it, static_cast<std::ptrdiff_t>(s.below(model.size())));
      t = it->first;
      if (s.coin()) {  // the earlier one may have been used already
        BoxPtr used(m.getBoxInstance(BoxType(t)));
        if (!used || typeid(*used) != type_of_kind(ks[it->second.first]->name)) fail("wrong kind of object for " + show(t) + " before it is registered again");
        m.getSupportedVersions(BoxType(t));
      }
      c.label("a code is registered again");
    }
    const std::size_t k = s.below(ks.size());
    std::vector<std::uint8_t> v;
    for (std::size_t j = s.below(4); j > 0; --j) v.push_back(static_cast<std::uint8_t>(s.bits(8)));
    const Kind* kk = ks[k];
    m.addBoxDef([kk]() -> Box* {
      Src zero{std::vector<std::uint64_t>{}};
      return kk->gen(zero, false).fresh().release();
    }, BoxType(t), v);
    model[t] = {k, v};
    story += "\nadd " + show(t) + " " + kk->name + " versions " + hex(v);
  }
  c.nontrivial(model.size() >= 2);
  c.sample(story.substr(0, 300));
  c.note(story);
  std::vector<FourCC> ask;
  for (const auto& [t, d] : model) ask.push_back(t);
  for (int i = 0; i < 6; ++i) ask.push_back(any_code(s));
  for (const auto& t : ask) {
    const auto it = model.find(t);
    const BoxType bt(t);
    if (m.isSupported(bt) != (it != model.end())) fail("isSupported(" + show(t) + ") is wrong");
    BoxPtr b(m.getBoxInstance(bt));
    if (it == model.end()) {
      if (!b || typeid(*b) != typeid(box::Unsupported)) fail("a code nobody registered does not yield the placeholder");
      if (lib::thrown([&] { m.getSupportedVersions(bt); }).empty()) fail("versions of a code nobody registered");
    } else {
      if (!b || typeid(*b) != type_of_kind(ks[it->second.first]->name)) fail("wrong kind of object for " + show(t));
      if (m.getSupportedVersions(bt) != it->second.second) fail("wrong versions for " + show(t));
    }
    for (unsigned v = 0; v < 256; ++v) {
      const bool want = it != model.end() && (it->second.second.empty() ||
                        std::find(it->second.second.begin(), it->second.second.end(), v) != it->second.second.end());
      if (m.isSupportedVersion(bt, static_cast<std::uint8_t>(v)) != want) fail("isSupportedVersion(" + show(t) + ", " + std::to_string(v) + ") is wrong");
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  Suite suite;
  suite.property = "P17";
  suite.rule =
      "A case draws a registered code (object kind, type kept, versions 0..255, decoding of a generated payload, writing), an "
      "unregistered one (placeholder, header, file), every code around a registered one, 65536 codes sharing two bytes, two "
      "codes to compare, match and render, a history of obtaining, filling and dropping objects, or a registry with random "
      "registrations; the list of registered codes and versions is the model's own. Every case but a history or registry of "
      "fewer than two objects is non-trivial; distinct by codes and contents.";
  suite.init = lib::quiet;
  suite.groups = {
      {"entries", 12000, 400000, entries},
      {"unknown", 12000, 400000, unknown},
      {"neighbours", 240, 2400, neighbours},
      {"sweep", 600, 65536 * 3, sweep},
      {"codes", 60000, 3000000, codes},
      {"independence", 6000, 300000, independence},
      {"own_maps", 4000, 150000, own_maps},
  };
  return run_main(argc, argv, suite);
}
