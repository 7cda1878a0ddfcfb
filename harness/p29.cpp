// P29: boxes and values are copied and compared by what they hold; a box without a place says so.
#include "lib.hpp"

#include <algorithm>
#include <compare>
#include <cstring>
#include <sstream>
#include <type_traits>
#include <typeinfo>

#include "shiguredo/mp4/box/boxes.hpp"
#include "shiguredo/mp4/box/unsupported.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "shiguredo/mp4/box_info.hpp"
#include "shiguredo/mp4/track/h264.hpp"
#include "shiguredo/mp4/track/track.hpp"
#include "shiguredo/mp4/writer/faststart_writer.hpp"
#include "shiguredo/mp4/writer/simple_writer.hpp"

using namespace pbt;
using namespace model;

namespace {
namespace mp4 = shiguredo::mp4;
namespace box = shiguredo::mp4::box;
using mp4::Box;
using mp4::BoxHeader;
using mp4::BoxInfo;
using mp4::BoxType;

std::string U(std::uint64_t v) { return std::to_string(v); }

#define P29_KINDS(X)                                                                                                      \
  X(AV1CodecConfiguration) X(AVCDecoderConfiguration) X(AudioSampleEntry) X(Btrt) X(Co64) X(Colr) X(Ctts) X(DOps) X(Data)  \
  X(Dinf) X(Dref) X(Edts) X(Elst) X(Emsg) X(Esds) X(Fiel) X(Free) X(Ftyp) X(Hdlr) X(Ilst) X(IlstMeta) X(Iods) X(Mdat)      \
  X(Mdhd) X(Mdia) X(Mehd) X(Meta) X(Mfhd) X(Mfra) X(Mfro) X(Minf) X(Moof) X(Moov) X(Mvex) X(Mvhd) X(PixelAspectRatio)      \
  X(Pssh) X(Sbgp) X(Schi) X(Sdtp) X(Sgpd) X(Sidx) X(Sinf) X(Skip) X(Smhd) X(Stbl) X(Stco) X(Stsc) X(Stsd) X(Stss) X(Stsz)  \
  X(Stts) X(Styp) X(Tfdt) X(Tfhd) X(Tfra) X(Tkhd) X(Traf) X(Trak) X(Trex) X(Trun) X(Udta) X(Unsupported) X(Url) X(Urn)     \
  X(VPCodecConfiguration) X(VisualSampleEntry) X(Vmhd) X(Wave)

BoxPtr clone(const Box& b) {
#define X(T)                                                                                  \
  if (typeid(b) == typeid(box::T)) {                                                          \
    if constexpr (std::is_copy_constructible_v<box::T>) return std::make_unique<box::T>(static_cast<const box::T&>(b)); \
  }
  P29_KINDS(X)
#undef X
  return nullptr;
}

bool assign(Box& to, const Box& from) {
  if (typeid(to) != typeid(from)) return false;
#define X(T)                                                                             \
  if (typeid(to) == typeid(box::T)) {                                                    \
    if constexpr (std::is_copy_assignable_v<box::T>) {                                   \
      static_cast<box::T&>(to) = static_cast<const box::T&>(from);                       \
      return true;                                                                       \
    }                                                                                    \
  }
  P29_KINDS(X)
#undef X
  return false;
}

// everything one can learn of a box without changing it
struct Look {
  Bytes bytes;
  std::string text, size, refused;
  std::uint64_t data_size = 0;
  std::uint32_t flags = 0;
  std::uint8_t version = 0;
  std::array<std::uint8_t, 4> type{};
  bool operator==(const Look&) const = default;
};
Look look(const Box& b) {
  Look l;
  l.refused = lib::thrown([&] {
    std::ostringstream os;
    b.writeData(os);
    l.bytes = lib::bytes(os.str());
  });
  l.text = b.toString();
  const auto none = lib::thrown([&] { l.size = U(b.getSize()); });
  if (!none.empty()) l.size = "no size";
  l.data_size = b.getDataSize();
  l.flags = b.getFlags();
  l.version = b.getVersion();
  l.type = b.getType().getData();
  return l;
}
std::string difference(const Look& a, const Look& b) {
  if (a.bytes != b.bytes) return "encodes as " + hex(b.bytes, 64) + " instead of " + hex(a.bytes, 64);
  if (a.text != b.text) return "reads \"" + b.text.substr(0, 200) + "\" instead of \"" + a.text.substr(0, 200) + "\"";
  if (a.size != b.size) return "has size " + b.size + " instead of " + a.size;
  if (a.data_size != b.data_size) return "declares " + U(b.data_size) + " bytes of payload instead of " + U(a.data_size);
  if (a.flags != b.flags || a.version != b.version) return "has other version or flags";
  if (a.type != b.type) return "has another type";
  return "is refused with \"" + b.refused + "\" instead of \"" + a.refused + "\"";
}
void same(const std::string& what, const Look& expected, const Box& b) {
  const Look l = look(b);
  if (!(l == expected)) fail(what + " " + difference(expected, l));
}

BoxPtr instance(Src& s, const Sample& x) {
  const bool built = x.make && s.coin();
  if (built) return x.make();
  BoxPtr b = s.coin() && x.registered ? lib::from_registry(x.type, x.under_wave) : x.fresh();
  lib::decode(*b, x.wire);
  return b;
}

// where it lies, in one of the ways a box comes to know that
std::string place(Src& s, Box& b) {
  switch (s.below(5)) {
    case 0:
      return "";
    case 1: {
      const std::uint64_t at = s.below(1000);
      b.setOffsetAndDataSize(at, b.getDataSize());
      return "placed at " + U(at);
    }
    case 2: {
      const std::uint64_t at = s.below(1000), size = (1ULL << 32) + s.below(100);
      b.setOffsetAndDataSize(at, size);
      return "placed as a large box";
    }
    case 3: {
      const bool large = s.coin(), open = s.coin();
      b.setHeader(new BoxHeader({.offset = s.below(100000), .size = 16 + s.below(1000), .header_size = large ? 16u : 8u, .type = b.getType(), .extend_to_eof = open}));
      return std::string("given a header") + (open ? " that extends to the end" : "");
    }
    default:
      b.getHeaderSize();
      return "asked for its header's size";
  }
}

// something that changes a box; what it did
std::string change(Src& s, BoxPtr& b, const Sample& other) {
  switch (s.below(7)) {
    case 0: {
      const auto r = lib::thrown([&] { lib::decode(*b, other.wire); });
      return "decoded other contents" + r;
    }
    case 1:
      b->setVersion(static_cast<std::uint8_t>(s.below(3)));
      b->setFlags(static_cast<std::uint32_t>(s.below(1 << 24)));
      return "changed version and flags";
    case 2:
      b->setOffsetAndDataSize(s.below(1 << 20), s.below(1 << 20));
      return "placed elsewhere";
    case 3:
      b->setHeader(new BoxHeader({.offset = s.below(1000), .size = 16 + s.below(1000), .header_size = 8, .type = BoxType(std::string("abcd"))}));
      return "given another header";
    case 4:
      b->setHeader(nullptr);
      return "relieved of its header";
    case 5: {
      BoxPtr o = other.fresh();
      const auto r = lib::thrown([&] { lib::decode(*o, other.wire); });
      const bool done = assign(*b, *o);
      return std::string("assigned to") + (done ? "" : " (not)");
    }
    default:
      b.reset();
      return "destroyed";
  }
}

void copies(Src& s, Ctx& c) {
  const bool wide = s.chance(1, 400);
  const auto& k = pick_kind(s);
  Sample x = wide ? wide_sample(s, false) : k.gen(s, s.chance(1, 3));
  const Sample y = kind(x.kind).gen(s, false);
  c.label("kind " + x.kind);
  c.fingerprint(hash_bytes(x.wire.data(), x.wire.size(), mix(29, hash_bytes(x.kind.data(), x.kind.size()))));
  c.note("kind " + x.kind + " variant " + x.variant + " payload " + hex(x.wire, 512));
  BoxPtr a = instance(s, x);
  if (x.under_wave) lib::set_under_wave(*a);
  const std::string placed = place(s, *a);
  c.nontrivial(x.interesting || !placed.empty());
  const Look la = look(*a);
  if (!clone(*a)) {
    c.label("cannot be copied");
    return;
  }
  std::string history = x.kind + " " + x.variant + (placed.empty() ? "" : ", " + placed);
  BoxPtr b;
  const unsigned way = static_cast<unsigned>(s.below(4));
  if (way == 0) {
    b = clone(*a);
    history += ": its copy";
  } else if (way == 1) {
    b = clone(*clone(*a));
    history += ": the copy of a copy that is gone";
  } else {
    b = way == 2 ? x.fresh() : y.fresh();
    if (way == 3) {
      const auto r = lib::thrown([&] { lib::decode(*b, y.wire); });
      const auto p = place(s, *b);
      history += ": assigned to one of other contents" + (p.empty() ? "" : ", " + p);
    } else {
      history += ": assigned to a fresh one";
    }
    if (!assign(*b, *a)) {
      c.label("cannot be assigned");
      return;
    }
  }
  c.label(history.substr(history.find(": ") + 2).substr(0, 36));
  c.sample(history);
  same(history, la, *b);
  same(history + "; the original", la, *a);
  if (s.chance(1, 6) && assign(*b, *b)) same(history + ", assigned to itself,", la, *b);
  // one goes its own way, then the other
  BoxPtr* first = s.coin() ? &a : &b;
  BoxPtr* second = first == &a ? &b : &a;
  const std::string did = change(s, *first, y);
  c.note(history + "; " + (first == &a ? "the original was " : "it was ") + did);
  same(history + ", after the other was " + did + ",", la, **second);
  if (*first) {
    const Look lf = look(**first);
    const std::string then = change(s, *second, y);
    same(history + ", after it was " + did + " and the other was " + then + ",", lf, **first);
  }
}

// ---- values -------------------------------------------------------------------------------------------------------

using Fields = std::vector<std::uint64_t>;

template <class T>
std::string printed(const T& v) {
  std::ostringstream os;
  os << v;
  return os.str();
}

// equal exactly when the fields are, one order among all, texts as the values
template <class T>
void compare_all(const std::string& kind, const std::vector<Fields>& fields, const std::vector<T>& v) {
  for (std::size_t i = 0; i < v.size(); ++i) {
    for (std::size_t j = 0; j < v.size(); ++j) {
      const bool eq = fields[i] == fields[j];
      const std::string which = kind + " values " + U(i) + " and " + U(j);
      if ((v[i] == v[j]) != eq) fail(which + (eq ? " hold the same and compare unequal" : " differ and compare equal"));
      if ((v[i] != v[j]) == eq) fail(which + ": == and != agree");
      if constexpr (std::three_way_comparable<T>) {
        const int n = (v[i] < v[j]) + (v[i] == v[j]) + (v[i] > v[j]);
        if (n != 1) fail(which + " are not in exactly one order");
        if ((v[i] < v[j]) != (v[j] > v[i])) fail(which + " are ordered differently from either side");
        if ((v[i] <= v[j]) != ((v[i] < v[j]) || (v[i] == v[j])) || (v[i] >= v[j]) != !(v[i] < v[j])) fail(which + ": <= or >= contradict the others");
        for (std::size_t l = 0; l < v.size(); ++l) {
          if (v[i] < v[j] && v[j] < v[l] && !(v[i] < v[l])) fail(kind + " values " + U(i) + ", " + U(j) + ", " + U(l) + " are in no order");
        }
      }
    }
    T copy(v[i]);
    if (!(copy == v[i])) fail("the copy of a " + kind + " differs from it");
    T other(v[v.size() - 1 - i]);
    other = v[i];
    if (!(other == v[i])) fail("a " + kind + " assigned to another differs from it");
  }
}

template <class T>
void print_all(const std::string& kind, const std::vector<Fields>& fields, const std::vector<T>& v) {
  for (std::size_t i = 0; i < v.size(); ++i) {
    for (std::size_t j = 0; j < i; ++j) {
      if ((printed(v[i]) == printed(v[j])) != (fields[i] == fields[j])) fail(kind + " values " + U(i) + " and " + U(j) + " print as " + printed(v[i]) + " and " + printed(v[j]));
    }
    if constexpr (requires { v[i].toString(); }) {
      if (printed(v[i]) != v[i].toString()) fail("a " + kind + " is printed as " + printed(v[i]) + " and describes itself as " + v[i].toString());
    }
  }
}

void values(Src& s, Ctx& c) {
  static const char* names[] = {"type", "header", "stts entry", "stsc entry", "parameter set", "unit", "stco", "co64"};
  static const unsigned widths[] = {4, 5, 2, 3, 0, 4, 0, 0};
  const unsigned k = static_cast<unsigned>(s.enumerate(8));
  c.label(names[k]);
  const std::size_t n = 3 + s.below(4);
  std::vector<Fields> f;
  for (std::size_t i = 0; i < n; ++i) {
    if (i > 0 && s.chance(2, 3)) {  // like an earlier one, perhaps but for one field or the length
      Fields x = f[s.below(i)];
      const unsigned how = static_cast<unsigned>(s.below(4));
      if (how == 1 && !x.empty()) {
        auto& e = x[s.below(x.size())];
        e = s.coin() ? e ^ (1ULL << s.below(64)) : s.bits(64);
      } else if (how == 2 && widths[k] == 0) {
        x.push_back(s.below(3));
      } else if (how == 3 && widths[k] == 0 && !x.empty()) {
        x.pop_back();
      } else if (how >= 2 && x.size() >= 2) {
        const std::size_t p = s.below(x.size()), q = s.below(x.size());
        std::swap(x[p], x[q]);
      }
      f.push_back(x);
    } else {
      const std::size_t m = widths[k] != 0 ? widths[k] : s.below(5);
      Fields x;
      for (std::size_t j = 0; j < m; ++j) x.push_back(s.coin() ? s.below(3) : s.bits(64));
      f.push_back(x);
    }
  }
  const unsigned mask_bits[] = {8, 64, 32, 32, 8, 64, 32, 64};
  for (auto& x : f) {
    for (std::size_t j = 0; j < x.size(); ++j) {
      if (mask_bits[k] < 64) x[j] &= (1ULL << mask_bits[k]) - 1;
      if (k == 1 && j == 2) x[j] = x[j] % 2 ? 16 : 8;
      if (k == 1 && j == 3) x[j] &= 0xffffffff;
      if (k == 1 && j == 4) x[j] &= 1;
      if (k == 5 && j == 3) x[j] &= 0xff;
    }
    if (k >= 6) {  // version and flags, then the offsets
      x.insert(x.begin(), {s.chance(1, 3) ? 1u : 0u, s.chance(1, 3) ? s.below(4) << 22 : 0u});
    }
  }
  std::string what = names[k];
  for (const auto& x : f) {
    what += " (";
    for (auto e : x) what += U(e) + " ";
    what += ")";
  }
  c.note(what);
  c.sample(what.substr(0, 160));
  c.fingerprint(hash_bytes(what.data(), what.size()));
  bool equal = false, unequal = false;
  for (std::size_t i = 0; i < f.size(); ++i) {
    for (std::size_t j = 0; j < i; ++j) (f[i] == f[j] ? equal : unequal) = true;
  }
  c.nontrivial(equal && unequal);
  const auto b = [](std::uint64_t v) { return static_cast<std::uint8_t>(v); };
  const auto w = [](std::uint64_t v) { return static_cast<std::uint32_t>(v); };
  switch (k) {
    case 0: {
      std::vector<BoxType> v;
      for (const auto& x : f) v.emplace_back(std::array<std::uint8_t, 4>{b(x[0]), b(x[1]), b(x[2]), b(x[3])});
      compare_all(names[k], f, v);
      break;
    }
    case 1: {
      std::vector<BoxHeader> v;
      for (const auto& x : f) {
        v.emplace_back(mp4::BoxHeaderParameters{.offset = x[0], .size = x[1], .header_size = x[2], .type = BoxType(std::array<std::uint8_t, 4>{b(x[3] >> 24), b(x[3] >> 16), b(x[3] >> 8), b(x[3])}), .extend_to_eof = x[4] != 0});
      }
      compare_all(names[k], f, v);
      break;
    }
    case 2: {
      std::vector<box::SttsEntry> v;
      for (const auto& x : f) v.emplace_back(box::SttsEntryParameters{.sample_count = w(x[0]), .sample_duration = w(x[1])});
      compare_all(names[k], f, v);
      print_all(names[k], f, v);
      break;
    }
    case 3: {
      std::vector<box::StscEntry> v;
      for (const auto& x : f) v.emplace_back(box::StscEntryParameters{.first_chunk = w(x[0]), .samples_per_chunk = w(x[1]), .sample_description_index = w(x[2])});
      compare_all(names[k], f, v);
      print_all(names[k], f, v);
      break;
    }
    case 4: {
      std::vector<box::AVCParameterSet> v;
      for (const auto& x : f) {
        std::vector<std::uint8_t> nal;
        for (auto e : x) nal.push_back(b(e));
        v.emplace_back(box::AVCParameterSetParameters{.nal_unit = nal});
      }
      compare_all(names[k], f, v);
      break;
    }
    case 5: {
      std::vector<mp4::track::NalUnit> v;
      for (const auto& x : f) v.push_back({.start_code_size = x[0], .start = x[1], .end = x[2], .header = b(x[3])});
      compare_all(names[k], f, v);
      print_all(names[k], f, v);
      break;
    }
    default: {
      const auto both = [&](auto tag) {
        using T = typename decltype(tag)::type;
        using P = typename decltype(tag)::params;
        std::vector<T> v;
        for (const auto& x : f) {
          P p{.version = b(x[0]), .flags = w(x[1]), .chunk_offsets = {x.begin() + 2, x.end()}};
          v.emplace_back(p);
        }
        compare_all(names[k], f, v);
        print_all(names[k], f, v);
      };
      struct S32 {
        using type = box::Stco;
        using params = box::StcoParameters;
      };
      struct S64 {
        using type = box::Co64;
        using params = box::Co64Parameters;
      };
      if (k == 6) both(S32{});
      if (k == 7) both(S64{});
    }
  }
}

// ---- a box that has no place yet ----------------------------------------------------------------------------------

void homeless(Src& s, Ctx& c) {
  const auto& k = pick_kind(s);
  const Sample x = k.gen(s, false);
  c.label("kind " + x.kind);
  c.fingerprint(hash_bytes(x.wire.data(), x.wire.size(), mix(291, hash_bytes(x.kind.data(), x.kind.size()))));
  c.nontrivial();
  BoxPtr b = x.make ? x.make() : x.fresh();
  if (!x.make) lib::decode(*b, x.wire);
  const Look before = look(*b);
  std::istringstream is(std::string(100, '\x11'));
  is.seekg(7);
  std::ostringstream os;
  os << "1234567";
  const bool tree = s.coin();
  const unsigned what = static_cast<unsigned>(s.below(4));
  static const char* names[] = {"written", "asked for its payload", "asked for its end", "asked for its size"};
  const std::string name = x.kind + " " + x.variant + (tree ? " in a tree" : "") + " that has no place, " + names[what];
  c.note(name);
  c.sample(name);
  c.label(names[what]);
  std::unique_ptr<BoxInfo> root;
  Box* p = b.get();
  if (tree) {
    root.reset(new BoxInfo({.box = new box::Moov()}));
    new BoxInfo({.parent = root.get(), .box = b.release()});
  }
  const auto ask = [&] {
    switch (what) {
      case 0:
        if (tree) {
          root->write(os);
        } else {
          p->write(os);
        }
        break;
      case 1:
        p->seekToData(is);
        break;
      case 2:
        p->seekToEnd(is);
        break;
      default:
        if (tree) {
          root->getSize();
        } else {
          p->getSize();
        }
    }
  };
  if (lib::thrown(ask).empty()) fail(name + ", is not refused");
  if (os.str() != "1234567" || static_cast<std::streamoff>(is.tellg()) != 7) fail(name + ", touched the stream all the same");
  same(name + ", then", before, *p);
  // and once it has a place
  if (tree) {
    root->adjustOffsetAndSize(7);
    if (root->getSize() != 8 + p->getSize()) fail(name + ", then has another size");
    root->write(os);
    if (os.str().size() != 7 + 16 + before.bytes.size()) fail(name + ", then is written in " + U(os.str().size() - 7) + " bytes");
  } else {
    p->setOffsetAndDataSize(7, p->getDataSize());
    if (p->getSize() != 8 + before.bytes.size()) fail(name + ", then has another size");
    p->write(os);
    if (os.str().size() != 7 + 8 + before.bytes.size()) fail(name + ", then is written in " + U(os.str().size() - 7) + " bytes");
  }
}

// ---- what owns others is not copied, or is copied whole -------------------------------------------------------------

template <class T, class Use>
void owner(Ctx& c, const std::string& name, T& v, const Use& use) {
  if constexpr (std::is_copy_constructible_v<T>) {
    const std::string expected = use(v);
    {
      T copy(v);
      if (use(copy) != expected) fail("a copy of " + name + " differs from it");
    }
    if (use(v) != expected) fail(name + " changed when its copy was destroyed");
    c.label(name + " is copied");
  } else {
    c.label(name + " is not copied");
  }
}

void owners(Src& s, Ctx& c) {
  c.nontrivial();
  const unsigned k = static_cast<unsigned>(s.enumerate(3));
  c.fingerprint(mix(292, mix(k, s.bits(16))));
  c.note("owner " + U(k));
  c.sample("owner " + U(k));
  std::ostringstream os(std::string(4096, ' '));
  switch (k) {
    case 0: {
      BoxInfo root({.box = new box::Moov()});
      const std::size_t n = 1 + s.below(4);
      for (std::size_t i = 0; i < n; ++i) new BoxInfo({.parent = &root, .box = new box::Free()});
      root.adjustOffsetAndSize(s.below(100));
      owner(c, "a tree", root, [](BoxInfo& r) { return r.toString(); });
      break;
    }
    case 1: {
      mp4::writer::SimpleWriter w(os, {.mvhd_timescale = 1000, .duration = 1});
      w.writeFtypBox();
      owner(c, "a progressive writer", w, [](mp4::writer::SimpleWriter& x) { return x.getMoovBoxInfo()->toString(); });
      break;
    }
    default: {
      mp4::writer::FaststartWriter w(os, {.mvhd_timescale = 1000, .duration = 1, .mdat_path_templete = scratch_dir() + "/p29-XXXXXX"});
      w.writeFtypBox();
      owner(c, "a fast-start writer", w, [](mp4::writer::FaststartWriter& x) { return x.getIntermediateFilePath().string(); });
      w.deleteIntermediateFile();
      break;
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  Suite suite;
  suite.property = "P29";
  suite.rule =
      "A copy case draws a box of any kind (built, decoded, from the registry), gives it a place in one of five ways, copies or assigns it, compares the two in everything one can learn of them, "
      "changes or destroys one and then the other; non-trivial if the contents are not all default or it has a place. A value case draws 3-6 values of one kind, most made from one another by "
      "one small change, and compares all pairs with the comparison of their fields; non-trivial if there are equal and unequal ones. A homeless case asks a box or tree without a place for what "
      "needs one. Distinct by contents.";
  suite.init = [] {
    lib::quiet();
    lib::registry_map();
  };
  suite.groups = {
      {"copies", 60000, 4000000, copies, 20},
      {"values", 30000, 2000000, values, 20},
      {"homeless", 8000, 400000, homeless, 20},
      {"owners", 40, 400, owners, 20},
  };
  return run_main(argc, argv, suite);
}
