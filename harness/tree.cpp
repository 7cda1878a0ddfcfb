#include "tree.hpp"

#include <set>

#include "lib.hpp"
#include "model_util.hpp"
#include "shiguredo/mp4/box/unsupported.hpp"
#include "shiguredo/mp4/box_header.hpp"

namespace tree {
using namespace model;

bool is_registered(const FourCC& t) {
  static const std::set<FourCC> all = [] {
    std::set<FourCC> s;
    for (const auto& r : registry()) s.insert(r.type);
    return s;
  }();
  return all.count(t) != 0;
}

FourCC unregistered_type(Src& s) {
  FourCC t = four(s);
  switch (s.below(4)) {
    case 0: {  // a neighbour of a registered code
      t = s.one_of(registry()).type;
      const auto i = s.below(4);
      t[i] = static_cast<std::uint8_t>(t[i] ^ (1u << s.below(8)));
      break;
    }
    case 1:
      t = fourcc(s.pick<const char*>({"uuid", "xml ", "nmhd", "sthd", "tref", "frma", "schm", "tenc", "senc", "saiz", "saio",
                                      "subs", "padb", "prft", "ssix", "strk", "MOOV", "moo ", "cslg"}));
      break;
    default:
      break;
  }
  while (is_registered(t)) t[3] = static_cast<std::uint8_t>(t[3] + 1);
  return t;
}

namespace {
const std::map<std::string, std::vector<std::string>>& legal() {
  static const std::map<std::string, std::vector<std::string>> m = {
      {"", {"ftyp", "styp", "moov", "moov", "moov", "moof", "moof", "mdat", "free", "skip", "sidx", "emsg", "mfra", "pssh", "meta"}},
      {"moov", {"mvhd", "trak", "trak", "trak", "udta", "iods", "mvex", "meta", "pssh"}},
      {"trak", {"tkhd", "edts", "mdia", "mdia", "udta", "meta"}},
      {"edts", {"elst"}},
      {"mdia", {"mdhd", "hdlr", "minf", "minf"}},
      {"minf", {"vmhd", "smhd", "dinf", "stbl", "stbl", "hdlr"}},
      {"dinf", {"dref"}},
      {"dref", {"url ", "urn "}},
      {"stbl", {"stsd", "stsd", "stts", "ctts", "stsc", "stsz", "stco", "co64", "stss", "sdtp", "sbgp", "sgpd"}},
      {"stsd", {"visual", "audio"}},
      {"visual", {"avcC", "vpcC", "av1C", "pasp", "colr", "fiel", "btrt", "sinf"}},
      {"audio", {"esds", "wave", "wave", "dOps", "btrt", "sinf"}},
      {"wave", {"audio-under-wave", "esds"}},
      {"udta", {"meta"}},
      {"meta", {"hdlr", "ilst", "ilst", "free"}},
      {"ilst", {"ilstitem"}},
      {"ilstitem", {"data"}},
      {"moof", {"mfhd", "traf", "traf", "pssh"}},
      {"traf", {"tfhd", "tfdt", "trun", "trun", "sbgp", "sgpd", "sdtp"}},
      {"mvex", {"mehd", "trex"}},
      {"mfra", {"tfra", "mfro"}},
      {"sinf", {"schi"}},
  };
  return m;
}

std::string child_kind(Src& s, const std::string& parent) {
  const auto it = legal().find(parent);
  std::string k;
  if (it != legal().end() && s.chance(4, 5)) {
    k = s.one_of(it->second);
  } else if (s.chance(1, 3)) {
    k = "unsupported";
  } else if (s.chance(1, 4)) {
    k = s.pick<const char*>({"free", "skip"});
  } else {
    k = s.one_of(kinds()).name;
  }
  if (parent == "wave" && k == "audio") k = "audio-under-wave";
  if (parent != "wave" && k == "audio-under-wave") k = "audio";
  return k;
}
}  // namespace

Node gen_box(Src& s, const Options& o, const std::string& parent, unsigned depth, std::size_t& budget) {
  Node n;
  const std::string k = child_kind(s, parent);
  n.x = kind(k).gen(s, o.foreign && s.chance(1, 2));
  // keep trees small: big payloads are for the per-box checks
  for (int i = 0; i < 3 && n.x.wire.size() > 3000; ++i) n.x = kind(k).gen(s, false);
  if (n.x.kind == "unsupported") {
    n.x.type = unregistered_type(s);
    if (s.chance(1, 4)) {  // contents that look like boxes
      Wire w;
      w.u32(8 + s.below(20));
      w.raw(s.one_of(registry()).type);
      w.raw(s.bytes(s.below(24)));
      n.x.wire = w.b;
      n.x.lenient_prefix = {{0, w.b.size()}};
      n.x.text = "(unsupported) Data=" + HexList(n.x.wire);
      const Bytes d = n.x.wire;
      n.x.make = [d] { return std::make_unique<shiguredo::mp4::box::Unsupported>(shiguredo::mp4::box::UnsupportedParameters{.data = d}); };
    }
  }
  if (o.foreign && s.chance(1, 6)) n.form = Form::large;
  if (budget > 0) --budget;
  if (n.x.container && !n.x.greedy && depth + 1 < o.max_depth && budget > 0) {
    const bool deep = legal().count(n.x.kind) != 0;
    std::size_t kids = deep ? s.below(5) : (s.chance(1, 8) ? s.below(3) : 0);
    // an entry box whose kind cannot usually have children is left alone
    for (; kids > 0 && budget > 0; --kids) n.kids.push_back(gen_box(s, o, n.x.kind, depth + 1, budget));
  }
  if (n.x.kind == "meta" && o.foreign && !n.kids.empty() && s.chance(1, 2)) {
    // QuickTime's form: no version and flags, the first child follows the header
    n.x.variant = "QuickTime";
    n.x.wire.clear();
    n.x.text.clear();
    n.x.full = false;
    n.x.make = [] {
      BoxPtr b = kind("meta").gen(*std::make_unique<Src>(std::vector<std::uint64_t>{}), false).fresh();
      const auto d = lib::decode(*b, Bytes{0, 0, 0, 8});
      if (d.bits != 0 || d.position != 0) pbt::fail("a QuickTime meta box takes bytes of its first child");
      return b;
    };
  }
  return n;
}

Forest gen_file(Src& s, const Options& o) {
  Forest f;
  std::size_t budget = o.max_boxes;
  if (s.chance(1, 25)) {  // one long chain
    const std::size_t len = 2 + (s.chance(1, 3) ? s.below(244) : s.below(60));
    Node leaf = gen_box(s, Options{o.foreign, 1, 1}, "", 0, budget);
    const char* cs[] = {"moov", "trak", "udta", "meta", "mdia", "ilst"};
    for (std::size_t i = 0; i < len; ++i) {
      if (leaf.x.kind == "audio-under-wave") break;
      Node p;
      p.x = kind(cs[s.below(6)]).gen(s, false);
      p.kids.push_back(std::move(leaf));
      leaf = std::move(p);
    }
    f.push_back(std::move(leaf));
  }
  std::size_t tops = s.size(3, 8);
  for (; tops > 0 && budget > 0; --tops) f.push_back(gen_box(s, o, "", 0, budget));
  if (o.foreign && !f.empty() && s.chance(1, 4)) f.back().form = Form::to_eof;
  return f;
}

std::uint64_t layout(Node& n, std::uint64_t offset) {
  const auto inner = [&](std::uint64_t header) {
    std::uint64_t p = offset + header + n.x.wire.size() + n.virtual_tail;
    for (auto& k : n.kids) p += layout(k, p);
    return p - offset;
  };
  n.offset = offset;
  n.header = n.form == Form::large ? 16 : 8;
  n.size = inner(n.header);
  if (n.form == Form::automatic && n.size > 0xffffffffULL) {
    n.header = 16;
    n.size = inner(16);
  }
  return n.size;
}

std::uint64_t layout(Forest& f, std::uint64_t offset) {
  std::uint64_t p = offset;
  for (auto& n : f) p += layout(n, p);
  return p - offset;
}

void serialize(const Node& n, Bytes& out) {
  Wire w;
  w.u32(n.form == Form::to_eof ? 0 : n.header == 16 ? 1 : n.size);
  w.raw(n.x.type);
  if (n.header == 16) w.u64(n.size);
  w.raw(n.x.wire);
  out.insert(out.end(), w.b.begin(), w.b.end());
  for (const auto& k : n.kids) serialize(k, out);
}

Bytes serialize(const Forest& f) {
  Bytes b;
  for (const auto& n : f) serialize(n, b);
  return b;
}

std::string header_text(const Node& n) {
  return "[" + type_text(n.x.type) + "] Offset=" + U(n.offset) + " Size=" + U(n.size);
}

std::string dump(const Node& n, unsigned depth) {
  std::string s(2 * depth, ' ');
  s += header_text(n);
  if (!n.x.text.empty()) s += " " + n.x.text;
  for (const auto& k : n.kids) s += "\n" + dump(k, depth + 1);
  return s;
}

std::string dump(const Forest& f) {
  std::string s;
  for (const auto& n : f) s += dump(n) + "\n";
  return s;
}

std::size_t count(const Node& n) {
  std::size_t c = 1;
  for (const auto& k : n.kids) c += count(k);
  return c;
}
std::size_t count(const Forest& f) {
  std::size_t c = 0;
  for (const auto& n : f) c += count(n);
  return c;
}
unsigned depth_of(const Node& n) {
  unsigned d = 0;
  for (const auto& k : n.kids) d = std::max(d, depth_of(k));
  return d + 1;
}

BoxPtr object(const Node& n) {
  BoxPtr b;
  if (n.x.make) {
    b = n.x.make();
  } else {
    b = n.x.fresh();
    lib::decode(*b, n.x.wire);
  }
  if (n.x.kind == "unsupported") {
    // the real type lives in the header, as it does for boxes the reader makes
    b->setHeader(new shiguredo::mp4::BoxHeader(shiguredo::mp4::BoxHeaderParameters{.type = shiguredo::mp4::BoxType(n.x.type)}));
  }
  return b;
}

shiguredo::mp4::BoxInfo* build(const Node& n, shiguredo::mp4::BoxInfo* parent) {
  auto* info = new shiguredo::mp4::BoxInfo({.parent = parent, .box = object(n).release()});
  for (const auto& k : n.kids) build(k, info);
  return info;
}

}  // namespace tree
