// P06: box trees are laid out contiguously and written exactly as laid out.
#include "lib.hpp"
#include "shiguredo/mp4/box/boxes.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "shiguredo/mp4/box_info.hpp"
#include "streams.hpp"
#include "tree.hpp"

using namespace pbt;
using namespace model;
using shiguredo::mp4::Box;
using shiguredo::mp4::BoxInfo;
using shiguredo::mp4::BoxType;
using tree::Node;

namespace {

constexpr std::uint64_t U32 = 0xffffffffULL;

// A box whose payload is a short head followed by a hole of any size: what a media data box of many gigabytes looks
// like to the layout code.
class Hollow : public Box {
 public:
  Hollow(Bytes head, std::uint64_t hole) : m_head(std::move(head)), m_hole(hole) { m_type = BoxType(fourcc("mdat")); }
  std::string toStringOnlyData() const override { return "hollow"; }
  std::uint64_t getDataSize() const override { return m_head.size() + m_hole; }
  std::uint64_t writeData(std::ostream& os) const override {
    os.write(reinterpret_cast<const char*>(m_head.data()), static_cast<std::streamsize>(m_head.size()));
    os.seekp(static_cast<std::streamoff>(m_hole), std::ios_base::cur);
    return (m_head.size() + m_hole) * 8;
  }
  std::uint64_t readData(std::istream&) override { throw std::logic_error("not readable"); }
  // the payload may change between two layouts
  void setHole(std::uint64_t n) { m_hole = n; }

 private:
  Bytes m_head;
  std::uint64_t m_hole;
};

struct Live {
  Node* n;
  BoxInfo* info;
  std::vector<FourCC> path;
};

void all_hollow(Node& n, std::vector<Node*>& out) {
  if (n.x.kind == "hollow") out.push_back(&n);
  for (auto& k : n.kids) all_hollow(k, out);
}

Node hollow(Src& s, std::uint64_t hole) {
  Node n;
  n.x.kind = "hollow";
  n.x.type = fourcc("mdat");
  n.x.wire = s.bytes(s.below(12));
  n.x.text = "hollow";
  n.virtual_tail = hole;
  return n;
}

BoxInfo* attach(Node& n, BoxInfo* parent, std::vector<FourCC> path, std::vector<Live>& live) {
  Box* b = n.x.kind == "hollow" ? new Hollow(n.x.wire, n.virtual_tail) : tree::object(n).release();
  auto* info = new BoxInfo({.parent = parent, .box = b});
  path.push_back(n.x.type);
  live.push_back({&n, info, path});
  for (auto& k : n.kids) attach(k, info, path, live);
  return info;
}

void check_layout(const std::vector<Live>& live, const std::string& when) {
  for (const auto& l : live) {
    const Box* b = l.info->getBox();
    const std::string at = when + ": box " + type_text(l.n->x.type);
    if (b->getSize() != l.n->size) {
      fail(at + " at " + std::to_string(l.n->offset) + ": total size " + std::to_string(b->getSize()) + ", expected " + std::to_string(l.n->size));
    }
    PBT_CHECK(l.info->getSize() == l.n->size, at + ": BoxInfo::getSize");
    const std::string t = b->toString();
    const std::string want = tree::header_text(*l.n) + (l.n->x.text.empty() ? "" : " " + l.n->x.text);
    if (t != want) fail(at + ": " + diff(want, t));
    if (l.n->x.kind != "unsupported") PBT_CHECK(l.info->getType() == BoxType(l.n->x.type), at + ": type");
  }
}

// the written bytes of every box at its place, and nothing else written
void check_written(const Node& n, streams::SparseBuf& buf, const std::string& when) {
  Wire w;
  w.u32(n.header == 16 ? 1 : n.size);
  w.raw(n.x.type);
  if (n.header == 16) w.u64(n.size);
  w.raw(n.x.wire);
  const Bytes got = buf.get(n.offset, w.b.size());
  if (got != w.b) fail(when + ": box " + type_text(n.x.type) + " at " + std::to_string(n.offset) + ": " + diff(w.b, got));
  for (const auto& k : n.kids) check_written(k, buf, when);
}

std::uint64_t payload_bytes(const Node& n) {
  std::uint64_t c = n.header + n.x.wire.size();
  for (const auto& k : n.kids) c += payload_bytes(k);
  return c;
}

// an independent walk over the bytes, guided only by which boxes are containers
void walk(const Node& n, streams::SparseBuf& buf, std::uint64_t& p) {
  const auto be = [&](std::uint64_t at, unsigned k) {
    std::uint64_t v = 0;
    for (unsigned i = 0; i < k; ++i) v = v << 8 | buf.at(at + i);
    return v;
  };
  PBT_CHECK(p == n.offset, "walker: a box starts elsewhere than laid out");
  std::uint64_t size = be(p, 4), h = 8;
  if (size == 1) {
    size = be(p + 8, 8);
    h = 16;
  }
  if (size != n.size) fail("walker: size field says " + std::to_string(size) + ", laid out as " + std::to_string(n.size));
  const std::uint64_t end = p + size;
  p += h + n.x.wire.size() + n.virtual_tail;
  for (const auto& k : n.kids) walk(k, buf, p);
  PBT_CHECK(p == end, "walker: the children do not fill their parent");
}

void write_and_check(Node& root, BoxInfo* info, const std::vector<Live>& live, Src& s, const std::string& when) {
  streams::SparseBuf buf;
  std::iostream io(&buf);
  const std::uint64_t before = s.coin() ? root.offset : 0;
  for (std::uint64_t i = 0; i < std::min<std::uint64_t>(root.offset, 8); ++i) buf.put(root.offset - 1 - i, 0x77);
  const std::uint64_t tail = root.offset + root.size;
  for (std::uint64_t i = 0; i < 8; ++i) buf.put(tail + i, 0x78);
  buf.writes.clear();
  buf.bytes_written = 0;
  io.seekp(static_cast<std::streamoff>(before));
  info->write(io);
  PBT_CHECK(io.good(), when + ": the stream failed");
  for (std::uint64_t i = 0; i < std::min<std::uint64_t>(root.offset, 8); ++i) {
    PBT_CHECK(buf.at(root.offset - 1 - i) == 0x77, when + ": a byte before the tree was overwritten");
  }
  for (std::uint64_t i = 0; i < 8; ++i) PBT_CHECK(buf.at(tail + i) == 0x78, when + ": a byte behind the tree was overwritten");
  for (const auto& [pos, len] : buf.writes) {
    if (pos < root.offset || pos + len > tail) fail(when + ": wrote outside the tree, at " + std::to_string(pos));
  }
  if (buf.bytes_written != payload_bytes(root)) {
    fail(when + ": " + std::to_string(buf.bytes_written) + " bytes written, expected " + std::to_string(payload_bytes(root)));
  }
  check_written(root, buf, when);
  std::uint64_t p = root.offset;
  walk(root, buf, p);
  check_layout(live, when + " (after writing)");
}

void place(Node& root, BoxInfo* info, const std::vector<Live>& live, std::uint64_t offset, const std::string& when) {
  tree::layout(root, offset);
  const std::uint64_t ret = info->adjustOffsetAndSize(offset);
  PBT_CHECK(ret == root.size, when + ": adjustOffsetAndSize returned " + std::to_string(ret) + ", the tree takes " + std::to_string(root.size));
  check_layout(live, when);
  const std::string want = tree::dump(root), got = info->toString();
  if (got != want) fail(when + ": rendered tree: " + diff(want, got));
}

std::uint64_t any_offset(Src& s) {
  switch (s.below(3)) {
    case 0: return s.below(100);
    case 1: return s.upto(std::uint64_t(1) << 20);
    default: return s.coin() ? U32 - 40 + s.below(80) : s.upto(std::uint64_t(1) << 50);
  }
}

void run(Src& s, Ctx& c, Node& root, bool giant) {
  std::vector<Live> live;
  std::unique_ptr<BoxInfo> info(attach(root, nullptr, {}, live));
  c.nontrivial(live.size() > 2);
  c.label("boxes " + std::to_string(live.size() < 5 ? live.size() : live.size() / 5 * 5) + "+");
  c.label("depth " + std::to_string(tree::depth_of(root)));
  for (const auto& l : live) {
    const auto path = l.info->getPath();
    std::vector<BoxType> want;
    for (const auto& t : l.path) want.emplace_back(t);
    bool opaque = l.n->x.kind == "unsupported";
    if (!opaque) {
      PBT_CHECK(path.size() == want.size(), "path length");
      for (std::size_t i = 0; i < path.size(); ++i) PBT_CHECK(path[i] == want[i], "path of box " + type_text(l.n->x.type));
    }
  }
  const std::uint64_t o1 = any_offset(s);
  place(root, info.get(), live, o1, "first layout");
  c.note("tree at " + std::to_string(o1) + ":\n" + tree::dump(root));
  c.fingerprint(mix(o1, mix(root.size, live.size())));
  const std::string d = tree::dump(root);
  c.fingerprint(hash_bytes(d.data(), d.size()));
  c.sample(std::to_string(live.size()) + " boxes at " + std::to_string(o1) + ", " + std::to_string(root.size) + " bytes, root " + type_text(root.x.type));
  write_and_check(root, info.get(), live, s, "first write");

  // change something and lay out again
  const std::size_t rounds = s.below(3);
  for (std::size_t r = 0; r < rounds; ++r) {
    const std::string when = "round " + std::to_string(r + 2);
    switch (s.below(giant ? 3 : 2)) {
      case 0:
        break;  // only another offset
      case 1: {  // another box joins under any box that may have children
        std::vector<std::size_t> at;
        for (std::size_t i = 0; i < live.size(); ++i) {
          if (live[i].n->x.container && !live[i].n->x.greedy) at.push_back(i);
        }
        if (at.empty()) break;
        const std::size_t i = s.one_of(at);
        std::size_t budget = 4;
        live[i].n->kids.push_back(tree::gen_box(s, {}, live[i].n->x.kind, 6, budget));
        const auto path = live[i].path;
        attach(live[i].n->kids.back(), live[i].info, path, live);
        c.label("child added between layouts");
        break;
      }
      default: {  // a giant box grows or shrinks across the limit
        std::vector<Node*> hs;
        all_hollow(root, hs);
        Node* h = s.one_of(hs);
        h->virtual_tail = s.coin() ? s.below(50) : U32 - 60 + s.below(70);
        for (const auto& l : live) {
          if (l.n == h) dynamic_cast<Hollow*>(l.info->getBox())->setHole(h->virtual_tail);
        }
        c.label("giant payload resized between layouts");
      }
    }
    const std::uint64_t o = s.coin() ? o1 : any_offset(s);
    if (s.chance(1, 3)) {  // a part of the tree is laid out on its own first; the layout of the whole is the one that counts
      const Live& l = live[s.below(live.size())];
      const std::uint64_t elsewhere = any_offset(s);
      tree::layout(*l.n, elsewhere);
      const std::uint64_t ret = l.info->adjustOffsetAndSize(elsewhere);
      PBT_CHECK(ret == l.n->size, when + ": laying out " + type_text(l.n->x.type) + " on its own returned " + std::to_string(ret) + ", it takes " + std::to_string(l.n->size));
      c.label("a part laid out on its own between layouts");
    }
    place(root, info.get(), live, o, when + " layout");
    write_and_check(root, info.get(), live, s, when + " write");
  }
}

void small_trees(Src& s, Ctx& c) {
  std::size_t budget = s.chance(1, 3) ? 60 : 15;
  tree::Options o;
  o.foreign = s.chance(1, 4);
  Node root;
  for (int i = 0; i < 4; ++i) {
    tree::Forest f = tree::gen_file(s, {false, budget, 8, false});
    if (!f.empty()) {
      root = std::move(f[s.below(f.size())]);
      break;
    }
    std::size_t b = budget;
    root = tree::gen_box(s, {}, "", 0, b);
  }
  if (root.x.type == FourCC{}) root = [&] { std::size_t b = 5; return tree::gen_box(s, {}, "", 0, b); }();
  std::function<void(Node&)> plain = [&](Node& n) {
    n.form = tree::Form::automatic;
    for (auto& k : n.kids) plain(k);
  };
  plain(root);
  run(s, c, root, false);
}

// a tree with one or more giant boxes, so that boxes at several levels sit within a few bytes of the 32-bit limit
void giant_trees(Src& s, Ctx& c) {
  std::vector<const char*> cs = {"moov", "trak", "udta", "mdia", "minf", "meta", "moof"};
  std::function<Node(unsigned)> make = [&](unsigned depth) {
    Node n;
    n.x = kind(cs[s.below(cs.size())]).gen(s, false);
    const std::size_t kids = 1 + s.below(3);
    for (std::size_t i = 0; i < kids; ++i) {
      if (depth < 5 && s.chance(2, 3)) {
        n.kids.push_back(make(depth + 1));
      } else if (s.coin()) {
        std::size_t b = 1;
        n.kids.push_back(tree::gen_box(s, {}, n.x.kind, 9, b));
      } else {
        n.kids.push_back(hollow(s, s.below(30)));
      }
    }
    return n;
  };
  Node root = make(0);
  std::vector<Node*> hs;
  all_hollow(root, hs);
  if (hs.empty()) {
    root.kids.push_back(hollow(s, 0));
    all_hollow(root, hs);
  }
  // choose the giant's size so that some ancestor (or the box itself) lands within a few bytes of the limit
  Node* h = s.one_of(hs);
  tree::layout(root, 0);
  std::vector<const Node*> chain;
  std::function<bool(const Node&)> find = [&](const Node& n) {
    chain.push_back(&n);
    if (&n == h) return true;
    for (const auto& k : n.kids) {
      if (find(k)) return true;
    }
    chain.pop_back();
    return false;
  };
  find(root);
  const Node* target = s.one_of(chain);
  const std::uint64_t other = target->size - h->virtual_tail;
  const std::int64_t delta = static_cast<std::int64_t>(s.below(41)) - 20;
  h->virtual_tail = s.chance(1, 6) ? s.upto(std::uint64_t(1) << 40) : U32 - other + static_cast<std::uint64_t>(delta);
  c.label("giant target depth " + std::to_string(target->size == 0 ? 0 : tree::depth_of(*target)));
  run(s, c, root, true);
  bool large = false;
  for (const Node* n : chain) large = large || n->header == 16;
  c.label_if(large, "64-bit header used");
}

}  // namespace

int main(int argc, char** argv) {
  Suite suite;
  suite.property = "P06";
  suite.rule =
      "A case draws a tree of boxes (legal-biased nesting, any kind anywhere, unknown types, chains up to 60 deep, and giant "
      "boxes that put some ancestor within 20 bytes of the 32-bit limit), lays it out and writes it with the library on a "
      "sparse file image, compares every offset, size, header byte and rendered line with an independent layout, walks the "
      "bytes, then adds or resizes boxes and lays out again. Non-trivial: more than two boxes; distinct by rendered tree.";
  suite.init = lib::quiet;
  suite.groups = {
      {"small_trees", 9000, 400000, small_trees},
      {"giant_trees", 9000, 400000, giant_trees},
  };
  return run_main(argc, argv, suite);
}
