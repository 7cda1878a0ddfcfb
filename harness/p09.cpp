// P09: a file dump lists every box with its true place, size and contents.
#include <fstream>
#include <iostream>
#include <set>

#include "lib.hpp"
#include "shiguredo/mp4/reader/reader.hpp"
#include "tree.hpp"

using namespace pbt;
using namespace model;

namespace {

std::string dump_stream(std::istream& is) {
  CaptureStdout cap;
  std::string err;
  {
    shiguredo::mp4::reader::SimpleReader r(is);
    try {
      r.read();
    } catch (const std::exception& e) {
      err = e.what();
    }
  }
  const std::string out = cap.finish();
  if (!err.empty()) fail("the reader refused a well-formed file: " + err);
  return out;
}

void check(Src& s, Ctx& c, tree::Forest& f) {
  tree::layout(f);
  const Bytes b = tree::serialize(f);
  const std::string want = tree::dump(f);
  c.note("file of " + std::to_string(b.size()) + " bytes:\n" + want + hex(b, 6000));
  c.sample(std::to_string(tree::count(f)) + " boxes, " + std::to_string(b.size()) + " bytes: " + want.substr(0, 300));
  c.nontrivial(tree::count(f) >= 3);
  c.fingerprint(hash_bytes(b.data(), b.size()));
  unsigned depth = 0;
  std::set<std::string> seen;
  std::function<void(const tree::Node&)> visit = [&](const tree::Node& n) {
    seen.insert(n.x.kind);
    if (n.form == tree::Form::large) seen.insert("64-bit size");
    if (n.form == tree::Form::to_eof) seen.insert("extends to the end");
    for (const auto& k : n.kids) visit(k);
  };
  for (const auto& n : f) {
    visit(n);
    depth = std::max(depth, tree::depth_of(n));
  }
  for (const auto& k : seen) c.label(k);
  c.label("depth " + std::to_string(depth));
  std::string got;
  if (s.chance(1, 20)) {
    c.label("through a real file");
    const std::string path = scratch_dir() + "/in.mp4";
    std::ofstream(path, std::ios::binary).write(reinterpret_cast<const char*>(b.data()), static_cast<std::streamsize>(b.size()));
    std::ifstream is(path, std::ios::binary);
    got = dump_stream(is);
  } else {
    std::istringstream is(lib::str(b));
    got = dump_stream(is);
  }
  if (got != want) fail("dump: " + diff(want, got));
}

void any_file(Src& s, Ctx& c) {
  tree::Options o;
  o.foreign = s.chance(2, 3);
  o.max_boxes = s.chance(1, 10) ? 200 : 30;
  tree::Forest f = tree::gen_file(s, o);
  check(s, c, f);
}

// every kind of box in a place where it may stand, with its neighbours intact
void each_kind(Src& s, Ctx& c) {
  const auto& k = pick_kind(s);
  tree::Forest f;
  const auto lead = [&] {
    std::size_t budget = 3;
    tree::Options o;
    o.foreign = s.coin();
    o.max_depth = 2;
    return tree::gen_box(s, o, "moov", 0, budget);
  };
  tree::Node n;
  n.x = k.gen(s, s.coin());
  if (n.x.kind == "unsupported") n.x.type = tree::unregistered_type(s);
  c.label("kind " + n.x.kind + " " + n.x.variant);
  tree::Node p;
  p.x = kind(n.x.under_wave ? "wave" : "moov").gen(s, false);
  const bool nested = n.x.under_wave || s.coin();
  if (n.x.container && !n.x.greedy && s.coin()) {
    tree::Node kid = lead();
    if (!(n.x.kind == "wave" && kid.x.kind == "audio")) n.kids.push_back(std::move(kid));
  }
  auto other = [&] {
    tree::Node k2 = lead();
    while (p.x.kind == "wave" && k2.x.kind == "audio") k2 = lead();
    return k2;
  };
  if (nested) {
    if (s.coin()) p.kids.push_back(other());
    p.kids.push_back(std::move(n));
    if (s.coin()) p.kids.push_back(other());
    f.push_back(std::move(p));
  } else {
    f.push_back(std::move(n));
  }
  if (s.coin()) f.push_back(lead());
  check(s, c, f);
}

// more siblings than 8 or 16 bits count, or a payload whose lists are that long
void wide(Src& s, Ctx& c) {
  tree::Forest f;
  tree::Options o;
  o.foreign = s.coin();
  o.max_depth = 2;
  tree::Node n;
  if (s.coin()) {
    n.x = wide_sample(s, o.foreign);
    if (n.x.kind == "unsupported") n.x.type = tree::unregistered_type(s);
    c.label("long payload: " + n.x.kind);
    if (n.x.under_wave) {
      tree::Node w;
      w.x = kind("wave").gen(s, false);
      w.kids.push_back(std::move(n));
      n = std::move(w);
    }
  } else {
    const char* parents[] = {"moov", "trak", "stbl", "ilst", "dref", "stsd", "meta", "udta", "mvex"};
    n.x = kind(parents[s.below(9)]).gen(s, false);
    const bool huge = s.chance(1, 12);
    const std::size_t kids = (huge ? 65536 : 256) + 2 - s.below(5);
    c.label(huge ? "about 2^16 siblings" : "about 2^8 siblings");
    for (std::size_t i = 0; i < kids; ++i) {
      std::size_t budget = 2;
      if (!huge && (i < 2 || i + 3 > kids || s.chance(1, 20))) {
        n.kids.push_back(tree::gen_box(s, o, n.x.kind, 0, budget));
      } else {
        tree::Node k;
        k.x = kind(i & 1 ? "free" : "skip").gen(*std::make_unique<Src>(std::vector<std::uint64_t>{}), false);
        n.kids.push_back(std::move(k));
      }
    }
  }
  std::size_t budget = 3;
  if (s.coin()) f.push_back(tree::gen_box(s, o, "", 0, budget));
  f.push_back(std::move(n));
  if (s.coin()) f.push_back(tree::gen_box(s, o, "", 0, budget));
  check(s, c, f);
}

}  // namespace

int main(int argc, char** argv) {
  Suite suite;
  suite.property = "P09";
  suite.rule =
      "A case draws a file as a tree of boxes (legal-biased nesting, any kind anywhere, unknown types, 32-bit, 64-bit and "
      "to-the-end sizes, payloads in forms this library does not emit), serializes it with an independent encoder, dumps it "
      "with the reader and compares the whole output with the independently rendered tree. Non-trivial: at least three "
      "boxes; distinct by file bytes.";
  suite.assumptions = {"nesting stays below the reader's limit of 256 levels", "box kinds that claim the rest of their box have no children"};
  suite.init = lib::quiet;
  suite.groups = {
      {"any_file", 40000, 700000, any_file},
      {"each_kind", 40000, 700000, each_kind},
      {"wide", 400, 30000, wide},
  };
  return run_main(argc, argv, suite);
}
