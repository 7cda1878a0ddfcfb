// P10: truncated files and payloads are rejected, not misreported.
#include <iostream>

#include "lib.hpp"
#include "shiguredo/mp4/reader/reader.hpp"
#include "tree.hpp"

using namespace pbt;
using namespace model;

namespace {

struct Outcome {
  std::string out;
  std::string err;
};

Outcome read_file(const Bytes& b) {
  std::istringstream is(lib::str(b));
  Outcome o;
  CaptureStdout cap;
  {
    shiguredo::mp4::reader::SimpleReader r(is);
    try {
      r.read();
    } catch (const std::exception& e) {
      o.err = e.what();
      if (o.err.empty()) o.err = "(no message)";
    }
  }
  o.out = cap.finish();
  return o;
}

void expect_rejected(const Outcome& o, const std::string& what) {
  if (o.err.empty()) fail(what + ": accepted and dumped as:\n" + o.out.substr(0, 2000));
  if (!o.out.empty()) fail(what + ": rejected (" + o.err + ") but something was dumped:\n" + o.out.substr(0, 2000));
}

void cut_files(Src& s, Ctx& c) {
  tree::Options o;
  o.foreign = s.coin();
  o.max_boxes = s.chance(1, 10) ? 60 : 12;
  tree::Forest f = tree::gen_file(s, o);
  if (f.empty()) return;
  if (f.back().form == tree::Form::to_eof) f.back().form = tree::Form::automatic;
  tree::layout(f);
  const Bytes b = tree::serialize(f);
  c.note("file of " + std::to_string(b.size()) + " bytes:\n" + tree::dump(f));
  c.nontrivial(tree::count(f) >= 2);
  c.fingerprint(hash_bytes(b.data(), b.size()));
  c.sample(std::to_string(b.size()) + " bytes, " + std::to_string(tree::count(f)) + " boxes");
  std::map<std::size_t, std::string> whole;  // cut positions that leave whole boxes
  whole[0] = "";
  {
    std::string d;
    for (const auto& n : f) {
      d += tree::dump(n) + "\n";
      whole[n.offset + n.size] = d;
    }
  }
  // every position of small files; of larger ones, the positions around every box start and a sample of the others
  std::vector<std::size_t> cuts;
  if (b.size() <= 300) {
    for (std::size_t i = 0; i < b.size(); ++i) cuts.push_back(i);
  } else {
    std::function<void(const tree::Node&)> around = [&](const tree::Node& n) {
      for (std::uint64_t k : {n.offset, n.offset + 1, n.offset + 4, n.offset + 7, n.offset + n.header, n.offset + n.header + 1, n.offset + n.size - 1}) {
        if (k < b.size()) cuts.push_back(k);
      }
      for (const auto& k : n.kids) around(k);
    };
    for (const auto& n : f) around(n);
    for (int i = 0; i < 60; ++i) cuts.push_back(s.below(b.size()));
    std::sort(cuts.begin(), cuts.end());
    cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
    while (cuts.size() > 160) cuts.erase(cuts.begin() + static_cast<std::ptrdiff_t>(s.below(cuts.size())));
  }
  c.sub_evals += cuts.size();
  for (const auto cut : cuts) {
    const std::string what = "cut at " + std::to_string(cut) + " of " + std::to_string(b.size());
    const Outcome r = read_file(Bytes(b.begin(), b.begin() + static_cast<std::ptrdiff_t>(cut)));
    const auto it = whole.find(cut);
    if (it == whole.end()) {
      expect_rejected(r, what);
    } else {
      if (!r.err.empty()) fail(what + " (between top-level boxes): rejected: " + r.err);
      if (r.out != it->second) fail(what + ": " + diff(it->second, r.out));
    }
  }
}

// payloads cut at every byte
void cut_payloads(Src& s, Ctx& c) {
  const auto& k = pick_kind(s);
  const Sample x = k.gen(s, s.coin());
  c.label("kind " + x.kind);
  c.label(x.kind + " " + x.variant);
  c.nontrivial(x.interesting);
  c.fingerprint(hash_bytes(x.wire.data(), x.wire.size(), mix(10, hash_bytes(x.kind.data(), x.kind.size()))));
  c.note(x.kind + " " + x.variant + " payload " + hex(x.wire, 4096));
  c.sample(x.kind + " " + x.variant + " " + std::to_string(x.wire.size()) + " bytes");
  std::vector<std::size_t> cuts;
  if (x.wire.size() <= 256) {
    for (std::size_t i = 0; i < x.wire.size(); ++i) cuts.push_back(i);
  } else {
    for (std::size_t i = 0; i < 64; ++i) cuts.push_back(i);
    for (int i = 0; i < 40; ++i) cuts.push_back(s.below(x.wire.size()));
    for (std::size_t i = 1; i < 20; ++i) cuts.push_back(x.wire.size() - i);
  }
  unsigned required = 0;
  for (const auto cut : cuts) {
    const bool must = x.prefix_must_fail(cut);
    required += must;
    BoxPtr b = x.registered && cut % 2 == 0 ? lib::from_registry(x.type, x.under_wave) : x.fresh();
    const Bytes part(x.wire.begin(), x.wire.begin() + static_cast<std::ptrdiff_t>(cut));
    std::string text;
    const std::string err = lib::thrown([&] {
      lib::decode(*b, part);
      text = b->toStringOnlyData();
    });
    if (must && err.empty()) {
      fail(x.kind + ": payload cut to " + std::to_string(cut) + " of " + std::to_string(x.wire.size()) + " bytes was decoded as " + text.substr(0, 1000));
    }
  }
  c.sub_evals += cuts.size();
  c.label_if(required > 0, "cuts that must be refused");
}

// long lists and byte strings, cut near the ends and wherever a shortened count would put the end
void cut_wide(Src& s, Ctx& c) {
  const Sample x = wide_sample(s, s.coin());
  c.label("kind " + x.kind);
  c.nontrivial(x.wire.size() > 100);
  c.fingerprint(hash_bytes(x.wire.data(), x.wire.size(), mix(11, hash_bytes(x.kind.data(), x.kind.size()))));
  c.note(x.kind + " " + x.variant + " of " + std::to_string(x.wire.size()) + " bytes");
  c.sample(x.kind + " " + x.variant + " " + std::to_string(x.wire.size()) + " bytes");
  const std::size_t z = x.wire.size();
  if (z == 0) return;
  std::vector<std::size_t> cuts{z - 1, z / 2, s.below(z), s.below(z), z - 1 - s.below(std::min<std::size_t>(z, 16))};
  for (const std::size_t p : {std::size_t{256}, std::size_t{65536}}) {
    if (z > p) cuts.push_back(z - p);
    if (z > p) cuts.push_back(p + s.below(std::min<std::size_t>(z - p, 20)));
  }
  for (const auto cut : cuts) {
    BoxPtr b = x.fresh();
    const Bytes part(x.wire.begin(), x.wire.begin() + static_cast<std::ptrdiff_t>(cut));
    const std::string err = lib::thrown([&] { lib::decode(*b, part); });
    if (x.prefix_must_fail(cut) && err.empty()) {
      fail(x.kind + ": payload cut to " + std::to_string(cut) + " of " + std::to_string(z) + " bytes was decoded");
    }
  }
  c.sub_evals += cuts.size();
}

// a box that ends before its fields do, inside an otherwise intact file: the neighbours' bytes must not be taken
void short_boxes(Src& s, Ctx& c) {
  tree::Options o;
  o.foreign = s.coin();
  o.max_boxes = 12;
  tree::Forest f;
  std::vector<tree::Node*> leaves;
  std::function<void(tree::Node&)> visit = [&](tree::Node& n) {
    if (n.kids.empty() && !n.x.wire.empty()) leaves.push_back(&n);
    for (auto& k : n.kids) visit(k);
  };
  for (int i = 0; i < 5 && leaves.empty(); ++i) {
    f = tree::gen_file(s, o);
    leaves.clear();
    for (auto& n : f) visit(n);
  }
  if (leaves.empty()) return;
  tree::Node* n = s.one_of(leaves);
  std::vector<std::size_t> bad;
  for (std::size_t i = 0; i < n->x.wire.size(); ++i) {
    if (n->x.prefix_must_fail(i)) bad.push_back(i);
  }
  if (bad.empty()) return;
  const std::size_t cut = s.one_of(bad);
  const std::string was = n->x.kind + " payload of " + std::to_string(n->x.wire.size()) + " bytes cut to " + std::to_string(cut);
  n->x.wire.resize(cut);
  if (f.back().form == tree::Form::to_eof && n != &f.back()) f.back().form = tree::Form::automatic;
  tree::layout(f);
  const Bytes b = tree::serialize(f);
  c.label("kind " + n->x.kind);
  c.nontrivial();
  c.fingerprint(hash_bytes(b.data(), b.size()));
  c.note(was + " in file:\n" + tree::dump(f));
  c.sample(was);
  expect_rejected(read_file(b), was);
}

// a container whose size ends inside one of its children, all sizes around it being consistent: the rest of that child
// must not be taken from what follows the container
void short_containers(Src& s, Ctx& c) {
  tree::Options o;
  o.foreign = s.coin();
  o.max_boxes = 20;
  tree::Forest f;
  std::vector<std::vector<const tree::Node*>> paths;  // a container with children, and the containers around it
  std::vector<const tree::Node*> path;
  std::function<void(const tree::Node&)> visit = [&](const tree::Node& n) {
    path.push_back(&n);
    if (!n.kids.empty()) paths.push_back(path);
    for (const auto& k : n.kids) visit(k);
    path.pop_back();
  };
  for (int i = 0; i < 5 && paths.empty(); ++i) {
    f = tree::gen_file(s, o);
    if (f.empty()) continue;
    if (f.back().form == tree::Form::to_eof) f.back().form = tree::Form::automatic;
    tree::layout(f);
    for (const auto& n : f) visit(n);
  }
  if (paths.empty()) return;
  const auto way = s.one_of(paths);
  const tree::Node& box = *way.back();
  auto kid = box.kids.begin();
  std::advance(kid, static_cast<std::ptrdiff_t>(s.below(box.kids.size())));
  // the cut: within the header of that child as often as behind it
  const std::uint64_t within = s.coin() ? s.range(1, std::min(kid->header, kid->size - 1)) : s.range(1, kid->size - 1);
  const std::uint64_t cut = kid->offset + within;
  const std::uint64_t lost = box.offset + box.size - cut;
  Bytes b = tree::serialize(f);
  for (const auto* n : way) {
    const std::uint64_t size = n->size - lost;
    const std::size_t at = static_cast<std::size_t>(n->offset) + (n->header == 16 ? 8 : 0);
    const int width = n->header == 16 ? 8 : 4;
    for (int i = 0; i < width; ++i) b[at + static_cast<std::size_t>(i)] = static_cast<std::uint8_t>(size >> (8 * (width - 1 - i)));
  }
  b.erase(b.begin() + static_cast<std::ptrdiff_t>(cut), b.begin() + static_cast<std::ptrdiff_t>(cut + lost));
  const std::string what = box.x.kind + " at " + std::to_string(box.offset) + " of " + std::to_string(box.size) + " bytes ending after " +
                           std::to_string(within) + " of the " + std::to_string(kid->size) + " bytes of its child " + kid->x.kind;
  c.label(within <= kid->header ? "within the header of a child" : "within the payload of a child");
  c.label_if(b.size() > cut, "followed by other boxes");
  c.nontrivial();
  c.fingerprint(hash_bytes(b.data(), b.size()));
  c.note(what + " in file:\n" + tree::dump(f));
  c.sample(what);
  expect_rejected(read_file(b), what);
}

}  // namespace

int main(int argc, char** argv) {
  Suite suite;
  suite.property = "P10";
  suite.rule =
      "A case draws a file and reads it cut at every byte (around every box and at sampled positions of larger files), a box "
      "payload decoded after being cut at every byte, or a file holding one box whose payload or one container "
      "inside a child ends early while all sizes are consistent. Non-trivial: at least two boxes, or contents beyond the default; distinct by bytes.";
  suite.assumptions = {"cuts that leave a complete shorter form (an open-ended byte string, a whole number of open-ended entries) are not required to be refused"};
  suite.init = lib::quiet;
  suite.groups = {
      {"cut_files", 1500, 60000, cut_files},
      {"cut_payloads", 12000, 500000, cut_payloads},
      {"short_boxes", 15000, 600000, short_boxes},
      {"short_containers", 15000, 600000, short_containers},
      {"cut_wide", 400, 30000, cut_wide},
  };
  return run_main(argc, argv, suite);
}
