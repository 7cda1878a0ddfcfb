// P09, in files beyond 4 GiB (built without sanitizers, for speed).
#include <algorithm>
#include <iostream>
#include <map>

#include "lib.hpp"
#include "shiguredo/mp4/reader/reader.hpp"
#include "tree.hpp"

using namespace pbt;
using namespace model;

namespace {

std::string dump_stream(std::istream& is) {
  CaptureStdout cap;
  std::string err;
  {
    shiguredo::mp4::reader::SimpleReader r(is);
    try {
      r.read();
    } catch (const std::exception& e) {
      err = e.what();
    }
  }
  const std::string out = cap.finish();
  if (!err.empty()) fail("the reader refused a well-formed file: " + err);
  return out;
}

// a file of which only some pieces are given; everything else in it is zero. Buffered, so that gigabytes pass quickly.
class LargeIn : public std::streambuf {
 public:
  LargeIn(std::map<std::uint64_t, Bytes> pieces, std::uint64_t size) : m_pieces(std::move(pieces)), m_size(size), m_buf(1 << 20) {}

 protected:
  int_type underflow() override {
    const std::uint64_t p = here();
    if (p >= m_size) return traits_type::eof();
    const std::uint64_t n = std::min<std::uint64_t>(m_buf.size(), m_size - p);
    if (m_dirty) std::fill(m_buf.begin(), m_buf.end(), 0);
    m_dirty = false;
    for (auto it = m_pieces.begin(); it != m_pieces.end() && it->first < p + n; ++it) {
      const std::uint64_t a = std::max(it->first, p), z = std::min(it->first + it->second.size(), p + n);
      if (a >= z) continue;
      std::copy_n(it->second.begin() + static_cast<std::ptrdiff_t>(a - it->first), z - a, m_buf.begin() + static_cast<std::ptrdiff_t>(a - p));
      m_dirty = true;
    }
    m_base = p;
    char* b = m_buf.data();
    setg(b, b, b + n);
    return traits_type::to_int_type(*b);
  }
  pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override {
    const auto base = static_cast<off_type>(dir == std::ios_base::beg ? 0 : dir == std::ios_base::end ? m_size : here());
    if (dir == std::ios_base::cur && off == 0) return pos_type(base);
    return seekpos(pos_type(base + off), std::ios_base::in);
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode) override {
    const off_type o = p;
    if (o < 0 || static_cast<std::uint64_t>(o) > m_size) return pos_type(off_type(-1));
    m_base = static_cast<std::uint64_t>(o);
    setg(m_buf.data(), m_buf.data(), m_buf.data());
    return p;
  }

 private:
  std::uint64_t here() const { return m_base + static_cast<std::uint64_t>(gptr() - eback()); }
  std::map<std::uint64_t, Bytes> m_pieces;
  std::uint64_t m_size, m_base = 0;
  std::vector<char> m_buf;
  bool m_dirty = false;
};

// boxes beyond 4 GiB: after many large ones, or after (or inside) a single one with a 64-bit size
void beyond_4gib(Src& s, Ctx& c) {
  const unsigned shape = static_cast<unsigned>(s.enumerate(2));
  tree::Forest f;
  tree::Options o;
  o.foreign = s.coin();
  o.max_depth = 3;
  const auto some = [&] {
    std::size_t budget = 6;
    return tree::gen_box(s, o, "", 0, budget);
  };
  // large payloads that the dump does not show: sample groups of an unknown kind
  const auto large = [&](std::uint64_t tail) {
    tree::Node n;
    Wire w;
    const bool v1 = s.coin();
    const std::uint64_t v = s.bits(32);
    w.full(v1 ? 1 : 0, 0);
    w.raw(fourcc("zzzz"));
    w.u32(v);
    n.x.kind = "sgpd";
    n.x.type = fourcc("sgpd");
    n.x.wire = w.b;
    n.x.text = std::string(v1 ? "Version=1" : "Version=0") + " Flags=0x000000 GroupingType=\"zzzz\" " +
               (v1 ? "DefaultLength=" : "DefaultSampleDescriptionIndex=") + std::to_string(v);
    n.virtual_tail = tail;
    n.form = s.coin() ? tree::Form::large : tree::Form::automatic;
    return n;
  };
  const std::uint64_t total = (std::uint64_t(1) << 32) + s.below(1 << 20);
  f.push_back(some());
  if (shape == 0) {
    const unsigned n = 24 + static_cast<unsigned>(s.below(40));
    for (unsigned i = 0; i < n; ++i) {
      f.push_back(large(total / n));
      if (s.chance(1, 8)) f.push_back(some());
    }
  } else {
    f.push_back(large(total));
  }
  f.push_back(some());
  f.push_back(some());
  if (s.coin()) f.back().form = tree::Form::to_eof;
  const std::uint64_t size = tree::layout(f);
  const std::string want = tree::dump(f);
  c.label(shape == 0 ? "many large boxes" : "one box above 4 GiB");
  c.nontrivial();
  c.fingerprint(hash_bytes(want.data(), want.size()));
  c.sample(std::to_string(f.size()) + " top-level boxes, " + std::to_string(size) + " bytes");
  c.note("file of " + std::to_string(size) + " bytes:\n" + want);
  std::map<std::uint64_t, Bytes> pieces;
  for (auto& n : f) {
    const std::uint64_t tail = n.virtual_tail;
    n.virtual_tail = 0;
    const std::uint64_t was = n.size;
    Bytes b;
    n.size = was;  // the size that the header states includes the tail
    tree::serialize(n, b);
    n.virtual_tail = tail;
    pieces[n.offset] = b;
  }
  LargeIn buf(std::move(pieces), size);
  std::istream is(&buf);
  const std::string got = dump_stream(is);
  if (got != want) fail("dump: " + diff(want, got));
}

}  // namespace

int main(int argc, char** argv) {
  Suite suite;
  suite.property = "P09";
  suite.rule = "A case draws a file beyond 4 GiB.";
  suite.init = [] {
    lib::quiet();
    mem_set_limit(std::uint64_t(20) << 30);
  };
  suite.groups = {
      {"beyond_4gib", 2, 40, beyond_4gib, 300},
  };
  return run_main(argc, argv, suite);
}
