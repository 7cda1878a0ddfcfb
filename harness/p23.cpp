// P23: input that cannot be read is reported, never made up.
#include <algorithm>
#include <functional>
#include <iostream>
#include <limits>

#include "lib.hpp"
#include "shiguredo/mp4/bitio/bitio.hpp"
#include "shiguredo/mp4/bitio/reader.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "shiguredo/mp4/reader/reader.hpp"
#include "shiguredo/mp4/stream/stream.hpp"
#include "tree.hpp"

using namespace pbt;
using namespace model;
using shiguredo::mp4::BoxHeader;
using shiguredo::mp4::BoxType;

namespace {

constexpr std::uint64_t kNever = std::numeric_limits<std::uint64_t>::max();

enum class How { once_eof, ever_eof, once_throw, ever_throw };
const char* name(How h) {
  return h == How::once_eof ? "end of data, once" : h == How::ever_eof ? "end of data, from then on" : h == How::once_throw ? "read error, once" : "read error, from then on";
}

struct Fault {
  std::uint64_t read = kNever;  // the first attempt to get a byte after this many have been delivered
  std::uint64_t seek = kNever;  // the n-th change of position
  std::uint64_t tell = kNever;  // the n-th query of the position
  std::uint64_t gone = kNever;  // bytes from this position on are not there, although the size says so
  How how = How::once_eof;
  bool lost = false;            // a refused seek leaves the position at the start
  std::string text() const {
    std::string w;
    if (read != kNever) w = "after " + std::to_string(read) + " bytes delivered: ";
    if (seek != kNever) w = "seek no. " + std::to_string(seek) + ": ";
    if (tell != kNever) w = "position query no. " + std::to_string(tell) + ": ";
    if (gone != kNever) return "the bytes from " + std::to_string(gone) + " on cannot be read";
    return w + name(how) + (lost ? ", and the position is lost" : "");
  }
};

// an unbuffered input file that fails on demand
class FaultyIn : public std::streambuf {
 public:
  explicit FaultyIn(const Bytes& b, std::uint64_t shift = 0, const Fault& f = {}) : m_b(b), m_shift(shift), m_f(f) {}
  bool hit = false;  // a fault was delivered
  std::uint64_t reads = 0, seeks = 0, tells = 0;
  // faults count from here; none before and none after disarm
  void arm() { reads = seeks = tells = 0; m_armed = true; }
  void disarm() { m_armed = false; }

 protected:
  int_type underflow() override {
    if (m_pos >= m_shift + m_b.size()) return traits_type::eof();
    if (m_pos < m_shift) return traits_type::to_int_type(0);
    if (m_armed && m_pos >= m_f.gone) {
      strike();
      return traits_type::eof();
    }
    if (m_armed && m_f.read != kNever && reads >= m_f.read && !(hit && once())) {
      strike();
      if (throws()) throw std::runtime_error("injected read error");
      return traits_type::eof();
    }
    return traits_type::to_int_type(static_cast<char>(m_b[m_pos - m_shift]));
  }
  int_type uflow() override {
    const auto c = underflow();
    if (!traits_type::eq_int_type(c, traits_type::eof())) {
      ++m_pos;
      ++reads;
    }
    return c;
  }
  std::streamsize xsgetn(char* s, std::streamsize n) override {
    std::streamsize k = 0;
    for (; k < n; ++k) {
      const auto c = uflow();
      if (traits_type::eq_int_type(c, traits_type::eof())) break;
      s[k] = traits_type::to_char_type(c);
    }
    return k;
  }
  pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override {
    if (dir == std::ios_base::cur && off == 0) {
      if (due(m_f.tell, tells++)) return failed();
      return pos_type(static_cast<off_type>(m_pos));
    }
    const std::int64_t base = dir == std::ios_base::beg ? 0 : static_cast<std::int64_t>(dir == std::ios_base::end ? m_shift + m_b.size() : m_pos);
    return go(base + off);
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode) override { return go(static_cast<std::int64_t>(off_type(p))); }

 private:
  bool once() const { return m_f.how == How::once_eof || m_f.how == How::once_throw; }
  bool throws() const { return m_f.how == How::once_throw || m_f.how == How::ever_throw; }
  void strike() { hit = true; }
  bool due(std::uint64_t at, std::uint64_t n) const { return m_armed && at != kNever && (once() ? n == at : n >= at); }
  pos_type failed() {
    strike();
    if (throws()) throw std::runtime_error("injected seek error");
    return pos_type(off_type(-1));
  }
  pos_type go(std::int64_t p) {
    if (due(m_f.seek, seeks++)) {
      if (m_f.lost) m_pos = 0;
      return failed();
    }
    if (p < 0 || static_cast<std::uint64_t>(p) > m_shift + m_b.size()) return pos_type(off_type(-1));
    m_pos = static_cast<std::uint64_t>(p);
    return pos_type(static_cast<off_type>(p));
  }
  const Bytes& m_b;
  std::uint64_t m_shift;
  Fault m_f;
  std::uint64_t m_pos = 0;
  bool m_armed = false;
};

// the points at which a run of this cost can be disturbed: all of them for short runs
std::vector<Fault> faults(Src& s, const FaultyIn& clean, const std::vector<std::uint64_t>& landmarks, std::size_t max) {
  std::vector<Fault> v;
  const auto add = [&](std::uint64_t n, std::uint64_t Fault::* what) {
    std::vector<std::uint64_t> at;
    if (n <= max) {
      for (std::uint64_t i = 0; i < n; ++i) at.push_back(i);
    } else {
      for (const std::uint64_t l : landmarks) {
        for (std::uint64_t d = 0; d < 3; ++d) {
          if (l + d >= 1 && l + d - 1 < n && at.size() < max / 2) at.push_back(l + d - 1);
        }
      }
      at.push_back(0);
      at.push_back(n - 1);
      while (at.size() < max) at.push_back(s.below(n));
    }
    for (const auto i : at) {
      Fault f;
      f.*what = i;
      f.how = static_cast<How>(s.below(4));
      f.lost = s.coin();
      v.push_back(f);
    }
  };
  add(clean.reads, &Fault::read);
  add(clean.seeks, &Fault::seek);
  add(clean.tells, &Fault::tell);
  return v;
}

struct Outcome {
  std::string out, err;
};

std::string message(const std::function<void()>& f) {
  try {
    f();
  } catch (const std::exception& e) {
    return std::string("error: ") + e.what();
  } catch (...) {
    return "error: not a standard exception";
  }
  return "";
}

Outcome read_file(FaultyIn& buf, bool masks) {
  std::istream is(&buf);
  Outcome o;
  buf.arm();
  CaptureStdout cap;
  o.err = message([&] {
    if (masks) is.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    shiguredo::mp4::reader::SimpleReader r(is);
    r.read();
  });
  o.out = cap.finish();
  return o;
}

// reading a whole file
void files(Src& s, Ctx& c) {
  tree::Options o;
  o.foreign = s.coin();
  o.max_boxes = s.chance(1, 8) ? 40 : 8;
  tree::Forest f = tree::gen_file(s, o);
  tree::layout(f);
  const Bytes b = tree::serialize(f);
  const std::string want = tree::dump(f);
  const bool masks = s.chance(1, 6);
  c.note("file of " + std::to_string(b.size()) + " bytes:\n" + want);
  c.nontrivial(tree::count(f) >= 2);
  c.fingerprint(hash_bytes(b.data(), b.size(), masks));
  c.sample(std::to_string(b.size()) + " bytes, " + std::to_string(tree::count(f)) + " boxes");
  FaultyIn clean(b);
  const Outcome ok = read_file(clean, masks);
  if (!ok.err.empty()) fail("an undisturbed file: " + ok.err);
  if (ok.out != want) fail("an undisturbed file: " + diff(want, ok.out));
  std::vector<std::uint64_t> marks;
  std::function<void(const tree::Node&)> around = [&](const tree::Node& n) {
    marks.push_back(n.offset);
    marks.push_back(n.offset + n.header);
    marks.push_back(n.offset + n.size);
    for (const auto& k : n.kids) around(k);
  };
  for (const auto& n : f) around(n);
  auto all = faults(s, clean, marks, 60);
  for (int i = 0; i < 12 && !b.empty(); ++i) {
    Fault g;
    g.gone = i < 4 && !marks.empty() ? std::min<std::uint64_t>(s.one_of(marks), b.size() - 1) : s.below(b.size());
    all.push_back(g);
  }
  c.sub_evals += all.size();
  unsigned delivered = 0;
  for (const auto& x : all) {
    FaultyIn buf(b, 0, x);
    const Outcome r = read_file(buf, masks);
    delivered += buf.hit;
    if (r.err.empty()) {
      if (r.out != want) fail(x.text() + ": not reported, and the dump is not the file's: " + diff(want, r.out));
    } else {
      if (!buf.hit) fail(x.text() + ": reported (" + r.err + ") but never happened");
      if (!r.out.empty()) fail(x.text() + ": reported (" + r.err + ") but something was dumped:\n" + r.out.substr(0, 2000));
    }
  }
  c.label_if(delivered > 0, "faults delivered");
}

// one box payload, at any position of a stream
void payloads(Src& s, Ctx& c) {
  const bool wide = s.chance(1, 30);
  const Sample x = wide ? wide_sample(s, s.coin()) : pick_kind(s).gen(s, s.coin());
  const std::uint64_t shift = s.coin() ? 0 : s.upto(1u << 20);
  const bool masks = s.chance(1, 6);
  c.label("kind " + x.kind);
  c.nontrivial(x.interesting);
  c.fingerprint(hash_bytes(x.wire.data(), x.wire.size(), mix(shift, hash_bytes(x.kind.data(), x.kind.size()))));
  c.note(x.kind + " " + x.variant + " at " + std::to_string(shift) + ", payload " + hex(x.wire, 4096));
  c.sample(x.kind + " " + x.variant + " " + std::to_string(x.wire.size()) + " bytes at " + std::to_string(shift));
  const auto run = [&](FaultyIn& buf, BoxPtr& box, std::uint64_t& bits) {
    std::istream is(&buf);
    is.seekg(static_cast<std::streamoff>(shift));
    buf.arm();
    return message([&] {
      if (masks) is.exceptions(std::ios_base::failbit | std::ios_base::badbit);
      bits = box->readData(is);
    });
  };
  FaultyIn clean(x.wire, shift);
  BoxPtr b = x.fresh();
  std::uint64_t bits = 0;
  const std::string e = run(clean, b, bits);
  if (!e.empty()) fail(x.kind + ": undisturbed: " + e);
  if (b->toStringOnlyData() != x.text) fail(x.kind + ": undisturbed: " + diff(x.text, b->toStringOnlyData()));
  const auto all = faults(s, clean, {}, wide ? 12 : 80);
  c.sub_evals += all.size();
  for (const auto& g : all) {
    FaultyIn buf(x.wire, shift, g);
    BoxPtr n = x.fresh();
    std::uint64_t got = 0;
    const std::string err = run(buf, n, got);
    if (err.empty()) {
      if (got != bits) fail(x.kind + ": " + g.text() + ": not reported, and " + std::to_string(got) + " bits were said to be read instead of " + std::to_string(bits));
      const std::string t = n->toStringOnlyData();
      if (t != x.text) fail(x.kind + ": " + g.text() + ": not reported, and the contents are not the payload's: " + diff(x.text, t));
    } else if (!buf.hit) {
      fail(x.kind + ": " + g.text() + ": reported (" + err + ") but never happened");
    }
  }
}

// a box header, and going to the ends of its box
void headers(Src& s, Ctx& c) {
  FourCC t;
  for (auto& ch : t) ch = static_cast<std::uint8_t>(s.bits(8));
  const std::uint64_t shift = s.coin() ? 0 : s.upto(std::uint64_t(1) << 40);
  const unsigned form = static_cast<unsigned>(s.below(3));
  const std::uint64_t payload = s.upto(300);
  const std::uint64_t hs = form == 1 ? 16 : 8;
  Wire w;
  w.u32(form == 0 ? hs + payload : form == 1 ? 1 : 0);
  w.raw(t);
  if (form == 1) w.u64(hs + payload);
  w.raw(s.bytes(payload));
  if (form != 2) w.raw(s.bytes(s.below(20)));
  const bool masks = s.chance(1, 6);
  const unsigned op = static_cast<unsigned>(s.below(6));
  static const char* const names[] = {"read_box_header", "BoxHeader::seekToData", "BoxHeader::seekToEnd", "Box::seekToData", "Box::seekToEnd", "get_istream_offset_to_end"};
  c.label(std::string("operation ") + names[op]);
  c.label("form " + std::to_string(form));
  c.nontrivial(payload > 0);
  c.fingerprint(mix(hash_bytes(w.b.data(), w.b.size(), op), shift));
  c.note(std::string(names[op]) + " at " + std::to_string(shift) + ": " + hex(w.b, 400));
  c.sample(std::string(names[op]) + " at " + std::to_string(shift));
  BoxHeader h({.offset = shift, .size = hs + payload, .header_size = hs, .type = BoxType(t)});
  BoxPtr box = kind("free").gen(s, false).fresh();
  box->setHeader(new BoxHeader({.offset = shift, .size = hs + payload, .header_size = hs, .type = BoxType(t)}));
  struct Got {
    std::string value;
    std::string err;
  };
  const auto run = [&](FaultyIn& buf, unsigned dead) {
    std::istream is(&buf);
    Got g;
    is.seekg(static_cast<std::streamoff>(op == 0 || op == 5 ? shift : shift / 2));
    buf.arm();
    if (dead == 1) is.setstate(std::ios_base::failbit);
    if (dead == 2) is.setstate(std::ios_base::badbit);
    g.err = message([&] {
      if (masks && dead == 0) is.exceptions(std::ios_base::failbit | std::ios_base::badbit);
      switch (op) {
        case 0: {
          const std::unique_ptr<BoxHeader> r(shiguredo::mp4::read_box_header(is));
          g.value = r->toString() + " header " + std::to_string(r->getHeaderSize());
          return;
        }
        case 1: h.seekToData(is); break;
        case 2: h.seekToEnd(is); break;
        case 3: box->seekToData(is); break;
        case 4: box->seekToEnd(is); break;
        default: g.value = std::to_string(shiguredo::mp4::stream::get_istream_offset_to_end(is)) + " ";
      }
    });
    if (op != 0 && g.err.empty()) {
      is.exceptions(std::ios_base::goodbit);
      buf.disarm();
      g.value += "at " + std::to_string(is.tellg());
    }
    return g;
  };
  FaultyIn clean(w.b, shift);
  const Got ok = run(clean, 0);
  if (!ok.err.empty()) fail(std::string(names[op]) + ": undisturbed: " + ok.err);
  const std::uint64_t where = op == 1 || op == 3 ? shift + hs : op == 5 ? shift : shift + hs + payload;
  const std::string want = op == 0   ? h.toString() + " header " + std::to_string(hs)
                           : op == 5 ? std::to_string(w.b.size()) + " at " + std::to_string(where)
                                     : "at " + std::to_string(where);
  if (ok.value != want) fail(std::string(names[op]) + ": undisturbed: " + ok.value + ", expected " + want);
  for (unsigned dead : {1u, 2u}) {
    FaultyIn buf(w.b, shift);
    if (run(buf, dead).err.empty()) fail(std::string(names[op]) + ": no error on a stream that has " + (dead == 1 ? "failed" : "gone bad"));
  }
  const auto all = faults(s, clean, {}, 60);
  for (const auto& g : all) {
    FaultyIn buf(w.b, shift, g);
    const Got r = run(buf, 0);
    if (r.err.empty()) {
      if (r.value != want) fail(std::string(names[op]) + ": " + g.text() + ": not reported, and the result is " + r.value + " instead of " + want);
    } else if (!buf.hit) {
      fail(std::string(names[op]) + ": " + g.text() + ": reported (" + r.err + ") but never happened");
    }
  }
  c.sub_evals += all.size();
}

// reading numbers, strings and bytes of a stream that fails
void numbers(Src& s, Ctx& c) {
  const Bytes b = s.bytes(s.size(12, 80));
  struct Op {
    unsigned what = 0;
    std::uint64_t arg = 0;
  };
  std::vector<Op> ops(1 + s.size(4, 20));
  std::string text;
  for (auto& o : ops) {
    o.what = static_cast<unsigned>(s.below(8));
    o.arg = o.what == 0 ? 1 + s.below(64) : o.what == 1 ? 1 + s.below(64) : o.what == 2 ? 1 + s.below(16) : o.what == 5 ? s.below(b.size() + 1) : s.below(40);
    text += " " + std::to_string(o.what) + ":" + std::to_string(o.arg);
  }
  c.nontrivial(b.size() >= 2 && ops.size() >= 2);
  c.fingerprint(mix(hash_bytes(b.data(), b.size()), hash_bytes(text.data(), text.size())));
  c.note("stream " + hex(b, 200) + ", operations" + text);
  c.sample(std::to_string(ops.size()) + " operations on " + std::to_string(b.size()) + " bytes");
  const auto run = [&](FaultyIn& buf, std::vector<std::string>& results) {
    std::istream is(&buf);
    buf.arm();
    shiguredo::mp4::bitio::Reader r(is);
    return message([&] {
      for (const auto& o : ops) {
        switch (o.what) {
          case 0: {
            std::uint64_t v = 0;
            shiguredo::mp4::bitio::read_uint<std::uint64_t>(&r, &v, o.arg);
            results.push_back(std::to_string(v));
            break;
          }
          case 1: {
            std::int64_t v = 0;
            shiguredo::mp4::bitio::read_int<std::int64_t>(&r, &v, o.arg);
            results.push_back(std::to_string(v));
            break;
          }
          case 2: {
            Bytes v(o.arg);
            r.read(&v);
            results.push_back(hex(v));
            break;
          }
          case 3: {
            std::string v;
            shiguredo::mp4::bitio::read_string(&r, &v, o.arg * 8);
            results.push_back(v);
            break;
          }
          case 4: {
            std::string v;
            shiguredo::mp4::bitio::read_pascal_string(&r, &v, o.arg * 8);
            results.push_back(v);
            break;
          }
          case 5: results.push_back(std::to_string(r.seek(o.arg, std::ios_base::beg))); break;
          case 6: results.push_back(std::to_string(r.readBit())); break;
          default: {
            std::vector<std::uint16_t> v;
            shiguredo::mp4::bitio::read_vector_uint<std::uint16_t>(&r, o.arg / 4, &v);
            std::string t;
            for (auto x : v) t += std::to_string(x) + ",";
            results.push_back(t);
          }
        }
      }
    });
  };
  FaultyIn clean(b);
  std::vector<std::string> want;
  const std::string end = run(clean, want);  // may itself end with an error: out of data
  c.label(end.empty() ? "all operations possible" : "runs out of data");
  const auto all = faults(s, clean, {}, 60);
  c.sub_evals += all.size();
  for (const auto& g : all) {
    FaultyIn buf(b, 0, g);
    std::vector<std::string> got;
    const std::string err = run(buf, got);
    for (std::size_t i = 0; i < got.size(); ++i) {
      if (i >= want.size()) fail(g.text() + ": operation " + std::to_string(i) + " succeeded although the data ends before it");
      if (got[i] != want[i]) fail(g.text() + ": operation " + std::to_string(i) + " returned " + got[i] + " instead of " + want[i]);
    }
    if (got.size() < want.size() && !buf.hit) fail(g.text() + ": reported (" + err + ") but never happened");
    if (err.empty() && got.size() != ops.size()) fail("harness: operations lost");
  }
}

}  // namespace

int main(int argc, char** argv) {
  Suite suite;
  suite.property = "P23";
  suite.rule =
      "A case draws a file, a box payload, a box header or a stream with read operations on it, measures how many bytes, seeks "
      "and position queries an undisturbed run takes (checking its result against the model), and repeats it with a fault at "
      "every one of them (sampled above 60-80): end of data or an I/O error, once or from then on, a seek or query without "
      "answer, or a file whose last part is gone although its size says otherwise. Non-trivial: at least two boxes, contents "
      "beyond the default, or at least two operations.";
  suite.assumptions = {"a fault that leaves the result as it is without one need not be reported"};
  suite.init = lib::quiet;
  suite.groups = {
      {"files", 1500, 60000, files},
      {"payloads", 8000, 300000, payloads},
      {"headers", 15000, 400000, headers},
      {"numbers", 15000, 400000, numbers},
  };
  return run_main(argc, argv, suite);
}
