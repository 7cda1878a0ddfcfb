// P07: bit-level reading and writing is exact for every width and sequence.
#include <cstring>
#include <sstream>

#include "lib.hpp"
#include "model_util.hpp"
#include "shiguredo/mp4/bitio/bitio.hpp"
#include "shiguredo/mp4/stream/stream.hpp"

using namespace pbt;
using namespace model;
namespace io = shiguredo::mp4::bitio;

namespace {

// the reference: a plain vector of bits
struct Bits {
  std::vector<bool> b;
  void add(std::uint64_t v, unsigned w) {
    for (unsigned i = w; i > 0; --i) b.push_back((v >> (i - 1)) & 1);
  }
  std::uint64_t get(std::size_t at, unsigned w) const {
    std::uint64_t v = 0;
    for (unsigned i = 0; i < w; ++i) v = v << 1 | (b.at(at + i) ? 1 : 0);
    return v;
  }
  Bytes whole() const {
    Bytes o(b.size() / 8);
    for (std::size_t i = 0; i < o.size(); ++i) o[i] = static_cast<std::uint8_t>(get(i * 8, 8));
    return o;
  }
};

std::int64_t extend(std::uint64_t v, unsigned w) {
  if (w < 64 && (v >> (w - 1)) & 1) v |= ~std::uint64_t(0) << w;
  return static_cast<std::int64_t>(v);
}

struct Op {
  std::string name;
  std::function<std::uint64_t(io::Writer&)> write;  // returns the number of bits it says it wrote
  std::function<void(Bits&)> expect;
  std::function<std::uint64_t(io::Reader&)> read;  // fails on a wrong value; returns the bits it says it read
  std::uint64_t bits = 0;
};

template <class T>
Op uint_op(Src& s) {
  const unsigned w = 1 + static_cast<unsigned>(s.below(sizeof(T) * 8));
  const T v = static_cast<T>(s.bits(w));
  const bool whole = w == sizeof(T) * 8 && s.coin();
  Op o;
  o.name = "uint" + U(sizeof(T) * 8) + ":" + U(w) + "=" + U(v);
  o.bits = w;
  o.write = [=](io::Writer& x) { return whole ? io::write_uint<T>(&x, v) : io::write_uint<T>(&x, v, w); };
  o.expect = [=](Bits& b) { b.add(v, w); };
  o.read = [=](io::Reader& r) {
    T got = static_cast<T>(0x5a5a5a5a5a5a5a5aULL);
    const auto n = whole ? io::read_uint<T>(&r, &got) : io::read_uint<T>(&r, &got, w);
    if (got != v) fail("read " + U(got) + ", wrote " + U(v));
    return n;
  };
  return o;
}

template <class T>
Op int_op(Src& s) {
  const unsigned w = 1 + static_cast<unsigned>(s.below(sizeof(T) * 8));
  const T v = static_cast<T>(extend(s.bits(w), w));
  const bool whole = w == sizeof(T) * 8 && s.coin();
  Op o;
  o.name = "int" + U(sizeof(T) * 8) + ":" + U(w) + "=" + D(v);
  o.bits = w;
  o.write = [=](io::Writer& x) { return whole ? io::write_int<T>(&x, v) : io::write_int<T>(&x, v, w); };
  o.expect = [=](Bits& b) { b.add(static_cast<std::uint64_t>(static_cast<std::int64_t>(v)), w); };
  o.read = [=](io::Reader& r) {
    T got = static_cast<T>(0x5a5a5a5a5a5a5a5aULL);
    const auto n = whole ? io::read_int<T>(&r, &got) : io::read_int<T>(&r, &got, w);
    if (got != v) fail("read " + D(got) + ", wrote " + D(v));
    return n;
  };
  return o;
}

template <class T>
Op uvarint_op(Src& s) {
  const unsigned cap = 7 * sizeof(T);
  const T v = static_cast<T>(s.bits(cap));
  Op o;
  o.name = "uvarint" + U(sizeof(T) * 8) + "=" + U(v);
  o.bits = io::uvarint_size(v) * 8;
  o.write = [=](io::Writer& x) { return io::write_uvarint<T>(&x, v); };
  o.expect = [=](Bits& b) {
    for (unsigned i = 0; i < sizeof(T); ++i) {
      const unsigned shift = 7 * (static_cast<unsigned>(sizeof(T)) - 1 - i);
      b.add(((static_cast<std::uint64_t>(v) >> shift) & 0x7f) | (i + 1 < sizeof(T) ? 0x80 : 0), 8);
    }
  };
  o.read = [=](io::Reader& r) {
    T got = static_cast<T>(0x5a5a5a5a5a5a5a5aULL);
    const auto n = io::read_uvarint<T>(&r, &got);
    if (got != v) fail("read " + U(got) + ", wrote " + U(v));
    return n;
  };
  return o;
}

template <class T>
Op vector_op(Src& s, std::uint64_t n) {
  std::vector<T> v(n);
  if (n > 200) {
    const Bytes b = s.bytes(n * sizeof(T));
    std::memcpy(v.data(), b.data(), b.size());
  } else {
    for (auto& x : v) x = static_cast<T>(s.bits(sizeof(T) * 8));
  }
  Op o;
  o.name = "vector" + U(sizeof(T) * 8) + " of " + U(v.size());
  o.bits = v.size() * sizeof(T) * 8;
  o.write = [=](io::Writer& x) { return io::write_vector_uint<T>(&x, v); };
  o.expect = [=](Bits& b) {
    for (auto e : v) b.add(e, sizeof(T) * 8);
  };
  o.read = [=](io::Reader& r) {
    std::vector<T> got(3, 7);
    const auto n = io::read_vector_uint<T>(&r, v.size(), &got);
    if (got != v) fail("vector differs");
    return n;
  };
  return o;
}

// sizes of strings, lists and blobs: small ones, or (one per sequence) one around a power of two
struct Big {
  bool armed = false;
};
std::uint64_t big_or(Src& s, Big& big, std::uint64_t small) {
  if (!big.armed) return small;
  big.armed = false;
  static constexpr std::uint64_t around[] = {128, 256, 1024, 4096, 16384, 32768, 65536};
  return around[s.below(7)] + 2 - s.below(5) + (s.chance(1, 8) ? s.below(40000) : 0);
}

Op any_op(Src& s, bool aligned, Big& big) {
  switch (big.armed ? s.pick<std::uint64_t>({12, 14, 15, 17, 19, 20, 20}) : s.below(21)) {
    case 0: return uint_op<std::uint8_t>(s);
    case 1: return uint_op<std::uint16_t>(s);
    case 2: return uint_op<std::uint32_t>(s);
    case 3: return uint_op<std::uint64_t>(s);
    case 4: return int_op<std::int8_t>(s);
    case 5: return int_op<std::int16_t>(s);
    case 6: return int_op<std::int32_t>(s);
    case 7: return int_op<std::int64_t>(s);
    case 8: return uvarint_op<std::uint8_t>(s);
    case 9: return uvarint_op<std::uint16_t>(s);
    case 10: return uvarint_op<std::uint32_t>(s);
    case 11: return uvarint_op<std::uint64_t>(s);
    case 12: {
      const std::uint64_t n = big_or(s, big, s.size(3, 40));
      switch (s.below(4)) {
        case 0: return vector_op<std::uint8_t>(s, n);
        case 1: return vector_op<std::uint32_t>(s, n);
        case 2: return vector_op<std::uint16_t>(s, n);
        default: return vector_op<std::uint64_t>(s, n);
      }
    }
    case 13: {
      const bool v = s.coin();
      Op o;
      o.name = std::string("bool=") + Bo(v);
      o.bits = 1;
      o.write = [=](io::Writer& x) { return io::write_bool(&x, v); };
      o.expect = [=](Bits& b) { b.add(v, 1); };
      o.read = [=](io::Reader& r) {
        bool got = !v;
        const auto n = io::read_bool(&r, &got);
        if (got != v) fail("boolean differs");
        return n;
      };
      return o;
    }
    case 14: {
      const std::string v = s.text(big_or(s, big, s.size(6, 300)));
      const std::uint64_t extra = s.coin() ? 0 : s.below(100);
      Op o;
      o.name = "string of " + U(v.size());
      o.bits = (v.size() + 1) * 8;
      o.write = [=](io::Writer& x) { return io::write_string(&x, v); };
      o.expect = [=](Bits& b) {
        for (char ch : v) b.add(static_cast<std::uint8_t>(ch), 8);
        b.add(0, 8);
      };
      o.read = [=](io::Reader& r) {
        std::string got = "old";
        const auto n = io::read_string(&r, &got, (v.size() + 1) * 8 + extra);
        if (got != v) fail("string differs: " + diff(v, got));
        return n;
      };
      return o;
    }
    case 15: {  // a string cut by the bound given: no terminator is read
      const std::string v = s.text(big_or(s, big, s.size(6, 100)));
      Op o;
      o.name = "bounded string of " + U(v.size());
      o.bits = v.size() * 8;
      o.write = [=](io::Writer& x) {
        x.writeBits(lib::bytes(v), v.size() * 8);
        return v.size() * 8;
      };
      o.expect = [=](Bits& b) {
        for (char ch : v) b.add(static_cast<std::uint8_t>(ch), 8);
      };
      o.read = [=](io::Reader& r) {
        std::string got = "old";
        const auto n = io::read_string(&r, &got, v.size() * 8);
        if (got != v) fail("bounded string differs: " + diff(v, got));
        return n;
      };
      return o;
    }
    case 16: {
      const Bytes raw = s.bytes(s.size(6, 255));  // any bytes, NUL included
      const std::string v(raw.begin(), raw.end());
      Op o;
      o.name = "pascal string of " + U(v.size());
      o.bits = (v.size() + 1) * 8;
      o.write = [=](io::Writer& x) { return io::write_pascal_string(&x, v); };
      o.expect = [=](Bits& b) {
        b.add(v.size(), 8);
        for (char ch : v) b.add(static_cast<std::uint8_t>(ch), 8);
      };
      o.read = [=](io::Reader& r) {
        std::string got = "old";
        const auto n = io::read_pascal_string(&r, &got, (v.size() + 1) * 8);
        if (got != v) fail("length-prefixed string differs: " + diff(v, got));
        return n;
      };
      return o;
    }
    case 17: {  // a NUL-terminated string where a length-prefixed one might be: the length byte does not match
      std::string v = s.text(big_or(s, big, 1 + s.size(6, 300)));
      const std::uint64_t room = v.size() + 1;
      if (static_cast<std::uint8_t>(v[0]) == room - 1) v[0] = static_cast<char>(v[0] == 'a' ? 'b' : 'a');
      if (static_cast<std::uint8_t>(v[0]) == room - 1) v[0] = 'c';
      Op o;
      o.name = "string read as length-prefixed, of " + U(v.size());
      o.bits = room * 8;
      o.write = [=](io::Writer& x) { return io::write_string(&x, v); };
      o.expect = [=](Bits& b) {
        for (char ch : v) b.add(static_cast<std::uint8_t>(ch), 8);
        b.add(0, 8);
      };
      o.read = [=](io::Reader& r) {
        std::string got = "old";
        const auto n = io::read_pascal_string(&r, &got, room * 8);
        if (got != v) fail("string read as length-prefixed differs: " + diff(v, got));
        return n;
      };
      return o;
    }
    case 18: {
      FourCC v;
      for (auto& x : v) x = static_cast<std::uint8_t>(s.bits(8));
      Op o;
      o.name = "array4";
      o.bits = 32;
      o.write = [=](io::Writer& x) { return io::write_array_uint8_4(&x, v); };
      o.expect = [=](Bits& b) {
        for (auto e : v) b.add(e, 8);
      };
      o.read = [=](io::Reader& r) {
        FourCC got{1, 2, 3, 4};
        const auto n = io::read_array_uint8_4(&r, &got);
        if (got != v) fail("array differs");
        return n;
      };
      return o;
    }
    case 19: {  // either kind of string in any room: ended by a terminator, by its length byte or by the room
      const std::uint64_t room = big_or(s, big, s.size(6, 300));
      Bytes raw(room);
      if (room > 300) {
        raw = s.bytes(room);
        for (auto& x : raw) x = x == 0 ? 1 : x;
        if (s.coin()) raw[s.below(room)] = 0;
      } else {
        for (auto& x : raw) x = s.chance(1, 5) ? 0 : static_cast<std::uint8_t>(s.bits(8));
      }
      const bool counted = s.coin();
      if (counted && room > 0 && s.chance(1, 3)) raw[0] = static_cast<std::uint8_t>(s.coin() ? room - 1 : room - 2 + s.below(4));
      std::uint64_t used = 0;
      std::string v;
      if (counted && room >= 2 && raw[0] == room - 1) {
        v.assign(raw.begin() + 1, raw.end());
        used = room;
      } else {
        while (used < room && raw[used] != 0) v += static_cast<char>(raw[used++]);
        if (used < room) ++used;
      }
      raw.resize(used);
      Op o;
      o.name = std::string(counted ? "possibly length-prefixed" : "terminated") + " string in " + U(room) + " bytes";
      o.bits = used * 8;
      o.write = [=](io::Writer& x) {
        x.writeBits(raw, used * 8);
        return used * 8;
      };
      o.expect = [=](Bits& b) {
        for (auto e : raw) b.add(e, 8);
      };
      o.read = [=](io::Reader& r) {
        std::string got = "old";
        const auto n = counted ? io::read_pascal_string(&r, &got, room * 8) : io::read_string(&r, &got, room * 8);
        if (got != v) fail("string in " + U(room) + " bytes differs: " + diff(v, got));
        return n;
      };
      return o;
    }
    default: {
      // raw bits: the low `w` bits of a byte string, or whole bytes when aligned
      if (aligned && s.coin()) {
        const Bytes v = s.bytes(big_or(s, big, s.size(6, 300)));
        Op o;
        o.name = "bytes " + U(v.size());
        o.bits = v.size() * 8;
        o.write = [=](io::Writer& x) { return static_cast<std::uint64_t>(x.write(v)) * 8; };
        o.expect = [=](Bits& b) {
          for (auto e : v) b.add(e, 8);
        };
        o.read = [=](io::Reader& r) {
          Bytes got(v.size(), 0x5a);
          const auto n = static_cast<std::uint64_t>(r.read(&got)) * 8;
          if (got != v) fail("bytes differ: " + diff(v, got));
          return n;
        };
        return o;
      }
      const std::uint64_t w = big.armed ? big_or(s, big, 0) * (s.coin() ? 8 : 1) - s.below(3) : s.size(20, 700);
      const Bytes v = s.bytes((w + 7) / 8 + (s.chance(1, 4) ? s.below(3) : 0));
      const std::uint64_t skip = v.size() * 8 - w;
      Op o;
      o.name = "raw bits " + U(w);
      o.bits = w;
      o.write = [=](io::Writer& x) {
        if (w == 1 && !v.empty()) {
          x.writeBit(v.back() & 1);
        } else {
          x.writeBits(v, w);
        }
        return w;
      };
      o.expect = [=](Bits& b) {
        for (std::uint64_t i = skip; i < v.size() * 8; ++i) b.add((v[i / 8] >> (7 - i % 8)) & 1, 1);
      };
      o.read = [=](io::Reader& r) {
        Bytes got{1, 2, 3};
        if (w == 1) {
          got = {static_cast<std::uint8_t>(r.readBit() ? 1 : 0)};
        } else {
          r.readBits(&got, w);
        }
        Bytes want((w + 7) / 8, 0);
        for (std::uint64_t i = 0; i < w; ++i) {
          const std::uint64_t src = skip + i, dst = want.size() * 8 - w + i;
          if ((v[src / 8] >> (7 - src % 8)) & 1) want[dst / 8] = static_cast<std::uint8_t>(want[dst / 8] | (0x80u >> (dst % 8)));
        }
        if (got != want) fail("raw bits differ: " + diff(want, got));
        return w;
      };
      return o;
    }
  }
}

void sequence_of(Src& s, Ctx& c, bool wide) {
  const std::size_t n = wide ? 1 + s.below(4) : 1 + s.size(6, 60);
  const std::size_t big_at = wide ? s.below(n) : n;
  std::vector<Op> ops;
  std::uint64_t pos = 0;
  unsigned mid = 0;
  std::vector<std::uint64_t> at;
  for (std::size_t i = 0; i < n; ++i) {
    Big big{i == big_at};
    Op o = any_op(s, pos % 8 == 0, big);
    at.push_back(pos);
    pos += o.bits;
    mid += pos % 8 != 0;
    ops.push_back(std::move(o));
  }
  if (pos % 8 != 0) {  // fill the last byte
    const unsigned w = 8 - static_cast<unsigned>(pos % 8);
    const std::uint8_t v = static_cast<std::uint8_t>(s.bits(w));
    Op o;
    o.name = "fill " + U(w);
    o.bits = w;
    o.write = [=](io::Writer& x) { return io::write_uint<std::uint8_t>(&x, v, w); };
    o.expect = [=](Bits& b) { b.add(v, w); };
    o.read = [=](io::Reader& r) {
      std::uint8_t got = 0;
      const auto k = io::read_uint<std::uint8_t>(&r, &got, w);
      if (got != v) fail("fill bits differ");
      return k;
    };
    at.push_back(pos);
    ops.push_back(o);
  }
  std::string all;
  for (const auto& o : ops) all += o.name + " ";
  c.note("sequence: " + all);
  c.sample(all.substr(0, 200));
  c.nontrivial(wide || (n > 1 && mid > 0));
  c.label(mid > 0 ? "unaligned fields" : "all aligned");
  c.fingerprint(hash_bytes(all.data(), all.size()));

  Bits ref;
  std::stringstream ss;
  const std::string before = s.chance(1, 3) ? lib::str(s.bytes(s.below(9))) : "";  // the stream need not start here
  ss << before;
  for (char ch : before) ref.add(static_cast<std::uint8_t>(ch), 8);
  {
    io::Writer w(ss);
    for (std::size_t i = 0; i < ops.size(); ++i) {
      c.label(ops[i].name.substr(0, ops[i].name.find_first_of(":= ")));
      const auto bits = ops[i].write(w);
      ops[i].expect(ref);
      const std::string what = "field " + U(i) + " (" + ops[i].name + ")";
      if (bits != ops[i].bits) fail(what + ": the writer reported " + U(bits) + " bits instead of " + U(ops[i].bits));
      const std::string so_far = ss.str();
      if (lib::bytes(so_far) != ref.whole()) fail(what + ": bytes so far: " + diff(ref.whole(), lib::bytes(so_far)));
      if (ref.b.size() % 8 != 0 && s.chance(1, 8)) {  // byte-oriented writes are refused here and change nothing
        bool threw = false;
        try {
          w.write(Bytes{1, 2});
        } catch (const std::exception&) {
          threw = true;
        }
        PBT_CHECK(threw, what + ": a byte write in the middle of a byte was accepted");
        PBT_CHECK(ss.str() == so_far, what + ": a refused write wrote something");
      }
    }
  }
  const std::string data = ss.str();
  const std::uint64_t start = before.size();
  {
    // read back the same sequence, with some bytes behind it
    const std::string after = lib::str(s.bytes(s.below(4)));
    std::istringstream is(data + after);
    is.seekg(static_cast<std::streamoff>(start));
    io::Reader r(is);
    std::uint64_t p = 0;
    for (std::size_t i = 0; i < ops.size(); ++i) {
      const std::string what = "field " + U(i) + " (" + ops[i].name + ") at bit " + U(p);
      if (p % 8 != 0 && s.chance(1, 8)) {
        bool threw = false;
        Bytes two(2);
        try {
          r.read(&two);
        } catch (const std::exception&) {
          threw = true;
        }
        PBT_CHECK(threw, what + ": a byte read in the middle of a byte was accepted");
        threw = false;
        try {
          r.seek(0, std::ios_base::cur);
        } catch (const std::exception&) {
          threw = true;
        }
        PBT_CHECK(threw, what + ": a relative seek in the middle of a byte was accepted");
      }
      std::uint64_t bits = 0;
      try {
        bits = ops[i].read(r);
      } catch (const Failure& f) {
        fail(what + ": " + f.msg);
      }
      if (bits != ops[i].bits) fail(what + ": the reader reported " + U(bits) + " bits instead of " + U(ops[i].bits));
      p += ops[i].bits;
      const auto g = static_cast<std::uint64_t>(is.tellg());
      if (g != start + (p + 7) / 8) fail(what + ": the stream is at byte " + U(g) + " after bit " + U(p));
      if (s.chance(1, 20) && i > 0) {  // an absolute seek drops the partial byte; read an earlier byte-aligned field again
        for (std::size_t k = 0; k <= i; ++k) {
          if (at[k] % 8 == 0 && s.chance(1, 2)) {
            const std::uint64_t to = start + at[k] / 8;
            std::uint64_t where = 0;
            if (p % 8 == 0 && s.coin()) {
              where = r.seek(to - g, std::ios_base::cur);  // backwards, or on the spot
            } else if (s.chance(1, 3)) {
              where = r.seek(to - data.size() - after.size(), std::ios_base::end);
            } else {
              where = r.seek(to, std::ios_base::beg);
            }
            if (where != to) fail(what + ": a seek to " + U(to) + " returned " + U(where));
            i = k - 1;
            p = at[k];
            break;
          }
        }
      }
    }
  }
  if (data.size() > start) {
    // cut anywhere: the fields before the cut are intact, the first field over it is refused
    const std::size_t cut = s.below(data.size() - start);
    std::istringstream is(data.substr(start, cut));
    io::Reader r(is);
    std::uint64_t p = 0;
    for (const auto& o : ops) {
      const std::string what = "cut at byte " + U(cut) + ", field " + o.name + " at bit " + U(p);
      std::string err;
      try {
        o.read(r);
      } catch (const Failure& f) {
        fail(what + ": " + f.msg);
      } catch (const std::exception& e) {
        err = e.what();
      }
      p += o.bits;
      if (p <= cut * 8) {
        if (!err.empty()) fail(what + ": refused although it lies before the cut: " + err);
      } else {
        if (err.empty()) fail(what + ": read past the end");
        break;
      }
    }
  }
}

void sequence(Src& s, Ctx& c) { sequence_of(s, c, false); }
void wide_sequence(Src& s, Ctx& c) { sequence_of(s, c, true); }

// the same bits split into other fields: reading depends on the bits only
void resplit(Src& s, Ctx& c) {
  const Bytes data = s.bytes(1 + s.size(10, 200));
  Bits ref;
  for (auto b : data) ref.add(b, 8);
  std::istringstream is(lib::str(data));
  io::Reader r(is);
  std::stringstream out;
  io::Writer w(out);
  std::size_t p = 0;
  std::string all;
  unsigned fields = 0;
  while (p < ref.b.size()) {
    const unsigned width = static_cast<unsigned>(std::min<std::uint64_t>(1 + s.below(64), ref.b.size() - p));
    const std::uint64_t v = ref.get(p, width);
    const std::string what = U(width) + " bits at " + U(p);
    if (s.coin()) {
      std::uint64_t u = 1;
      io::read_uint<std::uint64_t>(&r, &u, width);
      if (u != v) fail(what + ": unsigned read " + H(u) + ", expected " + H(v));
      io::write_uint<std::uint64_t>(&w, u, width);
      all += "u" + U(width) + " ";
    } else {
      std::int64_t x = 1;
      io::read_int<std::int64_t>(&r, &x, width);
      if (x != extend(v, width)) fail(what + ": signed read " + D(x) + ", expected " + D(extend(v, width)));
      io::write_int<std::int64_t>(&w, x, width);
      all += "s" + U(width) + " ";
    }
    p += width;
    ++fields;
  }
  c.nontrivial(fields > 1);
  c.fingerprint(mix(hash_bytes(data.data(), data.size()), hash_bytes(all.data(), all.size())));
  c.note(all + hex(data, 4096));
  c.sample(all + hex(data, 16));
  if (lib::bytes(out.str()) != data) fail("re-encoding: " + diff(data, lib::bytes(out.str())));
  std::uint8_t one = 0;
  PBT_CHECK(!lib::thrown([&] { io::read_uint<std::uint8_t>(&r, &one, 1); }).empty(), "a bit was read past the end");
}

void refusals(Src& s, Ctx& c) {
  const Bytes data = s.bytes(1 + s.size(10, 40));
  const unsigned lead = static_cast<unsigned>(s.below(8));
  std::istringstream is(lib::str(data));
  io::Reader r(is);
  std::uint8_t head = 0;
  if (lead > 0) io::read_uint<std::uint8_t>(&r, &head, lead);
  c.nontrivial();
  c.fingerprint(mix(hash_bytes(data.data(), data.size()), lead));
  switch (s.below(6)) {
    case 0: {
      c.label("zero width");
      std::uint32_t u = 5;
      std::int32_t i = 5;
      PBT_CHECK(!lib::thrown([&] { io::read_uint<std::uint32_t>(&r, &u, 0); }).empty(), "a zero-width unsigned read was accepted");
      PBT_CHECK(!lib::thrown([&] { io::read_int<std::int32_t>(&r, &i, 0); }).empty(), "a zero-width signed read was accepted");
      break;
    }
    case 1: {
      c.label("long length-prefixed string");
      const std::size_t n = 256 + s.size(3, 1000);
      std::stringstream ss;
      io::Writer w(ss);
      PBT_CHECK(!lib::thrown([&] { io::write_pascal_string(&w, s.text(n)); }).empty(), "a length-prefixed string of " + U(n) + " was accepted");
      PBT_CHECK(ss.str().empty(), "a refused string wrote something");
      break;
    }
    case 2: {
      c.label("byte reads and seeks");
      Bytes two(1 + s.below(3));
      const std::string e = lib::thrown([&] { r.read(&two); });
      const bool fits = lead == 0 && two.size() <= data.size();
      if (fits != e.empty()) fail("byte read of " + U(two.size()) + " after " + U(lead) + " bits of " + U(data.size()) + " bytes: " + (e.empty() ? "accepted" : e));
      if (fits && two != Bytes(data.begin(), data.begin() + static_cast<std::ptrdiff_t>(two.size()))) fail("bytes read differ");
      break;
    }
    case 3: {
      c.label("relative seek");
      std::size_t at = 0;
      if (lead == 0) {  // from any whole byte, in both directions
        Bytes skipped(s.below(data.size()));
        r.read(&skipped);
        at = skipped.size();
      }
      const std::size_t to = s.below(data.size());
      std::uint64_t pos = 0;
      const std::string e = lib::thrown([&] { pos = r.seek(static_cast<std::uint64_t>(to) - at, std::ios_base::cur); });
      if ((lead == 0) != e.empty()) fail("relative seek after " + U(lead) + " bits: " + (e.empty() ? "accepted" : e));
      if (e.empty()) {
        if (pos != to) fail("relative seek from " + U(at) + " to " + U(to) + " returned " + U(pos));
        std::uint8_t v = 0;
        io::read_uint<std::uint8_t>(&r, &v);
        PBT_CHECK(v == data[to], "byte after a relative seek");
      } else {  // nothing moved
        std::uint8_t v = 0;
        io::read_uint<std::uint8_t>(&r, &v, 8 - lead);
        PBT_CHECK(v == (data[0] & (0xff >> lead)), "bits after a refused relative seek");
      }
      break;
    }
    case 4: {
      c.label("absolute seek");
      const std::uint64_t k = s.below(data.size());
      const bool from_end = s.coin();
      const auto pos = from_end ? r.seek(static_cast<std::uint64_t>(-static_cast<std::int64_t>(k + 1)), std::ios_base::end)
                                : r.seek(k, std::ios_base::beg);
      const std::uint64_t want = from_end ? data.size() - k - 1 : k;
      PBT_CHECK(pos == want, "seek returned " + U(pos) + ", expected " + U(want));
      std::uint8_t v = 0;
      io::read_uint<std::uint8_t>(&r, &v);
      PBT_CHECK(v == data[want], "byte after a seek");
      break;
    }
    default: {
      c.label("variable-length integers");
      // any number of continuation bytes, as other producers write them
      const std::size_t k = 1 + s.below(12);
      Bytes b;
      bool fits = true;
      std::uint64_t want = 0;
      for (std::size_t i = 0; i < k; ++i) {
        const std::uint8_t d = static_cast<std::uint8_t>(k > 4 && i + 4 < k && s.coin() ? 0 : s.bits(7));
        b.push_back(static_cast<std::uint8_t>(d | (i + 1 < k ? 0x80 : 0)));
        fits = fits && want < (1u << 25);
        want = fits ? want << 7 | d : 0;
      }
      std::istringstream vs(lib::str(b));
      io::Reader vr(vs);
      std::uint32_t got = 0;
      std::uint64_t bits = 0;
      const std::string e = lib::thrown([&] { bits = io::read_uvarint<std::uint32_t>(&vr, &got); });
      c.note("varint " + hex(b));
      if (fits) {
        if (!e.empty()) fail("variable-length integer " + hex(b) + " refused: " + e);
        if (got != want || bits != 8 * k) fail("variable-length integer " + hex(b) + " read as " + U(got) + " in " + U(bits) + " bits");
      } else if (e.empty()) {
        fail("variable-length integer " + hex(b) + " exceeds 32 bits and was read as " + U(got));
      }
      // and values too big for the fixed number of bytes are not written
      std::stringstream ss;
      io::Writer w(ss);
      const std::uint32_t big = (std::uint32_t(1) << 28) + static_cast<std::uint32_t>(s.bits(28));
      if (lib::thrown([&] { io::write_uvarint<std::uint32_t>(&w, big); }).empty()) {
        fail("variable-length integer " + U(big) + " was written as " + hex(lib::bytes(ss.str())));
      }
    }
  }
}

// how far the end is, from anywhere, without moving
void to_end(Src& s, Ctx& c) {
  const Bytes data = s.bytes(s.size(10, 400));
  const std::size_t p = s.below(data.size() + 1);
  std::istringstream is(lib::str(data));
  is.seekg(static_cast<std::streamoff>(p));
  const auto n = shiguredo::mp4::stream::get_istream_offset_to_end(is);
  c.nontrivial(p > 0 && p < data.size());
  c.fingerprint(mix(p, data.size()));
  if (static_cast<std::uint64_t>(n) != data.size() - p) fail("distance to the end from " + U(p) + " of " + U(data.size()) + ": " + D(n));
  PBT_CHECK(static_cast<std::uint64_t>(is.tellg()) == p, "asking for the distance moved the stream");
}

}  // namespace

int main(int argc, char** argv) {
  Suite suite;
  suite.property = "P07";
  suite.rule =
      "A case draws a sequence of typed fields of any widths, writes them with the library and with a reference bit vector, "
      "compares the bytes after every field, reads the sequence back (with seeks in between), reads it from a file cut at "
      "any byte, and tries the refused operations in mid-byte. Non-trivial: more than one field with at least one unaligned "
      "boundary; distinct by field list and values.";
  suite.assumptions = {"integer widths are 1..8*sizeof(T) and values fit their width, as for every caller"};
  suite.init = lib::quiet;
  suite.groups = {
      {"sequence", 60000, 2000000, sequence},
      {"wide", 1500, 60000, wide_sequence},
      {"resplit", 15000, 500000, resplit},
      {"refusals", 15000, 300000, refusals},
      {"to_end", 2000, 50000, to_end},
  };
  return run_main(argc, argv, suite);
}
