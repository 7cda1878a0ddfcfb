// P05: box headers encode, decode and locate box extents.
#include "lib.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "streams.hpp"

using namespace pbt;
using namespace model;
using shiguredo::mp4::BoxHeader;
using shiguredo::mp4::BoxType;

namespace {

constexpr std::uint64_t U32 = 0xffffffffULL;
constexpr std::uint64_t kMaxOffset = std::uint64_t(1) << 61;

enum class Form { small, large, to_eof };

std::string name(Form f) { return f == Form::small ? "32-bit" : f == Form::large ? "64-bit" : "to end of file"; }

Bytes expected_header(Form f, std::uint64_t size, const FourCC& t) {
  Wire w;
  w.u32(f == Form::small ? size : f == Form::large ? 1 : 0);
  w.raw(t);
  if (f == Form::large) w.u64(size);
  return w.b;
}

FourCC any_type(Src& s) {
  FourCC t;
  const unsigned k = static_cast<unsigned>(s.below(4));
  for (auto& c : t) c = static_cast<std::uint8_t>(k == 0 ? 'a' + s.below(26) : k == 1 ? s.bits(8) : k == 2 ? s.below(3) : s.below(256));
  return t;
}

std::uint64_t near_limit(Src& s) {
  const std::uint64_t l = s.pick<std::uint64_t>({U32, U32 - 8, U32 - 16, U32 + 8, 0x7fffffff, std::uint64_t(1) << 33});
  return l - 3 + s.below(7);
}

std::uint64_t any_offset(Src& s, Ctx& c) {
  switch (s.below(4)) {
    case 0: return s.below(64);
    case 1: return s.upto(1 << 20);
    case 2: c.label("offset near 2^32"); return near_limit(s);
    default: c.label("offset above 2^32"); return s.upto(kMaxOffset);
  }
}

struct Extent {
  std::uint64_t offset, size, header;
  FourCC type;
};

void same_place(const std::string& how, const BoxHeader& h, const Extent& x) {
  const auto d = [&](const char* what, std::uint64_t want, std::uint64_t got) {
    if (want != got) fail(how + ": " + what + " is " + std::to_string(got) + ", expected " + std::to_string(want));
  };
  d("offset", x.offset, h.getOffset());
  d("total size", x.size, h.getSize());
  d("header length", x.header, h.getHeaderSize());
  d("payload size", x.size - x.header, h.getDataSize());
  if (!(h.getType() == BoxType(x.type))) fail(how + ": type is " + h.getType().toString());
  const std::string t = "[" + type_text(x.type) + "] Offset=" + std::to_string(x.offset) + " Size=" + std::to_string(x.size);
  if (h.toString() != t) fail(how + ": rendered as " + h.toString() + ", expected " + t);
}

void seeks(const std::string& how, BoxHeader& h, const Extent& x, std::istream& is) {
  is.clear();
  is.seekg(static_cast<std::streamoff>(x.offset / 2));
  h.seekToData(is);
  if (static_cast<std::uint64_t>(is.tellg()) != x.offset + x.header) {
    fail(how + ": seeking to the payload ended at " + std::to_string(is.tellg()) + ", expected " + std::to_string(x.offset + x.header));
  }
  h.seekToEnd(is);
  if (static_cast<std::uint64_t>(is.tellg()) != x.offset + x.size) {
    fail(how + ": seeking to the end ended at " + std::to_string(is.tellg()) + ", expected " + std::to_string(x.offset + x.size));
  }
}

// header object -> bytes -> header object, at any offset and of any size
void write_read(Src& s, Ctx& c) {
  const FourCC t = any_type(s);
  const std::uint64_t offset = any_offset(s, c);
  std::uint64_t payload = 0;
  switch (s.below(4)) {
    case 0: payload = s.below(100); break;
    case 1: payload = s.bits(32); break;
    case 2: payload = near_limit(s); c.label("payload near a limit"); break;
    default: payload = s.upto(kMaxOffset);
  }
  const bool eof = s.chance(1, 4);
  const bool by_layout = s.coin();
  Form f;
  std::unique_ptr<BoxHeader> h;
  if (by_layout) {
    h = std::make_unique<BoxHeader>(shiguredo::mp4::BoxHeaderParameters{
        .offset = s.bits(32), .size = s.bits(32), .header_size = s.coin() ? 16ULL : 8ULL, .type = BoxType(t), .extend_to_eof = eof});
    h->setOffsetAndDataSize(offset, payload);
    f = payload + 8 > U32 ? Form::large : Form::small;
    same_place("after layout", *h, {offset, payload + (f == Form::large ? 16 : 8), f == Form::large ? 16u : 8u, t});
    if (eof) f = Form::to_eof;
  } else {
    // any size with the header length that size needs, or a 64-bit header by choice
    const bool large = payload + 8 > U32 || s.chance(1, 3);
    h = std::make_unique<BoxHeader>(shiguredo::mp4::BoxHeaderParameters{.offset = offset,
                                                                      .size = payload + (large ? 16 : 8),
                                                                      .header_size = large ? 16ULL : 8ULL,
                                                                      .type = BoxType(t),
                                                                      .extend_to_eof = eof});
    f = eof ? Form::to_eof : large ? Form::large : Form::small;
    same_place("as constructed", *h, {offset, payload + (large ? 16 : 8), large ? 16u : 8u, t});
  }
  c.label("form " + name(f));
  c.nontrivial(offset != 0 && payload != 0);
  c.fingerprint(mix(mix(offset, payload), mix(static_cast<unsigned>(f), hash_bytes(t.data(), 4))));
  c.sample(name(f) + " offset=" + std::to_string(offset) + " payload=" + std::to_string(payload) + " type=" + type_text(t));
  c.note("form " + name(f) + " offset " + std::to_string(offset) + " payload " + std::to_string(payload) + " type " + type_text(t));

  const Extent x{offset, payload + (f == Form::large ? 16 : 8), f == Form::large ? 16u : 8u, t};
  streams::SparseBuf buf;
  std::iostream io(&buf);
  // surroundings that must survive
  for (std::uint64_t i = 0; i < 32; ++i) buf.put(offset + i, 0xa5);
  const std::uint64_t guard_lo = offset > 32 ? offset - 32 : 0;
  for (std::uint64_t i = guard_lo; i < offset; ++i) buf.put(i, 0x5a);
  buf.writes.clear();
  const std::uint64_t start = s.coin() ? 0 : offset + 3;
  io.seekp(static_cast<std::streamoff>(start));
  const std::uint64_t ret = h->write(io);
  PBT_CHECK(ret == x.size, "write() returned " + std::to_string(ret) + " for a box of " + std::to_string(x.size));
  same_place("after writing", *h, x);
  const Bytes want = expected_header(f, x.size, t);
  const Bytes got = buf.get(offset, want.size());
  if (got != want) fail("header bytes differ: " + diff(want, got));
  for (const auto& w : buf.writes) {
    if (w.first < offset || w.first + w.second > offset + want.size()) {
      fail("wrote " + std::to_string(w.second) + " bytes at " + std::to_string(w.first) + ", outside the header");
    }
  }
  for (std::uint64_t i = want.size(); i < 32; ++i) PBT_CHECK(buf.at(offset + i) == 0xa5, "a byte behind the header changed");
  for (std::uint64_t i = guard_lo; i < offset; ++i) PBT_CHECK(buf.at(i) == 0x5a, "a byte before the header changed");
  PBT_CHECK(static_cast<std::uint64_t>(io.tellp()) == offset + want.size(), "the put position is not right behind the header");

  // writing again writes the same
  h->write(io);
  if (buf.get(offset, want.size()) != want) fail("writing the header a second time differs");

  // read back
  const std::uint64_t file_size = f == Form::to_eof ? x.offset + x.size : offset + want.size() + s.below(40);
  buf.truncate(file_size);
  io.clear();
  io.seekg(static_cast<std::streamoff>(offset));
  std::unique_ptr<BoxHeader> r(shiguredo::mp4::read_box_header(io));
  same_place("read back", *r, x);
  seeks("read back", *r, x, io);
  // and written once more from what was read
  streams::SparseBuf again;
  std::iostream io2(&again);
  r->write(io2);
  if (again.get(offset, want.size()) != want) fail("re-encoding the header read back differs: " + diff(want, again.get(offset, want.size())));
}

// header bytes of any kind, with any number of bytes left in the file
void read_foreign(Src& s, Ctx& c) {
  const std::uint64_t offset = s.chance(1, 4) ? any_offset(s, c) : s.below(50);
  const FourCC t = any_type(s);
  const unsigned k = static_cast<unsigned>(s.below(3));
  const Form f = k == 0 ? Form::small : k == 1 ? Form::large : Form::to_eof;
  std::uint64_t size = f == Form::small ? 8 + s.upto(U32 - 8) : 16 + (s.coin() ? s.below(64) : s.upto(kMaxOffset));
  const Bytes hb = expected_header(f, size, t);
  const std::uint64_t remaining = s.chance(1, 2) ? s.below(hb.size() + 1) : hb.size() + s.size(20, 500);
  c.label("form " + name(f));
  c.label(remaining < hb.size() ? "cut header" : "whole header");
  c.nontrivial(offset != 0);
  c.fingerprint(mix(mix(offset, size), mix(static_cast<unsigned>(f), remaining)));
  c.sample(name(f) + " at " + std::to_string(offset) + ", " + std::to_string(remaining) + " bytes remain");
  c.note(name(f) + " header " + hex(hb) + " at " + std::to_string(offset) + " with " + std::to_string(remaining) + " bytes remaining");
  streams::SparseBuf buf;
  buf.put(offset, hb.data(), hb.size());
  buf.truncate(offset + remaining);
  const auto attempt = [&](std::istream& is) {
    is.seekg(static_cast<std::streamoff>(offset));
    std::unique_ptr<BoxHeader> h;
    std::string err;
    try {
      h.reset(shiguredo::mp4::read_box_header(is));
    } catch (const std::exception& e) {
      err = e.what();
    }
    if (remaining < hb.size()) {
      if (h) fail("a header of " + std::to_string(hb.size()) + " bytes was accepted with " + std::to_string(remaining) + " bytes remaining: " + h->toString());
      return;
    }
    if (!h) fail("a complete header was refused: " + err);
    if (f == Form::to_eof) size = remaining;
    const Extent x{offset, size, f == Form::large ? 16u : 8u, t};
    same_place("read", *h, x);
    const std::uint64_t eof = offset + remaining;
    is.clear();
    is.seekg(0);
    h->seekToData(is);
    PBT_CHECK(static_cast<std::uint64_t>(is.tellg()) == offset + x.header, "payload position");
    if (x.offset + x.size <= eof) {
      h->seekToEnd(is);
      PBT_CHECK(static_cast<std::uint64_t>(is.tellg()) == offset + x.size, "end position");
    }
  };
  std::iostream io(&buf);
  attempt(io);
  if (offset + remaining < 4096) {  // the same bytes through a standard stream
    const Bytes b = buf.get(0, offset + remaining);
    std::istringstream is(lib::str(b));
    attempt(is);
  }
}

// a whole box: header through Box::getHeaderSize / setOffsetAndDataSize / seekToData / seekToEnd
void in_box(Src& s, Ctx& c) {
  const auto& k = pick_kind(s);
  const Sample x = k.gen(s, false);
  BoxPtr b;
  if (x.make) {
    b = x.make();
  } else {
    b = x.fresh();
    lib::decode(*b, x.wire);
  }
  const std::uint64_t offset = any_offset(s, c);
  const std::uint64_t extra = s.chance(1, 3) ? near_limit(s) : 0;  // descendants
  const std::uint64_t payload = b->getDataSize() + extra;
  b->setOffsetAndDataSize(offset, payload);
  const bool large = payload + 8 > U32;
  c.label("kind " + x.kind);
  c.label(large ? "form 64-bit" : "form 32-bit");
  c.nontrivial(offset != 0);
  c.fingerprint(mix(mix(offset, payload), hash_bytes(x.wire.data(), x.wire.size())));
  c.note(x.kind + " at " + std::to_string(offset) + " payload " + std::to_string(payload));
  PBT_CHECK(b->getHeaderSize() == (large ? 16 : 8), "header length of the box");
  PBT_CHECK(b->getSize() == payload + (large ? 16 : 8), "total size of the box");
  streams::SparseBuf buf;
  std::iostream io(&buf);
  b->write(io);
  const Bytes want = expected_header(large ? Form::large : Form::small, payload + (large ? 16 : 8), x.type);
  if (buf.get(offset, want.size()) != want) fail("header bytes differ: " + diff(want, buf.get(offset, want.size())));
  const Bytes body = buf.get(offset + want.size(), b->getDataSize());
  if (body != lib::encode(*b).bytes) fail("the payload is not right behind the header");
  buf.truncate(offset + want.size() + payload);
  io.clear();
  b->seekToData(io);
  PBT_CHECK(static_cast<std::uint64_t>(io.tellg()) == offset + want.size(), "Box::seekToData position");
  b->seekToEnd(io);
  PBT_CHECK(static_cast<std::uint64_t>(io.tellg()) == offset + want.size() + payload, "Box::seekToEnd position");
}

}  // namespace

int main(int argc, char** argv) {
  Suite suite;
  suite.property = "P05";
  suite.rule =
      "A case draws a type, an offset and a size (small, uniform, and within a few bytes of the 32-bit limits, on a sparse "
      "file image of up to 2^62 bytes), writes and reads the header in the form required and compares every byte and every "
      "reported position with an independent encoding; or reads a header with any number of bytes remaining. Non-trivial: "
      "a non-zero offset (and payload, for written headers).";
  suite.assumptions = {"header objects whose declared header length cannot hold their size are excluded: see known-findings.txt"};
  suite.init = lib::quiet;
  suite.groups = {
      {"write_read", 60000, 3000000, write_read},
      {"read_foreign", 60000, 3000000, read_foreign},
      {"in_box", 20000, 1000000, in_box},
  };
  return run_main(argc, argv, suite);
}
