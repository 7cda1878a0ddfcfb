// P24: everything that is taken is released, exactly once, however far an object's use got.
#include <dlfcn.h>
#include <fcntl.h>
#include <sanitizer/allocator_interface.h>
#include <sys/resource.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdio>
#include <filesystem>
#include <iostream>
#include <limits>
#include <sstream>

#include "lib.hpp"
#include "model_util.hpp"
#include "movie.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "shiguredo/mp4/box_info.hpp"
#include "shiguredo/mp4/box_map.hpp"
#include "shiguredo/mp4/box_types.hpp"
#include "shiguredo/mp4/reader/reader.hpp"
#include "shiguredo/mp4/track/track.hpp"
#include "shiguredo/mp4/writer/faststart_writer.hpp"
#include "shiguredo/mp4/writer/simple_writer.hpp"
#include "streams.hpp"
#include "tree.hpp"

using namespace pbt;
using namespace model;
using shiguredo::mp4::Box;
using shiguredo::mp4::BoxHeader;
using shiguredo::mp4::BoxInfo;
using shiguredo::mp4::BoxMap;
using shiguredo::mp4::BoxType;

// the stream over the intermediate file cannot be opened
static bool g_no_fdopen = false;
extern "C" FILE* fdopen(int fd, const char* mode) {
  static auto real = reinterpret_cast<FILE* (*)(int, const char*)>(dlsym(RTLD_NEXT, "fdopen"));
  if (g_no_fdopen) {
    errno = ENOMEM;
    return nullptr;
  }
  return real(fd, mode);
}

// blocks of heap memory that are held now
static std::atomic<std::int64_t> g_blocks{0};
static void on_malloc(const volatile void*, size_t) { ++g_blocks; }
static void on_free(const volatile void* p) {
  if (p != nullptr) --g_blocks;
}

namespace {

constexpr std::uint64_t kNever = streams::SparseBuf::kNever;

std::int64_t descriptors() {
  std::int64_t n = 0;
  for (int fd = 0; fd < 64; ++fd) n += fcntl(fd, F_GETFD) != -1;
  return n;
}

// runs f several times: what one run takes and does not give back grows with each of them
template <class F>
void balanced(Ctx& c, const std::string& what, F f) {
  f();  // whatever is allocated once per process
  std::int64_t blocks[3], fds[3];
  for (int i = 0; i < 3; ++i) {
    const std::int64_t b0 = g_blocks, d0 = descriptors();
    f();
    blocks[i] = g_blocks - b0;
    fds[i] = descriptors() - d0;
    ++c.sub_evals;
    if (blocks[i] <= 0 && fds[i] <= 0) return;
  }
  if (std::min({fds[0], fds[1], fds[2]}) > 0) fail(what + ": " + std::to_string(fds[2]) + " file descriptors are still open each time");
  if (std::min({blocks[0], blocks[1], blocks[2]}) > 0) fail(what + ": " + std::to_string(blocks[2]) + " blocks of memory are lost each time");
}

// ---- writing histories, given up anywhere -------------------------------------------------------------------------
struct GiveUp {};

std::string fresh_template() {
  static int n = 0;
  return scratch_dir() + "/p24-" + std::to_string(n++ % 8) + "-XXXXXX";
}
void tidy() {
  std::vector<std::filesystem::path> left;
  for (const auto& e : std::filesystem::directory_iterator(scratch_dir())) left.push_back(e.path());
  for (const auto& p : left) std::filesystem::remove_all(p);
}

struct Ending {
  std::uint64_t step = kNever;  // stop before this call into the library
  bool raise = false;           // ... by making the stream fail there
  std::uint64_t byte = kNever;  // the stream fails after that many bytes
  bool writer_first = false;    // the writer goes before its tracks
  bool explicit_delete = false; // the intermediate file is deleted by hand
  std::string text() const {
    std::string w = step != kNever ? (raise ? "the stream fails before call " : "given up before call ") + std::to_string(step) : byte != kNever ? "the stream fails after " + std::to_string(byte) + " bytes" : "finished";
    return w + (writer_first ? ", writer destroyed first" : "");
  }
};

struct Ran {
  std::uint64_t calls = 0, bytes = 0;
  bool threw = false;
};
Ran write(const movie::Spec& sp, const Ending& e, const std::string& tmpl) {
  Ran r;
  streams::SparseBuf buf;
  buf.fail_after_bytes = e.byte;
  std::ostream os(&buf);
  struct Unhook {
    ~Unhook() { movie::before_call = nullptr; }
  } unhook;
  movie::before_call = [&] {
    if (r.calls++ != e.step) return;
    if (!e.raise) throw GiveUp{};
    os.setstate(std::ios_base::badbit);
  };
  movie::Session ss = movie::open(sp, os, tmpl);
  try {
    movie::begin(sp, ss);
    for (const auto& ev : sp.events) movie::apply(ev, ss);
    movie::end(sp, ss);
  } catch (const GiveUp&) {
    r.threw = true;
  } catch (const std::exception&) {
    r.threw = true;
  }
  r.bytes = buf.bytes_written;
  if (r.threw && ss.fast && e.explicit_delete) {
    try {
      ss.fast->deleteIntermediateFile();
    } catch (const std::exception&) {
    }
  }
  if (e.writer_first) ss.writer.reset();
  return r;
}

void writers(Src& s, Ctx& c) {
  movie::Options o;
  o.max_tracks = 3;
  o.events = 8;
  o.max_events = 40;
  o.raw = true;
  movie::Spec sp = movie::gen(s, o);
  sp.faststart = s.coin();
  if (!sp.faststart && s.chance(1, 8)) sp.own_metadata = s.bytes(s.size(8, 60));
  const std::string t = movie::text(sp);
  c.note(t);
  c.sample(t.substr(0, 300));
  c.fingerprint(hash_bytes(t.data(), t.size(), sp.faststart));
  c.label(sp.faststart ? "faststart" : "progressive");
  for (const auto& tr : sp.tracks) c.label(movie::name(tr.codec));
  const std::string tmpl = fresh_template();
  Ran whole;
  balanced(c, "finished", [&] { whole = write(sp, {}, tmpl); });
  if (whole.threw) fail("an undisturbed history fails");
  balanced(c, "finished, writer destroyed first", [&] { write(sp, {.writer_first = true}, tmpl); });
  std::vector<Ending> es;
  const bool all = whole.calls <= 24;
  for (std::uint64_t i = 0; i < std::min<std::uint64_t>(whole.calls, 24); ++i) {
    es.push_back({.step = all ? i : s.below(whole.calls), .raise = s.coin(), .writer_first = s.coin(), .explicit_delete = s.coin()});
  }
  for (int i = 0; i < 8 && whole.bytes > 0; ++i) es.push_back({.byte = s.below(whole.bytes), .writer_first = s.coin(), .explicit_delete = s.coin()});
  for (const auto& e : es) {
    balanced(c, e.text(), [&] { write(sp, e, tmpl); });
    tidy();
  }
  tidy();
  c.nontrivial(es.size() > 4);
}

// ---- constructions that are refused ---------------------------------------------------------------------------------
void refused(Src& s, Ctx& c) {
  streams::SparseBuf buf;
  std::ostream os(&buf);
  c.nontrivial();
  std::string why;
  const std::string dir = scratch_dir();
  const auto fast = [&](const std::string& tmpl, float duration) {
    (void)lib::thrown([&] {
      shiguredo::mp4::writer::FaststartWriter w(os, {.duration = duration, .mdat_path_templete = tmpl});
      w.writeFtypBox();
      w.appendTrakAndUdtaBoxInfo({});
    });
  };
  std::function<void()> f;
  const float bad = s.pick<float>({-1.0f, std::numeric_limits<float>::quiet_NaN(), std::numeric_limits<float>::infinity(), 3e38f});
  const unsigned k = static_cast<unsigned>(s.below(6));
  movie::Options o;
  o.wild_parameters = s.coin();
  movie::TrackSpec t = movie::gen_track(s, o, 1.0f);
  switch (k) {
    case 0: {
      const std::string tmpl = s.coin() ? dir + "/none/mdatXXXXXX" : dir + "/mdat" + std::string(s.below(6), 'X') + s.printable(0);
      why = "faststart writer with template " + tmpl;
      f = [=] { fast(tmpl, 1.0f); };
      break;
    }
    case 1:
      why = "faststart writer whose intermediate file cannot be opened as a stream";
      f = [&] {
        g_no_fdopen = true;
        fast(dir + "/mdatXXXXXX", 1.0f);
        g_no_fdopen = false;
      };
      break;
    case 2:
      why = "faststart writer of duration " + movie::dur_text(bad);
      f = [&] { fast(dir + "/mdatXXXXXX", bad); };
      break;
    case 3:
      why = "progressive writer of duration " + movie::dur_text(bad);
      f = [&] {
        (void)lib::thrown([&] {
          shiguredo::mp4::writer::SimpleWriter w(os, {.duration = bad});
          w.writeFtypBox();
        });
      };
      break;
    case 4:
      why = movie::name(t.codec) + " track with id 0 or a dimension that is too large";
      if (s.coin()) t.width = 65536 + static_cast<std::uint32_t>(s.upto(1u << 20));
      f = [&] {
        shiguredo::mp4::writer::SimpleWriter w(os, {.duration = 1.0f});
        (void)lib::thrown([&] { movie::make_track(t, &w, t.width > 65535 && movie::is_video(t.codec) ? 1 : 0); });
      };
      break;
    default:
      why = movie::name(t.codec) + " track of duration " + movie::dur_text(bad);
      t.duration = bad;
      f = [&] {
        shiguredo::mp4::writer::SimpleWriter w(os, {.duration = 1.0f});
        (void)lib::thrown([&] {
          const auto tr = movie::make_track(t, &w, 1);
          w.appendTrakAndUdtaBoxInfo({tr.get()});
        });
      };
  }
  c.label(why.substr(0, 30));
  c.note(why);
  c.sample(why);
  c.fingerprint(mix(k, hash_bytes(why.data(), why.size())));
  balanced(c, why, f);
  tidy();
}

// ---- single boxes ----------------------------------------------------------------------------------------------------
void boxes(Src& s, Ctx& c) {
  const bool wide = s.chance(1, 40);
  const Kind* k = wide ? nullptr : &pick_kind(s);
  const Sample x = wide ? wide_sample(s, s.coin()) : k->gen(s, s.coin());
  const Sample y = wide ? x : k->gen(s, s.coin());
  c.label("kind " + x.kind);
  c.nontrivial(x.interesting);
  c.fingerprint(hash_bytes(x.wire.data(), x.wire.size(), hash_bytes(x.kind.data(), x.kind.size())));
  c.note(x.kind + " " + x.variant + ", payload " + hex(x.wire, 4096));
  c.sample(x.kind + " " + x.variant + " " + std::to_string(x.wire.size()) + " bytes");
  // a history of uses of one object
  struct Op {
    unsigned what;
    std::uint64_t n;
    bool other;
  };
  std::vector<Op> ops;
  std::string story;
  const std::size_t n = 1 + s.below(8);
  static const char* const names[] = {"decode", "decode a prefix", "decode a damaged copy", "encode", "encode to a failing stream", "set a header", "place", "render", "write"};
  for (std::size_t i = 0; i < n; ++i) {
    ops.push_back({static_cast<unsigned>(s.below(9)), s.below(0), s.coin()});
    story += std::string("\n") + names[ops.back().what];
  }
  const bool from_values = x.make && s.coin();
  c.note((from_values ? "built from values" : "fresh") + story);
  balanced(c, x.kind, [&] {
    BoxPtr b = from_values ? x.make() : x.fresh();
    bool filled = from_values;  // an object that holds nothing, or half a payload, may only be filled or thrown away
    for (const auto& op : ops) {
      const Sample& z = op.other ? y : x;
      if (op.what != 5 && op.what > 2 && !filled) continue;
      if (op.what <= 2) filled = false;
      const auto err = lib::thrown([&] {
        switch (op.what) {
          case 0: lib::decode(*b, z.wire); break;
          case 1: {
            std::istringstream is(lib::str(Bytes(z.wire.begin(), z.wire.begin() + static_cast<std::ptrdiff_t>(op.n % (z.wire.size() + 1)))));
            b->readData(is);
            break;
          }
          case 2: {
            Bytes w = z.wire;
            if (!w.empty()) w[op.n % w.size()] ^= static_cast<std::uint8_t>(1 + (op.n >> 40) % 255);
            std::istringstream is(lib::str(w));
            b->readData(is);
            break;
          }
          case 3: {
            std::ostringstream os;
            b->writeData(os);
            break;
          }
          case 4: {
            streams::SparseBuf buf;
            buf.fail_after_bytes = op.n % (z.wire.size() + 1);
            std::ostream os(&buf);
            b->writeData(os);
            break;
          }
          case 5: b->setHeader(new BoxHeader({.offset = 0, .size = 8 + z.wire.size(), .header_size = 8, .type = BoxType(z.type)})); break;
          case 6:
            b->getHeaderSize();
            b->setOffsetAndDataSize(op.n % 1000, b->getDataSize());
            break;
          case 7: b->toString(); break;
          default: {
            b->getHeaderSize();
            std::ostringstream os;
            b->write(os);
          }
        }
      });
      if (op.what <= 2) filled = err.empty();
    }
  });
}

// ---- trees -----------------------------------------------------------------------------------------------------------
void trees(Src& s, Ctx& c) {
  std::size_t budget = s.chance(1, 4) ? 60 : 12;
  const tree::Node n = tree::gen_box(s, {}, "", 0, budget);
  const std::uint64_t offset = s.below(5000);
  tree::Node laid = n;
  tree::layout(laid, offset);
  const std::string d = tree::dump(laid);
  c.note(d);
  c.fingerprint(hash_bytes(d.data(), d.size()));
  c.label("depth " + std::to_string(tree::depth_of(n)));
  c.nontrivial(tree::count(n) >= 2);
  c.sample(std::to_string(tree::count(n)) + " boxes");
  std::vector<std::uint64_t> at = {kNever};
  for (int i = 0; i < 4; ++i) at.push_back(s.below(laid.size + 1));
  const bool placed = s.chance(3, 4);
  for (const auto p : at) {
    balanced(c, "tree, " + (p == kNever ? std::string("written") : "stream fails after " + std::to_string(p) + " bytes"), [&] {
      (void)lib::thrown([&] {
        const std::unique_ptr<BoxInfo> info(tree::build(n));
        if (placed) {
          info->adjustOffsetAndSize(offset);
          info->toString();
          streams::SparseBuf buf;
          buf.fail_after_bytes = p;
          std::ostream os(&buf);
          info->write(os);
        }
      });
    });
  }
}

// ---- reading files, whole, cut or damaged ------------------------------------------------------------------------------
void files(Src& s, Ctx& c) {
  tree::Options o;
  o.foreign = s.coin();
  o.max_boxes = 12;
  tree::Forest f = tree::gen_file(s, o);
  tree::layout(f);
  const Bytes whole = tree::serialize(f);
  c.note("file of " + std::to_string(whole.size()) + " bytes:\n" + tree::dump(f));
  c.fingerprint(hash_bytes(whole.data(), whole.size()));
  c.nontrivial(tree::count(f) >= 2);
  c.sample(std::to_string(whole.size()) + " bytes, " + std::to_string(tree::count(f)) + " boxes");
  const auto run = [&](const Bytes& b, const std::string& what, unsigned reads) {
    const std::string in = lib::str(b);
    unsigned threw = 0;
    balanced(c, what, [&] {
      std::istringstream is(in);
      (void)lib::thrown([&] {
        shiguredo::mp4::reader::SimpleReader r(is);
        for (unsigned i = 0; i < reads; ++i) {
          CaptureStdout cap;
          const auto e = lib::thrown([&] { r.read(); });
          threw += !e.empty();
          is.clear();
          is.seekg(0);
        }
      });
    });
    c.label(threw ? "refused" : "read");
  };
  run(whole, "whole file", 1 + static_cast<unsigned>(s.chance(1, 6)));
  for (int i = 0; i < 6 && !whole.empty(); ++i) {
    Bytes b = whole;
    if (s.coin()) {
      b.resize(s.below(b.size()));
      run(b, "cut to " + std::to_string(b.size()) + " bytes", 1);
    } else {
      const std::size_t at = s.below(b.size());
      b[at] = static_cast<std::uint8_t>(s.bits(8));
      run(b, "byte " + std::to_string(at) + " set to " + std::to_string(b[at]), 1);
    }
  }
}

// ---- registries ----------------------------------------------------------------------------------------------------------
void registries(Src& s, Ctx& c) {
  struct Op {
    bool add;
    FourCC t;
    std::size_t k;
    bool header;
  };
  std::vector<Op> ops;
  std::vector<FourCC> ts;
  for (std::size_t i = 1 + s.below(10); i > 0; --i) {
    FourCC t = !ts.empty() && s.coin() ? s.one_of(ts) : s.coin() ? s.one_of(registry()).type : FourCC{static_cast<std::uint8_t>(s.bits(8)), 'x', static_cast<std::uint8_t>(s.bits(8)), 'y'};
    ts.push_back(t);
    ops.push_back({s.coin(), t, s.below(kinds().size()), s.coin()});
  }
  const bool standard = s.coin();
  c.nontrivial(ops.size() > 1);
  c.sample(std::to_string(ops.size()) + " operations");
  balanced(c, "registry", [&] {
    BoxMap m;
    if (standard) shiguredo::mp4::register_box_map(&m);
    for (const auto& op : ops) {
      if (op.add) {
        const Kind* kk = &kinds()[op.k];
        m.addBoxDef([kk]() -> Box* {
          Src zero{std::vector<std::uint64_t>{}};
          return kk->gen(zero, false).fresh().release();
        }, BoxType(op.t), {0, 1});
      } else if (op.header) {
        BoxPtr b(m.getBoxInstance(new BoxHeader({.offset = 0, .size = 8, .header_size = 8, .type = BoxType(op.t)})));
      } else {
        BoxPtr b(m.getBoxInstance(BoxType(op.t)));
      }
      (void)lib::thrown([&] { m.getSupportedVersions(BoxType(op.t)); });
    }
  });
}

}  // namespace

int main(int argc, char** argv) {
  Suite suite;
  suite.property = "P24";
  suite.rule =
      "A case draws a writing history (every codec, both writers), a refused construction, a history of uses of one box, a tree, a file or a "
      "registry, and runs it to its end and given up early - before every call, with the stream failing before a call or at a byte, with cut or "
      "damaged input - several times each, comparing the heap blocks (allocator hooks) and open file descriptors before and after. Something "
      "lost by each of three runs is a violation; double frees and uses after free are AddressSanitizer's. Non-trivial: an early end, two boxes "
      "or a non-default box is involved; distinct by contents.";
  suite.assumptions = {"the intermediate file of an abandoned faststart writer stays on disk until deleteIntermediateFile is called; only the open descriptor and memory must go"};
  suite.init = [] {
    lib::quiet();
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
  };
  suite.groups = {
      {"writers", 4000, 100000, writers},
      {"refused", 1600, 40000, refused},
      {"boxes", 60000, 1500000, boxes},
      {"trees", 6000, 150000, trees},
      {"files", 4000, 100000, files},
      {"registries", 1600, 40000, registries},
  };
  return run_main(argc, argv, suite);
}
