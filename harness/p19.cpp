// P19: failed output is always reported to the caller. Faults are injected at every byte and every seek.
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

#include <csignal>
#include <cstdio>
#include <filesystem>
#include <fstream>
#include <set>

#include "lib.hpp"
#include "model_util.hpp"
#include "movie.hpp"
#include "shiguredo/mp4/bitio/bitio.hpp"
#include "shiguredo/mp4/bitio/writer.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "shiguredo/mp4/box_info.hpp"
#include "shiguredo/mp4/writer/faststart_writer.hpp"
#include "shiguredo/mp4/writer/simple_writer.hpp"
#include "streams.hpp"
#include "tree.hpp"

// intermediate files a failed writer leaves open, to be closed by us
static std::set<FILE*>& open_files() {
  static std::set<FILE*> s;
  return s;
}
// the calls on the intermediate file that can be made to fail
enum Stdio { s_fdopen, s_ftell, s_fseek, s_fread, s_fwrite, s_count };
struct StdioFaults {
  bool armed = false;
  int which = -1;
  std::uint64_t at = 0;   // this call fails
  bool sticky = false;    // and all after it
  std::uint64_t calls[s_count] = {};
  bool delivered = false;
};
static StdioFaults g_stdio;
static bool stdio_fails(Stdio k) {
  if (!g_stdio.armed) return false;
  const std::uint64_t n = g_stdio.calls[k]++;
  if (g_stdio.which != k || !(n == g_stdio.at || (g_stdio.sticky && n > g_stdio.at))) return false;
  g_stdio.delivered = true;
  errno = EIO;
  return true;
}
#define REAL(name) static auto real = reinterpret_cast<decltype(&::name)>(dlsym(RTLD_NEXT, #name))
extern "C" long ftell(FILE* f) {
  REAL(ftell);
  return stdio_fails(s_ftell) ? -1 : real(f);
}
extern "C" off_t ftello(FILE* f) {
  REAL(ftello);
  return stdio_fails(s_ftell) ? -1 : real(f);
}
extern "C" int fseek(FILE* f, long o, int w) {
  REAL(fseek);
  return stdio_fails(s_fseek) ? -1 : real(f, o, w);
}
extern "C" int fseeko(FILE* f, off_t o, int w) {
  REAL(fseeko);
  return stdio_fails(s_fseek) ? -1 : real(f, o, w);
}
extern "C" size_t fwrite(const void* d, size_t size, size_t n, FILE* f) {
  REAL(fwrite);
  if (stdio_fails(s_fwrite)) return n == 0 ? 0 : real(d, size, n / 2, f);
  return real(d, size, n, f);
}
extern "C" FILE* fdopen(int fd, const char* mode) {
  static auto real = reinterpret_cast<FILE* (*)(int, const char*)>(dlsym(RTLD_NEXT, "fdopen"));
  if (stdio_fails(s_fdopen)) return nullptr;
  FILE* f = real(fd, mode);
  if (f != nullptr) open_files().insert(f);
  return f;
}
extern "C" int fclose(FILE* f) {
  static auto real = reinterpret_cast<int (*)(FILE*)>(dlsym(RTLD_NEXT, "fclose"));
  open_files().erase(f);
  return real(f);
}

using namespace pbt;
using namespace model;
using shiguredo::mp4::BoxHeader;
using shiguredo::mp4::BoxType;

namespace {

constexpr std::uint64_t kNever = streams::SparseBuf::kNever;

struct Fault {
  std::uint64_t byte = kNever;  // the first write past this many bytes stops there
  std::uint64_t seek = kNever;  // this seek is rejected
  bool sticky = true;
  bool raises = false;          // the stream is set to throw by itself
  bool dead = false;            // the stream was in a failed state from the start
  std::uint64_t soft = kNever;  // the stream goes into the failed (not bad) state after this byte: the device would take more
  std::uint64_t tell = kNever;  // this query of the position has no answer
  std::uint64_t call = kNever;  // the stream fails just before this call into the library
  bool only_fail = false;       // a dead stream that is failed but not bad, like a file that could not be opened
};
std::string text(const Fault& f) {
  std::string s = f.tell != kNever ? "query number " + std::to_string(f.tell) + " of the position fails" : f.call != kNever ? "the stream has failed before call " + std::to_string(f.call) + (f.only_fail ? " (failbit)" : " (badbit)") : f.soft != kNever ? "the stream has failed (failbit) after byte " + std::to_string(f.soft) : f.dead ? std::string("a stream that has failed already") + (f.only_fail ? " (failbit)" : "") : f.byte != kNever ? "output stops after byte " + std::to_string(f.byte) : "seek number " + std::to_string(f.seek) + " is rejected";
  return s + (f.dead || f.soft != kNever || f.call != kNever || f.tell != kNever ? "" : f.sticky ? " for good" : " once") + (f.raises ? ", stream throws" : "");
}

struct Result {
  std::string err;
  bool failed = false;
  Bytes bytes;
  std::uint64_t written = 0, seeks = 0, tells = 0, calls = 0;
  std::vector<std::uint64_t> ends;
};
template <class F>
Result attempt(const Fault& fault, F f) {
  streams::SparseBuf buf;
  buf.fail_after_bytes = fault.byte;
  buf.fail_seek = fault.seek;
  buf.fail_tell = fault.tell;
  buf.sticky = fault.sticky;
  std::ostream os(&buf);
  if (fault.dead) os.setstate(fault.only_fail ? std::ios_base::failbit : std::ios_base::badbit);
  bool soft = false;
  buf.call_at_byte = fault.soft;
  buf.on_byte = [&] {
    soft = true;
    os.setstate(std::ios_base::failbit);
  };
  Result r;
  struct Unhook {
    ~Unhook() { movie::before_call = nullptr; }
  } unhook;
  movie::before_call = [&] {
    if (r.calls++ != fault.call) return;
    soft = true;
    os.setstate(fault.only_fail ? std::ios_base::failbit : std::ios_base::badbit);
  };
  r.err = lib::thrown([&] {
    if (fault.raises) os.exceptions(std::ios_base::badbit | std::ios_base::failbit);
    f(os);
  });
  r.failed = buf.failed || fault.dead || soft;
  r.bytes = buf.get(0, buf.size());
  r.written = buf.bytes_written;
  r.seeks = buf.seeks;
  r.tells = buf.tells;
  r.ends = buf.ends;
  return r;
}

// a sequence that returns normally has handed over every byte
void judge(const std::string& what, const Fault& fault, const Result& clean, const Result& r, const std::function<Bytes()>& again) {
  if (!r.failed) {
    if (!r.err.empty()) fail(what + ": an error without a fault (" + text(fault) + "): " + r.err);
    return;
  }
  if (!r.err.empty()) return;
  if (r.bytes == clean.bytes || r.bytes == again()) return;  // recovered, nothing lost
  fail(what + ": " + text(fault) + ", and nothing is reported: the output has " + std::to_string(r.bytes.size()) + " bytes instead of " +
       std::to_string(clean.bytes.size()));
}

// positions to break at: all if few, otherwise both ends and a sample
std::vector<std::uint64_t> positions(Src& s, std::uint64_t n, std::size_t limit) {
  std::vector<std::uint64_t> v;
  if (n <= limit) {
    for (std::uint64_t k = 0; k < n; ++k) v.push_back(k);
    return v;
  }
  v = limit < 10 ? std::vector<std::uint64_t>{0, n - 1, n - 2} : std::vector<std::uint64_t>{0, 1, 7, 8, n - 1, n - 2, n - 3, n - 4, n - 8, n - 9};
  Rng r{s.below(0)};
  while (v.size() < limit) v.push_back(r.next() % n);
  return v;
}

template <class F>
void sweep(Src& s, Ctx& c, const std::string& what, std::size_t limit, F f) {
  const Result clean = attempt({}, f);
  if (!clean.err.empty()) fail(what + ": " + clean.err);
  const auto again = [&] { return attempt({}, f).bytes; };
  const bool raises = s.chance(1, 10);
  std::uint64_t faults = 0;
  const auto one = [&](const Fault& x) {
    const Result r = attempt(x, f);
    ++c.sub_evals;
    faults += r.failed;
    judge(what, x, clean, r, again);
  };
  for (const auto p : positions(s, clean.written, limit)) {
    one({.byte = p, .sticky = true, .raises = raises});
    one({.byte = p, .sticky = false, .raises = raises});
    one({.raises = raises, .soft = p});
  }
  for (const auto p : positions(s, clean.tells, limit)) one({.raises = raises, .tell = p});
  // ... failing between two of the writer's own writes
  if (!clean.ends.empty()) {
    for (const auto k : positions(s, clean.ends.size(), limit)) one({.raises = raises, .soft = clean.ends[k] - 1});
  }
  for (const auto p : positions(s, clean.seeks, limit)) {
    one({.seek = p, .sticky = true, .raises = raises});
    one({.seek = p, .sticky = false, .raises = raises});
  }
  // ... or between two calls
  for (const auto k : positions(s, clean.calls, limit)) {
    one({.call = k, .only_fail = true});
    one({.call = k});
  }
  if (clean.written > 0) {
    one({.dead = true});
    one({.dead = true, .only_fail = true});
  }
  c.label_if(raises, "stream with exceptions enabled");
  c.nontrivial(faults >= 2);
}

// ---- one box's payload ------------------------------------------------------------------------------------------
void payloads(Src& s, Ctx& c) {
  const auto& k = pick_kind(s);
  const Sample x = k.gen(s, false);
  if (!x.make || !x.reencodable) return;
  c.label("kind " + x.kind);
  c.fingerprint(hash_bytes(x.wire.data(), x.wire.size(), mix(19, hash_bytes(x.kind.data(), x.kind.size()))));
  c.note("kind " + x.kind + " payload " + hex(x.wire, 4096));
  c.sample(x.kind + " of " + std::to_string(x.wire.size()) + " bytes, broken everywhere");
  const BoxPtr b = x.make();
  sweep(s, c, x.kind, x.wire.size() > 3000 ? 6 : 60, [&](std::ostream& os) { b->writeData(os); });
}

// ---- headers ----------------------------------------------------------------------------------------------------
void headers(Src& s, Ctx& c) {
  const FourCC t = four(s);
  const auto form = s.below(4);
  const std::uint64_t offset = s.chance(1, 3) ? s.below(5000) : 0;
  c.label("form " + std::to_string(form));
  c.fingerprint(mix(form, offset));
  const std::uint64_t size = form == 1 ? (1ULL << 32) + s.bits(30) : 8 + s.bits(16);
  sweep(s, c, "header", 40, [&](std::ostream& os) {
    BoxHeader h({.offset = offset, .size = size, .header_size = form >= 1 && form <= 2 ? 16U : 8U, .type = BoxType(t), .extend_to_eof = form == 3});
    h.write(os);
  });
}

// ---- trees ------------------------------------------------------------------------------------------------------
void trees(Src& s, Ctx& c) {
  tree::Options o;
  o.max_boxes = 12;
  std::size_t budget = 12;
  tree::Node n = tree::gen_box(s, o, "moov", 0, budget);
  const std::uint64_t offset = s.chance(1, 3) ? s.below(3000) : 0;
  std::unique_ptr<shiguredo::mp4::BoxInfo> info;
  const auto err = lib::thrown([&] {
    info.reset(tree::build(n));
    info->adjustOffsetAndSize(offset);
    // only trees the library agrees to write
    std::ostringstream os;
    info->write(os);
  });
  if (!err.empty()) {
    c.label("contents the library refuses to write");
    return;
  }
  c.label("depth " + std::to_string(tree::depth_of(n)));
  Bytes flat;
  tree::layout(n, offset);
  tree::serialize(n, flat);
  c.fingerprint(hash_bytes(flat.data(), flat.size(), offset));
  c.note("tree at " + std::to_string(offset) + ":\n" + tree::dump(n));
  c.sample(std::to_string(tree::count(n)) + " boxes, " + std::to_string(flat.size()) + " bytes, broken everywhere");
  sweep(s, c, "tree", flat.size() > 3000 ? 8 : 50, [&](std::ostream& os) { info->write(os); });
}

// ---- the bit-level writer ---------------------------------------------------------------------------------------
void bits(Src& s, Ctx& c) {
  struct Op {
    unsigned kind;
    std::uint64_t v;
    unsigned w;
    Bytes b;
  };
  std::vector<Op> ops;
  const std::size_t n = 1 + s.below(12);
  for (std::size_t i = 0; i < n; ++i) {
    Op o{static_cast<unsigned>(s.below(5)), 0, static_cast<unsigned>(1 + s.below(64)), {}};
    o.v = s.bits(o.w);
    o.b = s.bytes(s.below(12));
    for (auto& x : o.b)
      if (x == 0) x = 1;
    ops.push_back(o);
  }
  c.label("operations");
  std::uint64_t h = 0;
  for (const auto& o : ops) h = mix(h, mix(mix(o.kind, o.w), mix(o.v, hash_bytes(o.b.data(), o.b.size()))));
  c.fingerprint(h);
  sweep(s, c, "bit writer", 60, [&](std::ostream& os) {
    namespace bio = shiguredo::mp4::bitio;
    bio::Writer w(os);
    std::uint64_t at = 0;
    for (const auto& o : ops) {
      switch (o.kind) {
        case 0: at += bio::write_uint<std::uint64_t>(&w, o.v, o.w); break;
        case 1: at += bio::write_string(&w, lib::str(o.b)); break;
        case 2: at += bio::write_pascal_string(&w, lib::str(o.b)); break;
        case 3: at += bio::write_vector_uint<std::uint8_t>(&w, o.b); break;
        default:
          if (at % 8 == 0) at += 8 * static_cast<std::uint64_t>(w.write(o.b));
      }
    }
    while (at % 8 != 0) at += bio::write_bool(&w, true);
  });
}

// ---- whole files ------------------------------------------------------------------------------------------------
std::string fresh_template() {
  static int n = 0;
  return scratch_dir() + "/p19-" + std::to_string(n++) + "-XXXXXX";
}
void tidy() {
  auto left = open_files();
  for (auto* f : left) fclose(f);
  for (const auto& e : std::filesystem::directory_iterator(scratch_dir())) std::filesystem::remove_all(e.path());
}
std::size_t files_left() {
  std::size_t n = 0;
  for (const auto& e : std::filesystem::directory_iterator(scratch_dir())) n += e.is_regular_file();
  return n;
}

movie::Spec small_movie(Src& s, bool fast) {
  movie::Options o;
  o.max_tracks = 3;
  o.events = 8;
  o.max_events = 60;
  o.raw = true;
  auto sp = movie::gen(s, o);
  sp.faststart = fast;
  if (!fast && s.chance(1, 8)) sp.own_metadata = s.bytes(s.size(8, 60));
  return sp;
}
void describe(Ctx& c, const movie::Spec& sp) {
  const std::string t = movie::text(sp);
  c.note(t);
  c.sample(t.substr(0, 300));
  c.fingerprint(hash_bytes(t.data(), t.size(), sp.faststart));
  for (const auto& t2 : sp.tracks) c.label(movie::name(t2.codec));
}

void progressive(Src& s, Ctx& c) {
  const auto sp = small_movie(s, false);
  describe(c, sp);
  sweep(s, c, "progressive file", 18, [&](std::ostream& os) { movie::run(sp, os, ""); });
}
void faststart(Src& s, Ctx& c) {
  auto sp = small_movie(s, true);
  if (s.chance(1, 5)) {
    // more than is copied at a time
    movie::Event e;
    e.kind = movie::Event::raw;
    e.data = Bytes(3000 + s.below(40000), 0x5a);
    sp.events.insert(sp.events.begin() + static_cast<std::ptrdiff_t>(s.below(sp.events.size() + 1)), e);
  }
  describe(c, sp);
  sweep(s, c, "faststart file", 14, [&](std::ostream& os) { movie::run(sp, os, fresh_template()); });
  tidy();
}

// media data copied in several steps
void faststart_large(Src& s, Ctx& c) {
  auto sp = small_movie(s, true);
  movie::Event e;
  e.kind = movie::Event::raw;
  e.data = Bytes((s.coin() ? 1U << 20 : 1U << 21) + s.below(1U << 20), 0x5a);
  sp.events.insert(sp.events.begin() + static_cast<std::ptrdiff_t>(s.below(sp.events.size() + 1)), e);
  describe(c, sp);
  sweep(s, c, "large faststart file", 3, [&](std::ostream& os) { movie::run(sp, os, fresh_template()); });
  tidy();
}

// a device that is always full
void full_device(Src& s, Ctx& c) {
  const auto sp = small_movie(s, s.coin());
  describe(c, sp);
  c.label(sp.faststart ? "faststart" : "progressive");
  c.nontrivial();
  std::ofstream os;
  os.rdbuf()->pubsetbuf(nullptr, 0);
  os.open("/dev/full", std::ios::binary);
  PBT_CHECK(os.good(), "/dev/full");
  const auto err = lib::thrown([&] { movie::run(sp, os, fresh_template()); });
  tidy();
  if (err.empty()) fail("a whole file was written to a full device without any error");
}

// ---- the intermediate file ----------------------------------------------------------------------------------------
struct FileLimit {
  rlimit old{};
  explicit FileLimit(std::uint64_t n) {
    signal(SIGXFSZ, SIG_IGN);
    getrlimit(RLIMIT_FSIZE, &old);
    rlimit r = old;
    r.rlim_cur = n;
    setrlimit(RLIMIT_FSIZE, &r);
  }
  ~FileLimit() { setrlimit(RLIMIT_FSIZE, &old); }
};

void intermediate(Src& s, Ctx& c) {
  auto sp = small_movie(s, true);
  if (s.coin() && !sp.tracks.empty()) {
    // beyond what is buffered
    for (auto& e : sp.events) {
      if (e.kind == movie::Event::raw) {
        e.data = s.bytes(2000 + s.below(9000));
        break;
      }
    }
    if (s.coin()) {
      movie::Event e;
      e.kind = movie::Event::raw;
      e.data = Bytes(3000 + s.below(20000), 0x5a);
      sp.events.insert(sp.events.begin() + static_cast<std::ptrdiff_t>(s.below(sp.events.size() + 1)), e);
    }
  }
  describe(c, sp);
  const auto run = [&](std::ostream& os) { movie::run(sp, os, fresh_template()); };
  const Result clean = attempt({}, run);
  if (!clean.err.empty()) fail("faststart file: " + clean.err);
  std::uint64_t total = 0;
  for (const auto& e : sp.events) {
    if (e.kind == movie::Event::raw) total += e.data.size();
    if (e.kind == movie::Event::add && e.stores) total += e.stored.size();
  }
  const auto again = [&] { return attempt({}, run).bytes; };
  // disk full at any byte of the intermediate file; nothing else of this process grows a file meanwhile
  for (const auto p : positions(s, total, 14)) {
    Result r;
    {
      FileLimit limit(p);
      r = attempt({}, run);
    }
    ++c.sub_evals;
    if (r.err.empty() && r.bytes != clean.bytes && r.bytes != again()) {
      fail("the intermediate file could hold " + std::to_string(p) + " of " + std::to_string(total) + " bytes, and nothing is reported");
    }
    c.label(r.err.empty() ? "recovered" : "reported");
  }
  tidy();
  // ... and room again after the first failed operation
  if (total > 0) {
    const std::uint64_t p = s.below(total);
    streams::SparseBuf buf;
    std::ostream os(&buf);
    bool reported = false;
    {
      auto ss = movie::open(sp, os, fresh_template());
      const auto err = lib::thrown([&] {
        movie::begin(sp, ss);
        std::uint64_t done = 0;
        for (const auto& e : sp.events) {
          const std::uint64_t n = e.kind == movie::Event::raw ? e.data.size() : e.kind == movie::Event::add && e.stores ? e.stored.size() : 0;
          if (done <= p && p < done + n) {
            FileLimit limit(p);
            movie::apply(e, ss);
          } else {
            movie::apply(e, ss);
          }
          done += n;
        }
        movie::end(sp, ss);
      });
      reported = !err.empty();
    }
    ++c.sub_evals;
    const Bytes out = buf.get(0, buf.size());
    if (!reported && out != clean.bytes && out != again()) fail("the intermediate file was full for a while at byte " + std::to_string(p) + ", and nothing is reported");
    c.label(reported ? "reported (passing fault)" : "recovered (passing fault)");
  }
  tidy();
  // the file cannot be read back: every descriptor of it is replaced by one that cannot be read
  {
    const std::string tmpl = fresh_template();
    streams::SparseBuf buf;
    std::ostream os(&buf);
    auto ss = movie::open(sp, os, tmpl);
    std::string err;
    std::size_t replaced = 0;
    err = lib::thrown([&] {
      movie::begin(sp, ss);
      for (const auto& e : sp.events) movie::apply(e, ss);
      const std::string path = ss.fast->getIntermediateFilePath();
      std::vector<int> fds;
      for (const auto& e : std::filesystem::directory_iterator("/proc/self/fd")) {
        std::error_code ec;
        const auto to = std::filesystem::read_symlink(e.path(), ec);
        if (!ec && to == path) fds.push_back(std::stoi(e.path().filename().string()));
      }
      for (const int fd : fds) {
        const int w = ::open(path.c_str(), O_WRONLY);
        const auto at = lseek(fd, 0, SEEK_CUR);
        lseek(w, at, SEEK_SET);
        dup2(w, fd);
        ::close(w);
        ++replaced;
      }
      movie::end(sp, ss);
    });
    ++c.sub_evals;
    const Bytes out = buf.get(0, buf.size());
    if (err.empty() && out != clean.bytes && out != again()) fail("the intermediate file cannot be read back, and nothing is reported");
    c.label_if(replaced > 0, err.empty() ? "unreadable: recovered" : "unreadable: reported");
  }
  tidy();
  c.nontrivial(total > 0);
}

// each single call on the intermediate file fails
void intermediate_calls(Src& s, Ctx& c) {
  auto sp = small_movie(s, true);
  describe(c, sp);
  const auto run = [&](std::ostream& os) { movie::run(sp, os, fresh_template()); };
  struct Disarm {
    ~Disarm() { g_stdio = {}; }
  } disarm;
  g_stdio = {};
  g_stdio.armed = true;
  const Result clean = attempt({}, run);
  const StdioFaults seen = g_stdio;
  g_stdio = {};
  if (!clean.err.empty()) fail("faststart file: " + clean.err);
  const auto again = [&] { return attempt({}, run).bytes; };
  static const char* names[] = {"fdopen", "ftell", "fseek", "fread", "fwrite"};
  std::uint64_t faults = 0;
  for (int k = 0; k < s_count; ++k) {
    for (const auto at : positions(s, seen.calls[k], 12)) {
      for (const bool sticky : {false, true}) {
        g_stdio = {};
        g_stdio.armed = true;
        g_stdio.which = k;
        g_stdio.at = at;
        g_stdio.sticky = sticky;
        const Result r = attempt({}, run);
        const bool delivered = g_stdio.delivered;
        g_stdio = {};
        ++c.sub_evals;
        faults += delivered;
        if (delivered) c.label(std::string(names[k]) + (r.err.empty() ? ": recovered" : ": reported"));
        if (r.err.empty() && r.bytes != clean.bytes && r.bytes != again()) {
          fail(std::string(names[k]) + " on the intermediate file fails at call " + std::to_string(at) + (sticky ? " for good" : " once") + ", and nothing is reported");
        }
      }
    }
  }
  tidy();
  c.nontrivial(faults >= 2);
}

void uncreatable(Src& s, Ctx& c) {
  const std::string dir = scratch_dir();
  std::string t, why;
  const std::string stem = s.printable(s.below(6));
  std::string safe;
  for (const char ch : stem) safe += ch == '/' ? '_' : ch;
  rlimit old{};
  getrlimit(RLIMIT_NOFILE, &old);
  bool no_fds = false;
  switch (s.below(7)) {
    case 0: why = "missing directory"; t = dir + "/none-" + safe + "/mdatXXXXXX"; break;
    case 1: why = "no placeholder"; t = dir + "/mdat" + safe; break;
    case 2: why = "short placeholder"; t = dir + "/mdat" + std::string(1 + s.below(5), 'X'); break;
    case 3: why = "placeholder not at the end"; t = dir + "/mdatXXXXXX.mp4" + safe; break;
    case 4:
      why = "a file in place of the directory";
      std::ofstream(dir + "/plain") << "x";
      t = dir + "/plain/mdatXXXXXX";
      break;
    case 5: why = "name too long"; t = dir + "/" + std::string(250 + s.below(5000), 'n') + "XXXXXX"; break;
    default:
      why = "no file descriptor left";
      t = dir + "/mdatXXXXXX";
      no_fds = true;
  }
  c.label(why);
  c.nontrivial();
  c.fingerprint(hash_bytes(t.data(), t.size()));
  c.note("template " + t);
  streams::SparseBuf buf;
  std::ostream os(&buf);
  std::string err;
  {
    if (no_fds) {
      rlimit r = old;
      r.rlim_cur = 0;
      setrlimit(RLIMIT_NOFILE, &r);
    }
    err = lib::thrown([&] {
      shiguredo::mp4::writer::FaststartWriter w(os, shiguredo::mp4::writer::FaststartWriterParameters{.mdat_path_templete = t});
      setrlimit(RLIMIT_NOFILE, &old);
      // whatever it is writing to, it must not pretend to work
      const std::string path = w.getIntermediateFilePath();
      if (path.empty() || !std::filesystem::exists(path)) fail(why + ": the writer has no intermediate file and says nothing");
      fail(why + ": an intermediate file was created at " + path);
    });
    setrlimit(RLIMIT_NOFILE, &old);
  }
  tidy();
  if (err.empty()) fail(why + ": no error");
}

// a writer whose file exists cleans up and is usable: no false alarms from the error paths
void control(Src& s, Ctx& c) {
  const auto sp = small_movie(s, true);
  describe(c, sp);
  c.nontrivial();
  streams::SparseBuf buf;
  std::ostream os(&buf);
  movie::run(sp, os, fresh_template());
  PBT_CHECK(files_left() == 0, "the intermediate file is still there");
  const auto f = [&](std::uint64_t p, std::uint64_t n) { return buf.get(p, n); };
  movie::demux(f, buf.size());
  tidy();
}

}  // namespace

int main(int argc, char** argv) {
  Suite suite;
  suite.property = "P19";
  suite.rule =
      "A case draws a box, header, tree, sequence of bit-level writes or whole writing history, runs it once without a fault, then again and again with "
      "one fault each: output stopping at a byte (every byte of small outputs, otherwise both ends and a sample), a rejected seek or position query (every one), for good or "
      "once, the stream going into the failed state without the device failing (after a byte, between two writes, before a call), or a stream that is dead (bad, or failed only) from the start; for the intermediate file, a full disk at any byte, a passing one, a file that cannot be read back or "
      "created, or any single call on it that fails. A run that returns normally must have produced the fault-free bytes. Non-trivial: at least two faults were delivered; distinct by contents.";
  suite.assumptions = {"bytes accepted by the stream are the stream's business: what is lost when the caller flushes or closes it later is not the library's to report"};
  suite.init = lib::quiet;
  suite.groups = {
      {"payloads", 2500, 80000, payloads},   {"headers", 600, 20000, headers},     {"trees", 900, 30000, trees},
      {"bits", 2000, 60000, bits},           {"progressive", 250, 8000, progressive}, {"faststart", 250, 8000, faststart},
      {"faststart_large", 40, 1200, faststart_large},
      {"full_device", 150, 3000, full_device}, {"intermediate", 250, 8000, intermediate}, {"intermediate_calls", 250, 8000, intermediate_calls}, {"uncreatable", 300, 4000, uncreatable},
      {"control", 100, 2000, control},
  };
  return run_main(argc, argv, suite);
}
