// P28: what comes out depends on nothing but what was put in. The same work is done twice: in plain surroundings, and in
// others - locale, log level, time zone, contents of fresh memory, other work in between, looks at what is being worked on.
#include <fcntl.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <chrono>
#include <clocale>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <iostream>
#include <locale>
#include <memory>
#include <sstream>

#include <spdlog/sinks/base_sink.h>
#include <spdlog/spdlog.h>

#include "lib.hpp"
#include "model_util.hpp"
#include "movie.hpp"
#include "shiguredo/mp4/bitio/bitio.hpp"
#include "shiguredo/mp4/bitio/reader.hpp"
#include "shiguredo/mp4/bitio/writer.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "shiguredo/mp4/box_info.hpp"
#include "shiguredo/mp4/box_map.hpp"
#include "shiguredo/mp4/box_types.hpp"
#include "shiguredo/mp4/reader/reader.hpp"
#include "shiguredo/mp4/time/time.hpp"
#include "shiguredo/mp4/track/track.hpp"
#include "shiguredo/mp4/writer/faststart_writer.hpp"
#include "shiguredo/mp4/writer/writer.hpp"
#include "streams.hpp"
#include "tree.hpp"

// the time of making is the one thing that may differ between two runs: stopped
static const std::int64_t NOW = 1'700'000'000;
namespace std::chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(std::chrono::seconds(NOW)); }
}  // namespace _V2
}  // namespace std::chrono
extern "C" time_t time(time_t* t) {
  if (t != nullptr) *t = NOW;
  return NOW;
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept {
  tv->tv_sec = NOW;
  tv->tv_usec = 0;
  return 0;
}

extern char** environ;

using namespace pbt;
using namespace model;
using shiguredo::mp4::Box;
using shiguredo::mp4::BoxHeader;
using shiguredo::mp4::BoxInfo;
using shiguredo::mp4::BoxMap;
using shiguredo::mp4::BoxType;

namespace {


// ---- surroundings ---------------------------------------------------------------------------------------------

struct Punct : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\2"; }
  std::string do_truename() const override { return "ja"; }
  std::string do_falsename() const override { return "nein"; }
};

using Between = std::function<void(const std::function<void()>& look)>;

struct World {
  unsigned level = 0;  // 0: no log
  bool punct = false, hexout = false;
  unsigned clocale = 0;
  unsigned zone = 0;
  int fill = 0;
  bool looks = false, used_output = false;
  std::vector<unsigned> plan;                         // what is done in between, in turn; 0: nothing
  std::vector<std::function<void()>> things;          // from these
  std::size_t at = 0;
  std::string text;
};

// a log that is written and thrown away
struct Bin : spdlog::sinks::base_sink<spdlog::details::null_mutex> {
  void sink_it_(const spdlog::details::log_msg& m) override { bytes += m.payload.size(); }
  void flush_() override {}
  std::size_t bytes = 0;
};

const char* const ZONES[] = {"UTC0", "XYZ-9:30", "ABC8DEF,M3.2.0,M11.1.0", "QQQ-14"};

// "latin" is one of single bytes with decimal commas, made by main(), if it can be
const char* const LOCALES[] = {"C", "C.utf8", "latin"};

__attribute__((noinline)) void scribble(int byte) {
  volatile char stack[48 << 10];
  for (std::size_t i = 0; i < sizeof stack; ++i) stack[i] = static_cast<char>(byte);
}

bool g_used_output = false;  // what movies are written to holds something already

void enter(const World& w) {
  g_used_output = w.used_output;
  static const auto log = [] {
    auto l = std::make_shared<spdlog::logger>("bin", std::make_shared<Bin>());
    spdlog::set_default_logger(l);
    return l;
  }();
  spdlog::set_level(w.level == 0 ? spdlog::level::off : static_cast<spdlog::level::level_enum>(w.level - 1));
  const std::locale loc = w.punct ? std::locale(std::locale::classic(), new Punct) : std::locale::classic();
  std::locale::global(loc);
  std::cout.imbue(loc);
  std::cout.flags(w.hexout ? std::ios_base::hex | std::ios_base::showbase | std::ios_base::uppercase | std::ios_base::scientific | std::ios_base::left : std::ios_base::dec | std::ios_base::skipws);
  std::setlocale(LC_ALL, LOCALES[w.clocale]);
  setenv("TZ", ZONES[w.zone], 1);
  tzset();
  mem_set_fill(w.fill);
}

std::string outcome(const std::function<std::string()>& f) {
  try {
    return f();
  } catch (const std::exception& e) {
    return std::string("error: ") + e.what();
  }
}

using Work = std::function<std::string(const Between&)>;

// the surroundings that the case draws; `things` are what else goes on
World gen_world(Src& s, std::vector<std::function<void()>> things) {
  World w;
  w.level = static_cast<unsigned>(s.below(7));
  w.punct = s.coin();
  w.clocale = static_cast<unsigned>(s.below(3));
  w.hexout = s.chance(1, 3);
  w.zone = static_cast<unsigned>(s.below(4));
  w.fill = s.pick<int>({0xff, 0x01, 0xa5, 0x00});
  w.looks = s.coin();
  w.used_output = s.coin();
  w.things = std::move(things);
  if (!w.things.empty()) {
    for (std::size_t i = s.below(8); i > 0; --i) w.plan.push_back(static_cast<unsigned>(s.below(w.things.size() + 1)));
  }
  w.text = "log level " + U(w.level) + (w.punct ? ", other numbers" : "") + ", C locale " + LOCALES[w.clocale] + (w.hexout ? ", other stream flags" : "") + ", TZ=" + ZONES[w.zone] + ", memory filled with " + U(static_cast<unsigned>(w.fill)) +
           (w.looks ? ", looks" : "") + (w.used_output ? ", output used before" : "") + ", in between";
  for (auto p : w.plan) w.text += " " + U(p);
  return w;
}

std::string run_in(World w, const Work& work, bool may_print) {
  std::ostringstream printed;
  auto* old = std::cout.rdbuf(printed.rdbuf());
  bool inside = false;
  const Between between = [&](const std::function<void()>& look) {
    if (inside) return;
    inside = true;
    scribble(w.fill);
    if (w.looks && look) look();
    if (!w.plan.empty()) {
      const unsigned k = w.plan[w.at++ % w.plan.size()];
      if (k > 0) {
        auto before = movie::before_call;
        movie::before_call = nullptr;
        try {
          w.things[k - 1]();
        } catch (const std::exception&) {
        }
        movie::before_call = before;
      }
    }
    scribble(w.fill);
    inside = false;
  };
  enter(w);
  scribble(w.fill);
  std::string r = outcome([&] { return work(between); });
  std::cout.rdbuf(old);
  enter(World{});
  mem_set_fill(-1);
  if (may_print) return r + "\n--- printed ---\n" + printed.str();
  if (!printed.str().empty()) fail("printed on standard output, " + w.text + ": " + printed.str().substr(0, 500));
  return r;
}

void compare(Src& s, Ctx& c, const std::string& what, std::vector<std::function<void()>> things, const Work& work, bool may_print = false) {
  c.note(what);
  const World w = gen_world(s, std::move(things));
  c.note(w.text);
  c.sample((what + " | " + w.text).substr(0, 400));
  c.fingerprint(hash_bytes(what.data(), what.size()));
  c.fingerprint(hash_bytes(w.text.data(), w.text.size()));
  c.nontrivial();
  c.label("log level " + U(w.level));
  c.label("zone " + U(w.zone));
  c.label(std::string("C locale ") + LOCALES[w.clocale] + (std::setlocale(LC_ALL, LOCALES[w.clocale]) != nullptr ? "" : " (not there)"));
  std::setlocale(LC_ALL, "C");
  c.label_if(w.looks, "looks");
  c.label_if(!w.plan.empty(), "other work in between");
  c.sub_evals += 3;
  World plain;
  plain.fill = 0x5a;
  const std::string a = run_in(plain, work, may_print);
  const std::string b = run_in(w, work, may_print);
  if (a != b) fail("other results in other surroundings (" + w.text + "):\n" + diff(Bytes(a.begin(), a.end()), Bytes(b.begin(), b.end())) + "\n" + diff(a, b));
  // and nothing stays behind
  const std::string d = run_in(plain, work, may_print);
  if (a != d) fail("other results the next time (in between: " + w.text + "):\n" + diff(a, d));
}

// ---- work -----------------------------------------------------------------------------------------------------

void look_at(const Box& b) {
  b.toStringOnlyData();
  b.toString();
  b.getDataSize();
  b.getVersion();
  b.getFlags();
  b.checkFlag(1);
  b.getType().toString();
  try {
    b.getSize();
  } catch (const std::logic_error&) {  // no header yet
  }
}

std::string use_box(const Sample& x, bool from_values, const Between& between) {
  std::string r;
  between(nullptr);
  BoxPtr b = from_values ? x.make() : x.fresh();
  if (!from_values) {
    std::istringstream is(lib::str(x.wire));
    between(nullptr);
    r += U(b->readData(is)) + "\n";
  }
  const auto look = [&] { look_at(*b); };
  between(look);
  r += b->toStringOnlyData() + "\n" + U(b->getDataSize()) + " " + U(b->getVersion()) + " " + U(b->getFlags()) + "\n";
  between(look);
  b->setOffsetAndDataSize(40, b->getDataSize());
  between(look);
  r += b->toString() + "\n";
  if (x.reencodable) {
    std::ostringstream os;
    r += U(b->writeData(os)) + "\n";
    r += os.str();
    between(look);
    const std::string payload = os.str();
    // another object takes it up
    BoxPtr d = x.fresh();
    std::istringstream is(payload);
    const std::string e = lib::thrown([&] { d->readData(is); });
    between([&] {
      look();
      if (e.empty()) look_at(*d);
    });
    r += e.empty() ? d->toStringOnlyData() : e;
  }
  return r;
}

std::string use_tree(const tree::Node& n, const Between& between) {
  between(nullptr);
  const std::unique_ptr<BoxInfo> info(tree::build(n));
  const auto look = [&] {
    info->toString();
    info->getType().toString();
    info->getPath();
    look_at(*info->getBox());
  };
  between(look);
  info->adjustOffsetAndSize(64);
  between(look);
  std::ostringstream os;
  os << std::string(64, 'x');
  info->write(os);
  between(look);
  return info->toString() + "\n" + U(info->getSize()) + "\n" + os.str();
}

// a box that is refused half way
void fail_to_decode(const Sample& x) {
  const std::string w = lib::str(x.wire);
  std::istringstream is(w.substr(0, w.size() / 2));
  BoxPtr b = x.fresh();
  b->readData(is);
}

// another recording, carried on a step at a time
struct Other {
  movie::Spec sp;
  std::string path;
  streams::SparseBuf buf;
  std::unique_ptr<std::ostream> os;
  movie::Session ss;
  std::size_t at = 0;
  void step() {
    if (!os) {
      os = std::make_unique<std::ostream>(&buf);
      ss = movie::open(sp, *os, path);
      movie::begin(sp, ss);
    } else if (at < sp.events.size()) {
      movie::apply(sp.events[at++], ss);
    } else if (at == sp.events.size()) {
      ++at;
      movie::end(sp, ss);
    }
  }
};

std::function<void()> gen_thing(Src& s, int serial) {
  switch (s.below(6)) {
    case 0: {
      const auto x = std::make_shared<Sample>(pick_kind(s).gen(s, s.coin()));
      return [x] { use_box(*x, static_cast<bool>(x->make), [](const auto&) {}); };
    }
    case 1: {
      const auto x = std::make_shared<Sample>(pick_kind(s).gen(s, s.coin()));
      return [x] { fail_to_decode(*x); };
    }
    case 2: {
      movie::Options o;
      o.max_tracks = 2;
      o.events = 6;
      o.max_events = 20;
      const auto other = std::make_shared<Other>();
      other->sp = movie::gen(s, o);
      other->sp.faststart = s.coin();
      other->path = scratch_dir() + "/p28-other-" + std::to_string(serial) + "-XXXXXX";
      return [other] { other->step(); };
    }
    case 3: {
      const auto t = s.coin() ? s.one_of(registry()).type : tree::unregistered_type(s);
      return [t] {
        BoxMap m;
        shiguredo::mp4::register_box_map(&m);
        const std::unique_ptr<Box> b(m.getBoxInstance(BoxType(t)));
        BoxType(t).toString();
        m.isSupportedVersion(BoxType(t), 1);
      };
    }
    case 4: {
      const std::uint64_t t = s.coin() ? s.bits(32) : s.upto(6377812095ULL);
      return [t] { shiguredo::mp4::time::format_epoch_19040101(t); };
    }
    default: {
      std::size_t budget = 6;
      const auto n = std::make_shared<tree::Node>(tree::gen_box(s, {}, "", 0, budget));
      return [n] { use_tree(*n, [](const auto&) {}); };
    }
  }
}

std::vector<std::function<void()>> gen_things(Src& s) {
  std::vector<std::function<void()>> v;
  for (std::size_t i = s.below(4); i > 0; --i) v.push_back(gen_thing(s, static_cast<int>(i)));
  return v;
}

void boxes(Src& s, Ctx& c) {
  const auto& ks = kinds();
  const Kind& k = ks[s.enumerate(ks.size())];
  const Sample x = k.gen(s, s.coin());
  const bool v = x.make && s.coin();
  c.label("kind " + k.name);
  compare(s, c, "box " + x.kind + " " + x.variant + (v ? " made: " : " decoded: ") + hex(x.wire, 200), gen_things(s), [&](const Between& b) { return use_box(x, v, b); });
}

void trees(Src& s, Ctx& c) {
  std::size_t budget = 20;
  const tree::Node n = tree::gen_box(s, {}, "", 0, budget);
  compare(s, c, "tree:\n" + tree::dump(n), gen_things(s), [&](const Between& b) { return use_tree(n, b); });
}

void movies(Src& s, Ctx& c) {
  movie::Options o;
  o.max_tracks = 3;
  o.events = 15;
  o.max_events = 60;
  o.raw = true;
  o.wild_parameters = s.coin();
  movie::Spec sp = movie::gen(s, o);
  sp.faststart = s.coin();
  c.label(sp.faststart ? "fast-start" : "progressive");
  const std::string path = scratch_dir() + "/p28-XXXXXX";
  std::uint64_t size = 0;  // of the movie, from the run with a new output
  compare(s, c, "recording " + movie::text(sp), gen_things(s), [&](const Between& between) {
    const Bytes stale(g_used_output ? 30000 + size : 0, 0xee);
    streams::SparseBuf buf;
    if (!stale.empty()) buf.put(0, stale.data(), stale.size());
    std::ostream os(&buf);
    movie::Session ss;
    bool finished = false;
    const auto look = [&] {
      if (!ss.writer) return;
      ss.writer->getTimeFromEpoch();
      ss.writer->getMvhdTimescale();
      if (ss.fast) ss.fast->getIntermediateFilePath();
      if (!finished && ss.writer->getMoovBoxInfo() != nullptr) ss.writer->getMoovBoxInfo()->toString();
      for (const auto& t : ss.tracks) t->getTimescale();
    };
    struct Unhook {
      ~Unhook() { movie::before_call = nullptr; }
    } unhook;
    movie::before_call = [&] { between(look); };
    ss = movie::open(sp, os, path);
    movie::begin(sp, ss);
    for (const auto& e : sp.events) {
      if (e.kind == movie::Event::add && !e.data.empty() && !ss.tracks.empty()) {
        const auto at = ss.writer->tellCurrentMdatOffset();
        between([&] { ss.writer->tellCurrentMdatOffset(); });
        if (ss.writer->tellCurrentMdatOffset() != at) fail("the place of the next sample changed by itself");
      }
      movie::apply(e, ss);
    }
    movie::end(sp, ss);
    finished = true;
    between(look);
    if (stale.empty()) {
      size = buf.size();
    } else {
      if (buf.size() != stale.size()) fail("the movie grew to " + U(buf.size()) + " bytes in an output that held something before");
      for (auto x : buf.get(size, stale.size() - size)) {
        if (x != 0xee) fail("something was written beyond the " + U(size) + " bytes of the movie");
      }
    }
    return lib::str(buf.get(0, size));
  });
}

// a file that hands out a few bytes at a time, and lets other things happen in between
struct Slow : std::streambuf {
  Slow(const std::string& data, const Between& between, std::size_t step) : d(data), b(between), n(step) {}
  int_type underflow() override {
    b(nullptr);
    if (at >= d.size()) return traits_type::eof();
    const std::size_t k = std::min(n, d.size() - at);
    std::memcpy(buf, d.data() + at, k);
    at += k;
    setg(buf, buf, buf + k);
    return traits_type::to_int_type(*gptr());
  }
  pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override {
    const auto cur = static_cast<off_type>(at) - (egptr() - gptr());
    if (dir == std::ios_base::cur && off == 0) return pos_type(cur);
    const off_type to = dir == std::ios_base::beg ? off : dir == std::ios_base::cur ? cur + off : static_cast<off_type>(d.size()) + off;
    if (to < 0 || to > static_cast<off_type>(d.size())) return pos_type(off_type(-1));
    at = static_cast<std::size_t>(to);
    setg(buf, buf, buf);
    return pos_type(to);
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
  const std::string& d;
  const Between& b;
  std::size_t n, at = 0;
  char buf[64];
};

std::string gen_file_bytes(Src& s, Ctx& c, std::string& what) {
  tree::Options o;
  o.foreign = s.coin();
  o.max_boxes = 20;
  tree::Forest f = tree::gen_file(s, o);
  tree::layout(f);
  std::string in = lib::str(tree::serialize(f));
  what = "file: " + tree::dump(f);
  if (s.chance(1, 4) && !in.empty()) {  // one that may be refused
    if (s.coin()) {
      in.resize(s.below(in.size()));
    } else {
      in[s.below(in.size())] = static_cast<char>(s.below(256));
    }
    what = "damaged " + what;
    c.label("damaged");
  }
  what += "\n" + hex(lib::bytes(in), 300);
  return in;
}

void files(Src& s, Ctx& c) {
  std::string what;
  const std::string in = gen_file_bytes(s, c, what);
  const std::size_t step = s.range(1, 64);
  compare(
      s, c, what, gen_things(s),
      [&](const Between& between) {
        Slow buf(in, between, step);
        std::istream is(&buf);
        shiguredo::mp4::reader::SimpleReader r(is);
        between(nullptr);
        r.read();
        return std::string("taken");
      },
      true);
}

void numbers(Src& s, Ctx& c) {
  std::vector<std::pair<std::uint64_t, unsigned>> v;
  std::vector<std::uint64_t> times;
  std::string what = "numbers and times:";
  for (std::size_t i = 1 + s.below(10); i > 0; --i) {
    const unsigned w = 1 + static_cast<unsigned>(s.below(64));
    v.emplace_back(s.bits(w), w);
    times.push_back(s.coin() ? s.bits(32) : s.upto(6377812095ULL));
    what += " " + U(v.back().first) + ":" + U(w) + " " + U(times.back());
  }
  const std::string text = s.text(s.below(20));
  const float secs = static_cast<float>(s.upto(1u << 20)) / 7;
  const FourCC type = s.coin() ? s.one_of(registry()).type : tree::unregistered_type(s);
  what += " " + type_text(type);
  compare(s, c, what, gen_things(s), [&](const Between& between) {
    namespace bio = shiguredo::mp4::bitio;
    namespace tm = shiguredo::mp4::time;
    std::string r;
    const auto none = std::function<void()>();
    for (const auto t : times) {
      between(none);
      r += tm::format_epoch_19040101(t) + U(tm::convert_to_epoch_19040101(t)) + U(tm::convert_to_timescale(secs, static_cast<std::uint32_t>(t))) + " ";
    }
    std::stringstream ss;
    {
      bio::Writer w(ss);
      std::uint64_t at = bio::write_string(&w, text);
      for (const auto& [n, bits] : v) {
        between(none);
        at += bio::write_uint<std::uint64_t>(&w, n, bits);
      }
      while (at % 8 != 0) at += bio::write_bool(&w, true);
    }
    r += ss.str();
    bio::Reader rd(ss);
    std::string back;
    bio::read_string(&rd, &back, 1000);
    r += back;
    for (const auto& [n, bits] : v) {
      between(none);
      std::uint64_t g = 0;
      bio::read_uint<std::uint64_t>(&rd, &g, bits);
      r += U(g) + ",";
    }
    BoxMap m;
    shiguredo::mp4::register_box_map(&m);
    const BoxType bt(type);
    const auto look = [&] {
      bt.toString();
      m.isSupported(bt);
      m.getSupportedVersions(bt);
    };
    between(look);
    r += bt.toString() + (m.isSupported(bt) ? "+" : "-");
    between(look);
    for (auto x : m.getSupportedVersions(bt)) r += U(x) + ",";
    const std::unique_ptr<Box> b(m.getBoxInstance(bt));
    return r + b->getType().toString();
  });
}

// ---- the tool -------------------------------------------------------------------------------------------------

std::string slurp(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(f), {});
}

struct ToolWorld {
  std::vector<std::string> env;
  bool no_stdin = false, elsewhere = false, pipe = false;
  mode_t mask = 022;
};

std::string run_tool(const std::vector<std::string>& args, const std::string& dir, const ToolWorld& w) {
  static const std::string bin = std::string(std::getenv("CPPMP4_BIN") ? std::getenv("CPPMP4_BIN") : "/verif/build/bin") + "/mp4-tool";
  const std::string o = scratch_dir() + "/p28.out", e = scratch_dir() + "/p28.err";
  std::vector<char*> av, ev;
  av.push_back(const_cast<char*>(bin.c_str()));
  for (const auto& a : args) av.push_back(const_cast<char*>(a.c_str()));
  av.push_back(nullptr);
  for (const auto& a : w.env) ev.push_back(const_cast<char*>(a.c_str()));
  ev.push_back(nullptr);
  int p[2] = {-1, -1};
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  if (w.no_stdin) {
    posix_spawn_file_actions_addclose(&fa, 0);
  } else {
    posix_spawn_file_actions_addopen(&fa, 0, "/dev/zero", O_RDONLY, 0);
  }
  if (w.pipe) {
    if (pipe2(p, O_CLOEXEC) != 0) fail("harness: no pipe");
    posix_spawn_file_actions_adddup2(&fa, p[1], 1);
  } else {
    posix_spawn_file_actions_addopen(&fa, 1, o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  }
  posix_spawn_file_actions_addopen(&fa, 2, e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  posix_spawn_file_actions_addchdir_np(&fa, w.elsewhere ? "/" : dir.c_str());
  pid_t pid = 0;
  const mode_t old = umask(w.mask);
  const int rc = posix_spawn(&pid, bin.c_str(), &fa, nullptr, av.data(), ev.data());
  umask(old);
  posix_spawn_file_actions_destroy(&fa);
  if (rc != 0) fail("harness: the tool cannot be started");
  std::string out;
  if (w.pipe) {
    close(p[1]);
    char buf[4096];
    for (ssize_t n; (n = read(p[0], buf, sizeof buf)) > 0;) out.append(buf, static_cast<std::size_t>(n));
    close(p[0]);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0) {
  }
  if (!w.pipe) out = slurp(o);
  const std::string err = slurp(e);
  if (err.find("AddressSanitizer") != std::string::npos || err.find("runtime error:") != std::string::npos) fail("the tool ran into a sanitizer report: " + err.substr(0, 2000));
  return "wait status " + U(static_cast<unsigned>(st)) + "\n" + out;
}

void tool(Src& s, Ctx& c) {
  std::string what;
  const std::string in = gen_file_bytes(s, c, what);
  const std::string dir = scratch_dir();
  std::ofstream(dir + "/in.mp4", std::ios::binary) << in;
  const std::string full = dir + "/in.mp4";
  ToolWorld a, b;
  const std::string asan = "ASAN_OPTIONS=detect_leaks=0:max_malloc_fill_size=1000000:malloc_fill_byte=";
  a.env = {asan + "90"};
  b.env = {asan + U(s.pick<unsigned>({255, 1, 0}))};
  b.env.push_back(std::string("TZ=") + ZONES[s.below(4)]);
  for (const char* v : {"LANG", "LC_ALL"}) {
    if (s.coin()) b.env.push_back(v + std::string("=") + s.pick<const char*>({"C.utf8", "POSIX", "de_DE.UTF-8", "xx"}));
  }
  for (const char* v : {"TERM=xterm-256color", "COLORTERM=truecolor", "COLUMNS=20", "SPDLOG_LEVEL=trace", "HOME=/nonexistent", "POSIXLY_CORRECT=1", "LOG_LEVEL=debug", "DEBUG=1"}) {
    if (s.coin()) b.env.push_back(v);
  }
  b.no_stdin = s.coin();
  b.pipe = s.coin();
  b.mask = s.pick<mode_t>({0, 022, 0777});
  b.elsewhere = s.coin();
  const std::string l = s.pick<const char*>({"", "trace", "debug", "info", "warn", "error", "critical", "off"});
  std::string world = (b.no_stdin ? "no stdin " : "") + std::string(b.pipe ? "pipe " : "") + "umask " + U(b.mask) + (b.elsewhere ? " elsewhere" : "") + " level " + l;
  for (const auto& e : b.env) world += " " + e;
  c.note(what);
  c.note(world);
  c.sample(world + " | " + what.substr(0, 200));
  c.fingerprint(hash_bytes(what.data(), what.size()));
  c.fingerprint(hash_bytes(world.data(), world.size()));
  c.nontrivial();
  std::vector<std::string> args;
  if (!l.empty()) args = {"-l", l};
  args.insert(args.end(), {"dump", "-f", s.coin() || b.elsewhere ? full : "in.mp4"});
  const std::string x = run_tool({"dump", "-f", full}, dir, a), y = run_tool(args, dir, b);
  c.sub_evals += 1;
  if (x != y) fail("the tool says something else in other surroundings (" + world + "): " + diff(x, y));
}

}  // namespace

int main(int argc, char** argv) {
  const std::string dir = (std::getenv("PBT_SCRATCH") ? std::string(std::getenv("PBT_SCRATCH")) : std::string("/tmp")) + "/p28-locale-" + U(static_cast<unsigned>(getpid()));
  if (mkdir(dir.c_str(), 0700) == 0) {
    setenv("LOCPATH", dir.c_str(), 1);
    if (std::system(("localedef -i de_DE -f ISO-8859-1 '" + dir + "/latin' >/dev/null 2>&1").c_str()) != 0) std::cerr << "no locale of single bytes\n";
  }
  Suite suite;
  suite.property = "P28";
  suite.rule =
      "A case draws a piece of work - a box made or decoded, laid out, written and described; a tree; a recording with either writer; a file, whole or damaged, that is "
      "dumped; numbers, times and registry questions - and surroundings: log level, number format of the global and of the output's locale, C locale, stream flags, time "
      "zone, contents of fresh heap and stack memory, other work between the steps (also inside a read), looks at what is worked on. Results (bytes, texts, errors, what "
      "is printed) must be those in plain surroundings, and again afterwards; tool: the same with its process surroundings. All are non-trivial; distinct by work and surroundings.";
  suite.groups = {
      {"boxes", 20000, 400000, boxes},
      {"trees", 6000, 100000, trees},
      {"movies", 4000, 60000, movies},
      {"files", 6000, 100000, files},
      {"numbers", 4000, 100000, numbers},
      {"tool", 400, 8000, tool},
  };
  return run_main(argc, argv, suite);
}
