// P25: what shares no object may be used by several threads at once. Built with ThreadSanitizer.
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <fstream>
#include <iostream>
#include <locale>
#include <memory>
#include <sstream>
#include <thread>

#include "lib.hpp"
#include "model_util.hpp"
#include "movie.hpp"
#include "shiguredo/mp4/bitio/bitio.hpp"
#include "shiguredo/mp4/bitio/reader.hpp"
#include "shiguredo/mp4/bitio/writer.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "shiguredo/mp4/box_info.hpp"
#include "shiguredo/mp4/box_map.hpp"
#include "shiguredo/mp4/box_types.hpp"
#include "shiguredo/mp4/reader/reader.hpp"
#include "shiguredo/mp4/time/time.hpp"
#include "shiguredo/mp4/track/track.hpp"
#include "shiguredo/mp4/writer/writer.hpp"
#include "streams.hpp"
#include "tree.hpp"

// the library dates its files with such a clock: stopped, so that what two runs write can be compared byte for byte
namespace std::chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(std::chrono::seconds(1'700'000'000)); }
}  // namespace _V2
}  // namespace std::chrono
extern "C" time_t time(time_t* t) {
  if (t != nullptr) *t = 1'700'000'000;
  return 1'700'000'000;
}

using namespace pbt;
using namespace model;
using shiguredo::mp4::Box;
using shiguredo::mp4::BoxHeader;
using shiguredo::mp4::BoxInfo;
using shiguredo::mp4::BoxMap;
using shiguredo::mp4::BoxType;

namespace {

// a piece of work for one thread: everything it does to the library, and what came out
struct Task {
  std::string what;
  std::function<std::string()> run;
};

std::string outcome(const std::function<std::string()>& f) {
  try {
    return f();
  } catch (const std::exception& e) {
    return std::string("error: ") + e.what();
  }
}

std::string use_box(const Sample& x, bool from_values) {
  std::string r;
  BoxPtr b = from_values ? x.make() : x.fresh();
  if (!from_values) {
    std::istringstream is(lib::str(x.wire));
    r += std::to_string(b->readData(is)) + "\n";
  }
  r += b->toStringOnlyData() + "\n" + std::to_string(b->getDataSize()) + " " + std::to_string(b->getVersion()) + " " + std::to_string(b->getFlags()) + "\n";
  b->getHeaderSize();
  b->setOffsetAndDataSize(40, b->getDataSize());
  r += b->toString() + "\n";
  if (x.reencodable) {
    std::ostringstream os;
    r += std::to_string(b->writeData(os)) + "\n";
    r += os.str();
  }
  return r;
}

std::string use_tree(const BoxInfo& info) {
  std::ostringstream os;
  os << std::string(64, 'x');
  info.write(os);
  return info.toString() + "\n" + std::to_string(info.getSize()) + "\n" + os.str();
}

Task box_task(Src& s) {
  const Sample x = pick_kind(s).gen(s, s.coin());
  const bool v = x.make && s.coin();
  return {x.kind + " " + hex(x.wire, 200), [x, v] { return use_box(x, v); }};
}

Task tree_task(Src& s) {
  std::size_t budget = 10;
  auto n = std::make_shared<tree::Node>(tree::gen_box(s, {}, "", 0, budget));
  return {"tree of " + std::to_string(tree::count(*n)) + " boxes", [n] {
    const std::unique_ptr<BoxInfo> info(tree::build(*n));
    info->adjustOffsetAndSize(64);
    return use_tree(*info);
  }};
}

Task movie_task(Src& s, int serial, bool large) {
  movie::Options o;
  o.max_tracks = 2;
  o.events = 8;
  o.max_events = 40;
  o.raw = true;
  auto sp = std::make_shared<movie::Spec>(movie::gen(s, o));
  sp->faststart = s.coin();
  if (large && s.chance(1, 4)) {  // media data that is copied in several steps
    movie::Event e;
    e.kind = movie::Event::raw;
    e.data = Bytes(3000 + s.below(3u << 20), static_cast<std::uint8_t>(s.below(256)));
    sp->events.push_back(e);
  }
  const std::string path = scratch_dir() + "/p25-" + std::to_string(serial) + "-XXXXXX";
  return {movie::text(*sp).substr(0, 300), [sp, path] {
    streams::SparseBuf buf;
    std::ostream os(&buf);
    movie::run(*sp, os, path);
    return lib::str(buf.get(0, buf.size()));
  }};
}

Task registry_task(Src& s) {
  std::vector<FourCC> ts;
  for (int i = 0; i < 6; ++i) ts.push_back(s.coin() ? s.one_of(registry()).type : tree::unregistered_type(s));
  return {"registry", [ts] {
    BoxMap m;
    shiguredo::mp4::register_box_map(&m);
    std::string r;
    for (const auto& t : ts) {
      const BoxType bt(t);
      const std::unique_ptr<Box> b(m.getBoxInstance(new BoxHeader({.offset = 7, .size = 8, .header_size = 8, .type = bt})));
      r += bt.toString() + b->getType().toString() + (m.isSupported(bt) ? "+" : "-");
      for (const auto& u : ts) r += bt.matchWith(BoxType(u)) ? "m" : "n";
      r += bt.matchWith(shiguredo::mp4::box_type_any()) ? "a" : "-";
      for (unsigned v = 0; v < 4; ++v) r += m.isSupportedVersion(bt, static_cast<std::uint8_t>(v)) ? "y" : "n";
    }
    return r;
  }};
}

Task numbers_task(Src& s) {
  std::vector<std::pair<std::uint64_t, unsigned>> v;
  std::vector<std::uint64_t> times;
  for (std::size_t i = 1 + s.below(10); i > 0; --i) {
    const unsigned w = 1 + static_cast<unsigned>(s.below(64));
    v.emplace_back(s.bits(w), w);
    times.push_back(s.coin() ? s.bits(32) : s.upto(6377812095ULL));
  }
  const std::string text = s.text(s.below(20));
  return {"numbers and times", [v, times, text] {
    namespace bio = shiguredo::mp4::bitio;
    std::string r;
    for (const auto t : times) r += shiguredo::mp4::time::format_epoch_19040101(t) + std::to_string(shiguredo::mp4::time::convert_to_epoch_19040101(t));
    std::stringstream ss;
    {
      bio::Writer w(ss);
      std::uint64_t at = bio::write_string(&w, text);
      for (const auto& [n, bits] : v) at += bio::write_uint<std::uint64_t>(&w, n, bits);
      while (at % 8 != 0) at += bio::write_bool(&w, true);
    }
    r += ss.str();
    bio::Reader rd(ss);
    std::string back;
    bio::read_string(&rd, &back, 1000);
    r += back;
    for (const auto& [n, bits] : v) {
      std::uint64_t g = 0;
      bio::read_uint<std::uint64_t>(&rd, &g, bits);
      r += std::to_string(g) + ",";
    }
    return r;
  }};
}

// a file is dumped; only one at a time, since dumps go to the one standard output there is
Task file_task(Src& s) {
  tree::Options o;
  o.max_boxes = 10;
  tree::Forest f = tree::gen_file(s, o);
  tree::layout(f);
  const std::string in = lib::str(tree::serialize(f));
  return {"file of " + std::to_string(in.size()) + " bytes", [in] {
    std::ostringstream out;
    auto* old = std::cout.rdbuf(out.rdbuf());
    const std::string e = outcome([&] {
      std::istringstream is(in);
      shiguredo::mp4::reader::SimpleReader r(is);
      r.read();
      return std::string();
    });
    std::cout.rdbuf(old);
    return out.str() + e;
  }};
}

// the tasks of each thread, run at once in a process of their own (so that whatever is set up on first use is set up under way),
// then one after the other
void compare(Src& s, Ctx& c, const std::vector<std::vector<Task>>& plan, unsigned rounds) {
  std::string story;
  std::uint64_t h = 0;
  for (std::size_t t = 0; t < plan.size(); ++t) {
    for (const auto& k : plan[t]) {
      story += "thread " + std::to_string(t) + ": " + k.what + "\n";
    }
  }
  h = hash_bytes(story.data(), story.size());
  c.fingerprint(h);
  c.note(story);
  c.sample(story.substr(0, 300));
  c.label(std::to_string(plan.size()) + " threads");
  c.nontrivial(plan.size() >= 2);
  c.sub_evals += plan.size() * rounds;
  const std::string dir = scratch_dir();
  const std::string ef = dir + "/threads.err", mf = dir + "/threads.msg";
  unlink(mf.c_str());
  std::cout.flush();
  const pid_t pid = fork();
  if (pid == 0) {
    const int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 2);
    std::vector<std::vector<std::string>> got(plan.size());
    for (unsigned r = 0; r < rounds; ++r) {
      std::atomic<std::size_t> ready{0};
      std::vector<std::thread> ts;
      for (std::size_t t = 0; t < plan.size(); ++t) {
        ts.emplace_back([&, t] {
          ready.fetch_add(1);
          while (ready.load() < plan.size()) std::this_thread::yield();
          for (const auto& k : plan[t]) got[t].push_back(outcome(k.run));
        });
      }
      for (auto& t : ts) t.join();
    }
    std::string bad;
    for (std::size_t t = 0; t < plan.size() && bad.empty(); ++t) {
      for (std::size_t i = 0; i < got[t].size() && bad.empty(); ++i) {
        const Task& k = plan[t][i % plan[t].size()];
        const std::string& g = got[t][i];
        const std::string alone = outcome(k.run);
        if (alone == g) continue;
        // should the time of making come from another clock: what changes from one second to the next is not compared
        sleep(1);
        const std::string later = outcome(k.run);
        bool same = alone.size() == g.size() && later.size() == g.size();
        for (std::size_t p = 0, until = 0; same && p < g.size(); ++p) {
          if (p >= until) {
            for (std::size_t q = p; q < p + 8 && q < g.size(); ++q) {
              if (alone[q] != later[q]) until = q + 1;
            }
          }
          same = p < until || g[p] == alone[p];
        }
        if (!same) bad = "thread " + std::to_string(t) + ", " + k.what + ": not what it gives alone: " + diff(Bytes(alone.begin(), alone.end()), Bytes(g.begin(), g.end()));
      }
    }
    if (!bad.empty()) std::ofstream(mf) << bad;
    // leave without the exit handlers of the parent's copy, but let the sanitizer have its say
    _exit(bad.empty() ? 0 : 3);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  const auto slurp = [](const std::string& p) {
    std::ifstream f(p);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str().substr(0, 6000);
  };
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 3) fail(slurp(mf));
  fail("the threads ended with wait status " + std::to_string(st) + "\n" + slurp(ef));
}

std::vector<std::vector<Task>> gen_plan(Src& s, bool movies) {
  std::vector<std::vector<Task>> plan(s.range(2, 4));
  bool have_file = false;
  int serial = 0;
  const bool alike = s.chance(1, 3);  // all threads do the same kind of thing
  const auto the_kind = s.below(5);
  for (auto& p : plan) {
    for (std::size_t i = 1 + s.below(3); i > 0; --i) {
      switch (movies ? 1 : alike ? the_kind : s.below(6)) {
        case 0: p.push_back(tree_task(s)); break;
        case 1: p.push_back(movie_task(s, serial++, movies)); break;
        case 2: p.push_back(registry_task(s)); break;
        case 3: p.push_back(numbers_task(s)); break;
        case 4:
          if (!have_file) {
            // all the file tasks belong to one thread
            have_file = true;
            p.push_back(file_task(s));
            break;
          }
          [[fallthrough]];
        default: p.push_back(box_task(s));
      }
    }
  }
  return plan;
}

void mixed(Src& s, Ctx& c) { compare(s, c, gen_plan(s, false), 1 + static_cast<unsigned>(s.below(3))); }
void movies(Src& s, Ctx& c) { compare(s, c, gen_plan(s, true), 1); }

// the same kind of box everywhere
void same_kind(Src& s, Ctx& c) {
  const auto& ks = kinds();
  const Kind& k = ks[s.enumerate(ks.size())];
  c.label("kind " + k.name);
  std::vector<std::vector<Task>> plan(s.range(2, 3));
  for (auto& p : plan) {
    for (std::size_t i = 1 + s.below(2); i > 0; --i) {
      const Sample x = k.gen(s, s.coin());
      const bool v = x.make && s.coin();
      p.push_back({x.kind + " " + hex(x.wire, 200), [x, v] { return use_box(x, v); }});
    }
  }
  compare(s, c, plan, 2);
}

// one box or tree, looked at by all
void shared(Src& s, Ctx& c) {
  std::size_t budget = 12;
  auto n = std::make_shared<tree::Node>(tree::gen_box(s, {}, "", 0, budget));
  auto info = std::make_shared<std::unique_ptr<BoxInfo>>();
  const auto get = [n, info]() -> BoxInfo& { return **info; };
  // made before the threads start, in the parent: the children see a copy
  const auto err = lib::thrown([&] {
    info->reset(tree::build(*n));
    (*info)->adjustOffsetAndSize(64);
    std::ostringstream os;
    os << std::string(64, 'x');
    (*info)->write(os);
  });
  if (!err.empty()) {
    c.label("contents the library refuses to write: " + err.substr(0, 60));
    return;
  }
  std::vector<std::vector<Task>> plan(s.range(2, 4));
  for (auto& p : plan) {
    // (writing a box tells it where it lies, so a shared tree is not written)
    p.push_back({"shared tree:\n" + tree::dump(*n), [get] { return get().toString() + std::to_string(get().getSize()) + get().getType().toString(); }});
    p.push_back({"its box", [get] {
      const Box& b = *get().getBox();  // of the root: what is below is seen through the tree
      std::ostringstream os;
      b.writeData(os);
      return b.toString() + b.toStringOnlyData() + std::to_string(b.getDataSize()) + std::to_string(b.getSize()) + std::to_string(b.getFlags()) + (b.checkFlag(1) ? "y" : "n") + b.getType().toString() + os.str();
    }});
  }
  compare(s, c, plan, 2);
}

}  // namespace

int main(int argc, char** argv) {
  Suite suite;
  suite.property = "P25";
  suite.rule =
      "A case draws two to four lists of work - boxes, trees, registries, numbers and times, whole writing histories with either writer, at most one "
      "file being dumped, or one shared tree that all only look at - runs them at the same time on threads of a fresh process under ThreadSanitizer "
      "and compares every result with what the same work gives alone afterwards. Non-trivial: at least two threads; distinct by work.";
  suite.init = [] {
    lib::quiet();
    // the standard library's own caches (ctype<char>::narrow fills a table unguarded, and std::regex uses it) are filled beforehand
    const auto& ct = std::use_facet<std::ctype<char>>(std::locale());
    for (int ch = 0; ch < 256; ++ch) {
      ct.narrow(static_cast<char>(ch), '\0');
      ct.widen(static_cast<char>(ch));
    }
  };
  suite.groups = {
      {"same_kind", 800, 20000, same_kind},
      {"mixed", 1600, 40000, mixed},
      {"movies", 160, 6000, movies},
      {"shared", 600, 15000, shared},
  };
  return run_main(argc, argv, suite);
}
