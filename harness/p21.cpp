// P21: the dump tool reports exactly what the file holds and fails loudly otherwise.
#include <fcntl.h>
#include <spawn.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <csignal>

#include <cstdlib>
#include <fstream>

#include "lib.hpp"
#include "tree.hpp"

extern char** environ;

using namespace pbt;
using namespace model;

namespace {

struct Run {
  int status = 0;
  std::string out, err;
  bool success() const { return WIFEXITED(status) && WEXITSTATUS(status) == 0; }
  std::string how() const {
    return WIFEXITED(status) ? "exit status " + std::to_string(WEXITSTATUS(status)) : "signal " + std::to_string(WTERMSIG(status));
  }
};

std::string slurp(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(f), {});
}

std::string tool_path() {
  return std::string(std::getenv("CPPMP4_BIN") ? std::getenv("CPPMP4_BIN") : "/verif/build/bin") + "/mp4-tool";
}

Run tool(const std::vector<std::string>& args) {
  static const std::string bin = tool_path();
  const std::string o = scratch_dir() + "/out", e = scratch_dir() + "/err";
  std::vector<char*> av;
  av.push_back(const_cast<char*>(bin.c_str()));
  for (const auto& a : args) av.push_back(const_cast<char*>(a.c_str()));
  av.push_back(nullptr);
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
  posix_spawn_file_actions_addopen(&fa, 1, o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  posix_spawn_file_actions_addopen(&fa, 2, e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  pid_t pid = 0;
  if (posix_spawn(&pid, bin.c_str(), &fa, nullptr, av.data(), environ) != 0) fail("harness: the tool cannot be started");
  posix_spawn_file_actions_destroy(&fa);
  Run r;
  while (waitpid(pid, &r.status, 0) < 0) {
  }
  r.out = slurp(o);
  r.err = slurp(e);
  if (r.err.find("AddressSanitizer") != std::string::npos || r.err.find("runtime error:") != std::string::npos) {
    // a memory error is P08's business, but the tool's answer cannot be trusted either
    fail("the tool ran into a sanitizer report: " + r.err.substr(0, 3000));
  }
  return r;
}

void put(const std::string& path, const Bytes& b) {
  std::ofstream f(path, std::ios::binary);
  f.write(reinterpret_cast<const char*>(b.data()), static_cast<std::streamsize>(b.size()));
}

std::vector<std::string> with_level(Src& s, Ctx& c, std::vector<std::string> tail) {
  std::string l = s.pick<const char*>({"", "info", "trace", "debug", "warn", "error", "critical", "off", "TRACE", "Debug"});
  c.label("log level " + (l.empty() ? "default" : l));
  if (l.empty()) return tail;
  std::vector<std::string> a = {s.coin() ? "-l" : "--log-level", l};
  a.insert(a.end(), tail.begin(), tail.end());
  return a;
}

void expect_failure(const Run& r, const std::string& what) {
  if (r.success()) fail(what + ": the tool exited successfully and printed: " + r.out.substr(0, 1000));
  if (!r.out.empty()) fail(what + ": the tool failed (" + r.how() + ") but printed: " + r.out.substr(0, 1000));
}

void good(Src& s, Ctx& c) {
  tree::Options o;
  o.foreign = s.coin();
  o.max_boxes = s.chance(1, 10) ? 200 : 30;
  tree::Forest f = tree::gen_file(s, o);
  tree::layout(f);
  const Bytes b = tree::serialize(f);
  const std::string want = tree::dump(f);
  const std::string path = scratch_dir() + "/" + s.pick<const char*>({"a.mp4", "b", "with space.mp4", "-dash.mp4"});
  put(path, b);
  const auto args = with_level(s, c, {"dump", s.coin() ? "-f" : "--file", path});
  c.nontrivial(tree::count(f) >= 2);
  c.fingerprint(mix(hash_bytes(b.data(), b.size()), args.size()));
  c.note("file:\n" + want);
  c.sample(args[0] + " " + args[1] + ": " + std::to_string(tree::count(f)) + " boxes, " + std::to_string(b.size()) + " bytes");
  const Run r = tool(args);
  if (!r.success()) fail("a well-formed file: " + r.how() + ", " + r.err.substr(0, 1000));
  if (r.out != want) fail("standard output: " + diff(want, r.out));
  ::unlink(path.c_str());
}

// standard output that cannot take the dump: a full device, a file that may not grow further, a pipe nobody reads
void lost_output(Src& s, Ctx& c) {
  tree::Options o;
  o.foreign = s.coin();
  o.max_boxes = s.chance(1, 10) ? 100 : 12;
  tree::Forest f = tree::gen_file(s, o);
  tree::layout(f);
  const Bytes b = tree::serialize(f);
  const std::string want = tree::dump(f);
  const std::string path = scratch_dir() + "/a.mp4", out = scratch_dir() + "/out";
  put(path, b);
  const unsigned how = static_cast<unsigned>(s.below(4));
  const std::uint64_t room = how == 1 ? s.below(want.size() + 20) : how == 0 ? 0 : s.below(4096);
  static const char* const names[] = {"a full device", "a file of limited size", "a pipe closed early", "closed"};
  c.label(std::string("standard output is ") + names[how]);
  c.nontrivial(!want.empty());
  c.fingerprint(mix(hash_bytes(b.data(), b.size()), how * 100000 + room));
  c.note(std::string("standard output is ") + names[how] + ", room " + std::to_string(room) + "\nfile:\n" + want);
  c.sample(std::string(names[how]) + ", dump of " + std::to_string(want.size()) + " bytes");
  int fds[2] = {-1, -1};
  if (how == 2 && ::pipe(fds) != 0) fail("harness: pipe");
  if (how == 2) {
    ::close(fds[0]);
    fds[0] = -1;
  }
  const pid_t pid = ::fork();
  if (pid < 0) fail("harness: fork");
  if (pid == 0) {
    ::close(0);
    ::open("/dev/null", O_RDONLY);
    const int e = ::open("/dev/null", O_WRONLY);
    ::dup2(e, 2);
    if (how == 0) ::dup2(::open("/dev/full", O_WRONLY), 1);
    if (how == 1) {
      ::dup2(::open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), 1);
      const rlimit l{room, room};
      ::setrlimit(RLIMIT_FSIZE, &l);
      ::signal(SIGXFSZ, SIG_IGN);
    }
    if (how == 2) {
      ::dup2(fds[1], 1);
      ::signal(SIGPIPE, SIG_IGN);
    }
    if (how == 3) ::close(1);
    const std::string bin = tool_path();
    ::execl(bin.c_str(), bin.c_str(), "dump", "-f", path.c_str(), static_cast<char*>(nullptr));
    ::_exit(127);
  }
  if (fds[1] >= 0) ::close(fds[1]);
  Run r;
  while (waitpid(pid, &r.status, 0) < 0) {
  }
  const bool arrived = want.empty() || (how == 1 && slurp(out) == want);
  if (r.success() && !arrived) fail(std::string("standard output is ") + names[how] + ": the dump did not arrive but the tool exited successfully");
  if (how == 1 && room >= want.size() && !r.success()) fail("the dump fits the file but the tool failed: " + r.how());
  ::unlink(path.c_str());
  ::unlink(out.c_str());
}

void bad(Src& s, Ctx& c) {
  std::string what;
  std::string path = scratch_dir() + "/bad.mp4";
  ::unlink(path.c_str());
  std::vector<std::string> args;
  Bytes b;
  switch (s.below(5)) {
    case 0:
      what = "a missing file";
      if (s.coin()) path = scratch_dir() + "/no/such/dir/x.mp4";
      break;
    case 1:
      what = "a directory";
      path = scratch_dir() + "/adir";
      ::mkdir(path.c_str(), 0700);
      break;
    case 2: {
      what = "a truncated file";
      tree::Options o;
      o.foreign = s.coin();
      o.max_boxes = 12;
      tree::Forest f;
      while (f.empty()) {
        f = tree::gen_file(s, o);
        if (f.empty()) {
          std::size_t n = 3;
          f.push_back(tree::gen_box(s, o, "", 0, n));
        }
      }
      if (f.back().form == tree::Form::to_eof) f.back().form = tree::Form::automatic;
      tree::layout(f);
      b = tree::serialize(f);
      const auto& last = f.back();
      b.resize(last.offset + 1 + s.below(last.size - 1));
      put(path, b);
      break;
    }
    case 3: {
      what = "a malformed file";
      // a child that reaches past its parent, a size smaller than the header, a payload that ends early, or noise
      Wire w;
      tree::Options o;
      o.max_boxes = 4;
      tree::Forest f = tree::gen_file(s, o);
      tree::layout(f);
      const Bytes lead = tree::serialize(f);
      w.raw(lead);
      switch (s.below(4)) {
        case 0:
          w.u32(16);
          w.raw(fourcc("moov"));
          w.u32(9 + s.below(1000));
          w.raw(fourcc("free"));
          w.u32(0);
          w.raw(Bytes(1100, 0));
          break;
        case 1:
          w.u32(2 + s.below(6));
          w.raw(fourcc("free"));
          w.raw(Bytes(8, 0));
          break;
        case 2:
          w.u32(8 + 4 + s.below(90));
          w.raw(fourcc("mvhd"));
          w.raw(Bytes(b.size() + 4, 0));
          w.b.resize(lead.size() + 8 + (w.b[lead.size() + 3] - 8), 0);
          break;
        default: {
          const std::uint64_t extra = 1 + s.below(7);  // a few bytes too few for a header
          w.raw(s.bytes(extra));
        }
      }
      b = w.b;
      put(path, b);
      break;
    }
    default: {
      what = "bad arguments";
      switch (s.below(5)) {
        case 0: args = {}; break;
        case 1: args = {"undump", "-f", path}; break;
        case 2: args = {"-l", "loud", "dump", "-f", path}; break;
        case 3: args = {"dump"}; break;
        default: args = {"dump", "--nonsense"}; break;
      }
      c.nontrivial();
      c.label(what);
      c.fingerprint(args.size() * 7 + s.below(1));
      std::string all;
      for (const auto& a : args) all += a + " ";
      c.note("arguments: " + all);
      const Run r = tool(args);
      if (r.success()) fail(what + " (" + all + "): the tool exited successfully");
      if (!r.out.empty() && r.out.find("Offset=") != std::string::npos) fail(what + ": the tool printed a tree");
      return;
    }
  }
  c.label(what);
  c.nontrivial();
  c.fingerprint(mix(hash_bytes(b.data(), b.size()), hash_bytes(path.data(), path.size())));
  c.note(what + " " + hex(b, 4000));
  c.sample(what + ", " + std::to_string(b.size()) + " bytes");
  expect_failure(tool(with_level(s, c, {"dump", "-f", path})), what);
}

}  // namespace

int main(int argc, char** argv) {
  Suite suite;
  suite.property = "P21";
  suite.rule =
      "A case draws a file (as for P09), runs the command-line tool on it at a drawn log level and compares standard output "
      "and exit status with the independent dump; or runs it on a missing, unreadable, truncated or malformed file or with "
      "bad arguments and requires failure without output; or gives it a standard output that cannot take the dump and requires "
      "failure. Non-trivial: at least two boxes, or a failing input.";
  suite.init = [] {
    lib::quiet();
    // the tool may report a failure by an uncaught exception: that is an unsuccessful exit, not a sanitizer finding
    ::setenv("ASAN_OPTIONS", "detect_leaks=0:handle_abort=0:allocator_may_return_null=1", 1);
    const rlimit none{0, 0};
    ::setrlimit(RLIMIT_CORE, &none);
  };
  suite.groups = {
      {"good", 2000, 60000, good},
      {"bad", 1500, 40000, bad},
      {"lost_output", 800, 20000, lost_output},
  };
  return run_main(argc, argv, suite);
}
