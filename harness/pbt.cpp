#include "pbt.hpp"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <new>
#include <set>
#include <sstream>

// ---------------------------------------------------------------------------------------------------------------
// memory accounting
namespace {
std::atomic<std::uint64_t> g_live{0}, g_peak{0}, g_base{0}, g_largest{0};
std::atomic<std::uint64_t> g_limit{3ULL << 30};
std::atomic<int> g_fill{-1};
constexpr std::size_t HDR = 16;

void* acc_new(std::size_t n, std::size_t align) {
  const std::uint64_t live = g_live.load(std::memory_order_relaxed);
  if (n > g_largest.load(std::memory_order_relaxed)) g_largest.store(n, std::memory_order_relaxed);
  if (n > g_limit.load(std::memory_order_relaxed) || live + n > g_limit.load(std::memory_order_relaxed)) {
    throw std::bad_alloc();
  }
  // The block handed out is the malloc block itself (so sanitizers see exact bounds); its size is looked up on
  // release through malloc_usable_size-like bookkeeping: a separate header would hide underflows.
  void* p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  const int fill = g_fill.load(std::memory_order_relaxed);
  if (fill >= 0) memset(p, fill, n);
  return p;
}
}  // namespace
extern "C" std::size_t malloc_usable_size(void*) noexcept;
namespace {
void* counted(std::size_t n, std::size_t align = 16) {
  void* p = acc_new(n, align);
  const std::uint64_t u = malloc_usable_size(p);
  const std::uint64_t live = g_live.fetch_add(u, std::memory_order_relaxed) + u;
  if (live > g_peak.load(std::memory_order_relaxed)) g_peak.store(live, std::memory_order_relaxed);
  return p;
}
void uncounted(void* p) {
  if (!p) return;
  g_live.fetch_sub(malloc_usable_size(p), std::memory_order_relaxed);
  free(p);
}
}  // namespace
// ThreadSanitizer brings operators of its own, and no test under it measures memory
#if !defined(__has_feature)
#define __has_feature(x) 0
#endif
#if !__has_feature(thread_sanitizer)
void* operator new(std::size_t n) { return counted(n); }
void* operator new[](std::size_t n) { return counted(n); }
void* operator new(std::size_t n, std::align_val_t a) { return counted(n, static_cast<std::size_t>(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return counted(n, static_cast<std::size_t>(a)); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept {
  try {
    return counted(n);
  } catch (...) {
    return nullptr;
  }
}
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept {
  try {
    return counted(n);
  } catch (...) {
    return nullptr;
  }
}
void operator delete(void* p) noexcept { uncounted(p); }
void operator delete[](void* p) noexcept { uncounted(p); }
void operator delete(void* p, std::size_t) noexcept { uncounted(p); }
void operator delete[](void* p, std::size_t) noexcept { uncounted(p); }
void operator delete(void* p, std::align_val_t) noexcept { uncounted(p); }
void operator delete[](void* p, std::align_val_t) noexcept { uncounted(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { uncounted(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { uncounted(p); }
#endif

namespace pbt {

void mem_set_fill(int byte) { g_fill.store(byte); }
void mem_reset() {
  g_base = g_live.load();
  g_peak = g_live.load();
  g_largest = 0;
}
std::uint64_t mem_live() { return g_live.load(); }
std::uint64_t mem_peak() { return g_peak.load() - g_base.load(); }
std::uint64_t mem_largest() { return g_largest.load(); }
void mem_set_limit(std::uint64_t b) { g_limit = b; }

// ---------------------------------------------------------------------------------------------------------------
std::uint64_t mix(std::uint64_t a, std::uint64_t b) {
  std::uint64_t z = a * 0x9e3779b97f4a7c15ULL + b + 0x632be59bd9b4e019ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
std::uint64_t hash_bytes(const void* p, std::size_t n, std::uint64_t h) {
  const auto* c = static_cast<const std::uint8_t*>(p);
  for (std::size_t i = 0; i < n; ++i) {
    h ^= c[i];
    h *= 0x100000001b3ULL;
  }
  return h;
}
std::uint64_t Rng::next() {
  s += 0x9e3779b97f4a7c15ULL;
  std::uint64_t z = s;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

Src::Src(std::uint64_t seed, std::uint64_t* sb, std::uint64_t cap, volatile std::uint64_t* sl)
    : m_replay(false), m_rng{seed}, m_shared(sb), m_cap(cap), m_shared_len(sl) {
  if (m_shared_len) *m_shared_len = 0;
}
Src::Src(const std::vector<std::uint64_t>& choices) : m_replay(true), m_in(choices) {}

std::uint64_t Src::raw(std::uint64_t n) {
  std::uint64_t v;
  if (m_rec.size() >= fold_after) {
    // the tail of a very long case comes from one recorded draw, so that recording and shrinking stay affordable
    if (m_rec.size() == fold_after) {
      v = m_replay ? (m_pos < m_in.size() ? m_in[m_pos] : 0) : m_rng.next();
      ++m_pos;
      m_fold.s = keep(v);
    }
    if (m_fold.s == 0) return 0;
    v = m_fold.next();
    return n == 0 ? v : static_cast<std::uint64_t>((static_cast<unsigned __int128>(v) * n) >> 64);
  }
  if (m_replay) {
    v = m_pos < m_in.size() ? m_in[m_pos] : 0;
    ++m_pos;
    if (n != 0 && v >= n) v = v % n;
  } else {
    v = m_rng.next();
    if (n != 0) v = static_cast<std::uint64_t>((static_cast<unsigned __int128>(v) * n) >> 64);
  }
  return keep(v);
}
std::uint64_t Src::enumerate(std::uint64_t n) {
  if (m_replay || m_rec.size() >= fold_after) return raw(n);
  return keep(m_index % n);
}
std::uint64_t Src::keep(std::uint64_t v) {
  if (m_shared && m_rec.size() < m_cap) {
    m_shared[m_rec.size()] = v;
    *m_shared_len = m_rec.size() + 1;
  }
  m_rec.push_back(v);
  return v;
}
std::uint64_t Src::below(std::uint64_t n) { return n == 1 ? 0 : raw(n); }
std::uint64_t Src::range(std::uint64_t lo, std::uint64_t hi) { return lo + below(hi - lo + 1); }
std::int64_t Src::irange(std::int64_t lo, std::int64_t hi) {
  return static_cast<std::int64_t>(static_cast<std::uint64_t>(lo) +
                                   below(static_cast<std::uint64_t>(hi) - static_cast<std::uint64_t>(lo) + 1));
}
bool Src::chance(std::uint64_t num, std::uint64_t den) { return below(den) >= den - num; }
std::uint64_t Src::bits(unsigned w) {
  const std::uint64_t mask = w >= 64 ? ~0ULL : ((1ULL << w) - 1);
  switch (below(8)) {
    case 0:
      return below(4) & mask;
    case 1:
      return mask - (below(4) & mask);
    case 2: {  // around a power of two
      const std::uint64_t p = 1ULL << below(w);
      return (p + below(3) - 1) & mask;
    }
    case 3: {  // distinct bytes: exposes swaps and truncations
      std::uint64_t v = 0;
      const std::uint64_t b = range(1, 200);
      for (unsigned i = 0; i < 8; ++i) v = (v << 8) | ((b + i * 7) & 0xff);
      return v & mask;
    }
    default:
      return raw(0) & mask;
  }
}
std::int64_t Src::sbits(unsigned w) {
  std::uint64_t v = bits(w);
  if (w < 64 && ((v >> (w - 1)) & 1)) v |= ~0ULL << w;
  return static_cast<std::int64_t>(v);
}
std::uint64_t Src::upto(std::uint64_t max) {
  if (max == 0) return 0;
  switch (below(6)) {
    case 0:
      return below(std::min<std::uint64_t>(max, 7) + 1);
    case 1:
      return max - below(std::min<std::uint64_t>(max, 3) + 1);
    case 2: {
      unsigned w = 0;
      while (w < 63 && (max >> (w + 1))) ++w;
      const std::uint64_t v = (1ULL << below(w + 1)) + below(3) - 1;
      return v > max ? max : v;
    }
    default:
      return max == ~0ULL ? raw(0) : below(max + 1);
  }
}
std::size_t Src::size(std::size_t typical, std::size_t max) {
  if (typical > max) typical = max;
  switch (below(16)) {
    case 0:
      return 0;
    case 1:
    case 2:
      return std::min<std::size_t>(1, max);
    case 13: {  // around a power of two or byte limit
      const std::size_t v = (std::size_t{1} << below(20)) + below(3) - 1;
      return v > max ? below(typical + 1) : v;
    }
    case 14:
      return max < 70000 ? (max - below(std::min<std::size_t>(max, 2) + 1)) : below(typical * 8 + 1 > max ? max + 1 : typical * 8 + 1);
    case 15:
      return below(std::min(max, typical * 16) + 1);
    default:
      return below(typical + 1);
  }
}
Bytes Src::bytes(std::size_t n) {
  Bytes b(n);
  if (n == 0) return b;
  const std::uint64_t mode = below(6);
  if (mode == 0) {
    return b;  // zeros
  }
  if (mode == 1) {
    std::fill(b.begin(), b.end(), static_cast<std::uint8_t>(0xff));
    return b;
  }
  if (mode == 2 && n <= 64) {
    for (auto& c : b) c = static_cast<std::uint8_t>(bits(8));
    return b;
  }
  Rng r{below(0)};
  for (std::size_t i = 0; i < n;) {
    std::uint64_t v = r.next();
    for (int k = 0; k < 8 && i < n; ++k, ++i) {
      b[i] = static_cast<std::uint8_t>(v);
      v >>= 8;
    }
  }
  return b;
}
std::string Src::text(std::size_t n) {
  Bytes b = bytes(n);
  for (auto& c : b) {
    if (c == 0) c = 'a';
  }
  return std::string(b.begin(), b.end());
}
std::string Src::printable(std::size_t n) {
  Bytes b = bytes(n);
  for (auto& c : b) c = static_cast<std::uint8_t>(0x20 + c % 0x5f);
  return std::string(b.begin(), b.end());
}

// ---------------------------------------------------------------------------------------------------------------
std::string hex(const Bytes& b, std::size_t max) {
  std::string s;
  char buf[4];
  for (std::size_t i = 0; i < b.size() && i < max; ++i) {
    std::snprintf(buf, sizeof buf, "%02x", b[i]);
    s += buf;
  }
  if (b.size() > max) s += "...(" + std::to_string(b.size()) + " bytes)";
  return s;
}
void fail(const std::string& msg) { throw Failure{msg}; }
std::string excerpt(const std::string& a, std::size_t around, std::size_t len) {
  const std::size_t b = around > len / 2 ? around - len / 2 : 0;
  if (b >= a.size()) return "<end>";
  return (b ? "..." : "") + a.substr(b, len) + (b + len < a.size() ? "..." : "");
}
std::string diff(const std::string& e, const std::string& a) {
  std::size_t i = 0;
  while (i < e.size() && i < a.size() && e[i] == a[i]) ++i;
  return "first difference at " + std::to_string(i) + " (lengths " + std::to_string(e.size()) + " and " +
         std::to_string(a.size()) + ")\n  expected: " + excerpt(e, i) + "\n  actual:   " + excerpt(a, i);
}
std::string diff(const Bytes& e, const Bytes& a) {
  std::size_t i = 0;
  while (i < e.size() && i < a.size() && e[i] == a[i]) ++i;
  const std::size_t b = i > 16 ? i - 16 : 0;
  auto sub = [&](const Bytes& x) {
    return b >= x.size() ? std::string("<end>") : hex(Bytes(x.begin() + static_cast<std::ptrdiff_t>(b), x.end()), 48);
  };
  return "first difference at byte " + std::to_string(i) + " (lengths " + std::to_string(e.size()) + " and " +
         std::to_string(a.size()) + "); from byte " + std::to_string(b) + "\n  expected: " + sub(e) +
         "\n  actual:   " + sub(a);
}

CaptureStdout::CaptureStdout() {
  std::cout.flush();
  std::fflush(stdout);
  m_saved = dup(1);
  m_fd = memfd_create("out", 0);
  dup2(m_fd, 1);
}
std::string CaptureStdout::finish() {
  std::cout.flush();
  std::fflush(stdout);
  std::string s;
  if (m_fd >= 0) {
    dup2(m_saved, 1);
    close(m_saved);
    const off_t n = lseek(m_fd, 0, SEEK_END);
    s.resize(static_cast<std::size_t>(n));
    std::size_t got = 0;
    while (got < s.size()) {
      const ssize_t r = pread(m_fd, s.data() + got, s.size() - got, static_cast<off_t>(got));
      if (r <= 0) break;
      got += static_cast<std::size_t>(r);
    }
    close(m_fd);
    m_fd = -1;
  }
  return s;
}
CaptureStdout::~CaptureStdout() {
  if (m_fd >= 0) finish();
}

// ---------------------------------------------------------------------------------------------------------------
namespace {
std::string g_scratch_root;
pid_t g_scratch_owner = -1;
std::string g_scratch;
}  // namespace

std::string scratch_dir() {
  if (g_scratch_owner != getpid()) {
    g_scratch = g_scratch_root + "/p" + std::to_string(getpid());
    mkdir(g_scratch.c_str(), 0700);
    g_scratch_owner = getpid();
  }
  return g_scratch;
}

namespace {

constexpr std::uint64_t CAP = 1ULL << 22;
struct Slot {
  volatile std::uint64_t group;
  volatile std::uint64_t index;
  volatile std::uint64_t running;
  volatile std::uint64_t len;
  std::uint64_t choices[CAP];
};

double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9;
}

std::string json_escape(const std::string& s) {
  std::string o;
  char buf[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c < 0x20 || c >= 0x7f) {
      std::snprintf(buf, sizeof buf, "\\u%04x", c);
      o += buf;
    } else {
      o += static_cast<char>(c);
    }
  }
  return o;
}

unsigned g_cpu_limit_override = 0;

void set_cpu_limit(unsigned s) {
  itimerval it{};
  it.it_value.tv_sec = s;
  setitimer(ITIMER_PROF, &it, nullptr);
}

enum { RC_PASS = 0, RC_FAIL = 3, RC_HARNESS = 4 };

// runs one case; returns empty string when it holds
bool run_case(const Group& g, Src& src, Ctx& ctx, std::string* msg) {
  set_cpu_limit(g_cpu_limit_override != 0 ? g_cpu_limit_override : g.cpu_limit_s);
  bool ok = true;
  try {
    g.fn(src, ctx);
  } catch (const Failure& f) {
    *msg = f.msg;
    ok = false;
  } catch (const std::exception& e) {
    *msg = std::string("unexpected exception: ") + e.what();
    ok = false;
  } catch (...) {
    *msg = "unexpected exception of unknown type";
    ok = false;
  }
  set_cpu_limit(0);
  return ok;
}

struct GroupStats {
  std::uint64_t evals = 0, sub = 0, nontrivial = 0;
  std::map<std::string, std::uint64_t> labels;
};

void write_choices(const std::string& path, const std::vector<std::uint64_t>& c) {
  std::ofstream f(path);
  for (auto v : c) f << v << "\n";
}

std::string tail_file(const std::string& path, std::size_t max = 6000) {
  std::ifstream f(path);
  std::stringstream ss;
  ss << f.rdbuf();
  std::string s = ss.str();
  return s.size() > max ? s.substr(0, max) + "\n...(cut)" : s;
}

struct Outcome {
  bool failed;
  std::string msg;
  bool hang = false;
};

// replay in a child; captures message
Outcome replay_forked(const Suite& suite, const Group& g, const std::vector<std::uint64_t>& choices,
                      const std::string& root, unsigned cpu_limit_s = 0) {
  const std::string mf = root + "/replay.msg", ef = root + "/replay.err";
  unlink(mf.c_str());
  std::cout.flush();
  std::fflush(stdout);
  const pid_t pid = fork();
  if (pid == 0) {
    int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 2);
    dup2(fd, 1);
    if (suite.init) suite.init();
    if (cpu_limit_s != 0) g_cpu_limit_override = cpu_limit_s;
    Src s(choices);
    Ctx c;
    std::string msg;
    const bool ok = run_case(g, s, c, &msg);
    if (!ok) {
      std::ofstream f(mf);
      f << msg << "\n" << (c.notes.empty() ? "" : "case: " + c.notes);
    }
    _exit(ok ? RC_PASS : RC_FAIL);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  const std::string child = g_scratch_root + "/p" + std::to_string(pid);
  if (system(("rm -rf '" + child + "'").c_str()) != 0) {
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == RC_PASS) return {false, ""};
  std::string m;
  bool hang = false;
  if (WIFEXITED(st) && WEXITSTATUS(st) == RC_FAIL) {
    m = tail_file(mf);
  } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) {
    hang = true;
    m = "case exceeded its CPU limit of " + std::to_string(g.cpu_limit_s) + " s (hang)";
  } else if (WIFSIGNALED(st)) {
    m = "case died with signal " + std::to_string(WTERMSIG(st)) + "\n" + tail_file(ef);
  } else {
    m = "case ended the process with status " + std::to_string(WEXITSTATUS(st)) + "\n" + tail_file(ef);
  }
  return {true, m, hang};
}

// a run of generated cases in one child: for failures that need what earlier cases left behind
struct Sequence {
  std::uint64_t seed = 0, step = 1, from = 0, to = 0;
};
std::uint64_t seed_of(std::uint64_t seed, const Group& g, std::uint64_t idx) {
  return mix(mix(seed, hash_bytes(g.name.data(), g.name.size())), idx);
}
Outcome replay_sequence(const Suite& suite, const Group& g, const Sequence& q, const std::string& root) {
  const std::string mf = root + "/replay.msg", ef = root + "/replay.err";
  unlink(mf.c_str());
  std::cout.flush();
  std::fflush(stdout);
  const pid_t pid = fork();
  if (pid == 0) {
    int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 2);
    dup2(fd, 1);
    if (suite.init) suite.init();
    for (std::uint64_t idx = q.from; idx <= q.to; idx += q.step) {
      Src s(seed_of(q.seed, g, idx));
      s.set_index(idx);
      Ctx c;
      std::string msg;
      if (!run_case(g, s, c, &msg)) {
        std::ofstream f(mf);
        f << msg << "\n(in case " << idx << " of a run of cases in one process)\n" << (c.notes.empty() ? "" : "case: " + c.notes);
        f.close();
        _exit(RC_FAIL);
      }
    }
    _exit(RC_PASS);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  const std::string child = g_scratch_root + "/p" + std::to_string(pid);
  if (system(("rm -rf '" + child + "'").c_str()) != 0) {
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == RC_PASS) return {false, ""};
  if (WIFEXITED(st) && WEXITSTATUS(st) == RC_FAIL) return {true, tail_file(mf)};
  return {true, "a run of cases died with wait status " + std::to_string(st) + "\n" + tail_file(ef)};
}

std::vector<std::uint64_t> shrink(const Suite& suite, const Group& g, std::vector<std::uint64_t> c,
                                  const std::string& root, double budget_s, unsigned cpu_limit_s) {
  const double t0 = now();
  unsigned tries = 0;
  auto bad = [&](const std::vector<std::uint64_t>& x) {
    ++tries;
    return replay_forked(suite, g, x, root, cpu_limit_s).failed;
  };
  auto over = [&] { return now() - t0 > budget_s || tries > 3000; };
  // drop trailing draws (missing draws are 0)
  bool progress = true;
  while (progress && !over()) {
    progress = false;
    // delete spans
    for (std::size_t span = std::max<std::size_t>(c.size() / 2, 1); span >= 1 && !over(); span /= 2) {
      for (std::size_t i = 0; i + span <= c.size() && !over();) {
        std::vector<std::uint64_t> x = c;
        x.erase(x.begin() + static_cast<std::ptrdiff_t>(i), x.begin() + static_cast<std::ptrdiff_t>(i + span));
        if (bad(x)) {
          c = x;
          progress = true;
        } else {
          i += span;
        }
      }
      if (span == 1) break;
    }
    // zero spans
    for (std::size_t span = std::max<std::size_t>(c.size() / 2, 1); span >= 1 && !over(); span /= 2) {
      for (std::size_t i = 0; i + span <= c.size() && !over(); i += span) {
        std::vector<std::uint64_t> x = c;
        bool any = false;
        for (std::size_t k = i; k < i + span; ++k) {
          any = any || x[k];
          x[k] = 0;
        }
        if (any && bad(x)) {
          c = x;
          progress = true;
        }
      }
      if (span == 1) break;
    }
    // minimise values
    for (std::size_t i = 0; i < c.size() && !over(); ++i) {
      std::uint64_t lo = 0;  // known not failing (0 was tried above)
      while (c[i] > lo + 1 && !over()) {
        const std::uint64_t mid = lo + (c[i] - lo) / 2;
        std::vector<std::uint64_t> x = c;
        x[i] = mid;
        if (bad(x)) {
          c = x;
          progress = true;
        } else {
          lo = mid;
        }
      }
    }
    while (!c.empty() && c.back() == 0) c.pop_back();
  }
  return c;
}

}  // namespace

int run_main(int argc, char** argv, const Suite& suite) {
  std::string tier = "quick", out, replay_dir = ".", replay_file, only;
  std::uint64_t seed = 1;
  unsigned jobs = 8;
  double scale = 1.0, max_s = 780, shrink_s = 25;
  for (int i = 1; i + 1 < argc; i += 2) {
    const std::string a = argv[i], v = argv[i + 1];
    if (a == "--tier") tier = v;
    if (a == "--seed") seed = std::strtoull(v.c_str(), nullptr, 10);
    if (a == "--out") out = v;
    if (a == "--replay-dir") replay_dir = v;
    if (a == "--replay") replay_file = v;
    if (a == "--jobs") jobs = static_cast<unsigned>(std::atoi(v.c_str()));
    if (a == "--shrink-seconds") shrink_s = std::atof(v.c_str());
    if (a == "--only") only = v;
    if (a == "--scale") scale = std::atof(v.c_str());
    if (a == "--max-seconds") max_s = std::atof(v.c_str());
  }
  char tmpl[] = "/tmp/vpbt.XXXXXX";
  if (const char* d = getenv("PBT_SCRATCH")) {
    g_scratch_root = std::string(d) + "/vpbt." + std::to_string(getpid());
    mkdir(g_scratch_root.c_str(), 0700);
  } else {
    g_scratch_root = mkdtemp(tmpl);
  }
  const std::string root = g_scratch_root;
  auto cleanup = [&] {
    if (system(("rm -rf '" + root + "'").c_str()) != 0) {
    }
  };

  if (!replay_file.empty()) {
    std::ifstream f(replay_file);
    std::string word, group;
    std::vector<std::uint64_t> choices;
    std::string line;
    Sequence seq;
    bool have_seq = false;
    while (std::getline(f, line)) {
      if (line.rfind("sequence=", 0) == 0) {
        std::stringstream ss(line.substr(9));
        ss >> seq.seed >> seq.step >> seq.from >> seq.to;
        have_seq = true;
      }
      if (line.rfind("group=", 0) == 0) group = line.substr(6);
      if (line.rfind("choices=", 0) == 0) {
        std::stringstream ss(line.substr(8));
        std::uint64_t v;
        while (ss >> v) choices.push_back(v);
      }
    }
    for (const auto& g : suite.groups) {
      if (g.name != group) continue;
      const Outcome o = have_seq ? replay_sequence(suite, g, seq, root) : replay_forked(suite, g, choices, root);
      if (o.failed) {
        std::cout << "FAILS: " << o.msg << std::endl;
      } else {
        std::cout << "HOLDS" << std::endl;
      }
      cleanup();
      return o.failed ? 1 : 0;
    }
    std::cerr << "no group " << group << "\n";
    cleanup();
    return 2;
  }

  {
    std::error_code ec;
    std::filesystem::create_directories(replay_dir, ec);
  }
  const double t0 = now();
  auto* slots = static_cast<Slot*>(mmap(nullptr, sizeof(Slot) * jobs, PROT_READ | PROT_WRITE,
                                        MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  auto* stop = static_cast<volatile int*>(
      mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  *stop = 0;
  auto total_of = [&](const Group& g) {
    const auto n = static_cast<std::uint64_t>(static_cast<double>(tier == "quick" ? g.quick : g.thorough) * scale);
    return std::max<std::uint64_t>(n, 1);
  };
  auto case_seed = [&](std::size_t gi, std::uint64_t idx) {
    return seed_of(seed, suite.groups[gi], idx);
  };
  std::cout.flush();
  std::vector<pid_t> pids(jobs);
  for (unsigned w = 0; w < jobs; ++w) {
    const pid_t pid = fork();
    if (pid == 0) {
      const std::string base = root + "/w" + std::to_string(w);
      int fd = open((base + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
      dup2(fd, 2);
      int nul = open("/dev/null", O_WRONLY);
      dup2(nul, 1);
      if (suite.init) suite.init();
      std::vector<GroupStats> gs(suite.groups.size());
      std::vector<std::uint64_t> fps;
      std::set<std::uint64_t> seen;
      std::vector<std::string> samples;
      Slot& slot = slots[w];
      bool timed_out = false;
      for (std::size_t gi = 0; gi < suite.groups.size(); ++gi) {
        const Group& g = suite.groups[gi];
        if (!only.empty() && g.name != only) continue;
        const std::uint64_t n = total_of(g);
        std::size_t group_samples = 0;
        for (std::uint64_t idx = w; idx < n; idx += jobs) {
          if (*stop) break;
          if (now() - t0 > max_s) {
            timed_out = true;
            break;
          }
          slot.group = gi;
          slot.index = idx;
          slot.running = 1;
          Src src(case_seed(gi, idx), slot.choices, CAP, &slot.len);
          src.set_index(idx);
          Ctx ctx;
          std::string msg;
          const bool ok = run_case(g, src, ctx, &msg);
          slot.running = 0;
          gs[gi].evals++;
          gs[gi].sub += ctx.sub_evals;
          for (const auto& l : ctx.labels) gs[gi].labels[l]++;
          if (ctx.is_nontrivial) {
            gs[gi].nontrivial++;
            const std::uint64_t fp = mix(
                gi, ctx.have_fp ? ctx.fp
                                : hash_bytes(src.record().data(), src.record().size() * sizeof(std::uint64_t)));
            if (seen.insert(fp).second) fps.push_back(fp);
            if (group_samples < 2 && !ctx.sample_text.empty() && idx > n / 3) {
              samples.push_back(g.name + ": " + ctx.sample_text);
              ++group_samples;
            }
          }
          if (!ok) {
            std::ofstream f(base + ".fail");
            f << gi << "\n" << idx << "\n";
            for (auto v : src.record()) f << v << " ";
            f << "\n" << msg << "\n";
            f.close();
            *stop = 1;
            break;
          }
        }
      }
      std::ofstream f(base + ".stats");
      f << (timed_out ? 1 : 0) << "\n";
      for (std::size_t gi = 0; gi < gs.size(); ++gi) {
        f << "G " << gi << " " << gs[gi].evals << " " << gs[gi].sub << " " << gs[gi].nontrivial << "\n";
        for (const auto& [l, c] : gs[gi].labels) f << "L " << gi << " " << c << " " << l << "\n";
      }
      for (const auto& s : samples) f << "S " << json_escape(s) << "\n";
      f.close();
      std::ofstream h(base + ".fps", std::ios::binary);
      h.write(reinterpret_cast<const char*>(fps.data()), static_cast<std::streamsize>(fps.size() * 8));
      h.close();
      _exit(std::ifstream(base + ".fail").good() ? RC_FAIL : RC_PASS);
    }
    pids[w] = pid;
  }

  struct Fail {
    std::size_t gi;
    std::uint64_t idx;
    std::vector<std::uint64_t> choices;
  };
  std::vector<Fail> fails;
  std::vector<std::string> notes;
  std::vector<int> ended(jobs, -1);
  std::vector<bool> cut(jobs, false);
  double stopped_at = 0;
  for (unsigned left = jobs; left > 0;) {  // in whatever order they end: the first that fails stops the others
    int st = 0;
    const pid_t pid = waitpid(-1, &st, *stop ? WNOHANG : 0);
    if (pid < 0) break;
    if (pid == 0) {  // a failure is known; the others may finish their case, within reason
      if (stopped_at == 0) stopped_at = now();
      if (now() - stopped_at > 15) {
        for (unsigned w = 0; w < jobs; ++w) {
          if (ended[w] < 0 && !cut[w]) {
            cut[w] = true;
            kill(pids[w], SIGKILL);
          }
        }
      }
      usleep(20000);
      continue;
    }
    const auto it = std::find(pids.begin(), pids.end(), pid);
    if (it == pids.end()) continue;
    ended[static_cast<std::size_t>(it - pids.begin())] = st;
    --left;
    if (!WIFEXITED(st) || WEXITSTATUS(st) != RC_PASS) *stop = 1;
  }
  for (unsigned w = 0; w < jobs; ++w) {
    const int st = ended[w];
    const std::string base = root + "/w" + std::to_string(w);
    if (cut[w] && WIFSIGNALED(st)) continue;
    if (WIFEXITED(st) && WEXITSTATUS(st) == RC_PASS) continue;
    *stop = 1;
    if (WIFEXITED(st) && WEXITSTATUS(st) == RC_FAIL && std::ifstream(base + ".fail").good()) {
      std::ifstream f(base + ".fail");
      Fail x;
      std::string line;
      f >> x.gi >> x.idx;
      std::getline(f, line);
      std::getline(f, line);
      std::stringstream ss(line);
      std::uint64_t v;
      while (ss >> v) x.choices.push_back(v);
      fails.push_back(x);
    } else if (slots[w].running) {
      Fail x;
      x.gi = slots[w].group;
      x.idx = slots[w].index;
      x.choices.assign(slots[w].choices, slots[w].choices + slots[w].len);
      fails.push_back(x);
    } else {
      notes.push_back("worker " + std::to_string(w) + " ended abnormally outside a case, wait status " +
                      std::to_string(st) + ": " + tail_file(base + ".err", 1500));
    }
  }

  // aggregate
  std::vector<GroupStats> gs(suite.groups.size());
  std::set<std::uint64_t> fps;
  std::vector<std::string> samples;
  bool timed_out = false;
  for (unsigned w = 0; w < jobs; ++w) {
    const std::string base = root + "/w" + std::to_string(w);
    std::ifstream f(base + ".stats");
    std::string line;
    int to = 0;
    if (std::getline(f, line)) to = std::atoi(line.c_str());
    timed_out = timed_out || to;
    while (std::getline(f, line)) {
      std::stringstream ss(line);
      std::string k;
      ss >> k;
      if (k == "G") {
        std::size_t gi;
        std::uint64_t a, b, c;
        ss >> gi >> a >> b >> c;
        gs[gi].evals += a;
        gs[gi].sub += b;
        gs[gi].nontrivial += c;
      } else if (k == "L") {
        std::size_t gi;
        std::uint64_t c;
        ss >> gi >> c;
        std::string l;
        std::getline(ss, l);
        gs[gi].labels[l.substr(1)] += c;
      } else if (k == "S") {
        samples.push_back(line.substr(2));
      }
    }
    std::ifstream h(base + ".fps", std::ios::binary);
    std::uint64_t v;
    while (h.read(reinterpret_cast<char*>(&v), 8)) fps.insert(v);
  }
  // keep at most 2 samples per group
  std::map<std::string, int> per;
  std::vector<std::string> kept;
  for (const auto& s : samples) {
    const auto g = s.substr(0, s.find(':'));
    if (per[g]++ < 2 && kept.size() < 24) kept.push_back(s);
  }

  int violations = 0;
  std::string vmsg, vpath;
  std::sort(fails.begin(), fails.end(),
            [](const Fail& a, const Fail& b) { return std::pair(a.gi, a.idx) < std::pair(b.gi, b.idx); });
  for (const auto& x : fails) {
    const Group& g = suite.groups[x.gi];
    bool hung = false;
    auto confirmed = [&](const std::vector<std::uint64_t>& c, std::string* m) {
      const double c0 = now();
      for (int i = 0; i < 3; ++i) {
        const Outcome o = replay_forked(suite, g, c, root);
        if (!o.failed) return false;
        *m = o.msg;
        hung = o.hang;
        if (hung || now() - c0 > 20) break;  // each try takes that long
      }
      return true;
    };
    std::string m;
    if (!confirmed(x.choices, &m)) {
      // not by itself: with the cases that ran before it in the same process?
      const double s0 = now();
      bool found = false;
      Sequence q{seed, jobs, x.idx, x.idx};
      const std::uint64_t before = x.idx / jobs;
      for (std::uint64_t k = 1;; k *= 2) {
        const std::uint64_t kk = std::min(k, before);
        q.from = x.idx - kk * jobs;
        const Outcome o = replay_sequence(suite, g, q, root);
        if (o.failed && replay_sequence(suite, g, q, root).failed && replay_sequence(suite, g, q, root).failed) {
          m = o.msg;
          found = true;
          break;
        }
        if (kk == before || now() - s0 > 240) break;
      }
      if (found) {
        ++violations;
        char name[256];
        std::snprintf(name, sizeof name, "%s/%s-%s-run-%016llx.replay", replay_dir.c_str(), suite.property.c_str(),
                      g.name.c_str(), static_cast<unsigned long long>(mix(q.from, q.to)));
        std::ofstream f(name);
        f << "property=" << suite.property << "\ngroup=" << g.name << "\nsequence=" << q.seed << " " << q.step << " "
          << q.from << " " << q.to << "\n\n" << m << "\n";
        f.close();
        vpath = name;
        vmsg = m;
        break;
      }
      notes.push_back("a failure of group " + g.name + " index " + std::to_string(x.idx) +
                      " did not reproduce in three replays and is not reported");
      continue;
    }
    auto small = shrink(suite, g, x.choices, root, shrink_s, hung ? std::min(g.cpu_limit_s, 8u) : 0);
    std::string ms;
    if (confirmed(small, &ms)) {
      m = ms;
    } else {
      small = x.choices;
    }
    ++violations;
    char name[256];
    std::uint64_t hh = hash_bytes(small.data(), small.size() * 8);
    std::snprintf(name, sizeof name, "%s/%s-%s-%016llx.replay", replay_dir.c_str(), suite.property.c_str(),
                  g.name.c_str(), static_cast<unsigned long long>(hh));
    std::ofstream f(name);
    f << "property=" << suite.property << "\ngroup=" << g.name << "\nseed=" << seed << "\nindex=" << x.idx
      << "\nchoices=";
    for (auto v : small) f << v << " ";
    f << "\n\n" << m << "\n";
    f.close();
    vpath = name;
    vmsg = m;
    break;  // one is enough
  }

  const double wall = now() - t0;
  if (!out.empty()) {
    std::ofstream f(out);
    std::uint64_t ev = 0, sub = 0, nt = 0;
    for (const auto& g : gs) {
      ev += g.evals;
      sub += g.sub;
      nt += g.nontrivial;
    }
    f << "{\n \"property\": \"" << suite.property << "\",\n \"evaluations\": " << ev
      << ",\n \"inner_executions\": " << sub << ",\n \"nontrivial\": " << nt
      << ",\n \"distinct_nontrivial\": " << fps.size() << ",\n \"rule\": \"" << json_escape(suite.rule)
      << "\",\n \"timed_out\": " << (timed_out ? "true" : "false") << ",\n \"violations\": " << violations
      << ",\n \"violation_path\": \"" << json_escape(vpath) << "\",\n \"wall_s\": " << wall << ",\n \"groups\": {";
    bool first = true;
    for (std::size_t gi = 0; gi < gs.size(); ++gi) {
      f << (first ? "" : ",") << "\n  \"" << json_escape(suite.groups[gi].name) << "\": {\"evaluations\": "
        << gs[gi].evals << ", \"nontrivial\": " << gs[gi].nontrivial << ", \"labels\": {";
      bool fl = true;
      for (const auto& [l, c] : gs[gi].labels) {
        f << (fl ? "" : ", ") << "\"" << json_escape(l) << "\": " << c;
        fl = false;
      }
      f << "}}";
      first = false;
    }
    f << "\n },\n \"samples\": [";
    first = true;
    for (const auto& s : kept) {
      f << (first ? "" : ",") << "\n  \"" << s << "\"";
      first = false;
    }
    f << "\n ],\n \"assumptions\": [";
    first = true;
    for (const auto& s : suite.assumptions) {
      f << (first ? "" : ",") << "\n  \"" << json_escape(s) << "\"";
      first = false;
    }
    f << "\n ],\n \"notes\": [";
    first = true;
    for (const auto& s : notes) {
      f << (first ? "" : ",") << "\n  \"" << json_escape(s) << "\"";
      first = false;
    }
    f << "\n ]\n}\n";
  }
  for (const auto& n : notes) std::cout << "note: " << n << "\n";
  cleanup();
  if (violations) {
    std::cout << vmsg << "\n";
    std::cout << "VIOLATION property=" << suite.property << " replay=" << vpath << std::endl;
    return 1;
  }
  return 0;
}

}  // namespace pbt
