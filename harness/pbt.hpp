// A small property-based testing engine: every random decision of a case is one recorded draw, so a case is
// replayed from its list of draws and shrunk by editing that list (internal shrinking). 0 is always the simplest
// draw. Cases run in forked workers, so a crash, sanitizer report or hang of the code under test is a result like
// any other and is shrunk in the same way.
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace pbt {

using Bytes = std::vector<std::uint8_t>;

struct Failure {
  std::string msg;
};

std::uint64_t mix(std::uint64_t a, std::uint64_t b);
std::uint64_t hash_bytes(const void* p, std::size_t n, std::uint64_t h = 0xcbf29ce484222325ULL);

struct Rng {
  std::uint64_t s;
  std::uint64_t next();
};

class Src {
 public:
  // generation
  explicit Src(std::uint64_t seed, std::uint64_t* shared_buf = nullptr, std::uint64_t shared_cap = 0,
               volatile std::uint64_t* shared_len = nullptr);
  // replay
  explicit Src(const std::vector<std::uint64_t>& choices);

  // the case's number modulo n while generating (so a group of n cases covers all n values), recorded like a draw
  std::uint64_t enumerate(std::uint64_t n);
  void set_index(std::uint64_t i) { m_index = i; }
  std::uint64_t below(std::uint64_t n);  // uniform in [0,n); n==0: any 64-bit value
  std::uint64_t range(std::uint64_t lo, std::uint64_t hi);
  std::int64_t irange(std::int64_t lo, std::int64_t hi);
  bool chance(std::uint64_t num, std::uint64_t den);  // false is simplest
  bool coin() { return below(2) == 1; }
  std::uint64_t bits(unsigned w);                 // "interesting" w-bit value
  std::int64_t sbits(unsigned w);                 // two's complement w-bit value
  std::uint64_t upto(std::uint64_t max);          // "interesting" value in [0,max]
  std::size_t size(std::size_t typical, std::size_t max);  // mostly small, sometimes up to max
  Bytes bytes(std::size_t n);
  std::string text(std::size_t n);                // no NUL, any other byte
  std::string printable(std::size_t n);
  template <class T>
  T pick(std::initializer_list<T> l) {
    return *(l.begin() + static_cast<std::ptrdiff_t>(below(l.size())));
  }
  template <class C>
  const typename C::value_type& one_of(const C& c) {
    return c[below(c.size())];
  }

  const std::vector<std::uint64_t>& record() const { return m_rec; }

 private:
  std::uint64_t raw(std::uint64_t n);
  std::uint64_t keep(std::uint64_t v);
  std::uint64_t m_index = 0;
  bool m_replay;
  Rng m_rng{0};
  Rng m_fold{0};
  static constexpr std::size_t fold_after = 12000;
  std::vector<std::uint64_t> m_in;
  std::size_t m_pos = 0;
  std::vector<std::uint64_t> m_rec;
  std::uint64_t* m_shared = nullptr;
  std::uint64_t m_cap = 0;
  volatile std::uint64_t* m_shared_len = nullptr;
};

class Ctx {
 public:
  void label(const std::string& l) { labels.push_back(l); }
  void label_if(bool c, const std::string& l) {
    if (c) labels.push_back(l);
  }
  void nontrivial(bool b = true) { is_nontrivial = is_nontrivial || b; }
  void fingerprint(std::uint64_t h) {
    fp = mix(fp, h);
    have_fp = true;
  }
  void sample(const std::string& s) { sample_text = s; }
  void note(const std::string& s) { notes += s + "\n"; }  // shown in a replay file

  std::vector<std::string> labels;
  bool is_nontrivial = false;
  std::uint64_t fp = 0;
  bool have_fp = false;
  std::string sample_text;
  std::string notes;
  std::uint64_t sub_evals = 0;  // extra executions of the code under test inside the case
};

struct Group {
  std::string name;
  std::uint64_t quick;
  std::uint64_t thorough;
  std::function<void(Src&, Ctx&)> fn;
  unsigned cpu_limit_s = 60;
};

struct Suite {
  std::string property;
  std::string rule;
  std::vector<std::string> assumptions;
  std::vector<Group> groups;
  std::function<void()> init;  // once per process
};

int run_main(int argc, char** argv, const Suite& suite);

std::string hex(const Bytes& b, std::size_t max = 96);
[[noreturn]] void fail(const std::string& msg);
std::string excerpt(const std::string& a, std::size_t around, std::size_t len = 160);
std::string diff(const std::string& expected, const std::string& actual);
std::string diff(const Bytes& expected, const Bytes& actual);

// stdout capture at file-descriptor level
class CaptureStdout {
 public:
  CaptureStdout();
  ~CaptureStdout();
  std::string finish();

 private:
  int m_saved = -1;
  int m_fd = -1;
};

// operator new accounting (all binaries replace the global operator new)
void mem_reset();
std::uint64_t mem_live();       // live bytes now
std::uint64_t mem_peak();       // peak live bytes above the level at mem_reset
std::uint64_t mem_largest();    // largest single request since mem_reset
void mem_set_fill(int byte);    // what new memory holds from now on (-1: whatever it held)
void mem_set_limit(std::uint64_t bytes);  // a request that would push live bytes above this throws bad_alloc

std::string scratch_dir();  // per-process scratch directory, removed at exit

#define PBT_CHECK(cond, msg)                                                                 \
  do {                                                                                       \
    if (!(cond)) ::pbt::fail(std::string(msg) + " [" #cond "]");                             \
  } while (0)

}  // namespace pbt
