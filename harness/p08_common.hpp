// One execution of the file reader over arbitrary bytes, with accounting of memory and CPU time.
#pragma once
#include <ctime>

#include <iostream>
#include <sstream>
#include <streambuf>
#include <string>

#include "pbt.hpp"
#include "shiguredo/mp4/reader/reader.hpp"

namespace p08 {

struct Run {
  bool accepted = false;
  std::string error;
  std::uint64_t peak = 0, largest = 0;
  std::int64_t leaked = 0;
  double cpu = 0;
};

// limits: constants far above what any input of that size needs, far below what a believed claim costs
inline std::uint64_t memory_limit(std::size_t n) { return 64000 + 1200 * static_cast<std::uint64_t>(n); }
inline double cpu_limit(std::size_t n) { return 0.5 + 150e-6 * static_cast<double>(n); }

inline double cpu_now() {
  timespec t{};
  clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t);
  return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}

inline Run read_once(std::istream& is) {
  Run r;
  std::string err;
  err.reserve(1024);
  const std::uint64_t live = pbt::mem_live();
  const double t0 = cpu_now();
  pbt::mem_reset();
  {
    shiguredo::mp4::reader::SimpleReader reader(is);
    try {
      reader.read();
      r.accepted = true;
    } catch (const std::exception& e) {
      err.assign(e.what(), std::min<std::size_t>(std::char_traits<char>::length(e.what()), 1000));
    }
  }
  r.peak = pbt::mem_peak();
  r.largest = pbt::mem_largest();
  r.leaked = static_cast<std::int64_t>(pbt::mem_live()) - static_cast<std::int64_t>(live);
  r.cpu = cpu_now() - t0;
  r.error = err;
  return r;
}

// takes the dump and forgets it
struct Sink : std::streambuf {
  int overflow(int c) override { return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
inline void forget_stdout() {
  static Sink sink;
  std::cout.rdbuf(&sink);
}

// "" or what is wrong; never throws for std::exception
inline std::string examine(const std::string& bytes, Run* out = nullptr) {
  auto once = [&] {
    std::istringstream is(bytes);
    return read_once(is);
  };
  Run r = once();
  if (out) *out = r;
  const std::size_t n = bytes.size();
  if (r.largest > memory_limit(n)) return "a single allocation of " + std::to_string(r.largest) + " bytes for an input of " + std::to_string(n) + " bytes";
  if (r.peak > memory_limit(n)) return std::to_string(r.peak) + " bytes of memory for an input of " + std::to_string(n) + " bytes";
  if (r.cpu > cpu_limit(n)) {
    Run again = once();
    if (again.cpu > cpu_limit(n)) return "CPU time of " + std::to_string(again.cpu) + " s for an input of " + std::to_string(n) + " bytes";
  }
  if (r.leaked > 0) {
    // one-time caches are not leaks
    if (once().leaked > 0 && once().leaked > 0) return "memory is leaked: " + std::to_string(r.leaked) + " bytes";
  }
  return "";
}

}  // namespace p08
