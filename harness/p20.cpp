// P20: time, byte-order and fixed-point conversions are exact.
#include <stdlib.h>
#include <ctime>

#include "lib.hpp"
#include "shiguredo/mp4/box/elst.hpp"
#include "shiguredo/mp4/box/mdhd.hpp"
#include "shiguredo/mp4/box/mvhd.hpp"
#include "shiguredo/mp4/box/smhd.hpp"
#include "shiguredo/mp4/box/tkhd.hpp"
#include "shiguredo/mp4/endian/endian.hpp"
#include "shiguredo/mp4/time/time.hpp"

using namespace pbt;
using namespace model;

namespace {
namespace endian = shiguredo::mp4::endian;
namespace mtime = shiguredo::mp4::time;
namespace box = shiguredo::mp4::box;

constexpr std::uint64_t UNIX = 2082844800ULL;
constexpr std::uint64_t LAST = UNIX + 0xffffffffULL;

// the rendering is UTC whatever the local time zone
void zone(Src& s, Ctx& c) {
  static const char* zones[] = {"UTC", "XXX-9", "YYY8", "ZZZ-5:45", "EST5EDT,M3.2.0,M11.1.0", "NZST-12NZDT,M9.5.0,M4.1.0/3"};
  const char* z = zones[s.below(6)];
  setenv("TZ", z, 1);
  tzset();
  c.label(std::string("time zone ") + z);
}

void expect(std::uint64_t t) {
  const std::string got = mtime::format_epoch_19040101(t), want = time_text(t);
  if (got != want) fail("time " + std::to_string(t) + " renders as " + got + ", expected " + want);
}

std::uint64_t any_time(Src& s) {
  switch (s.below(7)) {
    case 0: return s.bits(64);
    case 1: return s.upto(LAST);
    case 2: return s.below(LAST + 1);
    case 3: return UNIX + static_cast<std::uint64_t>(s.irange(-100000, 100000));
    case 4: return LAST + static_cast<std::uint64_t>(s.irange(-100000, 100000));
    case 5: {  // around the turn of a year, of February, of a century
      static const std::uint64_t days[] = {0, 59, 60, 365, 366, 24106, 24107, 35123, 35124, 35181, 35182, 35183, 71588, 71647, 71648};
      return days[s.below(15)] * 86400 + s.below(86400);
    }
    default: return (std::uint64_t(1) << s.range(31, 63)) + static_cast<std::uint64_t>(s.irange(-3, 3));
  }
}

void times(Src& s, Ctx& c) {
  zone(s, c);
  const std::uint64_t t = any_time(s);
  c.label(t > LAST ? "beyond the range" : t < UNIX ? "before 1970" : "1970 to 2106");
  c.nontrivial(t != 0);
  c.fingerprint(t);
  c.sample(std::to_string(t) + " " + time_text(t));
  c.note("time " + std::to_string(t));
  expect(t);
  // from Unix time; and the text of boxes that show times
  const std::uint64_t u = s.coin() ? s.bits(32) : s.upto(~std::uint64_t(0) - UNIX);
  const std::uint64_t f = mtime::convert_to_epoch_19040101(u);
  if (f != u + UNIX) fail("Unix time " + std::to_string(u) + " converts to " + std::to_string(f) + ", expected " + std::to_string(u + UNIX));
  if (f - UNIX != u) fail("not invertible");
  if (mtime::SECONDS_19040101_to_19700101 != UNIX) fail("the epochs' distance is wrong");
  if (u <= 0xffffffffULL) {
    std::tm tm{};
    const std::time_t tt = static_cast<std::time_t>(u);
    gmtime_r(&tt, &tm);
    char buf[64];
    std::strftime(buf, sizeof buf, "%Y-%m-%dT%H:%M:%SZ", &tm);
    if (mtime::format_epoch_19040101(f) != buf) fail("Unix time " + std::to_string(u) + " renders as " + mtime::format_epoch_19040101(f) + ", the C library says " + buf);
  }
  if (s.chance(1, 4)) {
    const bool v1 = s.coin() || t > 0xffffffffULL;
    const box::Mvhd m({.version = static_cast<std::uint8_t>(v1), .creation_time = t, .modification_time = v1 ? f : u & 0xffffffff, .duration = 0, .next_track_id = 1});
    const std::string text = m.toStringOnlyData();
    const std::string want = "CreationTime=\"" + time_text(t) + "\" ModificationTime=\"" + time_text(v1 ? f : u & 0xffffffff) + "\"";
    if (text.find(want) == std::string::npos) fail("a movie header with these times says " + text + ", expected " + want);
  }
}

// every day of the range, a year at a time
void calendar(Src& s, Ctx& c) {
  zone(s, c);
  const std::uint64_t year = s.enumerate(203);  // 1904..2106
  std::uint64_t day = 0;
  for (std::uint64_t y = 1904; y < 1904 + year; ++y) day += y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) ? 366 : 365;
  c.nontrivial();
  c.fingerprint(year);
  c.sample("every day of " + std::to_string(1904 + year));
  c.note("every day of " + std::to_string(1904 + year));
  for (std::uint64_t d = day; d < day + 366; ++d) {
    for (const std::uint64_t sec : {std::uint64_t(0), std::uint64_t(86399), s.below(86400)}) expect(d * 86400 + sec);
  }
  // every second of one hour
  const std::uint64_t h = (day + s.below(366)) * 24 + s.below(24);
  for (std::uint64_t k = 0; k < 3600; k += 1 + s.below(7)) expect(h * 3600 + k);
  c.sub_evals += 366 * 3 + 900;
}

void bytes_order(Src& s, Ctx& c) {
  const std::uint64_t v = s.bits(64);
  const std::uint32_t w = static_cast<std::uint32_t>(s.coin() ? v : s.bits(32));
  c.nontrivial(v != 0 || w != 0);
  c.fingerprint(mix(v, w));
  c.sample(std::to_string(v) + " " + std::to_string(w));
  c.note("64-bit " + std::to_string(v) + " 32-bit " + std::to_string(w));
  const auto a = endian::uint64_to_be(v);
  const auto b = endian::uint32_to_be(w);
  for (unsigned i = 0; i < 8; ++i) {
    if (a[i] != static_cast<std::uint8_t>(v >> (56 - 8 * i))) fail("uint64_to_be: byte " + std::to_string(i));
  }
  for (unsigned i = 0; i < 4; ++i) {
    if (b[i] != static_cast<std::uint8_t>(w >> (24 - 8 * i))) fail("uint32_to_be: byte " + std::to_string(i));
  }
  if (endian::be_to_uint64(a) != v) fail("be_to_uint64(array) is not the inverse");
  if (endian::be_to_uint64(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]) != v) fail("be_to_uint64(bytes) is not the inverse");
  if (endian::be_to_uint32(b) != w) fail("be_to_uint32(array) is not the inverse");
  if (endian::be_to_uint32(b[0], b[1], b[2], b[3]) != w) fail("be_to_uint32(bytes) is not the inverse");
  // and from bytes
  std::array<std::uint8_t, 8> x{};
  for (auto& e : x) e = static_cast<std::uint8_t>(s.bits(8));
  if (endian::uint64_to_be(endian::be_to_uint64(x)) != x) fail("uint64_to_be is not the inverse");
  const std::array<std::uint8_t, 4> y{x[0], x[1], x[2], x[3]};
  if (endian::uint32_to_be(endian::be_to_uint32(y)) != y) fail("uint32_to_be is not the inverse");
}

void fixed_point(Src& s, Ctx& c) {
  const std::int32_t r = static_cast<std::int32_t>(s.sbits(32));
  const std::uint32_t w = static_cast<std::uint32_t>(s.bits(32)), h = static_cast<std::uint32_t>(s.bits(32));
  const std::int16_t b = static_cast<std::int16_t>(s.sbits(16));
  c.nontrivial(r != 0 || w != 0);
  c.fingerprint(mix(mix(static_cast<std::uint32_t>(r), w), mix(h, static_cast<std::uint16_t>(b))));
  c.sample("16.16 " + std::to_string(r) + " " + std::to_string(w) + " " + std::to_string(h) + " 8.8 " + std::to_string(b));
  c.note("16.16 " + std::to_string(r) + " " + std::to_string(w) + " " + std::to_string(h) + " 8.8 " + std::to_string(b));
  // n/65536 has an exact double, n/256 an exact float
  auto eq = [](double got, double num, double den, const char* what) {
    if (got * den != num) fail(std::string(what) + " is " + std::to_string(got) + " for " + std::to_string(num));
  };
  const box::Mvhd m({.creation_time = 0, .modification_time = 0, .duration = 0, .rate = r, .next_track_id = 1});
  eq(m.getRate(), r, 65536, "the movie header's rate");
  const box::Tkhd t({.creation_time = 0, .modification_time = 0, .track_id = 1, .duration = 0, .width = w, .height = h});
  eq(t.getWidth(), w, 65536, "the track header's width");
  eq(t.getHeight(), h, 65536, "the track header's height");
  const box::ElstEntry e({.track_duration = 0, .media_rate = r});
  eq(e.getMediaRate(), r, 65536, "the edit's rate");
  const box::Smhd a({.balance = b});
  eq(static_cast<double>(a.getBalance()), b, 256, "the sound header's balance");
  // decoded from bytes
  Wire wire;
  wire.full(0, 0);
  wire.u16(static_cast<std::uint16_t>(b));
  wire.u16(0);
  box::Smhd a2;
  lib::decode(a2, wire.b);
  eq(static_cast<double>(a2.getBalance()), b, 256, "the decoded sound header's balance");
  box::Tkhd t2;
  lib::decode(t2, lib::encode(t).bytes);
  eq(t2.getWidth(), w, 65536, "the decoded track header's width");
  eq(t2.getHeight(), h, 65536, "the decoded track header's height");
  box::Mvhd m2;
  lib::decode(m2, lib::encode(m).bytes);
  eq(m2.getRate(), r, 65536, "the decoded movie header's rate");
}

}  // namespace

int main(int argc, char** argv) {
  Suite suite;
  suite.property = "P20";
  suite.rule =
      "A case draws a time (any 64-bit value, with weight on epochs, the end of the range, year ends, leap days and powers of "
      "two) and a Unix time, or walks every day of one year of 1904..2106 with three instants each and an hour by seconds, in "
      "one of six local time zones, against an independent calendar; or draws 64-bit and 32-bit integers and bytes, or "
      "fixed-point fields. Non-trivial: not all zero; distinct by values.";
  suite.assumptions = {"Unix times whose sum with the epochs' distance fits 64 bits"};
  suite.init = lib::quiet;
  suite.groups = {
      {"times", 80000, 4000000, times},
      {"calendar", 406, 20300, calendar},
      {"byte_order", 80000, 4000000, bytes_order},
      {"fixed_point", 40000, 2000000, fixed_point},
  };
  return run_main(argc, argv, suite);
}
