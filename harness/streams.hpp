// Stream buffers that stand in for files: of any virtual size, recording every write, and failing on demand.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <functional>
#include <istream>
#include <limits>
#include <ostream>
#include <streambuf>
#include <unordered_map>
#include <utility>
#include <vector>

namespace streams {

// A seekable file image whose unwritten parts read as zero. Separate get and put positions, like std::stringbuf.
class SparseBuf : public std::streambuf {
 public:
  static constexpr std::uint64_t kPage = 4096;
  static constexpr std::uint64_t kNever = std::numeric_limits<std::uint64_t>::max();

  explicit SparseBuf(std::uint64_t size = 0) : m_size(size) {}

  std::uint64_t size() const { return m_size; }
  void truncate(std::uint64_t n) { m_size = n; }
  std::uint8_t at(std::uint64_t p) const {
    const auto it = m_pages.find(p / kPage);
    return it == m_pages.end() ? 0 : it->second[p % kPage];
  }
  void put(std::uint64_t p, std::uint8_t v) {
    auto& pg = m_pages[p / kPage];
    if (pg.empty()) pg.assign(kPage, 0);
    pg[p % kPage] = v;
    m_size = std::max(m_size, p + 1);
  }
  void put(std::uint64_t p, const void* d, std::uint64_t n) {
    static const std::vector<std::uint8_t> zeros(kPage, 0);
    const auto* s = static_cast<const std::uint8_t*>(d);
    while (n > 0) {
      const std::uint64_t k = std::min(n, kPage - p % kPage);
      // zeros over nothing need no page
      if (k < 64 || std::memcmp(s, zeros.data(), k) != 0 || m_pages.count(p / kPage) != 0) {
        auto& pg = m_pages[p / kPage];
        if (pg.empty()) pg.assign(kPage, 0);
        std::memcpy(pg.data() + p % kPage, s, k);
      }
      p += k;
      s += k;
      n -= k;
      m_size = std::max(m_size, p);
    }
  }
  std::vector<std::uint8_t> get(std::uint64_t p, std::uint64_t n) const {
    std::vector<std::uint8_t> v(n);
    for (std::uint64_t i = 0; i < n; ++i) v[i] = at(p + i);
    return v;
  }

  // every write, merged when contiguous
  std::vector<std::pair<std::uint64_t, std::uint64_t>> writes;
  std::uint64_t bytes_written = 0;
  std::vector<std::uint64_t> ends;  // bytes written at the end of each call
  std::uint64_t seeks = 0;
  // fault injection: the first write that would go past this many bytes stops there; the n-th seek fails
  std::uint64_t fail_after_bytes = kNever;
  std::uint64_t fail_seek = kNever;
  std::uint64_t tells = 0, fail_tell = kNever;  // the n-th query of the put position has no answer
  bool failed = false;       // a fault was delivered
  bool sticky = true;        // after a fault nothing succeeds any more
  // called once, when the byte with this number has been accepted
  std::uint64_t call_at_byte = kNever;
  std::function<void()> on_byte;

 protected:
  int_type underflow() override {
    return m_gpos >= m_size ? traits_type::eof() : traits_type::to_int_type(static_cast<char>(at(m_gpos)));
  }
  int_type uflow() override {
    const auto c = underflow();
    if (!traits_type::eq_int_type(c, traits_type::eof())) ++m_gpos;
    return c;
  }
  std::streamsize xsgetn(char* s, std::streamsize n) override {
    std::streamsize k = 0;
    while (k < n && m_gpos < m_size) s[k++] = static_cast<char>(at(m_gpos++));
    return k;
  }
  int_type overflow(int_type c) override {
    if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
    const char ch = traits_type::to_char_type(c);
    return xsputn(&ch, 1) == 1 ? c : traits_type::eof();
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    std::uint64_t k = static_cast<std::uint64_t>(n);
    if (failed && sticky) return 0;
    if (fail_after_bytes != kNever && bytes_written + k > fail_after_bytes) {
      k = fail_after_bytes - bytes_written;
      failed = true;
      if (!sticky) fail_after_bytes = kNever;
    }
    if (k == 0) return 0;
    if (!writes.empty() && writes.back().first + writes.back().second == m_ppos) {
      writes.back().second += k;
    } else {
      writes.emplace_back(m_ppos, k);
    }
    put(m_ppos, s, k);
    m_ppos += k;
    bytes_written += k;
    ends.push_back(bytes_written);
    if (bytes_written > call_at_byte) {
      call_at_byte = kNever;
      on_byte();
    }
    return static_cast<std::streamsize>(k);
  }
  pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode which) override {
    const bool in = (which & std::ios_base::in) != 0, out = (which & std::ios_base::out) != 0;
    std::int64_t base = 0;
    if (dir == std::ios_base::end) base = static_cast<std::int64_t>(m_size);
    if (dir == std::ios_base::cur) {
      base = static_cast<std::int64_t>(in ? m_gpos : m_ppos);
      if (off == 0) {  // a query, not a seek
        if (out && !in && tells++ == fail_tell) {
          failed = true;
          sticky = false;
          return pos_type(off_type(-1));
        }
        return pos_type(base);
      }
    }
    return go(base + off, in, out);
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode which) override {
    return go(static_cast<std::int64_t>(off_type(p)), (which & std::ios_base::in) != 0, (which & std::ios_base::out) != 0);
  }

 private:
  pos_type go(std::int64_t p, bool in, bool out) {
    if (p < 0) return pos_type(off_type(-1));
    if (out) {
      if (failed && sticky) return pos_type(off_type(-1));
      if (seeks++ == fail_seek) {
        failed = true;
        return pos_type(off_type(-1));
      }
    }
    // a get position past the end is allowed, as for files
    if (in) m_gpos = static_cast<std::uint64_t>(p);
    if (out) m_ppos = static_cast<std::uint64_t>(p);
    return pos_type(p);
  }
  std::unordered_map<std::uint64_t, std::vector<std::uint8_t>> m_pages;
  std::uint64_t m_size;
  std::uint64_t m_gpos = 0;
  std::uint64_t m_ppos = 0;
};

}  // namespace streams
