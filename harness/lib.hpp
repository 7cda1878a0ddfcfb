// Driving the library: encode / decode with strict accounting, registry access, output capture.
#pragma once
#include <cstdint>
#include <memory>
#include <sstream>
#include <string>

#include "model.hpp"
#include "shiguredo/mp4/box.hpp"
#include "shiguredo/mp4/box_map.hpp"
#include "shiguredo/mp4/box_type.hpp"

namespace lib {

using model::BoxPtr;
using pbt::Bytes;

void quiet();  // no log output; once per process

struct Encoded {
  Bytes bytes;
  std::uint64_t bits = 0;      // what the encoder reported
  std::uint64_t declared = 0;  // getDataSize() in bytes
};
Encoded encode(const shiguredo::mp4::Box& b);

struct Decoded {
  std::uint64_t bits = 0;      // what the decoder reported
  std::uint64_t position = 0;  // stream position afterwards, in bytes from the payload's start
};
// decodes from a stream that holds `before` bytes ahead of the payload and `after` bytes behind it
Decoded decode(shiguredo::mp4::Box& b, const Bytes& payload, const Bytes& after = {}, const Bytes& before = {});

shiguredo::mp4::BoxMap& registry_map();
BoxPtr from_registry(const model::FourCC& t, bool under_wave);
void set_under_wave(shiguredo::mp4::Box& b);

std::string str(const Bytes& b);
Bytes bytes(const std::string& s);

template <class F>
std::string thrown(F f) {  // "" if nothing was thrown
  try {
    f();
  } catch (const std::exception& e) {
    return std::string("exception: ") + e.what();
  }
  return "";
}

}  // namespace lib
