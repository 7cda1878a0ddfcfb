#include "lib.hpp"

#include <spdlog/spdlog.h>

#include "shiguredo/mp4/box/sample_entry.hpp"
#include "shiguredo/mp4/box_types.hpp"

namespace lib {
using namespace shiguredo::mp4;

void quiet() { spdlog::set_level(spdlog::level::off); }

std::string str(const Bytes& b) { return std::string(b.begin(), b.end()); }
Bytes bytes(const std::string& s) { return Bytes(s.begin(), s.end()); }

Encoded encode(const Box& b) {
  std::ostringstream os(std::ios_base::out | std::ios_base::binary);
  Encoded e;
  e.declared = b.getDataSize();
  e.bits = b.writeData(os);
  if (!os.good()) pbt::fail("encoding left the output stream in a failed state");
  e.bytes = bytes(os.str());
  return e;
}

Decoded decode(Box& b, const Bytes& payload, const Bytes& after, const Bytes& before) {
  std::istringstream is(str(before) + str(payload) + str(after), std::ios_base::in | std::ios_base::binary);
  is.seekg(static_cast<std::streamoff>(before.size()));
  Decoded d;
  d.bits = b.readData(is);
  const auto pos = is.tellg();
  if (pos == std::istringstream::pos_type(-1)) pbt::fail("decoding left the stream without a position");
  d.position = static_cast<std::uint64_t>(static_cast<std::streamoff>(pos)) - before.size();
  return d;
}

BoxMap& registry_map() {
  static BoxMap* m = [] {
    auto* x = new BoxMap();
    register_box_map(x);
    return x;
  }();
  return *m;
}

void set_under_wave(Box& b) {
  auto* a = dynamic_cast<box::AudioSampleEntry*>(&b);
  if (a == nullptr) pbt::fail("the registry's audio entry is not an AudioSampleEntry");
  a->setUnderWave(true);
}

BoxPtr from_registry(const model::FourCC& t, bool under_wave) {
  BoxPtr p(registry_map().getBoxInstance(BoxType(t)));
  if (!p) pbt::fail("the registry returned no object for " + model::type_text(t));
  if (under_wave) set_under_wave(*p);
  return p;
}
}  // namespace lib
