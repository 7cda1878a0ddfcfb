// Trees of modelled boxes: generation, independent layout, serialization and dump text, and a bare box walker.
#pragma once
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "model.hpp"
#include "shiguredo/mp4/box_info.hpp"

namespace tree {

using model::FourCC;
using model::Sample;
using pbt::Bytes;
using pbt::Src;

enum class Form { automatic, large, to_eof };

struct Node {
  Sample x;
  std::list<Node> kids;  // stable addresses
  Form form = Form::automatic;
  std::uint64_t virtual_tail = 0;  // payload bytes a giant box declares beyond x.wire (P06 only)
  std::uint64_t offset = 0, size = 0, header = 8;
};
using Forest = std::vector<Node>;

struct Options {
  bool foreign = false;       // payload forms and header forms the library does not emit
  std::size_t max_boxes = 40;
  unsigned max_depth = 8;
  bool need_make = false;     // every box must be constructible or decodable into an object (always true today)
};

Forest gen_file(Src& s, const Options& o);
Node gen_box(Src& s, const Options& o, const std::string& parent, unsigned depth, std::size_t& budget);

std::uint64_t layout(Node& n, std::uint64_t offset);  // returns the size
std::uint64_t layout(Forest& f, std::uint64_t offset = 0);
void serialize(const Node& n, Bytes& out);            // virtual tails must be 0
Bytes serialize(const Forest& f);
std::string header_text(const Node& n);
std::string dump(const Node& n, unsigned depth = 0);  // no trailing newline
std::string dump(const Forest& f);                    // as the reader prints it
std::size_t count(const Node& n);
std::size_t count(const Forest& f);
unsigned depth_of(const Node& n);

// a library object holding the node's values (from parameters if possible, else by decoding)
model::BoxPtr object(const Node& n);
// the tree as a library BoxInfo tree; the caller owns the root
shiguredo::mp4::BoxInfo* build(const Node& n, shiguredo::mp4::BoxInfo* parent = nullptr);

bool is_registered(const FourCC& t);
FourCC unregistered_type(Src& s);

}  // namespace tree
