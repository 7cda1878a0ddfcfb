#include "model_util.hpp"
#include "shiguredo/mp4/box/boxes.hpp"
#include "shiguredo/mp4/box/unsupported.hpp"

namespace model {
namespace {
namespace bx = shiguredo::mp4::box;
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

// the width of "32 bits in version 0, 64 bits otherwise" fields
u64 vw(Src& s, const Sample& x) { return s.bits(x.version == 0 ? 32 : 64); }
unsigned vb(const Sample& x) { return x.version == 0 ? 32 : 64; }

template <class T>
void container(std::vector<Kind>& k, const char* t) {
  const std::string name = t;
  k.push_back({name, [name](Src&, bool) {
                 Sample x = start<T>(name, name.c_str());
                 x.container = true;
                 x.make = [] { return box_of<T>(); };
                 return x;
               }});
}

template <class T, class P>
void plain_bytes(std::vector<Kind>& k, const char* t, const char* prefix) {
  const std::string name = t;
  const std::string pre = prefix;
  k.push_back({name, [name, pre](Src& s, bool) {
                 Sample x = start<T>(name, name.c_str());
                 const Bytes d = blob(s);
                 x.greedy = true;
                 x.interesting = !d.empty();
                 x.wire = d;
                 x.text = pre + "Data=" + HexList(d);
                 x.lenient_prefix = {{0, d.size()}};
                 x.make = [d] { return std::make_unique<T>(P{.data = d}); };
                 return x;
               }});
}

template <class T, class P>
void brands(std::vector<Kind>& k, const char* t) {
  const std::string name = t;
  k.push_back({name, [name](Src& s, bool) {
                 Sample x = start<T>(name, name.c_str());
                 const FourCC major = four(s);
                 const u32 minor = static_cast<u32>(s.bits(32));
                 std::vector<FourCC> c(count(s));
                 for (auto& b : c) b = four(s);
                 Wire w;
                 w.raw(major);
                 w.u32(minor);
                 for (const auto& b : c) w.raw(b);
                 x.wire = w.b;
                 x.greedy = true;
                 x.interesting = !c.empty();
                 for (std::size_t i = 0; i < c.size(); ++i) x.lenient_prefix.push_back({8 + 4 * i, 8 + 4 * i});
                 x.text = "MajorBrand=\"" + S(major) + "\" MinorVersion=" + U(minor) + " CompatibleBrands=[" +
                          L(c, [](const FourCC& b) { return "{CompatibleBrand=\"" + S(b) + "\"}"; }) + "]";
                 x.make = [=] {
                   return std::make_unique<T>(P{.major_brand = major, .minor_version = minor, .compatible_brands = c});
                 };
                 return x;
               }});
}

std::array<std::int32_t, 9> matrix(Src& s) {
  std::array<std::int32_t, 9> m = {1 << 16, 0, 0, 0, 1 << 16, 0, 0, 0, 1 << 30};
  if (s.coin()) {
    for (auto& v : m) v = static_cast<std::int32_t>(s.sbits(32));
  }
  return m;
}

const char* data_type_name(u32 t) {
  switch (t) {
    case 0: return "BINARY";
    case 1: return "UTF8";
    case 2: return "UTF16";
    case 3: return "MAC_STR";
    case 14: return "JPEG";
    case 21: return "INT";
    case 22: return "FLOAT32";
    case 23: return "FLOAT64";
    default: return "";
  }
}

}  // namespace

void add_basic(std::vector<Kind>& k) {
  container<bx::Dinf>(k, "dinf");
  container<bx::Edts>(k, "edts");
  container<bx::Ilst>(k, "ilst");
  container<bx::Mdia>(k, "mdia");
  container<bx::Mfra>(k, "mfra");
  container<bx::Minf>(k, "minf");
  container<bx::Moof>(k, "moof");
  container<bx::Moov>(k, "moov");
  container<bx::Mvex>(k, "mvex");
  container<bx::Schi>(k, "schi");
  container<bx::Sinf>(k, "sinf");
  container<bx::Stbl>(k, "stbl");
  container<bx::Traf>(k, "traf");
  container<bx::Trak>(k, "trak");
  container<bx::Udta>(k, "udta");
  container<bx::Wave>(k, "wave");

  k.push_back({"meta", [](Src&, bool) {
                 Sample x = start<bx::Meta>("meta", "meta");
                 x.full = true;
                 x.container = true;
                 Wire w;
                 w.full(0, 0);
                 x.wire = w.b;
                 x.text = VF(0, 0);
                 x.make = [] { return box_of<bx::Meta>(); };
                 return x;
               }});

  k.push_back({"ilstitem", [](Src& s, bool) {
                 std::vector<FourCC> types;
                 for (const auto& r : registry()) {
                   if (r.kind == "ilstitem") types.push_back(r.type);
                 }
                 const FourCC t = s.one_of(types);
                 Sample x;
                 x.kind = "ilstitem";
                 x.type = t;
                 x.container = true;
                 auto mk = [t]() -> BoxPtr {
                   return std::make_unique<bx::IlstMeta>(bx::IlstMetaParameters{.type = shiguredo::mp4::BoxType(t)});
                 };
                 x.fresh = mk;
                 x.make = mk;
                 return x;
               }});

  plain_bytes<bx::Free, bx::FreeParameters>(k, "free", "");
  plain_bytes<bx::Skip, bx::SkipParameters>(k, "skip", "");
  plain_bytes<bx::Mdat, bx::MdatParameters>(k, "mdat", "");

  k.push_back({"unsupported", [](Src& s, bool) {
                 Sample x = start<bx::Unsupported>("unsupported", "unsu");
                 const Bytes d = blob(s);
                 x.registered = false;
                 x.greedy = true;
                 x.interesting = !d.empty();
                 x.wire = d;
                 x.text = "(unsupported) Data=" + HexList(d);
                 x.lenient_prefix = {{0, d.size()}};
                 x.make = [d] { return std::make_unique<bx::Unsupported>(bx::UnsupportedParameters{.data = d}); };
                 return x;
               }});

  brands<bx::Ftyp, bx::FtypParameters>(k, "ftyp");
  brands<bx::Styp, bx::StypParameters>(k, "styp");

  k.push_back({"btrt", [](Src& s, bool) {
                 Sample x = start<bx::Btrt>("btrt", "btrt");
                 const u32 a = static_cast<u32>(s.bits(32)), b = static_cast<u32>(s.bits(32)),
                           c = static_cast<u32>(s.bits(32));
                 Wire w;
                 w.u32(a);
                 w.u32(b);
                 w.u32(c);
                 x.wire = w.b;
                 x.interesting = a || b || c;
                 x.text = "DecodingBufferSize=" + U(a) + " MaxBitrate=" + U(b) + " AvgBitrate=" + U(c);
                 x.make = [=] {
                   return std::make_unique<bx::Btrt>(
                       bx::BtrtParameters{.decoding_buffer_size = a, .max_bitrate = b, .avg_bitrate = c});
                 };
                 return x;
               }});

  k.push_back({"colr", [](Src& s, bool) {
                 Sample x = start<bx::Colr>("colr", "colr");
                 const int mode = static_cast<int>(s.below(4));
                 FourCC t = mode == 0 ? fourcc("nclx") : mode == 1 ? fourcc("rICC") : mode == 2 ? fourcc("prof") : four(s);
                 if (mode == 3 && (t == fourcc("nclx") || t == fourcc("rICC") || t == fourcc("prof"))) t = fourcc("nclc");
                 x.variant = mode == 0 ? "nclx" : mode == 3 ? "unknown" : "icc";
                 const u16 p = static_cast<u16>(s.bits(16)), tc = static_cast<u16>(s.bits(16)),
                           mc = static_cast<u16>(s.bits(16));
                 const bool fr = s.coin();
                 const Bytes d = mode == 0 ? Bytes{} : blob(s);
                 const Bytes other = s.coin() ? s.bytes(s.size(3, 9)) : Bytes{};  // for the other types, left out
                 Wire w;
                 w.raw(t);
                 x.text = "ColourType=\"" + S(t) + "\" ";
                 if (mode == 0) {
                   w.u16(p);
                   w.u16(tc);
                   w.u16(mc);
                   w.u(fr, 1);
                   w.u(0, 7);
                   x.text += "ColourPrimaries=" + U(p) + " TransferCharacteristics=" + U(tc) +
                             " MatrixCoefficients=" + U(mc) + " FullRangeFlag=" + Bo(fr);
                 } else {
                   w.raw(d);
                   x.greedy = true;
                   x.lenient_prefix = {{4, w.b.size()}};
                   x.text += (mode == 3 ? "Unknown=" : "Profile=") + HexList(d);
                 }
                 x.interesting = true;
                 x.wire = w.b;
                 x.make = [=] {
                   return std::make_unique<bx::Colr>(bx::ColrParameters{.colour_type = t,
                                                                        .colour_primaries = p,
                                                                        .transfer_characteristics = tc,
                                                                        .matrix_coefficients = mc,
                                                                        .full_range_flag = fr,
                                                                        .profile = mode == 1 || mode == 2 ? d : other,
                                                                        .unknown = mode == 3 ? d : other});
                 };
                 return x;
               }});

  k.push_back({"data", [](Src& s, bool foreign) {
                 Sample x = start<bx::Data>("data", "data");
                 static const std::vector<u32> types = {0, 1, 2, 3, 14, 21, 22, 23};
                 u32 t = s.one_of(types);
                 if (foreign && s.chance(1, 4)) t = static_cast<u32>(s.bits(32));
                 const u32 lang = static_cast<u32>(s.bits(32));
                 const Bytes d = s.coin() ? blob(s) : [&] { const auto v = s.printable(s.size(8, 200)); return Bytes(v.begin(), v.end()); }();
                 Wire w;
                 w.u32(t);
                 w.u32(lang);
                 w.raw(d);
                 x.wire = w.b;
                 x.greedy = true;
                 x.interesting = !d.empty();
                 x.variant = data_type_name(t);
                 x.lenient_prefix = {{8, w.b.size()}};
                 x.text = std::string("DataType=") + data_type_name(t) + " DataLang=" + U(lang) + " ";
                 if (t == 1) {
                   std::string e;
                   for (auto c : d) e += c >= 0x20 && c <= 0x7e ? static_cast<char>(c) : '.';
                   x.text += "Data=\"" + e + "\"";
                 } else {
                   x.text += "Data=" + HexList(d);
                 }
                 x.make = [=] {
                   return std::make_unique<bx::Data>(
                       bx::DataParameters{.data_type = static_cast<bx::DataType>(t), .data_lang = lang, .data = d});
                 };
                 return x;
               }});

  k.push_back({"dref", [](Src& s, bool) {
                 Sample x = start_full<bx::Dref>(s, "dref", "dref", {0});
                 const u32 n = static_cast<u32>(s.bits(32));
                 Wire w;
                 w.full(x.version, x.flags);
                 w.u32(n);
                 x.wire = w.b;
                 x.container = true;
                 x.interesting = n > 1;
                 x.text = VF(x.version, x.flags) + " EntryCount=" + U(n);
                 x.make = [n, v = x.version, f = x.flags] {
                   return std::make_unique<bx::Dref>(bx::DrefParameters{.version = v, .flags = f, .entry_count = n});
                 };
                 return x;
               }});
  k.push_back({"stsd", [](Src& s, bool) {
                 Sample x = start_full<bx::Stsd>(s, "stsd", "stsd", {0});
                 const u32 n = static_cast<u32>(s.bits(32));
                 Wire w;
                 w.full(x.version, x.flags);
                 w.u32(n);
                 x.wire = w.b;
                 x.container = true;
                 x.interesting = n > 1;
                 x.text = VF(x.version, x.flags) + " EntryCount=" + U(n);
                 x.make = [n, v = x.version, f = x.flags] {
                   return std::make_unique<bx::Stsd>(bx::StsdParameters{.version = v, .flags = f, .entry_count = n});
                 };
                 return x;
               }});

  k.push_back({"emsg", [](Src& s, bool) {
                 Sample x = start_full<bx::Emsg>(s, "emsg", "emsg", {0, 1});
                 const std::string uri = str(s), val = str(s);
                 const u32 ts = static_cast<u32>(s.bits(32)), dur = static_cast<u32>(s.bits(32)),
                           id = static_cast<u32>(s.bits(32));
                 const u64 pt = vw(s, x);
                 const Bytes d = blob(s);
                 Wire w;
                 w.full(x.version, x.flags);
                 if (x.version == 0) {
                   w.cstr(uri);
                   w.cstr(val);
                 }
                 w.u32(ts);
                 w.u(pt, vb(x));
                 w.u32(dur);
                 w.u32(id);
                 std::size_t fixed = w.b.size();
                 if (x.version != 0) {
                   w.cstr(uri);
                   w.cstr(val);
                 }
                 w.raw(d);
                 x.wire = w.b;
                 x.greedy = true;
                 x.interesting = true;
                 // in version 1 an unterminated string runs to the end of the box: not required to be refused
                 x.lenient_prefix = {{fixed, w.b.size()}};
                 x.text = VF(x.version, x.flags) + " SchemeIdUri=\"" + uri + "\" Value=\"" + val + "\" Timescale=" + U(ts) +
                          (x.version == 0 ? " PresentationTimeDelta=" : " PresentationTime=") + U(pt) +
                          " EventDuration=" + U(dur) + " Id=" + U(id) + " MessageData=\"" + S(d) + "\"";
                 x.make = [=, v = x.version, f = x.flags] {
                   return std::make_unique<bx::Emsg>(bx::EmsgParameters{.version = v,
                                                                        .flags = f,
                                                                        .scheme_uri = uri,
                                                                        .value = val,
                                                                        .timescale = ts,
                                                                        .presentation_time = pt,
                                                                        .event_duration = dur,
                                                                        .id = id,
                                                                        .message_data = d});
                 };
                 return x;
               }});

  k.push_back({"fiel", [](Src& s, bool) {
                 Sample x = start<bx::Fiel>("fiel", "fiel");
                 const u8 c = static_cast<u8>(s.bits(8)), o = static_cast<u8>(s.bits(8));
                 x.wire = {c, o};
                 x.interesting = c != o;
                 x.text = "FieldCount=" + U(c) + " FieldOrdering=" + U(o);
                 x.make = [=] {
                   return std::make_unique<bx::Fiel>(bx::FielParameters{.field_count = c, .field_ordering = o});
                 };
                 return x;
               }});

  k.push_back({"hdlr", [](Src& s, bool foreign) {
                 Sample x = start_full<bx::Hdlr>(s, "hdlr", "hdlr", {0});
                 const u32 pre = s.coin() ? 0 : static_cast<u32>(s.bits(32));
                 const FourCC h = four(s);
                 const bool none = foreign && s.chance(1, 10);  // the name left out altogether
                 const bool pascal = foreign && !none && pre != 0 && s.coin();
                 std::string name = none || s.chance(1, 10) ? std::string() : s.text(std::min<std::size_t>(sized(s, 8, 400), pascal ? 255 : ~std::size_t{0}));
                 Bytes pad = !none && !pascal && s.chance(1, 4) ? s.bytes(s.size(3, 20)) : Bytes{};
                 if (pascal && name.empty()) name = "x";
                 if (pre != 0 && !name.empty() &&
                     static_cast<u8>(name[0]) == ((name.size() + pad.size()) & 0xff) && name.size() + pad.size() < 256) {
                   // in a QuickTime handler such a name is indistinguishable from a length-prefixed one
                   name[0] = static_cast<char>(static_cast<u8>(name[0]) == 1 ? 2 : 1);
                   if (name.size() + pad.size() == static_cast<u8>(name[0])) name[0] = 3;
                 }
                 Wire w;
                 w.full(x.version, x.flags);
                 w.u32(pre);
                 w.raw(h);
                 w.u32(0);
                 w.u32(0);
                 w.u32(0);
                 if (pascal) {
                   w.u8(name.size());
                   w.chars(name);
                 } else if (!none) {
                   w.cstr(name);
                   w.raw(pad);
                 }
                 x.wire = w.b;
                 x.greedy = true;
                 x.interesting = !name.empty();
                 x.variant = none ? "nameless" : pascal ? "pascal" : pad.empty() ? (pre ? "qt" : "plain") : "padded";
                 x.lenient_prefix = {{24, w.b.size()}};
                 x.text = VF(x.version, x.flags) + " PreDefined=" + U(pre) + " HandlerType=\"" + S(h) + "\" Name=\"" +
                          name + "\"";
                 if (!pascal && !none) {
                   x.make = [=, v = x.version, f = x.flags] {
                     return std::make_unique<bx::Hdlr>(bx::HdlrParameters{
                         .version = v, .flags = f, .pre_defined = pre, .handler_type = h, .name = name, .padding = pad});
                   };
                 }
                 return x;
               }});

  k.push_back({"iods", [](Src& s, bool foreign) {
                 Sample x = start_full<bx::Iods>(s, "iods", "iods", {0});
                 const u8 tag = static_cast<u8>(s.bits(8));
                 const u16 od = static_cast<u16>(s.bits(16));
                 std::array<u8, 5> p;
                 for (auto& v : p) v = static_cast<u8>(s.bits(8));
                 const int form = foreign ? static_cast<int>(s.below(4)) : 3;  // length field of 1..4 bytes
                 const std::size_t tail_max = (std::size_t{1} << (7 * (form + 1))) - 1 - 7;
                 const Bytes tail = foreign && s.coin() ? s.bytes(std::min(sized(s, 4, 40), tail_max)) : Bytes{};  // nested descriptors
                 const u64 len = 7 + tail.size();
                 Wire w;
                 w.full(x.version, x.flags);
                 w.u8(tag);
                 for (int i = form; i > 0; --i) w.u8(0x80 | ((len >> (7 * i)) & 0x7f));
                 w.u8(len & 0x7f);
                 w.u16(od);
                 for (auto v : p) w.u8(v);
                 w.raw(tail);
                 x.wire = w.b;
                 x.greedy = true;
                 x.interesting = true;
                 // descriptors nested at the end are kept, but not shown
                 x.variant = "len" + U(static_cast<u64>(form) + 1) + (tail.empty() ? "" : "+tail");
                 x.text = VF(x.version, x.flags) + " TypeTag=" + H(tag) + " ODID=" + U(od) + " ODProfileLevel=" + H(p[0]) +
                          " SceneProfileLevel=" + H(p[1]) + " AudioProfileLevel=" + H(p[2]) +
                          " VideoProfileLevel=" + H(p[3]) + " GraphicsProfileLevel=" + H(p[4]);
                 if (form == 3 && tail.empty()) {
                   x.make = [=, v = x.version, f = x.flags] {
                     return std::make_unique<bx::Iods>(bx::IodsParameters{.version = v,
                                                                          .flags = f,
                                                                          .type_tag = tag,
                                                                          .OD_ID = od,
                                                                          .OD_profile_level = p[0],
                                                                          .scene_profile_level = p[1],
                                                                          .audio_profile_level = p[2],
                                                                          .video_profile_level = p[3],
                                                                          .graphics_profile_level = p[4]});
                   };
                 }
                 return x;
               }});

  k.push_back({"mdhd", [](Src& s, bool) {
                 Sample x = start_full<bx::Mdhd>(s, "mdhd", "mdhd", {0, 1});
                 const u64 c = vw(s, x), m = vw(s, x), d = vw(s, x);
                 const u32 ts = static_cast<u32>(s.bits(32));
                 const bool pad = s.coin();
                 std::array<u8, 3> lang;
                 for (auto& l : lang) l = static_cast<u8>(0x60 + s.below(32));
                 const u16 pd = static_cast<u16>(s.bits(16));
                 Wire w;
                 w.full(x.version, x.flags);
                 w.u(c, vb(x));
                 w.u(m, vb(x));
                 w.u32(ts);
                 w.u(d, vb(x));
                 w.u(pad, 1);
                 for (auto l : lang) w.u(l - 0x60u, 5);
                 w.u16(pd);
                 x.wire = w.b;
                 x.interesting = true;
                 x.text = VF(x.version, x.flags) + " CreationTime=\"" + time_text(c) + "\" ModificationTime=\"" +
                          time_text(m) + "\" Timescale=" + U(ts) + " Duration=" + U(d) + " Pad=" + Bo(pad) +
                          " Language=\"" + std::string(lang.begin(), lang.end()) + "\" PreDefined=" + U(pd);
                 x.make = [=, v = x.version, f = x.flags] {
                   return std::make_unique<bx::Mdhd>(bx::MdhdParameters{.version = v,
                                                                        .flags = f,
                                                                        .creation_time = c,
                                                                        .modification_time = m,
                                                                        .timescale = ts,
                                                                        .duration = d,
                                                                        .pad = pad,
                                                                        .language = lang,
                                                                        .pre_defined = pd});
                 };
                 return x;
               }});

  k.push_back({"mehd", [](Src& s, bool) {
                 Sample x = start_full<bx::Mehd>(s, "mehd", "mehd", {0, 1});
                 const u64 d = vw(s, x);
                 Wire w;
                 w.full(x.version, x.flags);
                 w.u(d, vb(x));
                 x.wire = w.b;
                 x.interesting = d > 0;
                 x.text = VF(x.version, x.flags) + " FragmentDuration=" + U(d);
                 x.make = [d, v = x.version, f = x.flags] {
                   return std::make_unique<bx::Mehd>(bx::MehdParameters{.version = v, .flags = f, .fragment_duration = d});
                 };
                 return x;
               }});
  k.push_back({"mfhd", [](Src& s, bool) {
                 Sample x = start_full<bx::Mfhd>(s, "mfhd", "mfhd", {0});
                 const u32 d = static_cast<u32>(s.bits(32));
                 Wire w;
                 w.full(x.version, x.flags);
                 w.u32(d);
                 x.wire = w.b;
                 x.interesting = d > 0;
                 x.text = VF(x.version, x.flags) + " SequenceNumber=" + U(d);
                 x.make = [d, v = x.version, f = x.flags] {
                   return std::make_unique<bx::Mfhd>(bx::MfhdParameters{.version = v, .flags = f, .sequence_number = d});
                 };
                 return x;
               }});
  k.push_back({"mfro", [](Src& s, bool) {
                 Sample x = start_full<bx::Mfro>(s, "mfro", "mfro", {0});
                 const u32 d = static_cast<u32>(s.bits(32));
                 Wire w;
                 w.full(x.version, x.flags);
                 w.u32(d);
                 x.wire = w.b;
                 x.interesting = d > 0;
                 x.text = VF(x.version, x.flags) + " Size=" + U(d);
                 x.make = [d, v = x.version, f = x.flags] {
                   return std::make_unique<bx::Mfro>(bx::MfroParameters{.version = v, .flags = f, .size = d});
                 };
                 return x;
               }});
  k.push_back({"tfdt", [](Src& s, bool) {
                 Sample x = start_full<bx::Tfdt>(s, "tfdt", "tfdt", {0, 1});
                 const u64 d = vw(s, x);
                 Wire w;
                 w.full(x.version, x.flags);
                 w.u(d, vb(x));
                 x.wire = w.b;
                 x.interesting = d > 0;
                 x.text = VF(x.version, x.flags) + " BaseMediaDecodeTime=" + U(d);
                 x.make = [d, v = x.version, f = x.flags] {
                   return std::make_unique<bx::Tfdt>(
                       bx::TfdtParameters{.version = v, .flags = f, .base_media_decode_time = d});
                 };
                 return x;
               }});

  k.push_back({"mvhd", [](Src& s, bool) {
                 Sample x = start_full<bx::Mvhd>(s, "mvhd", "mvhd", {0, 1});
                 const u64 c = vw(s, x), m = vw(s, x), d = vw(s, x);
                 const u32 ts = static_cast<u32>(s.bits(32));
                 const auto rate = static_cast<std::int32_t>(s.sbits(32));
                 const auto vol = static_cast<std::int16_t>(s.sbits(16));
                 const auto mat = matrix(s);
                 std::array<std::int32_t, 6> pd{};
                 if (s.coin()) {
                   for (auto& v : pd) v = static_cast<std::int32_t>(s.sbits(32));
                 }
                 const u32 next = static_cast<u32>(s.bits(32));
                 Wire w;
                 w.full(x.version, x.flags);
                 w.u(c, vb(x));
                 w.u(m, vb(x));
                 w.u32(ts);
                 w.u(d, vb(x));
                 w.u(static_cast<u32>(rate), 32);
                 w.u(static_cast<u16>(vol), 16);
                 w.u16(0);
                 w.u64(0);
                 for (auto v : mat) w.u(static_cast<u32>(v), 32);
                 for (auto v : pd) w.u(static_cast<u32>(v), 32);
                 w.u32(next);
                 x.wire = w.b;
                 x.interesting = true;
                 x.text = VF(x.version, x.flags) + " CreationTime=\"" + time_text(c) + "\" ModificationTime=\"" +
                          time_text(m) + "\" Timescale=" + U(ts) + " Duration=" + U(d) + " Rate=" +
                          fixed4(rate / 65536.0) + " Volume=" + D(vol) + " Matrix=[" +
                          L(mat, [](std::int64_t v) { return HS(v); }) + "] PreDefined=" + DecList(pd) +
                          " NextTrackID=" + U(next);
                 x.make = [=, v = x.version, f = x.flags] {
                   return std::make_unique<bx::Mvhd>(bx::MvhdParameters{.version = v,
                                                                        .flags = f,
                                                                        .creation_time = c,
                                                                        .modification_time = m,
                                                                        .timescale = ts,
                                                                        .duration = d,
                                                                        .rate = rate,
                                                                        .volume = vol,
                                                                        .matrix = mat,
                                                                        .pre_defined = pd,
                                                                        .next_track_id = next});
                 };
                 return x;
               }});

  k.push_back({"tkhd", [](Src& s, bool) {
                 Sample x = start_full<bx::Tkhd>(s, "tkhd", "tkhd", {0, 1});
                 const u64 c = vw(s, x), m = vw(s, x), d = vw(s, x);
                 const u32 id = static_cast<u32>(s.bits(32)), wd = static_cast<u32>(s.bits(32)),
                           ht = static_cast<u32>(s.bits(32));
                 const auto layer = static_cast<std::int16_t>(s.sbits(16)), ag = static_cast<std::int16_t>(s.sbits(16)),
                            vol = static_cast<std::int16_t>(s.sbits(16));
                 const auto mat = matrix(s);
                 Wire w;
                 w.full(x.version, x.flags);
                 w.u(c, vb(x));
                 w.u(m, vb(x));
                 w.u32(id);
                 w.u32(0);
                 w.u(d, vb(x));
                 w.u64(0);
                 w.u(static_cast<u16>(layer), 16);
                 w.u(static_cast<u16>(ag), 16);
                 w.u(static_cast<u16>(vol), 16);
                 w.u16(0);
                 for (auto v : mat) w.u(static_cast<u32>(v), 32);
                 w.u32(wd);
                 w.u32(ht);
                 x.wire = w.b;
                 x.interesting = true;
                 x.text = VF(x.version, x.flags) + " CreationTime=\"" + time_text(c) + "\" ModificationTime=\"" +
                          time_text(m) + "\" TrackID=" + U(id) + " Duration=" + U(d) + " Layer=" + D(layer) +
                          " AlternateGroup=" + D(ag) + " Volume=" + D(vol) + " Matrix=[" +
                          L(mat, [](std::int64_t v) { return HS(v); }) + "] Width=" + fixed4(wd / 65536.0) +
                          " Height=" + fixed4(ht / 65536.0);
                 x.make = [=, v = x.version, f = x.flags] {
                   return std::make_unique<bx::Tkhd>(bx::TkhdParameters{.version = v,
                                                                        .flags = f,
                                                                        .creation_time = c,
                                                                        .modification_time = m,
                                                                        .track_id = id,
                                                                        .duration = d,
                                                                        .layer = layer,
                                                                        .alternate_group = ag,
                                                                        .volume = vol,
                                                                        .matrix = mat,
                                                                        .width = wd,
                                                                        .height = ht});
                 };
                 return x;
               }});

  k.push_back({"pasp", [](Src& s, bool) {
                 Sample x = start<bx::PixelAspectRatio>("pasp", "pasp");
                 const u32 h = static_cast<u32>(s.bits(32)), v = static_cast<u32>(s.bits(32));
                 Wire w;
                 w.u32(h);
                 w.u32(v);
                 x.wire = w.b;
                 x.interesting = h != v;
                 x.text = "HSpacing=" + U(h) + " VSpacing=" + U(v);
                 x.make = [=] {
                   return std::make_unique<bx::PixelAspectRatio>(
                       bx::PixelAspectRatioParameters{.h_spacing = h, .v_spacing = v});
                 };
                 return x;
               }});

  k.push_back({"smhd", [](Src& s, bool) {
                 Sample x = start_full<bx::Smhd>(s, "smhd", "smhd", {0});
                 const auto b = static_cast<std::int16_t>(s.sbits(16));
                 Wire w;
                 w.full(x.version, x.flags);
                 w.u(static_cast<u16>(b), 16);
                 w.u16(0);
                 x.wire = w.b;
                 x.interesting = b != 0;
                 char buf[32];
                 std::snprintf(buf, sizeof buf, "%.2f", b / 256.0);
                 x.text = VF(x.version, x.flags) + " Balance=" + buf;
                 x.make = [b, v = x.version, f = x.flags] {
                   return std::make_unique<bx::Smhd>(bx::SmhdParameters{.version = v, .flags = f, .balance = b});
                 };
                 return x;
               }});

  k.push_back({"vmhd", [](Src& s, bool) {
                 Sample x = start_full<bx::Vmhd>(s, "vmhd", "vmhd", {0});
                 const u16 g = static_cast<u16>(s.bits(16));
                 std::array<u16, 3> o;
                 for (auto& v : o) v = static_cast<u16>(s.bits(16));
                 Wire w;
                 w.full(x.version, x.flags);
                 w.u16(g);
                 for (auto v : o) w.u16(v);
                 x.wire = w.b;
                 x.interesting = g || o[0] || o[1] || o[2];
                 x.text = VF(x.version, x.flags) + " Graphicsmode=" + U(g) + " Opcolor=" + DecList(o);
                 x.make = [=, v = x.version, f = x.flags] {
                   return std::make_unique<bx::Vmhd>(
                       bx::VmhdParameters{.version = v, .flags = f, .graphicsmode = g, .opcolor = o});
                 };
                 return x;
               }});

  k.push_back({"trex", [](Src& s, bool) {
                 Sample x = start_full<bx::Trex>(s, "trex", "trex", {0});
                 std::array<u32, 5> a;
                 for (auto& v : a) v = static_cast<u32>(s.bits(32));
                 Wire w;
                 w.full(x.version, x.flags);
                 for (auto v : a) w.u32(v);
                 x.wire = w.b;
                 x.interesting = true;
                 x.text = VF(x.version, x.flags) + " TrackID=" + U(a[0]) + " DefaultSampleDescriptionIndex=" + U(a[1]) +
                          " DefaultSampleDuration=" + U(a[2]) + " DefaultSampleSize=" + U(a[3]) +
                          " DefaultSampleFlags=" + H(a[4]);
                 x.make = [=, v = x.version, f = x.flags] {
                   return std::make_unique<bx::Trex>(bx::TrexParameters{.version = v,
                                                                        .flags = f,
                                                                        .track_id = a[0],
                                                                        .default_sample_description_index = a[1],
                                                                        .default_sample_duration = a[2],
                                                                        .default_sample_size = a[3],
                                                                        .default_sample_flags = a[4]});
                 };
                 return x;
               }});

  k.push_back({"tfhd", [](Src& s, bool) {
                 Sample x = start_full<bx::Tfhd>(s, "tfhd", "tfhd", {0});
                 if (s.coin()) x.flags = static_cast<u32>(s.below(64)) | (s.coin() ? 0x030000u : 0u);
                 const u32 id = static_cast<u32>(s.bits(32));
                 const u64 off = s.bits(64);
                 std::array<u32, 4> a;
                 for (auto& v : a) v = static_cast<u32>(s.bits(32));
                 Wire w;
                 w.full(x.version, x.flags);
                 w.u32(id);
                 x.text = VF(x.version, x.flags) + " TrackID=" + U(id);
                 if (x.flags & 0x01) {
                   w.u64(off);
                   x.text += " BaseDataOffset=" + U(off);
                 }
                 if (x.flags & 0x02) {
                   w.u32(a[0]);
                   x.text += " SampleDescriptionIndex=" + U(a[0]);
                 }
                 if (x.flags & 0x08) {
                   w.u32(a[1]);
                   x.text += " DefaultSampleDuration=" + U(a[1]);
                 }
                 if (x.flags & 0x10) {
                   w.u32(a[2]);
                   x.text += " DefaultSampleSize=" + U(a[2]);
                 }
                 if (x.flags & 0x20) {
                   w.u32(a[3]);
                   x.text += " DefaultSampleFlags=" + H(a[3]);
                 }
                 x.wire = w.b;
                 x.interesting = (x.flags & 0x3b) != 0;
                 x.variant = "f" + U(x.flags & 0x3b);
                 x.make = [=, v = x.version, f = x.flags] {
                   return std::make_unique<bx::Tfhd>(bx::TfhdParameters{.version = v,
                                                                        .flags = f,
                                                                        .track_id = id,
                                                                        .base_data_offset = off,
                                                                        .sample_description_index = a[0],
                                                                        .default_sample_duration = a[1],
                                                                        .default_sample_size = a[2],
                                                                        .default_sample_flags = a[3]});
                 };
                 return x;
               }});

  k.push_back({"url ", [](Src& s, bool) {
                 Sample x = start_full<bx::Url>(s, "url ", "url ", {0});
                 const std::string loc = str(s);
                 const bool self = (x.flags & 1) != 0;
                 Wire w;
                 w.full(x.version, x.flags);
                 if (!self) w.cstr(loc);
                 x.wire = w.b;
                 x.greedy = true;
                 x.interesting = !self;
                 x.variant = self ? "self" : "loc";
                 x.lenient_prefix = {{4, w.b.size()}};
                 x.text = VF(x.version, x.flags) + (self ? "" : " Location=\"" + loc + "\"");
                 x.make = [=, v = x.version, f = x.flags] {
                   return std::make_unique<bx::Url>(
                       bx::UrlParameters{.version = v, .flags = f, .location = self ? std::string() : loc});
                 };
                 return x;
               }});
  k.push_back({"urn ", [](Src& s, bool foreign) {
                 Sample x = start_full<bx::Urn>(s, "urn ", "urn ", {0});
                 const std::string name = str(s);
                 std::string loc = str(s);
                 const bool self = (x.flags & 1) != 0;
                 const bool noloc = foreign && s.chance(1, 4);  // the location is optional
                 if (noloc) loc.clear();
                 Wire w;
                 w.full(x.version, x.flags);
                 if (!self) {
                   w.cstr(name);
                   if (!noloc) w.cstr(loc);
                 }
                 x.wire = w.b;
                 x.greedy = true;
                 x.interesting = !self;
                 x.variant = self ? "self" : noloc ? "name" : "name+loc";
                 x.lenient_prefix = {{4, w.b.size()}};
                 x.text = VF(x.version, x.flags) + (self ? "" : " Name=\"" + name + "\" Location=\"" + loc + "\"");
                 if (!noloc) {
                   x.make = [=, v = x.version, f = x.flags] {
                     return std::make_unique<bx::Urn>(bx::UrnParameters{.version = v,
                                                                        .flags = f,
                                                                        .name = self ? std::string() : name,
                                                                        .location = self ? std::string() : loc});
                   };
                 }
                 return x;
               }});
}

}  // namespace model
