#include "model_util.hpp"
#include "shiguredo/mp4/box/boxes.hpp"

namespace model {
namespace {
namespace bx = shiguredo::mp4::box;
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

std::string nal_list(const std::vector<Bytes>& v) {
  return "[" + L(v, [](const Bytes& b) { return "{Length=" + U(b.size()) + " NALUnit=" + HexList(b) + "}"; }) + "]";
}
std::vector<Bytes> nals(Src& s, std::size_t max) {
  std::vector<Bytes> v(s.chance(1, 60) ? max : s.size(2, std::min<std::size_t>(max, 8)));
  const bool tiny = v.size() > 20;
  for (auto& b : v) b = tiny ? s.bytes(s.below(3)) : s.bytes(s.chance(1, 300) ? 65535 - s.below(2) : std::min<std::size_t>(sized(s, 8, 300), 65535));
  return v;
}
std::vector<bx::AVCParameterSet> sets(const std::vector<Bytes>& v) {
  std::vector<bx::AVCParameterSet> r;
  for (const auto& b : v) r.push_back(bx::AVCParameterSet({.nal_unit = b}));
  return r;
}

// MPEG-4 part 1 descriptors, as a tree that the box stores in pre-order
struct Desc {
  int tag = 3;
  u16 es_id = 0, depends = 0, ocr = 0;
  bool dep = false, url = false, ocr_flag = false;
  u8 prio = 0;
  Bytes url_string;
  u8 object_type = 0, stream_type = 0;
  bool up = false, reserved = true;
  u32 buffer = 0, max_rate = 0, avg_rate = 0;
  Bytes data;
  std::vector<Desc> subs;
  bool explicit_size = false;  // size of the sub descriptors given as a number, or through addSubDescriptor
  unsigned len_bytes = 4;

  u32 own() const {
    if (tag == 3) return 3u + (dep ? 2 : 0) + (url ? 1 + static_cast<u32>(url_string.size()) : 0) + (ocr_flag ? 2 : 0);
    if (tag == 4) return 13;
    return static_cast<u32>(data.size());
  }
  u32 subs_size() const {
    u32 n = 0;
    for (const auto& d : subs) n += 1 + d.len_bytes + d.total();
    return n;
  }
  u32 total() const { return own() + subs_size(); }
};

unsigned min_len(u32 v) { return v < (1u << 7) ? 1 : v < (1u << 14) ? 2 : v < (1u << 21) ? 3 : 4; }

Desc gen_desc(Src& s, int tag, bool foreign, int depth) {
  Desc d;
  d.tag = tag;
  switch (tag) {
    case 3:
      d.es_id = static_cast<u16>(s.bits(16));
      d.dep = s.coin();
      d.url = s.coin();
      d.ocr_flag = s.coin();
      d.prio = static_cast<u8>(s.bits(5));
      if (d.dep || s.coin()) d.depends = static_cast<u16>(s.bits(16));
      if (d.url || s.chance(1, 4)) {  // without the flag, given but left out
        const std::string u = s.chance(1, 20) ? s.text(255) : s.text(s.size(5, 255));
        d.url_string = Bytes(u.begin(), u.end());
      }
      if (d.ocr_flag || s.coin()) d.ocr = static_cast<u16>(s.bits(16));
      if (depth < 2 && s.coin()) {
        d.subs.push_back(gen_desc(s, 4, foreign, depth + 1));
        if (s.coin()) d.subs.push_back(gen_desc(s, 6, foreign, depth + 1));
      }
      break;
    case 4:
      d.object_type = static_cast<u8>(s.bits(8));
      d.stream_type = static_cast<u8>(s.bits(6));
      d.up = s.coin();
      d.reserved = !foreign || !s.coin();
      d.buffer = static_cast<u32>(s.bits(24));
      d.max_rate = static_cast<u32>(s.bits(32));
      d.avg_rate = static_cast<u32>(s.bits(32));
      if (s.coin()) d.subs.push_back(gen_desc(s, 5, foreign, depth + 1));
      break;
    default: {
      d.data = s.bytes(s.chance(1, 60) ? 120 + s.below(40) : s.chance(1, 200) ? 16380 + s.below(10) : sized(s, 3, 60));
    }
  }
  d.explicit_size = s.coin();
  if (foreign) {
    const unsigned m = min_len(d.total());
    d.len_bytes = m + static_cast<unsigned>(s.below(5 - m));
  }
  return d;
}

void put_desc(Wire& w, const Desc& d, std::vector<std::size_t>& bounds, std::vector<std::string>& text) {
  w.u8(static_cast<u64>(d.tag));
  const u32 n = d.total();
  for (unsigned i = d.len_bytes; i > 0; --i) {
    w.u8(((n >> (7 * (i - 1))) & 0x7f) | (i > 1 ? 0x80u : 0u));
  }
  std::string t;
  switch (d.tag) {
    case 3:
      w.u16(d.es_id);
      w.u8((d.dep << 7) | (d.url << 6) | (d.ocr_flag << 5) | d.prio);
      if (d.dep) w.u16(d.depends);
      if (d.url) {
        w.u8(d.url_string.size());
        w.raw(d.url_string);
      }
      if (d.ocr_flag) w.u16(d.ocr);
      t = "{Tag=ESDescr DataSize=" + U(d.own()) + " DataSizeWithSubDescriptors=" + U(n) + " ESID=" + U(d.es_id) +
          " StreamDependenceFlag=" + Bo(d.dep) + " UrlFlag=" + Bo(d.url) + " OcrStreamFlag=" + Bo(d.ocr_flag) +
          " StreamPriority=" + U(d.prio);
      if (d.dep) t += " DependsOnESID=" + U(d.depends);
      if (d.url) t += " URLLength=" + H(d.url_string.size()) + " URLString=\"" + S(d.url_string) + "\"";
      if (d.ocr_flag) t += " OCRESID=" + U(d.ocr);
      t += "}";
      break;
    case 4:
      w.u8(d.object_type);
      w.u8((d.stream_type << 2) | (d.up << 1) | (d.reserved ? 1 : 0));
      w.u24(d.buffer);
      w.u32(d.max_rate);
      w.u32(d.avg_rate);
      t = "{Tag=DecoderConfigDescr DataSize=13 DataSizeWithSubDescriptors=" + U(n) +
          " ObjectTypeIndication=" + H(d.object_type) + " StreamType=" + U(d.stream_type) + " UpStream=" + Bo(d.up) +
          " Reserved=" + Bo(d.reserved) + " BufferSizeDB=" + U(d.buffer) + " MaxBitrate=" + U(d.max_rate) +
          " AvgBitrate=" + U(d.avg_rate) + "}";
      break;
    default:
      w.raw(d.data);
      t = std::string("{Tag=") + (d.tag == 5 ? "DecSpecificInfo" : "SLConfigDescr") + " DataSize=" + U(d.data.size()) +
          " Data=" + HexList(d.data) + "}";
  }
  bounds.push_back(w.b.size());
  text.push_back(t);
  for (const auto& x : d.subs) put_desc(w, x, bounds, text);
}

std::shared_ptr<bx::Descriptor> make_desc(const Desc& d, std::vector<std::shared_ptr<bx::Descriptor>>& flat) {
  const u32 given = d.explicit_size ? d.subs_size() : 0;
  if (d.tag == 3) {
    auto p = std::make_shared<bx::ESDescriptor>(
        bx::ESDescriptorParameters{.sub_descriptors_size = given,
                                   .ESID = d.es_id,
                                   .stream_dependence_flag = d.dep,
                                   .url_flag = d.url,
                                   .ocr_stream_flag = d.ocr_flag,
                                   .stream_priority = static_cast<std::int8_t>(d.prio),
                                   .depends_on_esid = d.depends,
                                   .url_string = d.url_string,
                                   .OCRESID = d.ocr});
    flat.push_back(p);
    for (const auto& x : d.subs) {
      auto q = make_desc(x, flat);
      if (!d.explicit_size) p->addSubDescriptor(q);
    }
    return p;
  }
  if (d.tag == 4) {
    auto p = std::make_shared<bx::DecoderConfigDescriptor>(
        bx::DecoderConfigDescriptorParameters{.sub_descriptors_size = given,
                                              .object_type_indication = d.object_type,
                                              .stream_type = static_cast<std::int8_t>(d.stream_type),
                                              .upstream = d.up,
                                              .reserved = d.reserved,
                                              .buffer_size_db = d.buffer,
                                              .max_bitrate = d.max_rate,
                                              .avg_bitrate = d.avg_rate});
    flat.push_back(p);
    for (const auto& x : d.subs) {
      auto q = make_desc(x, flat);
      if (!d.explicit_size) p->addSubDescriptor(q);
    }
    return p;
  }
  std::shared_ptr<bx::Descriptor> p;
  if (d.tag == 5) {
    p = std::make_shared<bx::DecSpecificInfo>(bx::DecSpecificInfoParameters{.data = d.data});
  } else {
    p = std::make_shared<bx::SLConfigDescr>(bx::SLConfigDescrParameters{.data = d.data});
  }
  flat.push_back(p);
  return p;
}

}  // namespace

void add_codec(std::vector<Kind>& k) {
  k.push_back({"av1C", [](Src& s, bool) {
                 Sample x = start<bx::AV1CodecConfiguration>("av1C", "av1C");
                 const u8 marker = s.chance(1, 4) ? 0 : 1;
                 const u8 version = s.coin() ? 1 : static_cast<u8>(s.bits(7));
                 const u8 prof = static_cast<u8>(s.bits(3)), lvl = static_cast<u8>(s.bits(5)),
                          tier = static_cast<u8>(s.bits(1));
                 const bool hb = s.coin(), tw = s.coin(), mono = s.coin();
                 const u8 cx = static_cast<u8>(s.bits(1)), cy = static_cast<u8>(s.bits(1)),
                          pos = static_cast<u8>(s.bits(2));
                 const bool ipd = s.coin();
                 const u8 delay = ipd || s.coin() ? static_cast<u8>(s.bits(4)) : 0;  // given, but not part of the box without ipd
                 const Bytes obus = s.coin() ? blob(s) : Bytes{};
                 Wire w;
                 w.u8((marker << 7) | version);
                 w.u8((prof << 5) | lvl);
                 w.u8((tier << 7) | (hb << 6) | (tw << 5) | (mono << 4) | (cx << 3) | (cy << 2) | pos);
                 w.u8((ipd << 4) | (ipd ? delay : 0));
                 w.raw(obus);
                 x.wire = w.b;
                 x.greedy = true;
                 x.interesting = true;
                 x.variant = std::string(ipd ? "ipd" : "noipd") + (obus.empty() ? "" : " obus");
                 x.lenient_prefix = {{4, w.b.size()}};
                 x.text = "Marker=" + U(marker) + " Version=" + U(version) + " SeqProfile=" + U(prof) +
                          " SeqLevelIdx0=" + U(lvl) + " SeqTier0=" + U(tier) + " HighBitdepth=" + Bo(hb) +
                          " TwelveBit=" + Bo(tw) + " Monochrome=" + Bo(mono) + " ChromaSubsamplingX=" + U(cx) +
                          " ChromaSubsamplingY=" + U(cy) + " ChromaSamplePosition=" + U(pos) +
                          " InitialPresentationDelayPresent=" + Bo(ipd) +
                          (ipd ? " InitialPresentationDelayMinusOne=" + U(delay) : "") + " ConfigOBUs=" + HexList(obus);
                 x.make = [=] {
                   return std::make_unique<bx::AV1CodecConfiguration>(
                       bx::AV1CodecConfigurationParameters{.marker = marker,
                                                           .version = version,
                                                           .seq_profile = prof,
                                                           .seq_level_idx_0 = lvl,
                                                           .seq_tier_0 = tier,
                                                           .high_bitdepth = hb,
                                                           .twelve_bit = tw,
                                                           .monochrome = mono,
                                                           .chroma_subsampling_x = cx,
                                                           .chroma_subsampling_y = cy,
                                                           .chroma_sample_position = pos,
                                                           .initial_presentation_delay_present = ipd,
                                                           .initial_presentation_delay_minus_one = delay,
                                                           .config_OBUs = obus});
                 };
                 return x;
               }});

  k.push_back({"avcC", [](Src& s, bool) {
                 Sample x = start<bx::AVCDecoderConfiguration>("avcC", "avcC");
                 const u8 cv = s.coin() ? 1 : static_cast<u8>(s.bits(8));
                 const u8 prof = s.coin() ? s.pick<u8>({0x64, 0x42, 0x4d, 0x56, 0x6e, 0x76, 0x7a, 0x80, 0x8a, 0x90, 0xf4,
                                                        0x2c, 0x53, 0x58})
                                          : static_cast<u8>(s.bits(8));
                 const u8 compat = static_cast<u8>(s.bits(8)), level = static_cast<u8>(s.bits(8)),
                          lsm1 = static_cast<u8>(s.bits(2));
                 const auto sps = nals(s, 31), pps = nals(s, 255);
                 const bool high = avc_high_profile(prof);
                 const bool fields = high && s.coin();
                 // without the extended fields, given but left out
                 const bool odd = !fields && s.chance(1, 4);
                 const u8 cf = fields || odd ? static_cast<u8>(s.bits(2)) : 0, bl = fields || odd ? static_cast<u8>(s.bits(3)) : 0,
                          bc = fields || odd ? static_cast<u8>(s.bits(3)) : 0;
                 const auto ext = fields || odd ? nals(s, fields ? 255 : 3) : std::vector<Bytes>{};
                 Wire w;
                 w.u8(cv);
                 w.u8(prof);
                 w.u8(compat);
                 w.u8(level);
                 w.u8(0xfc | lsm1);
                 w.u8(0xe0 | sps.size());
                 for (auto& n : sps) {
                   w.u16(n.size());
                   w.raw(n);
                 }
                 w.u8(pps.size());
                 for (auto& n : pps) {
                   w.u16(n.size());
                   w.raw(n);
                 }
                 const std::size_t base = w.b.size();
                 x.text = "ConfigurationVersion=" + H(cv) + " Profile=" + H(prof) + " ProfileCompatibility=" + H(compat) +
                          " Level=" + H(level) + " LengthSizeMinusOne=" + H(lsm1) +
                          " NumOfSequenceParameterSets=" + H(sps.size()) + " SequenceParameterSets=" + nal_list(sps) +
                          " NumOfPictureParameterSets=" + H(pps.size()) + " PictureParameterSets=" + nal_list(pps);
                 if (fields) {
                   w.u8(0xfc | cf);
                   w.u8(0xf8 | bl);
                   w.u8(0xf8 | bc);
                   w.u8(ext.size());
                   for (auto& n : ext) {
                     w.u16(n.size());
                     w.raw(n);
                   }
                   x.text += " ChromaFormat=" + H(cf) + " BitDepthLumaMinus8=" + H(bl) + " BitDepthChromaMinus8=" + H(bc) +
                             " NumOfSequenceParameterSetExt=" + H(ext.size()) +
                             " SequenceParameterSetsExt=" + nal_list(ext);
                   x.lenient_prefix = {{base, base + 3}};
                 }
                 x.wire = w.b;
                 x.greedy = true;
                 x.interesting = !sps.empty() || !pps.empty();
                 x.variant = fields ? "high-fields" : high ? "high" : "plain";
                 x.make = [=] {
                   return std::make_unique<bx::AVCDecoderConfiguration>(
                       bx::AVCDecoderConfigurationParameters{.configuration_version = cv,
                                                             .profile = prof,
                                                             .profile_compatibility = compat,
                                                             .level = level,
                                                             .length_size_minus_one = lsm1,
                                                             .sequence_parameter_sets = sets(sps),
                                                             .picture_parameter_sets = sets(pps),
                                                             .high_profile_fields_enabled = fields,
                                                             .chroma_format = cf,
                                                             .bit_depth_luma_minus8 = bl,
                                                             .bit_depth_chroma_minus8 = bc,
                                                             .sequence_parameter_sets_ext = sets(ext)});
                 };
                 return x;
               }});

  k.push_back({"dOps", [](Src& s, bool) {
                 Sample x = start<bx::DOps>("dOps", "dOps");
                 const u8 ver = s.chance(1, 4) ? static_cast<u8>(s.bits(8)) : 0;
                 const u8 family = s.coin() ? 0 : static_cast<u8>(1 + s.upto(254));
                 const u8 ch = static_cast<u8>(s.bits(8));
                 const u16 pre = static_cast<u16>(s.bits(16));
                 const u32 rate = static_cast<u32>(s.bits(32));
                 const auto gain = static_cast<std::int16_t>(s.sbits(16));
                 // family 0 leaves them out
                 const u8 sc = static_cast<u8>(s.bits(8)), cc = static_cast<u8>(s.bits(8));
                 const Bytes map = family ? s.bytes(ch) : s.coin() ? s.bytes(s.size(3, 9)) : Bytes{};
                 Wire w;
                 w.u8(ver);
                 w.u8(ch);
                 w.u16(pre);
                 w.u32(rate);
                 w.u16(static_cast<u16>(gain));
                 w.u8(family);
                 x.text = "Version=" + U(ver) + " OutputChannelCount=" + U(ch) + " PreSkip=" + U(pre) +
                          " InputSampleRate=" + U(rate) + " OutputGain=" + D(gain) +
                          " ChannelMappingFamily=" + U(family);
                 if (family) {
                   w.u8(sc);
                   w.u8(cc);
                   w.raw(map);
                   x.text += " StreamCount=" + U(sc) + " CoupledCount=" + U(cc) + " ChannelMapping=" + DecList(map);
                 }
                 x.wire = w.b;
                 x.interesting = true;
                 x.variant = family ? "mapped" : "plain";
                 x.make = [=] {
                   return std::make_unique<bx::DOps>(bx::DOpsParameters{
                       .version = ver,
                       .output_channel_count = ch,
                       .pre_skip = pre,
                       .input_sample_rate = rate,
                       .output_gain = gain,
                       .channel_mapping_family = family,
                       .channel_mapping_table = bx::DOpsChannelMappingTable(bx::DOpsChannelMappingTableParameters{
                           .stream_count = sc, .coupled_count = cc, .channel_mapping = map})});
                 };
                 return x;
               }});

  k.push_back({"esds", [](Src& s, bool foreign) {
                 Sample x = start_full<bx::Esds>(s, "esds", "esds", {0, 0});
                 if (!foreign) x.flags = 0;
                 std::vector<Desc> ds(s.size(1, 4));
                 for (auto& d : ds) d = gen_desc(s, s.pick<int>({3, 4, 5, 6}), foreign, 0);
                 const bool unknown = foreign && s.chance(1, 4);
                 Bytes tail;
                 if (unknown) {
                   u8 tag;
                   do {
                     tag = static_cast<u8>(s.bits(8));
                   } while (tag >= 3 && tag <= 6);
                   tail.push_back(tag);
                   const Bytes rest = s.bytes(s.size(3, 30));
                   tail.insert(tail.end(), rest.begin(), rest.end());
                 }
                 Wire w;
                 w.full(x.version, x.flags);
                 std::vector<std::size_t> bounds{4};
                 std::vector<std::string> text;
                 for (const auto& d : ds) put_desc(w, d, bounds, text);
                 if (unknown) bounds.pop_back();
                 for (auto b : bounds) x.lenient_prefix.push_back({b, b});
                 if (unknown) x.lenient_prefix.push_back({w.b.size(), w.b.size() + tail.size()});
                 w.raw(tail);
                 x.wire = w.b;
                 x.greedy = true;
                 x.interesting = !ds.empty();
                 x.variant = unknown ? "unknown-tag" : "n" + U(text.size());
                 x.text = VF(x.version, x.flags) + " Descriptors=[" + L(text, [](const std::string& t) { return t; }) + "]";
                 if (!foreign) {
                   x.make = [ds] {
                     std::vector<std::shared_ptr<bx::Descriptor>> flat;
                     for (const auto& d : ds) make_desc(d, flat);
                     return std::make_unique<bx::Esds>(bx::EsdsParameters{.descriptors = flat});
                   };
                 }
                 return x;
               }});

  k.push_back({"visual", [](Src& s, bool) {
                 const FourCC t = fourcc(s.pick<const char*>({"avc1", "vp08", "vp09", "av01", "encv", "vp10"}));
                 Sample x;
                 x.kind = "visual";
                 x.type = t;
                 x.container = true;
                 const u16 dri = static_cast<u16>(s.bits(16)), pd = static_cast<u16>(s.bits(16));
                 std::array<u32, 3> pd2;
                 for (auto& v : pd2) v = static_cast<u32>(s.bits(32));
                 const u16 wd = static_cast<u16>(s.bits(16)), ht = static_cast<u16>(s.bits(16));
                 const u32 hr = static_cast<u32>(s.bits(32)), vr = static_cast<u32>(s.bits(32));
                 const u16 fc = static_cast<u16>(s.bits(16)), depth = static_cast<u16>(s.bits(16));
                 const auto pd3 = static_cast<std::int16_t>(s.sbits(16));
                 std::array<u8, 32> name{};
                 const std::size_t len = s.below(32);
                 const std::string nm = s.text(len);
                 // a length byte beyond the field
                 name[0] = static_cast<u8>(s.chance(1, 6) ? (s.coin() ? 32 : 32 + s.below(224)) : len);
                 for (std::size_t i = 0; i < nm.size(); ++i) name[i + 1] = static_cast<u8>(nm[i]);
                 Wire w;
                 w.u(0, 48);
                 w.u16(dri);
                 w.u16(pd);
                 w.u16(0);
                 for (auto v : pd2) w.u32(v);
                 w.u16(wd);
                 w.u16(ht);
                 w.u32(hr);
                 w.u32(vr);
                 w.u32(0);
                 w.u16(fc);
                 w.raw(Bytes(name.begin(), name.end()));
                 w.u16(depth);
                 w.u16(static_cast<u16>(pd3));
                 x.wire = w.b;
                 x.interesting = true;
                 const std::size_t shown = std::min<std::size_t>(name[0], 31);
                 x.text = "DataReferenceIndex=" + U(dri) + " PreDefined=" + U(pd) + " PreDefined2=" + DecList(pd2) +
                          " Width=" + U(wd) + " Height=" + U(ht) + " Horizresolution=" + U(hr) +
                          " Vertresolution=" + U(vr) + " FrameCount=" + U(fc) + " Compressorname=\"" +
                          std::string(name.begin() + 1, name.begin() + 1 + static_cast<std::ptrdiff_t>(shown)) +
                          "\" Depth=" + U(depth) + " PreDefined3=" + D(pd3);
                 x.fresh = [t]() -> BoxPtr { return std::make_unique<bx::VisualSampleEntry>(shiguredo::mp4::BoxType(t)); };
                 x.make = [=] {
                   return std::make_unique<bx::VisualSampleEntry>(
                       bx::VisualSampleEntryParameters{.type = shiguredo::mp4::BoxType(t),
                                                       .data_reference_index = dri,
                                                       .pre_defined = pd,
                                                       .pre_defined2 = pd2,
                                                       .width = wd,
                                                       .height = ht,
                                                       .horizresolution = hr,
                                                       .vertresolution = vr,
                                                       .frame_count = fc,
                                                       .compressorname = name,
                                                       .depth = depth,
                                                       .pre_defined3 = pd3});
                 };
                 return x;
               }});

  k.push_back({"audio", [](Src& s, bool foreign) {
                 const FourCC t = fourcc(s.pick<const char*>({"mp4a", "enca", "Opus"}));
                 const bool opus = t == fourcc("Opus");
                 Sample x;
                 x.kind = "audio";
                 x.type = t;
                 const u16 dri = static_cast<u16>(s.bits(16));
                 int mode = opus ? static_cast<int>(s.below(2)) : static_cast<int>(s.below(5));
                 // 0: version 0; 1: version without extension data; 2/3: QuickTime version 1/2; 4: other version with data
                 u16 ver = 0;
                 Bytes qt;
                 switch (mode) {
                   case 1:
                     ver = foreign ? static_cast<u16>(1 + s.upto(65534)) : static_cast<u16>(3 + s.upto(65532));
                     break;
                   case 2:
                     ver = 1;
                     qt = s.bytes(16);
                     break;
                   case 3:
                     ver = 2;
                     qt = s.bytes(36);
                     break;
                   case 4:
                     ver = static_cast<u16>(3 + s.upto(65532));
                     qt = s.bytes(1 + sized(s, 8, 100));
                     break;
                   default:
                     break;
                 }
                 const u16 ch = static_cast<u16>(s.bits(16)), size = static_cast<u16>(s.bits(16)),
                           pd = static_cast<u16>(s.bits(16));
                 const u32 rate = static_cast<u32>(s.bits(32));
                 Wire w;
                 w.u(0, 48);
                 w.u16(dri);
                 w.u16(ver);
                 w.u(0, 48);
                 w.u16(ch);
                 w.u16(size);
                 w.u16(pd);
                 w.u16(0);
                 w.u32(rate);
                 w.raw(qt);
                 x.wire = w.b;
                 x.interesting = true;
                 x.variant = std::string(opus ? "Opus " : "") + "m" + D(mode);
                 // extension data of an unknown version runs to the end, and so would children of a plain entry
                 x.greedy = !opus && (mode == 1 || mode == 4);
                 x.container = !x.greedy;
                 if (mode == 2 || mode == 3) x.lenient_prefix = {{28, 28}};
                 if (mode == 4) x.lenient_prefix = {{28, w.b.size()}};
                 x.text = "DataReferenceIndex=" + U(dri) + " EntryVersion=" + U(ver) + " ChannelCount=" + U(ch) +
                          " SampleSize=" + U(size) + " PreDefined=" + U(pd) + " SampleRate=" + U(rate) +
                          (qt.empty() ? "" : " QuickTimeData=" + HexList(qt));
                 x.fresh = [t]() -> BoxPtr { return std::make_unique<bx::AudioSampleEntry>(shiguredo::mp4::BoxType(t)); };
                 if (ver != 1 || !qt.empty()) {
                   if (ver != 2 || !qt.empty()) {
                     x.make = [=] {
                       return std::make_unique<bx::AudioSampleEntry>(
                           bx::AudioSampleEntryParameters{.type = shiguredo::mp4::BoxType(t),
                                                          .data_reference_index = dri,
                                                          .entry_version = ver,
                                                          .channel_count = ch,
                                                          .sample_size = size,
                                                          .pre_defined = pd,
                                                          .sample_rate = rate,
                                                          .is_quick_time_compatible = !qt.empty(),
                                                          .quick_time_data = qt});
                     };
                   }
                 }
                 return x;
               }});

  k.push_back({"audio-under-wave", [](Src& s, bool) {
                 const FourCC t = fourcc(s.pick<const char*>({"mp4a", "enca"}));
                 Sample x;
                 x.kind = "audio-under-wave";
                 x.type = t;
                 x.under_wave = true;
                 x.greedy = true;
                 const Bytes d = s.bytes(sized(s, 4, 60));
                 x.wire = d;
                 x.interesting = !d.empty();
                 x.lenient_prefix = {{0, d.size()}};
                 x.text = "QuickTimeData=" + HexList(d);
                 x.fresh = [t]() -> BoxPtr {
                   auto p = std::make_unique<bx::AudioSampleEntry>(shiguredo::mp4::BoxType(t));
                   p->setUnderWave(true);
                   return p;
                 };
                 x.make = [=] {
                   return std::make_unique<bx::AudioSampleEntry>(
                       bx::AudioSampleEntryParameters{.type = shiguredo::mp4::BoxType(t),
                                                      .data_reference_index = 0,
                                                      .entry_version = 0,
                                                      .channel_count = 0,
                                                      .sample_size = 0,
                                                      .pre_defined = 0,
                                                      .sample_rate = 0,
                                                      .is_quick_time_compatible = true,
                                                      .quick_time_data = d,
                                                      .under_wave = true});
                 };
                 return x;
               }});

  k.push_back({"vpcC", [](Src& s, bool) {
                 Sample x = start_full<bx::VPCodecConfiguration>(s, "vpcC", "vpcC", {1, 0});
                 std::array<u8, 5> b;
                 for (auto& v : b) v = static_cast<u8>(s.bits(8));
                 const u8 depth = static_cast<u8>(s.bits(4)), sub = static_cast<u8>(s.bits(3)),
                          range = static_cast<u8>(s.bits(1));
                 const Bytes d = x.version == 0 ? Bytes{} : s.bytes(s.chance(1, 100) ? 65535 - s.below(2) : std::min<std::size_t>(sized(s, 4, 300), 65535));
                 Wire w;
                 w.full(x.version, x.flags);
                 w.u8(b[0]);
                 w.u8(b[1]);
                 w.u8((depth << 4) | (sub << 1) | range);
                 w.u8(b[2]);
                 w.u8(b[3]);
                 w.u8(b[4]);
                 if (x.version != 0) {
                   w.u16(d.size());
                   w.raw(d);
                 }
                 x.wire = w.b;
                 x.interesting = true;
                 x.text = VF(x.version, x.flags) + " Profile=" + U(b[0]) + " Level=" + U(b[1]) + " BitDepth=" + U(depth) +
                          " ChromaSubSampling=" + U(sub) + " VideoFullRangeFlag=" + U(range) +
                          " ColourPrimaries=" + U(b[2]) + " TransferCharacteristics=" + U(b[3]) +
                          " MatrixCoefficients=" + U(b[4]) + " CodecInitializationData=" + HexList(d);
                 x.make = [=, v = x.version, f = x.flags] {
                   return std::make_unique<bx::VPCodecConfiguration>(
                       bx::VPCodecConfigurationParameters{.version = v,
                                                          .flags = f,
                                                          .profile = b[0],
                                                          .level = b[1],
                                                          .bit_depth = depth,
                                                          .chroma_sub_sampling = sub,
                                                          .video_full_range_flag = range,
                                                          .colour_primaries = b[2],
                                                          .transfer_characteristics = b[3],
                                                          .matrix_coefficients = b[4],
                                                          .codec_initialization_data = d});
                 };
                 return x;
               }});
}

}  // namespace model
