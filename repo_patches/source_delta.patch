From c67bcf94bbc36a23ac4ee88f5bed71dd63bdfecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 01/54] fix: FullBox::removeFlag must not set a flag that was
 not set

---
 src/box.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/box.cpp b/src/box.cpp
index 87bfa9b..00068ed 100644
--- a/src/box.cpp
+++ b/src/box.cpp
@@ -148,7 +148,7 @@ void FullBox::addFlag(std::uint32_t flag) {
 }
 
 void FullBox::removeFlag(std::uint32_t flag) {
-  setFlags(getFlags() ^ flag);
+  setFlags(getFlags() & ~flag);
 }
 
 std::uint64_t FullBox::writeVersionAndFlag(bitio::Writer* writer) const {
-- 
2.43.0


From 350bc0af3e0140929a4ed88f4623799197a2a7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 02/54] fix: BoxHeader::write must report a failed write of the
 header bytes

---
 src/box_header.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/box_header.cpp b/src/box_header.cpp
index 5cc2e9e..10b65d8 100644
--- a/src/box_header.cpp
+++ b/src/box_header.cpp
@@ -105,7 +105,9 @@ std::uint64_t BoxHeader::write(std::ostream& os) {
   data[6] = type_data[2];
   data[7] = type_data[3];
 
-  std::copy(std::begin(data), std::end(data), std::ostreambuf_iterator<char>(os));
+  if (std::copy(std::begin(data), std::end(data), std::ostreambuf_iterator<char>(os)).failed()) {
+    throw std::runtime_error("BoxHeader::write(): cannot write header to ostream");
+  }
   m_size += std::size(data) - m_header_size;
   m_header_size = std::size(data);
   return m_size;
-- 
2.43.0


From 1a13d735ba540a26107d16c6ad86df97f035766e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:39 +0000
Subject: [PATCH 03/54] fix: esds streamPriority and streamType are unsigned
 bit fields

---
 src/box/esds.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/box/esds.cpp b/src/box/esds.cpp
index ed8d5e9..dc72e00 100644
--- a/src/box/esds.cpp
+++ b/src/box/esds.cpp
@@ -46,7 +46,7 @@ std::uint64_t ESDescriptor::writeData(bitio::Writer* writer) const {
   wbits += write_bool(writer, m_stream_dependence_flag);
   wbits += write_bool(writer, m_url_flag);
   wbits += write_bool(writer, m_ocr_stream_flag);
-  wbits += bitio::write_int<std::int8_t>(writer, m_stream_priority, 5);
+  wbits += bitio::write_uint<std::uint8_t>(writer, static_cast<std::uint8_t>(m_stream_priority), 5);
   if (m_stream_dependence_flag) {
     wbits += bitio::write_uint<std::uint16_t>(writer, m_depends_on_esid);
   }
@@ -101,7 +101,9 @@ std::uint64_t ESDescriptor::readData(bitio::Reader* reader) {
   rbits += read_bool(reader, &m_stream_dependence_flag);
   rbits += read_bool(reader, &m_url_flag);
   rbits += read_bool(reader, &m_ocr_stream_flag);
-  rbits += bitio::read_int<std::int8_t>(reader, &m_stream_priority, 5);
+  std::uint8_t stream_priority;
+  rbits += bitio::read_uint<std::uint8_t>(reader, &stream_priority, 5);
+  m_stream_priority = static_cast<std::int8_t>(stream_priority);
   if (m_stream_dependence_flag) {
     rbits += bitio::read_uint<std::uint16_t>(reader, &m_depends_on_esid);
   }
@@ -159,7 +161,7 @@ std::uint64_t DecoderConfigDescriptor::writeData(bitio::Writer* writer) const {
   auto wbits = bitio::write_int<std::int8_t>(writer, m_tag);
   wbits += bitio::write_uvarint<std::uint32_t>(writer, getDataSizeWithSubDescriptors());
   wbits += bitio::write_uint<std::uint8_t>(writer, m_object_type_indication);
-  wbits += bitio::write_int<std::int8_t>(writer, m_stream_type, 6);
+  wbits += bitio::write_uint<std::uint8_t>(writer, static_cast<std::uint8_t>(m_stream_type), 6);
   wbits += write_bool(writer, m_upstream);
   wbits += write_bool(writer, m_reserved);
   wbits += bitio::write_uint<std::uint32_t>(writer, m_buffer_size_db, 24);
@@ -189,7 +191,9 @@ std::uint64_t DecoderConfigDescriptor::readData(bitio::Reader* reader) {
   std::uint32_t data_size_with_sub_descriptors;
   auto rbits = bitio::read_uvarint<std::uint32_t>(reader, &data_size_with_sub_descriptors);
   rbits += bitio::read_uint<std::uint8_t>(reader, &m_object_type_indication);
-  rbits += bitio::read_int<std::int8_t>(reader, &m_stream_type, 6);
+  std::uint8_t stream_type;
+  rbits += bitio::read_uint<std::uint8_t>(reader, &stream_type, 6);
+  m_stream_type = static_cast<std::int8_t>(stream_type);
   rbits += read_bool(reader, &m_upstream);
   rbits += read_bool(reader, &m_reserved);
   rbits += bitio::read_uint<std::uint32_t>(reader, &m_buffer_size_db, 24);
-- 
2.43.0


From fd23df7bcc7d0aff45590d07f97a0ac134e472ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 04/54] fix: esds with an unknown descriptor must not report
 more bits than its payload

---
 src/box/esds.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/box/esds.cpp b/src/box/esds.cpp
index dc72e00..e0ec34e 100644
--- a/src/box/esds.cpp
+++ b/src/box/esds.cpp
@@ -343,7 +343,8 @@ std::uint64_t Esds::readData(std::istream& is) {
         break;
       default:
         spdlog::info("Esds::readData(): unknown tag: {}", tag);
-        return rbits + static_cast<std::uint64_t>(offset_to_end) * 8;
+        // offset_to_end includes the tag, which has already been counted
+        return rbits + static_cast<std::uint64_t>(offset_to_end - 1) * 8;
     }
     rbits += p->readData(&reader);
     m_descriptors.push_back(p);
-- 
2.43.0


From 4e848d9b8fdbd98b1ec205a6743c7b93ebcee2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 05/54] fix: hdlr must read the padding after the name as
 bytes, not bits

---
 src/box/hdlr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/box/hdlr.cpp b/src/box/hdlr.cpp
index 343d481..ffc0cde 100644
--- a/src/box/hdlr.cpp
+++ b/src/box/hdlr.cpp
@@ -77,7 +77,7 @@ std::uint64_t Hdlr::readData(std::istream& is) {
         fmt::format("Hdlr::readData(): invalid name_rbits: offset_to_end={} name_rbits={}", offset_to_end, name_rbits));
   }
   rbits += name_rbits;
-  return rbits + bitio::read_vector_uint<std::uint8_t>(&reader, (offset_to_end * 8) - name_rbits, &m_padding);
+  return rbits + bitio::read_vector_uint<std::uint8_t>(&reader, offset_to_end - name_rbits / 8, &m_padding);
 }
 
 }  // namespace shiguredo::mp4::box
-- 
2.43.0


From 91bc874bb4367cb9ad7178896c6378d1e28e338b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 06/54] fix: stsz must keep the sample count when all samples
 have the same size

---
 include/shiguredo/mp4/box/stsz.hpp |  1 +
 src/box/stsz.cpp                   | 14 ++++++++------
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/shiguredo/mp4/box/stsz.hpp b/include/shiguredo/mp4/box/stsz.hpp
index f59290d..3e94586 100644
--- a/include/shiguredo/mp4/box/stsz.hpp
+++ b/include/shiguredo/mp4/box/stsz.hpp
@@ -32,6 +32,7 @@ class Stsz : public FullBox {
 
  private:
   std::uint32_t m_sample_size;
+  std::uint32_t m_sample_count;
   std::vector<std::uint32_t> m_entry_sizes;
 };
 
diff --git a/src/box/stsz.cpp b/src/box/stsz.cpp
index c9281c7..3d8e2d4 100644
--- a/src/box/stsz.cpp
+++ b/src/box/stsz.cpp
@@ -24,7 +24,10 @@ Stsz::Stsz() {
   m_type = box_type_stsz();
 }
 
-Stsz::Stsz(const StszParameters& params) : m_sample_size(params.sample_size), m_entry_sizes(params.entry_sizes) {
+Stsz::Stsz(const StszParameters& params)
+    : m_sample_size(params.sample_size),
+      m_sample_count(static_cast<std::uint32_t>(std::size(params.entry_sizes))),
+      m_entry_sizes(params.sample_size == 0 ? params.entry_sizes : std::vector<std::uint32_t>()) {
   setVersion(params.version);
   setFlags(params.flags);
   m_type = box_type_stsz();
@@ -32,14 +35,14 @@ Stsz::Stsz(const StszParameters& params) : m_sample_size(params.sample_size), m_
 
 std::string Stsz::toStringOnlyData() const {
   return fmt::format("{} SampleSize={} SampleCount={} EntrySizes=[{}]", getVersionAndFlagsString(), m_sample_size,
-                     std::size(m_entry_sizes), fmt::join(m_entry_sizes, ", "));
+                     m_sample_count, fmt::join(m_entry_sizes, ", "));
 }
 
 std::uint64_t Stsz::writeData(std::ostream& os) const {
   bitio::Writer writer(os);
   std::uint64_t wbits = writeVersionAndFlag(&writer);
   wbits += bitio::write_uint<std::uint32_t>(&writer, m_sample_size);
-  wbits += bitio::write_uint<std::uint32_t>(&writer, static_cast<std::uint32_t>(std::size(m_entry_sizes)));
+  wbits += bitio::write_uint<std::uint32_t>(&writer, m_sample_count);
   if (m_sample_size == 0) {
     wbits += bitio::write_vector_uint<std::uint32_t>(&writer, m_entry_sizes);
   }
@@ -54,10 +57,9 @@ std::uint64_t Stsz::readData(std::istream& is) {
   bitio::Reader reader(is);
   std::uint64_t rbits = readVersionAndFlag(&reader);
   rbits += bitio::read_uint<std::uint32_t>(&reader, &m_sample_size);
-  std::uint32_t sample_count;
-  rbits += bitio::read_uint<std::uint32_t>(&reader, &sample_count);
+  rbits += bitio::read_uint<std::uint32_t>(&reader, &m_sample_count);
   if (m_sample_size == 0) {
-    rbits += bitio::read_vector_uint<std::uint32_t>(&reader, sample_count, &m_entry_sizes);
+    rbits += bitio::read_vector_uint<std::uint32_t>(&reader, m_sample_count, &m_entry_sizes);
   } else {
     m_entry_sizes.clear();
   }
-- 
2.43.0


From fa1415916c51bcdd7cb19fb2b3bd24b558775123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 07/54] fix: composition time offsets of version 0 ctts and
 trun boxes are unsigned

---
 include/shiguredo/mp4/box/ctts.hpp |  4 ++--
 include/shiguredo/mp4/box/trun.hpp |  4 ++--
 src/box/ctts.cpp                   | 23 +++++++++++++++--------
 src/box/trun.cpp                   | 25 +++++++++++++++++++------
 4 files changed, 38 insertions(+), 18 deletions(-)

diff --git a/include/shiguredo/mp4/box/ctts.hpp b/include/shiguredo/mp4/box/ctts.hpp
index 716bb7f..a0dc5a4 100644
--- a/include/shiguredo/mp4/box/ctts.hpp
+++ b/include/shiguredo/mp4/box/ctts.hpp
@@ -25,8 +25,8 @@ class CttsEntry {
   CttsEntry(const std::uint32_t, const std::int64_t);
 
   std::string toString() const;
-  std::uint64_t writeData(bitio::Writer*) const;
-  std::uint64_t readData(bitio::Reader*);
+  std::uint64_t writeData(bitio::Writer*, const std::uint8_t) const;
+  std::uint64_t readData(bitio::Reader*, const std::uint8_t);
 
  private:
   std::uint32_t m_sample_count;
diff --git a/include/shiguredo/mp4/box/trun.hpp b/include/shiguredo/mp4/box/trun.hpp
index 5f91c77..7d93018 100644
--- a/include/shiguredo/mp4/box/trun.hpp
+++ b/include/shiguredo/mp4/box/trun.hpp
@@ -30,9 +30,9 @@ class TrunEntry {
   explicit TrunEntry(const TrunEntryParameters&);
 
   std::string toString(const std::uint32_t) const;
-  std::uint64_t writeData(bitio::Writer*, const std::uint32_t) const;
+  std::uint64_t writeData(bitio::Writer*, const std::uint32_t, const std::uint8_t) const;
   std::uint64_t getSize(const std::uint32_t) const;
-  std::uint64_t readData(bitio::Reader*, const std::uint32_t);
+  std::uint64_t readData(bitio::Reader*, const std::uint32_t, const std::uint8_t);
 
  private:
   std::uint32_t m_sample_duration;
diff --git a/src/box/ctts.cpp b/src/box/ctts.cpp
index ec1dae0..60e5cca 100644
--- a/src/box/ctts.cpp
+++ b/src/box/ctts.cpp
@@ -27,16 +27,23 @@ std::string CttsEntry::toString() const {
   return fmt::format("{{SampleCount={} SampleOffset={}}}", m_sample_count, m_sample_offset);
 }
 
-std::uint64_t CttsEntry::writeData(bitio::Writer* writer) const {
+std::uint64_t CttsEntry::writeData(bitio::Writer* writer, const std::uint8_t version) const {
   std::uint64_t wbits = bitio::write_uint<std::uint32_t>(writer, m_sample_count);
-  wbits += bitio::write_int<std::int64_t>(writer, m_sample_offset, 32);
-  return wbits;
+  if (version == 0) {
+    return wbits + bitio::write_uint<std::uint64_t>(writer, static_cast<std::uint64_t>(m_sample_offset), 32);
+  }
+  return wbits + bitio::write_int<std::int64_t>(writer, m_sample_offset, 32);
 }
 
-std::uint64_t CttsEntry::readData(bitio::Reader* reader) {
+std::uint64_t CttsEntry::readData(bitio::Reader* reader, const std::uint8_t version) {
   std::uint64_t rbits = bitio::read_uint<std::uint32_t>(reader, &m_sample_count);
-  rbits += bitio::read_int<std::int64_t>(reader, &m_sample_offset, 32);
-  return rbits;
+  if (version == 0) {
+    std::uint32_t sample_offset;
+    rbits += bitio::read_uint<std::uint32_t>(reader, &sample_offset);
+    m_sample_offset = sample_offset;
+    return rbits;
+  }
+  return rbits + bitio::read_int<std::int64_t>(reader, &m_sample_offset, 32);
 }
 
 BoxType box_type_ctts() {
@@ -67,7 +74,7 @@ std::uint64_t Ctts::writeData(std::ostream& os) const {
   std::uint64_t wbits = writeVersionAndFlag(&writer);
   wbits += bitio::write_uint<std::uint32_t>(&writer, static_cast<std::uint32_t>(std::size(m_entries)));
   wbits += std::accumulate(std::begin(m_entries), std::end(m_entries), 0UL,
-                           [&writer](const auto a, const auto& e) { return a + e.writeData(&writer); });
+                           [&](const auto a, const auto& e) { return a + e.writeData(&writer, m_version); });
   return wbits;
 }
 
@@ -78,7 +85,7 @@ std::uint64_t Ctts::readData(std::istream& is) {
   rbits += bitio::read_uint<std::uint32_t>(&reader, &entry_count);
   m_entries.resize(entry_count);
   for (std::size_t i = 0; i < entry_count; ++i) {
-    rbits += m_entries[i].readData(&reader);
+    rbits += m_entries[i].readData(&reader, m_version);
   }
   return rbits;
 }
diff --git a/src/box/trun.cpp b/src/box/trun.cpp
index dcd0896..cd151bd 100644
--- a/src/box/trun.cpp
+++ b/src/box/trun.cpp
@@ -61,7 +61,7 @@ std::uint64_t Trun::writeData(std::ostream& os) const {
     wbits += bitio::write_uint<std::uint32_t>(&writer, m_first_sample_flags);
   }
   wbits += std::accumulate(std::begin(m_entries), std::end(m_entries), 0UL,
-                           [&writer, &flags](const auto a, const auto& e) { return a + e.writeData(&writer, flags); });
+                           [&](const auto a, const auto& e) { return a + e.writeData(&writer, flags, m_version); });
   return wbits;
 }
 
@@ -94,7 +94,7 @@ std::uint64_t Trun::readData(std::istream& is) {
   }
   m_entries.resize(sample_count);
   for (std::size_t i = 0; i < sample_count; ++i) {
-    rbits += m_entries[i].readData(&reader, flags);
+    rbits += m_entries[i].readData(&reader, flags, m_version);
   }
   return rbits;
 }
@@ -124,7 +124,9 @@ std::string TrunEntry::toString(const std::uint32_t flags) const {
   return fmt::format("{{{}}}", fmt::join(ss, " "));
 }
 
-std::uint64_t TrunEntry::writeData(bitio::Writer* writer, const std::uint32_t flags) const {
+std::uint64_t TrunEntry::writeData(bitio::Writer* writer,
+                                   const std::uint32_t flags,
+                                   const std::uint8_t version) const {
   std::uint64_t wbits = 0;
   if (flags & 0x100) {
     wbits += bitio::write_uint<std::uint32_t>(writer, m_sample_duration);
@@ -136,7 +138,12 @@ std::uint64_t TrunEntry::writeData(bitio::Writer* writer, const std::uint32_t fl
     wbits += bitio::write_uint<std::uint32_t>(writer, m_sample_flags);
   }
   if (flags & 0x800) {
-    wbits += bitio::write_int<std::int64_t>(writer, m_sample_composition_time_offset, 32);
+    if (version == 0) {
+      wbits +=
+          bitio::write_uint<std::uint64_t>(writer, static_cast<std::uint64_t>(m_sample_composition_time_offset), 32);
+    } else {
+      wbits += bitio::write_int<std::int64_t>(writer, m_sample_composition_time_offset, 32);
+    }
   }
   return wbits;
 }
@@ -158,7 +165,7 @@ std::uint64_t TrunEntry::getSize(const std::uint32_t flags) const {
   return size;
 }
 
-std::uint64_t TrunEntry::readData(bitio::Reader* reader, const std::uint32_t flags) {
+std::uint64_t TrunEntry::readData(bitio::Reader* reader, const std::uint32_t flags, const std::uint8_t version) {
   std::uint64_t rbits = 0;
   if (flags & 0x100) {
     rbits += bitio::read_uint<std::uint32_t>(reader, &m_sample_duration);
@@ -170,7 +177,13 @@ std::uint64_t TrunEntry::readData(bitio::Reader* reader, const std::uint32_t fla
     rbits += bitio::read_uint<std::uint32_t>(reader, &m_sample_flags);
   }
   if (flags & 0x800) {
-    rbits += bitio::read_int<std::int64_t>(reader, &m_sample_composition_time_offset, 32);
+    if (version == 0) {
+      std::uint32_t offset;
+      rbits += bitio::read_uint<std::uint32_t>(reader, &offset);
+      m_sample_composition_time_offset = offset;
+    } else {
+      rbits += bitio::read_int<std::int64_t>(reader, &m_sample_composition_time_offset, 32);
+    }
   }
   return rbits;
 }
-- 
2.43.0


From 03229e8316f586b053e67cc50ce6e12536bd8506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 08/54] fix: format_epoch_19040101 must treat times of 2^63
 seconds and later as too big

---
 src/time/time.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time/time.cpp b/src/time/time.cpp
index ce8670a..f40f309 100644
--- a/src/time/time.cpp
+++ b/src/time/time.cpp
@@ -10,11 +10,11 @@
 namespace shiguredo::mp4::time {
 
 std::string format_epoch_19040101(const std::uint64_t t) {
-  std::time_t from1970 = static_cast<std::time_t>(t - SECONDS_19040101_to_19700101);
-  if (from1970 > std::numeric_limits<std::uint32_t>::max()) {
+  if (t > SECONDS_19040101_to_19700101 + std::numeric_limits<std::uint32_t>::max()) {
     // cannot handle big values.
     return "0000-00-00T00:00:00Z";
   }
+  std::time_t from1970 = static_cast<std::time_t>(t - SECONDS_19040101_to_19700101);
   std::tm tm;
 
   return fmt::format("{:%FT%TZ}", *gmtime_r(&from1970, &tm));
-- 
2.43.0


From 5f29e95842a81dfebc853fab1cb67325db4a68dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 09/54] fix: an AudioSampleEntry under wave is written as it is
 read; initialise its flags

---
 include/shiguredo/mp4/box/sample_entry.hpp | 4 ++--
 src/box/sample_entry.cpp                   | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/shiguredo/mp4/box/sample_entry.hpp b/include/shiguredo/mp4/box/sample_entry.hpp
index 2a7a91a..b4dcb98 100644
--- a/include/shiguredo/mp4/box/sample_entry.hpp
+++ b/include/shiguredo/mp4/box/sample_entry.hpp
@@ -106,9 +106,9 @@ class AudioSampleEntry : public SampleEntry {
   std::uint16_t m_pre_defined;
   std::uint16_t m_reserved3 = 0;
   std::uint32_t m_sample_rate;
-  bool m_is_quick_time_compatible;
+  bool m_is_quick_time_compatible = false;
   std::vector<std::uint8_t> m_quick_time_data;
-  bool m_under_wave;
+  bool m_under_wave = false;
 
   void checkLengthOfQuickTimeData(std::uint64_t size) const;
   std::uint64_t getLengthOfQuickTimeData(std::uint64_t size) const;
diff --git a/src/box/sample_entry.cpp b/src/box/sample_entry.cpp
index 8e67cfc..983d5db 100644
--- a/src/box/sample_entry.cpp
+++ b/src/box/sample_entry.cpp
@@ -149,6 +149,9 @@ std::string AudioSampleEntry::toStringOnlyData() const {
 
 std::uint64_t AudioSampleEntry::writeData(std::ostream& os) const {
   bitio::Writer writer(os);
+  if (m_under_wave) {
+    return bitio::write_vector_uint<std::uint8_t>(&writer, m_quick_time_data);
+  }
   std::uint64_t wbits = writeReservedAndDataReferenceIndex(&writer);
   wbits += bitio::write_uint<std::uint16_t>(&writer, m_entry_version);
   for (const auto r : m_reserved2) {
@@ -166,6 +169,9 @@ std::uint64_t AudioSampleEntry::writeData(std::ostream& os) const {
 }
 
 std::uint64_t AudioSampleEntry::getDataSize() const {
+  if (m_under_wave) {
+    return std::size(m_quick_time_data);
+  }
   std::uint64_t size = 8 + 8 + 8 + 4;
   if (!m_is_quick_time_compatible) {
     return size;
-- 
2.43.0


From 477e87862f46ad0231f2b8b9f2600863c1c181d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 10/54] fix: decoding a version 0 vpcC must not keep stale
 codec initialization data

---
 src/box/vpc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/box/vpc.cpp b/src/box/vpc.cpp
index dae7534..03b357b 100644
--- a/src/box/vpc.cpp
+++ b/src/box/vpc.cpp
@@ -70,6 +70,7 @@ std::uint64_t VPCodecConfiguration::readData(std::istream& is) {
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_transfer_characteristics);
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_matrix_coefficients);
   if (m_version == 0) {
+    m_codec_initialization_data.clear();
     return rbits;
   }
   std::uint16_t size;
-- 
2.43.0


From 2ad0edae54024a8c5a2cf18fa94323b9310d316c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:08 +0000
Subject: [PATCH 11/54] fix: do not allocate table entries a box claims but
 does not hold

---
 include/shiguredo/mp4/bitio/bitio.hpp |  6 ++++--
 src/box/ctts.cpp                      |  4 ++--
 src/box/elst.cpp                      |  4 ++--
 src/box/pssh.cpp                      |  4 ++--
 src/box/sbgp.cpp                      |  4 ++--
 src/box/sgpd.cpp                      | 20 ++++++++++----------
 src/box/sidx.cpp                      |  4 ++--
 src/box/stsc.cpp                      |  4 ++--
 src/box/stts.cpp                      |  4 ++--
 src/box/tfra.cpp                      |  4 ++--
 10 files changed, 30 insertions(+), 28 deletions(-)

diff --git a/include/shiguredo/mp4/bitio/bitio.hpp b/include/shiguredo/mp4/bitio/bitio.hpp
index ff7e1ec..4e1c83c 100644
--- a/include/shiguredo/mp4/bitio/bitio.hpp
+++ b/include/shiguredo/mp4/bitio/bitio.hpp
@@ -129,9 +129,11 @@ std::uint64_t write_vector_uint(Writer* writer, const std::vector<T>& v) {
 template <typename T>
 std::uint64_t read_vector_uint(Reader* reader, const std::size_t size, std::vector<T>* v) {
   std::uint64_t rbits = 0;
-  v->resize(size);
+  v->clear();
   for (std::size_t i = 0; i < size; ++i) {
-    rbits += read_uint<T>(reader, &((*v)[i]));
+    T val;
+    rbits += read_uint<T>(reader, &val);
+    v->push_back(val);
   }
   return rbits;
 }
diff --git a/src/box/ctts.cpp b/src/box/ctts.cpp
index 60e5cca..9a91e6e 100644
--- a/src/box/ctts.cpp
+++ b/src/box/ctts.cpp
@@ -83,9 +83,9 @@ std::uint64_t Ctts::readData(std::istream& is) {
   std::uint64_t rbits = readVersionAndFlag(&reader);
   std::uint32_t entry_count;
   rbits += bitio::read_uint<std::uint32_t>(&reader, &entry_count);
-  m_entries.resize(entry_count);
+  m_entries.clear();
   for (std::size_t i = 0; i < entry_count; ++i) {
-    rbits += m_entries[i].readData(&reader, m_version);
+    rbits += m_entries.emplace_back().readData(&reader, m_version);
   }
   return rbits;
 }
diff --git a/src/box/elst.cpp b/src/box/elst.cpp
index d0aa4fc..978041e 100644
--- a/src/box/elst.cpp
+++ b/src/box/elst.cpp
@@ -88,11 +88,11 @@ std::uint64_t Elst::readData(std::istream& is) {
   std::uint64_t rbits = readVersionAndFlag(&reader);
   std::uint32_t entry_count;
   rbits += bitio::read_uint<std::uint32_t>(&reader, &entry_count);
-  m_entries.resize(entry_count);
+  m_entries.clear();
   for (std::size_t i = 0; i < entry_count; ++i) {
     ElstEntry entry;
     rbits += entry.readData(&reader, m_version);
-    m_entries[i] = entry;
+    m_entries.push_back(entry);
   }
   return rbits;
 }
diff --git a/src/box/pssh.cpp b/src/box/pssh.cpp
index 28cc2c6..006df29 100644
--- a/src/box/pssh.cpp
+++ b/src/box/pssh.cpp
@@ -93,11 +93,11 @@ std::uint64_t Pssh::readData(std::istream& is) {
   if (m_version != 0) {
     std::uint32_t kid_count;
     rbits += bitio::read_uint<std::uint32_t>(&reader, &kid_count);
-    m_kids.resize(static_cast<std::size_t>(kid_count));
+    m_kids.clear();
     for (std::uint32_t i = 0; i < kid_count; ++i) {
       PsshKID kid;
       rbits += kid.readData(&reader);
-      m_kids[i] = kid;
+      m_kids.push_back(kid);
     }
   }
 
diff --git a/src/box/sbgp.cpp b/src/box/sbgp.cpp
index c25300b..dfade29 100644
--- a/src/box/sbgp.cpp
+++ b/src/box/sbgp.cpp
@@ -87,9 +87,9 @@ std::uint64_t Sbgp::readData(std::istream& is) {
 
   std::uint32_t size;
   rbits += bitio::read_uint<std::uint32_t>(&reader, &size);
-  m_entries.resize(size);
+  m_entries.clear();
   for (std::size_t i = 0; i < size; ++i) {
-    rbits += m_entries[i].readData(&reader);
+    rbits += m_entries.emplace_back().readData(&reader);
   }
 
   return rbits;
diff --git a/src/box/sgpd.cpp b/src/box/sgpd.cpp
index 28bbadb..f225d29 100644
--- a/src/box/sgpd.cpp
+++ b/src/box/sgpd.cpp
@@ -174,36 +174,36 @@ std::uint64_t Sgpd::readData(std::istream& is) {
   if (m_grouping_type == GroupingTypeRoll || m_grouping_type == GroupingTypeProl) {
     std::uint32_t size;
     rbits += bitio::read_uint<std::uint32_t>(&reader, &size);
-    m_roll_distances.resize(size);
+    m_roll_distances.clear();
     for (std::size_t i = 0; i < size; ++i) {
-      rbits += m_roll_distances[i].readData(&reader, no_default_length);
+      rbits += m_roll_distances.emplace_back().readData(&reader, no_default_length);
     }
     return rbits;
   }
   if (m_grouping_type == GroupingTypeAlst) {
     std::uint32_t size;
     rbits += bitio::read_uint<std::uint32_t>(&reader, &size);
-    m_alternative_startup_entries.resize(size);
+    m_alternative_startup_entries.clear();
     for (std::size_t i = 0; i < size; ++i) {
-      rbits += m_alternative_startup_entries[i].readData(&reader, m_default_length, no_default_length);
+      rbits += m_alternative_startup_entries.emplace_back().readData(&reader, m_default_length, no_default_length);
     }
     return rbits;
   }
   if (m_grouping_type == GroupingTypeRap) {
     std::uint32_t size;
     rbits += bitio::read_uint<std::uint32_t>(&reader, &size);
-    m_visual_random_access_entries.resize(size);
+    m_visual_random_access_entries.clear();
     for (std::size_t i = 0; i < size; ++i) {
-      rbits += m_visual_random_access_entries[i].readData(&reader, no_default_length);
+      rbits += m_visual_random_access_entries.emplace_back().readData(&reader, no_default_length);
     }
     return rbits;
   }
   if (m_grouping_type == GroupingTypeTele) {
     std::uint32_t size;
     rbits += bitio::read_uint<std::uint32_t>(&reader, &size);
-    m_temporal_level_entries.resize(size);
+    m_temporal_level_entries.clear();
     for (std::size_t i = 0; i < size; ++i) {
-      rbits += m_temporal_level_entries[i].readData(&reader, no_default_length);
+      rbits += m_temporal_level_entries.emplace_back().readData(&reader, no_default_length);
     }
     return rbits;
   }
@@ -329,9 +329,9 @@ std::uint64_t AlternativeStartupEntry::readData(bitio::Reader* reader,
         fmt::format("AlternativeStartupEntry::readData(): invalid offset of AlternativeStartupEntry: {}", offset));
   }
   size = static_cast<std::size_t>(offset / 32);
-  m_opts.resize(size);
+  m_opts.clear();
   for (std::size_t i = 0; i < size; ++i) {
-    rbits += m_opts[i].readData(reader);
+    rbits += m_opts.emplace_back().readData(reader);
   }
   return rbits;
 }
diff --git a/src/box/sidx.cpp b/src/box/sidx.cpp
index d9f9f39..5dbb4a9 100644
--- a/src/box/sidx.cpp
+++ b/src/box/sidx.cpp
@@ -79,9 +79,9 @@ std::uint64_t Sidx::readData(std::istream& is) {
   rbits += bitio::read_uint<std::uint16_t>(&reader, &m_reserved);
   std::uint16_t size;
   rbits += bitio::read_uint<std::uint16_t>(&reader, &size);
-  m_references.resize(size);
+  m_references.clear();
   for (std::size_t i = 0; i < size; ++i) {
-    rbits += m_references[i].readData(&reader);
+    rbits += m_references.emplace_back().readData(&reader);
   }
 
   return rbits;
diff --git a/src/box/stsc.cpp b/src/box/stsc.cpp
index 694a978..421723e 100644
--- a/src/box/stsc.cpp
+++ b/src/box/stsc.cpp
@@ -60,9 +60,9 @@ std::uint64_t Stsc::readData(std::istream& is) {
   std::uint64_t rbits = readVersionAndFlag(&reader);
   std::uint32_t entry_count;
   rbits += bitio::read_uint<std::uint32_t>(&reader, &entry_count);
-  m_entries.resize(entry_count);
+  m_entries.clear();
   for (std::uint32_t i = 0; i < entry_count; ++i) {
-    rbits += m_entries[i].readData(&reader);
+    rbits += m_entries.emplace_back().readData(&reader);
   }
   return rbits;
 }
diff --git a/src/box/stts.cpp b/src/box/stts.cpp
index a5c3dea..c105104 100644
--- a/src/box/stts.cpp
+++ b/src/box/stts.cpp
@@ -60,9 +60,9 @@ std::uint64_t Stts::readData(std::istream& is) {
   std::uint64_t rbits = readVersionAndFlag(&reader);
   std::uint32_t entry_count;
   rbits += bitio::read_uint<std::uint32_t>(&reader, &entry_count);
-  m_entries.resize(entry_count);
+  m_entries.clear();
   for (std::uint32_t i = 0; i < entry_count; ++i) {
-    rbits += m_entries[i].readData(&reader);
+    rbits += m_entries.emplace_back().readData(&reader);
   }
   return rbits;
 }
diff --git a/src/box/tfra.cpp b/src/box/tfra.cpp
index f890935..4c70f9d 100644
--- a/src/box/tfra.cpp
+++ b/src/box/tfra.cpp
@@ -83,9 +83,9 @@ std::uint64_t Tfra::readData(std::istream& is) {
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_length_size_of_sample_num, 2);
   std::uint32_t entry_count;
   rbits += bitio::read_uint<std::uint32_t>(&reader, &entry_count);
-  m_entries.resize(entry_count);
+  m_entries.clear();
   for (std::uint32_t i = 0; i < entry_count; ++i) {
-    rbits += m_entries[i].readData(&reader, m_version, m_length_size_of_traf_num, m_length_size_of_trun_num,
+    rbits += m_entries.emplace_back().readData(&reader, m_version, m_length_size_of_traf_num, m_length_size_of_trun_num,
                                    m_length_size_of_sample_num);
   }
   return rbits;
-- 
2.43.0


From 59ce30e34989e8976836474846c87b2aaaacc0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:08 +0000
Subject: [PATCH 12/54] fix: sgpd alst entries must not use an unset or
 wrapped-around length

---
 include/shiguredo/mp4/box/sgpd.hpp | 2 +-
 src/box/sgpd.cpp                   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/shiguredo/mp4/box/sgpd.hpp b/include/shiguredo/mp4/box/sgpd.hpp
index fff5755..1fbbb86 100644
--- a/include/shiguredo/mp4/box/sgpd.hpp
+++ b/include/shiguredo/mp4/box/sgpd.hpp
@@ -162,7 +162,7 @@ class Sgpd : public FullBox {
 
  private:
   GroupingType m_grouping_type;
-  std::uint32_t m_default_length;
+  std::uint32_t m_default_length = 0;
   std::uint32_t m_default_sample_description_index;
   std::vector<RollDistance> m_roll_distances;
   std::vector<AlternativeStartupEntry> m_alternative_startup_entries;
diff --git a/src/box/sgpd.cpp b/src/box/sgpd.cpp
index f225d29..26dc8f9 100644
--- a/src/box/sgpd.cpp
+++ b/src/box/sgpd.cpp
@@ -320,9 +320,9 @@ std::uint64_t AlternativeStartupEntry::readData(bitio::Reader* reader,
   std::size_t size;
   std::int64_t offset;
   if (m_with_length) {
-    offset = static_cast<std::int64_t>(m_description_length * 8) - static_cast<std::int64_t>(rbits - 32);
+    offset = static_cast<std::int64_t>(m_description_length) * 8 - static_cast<std::int64_t>(rbits - 32);
   } else {
-    offset = static_cast<std::int64_t>(length * 8) - static_cast<std::int64_t>(rbits);
+    offset = static_cast<std::int64_t>(length) * 8 - static_cast<std::int64_t>(rbits);
   }
   if ((offset < 0) || (offset % 32 != 0)) {
     throw std::runtime_error(
-- 
2.43.0


From f38c5501bb7463eaee8c8539c23831b98ade0817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:08 +0000
Subject: [PATCH 13/54] fix: trun without per-sample fields must not
 materialise the samples it claims

---
 include/shiguredo/mp4/box/trun.hpp |  1 +
 src/box/trun.cpp                   | 29 ++++++++++++++++++-----------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/include/shiguredo/mp4/box/trun.hpp b/include/shiguredo/mp4/box/trun.hpp
index 7d93018..39ebef2 100644
--- a/include/shiguredo/mp4/box/trun.hpp
+++ b/include/shiguredo/mp4/box/trun.hpp
@@ -63,6 +63,7 @@ class Trun : public FullBox {
   std::uint64_t readData(std::istream&) override;
 
  private:
+  std::uint32_t m_sample_count;
   std::int32_t m_data_offset;
   std::uint32_t m_first_sample_flags;
   std::vector<TrunEntry> m_entries;
diff --git a/src/box/trun.cpp b/src/box/trun.cpp
index cd151bd..a9034e1 100644
--- a/src/box/trun.cpp
+++ b/src/box/trun.cpp
@@ -27,14 +27,17 @@ Trun::Trun() {
 }
 
 Trun::Trun(const TrunParameters& params)
-    : m_data_offset(params.data_offset), m_first_sample_flags(params.first_sample_flags), m_entries(params.entries) {
+    : m_sample_count(static_cast<std::uint32_t>(std::size(params.entries))),
+      m_data_offset(params.data_offset),
+      m_first_sample_flags(params.first_sample_flags),
+      m_entries(params.entries) {
   setVersion(params.version);
   setFlags(params.flags);
   m_type = box_type_trun();
 }
 
 std::string Trun::toStringOnlyData() const {
-  std::string s = fmt::format("{} SampleCount={}", getVersionAndFlagsString(), std::size(m_entries));
+  std::string s = fmt::format("{} SampleCount={}", getVersionAndFlagsString(), m_sample_count);
   const std::uint32_t flags = getFlags();
   if (flags & 0x1) {
     s += fmt::format(" DataOffset={}", m_data_offset);
@@ -43,16 +46,17 @@ std::string Trun::toStringOnlyData() const {
     s += fmt::format(" FirstSampleFlags={:#x}", m_first_sample_flags);
   }
   std::vector<std::string> entries;
-  std::transform(std::begin(m_entries), std::end(m_entries), std::back_inserter(entries),
-                 [flags](const auto& e) { return e.toString(flags); });
+  if (flags & 0xf00) {
+    std::transform(std::begin(m_entries), std::end(m_entries), std::back_inserter(entries),
+                   [flags](const auto& e) { return e.toString(flags); });
+  }
   return s + fmt::format(" Entries=[{}]", fmt::join(entries, ", "));
 }
 
 std::uint64_t Trun::writeData(std::ostream& os) const {
   bitio::Writer writer(os);
   std::uint64_t wbits = writeVersionAndFlag(&writer);
-  std::uint32_t sample_count = static_cast<std::uint32_t>(std::size(m_entries));
-  wbits += bitio::write_uint<std::uint32_t>(&writer, sample_count);
+  wbits += bitio::write_uint<std::uint32_t>(&writer, m_sample_count);
   const std::uint32_t flags = getFlags();
   if (flags & 0x1) {
     wbits += bitio::write_int<std::int32_t>(&writer, m_data_offset);
@@ -83,8 +87,7 @@ std::uint64_t Trun::getDataSize() const {
 std::uint64_t Trun::readData(std::istream& is) {
   bitio::Reader reader(is);
   std::uint64_t rbits = readVersionAndFlag(&reader);
-  std::uint32_t sample_count;
-  rbits += bitio::read_uint<std::uint32_t>(&reader, &sample_count);
+  rbits += bitio::read_uint<std::uint32_t>(&reader, &m_sample_count);
   const std::uint32_t flags = getFlags();
   if (flags & 0x1) {
     rbits += bitio::read_int<std::int32_t>(&reader, &m_data_offset);
@@ -92,9 +95,13 @@ std::uint64_t Trun::readData(std::istream& is) {
   if (flags & 0x4) {
     rbits += bitio::read_uint<std::uint32_t>(&reader, &m_first_sample_flags);
   }
-  m_entries.resize(sample_count);
-  for (std::size_t i = 0; i < sample_count; ++i) {
-    rbits += m_entries[i].readData(&reader, flags, m_version);
+  m_entries.clear();
+  if ((flags & 0xf00) == 0) {
+    // samples without any fields occupy no space, so the payload does not bound their number
+    return rbits;
+  }
+  for (std::uint32_t i = 0; i < m_sample_count; ++i) {
+    rbits += m_entries.emplace_back().readData(&reader, flags, m_version);
   }
   return rbits;
 }
-- 
2.43.0


From befd82d5d7ce266aea33f006d1f14f2e0b325fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 14/54] fix: SimpleReader must bound nesting and memory, free
 headers on error and reject boxes exceeding their parent

---
 include/shiguredo/mp4/reader/reader.hpp |  6 +++++-
 src/reader/reader.cpp                   | 27 +++++++++++++++++++------
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/include/shiguredo/mp4/reader/reader.hpp b/include/shiguredo/mp4/reader/reader.hpp
index 68aaf3c..6efabc6 100644
--- a/include/shiguredo/mp4/reader/reader.hpp
+++ b/include/shiguredo/mp4/reader/reader.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cstddef>
 #include <cstdint>
 #include <istream>
 #include <vector>
@@ -21,12 +22,15 @@ class SimpleReader {
   void read();
 
  private:
+  // far beyond the nesting of real files, and low enough for the recursion to be safe
+  static constexpr std::size_t MAX_DEPTH = 256;
+
   std::istream& m_is;
   BoxMap m_box_map;
   std::vector<BoxInfo*> m_boxes;
   std::uint64_t m_total_size;
 
-  std::uint64_t readBox(BoxInfo*);
+  std::uint64_t readBox(BoxInfo*, const std::uint64_t, const std::size_t);
 };
 
 }  // namespace shiguredo::mp4::reader
diff --git a/src/reader/reader.cpp b/src/reader/reader.cpp
index 55d4433..c709723 100644
--- a/src/reader/reader.cpp
+++ b/src/reader/reader.cpp
@@ -8,6 +8,7 @@
 #include <iostream>
 #include <istream>
 #include <iterator>
+#include <memory>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -37,23 +38,30 @@ SimpleReader::~SimpleReader() {
 void SimpleReader::read() {
   std::uint64_t size = 0;
   while (size < m_total_size) {
-    size += readBox(nullptr);
+    size += readBox(nullptr, m_total_size, 0);
   }
   for (BoxInfo* i : m_boxes) {
     std::cout << i->toString() << std::endl;
   }
 }
 
-std::uint64_t SimpleReader::readBox(BoxInfo* parent) {
-  BoxHeader* header = read_box_header(m_is);
+std::uint64_t SimpleReader::readBox(BoxInfo* parent, const std::uint64_t end, const std::size_t depth) {
+  if (depth > MAX_DEPTH) {
+    throw std::runtime_error(fmt::format("SimpleReader::readBox(): boxes are nested too deeply: depth={}", depth));
+  }
+  std::unique_ptr<BoxHeader> owner(read_box_header(m_is));
+  BoxHeader* header = owner.get();
   header->seekToData(m_is);
-  std::stringstream ss;
-  const auto remaining_size = m_total_size - header->getOffset() - header->getHeaderSize();
+  if (header->getOffset() + header->getHeaderSize() > end) {
+    throw std::runtime_error(fmt::format("corrupt file? box header exceeds its parent: {}", header->toString()));
+  }
+  const auto remaining_size = end - header->getOffset() - header->getHeaderSize();
   if (header->getDataSize() > remaining_size) {
     spdlog::trace("SimpleReader::readBox(): corrupt file? Header={}", header->toString());
     throw std::runtime_error(fmt::format("corrupt file? box data size({}) is greater than remaining_size({})",
                                          header->getDataSize(), remaining_size));
   }
+  std::stringstream ss;
   std::copy_n(std::istreambuf_iterator<char>(m_is), header->getDataSize(), std::ostreambuf_iterator<char>(ss));
 
   spdlog::trace("SimpleReader::readBox(): Header={}", header->toString());
@@ -62,6 +70,7 @@ std::uint64_t SimpleReader::readBox(BoxInfo* parent) {
   if (box == nullptr) {
     throw std::runtime_error("SimpleReader::readBox(): BoxMap::getBoxInstance() returns nullptr");
   }
+  owner.release();
   BoxInfo* info = new BoxInfo({.parent = parent, .box = box});
   if (!parent) {
     m_boxes.push_back(info);
@@ -69,6 +78,12 @@ std::uint64_t SimpleReader::readBox(BoxInfo* parent) {
 
   const auto rbits = box->readData(ss);
   std::uint64_t rbytes = rbits / 8;
+  if (rbytes > header->getDataSize()) {
+    throw std::runtime_error(fmt::format("corrupt file? box contents({}) exceed box data size({})", rbytes,
+                                         header->getDataSize()));
+  }
+  // do not keep the payload of every ancestor while reading the children
+  std::stringstream().swap(ss);
   m_is.seekg(static_cast<std::streamoff>(header->getOffset() + header->getHeaderSize() + rbytes));
   if (!m_is.good()) {
     throw std::runtime_error(
@@ -76,7 +91,7 @@ std::uint64_t SimpleReader::readBox(BoxInfo* parent) {
   }
 
   while (header->getDataSize() > rbytes) {
-    rbytes += readBox(info);
+    rbytes += readBox(info, header->getOffset() + header->getSize(), depth + 1);
   }
   return header->getSize();
 }
-- 
2.43.0


From b28448a354b47420772ba757d2d8d77344773d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 15/54] fix: iods with a descriptor length below its fixed
 fields must be rejected

---
 src/box/iods.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/box/iods.cpp b/src/box/iods.cpp
index 766ddd5..cad6956 100644
--- a/src/box/iods.cpp
+++ b/src/box/iods.cpp
@@ -4,6 +4,7 @@
 
 #include <cstdint>
 #include <istream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -74,7 +75,10 @@ std::uint64_t Iods::readData(std::istream& is) {
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_audio_profile_level);
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_video_profile_level);
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_graphics_profile_level);
-  return rbits + (m_descriptor_length - 7) * 8;
+  if (m_descriptor_length < 7) {
+    throw std::runtime_error(fmt::format("Iods::readData(): invalid descriptor_length: {}", m_descriptor_length));
+  }
+  return rbits + (static_cast<std::uint64_t>(m_descriptor_length) - 7) * 8;
 }
 
 }  // namespace shiguredo::mp4::box
-- 
2.43.0


From 5d3cc4211020cb3c0109fb0cd132cc0b9baa65f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:30 +0000
Subject: [PATCH 16/54] fix: avcC, vpcC and sidx must refuse more data than
 their count and length fields hold

---
 src/box/avc.cpp  | 11 +++++++++++
 src/box/sidx.cpp |  4 ++++
 src/box/vpc.cpp  |  5 +++++
 3 files changed, 20 insertions(+)

diff --git a/src/box/avc.cpp b/src/box/avc.cpp
index 5f2e4ca..0b319c2 100644
--- a/src/box/avc.cpp
+++ b/src/box/avc.cpp
@@ -52,6 +52,10 @@ std::string AVCParameterSet::toString() const {
 }
 
 std::uint64_t AVCParameterSet::writeData(bitio::Writer* writer) const {
+  if (std::size(m_nal_unit) > 0xffff) {
+    throw std::runtime_error(
+        fmt::format("AVCParameterSet::writeData(): nal_unit is too long: {}", std::size(m_nal_unit)));
+  }
   auto wbits = bitio::write_uint<std::uint16_t>(writer, static_cast<std::uint16_t>(std::size(m_nal_unit)));
   wbits += bitio::write_vector_uint<std::uint8_t>(writer, m_nal_unit);
   return wbits;
@@ -126,6 +130,13 @@ std::string AVCDecoderConfiguration::toStringOnlyData() const {
 }
 
 std::uint64_t AVCDecoderConfiguration::writeData(std::ostream& os) const {
+  if (std::size(m_sequence_parameter_sets) > 0x1f || std::size(m_picture_parameter_sets) > 0xff ||
+      std::size(m_sequence_parameter_sets_ext) > 0xff) {
+    throw std::runtime_error(
+        fmt::format("AVCDecoderConfiguration::writeData(): too many parameter sets: sps={} pps={} sps_ext={}",
+                    std::size(m_sequence_parameter_sets), std::size(m_picture_parameter_sets),
+                    std::size(m_sequence_parameter_sets_ext)));
+  }
   bitio::Writer writer(os);
   auto wbits = bitio::write_uint<std::uint8_t>(&writer, m_configuration_version);
   wbits += bitio::write_uint<std::uint8_t>(&writer, m_profile);
diff --git a/src/box/sidx.cpp b/src/box/sidx.cpp
index 5dbb4a9..ec26cdb 100644
--- a/src/box/sidx.cpp
+++ b/src/box/sidx.cpp
@@ -9,6 +9,7 @@
 #include <iterator>
 #include <memory>
 #include <numeric>
+#include <stdexcept>
 #include <string>
 
 #include "shiguredo/mp4/bitio/bitio.hpp"
@@ -50,6 +51,9 @@ std::string Sidx::toStringOnlyData() const {
 }
 
 std::uint64_t Sidx::writeData(std::ostream& os) const {
+  if (std::size(m_references) > 0xffff) {
+    throw std::runtime_error(fmt::format("Sidx::writeData(): too many references: {}", std::size(m_references)));
+  }
   bitio::Writer writer(os);
   std::uint64_t wbits = writeVersionAndFlag(&writer);
   wbits += bitio::write_uint<std::uint32_t>(&writer, m_reference_id);
diff --git a/src/box/vpc.cpp b/src/box/vpc.cpp
index 03b357b..dbaa8dd 100644
--- a/src/box/vpc.cpp
+++ b/src/box/vpc.cpp
@@ -6,6 +6,7 @@
 #include <cstdint>
 #include <istream>
 #include <ostream>
+#include <stdexcept>
 #include <string>
 
 #include "shiguredo/mp4/bitio/bitio.hpp"
@@ -46,6 +47,10 @@ std::uint64_t VPCodecConfiguration::writeData(std::ostream& os) const {
   if (m_version == 0) {
     return wbits;
   }
+  if (std::size(m_codec_initialization_data) > 0xffff) {
+    throw std::runtime_error(fmt::format("VPCodecConfiguration::writeData(): codec_initialization_data is too long: {}",
+                                         std::size(m_codec_initialization_data)));
+  }
   std::uint16_t size = static_cast<std::uint16_t>(std::size(m_codec_initialization_data));
   wbits += bitio::write_uint<std::uint16_t>(&writer, size);
   return wbits + bitio::write_vector_uint<std::uint8_t>(&writer, m_codec_initialization_data);
-- 
2.43.0


From bcd62eaf505838f1d8a713c9b8ec23ebe4a120b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:30 +0000
Subject: [PATCH 17/54] fix: sgpd must refuse to write, and skip over, grouping
 types it does not know

---
 src/box/sgpd.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/box/sgpd.cpp b/src/box/sgpd.cpp
index 26dc8f9..045dff5 100644
--- a/src/box/sgpd.cpp
+++ b/src/box/sgpd.cpp
@@ -19,6 +19,7 @@
 #include "shiguredo/mp4/bitio/writer.hpp"
 #include "shiguredo/mp4/box_type.hpp"
 #include "shiguredo/mp4/grouping_type.hpp"
+#include "shiguredo/mp4/stream/stream.hpp"
 
 namespace shiguredo::mp4::box {
 
@@ -138,7 +139,8 @@ std::uint64_t Sgpd::writeData(std::ostream& os) const {
                              [&writer](const auto a, auto e) { return a + e.writeData(&writer); });
     return wbits;
   }
-  return wbits;
+  throw std::runtime_error(
+      fmt::format("Sgpd::writeData(): unsupported grouping type: {:02x}", fmt::join(m_grouping_type, "")));
 }
 
 std::uint64_t Sgpd::getDataSize() const {
@@ -207,7 +209,8 @@ std::uint64_t Sgpd::readData(std::istream& is) {
     }
     return rbits;
   }
-  return rbits;
+  // the entries of other grouping types are skipped
+  return rbits + static_cast<std::uint64_t>(shiguredo::mp4::stream::get_istream_offset_to_end(is)) * 8;
 }
 
 bool Sgpd::noDefaultLength() const {
-- 
2.43.0


From 92e32168ac9500452f77ccb80d94e2429478bee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 18/54] fix: iods must keep the descriptors nested after its
 fixed fields

---
 include/shiguredo/mp4/box/iods.hpp | 2 ++
 src/box/iods.cpp                   | 6 +++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/shiguredo/mp4/box/iods.hpp b/include/shiguredo/mp4/box/iods.hpp
index 1e28056..e2c3cda 100644
--- a/include/shiguredo/mp4/box/iods.hpp
+++ b/include/shiguredo/mp4/box/iods.hpp
@@ -3,6 +3,7 @@
 #include <cstdint>
 #include <istream>
 #include <string>
+#include <vector>
 
 #include "shiguredo/mp4/box.hpp"
 #include "shiguredo/mp4/box_type.hpp"
@@ -44,6 +45,7 @@ class Iods : public FullBox {
   std::uint8_t m_audio_profile_level;
   std::uint8_t m_video_profile_level;
   std::uint8_t m_graphics_profile_level;
+  std::vector<std::uint8_t> m_sub_descriptors;
 };
 
 }  // namespace shiguredo::mp4::box
diff --git a/src/box/iods.cpp b/src/box/iods.cpp
index cad6956..6cfc8cd 100644
--- a/src/box/iods.cpp
+++ b/src/box/iods.cpp
@@ -57,11 +57,11 @@ std::uint64_t Iods::writeData(std::ostream& os) const {
   wbits += bitio::write_uint<std::uint8_t>(&writer, m_audio_profile_level);
   wbits += bitio::write_uint<std::uint8_t>(&writer, m_video_profile_level);
   wbits += bitio::write_uint<std::uint8_t>(&writer, m_graphics_profile_level);
-  return wbits;
+  return wbits + bitio::write_vector_uint<std::uint8_t>(&writer, m_sub_descriptors);
 }
 
 std::uint64_t Iods::getDataSize() const {
-  return 12 + bitio::uvarint_size(m_descriptor_length);
+  return 12 + bitio::uvarint_size(m_descriptor_length) + std::size(m_sub_descriptors);
 }
 
 std::uint64_t Iods::readData(std::istream& is) {
@@ -78,7 +78,7 @@ std::uint64_t Iods::readData(std::istream& is) {
   if (m_descriptor_length < 7) {
     throw std::runtime_error(fmt::format("Iods::readData(): invalid descriptor_length: {}", m_descriptor_length));
   }
-  return rbits + (static_cast<std::uint64_t>(m_descriptor_length) - 7) * 8;
+  return rbits + bitio::read_vector_uint<std::uint8_t>(&reader, m_descriptor_length - 7, &m_sub_descriptors);
 }
 
 }  // namespace shiguredo::mp4::box
-- 
2.43.0


From 5aec5eb80f7849a072d3702a6c0f0f5bebf60fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 19/54] fix: read_pascal_string must not rewind the stream in
 the middle of a byte

---
 src/bitio/bitio.cpp | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/bitio/bitio.cpp b/src/bitio/bitio.cpp
index 697c417..c6c5d79 100644
--- a/src/bitio/bitio.cpp
+++ b/src/bitio/bitio.cpp
@@ -66,23 +66,18 @@ std::uint64_t read_pascal_string(Reader* reader, std::string* str, const std::ui
     return read_string(reader, str, max_rbits);
   }
 
-  std::istream& is = reader->getIStream();
-
-  auto offset = is.tellg();
-  if (!is.good()) {
-    throw std::runtime_error(
-        fmt::format("bitio::read_pascal_string(): istream::tellg() failed: rdstate={}", is.rdstate()));
-  }
-
   std::vector<std::uint8_t> v;
   reader->readBits(&v, 8);
   if (v[0] * 8 != (max_rbits - 8)) {
-    is.seekg(offset, std::ios_base::beg);
-    if (!is.good()) {
-      throw std::runtime_error(
-          fmt::format("bitio::read_pascal_string(): istream::seekg() failed: rdstate={}", is.rdstate()));
+    str->clear();
+    if (v[0] == 0x00) {
+      return 8;
     }
-    return read_string(reader, str, max_rbits);
+    std::string rest;
+    const auto rbits = read_string(reader, &rest, max_rbits - 8);
+    *str += static_cast<char>(v[0]);
+    *str += rest;
+    return rbits + 8;
   }
 
   std::uint64_t rbits = 0;
-- 
2.43.0


From 0513b781878011bfd0328097968516d1d573266f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:18 +0000
Subject: [PATCH 20/54] fix: variable-length integers must refuse values that
 do not fit

---
 include/shiguredo/mp4/bitio/bitio.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/shiguredo/mp4/bitio/bitio.hpp b/include/shiguredo/mp4/bitio/bitio.hpp
index 4e1c83c..6fdca87 100644
--- a/include/shiguredo/mp4/bitio/bitio.hpp
+++ b/include/shiguredo/mp4/bitio/bitio.hpp
@@ -146,6 +146,9 @@ std::uint64_t uvarint_size(const T u) {
 template <typename T>
 std::uint64_t write_uvarint(Writer* writer, const T u) {
   std::uint64_t val = static_cast<std::uint64_t>(u);
+  if ((val >> (7 * sizeof(u))) != 0) {
+    throw std::runtime_error(fmt::format("bitio::write_uvarint(): value does not fit {} bytes: {}", sizeof(u), val));
+  }
   for (std::int8_t i = 7 * (sizeof(u) - 1); i >= 0; i -= 7) {
     std::uint8_t data = static_cast<std::uint8_t>((val >> i) & 0x7f);
     if (i > 0) {
@@ -166,6 +169,9 @@ std::uint64_t read_uvarint(Reader* reader, T* var) {
     std::vector<std::uint8_t> v;
     reader->readBits(&v, 8);
     rbits += 8;
+    if ((static_cast<std::uint64_t>(val) >> (8 * sizeof(T) - 7)) != 0) {
+      throw std::runtime_error(fmt::format("bitio::read_uvarint(): value does not fit {} bytes", sizeof(T)));
+    }
     val = (val << 7) + static_cast<T>(v[0] & 0x7f);
     if ((v[0] & 0x80) == 0) {
       *var = val;
-- 
2.43.0


From 3a06a6cd0226604ac77bc2ab941d420f7effd892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:15 +0000
Subject: [PATCH 21/54] fix: the writers must report failed media data writes
 and unreadable intermediate files

---
 src/writer/faststart_writer.cpp | 6 +++++-
 src/writer/simple_writer.cpp    | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index c109a70..508ef12 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -150,7 +150,11 @@ void FaststartWriter::copyMdatData() {
   char buffer[COPY_MDAT_DATA_BUFFER_SIZE];
   while (!std::feof(m_mdat_fd)) {
     std::size_t size = std::fread(buffer, 1, COPY_MDAT_DATA_BUFFER_SIZE, m_mdat_fd);
-    std::copy_n(buffer, size, std::ostreambuf_iterator<char>(m_os));
+    if (std::ferror(m_mdat_fd)) {
+      throw std::runtime_error(
+          fmt::format("FaststartWriter::copyMdatData(): cannot read the intermediate file: {}", m_mdat_path.string()));
+    }
+    m_os.write(buffer, static_cast<std::streamsize>(size));
     if (!m_os.good()) {
       throw std::runtime_error(
           fmt::format("FaststartWriter::copyMdatData(): copying mdat data failed: rdstate={}", m_os.rdstate()));
diff --git a/src/writer/simple_writer.cpp b/src/writer/simple_writer.cpp
index e15648d..14c63b9 100644
--- a/src/writer/simple_writer.cpp
+++ b/src/writer/simple_writer.cpp
@@ -92,7 +92,7 @@ void SimpleWriter::writeFreeBoxAndMdatHeader() {
 }
 
 void SimpleWriter::addMdatData(const std::uint8_t* data, const std::size_t data_size) {
-  std::copy_n(data, data_size, std::ostreambuf_iterator<char>(m_os));
+  m_os.write(reinterpret_cast<const char*>(data), static_cast<std::streamsize>(data_size));
   if (!m_os.good()) {
     throw std::runtime_error(
         fmt::format("SimpleWriter::addMdatData(): ostream::write() failed: rdstate={}", m_os.rdstate()));
@@ -107,7 +107,7 @@ void SimpleWriter::setOffsetAndSize() {
 
 std::uint64_t SimpleWriter::tellCurrentMdatOffset() {
   const auto offset = m_os.tellp();
-  if (!m_os.good()) {
+  if (!m_os.good() || offset == std::ostream::pos_type(-1)) {
     throw std::runtime_error(
         fmt::format("SimpleWriter::tellCurrentMdatOffset(): ostream::tellp() failed: rdstate={}", m_os.rdstate()));
   }
-- 
2.43.0


From 0c7c5eafb74763199a6ad0789851e6a4b10c6db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:54 +0000
Subject: [PATCH 22/54] fix: find_next_nal_unit must find short NAL units and
 units with a zero header byte

---
 src/track/h264.cpp | 52 ++++++++++++++++++++--------------------------
 1 file changed, 22 insertions(+), 30 deletions(-)

diff --git a/src/track/h264.cpp b/src/track/h264.cpp
index 0a3efac..1aec21a 100644
--- a/src/track/h264.cpp
+++ b/src/track/h264.cpp
@@ -158,41 +158,33 @@ std::ostream& operator<<(std::ostream& os, const NalUnit& nu) {
   return os;
 }
 
+// data の index の位置にある start code の長さを返す. start code ではない場合は 0 を返す
+static std::size_t get_start_code_size(const std::uint8_t* data, const std::size_t data_size, const std::size_t index) {
+  if (index + 3 < data_size && data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 0 &&
+      data[index + 3] == 1) {
+    return 4;
+  }
+  if (index + 2 < data_size && data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 1) {
+    return 3;
+  }
+  return 0;
+}
+
 NalUnit find_next_nal_unit(const std::uint8_t* data, const std::size_t data_size, const std::size_t start) {
   // start から NalUnit が始まっていることを期待する
-  auto index = start;
-  std::size_t start_code_size;
-  std::uint8_t header = 0;
-  while (index + 5 < data_size) {
-    if (data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 0 & data[index + 3] == 1) {
-      if (header == 0) {
-        start_code_size = 4;
-        header = data[index + 4];
-      } else {
-        return NalUnit{start_code_size, start, index, header};
-      }
-      index += 4;
-      continue;
-    }
-    if (data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 1) {
-      if (header == 0) {
-        start_code_size = 3;
-        header = data[index + 3];
-      } else {
-        return NalUnit{start_code_size, start, index, header};
-      }
-      index += 3;
-      continue;
-    }
-    if (index == start && header == 0) {
-      throw std::runtime_error(fmt::format("not start with nalunit: start={}", start));
-    }
-    ++index;
+  const auto start_code_size = get_start_code_size(data, data_size, start);
+  if (start_code_size == 0) {
+    throw std::runtime_error(fmt::format("not start with nalunit: start={}", start));
   }
-  if (header == 0) {
+  if (start + start_code_size >= data_size) {
     throw std::runtime_error("nalunit not found");
   }
-  return NalUnit{start_code_size, start, data_size, header};
+  const auto header = data[start + start_code_size];
+  auto end = start + start_code_size;
+  while (end < data_size && get_start_code_size(data, data_size, end) == 0) {
+    ++end;
+  }
+  return NalUnit{start_code_size, start, end, header};
 }
 
 void H264Track::appendSequenceParameterSets(const shiguredo::mp4::box::AVCParameterSet& params) {
-- 
2.43.0


From 23a67acfe73cad6a8fd9a1ef94eca804c2d14834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:16 +0000
Subject: [PATCH 23/54] fix: zero bytes that trail a NAL unit are not part of
 it

---
 src/track/h264.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/track/h264.cpp b/src/track/h264.cpp
index 1aec21a..2bed0d5 100644
--- a/src/track/h264.cpp
+++ b/src/track/h264.cpp
@@ -92,6 +92,11 @@ void H264Track::addData(const std::uint64_t timestamp,
     auto nu = find_next_nal_unit(data, data_size, start);
     std::vector<uint8_t> sps_data = {};
     std::vector<uint8_t> pps_data = {};
+    // trailing_zero_8bits は NAL unit に含まれない
+    std::size_t nal_unit_end = nu.end;
+    while (nal_unit_end > nu.start + nu.start_code_size + 1 && data[nal_unit_end - 1] == 0) {
+      --nal_unit_end;
+    }
     std::size_t video_data_size;
     std::uint8_t* mdat_data;
     switch (nu.header & 0x1f) {
@@ -101,7 +106,7 @@ void H264Track::addData(const std::uint64_t timestamp,
       case 4:
       case 5:
         // VCL
-        video_data_size = nu.end - nu.start - nu.start_code_size;
+        video_data_size = nal_unit_end - nu.start - nu.start_code_size;
         mdat_data = new std::uint8_t[video_data_size + 4];
         mdat_data[0] = static_cast<std::uint8_t>(video_data_size >> 24);
         mdat_data[1] = static_cast<std::uint8_t>(video_data_size >> 16);
@@ -119,7 +124,7 @@ void H264Track::addData(const std::uint64_t timestamp,
         break;
       case 7:
         // SPS
-        std::copy_n(data + nu.start + nu.start_code_size, nu.end - nu.start - nu.start_code_size,
+        std::copy_n(data + nu.start + nu.start_code_size, nal_unit_end - nu.start - nu.start_code_size,
                     std::back_inserter(sps_data));
         appendSequenceParameterSets(shiguredo::mp4::box::AVCParameterSet({.nal_unit = sps_data}));
         // 最初の SPS で profile, profile_compatibility, level を置換する
@@ -131,7 +136,7 @@ void H264Track::addData(const std::uint64_t timestamp,
         break;
       case 8:
         // PPS
-        std::copy_n(data + nu.start + nu.start_code_size, nu.end - nu.start - nu.start_code_size,
+        std::copy_n(data + nu.start + nu.start_code_size, nal_unit_end - nu.start - nu.start_code_size,
                     std::back_inserter(pps_data));
         appendPictureParameterSets(shiguredo::mp4::box::AVCParameterSet({.nal_unit = pps_data}));
         break;
-- 
2.43.0


From 00e658290bbff5d66b2db65adbb4d54de794c914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 24/54] fix: the slices of one H.264 access unit are one sample

---
 src/track/h264.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/track/h264.cpp b/src/track/h264.cpp
index 2bed0d5..c86e5fc 100644
--- a/src/track/h264.cpp
+++ b/src/track/h264.cpp
@@ -88,6 +88,8 @@ void H264Track::addData(const std::uint64_t timestamp,
                         const std::size_t data_size,
                         bool is_key) {
   std::size_t start = 0;
+  // access unit の全ての VCL NAL unit を 1 つの sample とする
+  std::vector<std::uint8_t> mdat_data;
   while (1) {
     auto nu = find_next_nal_unit(data, data_size, start);
     std::vector<uint8_t> sps_data = {};
@@ -98,7 +100,6 @@ void H264Track::addData(const std::uint64_t timestamp,
       --nal_unit_end;
     }
     std::size_t video_data_size;
-    std::uint8_t* mdat_data;
     switch (nu.header & 0x1f) {
       case 1:
       case 2:
@@ -107,16 +108,12 @@ void H264Track::addData(const std::uint64_t timestamp,
       case 5:
         // VCL
         video_data_size = nal_unit_end - nu.start - nu.start_code_size;
-        mdat_data = new std::uint8_t[video_data_size + 4];
-        mdat_data[0] = static_cast<std::uint8_t>(video_data_size >> 24);
-        mdat_data[1] = static_cast<std::uint8_t>(video_data_size >> 16);
-        mdat_data[2] = static_cast<std::uint8_t>(video_data_size >> 8);
-        mdat_data[3] = static_cast<std::uint8_t>(video_data_size & 0xff);
+        mdat_data.push_back(static_cast<std::uint8_t>(video_data_size >> 24));
+        mdat_data.push_back(static_cast<std::uint8_t>(video_data_size >> 16));
+        mdat_data.push_back(static_cast<std::uint8_t>(video_data_size >> 8));
+        mdat_data.push_back(static_cast<std::uint8_t>(video_data_size & 0xff));
 
-        std::copy_n(data + nu.start + nu.start_code_size, video_data_size, mdat_data + 4);
-
-        addMdatData(timestamp, mdat_data, video_data_size + 4, is_key);
-        delete[] mdat_data;
+        std::copy_n(data + nu.start + nu.start_code_size, video_data_size, std::back_inserter(mdat_data));
         break;
       case 6:
         // SEI
@@ -146,10 +143,13 @@ void H264Track::addData(const std::uint64_t timestamp,
     }
 
     if (nu.end >= data_size) {
-      return;
+      break;
     }
     start = nu.end;
   }
+  if (!std::empty(mdat_data)) {
+    addMdatData(timestamp, mdat_data, is_key);
+  }
 }
 
 bool operator==(NalUnit const& left, NalUnit const& right) {
-- 
2.43.0


From 4636c15b51dc0d3936fba4bb235c78e5569c7d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:27 +0000
Subject: [PATCH 25/54] fix: an H.264 parameter set repeated in the stream is
 listed once

---
 include/shiguredo/mp4/box/avc.hpp |  2 ++
 src/track/h264.cpp                | 10 ++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/shiguredo/mp4/box/avc.hpp b/include/shiguredo/mp4/box/avc.hpp
index adeead5..42a903e 100644
--- a/include/shiguredo/mp4/box/avc.hpp
+++ b/include/shiguredo/mp4/box/avc.hpp
@@ -53,6 +53,8 @@ class AVCParameterSet {
   std::uint64_t getSize() const;
   std::uint64_t readData(bitio::Reader*);
 
+  bool operator==(const AVCParameterSet&) const = default;
+
  private:
   std::vector<std::uint8_t> m_nal_unit;
 };
diff --git a/src/track/h264.cpp b/src/track/h264.cpp
index c86e5fc..ab0cdcb 100644
--- a/src/track/h264.cpp
+++ b/src/track/h264.cpp
@@ -193,11 +193,17 @@ NalUnit find_next_nal_unit(const std::uint8_t* data, const std::size_t data_size
 }
 
 void H264Track::appendSequenceParameterSets(const shiguredo::mp4::box::AVCParameterSet& params) {
-  m_sequence_parameter_sets.emplace_back(params);
+  if (std::find(std::begin(m_sequence_parameter_sets), std::end(m_sequence_parameter_sets), params) ==
+      std::end(m_sequence_parameter_sets)) {
+    m_sequence_parameter_sets.emplace_back(params);
+  }
 }
 
 void H264Track::appendPictureParameterSets(const shiguredo::mp4::box::AVCParameterSet& params) {
-  m_picture_parameter_sets.emplace_back(params);
+  if (std::find(std::begin(m_picture_parameter_sets), std::end(m_picture_parameter_sets), params) ==
+      std::end(m_picture_parameter_sets)) {
+    m_picture_parameter_sets.emplace_back(params);
+  }
 }
 
 }  // namespace shiguredo::mp4::track
-- 
2.43.0


From ba055ad62ea5a363c099a1875e9a90eee35759e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:49 +0000
Subject: [PATCH 26/54] fix: any chunk offset beyond 32 bits requires co64, not
 only the last one

---
 src/track/track.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/track/track.cpp b/src/track/track.cpp
index 9348463..8ba3754 100644
--- a/src/track/track.cpp
+++ b/src/track/track.cpp
@@ -126,13 +126,9 @@ void Track::makeStscBoxInfo(BoxInfo* stbl) {
 }
 
 Box* make_offset_box(const std::vector<ChunkInfo>& chunk_infos) {
-  bool use_co64 = false;
-  if (!std::empty(chunk_infos)) {
-    auto last = chunk_infos.back();
-    if (last.offset > (std::numeric_limits<std::uint32_t>::max())) {
-      use_co64 = true;
-    }
-  }
+  const bool use_co64 = std::any_of(std::begin(chunk_infos), std::end(chunk_infos), [](const auto& e) {
+    return e.offset > std::numeric_limits<std::uint32_t>::max();
+  });
 
   if (use_co64) {
     std::vector<std::uint64_t> chunk_offsets;
-- 
2.43.0


From b87b63b01e030d29c20273d36206977d020598df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:58 +0000
Subject: [PATCH 27/54] fix: a chunk must not continue across samples of other
 tracks

---
 include/shiguredo/mp4/track/track.hpp | 1 +
 src/track/track.cpp                   | 8 +++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/shiguredo/mp4/track/track.hpp b/include/shiguredo/mp4/track/track.hpp
index 3540456..1170891 100644
--- a/include/shiguredo/mp4/track/track.hpp
+++ b/include/shiguredo/mp4/track/track.hpp
@@ -67,6 +67,7 @@ class Track {
   std::vector<std::uint32_t> m_mdat_sample_sizes = {};
   std::vector<ChunkInfo> m_chunk_infos = {};
   ChunkInfo m_current_chunk_info;
+  std::uint64_t m_current_chunk_end = 0;
   std::uint64_t m_prev_timestamp = 0;
   std::vector<std::uint32_t> m_sample_durations = {};
   std::vector<std::uint32_t> m_key_sample_numbers = {};
diff --git a/src/track/track.cpp b/src/track/track.cpp
index 8ba3754..1f4487d 100644
--- a/src/track/track.cpp
+++ b/src/track/track.cpp
@@ -28,10 +28,16 @@ void Track::addMdatData(const std::uint64_t timestamp,
                         const std::uint8_t* data,
                         const std::size_t data_size,
                         bool is_key) {
+  const auto mdat_offset = m_writer->tellCurrentMdatOffset();
+  if (m_current_chunk_info.initialized && mdat_offset != m_current_chunk_end) {
+    // 他の track の sample が間に書き込まれているので, chunk を続けることはできない
+    terminateCurrentChunk();
+  }
   if (!m_current_chunk_info.initialized) {
     m_current_chunk_info.initialized = true;
-    m_current_chunk_info.offset = m_writer->tellCurrentMdatOffset();
+    m_current_chunk_info.offset = mdat_offset;
   }
+  m_current_chunk_end = mdat_offset + data_size;
   ++m_current_chunk_info.number_of_samples;
 
   if (!std::empty(m_mdat_sample_sizes)) {
-- 
2.43.0


From d50d7cba1e9d73df079bc86d32341c4ee1986681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:04 +0000
Subject: [PATCH 28/54] fix: the last sample's duration must not wrap around
 when it starts at or after the track's duration

---
 src/track/track.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/track/track.cpp b/src/track/track.cpp
index 1f4487d..d9c7a8f 100644
--- a/src/track/track.cpp
+++ b/src/track/track.cpp
@@ -63,7 +63,9 @@ void Track::finalize() {
   }
 
   if (!std::empty(m_mdat_sample_sizes)) {
-    m_sample_durations.push_back(static_cast<std::uint32_t>(getDurationInTimescale() - m_prev_timestamp));
+    const auto duration = getDurationInTimescale();
+    m_sample_durations.push_back(
+        duration > m_prev_timestamp ? static_cast<std::uint32_t>(duration - m_prev_timestamp) : 0);
   }
 }
 
-- 
2.43.0


From 6b81cf5060fa7e222f3bca5c345f18732f7ffaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 29/54] fix: durations and edit starts beyond 32 bits need
 version 1 boxes

---
 include/shiguredo/mp4/track/track.hpp   |  1 +
 include/shiguredo/mp4/writer/writer.hpp |  1 +
 src/track/soun.cpp                      |  3 ++-
 src/track/track.cpp                     | 13 +++++++++++--
 src/track/vide.cpp                      |  1 +
 src/writer/faststart_writer.cpp         |  3 ++-
 src/writer/simple_writer.cpp            |  3 ++-
 src/writer/writer.cpp                   |  6 ++++++
 8 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/include/shiguredo/mp4/track/track.hpp b/include/shiguredo/mp4/track/track.hpp
index 1170891..ed22052 100644
--- a/include/shiguredo/mp4/track/track.hpp
+++ b/include/shiguredo/mp4/track/track.hpp
@@ -92,6 +92,7 @@ class Track {
 
   std::uint64_t getDurationInMvhdTimescale() const;
   std::uint64_t getDurationInTimescale() const;
+  std::uint8_t getVersionForDuration(const std::uint64_t) const;
 };
 
 void make_stts_entries(std::vector<box::SttsEntry>*, const std::vector<std::uint32_t>&);
diff --git a/include/shiguredo/mp4/writer/writer.hpp b/include/shiguredo/mp4/writer/writer.hpp
index d640774..952eb08 100644
--- a/include/shiguredo/mp4/writer/writer.hpp
+++ b/include/shiguredo/mp4/writer/writer.hpp
@@ -61,6 +61,7 @@ class Writer {
   box::Mvhd* m_mvhd_box;
 
   virtual void setOffsetAndSize() = 0;
+  std::uint8_t getVersionForDuration(const std::uint64_t) const;
 };
 
 }  // namespace shiguredo::mp4::writer
diff --git a/src/track/soun.cpp b/src/track/soun.cpp
index a7b21c6..6859395 100644
--- a/src/track/soun.cpp
+++ b/src/track/soun.cpp
@@ -11,7 +11,8 @@ SounTrack::SounTrack() {
 
 void SounTrack::makeTkhdBoxInfo(BoxInfo* trak) {
   new BoxInfo({.parent = trak,
-               .box = new box::Tkhd({.flags = 0x000003,
+               .box = new box::Tkhd({.version = getVersionForDuration(getDurationInMvhdTimescale()),
+                                     .flags = 0x000003,
                                      .creation_time = m_time_from_epoch,
                                      .modification_time = m_time_from_epoch,
                                      .track_id = m_track_id,
diff --git a/src/track/track.cpp b/src/track/track.cpp
index d9c7a8f..d1d27fb 100644
--- a/src/track/track.cpp
+++ b/src/track/track.cpp
@@ -167,6 +167,10 @@ std::uint64_t Track::getDurationInMvhdTimescale() const {
   return static_cast<std::uint64_t>(static_cast<float>(m_mvhd_timescale) * m_duration);
 }
 
+std::uint8_t Track::getVersionForDuration(const std::uint64_t duration) const {
+  return std::max(duration, m_time_from_epoch) > std::numeric_limits<std::uint32_t>::max() ? 1 : 0;
+}
+
 BoxInfo* Track::makeTrakBoxInfo(BoxInfo* moov) {
   return new BoxInfo({.parent = moov, .box = new box::Trak()});
 }
@@ -176,8 +180,12 @@ BoxInfo* Track::makeEdtsBoxInfo(BoxInfo* trak) {
 }
 
 void Track::makeElstBoxInfo(BoxInfo* edts) {
+  const bool is_32bit = getDurationInMvhdTimescale() <= std::numeric_limits<std::uint32_t>::max() &&
+                        m_media_time >= std::numeric_limits<std::int32_t>::min() &&
+                        m_media_time <= std::numeric_limits<std::int32_t>::max();
   new BoxInfo({.parent = edts,
-               .box = new box::Elst({.entries = {box::ElstEntry({.track_duration = getDurationInMvhdTimescale(),
+               .box = new box::Elst({.version = static_cast<std::uint8_t>(is_32bit ? 0 : 1),
+                                     .entries = {box::ElstEntry({.track_duration = getDurationInMvhdTimescale(),
                                                                  .media_time = m_media_time})}})});
 }
 
@@ -187,7 +195,8 @@ BoxInfo* Track::makeMdiaBoxInfo(BoxInfo* trak) {
 
 void Track::makeMdhdBoxInfo(BoxInfo* mdia) {
   new BoxInfo({.parent = mdia,
-               .box = new box::Mdhd({.creation_time = m_time_from_epoch,
+               .box = new box::Mdhd({.version = getVersionForDuration(getDurationInTimescale()),
+                                     .creation_time = m_time_from_epoch,
                                      .modification_time = m_time_from_epoch,
                                      .timescale = m_timescale,
                                      .duration = getDurationInTimescale()})});
diff --git a/src/track/vide.cpp b/src/track/vide.cpp
index 4f46495..8a0dd1f 100644
--- a/src/track/vide.cpp
+++ b/src/track/vide.cpp
@@ -12,6 +12,7 @@ VideTrack::VideTrack() {
 void VideTrack::makeTkhdBoxInfo(BoxInfo* trak) {
   new BoxInfo({.parent = trak,
                .box = new box::Tkhd({
+                   .version = getVersionForDuration(getDurationInMvhdTimescale()),
                    .flags = 0x000003,
                    .creation_time = m_time_from_epoch,
                    .modification_time = m_time_from_epoch,
diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index 508ef12..5379eff 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -54,7 +54,8 @@ void FaststartWriter::recreateMoovBoxInfo() {
 
   m_moov_box_info = new BoxInfo({.box = new box::Moov()});
   const std::uint64_t mvhd_duration = static_cast<std::uint64_t>(static_cast<float>(m_mvhd_timescale) * m_duration);
-  m_mvhd_box = new box::Mvhd({.creation_time = m_time_from_epoch,
+  m_mvhd_box = new box::Mvhd({.version = getVersionForDuration(mvhd_duration),
+                              .creation_time = m_time_from_epoch,
                               .modification_time = m_time_from_epoch,
                               .timescale = m_mvhd_timescale,
                               .duration = mvhd_duration,
diff --git a/src/writer/simple_writer.cpp b/src/writer/simple_writer.cpp
index 14c63b9..2e44c3e 100644
--- a/src/writer/simple_writer.cpp
+++ b/src/writer/simple_writer.cpp
@@ -31,7 +31,8 @@ SimpleWriter::SimpleWriter(std::ostream& t_os, const SimpleWriterParameters& par
   const std::uint64_t mvhd_duration = static_cast<std::uint64_t>(static_cast<float>(m_mvhd_timescale) * m_duration);
 
   m_moov_box_info = new BoxInfo({.box = new box::Moov()});
-  m_mvhd_box = new box::Mvhd({.creation_time = m_time_from_epoch,
+  m_mvhd_box = new box::Mvhd({.version = getVersionForDuration(mvhd_duration),
+                              .creation_time = m_time_from_epoch,
                               .modification_time = m_time_from_epoch,
                               .timescale = m_mvhd_timescale,
                               .duration = mvhd_duration,
diff --git a/src/writer/writer.cpp b/src/writer/writer.cpp
index 715deb9..5390676 100644
--- a/src/writer/writer.cpp
+++ b/src/writer/writer.cpp
@@ -1,8 +1,10 @@
 #include "shiguredo/mp4/writer/writer.hpp"
 
+#include <algorithm>
 #include <array>
 #include <cstdint>
 #include <iterator>
+#include <limits>
 #include <string>
 
 #include "shiguredo/mp4/box/boxes.hpp"
@@ -39,6 +41,10 @@ std::uint32_t Writer::getAndUpdateNextTrackID() {
   return track_id;
 }
 
+std::uint8_t Writer::getVersionForDuration(const std::uint64_t duration) const {
+  return std::max(duration, m_time_from_epoch) > std::numeric_limits<std::uint32_t>::max() ? 1 : 0;
+}
+
 void Writer::appendUdtaBoxInfo(const box::DataParameters& data_params) {
   auto udta = new BoxInfo({.parent = m_moov_box_info, .box = new box::Udta()});
   auto meta = new BoxInfo({.parent = udta, .box = new box::Meta()});
-- 
2.43.0


From 2e438cab2249a3ce4616e32b10011d9f35e9f2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 30/54] fix: an audio timescale above 65535 does not fit the
 sample entry's sample rate

---
 src/track/aac.cpp | 3 ++-
 src/track/mp3.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/track/aac.cpp b/src/track/aac.cpp
index e85f5f7..455df50 100644
--- a/src/track/aac.cpp
+++ b/src/track/aac.cpp
@@ -34,7 +34,8 @@ void AACTrack::makeStsdBoxInfo(BoxInfo* stbl) {
                                .entry_version = 0,
                                .channel_count = 2,
                                .sample_size = 16,
-                               .sample_rate = m_timescale << 16,
+                               // 16.16 で表現できない場合は 0 とする
+                               .sample_rate = m_timescale > 0xffff ? 0 : m_timescale << 16,
                            })});
   std::shared_ptr<box::DecoderConfigDescriptor> dcd(
       new box::DecoderConfigDescriptor({.object_type_indication = 0x40,  // Audio ISO/IEC 14496-3 (MPEG-4 Audio)
diff --git a/src/track/mp3.cpp b/src/track/mp3.cpp
index aab4bc1..d3944b1 100644
--- a/src/track/mp3.cpp
+++ b/src/track/mp3.cpp
@@ -32,7 +32,8 @@ void MP3Track::makeStsdBoxInfo(BoxInfo* stbl) {
                                .entry_version = 0,
                                .channel_count = 2,
                                .sample_size = 16,
-                               .sample_rate = m_timescale << 16,
+                               // 16.16 で表現できない場合は 0 とする
+                               .sample_rate = m_timescale > 0xffff ? 0 : m_timescale << 16,
                            })});
   std::shared_ptr<box::DecoderConfigDescriptor> dcd(
       new box::DecoderConfigDescriptor({.object_type_indication = 0x6b,  // Audio ISO/IEC 11172-3 (MPEG-1 Audio)
-- 
2.43.0


From 9b4ca18971945bd3f68d92b2178dfe49d91abfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:54 +0000
Subject: [PATCH 31/54] fix: track dimensions and pre-skip beyond 16 bits must
 be refused

---
 include/shiguredo/mp4/track/vide.hpp |  1 +
 src/track/av1.cpp                    |  3 +--
 src/track/h264.cpp                   |  3 +--
 src/track/opus.cpp                   |  7 +++++++
 src/track/vide.cpp                   | 15 +++++++++++++++
 src/track/vpx.cpp                    |  3 +--
 6 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/include/shiguredo/mp4/track/vide.hpp b/include/shiguredo/mp4/track/vide.hpp
index 2d1568f..8ff3ef4 100644
--- a/include/shiguredo/mp4/track/vide.hpp
+++ b/include/shiguredo/mp4/track/vide.hpp
@@ -17,6 +17,7 @@ class VideTrack : public Track {
   VideTrack();
   void makeTkhdBoxInfo(BoxInfo*) override;
   void makeVmhdBoxInfo(BoxInfo*);
+  void setDimensions(const std::uint32_t, const std::uint32_t);
   std::uint32_t m_width;
   std::uint32_t m_height;
   std::uint32_t m_max_bitrate;
diff --git a/src/track/av1.cpp b/src/track/av1.cpp
index 6fbc000..aec7ba3 100644
--- a/src/track/av1.cpp
+++ b/src/track/av1.cpp
@@ -19,8 +19,7 @@ AV1Track::AV1Track(const AV1TrackParameters& params) {
   if (m_track_id == 0) {
     throw std::runtime_error("AV1Track::AV1Track(): invalid track_id=0");
   }
-  m_width = params.width;
-  m_height = params.height;
+  setDimensions(params.width, params.height);
   m_seq_profile = params.seq_profile;
   m_seq_level_idx_0 = params.seq_level_idx_0;
   m_seq_tier_0 = params.seq_tier_0;
diff --git a/src/track/h264.cpp b/src/track/h264.cpp
index ab0cdcb..d3497cb 100644
--- a/src/track/h264.cpp
+++ b/src/track/h264.cpp
@@ -23,8 +23,7 @@ H264Track::H264Track(const H264TrackParameters& params) {
   if (m_track_id == 0) {
     throw std::runtime_error("H264Track::H264Track(): invalid track_id=0");
   }
-  m_width = params.width;
-  m_height = params.height;
+  setDimensions(params.width, params.height);
   m_writer = params.writer;
   m_configuration_version = params.configuration_version;
   m_profile = params.profile;
diff --git a/src/track/opus.cpp b/src/track/opus.cpp
index 2220df0..e7d3bea 100644
--- a/src/track/opus.cpp
+++ b/src/track/opus.cpp
@@ -1,6 +1,10 @@
 #include "shiguredo/mp4/track/opus.hpp"
 
+#include <fmt/core.h>
+
+#include <cstdint>
 #include <iterator>
+#include <limits>
 #include <stdexcept>
 #include <vector>
 
@@ -21,6 +25,9 @@ OpusTrack::OpusTrack(const OpusTrackParameters& params)
   if (m_track_id == 0) {
     throw std::runtime_error("OpusTrack::OpusTrack(): invalid track_id=0");
   }
+  if (m_pre_skip > std::numeric_limits<std::uint16_t>::max()) {
+    throw std::runtime_error(fmt::format("OpusTrack::OpusTrack(): too large pre_skip={}", m_pre_skip));
+  }
   m_writer = params.writer;
 }
 
diff --git a/src/track/vide.cpp b/src/track/vide.cpp
index 8a0dd1f..f9284df 100644
--- a/src/track/vide.cpp
+++ b/src/track/vide.cpp
@@ -1,5 +1,11 @@
 #include "shiguredo/mp4/track/vide.hpp"
 
+#include <fmt/core.h>
+
+#include <cstdint>
+#include <limits>
+#include <stdexcept>
+
 #include "shiguredo/mp4/box/boxes.hpp"
 #include "shiguredo/mp4/box_info.hpp"
 
@@ -9,6 +15,15 @@ VideTrack::VideTrack() {
   m_handler_type = HandlerType::vide;
 }
 
+void VideTrack::setDimensions(const std::uint32_t width, const std::uint32_t height) {
+  if (width > std::numeric_limits<std::uint16_t>::max() || height > std::numeric_limits<std::uint16_t>::max()) {
+    throw std::runtime_error(
+        fmt::format("VideTrack::setDimensions(): too large dimensions: width={} height={}", width, height));
+  }
+  m_width = width;
+  m_height = height;
+}
+
 void VideTrack::makeTkhdBoxInfo(BoxInfo* trak) {
   new BoxInfo({.parent = trak,
                .box = new box::Tkhd({
diff --git a/src/track/vpx.cpp b/src/track/vpx.cpp
index ff1dd16..cc22d0f 100644
--- a/src/track/vpx.cpp
+++ b/src/track/vpx.cpp
@@ -19,8 +19,7 @@ VPXTrack::VPXTrack(const VPXTrackParameters& params) : m_codec(params.codec) {
   if (m_track_id == 0) {
     throw std::runtime_error("VPXTrack::VPXTrack(): invalid track_id=0");
   }
-  m_width = params.width;
-  m_height = params.height;
+  setDimensions(params.width, params.height);
   m_writer = params.writer;
   m_max_bitrate = params.max_bitrate;
   m_avg_bitrate = params.avg_bitrate;
-- 
2.43.0


From 4cf3617afe45238bd053327cc3ccd23468f1eb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:56 +0000
Subject: [PATCH 32/54] fix: a sample of 4 GiB or more must be refused, its
 size does not fit the sample size table

---
 src/track/track.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/track/track.cpp b/src/track/track.cpp
index d1d27fb..3707abc 100644
--- a/src/track/track.cpp
+++ b/src/track/track.cpp
@@ -28,6 +28,9 @@ void Track::addMdatData(const std::uint64_t timestamp,
                         const std::uint8_t* data,
                         const std::size_t data_size,
                         bool is_key) {
+  if (data_size > std::numeric_limits<std::uint32_t>::max()) {
+    throw std::runtime_error(fmt::format("Track::addMdatData(): too large sample: data_size={}", data_size));
+  }
   const auto mdat_offset = m_writer->tellCurrentMdatOffset();
   if (m_current_chunk_info.initialized && mdat_offset != m_current_chunk_end) {
     // 他の track の sample が間に書き込まれているので, chunk を続けることはできない
-- 
2.43.0


From 5f91fc0e8f61ab4f21c8eccfe9e36d16106e02d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:45 +0000
Subject: [PATCH 33/54] fix: values wider than their field must be refused, not
 written with their upper bits cut off

---
 include/shiguredo/mp4/bitio/bitio.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/shiguredo/mp4/bitio/bitio.hpp b/include/shiguredo/mp4/bitio/bitio.hpp
index 6fdca87..2102a60 100644
--- a/include/shiguredo/mp4/bitio/bitio.hpp
+++ b/include/shiguredo/mp4/bitio/bitio.hpp
@@ -17,6 +17,9 @@ namespace shiguredo::mp4::bitio {
 template <typename T>
 std::uint64_t write_int(Writer* writer, const T val, const std::uint64_t size = sizeof(T) * 8) {
   const bool signed_bit = val < 0;
+  if (size > 0 && size < sizeof(T) * 8 && (static_cast<std::int64_t>(val) >> (size - 1)) != (signed_bit ? -1 : 0)) {
+    throw std::runtime_error(fmt::format("bitio::write_int(): value does not fit {} bits: {}", size, val));
+  }
   std::uint64_t wbits = 0;
   for (std::uint64_t i = 0; i < size; i += 8) {
     T v = val;
@@ -72,6 +75,9 @@ std::uint64_t read_int(Reader* reader, T* var, const std::uint64_t size = sizeof
 
 template <typename T>
 std::uint64_t write_uint(Writer* writer, const T val, const std::uint64_t size = sizeof(T) * 8) {
+  if (size < sizeof(T) * 8 && (static_cast<std::uint64_t>(val) >> size) != 0) {
+    throw std::runtime_error(fmt::format("bitio::write_uint(): value does not fit {} bits: {}", size, val));
+  }
   std::uint64_t wbits = 0;
   for (std::uint64_t i = 0; i < size; i += 8) {
     T v = val;
-- 
2.43.0


From 69c87e6c6e3ed3674fbb2e2240ce448decfd59c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 34/54] fix: a language code the format cannot hold must be
 refused

---
 src/box/mdhd.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/box/mdhd.cpp b/src/box/mdhd.cpp
index 6db7572..664b7ec 100644
--- a/src/box/mdhd.cpp
+++ b/src/box/mdhd.cpp
@@ -3,9 +3,12 @@
 #include <fmt/core.h>
 #include <fmt/ranges.h>
 
+#include <algorithm>
 #include <array>
 #include <cstdint>
 #include <istream>
+#include <iterator>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -80,6 +83,9 @@ std::uint64_t Mdhd::readData(std::istream& is) {
 }
 
 std::uint16_t encode_language(const std::array<std::uint8_t, 3>& lng) {
+  if (std::any_of(std::begin(lng), std::end(lng), [](const auto c) { return c < 0x60 || c > 0x7f; })) {
+    throw std::runtime_error(fmt::format("encode_language(): invalid language code: [{:#x}]", fmt::join(lng, ", ")));
+  }
   return static_cast<std::uint16_t>(((lng[0] - 0x60) << 10) + ((lng[1] - 0x60) << 5) + ((lng[2] - 0x60)));
 }
 
-- 
2.43.0


From dcf25a235adfbf0e37d5c54b08b46de8ff01f599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:43 +0000
Subject: [PATCH 35/54] fix: a string with a null character inside must be
 refused where it would be cut off

---
 src/bitio/bitio.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bitio/bitio.cpp b/src/bitio/bitio.cpp
index c6c5d79..29b6bea 100644
--- a/src/bitio/bitio.cpp
+++ b/src/bitio/bitio.cpp
@@ -17,6 +17,9 @@
 namespace shiguredo::mp4::bitio {
 
 std::uint64_t write_string(Writer* writer, const std::string& str) {
+  if (str.find('\0') != std::string::npos) {
+    throw std::runtime_error("bitio::write_string(): string must not include null character");
+  }
   std::uint64_t wbits = 0;
   for (auto c : str) {
     std::vector<std::uint8_t> v{static_cast<std::uint8_t>(c)};
-- 
2.43.0


From 8e31dbcb84ddb0a2a0dba88a03c39a935078ef1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:26 +0000
Subject: [PATCH 36/54] fix: the children of a QuickTime meta box, which has no
 version and flags, start right after its header

---
 include/shiguredo/mp4/box/meta.hpp |  4 ++++
 src/box/meta.cpp                   | 19 ++++++++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/shiguredo/mp4/box/meta.hpp b/include/shiguredo/mp4/box/meta.hpp
index 8983525..9641588 100644
--- a/include/shiguredo/mp4/box/meta.hpp
+++ b/include/shiguredo/mp4/box/meta.hpp
@@ -19,6 +19,10 @@ class Meta : public FullBox {
 
   std::uint64_t writeData(std::ostream&) const override;
   std::uint64_t readData(std::istream&) override;
+  std::uint64_t getDataSize() const override;
+
+ private:
+  bool m_quick_time = false;
 };
 
 }  // namespace shiguredo::mp4::box
diff --git a/src/box/meta.cpp b/src/box/meta.cpp
index 5c91881..988131a 100644
--- a/src/box/meta.cpp
+++ b/src/box/meta.cpp
@@ -20,10 +20,16 @@ Meta::Meta() {
 }
 
 std::string Meta::toStringOnlyData() const {
+  if (m_quick_time) {
+    return "";
+  }
   return getVersionAndFlagsString();
 }
 
 std::uint64_t Meta::writeData(std::ostream& os) const {
+  if (m_quick_time) {
+    return 0;
+  }
   bitio::Writer writer(os);
   return writeVersionAndFlag(&writer);
 }
@@ -31,12 +37,23 @@ std::uint64_t Meta::writeData(std::ostream& os) const {
 std::uint64_t Meta::readData(std::istream& is) {
   bitio::Reader reader(is);
   std::uint64_t rbits = readVersionAndFlag(&reader);
-  if ((m_version | m_flags[0] | m_flags[1] | m_flags[2]) != 0) {
+  m_quick_time = (m_version | m_flags[0] | m_flags[1] | m_flags[2]) != 0;
+  if (m_quick_time) {
+    // in QuickTime files the box has no version and flags: these bytes belong to its first child
     m_version = 0;
     m_flags = {0, 0, 0};
+    reader.seek(static_cast<std::uint64_t>(-4), std::ios_base::cur);
+    return 0;
   }
 
   return rbits;
 }
 
+std::uint64_t Meta::getDataSize() const {
+  if (m_quick_time) {
+    return 0;
+  }
+  return FullBox::getDataSize();
+}
+
 }  // namespace shiguredo::mp4::box
-- 
2.43.0


From c7be9ff20a104a8f0db08e11e28bbb3be85ec1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:07 +0000
Subject: [PATCH 37/54] fix: a box header that the stream does not deliver must
 not be made up

---
 src/box_header.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/box_header.cpp b/src/box_header.cpp
index 10b65d8..d6d983c 100644
--- a/src/box_header.cpp
+++ b/src/box_header.cpp
@@ -38,7 +38,10 @@ BoxHeader* read_box_header(std::istream& is) {
     throw std::runtime_error(fmt::format("read_box_header(): istream::seekg() failed: rdstate={}", is.rdstate()));
   }
   std::array<std::uint8_t, 8> buf;
-  std::copy_n(std::istreambuf_iterator<char>(is), 8, std::begin(buf));
+  is.read(reinterpret_cast<char*>(buf.data()), 8);
+  if (!is.good()) {
+    throw std::runtime_error(fmt::format("read_box_header(): istream::read() failed: rdstate={}", is.rdstate()));
+  }
   std::uint64_t header_size = Constants::SMALL_HEADER_SIZE;
   std::uint64_t size = endian::be_to_uint32(buf[0], buf[1], buf[2], buf[3]);
   BoxType type;
@@ -57,8 +60,10 @@ BoxHeader* read_box_header(std::istream& is) {
     if (!is.good()) {
       throw std::runtime_error(fmt::format("read_box_header(): istream::seekg() failed: rdstate={}", is.rdstate()));
     }
-    std::copy_n(std::istreambuf_iterator<char>(is), Constants::LARGE_HEADER_SIZE - Constants::SMALL_HEADER_SIZE,
-                std::begin(buf));
+    is.read(reinterpret_cast<char*>(buf.data()), Constants::LARGE_HEADER_SIZE - Constants::SMALL_HEADER_SIZE);
+    if (!is.good()) {
+      throw std::runtime_error(fmt::format("read_box_header(): istream::read() failed: rdstate={}", is.rdstate()));
+    }
     header_size = Constants::LARGE_HEADER_SIZE;
     size = endian::be_to_uint64(buf[0], buf[1], buf[2], buf[3], buf[4], buf[5], buf[6], buf[7]);
   }
-- 
2.43.0


From 25cc647cd0c1fc1cd1e6fa6ca10e057bb377d3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:07 +0000
Subject: [PATCH 38/54] fix: box data that the stream does not deliver must not
 be made up

---
 src/reader/reader.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/reader/reader.cpp b/src/reader/reader.cpp
index c709723..98a26c7 100644
--- a/src/reader/reader.cpp
+++ b/src/reader/reader.cpp
@@ -62,7 +62,14 @@ std::uint64_t SimpleReader::readBox(BoxInfo* parent, const std::uint64_t end, co
                                          header->getDataSize(), remaining_size));
   }
   std::stringstream ss;
-  std::copy_n(std::istreambuf_iterator<char>(m_is), header->getDataSize(), std::ostreambuf_iterator<char>(ss));
+  std::istreambuf_iterator<char> it(m_is);
+  std::ostreambuf_iterator<char> out(ss);
+  for (std::uint64_t i = 0; i < header->getDataSize(); ++i, ++it) {
+    if (it == std::istreambuf_iterator<char>()) {
+      throw std::runtime_error(fmt::format("SimpleReader::readBox(): cannot read box data: {}", header->toString()));
+    }
+    *out++ = *it;
+  }
 
   spdlog::trace("SimpleReader::readBox(): Header={}", header->toString());
 
-- 
2.43.0


From cf437b445ef4dcc6a78788826dafdb223feecfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:30 +0000
Subject: [PATCH 39/54] fix: a position of the stream that cannot be queried
 must be reported

---
 src/bitio/reader.cpp  |  6 +++++-
 src/box_header.cpp    | 10 ++++++----
 src/stream/stream.cpp |  4 ++--
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/bitio/reader.cpp b/src/bitio/reader.cpp
index 55612e2..0ad9717 100644
--- a/src/bitio/reader.cpp
+++ b/src/bitio/reader.cpp
@@ -66,7 +66,11 @@ std::uint64_t Reader::seek(const std::uint64_t offset, const std::ios_base::seek
     throw std::runtime_error(fmt::format("bitio::Reader::seek(): istream::seekg() failed: rdstate={}", m_is.rdstate()));
   }
   m_width = 0;
-  return static_cast<std::uint64_t>(m_is.tellg());
+  const auto pos = m_is.tellg();
+  if (pos == std::istream::pos_type(-1)) {
+    throw std::runtime_error(fmt::format("bitio::Reader::seek(): istream::tellg() failed: rdstate={}", m_is.rdstate()));
+  }
+  return static_cast<std::uint64_t>(pos);
 }
 
 void Reader::setOctet(const std::uint8_t octet) {
diff --git a/src/box_header.cpp b/src/box_header.cpp
index d6d983c..6ef0cae 100644
--- a/src/box_header.cpp
+++ b/src/box_header.cpp
@@ -16,18 +16,20 @@
 namespace shiguredo::mp4 {
 
 BoxHeader* read_box_header(std::istream& is) {
-  const std::uint64_t offset = static_cast<std::uint64_t>(is.tellg());
-  if (!is.good()) {
+  const auto pos = is.tellg();
+  if (!is.good() || pos == std::istream::pos_type(-1)) {
     throw std::runtime_error(fmt::format("read_box_header(): istream::tellg() failed: rdstate={}", is.rdstate()));
   }
+  const std::uint64_t offset = static_cast<std::uint64_t>(pos);
   is.seekg(0, std::ios_base::end);
   if (!is.good()) {
     throw std::runtime_error(fmt::format("read_box_header(): istream::seekg() failed: rdstate={}", is.rdstate()));
   }
-  const auto offset_eof = static_cast<std::uint64_t>(is.tellg());
-  if (!is.good()) {
+  const auto pos_eof = is.tellg();
+  if (!is.good() || pos_eof == std::istream::pos_type(-1)) {
     throw std::runtime_error(fmt::format("read_box_header(): istream::tellg() failed: rdstate={}", is.rdstate()));
   }
+  const auto offset_eof = static_cast<std::uint64_t>(pos_eof);
   if ((offset_eof - offset) < Constants::SMALL_HEADER_SIZE) {
     throw std::invalid_argument(
         fmt::format("read_box_header(): stream has not enough data (1): {} {}", offset_eof, offset));
diff --git a/src/stream/stream.cpp b/src/stream/stream.cpp
index e99ca18..e20d8ed 100644
--- a/src/stream/stream.cpp
+++ b/src/stream/stream.cpp
@@ -8,7 +8,7 @@ namespace shiguredo::mp4::stream {
 
 std::streamoff get_istream_offset_to_end(std::istream& is) {
   const auto offset = is.tellg();
-  if (!is.good()) {
+  if (!is.good() || offset == std::istream::pos_type(-1)) {
     throw std::runtime_error(
         fmt::format("stream::get_istream_offset_to_end(): istream::tellg() failed: rdstate={}", is.rdstate()));
   }
@@ -18,7 +18,7 @@ std::streamoff get_istream_offset_to_end(std::istream& is) {
         fmt::format("stream::get_istream_offset_to_end(): istream::seekg() failed: rdstate={}", is.rdstate()));
   }
   const auto end_offset = is.tellg();
-  if (!is.good()) {
+  if (!is.good() || end_offset == std::istream::pos_type(-1)) {
     throw std::runtime_error(
         fmt::format("stream::get_istream_offset_to_end(): istream::tellg() failed: rdstate={}", is.rdstate()));
   }
-- 
2.43.0


From d5012a50e3258e1f6e74d2f662c4e4a4dc48e02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:04 +0000
Subject: [PATCH 40/54] fix: a dump that does not reach standard output must be
 reported

---
 src/reader/reader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader/reader.cpp b/src/reader/reader.cpp
index 98a26c7..23f8fbb 100644
--- a/src/reader/reader.cpp
+++ b/src/reader/reader.cpp
@@ -42,6 +42,10 @@ void SimpleReader::read() {
   }
   for (BoxInfo* i : m_boxes) {
     std::cout << i->toString() << std::endl;
+    if (!std::cout.good()) {
+      throw std::runtime_error(
+          fmt::format("SimpleReader::read(): cannot write to standard output: rdstate={}", std::cout.rdstate()));
+    }
   }
 }
 
-- 
2.43.0


From 8658f8528450a4bd59f03f01f693adccf421b7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:03 +0000
Subject: [PATCH 41/54] fix: a track run that was read without sample fields
 must not announce samples it does not hold

Samples without fields are not kept, so after enabling per-sample fields the
run was written with a count its payload did not contain.
---
 include/shiguredo/mp4/box/trun.hpp | 2 ++
 src/box/trun.cpp                   | 9 +++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/shiguredo/mp4/box/trun.hpp b/include/shiguredo/mp4/box/trun.hpp
index 39ebef2..b1aac57 100644
--- a/include/shiguredo/mp4/box/trun.hpp
+++ b/include/shiguredo/mp4/box/trun.hpp
@@ -63,6 +63,8 @@ class Trun : public FullBox {
   std::uint64_t readData(std::istream&) override;
 
  private:
+  std::uint32_t getSampleCount() const;
+
   std::uint32_t m_sample_count;
   std::int32_t m_data_offset;
   std::uint32_t m_first_sample_flags;
diff --git a/src/box/trun.cpp b/src/box/trun.cpp
index a9034e1..88372c4 100644
--- a/src/box/trun.cpp
+++ b/src/box/trun.cpp
@@ -37,7 +37,7 @@ Trun::Trun(const TrunParameters& params)
 }
 
 std::string Trun::toStringOnlyData() const {
-  std::string s = fmt::format("{} SampleCount={}", getVersionAndFlagsString(), m_sample_count);
+  std::string s = fmt::format("{} SampleCount={}", getVersionAndFlagsString(), getSampleCount());
   const std::uint32_t flags = getFlags();
   if (flags & 0x1) {
     s += fmt::format(" DataOffset={}", m_data_offset);
@@ -53,10 +53,15 @@ std::string Trun::toStringOnlyData() const {
   return s + fmt::format(" Entries=[{}]", fmt::join(entries, ", "));
 }
 
+// samples without any fields are not kept as entries, so they are no longer there once the flags announce fields
+std::uint32_t Trun::getSampleCount() const {
+  return (getFlags() & 0xf00) ? static_cast<std::uint32_t>(std::size(m_entries)) : m_sample_count;
+}
+
 std::uint64_t Trun::writeData(std::ostream& os) const {
   bitio::Writer writer(os);
   std::uint64_t wbits = writeVersionAndFlag(&writer);
-  wbits += bitio::write_uint<std::uint32_t>(&writer, m_sample_count);
+  wbits += bitio::write_uint<std::uint32_t>(&writer, getSampleCount());
   const std::uint32_t flags = getFlags();
   if (flags & 0x1) {
     wbits += bitio::write_int<std::int32_t>(&writer, m_data_offset);
-- 
2.43.0


From 5581e76a7d4ac7998e1d3ff509f795747d67b36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:21 +0000
Subject: [PATCH 42/54] fix: a duration that no number of ticks expresses must
 be refused

---
 include/shiguredo/mp4/time/time.hpp |  1 +
 src/time/time.cpp                   | 11 +++++++++++
 src/track/track.cpp                 |  7 ++++---
 src/writer/faststart_writer.cpp     |  2 +-
 src/writer/simple_writer.cpp        |  2 +-
 5 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/shiguredo/mp4/time/time.hpp b/include/shiguredo/mp4/time/time.hpp
index 4d27a70..f174f87 100644
--- a/include/shiguredo/mp4/time/time.hpp
+++ b/include/shiguredo/mp4/time/time.hpp
@@ -9,5 +9,6 @@ const std::uint64_t SECONDS_19040101_to_19700101 = 2082844800;  // 24107 * 86400
 
 std::string format_epoch_19040101(const std::uint64_t t);
 std::uint64_t convert_to_epoch_19040101(const std::uint64_t t);
+std::uint64_t convert_to_timescale(const float seconds, const std::uint32_t timescale);
 
 }  // namespace shiguredo::mp4::time
diff --git a/src/time/time.cpp b/src/time/time.cpp
index f40f309..d931eab 100644
--- a/src/time/time.cpp
+++ b/src/time/time.cpp
@@ -6,6 +6,7 @@
 
 #include <ctime>
 #include <limits>
+#include <stdexcept>
 
 namespace shiguredo::mp4::time {
 
@@ -24,4 +25,14 @@ std::uint64_t convert_to_epoch_19040101(const std::uint64_t t) {
   return t + SECONDS_19040101_to_19700101;
 }
 
+std::uint64_t convert_to_timescale(const float seconds, const std::uint32_t timescale) {
+  const float t = static_cast<float>(timescale) * seconds;
+  // 負の値, NaN, 64 bit に収まらない値は表現できない
+  if (!(t >= 0.0f && t < 18446744073709551616.0f)) {
+    throw std::runtime_error(
+        fmt::format("time::convert_to_timescale(): invalid duration: seconds={} timescale={}", seconds, timescale));
+  }
+  return static_cast<std::uint64_t>(t);
+}
+
 }  // namespace shiguredo::mp4::time
diff --git a/src/track/track.cpp b/src/track/track.cpp
index 3707abc..2facf3a 100644
--- a/src/track/track.cpp
+++ b/src/track/track.cpp
@@ -9,6 +9,7 @@
 
 #include "shiguredo/mp4/box/boxes.hpp"
 #include "shiguredo/mp4/box_info.hpp"
+#include "shiguredo/mp4/time/time.hpp"
 #include "shiguredo/mp4/writer/writer.hpp"
 
 namespace shiguredo::mp4::track {
@@ -60,13 +61,13 @@ void Track::finalize() {
   if (m_finalized) {
     return;
   }
+  const auto duration = getDurationInTimescale();
   m_finalized = true;
   if (m_current_chunk_info.number_of_samples > 0) {
     m_chunk_infos.push_back(m_current_chunk_info);
   }
 
   if (!std::empty(m_mdat_sample_sizes)) {
-    const auto duration = getDurationInTimescale();
     m_sample_durations.push_back(
         duration > m_prev_timestamp ? static_cast<std::uint32_t>(duration - m_prev_timestamp) : 0);
   }
@@ -163,11 +164,11 @@ void Track::setMediaTime(const std::int64_t media_time) {
 }
 
 std::uint64_t Track::getDurationInTimescale() const {
-  return static_cast<std::uint64_t>(static_cast<float>(m_timescale) * m_duration);
+  return time::convert_to_timescale(m_duration, m_timescale);
 }
 
 std::uint64_t Track::getDurationInMvhdTimescale() const {
-  return static_cast<std::uint64_t>(static_cast<float>(m_mvhd_timescale) * m_duration);
+  return time::convert_to_timescale(m_duration, m_mvhd_timescale);
 }
 
 std::uint8_t Track::getVersionForDuration(const std::uint64_t duration) const {
diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index 5379eff..a9d4e36 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -53,7 +53,7 @@ void FaststartWriter::recreateMoovBoxInfo() {
   }
 
   m_moov_box_info = new BoxInfo({.box = new box::Moov()});
-  const std::uint64_t mvhd_duration = static_cast<std::uint64_t>(static_cast<float>(m_mvhd_timescale) * m_duration);
+  const std::uint64_t mvhd_duration = time::convert_to_timescale(m_duration, m_mvhd_timescale);
   m_mvhd_box = new box::Mvhd({.version = getVersionForDuration(mvhd_duration),
                               .creation_time = m_time_from_epoch,
                               .modification_time = m_time_from_epoch,
diff --git a/src/writer/simple_writer.cpp b/src/writer/simple_writer.cpp
index 2e44c3e..2229642 100644
--- a/src/writer/simple_writer.cpp
+++ b/src/writer/simple_writer.cpp
@@ -28,7 +28,7 @@ SimpleWriter::SimpleWriter(std::ostream& t_os, const SimpleWriterParameters& par
   m_time_from_epoch = time::convert_to_epoch_19040101(
       static_cast<std::uint64_t>(duration_cast<std::chrono::seconds>(p.time_since_epoch()).count()));
 
-  const std::uint64_t mvhd_duration = static_cast<std::uint64_t>(static_cast<float>(m_mvhd_timescale) * m_duration);
+  const std::uint64_t mvhd_duration = time::convert_to_timescale(m_duration, m_mvhd_timescale);
 
   m_moov_box_info = new BoxInfo({.box = new box::Moov()});
   m_mvhd_box = new box::Mvhd({.version = getVersionForDuration(mvhd_duration),
-- 
2.43.0


From 256df77c519a5bca7764964d19e275b7c6fb89aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:21 +0000
Subject: [PATCH 43/54] fix: a sample whose distance from its predecessor the
 time table cannot hold must be refused

---
 src/track/track.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/track/track.cpp b/src/track/track.cpp
index 2facf3a..e293a75 100644
--- a/src/track/track.cpp
+++ b/src/track/track.cpp
@@ -32,6 +32,13 @@ void Track::addMdatData(const std::uint64_t timestamp,
   if (data_size > std::numeric_limits<std::uint32_t>::max()) {
     throw std::runtime_error(fmt::format("Track::addMdatData(): too large sample: data_size={}", data_size));
   }
+  // 先頭の sample 以外は, 直前の sample からの時間が 32 bit に収まる必要がある
+  const std::uint64_t sample_duration = timestamp - m_prev_timestamp;
+  if (!std::empty(m_mdat_sample_sizes) &&
+      (timestamp < m_prev_timestamp || sample_duration > std::numeric_limits<std::uint32_t>::max())) {
+    throw std::runtime_error(fmt::format("Track::addMdatData(): invalid timestamp: timestamp={} previous={}", timestamp,
+                                         m_prev_timestamp));
+  }
   const auto mdat_offset = m_writer->tellCurrentMdatOffset();
   if (m_current_chunk_info.initialized && mdat_offset != m_current_chunk_end) {
     // 他の track の sample が間に書き込まれているので, chunk を続けることはできない
@@ -46,7 +53,7 @@ void Track::addMdatData(const std::uint64_t timestamp,
 
   if (!std::empty(m_mdat_sample_sizes)) {
     spdlog::trace("Track::addMdatData(): duration: {} {}", timestamp, m_prev_timestamp);
-    m_sample_durations.push_back(static_cast<std::uint32_t>(timestamp - m_prev_timestamp));
+    m_sample_durations.push_back(static_cast<std::uint32_t>(sample_duration));
   }
   m_prev_timestamp = timestamp;
 
@@ -62,14 +69,16 @@ void Track::finalize() {
     return;
   }
   const auto duration = getDurationInTimescale();
+  // 最後の sample は track の終わりまで続く. 32 bit で表現できない場合は, 表現できる最大の長さにする
+  const std::uint64_t last_duration = std::min<std::uint64_t>(
+      duration > m_prev_timestamp ? duration - m_prev_timestamp : 0, std::numeric_limits<std::uint32_t>::max());
   m_finalized = true;
   if (m_current_chunk_info.number_of_samples > 0) {
     m_chunk_infos.push_back(m_current_chunk_info);
   }
 
   if (!std::empty(m_mdat_sample_sizes)) {
-    m_sample_durations.push_back(
-        duration > m_prev_timestamp ? static_cast<std::uint32_t>(duration - m_prev_timestamp) : 0);
+    m_sample_durations.push_back(static_cast<std::uint32_t>(last_duration));
   }
 }
 
-- 
2.43.0


From 067807134dee7e2458ae05a320b6cc62dd1ecb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:30 +0000
Subject: [PATCH 44/54] fix: a file-type or free box that cannot be written
 must not be leaked

---
 src/writer/faststart_writer.cpp |  9 ++++-----
 src/writer/simple_writer.cpp    | 18 ++++++++----------
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index a9d4e36..3bc901d 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -65,12 +65,11 @@ void FaststartWriter::recreateMoovBoxInfo() {
 }
 
 void FaststartWriter::writeFtypBox() {
-  BoxInfo* ftyp = new BoxInfo({.box = new box::Ftyp(m_ftyp_params)});
+  BoxInfo ftyp({.box = new box::Ftyp(m_ftyp_params)});
 
-  ftyp->adjustOffsetAndSize(0);
-  ftyp->write(m_os);
-  m_ftyp_size = ftyp->getSize();
-  delete ftyp;
+  ftyp.adjustOffsetAndSize(0);
+  ftyp.write(m_os);
+  m_ftyp_size = ftyp.getSize();
 }
 
 void FaststartWriter::writeMdatHeader() {
diff --git a/src/writer/simple_writer.cpp b/src/writer/simple_writer.cpp
index 2229642..a74ded7 100644
--- a/src/writer/simple_writer.cpp
+++ b/src/writer/simple_writer.cpp
@@ -41,12 +41,11 @@ SimpleWriter::SimpleWriter(std::ostream& t_os, const SimpleWriterParameters& par
 }
 
 void SimpleWriter::writeFtypBox() {
-  BoxInfo* ftyp = new BoxInfo({.box = new box::Ftyp(m_ftyp_params)});
+  BoxInfo ftyp({.box = new box::Ftyp(m_ftyp_params)});
 
-  ftyp->adjustOffsetAndSize(0);
-  ftyp->write(m_os);
-  m_ftyp_size = ftyp->getSize();
-  delete ftyp;
+  ftyp.adjustOffsetAndSize(0);
+  ftyp.write(m_os);
+  m_ftyp_size = ftyp.getSize();
 
   m_os.seekp(static_cast<std::streamoff>(m_ftyp_size + Constants::LARGE_HEADER_SIZE), std::ios_base::beg);
   if (!m_os.good()) {
@@ -72,18 +71,17 @@ void SimpleWriter::writeFreeBoxAndMdatHeader() {
           "SimpleWriter::writeFreeBoxAndMdatHeader(): ostream::write() failed: rdstate={}", m_os.rdstate()));
     }
   } else {
-    BoxInfo* free = new BoxInfo({.box = new box::Free()});
-    free->adjustOffsetAndSize(m_ftyp_size);
-    free->write(m_os);
+    BoxInfo free({.box = new box::Free()});
+    free.adjustOffsetAndSize(m_ftyp_size);
+    free.write(m_os);
     if (!m_os.good()) {
       throw std::runtime_error(fmt::format(
           "SimpleWriter::writeFreeBoxAndMdatHeader(): ostream::write() failed: rdstate={}", m_os.rdstate()));
     }
-    BoxHeader mdat({.offset = m_ftyp_size + free->getSize(),
+    BoxHeader mdat({.offset = m_ftyp_size + free.getSize(),
                     .size = m_mdat_data_size + Constants::SMALL_HEADER_SIZE,
                     .header_size = Constants::SMALL_HEADER_SIZE,
                     .type = BoxType("mdat")});
-    delete free;
     mdat.write(m_os);
     if (!m_os.good()) {
       throw std::runtime_error(fmt::format(
-- 
2.43.0


From b34dd68a44923a4bfec2a118f9382f132c5e7f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:46 +0000
Subject: [PATCH 45/54] fix: an abandoned faststart writer must not leak its
 intermediate file's handle

---
 .../shiguredo/mp4/writer/faststart_writer.hpp  |  3 +++
 src/writer/faststart_writer.cpp                | 18 +++++++++++++-----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/shiguredo/mp4/writer/faststart_writer.hpp b/include/shiguredo/mp4/writer/faststart_writer.hpp
index 4d53a08..670b5b2 100644
--- a/include/shiguredo/mp4/writer/faststart_writer.hpp
+++ b/include/shiguredo/mp4/writer/faststart_writer.hpp
@@ -32,6 +32,9 @@ struct FaststartWriterParameters {
 class FaststartWriter : public Writer {
  public:
   FaststartWriter(std::ostream&, const FaststartWriterParameters&);
+  FaststartWriter(const FaststartWriter&) = delete;
+  FaststartWriter& operator=(const FaststartWriter&) = delete;
+  ~FaststartWriter() override;
 
   void writeFtypBox() override;
   void writeMoovBox() override;
diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index 3bc901d..c1d8cea 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -2,16 +2,17 @@
 
 #include <fmt/core.h>
 #include <spdlog/spdlog.h>
+#include <unistd.h>
 
 #include <algorithm>
 #include <chrono>
 #include <cstdint>
 #include <cstdio>
-#include <cstring>
 #include <iterator>
 #include <limits>
 #include <stdexcept>
 #include <string>
+#include <utility>
 
 #include "shiguredo/mp4/box/boxes.hpp"
 #include "shiguredo/mp4/box_header.hpp"
@@ -30,23 +31,30 @@ FaststartWriter::FaststartWriter(std::ostream& t_os, const FaststartWriterParame
   m_time_from_epoch = time::convert_to_epoch_19040101(
       static_cast<std::uint64_t>(duration_cast<std::chrono::seconds>(p.time_since_epoch()).count()));
 
-  char* mdat_filename = ::strdup(params.mdat_path_templete.c_str());
-  int fd = ::mkstemp(mdat_filename);
+  std::string mdat_filename = params.mdat_path_templete;
+  int fd = ::mkstemp(mdat_filename.data());
   if (fd == -1) {
     throw std::runtime_error("FaststartWriter::FaststartWriter(): cannot open an intermediate file: mkstemp()");
   }
 
   m_mdat_path = mdat_filename;
-  std::free(mdat_filename);
   spdlog::debug("FaststartWriter::FaststartWriter(): m_mdat_path: {}", m_mdat_path.string());
   m_mdat_fd = ::fdopen(fd, "w+");
   if (m_mdat_fd == nullptr) {
+    ::close(fd);
+    ::unlink(mdat_filename.c_str());
     throw std::runtime_error(
         fmt::format("FaststartWriter::FaststartWriter(): cannot open an intermediate file: fdopen(), m_mdat_path={}",
                     m_mdat_path.string()));
   }
 }
 
+FaststartWriter::~FaststartWriter() {
+  if (m_mdat_fd != nullptr) {
+    std::fclose(m_mdat_fd);
+  }
+}
+
 void FaststartWriter::recreateMoovBoxInfo() {
   if (m_moov_box_info) {
     delete m_moov_box_info;
@@ -161,7 +169,7 @@ void FaststartWriter::copyMdatData() {
     }
   }
 
-  if (auto ret = std::fclose(m_mdat_fd); ret == EOF) {
+  if (auto ret = std::fclose(std::exchange(m_mdat_fd, nullptr)); ret == EOF) {
     throw std::runtime_error(
         fmt::format("FaststartWriter::copyMdatData(): cannot close the intermediate file: {}", m_mdat_path.string()));
   }
-- 
2.43.0


From ac82fd1e51877aa645a7d9f4c74d495f73295970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:46 +0000
Subject: [PATCH 46/54] fix: a box that is given another header must release
 the one it had

---
 src/box.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/box.cpp b/src/box.cpp
index 00068ed..c09bd44 100644
--- a/src/box.cpp
+++ b/src/box.cpp
@@ -58,6 +58,9 @@ std::uint64_t Box::getDataSize() const {
 }
 
 void Box::setHeader(BoxHeader* header) {
+  if (m_header != header) {
+    delete m_header;
+  }
   m_header = header;
 }
 
-- 
2.43.0


From 37e1c4f802e6e80f832fa811344e735c4a050f6a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:08:59 +0000
Subject: [PATCH 47/54] fix: a sample that could not be written must not be
 recorded by its track

---
 src/track/track.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/track/track.cpp b/src/track/track.cpp
index e293a75..89ff004 100644
--- a/src/track/track.cpp
+++ b/src/track/track.cpp
@@ -40,6 +40,8 @@ void Track::addMdatData(const std::uint64_t timestamp,
                                          m_prev_timestamp));
   }
   const auto mdat_offset = m_writer->tellCurrentMdatOffset();
+  // 書き込めなかった sample を記録に残さないように, 先に書き込む
+  m_writer->addMdatData(data, data_size);
   if (m_current_chunk_info.initialized && mdat_offset != m_current_chunk_end) {
     // 他の track の sample が間に書き込まれているので, chunk を続けることはできない
     terminateCurrentChunk();
@@ -57,7 +59,6 @@ void Track::addMdatData(const std::uint64_t timestamp,
   }
   m_prev_timestamp = timestamp;
 
-  m_writer->addMdatData(data, data_size);
   m_mdat_sample_sizes.push_back(static_cast<std::uint32_t>(data_size));
   if (m_handler_type == HandlerType::vide && is_key) {
     m_key_sample_numbers.push_back(static_cast<std::uint32_t>(std::size(m_mdat_sample_sizes)));
-- 
2.43.0


From 9c845d44f450626382864fbbd9e42586c86010e8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:09:59 +0000
Subject: [PATCH 48/54] fix: the parameter sets of an access unit that is
 refused must not be kept

---
 src/track/h264.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/track/h264.cpp b/src/track/h264.cpp
index d3497cb..d44691e 100644
--- a/src/track/h264.cpp
+++ b/src/track/h264.cpp
@@ -89,6 +89,9 @@ void H264Track::addData(const std::uint64_t timestamp,
   std::size_t start = 0;
   // access unit の全ての VCL NAL unit を 1 つの sample とする
   std::vector<std::uint8_t> mdat_data;
+  // access unit が受け付けられなかった場合に残らないように, parameter set は最後に追加する
+  std::vector<std::vector<std::uint8_t>> sequence_parameter_sets;
+  std::vector<std::vector<std::uint8_t>> picture_parameter_sets;
   while (1) {
     auto nu = find_next_nal_unit(data, data_size, start);
     std::vector<uint8_t> sps_data = {};
@@ -122,19 +125,13 @@ void H264Track::addData(const std::uint64_t timestamp,
         // SPS
         std::copy_n(data + nu.start + nu.start_code_size, nal_unit_end - nu.start - nu.start_code_size,
                     std::back_inserter(sps_data));
-        appendSequenceParameterSets(shiguredo::mp4::box::AVCParameterSet({.nal_unit = sps_data}));
-        // 最初の SPS で profile, profile_compatibility, level を置換する
-        if (std::size(m_sequence_parameter_sets) == 1 && std::size(sps_data) > 4) {
-          m_profile = sps_data[1];
-          m_profile_compatibility = sps_data[2];
-          m_level = sps_data[3];
-        }
+        sequence_parameter_sets.push_back(sps_data);
         break;
       case 8:
         // PPS
         std::copy_n(data + nu.start + nu.start_code_size, nal_unit_end - nu.start - nu.start_code_size,
                     std::back_inserter(pps_data));
-        appendPictureParameterSets(shiguredo::mp4::box::AVCParameterSet({.nal_unit = pps_data}));
+        picture_parameter_sets.push_back(pps_data);
         break;
       default:
         throw std::runtime_error(
@@ -149,6 +146,18 @@ void H264Track::addData(const std::uint64_t timestamp,
   if (!std::empty(mdat_data)) {
     addMdatData(timestamp, mdat_data, is_key);
   }
+  for (const auto& sps_data : sequence_parameter_sets) {
+    appendSequenceParameterSets(shiguredo::mp4::box::AVCParameterSet({.nal_unit = sps_data}));
+    // 最初の SPS で profile, profile_compatibility, level を置換する
+    if (std::size(m_sequence_parameter_sets) == 1 && std::size(sps_data) > 4) {
+      m_profile = sps_data[1];
+      m_profile_compatibility = sps_data[2];
+      m_level = sps_data[3];
+    }
+  }
+  for (const auto& pps_data : picture_parameter_sets) {
+    appendPictureParameterSets(shiguredo::mp4::box::AVCParameterSet({.nal_unit = pps_data}));
+  }
 }
 
 bool operator==(NalUnit const& left, NalUnit const& right) {
-- 
2.43.0


From fe03abda915a8ac30f89412bd2586c3443a08bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:52 +0000
Subject: [PATCH 49/54] fix: whether a byte is shown as text must not depend on
 the C locale

---
 src/box/data.cpp | 3 +--
 src/box_type.cpp | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/box/data.cpp b/src/box/data.cpp
index 0bf4f70..aba69b9 100644
--- a/src/box/data.cpp
+++ b/src/box/data.cpp
@@ -4,7 +4,6 @@
 #include <fmt/ranges.h>
 
 #include <algorithm>
-#include <cctype>
 #include <cstdint>
 #include <istream>
 #include <iterator>
@@ -36,7 +35,7 @@ std::string Data::toStringOnlyData() const {
   if (m_data_type == StringUTF8) {
     std::vector<std::uint8_t> escaped;
     std::transform(std::begin(m_data), std::end(m_data), std::back_inserter(escaped), [](const std::uint8_t c) {
-      if (std::isprint(c)) {
+      if (c >= 0x20 && c <= 0x7e) {
         return c;
       }
       return static_cast<std::uint8_t>('.');
diff --git a/src/box_type.cpp b/src/box_type.cpp
index fa2528b..362ee64 100644
--- a/src/box_type.cpp
+++ b/src/box_type.cpp
@@ -4,7 +4,6 @@
 
 #include <algorithm>
 #include <array>
-#include <cctype>
 #include <cstdint>
 #include <iterator>
 #include <regex>
@@ -40,7 +39,7 @@ std::array<std::uint8_t, 4> BoxType::getData() const {
 
 std::string BoxType::toString() const {
   if (std::all_of(std::begin(m_data), std::end(m_data),
-                  [](const std::uint8_t ch) { return std::isprint(ch) != 0 || ch == 0xa9; })) {
+                  [](const std::uint8_t ch) { return (ch >= 0x20 && ch <= 0x7e) || ch == 0xa9; })) {
     auto s = std::string(std::begin(m_data), std::end(m_data));
     return std::regex_replace(s, std::regex("\x00a9"), "©");
   }
-- 
2.43.0


From 26cda6963f4abff0083d5c2c489046f9cf30724c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:31 +0000
Subject: [PATCH 50/54] fix: copies of a box must not share, and release twice,
 its header

---
 include/shiguredo/mp4/box.hpp |  3 +++
 src/box.cpp                   | 11 +++++++++++
 2 files changed, 14 insertions(+)

diff --git a/include/shiguredo/mp4/box.hpp b/include/shiguredo/mp4/box.hpp
index 49882c4..4e9f7f8 100644
--- a/include/shiguredo/mp4/box.hpp
+++ b/include/shiguredo/mp4/box.hpp
@@ -21,6 +21,9 @@ class BoxHeader;
 
 class Box {
  public:
+  Box() = default;
+  Box(const Box&);
+  Box& operator=(const Box&);
   virtual ~Box();
   virtual std::uint8_t getVersion() const;
   virtual void setVersion(std::uint8_t);
diff --git a/src/box.cpp b/src/box.cpp
index c09bd44..e21bc47 100644
--- a/src/box.cpp
+++ b/src/box.cpp
@@ -23,6 +23,17 @@ class Writer;
 
 namespace shiguredo::mp4 {
 
+Box::Box(const Box& other)
+    : m_type(other.m_type), m_header(other.m_header ? new BoxHeader(*other.m_header) : nullptr) {}
+
+Box& Box::operator=(const Box& other) {
+  if (this != &other) {
+    setHeader(other.m_header ? new BoxHeader(*other.m_header) : nullptr);
+    m_type = other.m_type;
+  }
+  return *this;
+}
+
 Box::~Box() {
   if (m_header) {
     delete m_header;
-- 
2.43.0


From f9848347ac3e93e0ae612dcb075742314fbadc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:31 +0000
Subject: [PATCH 51/54] fix: writing a box that has no header, or seeking in
 it, must be refused

---
 src/box.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/box.cpp b/src/box.cpp
index e21bc47..be185b0 100644
--- a/src/box.cpp
+++ b/src/box.cpp
@@ -92,6 +92,9 @@ std::uint64_t Box::getHeaderSize() {
 }
 
 void Box::seekToData(std::istream& is) {
+  if (!m_header) {
+    throw std::logic_error("Box::seekToData(): header is not set");
+  }
   is.seekg(static_cast<std::streamoff>(m_header->getOffset() + m_header->getHeaderSize()), std::ios_base::beg);
   if (!is.good()) {
     throw std::runtime_error(fmt::format("Box::seekToData(): istream::seekg() failed: rdstate={}", is.rdstate()));
@@ -99,6 +102,9 @@ void Box::seekToData(std::istream& is) {
 }
 
 void Box::seekToEnd(std::istream& is) {
+  if (!m_header) {
+    throw std::logic_error("Box::seekToEnd(): header is not set");
+  }
   is.seekg(static_cast<std::streamoff>(m_header->getOffset() + m_header->getSize()), std::ios_base::beg);
   if (!is.good()) {
     throw std::runtime_error(fmt::format("Box::seekToEnd(): istream::seekg() failed: rdstate={}", is.rdstate()));
@@ -118,6 +124,9 @@ void Box::setOffsetAndDataSize(const std::uint64_t offset, const std::uint64_t d
 }
 
 std::uint64_t Box::write(std::ostream& os) {
+  if (!m_header) {
+    throw std::logic_error("Box::write(): header is not set");
+  }
   return m_header->write(os) + writeData(os);
 }
 
-- 
2.43.0


From 3d7d694612db94a11e5b4c250c0fb450111aed28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:25 +0000
Subject: [PATCH 52/54] fix: box trees and writers, which own what they point
 to, must not be copied

---
 include/shiguredo/mp4/box_info.hpp      | 2 ++
 include/shiguredo/mp4/writer/writer.hpp | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/include/shiguredo/mp4/box_info.hpp b/include/shiguredo/mp4/box_info.hpp
index 6c89c22..d70710a 100644
--- a/include/shiguredo/mp4/box_info.hpp
+++ b/include/shiguredo/mp4/box_info.hpp
@@ -22,6 +22,8 @@ struct BoxInfoParameters {
 class BoxInfo {
  public:
   explicit BoxInfo(const BoxInfoParameters&);
+  BoxInfo(const BoxInfo&) = delete;
+  BoxInfo& operator=(const BoxInfo&) = delete;
   ~BoxInfo();
   BoxPath getPath() const;
   Box* getBox() const;
diff --git a/include/shiguredo/mp4/writer/writer.hpp b/include/shiguredo/mp4/writer/writer.hpp
index 952eb08..ce843eb 100644
--- a/include/shiguredo/mp4/writer/writer.hpp
+++ b/include/shiguredo/mp4/writer/writer.hpp
@@ -29,6 +29,9 @@ namespace shiguredo::mp4::writer {
 
 class Writer {
  public:
+  Writer() = default;
+  Writer(const Writer&) = delete;
+  Writer& operator=(const Writer&) = delete;
   virtual ~Writer();
 
   virtual void writeFtypBox() = 0;
-- 
2.43.0


From a5be2017acea5b397057ef0f8eb8a60d5d941aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:20 +0000
Subject: [PATCH 53/54] fix: the intermediate file must be found again after
 the working directory has changed

---
 src/writer/faststart_writer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index c1d8cea..cd9d74a 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -31,7 +31,8 @@ FaststartWriter::FaststartWriter(std::ostream& t_os, const FaststartWriterParame
   m_time_from_epoch = time::convert_to_epoch_19040101(
       static_cast<std::uint64_t>(duration_cast<std::chrono::seconds>(p.time_since_epoch()).count()));
 
-  std::string mdat_filename = params.mdat_path_templete;
+  // 書き込み中に作業ディレクトリが変わっても削除できるように, 絶対パスにしておく
+  std::string mdat_filename = std::filesystem::absolute(params.mdat_path_templete).string();
   int fd = ::mkstemp(mdat_filename.data());
   if (fd == -1) {
     throw std::runtime_error("FaststartWriter::FaststartWriter(): cannot open an intermediate file: mkstemp()");
-- 
2.43.0


From c2a0969e10b9ab693e720da9c48ce7fd178f6d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:44 +0000
Subject: [PATCH 54/54] fix: av1C must leave the presentation delay out when it
 is not present

---
 src/box/av1c.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/box/av1c.cpp b/src/box/av1c.cpp
index 071f039..527bd04 100644
--- a/src/box/av1c.cpp
+++ b/src/box/av1c.cpp
@@ -54,7 +54,9 @@ std::uint64_t AV1CodecConfiguration::writeData(std::ostream& os) const {
   wbits += bitio::write_uint<std::uint8_t>(&writer, m_chroma_sample_position, 2);
   wbits += bitio::write_uint<std::uint8_t>(&writer, m_reserved, 3);
   wbits += bitio::write_bool(&writer, m_initial_presentation_delay_present);
-  wbits += bitio::write_uint<std::uint8_t>(&writer, m_initial_presentation_delay_minus_one, 4);
+  // initial_presentation_delay_present が false の場合は reserved で, 0 でなければならない
+  wbits += bitio::write_uint<std::uint8_t>(
+      &writer, m_initial_presentation_delay_present ? m_initial_presentation_delay_minus_one : std::uint8_t{0}, 4);
   return wbits + bitio::write_vector_uint<std::uint8_t>(&writer, m_config_OBUs);
 }
 
-- 
2.43.0

