From f07ab95515a7761d54f2f485f4d1ec077241be51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 01/32] fix: count key transformation rounds in 64 bits

A 32 bit counter never reaches a round count of 2^32 or more, so such a
database hung the transformation forever.
---
 src/key.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/key.cc b/src/key.cc
index 2156608..0287861 100644
--- a/src/key.cc
+++ b/src/key.cc
@@ -124,7 +124,7 @@ std::array<uint8_t, 32> Key::Transform(const std::array<uint8_t, 32>& seed,
   AesCipher cipher(seed);
 
   std::array<uint8_t, 32> transformed_key = key_.Resolve(resolution);
-  for (uint32_t i = 0; i < rounds; ++i)
+  for (uint64_t i = 0; i < rounds; ++i)
     transformed_key = encrypt_ecb(transformed_key, cipher);
 
   SHA256_CTX sha256;
-- 
2.43.0


From 5f1cfec19b274abb9fc0b68aaedbb93d47aad4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 02/32] fix: refuse KDB export of key parameters the header
 cannot hold

A master seed of another size than 16 bytes was copied out of bounds and a
round count above 32 bits was truncated in the header but used in full by
the key derivation, making the file impossible to open.
---
 src/kdb.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 3a5a7fb..0a1ec80 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -643,11 +643,15 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
 void KdbFile::Export(const std::string& path, const Database& db,
                      const Key& key) {
   // Extract database values in compatible formats.
-  assert(db.master_seed().size() == 16);
+  if (db.master_seed().size() != 16)
+    throw InternalError("Master seed size is not supported by KDB.");
   std::array<uint8_t, 16> master_seed;
   std::copy(db.master_seed().begin(), db.master_seed().end(),
             master_seed.begin());
 
+  if (db.transform_rounds() > std::numeric_limits<uint32_t>::max())
+    throw InternalError("Transform round count exceeds KDB maximum.");
+
   std::ofstream dst(path, std::ios::out | std::ios::binary);
   if (!dst.is_open())
     throw IoError("Unable to open database for writing.");
-- 
2.43.0


From f93cb9a061f7417c4962ddbe53faa0567ca2e21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 03/32] fix: rebuild the KDB group tree from the right level

After stepping back and down again a group was appended past the entry of
its level, so its sub groups ended up in the wrong parent. A level of 65535
wrapped to zero and indexed before the first element.
---
 src/kdb.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 0a1ec80..72199a0 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -599,7 +599,7 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
   // Construct the group and entry tree.
   std::shared_ptr<Group> group_root = std::make_shared<Group>();
 
-  uint16_t last_group_level = 0;
+  std::size_t last_group_level = 0;
 
   std::vector<std::shared_ptr<Group>> last_group_by_level;
   last_group_by_level.push_back(group_root);
@@ -609,13 +609,14 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
 
     // Level of current group plus one, because we have inserted the root at
     // level zero.
-    uint16_t group_level = std::get<1>(group_data) + 1;
+    std::size_t group_level = std::size_t(std::get<1>(group_data)) + 1;
 
     if (group_level > last_group_level) {
       if (group_level != last_group_level + 1)
         throw FormatError("Malformed group tree.");
 
       last_group_by_level[group_level - 1]->AddGroup(group);
+      last_group_by_level.resize(group_level);
       last_group_by_level.push_back(group);
     } else {
       last_group_by_level[group_level - 1]->AddGroup(group);
-- 
2.43.0


From 5885fb6116b18348876fecb1cf67266508827a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 04/32] fix: export unset times as never in KDB

The importer reports "never" as zero but the exporter wrote zero as a date
in 1970.
---
 src/kdb.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 72199a0..49e1683 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -76,7 +76,7 @@ struct KdbTime {
     static constexpr std::array<uint8_t, 5> kNeverTimeConstant = {
       0x2e, 0xdf, 0x39, 0x7e, 0xfb
     };
-    if (time == -1) {
+    if (time == 0 || time == -1) {
       packed = kNeverTimeConstant;
     } else {
       std::tm* time_ptr = std::localtime(&time);
-- 
2.43.0


From 14010296a972b264dd1741cb47664009eade13d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 05/32] fix: report malformed KDB content as a format error

Illegal times and duplicate group identifiers come straight from the file
and must not abort the process.
---
 src/kdb.cc | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 49e1683..ca497b3 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -115,12 +115,10 @@ struct KdbTime {
     if (packed == kNeverTimeConstant)
       return 0;
 
-    assert(second <= 60);
-    assert(minute <= 59);
-    assert(hour <= 23);
-    assert(day >= 1 && day <= 31);
-    assert(month >= 1 && month <= 12);
-    assert(year >= 1900);
+    if (second > 60 || minute > 59 || hour > 23 || day < 1 || day > 31 ||
+        month < 1 || month > 12 || year < 1900) {
+      throw FormatError("Illegal time in KDB.");
+    }
 
     std::tm time;
     time.tm_sec = second;
@@ -134,10 +132,8 @@ struct KdbTime {
     time.tm_isdst = -1;
 
     std::time_t res = std::mktime(&time);
-    if (res == -1) {
-      assert(false);
+    if (res == -1)
       return 0;
-    }
 
     return res;
   }
@@ -585,7 +581,8 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
     std::shared_ptr<Group> group = ReadGroup(content, group_id, group_level);
 
     groups.push_back(std::make_tuple(group, group_level));
-    assert(group_map.count(group_id) == 0);
+    if (group_map.count(group_id) != 0)
+      throw FormatError("Duplicate group identifier in KDB.");
     group_map[group_id] = group;
   }
 
-- 
2.43.0


From fc793504bfff18519263ada9772a42100706f1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 06/32] fix: do not abort on incomplete or malformed KDBX
 content

Missing times, dangling references and empty keys come straight from the
file; treat them the way the release build already does.
---
 src/kdbx.cc | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 043390e..6f95a9a 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -144,14 +144,10 @@ std::time_t KdbxFile::ParseDateTime(const char* text) const {
   
   std::tm tm;
   char* res = strptime(text, "%Y-%m-%dT%H:%M:%S", &tm);
-  if (res == nullptr) {
-    assert(false);
+  if (res == nullptr)
     return 0;
-  }
 
   // Format is expected to always be in UTC.
-  assert(*res == 'Z' || *res == '\0');
-
   return timegm(&tm);
 }
 
@@ -321,10 +317,8 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
         item_node = item_node.next_sibling("Item")) {
       std::string key = item_node.child_value("Key");
       std::string value = item_node.child_value("Value");
-      if (key.empty()) {
-        assert(false);
+      if (key.empty())
         continue;
-      }
 
       meta->AddField(key, value);
     }
@@ -479,8 +473,6 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
     auto it = icon_pool_.find(entry_node.child_value("CustomIconUUID"));
     if (it != icon_pool_.end()) {
       entry->set_custom_icon(it->second);
-    } else {
-      assert(false);
     }
   }
  
@@ -736,8 +728,6 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
     auto icon = icon_pool_.find(group_node.child_value("CustomIconUUID"));
     if (icon != icon_pool_.end()) {
       group->set_custom_icon(icon->second);
-    } else {
-      assert(false);
     }
   }
 
@@ -775,7 +765,6 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
     group->AddEntry(entry);
 
     if (entry_uuid == uuid) {
-      assert(group->last_visible_entry().expired());
       group->set_last_visible_entry(entry);
     }
   }
@@ -869,15 +858,11 @@ void KdbxFile::ParseXml(std::istream& src,
   auto it = group_pool_.find(meta_node.child_value("LastSelectedGroup"));
   if (it != group_pool_.end()) {
     meta->set_last_selected_group(it->second);
-  } else {
-    assert(false);
   }
 
   it = group_pool_.find(meta_node.child_value("LastTopVisibleGroup"));
   if (it != group_pool_.end()) {
     meta->set_last_visible_group(it->second);
-  } else {
-    assert(false);
   }
 }
 
-- 
2.43.0


From a5dd3b0256078b66a70d03daf34b1c5b424d1be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 07/32] fix: do not abort on databases the target format cannot
 represent

---
 src/kdb.cc  | 6 ++----
 src/kdbx.cc | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index ca497b3..b8c61f3 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -449,7 +449,8 @@ void KdbFile::WriteEntry(std::ostream& dst,
   conserve<KdbTime>(dst, expiry_time);
 
   if (entry->HasAttachment()) {
-    assert(entry->attachments().size() == 1);
+    if (entry->attachments().size() != 1)
+      throw InternalError("KDB entries can only have a single attachment.");
     std::shared_ptr<Entry::Attachment> attachment = entry->attachments()[0];
     if (!attachment->name().empty()) {
       conserve<uint16_t>(dst, static_cast<uint16_t>(
@@ -688,14 +689,12 @@ void KdbFile::Export(const std::string& path, const Database& db,
                              [&](const std::shared_ptr<Group>& group,
                                  std::size_t level) {
     if (level > std::numeric_limits<uint16_t>::max()) {
-      assert(false);
       throw InternalError("Group hierarchy exceeds KDB maximum.");
     }
 
     WriteGroup(content, group, num_groups, static_cast<uint16_t>(level));
 
     if (num_groups == std::numeric_limits<decltype(num_groups)>::max()) {
-      assert(false);
       throw InternalError("Group count exceeds KDB maximum.");
     }
     ++num_groups;
@@ -709,7 +708,6 @@ void KdbFile::Export(const std::string& path, const Database& db,
       WriteEntry(content, entry, num_groups);
 
       if (num_entries == std::numeric_limits<decltype(num_entries)>::max()) {
-        assert(false);
         throw InternalError("Entry count exceeds KDB maximum.");
       }
       ++num_entries;
diff --git a/src/kdbx.cc b/src/kdbx.cc
index 6f95a9a..53f3367 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -382,8 +382,6 @@ void KdbxFile::WriteMeta(pugi::xml_node& meta_node,
     meta_node.append_child("EntryTemplatesGroup").text().set(base64_encode(
         meta->entry_templates()->uuid().begin(),
         meta->entry_templates()->uuid().end()).c_str());
-  } else {
-    assert(false);
   }
   meta_node.append_child("EntryTemplatesGroupChanged").text().set(
       WriteDateTime(meta->entry_templates_changed()).c_str());
@@ -1115,7 +1113,8 @@ void KdbxFile::Export(const std::string& path, const Database& db,
   SHA256_Update(&sha256, transformed_key.data(), transformed_key.size());
   SHA256_Final(final_key.data(), &sha256);
 
-  assert(db.cipher() == Database::Cipher::kAes);
+  if (db.cipher() != Database::Cipher::kAes)
+    throw InternalError("Cipher is not supported by KDBX.");
   std::unique_ptr<Cipher<16>> cipher(
       new AesCipher(final_key, db.init_vector()));
 
@@ -1139,7 +1138,6 @@ void KdbxFile::Export(const std::string& path, const Database& db,
 
   if (db.master_seed().size() >
       std::numeric_limits<decltype(KdbxHeaderField::size)>::max()) {
-    assert(false);
     throw InternalError("Master seed size exceeds KDBX maximum.");
   }
   conserve<KdbxHeaderField>(header_stream, KdbxHeaderField(
-- 
2.43.0


From 15ef61f2316d4b83d6ef3e23677652e601c8c13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 08/32] fix: read compressed KDBX binaries in full

The data was read as a zero terminated string, cutting it at the first zero
byte and failing for empty binaries.
---
 src/kdbx.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 53f3367..3b05150 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -294,7 +294,8 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
           std::istream gzip_stream(&gzip_streambuf);
 
           data = protect<std::string>(
-              consume<std::string>(gzip_stream),
+              std::string(std::istreambuf_iterator<char>(gzip_stream),
+                          std::istreambuf_iterator<char>()),
               bin_node.attribute("ProtectedInMemory").as_bool());
         } else {
           data = protect<std::string>(
-- 
2.43.0


From 70d9acc3769751cbefa511cdd66e8800f56c55da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 09/32] fix: read inline KDBX attachments from where they are
 stored

Inline attachment data lives in the "Value" element, which is also where the
exporter writes it, but the importer looked at the enclosing element and got
empty data. Protected inline data is now obfuscated on export and attachments
without data no longer crash the exporter.
---
 src/kdbx.cc | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 3b05150..c15c644 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -553,23 +553,24 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
       } else {
         protect<std::string> prot_val;
 
-        if (bin_node.attribute("Protected").as_bool()) {
+        if (val_node.attribute("Protected").as_bool()) {
           prot_val = protect<std::string>(obfuscator.Process(
-              base64_decode(bin_node.text().as_string())), true);
+              base64_decode(val_node.text().as_string())), true);
         } else {
-          if (bin_node.attribute("Compressed").as_bool()) {
+          if (val_node.attribute("Compressed").as_bool()) {
             std::stringstream raw_stream(
-                base64_decode(bin_node.text().as_string()));
+                base64_decode(val_node.text().as_string()));
             gzip_istreambuf gzip_streambuf(raw_stream);
             std::istream gzip_stream(&gzip_streambuf);
 
             prot_val = protect<std::string>(
-                consume<std::string>(gzip_stream),
-                bin_node.attribute("ProtectedInMemory").as_bool());
+                std::string(std::istreambuf_iterator<char>(gzip_stream),
+                            std::istreambuf_iterator<char>()),
+                val_node.attribute("ProtectedInMemory").as_bool());
           } else {
             prot_val = protect<std::string>(
-                base64_decode(bin_node.text().as_string()),
-                bin_node.attribute("ProtectedInMemory").as_bool());
+                base64_decode(val_node.text().as_string()),
+                val_node.attribute("ProtectedInMemory").as_bool());
           }
         }
 
@@ -695,9 +696,16 @@ void KdbxFile::WriteEntry(pugi::xml_node& entry_node,
       }
     }
 
-    if (!found_in_pool) {
-      bin_node.append_child("Value").text().set(base64_encode(
-          attachment->binary()->data()).c_str());
+    if (!found_in_pool && attachment->binary()) {
+      pugi::xml_node val_node = bin_node.append_child("Value");
+      if (attachment->binary()->data().is_protected()) {
+        val_node.append_attribute("Protected").set_value("True");
+        val_node.text().set(base64_encode(obfuscator.Process(
+            *attachment->binary()->data())).c_str());
+      } else {
+        val_node.text().set(base64_encode(
+            *attachment->binary()->data()).c_str());
+      }
     }
   }
 
-- 
2.43.0


From 6008d8bea2ad29bcf4e05e8e3526a0a2c7712f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 10/32] fix: handle absent metadata, root groups and attachment
 data

A database imported from KDB has no metadata and an attachment may come
without data; exporting or printing those dereferenced a null pointer.
---
 src/entry.cc | 2 +-
 src/kdb.cc   | 5 ++++-
 src/kdbx.cc  | 6 +++++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/entry.cc b/src/entry.cc
index 3eed372..f5c4e9c 100644
--- a/src/entry.cc
+++ b/src/entry.cc
@@ -68,7 +68,7 @@ std::string Entry::Attachment::ToJson() const {
   json << "{";
   if (!name_.empty())
     json << "\"name\":\"" << name_ << "\"";
-  if (!binary_->Empty()) {
+  if (binary_ && !binary_->Empty()) {
     json << (name_.empty() ? "" : ",") << "\"data\":\"" <<
         *binary_->data() << "\"";
   }
diff --git a/src/kdb.cc b/src/kdb.cc
index b8c61f3..e7b8d52 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -459,7 +459,7 @@ void KdbFile::WriteEntry(std::ostream& dst,
       conserve<std::string>(dst, attachment->name());
     }
 
-    if (!attachment->binary()->Empty()) {
+    if (attachment->binary() && !attachment->binary()->Empty()) {
       conserve<uint16_t>(dst, static_cast<uint16_t>(
           KdbEntryFieldType::kAttachmentData));
       conserve<uint32_t>(dst, attachment->binary()->Size());
@@ -641,6 +641,9 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
 
 void KdbFile::Export(const std::string& path, const Database& db,
                      const Key& key) {
+  if (!db.root())
+    throw InternalError("Database has no root group.");
+
   // Extract database values in compatible formats.
   if (db.master_seed().size() != 16)
     throw InternalError("Master seed size is not supported by KDB.");
diff --git a/src/kdbx.cc b/src/kdbx.cc
index c15c644..7d3d1ad 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -906,7 +906,8 @@ void KdbxFile::WriteXml(std::ostream& dst, RandomObfuscator& obfuscator,
   pugi::xml_node group_node =
       kpf_node.append_child("Root").append_child("Group");
 
-  WriteMeta(meta_node, obfuscator, db.meta());
+  WriteMeta(meta_node, obfuscator,
+            db.meta() ? db.meta() : std::make_shared<Metadata>());
   WriteGroup(group_node, obfuscator, db.root());
 
   doc.save(dst);
@@ -1106,6 +1107,9 @@ void KdbxFile::Export(const std::string& path, const Database& db,
                       const Key& key) {
   Reset();
 
+  if (!db.root())
+    throw InternalError("Database has no root group.");
+
   std::ofstream dst(path, std::ios::out | std::ios::binary);
   if (!dst.is_open())
     throw IoError("Unable to open database for writing.");
-- 
2.43.0


From beea4897d125eecffa4febd85945fa06446ec576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 11/32] fix: compare the sizes of vectors before their elements

A vector compared equal to any longer one and comparing against a shorter
one read past its end.
---
 src/util.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.hh b/src/util.hh
index 7fb2c4f..1ddf471 100644
--- a/src/util.hh
+++ b/src/util.hh
@@ -51,7 +51,7 @@ inline T clamp(T min, T max, T val) {
 template <typename T>
 inline bool indirect_equal(const std::vector<T>& v0,
                            const std::vector<T>& v1) {
-  return std::equal(v0.begin(), v0.end(), v1.begin(),
+  return v0.size() == v1.size() && std::equal(v0.begin(), v0.end(), v1.begin(),
       [](const T& v0, const T& v1) {
         return *v0 == *v1;
       });
-- 
2.43.0


From 72ebd161695ee4f2c08096957a9463964e4c8791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 12/32] fix: keep the full auto type obfuscation value

---
 src/entry.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entry.hh b/src/entry.hh
index 938adba..1b8d9b1 100644
--- a/src/entry.hh
+++ b/src/entry.hh
@@ -87,7 +87,7 @@ class Entry final {
     void set_enabled(bool enabled) { enabled_ = enabled; }
 
     uint32_t obfuscation() const { return obfuscation_; }
-    void set_obfuscation(bool obfuscation) { obfuscation_ = obfuscation; }
+    void set_obfuscation(uint32_t obfuscation) { obfuscation_ = obfuscation; }
 
     const std::string& sequence() const { return sequence_; }
     void set_sequence(const std::string& sequence) { sequence_ = sequence; }
-- 
2.43.0


From ff88847f8a229a2300ec52d4f35cb7dfc7b9d78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 13/32] fix: initialize metadata times and identifiers

They kept indeterminate values when never set or when the file provides
fewer bytes than expected.
---
 src/kdbx.cc     | 4 ++--
 src/metadata.hh | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 7d3d1ad..b58a32b 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -127,7 +127,7 @@ std::shared_ptr<Group> KdbxFile::GetGroup(const std::string& uuid_str) {
   if (it != group_pool_.end())
     return it->second;
 
-  std::array<uint8_t, 16> uuid;
+  std::array<uint8_t, 16> uuid = { 0 };
   base64_decode(uuid_str, bounds_checked(uuid));
 
   std::shared_ptr<Group> group = std::make_shared<Group>();
@@ -263,7 +263,7 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
       if (data.empty())
         continue;
 
-      std::array<uint8_t, 16> uuid;
+      std::array<uint8_t, 16> uuid = { 0 };
       base64_decode(icon_node.child_value("UUID"), bounds_checked(uuid));
 
       std::shared_ptr<Icon> icon = std::make_shared<Icon>(uuid, data);
diff --git a/src/metadata.hh b/src/metadata.hh
index 5c8d0f0..778f8be 100644
--- a/src/metadata.hh
+++ b/src/metadata.hh
@@ -101,9 +101,9 @@ class Metadata final {
   int64_t master_key_change_force_ = -1;
   MemoryProtection memory_protection_;
   std::shared_ptr<Group> recycle_bin_;
-  std::time_t recycle_bin_changed_;
+  std::time_t recycle_bin_changed_ = 0;
   std::shared_ptr<Group> entry_templates_;
-  std::time_t entry_templates_changed_;
+  std::time_t entry_templates_changed_ = 0;
   int32_t history_max_items_ = -1;
   int64_t history_max_size_ = -1;
   std::weak_ptr<Group> last_selected_group_;
-- 
2.43.0


From 8a71924b2df4f7de8aba5884bde764ff6c6a24c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 14/32] fix: check that a hashed block header was read

A truncated stream made the header be used uninitialized.
---
 src/stream.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stream.cc b/src/stream.cc
index 23ca7c6..68d916f 100644
--- a/src/stream.cc
+++ b/src/stream.cc
@@ -44,6 +44,8 @@ int hashed_istreambuf::underflow() {
   if (gptr() == egptr()) {
     BlockHeader header;
     src_.read(reinterpret_cast<char*>(&header), sizeof(BlockHeader));
+    if (!src_.good())
+      throw IoError("Missing block header.");
 
     if (header.block_index != block_index_)
       throw IoError("Block index mismatch.");
-- 
2.43.0


From 3ecee657c64db54fffb4b37a9d2f3a9eed5ed598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 15/32] fix: only end a gzip stream where the compressed data
 ends

Input without immediate output was mistaken for the end of the stream, and
a truncated stream was accepted as complete.
---
 src/stream.cc | 12 +++++++-----
 src/stream.hh |  1 +
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/stream.cc b/src/stream.cc
index 68d916f..b4ae0ab 100644
--- a/src/stream.cc
+++ b/src/stream.cc
@@ -143,19 +143,20 @@ gzip_istreambuf::~gzip_istreambuf() {
 }
 
 int gzip_istreambuf::underflow() {
-  if (gptr() == egptr()) {
+  // The decompressor may consume input without producing any output.
+  while (gptr() == egptr()) {
+    if (end_of_stream_)
+      return std::char_traits<char>::eof();
+
     // Check if we need to feed the z-stream more input data.
     if (z_stream_.avail_in == 0) {
-      if (!src_.good())
-        return std::char_traits<char>::eof();
-
       src_.read(input_.data(), input_.size());
 
       z_stream_.avail_in = src_.gcount();
       z_stream_.next_in = reinterpret_cast<uint8_t*>(input_.data());
 
       if (z_stream_.avail_in < 1)
-        return std::char_traits<char>::eof();
+        throw IoError("Unexpected end of gzip stream.");
     }
 
     z_stream_.avail_out = output_.size();
@@ -166,6 +167,7 @@ int gzip_istreambuf::underflow() {
     if (res < 0) {
       throw IoError(Format() << "Gzip inflation error (" << res << ").");
     }
+    end_of_stream_ = res == Z_STREAM_END;
 
     std::size_t output_bytes = output_.size() - z_stream_.avail_out;
     setg(output_.data(), output_.data(), output_.data() + output_bytes);
diff --git a/src/stream.hh b/src/stream.hh
index 86496df..ab9543b 100644
--- a/src/stream.hh
+++ b/src/stream.hh
@@ -151,6 +151,7 @@ class gzip_istreambuf final :
 
   std::istream& src_;
   z_stream z_stream_;
+  bool end_of_stream_ = false;
 
   /** Input buffer for feeding the decompressor. */
   std::array<char, kBufferSize> input_ = { { 0 } };
-- 
2.43.0


From 7863342bb0b7a211684727f622db0eef5553585c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 16/32] fix: accept a gzip output chunk that exactly fills the
 buffer

The compressor is then called again without anything left to do and reports
Z_BUF_ERROR, which zlib documents as not fatal.
---
 src/stream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stream.cc b/src/stream.cc
index b4ae0ab..d8c22fe 100644
--- a/src/stream.cc
+++ b/src/stream.cc
@@ -211,7 +211,7 @@ bool gzip_ostreambuf::WriteOutput(bool flush) {
 
     int res = deflate(&z_stream_, flush ? Z_FINISH : Z_NO_FLUSH);
     assert(res != Z_STREAM_ERROR);
-    if (res < 0)
+    if (res < 0 && res != Z_BUF_ERROR)
       return false;
 
     std::size_t output_bytes = out.size() - z_stream_.avail_out;
-- 
2.43.0


From 1eec72bb1111bad393dc6e272293f7a89ade4277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 17/32] fix: reject zero length CBC padding

---
 src/cipher.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cipher.cc b/src/cipher.cc
index ee0f8bc..3b72ce5 100644
--- a/src/cipher.cc
+++ b/src/cipher.cc
@@ -192,7 +192,7 @@ void decrypt_cbc(std::istream& src, std::ostream& dst, const Cipher<16>& cipher)
     if (last) {
       // Handle PKCS #7 padding for the last block.
       uint32_t pad_len = dst[15];
-      if (pad_len > 16)
+      if (pad_len < 1 || pad_len > 16)
         throw IoError("Decryption error.");
 
       for (std::size_t i = 16 - pad_len; i < 16; ++i) {
-- 
2.43.0


From 204b07606e165ba86d681040410dac7675279b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 18/32] fix: reject unknown KDBX compression method 2

---
 src/kdbx.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index b58a32b..830a308 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -974,7 +974,7 @@ std::unique_ptr<Database> KdbxFile::Import(const std::string& path,
         break;
       case KdbxHeaderField::kCompressionFlags: {
         uint32_t comp_flags = consume<uint32_t>(field);
-        if (comp_flags > static_cast<uint32_t>(kKdbxCompressionFlags::kCount))
+        if (comp_flags >= static_cast<uint32_t>(kKdbxCompressionFlags::kCount))
           throw FormatError("Unknown compression method in KDBX.");
         db->set_compress(comp_flags ==
             static_cast<uint32_t>(kKdbxCompressionFlags::kGzip));
-- 
2.43.0


From 65f22a44deb7d4e239565837992d7371434e4ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 19/32] fix: do not touch the export destination before the
 content is ready

A database that cannot be exported used to truncate an existing file first.
---
 src/kdb.cc  |  8 ++++----
 src/kdbx.cc | 18 +++++++++---------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index e7b8d52..57d058e 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -654,10 +654,6 @@ void KdbFile::Export(const std::string& path, const Database& db,
   if (db.transform_rounds() > std::numeric_limits<uint32_t>::max())
     throw InternalError("Transform round count exceeds KDB maximum.");
 
-  std::ofstream dst(path, std::ios::out | std::ios::binary);
-  if (!dst.is_open())
-    throw IoError("Unable to open database for writing.");
-
   // Produce the final key used for encrypting the contents.
   std::array<uint8_t, 32> transformed_key = key.Transform(
       db.transform_seed(), db.transform_rounds(),
@@ -752,6 +748,10 @@ void KdbFile::Export(const std::string& path, const Database& db,
   header.transform_seed = db.transform_seed();
   header.transform_rounds = db.transform_rounds();
 
+  std::ofstream dst(path, std::ios::out | std::ios::binary);
+  if (!dst.is_open())
+    throw IoError("Unable to open database for writing.");
+
   conserve<KdbHeader>(dst, header);
 
   // Encrypt the content.
diff --git a/src/kdbx.cc b/src/kdbx.cc
index 830a308..4471555 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -1110,10 +1110,6 @@ void KdbxFile::Export(const std::string& path, const Database& db,
   if (!db.root())
     throw InternalError("Database has no root group.");
 
-  std::ofstream dst(path, std::ios::out | std::ios::binary);
-  if (!dst.is_open())
-    throw IoError("Unable to open database for writing.");
-
   // Produce the final key used for encrypting the contents.
   std::array<uint8_t, 32> transformed_key = key.Transform(
       db.transform_seed(), db.transform_rounds(),
@@ -1193,11 +1189,6 @@ void KdbxFile::Export(const std::string& path, const Database& db,
   SHA256_Update(&sha256, header_data.c_str(), header_data.size());
   SHA256_Final(header_hash_.data(), &sha256);
 
-  // Write header to file.
-  std::copy(std::istreambuf_iterator<char>(header_stream),
-            std::istreambuf_iterator<char>(),
-            std::ostreambuf_iterator<char>(dst));
-
   // Prepare deobfuscation stream.
   std::array<uint8_t, 32> final_inner_random_stream_key;
   SHA256_Init(&sha256);
@@ -1227,6 +1218,15 @@ void KdbxFile::Export(const std::string& path, const Database& db,
 
   hashed_stream.flush();
 
+  std::ofstream dst(path, std::ios::out | std::ios::binary);
+  if (!dst.is_open())
+    throw IoError("Unable to open database for writing.");
+
+  // Write header to file.
+  std::copy(std::istreambuf_iterator<char>(header_stream),
+            std::istreambuf_iterator<char>(),
+            std::ostreambuf_iterator<char>(dst));
+
   // Encrypt content.
   encrypt_cbc(content_stream, dst, *cipher);
 }
-- 
2.43.0


From 9e742770dd4fdc3cba0324bf3a33e8ea374ce8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 20/32] fix: report write errors when exporting

Exporting to a full device succeeded silently.
---
 src/io.hh   |  2 ++
 src/kdb.cc  |  4 ++++
 src/kdbx.cc | 10 ++++++++++
 3 files changed, 16 insertions(+)

diff --git a/src/io.hh b/src/io.hh
index 103fa95..474ec70 100644
--- a/src/io.hh
+++ b/src/io.hh
@@ -49,6 +49,8 @@ std::vector<uint8_t> consume<std::vector<uint8_t>>(std::istream& src);
 template<typename T>
 void conserve(std::ostream& dst, const T& val) {
   dst.write(reinterpret_cast<const char*>(&val), sizeof(T));
+  if (!dst.good())
+    throw IoError("Write error.");
 }
 
 template <>
diff --git a/src/kdb.cc b/src/kdb.cc
index 57d058e..966c6d1 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -756,6 +756,10 @@ void KdbFile::Export(const std::string& path, const Database& db,
 
   // Encrypt the content.
   encrypt_cbc(content, dst, *cipher);
+
+  dst.close();
+  if (!dst.good())
+    throw IoError("Write error.");
 }
 
 }   // namespace keepass
diff --git a/src/kdbx.cc b/src/kdbx.cc
index 4471555..1eaa8a1 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -431,6 +431,8 @@ void KdbxFile::WriteMeta(pugi::xml_node& meta_node,
         std::copy(binary->data()->begin(), binary->data()->end(),
                   std::ostreambuf_iterator<char>(gzip_stream));
         gzip_stream.flush();
+        if (!gzip_stream.good())
+          throw IoError("Write error.");
 
         bin_node.text().set(base64_encode(
               std::istreambuf_iterator<char>(compressed_data), 
@@ -1212,11 +1214,15 @@ void KdbxFile::Export(const std::string& path, const Database& db,
 
     WriteXml(gzip_stream, obfuscator, db);
     gzip_stream.flush();
+    if (!gzip_stream.good())
+      throw IoError("Write error.");
   } else {
     WriteXml(hashed_stream, obfuscator, db);
   }
 
   hashed_stream.flush();
+  if (!hashed_stream.good())
+    throw IoError("Write error.");
 
   std::ofstream dst(path, std::ios::out | std::ios::binary);
   if (!dst.is_open())
@@ -1229,6 +1235,10 @@ void KdbxFile::Export(const std::string& path, const Database& db,
 
   // Encrypt content.
   encrypt_cbc(content_stream, dst, *cipher);
+
+  dst.close();
+  if (!dst.good())
+    throw IoError("Write error.");
 }
 
 }   // namespace keepass
-- 
2.43.0


From 955f14c31a2c2a6d1063a730aa9f3fa16a2a3fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 21/32] fix: refer to the imported groups from the KDBX
 metadata

The recycle bin and the entry template group were resolved before any group
had been parsed, so they always were placeholders outside of the group tree.
---
 src/kdbx.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 1eaa8a1..f0c2b6b 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -233,15 +233,9 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
   meta->memory_protection().set_notes(
       mp_node.child("ProtectNotes").text().as_bool());
 
-  if (meta_node.child("RecycleBinEnabled").text().as_bool(true))
-    meta->set_recycle_bin(GetGroup(meta_node.child_value("RecycleBinUUID")));
-  else
-    meta->set_recycle_bin(std::shared_ptr<Group>());
   meta->set_recycle_bin_changed(ParseDateTime(
       meta_node.child_value("RecycleBinChanged")));
 
-  meta->set_entry_templates(GetGroup(
-      meta_node.child_value("EntryTemplatesGroup")));
   meta->set_entry_templates_changed(ParseDateTime(
       meta_node.child_value("EntryTemplatesGroupChanged")));
 
@@ -250,7 +244,8 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
   meta->set_history_max_size(
       meta_node.child("HistoryMaxSize").text().as_llong(-1));
 
-  // Note that we're not parsing "LastSelectedGroup" and "LastTopVisibleGroup"
+  // Note that we're not parsing the references to groups ("RecycleBinUUID",
+  // "EntryTemplatesGroup", "LastSelectedGroup" and "LastTopVisibleGroup")
   // here. They will be parsed later by ParseXml(). The reason is that we need
   // to parse all groups first.
 
@@ -864,6 +859,14 @@ void KdbxFile::ParseXml(std::istream& src,
   // When first parsing the meta data we haven't yet parsed all groups so we
   // have to wait until every group is parsed before parsing the final parts of
   // the meta data.
+  if (meta_node.child("RecycleBinEnabled").text().as_bool(true))
+    meta->set_recycle_bin(GetGroup(meta_node.child_value("RecycleBinUUID")));
+  else
+    meta->set_recycle_bin(std::shared_ptr<Group>());
+
+  meta->set_entry_templates(GetGroup(
+      meta_node.child_value("EntryTemplatesGroup")));
+
   auto it = group_pool_.find(meta_node.child_value("LastSelectedGroup"));
   if (it != group_pool_.end()) {
     meta->set_last_selected_group(it->second);
-- 
2.43.0


From 42eeea867c91dbc8cb66049b941c668be328cdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 22/32] fix: report oversized KDBX identifiers as a format
 error

The bounds checking iterator used for decoding them throws
std::out_of_range, which is not a library error.
---
 src/kdbx.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index f0c2b6b..1ab50a1 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -1092,13 +1092,17 @@ std::unique_ptr<Database> KdbxFile::Import(const std::string& path,
   hashed_istreambuf hashed_streambuf(content);
   std::istream hashed_stream(&hashed_streambuf);
 
-  if (db->compress()) {
-    gzip_istreambuf gzip_streambuf(hashed_stream);
-    std::istream gzip_stream(&gzip_streambuf);
+  try {
+    if (db->compress()) {
+      gzip_istreambuf gzip_streambuf(hashed_stream);
+      std::istream gzip_stream(&gzip_streambuf);
 
-    ParseXml(gzip_stream, obfuscator, *db.get());
-  } else {
-    ParseXml(hashed_stream, obfuscator, *db.get());
+      ParseXml(gzip_stream, obfuscator, *db.get());
+    } else {
+      ParseXml(hashed_stream, obfuscator, *db.get());
+    }
+  } catch (std::out_of_range& e) {
+    throw FormatError("Oversized identifier or hash in KDBX.");
   }
 
   // Validate header hash.
-- 
2.43.0


From 70504bbc5e659c313bc8c46b78da52a4c285c2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 23/32] fix: leave the key untouched when a text key file is
 rejected

Also classify the characters as unsigned, which is required for bytes above
127.
---
 src/key.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/key.cc b/src/key.cc
index 0287861..a3f3ff9 100644
--- a/src/key.cc
+++ b/src/key.cc
@@ -107,15 +107,19 @@ void Key::SetKeyFile(const std::string& path) {
   if (data.size() != 64)
     throw FormatError("Unknown key file format.");
 
-  for (std::size_t i = 0; i < key_.keyfile_key_.size(); ++i) {
+  std::array<uint8_t, 32> key;
+  for (std::size_t i = 0; i < key.size(); ++i) {
     char c[2] = { data[i * 2], data[i * 2 + 1] };
 
-    if (!std::isxdigit(c[0]) || !std::isxdigit(c[1]))
+    if (!std::isxdigit(static_cast<unsigned char>(c[0])) ||
+        !std::isxdigit(static_cast<unsigned char>(c[1])))
       throw FormatError("Unknown key file format.");
 
     uint8_t v = std::stoi(std::string(c, 2), 0, 16);
-    key_.keyfile_key_[i] = v;
+    key[i] = v;
   }
+
+  key_.keyfile_key_ = key;
 }
 
 std::array<uint8_t, 32> Key::Transform(const std::array<uint8_t, 32>& seed,
-- 
2.43.0


From e288f015d2c56dc77b6f5de1e8d385144189c8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 24/32] fix: use the reentrant time conversions and check their
 result

Imports and exports running in different threads shared the buffer of the C
library, and times out of range dereferenced a null pointer.
---
 src/kdb.cc  | 5 ++++-
 src/kdbx.cc | 7 +++++--
 src/util.cc | 7 ++++---
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 966c6d1..5357364 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -79,7 +79,10 @@ struct KdbTime {
     if (time == 0 || time == -1) {
       packed = kNeverTimeConstant;
     } else {
-      std::tm* time_ptr = std::localtime(&time);
+      std::tm time_buf;
+      std::tm* time_ptr = localtime_r(&time, &time_buf);
+      if (time_ptr == nullptr)
+        throw InternalError("Time exceeds KDB range.");
 
       uint32_t year = time_ptr->tm_year + 1900;
       uint32_t month = time_ptr->tm_mon + 1;
diff --git a/src/kdbx.cc b/src/kdbx.cc
index 1ab50a1..e7c522e 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -155,9 +155,12 @@ std::string KdbxFile::WriteDateTime(std::time_t time) const {
   if (time == 0)
     return "2999-12-28T22:59:59Z";
 
+  std::tm tm;
+  if (gmtime_r(&time, &tm) == nullptr)
+    throw InternalError("Time exceeds KDBX range.");
+
   char buffer[128];
-  std::strftime(buffer, sizeof(buffer), "%Y-%m-%dT%H:%M:%SZ",
-                std::gmtime(&time));
+  std::strftime(buffer, sizeof(buffer), "%Y-%m-%dT%H:%M:%SZ", &tm);
   return buffer;
 }
 
diff --git a/src/util.cc b/src/util.cc
index 99e249f..8764ed3 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -24,11 +24,12 @@
 namespace keepass {
 
 std::string time_to_str(const std::time_t& time) {
-  const std::tm* local_time = std::localtime(&time);
-  assert(local_time != nullptr);
+  std::tm local_time;
+  if (localtime_r(&time, &local_time) == nullptr)
+    return std::string();
 
   char buffer[128];
-  strftime(buffer, sizeof(buffer), "%Y-%m-%d %H:%M:%S", local_time);
+  strftime(buffer, sizeof(buffer), "%Y-%m-%d %H:%M:%S", &local_time);
   return buffer;
 }
 
-- 
2.43.0


From 74934ae786079e5b3717f70d82eb68bffaef0936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 25/32] fix: escape strings in the JSON output

---
 src/entry.cc | 14 +++++++-------
 src/group.cc |  4 ++--
 src/util.cc  | 20 ++++++++++++++++++++
 src/util.hh  |  7 +++++++
 4 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/entry.cc b/src/entry.cc
index f5c4e9c..c290e9e 100644
--- a/src/entry.cc
+++ b/src/entry.cc
@@ -67,10 +67,10 @@ std::string Entry::Attachment::ToJson() const {
 
   json << "{";
   if (!name_.empty())
-    json << "\"name\":\"" << name_ << "\"";
+    json << "\"name\":\"" << json_escape(name_) << "\"";
   if (binary_ && !binary_->Empty()) {
     json << (name_.empty() ? "" : ",") << "\"data\":\"" <<
-        *binary_->data() << "\"";
+        json_escape(*binary_->data()) << "\"";
   }
   json << "}";
 
@@ -83,15 +83,15 @@ std::string Entry::ToJson() const {
   json << "{";
   json << "\"icon\":" << icon_;
   if (!title_->empty())
-    json << ",\"title\":\"" << *title_ << "\"";
+    json << ",\"title\":\"" << json_escape(*title_) << "\"";
   if (!url_->empty())
-    json << ",\"url\":\"" << *url_ << "\"";
+    json << ",\"url\":\"" << json_escape(*url_) << "\"";
   if (!username_->empty())
-    json << ",\"username\":\"" << *username_ << "\"";
+    json << ",\"username\":\"" << json_escape(*username_) << "\"";
   if (!password_->empty())
-    json << ",\"password\":\"" << *password_ << "\"";
+    json << ",\"password\":\"" << json_escape(*password_) << "\"";
   if (!notes_->empty())
-    json << ",\"notes\":\"" << *notes_ << "\"";
+    json << ",\"notes\":\"" << json_escape(*notes_) << "\"";
   if (creation_time_ != 0)
     json << ",\"creation_time\":\"" << time_to_str(creation_time_) << "\"";
   if (modification_time_ != 0) {
diff --git a/src/group.cc b/src/group.cc
index fbf811f..8ac8976 100644
--- a/src/group.cc
+++ b/src/group.cc
@@ -59,9 +59,9 @@ std::string Group::ToJson() const {
   if (custom_icon_.lock())
     json << ",\"custom_icon\":\"" << true << "\"";
   if (!name_.empty())
-    json << ",\"name\":\"" << name_ << "\"";
+    json << ",\"name\":\"" << json_escape(name_) << "\"";
   if (!notes_.empty())
-    json << ",\"notes\":\"" << notes_ << "\"";
+    json << ",\"notes\":\"" << json_escape(notes_) << "\"";
   if (creation_time_ != 0)
     json << ",\"creation_time\":\"" << time_to_str(creation_time_) << "\"";
   if (modification_time_ != 0) {
diff --git a/src/util.cc b/src/util.cc
index 8764ed3..cc70ddc 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -33,6 +33,26 @@ std::string time_to_str(const std::time_t& time) {
   return buffer;
 }
 
+std::string json_escape(const std::string& str) {
+  static const char* kHex = "0123456789abcdef";
+
+  std::string dst;
+  for (char c : str) {
+    if (c == '"' || c == '\\') {
+      dst.push_back('\\');
+      dst.push_back(c);
+    } else if (static_cast<unsigned char>(c) < 0x20) {
+      dst.append("\\u00");
+      dst.push_back(kHex[(c >> 4) & 0xf]);
+      dst.push_back(kHex[c & 0xf]);
+    } else {
+      dst.push_back(c);
+    }
+  }
+
+  return dst;
+}
+
 std::array<uint8_t, 16> generate_uuid() {
   std::random_device rd;
   std::mt19937 engine(rd());
diff --git a/src/util.hh b/src/util.hh
index 1ddf471..79a820b 100644
--- a/src/util.hh
+++ b/src/util.hh
@@ -101,6 +101,13 @@ inline void dfs(const std::shared_ptr<T>& current,
  */
 std::string time_to_str(const std::time_t& time);
 
+/**
+ * Escapes a string for use inside of a JSON string literal.
+ * @param [in] str String to escape.
+ * @return @a str with quotes, backslashes and control characters escaped.
+ */
+std::string json_escape(const std::string& str);
+
 std::array<uint8_t, 16> generate_uuid();
 
 }   // namespace keepass
-- 
2.43.0


From dc5b5cdfa653d256ea82ba1bc358add1e7fbef3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 26/32] fix: reject misplaced base64 padding

---
 src/base64.hh | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/base64.hh b/src/base64.hh
index 4bf2e0a..bebe5d8 100644
--- a/src/base64.hh
+++ b/src/base64.hh
@@ -83,6 +83,13 @@ void base64_decode(const std::string& src, OutputIterator result) {
 
   for (char c : src_trimmed) {
     if (c == '=') {
+      // Padding is only legal in place of the last one or two characters.
+      std::size_t pos = src_trimmed.find('=');
+      if (i < 2 || src_trimmed.size() - pos != 4 - i ||
+          src_trimmed.find_first_not_of('=', pos) != std::string::npos) {
+        throw FormatError("Illegal padding in base64 stream.");
+      }
+
       *result = bits24 >> 16;
       ++result;
       if (i > 2) {
-- 
2.43.0


From ee77b1096df4c3343bcc3035229454202a860fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:37 +0000
Subject: [PATCH 27/32] fix: leave a KDBX group without last visible entry
 without one

When the document did not name one, the identifier of the group itself was
looked for, so an entry with the same identifier became the last visible entry.
---
 src/kdbx.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index e7c522e..d394ccf 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -762,8 +762,10 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
   group->set_autotype(group_node.child("EnableAutoType").text().as_bool());
   group->set_search(group_node.child("EnableSearching").text().as_bool());
 
-  base64_decode(group_node.child_value("LastTopVisibleEntry"),
-                bounds_checked(uuid));
+  std::string last_visible_entry_str =
+      group_node.child_value("LastTopVisibleEntry");
+  std::array<uint8_t, 16> last_visible_entry_uuid = { 0 };
+  base64_decode(last_visible_entry_str, bounds_checked(last_visible_entry_uuid));
 
   for (pugi::xml_node entry_node = group_node.child("Entry"); entry_node;
       entry_node = entry_node.next_sibling("Entry")) {
@@ -771,7 +773,8 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
     std::shared_ptr<Entry> entry = ParseEntry(entry_node, entry_uuid, obfuscator);
     group->AddEntry(entry);
 
-    if (entry_uuid == uuid) {
+    if (!last_visible_entry_str.empty() &&
+        entry_uuid == last_visible_entry_uuid) {
       group->set_last_visible_entry(entry);
     }
   }
-- 
2.43.0


From a380230eacbad618070d955ca2ce8d832d5ffd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:53 +0000
Subject: [PATCH 28/32] fix: refuse to export times the KDB format cannot hold

---
 src/kdb.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 5357364..a8b70e9 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -81,7 +81,9 @@ struct KdbTime {
     } else {
       std::tm time_buf;
       std::tm* time_ptr = localtime_r(&time, &time_buf);
-      if (time_ptr == nullptr)
+      // The packed format holds 12 bits of year, and no year before 1900.
+      if (time_ptr == nullptr || time_ptr->tm_year < 0 ||
+          time_ptr->tm_year > 4095 - 1900)
         throw InternalError("Time exceeds KDB range.");
 
       uint32_t year = time_ptr->tm_year + 1900;
-- 
2.43.0


From b4ebeceebf74948a71e836ebb6cb603fe4eaf62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:52 +0000
Subject: [PATCH 29/32] fix: refuse to export KDB fields whose size does not
 fit

Names, texts and attachments of 4 GiB and more were stored with a truncated
size, making the exported file unreadable.
---
 src/kdb.cc | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index a8b70e9..a371b0d 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -179,6 +179,12 @@ enum class KdbEntryFieldType : uint16_t {
   kEnd = 0xffff
 };
 
+static void WriteFieldSize(std::ostream& dst, std::size_t size) {
+  if (size > std::numeric_limits<uint32_t>::max())
+    throw InternalError("Field size exceeds KDB maximum.");
+  conserve<uint32_t>(dst, static_cast<uint32_t>(size));
+}
+
 std::shared_ptr<Group> KdbFile::ReadGroup(std::istream& src, uint32_t& id,
                                           uint16_t& level) const {
   std::shared_ptr<Group> group = std::make_shared<Group>();
@@ -250,7 +256,7 @@ void KdbFile::WriteGroup(std::ostream& dst, std::shared_ptr<Group> group,
   conserve<uint32_t>(dst, group_id);
 
   conserve<uint16_t>(dst, static_cast<uint16_t>(KdbGroupFieldType::kName));
-  conserve<uint32_t>(dst, group->name().size() + 1);
+  WriteFieldSize(dst, group->name().size() + 1);
   conserve<std::string>(dst, group->name());
 
   KdbTime creation_time(group->creation_time());
@@ -410,23 +416,23 @@ void KdbFile::WriteEntry(std::ostream& dst,
   conserve<uint32_t>(dst, entry->icon());
 
   conserve<uint16_t>(dst, static_cast<uint16_t>(KdbEntryFieldType::kTitle));
-  conserve<uint32_t>(dst, entry->title()->size() + 1);
+  WriteFieldSize(dst, entry->title()->size() + 1);
   conserve<std::string>(dst, entry->title());
 
   conserve<uint16_t>(dst, static_cast<uint16_t>(KdbEntryFieldType::kUrl));
-  conserve<uint32_t>(dst, entry->url()->size() + 1);
+  WriteFieldSize(dst, entry->url()->size() + 1);
   conserve<std::string>(dst, entry->url());
 
   conserve<uint16_t>(dst, static_cast<uint16_t>(KdbEntryFieldType::kUsername));
-  conserve<uint32_t>(dst, entry->username()->size() + 1);
+  WriteFieldSize(dst, entry->username()->size() + 1);
   conserve<std::string>(dst, entry->username());
 
   conserve<uint16_t>(dst, static_cast<uint16_t>(KdbEntryFieldType::kPassword));
-  conserve<uint32_t>(dst, entry->password()->size() + 1);
+  WriteFieldSize(dst, entry->password()->size() + 1);
   conserve<std::string>(dst, entry->password());
 
   conserve<uint16_t>(dst, static_cast<uint16_t>(KdbEntryFieldType::kNotes));
-  conserve<uint32_t>(dst, entry->notes()->size() + 1);
+  WriteFieldSize(dst, entry->notes()->size() + 1);
   conserve<std::string>(dst, entry->notes());
 
   KdbTime creation_time(entry->creation_time());
@@ -460,14 +466,14 @@ void KdbFile::WriteEntry(std::ostream& dst,
     if (!attachment->name().empty()) {
       conserve<uint16_t>(dst, static_cast<uint16_t>(
           KdbEntryFieldType::kAttachmentName));
-      conserve<uint32_t>(dst, attachment->name().size() + 1);
+      WriteFieldSize(dst, attachment->name().size() + 1);
       conserve<std::string>(dst, attachment->name());
     }
 
     if (attachment->binary() && !attachment->binary()->Empty()) {
       conserve<uint16_t>(dst, static_cast<uint16_t>(
           KdbEntryFieldType::kAttachmentData));
-      conserve<uint32_t>(dst, attachment->binary()->Size());
+      WriteFieldSize(dst, attachment->binary()->Size());
 
       std::vector<char> data;
       data.resize(attachment->binary()->Size());
-- 
2.43.0


From bee478484b268a1a0219ba4a76835981491c6dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:59 +0000
Subject: [PATCH 30/32] fix: KDBX export wrote times with years the import
 cannot read back

A year above 9999 or below 0 was written but read back as no time.
---
 src/kdbx.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index d394ccf..45ff621 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -156,8 +156,11 @@ std::string KdbxFile::WriteDateTime(std::time_t time) const {
     return "2999-12-28T22:59:59Z";
 
   std::tm tm;
-  if (gmtime_r(&time, &tm) == nullptr)
+  // The format holds years of up to four digits.
+  if (gmtime_r(&time, &tm) == nullptr || tm.tm_year < -1900 ||
+      tm.tm_year > 9999 - 1900) {
     throw InternalError("Time exceeds KDBX range.");
+  }
 
   char buffer[128];
   std::strftime(buffer, sizeof(buffer), "%Y-%m-%dT%H:%M:%SZ", &tm);
-- 
2.43.0


From 6b1d3370a371289fa707fb29823b53f162e21391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:18 +0000
Subject: [PATCH 31/32] fix: bound the nesting of groups in KDB files

---
 src/kdb.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index a371b0d..fe5314a 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -44,6 +44,9 @@ const uint32_t kKdbFlagRijndael = 0x00000002;
 //const uint32_t kKdbFlagArcFour = 0x00000004;
 const uint32_t kKdbFlagTwofish = 0x00000008;
 
+// Bounds the recursion over nested groups.
+const uint16_t kKdbMaxGroupLevel = 1024;
+
 #pragma pack(push, 1)
 struct KdbHeader {
   uint32_t signature0;
@@ -620,6 +623,9 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
     // level zero.
     std::size_t group_level = std::size_t(std::get<1>(group_data)) + 1;
 
+    if (group_level > kKdbMaxGroupLevel + 1)
+      throw FormatError("Groups are nested too deeply in KDB.");
+
     if (group_level > last_group_level) {
       if (group_level != last_group_level + 1)
         throw FormatError("Malformed group tree.");
@@ -698,7 +704,7 @@ void KdbFile::Export(const std::string& path, const Database& db,
   dfs<Group, &Group::Groups>(db.root(),
                              [&](const std::shared_ptr<Group>& group,
                                  std::size_t level) {
-    if (level > std::numeric_limits<uint16_t>::max()) {
+    if (level > kKdbMaxGroupLevel) {
       throw InternalError("Group hierarchy exceeds KDB maximum.");
     }
 
-- 
2.43.0


From d90cdc779141da03d558cb2a3ad641e38ed896ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:18 +0000
Subject: [PATCH 32/32] fix: bound the nesting of groups and histories in KDBX
 files

---
 src/kdbx.cc | 46 ++++++++++++++++++++++++++++++++++------------
 src/kdbx.hh | 13 +++++++++----
 2 files changed, 43 insertions(+), 16 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 45ff621..0329732 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -45,6 +45,10 @@
 
 namespace keepass {
 
+// Bounds the recursion over nested groups and over histories within histories.
+constexpr std::size_t kKdbxMaxGroupDepth = 1024;
+constexpr std::size_t kKdbxMaxHistoryDepth = 32;
+
 constexpr uint32_t kKdbxSignature0 = 0x9aa2d903;
 constexpr uint32_t kKdbxSignature1 = 0xb54bfb67;
 constexpr uint32_t kKdbxVersionCriticalMask = 0xffff0000;
@@ -459,7 +463,11 @@ void KdbxFile::WriteMeta(pugi::xml_node& meta_node,
 std::shared_ptr<Entry> KdbxFile::ParseEntry(
     const pugi::xml_node& entry_node,
     std::array<uint8_t, 16>& entry_uuid,
-    RandomObfuscator& obfuscator) {
+    RandomObfuscator& obfuscator,
+    std::size_t depth) {
+  if (depth > kKdbxMaxHistoryDepth)
+    throw FormatError("Entry histories are nested too deeply in KDBX.");
+
   std::shared_ptr<Entry> entry = std::make_shared<Entry>();
 
   base64_decode(entry_node.child_value("UUID"), bounds_checked(entry_uuid));
@@ -597,7 +605,8 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
       std::array<uint8_t, 16> subentry_uuid = { 0 };
       entry->AddHistoryEntry(ParseEntry(subentry_node,
                                         subentry_uuid,
-                                        obfuscator));
+                                        obfuscator,
+                                        depth + 1));
     }
   }
 
@@ -606,7 +615,11 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
 
 void KdbxFile::WriteEntry(pugi::xml_node& entry_node,
                           RandomObfuscator& obfuscator,
-                          std::shared_ptr<Entry> entry) {
+                          std::shared_ptr<Entry> entry,
+                          std::size_t depth) {
+  if (depth > kKdbxMaxHistoryDepth)
+    throw InternalError("Entry histories are nested too deeply for KDBX.");
+
   entry_node.append_child("UUID").text().set(base64_encode(
       entry->uuid().begin(), entry->uuid().end()).c_str());
   entry_node.append_child("IconID").text().set(entry->icon());
@@ -716,13 +729,17 @@ void KdbxFile::WriteEntry(pugi::xml_node& entry_node,
   pugi::xml_node history_node = entry_node.append_child("History");
   for (auto histentry : entry->history()) {
     pugi::xml_node histentry_node = history_node.append_child("Entry");
-    WriteEntry(histentry_node, obfuscator, histentry);
+    WriteEntry(histentry_node, obfuscator, histentry, depth + 1);
   }
 }
 
 std::shared_ptr<Group> KdbxFile::ParseGroup(
     const pugi::xml_node& group_node,
-    RandomObfuscator& obfuscator) {
+    RandomObfuscator& obfuscator,
+    std::size_t depth) {
+  if (depth > kKdbxMaxGroupDepth)
+    throw FormatError("Groups are nested too deeply in KDBX.");
+
   std::shared_ptr<Group> group = std::make_shared<Group>();
   group_pool_.insert(std::make_pair(group_node.child_value("UUID"), group));
 
@@ -773,7 +790,8 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
   for (pugi::xml_node entry_node = group_node.child("Entry"); entry_node;
       entry_node = entry_node.next_sibling("Entry")) {
     std::array<uint8_t, 16> entry_uuid = { 0 };
-    std::shared_ptr<Entry> entry = ParseEntry(entry_node, entry_uuid, obfuscator);
+    std::shared_ptr<Entry> entry = ParseEntry(entry_node, entry_uuid, obfuscator,
+                                              0);
     group->AddEntry(entry);
 
     if (!last_visible_entry_str.empty() &&
@@ -784,7 +802,7 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
 
   for (pugi::xml_node subgroup_node = group_node.child("Group"); subgroup_node;
       subgroup_node = subgroup_node.next_sibling("Group")) {
-    group->AddGroup(ParseGroup(subgroup_node, obfuscator));
+    group->AddGroup(ParseGroup(subgroup_node, obfuscator, depth + 1));
   }
 
   return group;
@@ -792,7 +810,11 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
 
 void KdbxFile::WriteGroup(pugi::xml_node& group_node,
                           RandomObfuscator& obfuscator,
-                          std::shared_ptr<Group> group) {
+                          std::shared_ptr<Group> group,
+                          std::size_t depth) {
+  if (depth > kKdbxMaxGroupDepth)
+    throw InternalError("Groups are nested too deeply for KDBX.");
+
   group_node.append_child("UUID").text().set(base64_encode(
       group->uuid().begin(), group->uuid().end()).c_str());
   group_node.append_child("Name").text().set(group->name().c_str());
@@ -831,12 +853,12 @@ void KdbxFile::WriteGroup(pugi::xml_node& group_node,
 
   for (auto entry : group->Entries()) {
     pugi::xml_node entry_node = group_node.append_child("Entry");
-    WriteEntry(entry_node, obfuscator, entry);
+    WriteEntry(entry_node, obfuscator, entry, 0);
   }
 
   for (auto subgroup : group->Groups()) {
     pugi::xml_node subgroup_node = group_node.append_child("Group");
-    WriteGroup(subgroup_node, obfuscator, subgroup);
+    WriteGroup(subgroup_node, obfuscator, subgroup, depth + 1);
   }
 }
 
@@ -860,7 +882,7 @@ void KdbxFile::ParseXml(std::istream& src,
     throw FormatError("No \"Root\" or \"Group\" element in KDBX XML.");
 
   std::shared_ptr<Metadata> meta = ParseMeta(meta_node, obfuscator);
-  std::shared_ptr<Group> root = ParseGroup(group_node, obfuscator);
+  std::shared_ptr<Group> root = ParseGroup(group_node, obfuscator, 0);
 
   db.set_meta(meta);
   db.set_root(root);
@@ -922,7 +944,7 @@ void KdbxFile::WriteXml(std::ostream& dst, RandomObfuscator& obfuscator,
 
   WriteMeta(meta_node, obfuscator,
             db.meta() ? db.meta() : std::make_shared<Metadata>());
-  WriteGroup(group_node, obfuscator, db.root());
+  WriteGroup(group_node, obfuscator, db.root(), 0);
 
   doc.save(dst);
 }
diff --git a/src/kdbx.hh b/src/kdbx.hh
index 4d8ebbd..7c81afd 100644
--- a/src/kdbx.hh
+++ b/src/kdbx.hh
@@ -83,20 +83,25 @@ class KdbxFile final {
    * @param [in] entry_node Entry XML node.
    * @param [out] entry_uuid Entry UUID.
    * @param [in] obfuscator Random stream obfuscator.
+   * @param [in] depth Number of histories the entry is nested in.
    * @return Pointer to entry object.
    */
   std::shared_ptr<Entry> ParseEntry(const pugi::xml_node& entry_node,
                                     std::array<uint8_t, 16>& entry_uuid,
-                                    RandomObfuscator& obfuscator);
+                                    RandomObfuscator& obfuscator,
+                                    std::size_t depth);
   void WriteEntry(pugi::xml_node& entry_node,
                   RandomObfuscator& obfuscator,
-                  std::shared_ptr<Entry> entry);
+                  std::shared_ptr<Entry> entry,
+                  std::size_t depth);
 
   std::shared_ptr<Group> ParseGroup(const pugi::xml_node& group_node,
-                                    RandomObfuscator& obfuscator);
+                                    RandomObfuscator& obfuscator,
+                                    std::size_t depth);
   void WriteGroup(pugi::xml_node& group_node,
                   RandomObfuscator& obfuscator,
-                  std::shared_ptr<Group> group);
+                  std::shared_ptr<Group> group,
+                  std::size_t depth);
 
   void ParseXml(std::istream& src, RandomObfuscator& obfuscator, Database& db);
 #ifdef DEBUG
-- 
2.43.0

