From 8ded46762b504b2101a06247d3b9ff894ffd4130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:06 +0000
Subject: [PATCH 01/22] fix: don't decode transparent data (5A/5B) from blocks
 that were not received

---
 src/groups.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/groups.cc b/src/groups.cc
index f4f93be..50fd040 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -808,6 +808,9 @@ void Station::decodeType5(const Group& group) {
   json_["transparent_data"]["address"] = address;
 
   if (group.getType().version == GroupType::Version::A) {
+    if (!(group.has(BLOCK3) && group.has(BLOCK4)))
+      return;
+
     const std::array<std::uint8_t, 4> data{
         getUint8(group.get(BLOCK3), 8), getUint8(group.get(BLOCK3), 0),
         getUint8(group.get(BLOCK4), 8), getUint8(group.get(BLOCK4), 0)};
@@ -835,6 +838,9 @@ void Station::decodeType5(const Group& group) {
 
     json_["transparent_data"]["as_text"] = decoded_text.str();
   } else {
+    if (!group.has(BLOCK4))
+      return;
+
     const std::array<std::uint8_t, 2> data{getUint8(group.get(BLOCK4), 8),
                                            getUint8(group.get(BLOCK4), 0)};
 
-- 
2.43.0


From 4152ee02f311a36ed50c0ef3dcecf4c364c3ff77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:06 +0000
Subject: [PATCH 02/22] fix: don't write Enhanced RadioText characters from a
 block 3 that was not received

---
 src/groups.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/groups.cc b/src/groups.cc
index 50fd040..b6a6277 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -1256,7 +1256,9 @@ void parseRadioTextPlus(const Group& group, RadioText& rt, nlohmann::ordered_jso
 void Station::parseEnhancedRT(const Group& group) {
   const std::size_t position = getBits<5>(group.get(BLOCK2), 0) * 4U;
 
-  ert_.update(position, getUint8(group.get(BLOCK3), 8), getUint8(group.get(BLOCK3), 0));
+  if (group.has(BLOCK3)) {
+    ert_.update(position, getUint8(group.get(BLOCK3), 8), getUint8(group.get(BLOCK3), 0));
+  }
 
   if (group.has(BLOCK4)) {
     ert_.update(position + 2U, getUint8(group.get(BLOCK4), 8), getUint8(group.get(BLOCK4), 0));
-- 
2.43.0


From 488d93b4b18dc06c8c974ccafa0a488fc0ad2da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:21 +0000
Subject: [PATCH 03/22] fix: don't report a DAB frequency or ensemble from
 blocks that were not received

---
 src/groups.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/groups.cc b/src/groups.cc
index b6a6277..721d9be 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -1284,6 +1284,9 @@ void Station::parseDAB(const Group& group) {
     const std::array<std::string, 4> modes{"unspecified", "I", "II or III", "IV"};
     json_["dab"]["mode"] = modes[mode];
 
+    if (!(group.has(BLOCK3) && group.has(BLOCK4)))
+      return;
+
     const std::uint32_t freq = 16 * getBits<18>(group.get(BLOCK2), group.get(BLOCK3), 0);
 
     json_["dab"]["kilohertz"] = freq;
-- 
2.43.0


From 4fc7ff5687219a079de7da4e4abc28134ad10fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:21 +0000
Subject: [PATCH 04/22] fix: country code F of ECC 0xD1 is Nigeria (ng), not
 Bulgaria (bg)

---
 src/tables.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tables.cc b/src/tables.cc
index d3bd285..9621061 100644
--- a/src/tables.cc
+++ b/src/tables.cc
@@ -81,7 +81,7 @@ std::string getCountryString(std::uint16_t cc, std::uint16_t ecc) {
       {0xD0,
        {"cm", "cf", "dj", "mg", "ml", "ao", "gq", "ga", "gn", "za", "bf", "cg", "tg", "bj", "mw"}},
       {0xD1,
-       {"na", "lr", "gh", "mr", "st", "cv", "sn", "gm", "bi", "--", "bw", "km", "tz", "et", "bg"}},
+       {"na", "lr", "gh", "mr", "st", "cv", "sn", "gm", "bi", "--", "bw", "km", "tz", "et", "ng"}},
       {0xD2,
        {"sl", "zw", "mz", "ug", "sz", "ke", "so", "ne", "td", "gw", "zr", "ci", "tz", "zm", "--"}},
       {0xD3,
-- 
2.43.0


From 29ce139960f381a0f512589cf174ce49f1026e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:36 +0000
Subject: [PATCH 05/22] fix: keep multi-byte characters whole when cutting RT+
 tags out of RadioText

---
 src/text/rdsstring.hh | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/text/rdsstring.hh b/src/text/rdsstring.hh
index f10227d..1f70983 100644
--- a/src/text/rdsstring.hh
+++ b/src/text/rdsstring.hh
@@ -27,19 +27,17 @@ namespace redsea {
 // Length of a UTF-8 character starting at byte_start.
 // 0 on error.
 inline std::size_t charlen(const std::string& str, std::size_t byte_start) {
-  std::size_t nbyte{byte_start};
-
-  if (nbyte >= str.length())
+  if (byte_start >= str.length())
     return 0;
 
-  while ((static_cast<std::uint8_t>(str[nbyte]) & 0b1100'0000U) == 0b1000'0000U) {
-    nbyte++;
+  std::size_t nbyte{byte_start + 1};
 
-    if (nbyte >= str.length())
-      return 0;
+  while (nbyte < str.length() &&
+         (static_cast<std::uint8_t>(str[nbyte]) & 0b1100'0000U) == 0b1000'0000U) {
+    nbyte++;
   }
 
-  return nbyte - byte_start + 1;
+  return nbyte - byte_start;
 }
 
 // An RDSString can be RadioText, Program Service name, or Enhanced RadioText.
-- 
2.43.0


From 22c7da2fe21a3252d0617fb6d46ea992f6e05141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:36 +0000
Subject: [PATCH 06/22] fix: report RT+ tags that extend to the very end of the
 text

---
 src/text/rdsstring.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/text/rdsstring.cc b/src/text/rdsstring.cc
index 2901767..4317cb1 100644
--- a/src/text/rdsstring.cc
+++ b/src/text/rdsstring.cc
@@ -194,7 +194,7 @@ std::string RDSString::getLastCompleteString(std::size_t start, std::size_t len)
     byte_end += clen;
   }
 
-  return byte_end < last_complete_string_.length()
+  return byte_end <= last_complete_string_.length()
              ? last_complete_string_.substr(byte_start, byte_end - byte_start)
              : "";
 }
-- 
2.43.0


From 9404249f5b021dbe154ca277990de1355c1ef1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:12 +0000
Subject: [PATCH 07/22] fix: TEF input: use only blocks whose own error bits
 are zero

---
 src/io/input.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index dd2717e..79b0fe4 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -285,13 +285,16 @@ Group readTEFGroup(const Options& options) {
         blocks[2].data = std::stol(line.substr(9, 4), nullptr, 16);
 
         const auto rds_err = static_cast<std::uint32_t>(std::stol(line.substr(13, 2), nullptr, 16));
-        blocks[0].is_received = (static_cast<std::uint32_t>(rds_err >> 4U) & 0xFFU) == 0;
-        blocks[1].is_received = (static_cast<std::uint32_t>(rds_err >> 2U) & 0xFFU) == 0;
-        blocks[2].is_received = (static_cast<std::uint32_t>(rds_err >> 0U) & 0xFFU) == 0;
-
-        group.setBlock(BLOCK2, blocks[0]);
-        group.setBlock(BLOCK3, blocks[1]);
-        group.setBlock(BLOCK4, blocks[2]);
+        blocks[0].is_received = (static_cast<std::uint32_t>(rds_err >> 4U) & 0b11U) == 0;
+        blocks[1].is_received = (static_cast<std::uint32_t>(rds_err >> 2U) & 0b11U) == 0;
+        blocks[2].is_received = (static_cast<std::uint32_t>(rds_err >> 0U) & 0b11U) == 0;
+
+        if (blocks[0].is_received)
+          group.setBlock(BLOCK2, blocks[0]);
+        if (blocks[1].is_received)
+          group.setBlock(BLOCK3, blocks[1]);
+        if (blocks[2].is_received)
+          group.setBlock(BLOCK4, blocks[2]);
       } catch (const std::exception&) {
         break;
       }
-- 
2.43.0


From d6164a865df7c7a1cd7edbfc725b39a97143ff28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:12 +0000
Subject: [PATCH 08/22] fix: hex input: a block with missing digits is not a
 received block

---
 src/io/input.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index 79b0fe4..07127be 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -215,7 +215,8 @@ Group readHexGroup(const Options& options) {
       int which_nibble = 0;
       while (which_nibble < 4) {
         if (line.length() < 1) {
-          group_complete = true;
+          group_complete    = true;
+          block_still_valid = false;
           break;
         }
 
-- 
2.43.0


From b0303fdf419eae71a030e001def56218d63bcf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:12 +0000
Subject: [PATCH 09/22] fix: separate the channels of the last chunk of a
 multi-channel signal as well

---
 src/io/input.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index 07127be..2c860b4 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -133,9 +133,6 @@ MPXBuffer& MPXReader::readChunk(std::uint32_t channel) {
                            std::to_string(num_channels_) + "-channel signal");
   }
 
-  if (is_eof_)
-    return buffer_;
-
   if (num_channels_ == 1) {
     return buffer_;
   } else {
-- 
2.43.0


From 172e66a4c960f5593776a772e10ea7b4d9d06a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:12 +0000
Subject: [PATCH 10/22] fix: carry the receive time over to the chunks of a
 multi-channel signal

---
 src/io/input.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index 2c860b4..c5a95fb 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -136,7 +136,8 @@ MPXBuffer& MPXReader::readChunk(std::uint32_t channel) {
   if (num_channels_ == 1) {
     return buffer_;
   } else {
-    buffer_singlechan_.used_size = buffer_.used_size / num_channels_;
+    buffer_singlechan_.time_received = buffer_.time_received;
+    buffer_singlechan_.used_size     = buffer_.used_size / num_channels_;
     for (size_t i = 0; i < buffer_singlechan_.used_size; i++)
       buffer_singlechan_.data[i] = buffer_.data[i * num_channels_ + channel];
 
-- 
2.43.0


From 566935890e016e2cc48c369bdcc8fcb539093340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:12 +0000
Subject: [PATCH 11/22] fix: feed-through: don't echo characters that were not
 in the input at its end

---
 src/io/input.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index c5a95fb..a2d0f10 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -164,7 +164,7 @@ bool AsciiBitReader::readBit() {
   int chr = 0;
   while (chr != '0' && chr != '1' && chr != EOF) {
     chr = std::getchar();
-    if (feed_thru_)
+    if (feed_thru_ && chr != EOF)
       std::putchar(chr);
   }
 
@@ -191,8 +191,11 @@ Group readHexGroup(const Options& options) {
   while (!(group_complete || std::cin.eof())) {
     std::string line;
     std::getline(std::cin, line);
-    if (options.feed_thru)
-      std::cout << line << '\n';
+    if (options.feed_thru) {
+      std::cout << line;
+      if (!std::cin.eof())
+        std::cout << '\n';
+    }
 
     if (line.length() < 16)
       continue;
@@ -256,8 +259,11 @@ Group readTEFGroup(const Options& options) {
   while (!std::cin.eof()) {
     std::string line;
     std::getline(std::cin, line);
-    if (options.feed_thru)
-      std::cout << line << '\n';
+    if (options.feed_thru) {
+      std::cout << line;
+      if (!std::cin.eof())
+        std::cout << '\n';
+    }
 
     if (line.substr(0, 1) == "P") {
       // Lines starting with 'P' contain the PI code
-- 
2.43.0


From 2c46b6cf079e99e925afcd275fc3c9f76b451e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:40 +0000
Subject: [PATCH 12/22] fix: accept the whole documented range of sample rates
 in the resampler (up to 40 MHz)

---
 src/dsp/liquid_wrappers.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dsp/liquid_wrappers.cc b/src/dsp/liquid_wrappers.cc
index 9e958dd..5f4aacd 100644
--- a/src/dsp/liquid_wrappers.cc
+++ b/src/dsp/liquid_wrappers.cc
@@ -32,6 +32,8 @@ extern "C" {
 }
 #pragma clang diagnostic pop
 
+#include "src/constants.hh"
+
 namespace liquid {
 
 void AGC::init(float bw, float initial_gain) {
@@ -219,8 +221,8 @@ Resampler::Resampler(std::uint32_t length)
 }
 
 void Resampler::setRatio(float ratio) {
-  // Liquid can't take < 0.004, and we only reserved kOutputArraySize in the output buffer.
-  if (ratio < 0.005f || ratio > static_cast<float>(kOutputArraySize)) {
+  // We only reserved kOutputArraySize in the output buffer.
+  if (ratio < redsea::kLiquidMinimumResamplerRatio || ratio > static_cast<float>(kOutputArraySize)) {
     throw std::runtime_error("error: Can't support this sample rate");
   }
   resamp_rrrf_set_rate(object_, ratio);
-- 
2.43.0


From 7bb4eab77239d870daae10ca6729a756af0936d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:40 +0000
Subject: [PATCH 13/22] fix: skip TMC service keys with an out-of-range XOR
 start bit

---
 src/tmc/tmc.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tmc/tmc.cc b/src/tmc/tmc.cc
index f9ac1b7..1db79ef 100644
--- a/src/tmc/tmc.cc
+++ b/src/tmc/tmc.cc
@@ -370,6 +370,10 @@ std::map<std::uint16_t, ServiceKey> loadServiceKeyTable() {
       continue;
     }
 
+    // Otherwise the key could shift everything out of the 16-bit location code
+    if (key.xorstart > 15)
+      continue;
+
     result.insert({encid, key});
   }
 
-- 
2.43.0


From ff348f20a4bf708685faa8415a895349130552ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:40 +0000
Subject: [PATCH 14/22] fix: keep group timestamps monotonic when the system
 clock steps back

---
 src/channel.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/channel.cc b/src/channel.cc
index 13f75b3..46cf1d7 100644
--- a/src/channel.cc
+++ b/src/channel.cc
@@ -99,16 +99,16 @@ void Channel::processBits(const BitBuffer& buffer, std::size_t which_stream) {
 // Handle this group as if it was just received.
 // \param which_stream Which data stream was it received on, 0..3
 void Channel::processGroup(Group group, std::size_t which_stream) {
-  if (options_.timestamp && !group.hasTime()) {
-    auto now = std::chrono::system_clock::now();
-    group.setTime(now);
+  if (options_.timestamp) {
+    auto rx_time = group.hasTime() ? group.getRxTime() : std::chrono::system_clock::now();
 
     // When the source is faster than real-time, backwards timestamp calculation
     // produces meaningless results. We want to make sure that the time stays monotonic.
-    if (now < last_group_rx_time_) {
-      group.setTime(last_group_rx_time_);
+    if (rx_time < last_group_rx_time_) {
+      rx_time = last_group_rx_time_;
     }
-    last_group_rx_time_ = now;
+    group.setTime(rx_time);
+    last_group_rx_time_ = rx_time;
   }
 
   if (options_.bler) {
-- 
2.43.0


From d8d8a7b90c96ad66b5d864297e4ed797a4e3b0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:58 +0000
Subject: [PATCH 15/22] fix: don't die on an unknown location table encoding

---
 src/tmc/locationdb.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/tmc/locationdb.cc b/src/tmc/locationdb.cc
index cf36a44..2fb9594 100644
--- a/src/tmc/locationdb.cc
+++ b/src/tmc/locationdb.cc
@@ -19,6 +19,7 @@
 #include <climits>
 #include <cstdint>
 #include <exception>
+#include <iostream>
 #include <ostream>
 #include <regex>
 #include <string>
@@ -75,6 +76,14 @@ LocationDatabase loadLocationDatabase(const std::string& directory) {
   if (std::regex_match(encoding, std::regex("ISO.8859-15\\b.*")))
     encoding = "ISO-8859-15";
 
+  try {
+    const iconvpp::converter test_converter("UTF-8", encoding);
+  } catch (const std::exception& e) {
+    std::cerr << "warning: location table encoding: " << e.what() << "; assuming UTF-8"
+              << std::endl;
+    encoding = "UTF-8";
+  }
+
   const iconvpp::converter converter("UTF-8", encoding);
 
   CSVTable table = readCSVWithTitles(directory + "/NAMES.DAT", ';');
-- 
2.43.0


From 6fdc7b12748edec8a264dc2ac1214596fb301827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:25 +0000
Subject: [PATCH 16/22] fix: clock time must not depend on the time zone of the
 computer

---
 src/groups.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/groups.cc b/src/groups.cc
index 721d9be..d6034b4 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -769,13 +769,14 @@ void Station::decodeType4A(const Group& group) {
   utc_plus_offset_tm.tm_year  = year_utc - 1900;
   utc_plus_offset_tm.tm_mon   = month_utc - 1;
   utc_plus_offset_tm.tm_mday  = day_utc;
-  utc_plus_offset_tm.tm_isdst = -1;
+  utc_plus_offset_tm.tm_isdst = 0;
   utc_plus_offset_tm.tm_hour  = static_cast<int>(hour_utc);
   utc_plus_offset_tm.tm_min   = static_cast<int>(minute_utc);
   utc_plus_offset_tm.tm_sec   = static_cast<int>(local_offset * 3600.0);
 
-  const std::time_t local_t     = std::mktime(&utc_plus_offset_tm);
-  const std::tm* const local_tm = std::localtime(&local_t);
+  // The time zone of the computer must not have an effect on this
+  const std::time_t local_t     = timegm(&utc_plus_offset_tm);
+  const std::tm* const local_tm = std::gmtime(&local_t);
 
   const bool is_date_valid =
       hour_utc <= 23 && minute_utc <= 59 && std::fabs(std::trunc(local_offset)) <= 14.0;
-- 
2.43.0


From a103c1fcc214adb9c7e287dff38280cc720dc1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:25 +0000
Subject: [PATCH 17/22] fix: use the last groups of three- and four-group TMC
 messages

---
 src/tmc/tmc.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tmc/tmc.cc b/src/tmc/tmc.cc
index 1db79ef..4e31a64 100644
--- a/src/tmc/tmc.cc
+++ b/src/tmc/tmc.cc
@@ -83,10 +83,10 @@ std::vector<FreeformField> getFreeformFields(const std::array<MessagePart, 5>& p
   // GSI of second group)
   std::deque<bool> freeform_data_bits;
   for (std::size_t i = 1; i < parts.size(); i++) {
-    if (!parts[i].is_received)
-      break;
-
     if (i == 1 || i >= parts.size() - second_gsi) {
+      if (!parts[i].is_received)
+        break;
+
       for (int b = 0; b < 12; b++)
         freeform_data_bits.push_back(static_cast<std::uint16_t>(parts[i].data[0] >> (11U - b)) &
                                      1U);
-- 
2.43.0


From 306f50566638aaea17b5597c72b6a482806d2f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:25 +0000
Subject: [PATCH 18/22] fix: options: reject channel counts that wrap around
 and sample rates that are not numbers

---
 src/options.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/options.cc b/src/options.cc
index ca9a730..6d676bc 100644
--- a/src/options.cc
+++ b/src/options.cc
@@ -74,12 +74,14 @@ Options getOptions(int argc, char** argv) {
         options.input_type = InputType::ASCIIbits;
         break;
       case 'c': {
-        options.num_channels = static_cast<std::uint32_t>(std::strtoul(optarg, nullptr, 10));
+        errno                            = 0;
+        const unsigned long num_channels = std::strtoul(optarg, nullptr, 10);
         // Channels take up memory, and we don't want to fill it up by accident.
-        constexpr int kMaxNumChannels{32};
-        if (errno == ERANGE || options.num_channels < 1 || options.num_channels > kMaxNumChannels) {
+        constexpr unsigned long kMaxNumChannels{32};
+        if (errno == ERANGE || num_channels < 1 || num_channels > kMaxNumChannels) {
           throw std::runtime_error("check the number of channels");
         }
+        options.num_channels = static_cast<std::uint32_t>(num_channels);
         options.is_num_channels_defined = true;
         break;
       }
@@ -131,12 +133,13 @@ Options getOptions(int argc, char** argv) {
           else if (std::toupper(optstr.back()) == 'M')
             factor = 1e6f;
         }
+        errno              = 0;
         options.samplerate = std::strtof(optarg, nullptr) * factor;
         if (errno == ERANGE) {
           throw std::runtime_error("check the sample rate");
         }
-        if (options.samplerate < kMinimumSampleRate_Hz ||
-            options.samplerate > kMaximumSampleRate_Hz) {
+        if (!(options.samplerate >= kMinimumSampleRate_Hz &&
+              options.samplerate <= kMaximumSampleRate_Hz)) {
           throw std::runtime_error("sample rate was set to " + std::to_string(options.samplerate) +
                                    ", but it must be between " +
                                    std::to_string(kMinimumSampleRate_Hz) + " and " +
-- 
2.43.0


From 6721c1aaed632b4ce2926e0b0fafc7af50ea3222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:55 +0000
Subject: [PATCH 19/22] fix: exit with an error on an unknown option

---
 src/options.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/options.cc b/src/options.cc
index 6d676bc..d44b93e 100644
--- a/src/options.cc
+++ b/src/options.cc
@@ -36,6 +36,7 @@ namespace redsea {
 Options getOptions(int argc, char** argv) {
   Options options;
   int fec_flag{1};
+  int help_flag{0};
 
   // clang-format off
   const std::array<option, 20> long_options{{
@@ -57,7 +58,7 @@ Options getOptions(int argc, char** argv) {
       {"version",      no_argument,       nullptr,   'v'},
       {"output-hex",   no_argument,       nullptr,   'x'},
       {"no-fec",       no_argument,       &fec_flag, 0  },
-      {"help",         no_argument,       nullptr,   '?'},
+      {"help",         no_argument,       &help_flag, 1 },
       {nullptr,        0,                 nullptr,   0  }
   }};
   // clang-format on
@@ -157,8 +158,7 @@ Options getOptions(int argc, char** argv) {
       case 'u': options.rbds = true; break;
       case 'l': options.loctable_dirs.emplace_back(optarg); break;
       case 'v': options.print_version = true; break;
-      case '?': options.print_usage = true; break;
-      default:
+      default:  // '?': unknown option or missing argument
         options.print_usage = true;
         options.init_error  = true;
         break;
@@ -167,6 +167,9 @@ Options getOptions(int argc, char** argv) {
       break;
   }
 
+  if (help_flag)
+    options.print_usage = true;
+
   options.early_exit = options.print_usage || options.print_version;
   options.use_fec    = fec_flag;
 
-- 
2.43.0


From 4a7d13388703b9a72a9006c1cd4a2674c0993d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:27 +0000
Subject: [PATCH 20/22] fix: hold Enhanced RadioText of up to 128 bytes instead
 of truncating it at 64

---
 src/groups.hh         | 2 +-
 src/text/radiotext.hh | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/groups.hh b/src/groups.hh
index bd8dd64..a33a2b1 100644
--- a/src/groups.hh
+++ b/src/groups.hh
@@ -155,7 +155,7 @@ class Station {
   ProgramServiceName ps_;
   LongPS long_ps_;
   RadioText radiotext_;
-  RadioText ert_;
+  RadioText ert_{32U * 4U};
   PTYName ptyname_;
   RDSString full_tdc_{32U * 4U};
   std::uint16_t pin_{};
diff --git a/src/text/radiotext.hh b/src/text/radiotext.hh
index c4e563a..dff9e28 100644
--- a/src/text/radiotext.hh
+++ b/src/text/radiotext.hh
@@ -12,6 +12,7 @@ namespace redsea {
 class RadioText {
  public:
   RadioText() = default;
+  explicit RadioText(std::size_t max_len) : text(max_len) {}
   bool isABChanged(int new_ab) {
     const bool is = (ab != new_ab);
     ab            = new_ab;
-- 
2.43.0


From 6e8abeef5fe818ec3415fefc9af7bcd7f3bace16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:14 +0000
Subject: [PATCH 21/22] fix: report the frequencies of other networks in TMC
 tuning information

---
 src/tmc/tmc.cc | 22 +++++++++++++---------
 src/tmc/tmc.hh |  1 -
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/tmc/tmc.cc b/src/tmc/tmc.cc
index 4e31a64..bae3ed6 100644
--- a/src/tmc/tmc.cc
+++ b/src/tmc/tmc.cc
@@ -546,19 +546,23 @@ void TMCService::receiveUserGroup(std::uint16_t x, std::uint16_t y, std::uint16_
 
       case 6: {
         const std::uint16_t on_pi = z;
-        if (other_network_freqs_.find(on_pi) == other_network_freqs_.end())
-          other_network_freqs_.insert({on_pi, AltFreqList()});
-
-        other_network_freqs_.at(on_pi).insert(getUint8(y, 8));
-        other_network_freqs_.at(on_pi).insert(getUint8(y, 0));
-
         /* Here, the alternative frequencies are printed out right away -
            DKULTUR, for example, does not transmit information about the total
            length of the list */
         (*jsonroot)["tmc"]["other_network"]["pi"] = getPrefixedHexString<4>(on_pi);
-        for (const int frequency : other_network_freqs_.at(on_pi).getRawList())
-          (*jsonroot)["tmc"]["other_network"]["frequencies_khz"].push_back(frequency);
-        other_network_freqs_.clear();
+
+        constexpr std::uint8_t kLFMFFollows = 250;
+
+        const auto code1 = getUint8(y, 8);
+        const auto code2 = getUint8(y, 0);
+        const CarrierFrequency frequency1(code1, CarrierFrequency::Band::FM);
+        const CarrierFrequency frequency2(code2, code1 == kLFMFFollows
+                                                     ? CarrierFrequency::Band::LF_MF
+                                                     : CarrierFrequency::Band::FM);
+        for (const auto& frequency : {frequency1, frequency2}) {
+          if (frequency.isValid())
+            (*jsonroot)["tmc"]["other_network"]["frequencies_khz"].push_back(frequency.kHz());
+        }
         break;
       }
 
diff --git a/src/tmc/tmc.hh b/src/tmc/tmc.hh
index c0ba0a3..ecc8554 100644
--- a/src/tmc/tmc.hh
+++ b/src/tmc/tmc.hh
@@ -184,7 +184,6 @@ class TMCService {
   Message message_;
   std::map<std::uint16_t, ServiceKey> service_key_table_;
   RDSString ps_;
-  std::map<std::uint16_t, AltFreqList> other_network_freqs_;
 };
 
 }  // namespace tmc
-- 
2.43.0


From 0c12d22bbb07c662725357b0a9fa576032b33581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:06 +0000
Subject: [PATCH 22/22] fix: don't decode an extra 0 bit at the end of ASCII
 bit input

---
 src/redsea.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/redsea.cc b/src/redsea.cc
index 5d92ba2..a61a526 100644
--- a/src/redsea.cc
+++ b/src/redsea.cc
@@ -170,7 +170,10 @@ int processASCIIBitsInput(const Options& options) {
   AsciiBitReader ascii_reader(options);
 
   while (!ascii_reader.eof()) {
-    channel.processBit(ascii_reader.readBit(), 0);
+    const bool bit = ascii_reader.readBit();
+    // There was no bit to read at the end of input
+    if (!ascii_reader.eof())
+      channel.processBit(bit, 0);
   }
 
   channel.flush();
-- 
2.43.0

