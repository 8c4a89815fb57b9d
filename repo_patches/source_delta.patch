From a2a9240b0a68ea73e8e2dcb26bba0c0ad7fc33d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 01/12] fix: payload-only framing skipped eight bytes too many
 before copying the payload

---
 src/decoders/oem/src/framer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 0e363a0..9bc13a9 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -289,7 +289,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                         stMetaData_.uiLength = uiMyExpectedPayloadLength;
                         if (!bMetadataOnly_)
                         {
-                            pclMyBuffer->erase_begin((uiMyExpectedMessageLength - uiMyExpectedPayloadLength) + OEM4_BINARY_CRC_LENGTH);
+                            pclMyBuffer->erase_begin((uiMyExpectedMessageLength - uiMyExpectedPayloadLength) - OEM4_BINARY_CRC_LENGTH);
                             pclMyBuffer->copy_out(pucFrameBuffer_, stMetaData_.uiLength);
                             pclMyBuffer->erase_begin(uiMyExpectedPayloadLength + OEM4_BINARY_CRC_LENGTH);
                         }
-- 
2.43.0


From e693fd2092b77b1bf6dd64d3cfd80d6ba5583476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 02/12] fix: ASCII framing read past the received bytes when
 fewer than ten were buffered

---
 src/decoders/oem/src/framer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 9bc13a9..b63bd12 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -318,7 +318,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
             if (ucDataByte == OEM4_ASCII_CRC_DELIMITER)
             {
                 // Need to be able to check for *12345678CRLF
-                if (uiMyByteCount > clInternalFrameBuffer.size() - OEM4_ASCII_CRC_LENGTH - 2)
+                if (uiMyByteCount + OEM4_ASCII_CRC_LENGTH + 2 > clInternalFrameBuffer.size())
                 {
                     uiMyByteCount--; // Rewind so that we reprocess the '*' delimiter after getting more bytes
                     return STATUS::INCOMPLETE;
-- 
2.43.0


From f4efe05464b250852f6188faa948a23058878562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 03/12] fix: reported unknown bytes overran a caller's buffer
 smaller than them

---
 src/decoders/common/src/framer.cpp         |  3 +-
 src/decoders/common/src/framer_manager.cpp |  1 +
 src/decoders/oem/src/framer.cpp            | 35 +++++++++++-----------
 3 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/decoders/common/src/framer.cpp b/src/decoders/common/src/framer.cpp
index 66d3d06..314f4e8 100644
--- a/src/decoders/common/src/framer.cpp
+++ b/src/decoders/common/src/framer.cpp
@@ -36,8 +36,9 @@ using namespace novatel::edie;
     const auto& clInternalFrameBuffer = *pclMyBuffer;
     if (clInternalFrameBuffer.empty()) { return STATUS::BUFFER_EMPTY; }
 
-    // Helper to set metadata and handle unknown bytes
+    // Helper to set metadata and handle unknown bytes, no more of them than fit in the provided buffer
     auto handleUnknown = [&](uint32_t length) -> STATUS {
+        if (!bMetadataOnly_ && bMyReportUnknownBytes) { length = std::min(length, uiFrameBufferSize_); }
         stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
         stMetaData_.uiLength = length;
         if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, length); }
diff --git a/src/decoders/common/src/framer_manager.cpp b/src/decoders/common/src/framer_manager.cpp
index 8fb41bb..d752e3a 100644
--- a/src/decoders/common/src/framer_manager.cpp
+++ b/src/decoders/common/src/framer_manager.cpp
@@ -152,6 +152,7 @@ STATUS FramerManager::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameB
         if (bestFramerIndex == registrySize)
         {
             assert(bestOffset > 0 && bestOffset <= static_cast<uint32_t>(pclMyFixedBuffer->size()));
+            if (bMyReportUnknownBytes) { bestOffset = std::min(bestOffset, uiFrameBufferSize_); }
             HandleUnknownBytes(pucFrameBuffer_, bestOffset);
             stMyMetaData.uiLength = bestOffset;
             stMyMetaData.eFormat = HEADER_FORMAT::UNKNOWN;
diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index b63bd12..4abf9ed 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -52,6 +52,15 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
     // Dereferencing the pointer in the loop is expensive, so we cache the reference here
     const auto& clInternalFrameBuffer = *pclMyBuffer;
 
+    // Helper to set metadata and handle unknown bytes, no more of them than fit in the provided buffer
+    auto handleUnknown = [&](uint32_t length) -> STATUS {
+        if (!bMetadataOnly_ && bMyReportUnknownBytes) { length = std::min(length, uiFrameBufferSize_); }
+        stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
+        stMetaData_.uiLength = length;
+        if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, length); }
+        return STATUS::UNKNOWN;
+    };
+
     // Loop buffer to complete NovAtel message
     while (eMyFrameState != NovAtelFrameState::COMPLETE_MESSAGE)
     {
@@ -67,13 +76,14 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                 return STATUS::INCOMPLETE;
             }
 
-            stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
-            stMetaData_.uiLength = uiMyByteCount;
-
-            if (uiMyByteCount == 0) { return STATUS::BUFFER_EMPTY; }
+            if (uiMyByteCount == 0)
+            {
+                stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
+                stMetaData_.uiLength = 0;
+                return STATUS::BUFFER_EMPTY;
+            }
 
-            if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, uiMyByteCount); }
-            return STATUS::UNKNOWN;
+            return handleUnknown(uiMyByteCount);
         }
 
         const unsigned char ucDataByte = clInternalFrameBuffer[uiMyByteCount++];
@@ -132,18 +142,9 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
             // If we have just encountered a sync byte and have read bytes before, we need to handle them
             if (eMyFrameState != NovAtelFrameState::WAITING_FOR_SYNC && uiMyByteCount > 1)
             {
-                stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
-                stMetaData_.uiLength = uiMyByteCount - 1;
-                if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, uiMyByteCount - 1); }
-                return STATUS::UNKNOWN;
-            }
-            if (uiMyByteCount > uiFrameBufferSize_)
-            {
-                stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
-                stMetaData_.uiLength = uiMyByteCount - 1;
-                if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, uiFrameBufferSize_); }
-                return STATUS::UNKNOWN;
+                return handleUnknown(uiMyByteCount - 1);
             }
+            if (uiMyByteCount > uiFrameBufferSize_) { return handleUnknown(uiMyByteCount - 1); }
             break;
 
         case NovAtelFrameState::WAITING_FOR_BINARY_SYNC2:
-- 
2.43.0


From 5a013efe0e1c13859a640756f23b90aea78f5dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 04/12] fix: binary frame overran a caller's buffer smaller
 than that of the call that saw its header

---
 src/decoders/oem/src/framer.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 4abf9ed..de9d0c2 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -285,6 +285,17 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
             {
                 if (uiMyCalculatedCrc32 == 0)
                 {
+                    // The provided buffer may be smaller than the one the header was checked against
+                    if (uiFrameBufferSize_ < (bMyPayloadOnly ? uiMyExpectedPayloadLength : uiMyExpectedMessageLength))
+                    {
+                        stMetaData_.uiLength = bMyPayloadOnly ? uiMyExpectedPayloadLength : uiMyExpectedMessageLength;
+                        uiMyByteCount = 0;
+                        uiMyExpectedPayloadLength = 0;
+                        uiMyExpectedMessageLength = 0;
+                        ResetState();
+                        return STATUS::BUFFER_FULL;
+                    }
+
                     if (bMyPayloadOnly)
                     {
                         stMetaData_.uiLength = uiMyExpectedPayloadLength;
-- 
2.43.0


From 8e65534b59c6427d4d85b79643ad2e7b9f605f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 05/12] fix: abbreviated ASCII response was framed before its
 line feed was received

---
 src/decoders/oem/src/framer_abb_ascii.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decoders/oem/src/framer_abb_ascii.cpp b/src/decoders/oem/src/framer_abb_ascii.cpp
index 6563a8b..7137b46 100644
--- a/src/decoders/oem/src/framer_abb_ascii.cpp
+++ b/src/decoders/oem/src/framer_abb_ascii.cpp
@@ -73,6 +73,9 @@ FramerAbbAscii::FramerAbbAscii(std::shared_ptr<UCharFixedBuffer> buffer) : Frame
     const size_t headerCrlfIndex = clFrameBuffer.search_chars(crlf, 0, MAX_ASCII_MESSAGE_LENGTH);
     if (headerCrlfIndex == UCharFixedBuffer::npos) { return midLineIncomplete(); }
 
+    // The search may have matched a CR at the end of the buffer, before the LF is received
+    if (clFrameBuffer.size() < headerCrlfIndex + 2) { return Result{ReturnStatus::INCOMPLETE, HEADER_FORMAT::ABB_ASCII, headerCrlfIndex}; }
+
     if (IsAbbrevAsciiResponse()) { return Result{ReturnStatus::RESPONSE, HEADER_FORMAT::ABB_ASCII, headerCrlfIndex + 2}; }
 
     // If we reach this point, then the message is not a response
-- 
2.43.0


From c3e08e6989d81dca145dde16a32a81608baf16fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:58 +0000
Subject: [PATCH 06/12] fix: NMEA sentence was framed with bytes between the
 delimiter and its checksum

---
 src/decoders/oem/src/framer.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index de9d0c2..08f5b9a 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -512,7 +512,11 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
             break;
         }
         case NovAtelFrameState::WAITING_FOR_NMEA_BODY:
-            if (ucDataByte == OEM4_ASCII_CRC_DELIMITER) { eMyFrameState = NovAtelFrameState::WAITING_FOR_NMEA_CRC; }
+            if (ucDataByte == OEM4_ASCII_CRC_DELIMITER)
+            {
+                uiMyExpectedMessageLength = uiMyByteCount + NMEA_CRC_LENGTH + 2; // Add 2 for CRLF
+                eMyFrameState = NovAtelFrameState::WAITING_FOR_NMEA_CRC;
+            }
             else if (uiMyByteCount >= MAX_NMEA_MESSAGE_LENGTH)
             {
                 uiMyByteCount = NMEA_SYNC_LENGTH;
@@ -541,9 +545,11 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                 uint32_t uiMessageCrc;
                 auto result = std::from_chars(acCrc, acCrc + NMEA_CRC_LENGTH, uiMessageCrc, 16);
 
-                if (result.ec == std::errc() && uiMyCalculatedCrc32 == uiMessageCrc)
+                // The checksum covers the bytes up to the delimiter, so nothing may come between the delimiter and the checksum
+                if (result.ec == std::errc() && uiMyCalculatedCrc32 == uiMessageCrc && uiMyByteCount == uiMyExpectedMessageLength)
                 {
                     uiMyByteCount = 0;
+                    uiMyExpectedMessageLength = 0;
 
                     if (uiFrameBufferSize_ < stMetaData_.uiLength)
                     {
-- 
2.43.0


From 2f3b29741ead4ae7fa1e3b8fb7775dd6c52321ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:40 +0000
Subject: [PATCH 07/12] fix: unknown bytes seen in a look-ahead became part of
 the next frame

---
 src/decoders/oem/src/framer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 08f5b9a..93de3a7 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -58,6 +58,9 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
         stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
         stMetaData_.uiLength = length;
         if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, length); }
+        // Bytes that were not consumed must not become the start of the next frame
+        InitAttributes();
+        ResetState();
         return STATUS::UNKNOWN;
     };
 
-- 
2.43.0


From 02b131f06c46721431da584c6485b39a4736055b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:02 +0000
Subject: [PATCH 08/12] fix: binary frame following a proprietary one was
 labelled proprietary

---
 src/decoders/oem/src/framer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 93de3a7..0ee07da 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -68,6 +68,8 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
     while (eMyFrameState != NovAtelFrameState::COMPLETE_MESSAGE)
     {
         stMetaData_.bResponse = false;
+        // The format of an earlier frame must not decide the format of this one
+        if (eMyFrameState == NovAtelFrameState::WAITING_FOR_SYNC) { stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN; }
         // Read data from buffer until we reach the end or we didn't find a complete frame in current data buffer
         if (clInternalFrameBuffer.size() == uiMyByteCount)
         {
-- 
2.43.0


From 564ee07586f99367cd905dd07f061ffc0c8c0a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:11 +0000
Subject: [PATCH 09/12] fix: filtering with a zero decimation period divided by
 zero

---
 src/decoders/oem/src/filter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/filter.cpp b/src/decoders/oem/src/filter.cpp
index fecf1d6..6b30c38 100644
--- a/src/decoders/oem/src/filter.cpp
+++ b/src/decoders/oem/src/filter.cpp
@@ -287,7 +287,8 @@ bool Filter::FilterMessage(const MetaDataStruct& stMetaData_) const
 // -------------------------------------------------------------------------------------------------------
 bool Filter::FilterDecimation(const MetaDataStruct& stMetaData_) const
 {
-    return !bMyDecimate || bMyInvertDecimation == static_cast<bool>(static_cast<uint32_t>(stMetaData_.dMilliseconds) % uiMyDecimationPeriodMilliSec);
+    return !bMyDecimate || uiMyDecimationPeriodMilliSec == 0 ||
+           bMyInvertDecimation == static_cast<bool>(static_cast<uint32_t>(stMetaData_.dMilliseconds) % uiMyDecimationPeriodMilliSec);
 }
 
 // -------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 3108ff1a8f7e4eb555661ef8e659c4ba3bf5afb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:15 +0000
Subject: [PATCH 10/12] fix: sign extend RANGECMP5 Doppler fields at the width
 they are read with

---
 include/novatel_edie/decoders/oem/rangecmp/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/common.hpp b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
index 03265ab..4a10603 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/common.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
@@ -379,7 +379,7 @@ constexpr uint32_t RBLK_PHR_SIGNEXT_MASK = 0xFF800000;
 constexpr std::array<uint32_t, 2> RBLK_PSR_BITS = {37, 20};
 constexpr uint32_t RBLK_PHR_BITS = 23;
 constexpr std::array<uint32_t, 2> RBLK_DOPPLER_BITS = {28, 16};
-constexpr std::array<uint32_t, 2> RBLK_DOPPLER_SIGNEXT_MASK = {0xFC000000, 0xFFFFC000};
+constexpr std::array<uint32_t, 2> RBLK_DOPPLER_SIGNEXT_MASK = {0xF0000000, 0xFFFF0000};
 constexpr std::array<int64_t, 2> RBLK_INVALID_PSR = {137438953471, -524288};
 
 } // namespace rangecmp5
-- 
2.43.0


From 025226938fc55c4296b03eb6c40714d6d4ddd87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:57 +0000
Subject: [PATCH 11/12] fix: report the length of a decompressed message, not
 of the compressed one

---
 src/decoders/oem/src/parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/parser.cpp b/src/decoders/oem/src/parser.cpp
index f7164de..9cd050d 100644
--- a/src/decoders/oem/src/parser.cpp
+++ b/src/decoders/oem/src/parser.cpp
@@ -147,7 +147,11 @@ Parser::ReadIntermediate(MessageDataStruct& stMessageData_, IntermediateHeader&
                 if (clMyRangeCmpFilter.DoFiltering(stMetaData_) && bMyDecompressRangeCmp)
                 {
                     eStatus = clMyRangeDecompressor.Decompress(pucMyFrameBufferPointer, uiParserInternalBufferSize, stMetaData_);
-                    if (eStatus == STATUS::SUCCESS) { stHeader_.usMessageId = stMetaData_.usMessageId; }
+                    if (eStatus == STATUS::SUCCESS)
+                    {
+                        stHeader_.usMessageId = stMetaData_.usMessageId;
+                        stMessageData_.uiMessageLength = stMetaData_.uiLength;
+                    }
                     else
                     {
                         pclMyLogger->info("RangeDecompressor returned status {}", eStatus);
-- 
2.43.0


From f3112766dd461bea180f692704f04159dcb59db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:02 +0000
Subject: [PATCH 12/12] fix: reading without an input stream dereferenced a
 null stream

---
 include/novatel_edie/decoders/common/file_parser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/novatel_edie/decoders/common/file_parser.hpp b/include/novatel_edie/decoders/common/file_parser.hpp
index 5e4aaae..29e50b3 100644
--- a/include/novatel_edie/decoders/common/file_parser.hpp
+++ b/include/novatel_edie/decoders/common/file_parser.hpp
@@ -54,6 +54,8 @@ template <typename ParserT, typename FilterT, typename MetaDataT, typename Inter
 
     [[nodiscard]] bool ReadStream()
     {
+        if (pclMyInputStream == nullptr) { return false; }
+
         std::array<char, MAX_ASCII_MESSAGE_LENGTH> cData{};
         pclMyInputStream->read(cData.data(), std::min(cData.size(), clMyParser.GetAvailableSpace()));
         size_t ullBytesRead = pclMyInputStream->gcount();
-- 
2.43.0

