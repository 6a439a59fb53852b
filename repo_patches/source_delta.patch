From 15930302fcc78565745e05164ee381e7c278f0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:41 +0000
Subject: [PATCH 001/120] fix: frame abbreviated ASCII identically however its
 bytes are split

A lone '<' was taken as a header line without the separator check, and a
response whose '\r' was the last byte received was reported one byte longer
than the data in the buffer.
---
 src/decoders/oem/src/framer_abb_ascii.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/decoders/oem/src/framer_abb_ascii.cpp b/src/decoders/oem/src/framer_abb_ascii.cpp
index 6563a8b..dcbdd80 100644
--- a/src/decoders/oem/src/framer_abb_ascii.cpp
+++ b/src/decoders/oem/src/framer_abb_ascii.cpp
@@ -69,10 +69,16 @@ FramerAbbAscii::FramerAbbAscii(std::shared_ptr<UCharFixedBuffer> buffer) : Frame
                                                                 : Result{ReturnStatus::INCOMPLETE, HEADER_FORMAT::ABB_ASCII, clFrameBuffer.size()};
     };
 
+    // The separator check in FindSync() needs the byte following the sync byte
+    if (clFrameBuffer.size() <= OEM4_ASCII_SYNC_LENGTH) { return Result{ReturnStatus::INCOMPLETE, HEADER_FORMAT::ABB_ASCII, start}; }
+
     // Step 1: Parse the first line (header/response line)
     const size_t headerCrlfIndex = clFrameBuffer.search_chars(crlf, 0, MAX_ASCII_MESSAGE_LENGTH);
     if (headerCrlfIndex == UCharFixedBuffer::npos) { return midLineIncomplete(); }
 
+    // A '\r' at the end of the buffer also matches, but the line is only complete once its '\n' has arrived
+    if (clFrameBuffer.size() < headerCrlfIndex + 2) { return Result{ReturnStatus::INCOMPLETE, HEADER_FORMAT::ABB_ASCII, headerCrlfIndex}; }
+
     if (IsAbbrevAsciiResponse()) { return Result{ReturnStatus::RESPONSE, HEADER_FORMAT::ABB_ASCII, headerCrlfIndex + 2}; }
 
     // If we reach this point, then the message is not a response
-- 
2.43.0


From acad123f302f4a0ebe6c823915dd1bfa437451c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:41 +0000
Subject: [PATCH 002/120] fix: wait for the whole ASCII checksum when fewer
 than ten bytes are buffered

The unsigned subtraction wrapped, so a '*' early in a message was treated as
payload and the message was missed.
---
 src/decoders/oem/src/framer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 0e363a0..f765873 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -318,7 +318,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
             if (ucDataByte == OEM4_ASCII_CRC_DELIMITER)
             {
                 // Need to be able to check for *12345678CRLF
-                if (uiMyByteCount > clInternalFrameBuffer.size() - OEM4_ASCII_CRC_LENGTH - 2)
+                if (uiMyByteCount + OEM4_ASCII_CRC_LENGTH + 2 > clInternalFrameBuffer.size())
                 {
                     uiMyByteCount--; // Rewind so that we reprocess the '*' delimiter after getting more bytes
                     return STATUS::INCOMPLETE;
-- 
2.43.0


From 0ec72dfe488accff27562d3c10cee9c06911e1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:41 +0000
Subject: [PATCH 003/120] fix: frame NMEA sentences of exactly the minimum
 length

---
 src/decoders/oem/src/framer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index f765873..1945e57 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -513,7 +513,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
         case NovAtelFrameState::WAITING_FOR_NMEA_CRC: {
             if (ucDataByte == '\n')
             {
-                if (uiMyByteCount <= MIN_NMEA_MESSAGE_LENGTH) // Handling the case where the message is too short. e.g. $*<CR> will incorrectly frame.
+                if (uiMyByteCount < MIN_NMEA_MESSAGE_LENGTH) // Handling the case where the message is too short. e.g. $*<CR> will incorrectly frame.
                 {
                     uiMyByteCount = NMEA_SYNC_LENGTH;
                     uiMyExpectedPayloadLength = 0;
-- 
2.43.0


From 1493960978c8d24a5d7c535e2c3fc3d75f73d2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:41 +0000
Subject: [PATCH 004/120] fix: accept ASCII and NMEA checksums only when every
 digit is present

Checksums with fewer digits, extra text between the NMEA '*' and its digits, or
a missing CR were framed as valid messages.
---
 include/novatel_edie/decoders/oem/framer_ascii_base.hpp | 2 +-
 src/decoders/oem/src/framer.cpp                         | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/framer_ascii_base.hpp b/include/novatel_edie/decoders/oem/framer_ascii_base.hpp
index 8b84182..a6211d7 100644
--- a/include/novatel_edie/decoders/oem/framer_ascii_base.hpp
+++ b/include/novatel_edie/decoders/oem/framer_ascii_base.hpp
@@ -113,7 +113,7 @@ template <HEADER_FORMAT HeaderFormat, unsigned char SyncByte, size_t MaxMessageL
         auto result = std::from_chars(pCrcStart, pCrcStart + OEM4_ASCII_CRC_LENGTH, uiMessageCrc, 16);
         auto uiCalcCrc = CalculateBlockCrc32(clFrameBuffer.data() + OEM4_ASCII_SYNC_LENGTH,
                                              static_cast<uint32_t>(frameEnd - OEM4_ASCII_SYNC_LENGTH - OEM4_ASCII_CRC_LENGTH - 3));
-        return result.ec == std::errc() && uiCalcCrc == uiMessageCrc ? 0 : OEM4_ASCII_SYNC_LENGTH;
+        return result.ec == std::errc() && result.ptr == pCrcStart + OEM4_ASCII_CRC_LENGTH && uiCalcCrc == uiMessageCrc ? 0 : OEM4_ASCII_SYNC_LENGTH;
     }
 
     //----------------------------------------------------------------------------
diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 1945e57..a5d0119 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -468,7 +468,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                 uint32_t uiMessageCrc;
                 auto result = std::from_chars(acCrc, acCrc + OEM4_ASCII_CRC_LENGTH, uiMessageCrc, 16);
 
-                if (result.ec == std::errc() && uiMyCalculatedCrc32 == uiMessageCrc)
+                if (result.ec == std::errc() && result.ptr == acCrc + OEM4_ASCII_CRC_LENGTH && uiMyCalculatedCrc32 == uiMessageCrc)
                 {
                     uiMyByteCount = 0;
 
@@ -529,7 +529,9 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                 uint32_t uiMessageCrc;
                 auto result = std::from_chars(acCrc, acCrc + NMEA_CRC_LENGTH, uiMessageCrc, 16);
 
-                if (result.ec == std::errc() && uiMyCalculatedCrc32 == uiMessageCrc)
+                // The checksum is exactly two digits, directly between the delimiter and the CRLF
+                if (clInternalFrameBuffer.search_char(OEM4_ASCII_CRC_DELIMITER, 0) == crcStartIndexInBuffer - 1 && clInternalFrameBuffer[uiMyByteCount - 2] == '\r' &&
+                    result.ec == std::errc() && result.ptr == acCrc + NMEA_CRC_LENGTH && uiMyCalculatedCrc32 == uiMessageCrc)
                 {
                     uiMyByteCount = 0;
 
-- 
2.43.0


From d114ff6240d89c7180d09dc6129075694174f4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:41 +0000
Subject: [PATCH 005/120] fix: do not report a binary message following a
 proprietary one as proprietary

---
 src/decoders/oem/src/framer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index a5d0119..f98cce0 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -98,6 +98,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
             switch (ucDataByte)
             {
             case OEM4_BINARY_SYNC1:
+                stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN; // A previous PROPRIETARY_BINARY must not be carried over
                 CalculateCharacterCrc32(uiMyCalculatedCrc32, ucDataByte);
                 eMyFrameState = NovAtelFrameState::WAITING_FOR_BINARY_SYNC2;
                 break;
-- 
2.43.0


From 357c303a01d142eb05357df6621f54b880bae8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:37 +0000
Subject: [PATCH 006/120] fix: restart a framer whose bytes the framer manager
 keeps for another framer

With the all-format framer next to a single-format one, the kept scan position
made it report frames with leading unknown bytes, or miss messages.
---
 src/decoders/common/src/framer_manager.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/decoders/common/src/framer_manager.cpp b/src/decoders/common/src/framer_manager.cpp
index 8fb41bb..c6bf363 100644
--- a/src/decoders/common/src/framer_manager.cpp
+++ b/src/decoders/common/src/framer_manager.cpp
@@ -141,8 +141,15 @@ STATUS FramerManager::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameB
                 // If a framer sees a valid, complete frame, then use it immediately
                 if (eStatus == STATUS::SUCCESS) { break; }
             }
-            // Track the smallest offset among framers with UNKNOWN statuses to possibly discard unknown bytes later
-            else if (currentMetaData->uiLength < bestOffset) { bestOffset = currentMetaData->uiLength; }
+            else
+            {
+                // The framer rejected bytes that may stay in the buffer on behalf of another framer, so it must start over next time
+                framer.framerInstance->InitAttributes();
+                framer.framerInstance->ResetState();
+
+                // Track the smallest offset among framers with UNKNOWN statuses to possibly discard unknown bytes later
+                if (currentMetaData->uiLength < bestOffset) { bestOffset = currentMetaData->uiLength; }
+            }
         }
 
         assert((bestStatus == STATUS::UNKNOWN && bestFramerIndex == registrySize) ||
-- 
2.43.0


From 9287a32e99b0a8331d5980d44072432a70c95d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:49 +0000
Subject: [PATCH 007/120] fix: report no more unknown bytes than the caller's
 buffer can hold

---
 src/decoders/common/src/framer.cpp         | 14 ++++++++-
 src/decoders/common/src/framer_manager.cpp | 12 ++++++++
 src/decoders/oem/src/framer.cpp            | 36 ++++++++++++++--------
 3 files changed, 48 insertions(+), 14 deletions(-)

diff --git a/src/decoders/common/src/framer.cpp b/src/decoders/common/src/framer.cpp
index 66d3d06..036129a 100644
--- a/src/decoders/common/src/framer.cpp
+++ b/src/decoders/common/src/framer.cpp
@@ -40,7 +40,19 @@ using namespace novatel::edie;
     auto handleUnknown = [&](uint32_t length) -> STATUS {
         stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
         stMetaData_.uiLength = length;
-        if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, length); }
+        if (bMetadataOnly_) { return STATUS::UNKNOWN; }
+        if (bMyReportUnknownBytes)
+        {
+            // Unknown bytes that do not fit in the provided buffer are left for the next call
+            if (uiFrameBufferSize_ == 0)
+            {
+                InitAttributes();
+                ResetState();
+                return STATUS::BUFFER_FULL;
+            }
+            stMetaData_.uiLength = std::min(length, uiFrameBufferSize_);
+        }
+        HandleUnknownBytes(pucFrameBuffer_, stMetaData_.uiLength);
         return STATUS::UNKNOWN;
     };
 
diff --git a/src/decoders/common/src/framer_manager.cpp b/src/decoders/common/src/framer_manager.cpp
index c6bf363..a8d3faa 100644
--- a/src/decoders/common/src/framer_manager.cpp
+++ b/src/decoders/common/src/framer_manager.cpp
@@ -159,6 +159,18 @@ STATUS FramerManager::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameB
         if (bestFramerIndex == registrySize)
         {
             assert(bestOffset > 0 && bestOffset <= static_cast<uint32_t>(pclMyFixedBuffer->size()));
+            if (bMyReportUnknownBytes)
+            {
+                // Unknown bytes that do not fit in the provided buffer are left for the next call
+                if (uiFrameBufferSize_ == 0)
+                {
+                    stMetaData_ = &stMyMetaData;
+                    stMyMetaData.uiLength = bestOffset;
+                    stMyMetaData.eFormat = HEADER_FORMAT::UNKNOWN;
+                    return STATUS::BUFFER_FULL;
+                }
+                bestOffset = std::min(bestOffset, uiFrameBufferSize_);
+            }
             HandleUnknownBytes(pucFrameBuffer_, bestOffset);
             stMyMetaData.uiLength = bestOffset;
             stMyMetaData.eFormat = HEADER_FORMAT::UNKNOWN;
diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index f98cce0..dd7c3dd 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -26,6 +26,7 @@
 
 #include "novatel_edie/decoders/oem/framer.hpp"
 
+#include <algorithm>
 #include <charconv>
 
 #include "novatel_edie/decoders/common/framer_registration.hpp"
@@ -52,6 +53,25 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
     // Dereferencing the pointer in the loop is expensive, so we cache the reference here
     const auto& clInternalFrameBuffer = *pclMyBuffer;
 
+    // Unknown bytes that do not fit in the provided buffer are left for the next call
+    const auto reportUnknownBytes = [&](uint32_t uiUnknownBytes_) -> STATUS {
+        stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
+        stMetaData_.uiLength = uiUnknownBytes_;
+        if (bMetadataOnly_) { return STATUS::UNKNOWN; }
+        if (bMyReportUnknownBytes)
+        {
+            if (uiFrameBufferSize_ == 0)
+            {
+                InitAttributes();
+                ResetState();
+                return STATUS::BUFFER_FULL;
+            }
+            stMetaData_.uiLength = std::min(uiUnknownBytes_, uiFrameBufferSize_);
+        }
+        HandleUnknownBytes(pucFrameBuffer_, stMetaData_.uiLength);
+        return STATUS::UNKNOWN;
+    };
+
     // Loop buffer to complete NovAtel message
     while (eMyFrameState != NovAtelFrameState::COMPLETE_MESSAGE)
     {
@@ -72,8 +92,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
 
             if (uiMyByteCount == 0) { return STATUS::BUFFER_EMPTY; }
 
-            if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, uiMyByteCount); }
-            return STATUS::UNKNOWN;
+            return reportUnknownBytes(uiMyByteCount);
         }
 
         const unsigned char ucDataByte = clInternalFrameBuffer[uiMyByteCount++];
@@ -133,18 +152,9 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
             // If we have just encountered a sync byte and have read bytes before, we need to handle them
             if (eMyFrameState != NovAtelFrameState::WAITING_FOR_SYNC && uiMyByteCount > 1)
             {
-                stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
-                stMetaData_.uiLength = uiMyByteCount - 1;
-                if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, uiMyByteCount - 1); }
-                return STATUS::UNKNOWN;
-            }
-            if (uiMyByteCount > uiFrameBufferSize_)
-            {
-                stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
-                stMetaData_.uiLength = uiMyByteCount - 1;
-                if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, uiFrameBufferSize_); }
-                return STATUS::UNKNOWN;
+                return reportUnknownBytes(uiMyByteCount - 1);
             }
+            if (uiMyByteCount > uiFrameBufferSize_ && eMyFrameState == NovAtelFrameState::WAITING_FOR_SYNC) { return reportUnknownBytes(uiMyByteCount); }
             break;
 
         case NovAtelFrameState::WAITING_FOR_BINARY_SYNC2:
-- 
2.43.0


From 123d1d42158f6f4e364b155179f88beaf32bd867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:49 +0000
Subject: [PATCH 008/120] fix: return the payload of a binary message when only
 payloads are requested

---
 src/decoders/oem/src/framer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index dd7c3dd..1f05d04 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -300,7 +300,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                         stMetaData_.uiLength = uiMyExpectedPayloadLength;
                         if (!bMetadataOnly_)
                         {
-                            pclMyBuffer->erase_begin((uiMyExpectedMessageLength - uiMyExpectedPayloadLength) + OEM4_BINARY_CRC_LENGTH);
+                            pclMyBuffer->erase_begin(uiMyExpectedMessageLength - uiMyExpectedPayloadLength - OEM4_BINARY_CRC_LENGTH);
                             pclMyBuffer->copy_out(pucFrameBuffer_, stMetaData_.uiLength);
                             pclMyBuffer->erase_begin(uiMyExpectedPayloadLength + OEM4_BINARY_CRC_LENGTH);
                         }
-- 
2.43.0


From 678c6fd42a191557b4f8db2e9dab79ada94b97a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:49 +0000
Subject: [PATCH 009/120] fix: check the caller's buffer again when a binary
 message is completed

---
 src/decoders/oem/src/framer.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 1f05d04..29f994a 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -295,6 +295,17 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
             {
                 if (uiMyCalculatedCrc32 == 0)
                 {
+                    // The buffer may be smaller than the one that was provided when the header was framed
+                    if (uiFrameBufferSize_ < (bMyPayloadOnly ? uiMyExpectedPayloadLength : uiMyExpectedMessageLength))
+                    {
+                        stMetaData_.uiLength = bMyPayloadOnly ? uiMyExpectedPayloadLength : uiMyExpectedMessageLength;
+                        uiMyByteCount = 0;
+                        uiMyExpectedPayloadLength = 0;
+                        uiMyExpectedMessageLength = 0;
+                        ResetState();
+                        return STATUS::BUFFER_FULL;
+                    }
+
                     if (bMyPayloadOnly)
                     {
                         stMetaData_.uiLength = uiMyExpectedPayloadLength;
-- 
2.43.0


From f294db287396f3c8fb79e99f468e0f9a378fdd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:29 +0000
Subject: [PATCH 010/120] fix: copy field values without assuming the source is
 aligned

---
 include/novatel_edie/decoders/common/message_decoder.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index c1d772d..9e00ff6 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -280,7 +280,8 @@ class FixedFieldRegion
         static_assert(std::is_trivially_copyable_v<T>, "SetFieldValue only supports trivially copyable types");
         assert(!IsView() && "SetFieldValue() is not permitted on a non-owning FixedFieldRegion view");
         if (startIndex_ + (n * sizeof(T)) > byteRegion.size()) { throw std::runtime_error("SetFieldValue(): buffer overflow in FixedFieldRegion"); }
-        std::memcpy(byteRegion.data() + startIndex_, values_, n * sizeof(T));
+        const void* source = values_; // values_ may point into a raw message, so nothing may be assumed about its alignment
+        std::memcpy(byteRegion.data() + startIndex_, source, n * sizeof(T));
     }
 
     // ---------------------------------------------------------------------------
@@ -1143,7 +1144,8 @@ class CompositeField
 
             using BufferElementType = std::conditional_t<std::is_same_v<T, bool>, uint8_t, T>;
             std::vector<BufferElementType> values(n);
-            std::memcpy(values.data(), values_, n * sizeof(BufferElementType));
+            const void* source = values_; // values_ may point into a raw message, so nothing may be assumed about its alignment
+            std::memcpy(values.data(), source, n * sizeof(BufferElementType));
             varFields[startIndex_] = std::move(values);
         }
     }
-- 
2.43.0


From 4097ef2d8ddeefc4c7e3879dbe7288a94f87281d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:36 +0000
Subject: [PATCH 011/120] fix: count the encoded header and body against the
 caller's buffer size

---
 src/decoders/oem/src/encoder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 5f50735..9f8f6a4 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -451,8 +451,9 @@ Encoder::Encode(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, const
     }
 
     STATUS eStatus = EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, eHeaderFormat_, eFormat_);
-    pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
+    pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
 
     if (eFormat_ == ENCODE_FORMAT::JSON)
     {
@@ -463,6 +464,7 @@ Encoder::Encode(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, const
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
 
     pucTempEncodeBuffer += stMessageData_.uiMessageBodyLength;
+    uiBufferSize_ -= stMessageData_.uiMessageBodyLength;
 
     if (eFormat_ == ENCODE_FORMAT::JSON)
     {
-- 
2.43.0


From 552d2df8648599d0db5c5d30b2c96f408e12e6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:36 +0000
Subject: [PATCH 012/120] fix: do not report a full buffer while the encoded
 text still fits

---
 include/novatel_edie/decoders/common/encoder.hpp | 6 +-----
 src/decoders/oem/src/encoder.cpp                 | 2 ++
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 46affe8..fb23b31 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -119,16 +119,12 @@ template <typename BufferType, typename T>
     AssertWritableByteBuffer<BufferType>();
     static_assert(std::is_integral_v<std::decay_t<T>>, "Argument must be integral type.");
 
-    constexpr uint32_t maxDigits = sizeof(T) * 2;
-    const uint32_t requiredSpace = std::max(width, maxDigits);
-
-    if (uiBytesLeft_ < requiredSpace) { return false; }
-
     auto [end, ec] = std::to_chars(*buffer_, *buffer_ + uiBytesLeft_, arg, 16);
 
     if (ec != std::errc{}) { return false; }
 
     const auto num_digits = static_cast<uint32_t>(end - *buffer_);
+    if (uiBytesLeft_ < width) { return false; }
 
     if (num_digits < width)
     {
diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 9f8f6a4..a602555 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -557,6 +557,7 @@ Encoder::EncodeBody(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, c
         auto* pcTempBuffer = reinterpret_cast<char*>(pucTempBuffer);
         if (!EncodeAsciiBody<false>(stMessage_, fieldDefinitions, &pcTempBuffer, uiBufferSize_)) { return STATUS::BUFFER_FULL; }
         pcTempBuffer--; // Remove last delimiter ','
+        uiBufferSize_++;
         const uint32_t uiCrc = CalculateBlockCrc32(stMessageData_.pucMessageHeader + 1,
                                                    reinterpret_cast<unsigned char*>(pcTempBuffer) - stMessageData_.pucMessageHeader - 1);
         if (!CopyAllToBuffer(&pcTempBuffer, uiBufferSize_, '*', HexValue<uint32_t>{uiCrc, 8}, "\r\n")) { return STATUS::BUFFER_FULL; }
@@ -567,6 +568,7 @@ Encoder::EncodeBody(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, c
         auto* pcTempBuffer = reinterpret_cast<char*>(pucTempBuffer);
         if (!EncodeAsciiBody<true>(stMessage_, fieldDefinitions, &pcTempBuffer, uiBufferSize_)) { return STATUS::BUFFER_FULL; }
         pcTempBuffer--; // Remove last delimiter ' '
+        uiBufferSize_++;
         if (!CopyToBuffer(&pcTempBuffer, uiBufferSize_, "\r\n")) { return STATUS::BUFFER_FULL; }
         pucTempBuffer = reinterpret_cast<unsigned char*>(pcTempBuffer);
         break;
-- 
2.43.0


From e7c66c4296cbb7713c814c7fbcdb9dcc966dcea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:36 +0000
Subject: [PATCH 013/120] fix: encode alignment padding as zeros

---
 include/novatel_edie/decoders/common/encoder.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index fb23b31..3f0852a 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -330,10 +330,7 @@ template <typename Derived> class EncoderBase
         const auto alignPtr = [this](uint16_t fieldTypeLength_, const unsigned char* startBuf, unsigned char** ppucOutBuf_,
                                      uint32_t& uiBytesLeft_) -> bool {
             auto align = this->fMyAlignmentFunc(fieldTypeLength_, reinterpret_cast<uintptr_t>(startBuf), reinterpret_cast<uintptr_t>(*ppucOutBuf_));
-            if (align > uiBytesLeft_) { return false; }
-            *ppucOutBuf_ += align;
-            uiBytesLeft_ -= static_cast<uint32_t>(align);
-            return true;
+            return SetInBuffer(ppucOutBuf_, uiBytesLeft_, 0, static_cast<uint32_t>(align));
         };
 
         // Fast path: all-fixed message — single memcpy of the fixedFields blob
-- 
2.43.0


From a3a284d4e953b97f9052d8309c2cd78c7720c848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:02 +0000
Subject: [PATCH 014/120] fix: pad binary strings relative to their record and
 not to the address of the buffer

---
 include/novatel_edie/decoders/common/encoder.hpp | 9 +++++++--
 include/novatel_edie/decoders/oem/encoder.hpp    | 5 +++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 3f0852a..de9f3a7 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -312,6 +312,7 @@ template <typename Derived> class EncoderBase
     //----------------------------------------------------------------------------
     //! \brief Add padding after binary string fields to maintain alignment.
     //
+    //! \param[in] start_ The position the string's record starts at.
     //! \param[in, out] ptr_ A pointer to the encode buffer pointer to be padded
     //!     if necessary. Updated in place.
     //! \param[in, out] uiBytesLeft_ The number of bytes left in the buffer.
@@ -321,7 +322,11 @@ template <typename Derived> class EncoderBase
     //!     there was not enough space in the buffer.
     //! \see MessageDecoderBase::AddStringFieldPadding() for the corresponding decoder method.
     //----------------------------------------------------------------------------
-    virtual bool AddStringFieldPadding([[maybe_unused]] unsigned char** ptr, [[maybe_unused]] uint32_t& uiBytesLeft_) const { return true; }
+    virtual bool AddStringFieldPadding([[maybe_unused]] const unsigned char* start, [[maybe_unused]] unsigned char** ptr,
+                                       [[maybe_unused]] uint32_t& uiBytesLeft_) const
+    {
+        return true;
+    }
 
     template <bool Flatten>
     [[nodiscard]] bool EncodeBinaryBody(const CompositeField& stInterMessage_, const std::vector<BaseField::ConstPtr>& fieldDefinitions_,
@@ -431,7 +436,7 @@ template <typename Derived> class EncoderBase
                             if (remaining > 0 && !SetInBuffer(ppucOutBuf_, uiBytesLeft_, 0, remaining)) { return false; }
                         }
 
-                        if constexpr (std::is_same_v<ValueType, std::string>) { return AddStringFieldPadding(ppucOutBuf_, uiBytesLeft_); }
+                        if constexpr (std::is_same_v<ValueType, std::string>) { return AddStringFieldPadding(startBuf, ppucOutBuf_, uiBytesLeft_); }
                         return true;
                     },
                     stInterMessage_.GetVarFields()[fieldDefRef.index]);
diff --git a/include/novatel_edie/decoders/oem/encoder.hpp b/include/novatel_edie/decoders/oem/encoder.hpp
index 6b4d0a8..4ab21ab 100644
--- a/include/novatel_edie/decoders/oem/encoder.hpp
+++ b/include/novatel_edie/decoders/oem/encoder.hpp
@@ -52,6 +52,7 @@ class Encoder : public EncoderBase<Encoder>
     //! \brief Add padding after binary string fields to maintain alignment. OEM
     //!     strings maintain 4-byte alignment.
     //
+    //! \param[in] start_ The position the string's record starts at.
     //! \param[in, out] ptr_ A pointer to the encode buffer pointer to be padded
     //!     if necessary. Updated in place.
     //! \param[in, out] uiBytesLeft_ The number of bytes left in the buffer.
@@ -61,9 +62,9 @@ class Encoder : public EncoderBase<Encoder>
     //!     there was not enough space in the buffer.
     //! \see MessageDecoder::AddStringFieldPadding() for the corresponding decoder method.
     //----------------------------------------------------------------------------
-    bool AddStringFieldPadding(unsigned char** ptr, uint32_t& uiBytesLeft_) const override
+    bool AddStringFieldPadding(const unsigned char* start, unsigned char** ptr, uint32_t& uiBytesLeft_) const override
     {
-        if (!SetInBuffer(ptr, uiBytesLeft_, 0, 4 - (reinterpret_cast<uintptr_t>(*ptr) % 4))) return false;
+        if (!SetInBuffer(ptr, uiBytesLeft_, 0, 4 - static_cast<uint32_t>((*ptr - start) % 4))) return false;
         return true;
     }
 
-- 
2.43.0


From 4a1533016260dde16a1f72dd532d30fba77c22c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:02 +0000
Subject: [PATCH 015/120] fix: align the elements of field arrays when encoding
 binary

---
 include/novatel_edie/decoders/common/encoder.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index de9f3a7..6d09d5f 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -415,6 +415,8 @@ template <typename Derived> class EncoderBase
                         {
                             for (const auto& element : fieldVector)
                             {
+                                // Each element starts aligned, as the decoder expects
+                                if (!alignPtr(fieldDefRef.dataType.length, startBuf, ppucOutBuf_, uiBytesLeft_)) { return false; }
                                 if (!EncodeBinaryBody<Flatten>(element, fieldArrayFieldDef->fieldInfo->messageOrderedFields, ppucOutBuf_,
                                                                uiBytesLeft_))
                                 {
-- 
2.43.0


From f78f552a29c3da39691697e1e196e06f17a32853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:47 +0000
Subject: [PATCH 016/120] fix: decode no more bytes than a binary message
 contains

---
 src/decoders/common/src/message_decoder.cpp | 88 ++++++++++++++++++---
 1 file changed, 79 insertions(+), 9 deletions(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index cdfb43b..70eed9f 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -27,6 +27,7 @@
 #include "novatel_edie/decoders/common/message_decoder.hpp"
 
 #include <cassert>
+#include <cstring>
 
 #include <simdjson.h>
 
@@ -268,6 +269,40 @@ void MessageDecoderBase::DecodeBinaryField(const BaseField& pstMessageDataType_,
 template void MessageDecoderBase::DecodeBinaryField<true>(const BaseField&, const unsigned char**, CompositeField&, size_t);
 template void MessageDecoderBase::DecodeBinaryField<false>(const BaseField&, const unsigned char**, CompositeField&, size_t);
 
+// -------------------------------------------------------------------------------------------------------
+static void SetDefaultValues(std::vector<BaseField::ConstPtr>::const_iterator first_, std::vector<BaseField::ConstPtr>::const_iterator last_,
+                             CompositeField& clCompField_)
+{
+    for (; first_ != last_; ++first_)
+    {
+        const BaseField& field = **first_;
+        switch (field.type)
+        {
+        case FIELD_TYPE::VARIABLE_LENGTH_ARRAY:
+            SimpleTypeVisitor(field, [&](auto tag) {
+                using T = std::decay_t<decltype(tag)>;
+                clCompField_.SetFieldValue<false>(field.index, std::vector<std::conditional_t<std::is_same_v<T, bool>, uint8_t, T>>{});
+            });
+            break;
+        case FIELD_TYPE::RESPONSE_STR: [[fallthrough]];
+        case FIELD_TYPE::STRING: clCompField_.SetFieldValue<false>(field.index, std::string{}); break;
+        case FIELD_TYPE::FIELD_ARRAY: {
+            const auto& fieldInfo = dynamic_cast<const FieldArrayField&>(field).fieldInfo;
+            if (fieldInfo->varFieldCount == 0 && fieldInfo->fixedFieldBytes != 0)
+            {
+                clCompField_.SetFieldValue(field, FlatFieldArray(0, fieldInfo.get()));
+            }
+            else { clCompField_.SetFieldValue(field, CompositeFieldArray{}); }
+            break;
+        }
+        default: {
+            const std::vector<std::byte> zeros(clCompField_.GetFieldByteSize(field));
+            if (!zeros.empty()) { clCompField_.SetFieldValue<true>(field.index, zeros.data(), zeros.size()); }
+        }
+        }
+    }
+}
+
 // -------------------------------------------------------------------------------------------------------
 STATUS
 MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned char** ppucLogBuf_, CompositeField& clCompField_,
@@ -275,15 +310,32 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
 {
     const unsigned char* pucTempStart = *ppucLogBuf_;
 
-    for (const auto& field : vMsgDefFields_.messageOrderedFields)
+    // Whether the message still contains the given number of bytes
+    const auto contains = [&](const size_t bytes_) {
+        const auto consumed = static_cast<size_t>(*ppucLogBuf_ - pucTempStart);
+        return consumed <= uiMessageLength_ && bytes_ <= uiMessageLength_ - consumed;
+    };
+    // Whether the message still contains the length of an array, which is aligned when it is part of the message
+    const auto containsArrayLength = [&](const ArrayField& arrayDef_) {
+        return !arrayDef_.arrayLengthRef.empty() ||
+               contains(arrayDef_.arrayLengthFieldSize + fMyAlignmentFunc(arrayDef_.arrayLengthFieldSize, reinterpret_cast<uintptr_t>(pucTempStart),
+                                                                          reinterpret_cast<uintptr_t>(*ppucLogBuf_)));
+    };
+
+    for (auto it = vMsgDefFields_.messageOrderedFields.begin(); it != vMsgDefFields_.messageOrderedFields.end(); ++it)
     {
+        const auto& field = *it;
         auto fieldTypeLength = static_cast<uint8_t>(field->dataType.length);
         *ppucLogBuf_ += fMyAlignmentFunc(fieldTypeLength, reinterpret_cast<uintptr_t>(pucTempStart), reinterpret_cast<uintptr_t>(*ppucLogBuf_));
 
         switch (field->type)
         {
-        case FIELD_TYPE::SIMPLE: DecodeBinaryField<true>(*field, ppucLogBuf_, clCompField_, 1); break;
+        case FIELD_TYPE::SIMPLE:
+            if (!contains(field->dataType.length)) { return STATUS::MALFORMED_INPUT; }
+            DecodeBinaryField<true>(*field, ppucLogBuf_, clCompField_, 1);
+            break;
         case FIELD_TYPE::ENUM:
+            if (!contains(field->dataType.length)) { return STATUS::MALFORMED_INPUT; }
             switch (field->dataType.length)
             {
             case 1: clCompField_.SetFieldValue<true>(field->index, LoadValueFromBuffer<uint8_t>(*ppucLogBuf_)); break;
@@ -296,10 +348,12 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
             *ppucLogBuf_ += field->dataType.length;
             break;
         case FIELD_TYPE::RESPONSE_ID:
+            if (!contains(sizeof(int32_t))) { return STATUS::MALFORMED_INPUT; }
             clCompField_.SetFieldValue<true>(field->index, LoadValueFromBuffer<int32_t>(*ppucLogBuf_));
             *ppucLogBuf_ += sizeof(int32_t);
             break;
         case FIELD_TYPE::RESPONSE_STR: {
+            if (uiMessageLength_ < sizeof(int32_t) || !contains(uiMessageLength_ - sizeof(int32_t))) { return STATUS::MALFORMED_INPUT; }
             std::string_view sTemp(reinterpret_cast<const char*>(*ppucLogBuf_), uiMessageLength_ - sizeof(int32_t)); // Remove CRC
             clCompField_.SetFieldValue<false>(field->index, std::string(sTemp));
             // Binary response string is not null terminated or 4 byte aligned
@@ -308,17 +362,24 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
         }
         case FIELD_TYPE::FIXED_LENGTH_ARRAY: {
             const uint32_t uiArraySize = dynamic_cast<const ArrayField*>(field.get())->arrayLength;
+            if (!contains(static_cast<size_t>(uiArraySize) * field->dataType.length)) { return STATUS::MALFORMED_INPUT; }
             DecodeBinaryField<true>(*field, ppucLogBuf_, clCompField_, uiArraySize);
             break;
         }
         case FIELD_TYPE::VARIABLE_LENGTH_ARRAY: {
-            const uint32_t uiArraySize = GetArrayLength(pucTempStart, ppucLogBuf_, dynamic_cast<const ArrayField&>(*field), clCompField_);
+            const auto& arrayDef = dynamic_cast<const ArrayField&>(*field);
+            if (!containsArrayLength(arrayDef)) { return STATUS::MALFORMED_INPUT; }
+            const uint32_t uiArraySize = GetArrayLength(pucTempStart, ppucLogBuf_, arrayDef, clCompField_);
+            if (!contains(static_cast<size_t>(uiArraySize) * field->dataType.length)) { return STATUS::MALFORMED_INPUT; }
             DecodeBinaryField<false>(*field, ppucLogBuf_, clCompField_, uiArraySize);
             break;
         }
         case FIELD_TYPE::STRING: {
-            // This version of a string is different. It is hopefully null terminated.
-            std::string_view sTemp(reinterpret_cast<const char*>(*ppucLogBuf_));
+            // This version of a string is different. It is null terminated.
+            if (!contains(1)) { return STATUS::MALFORMED_INPUT; }
+            const void* pvTerminator = std::memchr(*ppucLogBuf_, 0, uiMessageLength_ - (*ppucLogBuf_ - pucTempStart));
+            if (pvTerminator == nullptr) { return STATUS::MALFORMED_INPUT; }
+            std::string_view sTemp(reinterpret_cast<const char*>(*ppucLogBuf_), static_cast<const unsigned char*>(pvTerminator) - *ppucLogBuf_);
             clCompField_.SetFieldValue<false>(field->index, std::string(sTemp));
             *ppucLogBuf_ += sTemp.size() + 1; // + 1 to consume the NULL at the end of the string.
             AddStringFieldPadding(pucTempStart, ppucLogBuf_);
@@ -332,11 +393,15 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
                 return STATUS::MALFORMED_INPUT;
             }
             const auto* subFieldDefinitions = fieldArrayDef.get();
+            if (!containsArrayLength(*subFieldDefinitions)) { return STATUS::MALFORMED_INPUT; }
             const uint32_t uiArraySize = GetArrayLength(pucTempStart, ppucLogBuf_, *subFieldDefinitions, clCompField_);
+            // No element is smaller than a byte
+            if (!contains(uiArraySize)) { return STATUS::MALFORMED_INPUT; }
 
             if (subFieldDefinitions->fieldInfo->varFieldCount == 0)
             {
-                const size_t totalBytes = uiArraySize * subFieldDefinitions->fieldInfo->fixedFieldBytes;
+                const size_t totalBytes = static_cast<size_t>(uiArraySize) * subFieldDefinitions->fieldInfo->fixedFieldBytes;
+                if (!contains(totalBytes)) { return STATUS::MALFORMED_INPUT; }
                 // Store flat FIELD_ARRAY directly as std::vector<std::byte>
                 std::vector<std::byte> flatFieldData(reinterpret_cast<const std::byte*>(*ppucLogBuf_),
                                                      reinterpret_cast<const std::byte*>(*ppucLogBuf_) + totalBytes);
@@ -354,7 +419,7 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
                         CompositeField(subFieldDefinitions->fieldInfo->fixedFieldBytes, subFieldDefinitions->fieldInfo->varFieldCount);
                     vFieldArrayContainer[i].SetFieldInfo(subFieldDefinitions->fieldInfo);
                     STATUS eStatus = DecodeBinary(*subFieldDefinitions->fieldInfo, ppucLogBuf_, vFieldArrayContainer[i],
-                                                  uiMessageLength_ - static_cast<uint32_t>(*ppucLogBuf_ - pucTempStart));
+                                                  contains(0) ? uiMessageLength_ - static_cast<uint32_t>(*ppucLogBuf_ - pucTempStart) : 0);
                     if (eStatus != STATUS::SUCCESS) { return eStatus; }
                 }
                 clCompField_.SetFieldValue(*field, std::move(vFieldArrayContainer));
@@ -366,7 +431,12 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
             throw std::runtime_error("DecodeBinary(): Unknown field type\n");
         }
 
-        if (*ppucLogBuf_ - pucTempStart >= static_cast<int32_t>(uiMessageLength_)) { return STATUS::SUCCESS; }
+        // A message may end before the last fields of its definition, which are then left at their default value
+        if (!contains(1))
+        {
+            SetDefaultValues(it + 1, vMsgDefFields_.messageOrderedFields.end(), clCompField_);
+            return STATUS::SUCCESS;
+        }
     }
     return STATUS::SUCCESS;
 }
@@ -952,7 +1022,7 @@ MessageDecoderBase::Decode(const unsigned char* pucMessage_, CompositeField& stI
     }
     case HEADER_FORMAT::BINARY: [[fallthrough]];
     case HEADER_FORMAT::SHORT_BINARY:
-        if (msgFieldInfo.varFieldCount == 0)
+        if (msgFieldInfo.varFieldCount == 0 && msgFieldInfo.fixedFieldBytes <= stMetaData_.uiBinaryMsgLength)
         {
             // Fast path: if there are no variable-length fields, copy the entire message to the fixed region
             stInterMessage_.SetFieldValue<true>(0, reinterpret_cast<const std::byte*>(pucTempInData), msgFieldInfo.fixedFieldBytes);
-- 
2.43.0


From cd1b40d8a31326e40314516e456cfd3ac7704a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:47 +0000
Subject: [PATCH 017/120] fix: treat a field without a size as aligned

---
 include/novatel_edie/decoders/oem/common.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/novatel_edie/decoders/oem/common.hpp b/include/novatel_edie/decoders/oem/common.hpp
index 2fe8bc8..1805ced 100644
--- a/include/novatel_edie/decoders/oem/common.hpp
+++ b/include/novatel_edie/decoders/oem/common.hpp
@@ -131,6 +131,7 @@ enum class CONSTELLATION
 //-----------------------------------------------------------------------
 inline size_t OemAlignmentFunction(const size_t size, const uintptr_t start, const uintptr_t ptr)
 {
+    if (size == 0) { return 0; }
     size_t alignment = std::min(size_t{4}, size);
     size_t offset = (ptr - start) % alignment;
     return offset == 0 ? 0 : alignment - offset;
-- 
2.43.0


From 665d64b2f19b907e43027953b4efd48c740b9ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:55 +0000
Subject: [PATCH 018/120] fix: read boolean fields that hold a byte other than
 0 or 1

---
 .../decoders/common/message_decoder.hpp            | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index 9e00ff6..f75b510 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -261,9 +261,17 @@ class FixedFieldRegion
     template <typename T> [[nodiscard]] T Load(size_t byteOffset_) const
     {
         static_assert(std::is_trivially_copyable_v<T> && !is_specialization_of_v<T, TypedBuffer>, "Load only supports trivially copyable types");
-        T value;
-        std::memcpy(&value, data() + byteOffset_, sizeof(T));
-        return value;
+        if constexpr (std::is_same_v<T, bool>)
+        {
+            // A message may hold any byte, but a bool may only hold 0 or 1
+            return Load<uint8_t>(byteOffset_) != 0;
+        }
+        else
+        {
+            T value;
+            std::memcpy(&value, data() + byteOffset_, sizeof(T));
+            return value;
+        }
     }
 
     // ---------------------------------------------------------------------------
-- 
2.43.0


From b6b801744aefa7544ef1d1953877e0ccbbee68c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:16 +0000
Subject: [PATCH 019/120] fix: encode %Z arrays of unsigned characters as the
 hexadecimal digits they are decoded from

---
 src/decoders/oem/src/encoder.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index a602555..7b8fc7e 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -82,6 +82,7 @@ void Encoder::InitFieldMaps()
     asciiFieldMap[CalculateBlockCrc32("UB")] = BasicIntMapEntry<uint8_t>();
     asciiFieldMap[CalculateBlockCrc32("B")] = BasicIntMapEntry<int8_t>();
     asciiFieldMap[CalculateBlockCrc32("XB")] = BasicHexMapEntry<uint8_t>(2);
+    asciiFieldMap[CalculateBlockCrc32("Z")] = BasicHexMapEntry<uint8_t>(2);
 
     asciiFieldMap[CalculateBlockCrc32("x")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                  const MessageDatabase&, size_t offset) {
-- 
2.43.0


From c6f589df7414e207752e592750705598edf80acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:16 +0000
Subject: [PATCH 020/120] fix: do not encode a binary message whose length its
 header cannot hold

---
 src/decoders/oem/src/encoder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 7b8fc7e..50c6eff 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -29,6 +29,7 @@
 #include <algorithm>
 #include <charconv>
 #include <cstring>
+#include <limits>
 
 #include "novatel_edie/decoders/oem/crc.hpp"
 
@@ -589,11 +590,13 @@ Encoder::EncodeBody(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, c
         // TODO: this block of code below is what's blocking us from moving this function to common (can solve this with dynamic casting or CRTP?)
         if (!IsShortHeaderFormat(eHeaderFormat_))
         {
+            if (pucTempBuffer - *ppucBuffer_ > std::numeric_limits<uint16_t>::max()) { return STATUS::FAILURE; }
             auto usLength = static_cast<uint16_t>(pucTempBuffer - *ppucBuffer_);
             std::memcpy(stMessageData_.pucMessageHeader + offsetof(Oem4BinaryHeader, usLength), &usLength, sizeof(usLength));
         }
         else
         {
+            if (pucTempBuffer - *ppucBuffer_ > std::numeric_limits<uint8_t>::max()) { return STATUS::FAILURE; }
             auto ucLength = static_cast<uint8_t>(pucTempBuffer - *ppucBuffer_);
             std::memcpy(stMessageData_.pucMessageHeader + offsetof(Oem4BinaryShortHeader, ucLength), &ucLength, sizeof(ucLength));
         }
-- 
2.43.0


From f8d60a958acca0f0c0ad7f9c1be4ebc7660adbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:16 +0000
Subject: [PATCH 021/120] fix: encode variable-length arrays of characters as
 text

---
 include/novatel_edie/decoders/common/encoder.hpp | 11 +++++++++--
 src/decoders/oem/src/encoder.cpp                 | 12 +++++++-----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 6d09d5f..3718181 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -267,6 +267,13 @@ template <typename BufferType, typename... Args>
     return success;
 }
 
+// -------------------------------------------------------------------------------------------------------
+inline uint8_t GetCharacter(const BaseField& fd_, const CompositeField& cf_, size_t index_)
+{
+    return fd_.dataType.name == DATA_TYPE::CHAR ? static_cast<uint8_t>(cf_.GetFieldValue<int8_t>(fd_, index_))
+                                                : cf_.GetFieldValue<uint8_t>(fd_, index_);
+}
+
 // -------------------------------------------------------------------------------------------------------
 template <typename T>
 std::function<bool(const BaseField&, const CompositeField&, char**, uint32_t&, const MessageDatabase&, size_t)> BasicIntMapEntry()
@@ -553,7 +560,7 @@ template <typename Derived> class EncoderBase
             for (size_t i = 0; i < count; i++)
             {
                 if (fieldDefRef_.isString && (fieldDefRef_.dataType.name == DATA_TYPE::CHAR || fieldDefRef_.dataType.name == DATA_TYPE::UCHAR) &&
-                    cf_.GetFieldValue<uint8_t>(*arrayFieldDef, i) == 0)
+                    GetCharacter(*arrayFieldDef, cf_, i) == 0)
                 {
                     break;
                 }
@@ -734,7 +741,7 @@ template <typename Derived> class EncoderBase
             for (size_t i = 0; i < count; i++)
             {
                 if (fieldDefRef_.isString && (fieldDefRef_.dataType.name == DATA_TYPE::CHAR || fieldDefRef_.dataType.name == DATA_TYPE::UCHAR) &&
-                    cf_.GetFieldValue<uint8_t>(*arrayFieldDef, i) == 0)
+                    GetCharacter(*arrayFieldDef, cf_, i) == 0)
                 {
                     break;
                 }
diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 50c6eff..5d6f55b 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -127,8 +127,7 @@ void Encoder::InitFieldMaps()
 
     asciiFieldMap[CalculateBlockCrc32("P")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                  const MessageDatabase&, size_t offset) {
-        const uint8_t uiValue = fd_.dataType.name == DATA_TYPE::CHAR ? static_cast<uint8_t>(cf_.GetFieldValue<int8_t>(fd_, offset))
-                                                                     : cf_.GetFieldValue<uint8_t>(fd_, offset);
+        const uint8_t uiValue = GetCharacter(fd_, cf_, offset);
         if (uiValue == '\\') { return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, "\\\\"); }
         if (uiValue > 31 && uiValue < 127) { return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, static_cast<char>(uiValue)); }
         return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, "\\x") && WriteHexToBuffer(ppcOutBuf_, uiBytesLeft_, uiValue, 2);
@@ -181,7 +180,7 @@ void Encoder::InitFieldMaps()
 
     asciiFieldMap[CalculateBlockCrc32("c")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                  const MessageDatabase&, size_t offset) {
-        if (fd_.dataType.length == 1) { return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, static_cast<char>(cf_.GetFieldValue<uint8_t>(fd_, offset))); }
+        if (fd_.dataType.length == 1) { return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, static_cast<char>(GetCharacter(fd_, cf_, offset))); }
         if (fd_.dataType.length == 4 && fd_.dataType.name == DATA_TYPE::ULONG)
         {
             return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, static_cast<char>(cf_.GetFieldValue<uint32_t>(fd_, offset)));
@@ -192,7 +191,10 @@ void Encoder::InitFieldMaps()
     // =========================================================
     // Json Field Mapping
     // =========================================================
-    jsonFieldMap[CalculateBlockCrc32("P")] = BasicIntMapEntry<uint8_t>();
+    jsonFieldMap[CalculateBlockCrc32("P")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
+                                                const MessageDatabase&, size_t offset) {
+        return WriteIntToBuffer(ppcOutBuf_, uiBytesLeft_, GetCharacter(fd_, cf_, offset));
+    };
 
     jsonFieldMap[CalculateBlockCrc32("T")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                 const MessageDatabase&, size_t offset) {
@@ -271,7 +273,7 @@ void Encoder::InitFieldMaps()
                                                 const MessageDatabase&, size_t offset) {
         if (fd_.dataType.length == 1)
         {
-            return CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', static_cast<char>(cf_.GetFieldValue<uint8_t>(fd_, offset)), '"');
+            return CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', static_cast<char>(GetCharacter(fd_, cf_, offset)), '"');
         }
         if (fd_.dataType.length == 4 && fd_.dataType.name == DATA_TYPE::ULONG)
         {
-- 
2.43.0


From cb5fcac1bf0e00625f4296f39d1e99010dcb7a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:16 +0000
Subject: [PATCH 022/120] fix: choose the notation of numbers whose conversion
 is wider than 15 characters without reading past a table

---
 include/novatel_edie/decoders/common/encoder.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 3718181..a5fae0a 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -29,6 +29,7 @@
 
 #include <array>
 #include <charconv>
+#include <cmath>
 #include <cstdarg>
 #include <functional>
 #include <optional>
@@ -92,11 +93,12 @@ template <typename T> inline std::chars_format FloatingPointFormat(const BaseFie
 
     if (!fd_.width.has_value()) { return std::chars_format::scientific; }
 
-    const auto width = fd_.width.value();
+    const auto width = static_cast<size_t>(fd_.width.value());
     const auto absVal = std::abs(val_);
+    const double upper = width < powLookup.size() ? powLookup[width] : std::pow(10.0, static_cast<double>(width));
+    const double lower = width < npowLookup.size() ? npowLookup[width] : std::pow(10.0, -static_cast<double>(width));
 
-    return absVal >= std::numeric_limits<T>::min() && (absVal > powLookup[width] || absVal < npowLookup[width]) ? std::chars_format::scientific
-                                                                                                                : std::chars_format::fixed;
+    return absVal >= std::numeric_limits<T>::min() && (absVal > upper || absVal < lower) ? std::chars_format::scientific : std::chars_format::fixed;
 }
 
 // -------------------------------------------------------------------------------------------------------
-- 
2.43.0


From bc8d0d8ec216008c6e5a278fe98aef43f7668fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:16 +0000
Subject: [PATCH 023/120] fix: encode short headers of messages the database
 does not define

---
 src/decoders/oem/src/encoder.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 5d6f55b..7cfd1a0 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -350,7 +350,8 @@ bool Encoder::EncodeAsciiShortHeader(const IntermediateHeader& stInterHeader_, c
 {
     if (!CopyToBuffer(ppcOutBuf_, uiBytesLeft_, OEM4_SHORT_ASCII_SYNC)) { return false; }
 
-    std::string sMsgName(pclMyMsgDb->GetMsgDef(stInterHeader_.usMessageId)->name);
+    MessageDefinition::ConstPtr pclMessageDef = pclMyMsgDb->GetMsgDef(stInterHeader_.usMessageId);
+    std::string sMsgName(pclMessageDef != nullptr ? pclMessageDef->name : GetEnumString(vMyCommandDefinitions, stInterHeader_.usMessageId));
     const uint32_t uiResponse = (stInterHeader_.ucMessageType & static_cast<uint32_t>(MESSAGE_TYPE_MASK::RESPONSE)) >> 7;
     sMsgName.push_back(uiResponse != 0U ? 'R' : 'A'); // Append 'A' for ascii, or 'R' for ascii response
     AppendSiblingId(sMsgName, stInterHeader_);
@@ -368,7 +369,8 @@ bool Encoder::EncodeAbbrevAsciiShortHeader(const IntermediateHeader& stInterHead
 {
     if (!CopyToBuffer(ppcOutBuf_, uiBytesLeft_, OEM4_ABBREV_ASCII_SYNC)) { return false; }
 
-    std::string sMsgName(pclMyMsgDb->GetMsgDef(stInterHeader_.usMessageId)->name);
+    MessageDefinition::ConstPtr pclMessageDef = pclMyMsgDb->GetMsgDef(stInterHeader_.usMessageId);
+    std::string sMsgName(pclMessageDef != nullptr ? pclMessageDef->name : GetEnumString(vMyCommandDefinitions, stInterHeader_.usMessageId));
     AppendSiblingId(sMsgName, stInterHeader_);
 
     return CopyAllToBufferSeparated(ppcOutBuf_, uiBytesLeft_, OEM4_ABBREV_ASCII_SEPARATOR,                                 //
-- 
2.43.0


From 8de562962af095223b5cfb882ab525e41964fa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:09 +0000
Subject: [PATCH 024/120] fix: name unsigned one and two byte enumerators whose
 highest bit is set

---
 .../novatel_edie/decoders/common/encoder.hpp  | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index a5fae0a..ced37d2 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -276,6 +276,17 @@ inline uint8_t GetCharacter(const BaseField& fd_, const CompositeField& cf_, siz
                                                 : cf_.GetFieldValue<uint8_t>(fd_, index_);
 }
 
+// -------------------------------------------------------------------------------------------------------
+inline uint32_t GetEnumNumber(const BaseField& fd_, const CompositeField& cf_)
+{
+    uint32_t uiValue = 0;
+    SimpleTypeVisitor(fd_, [&](auto&& arg) { uiValue = static_cast<uint32_t>(cf_.GetFieldValue<std::decay_t<decltype(arg)>>(fd_)); });
+    // Enumerated fields are stored as signed numbers, which must not extend the sign of unsigned ones
+    if (fd_.dataType.name == DATA_TYPE::UCHAR || fd_.dataType.name == DATA_TYPE::HEXBYTE) { return uiValue & 0xFFU; }
+    if (fd_.dataType.name == DATA_TYPE::USHORT) { return uiValue & 0xFFFFU; }
+    return uiValue;
+}
+
 // -------------------------------------------------------------------------------------------------------
 template <typename T>
 std::function<bool(const BaseField&, const CompositeField&, char**, uint32_t&, const MessageDatabase&, size_t)> BasicIntMapEntry()
@@ -535,11 +546,7 @@ template <typename Derived> class EncoderBase
         {
             auto enumFieldPtr = dynamic_cast<const EnumField*>(&fieldDefRef_);
             if (!enumFieldPtr) return false;
-            std::string_view enumString;
-            SimpleTypeVisitor(fieldDefRef_, [&](auto&& arg) {
-                enumString =
-                    GetEnumString(enumFieldPtr->enumDef, static_cast<uint32_t>(cf_.GetFieldValue<std::decay_t<decltype(arg)>>(fieldDefRef_)));
-            });
+            const std::string_view enumString = GetEnumString(enumFieldPtr->enumDef, GetEnumNumber(fieldDefRef_, cf_));
             return CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, enumString, separator);
         }
 
@@ -716,11 +723,7 @@ template <typename Derived> class EncoderBase
         {
             auto enumFieldPtr = dynamic_cast<const EnumField*>(&fieldDefRef_);
             if (!enumFieldPtr) return false;
-            std::string_view enumString;
-            SimpleTypeVisitor(fieldDefRef_, [&](auto&& arg) {
-                enumString =
-                    GetEnumString(enumFieldPtr->enumDef, static_cast<uint32_t>(cf_.GetFieldValue<std::decay_t<decltype(arg)>>(fieldDefRef_)));
-            });
+            const std::string_view enumString = GetEnumString(enumFieldPtr->enumDef, GetEnumNumber(fieldDefRef_, cf_));
             return CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', enumString, "\",");
         }
 
-- 
2.43.0


From 08934174c62aa830e7dd4ca5fc1fea8dc72cefbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:47 +0000
Subject: [PATCH 025/120] fix: write infinities and NaNs as null in JSON

---
 .../novatel_edie/decoders/common/encoder.hpp  | 20 +++++++++++++++++++
 src/decoders/oem/src/encoder.cpp              | 14 ++++++-------
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index ced37d2..9d5e212 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -166,6 +166,24 @@ template <typename BufferType, typename T>
     return true;
 }
 
+// -------------------------------------------------------------------------------------------------------
+template <typename BufferType, typename T>
+[[nodiscard]] bool WriteJsonFloatToBuffer(BufferType* buffer_, uint32_t& uiBytesLeft_, const T value, std::chars_format format,
+                                          std::optional<int> precision)
+{
+    // JSON has no notation for infinities and NaNs
+    if (!std::isfinite(value))
+    {
+        constexpr std::string_view null = "null";
+        if (uiBytesLeft_ < null.size()) { return false; }
+        std::memcpy(*buffer_, null.data(), null.size());
+        *buffer_ += null.size();
+        uiBytesLeft_ -= static_cast<uint32_t>(null.size());
+        return true;
+    }
+    return WriteFloatToBuffer(buffer_, uiBytesLeft_, value, format, precision);
+}
+
 // -------------------------------------------------------------------------------------------------------
 template <typename BufferType>
 [[nodiscard]] inline bool SetInBuffer(BufferType* buffer_, uint32_t& uiBytesLeft_, const unsigned char iItem_, const uint32_t uiItemSize_)
@@ -501,10 +519,12 @@ template <typename Derived> class EncoderBase
         case DATA_TYPE::LONGLONG: return WriteIntToBuffer(ppcOutBuf_, uiBytesLeft_, cf_.GetFieldValue<int64_t>(fd_, index));
         case DATA_TYPE::FLOAT: {
             const auto v = cf_.GetFieldValue<float>(fd_, index);
+            if constexpr (Json) { return WriteJsonFloatToBuffer(ppcOutBuf_, uiBytesLeft_, v, FloatingPointFormat(fd_, v), fd_.precision); }
             return WriteFloatToBuffer(ppcOutBuf_, uiBytesLeft_, v, FloatingPointFormat(fd_, v), fd_.precision);
         }
         case DATA_TYPE::DOUBLE: {
             const auto v = cf_.GetFieldValue<double>(fd_, index);
+            if constexpr (Json) { return WriteJsonFloatToBuffer(ppcOutBuf_, uiBytesLeft_, v, FloatingPointFormat(fd_, v), fd_.precision); }
             return WriteFloatToBuffer(ppcOutBuf_, uiBytesLeft_, v, FloatingPointFormat(fd_, v), fd_.precision);
         }
         default:
diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 7cfd1a0..f915885 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -221,29 +221,29 @@ void Encoder::InitFieldMaps()
                                                 const MessageDatabase&, size_t offset) {
         if (fd_.dataType.length == 4)
         {
-            return WriteFloatToBuffer(ppcOutBuf_, uiBytesLeft_, cf_.GetFieldValue<float>(fd_, offset), std::chars_format::fixed, fd_.precision);
+            return WriteJsonFloatToBuffer(ppcOutBuf_, uiBytesLeft_, cf_.GetFieldValue<float>(fd_, offset), std::chars_format::fixed, fd_.precision);
         }
         if (fd_.dataType.length == 8)
         {
-            return WriteFloatToBuffer(ppcOutBuf_, uiBytesLeft_, cf_.GetFieldValue<double>(fd_, offset), std::chars_format::fixed, fd_.precision);
+            return WriteJsonFloatToBuffer(ppcOutBuf_, uiBytesLeft_, cf_.GetFieldValue<double>(fd_, offset), std::chars_format::fixed, fd_.precision);
         }
         return false;
     };
 
     jsonFieldMap[CalculateBlockCrc32("lf")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                  const MessageDatabase&, size_t offset) {
-        return WriteFloatToBuffer(ppcOutBuf_, uiBytesLeft_, cf_.GetFieldValue<double>(fd_, offset), std::chars_format::fixed, fd_.precision);
+        return WriteJsonFloatToBuffer(ppcOutBuf_, uiBytesLeft_, cf_.GetFieldValue<double>(fd_, offset), std::chars_format::fixed, fd_.precision);
     };
 
     jsonFieldMap[CalculateBlockCrc32("e")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                 const MessageDatabase&, size_t offset) {
         if (fd_.dataType.length == 4)
         {
-            return WriteFloatToBuffer(ppcOutBuf_, uiBytesLeft_, cf_.GetFieldValue<float>(fd_, offset), std::chars_format::scientific, fd_.precision);
+            return WriteJsonFloatToBuffer(ppcOutBuf_, uiBytesLeft_, cf_.GetFieldValue<float>(fd_, offset), std::chars_format::scientific, fd_.precision);
         }
         if (fd_.dataType.length == 8)
         {
-            return WriteFloatToBuffer(ppcOutBuf_, uiBytesLeft_, cf_.GetFieldValue<double>(fd_, offset), std::chars_format::scientific, fd_.precision);
+            return WriteJsonFloatToBuffer(ppcOutBuf_, uiBytesLeft_, cf_.GetFieldValue<double>(fd_, offset), std::chars_format::scientific, fd_.precision);
         }
         return false;
     };
@@ -253,13 +253,13 @@ void Encoder::InitFieldMaps()
     jsonFieldMap[CalculateBlockCrc32("k")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                 const MessageDatabase&, size_t offset) {
         const auto val = cf_.GetFieldValue<float>(fd_, offset);
-        return WriteFloatToBuffer(ppcOutBuf_, uiBytesLeft_, val, FloatingPointFormat(fd_, val), fd_.precision);
+        return WriteJsonFloatToBuffer(ppcOutBuf_, uiBytesLeft_, val, FloatingPointFormat(fd_, val), fd_.precision);
     };
 
     jsonFieldMap[CalculateBlockCrc32("lk")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                  const MessageDatabase&, size_t offset) {
         const auto val = cf_.GetFieldValue<double>(fd_, offset);
-        return WriteFloatToBuffer(ppcOutBuf_, uiBytesLeft_, val, FloatingPointFormat(fd_, val), fd_.precision);
+        return WriteJsonFloatToBuffer(ppcOutBuf_, uiBytesLeft_, val, FloatingPointFormat(fd_, val), fd_.precision);
     };
 
     jsonFieldMap[CalculateBlockCrc32("s")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
-- 
2.43.0


From 3deeeda673a756a75b38ac96c84171f5bd22fa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:47 +0000
Subject: [PATCH 026/120] fix: escape the characters of JSON strings

---
 .../novatel_edie/decoders/common/encoder.hpp  | 31 ++++++++++++++++++-
 src/decoders/oem/src/encoder.cpp              | 20 ++++++------
 2 files changed, 40 insertions(+), 11 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 9d5e212..70442e9 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -242,6 +242,31 @@ template <typename BufferType> [[nodiscard]] inline bool CopyToBuffer(BufferType
     return true;
 }
 
+// -------------------------------------------------------------------------------------------------------
+template <typename BufferType>
+[[nodiscard]] inline bool WriteJsonCharacters(BufferType* buffer_, uint32_t& uiBytesLeft_, std::string_view characters_)
+{
+    AssertWritableByteBuffer<BufferType>();
+    for (const char character : characters_)
+    {
+        // Quotes, backslashes and control characters may only occur escaped in a JSON string
+        if (character == '"' || character == '\\')
+        {
+            if (!CopyToBuffer(buffer_, uiBytesLeft_, '\\')) { return false; }
+        }
+        else if (static_cast<unsigned char>(character) < 0x20)
+        {
+            if (!CopyToBuffer(buffer_, uiBytesLeft_, "\\u") || !WriteHexToBuffer(buffer_, uiBytesLeft_, static_cast<uint8_t>(character), 4))
+            {
+                return false;
+            }
+            continue;
+        }
+        if (!CopyToBuffer(buffer_, uiBytesLeft_, character)) { return false; }
+    }
+    return true;
+}
+
 // -------------------------------------------------------------------------------------------------------
 template <typename BufferType, typename... Args> [[nodiscard]] bool CopyAllToBuffer(BufferType* buffer_, uint32_t& uiBytesLeft_, Args&&... args_)
 {
@@ -858,7 +883,11 @@ template <typename Derived> class EncoderBase
             case FIELD_TYPE::STRING: {
                 const auto value = clCompField_.GetVarFields()[fieldDefRef.index];
                 const auto& str = std::get<std::string>(value);
-                if (!CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', std::string_view(fieldDefRef.name), R"(": ")", str, "\",")) { return false; }
+                if (!CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', std::string_view(fieldDefRef.name), R"(": ")") ||
+                    !WriteJsonCharacters(ppcOutBuf_, uiBytesLeft_, str) || !CopyToBuffer(ppcOutBuf_, uiBytesLeft_, "\","))
+                {
+                    return false;
+                }
                 break;
             }
             case FIELD_TYPE::VARIABLE_LENGTH_ARRAY: [[fallthrough]];
diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index f915885..e28929a 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -264,22 +264,22 @@ void Encoder::InitFieldMaps()
 
     jsonFieldMap[CalculateBlockCrc32("s")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                 const MessageDatabase&, size_t offset) {
-        return CopyToBuffer(ppcOutBuf_, uiBytesLeft_,
-                            fd_.dataType.name == DATA_TYPE::UCHAR ? static_cast<char>(cf_.GetFieldValue<uint8_t>(fd_, offset))
-                                                                  : static_cast<char>(cf_.GetFieldValue<int8_t>(fd_, offset)));
+        const char cValue = fd_.dataType.name == DATA_TYPE::UCHAR ? static_cast<char>(cf_.GetFieldValue<uint8_t>(fd_, offset))
+                                                                  : static_cast<char>(cf_.GetFieldValue<int8_t>(fd_, offset));
+        return WriteJsonCharacters(ppcOutBuf_, uiBytesLeft_, std::string_view(&cValue, 1));
     };
 
     jsonFieldMap[CalculateBlockCrc32("c")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                 const MessageDatabase&, size_t offset) {
-        if (fd_.dataType.length == 1)
+        char cValue;
+        if (fd_.dataType.length == 1) { cValue = static_cast<char>(GetCharacter(fd_, cf_, offset)); }
+        else if (fd_.dataType.length == 4 && fd_.dataType.name == DATA_TYPE::ULONG)
         {
-            return CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', static_cast<char>(GetCharacter(fd_, cf_, offset)), '"');
+            cValue = static_cast<char>(cf_.GetFieldValue<uint32_t>(fd_, offset));
         }
-        if (fd_.dataType.length == 4 && fd_.dataType.name == DATA_TYPE::ULONG)
-        {
-            return CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', static_cast<char>(cf_.GetFieldValue<uint32_t>(fd_, offset)), '"');
-        }
-        return false;
+        else { return false; }
+        return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, '"') && WriteJsonCharacters(ppcOutBuf_, uiBytesLeft_, std::string_view(&cValue, 1)) &&
+               CopyToBuffer(ppcOutBuf_, uiBytesLeft_, '"');
     };
 }
 
-- 
2.43.0


From 8e9b8b27f27e5b65cda840f508353d5afec57411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:47 +0000
Subject: [PATCH 027/120] fix: encode responses as JSON

---
 include/novatel_edie/decoders/common/encoder.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 70442e9..f39ad23 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -893,6 +893,7 @@ template <typename Derived> class EncoderBase
             case FIELD_TYPE::VARIABLE_LENGTH_ARRAY: [[fallthrough]];
             case FIELD_TYPE::FIXED_LENGTH_ARRAY: [[fallthrough]];
             case FIELD_TYPE::ENUM: [[fallthrough]];
+            case FIELD_TYPE::RESPONSE_ID: [[fallthrough]];
             case FIELD_TYPE::SIMPLE:
                 if (!EncodeJsonField(fieldDefRef, clCompField_, ppcOutBuf_, uiBytesLeft_)) { return false; }
                 break;
-- 
2.43.0


From a4c572763053495380e2bd938f13e728fc7eee0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:47 +0000
Subject: [PATCH 028/120] fix: encode binary responses whose text is empty

---
 include/novatel_edie/decoders/common/encoder.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index f39ad23..6d66e3b 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -510,7 +510,8 @@ template <typename Derived> class EncoderBase
             else
             {
                 // All other fields (SIMPLE, ENUM, RESPONSE_ID, RESPONSE_STR, FIXED_LENGTH_ARRAY): copy bytes directly
-                // Note: the following check assumes none of the aforementioned field types can be empty
+                if (fieldDefRef.type == FIELD_TYPE::RESPONSE_STR && stInterMessage_.GetFieldSize(fieldDefRef) == 0) { continue; }
+                // Note: the following check assumes none of the remaining field types can be empty
                 if (!stInterMessage_.WriteFieldToBuffer(fieldDefRef, ppucOutBuf_, uiBytesLeft_)) { return false; }
             }
         }
-- 
2.43.0


From e294fd5327dddc31f7dd6b1aefb02df95e4ece55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:08 +0000
Subject: [PATCH 029/120] fix: encode messages without fields as ASCII and JSON

---
 include/novatel_edie/decoders/common/encoder.hpp | 2 ++
 src/decoders/oem/src/encoder.cpp                 | 7 +++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 6d66e3b..a6dcc11 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -902,6 +902,8 @@ template <typename Derived> class EncoderBase
             }
         }
 
+        // Without fields there is no trailing separator to replace
+        if (fieldDefinitions_.empty()) { return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, '}'); }
         *(*ppcOutBuf_ - 1) = '}';
         return true;
     }
diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index e28929a..56ad6e6 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -562,8 +562,11 @@ Encoder::EncodeBody(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, c
     case ENCODE_FORMAT::ASCII: {
         auto* pcTempBuffer = reinterpret_cast<char*>(pucTempBuffer);
         if (!EncodeAsciiBody<false>(stMessage_, fieldDefinitions, &pcTempBuffer, uiBufferSize_)) { return STATUS::BUFFER_FULL; }
-        pcTempBuffer--; // Remove last delimiter ','
-        uiBufferSize_++;
+        if (!fieldDefinitions.empty())
+        {
+            pcTempBuffer--; // Remove last delimiter ','
+            uiBufferSize_++;
+        }
         const uint32_t uiCrc = CalculateBlockCrc32(stMessageData_.pucMessageHeader + 1,
                                                    reinterpret_cast<unsigned char*>(pcTempBuffer) - stMessageData_.pucMessageHeader - 1);
         if (!CopyAllToBuffer(&pcTempBuffer, uiBufferSize_, '*', HexValue<uint32_t>{uiCrc, 8}, "\r\n")) { return STATUS::BUFFER_FULL; }
-- 
2.43.0


From 802788f1291f505298d5137c8f89fcb91c1831f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:08 +0000
Subject: [PATCH 030/120] fix: refuse to encode an ASCII body whose header is
 missing

---
 src/decoders/oem/src/encoder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 56ad6e6..1d7ebba 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -567,6 +567,8 @@ Encoder::EncodeBody(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, c
             pcTempBuffer--; // Remove last delimiter ','
             uiBufferSize_++;
         }
+        // MessageData must have a valid MessageHeader pointer to calculate the CRC.
+        if (stMessageData_.pucMessageHeader == nullptr) { return STATUS::FAILURE; }
         const uint32_t uiCrc = CalculateBlockCrc32(stMessageData_.pucMessageHeader + 1,
                                                    reinterpret_cast<unsigned char*>(pcTempBuffer) - stMessageData_.pucMessageHeader - 1);
         if (!CopyAllToBuffer(&pcTempBuffer, uiBufferSize_, '*', HexValue<uint32_t>{uiCrc, 8}, "\r\n")) { return STATUS::BUFFER_FULL; }
-- 
2.43.0


From b4264e7e456bd5cb2c6be13408f9fd3a38fd3a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:03 +0000
Subject: [PATCH 031/120] fix: recognize sibling numbers of two digits in
 message names

---
 src/decoders/common/src/message_database.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/decoders/common/src/message_database.cpp b/src/decoders/common/src/message_database.cpp
index d516881..33e4c47 100644
--- a/src/decoders/common/src/message_database.cpp
+++ b/src/decoders/common/src/message_database.cpp
@@ -26,6 +26,7 @@
 
 #include "novatel_edie/decoders/common/message_database.hpp"
 
+#include <charconv>
 #include <unordered_set>
 
 #include "novatel_edie/decoders/common/common.hpp"
@@ -64,10 +65,18 @@ uint32_t MessageDatabase::MsgNameToMsgId(std::string sMsgName_) const
     uint32_t uiResponse;
 
     // Ingest the sibling information, i.e. the _1 from LOGNAMEA_1
-    if (sMsgName_.find_last_of('_') != std::string::npos && sMsgName_.find_last_of('_') == sMsgName_.size() - 2)
+    const size_t ullSeparator = sMsgName_.find_last_of('_');
+    if (ullSeparator != std::string::npos)
     {
-        uiSiblingId = static_cast<uint32_t>(ToDigit(sMsgName_.back()));
-        sMsgName_.resize(sMsgName_.size() - 2);
+        constexpr uint32_t uiMaxSiblingId = static_cast<uint32_t>(MESSAGE_ID_MASK::MEASSRC) >> 16;
+        const char* pcEnd = sMsgName_.data() + sMsgName_.size();
+        uint32_t uiSuffix = 0;
+        const auto [pcParsed, eError] = std::from_chars(sMsgName_.data() + ullSeparator + 1, pcEnd, uiSuffix);
+        if (eError == std::errc() && pcParsed == pcEnd && uiSuffix <= uiMaxSiblingId)
+        {
+            uiSiblingId = uiSuffix;
+            sMsgName_.resize(ullSeparator);
+        }
     }
 
     // If this is an abbrev msg (no format information), we will be able to find the MsgDef
-- 
2.43.0


From b3edd021e0e2688d79ddba4357a8e107e472d052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:03 +0000
Subject: [PATCH 032/120] fix: treat an empty message name as unknown

---
 src/decoders/common/src/message_database.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decoders/common/src/message_database.cpp b/src/decoders/common/src/message_database.cpp
index 33e4c47..44fb36a 100644
--- a/src/decoders/common/src/message_database.cpp
+++ b/src/decoders/common/src/message_database.cpp
@@ -89,6 +89,8 @@ uint32_t MessageDatabase::MsgNameToMsgId(std::string sMsgName_) const
         return CreateMsgId(pclMessageDef->logID, uiSiblingId, uiMsgFormat, uiResponse);
     }
 
+    if (sMsgName_.empty()) { return 0; }
+
     switch (sMsgName_.back())
     {
     case 'R': // ASCII Response
-- 
2.43.0


From 153a4f660d3e04235c3189628b2624451fb609d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:03 +0000
Subject: [PATCH 033/120] fix: read a binary header only from messages that
 have one

---
 src/decoders/oem/src/header_decoder.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index 55a5a2d..092fd4d 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -284,10 +284,9 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
     if (pclMyMsgDb == nullptr) { return STATUS::NO_DATABASE; }
 
     const auto* pcTempBuf = reinterpret_cast<const char*>(pucLogBuf_);
-    auto stBinaryHeader = LoadValueFromBuffer<Oem4BinaryHeader>(pucLogBuf_);
 
     stMetaData_.eFormat = [&] {
-        switch (stBinaryHeader.ucSync1)
+        switch (pucLogBuf_[0])
         {
         case OEM4_ASCII_SYNC: return HEADER_FORMAT::ASCII;
         case OEM4_SHORT_ASCII_SYNC: return HEADER_FORMAT::SHORT_ASCII;
@@ -295,7 +294,7 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
         case NMEA_SYNC: return HEADER_FORMAT::NMEA;
         case '{': return HEADER_FORMAT::JSON;
         case OEM4_BINARY_SYNC1:
-            switch (stBinaryHeader.ucSync3)
+            switch (pucLogBuf_[2])
             {
             case OEM4_BINARY_SYNC3: return HEADER_FORMAT::BINARY;
             case OEM4_SHORT_BINARY_SYNC3: return HEADER_FORMAT::SHORT_BINARY;
@@ -367,7 +366,8 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
         }
         break;
 
-    case HEADER_FORMAT::BINARY:
+    case HEADER_FORMAT::BINARY: {
+        auto stBinaryHeader = LoadValueFromBuffer<Oem4BinaryHeader>(pucLogBuf_);
         stInterHeader_.usMessageId = stBinaryHeader.usMsgNumber;
         stInterHeader_.ucMessageType = stBinaryHeader.ucMsgType;
         stInterHeader_.uiPortAddress = stBinaryHeader.ucPort;
@@ -382,6 +382,7 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
         stInterHeader_.uiMessageDefinitionCrc = stBinaryHeader.usMsgDefCrc;
         pcTempBuf += sizeof(Oem4BinaryHeader);
         break;
+    }
 
     case HEADER_FORMAT::SHORT_BINARY: {
         // Reset the IntermediateHeader ucMessageType because can incorrectly set ucSiblingId and bResponse if it isn't
-- 
2.43.0


From 444f656cd8e7e2d3f625c0444ed67643beec79e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:03 +0000
Subject: [PATCH 034/120] fix: look for the fields of a text header on its own
 line only

---
 src/decoders/oem/src/header_decoder.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index 092fd4d..edbbd98 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -74,9 +74,10 @@ bool HeaderDecoder::DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, c
         return false;
     }
 
-    // Find next delimiter
-    const char* pcNextDelimiter = strchr(*ppcLogBuf_, pcDelimiter[0]);
-    if (pcNextDelimiter == nullptr)
+    // Find next delimiter, which cannot be beyond the end of the line
+    static constexpr char pcTerminators[] = {pcDelimiter[0], '\r', '\n', '\0'};
+    const char* pcNextDelimiter = *ppcLogBuf_ + std::strcspn(*ppcLogBuf_, pcTerminators);
+    if (*pcNextDelimiter != pcDelimiter[0])
     {
         SPDLOG_LOGGER_ERROR(pclMyLogger, "Message header could not be decoded as the expected field delimiter could not be found.");
         return false;
-- 
2.43.0


From 396a131e1f8e87306ef07f8557dd83e18a4fe0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:03 +0000
Subject: [PATCH 035/120] fix: decode the milliseconds of text headers exactly

---
 src/decoders/oem/src/header_decoder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index edbbd98..1c2ef3b 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -151,7 +151,8 @@ bool HeaderDecoder::DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, c
             pclMyLogger->debug("Failed to parse SECONDS.");
             return false;
         }
-        stInterHeader_.dMilliseconds = 1000.0 * dSeconds;
+        // Seconds are given to the millisecond, which need not be exact in binary
+        stInterHeader_.dMilliseconds = std::round(1000.0 * dSeconds);
         break;
     }
     case ASCII_HEADER::RECEIVER_STATUS: {
@@ -250,7 +251,7 @@ void HeaderDecoder::DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHe
     if (clJsonHeader_["week"].get(week) == simdjson::SUCCESS) { stInterHeader_.usWeek = static_cast<uint16_t>(week); }
 
     double seconds;
-    if (clJsonHeader_["seconds"].get(seconds) == simdjson::SUCCESS) { stInterHeader_.dMilliseconds = seconds * 1000.0; }
+    if (clJsonHeader_["seconds"].get(seconds) == simdjson::SUCCESS) { stInterHeader_.dMilliseconds = std::round(seconds * 1000.0); }
 
     int64_t receiverStatus;
     if (clJsonHeader_["receiver_status"].get(receiverStatus) == simdjson::SUCCESS)
-- 
2.43.0


From 7e02f9d3f9abef7eaf726f58558972dfaba3d3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:03 +0000
Subject: [PATCH 036/120] fix: do not keep the previous message's time status
 for short text headers

---
 src/decoders/oem/src/header_decoder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index 1c2ef3b..7db6178 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -351,6 +351,7 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
         {
             // Port field failed, so we (unsafely) assume this is short
             stMetaData_.eFormat = HEADER_FORMAT::SHORT_ABB_ASCII;
+            stInterHeader_.uiTimeStatus = static_cast<uint32_t>(TIME_STATUS::UNKNOWN);
             if (!DecodeAsciiHeaderField<pcAbbrevAsciiRegDelimiter, ASCII_HEADER::WEEK>(stInterHeader_, &pcTempBuf) ||
                 !DecodeAsciiHeaderField<pcAbbrevAsciiFinalDelimiter, ASCII_HEADER::SECONDS>(stInterHeader_, &pcTempBuf))
             {
@@ -361,6 +362,7 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
 
     case HEADER_FORMAT::SHORT_ASCII:
         ++pcTempBuf; // Move the input buffer past the sync char '%'
+        stInterHeader_.uiTimeStatus = static_cast<uint32_t>(TIME_STATUS::UNKNOWN);
         if (!DecodeAsciiHeaderFields<pcAsciiRegDelimiter, ASCII_HEADER::MESSAGE_NAME, ASCII_HEADER::WEEK>(stInterHeader_, &pcTempBuf) ||
             !DecodeAsciiHeaderField<pcAsciiFinalDelimiter, ASCII_HEADER::SECONDS>(stInterHeader_, &pcTempBuf))
         {
-- 
2.43.0


From 0d8a17d8b9b5d3d14907192cd775e6a35b93d21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:22 +0000
Subject: [PATCH 037/120] fix: report a failure for JSON messages without a
 header

---
 include/novatel_edie/decoders/oem/header_decoder.hpp |  2 +-
 src/decoders/oem/src/header_decoder.cpp              | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/header_decoder.hpp b/include/novatel_edie/decoders/oem/header_decoder.hpp
index 14500bc..6a6798d 100644
--- a/include/novatel_edie/decoders/oem/header_decoder.hpp
+++ b/include/novatel_edie/decoders/oem/header_decoder.hpp
@@ -87,7 +87,7 @@ class HeaderDecoder
     [[nodiscard]] bool DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, const char** ppcLogBuf_) const;
     template <const char pcDelimiter[], ASCII_HEADER... eFields>
     [[nodiscard]] bool DecodeAsciiHeaderFields(IntermediateHeader& stInterHeader_, const char** ppcLogBuf_) const;
-    void DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHeader& stInterHeader_) const;
+    [[nodiscard]] bool DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHeader& stInterHeader_) const;
 
   public:
     //----------------------------------------------------------------------------
diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index 7db6178..73efd9e 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -27,6 +27,8 @@
 #include "novatel_edie/decoders/oem/header_decoder.hpp"
 
 #include <charconv>
+#include <cmath>
+#include <cstring>
 
 #include <simdjson.h>
 
@@ -202,7 +204,7 @@ bool HeaderDecoder::DecodeAsciiHeaderFields(IntermediateHeader& stInterHeader_,
 }
 
 // -------------------------------------------------------------------------------------------------------
-void HeaderDecoder::DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHeader& stInterHeader_) const
+bool HeaderDecoder::DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHeader& stInterHeader_) const
 {
     simdjson::dom::parser parser;
     simdjson::dom::element doc;
@@ -211,7 +213,7 @@ void HeaderDecoder::DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHe
     if (error)
     {
         std::cerr << "JSON parsing error: " << error << '\n';
-        return;
+        return false;
     }
 
     // Access the "header" object
@@ -219,7 +221,7 @@ void HeaderDecoder::DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHe
     if (doc["header"].get(clJsonHeader_) != simdjson::SUCCESS)
     {
         std::cerr << "Error: JSON does not contain a 'header' object\n";
-        return;
+        return false;
     }
 
     // Decode the fields
@@ -270,6 +272,7 @@ void HeaderDecoder::DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHe
     {
         stInterHeader_.uiMessageDefinitionCrc = static_cast<uint32_t>(messageDefinitionCrc);
     }
+    return true;
 }
 
 // -------------------------------------------------------------------------------------------------------
@@ -403,7 +406,7 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
     case HEADER_FORMAT::JSON:
         try
         {
-            DecodeJsonHeader(pcTempBuf, stInterHeader_);
+            if (!DecodeJsonHeader(pcTempBuf, stInterHeader_)) { return STATUS::FAILURE; }
         }
         catch (std::exception& e)
         {
-- 
2.43.0


From fc9c6b3a733a10edaeab7aa629f53d1ddb599ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:22 +0000
Subject: [PATCH 038/120] fix: decode the sibling of JSON messages and do not
 keep the previous message's type

---
 src/decoders/oem/src/header_decoder.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index 73efd9e..2257d53 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -228,6 +228,19 @@ bool HeaderDecoder::DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHe
     int64_t messageId;
     if (clJsonHeader_["id"].get(messageId) == simdjson::SUCCESS) { stInterHeader_.usMessageId = static_cast<uint16_t>(messageId); }
 
+    // The sibling is only given by the message's name, the rest of the message type is not given at all
+    stInterHeader_.ucMessageType = 0;
+    std::string_view messageName;
+    if (clJsonHeader_["message"].get(messageName) == simdjson::SUCCESS)
+    {
+        uint16_t usLogId = 0;
+        uint32_t uiSiblingId = NULL_SIBLING_ID;
+        uint32_t uiMsgFormat = 0;
+        uint32_t uiResponse = 0;
+        UnpackMsgId(pclMyMsgDb->MsgNameToMsgId(std::string(messageName)), usLogId, uiSiblingId, uiMsgFormat, uiResponse);
+        stInterHeader_.ucMessageType = PackMsgType(uiSiblingId, 0, 0);
+    }
+
     std::string_view port;
     if (clJsonHeader_["port"].get(port) == simdjson::SUCCESS)
     {
@@ -244,6 +257,7 @@ bool HeaderDecoder::DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHe
     }
 
     std::string_view timeStatus;
+    stInterHeader_.uiTimeStatus = static_cast<uint32_t>(TIME_STATUS::UNKNOWN);
     if (clJsonHeader_["time_status"].get(timeStatus) == simdjson::SUCCESS)
     {
         stInterHeader_.uiTimeStatus = static_cast<uint32_t>(GetEnumValue(vMyGpsTimeStatusDefinitions, timeStatus));
-- 
2.43.0


From 95fd37778af89cdee953e0450f84e517f75fa312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:56 +0000
Subject: [PATCH 039/120] fix: reject text headers whose numbers are followed
 by other characters

---
 src/decoders/oem/src/header_decoder.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index 2257d53..0213e8f 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -112,7 +112,7 @@ bool HeaderDecoder::DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, c
     case ASCII_HEADER::SEQUENCE: {
         uint16_t usSequence = 0;
         auto result = std::from_chars(*ppcLogBuf_, *ppcLogBuf_ + ullTokenLength, usSequence);
-        if (result.ec != std::errc())
+        if (result.ec != std::errc() || result.ptr != pcNextDelimiter)
         {
             pclMyLogger->debug("Failed to parse SEQUENCE.");
             return false;
@@ -123,7 +123,7 @@ bool HeaderDecoder::DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, c
     case ASCII_HEADER::IDLE_TIME: {
         float fIdleTime = 0.0F;
         auto result = std::from_chars(*ppcLogBuf_, *ppcLogBuf_ + ullTokenLength, fIdleTime);
-        if (result.ec != std::errc())
+        if (result.ec != std::errc() || result.ptr != pcNextDelimiter)
         {
             pclMyLogger->debug("Failed to parse IDLE_TIME.");
             return false;
@@ -137,7 +137,7 @@ bool HeaderDecoder::DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, c
     case ASCII_HEADER::WEEK: {
         uint16_t usWeek = 0;
         auto result = std::from_chars(*ppcLogBuf_, *ppcLogBuf_ + ullTokenLength, usWeek);
-        if (result.ec != std::errc())
+        if (result.ec != std::errc() || result.ptr != pcNextDelimiter)
         {
             pclMyLogger->debug("Failed to parse WEEK.");
             return false;
@@ -148,7 +148,7 @@ bool HeaderDecoder::DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, c
     case ASCII_HEADER::SECONDS: {
         double dSeconds = 0.0;
         auto result = std::from_chars(*ppcLogBuf_, *ppcLogBuf_ + ullTokenLength, dSeconds);
-        if (result.ec != std::errc())
+        if (result.ec != std::errc() || result.ptr != pcNextDelimiter)
         {
             pclMyLogger->debug("Failed to parse SECONDS.");
             return false;
@@ -160,7 +160,7 @@ bool HeaderDecoder::DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, c
     case ASCII_HEADER::RECEIVER_STATUS: {
         uint32_t uiReceiverStatus = 0;
         auto result = std::from_chars(*ppcLogBuf_, *ppcLogBuf_ + ullTokenLength, uiReceiverStatus, 16);
-        if (result.ec != std::errc())
+        if (result.ec != std::errc() || result.ptr != pcNextDelimiter)
         {
             pclMyLogger->debug("Failed to parse RECEIVER_STATUS.");
             return false;
@@ -171,7 +171,7 @@ bool HeaderDecoder::DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, c
     case ASCII_HEADER::MSG_DEF_CRC: {
         uint32_t uiMessageDefinitionCrc = 0;
         auto result = std::from_chars(*ppcLogBuf_, *ppcLogBuf_ + ullTokenLength, uiMessageDefinitionCrc, 16);
-        if (result.ec != std::errc())
+        if (result.ec != std::errc() || result.ptr != pcNextDelimiter)
         {
             pclMyLogger->debug("Failed to parse MSG_DEF_CRC.");
             return false;
@@ -182,7 +182,7 @@ bool HeaderDecoder::DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, c
     case ASCII_HEADER::RECEIVER_SW_VERSION: {
         uint16_t usReceiverSwVersion = 0;
         auto result = std::from_chars(*ppcLogBuf_, *ppcLogBuf_ + ullTokenLength, usReceiverSwVersion);
-        if (result.ec != std::errc())
+        if (result.ec != std::errc() || result.ptr != pcNextDelimiter)
         {
             pclMyLogger->debug("Failed to parse RECEIVER_SW_VERSION.");
             return false;
-- 
2.43.0


From 63d158660950f384fe47711a628db2a631c9cfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:15 +0000
Subject: [PATCH 040/120] fix: reject text and JSON headers whose times are out
 of range

---
 src/decoders/oem/src/header_decoder.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index 0213e8f..4c3bf40 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -35,6 +35,10 @@
 using namespace novatel::edie;
 using namespace novatel::edie::oem;
 
+// The largest values of the idle time and the time of week that a header holds
+static constexpr float MAX_IDLE_TIME = 127.5F;
+static constexpr double MAX_MILLISECONDS = 4294967295.0;
+
 // -------------------------------------------------------------------------------------------------------
 HeaderDecoder::HeaderDecoder(MessageDatabase::Ptr pclMessageDb_)
 {
@@ -128,6 +132,7 @@ bool HeaderDecoder::DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, c
             pclMyLogger->debug("Failed to parse IDLE_TIME.");
             return false;
         }
+        if (fIdleTime > MAX_IDLE_TIME) { return false; }
         stInterHeader_.ucIdleTime = static_cast<uint8_t>(std::lround(2.0F * fIdleTime));
         break;
     }
@@ -155,6 +160,7 @@ bool HeaderDecoder::DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, c
         }
         // Seconds are given to the millisecond, which need not be exact in binary
         stInterHeader_.dMilliseconds = std::round(1000.0 * dSeconds);
+        if (stInterHeader_.dMilliseconds > MAX_MILLISECONDS) { return false; }
         break;
     }
     case ASCII_HEADER::RECEIVER_STATUS: {
@@ -253,6 +259,7 @@ bool HeaderDecoder::DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHe
     double percentIdleTime;
     if (clJsonHeader_["percent_idle_time"].get(percentIdleTime) == simdjson::SUCCESS)
     {
+        if (percentIdleTime < 0.0 || percentIdleTime > MAX_IDLE_TIME) { return false; }
         stInterHeader_.ucIdleTime = static_cast<uint8_t>(percentIdleTime * 2.0);
     }
 
@@ -267,7 +274,11 @@ bool HeaderDecoder::DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHe
     if (clJsonHeader_["week"].get(week) == simdjson::SUCCESS) { stInterHeader_.usWeek = static_cast<uint16_t>(week); }
 
     double seconds;
-    if (clJsonHeader_["seconds"].get(seconds) == simdjson::SUCCESS) { stInterHeader_.dMilliseconds = std::round(seconds * 1000.0); }
+    if (clJsonHeader_["seconds"].get(seconds) == simdjson::SUCCESS)
+    {
+        stInterHeader_.dMilliseconds = std::round(seconds * 1000.0);
+        if (!(stInterHeader_.dMilliseconds >= 0.0 && stInterHeader_.dMilliseconds <= MAX_MILLISECONDS)) { return false; }
+    }
 
     int64_t receiverStatus;
     if (clJsonHeader_["receiver_status"].get(receiverStatus) == simdjson::SUCCESS)
-- 
2.43.0


From 0cfaf66e1c6cb8f47b86881d50065f7155d172ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:12 +0000
Subject: [PATCH 041/120] fix: do not shift negative frequency channels when
 decoding satellite ids

---
 src/decoders/oem/src/message_decoder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/message_decoder.cpp b/src/decoders/oem/src/message_decoder.cpp
index 9a8f371..44b5b73 100644
--- a/src/decoders/oem/src/message_decoder.cpp
+++ b/src/decoders/oem/src/message_decoder.cpp
@@ -118,7 +118,7 @@ void MessageDecoder::InitOemFieldMaps()
             if (*pcDelimiter == '-') { sFreq = -sFreq; }
         }
 
-        const uint32_t uiSatId = usSlot | (sFreq << 16);
+        const uint32_t uiSatId = usSlot | (static_cast<uint32_t>(static_cast<uint16_t>(sFreq)) << 16);
         if (fixed_) { clCompField_.SetArrayElement<true>(pstMessageDataType_, elementIndex_, uiSatId); }
         else { clCompField_.SetArrayElement<false>(pstMessageDataType_, elementIndex_, uiSatId); }
     };
@@ -224,7 +224,7 @@ void MessageDecoder::InitOemFieldMaps()
             sFreq = 0;
         }
 
-        const uint32_t uiSatId = (usSlot | (sFreq << 16));
+        const uint32_t uiSatId = usSlot | (static_cast<uint32_t>(static_cast<uint16_t>(sFreq)) << 16);
         if (fixed_) { clCompField_.SetArrayElement<true>(pstMessageDataType_, elementIndex_, uiSatId); }
         else { clCompField_.SetArrayElement<false>(pstMessageDataType_, elementIndex_, uiSatId); }
     };
-- 
2.43.0


From a64e01b7261f0b07490529f42253bfd4e5926cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:36 +0000
Subject: [PATCH 042/120] fix: decode characters to the size of their field,
 and from the text JSON has for them

---
 src/decoders/oem/src/message_decoder.cpp | 33 +++++++++++++++++++++---
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/decoders/oem/src/message_decoder.cpp b/src/decoders/oem/src/message_decoder.cpp
index 44b5b73..d70cae1 100644
--- a/src/decoders/oem/src/message_decoder.cpp
+++ b/src/decoders/oem/src/message_decoder.cpp
@@ -51,6 +51,22 @@ MessageDecoder::MessageDecoder(const MessageDatabase::Ptr& pclMessageDb_) : Mess
     InitOemFieldMaps();
 }
 
+// -------------------------------------------------------------------------------------------------------
+// Store a character in a field, which is either one byte long or an unsigned long
+static void EmplaceCharacter(novatel::edie::CompositeField& clCompField_, const novatel::edie::BaseField& field_, const char cValue_,
+                             const size_t elementIndex_, const bool fixed_)
+{
+    const auto emplace = [&](const auto value_) {
+        if (fixed_) { clCompField_.SetArrayElement<true>(field_, elementIndex_, value_); }
+        else { clCompField_.SetArrayElement<false>(field_, elementIndex_, value_); }
+    };
+
+    const auto ucValue = static_cast<unsigned char>(cValue_);
+    if (field_.dataType.length != 1) { emplace(static_cast<uint32_t>(ucValue)); }
+    else if (field_.dataType.name == novatel::edie::DATA_TYPE::CHAR) { emplace(static_cast<int8_t>(ucValue)); }
+    else { emplace(static_cast<uint8_t>(ucValue)); }
+}
+
 // -------------------------------------------------------------------------------------------------------
 void MessageDecoder::InitOemFieldMaps()
 {
@@ -62,9 +78,7 @@ void MessageDecoder::InitOemFieldMaps()
                                                  [[maybe_unused]] MessageDatabase& pclMsgDb_) {
         // TODO: check that the character is printable
         // if (!isprint(**ppcToken_)) { throw ... }
-        const auto value = static_cast<uint32_t>(static_cast<unsigned char>(**ppcToken_));
-        if (fixed_) { clCompField_.SetArrayElement<true>(pstMessageDataType_, elementIndex_, value); }
-        else { clCompField_.SetArrayElement<false>(pstMessageDataType_, elementIndex_, value); }
+        EmplaceCharacter(clCompField_, pstMessageDataType_, **ppcToken_, elementIndex_, fixed_);
     };
     asciiFieldMap[CalculateBlockCrc32("k")] = SimpleAsciiMapEntry<float>();
     asciiFieldMap[CalculateBlockCrc32("lk")] = SimpleAsciiMapEntry<double>();
@@ -136,7 +150,18 @@ void MessageDecoder::InitOemFieldMaps()
     // =========================================================
     // Json Field Mapping
     // =========================================================
-    jsonFieldMap[CalculateBlockCrc32("c")] = SimpleJsonMapEntry<uint32_t>();
+    jsonFieldMap[CalculateBlockCrc32("c")] = [](CompositeField& clCompField_, const BaseField& pstMessageDataType_,
+                                                simdjson::dom::element clJsonField_, const size_t elementIndex_, const bool fixed_,
+                                                [[maybe_unused]] MessageDatabase& pclMsgDb_) {
+        std::string_view sValue;
+        uint64_t ullValue = 0;
+        if (clJsonField_.get(sValue) == simdjson::SUCCESS && sValue.size() == 1) { ullValue = static_cast<unsigned char>(sValue.front()); }
+        else if (clJsonField_.get(ullValue) != simdjson::SUCCESS)
+        {
+            throw std::runtime_error("Failed to decode JSON field '" + pstMessageDataType_.name + "'");
+        }
+        EmplaceCharacter(clCompField_, pstMessageDataType_, static_cast<char>(ullValue), elementIndex_, fixed_);
+    };
     jsonFieldMap[CalculateBlockCrc32("k")] = SimpleJsonMapEntry<float>();
     jsonFieldMap[CalculateBlockCrc32("lk")] = SimpleJsonMapEntry<double>();
 
-- 
2.43.0


From 15f114d2d770c7c4e6c71773620cf0b5c2fe923c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:37 +0000
Subject: [PATCH 043/120] fix: store decoded text arrays as elements of their
 type

---
 src/decoders/common/src/message_decoder.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 70eed9f..98fa8e2 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -535,6 +535,16 @@ static STATUS DecodeStringAsciiArray(std::string& sDecodedValue_, const char** p
     return STATUS::SUCCESS;
 }
 
+// Store the characters of a variable-length array as its elements
+static void SetStringArray(CompositeField& clCompField_, const BaseField& field_, std::string_view sValue_)
+{
+    if (field_.dataType.name == DATA_TYPE::CHAR)
+    {
+        clCompField_.SetFieldValue<false>(field_.index, std::vector<int8_t>(sValue_.begin(), sValue_.end()));
+    }
+    else { clCompField_.SetFieldValue<false>(field_.index, std::vector<uint8_t>(sValue_.begin(), sValue_.end())); }
+}
+
 template <bool Abbreviated>
 STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const char** ppcLogBuf_, CompositeField& clCompField_,
                                        const char* pcBufEnd_) const
@@ -673,7 +683,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                 eStatus = DecodeStringAsciiArray(sDecodedValue, ppcLogBuf_, uiArraySize);
                 if (eStatus != STATUS::SUCCESS) { return eStatus; }
                 if (fixed) { clCompField_.SetFieldValue<true>(field->index, std::move(sDecodedValue)); }
-                else { clCompField_.SetFieldValue<false>(field->index, std::move(sDecodedValue)); }
+                else { SetStringArray(clCompField_, *field, sDecodedValue); }
                 *ppcLogBuf_ += 1;
             }
             else if (!field->isCsv)
@@ -847,7 +857,7 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
                         for (size_t i = 0; i < strValue.size(); ++i) { vDecodedValues[i] = static_cast<uint8_t>(strValue[i]); }
                         if (!vDecodedValues.empty()) { clCompField_.SetFieldValue<true>(field->index, vDecodedValues.data(), vDecodedValues.size()); }
                     }
-                    else { clCompField_.SetFieldValue<false>(field->index, std::string(strValue)); }
+                    else { SetStringArray(clCompField_, *field, strValue); }
                 }
             }
             else
-- 
2.43.0


From 1db1f987e787a37547824784fe7c96da8ce35a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:00 +0000
Subject: [PATCH 044/120] fix: encode records of fixed size to binary without
 padding between them, however they are stored

---
 include/novatel_edie/decoders/common/encoder.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index a6dcc11..63bb527 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -478,8 +478,12 @@ template <typename Derived> class EncoderBase
                         {
                             for (const auto& element : fieldVector)
                             {
-                                // Each element starts aligned, as the decoder expects
-                                if (!alignPtr(fieldDefRef.dataType.length, startBuf, ppucOutBuf_, uiBytesLeft_)) { return false; }
+                                // Each element starts aligned unless its size is fixed, as the decoder expects
+                                if (fieldArrayFieldDef->fieldInfo->varFieldCount != 0 &&
+                                    !alignPtr(fieldDefRef.dataType.length, startBuf, ppucOutBuf_, uiBytesLeft_))
+                                {
+                                    return false;
+                                }
                                 if (!EncodeBinaryBody<Flatten>(element, fieldArrayFieldDef->fieldInfo->messageOrderedFields, ppucOutBuf_,
                                                                uiBytesLeft_))
                                 {
-- 
2.43.0


From bbe139b4ca59d21a9c72ff03a4faa3afa7312700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:00 +0000
Subject: [PATCH 045/120] fix: keep nothing of the previously decoded message
 in a reused message body

---
 src/decoders/common/src/message_decoder.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 98fa8e2..2adae31 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -1010,6 +1010,7 @@ MessageDecoderBase::Decode(const unsigned char* pucMessage_, CompositeField& stI
     const uint32_t uiMessageCrc = stMetaData_.bResponse ? 0 : stMetaData_.uiMessageCrc;
     const FieldInfo& msgFieldInfo = pclMsgDef->GetMsgDefFromCrc(uiMessageCrc);
 
+    stInterMessage_.resize(0, 0); // Keep nothing of a previously decoded message
     stInterMessage_.resize(msgFieldInfo.fixedFieldBytes, msgFieldInfo.varFieldCount);
     stInterMessage_.SetFieldInfo(pclMsgDef, uiMessageCrc);
 
-- 
2.43.0


From 300a2ca62aa84af9d21dbb99c1ea4686dfb72228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:00 +0000
Subject: [PATCH 046/120] fix: decode arrays of values from JSON

---
 src/decoders/common/src/message_decoder.cpp | 26 ++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 2adae31..1d05c3e 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -927,7 +927,31 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
                             clCompField_.SetFieldValue<false>(field->index, std::move(vDecodedValues));
                         }
                     }
-                    else { return STATUS::MALFORMED_INPUT; }
+                    else
+                    {
+                        if (fixed)
+                        {
+                            if (array.size() > uiArraySize) { return STATUS::MALFORMED_INPUT; }
+                        }
+                        else
+                        {
+                            SimpleTypeVisitor(*field, [&](auto&& arg) {
+                                using T = std::decay_t<decltype(arg)>;
+                                using StoredType = std::conditional_t<std::is_same_v<T, bool>, uint8_t, T>;
+                                clCompField_.SetFieldValue<false>(field->index, std::vector<StoredType>(array.size()));
+                            });
+                        }
+                        size_t i = 0;
+                        try
+                        {
+                            for (simdjson::dom::element it : array) { DecodeJsonField(*field, it, clCompField_, i++, fixed); }
+                        }
+                        catch (const std::runtime_error&)
+                        {
+                            SPDLOG_LOGGER_CRITICAL(pclMyLogger, "DecodeJsonField(): Exception when decoding array. Malformed Input\n");
+                            return STATUS::MALFORMED_INPUT;
+                        }
+                    }
                 }
             }
             break;
-- 
2.43.0


From 56ee63e78a3680862cbcbfd73cd95843cca87ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:54 +0000
Subject: [PATCH 047/120] fix: decode %e fields of type double from JSON as
 doubles

---
 src/decoders/common/src/message_decoder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 1d05c3e..29d2ea4 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -196,7 +196,6 @@ void MessageDecoderBase::InitFieldMaps()
     jsonFieldMap[CalculateBlockCrc32("UB")] = SimpleJsonMapEntry<uint8_t>();
     jsonFieldMap[CalculateBlockCrc32("XB")] = SimpleJsonMapEntry<uint8_t>();
     jsonFieldMap[CalculateBlockCrc32("lf")] = SimpleJsonMapEntry<double>();
-    jsonFieldMap[CalculateBlockCrc32("e")] = SimpleJsonMapEntry<float>();
     jsonFieldMap[CalculateBlockCrc32("le")] = SimpleJsonMapEntry<double>();
     jsonFieldMap[CalculateBlockCrc32("g")] = SimpleJsonMapEntry<float>();
     jsonFieldMap[CalculateBlockCrc32("lg")] = SimpleJsonMapEntry<double>();
@@ -212,6 +211,8 @@ void MessageDecoderBase::InitFieldMaps()
         }
     };
 
+    jsonFieldMap[CalculateBlockCrc32("e")] = jsonFieldMap[CalculateBlockCrc32("f")];
+
     jsonFieldMap[CalculateBlockCrc32("d")] = [](CompositeField& clCompField_, const BaseField& pstMessageDataType_,
                                                 simdjson::dom::element clJsonField_, const size_t elementIndex_, const bool fixed_,
                                                 [[maybe_unused]] MessageDatabase& pclMsgDb_) {
-- 
2.43.0


From de1cfbe48f6569e2927fffa11933539a43d642e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:50 +0000
Subject: [PATCH 048/120] fix: store %P arrays of unsigned characters decoded
 from JSON as their type

---
 src/decoders/common/src/message_decoder.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 29d2ea4..0e4bb3d 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -925,7 +925,11 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
                                 if (it.get(value) != simdjson::SUCCESS) { return STATUS::MALFORMED_INPUT; }
                                 vDecodedValues.emplace_back(static_cast<int8_t>(value));
                             }
-                            clCompField_.SetFieldValue<false>(field->index, std::move(vDecodedValues));
+                            if (field->dataType.name == DATA_TYPE::CHAR)
+                            {
+                                clCompField_.SetFieldValue<false>(field->index, std::move(vDecodedValues));
+                            }
+                            else { clCompField_.SetFieldValue<false>(field->index, std::vector<uint8_t>(vDecodedValues.begin(), vDecodedValues.end())); }
                         }
                     }
                     else
-- 
2.43.0


From d2c49eefea5e1c1fe9d86636dc262b150ac70637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:40 +0000
Subject: [PATCH 049/120] fix: do not pad flattened strings beyond their
 declared size

---
 include/novatel_edie/decoders/common/encoder.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 63bb527..020e972 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -505,7 +505,11 @@ template <typename Derived> class EncoderBase
                             if (remaining > 0 && !SetInBuffer(ppucOutBuf_, uiBytesLeft_, 0, remaining)) { return false; }
                         }
 
-                        if constexpr (std::is_same_v<ValueType, std::string>) { return AddStringFieldPadding(startBuf, ppucOutBuf_, uiBytesLeft_); }
+                        // A flattened string occupies exactly the bytes it is declared with.
+                        if constexpr (std::is_same_v<ValueType, std::string> && !Flatten)
+                        {
+                            return AddStringFieldPadding(startBuf, ppucOutBuf_, uiBytesLeft_);
+                        }
                         return true;
                     },
                     stInterMessage_.GetVarFields()[fieldDefRef.index]);
-- 
2.43.0


From 72657083b2cc2f4494dea36342513b5abeafe5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:40 +0000
Subject: [PATCH 050/120] fix: count nested variable-length arrays in the
 flattened size of field arrays

---
 .../decoders/common/message_database.hpp            | 13 ++++++++++++-
 src/decoders/common/src/json_db_reader.cpp          |  2 ++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/common/message_database.hpp b/include/novatel_edie/decoders/common/message_database.hpp
index 0b78fa2..b71470b 100644
--- a/include/novatel_edie/decoders/common/message_database.hpp
+++ b/include/novatel_edie/decoders/common/message_database.hpp
@@ -539,10 +539,21 @@ struct FieldArrayField : ArrayField
             case FIELD_TYPE::SIMPLE:
             case FIELD_TYPE::ENUM: childTotal += f->dataType.length; break;
             case FIELD_TYPE::FIXED_LENGTH_ARRAY:
-            case FIELD_TYPE::VARIABLE_LENGTH_ARRAY:
             case FIELD_TYPE::STRING:
                 if (const auto* a = dynamic_cast<const ArrayField*>(f.get())) { childTotal += f->dataType.length * a->arrayLength; }
                 break;
+            case FIELD_TYPE::VARIABLE_LENGTH_ARRAY:
+                if (const auto* a = dynamic_cast<const ArrayField*>(f.get()))
+                {
+                    childTotal += (a->arrayLengthRef.empty() ? a->arrayLengthFieldSize : 0) + f->dataType.length * a->arrayLength;
+                }
+                break;
+            case FIELD_TYPE::FIELD_ARRAY:
+                if (const auto* a = dynamic_cast<const FieldArrayField*>(f.get()))
+                {
+                    childTotal += (a->arrayLengthRef.empty() ? a->arrayLengthFieldSize : 0) + a->fieldSize;
+                }
+                break;
             default: break;
             }
         }
diff --git a/src/decoders/common/src/json_db_reader.cpp b/src/decoders/common/src/json_db_reader.cpp
index 61b9bb2..5b37228 100644
--- a/src/decoders/common/src/json_db_reader.cpp
+++ b/src/decoders/common/src/json_db_reader.cpp
@@ -263,11 +263,13 @@ uint32_t ParseFields(element j_, FieldInfo& vFields_, const AlignFunction& align
 
             vFields_.messageOrderedFields.push_back(pstField);
             if (sFieldType != "FIXED_LENGTH_ARRAY") { vFields_.varFieldCount++; }
+            if (sFieldType == "VARIABLE_LENGTH_ARRAY" && pstField->arrayLengthRef.empty()) { uiFieldSize += pstField->arrayLengthFieldSize; }
         }
         else if (sFieldType == "FIELD_ARRAY")
         {
             auto pstField = std::make_shared<FieldArrayField>();
             ParseFieldArrayField(field, *pstField, alignFn_);
+            uiFieldSize += (pstField->arrayLengthRef.empty() ? pstField->arrayLengthFieldSize : 0) + pstField->fieldSize;
             vFields_.messageOrderedFields.push_back(pstField);
             pstField->index = vFields_.varFieldCount;
             vFields_.varFieldCount++;
-- 
2.43.0


From 033dfbcd812b09c4a32973c3619a31f576446484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:32 +0000
Subject: [PATCH 051/120] fix: load the message database when a message decoder
 is constructed

---
 include/novatel_edie/decoders/common/message_decoder.hpp | 5 ++---
 src/decoders/common/src/message_decoder.cpp              | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index f75b510..098985b 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -1740,11 +1740,10 @@ class MessageDecoderBase
     //----------------------------------------------------------------------------
     MessageDecoderBase(std::string expectedMessageFamily_, MessageDatabase::Ptr pclMessageDb_ = nullptr,
                        std::function<size_t(const size_t, const uintptr_t, const uintptr_t)> fAlignmentFunc_ = MessageDatabase::NoAlign)
-        : sMyExpectedMessageFamily(std::move(expectedMessageFamily_)), fMyAlignmentFunc(std::move(fAlignmentFunc_)),
-          pclMyMsgDb(std::move(pclMessageDb_))
+        : sMyExpectedMessageFamily(std::move(expectedMessageFamily_)), fMyAlignmentFunc(std::move(fAlignmentFunc_))
     {
         InitFieldMaps();
-        if (pclMessageDb_ != nullptr) { LoadJsonDb(std::move(pclMessageDb_)); }
+        if (pclMessageDb_ != nullptr) { MessageDecoderBase::LoadJsonDb(std::move(pclMessageDb_)); }
     }
 
     virtual ~MessageDecoderBase() = default;
diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 0e4bb3d..3b66306 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -36,7 +36,7 @@ using namespace novatel::edie;
 // -------------------------------------------------------------------------------------------------------
 void MessageDecoderBase::LoadJsonDb(MessageDatabase::Ptr pclMessageDb_)
 {
-    ValidateMessageDatabaseFamily(pclMyMsgDb, sMyExpectedMessageFamily, pclMyLogger);
+    ValidateMessageDatabaseFamily(pclMessageDb_, sMyExpectedMessageFamily, pclMyLogger);
     pclMyMsgDb = std::move(pclMessageDb_);
     InitEnumDefinitions();
 }
-- 
2.43.0


From 31860d7a91e4ef784412919901c5ca172fdfa4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:32 +0000
Subject: [PATCH 052/120] fix: decode responses with the responses of the
 loaded database

---
 include/novatel_edie/decoders/oem/message_decoder.hpp | 1 +
 src/decoders/oem/src/message_decoder.cpp              | 8 +++++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/message_decoder.hpp b/include/novatel_edie/decoders/oem/message_decoder.hpp
index b23785f..d58fe0c 100644
--- a/include/novatel_edie/decoders/oem/message_decoder.hpp
+++ b/include/novatel_edie/decoders/oem/message_decoder.hpp
@@ -39,6 +39,7 @@ class MessageDecoder : public MessageDecoderBase
 {
   private:
     mutable MessageDefinition::ConstPtr pResponseDefinition;
+    mutable EnumDefinition::ConstPtr pResponsesEnum;
 
     void InitOemFieldMaps();
 
diff --git a/src/decoders/oem/src/message_decoder.cpp b/src/decoders/oem/src/message_decoder.cpp
index d70cae1..f670091 100644
--- a/src/decoders/oem/src/message_decoder.cpp
+++ b/src/decoders/oem/src/message_decoder.cpp
@@ -273,13 +273,14 @@ novatel::edie::MessageDefinition::ConstPtr MessageDecoder::GetMessageDefinition(
 {
     if (stMetaData_.bResponse)
     {
-        if (pResponseDefinition != nullptr) { return pResponseDefinition; }
+        auto responsesEnum = pclMyMsgDb->GetEnumDefName("Responses");
+
+        // Unless the responses are those of another database
+        if (pResponseDefinition != nullptr && pResponsesEnum == responsesEnum) { return pResponseDefinition; }
 
         auto responseDefinition = std::make_shared<MessageDefinition>();
         responseDefinition->name = "response";
 
-        auto responsesEnum = pclMyMsgDb->GetEnumDefName("Responses");
-
         SimpleDataType responseIdDataType;
         responseIdDataType.description = "Response as numerical id";
         responseIdDataType.length = 4;
@@ -307,6 +308,7 @@ novatel::edie::MessageDefinition::ConstPtr MessageDecoder::GetMessageDefinition(
         responseDefinition->fieldInfo[0] =
             std::make_shared<FieldInfo>(FieldInfo{sizeof(uint32_t), 1, std::vector<BaseField::ConstPtr>{responseIdField, responseStrField}});
 
+        pResponsesEnum = responsesEnum;
         pResponseDefinition = responseDefinition;
         return pResponseDefinition;
     }
-- 
2.43.0


From c7b6ba1fb676964acdc9fc396a98de1f9821cdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:32 +0000
Subject: [PATCH 053/120] fix: decode responses that are shorter than the error
 prefix

---
 src/decoders/common/src/message_decoder.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 3b66306..cbe7592 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -627,7 +627,11 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             std::string_view sResponse(*ppcLogBuf_, tokenLength);
             if (sResponse == "OK") { clCompField_.SetFieldValue<true>(field->index, static_cast<int32_t>(1)); }
             // Note: This won't match responses with format specifiers in them (%d, %s, etc.), they will be given id=0
-            else { clCompField_.SetFieldValue<true>(field->index, GetResponseId(vMyResponseDefinitions, sResponse.substr(svErrorPrefix.length()))); }
+            else
+            {
+                if (sResponse.substr(0, svErrorPrefix.length()) == svErrorPrefix) { sResponse.remove_prefix(svErrorPrefix.length()); }
+                clCompField_.SetFieldValue<true>(field->index, GetResponseId(vMyResponseDefinitions, sResponse));
+            }
             // Do not advance buffer, need to reprocess this field for the following RESPONSE_STR.
             bEarlyEndOfMessage = false;
             break;
@@ -834,7 +838,8 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
                 if (sResponse == "OK") { clCompField_.SetFieldValue<true>(field->index, 1); }
                 else
                 {
-                    clCompField_.SetFieldValue<true>(field->index, GetResponseId(vMyResponseDefinitions, sResponse.substr(svErrorPrefix.length())));
+                    if (sResponse.substr(0, svErrorPrefix.length()) == svErrorPrefix) { sResponse.remove_prefix(svErrorPrefix.length()); }
+                    clCompField_.SetFieldValue<true>(field->index, GetResponseId(vMyResponseDefinitions, sResponse));
                 }
             }
             break;
-- 
2.43.0


From f58d5e4238e9ddac31890d1f8c6f7b9b00059211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:32 +0000
Subject: [PATCH 054/120] fix: report where the header and body of an encoded
 abbreviated ASCII response are

---
 src/decoders/oem/src/encoder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 1d7ebba..5cacb00 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -451,6 +451,8 @@ Encoder::Encode(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, const
         if (!CopyToBuffer(&pucTempEncodeBuffer, uiBufferSize_, "\r\n")) { return STATUS::BUFFER_FULL; }
         stMessageData_.pucMessage = *ppucBuffer_;
         stMessageData_.uiMessageLength = pucTempEncodeBuffer - *ppucBuffer_;
+        stMessageData_.pucMessageHeader = *ppucBuffer_;
+        stMessageData_.pucMessageBody = *ppucBuffer_ + stMessageData_.uiMessageHeaderLength;
         stMessageData_.uiMessageBodyLength = stMessageData_.uiMessageLength - stMessageData_.uiMessageHeaderLength;
 
         return STATUS::SUCCESS;
-- 
2.43.0


From ae13f6fd59ceca6772b4ef6f8ee24285a6311b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:09 +0000
Subject: [PATCH 055/120] fix: decode ASCII bodies without reading past their
 end or past a missing delimiter

Tokens, escapes and arrays were read with strcspn and sscanf up to a null character
wherever it was, and the '*' that ends a message was overlooked inside arrays and
records, whose remaining values were taken from the CRC and what follows it.
---
 .../novatel_edie/decoders/common/common.hpp   |   5 +-
 .../decoders/common/message_decoder.hpp       |   2 +-
 src/decoders/common/src/common.cpp            |   4 +-
 src/decoders/common/src/message_decoder.cpp   | 229 +++++++++++-------
 4 files changed, 147 insertions(+), 93 deletions(-)

diff --git a/include/novatel_edie/decoders/common/common.hpp b/include/novatel_edie/decoders/common/common.hpp
index f461ba4..9683d5a 100644
--- a/include/novatel_edie/decoders/common/common.hpp
+++ b/include/novatel_edie/decoders/common/common.hpp
@@ -404,9 +404,10 @@ int32_t GetResponseId(const novatel::edie::EnumDefinition::ConstPtr& stRespDef_,
 //
 //! \param[in] ppcMessageBuffer_ A pointer to the buffer containing the
 //! message to have abbreviated ASCII formatting stripped.
-//! Message is assumed to be null terminated.
+//! \param[in] pcBufferEnd_ The end of the buffer. The message is assumed to
+//! be null terminated if nullptr.
 //-----------------------------------------------------------------------
-void ConsumeAbbrevFormatting(const char** ppcMessageBuffer_);
+void ConsumeAbbrevFormatting(const char** ppcMessageBuffer_, const char* pcBufferEnd_ = nullptr);
 
 //-----------------------------------------------------------------------
 //! \struct SatelliteId
diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index 098985b..725c203 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -1578,7 +1578,7 @@ class MessageDecoderBase
                                       uint32_t uiMessageLength_) const;
     template <bool Abbreviated>
     [[nodiscard]] STATUS DecodeAscii(const FieldInfo& vMsgDefFields_, const char** ppcLogBuf_, CompositeField& clCompField_,
-                                     const char* pcBufEnd = nullptr) const;
+                                     const char* pcBufEnd = nullptr, bool* pbEndOfMessage_ = nullptr) const;
     [[nodiscard]] STATUS DecodeJson(const FieldInfo& vMsgDefFields_, simdjson::dom::element jsonData, CompositeField& clCompField_) const;
 
     template <bool Fixed = true>
diff --git a/src/decoders/common/src/common.cpp b/src/decoders/common/src/common.cpp
index 3956ffa..b56c412 100644
--- a/src/decoders/common/src/common.cpp
+++ b/src/decoders/common/src/common.cpp
@@ -107,9 +107,9 @@ int32_t GetResponseId(const std::shared_ptr<const EnumDefinition>& stRespDef_, s
 }
 
 //-----------------------------------------------------------------------
-void ConsumeAbbrevFormatting(const char** ppcMessageBuffer_)
+void ConsumeAbbrevFormatting(const char** ppcMessageBuffer_, const char* pcBufferEnd_)
 {
-    while (true)
+    while (*ppcMessageBuffer_ != pcBufferEnd_)
     {
         switch (**ppcMessageBuffer_)
         {
diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index cbe7592..f674297 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -26,7 +26,9 @@
 
 #include "novatel_edie/decoders/common/message_decoder.hpp"
 
+#include <algorithm>
 #include <cassert>
+#include <charconv>
 #include <cstring>
 
 #include <simdjson.h>
@@ -451,46 +453,71 @@ void MessageDecoderBase::DecodeAsciiField(const BaseField& field_, const char**
     it->second(clCompField_, field_, ppcToken_, tokenLength_, elementIndex_, fixed_, *pclMyMsgDb);
 }
 
+// -------------------------------------------------------------------------------------------------------
+// The length of a token, which ends at a delimiter, at a null character or at the end of the buffer
+static size_t TokenLength(const char* pcToken_, const char* pcBufEnd_, std::string_view svDelimiters_)
+{
+    return std::find_if(pcToken_, pcBufEnd_, [&](const char c_) { return c_ == '\0' || svDelimiters_.find(c_) != std::string_view::npos; }) - pcToken_;
+}
+
+// -------------------------------------------------------------------------------------------------------
+// Parse the two hexadecimal digits of a byte
+static bool ParseHexByte(const char** ppcLogBuf_, const char* pcBufEnd_, uint8_t& ucValue_)
+{
+    if (pcBufEnd_ - *ppcLogBuf_ < 2) { return false; }
+    const auto result = std::from_chars(*ppcLogBuf_, *ppcLogBuf_ + 2, ucValue_, 16);
+    if (result.ec != std::errc() || result.ptr != *ppcLogBuf_ + 2) { return false; }
+    *ppcLogBuf_ += 2;
+    return true;
+}
+
+// -------------------------------------------------------------------------------------------------------
+// Parse the number of elements of an array
+static bool ParseArrayLength(const char* pcToken_, size_t tokenLength_, uint32_t& uiArraySize_)
+{
+    const auto result = std::from_chars(pcToken_, pcToken_ + tokenLength_, uiArraySize_);
+    return result.ec == std::errc() && result.ptr == pcToken_ + tokenLength_;
+}
+
 // -------------------------------------------------------------------------------------------------------
 // Decode an ASCII array formatted with the %Z conversion string
-static STATUS DecodeZConversionStringAsciiArray(std::vector<uint8_t>& vDecodedValues_, const char** ppcLogBuf_, uint32_t uiArraySize_)
+static STATUS DecodeZConversionStringAsciiArray(std::vector<uint8_t>& vDecodedValues_, const char** ppcLogBuf_, const char* pcBufEnd_,
+                                                uint32_t uiArraySize_)
 {
     vDecodedValues_.resize(uiArraySize_);
     for (uint32_t i = 0; i < uiArraySize_; ++i)
     {
-        uint32_t uiValueRead = 0;
-        if (sscanf(*ppcLogBuf_, "%02x", &uiValueRead) != 1) { return STATUS::MALFORMED_INPUT; }
-        *ppcLogBuf_ += 2;
-        vDecodedValues_[i] = static_cast<uint8_t>(uiValueRead);
+        if (!ParseHexByte(ppcLogBuf_, pcBufEnd_, vDecodedValues_[i])) { return STATUS::MALFORMED_INPUT; }
     }
 
     return STATUS::SUCCESS;
 }
 
 // Decode an ASCII array field that is not comma separated, e.g. a raw ASCII value or hex representation
-template <typename CharType> static STATUS DecodeNonCommaSeparatedAsciiArrayField(CharType& cValue_, const char** ppcLogBuf_)
+template <typename CharType>
+static STATUS DecodeNonCommaSeparatedAsciiArrayField(CharType& cValue_, const char** ppcLogBuf_, const char* pcBufEnd_)
 {
+    const std::string_view svRemaining(*ppcLogBuf_, pcBufEnd_ - *ppcLogBuf_);
+    if (svRemaining.empty() || svRemaining.front() == '\0') { return STATUS::MALFORMED_INPUT; }
+
     // Escaped '\' character
-    if (strncmp("\\\\", *ppcLogBuf_, 2) == 0)
+    if (svRemaining.substr(0, 2) == "\\\\")
     {
-        *ppcLogBuf_ += 1;
-        cValue_ = static_cast<CharType>(**ppcLogBuf_);
-        *ppcLogBuf_ += 1; // Consume 1 char
+        cValue_ = static_cast<CharType>('\\');
+        *ppcLogBuf_ += 2;
     }
     // Non-ascii char in hex e.g. \x0C
-    else if (strncmp("\\x", *ppcLogBuf_, 2) == 0)
+    else if (svRemaining.substr(0, 2) == "\\x")
     {
         *ppcLogBuf_ += 2; // Consume the '\x' that signifies hex without a char representation
-        uint32_t uiValueRead = 0;
-        if (sscanf(*ppcLogBuf_, "%02x", &uiValueRead) != 1) { return STATUS::MALFORMED_INPUT; }
-
-        cValue_ = static_cast<CharType>(uiValueRead);
-        *ppcLogBuf_ += 2;
+        uint8_t ucValueRead = 0;
+        if (!ParseHexByte(ppcLogBuf_, pcBufEnd_, ucValueRead)) { return STATUS::MALFORMED_INPUT; }
+        cValue_ = static_cast<CharType>(ucValueRead);
     }
     // Ascii character
     else
     {
-        cValue_ = static_cast<CharType>(**ppcLogBuf_);
+        cValue_ = static_cast<CharType>(svRemaining.front());
         *ppcLogBuf_ += 1; // Consume 1 char
     }
     return STATUS::SUCCESS;
@@ -498,13 +525,13 @@ template <typename CharType> static STATUS DecodeNonCommaSeparatedAsciiArrayFiel
 
 // Decode an ASCII array made up of non-comma separated values, e.g. a raw ASCII values or hex representations
 template <typename CharType>
-static STATUS DecodeNonCommaSeparatedAsciiArray(CompositeField& clCompField_, const char** ppcLogBuf_, const BaseField::ConstPtr& field_,
-                                                uint32_t uiArraySize_, bool fixed_)
+static STATUS DecodeNonCommaSeparatedAsciiArray(CompositeField& clCompField_, const char** ppcLogBuf_, const char* pcBufEnd_,
+                                                const BaseField::ConstPtr& field_, uint32_t uiArraySize_, bool fixed_)
 {
     std::vector<CharType> vDecodedValues(uiArraySize_);
     for (uint32_t i = 0; i < uiArraySize_; ++i)
     {
-        STATUS eStatus = DecodeNonCommaSeparatedAsciiArrayField(vDecodedValues[i], ppcLogBuf_);
+        STATUS eStatus = DecodeNonCommaSeparatedAsciiArrayField(vDecodedValues[i], ppcLogBuf_, pcBufEnd_);
         if (eStatus != STATUS::SUCCESS) { return eStatus; }
     }
     if (fixed_) { clCompField_.SetFieldValue<true>(field_->index, std::move(vDecodedValues)); }
@@ -513,24 +540,24 @@ static STATUS DecodeNonCommaSeparatedAsciiArray(CompositeField& clCompField_, co
 }
 
 // Decode an ASCII array which is formatted like a string with opening and closing quotes, e.g. "string value"
-static STATUS DecodeStringAsciiArray(std::string& sDecodedValue_, const char** ppcLogBuf_, uint32_t uiArraySize_)
+static STATUS DecodeStringAsciiArray(std::string& sDecodedValue_, const char** ppcLogBuf_, const char* pcBufEnd_, uint32_t uiArraySize_)
 {
     sDecodedValue_.assign(uiArraySize_, '\0');
 
     // Look for opening double-quote
-    if (**ppcLogBuf_ != '\"') { return STATUS::MALFORMED_INPUT; }
+    if (*ppcLogBuf_ == pcBufEnd_ || **ppcLogBuf_ != '\"') { return STATUS::MALFORMED_INPUT; }
     *ppcLogBuf_ += 1;
 
     for (uint32_t i = 0; i < uiArraySize_; ++i)
     {
-        if (**ppcLogBuf_ == '\"') { break; }
+        if (*ppcLogBuf_ != pcBufEnd_ && **ppcLogBuf_ == '\"') { break; }
 
-        STATUS eStatus = DecodeNonCommaSeparatedAsciiArrayField(sDecodedValue_[i], ppcLogBuf_);
+        STATUS eStatus = DecodeNonCommaSeparatedAsciiArrayField(sDecodedValue_[i], ppcLogBuf_, pcBufEnd_);
         if (eStatus != STATUS::SUCCESS) { return eStatus; }
     }
 
     // Look for closing double-quote
-    if (**ppcLogBuf_ != '\"') { return STATUS::MALFORMED_INPUT; }
+    if (*ppcLogBuf_ == pcBufEnd_ || **ppcLogBuf_ != '\"') { return STATUS::MALFORMED_INPUT; }
     *ppcLogBuf_ += 1;
 
     return STATUS::SUCCESS;
@@ -547,30 +574,44 @@ static void SetStringArray(CompositeField& clCompField_, const BaseField& field_
 }
 
 template <bool Abbreviated>
-STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const char** ppcLogBuf_, CompositeField& clCompField_,
-                                       const char* pcBufEnd_) const
+STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const char** ppcLogBuf_, CompositeField& clCompField_, const char* pcBufEnd_,
+                                       bool* pbEndOfMessage_) const
 {
-    constexpr char fieldDelim = Abbreviated ? ' ' : ',';
-    constexpr char endDelim = Abbreviated ? '\r' : '*';
-
-    // Null-terminated C-strings for strcspn
-    constexpr std::array<char, 3> tokenDelimiters = {fieldDelim, endDelim, '\0'};
-    constexpr std::array<char, 3> unquotedStringDelimiters = {fieldDelim, endDelim, '\0'};
-    constexpr std::array<char, 3> quotedStringDelimiters = {'\"', endDelim, '\0'};
-    constexpr std::array<char, 2> responseDelimiters = {endDelim, '\0'};
+    constexpr std::string_view tokenDelimiters = Abbreviated ? " \r" : ",*";
+    constexpr std::string_view responseDelimiters = Abbreviated ? "\r" : "*";
 
     if (pcBufEnd_ == nullptr) { pcBufEnd_ = static_cast<const char*>(std::memchr(*ppcLogBuf_, '\0', MAX_ASCII_MESSAGE_LENGTH)); }
+    if (pcBufEnd_ == nullptr) { return STATUS::MALFORMED_INPUT; }
 
-    for (const auto& field : vMsgDefFields_.messageOrderedFields)
+    // Whether the delimiter that ends the message was consumed (the lines of an abbreviated message do not end it)
+    bool bEndOfMessage = false;
+
+    // Move past the delimiter at the current position, false if there is something else
+    const auto consumeDelimiter = [&]() {
+        if (*ppcLogBuf_ >= pcBufEnd_ || **ppcLogBuf_ == '\0')
+        {
+            *ppcLogBuf_ = pcBufEnd_;
+            return true;
+        }
+        if (tokenDelimiters.find(**ppcLogBuf_) == std::string_view::npos) { return false; }
+        bEndOfMessage = !Abbreviated && **ppcLogBuf_ == '*';
+        ++*ppcLogBuf_;
+        return true;
+    };
+
+    const auto& vFields = vMsgDefFields_.messageOrderedFields;
+    for (auto it = vFields.begin(); it != vFields.end(); ++it)
     {
-        if (*ppcLogBuf_ >= pcBufEnd_) { return STATUS::MALFORMED_INPUT; } // We encountered the end of the buffer unexpectedly
+        const auto& field = *it;
+
+        if constexpr (Abbreviated) { ConsumeAbbrevFormatting(ppcLogBuf_, pcBufEnd_); }
 
-        if constexpr (Abbreviated) { ConsumeAbbrevFormatting(ppcLogBuf_); }
+        if (*ppcLogBuf_ >= pcBufEnd_) { return STATUS::MALFORMED_INPUT; } // We encountered the end of the buffer unexpectedly
 
-        size_t tokenLength = strcspn(*ppcLogBuf_, tokenDelimiters.data());
+        size_t tokenLength = TokenLength(*ppcLogBuf_, pcBufEnd_, tokenDelimiters);
         if (tokenLength == 0) { return STATUS::MALFORMED_INPUT; }
 
-        bool bEarlyEndOfMessage = (*(*ppcLogBuf_ + tokenLength) == endDelim);
+        bool bDelimiterExpected = true; // Whether the value of the field is followed by a delimiter yet to be consumed
 
         switch (field->type)
         {
@@ -584,7 +625,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                 SPDLOG_LOGGER_CRITICAL(pclMyLogger, "DecodeAsciiField(): Exception when decoding field. Malformed Input\n");
                 return STATUS::MALFORMED_INPUT;
             }
-            *ppcLogBuf_ += tokenLength + 1;
+            *ppcLogBuf_ += tokenLength;
             break;
         case FIELD_TYPE::ENUM: {
             std::string_view sEnum(*ppcLogBuf_, tokenLength);
@@ -596,34 +637,31 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             case 2: clCompField_.SetFieldValue<true>(field->index, static_cast<int16_t>(enumValue)); break;
             default: clCompField_.SetFieldValue<true>(field->index, enumValue); break;
             }
-            *ppcLogBuf_ += tokenLength + 1;
+            *ppcLogBuf_ += tokenLength;
             break;
         }
         case FIELD_TYPE::STRING:
-            switch (**ppcLogBuf_)
+            if (**ppcLogBuf_ == '"')
             {
-            case ',': [[fallthrough]];
-            case '*':
-                clCompField_.SetFieldValue<false>(field->index, std::string(""));
-                *ppcLogBuf_ += 1;
-                break;
-            case '"':
-                // If a field delimiter character is in the string, the previous tokenLength value is invalid.
-                tokenLength = strcspn(*ppcLogBuf_ + 1, quotedStringDelimiters.data()); // Look for LAST '"' character, skipping past the first.
-                clCompField_.SetFieldValue<false>(field->index, std::string(*ppcLogBuf_ + 1, tokenLength)); // + 1 to pass opening double-quote.
-                // Skip past the first '"', string token and the remaining characters ('"' and ',').
-                *ppcLogBuf_ += tokenLength + strcspn(*ppcLogBuf_ + tokenLength + 1, unquotedStringDelimiters.data()) + 2;
-                break;
-            default:
-                // Unquoted string: initial tokenLength is the length of the string
+                // If a delimiter character is in the string, the previous tokenLength value is invalid.
+                ++*ppcLogBuf_; // Skip past the opening double-quote
+                tokenLength = TokenLength(*ppcLogBuf_, pcBufEnd_, "\"");
+                if (*ppcLogBuf_ + tokenLength == pcBufEnd_ || *(*ppcLogBuf_ + tokenLength) != '"') { return STATUS::MALFORMED_INPUT; }
                 clCompField_.SetFieldValue<false>(field->index, std::string(*ppcLogBuf_, tokenLength));
+                // Skip past the string, the closing double-quote and the remaining characters.
                 *ppcLogBuf_ += tokenLength + 1;
-                break;
+                *ppcLogBuf_ += TokenLength(*ppcLogBuf_, pcBufEnd_, tokenDelimiters);
+            }
+            else
+            {
+                // Unquoted string: initial tokenLength is the length of the string
+                clCompField_.SetFieldValue<false>(field->index, std::string(*ppcLogBuf_, tokenLength));
+                *ppcLogBuf_ += tokenLength;
             }
             break;
         case FIELD_TYPE::RESPONSE_ID: {
             // Ensure we get the whole response (skip over delimiters in responses)
-            tokenLength = strcspn(*ppcLogBuf_, responseDelimiters.data());
+            tokenLength = TokenLength(*ppcLogBuf_, pcBufEnd_, responseDelimiters);
             std::string_view sResponse(*ppcLogBuf_, tokenLength);
             if (sResponse == "OK") { clCompField_.SetFieldValue<true>(field->index, static_cast<int32_t>(1)); }
             // Note: This won't match responses with format specifiers in them (%d, %s, etc.), they will be given id=0
@@ -633,14 +671,13 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                 clCompField_.SetFieldValue<true>(field->index, GetResponseId(vMyResponseDefinitions, sResponse));
             }
             // Do not advance buffer, need to reprocess this field for the following RESPONSE_STR.
-            bEarlyEndOfMessage = false;
-            break;
+            continue;
         }
         case FIELD_TYPE::RESPONSE_STR:
             // Response strings aren't surrounded by double quotes, ensure we get the whole response (skip over certain delimiters in responses)
-            tokenLength = strcspn(*ppcLogBuf_, responseDelimiters.data());
+            tokenLength = TokenLength(*ppcLogBuf_, pcBufEnd_, responseDelimiters);
             clCompField_.SetFieldValue<false>(field->index, std::string(*ppcLogBuf_, tokenLength));
-            *ppcLogBuf_ += tokenLength + 1;
+            *ppcLogBuf_ += tokenLength;
             break;
         case FIELD_TYPE::FIXED_LENGTH_ARRAY: [[fallthrough]];
         case FIELD_TYPE::VARIABLE_LENGTH_ARRAY: {
@@ -649,8 +686,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             if (fixed) { uiArraySize = dynamic_cast<const ArrayField*>(field.get())->arrayLength; }
             else
             {
-                auto result = std::from_chars(*ppcLogBuf_, *ppcLogBuf_ + tokenLength + 1, uiArraySize);
-                if (result.ec != std::errc())
+                if (!ParseArrayLength(*ppcLogBuf_, tokenLength, uiArraySize))
                 {
                     SPDLOG_LOGGER_CRITICAL(pclMyLogger, "DecodeAscii()::VARIABLE_LENGTH_ARRAY: Array length not valid number. Malformed Input\n");
                     return STATUS::MALFORMED_INPUT;
@@ -662,8 +698,9 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                     return STATUS::MALFORMED_INPUT;
                 }
 
-                *ppcLogBuf_ += tokenLength + 1;
-                tokenLength = strcspn(*ppcLogBuf_, unquotedStringDelimiters.data());
+                *ppcLogBuf_ += tokenLength;
+                consumeDelimiter();
+                if (bEndOfMessage && uiArraySize != 0) { return STATUS::MALFORMED_INPUT; }
             }
 
             STATUS eStatus = STATUS::SUCCESS;
@@ -671,7 +708,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             {
                 assert(field->dataType.name == DATA_TYPE::UCHAR || field->dataType.name == DATA_TYPE::HEXBYTE);
                 std::vector<uint8_t> vDecodedValues;
-                eStatus = DecodeZConversionStringAsciiArray(vDecodedValues, ppcLogBuf_, uiArraySize);
+                eStatus = DecodeZConversionStringAsciiArray(vDecodedValues, ppcLogBuf_, pcBufEnd_, uiArraySize);
                 if (eStatus == STATUS::SUCCESS)
                 {
                     if (fixed)
@@ -680,24 +717,21 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                     }
                     else { clCompField_.SetFieldValue<false>(field->index, std::move(vDecodedValues)); }
                 }
-                *ppcLogBuf_ += 1;
             }
             else if (field->isString)
             {
                 std::string sDecodedValue;
-                eStatus = DecodeStringAsciiArray(sDecodedValue, ppcLogBuf_, uiArraySize);
+                if (!bEndOfMessage) { eStatus = DecodeStringAsciiArray(sDecodedValue, ppcLogBuf_, pcBufEnd_, uiArraySize); }
                 if (eStatus != STATUS::SUCCESS) { return eStatus; }
                 if (fixed) { clCompField_.SetFieldValue<true>(field->index, std::move(sDecodedValue)); }
                 else { SetStringArray(clCompField_, *field, sDecodedValue); }
-                *ppcLogBuf_ += 1;
             }
             else if (!field->isCsv)
             {
                 eStatus = field->dataType.name == DATA_TYPE::CHAR
-                              ? DecodeNonCommaSeparatedAsciiArray<int8_t>(clCompField_, ppcLogBuf_, field, uiArraySize, fixed)
-                              : DecodeNonCommaSeparatedAsciiArray<uint8_t>(clCompField_, ppcLogBuf_, field, uiArraySize, fixed);
+                              ? DecodeNonCommaSeparatedAsciiArray<int8_t>(clCompField_, ppcLogBuf_, pcBufEnd_, field, uiArraySize, fixed)
+                              : DecodeNonCommaSeparatedAsciiArray<uint8_t>(clCompField_, ppcLogBuf_, pcBufEnd_, field, uiArraySize, fixed);
                 if (eStatus != STATUS::SUCCESS) { return eStatus; }
-                *ppcLogBuf_ += 1;
             }
             else
             {
@@ -711,9 +745,19 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                 }
                 for (uint32_t i = 0; i < uiArraySize; ++i)
                 {
-                    tokenLength = strcspn(*ppcLogBuf_, unquotedStringDelimiters.data());
-                    DecodeAsciiField(*field, ppcLogBuf_, tokenLength, clCompField_, i, fixed);
-                    *ppcLogBuf_ += tokenLength + 1;
+                    if (i != 0 && !(consumeDelimiter() && !bEndOfMessage)) { return STATUS::MALFORMED_INPUT; }
+                    tokenLength = TokenLength(*ppcLogBuf_, pcBufEnd_, tokenDelimiters);
+                    if (tokenLength == 0) { return STATUS::MALFORMED_INPUT; }
+                    try
+                    {
+                        DecodeAsciiField(*field, ppcLogBuf_, tokenLength, clCompField_, i, fixed);
+                    }
+                    catch (const std::runtime_error&)
+                    {
+                        SPDLOG_LOGGER_CRITICAL(pclMyLogger, "DecodeAsciiField(): Exception when decoding array. Malformed Input\n");
+                        return STATUS::MALFORMED_INPUT;
+                    }
+                    *ppcLogBuf_ += tokenLength;
                 }
             }
             if (eStatus != STATUS::SUCCESS)
@@ -722,20 +766,21 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                 return eStatus;
             }
 
+            // The delimiter after the number of elements is the only one of a list without elements
+            bDelimiterExpected = !(bEndOfMessage || (field->isCsv && uiArraySize == 0));
             break;
         }
         case FIELD_TYPE::FIELD_ARRAY: {
-            uint32_t uiArraySize;
-            auto result = std::from_chars(*ppcLogBuf_, *ppcLogBuf_ + tokenLength + 1, uiArraySize);
-            if (result.ec != std::errc())
+            uint32_t uiArraySize = 0;
+            if (!ParseArrayLength(*ppcLogBuf_, tokenLength, uiArraySize))
             {
                 SPDLOG_LOGGER_CRITICAL(pclMyLogger, "DecodeAscii()::FIELD_ARRAY: Field Array length not valid number. Malformed Input\n");
                 return STATUS::MALFORMED_INPUT;
             }
 
-            *ppcLogBuf_ = result.ptr;
-
-            ++*ppcLogBuf_;
+            *ppcLogBuf_ += tokenLength;
+            consumeDelimiter();
+            bDelimiterExpected = false;
             auto fieldArrayDef = std::dynamic_pointer_cast<const FieldArrayField>(field);
             if (!fieldArrayDef)
             {
@@ -754,10 +799,12 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
 
             for (uint32_t i = 0; i < uiArraySize; ++i)
             {
+                if (bEndOfMessage) { return STATUS::MALFORMED_INPUT; }
                 pvFieldArrayContainer[i] =
                     CompositeField(subFieldDefinitions->fieldInfo->fixedFieldBytes, subFieldDefinitions->fieldInfo->varFieldCount);
                 pvFieldArrayContainer[i].SetFieldInfo(subFieldDefinitions->fieldInfo);
-                STATUS eStatus = DecodeAscii<Abbreviated>(*subFieldDefinitions->fieldInfo, ppcLogBuf_, pvFieldArrayContainer[i], pcBufEnd_);
+                STATUS eStatus =
+                    DecodeAscii<Abbreviated>(*subFieldDefinitions->fieldInfo, ppcLogBuf_, pvFieldArrayContainer[i], pcBufEnd_, &bEndOfMessage);
                 if (eStatus != STATUS::SUCCESS) { return eStatus; }
             }
             clCompField_.SetFieldValue(*field, std::move(pvFieldArrayContainer));
@@ -768,18 +815,24 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             throw std::runtime_error("DecodeAscii(): Unknown field type");
         }
 
-        if constexpr (!Abbreviated)
+        if (bDelimiterExpected && !consumeDelimiter()) { return STATUS::MALFORMED_INPUT; }
+
+        if (bEndOfMessage && it + 1 != vFields.end())
         {
-            if (bEarlyEndOfMessage) { break; }
+            // A message may end before the last fields of its definition, which are then left at their default value, but a record may not
+            if (pbEndOfMessage_ != nullptr) { return STATUS::MALFORMED_INPUT; }
+            SetDefaultValues(it + 1, vFields.end(), clCompField_);
+            break;
         }
     }
 
+    if (pbEndOfMessage_ != nullptr) { *pbEndOfMessage_ = bEndOfMessage; }
     return STATUS::SUCCESS;
 }
 
 // explicit template instantiations
-template STATUS MessageDecoderBase::DecodeAscii<true>(const FieldInfo&, const char**, CompositeField&, const char*) const;
-template STATUS MessageDecoderBase::DecodeAscii<false>(const FieldInfo&, const char**, CompositeField&, const char*) const;
+template STATUS MessageDecoderBase::DecodeAscii<true>(const FieldInfo&, const char**, CompositeField&, const char*, bool*) const;
+template STATUS MessageDecoderBase::DecodeAscii<false>(const FieldInfo&, const char**, CompositeField&, const char*, bool*) const;
 
 // -------------------------------------------------------------------------------------------------------
 STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson::dom::element jsonData, CompositeField& clCompField_) const
-- 
2.43.0


From 981ebbb8c0408edbc83c74b0f7d4473808d523d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 056/120] fix: reject ASCII and JSON values with trailing
 characters or out of the range of their field

Trailing characters of numbers, any four characters for TRUE, bits read past the token,
times out of range and command names shorter than their delimiters were accepted.
---
 .../decoders/common/message_decoder.hpp       |  18 ++-
 src/decoders/common/src/message_decoder.cpp   |   5 +-
 src/decoders/oem/src/message_decoder.cpp      | 121 ++++++++----------
 3 files changed, 67 insertions(+), 77 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index 725c203..9acc2d5 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -27,6 +27,7 @@
 #ifndef MESSAGE_DECODER_HPP
 #define MESSAGE_DECODER_HPP
 
+#include <algorithm>
 #include <cassert>
 #include <charconv>
 #include <cstring>
@@ -1606,18 +1607,21 @@ class MessageDecoderBase
     static void ParseAndEmplace(CompositeField& clCompField_, const BaseField& field_, const char* token, size_t tokenLength,
                                 size_t elementIndex_ = 0)
     {
-        T value;
-        std::from_chars_result result;
+        T value{};
+        std::from_chars_result result{};
+        const char* tokenEnd = token + tokenLength;
 
         // As of 6/26/2025 spaces may appear within ascii fields of OUTPUTDATUM and SETALIGNMENTVEL as they use conversion strings with width
         // values. EDIE supports decoding of this data but will never pad fields with spaces during encoding.
-        uint32_t offset = 0;
-        while ((token[offset] == ' ') && (offset < tokenLength - 1)) { ++offset; }
+        while (token != tokenEnd && *token == ' ') { ++token; }
 
-        if constexpr (std::is_integral_v<T>) { result = std::from_chars(token + offset, token + tokenLength, value, R); }
-        else if constexpr (std::is_floating_point_v<T>) { result = std::from_chars(token + offset, token + tokenLength, value); }
+        if constexpr (std::is_integral_v<T>) { result = std::from_chars(token, tokenEnd, value, R); }
+        else if constexpr (std::is_floating_point_v<T>) { result = std::from_chars(token, tokenEnd, value); }
 
-        if (result.ec != std::errc()) { throw std::runtime_error("Failed to parse numeric value"); }
+        if (result.ec != std::errc() || std::find_if(result.ptr, tokenEnd, [](const char c_) { return c_ != ' '; }) != tokenEnd)
+        {
+            throw std::runtime_error("Failed to parse numeric value");
+        }
 
         clCompField_.SetArrayElement<Fixed>(field_, elementIndex_, value);
     }
diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index f674297..df0eddf 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -98,10 +98,11 @@ void MessageDecoderBase::InitFieldMaps()
     asciiFieldMap[CalculateBlockCrc32("d")] = [](CompositeField& clCompField_, const BaseField& pstMessageDataType_, const char** ppcToken_,
                                                  [[maybe_unused]] const size_t tokenLength_, const size_t elementIndex_, const bool fixed_,
                                                  [[maybe_unused]] MessageDatabase& pclMsgDb_) {
-        constexpr uint32_t nTrue = 4; // "TRUE"
         if (pstMessageDataType_.dataType.name == DATA_TYPE::BOOL)
         {
-            const bool value = (tokenLength_ == nTrue);
+            const std::string_view svToken(*ppcToken_, tokenLength_);
+            const bool value = svToken == "TRUE";
+            if (!value && svToken != "FALSE") { throw std::runtime_error("Failed to parse boolean value"); }
             if (fixed_) { clCompField_.SetArrayElement<true>(pstMessageDataType_, elementIndex_, value); }
             else { clCompField_.SetArrayElement<false>(pstMessageDataType_, elementIndex_, value); }
         }
diff --git a/src/decoders/oem/src/message_decoder.cpp b/src/decoders/oem/src/message_decoder.cpp
index f670091..f4b69a2 100644
--- a/src/decoders/oem/src/message_decoder.cpp
+++ b/src/decoders/oem/src/message_decoder.cpp
@@ -26,9 +26,10 @@
 
 #include "novatel_edie/decoders/oem/message_decoder.hpp"
 
-#include <bitset>
 #include <charconv>
 #include <cmath>
+#include <limits>
+#include <string_view>
 
 #include <simdjson.h>
 
@@ -67,6 +68,49 @@ static void EmplaceCharacter(novatel::edie::CompositeField& clCompField_, const
     else { emplace(static_cast<uint8_t>(ucValue)); }
 }
 
+// -------------------------------------------------------------------------------------------------------
+// Parse the eight bits of a character
+static char ParseBits(const std::string_view svBits_)
+{
+    uint8_t ucValue = 0;
+    const auto result = std::from_chars(svBits_.data(), svBits_.data() + svBits_.size(), ucValue, 2);
+    if (result.ec != std::errc() || result.ptr != svBits_.data() + svBits_.size()) { throw std::runtime_error("Failed to parse bits"); }
+    return static_cast<char>(ucValue);
+}
+
+// -------------------------------------------------------------------------------------------------------
+// Convert seconds to the milliseconds that are stored for them
+static uint32_t ConvertToMilliseconds(const double dSeconds_)
+{
+    const double dMilliseconds = std::round(dSeconds_ * novatel::edie::SEC_TO_MILLI_SEC);
+    if (!(dMilliseconds >= 0 && dMilliseconds <= std::numeric_limits<uint32_t>::max())) { throw std::runtime_error("Time out of range"); }
+    return static_cast<uint32_t>(dMilliseconds);
+}
+
+// -------------------------------------------------------------------------------------------------------
+// Parse a satellite, which is a slot and for some satellites a signed frequency
+static uint32_t ParseSatelliteId(const std::string_view svId_)
+{
+    const char* pcEnd = svId_.data() + svId_.size();
+
+    uint16_t usSlot = 0;
+    auto result = std::from_chars(svId_.data(), pcEnd, usSlot);
+    if (result.ec != std::errc()) { throw std::runtime_error("Failed to parse usSlot"); }
+
+    int16_t sFreq = 0;
+    if (result.ptr != pcEnd)
+    {
+        // Only a negative sign is parsed as a part of the number
+        const char* pcFreq = result.ptr;
+        if (*pcFreq == '+') { ++pcFreq; }
+        else if (*pcFreq != '-') { throw std::runtime_error("Failed to parse usSlot"); }
+        result = std::from_chars(pcFreq, pcEnd, sFreq);
+        if (result.ec != std::errc() || result.ptr != pcEnd) { throw std::runtime_error("Failed to parse sFreq"); }
+    }
+
+    return usSlot | (static_cast<uint32_t>(static_cast<uint16_t>(sFreq)) << 16);
+}
+
 // -------------------------------------------------------------------------------------------------------
 void MessageDecoder::InitOemFieldMaps()
 {
@@ -86,9 +130,7 @@ void MessageDecoder::InitOemFieldMaps()
     asciiFieldMap[CalculateBlockCrc32("ucb")] = [](CompositeField& clCompField_, const BaseField& pstMessageDataType_, const char** ppcToken_,
                                                    [[maybe_unused]] const size_t tokenLength_, const size_t elementIndex_, const bool fixed_,
                                                    [[maybe_unused]] MessageDatabase& pclMsgDb_) {
-        const uint32_t value = static_cast<uint32_t>(std::bitset<8>(*ppcToken_).to_ulong());
-        if (fixed_) { clCompField_.SetArrayElement<true>(pstMessageDataType_, elementIndex_, value); }
-        else { clCompField_.SetArrayElement<false>(pstMessageDataType_, elementIndex_, value); }
+        EmplaceCharacter(clCompField_, pstMessageDataType_, ParseBits(std::string_view(*ppcToken_, tokenLength_)), elementIndex_, fixed_);
     };
 
     asciiFieldMap[CalculateBlockCrc32("T")] = [](CompositeField& clCompField_, const BaseField& pstMessageDataType_, const char** ppcToken_,
@@ -96,8 +138,8 @@ void MessageDecoder::InitOemFieldMaps()
                                                  [[maybe_unused]] MessageDatabase& pclMsgDb_) {
         double value;
         std::from_chars_result result = std::from_chars(*ppcToken_, *ppcToken_ + tokenLength_, value);
-        if (result.ec != std::errc()) { throw std::runtime_error("Failed to parse double value"); }
-        const auto converted = static_cast<uint32_t>(std::llround(value * SEC_TO_MILLI_SEC));
+        if (result.ec != std::errc() || result.ptr != *ppcToken_ + tokenLength_) { throw std::runtime_error("Failed to parse double value"); }
+        const auto converted = ConvertToMilliseconds(value);
         if (fixed_) { clCompField_.SetArrayElement<true>(pstMessageDataType_, elementIndex_, converted); }
         else { clCompField_.SetArrayElement<false>(pstMessageDataType_, elementIndex_, converted); }
     };
@@ -113,26 +155,7 @@ void MessageDecoder::InitOemFieldMaps()
     asciiFieldMap[CalculateBlockCrc32("id")] = [](CompositeField& clCompField_, const BaseField& pstMessageDataType_, const char** ppcToken_,
                                                   [[maybe_unused]] const size_t tokenLength_, const size_t elementIndex_, const bool fixed_,
                                                   [[maybe_unused]] MessageDatabase& pclMsgDb_) {
-        const auto* pcDelimiter = static_cast<const char*>(memchr(*ppcToken_, '+', tokenLength_));
-        if (pcDelimiter == nullptr) { pcDelimiter = static_cast<const char*>(memchr(*ppcToken_, '-', tokenLength_)); }
-
-        uint16_t usSlot;
-        auto result = std::from_chars(*ppcToken_, *ppcToken_ + tokenLength_, usSlot);
-        if (result.ec != std::errc()) { throw std::runtime_error("Failed to parse usSlot"); }
-
-        int16_t sFreq = 0;
-        if (pcDelimiter != nullptr)
-        {
-            const char* start = pcDelimiter + 1;
-            const char* end = *ppcToken_ + tokenLength_;
-
-            result = std::from_chars(start, end, sFreq);
-            if (result.ec != std::errc()) { throw std::runtime_error("Failed to parse sFreq"); }
-
-            if (*pcDelimiter == '-') { sFreq = -sFreq; }
-        }
-
-        const uint32_t uiSatId = usSlot | (static_cast<uint32_t>(static_cast<uint16_t>(sFreq)) << 16);
+        const uint32_t uiSatId = ParseSatelliteId(std::string_view(*ppcToken_, tokenLength_));
         if (fixed_) { clCompField_.SetArrayElement<true>(pstMessageDataType_, elementIndex_, uiSatId); }
         else { clCompField_.SetArrayElement<false>(pstMessageDataType_, elementIndex_, uiSatId); }
     };
@@ -141,6 +164,7 @@ void MessageDecoder::InitOemFieldMaps()
                                                  [[maybe_unused]] const size_t tokenLength_, const size_t elementIndex_, const bool fixed_,
                                                  [[maybe_unused]] MessageDatabase& pclMsgDb_) {
         // RXCONFIG in ASCII is always #COMMANDNAMEA
+        if (tokenLength_ < 3) { throw std::runtime_error("Failed to parse command name"); }
         MessageDefinition::ConstPtr pclMessageDef = pclMsgDb_.GetMsgDef(std::string_view(*ppcToken_ + 1, tokenLength_ - 2)); // + 1 to Skip the '#'
         const uint32_t value = pclMessageDef != nullptr ? CreateMsgId(pclMessageDef->logID, 0, 1, 0) : 0;
         if (fixed_) { clCompField_.SetArrayElement<true>(pstMessageDataType_, elementIndex_, value); }
@@ -173,9 +197,7 @@ void MessageDecoder::InitOemFieldMaps()
         {
             throw std::runtime_error("Failed to decode JSON field '" + pstMessageDataType_.name + "'");
         }
-        const auto value = static_cast<uint32_t>(std::bitset<8>(std::string(sValue)).to_ulong());
-        if (fixed_) { clCompField_.SetArrayElement<true>(pstMessageDataType_, elementIndex_, value); }
-        else { clCompField_.SetArrayElement<false>(pstMessageDataType_, elementIndex_, value); }
+        EmplaceCharacter(clCompField_, pstMessageDataType_, ParseBits(sValue), elementIndex_, fixed_);
     };
 
     jsonFieldMap[CalculateBlockCrc32("m")] = [](CompositeField& clCompField_, const BaseField& pstMessageDataType_,
@@ -199,7 +221,7 @@ void MessageDecoder::InitOemFieldMaps()
         {
             throw std::runtime_error("Failed to decode JSON field '" + pstMessageDataType_.name + "'");
         }
-        const auto value = static_cast<uint32_t>(std::llround(dValue * SEC_TO_MILLI_SEC));
+        const auto value = ConvertToMilliseconds(dValue);
         if (fixed_) { clCompField_.SetArrayElement<true>(pstMessageDataType_, elementIndex_, value); }
         else { clCompField_.SetArrayElement<false>(pstMessageDataType_, elementIndex_, value); }
     };
@@ -212,44 +234,7 @@ void MessageDecoder::InitOemFieldMaps()
         {
             throw std::runtime_error("Failed to decode JSON field '" + pstMessageDataType_.name + "'");
         }
-        size_t sDelimiter = sTemp.find_last_of('+');
-        if (sDelimiter == std::string_view::npos) { sDelimiter = sTemp.find_last_of('-'); }
-
-        uint16_t usSlot;
-        int16_t sFreq;
-
-        if (sDelimiter != std::string_view::npos)
-        {
-            // Parse the slot part
-            std::string_view slotView = sTemp.substr(0, sDelimiter);
-            auto result = std::from_chars(slotView.data(), slotView.data() + slotView.size(), usSlot);
-            if (result.ec != std::errc() || result.ptr != slotView.data() + slotView.size())
-            {
-                throw std::invalid_argument("Invalid slot value in id field");
-            }
-
-            // Parse the frequency part
-            std::string_view freqView = sTemp.substr(sDelimiter + 1);
-            result = std::from_chars(freqView.data(), freqView.data() + freqView.size(), sFreq);
-            if (result.ec != std::errc() || result.ptr != freqView.data() + freqView.size())
-            {
-                throw std::invalid_argument("Invalid frequency value in id field");
-            }
-
-            if (sTemp[sDelimiter] == '-') { sFreq = -sFreq; }
-        }
-        else
-        {
-            // Parse the entire string as the slot
-            auto result = std::from_chars(sTemp.data(), sTemp.data() + sTemp.size(), usSlot);
-            if (result.ec != std::errc() || result.ptr != sTemp.data() + sTemp.size())
-            {
-                throw std::invalid_argument("Invalid slot value in id field");
-            }
-            sFreq = 0;
-        }
-
-        const uint32_t uiSatId = usSlot | (static_cast<uint32_t>(static_cast<uint16_t>(sFreq)) << 16);
+        const uint32_t uiSatId = ParseSatelliteId(sTemp);
         if (fixed_) { clCompField_.SetArrayElement<true>(pstMessageDataType_, elementIndex_, uiSatId); }
         else { clCompField_.SetArrayElement<false>(pstMessageDataType_, elementIndex_, uiSatId); }
     };
-- 
2.43.0


From f3ea5bab64910fda434f7b80a9369628c3ecbf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:58 +0000
Subject: [PATCH 057/120] fix: report JSON bodies that do not match their
 definition and hostile bodies instead of throwing

Values of the wrong type were ignored, values out of range truncated and missing fields left
without a value that can be read; exceptions of the field parsers escaped from Decode().
---
 .../decoders/common/message_decoder.hpp       |   9 ++
 src/decoders/common/src/message_decoder.cpp   | 148 ++++++++++--------
 src/decoders/oem/src/message_decoder.cpp      |   2 +-
 3 files changed, 92 insertions(+), 67 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index 9acc2d5..832d2cf 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -30,6 +30,7 @@
 #include <algorithm>
 #include <cassert>
 #include <charconv>
+#include <cmath>
 #include <cstring>
 #include <functional>
 #include <limits>
@@ -1660,6 +1661,14 @@ class MessageDecoderBase
             throw std::runtime_error("Failed to decode JSON field '" + field_.name + "'");
         }
         T value = static_cast<T>(intermediateValue);
+        if constexpr (std::is_floating_point_v<T>)
+        {
+            if (std::isinf(value)) { throw std::runtime_error("JSON field '" + field_.name + "' is out of range"); }
+        }
+        else if (static_cast<IntermediateType>(value) != intermediateValue)
+        {
+            throw std::runtime_error("JSON field '" + field_.name + "' is out of range");
+        }
         if (fixed_) { vIntermediate_.SetArrayElement<true>(field_, elementIndex_, value); }
         else { vIntermediate_.SetArrayElement<false>(field_, elementIndex_, value); }
     }
diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index df0eddf..07c3d78 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -838,12 +838,17 @@ template STATUS MessageDecoderBase::DecodeAscii<false>(const FieldInfo&, const c
 // -------------------------------------------------------------------------------------------------------
 STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson::dom::element jsonData, CompositeField& clCompField_) const
 {
-    for (const auto& field : vMsgDefFields_.messageOrderedFields)
+    if (!jsonData.is_object()) { return STATUS::MALFORMED_INPUT; }
+
+    const auto& vFields = vMsgDefFields_.messageOrderedFields;
+    for (auto fieldIt = vFields.begin(); fieldIt != vFields.end(); ++fieldIt)
     {
+        const auto& field = *fieldIt;
         simdjson::dom::element clField;
         if (jsonData[field->name].get(clField) != simdjson::SUCCESS)
         {
             SPDLOG_LOGGER_WARN(pclMyLogger, "Field '{}' not found in JSON", field->name);
+            SetDefaultValues(fieldIt, fieldIt + 1, clCompField_);
             continue;
         }
 
@@ -863,17 +868,16 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
 
         case FIELD_TYPE::ENUM: {
             std::string_view enumValue;
-            if (clField.get(enumValue) == simdjson::SUCCESS)
-            {
-                const auto* enumField = dynamic_cast<const EnumField*>(field.get());
-                const int32_t parsedEnumValue = GetEnumValue(enumField->enumDef, enumValue);
+            if (clField.get(enumValue) != simdjson::SUCCESS) { return STATUS::MALFORMED_INPUT; }
 
-                switch (enumField->dataType.length)
-                {
-                case 1: clCompField_.SetFieldValue<true>(field->index, static_cast<int8_t>(parsedEnumValue)); break;
-                case 2: clCompField_.SetFieldValue<true>(field->index, static_cast<int16_t>(parsedEnumValue)); break;
-                default: clCompField_.SetFieldValue<true>(field->index, parsedEnumValue); break;
-                }
+            const auto* enumField = dynamic_cast<const EnumField*>(field.get());
+            const int32_t parsedEnumValue = GetEnumValue(enumField->enumDef, enumValue);
+
+            switch (enumField->dataType.length)
+            {
+            case 1: clCompField_.SetFieldValue<true>(field->index, static_cast<int8_t>(parsedEnumValue)); break;
+            case 2: clCompField_.SetFieldValue<true>(field->index, static_cast<int16_t>(parsedEnumValue)); break;
+            default: clCompField_.SetFieldValue<true>(field->index, parsedEnumValue); break;
             }
             break;
         }
@@ -881,20 +885,19 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
         case FIELD_TYPE::STRING: [[fallthrough]];
         case FIELD_TYPE::RESPONSE_STR: {
             std::string_view strValue;
-            if (clField.get(strValue) == simdjson::SUCCESS) { clCompField_.SetFieldValue<false>(field->index, std::string(strValue)); }
+            if (clField.get(strValue) != simdjson::SUCCESS) { return STATUS::MALFORMED_INPUT; }
+            clCompField_.SetFieldValue<false>(field->index, std::string(strValue));
             break;
         }
 
         case FIELD_TYPE::RESPONSE_ID: {
             std::string_view sResponse;
-            if (clField.get(sResponse) == simdjson::SUCCESS)
+            if (clField.get(sResponse) != simdjson::SUCCESS) { return STATUS::MALFORMED_INPUT; }
+            if (sResponse == "OK") { clCompField_.SetFieldValue<true>(field->index, 1); }
+            else
             {
-                if (sResponse == "OK") { clCompField_.SetFieldValue<true>(field->index, 1); }
-                else
-                {
-                    if (sResponse.substr(0, svErrorPrefix.length()) == svErrorPrefix) { sResponse.remove_prefix(svErrorPrefix.length()); }
-                    clCompField_.SetFieldValue<true>(field->index, GetResponseId(vMyResponseDefinitions, sResponse));
-                }
+                if (sResponse.substr(0, svErrorPrefix.length()) == svErrorPrefix) { sResponse.remove_prefix(svErrorPrefix.length()); }
+                clCompField_.SetFieldValue<true>(field->index, GetResponseId(vMyResponseDefinitions, sResponse));
             }
             break;
         }
@@ -908,7 +911,8 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
             if (field->isString)
             {
                 std::string_view strValue;
-                if (clField.get(strValue) == simdjson::SUCCESS)
+                if (clField.get(strValue) != simdjson::SUCCESS) { return STATUS::MALFORMED_INPUT; }
+                else
                 {
                     if (fixed)
                     {
@@ -923,7 +927,8 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
             else
             {
                 simdjson::dom::array array;
-                if (clField.get(array) == simdjson::SUCCESS)
+                if (clField.get(array) != simdjson::SUCCESS) { return STATUS::MALFORMED_INPUT; }
+                else
                 {
                     if (field->conversionHash == CalculateBlockCrc32("Z"))
                     {
@@ -935,7 +940,7 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
                             for (simdjson::dom::element it : array)
                             {
                                 uint64_t value;
-                                if (it.get(value) != simdjson::SUCCESS) { return STATUS::MALFORMED_INPUT; }
+                                if (it.get(value) != simdjson::SUCCESS || value > std::numeric_limits<uint8_t>::max()) { return STATUS::MALFORMED_INPUT; }
                                 vDecodedValues[i++] = static_cast<uint8_t>(value);
                             }
                             if (!vDecodedValues.empty())
@@ -950,7 +955,7 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
                             for (simdjson::dom::element it : array)
                             {
                                 uint64_t value;
-                                if (it.get(value) != simdjson::SUCCESS) { return STATUS::MALFORMED_INPUT; }
+                                if (it.get(value) != simdjson::SUCCESS || value > std::numeric_limits<uint8_t>::max()) { return STATUS::MALFORMED_INPUT; }
                                 vDecodedValues.emplace_back(static_cast<uint8_t>(value));
                             }
                             clCompField_.SetFieldValue<false>(field->index, std::move(vDecodedValues));
@@ -958,6 +963,9 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
                     }
                     else if (field->conversionHash == CalculateBlockCrc32("P"))
                     {
+                        const auto isCharacter = [](const int64_t value_) {
+                            return value_ >= std::numeric_limits<int8_t>::min() && value_ <= std::numeric_limits<uint8_t>::max();
+                        };
                         if (fixed)
                         {
                             if (array.size() > uiArraySize) { return STATUS::MALFORMED_INPUT; }
@@ -966,7 +974,7 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
                             for (simdjson::dom::element it : array)
                             {
                                 int64_t value;
-                                if (it.get(value) != simdjson::SUCCESS) { return STATUS::MALFORMED_INPUT; }
+                                if (it.get(value) != simdjson::SUCCESS || !isCharacter(value)) { return STATUS::MALFORMED_INPUT; }
                                 vDecodedValues[i++] = static_cast<int8_t>(value);
                             }
                             if (!vDecodedValues.empty())
@@ -981,7 +989,7 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
                             for (simdjson::dom::element it : array)
                             {
                                 int64_t value;
-                                if (it.get(value) != simdjson::SUCCESS) { return STATUS::MALFORMED_INPUT; }
+                                if (it.get(value) != simdjson::SUCCESS || !isCharacter(value)) { return STATUS::MALFORMED_INPUT; }
                                 vDecodedValues.emplace_back(static_cast<int8_t>(value));
                             }
                             if (field->dataType.name == DATA_TYPE::CHAR)
@@ -1103,54 +1111,62 @@ MessageDecoderBase::Decode(const unsigned char* pucMessage_, CompositeField& stI
     stInterMessage_.SetFieldInfo(pclMsgDef, uiMessageCrc);
 
     // Decode the detected format
-    switch (stMetaData_.eFormat)
+    try
     {
-    case HEADER_FORMAT::ASCII: [[fallthrough]];
-    case HEADER_FORMAT::SHORT_ASCII: {
-        const auto* pcTempInData = reinterpret_cast<const char*>(pucTempInData);
-        return DecodeAscii<false>(msgFieldInfo, &pcTempInData, stInterMessage_,
-                                  stMetaData_.uiLength > stMetaData_.uiHeaderLength ? pcTempInData + stMetaData_.uiLength - stMetaData_.uiHeaderLength
-                                                                                    : nullptr);
-    }
-    case HEADER_FORMAT::ABB_ASCII: [[fallthrough]];
-    case HEADER_FORMAT::SHORT_ABB_ASCII: {
-        const auto* pcTempInData = reinterpret_cast<const char*>(pucTempInData);
-        return DecodeAscii<true>(msgFieldInfo, &pcTempInData, stInterMessage_,
-                                 stMetaData_.uiLength > stMetaData_.uiHeaderLength ? pcTempInData + stMetaData_.uiLength - stMetaData_.uiHeaderLength
-                                                                                   : nullptr);
-    }
-    case HEADER_FORMAT::BINARY: [[fallthrough]];
-    case HEADER_FORMAT::SHORT_BINARY:
-        if (msgFieldInfo.varFieldCount == 0 && msgFieldInfo.fixedFieldBytes <= stMetaData_.uiBinaryMsgLength)
+        switch (stMetaData_.eFormat)
         {
-            // Fast path: if there are no variable-length fields, copy the entire message to the fixed region
-            stInterMessage_.SetFieldValue<true>(0, reinterpret_cast<const std::byte*>(pucTempInData), msgFieldInfo.fixedFieldBytes);
-            return STATUS::SUCCESS;
+        case HEADER_FORMAT::ASCII: [[fallthrough]];
+        case HEADER_FORMAT::SHORT_ASCII: {
+            const auto* pcTempInData = reinterpret_cast<const char*>(pucTempInData);
+            return DecodeAscii<false>(msgFieldInfo, &pcTempInData, stInterMessage_,
+                                      stMetaData_.uiLength > stMetaData_.uiHeaderLength ? pcTempInData + stMetaData_.uiLength - stMetaData_.uiHeaderLength
+                                                                                        : nullptr);
+        }
+        case HEADER_FORMAT::ABB_ASCII: [[fallthrough]];
+        case HEADER_FORMAT::SHORT_ABB_ASCII: {
+            const auto* pcTempInData = reinterpret_cast<const char*>(pucTempInData);
+            return DecodeAscii<true>(msgFieldInfo, &pcTempInData, stInterMessage_,
+                                     stMetaData_.uiLength > stMetaData_.uiHeaderLength ? pcTempInData + stMetaData_.uiLength - stMetaData_.uiHeaderLength
+                                                                                       : nullptr);
         }
-        return DecodeBinary(msgFieldInfo, &pucTempInData, stInterMessage_, stMetaData_.uiBinaryMsgLength);
-    case HEADER_FORMAT::JSON: {
-        simdjson::dom::parser parser;
-        simdjson::dom::element clJsonFields;
+        case HEADER_FORMAT::BINARY: [[fallthrough]];
+        case HEADER_FORMAT::SHORT_BINARY:
+            if (msgFieldInfo.varFieldCount == 0 && msgFieldInfo.fixedFieldBytes <= stMetaData_.uiBinaryMsgLength)
+            {
+                // Fast path: if there are no variable-length fields, copy the entire message to the fixed region
+                stInterMessage_.SetFieldValue<true>(0, reinterpret_cast<const std::byte*>(pucTempInData), msgFieldInfo.fixedFieldBytes);
+                return STATUS::SUCCESS;
+            }
+            return DecodeBinary(msgFieldInfo, &pucTempInData, stInterMessage_, stMetaData_.uiBinaryMsgLength);
+        case HEADER_FORMAT::JSON: {
+            simdjson::dom::parser parser;
+            simdjson::dom::element clJsonFields;
 
-        std::string_view jsonStringView(reinterpret_cast<const char*>(pucTempInData)); // Assumes null-terminated data
+            std::string_view jsonStringView(reinterpret_cast<const char*>(pucTempInData)); // Assumes null-terminated data
 
-        auto error = parser.parse(jsonStringView).get(clJsonFields);
-        if (error)
-        {
-            SPDLOG_LOGGER_ERROR(pclMyLogger, "JSON parsing error:"); // TODO: {}", error.message());
-            return STATUS::MALFORMED_INPUT;
-        }
+            auto error = parser.parse(jsonStringView).get(clJsonFields);
+            if (error)
+            {
+                SPDLOG_LOGGER_ERROR(pclMyLogger, "JSON parsing error:"); // TODO: {}", error.message());
+                return STATUS::MALFORMED_INPUT;
+            }
 
-        simdjson::dom::element body;
-        if (clJsonFields["body"].get(body) != simdjson::SUCCESS)
-        {
-            SPDLOG_LOGGER_WARN(pclMyLogger, "Field 'body' not found in JSON");
-            return STATUS::MALFORMED_INPUT;
-        }
+            simdjson::dom::element body;
+            if (clJsonFields["body"].get(body) != simdjson::SUCCESS)
+            {
+                SPDLOG_LOGGER_WARN(pclMyLogger, "Field 'body' not found in JSON");
+                return STATUS::MALFORMED_INPUT;
+            }
 
-        return DecodeJson(msgFieldInfo, body, stInterMessage_);
+            return DecodeJson(msgFieldInfo, body, stInterMessage_);
+        }
+        default: //
+            return STATUS::UNKNOWN;
+        }
     }
-    default: //
-        return STATUS::UNKNOWN;
+    catch (const std::exception& e)
+    {
+        SPDLOG_LOGGER_ERROR(pclMyLogger, "Failed to decode the message: {}", e.what());
+        return STATUS::MALFORMED_INPUT;
     }
 }
diff --git a/src/decoders/oem/src/message_decoder.cpp b/src/decoders/oem/src/message_decoder.cpp
index f4b69a2..748ba54 100644
--- a/src/decoders/oem/src/message_decoder.cpp
+++ b/src/decoders/oem/src/message_decoder.cpp
@@ -180,7 +180,7 @@ void MessageDecoder::InitOemFieldMaps()
         std::string_view sValue;
         uint64_t ullValue = 0;
         if (clJsonField_.get(sValue) == simdjson::SUCCESS && sValue.size() == 1) { ullValue = static_cast<unsigned char>(sValue.front()); }
-        else if (clJsonField_.get(ullValue) != simdjson::SUCCESS)
+        else if (clJsonField_.get(ullValue) != simdjson::SUCCESS || ullValue > std::numeric_limits<uint8_t>::max())
         {
             throw std::runtime_error("Failed to decode JSON field '" + pstMessageDataType_.name + "'");
         }
-- 
2.43.0


From 5e98c7602438feb367516809fbac8bb43a917140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:09 +0000
Subject: [PATCH 058/120] fix: do not search past the end of an ASCII message
 with an empty body for a null character

---
 src/decoders/common/src/message_decoder.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 07c3d78..8f2e58c 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -1110,6 +1110,11 @@ MessageDecoderBase::Decode(const unsigned char* pucMessage_, CompositeField& stI
     stInterMessage_.resize(msgFieldInfo.fixedFieldBytes, msgFieldInfo.varFieldCount);
     stInterMessage_.SetFieldInfo(pclMsgDef, uiMessageCrc);
 
+    // The body of an ASCII message is null-terminated if the length of the message is unknown
+    const auto* pcBodyEnd = stMetaData_.uiLength != 0 && stMetaData_.uiLength >= stMetaData_.uiHeaderLength
+                                ? reinterpret_cast<const char*>(pucMessage_) + (stMetaData_.uiLength - stMetaData_.uiHeaderLength)
+                                : nullptr;
+
     // Decode the detected format
     try
     {
@@ -1118,16 +1123,12 @@ MessageDecoderBase::Decode(const unsigned char* pucMessage_, CompositeField& stI
         case HEADER_FORMAT::ASCII: [[fallthrough]];
         case HEADER_FORMAT::SHORT_ASCII: {
             const auto* pcTempInData = reinterpret_cast<const char*>(pucTempInData);
-            return DecodeAscii<false>(msgFieldInfo, &pcTempInData, stInterMessage_,
-                                      stMetaData_.uiLength > stMetaData_.uiHeaderLength ? pcTempInData + stMetaData_.uiLength - stMetaData_.uiHeaderLength
-                                                                                        : nullptr);
+            return DecodeAscii<false>(msgFieldInfo, &pcTempInData, stInterMessage_, pcBodyEnd);
         }
         case HEADER_FORMAT::ABB_ASCII: [[fallthrough]];
         case HEADER_FORMAT::SHORT_ABB_ASCII: {
             const auto* pcTempInData = reinterpret_cast<const char*>(pucTempInData);
-            return DecodeAscii<true>(msgFieldInfo, &pcTempInData, stInterMessage_,
-                                     stMetaData_.uiLength > stMetaData_.uiHeaderLength ? pcTempInData + stMetaData_.uiLength - stMetaData_.uiHeaderLength
-                                                                                       : nullptr);
+            return DecodeAscii<true>(msgFieldInfo, &pcTempInData, stInterMessage_, pcBodyEnd);
         }
         case HEADER_FORMAT::BINARY: [[fallthrough]];
         case HEADER_FORMAT::SHORT_BINARY:
-- 
2.43.0


From b38576a8079c45a6e771d81892f72cf398c14f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:41 +0000
Subject: [PATCH 059/120] fix: escape the backslashes of quoted character
 arrays, which are unescaped on decoding

---
 src/decoders/oem/src/encoder.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 5cacb00..8ef4475 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -100,9 +100,10 @@ void Encoder::InitFieldMaps()
 
     asciiFieldMap[CalculateBlockCrc32("s")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                  const MessageDatabase&, size_t offset) {
-        return fd_.dataType.name == DATA_TYPE::UCHAR
-                   ? CopyToBuffer(ppcOutBuf_, uiBytesLeft_, static_cast<char>(cf_.GetFieldValue<uint8_t>(fd_, offset)))
-                   : CopyToBuffer(ppcOutBuf_, uiBytesLeft_, static_cast<char>(cf_.GetFieldValue<int8_t>(fd_, offset)));
+        const auto cValue = static_cast<char>(fd_.dataType.name == DATA_TYPE::UCHAR ? cf_.GetFieldValue<uint8_t>(fd_, offset)
+                                                                                     : cf_.GetFieldValue<int8_t>(fd_, offset));
+        // The decoder unescapes backslashes
+        return cValue == '\\' ? CopyToBuffer(ppcOutBuf_, uiBytesLeft_, "\\\\") : CopyToBuffer(ppcOutBuf_, uiBytesLeft_, cValue);
     };
 
     asciiFieldMap[CalculateBlockCrc32("m")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
-- 
2.43.0


From 6c7898dd85522e8e17ba80798f9c32ea9c4860c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:54 +0000
Subject: [PATCH 060/120] fix: read any byte of a message as a bool through the
 variant accessors

---
 include/novatel_edie/decoders/common/common.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/novatel_edie/decoders/common/common.hpp b/include/novatel_edie/decoders/common/common.hpp
index 9683d5a..2df4da6 100644
--- a/include/novatel_edie/decoders/common/common.hpp
+++ b/include/novatel_edie/decoders/common/common.hpp
@@ -50,9 +50,17 @@ template <typename T, typename BufferType> inline T LoadValueFromBuffer(const Bu
     static_assert(std::is_same_v<BufferType, char> || std::is_same_v<BufferType, unsigned char> || std::is_same_v<BufferType, std::byte> ||
                       std::is_same_v<BufferType, int8_t> || std::is_same_v<BufferType, uint8_t>,
                   "BufferType must be char, unsigned char, std::byte, int8_t, or uint8_t");
-    T value;
-    std::memcpy(&value, logBuf_, sizeof(T));
-    return value;
+    if constexpr (std::is_same_v<T, bool>)
+    {
+        // A message may hold any byte, but a bool may only hold 0 or 1
+        return LoadValueFromBuffer<uint8_t>(logBuf_) != 0;
+    }
+    else
+    {
+        T value;
+        std::memcpy(&value, logBuf_, sizeof(T));
+        return value;
+    }
 }
 
 inline void ValidateMessageDatabaseFamily(MessageDatabase::ConstPtr pclMessageDb_, std::string_view expectedFamily,
-- 
2.43.0


From 7e428889b24b9e948ed58efffcef95cc93efe6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:17 +0000
Subject: [PATCH 061/120] fix: round the seconds of filter time bounds and
 decimation periods to milliseconds

---
 src/decoders/oem/src/filter.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/decoders/oem/src/filter.cpp b/src/decoders/oem/src/filter.cpp
index fecf1d6..d8b6c39 100644
--- a/src/decoders/oem/src/filter.cpp
+++ b/src/decoders/oem/src/filter.cpp
@@ -27,6 +27,7 @@
 #include "novatel_edie/decoders/oem/filter.hpp"
 
 #include <algorithm>
+#include <cmath>
 
 using namespace novatel::edie;
 using namespace novatel::edie::oem;
@@ -50,12 +51,16 @@ template <typename T> void Filter::Remove(std::vector<T>& vec_, const T& element
     if (it != vec_.end()) { vec_.erase(it); }
 }
 
+// -------------------------------------------------------------------------------------------------------
+// Convert seconds to the nearest number of milliseconds
+static uint32_t ConvertToMilliseconds(double dSec_) { return static_cast<uint32_t>(std::round(dSec_ * 1000.0)); }
+
 // -------------------------------------------------------------------------------------------------------
 void Filter::SetIncludeLowerTimeBound(uint32_t uiWeek_, double dSec_)
 {
     bMyFilterLowerTime = true;
     uiMyLowerWeek = uiWeek_;
-    uiMyLowerMSec = static_cast<uint32_t>(dSec_ * 1000.0);
+    uiMyLowerMSec = ConvertToMilliseconds(dSec_);
     PushUnique(vMyFilterFunctions, &Filter::FilterTime);
 }
 
@@ -63,7 +68,7 @@ void Filter::SetIncludeUpperTimeBound(uint32_t uiWeek_, double dSec_)
 {
     bMyFilterUpperTime = true;
     uiMyUpperWeek = uiWeek_;
-    uiMyUpperMSec = static_cast<uint32_t>(dSec_ * 1000.0);
+    uiMyUpperMSec = ConvertToMilliseconds(dSec_);
     PushUnique(vMyFilterFunctions, &Filter::FilterTime);
 }
 
@@ -88,7 +93,7 @@ void Filter::ClearTimeBounds()
 // -------------------------------------------------------------------------------------------------------
 void Filter::SetIncludeDecimation(double dPeriodSec_)
 {
-    SetIncludeDecimationMs(static_cast<uint32_t>(dPeriodSec_ * 1000.0)); // Convert provided seconds to MSec
+    SetIncludeDecimationMs(ConvertToMilliseconds(dPeriodSec_)); // Convert provided seconds to MSec
 }
 
 void Filter::SetIncludeDecimationMs(uint32_t dPeriodMSec_)
-- 
2.43.0


From d19f7b5e80545436b4c11e33237b482c96f0d453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:17 +0000
Subject: [PATCH 062/120] fix: do not divide by a decimation period of zero

---
 src/decoders/oem/src/filter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/filter.cpp b/src/decoders/oem/src/filter.cpp
index d8b6c39..40dce4c 100644
--- a/src/decoders/oem/src/filter.cpp
+++ b/src/decoders/oem/src/filter.cpp
@@ -292,7 +292,9 @@ bool Filter::FilterMessage(const MetaDataStruct& stMetaData_) const
 // -------------------------------------------------------------------------------------------------------
 bool Filter::FilterDecimation(const MetaDataStruct& stMetaData_) const
 {
-    return !bMyDecimate || bMyInvertDecimation == static_cast<bool>(static_cast<uint32_t>(stMetaData_.dMilliseconds) % uiMyDecimationPeriodMilliSec);
+    if (!bMyDecimate || uiMyDecimationPeriodMilliSec == 0) { return true; } // Every message is included without a period
+
+    return bMyInvertDecimation == static_cast<bool>(static_cast<uint32_t>(stMetaData_.dMilliseconds) % uiMyDecimationPeriodMilliSec);
 }
 
 // -------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 7c309bd08b092b71f2e626432e9d0db0f7520dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:41 +0000
Subject: [PATCH 063/120] fix: set the header range and the length of the
 messages of ReadIntermediate

---
 src/decoders/oem/src/parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/decoders/oem/src/parser.cpp b/src/decoders/oem/src/parser.cpp
index f7164de..1182efc 100644
--- a/src/decoders/oem/src/parser.cpp
+++ b/src/decoders/oem/src/parser.cpp
@@ -156,6 +156,9 @@ Parser::ReadIntermediate(MessageDataStruct& stMessageData_, IntermediateHeader&
                     // Continue if we succeeded.
                 }
 
+                stMessageData_.uiMessageLength = stMetaData_.uiLength; // Decompression changes the message
+                stMessageData_.pucMessageHeader = pucMyFrameBufferPointer;
+                stMessageData_.uiMessageHeaderLength = stMetaData_.uiHeaderLength;
                 pucMyFrameBufferPointer += stMetaData_.uiHeaderLength;
                 stMessageData_.pucMessageBody = pucMyFrameBufferPointer;
                 stMessageData_.uiMessageBodyLength = stMetaData_.uiLength - stMetaData_.uiHeaderLength;
@@ -170,7 +173,9 @@ Parser::ReadIntermediate(MessageDataStruct& stMessageData_, IntermediateHeader&
                 pclMyLogger->info("MessageDecoder returned status {}", eStatus);
                 if (bMyReturnUnknownBytes)
                 {
+                    stMessageData_.pucMessageHeader = nullptr;
                     stMessageData_.pucMessageBody = nullptr;
+                    stMessageData_.uiMessageHeaderLength = 0;
                     stMessageData_.uiMessageBodyLength = 0;
                     return STATUS::UNKNOWN;
                 }
-- 
2.43.0


From b93115a5d6482c30f0ed5bf6a92fc425e058ba32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:41 +0000
Subject: [PATCH 064/120] fix: report an empty stream when a file parser has no
 stream

---
 include/novatel_edie/decoders/common/file_parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/novatel_edie/decoders/common/file_parser.hpp b/include/novatel_edie/decoders/common/file_parser.hpp
index 5e4aaae..49faac0 100644
--- a/include/novatel_edie/decoders/common/file_parser.hpp
+++ b/include/novatel_edie/decoders/common/file_parser.hpp
@@ -54,6 +54,7 @@ template <typename ParserT, typename FilterT, typename MetaDataT, typename Inter
 
     [[nodiscard]] bool ReadStream()
     {
+        if (pclMyInputStream == nullptr) { return false; }
         std::array<char, MAX_ASCII_MESSAGE_LENGTH> cData{};
         pclMyInputStream->read(cData.data(), std::min(cData.size(), clMyParser.GetAvailableSpace()));
         size_t ullBytesRead = pclMyInputStream->gcount();
-- 
2.43.0


From 49d8a8212a7816ee8d81a12a0c096588442f629f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:41 +0000
Subject: [PATCH 065/120] fix: report what the last bytes of a file hold when
 they are not a decoded message

---
 include/novatel_edie/decoders/common/file_parser.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/common/file_parser.hpp b/include/novatel_edie/decoders/common/file_parser.hpp
index 49faac0..773c4a9 100644
--- a/include/novatel_edie/decoders/common/file_parser.hpp
+++ b/include/novatel_edie/decoders/common/file_parser.hpp
@@ -90,7 +90,8 @@ template <typename ParserT, typename FilterT, typename MetaDataT, typename Inter
                 if constexpr (std::is_invocable_v<ParserFunc, Args..., bool>)
                 {
                     // For OEM parser, make a final attempt to decode an incomplete abbreviated ASCII message from remaining bytes
-                    return parserFunc_(std::forward<Args>(args_)..., true) == STATUS::SUCCESS ? STATUS::SUCCESS : STATUS::STREAM_EMPTY;
+                    const STATUS eFinalStatus = parserFunc_(std::forward<Args>(args_)..., true);
+                    return eFinalStatus == STATUS::INCOMPLETE || eFinalStatus == STATUS::BUFFER_EMPTY ? STATUS::STREAM_EMPTY : eFinalStatus;
                 }
                 return STATUS::STREAM_EMPTY;
             }
-- 
2.43.0


From cc4320f4f1af014b7abf36b381b62af354d18bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:42 +0000
Subject: [PATCH 066/120] fix: terminate the text of an incomplete abbreviated
 message before decoding it

---
 src/decoders/oem/src/parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/parser.cpp b/src/decoders/oem/src/parser.cpp
index 1182efc..5f679c6 100644
--- a/src/decoders/oem/src/parser.cpp
+++ b/src/decoders/oem/src/parser.cpp
@@ -111,11 +111,12 @@ Parser::ReadIntermediate(MessageDataStruct& stMessageData_, IntermediateHeader&
         if (bDecodeIncompleteAbbreviated_ && eStatus == STATUS::INCOMPLETE &&
             (stMetaData_.eFormat == HEADER_FORMAT::ABB_ASCII || stMetaData_.eFormat == HEADER_FORMAT::SHORT_ABB_ASCII))
         {
-            uint32_t uiFlushSize = clMyFramer.Flush(pucMyFrameBufferPointer, uiParserInternalBufferSize);
+            uint32_t uiFlushSize = clMyFramer.Flush(pucMyFrameBufferPointer, uiParserInternalBufferSize - 1);
             if (uiFlushSize > 0)
             {
                 eStatus = STATUS::SUCCESS;
                 stMetaData_.uiLength = uiFlushSize;
+                pucMyFrameBufferPointer[uiFlushSize] = '\0'; // The text may not end with a line ending
             }
         }
 
-- 
2.43.0


From 10a7f8233e694f90ea887462697aee4bffe3c985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:20 +0000
Subject: [PATCH 067/120] fix: do not frame text messages that are longer than
 the maximum message length

---
 src/decoders/oem/src/framer.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 29f994a..d6382b8 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -373,7 +373,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
             break;
 
         case NovAtelFrameState::WAITING_FOR_ABB_ASCII_HEADER:
-            if (IsCrlf(uiMyByteCount - 1))
+            if (uiMyByteCount < MAX_ASCII_MESSAGE_LENGTH && IsCrlf(uiMyByteCount - 1))
             {
                 if (IsAbbrevAsciiResponse())
                 {
@@ -440,7 +440,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
             }
 
             // End of Abbrev
-            if (IsCrlf(uiMyByteCount - 1) &&
+            if (uiMyByteCount < MAX_ABB_ASCII_RESPONSE_LENGTH && IsCrlf(uiMyByteCount - 1) &&
                 (clInternalFrameBuffer[uiMyByteCount + 1] != OEM4_ABBREV_ASCII_SYNC ||     // Next line is not an abb ASCII log
                  clInternalFrameBuffer[uiMyByteCount + 2] != OEM4_ABBREV_ASCII_SEPARATOR)) // Next line is a new abb ASCII log
             {
@@ -490,7 +490,8 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                 uint32_t uiMessageCrc;
                 auto result = std::from_chars(acCrc, acCrc + OEM4_ASCII_CRC_LENGTH, uiMessageCrc, 16);
 
-                if (result.ec == std::errc() && result.ptr == acCrc + OEM4_ASCII_CRC_LENGTH && uiMyCalculatedCrc32 == uiMessageCrc)
+                if (result.ec == std::errc() && result.ptr == acCrc + OEM4_ASCII_CRC_LENGTH && uiMyCalculatedCrc32 == uiMessageCrc &&
+                    stMetaData_.uiLength <= MAX_ASCII_MESSAGE_LENGTH)
                 {
                     uiMyByteCount = 0;
 
-- 
2.43.0


From 9002713910b14c099a94aa9f1bf931563683018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:49 +0000
Subject: [PATCH 068/120] fix: keep the format of an incomplete message in the
 OEM framer

---
 include/novatel_edie/decoders/oem/framer.hpp |  1 +
 src/decoders/oem/src/framer.cpp              | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/framer.hpp b/include/novatel_edie/decoders/oem/framer.hpp
index 083cb35..48ff74a 100644
--- a/include/novatel_edie/decoders/oem/framer.hpp
+++ b/include/novatel_edie/decoders/oem/framer.hpp
@@ -40,6 +40,7 @@ class Framer : public FramerBase
 {
   private:
     NovAtelFrameState eMyFrameState{NovAtelFrameState::WAITING_FOR_SYNC};
+    HEADER_FORMAT eMyFrameFormat{HEADER_FORMAT::UNKNOWN}; // The format of the incomplete message
 
     uint32_t uiMyJsonObjectOpenBraces{0};
     uint32_t uiMyAbbrevAsciiHeaderPosition{0};
diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index d6382b8..66ce948 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -57,6 +57,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
     const auto reportUnknownBytes = [&](uint32_t uiUnknownBytes_) -> STATUS {
         stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
         stMetaData_.uiLength = uiUnknownBytes_;
+        eMyFrameFormat = HEADER_FORMAT::UNKNOWN;
         if (bMetadataOnly_) { return STATUS::UNKNOWN; }
         if (bMyReportUnknownBytes)
         {
@@ -72,6 +73,13 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
         return STATUS::UNKNOWN;
     };
 
+    // The next call may not provide the same metadata, so the format of the message is kept
+    const auto incomplete = [&]() -> STATUS {
+        eMyFrameFormat = stMetaData_.eFormat;
+        return STATUS::INCOMPLETE;
+    };
+    if (eMyFrameState != NovAtelFrameState::WAITING_FOR_SYNC) { stMetaData_.eFormat = eMyFrameFormat; }
+
     // Loop buffer to complete NovAtel message
     while (eMyFrameState != NovAtelFrameState::COMPLETE_MESSAGE)
     {
@@ -84,7 +92,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                 // If the data lands on the abbreviated header CRLF then it can be missed unless it's tested again when there is more data
                 if (stMetaData_.eFormat == HEADER_FORMAT::ABB_ASCII) { uiMyByteCount--; }
 
-                return STATUS::INCOMPLETE;
+                return incomplete();
             }
 
             stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
@@ -343,7 +351,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                 if (uiMyByteCount + OEM4_ASCII_CRC_LENGTH + 2 > clInternalFrameBuffer.size())
                 {
                     uiMyByteCount--; // Rewind so that we reprocess the '*' delimiter after getting more bytes
-                    return STATUS::INCOMPLETE;
+                    return incomplete();
                 }
 
                 // Handle RXCONFIGA logs: Normally * signifies the start of the CRC, but
@@ -402,7 +410,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                     uiMyByteCount--; // If the data lands on the header CRLF then it can be
                                      // missed unless it's tested again when there is more data
                     stMetaData_.uiLength = uiMyByteCount;
-                    return STATUS::INCOMPLETE;
+                    return incomplete();
                 }
                 // New line with abbrev data
                 else if (clInternalFrameBuffer[uiMyByteCount + 1] == OEM4_ABBREV_ASCII_SYNC &&
@@ -436,7 +444,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                 uiMyByteCount--; // If the data lands on the header CRLF then it can be missed
                                  // unless it's tested again when there is more data
                 stMetaData_.uiLength = static_cast<uint32_t>(clInternalFrameBuffer.size());
-                return STATUS::INCOMPLETE;
+                return incomplete();
             }
 
             // End of Abbrev
-- 
2.43.0


From 130ae5349509b21ddbd66d926db6c73d8953977a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:22 +0000
Subject: [PATCH 069/120] fix: accept spaces before the end of an abbreviated
 header line

---
 src/decoders/oem/src/header_decoder.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index 4c3bf40..9c0bb03 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -98,6 +98,12 @@ bool HeaderDecoder::DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, c
 
     // Process field value up until delimiter
     size_t ullTokenLength = pcNextDelimiter - *ppcLogBuf_;
+    if constexpr (pcDelimiter[0] == '\r')
+    {
+        // Spaces may precede the end of an abbreviated header line
+        while (ullTokenLength > 0 && (*ppcLogBuf_)[ullTokenLength - 1] == ' ') { --ullTokenLength; }
+    }
+    const char* const pcTokenEnd = *ppcLogBuf_ + ullTokenLength;
     switch (eField)
     {
     case ASCII_HEADER::MESSAGE_NAME: {
@@ -116,7 +122,7 @@ bool HeaderDecoder::DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, c
     case ASCII_HEADER::SEQUENCE: {
         uint16_t usSequence = 0;
         auto result = std::from_chars(*ppcLogBuf_, *ppcLogBuf_ + ullTokenLength, usSequence);
-        if (result.ec != std::errc() || result.ptr != pcNextDelimiter)
+        if (result.ec != std::errc() || result.ptr != pcTokenEnd)
         {
             pclMyLogger->debug("Failed to parse SEQUENCE.");
             return false;
@@ -127,7 +133,7 @@ bool HeaderDecoder::DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, c
     case ASCII_HEADER::IDLE_TIME: {
         float fIdleTime = 0.0F;
         auto result = std::from_chars(*ppcLogBuf_, *ppcLogBuf_ + ullTokenLength, fIdleTime);
-        if (result.ec != std::errc() || result.ptr != pcNextDelimiter)
+        if (result.ec != std::errc() || result.ptr != pcTokenEnd)
         {
             pclMyLogger->debug("Failed to parse IDLE_TIME.");
             return false;
@@ -142,7 +148,7 @@ bool HeaderDecoder::DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, c
     case ASCII_HEADER::WEEK: {
         uint16_t usWeek = 0;
         auto result = std::from_chars(*ppcLogBuf_, *ppcLogBuf_ + ullTokenLength, usWeek);
-        if (result.ec != std::errc() || result.ptr != pcNextDelimiter)
+        if (result.ec != std::errc() || result.ptr != pcTokenEnd)
         {
             pclMyLogger->debug("Failed to parse WEEK.");
             return false;
@@ -153,7 +159,7 @@ bool HeaderDecoder::DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, c
     case ASCII_HEADER::SECONDS: {
         double dSeconds = 0.0;
         auto result = std::from_chars(*ppcLogBuf_, *ppcLogBuf_ + ullTokenLength, dSeconds);
-        if (result.ec != std::errc() || result.ptr != pcNextDelimiter)
+        if (result.ec != std::errc() || result.ptr != pcTokenEnd)
         {
             pclMyLogger->debug("Failed to parse SECONDS.");
             return false;
@@ -166,7 +172,7 @@ bool HeaderDecoder::DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, c
     case ASCII_HEADER::RECEIVER_STATUS: {
         uint32_t uiReceiverStatus = 0;
         auto result = std::from_chars(*ppcLogBuf_, *ppcLogBuf_ + ullTokenLength, uiReceiverStatus, 16);
-        if (result.ec != std::errc() || result.ptr != pcNextDelimiter)
+        if (result.ec != std::errc() || result.ptr != pcTokenEnd)
         {
             pclMyLogger->debug("Failed to parse RECEIVER_STATUS.");
             return false;
@@ -177,7 +183,7 @@ bool HeaderDecoder::DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, c
     case ASCII_HEADER::MSG_DEF_CRC: {
         uint32_t uiMessageDefinitionCrc = 0;
         auto result = std::from_chars(*ppcLogBuf_, *ppcLogBuf_ + ullTokenLength, uiMessageDefinitionCrc, 16);
-        if (result.ec != std::errc() || result.ptr != pcNextDelimiter)
+        if (result.ec != std::errc() || result.ptr != pcTokenEnd)
         {
             pclMyLogger->debug("Failed to parse MSG_DEF_CRC.");
             return false;
@@ -188,7 +194,7 @@ bool HeaderDecoder::DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, c
     case ASCII_HEADER::RECEIVER_SW_VERSION: {
         uint16_t usReceiverSwVersion = 0;
         auto result = std::from_chars(*ppcLogBuf_, *ppcLogBuf_ + ullTokenLength, usReceiverSwVersion);
-        if (result.ec != std::errc() || result.ptr != pcNextDelimiter)
+        if (result.ec != std::errc() || result.ptr != pcTokenEnd)
         {
             pclMyLogger->debug("Failed to parse RECEIVER_SW_VERSION.");
             return false;
-- 
2.43.0


From f31c775d027bd2b7949a9bb90dbde9e0bc5c4dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:55 +0000
Subject: [PATCH 070/120] fix: reject RXCONFIG messages that are too short to
 hold their checksums

---
 src/decoders/oem/src/rxconfig/rxconfig_handler.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index 2cf6ff6..87daa11 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -123,6 +123,7 @@ STATUS RxConfigHandler::Decode(const unsigned char* pucMessage_, CompositeField&
 
     const unsigned char* pucTempMessagePointer = pucMessage_;
     std::vector<uint8_t> stEmbeddedMessageData;
+    if (stRxConfigMetaData_.uiLength < stRxConfigMetaData_.uiHeaderLength) { return STATUS::MALFORMED_INPUT; }
     uint32_t uiTotalPayloadSize = stRxConfigMetaData_.uiLength - stRxConfigMetaData_.uiHeaderLength;
     stInterMessage_ = CompositeField(0, 1);
     stInterMessage_.SetFieldInfo(pclMyMsgDb != nullptr ? pclMyMsgDb->GetMsgDef(stRxConfigMetaData_.usMessageId) : nullptr,
@@ -136,7 +137,7 @@ STATUS RxConfigHandler::Decode(const unsigned char* pucMessage_, CompositeField&
     case HEADER_FORMAT::ABB_ASCII: {
         // Fix embedded header indentation
         const auto* pcTempBuffer = reinterpret_cast<const char*>(pucTempMessagePointer);
-        ConsumeAbbrevFormatting(&pcTempBuffer);
+        ConsumeAbbrevFormatting(&pcTempBuffer, pcTempBuffer + uiTotalPayloadSize);
         pucTempMessagePointer = reinterpret_cast<const unsigned char*>(pcTempBuffer);
         stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(OEM4_ABBREV_ASCII_SYNC));
         uiCopyableEmbeddedMsgBytes = uiTotalPayloadSize - (pucTempMessagePointer - pucMessage_);
@@ -144,11 +145,14 @@ STATUS RxConfigHandler::Decode(const unsigned char* pucMessage_, CompositeField&
     }
     case HEADER_FORMAT::ASCII: {
         // Ignore {CRC}*{CRC}\r\n at end of buffer
-        uiCopyableEmbeddedMsgBytes = uiTotalPayloadSize - OEM4_ASCII_CRC_LENGTH - 1 - OEM4_ASCII_CRC_LENGTH - 2;
+        constexpr uint32_t uiTrailerLength = OEM4_ASCII_CRC_LENGTH + 1 + OEM4_ASCII_CRC_LENGTH + 2;
+        if (uiTotalPayloadSize < uiTrailerLength) { return STATUS::MALFORMED_INPUT; }
+        uiCopyableEmbeddedMsgBytes = uiTotalPayloadSize - uiTrailerLength;
         break;
     }
     case HEADER_FORMAT::BINARY: {
         // Ignore CRCs at end of buffer
+        if (uiTotalPayloadSize < 2 * OEM4_BINARY_CRC_LENGTH) { return STATUS::MALFORMED_INPUT; }
         uiCopyableEmbeddedMsgBytes = uiTotalPayloadSize - 2 * OEM4_BINARY_CRC_LENGTH;
         break;
     }
-- 
2.43.0


From c02c51ad7b40b002b40040b82c0533e517ecdde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:55 +0000
Subject: [PATCH 071/120] fix: write all the digits of the checksum of the
 message that an RXCONFIG message holds

---
 src/decoders/oem/src/rxconfig/rxconfig_handler.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index 87daa11..28be2e3 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -175,10 +175,15 @@ STATUS RxConfigHandler::Decode(const unsigned char* pucMessage_, CompositeField&
     {
     case HEADER_FORMAT::ASCII: {
         // invert ascii crc
-        const uint32_t uiCRC = strtoul(reinterpret_cast<const char*>(pucTempMessagePointer), nullptr, 16) ^ 0xFFFFFFFF;
-        char pucCRC[OEM4_ASCII_CRC_LENGTH];
-        std::to_chars(pucCRC, pucCRC + OEM4_ASCII_CRC_LENGTH, uiCRC, 16);
-        for (auto c : pucCRC) { stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(c)); }
+        const auto* pcEmbeddedCrc = reinterpret_cast<const char*>(pucTempMessagePointer);
+        uint32_t uiCRC = 0;
+        auto result = std::from_chars(pcEmbeddedCrc, pcEmbeddedCrc + OEM4_ASCII_CRC_LENGTH, uiCRC, 16);
+        if (result.ec != std::errc() || result.ptr != pcEmbeddedCrc + OEM4_ASCII_CRC_LENGTH) { return STATUS::MALFORMED_INPUT; }
+        uiCRC ^= 0xFFFFFFFF;
+        for (int32_t iShift = 28; iShift >= 0; iShift -= 4)
+        {
+            stEmbeddedMessageData.emplace_back(static_cast<uint8_t>("0123456789abcdef"[(uiCRC >> iShift) & 0xF]));
+        }
         stEmbeddedMessageData.emplace_back(static_cast<uint8_t>('\r'));
         stEmbeddedMessageData.emplace_back(static_cast<uint8_t>('\n'));
         break;
-- 
2.43.0


From 72e9565011b528a711688f3af43312b85b3af2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:55 +0000
Subject: [PATCH 072/120] fix: write the checksum of the binary message that an
 RXCONFIG message holds in its byte order

---
 src/decoders/oem/src/rxconfig/rxconfig_handler.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index 28be2e3..1c9199e 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -190,10 +190,10 @@ STATUS RxConfigHandler::Decode(const unsigned char* pucMessage_, CompositeField&
     }
     case HEADER_FORMAT::BINARY: {
         auto uiCRC = LoadValueFromBuffer<uint32_t>(pucTempMessagePointer) ^ 0xFFFFFFFF;
-        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 24));
-        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 16));
-        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 8));
         stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC));
+        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 8));
+        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 16));
+        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 24));
         break;
     }
     default: break;
-- 
2.43.0


From 0ae727ff1c6413e96f8fbd7a09cfc1a1c1ce9a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:55 +0000
Subject: [PATCH 073/120] fix: do not decode RXCONFIG messages with a
 definition that does not hold a message

---
 src/decoders/oem/src/rxconfig/rxconfig_handler.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index 1c9199e..b37dfc9 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -129,6 +129,12 @@ STATUS RxConfigHandler::Decode(const unsigned char* pucMessage_, CompositeField&
     stInterMessage_.SetFieldInfo(pclMyMsgDb != nullptr ? pclMyMsgDb->GetMsgDef(stRxConfigMetaData_.usMessageId) : nullptr,
                                  stRxConfigMetaData_.uiMessageCrc);
     if (stInterMessage_.GetFieldInfo() == nullptr) { return STATUS::NO_DEFINITION; }
+    // Only the latest definition was validated
+    const auto& vFieldDefs = stInterMessage_.GetFieldInfo()->messageOrderedFields;
+    if (vFieldDefs.size() != 1 || vFieldDefs[0]->type != pclFieldDef->type || vFieldDefs[0]->dataType.name != pclFieldDef->dataType.name)
+    {
+        return STATUS::NO_DEFINITION;
+    }
 
     // Determine how many bytes to copy from raw message data to the embedded message data.
     uint32_t uiCopyableEmbeddedMsgBytes;
-- 
2.43.0


From e1998b4ac5491135b976ce8f4f99b2fe97608e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:55 +0000
Subject: [PATCH 074/120] fix: do not read past the end of the message that an
 RXCONFIG message holds

---
 src/decoders/oem/src/rxconfig/rxconfig_handler.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index b37dfc9..c6bbe1f 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -434,11 +434,22 @@ STATUS RxConfigHandler::Encode(unsigned char* const* ppucBuffer_, uint32_t uiBuf
     const auto& fieldDefinitions = stMessage_.GetFieldInfo()->messageOrderedFields;
     if (fieldDefinitions.empty()) { return STATUS::MALFORMED_INPUT; }
     const auto fieldValue = stMessage_.GetFieldValue<std::vector<uint8_t>>(*fieldDefinitions.at(0));
-    const auto* pucEmbeddedDataBuffer = reinterpret_cast<const unsigned char*>(fieldValue.data());
+    // The decoders expect text to be terminated and a binary message to hold all of its header
+    std::vector<unsigned char> vEmbeddedData(fieldValue.begin(), fieldValue.end());
+    vEmbeddedData.resize(std::max<size_t>(fieldValue.size(), OEM4_BINARY_HEADER_LENGTH) + 1, '\0');
+    const unsigned char* pucEmbeddedDataBuffer = vEmbeddedData.data();
 
     eStatus = clMyHeaderDecoder.Decode(pucEmbeddedDataBuffer, stEmbeddedHeader, stEmbeddedMetaData_);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
 
+    stEmbeddedMetaData_.uiLength = static_cast<uint32_t>(fieldValue.size());
+    const bool bIsBinary = stEmbeddedMetaData_.eFormat == HEADER_FORMAT::BINARY || stEmbeddedMetaData_.eFormat == HEADER_FORMAT::SHORT_BINARY;
+    if (stEmbeddedMetaData_.uiLength < stEmbeddedMetaData_.uiHeaderLength ||
+        (bIsBinary && stEmbeddedMetaData_.uiLength - stEmbeddedMetaData_.uiHeaderLength < stEmbeddedMetaData_.uiBinaryMsgLength))
+    {
+        return STATUS::MALFORMED_INPUT;
+    }
+
     eStatus = clMyMessageDecoder.Decode(pucEmbeddedDataBuffer + stEmbeddedMetaData_.uiHeaderLength, stEmbeddedMessage, stEmbeddedMetaData_);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
 
-- 
2.43.0


From adc2f3d5f793150291b476d6e792362f3d8181f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:55 +0000
Subject: [PATCH 075/120] fix: keep track of the space that is left when
 encoding RXCONFIG messages

---
 src/decoders/oem/src/rxconfig/rxconfig_handler.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index c6bbe1f..d868351 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -234,6 +234,7 @@ STATUS RxConfigHandler::EncodeJSON(unsigned char* const* ppucBuffer_, uint32_t u
     eStatus = clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, HEADER_FORMAT::BINARY, ENCODE_FORMAT::JSON);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
 
     // -- Encode RXConfig Body --
     if (!CopyToBuffer(&pucTempEncodeBuffer, uiBufferSize_, R"(,"body": )")) { return STATUS::BUFFER_FULL; }
@@ -244,6 +245,7 @@ STATUS RxConfigHandler::EncodeJSON(unsigned char* const* ppucBuffer_, uint32_t u
                                  stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::JSON);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stEmbeddedMessageData_.uiMessageLength;
+    uiBufferSize_ -= stEmbeddedMessageData_.uiMessageLength;
     stMessageData_.uiMessageBodyLength = pucTempEncodeBuffer - stMessageData_.pucMessageBody;
 
     if (!CopyToBuffer(&pucTempEncodeBuffer, uiBufferSize_, '}')) { return STATUS::BUFFER_FULL; }
@@ -269,6 +271,7 @@ STATUS RxConfigHandler::EncodeAbbrevAscii(unsigned char* const* ppucBuffer_, uin
         clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, HEADER_FORMAT::BINARY, ENCODE_FORMAT::ABBREV_ASCII);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
 
     // -- Encode Embedded Header --
     stEmbeddedMessageData_.pucMessage = pucTempEncodeBuffer;
@@ -283,6 +286,7 @@ STATUS RxConfigHandler::EncodeAbbrevAscii(unsigned char* const* ppucBuffer_, uin
                                        ENCODE_FORMAT::ABBREV_ASCII);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stEmbeddedMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stEmbeddedMessageData_.uiMessageHeaderLength;
 
     // remove sync byte at start of embedded message header
     stEmbeddedMessageData_.pucMessageHeader[0] = ' ';
@@ -302,6 +306,7 @@ STATUS RxConfigHandler::EncodeAbbrevAscii(unsigned char* const* ppucBuffer_, uin
                                      stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::ABBREV_ASCII);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stEmbeddedMessageData_.uiMessageBodyLength;
+    uiBufferSize_ -= stEmbeddedMessageData_.uiMessageBodyLength;
 
     // -- Resolve Message Lengths --
     stMessageData_.uiMessageBodyLength = pucTempEncodeBuffer - stMessageData_.pucMessageBody;
@@ -326,6 +331,7 @@ STATUS RxConfigHandler::EncodeAscii(unsigned char* const* ppucBuffer_, uint32_t
         clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::ASCII);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
 
     // -- Encode Embedded Message --
     stMessageData_.pucMessageBody = pucTempEncodeBuffer;
@@ -333,6 +339,7 @@ STATUS RxConfigHandler::EncodeAscii(unsigned char* const* ppucBuffer_, uint32_t
                                  stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::ASCII);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stEmbeddedMessageData_.uiMessageLength;
+    uiBufferSize_ -= stEmbeddedMessageData_.uiMessageLength;
 
     // -- Write CRC --
 
@@ -377,6 +384,7 @@ STATUS RxConfigHandler::EncodeBinary(unsigned char* const* ppucBuffer_, uint32_t
         clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::BINARY);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
 
     // -- Encode Embedded Message --
     stMessageData_.pucMessageBody = pucTempEncodeBuffer;
@@ -384,6 +392,7 @@ STATUS RxConfigHandler::EncodeBinary(unsigned char* const* ppucBuffer_, uint32_t
                                  stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::BINARY);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stEmbeddedMessageData_.uiMessageLength;
+    uiBufferSize_ -= stEmbeddedMessageData_.uiMessageLength;
 
     // -- Write CRC --
     // Backtrack over CRC
-- 
2.43.0


From e00403bbad3f9517f18fef59ada37e58a1575426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:55 +0000
Subject: [PATCH 076/120] fix: encode RXCONFIG messages that hold a message
 with a short header

---
 src/decoders/oem/src/rxconfig/rxconfig_handler.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index d868351..bb7fb07 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -328,7 +328,7 @@ STATUS RxConfigHandler::EncodeAscii(unsigned char* const* ppucBuffer_, uint32_t
     // Abuse the fact that header format is only used for determining whether the header is long or short
     stMessageData_.pucMessageHeader = *ppucBuffer_;
     eStatus =
-        clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::ASCII);
+        clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, HEADER_FORMAT::BINARY, ENCODE_FORMAT::ASCII);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
     uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
@@ -381,7 +381,7 @@ STATUS RxConfigHandler::EncodeBinary(unsigned char* const* ppucBuffer_, uint32_t
     // -- Encode RXConfig Header --
     stMessageData_.pucMessageHeader = *ppucBuffer_;
     eStatus =
-        clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::BINARY);
+        clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, HEADER_FORMAT::BINARY, ENCODE_FORMAT::BINARY);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
     uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
@@ -398,11 +398,7 @@ STATUS RxConfigHandler::EncodeBinary(unsigned char* const* ppucBuffer_, uint32_t
     // Backtrack over CRC
     pucTempEncodeBuffer -= OEM4_BINARY_CRC_LENGTH;
     uiBufferSize_ += OEM4_BINARY_CRC_LENGTH;
-    // Fill in Embedded Binary Header length
-    uint32_t uiEmbeddedBodyLength = pucTempEncodeBuffer - stEmbeddedMessageData_.pucMessageBody;
-    auto stEmbeddedHeader = LoadValueFromBuffer<Oem4BinaryHeader>(stEmbeddedMessageData_.pucMessageHeader);
-    stEmbeddedHeader.usLength = static_cast<uint16_t>(uiEmbeddedBodyLength);
-    std::memcpy(stEmbeddedMessageData_.pucMessageHeader, &stEmbeddedHeader, sizeof(Oem4BinaryHeader));
+    // The Embedded Binary Header length was filled in when the message was encoded
 
     // Fill in Regular Binary Header length
     uint32_t uiRxLength = pucTempEncodeBuffer - stMessageData_.pucMessageBody + OEM4_BINARY_CRC_LENGTH;
-- 
2.43.0


From eb184259e61924d88f5c7c93a0672b3e31fbaf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:47 +0000
Subject: [PATCH 077/120] fix: do not keep the fields of the previous header
 when decoding one that does not have them

---
 src/decoders/oem/src/header_decoder.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index 9c0bb03..f05ff50 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -321,6 +321,9 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
 
     const auto* pcTempBuf = reinterpret_cast<const char*>(pucLogBuf_);
 
+    // Not every format has every field, do not keep what a previous header had in them
+    stInterHeader_ = IntermediateHeader();
+
     stMetaData_.eFormat = [&] {
         switch (pucLogBuf_[0])
         {
@@ -363,6 +366,12 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
             stMetaData_.messageName = "UNKNOWN";
             stMetaData_.uiHeaderLength = static_cast<uint32_t>(pcTempBuf - reinterpret_cast<const char*>(pucLogBuf_));
             stInterHeader_.ucMessageType = static_cast<uint8_t>(MESSAGE_TYPE_MASK::RESPONSE);
+            stMetaData_.ucSiblingId = 0;
+            stMetaData_.eTimeStatus = TIME_STATUS::UNKNOWN;
+            stMetaData_.usWeek = 0;
+            stMetaData_.dMilliseconds = 0.0;
+            stMetaData_.usMessageId = 0;
+            stMetaData_.uiMessageCrc = 0;
 
             return STATUS::SUCCESS;
         }
@@ -423,8 +432,6 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
     }
 
     case HEADER_FORMAT::SHORT_BINARY: {
-        // Reset the IntermediateHeader ucMessageType because can incorrectly set ucSiblingId and bResponse if it isn't
-        stInterHeader_.ucMessageType = 0;
         auto stBinaryShortHeader = LoadValueFromBuffer<Oem4BinaryShortHeader>(pucLogBuf_);
         stInterHeader_.usLength = stBinaryShortHeader.ucLength;
         stInterHeader_.usMessageId = stBinaryShortHeader.usMessageId;
-- 
2.43.0


From 6af2ad6c017065328637ab496c8f8441a4a2158a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:47 +0000
Subject: [PATCH 078/120] fix: do not take the checksum of the message that an
 RXCONFIG message holds for its body

property C22
---
 src/decoders/oem/src/rxconfig/rxconfig_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index bb7fb07..960a18f 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -450,7 +450,7 @@ STATUS RxConfigHandler::Encode(unsigned char* const* ppucBuffer_, uint32_t uiBuf
     stEmbeddedMetaData_.uiLength = static_cast<uint32_t>(fieldValue.size());
     const bool bIsBinary = stEmbeddedMetaData_.eFormat == HEADER_FORMAT::BINARY || stEmbeddedMetaData_.eFormat == HEADER_FORMAT::SHORT_BINARY;
     if (stEmbeddedMetaData_.uiLength < stEmbeddedMetaData_.uiHeaderLength ||
-        (bIsBinary && stEmbeddedMetaData_.uiLength - stEmbeddedMetaData_.uiHeaderLength < stEmbeddedMetaData_.uiBinaryMsgLength))
+        (bIsBinary && stEmbeddedMetaData_.uiLength - stEmbeddedMetaData_.uiHeaderLength < stEmbeddedMetaData_.uiBinaryMsgLength + OEM4_BINARY_CRC_LENGTH))
     {
         return STATUS::MALFORMED_INPUT;
     }
-- 
2.43.0


From 22488a79146c435e304d8a876e9c0a080bb29e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:31 +0000
Subject: [PATCH 079/120] fix: RANGECMP reports the GLONASS frequency with its
 offset already applied

property C20
---
 src/decoders/oem/src/rangecmp/range_decompressor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index ffee0d2..08896c1 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -397,7 +397,7 @@ void RangeDecompressor::RangeCmpToRange(const rangecmp::RangeCmp& stRangeCmpMess
         stRangeData.fCNo = GetBitfield<uint32_t, CNO_MASK>(stRangeCmpData.uiLockTimeCNoGloFreq) + CNO_SCALE_OFFSET;
         stRangeData.sGlonassFrequency = GetBitfield<int16_t, GLONASS_FREQUENCY_MASK>(stRangeCmpData.uiLockTimeCNoGloFreq);
 
-        double dWavelength = stCtStatus.GetSignalWavelength(stRangeData.sGlonassFrequency + GLONASS_FREQUENCY_NUMBER_OFFSET);
+        double dWavelength = stCtStatus.GetSignalWavelength(stRangeData.sGlonassFrequency);
         stRangeData.dAdr = stRangeCmpData.uiAdr / ADR_SCALE_FACTOR;
         double dAdrRolls = (stRangeData.dPsr / dWavelength + stRangeData.dAdr) / MAX_VALUE;
         stRangeData.dAdr -= MAX_VALUE * static_cast<uint64_t>(std::round(dAdrRolls));
-- 
2.43.0


From 3e512f4af053ade59ee7352206ccc1d5bb8f8fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:31 +0000
Subject: [PATCH 080/120] fix: recognise the invalid Doppler of secondary
 RANGECMP4 reference blocks

property C20
---
 include/novatel_edie/decoders/oem/rangecmp/common.hpp | 2 +-
 src/decoders/oem/src/rangecmp/range_decompressor.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/common.hpp b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
index 03265ab..1a349e9 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/common.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
@@ -284,7 +284,7 @@ constexpr uint32_t HEADER_BLOCK_SYSTEM_COUNT = 7;
 
 // Valid limits for various Reference/Differential Primary/Secondary Blocks
 constexpr int32_t SIG_RBLK_INVALID_PHR = -4194304;
-constexpr int32_t PSIG_RBLK_INVALID_DOPPLER = -33554432;
+constexpr std::array<int32_t, 2> RBLK_INVALID_DOPPLER = {-33554432, -8192};
 constexpr int32_t SSIG_RBLK_INVALID_PSR = -524288;
 constexpr int32_t SIG_DBLK_INVALID_PSR = -262144;
 constexpr int32_t SIG_DBLK_INVALID_PHR = -32768;
diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index 08896c1..e03f849 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -237,7 +237,7 @@ void RangeDecompressor::DecompressReferenceBlock(unsigned char** ppucData_, uint
     stRefBlock_.dPsr = llPsr * SIG_BLK_PSR_SCALE_FACTOR + (Secondary ? primaryPsr : 0);
     stRefBlock_.bValidPhr = iPhr != SIG_RBLK_INVALID_PHR;
     stRefBlock_.dPhr = iPhr * SIG_BLK_PHR_SCALE_FACTOR + stRefBlock_.dPsr;
-    stRefBlock_.bValidDoppler = iDoppler != PSIG_RBLK_INVALID_DOPPLER;
+    stRefBlock_.bValidDoppler = iDoppler != RBLK_INVALID_DOPPLER[Secondary];
     stRefBlock_.dDoppler = iDoppler * SIG_BLK_DOPPLER_SCALE_FACTOR + (Secondary ? primaryDoppler : 0);
 }
 
-- 
2.43.0


From 5eb43644dc11da3804059dfd70241b1df9b826d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:31 +0000
Subject: [PATCH 081/120] fix: sign extend and validate RANGECMP5 Doppler
 fields by their own widths

property C20
---
 include/novatel_edie/decoders/oem/rangecmp/common.hpp | 4 ++--
 src/decoders/oem/src/rangecmp/range_decompressor.cpp  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/common.hpp b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
index 1a349e9..608e653 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/common.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
@@ -352,7 +352,7 @@ constexpr uint32_t SIGNALS_BITS = 16;
 
 // Valid limits for various Reference Primary/Secondary Blocks
 constexpr int32_t SIG_RBLK_INVALID_PHR = -4194304;
-constexpr int32_t PSIG_RBLK_INVALID_DOPPLER = -33554432;
+constexpr std::array<int32_t, 2> RBLK_INVALID_DOPPLER = {-134217728, -32768};
 constexpr int32_t SSIG_RBLK_INVALID_PSR = -524288;
 
 // Bitfield sizes for the Measurement Block Header
@@ -379,7 +379,7 @@ constexpr uint32_t RBLK_PHR_SIGNEXT_MASK = 0xFF800000;
 constexpr std::array<uint32_t, 2> RBLK_PSR_BITS = {37, 20};
 constexpr uint32_t RBLK_PHR_BITS = 23;
 constexpr std::array<uint32_t, 2> RBLK_DOPPLER_BITS = {28, 16};
-constexpr std::array<uint32_t, 2> RBLK_DOPPLER_SIGNEXT_MASK = {0xFC000000, 0xFFFFC000};
+constexpr std::array<uint32_t, 2> RBLK_DOPPLER_SIGNEXT_MASK = {0xF0000000, 0xFFFF0000};
 constexpr std::array<int64_t, 2> RBLK_INVALID_PSR = {137438953471, -524288};
 
 } // namespace rangecmp5
diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index e03f849..70573ee 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -650,7 +650,7 @@ void RangeDecompressor::DecompressBlock(unsigned char** ppucData_, uint32_t& uiB
     stBlock_.bValidPhr = iPhr != SIG_RBLK_INVALID_PHR;
     // TODO: documentation says secondary adds primary phr, but target data suggests this is intended behaviour?
     stBlock_.dPhr = iPhr * SIG_BLK_PHR_SCALE_FACTOR + stBlock_.dPsr;
-    stBlock_.bValidDoppler = iDopplerBitfield != PSIG_RBLK_INVALID_DOPPLER;
+    stBlock_.bValidDoppler = iDopplerBitfield != RBLK_INVALID_DOPPLER[Secondary];
     stBlock_.dDoppler = iDopplerBitfield * SIG_BLK_DOPPLER_SCALE_FACTOR + (Secondary ? primaryDoppler : 0);
 }
 
-- 
2.43.0


From d3772289c634be2bdf373e3d1d5f42a95d81ebba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:31 +0000
Subject: [PATCH 082/120] fix: scale the Doppler of GPS L2P signals in
 RANGECMP2

property C20
---
 include/novatel_edie/decoders/oem/rangecmp/common.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/common.hpp b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
index 608e653..03719f7 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/common.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
@@ -576,6 +576,7 @@ constexpr double SignalScaling(SYSTEM system, SIGNAL_TYPE signal)
         case SIGNAL_TYPE::GPS_L1C: [[fallthrough]];
         case SIGNAL_TYPE::GPS_L1CA: return 1.0;
         case SIGNAL_TYPE::GPS_L2Y: [[fallthrough]];
+        case SIGNAL_TYPE::GPS_L2P: [[fallthrough]];
         case SIGNAL_TYPE::GPS_L2CM: return 154.0 / 120.0;
         case SIGNAL_TYPE::GPS_L5Q: return 154.0 / 115.0;
         default: return 0.0;
-- 
2.43.0


From a5061739ee1f0f2c1886626b164fd002ce903efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:31 +0000
Subject: [PATCH 083/120] fix: forget the reference blocks when the range
 decompressor is reset

property C20
---
 .../novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp b/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
index 84e2b26..8b617ad 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
@@ -60,6 +60,7 @@ class RangeDecompressor
     {
         for (auto& it : mMyRangeCmp2LockTimes) { it.second = {}; }
         for (auto& it : mMyRangeCmp4LockTimes) { it.second = {}; }
+        mMyReferenceBlocks.clear();
     }
 
     //! Decompresses a RANGECMP message provided in a buffer and overwrites it with the equivalent RANGE message.
-- 
2.43.0


From 16d795ef75d50d8d67c766bca5f62b03244f7db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:31 +0000
Subject: [PATCH 084/120] fix: remove dead reference blocks instead of zeroing
 them

property C20
---
 src/decoders/oem/src/rangecmp/range_decompressor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index 70573ee..800babd 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -488,9 +488,9 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
     // Clear any dead reference blocks on the whole second. We should be storing new ones.
     if (std::abs(dSecondOffset) < std::numeric_limits<double>::epsilon())
     {
-        for (auto& it : mMyReferenceBlocks)
+        for (auto it = mMyReferenceBlocks.begin(); it != mMyReferenceBlocks.end();)
         {
-            if (static_cast<MEASUREMENT_SOURCE>(it.first & 1) == eSource) { it.second = {}; }
+            it = static_cast<MEASUREMENT_SOURCE>(it->first & 1) == eSource ? mMyReferenceBlocks.erase(it) : std::next(it);
         }
     }
 
-- 
2.43.0


From 4ca6720d026983b837a80640828010cc7bd26cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:08 +0000
Subject: [PATCH 085/120] fix: continue lock times across the end of the GPS
 week

property C20
---
 .../oem/src/rangecmp/range_decompressor.cpp   | 25 +++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index 800babd..cb64958 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -58,6 +58,15 @@ void RangeDecompressor::LoadJsonDb(MessageDatabase::Ptr pclJsonDb_)
     clMyEncoder.LoadJsonDb(pclJsonDb_);
 }
 
+//------------------------------------------------------------------------------
+// Lock times continue from one GPS week into the next.
+//------------------------------------------------------------------------------
+static double GetGpsMilliseconds(const MetaDataStruct& stMetaData_)
+{
+    constexpr double millisecondsPerWeek = 604800000.0;
+    return stMetaData_.usWeek * millisecondsPerWeek + stMetaData_.dMilliseconds;
+}
+
 //------------------------------------------------------------------------------
 // The lock time can only report up to 131071ms (0x1FFFF). If this value is
 // reached, the lock time must continue to increment. Once the saturated value
@@ -76,16 +85,17 @@ double RangeDecompressor::GetRangeCmp2LockTime(const MetaDataStruct& stMetaData_
     using namespace rangecmp2;
 
     double dLockTimeMilliseconds = uiLockTimeBits_;
+    const double dGpsMilliseconds = GetGpsMilliseconds(stMetaData_);
 
     LockTimeInfo& stLockTimeInfo = mMyRangeCmp2LockTimes[key_];
     if (uiLockTimeBits_ == SIG_LOCKTIME_MASK >> Lsb(SIG_LOCKTIME_MASK))
     {
         // If the lock time was already saturated, use the stored time to add the missing offset.
-        if (stLockTimeInfo.bLockTimeSaturated) { dLockTimeMilliseconds += stMetaData_.dMilliseconds - stLockTimeInfo.dLockTimeSaturatedMilliseconds; }
+        if (stLockTimeInfo.bLockTimeSaturated) { dLockTimeMilliseconds += dGpsMilliseconds - stLockTimeInfo.dLockTimeSaturatedMilliseconds; }
         // If the lock time is not already saturated, store this information if this observation is seen again.
         else
         {
-            stLockTimeInfo.dLockTimeSaturatedMilliseconds = stMetaData_.dMilliseconds;
+            stLockTimeInfo.dLockTimeSaturatedMilliseconds = dGpsMilliseconds;
             stLockTimeInfo.bLockTimeSaturated = true;
         }
     }
@@ -169,6 +179,7 @@ double RangeDecompressor::GetRangeCmp4LockTime(const MetaDataStruct& stMetaData_
 
     // Store the lock time if it is different from the once we have currently.
     LockTimeInfo& stLockTimeInfo = mMyRangeCmp4LockTimes[key_];
+    const double dGpsMilliseconds = GetGpsMilliseconds(stMetaData_);
 
     // Is the lock time relative and has a bitfield change been found?
     if (!stLockTimeInfo.bAbsolute && ucLockTimeBits_ != stLockTimeInfo.ucBits)
@@ -187,7 +198,7 @@ double RangeDecompressor::GetRangeCmp4LockTime(const MetaDataStruct& stMetaData_
         }
 
         // Record the last bit change and the bitfield that was changed to.
-        stLockTimeInfo.dLastBitfieldChangeMilliseconds = stMetaData_.dMilliseconds;
+        stLockTimeInfo.dLastBitfieldChangeMilliseconds = dGpsMilliseconds;
         stLockTimeInfo.ucBits = ucLockTimeBits_;
     }
     // If the lock time is absolute and the lock time bits have decreased, there was likely an outage.
@@ -195,7 +206,7 @@ double RangeDecompressor::GetRangeCmp4LockTime(const MetaDataStruct& stMetaData_
     {
         // In the event of an outage of any kind, reset the lock time to relative.
         stLockTimeInfo.bAbsolute = false;
-        stLockTimeInfo.dLastBitfieldChangeMilliseconds = stMetaData_.dMilliseconds;
+        stLockTimeInfo.dLastBitfieldChangeMilliseconds = dGpsMilliseconds;
         stLockTimeInfo.ucBits = ucLockTimeBits_;
 
         pclMyLogger->warn("Detected a lock time slip (perhaps caused by an outage) of {}ms at time {}w, {}ms.",
@@ -203,12 +214,12 @@ double RangeDecompressor::GetRangeCmp4LockTime(const MetaDataStruct& stMetaData_
     }
     // If the lock time is absolute and the bitfield hasn't changed within the expected time, reset the last change time
     else if (stLockTimeInfo.bAbsolute && ucLockTimeBits_ < 15 &&
-             stMetaData_.dMilliseconds - stLockTimeInfo.dLastBitfieldChangeMilliseconds > lockTime[ucLockTimeBits_ + 1])
+             dGpsMilliseconds - stLockTimeInfo.dLastBitfieldChangeMilliseconds > lockTime[ucLockTimeBits_ + 1])
     {
-        stLockTimeInfo.dLastBitfieldChangeMilliseconds = stMetaData_.dMilliseconds;
+        stLockTimeInfo.dLastBitfieldChangeMilliseconds = dGpsMilliseconds;
         pclMyLogger->warn("Expected a bit change much sooner at time {}w, {}ms.", stMetaData_.usWeek, stMetaData_.dMilliseconds);
     }
-    stLockTimeInfo.dMilliseconds = stMetaData_.dMilliseconds - stLockTimeInfo.dLastBitfieldChangeMilliseconds + lockTime[stLockTimeInfo.ucBits];
+    stLockTimeInfo.dMilliseconds = dGpsMilliseconds - stLockTimeInfo.dLastBitfieldChangeMilliseconds + lockTime[stLockTimeInfo.ucBits];
     return stLockTimeInfo.dMilliseconds / SEC_TO_MILLI_SEC;
 }
 
-- 
2.43.0


From 2f901f367736400810fb418b4fd284422e28a7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:08 +0000
Subject: [PATCH 086/120] fix: notice every RANGECMP4 lock time outage

property C20
---
 .../novatel_edie/decoders/oem/rangecmp/common.hpp |  3 ++-
 .../oem/src/rangecmp/range_decompressor.cpp       | 15 ++++++---------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/common.hpp b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
index 03719f7..d3ef0e6 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/common.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
@@ -758,7 +758,8 @@ struct LockTimeInfo
 {
     double dMilliseconds{0.0};                           // The current running lock time for this observation.
     double dLastBitfieldChangeMilliseconds{0.0};         // The last time (milliseconds from OEM header) lock time was updated.
-    uint8_t ucBits{std::numeric_limits<uint8_t>::max()}; // The last recorded bit pattern.
+    uint8_t ucBits{std::numeric_limits<uint8_t>::max()}; // The bit pattern the lock time is measured from.
+    uint8_t ucLastBits{0};                               // The bit pattern of the previous observation.
     bool bAbsolute{false};                               // Is the lock time absolute or relative?
 };
 
diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index cb64958..8330b7c 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -201,8 +201,11 @@ double RangeDecompressor::GetRangeCmp4LockTime(const MetaDataStruct& stMetaData_
         stLockTimeInfo.dLastBitfieldChangeMilliseconds = dGpsMilliseconds;
         stLockTimeInfo.ucBits = ucLockTimeBits_;
     }
-    // If the lock time is absolute and the lock time bits have decreased, there was likely an outage.
-    else if (ucLockTimeBits_ < stLockTimeInfo.ucBits)
+    // If the lock time is absolute and the lock time bits have decreased or have not increased within the expected time, there was likely an outage.
+    else if (stLockTimeInfo.bAbsolute &&
+             (ucLockTimeBits_ < stLockTimeInfo.ucLastBits ||
+              (ucLockTimeBits_ < 15 && dGpsMilliseconds - stLockTimeInfo.dLastBitfieldChangeMilliseconds + lockTime[stLockTimeInfo.ucBits] >
+                                           lockTime[ucLockTimeBits_ + 1])))
     {
         // In the event of an outage of any kind, reset the lock time to relative.
         stLockTimeInfo.bAbsolute = false;
@@ -212,13 +215,7 @@ double RangeDecompressor::GetRangeCmp4LockTime(const MetaDataStruct& stMetaData_
         pclMyLogger->warn("Detected a lock time slip (perhaps caused by an outage) of {}ms at time {}w, {}ms.",
                           stLockTimeInfo.dMilliseconds - lockTime[stLockTimeInfo.ucBits], stMetaData_.usWeek, stMetaData_.dMilliseconds);
     }
-    // If the lock time is absolute and the bitfield hasn't changed within the expected time, reset the last change time
-    else if (stLockTimeInfo.bAbsolute && ucLockTimeBits_ < 15 &&
-             dGpsMilliseconds - stLockTimeInfo.dLastBitfieldChangeMilliseconds > lockTime[ucLockTimeBits_ + 1])
-    {
-        stLockTimeInfo.dLastBitfieldChangeMilliseconds = dGpsMilliseconds;
-        pclMyLogger->warn("Expected a bit change much sooner at time {}w, {}ms.", stMetaData_.usWeek, stMetaData_.dMilliseconds);
-    }
+    stLockTimeInfo.ucLastBits = ucLockTimeBits_;
     stLockTimeInfo.dMilliseconds = dGpsMilliseconds - stLockTimeInfo.dLastBitfieldChangeMilliseconds + lockTime[stLockTimeInfo.ucBits];
     return stLockTimeInfo.dMilliseconds / SEC_TO_MILLI_SEC;
 }
-- 
2.43.0


From e544425c61b9a726fc23a00d0237fd10b7d4d3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:08 +0000
Subject: [PATCH 087/120] fix: do not mark observations of another satellite as
 grouped when a RANGECMP4 block is skipped

property C20
---
 src/decoders/oem/src/rangecmp/range_decompressor.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index 8330b7c..873e9ad 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -557,6 +557,7 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
 
             const uint32_t prn = PopLsb(satellites) + 1;
             const uint32_t uiIncludedSignalCount = PopCount(includedSignals[uiPrnIndex]);
+            const uint32_t uiFirstObservation = stRangeMessage_.uiNumberOfObservations;
             bool bPrimaryBlock = true;
             double primaryPseudorange{};
             double primaryDoppler{};
@@ -621,11 +622,11 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
             }
 
             // Update the grouping bit in the status word if multiple signals for this PRN are counted.
-            if (uiIncludedSignalCount > 1 && uiIncludedSignalCount <= stRangeMessage_.uiNumberOfObservations)
+            if (uiIncludedSignalCount > 1)
             {
-                for (uint32_t uiIndex = uiIncludedSignalCount; uiIndex > 0; uiIndex--)
+                for (uint32_t uiIndex = uiFirstObservation; uiIndex < stRangeMessage_.uiNumberOfObservations; uiIndex++)
                 {
-                    stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations - uiIndex].uiChannelTrackingStatus |= CTS_GROUPING_MASK;
+                    stRangeMessage_.astRangeData[uiIndex].uiChannelTrackingStatus |= CTS_GROUPING_MASK;
                 }
             }
         }
-- 
2.43.0


From 0f80eb208c694d5bcfe58c60f3ae89abc9ab70ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:36 +0000
Subject: [PATCH 088/120] fix: keep the histories of satellites with large
 numbers apart

property C20
---
 include/novatel_edie/decoders/oem/rangecmp/common.hpp     | 4 ++--
 src/decoders/oem/src/rangecmp/channel_tracking_status.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/common.hpp b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
index d3ef0e6..9131751 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/common.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
@@ -765,8 +765,8 @@ struct LockTimeInfo
 
 constexpr uint64_t MakeKey(SYSTEM system, uint32_t satellite, SIGNAL_TYPE signal, MEASUREMENT_SOURCE source)
 {
-    assert(static_cast<uint64_t>(system) < 16 && satellite < 64 && static_cast<uint64_t>(signal) < 16 && static_cast<uint64_t>(source) < 2);
-    return static_cast<uint64_t>(system) << 11 | satellite << 5 | static_cast<uint64_t>(signal) << 1 | static_cast<uint64_t>(source);
+    assert(static_cast<uint64_t>(system) < 16 && satellite <= 64 && static_cast<uint64_t>(signal) < 16 && static_cast<uint64_t>(source) < 2);
+    return static_cast<uint64_t>(system) << 12 | satellite << 5 | static_cast<uint64_t>(signal) << 1 | static_cast<uint64_t>(source);
 }
 
 } // namespace rangecmp4
diff --git a/src/decoders/oem/src/rangecmp/channel_tracking_status.cpp b/src/decoders/oem/src/rangecmp/channel_tracking_status.cpp
index e1c3b78..193076c 100644
--- a/src/decoders/oem/src/rangecmp/channel_tracking_status.cpp
+++ b/src/decoders/oem/src/rangecmp/channel_tracking_status.cpp
@@ -32,8 +32,8 @@ using namespace novatel::edie::oem;
 //------------------------------------------------------------------------------
 uint64_t ChannelTrackingStatus::MakeKey(const uint32_t prn, const MEASUREMENT_SOURCE source) const
 {
-    assert(static_cast<uint64_t>(eSatelliteSystem) < 16 && prn < 256 && static_cast<uint64_t>(eSignalType) < 32 && static_cast<uint64_t>(source) < 2);
-    return static_cast<uint64_t>(eSatelliteSystem) << 14 | prn << 6 | static_cast<uint64_t>(eSignalType) << 1 | static_cast<uint64_t>(source);
+    assert(static_cast<uint64_t>(eSatelliteSystem) < 16 && prn < 512 && static_cast<uint64_t>(eSignalType) < 32 && static_cast<uint64_t>(source) < 2);
+    return static_cast<uint64_t>(eSatelliteSystem) << 15 | prn << 6 | static_cast<uint64_t>(eSignalType) << 1 | static_cast<uint64_t>(source);
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 2ca5b63a616c9073958de29d60992654bc600fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:36 +0000
Subject: [PATCH 089/120] fix: do not store more observations than a RANGE
 message holds

property C21
---
 .../oem/src/rangecmp/range_decompressor.cpp    | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index 873e9ad..9a35494 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -58,6 +58,15 @@ void RangeDecompressor::LoadJsonDb(MessageDatabase::Ptr pclJsonDb_)
     clMyEncoder.LoadJsonDb(pclJsonDb_);
 }
 
+//------------------------------------------------------------------------------
+// A range log can only hold so many observations.
+//------------------------------------------------------------------------------
+static RangeData& NextRangeData(Range& stRangeMessage_)
+{
+    if (stRangeMessage_.uiNumberOfObservations >= RANGE_RECORD_MAX) { throw std::runtime_error("Too many observations for a RANGE message."); }
+    return stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations++];
+}
+
 //------------------------------------------------------------------------------
 // Lock times continue from one GPS week into the next.
 //------------------------------------------------------------------------------
@@ -467,7 +476,7 @@ void RangeDecompressor::RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMe
             ChannelTrackingStatus stCtStatus(stSatBlock, stSigBlock);
 
             // Construct the decompressed range data
-            RangeData& stRangeData = stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations++];
+            RangeData& stRangeData = NextRangeData(stRangeMessage_);
             stRangeData.usPrn = usPrn;
             stRangeData.sGlonassFrequency = GetBitfield<int16_t, SAT_GLONASS_FREQUENCY_ID_MASK>(stSatBlock.ulCombinedField);
             stRangeData.dPsr = iPsrBase + GetBitfield<uint64_t, SIG_PSR_DIFF_MASK>(stSigBlock.ullCombinedField2) / SIG_PSR_DIFF_SCALE_FACTOR;
@@ -591,8 +600,7 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
                             else { DecompressDifferentialBlock<true>(&pucData_, uiBytesLeft, uiBitOffset, stBlock, stRb.second, dSecondOffset); }
 
                             ChannelTrackingStatus stCtStatus(system, signal, stBlock);
-                            PopulateNextRangeData(stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations++], stBlock, stMetaData_,
-                                                  stCtStatus, prn, stRb.first.cGlonassFrequency);
+                            PopulateNextRangeData(NextRangeData(stRangeMessage_), stBlock, stMetaData_, stCtStatus, prn, stRb.first.cGlonassFrequency);
                         }
                         else
                         {
@@ -613,7 +621,7 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
                     else { DecompressReferenceBlock<true>(&pucData_, uiBytesLeft, uiBitOffset, stBlock, primaryPseudorange, primaryDoppler); }
 
                     ChannelTrackingStatus stCtStatus(system, signal, stBlock);
-                    RangeData& stRangeData = stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations++];
+                    RangeData& stRangeData = NextRangeData(stRangeMessage_);
                     PopulateNextRangeData(stRangeData, stBlock, stMetaData_, stCtStatus, prn, stMbHeader.cGlonassFrequency);
 
                     // Always store reference blocks.
@@ -731,7 +739,7 @@ void RangeDecompressor::RangeCmp5ToRange(unsigned char* pucData_, Range& stRange
                 else { DecompressBlock<true>(&pucData_, uiBytesLeft, uiBitOffset, stBlock, primaryPseudorange, primaryDoppler); }
 
                 ChannelTrackingStatus stCtStatus(system, signal, stBlock);
-                RangeData& stRangeData = stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations++];
+                RangeData& stRangeData = NextRangeData(stRangeMessage_);
                 PopulateNextRangeData(stRangeData, stBlock, stMetaData_, stCtStatus, prn, stMbHeader.cGlonassFrequency);
             }
 
-- 
2.43.0


From 8c7c353034e255ad9e0c5543c74b4a70e46ffc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:36 +0000
Subject: [PATCH 090/120] fix: do not read past the end of a compressed range
 message

property C21
---
 .../oem/rangecmp/range_decompressor.hpp       |  8 +--
 .../oem/src/rangecmp/range_decompressor.cpp   | 68 ++++++++++++++-----
 2 files changed, 55 insertions(+), 21 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp b/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
index 8b617ad..f9fbcb0 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
@@ -99,16 +99,16 @@ class RangeDecompressor
                          double primaryPsr, double primaryDoppler) const;
 
     //! Convert a RANGECMP message into RANGE message.
-    static void RangeCmpToRange(const rangecmp::RangeCmp& stRangeCmpMessage_, Range& stRangeMessage_);
+    static void RangeCmpToRange(const unsigned char* pucData_, uint32_t uiLength_, Range& stRangeMessage_);
 
     //! Convert a RANGECMP2 message into RANGE message.
-    void RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMessage_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_);
+    void RangeCmp2ToRange(const unsigned char* pucData_, uint32_t uiLength_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_);
 
     //! Convert a RANGECMP4 message into RANGE message.
-    void RangeCmp4ToRange(unsigned char* pucData_, Range& stRangeMessage_, const MetaDataStruct& pstMetaData_);
+    void RangeCmp4ToRange(unsigned char* pucData_, uint32_t uiLength_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_);
 
     //! Convert a RANGECMP5 message into RANGE message.
-    void RangeCmp5ToRange(unsigned char* pucData_, Range& stRangeMessage_, const MetaDataStruct& pstMetaData_);
+    void RangeCmp5ToRange(unsigned char* pucData_, uint32_t uiLength_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_);
 
     Filter clMyRangeCmpFilter;
     HeaderDecoder clMyHeaderDecoder;
diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index 9a35494..1ffde5d 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -67,6 +67,18 @@ static RangeData& NextRangeData(Range& stRangeMessage_)
     return stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations++];
 }
 
+//------------------------------------------------------------------------------
+// Read the element count that the body of every RANGECMP* message starts with, and move past it.
+//------------------------------------------------------------------------------
+template <typename Buffer> static uint32_t LoadElementCount(Buffer*& pucData_, uint32_t& uiLength_)
+{
+    if (uiLength_ < sizeof(uint32_t)) { throw std::runtime_error("Not enough bytes remaining in the buffer."); }
+    const auto uiCount = LoadValueFromBuffer<uint32_t>(pucData_);
+    pucData_ += sizeof(uint32_t);
+    uiLength_ -= sizeof(uint32_t);
+    return uiCount;
+}
+
 //------------------------------------------------------------------------------
 // Lock times continue from one GPS week into the next.
 //------------------------------------------------------------------------------
@@ -376,7 +388,7 @@ void RangeDecompressor::PopulateNextRangeData(RangeData& stRangeData_, const ran
 }
 
 //------------------------------------------------------------------------------
-void RangeDecompressor::RangeCmpToRange(const rangecmp::RangeCmp& stRangeCmpMessage_, Range& stRangeMessage_)
+void RangeDecompressor::RangeCmpToRange(const unsigned char* pucData_, uint32_t uiLength_, Range& stRangeMessage_)
 {
     using namespace rangecmp;
 
@@ -388,13 +400,18 @@ void RangeDecompressor::RangeCmpToRange(const rangecmp::RangeCmp& stRangeCmpMess
     constexpr std::array<double, 16> stdDevPsrScaling = {0.050, 0.075, 0.113, 0.169, 0.253,  0.380,  0.570,  0.854,
                                                          1.281, 2.375, 4.750, 9.500, 19.000, 38.000, 76.000, 152.000};
 
-    stRangeMessage_.uiNumberOfObservations = stRangeCmpMessage_.uiNumberOfObservations;
+    const auto uiNumberOfObservations = LoadElementCount(pucData_, uiLength_);
+    if (uiNumberOfObservations > RANGE_RECORD_MAX || uiNumberOfObservations * sizeof(RangeCmpData) > uiLength_)
+    {
+        throw std::runtime_error("Not enough bytes for the observations of the message.");
+    }
+    stRangeMessage_.uiNumberOfObservations = uiNumberOfObservations;
 
     // Decompress each field from the RangeCmpData and put it into the respective RangeData.
     for (uint32_t uiRangeDataIndex = 0; uiRangeDataIndex < stRangeMessage_.uiNumberOfObservations; uiRangeDataIndex++)
     {
         RangeData& stRangeData = stRangeMessage_.astRangeData[uiRangeDataIndex];
-        const RangeCmpData& stRangeCmpData = stRangeCmpMessage_.astRangeData[uiRangeDataIndex];
+        const auto stRangeCmpData = LoadValueFromBuffer<RangeCmpData>(pucData_ + uiRangeDataIndex * sizeof(RangeCmpData));
 
         // Grab the channel tracking status word and put it into our structure to use it later
         ChannelTrackingStatus stCtStatus(stRangeCmpData.uiChannelTrackingStatus);
@@ -422,7 +439,7 @@ void RangeDecompressor::RangeCmpToRange(const rangecmp::RangeCmp& stRangeCmpMess
 }
 
 //------------------------------------------------------------------------------
-void RangeDecompressor::RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMessage_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_)
+void RangeDecompressor::RangeCmp2ToRange(const unsigned char* pucData_, uint32_t uiLength_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_)
 {
     using namespace rangecmp2;
 
@@ -443,10 +460,16 @@ void RangeDecompressor::RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMe
                                                          0.03933, 0.05249, 0.07006, 0.09350, 0.12480, 0.16656, 0.22230, 0.22230};
 
     stRangeMessage_.uiNumberOfObservations = 0;
+    const auto uiNumberOfRangeDataBytes = LoadElementCount(pucData_, uiLength_);
+    if (uiNumberOfRangeDataBytes > uiLength_) { throw std::runtime_error("Not enough bytes remaining in the buffer."); }
     uint32_t uiRangeDataBytesDecompressed = 0;
-    while (uiRangeDataBytesDecompressed < stRangeCmpMessage_.uiNumberOfRangeDataBytes)
+    while (uiRangeDataBytesDecompressed < uiNumberOfRangeDataBytes)
     {
-        auto stSatBlock = LoadValueFromBuffer<SatelliteBlock>(&stRangeCmpMessage_.aucRangeData[uiRangeDataBytesDecompressed]);
+        if (sizeof(SatelliteBlock) > uiNumberOfRangeDataBytes - uiRangeDataBytesDecompressed)
+        {
+            throw std::runtime_error("Not enough bytes remaining in the buffer.");
+        }
+        auto stSatBlock = LoadValueFromBuffer<SatelliteBlock>(pucData_ + uiRangeDataBytesDecompressed);
 
         const auto eSystem = GetBitfield<SYSTEM, SAT_SATELLITE_SYSTEM_ID_MASK>(stSatBlock.ulCombinedField);
         const auto ucSignalBlockCount = GetBitfield<uint8_t, SAT_NUM_SIGNAL_BLOCKS_BASE_MASK>(stSatBlock.ulCombinedField);
@@ -462,7 +485,11 @@ void RangeDecompressor::RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMe
         for (uint8_t ucSignalBlockIndex = 0; ucSignalBlockIndex < ucSignalBlockCount; ucSignalBlockIndex++)
         {
             // Decompress the signal block
-            auto stSigBlock = LoadValueFromBuffer<SignalBlock>(&stRangeCmpMessage_.aucRangeData[uiRangeDataBytesDecompressed]);
+            if (sizeof(SignalBlock) > uiNumberOfRangeDataBytes - uiRangeDataBytesDecompressed)
+            {
+                throw std::runtime_error("Not enough bytes remaining in the buffer.");
+            }
+            auto stSigBlock = LoadValueFromBuffer<SignalBlock>(pucData_ + uiRangeDataBytesDecompressed);
 
             const auto eSignalType = GetBitfield<SIGNAL_TYPE, SIG_SIGNAL_TYPE_MASK>(stSigBlock.uiCombinedField1);
             const auto ucPsrBitfield = GetBitfield<uint8_t, SIG_PSR_STDDEV_MASK>(stSigBlock.ullCombinedField2);
@@ -496,7 +523,7 @@ void RangeDecompressor::RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMe
 }
 
 //------------------------------------------------------------------------------
-void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_)
+void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, uint32_t uiLength_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_)
 {
     using namespace rangecmp4;
 
@@ -513,8 +540,8 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
 
     stRangeMessage_.uiNumberOfObservations = 0;
     uint32_t uiBitOffset = 0;
-    auto uiBytesLeft = LoadValueFromBuffer<uint32_t>(pucData_);
-    pucData_ += sizeof(uint32_t);
+    auto uiBytesLeft = LoadElementCount(pucData_, uiLength_);
+    if (uiBytesLeft > uiLength_) { throw std::runtime_error("Not enough bytes remaining in the buffer."); }
 
     auto systems = ExtractBitfield<uint16_t, SATELLITE_SYSTEMS_BITS>(&pucData_, uiBytesLeft, uiBitOffset);
 
@@ -523,6 +550,7 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
     // can be read correctly.
     const auto skipDBlock = [&uiBytesLeft, &uiBitOffset, &pucData_](bool& primary) {
         const uint32_t uiBitsToSkip = primary ? SIG_DBLK_PRIMARY_BITS : SIG_DBLK_SECONDARY_BITS;
+        if (uiBitsToSkip > uiBytesLeft * 8 - uiBitOffset) { throw std::runtime_error("Not enough bytes remaining in the buffer."); }
         uiBytesLeft -= (uiBitsToSkip + uiBitOffset) / 8;
         pucData_ += (uiBitsToSkip + uiBitOffset) / 8;
         uiBitOffset = (uiBitsToSkip + uiBitOffset) % 8;
@@ -672,14 +700,14 @@ void RangeDecompressor::DecompressBlock(unsigned char** ppucData_, uint32_t& uiB
 }
 
 //------------------------------------------------------------------------------
-void RangeDecompressor::RangeCmp5ToRange(unsigned char* pucData_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_)
+void RangeDecompressor::RangeCmp5ToRange(unsigned char* pucData_, uint32_t uiLength_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_)
 {
     using namespace rangecmp5;
 
     stRangeMessage_.uiNumberOfObservations = 0;
     uint32_t uiBitOffset = 0;
-    auto uiBytesLeft = LoadValueFromBuffer<uint32_t>(pucData_);
-    pucData_ += sizeof(uint32_t);
+    auto uiBytesLeft = LoadElementCount(pucData_, uiLength_);
+    if (uiBytesLeft > uiLength_) { throw std::runtime_error("Not enough bytes remaining in the buffer."); }
 
     auto systems = ExtractBitfield<uint16_t, SATELLITE_SYSTEMS_BITS>(&pucData_, uiBytesLeft, uiBitOffset);
 
@@ -774,6 +802,7 @@ STATUS RangeDecompressor::Decompress(unsigned char* pucBuffer_, uint32_t uiBuffe
 
     HEADER_FORMAT eFormat = stMetaData_.eFormat;
     pucTempMessagePointer += stMetaData_.uiHeaderLength;
+    uint32_t uiBodyLength = stMetaData_.uiBinaryMsgLength;
     // If the message is not in binary format, we need to ensure that it is encoded to binary so that it can be decompressed.
     if (eFormat != HEADER_FORMAT::BINARY)
     {
@@ -785,6 +814,11 @@ STATUS RangeDecompressor::Decompress(unsigned char* pucBuffer_, uint32_t uiBuffe
         if (eStatus != STATUS::SUCCESS) { return eStatus; }
 
         pucTempMessagePointer = stMessageData.pucMessageBody;
+        uiBodyLength = stMessageData.uiMessageBodyLength;
+    }
+    else if (stMetaData_.uiHeaderLength > uiBufferSize_ || uiBodyLength > uiBufferSize_ - stMetaData_.uiHeaderLength)
+    {
+        return STATUS::MALFORMED_INPUT;
     }
 
     // Convert the RANGECMP* message to a RANGE message.
@@ -793,11 +827,11 @@ STATUS RangeDecompressor::Decompress(unsigned char* pucBuffer_, uint32_t uiBuffe
         Range stRange;
         switch (stMetaData_.usMessageId)
         {
-        case RANGECMP_MSG_ID: RangeCmpToRange(LoadValueFromBuffer<rangecmp::RangeCmp>(pucTempMessagePointer), stRange); break;
-        case RANGECMP2_MSG_ID: RangeCmp2ToRange(LoadValueFromBuffer<rangecmp2::RangeCmp>(pucTempMessagePointer), stRange, stMetaData_); break;
+        case RANGECMP_MSG_ID: RangeCmpToRange(pucTempMessagePointer, uiBodyLength, stRange); break;
+        case RANGECMP2_MSG_ID: RangeCmp2ToRange(pucTempMessagePointer, uiBodyLength, stRange, stMetaData_); break;
         case RANGECMP3_MSG_ID: [[fallthrough]];
-        case RANGECMP4_MSG_ID: RangeCmp4ToRange(pucTempMessagePointer, stRange, stMetaData_); break;
-        case RANGECMP5_MSG_ID: RangeCmp5ToRange(pucTempMessagePointer, stRange, stMetaData_); break;
+        case RANGECMP4_MSG_ID: RangeCmp4ToRange(pucTempMessagePointer, uiBodyLength, stRange, stMetaData_); break;
+        case RANGECMP5_MSG_ID: RangeCmp5ToRange(pucTempMessagePointer, uiBodyLength, stRange, stMetaData_); break;
         default: return STATUS::UNSUPPORTED;
         }
 
-- 
2.43.0


From 764ccbe98c6848565c3749e55ce985fbe638bc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:36 +0000
Subject: [PATCH 091/120] fix: do not write an uncompressed range message past
 the end of the buffer

property C21
---
 src/decoders/oem/src/rangecmp/range_decompressor.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index 1ffde5d..e054bc3 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -822,9 +822,9 @@ STATUS RangeDecompressor::Decompress(unsigned char* pucBuffer_, uint32_t uiBuffe
     }
 
     // Convert the RANGECMP* message to a RANGE message.
+    Range stRange;
     try
     {
-        Range stRange;
         switch (stMetaData_.usMessageId)
         {
         case RANGECMP_MSG_ID: RangeCmpToRange(pucTempMessagePointer, uiBodyLength, stRange); break;
@@ -837,7 +837,6 @@ STATUS RangeDecompressor::Decompress(unsigned char* pucBuffer_, uint32_t uiBuffe
 
         // Set the binary message length in the metadata for decoding purposes.
         stMetaData_.uiBinaryMsgLength = sizeof(stRange.uiNumberOfObservations) + stRange.uiNumberOfObservations * sizeof(RangeData);
-        memcpy(pucTempMessagePointer, &stRange, stMetaData_.uiBinaryMsgLength);
     }
     catch (...)
     {
@@ -853,7 +852,7 @@ STATUS RangeDecompressor::Decompress(unsigned char* pucBuffer_, uint32_t uiBuffe
     // The message should be returned in its original format.
     stMetaData_.eFormat = HEADER_FORMAT::BINARY;
     stMessage = {};
-    eStatus = clMyMessageDecoder.Decode(pucTempMessagePointer, stMessage, stMetaData_);
+    eStatus = clMyMessageDecoder.Decode(reinterpret_cast<const unsigned char*>(&stRange), stMessage, stMetaData_);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
 
     stMetaData_.eFormat = eFormat;
-- 
2.43.0


From c2f4a6a21e6f11da398b8f26ae7b2a80e0e21516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:36 +0000
Subject: [PATCH 092/120] fix: do not read uninitialised bits when extracting a
 bitfield

property C21
---
 include/novatel_edie/decoders/oem/rangecmp/common.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/common.hpp b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
index 9131751..4c07d31 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/common.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
@@ -109,7 +109,7 @@ template <typename T, uint32_t BitfieldBits> T ExtractBitfield(unsigned char** p
     if (BitfieldBits > uiBytesLeft_ * 8 - uiBitOffset_) { throw std::runtime_error("Not enough bytes remaining in the buffer."); }
 
     constexpr uint64_t mask = BitfieldBits < 64 ? (1ULL << BitfieldBits) - 1 : ~0ULL;
-    uint64_t result;
+    uint64_t result = 0;
     std::memcpy(&result, *ppucData_, std::min(uiBytesLeft_, 8U));
     result >>= uiBitOffset_;
     // A large bitfield with an offset can occupy 9 bytes
@@ -141,7 +141,7 @@ template <typename T> T ExtractBitfield(unsigned char** ppucData_, uint32_t& uiB
     if (uiBitsInBitfield_ > uiBytesLeft_ * 8 - uiBitOffset_) { throw std::runtime_error("Not enough bytes remaining in the buffer."); }
 
     uint64_t mask = uiBitsInBitfield_ < 64 ? (1ULL << uiBitsInBitfield_) - 1 : ~0ULL;
-    uint64_t result;
+    uint64_t result = 0;
     std::memcpy(&result, *ppucData_, std::min(uiBytesLeft_, 8U));
     result >>= uiBitOffset_;
     // A large bitfield with an offset can occupy 9 bytes
-- 
2.43.0


From d8719c83ef451ed350f311f472a4a54aa1adfd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:36 +0000
Subject: [PATCH 093/120] fix: do not count ADR rolls for RANGECMP signals that
 have no wavelength

property C21
---
 src/decoders/oem/src/rangecmp/range_decompressor.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index e054bc3..d3db0b0 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -433,8 +433,12 @@ void RangeDecompressor::RangeCmpToRange(const unsigned char* pucData_, uint32_t
 
         double dWavelength = stCtStatus.GetSignalWavelength(stRangeData.sGlonassFrequency);
         stRangeData.dAdr = stRangeCmpData.uiAdr / ADR_SCALE_FACTOR;
-        double dAdrRolls = (stRangeData.dPsr / dWavelength + stRangeData.dAdr) / MAX_VALUE;
-        stRangeData.dAdr -= MAX_VALUE * static_cast<uint64_t>(std::round(dAdrRolls));
+        // The number of rolls is not known for a signal without a wavelength.
+        if (dWavelength > 0.0)
+        {
+            double dAdrRolls = (stRangeData.dPsr / dWavelength + stRangeData.dAdr) / MAX_VALUE;
+            stRangeData.dAdr -= MAX_VALUE * static_cast<uint64_t>(std::round(dAdrRolls));
+        }
     }
 }
 
-- 
2.43.0


From d50005f837347aaf0b121c1a974d834d32bfad04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:36 +0000
Subject: [PATCH 094/120] fix: responses to RANGECMP commands are not
 compressed range messages

property C20
---
 src/decoders/oem/src/parser.cpp                      | 2 +-
 src/decoders/oem/src/rangecmp/range_decompressor.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/parser.cpp b/src/decoders/oem/src/parser.cpp
index 5f679c6..23ee578 100644
--- a/src/decoders/oem/src/parser.cpp
+++ b/src/decoders/oem/src/parser.cpp
@@ -145,7 +145,7 @@ Parser::ReadIntermediate(MessageDataStruct& stMessageData_, IntermediateHeader&
                 if ((pclMyUserFilter != nullptr) && (!pclMyUserFilter->DoFiltering(stMetaData_))) { continue; }
 
                 // Should we decompress this?
-                if (clMyRangeCmpFilter.DoFiltering(stMetaData_) && bMyDecompressRangeCmp)
+                if (clMyRangeCmpFilter.DoFiltering(stMetaData_) && !stMetaData_.bResponse && bMyDecompressRangeCmp)
                 {
                     eStatus = clMyRangeDecompressor.Decompress(pucMyFrameBufferPointer, uiParserInternalBufferSize, stMetaData_);
                     if (eStatus == STATUS::SUCCESS) { stHeader_.usMessageId = stMetaData_.usMessageId; }
diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index d3db0b0..1250ae9 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -802,7 +802,7 @@ STATUS RangeDecompressor::Decompress(unsigned char* pucBuffer_, uint32_t uiBuffe
     STATUS eStatus = clMyHeaderDecoder.Decode(pucTempMessagePointer, stHeader, stMetaData_);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
 
-    if (!clMyRangeCmpFilter.DoFiltering(stMetaData_)) { return STATUS::UNSUPPORTED; }
+    if (stMetaData_.bResponse || !clMyRangeCmpFilter.DoFiltering(stMetaData_)) { return STATUS::UNSUPPORTED; }
 
     HEADER_FORMAT eFormat = stMetaData_.eFormat;
     pucTempMessagePointer += stMetaData_.uiHeaderLength;
-- 
2.43.0


From dab5cfa967310e29a8a0fd537a429bdb9703a559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:41 +0000
Subject: [PATCH 095/120] fix: read conversion widths and precisions that have
 leading zeros

---
 .../novatel_edie/decoders/common/message_database.hpp  | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_database.hpp b/include/novatel_edie/decoders/common/message_database.hpp
index b71470b..a6cafd9 100644
--- a/include/novatel_edie/decoders/common/message_database.hpp
+++ b/include/novatel_edie/decoders/common/message_database.hpp
@@ -369,8 +369,9 @@ struct BaseField
         std::optional<int32_t> newWidth;
         if (std::isdigit(*sConvertString))
         {
-            newWidth = std::stoi(sConvertString);
-            sConvertString += std::to_string(*newWidth).length();
+            size_t digits = 0; // may be more than the number has, i.e. %08lx
+            newWidth = std::stoi(sConvertString, &digits);
+            sConvertString += digits;
         }
 
         if (*sConvertString == '.') { ++sConvertString; }
@@ -378,8 +379,9 @@ struct BaseField
         std::optional<int32_t> newPrecision;
         if (std::isdigit(*sConvertString))
         {
-            newPrecision = std::stoi(sConvertString);
-            sConvertString += std::to_string(*newPrecision).length();
+            size_t digits = 0;
+            newPrecision = std::stoi(sConvertString, &digits);
+            sConvertString += digits;
         }
 
         if (!std::isalpha(*sConvertString)) { throw std::runtime_error("Conversion string must contain a character"); }
-- 
2.43.0


From 4f3259a066519ddc464bd7c8be436e9507bc2d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:41 +0000
Subject: [PATCH 096/120] fix: recognise strings and lists that have no
 conversion string

---
 include/novatel_edie/decoders/common/message_database.hpp | 1 +
 src/decoders/common/src/json_db_reader.cpp                | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/novatel_edie/decoders/common/message_database.hpp b/include/novatel_edie/decoders/common/message_database.hpp
index a6cafd9..1b0ad83 100644
--- a/include/novatel_edie/decoders/common/message_database.hpp
+++ b/include/novatel_edie/decoders/common/message_database.hpp
@@ -323,6 +323,7 @@ struct BaseField
         dataType.name = eDataTypeName_;
         dataType.length = static_cast<uint16_t>(DataTypeSize(eDataTypeName_));
         if (!conversion_.empty()) { SetConversion(std::move(conversion_)); }
+        else { ComputeStringFlags(); }
     }
 
     virtual ~BaseField() = default;
diff --git a/src/decoders/common/src/json_db_reader.cpp b/src/decoders/common/src/json_db_reader.cpp
index 5b37228..0c9fe21 100644
--- a/src/decoders/common/src/json_db_reader.cpp
+++ b/src/decoders/common/src/json_db_reader.cpp
@@ -132,6 +132,7 @@ void ParseBaseField(element j_, BaseField& f_)
 
     const auto itrFieldTypeMapping = FieldTypeEnumLookup.find(std::string(AsStringView(Member(j_, "type"))));
     f_.type = itrFieldTypeMapping != FieldTypeEnumLookup.end() ? itrFieldTypeMapping->second : FIELD_TYPE::UNKNOWN;
+    f_.ComputeStringFlags(); // the field may not have a conversion string
 
     element conversionString;
     if (j_["conversionString"].get(conversionString) == simdjson::SUCCESS)
-- 
2.43.0


From 89d0a1d6f95ccf65bd34005fb83e4c9debefcd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:30 +0000
Subject: [PATCH 097/120] fix: refuse numbers of a JSON database that do not
 fit or are not numbers

---
 src/decoders/common/src/json_db_reader.cpp | 39 ++++++++++++++++------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/decoders/common/src/json_db_reader.cpp b/src/decoders/common/src/json_db_reader.cpp
index 0c9fe21..acd8440 100644
--- a/src/decoders/common/src/json_db_reader.cpp
+++ b/src/decoders/common/src/json_db_reader.cpp
@@ -28,7 +28,9 @@
 
 #include <algorithm>
 #include <cassert>
+#include <charconv>
 #include <future>
+#include <limits>
 #include <stdexcept>
 #include <string>
 
@@ -83,6 +85,23 @@ uint64_t AsUint(element el_)
     throw std::runtime_error("Expected an unsigned JSON integer value");
 }
 
+//! Read a JSON integer into an unsigned type. Throws if the value is not an integer or does not fit.
+template <typename T> T AsUintOf(element el_)
+{
+    const uint64_t u = AsUint(el_);
+    if (u > std::numeric_limits<T>::max()) { throw std::runtime_error("Unsigned JSON integer value is out of range"); }
+    return static_cast<T>(u);
+}
+
+//! Read a message definition CRC, a decimal number. Throws if the text is anything else.
+uint32_t ToCrc(std::string_view text_)
+{
+    uint32_t crc = 0;
+    const auto [end, error] = std::from_chars(text_.data(), text_.data() + text_.size(), crc);
+    if (error != std::errc() || end != text_.data() + text_.size()) { throw std::runtime_error("Invalid message definition CRC: " + std::string(text_)); }
+    return crc;
+}
+
 //! Read an optional string member, returning the default if the key is absent.
 std::string StringOr(element obj_, std::string_view key_, std::string_view default_)
 {
@@ -110,7 +129,7 @@ void ParseEnumerators(element j_, std::vector<EnumDataType>& vEnumerators_);
 //-----------------------------------------------------------------------
 void ParseEnumDataType(element j_, EnumDataType& f_)
 {
-    f_.value = static_cast<uint32_t>(AsUint(Member(j_, "value")));
+    f_.value = AsUintOf<uint32_t>(Member(j_, "value"));
     f_.name = AsString(Member(j_, "name"));
     f_.description = AsStringOrEmpty(Member(j_, "description"));
 }
@@ -120,7 +139,7 @@ void ParseSimpleDataType(element j_, SimpleDataType& f_)
 {
     const auto itrDataTypeMapping = DataTypeEnumLookup.find(std::string(AsStringView(Member(j_, "name"))));
     f_.name = itrDataTypeMapping != DataTypeEnumLookup.end() ? itrDataTypeMapping->second : DATA_TYPE::UNKNOWN;
-    f_.length = static_cast<uint16_t>(AsUint(Member(j_, "length")));
+    f_.length = AsUintOf<uint16_t>(Member(j_, "length"));
     f_.description = AsStringOrEmpty(Member(j_, "description"));
 }
 
@@ -160,11 +179,11 @@ void ParseArrayField(element j_, ArrayField& fd_)
 {
     ParseBaseField(j_, fd_);
 
-    fd_.arrayLength = static_cast<uint32_t>(AsUint(Member(j_, "arrayLength")));
+    fd_.arrayLength = AsUintOf<uint32_t>(Member(j_, "arrayLength"));
 
     element arrayLengthFieldSize;
     fd_.arrayLengthFieldSize =
-        j_["arrayLengthFieldSize"].get(arrayLengthFieldSize) == simdjson::SUCCESS ? static_cast<uint8_t>(AsUint(arrayLengthFieldSize)) : 4;
+        j_["arrayLengthFieldSize"].get(arrayLengthFieldSize) == simdjson::SUCCESS ? AsUintOf<uint8_t>(arrayLengthFieldSize) : 4;
 
     element arrayLengthRef;
     if (j_["arrayLengthRef"].get(arrayLengthRef) == simdjson::SUCCESS) { fd_.arrayLengthRef = AsStringOrEmpty(arrayLengthRef); }
@@ -176,11 +195,11 @@ void ParseFieldArrayField(element j_, FieldArrayField& fd_, const AlignFunction&
     ParseBaseField(j_, fd_);
 
     element arrayLength = Member(j_, "arrayLength");
-    fd_.arrayLength = arrayLength.is_null() ? 0 : static_cast<uint32_t>(AsUint(arrayLength));
+    fd_.arrayLength = arrayLength.is_null() ? 0 : AsUintOf<uint32_t>(arrayLength);
 
     element arrayLengthFieldSize;
     fd_.arrayLengthFieldSize =
-        j_["arrayLengthFieldSize"].get(arrayLengthFieldSize) == simdjson::SUCCESS ? static_cast<uint8_t>(AsUint(arrayLengthFieldSize)) : 4;
+        j_["arrayLengthFieldSize"].get(arrayLengthFieldSize) == simdjson::SUCCESS ? AsUintOf<uint8_t>(arrayLengthFieldSize) : 4;
 
     FieldInfo stFieldInfo{};
     fd_.fieldSize = fd_.arrayLength * ParseFields(Member(j_, "fields"), stFieldInfo, alignFn_);
@@ -252,7 +271,7 @@ uint32_t ParseFields(element j_, FieldInfo& vFields_, const AlignFunction& align
         {
             auto pstField = std::make_shared<ArrayField>();
             ParseArrayField(field, *pstField);
-            auto uiArrayLength = static_cast<uint32_t>(AsUint(Member(field, "arrayLength")));
+            auto uiArrayLength = AsUintOf<uint32_t>(Member(field, "arrayLength"));
             uiFieldSize += stDataType.length * uiArrayLength;
             if (sFieldType == "FIXED_LENGTH_ARRAY")
             {
@@ -307,16 +326,16 @@ std::vector<MessageDefinition::ConstPtr> ProcessMessageDefinitions(element jRoot
     {
         auto md = std::make_shared<MessageDefinition>();
         md->_id = AsString(Member(j_, "_id"));
-        md->logID = static_cast<uint32_t>(AsUint(Member(j_, "messageID"))); // this was "logID"
+        md->logID = AsUintOf<uint32_t>(Member(j_, "messageID")); // this was "logID"
         md->name = AsString(Member(j_, "name"));
         md->description = AsStringOrEmpty(Member(j_, "description"));
-        md->latestMessageCrc = std::stoul(AsString(Member(j_, "latestMsgDefCrc")));
+        md->latestMessageCrc = ToCrc(AsStringView(Member(j_, "latestMsgDefCrc")));
 
         object fields;
         if (Member(j_, "fields").get(fields) != simdjson::SUCCESS) { throw std::runtime_error("Expected 'fields' to be a JSON object"); }
         for (auto field : fields)
         {
-            uint32_t defCrc = std::stoul(std::string(field.key));
+            uint32_t defCrc = ToCrc(field.key);
             FieldInfo stFieldInfo{};
             ParseFields(field.value, stFieldInfo, alignFn_);
             md->fieldInfo[defCrc] = std::make_shared<FieldInfo>(std::move(stFieldInfo));
-- 
2.43.0


From 04df39f55b14470f759b2ea718a7dff77a914be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:00 +0000
Subject: [PATCH 098/120] fix: lay the records of field arrays out for the
 message family of the database

---
 .../decoders/common/message_database.hpp      | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_database.hpp b/include/novatel_edie/decoders/common/message_database.hpp
index 1b0ad83..2b5fa90 100644
--- a/include/novatel_edie/decoders/common/message_database.hpp
+++ b/include/novatel_edie/decoders/common/message_database.hpp
@@ -790,12 +790,8 @@ class MessageDatabase
             // Rebuild FieldInfo to ensure field indices match our message family
             for (const auto& [crc, fields] : copy->fieldInfo)
             {
-                // BaseFields were already deep-copied by the MessageDefinition copy constructor, but we need to
-                // cast off constness to rebuild field definitions with this DB's message family.
-                std::vector<BaseField::Ptr> fieldVec;
-                fieldVec.reserve(fields->messageOrderedFields.size());
-                for (const auto& f : fields->messageOrderedFields) { fieldVec.emplace_back(std::const_pointer_cast<BaseField>(f)); }
-                copy->fieldInfo[crc] = BuildFieldInfo(std::move(fieldVec), pDbMetadata ? pDbMetadata->messageFamily : "");
+                // BaseFields were already deep-copied by the MessageDefinition copy constructor
+                copy->fieldInfo[crc] = RebuildFieldInfo(*fields, pDbMetadata ? pDbMetadata->messageFamily : "");
             }
 
             vMessageDefinitions.push_back(copy);
@@ -961,6 +957,21 @@ class MessageDatabase
     }
 
   private:
+    //! Lay the given fields, which must not be shared, out for a message family, the fields of field arrays included.
+    static FieldInfo::ConstPtr RebuildFieldInfo(const FieldInfo& fieldInfo_, const std::string& messageFamily_)
+    {
+        std::vector<BaseField::Ptr> fields;
+        fields.reserve(fieldInfo_.messageOrderedFields.size());
+        for (const auto& f : fieldInfo_.messageOrderedFields)
+        {
+            // Cast off constness to rebuild field definitions
+            fields.emplace_back(std::const_pointer_cast<BaseField>(f));
+            auto fieldArrayField = std::dynamic_pointer_cast<FieldArrayField>(fields.back());
+            if (fieldArrayField) { fieldArrayField->fieldInfo = RebuildFieldInfo(*fieldArrayField->fieldInfo, messageFamily_); }
+        }
+        return BuildFieldInfo(std::move(fields), messageFamily_);
+    }
+
     void MapMessageEnumFields(const std::vector<BaseField::ConstPtr>& vMsgDefFields_)
     {
         for (const auto& field : vMsgDefFields_)
-- 
2.43.0


From ff19541cd6d8ca20cb2bfe71f3edcd69c71920c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:41 +0000
Subject: [PATCH 099/120] fix: keep finding a definition whose name or id
 another, removed definition had too

---
 .../decoders/common/message_database.hpp      | 35 ++++++++++++-------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_database.hpp b/include/novatel_edie/decoders/common/message_database.hpp
index 2b5fa90..ea72aa5 100644
--- a/include/novatel_edie/decoders/common/message_database.hpp
+++ b/include/novatel_edie/decoders/common/message_database.hpp
@@ -810,7 +810,10 @@ class MessageDatabase
         {
             RemoveEnumeration(enmDef->name);
             vEnumDefinitions.push_back(enmDef);
+            // An existing key may belong to another definition
+            mEnumName.erase(enmDef->name);
             mEnumName[enmDef->name] = enmDef;
+            mEnumId.erase(enmDef->_id);
             mEnumId[enmDef->_id] = enmDef;
         }
     }
@@ -934,7 +937,10 @@ class MessageDatabase
     {
         for (auto& enm : vEnumDefinitions)
         {
+            // An existing key may belong to another definition
+            mEnumName.erase(enm->name);
             mEnumName[enm->name] = enm;
+            mEnumId.erase(enm->_id);
             mEnumId[enm->_id] = enm;
         }
     }
@@ -946,6 +952,7 @@ class MessageDatabase
         mMessageId.clear();
         for (auto& msg : vMessageDefinitions)
         {
+            mMessageName.erase(msg->name); // an existing key may belong to another definition
             mMessageName[msg->name] = msg;
             mMessageId[msg->logID] = msg;
 
@@ -993,24 +1000,28 @@ class MessageDatabase
         }
     }
 
-    void RemoveMessageMapping(const MessageDefinition& msg_)
+    //! Remove the mapping of the key of a definition. A key that other definitions have too is mapped
+    //! to the last of those. The definition must outlive the call, as keys refer to the definitions.
+    template <typename Map, typename Definitions, typename Definition, typename KeyOf>
+    static void RemoveMapping(Map& mMap_, const Definitions& vDefinitions_, const Definition& def_, const KeyOf& keyOf_)
     {
-        // Check string against name map
-        const auto itName = mMessageName.find(msg_.name);
-        if (itName != mMessageName.end()) { mMessageName.erase(itName); }
+        const auto key = keyOf_(def_);
+        mMap_.erase(key);
+        const auto it = std::find_if(vDefinitions_.rbegin(), vDefinitions_.rend(),
+                                     [&](const auto& other_) { return other_.get() != &def_ && keyOf_(*other_) == key; });
+        if (it != vDefinitions_.rend()) { mMap_[keyOf_(**it)] = *it; }
+    }
 
-        const auto itId = mMessageId.find(msg_.logID);
-        if (itId != mMessageId.end()) { mMessageId.erase(itId); }
+    void RemoveMessageMapping(const MessageDefinition& msg_)
+    {
+        RemoveMapping(mMessageName, vMessageDefinitions, msg_, [](const MessageDefinition& m_) { return std::string_view(m_.name); });
+        RemoveMapping(mMessageId, vMessageDefinitions, msg_, [](const MessageDefinition& m_) { return static_cast<int32_t>(m_.logID); });
     }
 
     void RemoveEnumerationMapping(const EnumDefinition& enm_)
     {
-        // Check string against name map
-        const auto itName = mEnumName.find(enm_.name);
-        if (itName != mEnumName.end()) { mEnumName.erase(itName); }
-
-        const auto itId = mEnumId.find(enm_._id);
-        if (itId != mEnumId.end()) { mEnumId.erase(itId); }
+        RemoveMapping(mEnumName, vEnumDefinitions, enm_, [](const EnumDefinition& e_) { return std::string_view(e_.name); });
+        RemoveMapping(mEnumId, vEnumDefinitions, enm_, [](const EnumDefinition& e_) { return std::string_view(e_._id); });
     }
 
     std::vector<MessageDefinition::ConstPtr>::iterator GetMessageIt(uint32_t iMsgId_)
-- 
2.43.0


From 29ed4e75070994df09622e7a5efa7920ceda005e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:41 +0000
Subject: [PATCH 100/120] fix: allow a database to be merged with itself

---
 include/novatel_edie/decoders/common/message_database.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/novatel_edie/decoders/common/message_database.hpp b/include/novatel_edie/decoders/common/message_database.hpp
index ea72aa5..ee30772 100644
--- a/include/novatel_edie/decoders/common/message_database.hpp
+++ b/include/novatel_edie/decoders/common/message_database.hpp
@@ -781,6 +781,9 @@ class MessageDatabase
     //----------------------------------------------------------------------------
     void AppendMessages(const std::vector<MessageDefinition::ConstPtr>& vMessageDefinitions_)
     {
+        // Definitions are removed from the list when appending it to itself
+        if (&vMessageDefinitions_ == &vMessageDefinitions) { return AppendMessages(std::vector(vMessageDefinitions_)); }
+
         for (const auto& msgDef : vMessageDefinitions_)
         {
             RemoveMessage(msgDef->logID);
@@ -806,6 +809,9 @@ class MessageDatabase
     //----------------------------------------------------------------------------
     void AppendEnumerations(const std::vector<EnumDefinition::ConstPtr>& vEnumDefinitions_)
     {
+        // Definitions are removed from the list when appending it to itself
+        if (&vEnumDefinitions_ == &vEnumDefinitions) { return AppendEnumerations(std::vector(vEnumDefinitions_)); }
+
         for (const auto& enmDef : vEnumDefinitions_)
         {
             RemoveEnumeration(enmDef->name);
-- 
2.43.0


From 7a839e66c77ab43b9c67f62e6245f80a861b78b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:41 +0000
Subject: [PATCH 101/120] fix: do not change the message family of a database
 that was copied

---
 include/novatel_edie/decoders/common/message_database.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/common/message_database.hpp b/include/novatel_edie/decoders/common/message_database.hpp
index ee30772..e854ddd 100644
--- a/include/novatel_edie/decoders/common/message_database.hpp
+++ b/include/novatel_edie/decoders/common/message_database.hpp
@@ -910,7 +910,8 @@ class MessageDatabase
     //----------------------------------------------------------------------------
     void SetMessageFamily(const std::string& messageFamily_)
     {
-        if (!pDbMetadata) { pDbMetadata = std::make_shared<DbMetadata>(); }
+        // The metadata may be shared with a copy of this database
+        pDbMetadata = pDbMetadata ? std::make_shared<DbMetadata>(*pDbMetadata) : std::make_shared<DbMetadata>();
         pDbMetadata->messageFamily = messageFamily_;
         const auto previousMessageDefinitions = std::move(vMessageDefinitions);
         vMessageDefinitions.clear();
-- 
2.43.0


From cee9eb372d6b67d0319e7ef20e774fd89ce57b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:16 +0000
Subject: [PATCH 102/120] fix: do not change the enumerations of message
 definitions that are shared with others

---
 .../decoders/common/message_database.hpp      | 31 ++++++++++++++++---
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_database.hpp b/include/novatel_edie/decoders/common/message_database.hpp
index e854ddd..a2ef9e7 100644
--- a/include/novatel_edie/decoders/common/message_database.hpp
+++ b/include/novatel_edie/decoders/common/message_database.hpp
@@ -959,14 +959,17 @@ class MessageDatabase
         mMessageId.clear();
         for (auto& msg : vMessageDefinitions)
         {
+            if (!HasMappedEnumFields(*msg))
+            {
+                // Others who hold the definition, i.e. a copy of this database, have enumerations of their own
+                if (msg.use_count() > 1) { msg = std::make_shared<MessageDefinition>(*msg); }
+
+                for (const auto& item : msg->fieldInfo) { MapMessageEnumFields(item.second->messageOrderedFields); }
+            }
+
             mMessageName.erase(msg->name); // an existing key may belong to another definition
             mMessageName[msg->name] = msg;
             mMessageId[msg->logID] = msg;
-
-            for (const auto& item : msg->fieldInfo)
-            {
-                if (!item.second->messageOrderedFields.empty()) { MapMessageEnumFields(item.second->messageOrderedFields); }
-            }
         }
     }
 
@@ -986,6 +989,24 @@ class MessageDatabase
         return BuildFieldInfo(std::move(fields), messageFamily_);
     }
 
+    [[nodiscard]] bool HasMappedEnumFields(const std::vector<BaseField::ConstPtr>& vMsgDefFields_) const
+    {
+        return std::all_of(vMsgDefFields_.begin(), vMsgDefFields_.end(), [this](const BaseField::ConstPtr& field_) {
+            if (const auto* enumField = dynamic_cast<const EnumField*>(field_.get()); enumField && field_->type == FIELD_TYPE::ENUM)
+            {
+                return enumField->enumDef == GetEnumDefId(enumField->enumId);
+            }
+            const auto* fieldArrayField = dynamic_cast<const FieldArrayField*>(field_.get());
+            return !fieldArrayField || HasMappedEnumFields(fieldArrayField->fieldInfo->messageOrderedFields);
+        });
+    }
+
+    [[nodiscard]] bool HasMappedEnumFields(const MessageDefinition& msg_) const
+    {
+        return std::all_of(msg_.fieldInfo.begin(), msg_.fieldInfo.end(),
+                           [this](const auto& item_) { return HasMappedEnumFields(item_.second->messageOrderedFields); });
+    }
+
     void MapMessageEnumFields(const std::vector<BaseField::ConstPtr>& vMsgDefFields_)
     {
         for (const auto& field : vMsgDefFields_)
-- 
2.43.0


From e887a404f1da109fb97c1db7220f4e86f6ee35f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:31 +0000
Subject: [PATCH 103/120] fix: map enum fields anew when enumerations are
 added, replaced or removed

---
 .../decoders/common/message_database.hpp          |  6 +++++-
 .../implementations/message_database.cpp          |  2 ++
 src/decoders/common/src/message_database.cpp      | 15 ++++++++++-----
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_database.hpp b/include/novatel_edie/decoders/common/message_database.hpp
index a2ef9e7..c7518e1 100644
--- a/include/novatel_edie/decoders/common/message_database.hpp
+++ b/include/novatel_edie/decoders/common/message_database.hpp
@@ -814,7 +814,7 @@ class MessageDatabase
 
         for (const auto& enmDef : vEnumDefinitions_)
         {
-            RemoveEnumeration(enmDef->name);
+            EraseEnumeration(enmDef->name);
             vEnumDefinitions.push_back(enmDef);
             // An existing key may belong to another definition
             mEnumName.erase(enmDef->name);
@@ -822,6 +822,7 @@ class MessageDatabase
             mEnumId.erase(enmDef->_id);
             mEnumId[enmDef->_id] = enmDef;
         }
+        GenerateMessageMappings(); // map the enum fields to the new definitions
     }
 
     //----------------------------------------------------------------------------
@@ -989,6 +990,9 @@ class MessageDatabase
         return BuildFieldInfo(std::move(fields), messageFamily_);
     }
 
+    //! Remove an enumeration without mapping enum fields anew. Returns false if there was none.
+    bool EraseEnumeration(std::string_view strEnumeration_);
+
     [[nodiscard]] bool HasMappedEnumFields(const std::vector<BaseField::ConstPtr>& vMsgDefFields_) const
     {
         return std::all_of(vMsgDefFields_.begin(), vMsgDefFields_.end(), [this](const BaseField::ConstPtr& field_) {
diff --git a/python/src/py_common/implementations/message_database.cpp b/python/src/py_common/implementations/message_database.cpp
index c79d99f..9cbccbd 100644
--- a/python/src/py_common/implementations/message_database.cpp
+++ b/python/src/py_common/implementations/message_database.cpp
@@ -111,6 +111,7 @@ PYCOMMON_EXPORT void py_common::PyMessageDatabase::AppendEnumerations(const std:
     ThrowIfLocked();
     core_->AppendEnumerations(vEnumDefinitions_);
     AppendEnumTypes(vEnumDefinitions_);
+    UpdatePythonMessageTypes(); // message definitions with enum fields may have been replaced
 }
 
 PYCOMMON_EXPORT void py_common::PyMessageDatabase::RemoveMessage(uint32_t iMsgId_)
@@ -125,6 +126,7 @@ PYCOMMON_EXPORT void py_common::PyMessageDatabase::RemoveEnumeration(std::string
     ThrowIfLocked();
     RemoveEnumType(strEnumeration_);
     core_->RemoveEnumeration(strEnumeration_);
+    UpdatePythonMessageTypes(); // message definitions with enum fields may have been replaced
 }
 
 PYCOMMON_EXPORT nb::object py_common::PyMessageDatabase::fork()
diff --git a/src/decoders/common/src/message_database.cpp b/src/decoders/common/src/message_database.cpp
index 44fb36a..5ba93e2 100644
--- a/src/decoders/common/src/message_database.cpp
+++ b/src/decoders/common/src/message_database.cpp
@@ -47,14 +47,19 @@ void MessageDatabase::RemoveMessage(const uint32_t iMsgId_)
 
 //-----------------------------------------------------------------------
 void MessageDatabase::RemoveEnumeration(std::string_view strEnumeration_)
+{
+    if (EraseEnumeration(strEnumeration_)) { GenerateMessageMappings(); } // no enum field may stay mapped to the removed definition
+}
+
+//-----------------------------------------------------------------------
+bool MessageDatabase::EraseEnumeration(std::string_view strEnumeration_)
 {
     const auto iTer = GetEnumIt(strEnumeration_);
+    if (iTer == vEnumDefinitions.end()) { return false; }
 
-    if (iTer != vEnumDefinitions.end())
-    {
-        RemoveEnumerationMapping(**iTer);
-        vEnumDefinitions.erase(iTer);
-    }
+    RemoveEnumerationMapping(**iTer);
+    vEnumDefinitions.erase(iTer);
+    return true;
 }
 
 //-----------------------------------------------------------------------
-- 
2.43.0


From ee1fa62ab0dca23a24db1ec4325eee17a4fc2015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:24 +0000
Subject: [PATCH 104/120] fix: leave a database as it was when appending
 messages or changing its family fails

---
 .../decoders/common/message_database.hpp      | 48 +++++++++++--------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_database.hpp b/include/novatel_edie/decoders/common/message_database.hpp
index c7518e1..0241a90 100644
--- a/include/novatel_edie/decoders/common/message_database.hpp
+++ b/include/novatel_edie/decoders/common/message_database.hpp
@@ -781,23 +781,11 @@ class MessageDatabase
     //----------------------------------------------------------------------------
     void AppendMessages(const std::vector<MessageDefinition::ConstPtr>& vMessageDefinitions_)
     {
-        // Definitions are removed from the list when appending it to itself
-        if (&vMessageDefinitions_ == &vMessageDefinitions) { return AppendMessages(std::vector(vMessageDefinitions_)); }
-
-        for (const auto& msgDef : vMessageDefinitions_)
+        // Nothing is changed if a definition cannot be copied
+        for (auto& copy : CopyMessages(vMessageDefinitions_, pDbMetadata ? pDbMetadata->messageFamily : ""))
         {
-            RemoveMessage(msgDef->logID);
-
-            MessageDefinition::Ptr copy = std::make_shared<MessageDefinition>(*msgDef);
-
-            // Rebuild FieldInfo to ensure field indices match our message family
-            for (const auto& [crc, fields] : copy->fieldInfo)
-            {
-                // BaseFields were already deep-copied by the MessageDefinition copy constructor
-                copy->fieldInfo[crc] = RebuildFieldInfo(*fields, pDbMetadata ? pDbMetadata->messageFamily : "");
-            }
-
-            vMessageDefinitions.push_back(copy);
+            RemoveMessage(copy->logID);
+            vMessageDefinitions.push_back(std::move(copy));
         }
         GenerateMessageMappings();
     }
@@ -911,12 +899,15 @@ class MessageDatabase
     //----------------------------------------------------------------------------
     void SetMessageFamily(const std::string& messageFamily_)
     {
+        // Rebuild FieldInfo for all messages with the new message family. Nothing is changed if that fails.
+        auto messageDefinitions = CopyMessages(vMessageDefinitions, messageFamily_);
         // The metadata may be shared with a copy of this database
-        pDbMetadata = pDbMetadata ? std::make_shared<DbMetadata>(*pDbMetadata) : std::make_shared<DbMetadata>();
-        pDbMetadata->messageFamily = messageFamily_;
-        const auto previousMessageDefinitions = std::move(vMessageDefinitions);
-        vMessageDefinitions.clear();
-        AppendMessages(previousMessageDefinitions); // Rebuild FieldInfo for all messages with the new message family
+        auto metadata = pDbMetadata ? std::make_shared<DbMetadata>(*pDbMetadata) : std::make_shared<DbMetadata>();
+        metadata->messageFamily = messageFamily_;
+
+        pDbMetadata = std::move(metadata);
+        vMessageDefinitions.swap(messageDefinitions); // the keys of the mappings still refer to the previous definitions
+        GenerateMessageMappings();
     }
 
     //----------------------------------------------------------------------------
@@ -993,6 +984,21 @@ class MessageDatabase
     //! Remove an enumeration without mapping enum fields anew. Returns false if there was none.
     bool EraseEnumeration(std::string_view strEnumeration_);
 
+    //! Deep-copy message definitions, laid out for a message family.
+    static std::vector<MessageDefinition::ConstPtr> CopyMessages(const std::vector<MessageDefinition::ConstPtr>& vMessageDefinitions_,
+                                                                 const std::string& messageFamily_)
+    {
+        std::vector<MessageDefinition::ConstPtr> copies;
+        copies.reserve(vMessageDefinitions_.size());
+        for (const auto& msgDef : vMessageDefinitions_)
+        {
+            auto copy = std::make_shared<MessageDefinition>(*msgDef);
+            for (auto& [crc, fields] : copy->fieldInfo) { fields = RebuildFieldInfo(*fields, messageFamily_); }
+            copies.push_back(std::move(copy));
+        }
+        return copies;
+    }
+
     [[nodiscard]] bool HasMappedEnumFields(const std::vector<BaseField::ConstPtr>& vMsgDefFields_) const
     {
         return std::all_of(vMsgDefFields_.begin(), vMsgDefFields_.end(), [this](const BaseField::ConstPtr& field_) {
-- 
2.43.0


From 7c1141973d1bab16a76f4e0175a22954c07beed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:26 +0000
Subject: [PATCH 105/120] fix: refuse command parameters that are longer than
 any ASCII message

They were copied to a buffer on the stack without regard for its size.
---
 include/novatel_edie/decoders/oem/commander.hpp |  4 ++++
 src/decoders/oem/src/commander.cpp              | 14 ++++----------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/commander.hpp b/include/novatel_edie/decoders/oem/commander.hpp
index acb3697..a5f619a 100644
--- a/include/novatel_edie/decoders/oem/commander.hpp
+++ b/include/novatel_edie/decoders/oem/commander.hpp
@@ -107,6 +107,8 @@ class Commander
     //!   NO_DATABASE: No database was ever loaded into this component.
     //!   NO_DEFINITION: No definition was found in the database that corresponds
     //! to the provided Abbreviated ASCII command.
+    //!   MALFORMED_INPUT: The parameters of the command do not match its
+    //! definition.
     //!   BUFFER_FULL: An attempt was made to write bytes to the provided buffer,
     //! but the buffer is already full or could not write the bytes without
     //! over-running.
@@ -140,6 +142,8 @@ class Commander
     //!   NO_DATABASE: No database was ever loaded into this component.
     //!   NO_DEFINITION: No definition was found in the database that corresponds
     //! to the provided Abbreviated ASCII command.
+    //!   MALFORMED_INPUT: The parameters of the command do not match its
+    //! definition.
     //!   BUFFER_FULL: An attempt was made to write bytes to the provided buffer,
     //! but the buffer is already full or could not write the bytes without
     //! over-running.
diff --git a/src/decoders/oem/src/commander.cpp b/src/decoders/oem/src/commander.cpp
index 7974972..282f760 100644
--- a/src/decoders/oem/src/commander.cpp
+++ b/src/decoders/oem/src/commander.cpp
@@ -67,10 +67,7 @@ STATUS Commander::Encode(const char* pcAbbrevAsciiCommand_, const uint32_t uiAbb
     const std::string strCmdName = strAbbrevAsciiCommand.substr(0, ullPos);
     const std::string strCmdParams = strAbbrevAsciiCommand.substr(ullPos + 1);
 
-    char acCmdParams[MAX_ASCII_MESSAGE_LENGTH];
-    char* pcCmdParams = acCmdParams;
-    std::copy(strCmdParams.begin(), strCmdParams.end(), acCmdParams);
-    acCmdParams[strCmdParams.size()] = '\0';
+    if (strCmdParams.size() >= MAX_ASCII_MESSAGE_LENGTH) { return STATUS::MALFORMED_INPUT; }
 
     if (pclMyMsgDb == nullptr) { return STATUS::NO_DATABASE; }
 
@@ -87,7 +84,7 @@ STATUS Commander::Encode(const char* pcAbbrevAsciiCommand_, const uint32_t uiAbb
     stMetaData.usMessageId = static_cast<uint16_t>(pclMessageDef->logID);
     stMetaData.uiMessageCrc = static_cast<uint32_t>(pclMessageDef->fieldInfo.begin()->first);
 
-    STATUS eStatus = clMyMessageDecoder.Decode(reinterpret_cast<unsigned char*>(pcCmdParams), stIntermediateMessage, stMetaData);
+    STATUS eStatus = clMyMessageDecoder.Decode(reinterpret_cast<const unsigned char*>(strCmdParams.c_str()), stIntermediateMessage, stMetaData);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
 
     // Prime the intermediate header with information we already know
@@ -124,10 +121,7 @@ STATUS Commander::Encode(const MessageDatabase& clJsonDb_, const MessageDecoder&
     const std::string strCmdName = strAbbrevAsciiCommand.substr(0, ullPos);
     const std::string strCmdParams = strAbbrevAsciiCommand.substr(ullPos + 1);
 
-    unsigned char acCmdParams[MAX_ASCII_MESSAGE_LENGTH];
-    unsigned char* pucCmdParams = acCmdParams;
-    std::copy(strCmdParams.begin(), strCmdParams.end(), acCmdParams);
-    acCmdParams[strCmdParams.size()] = '\0';
+    if (strCmdParams.size() >= MAX_ASCII_MESSAGE_LENGTH) { return STATUS::MALFORMED_INPUT; }
 
     MessageDefinition::ConstPtr pclMessageDef = clJsonDb_.GetMsgDef(strCmdName);
     if (!pclMessageDef) { return STATUS::NO_DEFINITION; }
@@ -142,7 +136,7 @@ STATUS Commander::Encode(const MessageDatabase& clJsonDb_, const MessageDecoder&
     stMetaData.usMessageId = static_cast<uint16_t>(pclMessageDef->logID);
     stMetaData.uiMessageCrc = static_cast<uint32_t>(pclMessageDef->fieldInfo.begin()->first);
 
-    const STATUS eDecoderStatus = clMessageDecoder_.Decode(pucCmdParams, stIntermediateMessage, stMetaData);
+    const STATUS eDecoderStatus = clMessageDecoder_.Decode(reinterpret_cast<const unsigned char*>(strCmdParams.c_str()), stIntermediateMessage, stMetaData);
     if (eDecoderStatus != STATUS::SUCCESS) { return eDecoderStatus; }
 
     // Prime the intermediate header with information we already know
-- 
2.43.0


From c8d944c104da0c4e1bcab2a58d35c1cac037b8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:26 +0000
Subject: [PATCH 106/120] fix: do not take the name of a command without
 parameters for its parameters

The name also ends where the line ends.
---
 src/decoders/oem/src/commander.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/decoders/oem/src/commander.cpp b/src/decoders/oem/src/commander.cpp
index 282f760..265ef31 100644
--- a/src/decoders/oem/src/commander.cpp
+++ b/src/decoders/oem/src/commander.cpp
@@ -26,6 +26,8 @@
 
 #include "novatel_edie/decoders/oem/commander.hpp"
 
+#include <algorithm>
+
 using namespace novatel::edie;
 using namespace novatel::edie::oem;
 
@@ -63,9 +65,9 @@ STATUS Commander::Encode(const char* pcAbbrevAsciiCommand_, const uint32_t uiAbb
     if (eEncodeFormat_ != ENCODE_FORMAT::ASCII && eEncodeFormat_ != ENCODE_FORMAT::BINARY) { return STATUS::UNSUPPORTED; }
 
     const auto strAbbrevAsciiCommand = std::string(pcAbbrevAsciiCommand_, uiAbbrevAsciiCommandLength_);
-    const size_t ullPos = strAbbrevAsciiCommand.find_first_of(' ');
+    const size_t ullPos = std::min(strAbbrevAsciiCommand.find_first_of(" \r\n"), strAbbrevAsciiCommand.size());
     const std::string strCmdName = strAbbrevAsciiCommand.substr(0, ullPos);
-    const std::string strCmdParams = strAbbrevAsciiCommand.substr(ullPos + 1);
+    const std::string strCmdParams = strAbbrevAsciiCommand.substr(ullPos);
 
     if (strCmdParams.size() >= MAX_ASCII_MESSAGE_LENGTH) { return STATUS::MALFORMED_INPUT; }
 
@@ -117,9 +119,9 @@ STATUS Commander::Encode(const MessageDatabase& clJsonDb_, const MessageDecoder&
     if (eEncodeFormat_ != ENCODE_FORMAT::ASCII && eEncodeFormat_ != ENCODE_FORMAT::BINARY) { return STATUS::UNSUPPORTED; }
 
     const auto strAbbrevAsciiCommand = std::string(pcAbbrevAsciiCommand_, uiAbbrevAsciiCommandLength_);
-    const size_t ullPos = strAbbrevAsciiCommand.find_first_of(' ');
+    const size_t ullPos = std::min(strAbbrevAsciiCommand.find_first_of(" \r\n"), strAbbrevAsciiCommand.size());
     const std::string strCmdName = strAbbrevAsciiCommand.substr(0, ullPos);
-    const std::string strCmdParams = strAbbrevAsciiCommand.substr(ullPos + 1);
+    const std::string strCmdParams = strAbbrevAsciiCommand.substr(ullPos);
 
     if (strCmdParams.size() >= MAX_ASCII_MESSAGE_LENGTH) { return STATUS::MALFORMED_INPUT; }
 
-- 
2.43.0


From 84312e06567d8a64b907046e0a59f24f529becec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:26 +0000
Subject: [PATCH 107/120] fix: encode commands by the latest definition of
 their message

Of several definitions, whichever the hash map listed first was used.
---
 src/decoders/oem/src/commander.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/commander.cpp b/src/decoders/oem/src/commander.cpp
index 265ef31..b626e0d 100644
--- a/src/decoders/oem/src/commander.cpp
+++ b/src/decoders/oem/src/commander.cpp
@@ -84,7 +84,7 @@ STATUS Commander::Encode(const char* pcAbbrevAsciiCommand_, const uint32_t uiAbb
     // Prime the metadata with information we already know
     stMetaData.eFormat = HEADER_FORMAT::ABB_ASCII;
     stMetaData.usMessageId = static_cast<uint16_t>(pclMessageDef->logID);
-    stMetaData.uiMessageCrc = static_cast<uint32_t>(pclMessageDef->fieldInfo.begin()->first);
+    stMetaData.uiMessageCrc = pclMessageDef->latestMessageCrc;
 
     STATUS eStatus = clMyMessageDecoder.Decode(reinterpret_cast<const unsigned char*>(strCmdParams.c_str()), stIntermediateMessage, stMetaData);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
@@ -136,7 +136,7 @@ STATUS Commander::Encode(const MessageDatabase& clJsonDb_, const MessageDecoder&
     // Prime the metadata with information we already know
     stMetaData.eFormat = HEADER_FORMAT::ABB_ASCII;
     stMetaData.usMessageId = static_cast<uint16_t>(pclMessageDef->logID);
-    stMetaData.uiMessageCrc = static_cast<uint32_t>(pclMessageDef->fieldInfo.begin()->first);
+    stMetaData.uiMessageCrc = pclMessageDef->latestMessageCrc;
 
     const STATUS eDecoderStatus = clMessageDecoder_.Decode(reinterpret_cast<const unsigned char*>(strCmdParams.c_str()), stIntermediateMessage, stMetaData);
     if (eDecoderStatus != STATUS::SUCCESS) { return eDecoderStatus; }
-- 
2.43.0


From 8ff4dee10fff2eff6bdba83f6b62e63d56ca4812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:38 +0000
Subject: [PATCH 108/120] fix: load the database of a commander into its
 decoder and encoder too

A commander given its database after construction refused every command.
---
 src/decoders/oem/src/commander.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decoders/oem/src/commander.cpp b/src/decoders/oem/src/commander.cpp
index b626e0d..f262261 100644
--- a/src/decoders/oem/src/commander.cpp
+++ b/src/decoders/oem/src/commander.cpp
@@ -42,6 +42,8 @@ Commander::Commander(MessageDatabase::Ptr pclMessageDb_) : clMyMessageDecoder(pc
 // -------------------------------------------------------------------------------------------------------
 void Commander::LoadJsonDb(MessageDatabase::Ptr pclMessageDb_)
 {
+    clMyMessageDecoder.LoadJsonDb(pclMessageDb_);
+    clMyEncoder.LoadJsonDb(pclMessageDb_);
     pclMyMsgDb = pclMessageDb_;
     InitEnumDefinitions();
 }
-- 
2.43.0


From e4d6517551b94eda4a8df9d89a0c77c54f88f85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:47 +0000
Subject: [PATCH 109/120] fix: report messages whose definition has no fields
 at all as undefined

GetMsgDefFromCrc() throws for them, also out of functions that return a status.
---
 src/decoders/common/src/message_decoder.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 8f2e58c..c68e85f 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -1104,7 +1104,17 @@ MessageDecoderBase::Decode(const unsigned char* pucMessage_, CompositeField& stI
         return STATUS::UNSUPPORTED;
     }
     const uint32_t uiMessageCrc = stMetaData_.bResponse ? 0 : stMetaData_.uiMessageCrc;
-    const FieldInfo& msgFieldInfo = pclMsgDef->GetMsgDefFromCrc(uiMessageCrc);
+    const FieldInfo* pstMsgFieldInfo = nullptr;
+    try
+    {
+        pstMsgFieldInfo = &pclMsgDef->GetMsgDefFromCrc(uiMessageCrc);
+    }
+    catch (const std::runtime_error&)
+    {
+        SPDLOG_LOGGER_WARN(pclMyLogger, "The definition of message {} has no fields", stMetaData_.usMessageId);
+        return STATUS::NO_DEFINITION;
+    }
+    const FieldInfo& msgFieldInfo = *pstMsgFieldInfo;
 
     stInterMessage_.resize(0, 0); // Keep nothing of a previously decoded message
     stInterMessage_.resize(msgFieldInfo.fixedFieldBytes, msgFieldInfo.varFieldCount);
-- 
2.43.0


From 742281a28309c79fd7a970845e5749b46a1a15d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:30 +0000
Subject: [PATCH 110/120] fix: do not read fields outside of the fixed fields
 of a message

Typed reads went past the end of the storage for types that are wider than
the field, and for messages that have no storage for the field.
---
 .../decoders/common/message_decoder.hpp       | 28 +++++++++++++++++--
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index 832d2cf..e6496e3 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -259,6 +259,7 @@ class FixedFieldRegion
     //! \tparam T The trivially-copyable type to read.
     //! \param[in] byteOffset_ The byte offset into the region to read from.
     //! \return The value read from the region.
+    //! \throws std::runtime_error if the value is not within the region.
     // ---------------------------------------------------------------------------
     template <typename T> [[nodiscard]] T Load(size_t byteOffset_) const
     {
@@ -270,12 +271,28 @@ class FixedFieldRegion
         }
         else
         {
+            CheckRange(byteOffset_, sizeof(T));
             T value;
             std::memcpy(&value, data() + byteOffset_, sizeof(T));
             return value;
         }
     }
 
+    // ---------------------------------------------------------------------------
+    //! \brief Check that a range of bytes is within the region.
+    //!
+    //! \param[in] byteOffset_ The byte offset into the region of the range.
+    //! \param[in] byteSize_ The number of bytes in the range.
+    //! \throws std::runtime_error if it is not.
+    // ---------------------------------------------------------------------------
+    void CheckRange(size_t byteOffset_, size_t byteSize_) const
+    {
+        if (byteOffset_ > size() || byteSize_ > size() - byteOffset_)
+        {
+            throw std::runtime_error("FixedFieldRegion: field is outside of the fixed fields of the message");
+        }
+    }
+
     // ---------------------------------------------------------------------------
     //! \brief Set field values at the specified index.
     //!
@@ -393,6 +410,7 @@ template <typename T> [[nodiscard]] inline T LoadFixedField(const FixedFieldRegi
 #ifndef NDEBUG
             AssertFixedFieldType<T>(field_);
 #endif
+            region_.CheckRange(baseIndex_ + field_.index, arrayField->arrayLength * sizeof(typename T::const_iterator::value_type));
             return T{region_.data() + baseIndex_ + field_.index, arrayField->arrayLength};
         }
         else { throw std::runtime_error("GetFieldValue<T>(): T must be TypedBuffer<E> for FIXED_LENGTH_ARRAY"); }
@@ -976,9 +994,9 @@ class CompositeField
         case FIELD_TYPE::FIXED_LENGTH_ARRAY: {
             const auto* arrayField = dynamic_cast<const ArrayField*>(&field_);
             if (arrayField == nullptr) { throw std::runtime_error("GetFieldValueVariant(): missing fixed array metadata"); }
-            return LoadVariant(*arrayField, fixedFields.data() + field_.index);
+            return GetFieldValueVariant(*arrayField);
         }
-        default: return LoadVariant(field_, fixedFields.data() + field_.index);
+        default: fixedFields.CheckRange(field_.index, field_.dataType.length); return LoadVariant(field_, fixedFields.data() + field_.index);
         }
     }
 
@@ -992,7 +1010,11 @@ class CompositeField
     // ---------------------------------------------------------------------------
     FieldValueVariant GetFieldValueVariant(const ArrayField& field_) const
     {
-        if (field_.type == FIELD_TYPE::FIXED_LENGTH_ARRAY) { return LoadVariant(field_, fixedFields.data() + field_.index); }
+        if (field_.type == FIELD_TYPE::FIXED_LENGTH_ARRAY)
+        {
+            fixedFields.CheckRange(field_.index, static_cast<size_t>(field_.arrayLength) * field_.dataType.length);
+            return LoadVariant(field_, fixedFields.data() + field_.index);
+        }
         return GetFieldValueVariant(static_cast<const BaseField&>(field_));
     }
 
-- 
2.43.0


From 0d7d902eee39df8ec7f3e8a80861c08192627d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:30 +0000
Subject: [PATCH 111/120] fix: refuse variable-length fields that a message has
 no storage for

Getting them, and setting field arrays, went past the end of the storage.
---
 .../decoders/common/message_decoder.hpp          | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index e6496e3..358ba2e 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -920,10 +920,10 @@ class CompositeField
             }
             else { throw std::runtime_error("GetFieldValue<T>(): incorrect type given for FIXED_LENGTH_ARRAY"); }
         case FIELD_TYPE::VARIABLE_LENGTH_ARRAY:
-            if constexpr (is_specialization_of_v<T, std::vector>) { return std::get<T>(varFields[field_.index]); }
+            if constexpr (is_specialization_of_v<T, std::vector>) { return std::get<T>(varFields.at(field_.index)); }
             else if constexpr (std::is_same_v<T, bool>)
             {
-                const auto& vec = std::get<std::vector<uint8_t>>(varFields[field_.index]);
+                const auto& vec = std::get<std::vector<uint8_t>>(varFields.at(field_.index));
                 if (elementIndex_ >= vec.size())
                 {
                     throw std::runtime_error("GetFieldValue<T>(): index out of bounds for variable-length array field");
@@ -932,7 +932,7 @@ class CompositeField
             }
             else if constexpr (std::is_trivially_copyable_v<T> && !std::is_same_v<T, FieldArray> && !is_specialization_of_v<T, TypedBuffer>)
             {
-                const auto& vec = std::get<std::vector<T>>(varFields[field_.index]);
+                const auto& vec = std::get<std::vector<T>>(varFields.at(field_.index));
                 if (elementIndex_ >= vec.size())
                 {
                     throw std::runtime_error("GetFieldValue<T>(): index out of bounds for variable-length array field");
@@ -942,18 +942,18 @@ class CompositeField
             else { throw std::runtime_error("GetFieldValue<T>(): incorrect type given for VARIABLE_LENGTH_ARRAY"); }
         case FIELD_TYPE::RESPONSE_STR: [[fallthrough]];
         case FIELD_TYPE::STRING:
-            if constexpr (std::is_same_v<T, std::string>) { return std::get<std::string>(varFields[field_.index]); }
+            if constexpr (std::is_same_v<T, std::string>) { return std::get<std::string>(varFields.at(field_.index)); }
             else { throw std::runtime_error("GetFieldValue<T>(): non-string type provided for string field"); }
         case FIELD_TYPE::FIELD_ARRAY:
             if constexpr (std::is_same_v<T, FieldArray>)
             {
                 const auto* fieldArrayDef = dynamic_cast<const FieldArrayField*>(&field_);
                 if (fieldArrayDef == nullptr) { throw std::runtime_error("GetFieldValue<T>(): missing field array metadata"); }
-                return T(varFields[field_.index], fieldArrayDef->fieldInfo.get());
+                return T(varFields.at(field_.index), fieldArrayDef->fieldInfo.get());
             }
             else if constexpr (std::is_same_v<T, FlatFieldArray> || std::is_same_v<T, CompositeFieldArray>)
             {
-                return std::get<T>(varFields[field_.index]);
+                return std::get<T>(varFields.at(field_.index));
             }
             else { throw std::runtime_error("GetFieldValue<T>(): incorrect type given for FIELD_ARRAY"); }
         default:
@@ -990,7 +990,7 @@ class CompositeField
         case FIELD_TYPE::VARIABLE_LENGTH_ARRAY: [[fallthrough]];
         case FIELD_TYPE::STRING: [[fallthrough]];
         case FIELD_TYPE::FIELD_ARRAY: [[fallthrough]];
-        case FIELD_TYPE::RESPONSE_STR: return varFields[field_.index];
+        case FIELD_TYPE::RESPONSE_STR: return varFields.at(field_.index);
         case FIELD_TYPE::FIXED_LENGTH_ARRAY: {
             const auto* arrayField = dynamic_cast<const ArrayField*>(&field_);
             if (arrayField == nullptr) { throw std::runtime_error("GetFieldValueVariant(): missing fixed array metadata"); }
@@ -1267,7 +1267,7 @@ class CompositeField
         case FIELD_TYPE::FIELD_ARRAY:
             if constexpr (std::is_same_v<ValueT, FlatFieldArray> || std::is_same_v<ValueT, CompositeFieldArray>)
             {
-                varFields[fieldDef_.index] = std::forward<T>(value_);
+                varFields.at(fieldDef_.index) = std::forward<T>(value_);
             }
             else { throw std::runtime_error("SetFieldValue<T>(): incorrect type given for FIELD_ARRAY"); }
             break;
-- 
2.43.0


From fe8ba8c4b9c51726d93de31668860e345cbe5c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:30 +0000
Subject: [PATCH 112/120] fix: refuse rows that a field array does not have

Reading them went past the end of the storage. A flat array of fields without
any bytes divided by zero.
---
 .../novatel_edie/decoders/common/message_decoder.hpp   | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index 358ba2e..5f998f7 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -539,11 +539,16 @@ class FlatFieldArray
         if (fieldInfo_->varFieldCount > 0) { throw std::runtime_error("FlatFieldArray(): fieldInfo must not have variable fields"); }
     }
 
+    void CheckRow(size_t row_) const
+    {
+        if (row_ >= size()) { throw std::runtime_error("FlatFieldArray: row index out of bounds"); }
+    }
+
   public:
     FlatFieldArray(std::vector<std::byte>&& data_, const FieldInfo* fieldInfo_) : fields(std::move(data_)), fieldInfo(fieldInfo_)
     {
         CheckFieldInfo(fieldInfo_);
-        if (fields.size() % fieldInfo_->fixedFieldBytes != 0)
+        if (fieldInfo_->fixedFieldBytes == 0 ? fields.size() != 0 : fields.size() % fieldInfo_->fixedFieldBytes != 0)
         {
             throw std::runtime_error("FlatFieldArray(): data size must be a multiple of fixed field bytes");
         }
@@ -593,6 +598,7 @@ class FlatFieldArray
     // ---------------------------------------------------------------------------
     template <typename T> T GetFieldValue(const BaseField& field_, size_t index_) const
     {
+        CheckRow(index_);
         return LoadFixedField<T>(fields, field_, index_ * fieldInfo->fixedFieldBytes);
     }
 
@@ -616,6 +622,7 @@ class FlatFieldArray
     // ---------------------------------------------------------------------------
     [[nodiscard]] FieldArrayRecordView operator[](size_t row_) const
     {
+        CheckRow(row_);
         return FieldArrayRecordView(fields, row_ * fieldInfo->fixedFieldBytes, fieldInfo);
     }
 
@@ -1529,6 +1536,7 @@ class FieldArray
         if (const auto* flatArray = std::get_if<FlatFieldArray>(fieldArray)) { return (*flatArray)[index_]; }
         if (const auto* compositeArray = std::get_if<CompositeFieldArray>(fieldArray))
         {
+            if (index_ >= compositeArray->size()) { throw std::runtime_error("FieldArray::operator[]: row index out of bounds"); }
             return FieldArrayRecordView((*compositeArray)[index_], fieldInfo);
         }
         throw std::runtime_error("FieldArray::operator[]: underlying storage is not a FlatFieldArray or CompositeFieldArray");
-- 
2.43.0


From 032d134b0e3b8942bdb6d601f64375259cfad348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:20 +0000
Subject: [PATCH 113/120] fix: do not write elements that a fixed-length array
 does not have

---
 .../decoders/common/message_decoder.hpp         | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index 5f998f7..9dda8ea 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -1306,7 +1306,22 @@ class CompositeField
     {
         using StoredType = std::conditional_t<std::is_same_v<T, bool>, uint8_t, T>;
 
-        if constexpr (Fixed) { SetFieldValue<true>(fieldDef_.index + (elementIndex_ * sizeof(StoredType)), static_cast<StoredType>(value_)); }
+        if constexpr (Fixed)
+        {
+            size_t elementCount = 1;
+            if (fieldDef_.type == FIELD_TYPE::FIXED_LENGTH_ARRAY)
+            {
+                const auto* arrayField = dynamic_cast<const ArrayField*>(&fieldDef_);
+                if (arrayField == nullptr) { throw std::runtime_error("SetArrayElement(): missing fixed array metadata"); }
+                elementCount = arrayField->arrayLength;
+            }
+            if (elementIndex_ >= elementCount) { throw std::runtime_error("SetArrayElement(): element index exceeds the length of the array"); }
+            if (sizeof(StoredType) > fieldDef_.dataType.length)
+            {
+                throw std::runtime_error("SetArrayElement(): value is larger than an element of the field");
+            }
+            SetFieldValue<true>(fieldDef_.index + (elementIndex_ * sizeof(StoredType)), static_cast<StoredType>(value_));
+        }
         else
         {
             if (fieldDef_.index >= varFields.size()) { throw std::runtime_error("SetArrayElement(): varFields index is out of range"); }
-- 
2.43.0


From 50ebaae41d20309a21031d3ebdbea611782961e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:30 +0000
Subject: [PATCH 114/120] fix: refuse values whose type is not that of the
 field they are set to, and copy the elements of typed buffers

---
 .../decoders/common/message_decoder.hpp       | 45 +++++++++++++++----
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index 9dda8ea..ed16ed7 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -1260,16 +1260,25 @@ class CompositeField
                       "SetFieldValue does not support std::vector<bool>. Use std::vector<uint8_t> instead.");
         switch (fieldDef_.type)
         {
-        case FIELD_TYPE::VARIABLE_LENGTH_ARRAY: [[fallthrough]];
-        case FIELD_TYPE::RESPONSE_STR: [[fallthrough]];
-        case FIELD_TYPE::STRING:
-            if constexpr (std::is_same_v<ValueT, std::string> ||
-                          (is_specialization_of_v<ValueT, std::vector> && !std::is_same_v<ValueT, CompositeFieldArray>))
+        case FIELD_TYPE::VARIABLE_LENGTH_ARRAY:
+            if constexpr (is_specialization_of_v<ValueT, std::vector> && !std::is_same_v<ValueT, CompositeFieldArray>)
             {
-                SetFieldValue<false>(fieldDef_.index, std::forward<T>(value_));
+                SimpleTypeVisitor(fieldDef_, [](auto&& arg_) {
+                    using ArgT = std::decay_t<decltype(arg_)>;
+                    using ElementT = std::conditional_t<std::is_same_v<ArgT, bool>, uint8_t, ArgT>;
+                    if constexpr (!std::is_same_v<ValueT, std::vector<ElementT>>)
+                    {
+                        throw std::runtime_error("SetFieldValue<T>(): incorrect element type given for VARIABLE_LENGTH_ARRAY");
+                    }
+                });
+                SetFieldValue<false>(fieldDef_.index, ValueT(std::forward<T>(value_)));
                 break;
             }
-            else { throw std::runtime_error("SetFieldValue<T>(): incorrect type given for VARIABLE_LENGTH_ARRAY, RESPONSE_STR, or STRING"); }
+            else { throw std::runtime_error("SetFieldValue<T>(): incorrect type given for VARIABLE_LENGTH_ARRAY"); }
+        case FIELD_TYPE::RESPONSE_STR: [[fallthrough]];
+        case FIELD_TYPE::STRING:
+            if constexpr (std::is_same_v<ValueT, std::string>) { SetFieldValue<false>(fieldDef_.index, ValueT(std::forward<T>(value_))); }
+            else { throw std::runtime_error("SetFieldValue<T>(): incorrect type given for RESPONSE_STR or STRING"); }
             break;
         case FIELD_TYPE::FIELD_ARRAY:
             if constexpr (std::is_same_v<ValueT, FlatFieldArray> || std::is_same_v<ValueT, CompositeFieldArray>)
@@ -1278,12 +1287,30 @@ class CompositeField
             }
             else { throw std::runtime_error("SetFieldValue<T>(): incorrect type given for FIELD_ARRAY"); }
             break;
+        case FIELD_TYPE::FIXED_LENGTH_ARRAY:
+            if constexpr (is_specialization_of_v<ValueT, TypedBuffer>)
+            {
+                if (GetFieldSize(fieldDef_) != value_.size())
+                {
+                    throw std::runtime_error("SetFieldValue<T>(): incorrect number of elements given for FIXED_LENGTH_ARRAY");
+                }
+                SimpleTypeVisitor(fieldDef_, [](auto&& arg_) {
+                    if constexpr (!std::is_same_v<ValueT, TypedBuffer<std::decay_t<decltype(arg_)>>>)
+                    {
+                        throw std::runtime_error("SetFieldValue<T>(): incorrect element type given for FIXED_LENGTH_ARRAY");
+                    }
+                });
+                for (size_t i = 0; i < value_.size(); ++i) { SetArrayElement<true>(fieldDef_, i, value_[i]); }
+            }
+            else { throw std::runtime_error("SetFieldValue<T>(): incorrect type given for FIXED_LENGTH_ARRAY"); }
+            break;
         default:
-            if constexpr (std::is_trivially_copyable_v<ValueT> || is_specialization_of_v<ValueT, TypedBuffer>)
+            if constexpr (std::is_trivially_copyable_v<ValueT> && !is_specialization_of_v<ValueT, TypedBuffer>)
             {
+                if (sizeof(ValueT) > fieldDef_.dataType.length) { throw std::runtime_error("SetFieldValue<T>(): value is larger than the field"); }
                 SetFieldValue<true>(fieldDef_.index, std::forward<T>(value_));
             }
-            else { throw std::runtime_error("SetFieldValue<T>(): type T must be trivially copyable or TypedBuffer specialization"); }
+            else { throw std::runtime_error("SetFieldValue<T>(): type T must be trivially copyable"); }
         }
     }
 
-- 
2.43.0


From 05f3b1c044415b07c35e50c96712364202ee3711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:30 +0000
Subject: [PATCH 115/120] fix: default the response string of a message to an
 empty string

---
 include/novatel_edie/decoders/common/message_decoder.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index ed16ed7..5cd81e7 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -856,6 +856,7 @@ class CompositeField
                         varFields[fieldDef->index] = std::vector<ValueT>{};
                     });
                     break;
+                case FIELD_TYPE::RESPONSE_STR: [[fallthrough]];
                 case FIELD_TYPE::STRING: varFields[fieldDef->index] = std::string{}; break;
                 case FIELD_TYPE::ENUM:
                     switch (fieldDef->dataType.length)
-- 
2.43.0


From 9e0c6e4fa6c42ff6969a844ec3e3e48229666c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:30 +0000
Subject: [PATCH 116/120] fix: let field arrays within records be read as field
 arrays

---
 include/novatel_edie/decoders/common/message_decoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index 5cd81e7..9065764 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -1504,7 +1504,7 @@ template <typename T> inline T FieldArrayRecordView::GetFieldValue(const BaseFie
 
     if (ffRegion != nullptr)
     {
-        if constexpr (std::is_trivially_copyable_v<T> || is_specialization_of_v<T, TypedBuffer>)
+        if constexpr ((std::is_trivially_copyable_v<T> && !std::is_same_v<T, FieldArray>) || is_specialization_of_v<T, TypedBuffer>)
         {
             if constexpr (is_specialization_of_v<T, TypedBuffer>) { return LoadFixedField<T>(*ffRegion, field_, rowOffset); }
             else if (field_.type == FIELD_TYPE::FIXED_LENGTH_ARRAY) { return LoadFixedFieldElement<T>(*ffRegion, elementIndex_, field_, rowOffset); }
-- 
2.43.0


From f35808fef2bbbbd8df540cd2771689c94bbf94c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:30 +0000
Subject: [PATCH 117/120] fix: do not let huge indices pass the bounds checks
 of the fixed fields

---
 include/novatel_edie/decoders/common/message_decoder.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index 9065764..9cbb8d8 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -306,7 +306,7 @@ class FixedFieldRegion
     {
         static_assert(std::is_trivially_copyable_v<T>, "SetFieldValue only supports trivially copyable types");
         assert(!IsView() && "SetFieldValue() is not permitted on a non-owning FixedFieldRegion view");
-        if (startIndex_ + (n * sizeof(T)) > byteRegion.size()) { throw std::runtime_error("SetFieldValue(): buffer overflow in FixedFieldRegion"); }
+        if (startIndex_ > byteRegion.size() || n > (byteRegion.size() - startIndex_) / sizeof(T)) { throw std::runtime_error("SetFieldValue(): buffer overflow in FixedFieldRegion"); }
         const void* source = values_; // values_ may point into a raw message, so nothing may be assumed about its alignment
         std::memcpy(byteRegion.data() + startIndex_, source, n * sizeof(T));
     }
@@ -339,7 +339,7 @@ class FixedFieldRegion
         static_assert(!std::is_same_v<T, bool>, "SetFieldValue does not support std::vector<bool>");
         assert(!IsView() && "SetFieldValue() is not permitted on a non-owning FixedFieldRegion view");
 
-        if (startIndex_ + (values_.size() * sizeof(T)) > byteRegion.size())
+        if (startIndex_ > byteRegion.size() || values_.size() > (byteRegion.size() - startIndex_) / sizeof(T))
         {
             throw std::runtime_error("SetFieldValue(): buffer overflow in FixedFieldRegion");
         }
@@ -356,7 +356,7 @@ class FixedFieldRegion
     void SetFieldValue(const size_t startIndex_, std::string&& value_)
     {
         assert(!IsView() && "SetFieldValue() is not permitted on a non-owning FixedFieldRegion view");
-        if (startIndex_ + value_.size() > byteRegion.size()) { throw std::runtime_error("SetFieldValue(): buffer overflow in FixedFieldRegion"); }
+        if (startIndex_ > byteRegion.size() || value_.size() > byteRegion.size() - startIndex_) { throw std::runtime_error("SetFieldValue(): buffer overflow in FixedFieldRegion"); }
         std::memcpy(byteRegion.data() + startIndex_, value_.data(), value_.size());
     }
 };
-- 
2.43.0


From 67a5b7d2b6e2daa6eaadae070be100f6f41c5d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:04 +0000
Subject: [PATCH 118/120] fix: keep values within the row and field of a flat
 field array they are set to

---
 .../decoders/common/message_decoder.hpp       | 50 ++++++++++++++++---
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index 9cbb8d8..3821b83 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -306,7 +306,10 @@ class FixedFieldRegion
     {
         static_assert(std::is_trivially_copyable_v<T>, "SetFieldValue only supports trivially copyable types");
         assert(!IsView() && "SetFieldValue() is not permitted on a non-owning FixedFieldRegion view");
-        if (startIndex_ > byteRegion.size() || n > (byteRegion.size() - startIndex_) / sizeof(T)) { throw std::runtime_error("SetFieldValue(): buffer overflow in FixedFieldRegion"); }
+        if (startIndex_ > byteRegion.size() || n > (byteRegion.size() - startIndex_) / sizeof(T))
+        {
+            throw std::runtime_error("SetFieldValue(): buffer overflow in FixedFieldRegion");
+        }
         const void* source = values_; // values_ may point into a raw message, so nothing may be assumed about its alignment
         std::memcpy(byteRegion.data() + startIndex_, source, n * sizeof(T));
     }
@@ -356,7 +359,10 @@ class FixedFieldRegion
     void SetFieldValue(const size_t startIndex_, std::string&& value_)
     {
         assert(!IsView() && "SetFieldValue() is not permitted on a non-owning FixedFieldRegion view");
-        if (startIndex_ > byteRegion.size() || value_.size() > byteRegion.size() - startIndex_) { throw std::runtime_error("SetFieldValue(): buffer overflow in FixedFieldRegion"); }
+        if (startIndex_ > byteRegion.size() || value_.size() > byteRegion.size() - startIndex_)
+        {
+            throw std::runtime_error("SetFieldValue(): buffer overflow in FixedFieldRegion");
+        }
         std::memcpy(byteRegion.data() + startIndex_, value_.data(), value_.size());
     }
 };
@@ -544,6 +550,17 @@ class FlatFieldArray
         if (row_ >= size()) { throw std::runtime_error("FlatFieldArray: row index out of bounds"); }
     }
 
+    //! \brief Get the offset of n values within a row, which must not reach outside of the row.
+    size_t GetOffset(size_t row_, size_t start_, size_t n_, size_t valueSize_, size_t limit_) const
+    {
+        CheckRow(row_);
+        if (start_ > limit_ || n_ > (limit_ - start_) / valueSize_)
+        {
+            throw std::runtime_error("FlatFieldArray: values do not fit the row or field");
+        }
+        return (row_ * fieldInfo->fixedFieldBytes) + start_;
+    }
+
   public:
     FlatFieldArray(std::vector<std::byte>&& data_, const FieldInfo* fieldInfo_) : fields(std::move(data_)), fieldInfo(fieldInfo_)
     {
@@ -649,7 +666,8 @@ class FlatFieldArray
     // ---------------------------------------------------------------------------
     template <typename T> void SetFieldValue(const size_t fieldIndex_, const size_t startIndex_, const T* values_, size_t n = 1)
     {
-        fields.SetFieldValue((fieldIndex_ * fieldInfo->fixedFieldBytes) + startIndex_, values_, n);
+        const size_t offset = GetOffset(fieldIndex_, startIndex_, n, sizeof(T), fieldInfo->fixedFieldBytes);
+        fields.SetFieldValue(offset, values_, n);
     }
 
     // ---------------------------------------------------------------------------
@@ -663,7 +681,8 @@ class FlatFieldArray
     template <typename T, typename = std::enable_if_t<!std::is_pointer_v<T>>>
     void SetFieldValue(const size_t fieldIndex_, const size_t startIndex_, const T& value_)
     {
-        fields.SetFieldValue((fieldIndex_ * fieldInfo->fixedFieldBytes) + startIndex_, &value_);
+        const size_t offset = GetOffset(fieldIndex_, startIndex_, 1, sizeof(T), fieldInfo->fixedFieldBytes);
+        fields.SetFieldValue(offset, &value_);
     }
 
     // ---------------------------------------------------------------------------
@@ -677,7 +696,8 @@ class FlatFieldArray
     // ---------------------------------------------------------------------------
     template <typename T> void SetFieldValue(const size_t fieldIndex_, const size_t startIndex_, std::vector<T>&& values_)
     {
-        fields.SetFieldValue((fieldIndex_ * fieldInfo->fixedFieldBytes) + startIndex_, std::move(values_));
+        const size_t offset = GetOffset(fieldIndex_, startIndex_, values_.size(), sizeof(T), fieldInfo->fixedFieldBytes);
+        fields.SetFieldValue(offset, std::move(values_));
     }
 
     // ---------------------------------------------------------------------------
@@ -690,7 +710,8 @@ class FlatFieldArray
     // ---------------------------------------------------------------------------
     void SetFieldValue(const size_t fieldIndex_, const size_t startIndex_, std::string&& value_)
     {
-        fields.SetFieldValue((fieldIndex_ * fieldInfo->fixedFieldBytes) + startIndex_, std::move(value_));
+        const size_t offset = GetOffset(fieldIndex_, startIndex_, value_.size(), 1, fieldInfo->fixedFieldBytes);
+        fields.SetFieldValue(offset, std::move(value_));
     }
 
     // ---------------------------------------------------------------------------
@@ -704,7 +725,22 @@ class FlatFieldArray
     // ---------------------------------------------------------------------------
     template <typename T> void SetFieldValue(const size_t fieldIndex_, const BaseField& fd_, T&& value_)
     {
-        fields.SetFieldValue((fieldIndex_ * fieldInfo->fixedFieldBytes) + fd_.index, std::forward<T>(value_));
+        using ValueT = std::decay_t<T>;
+        const auto* arrayField = dynamic_cast<const ArrayField*>(&fd_);
+        const size_t fieldEnd = fd_.index + (fd_.dataType.length * static_cast<size_t>(arrayField != nullptr ? arrayField->arrayLength : 1));
+        const size_t limit = std::min<size_t>(fieldEnd, fieldInfo->fixedFieldBytes);
+        if constexpr (is_specialization_of_v<ValueT, TypedBuffer>)
+        {
+            using ElementT = typename ValueT::const_iterator::value_type;
+            const size_t offset = GetOffset(fieldIndex_, fd_.index, value_.size(), sizeof(ElementT), limit);
+            for (size_t i = 0; i < value_.size(); ++i) { fields.SetFieldValue(offset + (i * sizeof(ElementT)), value_[i]); }
+        }
+        else if constexpr (std::is_same_v<ValueT, std::string> || is_specialization_of_v<ValueT, std::vector>)
+        {
+            const size_t offset = GetOffset(fieldIndex_, fd_.index, value_.size(), sizeof(typename ValueT::value_type), limit);
+            fields.SetFieldValue(offset, ValueT(std::forward<T>(value_)));
+        }
+        else { fields.SetFieldValue(GetOffset(fieldIndex_, fd_.index, 1, sizeof(ValueT), limit), std::forward<T>(value_)); }
     }
 
     struct const_iterator
-- 
2.43.0


From 4d263acaaf90dd9be204341e49b9507da69a9311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:53 +0000
Subject: [PATCH 119/120] fix: hold the logger mutex while the root logger is
 initialised explicitly

InitLogger() read and created the root logger without the mutex under which RegisterLogger(), and so the construction of every
component, does it: two threads starting up at the same time raced.
---
 include/novatel_edie/common/logger.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/novatel_edie/common/logger.hpp b/include/novatel_edie/common/logger.hpp
index 2326513..ce8be49 100644
--- a/include/novatel_edie/common/logger.hpp
+++ b/include/novatel_edie/common/logger.hpp
@@ -171,6 +171,7 @@ class CPPLoggerManager : public LoggerManager
     //----------------------------------------------------------------------------
     void InitLogger(const std::filesystem::path& configPath_ = "")
     {
+        std::lock_guard<std::mutex> lock(loggerMutex);
         if (rootLogger)
         {
             rootLogger->warn("Root logger already initialized. Configuration from '{}' ignored.", configPath_.string());
-- 
2.43.0


From 8dfedd383786638644e6c373f81d7af10ebb9928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:53 +0000
Subject: [PATCH 120/120] fix: create the root logger before a rotating file
 logger reports to it

AddRotatingFileLogger() dereferenced a null root logger when nothing had been registered yet.
---
 include/novatel_edie/common/logger.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/novatel_edie/common/logger.hpp b/include/novatel_edie/common/logger.hpp
index ce8be49..c0c185b 100644
--- a/include/novatel_edie/common/logger.hpp
+++ b/include/novatel_edie/common/logger.hpp
@@ -224,6 +224,7 @@ class CPPLoggerManager : public LoggerManager
                                bool rotateOnOpen = true)
     {
         std::lock_guard<std::mutex> lock(loggerMutex);
+        InitRootLogger();
         auto sink = std::make_shared<spdlog::sinks::rotating_file_sink_mt>(sFileName, maxFileSize, maxFiles, rotateOnOpen);
         sink->set_level(level);
         sink->set_pattern("[%Y-%m-%d %H:%M:%S.%f] [%l] %v");
-- 
2.43.0

