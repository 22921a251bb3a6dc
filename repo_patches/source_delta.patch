From 5cc9a509194446710f719e5550a56967283f2ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 01/89] fix: jitter buffer: handle a packet with an older
 timestamp than the first one received

---
 src/jitter_buffer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index ad50a7a..9ee933e 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -169,8 +169,10 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
         return;
     }
 
-    const auto rtp_timestamp_delta = rtp_timestamp_ext - mBaseRtpTimestamp;
-    const auto time_delta = std::chrono::milliseconds(1000 * rtp_timestamp_delta / mTrack->getClockRate());
+    // The packet can be older than the base one, if they were reordered
+    const auto rtp_timestamp_delta = static_cast<int64_t>(rtp_timestamp_ext - mBaseRtpTimestamp);
+    const auto clock_rate = static_cast<int64_t>(mTrack->getClockRate());
+    const auto time_delta = std::chrono::milliseconds(1000 * rtp_timestamp_delta / clock_rate);
     const auto packet_time = mBaseTime + time_delta;
     const auto when_dequeue = packet_time + mLength;
     const auto when_nack_request = now + mNackDelay;
-- 
2.43.0


From 3d552ce78bc3d7122cd9ae9d0dcf3c5f3931dc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 02/89] fix: jitter buffer: do not deliver a frame again when
 late copies of its packets arrive

---
 src/jitter_buffer.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index 9ee933e..63fd547 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -115,6 +115,17 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
         return;
     }
 
+    // Is this a late copy of a packet we have already de-queued?
+    if (mItemList && mLastFrameTimeStamp.has_value() && seq_ext < mMinSeq) {
+        LOG(SRTC_LOG_V,
+            "Jitter buffer for SSRC = %" PRIu32 ", media = %s: Will not enqueue packet with SEQ = %" PRIu16
+            ", because it has already been de-queued",
+            mTrack->getSSRC(),
+            to_string(media->getType()).c_str(),
+            seq);
+        return;
+    }
+
     // Decide what to do
     const auto now = std::chrono::steady_clock::now();
 
-- 
2.43.0


From dae0c86d3ee57d7c7aac8e3c31acdc404a13a95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 03/89] fix: jitter buffer: the last packet of a multi-packet
 frame can look like a standalone one

---
 src/jitter_buffer.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index 63fd547..b2e57a9 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -301,7 +301,9 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
     // In this case they'll return "Start" packet kind, and we fix things by extending a frame based on the RTP
     // timestamp.
 
-    if (item->kind == PacketKind::Start) {
+    // The same goes for "Standalone", which is a "Start" with the marker bit.
+
+    if (item->kind == PacketKind::Start || item->kind == PacketKind::Standalone) {
         if (mMinSeq < item->seq_ext) {
             const auto prev_seq = item->seq_ext - 1;
             const auto prev_index = prev_seq & mCapacityMask;
@@ -310,7 +312,7 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
 
             if (prev_item->rtp_timestamp_ext == item->rtp_timestamp_ext) {
                 if (prev_item->kind == PacketKind::Start || prev_item->kind == PacketKind::Middle) {
-                    item->kind = PacketKind::Middle;
+                    item->kind = item->kind == PacketKind::Start ? PacketKind::Middle : PacketKind::End;
                 }
             }
         }
@@ -326,6 +328,8 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
             if (next_item->rtp_timestamp_ext == item->rtp_timestamp_ext) {
                 if (next_item->kind == PacketKind::Start) {
                     next_item->kind = PacketKind::Middle;
+                } else if (next_item->kind == PacketKind::Standalone) {
+                    next_item->kind = PacketKind::End;
                 }
             }
         }
-- 
2.43.0


From 54ac7d9da480f909ec114ac484d3a8782ed73786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 04/89] fix: jitter buffer: do not abandon lost packets at the
 deadline of an older one

---
 src/jitter_buffer.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index b2e57a9..be28c47 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -6,6 +6,7 @@
 #include "srtc/rtp_std_extensions.h"
 #include "srtc/track.h"
 
+#include <algorithm>
 #include <cassert>
 #include <cstdio>
 #include <cstring>
@@ -205,8 +206,13 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
             return;
         }
 
+        // The lost packets are newer than this one, wait for them for as long as for the packet which follows them
+        const auto when_lost_abandon =
+            mMinSeq < mMaxSeq ? std::max(when_nack_abandon, mItemList[mMinSeq & mCapacityMask]->when_nack_abandon)
+                              : when_nack_abandon;
+
         for (auto seq_lost = mMinSeq - 1; seq_lost > seq_ext; seq_lost -= 1) {
-            const auto item_lost = newLostItem(when_nack_request, when_nack_abandon, seq_lost);
+            const auto item_lost = newLostItem(when_nack_request, when_lost_abandon, seq_lost);
 
             const auto index = item_lost->seq_ext & mCapacityMask;
             assert(mItemList[index] == nullptr);
-- 
2.43.0


From 62d4279530942d279ed97f6936366167c915db19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 05/89] fix: jitter buffer: packets older than what was already
 de-queued or dropped are late

---
 include/srtc/jitter_buffer.h | 1 +
 src/jitter_buffer.cpp        | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/srtc/jitter_buffer.h b/include/srtc/jitter_buffer.h
index 8e00cdb..ee4967c 100644
--- a/include/srtc/jitter_buffer.h
+++ b/include/srtc/jitter_buffer.h
@@ -79,6 +79,7 @@ private:
 
     JitterBufferItem** mItemList;
     uint64_t mMinSeq;
+    bool mIsMinSeqFinal; // already de-queued up to mMinSeq, anything before is late
     uint64_t mMaxSeq;
 
     ExtendedValue<uint16_t> mExtValueSeq;
diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index be28c47..a03fe2b 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -54,6 +54,7 @@ JitterBuffer::JitterBuffer(const std::shared_ptr<Track>& track,
     , mLastPacketTime(std::chrono::steady_clock::time_point::min())
     , mItemList(nullptr)
     , mMinSeq(0)
+    , mIsMinSeqFinal(false)
     , mMaxSeq(0)
     , mBaseTime(std::chrono::steady_clock::time_point::min())
     , mBaseRtpTimestamp(0)
@@ -117,7 +118,7 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
     }
 
     // Is this a late copy of a packet we have already de-queued?
-    if (mItemList && mLastFrameTimeStamp.has_value() && seq_ext < mMinSeq) {
+    if (mItemList && mIsMinSeqFinal && seq_ext < mMinSeq) {
         LOG(SRTC_LOG_V,
             "Jitter buffer for SSRC = %" PRIu32 ", media = %s: Will not enqueue packet with SEQ = %" PRIu16
             ", because it has already been de-queued",
@@ -148,6 +149,7 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
         // First packet
         mMinSeq = seq_ext;
         mMaxSeq = mMinSeq + 1;
+        mIsMinSeqFinal = false;
 
         mItemList = new JitterBufferItem*[mCapacity];
         std::memset(mItemList, 0, sizeof(JitterBufferItem*) * mCapacity);
@@ -448,6 +450,7 @@ std::vector<std::shared_ptr<EncodedFrame>> JitterBuffer::processDeque()
     }
 
     const auto now = std::chrono::steady_clock::now();
+    const auto startMinSeq = mMinSeq;
 
     // We add packets on the Max end and consume them from the Min end
     while (mMinSeq < mMaxSeq) {
@@ -552,6 +555,10 @@ std::vector<std::shared_ptr<EncodedFrame>> JitterBuffer::processDeque()
         }
     }
 
+    if (mMinSeq != startMinSeq) {
+        mIsMinSeqFinal = true;
+    }
+
     return result;
 }
 
-- 
2.43.0


From bac00c72f0c9a2776a20d7929e058016a79acfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 06/89] fix: jitter buffer: do not deliver the rest of a frame
 dropped as incomplete

---
 include/srtc/jitter_buffer.h |  1 +
 src/jitter_buffer.cpp        | 11 ++++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/srtc/jitter_buffer.h b/include/srtc/jitter_buffer.h
index ee4967c..19afbbc 100644
--- a/include/srtc/jitter_buffer.h
+++ b/include/srtc/jitter_buffer.h
@@ -92,6 +92,7 @@ private:
     std::vector<ByteBuffer> mTempFrameList;
 
     std::optional<uint64_t> mLastFrameTimeStamp;
+    std::optional<uint64_t> mDroppedFrameTimeStamp; // the last frame dropped as incomplete
 };
 
 } // namespace srtc
diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index a03fe2b..1b570bc 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -460,7 +460,13 @@ std::vector<std::shared_ptr<EncodedFrame>> JitterBuffer::processDeque()
         assert(item);
 
         if (item->received && diff_millis(item->when_dequeue, now) <= 0) {
-            if (item->kind == PacketKind::Standalone) {
+            if (mDroppedFrameTimeStamp.has_value() && mDroppedFrameTimeStamp.value() == item->rtp_timestamp_ext) {
+                // The rest of a frame which was already dropped
+                mItemList[index] = nullptr;
+                mMinSeq += 1;
+
+                deleteItem(item);
+            } else if (item->kind == PacketKind::Standalone) {
                 // A standalone packet, which is ready to be extracted, possibly into multiple frames
                 mTempPacketList.clear();
                 mTempPacketList.push_back(item);
@@ -525,6 +531,8 @@ std::vector<std::shared_ptr<EncodedFrame>> JitterBuffer::processDeque()
                             static_cast<uint16_t>(mMinSeq),
                             static_cast<uint16_t>(mMaxSeq));
 
+                        mDroppedFrameTimeStamp = item->rtp_timestamp_ext;
+
                         mItemList[index] = nullptr;
                         mMinSeq += 1;
 
@@ -619,6 +627,7 @@ void JitterBuffer::freeEverything()
     }
 
     mLastFrameTimeStamp.reset();
+    mDroppedFrameTimeStamp.reset();
 }
 
 JitterBufferItem* JitterBuffer::newItem()
-- 
2.43.0


From 9046f98f535d2977dcc3b062ae13d66f3dc05d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 07/89] fix: jitter buffer: off-by-one in the capacity check
 overwrote the oldest item

---
 src/jitter_buffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index 1b570bc..ae07701 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -242,7 +242,7 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
         mMinSeq = seq_ext;
     } else if (seq_ext >= mMaxSeq) {
         // Above max
-        if (seq_ext > mMinSeq + mCapacity) {
+        if (seq_ext >= mMinSeq + mCapacity) {
             LOG(SRTC_LOG_E,
                 "Jitter buffer for SSRC = %" PRIu32 ", media = %s: The new packet SEQ = %" PRIu16
                 " would exceed the capacity, min = %" PRIu16 ", max = %" PRIu16,
-- 
2.43.0


From e85d651c0f88843f8584fa55b93afd38318011fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:28 +0000
Subject: [PATCH 08/89] fix: jitter buffer: packets out of range no longer keep
 it from resetting, which stalled the stream for good

---
 src/jitter_buffer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index ae07701..bcbecb5 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -143,7 +143,6 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
             mDepacketizer->reset();
         }
     }
-    mLastPacketTime = now;
 
     if (mItemList == nullptr) {
         // First packet
@@ -183,6 +182,9 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
         return;
     }
 
+    // Not for packets that were out of range, or we'd never get to reset
+    mLastPacketTime = now;
+
     // The packet can be older than the base one, if they were reordered
     const auto rtp_timestamp_delta = static_cast<int64_t>(rtp_timestamp_ext - mBaseRtpTimestamp);
     const auto clock_rate = static_cast<int64_t>(mTrack->getClockRate());
-- 
2.43.0


From e09a3d69840a3006d56ef9f674d255e048433346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:34 +0000
Subject: [PATCH 09/89] fix: replay protection: measure the distance of late
 packets across the wrap of the counter

---
 src/replay_protection.cpp | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/src/replay_protection.cpp b/src/replay_protection.cpp
index 88d2e45..f503eb0 100644
--- a/src/replay_protection.cpp
+++ b/src/replay_protection.cpp
@@ -8,10 +8,15 @@
 namespace
 {
 
-uint32_t getRolloverForwadDistance(uint32_t maxPossibleValue, uint32_t curMaxValue, uint32_t value)
+// Both distances are modulo the size of the counter
+uint32_t getForwardDistance(uint32_t maxPossibleValue, uint32_t curMaxValue, uint32_t value)
 {
-    assert(curMaxValue > value);
-    return maxPossibleValue - curMaxValue + 1 + value;
+    return (value - curMaxValue) & maxPossibleValue;
+}
+
+uint32_t getBackwardDistance(uint32_t maxPossibleValue, uint32_t curMaxValue, uint32_t value)
+{
+    return (curMaxValue - value) & maxPossibleValue;
 }
 
 bool isSet(const uint8_t* storage, uint32_t storageSize, uint32_t value)
@@ -69,16 +74,10 @@ bool ReplayProtection::canProceed(uint32_t value)
 
     if (value == mCurMax) {
         return false;
-    } else if (value > mCurMax) {
-        const auto distance = value - mCurMax;
-        if (distance > mMaxDistanceForward) {
-            return false;
-        }
-        return true;
-    } else if (getRolloverForwadDistance(mMaxPossibleValue, mCurMax, value) <= mMaxDistanceForward) {
+    } else if (getForwardDistance(mMaxPossibleValue, mCurMax, value) <= mMaxDistanceForward) {
         return true;
     } else {
-        const auto distance = mCurMax - value;
+        const auto distance = getBackwardDistance(mMaxPossibleValue, mCurMax, value);
         if (distance >= mSize) {
             return false;
         }
@@ -101,19 +100,11 @@ bool ReplayProtection::set(uint32_t value)
 
     if (value == mCurMax) {
         return false;
-    } else if (value > mCurMax) {
-        const auto distance = value - mCurMax;
-        if (distance > mMaxDistanceForward) {
-            return false;
-        }
-
-        setForward(value);
-        return true;
-    } else if (getRolloverForwadDistance(mMaxPossibleValue, mCurMax, value) <= mMaxDistanceForward) {
+    } else if (getForwardDistance(mMaxPossibleValue, mCurMax, value) <= mMaxDistanceForward) {
         setForward(value);
         return true;
     } else {
-        const auto distance = mCurMax - value;
+        const auto distance = getBackwardDistance(mMaxPossibleValue, mCurMax, value);
         if (distance >= mSize) {
             return false;
         }
-- 
2.43.0


From e514026f8c047ce49ae5b2cd49eb62c641b84243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:04 +0000
Subject: [PATCH 10/89] fix: SRTP: packets which fail authentication no longer
 change the rollover count or create channels

---
 src/srtp_connection.cpp | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/srtp_connection.cpp b/src/srtp_connection.cpp
index 4996866..dd66a52 100644
--- a/src/srtp_connection.cpp
+++ b/src/srtp_connection.cpp
@@ -162,7 +162,7 @@ bool SrtpConnection::unprotectReceiveControl(const ByteBuffer& packetData, ByteB
 
     const auto ssrc = ntohl(*reinterpret_cast<const uint32_t*>(packetData.data() + 4));
     const ChannelKey key = { ssrc, 0 };
-    auto& channelValue = ensureSrtpChannel(mSrtpInMap, key, std::numeric_limits<uint32_t>::max());
+    const auto channelIter = mSrtpInMap.find(key);
 
     uint32_t sequenceNumber;
     if (!getControlSequenceNumber(packetData, sequenceNumber)) {
@@ -170,7 +170,7 @@ bool SrtpConnection::unprotectReceiveControl(const ByteBuffer& packetData, ByteB
         return false;
     }
 
-    if (!channelValue.replayProtection->canProceed(sequenceNumber)) {
+    if (channelIter != mSrtpInMap.end() && !channelIter->second.replayProtection->canProceed(sequenceNumber)) {
         LOG(SRTC_LOG_E, "Replay protection says we can't proceed with RTCP packet seq = %u", sequenceNumber);
         return false;
     }
@@ -188,6 +188,8 @@ bool SrtpConnection::unprotectReceiveControl(const ByteBuffer& packetData, ByteB
         return false;
     }
 
+    // The packet is authentic, only now can it change our state
+    auto& channelValue = ensureSrtpChannel(mSrtpInMap, key, std::numeric_limits<uint32_t>::max());
     channelValue.replayProtection->set(sequenceNumber);
     return true;
 }
@@ -206,7 +208,7 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
     const auto pt = ntohs(*reinterpret_cast<const uint16_t*>(packetData.data())) & 0x7Fu;
 
     const ChannelKey key = { ssrc, static_cast<uint8_t>(pt) };
-    auto& channelValue = ensureSrtpChannel(mSrtpInMap, key, std::numeric_limits<uint16_t>::max());
+    const auto channelIter = mSrtpInMap.find(key);
 
     uint16_t sequenceNumber;
     if (!getMediaSequenceNumber(packetData, sequenceNumber)) {
@@ -214,7 +216,7 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
         return false;
     }
 
-    if (!channelValue.replayProtection->canProceed(sequenceNumber)) {
+    if (channelIter != mSrtpInMap.end() && !channelIter->second.replayProtection->canProceed(sequenceNumber)) {
         LOG(SRTC_LOG_E,
             "Replay protection says we can't proceed with RTP packet ssrc = %" PRIu32 ", seq = %u",
             ssrc,
@@ -223,19 +225,21 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
     }
 
     // Because of jitter, we may cross the rollover back and forth, only count once
-    auto rolloverCount = channelValue.rolloverCount;
-    if (!channelValue.lastSequence16) {
-        channelValue.lastSequence16 = sequenceNumber;
-    } else if (channelValue.lastSequence16 <= 0x1000u && sequenceNumber >= 0xF000u) {
-        if (rolloverCount > 0) {
-            rolloverCount -= 1;
-        }
-    } else {
-        if (channelValue.lastSequence16 >= 0xF000u && sequenceNumber <= 0x1000u) {
-            channelValue.rolloverCount += 1;
+    uint32_t rolloverCount = 0;
+    auto newRolloverCount = rolloverCount;
+    auto newLastSequence16 = sequenceNumber;
+    if (channelIter != mSrtpInMap.end()) {
+        rolloverCount = newRolloverCount = channelIter->second.rolloverCount;
+        const auto lastSequence16 = channelIter->second.lastSequence16.value_or(sequenceNumber);
+        if (lastSequence16 <= 0x1000u && sequenceNumber >= 0xF000u) {
+            if (rolloverCount > 0) {
+                rolloverCount -= 1;
+            }
+            newLastSequence16 = lastSequence16;
+        } else if (lastSequence16 >= 0xF000u && sequenceNumber <= 0x1000u) {
             rolloverCount += 1;
+            newRolloverCount = rolloverCount;
         }
-        channelValue.lastSequence16 = sequenceNumber;
     }
 
     if (!mCrypto->unprotectReceiveMedia(packetData, rolloverCount, output)) {
@@ -252,6 +256,10 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
         return false;
     }
 
+    // The packet is authentic, only now can it change our state
+    auto& channelValue = ensureSrtpChannel(mSrtpInMap, key, std::numeric_limits<uint16_t>::max());
+    channelValue.rolloverCount = newRolloverCount;
+    channelValue.lastSequence16 = newLastSequence16;
     channelValue.replayProtection->set(sequenceNumber);
     return true;
 }
-- 
2.43.0


From d25ea42b981c599d68ea9aae3d3891573dcb0e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 11/89] fix: SRTP: keep receiving after a loss longer than the
 replay protection's forward limit

---
 include/srtc/replay_protection.h |  5 +++++
 src/replay_protection.cpp        | 38 ++++++++++++++++++++++++++++++++
 src/srtp_connection.cpp          | 16 ++++++++------
 3 files changed, 52 insertions(+), 7 deletions(-)

diff --git a/include/srtc/replay_protection.h b/include/srtc/replay_protection.h
index b7ddf21..a11ee2d 100644
--- a/include/srtc/replay_protection.h
+++ b/include/srtc/replay_protection.h
@@ -14,6 +14,11 @@ public:
     [[nodiscard]] bool canProceed(uint32_t value);
     bool set(uint32_t value);
 
+    // These have no limit on how far ahead of the newest value we can go. For values which are known to be authentic:
+    // after losing more packets than the limit, we would otherwise not accept any value ever again.
+    [[nodiscard]] bool isReplay(uint32_t value) const;
+    void setAuthenticated(uint32_t value);
+
 private:
     const uint32_t mMaxPossibleValue;
     const uint32_t mSize;
diff --git a/src/replay_protection.cpp b/src/replay_protection.cpp
index f503eb0..f4c1ce9 100644
--- a/src/replay_protection.cpp
+++ b/src/replay_protection.cpp
@@ -86,6 +86,44 @@ bool ReplayProtection::canProceed(uint32_t value)
     }
 }
 
+bool ReplayProtection::isReplay(uint32_t value) const
+{
+    if (!mStorage) {
+        return false;
+    }
+
+    if (value == mCurMax) {
+        return true;
+    }
+
+    if (getForwardDistance(mMaxPossibleValue, mCurMax, value) <= mMaxPossibleValue / 2) {
+        return false;
+    }
+
+    return getBackwardDistance(mMaxPossibleValue, mCurMax, value) >= mSize || isSet(mStorage, mStorageSize, value);
+}
+
+void ReplayProtection::setAuthenticated(uint32_t value)
+{
+    if (isReplay(value)) {
+        return;
+    }
+
+    const auto distance = mStorage ? getForwardDistance(mMaxPossibleValue, mCurMax, value) : 0;
+    if (distance > mMaxDistanceForward && distance <= mMaxPossibleValue / 2) {
+        if (distance >= mSize) {
+            // Nothing remains of the window
+            std::memset(mStorage, 0, mStorageSize);
+            setImpl(mStorage, mStorageSize, value);
+            mCurMax = value;
+        } else {
+            setForward(value);
+        }
+    } else {
+        set(value);
+    }
+}
+
 bool ReplayProtection::set(uint32_t value)
 {
     assert(canProceed(value));
diff --git a/src/srtp_connection.cpp b/src/srtp_connection.cpp
index dd66a52..eaef1b5 100644
--- a/src/srtp_connection.cpp
+++ b/src/srtp_connection.cpp
@@ -170,7 +170,7 @@ bool SrtpConnection::unprotectReceiveControl(const ByteBuffer& packetData, ByteB
         return false;
     }
 
-    if (channelIter != mSrtpInMap.end() && !channelIter->second.replayProtection->canProceed(sequenceNumber)) {
+    if (channelIter != mSrtpInMap.end() && channelIter->second.replayProtection->isReplay(sequenceNumber)) {
         LOG(SRTC_LOG_E, "Replay protection says we can't proceed with RTCP packet seq = %u", sequenceNumber);
         return false;
     }
@@ -190,7 +190,7 @@ bool SrtpConnection::unprotectReceiveControl(const ByteBuffer& packetData, ByteB
 
     // The packet is authentic, only now can it change our state
     auto& channelValue = ensureSrtpChannel(mSrtpInMap, key, std::numeric_limits<uint32_t>::max());
-    channelValue.replayProtection->set(sequenceNumber);
+    channelValue.replayProtection->setAuthenticated(sequenceNumber);
     return true;
 }
 
@@ -216,7 +216,7 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
         return false;
     }
 
-    if (channelIter != mSrtpInMap.end() && !channelIter->second.replayProtection->canProceed(sequenceNumber)) {
+    if (channelIter != mSrtpInMap.end() && channelIter->second.replayProtection->isReplay(sequenceNumber)) {
         LOG(SRTC_LOG_E,
             "Replay protection says we can't proceed with RTP packet ssrc = %" PRIu32 ", seq = %u",
             ssrc,
@@ -225,18 +225,20 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
     }
 
     // Because of jitter, we may cross the rollover back and forth, only count once
+    // https://datatracker.ietf.org/doc/html/rfc3711#section-3.3.1
     uint32_t rolloverCount = 0;
     auto newRolloverCount = rolloverCount;
     auto newLastSequence16 = sequenceNumber;
     if (channelIter != mSrtpInMap.end()) {
         rolloverCount = newRolloverCount = channelIter->second.rolloverCount;
         const auto lastSequence16 = channelIter->second.lastSequence16.value_or(sequenceNumber);
-        if (lastSequence16 <= 0x1000u && sequenceNumber >= 0xF000u) {
-            if (rolloverCount > 0) {
+        const auto distance = static_cast<int16_t>(sequenceNumber - lastSequence16);
+        if (distance < 0) {
+            if (sequenceNumber > lastSequence16 && rolloverCount > 0) {
                 rolloverCount -= 1;
             }
             newLastSequence16 = lastSequence16;
-        } else if (lastSequence16 >= 0xF000u && sequenceNumber <= 0x1000u) {
+        } else if (sequenceNumber < lastSequence16) {
             rolloverCount += 1;
             newRolloverCount = rolloverCount;
         }
@@ -260,7 +262,7 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
     auto& channelValue = ensureSrtpChannel(mSrtpInMap, key, std::numeric_limits<uint16_t>::max());
     channelValue.rolloverCount = newRolloverCount;
     channelValue.lastSequence16 = newLastSequence16;
-    channelValue.replayProtection->set(sequenceNumber);
+    channelValue.replayProtection->setAuthenticated(sequenceNumber);
     return true;
 }
 
-- 
2.43.0


From 73db72a234c60455d62515dd4261a50be33401b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 12/89] fix: SRTP: keep the indices of RTCP apart from those of
 RTP with payload type 0

---
 include/srtc/srtp_connection.h | 2 ++
 src/srtp_connection.cpp        | 6 +++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/srtc/srtp_connection.h b/include/srtc/srtp_connection.h
index 49b9736..d47f094 100644
--- a/include/srtc/srtp_connection.h
+++ b/include/srtc/srtp_connection.h
@@ -75,7 +75,9 @@ private:
 
 	using ChannelMap = std::unordered_map<ChannelKey, ChannelValue, hash_channel_key, equal_to_channel_key>;
 
+	// RTP and RTCP from the same SSRC have separate indices
 	ChannelMap mSrtpInMap;
+	ChannelMap mSrtcpInMap;
 	ChannelMap mSrtpOutMap;
 
 	ChannelValue& ensureSrtpChannel(ChannelMap& map,
diff --git a/src/srtp_connection.cpp b/src/srtp_connection.cpp
index eaef1b5..01d0b05 100644
--- a/src/srtp_connection.cpp
+++ b/src/srtp_connection.cpp
@@ -162,7 +162,7 @@ bool SrtpConnection::unprotectReceiveControl(const ByteBuffer& packetData, ByteB
 
     const auto ssrc = ntohl(*reinterpret_cast<const uint32_t*>(packetData.data() + 4));
     const ChannelKey key = { ssrc, 0 };
-    const auto channelIter = mSrtpInMap.find(key);
+    const auto channelIter = mSrtcpInMap.find(key);
 
     uint32_t sequenceNumber;
     if (!getControlSequenceNumber(packetData, sequenceNumber)) {
@@ -170,7 +170,7 @@ bool SrtpConnection::unprotectReceiveControl(const ByteBuffer& packetData, ByteB
         return false;
     }
 
-    if (channelIter != mSrtpInMap.end() && channelIter->second.replayProtection->isReplay(sequenceNumber)) {
+    if (channelIter != mSrtcpInMap.end() && channelIter->second.replayProtection->isReplay(sequenceNumber)) {
         LOG(SRTC_LOG_E, "Replay protection says we can't proceed with RTCP packet seq = %u", sequenceNumber);
         return false;
     }
@@ -189,7 +189,7 @@ bool SrtpConnection::unprotectReceiveControl(const ByteBuffer& packetData, ByteB
     }
 
     // The packet is authentic, only now can it change our state
-    auto& channelValue = ensureSrtpChannel(mSrtpInMap, key, std::numeric_limits<uint32_t>::max());
+    auto& channelValue = ensureSrtpChannel(mSrtcpInMap, key, std::numeric_limits<uint32_t>::max());
     channelValue.replayProtection->setAuthenticated(sequenceNumber);
     return true;
 }
-- 
2.43.0


From 4c4877f09eaef4a14b0b2c21a0d3238d9ac6afc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:04 +0000
Subject: [PATCH 13/89] fix: SRTP: keep the receiving state when a connection
 is restored with the same keys

---
 src/srtp_connection.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/srtp_connection.cpp b/src/srtp_connection.cpp
index 01d0b05..3b18e9d 100644
--- a/src/srtp_connection.cpp
+++ b/src/srtp_connection.cpp
@@ -113,9 +113,9 @@ SrtpConnection::~SrtpConnection() = default;
 
 void SrtpConnection::onPeerConnected()
 {
-    // We may have missed some packets while not connected, so need to reset replay protection.
-    // Technically we only need this for the incoming map, but let's clear both for consistency.
-    mSrtpInMap.clear();
+    // We may have missed some packets while not connected, but the keys are still the same. We need to keep the incoming
+    // state: the rollover counts to be able to decrypt, and replay protection to not accept again what we already had.
+    // An arbitrary jump forward is fine.
     mSrtpOutMap.clear();
 }
 
-- 
2.43.0


From d742a1d7c1a77250f452bd15eeb3997400372b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:16 +0000
Subject: [PATCH 14/89] fix: SRTP: accept packets with an empty payload

---
 src/srtp_crypto.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/srtp_crypto.cpp b/src/srtp_crypto.cpp
index 7eef9ea..ac42b68 100644
--- a/src/srtp_crypto.cpp
+++ b/src/srtp_crypto.cpp
@@ -194,8 +194,8 @@ bool SrtpCrypto::protectSendMediaGCM(const ByteBuffer& packet, uint32_t rollover
         headerSize += 4;
         headerSize += extensionSize * 4;
 
-        if (headerSize >= packetSize) {
-            // The header reaches the end of payload (empty payload) or extends past its end
+        if (headerSize > packetSize) {
+            // The header extends past the end of the packet
             return false;
         }
     }
@@ -300,8 +300,8 @@ bool SrtpCrypto::protectSendMediaCM(const ByteBuffer& packet, uint32_t rolloverC
         headerSize += 4;
         headerSize += extensionSize * 4;
 
-        if (headerSize >= packetSize) {
-            // The header reaches the end of payload (empty payload) or extends past its end
+        if (headerSize > packetSize) {
+            // The header extends past the end of the packet
             return false;
         }
     }
@@ -384,7 +384,7 @@ bool SrtpCrypto::unprotectReceiveMediaGCM(const ByteBuffer& packet, uint32_t rol
     const size_t digestSize = kAESGCM_TagSize;
 
     const auto encryptedSize = packet.size();
-    if (encryptedSize <= 4 + 4 + 4 + digestSize) {
+    if (encryptedSize < 4 + 4 + 4 + digestSize) {
         // 4 byte RTP header
         // 4 byte timestamp
         // 4 byte SSRC
@@ -425,8 +425,8 @@ bool SrtpCrypto::unprotectReceiveMediaGCM(const ByteBuffer& packet, uint32_t rol
         headerSize += 4;
         headerSize += extensionSize * 4;
 
-        if (headerSize + digestSize >= encryptedSize) {
-            // The header reaches the end of payload (empty payload) or extends past its end
+        if (headerSize + digestSize > encryptedSize) {
+            // The header extends past the end of the packet
             return false;
         }
     }
@@ -502,7 +502,7 @@ bool SrtpCrypto::unprotectReceiveMediaCM(const ByteBuffer& packet, uint32_t roll
     }
 
     const auto encryptedSize = packet.size();
-    if (encryptedSize <= 4 + 4 + 4 + digestSize) {
+    if (encryptedSize < 4 + 4 + 4 + digestSize) {
         // 4 byte RTP header
         // 4 byte timestamp
         // 4 byte SSRC
@@ -547,8 +547,8 @@ bool SrtpCrypto::unprotectReceiveMediaCM(const ByteBuffer& packet, uint32_t roll
         headerSize += 4;
         headerSize += extensionSize * 4;
 
-        if (headerSize + digestSize >= encryptedSize) {
-            // The header reaches the end of payload (empty payload) or extends past its end
+        if (headerSize + digestSize > encryptedSize) {
+            // The header extends past the end of the packet
             return false;
         }
     }
-- 
2.43.0


From d5eb8163896c70e6c17a977d553cff0914fc0f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 15/89] fix: SRTP: take the contributing sources into account
 in the header size

---
 src/srtp_crypto.cpp | 70 ++++++++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 30 deletions(-)

diff --git a/src/srtp_crypto.cpp b/src/srtp_crypto.cpp
index ac42b68..7e06904 100644
--- a/src/srtp_crypto.cpp
+++ b/src/srtp_crypto.cpp
@@ -36,6 +36,12 @@ constexpr uint32_t kRTCP_EncryptedBit = 0x80000000u;
 constexpr size_t kRTCP_HeaderSize = 8u;
 constexpr size_t kRTCP_TrailerSize = 4u;
 
+// The fixed part and the contributing sources, https://datatracker.ietf.org/doc/html/rfc3550#section-5.1
+size_t getFixedHeaderSize(uint16_t header)
+{
+    return 4u + 4 + 4 + ((header >> 8) & 0x0Fu) * 4u;
+}
+
 } // namespace
 
 namespace srtc
@@ -188,16 +194,19 @@ bool SrtpCrypto::protectSendMediaGCM(const ByteBuffer& packet, uint32_t rollover
     const auto encryptedData = encrypted.data();
 
     // The header is not encrypted
-    auto headerSize = 4u + 4 + 4;
+    auto headerSize = getFixedHeaderSize(header);
     if ((header & kRTP_ExtensionBit) != 0) {
-        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(packetData + 14));
-        headerSize += 4;
-        headerSize += extensionSize * 4;
-
-        if (headerSize > packetSize) {
-            // The header extends past the end of the packet
+        if (headerSize + 4 > packetSize) {
             return false;
         }
+
+        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(packetData + headerSize + 2));
+        headerSize += 4;
+        headerSize += extensionSize * 4;
+    }
+    if (headerSize > packetSize) {
+        // The header extends past the end of the packet
+        return false;
     }
     std::memcpy(encryptedData, packetData, headerSize);
 
@@ -294,16 +303,19 @@ bool SrtpCrypto::protectSendMediaCM(const ByteBuffer& packet, uint32_t rolloverC
     const auto encryptedData = encrypted.data();
 
     // The header is not encrypted
-    auto headerSize = 4u + 4 + 4;
+    auto headerSize = getFixedHeaderSize(header);
     if ((header & kRTP_ExtensionBit) != 0) {
-        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(packetData + 14));
-        headerSize += 4;
-        headerSize += extensionSize * 4;
-
-        if (headerSize > packetSize) {
-            // The header extends past the end of the packet
+        if (headerSize + 4 > packetSize) {
             return false;
         }
+
+        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(packetData + headerSize + 2));
+        headerSize += 4;
+        headerSize += extensionSize * 4;
+    }
+    if (headerSize > packetSize) {
+        // The header extends past the end of the packet
+        return false;
     }
 
     std::memcpy(encryptedData, packetData, headerSize);
@@ -415,20 +427,19 @@ bool SrtpCrypto::unprotectReceiveMediaGCM(const ByteBuffer& packet, uint32_t rol
     const auto plainData = plain.data();
 
     // The header is not encrypted
-    auto headerSize = 4u + 4 + 4;
+    auto headerSize = getFixedHeaderSize(header);
     if ((header & kRTP_ExtensionBit) != 0) {
-        if (encryptedSize < 4 + 4 + 4 + 4 + digestSize) {
+        if (headerSize + 4 + digestSize > encryptedSize) {
             return false;
         }
 
-        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(encryptedData + 14));
+        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(encryptedData + headerSize + 2));
         headerSize += 4;
         headerSize += extensionSize * 4;
-
-        if (headerSize + digestSize > encryptedSize) {
-            // The header extends past the end of the packet
-            return false;
-        }
+    }
+    if (headerSize + digestSize > encryptedSize) {
+        // The header extends past the end of the packet
+        return false;
     }
     std::memcpy(plainData, encryptedData, headerSize);
 
@@ -537,20 +548,19 @@ bool SrtpCrypto::unprotectReceiveMediaCM(const ByteBuffer& packet, uint32_t roll
     const auto plainData = plain.data();
 
     // The header is not encrypted
-    auto headerSize = 4u + 4 + 4;
+    auto headerSize = getFixedHeaderSize(header);
     if ((header & kRTP_ExtensionBit) != 0) {
-        if (encryptedSize < 4 + 4 + 4 + 4 + digestSize) {
+        if (headerSize + 4 + digestSize > encryptedSize) {
             return false;
         }
 
-        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(encryptedData + 14));
+        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(encryptedData + headerSize + 2));
         headerSize += 4;
         headerSize += extensionSize * 4;
-
-        if (headerSize + digestSize > encryptedSize) {
-            // The header extends past the end of the packet
-            return false;
-        }
+    }
+    if (headerSize + digestSize > encryptedSize) {
+        // The header extends past the end of the packet
+        return false;
     }
 
     std::memcpy(plainData, encryptedData, headerSize);
-- 
2.43.0


From 10e5949a556adfa444d0f84559532bd3c9474490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:16 +0000
Subject: [PATCH 16/89] fix: AV1 packetizer: packets after one which became
 full get their own extension and padding

---
 src/packetizer_av1.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/packetizer_av1.cpp b/src/packetizer_av1.cpp
index 28cc0de..f188bed 100644
--- a/src/packetizer_av1.cpp
+++ b/src/packetizer_av1.cpp
@@ -150,6 +150,9 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerAV1::generate(
 
                     payload.clear();
                     packetNumber += 1;
+
+                    // Get the extension and the padding for the next packet
+                    continue;
                 }
             }
 
-- 
2.43.0


From f95b8f7aa6005511871ddefde159d5e5abf57d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:16 +0000
Subject: [PATCH 17/89] fix: AV1 packetizer: the OBU extension header is only
 in the first packet of an OBU, and counts

---
 src/packetizer_av1.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/packetizer_av1.cpp b/src/packetizer_av1.cpp
index f188bed..23353a9 100644
--- a/src/packetizer_av1.cpp
+++ b/src/packetizer_av1.cpp
@@ -97,8 +97,8 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerAV1::generate(
     ByteBuffer payload;
     ByteWriter writer(payload);
 
-    // The "-4" is for the OBU headers and the LEB128 size
-    const auto basicPacketSize = getBasicPacketSize(mediaProtectionOverhead) - 4;
+    // The "-5" is for the aggregation header, the OBU headers and the LEB128 size
+    const auto basicPacketSize = getBasicPacketSize(mediaProtectionOverhead) - 5;
 
     RtpExtension extension;
     size_t usablePayloadSize = 0;
@@ -168,7 +168,8 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerAV1::generate(
             const auto isFirstPacketFromOBU = obuCurrData == parser.currData();
 
             // Calculate and write size = obu_header() + obu_extension_header() + payload size
-            const auto writeSize = (isFirstPacketFromOBU ? 1 : 0) + (isNeedHeaderExtension ? 1 : 0) + writeNow;
+            const auto headerSize = isFirstPacketFromOBU ? (isNeedHeaderExtension ? 2u : 1u) : 0u;
+            const auto writeSize = headerSize + writeNow;
             writer.writeLEB128(static_cast<uint32_t>(writeSize));
 
             if (isFirstPacketFromOBU) {
-- 
2.43.0


From 38e2dbc947852dba2f7cc16802073e55e24d354d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 18/89] fix: AV1 depacketizer: only the first OBU of a packet
 can be a continuation

---
 src/depacketizer_av1.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/depacketizer_av1.cpp b/src/depacketizer_av1.cpp
index 58274a0..8169553 100644
--- a/src/depacketizer_av1.cpp
+++ b/src/depacketizer_av1.cpp
@@ -125,8 +125,8 @@ void DepacketizerAV1::extract(std::vector<ByteBuffer>& out, const std::vector<co
                 }
 
                 if (reader.remaining() >= obuSize && obuSize > 0) {
-                    if (!valueZ) {
-                        // Start of a new OBU
+                    if (!valueZ || obuIndex > 0) {
+                        // Start of a new OBU, the Z flag is about the first one in the packet
                         bufferedObu.flushTo(w);
 
                         const auto obuHeader = reader.readU8();
-- 
2.43.0


From 029042412dce7d379cd346f2071e3b8814974380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:15 +0000
Subject: [PATCH 19/89] fix: H264, H265 packetizers: send the parameter sets
 ahead of any other unit of a key frame, such as SEI

---
 include/srtc/codec_h264.h | 1 +
 include/srtc/codec_h265.h | 1 +
 src/packetizer_h264.cpp   | 4 +++-
 src/packetizer_h265.cpp   | 4 +++-
 4 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/srtc/codec_h264.h b/include/srtc/codec_h264.h
index cf6e883..a363a06 100644
--- a/include/srtc/codec_h264.h
+++ b/include/srtc/codec_h264.h
@@ -24,6 +24,7 @@ static constexpr uint8_t KeyFrame = 5;
 static constexpr uint8_t SEI = 6;
 static constexpr uint8_t SPS = 7;
 static constexpr uint8_t PPS = 8;
+static constexpr uint8_t AUD = 9;
 }; // namespace NaluType
 
 class NaluParser
diff --git a/include/srtc/codec_h265.h b/include/srtc/codec_h265.h
index 4c72931..2ed7c5b 100644
--- a/include/srtc/codec_h265.h
+++ b/include/srtc/codec_h265.h
@@ -22,6 +22,7 @@ static constexpr uint8_t KeyFrame21 = 21; // CRA_NUT
 static constexpr uint8_t VPS = 32;
 static constexpr uint8_t SPS = 33;
 static constexpr uint8_t PPS = 34;
+static constexpr uint8_t AUD = 35;
 }; // namespace NaluType
 
 //////////
diff --git a/src/packetizer_h264.cpp b/src/packetizer_h264.cpp
index 2629d3a..583e473 100644
--- a/src/packetizer_h264.cpp
+++ b/src/packetizer_h264.cpp
@@ -83,6 +83,8 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerH264::generate(
 
     const auto frameTimestamp = timeSource->getFrameTimestamp(pts_usec);
 
+    const auto isKey = isKeyFrame(frame);
+
     for (NaluParser parser(frame); parser; parser.next()) {
         const auto naluType = parser.currType();
 
@@ -92,7 +94,7 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerH264::generate(
         } else if (naluType == NaluType::PPS) {
             // Update PPS
             mPPS.assign(parser.currData(), parser.currDataSize());
-        } else if (naluType == NaluType::KeyFrame) {
+        } else if (isKey && naluType != NaluType::AUD) {
             // Send codec-specific data first as a STAP-A
             // https://datatracker.ietf.org/doc/html/rfc6184#section-5.7.1
             if (!addedParameters && !mSPS.empty() && !mPPS.empty()) {
diff --git a/src/packetizer_h265.cpp b/src/packetizer_h265.cpp
index 154daab..bef6a2f 100644
--- a/src/packetizer_h265.cpp
+++ b/src/packetizer_h265.cpp
@@ -86,6 +86,8 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerH265::generate(
 
     const auto frameTimestamp = timeSource->getFrameTimestamp(pts_usec);
 
+    const auto isKey = isKeyFrame(frame);
+
     for (NaluParser parser(frame); parser; parser.next()) {
         const auto naluType = parser.currType();
 
@@ -98,7 +100,7 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerH265::generate(
         } else if (naluType == NaluType::PPS) {
             // Update PPS
             mPPS.assign(parser.currData(), parser.currDataSize());
-        } else if (isKeyFrameNalu(naluType)) {
+        } else if (isKey && naluType != NaluType::AUD) {
             // Send codec-specific data first as an AP
             // https://datatracker.ietf.org/doc/html/rfc7798#section-4.4.2
             if (!addedParameters && !mVPS.empty() && !mSPS.empty() && !mPPS.empty()) {
-- 
2.43.0


From 2b702f35f96b46832899c014f623528a97de4b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:19 +0000
Subject: [PATCH 20/89] fix: H264, H265 depacketizers: an aggregation packet
 with the marker is the end of one frame, not of several

---
 include/srtc/depacketizer_h264.h |  2 +-
 include/srtc/depacketizer_h265.h |  2 +-
 src/depacketizer_h264.cpp        | 24 ++++++++++++++----------
 src/depacketizer_h265.cpp        | 24 ++++++++++++++----------
 4 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/include/srtc/depacketizer_h264.h b/include/srtc/depacketizer_h264.h
index c20ce6a..3912714 100644
--- a/include/srtc/depacketizer_h264.h
+++ b/include/srtc/depacketizer_h264.h
@@ -24,7 +24,7 @@ private:
     ByteBuffer mFrameBuffer;
     uint64_t mLastRtpTimestamp;
 
-    void extractImpl(std::vector<ByteBuffer>& out, const JitterBufferItem* packet, ByteBuffer&& nalu);
+    bool extractImpl(const JitterBufferItem* packet, ByteBuffer&& nalu);
 };
 
 } // namespace srtc
\ No newline at end of file
diff --git a/include/srtc/depacketizer_h265.h b/include/srtc/depacketizer_h265.h
index 941f89c..2617dd0 100644
--- a/include/srtc/depacketizer_h265.h
+++ b/include/srtc/depacketizer_h265.h
@@ -24,7 +24,7 @@ private:
     ByteBuffer mFrameBuffer;
     uint64_t mLastRtpTimestamp;
 
-    void extractImpl(std::vector<ByteBuffer>& out, const JitterBufferItem* packet, ByteBuffer&& nalu);
+    bool extractImpl(const JitterBufferItem* packet, ByteBuffer&& nalu);
 };
 
 } // namespace srtc
\ No newline at end of file
diff --git a/src/depacketizer_h264.cpp b/src/depacketizer_h264.cpp
index 211449b..cb74453 100644
--- a/src/depacketizer_h264.cpp
+++ b/src/depacketizer_h264.cpp
@@ -65,6 +65,7 @@ void DepacketizerH264::extract(std::vector<ByteBuffer>& out, const std::vector<c
     std::unique_ptr<ByteWriter> fu_wrt;
 
     for (const auto packet : packetList) {
+        auto hasNalu = false;
         ByteReader reader(packet->payload);
 
         if (reader.remaining() > 1) {
@@ -81,7 +82,7 @@ void DepacketizerH264::extract(std::vector<ByteBuffer>& out, const std::vector<c
                     if (reader.remaining() >= size && size > 0) {
                         ByteBuffer buf(packet->payload.data() + reader.position(), size);
 
-                        extractImpl(out, packet, std::move(buf));
+                        hasNalu |= extractImpl(packet, std::move(buf));
                         reader.skip(size);
                     } else {
                         break;
@@ -106,14 +107,20 @@ void DepacketizerH264::extract(std::vector<ByteBuffer>& out, const std::vector<c
                     }
 
                     if (fuIsEnd && fu_buf) {
-                        extractImpl(out, packet, std::move(*fu_buf));
+                        hasNalu |= extractImpl(packet, std::move(*fu_buf));
                     }
                 }
             } else if (type < 23) {
                 // https://datatracker.ietf.org/doc/html/rfc6184#section-5.6
-                extractImpl(out, packet, packet->payload.copy());
+                hasNalu |= extractImpl(packet, packet->payload.copy());
             }
         }
+
+        // The marker is for the packet, which can have several NALUs
+        if (hasNalu && packet->marker) {
+            out.push_back(std::move(mFrameBuffer));
+            mFrameBuffer.clear();
+        }
     }
 }
 
@@ -175,10 +182,10 @@ bool DepacketizerH264::isFrameStart(const ByteBuffer& payload) const
     return false;
 }
 
-void DepacketizerH264::extractImpl(std::vector<ByteBuffer>& out, const JitterBufferItem* packet, ByteBuffer&& nalu)
+bool DepacketizerH264::extractImpl(const JitterBufferItem* packet, ByteBuffer&& nalu)
 {
     if (nalu.empty()) {
-        return;
+        return false;
     }
 
     if ((mHaveBits & kHaveAll) != kHaveAll) {
@@ -196,7 +203,7 @@ void DepacketizerH264::extractImpl(std::vector<ByteBuffer>& out, const JitterBuf
                 mHaveBits |= kHaveKey;
             } else if (h264::isSliceNalu(nalu_type)) {
                 LOG(SRTC_LOG_V, "Not emitting a non-key frame until there is a keyframe");
-                return;
+                return false;
             }
             break;
         }
@@ -210,10 +217,7 @@ void DepacketizerH264::extractImpl(std::vector<ByteBuffer>& out, const JitterBuf
     mFrameBuffer.append(kAnnexB, sizeof(kAnnexB));
     mFrameBuffer.append(nalu);
 
-    if (packet->marker) {
-        out.push_back(std::move(mFrameBuffer));
-        mFrameBuffer.clear();
-    }
+    return true;
 }
 
 } // namespace srtc
\ No newline at end of file
diff --git a/src/depacketizer_h265.cpp b/src/depacketizer_h265.cpp
index 0e677c3..d42090b 100644
--- a/src/depacketizer_h265.cpp
+++ b/src/depacketizer_h265.cpp
@@ -66,6 +66,7 @@ void DepacketizerH265::extract(std::vector<ByteBuffer>& out, const std::vector<c
     std::unique_ptr<ByteWriter> fu_wrt;
 
     for (const auto packet : packetList) {
+        auto hasNalu = false;
         ByteReader reader(packet->payload);
         if (reader.remaining() >= 2) {
             const auto nalUnitHeader = reader.readU16();
@@ -80,7 +81,7 @@ void DepacketizerH265::extract(std::vector<ByteBuffer>& out, const std::vector<c
                     if (reader.remaining() >= size && size >= 2) {
                         ByteBuffer buf(packet->payload.data() + reader.position(), size);
 
-                        extractImpl(out, packet, std::move(buf));
+                        hasNalu |= extractImpl(packet, std::move(buf));
                         reader.skip(size);
                     } else {
                         break;
@@ -106,14 +107,20 @@ void DepacketizerH265::extract(std::vector<ByteBuffer>& out, const std::vector<c
                     }
 
                     if (fuIsEnd && fu_buf) {
-                        extractImpl(out, packet, std::move(*fu_buf));
+                        hasNalu |= extractImpl(packet, std::move(*fu_buf));
                     }
                 }
             } else if (type <= 40) {
                 // https://datatracker.ietf.org/doc/html/rfc7798#section-4.4.1
-                extractImpl(out, packet, packet->payload.copy());
+                hasNalu |= extractImpl(packet, packet->payload.copy());
             }
         }
+
+        // The marker is for the packet, which can have several NALUs
+        if (hasNalu && packet->marker) {
+            out.push_back(std::move(mFrameBuffer));
+            mFrameBuffer.clear();
+        }
     }
 }
 
@@ -170,10 +177,10 @@ bool DepacketizerH265::isFrameStart(const ByteBuffer& payload) const
     return false;
 }
 
-void DepacketizerH265::extractImpl(std::vector<ByteBuffer>& out, const JitterBufferItem* packet, ByteBuffer&& nalu)
+bool DepacketizerH265::extractImpl(const JitterBufferItem* packet, ByteBuffer&& nalu)
 {
     if (nalu.empty()) {
-        return;
+        return false;
     }
 
     if ((mHaveBits & kHaveAll) != kHaveAll) {
@@ -194,7 +201,7 @@ void DepacketizerH265::extractImpl(std::vector<ByteBuffer>& out, const JitterBuf
                 mHaveBits |= kHaveKey;
             } else if (h265::isSliceNalu(nalu_type)) {
                 LOG(SRTC_LOG_V, "Not emitting a non-key frame until there is a keyframe");
-                return;
+                return false;
             }
             break;
         }
@@ -208,10 +215,7 @@ void DepacketizerH265::extractImpl(std::vector<ByteBuffer>& out, const JitterBuf
     mFrameBuffer.append(kAnnexB, sizeof(kAnnexB));
     mFrameBuffer.append(nalu);
 
-    if (packet->marker) {
-        out.push_back(std::move(mFrameBuffer));
-        mFrameBuffer.clear();
-    }
+    return true;
 }
 
 } // namespace srtc
\ No newline at end of file
-- 
2.43.0


From bd665627a89f7a286909148138b740ae25ce4a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:32 +0000
Subject: [PATCH 21/89] fix: H265 depacketizer: look at every NALU of an
 aggregation packet for the start of a frame

---
 src/depacketizer_h265.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/depacketizer_h265.cpp b/src/depacketizer_h265.cpp
index d42090b..94a7c7d 100644
--- a/src/depacketizer_h265.cpp
+++ b/src/depacketizer_h265.cpp
@@ -143,6 +143,8 @@ bool DepacketizerH265::isFrameStart(const ByteBuffer& payload) const
                     if (size > 2 && isFrameStartImpl(static_cast<uint8_t>(apNaluType), apData + 2, size - 2)) {
                         return true;
                     }
+
+                    reader.skip(size);
                 } else {
                     break;
                 }
-- 
2.43.0


From fdfeecff230653a67f94044778bb6db90e72f020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:32 +0000
Subject: [PATCH 22/89] fix: H264, H265 depacketizers: a frame can start with
 an access unit delimiter

---
 src/depacketizer_h264.cpp | 4 ++++
 src/depacketizer_h265.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/depacketizer_h264.cpp b/src/depacketizer_h264.cpp
index cb74453..daeea4f 100644
--- a/src/depacketizer_h264.cpp
+++ b/src/depacketizer_h264.cpp
@@ -25,6 +25,10 @@ bool isFrameStartImpl(uint8_t naluType, const uint8_t* data, size_t size)
         // Key frames start with SPS
         return true;
     }
+    if (naluType == srtc::h264::NaluType::AUD) {
+        // An access unit delimiter is always the first
+        return true;
+    }
     if (naluType == srtc::h264::NaluType::NonKeyFrame && size > 0) {
         // Non-key frames start first_mb_in_slice == 0
         if (srtc::h264::isSliceFrameStart(data, size)) {
diff --git a/src/depacketizer_h265.cpp b/src/depacketizer_h265.cpp
index 94a7c7d..d6d5139 100644
--- a/src/depacketizer_h265.cpp
+++ b/src/depacketizer_h265.cpp
@@ -26,6 +26,10 @@ bool isFrameStartImpl(uint8_t naluType, const uint8_t* data, size_t size)
         // Key frames start with VPS
         return true;
     }
+    if (naluType == srtc::h265::NaluType::AUD) {
+        // An access unit delimiter is always the first
+        return true;
+    }
     if (!srtc::h265::isKeyFrameNalu(naluType) && srtc::h265::isSliceNalu(naluType) && size > 0) {
         // Non-key frames start with an indicator bit
         if (srtc::h265::isSliceFrameStart(data, size)) {
-- 
2.43.0


From be2a1e806f6ae7db329e6c8a60618e3099bb0b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:18 +0000
Subject: [PATCH 23/89] fix: bit reader: undefined shift in exp-Golomb values
 with 32 leading zeros or cut short

---
 src/bit_reader.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bit_reader.cpp b/src/bit_reader.cpp
index 872ecf1..a2c9893 100644
--- a/src/bit_reader.cpp
+++ b/src/bit_reader.cpp
@@ -35,9 +35,14 @@ uint32_t BitReader::readUnsignedExpGolomb()
         return 0;
     }
 
+    if (leadingZeros >= 32) {
+        // Out of range, or out of data
+        return UINT32_MAX;
+    }
+
     // Read remaining bits
     uint32_t remainingBits = readBits(leadingZeros);
-    return (1 << leadingZeros) - 1 + remainingBits;
+    return (1u << leadingZeros) - 1 + remainingBits;
 }
 
 } // namespace srtc
-- 
2.43.0


From 9057da1844b5ea31555233733ba6954967b28db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:18 +0000
Subject: [PATCH 24/89] fix: H264, H265 depacketizers: crash on a fragment
 whose first fragment is not in the frame

---
 src/depacketizer_h264.cpp | 4 +++-
 src/depacketizer_h265.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/depacketizer_h264.cpp b/src/depacketizer_h264.cpp
index daeea4f..e267838 100644
--- a/src/depacketizer_h264.cpp
+++ b/src/depacketizer_h264.cpp
@@ -106,12 +106,14 @@ void DepacketizerH264::extract(std::vector<ByteBuffer>& out, const std::vector<c
                         fu_wrt->writeU8(static_cast<uint8_t>(nri | fuNaluType));
                     }
 
-                    if (reader.remaining() > 0) {
+                    if (fu_wrt && reader.remaining() > 0) {
                         fu_wrt->write(packet->payload.data() + reader.position(), reader.remaining());
                     }
 
                     if (fuIsEnd && fu_buf) {
                         hasNalu |= extractImpl(packet, std::move(*fu_buf));
+                        fu_wrt.reset();
+                        fu_buf.reset();
                     }
                 }
             } else if (type < 23) {
diff --git a/src/depacketizer_h265.cpp b/src/depacketizer_h265.cpp
index d6d5139..092adb6 100644
--- a/src/depacketizer_h265.cpp
+++ b/src/depacketizer_h265.cpp
@@ -106,12 +106,14 @@ void DepacketizerH265::extract(std::vector<ByteBuffer>& out, const std::vector<c
                         fu_wrt->writeU16(static_cast<uint16_t>((fuType << 9) | (layerId << 3) | temporalId));
                     }
 
-                    if (reader.remaining() > 0) {
+                    if (fu_wrt && reader.remaining() > 0) {
                         fu_wrt->write(packet->payload.data() + reader.position(), reader.remaining());
                     }
 
                     if (fuIsEnd && fu_buf) {
                         hasNalu |= extractImpl(packet, std::move(*fu_buf));
+                        fu_wrt.reset();
+                        fu_buf.reset();
                     }
                 }
             } else if (type <= 40) {
-- 
2.43.0


From 87feda9b4e7a425111e76752906d3560a2e2ab45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:18 +0000
Subject: [PATCH 25/89] fix: AV1 depacketizer: memory corruption on an OBU
 which ends before its extension header

---
 src/depacketizer_av1.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/depacketizer_av1.cpp b/src/depacketizer_av1.cpp
index 8169553..8e19211 100644
--- a/src/depacketizer_av1.cpp
+++ b/src/depacketizer_av1.cpp
@@ -25,6 +25,7 @@ public:
     void append(const uint8_t* data, size_t size);
 
     void flushTo(srtc::ByteWriter& out);
+    void clear();
 
 private:
     uint8_t mHeader; // or 0 since OBU types start at 1
@@ -64,11 +65,16 @@ void BufferedObu::flushTo(srtc::ByteWriter& out)
 
         out.writeLEB128(static_cast<uint32_t>(mBuf.size()));
         out.write(mBuf);
-
-        mBuf.clear();
-        mHeader = 0;
-        mExtension = 0;
     }
+
+    clear();
+}
+
+void BufferedObu::clear()
+{
+    mBuf.clear();
+    mHeader = 0;
+    mExtension = 0;
 }
 
 } // namespace
@@ -135,7 +141,13 @@ void DepacketizerAV1::extract(std::vector<ByteBuffer>& out, const std::vector<co
                         const auto obuHasExtension = (obuHeader >> 2) & 0x01;
 
                         bufferedObu.setHeader(obuHeader);
-                        if (obuHasExtension && reader.remaining() >= 1) {
+                        if (obuHasExtension) {
+                            if (obuSize == 0) {
+                                // No place for the extension
+                                bufferedObu.clear();
+                                break;
+                            }
+
                             const auto obuExtension = reader.readU8();
                             obuSize -= 1;
 
-- 
2.43.0


From e156fac4c625c1e15d3f655d10812f53e2e01926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:18 +0000
Subject: [PATCH 26/89] fix: AV1 depacketizer: an OBU size beyond the end of
 the packet aborted the process

---
 src/depacketizer_av1.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/depacketizer_av1.cpp b/src/depacketizer_av1.cpp
index 8e19211..eb2be43 100644
--- a/src/depacketizer_av1.cpp
+++ b/src/depacketizer_av1.cpp
@@ -225,6 +225,9 @@ bool DepacketizerAV1::isFrameStart(const ByteBuffer& payload) const
             }
 
             // Advance
+            if (obuSize > reader.remaining()) {
+                break;
+            }
             reader.skip(obuSize);
             obuIndex += 1;
         }
-- 
2.43.0


From f38abb0d4cd0a302ffa12b85fa5a8ef6eceba766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:18 +0000
Subject: [PATCH 27/89] fix: VP9: the TL0PICIDX byte is there in non-flexible
 mode whatever the D bit

---
 src/codec_vp9.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/codec_vp9.cpp b/src/codec_vp9.cpp
index 23a894a..bdb4f45 100644
--- a/src/codec_vp9.cpp
+++ b/src/codec_vp9.cpp
@@ -51,16 +51,14 @@ bool parsePayloadDescriptor(const uint8_t* data,
         }
     }
 
-    // L: layer indices (TID/U/SID/D byte, then TL0PICIDX when F=0 and D=0)
+    // L: layer indices (TID/U/SID/D byte, then TL0PICIDX when F=0)
     if (flagL) {
         if (pos >= size) {
             return false;
         }
-        const uint8_t l_byte = data[pos];
         pos++;
 
-        const bool d_bit = (l_byte & 0x01) != 0;
-        if (!flagF && !d_bit) {
+        if (!flagF) {
             if (pos >= size) {
                 return false;
             }
-- 
2.43.0


From d1397e02000d26baa9fffbc2a19e88f354b7dda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 28/89] fix: H264, H265 parsers: read outside of frames shorter
 than a start code

---
 src/codec_h264.cpp | 4 ++--
 src/codec_h265.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/codec_h264.cpp b/src/codec_h264.cpp
index ecf365a..7e5ca8f 100644
--- a/src/codec_h264.cpp
+++ b/src/codec_h264.cpp
@@ -6,7 +6,7 @@ namespace
 
 bool is_nalu_4(const uint8_t* buf, size_t pos, size_t end)
 {
-    if (pos < end - 4 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 0 && buf[pos + 3] == 1) {
+    if (pos + 4 < end && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 0 && buf[pos + 3] == 1) {
         return true;
     }
 
@@ -15,7 +15,7 @@ bool is_nalu_4(const uint8_t* buf, size_t pos, size_t end)
 
 bool is_nalu_3(const uint8_t* buf, size_t pos, size_t end)
 {
-    if (pos < end - 3 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 1) {
+    if (pos + 3 < end && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 1) {
         return true;
     }
 
diff --git a/src/codec_h265.cpp b/src/codec_h265.cpp
index 06eb67f..b7519d1 100644
--- a/src/codec_h265.cpp
+++ b/src/codec_h265.cpp
@@ -5,7 +5,7 @@ namespace
 
 bool is_nalu_4(const uint8_t* buf, size_t pos, size_t end)
 {
-    if (pos < end - 4 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 0 && buf[pos + 3] == 1) {
+    if (pos + 4 < end && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 0 && buf[pos + 3] == 1) {
         return true;
     }
 
@@ -14,7 +14,7 @@ bool is_nalu_4(const uint8_t* buf, size_t pos, size_t end)
 
 bool is_nalu_3(const uint8_t* buf, size_t pos, size_t end)
 {
-    if (pos < end - 3 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 1) {
+    if (pos + 3 < end && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 1) {
         return true;
     }
 
-- 
2.43.0


From 8416b6971c40226dac1324ed5f7860fbf24bcc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 29/89] fix: AV1 parser: an OBU whose size field is not counted
 in what remains was read beyond the frame

---
 src/codec_av1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec_av1.cpp b/src/codec_av1.cpp
index 78cb2cf..73420c9 100644
--- a/src/codec_av1.cpp
+++ b/src/codec_av1.cpp
@@ -132,7 +132,7 @@ void ObuParser::parseImpl(const uint8_t* data, size_t size)
     size_t payload_size = size;
     if (has_size) {
         const auto leb128_size = read_leb128(&data, &size);
-        if (leb128_size > payload_size) {
+        if (leb128_size > size) {
             return;
         }
         payload_size = leb128_size;
-- 
2.43.0


From ba66f37f9f3d58c0fcc756c3e45bec53690ccbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 30/89] fix: VP9: dimensions of profile 2 and 3 key frames were
 read one bit early

---
 src/codec_vp9.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/codec_vp9.cpp b/src/codec_vp9.cpp
index bdb4f45..da52d61 100644
--- a/src/codec_vp9.cpp
+++ b/src/codec_vp9.cpp
@@ -229,6 +229,9 @@ bool extractDimensions(const uint8_t* data, size_t size, uint16_t& width, uint16
     }
 
     // color_config()
+    if (profile >= 2) {
+        reader.readBit(); // ten_or_twelve_bit
+    }
     const auto color_space = reader.readBits(3);
     if (color_space != 7) {
         reader.readBit(); // color_range
-- 
2.43.0


From b1da56b5ca4558800c41488299546bec257a3256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:16 +0000
Subject: [PATCH 31/89] fix: jitter buffer: a copy of a packet after its
 deadline held back the requests for those lost later

---
 src/jitter_buffer.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index bcbecb5..551a1c4 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -608,8 +608,6 @@ std::vector<uint16_t> JitterBuffer::processNack()
                     static_cast<uint16_t>(mMaxSeq));
 #endif
             }
-        } else if (diff_millis(item->when_nack_abandon, now) <= 0) {
-            break;
         }
     }
 
-- 
2.43.0


From dd0834995f18326f52829c4e8fdfe805c2399487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:45 +0000
Subject: [PATCH 32/89] fix: RTP: contributing sources were taken for the
 extension or the payload

---
 src/rtp_packet.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rtp_packet.cpp b/src/rtp_packet.cpp
index 36a15ec..2013c1a 100644
--- a/src/rtp_packet.cpp
+++ b/src/rtp_packet.cpp
@@ -293,6 +293,13 @@ std::shared_ptr<RtpPacket> RtpPacket::fromUdpPacket(const std::shared_ptr<Track>
     assert((ssrc == track->getSSRC() && payloadId == track->getPayloadId()) ||
            (ssrc == track->getRtxSSRC() && payloadId == track->getRtxPayloadId()));
 
+    // Contributing sources
+    const auto csrcSize = ((header >> 8) & 0x0Fu) * 4u;
+    if (reader.remaining() < csrcSize) {
+        return {};
+    }
+    reader.skip(csrcSize);
+
     RtpExtension extension;
 
     if ((header & (1 << 12)) != 0) {
-- 
2.43.0


From 849098eeade9a13534f3371795953e7c8861d8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:45 +0000
Subject: [PATCH 33/89] fix: RTP timestamps drifted away from presentation
 time, by up to one unit with every frame

---
 include/srtc/rtp_time_source.h | 3 +++
 src/rtp_time_source.cpp        | 8 ++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/srtc/rtp_time_source.h b/include/srtc/rtp_time_source.h
index 4d74a8e..f94b21c 100644
--- a/include/srtc/rtp_time_source.h
+++ b/include/srtc/rtp_time_source.h
@@ -22,6 +22,9 @@ private:
     RandomGenerator<uint32_t> mRandom;
     const uint32_t mClockRate;
 
+    int64_t mBasePts;
+    const uint32_t mBaseRtp;
+
     std::optional<int64_t> mCurrPts;
     std::chrono::steady_clock::time_point mCurrTime;
     uint32_t mCurrRtp;
diff --git a/src/rtp_time_source.cpp b/src/rtp_time_source.cpp
index 5158bfe..ef1a735 100644
--- a/src/rtp_time_source.cpp
+++ b/src/rtp_time_source.cpp
@@ -7,8 +7,10 @@ namespace srtc
 RtpTimeSource::RtpTimeSource(uint32_t clockRate)
     : mRandom(0, std::numeric_limits<int32_t>::max())
     , mClockRate(clockRate)
+    , mBasePts(0)
+    , mBaseRtp(mRandom.next())
     , mCurrTime(std::chrono::steady_clock::now())
-    , mCurrRtp(mRandom.next())
+    , mCurrRtp(mBaseRtp)
 {
 }
 
@@ -17,6 +19,7 @@ RtpTimeSource::~RtpTimeSource() = default;
 uint32_t RtpTimeSource::getFrameTimestamp(int64_t pts)
 {
     if (!mCurrPts.has_value()) {
+        mBasePts = pts;
         mCurrPts = pts;
     }
 
@@ -26,7 +29,8 @@ uint32_t RtpTimeSource::getFrameTimestamp(int64_t pts)
         return mCurrRtp;
     }
 
-    mCurrRtp += static_cast<uint32_t>(elapsed_usec * mClockRate / 1000000);
+    // From the start and not from the previous frame, so that rounding errors do not accumulate
+    mCurrRtp = mBaseRtp + static_cast<uint32_t>((pts - mBasePts) * mClockRate / 1000000);
     mCurrPts = pts;
     mCurrTime = std::chrono::steady_clock::now();
 
-- 
2.43.0


From 8df0259718cffae04a24ac9d03d96d27946b3c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:45 +0000
Subject: [PATCH 34/89] fix: RTP extensions: elements which follow padding were
 not found

---
 include/srtc/rtp_extension.h |  2 +-
 src/rtp_extension.cpp        | 27 ++++++++++++++-------------
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/include/srtc/rtp_extension.h b/include/srtc/rtp_extension.h
index 0fd2eaa..157e900 100644
--- a/include/srtc/rtp_extension.h
+++ b/include/srtc/rtp_extension.h
@@ -58,7 +58,7 @@ private:
     };
 
     // Walks to the next element, one-byte or two-byte format depending on mId.
-    // Returns false once padding, a reserved id, or truncated data is reached, or if
+    // Skips padding. Returns false once a reserved id or truncated data is reached, or if
     // mId is neither the one-byte indicator nor a recognized two-byte indicator.
     [[nodiscard]] bool nextElement(ByteReader& reader, Element& out) const;
 
diff --git a/src/rtp_extension.cpp b/src/rtp_extension.cpp
index 8f99aab..e9c4dd5 100644
--- a/src/rtp_extension.cpp
+++ b/src/rtp_extension.cpp
@@ -152,14 +152,13 @@ bool RtpExtension::nextElement(ByteReader& reader, Element& out) const
     }
 
     if (mId == kOneByte) {
-        if (reader.remaining() < 1) {
-            return false;
-        }
-
-        const auto value = reader.readU8();
-        if (value == 0) {
-            // Padding
-            return false;
+        // Padding is allowed anywhere, https://datatracker.ietf.org/doc/html/rfc8285#section-4.2
+        uint8_t value = 0;
+        while (value == 0) {
+            if (reader.remaining() < 1) {
+                return false;
+            }
+            value = reader.readU8();
         }
 
         const auto id = static_cast<uint8_t>(value >> 4);
@@ -181,13 +180,15 @@ bool RtpExtension::nextElement(ByteReader& reader, Element& out) const
     }
 
     // Two-byte format
-    if (reader.remaining() < 2) {
-        return false;
+    uint8_t id = 0;
+    while (id == 0) {
+        if (reader.remaining() < 1) {
+            return false;
+        }
+        id = reader.readU8();
     }
 
-    const auto id = reader.readU8();
-    if (id == 0) {
-        // Padding
+    if (reader.remaining() < 1) {
         return false;
     }
 
-- 
2.43.0


From 33e02a318405ee6652834dab859fa1b5439a5c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:45 +0000
Subject: [PATCH 35/89] fix: RTP extension builder: values over 255 bytes
 corrupted the elements after them, an empty last one was not seen

---
 src/rtp_extension_builder.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rtp_extension_builder.cpp b/src/rtp_extension_builder.cpp
index 51f63f2..0352e2a 100644
--- a/src/rtp_extension_builder.cpp
+++ b/src/rtp_extension_builder.cpp
@@ -28,7 +28,7 @@ void RtpExtensionBuilder::addBinaryValue(uint8_t id, const ByteBuffer& buf)
     const auto len = std::min(static_cast<size_t>(255), buf.size());
     mWriter.writeU8(id);
     mWriter.writeU8(static_cast<uint8_t>(len));
-    mWriter.write(buf);
+    mWriter.write(buf.data(), len);
 }
 
 void RtpExtensionBuilder::addU16Value(uint8_t id, uint16_t value)
@@ -59,7 +59,7 @@ void RtpExtensionBuilder::addOrReplaceU16Value(uint8_t id, uint16_t value)
 {
     ByteReader reader(mBuf);
 
-    while (reader.remaining() > 2) {
+    while (reader.remaining() >= 2) {
         const auto extensionId = reader.readU8();
         const auto extensionLen = reader.readU8();
 
@@ -101,7 +101,7 @@ RtpExtensionBuilder RtpExtensionBuilder::from(const RtpExtension& extension)
 bool RtpExtensionBuilder::contains(uint8_t id) const
 {
     ByteReader reader(mBuf);
-    while (reader.remaining() > 2) {
+    while (reader.remaining() >= 2) {
         const auto extensionId = reader.readU8();
         if (extensionId == id) {
             return true;
-- 
2.43.0


From 5cbe2bb3e142ac592e38c94f5064509aebf38fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:32 +0000
Subject: [PATCH 36/89] fix: extended values: values from before a rollover
 more than a second ago were taken for new ones

---
 include/srtc/extended_value.h |  2 --
 src/extended_value.cpp        | 25 ++++++-------------------
 2 files changed, 6 insertions(+), 21 deletions(-)

diff --git a/include/srtc/extended_value.h b/include/srtc/extended_value.h
index bf6a06e..6b31edf 100644
--- a/include/srtc/extended_value.h
+++ b/include/srtc/extended_value.h
@@ -1,6 +1,5 @@
 #pragma once
 
-#include <chrono>
 #include <cstdint>
 #include <optional>
 
@@ -21,7 +20,6 @@ public:
 private:
     const uint64_t mRolloverIncrement;
     uint64_t mRolloverValue;
-    std::chrono::steady_clock::time_point mRolloverTime;
     std::optional<T> mLastValue;
 };
 
diff --git a/src/extended_value.cpp b/src/extended_value.cpp
index 58666e1..9ae20d8 100644
--- a/src/extended_value.cpp
+++ b/src/extended_value.cpp
@@ -2,13 +2,6 @@
 
 #include <limits>
 
-namespace
-{
-
-constexpr auto mRolloverBack = std::chrono::milliseconds(1000);
-
-}
-
 namespace srtc
 {
 
@@ -17,19 +10,13 @@ namespace srtc
 template <typename T>
 ExtendedValue<T>::ExtendedValue()
     : mRolloverIncrement(static_cast<uint64_t>(std::numeric_limits<T>::max()) + 1)
-    , mRolloverValue(0)
+    , mRolloverValue(mRolloverIncrement)
 {
 }
 
 template <typename T>
 uint64_t ExtendedValue<T>::extend(T src)
 {
-    // Lazy init
-    if (mRolloverValue == 0) {
-        mRolloverValue = mRolloverIncrement;
-        mRolloverTime = std::chrono::steady_clock::now();
-    }
-
     // Do we even have a previous value?
     if (!mLastValue.has_value()) {
         mLastValue = src;
@@ -43,15 +30,15 @@ uint64_t ExtendedValue<T>::extend(T src)
     if (mLastValue.value() >= max - margin && src <= margin) {
         // Rollover
         mRolloverValue += mRolloverIncrement;
-        mRolloverTime = std::chrono::steady_clock::now();
         mLastValue = src;
         return mRolloverValue | src;
     }
 
-    if (mLastValue.value() <= margin && src >= max - margin &&
-        std::chrono::steady_clock::now() - mRolloverTime <= mRolloverBack) {
-        // We just had a rollover, and the new value wants to go backwards
-        return (mRolloverValue - mRolloverIncrement) | src;
+    if (mLastValue.value() <= margin && src >= max - margin) {
+        // The new value goes backwards across a rollover
+        mRolloverValue -= mRolloverIncrement;
+        mLastValue = src;
+        return mRolloverValue | src;
     }
 
     mLastValue = src;
-- 
2.43.0


From 9d2632a78a1f8d2ea85433849865d5dd1950bd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 37/89] fix: TWCC feedback: errors of the arrival times added
 up over a message

---
 src/twcc_subscribe.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/twcc_subscribe.cpp b/src/twcc_subscribe.cpp
index 3411f98..06f37bb 100644
--- a/src/twcc_subscribe.cpp
+++ b/src/twcc_subscribe.cpp
@@ -24,6 +24,9 @@ constexpr auto kMaxPacketSize = 1000;
 // Reference time is expressed as units of 64 milliseconds
 constexpr auto kReferenceTimeUnits = 64 * 1000;
 
+// Deltas are represented in units of 250 micros
+constexpr int64_t kDeltaUnits = 250;
+
 // Small deltas are represented by an uint8 in units of 250 micros
 // Range: [0, 31.750 ms]
 constexpr auto kMinSmallDeltaMicros = 0;
@@ -391,6 +394,7 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
     std::list<ByteBuffer> list;
 
     uint16_t count = 0;
+    bool curr_time_present = false;
     int64_t curr_time = 0;
     auto builder = std::make_unique<Builder>();
 
@@ -412,7 +416,8 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
             builder->addNotReceivedRun(packet, count);
             advance(count);
         } else {
-            if (curr_time == 0) {
+            if (!curr_time_present) {
+                curr_time_present = true;
                 curr_time = (packet->received_time_micros / kReferenceTimeUnits) * kReferenceTimeUnits;
                 builder->setReferenceTime(curr_time);
             }
@@ -437,7 +442,7 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
                 // a new packet which will use the new time as its reference time
                 list.push_back(builder->generate(mFbCount++));
                 builder = std::make_unique<Builder>();
-                curr_time = 0;
+                curr_time_present = false;
             }
         }
 
@@ -445,7 +450,7 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
             // Packet size has gotten too large, flush
             list.push_back(builder->generate(mFbCount++));
             builder = std::make_unique<Builder>();
-            curr_time = 0;
+            curr_time_present = false;
         }
     }
 
@@ -549,9 +554,11 @@ uint16_t SubscribePacketHistory::peekSmallDeltaRun(int64_t& curr_time, bool* rec
         } else if (packet->received_time_micros >= curr_time + kMinSmallDeltaMicros &&
                    packet->received_time_micros <= curr_time + kMaxSmallDeltaMicros) {
             // Acceptable small delta
+            // The next one is relative to this one as it will be decoded, so that errors do not add up
+            const auto delta = (packet->received_time_micros - curr_time) / kDeltaUnits * kDeltaUnits;
             received[out] = true;
-            delta_micros[out] = static_cast<int32_t>(packet->received_time_micros - curr_time);
-            curr_time = packet->received_time_micros;
+            delta_micros[out] = static_cast<int32_t>(delta);
+            curr_time += delta;
         } else {
             break;
         }
@@ -582,9 +589,11 @@ uint16_t SubscribePacketHistory::peekLargeDeltaRun(int64_t& curr_time, bool* rec
         } else if (packet->received_time_micros >= curr_time + kMinLargeDeltaMicros &&
                    packet->received_time_micros <= curr_time + kMaxLargeDeltaMicros) {
             // Acceptable large delta
+            // The next one is relative to this one as it will be decoded, so that errors do not add up
+            const auto delta = (packet->received_time_micros - curr_time) / kDeltaUnits * kDeltaUnits;
             received[out] = true;
-            delta_micros[out] = static_cast<int32_t>(packet->received_time_micros - curr_time);
-            curr_time = packet->received_time_micros;
+            delta_micros[out] = static_cast<int32_t>(delta);
+            curr_time += delta;
         } else {
             break;
         }
-- 
2.43.0


From d6a340b9c0fe0ea1048d797066fc461cbf9234e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:53 +0000
Subject: [PATCH 38/89] fix: TWCC feedback: endless loop when packets of one
 report are more than eight seconds apart

---
 src/twcc_subscribe.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/twcc_subscribe.cpp b/src/twcc_subscribe.cpp
index 06f37bb..5a8eb7c 100644
--- a/src/twcc_subscribe.cpp
+++ b/src/twcc_subscribe.cpp
@@ -437,9 +437,13 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
                 builder->addLargeDeltaRun(packet, count, received, delta_micros);
                 advance(count);
                 curr_time = packet_time_large;
-            } else if (!builder->empty()) {
+            } else {
                 // The delta is too large even for the large delta encoding (unlikely but can happen), we have to start
                 // a new packet which will use the new time as its reference time
+                if (count > 0) {
+                    builder->addLargeDeltaRun(packet, count, received, delta_micros);
+                    advance(count);
+                }
                 list.push_back(builder->generate(mFbCount++));
                 builder = std::make_unique<Builder>();
                 curr_time_present = false;
-- 
2.43.0


From bd7353426bd5aa27f5c2a60e2eef951095009ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 39/89] fix: TWCC feedback: packets already reported were
 reported as not received next to a late one

---
 include/srtc/twcc_subscribe.h |  2 ++
 src/twcc_subscribe.cpp        | 31 +++++++++++++++++++++++++++----
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/include/srtc/twcc_subscribe.h b/include/srtc/twcc_subscribe.h
index e75321e..9b3020a 100644
--- a/include/srtc/twcc_subscribe.h
+++ b/include/srtc/twcc_subscribe.h
@@ -39,6 +39,7 @@ private:
     void deletePacket(SubscribePacket* packet);
     void freeEverything();
 
+    [[nodiscard]] bool isAlreadyReported(uint64_t seq_ext) const;
     [[nodiscard]] uint16_t peekNotReceivedRun() const;
     [[nodiscard]] uint16_t peekSmallDeltaRun(int64_t& curr_time, bool* received, int32_t* delta_micros_list) const;
     [[nodiscard]] uint16_t peekLargeDeltaRun(int64_t& curr_time, bool* received, int32_t* delta_micros_list) const;
@@ -53,6 +54,7 @@ private:
     SubscribePacket** mPacketList;
     uint64_t mMinSeq;
     uint64_t mMaxSeq; // Open interval: [mMinSeq, mMaxSeq)
+    uint64_t mReportedEndSeq;
 
     uint8_t mFbCount;
 };
diff --git a/src/twcc_subscribe.cpp b/src/twcc_subscribe.cpp
index 5a8eb7c..5eb8675 100644
--- a/src/twcc_subscribe.cpp
+++ b/src/twcc_subscribe.cpp
@@ -221,6 +221,7 @@ SubscribePacketHistory::SubscribePacketHistory(int64_t base_time_micros)
     , mPacketList(nullptr)
     , mMinSeq(0)
     , mMaxSeq(0)
+    , mReportedEndSeq(0)
     , mFbCount(0)
 {
 }
@@ -408,6 +409,17 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
         index = static_cast<size_t>(mMinSeq & kMaxPacketMask);
         packet = mPacketList[index];
 
+        if (isAlreadyReported(mMinSeq)) {
+            // In between late packets, and covered before
+            if (!builder->empty()) {
+                list.push_back(builder->generate(mFbCount++));
+                builder = std::make_unique<Builder>();
+                curr_time_present = false;
+            }
+            advance(1);
+            continue;
+        }
+
         if (packet->received_time_micros == 0) {
             // A run of not received
             count = peekNotReceivedRun();
@@ -426,13 +438,13 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
             int64_t packet_time_large = curr_time;
 
             if (count = peekSmallDeltaRun(packet_time_small, received, delta_micros);
-                count == 14 || mMinSeq + count == mMaxSeq) {
+                count == 14 || mMinSeq + count == mMaxSeq || isAlreadyReported(mMinSeq + count)) {
                 // A run of small deltas and some possibly not received
                 builder->addSmallDeltaRun(packet, count, received, delta_micros);
                 advance(count);
                 curr_time = packet_time_small;
             } else if (count = peekLargeDeltaRun(packet_time_large, received, delta_micros);
-                       count == 7 || mMinSeq + count == mMaxSeq) {
+                       count == 7 || mMinSeq + count == mMaxSeq || isAlreadyReported(mMinSeq + count)) {
                 // A run of large deltas and some possibly not received
                 builder->addLargeDeltaRun(packet, count, received, delta_micros);
                 advance(count);
@@ -463,6 +475,7 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
     }
 
     mLastGeneratedMicros = now_micros;
+    mReportedEndSeq = std::max(mReportedEndSeq, mMaxSeq);
 
     return list;
 }
@@ -517,6 +530,12 @@ void SubscribePacketHistory::freeEverything()
     mPacketList = nullptr;
 }
 
+bool SubscribePacketHistory::isAlreadyReported(uint64_t seq_ext) const
+{
+    // Earlier reports cover everything up to here, except for the packets which were received since then
+    return seq_ext < mReportedEndSeq && mPacketList[seq_ext & kMaxPacketMask]->received_time_micros == 0;
+}
+
 uint16_t SubscribePacketHistory::peekNotReceivedRun() const
 {
     uint64_t cur = mMinSeq;
@@ -551,7 +570,9 @@ uint16_t SubscribePacketHistory::peekSmallDeltaRun(int64_t& curr_time, bool* rec
 
         const auto out = cur - mMinSeq;
 
-        if (packet->received_time_micros == 0) {
+        if (isAlreadyReported(cur)) {
+            break;
+        } else if (packet->received_time_micros == 0) {
             // Not received
             received[out] = false;
             delta_micros[out] = 0;
@@ -586,7 +607,9 @@ uint16_t SubscribePacketHistory::peekLargeDeltaRun(int64_t& curr_time, bool* rec
 
         const auto out = cur - mMinSeq;
 
-        if (packet->received_time_micros == 0) {
+        if (isAlreadyReported(cur)) {
+            break;
+        } else if (packet->received_time_micros == 0) {
             // Not received
             received[out] = false;
             delta_micros[out] = 0;
-- 
2.43.0


From 32bf25cf0e516431a7057826360bd5eb0e983ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 40/89] fix: TWCC: arrival times were wrong after a packet
 which is no longer in the history

---
 src/rtp_extension_source_twcc.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/rtp_extension_source_twcc.cpp b/src/rtp_extension_source_twcc.cpp
index e2210b3..a794613 100644
--- a/src/rtp_extension_source_twcc.cpp
+++ b/src/rtp_extension_source_twcc.cpp
@@ -294,25 +294,21 @@ void RtpExtensionSourceTWCC::onReceivedRtcpPacket([[maybe_unused]] uint32_t ssrc
         LOG(SRTC_LOG_W, "After reading TWCC feedback, there are %zu bytes left", reader.remaining());
     }
 
-    // Resolve time deltas to absolute times
-    twcc::PublishPacket* prev_ptr = nullptr;
+    // Resolve time deltas to absolute times. A delta is relative to the previous received packet in this message, which
+    // we may no longer remember.
+    auto curr_time_micros = reference_time_micros;
 
     for (uint16_t i = 0; i < packet_status_count; i += 1) {
         const auto curr_seq = static_cast<uint16_t>(base_seq_number + i);
         const auto curr_ptr = mPacketHistory->get(curr_seq);
 
         if (isReceivedWithTime(tempList[i].status)) {
-            if (curr_ptr) { // Needed only for MSVC compiler
-                if (!prev_ptr) {
-                    curr_ptr->received_time_micros = reference_time_micros + tempList[i].delta_micros;
-                } else {
-                    curr_ptr->received_time_micros = prev_ptr->received_time_micros + tempList[i].delta_micros;
-                }
+            curr_time_micros += tempList[i].delta_micros;
 
+            if (curr_ptr) {
+                curr_ptr->received_time_micros = curr_time_micros;
                 curr_ptr->received_time_present = true;
             }
-
-            prev_ptr = curr_ptr;
         }
     }
 
-- 
2.43.0


From 5c9f93f3729b578fafe20a8de18e30de81f8f017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 41/89] fix: TWCC: arrival times jumped back by twelve days
 when the reference time wrapped

---
 include/srtc/rtp_extension_source_twcc.h | 1 +
 src/rtp_extension_source_twcc.cpp        | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/srtc/rtp_extension_source_twcc.h b/include/srtc/rtp_extension_source_twcc.h
index 5052e4d..0431593 100644
--- a/include/srtc/rtp_extension_source_twcc.h
+++ b/include/srtc/rtp_extension_source_twcc.h
@@ -65,6 +65,7 @@ public:
 
 private:
     uint16_t mNextPacketSEQ;
+    int64_t mLastReferenceTime;
     std::unique_ptr<twcc::PublishPacketHistory> mPacketHistory;
 
     struct TempPacket {
diff --git a/src/rtp_extension_source_twcc.cpp b/src/rtp_extension_source_twcc.cpp
index a794613..1e8507a 100644
--- a/src/rtp_extension_source_twcc.cpp
+++ b/src/rtp_extension_source_twcc.cpp
@@ -37,6 +37,7 @@ namespace srtc
 
 RtpExtensionSourceTWCC::RtpExtensionSourceTWCC(const std::shared_ptr<RealScheduler>& scheduler)
     : mNextPacketSEQ(1)
+    , mLastReferenceTime(0)
     , mPacketHistory(std::make_unique<twcc::PublishPacketHistory>())
     , mIsConnected(false)
     , mIsProbing(false)
@@ -178,7 +179,10 @@ void RtpExtensionSourceTWCC::onReceivedRtcpPacket([[maybe_unused]] uint32_t ssrc
     const auto fb_pkt_count = static_cast<uint8_t>(reference_time_and_fb_pkt_count & 0xFFu);
     (void)fb_pkt_count;
 
-    const auto reference_time_micros = 64 * 1000 * static_cast<int64_t>(reference_time);
+    // The reference time is 24 bits and wraps
+    mLastReferenceTime +=
+        static_cast<int32_t>((static_cast<uint32_t>(reference_time) - static_cast<uint32_t>(mLastReferenceTime)) << 8) / 256;
+    const auto reference_time_micros = 64 * 1000 * mLastReferenceTime;
 
     const auto tempList = mTempPacketBuffer.ensure(packet_status_count);
 
-- 
2.43.0


From 375364382fbb4a7004f69d267472dd0910834b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 42/89] fix: SCTP: the first message of a channel reused the
 stream sequence number of its OPEN or ACK

---
 src/sctp/sctp_session.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 93387ab..cd527c2 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -478,7 +478,7 @@ void SctpSession::sendDataChannelOpen(DataChannel& channel)
     ByteWriter cw(chunkBody);
     cw.writeU32(tsn);
     cw.writeU16(channel.streamId);
-    cw.writeU16(0); // SSN = 0 for DCEP (RFC 8832)
+    cw.writeU16(channel.sendSsn++); // DCEP and user messages share the sequence (RFC 8832)
     cw.writeU32(kPpidDcep);
     cw.write(payload);
 
@@ -596,7 +596,7 @@ void SctpSession::onReceiveDataChunk(const SctpPacket::Chunk& chunk)
         ByteWriter cw(chunkBody);
         cw.writeU32(tsn);
         cw.writeU16(streamId);
-        cw.writeU16(0);
+        cw.writeU16(channel.sendSsn++);
         cw.writeU32(kPpidDcep);
         cw.writeU8(kDcepMsgAck);
 
-- 
2.43.0


From b6bc8a99b08c2b049e1e1625a1a9b583548d061a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 43/89] fix: SCTP: messages were dropped when another channel
 with the label was not open yet

---
 src/sctp/sctp_session.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index cd527c2..cd4bf23 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -103,9 +103,10 @@ void SctpSession::send(DataChannelMessage&& message)
         return;
     }
 
-    auto it = std::find_if(
-        mDataChannels.begin(), mDataChannels.end(), [&](const DataChannel& ch) { return ch.label == message.label; });
-    if (it == mDataChannels.end() || it->state != DataChannelState::kOpen) {
+    auto it = std::find_if(mDataChannels.begin(), mDataChannels.end(), [&](const DataChannel& ch) {
+        return ch.label == message.label && ch.state == DataChannelState::kOpen;
+    });
+    if (it == mDataChannels.end()) {
         return;
     }
 
@@ -197,9 +198,10 @@ void SctpSession::transmitPending()
     while (!mPendingSend.empty()) {
         auto& msg = mPendingSend.front();
 
-        auto it = std::find_if(
-            mDataChannels.begin(), mDataChannels.end(), [&](const DataChannel& ch) { return ch.label == msg.label; });
-        if (it == mDataChannels.end() || it->state != DataChannelState::kOpen) {
+        auto it = std::find_if(mDataChannels.begin(), mDataChannels.end(), [&](const DataChannel& ch) {
+            return ch.label == msg.label && ch.state == DataChannelState::kOpen;
+        });
+        if (it == mDataChannels.end()) {
             mPendingSend.pop_front();
             continue;
         }
-- 
2.43.0


From 1b0bd6f170e3dbc2817591d8773817b97910b09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 44/89] fix: SCTP: a late INIT reset the receive state of an
 established association

---
 src/sctp/sctp_session.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index cd4bf23..a0966b7 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -272,10 +272,6 @@ void SctpSession::onReceiveInit(const SctpPacket::Chunk& chunk)
     const auto peerOutStreams = r.readU16();
     const auto peerInStreams = r.readU16();
     const auto peerInitialTsn = r.readU32();
-    mPeerRwnd = peerRwnd;
-    mPeerOutStreams = peerOutStreams;
-    mPeerInStreams = peerInStreams;
-    mPeerCumulativeTsn = peerInitialTsn - 1;
 
     // Build State Cookie: kCookieDataSize bytes of fields, then HMAC-SHA1
     // Layout (all big-endian):
-- 
2.43.0


From 1891cac579d37c43312e43f319541cf9084ed9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 45/89] fix: SCTP: a COOKIE_ECHO did not establish the
 association

---
 src/sctp/sctp_session.cpp | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index a0966b7..a178ce1 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -87,7 +87,9 @@ SctpSession::~SctpSession()
 
 void SctpSession::start()
 {
-    sendInit(0);
+    if (mState == State::New) {
+        sendInit(0);
+    }
 }
 
 bool SctpSession::isChannelOpen(const std::string& label) const
@@ -367,6 +369,22 @@ void SctpSession::onReceiveCookieEcho(const SctpPacket::Chunk& chunk)
     // Read peerInitiateTag from cookie (offset 20)
     r.skip(12); // localPort, remotePort, ourInitiateTag, ourInitialTsn
     const uint32_t peerInitiateTag = r.readU32();
+    const uint32_t peerInitialTsn = r.readU32();
+    const uint32_t peerRwnd = r.readU32();
+    const uint16_t peerOutStreams = r.readU16();
+    const uint16_t peerInStreams = r.readU16();
+
+    // RFC 4960 §5.2.4: in an established association, only acknowledge a repeated COOKIE_ECHO
+    const bool isNew = mState != State::Established;
+    if (isNew) {
+        mPeerTag = peerInitiateTag;
+        mPeerRwnd = peerRwnd;
+        mPeerOutStreams = peerOutStreams;
+        mPeerInStreams = peerInStreams;
+        mPeerCumulativeTsn = peerInitialTsn - 1;
+    } else if (mPeerTag != peerInitiateTag) {
+        return;
+    }
 
     // Send COOKIE_ACK
     SctpPacketBuilder builder(mLocalPort, mRemotePort, peerInitiateTag);
@@ -374,6 +392,10 @@ void SctpSession::onReceiveCookieEcho(const SctpPacket::Chunk& chunk)
     auto packet = builder.build();
 
     mListener->onSctpSendPacket(packet);
+
+    if (isNew) {
+        onAssociationEstablished();
+    }
 }
 
 void SctpSession::onReceiveData(const ByteBuffer& buf)
@@ -414,8 +436,6 @@ void SctpSession::onReceiveData(const ByteBuffer& buf)
             break;
         case kChunkCookieAck:
             if (mState == State::CookieEchoed) {
-                Task::cancelHelper(mTaskT1Cookie);
-                mState = State::Established;
                 onAssociationEstablished();
             }
             break;
@@ -451,6 +471,10 @@ void SctpSession::onReceiveData(const ByteBuffer& buf)
 
 void SctpSession::onAssociationEstablished()
 {
+    Task::cancelHelper(mTaskT1Init);
+    Task::cancelHelper(mTaskT1Cookie);
+    mState = State::Established;
+
     for (auto& channel : mDataChannels) {
         sendDataChannelOpen(channel);
     }
-- 
2.43.0


From d2bfaa3d5603c5007a2a93cf6df810db4a8d075d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 46/89] fix: SCTP: channels were opened before the association
 was established, and their messages lost

---
 src/sctp/sctp_session.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index a178ce1..e17b1e0 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -420,13 +420,23 @@ void SctpSession::onReceiveData(const ByteBuffer& buf)
     for (const auto& chunk : packet->chunks()) {
         switch (chunk.type) {
         case kChunkData:
-            onReceiveDataChunk(chunk);
-            break;
         case kChunkSack:
-            onReceiveSack(chunk);
-            break;
         case kChunkReconfig:
-            onReceiveReconfig(chunk);
+            // Only an established peer sends these, so when its COOKIE_ACK was lost it's as good as received.
+            // Before that they are discarded, the peer will retransmit.
+            if (mState == State::CookieEchoed) {
+                onAssociationEstablished();
+            }
+            if (mState != State::Established) {
+                break;
+            }
+            if (chunk.type == kChunkData) {
+                onReceiveDataChunk(chunk);
+            } else if (chunk.type == kChunkSack) {
+                onReceiveSack(chunk);
+            } else {
+                onReceiveReconfig(chunk);
+            }
             break;
         case kChunkInit:
             onReceiveInit(chunk);
-- 
2.43.0


From 917728286c166638d7845765e3248c9be81c387a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 47/89] fix: SCTP: data which arrived before an earlier
 fragment or before the OPEN was mixed up or lost

---
 src/sctp/sctp_defs.h      |  3 +++
 src/sctp/sctp_session.cpp | 51 ++++++++++++++++++++++++++-------------
 src/sctp/sctp_session.h   | 11 +++++++--
 3 files changed, 46 insertions(+), 19 deletions(-)

diff --git a/src/sctp/sctp_defs.h b/src/sctp/sctp_defs.h
index 736c0bb..75c771b 100644
--- a/src/sctp/sctp_defs.h
+++ b/src/sctp/sctp_defs.h
@@ -65,6 +65,9 @@ constexpr uint32_t kReconfigResultSuccess = 0x00000000;
 constexpr uint32_t kInitRwnd    = 131072;   // 128 KB receive window
 constexpr uint16_t kInitStreams = 1024;
 
+// Limit for chunks received out of order
+constexpr size_t kMaxOutOfOrderChunks = 1024;
+
 // Retransmit timers (RFC 4960 defaults)
 constexpr unsigned kMaxInitRetransmits = 8;      // max retransmits for INIT and COOKIE_ECHO
 constexpr uint32_t kRtoInitialMs       = 250;    // initial RTO in milliseconds
diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index e17b1e0..426738c 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -536,44 +536,57 @@ void SctpSession::onReceiveDataChunk(const SctpPacket::Chunk& chunk)
 
     ByteReader r(chunk.data, chunk.size);
     const auto peerTSN = r.readU32();
-    const auto streamId = r.readU16();
-    const auto ssn = r.readU16();
-    (void)ssn; // needed for ordered delivery
-    const auto ppid = r.readU32();
 
     // Duplicate detection: TSN already covered by cumulative or seen out-of-order
     const bool isDuplicate =
-        static_cast<int32_t>(peerTSN - mPeerCumulativeTsn) <= 0 || mPeerOutOfOrderTsns.count(peerTSN) > 0;
+        static_cast<int32_t>(peerTSN - mPeerCumulativeTsn) <= 0 || mPeerOutOfOrderChunks.count(peerTSN) > 0;
     if (isDuplicate) {
         sendSack();
         return;
     }
 
+    // Chunks are delivered in the order of their TSNs, because a chunk can depend on earlier ones: the channel's OPEN,
+    // or other fragments of its message.
+    std::list<ReceivedChunk> ready;
+
     if (peerTSN == mPeerCumulativeTsn + 1) {
         mPeerCumulativeTsn = peerTSN;
-        // Drain any now-consecutive TSNs from the out-of-order set
+        ready.push_back({ chunk.flags, ByteBuffer(chunk.data, chunk.size) });
+        // Drain any now-consecutive TSNs from the out-of-order chunks
         while (true) {
-            auto it = mPeerOutOfOrderTsns.find(mPeerCumulativeTsn + 1);
-            if (it == mPeerOutOfOrderTsns.end())
+            auto it = mPeerOutOfOrderChunks.find(mPeerCumulativeTsn + 1);
+            if (it == mPeerOutOfOrderChunks.end())
                 break;
             mPeerCumulativeTsn++;
-            mPeerOutOfOrderTsns.erase(it);
-        }
-    } else {
-        mPeerOutOfOrderTsns.insert(peerTSN);
-        if (mPeerOutOfOrderTsns.size() > 1024) {
-            mPeerOutOfOrderTsns.erase(mPeerOutOfOrderTsns.begin());
+            ready.push_back(std::move(it->second));
+            mPeerOutOfOrderChunks.erase(it);
         }
+    } else if (mPeerOutOfOrderChunks.size() < kMaxOutOfOrderChunks) {
+        // When there are too many, not acknowledged and so sent again later
+        mPeerOutOfOrderChunks[peerTSN] = { chunk.flags, ByteBuffer(chunk.data, chunk.size) };
     }
     sendSack();
 
+    for (const auto& item : ready) {
+        deliverDataChunk(item.flags, item.body);
+    }
+}
+
+void SctpSession::deliverDataChunk(uint8_t flags, const ByteBuffer& body)
+{
+    ByteReader r(body);
+    r.skip(4); // TSN
+    const auto streamId = r.readU16();
+    const auto ssn = r.readU16();
+    const auto ppid = r.readU32();
+
     if (ppid == kPpidString || ppid == kPpidStringEmpty || ppid == kPpidBinary || ppid == kPpidBinaryEmpty) {
         for (auto& channel : mDataChannels) {
             if (channel.streamId != streamId) {
                 continue;
             }
             const auto messages =
-                channel.receiveBuffer.receive(ssn, chunk.flags, channel.unordered, ppid, r.current(), r.remaining());
+                channel.receiveBuffer.receive(ssn, flags, channel.unordered, ppid, r.current(), r.remaining());
             for (const auto& msg : messages) {
                 if (msg.ppid == kPpidString || msg.ppid == kPpidStringEmpty) {
                     const auto text = std::string(reinterpret_cast<const char*>(msg.data.data()), msg.data.size());
@@ -791,8 +804,12 @@ void SctpSession::sendSack()
     };
     std::vector<GapBlock> gapBlocks;
 
-    if (!mPeerOutOfOrderTsns.empty()) {
-        std::vector<uint32_t> tsns(mPeerOutOfOrderTsns.begin(), mPeerOutOfOrderTsns.end());
+    if (!mPeerOutOfOrderChunks.empty()) {
+        std::vector<uint32_t> tsns;
+        tsns.reserve(mPeerOutOfOrderChunks.size());
+        for (const auto& item : mPeerOutOfOrderChunks) {
+            tsns.push_back(item.first);
+        }
         std::sort(tsns.begin(), tsns.end(), [this](uint32_t a, uint32_t b) {
             return (uint32_t)(a - mPeerCumulativeTsn) < (uint32_t)(b - mPeerCumulativeTsn);
         });
diff --git a/src/sctp/sctp_session.h b/src/sctp/sctp_session.h
index e082d32..004acb0 100644
--- a/src/sctp/sctp_session.h
+++ b/src/sctp/sctp_session.h
@@ -10,7 +10,7 @@
 #include <array>
 #include <cstdint>
 #include <list>
-#include <set>
+#include <map>
 #include <string>
 #include <vector>
 
@@ -97,7 +97,13 @@ private:
     uint32_t mPeerRwnd;                     // peer's receive window
     uint32_t mCurrentTsn;                   // next TSN to use when sending DATA chunks
     uint32_t mPeerCumulativeTsn;            // highest consecutive TSN received from peer
-    std::set<uint32_t> mPeerOutOfOrderTsns; // received but not yet consecutive
+
+    struct ReceivedChunk {
+        uint8_t flags;
+        ByteBuffer body; // same as SentChunk
+    };
+    std::map<uint32_t, ReceivedChunk> mPeerOutOfOrderChunks; // received but not yet consecutive, by TSN
+
     std::array<uint8_t, 16> mHmacKey;
     ByteBuffer mCookieEchoPacket;
     std::weak_ptr<Task> mTaskT1Init;
@@ -110,6 +116,7 @@ private:
     void onAssociationEstablished();
     void sendDataChannelOpen(DataChannel& channel);
     void onReceiveDataChunk(const SctpPacket::Chunk& chunk);
+    void deliverDataChunk(uint8_t flags, const ByteBuffer& body);
     void onReceiveReconfig(const SctpPacket::Chunk& chunk);
     void onReceiveSack(const SctpPacket::Chunk& chunk);
     void sendSack();
-- 
2.43.0


From c9ce3fa8a02614536adc9b8389d71038ea044560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 48/89] fix: SCTP: a SACK could be too large for a packet, or
 acknowledge chunks 65536 before the one received

---
 src/sctp/sctp_defs.h      | 3 +++
 src/sctp/sctp_session.cpp | 8 ++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/sctp/sctp_defs.h b/src/sctp/sctp_defs.h
index 75c771b..c0864ee 100644
--- a/src/sctp/sctp_defs.h
+++ b/src/sctp/sctp_defs.h
@@ -68,6 +68,9 @@ constexpr uint16_t kInitStreams = 1024;
 // Limit for chunks received out of order
 constexpr size_t kMaxOutOfOrderChunks = 1024;
 
+// Limit for gap blocks in a SACK, which has to fit into a packet
+constexpr size_t kMaxGapBlocks = 256;
+
 // Retransmit timers (RFC 4960 defaults)
 constexpr unsigned kMaxInitRetransmits = 8;      // max retransmits for INIT and COOKIE_ECHO
 constexpr uint32_t kRtoInitialMs       = 250;    // initial RTO in milliseconds
diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 426738c..a801e57 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -561,8 +561,8 @@ void SctpSession::onReceiveDataChunk(const SctpPacket::Chunk& chunk)
             ready.push_back(std::move(it->second));
             mPeerOutOfOrderChunks.erase(it);
         }
-    } else if (mPeerOutOfOrderChunks.size() < kMaxOutOfOrderChunks) {
-        // When there are too many, not acknowledged and so sent again later
+    } else if (mPeerOutOfOrderChunks.size() < kMaxOutOfOrderChunks && peerTSN - mPeerCumulativeTsn <= 0xFFFFu) {
+        // When there are too many or it's too far ahead, not acknowledged and so sent again later
         mPeerOutOfOrderChunks[peerTSN] = { chunk.flags, ByteBuffer(chunk.data, chunk.size) };
     }
     sendSack();
@@ -825,6 +825,10 @@ void SctpSession::sendSack()
                 blockEnd = offset;
             } else {
                 gapBlocks.push_back({ blockStart, blockEnd });
+                if (gapBlocks.size() == kMaxGapBlocks) {
+                    inBlock = false;
+                    break;
+                }
                 blockStart = blockEnd = offset;
             }
         }
-- 
2.43.0


From 87a5b220d88d6111d3ce67eb7da7aef3d734cda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 49/89] fix: SCTP: SACK with more gap blocks than bytes, and
 gap blocks matching chunks 65536 ahead

---
 src/sctp/sctp_session.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index a801e57..b5b1c28 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -720,7 +720,7 @@ void SctpSession::onReceiveSack(const SctpPacket::Chunk& chunk)
 
     std::vector<std::pair<uint16_t, uint16_t>> gapBlocks;
     gapBlocks.reserve(numGapBlocks);
-    for (uint16_t i = 0; i < numGapBlocks; ++i) {
+    for (uint16_t i = 0; i < numGapBlocks && r.remaining() >= 4; ++i) {
         const auto start = r.readU16();
         const auto end = r.readU16();
         gapBlocks.emplace_back(start, end);
@@ -746,7 +746,7 @@ void SctpSession::onReceiveSack(const SctpPacket::Chunk& chunk)
     for (const auto& [gapStart, gapEnd] : gapBlocks) {
         auto git = mSentChunks.begin();
         while (git != mSentChunks.end()) {
-            const auto offset = static_cast<uint16_t>(git->tsn - cumTsn);
+            const auto offset = git->tsn - cumTsn;
             if (offset >= gapStart && offset <= gapEnd) {
                 mFlightSize =
                     static_cast<uint32_t>(mFlightSize >= git->payloadSize ? mFlightSize - git->payloadSize : 0);
-- 
2.43.0


From ebf8754fe68907ae5d323040b5b0a2457a6fd6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 50/89] fix: SCTP: chunks after an INIT were accepted without a
 verification tag

---
 src/sctp/sctp_session.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index b5b1c28..8317ef7 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -407,7 +407,8 @@ void SctpSession::onReceiveData(const ByteBuffer& buf)
     }
 
     // RFC 4960 §8.5: verify verification tag — 0 for INIT, our tag for everything else
-    const bool isInit = !packet->chunks().empty() && packet->chunks()[0].type == kChunkInit;
+    // INIT is always alone in its packet
+    const bool isInit = packet->chunks().size() == 1 && packet->chunks()[0].type == kChunkInit;
     const uint32_t expectedTag = isInit ? 0 : mInitiateTag;
     if (packet->verificationTag() != expectedTag) {
         LOG(SRTC_LOG_W,
@@ -439,7 +440,9 @@ void SctpSession::onReceiveData(const ByteBuffer& buf)
             }
             break;
         case kChunkInit:
-            onReceiveInit(chunk);
+            if (isInit) {
+                onReceiveInit(chunk);
+            }
             break;
         case kChunkCookieEcho:
             onReceiveCookieEcho(chunk);
-- 
2.43.0


From 28065bffecf77baeb1c6b8380385cd3a5e352945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 51/89] fix: SCTP: HEARTBEAT was not answered

---
 src/sctp/sctp_session.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 8317ef7..e51691e 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -447,6 +447,14 @@ void SctpSession::onReceiveData(const ByteBuffer& buf)
         case kChunkCookieEcho:
             onReceiveCookieEcho(chunk);
             break;
+        case kChunkHeartbeat:
+            if (mState == State::Established) {
+                // RFC 4960 §8.3: return the sender's information unchanged
+                SctpPacketBuilder builder(mLocalPort, mRemotePort, mPeerTag);
+                builder.addChunk(kChunkHeartbeatAck, 0, chunk.data, chunk.size);
+                mListener->onSctpSendPacket(builder.build());
+            }
+            break;
         case kChunkCookieAck:
             if (mState == State::CookieEchoed) {
                 onAssociationEstablished();
-- 
2.43.0


From eeddfa399eb8bdd66a0b01c563282e402c0e8148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 52/89] fix: SCTP: empty messages were sent as DATA chunks
 without user data, which peers have to reject

---
 src/sctp/sctp_session.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index e51691e..9e47596 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -146,6 +146,13 @@ void SctpSession::sendMessageNow(DataChannel& channel, DataChannelMessage&& mess
         ppid = payloadSize == 0 ? kPpidBinaryEmpty : kPpidBinary;
     }
 
+    // RFC 8831 §6.6: SCTP has no empty messages, send a byte of padding
+    constexpr uint8_t kEmptyPayload[1] = {};
+    if (payloadSize == 0) {
+        payload = kEmptyPayload;
+        payloadSize = sizeof(kEmptyPayload);
+    }
+
     const uint16_t ssn = channel.sendSsn++;
     const uint8_t unorderedFlag = channel.unordered ? kDataFlagUnordered : 0;
     const bool wasEmpty = mSentChunks.empty();
@@ -599,7 +606,12 @@ void SctpSession::deliverDataChunk(uint8_t flags, const ByteBuffer& body)
             const auto messages =
                 channel.receiveBuffer.receive(ssn, flags, channel.unordered, ppid, r.current(), r.remaining());
             for (const auto& msg : messages) {
-                if (msg.ppid == kPpidString || msg.ppid == kPpidStringEmpty) {
+                // RFC 8831 §6.6: an empty message has a byte of padding
+                if (msg.ppid == kPpidStringEmpty) {
+                    mListener->onSctpDataChannelText(channel.label, {});
+                } else if (msg.ppid == kPpidBinaryEmpty) {
+                    mListener->onSctpDataChannelBinary(channel.label, {});
+                } else if (msg.ppid == kPpidString) {
                     const auto text = std::string(reinterpret_cast<const char*>(msg.data.data()), msg.data.size());
                     mListener->onSctpDataChannelText(channel.label, text);
                 } else {
-- 
2.43.0


From 1b7adb27ee5d5bb8b9956aa86a2a889e1a53a25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 53/89] fix: SCTP: sending stalled, or messages overtook each
 other, when a message did not fit the peer's window

---
 src/sctp/sctp_session.cpp | 156 ++++++++++++++------------------------
 src/sctp/sctp_session.h   |  12 ++-
 2 files changed, 66 insertions(+), 102 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 9e47596..9ea2d8d 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -120,15 +120,10 @@ void SctpSession::send(DataChannelMessage&& message)
         return;
     }
 
-    if (payloadSize > 0 && mFlightSize + payloadSize > mPeerRwnd) {
-        mPendingSend.emplace_back(std::move(message));
-        return;
-    }
-
-    sendMessageNow(*it, std::move(message));
+    queueMessage(*it, std::move(message));
 }
 
-void SctpSession::sendMessageNow(DataChannel& channel, DataChannelMessage&& message)
+void SctpSession::queueMessage(DataChannel& channel, DataChannelMessage&& message)
 {
     std::string textStorage;
     const uint8_t* payload;
@@ -155,72 +150,71 @@ void SctpSession::sendMessageNow(DataChannel& channel, DataChannelMessage&& mess
 
     const uint16_t ssn = channel.sendSsn++;
     const uint8_t unorderedFlag = channel.unordered ? kDataFlagUnordered : 0;
-    const bool wasEmpty = mSentChunks.empty();
 
     constexpr size_t kMaxFragmentPayload = 1100;
 
-    auto sendFragment = [&](uint8_t flags, const uint8_t* fragPayload, size_t fragSize) {
+    for (size_t offset = 0; offset < payloadSize; offset += kMaxFragmentPayload) {
+        const size_t fragSize = std::min(payloadSize - offset, kMaxFragmentPayload);
+        uint8_t flags = unorderedFlag;
+        if (offset == 0)
+            flags |= kDataFlagB;
+        if (offset + fragSize >= payloadSize)
+            flags |= kDataFlagE;
+        mPendingChunks.push_back(
+            PendingChunk{ channel.streamId, ssn, flags, ppid, ByteBuffer(payload + offset, fragSize) });
+    }
+
+    transmitPending();
+}
+
+void SctpSession::transmitPending()
+{
+    // When nothing is in flight, one chunk can be sent whatever the peer's window (RFC 4960 §6.1)
+    while (!mPendingChunks.empty() &&
+           (mFlightSize == 0 || mFlightSize + mPendingChunks.front().payload.size() <= mPeerRwnd)) {
+        const auto pending = std::move(mPendingChunks.front());
+        mPendingChunks.pop_front();
+
+        const bool wasEmpty = mSentChunks.empty();
         const uint32_t tsn = mCurrentTsn++;
+        const size_t payloadSize = pending.payload.size();
 
         ByteBuffer chunkBody;
         ByteWriter cw(chunkBody);
         cw.writeU32(tsn);
-        cw.writeU16(channel.streamId);
-        cw.writeU16(ssn);
-        cw.writeU32(ppid);
-        cw.write(fragPayload, fragSize);
+        cw.writeU16(pending.streamId);
+        cw.writeU16(pending.ssn);
+        cw.writeU32(pending.ppid);
+        cw.write(pending.payload);
 
         SctpPacketBuilder builder(mLocalPort, mRemotePort, mPeerTag);
-        builder.addChunk(kChunkData, flags, chunkBody);
+        builder.addChunk(kChunkData, pending.flags, chunkBody);
         mListener->onSctpSendPacket(builder.build());
 
-        mSentChunks.push_back(SentChunk{ tsn, flags, fragSize, std::move(chunkBody) });
-        mFlightSize += static_cast<uint32_t>(fragSize);
-    };
+        mSentChunks.push_back(SentChunk{ tsn, pending.flags, payloadSize, std::move(chunkBody) });
+        mFlightSize += static_cast<uint32_t>(payloadSize);
 
-    if (payloadSize <= kMaxFragmentPayload) {
-        sendFragment(static_cast<uint8_t>(kDataFlagComplete | unorderedFlag), payload, payloadSize);
-    } else {
-        size_t offset = 0;
-        bool isFirst = true;
-        while (offset < payloadSize) {
-            const size_t fragSize = std::min(payloadSize - offset, kMaxFragmentPayload);
-            const bool isLast = (offset + fragSize >= payloadSize);
-            uint8_t flags = unorderedFlag;
-            if (isFirst)
-                flags |= kDataFlagB;
-            if (isLast)
-                flags |= kDataFlagE;
-            sendFragment(flags, payload + offset, fragSize);
-            offset += fragSize;
-            isFirst = false;
+        if (wasEmpty) {
+            startT3Rtx();
         }
     }
-
-    if (wasEmpty) {
-        startT3Rtx();
-    }
 }
 
-void SctpSession::transmitPending()
+void SctpSession::dropPending(uint16_t streamId)
 {
-    while (!mPendingSend.empty()) {
-        auto& msg = mPendingSend.front();
+    auto it = mPendingChunks.begin();
 
-        auto it = std::find_if(mDataChannels.begin(), mDataChannels.end(), [&](const DataChannel& ch) {
-            return ch.label == msg.label && ch.state == DataChannelState::kOpen;
-        });
-        if (it == mDataChannels.end()) {
-            mPendingSend.pop_front();
-            continue;
-        }
-
-        const size_t payloadSize = msg.kind == DataChannelMessage::Kind::kText ? msg.text.size() : msg.binary.size();
-        if (payloadSize > 0 && mFlightSize + payloadSize > mPeerRwnd)
-            break;
+    // A message which has begun needs to be finished
+    while (it != mPendingChunks.end() && (it->flags & kDataFlagB) == 0) {
+        ++it;
+    }
 
-        sendMessageNow(*it, std::move(msg));
-        mPendingSend.pop_front();
+    while (it != mPendingChunks.end()) {
+        if (it->streamId == streamId) {
+            it = mPendingChunks.erase(it);
+        } else {
+            ++it;
+        }
     }
 }
 
@@ -520,30 +514,12 @@ void SctpSession::sendDataChannelOpen(DataChannel& channel)
     pw.writeU16(0); // protocol length
     pw.write(reinterpret_cast<const uint8_t*>(channel.label.data()), channel.label.size());
 
-    const bool wasEmpty = mSentChunks.empty();
-    const uint32_t tsn = mCurrentTsn++;
-    const size_t payloadSize = payload.size();
-
-    ByteBuffer chunkBody;
-    ByteWriter cw(chunkBody);
-    cw.writeU32(tsn);
-    cw.writeU16(channel.streamId);
-    cw.writeU16(channel.sendSsn++); // DCEP and user messages share the sequence (RFC 8832)
-    cw.writeU32(kPpidDcep);
-    cw.write(payload);
-
-    SctpPacketBuilder builder(mLocalPort, mRemotePort, mPeerTag);
-    builder.addChunk(kChunkData, kDataFlagComplete, chunkBody);
-    mListener->onSctpSendPacket(builder.build());
-
     channel.state = DataChannelState::kOpening;
 
-    mSentChunks.push_back(SentChunk{ tsn, kDataFlagComplete, payloadSize, std::move(chunkBody) });
-    mFlightSize += static_cast<uint32_t>(payloadSize);
-
-    if (wasEmpty) {
-        startT3Rtx();
-    }
+    // DCEP and user messages share the sequence (RFC 8832)
+    mPendingChunks.push_back(
+        PendingChunk{ channel.streamId, channel.sendSsn++, kDataFlagComplete, kPpidDcep, std::move(payload) });
+    transmitPending();
 }
 
 void SctpSession::onReceiveDataChunk(const SctpPacket::Chunk& chunk)
@@ -656,28 +632,9 @@ void SctpSession::deliverDataChunk(uint8_t flags, const ByteBuffer& body)
         channel.receiveBuffer.consumeSsn(ssn);
 
         // Send ACK
-        const bool wasEmpty = mSentChunks.empty();
-        const uint32_t tsn = mCurrentTsn++;
-        constexpr size_t kAckPayloadSize = 1;
-
-        ByteBuffer chunkBody;
-        ByteWriter cw(chunkBody);
-        cw.writeU32(tsn);
-        cw.writeU16(streamId);
-        cw.writeU16(channel.sendSsn++);
-        cw.writeU32(kPpidDcep);
-        cw.writeU8(kDcepMsgAck);
-
-        SctpPacketBuilder builder(mLocalPort, mRemotePort, mPeerTag);
-        builder.addChunk(kChunkData, kDataFlagComplete, chunkBody);
-        mListener->onSctpSendPacket(builder.build());
-
-        mSentChunks.push_back(SentChunk{ tsn, kDataFlagComplete, kAckPayloadSize, std::move(chunkBody) });
-        mFlightSize += kAckPayloadSize;
-
-        if (wasEmpty) {
-            startT3Rtx();
-        }
+        mPendingChunks.push_back(PendingChunk{
+            streamId, channel.sendSsn++, kDataFlagComplete, kPpidDcep, ByteBuffer(&kDcepMsgAck, sizeof(kDcepMsgAck)) });
+        transmitPending();
 
         mListener->onSctpDataChannelOpen(label);
     }
@@ -709,6 +666,7 @@ void SctpSession::onReceiveReconfig(const SctpPacket::Chunk& chunk)
                 if (it->streamId == streamId) {
                     mListener->onSctpDataChannelClose(it->label);
                     mDataChannels.erase(it);
+                    dropPending(streamId);
                     break;
                 }
             }
@@ -787,9 +745,7 @@ void SctpSession::onReceiveSack(const SctpPacket::Chunk& chunk)
         startT3Rtx(); // restart on progress
     }
 
-    if (anyNewlyAcked) {
-        transmitPending();
-    }
+    transmitPending();
 }
 
 void SctpSession::retransmitOldest()
diff --git a/src/sctp/sctp_session.h b/src/sctp/sctp_session.h
index 004acb0..757cd24 100644
--- a/src/sctp/sctp_session.h
+++ b/src/sctp/sctp_session.h
@@ -76,7 +76,14 @@ private:
         ByteBuffer body; // TSN(4) + streamId(2) + ssn(2) + ppid(4) + payload
     };
     std::list<SentChunk> mSentChunks;
-    std::list<DataChannelMessage> mPendingSend;
+    struct PendingChunk {
+        uint16_t streamId;
+        uint16_t ssn;
+        uint8_t flags;
+        uint32_t ppid;
+        ByteBuffer payload;
+    };
+    std::list<PendingChunk> mPendingChunks; // do not fit the peer's window yet
     uint32_t mFlightSize = 0;
 
     RandomGenerator<uint32_t> mRandom;
@@ -121,8 +128,9 @@ private:
     void onReceiveSack(const SctpPacket::Chunk& chunk);
     void sendSack();
 
-    void sendMessageNow(DataChannel& channel, DataChannelMessage&& message);
+    void queueMessage(DataChannel& channel, DataChannelMessage&& message);
     void transmitPending();
+    void dropPending(uint16_t streamId);
     void retransmitOldest();
     void startT3Rtx();
     void stopT3Rtx();
-- 
2.43.0


From fa6dfe547043287c2107b38a17e0288d6550d42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 54/89] fix: SCTP: wrong entry in a CRC-32c table made the
 checksums of many packets wrong

---
 src/sctp/sctp_crc32.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sctp/sctp_crc32.cpp b/src/sctp/sctp_crc32.cpp
index ad2bb9c..83da459 100644
--- a/src/sctp/sctp_crc32.cpp
+++ b/src/sctp/sctp_crc32.cpp
@@ -165,7 +165,7 @@ const uint32_t crc_tableil8_o48[256] = {
     0xC3D4340C, 0x6695A672, 0x8CBB6601, 0x29FAF47F, 0x5D0A9016, 0xF84B0268, 0x1265C21B, 0xB7245065,
     0x6A638C57, 0xCF221E29, 0x250CDE5A, 0x804D4C24, 0xF4BD284D, 0x51FCBA33, 0xBBD27A40, 0x1E93E83E,
     0x5232B292, 0xF77320EC, 0x1D5DE09F, 0xB81C72E1, 0xCCEC1688, 0x69AD84F6, 0x83834485, 0x26C2D6FB,
-    0x1AC1F1DD, 0xBF8063A3, 0x55AEA3D0, 0xF0EF31AE, 0x841F55C7, 0x195EC7B9, 0xCB7007CA, 0x6E3195B4,
+    0x1AC1F1DD, 0xBF8063A3, 0x55AEA3D0, 0xF0EF31AE, 0x841F55C7, 0x215EC7B9, 0xCB7007CA, 0x6E3195B4,
     0x2290CF18, 0x87D15D66, 0x6DFF9D15, 0xC8BE0F6B, 0xBC4E6B02, 0x190FF97C, 0xF321390F, 0x5660AB71,
     0x4C42F79A, 0xE90365E4, 0x032DA597, 0xA66C37E9, 0xD29C5380, 0x77DDC1FE, 0x9DF3018D, 0x38B293F3,
     0x7413C95F, 0xD1525B21, 0x3B7C9B52, 0x9E3D092C, 0xEACD6D45, 0x4F8CFF3B, 0xA5A23F48, 0x00E3AD36,
-- 
2.43.0


From 8a9473346dd1989e3c4d3db2cbe4dc98d50c5000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 55/89] fix: DTLS: the handshake was never retransmitted, so
 one lost packet made connecting fail

---
 include/srtc/peer_candidate.h |  5 ++++
 src/peer_candidate.cpp        | 44 +++++++++++++++++++++++++++++++++++
 2 files changed, 49 insertions(+)

diff --git a/include/srtc/peer_candidate.h b/include/srtc/peer_candidate.h
index 31a1288..a03ebe1 100644
--- a/include/srtc/peer_candidate.h
+++ b/include/srtc/peer_candidate.h
@@ -209,6 +209,10 @@ private:
 
     static struct bio_st* BIO_new_dgram(PeerCandidate* pc);
 
+    static unsigned int onDtlsTimerDuration(ssl_st* ssl, unsigned int duration_us);
+    void updateDtlsTimeout();
+    void onDtlsTimeout();
+
     void freeDTLS();
 
     // RTT
@@ -239,6 +243,7 @@ private:
 
     // Scheduler and tasks
     std::weak_ptr<Task> mTaskConnectTimeout;
+    std::weak_ptr<Task> mTaskDtlsTimeout;
     std::weak_ptr<Task> mTaskSendStunConnectRequest;
     std::weak_ptr<Task> mTaskSendStunConnectResponse;
     std::weak_ptr<Task> mTaskConnectionLostTimeout;
diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index 322bac8..fb12807 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -37,6 +37,7 @@
 
 #include "sctp/sctp_session.h"
 
+#include <algorithm>
 #include <cassert>
 #include <cstring>
 
@@ -78,6 +79,8 @@ constexpr auto kExpireStunPeriod = std::chrono::milliseconds(1000);
 constexpr auto kExpireStunTimeout = std::chrono::milliseconds(5000);
 constexpr auto kKeepAliveCheckTimeout = std::chrono::milliseconds(1000);
 constexpr auto kKeepAliveSendTimeout = std::chrono::milliseconds(3000);
+constexpr unsigned int kDtlsTimerInitialMicros = 250 * 1000;
+constexpr unsigned int kDtlsTimerMaxMicros = 1000 * 1000;
 constexpr auto kConnectRepeatPeriod = std::chrono::milliseconds(100);
 constexpr auto kConnectRepeatIncrement = std::chrono::milliseconds(100);
 constexpr auto kMaxRecentEnough = std::chrono::milliseconds(5 * 1000);
@@ -787,6 +790,8 @@ void PeerCandidate::run()
             mDtlsBio = BIO_new_dgram(this);
             SSL_set_bio(mDtlsSsl, mDtlsBio, mDtlsBio);
 
+            DTLS_set_timer_cb(mDtlsSsl, onDtlsTimerDuration);
+
             SSL_set_tlsext_use_srtp(mDtlsSsl, SrtpConnection::kSrtpCipherList);
             SSL_set_connect_state(mDtlsSsl);
 
@@ -797,6 +802,8 @@ void PeerCandidate::run()
                 SSL_set_connect_state(mDtlsSsl);
                 SSL_do_handshake(mDtlsSsl);
             }
+
+            updateDtlsTimeout();
         }
     }
 
@@ -1028,6 +1035,8 @@ void PeerCandidate::onReceivedDtlsMessage(ByteBuffer&& buf)
         if (mDtlsState == DtlsState::Failed) {
             freeDTLS();
         }
+
+        updateDtlsTimeout();
     } else if (mDtlsState == DtlsState::Completed) {
         uint8_t tmp[4096];
         const auto r = SSL_read(mDtlsSsl, tmp, sizeof(tmp));
@@ -1559,6 +1568,41 @@ BIO* PeerCandidate::BIO_new_dgram(PeerCandidate* pc)
     return b;
 }
 
+unsigned int PeerCandidate::onDtlsTimerDuration([[maybe_unused]] SSL* ssl, unsigned int duration_us)
+{
+    if (duration_us == 0) {
+        return kDtlsTimerInitialMicros;
+    }
+
+    return std::min(2 * duration_us, kDtlsTimerMaxMicros);
+}
+
+void PeerCandidate::updateDtlsTimeout()
+{
+    Task::cancelHelper(mTaskDtlsTimeout);
+
+    timeval tv = {};
+    if (mDtlsState == DtlsState::Activating && mDtlsSsl && DTLSv1_get_timeout(mDtlsSsl, &tv) == 1) {
+        // Round up, so that the OpenSSL timer has expired when we get called
+        const auto delay = std::chrono::milliseconds(tv.tv_sec * 1000 + tv.tv_usec / 1000 + 1);
+        mTaskDtlsTimeout = mScheduler.submit(delay, __FILE__, __LINE__, [this] { onDtlsTimeout(); });
+    }
+}
+
+void PeerCandidate::onDtlsTimeout()
+{
+    if (mDtlsState == DtlsState::Activating && mDtlsSsl) {
+        LOG(SRTC_LOG_V, "DTLS handshake timeout, retransmitting #%u", mUniqueId);
+
+        // A failure here is not final, the connection timeout is
+        if (DTLSv1_handle_timeout(mDtlsSsl) < 0) {
+            ERR_clear_error();
+        }
+
+        updateDtlsTimeout();
+    }
+}
+
 void PeerCandidate::freeDTLS()
 {
     if (mDtlsSsl) {
-- 
2.43.0


From b86c4f1b8ea6344c7444d75ab439ef091b96cf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 56/89] fix: a connection with data channels only crashed when
 it had no media tracks

---
 src/peer_candidate.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index fb12807..6c89b66 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -349,7 +349,8 @@ void PeerCandidate::sendPublishReports()
         }
     }
 
-    if (mDirection == Direction::Publish && !mOutstandingReceiverReferenceTimeReportQueue.empty()) {
+    if (mDirection == Direction::Publish && mControlPacketSource &&
+        !mOutstandingReceiverReferenceTimeReportQueue.empty()) {
         // XR - DLRR if we have received RTRR's
         // https://datatracker.ietf.org/doc/html/rfc3611#section-4.5
 
@@ -394,6 +395,11 @@ void PeerCandidate::sendPublishReports()
 void PeerCandidate::sendSubscribeReports()
 {
     const auto source = mControlPacketSource;
+    if (source == nullptr) {
+        // There is no media, only data channels
+        return;
+    }
+
     std::vector<std::shared_ptr<RtcpPacket>> packetList;
 
     if (mDirection == Direction::Subscribe) {
@@ -808,7 +814,7 @@ void PeerCandidate::run()
     }
 
     // TWCC
-    if (mResponderTWCC) {
+    if (mResponderTWCC && !mTrackList.empty()) {
         const auto track = mTrackList.front();
         const auto list = mResponderTWCC->run(track);
         if (!list.empty()) {
-- 
2.43.0


From 3f2e553370113478b8028836ce7f05edbb0d7410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:40 +0000
Subject: [PATCH 57/89] fix: RTCP: feedback for several tracks, and reports,
 were sent with the same SSRC and index more than once

---
 src/peer_candidate.cpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index 6c89b66..f5e6aeb 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -140,6 +140,22 @@ stun::StunMessage make_stun_message_binding_response(const std::shared_ptr<srtc:
     return msg;
 }
 
+// There has to be just one packet source, with its index counter, for each SSRC that we send from
+std::shared_ptr<srtc::RtcpPacketSource> selectControlPacketSource(
+    const std::shared_ptr<srtc::SdpOffer>& offer, const std::vector<std::shared_ptr<srtc::Track>>& trackList)
+{
+    const auto source = offer->getControlPacketSource();
+    if (source) {
+        for (const auto& track : trackList) {
+            if (track->getSSRC() == source->getSSRC()) {
+                return track->getRtcpPacketSource();
+            }
+        }
+    }
+
+    return source;
+}
+
 bool is_stun_message(const srtc::ByteBuffer& buf)
 {
     // https://datatracker.ietf.org/doc/html/rfc5764#section-5.1.2
@@ -243,7 +259,7 @@ PeerCandidate::PeerCandidate(PeerCandidateListener* const listener,
     , mResponderTWCC(RtpResponderTWCC::factory(offer))
     , mSenderReportsHistory(std::make_shared<SenderReportsHistory>())
     , mReceiverReferenceTimeReportsHistory(std::make_shared<ReceiverReferenceTimeReportsHistory>())
-    , mControlPacketSource(offer->getControlPacketSource())
+    , mControlPacketSource(selectControlPacketSource(offer, mTrackList))
     , mIceRttFilter(0.2f)
     , mControlRttFilter(0.2f)
     , mSentUseCandidate(false)
@@ -502,8 +518,9 @@ void PeerCandidate::sendPictureLossIndicator(const std::shared_ptr<Track>& track
 
         w.writeU32(ssrc);
 
-        const auto packet = std::make_shared<RtcpPacket>(0, 1, RtcpPacket::kPayloadSpecific, std::move(payload));
-        sendRtcpPacket(track, packet);
+        const auto packet = std::make_shared<RtcpPacket>(
+            mControlPacketSource->getSSRC(), 1, RtcpPacket::kPayloadSpecific, std::move(payload));
+        sendRtcpPacket(mControlPacketSource, packet);
     }
 }
 
@@ -545,8 +562,9 @@ void PeerCandidate::sendNacks(const std::shared_ptr<Track>& track, const std::ve
             seq,
             blp);
 
-        const auto packet = std::make_shared<RtcpPacket>(0, 1, RtcpPacket::kFeedback, std::move(payload));
-        sendRtcpPacket(track, packet);
+        const auto packet = std::make_shared<RtcpPacket>(
+            mControlPacketSource->getSSRC(), 1, RtcpPacket::kFeedback, std::move(payload));
+        sendRtcpPacket(mControlPacketSource, packet);
     }
 }
 
-- 
2.43.0


From 042ec66c7506a6f4d6bfdae469bac746ca1498ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:13 +0000
Subject: [PATCH 58/89] fix: connections: no keep-alives were sent, so idle
 connections were reported lost, and restoring one was tried only once

---
 src/peer_candidate.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index f5e6aeb..a6fd4dd 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -75,6 +75,7 @@ constexpr auto kIceMessageBufferSize = 2048;
 
 constexpr auto kConnectTimeout = std::chrono::milliseconds(5000);
 constexpr auto kConnectionLostTimeout = std::chrono::milliseconds(5000);
+constexpr auto kConnectionRestorePeriod = std::chrono::milliseconds(500);
 constexpr auto kExpireStunPeriod = std::chrono::milliseconds(1000);
 constexpr auto kExpireStunTimeout = std::chrono::milliseconds(5000);
 constexpr auto kKeepAliveCheckTimeout = std::chrono::milliseconds(1000);
@@ -264,8 +265,8 @@ PeerCandidate::PeerCandidate(PeerCandidateListener* const listener,
     , mControlRttFilter(0.2f)
     , mSentUseCandidate(false)
     , mIsConnected(false)
-    , mLastSendTime(std::chrono::steady_clock::time_point::min())
-    , mLastReceiveTime(std::chrono::steady_clock::time_point::min())
+    , mLastSendTime(std::chrono::steady_clock::now())
+    , mLastReceiveTime(std::chrono::steady_clock::now())
     , mScheduler(scheduler)
 #ifdef NDEBUG
 #else
@@ -1066,6 +1067,8 @@ void PeerCandidate::onReceivedDtlsMessage(ByteBuffer&& buf)
         const auto r = SSL_read(mDtlsSsl, tmp, sizeof(tmp));
 
         if (r > 0) {
+            onReceivedFromRemote();
+
             if (mSctpSession) {
                 mSctpSession->onReceiveData({ tmp, static_cast<size_t>(r) });
             }
@@ -1705,7 +1708,9 @@ void PeerCandidate::onReceivedFromRemote()
 
     if (!mIsConnected) {
         mIsConnected = true;
+        mLastSendTime = mLastReceiveTime;
         emitOnDtlsConnected();
+        updateKeepAliveTimeout();
     }
 }
 
@@ -1751,6 +1756,7 @@ void PeerCandidate::updateConnectionLostTimeout()
 void PeerCandidate::onConnectionLostTimeout()
 {
     Task::cancelHelper(mTaskConnectionLostTimeout);
+    Task::cancelHelper(mTaskKeepAliveTimeout);
 
     mIsConnected = false;
 
@@ -1779,7 +1785,7 @@ void PeerCandidate::sendConnectionRestoreRequest()
 
     Task::cancelHelper(mTaskConnectionRestoreTimeout);
     mTaskConnectionRestoreTimeout =
-        mScheduler.submit(kConnectTimeout, __FILE__, __LINE__, [this] { sendConnectionRestoreRequest(); });
+        mScheduler.submit(kConnectionRestorePeriod, __FILE__, __LINE__, [this] { sendConnectionRestoreRequest(); });
 }
 
 void PeerCandidate::updateKeepAliveTimeout()
@@ -1806,6 +1812,8 @@ void PeerCandidate::onKeepAliveTimeout()
     const auto request = make_stun_message_binding_request(
         mIceAgent, mIceMessageBuffer.get(), kIceMessageBufferSize, mOffer, mAnswer, false);
     addSendRaw({ mIceMessageBuffer.get(), stun_message_length(&request) });
+
+    mLastSendTime = now;
 }
 
 } // namespace srtc
-- 
2.43.0


From f8bd4bf32e8ddbd7d96d399fd6d6db4c898edf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 59/89] fix: DTLS: records that arrived during the handshake,
 or together, were read one datagram late or never

---
 src/peer_candidate.cpp | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index a6fd4dd..9a0755b 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -1062,26 +1062,29 @@ void PeerCandidate::onReceivedDtlsMessage(ByteBuffer&& buf)
         }
 
         updateDtlsTimeout();
-    } else if (mDtlsState == DtlsState::Completed) {
-        uint8_t tmp[4096];
-        const auto r = SSL_read(mDtlsSsl, tmp, sizeof(tmp));
+    }
 
-        if (r > 0) {
+    if (mDtlsState == DtlsState::Completed) {
+        // There can be more than one record to read: a datagram can have several, and some may have been received and
+        // buffered before the handshake completed
+        uint8_t tmp[4096];
+        int r;
+        while ((r = SSL_read(mDtlsSsl, tmp, sizeof(tmp))) > 0) {
             onReceivedFromRemote();
 
             if (mSctpSession) {
                 mSctpSession->onReceiveData({ tmp, static_cast<size_t>(r) });
             }
+        }
+
+        if ((SSL_get_shutdown(mDtlsSsl) & SSL_RECEIVED_SHUTDOWN) != 0) {
+            LOG(SRTC_LOG_V, "Received DTLS close_notify, peer disconnected gracefully");
+            emitOnDtlsDisconnected(Error::OK);
         } else {
-            if ((SSL_get_shutdown(mDtlsSsl) & SSL_RECEIVED_SHUTDOWN) != 0) {
-                LOG(SRTC_LOG_V, "Received DTLS close_notify, peer disconnected gracefully");
-                emitOnDtlsDisconnected(Error::OK);
-            } else {
-                const auto err = SSL_get_error(mDtlsSsl, r);
-                if (err != SSL_ERROR_WANT_READ && err != SSL_ERROR_WANT_WRITE) {
-                    LOG(SRTC_LOG_V, "DTLS connection lost, ssl error = %d", err);
-                    emitOnDtlsDisconnected({ Error::Code::InvalidData, "DTLS connection lost unexpectedly" });
-                }
+            const auto err = SSL_get_error(mDtlsSsl, r);
+            if (err != SSL_ERROR_WANT_READ && err != SSL_ERROR_WANT_WRITE) {
+                LOG(SRTC_LOG_V, "DTLS connection lost, ssl error = %d", err);
+                emitOnDtlsDisconnected({ Error::Code::InvalidData, "DTLS connection lost unexpectedly" });
             }
         }
     }
-- 
2.43.0


From 09e76b44c03c1134257b6966721be94f539786cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:13 +0000
Subject: [PATCH 60/89] fix: thread scheduler: its thread was started before
 the queue and the quit flag were initialized

---
 include/srtc/scheduler.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/srtc/scheduler.h b/include/srtc/scheduler.h
index 2b23975..fc64598 100644
--- a/include/srtc/scheduler.h
+++ b/include/srtc/scheduler.h
@@ -124,10 +124,12 @@ private:
     std::mutex mMutex;
     std::condition_variable mCondVar;
 
-    std::thread mThread SRTC_GUARDED_BY(mMutex);
     bool mIsQuit SRTC_GUARDED_BY(mMutex) = {false};
 
     std::vector<std::shared_ptr<TaskImpl>> mTaskQueue;
+
+    // Has to be last: the thread uses the other members as soon as it is started
+    std::thread mThread SRTC_GUARDED_BY(mMutex);
 };
 
 // ----- LoopScheduler
-- 
2.43.0


From 8b4efb0b39964eb271a793ccfdb38a8d84264edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:04 +0000
Subject: [PATCH 61/89] fix: thread scheduler: cancelling a task from itself,
 twice, or after it was updated, waited forever, and finished tasks were
 destroyed with the mutex held

---
 include/srtc/scheduler.h |  4 ++--
 src/scheduler.cpp        | 22 +++++++++++++++-------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/srtc/scheduler.h b/include/srtc/scheduler.h
index fc64598..016a74b 100644
--- a/include/srtc/scheduler.h
+++ b/include/srtc/scheduler.h
@@ -105,8 +105,6 @@ private:
         const char* const mFile;
         const int mLine;
         const Func mFunc;
-
-        bool mIsCompleted = {false};
     };
 
     struct TaskImplLess {
@@ -127,6 +125,8 @@ private:
     bool mIsQuit SRTC_GUARDED_BY(mMutex) = {false};
 
     std::vector<std::shared_ptr<TaskImpl>> mTaskQueue;
+    const TaskImpl* mRunningTask SRTC_GUARDED_BY(mMutex) = {nullptr};
+    std::thread::id mThreadId SRTC_GUARDED_BY(mMutex);
 
     // Has to be last: the thread uses the other members as soon as it is started
     std::thread mThread SRTC_GUARDED_BY(mMutex);
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 7382b1d..9e82442 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -127,7 +127,13 @@ void ThreadScheduler::cancelImpl(const std::shared_ptr<TaskImpl>& task)
         return;
     }
 
-    mCondVar.wait(lock, [this, task]() SRTC_EXCLUSIVE_LOCKS_REQUIRED(mMutex) { return mIsQuit || task->mIsCompleted; });
+    if (mThreadId == std::this_thread::get_id()) {
+        // A running task cancels itself
+        return;
+    }
+
+    // Only a task which is running has to be waited for, others have completed or were cancelled or updated already
+    mCondVar.wait(lock, [this, task]() SRTC_EXCLUSIVE_LOCKS_REQUIRED(mMutex) { return mRunningTask != task.get(); });
 }
 
 std::weak_ptr<Task> ThreadScheduler::updateImpl(const std::shared_ptr<TaskImpl>& oldTask,
@@ -159,12 +165,14 @@ void ThreadScheduler::threadFunc([[maybe_unused]] const std::string name)
 
     while (true) {
 
+        // Not while holding the mutex: destroying what the function has captured may use the scheduler
+        task.reset();
+
         {
             std::unique_lock lock(mMutex);
 
-            if (task) {
-                task->mIsCompleted = true;
-                task.reset();
+            if (mRunningTask) {
+                mRunningTask = nullptr;
                 mCondVar.notify_all();
             }
 
@@ -172,9 +180,7 @@ void ThreadScheduler::threadFunc([[maybe_unused]] const std::string name)
             const auto delay =
                 head == nullptr ? std::chrono::seconds(60) : head->mWhen - std::chrono::steady_clock::now();
 
-            if (delay.count() <= 0) {
-                task = head;
-            } else {
+            if (delay.count() > 0) {
                 mCondVar.wait_for(lock, delay, [this, head = head.get()]() SRTC_EXCLUSIVE_LOCKS_REQUIRED(mMutex) {
                     if (mIsQuit) {
                         return true;
@@ -202,6 +208,8 @@ void ThreadScheduler::threadFunc([[maybe_unused]] const std::string name)
                 if (mTaskQueue.front()->mWhen <= std::chrono::steady_clock::now()) {
                     task = mTaskQueue.front();
                     mTaskQueue.erase(mTaskQueue.begin());
+                    mRunningTask = task.get();
+                    mThreadId = std::this_thread::get_id();
                 }
             }
         }
-- 
2.43.0


From 7c2fb50df1f75fc9a1fc06d2c2f1566ce118a9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 62/89] fix: thread scheduler: used after free when one of its
 own tasks released the last reference to it

---
 include/srtc/scheduler.h |  52 ++++++++++--------
 src/scheduler.cpp        | 110 +++++++++++++++++++++++++--------------
 2 files changed, 102 insertions(+), 60 deletions(-)

diff --git a/include/srtc/scheduler.h b/include/srtc/scheduler.h
index 016a74b..ec80069 100644
--- a/include/srtc/scheduler.h
+++ b/include/srtc/scheduler.h
@@ -86,21 +86,43 @@ public:
     void dump() override;
 
 private:
+    class TaskImpl;
+
+    // Shared between the scheduler, its tasks, and its thread, which can go on for a little longer than the scheduler
+    // when it's one of the tasks that destroys it
+    class Queue final : public std::enable_shared_from_this<Queue>
+    {
+    public:
+        std::weak_ptr<Task> submit(const Delay& delay, const char* file, int line, const Func& func);
+        void cancel(const std::shared_ptr<TaskImpl>& task);
+        std::weak_ptr<Task> update(const std::shared_ptr<TaskImpl>& oldTask, const Delay& delay);
+
+        void run();
+        void quit();
+        void dump();
+
+    private:
+        std::mutex mMutex;
+        std::condition_variable mCondVar;
+
+        bool mIsQuit SRTC_GUARDED_BY(mMutex) = {false};
+
+        std::vector<std::shared_ptr<TaskImpl>> mTaskQueue SRTC_GUARDED_BY(mMutex);
+        const TaskImpl* mRunningTask SRTC_GUARDED_BY(mMutex) = {nullptr};
+        std::thread::id mThreadId SRTC_GUARDED_BY(mMutex);
+    };
+
     class TaskImpl final : public Task, public std::enable_shared_from_this<TaskImpl>
     {
     public:
-        TaskImpl(const std::weak_ptr<ThreadScheduler>& owner,
-                 const When& when,
-                 const char* file,
-                 int line,
-                 const Func& func);
+        TaskImpl(const std::weak_ptr<Queue>& owner, const When& when, const char* file, int line, const Func& func);
 
         ~TaskImpl() override;
 
         void cancel() override;
         std::weak_ptr<Task> update(const Delay& delay) override;
 
-        const std::weak_ptr<ThreadScheduler> mOwner;
+        const std::weak_ptr<Queue> mOwner;
         const When mWhen;
         const char* const mFile;
         const int mLine;
@@ -114,22 +136,10 @@ private:
         };
     };
 
-    void cancelImpl(const std::shared_ptr<TaskImpl>& task);
-    std::weak_ptr<Task> updateImpl(const std::shared_ptr<TaskImpl>& oldTask, const Delay& delay);
-
-    void threadFunc(std::string name);
-
-    std::mutex mMutex;
-    std::condition_variable mCondVar;
-
-    bool mIsQuit SRTC_GUARDED_BY(mMutex) = {false};
-
-    std::vector<std::shared_ptr<TaskImpl>> mTaskQueue;
-    const TaskImpl* mRunningTask SRTC_GUARDED_BY(mMutex) = {nullptr};
-    std::thread::id mThreadId SRTC_GUARDED_BY(mMutex);
+    static void threadFunc(const std::shared_ptr<Queue>& queue, const std::string& name);
 
-    // Has to be last: the thread uses the other members as soon as it is started
-    std::thread mThread SRTC_GUARDED_BY(mMutex);
+    const std::shared_ptr<Queue> mQueue;
+    std::thread mThread;
 };
 
 // ----- LoopScheduler
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 9e82442..72ee8ec 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -31,7 +31,7 @@ Scheduler::~Scheduler() = default;
 // ----- ThreadScheduler
 
 ThreadScheduler::TaskImpl::TaskImpl(
-    const std::weak_ptr<ThreadScheduler>& owner, const When& when, const char* file, int line, const Func& func)
+    const std::weak_ptr<Queue>& owner, const When& when, const char* file, int line, const Func& func)
     : mOwner(owner)
     , mWhen(when)
     , mFile(file)
@@ -47,7 +47,7 @@ void ThreadScheduler::TaskImpl::cancel()
 {
     if (const auto owner = mOwner.lock()) {
         auto self = shared_from_this();
-        owner->cancelImpl(self);
+        owner->cancel(self);
     }
 }
 
@@ -55,31 +55,25 @@ std::weak_ptr<Task> ThreadScheduler::TaskImpl::update(const std::chrono::millise
 {
     if (const auto owner = mOwner.lock()) {
         auto self = shared_from_this();
-        return owner->updateImpl(self, delay);
+        return owner->update(self, delay);
     }
     return {};
 }
 
 ThreadScheduler::ThreadScheduler(const std::string& name)
-    : mThread(&ThreadScheduler::threadFunc, this, name)
+    : mQueue(std::make_shared<Queue>())
+    , mThread(&ThreadScheduler::threadFunc, mQueue, name)
 {
 }
 
 ThreadScheduler::~ThreadScheduler()
 {
-    std::thread thread;
-
-    {
-        std::lock_guard lock(mMutex);
-        thread = std::move(mThread);
-        mIsQuit = true;
-        mCondVar.notify_one();
-    }
+    mQueue->quit();
 
-    if (std::this_thread::get_id() == thread.get_id()) {
-        thread.detach();
+    if (std::this_thread::get_id() == mThread.get_id()) {
+        mThread.detach();
     } else {
-        thread.join();
+        mThread.join();
     }
 }
 
@@ -88,22 +82,13 @@ std::weak_ptr<Task> ThreadScheduler::submit(const Delay& delay, const char* file
     // Please instantiate using std::make_shared
     assert(weak_from_this().lock());
 
-    const auto when = std::chrono::steady_clock::now() + delay;
-    const auto task = std::make_shared<TaskImpl>(weak_from_this(), when, file, line, func);
-
-    {
-        std::lock_guard lock(mMutex);
-        mTaskQueue.insert(std::upper_bound(mTaskQueue.begin(), mTaskQueue.end(), task, TaskImplLess()), task);
-    }
-
-    mCondVar.notify_one();
-    return task;
+    return mQueue->submit(delay, file, line, func);
 }
 
 void ThreadScheduler::cancel(std::shared_ptr<Task>& task)
 {
-    std::shared_ptr impl = std::static_pointer_cast<TaskImpl>(task);
-    cancelImpl(impl);
+    const auto impl = std::static_pointer_cast<TaskImpl>(task);
+    mQueue->cancel(impl);
 }
 
 std::shared_ptr<RealScheduler> ThreadScheduler::getRealScheduler()
@@ -113,12 +98,36 @@ std::shared_ptr<RealScheduler> ThreadScheduler::getRealScheduler()
 
 void ThreadScheduler::dump()
 {
-    std::unique_lock lock(mMutex);
+    mQueue->dump();
+}
 
-    srtc::log(SRTC_LOG_V, "ThreadScheduler", "Queue contains %zd items", mTaskQueue.size());
+void ThreadScheduler::threadFunc(const std::shared_ptr<Queue>& queue, [[maybe_unused]] const std::string& name)
+{
+#ifdef _POSIX_VERSION
+    pthread_setname_np(pthread_self(), name.c_str());
+#endif
+
+    queue->run();
+}
+
+std::weak_ptr<Task> ThreadScheduler::Queue::submit(const Delay& delay, const char* file, int line, const Func& func)
+{
+    const auto when = std::chrono::steady_clock::now() + delay;
+    const auto task = std::make_shared<TaskImpl>(weak_from_this(), when, file, line, func);
+
+    {
+        std::lock_guard lock(mMutex);
+        if (mIsQuit) {
+            return {};
+        }
+        mTaskQueue.insert(std::upper_bound(mTaskQueue.begin(), mTaskQueue.end(), task, TaskImplLess()), task);
+    }
+
+    mCondVar.notify_one();
+    return task;
 }
 
-void ThreadScheduler::cancelImpl(const std::shared_ptr<TaskImpl>& task)
+void ThreadScheduler::Queue::cancel(const std::shared_ptr<TaskImpl>& task)
 {
     std::unique_lock lock(mMutex);
 
@@ -136,11 +145,15 @@ void ThreadScheduler::cancelImpl(const std::shared_ptr<TaskImpl>& task)
     mCondVar.wait(lock, [this, task]() SRTC_EXCLUSIVE_LOCKS_REQUIRED(mMutex) { return mRunningTask != task.get(); });
 }
 
-std::weak_ptr<Task> ThreadScheduler::updateImpl(const std::shared_ptr<TaskImpl>& oldTask,
-                                                const srtc::Scheduler::Delay& delay)
+std::weak_ptr<Task> ThreadScheduler::Queue::update(const std::shared_ptr<TaskImpl>& oldTask,
+                                                     const srtc::Scheduler::Delay& delay)
 {
     std::unique_lock lock(mMutex);
 
+    if (mIsQuit) {
+        return {};
+    }
+
     if (const auto iter = std::find(mTaskQueue.begin(), mTaskQueue.end(), oldTask); iter != mTaskQueue.end()) {
         mTaskQueue.erase(iter);
     }
@@ -155,18 +168,15 @@ std::weak_ptr<Task> ThreadScheduler::updateImpl(const std::shared_ptr<TaskImpl>&
     return newTask;
 }
 
-void ThreadScheduler::threadFunc([[maybe_unused]] const std::string name)
+void ThreadScheduler::Queue::run()
 {
-#ifdef _POSIX_VERSION
-    pthread_setname_np(pthread_self(), name.c_str());
-#endif
-
-    std::shared_ptr<TaskImpl> task;
+    std::shared_ptr<TaskImpl> task, head;
 
     while (true) {
 
         // Not while holding the mutex: destroying what the function has captured may use the scheduler
         task.reset();
+        head.reset();
 
         {
             std::unique_lock lock(mMutex);
@@ -176,7 +186,9 @@ void ThreadScheduler::threadFunc([[maybe_unused]] const std::string name)
                 mCondVar.notify_all();
             }
 
-            const auto head = mTaskQueue.empty() ? nullptr : mTaskQueue.front();
+            if (!mTaskQueue.empty()) {
+                head = mTaskQueue.front();
+            }
             const auto delay =
                 head == nullptr ? std::chrono::seconds(60) : head->mWhen - std::chrono::steady_clock::now();
 
@@ -220,6 +232,26 @@ void ThreadScheduler::threadFunc([[maybe_unused]] const std::string name)
     }
 }
 
+void ThreadScheduler::Queue::quit()
+{
+    std::vector<std::shared_ptr<TaskImpl>> queue;
+
+    {
+        std::lock_guard lock(mMutex);
+        mIsQuit = true;
+        queue.swap(mTaskQueue);
+    }
+
+    mCondVar.notify_all();
+}
+
+void ThreadScheduler::Queue::dump()
+{
+    std::lock_guard lock(mMutex);
+
+    srtc::log(SRTC_LOG_V, "ThreadScheduler", "Queue contains %zd items", mTaskQueue.size());
+}
+
 // ----- LoopScheduler
 
 LoopScheduler::TaskImpl::TaskImpl(
-- 
2.43.0


From 55704d4229c9badb8fc8b382b0721359ff237ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:00 +0000
Subject: [PATCH 63/89] fix: scoped scheduler: destroying it while one of its
 tasks used it on a thread scheduler's thread deadlocked, or did not wait for
 the task

---
 include/srtc/scheduler.h |  2 +-
 src/scheduler.cpp        | 71 +++++++++++++++++++++++++---------------
 2 files changed, 46 insertions(+), 27 deletions(-)

diff --git a/include/srtc/scheduler.h b/include/srtc/scheduler.h
index ec80069..dbcf776 100644
--- a/include/srtc/scheduler.h
+++ b/include/srtc/scheduler.h
@@ -234,7 +234,7 @@ private:
     void cancelImpl(const std::shared_ptr<TaskImpl>& task);
     std::weak_ptr<Task> updateImpl(const std::shared_ptr<TaskImpl>& oldTask, const Delay& delay);
 
-    void removeExpiredLocked() SRTC_SHARED_LOCKS_REQUIRED(mMutex);
+    std::list<std::shared_ptr<TaskImpl>> removeExpiredLocked() SRTC_SHARED_LOCKS_REQUIRED(mMutex);
 
     std::list<std::shared_ptr<TaskImpl>> mSubmitted SRTC_GUARDED_BY(mMutex);
     std::mutex mMutex;
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 72ee8ec..85cb1b4 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -425,22 +425,35 @@ ScopedScheduler::ScopedScheduler(const std::shared_ptr<RealScheduler>& scheduler
 
 ScopedScheduler::~ScopedScheduler()
 {
-    std::lock_guard lock(mMutex);
+    while (true) {
+        // Not while holding the mutex: cancelling waits for a running task, which may use this scheduler
+        std::list<std::shared_ptr<TaskImpl>> submitted;
+
+        {
+            std::lock_guard lock(mMutex);
+            submitted.swap(mSubmitted);
+        }
 
-    for (const auto& iter : mSubmitted) {
-        if (const auto task = iter->mTask.lock()) {
-            task->cancel();
+        if (submitted.empty()) {
+            break;
         }
-    }
 
-    mSubmitted.clear();
+        for (const auto& iter : submitted) {
+            if (const auto task = iter->mTask.lock()) {
+                task->cancel();
+            }
+        }
+    }
 }
 
 std::weak_ptr<Task> ScopedScheduler::submit(const Delay& delay, const char* file, int line, const Func& func)
 {
+    // Destroyed after the mutex is released
+    std::list<std::shared_ptr<TaskImpl>> expired;
+
     std::lock_guard lock(mMutex);
 
-    removeExpiredLocked();
+    expired = removeExpiredLocked();
 
     const auto task = mScheduler->submit(delay, file, line, func);
     const auto impl = std::make_shared<TaskImpl>(this, task, file, line, func);
@@ -466,42 +479,48 @@ void ScopedScheduler::cancelImpl(const std::shared_ptr<TaskImpl>& task)
         ptr->cancel();
     }
 
-    std::lock_guard lock(mMutex);
+    std::list<std::shared_ptr<TaskImpl>> expired;
 
-    if (const auto iter = std::find(mSubmitted.begin(), mSubmitted.end(), task); iter != mSubmitted.end()) {
-        mSubmitted.erase(iter);
-    }
+    // A task which is cancelling itself stays until it ends, the destructor has to wait for it
+    std::lock_guard lock(mMutex);
+    expired = removeExpiredLocked();
 }
 
 std::weak_ptr<Task> ScopedScheduler::updateImpl(const std::shared_ptr<TaskImpl>& oldTask, const Delay& delay)
 {
-    std::lock_guard lock(mMutex);
+    std::list<std::shared_ptr<TaskImpl>> expired;
+    std::shared_ptr<TaskImpl> newTask;
 
-    removeExpiredLocked();
+    {
+        std::lock_guard lock(mMutex);
 
-    if (const auto iter = std::find(mSubmitted.begin(), mSubmitted.end(), oldTask); iter != mSubmitted.end()) {
-        mSubmitted.erase(iter);
+        if (const auto ptr = oldTask->mTask.lock()) {
+            const auto updated = ptr->update(delay);
+            newTask = std::make_shared<TaskImpl>(this, updated, oldTask->mFile, oldTask->mLine, oldTask->mFunc);
+            mSubmitted.push_back(newTask);
+        }
     }
 
-    if (const auto ptr = oldTask->mTask.lock()) {
-        const auto updated = ptr->update(delay);
-        const auto newTask = std::make_shared<TaskImpl>(this, updated, oldTask->mFile, oldTask->mLine, oldTask->mFunc);
-        mSubmitted.push_back(newTask);
-        return newTask;
-    }
+    // A task which is updating itself stays until it ends, the destructor has to wait for it
+    std::lock_guard lock(mMutex);
+    expired = removeExpiredLocked();
 
-    return {};
+    return newTask;
 }
 
-void ScopedScheduler::removeExpiredLocked()
+std::list<std::shared_ptr<ScopedScheduler::TaskImpl>> ScopedScheduler::removeExpiredLocked()
 {
+    std::list<std::shared_ptr<TaskImpl>> expired;
+
     for (auto iter = mSubmitted.begin(); iter != mSubmitted.end();) {
+        const auto next = std::next(iter);
         if ((*iter)->mTask.expired()) {
-            iter = mSubmitted.erase(iter);
-        } else {
-            ++iter;
+            expired.splice(expired.end(), mSubmitted, iter);
         }
+        iter = next;
     }
+
+    return expired;
 }
 
 } // namespace srtc
-- 
2.43.0


From d0c6a8db90ba1aaa790e60dde72ed0c65f36e49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:49 +0000
Subject: [PATCH 64/89] fix: loop scheduler: the wait for a task due in more
 than 24 days was negative

---
 src/scheduler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 85cb1b4..963b074 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -343,7 +343,7 @@ int LoopScheduler::getTimeoutMillis(int defaultValue) const
     if (diff <= std::chrono::milliseconds::zero()) {
         return 0;
     }
-    if (diff.count() > std::numeric_limits<unsigned int>::max()) {
+    if (diff.count() > std::numeric_limits<int>::max()) {
         return std::numeric_limits<int>::max();
     }
     return static_cast<int>(diff.count());
-- 
2.43.0


From ac14ad5fa1480c39af5c4720d1cae31dd3fcb753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 65/89] fix: connections: setting a listener from within a
 listener deadlocked

---
 include/srtc/peer_connection.h |  3 ++-
 src/peer_connection.cpp        | 42 +++++++++++++++++-----------------
 2 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/include/srtc/peer_connection.h b/include/srtc/peer_connection.h
index 567a55f..ed4a7bc 100644
--- a/include/srtc/peer_connection.h
+++ b/include/srtc/peer_connection.h
@@ -191,7 +191,8 @@ private:
     // Overall connection state and listener
     ConnectionState mConnectionState SRTC_GUARDED_BY(mMutex);
 
-    std::mutex mListenerMutex;
+    // Recursive so that listeners can be set from within a listener
+    std::recursive_mutex mListenerMutex;
     ConnectionStateListener mConnectionStateListener SRTC_GUARDED_BY(mListenerMutex);
     PublishConnectionStatsListener mPublishConnectionStatsListener SRTC_GUARDED_BY(mListenerMutex);
     PublishKeyFrameRequestedListener mPublishKeyFrameRequestedListener SRTC_GUARDED_BY(mListenerMutex);
diff --git a/src/peer_connection.cpp b/src/peer_connection.cpp
index a7769df..748c458 100644
--- a/src/peer_connection.cpp
+++ b/src/peer_connection.cpp
@@ -746,8 +746,8 @@ void PeerConnection::setConnectionState(ConnectionState state)
 
     {
         std::lock_guard lock2(mListenerMutex);
-        if (mConnectionStateListener) {
-            mConnectionStateListener(state);
+        if (const auto listener = mConnectionStateListener; listener) {
+            listener(state);
         }
     }
 }
@@ -824,9 +824,9 @@ void PeerConnection::processJitterBuffer(const std::shared_ptr<JitterBuffer>& bu
         stats->incrementReceivedFrames(frameList.size());
 
         std::lock_guard lock(mListenerMutex);
-        if (mSubscribeEncodedFrameListener) {
-            for (const auto& frame : frameList) {
-                mSubscribeEncodedFrameListener(frame);
+        for (const auto& frame : frameList) {
+            if (const auto listener = mSubscribeEncodedFrameListener; listener) {
+                listener(frame);
             }
         }
     }
@@ -988,8 +988,8 @@ void PeerConnection::onCandidateReceivedSenderReport([[maybe_unused]] PeerCandid
 {
     if (mDirection == Direction::Subscribe) {
         std::lock_guard lock(mListenerMutex);
-        if (mSubscribeSenderReportsListener) {
-            mSubscribeSenderReportsListener(track, sr);
+        if (const auto listener = mSubscribeSenderReportsListener; listener) {
+            listener(track, sr);
         }
     }
 }
@@ -997,8 +997,8 @@ void PeerConnection::onCandidateReceivedSenderReport([[maybe_unused]] PeerCandid
 void PeerConnection::onCandidateReceivedKeyFrameRequest([[maybe_unused]] PeerCandidate* candiate)
 {
     std::lock_guard lock(mListenerMutex);
-    if (mPublishKeyFrameRequestedListener) {
-        mPublishKeyFrameRequestedListener();
+    if (const auto listener = mPublishKeyFrameRequestedListener; listener) {
+        listener();
     }
 }
 
@@ -1018,32 +1018,32 @@ void PeerConnection::getSimulcastLayerList(const std::shared_ptr<Media>& media,
 void PeerConnection::onSctpDataChannelOpen(const std::string& label)
 {
     std::lock_guard lock(mListenerMutex);
-    if (mDataChannelListener) {
-        mDataChannelListener->onDataChannelOpened(label);
+    if (const auto listener = mDataChannelListener; listener) {
+        listener->onDataChannelOpened(label);
     }
 }
 
 void PeerConnection::onSctpDataChannelText(const std::string& label, const std::string& data)
 {
     std::lock_guard lock(mListenerMutex);
-    if (mDataChannelListener) {
-        mDataChannelListener->onDataChannelReceivedText(label, data);
+    if (const auto listener = mDataChannelListener; listener) {
+        listener->onDataChannelReceivedText(label, data);
     }
 }
 
 void PeerConnection::onSctpDataChannelBinary(const std::string& label, const ByteBuffer& data)
 {
     std::lock_guard lock(mListenerMutex);
-    if (mDataChannelListener) {
-        mDataChannelListener->onDataChannelReceivedBinary(label, data);
+    if (const auto listener = mDataChannelListener; listener) {
+        listener->onDataChannelReceivedBinary(label, data);
     }
 }
 
 void PeerConnection::onSctpDataChannelClosed(const std::string& label)
 {
     std::lock_guard lock(mListenerMutex);
-    if (mDataChannelListener) {
-        mDataChannelListener->onDataChannelClosed(label);
+    if (const auto listener = mDataChannelListener; listener) {
+        listener->onDataChannelClosed(label);
     }
 }
 
@@ -1109,12 +1109,12 @@ void PeerConnection::sendConnectionStats()
 
     std::lock_guard lock(mListenerMutex);
 
-    if (mPublishConnectionStatsListener && mDirection == Direction::Publish) {
-        mPublishConnectionStatsListener(publishConnectionStats);
+    if (const auto listener = mPublishConnectionStatsListener; listener && mDirection == Direction::Publish) {
+        listener(publishConnectionStats);
     }
 
-    if (mSubscribeConnectionStatsListener && mDirection == Direction::Subscribe) {
-        mSubscribeConnectionStatsListener(subscribeConnectionStats);
+    if (const auto listener = mSubscribeConnectionStatsListener; listener && mDirection == Direction::Subscribe) {
+        listener(subscribeConnectionStats);
     }
 }
 
-- 
2.43.0


From b80c7dc070e541c52d15a5e202e45f72547b43ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:49 +0000
Subject: [PATCH 66/89] fix: connections: close() from a listener terminated
 the process, and returned early when another thread was closing

---
 include/srtc/peer_connection.h |  4 +++-
 src/peer_connection.cpp        | 23 +++++++++++++++--------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/srtc/peer_connection.h b/include/srtc/peer_connection.h
index ed4a7bc..fdd16a0 100644
--- a/include/srtc/peer_connection.h
+++ b/include/srtc/peer_connection.h
@@ -146,7 +146,9 @@ private:
 
     bool mIsStarted SRTC_GUARDED_BY(mMutex) = { false };
     bool mIsQuit SRTC_GUARDED_BY(mMutex) = { false };
-    std::thread mThread SRTC_GUARDED_BY(mMutex);
+    std::thread::id mThreadId SRTC_GUARDED_BY(mMutex);
+    std::mutex mCloseMutex;
+    std::thread mThread; // created with mMutex, then joined with mCloseMutex
 
     // Event loop
     const std::shared_ptr<EventLoop> mEventLoop;
diff --git a/src/peer_connection.cpp b/src/peer_connection.cpp
index 748c458..ded7ae4 100644
--- a/src/peer_connection.cpp
+++ b/src/peer_connection.cpp
@@ -270,6 +270,7 @@ Error PeerConnection::setAnswer(const std::shared_ptr<SdpAnswer>& answer)
 
         // The network thread
         mThread = std::thread(&PeerConnection::networkThreadWorkerFunc, this);
+        mThreadId = mThread.get_id();
     }
 
     return Error::OK;
@@ -560,20 +561,26 @@ void PeerConnection::setDataChannelListener(const std::shared_ptr<DataChannelLis
 
 void PeerConnection::close()
 {
-    std::thread waitForThread;
-
     {
         std::lock_guard lock(mMutex);
 
-        if (mIsStarted) {
-            mIsQuit = true;
-            mEventLoop->interrupt();
-            waitForThread = std::move(mThread);
+        if (!mIsStarted) {
+            return;
+        }
+
+        mIsQuit = true;
+        mEventLoop->interrupt();
+
+        if (mThreadId == std::this_thread::get_id()) {
+            // Called from a listener, the thread will exit when the listener returns
+            return;
         }
     }
 
-    if (waitForThread.joinable()) {
-        waitForThread.join();
+    // More than one thread can be closing, all have to wait
+    std::lock_guard closeLock(mCloseMutex);
+    if (mThread.joinable()) {
+        mThread.join();
     }
 }
 
-- 
2.43.0


From 4d7b3fc12348b83c4fd4e85d01d1ffc32a7c6c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:41 +0000
Subject: [PATCH 67/89] fix: logging: data races on the log level, the time
 buffer and the format state of the output

---
 src/logging.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/logging.cpp b/src/logging.cpp
index 58bfe71..83c6c0e 100644
--- a/src/logging.cpp
+++ b/src/logging.cpp
@@ -1,5 +1,6 @@
 #include "srtc/logging.h"
 
+#include <atomic>
 #include <cstdarg>
 
 #ifdef ANDROID
@@ -9,12 +10,13 @@
 #include <chrono>
 #include <iomanip>
 #include <iostream>
+#include <sstream>
 #endif
 
 namespace
 {
 
-int gLogLevel =
+std::atomic<int> gLogLevel =
 #ifdef NDEBUG
     SRTC_LOG_W
 #else
@@ -77,7 +79,7 @@ void log_v(int level, const char* tag, const char* format, va_list ap)
 #ifdef _WIN32
         localtime_s(&local_tm, &time_t_now);
 #else
-        local_tm = *localtime(&time_t_now);
+        localtime_r(&time_t_now, &local_tm);
 #endif
         const auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(now.time_since_epoch()).count() % 1000;
 
@@ -104,8 +106,12 @@ void log_v(int level, const char* tag, const char* format, va_list ap)
 
         char buf[2048];
         std::vsnprintf(buf, sizeof(buf), format, ap);
-        std::cout << std::put_time(&local_tm, "%Y-%m-%d %H:%M:%S") << "." << std::setw(3) << std::setfill('0') << ms
-                  << std::setfill(' ') << " [" << indicator << "] " << tag << ": " << buf << std::endl;
+
+        // Several threads can be logging
+        std::ostringstream line;
+        line << std::put_time(&local_tm, "%Y-%m-%d %H:%M:%S") << "." << std::setw(3) << std::setfill('0') << ms << " ["
+             << indicator << "] " << tag << ": " << buf << "\n";
+        std::cout << line.str() << std::flush;
 #endif
     }
 }
-- 
2.43.0


From 590a6febb124bec41755fe3dc8dbd53ae857d468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 68/89] fix: track statistics: data races between the network
 thread and the application

---
 include/srtc/track_stats.h | 18 +++++++++++-------
 src/track_stats.cpp        |  4 ++++
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/srtc/track_stats.h b/include/srtc/track_stats.h
index d0bbcfc..24f8c1e 100644
--- a/include/srtc/track_stats.h
+++ b/include/srtc/track_stats.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <atomic>
+#include <mutex>
 #include <optional>
 
 #include "srtc/sender_report.h"
@@ -42,13 +43,16 @@ public:
 	[[nodiscard]] std::optional<SenderReport> getReceivedSenderReport() const;
 
 private:
-    size_t mSentFrames;
-    size_t mSentPackets;
-    size_t mSentBytes;
-    size_t mReceivedFrames;
-    size_t mReceivedPackets;
-    size_t mReceivedBytes;
-    size_t mReceivedPacketsLost;
+    // Written by the network thread, read by the application
+    std::atomic<size_t> mSentFrames;
+    std::atomic<size_t> mSentPackets;
+    std::atomic<size_t> mSentBytes;
+    std::atomic<size_t> mReceivedFrames;
+    std::atomic<size_t> mReceivedPackets;
+    std::atomic<size_t> mReceivedBytes;
+    std::atomic<size_t> mReceivedPacketsLost;
+
+    mutable std::mutex mMutex;
 	ExtendedValue<uint16_t> mReceivedHighestSeq;
 	std::optional<SenderReport> mReceivedSenderReport;
 };
diff --git a/src/track_stats.cpp b/src/track_stats.cpp
index 6e704fc..0fdb84c 100644
--- a/src/track_stats.cpp
+++ b/src/track_stats.cpp
@@ -79,11 +79,13 @@ size_t TrackStats::getReceivedPacketsLost() const
 
 void TrackStats::setHighestReceivedSeq(uint16_t seq)
 {
+    std::lock_guard lock(mMutex);
     (void)mReceivedHighestSeq.extend(seq);
 }
 
 uint64_t TrackStats::getReceivedHighestSeqEx() const
 {
+    std::lock_guard lock(mMutex);
     const auto value = mReceivedHighestSeq.get();
     if (value.has_value()) {
         return value.value();
@@ -114,11 +116,13 @@ void TrackStats::incrementReceivedPacketsLost(size_t increment)
 
 void TrackStats::setReceivedSenderReport(const SenderReport& sr)
 {
+    std::lock_guard lock(mMutex);
     mReceivedSenderReport = sr;
 }
 
 std::optional<SenderReport> TrackStats::getReceivedSenderReport() const
 {
+    std::lock_guard lock(mMutex);
     return mReceivedSenderReport;
 }
 
-- 
2.43.0


From ccacf36ddd61a928ea7e40455a4d2105bda80130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:18 +0000
Subject: [PATCH 69/89] fix: connections: the lists of media and tracks were
 cleared at the end without the mutex their readers hold

---
 src/peer_connection.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/peer_connection.cpp b/src/peer_connection.cpp
index ded7ae4..07c6185 100644
--- a/src/peer_connection.cpp
+++ b/src/peer_connection.cpp
@@ -721,8 +721,11 @@ void PeerConnection::networkThreadWorkerFunc()
     mConnectingCandidateList.clear();
     mSelectedCandidate.reset();
 
-    mMediaEntryList.clear();
-    mTrackEntryList.clear();
+    {
+        std::lock_guard lock(mMutex);
+        mMediaEntryList.clear();
+        mTrackEntryList.clear();
+    }
 
     // We are all done
     setConnectionState(ConnectionState::Closed);
-- 
2.43.0


From a9dd7adfb074cdb103444cf2b7aea7827ae6ea27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:32 +0000
Subject: [PATCH 70/89] fix: STUN: message and attribute lengths were not
 checked against what was received

---
 src/ice_agent.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/ice_agent.cpp b/src/ice_agent.cpp
index 541d127..e433907 100644
--- a/src/ice_agent.cpp
+++ b/src/ice_agent.cpp
@@ -16,6 +16,12 @@ namespace
 
 const auto kSoftware = "srtc";
 
+// The attributes, as far as the message's length says, have to be inside of the received data
+bool isValidMessage(const stun::StunMessage* msg)
+{
+	return stun::stun_message_validate_buffer_length(msg->buffer, msg->buffer_len, true) > 0;
+}
+
 }
 
 namespace srtc
@@ -145,6 +151,12 @@ void IceAgent::forgetExpiredTransactions(const std::chrono::milliseconds& expira
 
 bool IceAgent::verifyRequestMessage(stun::StunMessage* msg, const std::string& username, const std::string& password)
 {
+	// Message length
+	if (!isValidMessage(msg)) {
+		LOG(SRTC_LOG_E, "Request verification failed: invalid message length");
+		return false;
+	}
+
 	// Fingerprint
 	uint16_t attrFingerprintLen = { 0 };
 	auto attrFingerprintPtr = stun::stun_message_find(msg, stun::STUN_ATTRIBUTE_FINGERPRINT, &attrFingerprintLen);
@@ -210,6 +222,12 @@ bool IceAgent::verifyRequestMessage(stun::StunMessage* msg, const std::string& u
 
 bool IceAgent::verifyResponseMessage(stun::StunMessage* msg, const std::string& password)
 {
+	// Message length
+	if (!isValidMessage(msg)) {
+		LOG(SRTC_LOG_E, "Response verification failed: invalid message length");
+		return false;
+	}
+
 	// Fingerprint
 	uint16_t attrFingerprintLen = { 0 };
 	auto attrFingerprintPtr = stun::stun_message_find(msg, stun::STUN_ATTRIBUTE_FINGERPRINT, &attrFingerprintLen);
-- 
2.43.0


From eb8a28f303a202e3037820c8e1d31239c741529f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:50 +0000
Subject: [PATCH 71/89] fix: STUN: a forged response used up the request and
 changed the round trip time

---
 src/peer_candidate.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index 9a0755b..f6f5e2f 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -919,6 +919,11 @@ void PeerCandidate::onReceivedStunMessage(const Socket::ReceivedData& data)
             LOG(SRTC_LOG_E, "STUN request verification failed, ignoring");
         }
     } else if (stunMessageClass == stun::STUN_RESPONSE && stunMessageMethod == stun::STUN_BINDING) {
+        if (!mIceAgent->verifyResponseMessage(&incomingMessage, mAnswer->getIcePassword())) {
+            LOG(SRTC_LOG_E, "STUN response verification failed, ignoring");
+            return;
+        }
+
         int errorCode = { 0 };
         if (stun::stun_message_find_error(&incomingMessage, &errorCode) == stun::STUN_MESSAGE_RETURN_SUCCESS) {
             LOG(SRTC_LOG_V, "STUN response error code: %d", errorCode);
@@ -933,7 +938,7 @@ void PeerCandidate::onReceivedStunMessage(const Socket::ReceivedData& data)
 
             mIceRttFilter.update(rtt);
 
-            if (errorCode == 0 && mIceAgent->verifyResponseMessage(&incomingMessage, mAnswer->getIcePassword())) {
+            if (errorCode == 0) {
                 if (mSentUseCandidate) {
                     // Keep-alive
                     LOG(SRTC_LOG_V, "STUN keep-alive response verification succeeded");
@@ -953,8 +958,6 @@ void PeerCandidate::onReceivedStunMessage(const Socket::ReceivedData& data)
 
                     mDtlsState = DtlsState::Activating;
                 }
-            } else {
-                LOG(SRTC_LOG_E, "STUN response verification failed, ignoring");
             }
         }
     }
-- 
2.43.0


From 64893a006887cebe69e24b2b0918f63145c275ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:02 +0000
Subject: [PATCH 72/89] fix: SDP offer: generating its text again changed the
 ssrc values in it

---
 include/srtc/sdp_offer.h |  2 ++
 src/sdp_offer.cpp        | 11 ++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/srtc/sdp_offer.h b/include/srtc/sdp_offer.h
index 9a655cc..697e173 100644
--- a/include/srtc/sdp_offer.h
+++ b/include/srtc/sdp_offer.h
@@ -135,6 +135,8 @@ private:
 
     const std::shared_ptr<X509Certificate> mCert;
 
+    std::string mGenerated;
+
     struct LayerGenerated {
         std::string name;
         uint32_t ssrc = 0;
diff --git a/src/sdp_offer.cpp b/src/sdp_offer.cpp
index 1ff2196..a1dfa6e 100644
--- a/src/sdp_offer.cpp
+++ b/src/sdp_offer.cpp
@@ -79,6 +79,13 @@ const SdpOffer::Config& SdpOffer::getConfig() const
 
 std::pair<std::string, Error> SdpOffer::generate()
 {
+    if (!mGenerated.empty()) {
+        // The ssrc values have been decided already
+        return { mGenerated, Error::OK };
+    }
+
+    mMediaLineGeneratedList.clear();
+
     const bool hasMedia = !mMediaLineList.empty();
     const bool hasData = !mConfig.data_channels.empty();
 
@@ -307,7 +314,9 @@ std::pair<std::string, Error> SdpOffer::generate()
         ss << "a=max-message-size:" << kSctpMaxMessageSize << std::endl;
     }
 
-    return { ss.str(), Error::OK };
+    mGenerated = ss.str();
+
+    return { mGenerated, Error::OK };
 }
 
 std::string SdpOffer::getIceUFrag() const
-- 
2.43.0


From e5a3fa6b12329dceeb6113af7c7c4152e586b41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:02 +0000
Subject: [PATCH 73/89] fix: SDP offer: many codecs were given payload ids
 above 127

---
 src/sdp_offer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sdp_offer.cpp b/src/sdp_offer.cpp
index a1dfa6e..9cdb961 100644
--- a/src/sdp_offer.cpp
+++ b/src/sdp_offer.cpp
@@ -143,6 +143,11 @@ std::pair<std::string, Error> SdpOffer::generate()
             }
         }
 
+        const auto payloadCount = codecList.size() * (mConfig.enable_rtx ? 2u : 1u);
+        if (payloadId + payloadCount > 128u) {
+            return { "", { Error::Code::InvalidData, "There are more codecs than dynamic payload ids" } };
+        }
+
         mMediaLineGeneratedList.emplace_back(mediaLine.id, mediaLine.mediaType);
         auto& mediaLineGenerated = mMediaLineGeneratedList.back();
         mediaLineGenerated.mediaType = mediaLine.mediaType;
-- 
2.43.0


From f1eab8a342b4252d55ebbec6d2d255d2cec0197e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:02 +0000
Subject: [PATCH 74/89] fix: offers: a media id or a layer name could be used
 twice

---
 src/peer_connection.cpp | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/peer_connection.cpp b/src/peer_connection.cpp
index 07c6185..794a6f5 100644
--- a/src/peer_connection.cpp
+++ b/src/peer_connection.cpp
@@ -52,6 +52,19 @@ srtc::Error validateMediaItem(const T& mediaItem)
     return srtc::Error::OK;
 }
 
+// Media ids have to be unique, because that's how the answer refers to them
+template <typename T>
+bool isMediaIdUsed(const srtc::DataChannelConfig& dataConfig,
+                   const std::vector<T>& mediaList,
+                   const std::string& mediaId)
+{
+    if (!dataConfig.data_channels.empty() && mediaId == "datachannel") {
+        return true;
+    }
+
+    return std::any_of(mediaList.begin(), mediaList.end(), [&mediaId](const T& it) { return it.id == mediaId; });
+}
+
 } // namespace
 
 namespace srtc
@@ -96,12 +109,15 @@ std::pair<std::shared_ptr<SdpOffer>, Error> PeerConnection::createPublishOffer(c
     std::vector<SdpOffer::MediaLine> media;
 
     for (const auto& pubMediaItem : mediaConfig.media_list) {
-        media.emplace_back();
-        auto& mediaLine = media.back();
-
         if (const auto error = validateMediaItem(pubMediaItem); error.isError()) {
             return { {}, error };
         }
+        if (isMediaIdUsed(pubConfig.data_channel_config, media, pubMediaItem.media_id)) {
+            return { {}, { Error::Code::InvalidData, "The media ids have to be unique" } };
+        }
+
+        media.emplace_back();
+        auto& mediaLine = media.back();
 
         mediaLine.id = pubMediaItem.media_id;
         mediaLine.mediaType = pubMediaItem.media_type;
@@ -111,6 +127,11 @@ std::pair<std::shared_ptr<SdpOffer>, Error> PeerConnection::createPublishOffer(c
         }
 
         for (const auto& layer : pubMediaItem.layer_list) {
+            if (std::any_of(mediaLine.layer_list.begin(), mediaLine.layer_list.end(), [&layer](const auto& it) {
+                    return it.name == layer.name;
+                })) {
+                return { {}, { Error::Code::InvalidData, "The layer names have to be unique" } };
+            }
             mediaLine.layer_list.emplace_back();
             auto& outLayer = mediaLine.layer_list.back();
             outLayer.name = layer.name;
@@ -142,12 +163,15 @@ std::pair<std::shared_ptr<SdpOffer>, Error> PeerConnection::createSubscribeOffer
     std::vector<SdpOffer::MediaLine> media;
 
     for (const auto& pubMediaItem : mediaConfig.media_list) {
-        media.emplace_back();
-        auto& mediaLine = media.back();
-
         if (const auto error = validateMediaItem(pubMediaItem); error.isError()) {
             return { {}, error };
         }
+        if (isMediaIdUsed(subConfig.data_channel_config, media, pubMediaItem.media_id)) {
+            return { {}, { Error::Code::InvalidData, "The media ids have to be unique" } };
+        }
+
+        media.emplace_back();
+        auto& mediaLine = media.back();
 
         mediaLine.id = pubMediaItem.media_id;
         mediaLine.mediaType = pubMediaItem.media_type;
-- 
2.43.0


From f38547875b9749349fb102b0fa2b3b706b587214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:50 +0000
Subject: [PATCH 75/89] fix: SDP answer: a simulcast media answered without
 layers was sent with ssrc 0

---
 src/sdp_offer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sdp_offer.cpp b/src/sdp_offer.cpp
index 9cdb961..abab46a 100644
--- a/src/sdp_offer.cpp
+++ b/src/sdp_offer.cpp
@@ -357,6 +357,11 @@ std::pair<uint32_t, uint32_t> SdpOffer::getMediaSSRC(const std::string& mediaId)
 {
     for (const auto& mediaItem : mMediaLineGeneratedList) {
         if (mediaItem.mediaId == mediaId) {
+            if (!mediaItem.layer.empty()) {
+                // Simulcast was offered, but is not going to be used
+                const auto& layerItem = mediaItem.layer.front();
+                return { layerItem.ssrc, layerItem.rtx };
+            }
             return { mediaItem.ssrc, mediaItem.rtx };
         }
     }
-- 
2.43.0


From 92f6981bc66fceab3773a04bbd990b542e5073e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:50 +0000
Subject: [PATCH 76/89] fix: SDP answer: media ids that are unknown or repeated
 were accepted

---
 src/sdp_answer.cpp | 10 ++++++++++
 src/sdp_offer.cpp  |  3 +--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index 36903e3..447a6b8 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -754,11 +754,21 @@ Error SdpAnswerParser::flush_m()
             return { Error::Code::InvalidData, "Media id cannot be empty" };
         }
 
+        if (std::any_of(mediaList.begin(), mediaList.end(), [this](const std::shared_ptr<Media>& media) {
+                return media->getId() == mediaState.mediaId;
+            })) {
+            return { Error::Code::InvalidData, "Media id cannot be used more than once" };
+        }
+
         if (direction == Direction::Publish) {
             const auto publishSSRC = offer->getMediaSSRC(mediaState.mediaId);
 
             mediaState.ssrc = publishSSRC.first;
             mediaState.rtxSsrc = publishSSRC.second;
+
+            if (mediaState.ssrc == 0) {
+                return { Error::Code::InvalidData, "Media id is not one of those offered" };
+            }
         }
 
         // Create media and track
diff --git a/src/sdp_offer.cpp b/src/sdp_offer.cpp
index abab46a..c8e393e 100644
--- a/src/sdp_offer.cpp
+++ b/src/sdp_offer.cpp
@@ -366,8 +366,7 @@ std::pair<uint32_t, uint32_t> SdpOffer::getMediaSSRC(const std::string& mediaId)
         }
     }
 
-    // We should not get here
-    assert(false);
+    // The id comes from the answer and can be anything
     return {};
 }
 
-- 
2.43.0


From fe91d1e36783a921f542491700ee445d4e95d06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:50 +0000
Subject: [PATCH 77/89] fix: SDP answer: simulcast layers depended on the order
 of lines and could be repeated

---
 src/sdp_answer.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index 447a6b8..d8105d0 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -171,6 +171,7 @@ struct ParseMediaState {
     std::string mediaId;
     srtc::ExtensionMap extensionMap;
     std::vector<std::string> ridList;
+    std::vector<std::string> simulcastRidList;
     std::vector<srtc::Track::SimulcastLayer> layerList;
 
     size_t payloadStateSize = { 0u };
@@ -204,6 +205,7 @@ void ParseMediaState::clear()
     mediaId.clear();
     extensionMap.clear();
     ridList.clear();
+    simulcastRidList.clear();
     layerList.clear();
     payloadStateSize = 0;
     payloadStateList.reset();
@@ -215,6 +217,12 @@ void ParseMediaState::clear()
 void ParseMediaState::addSimulcastLayer(const std::vector<srtc::SimulcastLayer>& offerLayerList,
                                         const std::string& ridName)
 {
+    if (std::any_of(layerList.begin(), layerList.end(), [&ridName](const srtc::Track::SimulcastLayer& layer) {
+            return layer.name == ridName;
+        })) {
+        return;
+    }
+
     for (size_t i = 0; i < offerLayerList.size(); i += 1) {
         const auto& layer = offerLayerList[i];
         if (layer.name == ridName) {
@@ -662,13 +670,8 @@ Error SdpAnswerParser::parseLine_a(const std::string& key,
         // a=simulcast recv low;mid;hi
         if (isInMediaSection && mediaState.mediaType.value() == MediaType::Video) {
             if (value == "recv" && props.size() == 1) {
-                const auto offerLayerList = offer->getVideoSimulcastLayerList(mediaState.mediaId);
-                if (offerLayerList.has_value() && !offerLayerList->empty()) {
-                    const auto ridList = split_list(props[0]);
-                    for (const auto& ridName : ridList) {
-                        mediaState.addSimulcastLayer(offerLayerList.value(), ridName);
-                    }
-                }
+                // Looked up when the media id is known
+                mediaState.simulcastRidList = split_list(props[0]);
             }
         }
     } else if (key == "candidate") {
@@ -771,6 +774,16 @@ Error SdpAnswerParser::flush_m()
             }
         }
 
+        // Simulcast layers
+        if (direction == Direction::Publish && !mediaState.simulcastRidList.empty()) {
+            const auto offerLayerList = offer->getVideoSimulcastLayerList(mediaState.mediaId);
+            if (offerLayerList.has_value()) {
+                for (const auto& ridName : mediaState.simulcastRidList) {
+                    mediaState.addSimulcastLayer(offerLayerList.value(), ridName);
+                }
+            }
+        }
+
         // Create media and track
         const auto media = mediaState.createMedia();
 
-- 
2.43.0


From f51551ec243582e0f366da4b62faf9cbbbb47cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:50 +0000
Subject: [PATCH 78/89] fix: SDP answer: feedback of type "nack pli" was taken
 for "nack" too

---
 src/sdp_answer.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index d8105d0..5282770 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -649,13 +649,10 @@ Error SdpAnswerParser::parseLine_a(const std::string& key,
             const auto payloadIdValue = static_cast<uint8_t>(payloadId.value());
             const auto payloadState = mediaState.getPayloadState(payloadIdValue);
             if (payloadState) {
-                for (size_t i = 0u; i < props.size(); i += 1) {
-                    const auto& token = props[i];
-                    if (token == "nack") {
-                        payloadState->hasNack = true;
-                    } else if (token == "pli") {
-                        payloadState->hasPli = true;
-                    }
+                if (props.size() == 1 && props[0] == "nack") {
+                    payloadState->hasNack = true;
+                } else if (props.size() == 2 && props[0] == "nack" && props[1] == "pli") {
+                    payloadState->hasPli = true;
                 }
             }
         }
-- 
2.43.0


From 8ce3feca758ef333f5889fb5e2a5096dfeaaf173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:50 +0000
Subject: [PATCH 79/89] fix: SDP answer: rejected media sections were taken for
 accepted ones

---
 src/sdp_answer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index 5282770..aceff0a 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -486,6 +486,11 @@ Error SdpAnswerParser::parseLine_m(const std::string& key,
     isInApplicationSection = false;
     isInMediaSection = false;
 
+    // "m=video 0 UDP/TLS/RTP/SAVPF 96" - rejected, https://datatracker.ietf.org/doc/html/rfc3264#section-6
+    if (!props.empty() && props[0] == "0") {
+        return Error::OK;
+    }
+
     // "m=application 9 UDP/DTLS/SCTP webrtc-datachannel"
     if (key == "application") {
         if (props.size() >= 2 && props[1] == "UDP/DTLS/SCTP") {
-- 
2.43.0


From 02ce8500559d6039984e4a1f15b02b5d6471cafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:50 +0000
Subject: [PATCH 80/89] fix: SDP answer: numbers that are empty, negative or
 out of range were accepted

---
 src/sdp_answer.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index aceff0a..80f8ce9 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -8,6 +8,9 @@
 #include "srtc/x509_hash.h"
 
 #include <algorithm>
+#include <cctype>
+#include <cstdlib>
+#include <limits>
 #include <sstream>
 #include <unordered_map>
 #include <vector>
@@ -101,9 +104,14 @@ void parse_map(const std::string& line, std::unordered_map<std::string, std::str
 
 std::optional<uint32_t> parse_u32(const std::string& s, int radix = 10)
 {
+    // No spaces or signs
+    if (s.empty() || !std::isxdigit(static_cast<unsigned char>(s[0]))) {
+        return {};
+    }
+
     char* endptr = nullptr;
-    const auto l = std::strtoul(s.c_str(), &endptr, radix);
-    if (endptr == s.c_str() + s.size()) {
+    const auto l = std::strtoull(s.c_str(), &endptr, radix);
+    if (endptr == s.c_str() + s.size() && l <= std::numeric_limits<uint32_t>::max()) {
         return static_cast<uint32_t>(l);
     }
     return {};
@@ -680,7 +688,7 @@ Error SdpAnswerParser::parseLine_a(const std::string& key,
         // a=candidate:182981660 1 udp 2130706431 99.181.107.72 443 typ host
         if (props.size() >= 7) {
             if (props[0] == "1" && props[1] == "udp" && props[5] == "typ" && props[6] == "host") {
-                if (const auto port = parse_u32(props[4]); port.has_value() && port > 0u && port <= 65536u) {
+                if (const auto port = parse_u32(props[4]); port.has_value() && port > 0u && port <= 65535u) {
                     Host host{};
 
                     const auto& addrStr = props[3];
-- 
2.43.0


From caa0b70d647ea74296e9082f8b32ee094adb6a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:50 +0000
Subject: [PATCH 81/89] fix: SDP answer: a track selector that selects nothing
 was not an error

---
 src/sdp_answer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index 80f8ce9..9ccaad8 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -323,7 +323,7 @@ std::shared_ptr<srtc::Track> ParseMediaState::selectTrack(srtc::Direction direct
     }
 
     const auto selected = selector == nullptr ? list[0] : selector->selectTrack(list);
-    assert(selected != nullptr);
+    // If nothing is selected, the caller reports an error
     return selected;
 }
 
-- 
2.43.0


From 9c7a7d4aeec351ac11720144e2a2ed1534e1209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:10 +0000
Subject: [PATCH 82/89] fix: round trips measured by reports were reported as
 twice as long

---
 src/receiver_reference_time_reports_history.cpp | 4 ++--
 src/sender_reports_history.cpp                  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/receiver_reference_time_reports_history.cpp b/src/receiver_reference_time_reports_history.cpp
index e0c757b..227f372 100644
--- a/src/receiver_reference_time_reports_history.cpp
+++ b/src/receiver_reference_time_reports_history.cpp
@@ -43,8 +43,8 @@ std::optional<float> ReceiverReferenceTimeReportsHistory::calculateRtt(uint32_t
                 trackItem.reportList.erase(iter);
 
                 if (now >= received) {
-                    // The 2 is so we get the actual back-and-forth (roundtrip) value
-                    return 2 * 1 / 1000.0f *
+                    // The time since we sent the report, less what the peer held it for, is the roundtrip
+                    return 1 / 1000.0f *
                            static_cast<float>(
                                std::chrono::duration_cast<std::chrono::microseconds>(now - received).count());
                 }
diff --git a/src/sender_reports_history.cpp b/src/sender_reports_history.cpp
index fa784b6..59f1702 100644
--- a/src/sender_reports_history.cpp
+++ b/src/sender_reports_history.cpp
@@ -41,8 +41,8 @@ std::optional<float> SenderReportsHistory::calculateRtt(uint32_t ssrc, uint32_t
                 trackItem.reportList.erase(iter);
 
                 if (now >= received) {
-                    // The 2 is so we get the actual back-and-forth (roundtrip) value
-                    return 2 * 1 / 1000.0f *
+                    // The time since we sent the report, less what the peer held it for, is the roundtrip
+                    return 1 / 1000.0f *
                            static_cast<float>(
                                std::chrono::duration_cast<std::chrono::microseconds>(now - received).count());
                 }
-- 
2.43.0


From ec6643df6287bdfb60a247214fb8a02ccc9f3ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:10 +0000
Subject: [PATCH 83/89] fix: receiver reports gave the last sequence number,
 also of retransmissions, for the highest

---
 include/srtc/track_stats.h |  3 ++-
 src/peer_connection.cpp    |  7 +++++--
 src/track_stats.cpp        | 11 +++++------
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/srtc/track_stats.h b/include/srtc/track_stats.h
index 24f8c1e..55582ff 100644
--- a/include/srtc/track_stats.h
+++ b/include/srtc/track_stats.h
@@ -53,7 +53,8 @@ private:
     std::atomic<size_t> mReceivedPacketsLost;
 
     mutable std::mutex mMutex;
-	ExtendedValue<uint16_t> mReceivedHighestSeq;
+	ExtendedValue<uint16_t> mReceivedSeq;
+	std::optional<uint64_t> mReceivedHighestSeqEx;
 	std::optional<SenderReport> mReceivedSenderReport;
 };
 
diff --git a/src/peer_connection.cpp b/src/peer_connection.cpp
index 794a6f5..cb834e0 100644
--- a/src/peer_connection.cpp
+++ b/src/peer_connection.cpp
@@ -1005,8 +1005,11 @@ void PeerConnection::onCandidateReceivedMediaPacket([[maybe_unused]] PeerCandida
     if (mDirection == Direction::Subscribe) {
         const auto track = packet->getTrack();
 
-        const auto stats = track->getStats();
-        stats->setHighestReceivedSeq(packet->getSequence());
+        if (packet->getSSRC() == track->getSSRC()) {
+            // The retransmissions have numbers of their own
+            const auto stats = track->getStats();
+            stats->setHighestReceivedSeq(packet->getSequence());
+        }
 
         for (const auto& trackEntry : mTrackEntryList) {
             if (trackEntry.track == track) {
diff --git a/src/track_stats.cpp b/src/track_stats.cpp
index 0fdb84c..b88a098 100644
--- a/src/track_stats.cpp
+++ b/src/track_stats.cpp
@@ -80,17 +80,16 @@ size_t TrackStats::getReceivedPacketsLost() const
 void TrackStats::setHighestReceivedSeq(uint16_t seq)
 {
     std::lock_guard lock(mMutex);
-    (void)mReceivedHighestSeq.extend(seq);
+    const auto value = mReceivedSeq.extend(seq);
+    if (!mReceivedHighestSeqEx.has_value() || mReceivedHighestSeqEx.value() < value) {
+        mReceivedHighestSeqEx = value;
+    }
 }
 
 uint64_t TrackStats::getReceivedHighestSeqEx() const
 {
     std::lock_guard lock(mMutex);
-    const auto value = mReceivedHighestSeq.get();
-    if (value.has_value()) {
-        return value.value();
-    }
-    return 0;
+    return mReceivedHighestSeqEx.value_or(0);
 }
 
 void TrackStats::incrementReceivedFrames(size_t increment)
-- 
2.43.0


From ac31b82102b1e401e5156258f1d07a1c5e7f4847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:24 +0000
Subject: [PATCH 84/89] fix: an RTCP packet of length 0 made a buffer of size
 -4

---
 src/rtcp_packet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rtcp_packet.cpp b/src/rtcp_packet.cpp
index c2d8ba8..db00284 100644
--- a/src/rtcp_packet.cpp
+++ b/src/rtcp_packet.cpp
@@ -84,6 +84,12 @@ std::list<std::shared_ptr<RtcpPacket>> RtcpPacket::fromUdpPacket(const srtc::Byt
 			break;
 		}
 
+		if (len < 8) {
+			// There is not even an SSRC, nothing that we could use
+			ptr += len;
+			continue;
+		}
+
 		// Payload
 		ByteBuffer payload(ptr + 8, len - 8);
 
-- 
2.43.0


From 1f420afca768f159fd5ad661823aba09cdacebb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:24 +0000
Subject: [PATCH 85/89] fix: a sequence number given twice to compressNackList
 was shifted out of range

---
 src/util.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index 9c36a87..85cff3f 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -189,8 +189,10 @@ size_t compressNackList(const std::vector<uint16_t>& nackList, uint16_t* buf_seq
         in_pos += 1;
 
         while (in_pos < in_end && static_cast<uint16_t>(nackList[in_pos] - seq) <= 16) {
-            const auto shift = static_cast<uint16_t>(nackList[in_pos] - seq - 1);
-            buf_blp[out_pos] |= 1u << shift;
+            const auto diff = static_cast<uint16_t>(nackList[in_pos] - seq);
+            if (diff > 0) {
+                buf_blp[out_pos] |= 1u << (diff - 1);
+            }
             in_pos += 1;
         }
 
-- 
2.43.0


From 0a8cb79013b077f7be4f7fdb89f15b40fbb3ef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:34 +0000
Subject: [PATCH 86/89] fix: extend wrapped counters to the nearest value

---
 src/extended_value.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/extended_value.cpp b/src/extended_value.cpp
index 9ae20d8..e8c1b98 100644
--- a/src/extended_value.cpp
+++ b/src/extended_value.cpp
@@ -23,18 +23,17 @@ uint64_t ExtendedValue<T>::extend(T src)
         return mRolloverValue | src;
     }
 
-    // Decide what we're going to do
-    constexpr auto margin = std::numeric_limits<T>::max() / 4;
-    constexpr auto max = std::numeric_limits<T>::max();
+    // Decide what we're going to do: the nearest to the last value is the right one
+    constexpr auto half = std::numeric_limits<T>::max() / 2;
 
-    if (mLastValue.value() >= max - margin && src <= margin) {
+    if (mLastValue.value() > src && mLastValue.value() - src > half) {
         // Rollover
         mRolloverValue += mRolloverIncrement;
         mLastValue = src;
         return mRolloverValue | src;
     }
 
-    if (mLastValue.value() <= margin && src >= max - margin) {
+    if (mLastValue.value() < src && src - mLastValue.value() > half) {
         // The new value goes backwards across a rollover
         mRolloverValue -= mRolloverIncrement;
         mLastValue = src;
-- 
2.43.0


From bf46345264b4de3feb8f3e5df4504e21c72fada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:29 +0000
Subject: [PATCH 87/89] fix: jitter buffer: a late frame waited for lost
 packets ahead of it until after its own deadline

---
 src/jitter_buffer.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index 551a1c4..893c453 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -288,6 +288,16 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
         const auto index = seq_ext & mCapacityMask;
         item = mItemList[index];
         assert(item);
+
+        // This one should not have to wait for lost packets which precede it
+        for (auto seq_lost = seq_ext; seq_lost > mMinSeq; seq_lost -= 1) {
+            const auto item_lost = mItemList[(seq_lost - 1) & mCapacityMask];
+            assert(item_lost);
+            if (item_lost->received) {
+                break;
+            }
+            item_lost->when_nack_abandon = std::min(item_lost->when_nack_abandon, when_nack_abandon);
+        }
     }
 
     item->when_received = now;
-- 
2.43.0


From 226ba62e18edb0c8754261d68e01b18d846c5d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:19 +0000
Subject: [PATCH 88/89] Revert "fix: extend wrapped counters to the nearest
 value"

This reverts commit 0a8cb79013b077f7be4f7fdb89f15b40fbb3ef2a.
---
 src/extended_value.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/extended_value.cpp b/src/extended_value.cpp
index e8c1b98..9ae20d8 100644
--- a/src/extended_value.cpp
+++ b/src/extended_value.cpp
@@ -23,17 +23,18 @@ uint64_t ExtendedValue<T>::extend(T src)
         return mRolloverValue | src;
     }
 
-    // Decide what we're going to do: the nearest to the last value is the right one
-    constexpr auto half = std::numeric_limits<T>::max() / 2;
+    // Decide what we're going to do
+    constexpr auto margin = std::numeric_limits<T>::max() / 4;
+    constexpr auto max = std::numeric_limits<T>::max();
 
-    if (mLastValue.value() > src && mLastValue.value() - src > half) {
+    if (mLastValue.value() >= max - margin && src <= margin) {
         // Rollover
         mRolloverValue += mRolloverIncrement;
         mLastValue = src;
         return mRolloverValue | src;
     }
 
-    if (mLastValue.value() < src && src - mLastValue.value() > half) {
+    if (mLastValue.value() <= margin && src >= max - margin) {
         // The new value goes backwards across a rollover
         mRolloverValue -= mRolloverIncrement;
         mLastValue = src;
-- 
2.43.0


From 419d35900418fb70c2775efe4f6b3727ca16580f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:35 +0000
Subject: [PATCH 89/89] fix: jitter buffer: extend sequence numbers and time
 stamps to the nearest value after long pauses and outages

---
 include/srtc/extended_value.h |  1 +
 src/extended_value.cpp        | 15 +++++++++++++++
 src/jitter_buffer.cpp         |  4 ++--
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/srtc/extended_value.h b/include/srtc/extended_value.h
index 6b31edf..20a7aba 100644
--- a/include/srtc/extended_value.h
+++ b/include/srtc/extended_value.h
@@ -15,6 +15,7 @@ public:
     ExtendedValue();
 
     uint64_t extend(T src);
+    uint64_t extendNearest(T src);
     [[nodiscard]] std::optional<uint64_t> get() const;
 
 private:
diff --git a/src/extended_value.cpp b/src/extended_value.cpp
index 9ae20d8..f1cf952 100644
--- a/src/extended_value.cpp
+++ b/src/extended_value.cpp
@@ -1,6 +1,7 @@
 #include "srtc/extended_value.h"
 
 #include <limits>
+#include <type_traits>
 
 namespace srtc
 {
@@ -45,6 +46,20 @@ uint64_t ExtendedValue<T>::extend(T src)
     return mRolloverValue | src;
 }
 
+template <typename T>
+uint64_t ExtendedValue<T>::extendNearest(T src)
+{
+    if (mLastValue.has_value()) {
+        // Whichever is the nearest to the last value, a pause or an outage can be long
+        const auto last = mRolloverValue | mLastValue.value();
+        const auto delta = static_cast<std::make_signed_t<T>>(static_cast<T>(src - mLastValue.value()));
+        mRolloverValue = last + static_cast<int64_t>(delta) - src;
+    }
+
+    mLastValue = src;
+    return mRolloverValue | src;
+}
+
 template <typename T>
 std::optional<uint64_t> ExtendedValue<T>::get() const
 {
diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index 893c453..2f781a0 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -102,8 +102,8 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
     }
 
     // Extend
-    const auto seq_ext = mExtValueSeq.extend(seq);
-    const auto rtp_timestamp_ext = mExtValueRtpTimestamp.extend(packet->getTimestamp());
+    const auto seq_ext = mExtValueSeq.extendNearest(seq);
+    const auto rtp_timestamp_ext = mExtValueRtpTimestamp.extendNearest(packet->getTimestamp());
 
     // Is this packet too late?
     if (mLastFrameTimeStamp.has_value() && mLastFrameTimeStamp.value() > rtp_timestamp_ext) {
-- 
2.43.0

