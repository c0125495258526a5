From 0d95499cfc188876a4a52a3e597ba5676295f82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:28 +0000
Subject: [PATCH 01/21] fix: IndexSet::indicesDo terminates when a range ends
 at UINTMAX_MAX

---
 src/IndexSet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/IndexSet.cpp b/src/IndexSet.cpp
index 07a87cc..aec883a 100644
--- a/src/IndexSet.cpp
+++ b/src/IndexSet.cpp
@@ -152,10 +152,12 @@ bool IndexSet::extentsDo(const std::function<bool(uintmax_t fromIndex, uintmax_t
 bool IndexSet::indicesDo(const std::function<bool(uintmax_t eachIndex)> &each_f) const
 {
 	return extentsDo([&] (uintmax_t fromIndex, uintmax_t toIndex) {
-		for(uintmax_t eachIndex = fromIndex; eachIndex <= toIndex; eachIndex++)
+		for(uintmax_t eachIndex = fromIndex; ; eachIndex++)
 		{
 			if(not each_f(eachIndex))
 				return false;
+			if(eachIndex == toIndex) // toIndex might be UINTMAX_MAX
+				break;
 		}
 		return true;
 	});
-- 
2.43.0


From 49279ccc314663713613e180eefa5f718c5483d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:10 +0000
Subject: [PATCH 02/21] fix: TimerList::clear detaches and cancels the timers
 it drops

---
 src/Timer.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/Timer.cpp b/src/Timer.cpp
index 0a2d79a..1ed06d7 100644
--- a/src/Timer.cpp
+++ b/src/Timer.cpp
@@ -158,15 +158,7 @@ TimerList::TimerList() : m_running(false)
 
 TimerList::~TimerList()
 {
-	// cancel all timers in the list to clear potential circular references
-	while(not m_timers.empty())
-	{
-		auto it = m_timers.begin();
-		auto each = *it;
-		each->setTimerList(nullptr);
-		each->cancel();
-		m_timers.erase(it);
-	}
+	clear();
 }
 
 std::shared_ptr<Timer> TimerList::schedule(Time when, Duration recurInterval, bool catchup)
@@ -244,7 +236,15 @@ void TimerList::removeTimer(const std::shared_ptr<Timer> &timer)
 
 void TimerList::clear()
 {
-	m_timers.clear();
+	// cancel all timers in the list to clear potential circular references
+	while(not m_timers.empty())
+	{
+		auto it = m_timers.begin();
+		auto each = *it;
+		each->setTimerList(nullptr);
+		each->cancel();
+		m_timers.erase(it);
+	}
 }
 
 } } // namespace com::zenomt
-- 
2.43.0


From 014f44a976a16b4928dc9238509d37feb883e4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:40 +0000
Subject: [PATCH 03/21] fix: ReorderBuffer initializes m_highestSeen

---
 src/ReorderBuffer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ReorderBuffer.cpp b/src/ReorderBuffer.cpp
index 591f309..9e79aa5 100644
--- a/src/ReorderBuffer.cpp
+++ b/src/ReorderBuffer.cpp
@@ -21,7 +21,8 @@ ReorderBuffer::Message::Message(const uint8_t *payload, size_t len, uintmax_t se
 
 ReorderBuffer::ReorderBuffer(Duration windowPeriod) :
 	m_csn(0),
-	m_deliveredThrough(0)
+	m_deliveredThrough(0),
+	m_highestSeen(0)
 {
 	m_reorderPeriod = std::max(windowPeriod, Duration(0));
 }
-- 
2.43.0


From 957b0a4a2bc314a5db3265c4ac56c542ff9bb195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:56 +0000
Subject: [PATCH 04/21] fix: ReorderBuffer may be closed from onMessage while
 delivering held messages

---
 src/ReorderBuffer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ReorderBuffer.cpp b/src/ReorderBuffer.cpp
index 9e79aa5..c4fc855 100644
--- a/src/ReorderBuffer.cpp
+++ b/src/ReorderBuffer.cpp
@@ -130,9 +130,9 @@ void ReorderBuffer::tryDeliver()
 		auto it = m_messagesBySequence.begin();
 		if(shouldDeliverNow(it->first))
 		{
-			auto &message_ptr = it->second;
+			auto message_ptr = it->second;
+			m_messagesBySequence.erase(it); // before delivery, onMessage might call close()
 			deliverMessage(message_ptr->m_payload.data(), message_ptr->m_payload.size(), message_ptr->m_sequenceNumber, message_ptr->m_fragmentCount);
-			m_messagesBySequence.erase(it);
 		}
 		else
 			break;
-- 
2.43.0


From 68b0530595e6844a66778b5da833569d3fa0d475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:50 +0000
Subject: [PATCH 05/21] fix: RecvFlow: only join fragments that continue one
 message

A fragment was linked to a preceding END or WHOLE fragment, or to a following
BEGIN or WHOLE one. With framing that contradicts itself the links then named
buffer entries that were already delivered, and List::at threw.
---
 src/RecvFlow.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/RecvFlow.cpp b/src/RecvFlow.cpp
index db091f0..4a4db38 100644
--- a/src/RecvFlow.cpp
+++ b/src/RecvFlow.cpp
@@ -299,14 +299,18 @@ long RecvFlow::insertFragment(uintmax_t sequenceNumber, uint8_t flags, const uin
 	if((USERDATA_FRA_BEGIN != fra) and ((prevName = m_recv_buffer.prev(name)) > 0))
 	{
 		auto prevFragment = m_recv_buffer.at(prevName);
-		if(prevFragment->m_sequence_number == sequenceNumber - 1)
+		if(  (prevFragment->m_sequence_number == sequenceNumber - 1)
+		 and ((USERDATA_FRA_BEGIN == prevFragment->m_fra) or (USERDATA_FRA_MIDDLE == prevFragment->m_fra))
+		)
 			fragment->m_segmentStart = prevFragment->m_segmentStart;
 	}
 
 	if((USERDATA_FRA_END != fra) and ((nextName = m_recv_buffer.next(name)) > 0))
 	{
 		auto nextFragment = m_recv_buffer.at(nextName);
-		if(nextFragment->m_sequence_number == sequenceNumber + 1)
+		if(  (nextFragment->m_sequence_number == sequenceNumber + 1)
+		 and ((USERDATA_FRA_MIDDLE == nextFragment->m_fra) or (USERDATA_FRA_END == nextFragment->m_fra))
+		)
 			fragment->m_segmentEnd = nextFragment->m_segmentEnd;
 	}
 
-- 
2.43.0


From c92b851ca7abebf7e97a9e1c2358d5d31f597c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:10 +0000
Subject: [PATCH 06/21] fix: SendFlow keeps a given-up fragment until something
 can tell the receiver to skip it

---
 src/SendFlow.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index cbc86aa..9ce854b 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -344,7 +344,8 @@ void SendFlow::trimSendQueue(Time now)
 	bool anyTrimmed = false;
 	while(true)
 	{
-		if(m_send_queue.size() < 2)
+		// only trim if something that isn't already on its way will tell the receiver to skip this.
+		if((m_send_queue.size() < 2) or m_send_queue.lastValue()->m_in_flight)
 			break;
 		auto &first = m_send_queue.firstValue();
 		if(first->m_in_flight)
-- 
2.43.0


From 11c068ef9c34f60d6ce8c39fae5dfd08b9646b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:09 +0000
Subject: [PATCH 07/21] fix: receipt callbacks may close the flow or session
 they belong to

SendFlow kept references into its send queue, and Session references to its
flows, across receipt and exception callbacks; closing the session from one
(or having dropped the last reference to the flow) used freed memory. Closing
the flow from the expiry callback of its last message lost the FIN.
---
 src/SendFlow.cpp     | 26 +++++++++++++++-----------
 src/Session.cpp      | 14 ++++++++++----
 src/WriteReceipt.cpp | 14 ++++++++------
 3 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index 9ce854b..dbcce76 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -347,14 +347,14 @@ void SendFlow::trimSendQueue(Time now)
 		// only trim if something that isn't already on its way will tell the receiver to skip this.
 		if((m_send_queue.size() < 2) or m_send_queue.lastValue()->m_in_flight)
 			break;
-		auto &first = m_send_queue.firstValue();
+		auto first = m_send_queue.firstValue(); // copy, receipt callbacks can change the queue
 		if(first->m_in_flight)
 			break;
 		first->m_receipt->abandonIfNeeded(now);
-		if(not first->m_receipt->isAbandoned())
+		if((not first->m_receipt->isAbandoned()) or m_send_queue.empty())
 			break;
-		first->m_receipt->useCountDown();
 		m_send_queue.removeFirst();
+		first->m_receipt->useCountDown();
 		anyTrimmed = true;
 	}
 
@@ -377,7 +377,7 @@ void SendFlow::scheduleTrimSendQueue()
 
 uintmax_t SendFlow::findForwardSequenceNumber(Time now)
 {
-	auto &first = m_send_queue.firstValue();
+	auto first = m_send_queue.firstValue(); // copy, receipt callbacks can change the queue
 
 	if(not first->m_in_flight)
 		first->m_receipt->abandonIfNeeded(now);
@@ -399,6 +399,8 @@ bool SendFlow::assembleData(PacketAssembler *packet, int pri)
 
 	Time now = m_rtmfp->getCurrentTime();
 	trimSendQueue(now);
+	if(m_send_queue.empty())
+		return false; // a receipt callback closed the session
 	uintmax_t fsn = findForwardSequenceNumber(now);
 	bool firstChunk = true;
 	uintmax_t previousSN = 0;
@@ -429,15 +431,17 @@ bool SendFlow::assembleData(PacketAssembler *packet, int pri)
 		if(m_outstanding_bytes >= m_rx_buffer_size)
 			break;
 
-		auto &frag = m_send_queue.at(name);
+		auto frag = m_send_queue.at(name); // copy, receipt callbacks can change the queue
 		if(frag->m_in_flight)
 			continue;
 
-		uint8_t flag_fin = frag->m_sequence_number == m_final_sn ? USERDATA_FLAG_FIN : 0;
-
 		if(frag->m_ever_sent and not frag->m_receipt->retransmit)
 			frag->m_receipt->abandon();
 		frag->m_receipt->abandonIfNeeded(now);
+		if(not m_send_queue.has(name))
+			return false; // a receipt callback closed the session
+
+		uint8_t flag_fin = frag->m_sequence_number == m_final_sn ? USERDATA_FLAG_FIN : 0; // a receipt callback might have closed us
 		uint8_t flag_abn = frag->m_receipt->isAbandoned() ? USERDATA_FLAG_ABN : 0;
 
 		// departure from §3.6.2.3: we send a fragment even if abandoned (though with
@@ -518,7 +522,7 @@ void SendFlow::ackRange(long &name, uintmax_t ackFrom, uintmax_t ackTo)
 	{
 		long next = m_send_queue.next(name);
 
-		auto &frag = m_send_queue.at(name);
+		auto frag = m_send_queue.at(name); // copy, receipt callbacks can change the queue
 
 		if(frag->m_sequence_number < ackFrom)
 		{
@@ -537,11 +541,11 @@ void SendFlow::ackRange(long &name, uintmax_t ackFrom, uintmax_t ackTo)
 			m_outstanding_bytes -= frag->m_transmit_size;
 		}
 
-		frag->m_receipt->useCountDown();
-
 		m_send_queue.remove(name);
 
-		name = next;
+		frag->m_receipt->useCountDown();
+
+		name = m_send_queue.has(next) ? next : m_send_queue.SENTINEL; // a receipt callback might have closed the session
 	}
 }
 
diff --git a/src/Session.cpp b/src/Session.cpp
index f2a7e56..87f8ccb 100644
--- a/src/Session.cpp
+++ b/src/Session.cpp
@@ -512,7 +512,8 @@ void Session::abortFlowsAndTimers()
 	while(not m_sendFlows.empty())
 	{
 		long firstName = m_sendFlows.first();
-		m_sendFlows.at(firstName)->onSessionDidClose(myself); // should unbind, removing itself from m_sendFlows
+		auto flow = m_sendFlows.at(firstName);
+		flow->onSessionDidClose(myself); // should unbind, removing itself from m_sendFlows
 		assert(not m_sendFlows.has(firstName));
 	}
 	m_outstandingFrags.clear(); // safe since all SendFlow queues are empty
@@ -1507,7 +1508,8 @@ bool Session::onInterfaceWritable(int interfaceID, int priority)
 			List<std::shared_ptr<SendFlow> > &flows = m_readyFlows[priority];
 			while(not flows.empty())
 			{
-				if(flows.firstValue()->assembleData(&packet, priority))
+				auto flow = flows.firstValue();
+				if(flow->assembleData(&packet, priority))
 				{
 					flows.moveNameToTail(flows.first());
 					m_next_tsn++;
@@ -1990,7 +1992,10 @@ void Session::onExceptionChunk(uint8_t mode, uint8_t chunkType, const uint8_t *c
 		return;
 
 	if(m_sendFlows.has((long)flowID))
-		m_sendFlows.at((long)flowID)->onExceptionReport(exceptionCode);
+	{
+		auto flow = m_sendFlows.at((long)flowID);
+		flow->onExceptionReport(exceptionCode);
+	}
 }
 
 void Session::onPingChunk(uint8_t mode, uint8_t chunkType, const uint8_t *chunk, const uint8_t *limit, int interfaceID, const struct sockaddr *addr)
@@ -2059,7 +2064,8 @@ void Session::onAckChunk(uint8_t mode, uint8_t chunkType, const uint8_t *chunk,
 		else
 			bufferBytesAvailable = bufferBlocksAvailable * 1024;
 
-		m_sendFlows.at((long)flowID)->onAck(chunkType, bufferBytesAvailable, cumulativeAck, cursor, limit);
+		auto flow = m_sendFlows.at((long)flowID);
+		flow->onAck(chunkType, bufferBytesAvailable, cumulativeAck, cursor, limit);
 		m_any_acks = true;
 		m_keepalive_outstanding = false;
 		m_retransmit_deadline_epoch = INFINITY;
diff --git a/src/WriteReceipt.cpp b/src/WriteReceipt.cpp
index 1eb61d9..2ec1703 100644
--- a/src/WriteReceipt.cpp
+++ b/src/WriteReceipt.cpp
@@ -24,9 +24,10 @@ void WriteReceipt::abandon()
 	{
 		m_abandoned = true;
 		parent.reset();
-		if(onFinished)
-			onFinished(true);
-		onFinished = nullptr;
+		std::function<void(bool wasAbandoned)> finished_f;
+		swap(finished_f, onFinished);
+		if(finished_f)
+			finished_f(true); // note: this could delete us
 	}
 }
 
@@ -89,9 +90,10 @@ void IssuerWriteReceipt::useCountDown()
 	if(0 == --m_useCount)
 	{
 		parent.reset();
-		if(onFinished)
-			onFinished(false);
-		onFinished = nullptr;
+		std::function<void(bool wasAbandoned)> finished_f;
+		swap(finished_f, onFinished);
+		if(finished_f)
+			finished_f(false); // note: this could delete us
 	}
 }
 
-- 
2.43.0


From 497f682361be36aac02a45986219fbf3be62129e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:23 +0000
Subject: [PATCH 08/21] fix: only move a waiting flow to an opening session its
 endpoint selects

---
 src/SendFlow.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index dbcce76..7fe7a27 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -290,6 +290,7 @@ void SendFlow::onSessionWillOpen(std::shared_ptr<Session> session)
 	if(  (m_openingSession)
 	 and (session != m_openingSession)
 	 and (Session::S_IHELLO_SENT == m_openingSession->m_state)
+	 and (session->m_cryptoCert) and (session->m_cryptoCert->isSelectedByEPD(m_epd.data(), m_epd.size()))
 	)
 	{
 		std::shared_ptr<Session> previousSession = m_openingSession;
-- 
2.43.0


From f51f9920db3e366be97a76a8695c6449e5c6b98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:48 +0000
Subject: [PATCH 09/21] fix: do not sign-extend the count of a flow
 synchronization marker

---
 src/FlowSyncManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FlowSyncManager.cpp b/src/FlowSyncManager.cpp
index 0d8c2e0..b9a165b 100644
--- a/src/FlowSyncManager.cpp
+++ b/src/FlowSyncManager.cpp
@@ -90,7 +90,7 @@ size_t FlowSyncManager::parseUserCommandPayload(const uint8_t *payload, const ui
 		return 0;
 
 	syncID = (payload[0] << 24) | (payload[1] << 16) | (payload[2] << 8) | payload[3];
-	count = (payload[4] << 24) | (payload[5] << 16) | (payload[6] << 8) | payload[7];
+	count = uint32_t((payload[4] << 24) | (payload[5] << 16) | (payload[6] << 8) | payload[7]);
 
 	return 8;
 }
-- 
2.43.0


From 5228b771f59ce5e0775757069cbb13b3cd0d7bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:10 +0000
Subject: [PATCH 10/21] fix: RTMFPTCConnection outlives callbacks that close it
 and drop the last reference

---
 src/TCConnection.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index 9e5ec4a..a9ec4b7 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -615,7 +615,7 @@ bool RTMFPTCConnection::init(RTMFP *rtmfp, const Bytes &epd)
 		return false;
 	};
 	m_controlSend->notifyWhenWritable();
-	m_controlSend->onException = [this] (uintmax_t reason) { basicClose(true); };
+	m_controlSend->onException = [this, myself] (uintmax_t reason) { basicClose(true); };
 	m_controlSend->onRecvFlow = [this] (std::shared_ptr<RecvFlow> flow) { acceptFlow(flow); };
 
 	return true;
@@ -711,9 +711,12 @@ void RTMFPTCConnection::acceptFlow(std::shared_ptr<RecvFlow> flow)
 		reorderBuffer = reorderBufferFactory(reorderWindowPeriod);
 
 	flow->onComplete = [this, flow, reorderBuffer, streamID] (bool error) {
+		auto myself = share_ref(this); // flushed messages can delete the stream or close the connection
 		if(reorderBuffer)
 			reorderBuffer->flush();
-		m_netStreamTransports[streamID].m_recvFlows.erase(flow);
+		auto it = m_netStreamTransports.find(streamID);
+		if(it != m_netStreamTransports.end())
+			it->second.m_recvFlows.erase(flow);
 	};
 
 	setOnMessage(flow, streamID, reorderBuffer);
@@ -732,18 +735,22 @@ void RTMFPTCConnection::setOnMessage(std::shared_ptr<RecvFlow> flow, uint32_t st
 	}
 
 	flow->onMessage = [this, streamID, flow, reorderBuffer] (const uint8_t *bytes, size_t len, uintmax_t sequenceNumber, size_t fragmentCount) {
+		// delivered messages can delete the stream or close the connection, which also clears this callback
+		auto myself = share_ref(this);
+		auto flow_ptr = flow;
+		auto reorderBuffer_ptr = reorderBuffer;
 		uint32_t syncID = 0;
 		size_t count = 0;
 		if(FlowSyncManager::parse(bytes, len, syncID, count))
 		{
-			m_syncManager.sync(syncID, count, flow);
+			m_syncManager.sync(syncID, count, flow_ptr);
 			len = 0; // allow accounting for sequence numbers in reorder buffer; deliverMessage will drop empties
 		}
 
-		if(reorderBuffer)
+		if(reorderBuffer_ptr)
 		{
-			reorderBuffer->insert(bytes, len, sequenceNumber, fragmentCount);
-			reorderBuffer->deliverThrough(flow->getCumulativeAckSequenceNumber());
+			reorderBuffer_ptr->insert(bytes, len, sequenceNumber, fragmentCount);
+			reorderBuffer_ptr->deliverThrough(flow_ptr->getCumulativeAckSequenceNumber());
 		}
 		else
 			deliverMessage(streamID, bytes, len);
@@ -776,6 +783,8 @@ bool RTMFPTCConnection::shouldAlwaysDeliver(const uint8_t *bytes, size_t len)
 
 void RTMFPTCConnection::basicClose(bool isError)
 {
+	auto myself = share_ref(this); // onClose and closing m_controlSend can drop the last references
+
 	TCConnection::basicClose(isError);
 
 	if(m_controlSend) m_controlSend->close();
-- 
2.43.0


From bbbde71bc4f679669c3d58eaa3c93d9adfb58370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:10 +0000
Subject: [PATCH 11/21] fix: ReorderBuffer holds itself while delivering
 messages

---
 src/ReorderBuffer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ReorderBuffer.cpp b/src/ReorderBuffer.cpp
index c4fc855..57306a7 100644
--- a/src/ReorderBuffer.cpp
+++ b/src/ReorderBuffer.cpp
@@ -65,6 +65,7 @@ Duration ReorderBuffer::getReorderWindowPeriod() const
 
 void ReorderBuffer::insert(const uint8_t *bytes, size_t len, uintmax_t sequenceNumber, size_t fragmentCount)
 {
+	auto myself = share_ref(this); // onMessage might drop the last reference
 	m_highestSeen = std::max(m_highestSeen, _lastSN(sequenceNumber, fragmentCount));
 
 	if(shouldDeliverNow(sequenceNumber))
@@ -122,6 +123,7 @@ void ReorderBuffer::deliverMessage(const uint8_t *payload, size_t len, uintmax_t
 
 void ReorderBuffer::tryDeliver()
 {
+	auto myself = share_ref(this); // onMessage might drop the last reference
 	Time now = getCurrentTime();
 	findCSN(now); // advance m_csn for old messages
 	
-- 
2.43.0


From b9658fc731839980819beafc13781b24993b1208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:39 +0000
Subject: [PATCH 12/21] fix: closing a TCConnection stream also closes its
 reorder buffers

---
 include/rtmfp/TCConnection.hpp | 2 +-
 src/TCConnection.cpp           | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/rtmfp/TCConnection.hpp b/include/rtmfp/TCConnection.hpp
index 2ba1482..536becb 100644
--- a/include/rtmfp/TCConnection.hpp
+++ b/include/rtmfp/TCConnection.hpp
@@ -216,7 +216,7 @@ protected:
 		std::shared_ptr<SendFlow> m_video;
 		std::shared_ptr<SendFlow> m_audio;
 		std::shared_ptr<SendFlow> m_data;
-		std::set<std::shared_ptr<RecvFlow>> m_recvFlows;
+		std::map<std::shared_ptr<RecvFlow>, std::shared_ptr<ReorderBuffer>> m_recvFlows;
 	};
 
 	using rtmp::TCConnection::write;
diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index a9ec4b7..e563c24 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -721,7 +721,7 @@ void RTMFPTCConnection::acceptFlow(std::shared_ptr<RecvFlow> flow)
 
 	setOnMessage(flow, streamID, reorderBuffer);
 	flow->accept();
-	m_netStreamTransports[streamID].m_recvFlows.insert(flow);
+	m_netStreamTransports[streamID].m_recvFlows[flow] = reorderBuffer;
 }
 
 void RTMFPTCConnection::setOnMessage(std::shared_ptr<RecvFlow> flow, uint32_t streamID, std::shared_ptr<ReorderBuffer> reorderBuffer)
@@ -852,7 +852,11 @@ RTMFPTCConnection::NetStreamTransport::~NetStreamTransport()
 	if(m_data) m_data->close();
 
 	for(auto it = m_recvFlows.begin(); it != m_recvFlows.end(); it++)
-		(*it)->close();
+	{
+		it->first->close();
+		if(it->second)
+			it->second->close();
+	}
 }
 
 SendFlow * RTMFPTCConnection::NetStreamTransport::openFlowForType(const std::shared_ptr<RecvFlow> &control, uint32_t streamID, uint8_t messageType)
-- 
2.43.0


From 4c985007614cd500aecb58f9d48e1d5b942a3d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:38 +0000
Subject: [PATCH 13/21] fix: TCConnection ignores responses whose transaction
 ID is NaN

---
 src/TCConnection.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index e563c24..1b50647 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -2,6 +2,7 @@
 // SPDX-License-Identifier: MIT
 
 #include <cassert>
+#include <cmath>
 
 #include "../include/rtmfp/TCConnection.hpp"
 #include "../include/rtmfp/URIParse.hpp"
@@ -299,6 +300,9 @@ bool TCConnection::basicTransact(const Handler &onResult, const std::string &com
 
 void TCConnection::onTransactionResponse(bool success, double transactionID, const Args &args)
 {
+	if(std::isnan(transactionID)) // unordered, would match any key
+		return;
+
 	auto it = m_transactions.find(transactionID);
 	if(it != m_transactions.end())
 	{
-- 
2.43.0


From 859c3bf76ea93c22a540ae614b9245c816a3d499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:02 +0000
Subject: [PATCH 14/21] fix: a createStream result between 0 and 1 is not a
 stream ID

---
 src/TCConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index 1b50647..f8b163a 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -94,7 +94,7 @@ std::shared_ptr<TCStream> TCConnection::createStream()
 	basicTransact([this, netStream] (bool success, std::shared_ptr<AMF0> result) {
 		if(  (success)
 		 and (result)
-		 and (result->doubleValue() > 0)
+		 and (result->doubleValue() >= 1)
 		 and (result->doubleValue() <= double(UINT32_MAX))
 		 and (0 == m_netStreams.count(uint32_t(result->doubleValue())))
 		)
-- 
2.43.0


From ec55bcecee66765f98543138f2c32f02bad1e2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:58 +0000
Subject: [PATCH 15/21] fix: set the peer keepalive period from the peer period
 of the server's command

---
 src/TCConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index f8b163a..382677b 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -841,7 +841,7 @@ void RTMFPTCConnection::onSetKeepaliveUserCommand(const uint8_t *payload, size_t
 	uint32_t peerPeriodMsec = (payload[6] << 24) + (payload[7] << 16) + (payload[8] << 8) + payload[9];
 
 	serverPeriodMsec = std::max(serverPeriodMsec, uint32_t(5000)); // RFC 7425 §5.3.4
-	peerPeriodMsec = std::max(serverPeriodMsec, uint32_t(5000)); // RFC 7425 §5.3.4
+	peerPeriodMsec = std::max(peerPeriodMsec, uint32_t(5000)); // RFC 7425 §5.3.4
 
 	m_controlRecv->setSessionKeepalivePeriod(serverPeriodMsec / 1000.0);
 	m_rtmfp->setDefaultSessionKeepalivePeriod(peerPeriodMsec / 1000.0);
-- 
2.43.0


From 2a70c671745e10375bfdb4dfee09a1a16b9ffa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:58 +0000
Subject: [PATCH 16/21] fix: TCStream::send sends the timestamp it is given

---
 src/TCConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index 382677b..a0c1532 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -424,7 +424,7 @@ std::shared_ptr<WriteReceipt> TCStream::send(uint32_t timestamp, const std::stri
 	Bytes msg;
 	AMF0String(command).encode(msg);
 	AMF0::encode(args, msg);
-	return m_owner->write(m_streamID, TCMSG_DATA, 0, msg, INFINITY, INFINITY);
+	return m_owner->write(m_streamID, TCMSG_DATA, timestamp, msg, INFINITY, INFINITY);
 }
 
 std::shared_ptr<WriteReceipt> TCStream::sendAudio(uint32_t timestamp, const void *bytes, size_t len, Duration startWithin, Duration finishWithin)
-- 
2.43.0


From 75fe6fcabd09d147e527eef52715cc37e49c7e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:53 +0000
Subject: [PATCH 17/21] fix: do not read the format of an empty extended data
 message

---
 src/TCConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index a0c1532..efe28ff 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -533,7 +533,7 @@ void TCStream::onDataMessage(uint8_t messageType, uint32_t timestamp, const uint
 	const uint8_t *cursor = payload;
 	const uint8_t *limit = cursor + len;
 
-	if((TCMSG_DATA_EX == messageType) and (0 != *cursor++))
+	if((TCMSG_DATA_EX == messageType) and ((0 == len) or (0 != *cursor++)))
 		return; // only format 0 is defined
 
 	auto command = AMF0::decode(&cursor, limit);
-- 
2.43.0


From 83d0704edc58b3de435d045f559662aac49d3446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:10 +0000
Subject: [PATCH 18/21] fix: define RedirectorClient::getKeepalivePeriod()

---
 src/RedirectorClient.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/RedirectorClient.cpp b/src/RedirectorClient.cpp
index 66ee433..1ccc6ef 100644
--- a/src/RedirectorClient.cpp
+++ b/src/RedirectorClient.cpp
@@ -71,6 +71,11 @@ void RedirectorClient::setKeepalivePeriod(Duration t)
 		m_send->setSessionKeepalivePeriod(m_keepalivePeriod);
 }
 
+Duration RedirectorClient::getKeepalivePeriod() const
+{
+	return m_keepalivePeriod;
+}
+
 void RedirectorClient::setActive(bool active)
 {
 	bool update = active != m_active;
-- 
2.43.0


From fd27a1dd7e624b65fbc9d9a7fca59224a1d32103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:10 +0000
Subject: [PATCH 19/21] fix: RedirectorClient stays alive while it calls
 onStatus from its flows' callbacks

---
 src/RedirectorClient.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/RedirectorClient.cpp b/src/RedirectorClient.cpp
index 1ccc6ef..52985f2 100644
--- a/src/RedirectorClient.cpp
+++ b/src/RedirectorClient.cpp
@@ -353,6 +353,8 @@ void RedirectorClient::sendLoadFactor()
 
 void RedirectorClient::onConnected()
 {
+	auto myself = share_ref(this); // could be released during callback
+
 	setStatus(STATUS_CONNECTED);
 	if(isConnected()) // still, could have changed during callback
 	{
@@ -368,6 +370,8 @@ void RedirectorClient::onConnected()
 
 void RedirectorClient::onException(uintmax_t reason)
 {
+	auto myself = share_ref(this); // could be released during callback
+
 	closeFlows();
 
 	setStatus(EXCEPTION_BAD_AUTH == reason ? STATUS_DISCONNECTED_BAD_AUTH : STATUS_DISCONNECTED);
-- 
2.43.0


From a6a9d64ecf5f234a5df9463dcf50d99de1b5470d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:10 +0000
Subject: [PATCH 20/21] fix: a repeated responder keying component must not
 disturb completed keys

---
 src/FlashCryptoAdapter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/FlashCryptoAdapter.cpp b/src/FlashCryptoAdapter.cpp
index 4dae557..463d1be 100644
--- a/src/FlashCryptoAdapter.cpp
+++ b/src/FlashCryptoAdapter.cpp
@@ -734,6 +734,9 @@ bool FlashCryptoKey::initiatorCombineResponderKeyingComponent(const uint8_t *res
 {
 	const uint8_t *componentLimit = responderComponent + len;
 
+	if(m_complete)
+		return false; // repeated component, don't disturb the keys
+
 	// try to fail on cheaper stuff first
 
 	uint8_t sseqFlags = negotiationOptionSearch(responderComponent, componentLimit, KEYING_OPTION_SSEQ_NEGOTIATION);
-- 
2.43.0


From ff6848d186fe0cfe01eed1dce8761cfb0c787fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:10 +0000
Subject: [PATCH 21/21] fix: a refused responder keying component must not
 change what this end requires

---
 src/FlashCryptoAdapter.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/FlashCryptoAdapter.cpp b/src/FlashCryptoAdapter.cpp
index 463d1be..8e3290a 100644
--- a/src/FlashCryptoAdapter.cpp
+++ b/src/FlashCryptoAdapter.cpp
@@ -737,21 +737,26 @@ bool FlashCryptoKey::initiatorCombineResponderKeyingComponent(const uint8_t *res
 	if(m_complete)
 		return false; // repeated component, don't disturb the keys
 
+	// don't change our requirements until there can be no more failures
+	bool hmacSendAlways = m_hmacSendAlways;
+	bool hmacRecvRequired = m_hmacRecvRequired;
+	bool sseqSendAlways = m_sseqSendAlways;
+	bool sseqRecvRequired = m_sseqRecvRequired;
+
 	// try to fail on cheaper stuff first
 
 	uint8_t sseqFlags = negotiationOptionSearch(responderComponent, componentLimit, KEYING_OPTION_SSEQ_NEGOTIATION);
-	if(not negotiateFlags(sseqFlags, m_sseqSendAlways, m_sseqRecvRequired))
+	if(not negotiateFlags(sseqFlags, sseqSendAlways, sseqRecvRequired))
 		return false;
 
 	uintmax_t hmacRxLen = 0; // an illegal value if receive is required
 	uint8_t hmacFlags = negotiationOptionSearch(responderComponent, componentLimit, KEYING_OPTION_HMAC_NEGOTIATION, &hmacRxLen);
-	if(not negotiateFlags(hmacFlags, m_hmacSendAlways, m_hmacRecvRequired))
+	if(not negotiateFlags(hmacFlags, hmacSendAlways, hmacRecvRequired))
 		return false;
-	if(m_hmacRecvRequired)
+	if(hmacRecvRequired)
 	{
 		if((hmacRxLen < FlashCryptoAdapter::MIN_HMAC_LENGTH) or (hmacRxLen > FlashCryptoAdapter::MAX_HMAC_LENGTH))
 			return false;
-		m_rxHMACLength = hmacRxLen;
 	}
 
 	if(m_publicKeyNeeded)
@@ -772,6 +777,13 @@ bool FlashCryptoKey::initiatorCombineResponderKeyingComponent(const uint8_t *res
 	}
 	// else we already computed the DH shared secret from a public key in their certificate
 
+	m_hmacSendAlways = hmacSendAlways;
+	m_hmacRecvRequired = hmacRecvRequired;
+	m_sseqSendAlways = sseqSendAlways;
+	m_sseqRecvRequired = sseqRecvRequired;
+	if(hmacRecvRequired)
+		m_rxHMACLength = hmacRxLen;
+
 	// this should always succeeed unless something terrible is happening
 	if(not computeKeysAndNonces(m_sknc.data(), m_sknc.size(), responderComponent, len))
 		return false;
-- 
2.43.0

