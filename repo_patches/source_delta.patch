From c21bae29a0c33a0343ed501787301e5eeec12e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:05 +0000
Subject: [PATCH 01/31] fix: SendFlow::onSessionDidClose used the flow after it
 was released

When the application has dropped its handle, unbinding from the closing
session releases the last reference while the send queue is still to be
cleared.
---
 src/SendFlow.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index cbc86aa..517366f 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -303,6 +303,7 @@ void SendFlow::onSessionDidClose(std::shared_ptr<Session> session)
 {
 	if((m_session == session) or ((not m_session) and (m_openingSession == session)))
 	{
+		auto myself = share_ref(this); // being unbound can release the last reference to us
 		onExceptionReport(0);
 		m_send_queue.clear();
 	}
-- 
2.43.0


From 9a578fa7686e4502daca6a0dff6b64cff25e7fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:01 +0000
Subject: [PATCH 02/31] fix: receipts of a flow closed before its session opens
 never finished

Closing a SendFlow that has no open session discards what was queued on
it; abandon those messages so that their receipts finish.
---
 include/rtmfp/rtmfp.hpp |  1 +
 src/SendFlow.cpp        | 11 ++++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/rtmfp/rtmfp.hpp b/include/rtmfp/rtmfp.hpp
index f0c8e3d..52ac5bf 100644
--- a/include/rtmfp/rtmfp.hpp
+++ b/include/rtmfp/rtmfp.hpp
@@ -297,6 +297,7 @@ protected:
 	bool assembleData(PacketAssembler *packet, int pri);
 	void ackRange(long &name, uintmax_t ackFrom, uintmax_t ackTo);
 	void onAck(uint8_t chunkType, size_t bufferBytesAvailable, uintmax_t cumulativeAck, const uint8_t *disjointed, const uint8_t *limit);
+	void abandonSendQueue();
 	void onExceptionReport(uintmax_t exceptionCode);
 	void setPersistTimer();
 	void onPersistTimer(const std::shared_ptr<Timer> &sender, Time now);
diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index 517366f..7276a5c 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -189,7 +189,11 @@ void SendFlow::close()
 			m_state = F_CLOSING;
 		}
 		else
+		{
 			gotoStateClosed();
+			if(not m_exception) // otherwise onExceptionReport takes care of it
+				abandonSendQueue();
+		}
 	}
 
 	if(m_session and (Session::S_OPEN != m_session->m_state))
@@ -613,6 +617,11 @@ void SendFlow::onAck(uint8_t chunkType, size_t bufferBytesAvailable, uintmax_t c
 	}
 }
 
+void SendFlow::abandonSendQueue()
+{
+	m_send_queue.valuesDo([] (std::shared_ptr<SendFrag> &frag) { frag->m_receipt->abandon(); return true; });
+}
+
 void SendFlow::onExceptionReport(uintmax_t exceptionCode)
 {
 	retain();
@@ -625,7 +634,7 @@ void SendFlow::onExceptionReport(uintmax_t exceptionCode)
 	if(exception_f)
 		exception_f(exceptionCode);
 
-	m_send_queue.valuesDo([] (std::shared_ptr<SendFrag> &frag) { frag->m_receipt->abandon(); return true; });
+	abandonSendQueue();
 
 	release();
 }
-- 
2.43.0


From 629199f5118f1565aabbe45b1775e1ca8741ddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:54 +0000
Subject: [PATCH 03/31] fix: RecvFlow missed gap closures hidden by a new gap
 in the same packet

When the forward sequence number closes a gap while the packet's own
sequence number opens another, the number of ranges does not change and
onCumulativeAckDidMerge was not called.
---
 src/RecvFlow.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/RecvFlow.cpp b/src/RecvFlow.cpp
index db091f0..f81757f 100644
--- a/src/RecvFlow.cpp
+++ b/src/RecvFlow.cpp
@@ -227,10 +227,13 @@ void RecvFlow::onData(uint8_t flags, uintmax_t sequenceNumber, uintmax_t fsn, co
 
 	uintmax_t preCSN = getCumulativeAckSequenceNumber();
 
+	// the FSN can close a gap while the sequence number opens a new one
 	m_sequence_set.add(0, fsn);
+	size_t fsnRangeCount = m_sequence_set.countRanges();
 	m_sequence_set.add(sequenceNumber);
 
 	size_t postRangeCount = m_sequence_set.countRanges();
+	bool merged = (fsnRangeCount < preRangeCount) or (postRangeCount < fsnRangeCount);
 
 	long deliveryHint = -1;
 	if(fresh and (not abandoned) and (RF_OPEN == m_state))
@@ -254,11 +257,11 @@ void RecvFlow::onData(uint8_t flags, uintmax_t sequenceNumber, uintmax_t fsn, co
 
 	tryDelivery(deliveryHint);
 
-	if(preRangeCount != postRangeCount)
+	if(merged or (preRangeCount != postRangeCount))
 	{
 		ack_now = true;
 
-		if(  (postRangeCount < preRangeCount)
+		if(  (merged)
 		 and (RO_NETWORK == m_rxOrder)
 		 and (RF_OPEN == m_state)
 		 and (preCSN < getCumulativeAckSequenceNumber())
-- 
2.43.0


From 90a36d5d0a47b704dc542acda8d22b6ed0893f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:31 +0000
Subject: [PATCH 04/31] fix: abandoning a send queue walked it while receipt
 callbacks could change it

---
 src/SendFlow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index 7276a5c..927bd93 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -619,7 +619,7 @@ void SendFlow::onAck(uint8_t chunkType, size_t bufferBytesAvailable, uintmax_t c
 
 void SendFlow::abandonSendQueue()
 {
-	m_send_queue.valuesDo([] (std::shared_ptr<SendFrag> &frag) { frag->m_receipt->abandon(); return true; });
+	m_send_queue.safeValuesDo([] (std::shared_ptr<SendFrag> &frag) { frag->m_receipt->abandon(); return true; });
 }
 
 void SendFlow::onExceptionReport(uintmax_t exceptionCode)
-- 
2.43.0


From 198be884bfc80a073888e47ae3fd437ff41616cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:31 +0000
Subject: [PATCH 05/31] fix: acknowledging survives a receipt callback that
 closes the flow's session

---
 src/SendFlow.cpp | 11 +++++++----
 src/Session.cpp  |  3 ++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index 927bd93..cee80ed 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -522,7 +522,7 @@ void SendFlow::ackRange(long &name, uintmax_t ackFrom, uintmax_t ackTo)
 	{
 		long next = m_send_queue.next(name);
 
-		auto &frag = m_send_queue.at(name);
+		auto frag = m_send_queue.at(name); // a copy, finishing a receipt can change m_send_queue
 
 		if(frag->m_sequence_number < ackFrom)
 		{
@@ -541,11 +541,11 @@ void SendFlow::ackRange(long &name, uintmax_t ackFrom, uintmax_t ackTo)
 			m_outstanding_bytes -= frag->m_transmit_size;
 		}
 
-		frag->m_receipt->useCountDown();
-
 		m_send_queue.remove(name);
 
-		name = next;
+		frag->m_receipt->useCountDown();
+
+		name = m_session ? next : -1; // onFinished can close us, emptying m_send_queue
 	}
 }
 
@@ -604,6 +604,9 @@ void SendFlow::onAck(uint8_t chunkType, size_t bufferBytesAvailable, uintmax_t c
 		// TODO: nobody actually sends these yet
 	}
 
+	if(not m_session)
+		return; // closed while finishing receipts
+
 	if((F_CLOSING == m_state) and m_send_queue.empty())
 	{
 		m_state = F_COMPLETE_LINGER;
diff --git a/src/Session.cpp b/src/Session.cpp
index f2a7e56..8976056 100644
--- a/src/Session.cpp
+++ b/src/Session.cpp
@@ -2059,7 +2059,8 @@ void Session::onAckChunk(uint8_t mode, uint8_t chunkType, const uint8_t *chunk,
 		else
 			bufferBytesAvailable = bufferBlocksAvailable * 1024;
 
-		m_sendFlows.at((long)flowID)->onAck(chunkType, bufferBytesAvailable, cumulativeAck, cursor, limit);
+		auto flow = m_sendFlows.at((long)flowID); // a copy, finishing receipts can close the flow
+		flow->onAck(chunkType, bufferBytesAvailable, cumulativeAck, cursor, limit);
 		m_any_acks = true;
 		m_keepalive_outstanding = false;
 		m_retransmit_deadline_epoch = INFINITY;
-- 
2.43.0


From 9b18741ad91d12f930bc0bc369c2e32e77898cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:31 +0000
Subject: [PATCH 06/31] fix: assembling user data survives receipt callbacks
 that close or write to the flow

---
 src/SendFlow.cpp | 14 +++++++++++---
 src/Session.cpp  |  5 ++++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index cee80ed..0dbd8f1 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -351,12 +351,14 @@ void SendFlow::trimSendQueue(Time now)
 	{
 		if(m_send_queue.size() < 2)
 			break;
-		auto &first = m_send_queue.firstValue();
+		auto first = m_send_queue.firstValue(); // a copy, abandoning a receipt can change m_send_queue
 		if(first->m_in_flight)
 			break;
 		first->m_receipt->abandonIfNeeded(now);
 		if(not first->m_receipt->isAbandoned())
 			break;
+		if(m_send_queue.empty())
+			break; // onFinished closed us
 		first->m_receipt->useCountDown();
 		m_send_queue.removeFirst();
 		anyTrimmed = true;
@@ -381,7 +383,7 @@ void SendFlow::scheduleTrimSendQueue()
 
 uintmax_t SendFlow::findForwardSequenceNumber(Time now)
 {
-	auto &first = m_send_queue.firstValue();
+	auto first = m_send_queue.firstValue(); // a copy, abandoning a receipt can change m_send_queue
 
 	if(not first->m_in_flight)
 		first->m_receipt->abandonIfNeeded(now);
@@ -403,7 +405,11 @@ bool SendFlow::assembleData(PacketAssembler *packet, int pri)
 
 	Time now = m_rtmfp->getCurrentTime();
 	trimSendQueue(now);
+	if(not m_session)
+		return false; // closed while abandoning receipts
 	uintmax_t fsn = findForwardSequenceNumber(now);
+	if(not m_session)
+		return false;
 	bool firstChunk = true;
 	uintmax_t previousSN = 0;
 
@@ -433,7 +439,7 @@ bool SendFlow::assembleData(PacketAssembler *packet, int pri)
 		if(m_outstanding_bytes >= m_rx_buffer_size)
 			break;
 
-		auto &frag = m_send_queue.at(name);
+		auto frag = m_send_queue.at(name); // a copy, abandoning a receipt can change m_send_queue
 		if(frag->m_in_flight)
 			continue;
 
@@ -442,6 +448,8 @@ bool SendFlow::assembleData(PacketAssembler *packet, int pri)
 		if(frag->m_ever_sent and not frag->m_receipt->retransmit)
 			frag->m_receipt->abandon();
 		frag->m_receipt->abandonIfNeeded(now);
+		if(not m_session)
+			return false; // closed while abandoning receipts
 		uint8_t flag_abn = frag->m_receipt->isAbandoned() ? USERDATA_FLAG_ABN : 0;
 
 		// departure from §3.6.2.3: we send a fragment even if abandoned (though with
diff --git a/src/Session.cpp b/src/Session.cpp
index 8976056..4a1c555 100644
--- a/src/Session.cpp
+++ b/src/Session.cpp
@@ -1507,7 +1507,8 @@ bool Session::onInterfaceWritable(int interfaceID, int priority)
 			List<std::shared_ptr<SendFlow> > &flows = m_readyFlows[priority];
 			while(not flows.empty())
 			{
-				if(flows.firstValue()->assembleData(&packet, priority))
+				auto flow = flows.firstValue(); // a copy, abandoning receipts can close us
+				if(flow->assembleData(&packet, priority))
 				{
 					flows.moveNameToTail(flows.first());
 					m_next_tsn++;
@@ -1519,6 +1520,8 @@ bool Session::onInterfaceWritable(int interfaceID, int priority)
 
 					break;
 				}
+				else if(S_OPEN != m_state)
+					return false; // closed while abandoning receipts
 				else
 					flows.removeFirst();
 			}
-- 
2.43.0


From d5c47db376f3b3bd1c4865e354222beb42de63da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:31 +0000
Subject: [PATCH 07/31] fix: FIN was lost when a flow was closed by the
 callback of its last, expiring message

---
 src/SendFlow.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index 0dbd8f1..f162d4e 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -443,13 +443,12 @@ bool SendFlow::assembleData(PacketAssembler *packet, int pri)
 		if(frag->m_in_flight)
 			continue;
 
-		uint8_t flag_fin = frag->m_sequence_number == m_final_sn ? USERDATA_FLAG_FIN : 0;
-
 		if(frag->m_ever_sent and not frag->m_receipt->retransmit)
 			frag->m_receipt->abandon();
 		frag->m_receipt->abandonIfNeeded(now);
 		if(not m_session)
 			return false; // closed while abandoning receipts
+		uint8_t flag_fin = frag->m_sequence_number == m_final_sn ? USERDATA_FLAG_FIN : 0;
 		uint8_t flag_abn = frag->m_receipt->isAbandoned() ? USERDATA_FLAG_ABN : 0;
 
 		// departure from §3.6.2.3: we send a fragment even if abandoned (though with
-- 
2.43.0


From 73439c3bbd45f30dca7613c6f6e236bde1e3eae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:47 +0000
Subject: [PATCH 08/31] fix: setPriority on a flow with queued data but no
 session yet crashed

---
 src/SendFlow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index f162d4e..fffda16 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -332,7 +332,7 @@ void SendFlow::doWritable()
 
 void SendFlow::scheduleForTransmission()
 {
-	if(isMaybeReadyForTransmission())
+	if(m_session and isMaybeReadyForTransmission())
 		m_session->scheduleFlowForTransmission(share_ref(this), m_priority);
 }
 
-- 
2.43.0


From 08cf86cc935bfa8eda6c0050ac8249960ab51572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:12 +0000
Subject: [PATCH 09/31] fix: an opening flow could be moved to a session with a
 peer its EPD does not select

---
 src/SendFlow.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index fffda16..e6780e7 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -294,6 +294,7 @@ void SendFlow::onSessionWillOpen(std::shared_ptr<Session> session)
 	if(  (m_openingSession)
 	 and (session != m_openingSession)
 	 and (Session::S_IHELLO_SENT == m_openingSession->m_state)
+	 and (session->m_cryptoCert->isSelectedByEPD(m_epd.data(), m_epd.size()))
 	)
 	{
 		std::shared_ptr<Session> previousSession = m_openingSession;
-- 
2.43.0


From 13bbff6e07156067bdc823caeb796fa56dd0b487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:17 +0000
Subject: [PATCH 10/31] fix: receiver could wait forever for an abandoned
 fragment trimmed after the last transmission

---
 src/SendFlow.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index e6780e7..a7f3abe 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -360,6 +360,8 @@ void SendFlow::trimSendQueue(Time now)
 			break;
 		if(m_send_queue.empty())
 			break; // onFinished closed us
+		if(m_send_queue.lastValue()->m_ever_sent)
+			break; // keep it to send, there might be nothing else to tell the receiver to stop waiting for it
 		first->m_receipt->useCountDown();
 		m_send_queue.removeFirst();
 		anyTrimmed = true;
-- 
2.43.0


From f1c0d5500af31b63917df705d4acd2d0fc94fe14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:40 +0000
Subject: [PATCH 11/31] fix: a timer list that was cleared left its timers
 attached to it and uncanceled

---
 src/Timer.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/Timer.cpp b/src/Timer.cpp
index 0a2d79a..1ed06d7 100644
--- a/src/Timer.cpp
+++ b/src/Timer.cpp
@@ -158,15 +158,7 @@ TimerList::TimerList() : m_running(false)
 
 TimerList::~TimerList()
 {
-	// cancel all timers in the list to clear potential circular references
-	while(not m_timers.empty())
-	{
-		auto it = m_timers.begin();
-		auto each = *it;
-		each->setTimerList(nullptr);
-		each->cancel();
-		m_timers.erase(it);
-	}
+	clear();
 }
 
 std::shared_ptr<Timer> TimerList::schedule(Time when, Duration recurInterval, bool catchup)
@@ -244,7 +236,15 @@ void TimerList::removeTimer(const std::shared_ptr<Timer> &timer)
 
 void TimerList::clear()
 {
-	m_timers.clear();
+	// cancel all timers in the list to clear potential circular references
+	while(not m_timers.empty())
+	{
+		auto it = m_timers.begin();
+		auto each = *it;
+		each->setTimerList(nullptr);
+		each->cancel();
+		m_timers.erase(it);
+	}
 }
 
 } } // namespace com::zenomt
-- 
2.43.0


From aae5a09072590532344dc5c0b262fdf5a215a7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:52 +0000
Subject: [PATCH 12/31] fix: a timer rescheduled and then canceled by its own
 callback kept its callback forever

---
 src/Timer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Timer.cpp b/src/Timer.cpp
index 1ed06d7..b2b5664 100644
--- a/src/Timer.cpp
+++ b/src/Timer.cpp
@@ -128,7 +128,7 @@ void Timer::basicFire(const std::shared_ptr<Timer> &myself, Time now)
 		action(myself, now);
 	m_firing = false;
 
-	if(doesRecur() or m_rescheduled)
+	if((doesRecur() or m_rescheduled) and not isCanceled())
 	{
 		if(not m_rescheduled)
 		{
-- 
2.43.0


From 25c65e92da377db0a4f47a57c8f5a386e52d3a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:49 +0000
Subject: [PATCH 13/31] fix: the reorder buffer's highest seen sequence number
 was not initialized

---
 src/ReorderBuffer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ReorderBuffer.cpp b/src/ReorderBuffer.cpp
index 591f309..9e79aa5 100644
--- a/src/ReorderBuffer.cpp
+++ b/src/ReorderBuffer.cpp
@@ -21,7 +21,8 @@ ReorderBuffer::Message::Message(const uint8_t *payload, size_t len, uintmax_t se
 
 ReorderBuffer::ReorderBuffer(Duration windowPeriod) :
 	m_csn(0),
-	m_deliveredThrough(0)
+	m_deliveredThrough(0),
+	m_highestSeen(0)
 {
 	m_reorderPeriod = std::max(windowPeriod, Duration(0));
 }
-- 
2.43.0


From 359b8cc3ffe2d347dc898800f2d2ca693db99679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:49 +0000
Subject: [PATCH 14/31] fix: rounding could make the reorder buffer's timer
 fire forever without delivering

---
 src/ReorderBuffer.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ReorderBuffer.cpp b/src/ReorderBuffer.cpp
index 9e79aa5..9707658 100644
--- a/src/ReorderBuffer.cpp
+++ b/src/ReorderBuffer.cpp
@@ -168,12 +168,10 @@ void ReorderBuffer::scheduleDelivery()
 // advance the CSN to the highest sequence number seen in the reorder period
 void ReorderBuffer::findCSN(Time now)
 {
-	Time deadline = now - m_reorderPeriod;
-
 	while(not m_messagesByTime.empty())
 	{
 		auto &first = m_messagesByTime.firstValue();
-		if(shouldDeliverNow(first->m_sequenceNumber) or (first->m_rxTime <= deadline))
+		if(shouldDeliverNow(first->m_sequenceNumber) or (first->m_rxTime + m_reorderPeriod <= now))
 		{
 			m_csn = std::max(m_csn, _lastSN(first->m_sequenceNumber, first->m_fragmentCount));
 			m_messagesByTime.removeFirst();
-- 
2.43.0


From 5d7b52ca041a0eda5c6524d1e147a063d5f39b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:10 +0000
Subject: [PATCH 15/31] fix: the reorder buffer released messages twice, out of
 order or used freed memory when its callback called it or let it go

---
 src/ReorderBuffer.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/ReorderBuffer.cpp b/src/ReorderBuffer.cpp
index 9707658..6f482ed 100644
--- a/src/ReorderBuffer.cpp
+++ b/src/ReorderBuffer.cpp
@@ -65,6 +65,8 @@ Duration ReorderBuffer::getReorderWindowPeriod() const
 
 void ReorderBuffer::insert(const uint8_t *bytes, size_t len, uintmax_t sequenceNumber, size_t fragmentCount)
 {
+	auto myself = share_ref(this); // onMessage can release us
+
 	m_highestSeen = std::max(m_highestSeen, _lastSN(sequenceNumber, fragmentCount));
 
 	if(shouldDeliverNow(sequenceNumber))
@@ -112,16 +114,20 @@ bool ReorderBuffer::isLate(uintmax_t sequenceNumber) const
 void ReorderBuffer::deliverMessage(const uint8_t *payload, size_t len, uintmax_t sequenceNumber, size_t fragmentCount)
 {
 	uintmax_t lastSequenceNumber = _lastSN(sequenceNumber, fragmentCount);
+	bool late = isLate(lastSequenceNumber);
 
-	if(onMessage)
-		onMessage(payload, len, sequenceNumber, fragmentCount, isLate(lastSequenceNumber));
-
+	// onMessage can re-enter
 	m_csn = std::max(m_csn, lastSequenceNumber);
 	m_deliveredThrough = std::max(m_deliveredThrough, lastSequenceNumber);
+
+	auto onMessage_f = onMessage; // close() clears it
+	if(onMessage_f)
+		onMessage_f(payload, len, sequenceNumber, fragmentCount, late);
 }
 
 void ReorderBuffer::tryDeliver()
 {
+	auto myself = share_ref(this); // onMessage can release us
 	Time now = getCurrentTime();
 	findCSN(now); // advance m_csn for old messages
 	
@@ -130,15 +136,17 @@ void ReorderBuffer::tryDeliver()
 		auto it = m_messagesBySequence.begin();
 		if(shouldDeliverNow(it->first))
 		{
-			auto &message_ptr = it->second;
+			auto message_ptr = it->second;
+			m_messagesBySequence.erase(it); // first, delivery can re-enter
 			deliverMessage(message_ptr->m_payload.data(), message_ptr->m_payload.size(), message_ptr->m_sequenceNumber, message_ptr->m_fragmentCount);
-			m_messagesBySequence.erase(it);
 		}
 		else
 			break;
 	}
 
-	findCSN(now); // also trim delivered ones from m_messagesByTime
+	// also trim delivered ones from m_messagesByTime. delivery can have queued messages or changed the window, so only those.
+	while((not m_messagesByTime.empty()) and shouldDeliverNow(m_messagesByTime.firstValue()->m_sequenceNumber))
+		m_messagesByTime.removeFirst();
 
 	scheduleDelivery();
 
-- 
2.43.0


From fc75c0d35e87d3c391f96dc149c028fc012d01b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:12 +0000
Subject: [PATCH 16/31] fix: a hang-up or error on a descriptor registered with
 the epoll run loop was never reported and made it spin

---
 src/EPollRunLoop.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/EPollRunLoop.cpp b/src/EPollRunLoop.cpp
index 083bfb6..959bc0b 100644
--- a/src/EPollRunLoop.cpp
+++ b/src/EPollRunLoop.cpp
@@ -152,9 +152,9 @@ void EPollRunLoop::run(Duration runInterval, Duration minSleep)
 			for(int x = 0; x < rv; x++)
 			{
 				Descriptor *descriptor = (Descriptor *)events[x].data.ptr;
-				if(events[x].events & EPOLLIN)
+				if(events[x].events & (EPOLLIN | EPOLLHUP | EPOLLERR)) // same as select
 					activatedReads.push(descriptor->m_items[READABLE]);
-				if(events[x].events & EPOLLOUT)
+				if(events[x].events & (EPOLLOUT | EPOLLERR))
 					activatedWrites.push(descriptor->m_items[WRITABLE]);
 				if(events[x].events & EPOLLERR)
 					activatedExceptions.push(descriptor->m_items[EXCEPTION]);
-- 
2.43.0


From 2d8e62a2ec1452ca08962efb600e29e91952065b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:49 +0000
Subject: [PATCH 17/31] fix: closing a performer abandoned waiting callers and
 raced with perform

---
 src/Performer.cpp | 57 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 18 deletions(-)

diff --git a/src/Performer.cpp b/src/Performer.cpp
index b0e7f7e..1c08324 100644
--- a/src/Performer.cpp
+++ b/src/Performer.cpp
@@ -32,6 +32,11 @@ struct Performer::Item {
 	{
 		if(m_task)
 			m_task();
+		signalComplete();
+	}
+
+	void signalComplete()
+	{
 		if(m_cond)
 		{
 			std::unique_lock<std::mutex> locked(*m_mutex);
@@ -68,8 +73,13 @@ Performer::~Performer()
 
 void Performer::close()
 {
-	if(not m_closed)
+	std::queue<std::shared_ptr<Item> > abandonedItems;
+
 	{
+		std::unique_lock<std::mutex> locked(m_mutex);
+
+		if(m_closed)
+			return;
 		m_closed = true;
 
 		if(m_runLoop)
@@ -78,34 +88,43 @@ void Performer::close()
 		::close(m_pipe[READ_PIPE_IDX]);
 		::close(m_pipe[WRITE_PIPE_IDX]);
 
-		fireItems();
+		std::swap(abandonedItems, m_items);
 	}
+
+	for(; not abandonedItems.empty(); abandonedItems.pop())
+		abandonedItems.front()->signalComplete(); // someone might be waiting
 }
 
 void Performer::perform(const Task &task, bool wait)
 {
-	if(m_closed)
-		return;
+	std::shared_ptr<Item> item;
 
-	if(wait and m_runLoop->isRunningInThisThread())
 	{
-		fireItems();
-		if(task)
-			task();
-		return;
-	}
+		std::unique_lock<std::mutex> locked(m_mutex); // so we can't be closed at the same time
 
-	std::shared_ptr<Item> item = std::make_shared<Item>(task, wait);
-	{
-		std::unique_lock<std::mutex> locked(m_mutex);
-		m_items.push(item);
+		if(m_closed)
+			return;
+
+		if(not(wait and m_runLoop->isRunningInThisThread()))
+		{
+			item = std::make_shared<Item>(task, wait);
+			m_items.push(item);
+
+			if(not m_signaled)
+			{
+				uint8_t buf[1] {};
+				m_signaled = true;
+				(void)write(m_pipe[WRITE_PIPE_IDX], buf, sizeof(buf));
+			}
+		}
 	}
 
-	if(not m_signaled)
+	if(not item)
 	{
-		uint8_t buf[1] {};
-		m_signaled = true;
-		(void)write(m_pipe[WRITE_PIPE_IDX], buf, sizeof(buf));
+		fireItems();
+		if(task and not m_closed)
+			task();
+		return;
 	}
 
 	if(wait)
@@ -140,6 +159,8 @@ void Performer::fireItems()
 
 		if(not m_closed)
 			each->fire();
+		else
+			each->signalComplete();
 	}
 }
 
-- 
2.43.0


From 33f2826c772cfe3641d913523273169295600da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:06 +0000
Subject: [PATCH 18/31] fix: the traffic class of packets received over IPv4
 was read past the byte the kernel provides

---
 src/PosixPlatformAdapter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/PosixPlatformAdapter.cpp b/src/PosixPlatformAdapter.cpp
index 162b290..079e3bf 100644
--- a/src/PosixPlatformAdapter.cpp
+++ b/src/PosixPlatformAdapter.cpp
@@ -266,7 +266,10 @@ long PosixPlatformAdapter::receiveOnePacket(int fd, int interfaceID)
 			 or ((IPPROTO_IPV6 == cmsg->cmsg_level) and (IPV6_TCLASS == cmsg->cmsg_type))
 			)
 			{
-				memcpy(&tos, CMSG_DATA(cmsg), sizeof(tos));
+				if(1 == cmsg->cmsg_len - CMSG_LEN(0)) // some platforms (including Linux for IPv4) give just a byte
+					tos = *CMSG_DATA(cmsg);
+				else
+					memcpy(&tos, CMSG_DATA(cmsg), sizeof(tos));
 				break;
 			}
 
-- 
2.43.0


From 6bc83897ab9637ab3f0e7cfac5c72f7f45985fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:16 +0000
Subject: [PATCH 19/31] fix: an adapter closed by a callback kept reading from
 and writing to its sockets

---
 src/PosixPlatformAdapter.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/PosixPlatformAdapter.cpp b/src/PosixPlatformAdapter.cpp
index 079e3bf..f21077c 100644
--- a/src/PosixPlatformAdapter.cpp
+++ b/src/PosixPlatformAdapter.cpp
@@ -142,16 +142,18 @@ bool PosixPlatformAdapter::notifyWhenInterfaceWritable(int interfaceID, const st
 {
 	if(m_interfaces.has(interfaceID))
 	{
+		std::shared_ptr<bool> isOpen = m_isOpen;
 		m_runloop->registerDescriptor(m_interfaces.at(interfaceID).m_fd, RunLoop::WRITABLE,
-			[this, onwritable] (RunLoop *sender, int fd, RunLoop::Condition cond) {
+			[this, isOpen, onwritable] (RunLoop *sender, int fd, RunLoop::Condition cond) {
+				std::shared_ptr<bool> stillOpen = isOpen; // we might be closed and unregistered in onwritable
 				size_t times = 0;
 				bool keepGoing = true;
-				while(keepGoing && (times < maxWritesPerInterfaceWritable))
+				while(keepGoing && *stillOpen && (times < maxWritesPerInterfaceWritable))
 				{
 					keepGoing = onwritable();
 					times++;
 				}
-				if(not keepGoing)
+				if(*stillOpen and not keepGoing)
 					sender->unregisterDescriptor(fd, RunLoop::WRITABLE);
 			});
 
@@ -230,8 +232,9 @@ void PosixPlatformAdapter::onShutdownComplete()
 
 void PosixPlatformAdapter::onInterfaceReadable(int fd, int interfaceID)
 {
+	std::shared_ptr<bool> isOpen = m_isOpen; // we might be closed (or deleted) while processing a packet
 	long rv;
-	do { rv = receiveOnePacket(fd, interfaceID); } while(rv >= 0);
+	do { rv = receiveOnePacket(fd, interfaceID); } while((rv >= 0) and *isOpen);
 }
 
 long PosixPlatformAdapter::receiveOnePacket(int fd, int interfaceID)
-- 
2.43.0


From 1e86082912955bdf4600514648e35f851983b2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:07 +0000
Subject: [PATCH 20/31] fix: work queued by a performer platform adapter ran
 after the adapter was destroyed

---
 include/rtmfp/PerformerPosixPlatformAdapter.hpp | 1 +
 src/PerformerPosixPlatformAdapter.cpp           | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/include/rtmfp/PerformerPosixPlatformAdapter.hpp b/include/rtmfp/PerformerPosixPlatformAdapter.hpp
index 11481b6..f895fbe 100644
--- a/include/rtmfp/PerformerPosixPlatformAdapter.hpp
+++ b/include/rtmfp/PerformerPosixPlatformAdapter.hpp
@@ -11,6 +11,7 @@ namespace com { namespace zenomt { namespace rtmfp {
 class PerformerPosixPlatformAdapter : public PosixPlatformAdapter {
 public:
 	PerformerPosixPlatformAdapter(RunLoop *mainRL, Performer *mainPerformer, Performer *workerPerformer = nullptr);
+	~PerformerPosixPlatformAdapter();
 
 	bool perform(unsigned long thread, const Task &task) override;
 
diff --git a/src/PerformerPosixPlatformAdapter.cpp b/src/PerformerPosixPlatformAdapter.cpp
index 62855cf..04dea5f 100644
--- a/src/PerformerPosixPlatformAdapter.cpp
+++ b/src/PerformerPosixPlatformAdapter.cpp
@@ -15,6 +15,11 @@ PerformerPosixPlatformAdapter::PerformerPosixPlatformAdapter(RunLoop *mainRL, Pe
 		m_workerPerformer = mainPerformer;
 }
 
+PerformerPosixPlatformAdapter::~PerformerPosixPlatformAdapter()
+{
+	close(); // so pending tasks won't run; our superclass's destructor can't do that
+}
+
 bool PerformerPosixPlatformAdapter::perform(unsigned long thread, const Task &task)
 {
 	std::shared_ptr<std::atomic_bool> isOpen = m_isOpen_performer;
-- 
2.43.0


From 257b6269e8bb28b5537a4c3f346bbbd3ef9447c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:11 +0000
Subject: [PATCH 21/31] fix: don't re-key a Flash crypto session that already
 has its keys

A second RIKeying (a duplicate from the network, or forged) can be queued
for combining before the first one opens the session. Combining again after
the shared secret was erased derived the session keys from an empty secret
(when the responder's DH key is static), and could turn on HMAC sending
without making an HMAC context (null dereference on the next packet).
---
 src/FlashCryptoAdapter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/FlashCryptoAdapter.cpp b/src/FlashCryptoAdapter.cpp
index 4dae557..1f26b6e 100644
--- a/src/FlashCryptoAdapter.cpp
+++ b/src/FlashCryptoAdapter.cpp
@@ -734,6 +734,9 @@ bool FlashCryptoKey::initiatorCombineResponderKeyingComponent(const uint8_t *res
 {
 	const uint8_t *componentLimit = responderComponent + len;
 
+	if(m_complete)
+		return false; // already keyed, the shared secret and DH context used for that are gone.
+
 	// try to fail on cheaper stuff first
 
 	uint8_t sseqFlags = negotiationOptionSearch(responderComponent, componentLimit, KEYING_OPTION_SSEQ_NEGOTIATION);
-- 
2.43.0


From cae37a3c2f77a248ce85d585f48a5e3db985cf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:22 +0000
Subject: [PATCH 22/31] fix: don't keep what a refused RIKeying negotiated

The options of a responder's keying component that is refused (for example
for a bad HMAC length) still changed what the initiator sends and requires,
so the session then keyed with the real component didn't match the far end
and its packets were decrypted to garbage or not at all.
---
 src/FlashCryptoAdapter.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/FlashCryptoAdapter.cpp b/src/FlashCryptoAdapter.cpp
index 1f26b6e..1888926 100644
--- a/src/FlashCryptoAdapter.cpp
+++ b/src/FlashCryptoAdapter.cpp
@@ -739,19 +739,24 @@ bool FlashCryptoKey::initiatorCombineResponderKeyingComponent(const uint8_t *res
 
 	// try to fail on cheaper stuff first
 
+	// only commit to what's negotiated once this component is acceptable, another one can still follow a bad one.
+	bool sseqSendAlways = m_sseqSendAlways;
+	bool sseqRecvRequired = m_sseqRecvRequired;
+	bool hmacSendAlways = m_hmacSendAlways;
+	bool hmacRecvRequired = m_hmacRecvRequired;
+
 	uint8_t sseqFlags = negotiationOptionSearch(responderComponent, componentLimit, KEYING_OPTION_SSEQ_NEGOTIATION);
-	if(not negotiateFlags(sseqFlags, m_sseqSendAlways, m_sseqRecvRequired))
+	if(not negotiateFlags(sseqFlags, sseqSendAlways, sseqRecvRequired))
 		return false;
 
 	uintmax_t hmacRxLen = 0; // an illegal value if receive is required
 	uint8_t hmacFlags = negotiationOptionSearch(responderComponent, componentLimit, KEYING_OPTION_HMAC_NEGOTIATION, &hmacRxLen);
-	if(not negotiateFlags(hmacFlags, m_hmacSendAlways, m_hmacRecvRequired))
+	if(not negotiateFlags(hmacFlags, hmacSendAlways, hmacRecvRequired))
 		return false;
-	if(m_hmacRecvRequired)
+	if(hmacRecvRequired)
 	{
 		if((hmacRxLen < FlashCryptoAdapter::MIN_HMAC_LENGTH) or (hmacRxLen > FlashCryptoAdapter::MAX_HMAC_LENGTH))
 			return false;
-		m_rxHMACLength = hmacRxLen;
 	}
 
 	if(m_publicKeyNeeded)
@@ -772,6 +777,13 @@ bool FlashCryptoKey::initiatorCombineResponderKeyingComponent(const uint8_t *res
 	}
 	// else we already computed the DH shared secret from a public key in their certificate
 
+	m_sseqSendAlways = sseqSendAlways;
+	m_sseqRecvRequired = sseqRecvRequired;
+	m_hmacSendAlways = hmacSendAlways;
+	m_hmacRecvRequired = hmacRecvRequired;
+	if(m_hmacRecvRequired)
+		m_rxHMACLength = hmacRxLen;
+
 	// this should always succeeed unless something terrible is happening
 	if(not computeKeysAndNonces(m_sknc.data(), m_sknc.size(), responderComponent, len))
 		return false;
-- 
2.43.0


From ae2824ad34d74cf6db5f800f15fd3ac08269b022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:34 +0000
Subject: [PATCH 23/31] fix: the peer keepalive period was set from the server
 keepalive period

---
 src/TCConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index 9e5ec4a..94e1e7b 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -828,7 +828,7 @@ void RTMFPTCConnection::onSetKeepaliveUserCommand(const uint8_t *payload, size_t
 	uint32_t peerPeriodMsec = (payload[6] << 24) + (payload[7] << 16) + (payload[8] << 8) + payload[9];
 
 	serverPeriodMsec = std::max(serverPeriodMsec, uint32_t(5000)); // RFC 7425 §5.3.4
-	peerPeriodMsec = std::max(serverPeriodMsec, uint32_t(5000)); // RFC 7425 §5.3.4
+	peerPeriodMsec = std::max(peerPeriodMsec, uint32_t(5000)); // RFC 7425 §5.3.4
 
 	m_controlRecv->setSessionKeepalivePeriod(serverPeriodMsec / 1000.0);
 	m_rtmfp->setDefaultSessionKeepalivePeriod(peerPeriodMsec / 1000.0);
-- 
2.43.0


From b8954645fbd22d4ce233bbf79e6f77a6ef569e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:34 +0000
Subject: [PATCH 24/31] fix: TCStream::send() ignored the timestamp

---
 src/TCConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index 94e1e7b..bcaca97 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -420,7 +420,7 @@ std::shared_ptr<WriteReceipt> TCStream::send(uint32_t timestamp, const std::stri
 	Bytes msg;
 	AMF0String(command).encode(msg);
 	AMF0::encode(args, msg);
-	return m_owner->write(m_streamID, TCMSG_DATA, 0, msg, INFINITY, INFINITY);
+	return m_owner->write(m_streamID, TCMSG_DATA, timestamp, msg, INFINITY, INFINITY);
 }
 
 std::shared_ptr<WriteReceipt> TCStream::sendAudio(uint32_t timestamp, const void *bytes, size_t len, Duration startWithin, Duration finishWithin)
-- 
2.43.0


From 5edfb8149e8855621fee0061310b7e8f436169dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:33 +0000
Subject: [PATCH 25/31] fix: an empty extended data message was read past its
 end

---
 src/TCConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index bcaca97..f4e565a 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -529,7 +529,7 @@ void TCStream::onDataMessage(uint8_t messageType, uint32_t timestamp, const uint
 	const uint8_t *cursor = payload;
 	const uint8_t *limit = cursor + len;
 
-	if((TCMSG_DATA_EX == messageType) and (0 != *cursor++))
+	if((TCMSG_DATA_EX == messageType) and ((0 == len) or (0 != *cursor++)))
 		return; // only format 0 is defined
 
 	auto command = AMF0::decode(&cursor, limit);
-- 
2.43.0


From ab5cbe3006f4374ac1aee7912dc90fff888797e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:57 +0000
Subject: [PATCH 26/31] fix: a createStream result between 0 and 1 became
 stream 0

---
 src/TCConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index f4e565a..0caa599 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -93,7 +93,7 @@ std::shared_ptr<TCStream> TCConnection::createStream()
 	basicTransact([this, netStream] (bool success, std::shared_ptr<AMF0> result) {
 		if(  (success)
 		 and (result)
-		 and (result->doubleValue() > 0)
+		 and (result->doubleValue() >= 1)
 		 and (result->doubleValue() <= double(UINT32_MAX))
 		 and (0 == m_netStreams.count(uint32_t(result->doubleValue())))
 		)
-- 
2.43.0


From 3c342d68dfd859b0edc92bb4ef188bd2187194cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:21 +0000
Subject: [PATCH 27/31] fix: survive closing and releasing an RTMFPTCConnection
 or a stream from its own callbacks

---
 include/rtmfp/TCConnection.hpp |  2 +-
 src/TCConnection.cpp           | 34 +++++++++++++++++++++++++---------
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/include/rtmfp/TCConnection.hpp b/include/rtmfp/TCConnection.hpp
index 2ba1482..536becb 100644
--- a/include/rtmfp/TCConnection.hpp
+++ b/include/rtmfp/TCConnection.hpp
@@ -216,7 +216,7 @@ protected:
 		std::shared_ptr<SendFlow> m_video;
 		std::shared_ptr<SendFlow> m_audio;
 		std::shared_ptr<SendFlow> m_data;
-		std::set<std::shared_ptr<RecvFlow>> m_recvFlows;
+		std::map<std::shared_ptr<RecvFlow>, std::shared_ptr<ReorderBuffer>> m_recvFlows;
 	};
 
 	using rtmp::TCConnection::write;
diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index 0caa599..1fbf7ee 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -615,7 +615,7 @@ bool RTMFPTCConnection::init(RTMFP *rtmfp, const Bytes &epd)
 		return false;
 	};
 	m_controlSend->notifyWhenWritable();
-	m_controlSend->onException = [this] (uintmax_t reason) { basicClose(true); };
+	m_controlSend->onException = [this, myself] (uintmax_t reason) { basicClose(true); };
 	m_controlSend->onRecvFlow = [this] (std::shared_ptr<RecvFlow> flow) { acceptFlow(flow); };
 
 	return true;
@@ -693,7 +693,8 @@ void RTMFPTCConnection::acceptFlow(std::shared_ptr<RecvFlow> flow)
 			return;
 		}
 		m_controlRecv = flow;
-		m_controlRecv->onComplete = [this] (bool error) { basicClose(error); };
+		auto myself = share_ref(this);
+		m_controlRecv->onComplete = [this, myself] (bool error) { basicClose(error); };
 		setOnMessage(m_controlRecv, 0, nullptr);
 
 		flow->accept();
@@ -711,14 +712,17 @@ void RTMFPTCConnection::acceptFlow(std::shared_ptr<RecvFlow> flow)
 		reorderBuffer = reorderBufferFactory(reorderWindowPeriod);
 
 	flow->onComplete = [this, flow, reorderBuffer, streamID] (bool error) {
+		auto myself = share_ref(this); // delivery can close and release us
 		if(reorderBuffer)
 			reorderBuffer->flush();
-		m_netStreamTransports[streamID].m_recvFlows.erase(flow);
+		auto it = m_netStreamTransports.find(streamID);
+		if(it != m_netStreamTransports.end())
+			it->second.m_recvFlows.erase(flow);
 	};
 
 	setOnMessage(flow, streamID, reorderBuffer);
 	flow->accept();
-	m_netStreamTransports[streamID].m_recvFlows.insert(flow);
+	m_netStreamTransports[streamID].m_recvFlows[flow] = reorderBuffer;
 }
 
 void RTMFPTCConnection::setOnMessage(std::shared_ptr<RecvFlow> flow, uint32_t streamID, std::shared_ptr<ReorderBuffer> reorderBuffer)
@@ -726,6 +730,7 @@ void RTMFPTCConnection::setOnMessage(std::shared_ptr<RecvFlow> flow, uint32_t st
 	if(reorderBuffer)
 	{
 		reorderBuffer->onMessage = [this, streamID] (const uint8_t *bytes, size_t len, uintmax_t sequenceNumber, size_t fragmentCount, bool isLate) {
+			auto myself = share_ref(this); // delivery can close and release us
 			if((not isLate) or shouldAlwaysDeliver(bytes, len))
 				deliverMessage(streamID, bytes, len);
 		};
@@ -734,16 +739,21 @@ void RTMFPTCConnection::setOnMessage(std::shared_ptr<RecvFlow> flow, uint32_t st
 	flow->onMessage = [this, streamID, flow, reorderBuffer] (const uint8_t *bytes, size_t len, uintmax_t sequenceNumber, size_t fragmentCount) {
 		uint32_t syncID = 0;
 		size_t count = 0;
+
+		auto myself = share_ref(this); // delivery can close the flow, which clears this handler and its captures, and release us
+		auto thisFlow = flow;
+		auto thisBuffer = reorderBuffer;
+
 		if(FlowSyncManager::parse(bytes, len, syncID, count))
 		{
-			m_syncManager.sync(syncID, count, flow);
+			m_syncManager.sync(syncID, count, thisFlow);
 			len = 0; // allow accounting for sequence numbers in reorder buffer; deliverMessage will drop empties
 		}
 
-		if(reorderBuffer)
+		if(thisBuffer)
 		{
-			reorderBuffer->insert(bytes, len, sequenceNumber, fragmentCount);
-			reorderBuffer->deliverThrough(flow->getCumulativeAckSequenceNumber());
+			thisBuffer->insert(bytes, len, sequenceNumber, fragmentCount);
+			thisBuffer->deliverThrough(thisFlow->getCumulativeAckSequenceNumber());
 		}
 		else
 			deliverMessage(streamID, bytes, len);
@@ -776,6 +786,8 @@ bool RTMFPTCConnection::shouldAlwaysDeliver(const uint8_t *bytes, size_t len)
 
 void RTMFPTCConnection::basicClose(bool isError)
 {
+	auto myself = share_ref(this); // the last other reference might be released during this method
+
 	TCConnection::basicClose(isError);
 
 	if(m_controlSend) m_controlSend->close();
@@ -843,7 +855,11 @@ RTMFPTCConnection::NetStreamTransport::~NetStreamTransport()
 	if(m_data) m_data->close();
 
 	for(auto it = m_recvFlows.begin(); it != m_recvFlows.end(); it++)
-		(*it)->close();
+	{
+		if(it->second)
+			it->second->close(); // it can be delivering
+		it->first->close();
+	}
 }
 
 SendFlow * RTMFPTCConnection::NetStreamTransport::openFlowForType(const std::shared_ptr<RecvFlow> &control, uint32_t streamID, uint8_t messageType)
-- 
2.43.0


From bef53a63763389c3c4acdf1748051e9b03ec7aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:32 +0000
Subject: [PATCH 28/31] fix: an IIKeying does not override a session that
 opened while it was being checked

In a simultaneous open (glare) the keying of the losing attempt can still be
in the certificate and signature checks when the winning attempt opens. It
then took the session that had just opened for a stale one and tore it down.
---
 src/RTMFP.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/RTMFP.cpp b/src/RTMFP.cpp
index 9a54dae..1d62217 100644
--- a/src/RTMFP.cpp
+++ b/src/RTMFP.cpp
@@ -591,6 +591,7 @@ struct IIKeyingState {
 	Bytes m_signedParams;
 	Bytes m_isignature;
 	std::shared_ptr<CryptoCert> m_cryptoCert;
+	std::shared_ptr<Session> m_previousSession;
 	std::shared_ptr<SessionCryptoKey> m_key;
 	std::shared_ptr<Session> m_session;
 	Bytes m_skrc;
@@ -632,6 +633,8 @@ void RTMFP::onIIKeying(uint32_t initiatorSessionID, const uint8_t *cookie, size_
 	if(m_waitingPerformCount >= MAX_WAITING_PERFORM_COUNT)
 		return; // we're too busy for this right now
 
+	state->m_previousSession = findOpenSessionByAddress(state->m_addr);
+
 	auto myself = share_ref(this);
 	m_waitingPerformCount++;
 	m_platform->perform(state->m_threadNum, [myself, state] {
@@ -655,6 +658,9 @@ void RTMFP::onIIKeying(uint32_t initiatorSessionID, const uint8_t *cookie, size_
 					auto overrideSession = myself->findOpenSessionByAddress(state->m_addr);
 					if(overrideSession)
 					{
+						if(overrideSession != state->m_previousSession)
+							return; // it opened while this IIKeying was being checked (glare), so it's not stale.
+
 						if(not state->m_cryptoCert->doesCertOverrideSession(overrideSession->m_cryptoCert))
 							return;
 
-- 
2.43.0


From 763cd9b8e2dcefac26a118dcd41dbafdb865fe18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:32 +0000
Subject: [PATCH 29/31] fix: an opening session to somebody else is not in
 glare with a peer at the same address

An attempt to open a session to one endpoint that has the address of another
among its candidates made this endpoint ignore that other endpoint's own
attempts to open a session for as long as it lasted.
---
 include/rtmfp/rtmfp.hpp | 2 +-
 src/RTMFP.cpp           | 7 +++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/rtmfp/rtmfp.hpp b/include/rtmfp/rtmfp.hpp
index 52ac5bf..0b50537 100644
--- a/include/rtmfp/rtmfp.hpp
+++ b/include/rtmfp/rtmfp.hpp
@@ -120,7 +120,7 @@ protected:
 	CookieCheck checkCookie(const uint8_t *cookie, size_t cookieLen, const struct sockaddr *addr) const;
 	void sendCookieChange(uint32_t sessionID, const uint8_t *cookie, size_t cookieLen, int interfaceID, const struct sockaddr *addr);
 	std::shared_ptr<Session> makeSession(std::shared_ptr<SessionCryptoKey>, unsigned role);
-	std::shared_ptr<Session> findOpeningSessionByAddress(const Address &addr);
+	std::shared_ptr<Session> findOpeningSessionByAddress(const Address &addr, const std::shared_ptr<CryptoCert> &cert);
 	std::shared_ptr<Session> findOpeningSessionByEPD(const Bytes &epd, const Session *exclude);
 	std::shared_ptr<Session> findOpeningSessionByTag(const Bytes &epd);
 	std::shared_ptr<Session> findOpenSessionByAddress(const Address &addr);
diff --git a/src/RTMFP.cpp b/src/RTMFP.cpp
index 1d62217..a3edbec 100644
--- a/src/RTMFP.cpp
+++ b/src/RTMFP.cpp
@@ -349,12 +349,12 @@ std::shared_ptr<Session> RTMFP::makeSession(std::shared_ptr<SessionCryptoKey> ke
 	return rv;
 }
 
-std::shared_ptr<Session> RTMFP::findOpeningSessionByAddress(const Address &addr)
+std::shared_ptr<Session> RTMFP::findOpeningSessionByAddress(const Address &addr, const std::shared_ptr<CryptoCert> &cert)
 {
 	for(long name = m_openingSessions.first(); name > m_openingSessions.SENTINEL; name = m_openingSessions.next(name))
 	{
 		auto &each = m_openingSessions.at(name);
-		if(each->isOpeningToAddress(addr))
+		if(each->isOpeningToAddress(addr) and cert->isSelectedByEPD(each->m_epd.data(), each->m_epd.size()))
 			return each;
 	}
 	return std::shared_ptr<Session> (nullptr);
@@ -667,13 +667,12 @@ void RTMFP::onIIKeying(uint32_t initiatorSessionID, const uint8_t *cookie, size_
 						overrideSession->abort(); // this session is (hopefully) stale
 					}
 
-					auto glareSession = myself->findOpeningSessionByAddress(state->m_addr);
+					auto glareSession = myself->findOpeningSessionByAddress(state->m_addr, state->m_cryptoCert);
 					bool abortGlareSession = false;
 					if(glareSession)
 					{
 						if(myself->m_crypto->checkNearWinsGlare(state->m_cryptoCert))
 							return; // ignore this IIKeying.
-							// TODO: should we check that glareSession's epd is selected by IIKeying's cert too?
 
 						// they win. per RFC 7016 §3.5.1.3 abort our opening session if the IIKeying cert
 						// overrides the opening session cert, which we only know in S_KEYING_SENT.
-- 
2.43.0


From 2d3dbec5550bdb4788d3fbc7acfc92c1c4742c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:30 +0000
Subject: [PATCH 30/31] fix: of several opening sessions toward one peer the
 most advanced one is in glare

---
 src/RTMFP.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/RTMFP.cpp b/src/RTMFP.cpp
index a3edbec..a70c544 100644
--- a/src/RTMFP.cpp
+++ b/src/RTMFP.cpp
@@ -351,13 +351,19 @@ std::shared_ptr<Session> RTMFP::makeSession(std::shared_ptr<SessionCryptoKey> ke
 
 std::shared_ptr<Session> RTMFP::findOpeningSessionByAddress(const Address &addr, const std::shared_ptr<CryptoCert> &cert)
 {
+	std::shared_ptr<Session> rv;
 	for(long name = m_openingSessions.first(); name > m_openingSessions.SENTINEL; name = m_openingSessions.next(name))
 	{
 		auto &each = m_openingSessions.at(name);
 		if(each->isOpeningToAddress(addr) and cert->isSelectedByEPD(each->m_epd.data(), each->m_epd.size()))
-			return each;
+		{
+			if(Session::S_KEYING_SENT == each->m_state)
+				return each; // the most advanced attempt is the one in glare
+			if(not rv)
+				rv = each;
+		}
 	}
-	return std::shared_ptr<Session> (nullptr);
+	return rv;
 }
 
 std::shared_ptr<Session> RTMFP::findOpeningSessionByEPD(const Bytes &epd, const Session *exclude)
-- 
2.43.0


From 8005aaa322623cac6b5c95e94f35ca0fdc0a1cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:29 +0000
Subject: [PATCH 31/31] fix: keep watching for a dead peer after a time-out
 with nothing that can be retransmitted

---
 src/Session.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Session.cpp b/src/Session.cpp
index 4a1c555..ff447ae 100644
--- a/src/Session.cpp
+++ b/src/Session.cpp
@@ -1060,6 +1060,8 @@ void Session::onTimeoutAlarm()
 
 		if(m_keepalive_outstanding)
 			sendKeepalivePing();
+		else
+			setKeepaliveAlarm(); // nothing might be able to be retransmitted right now (receiver's window closed)
 	}
 }
 
-- 
2.43.0

