From cfd124d3dca1bb6bbbcdf29697f82e04c0d532fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:30 +0000
Subject: [PATCH 01/27] fix: SendFlow: don't hold references into the send
 queue across receipt callbacks

Abandoning a message runs its receipt's onFinished, which may write to the
same flow; the append can reallocate the queue's nodes and leave a dangling
reference (heap use after free in assembleData and trimSendQueue).
---
 src/SendFlow.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index cbc86aa..d1bdf97 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -346,7 +346,7 @@ void SendFlow::trimSendQueue(Time now)
 	{
 		if(m_send_queue.size() < 2)
 			break;
-		auto &first = m_send_queue.firstValue();
+		auto first = m_send_queue.firstValue(); // not by reference, abandoning can call out and change the queue
 		if(first->m_in_flight)
 			break;
 		first->m_receipt->abandonIfNeeded(now);
@@ -376,7 +376,7 @@ void SendFlow::scheduleTrimSendQueue()
 
 uintmax_t SendFlow::findForwardSequenceNumber(Time now)
 {
-	auto &first = m_send_queue.firstValue();
+	auto first = m_send_queue.firstValue(); // not by reference, abandoning can call out and change the queue
 
 	if(not first->m_in_flight)
 		first->m_receipt->abandonIfNeeded(now);
@@ -428,7 +428,7 @@ bool SendFlow::assembleData(PacketAssembler *packet, int pri)
 		if(m_outstanding_bytes >= m_rx_buffer_size)
 			break;
 
-		auto &frag = m_send_queue.at(name);
+		auto frag = m_send_queue.at(name); // not by reference, abandoning can call out and change the queue
 		if(frag->m_in_flight)
 			continue;
 
-- 
2.43.0


From 6ea5c2c5edffed0a44bcb673b601d6d25cbb3c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:22 +0000
Subject: [PATCH 02/27] fix: SendFlow: mark the final fragment even if close()
 is called from the abandonment of that fragment

The FIN flag was computed before abandoning the fragment.  When the receipt's
onFinished closed the flow, close() chose this not-yet-sent fragment as the
final one, but it was sent without the FIN mark, so the receiver never learned
the flow was complete.
---
 src/SendFlow.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index d1bdf97..d193413 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -432,12 +432,11 @@ bool SendFlow::assembleData(PacketAssembler *packet, int pri)
 		if(frag->m_in_flight)
 			continue;
 
-		uint8_t flag_fin = frag->m_sequence_number == m_final_sn ? USERDATA_FLAG_FIN : 0;
-
 		if(frag->m_ever_sent and not frag->m_receipt->retransmit)
 			frag->m_receipt->abandon();
 		frag->m_receipt->abandonIfNeeded(now);
 		uint8_t flag_abn = frag->m_receipt->isAbandoned() ? USERDATA_FLAG_ABN : 0;
+		uint8_t flag_fin = frag->m_sequence_number == m_final_sn ? USERDATA_FLAG_FIN : 0; // after abandoning, which can call out and close()
 
 		// departure from §3.6.2.3: we send a fragment even if abandoned (though with
 		// the ABN flag set and no data), so the receiver can potentially save an RTT
-- 
2.43.0


From 4e9a0fc102b76baefbeb87e5dc41694601010c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:07 +0000
Subject: [PATCH 03/27] fix: initialise the reorder buffer's highest seen
 sequence number

flush() before the first insert, and any flush after it, delivered through
an indeterminate number.
---
 src/ReorderBuffer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ReorderBuffer.cpp b/src/ReorderBuffer.cpp
index 591f309..9e79aa5 100644
--- a/src/ReorderBuffer.cpp
+++ b/src/ReorderBuffer.cpp
@@ -21,7 +21,8 @@ ReorderBuffer::Message::Message(const uint8_t *payload, size_t len, uintmax_t se
 
 ReorderBuffer::ReorderBuffer(Duration windowPeriod) :
 	m_csn(0),
-	m_deliveredThrough(0)
+	m_deliveredThrough(0),
+	m_highestSeen(0)
 {
 	m_reorderPeriod = std::max(windowPeriod, Duration(0));
 }
-- 
2.43.0


From a29d71afd681ecbeae53777f83b2d1355f415aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:33 +0000
Subject: [PATCH 04/27] fix: let the reorder buffer's callback use the reorder
 buffer

A message was still queued while it was being handed over, so calling
insert(), deliverThrough() or flush() from onMessage handed it over again
and then erased through an invalid iterator, calling close() destroyed the
function and the message in use, and a message queued from onMessage with
an expired window was stranded without a timer.
---
 src/ReorderBuffer.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/ReorderBuffer.cpp b/src/ReorderBuffer.cpp
index 9e79aa5..64eeb5b 100644
--- a/src/ReorderBuffer.cpp
+++ b/src/ReorderBuffer.cpp
@@ -112,34 +112,35 @@ bool ReorderBuffer::isLate(uintmax_t sequenceNumber) const
 void ReorderBuffer::deliverMessage(const uint8_t *payload, size_t len, uintmax_t sequenceNumber, size_t fragmentCount)
 {
 	uintmax_t lastSequenceNumber = _lastSN(sequenceNumber, fragmentCount);
-
-	if(onMessage)
-		onMessage(payload, len, sequenceNumber, fragmentCount, isLate(lastSequenceNumber));
+	bool late = isLate(lastSequenceNumber);
 
 	m_csn = std::max(m_csn, lastSequenceNumber);
 	m_deliveredThrough = std::max(m_deliveredThrough, lastSequenceNumber);
+
+	auto onmessage_f = onMessage; // in case it calls close()
+	if(onmessage_f)
+		onmessage_f(payload, len, sequenceNumber, fragmentCount, late);
 }
 
 void ReorderBuffer::tryDeliver()
 {
 	Time now = getCurrentTime();
 	findCSN(now); // advance m_csn for old messages
-	
+
 	while(not m_messagesBySequence.empty())
 	{
 		auto it = m_messagesBySequence.begin();
 		if(shouldDeliverNow(it->first))
 		{
-			auto &message_ptr = it->second;
+			auto message_ptr = it->second;
+			m_messagesBySequence.erase(it); // before delivering, onMessage might change the buffer
 			deliverMessage(message_ptr->m_payload.data(), message_ptr->m_payload.size(), message_ptr->m_sequenceNumber, message_ptr->m_fragmentCount);
-			m_messagesBySequence.erase(it);
+			findCSN(now); // trim delivered ones from m_messagesByTime, and advance for any onMessage added
 		}
 		else
 			break;
 	}
 
-	findCSN(now); // also trim delivered ones from m_messagesByTime
-
 	scheduleDelivery();
 
 	assert(m_messagesBySequence.empty() == m_messagesByTime.empty());
-- 
2.43.0


From 8ad0539e7c6c6b07c6717b9fe658d610f5c4a26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:53 +0000
Subject: [PATCH 05/27] fix: parse flow synchronisation counts of 2^31 and more

The count was sign-extended to the width of size_t.
---
 src/FlowSyncManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FlowSyncManager.cpp b/src/FlowSyncManager.cpp
index 0d8c2e0..677ba00 100644
--- a/src/FlowSyncManager.cpp
+++ b/src/FlowSyncManager.cpp
@@ -90,7 +90,7 @@ size_t FlowSyncManager::parseUserCommandPayload(const uint8_t *payload, const ui
 		return 0;
 
 	syncID = (payload[0] << 24) | (payload[1] << 16) | (payload[2] << 8) | payload[3];
-	count = (payload[4] << 24) | (payload[5] << 16) | (payload[6] << 8) | payload[7];
+	count = (uint32_t(payload[4]) << 24) | (payload[5] << 16) | (payload[6] << 8) | payload[7];
 
 	return 8;
 }
-- 
2.43.0


From b53dfeaa1c9e3d10da084e1389346a21dab150fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:53 +0000
Subject: [PATCH 06/27] fix: EPollRunLoop: a pipe at end of file is readable

epoll reports only EPOLLHUP for an empty pipe with no writer left, so the
READABLE action was never called and run() span.
---
 src/EPollRunLoop.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EPollRunLoop.cpp b/src/EPollRunLoop.cpp
index 083bfb6..6305eea 100644
--- a/src/EPollRunLoop.cpp
+++ b/src/EPollRunLoop.cpp
@@ -152,7 +152,7 @@ void EPollRunLoop::run(Duration runInterval, Duration minSleep)
 			for(int x = 0; x < rv; x++)
 			{
 				Descriptor *descriptor = (Descriptor *)events[x].data.ptr;
-				if(events[x].events & EPOLLIN)
+				if(events[x].events & (EPOLLIN | EPOLLHUP)) // hangup without EPOLLIN is end of file, as for select()
 					activatedReads.push(descriptor->m_items[READABLE]);
 				if(events[x].events & EPOLLOUT)
 					activatedWrites.push(descriptor->m_items[WRITABLE]);
-- 
2.43.0


From e17516079749f49ba3aad84c3954d5810729f153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:54 +0000
Subject: [PATCH 07/27] fix: closing a performer releases those waiting, and is
 safe while others submit

Tasks still queued when a performer was closed were dropped without waking
whoever waited for them, and a task submitted while close() ran could be
queued after it, with the same effect, use the run loop pointer close() had
reset, or write to a descriptor it had closed.
---
 src/Performer.cpp | 54 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/src/Performer.cpp b/src/Performer.cpp
index b0e7f7e..8f6e037 100644
--- a/src/Performer.cpp
+++ b/src/Performer.cpp
@@ -32,6 +32,11 @@ struct Performer::Item {
 	{
 		if(m_task)
 			m_task();
+		complete();
+	}
+
+	void complete()
+	{
 		if(m_cond)
 		{
 			std::unique_lock<std::mutex> locked(*m_mutex);
@@ -68,8 +73,11 @@ Performer::~Performer()
 
 void Performer::close()
 {
-	if(not m_closed)
 	{
+		std::unique_lock<std::mutex> locked(m_mutex);
+		if(m_closed)
+			return;
+
 		m_closed = true;
 
 		if(m_runLoop)
@@ -77,35 +85,41 @@ void Performer::close()
 		m_runLoop = nullptr;
 		::close(m_pipe[READ_PIPE_IDX]);
 		::close(m_pipe[WRITE_PIPE_IDX]);
-
-		fireItems();
 	}
+
+	fireItems();
 }
 
 void Performer::perform(const Task &task, bool wait)
 {
-	if(m_closed)
-		return;
+	std::shared_ptr<Item> item;
 
-	if(wait and m_runLoop->isRunningInThisThread())
 	{
-		fireItems();
-		if(task)
-			task();
-		return;
-	}
+		std::unique_lock<std::mutex> locked(m_mutex); // so close() can't happen in between
 
-	std::shared_ptr<Item> item = std::make_shared<Item>(task, wait);
-	{
-		std::unique_lock<std::mutex> locked(m_mutex);
-		m_items.push(item);
+		if(m_closed)
+			return;
+
+		if(not (wait and m_runLoop->isRunningInThisThread()))
+		{
+			item = std::make_shared<Item>(task, wait);
+			m_items.push(item);
+
+			if(not m_signaled)
+			{
+				uint8_t buf[1] {};
+				m_signaled = true;
+				(void)write(m_pipe[WRITE_PIPE_IDX], buf, sizeof(buf));
+			}
+		}
 	}
 
-	if(not m_signaled)
+	if(not item)
 	{
-		uint8_t buf[1] {};
-		m_signaled = true;
-		(void)write(m_pipe[WRITE_PIPE_IDX], buf, sizeof(buf));
+		fireItems();
+		if(task)
+			task();
+		return;
 	}
 
 	if(wait)
@@ -140,6 +154,8 @@ void Performer::fireItems()
 
 		if(not m_closed)
 			each->fire();
+		else
+			each->complete(); // don't leave anyone waiting
 	}
 }
 
-- 
2.43.0


From 3a74a92f2132e04883398c7821e9bf498dfbafe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:14 +0000
Subject: [PATCH 08/27] fix: ignore an IIKeying when winning glare as of its
 arrival

If our own session finishes opening while the glaring IIKeying is still being
checked, the stale IIKeying used to replace the session both ends had agreed on.
---
 src/RTMFP.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/RTMFP.cpp b/src/RTMFP.cpp
index 9a54dae..d8d2223 100644
--- a/src/RTMFP.cpp
+++ b/src/RTMFP.cpp
@@ -629,6 +629,10 @@ void RTMFP::onIIKeying(uint32_t initiatorSessionID, const uint8_t *cookie, size_
 	if(tryRIKeyingRetransmit(state->m_interfaceID, state->m_addr, state->m_isid, state->m_skic))
 		return;
 
+	// if we win glare now, ignore this IIKeying even if our opening session opens before we finish checking it.
+	if(findOpeningSessionByAddress(state->m_addr) and m_crypto->checkNearWinsGlare(cryptoCert))
+		return;
+
 	if(m_waitingPerformCount >= MAX_WAITING_PERFORM_COUNT)
 		return; // we're too busy for this right now
 
-- 
2.43.0


From ecc4f3bed6208f5b73acf942745873ab54f94505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:32 +0000
Subject: [PATCH 09/27] fix: join flows only to an opening session whose
 certificate they select

A flow still saying hello was moved to any other opening session that was about
to be joined, so it could be bound to a peer other than the one it asked for.
---
 src/SendFlow.cpp | 1 +
 src/Session.cpp  | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index d193413..47222ba 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -290,6 +290,7 @@ void SendFlow::onSessionWillOpen(std::shared_ptr<Session> session)
 	if(  (m_openingSession)
 	 and (session != m_openingSession)
 	 and (Session::S_IHELLO_SENT == m_openingSession->m_state)
+	 and (session->m_cryptoCert->isSelectedByEPD(m_epd.data(), m_epd.size()))
 	)
 	{
 		std::shared_ptr<Session> previousSession = m_openingSession;
diff --git a/src/Session.cpp b/src/Session.cpp
index f2a7e56..56e85cc 100644
--- a/src/Session.cpp
+++ b/src/Session.cpp
@@ -1284,7 +1284,7 @@ void Session::onRHello(std::shared_ptr<Session> myself, const uint8_t *cookie, s
 			}
 
 			existingSession = myself->m_rtmfp->findOpeningSessionByEPD(state->m_canonicalEPD, myself.get());
-			if(existingSession)
+			if(existingSession and existingSession->m_cryptoCert->isSelectedByEPD(myself->m_epd.data(), myself->m_epd.size()))
 			{
 				myself->m_rtmfp->onSessionWillOpen(existingSession);
 				myself->abort();
-- 
2.43.0


From 6232feb7d6f3e8d3066ce349b5d2d3f6289a6951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:07 +0000
Subject: [PATCH 10/27] fix: abort every overridden keying session when losing
 glare

Only the first opening session to the address was considered, so with two
attempts to one peer the other could go on keying and later replace the session
both ends had agreed on.
---
 src/RTMFP.cpp | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/RTMFP.cpp b/src/RTMFP.cpp
index d8d2223..b7513e2 100644
--- a/src/RTMFP.cpp
+++ b/src/RTMFP.cpp
@@ -665,19 +665,9 @@ void RTMFP::onIIKeying(uint32_t initiatorSessionID, const uint8_t *cookie, size_
 						overrideSession->abort(); // this session is (hopefully) stale
 					}
 
-					auto glareSession = myself->findOpeningSessionByAddress(state->m_addr);
-					bool abortGlareSession = false;
-					if(glareSession)
-					{
-						if(myself->m_crypto->checkNearWinsGlare(state->m_cryptoCert))
-							return; // ignore this IIKeying.
-							// TODO: should we check that glareSession's epd is selected by IIKeying's cert too?
-
-						// they win. per RFC 7016 §3.5.1.3 abort our opening session if the IIKeying cert
-						// overrides the opening session cert, which we only know in S_KEYING_SENT.
-						if((Session::S_KEYING_SENT == glareSession->m_state) and state->m_cryptoCert->doesCertOverrideSession(glareSession->m_cryptoCert))
-							abortGlareSession = true; // we'll wait until after the new session opens so waiting flows can bind to it
-					}
+					if(myself->findOpeningSessionByAddress(state->m_addr) and myself->m_crypto->checkNearWinsGlare(state->m_cryptoCert))
+						return; // ignore this IIKeying.
+						// TODO: should we check that the opening session's epd is selected by IIKeying's cert too?
 
 					auto session = myself->makeSession(state->m_key, HEADER_MODE_RESPONDER);
 
@@ -689,8 +679,17 @@ void RTMFP::onIIKeying(uint32_t initiatorSessionID, const uint8_t *cookie, size_
 
 					session->setOpen(session, state->m_isid);
 
-					if(abortGlareSession)
-						glareSession->abort();
+					// they win glare. per RFC 7016 §3.5.1.3 abort our opening sessions if the IIKeying cert
+					// overrides the opening session cert, which we only know in S_KEYING_SENT. we waited until
+					// after the new session opened so waiting flows could bind to it.
+					myself->m_openingSessions.safeValuesDo([&] (std::shared_ptr<Session> &each) {
+						if(  (Session::S_KEYING_SENT == each->m_state)
+						 and each->isOpeningToAddress(state->m_addr)
+						 and state->m_cryptoCert->doesCertOverrideSession(each->m_cryptoCert)
+						)
+							each->abort();
+						return true;
+					});
 
 					myself->m_platform->perform(state->m_threadNum, [myself, state] {
 						myself->makeRIKeyingChunk(state->m_rikeying, state->m_session->m_rxSessionID, state->m_skrc, state->m_skic, state->m_cryptoCert);
-- 
2.43.0


From a81aa35eaac532e1e0db42fc65bb8e93cb8a37bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:25 +0000
Subject: [PATCH 11/27] fix: survive a session closing from a receipt while
 processing acks or assembling data

---
 src/SendFlow.cpp | 6 +++++-
 src/Session.cpp  | 8 +++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index 47222ba..a6296c0 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -399,6 +399,8 @@ bool SendFlow::assembleData(PacketAssembler *packet, int pri)
 
 	Time now = m_rtmfp->getCurrentTime();
 	trimSendQueue(now);
+	if(m_send_queue.empty()) // abandoning can call out and close the session
+		return false;
 	uintmax_t fsn = findForwardSequenceNumber(now);
 	bool firstChunk = true;
 	uintmax_t previousSN = 0;
@@ -436,6 +438,8 @@ bool SendFlow::assembleData(PacketAssembler *packet, int pri)
 		if(frag->m_ever_sent and not frag->m_receipt->retransmit)
 			frag->m_receipt->abandon();
 		frag->m_receipt->abandonIfNeeded(now);
+		if(not m_session)
+			return false; // abandoning called out and closed the session
 		uint8_t flag_abn = frag->m_receipt->isAbandoned() ? USERDATA_FLAG_ABN : 0;
 		uint8_t flag_fin = frag->m_sequence_number == m_final_sn ? USERDATA_FLAG_FIN : 0; // after abandoning, which can call out and close()
 
@@ -513,7 +517,7 @@ overrun:
 
 void SendFlow::ackRange(long &name, uintmax_t ackFrom, uintmax_t ackTo)
 {
-	while(name > 0)
+	while(m_send_queue.has(name)) // a receipt can call out and close the session, clearing the queue
 	{
 		long next = m_send_queue.next(name);
 
diff --git a/src/Session.cpp b/src/Session.cpp
index 56e85cc..cdb59cc 100644
--- a/src/Session.cpp
+++ b/src/Session.cpp
@@ -1507,7 +1507,8 @@ bool Session::onInterfaceWritable(int interfaceID, int priority)
 			List<std::shared_ptr<SendFlow> > &flows = m_readyFlows[priority];
 			while(not flows.empty())
 			{
-				if(flows.firstValue()->assembleData(&packet, priority))
+				auto flow = flows.firstValue(); // not by reference, abandoning can call out and close the session
+				if(flow->assembleData(&packet, priority))
 				{
 					flows.moveNameToTail(flows.first());
 					m_next_tsn++;
@@ -1530,7 +1531,7 @@ bool Session::onInterfaceWritable(int interfaceID, int priority)
 		}
 	}
 
-	if(packet.remaining() == startingSize)
+	if((S_OPEN != m_state) or (packet.remaining() == startingSize))
 		return false;
 
 	// else we put something in the packet, try to piggyback any waiting acks
@@ -2059,7 +2060,8 @@ void Session::onAckChunk(uint8_t mode, uint8_t chunkType, const uint8_t *chunk,
 		else
 			bufferBytesAvailable = bufferBlocksAvailable * 1024;
 
-		m_sendFlows.at((long)flowID)->onAck(chunkType, bufferBytesAvailable, cumulativeAck, cursor, limit);
+		auto flow = m_sendFlows.at((long)flowID); // receipts can call out and close the session
+		flow->onAck(chunkType, bufferBytesAvailable, cumulativeAck, cursor, limit);
 		m_any_acks = true;
 		m_keepalive_outstanding = false;
 		m_retransmit_deadline_epoch = INFINITY;
-- 
2.43.0


From 12a16276aa187403bce2d8e66fd27be05a720fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:35 +0000
Subject: [PATCH 12/27] fix: open a new session rather than a flow on a closing
 one

---
 src/RTMFP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RTMFP.cpp b/src/RTMFP.cpp
index b7513e2..8d153ae 100644
--- a/src/RTMFP.cpp
+++ b/src/RTMFP.cpp
@@ -88,7 +88,7 @@ std::shared_ptr<SendFlow> RTMFP::openFlow(const Bytes &epd, const Bytes &metadat
 
 	rv = share_ref(new SendFlow(this, epd, metadata, nullptr, pri), false);
 	auto session = findOpenSessionByEPD(epd);
-	if(session)
+	if(session and (Session::S_OPEN == session->m_state)) // not one whose flows are being told it is closing
 	{
 		rv->onSessionDidOpen(rv, session);
 		return rv;
-- 
2.43.0


From 780ad702fd03f22bc9d9af14fafde3b7e9482643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:10 +0000
Subject: [PATCH 13/27] fix: SendFlow: changing the priority of a flow that has
 no session yet

---
 src/SendFlow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index a6296c0..9cbea3d 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -208,7 +208,7 @@ void SendFlow::setPriority(Priority pri)
 	bool changed = pri != m_priority;
 	m_priority = pri;
 
-	if(changed)
+	if(changed and m_session)
 		scheduleForTransmission();
 }
 
-- 
2.43.0


From 267db3bcf8c48dd93af99e91c0f307aea8630d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:27 +0000
Subject: [PATCH 14/27] fix: SendFlow: tell the receiver about abandoned
 fragments when nothing else is left to send

---
 include/rtmfp/rtmfp.hpp |  1 +
 src/SendFlow.cpp        | 20 ++++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/include/rtmfp/rtmfp.hpp b/include/rtmfp/rtmfp.hpp
index f0c8e3d..a41e964 100644
--- a/include/rtmfp/rtmfp.hpp
+++ b/include/rtmfp/rtmfp.hpp
@@ -293,6 +293,7 @@ protected:
 	bool isMaybeReadyForTransmission();
 	void trimSendQueue(Time now);
 	void scheduleTrimSendQueue();
+	void queueGapNotice();
 	uintmax_t findForwardSequenceNumber(Time now);
 	bool assembleData(PacketAssembler *packet, int pri);
 	void ackRange(long &name, uintmax_t ackFrom, uintmax_t ackTo);
diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index 9cbea3d..8309c00 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -569,6 +569,8 @@ void SendFlow::onAck(uint8_t chunkType, size_t bufferBytesAvailable, uintmax_t c
 		m_persistTimer.reset();
 	}
 
+	bool hadUnacknowledged = not m_send_queue.empty();
+
 	long name = m_send_queue.first();
 	ackRange(name, 0, cumulativeAck);
 
@@ -603,6 +605,9 @@ void SendFlow::onAck(uint8_t chunkType, size_t bufferBytesAvailable, uintmax_t c
 		// TODO: nobody actually sends these yet
 	}
 
+	if(hadUnacknowledged and m_send_queue.empty() and m_session and (cumulativeAck < m_next_sn - UINTMAX_C(1)))
+		queueGapNotice();
+
 	if((F_CLOSING == m_state) and m_send_queue.empty())
 	{
 		m_state = F_COMPLETE_LINGER;
@@ -616,6 +621,21 @@ void SendFlow::onAck(uint8_t chunkType, size_t bufferBytesAvailable, uintmax_t c
 	}
 }
 
+void SendFlow::queueGapNotice()
+{
+	// everything still queued has been received, but the receiver is missing something
+	// that was abandoned and trimmed, and nothing remains to carry the forward sequence
+	// number past it. send the last sequence number again, abandoned. don't reuse it
+	// for the final fragment if we're closed later, the receiver ignores duplicates.
+	auto receipt = share_ref(new IssuerWriteReceipt(m_rtmfp->getCurrentTime(), -1, -1), false);
+	receipt->useCountUp();
+	receipt->abandon();
+
+	auto fragment = share_ref(new SendFrag(this, nullptr, 0, m_next_sn - UINTMAX_C(1), USERDATA_FRA_WHOLE, receipt), false);
+	fragment->m_ever_sent = true;
+	m_send_queue.append(fragment);
+}
+
 void SendFlow::onExceptionReport(uintmax_t exceptionCode)
 {
 	retain();
-- 
2.43.0


From 77988d555e7ec30d897afebdf31fe527e457d335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:13 +0000
Subject: [PATCH 15/27] fix: RecvFlow: do not join fragments across message
 boundaries

A fragment joined to the END of a preceding message (or to the BEGIN of a
following one) kept naming a fragment that is removed when that message is
delivered; the next fragment then threw std::out_of_range from List::at, so a
peer sending malformed fragmentation could crash the process.
---
 src/RecvFlow.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/RecvFlow.cpp b/src/RecvFlow.cpp
index db091f0..00500c9 100644
--- a/src/RecvFlow.cpp
+++ b/src/RecvFlow.cpp
@@ -299,14 +299,18 @@ long RecvFlow::insertFragment(uintmax_t sequenceNumber, uint8_t flags, const uin
 	if((USERDATA_FRA_BEGIN != fra) and ((prevName = m_recv_buffer.prev(name)) > 0))
 	{
 		auto prevFragment = m_recv_buffer.at(prevName);
-		if(prevFragment->m_sequence_number == sequenceNumber - 1)
+		if(  (prevFragment->m_sequence_number == sequenceNumber - 1)
+		 and ((USERDATA_FRA_BEGIN == prevFragment->m_fra) or (USERDATA_FRA_MIDDLE == prevFragment->m_fra)) // else is another message
+		)
 			fragment->m_segmentStart = prevFragment->m_segmentStart;
 	}
 
 	if((USERDATA_FRA_END != fra) and ((nextName = m_recv_buffer.next(name)) > 0))
 	{
 		auto nextFragment = m_recv_buffer.at(nextName);
-		if(nextFragment->m_sequence_number == sequenceNumber + 1)
+		if(  (nextFragment->m_sequence_number == sequenceNumber + 1)
+		 and ((USERDATA_FRA_MIDDLE == nextFragment->m_fra) or (USERDATA_FRA_END == nextFragment->m_fra)) // else is another message
+		)
 			fragment->m_segmentEnd = nextFragment->m_segmentEnd;
 	}
 
-- 
2.43.0


From 55049bd3627ee6e03dfb65c3741474bd9b599bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:16 +0000
Subject: [PATCH 16/27] fix: FlashCryptoKey: a duplicate or refused RIKeying
 must not change the keys in use

A second responder keying component (possible with an asynchronous performer) was
combined with a secret already erased, or turned authentication on without a key.
---
 src/FlashCryptoAdapter.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/FlashCryptoAdapter.cpp b/src/FlashCryptoAdapter.cpp
index 4dae557..4143d7f 100644
--- a/src/FlashCryptoAdapter.cpp
+++ b/src/FlashCryptoAdapter.cpp
@@ -734,22 +734,27 @@ bool FlashCryptoKey::initiatorCombineResponderKeyingComponent(const uint8_t *res
 {
 	const uint8_t *componentLimit = responderComponent + len;
 
+	if(m_complete)
+		return false; // duplicate RIKeying, the keys are in use and the shared secret is already erased
+
+	// a component that's refused must not affect the negotiation with a good one that might follow
+	bool sseqSendAlways = m_sseqSendAlways;
+	bool sseqRecvRequired = m_sseqRecvRequired;
+	bool hmacSendAlways = m_hmacSendAlways;
+	bool hmacRecvRequired = m_hmacRecvRequired;
+
 	// try to fail on cheaper stuff first
 
 	uint8_t sseqFlags = negotiationOptionSearch(responderComponent, componentLimit, KEYING_OPTION_SSEQ_NEGOTIATION);
-	if(not negotiateFlags(sseqFlags, m_sseqSendAlways, m_sseqRecvRequired))
+	if(not negotiateFlags(sseqFlags, sseqSendAlways, sseqRecvRequired))
 		return false;
 
 	uintmax_t hmacRxLen = 0; // an illegal value if receive is required
 	uint8_t hmacFlags = negotiationOptionSearch(responderComponent, componentLimit, KEYING_OPTION_HMAC_NEGOTIATION, &hmacRxLen);
-	if(not negotiateFlags(hmacFlags, m_hmacSendAlways, m_hmacRecvRequired))
+	if(not negotiateFlags(hmacFlags, hmacSendAlways, hmacRecvRequired))
+		return false;
+	if(hmacRecvRequired and ((hmacRxLen < FlashCryptoAdapter::MIN_HMAC_LENGTH) or (hmacRxLen > FlashCryptoAdapter::MAX_HMAC_LENGTH)))
 		return false;
-	if(m_hmacRecvRequired)
-	{
-		if((hmacRxLen < FlashCryptoAdapter::MIN_HMAC_LENGTH) or (hmacRxLen > FlashCryptoAdapter::MAX_HMAC_LENGTH))
-			return false;
-		m_rxHMACLength = hmacRxLen;
-	}
 
 	if(m_publicKeyNeeded)
 	{
@@ -769,6 +774,13 @@ bool FlashCryptoKey::initiatorCombineResponderKeyingComponent(const uint8_t *res
 	}
 	// else we already computed the DH shared secret from a public key in their certificate
 
+	m_sseqSendAlways = sseqSendAlways;
+	m_sseqRecvRequired = sseqRecvRequired;
+	m_hmacSendAlways = hmacSendAlways;
+	m_hmacRecvRequired = hmacRecvRequired;
+	if(m_hmacRecvRequired)
+		m_rxHMACLength = hmacRxLen;
+
 	// this should always succeeed unless something terrible is happening
 	if(not computeKeysAndNonces(m_sknc.data(), m_sknc.size(), responderComponent, len))
 		return false;
-- 
2.43.0


From c2736449a21a37ad34f50048a0927033d0417c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:01 +0000
Subject: [PATCH 17/27] fix: SendFlow: survive the last reference being
 released from onException when the session closes

---
 src/SendFlow.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index 8309c00..9048e9f 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -304,6 +304,7 @@ void SendFlow::onSessionDidClose(std::shared_ptr<Session> session)
 {
 	if((m_session == session) or ((not m_session) and (m_openingSession == session)))
 	{
+		auto myself = share_ref(this); // onException might release the last other reference
 		onExceptionReport(0);
 		m_send_queue.clear();
 	}
-- 
2.43.0


From b89ccf48262f2c1eee53d672cc6b15f36ff6d9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:01 +0000
Subject: [PATCH 18/27] fix: RedirectorClient: keep a callback alive while it
 runs, close() from inside clears it

---
 src/RedirectorClient.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/RedirectorClient.cpp b/src/RedirectorClient.cpp
index 66ee433..f4e0e13 100644
--- a/src/RedirectorClient.cpp
+++ b/src/RedirectorClient.cpp
@@ -251,8 +251,9 @@ void RedirectorClient::closeFlows()
 void RedirectorClient::setStatus(Status status)
 {
 	m_status = status;
-	if(onStatus)
-		onStatus(m_status);
+	auto onStatus_f = onStatus; // could be cleared by close() during the callback
+	if(onStatus_f)
+		onStatus_f(m_status);
 }
 
 void RedirectorClient::doConnect()
@@ -399,12 +400,18 @@ void RedirectorClient::onMessage(const uint8_t *bytes, size_t len)
 		case CMD_REFLEXIVE_ADDR_REPORT:
 			m_reflexiveAddressValid = m_reflexiveAddress.setFromEncoding(cursor, limit);
 			if(m_reflexiveAddressValid and onReflexiveAddress)
-				onReflexiveAddress(m_reflexiveAddress);
+			{
+				auto onReflexiveAddress_f = onReflexiveAddress; // could be cleared by close() during the callback
+				onReflexiveAddress_f(m_reflexiveAddress);
+			}
 			break;
 
 		case CMD_USER_DATA:
 			if(onUserData)
-				onUserData(cursor, limit - cursor);
+			{
+				auto onUserData_f = onUserData; // could be cleared by close() during the callback
+				onUserData_f(cursor, limit - cursor);
+			}
 			break;
 
 		default:
-- 
2.43.0


From f7f01fd96f7ec1b7b57c8d8cc6bd2b0cb8ed24ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:38 +0000
Subject: [PATCH 19/27] fix: RecvFlow: keep onMessage alive while it runs,
 close() from inside clears it

---
 src/RecvFlow.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/RecvFlow.cpp b/src/RecvFlow.cpp
index 00500c9..bffe2a7 100644
--- a/src/RecvFlow.cpp
+++ b/src/RecvFlow.cpp
@@ -340,8 +340,9 @@ void RecvFlow::deliverMessage(long start)
 	uintmax_t sequenceNumber = fragment->m_sequence_number;
 	if(USERDATA_FRA_WHOLE == fragment->m_fra)
 	{
-		if(onMessage)
-			onMessage(fragment->m_data.data(), fragment->m_data.size(), sequenceNumber, 1);
+		auto onMessage_f = onMessage; // could be cleared by close() during the callback
+		if(onMessage_f)
+			onMessage_f(fragment->m_data.data(), fragment->m_data.size(), sequenceNumber, 1);
 		m_recv_buffer.remove(start);
 		return;
 	}
@@ -376,8 +377,9 @@ void RecvFlow::deliverMessage(long start)
 		name = nextName;
 	}
 
-	if(onMessage)
-		onMessage(buf.data(), len, sequenceNumber, fragmentCount);
+	auto onMessage_f = onMessage; // could be cleared by close() during the callback
+	if(onMessage_f)
+		onMessage_f(buf.data(), len, sequenceNumber, fragmentCount);
 }
 
 void RecvFlow::tryDelivery(long hint)
-- 
2.43.0


From 84bf2e3d0d5f4bd1b69341ac6140c33555deab68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:38 +0000
Subject: [PATCH 20/27] fix: SendFlow: keep onWritable alive while it runs,
 close() from inside clears it

---
 src/SendFlow.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index 9048e9f..427e5d8 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -324,7 +324,10 @@ void SendFlow::doWritable()
 {
 	m_writablePending = false;
 	while(m_shouldNotifyWhenWritable and isWritable())
-		m_shouldNotifyWhenWritable = onWritable ? onWritable() : false;
+	{
+		auto onWritable_f = onWritable; // could be cleared by close() during the callback
+		m_shouldNotifyWhenWritable = onWritable_f ? onWritable_f() : false;
+	}
 }
 
 void SendFlow::scheduleForTransmission()
-- 
2.43.0


From 8e549e5eeea941019f62a7d39265264ace78a2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:38 +0000
Subject: [PATCH 21/27] fix: TCConnection: keep callbacks and streams alive
 while they run, close() and deleteStream() from inside release them

---
 src/TCConnection.cpp | 48 +++++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index 9e5ec4a..c768870 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -205,28 +205,39 @@ void TCConnection::onControlCommand(const std::string &command, double transacti
 		onTransactionResponse(command == "_result", transactionID, args);
 	else if(command == "onStatus")
 		onControlStatusMessage(safeFirstArg(args));
-	else if(onCommand)
-		onCommand(command, args);
+	else
+	{
+		auto onCommand_f = onCommand; // could be cleared by close() during the callback
+		if(onCommand_f)
+			onCommand_f(command, args);
+	}
 }
 
 void TCConnection::onControlStatusMessage(std::shared_ptr<AMF0> info)
 {
-	if(onStatus)
-		onStatus(info);
+	auto onStatus_f = onStatus; // could be cleared by close() during the callback
+	if(onStatus_f)
+		onStatus_f(info);
 }
 
 void TCConnection::onStreamCommand(uint32_t streamID, const std::string &command, const Args &args)
 {
 	auto it = m_netStreams.find(streamID);
 	if(it != m_netStreams.end())
-		it->second->onCommandMessage(command, args);
+	{
+		auto netStream = it->second; // could be erased by deleteStream() during a callback
+		netStream->onCommandMessage(command, args);
+	}
 }
 
 void TCConnection::onStreamMessage(uint32_t streamID, uint8_t messageType, uint32_t timestamp, const uint8_t *payload, size_t len)
 {
 	auto it = m_netStreams.find(streamID);
 	if(it != m_netStreams.end())
-		it->second->onStreamMessage(messageType, timestamp, payload, len);
+	{
+		auto netStream = it->second; // could be erased by deleteStream() during a callback
+		netStream->onStreamMessage(messageType, timestamp, payload, len);
+	}
 }
 
 void TCConnection::onUserControlMessage(const uint8_t *payload, size_t len)
@@ -495,8 +506,9 @@ void TCStream::onCommandMessage(const std::string &command, const Args &args)
 {
 	if(command == "onStatus")
 	{
-		if(onStatus)
-			onStatus(TCConnection::safeFirstArg(args));
+		auto onStatus_f = onStatus; // could be cleared by deleteStream() during the callback
+		if(onStatus_f)
+			onStatus_f(TCConnection::safeFirstArg(args));
 	}
 }
 
@@ -506,12 +518,18 @@ void TCStream::onStreamMessage(uint8_t messageType, uint32_t timestamp, const ui
 	{
 	case TCMSG_AUDIO:
 		if(onAudio)
-			onAudio(timestamp, payload, len);
+		{
+			auto onAudio_f = onAudio; // could be cleared by deleteStream() during the callback
+			onAudio_f(timestamp, payload, len);
+		}
 		break;
 
 	case TCMSG_VIDEO:
 		if(onVideo)
-			onVideo(timestamp, payload, len);
+		{
+			auto onVideo_f = onVideo; // could be cleared by deleteStream() during the callback
+			onVideo_f(timestamp, payload, len);
+		}
 		break;
 
 	case TCMSG_DATA_EX:
@@ -545,8 +563,9 @@ void TCStream::onDataMessage(uint8_t messageType, uint32_t timestamp, const uint
 				printf("  %s\n", (*it)->repr().c_str());
 		}
 
-		if(onData)
-			onData(timestamp, command->stringValue(), args);
+		auto onData_f = onData; // could be cleared by deleteStream() during the callback
+		if(onData_f)
+			onData_f(timestamp, command->stringValue(), args);
 	}
 }
 
@@ -609,8 +628,9 @@ bool RTMFPTCConnection::init(RTMFP *rtmfp, const Bytes &epd)
 		if(m_userOpen)
 		{
 			m_sessionOptFlow = m_controlSend->openFlow({});
-			if(onTransportOpen)
-				onTransportOpen();
+			auto onTransportOpen_f = onTransportOpen; // could be cleared by close() during the callback
+			if(onTransportOpen_f)
+				onTransportOpen_f();
 		}
 		return false;
 	};
-- 
2.43.0


From 8aa7ba8e72e97c59e5f961b0adbe5de035e5ffdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:38 +0000
Subject: [PATCH 22/27] fix: RTMFPTCConnection: survive the last reference
 being released from a callback

---
 src/TCConnection.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index c768870..4020083 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -731,6 +731,7 @@ void RTMFPTCConnection::acceptFlow(std::shared_ptr<RecvFlow> flow)
 		reorderBuffer = reorderBufferFactory(reorderWindowPeriod);
 
 	flow->onComplete = [this, flow, reorderBuffer, streamID] (bool error) {
+		auto myself = share_ref(this); // a callback might release the last other reference
 		if(reorderBuffer)
 			reorderBuffer->flush();
 		m_netStreamTransports[streamID].m_recvFlows.erase(flow);
@@ -752,6 +753,7 @@ void RTMFPTCConnection::setOnMessage(std::shared_ptr<RecvFlow> flow, uint32_t st
 	}
 
 	flow->onMessage = [this, streamID, flow, reorderBuffer] (const uint8_t *bytes, size_t len, uintmax_t sequenceNumber, size_t fragmentCount) {
+		auto myself = share_ref(this); // a callback might release the last other reference
 		uint32_t syncID = 0;
 		size_t count = 0;
 		if(FlowSyncManager::parse(bytes, len, syncID, count))
@@ -796,6 +798,7 @@ bool RTMFPTCConnection::shouldAlwaysDeliver(const uint8_t *bytes, size_t len)
 
 void RTMFPTCConnection::basicClose(bool isError)
 {
+	auto myself = share_ref(this); // a callback might release the last other reference
 	TCConnection::basicClose(isError);
 
 	if(m_controlSend) m_controlSend->close();
-- 
2.43.0


From 9986540bbaccde5b9821c2c88a47e736a0207567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:38 +0000
Subject: [PATCH 23/27] fix: TCConnection: a stream identifier between 0 and 1
 must not allocate stream 0

---
 src/TCConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index 4020083..2a9154a 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -93,7 +93,7 @@ std::shared_ptr<TCStream> TCConnection::createStream()
 	basicTransact([this, netStream] (bool success, std::shared_ptr<AMF0> result) {
 		if(  (success)
 		 and (result)
-		 and (result->doubleValue() > 0)
+		 and (result->doubleValue() >= 1) // identifiers are whole numbers, and 0 is the control stream
 		 and (result->doubleValue() <= double(UINT32_MAX))
 		 and (0 == m_netStreams.count(uint32_t(result->doubleValue())))
 		)
-- 
2.43.0


From b2ec5129ba8407411ba0dfb6a30080978f055983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:38 +0000
Subject: [PATCH 24/27] fix: TCStream: send data with the timestamp given

---
 src/TCConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index 2a9154a..e72c511 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -431,7 +431,7 @@ std::shared_ptr<WriteReceipt> TCStream::send(uint32_t timestamp, const std::stri
 	Bytes msg;
 	AMF0String(command).encode(msg);
 	AMF0::encode(args, msg);
-	return m_owner->write(m_streamID, TCMSG_DATA, 0, msg, INFINITY, INFINITY);
+	return m_owner->write(m_streamID, TCMSG_DATA, timestamp, msg, INFINITY, INFINITY);
 }
 
 std::shared_ptr<WriteReceipt> TCStream::sendAudio(uint32_t timestamp, const void *bytes, size_t len, Duration startWithin, Duration finishWithin)
-- 
2.43.0


From 66b1172621c9331e8412143c568f6b512fb48cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:38 +0000
Subject: [PATCH 25/27] fix: TCStream: do not read past an empty data message

---
 src/TCConnection.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index e72c511..7fc1ab5 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -547,6 +547,8 @@ void TCStream::onDataMessage(uint8_t messageType, uint32_t timestamp, const uint
 	const uint8_t *cursor = payload;
 	const uint8_t *limit = cursor + len;
 
+	if(0 == len)
+		return;
 	if((TCMSG_DATA_EX == messageType) and (0 != *cursor++))
 		return; // only format 0 is defined
 
-- 
2.43.0


From 15d4f79f7f7d53af67f88200d7a3ae750948c52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:38 +0000
Subject: [PATCH 26/27] fix: RTMFPTCConnection: use the peer keepalive period
 the server sent

---
 src/TCConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index 7fc1ab5..8f12208 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -853,7 +853,7 @@ void RTMFPTCConnection::onSetKeepaliveUserCommand(const uint8_t *payload, size_t
 	uint32_t peerPeriodMsec = (payload[6] << 24) + (payload[7] << 16) + (payload[8] << 8) + payload[9];
 
 	serverPeriodMsec = std::max(serverPeriodMsec, uint32_t(5000)); // RFC 7425 §5.3.4
-	peerPeriodMsec = std::max(serverPeriodMsec, uint32_t(5000)); // RFC 7425 §5.3.4
+	peerPeriodMsec = std::max(peerPeriodMsec, uint32_t(5000)); // RFC 7425 §5.3.4
 
 	m_controlRecv->setSessionKeepalivePeriod(serverPeriodMsec / 1000.0);
 	m_rtmfp->setDefaultSessionKeepalivePeriod(peerPeriodMsec / 1000.0);
-- 
2.43.0


From 548680bbd13bba8693d548a22331254e61f1eae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:38 +0000
Subject: [PATCH 27/27] fix: NetStreamTransport: count only the flows that can
 carry the synchronization mark

---
 src/TCConnection.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index 8f12208..5de3436 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -902,9 +902,9 @@ std::shared_ptr<WriteReceipt> RTMFPTCConnection::NetStreamTransport::write(const
 void RTMFPTCConnection::NetStreamTransport::sync(uint32_t syncID)
 {
 	uint32_t count = 0;
-	if(m_video) count++;
-	if(m_audio) count++;
-	if(m_data) count++;
+	if(m_video and m_video->isOpen()) count++;
+	if(m_audio and m_audio->isOpen()) count++;
+	if(m_data and m_data->isOpen()) count++;
 
 	Bytes message = FlowSyncManager::makeSyncMessage(syncID, count);
 
-- 
2.43.0

