#!/usr/bin/env python3
"""Writes properties.jsonl (one source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over.split(), text=qtext), why_tests_cant=why,
             anchors=dict(files=files.split(),
                          mechanism=[dict(name=m.split("@")[0], where=m.split("@")[1]) for m in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

NOPROTO = "No unit test opens a session or a flow: the 16 tests cover containers, codecs and two application helpers. "

p("C01", "Ordered flows deliver exactly the written messages, in order, once",
  "On a flow received in original order, the messages handed to the receiving application are a subsequence of the messages the sender wrote: in write order, byte for byte intact, and each at most once. Every message the sender never gave up on is handed over, provided the network lets packets through again before the session ends. This holds for any loss, duplication, delay and reordering of packets in both directions.",
  "schedules fault_sequences histories", "Every write history (sizes from empty to many fragments, deadlines, abandonments, several concurrent flows) and every network schedule of loss, duplication, delay and reordering.",
  NOPROTO + "Delivery under loss and reordering is never executed by them.",
  "src/SendFlow.cpp src/RecvFlow.cpp src/Session.cpp src/PacketAssembler.cpp",
  ["fragmentation and sequence numbering@src/SendFlow.cpp basicWrite", "loss detection and retransmission@src/Session.cpp onPacketAfterChunks, onTimeoutAlarm; src/SendFlow.cpp assembleData", "sequenced delivery@src/RecvFlow.cpp tryDelivery"],
  ["SendFlow::write and RecvFlow::onMessage of two endpoints over a simulated network"])

p("C02", "Network-order and held delivery lose and repeat nothing",
  "On a flow received in network order, each complete message is handed over when its last missing piece arrives, at most once, with the sequence number of its first piece and its number of pieces. While a flow is held nothing is handed over; leaving hold hands over what was held, in order, none lost or repeated. The application is told when the point up to which everything has been received advances by closing a gap in network order.",
  "schedules histories inputs", "Every arrival order, duplication and loss of fragments, and every sequence of receive order changes.",
  NOPROTO + "Arrival orders are never exercised.",
  "src/RecvFlow.cpp", ["delivery hint and segment joining@src/RecvFlow.cpp insertFragment, tryDelivery", "hold@src/RecvFlow.cpp setReceiveOrder"],
  ["RecvFlow::onMessage, onCumulativeAckDidMerge of a real receiver fed fragment by fragment"])

p("C03", "A message is delivered only when complete, and gaps never block it",
  "A message is handed over only when every one of its pieces has been received, as the concatenation of exactly those pieces in order; a piece that was received before, or that arrives for a position already given up, changes nothing. In original order, delivery waits for every earlier position that may still come and never for one the sender has declared is not coming. A message with a piece that is not coming is never handed over, not even in part.",
  "inputs schedules", "Every fragmentation into whole/begin/middle/end pieces, every arrival order with duplicates, every abandoned piece and every advance of the sender's forward sequence number.",
  NOPROTO + "Reassembly is never executed by a test.",
  "src/RecvFlow.cpp src/Session.cpp src/IndexSet.cpp",
  ["reassembly@src/RecvFlow.cpp insertFragment, deliverMessage, tryDelivery", "user data parsing@src/Session.cpp onUserDataChunk"],
  ["messages delivered by a real receiver for scripted fragment arrivals"])

p("C04", "Write receipts tell the truth, exactly once",
  "A write's receipt finishes at most once: as delivered only after the far end has acknowledged every piece of the message, and as abandoned otherwise. A message reported delivered on a flow whose receiver discards nothing has in fact been received whole by the far end. While the session lives and packets get through, every receipt of a flow finishes; when the flow ends by exception or session loss, every unfinished one is abandoned.",
  "schedules histories fault_sequences", "Every write/abandon/close history and every network schedule, including session loss and rejection at any point.",
  NOPROTO + "Receipts are never driven by acknowledgements in a test.",
  "src/SendFlow.cpp src/WriteReceipt.cpp src/Session.cpp",
  ["use counting per fragment@src/WriteReceipt.cpp useCountDown", "acknowledgement processing@src/SendFlow.cpp onAck, ackRange", "exception path@src/SendFlow.cpp onExceptionReport"],
  ["WriteReceipt::onFinished, isDelivered, isAbandoned against packets on the wire"])

p("C05", "Given-up messages stop being sent and never block the rest",
  "No message is started (its first transmission made) after its start deadline, none of its bytes is sent at all after its finish deadline or after it was abandoned (by the application, or through an abandoned message it depends on), and none more than once when retransmission is off. The receiver is told to stop waiting for what was given up, so later messages are still delivered in order. A message whose deadline has not passed is never given up on its account.",
  "schedules histories", "Every combination of start and finish deadlines, dependency chains, explicit abandonment at any point, and best-effort messages, under every loss schedule.",
  NOPROTO + "Deadlines only matter while packets are in flight, which no test has.",
  "src/SendFlow.cpp src/WriteReceipt.cpp",
  ["abandonIfNeeded before transmission@src/SendFlow.cpp assembleData, trimSendQueue", "forward sequence number@src/SendFlow.cpp findForwardSequenceNumber"],
  ["user data fragments on the wire against receipts and the clock"])

p("C06", "A closed flow drains, completes at both ends, and then stays silent",
  "Closing a sending flow still delivers everything written before the close; the receiver is told of completion exactly once, without error, after the last message, and only when nothing more can come. If the session ends first, completion is reported once with error. After a side closes a flow, that side receives no further callback for it and no further write is accepted.",
  "schedules histories fault_sequences", "Close at any point of any write history, with any loss schedule, including session close and loss.",
  NOPROTO + "No flow is ever closed in a test.",
  "src/SendFlow.cpp src/RecvFlow.cpp src/Session.cpp",
  ["final marker@src/SendFlow.cpp close, assembleData", "completion@src/RecvFlow.cpp tryDelivery, closeAndNotify", "session teardown@src/Session.cpp abortFlowsAndTimers"],
  ["RecvFlow::onComplete, SendFlow::onException and other callbacks relative to close()"])

p("C07", "Unaccepted or rejected flows deliver nothing and tell the sender why",
  "A new incoming flow that the application does not accept during the notification, that lacks metadata on its first piece, that carries a mandatory option not understood, or that names a return association to an unknown or closed flow delivers no message and is refused. When the receiver refuses or closes a flow with a reason code, the sender is told that code exactly once and stops transmitting message data on it. Accepting is offered once per incoming flow, to the associated sending flow if there is one and to the endpoint otherwise.",
  "inputs histories schedules", "Every first packet of a flow, every accept/refuse choice and refusal at any later time, under loss of the refusal.",
  NOPROTO + "Rejection is never exercised.",
  "src/RecvFlow.cpp src/SendFlow.cpp src/Session.cpp",
  ["accept check@src/Session.cpp onUserData", "exception report@src/RecvFlow.cpp assembleAck; src/SendFlow.cpp onExceptionReport"],
  ["onRecvFlow, onException callbacks and exception chunks on the wire"])

p("C08", "The receive window is honoured and a full window never wedges a flow",
  "A sender never starts a packet's worth of new data on a flow while its unacknowledged bytes reach the window most recently advertised by the receiver. The receiver advertises what its buffer capacity and window limit leave free, in units of 1024 bytes rounded up: zero only when held, or when capacity or limit is zero, and otherwise at least one unit. A sender facing a zero window keeps probing with growing intervals until the window opens, and a probe is answered at once.",
  "schedules histories configurations", "Every capacity, window limit, hold/release history and loss schedule, including loss of the acknowledgement that reopens the window.",
  NOPROTO + "Flow control is never exercised.",
  "src/SendFlow.cpp src/RecvFlow.cpp src/Session.cpp",
  ["window check@src/SendFlow.cpp assembleData, isMaybeReadyForTransmission", "advertisement@src/RecvFlow.cpp assembleAck", "persist timer@src/SendFlow.cpp setPersistTimer, onPersistTimer"],
  ["acknowledgement and user data chunks on the wire, getRecvBufferBytesAvailable, getOutstandingBytes"])

p("C09", "Data is resent only on evidence of loss, and always after it",
  "A piece is transmitted again only after three acknowledgements that each acknowledged something sent later, or after the retransmission timeout expired without any acknowledgement. A piece so lost that was not given up is transmitted again as soon as window and congestion control allow, and at the timeout everything still outstanding counts as lost, the timeout grows by the back-off factor up to its maximum, and the congestion window collapses. Outstanding bytes reported are exactly those sent and neither acknowledged nor lost.",
  "schedules fault_sequences", "Every pattern of loss, reordering and duplication of data and acknowledgements.",
  NOPROTO + "Neither negative acknowledgement nor timeout is exercised.",
  "src/Session.cpp src/SendFlow.cpp",
  ["negative acknowledgement@src/Session.cpp onPacketAfterChunks", "timeout@src/Session.cpp onTimeoutAlarm, rescheduleTimeoutAlarm"],
  ["transmissions on the wire against acknowledgements processed; getERTO, getOutstandingBytes, getCongestionWindow"])

p("C10", "Acknowledgements say exactly what was received, and in time",
  "Every acknowledgement sent for a flow reports exactly the set of sequence numbers received or declared not coming so far (or, when too long for a packet, a prefix of it). Data is acknowledged no later than 200 ms after it arrives, at once when two data packets have arrived since the last acknowledgement, and at once when data arrives out of order, repeated, given up, final, or for a refused flow.",
  "schedules inputs", "Every arrival order, duplication, abandonment and grouping of fragments into packets on several flows.",
  NOPROTO + "No acknowledgement is ever produced in a test.",
  "src/RecvFlow.cpp src/Session.cpp src/IndexSet.cpp",
  ["ack assembly@src/RecvFlow.cpp assembleAck", "delayed ack@src/Session.cpp scheduleAck, ackNow, sendAcks, onPacketAfterChunks"],
  ["acknowledgement chunks a real receiver emits for scripted arrivals"])

p("C11", "Higher priority data goes first; equals share; none is starved of its turn",
  "When several flows have data ready to send and the congestion window allows a packet, the packet carries data of the highest priority ready. Flows of equal priority within a session take turns packet by packet. Raising or lowering a flow's priority takes effect for its unsent data.",
  "schedules configurations histories", "Every assignment and change of the eight priorities over concurrent flows with backlog, under loss.",
  NOPROTO + "No transmission scheduling is exercised.",
  "src/Interface.cpp src/Session.cpp src/SendFlow.cpp src/RTMFP.cpp",
  ["priority queues@src/Interface.cpp onWritable, scheduleWrite", "ready flows@src/Session.cpp scheduleFlowForTransmission, onInterfaceWritable"],
  ["order of user data packets on the wire against the backlog of each flow"])

p("C12", "Congestion control bounds what is in flight",
  "A session starts a new data packet only while its outstanding bytes are below its congestion window, which never falls below the two-segment timeout value, and never below its initial size except through a timeout. Between acknowledgements no more than six packets' worth of data is sent in a burst once the round trip is long enough to pace; loss or a congestion mark cuts the window to no more than seven eighths of what was outstanding, or the initial size if that is more; and it grows by no more than was acknowledged, up to one segment, per acknowledgement packet.",
  "schedules fault_sequences histories", "Every acknowledgement, loss, congestion-mark and timeout history.",
  NOPROTO + "The congestion window is never exercised.",
  "src/Session.cpp", ["window update@src/Session.cpp updateCWND", "send gate@src/Session.cpp onInterfaceWritable", "burst alarm@src/Session.cpp scheduleBurstAlarm"],
  ["getCongestionWindow and getOutstandingBytes at every packet event"])

p("C13", "An initiator only opens a session with the authenticated peer it asked for",
  "An initiating endpoint sends keying only in answer to a hello reply that echoes a tag of one of its own opening attempts, and only if the certificate in it is selected by the requested endpoint discriminator and found authentic; it opens the session only after a responder keying whose signature checks out against that certificate and covers the initiator's own keying component. A late, repeated or forged reply changes nothing. No flow of an attempt is bound to any other peer.",
  "inputs schedules fault_sequences", "Every order, loss, repetition and forgery of hello replies, responder keyings and redirects, with certificate and signature checks completing at any later time.",
  NOPROTO + "The handshake is never executed by a test.",
  "src/Session.cpp src/RTMFP.cpp",
  ["initiator chain@src/Session.cpp onRHello, onRIKeying", "tag lookup@src/RTMFP.cpp findOpeningSessionByTag"],
  ["packets sent and sessions opened by a real initiator facing a scripted responder; getFarCanonicalEPD"])

p("C14", "A responder keeps no state for, and answers, only provably reachable initiators",
  "A responder opens a session only for an initiator keying that returns a cookie it issued to that very address within its lifetime, carries an authentic certificate and a valid signature; a cookie issued for another address is answered only with a fresh cookie for the new address, and any other keying is ignored. A repeated keying for an open session is answered with the same responder keying and opens nothing. Hellos are answered only if the discriminator selects this endpoint, with the tag echoed, and at most one per packet.",
  "inputs schedules histories", "Every hello and keying a remote party can send, from any address at any time, with repetition and forgery, and checks completing in any order.",
  NOPROTO + "Cookies and keying are never exercised.",
  "src/RTMFP.cpp src/Session.cpp",
  ["cookie@src/RTMFP.cpp makeCookie, checkCookie", "keying chain@src/RTMFP.cpp onIIKeying, tryRIKeyingRetransmit"],
  ["replies sent and sessions opened by a real responder facing a scripted initiator"])

p("C15", "Simultaneous and repeated opens converge on one usable session",
  "When two endpoints open sessions to each other at once, exactly the attempt of the glare winner goes ahead and the flows waiting at both ends come to use it. Opening more flows to a peer whose session is open, or whose session is being opened, uses that session and starts no second one. A peer that starts over from the same address with a certificate entitled to replace the old session replaces it, and the flows of the old one end with an exception; one not so entitled is ignored. (A keying of an abandoned attempt that the network delivers late is not told from a peer starting over.)",
  "schedules histories configurations", "Every interleaving of the two handshakes, every delay of cryptographic work, and every order of opens.",
  NOPROTO + "Two endpoints are never opened against each other.",
  "src/RTMFP.cpp src/Session.cpp src/SendFlow.cpp",
  ["glare@src/RTMFP.cpp onIIKeying", "session lookup@src/RTMFP.cpp openFlow, findOpeningSessionByEPD, onSessionDidOpen, onSessionWillOpen"],
  ["sessions and flows of two real endpoints opening towards each other"])

p("C16", "Opening retries on schedule, gives up on time, and loses no early data",
  "While an attempt is open the endpoint repeats its hello to every candidate address and its keying to the chosen one, at growing intervals (1 s at first, then 1.5 s longer each time), and never after the attempt has moved on; addresses learned by redirect are tried too, up to a limit. An attempt not open after 95 seconds, or in which no flow is interested any more before a responder is chosen, is abandoned, and its flows get an exception. Packets of the new session that reach an initiator before it has the keys are kept (the 18 newest) and processed once the session opens.",
  "schedules fault_sequences", "Every loss pattern of handshake packets, candidate address set with delays, redirects, and cancellation time.",
  NOPROTO + "No handshake timing is exercised.",
  "src/Session.cpp src/RTMFP.cpp src/SendFlow.cpp",
  ["hello and keying timers@src/Session.cpp addCandidateAddress, startIIKeying", "overall timeout@src/Session.cpp initiateToEPD", "early packets@src/Session.cpp onReceivePacket, replayEarlyPackets"],
  ["times and addresses of handshake packets on the wire"])

p("C17", "Closing a session, or the endpoint, always ends cleanly and exactly once",
  "Closing a session ends all its flows at once and announces the close every 5 seconds until the far end acknowledges, for at most 90 seconds; the far end acknowledges every announcement, ends its own flows once, and forgets the session after a linger. Shutting down an endpoint refuses new sessions and flows, closes or abruptly drops every session as asked, and reports completion exactly once, after the last session is gone and everything queued is sent. No flow callback other than its one termination callback happens after its session ended.",
  "schedules fault_sequences crash_points", "Close or shutdown at any point of handshake or transfer, at one or both ends, with any loss.",
  NOPROTO + "No session is ever closed.",
  "src/Session.cpp src/RTMFP.cpp",
  ["close states@src/Session.cpp close, setNearclose, setFarcloseLinger, onCloseChunk, onCloseAckChunk", "shutdown@src/RTMFP.cpp shutdown, checkShutdownComplete"],
  ["close chunks on the wire, termination callbacks, onShutdownComplete"])

p("C18", "Dead peers are detected, live ones kept, idle sessions released, on time",
  "A session silent for its keepalive period is probed, the probe is repeated at the retransmission timeout until answered, and a session that has been sending user data for its retransmit limit without an acknowledgement of any of it is closed at the next retransmission timeout, never one that is answered. A session with no flows for its idle limit is closed, and one with flows is not. Every probe is answered with its own content.",
  "schedules configurations fault_sequences", "Every setting of the three periods at both ends and every pattern of traffic, silence and loss.",
  NOPROTO + "Session timers are never exercised.",
  "src/Session.cpp", ["keepalive@src/Session.cpp onKeepaliveAlarm, sendKeepalivePing, onPingChunk, onPingReplyChunk", "retransmit limit@src/Session.cpp onTimeoutAlarm", "idle@src/Session.cpp onIdleAlarm, unbindFlow"],
  ["probe packets on the wire and session ends against the clock"])

p("C19", "A session follows its peer's address only after the peer proves it",
  "A session keeps sending to the address it has until the peer answers, from the new address, a check that this endpoint sent to that very address not more than 120 seconds ago; then it moves, once, telling every flow. Old, repeated, forged or redirected answers move nothing. After the move everything owed to the peer goes to the new address, and no data is lost.",
  "schedules inputs fault_sequences", "Every sequence of address changes, of packets from several addresses, and of replayed or forged answers.",
  NOPROTO + "Mobility is never exercised.",
  "src/Session.cpp src/RTMFP.cpp", ["mobility check@src/Session.cpp makeMobilityCheck, sendMobilityCheck, onMobilityCheckReply", "address index@src/RTMFP.cpp onSessionAddressDidChange"],
  ["destination addresses of packets, onFarAddressDidChange, getFarAddress"])

p("C20", "Congestion marks are counted, reported and acted on",
  "Data packets, and only they, are marked ECN-capable until the peer acknowledges without ever reporting marks. A receiver that got any ECN-marked packet reports the running count of congestion-experienced packets, modulo 256, ahead of the next acknowledgement. A sender reacts to a report that moved forward as to a loss, and ignores repeated or stale ones; the configured traffic class is on every packet of the session, with its ECN bits masked.",
  "schedules inputs", "Every pattern of marks, and loss, duplication and reordering of the packets that carry reports, over count wrap-around.",
  NOPROTO + "ECN is never exercised.",
  "src/Session.cpp src/RecvFlow.cpp", ["ECN counting@src/Session.cpp onPacketHeader, assembleEcnReport, onEcnReportChunk", "marking@src/Session.cpp onInterfaceWritable, setTrafficClass"],
  ["type-of-service values and ECN report chunks on the wire"])

p("C21", "Time-critical traffic is announced and reported to the other peers",
  "A packet is flagged time critical exactly when it carries data of a flow above routine priority. An endpoint that received such a packet on some session within the last 800 ms reports it in every packet it sends on its other sessions, and not on that session unless another one received time-critical traffic too. A session that is told of time-critical traffic elsewhere grows its window more slowly for 800 ms.",
  "schedules histories", "Every interleaving of time-critical and ordinary traffic over two or more sessions.",
  NOPROTO + "Time-critical signalling is never exercised.",
  "src/RTMFP.cpp src/Session.cpp src/SendFlow.cpp", ["flags@src/Session.cpp onInterfaceWritable, onPacketHeader; src/SendFlow.cpp assembleData", "reporting@src/RTMFP.cpp onSessionReceivedTC, shouldSessionReportTCR"],
  ["header flags on the wire of three real endpoints"])

p("C22", "Forwarding and redirection reach the addressed endpoint and no other",
  "A hello that does not select the endpoint is handed to the application with its tag, discriminator and reply address, and answered by nothing. A forwarded hello received on a session is treated by that session's mode: ignored by default, answered with a hello reply to the forwarded reply address, or with a redirect. A redirect with no address stands for the address it came from, and a hello reply matching no attempt is handed to the application.",
  "inputs configurations histories", "Every mode, discriminator, tag and reply address, on every interface.",
  NOPROTO + "Forwarding is never exercised.",
  "src/RTMFP.cpp src/Session.cpp src/Flow.cpp", ["hello dispatch@src/RTMFP.cpp onIHello, onRHello, onRedirect", "forwarded hello@src/Session.cpp onFIHelloChunk; src/Flow.cpp forwardIHello"],
  ["packets sent and callbacks made by a real endpoint"])

p("C23", "Malformed or unexpected packets never crash an endpoint or change state",
  "Whatever bytes arrive for an endpoint, from strangers or on an open session, it neither crashes nor corrupts memory nor hangs. A packet it cannot authenticate or parse changes no session, flow or message; within a packet, chunks before the malformed part count and the rest is ignored. Chunks that are unknown or belong to another phase of the session are ignored.",
  "inputs", "Every packet: truncated, over-long, wrong mode, wrong session, unknown chunk types, bad lengths, on sessions in every state.",
  NOPROTO + "No packet is ever parsed by a test.",
  "src/Session.cpp src/RTMFP.cpp src/VLU.cpp src/PacketAssembler.cpp src/RecvFlow.cpp src/SendFlow.cpp", ["packet parsing@src/Session.cpp ISession::onReceivePacket and the on...Chunk methods", "session lookup@src/RTMFP.cpp onReceivePacket"],
  ["a real endpoint, built with sanitizers, fed scripted packets"])

p("C24", "Session encryption rejects anything forged, altered or replayed",
  "With the Flash-compatible encryption, where an end requires packet authentication, a packet is accepted on a session only if its far end produced it for that session and it was not altered (without authentication only a 16-bit checksum stands in the way: altered, foreign or forged packets are accepted no more than by rare chance); genuine packets are accepted and decrypt to what was encrypted; each end uses the packet authentication and sequence numbering that either end requires, or that both want. With sequence numbers in use, no packet is accepted twice, and none that is older than the reordering window.",
  "inputs schedules configurations", "Every combination of the security options at both ends and every alteration, replay and reordering of packets.",
  "The tests cover checksums and hexadecimal only; no key is negotiated and no packet encrypted.",
  "src/FlashCryptoAdapter.cpp src/FlashCryptoAdapter_OpenSSL.cpp", ["packet protection@src/FlashCryptoAdapter.cpp FlashSessionCryptoKey encrypt and decrypt", "negotiation@src/FlashCryptoAdapter.cpp keying component options"],
  ["packets accepted by a real session key pair after a real key agreement"])

p("C25", "Both ends of an encrypted session agree on keys, nonces and identity",
  "After a completed key agreement with the Flash-compatible encryption, what either end encrypts the other decrypts, each end's near nonce is the other's far nonce, and nothing encrypted for another session decrypts. An endpoint is selected by exactly the endpoint discriminators that name it: its fingerprint, or its hostname and whether it accepts ancillary data (which is put to the application unchanged), as they appear in its certificate before any marker. Keying components that are malformed, offer no common group, or would degenerate are refused, and whatever arrives after the agreement changes nothing about it.",
  "inputs configurations", "Every certificate, discriminator and keying component option list.",
  "No test touches the crypto adapter.",
  "src/FlashCryptoAdapter.cpp src/FlashCryptoAdapter_OpenSSL.cpp", ["key agreement@src/FlashCryptoAdapter.cpp generateInitiatorKeyingComponent, initiatorCombineResponderKeyingComponent, generateResponderKeyingComponent", "selection@src/FlashCryptoAdapter.cpp isSelectedByEPD"],
  ["the crypto adapter's public interface at two ends"])

p("C26", "Timers fire when due, in order, once, and never after being cancelled",
  "Whatever is scheduled, rescheduled or cancelled, also from inside timer actions, each timer fires exactly when its time has come and timers are processed: due ones in order of their due times, none early, none twice for one due time, none after cancellation. A recurring timer fires again one interval later, catching up on missed firings or skipping them as asked, and a rescheduling from its own action overrides recurrence. The time to sleep reported never exceeds the time to the next due timer.",
  "histories schedules", "Every history of schedule, reschedule, cancel, recurrence change and clock advance, including operations from within actions.",
  "Timer has no unit test; one test program only samples a fixed schedule, if at all.",
  "src/Timer.cpp", ["timer list@src/Timer.cpp TimerList fireDueTimers, addTimer, removeTimer; Timer basicFire, setNextFireTime"],
  ["actions fired and howLongToNextFire for scripted histories"])

p("C27", "Run loops call exactly the registered handlers and run deferred tasks in order",
  "In both run loops, a handler is called when and only when its descriptor has the condition it is registered for; a handler unregistered or replaced by an earlier handler of the same pass is not called. Tasks deferred to later run once each, in the order deferred, and tasks deferred meanwhile run after them. Stopping or a run interval ends the run, and timers and handlers keep working when it is run again.",
  "schedules histories", "Every sequence of register, replace, unregister, ready and stop, also from within handlers.",
  "One test registers two descriptors and looks at the happy path only.",
  "src/EPollRunLoop.cpp src/SelectRunLoop.cpp src/RunLoop.cpp", ["dispatch@src/EPollRunLoop.cpp run; src/SelectRunLoop.cpp run", "deferred tasks@src/RunLoop.cpp processDoLaters"],
  ["handlers called by a real run loop over pipes"])

p("C28", "Work handed to another thread runs there, once, in order, without loss",
  "Every task handed to a performer before it is closed runs exactly once on the performer's run loop thread, tasks of one submitting thread in the order submitted; no hand-over is missed however submissions and processing interleave. A caller that asked to wait returns only after its task has run, or at once when the performer is closed or when already on that thread after running what is pending. Tasks of a closed performer do not run and block no waiter.",
  "schedules", "Every interleaving of submitting threads, the run loop thread and close.",
  "One test submits from a single thread and samples a handful of schedules.",
  "src/Performer.cpp src/PerformerPosixPlatformAdapter.cpp", ["signalling@src/Performer.cpp perform, onSignaled, fireItems, close"],
  ["tasks executed under many threads and injected delays"])

p("C29", "The reorder buffer releases each message once, in order, by its deadline",
  "Each message inserted with a new sequence number is released exactly once, in ascending order unless flagged late; the first messages without a gap are released at once, others when the gap closes, when told delivery may advance past it, when the window period since their arrival has passed, or at a flush. A message is flagged late exactly when one with a higher number was already released. After close nothing is released.",
  "histories schedules", "Every arrival order, window period (also changed on the way), advance, flush and close, also from within callbacks.",
  "The unit test replays a few fixed histories.",
  "src/ReorderBuffer.cpp", ["release rule@src/ReorderBuffer.cpp insert, tryDeliver, findCSN, deliverThrough, flush"],
  ["ReorderBuffer::onMessage for scripted histories and clock"])

p("C30", "Synchronised flows are held together and released together",
  "A flow that reaches a synchronisation point is held until the announced number of flows have reached it, and then all of them are released at once; flows that never arrive hold no flow after a reset. Synchronisation points do not affect one another, flows ended meanwhile do not matter, and a flow synchronised twice counts as it arrives. Synchronisation messages parse to the identifier and count they were made with.",
  "histories", "Every order of arrivals at several synchronisation points with any count, and resets in between.",
  "The unit test covers message parsing and a single barrier.",
  "src/FlowSyncManager.cpp", ["barrier@src/FlowSyncManager.cpp sync, reset"],
  ["receive order of real flows after each call"])

p("C31", "Containers keep order, names and sums under any history",
  "The list keeps elements in the order given by appends, prepends, insertions, rotations and removals; a name stays valid for exactly the life of its element, no matter what is added or removed, and iteration that allows removal visits every element that was there when it began, once. The summing list reports the sum of the sizes of its elements. The index set holds exactly the numbers added and not removed, as the fewest disjoint ascending ranges.",
  "histories", "Every history of container operations.",
  "Unit tests replay a few fixed histories.",
  "include/rtmfp/List.hpp src/IndexSet.cpp", ["list@include/rtmfp/List.hpp List, SumList", "ranges@src/IndexSet.cpp add, remove"],
  ["public interface after every operation"])

p("C32", "Receipts and chains follow their deadlines and dependencies exactly",
  "A receipt is abandoned by a deadline check exactly when the time is past its finish deadline, or past its start deadline while not started, or when a receipt it depends on is abandoned, and never once it is finished; its notification is given once. A chain links each new receipt to the previous one, and expiring it brings forward the deadlines of every unfinished chained receipt, never postponing one, and starts afresh.",
  "histories", "Every history of start, completion, abandonment, deadline change, chaining and expiry.",
  "No unit test covers receipts.",
  "src/WriteReceipt.cpp", ["receipt@src/WriteReceipt.cpp WriteReceipt, IssuerWriteReceipt", "chain@src/WriteReceipt.cpp WriteReceiptChain append, expire"],
  ["receipt state after every operation"])

p("C33", "Client connections settle every transaction once and route by stream",
  "A client connection sends nothing but connect before the connect is queued; each transaction's handler is called exactly once, with the response that carries its number or with failure when the connection closes, and responses to unknown or settled numbers are ignored. Closing, by either side or by loss of transport, closes every stream and is reported at most once and not after the application itself closed. Messages reach the stream they are addressed to and no other, in order, also when flows deliver them out of order.",
  "histories schedules inputs", "Every history of connects, commands, responses, stream messages and closes from the server side.",
  "The unit test covers message encoding only; no connection is made.",
  "src/TCConnection.cpp src/TCMessage.cpp", ["transactions@src/TCConnection.cpp basicTransact, onTransactionResponse, onConnectResponse, basicClose", "routing@src/TCConnection.cpp onMessage, acceptFlow"],
  ["handlers and messages of a real client facing a scripted server"])

p("C34", "Streams send only when allocated, in order, and never after deletion",
  "A stream queues its commands until the server allocates its identifier and then sends them in the order given; if allocation fails it closes with a failure status. Media and data can be sent exactly while it is open, with the timestamp given, on the flow for their kind; audio, video and data received are handed over with their timestamps unchanged. Deleting a stream sends the deletion once, ends its flows and callbacks, and frees its identifier; synchronising marks every one of its open sending flows.",
  "histories schedules", "Every history of create, publish, play, send, synchronise and delete, with the server's answers at any point.",
  "No stream is ever created in a test.",
  "src/TCConnection.cpp", ["stream@src/TCConnection.cpp TCStream setStreamID, queueCommand, flushCommands, send, deleteStream", "transport@src/TCConnection.cpp NetStreamTransport write, sync"],
  ["messages a real client writes and callbacks it makes"])

p("C35", "The redirector client keeps the redirector's view current",
  "While active and not paused, a connected client tells the redirector its settings after every change that matters and after every reconnect, in full; when made inactive it says so and sends no further settings; load factor updates are sent only when changed and no more often than the update interval. After every lost or refused connection it reconnects when the minimum interval (at least 5 seconds) has passed since its last attempt and not before, until it is closed. The status reported follows the connection, each change reported once, and nothing is reported after close. What the redirector says on the first acceptable return flow is handed over in order, and the reflexive address counts as valid only while connected and last reported well formed.",
  "histories schedules fault_sequences", "Every history of setting changes, pauses, activations, connection losses, refusals and closes.",
  "No test covers the redirector client.",
  "src/RedirectorClient.cpp", ["status machine@src/RedirectorClient.cpp doConnect, onConnected, onException, setStatus", "settings@src/RedirectorClient.cpp sendSettingsIfActive, sendDrainingIfInactive, sendLoadFactor"],
  ["messages of a real client facing a scripted redirector, and onStatus"])

p("C36", "Writability is signalled exactly when promised and sizes are accounted",
  "After a request for notification, the application is called while the flow is open on an open session with buffered bytes below capacity, repeatedly for as long as it answers that it wants more, and not again until it asks again; a request made when not writable is honoured as soon as acknowledgements or dropped messages make it so. The buffered size reported is the bytes of unacknowledged pieces plus 64 for each. A write is refused exactly when the flow is closed.",
  "schedules histories", "Every capacity, request, answer and acknowledgement history, including writes from within the callback.",
  NOPROTO + "Writability is never exercised.",
  "src/SendFlow.cpp", ["writable notification@src/SendFlow.cpp notifyWhenWritable, queueWritableNotify, doWritable, isWritable", "accounting@src/SendFlow.cpp getBufferedSize"],
  ["onWritable calls, isWritable, getBufferedSize"])

p("C37", "Round-trip time and timeout follow the echoed timestamps",
  "A packet carrying data or acknowledgements carries a timestamp only when it changed and an echo of the newest timestamp received, advanced by the time it was held, only when it changed and the original is not too old. Each new echo gives one round-trip sample, in 4 ms ticks, that enters the smoothed value with weight one eighth and the variance with weight one quarter; samples longer than half the clock range are ignored. The retransmission timeout is the smoothed value plus four variances plus 200 ms, at least 250 ms, and the base value is the least sample of the recent history.",
  "schedules histories", "Every sequence of packet delays, silences and clock wrap-arounds.",
  NOPROTO + "No timestamp is ever sent.",
  "src/Session.cpp src/Flow.cpp", ["timestamps@src/Session.cpp getTimestampIfNew, getTimestampEcho, onPacketHeader", "base value@src/Session.cpp checkBaseRTT"],
  ["packet headers on the wire; getSRTT, getRTTVariance, getERTO, getBaseRTT, getLastRTT"])

p("C38", "The rate tracker reports the average over the window",
  "The rate reported at any time is the count recorded in the current window period plus the remaining share of the previous one, per second; a tracker not updated for two windows reports zero, and a reset forgets everything.",
  "histories", "Every history of updates, queries, window changes and resets with any time steps.",
  "The unit test samples a few fixed times.",
  "src/RateTracker.cpp", ["window@src/RateTracker.cpp update, getRate"], ["getRate after every operation"])

p("C39", "Wire encodings are inverses and reject what is not theirs",
  "Every value written as a variable length number, option, address, AMF0 value, media or Tin-Can message header reads back as the same value and consumes exactly what was written, for every value of the type. Input that is truncated or malformed is refused and nothing beyond it is read. Equal values have equal encodings.",
  "inputs", "Every value and every truncation or alteration of its encoding.",
  "Unit tests sample values; truncations mostly not.",
  "src/VLU.cpp src/Address.cpp src/AMF.cpp src/TCMessage.cpp src/Media.cpp", ["codecs@src/VLU.cpp, src/Address.cpp, src/AMF.cpp, src/TCMessage.cpp, src/Media.cpp"],
  ["encode and decode functions"])

p("C40", "Text utilities follow their grammars",
  "Hexadecimal conversion round-trips every byte string and refuses anything else; URI parsing splits every URI into the parts its grammar names, and joining or decoding them gives back the original; checksums equal their defining polynomial for every input.",
  "inputs", "Every input string.",
  "Unit tests sample inputs.",
  "src/Hex.cpp src/URIParse.cpp src/Checksums.cpp", ["functions@src/Hex.cpp, src/URIParse.cpp, src/Checksums.cpp"], ["function results"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
