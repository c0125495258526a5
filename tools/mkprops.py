#!/usr/bin/env python3
# Generates /verif/properties.jsonl (one property per line) from the table below.
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=list(observe)
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Variable-length integers, fields and options: exact, bounded codec",
  "Every unsigned integer encodes to its minimal base-128 form and decodes back to itself consuming exactly the encoded length, and over-long values saturate instead of wrapping. Decoding any byte string of any length never looks at a byte past its end, reports failure (zero) for every truncated integer, field or option, and otherwise reports a length and an in-bounds value that re-encode consistently.",
  ["inputs"],"all 64-bit values; all byte strings within the bound, including truncations at every point",
  "the unit test samples a handful of values; the boundary values of each length and the truncation points are not sampled",
  ["src/VLU.cpp","include/rtmfp/VLU.hpp"],
  [("base-128 encode/parse with saturation","src/VLU.cpp VLU::encode, VLU::append, VLU::parse"),("length-prefixed fields","src/VLU.cpp VLU::parseField, FieldString"),("options","src/VLU.cpp Option::append, Option::parse")],
  observe=["return values and the destination buffer"])
p("C02","Sequence-number sets behave as mathematical sets of integers",
  "After any sequence of range additions and removals, a sequence-number set contains exactly the integers a mathematical set would, reports its size, extremes and emptiness accordingly, and lists its members as disjoint, ascending, non-adjacent ranges. This includes ranges touching zero and the largest representable integer.",
  ["inputs","histories"],"all sequences of add/remove operations up to the bound with arbitrary 64-bit endpoints (inverted ones included)",
  "testindexset-style samples cover a few hand-picked ranges; overlap, adjacency and overflow cases form a large combinational space",
  ["src/IndexSet.cpp","include/rtmfp/IndexSet.hpp"],
  [("range merge / split","src/IndexSet.cpp IndexSet::add, IndexSet::remove"),("queries","src/IndexSet.cpp contains, size, lowestIndex, highestIndex")],
  state=[("ordered list of ranges","the set, as disjoint non-adjacent ranges","include/rtmfp/IndexSet.hpp")],
  observe=["public query methods and range enumeration"])
p("C03","Ordered queue container keeps order, identity and running sum",
  "For any sequence of insertions (at either end or before/after a member), moves, removals and clears, the queue container holds exactly the expected members in the expected order in both directions, and a member's handle keeps designating that member and no other until it is removed. The size-accounting variant's running total always equals the sum of the sizes of its current members.",
  ["histories"],"all operation sequences up to the bound, at arbitrary positions and with arbitrary member sizes",
  "testlist exercises one scripted sequence",
  ["include/rtmfp/List.hpp"],
  [("linked nodes with recycled names","include/rtmfp/List.hpp List"),("running sum","include/rtmfp/List.hpp SumList")],
  observe=["forward and backward traversal, size(), sum()"])
p("C04","Network addresses round-trip, compare consistently and reject bad encodings",
  "Encoding an IPv4 or IPv6 address and decoding it gives an equal address with the same port and origin, and decoding any byte string accepts only the exact IPv4 or IPv6 encodings without reading past its end. Address comparison is a strict total order consistent with equality, and converting IPv4 to its IPv6-mapped form and back is the identity.",
  ["inputs"],"all IPv4/IPv6 address bytes, ports and origins; all byte strings up to 24 bytes",
  "testaddress uses a few literal addresses",
  ["src/Address.cpp","include/rtmfp/Address.hpp"],
  [("wire form","src/Address.cpp Address::encode, setFromEncoding"),("ordering","src/Address.cpp operator<, operator=="),("families","src/Address.cpp setFamily")],
  observe=["public accessors and encoded bytes"])
p("C05","Checksums equal their published definitions for every message",
  "Each CRC-32 variant equals the bit-by-bit textbook definition for every message and initial register, can be continued across any split, and detects any single-bit change. The 16-bit Internet checksum equals the ones-complement of the ones-complement sum of big-endian words for every message (a trailing odd byte contributes its own value, as the unit test fixes), and a whole-word message with its checksum appended sums to zero.",
  ["inputs"],"all byte strings up to the length bound",
  "the unit test checks a couple of known vectors",
  ["src/Checksums.cpp","include/rtmfp/Checksums.hpp"],
  [("table-driven CRC","src/Checksums.cpp crc32_be, crc32_le"),("Internet checksum","src/Checksums.cpp in_cksum")],
  observe=["return values"])
p("C06","Hexadecimal text converts exactly, and bad digits are rejected",
  "Encoding bytes to hexadecimal and decoding gives the same bytes; decoding accepts either letter case and exactly the digits 0-9 a-f A-F (with the documented separators handled as documented), and fails for every other character or for a dangling digit, without reading outside the text.",
  ["inputs"],"all byte strings / texts up to the bound",
  "testhex samples some strings",
  ["src/Hex.cpp","include/rtmfp/Hex.hpp"],
  [("encode / decode","src/Hex.cpp Hex::encode, Hex::decode, decodeByte")],
  observe=["return values and destination"])
p("C07","URI parsing is a lossless decomposition for every text",
  "For every text without line breaks, splitting it into URI components loses nothing: the components re-concatenate to the original text in order, each component contains no delimiter that would have ended it, and dot-segment removal and percent-decoding give what RFC 3986 defines. No text makes the parser fail, loop, or read outside it.",
  ["inputs"],"all texts up to the length bound over the full byte alphabet",
  "testuriparse checks a table of well-formed URIs",
  ["src/URIParse.cpp","include/rtmfp/URIParse.hpp"],
  [("split into components","src/URIParse.cpp URIParse::parse"),("dot segments, relative references","src/URIParse.cpp removeDotSegments, transformRelativeReference"),("percent decoding","src/URIParse.cpp percentDecode, safePercentDecode")],
  observe=["public members and static helpers"])
p("C08","Decoding hostile AMF0 data is safe, bounded and truthful",
  "Decoding any byte string as AMF0 terminates without touching memory outside it, consumes no more than its length, never nests deeper than the documented limit, and either fails or yields a value whose type and content are those the bytes denote.",
  ["inputs"],"all byte strings up to the bound; nesting beyond the documented maximum depth",
  "testamf decodes valid messages and a few truncations",
  ["src/AMF.cpp","include/rtmfp/AMF.hpp"],
  [("recursive-descent decoder with depth limit","src/AMF.cpp AMF0::decode, setFromEncoding")],
  observe=["decoded value, cursor position, memory accesses"])
p("C09","AMF0 values survive an encode/decode round trip unchanged",
  "Any AMF0 value (numbers including every bit pattern, booleans, strings short and long, objects, typed objects, arrays, null, undefined) encodes to bytes that decode to an equal value and are consumed completely, and re-encoding gives the same bytes. Duplicating a value gives an equal, independent value.",
  ["inputs"],"all values of the stated shapes with arbitrary scalar, key and string content",
  "testamf round-trips one object",
  ["src/AMF.cpp","include/rtmfp/AMF.hpp"],
  [("encoders and decoders","src/AMF.cpp encode, setFromEncoding, duplicate")],
  observe=["encoded bytes and decoded values"])
p("C10","Tin-Can message headers and flow metadata round-trip and reject garbage",
  "A message type, 32-bit timestamp and payload packed as a Tin-Can message parse back identically, as do stream ID and receive intent packed as flow metadata; parsing any byte string stays within it and fails on anything malformed. Timestamp comparison is the circular 32-bit order for timestamps less than 2^31 apart.",
  ["inputs"],"all header values; all byte strings up to the bound; all pairs/triples of timestamps",
  "testtcmsg samples a few messages",
  ["src/TCMessage.cpp","include/rtmfp/TCMessage.hpp"],
  [("message header","src/TCMessage.cpp TCMessage::message, parseHeader"),("metadata","src/TCMessage.cpp TCMetadata::encode, parse"),("timestamp order","src/TCMessage.cpp Message::timestamp_lt etc.")],
  observe=["parsed values"])
p("C11","Media classifiers never read beyond the payload and follow the format",
  "Deciding whether an audio or video payload is initialisation data, a keyframe, a sequence header or an enhanced-format frame, and which codec it names, depends only on the bytes present: no payload length makes it read past the end, and the answers match the FLV/enhanced-RTMP bit layout.",
  ["inputs"],"all payloads up to the bound",
  "testtcmsg samples typical payloads",
  ["src/TCMessage.cpp","include/rtmfp/TCMessage.hpp"],
  [("classifiers","src/TCMessage.cpp Message::isVideo*, isAudio*, getVideoCodec, getAudioCodec")],
  observe=["return values, memory accesses"])
p("C12","Media track metadata and message headers round-trip and are parsed safely",
  "A media track description encoded as flow metadata decodes to an equal description, and a media message header parses back to the type, flags and ticks it was built from; parsing any byte string stays within it and fails on malformed input. Track comparison is a consistent ordering.",
  ["inputs"],"all descriptions with bounded strings and arbitrary integers; all byte strings up to the bound",
  "testmedia samples a few descriptions",
  ["src/Media.cpp","include/rtmfp/Media.hpp"],
  [("metadata codec","src/Media.cpp Media::parse, toMetadata"),("message header","src/Media.cpp makeHeader, parseHeader"),("comparison","src/Media.cpp track_compare")],
  observe=["parsed values"])
p("C13","Flow synchronisation holds members until all have arrived, then releases all",
  "A synchronisation marker parses back to the identifier and count it was made from, for every value of each. When flows reach a marker for a barrier of N, each is suspended and none is resumed until N distinct arrivals, at which point all are resumed exactly once; barriers with different identifiers do not affect each other, and closing the manager resumes everything.",
  ["inputs","schedules"],"all identifiers and counts; all arrival orders up to the bound",
  "testflowsync checks one scenario",
  ["src/FlowSyncManager.cpp","include/rtmfp/FlowSyncManager.hpp"],
  [("marker codec","src/FlowSyncManager.cpp parse, makeSyncMessage"),("barrier","src/FlowSyncManager.cpp sync, SyncGroup")],
  observe=["receive order of the flows, parsed values"])
p("C14","Packet building never overruns its buffer and is transactional",
  "Whatever sequence of items is appended to a packet being built, no byte is written beyond the given capacity, an item that does not fit leaves the packet exactly as it was, rolling back a chunk restores the packet to before it, and every committed chunk carries its correct length and the bytes appended, in order.",
  ["inputs","histories"],"all append sequences up to the bound with arbitrary values and capacities",
  "no test covers packet building",
  ["src/PacketAssembler.cpp","include/rtmfp/PacketAssembler.hpp"],
  [("bounded cursor with chunk start/commit/rollback","src/PacketAssembler.cpp")],
  observe=["buffer contents"])
p("C15","Timers fire in due order, never early, never after cancellation",
  "However timers are scheduled, rescheduled and cancelled (also from inside a firing timer), each fires only at or after its due time, earlier due times fire first, a cancelled timer never fires again, a one-shot timer fires exactly once, a recurring timer advances by its interval without firing more often than its catch-up policy allows, and the reported sleep time reaches the earliest pending timer.",
  ["schedules","histories"],"all sequences of schedule/reschedule/cancel/advance up to the bound",
  "tis and testcollect use timers incidentally; no order/cancel combination is examined systematically",
  ["src/Timer.cpp","include/rtmfp/Timer.hpp"],
  [("due-time ordered timer list","src/Timer.cpp TimerList::schedule, fireDueTimers, howLongToNextFire"),("cancel and recurrence","src/Timer.cpp Timer::cancel, basicFire, setNextFireTime")],
  observe=["timer actions, howLongToNextFire"])
p("C16","Write receipts report each message's fate exactly once and truthfully",
  "A message's completion callback runs exactly once, and the message is finally either delivered or abandoned, never both; it is abandoned exactly when its owner abandons it, a start deadline passes before transmission began, a finish deadline passes before delivery, or the message it depends on was abandoned. Deadlines already past, infinite or changed later are honoured, and expiring a chain only ever tightens deadlines.",
  ["histories","schedules"],"all sequences of start/deliver/abandon/deadline events over chains up to the bound",
  "no test covers write receipts",
  ["src/WriteReceipt.cpp","include/rtmfp/WriteReceipt.hpp","src/SendFlow.cpp"],
  [("deadlines and parent dependency","src/WriteReceipt.cpp WriteReceipt::abandonIfNeeded"),("settlement on fragment disposal","src/WriteReceipt.cpp IssuerWriteReceipt"),("chains","src/WriteReceipt.cpp WriteReceiptChain")],
  observe=["receipt queries and onFinished"])
p("C17","Reorder buffer delivers each message exactly once, in order unless flagged late",
  "For every arrival order and gap, each inserted message is delivered exactly once with its own bytes; messages not flagged late are delivered in increasing sequence order, a message is held only while an earlier one may still arrive inside the window, and flushing delivers everything that is held. (Each sequence number is inserted once, and not from within a delivery.)",
  ["schedules","histories"],"all arrival permutations, gaps, fragment counts and expiry points up to the bound",
  "testreorder plays one schedule",
  ["src/ReorderBuffer.cpp","include/rtmfp/ReorderBuffer.hpp"],
  [("sequence- and time-ordered hold list","src/ReorderBuffer.cpp insert, deliver, deliverThrough, flush")],
  observe=["onMessage callbacks"])
p("C18","Reference holders: an object lives exactly as long as something holds it",
  "For any sequence of taking, copying, swapping and dropping shared holds and retains on an object, the object is destroyed exactly once, immediately when the last hold goes away and never before; the library's containers and callbacks release what they held when they are cleared.",
  ["histories"],"all sequences of hold operations up to the bound over several objects",
  "testretainer samples a few sequences",
  ["src/Object.cpp","include/rtmfp/Object.hpp","include/rtmfp/Retainer.hpp"],
  [("intrusive reference count","src/Object.cpp Object::retain, release"),("smart holders","include/rtmfp/Retainer.hpp Retainer, retain_ref, share_ref")],
  observe=["destructor execution"])
p("C19","Sealed packets open to the same bytes; altered or replayed ones are refused",
  "Under the Flash cryptography profile, for every negotiated combination of checksum, HMAC length and sequence numbers, what one end seals the other opens to the same bytes; a packet whose authenticator or checksum does not match is refused, a packet already accepted or older than the replay window is refused when sequence numbers are required, a fresh in-window one is accepted, and no input length makes sealing or opening touch memory outside its buffers.",
  ["inputs","configurations","histories"],"all payload bytes and packet lengths up to the bound; all negotiation settings; all orders of packet arrival",
  "no test covers the crypto adapters",
  ["src/FlashCryptoAdapter.cpp","include/rtmfp/FlashCryptoAdapter.hpp","src/PlainCryptoAdapter.cpp"],
  [("packet seal/open","src/FlashCryptoAdapter.cpp FlashCryptoKey::encrypt, decrypt"),("replay window","src/FlashCryptoAdapter.cpp FlashCryptoKey::decrypt"),("plain profile","src/PlainCryptoAdapter.cpp PlainCryptoKey")],
  observe=["encrypt/decrypt results"])
p("C20","Key negotiation: both ends derive the same session and honour requirements",
  "Under the Flash cryptography profile, when both ends complete key negotiation they share one Diffie-Hellman group and secret, their transmit/receive keys and nonces mirror each other, and each end's required protections (HMAC, sequence numbers) are in force in the direction it required; if an end's requirement cannot be met or the other end's component is malformed, negotiation fails. Parsing any certificate, endpoint discriminator or keying component never reads outside it.",
  ["inputs","configurations"],"all protection settings of both ends, static/ephemeral mixes; all byte strings up to the bound as certificate, discriminator or component",
  "no test covers negotiation",
  ["src/FlashCryptoAdapter.cpp","include/rtmfp/FlashCryptoAdapter.hpp"],
  [("flag negotiation","src/FlashCryptoAdapter.cpp negotiateFlags"),("component generation and combination","src/FlashCryptoAdapter.cpp generateInitiatorKeyingComponent, generateResponderKeyingComponent, initiatorCombineResponderKeyingComponent"),("certificate and EPD parsing","src/FlashCryptoAdapter.cpp FlashCryptoCert::init, EPDParseState::parse")],
  observe=["success/failure, derived keys as used, EPD selection"])
p("C21","No datagram from an established peer can corrupt or crash an open session",
  "Whatever bytes arrive in a validly sealed packet for an open session, the receiver processes them without touching memory outside the packet, without throwing or aborting, and in bounded time; malformed chunks are ignored and the session can still carry a message afterwards unless the packet closed it.",
  ["inputs","fault_sequences"],"all packet contents up to the length bound, in sessions with flows in various states, followed by normal traffic",
  "no test runs the protocol engine",
  ["src/Session.cpp","src/RecvFlow.cpp","src/SendFlow.cpp","src/RTMFP.cpp"],
  [("packet and chunk parsing with bounds","src/Session.cpp ISession::onReceivePacket, Session::onChunk and per-chunk handlers"),("user data","src/RecvFlow.cpp onData"),("acks","src/SendFlow.cpp onAck")],
  observe=["memory accesses, exceptions, subsequent delivery"])
p("C22","No unauthenticated datagram can corrupt, crash or commit state",
  "Whatever bytes arrive outside any session, with any session ID, the receiver processes them without touching memory outside the packet, without throwing or aborting and in bounded time; packets for unknown sessions are reported as not recognised, and no packet lacking a cookie issued to that very source address causes session state to be created.",
  ["inputs"],"all startup packet contents up to the length bound in idle, opening and shutting-down instances",
  "no test runs the protocol engine",
  ["src/RTMFP.cpp","src/Session.cpp"],
  [("startup chunk parsing","src/Session.cpp StartupSession handlers"),("session lookup","src/RTMFP.cpp RTMFP::onReceivePacket"),("cookies","src/RTMFP.cpp makeCookie, checkCookie")],
  observe=["onReceivePacket result, emitted packets, callbacks"])
p("C23","Received messages are delivered intact, exactly once, in the chosen order",
  "For any arrival order, duplication or loss of the fragments a sender emits, a receiver delivers each completely received message exactly once with exactly its bytes; in queue order mode in strictly increasing order without skipping a message that may still arrive, in network order mode as soon as complete, and in hold mode not until released. A message with a missing or abandoned fragment is never delivered.",
  ["schedules","fault_sequences"],"all arrival orders/duplications/losses of the fragments of several messages up to the bound, arbitrary fragmentation and payload bytes, all receive orders",
  "no test runs the receiver",
  ["src/RecvFlow.cpp"],
  [("reassembly","src/RecvFlow.cpp insertFragment, deliverMessage, tryDelivery, onData")],
  state=[("received sequence numbers","which fragments have arrived","src/RecvFlow.cpp"),("receive buffer","fragments not yet delivered","src/RecvFlow.cpp")],
  observe=["onMessage callbacks"])
p("C24","Acknowledgements state exactly what was received and how much buffer is left",
  "Every acknowledgement a receiver sends lists exactly the sequence numbers it has received or been told to skip, never one it has not, and advertises the free buffer rounded up to whole 1024-byte blocks (at least one block, unless the flow is on hold, or its capacity or limit is zero); acknowledged data is never lost from the receiver's buffer.",
  ["schedules","fault_sequences"],"all arrival patterns of fragments and forward-skips up to the bound; bitmap and range forms; limited packet space",
  "no test runs the receiver",
  ["src/RecvFlow.cpp","src/Session.cpp"],
  [("ack assembly","src/RecvFlow.cpp assembleAck"),("received set","src/RecvFlow.cpp onData")],
  observe=["ack chunks on the wire"])
p("C25","Sender accounting follows the acknowledgements exactly",
  "For any sequence of acknowledgements (arbitrary, stale, duplicate or malicious), a sender considers a fragment delivered only if it was acknowledged, keeps retransmitting every unacknowledged unabandoned fragment with unchanged bytes, sequence number and framing, and its count of outstanding bytes is exactly the bytes in flight: never negative, zero when nothing is in flight.",
  ["inputs","histories","fault_sequences"],"all ack contents up to the bound against a send queue of several fragments in mixed states",
  "no test runs the sender",
  ["src/SendFlow.cpp","src/Session.cpp"],
  [("ack processing","src/SendFlow.cpp onAck, ackRange"),("loss and retransmission","src/Session.cpp ackFlows / loss detection, SendFlow::onLoss")],
  observe=["getOutstandingBytes, receipts, retransmitted chunks"])
p("C26","Reliable flows deliver every message over a lossy, reordering network",
  "If the network eventually stops losing packets, every message queued on an unabandoned flow is delivered to the peer exactly once, intact and in order, its receipt reports delivery, and both ends return to having nothing outstanding; before that, no corrupted, duplicated or invented message is ever delivered.",
  ["fault_sequences","schedules"],"all drop/duplicate/reorder decisions on the first packets up to the bound, arbitrary payload bytes and message sizes",
  "no test runs two ends together",
  ["src/Session.cpp","src/SendFlow.cpp","src/RecvFlow.cpp","src/RTMFP.cpp"],
  [("retransmission timeout and loss detection","src/Session.cpp"),("reassembly","src/RecvFlow.cpp")],
  observe=["onMessage at the receiver, receipts at the sender"])
p("C27","Partial reliability: abandoned messages arrive undamaged or not at all",
  "When messages are abandoned or expire at any point of their transmission, the receiver never delivers a fragment or truncated form of them, is told to skip them, and still delivers every later message in order; an abandoned message is delivered complete or not at all, and a message whose receipt says delivered was delivered or skipped by the receiver's own report.",
  ["fault_sequences","schedules"],"all choices of which messages are abandoned, when, and which packets are lost, up to the bound",
  "no test runs two ends together",
  ["src/SendFlow.cpp","src/RecvFlow.cpp","src/WriteReceipt.cpp"],
  [("forward sequence number","src/SendFlow.cpp findForwardSequenceNumber, assembleData"),("skipping","src/RecvFlow.cpp onData")],
  observe=["onMessage at the receiver, receipts"])
p("C28","Flow control: a sender respects the receiver's advertised buffer",
  "A sender begins no transmission of user data on a flow while its data in flight already fills the window the receiver last advertised. While that window is closed it keeps probing, at most a minute apart, and transmission resumes when the window reopens, even if the messages announcing that are lost.",
  ["inputs","fault_sequences"],"all advertised window values and loss of window updates up to the bound",
  "no test runs the sender",
  ["src/SendFlow.cpp","src/RecvFlow.cpp"],
  [("window check","src/SendFlow.cpp assembleData"),("persist probing","src/SendFlow.cpp setPersistTimer, onPersistTimer"),("buffer probe reply","src/RecvFlow.cpp / src/Session.cpp")],
  observe=["user data chunks on the wire, getRecvBufferBytesAvailable"])
p("C29","Congestion control: bounded window, back-off on loss",
  "The congestion window never falls below its documented minimum, a session stops sending user data while its outstanding data fills the window, the window does not grow on acknowledgements that acknowledge nothing or while the sender is not using it, and it shrinks after a loss or timeout. While the peer reports that time-critical traffic is being received from elsewhere, the window grows only slowly.",
  ["inputs","histories"],"all sequences of ack/loss/timeout/time-critical events up to the bound with arbitrary sizes",
  "no test runs the sender",
  ["src/Session.cpp"],
  [("window update","src/Session.cpp updateCWND"),("send gate","src/Session.cpp assembling / burst limit")],
  observe=["getCongestionWindow, packets emitted"])
p("C30","A session opens only after an authenticated handshake with the intended peer",
  "A responder creates session state only for a keying message carrying a fresh cookie issued to that source address and whose certificate and signature verify; an initiator opens only with a peer whose certificate is selected by the endpoint it asked for, whose signature over the keying material verifies, in answer to its own request. Both ends then agree on session IDs and nonces, and neither end reports open otherwise.",
  ["inputs","fault_sequences","schedules"],"all alterations of each handshake message (arbitrary byte corruption up to the bound), loss/duplication of handshake packets, verification outcomes and timing",
  "no test runs the handshake",
  ["src/RTMFP.cpp","src/Session.cpp"],
  [("cookies","src/RTMFP.cpp makeCookie, checkCookie, sendCookieChange"),("keying","src/RTMFP.cpp onIIKeying, src/Session.cpp onRIKeying, signature checks")],
  observe=["onWritable/onRecvFlow, emitted packets"])
p("C31","Simultaneous open leaves one working session; retransmitted keying is idempotent",
  "When both ends open to each other at once, in any interleaving and with any losses, they end up with one shared session on which both ends' flows work, rather than none or two; a duplicate or retransmitted keying message never creates a second session or changes the keys of the first.",
  ["schedules","fault_sequences"],"all interleavings of the handshake packets of the two ends up to the bound",
  "no test runs two ends together",
  ["src/RTMFP.cpp","src/Session.cpp"],
  [("glare resolution","src/RTMFP.cpp onIIKeying, src/Session.cpp"),("keying retransmission","src/RTMFP.cpp tryRIKeyingRetransmit")],
  observe=["flows opened, packets emitted"])
p("C32","A peer's address changes only after it proves it is reachable there",
  "Traffic keeps going to the verified peer address until a reply to a mobility check, carrying the exact unforgeable token for that new address and recent enough, arrives from that new address; then, and only then, the session's address changes and flows are told. Arbitrary replies, replays from other addresses or expired tokens change nothing.",
  ["inputs","fault_sequences"],"all ping-reply contents up to the bound from any of several addresses, all timings around the validity limit",
  "no test runs the protocol engine",
  ["src/Session.cpp","src/RTMFP.cpp"],
  [("mobility check","src/Session.cpp mobility check / ping reply handlers"),("address index","src/RTMFP.cpp onSessionAddressDidChange")],
  observe=["getFarAddress, onFarAddressDidChange, packet destinations"])
p("C33","Closing is orderly: each open flow hears exactly once, then silence",
  "Whichever end closes a flow, a session or an instance, at any moment of an open session, also from within their callbacks, and with any losses, each open flow at each end gets at most one final notification (exception or completion) and exactly one if its session is closed underneath it (an instance that is shut down at once tells only its own flows), no callback runs on a flow after it was closed locally, data queued before an orderly flow close is still delivered, and shutdown completion is reported exactly once after every session is gone.",
  ["schedules","fault_sequences","histories"],"all interleavings of close calls at the two ends with delivery/loss of packets up to the bound",
  "no test runs two ends together",
  ["src/Session.cpp","src/SendFlow.cpp","src/RecvFlow.cpp","src/RTMFP.cpp"],
  [("session close states","src/Session.cpp close, onCloseRequest/Ack, abort"),("flow close","src/SendFlow.cpp close, gotoStateClosed; src/RecvFlow.cpp close, closeAndNotify"),("shutdown","src/RTMFP.cpp shutdown, checkShutdownComplete")],
  observe=["onException, onComplete, onShutdownComplete"])
p("C34","A dead or idle peer is detected within the configured limits, a live one is kept",
  "A session whose peer stays silent while data or keepalive checks are unanswered is terminated within the retransmission limit and its flows are told; a session with no flows is closed after the idle limit; and a session whose peer answers is never terminated by these limits.",
  ["schedules","fault_sequences","configurations"],"all choices of silence points and limits from the stated sets",
  "no test runs the protocol engine",
  ["src/Session.cpp"],
  [("keepalive, idle and retransmit limits","src/Session.cpp timers")],
  observe=["onException/onComplete, isOpen, packets emitted"])
p("C35","Congestion marks are used only on user data, reported faithfully and acted upon",
  "A sender marks packets as congestion-capable only when they carry user data and only until the first acknowledgements arrive without the peer ever having reported on marks, a receiver's congestion reports count exactly the congestion-marked packets it received (modulo the field width), and a report of new marks makes the sender reduce its window at most once per round trip.",
  ["inputs","fault_sequences"],"all marks on received packets and all report values up to the bound",
  "no test runs the protocol engine",
  ["src/Session.cpp","src/RecvFlow.cpp"],
  [("mark counting and report","src/Session.cpp ECN handling"),("report emission","src/RecvFlow.cpp assembleAck")],
  observe=["tos passed to the platform, report chunks, getCongestionWindow"])
p("C36","Higher-priority data goes first and every ready flow is eventually served",
  "When several flows have data ready, time-critical priorities are sent before lower ones, flows of equal priority share service, messages on one flow never overtake each other in first transmission, and no flow with data ready is left unserved once higher priorities are drained.",
  ["schedules","histories"],"all assignments of priorities and message sizes to flows up to the bound",
  "no test runs the sender",
  ["src/Session.cpp","src/Interface.cpp","src/SendFlow.cpp"],
  [("per-priority queues","src/Session.cpp, src/Interface.cpp, include/rtmfp/Priority.hpp")],
  observe=["order of user data on the wire"])
p("C37","Redirector client: registers faithfully, reconnects, and goes silent once closed",
  "The redirector client announces exactly the configured settings, load factor and authentication answers when connected and active, re-connects no sooner than the minimum interval after losing the connection, and invokes no callback and starts no connection after it is closed. Any message from the server is parsed within its bounds.",
  ["inputs","histories","fault_sequences"],"all server messages up to the bound; all sequences of setting changes, disconnects and close up to the bound",
  "no test covers the redirector client",
  ["src/RedirectorClient.cpp","include/rtmfp/RedirectorClient.hpp"],
  [("status machine and settings","src/RedirectorClient.cpp"),("message parsing","src/RedirectorClient.cpp onMessage")],
  observe=["messages sent, callbacks"])
p("C38","Tin-Can connection: transactions answered once, streams isolated, bytes safe",
  "Each transaction's handler runs exactly once (with the server's answer, or failure if the connection closes first), stream messages reach only the stream they name and only while it is open, nothing is called back after closing, server messages of any content are processed within their bounds, and what a stream sends carries the type, timestamp and payload given.",
  ["inputs","histories"],"all server messages up to the bound; all orders of responses, stream creation/deletion and close up to the bound",
  "no test covers the client connection",
  ["src/TCConnection.cpp","include/rtmfp/TCConnection.hpp"],
  [("transactions and streams","src/TCConnection.cpp"),("message dispatch","src/TCConnection.cpp onMessage")],
  observe=["handlers, stream callbacks, messages sent"])
p("C39","Worker threads: queued tasks run once, in order, on their thread",
  "Tasks handed to a performer from any thread run exactly once each, in the order queued by each thread, on the performer's run loop, and a synchronous perform returns only after its task ran.",
  ["schedules"],"all thread interleavings",
  "testperform runs a few interleavings",
  ["src/Performer.cpp","src/PerformerPosixPlatformAdapter.cpp"],
  [("mutex-protected queue and wake-up pipe","src/Performer.cpp")],
  observe=["task execution"])
p("C40","Run loops dispatch every ready descriptor and due task",
  "A run loop calls the registered callback for every descriptor that is ready for its condition and none that was unregistered, runs do-later tasks once each in order, and wakes for the earliest timer.",
  ["schedules","histories"],"all readiness patterns reported by the operating system",
  "tis runs one scenario",
  ["src/RunLoop.cpp","src/SelectRunLoop.cpp","src/EPollRunLoop.cpp","src/PosixPlatformAdapter.cpp"],
  [("descriptor tables","src/SelectRunLoop.cpp, src/EPollRunLoop.cpp")],
  observe=["callbacks"])
p("C41","Rate tracking reports the rate of recent data and decays to zero",
  "The reported rate is never negative, is zero before data and after a long silence, and for steady input converges to the input rate.",
  ["inputs","histories"],"all sequences of updates with non-decreasing times",
  "testratetracker samples one sequence",
  ["src/RateTracker.cpp"],
  [("windowed decay","src/RateTracker.cpp")],
  observe=["getRate"])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for x in P:
        if len(x["title"])>80: print("LONG",x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
