# Per-property check configuration: harness, sources, bounds.
PROPS = {}
def P(id, harness=None, srcs=(), bounds=('',), outside='', reach=(), runs=None, **kw):
    d = dict(harness=harness or id + '.cpp', srcs=list(srcs), bounds=list(bounds), outside=outside, reach=list(reach))
    if runs: d['runs'] = runs
    d.update(kw); PROPS[id] = d

PROTO = ['RTMFP.cpp', 'Session.cpp', 'SendFlow.cpp', 'RecvFlow.cpp', 'Flow.cpp', 'Interface.cpp', 'PacketAssembler.cpp', 'VLU.cpp', 'Address.cpp', 'IndexSet.cpp', 'WriteReceipt.cpp', 'Timer.cpp', 'Object.cpp']
P('C01', srcs=['VLU.cpp'],
  bounds=['every 64-bit value for encode/append/round trip and option types and values; every byte string of 0..12 bytes for integer decode and 0..14 bytes for field and option decode; option values of 0..4 arbitrary bytes and 120..135 fixed bytes.',
          'as quick with byte strings of 0..16 bytes (integers) and 0..24 bytes (fields, options), option values of 0..12 arbitrary bytes.'],
  outside='longer byte strings; decode without a limit on unterminated input.',
  reach=['encode', 'parse.truncated', 'parse.complete', 'field.truncated', 'field.ok', 'option.marker', 'option.badtype', 'option.ok', 'option.encode'])
P('C02', srcs=['IndexSet.cpp', 'Object.cpp'],
  bounds=['every history of 2 operations (add/remove of a range; the last one also add/remove of a point or clear) with arbitrary 64-bit endpoints, inverted ones included, and every history of 3 with endpoints in the 128 lowest and 128 highest integers, membership decided for an arbitrary probe point; union and difference of any single range with any set of up to 2 ranges with such endpoints; element enumeration of up to 2 ranges in the ten lowest and ten highest integers; pairwise range relations over arbitrary 64-bit endpoints.',
          'as quick with histories of 3 (64-bit) and 4 operations and two set operands of 2 ranges.'],
  outside='longer histories (sets of more than 4 ranges).', runs=[dict(name='near', quick_params=['ops=3', 'operands=1'], thorough_params=['ops=4', 'operands=2']), dict(name='wide', quick_params=['ops=2', 'full=1'], thorough_params=['ops=3', 'full=1'])],
  reach=['history', 'operands', 'elements', 'ranges', 'empty', 'one', 'two', 'many'])
P('C03', srcs=['Object.cpp'],
  bounds=['every history of 2 operations (1 after a scripted history that recycles and grows nodes) out of 14 (10 for the summed list) at every position of lists of 0..5 members, with arbitrary 16-bit values; every 64-bit number that is not a live handle rejected.',
          'as quick with 3 (2) operations.'], outside='longer histories; element types with throwing or re-entrant copy.',
  runs=[dict(name='all', thorough_params=['ops=3', 'grow=2'])], reach=['list', 'sumlist', 'foreign'])
P('C05', srcs=['Checksums.cpp'],
  bounds=['CRCs: every message of 0..2 bytes and every initial register; every 2-byte patch at every place of a 4-byte message, split inside the patch, every single-bit change of its first byte. Internet checksum: every message of 0..5 bytes.', 'as quick with CRC messages of 0..3 bytes, 12-byte patched messages, Internet checksum messages of 0..9 bytes.'],
  outside='longer fully arbitrary messages (the 32-bit accumulator of the Internet checksum overflows above 128 KiB, as its source says).',
  runs=[dict(name='all', thorough_params=['crclen=4', 'sumlen=10', 'longlen=12'])], reach=['crc', 'crc.long', 'sum.odd', 'sum.even', 'sum.verify'])
P('C06', srcs=['Hex.cpp'],
  bounds=['encoding of every byte string of 0..3 bytes; decoding of every text of 0..4 bytes over the full byte alphabet; every pair of characters.', 'as quick with texts of 0..5 bytes and 0..5 encoded bytes.'],
  outside='longer texts; the printing functions (output only).', runs=[dict(name='all', thorough_params=['dec=6', 'enc=6'])], reach=['encode', 'decode.ok', 'decode.bad', 'digit'])
P('C04', srcs=['Address.cpp', 'Object.cpp'],
  bounds=['every IPv4 and IPv6 address, port and origin for wire, socket and mapped forms; every byte string of 0..20 bytes for decoding into an unset, IPv4 or IPv6 object; equality and order of every pair of (unset, IPv4, IPv6) addresses; transitivity over addresses differing in first byte, last byte and port.'],
  outside='text forms; host name lookup.', reach=['roundtrip', 'decode.ok', 'decode.bad', 'order2', 'transitive', 'map', 'unmap'])
P('C07', srcs=['URIParse.cpp', 'Hex.cpp'],
  bounds=['parsing of eight prefixes followed by every text of 0..4 bytes (full alphabet); dot-segment removal of every NUL-free path of 0..6 bytes; percent decoding of every text of 0..5 bytes; splitting of every text of 0..4 bytes; relative references of 0..2 bytes against four bases.',
          'as quick with texts of 0..5 (parse), 0..8 (dots), 0..7 (percent), 0..6 (split), 0..4 (relative).'],
  outside='longer texts; lossless parsing of texts with line breaks (only absence of failure is shown for them).',
  runs=[dict(name='all', thorough_params=['parse=5', 'dots=8', 'percent=7', 'split=6', 'rel=4'])],
  assumptions=['std::regex is replaced by a backtracking model of the ECMAScript subset the code uses (harness/stub/regex); sampled paths are replayed natively with the real std::regex'],
  reach=['parse', 'linebreak', 'dots', 'percent', 'percent.bad', 'split', 'relative'])
P('C08', srcs=['AMF.cpp', 'Object.cpp'],
  bounds=['every byte string of 0..9 bytes, and thirteen fixed beginnings of objects, arrays and strings (with arbitrary bytes inside) followed by every tail of 0..4 bytes, in an exactly sized buffer; nesting of 30..36 and 2000 containers of three kinds around an arbitrary innermost marker.', 'as quick with strings of 0..11 bytes and tails of 0..6 bytes.'],
  outside='longer arbitrary data; data past UINT32_MAX elements.', reach=['decoded', 'rejected', 'sequence', 'deep', 'toodeep'], runs=[dict(name='all', thorough_params=['len=11', 'tail=6'])])
P('C09', srcs=['AMF.cpp', 'Object.cpp'],
  bounds=['every value built of at most 3 values in at most 3 levels (all nine kinds), every number bit pattern, strings of 0..2, keys of 0..1 and class names of 0..1 arbitrary bytes (two keys of 0..2 in one object); strings, keys and class names of 255..65537 bytes with an arbitrary byte at three places; 2 array operations with arbitrary 32-bit indices for removal and reset; sequences of up to 3 scalars.', 'as quick with strings of 0..3 and keys of 0..2 bytes and 3 array operations.'],
  outside='larger values; text output of values (repr, JSON); AMF0Array::remove with fromIndex + count above SIZE_MAX.', reach=['value', 'long', 'array', 'object', 'sequence'], runs=[dict(name='all', thorough_params=['budget=2', 'keylen=2', 'strlen=3', 'arrayops=3'])])
P('C10', srcs=['TCMessage.cpp', 'AMF.cpp', 'VLU.cpp', 'Object.cpp'],
  bounds=['every message type, timestamp, stream and receive intent; payloads of 0..5 arbitrary bytes; headers of 0..8 and metadata of 0..10 arbitrary bytes; every pair of timestamps less than 2^31 apart; commands with names of 0..3 arbitrary bytes, every transaction number, 0..3 raw bytes or arguments.', 'as quick with metadata of 0..14 bytes.'],
  outside='timestamps exactly 2^31 apart (documented as outside the order); longer payloads.', runs=[dict(name='all', thorough_params=['meta=14'])], reach=['message', 'header', 'metadata', 'meta.ok', 'meta.bad', 'timestamps', 'command'])
P('C11', srcs=['TCMessage.cpp', 'AMF.cpp', 'VLU.cpp', 'Object.cpp'],
  bounds=['every payload of 0..7 bytes (the classifiers look at the first five), every codec number.'], outside='nothing beyond the length bound: bytes after the fifth are never read.', reach=['build', 'video', 'audio'])
P('C12', srcs=['Media.cpp', 'VLU.cpp', 'Object.cpp'],
  bounds=['descriptions with one of stream, track, timescale numerator or denominator an arbitrary 64-bit integer and the others below 128, texts of 0..1 arbitrary bytes; six timescales, six origins, seven reorder suggestions, four tick values; the metadata signature with any one byte arbitrary, seven metadata beginnings followed by 0..5 arbitrary bytes; message headers of 0..6 arbitrary bytes and every pair of 64-bit times; comparison of every three tracks with 8-bit ids and types of 0..1 bytes.',
          'as quick with tails of 0..6, headers of 0..8 bytes and texts of 0..2 bytes.'],
  outside='arbitrary floating-point times (a fixed set is used); reorder suggestions in arbitrary metadata are 0..2 or 127 ticks and their timescale one of eight.',
  runs=[dict(name='all', thorough_params=['tail=6', 'header=8', 'text=2', 'lists=4'])], reach=['describe', 'times', 'meta.ok', 'meta.bad', 'signature', 'header.ok', 'header.bad', 'message', 'order'])
P('C13', srcs=PROTO + ['FlowSyncManager.cpp', 'TCMessage.cpp', 'AMF.cpp', 'Media.cpp', 'Hex.cpp'],
  bounds=['Every identifier and count (32 bits each), every message of 0..17 bytes. Three real flows of one session (one of them in network order or not), two barriers of 2 or 3, every history of 4 steps: a marker of either barrier or data on any flow, a reset, dropping the manager.', 'as quick with 5 steps, and with 4 where messages may also arrive together.'],
  outside='more flows and barriers; counts that disagree.', runs=[dict(name='markers', solver='bv'), dict(name='barriers', params=['barriers=1'], thorough_params=['barriers=1', 'steps=5']), dict(name='bursts', params=['barriers=1', 'bursts=1', 'steps=3'], thorough_params=['barriers=1', 'bursts=1', 'steps=4'])],
  reach=['marker', 'met', 'reset', 'closed', 'end'])
P('C14', srcs=['PacketAssembler.cpp', 'VLU.cpp', 'Object.cpp'],
  bounds=['every sequence of 3 operations out of 8 (chunk start, byte, bytes, field, integer, commit, rollback, time-critical flag) on packets of capacity 8, 11 and 24 with a 2-byte front margin, with or without a header of arbitrary flags and timestamps; arbitrary bytes and integers (64-bit in the first operation, up to 16384 later), data of 0, 3, 25 and 130 bytes.', 'as quick with 4 operations.'],
  outside='committing without an open chunk and initialising below the header size (preconditions the library never breaks).', runs=[dict(name='all', thorough_params=['steps=4'])], reach=['start', 'field', 'commit', 'rollback', 'end'])
P('C15', srcs=['Timer.cpp', 'Object.cpp'],
  bounds=['3 timers with due times out of 3, one-shot and recurring (two intervals, with and without catching up), 2 advances of the clock; one action taken inside any firing timer out of cancel or move itself or another, or add a timer; one cancellation or move of any timer beforehand; every way of ending (list destroyed, cleared, timers cancelled).', 'as quick with 2 actions and 3 advances.'],
  outside='other due times (only their order matters to the code), more timers, recursion into fireDueTimers.', runs=[dict(name='all', thorough_params=['actions=2', 'advances=3'])], reach=['destroyed', 'cleared', 'cancelled'])
P('C16', srcs=['WriteReceipt.cpp', 'Timer.cpp', 'Object.cpp'],
  bounds=['3 receipts of 1 or 2 fragments in four deadline assignments, independent, parented or in a chain; every history of 3 of the operations start, fragment disposed, abandon, clock advance, expiry check, deadline change, chain expiry, abandoning another receipt from within a callback; then all fragments are disposed of.', 'as quick with 4 operations.'],
  outside='longer histories, other times (their order is what matters to the code).', runs=[dict(name='all', thorough_params=['steps=4'])], reach=['expired', 'chain', 'end'])
P('C17', srcs=['ReorderBuffer.cpp', 'Timer.cpp', 'Object.cpp'],
  bounds=['every three messages with increasing arbitrary first sequence numbers below 2^62 (adjacent or with a gap), the second of 0..2 fragments, every arrival order, windows infinite, default, 2 and 0 seconds, one event between arrivals (a second passes, everything through the first message given up, flush), closing (and dropping the last reference) from within the first delivery, changing the window, three endings.', 'as quick with any one message fragmented and two events.'],
  outside='inserting from within a delivery; duplicates of one sequence number (the receiving flow never inserts them); more messages.',
  runs=[dict(name='all', thorough_params=['anyfrag=1', 'events=2'])], reach=['wait', 'skip', 'flush', 'expire', 'close', 'closed', 'dropped', 'end'])
P('C23', srcs=PROTO, choice='range',
  bounds=['every division of 3 fragments of 0..2 arbitrary bytes into messages, every order of arrival over 4 datagrams with one of them a duplicate, one message given up by the sender at any point, every forwarding of the sender\'s lowest sequence number that is truthful, sequence numbers beginning at 1 or 127; in queue order, network order, and held then released at any point into either; closing from within the first delivery; and, for 2 fragments in 2 datagrams without loss, every 63-bit sequence base.',
          'as quick with 5 datagrams, sequence numbers also from 2^63-1, and every sequence base for 3 fragments.'],
  outside='more fragments; a sender that contradicts itself (C21).',
  runs=[dict(name='orders', thorough_params=['events=5', 'offsets=1']), dict(name='anyseq', params=['anyseq=1', 'abandons=0', 'dups=0', 'modes=2'], quick_params=['events=2', 'fragments=2'], thorough_params=['events=3', 'fragments=3'], choice='solver')],
  reach=['message', 'second message', 'fragments', 'release', 'closed', 'finished'])
P('C21', srcs=PROTO, choice='range', addresses='fork',
  bounds=['one packet in a session that has a half-received message and unacknowledged data: every cleartext of 0..8 bytes; every flags byte with five values each of timestamp and echo and every truncation; one chunk of each of the twelve session chunk types and an unknown one with every body of 0..6 bytes; nine valid beginnings (data with options, a return flow, acknowledgement, exception, mobility reply, forwarded hello, ping of six sizes around the limit) followed by 0..6 arbitrary bytes, alone or after data with the last sequence number. Four data packets with every assignment of four consecutive sequence numbers and the four framings in every order, in queue and network order, with the hole before them filled or not.',
          'as quick with bodies of 0..8, cleartexts of 0..11 and tails of 0..8 bytes and five data packets.'],
  outside='longer arbitrary bodies; timestamps other than five values; several hostile packets other than data.', runs=[dict(name='all', quick_params=['body=6', 'packet=8', 'tail=6'], thorough_params=['body=8', 'packet=11', 'tail=8', 'frags=5', 'seqs=5'])],
  reach=['packet', 'header', 'chunk', 'template', 'alive', 'frags', 'closed'])
P('C22', srcs=PROTO, choice='range', addresses='fork',
  bounds=['one datagram at an instance with an open session, with or without a session being opened (hello sent, or keying sent): every byte string of 0..19 bytes from a stranger or the peer; a startup packet with one of nine chunk types, three beginnings (nothing, plausible, with the secret tag of our own hello) and every continuation of 0..5 bytes; a keying message with a cookie genuine, changed in any one byte, cut short anywhere or extended, from three addresses, at four ages, with good or bad signature; six messages with fields of 0..8000 equal arbitrary bytes.',
          'as quick with 0..21 raw bytes and continuations of 0..7 bytes.'],
  outside='a stranger sending in-session packets sealed with the session key (C21); hash collisions (a fixed toy hash stands for SHA-256 and is assumed unforgeable only for single changes).',
  runs=[dict(name='all', quick_params=['body=5'], thorough_params=['raw=21', 'body=7'])],
  reach=['recognised', 'unrecognised', 'chunk', 'keyed', 'refused', 'moved', 'long', 'opens'])
P('C24', srcs=PROTO, solver='bv', choice='range', addresses='fork',
  bounds=['2 arrivals with every sequence number and every forwarded number below 32 (one of them may instead be given-up data, a probe or data of another flow; the application may refuse the flow in between), every position probed in every acknowledgement sent; every history of 4 steps of data of three sizes, holding and releasing, four limits, three capacities and probes for the advertised room; 700 isolated arrivals, more than fit in a packet.', 'as quick with 3 arrivals and 5 steps.'],
  outside='sequence numbers above 63 for the exact acknowledgement (C02 covers the index set itself for all), longer histories.',
  runs=[dict(name='all', thorough_params=['events=3', 'steps=5'])], reach=['numbers', 'ranges', 'other', 'exception', 'room', 'many'])
P('C25', srcs=PROTO,
  bounds=['four whole messages in packets of their own or two sharing one, a two-fragment and a whole message, or two flows of two messages each; then every history of 2 of: an acknowledgement (every cumulative number below 128, up to 2 ranges of every hole and length below 128, complete or cut short, for either flow), a retransmission timeout, giving a message up, another message; then everything acknowledged.', '3 such events, with up to 1 range each.'],
  outside='numbers of 128 and more in acknowledgements, more outstanding fragments, loss by window limits (C28, C29).',
  runs=[dict(name='all', quick_params=['ranges=2'], thorough_params=['steps=3'])], reach=['again', 'acked', 'lost', 'ack', 'timeout', 'given up', 'end'])
P('C28', srcs=PROTO,
  bounds=['one flow or two with six messages of 300..1100 bytes, then every history of 3 of: an acknowledgement with every window of 0..127 blocks and every cumulative number below 16, a retransmission timeout, another message; a closed window probed 0, 1, 2 or 12 times before any window of 1..127 blocks opens it; a reader that holds or has no room for three waits of 0.3..70 seconds and then starts again while 0..3 of its packets are lost.', 'as quick with 4 events.'],
  outside='acknowledgements of gaps (C25), more flows, windows that are announced in the wrong order by a reordering network.',
  runs=[dict(name='all', thorough_params=['steps=4'])], reach=['sent', 'full', 'ack', 'probe', 'resumed', 'restart', 'lost', 'end'])
P('C29', srcs=PROTO,
  bounds=['a fresh session with six messages queued, with two, beside a time-critical flow, or after three rounds of growth; then every history of 2 of: an acknowledging packet (every cumulative number up to the last sent, with no, a short or a long further range, once or three times over, one packet possibly reporting a congestion mark or time-critical reception elsewhere), a retransmission timeout or idle period, more data, a wait.', 'as quick with 3 events.'],
  outside='windows above about 10 segments, the delay-based algorithm (off by default), measured round-trip times and the burst limiter.',
  runs=[dict(name='all', thorough_params=['steps=3'])], reach=['ack', 'loss', 'cut', 'growth', 'full', 'timeout', 'idle', 'tcr', 'recovery', 'end'])
P('C35', srcs=PROTO,
  bounds=['every history of 4 of: data short or long, an acknowledgement with or without a report, a timeout, setting every traffic class byte, receiving data and a ping (what is marked); 3 reports of every value each acknowledging nothing or two messages, after the window has grown (what is done about them); 3 packets with every TOS byte, with data, without, or not opening, after 0 or 254 earlier marks, acknowledged at once or late (what is reported).', 'as quick with 4 packets, 4 reports and 5 events.'],
  outside='reports in packets too full for them, more than one flow.',
  runs=[dict(name='all', thorough_params=['packets=4', 'reports=4', 'steps=5'])], reach=['marked', 'unmarked', 'again', 'cut', 'stale', 'report', 'end'])
P('C36', srcs=PROTO,
  bounds=['three flows, each of the lowest, routine or highest priority with 1 or 3 messages, on one session or the last on a second one; optionally one priority changed before sending begins and one message added to one flow after the first packets are out; acknowledged until all is sent.', 'as quick with all eight priorities.'],
  outside='more flows and sessions; flow windows that fill (C28).',
  runs=[dict(name='all', thorough_params=['all=1'])], reach=['two', 'change', 'critical', 'turn', 'lower waits', 'end'])
P('C26', srcs=PROTO,
  bounds=['four messages with arbitrary first and last bytes, all small or one of two fragments (in either of two places), written together or one by one, after a first message or together with the opening of the flow, the flow closed behind them or not, received in queue or network order; the first 5 packets after that each delivered, lost, delivered twice or held back past the next (acknowledgements delivered or lost), then a perfect network and as much time as needed.', 'as quick with the first 7 packets.'],
  outside='more messages, loss later on, longer delays, symbolic sizes.',
  runs=[dict(name='all', thorough_params=['fates=7'])], reach=['lost', 'twice', 'late', 'early', 'closed', 'end'])
P('C27', srcs=PROTO,
  bounds=['three messages as in C26 (all small, or one of two fragments); one given up at any point between packets, or one sent at most once, or one with a deadline of 0.1 or 4 seconds on which the next depends; the first 4 packets each delivered, lost or held back.', 'four messages, 6 packets, also repeated ones.'],
  outside='several messages given up at different times; more messages and packets.',
  runs=[dict(name='all', quick_params=['messages=3', 'shapes=2', 'fates=4', 'kinds=3'], thorough_params=['fates=5'])], reach=['lost', 'given up', 'skipped', 'given up but arrived', 'best effort', 'deadline', 'closed', 'end'])
P('C30', srcs=PROTO,
  bounds=['Answering end: a cookie asked for from either of two ports and used from either, 95 or 96.5 s later, with any one of its bytes replaced by any value, cut or extended; any session id (32 bits) and key part (2 bytes), signature with any 4 bytes at three places or cut; certificate refused, signature refused, no certificate; once or twice. Opening end: asked for under two names; answer with any one tag byte replaced, certificate of another or longer name, refused certificate; any cookie bytes, answered from two addresses; cookie change naming the old or any cookie; keying with any session id and key part, signature with any 4 bytes at three places, cut or empty, before and after the answer. Whole handshake with any one byte of any of its four packets replaced by any value. At the address of an open session (opened by either end, in use or not) another peer or the same one started afresh opens, 4 packets lost or not.', 'as quick with 7 losses, three addresses, five ages, and keying before the answer in every combination.'],
  outside='the cryptography itself (a certificate is a name, a signature a name and the signed bytes; C19, C20 cover the Flash profile); two altered packets; overlong names.', runs=[dict(name='answerer', params=['what=0'], thorough_params=['what=0', 'addrs=3', 'waits=5']), dict(name='opener', params=['what=1'], thorough_params=['what=1', 'full=1']), dict(name='altered', params=['what=2'], addresses='fork', choice='range'), dict(name='replaced', params=['what=3'], thorough_params=['what=3', 'fates=7'])],
  reach=['afresh', 'impostor', 'opens', 'cookie change', 'bad signature', 'stale cookie', 'wrong cookie', 'refused', 'ignored', 'changed', 'unverified', 'opened', 'agree', 'prevented', 'healed', 'end'])
P('C31', srcs=PROTO,
  bounds=['Two ends opening to each other: either first, the other after 0..6 delivered packets; the first 3 packets in flight each delivered, lost, repeated or held back past the next, the first 3 choices of which end\'s packet goes next, then a faultless network; afterwards every first or last keying message of either end again. One end asking for the same peer under two names and for a second peer, in any order, 0..3 packets apart, the first 3 packets with any fate.', 'as quick with 4 fates and 4 orderings.'],
  outside='more disturbed packets; peers that share an address; checked per path with one message per flow and round.', runs=[dict(name='all', thorough_params=['fates=4', 'orders=4']), dict(name='alias', params=['alias=1'], thorough_params=['alias=1', 'fates=4'])], reach=['aliases', 'lost', 'twice', 'late', 'first won', 'second won', 'answered again', 'repeated later', 'end'])
P('C32', srcs=PROTO,
  bounds=['Either role as the observer, one flow each way. Every history of 4 steps: an authentic packet from any of 3 addresses, a reply with any token issued so far from any of them, or 1, 120 or 122 s; with 3 steps also one token with any value of its marking, time, first, or last byte, cut or extended. A peer roaming twice among 3 addresses (its former address dead) with the first 5 packets lost or not, data written by either or both; then somebody else opening from a former or the current address.', 'as quick with 5 steps, 3 with two altered tokens, 3 moves.'],
  outside='other times; several interfaces; collisions of the hash (modelled as a linear one that separates the inputs compared).', runs=[dict(name='history', thorough_params=['steps=5']), dict(name='tokens', params=['steps=3', 'symbytes=1'], thorough_params=['steps=3', 'symbytes=2']), dict(name='roam', params=['roam=1'], thorough_params=['roam=1', 'moves=3'])],
  reach=['freed', 'taken', 'check', 'moved', 'altered', 'elsewhere', 'old', 'expired', 'lost', 'roamed', 'home', 'end'])
P('C33', srcs=PROTO,
  bounds=['a session with flows both ways in one of four forms (a long message unsent, a second flow, deadlines passing while the network is stalled, established and used); one of closing a sending flow, a receiving flow, the session, or either instance at once or in order, at either end at any of the first 3 moments between packets, or from within the first message, delivered receipt, expired receipt, exception, completion, new flow or writable callback followed by one more such operation; the first 3 packets after that each delivered or lost; references to flows kept or dropped; then 300 seconds.', 'as quick with 2 operations, 5 moments and 4 packets.'],
  outside='more operations, more flows, later losses, closing while the session is still opening.',
  runs=[dict(name='all', thorough_params=['ops=2', 'chances=5', 'fates=4'])], reach=['within', 'stalled', 'send closed', 'receive closed', 'session closed', 'lost', 'over', 'orderly', 'shutdown', 'end'])
P('C34', srcs=PROTO,
  bounds=['either end watched (the opener or the answerer), retransmission limits of 1, 8 and 60 s, keepalive checks after 10 s or an hour, with or without a flow of the other end, limits set before or after opening; every history of 2 periods (data written or not; network whole, or silent one way or both ways; 0.5, 12 or 130 seconds), then silent for good or whole again for 400 s. Idle limits of 1, 30 and 300 s: flow never used or used, open 3 or 500 s, closed, perhaps reopened, with or without a flow of the peer.', 'as quick with 3 periods.'],
  outside='other limits and waits (times are concrete), more flows; being noticed is allowed 25 s beyond the limit (timeouts are at most 10 s apart).', runs=[dict(name='all', thorough_params=['steps=3'])], reach=['lost', 'kept', 'idle', 'given up', 'terminated', 'alive', 'end'])
P('C38', srcs=['TCConnection.cpp', 'TCMessage.cpp', 'AMF.cpp', 'Hex.cpp', 'FlowSyncManager.cpp', 'ReorderBuffer.cpp', 'URIParse.cpp'] + PROTO,
  bounds=['A client and a server made by hand over two real protocol ends. Histories: from five beginnings (transport opening, open, connected, with an open stream, with a pending transaction and stream besides), every 2 of: a transaction, a stream created, deleted, closing, a response (to any asked or unasked transaction number, NaN and others; result or error; seven kinds of stream number; with or without an argument), a stream message (audio, video, data, command; any timestamp and payload byte; for any stream or an unknown one), the server ending either side of the control flow, a status or command. Within each of ten callbacks one of closing, closing and dropping every reference, deleting the stream, deleting and dropping, dropping, a transaction, a new stream; audio and data in sequence, or in network order with a hole that is filled, given up or timed out; connect refused or not. Bytes: on the control flow and on a stream\'s: every message of 0..6 bytes, eight types with every timestamp and payload of 0..3 bytes, command and data messages in both forms with every tail of 0..3 bytes; 49 keepalive settings of three lengths. Sending: every 2 of eleven operations (one before the stream opens) with every timestamp and payloads of 0..2 bytes.', 'as quick with histories of 3 from the first three beginnings, messages of 0..7, payloads and tails of 0..4 bytes, 3 sending operations.'],
  outside='longer histories; several things done within callbacks; sharing a session with other connections.',
  assumptions=['std::regex is replaced by a backtracking model (as in C07) for the connect address'],
  runs=[dict(name='history', params=['what=0'], thorough_params=['what=0', 'steps=3', 'bases=3']), dict(name='within', params=['what=1']), dict(name='bytes', params=['what=2'], thorough_params=['what=2', 'length=4'], choice='range'), dict(name='sending', params=['what=3'], thorough_params=['what=3', 'sends=2'])],
  reach=['answered', 'close', 'command', 'deleted', 'end', 'exact', 'given back', 'held', 'keepalive', 'malformed', 'opened', 'refused', 'sent', 'server closed', 'stream message', 'sync', 'timed out', 'transact', 'within'])
P('C37', srcs=['RedirectorClient.cpp'] + PROTO,
  bounds=['A client (load update interval 0 s and reconnecting after 30 s, or 3 s and 1 s; four configurations set before connecting) and a redirector made by hand over two real protocol ends. Every 2, while connected or still connecting, of: active or not, paused or not, another load factor, an address added, removed or all, reflexive address or not, user data (any bytes), a report (any address bytes, four lengths), a message of 0..3 arbitrary bytes, refused with one of two reasons, the redirector restarted, 40 s of silence, 2 s, another interval, closing; then 125 s or not, closed, 100 s. Within each of five callbacks one of closing, closing and dropping, dropping, becoming inactive, another load, user data. Pacing: four settings of the load after 0, 1, 2 or 4 s each.', 'as quick with 3 operations and 5 settings.'],
  outside='the digest itself (C19, C20 name the Flash profile; here it is a stand-in that keeps key and nonce apart), authentication keys added while connected, longer histories.',
  runs=[dict(name='history', params=['what=0'], thorough_params=['what=0', 'steps=3']), dict(name='within', params=['what=1']), dict(name='pacing', params=['what=2'], thorough_params=['what=2', 'sets=5'])],
  reach=['within', 'again', 'disconnected', 'bad auth', 'connected', 'registered', 'inactive', 'paused', 'reflexive', 'malformed', 'user data', 'restarted', 'silent', 'closed', 'held back', 'end'])
P('C18', srcs=['Object.cpp', 'Timer.cpp', 'WriteReceipt.cpp'],
  bounds=['three objects (one of a derived type) that may also hold each other; three Retainers, one of the derived type, two shared_ptr made by share_ref, two bare retains, a task, a timer\'s action, a list of up to three; from three beginnings every 2 operations of twenty (with every choice of operands): copying, moving, swapping, clearing and converting holders, claiming and giving up bare retains, linking objects and following links, setting and clearing the task, scheduling, cancelling, firing and clearing timers, adding to, removing from and clearing the list; then everything is let go one by one.', 'as quick, and every 3 operations with two of the Retainers.'],
  outside='holds taken from several threads; rings of objects are undone by hand, as counting demands.',
  runs=[dict(name='all'), dict(name='three', params=['steps=1', 'operands=2'], thorough_params=['steps=3', 'operands=2'])], reach=['claimed', 'link', 'walk', 'cancelled', 'fired', 'removed', 'end'])
FLASH = ['FlashCryptoAdapter.cpp', 'Checksums.cpp', 'Hex.cpp', 'IndexSet.cpp', 'VLU.cpp', 'Address.cpp', 'Object.cpp', 'Timer.cpp']
P('C19', srcs=FLASH,
  bounds=['Flash profile, all 256 protection settings of two ends with three pairs of HMAC lengths and static or ephemeral keys: any payload of seven lengths from 1 to 30 sealed by either end and opened by the other, again, and with too little room; the same before keys exist. Whatever arrives: with and without HMAC (4, 10, 32 bytes) and sequence numbers, every packet of 0..36 bytes and every packet of one or two blocks and authenticator, with any or the right authenticator. Every order of 3 packets with any numbers of 81 above 0, near 2^63 and up to 2^64, with HMAC or checksum, an altered copy arriving before or not.', 'as quick with 4 packets, a second packet sealed, and arbitrary packets to 52 bytes.'],
  outside='the primitives themselves (AES, SHA-256, Diffie-Hellman are stand-ins: a chained exclusive-or, a linear hash, a commutative exchange); the plain profile; longer packets.',
  assumptions=['the keys are derived as RFC 7425 says, from the stand-in secret, by a second implementation in the harness'],
  runs=[dict(name='around', params=['what=0'], thorough_params=['what=0', 'twice=1']), dict(name='early', params=['what=1']), dict(name='arbitrary', params=['what=2'], thorough_params=['what=2', 'max=52']), dict(name='window', params=['what=3'], thorough_params=['what=3', 'packets=4'])],
  reach=['repeat refused', 'numbers', 'hmac', 'good tag', 'opened', 'refused', 'too old', 'came before', 'spoiled', 'end'])
P('C20', srcs=FLASH,
  bounds=['All 256 protection settings of two ends, static and ephemeral keys at each, ten pairs of group lists (of up to three groups): agreement, packets both ways, the answer taken again as it was or altered. One end\'s protection announcements altered: the flags or the HMAC length any byte, or the announcement gone, for all settings, to the initiator or the responder; then, if refused, the right answer. Every endpoint name of 0..5 bytes, every one-byte change of the fingerprint, hostnames and ancillary data, against servers and clients with and without a hostname. Every certificate of 0..5 bytes; every component of 0..5 bytes, alone, before or after a key.', 'as quick with all 25 pairs of lists, 0..7 bytes.'],
  outside='the primitives themselves (stand-ins as in C19); longer strings of unknown bytes; several threads negotiating one key.',
  assumptions=['the keys are derived as RFC 7425 says, from the stand-in secret, by a second implementation in the harness'],
  runs=[dict(name='agree', params=['what=0'], thorough_params=['what=0', 'lists=5']), dict(name='altered', params=['what=1']), dict(name='names', params=['what=2'], thorough_params=['what=2', 'length=8']), dict(name='bytes', params=['what=3'], thorough_params=['what=3', 'length=8'], choice='range')],
  reach=['hmac', 'numbers', 'no group', 'again', 'again other', 'cannot be met', 'still taken', 'altered', 'selected', 'not selected', 'certificate', 'taken', 'refused', 'end'])
