#!/usr/bin/env python3
# Assembles DESIGN.md from design_head.md, the per-property notes below, props.py and design_tail.md.
import json, os, sys, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from props import PROPS
from na import NA
HOW = {
 'C01': 'Oracle: base-128 arithmetic written independently in the harness; buffers are exactly sized so that any read past the end is a violation.',
 'C02': 'Oracle: membership of one arbitrary probe point computed from the history itself (last operation that touches it), plus structural assertions (disjoint, ascending, non-adjacent); overlap/adjacency/overflow all become solver cases.',
 'C03': 'Oracle: a plain array of (handle, value); after each operation both traversals, handles and sum are compared.',
 'C04': 'Oracle: byte-level encoding rules; order axioms asserted over arbitrary pairs/triples.',
 'C05': 'Oracle: bit-by-bit CRC and ones-complement sum; the solver proves equality for all messages of each length.',
 'C06': 'Oracle: digit table in the harness.',
 'C07': 'Oracle: concatenation and delimiter rules; RFC 3986 5.2.4 written from the RFC; percent decoding by definition.',
 'C08': 'Oracle: an independent AMF0 reader (`amfref.h`); exactly sized buffers; depth limit by construction of nested containers.',
 'C09': 'Oracle: structural equality of values through public accessors, byte equality of re-encoding.',
 'C10': 'Oracle: field-by-field layout; circular order by subtraction.',
 'C11': 'Oracle: FLV/E-RTMP bit layout on the first five bytes with each payload in a buffer of exactly its size.',
 'C12': 'Oracle: field equality, byte equality of re-encoding, order axioms.',
 'C13': 'Real receiving flows of one session between two real RTMFP ends; oracle: the set of waiting flows per barrier id. The marker codec is decided for every 32-bit id and count and for every message of up to 17 symbolic bytes.',
 'C14': 'Oracle: a reference byte vector built only from items that fit; guard bytes around the buffer.',
 'C15': 'Oracle: a reference schedule (due time, insertion order).',
 'C16': 'Oracle: the fate computed from the history (deadlines, parents, disposals).',
 'C17': 'Oracle: sets of inserted, delivered, held messages; hold justified only by a gap within the window.',
 'C21': 'One (or several) hostile sealed packets with arbitrary bodies into a busy session; afterwards ordinary traffic must still be delivered.',
 'C22': 'Arbitrary datagrams at an idle/opening instance; session creation observed by key requests and keying replies.',
 'C23': 'Packets made by hand in every order; oracle: the messages of the division, delivered at most once, intact, ordered by mode.',
 'C24': 'Acknowledgements parsed off the wire; oracle: the set of numbers sent or skipped, and the room computed from what the application holds.',
 'C25': 'Acknowledgements made by hand with symbolic numbers; oracle `sendref.h`: the sender\'s books kept from the wire (what was sent, acknowledged, lost after three reports or a timeout) against getOutstandingBytes and every retransmission.',
 'C26': 'Two real ends, every fate of the first packets, then a perfect network; oracle: exactly the messages, in order, receipts delivered, nothing outstanding.',
 'C27': 'As C26 with messages given up by call, by deadline or by best effort.',
 'C28': 'Windows announced by symbolic acknowledgements; oracle: at each transmission the room left by `sendref.h`.',
 'C29': 'Histories of acknowledgement, loss, timeout; oracle: floor, send gate, growth and reduction rules of RFC 7016/parameters.',
 'C30': 'Every byte of every handshake message altered by the solver, certificates and signatures refused, packets lost and repeated; oracle: both ends\' ids and nonces agree and only the intended, authenticated peer is opened.',
 'C31': 'Both ends open at once (or one end opens one peer under two names while opening another); the solver orders, loses, delays and repeats handshake packets and replays keying messages later; oracle: one session per pair of peers with agreeing nonces, every flow works and reaches the peer it named, a repeated keying message gets the identical answer and no new key.',
 'C32': 'Histories of packets, mobility replies (every token issued, from every address, one byte symbolic) and waits against a token model; a roaming peer with losses; oracle: the address changes exactly with the right token from its own address in time, flows are told then, everything else goes to the proven address, and other peers may use freed addresses.',
 'C33': 'Every closing operation at every moment and from within every callback; oracle: counters of final notifications, receipts and shutdown completions, memory safety.',
 'C34': 'Silence beginning at symbolic points under several limits; oracle: end not later than the limit (plus granularity), never while answered.',
 'C35': 'TOS on the wire and reports made by hand.',
 'C36': 'Order of user data on the wire for every assignment of priorities.',
 'C18': 'Oracle: a reference count of holds per object kept by the harness; destructor counted.',
 'C19': 'Real key classes with stand-ins for AES, SHA-256 and Diffie-Hellman (flash.h). Oracle: keys, authenticator, checksum and numbering derived by a second implementation of RFC 7425; a set of numbers accepted.',
 'C20': 'Real negotiation, certificate and endpoint name code with the same stand-ins. Oracle: the RFC 7425 derivation and a reference parser of options in the harness.',
 'C37': 'The real client over two real protocol ends, the redirector made by hand; every order of changes, refusals, restarts, silence and closing; oracle: the redirector\'s view folded from what it is told equals the client\'s configuration, attempts paced, silence after closing.',
 'C38': 'The real connection class; the server\'s side is made by hand over net.h.',
}
out = open(H + '/tools/design_head.md').read() + '\n## Properties\n\n'
for l in open(H + '/properties.jsonl'):
    p = json.loads(l); i = p['id']; out += '### %s %s\n\n' % (i, p['title'])
    if i in PROPS:
        c = PROPS[i]; out += '%s\n\n- Real code: %s\n- Quick: %s\n- Thorough: %s\n- Outside: %s\n- Why tests cannot: %s.\n' % (HOW.get(i, ''), ', '.join(c['srcs']), c['bounds'][0], c['bounds'][-1] if len(c['bounds']) > 1 else 'the same.', c.get('outside', '') or 'nothing further.', p['why_tests_cant'])
        for a in c.get('assumptions', []): out += '- Assumption: %s\n' % a
    else: out += 'Not applicable: %s\n' % NA.get(i, 'no check built yet.')
    out += '\n'
out += open(H + '/tools/design_tail.md').read().replace('@FIXES@\n', '')
out += '\n| Planted bug | Property | Needs | Breaks |\n|---|---|---|---|\n'
for m in sorted(glob.glob(H + '/seeded/*/meta.json')):
    d = json.load(open(m)); out += '| %s | %s | %s | %s |\n' % (os.path.basename(os.path.dirname(m)), d['property'], d['needs'], d['what_it_breaks'])
out += '\nAll of them are caught by the quick tier of their property\'s check%s.\n' % ''
open(H + '/DESIGN.md', 'w').write(out)
