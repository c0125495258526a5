// C24: acknowledgements say what was received, and how much room is left
#include "net.h"
struct Ev { uint8_t seq, fsn; }; static Ev ev[8]; static int nev;
static std::shared_ptr<RecvFlow> flow, other; static size_t buffered; static bool rejected;
static Bytes userdata(uint64_t id, uint8_t seq, uint8_t off, uint8_t flags, const Bytes &data, bool opts) { Bytes u; u.push_back(flags | (opts ? USERDATA_FLAG_OPT : 0)); vlu(u, id); u.push_back(seq); u.push_back(off); if(opts) { Option::append(USERDATA_OPTION_METADATA, nullptr, 0, u); Option::append(u); } return u + data; }
static const uint8_t *num(const uint8_t *p, const uint8_t *e, uintmax_t *v) { size_t n = VLU::parse(p, e, v); ASSERT(n, "a well-formed acknowledgement"); return p + n; }
static int acks(End &b, int expectOther) // look at everything b sent
{
	int n = 0; uint8_t q = sym_u8("probe");
	for(auto &w : b.out) for(auto &c : wire_parse(w.bytes).chunks)
	{
		const uint8_t *p = c.body.data(), *e = p + c.body.size(); uintmax_t id;
		if(c.type == CHUNK_EXCEPTION) { p = num(p, e, &id); uintmax_t code; p = num(p, e, &code); ASSERT(rejected && id == 9 && code == 77, "an exception only for the closed flow"); sym_reach("exception"); continue; }
		if(c.type != CHUNK_ACK_RANGES) { ASSERT(c.type == CHUNK_ECN_REPORT || c.type == CHUNK_PING || c.type == CHUNK_PING_REPLY, "only acknowledgements are sent"); continue; }
		uintmax_t blocks, cum; p = num(p, e, &id); p = num(p, e, &blocks); p = num(p, e, &cum);
		if(id == 11) { ASSERT(expectOther && cum == 1 && p == e, "the other flow's acknowledgement"); sym_reach("other"); continue; }
		ASSERT(id == 9, "a known flow"); n++;
		size_t cap = flow->getBufferCapacity(), used = flow->getBufferedSize(), room = used >= cap ? 0 : std::min(cap - used, flow->getWindowLimit());
		ASSERT(blocks * 1024 < room + 1024 || (room == 0 && blocks <= 1), "the window is no larger than the free buffer"); if(flow->getReceiveOrder() == RO_HOLD || cap == 0 || flow->getWindowLimit() == 0) ASSERT(blocks * 1024 < room + 1024, "no window when there is none"); else ASSERT(blocks >= 1, "a window while data can be taken"); ASSERT(blocks * 1024 >= room, "no smaller than the free buffer");
		bool said = q <= cum; uintmax_t cur = cum; bool hole = false;
		while(p < e) { uintmax_t h, r; p = num(p, e, &h); p = num(p, e, &r); uintmax_t from = cur + h + 2, to = from + r; ASSERT(from > cur + 1 && to >= from && to < 128, "sensible ranges"); said = said | (q >= from && q <= to); cur = to; sym_reach("ranges"); }
		bool have = q == 0; for(int i = 0; i < nev; i++) have = have | (q == ev[i].seq) | (q <= ev[i].fsn);
		ASSERT(said == have, "exactly what was received or skipped is acknowledged");
	}
	b.out.clear(); return n;
}
extern "C" void sym_main()
{
	nev = 0; flow.reset(); other.reset(); rejected = false; unsigned part = sym_part(3); End a("A", 1), b("B", 2); static const ReceiveOrder orders[] = { RO_SEQUENCE, RO_NETWORK, RO_HOLD };
	auto f = net_open(a, b); bool hold = part == 1; unsigned messages = 0;
	b.r->onRecvFlow = [&](std::shared_ptr<RecvFlow> r) { r->accept(); if(!flow) { flow = r; if(hold) { r->setReceiveOrder(RO_HOLD); r->setBufferCapacity(5000); } r->onMessage = [&](const uint8_t *, size_t, uintmax_t, size_t) { messages++; }; } else other = r; };
	if(part == 0) // what is acknowledged
	{
		int n = sym_param("events", 2); unsigned extra = sym_param("extra", 1); bool rejecting = sym_bool("reject");
		for(int k = 0; k < n; k++)
		{
			int kind = k && extra ? sym_choice("kind", 4) : 0; if(kind) extra--; Bytes c; int x = 0; // data, skipped data, a probe, data of another flow
			if(kind < 2) { uint8_t s = sym_u8("seq"), o = sym_u8("offset"); ASSUME(s >= 1 && s < sym_param("span", 32) && o <= s); ev[nev++] = Ev{ s, uint8_t(s - o) }; chunk_add(c, CHUNK_USERDATA, userdata(9, s, o, kind ? USERDATA_FLAG_ABN : 0, kind ? Bytes() : B("x"), true)); }
			else if(kind == 2) { Bytes p; vlu(p, 9); chunk_add(c, CHUNK_BUFFERPROBE, p); } else { chunk_add(c, CHUNK_USERDATA, userdata(11, 1, 1, 0, B("o"), true)); x = 1; }
			ASSERT(b.put(wire_make(b.sid, HEADER_MODE_INITIATOR, c), a.addr), "accepted"); b.run(); if(kind == 2) { ASSERT(acks(b, 0) == 1, "a probe is answered at once"); continue; }
			net_now += DELACK_ALARM_PERIOD + 0.001L; b.run(); int got = acks(b, x); if(kind < 2) ASSERT(got == 1, "data is acknowledged in time"); 
			if(rejecting && k == 0) { rejected = true; flow->close(77); b.run(); ASSERT(acks(b, 0) == 1, "closing is reported"); }
		}
		sym_reach("numbers");
	}
	else if(part == 1) // how much room is left
	{
		int seq = 1; static const unsigned sizes[] = { 0, 1000, 1100 };
		for(int k = 0; k < int(sym_param("steps", 4)); k++)
		{
			switch(k ? sym_choice("room", 6) : 0)
			{
			case 0: { size_t before = flow ? flow->getBufferedSize() : 0; ev[nev++] = Ev{ uint8_t(seq), 0 }; unsigned n = sizes[sym_choice("size", 3)]; Bytes c; chunk_add(c, CHUNK_USERDATA, userdata(9, seq, seq, 0, Bytes(n, 'x'), true)); b.put(wire_make(b.sid, HEADER_MODE_INITIATOR, c), a.addr); if(flow->getReceiveOrder() == RO_HOLD) ASSERT(flow->getBufferedSize() >= before + n, "held data counts"); else ASSERT(flow->getBufferedSize() == 0, "delivered data does not"); seq++; break; }
			case 1: flow->setReceiveOrder(sym_bool("network") ? RO_NETWORK : RO_SEQUENCE); b.run(); ASSERT(flow->getBufferedSize() == 0 && messages == unsigned(seq - 1), "everything is delivered on release"); break;
			case 2: flow->setReceiveOrder(RO_HOLD); break;
			case 3: { static const size_t caps[] = { 0, 2000, 65536 }; flow->setBufferCapacity(caps[sym_choice("capacity", 3)]); break; }
			case 4: { static const size_t lims[] = { 0, 700, 3000, SIZE_MAX }; flow->setWindowLimit(lims[sym_choice("limit", 4)]); break; }
			case 5: { Bytes p, c; vlu(p, 9); chunk_add(c, CHUNK_BUFFERPROBE, p); b.put(wire_make(b.sid, HEADER_MODE_INITIATOR, c), a.addr); break; }
			}
			b.run(); net_now += DELACK_ALARM_PERIOD + 0.001L; b.run(); acks(b, 0);
		}
		sym_reach("room");
	}
	else // more ranges than fit in a packet: a cut-short list is still true
	{
		int n = sym_param("many", 700); End *e = &b; unsigned step = 2 + sym_choice("step", 2); Bytes big; 
		for(int i = 1; i <= n; i++) { Bytes u; u.push_back(USERDATA_FLAG_OPT); vlu(u, 9); vlu(u, i * step); vlu(u, i * step); Option::append(USERDATA_OPTION_METADATA, nullptr, 0, u); Option::append(u); Bytes c; chunk_add(c, CHUNK_USERDATA, u); e->put(wire_make(b.sid, HEADER_MODE_INITIATOR, c), a.addr); if(i == n - 1) { b.run(); b.out.clear(); } }
		b.run(); net_now += 1; b.run(); int got = 0;
		for(auto &w : b.out) { ASSERT(w.bytes.size() < 1500, "packets fit"); for(auto &c : wire_parse(w.bytes).chunks) if(c.type == CHUNK_ACK_RANGES) { const uint8_t *p = c.body.data(), *q = p + c.body.size(); uintmax_t id, blocks, cum; p = num(p, q, &id); p = num(p, q, &blocks); p = num(p, q, &cum); ASSERT(cum == 0, "nothing in a row"); uintmax_t cur = cum; while(p < q) { uintmax_t h, r; p = num(p, q, &h); size_t m = VLU::parse(p, q, &r); if(!m) break; p += m; ASSERT(cur + h + 2 == (got + 1) * step && r == 0, "only what was received"); cur = cur + h + 2; got++; } } }
		ASSERT(got > 100 && got <= n, "as many ranges as fit"); sym_reach("many");
	}
	b.r->onRecvFlow = nullptr;
}
