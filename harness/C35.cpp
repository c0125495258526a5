// C35: congestion marks: sent on user data only, counted and reported faithfully, acted upon once per round trip
#include "sendref.h"
static SendRef s;
static void look(End &a, int tos, bool ect) // what was sent carries the right mark
{
	for(auto &w : a.out) ASSERT((w.tos & ~3) == tos, "the traffic class asked for");
	s.look(a); for(int t : s.otherTos) ASSERT((t & 3) == 0, "nothing but user data is marked"); for(auto &x : s.sent) { ASSERT((x.tos & 3) == (ect ? 2 : 0), "user data is marked while the peer reports marks"); sym_reach(ect ? "marked" : "unmarked"); }
}
extern "C" void sym_main()
{
	s = SendRef(); unsigned part = sym_part(3); End a("A", 1), b("B", 2); 
	if(part == 0) // what is marked
	{
		auto f = net_open(a, b); a.out.clear(); b.out.clear(); s.add(f); f->setBufferCapacity(1 << 20); bool seen = false, ect = true; int tos = 0;
		for(int k = 0; k < int(sym_param("steps", 4)); k++)
		{
			switch(sym_choice("event", 5))
			{
			case 0: s.write(0, Bytes(sym_bool("long") ? 1000 : 10, 'x')); a.run(); break;
			case 1: { bool rep = sym_bool("report"); Bytes c = s.flows[0].id ? s.chunk(0, 100, sym_choice("cum", 3)) : Bytes(); if(!s.flows[0].id) break; if(rep) { Bytes r; r.push_back(0); Bytes e; chunk_add(e, CHUNK_ECN_REPORT, r); c = e + c; seen = true; } { const uint8_t *q = c.data() + (rep ? 7 : 3), *e = c.data() + c.size(); take(q, e); take(q, e); s.begin(); s.ack(0, 0, take(q, e)); } a.put(wire_make(a.sid, HEADER_MODE_RESPONDER, c), b.addr); s.after(); if(!seen) ect = false; a.run(); break; }
			case 2: net_now += f->getERTO() + 0.001L; s.timeout(); a.run(); break;
			case 3: { uint8_t t = sym_u8("class"); f->setSessionTrafficClass(t); tos = t & ~3; ASSERT(f->getSessionTrafficClass() == tos, "no mark in the traffic class"); for(auto &w : a.out) (void)w; break; }
			case 4: { Bytes p, d; chunk_add(p, CHUNK_PING, B("hi")); Bytes u; u.push_back(USERDATA_FLAG_OPT); vlu(u, 5); vlu(u, 1); vlu(u, 1); Option::append(USERDATA_OPTION_METADATA, nullptr, 0, u); Option::append(u); chunk_add(d, CHUNK_USERDATA, u); a.put(wire_make(a.sid, HEADER_MODE_RESPONDER, p + d), b.addr); a.run(); net_now += 0.25L; if(s.total()) { } a.run(); break; }
			}
			look(a, tos, ect);
		}
	}
	else if(part == 1) // reports acted upon
	{
		auto f = net_open(a, b); a.out.clear(); b.out.clear(); s.add(f); f->setBufferCapacity(1 << 20); uint8_t last = 0; size_t recovery = 0;
		for(int i = 0; i < 4; i++) { for(int k = 0; k < 5; k++) s.write(0, Bytes(1000, 'w')); a.run(); look(a, 0, true); uintmax_t top = 0; for(auto &x : s.flows[0].frags) if(x.flying) top = x.seq; if(i == 3) break; Bytes r; r.push_back(0); Bytes e; chunk_add(e, CHUNK_ECN_REPORT, r); a.put(wire_make(a.sid, HEADER_MODE_RESPONDER, e + s.chunk(0, 100, top)), b.addr); s.begin(); s.ack(0, 0, top); s.after(); a.run(); look(a, 0, true); }
		ASSERT(f->getCongestionWindow() > CWND_INIT + 2 * SENDER_MSS, "warmed up"); 
		for(int k = 0; k < int(sym_param("reports", 3)); k++)
		{
			uint8_t v = sym_u8("report"); uintmax_t low = 0, n = sym_choice("acked", 2); for(auto &x : s.flows[0].frags) if(x.acked) low = x.seq; uintmax_t cum = low + n * 2; size_t cw0 = f->getCongestionWindow(), pre = s.total();
			Bytes r; r.push_back(v); Bytes e; chunk_add(e, CHUNK_ECN_REPORT, r); a.put(wire_make(a.sid, HEADER_MODE_RESPONDER, e + s.chunk(0, 100, cum)), b.addr); s.begin(); s.ack(0, 0, cum); s.after();
			uint8_t d = v - last; bool fresh = d != 0 && d < ECN_CE_DELTA_REORDER; if(fresh) last = v; size_t cw1 = f->getCongestionWindow(), drained = s.ackedBytes + s.lostBytes;
			if(recovery > drained) { recovery -= drained; ASSERT(cw1 == cw0, "at most once per round trip"); if(fresh) sym_reach("again"); }
			else { recovery = 0; if(fresh) { size_t cut = std::min(cw0, pre); ASSERT(cw1 <= std::max(CWND_INIT, cut - cut / 2), "new marks cut the window"); sym_reach("cut"); recovery = s.total(); } else { ASSERT(cw1 >= cw0, "old or reordered reports change nothing"); sym_reach("stale"); } }
			a.run(); look(a, 0, true);
		}
	}
	else // marks counted and reported
	{
		b.r->onRecvFlow = [&](std::shared_ptr<RecvFlow> r) { r->accept(); }; auto f = net_open(a, b); uint8_t ce = 0; bool fresh = false, any = false; unsigned seq = 0; Bytes ping; chunk_add(ping, CHUNK_PING, Bytes());
		if(sym_bool("many")) { for(int i = 0; i < 254; i++) b.put(wire_make(b.sid, HEADER_MODE_INITIATOR, ping), a.addr, 3); ce = 254; any = fresh = true; b.run(); b.out.clear(); }
		for(int k = 0; k < int(sym_param("packets", 3)); k++)
		{
			uint8_t t = sym_u8("tos"); bool data = sym_bool("data"), valid = data || sym_bool("valid"); Bytes c = ping; if(data) { Bytes u; u.push_back(USERDATA_FLAG_OPT); vlu(u, 5); ++seq; vlu(u, seq); vlu(u, seq); Option::append(USERDATA_OPTION_METADATA, nullptr, 0, u); Option::append(u); chunk_add(c, CHUNK_USERDATA, u + B("x")); }
			Bytes p = wire_make(b.sid, HEADER_MODE_INITIATOR, c); if(!valid) p[5] ^= 0x80; b.put(p, a.addr, t); if(valid) { if((t & 3) == 3) ce++; if(t & 3) fresh = any = true; }
			b.run(); if(sym_bool("wait")) { net_now += DELACK_ALARM_PERIOD + 0.001L; b.run(); }
			while(b.out.size()) { Parsed q = wire_parse(b.out.front().bytes); b.out.pop_front(); bool acks = false, rep = false; for(auto &x : q.chunks) { if(x.type == CHUNK_ECN_REPORT) { rep = true; ASSERT(any, "no report without marks"); ASSERT(x.body.size() == 1 && x.body[0] == ce, "the report is the count of congestion marks"); sym_reach("report"); } if(x.type == CHUNK_ACK_RANGES) acks = true; } if(acks) { ASSERT(rep || !fresh, "a new mark is reported with the next acknowledgement"); fresh = false; } }
		}
		b.r->onRecvFlow = nullptr;
	}
	sym_reach("end");
}
