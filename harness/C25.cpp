// C25: the sender's account of what is in flight, delivered and still owed follows the acknowledgements
#include "net.h"
struct Frag { unsigned flow, msg; uintmax_t seq; uint8_t fra; Bytes data; bool ever, flying, acked, skipped; size_t size; unsigned tsn, naks; };
struct Msg { std::shared_ptr<WriteReceipt> r; int finished, abandoned; bool given; };
static std::vector<Frag> frags; static std::deque<Msg> msgs; static unsigned tsn, maxAcked; static uintmax_t ids[2], nextSeq[2]; static std::shared_ptr<SendFlow> flows[2];
static void send(unsigned fl, const Bytes &m, unsigned pieces, size_t piece)
{
	msgs.push_back(Msg{ nullptr, 0, 0, false }); Msg &x = msgs.back(); unsigned id = msgs.size() - 1; x.r = flows[fl]->write(m); ASSERT(x.r, "an open flow takes messages");
	Msg *px = &x; x.r->onFinished = [px](bool ab) { px->finished++; px->abandoned += ab; };
	for(unsigned i = 0; i < pieces; i++) { Frag f{}; f.flow = fl; f.msg = id; f.seq = nextSeq[fl]++; f.fra = pieces == 1 ? USERDATA_FRA_WHOLE : i == 0 ? USERDATA_FRA_BEGIN : i + 1 == pieces ? USERDATA_FRA_END : USERDATA_FRA_MIDDLE; size_t from = i * piece, n = std::min(piece, m.size() - from); if(pieces == 1) n = m.size(); f.data = Bytes(m.begin() + from, m.begin() + from + n); frags.push_back(f); }
}
static void look(End &a, bool settled) // at what was sent, then at the books
{
	while(a.out.size())
	{
		Wire w = a.out.front(); a.out.pop_front(); Parsed p = wire_parse(w.bytes); auto us = wire_user(p); if(us.size()) tsn++;
		for(auto &u : us)
		{
			if(!ids[0]) ids[0] = u.id; unsigned fl = u.id == ids[0] ? 0 : 1; if(!ids[fl]) ids[fl] = u.id; ASSERT(u.id == ids[fl], "a known flow"); bool known = false;
			for(auto &f : frags) if(f.flow == fl)
			{
				bool settledFrag = f.acked || msgs[f.msg].given; if(f.seq <= u.fsn) { ASSERT(settledFrag, "only what is settled is skipped"); if(!f.acked) f.skipped = true; }
				if(f.seq != u.seq) continue;
				known = true; ASSERT(!f.acked, "what was acknowledged is not sent again"); ASSERT(!f.flying, "what is in flight is not sent again");
				ASSERT((u.flags & 0x30) == f.fra, "framing unchanged");
				if(u.flags & USERDATA_FLAG_ABN) ASSERT(msgs[f.msg].given && u.data.empty(), "only given-up data is marked so"); else ASSERT(u.data == f.data && !msgs[f.msg].given, "the same bytes under the same number");
				if(f.ever) sym_reach("again"); f.ever = true; f.flying = true; f.naks = 0; f.tsn = tsn; f.size = u.size;
			}
			ASSERT(known, "only what was written is sent");
		}
	}
	size_t sum[2] = { 0, 0 }; for(auto &f : frags) if(f.flying) sum[f.flow] += f.size;
	for(unsigned i = 0; i < 2; i++) if(flows[i]) ASSERT(flows[i]->getOutstandingBytes() == sum[i], "outstanding is exactly what is in flight");
	if(settled) for(auto &f : frags) if(!f.acked && !msgs[f.msg].given) ASSERT(f.flying, "what is owed is in flight");
	for(unsigned i = 0; i < msgs.size(); i++)
	{
		bool all = true; for(auto &f : frags) if(f.msg == i) all = all && f.acked; Msg &m = msgs[i];
		if(m.given) { ASSERT(m.finished == 1 && m.abandoned == 1 && m.r->isAbandoned() && !m.r->isDelivered(), "given up, once"); continue; }
		ASSERT(m.finished == (all ? 1 : 0) && m.abandoned == 0 && m.r->isDelivered() == all, "delivered when, and only when, every piece is acknowledged");
	}
}
static void acked(unsigned fl, uintmax_t from, uintmax_t to) { for(auto &f : frags) if(f.flow == fl && !f.acked && f.seq >= from && f.seq <= to) { if(f.flying && f.tsn > maxAcked) maxAcked = f.tsn; f.acked = true; f.flying = false; sym_reach("acked"); } }
static void nak() { for(auto &f : frags) if(f.flying && f.tsn <= maxAcked && ++f.naks >= NAKS_FOR_LOSS) { f.flying = false; sym_reach("lost"); } }
extern "C" void sym_main()
{
	frags.clear(); msgs.clear(); tsn = maxAcked = 0; ids[0] = ids[1] = 0; nextSeq[0] = nextSeq[1] = 1; flows[0].reset(); flows[1].reset();
	End a("A", 1), b("B", 2); flows[0] = net_open(a, b); a.out.clear(); b.out.clear();
	size_t piece = 0; { Bytes probe; } int scenario = sym_choice("scenario", 5); bool two = scenario == 3;
	uint8_t x = sym_u8("content"); if(two) { flows[1] = a.r->openFlow(b.crypto.name, B("second")); a.run(); }
	if(scenario == 1) // a message of two pieces among whole ones; the length of the first is what the wire shows
	{
		Bytes m(1300, 'm'); m[3] = x; m[1299] = x; auto r = flows[0]->write(m); ASSERT(r, "written"); a.run(); auto us = wire_user(wire_parse(a.out.front().bytes)); piece = us[0].data.size(); ASSERT(piece > 500 && piece < 1300, "cut once");
		msgs.push_back(Msg{ r, 0, 0, false }); Msg *px = &msgs.back(); r->onFinished = [px](bool ab) { px->finished++; px->abandoned += ab; };
		for(int i = 0; i < 2; i++) { Frag f{}; f.msg = 0; f.seq = nextSeq[0]++; f.fra = i ? USERDATA_FRA_END : USERDATA_FRA_BEGIN; f.data = i ? Bytes(m.begin() + piece, m.end()) : Bytes(m.begin(), m.begin() + piece); frags.push_back(f); }
		send(0, B("tail"), 1, 0); a.run();
	}
	else for(unsigned i = 0; i < 4; i++) { send(two ? i & 1 : 0, Bytes(3 + i, i ? 'a' + i : x), 1, 0); if(scenario != 2 || i != 1) a.run(); if(i == 0 && two) look(a, false); } // two of them may share a packet
	look(a, true);
	if(scenario == 4) { for(int i = 0; i < 3; i++) { a.put(wire_make(a.sid, HEADER_MODE_RESPONDER, ack_make(ids[0], 100, 0, { 0, 0 })), b.addr); acked(0, 2, 2); nak(); a.run(); look(a, true); } send(0, B("after"), 1, 0); a.run(); look(a, true); } // one was lost and sent again, and more followed
	int steps = sym_param("steps", 2), ranges = sym_param("ranges", 1);
	for(int k = 0; k < steps; k++)
	{
		int ev = sym_choice("event", 4);
		if(ev == 0) // an acknowledgement of anything
		{
			unsigned fl = two && sym_bool("which"); uint8_t cum = sym_u8("cum"); ASSUME(cum < 128); std::vector<uintmax_t> pairs; uintmax_t cur = cum, at[4][2]; int n = sym_choice("ranges", ranges + 1);
			for(int i = 0; i < n; i++) { uint8_t h = sym_u8("holes"), r = sym_u8("got"); ASSUME(h < 128 && r < 128); pairs.push_back(h); pairs.push_back(r); at[i][0] = cur + h + 2; at[i][1] = at[i][0] + r; cur = at[i][1]; }
			if(n == ranges && sym_bool("cut")) pairs.push_back(1); // a range cut short says nothing
			if(ids[fl] == 0) continue; ASSERT(a.put(wire_make(a.sid, HEADER_MODE_RESPONDER, ack_make(ids[fl], 100, cum, pairs)), b.addr), "taken");
			acked(fl, 0, cum); for(int i = 0; i < n; i++) acked(fl, at[i][0], at[i][1]); nak(); a.run(); sym_reach("ack");
		}
		else if(ev == 1) { net_now += flows[0]->getERTO() + 0.001L; for(auto &f : frags) f.flying = false; a.run(); sym_reach("timeout"); }
		else if(ev == 2) { unsigned m = sym_choice("message", msgs.size()); if(!msgs[m].finished) { msgs[m].given = true; msgs[m].r->abandon(); } a.run(); sym_reach("given up"); }
		else { unsigned fl = two && sym_bool("which"); send(fl, B("more"), 1, 0); a.run(); }
		look(a, true);
	}
	for(int i = 0; i < 2; i++) if(flows[i]) // and in the end it all adds up
	{
		Bytes c = ack_make(ids[i], 100, nextSeq[i] - 1); if(ids[i]) { a.put(wire_make(a.sid, HEADER_MODE_RESPONDER, c), b.addr); acked(i, 0, nextSeq[i] - 1); nak(); a.run(); look(a, true); }
		ASSERT(flows[i]->getOutstandingBytes() == 0, "nothing in flight, nothing outstanding"); ASSERT(flows[i]->getBufferedSize() == 0, "nothing left to send");
	}
	sym_reach("end");
}
