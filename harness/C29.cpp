// C29: the congestion window bounds what is sent, is cut on loss and grows only when used
#include "sendref.h"
static SendRef s; static Time tcrAt, tcAt; static size_t recovery; // bytes of the round trip in which the window was last cut that are still to be accounted for
static void sent(End &a, Duration) { size_t cw = s.flows[0].f->getCongestionWindow(); s.look(a); for(auto &x : s.sent) if(&x == &s.sent[0] || x.packet != (&x)[-1].packet) ASSERT(x.beforeSession < cw, "nothing is sent into a full congestion window"); if(s.total() >= cw) sym_reach("full"); bool room = s.total() < cw; for(auto &f : s.flows) if(f.flying() < f.window) ASSERT(!(room && f.owing()), "what fits is sent"); }
static void deliver(End &a, End &b, const Bytes &c, bool tcr, bool marked, unsigned cum, bool gap, unsigned got) // one acknowledging packet, and what it may do
{
	auto f = s.flows[0].f; size_t cw0 = f->getCongestionWindow(), pre = s.total();
	s.begin(); a.put(wire_make(a.sid, HEADER_MODE_RESPONDER | (tcr ? HEADER_FLAG_TCR : 0), c), b.addr); s.ack(0, 0, cum); if(gap) s.ack(0, cum + 2, cum + 2 + got); s.after(); bool loss = s.loss || marked;
	size_t cw1 = f->getCongestionWindow(), drained = s.ackedBytes + s.lostBytes; ASSERT(f->getOutstandingBytes() == s.flows[0].flying(), "books");
	ASSERT(cw1 >= CWND_TIMEDOUT, "never below the smallest window"); ASSERT(cw1 >= std::min(cw0, CWND_INIT), "cut no further than the initial window"); ASSERT(cw1 <= std::max(cw0 + SENDER_MSS, CWND_INIT), "grows by at most a segment");
	if(cw1 > std::max(cw0, CWND_INIT)) { sym_reach("growth"); ASSERT(s.ackedBytes > 0 && cw1 - cw0 <= s.ackedBytes, "grows only with what is acknowledged"); ASSERT(!loss && !s.naks, "does not grow while losing"); ASSERT(pre * 64 > cw0 * 62, "does not grow unless it is used"); ASSERT(!(recovery > drained), "does not grow in recovery"); bool critical = net_now - tcrAt < TIMECRITICAL_TIMEOUT, own = net_now - tcAt < TIMECRITICAL_TIMEOUT; if(critical && !own) ASSERT(cw1 - cw0 <= (s.ackedBytes + cw0) / std::max(cw0 / 16, size_t(64)) * 24 + 24, "grows slowly while the peer takes time-critical data elsewhere"); }
	if(recovery > drained) { recovery -= drained; sym_reach("recovery"); if(!s.lostBytes) ASSERT(cw1 == cw0, "one cut per round trip"); }
	else { recovery = 0; if(loss) { size_t cut = std::min(cw0, pre); sym_reach("cut"); ASSERT(cw1 <= std::max(CWND_INIT, cut - cut / 8), "cut after loss"); if(net_now - tcAt > TIMECRITICAL_TIMEOUT && pre <= 67200) ASSERT(cw1 <= std::max(CWND_INIT, cut - cut / 2), "halved after loss"); if(s.lostBytes) ASSERT(cw1 <= std::max(CWND_INIT, cut - std::min(cut, s.lostBytes + s.lostBytes / 2)), "cut by at least what was lost"); recovery = s.total(); } else if(s.naks) ASSERT(cw1 <= std::max(cw0, CWND_INIT), "no growth yet"); }
	if(s.loss) sym_reach("loss"); a.run(); sent(a, 0);
}
extern "C" void sym_main()
{
	s = SendRef(); recovery = 0; End a("A", 1), b("B", 2); auto f = net_open(a, b); a.out.clear(); b.out.clear(); s.add(f); f->setBufferCapacity(1 << 20); int ece = 0; tcrAt = tcAt = -1000;
	ASSERT(f->getCongestionWindow() == CWND_INIT, "starts at the initial window"); unsigned scenario = sym_choice("scenario", 4);
	if(scenario == 1) s.add(a.r->openFlow(b.crypto.name, B("critical"), PRI_IMMEDIATE)); // time-critical data is sent as well
	unsigned fill = scenario == 2 ? 2 : 6; for(unsigned i = 0; i < fill; i++) s.write(0, Bytes(1000, 'x')); if(scenario == 1) { s.write(1, B("now")); tcAt = net_now; } a.run(); sent(a, 0); if(scenario == 3) for(int i = 0; i < 3; i++) { for(int k = 0; k < 4; k++) s.write(0, Bytes(1000, 'w')); a.run(); sent(a, 0); uintmax_t top = 0; for(auto &x : s.flows[0].frags) if(x.flying) top = x.seq; size_t was = f->getCongestionWindow(); deliver(a, b, s.chunk(0, 127, top), false, false, top, false, 0); ASSERT(f->getCongestionWindow() > was, "a used window grows"); }
	unsigned steps = sym_param("steps", 2), special = sym_choice("special", steps + 1);
	for(unsigned k = 0; k < steps; k++)
	{
		size_t cw0 = f->getCongestionWindow(); int ev = sym_choice("event", 4);
		if(ev == 0) // a packet with an acknowledgement
		{
			uint8_t cum = sym_u8("cum"); uintmax_t top = 0; for(auto &x : s.flows[0].frags) if((x.flying || x.acked) && x.seq > top) top = x.seq; ASSUME(cum <= top); bool gap = sym_bool("gap"), tcr = k == special && sym_bool("tcr"), marked = k == special && !tcr; std::vector<uintmax_t> pairs; if(gap) pairs = { 0, uintmax_t(sym_choice("got", 2)) * 20 };
			Bytes c = s.chunk(0, 127, cum, pairs); if(marked) { Bytes e; e.push_back(++ece); chunk_add(c, CHUNK_ECN_REPORT, e); } if(tcr) { tcrAt = net_now; sym_reach("tcr"); }
			unsigned times = gap && sym_bool("thrice") ? 3 : 1; for(unsigned t = 0; t < times; t++) deliver(a, b, c, tcr, marked && !t, cum, gap, gap ? pairs[1] : 0); sym_reach("ack");
		}
		else if(ev == 1) // nothing heard for a while
		{
			bool out = s.total() > 0; net_now += f->getERTO() + 0.001L; s.timeout(); recovery = 0; a.run(); size_t cw1 = f->getCongestionWindow(); if(out) { ASSERT(cw1 == CWND_TIMEDOUT, "the smallest window after a timeout"); sym_reach("timeout"); } else { ASSERT(cw1 <= std::max(cw0, CWND_INIT), "no growth while idle"); sym_reach("idle"); } sent(a, 0);
		}
		else if(ev == 2) { unsigned n = sym_bool("many") ? 6 : 1; for(unsigned i = 0; i < n; i++) s.write(0, Bytes(1000, 'y')); a.run(); ASSERT(f->getCongestionWindow() == cw0, "sending alone changes nothing"); sent(a, 0); }
		else { net_now += 0.4L; bool due = false; for(auto &x : s.flows[0].frags) due |= x.flying; if(scenario == 1 && s.flows.size() > 1) { s.write(1, B("again")); tcAt = net_now; } a.run(); (void)due; ASSERT(f->getCongestionWindow() == cw0 || f->getCongestionWindow() == CWND_TIMEDOUT || f->getCongestionWindow() == CWND_INIT, "waiting does not grow it"); if(f->getCongestionWindow() != cw0 || f->getOutstandingBytes() != s.flows[0].flying()) { s.timeout(); recovery = 0; } sent(a, 0); }
	}
	sym_reach("end");
}
