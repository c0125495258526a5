// C28: a sender respects the window, and comes back when it reopens
#include "sendref.h"
static SendRef s; static Time closedAt, lastProbe; static Duration lastGap; static bool closed;
static void look(End &a)
{
	s.look(a);
	for(auto &x : s.sent) { ASSERT(x.before < s.flows[x.flow].window, "nothing is sent into a full window"); sym_reach("sent"); }
	for(auto &f : s.flows) ASSERT(f.f->getRecvBufferBytesAvailable() == f.window, "the window is the last one advertised");
	if(s.total() < s.flows[0].f->getCongestionWindow()) for(auto &f : s.flows) { if(f.flying() < f.window) ASSERT(!f.owing(), "what fits in the windows is sent"); else if(f.owing()) sym_reach("full"); }
}
static int probes(uintmax_t id) { int n = 0; for(auto &p : s.other) for(auto &c : p.chunks) if(c.type == CHUNK_BUFFERPROBE) { const uint8_t *q = c.body.data(), *e = q + c.body.size(); if(take(q, e) == id) n++; } return n; }
extern "C" void sym_main()
{
	s = SendRef(); unsigned part = sym_part(3); End a("A", 1), b("B", 2); auto f = net_open(a, b); a.out.clear(); b.out.clear(); s.add(f);
	if(part == 0) // any windows
	{
		bool two = sym_bool("two"); if(two) { s.add(a.r->openFlow(b.crypto.name, B("second"))); a.run(); }
		static const unsigned sizes[] = { 1100, 1017, 50, 1017, 300, 550 }; // 1017 make a chunk of exactly a block
		f->setBufferCapacity(1 << 20); for(int i = 0; i < 6; i++) s.write(two ? i & 1 : 0, Bytes(sizes[i], 'a' + i)); a.run(); look(a);
		for(int k = 0; k < int(sym_param("steps", 3)); k++)
		{
			switch(sym_choice("event", 3))
			{
			case 0: { unsigned w = two && sym_bool("which"); uint8_t blocks = sym_u8("blocks"), cum = sym_u8("cum"); ASSUME(blocks < 128 && cum < 16); Bytes c = s.chunk(w, blocks, cum); s.begin(); a.put(wire_make(a.sid, HEADER_MODE_RESPONDER, c), b.addr); s.ack(w, 0, cum); s.after(); a.run(); sym_reach("ack"); break; }
			case 1: net_now += f->getERTO() + 0.001L; s.timeout(); a.run(); break;
			case 2: s.write(two && sym_bool("which"), Bytes(700, 'n')); a.run(); break;
			}
			look(a);
		}
	}
	else if(part == 1) // a closed window is probed, at most a minute apart, until it opens
	{
		static const unsigned rounds[] = { 0, 1, 2, 12 }; unsigned n = rounds[sym_choice("rounds", 4)]; bool during = sym_bool("during"); 
		s.write(0, Bytes(100, 'a')); a.run(); look(a); s.begin(); Bytes c = s.chunk(0, 0, sym_bool("acked") ? 1 : 0); a.put(wire_make(a.sid, HEADER_MODE_RESPONDER, c), b.addr); { const uint8_t *q = c.data() + 3, *e = c.data() + c.size(); take(q, e); take(q, e); s.ack(0, 0, take(q, e)); } s.after(); a.run(); look(a);
		if(during) { s.write(0, Bytes(500, 'b')); a.run(); look(a); ASSERT(s.sent.empty(), "closed"); }
		Time last = net_now; Duration gap = std::max(F_PERSIST_INITIAL_PERIOD, f->getERTO());
		for(unsigned k = 0; k < n; k++)
		{
			for(;;) { Duration d = a.r->howLongToSleep(); ASSERT(d < 70, "something is due"); net_now += d; a.run(); s.look(a); ASSERT(s.sent.empty(), "nothing but probes while closed"); if(probes(s.flows[0].id)) break; ASSERT(net_now - last <= std::max(gap, f->getERTO()) + 0.01L, "a probe in time"); }
			ASSERT(net_now - last <= F_PERSIST_MAX_PERIOD + 0.01L && net_now - last >= std::min(gap, F_PERSIST_INITIAL_PERIOD) - 0.01L, "neither too rarely nor too often"); gap = std::min(std::max((net_now - last) * F_PERSIST_BACKOFF_FACTOR, f->getERTO()), F_PERSIST_MAX_PERIOD); last = net_now; a.put(wire_make(a.sid, HEADER_MODE_RESPONDER, Bytes{ CHUNK_PING_REPLY, 0, 0 }), b.addr); sym_reach("probe");
		}
		uint8_t blocks = sym_u8("blocks"); ASSUME(blocks > 0 && blocks < 128); s.begin(); Bytes d = s.chunk(0, blocks, during ? 1 : 0); a.put(wire_make(a.sid, HEADER_MODE_RESPONDER, d), b.addr); s.ack(0, 0, during ? 1 : 0); s.after(); s.timeout(); a.run(); s.look(a);
		if(during) { ASSERT(f->getOutstandingBytes() > 0, "sending resumes"); sym_reach("resumed"); }
		for(int i = 0; i < 3; i++) { net_now += 1.5L; s.timeout(); a.run(); s.look(a); ASSERT(!probes(s.flows[0].id), "an open window is not probed"); }
	}
	else // both ends: a reader that stops and starts again, with acknowledgements lost
	{
		std::shared_ptr<RecvFlow> r; unsigned got = 0; size_t bytes = 0; b.r->onRecvFlow = [&](std::shared_ptr<RecvFlow> x) { x->accept(); r = x; x->setBufferCapacity(4000); x->onMessage = [&](const uint8_t *, size_t n, uintmax_t, size_t) { got++; bytes += n; }; };
		f->setBufferCapacity(1 << 20); f->write(Bytes(10, 'a')); net_quiet(a, b); ASSERT(got == 1, "open"); bool hold = sym_bool("hold"); if(hold) r->setReceiveOrder(RO_HOLD); else r->setBufferCapacity(0);
		static const Duration waits[] = { 0.3L, 3, 20, 70 }; for(int i = 0; i < 9; i++) f->write(Bytes(900, 'x')); size_t most = 0;
		for(int i = 0; i < 3; i++) { net_until(a, b, net_now + waits[sym_choice("wait", 4)]); most = std::max(most, r->getBufferedSize()); ASSERT(r->getBufferedSize() <= 4000 + 2 * 1024 + 1200, "the buffer is hardly exceeded"); if(hold) ASSERT(got == 1, "held"); }
		if(hold) r->setReceiveOrder(RO_SEQUENCE); else r->setBufferCapacity(4000);
		int lose = sym_choice("lose", 4); Time t0 = net_now; // packets from the reader lost after it starts again
		while(got < 10) { ASSERT(net_now < t0 + 4 * 62, "everything arrives in the end"); a.run(); b.run(); while(lose && b.out.size()) { b.out.pop_front(); lose--; sym_reach("lost"); } net_relay(b, a); a.run(); net_relay(a, b); b.run(); if(a.out.empty() && b.out.empty()) { Duration d = std::min(a.r->howLongToSleep(), b.r->howLongToSleep()); net_now += std::max(d, Duration(0.001L)); } }
		ASSERT(bytes == 10 + 9 * 900, "all of it"); sym_reach("restart"); b.r->onRecvFlow = nullptr;
	}
	sym_reach("end");
}
