// C34: a peer that falls silent is noticed within the limits, one that answers is kept, a session nobody uses is closed
#include "net.h"
static const Duration limits[] = { 1, 8, 60 }, idles[] = { 1, 30, 300 }, waits[] = { 0.5, 12, 130 };
extern "C" void sym_main()
{
	{
		End a("A", 1), b("B", 2); bool respond = sym_bool("responder"); End &w = respond ? b : a, &o = respond ? a : b; bool idling = sym_bool("idling"); // w is the end that is watched
		Duration limit = limits[sym_choice("limit", 3)], keep = sym_bool("keepalive") ? 10 : 3600, idle = idling ? idles[sym_choice("idle", 3)] : 100000; 
		o.r->setDefaultSessionKeepalivePeriod(100000); o.r->setDefaultSessionRetransmitLimit(100000); o.r->setDefaultSessionIdleLimit(100000); bool later = limit != 8;
		if(!later) { w.r->setDefaultSessionKeepalivePeriod(keep); w.r->setDefaultSessionRetransmitLimit(limit); w.r->setDefaultSessionIdleLimit(idle); } else { w.r->setDefaultSessionRetransmitLimit(100000); w.r->setDefaultSessionIdleLimit(100000); }
		std::vector<std::shared_ptr<RecvFlow> > in; std::shared_ptr<SendFlow> back; int completes = 0; bool other = sym_bool("other"); // a flow in the other direction is also open
		w.r->onRecvFlow = o.r->onRecvFlow = [&](std::shared_ptr<RecvFlow> r) { r->accept(); r->onMessage = [](const uint8_t *, size_t, uintmax_t, size_t) {}; r->onComplete = [&](bool e) { completes += e; }; in.push_back(r); };
		auto f = net_open(a, b); net_quiet(a, b); if(respond) { auto g = b.r->openFlow(a.crypto.name, B("w")); f->close(); f = g; } if(other) { back = o.r->openFlow(w.crypto.name, B("o")); back->write(B("x")); }
		if(later) { f->setSessionKeepalivePeriod(keep); f->setSessionRetransmitLimit(limit); f->setSessionIdleLimit(idle); }
		ASSERT(f->getSessionKeepalivePeriod() == keep && f->getSessionRetransmitLimit() == limit && f->getSessionIdleLimit() == idle, "the limits set are in force");
		int heard = 0; f->onException = [&](uintmax_t) { heard++; }; Time asked = -1, answered = net_now, closed = -1, spoke = net_now, freed = -1; bool up[2] = { true, true };
		auto run = [&](Time until)
		{
			for(int i = 0; ; i++)
			{
				ASSERT(i < 4000, "time passes"); w.run(); o.run();
				if(w.out.size()) { Wire p = w.out.front(); w.out.pop_front(); for(auto &c : wire_parse(p.bytes).chunks) { if(c.type == CHUNK_CLOSE && closed < 0) closed = net_now; if((c.type == CHUNK_USERDATA || c.type == CHUNK_NEXT_USERDATA || c.type == CHUNK_PING) && asked < 0) asked = net_now; } spoke = net_now; if(up[0]) o.put(p.bytes, w.addr); else sym_reach("lost"); continue; }
				if(o.out.size()) { Wire p = o.out.front(); o.out.pop_front(); if(up[1]) { for(auto &c : wire_parse(p.bytes).chunks) if(c.type == CHUNK_ACK_RANGES || c.type == CHUNK_PING_REPLY) { answered = net_now; asked = -1; } w.put(p.bytes, o.addr); w.run(); if(asked < 0 && f->getOutstandingBytes()) asked = net_now; } continue; }
				Duration d = std::min(w.r->howLongToSleep(), o.r->howLongToSleep()); if(net_now + d > until) break; net_now += d > 0 ? d : 0;
			}
			net_now = until; w.run();
			if(closed >= 0) return;
			// noticed in time: something has been unanswered for the limit and a few timeouts, or a check was due
			if(asked >= 0) ASSERT(net_now <= asked + limit + 25, "a silent peer is noticed within the retransmission limit");
			ASSERT(net_now <= spoke + keep + 25 || asked >= 0, "a quiet session is checked within the keepalive period");
		};
		run(net_now + 0.1L); 
		if(idling)
		{
			bool used = sym_bool("used"); if(used) { f->write(B("m")); run(net_now + 1); } Duration before = sym_bool("long") ? 500 : 3; run(net_now + before); ASSERT(closed < 0, "a session with an open flow is not idle");
			Time t = net_now; f->close(); bool reopen = sym_bool("reopen"); if(reopen) { run(net_now + 0.5L); if(closed < 0) { f = w.r->openFlow(o.crypto.name, B("n")); f->onException = [&](uintmax_t) { heard++; }; run(net_now + 400); ASSERT(closed < 0, "a session used again is not idle"); t = net_now; f->close(); used = false; } }
			run(net_now + idle + 290); Duration linger = 0;
			if(other) { ASSERT(closed < 0, "a session with flows of the peer is not idle"); sym_reach("kept"); }
			else { ASSERT(closed >= t + idle - 0.001L, "not idle before the limit"); ASSERT(closed <= t + idle + 280, "an idle session is closed"); if(!used && !respond) ASSERT(closed <= t + std::max(idle, Duration(1)) + 0.001L, "at the limit"); sym_reach("idle"); }
		}
		else
		{
			for(int s = 0, n = sym_param("steps", 2); s < n && closed < 0; s++)
			{
				if(sym_bool("write")) { f->write(Bytes(100, 'd')); } unsigned net = sym_choice("network", 4); up[0] = !(net & 1); up[1] = !(net & 2); run(net_now + waits[sym_choice("wait", 3)]);
			}
			bool stays = sym_bool("stays"); if(!stays) up[0] = up[1] = true; else if(up[0] && up[1]) up[1] = false;
			if(closed < 0) run(net_now + 400);
			if(stays && keep < 100) { ASSERT(closed >= 0, "the silent peer is given up"); sym_reach("given up"); }
			if(closed >= 0)
			{
				ASSERT(asked >= 0, "a peer that answered everything is kept"); Time start = asked - answered <= 10.1L ? answered : asked; ASSERT(closed >= start + limit - 0.001L, "a peer is not given up before the limit");
				ASSERT(heard == 1, "the flow is told"); if(other && in.size()) { int told = 0; (void)told; ASSERT(completes >= 1, "the receiving flow is told"); } ASSERT(!f->isWritable(), "and over"); sym_reach("terminated");
			}
			else { ASSERT(!heard, "no exception"); sym_reach("alive"); }
		}
		f->onException = nullptr; for(auto &x : in) { x->onComplete = nullptr; } w.r->onRecvFlow = o.r->onRecvFlow = nullptr;
	}
	sym_reach("end");
}
