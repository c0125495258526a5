// C36: higher priority first, equal priority in turn, nothing overtakes or is forgotten
#include "sendref.h"
struct PFlow { std::shared_ptr<SendFlow> f; int pri; uintmax_t id; unsigned written, sent; bool other; };
static std::vector<PFlow> fl;
static int level(const char *n) { static const int some[] = { PRI_LOWEST, PRI_ROUTINE, PRI_HIGHEST }; return sym_param("all", 0) ? int(sym_choice(n, NUM_PRIORITIES)) : some[sym_choice(n, 3)]; }
extern "C" void sym_main()
{
	fl.clear(); End a("A", 1), b("B", 2); End c("C", 3); bool two = sym_bool("two"); auto opener = net_open(a, b); uint32_t sidB = a.sid, sidC = 0; if(two) { net_open(a, c); sidC = a.sid; sym_reach("two"); } a.out.clear(); b.out.clear(); unsigned n = sym_param("flows", 3);
	for(unsigned i = 0; i < n; i++) { int p = level("priority"); bool other = two && i + 1 == n; fl.push_back(PFlow{ a.r->openFlow(other ? c.crypto.name : b.crypto.name, B("flow"), Priority(p)), p, 0, 0, 0, other }); ASSERT(fl[i].f->getPriority() == p, "the priority asked for"); fl[i].f->setBufferCapacity(1 << 20); }
	a.run(); a.out.clear(); unsigned counts = sym_param("messages", 2); a.blocked = true; // nothing can be written yet
	for(unsigned i = 0; i < n; i++) { unsigned m = 1 + 2 * sym_choice("count", counts); for(unsigned k = 0; k < m; k++) { Bytes x(k & 1 ? 300 : 1000, 'a' + i); x[0] = i; x[1] = k; fl[i].f->write(x); fl[i].written++; } }
	if(sym_param("changes", 1) && sym_bool("change")) { unsigned i = sym_choice("which", n); int p = level("to"); fl[i].f->setPriority(Priority(p)); fl[i].pri = p; sym_reach("change"); }
	unsigned late = sym_choice("late", n + 1); // the last flow becomes ready only when the first packet is out
	a.blocked = false; std::vector<unsigned> since(n, 0); unsigned rounds = 0, total = 0; for(auto &x : fl) total += x.written; unsigned done = 0; bool added = false;
	while(done < total)
	{
		ASSERT(++rounds < 60, "everything is sent in the end"); a.run(); if(a.out.empty()) { net_now += opener->getERTO() < 10 ? 3.1L : 3.1L; continue; }
		Bytes ack[2]; size_t flying[2] = { 0, 0 };
		for(auto &w : a.out)
		{
			Parsed p = wire_parse(w.bytes); bool toC = w.to == Address((const struct sockaddr *)&c.addr); auto us = wire_user(p); if(us.empty()) continue; int who = -1; size_t size = 0; bool tc = p.flags & HEADER_FLAG_TC;
			for(auto &u : us)
			{
				if(u.data.size() < 2) { ASSERT(false, "no other data"); continue; }
				unsigned i = u.data[0]; ASSERT(i < n, "a known flow"); PFlow &x = fl[i]; ASSERT(x.other == toC, "each flow to its own peer"); if(!x.id) x.id = u.id; ASSERT(x.id == u.id, "each message on its own flow"); ASSERT(who < 0 || who == int(i), "a packet serves one flow"); who = i;
				ASSERT(u.data[1] == x.sent && u.seq == x.sent + 1, "messages of a flow leave in order"); x.sent++; done++; size += u.size;
			}
			ASSERT(tc == (fl[who].pri > PRI_ROUTINE), "time-critical data is flagged"); if(tc) sym_reach("critical");
			for(unsigned i = 0; i < n; i++) { unsigned had = fl[i].sent - (int(i) == who ? us.size() : 0); if(int(i) != who && had < fl[i].written && flying[fl[i].other] < fl[i].f->getCongestionWindow()) { ASSERT(fl[i].pri <= fl[who].pri, "no lower priority while a higher one waits"); if(fl[i].pri == fl[who].pri) { since[i]++; ASSERT(since[i] < n + two, "equals take turns"); sym_reach("turn"); } else sym_reach("lower waits"); } else since[i] = 0; }
			since[who] = 0; flying[fl[who].other] += size;
		}
		a.out.clear(); for(unsigned i = 0; i < n; i++) if(fl[i].id) { Bytes x = ack_make(fl[i].id, 100, fl[i].sent); Bytes &to = ack[fl[i].other]; to = to + x; }
		if(late && !added) { added = true; unsigned i = late - 1; Bytes x(500, 'z'); x[0] = i; x[1] = fl[i].written; fl[i].f->write(x); fl[i].written++; total++; }
		if(ack[0].size()) a.put(wire_make(sidB, HEADER_MODE_RESPONDER, ack[0]), b.addr);
		if(ack[1].size()) a.put(wire_make(sidC, HEADER_MODE_RESPONDER, ack[1]), c.addr);
	}
	sym_reach("end");
}
