// C32: only a proven address is used
#include "net.h"
struct Tok { Bytes bytes; uintmax_t ts; int at; };
static uintmax_t tok_ts(const Bytes &b) { const uint8_t *p = b.data() + 1, *e = b.data() + b.size(); return take(p, e); }
static void history() // replies of every kind, from everywhere
{
	End a("A", 1), b("B", 2); bool opener = sym_bool("opener"); End &o = opener ? a : b, &m = opener ? b : a; unsigned told[2] = { 0, 0 }, moves = 0; std::shared_ptr<RecvFlow> in; std::shared_ptr<SendFlow> f;
	unsigned arrived = 0; o.r->onRecvFlow = [&](std::shared_ptr<RecvFlow> r) { in = r; r->accept(); r->onFarAddressDidChange = [&]() { told[1]++; }; }; m.r->onRecvFlow = [&](std::shared_ptr<RecvFlow> r) { r->accept(); r->onMessage = [&](const uint8_t *, size_t, uintmax_t, size_t) { arrived++; }; };
	auto first = net_open(a, b); std::shared_ptr<SendFlow> second; net_until(a, b, net_now + 0.3L); if(opener) { f = first; second = m.r->openFlow(o.crypto.name, B("s")); } else { f = o.r->openFlow(m.crypto.name, B("s")); second = first; } second->write(B("z")); f->write(B("y")); f->onFarAddressDidChange = [&]() { told[0]++; }; net_until(a, b, net_now + 2); ASSERT(in && arrived == 1, "both ways");
	struct sockaddr_in at[3] = { m.addr, net_addr(2, 4000), net_addr(7) }; int cur = 0; uintmax_t best = 0; std::vector<Tok> toks; uint32_t sid = opener ? a.sid : b.sid; uint8_t mode = opener ? 2 : 1; unsigned writes = 1;
	auto drain = [&](int heard, bool may) // the observer's packets: checks are recorded, the rest goes to the peer's proven address
	{
		for(int i = 0; i < 20 && o.out.size(); i++)
		{
			Wire w = o.out.front(); o.out.pop_front(); Parsed p = wire_parse(w.bytes); bool check = false;
			for(auto &c : p.chunks) if(c.type == CHUNK_PING && c.body.size()) { ASSERT(c.body[0] == PING_MARKING_MOBILITY && p.chunks.size() == 1, "a check travels alone"); check = true; ASSERT(may && heard != cur && w.to == Address((const struct sockaddr *)&at[heard]), "a check goes to where a packet came from, if that is new"); Tok t; t.bytes = c.body; t.ts = tok_ts(c.body); t.at = heard; ASSERT(t.ts == uintmax_t(net_now - 1000), "and tells its time"); toks.push_back(t); sym_reach("check"); }
			if(check) continue; ASSERT(w.to == Address((const struct sockaddr *)&at[cur]), "everything else goes to the proven address"); m.put(w.bytes, o.addr); m.run(); while(m.out.size()) { Wire y = m.out.front(); m.out.pop_front(); o.put(y.bytes, at[cur]); o.run(); }
		}
	};
	unsigned n = sym_param("steps", 4), symbytes = sym_param("symbytes", 0);
	for(unsigned s = 0; s < n; s++)
	{
		Bytes c; unsigned k = s == 0 ? 0 : sym_choice("step", 3); int heard = k == 2 ? 0 : sym_choice("from", 3);
		if(k == 0) { unsigned form = s ? s & 1 : sym_choice("packet", 2); if(form) chunk_add(c, CHUNK_PING, B("hi")); else chunk_add(c, 0x77, B("pad")); size_t before = toks.size(); o.put(wire_make(sid, mode, c), at[heard]); o.run(); drain(heard, true); if(before == toks.size() && heard != cur) { bool recent = before && uintmax_t(net_now - 1000) == toks.back().ts; ASSERT(recent, "a new address is checked"); } }
		else if(k == 1)
		{
			if(toks.empty()) { sym_reach("end"); goto out; } 
			Tok t = toks[sym_choice("which", toks.size())]; bool intact = true; unsigned mod = symbytes ? sym_choice("mod", 3) : 0; Bytes y = t.bytes; 
			if(mod == 1) { symbytes--; static const int where[] = { 0, 1, 2, -32, -1 }; int i = where[sym_choice("where", 5)]; size_t q = i < 0 ? y.size() + i : i; y[q] = sym_u8("byte"); intact = y[q] == t.bytes[q]; } if(mod == 2) { switch(sym_choice("form", 3)) { case 0: y.pop_back(); break; case 1: y.push_back(sym_u8("more")); break; case 2: y = Bytes(1, PING_MARKING_MOBILITY); break; } intact = false; symbytes--; }
			chunk_add(c, CHUNK_PING_REPLY, y); bool good = intact && heard == t.at && t.ts > best && t.ts + 120 >= uintmax_t(net_now - 1000); size_t t0 = told[0], t1 = told[1]; int was = cur; if(good) { cur = heard; best = t.ts; if(was != cur) moves++; sym_reach("moved"); } else if(!intact) sym_reach("altered"); else if(heard != t.at) sym_reach("elsewhere"); else if(t.ts <= best) sym_reach("old"); else sym_reach("expired");
			o.put(wire_make(sid, mode, c), at[heard]); o.run(); ASSERT(f->getFarAddress() == Address((const struct sockaddr *)&at[cur]) && in->getFarAddress() == f->getFarAddress(), good ? "the right token from its own address moves the session" : "nothing else does"); ASSERT(told[0] == t0 + good && told[1] == t1 + good, "flows are told exactly then"); drain(heard, true);
		}
		else { static const Duration d[] = { 1, 120, 122 }; Time until = net_now + d[sym_choice("wait", 3)]; for(;;) { o.run(); m.run(); drain(0, false); Duration z = std::min(o.r->howLongToSleep(), m.r->howLongToSleep()); if(net_now + z > until) break; net_now += z > 0 ? z : 0; } net_now = until; o.run(); m.run(); drain(0, false); }
	}
	ASSERT(f->getFarAddress() == Address((const struct sockaddr *)&at[cur]), "the proven address"); { unsigned had = arrived; f->write(B("t")); o.run(); drain(0, false); ASSERT(arrived == had + 1, "traffic goes there"); (void)writes; }
	sym_reach("end");
out:
	o.r->onRecvFlow = nullptr; m.r->onRecvFlow = nullptr; f->onFarAddressDidChange = nullptr; if(in) in->onFarAddressDidChange = nullptr; 
}
#ifdef TRACE
static void tr(const char *who, bool lost, const Wire &w) { Parsed p = wire_parse(w.bytes); fprintf(stderr, "%s%s %.3Lf:", who, lost ? " lost" : "", net_now); for(auto &c : p.chunks) { fprintf(stderr, " [%02x", c.type); for(size_t i = 0; i < c.body.size() && i < 8; i++) fprintf(stderr, " %02x", c.body[i]); fprintf(stderr, " #%zu]", c.body.size()); } fprintf(stderr, "\n"); }
#else
#define tr(a, b, c)
#endif
static void roaming() // the peer's packets really come from elsewhere now and then; its old address is dead
{
	End a("A", 1), b("B", 2); bool opener = sym_bool("opener"); End &o = opener ? a : b, &m = opener ? b : a; unsigned got[2] = { 0, 0 }; std::vector<std::shared_ptr<RecvFlow> > rf; for(int i = 0; i < 2; i++) (i ? m : o).r->onRecvFlow = [&rf, &got, i](std::shared_ptr<RecvFlow> r) { rf.push_back(r); r->accept(); r->onMessage = [&got, i](const uint8_t *, size_t, uintmax_t, size_t) { got[i]++; }; };
	auto first = net_open(a, b); net_until(a, b, net_now + 2); std::shared_ptr<SendFlow> f[2]; f[opener ? 0 : 1] = first; f[opener ? 1 : 0] = (opener ? m : o).r->openFlow((opener ? o : m).crypto.name, B("s")); // f[0] of the observer
	struct sockaddr_in at[3] = { m.addr, net_addr(2, 4000), net_addr(7) }; int where = 0; unsigned moves = sym_param("moves", 2), fates = sym_param("fates", 5), wrote[2] = { 0, 0 }; Time last = net_now;
	for(unsigned s = 0; s < moves; s++)
	{
		where = sym_choice("to", 3); unsigned writes = sym_choice("writes", 3); unsigned stall = 0; if(writes != 1) { f[0]->write(B("q")); wrote[0]++; } if(writes != 0) { f[1]->write(B("r")); wrote[1]++; } last = net_now; Time until = net_now + (writes ? 80 : 10);
		for(;;)
		{
			o.run(); m.run(); bool any = false;
			if(o.out.size()) { any = true; Wire w = o.out.front(); o.out.pop_front(); bool lost = !(w.to == Address((const struct sockaddr *)&at[where])); if(!lost && fates) { fates--; lost = sym_bool("lose"); } tr("o", lost, w); if(!lost) m.put(w.bytes, o.addr, w.tos); else sym_reach("lost"); m.run(); }
			if(m.out.size()) { any = true; Wire w = m.out.front(); m.out.pop_front(); bool lost = false; if(fates) { fates--; lost = sym_bool("lose"); } tr("m", lost, w); if(!lost) o.put(w.bytes, at[where], w.tos); else sym_reach("lost"); o.run(); }
			if(any) continue; if(++stall > 600) sym_fail("no rest"); Duration d = std::min(o.r->howLongToSleep(), m.r->howLongToSleep()); if(net_now + d > until) { net_now = until; break; } net_now += std::max(d, Duration(0.001L));
		}
		if(writes) { ASSERT(f[0]->getFarAddress() == Address((const struct sockaddr *)&at[where]), "a peer that is heard from is found where it is"); ASSERT(got[0] == wrote[1] && got[1] == wrote[0], "and everything arrives"); sym_reach(where ? "roamed" : "home"); }
	}
	if(f[0]->getFarAddress() == Address((const struct sockaddr *)&at[where])) if(int third = sym_choice("third", 3)) // somebody else at an address it had, or has
	{
		int was = third == 1 ? (where + 1) % 3 : where; End c("C", 99); unsigned told = 0; auto h = c.r->openFlow(o.crypto.name, B("t")); struct sockaddr_in from = at[was]; h->addCandidateAddress((const struct sockaddr *)&o.addr); h->onException = [&](uintmax_t) { told++; };
		for(int i = 0; i < 8; i++) { c.run(); while(c.out.size()) { Wire w = c.out.front(); c.out.pop_front(); o.put(w.bytes, from); } o.run(); while(o.out.size()) { Wire w = o.out.front(); o.out.pop_front(); if(w.to == Address((const struct sockaddr *)&from)) c.put(w.bytes, o.addr); } }
		if(third == 1) { ASSERT(h->isWritable(), "an address the peer does not have is free for others"); sym_reach("freed"); } else { ASSERT(!h->isWritable(), "the address it has is not"); sym_reach("taken"); }
		ASSERT(f[0]->isOpen() && f[0]->getFarAddress() == Address((const struct sockaddr *)&at[where]), "and the session stays"); h->onException = nullptr; h.reset(); c.r->shutdown(true); c.run();
	}
	(void)last; for(auto &r : rf) { r->onMessage = nullptr; } o.r->onRecvFlow = nullptr; m.r->onRecvFlow = nullptr; sym_reach("end");
}
extern "C" void sym_main() { if(sym_param("roam", 0)) roaming(); else history(); }
