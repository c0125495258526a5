// Two ends and a network that loses, repeats and reorders its first packets; then it recovers.
#pragma once
#include "net.h"
struct EMsg { Bytes bytes; std::shared_ptr<WriteReceipt> r; int finished, abandoned, got; bool given; };
static std::deque<EMsg> em; static std::vector<unsigned> order; static std::shared_ptr<RecvFlow> rflow; static unsigned completed, failed, bad; static uintmax_t firstSeq;
static std::deque<Wire> late; // packets held back
#ifdef TRACE
static void trace(const char *what, const Wire &w) { Parsed p = wire_parse(w.bytes); fprintf(stderr, "%s %.3Lf:", what, net_now); for(auto &c : p.chunks) { fprintf(stderr, " [%02x", c.type); for(size_t i = 0; i < c.body.size() && i < 12; i++) fprintf(stderr, " %02x", c.body[i]); fprintf(stderr, " #%zu]", c.body.size()); } fprintf(stderr, "\n"); }
#else
#define trace(a, b)
#endif
static void fate(End &to, End &from, const Wire &w, int f)
{
	trace(f == 0 ? "ok" : f == 1 ? "lost" : f == 2 ? "dup" : "late", w);
	switch(f) { case 0: to.put(w.bytes, from.addr, w.tos); break; case 1: sym_reach("lost"); break; case 2: to.put(w.bytes, from.addr, w.tos); to.put(w.bytes, from.addr, w.tos); sym_reach("twice"); break; case 3: late.push_back(w); sym_reach("late"); break; }
}
static void emsg_write(const std::shared_ptr<SendFlow> &f, const Bytes &m, Duration start = INFINITY, Duration finish = INFINITY)
{
	em.push_back(EMsg{ m, f->write(m, start, finish), 0, 0, 0, false }); ASSERT(em.back().r, "written"); EMsg *p = &em.back(); p->r->onFinished = [p](bool ab) { p->finished++; if(ab) { p->abandoned++; p->given = true; } };
}
static void emsg_take(const uint8_t *b, size_t n)
{
	if(n < 1) { bad++; return; } unsigned i = b[0]; ASSERT(i < em.size(), "only what was written arrives"); EMsg &m = em[i]; ASSERT(n == m.bytes.size(), "whole messages"); bool same = true; for(size_t k = 0; k < n; k++) same = same & (b[k] == m.bytes[k]); ASSERT(same, "the bytes that were written"); m.got++; ASSERT(m.got == 1, "once"); order.push_back(i);
}
static void e2e(bool partial)
{
	em.clear(); order.clear(); rflow.reset(); completed = failed = bad = 0; late.clear(); End a("A", 1), b("B", 2); int net = sym_param("orders", 2) > 1 && sym_bool("network") ? RO_NETWORK : RO_SEQUENCE; unsigned abandonedOps = 0;
	b.r->onRecvFlow = [&](std::shared_ptr<RecvFlow> r) { r->accept(); rflow = r; r->setReceiveOrder(ReceiveOrder(net)); r->onMessage = [](const uint8_t *p, size_t n, uintmax_t, size_t) { emsg_take(p, n); }; r->onComplete = [](bool e) { e ? failed++ : completed++; }; };
	auto f = net_open(a, b); f->setBufferCapacity(1 << 20); a.run(); b.run(); net_quiet(a, b); uint8_t x = sym_u8("content");
	static const unsigned sizes[] = { 5, 1500, 7, 3000, 1, 900 }; unsigned shape = sym_choice("shape", sym_param("shapes", 3)), n = sym_param("messages", 4), big = shape == 0 ? 99 : shape == 1 ? 1 : 0; unsigned when = sym_choice("batch", 2); unsigned fates = sym_param("fates", 5), acts = partial ? sym_param("acts", 1) : 0; bool closes = sym_bool("close");
	static const int plain[] = { 0, 1, 2, 3 }; unsigned kinds = sym_param("kinds", 4); (void)plain;
	bool opened = sym_param("opened", 1) && sym_bool("opened"); if(opened) { Bytes m(3, 'o'); m[0] = 0; emsg_write(f, m); net_quiet(a, b); net_until(a, b, net_now + 0.3L); }
	for(unsigned i = 0; i < n; i++) { Bytes m(i == big ? 1500 : sizes[(2 * i) % 6], 'a' + i); m[0] = em.size(); if(m.size() > 2) { m[1] = x; m[m.size() - 1] = x; } Duration fin = INFINITY, st = INFINITY; emsg_write(f, m, st, fin); if(when) a.run(); }
	unsigned means = partial ? sym_choice("means", 3) : 0; if(partial && means) acts = 0;
	if(means == 1) { em[em.size() - n + sym_choice("besteffort", n)].r->retransmit = false; sym_reach("best effort"); }
	else if(means == 2) { unsigned d = sym_choice("deadline", n); em[em.size() - n + d].r->setFinishWithin(sym_bool("soon") ? 0.1L : 4); if(d + 1 < n) em[em.size() - n + d + 1].r->parent = em[em.size() - n + d].r; sym_reach("deadline"); }
	if(closes) f->close();
	Time t0 = net_now; unsigned guard = 0;
	for(;;)
	{
		ASSERT(++guard < 400 && net_now < t0 + 200, "everything settles in the end"); a.run(); b.run(); bool any = false;
		if(acts && sym_bool("now")) { acts--; unsigned i = sym_choice("giveup", n); auto r = em[em.size() - n + i].r; if(!r->isFinished()) { r->abandon(); sym_reach("given up"); } a.run(); }
		while(a.out.size()) { any = true; Wire w = a.out.front(); a.out.pop_front(); int k = 0; if(fates) { k = sym_choice("fate", kinds); if(kinds == 3 && k == 2) k = 3; fates--; } auto l = late; late.clear(); fate(b, a, w, k); for(auto &y : l) { bool toB = y.to == Address((const struct sockaddr *)&b.addr); (toB ? b : a).put(y.bytes, toB ? a.addr : b.addr, y.tos); } b.run(); }
		while(b.out.size()) { any = true; Wire w = b.out.front(); b.out.pop_front(); int k = 0; if(fates) { k = sym_choice("fate", kinds > 2 ? 2 : kinds); fates--; } fate(a, b, w, k); a.run(); }
		if(any) continue;
		bool done = true; for(auto &m : em) if(!m.finished || (!m.got && !m.given)) done = false; if(f->getOutstandingBytes() || f->getBufferedSize() || late.size()) done = false; if(closes && !completed) done = false; if(done) break;
		if(late.size()) { auto l = late; late.clear(); for(auto &y : l) { bool toB = y.to == Address((const struct sockaddr *)&b.addr); (toB ? b : a).put(y.bytes, toB ? a.addr : b.addr, y.tos); } continue; }
		Duration d = std::min(a.r->howLongToSleep(), b.r->howLongToSleep()); net_now += std::max(d, Duration(0.001L));
	}
	for(auto &m : em) { ASSERT(m.finished == 1, "each receipt is settled once"); ASSERT(m.abandoned == (m.given ? 1 : 0) && m.r->isDelivered() == !m.given, "and says what happened"); if(!m.given) ASSERT(m.got == 1, "what is reported delivered has arrived"); if(m.given) sym_reach(m.got ? "given up but arrived" : "skipped"); }
	if(net == RO_SEQUENCE) for(unsigned i = 1; i < order.size(); i++) ASSERT(order[i - 1] < order[i], "in order"); else for(unsigned i = 1; i < order.size(); i++) if(order[i - 1] > order[i]) sym_reach("early");
	if(!partial) for(auto &m : em) ASSERT(m.got == 1 && !m.given, "nothing is given up unasked");
	if(rflow) ASSERT(rflow->getBufferedSize() == 0, "nothing is kept back"); ASSERT(completed == (closes ? 1 : 0) && !failed, "completion is reported once, when closed"); ASSERT(bad <= closes, "no invented message"); if(closes) sym_reach("closed");
	// and a silence: nothing more is sent or delivered
	size_t got = order.size(); net_until(a, b, net_now + 5); ASSERT(order.size() == got && f->getOutstandingBytes() == 0, "and nothing after that"); b.r->onRecvFlow = nullptr; sym_reach("end");
}
