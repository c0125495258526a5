// C33: whoever closes what, whenever: each open flow hears once, then silence, and everything goes away
#include "net.h"
struct S { std::weak_ptr<SendFlow> w; std::shared_ptr<SendFlow> keep; bool closed; int heard; uintmax_t code; }; struct R { std::weak_ptr<RecvFlow> w; std::shared_ptr<RecvFlow> keep; bool closed; int heard; bool error; unsigned got; };
static std::deque<S> sf[2]; static std::deque<R> rf[2]; static End *ends[2]; static bool over, ended[2], gone[2], keeping; static unsigned where, what; static bool done; static int receipts, arrived, abandoned;
enum { CLOSE_FLOW, CLOSE_SESSION, SHUTDOWN_NOW, SHUTDOWN_LATER, WHATS };
static void act(int end, SendFlow *s, RecvFlow *r, int w)
{
	switch(w)
	{
	case CLOSE_FLOW: if(s) { for(auto &x : sf[end]) if(x.w.lock().get() == s) x.closed = true; s->close(); } if(r) { for(auto &x : rf[end]) if(x.w.lock().get() == r) x.closed = true; r->close(end + 40); } break;
	case CLOSE_SESSION: over = true; if(s) s->closeSession(); if(r) r->closeSession(); break;
	case SHUTDOWN_NOW: over = ended[end] = gone[end] = true; ends[end]->r->shutdown(true); break;
	case SHUTDOWN_LATER: over = ended[end] = true; ends[end]->r->shutdown(false); break;
	}
}
static void within(int end, SendFlow *s, RecvFlow *r, unsigned here) { if(where != here || done) return; done = true; sym_reach("within"); act(end, s, r, what); }
enum { NOWHERE, IN_MESSAGE, IN_RECEIPT, IN_EXPIRY, IN_EXCEPTION, IN_COMPLETE, IN_NEWFLOW, IN_WRITABLE, WHERES };
static void watch(int end, std::shared_ptr<SendFlow> f)
{
	sf[end].push_back(S{ f, keeping ? f : nullptr, false, 0, 0 }); S *s = &sf[end].back(); 
	f->onException = [s, end](uintmax_t c) { ASSERT(!s->closed, "nothing after closing"); s->heard++; s->code = c; ASSERT(s->heard == 1, "an exception once"); auto x = s->w.lock(); within(end, x.get(), nullptr, IN_EXCEPTION); };
	f->onWritable = [s, end]() { ASSERT(!s->closed && !s->heard, "not writable after the end"); auto x = s->w.lock(); within(end, x.get(), nullptr, IN_WRITABLE); return false; };
}
static void watch(int end, std::shared_ptr<RecvFlow> f)
{
	rf[end].push_back(R{ f, keeping ? f : nullptr, false, 0, false, 0 }); R *r = &rf[end].back(); f->accept();
	f->onMessage = [r, end](const uint8_t *p, size_t n, uintmax_t, size_t) { ASSERT(!r->closed && !r->heard, "no message after the end"); r->got++; auto x = r->w.lock(); within(end, nullptr, x.get(), IN_MESSAGE); };
	f->onComplete = [r, end](bool e) { ASSERT(!r->closed, "nothing after closing"); r->heard++; r->error = e; ASSERT(r->heard == 1, "completion once"); auto x = r->w.lock(); within(end, nullptr, x.get(), IN_COMPLETE); };
}
static void write(int end, const std::shared_ptr<SendFlow> &f, size_t n, Duration within_ = INFINITY)
{
	if(!f) return; auto r = f->write(Bytes(n, 'd'), within_, within_); if(!r) return; receipts++; std::weak_ptr<SendFlow> w = f;
	r->onFinished = [end, w](bool gave) { receipts--; (gave ? abandoned : arrived) += end == 0; auto x = w.lock(); within(end, x.get(), nullptr, gave ? IN_EXPIRY : IN_RECEIPT); };
}
extern "C" void sym_main()
{
	for(int i = 0; i < 2; i++) { sf[i].clear(); rf[i].clear(); ended[i] = gone[i] = false; } over = done = false; receipts = arrived = abandoned = 0;
	{
		End a("A", 1), b("B", 2); ends[0] = &a; ends[1] = &b; where = sym_choice("where", WHERES); what = where ? sym_choice("what", WHATS) : 0; keeping = sym_bool("keeping");
		b.r->onRecvFlow = [&](std::shared_ptr<RecvFlow> r) { watch(1, r); if(rf[1].size() == 1) { auto back = r->openReturnFlow(B("back")); if(back) { watch(1, back); back->onRecvFlow = nullptr; write(1, back, 3); } } within(1, nullptr, r.get(), IN_NEWFLOW); };
		a.r->onRecvFlow = [&](std::shared_ptr<RecvFlow> r) { watch(0, r); };
		auto f = net_open(a, b); watch(0, f); f->onRecvFlow = [&](std::shared_ptr<RecvFlow> r) { watch(0, r); };
		unsigned form = sym_choice("form", sym_param("forms", 4)); // a long message, a second flow, deadlines that pass while the network is stalled, or established and used before
		if(form == 1) { auto g = a.r->openFlow(b.crypto.name, B("g")); watch(0, g); write(0, g, 4); }
		if(form) write(0, f, 10); write(0, f, form == 0 ? 2500 : 5); f->notifyWhenWritable(); if(form >= 2) { net_quiet(a, b); net_until(a, b, net_now + 0.5L); write(0, f, 6); for(auto &x : sf[1]) if(!x.heard && !x.closed) write(1, x.w.lock(), 7); }
		if(form == 2) { a.blocked = true; write(0, f, 8, 0.2); a.run(); net_now += 0.5L; a.blocked = false; sym_reach("stalled"); }
		f.reset();
		int ops = where ? sym_param("nested", 1) : sym_param("ops", 1), fates = sym_param("fates", 3), chances = sym_param("chances", 3); bool onlyFlowClose = true; unsigned kinds = sym_param("kinds", 2); Time t0 = net_now;
		for(unsigned guard = 0; net_now < t0 + 300; guard++)
		{
			ASSERT(guard < 3000, "it all comes to an end");
			if(ops && chances && (chances == 1 || sym_bool("now")))
			{
				ops--; int e = sym_choice("end", 2); unsigned k = sym_choice("op", 5); std::shared_ptr<SendFlow> s; std::shared_ptr<RecvFlow> r; 
				if(k == 0 || k == 2) for(auto &x : sf[e]) if(!s && !x.closed && !x.heard) s = x.w.lock();
				if(k == 1 || k == 2) for(auto &x : rf[e]) if(!r && !x.closed && !x.heard) r = x.w.lock();
				if(k == 0) { if(s) { act(e, s.get(), nullptr, CLOSE_FLOW); sym_reach("send closed"); } }
				else if(k == 1) { if(r) { act(e, nullptr, r.get(), CLOSE_FLOW); onlyFlowClose = false; sym_reach("receive closed"); } }
				else if(k == 2) { if(s) act(e, s.get(), nullptr, CLOSE_SESSION); else if(r) act(e, nullptr, r.get(), CLOSE_SESSION); sym_reach("session closed"); }
				else act(e, nullptr, nullptr, k == 3 ? SHUTDOWN_NOW : SHUTDOWN_LATER);
			}
			if(chances) chances--;
			a.run(); b.run(); if(a.out.size() || b.out.size())
			{
				if(a.out.size()) { Wire w = a.out.front(); a.out.pop_front(); if(fates && fates-- && sym_choice("fate", kinds)) sym_reach("lost"); else if(b.r) b.put(w.bytes, a.addr); b.run(); }
				if(b.out.size()) { Wire w = b.out.front(); b.out.pop_front(); if(fates && fates-- && sym_choice("fate", kinds)) sym_reach("lost"); else a.put(w.bytes, b.addr); a.run(); }
				continue;
			}
			Duration d = std::min(a.r->howLongToSleep(), b.r->howLongToSleep()); net_now += std::min(std::max(d, Duration(0.001L)), Duration(60));
		}
		for(auto &x : rf[1]) if(x.closed) onlyFlowClose = false;
		if(over)
		{
			for(int e = 0; e < 2; e++) if(!gone[1 - e]) { for(auto &x : sf[e]) { if(!x.closed) ASSERT(x.heard == 1, "each open sending flow hears of the end once"); auto p = x.w.lock(); ASSERT(!p || !p->isWritable(), "and is over"); } for(auto &x : rf[e]) if(!x.closed) ASSERT(x.heard == 1, "each open receiving flow hears of the end once"); }
			sym_reach("over");
		}
		else
		{
			for(int e = 0; e < 2; e++) { for(auto &x : sf[e]) { if(x.heard) ASSERT(x.code == (e && rf[0].empty() ? 0 : (1 - e) + 40), "an exception carries the receiver's reason (a returned flow arriving for one that ended is refused)"); } for(auto &x : rf[e]) if(x.heard) ASSERT(!x.error, "completion without error"); }
			if(onlyFlowClose) { int all = 0; for(auto &x : rf[1]) all += x.got; ASSERT(all >= arrived && arrived >= 1, "what was queued before an orderly close is delivered"); for(auto &x : sf[0]) ASSERT(!x.heard, "no exception"); int told = 0, shut = 0; for(auto &x : sf[0]) shut += x.closed; for(auto &y : rf[1]) told += y.heard == 1; if(shut) { ASSERT(told == shut, "the receiver hears of the close"); sym_reach("orderly"); } }
		}
		ASSERT(receipts == 0, "every receipt is settled"); if(!over && onlyFlowClose && form != 2) ASSERT(!abandoned, "nothing is given up in an orderly close"); for(int e = 0; e < 2; e++) ASSERT(ends[e]->shutdowns == (ended[e] ? 1 : 0), "shutdown completion is reported once"); if(ended[0] || ended[1]) sym_reach("shutdown");
		b.r->onRecvFlow = nullptr; a.r->onRecvFlow = nullptr; for(int i = 0; i < 2; i++) { for(auto &x : sf[i]) if(auto p = x.w.lock()) { p->onWritable = nullptr; p->onException = nullptr; p->onRecvFlow = nullptr; } for(auto &x : rf[i]) if(auto p = x.w.lock()) { p->onMessage = nullptr; p->onComplete = nullptr; } sf[i].clear(); rf[i].clear(); }
	}
	sym_reach("end");
}
