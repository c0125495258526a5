// C31: both ends open to each other at once; keying messages repeated
#include "net.h"
#include <set>
static std::deque<Wire> held; static std::map<uint32_t, Bytes> answers[2]; // per answering end and initiator's session id: the responder keying seen
static std::shared_ptr<SendFlow> fl[2]; static std::vector<std::shared_ptr<RecvFlow> > in[2]; static unsigned got[2][4]; static unsigned opened[2], gone; static std::deque<Wire> keyings[2];
static void look(End *e, int i) // what is about to be sent
{
	for(auto &w : e->out)
	{
		if(w.bytes.size() < 13) continue; Parsed p = wire_parse(w.bytes);
		for(auto &c : p.chunks) if(c.type == CHUNK_RIKEYING)
		{
			uint32_t sid = wire_sid(w.bytes); auto x = answers[i].find(sid); if(x == answers[i].end()) answers[i][sid] = c.body; else { ASSERT(x->second == c.body, "a repeated keying message is answered with the same keys and session"); sym_reach("answered again"); }
		}
	}
}
// one end asks for the same peer under two names, and for another peer
static void aliases()
{
	End a("A", 1), b("B", 2), c("C", 3); End *e[3] = { &a, &b, &c }; std::shared_ptr<SendFlow> f[3]; static unsigned seen[3][3]; static std::set<uint32_t> sids[3]; for(int i = 0; i < 3; i++) { for(auto &x : seen[i]) x = 0; sids[i].clear(); } gone = 0; held.clear(); static std::vector<std::shared_ptr<RecvFlow> > rf; rf.clear();
	for(int i = 1; i < 3; i++) e[i]->r->onRecvFlow = [i](std::shared_ptr<RecvFlow> r) { rf.push_back(r); r->accept(); r->onMessage = [i](const uint8_t *p, size_t n, uintmax_t, size_t) { ASSERT(n == 2 && p[0] == 'm' && p[1] < 3, "whole messages"); seen[i][p[1]]++; ASSERT(seen[i][p[1]] == 1, "once"); }; };
	static const char *names[] = { "B", "@B", "C" }; unsigned order = sym_choice("order", 6), fates = sym_param("fates", 3), kinds = sym_param("kinds", 4), n = 0, steps = 0; static const int perm[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } }; unsigned gap[3] = { 0, 0, 0 }; for(int i = 1; i < 3; i++) gap[i] = gap[i - 1] + sym_choice("gap", sym_param("gaps", 4)); Time t0 = net_now;
	auto give = [&](const Wire &w, int from) { for(int i = 0; i < 3; i++) if(w.to == Address((const struct sockaddr *)&e[i]->addr)) e[i]->put(w.bytes, e[from]->addr, w.tos); };
	for(unsigned guard = 0; guard < 2000; guard++)
	{
		while(n < 3 && steps >= gap[n]) { int i = perm[order][n++]; f[i] = a.r->openFlow(B(names[i]), B("hello")); f[i]->addCandidateAddress((const struct sockaddr *)&e[i == 2 ? 2 : 1]->addr); f[i]->onException = [](uintmax_t) { gone++; }; Bytes m = B("m?"); m[1] = i; f[i]->write(m); }
		int from = -1; for(int i = 0; i < 3; i++) { e[i]->run(); if(from < 0 && e[i]->out.size()) from = i; }
		if(from >= 0)
		{
			Wire w = e[from]->out.front(); e[from]->out.pop_front(); steps++; int k = fates ? fates--, sym_choice("fate", kinds) : 0; if(w.bytes.size() > 12) for(auto &ch : wire_parse(w.bytes).chunks) if(ch.type == CHUNK_USERDATA) sids[w.to == Address((const struct sockaddr *)&c.addr) ? 2 : 1].insert(wire_sid(w.bytes));
			auto l = held; held.clear(); if(k == 0) give(w, from); else if(k == 1) sym_reach("lost"); else if(k == 2) { give(w, from); give(w, from); sym_reach("twice"); } else { held.push_back(w); w.ifid = from; held.back().ifid = from; sym_reach("late"); }
			for(auto &x : l) give(x, x.ifid); continue;
		}
		if(n < 3) { steps = gap[n]; continue; } if(held.size()) { auto l = held; held.clear(); for(auto &x : l) give(x, x.ifid); continue; }
		if(seen[1][0] && seen[1][1] && seen[2][2]) break;
		Duration d = INFINITY; for(auto x : e) d = std::min(d, x->r->howLongToSleep()); net_now += std::max(d, Duration(0.001L)); ASSERT(net_now < t0 + 60, "each flow works before long");
	}
	ASSERT(seen[1][0] == 1 && seen[1][1] == 1 && !seen[1][2] && seen[2][2] == 1 && !seen[2][0] && !seen[2][1] && !gone, "each flow reaches the peer it named"); ASSERT(sids[1].size() == 1 && sids[2].size() == 1, "on one session each");
	ASSERT(f[0]->getFarCanonicalEPD() == B("B") && f[1]->getFarCanonicalEPD() == B("B") && f[2]->getFarCanonicalEPD() == B("C") && f[0]->getNearNonce() == f[1]->getNearNonce() && f[0]->getFarNonce() == f[1]->getFarNonce() && f[2]->getFarNonce() != f[0]->getFarNonce(), "which its flows share"); sym_reach("aliases");
	for(int i = 0; i < 3; i++) { e[i]->r->onRecvFlow = nullptr; f[i]->onException = nullptr; } for(auto &r : rf) r->onMessage = nullptr; rf.clear();
}
extern "C" void sym_main()
{
	if(sym_param("alias", 0)) { aliases(); sym_reach("end"); return; }
	held.clear(); gone = 0; for(int i = 0; i < 2; i++) { answers[i].clear(); in[i].clear(); fl[i].reset(); for(auto &x : got[i]) x = 0; opened[i] = 0; keyings[i].clear(); }
	{
		End a("A", 1), b("B", 2); End *e[2] = { &a, &b };
		for(int i = 0; i < 2; i++) e[i]->r->onRecvFlow = [i](std::shared_ptr<RecvFlow> r) { opened[i]++; in[i].push_back(r); r->accept(); r->onMessage = [i](const uint8_t *p, size_t n, uintmax_t, size_t) { ASSERT(n == 2 && p[0] == 'm' && p[1] < 4, "whole messages"); got[i][p[1]]++; ASSERT(got[i][p[1]] == 1, "once"); }; r->onComplete = [](bool) { gone++; }; };
		auto open = [&](int i) { fl[i] = e[i]->r->openFlow(e[1 - i]->crypto.name, B("hello")); fl[i]->addCandidateAddress((const struct sockaddr *)&e[1 - i]->addr); fl[i]->onException = [](uintmax_t) { gone++; }; Bytes m = B("m?"); m[1] = 0; fl[i]->write(m); };
		int first = sym_choice("first", 2); unsigned after = sym_choice("after", sym_param("after", 7)), fates = sym_param("fates", 3), orders = sym_param("orders", 3), kinds = sym_param("kinds", 4), steps = 0; open(first); bool both = false; Time t0 = net_now;
		auto give = [&](const Wire &w) { int to = w.to == Address((const struct sockaddr *)&b.addr); e[to]->put(w.bytes, e[1 - to]->addr, w.tos); };
		for(unsigned guard = 0; ; guard++)
		{
			ASSERT(guard < 2000, "comes to an end");
			if(!both && steps == after) { both = true; open(1 - first); }
			a.run(); b.run(); look(&a, 0); look(&b, 1);
			bool qa = a.out.size(), qb = b.out.size();
			if(qa || qb)
			{
				int from = qa ? 0 : 1; if(qa && qb && orders) { orders--; from = sym_choice("from", 2); } 
				Wire w = e[from]->out.front(); e[from]->out.pop_front(); int k = 0; steps++; if(fates) { fates--; k = sym_choice("fate", kinds); }
				for(auto &c : wire_parse(w.bytes).chunks) if(c.type == CHUNK_IIKEYING) keyings[from].push_back(w);
				auto l = held; held.clear(); if(k == 0) give(w); else if(k == 1) { sym_reach("lost"); } else if(k == 2) { give(w); give(w); sym_reach("twice"); } else { held.push_back(w); sym_reach("late"); }
				for(auto &x : l) { a.run(); b.run(); look(&a, 0); look(&b, 1); give(x); }
				continue;
			}
			if(!both) { both = true; open(1 - first); continue; }
			if(held.size()) { auto l = held; held.clear(); for(auto &x : l) give(x); continue; }
			if(got[0][0] && got[1][0] && !fates) break;
			Duration d = std::min(a.r->howLongToSleep(), b.r->howLongToSleep()); net_now += std::max(d, Duration(0.001L)); ASSERT(net_now < t0 + 60, "both flows work before long"); if(got[0][0] && got[1][0]) break;
		}
		auto shared = [&](int round)
		{
			for(int i = 0; i < 2; i++) { Bytes m = B("m?"); m[1] = round; ASSERT(fl[i]->write(m) != nullptr, "flows work"); } net_until(a, b, net_now + 12); look(&a, 0); look(&b, 1);
			ASSERT(got[0][round] == 1 && got[1][round] == 1 && !gone, "both ends' flows work"); 
			for(int i = 0; i < 2; i++) { ASSERT(opened[i] == 1 && in[i].size() == 1, "one flow arrives"); ASSERT(fl[i]->getNearNonce() == in[i][0]->getNearNonce() && fl[i]->getFarNonce() == in[i][0]->getFarNonce(), "on the session the other end's flow uses"); ASSERT(fl[i]->getNearNonce() == fl[1 - i]->getFarNonce(), "the ends agree"); ASSERT(fl[i]->getFarAddress() == Address((const struct sockaddr *)&e[1 - i]->addr) && fl[i]->getFarCanonicalEPD() == e[1 - i]->crypto.name, "with each other"); }
		};
		shared(1); Bytes nonce = fl[0]->getNearNonce(), other = fl[1]->getNearNonce(); size_t k0 = a.crypto.keys.size(), k1 = b.crypto.keys.size();
		// old keying messages come again
		if(sym_param("replay", 1)) for(int i = 0; i < 2; i++) if(keyings[i].size() && in[1 - i].size())
		{
			Wire w = keyings[i][keyings[i].size() > 1 ? sym_choice("which", 2) * (keyings[i].size() - 1) : 0]; uint32_t winner = answers[1 - i].size() && answers[0].empty() != answers[1].empty() ? 1 : 0; bool mine = answers[1 - i].size() != 0; give(w); a.run(); b.run(); look(&a, 0); look(&b, 1); (void)winner;
			if(mine) { size_t n = 0; for(auto &x : e[1 - i]->out) for(auto &c : wire_parse(x.bytes).chunks) n += c.type == CHUNK_RIKEYING; if(n) sym_reach("repeated later"); ASSERT(answers[1 - i].size() == 1, "no second session"); ASSERT(a.crypto.keys.size() == k0 && b.crypto.keys.size() == k1, "no new keys"); }
			net_quiet(a, b);
			if(mine) { shared(i + 2); ASSERT(fl[0]->getNearNonce() == nonce && fl[1]->getNearNonce() == other, "the same keys"); }
		}
		if(answers[0].size() && answers[1].size()) sym_reach("answered both ways"); if(answers[0].size() && answers[1].empty()) sym_reach("second won"); if(answers[1].size() && answers[0].empty()) sym_reach("first won");
		for(int i = 0; i < 2; i++) { e[i]->r->onRecvFlow = nullptr; fl[i]->onException = nullptr; for(auto &r : in[i]) { r->onMessage = nullptr; r->onComplete = nullptr; } in[i].clear(); fl[i].reset(); }
	}
	sym_reach("end");
}
