// C16: write receipts
#include "sym.h"
#include "rtmfp/WriteReceipt.hpp"
#include <cmath>
#include <vector>
using namespace com::zenomt;

struct Ent { std::shared_ptr<IssuerWriteReceipt> r; long double origin, startBy, finishBy; unsigned uses; bool started, abandoned, done; int parent; unsigned calls; };
static Ent e[3]; static long double now; static int reenter = -1; // a receipt that its own callback, or another's, abandons
static const unsigned N = 3;
static void callback(unsigned i, bool wasAbandoned)
{
	Ent &x = e[i]; x.calls++; ASSERT(x.calls == 1, "the fate is reported once"); ASSERT(x.done, "reported only when finished"); ASSERT(wasAbandoned == x.abandoned, "the reported fate is the fate");
	ASSERT(x.r->isFinished() && x.r->isAbandoned() == x.abandoned && x.r->isDelivered() == !x.abandoned, "the receipt agrees when asked from the callback"); x.r->abandon();
	if(reenter >= 0) { int j = reenter; reenter = -1; Ent &y = e[j]; if(y.uses && !y.abandoned) y.abandoned = y.done = true; y.r->abandon(); }
}
static void giveUp(unsigned i) { if(e[i].uses && !e[i].abandoned) { e[i].abandoned = true; e[i].done = true; } }
static void agree()
{
	for(unsigned i = 0; i < N; i++)
	{
		Ent &x = e[i]; ASSERT(x.r->isAbandoned() == x.abandoned, "abandoned"); ASSERT(x.r->isStarted() == x.started, "started"); ASSERT(x.r->isFinished() == (x.done || !x.uses), "finished"); ASSERT(x.r->isDelivered() == (!x.uses && !x.abandoned), "delivered"); ASSERT(!(x.r->isDelivered() && x.r->isAbandoned()), "never both");
		ASSERT(x.calls == (x.done ? 1 : 0), "the callback ran exactly if the message finished"); ASSERT(x.r->startBy == x.startBy && x.r->finishBy == x.finishBy, "deadlines"); ASSERT(x.r->createdAt() == x.origin, "origin"); if(x.done) ASSERT(!x.r->parent && !x.r->onFinished, "a finished receipt holds nothing");
	}
}
extern "C" void sym_main()
{
	static const long double waits[] = { INFINITY, 1, 2, 0, -1 }; now = 10; WriteReceiptChain chain; bool chained = sym_bool("chained"); std::vector<unsigned> inChain; reenter = -1;
	unsigned cfg = sym_choice("deadlines", 4); static const unsigned starts[][3] = { {0, 0, 0}, {1, 0, 0}, {2, 2, 0}, {0, 1, 0} }, finishes[][3] = { {0, 0, 0}, {0, 2, 0}, {1, 0, 0}, {0, 0, 4} };
	for(unsigned i = 0; i < N; i++)
	{
		long double s = waits[starts[cfg][i]], f = waits[finishes[cfg][i]];
		e[i] = Ent{ share_ref(new IssuerWriteReceipt(now, s, f), false), now, now + s, now + f, 0, false, false, false, -1, 0 };
		ASSERT(e[i].r->retransmit, "reliable by default"); e[i].r->onFinished = [i] (bool a) { callback(i, a); }; unsigned frags = i == 0 && cfg != 1 ? 2 : 1; while(frags--) { e[i].r->useCountUp(); e[i].uses++; }
		if(chained) { chain.append(e[i].r); if(!inChain.empty()) e[i].parent = inChain.back(); inChain.push_back(i); } else if(i == 2) { e[2].r->parent = e[0].r; e[2].parent = 0; }
	}
	agree();
	for(int step = 0; step < (int)sym_param("steps", 3); step++)
	{
		unsigned op = sym_choice("op", 8), i = op == 2 || op == 4 ? sym_choice("which", N) : op < 2 ? sym_choice("which", 2) : 0; Ent &x = e[i];
		switch(op)
		{
		case 0: if(x.uses && !x.abandoned) { x.r->start(); x.started = true; } break;
		case 1: if(x.uses) { if(x.uses == 1 && !x.abandoned) x.done = true; x.uses--; x.r->useCountDown(); } break; // a fragment is acknowledged or disposed of
		case 2: giveUp(i); x.r->abandon(); break;
		case 3: now += 1.5L; break;
		case 4: { bool was = x.abandoned; bool should = now > x.finishBy || (!x.started && now > x.startBy) || (x.parent >= 0 && !x.done && e[x.parent].abandoned); if(should && !was) giveUp(i); x.r->abandonIfNeeded(now); if(x.abandoned && !was) sym_reach("expired"); break; }
		case 5: { long double d = sym_bool("past") ? -1 : 1; if(sym_bool("finish")) { x.r->setFinishWithin(d); x.finishBy = x.origin + d; } else { x.r->setStartWithin(d); x.startBy = x.origin + d; } break; }
		case 6: if(chained) { long double s = sym_bool("soon") ? now + 1 : INFINITY, f = s < INFINITY ? s : now; if(f == s) chain.expire(s); else chain.expire(s, f); unsigned k = 0; while(k + 1 < inChain.size() && e[inChain[k]].done) k++; for(unsigned j = 0; j < inChain.size(); j++) { Ent &y = e[inChain[j]]; if(y.r->startBy != y.startBy || y.r->finishBy != y.finishBy || !y.done) { y.startBy = s < y.startBy ? s : y.startBy; y.finishBy = f < y.finishBy ? f : y.finishBy; } } inChain.clear(); sym_reach("chain"); } break;
		case 7: reenter = 1 + sym_choice("reenter", 2); break;
		}
		agree();
	}
	for(unsigned i = 0; i < N; i++) while(e[i].uses) { if(e[i].uses == 1 && !e[i].abandoned) e[i].done = true; e[i].uses--; e[i].r->useCountDown(); }
	agree(); for(auto &x : e) { ASSERT(x.calls == 1 && x.r->isFinished(), "in the end every fate was reported"); x.r.reset(); } sym_reach("end");
}
