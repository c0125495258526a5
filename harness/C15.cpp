// C15: timers
#include "sym.h"
#include "rtmfp/Timer.hpp"
#include <cmath>
#include <vector>
using namespace com::zenomt;

static const long double grid[] = { 1, 2, 3, 1.5L, 7 }; // due times
static const unsigned N = 3;
struct Ent { std::shared_ptr<Timer> t; long double due; long double recur; bool catchup, live, firing, moved; unsigned fired; };
static Ent e[8]; static unsigned count; static TimerList *list; static long double now; static std::vector<unsigned> order; static unsigned actions, wakes;
static unsigned add(long double when, long double recur, bool catchup);
static long double first() { long double f = INFINITY; for(unsigned i = 0; i < count; i++) if(e[i].live && !e[i].firing && e[i].due < f) f = e[i].due; for(unsigned i = 0; i < count; i++) if(e[i].firing && e[i].moved && e[i].live && e[i].due < f) f = e[i].due; return f; }
static void mischief(unsigned self)
{
	if(!actions) return;
	switch(sym_choice("act", 6))
	{
	case 0: return;
	case 1: actions--; e[self].t->cancel(); e[self].live = false; break;
	case 2: { actions--; unsigned o = (self + 1 + sym_choice("other", 2)) % 3; e[o].t->cancel(); e[o].live = false; break; }
	case 3: actions--; if(!e[self].live) break; e[self].t->setNextFireTime(now + 1); e[self].due = now + 1; e[self].moved = true; break;
	case 4: { actions--; unsigned o = (self + 1 + sym_choice("other", 2)) % 3; long double w = sym_bool("past") ? now : now + 1; bool was = e[o].live; e[o].t->setNextFireTime(w); if(was) e[o].due = w; break; }
	case 5: actions--; if(count < 5) add(now + (sym_bool("later") ? 1 : 0), 0, true); break;
	}
}
static void fired(unsigned i, const std::shared_ptr<Timer> &sender, long double at)
{
	ASSERT(sender == e[i].t && at == now, "a timer is told who fired and when"); ASSERT(e[i].live, "a cancelled or finished timer never fires"); ASSERT(!e[i].firing, "a firing timer does not fire again"); ASSERT(e[i].due <= now, "never early");
	for(unsigned j = 0; j < count; j++) if(j != i && e[j].live && !e[j].firing) ASSERT(e[j].due >= e[i].due, "earlier due times fire first");
	ASSERT(e[i].t->getNextFireTime() == e[i].due, "due time"); e[i].fired++; e[i].firing = true; e[i].moved = false; order.push_back(i); mischief(i); e[i].firing = false;
	if(!e[i].live || e[i].moved) return;
	if(e[i].recur > 0) { if(e[i].catchup && now > e[i].due) { while(e[i].due < now) e[i].due += e[i].recur; } else e[i].due += e[i].recur; } else e[i].live = false;
}
static unsigned add(long double when, long double recur, bool catchup)
{
	unsigned i = count++; e[i] = Ent{ nullptr, when, recur, catchup, true, false, false, 0 }; e[i].t = list->schedule([i] (const std::shared_ptr<Timer> &s, Time t) { fired(i, s, t); }, when, recur, catchup); return i;
}
extern "C" void sym_main()
{
	unsigned part = sym_part(3); count = 0; order.clear(); wakes = 0; actions = part ? 0 : sym_param("actions", 1); now = 0; list = new TimerList(); list->onHowLongToSleepDidChange = [] { wakes++; };
	ASSERT(list->howLongToNextFire(0, 5) == 5, "nothing to wait for");
	unsigned kinds = sym_choice("kinds", 4); static const long double recurs[] = { 0, 1, 2.5L };
	for(unsigned i = 0; i < N; i++)
	{
		long double before = first(); unsigned w = wakes; long double when = grid[sym_choice("when", part < 2 ? sym_param("grid", 3) : 2)]; unsigned r = i == 0 ? kinds % 3 : i == 1 ? kinds / 2 : 0; add(when, recurs[r], kinds != 3);
		ASSERT(wakes == w + (when < before), "a timer that becomes the earliest reports it"); ASSERT(e[i].t->doesRecur() == (recurs[r] > 0) && e[i].t->getRecurInterval() == recurs[r] && !e[i].t->isCanceled(), "timer settings");
	}
	if(part != 1) ; else if(sym_bool("cancel")) { unsigned i = sym_choice("which", 3); e[i].t->cancel(); e[i].live = false; ASSERT(e[i].t->isCanceled() && !e[i].t->doesRecur(), "cancelled"); e[i].t->setNextFireTime(0); }
	else if(sym_bool("move")) { unsigned i = sym_choice("which", 3); long double to = sym_bool("early") ? 0.5L : 4; unsigned w = wakes; e[i].due = INFINITY; long double others = first(); e[i].t->setNextFireTime(to); e[i].due = to; ASSERT(wakes == w + (to < others), "a timer that becomes the earliest reports it"); }
	static const long double steps[] = { 1, 2, 4.25L };
	for(int s = 0; s < (part < 2 ? (int)sym_param("advances", 2) : 1); s++)
	{
		now += steps[s ? 2 * sym_choice("advance", 2) : sym_choice("advance", 3)]; unsigned before = order.size(); size_t n = list->fireDueTimers(now);
		ASSERT(n == order.size() - before, "number of timers fired"); for(unsigned i = 0; i < count; i++) { ASSERT(!e[i].live || e[i].due > now, "every due timer has fired"); ASSERT(e[i].t->isCanceled() == !e[i].live, "finished timers are cancelled"); if(e[i].live) ASSERT(e[i].t->getNextFireTime() == e[i].due, "next due time"); }
		long double f = first() - now; ASSERT(list->howLongToNextFire(now, 5) == (f < 5 ? f : 5), "sleep until the earliest timer"); ASSERT(list->howLongToNextFire(now + 100, 5) <= 0 || first() == INFINITY, "overdue timers do not wait");
	}
	unsigned end = part == 2 ? sym_choice("end", 3) : 2, seen = order.size();
	if(end == 0) { delete list; for(unsigned i = 0; i < count; i++) { ASSERT(e[i].t->isCanceled(), "a timer is cancelled with its list"); e[i].t->cancel(); e[i].t->setNextFireTime(1); } }
	else if(end == 1) { list->clear(); list->fireDueTimers(now + 1000); ASSERT(order.size() == seen, "cleared timers do not fire"); delete list; for(unsigned i = 0; i < count; i++) { e[i].t->cancel(); e[i].t->setNextFireTime(1); } }
	else { for(unsigned i = 0; i < count; i++) { e[i].t->cancel(); e[i].live = false; } list->fireDueTimers(now + 1000); ASSERT(order.size() == seen, "cancelled timers do not fire"); ASSERT(list->howLongToNextFire(now, 3) == 3, "nothing to wait for"); delete list; }
	ASSERT(order.size() == seen, "nothing fires any more"); for(auto &x : e) x.t.reset(); sym_reach(end == 0 ? "destroyed" : end == 1 ? "cleared" : "cancelled");
}
