// C18: an object lives exactly as long as something holds it
#include "sym.h"
#include <memory>
#include <functional>
#include <vector>
#include <utility>
#include <map>
#include "rtmfp/Object.hpp"
#include "rtmfp/Retainer.hpp"
#include "rtmfp/List.hpp"
#include "rtmfp/Timer.hpp"
#include "rtmfp/WriteReceipt.hpp"
using namespace com::zenomt;
static const unsigned N = 3; static int made[N], gone[N];
struct Thing : public Object { unsigned who; Retainer<Thing> next; Thing(unsigned w) : who(w) { made[w]++; } ~Thing() { ASSERT(!gone[who], "destroyed once"); gone[who]++; } };
struct Special : public Thing { Special(unsigned w) : Thing(w) {} };
// what holds what: a table of every place an object may be held from, kept by the harness
enum { RET = 0, RETS = 3, SPEC = 3, SPECS = 1, SHA = 4, SHAS = 2, RAW = 6, RAWS = 2, TASK = 8, TIMER = 9, LIST = 10, LISTS = 3, PLACES = 13, NEXT = 13, ALL = 16 };
static Thing *model[ALL], *all[N]; static bool dead[N];
static void settle() // follow what is no longer held
{
	bool held[N] = {}; // a thing is alive while counted; cycles stay, as counting does
	for(bool again = true; again; ) { again = false; for(unsigned i = 0; i < N; i++) { if(dead[i] || !made[i]) continue; bool h = false; for(unsigned p = 0; p < ALL; p++) if(model[p] && model[p] == all[i]) h = true; held[i] = h; } for(unsigned i = 0; i < N; i++) if(made[i] && !dead[i] && !held[i]) { dead[i] = true; model[NEXT + i] = nullptr; again = true; break; } }
}
struct World
{
	Retainer<Thing> r[3]; Retainer<Special> sp; std::shared_ptr<Thing> s[2]; Thing *raw[2] = {}; Task task; std::shared_ptr<Timer> timer; TimerList timers; List<std::shared_ptr<Thing> > lis; long names[3] = {};
};
static World *w; static unsigned K = 3;
static void see(const char *why = "") { settle(); (void)why; for(unsigned i = 0; i < N; i++) ASSERT(gone[i] == int(dead[i]), dead[i] ? "destroyed when the last hold goes" : "alive while it is held"); for(unsigned i = 0; i < 3; i++) ASSERT(w->r[i].get() == model[RET + i], "a holder names what it holds"); ASSERT(w->sp.get() == model[SPEC], "a holder of another type names what it holds"); for(unsigned i = 0; i < 2; i++) ASSERT(w->s[i].get() == model[SHA + i], "a shared holder names what it holds"); }
static void step()
{
	switch(sym_choice("op", 20))
	{
	case 0: { unsigned a = sym_choice("a", K), b = sym_choice("b", K); w->r[a] = w->r[b]; model[RET + a] = model[RET + b]; } break; // also from itself
	case 1: { unsigned a = sym_choice("a", K), b = (a + 1 + sym_choice("b", K - 1)) % K; w->r[a] = std::move(w->r[b]); model[RET + a] = model[RET + b]; model[RET + b] = nullptr; } break;
	case 2: { unsigned a = sym_choice("a", K), b = sym_choice("b", K); w->r[a].swap(w->r[b]); std::swap(model[RET + a], model[RET + b]); } break;
	case 3: { unsigned a = sym_choice("a", K); w->r[a].reset(); model[RET + a] = nullptr; } break;
	case 4: { unsigned a = sym_choice("a", K); w->r[a] = nullptr; model[RET + a] = nullptr; } break;
	case 5: { unsigned k = sym_choice("a", 2), b = sym_choice("b", K); w->s[k] = share_ref(w->r[b].get()); model[SHA + k] = model[RET + b]; } break;
	case 6: { unsigned k = sym_choice("a", 2); w->s[k].reset(); model[SHA + k] = nullptr; } break;
	case 7: { unsigned a = sym_choice("a", K), k = sym_choice("b", 2); w->r[a] = retain_ref(w->s[k].get()); model[RET + a] = model[SHA + k]; } break;
	case 8: { unsigned a = sym_choice("a", K); if(sym_bool("move")) { w->r[a] = std::move(w->sp); model[RET + a] = model[SPEC]; model[SPEC] = nullptr; } else { w->r[a] = w->sp; model[RET + a] = model[SPEC]; } } break;
	case 9: { unsigned a = sym_choice("a", K), q = sym_choice("b", 2); if(w->raw[q]) { if(sym_bool("claim")) { w->r[a] = claim_ref(w->raw[q]); model[RET + a] = w->raw[q]; } else { Object::release(w->raw[q]); } w->raw[q] = nullptr; model[RAW + q] = nullptr; sym_reach("claimed"); } } break;
	case 10: { unsigned a = sym_choice("a", K), q = sym_choice("b", 2); if(!w->raw[q] && w->r[a]) { Object::retain(w->r[a].get()); w->raw[q] = w->r[a].get(); model[RAW + q] = w->raw[q]; } else if(!w->r[a]) { Object::retain(nullptr); Object::release(nullptr); } } break;
	case 11: { unsigned a = sym_choice("a", K), b = sym_choice("b", K); if(w->r[a]) { Thing *t = w->r[a].get(); t->next = w->r[b]; model[NEXT + t->who] = model[RET + b]; sym_reach("link"); } } break; // things hold things
	case 12: { unsigned a = sym_choice("a", K); if(w->r[a] && w->r[a]->next) { Thing *t = w->r[a].get(); model[RET + a] = model[NEXT + t->who]; w->r[a] = t->next; sym_reach("walk"); } } break; // r = r->next, where r may be all that holds it
	case 13: { unsigned b = sym_choice("b", K); if(sym_bool("set")) { Retainer<Thing> x(w->r[b]); w->task = [x] { ASSERT(!x || !gone[x->who], "alive while a task holds it"); }; model[TASK] = model[RET + b]; w->task(); } else { w->task = nullptr; model[TASK] = nullptr; } } break;
	case 14: { if(w->timer) { model[TIMER] = nullptr; w->timer->cancel(); w->timer.reset(); sym_reach("cancelled"); } else { unsigned b = sym_choice("b", K); Retainer<Thing> x(w->r[b]); w->timer = w->timers.schedule(10); w->timer->action = [x](const std::shared_ptr<Timer> &, Time) { ASSERT(!x || !gone[x->who], "alive while a timer holds it"); }; model[TIMER] = model[RET + b]; } } break;
	case 15: { if(w->timer) { if(sym_bool("fire")) { w->timers.fireDueTimers(20); } else w->timers.clear(); w->timer.reset(); model[TIMER] = nullptr; sym_reach("fired"); } } break;
	case 16: { unsigned k = sym_choice("a", 2); for(unsigned i = 0; i < LISTS; i++) if(!w->names[i]) { w->names[i] = sym_bool("front") ? w->lis.prepend(w->s[k]) : w->lis.append(w->s[k]); model[LIST + i] = model[SHA + k]; break; } } break;
	case 17: { unsigned i = sym_choice("a", LISTS); if(w->names[i]) { model[LIST + i] = nullptr; long n = w->names[i]; w->names[i] = 0; ASSERT(w->lis.remove(n), "removed"); sym_reach("removed"); } } break;
	case 18: { for(unsigned i = 0; i < LISTS; i++) { w->names[i] = 0; model[LIST + i] = nullptr; } w->lis.clear(); } break;
	case 19: { unsigned k = sym_choice("a", 2); unsigned a = sym_choice("b", K); w->s[k].swap(w->s[1 - k]); std::swap(model[SHA], model[SHA + 1]); Retainer<Thing> c(w->r[a]); { Retainer<Thing> d(std::move(c)); ASSERT(c.empty() && d.get() == w->r[a].get() && d == w->r[a], "moving leaves nothing behind"); } } break;
	}
	see();
}
extern "C" void sym_main()
{
	for(unsigned i = 0; i < N; i++) { made[i] = gone[i] = 0; dead[i] = false; } for(auto &m : model) m = nullptr; World world; w = &world;
	Special *sp = new Special(0); w->sp = claim_ref(sp); all[0] = sp; Thing *t1 = new Thing(1); w->r[0] = claim_ref(t1); all[1] = t1; Thing *t2 = new Thing(2); w->s[0] = share_ref(t2, false); all[2] = t2; model[SPEC] = sp; model[RET] = t1; model[SHA] = t2; see();
	switch(sym_choice("begin", 3)) { case 1: w->r[1] = w->r[0]; model[RET + 1] = t1; w->r[2] = retain_ref(w->s[0].get()); model[RET + 2] = t2; break; case 2: t1->next = retain_ref(t2); model[NEXT + 1] = t2; w->s[0].reset(); model[SHA] = nullptr; w->r[1] = w->sp; model[RET + 1] = sp; break; } see();
	unsigned n = sym_param("steps", 2); K = sym_param("operands", 3); for(unsigned i = 0; i < n; i++) step();
	for(unsigned i = 0; i < N; i++) if(!dead[i] && all[i]->next) { Thing *t = all[i]; Retainer<Thing> hold(t); t->next.reset(); model[NEXT + i] = nullptr; hold.reset(); see(); } // undo any ring
	for(unsigned q = 0; q < 2; q++) if(w->raw[q]) { Thing *t = w->raw[q]; w->raw[q] = nullptr; model[RAW + q] = nullptr; t->release(); see(); }
	for(unsigned i = 0; i < 3; i++) { w->r[i].reset(); model[RET + i] = nullptr; see(); } w->sp.reset(); model[SPEC] = nullptr; see(); for(unsigned k = 0; k < 2; k++) { w->s[k].reset(); model[SHA + k] = nullptr; see(); }
	w->task = nullptr; model[TASK] = nullptr; see(); if(w->timer) w->timer->cancel(); w->timer.reset(); model[TIMER] = nullptr; see(); w->lis.clear(); for(unsigned i = 0; i < LISTS; i++) model[LIST + i] = nullptr; see();
	for(unsigned i = 0; i < N; i++) ASSERT(gone[i] == 1, "nothing outlives its holders"); sym_reach("end");
}
