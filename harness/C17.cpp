// C17: reorder buffer
#include "sym.h"
#include "rtmfp/ReorderBuffer.hpp"
#include <cmath>
using namespace com::zenomt; using namespace com::zenomt::rtmfp;

static long double now; static TimerList *timers;
struct Buffer : public ReorderBuffer { using ReorderBuffer::ReorderBuffer; Time getCurrentTime() const override { return now; } std::shared_ptr<Timer> scheduleTimer(Time when) override { return timers->schedule(when); } };
static const unsigned MAX = 6;
struct Msg { uint64_t seq, last; unsigned frags, len; uint8_t bytes[2]; bool adjacent, inserted, delivered; long double at; };
// messages are numbered in the order of their sequence numbers; "adjacent": no numbers are missing before it
static Msg m[MAX]; static int n, top, skip; // top: latest delivered; skip: through which the user (or flush) gave up; -1: none
static Buffer *buf; static bool closing, dropping, closed; static std::shared_ptr<Buffer> holder; static long double period;
static bool follows(int i, int through) { return i <= through || (i == through + 1 && m[i].adjacent); }
static int chain(int through, bool held) { for(int k = through + 1; k < n && m[k].adjacent && (held ? m[k].inserted : m[k].delivered); k++) through = k; return through; }
static void put(int i) { m[i].inserted = true; m[i].at = now; uint8_t *p = new uint8_t[m[i].len]; for(unsigned k = 0; k < m[i].len; k++) p[k] = m[i].bytes[k]; buf->insert(p, m[i].len, m[i].seq, m[i].frags); delete[] p; }
static void got(const uint8_t *bytes, size_t len, uint64_t seq, size_t frags, bool late)
{
	ASSERT(!closed, "nothing after closing"); int i; for(i = 0; i < n; i++) if(m[i].inserted && m[i].seq == seq) break; ASSERT(i < n, "only inserted messages are delivered"); Msg &x = m[i];
	ASSERT(!x.delivered, "delivered once"); x.delivered = true; ASSERT(len == x.len && frags == x.frags, "size"); bool eq = true; for(unsigned k = 0; k < x.len; k++) eq = eq & (bytes[k] == x.bytes[k]); ASSERT(eq, "bytes");
	ASSERT(late == (i < top), "late exactly if a later message was delivered before");
	if(!late)
	{ // everything before it arrived, was given up, or is older than a message that has waited for the whole window
		int want = skip > top ? skip : top; for(int k = 0; k < n; k++) if(m[k].inserted && now - m[k].at >= period && k > want) want = k;
		ASSERT(follows(i, chain(want, true)), "not before an earlier one that may still arrive"); top = i;
	}
	if(closing) { closing = false; closed = true; buf->close(); if(dropping) { holder.reset(); sym_reach("dropped"); } }
}
static void quiet() // nothing is held without reason
{
	if(closed) return;
	int reach = skip > top ? skip : top;
	for(int k = 0; k < n; k++) if(m[k].inserted && !m[k].delivered) { ASSERT(!follows(k, reach), "a message whose predecessors are settled is delivered"); ASSERT(now - m[k].at < period, "held at most for the window"); }
}
static void flush() { for(int q = 0; q < n; q++) if(m[q].inserted && q > skip) skip = q; buf->flush(); if(!holder) return; for(int q = 0; q < n; q++) ASSERT(closed || !m[q].inserted || m[q].delivered, "a flush delivers everything held"); }
extern "C" void sym_main()
{
	static const long double periods[] = { INFINITY, 2, 0, 1 }; now = 100; top = skip = -1; closing = closed = false; timers = new TimerList(); unsigned pi = sym_choice("period", 3); period = periods[pi]; bool standard = pi == 0 && sym_bool("default");
	holder = standard ? share_ref(new Buffer(), false) : share_ref(new Buffer(period), false); buf = holder.get(); ASSERT(buf->getReorderWindowPeriod() == period, "window"); buf->onMessage = got;
	n = sym_param("messages", 3); uint64_t last = 0; int big = sym_param("anyfrag", 0) ? sym_choice("fragmented", n) : 1;
	for(int i = 0; i < n; i++)
	{
		Msg &x = m[i]; x.frags = i == big ? sym_choice("fragments", 3) : 1; x.adjacent = sym_bool("adjacent"); if(x.adjacent) x.seq = last + 1; else { x.seq = sym_u64("seq"); ASSUME(x.seq > last + 1 && x.seq < 1ull << 62); }
		last = x.last = x.seq + (x.frags ? x.frags - 1 : 0); x.len = i == 0 ? 2 : 1; sym_bytes("bytes", x.bytes, x.len); x.inserted = x.delivered = false;
	}
	unsigned how = sym_choice("special", 3); // 1: close from the callback, 2: change the window
	dropping = false; if(how == 1) { closing = true; dropping = sym_bool("dropping"); }
	int events = sym_param("events", 1), left = n;
	for(int k = 0; left && !closed; k++)
	{
		int pick = sym_choice("arrival", left), i; for(i = 0; ; i++) if(!m[i].inserted) { if(!pick) break; pick--; }
		put(i); timers->fireDueTimers(now); quiet(); if(closed) break; left--;
		if(left && events) switch(sym_choice("event", 4))
		{
		case 1: events--; now += 1; timers->fireDueTimers(now); quiet(); sym_reach("wait"); break;
		case 2: events--; skip = skip > 0 ? skip : 0; buf->deliverThrough(m[0].last); quiet(); sym_reach("skip"); break;
		case 3: events--; flush(); sym_reach("flush"); break;
		}
		if(closed) break;
		if(how == 2 && k == 0) { period = 1; buf->setReorderWindowPeriod(period); ASSERT(buf->getReorderWindowPeriod() == 1, "window"); timers->fireDueTimers(now); quiet(); }
	}
	if(!closed) switch(sym_choice("finish", 3))
	{
	case 0: if(period < INFINITY) { now += 3; timers->fireDueTimers(now); quiet(); for(int q = 0; q < n; q++) ASSERT(closed || m[q].delivered, "after the window everything is delivered"); sym_reach("expire"); } break;
	case 1: closed = true; buf->close(); buf->flush(); sym_reach("close"); break;
	case 2: flush(); sym_reach("end"); break;
	}
	if(closed) { sym_reach("closed"); now += 10; timers->fireDueTimers(now); if(holder) buf->flush(); }
	holder.reset(); now += 100; timers->fireDueTimers(now); delete timers;
}
