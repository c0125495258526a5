// C03: List / SumList against a plain vector of (name, value)
#include "sym.h"
#include "rtmfp/List.hpp"
#include <vector>
using namespace com::zenomt;
struct E { long name; uint16_t val; };
typedef std::vector<E> Ref;

template<class L> static void check(L &l, Ref &r)
{
	const L &cl = l;
	ASSERT(l.size() == r.size(), "size");
	ASSERT(l.empty() == r.empty(), "emptiness");
	long n = l.first(); 
	for(size_t i = 0; i < r.size(); i++)
	{
		ASSERT(n == r[i].name, "forward order");
		ASSERT(l.has(n) && l.isUsing(n), "members are present");
		ASSERT(cl.at(n) == r[i].val && l.at(n) == r[i].val, "handle designates its own value");
		n = l.next(n);
	}
	ASSERT(n == L::SENTINEL, "forward traversal ends");
	n = l.last();
	for(size_t i = r.size(); i-- > 0;) { ASSERT(n == r[i].name, "backward order"); n = l.prev(n); }
	ASSERT(n == L::SENTINEL, "backward traversal ends");
	if(!r.empty()) { ASSERT(l.firstValue() == r[0].val && l.lastValue() == r.back().val && cl.firstValue() == r[0].val && cl.lastValue() == r.back().val, "end values"); }
	for(size_t i = 0; i < r.size(); i++) for(size_t j = 0; j < i; j++) ASSERT(r[i].name != r[j].name, "handles are distinct");
}
static size_t sumOf(Ref &r) { size_t s = 0; for(size_t i = 0; i < r.size(); i++) s += r[i].val; return s; }
static void added(Ref &r, size_t pos, long name, uint16_t v) { E e = { name, v }; r.insert(r.begin() + pos, e); }
static void moveTo(Ref &r, size_t from, size_t to) { E e = r[from]; r.erase(r.begin() + from); r.insert(r.begin() + to, e); }

template<class L> static void step(L &l, Ref &r, bool summed)
{
	uint16_t v; size_t n = r.size();
	switch(sym_choice("op", summed ? 10 : 14))
	{
	case 0: v = sym_u16("v"); added(r, n, l.append(v), v); break;
	case 1: v = sym_u16("v"); added(r, 0, l.prepend(v), v); break;
	case 2: { v = sym_u16("v"); size_t p = sym_choice("pos", n + 1); added(r, p == n ? 0 : p + 1, l.addAfter(v, p == n ? 0 : r[p].name), v); break; }
	case 3: { v = sym_u16("v"); size_t p = sym_choice("pos", n + 1); added(r, p, l.addBefore(v, p == n ? 0 : r[p].name), v); break; }
	case 4: { if(!n) break; size_t p = sym_choice("pos", n); long nm = r[p].name; ASSERT(l.remove(nm), "removing a member succeeds"); r.erase(r.begin() + p); ASSERT(!l.has(nm) && !l.remove(nm) && l.next(nm) == -1 && l.prev(nm) == -1, "a removed handle designates nothing"); break; }
	case 5: ASSERT(l.removeFirst() == (n > 0), "removeFirst"); if(n) r.erase(r.begin()); break;
	case 6: ASSERT(l.removeLast() == (n > 0), "removeLast"); if(n) r.pop_back(); break;
	case 7: l.clear(); r.clear(); break;
	case 8: { if(!n) break; size_t p = sym_choice("pos", n); ASSERT(l.moveNameToHead(r[p].name), "move"); moveTo(r, p, 0); break; }
	case 9: { if(!n) break; size_t p = sym_choice("pos", n); ASSERT(l.moveNameToTail(r[p].name), "move"); moveTo(r, p, n - 1); break; }
	case 10: { if(!n) break; size_t p = sym_choice("pos", n); ASSERT(l.rotateNameToHead(r[p].name), "rotate"); Ref q; for(size_t i = 0; i < n; i++) q.push_back(r[(p + i) % n]); r = q; break; }
	case 11: { if(!n) break; size_t p = sym_choice("pos", n); ASSERT(l.rotateNameToTail(r[p].name), "rotate"); Ref q; for(size_t i = 0; i < n; i++) q.push_back(r[(p + 1 + i) % n]); r = q; break; }
	case 12: { List<uint16_t> m; m.append(7); m.appendValuesFrom(l); ASSERT(m.size() == n + 1, "appendValuesFrom size"); long k = m.next(m.first()); for(size_t i = 0; i < n; i++) { ASSERT(m.at(k) == r[i].val, "appendValuesFrom order"); k = m.next(k); } break; }
	default:
	{
		size_t i = 0; bool rv = l.valuesDo([&] (uint16_t &x) { ASSERT(x == r[i].val, "valuesDo order"); i++; return true; }); ASSERT(rv && i == n, "valuesDo visits all");
		i = 0; rv = l.safeValuesDo([&] (uint16_t &x) { ASSERT(x == r[i].val, "safeValuesDo order"); i++; l.removeFirst(); return true; }); ASSERT(rv && i == n, "safeValuesDo visits all even if members are removed");
		r.clear(); break;
	}
	}
}
// any number that is not a live handle
template<class L> static void foreign(L &l, Ref &r)
{
	long x = (long)sym_u64("name"); bool live = false;
	for(size_t i = 0; i < r.size(); i++) live = live | (r[i].name == x);
	ASSUME(!live && x != 0);
	ASSERT(!l.has(x) && !l.isUsing(x), "not a member");
	ASSERT(l.next(x) == -1 && l.prev(x) == -1, "no neighbours");
	ASSERT(!l.remove(x), "removing a non-member fails");
	ASSERT(l.addAfter(x) == -1 && l.addBefore(x) == -1, "adding beside a non-member fails");
	ASSERT(!l.moveNameToHead(x) && !l.moveNameToTail(x) && !l.rotateNameToHead(x) && !l.rotateNameToTail(x), "moving a non-member fails");
	check(l, r); sym_reach("foreign");
}
extern "C" void sym_main()
{
	unsigned ops = sym_param("ops", 2); bool summed = sym_bool("summed");
	static const unsigned pres[] = {0, 2, 13};
	unsigned pre = pres[sym_choice("pre", 3)];
	Ref r;
	if(!summed)
	{
		List<uint16_t> l(uint16_t(0xBEEF));
		for(unsigned i = 0; i < pre; i++) { uint16_t v = 100 + i; added(r, r.size(), l.append(v), v); }
		if(pre > 4) { ops = sym_param("grow", 1); for(unsigned i = 0; i < 4; i++) { uint16_t v = 200 + i; added(r, r.size(), l.append(v), v); if(i == 1) { l.remove(r[3].name); r.erase(r.begin() + 3); } } while(r.size() > 3) { l.remove(r[1].name); r.erase(r.begin() + 1); } for(unsigned i = 0; i < 14; i++) { uint16_t v = 300 + i; long nm = l.prepend(v); added(r, 0, nm, v); if(r.size() > 14) { l.removeLast(); r.pop_back(); } } while(r.size() > 3) { l.removeFirst(); r.erase(r.begin()); } }
		check(l, r);
		for(unsigned i = 0; i < ops; i++) { step(l, r, false); check(l, r); }
		foreign(l, r); sym_reach("list");
	}
	else
	{
		SumList<uint16_t> l([] (const uint16_t &v) { return (size_t)v; });
		for(unsigned i = 0; i < pre; i++) { uint16_t v = 100 + i; added(r, r.size(), l.append(v), v); }
		if(pre > 4) { ops = sym_param("grow", 1); while(r.size() > 3) { l.removeFirst(); r.erase(r.begin()); } }
		ASSERT(l.sum() == sumOf(r), "initial sum");
		for(unsigned i = 0; i < ops; i++) { step(l, r, true); check(l, r); ASSERT(l.sum() == sumOf(r), "running sum equals the sum of the members"); }
		foreign(l, r); ASSERT(l.sum() == sumOf(r), "running sum is unaffected by failed operations"); sym_reach("sumlist");
	}
}
