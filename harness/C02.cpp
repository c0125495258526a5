// C02: IndexSet against set membership of an arbitrary (universally quantified) probe point
#include "sym.h"
#include "rtmfp/IndexSet.hpp"
#include <vector>
using namespace com::zenomt;

// endpoints near either end of the representable integers
static uint64_t idx(const char *name) { if(sym_param("full", 0)) return sym_u64(name); return (uint64_t)(int64_t)(int8_t)sym_u8(name); }
struct Ref { uint64_t x; bool in; };

// canonical form, and membership of x by enumeration
static void check(const IndexSet &s, Ref &r)
{
	bool first = true; uint64_t prevEnd = 0, sum = 0, lo = 0, hi = 0; size_t n = 0; bool listed = false, full = false;
	bool ok = true;
	bool rv = s.extentsDo([&] (uintmax_t f, uintmax_t t) {
		ok = ok & (f <= t);
		if(!first) ok = ok & (prevEnd < f) & (prevEnd + 1 < f); else lo = f;
		first = false; prevEnd = t; hi = t; n++;
		sum += t - f + 1; full = full | ((f == 0) & (t == UINT64_MAX));
		listed = listed | ((f <= r.x) & (r.x <= t));
		return true; });
	ASSERT(rv, "enumeration visits every range");
	ASSERT(ok, "ranges are ascending, disjoint and not adjacent");
	ASSERT(listed == r.in, "a point is a member exactly if the mathematical set has it");
	ASSERT(s.contains(r.x) == r.in, "contains() agrees with the mathematical set");
	ASSERT(s.countRanges() == n, "range count");
	ASSERT(s.empty() == (n == 0), "emptiness");
	if(n < 2) ASSERT(s.size() == (full ? UINT64_MAX : sum), "size");
	ASSERT(s.lowestIndex() == lo && s.highestIndex() == hi, "extremes");
	Range a = s.firstRange(), b = s.lastRange();
	if(n) { ASSERT(a.start == lo && b.end == hi && a.start <= a.end && b.start <= b.end && (n != 1 || (a.end == b.end && a.start == b.start)), "first and last range"); sym_reach(n == 1 ? "one" : n == 2 ? "two" : "many"); }
	else { ASSERT(a.start == 0 && a.end == 0 && b.start == 0 && b.end == 0, "empty extremes"); sym_reach("empty"); }
}

static void mutate(IndexSet &s, Ref &r, unsigned kinds)
{
	unsigned op = sym_choice("op", kinds);
	if(op < 2)
	{
		uint64_t f = idx("from"), t = idx("to");
		if(op == 0) { s.add(f, t); r.in = r.in | ((f <= r.x) & (r.x <= t)); }
		else { s.remove(f, t); r.in = r.in & !((f <= r.x) & (r.x <= t)); }
	}
	else if(op == 2) { uint64_t v = idx("index"); s.add(v); r.in = r.in | (v == r.x); }
	else if(op == 3) { uint64_t v = idx("index"); s.remove(v); r.in = r.in & (v != r.x); }
	else { s.clear(); r.in = false; }
}

static void history(unsigned n)
{
	IndexSet s; Ref r = { idx("probe"), false };
	check(s, r);
	for(unsigned i = 0; i < n; i++) { mutate(s, r, i + 1 == n ? 5 : 2); check(s, r); }
	IndexSet copy(s); check(copy, r); sym_reach("history");
}
// set operands
static void operands(unsigned n)
{
	IndexSet a, b; Ref ra = { idx("probe"), false }; Ref rb = ra;
	for(unsigned i = 0; i < n; i++) { uint64_t f = idx("from"), t = idx("to"); ASSUME(f <= t); a.add(f, t); ra.in = ra.in | ((f <= ra.x) & (ra.x <= t)); }
	for(unsigned i = 0; i < 2; i++) { uint64_t f = idx("from"), t = idx("to"); ASSUME(f <= t); b.add(f, t); rb.in = rb.in | ((f <= rb.x) & (rb.x <= t)); }
	if(sym_bool("union")) { a.add(b); ra.in = ra.in | rb.in; } else { a.remove(b); ra.in = ra.in & !rb.in; }
	check(a, ra); check(b, rb); sym_reach("operands");
}
// element enumeration, including at both ends of the representable range
static void elements()
{
	uint64_t base = sym_bool("high") ? UINT64_MAX - 9 : 0; uint16_t in = 0; IndexSet s;
	for(int i = 0; i < 2; i++)
	{
		unsigned f = sym_choice("from", 10), t = sym_choice("to", 10); 
		s.add(base + f, base + t); for(unsigned k = f; k <= t; k++) in |= 1 << k;
	}
	uint16_t seen = 0; uint64_t prev = 0; unsigned count = 0; bool any = false;
	bool rv = s.indicesDo([&] (uintmax_t i) { ASSERT(i - base < 10, "only members are enumerated"); ASSERT(!any || i > prev, "ascending"); any = true; prev = i; seen |= 1 << (i - base); count++; return true; });
	ASSERT(rv && seen == in, "every member is enumerated once"); ASSERT(s.size() == count, "size counts the members");
	unsigned stop = 0;
	rv = s.indicesDo([&] (uintmax_t) { return ++stop < 2; });
	ASSERT(rv == (count < 2), "enumeration stops when told to"); sym_reach("elements");
}
static void ranges()
{
	uint64_t a = sym_u64("a"), b = sym_u64("b"), c = sym_u64("c"), d = sym_u64("d"), x = sym_u64("x");
	ASSUME(a <= b && c <= d);
	Range r(a, b), q(c, d);
	bool xr = (a <= x) & (x <= b), xq = (c <= x) & (x <= d);
	ASSERT(r.contains(x) == xr, "range membership");
	if(!r.intersects(q)) ASSERT(!(xr & xq), "non-intersecting ranges share no point");
	else { uint64_t lo = a > c ? a : c; ASSERT(r.contains(lo) && q.contains(lo), "intersecting ranges share a point"); }
	ASSERT(r.intersects(q) == q.intersects(r), "intersection is symmetric");
	if(r.contains(q)) ASSERT(!xq | xr, "containment"); else ASSERT(!(r.contains(c) && r.contains(d)), "non-containment");
	ASSERT(r.contiguousWith(q) == (r.intersects(q) || (b != UINT64_MAX && b + 1 == c) || (d != UINT64_MAX && d + 1 == a)), "contiguity");
	ASSERT(r.size() == (a == 0 && b == UINT64_MAX ? UINT64_MAX : b - a + 1), "range size");
	Range e = r; e.extend(q); ASSERT(e.start == (a < c ? a : c) && e.end == (b > d ? b : d), "extend covers both");
	sym_reach("ranges");
}
extern "C" void sym_main()
{
	switch(sym_part(sym_param("full", 0) ? 1 : 4))
	{
	case 0: history(sym_param("ops", 4)); break;
	case 1: operands(sym_param("operands", 2)); break;
	case 2: elements(); break;
	default: ranges(); break;
	}
}
