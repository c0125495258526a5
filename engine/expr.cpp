#include "expr.hpp"
#include <unordered_map>

std::vector<VarInfo> g_vars;
std::vector<uint64_t> g_model;
uint64_t g_stamp = 1;
ExprCtx g_ec;
Z3_context g_z3;

uint64_t foldBin(EOp op, uint64_t a, uint64_t b, unsigned w)
{
	uint64_t m = maskw(w), r = 0;
	switch(op)
	{
	case E_ADD: r = a + b; break;
	case E_SUB: r = a - b; break;
	case E_MUL: r = a * b; break;
	case E_UDIV: r = b ? a / b : m; break;
	case E_UREM: r = b ? a % b : a; break;
	case E_SDIV: { int64_t x = sx(a, w), y = sx(b, w); r = y == 0 ? (x < 0 ? 1 : m) : (y == -1 ? (uint64_t)0 - (uint64_t)x : (uint64_t)(x / y)); break; }
	case E_SREM: { int64_t x = sx(a, w), y = sx(b, w); r = y == 0 ? x : (y == -1 ? 0 : (uint64_t)(x % y)); break; }
	case E_AND: r = a & b; break;
	case E_OR: r = a | b; break;
	case E_XOR: r = a ^ b; break;
	case E_SHL: r = b >= w ? 0 : a << b; break;
	case E_LSHR: r = b >= w ? 0 : a >> b; break;
	case E_ASHR: r = (uint64_t)(sx(a, w) >> (b >= w ? w - 1 : b)); break;
	case E_EQ: return a == b;
	case E_ULT: return a < b;
	case E_ULE: return a <= b;
	case E_SLT: return sx(a, w) < sx(b, w);
	case E_SLE: return sx(a, w) <= sx(b, w);
	case E_UMULO: { unsigned __int128 p = (unsigned __int128)a * b; return p > m; }
	case E_SMULO: { __int128 p = (__int128)sx(a, w) * sx(b, w); return p != (__int128)sx((uint64_t)p & m, w); }
	default: fprintf(stderr, "foldBin op %d\n", op); abort();
	}
	return r & m;
}

Expr *mkVar(unsigned idx) { return g_ec.intern(E_VAR, g_vars[idx].w, idx); }

static Expr *tryMerge(Expr *hi, Expr *lo)
{
	if(isC(hi) && isC(lo)) return mkC((hi->c << lo->w) | lo->c, hi->w + lo->w);
	if(hi->op == E_EXTRACT)
	{
		if(lo->op == E_EXTRACT && lo->k[0] == hi->k[0] && lo->c + lo->w == hi->c) return mkExtract(hi->k[0], lo->c, hi->w + lo->w);
		if(hi->c == lo->w && (hi->k[0]->op == E_ADD || hi->k[0]->op == E_SUB || hi->k[0]->op == E_MUL || hi->k[0]->op == E_ITE) && (lo->op != E_EXTRACT || lo->k[0] != hi->k[0]))
		{
			if(mkExtract(hi->k[0], 0, lo->w) == lo) return mkExtract(hi->k[0], 0, hi->w + lo->w);
		}
	}
	return nullptr;
}

Expr *mkConcat(Expr *hi, Expr *lo)
{
	unsigned w = hi->w + lo->w;
	if(Expr *m = tryMerge(hi, lo)) return m;
	if(hi->op == E_SEXT)
	{
		Expr *x = hi->k[0];
		if(x->w > 1) return mkSExt(mkConcat(x, lo), w);
		if(lo->w > 1 && mkExtract(lo, lo->w - 1, 1) == x) return mkSExt(lo, w);
	}
	// right-nested normal form: Concat(top, rest)
	if(hi->op == E_CONCAT) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
	if(hi->op == E_ZEXT) return mkConcat(mkC(0, hi->w - hi->k[0]->w), mkConcat(hi->k[0], lo));
	if(lo->op == E_ZEXT && isC(hi) && hi->c != 0) return mkConcat(mkC(hi->c << (lo->w - lo->k[0]->w), hi->w + lo->w - lo->k[0]->w), lo->k[0]);
	if(isC(hi) && hi->c == 0) return mkZExt(lo, w);
	if(hi->op == E_ITE && w <= 64 && hi->w > 1)
	{ // a multiplexed value that went through memory byte by byte
		if(lo->op == E_ITE && lo->k[0] == hi->k[0]) return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
		if(lo->op == E_CONCAT && lo->k[0]->op == E_ITE && lo->k[0]->k[0] == hi->k[0]) return mkConcat(mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[0]->k[1]), mkConcat(hi->k[2], lo->k[0]->k[2])), lo->k[1]);
	}
	if(lo->op == E_CONCAT)
	{
		if(Expr *m = tryMerge(hi, lo->k[0])) return mkConcat(m, lo->k[1]);
	}
	if(lo->op == E_ZEXT)
		return mkConcat(hi, g_ec.intern(E_CONCAT, lo->w, 0, mkC(0, lo->w - lo->k[0]->w), lo->k[0]));
	return g_ec.intern(E_CONCAT, w, 0, hi, lo);
}

Expr *mkZExt(Expr *x, unsigned w)
{
	if(x->w == w) return x;
	if(isC(x)) return mkC(x->c, w);
	if(x->op == E_ZEXT) return mkZExt(x->k[0], w);
	if(x->op == E_CONCAT && isC(x->k[0]) && x->k[0]->c == 0) return mkZExt(x->k[1], w);
	return g_ec.intern(E_ZEXT, w, 0, x);
}

Expr *mkSExt(Expr *x, unsigned w)
{
	if(x->w == w) return x;
	if(isC(x)) return mkC((uint64_t)sx(x->c, x->w), w);
	if(x->op == E_ZEXT) return mkZExt(x->k[0], w);
	if(x->op == E_SEXT) return mkSExt(x->k[0], w);
	return g_ec.intern(E_SEXT, w, 0, x);
}

struct XK { Expr *x; uint64_t ol; bool operator==(const XK &o) const { return x == o.x && ol == o.ol; } };
struct XKH { size_t operator()(const XK &k) const { uint64_t h = ((uintptr_t)k.x >> 4) * 0x9E3779B97F4A7C15ull + k.ol * 0xff51afd7ed558ccdull; return h ^ (h >> 31); } };
static std::unordered_map<XK, Expr *, XKH> g_xmemo;
template<class F> static Expr *memoExtract(Expr *x, unsigned off, unsigned len, F f)
{
	XK k = { x, (uint64_t)off << 8 | len };
	auto it = g_xmemo.find(k); if(it != g_xmemo.end()) return it->second;
	Expr *r = f(); g_xmemo[k] = r; return r;
}

Expr *mkExtract(Expr *x, unsigned off, unsigned len)
{
	if(off == 0 && len == x->w) return x;
	switch(x->op)
	{
	case E_CONST: return mkC(x->c >> off, len);
	case E_EXTRACT: return mkExtract(x->k[0], x->c + off, len);
	case E_CONCAT:
	{
		Expr *hi = x->k[0], *lo = x->k[1];
		if(off >= lo->w) return mkExtract(hi, off - lo->w, len);
		if(off + len <= lo->w) return mkExtract(lo, off, len);
		return mkConcat(mkExtract(hi, 0, off + len - lo->w), mkExtract(lo, off, lo->w - off));
	}
	case E_ZEXT:
	{
		Expr *in = x->k[0];
		if(off >= in->w) return mkC(0, len);
		if(off + len <= in->w) return mkExtract(in, off, len);
		return mkZExt(mkExtract(in, off, in->w - off), len);
	}
	case E_SEXT:
	{
		Expr *in = x->k[0];
		if(off + len <= in->w) return mkExtract(in, off, len);
		if(off < in->w) return mkSExt(mkExtract(in, off, in->w - off), len);
		return mkSExt(mkExtract(in, in->w - 1, 1), len);
	}
	case E_AND: case E_OR: case E_XOR:
		return memoExtract(x, off, len, [&] { return mkBin(x->op, mkExtract(x->k[0], off, len), mkExtract(x->k[1], off, len)); });
	case E_ADD: case E_SUB: case E_MUL:
		if(off == 0) return memoExtract(x, off, len, [&] { return mkBin(x->op, mkExtract(x->k[0], 0, len), mkExtract(x->k[1], 0, len)); });
		break;
	case E_ITE:
		if(isC(x->k[1]) || isC(x->k[2]))
			return memoExtract(x, off, len, [&] { return mkIte(x->k[0], mkExtract(x->k[1], off, len), mkExtract(x->k[2], off, len)); });
		break;
	default: break;
	}
	return g_ec.intern(E_EXTRACT, len, off, x);
}

// decompose into pieces from least significant: (width, expr or null for zero)
static void pieces(Expr *e, std::vector<std::pair<unsigned, Expr *>> &out)
{
	if(e->op == E_CONCAT) { pieces(e->k[1], out); pieces(e->k[0], out); return; }
	if(e->op == E_ZEXT) { pieces(e->k[0], out); out.push_back({e->w - e->k[0]->w, nullptr}); return; }
	if(isC(e))
	{
		// split constant in runs of zero / nonzero
		if(e->c == 0) { out.push_back({e->w, nullptr}); return; }
		unsigned lo = __builtin_ctzll(e->c), hi = 64 - __builtin_clzll(e->c);
		if(lo) out.push_back({lo, nullptr});
		out.push_back({hi - lo, mkC(e->c >> lo, hi - lo)});
		if(hi < e->w) out.push_back({e->w - hi, nullptr});
		return;
	}
	out.push_back({e->w, e});
}

static Expr *tryDisjoint(Expr *a, Expr *b)
{
	bool sa = a->op == E_CONCAT || a->op == E_ZEXT || isC(a), sb = b->op == E_CONCAT || b->op == E_ZEXT || isC(b);
	if(!sa || !sb) return nullptr;
	std::vector<std::pair<unsigned, Expr *>> pa, pb, r;
	pieces(a, pa); pieces(b, pb);
	size_t i = 0, j = 0; unsigned oi = 0, oj = 0;
	while(i < pa.size() && j < pb.size())
	{
		unsigned la = pa[i].first - oi, lb = pb[j].first - oj, l = la < lb ? la : lb;
		if(pa[i].second && pb[j].second) return nullptr;
		if(pa[i].second) r.push_back({l, mkExtract(pa[i].second, oi, l)});
		else if(pb[j].second) r.push_back({l, mkExtract(pb[j].second, oj, l)});
		else r.push_back({l, mkC(0, l)});
		if((oi += l) == pa[i].first) { i++; oi = 0; }
		if((oj += l) == pb[j].first) { j++; oj = 0; }
	}
	Expr *acc = r[0].second;
	for(size_t n = 1; n < r.size(); n++) acc = mkConcat(r[n].second, acc);
	return acc;
}

// sums in a canonical order: sum of coefficient * term + constant
struct Lin { Expr *t[16]; uint64_t c[16]; unsigned n = 0; uint64_t k = 0; };
static bool linCollect(Expr *e, uint64_t coef, Lin &l)
{
	if(isC(e)) { l.k += coef * e->c; return true; }
	if(e->op == E_ADD) return linCollect(e->k[0], coef, l) && linCollect(e->k[1], coef, l);
	if(e->op == E_SUB) return linCollect(e->k[0], coef, l) && linCollect(e->k[1], 0 - coef, l);
	if(e->op == E_MUL && isC(e->k[1])) return linCollect(e->k[0], coef * e->k[1]->c, l);
	for(unsigned i = 0; i < l.n; i++) if(l.t[i] == e) { l.c[i] += coef; return true; }
	if(l.n == 16) return false;
	l.t[l.n] = e; l.c[l.n++] = coef; return true;
}
static Expr *linear(EOp op, Expr *a, Expr *b)
{
	auto lin = [](Expr *e) { return e->op == E_ADD || e->op == E_SUB; };
	if(!lin(a) && !lin(b)) return nullptr;
	unsigned w = a->w; uint64_t m = maskw(w); Lin l;
	if(!linCollect(a, 1, l) || !linCollect(b, op == E_ADD ? 1 : ~0ull, l)) return nullptr;
	for(unsigned i = 1; i < l.n; i++) for(unsigned j = i; j > 0 && l.t[j] < l.t[j - 1]; j--) { std::swap(l.t[j], l.t[j - 1]); std::swap(l.c[j], l.c[j - 1]); }
	Expr *acc = nullptr; 
	for(int pass = 0; pass < 2; pass++) for(unsigned i = 0; i < l.n; i++)
	{
		uint64_t c = l.c[i] & m; if(!c) continue;
		bool neg = w > 1 && (c >> (w - 1)) && c != (1ull << (w - 1)); if(neg != (pass == 1)) continue;
		uint64_t mag = neg ? (0 - c) & m : c;
		Expr *t = mag == 1 ? l.t[i] : mkBin(E_MUL, l.t[i], mkC(mag, w));
		if(!acc) acc = neg ? g_ec.intern(E_SUB, w, 0, mkC(0, w), t) : t;
		else acc = g_ec.intern(neg ? E_SUB : E_ADD, w, 0, acc, t);
	}
	l.k &= m;
	if(!acc) return mkC(l.k, w);
	if(l.k) { if(isC(acc)) return mkC(acc->c + l.k, w); acc = acc->op == E_ADD || acc->op == E_SUB ? g_ec.intern(E_ADD, w, 0, acc, mkC(l.k, w)) : mkBin(E_ADD, acc, mkC(l.k, w)); }
	return acc;
}

static bool commut(EOp op) { return op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_UMULO || op == E_SMULO; }

Expr *mkBin(EOp op, Expr *a, Expr *b)
{
	unsigned w = a->w;
	if(isC(a) && isC(b))
		return mkC(foldBin(op, a->c, b->c, w), (op == E_UMULO || op == E_SMULO) ? 1 : w);
	if(commut(op) && (isC(a) || (!isC(b) && a > b))) std::swap(a, b);
	uint64_t m = maskw(w);
	switch(op)
	{
	case E_ADD:
		if(isC(b))
		{
			if(b->c == 0) return a;
			if(a->op == E_ADD && isC(a->k[1])) return mkBin(E_ADD, a->k[0], mkC(a->k[1]->c + b->c, w));
			if(a->op == E_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkBin(E_ADD, a->k[1], b), mkBin(E_ADD, a->k[2], b));
		}
		else
		{
			if(a->op == E_ADD && isC(a->k[1])) return mkBin(E_ADD, mkBin(E_ADD, a->k[0], b), a->k[1]);
			if(b->op == E_ADD && isC(b->k[1])) return mkBin(E_ADD, mkBin(E_ADD, a, b->k[0]), b->k[1]);
			if(a->op == E_SUB && a->k[1] == b) return a->k[0];
			if(b->op == E_SUB && b->k[1] == a) return b->k[0];
		}
		if(Expr *d = tryDisjoint(a, b)) return d;
		if(Expr *d = linear(op, a, b)) return d;
		break;
	case E_SUB:
		if(a == b) return mkC(0, w);
		if(isC(b)) return mkBin(E_ADD, a, mkC(0 - b->c, w));
		if(Expr *d = linear(op, a, b)) return d;
		if(b->op == E_ADD && isC(b->k[1])) return mkBin(E_ADD, mkBin(E_SUB, a, b->k[0]), mkC(0 - b->k[1]->c, w));
		if(a->op == E_ADD && isC(a->k[1])) return mkBin(E_ADD, mkBin(E_SUB, a->k[0], b), a->k[1]);
		if(a->op == E_ADD && a->k[0] == b) return a->k[1];
		if(a->op == E_ADD && a->k[1] == b) return a->k[0];
		if(b->op == E_ADD && b->k[0] == a) return mkBin(E_SUB, mkC(0, w), b->k[1]);
		break;
	case E_MUL:
		if(isC(b))
		{
			if(b->c == 0) return b;
			if(b->c == 1) return a;
			if((b->c & (b->c - 1)) == 0) return mkBin(E_SHL, a, mkC(__builtin_ctzll(b->c), w));
		}
		break;
	case E_UDIV:
		if(isC(b) && b->c && (b->c & (b->c - 1)) == 0) return mkBin(E_LSHR, a, mkC(__builtin_ctzll(b->c), w));
		break;
	case E_UREM:
		if(isC(b) && b->c && (b->c & (b->c - 1)) == 0) return mkBin(E_AND, a, mkC(b->c - 1, w));
		break;
	case E_AND:
		if(a == b) return a;
		if(isC(b))
		{
			if(b->c == 0) return b;
			if(b->c == m) return a;
			if(a->op == E_AND && isC(a->k[1])) return mkBin(E_AND, a->k[0], mkC(a->k[1]->c & b->c, w));
			unsigned lo = __builtin_ctzll(b->c), hi = 64 - __builtin_clzll(b->c);
			if((b->c >> lo) == maskw(hi - lo))
			{
				Expr *r = mkExtract(a, lo, hi - lo);
				if(lo) r = mkConcat(r, mkC(0, lo));
				return mkZExt(r, w);
			}
			if(a->op == E_CONCAT)
			{
				unsigned lw = a->k[1]->w;
				return mkConcat(mkBin(E_AND, a->k[0], mkC(b->c >> lw, a->k[0]->w)), mkBin(E_AND, a->k[1], mkC(b->c, lw)));
			}
			if(a->op == E_ZEXT) return mkZExt(mkBin(E_AND, a->k[0], mkC(b->c, a->k[0]->w)), w);
		}
		if(w == 1)
		{
			if(a == mkNot(b)) return mkC(0, 1);
		}
		if(a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkZExt(mkBin(E_AND, a->k[0], b->k[0]), w);
		if(a->op == E_ZEXT && (b->op != E_ZEXT || b->k[0]->w > a->k[0]->w)) return mkZExt(mkBin(E_AND, a->k[0], mkExtract(b, 0, a->k[0]->w)), w);
		if(b->op == E_ZEXT) return mkZExt(mkBin(E_AND, b->k[0], mkExtract(a, 0, b->k[0]->w)), w);
		break;
	case E_OR:
		if(a == b) return a;
		if(isC(b))
		{
			if(b->c == 0) return a;
			if(b->c == m) return b;
		}
		if(w == 1 && a == mkNot(b)) return mkC(1, 1);
		if(Expr *d = tryDisjoint(a, b)) return d;
		if(a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkZExt(mkBin(E_OR, a->k[0], b->k[0]), w);
		break;
	case E_XOR:
		if(a == b) return mkC(0, w);
		if(isC(b))
		{
			if(b->c == 0) return a;
			if(w == 1) return mkNot(a);
			if(a->op == E_XOR && isC(a->k[1])) return mkBin(E_XOR, a->k[0], mkC(a->k[1]->c ^ b->c, w));
		}
		if(Expr *d = tryDisjoint(a, b)) return d;
		if(a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkZExt(mkBin(E_XOR, a->k[0], b->k[0]), w);
		break;
	case E_SHL:
		if(isC(b))
		{
			if(b->c == 0) return a;
			if(b->c >= w) return mkC(0, w);
			return mkConcat(mkExtract(a, 0, w - b->c), mkC(0, b->c));
		}
		if(isC(a) && a->c == 0) return a;
		break;
	case E_LSHR:
		if(isC(b))
		{
			if(b->c == 0) return a;
			if(b->c >= w) return mkC(0, w);
			return mkZExt(mkExtract(a, b->c, w - b->c), w);
		}
		if(isC(a) && a->c == 0) return a;
		break;
	case E_ASHR:
		if(isC(b))
		{
			if(b->c == 0) return a;
			unsigned s = b->c >= w ? w - 1 : b->c;
			return mkSExt(mkExtract(a, s, w - s), w);
		}
		break;
	case E_UMULO: case E_SMULO:
		if(isC(b) && (b->c == 0 || (op == E_UMULO && b->c == 1))) return mkC(0, 1);
		return g_ec.intern(op, 1, 0, a, b);
	default: break;
	}
	return g_ec.intern(op, w, 0, a, b);
}

Expr *mkNot(Expr *c)
{
	if(isC(c)) return mkC(!c->c, 1);
	switch(c->op)
	{
	case E_XOR: if(isC(c->k[1])) return c->k[0]; break;
	case E_ULT: return g_ec.intern(E_ULE, 1, 0, c->k[1], c->k[0]);
	case E_ULE: return g_ec.intern(E_ULT, 1, 0, c->k[1], c->k[0]);
	case E_SLT: return g_ec.intern(E_SLE, 1, 0, c->k[1], c->k[0]);
	case E_SLE: return g_ec.intern(E_SLT, 1, 0, c->k[1], c->k[0]);
	default: break;
	}
	return g_ec.intern(E_XOR, 1, 0, c, mkC(1, 1));
}

static bool pureVar(Expr *e) { for(; e->op == E_CONCAT; e = e->k[1]) if(e->k[0]->op != E_VAR) return false; return e->op == E_VAR; }
Expr *mkEq(Expr *a, Expr *b)
{
	if(a == b) return mkC(1, 1);
	if(isC(a) && isC(b)) return mkC(a->c == b->c, 1);
	if(isC(a) || (!isC(b) && a > b)) std::swap(a, b);
	if(a->w == 1 && isC(b)) return b->c ? a : mkNot(a);
	if(isC(b))
	{
		switch(a->op)
		{
		case E_ZEXT: return (b->c >> a->k[0]->w) ? mkC(0, 1) : mkEq(a->k[0], mkC(b->c, a->k[0]->w));
		case E_SEXT: { uint64_t in = b->c & maskw(a->k[0]->w); return ((uint64_t)sx(in, a->k[0]->w) & maskw(a->w)) != b->c ? mkC(0, 1) : mkEq(a->k[0], mkC(in, a->k[0]->w)); }
		case E_CONCAT: if(a->w >= 32 && pureVar(a)) break; { unsigned lw = a->k[1]->w; return mkBin(E_AND, mkEq(a->k[0], mkC(b->c >> lw, a->k[0]->w)), mkEq(a->k[1], mkC(b->c, lw))); }
		case E_ADD: if(isC(a->k[1])) return mkEq(a->k[0], mkC(b->c - a->k[1]->c, a->w)); break;
		case E_XOR: if(isC(a->k[1])) return mkEq(a->k[0], mkC(b->c ^ a->k[1]->c, a->w)); break;
		case E_SUB: if(b->c == 0) return mkEq(a->k[0], a->k[1]); if(isC(a->k[0])) return mkEq(a->k[1], mkC(a->k[0]->c - b->c, a->w)); break;
		case E_ITE:
			if(isC(a->k[1])) { if(a->k[1]->c != b->c) return mkBin(E_AND, mkNot(a->k[0]), mkEq(a->k[2], b)); else return mkBin(E_OR, a->k[0], mkEq(a->k[2], b)); }
			if(isC(a->k[2])) { if(a->k[2]->c != b->c) return mkBin(E_AND, a->k[0], mkEq(a->k[1], b)); else return mkBin(E_OR, mkNot(a->k[0]), mkEq(a->k[1], b)); }
			break;
		default: break;
		}
	}
	else
	{
		if(a->op == E_ZEXT && b->op == E_ZEXT)
		{
			if(a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
		}
		if(a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
		if(a->op == E_ADD && isC(a->k[1]) && a->k[0] == b) return mkC(0, 1);
		if(b->op == E_ADD && isC(b->k[1]) && b->k[0] == a) return mkC(0, 1);
		auto hasConst = [] (Expr *e) { for(; e->op == E_CONCAT; e = e->k[1]) if(isC(e->k[0])) return true; return isC(e) || e->op == E_ZEXT; };
		if(a->op == E_CONCAT && b->op == E_CONCAT && a->k[0]->w == b->k[0]->w && (hasConst(a) || hasConst(b)))
			return mkBin(E_AND, mkEq(a->k[0], b->k[0]), mkEq(a->k[1], b->k[1]));
	}
	return g_ec.intern(E_EQ, 1, 0, a, b);
}

static unsigned topZ(Expr *e) // known zero high bits
{
	switch(e->op)
	{
	case E_CONST: return e->c ? e->w - (64 - __builtin_clzll(e->c)) : e->w;
	case E_ZEXT: return e->w - e->k[0]->w + topZ(e->k[0]);
	case E_CONCAT: if(isC(e->k[0]) && e->k[0]->c == 0) return e->k[0]->w + topZ(e->k[1]); return topZ(e->k[0]);
	case E_AND: { unsigned a = topZ(e->k[0]), b = topZ(e->k[1]); return a > b ? a : b; }
	case E_OR: case E_XOR: { unsigned a = topZ(e->k[0]), b = topZ(e->k[1]); return a < b ? a : b; }
	case E_ITE: { unsigned a = topZ(e->k[1]), b = topZ(e->k[2]); return a < b ? a : b; }
	case E_ADD: { unsigned a = topZ(e->k[0]), b = topZ(e->k[1]); unsigned m = a < b ? a : b; return m ? m - 1 : 0; }
	case E_LSHR: return topZ(e->k[0]);
	case E_UDIV: return topZ(e->k[0]);
	default: return 0;
	}
}

Expr *mkCmp(EOp op, Expr *a, Expr *b)
{
	unsigned w = a->w; uint64_t m = maskw(w);
	if(isC(a) && isC(b)) return mkC(foldBin(op, a->c, b->c, w), 1);
	if(a == b) return mkC(op == E_ULE || op == E_SLE, 1);
	if(op == E_SLT || op == E_SLE)
	{
		if(w > 1 && topZ(a) >= 1 && topZ(b) >= 1) return mkCmp(op == E_SLT ? E_ULT : E_ULE, a, b);
		if(a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w) return mkCmp(op, a->k[0], b->k[0]);
		if(w > 1 && topZ(a) >= 1 && isC(b)) return mkC(0, 1); // b negative const
		if(w > 1 && topZ(b) >= 1 && isC(a)) return mkC(1, 1);
		if(a->op == E_SEXT && isC(b))
		{
			unsigned iw = a->k[0]->w; int64_t v = sx(b->c, w);
			int64_t mn = -(1ll << (iw - 1)), mx = (1ll << (iw - 1)) - 1;
			if(v > mx) return mkC(1, 1);
			if(v < mn) return mkC(0, 1);
			return mkCmp(op, a->k[0], mkC(v, iw));
		}
		if(b->op == E_SEXT && isC(a))
		{
			unsigned iw = b->k[0]->w; int64_t v = sx(a->c, w);
			int64_t mn = -(1ll << (iw - 1)), mx = (1ll << (iw - 1)) - 1;
			if(v < mn) return mkC(1, 1);
			if(v > mx) return mkC(0, 1);
			return mkCmp(op, mkC(v, iw), b->k[0]);
		}
		return g_ec.intern(op, 1, 0, a, b);
	}
	if(op == E_ULT)
	{
		if(isC(b) && b->c == 0) return mkC(0, 1);
		if(isC(a) && a->c == m) return mkC(0, 1);
		if(isC(b) && b->c == 1) return mkEq(a, mkC(0, w));
		if(isC(b) && b->c == m) return mkNot(mkEq(a, b));
		if(isC(a) && a->c == 0) return mkNot(mkEq(b, a));
	}
	else
	{
		if(isC(a) && a->c == 0) return mkC(1, 1);
		if(isC(b) && b->c == m) return mkC(1, 1);
		if(isC(b) && b->c == 0) return mkEq(a, b);
		if(isC(a) && a->c == m) return mkEq(b, a);
	}
	if(a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkCmp(op, a->k[0], b->k[0]);
	if(a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w) return mkCmp(op, a->k[0], b->k[0]);
	if(a->op == E_ZEXT && isC(b))
	{
		unsigned iw = a->k[0]->w;
		if(b->c > maskw(iw)) return mkC(1, 1);
		return mkCmp(op, a->k[0], mkC(b->c, iw));
	}
	if(b->op == E_ZEXT && isC(a))
	{
		unsigned iw = b->k[0]->w;
		if(a->c > maskw(iw)) return mkC(0, 1);
		return mkCmp(op, mkC(a->c, iw), b->k[0]);
	}
	{
		unsigned ta = topZ(a), tb = topZ(b);
		if(isC(b) && ta && ta < w && b->c > maskw(w - ta)) return mkC(1, 1);
		if(isC(a) && tb && tb < w && a->c > maskw(w - tb)) return mkC(0, 1);
	}
	return g_ec.intern(op, 1, 0, a, b);
}

Expr *mkIte(Expr *c, Expr *a, Expr *b)
{
	if(isC(c)) return c->c ? a : b;
	if(a == b) return a;
	if(c->op == E_XOR && isC(c->k[1])) return mkIte(c->k[0], b, a);
	if(a->w == 1)
	{
		if(isC(a)) return a->c ? mkBin(E_OR, c, b) : mkBin(E_AND, mkNot(c), b);
		if(isC(b)) return b->c ? mkBin(E_OR, mkNot(c), a) : mkBin(E_AND, c, a);
	}
	if(isC(a) && isC(b) && a->c == 1 && b->c == 0) return mkZExt(c, a->w);
	if(isC(a) && isC(b) && a->c == 0 && b->c == 1) return mkZExt(mkNot(c), a->w);
	if(a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkZExt(mkIte(c, a->k[0], b->k[0]), a->w);
	if(a->op == E_ITE && a->k[0] == c) return mkIte(c, a->k[1], b);
	if(b->op == E_ITE && b->k[0] == c) return mkIte(c, a, b->k[2]);
	return g_ec.intern(E_ITE, a->w, 0, c, a, b);
}

uint64_t evalE(Expr *e)
{
	if(e->op == E_CONST) return e->c;
	if(e->op == E_VAR) return g_model[e->c] & maskw(e->w);
	if(e->stamp == g_stamp) return e->ev;
	uint64_t r;
	switch(e->op)
	{
	case E_ZEXT: r = evalE(e->k[0]); break;
	case E_SEXT: r = (uint64_t)sx(evalE(e->k[0]), e->k[0]->w) & maskw(e->w); break;
	case E_EXTRACT: r = (evalE(e->k[0]) >> e->c) & maskw(e->w); break;
	case E_CONCAT: r = (evalE(e->k[0]) << e->k[1]->w) | evalE(e->k[1]); break;
	case E_ITE: r = evalE(e->k[0]) ? evalE(e->k[1]) : evalE(e->k[2]); break;
	default: r = foldBin(e->op, evalE(e->k[0]), evalE(e->k[1]), e->k[0]->w); break;
	}
	e->stamp = g_stamp; e->ev = r;
	return r;
}

static Z3_ast z1()
{
	static Z3_ast one;
	if(!one) { one = Z3_mk_unsigned_int64(g_z3, 1, Z3_mk_bv_sort(g_z3, 1)); Z3_inc_ref(g_z3, one); }
	return one;
}
static Z3_ast z0()
{
	static Z3_ast zero;
	if(!zero) { zero = Z3_mk_unsigned_int64(g_z3, 0, Z3_mk_bv_sort(g_z3, 1)); Z3_inc_ref(g_z3, zero); }
	return zero;
}
// the arguments of zb must be the result of the latest z3 call; z0/z1 are created beforehand by toZ3
static Z3_ast zb(Z3_ast boolean) { return Z3_mk_ite(g_z3, boolean, z1(), z0()); }

Z3_ast toZ3(Expr *e)
{
	if(e->z) return e->z;
	Z3_context c = g_z3; Z3_ast r = nullptr, a = nullptr, b = nullptr;
	z0(); z1();
	if(e->k[0]) a = toZ3(e->k[0]);
	if(e->k[1]) b = toZ3(e->k[1]);
	Z3_ast d = e->k[2] ? toZ3(e->k[2]) : nullptr;
	switch(e->op)
	{
	case E_CONST: r = Z3_mk_unsigned_int64(c, e->c, Z3_mk_bv_sort(c, e->w)); break;
	case E_VAR: { char n[32]; snprintf(n, sizeof n, "v%llu", (unsigned long long)e->c); r = Z3_mk_const(c, Z3_mk_string_symbol(c, n), Z3_mk_bv_sort(c, e->w)); break; }
	case E_ADD: r = Z3_mk_bvadd(c, a, b); break;
	case E_SUB: r = Z3_mk_bvsub(c, a, b); break;
	case E_MUL: r = Z3_mk_bvmul(c, a, b); break;
	case E_UDIV: r = Z3_mk_bvudiv(c, a, b); break;
	case E_SDIV: r = Z3_mk_bvsdiv(c, a, b); break;
	case E_UREM: r = Z3_mk_bvurem(c, a, b); break;
	case E_SREM: r = Z3_mk_bvsrem(c, a, b); break;
	case E_AND: r = Z3_mk_bvand(c, a, b); break;
	case E_OR: r = Z3_mk_bvor(c, a, b); break;
	case E_XOR: r = Z3_mk_bvxor(c, a, b); break;
	case E_SHL: r = Z3_mk_bvshl(c, a, b); break;
	case E_LSHR: r = Z3_mk_bvlshr(c, a, b); break;
	case E_ASHR: r = Z3_mk_bvashr(c, a, b); break;
	case E_EQ: r = zb(Z3_mk_eq(c, a, b)); break;
	case E_ULT: r = zb(Z3_mk_bvult(c, a, b)); break;
	case E_ULE: r = zb(Z3_mk_bvule(c, a, b)); break;
	case E_SLT: r = zb(Z3_mk_bvslt(c, a, b)); break;
	case E_SLE: r = zb(Z3_mk_bvsle(c, a, b)); break;
	case E_ZEXT: r = Z3_mk_zero_ext(c, e->w - e->k[0]->w, a); break;
	case E_SEXT: r = Z3_mk_sign_ext(c, e->w - e->k[0]->w, a); break;
	case E_EXTRACT: r = Z3_mk_extract(c, e->c + e->w - 1, e->c, a); break;
	case E_CONCAT: r = Z3_mk_concat(c, a, b); break;
	case E_ITE: r = Z3_mk_ite(c, Z3_mk_eq(c, a, z1()), b, d); break;
	case E_UMULO: r = zb(Z3_mk_not(c, Z3_mk_bvmul_no_overflow(c, a, b, false))); break;
	case E_SMULO: { Z3_ast t[2]; t[0] = Z3_mk_bvmul_no_overflow(c, a, b, true); Z3_inc_ref(c, t[0]); t[1] = Z3_mk_bvmul_no_underflow(c, a, b); Z3_inc_ref(c, t[1]); r = zb(Z3_mk_not(c, Z3_mk_and(c, 2, t))); break; }
	}
	Z3_inc_ref(c, r);
	e->z = r;
	return r;
}

std::string strE(Expr *e, int d)
{
	static const char *n[] = {"c","v","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>u",">>s","==","<u","<=u","<s","<=s","zext","sext","extract","concat","ite","umulo","smulo"};
	char b[64];
	if(e->op == E_CONST) { snprintf(b, sizeof b, "%llu:%u", (unsigned long long)e->c, e->w); return b; }
	if(e->op == E_VAR) return g_vars[e->c].name;
	if(d == 0) return "...";
	std::string r = std::string("(") + n[e->op];
	if(e->op == E_EXTRACT) { snprintf(b, sizeof b, "[%u+%u]", (unsigned)e->c, e->w); r += b; }
	for(int i = 0; i < 3 && e->k[i]; i++) r += " " + strE(e->k[i], d - 1);
	return r + ")";
}
