// ---------------------------------------------------------------- interpreter
void pathSample();
static inline Val getOp(const Frame &fr, int o) { return o >= 0 ? fr.regs[o] : fr.f->consts[-1 - o]; }

// floating point helpers (kind 1 float, 2 double, 3 x86_fp80)
static long double getF(const Val &v, unsigned k)
{
	if(k == 1) { uint32_t x = v.lo; float f; memcpy(&f, &x, 4); return f; }
	if(k == 2) { double d; memcpy(&d, &v.lo, 8); return d; }
	long double l = 0; memcpy(&l, &v.lo, 8); memcpy((char *)&l + 8, &v.hi, 2); return l;
}
static Val putF(long double x, unsigned k)
{
	Val v{0, 0, nullptr};
	if(k == 1) { float f = x; uint32_t u; memcpy(&u, &f, 4); v.lo = u; }
	else if(k == 2) { double d = x; memcpy(&v.lo, &d, 8); }
	else { memcpy(&v.lo, &x, 8); memcpy(&v.hi, (char *)&x + 8, 2); }
	return v;
}
static Val fpBin(Opc op, const Val &a, const Val &b, unsigned k)
{
	if(k == 1)
	{
		float x = getF(a, 1), y = getF(b, 1), r = 0; switch(op) { case I_FADD: r = x + y; break; case I_FSUB: r = x - y; break; case I_FMUL: r = x * y; break; case I_FDIV: r = x / y; break; default: r = fmodf(x, y); }
		return putF(r, 1);
	}
	if(k == 2)
	{
		double x = getF(a, 2), y = getF(b, 2), r = 0; switch(op) { case I_FADD: r = x + y; break; case I_FSUB: r = x - y; break; case I_FMUL: r = x * y; break; case I_FDIV: r = x / y; break; default: r = fmod(x, y); }
		return putF(r, 2);
	}
	long double x = getF(a, 3), y = getF(b, 3), r = 0; switch(op) { case I_FADD: r = x + y; break; case I_FSUB: r = x - y; break; case I_FMUL: r = x * y; break; case I_FDIV: r = x / y; break; default: r = fmodl(x, y); }
	return putF(r, 3);
}
static bool fpCmp(unsigned pred, long double x, long double y)
{
	bool un = std::isnan(x) || std::isnan(y), eq = !un && x == y, lt = !un && x < y, gt = !un && x > y;
	// LLVM predicate bits: 1 = oeq, 2 = ogt, 4 = olt, 8 = uno
	return ((pred & 1) && eq) || ((pred & 2) && gt) || ((pred & 4) && lt) || ((pred & 8) && un);
}
static Expr *fpCmpE(unsigned pred, Expr *a, Expr *b)
{
	unsigned w = a->w, mb = w == 32 ? 23 : 52;
	Expr *am = mkExtract(a, 0, w - 1), *bm = mkExtract(b, 0, w - 1), *inf = mkC(((1ull << (w - 1 - mb)) - 1) << mb, w - 1);
	Expr *un = mkBin(E_OR, mkCmp(E_ULT, inf, am), mkCmp(E_ULT, inf, bm));
	Expr *as = mkExtract(a, w - 1, 1), *bs = mkExtract(b, w - 1, 1), *z = mkC(0, w - 1);
	Expr *bothz = mkBin(E_AND, mkEq(am, z), mkEq(bm, z));
	Expr *eq = mkBin(E_OR, bothz, mkEq(a, b));
	// a < b ignoring nan and both zero
	Expr *lt = mkIte(as, mkIte(bs, mkCmp(E_ULT, bm, am), mkC(1, 1)), mkIte(bs, mkC(0, 1), mkCmp(E_ULT, am, bm)));
	lt = mkBin(E_AND, lt, mkNot(eq));
	Expr *gt = mkBin(E_AND, mkNot(lt), mkNot(eq));
	Expr *r = mkC(0, 1), *ord = mkNot(un);
	if(pred & 1) r = mkBin(E_OR, r, mkBin(E_AND, ord, eq));
	if(pred & 2) r = mkBin(E_OR, r, mkBin(E_AND, ord, gt));
	if(pred & 4) r = mkBin(E_OR, r, mkBin(E_AND, ord, lt));
	if(pred & 8) r = mkBin(E_OR, r, un);
	return r;
}
// double -> integer truncation of the magnitude, as in cvttsd2si (defined only when in range)
static Expr *fpToIntE(Expr *d, unsigned w, bool sgn)
{
	Expr *man = mkZExt(mkExtract(d, 0, 52), 64); man = mkBin(E_OR, man, mkC(1ull << 52, 64));
	Expr *ex = mkZExt(mkExtract(d, 52, 11), 64);
	Expr *small = mkCmp(E_ULT, ex, mkC(1023, 64));
	Expr *r = mkIte(mkCmp(E_ULE, ex, mkC(1075, 64)), mkBin(E_LSHR, man, mkBin(E_SUB, mkC(1075, 64), ex)), mkBin(E_SHL, man, mkBin(E_SUB, ex, mkC(1075, 64))));
	r = mkIte(small, mkC(0, 64), r);
	r = mkIte(mkCmp(E_ULT, mkC(1086, 64), ex), mkC(1ull << 63, 64), r);
	Expr *neg = mkExtract(d, 63, 1);
	r = mkIte(neg, mkBin(E_SUB, mkC(0, 64), r), r);
	(void)sgn;
	return w < 64 ? mkExtract(r, 0, w) : r;
}
// unsigned integer (value < 2^53) -> double bits
static Expr *intToFpE(Expr *x)
{
	Expr *v = x->w < 64 ? mkZExt(x, 64) : x; Expr *r = mkC(0, 64);
	for(unsigned b = 0; b < 53 && b < x->w; b++)
	{
		// highest set bit is b
		Expr *m = mkBin(E_AND, mkBin(E_SHL, v, mkC(52 - b, 64)), mkC((1ull << 52) - 1, 64));
		r = mkIte(mkExtract(v, b, 1), mkBin(E_OR, m, mkC((u64)(1023 + b) << 52, 64)), r);
	}
	return r;
}
static Expr *dblToFloatE(Expr *d) { (void)d; return nullptr; }

typedef void (*ExtFn)(const Inst &, Val *, int, Val *);
struct Ext { const char *name; ExtFn fn; };
static Expr *bytesCmp(u64 a, u64 b, u64 n)
{
	Expr *r = mkC(0, 32);
	for(u64 i = n; i-- > 0;)
	{
		Expr *x = byteE(a + i), *y = byteE(b + i);
		if(isC(x) && isC(y)) { if(x->c != y->c) r = mkC(x->c < y->c ? -1 : 1, 32); continue; }
		r = mkIte(mkEq(x, y), r, mkIte(mkCmp(E_ULT, x, y), mkC(-1, 32), mkC(1, 32)));
	}
	return r;
}
static std::string cstr(u64 a)
{
	std::string r;
	for(;; a++) { if(!accessible(a, 1, false)) memViolation(a, 1, false); Expr *e = byteE(a); u64 c = concretize(e, "C string"); if(!c) return r; r += (char)c; if(r.size() > 100000) engineError("string too long"); }
}
static inline u64 arg(Val *a, int i, const char *why = "external argument") { return conc(a[i], why); }

static void x_nop(const Inst &, Val *, int, Val *r) { r[0] = V(0); }
static void x_memcpy(const Inst &, Val *a, int, Val *r) { u64 d = arg(a, 0), s = arg(a, 1), n = arg(a, 2, "memcpy length"); copyMem(d, s, n); r[0] = V(d); }
static void x_memset(const Inst &, Val *a, int, Val *r)
{
	u64 d = arg(a, 0), n = arg(a, 2, "memset length"); need(d, n, true);
	Expr *b = toE(a[1], 8); if(b->w > 8) b = mkExtract(b, 0, 8);
	if(isC(b)) { memset((void *)d, b->c, n); memset(&st(d), M_INIT, n); } else for(u64 i = 0; i < n; i++) { st(d + i) = M_SYM; sh(d + i) = b; }
	r[0] = V(d);
}
static void x_memcmp(const Inst &, Val *a, int, Val *r) { u64 p = arg(a, 0), q = arg(a, 1), n = arg(a, 2, "memcmp length"); need(p, n, false); need(q, n, false); r[0] = fromE(bytesCmp(p, q, n)); }
static void x_malloc(const Inst &, Val *a, int, Val *r) { r[0] = V(heapAlloc(arg(a, 0, "allocation size"), 1)); }
static void x_calloc(const Inst &, Val *a, int, Val *r) { u64 n = arg(a, 0, "allocation size") * arg(a, 1, "allocation size"); u64 p = heapAlloc(n, 1); memset((void *)p, 0, n); memset(&st(p), M_INIT, n); r[0] = V(p); }
static void x_realloc(const Inst &, Val *a, int, Val *r)
{
	u64 o = arg(a, 0), n = arg(a, 1, "allocation size"); u64 p = heapAlloc(n, 1);
	if(o) { Alloc *q = findAlloc(o); if(!q || !q->live) memViolation(o, 1, true); copyMem(p, o, std::min<u64>(n, q->size)); heapFree(o, 1); }
	r[0] = V(p);
}
static void x_new(const Inst &, Val *a, int, Val *r) { r[0] = V(heapAlloc(arg(a, 0, "allocation size"), 0)); }
static void x_free(const Inst &, Val *a, int, Val *) { heapFree(arg(a, 0), 1); }
static void x_delete(const Inst &, Val *a, int, Val *) { heapFree(arg(a, 0), 0); }
static const char *curExtName = "";
static void x_fatal(const Inst &, Val *, int, Val *) { reportViolation("abort", std::string("reached ") + curExtName); }
static void x_throw(const Inst &, Val *a, int, Val *)
{
	std::string m = curExtName;
	reportViolation("exception", "uncaught exception raised by " + m); (void)a;
}
static void x_symbytes(const Inst &, Val *a, int, Val *)
{
	std::string nm = cstr(arg(a, 0)); u64 p = arg(a, 1), n = arg(a, 2); need(p, n, true);
	SymGroup g{nm, (unsigned)n, (int)g_vars.size(), false};
	for(u64 i = 0; i < n; i++)
	{
		unsigned idx = g_vars.size(); g_vars.push_back({nm + "_" + std::to_string(groups.size()) + "_" + std::to_string(i), 8, false, (int)groups.size(), (int)i}); g_model.push_back(0);
		st(p + i) = M_SYM; sh(p + i) = mkVar(idx);
	}
	groups.push_back(g);
}
// A fresh byte with no constraint but its range: every value is feasible with whatever is asserted, so the interval decides when SX_CHOICE=range is asked for.
static void doAssume(Expr *c);
static void x_choice(const Inst &, Val *a, int, Val *r)
{
	std::string nm = cstr(arg(a, 0)); u64 n = arg(a, 1);
	unsigned idx = g_vars.size(); g_vars.push_back({nm + "_" + std::to_string(groups.size()) + "_0", 8, false, (int)groups.size(), 0}); g_model.push_back(0);
	groups.push_back(SymGroup{nm, 1u, (int)idx, false});
	S->concretizations++;
	if(!opt.rangeChoice) { Expr *e = mkVar(idx); doAssume(mkCmp(E_ULT, e, mkC(n, 8))); r[0] = V(concretize(e, "choice")); return; }
	u64 v = 0;
	for(; v + 1 < n; v++) { S->symBranches++; S->rangeDecided++; if(!doFork()) break; }
	std::vector<u64> m = g_model; m[idx] = v; setModel(m);
	assertPC(mkEq(mkVar(idx), mkC(v, 8)));
	r[0] = V(v);
}
static void doAssume(Expr *c)
{
	if(isC(c)) { if(!c->c) { S->assumeCut++; pathEnd(); } return; }
	auto it = known.find(c); if(it != known.end()) { if(!it->second) { S->assumeCut++; pathEnd(); } return; }
	if(!evalE(c))
	{
		std::vector<u64> m; int r = checkSat(c, &m);
		if(r == 0) { S->assumeCut++; pathEnd(); }
		if(r < 0) engineError("solver answered unknown (assume)");
		setModel(m);
	}
	assertPC(c);
}
static void x_assume(const Inst &, Val *a, int, Val *) { Expr *e = toE(a[0], 32); doAssume(mkNot(mkEq(e, mkC(0, e->w)))); }
static void x_assert(const Inst &, Val *a, int, Val *)
{
	S->asserts++;
	Expr *e = toE(a[0], 32); Expr *c = mkNot(mkEq(e, mkC(0, e->w)));
	if(isC(c)) { if(!c->c) reportViolation("assertion", cstr(arg(a, 1))); return; }
	auto it = known.find(c); if(it != known.end() && it->second) return;
	if(c->uninit) checkUninit(c, "asserted condition");
	S->symAsserts++;
	{ u64 lo, hi; rng(c, lo, hi); if(lo == hi && lo) { known[c] = 1; known[mkNot(c)] = 0; S->rangeDecided++; return; } }
	if(!evalE(c)) reportViolation("assertion", cstr(arg(a, 1)));
	std::vector<u64> m; int r = checkSat(mkNot(c), &m);
	if(r < 0) engineError("solver answered unknown (assert)");
	if(r == 1) { setModel(m); reportViolation("assertion", cstr(arg(a, 1))); }
	known[c] = 1; known[mkNot(c)] = 0;
}
static void x_reach(const Inst &, Val *a, int, Val *)
{
	std::string n = cstr(arg(a, 0)).substr(0, 63);
	for(int i = 0; i < MAXREACH; i++)
	{
		if(!S->reachNames[i][0])
		{
			pthread_mutex_lock(&S->mu);
			if(!S->reachNames[i][0]) strcpy(S->reachNames[i], n.c_str());
			pthread_mutex_unlock(&S->mu);
		}
		if(n == S->reachNames[i]) { S->reachCount[i]++; return; }
	}
}
static void x_conc(const Inst &, Val *a, int, Val *r) { r[0] = V(arg(a, 0, "sym_concretize")); }
static void x_heaplive(const Inst &, Val *, int, Val *r) { r[0] = V(liveAllocs); }
static void x_tier(const Inst &, Val *, int, Val *r) { r[0] = V(opt.tier); }
static void x_param(const Inst &, Val *a, int, Val *r)
{
	std::string n = cstr(arg(a, 0)) + "=";
	for(auto &p : opt.params) if(p.compare(0, n.size(), n) == 0) { r[0] = V((u64)strtoll(p.c_str() + n.size(), 0, 0)); return; }
	r[0] = V(arg(a, 1));
}
static void x_zero(const Inst &, Val *, int, Val *r) { r[0] = V(0); }
static void x_note(const Inst &, Val *a, int, Val *) { if(opt.verbose) { std::string n = cstr(arg(a, 0)); if(a[1].e) fprintf(stderr, "note %s %s\n", n.c_str(), strE(a[1].e, 4).c_str()); else fprintf(stderr, "note %s %lld\n", n.c_str(), (long long)a[1].lo); } }
static void x_issym(const Inst &, Val *a, int, Val *r) { r[0] = V(a[0].e != nullptr); }

static void x_ovf(const Inst &i, Val *a, int, Val *r, int kind)
{
	unsigned w = i.w;
	if(!a[0].e && !a[1].e)
	{
		u64 x = a[0].lo, y = a[1].lo, m = maskw(w); __int128 sxv = sx(x, w), syv = sx(y, w); u128 ux = x, uy = y; bool o; u64 v;
		switch(kind)
		{
		case 0: { u128 t = ux + uy; v = t & m; o = t != v; break; }
		case 1: v = (x - y) & m; o = x < y; break;
		case 2: { u128 t = ux * uy; v = (u64)t & m; o = t != v; break; }
		case 3: { __int128 t = sxv + syv; v = (u64)t & m; o = t != sx(v, w); break; }
		case 4: { __int128 t = sxv - syv; v = (u64)t & m; o = t != sx(v, w); break; }
		default: { __int128 t = sxv * syv; v = (u64)t & m; o = t != sx(v, w); break; }
		}
		r[0] = V(v); r[1] = V(o); return;
	}
	Expr *x = toE(a[0], w), *y = toE(a[1], w), *v, *o; Expr *z = mkC(0, w);
	switch(kind)
	{
	case 0: v = mkBin(E_ADD, x, y); o = mkCmp(E_ULT, v, x); break;
	case 1: v = mkBin(E_SUB, x, y); o = mkCmp(E_ULT, x, y); break;
	case 2: v = mkBin(E_MUL, x, y); o = mkBin(E_UMULO, x, y); break;
	case 3: { v = mkBin(E_ADD, x, y); Expr *sxn = mkCmp(E_SLT, x, z), *syn = mkCmp(E_SLT, y, z), *svn = mkCmp(E_SLT, v, z); o = mkBin(E_AND, mkEq(sxn, syn), mkNot(mkEq(sxn, svn))); break; }
	case 4: { v = mkBin(E_SUB, x, y); Expr *sxn = mkCmp(E_SLT, x, z), *syn = mkCmp(E_SLT, y, z), *svn = mkCmp(E_SLT, v, z); o = mkBin(E_AND, mkNot(mkEq(sxn, syn)), mkNot(mkEq(sxn, svn))); break; }
	default: v = mkBin(E_MUL, x, y); o = mkBin(E_SMULO, x, y); break;
	}
	r[0] = fromE(v); r[1] = fromE(o);
}
#define OVF(n, k) static void n(const Inst &i, Val *a, int c, Val *r) { x_ovf(i, a, c, r, k); }
OVF(x_uaddo, 0) OVF(x_usubo, 1) OVF(x_umulo, 2) OVF(x_saddo, 3) OVF(x_ssubo, 4) OVF(x_smulo, 5)
// a multiplexer, unless the condition cheaply follows from the path so far
static Expr *iteSel(Expr *c, Expr *a, Expr *b)
{
	if(isC(c)) return c->c ? a : b;
	auto it = known.find(c); if(it != known.end()) return it->second ? a : b;
	u64 lo, hi; rng(c, lo, hi); if(lo == hi) { known[c] = lo; known[mkNot(c)] = !lo; return lo ? a : b; }
	if(a->w >= 32 && ord::orderWorth(c, 2))
	{
		bool mv = evalE(c); Expr *other = mv ? mkNot(c) : c; std::vector<Expr *> sl; slice(other, sl);
		if(ord::unsatQuery(other, sl)) { S->orderHits++; known[c] = mv; known[mkNot(c)] = !mv; return mv ? a : b; }
	}
	return mkIte(c, a, b);
}
static void x_minmax(const Inst &i, Val *a, Val *r, EOp cmp, bool mx)
{
	Expr *x = toE(a[0], i.w), *y = toE(a[1], i.w); Expr *lt = mkCmp(cmp, x, y);
	r[0] = fromE(mx ? iteSel(lt, y, x) : iteSel(lt, x, y));
}
static void x_umin(const Inst &i, Val *a, int, Val *r) { x_minmax(i, a, r, E_ULT, false); }
static void x_umax(const Inst &i, Val *a, int, Val *r) { x_minmax(i, a, r, E_ULT, true); }
static void x_smin(const Inst &i, Val *a, int, Val *r) { x_minmax(i, a, r, E_SLT, false); }
static void x_smax(const Inst &i, Val *a, int, Val *r) { x_minmax(i, a, r, E_SLT, true); }
static void x_abs(const Inst &i, Val *a, int, Val *r) { Expr *x = toE(a[0], i.w); r[0] = fromE(mkIte(mkCmp(E_SLT, x, mkC(0, i.w)), mkBin(E_SUB, mkC(0, i.w), x), x)); }
static void x_bswap(const Inst &i, Val *a, int, Val *r)
{
	Expr *x = toE(a[0], i.w), *acc = nullptr;
	for(unsigned b = 0; b < i.w / 8; b++) { Expr *e = mkExtract(x, b * 8, 8); acc = acc ? mkConcat(acc, e) : e; }
	r[0] = fromE(acc);
}
static void x_ctpop(const Inst &i, Val *a, int, Val *r)
{
	if(!a[0].e) { r[0] = V(__builtin_popcountll(a[0].lo)); return; }
	Expr *acc = mkC(0, i.w); for(unsigned b = 0; b < i.w; b++) acc = mkBin(E_ADD, acc, mkZExt(mkExtract(a[0].e, b, 1), i.w)); r[0] = fromE(acc);
}
static void x_ctlz(const Inst &i, Val *a, int, Val *r)
{
	Expr *x = toE(a[0], i.w), *acc = mkC(i.w, i.w); for(unsigned b = 0; b < i.w; b++) acc = mkIte(mkExtract(x, b, 1), mkC(i.w - 1 - b, i.w), acc); r[0] = fromE(acc);
}
static void x_cttz(const Inst &i, Val *a, int, Val *r)
{
	Expr *x = toE(a[0], i.w), *acc = mkC(i.w, i.w); for(unsigned b = i.w; b-- > 0;) acc = mkIte(mkExtract(x, b, 1), mkC(b, i.w), acc); r[0] = fromE(acc);
}
static void x_fsh(const Inst &i, Val *a, Val *r, bool left)
{
	Expr *x = toE(a[0], i.w), *y = toE(a[1], i.w), *s = toE(a[2], i.w); unsigned w = i.w;
	s = mkBin(E_UREM, s, mkC(w, w)); Expr *inv = mkBin(E_SUB, mkC(w, w), s); Expr *z = mkEq(s, mkC(0, w));
	Expr *v = left ? mkIte(z, x, mkBin(E_OR, mkBin(E_SHL, x, s), mkBin(E_LSHR, y, inv))) : mkIte(z, y, mkBin(E_OR, mkBin(E_SHL, x, inv), mkBin(E_LSHR, y, s)));
	r[0] = fromE(v);
}
static void x_fshl(const Inst &i, Val *a, int, Val *r) { x_fsh(i, a, r, true); }
static void x_fshr(const Inst &i, Val *a, int, Val *r) { x_fsh(i, a, r, false); }
static void x_uaddsat(const Inst &i, Val *a, int, Val *r) { Expr *x = toE(a[0], i.w), *y = toE(a[1], i.w), *v = mkBin(E_ADD, x, y); r[0] = fromE(mkIte(mkCmp(E_ULT, v, x), mkC(~0ull, i.w), v)); }
static void x_usubsat(const Inst &i, Val *a, int, Val *r) { Expr *x = toE(a[0], i.w), *y = toE(a[1], i.w); r[0] = fromE(mkIte(mkCmp(E_ULT, x, y), mkC(0, i.w), mkBin(E_SUB, x, y))); }
static void fconc(Val &v) { if(v.e) conc(v, "floating point operand"); }
#define FP1(n, expr) static void n(const Inst &i, Val *a, int, Val *r) { fconc(a[0]); long double x = getF(a[0], i.sub); r[0] = putF((expr), i.sub); }
FP1(x_fabs, fabsl(x)) FP1(x_floor, floorl(x)) FP1(x_ceil, ceill(x)) FP1(x_trunc, truncl(x)) FP1(x_round, roundl(x)) FP1(x_rint, rintl(x))
static void x_sqrt(const Inst &i, Val *a, int, Val *r) { fconc(a[0]); long double x = getF(a[0], i.sub); r[0] = i.sub == 1 ? putF(sqrtf(x), 1) : i.sub == 2 ? putF(sqrt((double)x), 2) : putF(sqrtl(x), 3); }
static void x_exp(const Inst &i, Val *a, int, Val *r) { fconc(a[0]); long double x = getF(a[0], i.sub); r[0] = i.sub == 2 ? putF(exp((double)x), 2) : putF(expl(x), i.sub); }
static void x_pow(const Inst &i, Val *a, int, Val *r) { fconc(a[0]); fconc(a[1]); long double x = getF(a[0], i.sub), y = getF(a[1], i.sub); r[0] = i.sub == 2 ? putF(pow((double)x, (double)y), 2) : putF(powl(x, y), i.sub); }
static void x_log(const Inst &i, Val *a, int, Val *r) { fconc(a[0]); long double x = getF(a[0], i.sub); r[0] = i.sub == 2 ? putF(log((double)x), 2) : putF(logl(x), i.sub); }
static void x_cbrt(const Inst &i, Val *a, int, Val *r) { fconc(a[0]); long double x = getF(a[0], i.sub); r[0] = i.sub == 2 ? putF(cbrt((double)x), 2) : putF(cbrtl(x), i.sub); }
static void x_fmuladd(const Inst &i, Val *a, int, Val *r) { for(int k = 0; k < 3; k++) fconc(a[k]); Val m = fpBin(I_FMUL, a[0], a[1], i.sub); r[0] = fpBin(I_FADD, m, a[2], i.sub); }
static void x_fmin(const Inst &i, Val *a, int, Val *r) { fconc(a[0]); fconc(a[1]); r[0] = putF(fminl(getF(a[0], i.sub), getF(a[1], i.sub)), i.sub); }
static void x_fmax(const Inst &i, Val *a, int, Val *r) { fconc(a[0]); fconc(a[1]); r[0] = putF(fmaxl(getF(a[0], i.sub), getF(a[1], i.sub)), i.sub); }
static void x_fmod(const Inst &i, Val *a, int, Val *r) { fconc(a[0]); fconc(a[1]); r[0] = fpBin(I_FREM, a[0], a[1], i.sub); }
static void x_copysign(const Inst &i, Val *a, int, Val *r) { fconc(a[0]); fconc(a[1]); r[0] = putF(copysignl(getF(a[0], i.sub), getF(a[1], i.sub)), i.sub); }
static void x_fpclass(const Inst &i, Val *a, int n, Val *r)
{
	(void)n; u64 mask = a[1].lo; fconc(a[0]); long double x = getF(a[0], i.sub); u64 c = 0;
	bool sub = i.sub == 1 ? std::fpclassify((float)x) == FP_SUBNORMAL : i.sub == 2 ? std::fpclassify((double)x) == FP_SUBNORMAL : std::fpclassify(x) == FP_SUBNORMAL;
	if(std::isnan(x)) c |= 3; else if(std::isinf(x)) c |= x < 0 ? 4 : 0x200; else if(x == 0) c |= std::signbit(x) ? 0x20 : 0x40; else if(sub) c |= x < 0 ? 0x10 : 0x80; else c |= x < 0 ? 8 : 0x100;
	r[0] = V((mask & c) != 0);
}
static void x_objsize(const Inst &i, Val *, int, Val *r) { r[0] = V(maskw(i.w)); }
static void x_atexit(const Inst &, Val *, int, Val *r) { r[0] = V(0); }
static void x_guardacq(const Inst &, Val *a, int, Val *r) { u64 g = arg(a, 0); need(g, 1, true); r[0] = V(*(uint8_t *)g ? 0 : 1); }
static void x_guardrel(const Inst &, Val *a, int, Val *) { u64 g = arg(a, 0); *(uint8_t *)g = 1; st(g) = M_INIT; }
static u64 errnoAddr = 0;
static void x_errno(const Inst &, Val *, int, Val *r) { r[0] = V(errnoAddr); }
static void x_one(const Inst &, Val *, int, Val *r) { r[0] = V(1); }
static void x_self(const Inst &, Val *a, int, Val *r) { r[0] = a[0]; }
static void x_toabs(const Inst &i, Val *a, int n, Val *r) { x_abs(i, a, n, r); }
static void putByte(u64 d, Expr *e) { need(d, 1, true); if(isC(e)) { *(uint8_t *)d = e->c; st(d) = M_INIT; } else { st(d) = M_SYM; sh(d) = e; } }

// snprintf with %s %c %d %i %u %x %X %l* %z* %h* %p %% and zero padding; symbolic integers allowed for %u/%d/%x
static u64 fmtTo(u64 dst, u64 cap, u64 fmt, Val *a, int n)
{
	std::string f = cstr(fmt); std::vector<Expr *> out; int ai = 0;
	auto next = [&] () -> Val { if(ai >= n) engineError("printf: missing argument"); return a[ai++]; };
	auto lit = [&] (const std::string &s) { for(unsigned char c : s) out.push_back(mkC(c, 8)); };
	for(size_t i = 0; i < f.size(); i++)
	{
		if(f[i] != '%') { out.push_back(mkC((uint8_t)f[i], 8)); continue; }
		i++; if(f[i] == '%') { out.push_back(mkC('%', 8)); continue; }
		std::string spec = "%"; bool zero = false; unsigned width = 0; int prec = -1; unsigned w = 32;
		while(i < f.size() && strchr("-+ #0", f[i])) { if(f[i] == '0') zero = true; spec += f[i++]; }
		if(f[i] == '*') { Val v = next(); width = conc(v, "printf width"); i++; spec += std::to_string(width); }
		while(isdigit((unsigned char)f[i])) { width = width * 10 + f[i] - '0'; spec += f[i++]; }
		if(f[i] == '.') { spec += f[i++]; prec = 0; if(f[i] == '*') { Val v = next(); prec = conc(v, "printf precision"); i++; spec += std::to_string(prec); } while(isdigit((unsigned char)f[i])) { prec = prec * 10 + f[i] - '0'; spec += f[i++]; } }
		bool L = false;
		while(strchr("lzjth", f[i])) { if(f[i] == 'h') w = w == 16 ? 8 : 16; else w = 64; i++; }
		if(f[i] == 'L') { L = true; i++; }
		char c = f[i];
		switch(c)
		{
		case 's': { Val v = next(); u64 p = conc(v, "printf string"); for(int k = 0; prec < 0 || k < prec; k++) { need(p + k, 1, false); Expr *e = byteE(p + k); if(!decide(mkNot(mkEq(e, mkC(0, 8))))) break; out.push_back(e); } break; }
		case 'c': { Val v = next(); Expr *e = toE(v, 32); out.push_back(mkExtract(e, 0, 8)); break; }
		case 'p': { Val v = next(); char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)conc(v, "printf pointer")); lit(b); break; }
		case 'f': case 'g': case 'e': case 'G': case 'E': { Val v = next(); char b[512]; if(v.e) conc(v, "printf float"); spec += 'L'; spec += c; snprintf(b, sizeof b, spec.c_str(), getF(v, L ? 3 : 2)); lit(b); break; }
		case 'd': case 'i': case 'u': case 'x': case 'X': case 'o':
		{
			Val v = next();
			if(!v.e)
			{
				u64 x = v.lo & maskw(w); char b[128]; spec += "ll"; spec += c;
				if(c == 'd' || c == 'i') snprintf(b, sizeof b, spec.c_str(), (long long)sx(x, w)); else snprintf(b, sizeof b, spec.c_str(), (unsigned long long)x);
				lit(b); break;
			}
			Expr *e = v.e; if(e->w > w) e = mkExtract(e, 0, w);
			bool neg = false; if(c == 'd' || c == 'i') { neg = decide(mkCmp(E_SLT, e, mkC(0, e->w))); if(neg) e = mkBin(E_SUB, mkC(0, e->w), e); }
			unsigned base = (c == 'x' || c == 'X') ? 16 : c == 'o' ? 8 : 10; std::vector<Expr *> dg; Expr *cur = e; unsigned ew = e->w;
			for(;;)
			{
				Expr *d = base == 16 ? mkBin(E_AND, cur, mkC(15, ew)) : mkBin(E_UREM, cur, mkC(base, ew));
				Expr *d8 = ew > 8 ? mkExtract(d, 0, 8) : d;
				dg.push_back(base == 16 ? mkIte(mkCmp(E_ULT, d8, mkC(10, 8)), mkBin(E_ADD, d8, mkC('0', 8)), mkBin(E_ADD, d8, mkC((c == 'x' ? 'a' : 'A') - 10, 8))) : mkBin(E_ADD, d8, mkC('0', 8)));
				cur = base == 16 ? mkBin(E_LSHR, cur, mkC(4, ew)) : mkBin(E_UDIV, cur, mkC(base, ew));
				bool more = (zero && dg.size() + (neg ? 1 : 0) < width && false);
				if(!more && !decide(mkNot(mkEq(cur, mkC(0, ew))))) break;
			}
			while(zero && dg.size() + (neg ? 1 : 0) < width) dg.push_back(mkC('0', 8));
			if(neg) dg.push_back(mkC('-', 8));
			while(!zero && dg.size() < width) dg.push_back(mkC(' ', 8));
			for(size_t k = dg.size(); k-- > 0;) out.push_back(dg[k]);
			break;
		}
		default: engineError("printf: unsupported conversion %c", c);
		}
	}
	if(cap) { u64 m = std::min<u64>(out.size(), cap - 1); for(u64 k = 0; k < m; k++) putByte(dst + k, out[k]); putByte(dst + m, mkC(0, 8)); }
	return out.size();
}
static void x_snprintf(const Inst &, Val *a, int n, Val *r) { u64 d = arg(a, 0), c = arg(a, 1), f = arg(a, 2); r[0] = V(fmtTo(d, c, f, a + 3, n - 3)); }
static void x_sprintf(const Inst &, Val *a, int n, Val *r) { u64 d = arg(a, 0), f = arg(a, 1); r[0] = V(fmtTo(d, 1 << 20, f, a + 2, n - 2)); }
static void x_fail(const Inst &, Val *a, int, Val *) { reportViolation("assertion", cstr(arg(a, 0))); }
static void x_exit(const Inst &, Val *, int, Val *) { S->completed++; pathEnd(); }
static void x_trap(const Inst &, Val *, int, Val *) { reportViolation("trap", "undefined behaviour trap"); }
static void x_cut(const Inst &, Val *, int, Val *) { S->assumeCut++; pathEnd(); }
static void x_fp_tol(const Inst &i, Val *a, int, Val *r) { fconc(a[0]); r[0] = V((u64)llroundl(getF(a[0], i.sub)) & maskw(i.w)); }
static void x_loadrel(const Inst &, Val *a, int, Val *r) { u64 base = arg(a, 0), off = arg(a, 1); Val v = loadC(base + off, 32); if(v.e) conc(v, "relative load"); r[0] = V(base + (u64)sx(v.lo, 32)); }
static void x_modf(const Inst &i, Val *a, int, Val *r) { fconc(a[0]); long double ip, f = modfl(getF(a[0], i.sub), &ip); storeC(arg(a, 1), putF(ip, i.sub), i.sub == 1 ? 32 : i.sub == 2 ? 64 : 80); r[0] = putF(f, i.sub); }

static Ext exts[] = {
	{"llvm.memcpy", x_memcpy}, {"llvm.memmove", x_memcpy}, {"llvm.memcpy.inline", x_memcpy}, {"memcpy", x_memcpy}, {"memmove", x_memcpy}, {"llvm.memset", x_memset}, {"memset", x_memset},
	{"memcmp", x_memcmp}, {"bcmp", x_memcmp},
	{"malloc", x_malloc}, {"calloc", x_calloc}, {"realloc", x_realloc}, {"free", x_free}, {"_Znwm", x_new}, {"_Znam", x_new}, {"_ZnwmRKSt9nothrow_t", x_new}, {"_ZdlPv", x_delete}, {"_ZdlPvm", x_delete}, {"_ZdaPv", x_delete}, {"_ZdaPvm", x_delete},
	{"abort", x_fatal}, {"__assert_fail", x_fatal}, {"_ZSt9terminatev", x_fatal}, {"__cxa_pure_virtual", x_fatal}, {"__stack_chk_fail", x_fatal}, {"__cxa_deleted_virtual", x_fatal},
	{"__cxa_throw", x_throw}, {"__cxa_rethrow", x_throw}, {"__cxa_allocate_exception", x_malloc}, {"_ZSt17__throw_bad_allocv", x_throw}, {"_ZSt20__throw_length_errorPKc", x_throw}, {"_ZSt19__throw_logic_errorPKc", x_throw}, {"_ZSt20__throw_out_of_rangePKc", x_throw}, {"_ZSt24__throw_out_of_range_fmtPKcz", x_throw}, {"_ZSt25__throw_bad_function_callv", x_throw}, {"_ZSt28__throw_bad_array_new_lengthv", x_throw}, {"_ZSt24__throw_invalid_argumentPKc", x_throw}, {"_ZSt20__throw_system_errori", x_throw},
	{"_ZNSt12out_of_rangeC1EPKc", x_nop}, {"_ZNSt12out_of_rangeC2EPKc", x_nop}, {"_ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", x_nop}, {"_ZNSt11logic_errorC2EPKc", x_nop}, {"_ZNSt9bad_allocC1Ev", x_nop},
	{"sym_bytes", x_symbytes}, {"sym_assume", x_assume}, {"sym_assert_", x_assert}, {"sym_reach", x_reach}, {"sym_concretize", x_conc}, {"sym_choice_", x_choice}, {"sym_heap_live", x_heaplive}, {"sym_tier", x_tier}, {"sym_param", x_param}, {"sym_native", x_zero}, {"sym_fail", x_fail}, {"sym_note", x_note}, {"sym_is_symbolic", x_issym}, {"sym_cut", x_cut},
	{"llvm.uadd.with.overflow", x_uaddo}, {"llvm.usub.with.overflow", x_usubo}, {"llvm.umul.with.overflow", x_umulo}, {"llvm.sadd.with.overflow", x_saddo}, {"llvm.ssub.with.overflow", x_ssubo}, {"llvm.smul.with.overflow", x_smulo},
	{"llvm.umin", x_umin}, {"llvm.umax", x_umax}, {"llvm.smin", x_smin}, {"llvm.smax", x_smax}, {"llvm.abs", x_abs}, {"llvm.bswap", x_bswap}, {"llvm.ctpop", x_ctpop}, {"llvm.ctlz", x_ctlz}, {"llvm.cttz", x_cttz}, {"llvm.fshl", x_fshl}, {"llvm.fshr", x_fshr}, {"llvm.uadd.sat", x_uaddsat}, {"llvm.usub.sat", x_usubsat},
	{"llvm.fabs", x_fabs}, {"llvm.floor", x_floor}, {"llvm.ceil", x_ceil}, {"llvm.trunc", x_trunc}, {"llvm.round", x_round}, {"llvm.rint", x_rint}, {"llvm.nearbyint", x_rint}, {"llvm.sqrt", x_sqrt}, {"llvm.fmuladd", x_fmuladd}, {"llvm.minnum", x_fmin}, {"llvm.maxnum", x_fmax}, {"llvm.copysign", x_copysign}, {"llvm.is.fpclass", x_fpclass}, {"llvm.lround", x_fp_tol}, {"llvm.llround", x_fp_tol},
	{"llvm.load.relative", x_loadrel}, {"modf", x_modf}, {"modfl", x_modf}, {"modff", x_modf}, {"floor", x_floor}, {"floorl", x_floor}, {"floorf", x_floor}, {"ceil", x_ceil}, {"ceill", x_ceil}, {"round", x_round}, {"roundl", x_round}, {"trunc", x_trunc}, {"truncl", x_trunc}, {"sqrt", x_sqrt}, {"sqrtl", x_sqrt}, {"sqrtf", x_sqrt}, {"exp", x_exp}, {"expl", x_exp}, {"pow", x_pow}, {"powl", x_pow}, {"log", x_log}, {"logl", x_log}, {"cbrt", x_cbrt}, {"cbrtl", x_cbrt}, {"fmod", x_fmod}, {"fmodl", x_fmod}, {"fabs", x_fabs}, {"fabsl", x_fabs},
	{"llvm.objectsize", x_objsize}, {"llvm.is.constant", x_zero}, {"llvm.trap", x_trap}, {"llvm.ubsantrap", x_trap}, {"llvm.debugtrap", x_nop},
	{"__cxa_atexit", x_atexit}, {"atexit", x_atexit}, {"__cxa_guard_acquire", x_guardacq}, {"__cxa_guard_release", x_guardrel}, {"__errno_location", x_errno},
	{"printf", x_nop}, {"puts", x_nop}, {"putchar", x_nop}, {"fprintf", x_nop}, {"vprintf", x_nop}, {"fputs", x_nop}, {"fputc", x_nop}, {"putc", x_nop}, {"fflush", x_nop}, {"fwrite", x_nop}, {"perror", x_nop}, {"vfprintf", x_nop}, {"syslog", x_nop},
	{"snprintf", x_snprintf}, {"sprintf", x_sprintf}, {"exit", x_exit}, {"_exit", x_exit}, {"labs", x_toabs}, {"abs", x_toabs},
	{"pthread_mutex_lock", x_nop}, {"pthread_mutex_unlock", x_nop}, {"pthread_mutex_destroy", x_nop}, {"pthread_mutex_init", x_nop}, {"llvm.threadlocal.address", x_self},
};
static const int NEXT = sizeof exts / sizeof exts[0];
static std::unordered_map<std::string, int> extByName;
static int extIndex(const std::string &name)
{
	if(extByName.empty()) for(int i = 0; i < NEXT; i++) extByName[exts[i].name] = i;
	auto it = extByName.find(name); return it == extByName.end() ? -1 : it->second;
}

static u64 allocaMem(u64 n, u64 align)
{
	u64 a = (stackTop + 32 + align - 1) & ~(align - 1);
	if(a + n + 64 > STACK1) { reportViolation("memory", "stack exhausted"); pathEnd(); }
	memset(&st(a), M_UNINIT, n); stackTop = a + n; return a;
}

static void pushFrame(int fi, const Val *args, int n, int retDst, int retN)
{
	Fn *f = fns[fi];
	if(nframes >= MAXFRAMES || regTop + f->nregs > REGMAX) { reportViolation("recursion", "call stack deeper than " + std::to_string(MAXFRAMES) + " frames"); pathEnd(); }
	Frame &fr = frames[nframes];
	fr.f = f; fr.regs = regArena + regTop; fr.pc = 0; fr.sp = stackTop; fr.retDst = retDst; fr.retN = retN;
	regTop += f->nregs;
	if(n < f->nargs) engineError("call of %s with too few arguments", f->name.c_str());
	for(int i = 0; i < f->nargs; i++) fr.regs[f->argSlot[i]] = args[i];
	nframes++;
}

[[noreturn]] static void interp()
{
	static Val argbuf[256]; static Val tmp[256]; Val ret[8];
	u64 limit = opt.maxSteps;
	for(;;)
	{
		Frame &fr = frames[nframes - 1]; Inst &I = fr.f->code[fr.pc]; Val *R = fr.regs;
		#define OP(o) ((o) >= 0 ? R[o] : fr.f->consts[-1 - (o)])
		steps++;
		if(__builtin_expect(steps > limit, 0)) { reportViolation("nontermination", "path executed more than " + std::to_string(limit) + " instructions"); pathEnd(); }
		switch(I.op)
		{
		case I_MOV: if(I.dst == -2) S->bb[I.imm] = 1; else R[I.dst] = OP(I.a); break;
		case I_ADD: case I_SUB: case I_MUL: case I_AND: case I_OR: case I_XOR: case I_SHL: case I_LSHR: case I_ASHR: case I_UDIV: case I_SDIV: case I_UREM: case I_SREM:
		{
			Val a = OP(I.a), b = OP(I.b);
			if(I.w > 64)
			{
				if(a.e || b.e) engineError("symbolic %u-bit arithmetic", I.w);
				u128 x = ((u128)a.hi << 64) | a.lo, y = ((u128)b.hi << 64) | b.lo, r = 0; u128 m = I.w >= 128 ? ~(u128)0 : (((u128)1 << I.w) - 1);
				__int128 xs = (__int128)(x << (128 - I.w)) >> (128 - I.w), ys = (__int128)(y << (128 - I.w)) >> (128 - I.w);
				switch(I.op) { case I_ADD: r = x + y; break; case I_SUB: r = x - y; break; case I_MUL: r = x * y; break; case I_AND: r = x & y; break; case I_OR: r = x | y; break; case I_XOR: r = x ^ y; break; case I_SHL: r = y < 128 ? x << (int)y : 0; break; case I_LSHR: r = y < 128 ? x >> (int)y : 0; break; case I_ASHR: r = xs >> (int)(y < 127 ? y : 127); break;
				case I_UDIV: if(!y) reportViolation("arithmetic", "division by zero"); r = x / y; break; case I_UREM: if(!y) reportViolation("arithmetic", "division by zero"); r = x % y; break; case I_SDIV: if(!y) reportViolation("arithmetic", "division by zero"); r = xs / ys; break; default: if(!y) reportViolation("arithmetic", "division by zero"); r = xs % ys; break; }
				r &= m; R[I.dst] = Val{(u64)r, (u64)(r >> 64), nullptr}; break;
			}
			static const EOp map[] = {E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR};
			EOp eo = map[I.op - I_ADD];
			if(!a.e && !b.e)
			{
				u64 x = a.lo, y = b.lo, r;
				switch(I.op)
				{
				case I_ADD: r = x + y; break; case I_SUB: r = x - y; break; case I_MUL: r = x * y; break; case I_AND: r = x & y; break; case I_OR: r = x | y; break; case I_XOR: r = x ^ y; break;
				default:
					if((I.op == I_UDIV || I.op == I_SDIV || I.op == I_UREM || I.op == I_SREM) && !y) { reportViolation("arithmetic", "division by zero"); }
					r = foldBin(eo, x, y, I.w);
				}
				R[I.dst] = V(r & maskw(I.w)); break;
			}
			Expr *x = toE(a, I.w), *y = toE(b, I.w);
			if(I.op == I_UDIV || I.op == I_SDIV || I.op == I_UREM || I.op == I_SREM) if(decide(mkEq(y, mkC(0, I.w)))) reportViolation("arithmetic", "division by zero");
			R[I.dst] = fromE(mkBin(eo, x, y));
			break;
		}
		case I_ICMP:
		{
			Val a = OP(I.a), b = OP(I.b); 
			if(!a.e && !b.e)
			{
				bool r = false; 
				if(I.w > 64)
				{
					u128 x = ((u128)a.hi << 64) | a.lo, y = ((u128)b.hi << 64) | b.lo; __int128 xs = (__int128)(x << (128 - I.w)) >> (128 - I.w), ys = (__int128)(y << (128 - I.w)) >> (128 - I.w);
					switch(I.sub) { case 32: r = x == y; break; case 33: r = x != y; break; case 34: r = x > y; break; case 35: r = x >= y; break; case 36: r = x < y; break; case 37: r = x <= y; break; case 38: r = xs > ys; break; case 39: r = xs >= ys; break; case 40: r = xs < ys; break; case 41: r = xs <= ys; break; }
				}
				else
				{
					u64 x = a.lo, y = b.lo; int64_t xs = sx(x, I.w), ys = sx(y, I.w);
					switch(I.sub) { case 32: r = x == y; break; case 33: r = x != y; break; case 34: r = x > y; break; case 35: r = x >= y; break; case 36: r = x < y; break; case 37: r = x <= y; break; case 38: r = xs > ys; break; case 39: r = xs >= ys; break; case 40: r = xs < ys; break; case 41: r = xs <= ys; break; }
				}
				R[I.dst] = V(r); break;
			}
			if(I.w > 64) engineError("symbolic %u-bit comparison", I.w);
			Expr *x = toE(a, I.w), *y = toE(b, I.w), *r;
			switch(I.sub)
			{
			case 32: r = mkEq(x, y); break; case 33: r = mkNot(mkEq(x, y)); break; case 34: r = mkCmp(E_ULT, y, x); break; case 35: r = mkCmp(E_ULE, y, x); break; case 36: r = mkCmp(E_ULT, x, y); break; case 37: r = mkCmp(E_ULE, x, y); break;
			case 38: r = mkCmp(E_SLT, y, x); break; case 39: r = mkCmp(E_SLE, y, x); break; case 40: r = mkCmp(E_SLT, x, y); break; default: r = mkCmp(E_SLE, x, y); break;
			}
			R[I.dst] = fromE(r); break;
		}
		case I_FCMP:
		{
			Val a = OP(I.a), b = OP(I.b);
			if((a.e || b.e) && I.flags != 3) { R[I.dst] = fromE(fpCmpE(I.sub, toE(a, I.w), toE(b, I.w))); break; }
			fconc(a); fconc(b);
			R[I.dst] = V(fpCmp(I.sub, getF(a, I.flags), getF(b, I.flags))); break;
		}
		case I_FADD: case I_FSUB: case I_FMUL: case I_FDIV: case I_FREM: { Val a = OP(I.a), b = OP(I.b); fconc(a); fconc(b); R[I.dst] = fpBin(I.op, a, b, I.sub); break; }
		case I_FNEG: { Val a = OP(I.a); if(a.e) { R[I.dst] = fromE(mkBin(E_XOR, a.e, mkC(1ull << (I.w - 1), I.w))); break; } if(I.sub == 3) a.hi ^= 0x8000; else a.lo ^= 1ull << (I.w - 1); R[I.dst] = a; break; }
		case I_TRUNC: { Val a = OP(I.a); if(I.w > 64) engineError("wide trunc"); if(a.e) R[I.dst] = fromE(mkExtract(a.e, 0, I.w)); else R[I.dst] = V(a.lo & maskw(I.w)); break; }
		case I_ZEXT: { Val a = OP(I.a); if(a.e) { if(I.w > 64) engineError("symbolic zext to %u bits", I.w); R[I.dst] = fromE(mkZExt(a.e, I.w)); } else R[I.dst] = a; break; }
		case I_SEXT: { Val a = OP(I.a); if(a.e) { if(I.w > 64) engineError("symbolic sext to %u bits", I.w); R[I.dst] = fromE(mkSExt(a.e, I.w)); } else if(I.w > 64) { int64_t x = sx(a.lo, I.w2); R[I.dst] = Val{(u64)x, x < 0 ? ~0ull : 0, nullptr}; } else R[I.dst] = V((u64)sx(a.lo, I.w2) & maskw(I.w)); break; }
		case I_FPTRUNC: case I_FPEXT: { Val a = OP(I.a); fconc(a); R[I.dst] = putF(getF(a, I.flags), I.sub); break; }
		case I_FPTOUI: case I_FPTOSI:
		{
			Val a = OP(I.a);
			if(a.e && I.flags == 2) { R[I.dst] = fromE(fpToIntE(a.e, I.w, I.op == I_FPTOSI)); break; }
			fconc(a); long double x = getF(a, I.flags);
			u64 r; if(std::isnan(x)) r = 1ull << 63; else if(I.op == I_FPTOUI) r = x >= 18446744073709551616.0L ? ~0ull : x <= -1 ? (u64)(x > -9223372036854775809.0L ? (int64_t)x : INT64_MIN) : (u64)x; else r = x >= 9223372036854775808.0L || x < -9223372036854775808.0L ? 1ull << 63 : (u64)(int64_t)x;
			R[I.dst] = V(r & maskw(I.w)); break;
		}
		case I_UITOFP: case I_SITOFP:
		{
			Val a = OP(I.a);
			if(a.e && I.sub == 2)
			{
				Expr *e = a.e; bool neg = false;
				if(I.op == I_SITOFP) { neg = decide(mkCmp(E_SLT, e, mkC(0, e->w))); if(neg) e = mkBin(E_SUB, mkC(0, e->w), e); }
				if(e->w <= 53 || !decide(mkCmp(E_ULE, mkC(1ull << 53, e->w), e))) { Expr *d = intToFpE(e); if(neg) d = mkBin(E_OR, d, mkC(1ull << 63, 64)); R[I.dst] = fromE(d); break; }
			}
			if(a.e) conc(a, "integer to floating point");
			long double x = I.op == I_UITOFP ? (long double)a.lo : (long double)sx(a.lo, I.w2);
			if(I.sub == 1) { float f = I.op == I_UITOFP ? (float)a.lo : (float)sx(a.lo, I.w2); R[I.dst] = putF(f, 1); }
			else if(I.sub == 2) { double f = I.op == I_UITOFP ? (double)a.lo : (double)sx(a.lo, I.w2); R[I.dst] = putF(f, 2); }
			else R[I.dst] = putF(x, 3);
			break;
		}
		case I_LOAD:
		{
			Val a = OP(I.a);
			if(a.e)
			{
				Expr *A = I.imm ? mkBin(E_ADD, a.e, mkC(I.imm, 64)) : a.e; Val out; u64 ad;
				if(A->uninit) checkUninit(A, "address");
				if(I.w <= 64 && loadSym(A, I.w, out, ad)) { R[I.dst] = out; break; }
				if(I.w > 64) ad = concretize(A, "load address");
				R[I.dst] = loadC(ad, I.w); break;
			}
			R[I.dst] = loadC(a.lo + I.imm, I.w); break;
		}
		case I_STORE:
		{
			Val a = OP(I.a), v = OP(I.b);
			if(a.e) conc(a, "store address");
			storeC(a.lo + I.imm, v, I.w); break;
		}
		case I_GEP:
		{
			Val a = OP(I.a); u64 off = I.imm; Expr *eo = nullptr;
			for(int k = 0; k < I.xn; k++)
			{
				int *x = &fr.f->xs[I.x0 + k * 3]; Val ix = OP(x[0]);
				if(ix.e) { Expr *e = x[2] < 64 ? mkSExt(ix.e, 64) : ix.e; e = mkBin(E_MUL, e, mkC(x[1], 64)); eo = eo ? mkBin(E_ADD, eo, e) : e; }
				else off += (u64)sx(ix.lo, x[2]) * (u64)x[1];
			}
			if(!a.e && !eo) { R[I.dst] = V(a.lo + off); break; }
			Expr *r = a.e ? mkBin(E_ADD, a.e, mkC(off, 64)) : mkC(a.lo + off, 64);
			if(eo) r = mkBin(E_ADD, r, eo);
			R[I.dst] = fromE(r); break;
		}
		case I_ALLOCA:
		{
			if(I.flags == 2) { Val s = OP(I.a); u64 sa = conc(s, "byval"); u64 d = allocaMem(I.imm, I.w); copyMem(d, sa, I.imm); R[I.dst] = V(d); break; }
			Val n = OP(I.a); u64 c = conc(n, "alloca size"); R[I.dst] = V(allocaMem(c * I.imm, I.w)); break;
		}
		case I_SELECT:
		{
			Val c = OP(I.a), x = OP(I.b), y = OP(I.c);
			if(!c.e) { R[I.dst] = c.lo ? x : y; break; }
			if(I.w > 64) { R[I.dst] = decide(c.e) ? x : y; break; }
			// pointers: fork, so that addresses stay concrete
			if(I.w == 64 && (x.e ? 0 : x.lo) >= ARENA) { R[I.dst] = decide(c.e) ? x : y; break; }
			if(I.w == 64 && (y.e ? 0 : y.lo) >= ARENA) { R[I.dst] = decide(c.e) ? x : y; break; }
			auto it = known.find(c.e); if(it != known.end()) { R[I.dst] = it->second ? x : y; break; }
			R[I.dst] = fromE(iteSel(c.e, toE(x, I.w), toE(y, I.w))); break;
		}
		case I_BR: case I_CONDBR: case I_SWITCH:
		{
			int e = I.a;
			if(I.op == I_CONDBR) { Val c = OP(I.a); bool t = c.e ? decide(c.e) : c.lo & 1; e = t ? I.b : I.c; }
			else if(I.op == I_SWITCH)
			{
				Val c = OP(I.a); e = I.b;
				auto *cs = &fr.f->cases[I.x0];
				if(!c.e) { for(int k = 0; k < I.xn; k++) if(cs[k].first == c.lo) { e = cs[k].second; break; } }
				else
				{
					std::vector<std::pair<int, Expr *>> grp;
					for(int k = 0; k < I.xn; k++)
					{
						Expr *q = mkEq(c.e, mkC(cs[k].first, I.w)); int tg = fr.f->edges[cs[k].second].target; bool done = false;
						for(auto &g : grp) if(fr.f->edges[g.first].target == tg) { g.second = mkBin(E_OR, g.second, q); done = true; break; }
						if(!done) grp.push_back({cs[k].second, q});
					}
					for(auto &g : grp) if(decide(g.second)) { e = g.first; break; }
				}
			}
			Edge &E = fr.f->edges[e];
			if(E.cn == 1) { auto &c = fr.f->copies[E.c0]; R[c.first] = OP(c.second); }
			else if(E.cn)
			{
				if(E.cn > 256) engineError("too many phis");
				for(int k = 0; k < E.cn; k++) tmp[k] = OP(fr.f->copies[E.c0 + k].second);
				for(int k = 0; k < E.cn; k++) R[fr.f->copies[E.c0 + k].first] = tmp[k];
			}
			fr.pc = E.target; continue;
		}
		case I_RET:
		{
			Val rv[64]; int n = I.xn; if(n > 64) engineError("return value too large");
			for(int k = 0; k < n; k++) rv[k] = OP(FnLower::lane(I.a, k));
			if(stackTop > fr.sp) memset(&st(fr.sp), M_NONE, stackTop - fr.sp);
			stackTop = fr.sp; regTop -= fr.f->nregs; int rd = fr.retDst; nframes--;
			if(nframes == 0) return (void)0, [&] () { S->completed++; pathSample(); pathEnd(); } ();
			Frame &cf = frames[nframes - 1];
			if(rd >= 0) for(int k = 0; k < n; k++) cf.regs[rd + k] = rv[k];
			cf.pc++; continue;
		}
		case I_CALL: case I_CALLI:
		{
			int fi;
			if(I.xn > 250) engineError("too many arguments");
			for(int k = 0; k < I.xn; k++) argbuf[k] = OP(fr.f->xs[I.x0 + k]);
			if(I.op == I_CALL) fi = I.imm;
			else
			{
				Val c = OP(I.a); u64 p = conc(c, "indirect call target");
				if(p < FNBASE || (p & 15) || (p - FNBASE) / 16 >= fns.size()) { reportViolation("memory", p < 4096 ? "call through a null function pointer" : "call through an invalid function pointer"); pathEnd(); }
				fi = (p - FNBASE) / 16;
			}
			Fn *f = fns[fi];
			if(f->defined) { if(f->vararg) engineError("call of variadic function %s", f->name.c_str()); pushFrame(fi, argbuf, I.xn, I.dst, I.ndst); continue; }
			if(f->ext < 0) engineError("call of external function %s", f->name.c_str());
			if(I.flags == 1) engineError("vector intrinsic %s", f->name.c_str());
			curExtName = f->name.c_str(); ret[0] = V(0); ret[1] = V(0);
			exts[f->ext].fn(I, argbuf, I.xn, ret);
			if(I.dst >= 0) for(int k = 0; k < I.ndst && k < 8; k++) R[I.dst + k] = ret[k];
			break;
		}
		case I_RMW:
		{
			Val a = OP(I.a), b = OP(I.b); u64 p = conc(a, "atomic address"); Val o = loadC(p, I.w); Expr *x = toE(o, I.w), *y = toE(b, I.w), *r = nullptr;
			switch(I.sub) { case AtomicRMWInst::Xchg: r = y; break; case AtomicRMWInst::Add: r = mkBin(E_ADD, x, y); break; case AtomicRMWInst::Sub: r = mkBin(E_SUB, x, y); break; case AtomicRMWInst::And: r = mkBin(E_AND, x, y); break; case AtomicRMWInst::Or: r = mkBin(E_OR, x, y); break; case AtomicRMWInst::Xor: r = mkBin(E_XOR, x, y); break; default: engineError("atomicrmw"); }
			storeC(p, fromE(r), I.w); R[I.dst] = o; break;
		}
		case I_CMPXCHG:
		{
			Val a = OP(I.a), b = OP(I.b), c = OP(I.c); u64 p = conc(a, "atomic address"); Val o = loadC(p, I.w); Expr *q = mkEq(toE(o, I.w), toE(b, I.w)); bool t = decide(q);
			if(t) storeC(p, c, I.w);
			R[I.dst] = o; R[I.dst + 1] = V(t); break;
		}
		case I_UNREACH: reportViolation("abort", "reached an unreachable point"); break;
		case I_LPAD: case I_RESUME: engineError("exception handling"); break;
		case I_UNSUP: engineError("unsupported instruction %s", fr.f->unsup[I.imm].c_str()); break;
		}
		fr.pc++;
	}
}

static std::atomic<int> *sampleIdx;
void pathSample()
{
	int n = ++*sampleIdx, i = 0, a = 1, b = 2; // keep completed paths number 1, 2, 3, 5, 8, 13, ...
	while(a < n) { int q = a + b; a = b; b = q; i++; }
	if(a != n || i >= 20) return;
	FILE *f = fopen((opt.out + ".sample." + std::to_string(i)).c_str(), "w"); if(!f) return;
	fprintf(f, "{\"constraints\":%zu,\"inputs\":[", pc.size()); bool first = true;
	for(auto &g : groups)
	{
		fprintf(f, "%s{\"name\":\"%s\",\"bytes\":\"", first ? "" : ",", esc(g.name).c_str()); first = false;
		for(unsigned j = 0; j < g.bytes; j++) fprintf(f, "%02x", (unsigned)(g_model[g.firstVar + j] & 0xff));
		fprintf(f, "\"}");
	}
	fprintf(f, "]}\n"); fclose(f);
}

static void onCrash(int sig)
{
	static volatile int in = 0; if(in) _exit(1); in = 1;
	pthread_mutex_trylock(&S->mu);
	if(!S->firstError[0]) { snprintf(S->firstError, sizeof S->firstError, "engine process crashed with signal %d", sig); std::string w = where(); strncat(S->firstError, w.c_str(), 300); }
	pthread_mutex_unlock(&S->mu);
	S->errors++;
	pathEnd();
}

static void writeReport(double wall, bool complete)
{
	FILE *f = fopen(opt.out.c_str(), "w"); if(!f) { perror(opt.out.c_str()); exit(3); }
	fprintf(f, "{\"complete\":%s,\"paths\":%ld,\"completed\":%ld,\"assume_cut\":%ld,\"violations\":%ld,\"known_violations\":%ld,\"errors\":%ld,\"first_error\":\"%s\",\n", complete ? "true" : "false", S->paths.load(), S->completed.load(), S->assumeCut.load(), S->viols.load(), S->knownViols.load(), S->errors.load(), esc(S->firstError).c_str());
	fprintf(f, "\"forks\":%ld,\"queries\":%ld,\"solver_seconds\":%.3f,\"instructions\":%ld,\"symbolic_branches\":%ld,\"asserts\":%ld,\"symbolic_asserts\":%ld,\"concretizations\":%ld,\"unknowns\":%ld,\"range_decided\":%ld,\"order_decided\":%ld,\"hard_queries\":%ld,\"max_symbolic_bytes\":%ld,\"max_live\":%ld,\"max_fork_depth\":%ld,\"wall\":%.2f,\"limit_hit\":%d,\n", S->forks.load(), S->queries.load(), S->solverUs.load() * 1e-6, S->steps.load(), S->symBranches.load(), S->asserts.load(), S->symAsserts.load(), S->concretizations.load(), S->unknowns.load(), S->rangeDecided.load(), S->orderHits.load(), S->hardQueries.load(), S->maxVars.load(), S->maxLive.load(), S->maxDepth.load(), wall, S->limitHit.load());
	fprintf(f, "\"reach\":{"); bool first = true;
	for(int i = 0; i < MAXREACH && S->reachNames[i][0]; i++) { fprintf(f, "%s\"%s\":%ld", first ? "" : ",", esc(S->reachNames[i]).c_str(), S->reachCount[i].load()); first = false; }
	fprintf(f, "},\n\"functions\":{");
	std::map<std::string, std::pair<std::set<int>, std::string>> fl; std::map<std::string, std::set<int>> all;
	for(int b = 0; b < g_nbb; b++)
		for(int l : bbLines[b])
		{
			int sp = lines[l].sp; if(sp < 0) continue; const std::string &file = spFile[sp] >= 0 ? files[spFile[sp]] : subprogs[sp];
			if(file.compare(0, opt.srcPrefix.size(), opt.srcPrefix) != 0) continue;
			all[subprogs[sp]].insert(lines[l].line);
			if(S->bb[b]) { fl[subprogs[sp]].first.insert(lines[l].line); fl[subprogs[sp]].second = file.substr(opt.srcPrefix.size()); }
		}
	first = true;
	for(auto &p : fl) { fprintf(f, "%s\n\"%s\":[\"%s\",%zu,%zu]", first ? "" : ",", esc(p.first).c_str(), esc(p.second.second).c_str(), p.second.first.size(), all[p.first].size()); first = false; }
	fprintf(f, "}}\n"); fclose(f);
}

int main(int argc, char **argv)
{
	if(!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) { personality(ADDR_NO_RANDOMIZE); if(!getenv("SX_NOASLR")) { setenv("SX_NOASLR", "1", 1); execv("/proc/self/exe", argv); } }
	for(int i = 1; i < argc; i++)
	{
		std::string a = argv[i]; auto nx = [&] () -> std::string { if(i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(3); } return argv[++i]; };
		if(a == "--out") opt.out = nx(); else if(a == "--entry") opt.entry = nx(); else if(a == "--src") opt.srcPrefix = nx(); else if(a == "--jobs") opt.jobs = atoi(nx().c_str()); else if(a == "--timeout") opt.timeout = atof(nx().c_str());
		else if(a == "--max-steps") opt.maxSteps = strtoull(nx().c_str(), 0, 0); else if(a == "--max-paths") opt.maxPaths = strtoull(nx().c_str(), 0, 0); else if(a == "--max-viol") opt.maxViol = atoi(nx().c_str()); else if(a == "--seed") opt.seed = atoi(nx().c_str());
		else if(a == "--query-rl") opt.queryRl = strtoul(nx().c_str(), 0, 0); else if(a == "--quick-rl") opt.quickRl = strtoul(nx().c_str(), 0, 0); else if(a == "-v") opt.verbose = true; else if(a == "--range-choice") opt.rangeChoice = true; else if(a == "--concrete-addresses") opt.concAddr = true; else if(a == "--bv-solver") opt.bvOnly = true; else if(a == "--no-uninit") opt.uninit = false; else if(a == "--tier") opt.tier = atoi(nx().c_str()); else if(a == "--param") opt.params.push_back(nx()); else if(a == "--known") opt.known.push_back(nx());
		else if(a[0] != '-') opt.bc = a; else { fprintf(stderr, "unknown option %s\n", a.c_str()); exit(3); }
	}
	setpgid(0, 0); prctl(PR_SET_PDEATHSIG, SIGTERM); signal(SIGTERM, [] (int) { kill(0, SIGKILL); }); // the whole exploration ends with its driver
	double t0 = now();
	S = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	sampleIdx = (std::atomic<int> *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	pthread_mutexattr_t ma; pthread_mutexattr_init(&ma); pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED); pthread_mutex_init(&S->mu, &ma);
	sem_init(&S->done, 1, 0);
	S->tokens = opt.jobs - 1; for(int i = 0; i < MAXW; i++) { sem_init(&S->sems[i], 1, 0); S->freeSlots[i] = MAXW - 1 - i; } S->nfree = MAXW;
	void *ar = mmap((void *)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if(ar != (void *)ARENA) { perror("arena"); exit(3); }
	ST = (uint8_t *)mmap(0, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	SH = (Expr **)mmap(0, ARENA_SZ * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	regArena = (Val *)mmap(0, REGMAX * sizeof(Val), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	frames = (Frame *)mmap(0, (MAXFRAMES + 1) * sizeof(Frame), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if(ST == MAP_FAILED || SH == MAP_FAILED || regArena == MAP_FAILED) { perror("mmap"); exit(3); }
	lowerModule(opt.bc);
	errnoAddr = globAlloc(8, 8); memset(&st(errnoAddr), M_INIT, 8);
	if(opt.verbose) fprintf(stderr, "lowered %zu functions, %d blocks in %.2fs\n", fns.size(), g_nbb, now() - t0);
	setpgid(0, 0);
	prctl(PR_SET_CHILD_SUBREAPER, 1);
	signal(SIGCHLD, SIG_IGN);
	S->live = 1;
	fflush(0);
	pid_t root = fork();
	if(root == 0)
	{
		isController = false;
		static char alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
		struct sigaction sa{}; sa.sa_handler = onCrash; sa.sa_flags = SA_ONSTACK; for(int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, 0);
		prctl(PR_SET_PDEATHSIG, 0);
		initSolver();
		// run constructors then entry: build a frame chain by running each to completion through a driver list
		// entry frame lowest; ctors pushed above it in reverse order, each returning into the next
		pushFrame(entryFn, nullptr, 0, -1, 0);
		for(size_t i = ctorFns.size(); i-- > 0;)
		{
			pushFrame(ctorFns[i], nullptr, 0, -1, 0);
		}
		// returning increments the caller's pc, so start the lower frames one instruction early
		for(int i = 0; i + 1 < nframes; i++) frames[i].pc = -1;
		interp();
	}
	double deadline = t0 + opt.timeout; bool timedOut = false;
	for(;;)
	{
		timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_nsec += 200000000; if(ts.tv_nsec >= 1000000000) { ts.tv_sec++; ts.tv_nsec -= 1000000000; }
		int r = sem_timedwait(&S->done, &ts);
		if(S->live <= 0 || S->stop) break;
		if(r == 0) continue;
		if(now() > deadline || (opt.maxPaths && (u64)S->paths > opt.maxPaths)) { timedOut = true; S->limitHit = 1; S->stop = 1; break; }
		if(S->errors > 50) { S->stop = 1; break; }
	}
	bool complete = !timedOut && S->live <= 0 && S->errors == 0 && S->unknowns == 0;
	signal(SIGTERM, SIG_IGN);
	if(S->live > 0) { double t1 = now(); while(S->live > 0 && now() - t1 < 0.5) usleep(20000); kill(0, SIGTERM); usleep(50000); }
	writeReport(now() - t0, complete);
	return S->viols ? 1 : complete ? 0 : 2;
}
