// sx: symbolic executor for LLVM IR (clang 18) with z3; one process per path (fork at undecided branches).
#include "expr.hpp"
#include "expr.cpp"

#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>

#include <algorithm>
#include <atomic>
#include <cmath>
#include <cerrno>
#include <cstdarg>
#include <array>
#include <dlfcn.h>
#include <functional>
#include <map>
#include <malloc.h>
#include <semaphore.h>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

typedef uint64_t u64; typedef unsigned __int128 u128;

// ---------------------------------------------------------------- options
static struct {
	std::string bc, out = "/tmp/sx.out", entry = "main", srcPrefix = "/repo/";
	int jobs = 8; double timeout = 300; u64 maxSteps = 200000000; u64 maxPaths = 0; int maxViol = 1; int seed = 1; unsigned queryRl = 2000000000u, quickRl = 2000000;
	bool verbose = false; bool rangeChoice = false; bool concAddr = false; bool bvOnly = false; bool uninit = true; bool trace = false; int tier = 0; std::vector<std::string> params;
	std::vector<std::string> known;
} opt;

// ---------------------------------------------------------------- shared state
enum { MAXW = 16384, MAXBB = 1 << 18, MAXREACH = 256 };
struct Shared {
	pthread_mutex_t mu; sem_t done; int tokens; int nwait; int waiters[MAXW]; int freeSlots[MAXW]; int nfree; sem_t sems[MAXW];
	std::atomic<long> live, paths, completed, assumeCut, viols, knownViols, errors, forks, queries, solverUs, steps, symBranches, asserts, symAsserts, concretizations, unknowns, rangeDecided, orderHits, hardQueries, maxVars, maxLive, maxDepth, reachN, pruned;
	std::atomic<int> stop, limitHit;
	char firstError[512];
	uint8_t bb[MAXBB];
	char reachNames[MAXREACH][64]; std::atomic<long> reachCount[MAXREACH];
	std::atomic<int> violIdx;
};
static Shared *S;
static bool isController = true;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static u64 steps = 0; // this process, this path since start (inherited)
static u64 stepsReported = 0;
static long depth = 0;

static void releaseToken()
{
	pthread_mutex_lock(&S->mu);
	if(S->nwait) { int s = S->waiters[--S->nwait]; sem_post(&S->sems[s]); }
	else S->tokens++;
	pthread_mutex_unlock(&S->mu);
}

[[noreturn]] static void pathEnd()
{
	S->steps += steps - stepsReported;
	long d = depth; long m = S->maxDepth; while(d > m && !S->maxDepth.compare_exchange_weak(m, d)) {}
	d = g_vars.size(); m = S->maxVars; while(d > m && !S->maxVars.compare_exchange_weak(m, d)) {}
	S->paths++;
	releaseToken();
	if(--S->live == 0) sem_post(&S->done);
	_exit(0);
}

[[noreturn]] static void engineError(const char *fmt, ...);

// ---------------------------------------------------------------- memory
static const u64 ARENA = 0x100000000000ull; static const u64 ARENA_SZ = 1ull << 31;
static const u64 GLOB0 = ARENA, HEAP0 = ARENA + (1ull << 28), STACK0 = ARENA + (3ull << 29), STACK1 = ARENA + ARENA_SZ;
static uint8_t *ST; static Expr **SH;
enum { M_NONE = 0, M_UNINIT = 1, M_INIT = 2, M_SYM = 3, M_RO = 4 };
static u64 heapTop = HEAP0, globTop = GLOB0 + 64, stackTop = STACK0;
struct Alloc { u64 addr, size; bool live; uint8_t kind; u64 site; };
static std::vector<Alloc> allocs; static long liveAllocs = 0;
static inline bool inArena(u64 a, u64 n) { return a >= ARENA && a + n <= ARENA + ARENA_SZ && a + n >= a; }
static inline uint8_t &st(u64 a) { return ST[a - ARENA]; }
static inline Expr *&sh(u64 a) { return SH[a - ARENA]; }

// ---------------------------------------------------------------- values / IR
struct Val { u64 lo; u64 hi; Expr *e; };
static inline Val V(u64 x) { return Val{x, 0, nullptr}; }
static inline Expr *toE(const Val &v, unsigned w) { return v.e ? v.e : mkC(v.lo, w); }
static inline Val fromE(Expr *e) { return isC(e) ? Val{e->c, 0, nullptr} : Val{0, 0, e}; }

enum Opc : uint16_t { I_MOV, I_ADD, I_SUB, I_MUL, I_UDIV, I_SDIV, I_UREM, I_SREM, I_AND, I_OR, I_XOR, I_SHL, I_LSHR, I_ASHR,
	I_ICMP, I_FCMP, I_FADD, I_FSUB, I_FMUL, I_FDIV, I_FREM, I_FNEG,
	I_TRUNC, I_ZEXT, I_SEXT, I_FPTRUNC, I_FPEXT, I_FPTOUI, I_FPTOSI, I_UITOFP, I_SITOFP,
	I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_SELECT, I_BR, I_CONDBR, I_SWITCH, I_RET, I_CALL, I_CALLI, I_UNREACH, I_UNSUP, I_RMW, I_CMPXCHG, I_LPAD, I_RESUME };

struct Edge { int target; int c0, cn; };
struct Inst { Opc op; uint8_t w, w2, sub, flags; int dst, a, b, c; u64 imm; int x0, xn; int line; int ndst; };
struct Fn {
	std::string name; std::vector<Inst> code; std::vector<Val> consts; std::vector<int> xs; std::vector<Edge> edges; std::vector<std::pair<int,int>> copies;
	std::vector<std::pair<u64,int>> cases; int nregs = 0, nargs = 0; std::vector<int> argSlot; bool defined = false; int ext = -1; bool vararg = false; u64 addr;
	std::vector<std::string> unsup;
};
static std::vector<Fn *> fns; static std::unordered_map<std::string, int> fnByName;
static const u64 FNBASE = 0x200000000000ull;
static std::unordered_map<std::string, u64> globAddr; // by name
struct LineInfo { int file; int line; int parent; int sp; };
static std::vector<LineInfo> lines{{-1, 0, -1, -1}}; static std::vector<std::string> files; static std::vector<std::string> subprogs; static std::vector<int> spFile, spLine; static std::vector<std::string> spLink;
struct BBInfo { std::vector<int> lineIds; };
static std::vector<std::vector<int>> bbLines; // per basic block: line ids

// ---------------------------------------------------------------- frames
struct Frame { Fn *f; Val *regs; int pc; u64 sp; int retDst; int retN; };
static Frame *frames; static int nframes = 0; static const int MAXFRAMES = 20000;
static Val *regArena; static u64 regTop = 0; static const u64 REGMAX = 1ull << 24;

static std::string where(int skip = 0)
{
	std::string r; int shown = 0;
	for(int i = nframes - 1; i >= 0 && shown < 14; i--)
	{
		Fn *f = frames[i].f; int pc = frames[i].pc; if(pc < 0) pc = 0; if(pc >= (int)f->code.size()) pc = f->code.size() - 1;
		int l = f->code[pc].line;
		while(l > 0)
		{
			if(!r.empty()) r += " < ";
			std::string fl = lines[l].file >= 0 ? files[lines[l].file] : "?";
			size_t p = fl.rfind('/'); if(p != std::string::npos) fl = fl.substr(p + 1);
			std::string sp = lines[l].sp >= 0 ? subprogs[lines[l].sp] : f->name;
			r += sp + "@" + fl + ":" + std::to_string(lines[l].line);
			l = lines[l].parent; shown++;
		}
		if(f->code[pc].line <= 0) { if(!r.empty()) r += " < "; r += f->name; shown++; }
	}
	return r;
}

static void engineError(const char *fmt, ...)
{
	char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	std::string m = std::string(b) + " at " + where();
	if(isController) { fprintf(stderr, "sx error: %s\n", m.c_str()); exit(3); }
	pthread_mutex_lock(&S->mu);
	if(!S->firstError[0]) { strncpy(S->firstError, m.c_str(), sizeof(S->firstError) - 1); }
	pthread_mutex_unlock(&S->mu);
	if(opt.verbose) fprintf(stderr, "sx error: %s\n", m.c_str());
	S->errors++;
	pathEnd();
}

// ---------------------------------------------------------------- solver
static double slowT = getenv("SX_SLOW") ? atof(getenv("SX_SLOW")) : 2;
static double avgInc = 0, avgSl = 0.003; // running mean query time with the incremental solver / a sliced one
static Z3_solver scratch; static size_t asserted = 0;
static Z3_solver solver; static std::unordered_map<Expr *, int> known; // asserted facts
static std::vector<Expr *> pc;
static std::vector<SymGroup> groups; // harness-created symbolic inputs in creation order

static void z3err(Z3_context c, Z3_error_code e) { engineError("z3: %s", Z3_get_error_msg(c, e)); }
static void initSolver()
{
	Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
	g_z3 = Z3_mk_context_rc(cfg); Z3_del_config(cfg);
	Z3_set_error_handler(g_z3, z3err);
	solver = Z3_mk_simple_solver(g_z3);
	Z3_solver_inc_ref(g_z3, solver);
	Z3_params p = Z3_mk_params(g_z3); Z3_params_inc_ref(g_z3, p);
	Z3_params_set_uint(g_z3, p, Z3_mk_string_symbol(g_z3, "random_seed"), opt.seed);
	Z3_params_set_uint(g_z3, p, Z3_mk_string_symbol(g_z3, "rlimit"), opt.quickRl); // a resource limit, not a time limit: deterministic, and no timer thread across forks
	Z3_solver_set_params(g_z3, solver, p);
	scratch = Z3_mk_simple_solver(g_z3); Z3_solver_inc_ref(g_z3, scratch); Z3_solver_set_params(g_z3, scratch, p);
}
static Z3_ast boolOf(Expr *e)
{
	Z3_ast a = toZ3(e);
	return Z3_mk_eq(g_z3, a, z1());
}
// variables an expression depends on (sorted, cached)
static std::unordered_map<Expr *, std::vector<int>> supp;
static const std::vector<int> &support(Expr *e)
{
	auto it = supp.find(e); if(it != supp.end()) return it->second;
	std::vector<int> r; std::unordered_set<Expr *> seen; std::vector<Expr *> st{e};
	while(!st.empty())
	{
		Expr *x = st.back(); st.pop_back();
		if(isC(x) || !seen.insert(x).second) continue;
		if(x->op == E_VAR) { r.push_back(x->c); continue; }
		if(x != e) { auto q = supp.find(x); if(q != supp.end()) { r.insert(r.end(), q->second.begin(), q->second.end()); continue; } }
		for(int i = 0; i < 3 && x->k[i]; i++) st.push_back(x->k[i]);
	}
	std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
	return supp[e] = r;
}
// constraints of pc connected to e through shared variables
static void slice(Expr *e, std::vector<Expr *> &out)
{
	std::vector<char> in(g_vars.size(), 0); std::vector<char> used(pc.size(), 0);
	for(int v : support(e)) in[v] = 1;
	for(bool ch = true; ch;)
	{
		ch = false;
		for(size_t i = pc.size(); i-- > 0;)
		{
			if(used[i]) continue;
			const std::vector<int> &s = support(pc[i]); bool hit = false;
			for(int v : s) if(in[v]) { hit = true; break; }
			if(!hit) continue;
			used[i] = 1;
			for(int v : s) if(!in[v]) { in[v] = 1; ch = true; }
		}
	}
	for(size_t i = 0; i < pc.size(); i++) if(used[i]) out.push_back(pc[i]);
}

// is pc && e satisfiable? 1 yes (model in out), 0 no, -1 unknown
static void rng(Expr *e, u64 &lo, u64 &hi, int d = 24);
#include "order.inc"
static Expr *subst(Expr *e, Expr *from, Expr *to, std::unordered_map<Expr *, Expr *> &memo)
{
	if(e == from) return to;
	if(isC(e) || e->op == E_VAR) return e;
	auto it = memo.find(e); if(it != memo.end()) return it->second;
	Expr *k[3] = {nullptr, nullptr, nullptr}; bool ch = false;
	for(int i = 0; i < 3 && e->k[i]; i++) { k[i] = subst(e->k[i], from, to, memo); ch |= k[i] != e->k[i]; }
	Expr *r = e;
	if(ch) switch(e->op)
	{
	case E_EQ: r = mkEq(k[0], k[1]); break;
	case E_ULT: case E_ULE: case E_SLT: case E_SLE: r = mkCmp(e->op, k[0], k[1]); break;
	case E_ZEXT: r = mkZExt(k[0], e->w); break;
	case E_SEXT: r = mkSExt(k[0], e->w); break;
	case E_EXTRACT: r = mkExtract(k[0], e->c, e->w); break;
	case E_CONCAT: r = mkConcat(k[0], k[1]); break;
	case E_ITE: r = mkIte(k[0], k[1], k[2]); break;
	default: r = mkBin(e->op, k[0], k[1]); break;
	}
	return memo[e] = r;
}
// an undecided ITE condition inside e (outermost first)
static Expr *iteCond(Expr *e)
{
	std::unordered_set<Expr *> seen; std::vector<Expr *> q{e};
	for(size_t i = 0; i < q.size() && i < 400; i++)
	{
		Expr *x = q[i]; if(x->op == E_ITE) return x->k[0];
		for(int j = 0; j < 3 && x->k[j]; j++) if(seen.insert(x->k[j]).second) q.push_back(x->k[j]);
	}
	return nullptr;
}
static int checkSat1(Expr *e, std::vector<u64> *out, int cube);
static int checkSat(Expr *e, std::vector<u64> *out) { return checkSat1(e, out, 8); }
static int checkSat1(Expr *e, std::vector<u64> *out, int cube)
{
	double t0 = now();
	S->queries++;
	std::vector<Expr *> sl; slice(e, sl);
	if(ord::unsatQuery(e, sl)) { S->orderHits++; S->solverUs += (long)((now() - t0) * 1e6); return 0; }
	double tOrd = now() - t0;
	bool useSlice = sl.size() * 2 <= pc.size() && avgInc > avgSl;
	Z3_solver sv = useSlice ? scratch : solver;
	Z3_ast be = boolOf(e); Z3_inc_ref(g_z3, be);
	Z3_lbool r = Z3_L_UNDEF;
	if(!opt.bvOnly)
	{
		if(!useSlice) for(; asserted < pc.size(); asserted++) Z3_solver_assert(g_z3, solver, boolOf(pc[asserted]));
		Z3_solver_push(g_z3, sv);
		if(useSlice) for(Expr *p : sl) Z3_solver_assert(g_z3, sv, boolOf(p));
		Z3_solver_assert(g_z3, sv, be);
		r = Z3_solver_check(g_z3, sv);
	}
	auto take = [&] (Z3_solver q)
	{
		Z3_model m = Z3_solver_get_model(g_z3, q); Z3_model_inc_ref(g_z3, m);
		*out = g_model;
		std::vector<char> in(g_vars.size(), 0); for(int v : support(e)) in[v] = 1; for(Expr *p : sl) for(int v : support(p)) in[v] = 1;
		for(size_t i = 0; i < g_vars.size(); i++)
		{
			if(!in[i]) continue;
			Expr *v = mkVar(i); u64 x = 0;
			Z3_ast a = v->z ? Z3_model_get_const_interp(g_z3, m, Z3_get_app_decl(g_z3, Z3_to_app(g_z3, v->z))) : nullptr;
			if(a) Z3_get_numeral_uint64(g_z3, a, (uint64_t *)&x);
			(*out)[i] = x;
		}
		Z3_model_dec_ref(g_z3, m);
	};
	if(r == Z3_L_TRUE && out) take(sv);
	if(!opt.bvOnly) Z3_solver_pop(g_z3, sv, 1);
	auto hard = [&] (unsigned rl) // bit-blast from scratch with the SAT-based solver
	{
		if(opt.verbose > 1 || getenv("SX_HARD")) fprintf(stderr, "[hard query sl=%zu] %s\n", sl.size(), strE(e, 9).c_str());
		Z3_solver s2 = Z3_mk_solver_for_logic(g_z3, Z3_mk_string_symbol(g_z3, "QF_BV")); Z3_solver_inc_ref(g_z3, s2);
		Z3_params p2 = Z3_mk_params(g_z3); Z3_params_inc_ref(g_z3, p2);
		Z3_params_set_uint(g_z3, p2, Z3_mk_string_symbol(g_z3, "rlimit"), rl);
		Z3_solver_set_params(g_z3, s2, p2); Z3_params_dec_ref(g_z3, p2);
		for(Expr *p : sl) { Z3_ast q = boolOf(p); Z3_solver_assert(g_z3, s2, q); }
		Z3_solver_assert(g_z3, s2, be);
		r = Z3_solver_check(g_z3, s2); S->hardQueries++;
		if(r == Z3_L_TRUE && out) take(s2);
		Z3_solver_dec_ref(g_z3, s2);
	};
	if(r == Z3_L_UNDEF && cube == 8) hard(opt.queryRl / 4);
	if(r == Z3_L_UNDEF && cube > 0)
	{
		// split on the condition of a multiplexer: often each half becomes trivial
		if(Expr *c = iteCond(e))
		{
			Z3_dec_ref(g_z3, be);
			std::unordered_map<Expr *, Expr *> m1, m0;
			Expr *h1 = mkBin(E_AND, c, subst(e, c, mkC(1, 1), m1)), *h0 = mkBin(E_AND, mkNot(c), subst(e, c, mkC(0, 1), m0));
			int r1 = isC(h1) && !h1->c ? 0 : checkSat1(h1, out, cube - 1);
			if(r1 == 1) return 1;
			int r0 = isC(h0) && !h0->c ? 0 : checkSat1(h0, out, cube - 1);
			return r0 == 1 ? 1 : (r0 == 0 && r1 == 0) ? 0 : -1;
		}
	}
	if(r == Z3_L_UNDEF) hard(opt.queryRl);
	Z3_dec_ref(g_z3, be);
	double dt = now() - t0;
	{ double &av = useSlice ? avgSl : avgInc; av = av * 0.9 + dt * 0.1; if(useSlice) avgInc *= 0.98; }
	S->solverUs += (long)(dt * 1e6);
	if(opt.verbose && dt > slowT) fprintf(stderr, "[slow query %.3fs (order %.3f leaves %d) r=%d slice=%zu pc=%zu] %s\n", dt, tOrd, ord::leaves, r, sl.size(), pc.size(), strE(e, 5).c_str());
	if(opt.verbose && dt > slowT && getenv("SX_SLICE")) for(Expr *p : sl) fprintf(stderr, "    %s\n", strE(p, 4).c_str());
	if(r == Z3_L_UNDEF) { S->unknowns++; return -1; }
	return r == Z3_L_TRUE;
}
static void learn(Expr *e);
static void assertPC(Expr *e)
{
	if(isC(e)) return;
	if(e->op == E_AND && e->w == 1) { assertPC(e->k[0]); assertPC(e->k[1]); return; }
	if(known.count(e)) return;
	known[e] = 1; known[mkNot(e)] = 0;
	pc.push_back(e);
	learn(e);
}
static void setModel(const std::vector<u64> &m) { g_model = m; g_stamp++; }

// ---- unsigned interval analysis over the asserted facts (a cheap sound pre-check before asking the solver)
static std::unordered_map<Expr *, std::pair<u64, u64>> bounds; static u64 rgen = 1;
static void rng(Expr *e, u64 &lo, u64 &hi, int d)
{
	u64 m = maskw(e->w);
	if(isC(e)) { lo = hi = e->c; return; }
	if(e->rstamp == rgen) { lo = e->rlo; hi = e->rhi; return; }
	lo = 0; hi = m;
	if(d > 0)
	{
		u64 al, ah, bl, bh;
		switch(e->op)
		{
		case E_ZEXT: rng(e->k[0], lo, hi, d - 1); break;
		case E_CONCAT: { rng(e->k[0], al, ah, d - 1); rng(e->k[1], bl, bh, d - 1); unsigned s = e->k[1]->w; lo = (al << s) | bl; hi = (ah << s) | bh; break; }
		case E_EXTRACT: rng(e->k[0], al, ah, d - 1); if(e->c == 0) { if(ah <= m) { lo = al; hi = ah; } } else { al >>= e->c; ah >>= e->c; if(ah <= m) { lo = al; hi = ah; } } break;
		case E_AND: if(e->w == 1) { rng(e->k[0], al, ah, d - 1); rng(e->k[1], bl, bh, d - 1); lo = al & bl; hi = ah & bh; } else { rng(e->k[0], al, ah, d - 1); rng(e->k[1], bl, bh, d - 1); hi = ah < bh ? ah : bh; } break;
		case E_OR: rng(e->k[0], al, ah, d - 1); rng(e->k[1], bl, bh, d - 1); lo = al > bl ? al : bl; { u64 x = ah | bh; hi = x ? (maskw(64 - __builtin_clzll(x))) : 0; } break;
		case E_XOR: if(e->w == 1 && isC(e->k[1]) && e->k[1]->c == 1) { rng(e->k[0], al, ah, d - 1); lo = 1 - ah; hi = 1 - al; } else { rng(e->k[0], al, ah, d - 1); rng(e->k[1], bl, bh, d - 1); u64 x = ah | bh; hi = x ? maskw(64 - __builtin_clzll(x)) : 0; } break;
		case E_ADD:
		{
			rng(e->k[0], al, ah, d - 1); rng(e->k[1], bl, bh, d - 1);
			u128 l = (u128)al + bl, h = (u128)ah + bh;
			if(h <= m) { lo = l; hi = h; } else if(l > m) { lo = (u64)l & m; hi = (u64)h & m; }
			break;
		}
		case E_SUB: rng(e->k[0], al, ah, d - 1); rng(e->k[1], bl, bh, d - 1); if(al >= bh) { lo = al - bh; hi = ah - bl; } break;
		case E_MUL: { rng(e->k[0], al, ah, d - 1); rng(e->k[1], bl, bh, d - 1); u128 h = (u128)ah * bh; if(h <= m) { lo = al * bl; hi = h; } break; }
		case E_UDIV: rng(e->k[0], al, ah, d - 1); rng(e->k[1], bl, bh, d - 1); if(bl) { lo = al / bh; hi = ah / bl; } break;
		case E_UREM: rng(e->k[0], al, ah, d - 1); rng(e->k[1], bl, bh, d - 1); if(bl) { if(ah < bl) { lo = al; hi = ah; } else hi = bh - 1 < ah ? bh - 1 : ah; } break;
		case E_LSHR: if(isC(e->k[1]) && e->k[1]->c < e->w) { rng(e->k[0], al, ah, d - 1); lo = al >> e->k[1]->c; hi = ah >> e->k[1]->c; } break;
		case E_SHL: if(isC(e->k[1]) && e->k[1]->c < e->w) { rng(e->k[0], al, ah, d - 1); u128 h = (u128)ah << e->k[1]->c; if(h <= m) { lo = al << e->k[1]->c; hi = h; } } break;
		case E_ITE:
		{
			auto it = known.find(e->k[0]);
			if(it != known.end()) { rng(it->second ? e->k[1] : e->k[2], lo, hi, d - 1); break; }
			rng(e->k[1], al, ah, d - 1); rng(e->k[2], bl, bh, d - 1); lo = al < bl ? al : bl; hi = ah > bh ? ah : bh; break;
		}
		case E_EQ: rng(e->k[0], al, ah, d - 1); rng(e->k[1], bl, bh, d - 1); if(ah < bl || bh < al) hi = 0; else if(al == ah && bl == bh) lo = 1; break;
		case E_ULT: rng(e->k[0], al, ah, d - 1); rng(e->k[1], bl, bh, d - 1); if(ah < bl) lo = 1; else if(al >= bh) hi = 0; break;
		case E_ULE: rng(e->k[0], al, ah, d - 1); rng(e->k[1], bl, bh, d - 1); if(ah <= bl) lo = 1; else if(al > bh) hi = 0; break;
		case E_SLT: case E_SLE:
		{
			rng(e->k[0], al, ah, d - 1); rng(e->k[1], bl, bh, d - 1); u64 half = 1ull << (e->k[0]->w - 1);
			if((al < half) != (ah < half) || (bl < half) != (bh < half)) break;
			u64 mm = maskw(e->k[0]->w); al = (al + half) & mm; ah = (ah + half) & mm; bl = (bl + half) & mm; bh = (bh + half) & mm;
			if(e->op == E_SLT) { if(ah < bl) lo = 1; else if(al >= bh) hi = 0; } else { if(ah <= bl) lo = 1; else if(al > bh) hi = 0; }
			break;
		}
		default: break;
		}
		if(e->w == 1 && lo != hi) { auto it = known.find(e); if(it != known.end()) lo = hi = it->second; }
	}
	if(!bounds.empty()) { auto it = bounds.find(e); if(it != bounds.end()) { if(it->second.first > lo) lo = it->second.first; if(it->second.second < hi) hi = it->second.second; } }
	if(lo > hi) { lo = 0; hi = m; } // contradictory facts: leave it to the solver
	e->rstamp = rgen; e->rlo = lo; e->rhi = hi;
}
static void setBound(Expr *x, u64 lo, u64 hi)
{
	if(isC(x)) return;
	auto it = bounds.find(x);
	if(it == bounds.end()) bounds[x] = {lo, hi}; else { it->second.first = std::max(it->second.first, lo); it->second.second = std::min(it->second.second, hi); }
	if(x->op == E_ZEXT) { setBound(x->k[0], lo, std::min(hi, maskw(x->k[0]->w))); return; }
	if(x->op == E_ADD && isC(x->k[1]))
	{
		u64 m = maskw(x->w), c = x->k[1]->c; // lo <= y + c <= hi (mod 2^w)
		u64 l = (lo - c) & m, h = (hi - c) & m; if(l <= h) setBound(x->k[0], l, h);
	}
	if(x->op == E_CONCAT) { unsigned s = x->k[1]->w; setBound(x->k[0], lo >> s, hi >> s); if(lo >> s == hi >> s) setBound(x->k[1], lo & maskw(s), hi & maskw(s)); }
}
static void learn(Expr *e) // e is asserted true
{
	bool neg = false;
	if(e->op == E_XOR && e->w == 1 && isC(e->k[1]) && e->k[1]->c == 1) { neg = true; e = e->k[0]; }
	if(e->op == E_EQ || e->op == E_ULT || e->op == E_ULE)
	{
		Expr *a = e->k[0], *b = e->k[1]; u64 al, ah, bl, bh; rng(a, al, ah); rng(b, bl, bh); u64 m = maskw(a->w);
		if(e->op == E_EQ && !neg) { u64 l = std::max(al, bl), h = std::min(ah, bh); if(l <= h) { setBound(a, l, h); setBound(b, l, h); } }
		else if(e->op == E_EQ) { if(bl == bh) { if(al == bl && al < ah) setBound(a, al + 1, ah); else if(ah == bl && al < ah) setBound(a, al, ah - 1); } if(al == ah) { if(bl == al && bl < bh) setBound(b, bl + 1, bh); else if(bh == al && bl < bh) setBound(b, bl, bh - 1); } }
		else
		{
			bool strict = (e->op == E_ULT) != neg; if(neg) { std::swap(a, b); std::swap(al, bl); std::swap(ah, bh); }
			// a < b (strict) or a <= b
			if(strict) { if(bh > 0) setBound(a, 0, bh - 1); if(al < m) setBound(b, al + 1, m); }
			else { setBound(a, 0, bh); setBound(b, al, m); }
		}
	}
	rgen++;
}

// fork; returns true in child
static bool doFork()
{
	if(S->stop) pathEnd();
	pthread_mutex_lock(&S->mu);
	bool got = S->tokens > 0; if(got) S->tokens--;
	long l = ++S->live; if(l > S->maxLive) S->maxLive = l;
	pthread_mutex_unlock(&S->mu);
	S->forks++;
	S->steps += steps - stepsReported; stepsReported = steps;
	pid_t p;
	for(int tries = 0; (p = fork()) < 0; tries++)
	{
		if(tries > 200) { // give up: cannot explore
			S->live--; if(got) releaseToken();
			engineError("fork failed: %s", strerror(errno));
		}
		usleep(20000);
	}
	if(p == 0) { depth++; return true; }
	if(!got)
	{
		pthread_mutex_lock(&S->mu);
		if(S->tokens > 0) { S->tokens--; pthread_mutex_unlock(&S->mu); }
		else
		{
			if(!S->nfree) { pthread_mutex_unlock(&S->mu); engineError("too many waiting paths"); }
			int slot = S->freeSlots[--S->nfree];
			S->waiters[S->nwait++] = slot;
			pthread_mutex_unlock(&S->mu);
			while(sem_wait(&S->sems[slot]) < 0) {}
			pthread_mutex_lock(&S->mu); S->freeSlots[S->nfree++] = slot; pthread_mutex_unlock(&S->mu);
		}
	}
	if(S->stop) pathEnd();
	depth++;
	return false;
}

static std::string esc(const std::string &s)
{
	std::string r; for(unsigned char c : s) { if(c == '"' || c == '\\') { r += '\\'; r += c; } else if(c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
	return r;
}

// Report a violation under the current g_model (which must satisfy pc).
static void reportViolation(const std::string &kind, const std::string &msg, bool fatal = true)
{
	std::string w = where();
	std::string full = kind + ": " + msg + " | " + w;
	bool isKnown = false;
	for(auto &k : opt.known) if(full.find(k) != std::string::npos) isKnown = true;
	if(isKnown) S->knownViols++;
	int idx = S->violIdx++;
	if(idx < 200)
	{
		std::string fn = opt.out + ".viol." + std::to_string(idx);
		FILE *f = fopen((fn + ".tmp").c_str(), "w");
		if(f)
		{
			fprintf(f, "{\"kind\":\"%s\",\"message\":\"%s\",\"where\":\"%s\",\"known\":%s,\"inputs\":[", esc(kind).c_str(), esc(msg).c_str(), esc(w).c_str(), isKnown ? "true" : "false");
			bool first = true;
			for(auto &g : groups)
			{
				fprintf(f, "%s{\"name\":\"%s\",\"bytes\":\"", first ? "" : ",", esc(g.name).c_str()); first = false;
				if(g.wide) { u64 v = g_model[g.firstVar]; for(unsigned i = 0; i < g.bytes; i++) fprintf(f, "%02x", (unsigned)((v >> (8 * i)) & 0xff)); }
				else for(unsigned i = 0; i < g.bytes; i++) fprintf(f, "%02x", (unsigned)(g_model[g.firstVar + i] & 0xff));
				fprintf(f, "\"}");
			}
			fprintf(f, "]}\n"); fclose(f);
			rename((fn + ".tmp").c_str(), fn.c_str());
		}
	}
	if(opt.verbose) fprintf(stderr, "VIOL %s\n", full.c_str());
	if(!isKnown)
	{
		long n = ++S->viols;
		if(n >= opt.maxViol) { S->stop = 1; sem_post(&S->done); }
	}
	if(fatal) pathEnd();
}

// does the truth of c depend on uninitialised memory?
static Expr *renameUninit(Expr *e, std::unordered_map<Expr *, Expr *> &memo)
{
	if(!e->uninit) return e;
	auto it = memo.find(e); if(it != memo.end()) return it->second;
	Expr *r;
	if(e->op == E_VAR)
	{
		unsigned idx = g_vars.size(); g_vars.push_back({"uninit'", e->w, true, -1, 0}); g_model.push_back(0);
		r = mkVar(idx);
	}
	else
	{
		Expr *k[3] = {0,0,0}; for(int i = 0; i < 3; i++) if(e->k[i]) k[i] = renameUninit(e->k[i], memo);
		switch(e->op)
		{
		case E_ZEXT: r = mkZExt(k[0], e->w); break;
		case E_SEXT: r = mkSExt(k[0], e->w); break;
		case E_EXTRACT: r = mkExtract(k[0], e->c, e->w); break;
		case E_CONCAT: r = mkConcat(k[0], k[1]); break;
		case E_ITE: r = mkIte(k[0], k[1], k[2]); break;
		case E_EQ: r = mkEq(k[0], k[1]); break;
		case E_ULT: case E_ULE: case E_SLT: case E_SLE: r = mkCmp(e->op, k[0], k[1]); break;
		default: r = mkBin(e->op, k[0], k[1]); break;
		}
	}
	memo[e] = r; return r;
}
static void checkUninit(Expr *c, const char *what)
{
	if(!c->uninit || !opt.uninit) return;
	std::unordered_map<Expr *, Expr *> memo;
	Expr *c2 = renameUninit(c, memo);
	std::vector<u64> m;
	Expr *diff = mkNot(mkEq(c, c2));
	if(isC(diff) && !diff->c) return;
	int r = checkSat(diff, &m);
	if(r == 1) { setModel(m); reportViolation("uninitialised", std::string(what) + " depends on uninitialised memory"); }
}

static bool decide(Expr *c)
{
	if(isC(c)) return c->c;
	auto it = known.find(c); if(it != known.end()) return it->second;
	if(c->uninit) checkUninit(c, "branch");
	S->symBranches++;
	{ u64 lo, hi; rng(c, lo, hi); if(lo == hi) { known[c] = lo; known[mkNot(c)] = !lo; S->rangeDecided++; return lo; } }
	bool mv = evalE(c);
	std::vector<u64> m2;
	Expr *other = mv ? mkNot(c) : c;
	int r = checkSat(other, &m2);
	if(r == 0) { known[c] = mv; known[mkNot(c)] = !mv; return mv; }
	if(r < 0) { engineError("solver answered unknown"); }
	if(doFork()) { setModel(m2); assertPC(other); return !mv; }
	assertPC(mv ? c : mkNot(c));
	return mv;
}

static u64 concretize(Expr *e, const char *why)
{
	if(isC(e)) return e->c;
	if(e->uninit) checkUninit(e, why);
	S->concretizations++;
	for(int n = 0; n < 70000; n++)
	{
		u64 v = evalE(e);
		Expr *c = mkEq(e, mkC(v, e->w));
		if(decide(c)) return v;
	}
	engineError("too many values to enumerate (%s)", why);
}
static inline u64 conc(Val &v, const char *why) { if(v.e) { v.lo = concretize(v.e, why); v.e = nullptr; } return v.lo; }

// ---------------------------------------------------------------- memory access
[[noreturn]] static void memViolation(u64 a, u64 n, bool write)
{
	std::string msg = std::string(write ? "invalid write of " : "invalid read of ") + std::to_string(n) + " bytes";
	if(a < 4096) msg += " through a null pointer";
	else
	{
		// nearest allocation
		auto it = std::upper_bound(allocs.begin(), allocs.end(), a, [] (u64 x, const Alloc &b) { return x < b.addr; });
		if(it != allocs.begin())
		{
			--it;
			if(a < it->addr + it->size + 64 || (it->addr + it->size > a))
			{
				char b[128]; snprintf(b, sizeof b, " at offset %lld of a %s heap block of %llu bytes", (long long)(a - it->addr), it->live ? "live" : "freed", (unsigned long long)it->size); msg += b;
			}
		}
		if(inArena(a, n) && (st(a) & M_RO)) msg += " (read-only memory)";
	}
	reportViolation("memory", msg);
	pathEnd();
}

static inline bool accessible(u64 a, u64 n, bool write)
{
	if(!inArena(a, n)) return false;
	const uint8_t *s = &st(a);
	for(u64 i = 0; i < n; i++) if((s[i] & 3) == 0 || (write && (s[i] & M_RO))) return false;
	return true;
}
static inline void need(u64 a, u64 n, bool write) { if(n && !accessible(a, n, write)) memViolation(a, n, write); }

static Expr *freshUninit(unsigned w)
{
	unsigned idx = g_vars.size(); g_vars.push_back({"uninit" + std::to_string(idx), w, true, -1, 0}); g_model.push_back(0xA5);
	return mkVar(idx);
}
static Expr *byteE(u64 a)
{
	uint8_t s = st(a) & 3;
	if(s == M_SYM) return sh(a);
	if(s == M_UNINIT) { Expr *e = freshUninit(8); st(a) = M_SYM; sh(a) = e; return e; }
	return mkC(*(uint8_t *)a, 8);
}

static Val loadC(u64 a, unsigned w)
{
	unsigned n = (w + 7) / 8;
	if(!inArena(a, n)) memViolation(a, n, false);
	const uint8_t *s = &st(a);
	bool allInit = true;
	for(unsigned i = 0; i < n; i++) { uint8_t q = s[i] & 3; if(q != M_INIT) { allInit = false; if(q == 0) memViolation(a, n, false); } }
	if(allInit)
	{
		Val v{0, 0, nullptr};
		switch(n) { case 1: v.lo = *(uint8_t *)a; break; case 2: v.lo = *(uint16_t *)a; break; case 4: v.lo = *(uint32_t *)a; break; case 8: v.lo = *(u64 *)a; break;
		default: memcpy(&v, (void *)a, n > 16 ? 16 : n); break; }
		if(w < 64) v.lo &= maskw(w);
		return v;
	}
	if(n > 8)
	{
		// wide: only allowed if concretizable byte by byte / uninit padding
		Val v{0, 0, nullptr}; uint8_t b[16] = {0};
		for(unsigned i = 0; i < n; i++) { Expr *e = byteE(a + i); if(!isC(e)) { if(e->op == E_VAR && e->uninit) b[i] = 0; else engineError("symbolic %u-bit load", w); } else b[i] = e->c; }
		memcpy(&v, b, 16); return v;
	}
	Expr *acc = byteE(a);
	for(unsigned i = 1; i < n; i++) acc = mkConcat(byteE(a + i), acc);
	if(acc->w > w) acc = mkExtract(acc, 0, w);
	return fromE(acc);
}

static void storeC(u64 a, const Val &v, unsigned w)
{
	unsigned n = (w + 7) / 8;
	if(!inArena(a, n)) memViolation(a, n, true);
	uint8_t *s = &st(a);
	for(unsigned i = 0; i < n; i++) if((s[i] & 3) == 0 || (s[i] & M_RO)) memViolation(a, n, true);
	if(!v.e)
	{
		switch(n) { case 1: *(uint8_t *)a = v.lo; break; case 2: *(uint16_t *)a = v.lo; break; case 4: *(uint32_t *)a = v.lo; break; case 8: *(u64 *)a = v.lo; break;
		default: memcpy((void *)a, &v, n); break; }
		memset(s, M_INIT, n);
		return;
	}
	Expr *e = v.e; if(e->w < n * 8) e = mkZExt(e, n * 8);
	for(unsigned i = 0; i < n; i++)
	{
		Expr *b = mkExtract(e, i * 8, 8);
		if(isC(b)) { *(uint8_t *)(a + i) = b->c; s[i] = M_INIT; }
		else { s[i] = M_SYM; sh(a + i) = b; }
	}
}

static unsigned trailZ(Expr *e)
{
	switch(e->op)
	{
	case E_CONST: return e->c ? __builtin_ctzll(e->c) : 64;
	case E_CONCAT: { unsigned t = trailZ(e->k[1]); return t >= e->k[1]->w ? e->k[1]->w + trailZ(e->k[0]) : t; }
	case E_ZEXT: return trailZ(e->k[0]);
	case E_ADD: case E_SUB: case E_OR: case E_XOR: { unsigned a = trailZ(e->k[0]), b = trailZ(e->k[1]); return a < b ? a : b; }
	case E_MUL: { unsigned a = trailZ(e->k[0]), b = trailZ(e->k[1]); return a + b > 63 ? 63 : a + b; }
	case E_ITE: { unsigned a = trailZ(e->k[1]), b = trailZ(e->k[2]); return a < b ? a : b; }
	default: return 0;
	}
}

// symbolic address: returns true and sets out when resolved as ITE over a small object; otherwise concretizes into addr
static bool loadSym(Expr *A, unsigned w, Val &out, u64 &addr)
{
	unsigned n = (w + 7) / 8;
	u64 v = evalE(A);
	if(!opt.concAddr && accessible(v, n, false) && n <= 8)
	{
		u64 lo = v, hi = v + n;
		while(v - lo < 4096 && inArena(lo - 1, 1) && (st(lo - 1) & 3)) lo--;
		while(hi - v < 4096 && inArena(hi, 1) && (st(hi) & 3)) hi++;
		if(hi - lo <= 2048 + n)
		{
			Expr *inside = mkBin(E_AND, mkCmp(E_ULE, mkC(lo, 64), A), mkCmp(E_ULE, A, mkC(hi - n, 64)));
			if(decide(inside))
			{
				Expr *off = mkBin(E_SUB, A, mkC(lo, 64));
				unsigned tz = trailZ(off); if(tz > 4) tz = 4;
				u64 step = 1ull << tz;
				Expr *acc = nullptr;
				for(u64 p = lo; p + n <= hi; p += step)
				{
					Val x = loadC(p, w); Expr *xe = toE(x, w);
					acc = acc ? mkIte(mkEq(A, mkC(p, 64)), xe, acc) : xe;
				}
				out = fromE(acc);
				return true;
			}
		}
	}
	addr = concretize(A, "load address");
	return false;
}

static void copyMem(u64 d, u64 s, u64 n)
{
	if(!n) return;
	need(s, n, false); need(d, n, true);
	bool plain = true;
	for(u64 i = 0; i < n; i++) if((st(s + i) & 3) != M_INIT) { plain = false; break; }
	memmove((void *)d, (void *)s, n);
	if(plain) { memset(&st(d), M_INIT, n); return; }
	std::vector<uint8_t> t(n); std::vector<Expr *> te(n);
	for(u64 i = 0; i < n; i++) { t[i] = st(s + i) & 3; te[i] = t[i] == M_SYM ? sh(s + i) : nullptr; }
	for(u64 i = 0; i < n; i++) { st(d + i) = t[i]; if(te[i]) sh(d + i) = te[i]; }
}

static u64 heapAlloc(u64 n, uint8_t kind, u64 align = 16)
{
	u64 a = (heapTop + 32 + align - 1) & ~(align - 1);
	if(n > (1ull << 27) || a + n + 64 > STACK0) { reportViolation("memory", "allocation of " + std::to_string(n) + " bytes exceeds the memory limit of the check"); pathEnd(); }
	heapTop = a + n;
	memset(&st(a), M_UNINIT, n);
	allocs.push_back({a, n, true, kind, 0}); liveAllocs++;
	return a;
}
static Alloc *findAlloc(u64 a)
{
	auto it = std::lower_bound(allocs.begin(), allocs.end(), a, [] (const Alloc &b, u64 x) { return b.addr < x; });
	return it != allocs.end() && it->addr == a ? &*it : nullptr;
}
static void heapFree(u64 a, uint8_t kind)
{
	if(!a) return;
	Alloc *p = findAlloc(a);
	if(!p) { reportViolation("memory", "free of an address that is not an allocated block"); }
	if(!p->live) { reportViolation("memory", "double free"); }
	p->live = false; liveAllocs--;
	memset(&st(a), M_NONE, p->size);
}

#include "lower.inc"
#include "interp.inc"
