#pragma once
// Hash-consed bit-vector expressions (1..64 bits) with simplification, evaluation and z3 translation.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_set>
#include <vector>
#include <z3.h>

enum EOp : uint8_t { E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
	E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT, E_ITE, E_UMULO, E_SMULO };

struct Expr {
	EOp op; uint8_t w; bool uninit; // uninit: mentions an "uninitialised memory" variable
	uint32_t h;
	uint64_t c; // constant value, variable index, extract offset
	Expr *k[3];
	Z3_ast z;
	uint64_t stamp, ev;
	uint64_t rstamp, rlo, rhi; // cached unsigned interval
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w)) >> (64 - w)); }

struct VarInfo { std::string name; unsigned w; bool uninit; int group; int off; };
struct SymGroup { std::string name; unsigned bytes; int firstVar; bool wide; };

extern std::vector<VarInfo> g_vars;
extern std::vector<uint64_t> g_model;
extern uint64_t g_stamp;

struct EH { size_t operator()(const Expr *e) const { return e->h; } };
struct EE { bool operator()(const Expr *a, const Expr *b) const {
	return a->op == b->op && a->w == b->w && a->c == b->c && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2]; } };

class ExprCtx {
public:
	std::unordered_set<Expr *, EH, EE> tab;
	char *slab = nullptr; size_t left = 0;
	Expr *intern(EOp op, unsigned w, uint64_t c, Expr *a = nullptr, Expr *b = nullptr, Expr *d = nullptr)
	{
		Expr t; memset(&t, 0, sizeof t);
		t.op = op; t.w = w; t.c = c; t.k[0] = a; t.k[1] = b; t.k[2] = d;
		uint64_t h = op * 0x9E3779B97F4A7C15ull + w * 0x100000001b3ull + c * 0xff51afd7ed558ccdull;
		h ^= h >> 29;
		h += ((uintptr_t)a >> 4) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 31;
		h += ((uintptr_t)b >> 4) * 0x9E3779B97F4A7C15ull; h ^= h >> 30;
		h += ((uintptr_t)d >> 4) * 0xff51afd7ed558ccdull; h ^= h >> 32;
		t.h = (uint32_t)h;
		auto it = tab.find(&t);
		if(it != tab.end()) return *it;
		if(left < sizeof(Expr)) { left = 1 << 16; slab = (char *)malloc(left); }
		Expr *e = (Expr *)slab; slab += sizeof(Expr); left -= sizeof(Expr);
		*e = t;
		e->uninit = (a && a->uninit) || (b && b->uninit) || (d && d->uninit);
		if(op == E_VAR && g_vars[c].uninit) e->uninit = true;
		tab.insert(e);
		return e;
	}
};
extern ExprCtx g_ec;

static inline bool isC(Expr *e) { return e->op == E_CONST; }
static inline Expr *mkC(uint64_t v, unsigned w) { return g_ec.intern(E_CONST, w, v & maskw(w)); }
Expr *mkExtract(Expr *x, unsigned off, unsigned len);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkZExt(Expr *x, unsigned w);
Expr *mkSExt(Expr *x, unsigned w);
Expr *mkBin(EOp op, Expr *a, Expr *b);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkNot(Expr *c);
Expr *mkEq(Expr *a, Expr *b);
Expr *mkCmp(EOp op, Expr *a, Expr *b);
Expr *mkVar(unsigned idx);
uint64_t evalE(Expr *e);
Z3_ast toZ3(Expr *e);
std::string strE(Expr *e, int depth = 6);
extern Z3_context g_z3;
uint64_t foldBin(EOp op, uint64_t a, uint64_t b, unsigned w);
