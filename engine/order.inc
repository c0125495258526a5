// A sound, incomplete refuter for conjunctions of unsigned order facts: difference constraints over opaque terms
// (negative-cycle detection), with a bounded case split over the propositional structure of the query.
// It only ever answers "unsatisfiable"; everything else goes to z3.
namespace ord {
typedef __int128 W;
static const W INF = (W)1 << 100;
struct Fact { Expr *a, *b; int strict; }; // a + strict <= b; a or b null: the constant zero
struct Net {
	std::vector<Expr *> node; std::unordered_map<Expr *, int> idx;
	struct Edge { int u, v; W w; }; // v - u <= w
	std::vector<Edge> ed;
	int get(Expr *e)
	{
		while(e->op == E_ZEXT) e = e->k[0];
		auto it = idx.find(e); if(it != idx.end()) return it->second;
		int n = node.size(); node.push_back(e); idx[e] = n;
		if(isC(e)) { ed.push_back({0, n, (W)e->c}); ed.push_back({n, 0, -(W)e->c}); }
		else { u64 lo, hi; rng(e, lo, hi); ed.push_back({0, n, (W)hi}); ed.push_back({n, 0, -(W)lo}); if(e->op == E_ADD && isC(e->k[1])) get(e->k[0]); }
		return n;
	}
	Net() { node.push_back(nullptr); }
	void le(Expr *a, Expr *b, int strict) { int x = get(a), y = get(b); ed.push_back({y, x, -(W)strict}); }
	// shortest distances from s; true if a negative cycle was found
	bool bf(int s, std::vector<W> &d, bool rev)
	{
		size_t n = node.size(); d.assign(n, s < 0 ? 0 : INF); if(s >= 0) d[s] = 0;
		for(size_t i = 0; i <= n; i++)
		{
			bool ch = false;
			for(auto &e : ed) { int u = rev ? e.v : e.u, v = rev ? e.u : e.v; if(d[u] < INF && d[u] + e.w < d[v]) { d[v] = d[u] + e.w; ch = true; } }
			if(!ch) return false;
		}
		return true;
	}
	bool unsat()
	{
		std::vector<W> up, dn; std::vector<char> done;
		if(node.size() > 80) return false;
		for(int round = 0; round < 3; round++)
		{
			if(bf(-1, up, false)) return true;
			bf(0, up, false); bf(0, dn, true); // node <= up, node >= -dn
			bool added = false; done.resize(node.size(), 0);
			for(size_t i = 1; i < node.size(); i++)
			{
				Expr *e = node[i]; if(done[i] || e->op != E_ADD || !isC(e->k[1])) continue;
				int t = get(e->k[0]); W m = (W)maskw(e->w), c = e->k[1]->c;
				if(up[t] <= m - c) { ed.push_back({t, (int)i, c}); ed.push_back({(int)i, t, -c}); done[i] = 1; added = true; }
				else if(-dn[t] >= m + 1 - c) { W k = m + 1 - c; ed.push_back({t, (int)i, -k}); ed.push_back({(int)i, t, k}); done[i] = 1; added = true; }
			}
			if(!added) return false;
		}
		return false;
	}
};
static int leaves, deep;
struct Deep { Deep() { deep++; } ~Deep() { deep--; } };
// facts: order literals so far; todo: formulas still to be split (asserted true). true: refuted.
static bool refute(std::vector<Expr *> facts, std::vector<Expr *> todo, std::unordered_map<Expr *, bool> as)
{
	Deep guard; if(deep > 40) { leaves += 1000; return false; }
	std::vector<Expr *> later;
	auto split = [&] (Expr *p, Expr *q) // p or q, with the first false in the second branch
	{
		for(Expr *l : later) { as.erase(l); as.erase(mkNot(l)); todo.push_back(l); }
		std::vector<Expr *> t1 = todo; t1.push_back(p);
		if(!refute(facts, t1, as)) return false;
		todo.push_back(q); if(q != mkNot(p)) todo.push_back(mkNot(p));
		return refute(facts, todo, as);
	};
	while(!todo.empty())
	{
		Expr *e = todo.back(); todo.pop_back();
		if(isC(e)) { if(!e->c) return true; continue; }
		auto it = as.find(e); if(it != as.end()) { if(!it->second) return true; continue; }
		{ auto kt = known.find(e); if(kt != known.end()) { if(!kt->second) return true; continue; } }
		as[e] = true; as[mkNot(e)] = false;
		if(e->op == E_AND) { todo.push_back(e->k[0]); todo.push_back(e->k[1]); continue; }
		bool neg = e->op == E_XOR && isC(e->k[1]); Expr *b = neg ? e->k[0] : e;
		if(b->op == E_ULT || b->op == E_ULE || (b->op == E_EQ && b->k[0]->w > 1)) { facts.push_back(e); if(neg && b->op == E_EQ) later.push_back(e); continue; }
		if((neg && b->op == E_OR)) { todo.push_back(mkNot(b->k[0])); todo.push_back(mkNot(b->k[1])); continue; }
		later.push_back(e);
	}
	// quick refutation before splitting
	Net n;
	for(Expr *f : facts)
	{
		bool neg = f->op == E_XOR; Expr *b = neg ? f->k[0] : f;
		if(b->op == E_EQ) { if(!neg) { n.le(b->k[0], b->k[1], 0); n.le(b->k[1], b->k[0], 0); } else { n.get(b->k[0]); n.get(b->k[1]); } }
		else if(!neg) n.le(b->k[0], b->k[1], b->op == E_ULT); else n.le(b->k[1], b->k[0], b->op == E_ULE);
	}
	if(n.unsat()) { leaves++; return true; }
	if(leaves > 300) return false;
	// choose a formula to split: one with both sides open
	for(size_t i = 0; i < later.size(); i++)
	{
		Expr *e = later[i]; later.erase(later.begin() + i);
		bool neg = e->op == E_XOR && isC(e->k[1]); Expr *b = neg ? e->k[0] : e;
		as.erase(e); as.erase(mkNot(e));
		if(!neg && b->op == E_OR) return split(b->k[0], b->k[1]);
		if(neg && b->op == E_AND) return split(mkNot(b->k[0]), mkNot(b->k[1]));
		if(b->op == E_XOR || (b->op == E_EQ && b->k[0]->w == 1))
		{
			bool same = (b->op == E_EQ) != neg; Expr *x = b->k[0], *y = b->k[1];
			return split(mkBin(E_AND, x, same ? y : mkNot(y)), mkBin(E_AND, mkNot(x), same ? mkNot(y) : y));
		}
		if(b->op == E_ITE) return split(mkBin(E_AND, b->k[0], neg ? mkNot(b->k[1]) : b->k[1]), mkBin(E_AND, mkNot(b->k[0]), neg ? mkNot(b->k[2]) : b->k[2]));
		if(neg && b->op == E_EQ && !isC(b->k[0]) && !isC(b->k[1])) { Expr *p = mkCmp(E_ULT, b->k[0], b->k[1]), *q = mkCmp(E_ULT, b->k[1], b->k[0]); std::vector<Expr *> f2; for(Expr *f : facts) if(f != e) f2.push_back(f); facts = f2; return split(p, q); }
		later.insert(later.begin() + i, e);
	}
	leaves++;
	return false;
}
static int orderWorth(Expr *e, int d) // does the query mention a wide order or equality atom?
{
	if(d == 0) return 0;
	if((e->op == E_ULT || e->op == E_ULE || e->op == E_EQ) && e->k[0]->w >= 8 && !isC(e->k[0]) && !isC(e->k[1])) return 1;
	if(e->w != 1 || isC(e) || e->op == E_VAR || e->op == E_EXTRACT) return 0;
	for(int i = 0; i < 3 && e->k[i]; i++) if(e->k[i]->w == 1 && orderWorth(e->k[i], d - 1)) return 1;
	return 0;
}
static bool unsatQuery(Expr *e, const std::vector<Expr *> &sl)
{
	if(!orderWorth(e, 12)) return false;
	std::vector<Expr *> facts; 
	for(Expr *p : sl)
	{
		Expr *b = p->op == E_XOR && isC(p->k[1]) ? p->k[0] : p;
		if(b->op == E_ULT || b->op == E_ULE || (b->op == E_EQ && b->k[0]->w > 1)) facts.push_back(p);
	}
	if(facts.size() > 120) return false;
	leaves = 0; std::vector<Expr *> todo{e};
	return refute(facts, todo, {});
}
}
