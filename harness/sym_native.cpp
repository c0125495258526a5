// Native replay: values come from the counterexample file named by SYM_REPLAY (lines: name hexbytes, creation order).
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <new>
static std::vector<std::pair<std::string, std::vector<unsigned char> > > *vals; static size_t pos = 0;
static void load()
{
	if(vals) return; vals = new std::vector<std::pair<std::string, std::vector<unsigned char> > >();
	const char *fn = getenv("SYM_REPLAY"); if(!fn) return;
	FILE *f = fopen(fn, "r"); if(!f) { perror(fn); _Exit(9); }
	static char line[1 << 20];
	while(fgets(line, sizeof line, f))
	{
		char *sp = strchr(line, ' '); if(!sp) continue; *sp = 0; char *h = sp + 1; std::vector<unsigned char> b; unsigned x;
		while(h[0] && h[1] && sscanf(h, "%2x", &x) == 1) { b.push_back(x); h += 2; }
		vals->push_back(std::make_pair(std::string(line), b));
	}
	fclose(f);
}
static long live = 0;
extern "C" {
void sym_bytes(const char *name, void *p, size_t n)
{
	load(); memset(p, 0, n);
	if(pos < vals->size())
	{
		if((*vals)[pos].first != name) { fprintf(stderr, "REPLAY-DIVERGED expected %s got %s\n", (*vals)[pos].first.c_str(), name); _Exit(8); }
		size_t m = (*vals)[pos].second.size(); memcpy(p, (*vals)[pos].second.data(), m < n ? m : n);
	}
	pos++;
}
void sym_assume(int c) { if(!c) { fprintf(stderr, "REPLAY-ASSUME-FAILED\n"); _Exit(7); } }
void sym_assert_(int c, const char *msg) { if(!c) { fprintf(stderr, "REPLAY-VIOLATION assertion: %s\n", msg); fflush(stderr); _Exit(42); } }
void sym_fail(const char *msg) { sym_assert_(0, msg); }
void sym_reach(const char *l) { if(getenv("SYM_VERBOSE")) fprintf(stderr, "reach %s\n", l); }
uint64_t sym_concretize(uint64_t v) { return v; }
long sym_heap_live(void) { return live; }
int sym_tier(void) { const char *t = getenv("SYM_TIER"); return t ? atoi(t) : 0; }
long sym_param(const char *name, long d) { std::string n = std::string("SYM_PARAM_") + name; const char *t = getenv(n.c_str()); return t ? atol(t) : d; }
int sym_native(void) { return 1; }
void sym_note(const char *n, uint64_t v) { if(getenv("SYM_VERBOSE")) fprintf(stderr, "note %s %lld\n", n, (long long)v); }
int sym_is_symbolic(uint64_t) { return 0; }
unsigned sym_choice_(const char *name, unsigned n) { uint8_t v; sym_bytes(name, &v, 1); sym_assume(v < n); return v; }
void sym_cut(void) { fprintf(stderr, "REPLAY-CUT\n"); _Exit(7); }
}
void *operator new(size_t n) { live++; void *p = malloc(n ? n : 1); if(!p) abort(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if(p) live--; free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
extern "C" void sym_main(void);
int main() { sym_main(); fprintf(stderr, "REPLAY-COMPLETED\n"); fflush(stderr); _Exit(0); }
