// C08: decoding arbitrary bytes as AMF0
#include "amfref.h"

static void check(const uint8_t *b, size_t n)
{
	const uint8_t *cursor = b, *limit = b + n; size_t at = 0;
	auto v = AMF0::decode(&cursor, limit);
	Ref *r = refValue(b, n, at, 0);
	ASSERT((v != nullptr) == (r != nullptr), "decodes exactly if the bytes denote a value");
	if(v) { ASSERT(cursor == b + at, "consumes exactly the value"); matches(v.get(), r); sym_reach("decoded"); }
	else { ASSERT(cursor == b, "a failed decode consumes nothing"); sym_reach("rejected"); }
}
extern "C" void sym_main()
{
	static const char *prefixes[] = { // "??" is an arbitrary byte
		"", "03 00 01 61", "08 00 00 00 00 00 01", "0a 00 00 00 02", "10 00 01", "0a 00 00 00 ?? ?? 00 00 00 01", "03 00 00 ?? ?? ?? ?? 00 00 09", "03 00 01 ?? 05 00 01 ?? ?? 00 00 09", "03 00 01 61 03 00 00 09 00 00", "00 ?? ?? ?? ?? ?? ?? ?? ??", "0c 00 00 00", "08 ?? ?? ?? ?? 00 00 ??", "03 00 02 ?? ?? 06 00 01 ?? 0d 00 02 ?? ?? 05 00 00 09" };
	switch(sym_part(3))
	{
	case 0:
	{
		unsigned n = sym_choice("len", sym_param("len", 9) + 1); uint8_t *b = new uint8_t[n]; sym_bytes("bytes", b, n);
		check(b, n); delete[] b; break;
	}
	case 1: // fixed beginnings, arbitrary rest
	{
		const char *p = prefixes[sym_choice("prefix", sizeof(prefixes) / sizeof(*prefixes))];
		unsigned fixed = (strlen(p) + 1) / 3, n = fixed + sym_choice("len", sym_param("tail", 4) + 1); uint8_t *b = new uint8_t[n]; sym_bytes("bytes", b, n);
		for(unsigned i = 0; i < fixed; i++) if(p[3 * i] != '?') { auto hex = [] (char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }; b[i] = hex(p[3 * i]) << 4 | hex(p[3 * i + 1]); }
		check(b, n);
		std::vector<std::shared_ptr<AMF0>> list; size_t at = 0; std::vector<Ref*> refs; bool ok = AMF0::decode(b, b + n, list);
		bool good = true; while(good && at < n) { Ref *r = refValue(b, n, at, 0); if(r) refs.push_back(r); else good = false; }
		ASSERT(ok == good, "a sequence decodes exactly if all of it does"); ASSERT(list.size() == refs.size(), "values of a sequence up to the first bad one");
		for(size_t i = 0; i < refs.size(); i++) matches(list[i].get(), refs[i]);
		sym_reach("sequence"); delete[] b; break;
	}
	case 2: // nesting
	{
		unsigned depth = 30 + sym_choice("depth", 8), how = sym_choice("how", 4); if(depth == 37) depth = 2000;
		std::vector<uint8_t> b; std::vector<unsigned> kind;
		for(unsigned i = 0; i < depth; i++)
		{
			unsigned k = how == 3 ? i % 3 : how; kind.push_back(k);
			if(k == 0) { static const uint8_t s[] = {10, 0, 0, 0, 1}; b.insert(b.end(), s, s + 5); }
			else if(k == 1) { static const uint8_t s[] = {3, 0, 1, 'k'}; b.insert(b.end(), s, s + 4); }
			else { static const uint8_t s[] = {8, 0, 0, 0, 0, 0, 1, 'k'}; b.insert(b.end(), s, s + 8); }
		}
		size_t hole = b.size(); b.push_back(0); sym_bytes("leaf", b.data() + hole, 1); uint8_t leaf = b[hole];
		for(unsigned i = depth; i-- > 0; ) if(kind[i]) { static const uint8_t s[] = {0, 0, 9}; b.insert(b.end(), s, s + 3); }
		uint8_t *q = new uint8_t[b.size()]; memcpy(q, b.data(), b.size());
		const uint8_t *cursor = q; auto v = AMF0::decode(&cursor, q + b.size());
		if(depth > AMF0::MAX_DEPTH) { ASSERT(!v, "nesting beyond the limit is rejected"); ASSERT(cursor == q, "a failed decode consumes nothing"); sym_reach("toodeep"); }
		else if(leaf == 5) { ASSERT(v && cursor == q + b.size(), "nesting up to the limit is accepted"); sym_reach("deep"); }
		delete[] q; break;
	}
	}
}
