// C09: AMF0 values survive an encode/decode round trip
#include "amfref.h"

static unsigned budget; // members left to hand out
static std::string text(const char *name, unsigned max) { unsigned n = sym_choice(name, max + 1); std::string s(n, 'x'); if(n) sym_bytes("text", &s[0], n); return s; }
static std::shared_ptr<AMF0> make(Ref *r, unsigned depth)
{
	unsigned k = sym_choice("kind", depth ? 9 : 5);
	switch(k)
	{
	case 0: { r->kind = Ref::NUM; r->bits = sym_u64("bits"); double d; memcpy(&d, &r->bits, 8); return AMF0::Number(d); }
	case 1: r->kind = Ref::BOOLEAN; r->truth = sym_bool("truth"); return AMF0::Boolean(r->truth);
	case 2: r->kind = Ref::STR; r->text = text("len", sym_param("strlen", 2)); return AMF0::String(r->text);
	case 3: r->kind = Ref::NUL; return AMF0::Null();
	case 4: r->kind = Ref::UNDEF; return AMF0::Undefined();
	case 5:
	{
		r->kind = Ref::ARR; auto a = AMF0::Array(); unsigned n = sym_choice("n", 3);
		for(unsigned i = 0; i < n && budget; i++) { budget--; Ref *kid = new Ref; auto v = make(kid, depth - 1); r->kids.push_back(kid); ASSERT(a->appendValue(v) == a.get(), "append"); }
		return a;
	}
	default:
	{
		std::shared_ptr<AMF0Object> o; r->kind = k == 6 ? Ref::OBJ : k == 7 ? Ref::ECMA : Ref::TYPED;
		if(k == 6) o = AMF0::Object(); else if(k == 7) o = AMF0::ECMAArray();
		else { r->text = text("class", 1); std::string z; for(char c : r->text) { if(!c) break; z.push_back(c); } r->text = z; o = AMF0::TypedObject(z.c_str()); }
		unsigned n = sym_choice("n", 3);
		for(unsigned i = 0; i < n && budget; i++)
		{
			budget--; Ref *kid = new Ref; auto v = make(kid, depth - 1); std::string key = text("key", sym_param("keylen", 1)); o->putValueAtKey(v, key);
			size_t j; for(j = 0; j < r->keys.size(); j++) if(r->keys[j] == key) break;
			if(j < r->keys.size()) r->kids[j] = kid; else { r->keys.push_back(key); r->kids.push_back(kid); }
		}
		return o;
	}
	}
}
static void roundTrip(AMF0 *v, const Ref *r)
{
	AMF0::Bytes bytes = AMF0::encode(v); uint8_t *b = new uint8_t[bytes.size()]; memcpy(b, bytes.data(), bytes.size());
	size_t at = 0; Ref *seen = refValue(b, bytes.size(), at, 0); ASSERT(seen && at == bytes.size(), "an encoding denotes a value");
	const uint8_t *cursor = b; auto w = AMF0::decode(&cursor, b + bytes.size());
	ASSERT(w, "an encoding decodes"); ASSERT(cursor == b + bytes.size(), "decoding consumes the whole encoding"); matches(w.get(), r); matches(w.get(), seen);
	AMF0::Bytes again = AMF0::encode(w.get()); ASSERT(again.size() == bytes.size(), "re-encoding has the same length");
	bool eq = true; for(size_t i = 0; i < bytes.size(); i++) eq = eq & (again[i] == bytes[i]); ASSERT(eq, "re-encoding gives the same bytes");
	auto d = v->duplicate(); ASSERT(d && d.get() != v, "a duplicate is another value"); matches(d.get(), r);
	// changing the duplicate leaves the original alone
	if(auto n = d->asNumber()) n->doubleValue(7.0); else if(auto t = d->asBoolean()) t->booleanValue(!t->booleanValue()); else if(auto s = d->asString()) s->stringValue("other");
	else if(auto a = d->asArray()) { if(a->size()) { if(auto o = a->getValueAtIndex(0)->asObject()) o->clear(); } a->clear(); ASSERT(a->size() == 0, "cleared"); }
	else if(auto o = d->asObject()) { for(auto it = o->begin(); it != o->end(); ++it) if(auto p = it->second->asObject()) p->clear(); else if(auto q = it->second->asArray()) q->clear(); o->clear(); ASSERT(o->size() == 0, "cleared"); }
	matches(v, r); delete[] b;
}
extern "C" void sym_main()
{
	switch(sym_part(5))
	{
	case 0: { budget = sym_param("budget", 2); Ref r; auto v = make(&r, sym_param("depth", 2)); matches(v.get(), &r); roundTrip(v.get(), &r); sym_reach("value"); break; }
	case 1: // long strings
	{
		static const unsigned lens[] = { 255, 256, 65534, 65535, 65536, 65537 };
		unsigned n = lens[sym_choice("len", 6)], where = sym_choice("where", 3); std::string s(n, 'a'); char c = (char)sym_u8("c"); s[where == 0 ? 0 : where == 1 ? n / 2 : n - 1] = c;
		auto v = AMF0::String(s); AMF0::Bytes b = AMF0::encode(v.get()); ASSERT(b.size() == (n > 65535 ? 5 : 3) + n && b[0] == (n > 65535 ? 12 : 2), "long strings use the long form");
		const uint8_t *cursor = b.data(); auto w = AMF0::decode(&cursor, cursor + b.size()); ASSERT(w && cursor == b.data() + b.size(), "consumed"); AMF0String *t = w->asString();
		ASSERT(t && t->size() == n, "long string length"); const char *q = t->stringValue(); ASSERT(q[0] == s[0] && q[n / 2] == s[n / 2] && q[n - 1] == s[n - 1] && q[n - 2] == s[n - 2], "long string content");
		// keys: at most 65535 bytes
		auto o = AMF0::Object(); o->putValueAtKey(AMF0::True(), s); ASSERT(o->size() == (n < 65536), "a key that cannot be encoded is not stored");
		AMF0::Bytes e = AMF0::encode(o.get()); cursor = e.data(); auto p = AMF0::decode(&cursor, cursor + e.size()); ASSERT(p && cursor == e.data() + e.size() && p->asObject()->size() == o->size(), "object with a long key"); 
		if(n < 65536) ASSERT(p->getValueAtKey(s)->booleanValue(), "member with a long key");
		auto cls = AMF0::TypedObject(std::string(n, 'k').c_str()); AMF0::Bytes f = AMF0::encode(cls.get()); cursor = f.data(); auto g = AMF0::decode(&cursor, cursor + f.size()); ASSERT(g && cursor == f.data() + f.size() && g->isTypedObject() && strlen(g->asTypedObject()->className()) == (n < 65536 ? n : 65535), "long class name");
		sym_reach("long"); break;
	}
	case 2: // array operations against a plain vector
	{
		auto a = AMF0::Array(); std::vector<int> m; // -1: absent
		for(int i = 0; i < 3; i++) { a->appendValue(AMF0::Number(i)); m.push_back(i); }
		for(int step = 0; step < (int)sym_param("arrayops", 2); step++)
		{
			unsigned op = sym_choice("op", 7); int val = 10 + step;
			if(op == 0) { a->appendValue(AMF0::Number(val)); m.push_back(val); }
			else if(op == 1) { unsigned i = sym_choice("index", 7); a->putValueAtIndex(AMF0::Number(val), i); if(i >= m.size()) m.resize(i + 1, -1); m[i] = val; }
			else if(op == 2) { unsigned n = sym_choice("size", 6); a->resize(n); m.resize(n, -1); }
			else if(op == 3) { uint32_t i = sym_u32("index"); a->reset(i); if(i < m.size()) m[sym_concretize(i)] = -1; }
			else if(op == 4)
			{
				uint32_t i = sym_u32("from"); size_t n = sym_u32("count"); a->remove(i, n);
				if(i < m.size()) { size_t from = sym_concretize(i), left = m.size() - from; size_t cut = n < left ? sym_concretize(n) : left; m.erase(m.begin() + from, m.begin() + from + cut); }
			}
			else if(op == 5) { a->clear(); m.clear(); }
			else { a->putValueAtIndex(std::shared_ptr<AMF0>(), 1); if(m.size() < 2) m.resize(2, -1); m[1] = -1; }
			ASSERT(a->size() == m.size(), "array length"); 
			for(size_t i = 0; i < m.size() + 2; i++) { auto v = a->getValueAtIndex(i); ASSERT(v, "a value"); if(i < m.size() && m[i] >= 0) ASSERT(v->isNumber() && v->doubleValue() == m[i], "array element"); else ASSERT(v->isUndefined(), "absent element is undefined"); }
		}
		AMF0::Bytes b = AMF0::encode(a.get()); const uint8_t *cursor = b.data(); auto w = AMF0::decode(&cursor, cursor + b.size()); ASSERT(w && cursor == b.data() + b.size() && w->asArray() && w->asArray()->size() == m.size(), "array round trip");
		for(size_t i = 0; i < m.size(); i++) ASSERT(m[i] < 0 ? w->getValueAtIndex(i)->isUndefined() : w->getValueAtIndex(i)->doubleValue() == m[i], "array element after the round trip");
		sym_reach("array"); break;
	}
	case 3: // object operations
	{
		auto o = AMF0::Object(); std::string k1 = text("k1", 2), k2 = text("k2", 2); auto a = AMF0::Number(1), b = AMF0::Number(2);
		bool same = k1 == k2; o->putValueAtKey(a, k1); ASSERT(o->has(k1) && o->getValueAtKey(k1) == a && o->size() == 1, "stored"); ASSERT(o->has(k2) == same, "only what was stored");
		o->putValueAtKey(b, k2); ASSERT(o->size() == (same ? 1 : 2) && o->getValueAtKey(k2) == b && o->getValueAtKey(k1) == (same ? b : a), "replaced or added");
		o->erase(k1); ASSERT(!o->has(k1) && o->has(k2) == !same && o->getValueAtKey(k1)->isUndefined(), "erased"); 
		o->putValueAtKey(std::shared_ptr<AMF0>(), k1); AMF0::Bytes e = AMF0::encode(o.get()); const uint8_t *cursor = e.data(); auto w = AMF0::decode(&cursor, cursor + e.size()); ASSERT(w && cursor == e.data() + e.size(), "an empty member encodes"); ASSERT(w->asObject()->has(k1) && w->getValueAtKey(k1)->isUndefined(), "an empty member is undefined");
		sym_reach("object"); break;
	}
	case 4: // several values one after the other
	{
		std::vector<std::shared_ptr<AMF0>> list, out; std::vector<Ref*> refs; unsigned n = sym_choice("values", 4);
		for(unsigned i = 0; i < n; i++) { Ref *r = new Ref; budget = 0; refs.push_back(r); list.push_back(make(r, 0)); }
		AMF0::Bytes b = AMF0::encode(list); ASSERT(AMF0::decode(b.data(), b.data() + b.size(), out), "a sequence decodes"); ASSERT(out.size() == n, "number of values");
		for(unsigned i = 0; i < n; i++) matches(out[i].get(), refs[i]); sym_reach("sequence"); break;
	}
	}
}
