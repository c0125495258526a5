// An independent reader of AMF0 data, used as the oracle for C08, C09 and C38.
#pragma once
#include "sym.h"
#include "rtmfp/AMF.hpp"
#include <cstring>
#include <string>
#include <vector>
using namespace com::zenomt; using namespace com::zenomt::rtmp;

struct Ref {
	enum Kind { NUM, BOOLEAN, STR, OBJ, NUL, UNDEF, ECMA, ARR, TYPED } kind;
	uint64_t bits = 0; bool truth = false; std::string text;
	std::vector<std::string> keys; std::vector<Ref*> kids;
};
static unsigned refDepthLimit = 32;
static bool refString(const uint8_t *b, size_t n, size_t &at, unsigned lenBytes, std::string &out)
{
	if(n - at < lenBytes) return false;
	size_t len = 0; for(unsigned i = 0; i < lenBytes; i++) len = len << 8 | b[at + i];
	if(len > n - at - lenBytes) return false;
	len = sym_concretize(len); at += lenBytes; out = std::string((const char *)b + at, len); at += len; return true;
}
static Ref *refValue(const uint8_t *b, size_t n, size_t &at, unsigned depth);
static bool refMembers(const uint8_t *b, size_t n, size_t &at, unsigned depth, Ref *r)
{
	for(;;)
	{
		if(n - at < 3) return false;
		if(b[at] == 0) if(b[at + 1] == 0) if(b[at + 2] == 9) { at += 3; return true; }
		std::string key; if(!refString(b, n, at, 2, key)) return false;
		Ref *v = refValue(b, n, at, depth + 1); if(!v) return false;
		size_t i; for(i = 0; i < r->keys.size(); i++) if(r->keys[i] == key) break;
		if(i < r->keys.size()) r->kids[i] = v; else { r->keys.push_back(key); r->kids.push_back(v); }
	}
}
static Ref *refValue(const uint8_t *b, size_t n, size_t &at, unsigned depth)
{
	if(depth > refDepthLimit || at >= n) return nullptr;
	Ref *r = new Ref; uint8_t m = b[at++];
	if(m == 0) { r->kind = Ref::NUM; if(n - at < 8) return nullptr; for(int i = 0; i < 8; i++) r->bits = r->bits << 8 | b[at++]; return r; }
	if(m == 1) { r->kind = Ref::BOOLEAN; if(at >= n) return nullptr; r->truth = b[at++] != 0; return r; }
	if(m == 2) { r->kind = Ref::STR; return refString(b, n, at, 2, r->text) ? r : nullptr; }
	if(m == 12) { r->kind = Ref::STR; return refString(b, n, at, 4, r->text) ? r : nullptr; }
	if(m == 3) { r->kind = Ref::OBJ; return refMembers(b, n, at, depth, r) ? r : nullptr; }
	if(m == 5) { r->kind = Ref::NUL; return r; }
	if(m == 6 || m == 13) { r->kind = Ref::UNDEF; return r; }
	if(m == 8) { r->kind = Ref::ECMA; if(n - at < 4) return nullptr; at += 4; return refMembers(b, n, at, depth, r) ? r : nullptr; }
	if(m == 16) { r->kind = Ref::TYPED; return refString(b, n, at, 2, r->text) && refMembers(b, n, at, depth, r) ? r : nullptr; }
	if(m == 10)
	{
		r->kind = Ref::ARR; if(n - at < 4) return nullptr;
		uint32_t count = 0; for(int i = 0; i < 4; i++) count = count << 8 | b[at++];
		for(uint32_t i = 0; i < count; i++) { Ref *v = refValue(b, n, at, depth + 1); if(!v) return nullptr; r->kids.push_back(v); }
		return r;
	}
	return nullptr;
}
static bool sameBytes(const std::string &a, const std::string &b)
{
	if(a.size() != b.size()) return false;
	bool eq = true; for(size_t i = 0; i < a.size(); i++) eq = eq & (a[i] == b[i]); return eq;
}
static void matches(AMF0 *v, const Ref *r)
{
	static const AMF0::Type types[] = { AMF0::AMF0_NUMBER, AMF0::AMF0_BOOLEAN, AMF0::AMF0_STRING, AMF0::AMF0_OBJECT, AMF0::AMF0_NULL, AMF0::AMF0_UNDEFINED, AMF0::AMF0_ECMAARRAY, AMF0::AMF0_ARRAY, AMF0::AMF0_TYPED_OBJECT };
	ASSERT(v, "a value is there"); ASSERT(v->getType() == types[r->kind], "type of the decoded value");
	bool keyed = r->kind == Ref::OBJ || r->kind == Ref::ECMA || r->kind == Ref::TYPED;
	ASSERT(v->isNumber() == (r->kind == Ref::NUM) && (v->asNumber() != nullptr) == v->isNumber(), "number test");
	ASSERT(v->isBoolean() == (r->kind == Ref::BOOLEAN) && (v->asBoolean() != nullptr) == v->isBoolean(), "boolean test");
	ASSERT(v->isString() == (r->kind == Ref::STR) && (v->asString() != nullptr) == v->isString(), "string test");
	ASSERT(v->isObject() == keyed && (v->asObject() != nullptr) == keyed, "object test");
	ASSERT(v->isNull() == (r->kind == Ref::NUL) && (v->asNull() != nullptr) == v->isNull(), "null test");
	ASSERT(v->isUndefined() == (r->kind == Ref::UNDEF) && (v->asUndefined() != nullptr) == v->isUndefined(), "undefined test");
	ASSERT(v->isECMAArray() == (r->kind == Ref::ECMA) && (v->asECMAArray() != nullptr) == v->isECMAArray(), "associative array test");
	ASSERT(v->isArray() == (r->kind == Ref::ARR) && (v->asArray() != nullptr) == v->isArray(), "array test");
	ASSERT(v->isTypedObject() == (r->kind == Ref::TYPED) && (v->asTypedObject() != nullptr) == v->isTypedObject(), "typed object test");
	switch(r->kind)
	{
	case Ref::NUM: { double d = v->doubleValue(); uint64_t u; memcpy(&u, &d, 8); ASSERT(u == r->bits, "number"); break; }
	case Ref::BOOLEAN: ASSERT(v->booleanValue() == r->truth, "boolean"); ASSERT(v->isTruthy() == r->truth, "truth of a boolean"); break;
	case Ref::STR: { AMF0String *s = v->asString(); ASSERT(s->size() == r->text.size(), "string length"); ASSERT(sameBytes(std::string(s->stringValue(), s->size()), r->text), "string content"); ASSERT(v->isTruthy() == !r->text.empty(), "truth of a string"); break; }
	case Ref::ARR:
	{
		AMF0Array *a = v->asArray(); ASSERT(a->size() == r->kids.size(), "array length");
		for(size_t i = 0; i < r->kids.size(); i++) matches(a->getValueAtIndex(i).get(), r->kids[i]);
		ASSERT(a->getValueAtIndex(r->kids.size())->isUndefined(), "past the end is undefined"); break;
	}
	case Ref::TYPED: ASSERT(std::string(v->asTypedObject()->className()) == std::string(r->text.c_str()), "class name"); // fallthrough
	case Ref::OBJ: case Ref::ECMA:
	{
		AMF0Object *o = v->asObject(); ASSERT(o->size() == r->keys.size(), "number of members");
		for(size_t i = 0; i < r->keys.size(); i++) { ASSERT(o->has(r->keys[i]), "member is there"); auto m = o->getValueAtKey(r->keys[i]); matches(m.get(), r->kids[i]); }
		size_t n = 0; for(auto it = o->begin(); it != o->end(); ++it) n++; ASSERT(n == o->size(), "iteration visits every member"); break;
	}
	default: ASSERT(!v->isTruthy(), "null and undefined are not true"); break;
	}
}
