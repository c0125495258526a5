// C10: Tin-Can messages, metadata, timestamps, commands
#include "amfref.h"
#include "rtmfp/TCMessage.hpp"
#include "rtmfp/VLU.hpp"
using namespace com::zenomt::rtmfp;
using com::zenomt::rtmp::Bytes;

static bool same(const uint8_t *a, const uint8_t *b, size_t n) { bool eq = true; for(size_t i = 0; i < n; i++) eq = eq & (a[i] == b[i]); return eq; }
extern "C" void sym_main()
{
	switch(sym_part(6))
	{
	case 0: // message round trip
	{
		uint8_t type = sym_u8("type"); uint32_t ts = sym_u32("ts"); unsigned n = sym_choice("len", 6); uint8_t *p = new uint8_t[n]; sym_bytes("payload", p, n);
		Bytes m = TCMessage::message(type, ts, p, n); ASSERT(m.size() == 5 + n, "message length"); Bytes m2 = TCMessage::message(type, ts, Bytes(p, p + n)); ASSERT(m2.size() == m.size() && same(m.data(), m2.data(), m.size()), "both builders agree");
		uint8_t t = ~type; uint32_t s = ~ts; uint8_t *q = new uint8_t[m.size()]; memcpy(q, m.data(), m.size());
		ASSERT(TCMessage::parseHeader(q, q + m.size(), &t, &s) == 5, "header length"); ASSERT(t == type && s == ts, "header fields"); ASSERT(same(q + 5, p, n), "payload follows the header");
		ASSERT(TCMessage::message(type, ts, nullptr, 3).size() == 5, "no payload"); ASSERT(TCMessage::parseHeader(q, q + m.size(), nullptr, nullptr) == 5, "outputs are optional");
		delete[] p; delete[] q; sym_reach("message"); break;
	}
	case 1: // header of any bytes
	{
		unsigned n = sym_choice("len", 9); uint8_t *b = new uint8_t[n]; sym_bytes("bytes", b, n); uint8_t t = 1; uint32_t s = 2; size_t rv = TCMessage::parseHeader(b, b + n, &t, &s);
		if(n < 5) ASSERT(rv == 0 && t == 1 && s == 2, "too short for a header"); else ASSERT(rv == 5 && t == b[0] && s == ((uint32_t)b[1] << 24 | b[2] << 16 | b[3] << 8 | b[4]), "header fields");
		delete[] b; sym_reach("header"); break;
	}
	case 2: // metadata round trip
	{
		uint32_t sid = sym_u32("sid"), out = ~sid; ReceiveOrder ro = sym_bool("network") ? RO_NETWORK : RO_SEQUENCE, got = RO_HOLD; Bytes m = TCMetadata::encode(sid, ro);
		uint8_t *q = new uint8_t[m.size()]; memcpy(q, m.data(), m.size()); ASSERT(TCMetadata::parse(q, q + m.size(), &out, &got) == m.size(), "metadata parses"); ASSERT(out == sid, "stream"); ASSERT(got == ro, "receive intent");
		out = ~sid; ASSERT(TCMetadata::parse(m, &out, &got) == m.size() && out == sid, "metadata parses from a vector"); ASSERT(TCMetadata::parse(m, nullptr, nullptr) == m.size(), "outputs are optional"); delete[] q; sym_reach("metadata"); break;
	}
	case 3: // metadata of any bytes
	{
		unsigned n = sym_choice("len", sym_param("meta", 10) + 1); uint8_t *b = new uint8_t[n]; sym_bytes("bytes", b, n); uint32_t out = 77; ReceiveOrder got = RO_HOLD;
		size_t rv = TCMetadata::parse(b, b + n, &out, &got);
		bool ok = n >= 4 && b[0] == 'T' && b[1] == 'C' && (b[2] & 4);
		if(ok)
		{ // variable length integer, 7 bits per byte, at most 32 bits
			unsigned i = 3; uint64_t v = 0; bool done = false; for(; i < n && !done; i++) { if(v >> 32) break; v = v << 7 | (b[i] & 127); done = !(b[i] & 128); }
			ok = done && !(v >> 32);
			if(ok) { ASSERT(rv == i, "consumes flags and stream"); ASSERT(out == (uint32_t)v, "stream"); ASSERT(got == ((b[2] & 1) ? RO_NETWORK : RO_SEQUENCE), "receive intent"); sym_reach("meta.ok"); }
		}
		if(!ok) { ASSERT(rv == 0, "malformed metadata is rejected"); ASSERT(out == 77 && got == RO_HOLD, "rejected metadata leaves the outputs alone"); sym_reach("meta.bad"); }
		delete[] b; break;
	}
	case 4: // timestamps
	{
		uint32_t a = sym_u32("a"), d = sym_range("d", 0, 0x7fffffff), b = a + d; using M = Message;
		ASSERT(M::timestamp_gt(b, a) == (d != 0), "later is greater"); ASSERT(M::timestamp_lt(a, b) == (d != 0), "earlier is less"); ASSERT(!M::timestamp_lt(b, a), "later is not less"); ASSERT(!M::timestamp_gt(a, b), "earlier is not greater");
		ASSERT(M::timestamp_diff(b, a) == (int32_t)d, "difference"); ASSERT(M::timestamp_diff(a, b) == -(int32_t)d, "negated difference"); sym_reach("timestamps"); break;
	}
	case 5: // commands
	{
		unsigned n = sym_choice("name", 4); std::string name(n, 'a'); if(n) sym_bytes("text", &name[0], n); for(unsigned i = 0; i < n; i++) ASSUME(name[i] != 0);
		uint64_t bits = sym_u64("tid"); double tid; memcpy(&tid, &bits, 8); bool ext = sym_bool("ext"); unsigned how = sym_choice("how", 3); Bytes m; unsigned k = sym_choice("payload", 4); Bytes payload(k); if(k) sym_bytes("extra", payload.data(), k);
		auto obj = AMF0::Boolean(true); std::vector<std::shared_ptr<AMF0>> args;
		if(how == 0) m = TCMessage::command(name.c_str(), tid, sym_bool("object") ? obj.get() : nullptr, payload, ext);
		else if(how == 1) { ext = false; m = TCMessage::command(name.c_str(), tid, obj.get(), AMF0::Boolean(false)); }
		else { for(unsigned i = 0; i < k; i++) args.push_back(AMF0::Boolean(i & 1)); m = TCMessage::command(name.c_str(), tid, args, ext); }
		uint8_t t; uint32_t s; ASSERT(TCMessage::parseHeader(m.data(), m.data() + m.size(), &t, &s) == 5, "command header"); ASSERT(t == (ext ? 17 : 20) && s == 0, "command type and time");
		const uint8_t *c = m.data() + 5, *limit = m.data() + m.size(); if(ext) { ASSERT(*c == 0, "extended commands begin with a zero byte"); c++; }
		auto v = AMF0::decode(&c, limit); ASSERT(v && v->isString() && sameBytes(std::string(v->stringValue()), name), "command name");
		v = AMF0::decode(&c, limit); ASSERT(v && v->isNumber(), "transaction"); double x = v->doubleValue(); uint64_t y; memcpy(&y, &x, 8); ASSERT(y == bits, "transaction number");
		if(how < 2) { v = AMF0::decode(&c, limit); ASSERT(v && (v->isNull() || v->booleanValue()), "command object"); }
		if(how == 0) { ASSERT((size_t)(limit - c) == k && same(c, payload.data(), k), "raw payload"); }
		else if(how == 1) { v = AMF0::decode(&c, limit); ASSERT(v && v->isBoolean() && !v->booleanValue() && c == limit, "information object"); }
		else { for(unsigned i = 0; i < k; i++) { v = AMF0::decode(&c, limit); ASSERT(v && v->isBoolean() && v->booleanValue() == (bool)(i & 1), "argument"); } ASSERT(c == limit, "nothing else"); }
		sym_reach("command"); break;
	}
	}
}
