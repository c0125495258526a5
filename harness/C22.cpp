// C22: hostile bytes outside any session
#include "net.h"
static std::string heardData; static unsigned heard;
static Bytes startup(const Bytes &chunks) { return wire_make(0, HEADER_MODE_STARTUP, chunks); }
static Bytes field(const Bytes &x) { Bytes b; vlu(b, x.size()); return b + x; }
static Bytes find(End &e, uint8_t type, const struct sockaddr_in *to = nullptr) { for(auto &w : e.out) if(!to || w.to == Address((const struct sockaddr *)to)) for(auto &c : wire_parse(w.bytes).chunks) if(c.type == type) return c.body; return Bytes(); }
static Bytes skip(const Bytes &b) { const uint8_t *p; size_t n; size_t rv = VLU::parseField(b.data(), b.data() + b.size(), &p, &n); return Bytes(b.begin() + rv, b.end()); }
static Bytes first(const Bytes &b) { const uint8_t *p; size_t n; VLU::parseField(b.data(), b.data() + b.size(), &p, &n); return Bytes(p, p + n); }
static Bytes keying(const Bytes &cookie, const char *name, uint32_t sid) // a genuine keying message carrying the cookie
{
	Bytes k((const uint8_t *)&sid, (const uint8_t *)&sid + 4); k = k + field(cookie) + field(B(name)) + field(B("k")); Bytes s = B(name) + k, c; chunk_add(c, CHUNK_IIKEYING, k + s); return startup(c);
}
extern "C" void sym_main()
{
	unsigned part = sym_part(4); bool knows = false; heard = 0; End a("A", 1), b("B", 2), c("C", 3); struct sockaddr_in evil = net_addr(66);
	b.r->onRecvFlow = [&](std::shared_ptr<RecvFlow> f) { f->accept(); f->onMessage = [f](const uint8_t *, size_t, uintmax_t, size_t) { heard++; }; };
	c.r->onRecvFlow = b.r->onRecvFlow; auto f = net_open(a, b, "m");
	std::shared_ptr<SendFlow> g; bool opening = part < 2 && sym_bool("opening"); unsigned exceptions = 0; Bytes hello;
	if(opening) { g = b.r->openFlow(c.crypto.name, B("g"), PRI_ROUTINE); g->onException = [&](uintmax_t) { exceptions++; }; g->addCandidateAddress((const struct sockaddr *)&c.addr); b.run(); hello = find(b, CHUNK_IHELLO); ASSERT(hello.size(), "hello sent"); if(part == 0 || sym_bool("keying")) { net_relay(b, c); c.run(); net_relay(c, b); b.run(); ASSERT(find(b, CHUNK_IIKEYING).size(), "keying sent"); } }
	size_t keys = b.crypto.keys.size(); const struct sockaddr_in *from[] = { &evil, &a.addr, &c.addr }; uint8_t bytes[40]; unsigned n;
	if(part == 0) // anything at all
	{
		n = sym_choice("size", sym_param("raw", 19) + 1); sym_bytes("raw", bytes, n); if(n > 12) ASSUME(!(bytes[12] & (HEADER_FLAG_TS | HEADER_FLAG_TSE)));
		if(n > 12) { uint32_t y[3]; memcpy(y, bytes, 12); uint8_t mark[8]; for(int i = 0; i < 8; i++) mark[i] = 0x11 * (i & 3); ASSUME((y[0] ^ y[1] ^ y[2]) == 0 || memcmp(mark, bytes + 4, 8)); } // not sealed with the key of a session
		Bytes p(bytes, bytes + n); const struct sockaddr_in *s = from[sym_choice("from", 2)]; bool rv = b.put(p, *s);
		uint32_t x[3] = { 0, 0, 0 }; memcpy(x, bytes, n < 12 ? n : 12); if(n < 12) { uint8_t *q = (uint8_t *)x; memset(q + n, 0, 12 - n); }
		if(n < 13) ASSERT(!rv, "too short to be a packet"); else if(rv) { uint32_t sid = x[0] ^ x[1] ^ x[2]; ASSERT(sid == 0 || sid == b.sid || opening, "packets of unknown sessions are not recognised"); } sym_reach(rv ? "recognised" : "unrecognised");
	}
	else if(part == 1) // one startup chunk
	{
		static const uint8_t codes[] = { CHUNK_IHELLO, CHUNK_RHELLO, CHUNK_REDIRECT, CHUNK_IIKEYING, CHUNK_RHELLO_COOKIE_CHANGE, CHUNK_RIKEYING, 0x01, 0x10, 0x0f }; unsigned t = sym_choice("type", sizeof codes), temp = sym_choice("template", 3); Bytes x;
		if(temp) switch(codes[t])
		{
		case CHUNK_IHELLO: x = field(B("B")); break;
		case CHUNK_RHELLO: case CHUNK_REDIRECT: if(temp == 2 && opening) x = field(skip(hello)); else x = field(B("t")); if(codes[t] == CHUNK_RHELLO && temp == 2) knows = opening, x = x + field(B("cookie")); break;
		case CHUNK_IIKEYING: x = B("1234"); if(temp == 2) x = x + field(B("x")); break;
		case CHUNK_RHELLO_COOKIE_CHANGE: x = field(B("o")); break;
		case CHUNK_RIKEYING: x = B("1234"); break;
		default: break;
		}
		n = sym_choice("size", sym_param("body", 4) + 1); sym_bytes("body", bytes, n); x.insert(x.end(), bytes, bytes + n); Bytes k; chunk_add(k, codes[t], x);
		b.out.clear(); bool rv = b.put(startup(k), *from[sym_choice("from", opening ? 3 : 2)]); ASSERT(rv, "a startup packet is recognised"); sym_reach("chunk");
		b.run(); ASSERT(b.out.size() <= 4, "few answers");
	}
	else if(part == 2) // cookies
	{
		Bytes q; chunk_add(q, CHUNK_IHELLO, field(B("B")) + B("tag")); b.out.clear(); b.put(startup(q), evil); b.run(); Bytes rh = find(b, CHUNK_RHELLO); ASSERT(rh.size(), "hello answered"); ASSERT(first(rh) == B("tag"), "tag"); Bytes cookie = first(skip(rh)), good = cookie; ASSERT(cookie.size() > 60 && skip(skip(rh)) == b.crypto.name, "cookie and certificate"); b.out.clear();
		static const Duration ages[] = { 0, 94, 96.5, 400 }; unsigned age = sym_choice("age", 4); net_now += ages[age]; struct sockaddr_in other = net_addr(66, 1936), far = net_addr(67); const struct sockaddr_in *src[] = { &evil, &other, &far }; unsigned who = sym_choice("who", 3);
		bool whole = true; switch(sym_choice("change", 4))
		{
		case 0: break;
		case 1: { unsigned i = sym_choice("place", cookie.size()); uint8_t v = sym_u8("byte"); whole = cookie[i] == v; cookie[i] = v; break; }
		case 2: { unsigned i = sym_choice("place", cookie.size()); cookie.resize(i); whole = false; break; }
		case 3: { cookie.push_back(sym_u8("byte")); whole = false; break; }
		}
		bool claims = sym_bool("sign"); Bytes p = keying(cookie, "E", 0x01020304); if(!claims) p.back() ^= 0x41;
		b.put(p, *src[who]); b.run(); bool keyed = b.crypto.keys.size() > keys, fresh = age < 2; Bytes change = find(b, CHUNK_RHELLO_COOKIE_CHANGE);
		ASSERT(keyed == (whole && fresh && who == 0 && claims), "a session exactly for a fresh cookie issued to that address and a good signature"); ASSERT(keyed == (find(b, CHUNK_RIKEYING, src[who]).size() > 0), "keying answered"); for(auto &w : b.out) if(!(w.to == Address((const struct sockaddr *)&a.addr))) ASSERT(w.to == Address((const struct sockaddr *)src[who]), "answers go where the message came from");
		if(whole && fresh && who) { ASSERT(change.size() && first(change) == good, "a moved initiator gets a new cookie"); size_t k = b.crypto.keys.size(); b.put(keying(skip(change), "E", 0x01020304), *src[who]); b.run(); ASSERT(b.crypto.keys.size() == k + 1, "which works from there"); sym_reach("moved"); }
		if(!fresh) for(auto &w : b.out) ASSERT(w.to == Address((const struct sockaddr *)&a.addr), "an old cookie gets no answer"); sym_reach(keyed ? "keyed" : "refused");
		if(keyed) { size_t k = b.crypto.keys.size(); b.out.clear(); b.put(p, evil); b.run(); ASSERT(b.crypto.keys.size() == k && find(b, CHUNK_RIKEYING).size(), "a repeated keying message is answered again without another session"); }
		return;
	}
	else // long startup messages: fields around the packet limits
	{
		static const unsigned sizes[] = { 0, 127, 128, 900, 1100, 1192, 1300, 1460, 8000 }; Bytes big(sizes[sym_choice("size", 9)], sym_u8("byte")); Bytes k;
		switch(sym_choice("kind", 6)) { case 0: chunk_add(k, CHUNK_IHELLO, field(big)); break; case 1: chunk_add(k, CHUNK_IHELLO, field(B("B")) + big); break; case 2: chunk_add(k, CHUNK_RHELLO, field(big) + field(big) + B("C")); break; case 3: chunk_add(k, CHUNK_IIKEYING, B("1234") + field(big) + field(B("E"))); break; case 4: chunk_add(k, CHUNK_REDIRECT, field(B("t")) + big); break; case 5: chunk_add(k, CHUNK_IHELLO, Bytes()); k.insert(k.end(), big.begin(), big.end()); break; }
		b.put(startup(k), evil); sym_reach("long");
	}
	b.run(); if(part != 1) ASSERT(b.crypto.keys.size() == keys, "no session for a message without a cookie"); else ASSERT(b.crypto.keys.size() == keys, "no session for a message without a genuine cookie");
	// what existed still works
	unsigned h = heard; a.out.clear(); f->write(B("hi"), INFINITY, INFINITY); a.run(); net_relay(a, b); b.run(); ASSERT(heard == h + 1, "the open session still carries messages");
	if(g && !knows && sym_param("finish", 1)) /* an answer with the secret tag of our own hello can divert it */ { b.out.clear(); for(int i = 0; i < 4 && !g->isWritable(); i++) { net_now += i ? 1.6 : 1.05; b.run(); for(int k = 0; k < 6; k++) { net_relay(b, c); c.run(); net_relay(c, b); b.run(); } } ASSERT(!exceptions, "the opening flow has not failed"); ASSERT(g->isWritable(), "the opening session opens"); sym_reach("opens"); }
}
