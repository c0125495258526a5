// C30: who may open a session
#include "net.h"
static Bytes hfield(const Bytes &b) { Bytes r; vlu(r, b.size()); return r + b; }
static Bytes hget(const uint8_t *&p, const uint8_t *e) { uintmax_t n = take(p, e); ASSERT(n <= uintmax_t(e - p), "a sent field fits"); Bytes r(p, p + n); p += n; return r; }
static Bytes hchunk(uint8_t type, const Bytes &body) { Bytes c; chunk_add(c, type, body); return c; }
static Bytes hbytes(const char *name, size_t n) { Bytes r(n); for(auto &x : r) x = sym_u8(name); return r; }
static bool hsame(const Bytes &a, const Bytes &b) { if(a.size() != b.size()) return false; unsigned d = 0; for(size_t i = 0; i < a.size(); i++) d |= a[i] ^ b[i]; return !d; }
static std::deque<Chunk> hsent(End &e, Address &to, uint32_t &sid, uint8_t &flags) // the chunks sent, and where
{
	std::deque<Chunk> r; while(e.out.size()) { Wire w = e.out.front(); e.out.pop_front(); to = w.to; sid = wire_sid(w.bytes); auto p = wire_parse(w.bytes); flags = p.flags; for(auto &c : p.chunks) if(c.type != CHUNK_IHELLO) r.push_back(c); } return r;
}
static void answerer() // made-up keying at the answering end
{
	End b("B", 2); Address to; uint32_t sid = 0; uint8_t fl = 0; b.r->onRecvFlow = nullptr; net_now += 0.5L * sym_choice("phase", 2); struct sockaddr_in at[3] = { net_addr(1), net_addr(1, 77), net_addr(9) }; int x = sym_choice("asked", 2), y = sym_choice("keyed", sym_param("addrs", 2)), t = 0; b.run();
	Time issued = net_now; b.put(wire_make(0, 3, hchunk(CHUNK_IHELLO, hfield(B("B")) + B("tag"))), at[x]); b.run(); auto o = hsent(b, to, sid, fl); ASSERT(o.size() == 1 && o[0].type == CHUNK_RHELLO && sid == 0 && (fl & 3) == 3 && to == Address((const struct sockaddr *)&at[x]), "a hello is answered, to where it came from");
	const uint8_t *p = o[0].body.data(), *e = p + o[0].body.size(); ASSERT(hget(p, e) == B("tag"), "with its tag"); Bytes cookie = hget(p, e), orig = cookie; ASSERT(Bytes(p, e) == B("B"), "and our certificate"); ASSERT(b.crypto.keys.size() == 1, "nothing is kept yet");
	static const Duration waits[] = { 95, 96.5L, 0, 94, 400 }; net_now += waits[t = sym_choice("wait", sym_param("waits", 2))]; bool fresh = uintmax_t(net_now - 1000) - uintmax_t(issued - 1000) <= 95; b.run();
	unsigned how = sym_choice("how", 6); Bytes isid = hbytes("isid", 4), skic = hbytes("skic", 2), cert = B("A"); b.crypto.authentic = how != 1; b.crypto.sigGood = how != 2; if(how == 3) cert = Bytes(); bool shown = how != 3;
	bool valid = true, hurt = false; if(how == 4) { size_t i = sym_choice("at", cookie.size()); cookie[i] = sym_u8("cookie"); hurt = cookie[i] != orig[i]; } if(how == 5) { switch(sym_choice("size", 3)) { case 0: cookie.pop_back(); break; case 1: cookie.push_back(sym_u8("more")); break; case 2: cookie.clear(); break; } hurt = true; }
	bool mayStay = false; if(how == 4 && hurt) { bool front = true; size_t h = cookie.size() - 32; for(size_t i = 0; i < h; i++) if(cookie[i] != orig[i]) front = false; mayStay = front; } // only the address part is wrong
	Bytes params = isid + hfield(cookie) + hfield(cert) + hfield(skic), good = cert + params, sig = how ? good : sym_bool("cut") ? Bytes(good.begin(), good.end() - 1) : hbytes("sig", 4); if(how == 0 && sig.size() == 4) { Bytes s = good; size_t q = sym_choice("sigat", 3); size_t i = q == 0 ? 0 : q == 1 ? good.size() / 2 : good.size() - 4; for(int k = 0; k < 4; k++) s[i + k] = sig[k]; sig = s; } valid = hsame(sig, good);
	if(sym_bool("twice")) { b.put(wire_make(0, 3, hchunk(CHUNK_IIKEYING, params + sig)), at[y]); } b.put(wire_make(0, 3, hchunk(CHUNK_IIKEYING, params + sig)), at[y]); b.run(); o = hsent(b, to, sid, fl); uint32_t want; memcpy(&want, isid.data(), 4);
	bool okHere = !hurt && fresh, opens = okHere && x == y && valid && shown && how != 1 && how != 2;
	if(opens)
	{
		ASSERT(o.size() >= 1 && o.size() <= 2, "valid keying is answered"); for(auto &c : o) { ASSERT(c.type == CHUNK_RIKEYING, "by keying"); ASSERT(c.body == o[0].body, "the same each time"); } ASSERT(sid == want && to == Address((const struct sockaddr *)&at[y]) && (fl & 3) == 3, "to the asker and its session");
		p = o[0].body.data(); e = p + o[0].body.size(); Bytes rsid(p, p + 4); p += 4; Bytes skrc = hget(p, e); bool found = false; for(auto &k : b.crypto.keys) if(hsame(k->near, skrc) && hsame(k->far, skic)) found = true; ASSERT(found, "the key was made from the asker's part"); ASSERT(hsame(Bytes(p, e), B("B") + rsid + hfield(skrc) + skic), "signed with both parts"); sym_reach("opens");
	}
	else
	{
		for(auto &c : o) { ASSERT(c.type == CHUNK_RHELLO_COOKIE_CHANGE, "keying that does not verify is not answered"); ASSERT((okHere && x != y) || (mayStay && fresh), "a new cookie is offered for one that was issued"); p = c.body.data(); e = p + c.body.size(); ASSERT(hsame(hget(p, e), cookie), "naming it"); ASSERT(to == Address((const struct sockaddr *)&at[y]) && sid == want, "to where it was used"); sym_reach("cookie change"); }
		ASSERT(b.crypto.keys.size() == 1, "and leaves no session or key"); if(okHere && x != y) ASSERT(o.size() >= 1, "a moved asker is told"); if(!valid) sym_reach("bad signature"); if(!fresh) sym_reach("stale cookie"); if(hurt) sym_reach("wrong cookie"); if(how == 1 || how == 2) sym_reach("refused");
	}
	sym_reach("end");
}
static void opener() // made-up answers at the opening end
{
	End a("A", 1); Address to; uint32_t sid = 0; uint8_t fl = 0; struct sockaddr_in at[2] = { net_addr(2), net_addr(9) }; bool dead = false, open = false; 
	bool alias = sym_bool("alias"); auto f = a.r->openFlow(B(alias ? "@B" : "B"), B("m")); f->addCandidateAddress((const struct sockaddr *)&at[0]); f->onException = [&](uintmax_t) { dead = true; }; f->onWritable = [&]() { open = true; return false; }; f->notifyWhenWritable(); a.run();
	ASSERT(a.out.size() == 1, "asks"); Parsed ih = wire_parse(a.out.front().bytes); a.out.clear(); const uint8_t *p = ih.chunks[0].body.data(), *e = p + ih.chunks[0].body.size(); hget(p, e); Bytes tag(p, e), realTag = tag; ASSERT(tag.size() >= 8, "with a tag of some length");
	int y = sym_choice("from", 2); bool early = sym_param("full", 0) ? sym_bool("early") : alias; uint32_t guess = 1; Bytes nearKey = a.crypto.keys[1]->near; if(early) { Bytes q = hbytes("early", 4) + hfield(B("x")); a.put(wire_make(guess, 3, hchunk(CHUNK_RIKEYING, q + (B("B") + q))), at[y]); a.run(); ASSERT(!f->isWritable() && !open && !a.crypto.keys[1]->combined, "nothing opens before an answer to its own request"); }
	unsigned how = sym_choice("hello", 5); Bytes cert = B("B"); bool right = true; if(how == 1) { size_t i = sym_choice("tagat", tag.size()); tag[i] = sym_u8("tag"); right = tag[i] == realTag[i]; } if(how == 2) { cert[0] = sym_u8("cert"); right = cert[0] == 'B'; } if(how == 3) { cert = B(sym_bool("longer") ? "BB" : ""); right = false; } if(how == 4) { a.crypto.authentic = false; right = false; }
	Bytes cookie = hbytes("cookie", 3); a.crypto.sigGood = how != 0 || !sym_bool("unsigned"); a.put(wire_make(0, 3, hchunk(CHUNK_RHELLO, hfield(tag) + hfield(cookie) + cert)), at[y]); a.run(); auto o = hsent(a, to, sid, fl); while(o.size() && o[0].type == CHUNK_IHELLO) o.pop_front();
	if(!right) { ASSERT(o.empty() && !f->isWritable(), "an answer of another peer or to another request is ignored"); sym_reach("ignored"); sym_reach("end"); f->onWritable = nullptr; f->onException = nullptr; return; }
	ASSERT(o.size() == 1 && o[0].type == CHUNK_IIKEYING && to == Address((const struct sockaddr *)&at[y]) && sid == 0, "the answer is taken up where it came from"); Bytes iik = o[0].body; p = iik.data(); e = p + iik.size(); uint32_t isid; memcpy(&isid, p, 4); p += 4; ASSERT(hsame(hget(p, e), cookie), "with the cookie given"); ASSERT(hget(p, e) == B("A"), "our certificate"); Bytes skic = hget(p, e); ASSERT(skic == nearKey, "and key part"); ASSERT(hsame(Bytes(p, e), B("A") + Bytes((const uint8_t *)iik.data(), p)), "all of it signed");
	if(sym_bool("change")) // a cookie change
	{
		Bytes old = cookie; bool same = true; if(sym_bool("other")) { old[1] = sym_u8("old"); same = old[1] == cookie[1]; } Bytes fresh = hbytes("fresh", 2); a.put(wire_make(isid, 3, hchunk(CHUNK_RHELLO_COOKIE_CHANGE, hfield(old) + fresh)), at[y]); a.run(); o = hsent(a, to, sid, fl);
		if(same) { ASSERT(o.size() == 1 && o[0].type == CHUNK_IIKEYING, "asks again with the new cookie"); p = o[0].body.data(); e = p + o[0].body.size(); p += 4; ASSERT(hsame(hget(p, e), fresh), "which it was given"); hget(p, e); ASSERT(hget(p, e) == skic && hsame(Bytes(p, e), B("A") + Bytes((const uint8_t *)o[0].body.data(), p)), "signed anew"); sym_reach("changed"); } else ASSERT(o.empty(), "a change of another cookie is ignored");
	}
	Bytes rsid = hbytes("rsid", 4), skrc = hbytes("skrc", 2), body = rsid + hfield(skrc), good = B("B") + body + skic, sig = good; unsigned form = sym_choice("answer", 5); if(form < 3) { size_t i = form == 0 ? 0 : form == 1 ? good.size() - 4 : 3; for(int k = 0; k < 4; k++) sig[i + k] = sym_u8("sig"); } else if(form == 3) sig.pop_back(); else { sig.clear(); } bool valid = hsame(sig, good) && a.crypto.sigGood;
	Bytes ri = wire_make(isid, 3, hchunk(CHUNK_RIKEYING, body + sig)); a.put(ri, at[sym_choice("answerer", 2)]); if(sym_bool("again")) a.put(ri, at[y]); a.run(); uint32_t want; memcpy(&want, rsid.data(), 4); a.out.clear();
	if(!valid) { ASSERT(!f->isWritable() && !open && !dead, "an answer whose signature does not verify opens nothing"); ASSERT(!a.crypto.keys[1]->combined, "nor enters the key"); sym_reach("unverified"); 
		if(!a.crypto.sigGood) { f->onWritable = nullptr; f->onException = nullptr; sym_reach("end"); return; } a.put(wire_make(isid, 3, hchunk(CHUNK_RIKEYING, body + good)), at[y]); a.run(); a.out.clear(); }
	ASSERT(open && f->isWritable() && hsame(f->getFarNonce(), skrc) && hsame(f->getNearNonce(), skic) && f->getFarCanonicalEPD() == B("B") && f->getFarAddress() == Address((const struct sockaddr *)&at[y]), "a valid answer opens, to that peer"); sym_reach("opened");
	Bytes q = hbytes("again", 4) + hfield(B("zz")); a.put(wire_make(isid, 3, hchunk(CHUNK_RIKEYING, q + (B("B") + q + skic))), at[y]); a.run(); // a second answer
	f->write(B("x")); a.run(); ASSERT(a.out.size() >= 1 && wire_sid(a.out.back().bytes) == want && (wire_parse(a.out.back().bytes).flags & 3) == 1 && a.out.back().to == Address((const struct sockaddr *)&at[y]), "and is addressed as agreed"); ASSERT(hsame(f->getFarNonce(), skrc) && a.crypto.keys.size() == 2, "once and for all");
	f->onWritable = nullptr; f->onException = nullptr; sym_reach("end");
}
static void altered() // one byte of one handshake packet
{
	End a("A", 1), b("B", 2); End *e[2] = { &a, &b }; unsigned at = sym_choice("packet", 4), n = 0, got = 0, opens = 0; bool dead = false, hurt = false, open = false; Bytes rnear, rfar; std::vector<std::shared_ptr<RecvFlow> > rf;
	b.r->onRecvFlow = [&](std::shared_ptr<RecvFlow> r) { opens++; rf.push_back(r); rnear = r->getNearNonce(); rfar = r->getFarNonce(); r->accept(); r->onMessage = [&](const uint8_t *p, size_t k, uintmax_t, size_t) { ASSERT(k == 1 && *p == 'x', "the message"); got++; }; };
	auto f = a.r->openFlow(B("B"), B("m")); f->addCandidateAddress((const struct sockaddr *)&b.addr); f->onException = [&](uintmax_t) { dead = true; }; f->write(B("x")); Time t0 = net_now;
	while(net_now < t0 + 200 && !got && !dead)
	{
		a.run(); b.run(); bool any = false;
		for(int i = 0; i < 2; i++) while(e[i]->out.size())
		{
			Wire w = e[i]->out.front(); e[i]->out.pop_front(); any = true;
			if(n++ == at) { size_t k = sym_choice("byte", w.bytes.size()); uint8_t was = w.bytes[k]; w.bytes[k] = sym_u8("value"); hurt = w.bytes[k] != was; }
			e[1 - i]->put(w.bytes, e[i]->addr, w.tos); e[1 - i]->run();
			if(n == at + 1 && at == 2 && hurt) { sym_reach("hurt keying"); }
		}
		if(any) continue; Duration d = std::min(a.r->howLongToSleep(), b.r->howLongToSleep()); net_now += std::max(d, Duration(0.001L));
	}
	if(got) { ASSERT(opens == 1 && f->getNearNonce() == rfar && f->getFarNonce() == rnear && f->getFarCanonicalEPD() == B("B") && b.crypto.keys.size() == 2, "both ends agree on one session"); sym_reach("agree"); }
	else { ASSERT(at == 1 && hurt && b.crypto.keys.size() == 1, "a damaged packet only delays (a damaged cookie, at worst, prevents)"); sym_reach("prevented"); } if(hurt && got) sym_reach("healed");
	b.r->onRecvFlow = nullptr; f->onException = nullptr; for(auto &r : rf) r->onMessage = nullptr; sym_reach("end");
}
static void replaced() // somebody else, or the same peer started afresh, at the address of an open session
{
	End a("A", 1), b("B", 2); bool same = sym_bool("same"), fromA = sym_bool("near"), dead = false, heard = false; unsigned got = 0, fates = sym_param("fates", 4); std::vector<std::shared_ptr<RecvFlow> > rf; std::shared_ptr<SendFlow> f, g, h;
	auto take = [&](std::shared_ptr<RecvFlow> r) { rf.push_back(r); r->accept(); r->onMessage = [&](const uint8_t *p, size_t k, uintmax_t, size_t) { ASSERT(k == 1, "the message"); got = *p; }; r->onComplete = [&](bool err) { heard = err; }; }; a.r->onRecvFlow = take; b.r->onRecvFlow = take;
	if(fromA) { f = net_open(a, b); f->onException = [&](uintmax_t) { dead = true; }; f->write(B("1")); } else { g = net_open(b, a); g->write(B("1")); } net_quiet(a, b); ASSERT(got == '1', "works"); net_until(a, b, net_now + 3);
	End c(same ? "B" : "C", 2); c.crypto.seed = 0x99; c.r->onRecvFlow = take; size_t keys = a.crypto.keys.size(); if(fromA && sym_bool("writing")) { f->write(B("w")); a.run(); while(a.out.size()) { c.put(a.out.front().bytes, a.addr); a.out.pop_front(); } }
	h = c.r->openFlow(B("A"), B("n")); h->addCandidateAddress((const struct sockaddr *)&a.addr); h->write(B("2")); Time t0 = net_now; got = 0;
	while(net_now < t0 + 30 && got != '2') { a.run(); c.run(); while(a.out.size()) { Wire w = a.out.front(); a.out.pop_front(); if(fates && fates-- && sym_bool("lose")) continue; if(!same) b.put(w.bytes, a.addr); c.put(w.bytes, a.addr); } if(!same) { b.run(); while(b.out.size()) { a.put(b.out.front().bytes, b.addr); b.out.pop_front(); } } c.run(); while(c.out.size()) { Wire w = c.out.front(); c.out.pop_front(); if(fates && fates-- && sym_bool("lose")) continue; a.put(w.bytes, b.addr); } a.run(); if(a.out.size() || got == '2') continue; Duration d = std::min(a.r->howLongToSleep(), c.r->howLongToSleep()); net_now += std::max(d, Duration(0.001L)); }
	if(same) { ASSERT(got == '2' && h->isWritable() && h->getFarNonce() == rf.back()->getNearNonce(), "a peer that starts afresh is let in again"); ASSERT(fromA ? dead && !f->isWritable() : heard, "and the flows of its old session end"); sym_reach("afresh"); }
	else { ASSERT(got != '2' && !h->isWritable() && !dead && !heard, "somebody else cannot take the place of an open session"); c.r->shutdown(true); c.run(); h.reset(); got = 0; if(fromA) f->write(B("3")); else g->write(B("3")); net_until(a, b, net_now + 30); ASSERT(got == '3', "which goes on working"); sym_reach("impostor"); } (void)keys;
	a.r->onRecvFlow = nullptr; b.r->onRecvFlow = nullptr; c.r->onRecvFlow = nullptr; if(f) f->onException = nullptr; for(auto &r : rf) { r->onMessage = nullptr; r->onComplete = nullptr; } sym_reach("end");
}
extern "C" void sym_main() { switch(sym_param("what", 0)) { case 0: answerer(); break; case 1: opener(); break; case 3: replaced(); break; default: altered(); } }
