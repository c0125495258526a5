// C19: what one end seals the other opens, nothing else opens, and nothing opens twice
#include "flash.h"
static Pair *P; static Bytes secret; static Way there, back;
static Settings setting(unsigned bits, size_t hl) { return Settings { bool(bits & 1), bool(bits & 2), bool(bits & 4), bool(bits & 8), hl }; }
static void agree(bool statI, bool statR) { ASSERT(fl_begin(*P, statI, statR) && fl_finish(*P), "two willing ends agree"); int g = 2; uint8_t r = fl_priv(P->cr, P->certR.get(), g), i = fl_priv(P->ci, P->certI.get(), g); secret = fl_secret(g, i, r); there = fl_way(secret, P->ci, P->cr, P->si, P->sr); back = fl_way(secret, P->cr, P->ci, P->sr, P->si); }
static void room(uint8_t *p, size_t n) { (void)p; (void)n; }
// seal at one end, open at the other, again, and with too little room
static void carry(SessionCryptoKey *from, SessionCryptoKey *to, const Way &w, unsigned already, bool early = false)
{
	static const unsigned lens[] = { 1, 12, 14, 15, 16, 18, 30 }; size_t n = lens[sym_choice("len", 7)]; Bytes x(n); if(w.hmac) sym_bytes("payload", x.data(), n); else { for(size_t i = 0; i < n; i++) x[i] = 37 * i + 1; if(early) { x[0] = sym_u8("first"); x[n - 1] = sym_u8("last"); } x[n / 2] = sym_u8("middle"); }
	 size_t margin = from->getEncryptSrcFrontMargin(); ASSERT(margin == (w.hmac ? 0 : 2) + (w.seq ? VLU::encode(already, nullptr) : 0), "room is asked for exactly what is put in front");
	size_t len = margin + n, padded = (len + 15) & ~size_t(15); uint8_t *src = new uint8_t[padded]; memset(src, 0xee, padded); memcpy(src + margin, x.data(), n); room(src, padded); size_t cap = padded + 32, io = cap; uint8_t *dst = new uint8_t[cap];
	for(unsigned k = 0; k < 2; k++) { size_t small = k ? padded + (w.hmac ? w.hl : 0) - 1 : 0, sio = small; uint8_t *s2 = new uint8_t[padded], *d2 = new uint8_t[small]; memcpy(s2, src, padded); ASSERT(!from->encrypt(d2, sio, s2, len, margin), "too little room is refused"); delete[] s2; delete[] d2; }
	ASSERT(from->encrypt(dst, io, src, len, margin), "sealed"); ASSERT(io == padded + (w.hmac ? w.hl : 0), "as long as agreed");
	for(unsigned k = 0; k < 2; k++)
	{
		uint8_t *in = new uint8_t[io]; memcpy(in, dst, io); if(k == 0) { size_t o = padded - 1, m = 0; uint8_t *out = new uint8_t[o]; ASSERT(!to->decrypt(out, o, m, in, io), "too little room is refused"); delete[] out; }
		size_t olen = padded, om = 99; uint8_t *out = new uint8_t[olen]; bool ok = to->decrypt(out, olen, om, in, io); ASSERT(ok == (k == 0 || !w.seq), k ? "a repeated packet is refused where numbers are used" : "what is sealed opens");
		if(ok) { ASSERT(om == margin && olen == padded, "the same bytes"); unsigned d = 0; for(size_t i = 0; i < n; i++) d |= out[om + i] ^ x[i]; for(size_t i = om + n; i < olen; i++) d |= out[i] ^ 0xff; ASSERT(!d, "the same bytes, then padding"); } else sym_reach("repeat refused"); delete[] out; delete[] in;
	}
	if(w.seq) sym_reach("numbers"); if(w.hmac) sym_reach("hmac"); delete[] src; delete[] dst;
}
static void around()
{
	Pair p; P = &p; static const size_t hl[][2] = { { 16, 16 }, { 4, 32 }, { 40, 1 } }; unsigned h = sym_choice("lengths", 3); p.si = setting(sym_choice("initiator", 16), hl[h][0]); p.sr = setting(sym_choice("responder", 16), hl[h][1]); unsigned st = h ? h : 3 * sym_choice("static", 2);
	fl_begin(p, st & 1, st & 2); ASSERT(p.i.getHMACLength() == (hl[h][0] > 32 ? 32 : hl[h][0]) && p.r.getHMACLength() == (hl[h][1] < 4 ? 4 : hl[h][1]), "lengths are kept within 4 and 32"); p.si.hl = p.i.getHMACLength(); p.sr.hl = p.r.getHMACLength(); Pair q; P = &q; q.si = p.si; q.sr = p.sr; agree(st & 1, st & 2);
	bool first = sym_bool("there"); carry((first ? q.ki : q.kr).get(), (first ? q.kr : q.ki).get(), first ? there : back, 0); if(sym_param("twice", 0)) carry((first ? q.ki : q.kr).get(), (first ? q.kr : q.ki).get(), first ? there : back, 1); sym_reach("end");
}
// before keys exist: the well known key and a checksum
static void early()
{
	Pair p; P = &p; p.si = setting(sym_choice("initiator", 16), 16); p.sr = setting(15, 16); fl_begin(p, false, false); Way w; w.hmac = w.seq = false; w.key = B("Adobe Systems 02"); carry(p.ki.get(), p.kr.get(), w, 0, true); sym_reach("end");
}
// whatever arrives: opened exactly when by the book it should be
static void arbitrary()
{
	Pair p; P = &p; static const size_t hls[] = { 4, 10, 32 }; unsigned bits = sym_choice("kind", 4); size_t hl = bits & 1 ? hls[sym_choice("length", 3)] : 16; p.si = setting((bits & 1) | (bits & 2) << 1, hl); p.sr = setting(0, 7); agree(false, false); Way &w = there; ASSERT(w.hmac == bool(bits & 1) && w.seq == bool(bits & 2), "as set");
	unsigned cap = sym_param("max", 36), n; bool whole = sym_bool("whole"); if(whole) n = 16 * (1 + sym_choice("blocks", 2)) + (w.hmac ? hl : 0); else n = sym_choice("n", cap + 1); Bytes x(n); bool sized = n >= (w.hmac ? hl : 0) && n - (w.hmac ? hl : 0) > 0 && !((n - (w.hmac ? hl : 0)) & 15); size_t body = sized ? n - (w.hmac ? hl : 0) : 0;
	if(w.hmac || !sized) sym_bytes("packet", x.data(), n);
	else { static const uint8_t iv[16] = {}; Bytes c(body); unsigned q = w.seq ? sym_choice("number", 6) : 0; /* all that matters unknown, the rest given */ for(size_t i = 0; i < body; i++) c[i] = 91 * i + 3; for(unsigned i = 0; i < q && w.seq; i++) c[i] = sym_u8("number") | 0x80; size_t at = w.seq ? q + 1 : 0; if(w.seq) c[q] = sym_u8("number") & 0x7f; if(q == 5) { for(size_t i = 0; i < body; i++) c[i] |= 0x80; if(sym_bool("ends")) c[body - 1 - sym_choice("endsat", 3)] &= 0x7f; } else { c[at] = sym_u8("sum"); c[at + 1] = sym_u8("sum"); c[at + 2] = sym_u8("byte"); c[body - 1] = sym_u8("byte"); } fl_cbc(true, w.key, x.data(), c.data(), body, iv); }
	if(sized && w.hmac && sym_bool("goodtag")) { Bytes m(32); fl_hash(m.data(), w.hkey.data(), 32, x.data(), body); for(size_t i = 0; i < hl; i++) x[body + i] = m[i]; sym_reach("good tag"); }
	size_t olen = 64, om = 0; uint8_t *in = new uint8_t[n ? n : 1], *out = new uint8_t[body ? body : 1]; if(body) olen = body; else olen = 1; if(n) memcpy(in, x.data(), n); bool ok = p.kr->decrypt(out, olen, om, in, n);
	if(!sized) ASSERT(!ok, "no packet of a wrong size opens");
	else
	{
		static const uint8_t iv[16] = {}; Bytes c(body); fl_cbc(false, w.key, c.data(), x.data(), body, iv); bool want = true; if(w.hmac) { Bytes m(32); fl_hash(m.data(), w.hkey.data(), 32, x.data(), body); unsigned d = 0; for(size_t i = 0; i < hl; i++) d |= m[i] ^ x[body + i]; want = !d; }
		size_t at = 0; if(want && w.seq) { uintmax_t v; size_t r = VLU::parse(c.data(), c.data() + body, &v); want = r; at = r; } if(want && !w.hmac) { if(body - at < 2) want = false; else { unsigned f = c[at] << 8 | c[at + 1]; at += 2; want = f == fl_cksum(c.data() + at, body - at); } }
		ASSERT(ok == want, want ? "a packet that is right opens" : "a packet that is not right is refused"); if(ok) { sym_reach("opened"); ASSERT(om == at && olen == body, "what was sealed"); unsigned d = 0; for(size_t i = at; i < body; i++) d |= out[i] ^ c[i]; ASSERT(!d, "what was sealed"); } else sym_reach("refused");
	}
	delete[] in; delete[] out; sym_reach("end");
}
// numbers in any order
static void window()
{
	Pair p; P = &p; bool hm = sym_bool("hmac"); p.si = setting(4 | hm, 8); p.sr = setting(0, 7); agree(false, false); Way &w = there; unsigned n = sym_param("packets", 3); static const uint64_t bases[] = { 0, 0x7fffffffffffffc0ull, 0xffffffffffffffa0ull }; uint64_t base = bases[sym_choice("base", 3)]; std::vector<uintmax_t> had; uintmax_t top = 0; bool any = false;
	for(unsigned k = 0; k < n; k++)
	{
		uint64_t s = base + sym_range("number", 0, 80); Bytes c; for(int i = 9; i >= 0; i--) c.push_back((s >> (7 * i) & 0x7f) | (i ? 0x80 : 0)); if(!hm) { c.push_back(0); c.push_back(0); } c.push_back('x'); while(c.size() & 15) c.push_back(0xff); if(!hm) { unsigned v = fl_cksum(c.data() + 12, c.size() - 12); c[10] = v >> 8; c[11] = v; }
		Bytes x = fl_seal(w, c); if(k + 1 < n && sym_bool("spoiled")) { Bytes y = x; if(hm) y[y.size() - 1] ^= 1; else { Bytes c2 = c; c2[11] ^= 1; y = fl_seal(w, c2); } size_t o2 = c.size(), m2 = 0; Bytes out2(o2); ASSERT(!p.kr->decrypt(out2.data(), o2, m2, y.data(), y.size()), "an altered packet is refused"); sym_reach("spoiled"); } size_t o = c.size(), m = 0; Bytes out(o); bool ok = p.kr->decrypt(out.data(), o, m, x.data(), x.size()); bool old = any && top > 32 && s <= top - 32, dup = false; for(auto h : had) dup |= h == s;
		ASSERT(ok == !(old || dup), ok ? "a packet that came before, or is too old, is refused" : "a fresh packet within the window opens"); if(ok) { had.push_back(s); if(!any || s > top) top = s; any = true; } else sym_reach(old ? "too old" : "came before");
	}
	sym_reach("end");
}
extern "C" void sym_main() { switch(sym_param("what", 0)) { case 0: around(); break; case 1: early(); break; case 2: arbitrary(); break; case 3: window(); break; } }
