// C20: both ends derive the same session and honour requirements; certificates, names and components of any content
#include "flash.h"
static Settings setting(unsigned bits, size_t hl) { return Settings { bool(bits & 1), bool(bits & 2), bool(bits & 4), bool(bits & 8), hl }; }
static const std::vector<int> lists[] = { { 2 }, { 14 }, { 14, 2 }, { 2, 14 }, { 16, 14, 2 } };
static int best(const std::vector<int> &a, const std::vector<int> &b) { for(int x : a) for(int y : b) if(x == y) return x; return -1; }
static Bytes seal(SessionCryptoKey *k, const Bytes &x) { size_t m = k->getEncryptSrcFrontMargin(), n = m + x.size(), pad = (n + 15) & ~size_t(15), io = pad + 32; Bytes src(pad), dst(io); memcpy(src.data() + m, x.data(), x.size()); ASSERT(k->encrypt(dst.data(), io, src.data(), n, m), "sealed"); dst.resize(io); return dst; }
static bool opens(SessionCryptoKey *k, const Bytes &c, const Bytes &x) { size_t o = c.size(), m = 0; Bytes out(o); if(!k->decrypt(out.data(), o, m, c.data(), c.size())) return false; ASSERT(o >= m + x.size() && !memcmp(out.data() + m, x.data(), x.size()), "the same bytes"); return true; }
static void sealedAs(const Bytes &c, const Way &w, const Bytes &x) // by the book
{
	size_t body = c.size() - (w.hmac ? w.hl : 0); ASSERT(c.size() > (w.hmac ? w.hl : 0) && !(body & 15), "as long as agreed"); if(w.hmac) { Bytes m(32); fl_hash(m.data(), w.hkey.data(), 32, c.data(), body); ASSERT(!memcmp(m.data(), c.data() + body, w.hl), "authenticated with the agreed key"); }
	static const uint8_t iv[16] = {}; Bytes p(body); fl_cbc(false, w.key, p.data(), c.data(), body, iv); size_t at = 0; if(w.seq) { uintmax_t v; at = VLU::parse(p.data(), p.data() + body, &v); ASSERT(at, "numbered as agreed"); } if(!w.hmac) { unsigned f = p[at] << 8 | p[at + 1]; at += 2; ASSERT(f == fl_cksum(p.data() + at, body - at), "summed where not authenticated"); } ASSERT(body - at >= x.size() && !memcmp(p.data() + at, x.data(), x.size()), "encrypted with the agreed key");
}
static void mirrored(Pair &p, int g) // what both ends hold, after agreeing
{
	ASSERT(p.ki->getNearNonce() == p.kr->getFarNonce() && p.ki->getFarNonce() == p.kr->getNearNonce() && p.ki->getNearNonce() != p.ki->getFarNonce(), "nonces mirror each other"); int gi = g, gr = g; uint8_t i = fl_priv(p.ci, p.certI.get(), gi), r = fl_priv(p.cr, p.certR.get(), gr); ASSERT(gi == g && gr == g, "one group");
	Bytes sec = fl_secret(g, i, r); ASSERT(p.ki->getNearNonce() == fl_hmac(sec, p.ci) && p.ki->getFarNonce() == fl_hmac(sec, p.cr), "nonces of the shared secret"); Way there = fl_way(sec, p.ci, p.cr, p.si, p.sr), back = fl_way(sec, p.cr, p.ci, p.sr, p.si);
	for(unsigned k = 0; k < 2; k++) { Bytes x = B("hello"); Bytes a = seal(p.ki.get(), x), b = seal(p.kr.get(), x); sealedAs(a, there, x); sealedAs(b, back, x); ASSERT(opens(p.kr.get(), a, x) && opens(p.ki.get(), b, x), "the ends understand each other"); ASSERT(opens(p.kr.get(), a, x) == !there.seq && opens(p.ki.get(), b, x) == !back.seq, "numbers are demanded where required"); }
	if(there.hmac) sym_reach("hmac"); if(there.seq) sym_reach("numbers");
}
static unsigned edit(Bytes &c, uintmax_t type, unsigned how, uint8_t v, uint8_t w = 0) // 0 as is; 1 its first byte; 2 gone; 3 another length and flags (HMAC)
{
	const uint8_t *q = c.data(), *e = q + c.size(); while(q < e) { uintmax_t t; const uint8_t *val; size_t n, k = Option::parse(q, e, &t, &val, &n); ASSERT(k && val, "own components are well formed"); size_t at = q - c.data(), in = val - c.data(); if(t == type) { if(how == 1) c[in] = v; if(how == 2) c.erase(c.begin() + at, c.begin() + at + k); if(how == 3 && n > 1) { c[in + 1] = v; c[in] = w; } return 1; } q += k; } return 0;
}
static void agree() // every pair of settings
{
	Pair p; p.si = setting(sym_choice("initiator", 16), 16); p.sr = setting(sym_choice("responder", 16), 9); unsigned st = sym_choice("static", 4), gi = sym_choice("groupsI", 5), gr = (gi + sym_choice("groupsR", sym_param("lists", 2))) % 5; p.i.groups = lists[gi]; p.r.groups = lists[gr]; int g = best(lists[gi], lists[gr]); bool ok = fl_begin(p, st & 1, st & 2); ASSERT(ok == (g > 0), "a group both know"); if(!ok) { sym_reach("no group"); return; } ASSERT(fl_finish(p), "two willing ends agree");
	mirrored(p, g); ASSERT(p.certI->supportsDHGroup(g) && p.certR->supportsDHGroup(g) && !p.certR->supportsDHGroup(3), "certificates tell the groups");
	if(sym_bool("again")) { Bytes c = p.cr; if(sym_bool("other")) { c[c.size() - 1] ^= 1; sym_reach("again other"); } p.ki->initiatorCombineResponderKeyingComponent(c.data(), c.size()); Bytes x = B("later"); Bytes a = seal(p.ki.get(), x), b = seal(p.kr.get(), x); ASSERT(opens(p.kr.get(), a, x) && opens(p.ki.get(), b, x), "a repeated answer changes nothing"); sym_reach("again"); }
	sym_reach("end");
}
// one end's words altered: refused, or as altered
static bool require(uint8_t flags, bool required) { return !required || (flags & 6); }
static void altered()
{
	bool toI = sym_bool("toI"); unsigned how = 1 + sym_choice("how", 3); bool both = how > 1 && sym_bool("both"); unsigned mine = sym_choice("mine", 16), theirs = how > 1 ? 5 * sym_choice("theirs", 4) : sym_choice("theirs", 16), st = both ? 3 * sym_choice("static", 2) : sym_choice("static", 4); Pair p; p.si = setting(toI ? mine : theirs, 16); p.sr = setting(toI ? theirs : mine, 9); ASSERT(fl_begin(p, st & 1, st & 2), "begun"); uintmax_t type = how == 3 || both || sym_bool("hmac") ? KEYING_OPTION_HMAC_NEGOTIATION : KEYING_OPTION_SSEQ_NEGOTIATION; bool hm = type == KEYING_OPTION_HMAC_NEGOTIATION; uint8_t v = sym_u8("value");
	uint8_t len = toI ? 9 : 16; Settings &me = toI ? p.si : p.sr; 
	if(toI) { ASSERT(p.kr->generateResponderKeyingComponent(p.certI, p.ci.data(), p.ci.size(), &p.cr), "answered"); }
	Bytes &c = toI ? p.cr : p.ci; Bytes orig = c; Bytes val; ASSERT(fl_opt(c, type, val), "a negotiation is there"); uint8_t flags = val[0], w = how == 3 ? (sym_bool("flags") ? 4 : flags) : 0; ASSERT(edit(c, type, how, v, w), "altered"); if(how == 3) flags = w; uint8_t v2 = 0; if(both) { v2 = sym_u8("numbering"); ASSERT(edit(c, KEYING_OPTION_SSEQ_NEGOTIATION, 1, v2), "altered too"); } if(how == 1) flags = v; if(how == 2) { flags = 0; len = 0; } bool vluOK = true; if(how == 3) { len = v; vluOK = !(v & 0x80); }
	bool req = hm ? me.hr : me.sr, will = require(flags, req), rx = req || (flags & 4); if(both && !require(v2, me.sr)) will = false; if(hm && rx && (!vluOK || len < 4 || len > 32)) will = false;
	Bytes out; bool ok = toI ? p.ki->initiatorCombineResponderKeyingComponent(c.data(), c.size()) : p.kr->generateResponderKeyingComponent(p.certI, c.data(), c.size(), &out); ASSERT(ok == will, will ? "what can be met is agreed to" : "what cannot be met fails");
	if(!ok) { sym_reach("cannot be met"); if(toI) { bool good = p.ki->initiatorCombineResponderKeyingComponent(orig.data(), orig.size()); p.cr = orig; ASSERT(good, "the right answer is still taken"); mirrored(p, 2); sym_reach("still taken"); } }
	else { SessionCryptoKey *k = (toI ? p.ki : p.kr).get(); bool sends = (hm ? me.hs : me.ss) || (flags & 1); sym_reach("altered"); size_t m = k->getEncryptSrcFrontMargin(); if(how != 2 || hm) { if(hm) { Settings &other = toI ? p.sr : p.si; bool seq = me.ss || (both ? v2 & 1 : other.sr); ASSERT(m == (sends ? 0u : 2u) + (seq ? 1u : 0u), "an authenticator is put on every packet as required"); } } }
	sym_reach("end");
}
// bytes of any content
struct Ref { bool ok = false; bool host = false, anc = false, fp = false; Bytes h, a, f; };
static Ref epd(const Bytes &b) // RFC 7425 4.4.2, an option at a time
{
	Ref r; size_t at = 0; while(at < b.size()) { uint64_t n = 0; for(;;) { if(at >= b.size()) return r; uint8_t x = b[at++]; n = n << 7 | (x & 0x7f); if(!(x & 0x80)) break; } if(n > b.size() - at) return r; if(!n) continue; size_t e = at + n; uint64_t t = 0; for(;;) { if(at >= e) return r; uint8_t x = b[at++]; t = t << 7 | (x & 0x7f); if(!(x & 0x80)) break; } Bytes v(b.begin() + at, b.begin() + e); at = e; if(t == 0) { r.host = true; r.h = v; } else if(t == 0x0a) { r.anc = true; r.a = v; } else if(t == 0x0f) { r.fp = true; r.f = v; } }
	r.ok = r.host || r.anc || r.fp; return r;
}
static void names()
{
	FCA a(7); bool server = sym_bool("server"), host = sym_bool("hostname"), eph = sym_bool("ephemeral"); ASSERT(a.init(server, eph, host ? "h" : nullptr), "made ready"); static bool asked; asked = false; bool deny = false; if(server && sym_bool("ask")) { deny = sym_bool("deny"); a.isSelectedByAncillaryData = [deny](const uint8_t *, size_t) { asked = true; return !deny; }; }
	Bytes enc = a.getNearEncodedCertForEPD(nullptr, 0); auto cert = a.decodeFlashCertificate(enc.data(), enc.size()); ASSERT(cert && cert->encode() == enc && cert->doesAcceptAncillaryData() == server && cert->isStatic() == !eph, "the certificate tells");
	Bytes fp = a.getFingerprint(), canon = a.getCanonicalEPD(); ASSERT(cert->getFingerprint() == fp && cert->getCanonicalEPD() == canon, "one fingerprint"); Bytes b; unsigned form = sym_choice("form", 3);
	if(form == 0) { unsigned n = sym_choice("n", sym_param("length", 6)); b.resize(n); sym_bytes("epd", b.data(), n); } else if(form == 1) { b = canon; b[2 + sym_choice("at", 32)] ^= sym_u8("by"); if(sym_bool("more")) { b.push_back(2); b.push_back(0); b.push_back(sym_u8("host")); } } else { b = FlashCryptoAdapter::makeEPD(nullptr, sym_bool("anc") ? "x" : nullptr, sym_bool("named") ? (sym_bool("right") ? "h" : "hh") : nullptr); }
	uint8_t *p = new uint8_t[b.size() ? b.size() : 1]; if(b.size()) memcpy(p, b.data(), b.size()); bool near = a.isSelectedByEPD(p, b.size()), far = cert->isSelectedByEPD(p, b.size()); delete[] p;
	Ref r = epd(b); bool want = r.ok; if(want) { if(r.fp) want = r.f == fp; else { if(r.host) want = host && r.h == B("h"); if(want && r.anc) want = server; } } ASSERT(far == want, want ? "a certificate named is selected" : "a certificate not named is not selected"); ASSERT(near == (want && !(r.anc && !r.fp && deny)), "an end answers to its names only"); sym_reach(want ? "selected" : "not selected"); sym_reach("end");
}
static void bytes()
{
	FCA a(7), b(9); unsigned kind = sym_choice("kind", 3); bool eph = sym_bool("ephemeral"); ASSERT(a.init(false, eph, nullptr) && b.init(true, true, nullptr), "made ready"); unsigned n = sym_choice("n", sym_param("length", 6)); Bytes x(n); sym_bytes("x", x.data(), n);
	if(kind == 0)
	{
		bool marker = false, eh = false, st = false, an = false, ok = true; size_t canon = 0; { size_t at = 0; while(at < n && ok) { uint64_t l = 0; bool got = false; while(at < n) { uint8_t y = x[at++]; l = l << 7 | (y & 0x7f); if(!(y & 0x80)) { got = true; break; } } if(!got || l > n - at) { ok = false; break; } if(!l) { if(!marker) canon = at; marker = true; continue; } size_t e = at + l; uint64_t t = 0; got = false; while(at < e) { uint8_t y = x[at++]; t = t << 7 | (y & 0x7f); if(!(y & 0x80)) { got = true; break; } } if(!got) { ok = false; break; } at = e; if(!marker) { canon = at; if(t == 0x0a) an = true; if(t == 0x15) eh = true; if(t == 0x1d) st = true; } } }
		uint8_t *p = new uint8_t[n ? n : 1]; if(n) memcpy(p, x.data(), n); auto c = a.decodeFlashCertificate(p, n); delete[] p; ASSERT(!!c == (ok && st != eh), "a certificate is taken when it is well formed and of one kind"); if(c) { ASSERT(c->isStatic() == st && c->doesAcceptAncillaryData() == an && c->encode() == x, "as it says"); const uint8_t *k; size_t kn; c->getPublicKey(2, &k, &kn); c->supportsDHGroup(x.back()); sym_reach("certificate"); auto key = a.getKeyForNewSession(); Bytes out; key->generateInitiatorKeyingComponent(c, &out); (void)canon; }
	}
	else
	{
		bool resp = kind == 1; Bytes enc = (resp ? a : b).getNearEncodedCertForEPD(nullptr, 0); auto cert = b.decodeFlashCertificate(enc.data(), enc.size()); auto key = (resp ? b : a).getKeyForNewSession(); Bytes out; Bytes tail; if(sym_bool("tail")) { Bytes k; if(eph && resp) Option::append(KEYING_OPTION_DH_PUBLIC_KEY, Bytes { 2, 2, 9 }, k); else if(resp) Option::append(KEYING_OPTION_DH_GROUP_SELECT, Bytes { 2 }, k); else Option::append(KEYING_OPTION_DH_PUBLIC_KEY, Bytes { 2, 2, 9 }, k); tail = k; } Bytes y = sym_bool("before") ? tail + x : x + tail; uint8_t *p = new uint8_t[y.size() ? y.size() : 1]; if(y.size()) memcpy(p, y.data(), y.size());
		bool ok; if(resp) ok = key->generateResponderKeyingComponent(cert, p, y.size(), &out); else { ASSERT(key->generateInitiatorKeyingComponent(cert, &out), "begun"); ok = key->initiatorCombineResponderKeyingComponent(p, y.size()); } delete[] p; if(tail.empty() && n < 3) ASSERT(!ok, "no component, no session"); sym_reach(ok ? "taken" : "refused");
	}
	sym_reach("end");
}
extern "C" void sym_main() { switch(sym_param("what", 0)) { case 0: agree(); break; case 1: altered(); break; case 2: names(); break; case 3: bytes(); break; } }
