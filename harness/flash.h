// The Flash profile over stand-in primitives: a linear hash, a chained exclusive-or cipher, and a commutative key exchange.
#pragma once
#include "sym.h"
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <vector>
#include "rtmfp/FlashCryptoAdapter.hpp"
#include "rtmfp/VLU.hpp"
using namespace com::zenomt; using namespace com::zenomt::rtmfp;
static Bytes B(const char *s) { return Bytes((const uint8_t *)s, (const uint8_t *)s + strlen(s)); }
static Bytes operator+(Bytes a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static void fl_hash(uint8_t *dst, const uint8_t *key, size_t n, const uint8_t *msg, size_t m)
{
	static const int rot[] = { 7, 11, 13, 19 }; uint8_t out[32];
	for(int k = 0; k < 4; k++) { uint64_t h = 0x811c9dc5a5a5a5a5ull + k * 0x0123456789abcdefull + n * 77; for(size_t i = 0; i < n; i++) h = (h << rot[k] | h >> (64 - rot[k])) ^ key[i]; h = (h << 29 | h >> 35) ^ 0x5851f42d4c957f2dull ^ m * 131; for(size_t i = 0; i < m; i++) h = (h << rot[k] | h >> (64 - rot[k])) ^ msg[i]; h ^= h << 17; for(int i = 0; i < 8; i++) out[8 * k + i] = h >> (8 * i); }
	memcpy(dst, out, 32);
}
static Bytes fl_hmac(const Bytes &key, const Bytes &msg) { Bytes r(32); fl_hash(r.data(), key.data(), key.size(), msg.data(), msg.size()); return r; }
struct FHmac : public HMACSHA256_Context { Bytes key; bool init(const void *k, size_t n) override { key = Bytes((const uint8_t *)k, (const uint8_t *)k + n); return true; } bool compute(void *md, const void *msg, size_t n) override { fl_hash((uint8_t *)md, key.data(), key.size(), (const uint8_t *)msg, n); return true; } };
static void fl_cbc(bool encrypt, const Bytes &key, uint8_t *dst, const uint8_t *src, size_t len, const uint8_t *iv) { for(size_t i = 0; i < len; i++) { uint8_t k = key[i & 15] + (i & 15), prev = i < 16 ? iv[i] : encrypt ? dst[i - 16] : src[i - 16]; dst[i] = src[i] ^ k ^ prev; } }
struct FAes : public AES_Context { Bytes key; bool enc; bool init(const void *k, size_t n, bool e) override { ASSERT(n == 16, "a 128 bit key"); key = Bytes((const uint8_t *)k, (const uint8_t *)k + n); enc = e; return true; } bool crypt_cbc(void *dst, const void *src, size_t len, uint8_t *iv) override { ASSERT(!(len & 15) && dst != src, "whole blocks"); fl_cbc(enc, key, (uint8_t *)dst, (const uint8_t *)src, len, iv); return true; } };
static Bytes fl_secret(int group, uint8_t a, uint8_t b) { Bytes r; r.push_back(group); r.push_back(a ^ b); r.push_back(a & b); r.push_back(0x77); return r; }
struct FDh : public DH_Context { uint8_t priv; int group = 0; std::set<int> ok; FDh(uint8_t p, const std::vector<int> &g) : priv(p), ok(g.begin(), g.end()) {} bool init(int g) override { group = g; return ok.count(g); } Bytes getPublicKey() const override { Bytes r; r.push_back(group); r.push_back(priv); return r; } bool computeSharedSecret(const void *p, size_t n, Bytes &dst) const override { const uint8_t *b = (const uint8_t *)p; if(n != 2 || b[0] != group) return false; dst = fl_secret(group, priv, b[1]); return true; } };
struct FCA : public FlashCryptoAdapter
{
	uint8_t seed; std::vector<int> groups { 2 };
	explicit FCA(uint8_t s) : seed(s) {}
	void sha256(void *dst, const void *msg, size_t n) const override { fl_hash((uint8_t *)dst, nullptr, 0, (const uint8_t *)msg, n); }
	std::shared_ptr<HMACSHA256_Context> makeHMAC_Context() override { return share_ref(new FHmac(), false); }
	std::shared_ptr<AES_Context> makeAES_Context() override { return share_ref(new FAes(), false); }
	std::shared_ptr<DH_Context> makeDH_Context() override { seed += 5; return share_ref(new FDh(seed * 3 + 1, groups), false); }
	void pseudoRandomBytes(uint8_t *dst, size_t n) override { for(size_t i = 0; i < n; i++) dst[i] = seed * 7 + i * 13 + 5; seed += 3; }
	std::vector<int> getSupportedDHGroups() const override { return groups; }
};
struct Settings { bool hs, hr, ss, sr; size_t hl; }; // HMAC sent always, required; sequence numbers sent always, required; HMAC length
static void fl_set(FCA &a, const Settings &s) { a.setHMACSendAlways(s.hs); a.setHMACRecvRequired(s.hr); a.setSSeqSendAlways(s.ss); a.setSSeqRecvRequired(s.sr); a.setHMACLength(s.hl); }
struct Pair { FCA i { 1 }, r { 101 }; std::shared_ptr<SessionCryptoKey> ki, kr; Bytes ci, cr; Settings si, sr; std::shared_ptr<FlashCryptoCert> certI, certR; };
static bool fl_begin(Pair &p, bool statI, bool statR)
{
	ASSERT(p.i.init(false, !statI, nullptr) && p.r.init(true, !statR, "host"), "made ready"); fl_set(p.i, p.si); fl_set(p.r, p.sr); p.ki = p.i.getKeyForNewSession(); p.kr = p.r.getKeyForNewSession(); Bytes x = p.i.getNearEncodedCertForEPD(nullptr, 0), y = p.r.getNearEncodedCertForEPD(nullptr, 0);
	p.certI = p.r.decodeFlashCertificate(x.data(), x.size()); p.certR = p.i.decodeFlashCertificate(y.data(), y.size()); ASSERT(p.certI && p.certR, "own certificates are well formed"); ASSERT(p.certI->isStatic() == statI && p.certR->isStatic() == statR && p.i.isStatic() == statI && p.r.isStatic() == statR, "static or not, as asked");
	ASSERT(p.certI->getFingerprint() == p.i.getFingerprint() && p.certR->getFingerprint() == p.r.getFingerprint(), "both ends compute the same fingerprint"); return p.ki->generateInitiatorKeyingComponent(p.certR, &p.ci);
}
static bool fl_finish(Pair &p) { return p.kr->generateResponderKeyingComponent(p.certI, p.ci.data(), p.ci.size(), &p.cr) && p.ki->initiatorCombineResponderKeyingComponent(p.cr.data(), p.cr.size()); }
static bool fl_opt(const Bytes &c, uintmax_t type, Bytes &value) { const uint8_t *q = c.data(), *e = q + c.size(); while(q < e) { uintmax_t t; const uint8_t *v; size_t n, k = Option::parse(q, e, &t, &v, &n); if(!k || !v) return false; q += k; if(t == type) { value = Bytes(v, v + n); return true; } } return false; }
static uint8_t fl_priv(const Bytes &component, const FlashCryptoCert *cert, int &group) { Bytes v; Bytes enc = const_cast<FlashCryptoCert *>(cert)->encode(); bool ok = fl_opt(component, KEYING_OPTION_DH_PUBLIC_KEY, v); if(!ok) for(;;) { const uint8_t *k; size_t n; ASSERT(const_cast<FlashCryptoCert *>(cert)->getPublicKey(group, &k, &n) && n == 2, "a key for the group"); return k[1]; } ASSERT(v.size() == 3, "a public key of the stand-in"); group = v[0]; return v[2]; } // the stand-in's public key tells
// ---- one direction by the book (RFC 7425 4.6.3, 4.7)
struct Way { Bytes key, hkey; bool hmac, seq; size_t hl; std::set<uintmax_t> seen; uintmax_t top = 0; bool any = false; };
static Way fl_way(const Bytes &secret, const Bytes &nearC, const Bytes &farC, const Settings &tx, const Settings &rx) { Way w; w.key = fl_hmac(secret, fl_hmac(farC, nearC)); w.hkey = fl_hmac(secret, w.key); w.hmac = tx.hs || rx.hr; w.seq = tx.ss || rx.sr; w.hl = tx.hl; return w; }
static unsigned fl_cksum(const uint8_t *p, size_t n) { uint32_t s = 0; for(size_t i = 0; i + 1 < n; i += 2) s += p[i] << 8 | p[i + 1]; if(n & 1) s += p[n - 1]; s = (s >> 16) + (s & 0xffff); s += s >> 16; return ~s & 0xffff; }
static Bytes fl_seal(const Way &w, const Bytes &clear) { static const uint8_t iv[16] = {}; Bytes c(clear.size() + (w.hmac ? w.hl : 0)); fl_cbc(true, w.key, c.data(), clear.data(), clear.size(), iv); if(w.hmac) { Bytes m(32); fl_hash(m.data(), w.hkey.data(), 32, c.data(), clear.size()); memcpy(c.data() + clear.size(), m.data(), w.hl); } return c; }
