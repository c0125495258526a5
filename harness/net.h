// Two protocol instances in one process: concrete clock, task and write queues, and a transparent crypto adapter, so that
// packets can be looked at, altered, lost, repeated, reordered or made up.
#pragma once
#include "sym.h"
#include <cmath>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <vector>
#include <arpa/inet.h>
#include <netinet/in.h>
#include "rtmfp/rtmfp.hpp"
#include "rtmfp/VLU.hpp"
#include "rtmfp/packet.hpp"
#include "rtmfp/params.hpp"
using namespace com::zenomt; using namespace com::zenomt::rtmfp;

static Time net_now = 1000;
struct Wire { Bytes bytes; int ifid; Address to; int tos; };

static struct sockaddr_in net_addr(unsigned host, unsigned port = 1935) { struct sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(port); s.sin_addr.s_addr = htonl(0x0a000000u + host); return s; }
static Bytes B(const char *s) { return Bytes((const uint8_t *)s, (const uint8_t *)s + strlen(s)); }

// ---- crypto: everything in the clear; a sealed packet is 8 marker bytes (of the key) and the cleartext
static Bytes operator+(Bytes a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static bool epd_selects(const uint8_t *epd, size_t len, const Bytes &name) { if(len && *epd == '@') { epd++; len--; } return Bytes(epd, epd + len) == name; } // an endpoint can be asked for as "x" or "@x"
struct Cert : public CryptoCert {
	Bytes name; bool authentic = true, sigGood = true; explicit Cert(const Bytes &n) : name(n) {}
	void isAuthentic(const Task &f) override { if(authentic) f(); }
	bool isSelectedByEPD(const uint8_t *epd, size_t len) override { return epd_selects(epd, len, name); }
	Bytes getCanonicalEPD() override { return name; }
	void checkSignature(const uint8_t *msg, size_t msgLen, const uint8_t *sig, size_t sigLen, const Task &f) override;
	bool doesCertOverrideSession(std::shared_ptr<CryptoCert> other) override { return other->getCanonicalEPD() == name; }
	Bytes encode() override { return name; }
};
struct Key : public SessionCryptoKey {
	uint8_t mark[8]; Bytes near, far; bool combined = false;
	Key(uint8_t n) { for(int i = 0; i < 8; i++) mark[i] = 0x11 * (i & 3); near.push_back(n); }
	size_t getEncryptSrcFrontMargin() override { return 0; }
	bool encrypt(uint8_t *dst, size_t &io, uint8_t *src, size_t len, size_t margin) override { if(io < len + 8) return false; memcpy(dst, mark, 8); memcpy(dst + 8, src, len); io = len + 8; return true; }
	bool decrypt(uint8_t *dst, size_t &io, size_t &margin, const uint8_t *src, size_t len) override { if(len < 8 || len > io || memcmp(src, mark, 8)) return false; memcpy(dst, src + 8, len - 8); io = len - 8; margin = 0; return true; }
	Bytes getNearNonce() override { return near; }
	Bytes getFarNonce() override { return far; }
	bool generateInitiatorKeyingComponent(std::shared_ptr<CryptoCert>, Bytes *out) override { *out = near; return true; }
	bool initiatorCombineResponderKeyingComponent(const uint8_t *c, size_t n) override { far = Bytes(c, c + n); combined = true; return true; }
	bool generateResponderKeyingComponent(std::shared_ptr<CryptoCert>, const uint8_t *c, size_t n, Bytes *out) override { far = Bytes(c, c + n); *out = near; combined = true; return true; }
};
struct Crypto : public ICryptoAdapter {
	Bytes name; uint8_t seed; bool authentic = true, sigGood = true; std::vector<std::shared_ptr<Key> > keys; explicit Crypto(const char *n) : name(B(n)), seed(n[0]) {}
	std::shared_ptr<SessionCryptoKey> getKeyForNewSession() override { auto k = share_ref(new Key(seed + 16 * keys.size()), false); keys.push_back(k); return k; }
	Bytes getNearEncodedCertForEPD(const uint8_t *, size_t) override { return name; }
	bool isSelectedByEPD(const uint8_t *epd, size_t len) override { return epd_selects(epd, len, name); }
	Bytes sign(const uint8_t *msg, size_t len, std::shared_ptr<CryptoCert>) override { return name + Bytes(msg, msg + len); }
	bool checkNearWinsGlare(std::shared_ptr<CryptoCert> far) override { return name < far->getCanonicalEPD(); }
	std::shared_ptr<CryptoCert> decodeCertificate(const uint8_t *bytes, size_t len) override { auto c = len ? share_ref(new Cert(Bytes(bytes, bytes + len)), false) : std::shared_ptr<Cert>(); if(c) { c->authentic = authentic; c->sigGood = sigGood; } return c; }
	void pseudoRandomBytes(uint8_t *dst, size_t len) override { for(size_t i = 0; i < len; i++) dst[i] = uint8_t(seed * 7 + i * 13 + 5); seed += 3; }
	void cryptoHash256(uint8_t *dst, const uint8_t *msg, size_t len) override { static const int rot[] = { 7, 11, 13, 19 }; for(int k = 0; k < 4; k++) { uint64_t h = 0x811c9dc5a5a5a5a5ull + k; for(size_t i = 0; i < len; i++) { h = (h << rot[k] | h >> (64 - rot[k])) ^ msg[i]; } for(int i = 0; i < 8; i++) dst[8 * k + i] = h >> (8 * i); } }
};
void Cert::checkSignature(const uint8_t *msg, size_t len, const uint8_t *sig, size_t n, const Task &f) { Bytes s = name + Bytes(msg, msg + len); bool same = s.size() == n; unsigned d = !same; if(same) for(size_t i = 0; i < n; i++) d |= s[i] ^ sig[i]; if(sigGood && !d) f(); }

// ---- platform
struct End : public IPlatformAdapter {
	std::deque<Task> tasks; std::vector<std::pair<int, std::function<bool(void)> > > writers; std::deque<Wire> out; struct sockaddr_in addr; Crypto crypto; std::shared_ptr<RTMFP> r; unsigned shutdowns = 0; bool blocked = false; uint32_t sid = 0; // sid: how packets for this end's session are addressed
	
	std::vector<std::shared_ptr<RecvFlow> > in;
	End(const char *name, unsigned host) : addr(net_addr(host)), crypto(name) { r = share_ref(new RTMFP(this, &crypto), false); r->addInterface(1); }
	Time getCurrentTime() override { return net_now; }
	bool notifyWhenInterfaceWritable(int id, const std::function<bool(void)> &f) override { writers.push_back(std::make_pair(id, f)); return true; }
	bool writePacket(const void *b, size_t n, int id, const struct sockaddr *a, socklen_t, int tos) override { Wire w; w.bytes = Bytes((const uint8_t *)b, (const uint8_t *)b + n); w.ifid = id; w.to = Address(a); w.tos = tos; out.push_back(w); return true; }
	bool perform(unsigned long, const Task &t) override { tasks.push_back(t); return true; }
	void onShutdownComplete() override { shutdowns++; }
	void run() // everything that is due, in order
	{
		for(unsigned guard = 0; ; guard++)
		{
			if(guard > 4000) sym_fail("no end to the work");
			if(tasks.size()) { Task t = tasks.front(); tasks.pop_front(); t(); continue; }
			if(r && r->howLongToSleep() <= 0) { r->doTimerWork(); continue; }
			if(writers.size() && !blocked) { auto w = writers.front(); writers.erase(writers.begin()); while(w.second()) ; continue; }
			break;
		}
	}
	bool put(const Bytes &p, const struct sockaddr_in &from, int tos = 0) { uint8_t *x = new uint8_t[p.size() ? p.size() : 1]; if(p.size()) memcpy(x, p.data(), p.size()); bool rv = r->onReceivePacket(x, p.size(), 1, (const struct sockaddr *)&from, tos); delete[] x; return rv; }
};
static void net_relay(End &a, End &b) { while(a.out.size()) { Wire w = a.out.front(); a.out.pop_front(); if(w.to == Address((const struct sockaddr *)&b.addr)) b.put(w.bytes, a.addr, w.tos); } }
static void net_quiet(End &a, End &b) { for(int i = 0; ; i++) { if(i > 200) sym_fail("the ends never come to rest"); a.run(); b.run(); if(a.out.empty() && b.out.empty()) break; net_relay(a, b); a.run(); b.run(); net_relay(b, a); } }
static void net_until(End &a, End &b, Time t) // let time pass, with a perfect network
{
	for(int i = 0; ; i++) { if(i > 4000) sym_fail("too many timers"); net_quiet(a, b); Duration d = std::min(a.r->howLongToSleep(), b.r->howLongToSleep()); if(net_now + d > t) break; net_now += d > 0 ? d : 0; }
	net_now = t; net_quiet(a, b);
}

// ---- packets by hand
struct Chunk { uint8_t type; Bytes body; };
static uint32_t wire_sid(const Bytes &p) { uint32_t x[3]; memcpy(x, p.data(), 12); return x[0] ^ x[1] ^ x[2]; }
static Bytes wire_clear(const Bytes &p) { return Bytes(p.begin() + 12, p.end()); }
struct Parsed { uint8_t flags; long ts, tse; std::vector<Chunk> chunks; };
static Parsed wire_parse(const Bytes &p)
{
	Parsed r; const uint8_t *c = p.data() + 12, *e = p.data() + p.size(); r.flags = *c++; r.ts = r.tse = -1;
	if(r.flags & HEADER_FLAG_TS) { r.ts = c[0] << 8 | c[1]; c += 2; } if(r.flags & HEADER_FLAG_TSE) { r.tse = c[0] << 8 | c[1]; c += 2; }
	while(e - c >= 3) { size_t n = c[1] << 8 | c[2]; ASSERT(n <= size_t(e - c - 3), "a sent packet is well formed"); Chunk k; k.type = c[0]; k.body = Bytes(c + 3, c + 3 + n); r.chunks.push_back(k); c += 3 + n; }
	return r;
}
static Bytes wire_make(uint32_t sid, uint8_t flags, const Bytes &chunks, long ts = -1, long tse = -1)
{
	Bytes p(12); for(int i = 0; i < 8; i++) p[4 + i] = 0x11 * (i & 3); uint32_t x[3]; memcpy(x, p.data(), 12); x[0] = sid ^ x[1] ^ x[2]; memcpy(p.data(), x, 4);
	if(ts >= 0) flags |= HEADER_FLAG_TS; if(tse >= 0) flags |= HEADER_FLAG_TSE; p.push_back(flags); if(ts >= 0) { p.push_back(ts >> 8); p.push_back(ts); } if(tse >= 0) { p.push_back(tse >> 8); p.push_back(tse); }
	p.insert(p.end(), chunks.begin(), chunks.end()); return p;
}
static void chunk_add(Bytes &to, uint8_t type, const Bytes &body) { to.push_back(type); to.push_back(body.size() >> 8); to.push_back(body.size()); to.insert(to.end(), body.begin(), body.end()); }
static void vlu(Bytes &b, uintmax_t v) { VLU::append(v, b); }

static std::shared_ptr<SendFlow> net_open(End &a, End &b, const char *metadata = "", Priority pri = PRI_ROUTINE) // a opens to b; nothing else has been sent afterwards
{
	auto f = a.r->openFlow(b.crypto.name, B(metadata), pri); f->addCandidateAddress((const struct sockaddr *)&b.addr);
	for(int i = 0; i < 10; i++)
	{
		a.run(); net_relay(a, b); b.run();
		for(auto &w : b.out) { Parsed p = wire_parse(w.bytes); for(auto &c : p.chunks) if(c.type == CHUNK_RIKEYING) { a.sid = wire_sid(w.bytes); memcpy(&b.sid, c.body.data(), 4); } }
		net_relay(b, a);
	}
	ASSERT(f->isWritable() && a.sid && b.sid, "the session opens"); return f;
}
struct UD { uint8_t flags; uintmax_t id, seq, fsn; Bytes opts, data; size_t size; }; // one user data chunk
static uintmax_t take(const uint8_t *&p, const uint8_t *e) { uintmax_t v = 0; size_t n = VLU::parse(p, e, &v); ASSERT(n, "a sent number is well formed"); p += n; return v; }
static std::vector<UD> wire_user(const Parsed &k)
{
	std::vector<UD> r; bool any = false;
	for(auto &c : k.chunks)
	{
		if(c.type != CHUNK_USERDATA && c.type != CHUNK_NEXT_USERDATA) continue;
		const uint8_t *p = c.body.data(), *e = p + c.body.size(); UD u; u.size = c.body.size() + 3; ASSERT(p < e, "user data has flags"); u.flags = *p++;
		if(c.type == CHUNK_USERDATA) { u.id = take(p, e); u.seq = take(p, e); uintmax_t off = take(p, e); ASSERT(off <= u.seq, "a forward sequence number that exists"); u.fsn = u.seq - off; }
		else { ASSERT(any, "a continuation follows something"); u.id = r.back().id; u.seq = r.back().seq + 1; u.fsn = r.back().fsn; }
		if(u.flags & USERDATA_FLAG_OPT) { const uint8_t *o = p; for(;;) { uintmax_t n = take(p, e); ASSERT(n <= uintmax_t(e - p), "options fit"); if(!n) break; p += n; } u.opts = Bytes(o, p); }
		u.data = Bytes(p, e); r.push_back(u); any = true;
	}
	return r;
}
static Bytes ack_make(uintmax_t id, uintmax_t blocks, uintmax_t cum, const std::vector<uintmax_t> &pairs = {}) { Bytes p, c; vlu(p, id); vlu(p, blocks); vlu(p, cum); for(auto x : pairs) vlu(p, x); chunk_add(c, CHUNK_ACK_RANGES, p); return c; }
