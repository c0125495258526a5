// C37: the redirector's view follows the client's configuration; reconnecting is paced; silence after closing
#include "net.h"
#include "rtmfp/RedirectorClient.hpp"
static std::shared_ptr<TimerList> tl; static int live; static End *A, *S;
struct RC : public RedirectorClient
{
	RC(RTMFP *r, const Bytes &epd) : RedirectorClient(r, epd) { live++; } ~RC() { live--; }
	std::shared_ptr<Timer> scheduleTimer(Time when) override { return tl->schedule(when); }
	void hmacSHA256(void *dst, const void *key, size_t n, const void *msg, size_t m) override { uint8_t *d = (uint8_t *)dst; memset(d, 0x5a, 32); ASSERT(n <= 8 && m <= 20, "short in this harness"); d[0] = n; d[1] = m; memcpy(d + 2, key, n); memcpy(d + 10, msg, m); }
};
// ---- the redirector, by hand
static std::shared_ptr<RecvFlow> rin; static std::shared_ptr<SendFlow> sout; static unsigned conns, auths, seenSettings, loads; static int registered; /* -1 nothing heard */ static Bytes settings; static uintmax_t load; static Time told; static bool paced; static std::deque<Bytes> data, sentData; static bool ended; static std::set<Bytes> hmacs;
static void hear(const uint8_t *p, size_t n)
{
	ASSERT(n > 0, "no empty message"); const uint8_t *e = p + n;
	switch(*p++)
	{
	case 0x1d: ASSERT(e - p > 32, "a digest and a key name"); { Bytes m(p, e); ASSERT(hmacs.insert(m).second, "each key once"); Bytes id(p + 32, e); Bytes pw = id == B("k1") ? B("pass") : B("w"); ASSERT(id == B("k1") || id == B("key2"), "a known key"); Bytes nonce = S->crypto.keys.back()->near; ASSERT(p[0] == pw.size() && p[1] == nonce.size() && !memcmp(p + 2, pw.data(), pw.size()) && !memcmp(p + 10, nonce.data(), nonce.size()), "the digest is of this session's nonce"); auths++; } break;
	case 0x05: settings = Bytes(p, e); registered = 1; seenSettings++; break;
	case 0x00: ASSERT(p == e, "nothing more"); registered = 0; break;
	case 0x0f: { uintmax_t v = take(p, e); ASSERT(p == e, "nothing more"); if(paced) { ASSERT(told < 0 || net_now - told >= 3 - 0.01L, "no more often than the interval"); told = net_now; } load = v; loads++; } break;
	case 0x10: data.push_back(Bytes(p, e)); break;
	default: sym_fail("an unknown command");
	}
}
static void serve(End &b)
{
	b.r->onRecvFlow = [](std::shared_ptr<RecvFlow> f) {
		ASSERT(RedirectorClient::checkFlowMetadata(f->getMetadata()), "what the client opens is a redirector flow"); conns++; auths = loads = 0; registered = -1; settings.clear(); hmacs.clear(); ended = false; data.clear();
		rin = f; f->accept(); f->onMessage = [](const uint8_t *p, size_t n, uintmax_t, size_t) { hear(p, n); }; f->onComplete = [](bool) { ended = true; };
		sout = f->openReturnFlow(RedirectorClient::makeFlowMetadata());
	};
}
static bool cutoff;
static void turn() { for(int i = 0; ; i++) { if(i > 400) sym_fail("the ends never come to rest"); A->run(); S->run(); if(cutoff) { A->out.clear(); S->out.clear(); } bool fired = tl->fireDueTimers(net_now); if(A->out.empty() && S->out.empty() && !fired && A->tasks.empty()) break; net_relay(*A, *S); S->run(); net_relay(*S, *A); } }
static void pass(Duration d) { Time t = net_now + d; for(unsigned i = 0; ; i++) { if(i > 4000) sym_fail("too many timers"); turn(); Duration w = std::min(tl->howLongToNextFire(net_now, 60), std::min(A->r->howLongToSleep(), S->r->howLongToSleep())); if(net_now + w > t) break; net_now += w > 0 ? w : 0; } net_now = t; turn(); }
// ---- the client and what is expected of it
static std::shared_ptr<RC> rc; static RC *raw; static int st; static unsigned calls, connects; static bool closed, rejected, badAuth; static Time attempt; static Duration mini, interval; static uintmax_t want; static bool active, paused, adv; static std::set<Address> extra; static unsigned where, what, reports, udata; static bool done; static Bytes udWant, refl; static bool reflOK;
enum { NOWHERE, AT_CONNECTING, AT_CONNECTED, AT_DISCONNECTED, AT_REFLEXIVE, AT_DATA, WHERES }; enum { CLOSE, CLOSE_DROP, DROP, INACTIVE, LOAD, SEND, WHATS };
static void within(unsigned here)
{
	if(where != here || done) return; done = true; sym_reach("within");
	switch(what)
	{
	case CLOSE: closed = true; raw->close(); ASSERT(raw->getStatus() == RedirectorClient::STATUS_CLOSED, "closed at once"); break;
	case CLOSE_DROP: closed = true; raw->close(); rc.reset(); break;
	case DROP: closed = true; rc.reset(); break;
	case INACTIVE: active = false; raw->setActive(false); break;
	case LOAD: want++; raw->setLoadFactor(want); break;
	case SEND: { Bytes x = B("within"); auto w = raw->sendUserData(x.data(), x.size()); ASSERT(!!w == (st == RedirectorClient::STATUS_CONNECTED), "data is taken while connected"); if(w) sentData.push_back(x); } break;
	}
}
static void watch()
{
	raw->onStatus = [](RedirectorClient::Status s) {
		ASSERT(!closed, "silence after closing"); calls++; ASSERT(raw->getStatus() == s && raw->isConnected() == (s == RedirectorClient::STATUS_CONNECTED), "the status told is the status"); int was = st; st = s;
		switch(s)
		{
		case RedirectorClient::STATUS_CONNECTING: ASSERT(was == RedirectorClient::STATUS_IDLE || was >= RedirectorClient::STATUS_DISCONNECTED, "connecting begins when not connected"); ASSERT(!connects || net_now >= attempt + std::max<Duration>(mini, 5) - 1e-6L, "attempts are paced"); attempt = net_now; connects++; if(connects > 1) sym_reach("again"); within(AT_CONNECTING); break;
		case RedirectorClient::STATUS_CONNECTED: ASSERT(was == RedirectorClient::STATUS_CONNECTING, "connected after connecting"); sentData.clear(); rejected = badAuth = false; ASSERT(!raw->isReflexiveAddressValid(), "nothing reported yet"); within(AT_CONNECTED); break;
		case RedirectorClient::STATUS_DISCONNECTED: case RedirectorClient::STATUS_DISCONNECTED_BAD_AUTH: ASSERT(was == RedirectorClient::STATUS_CONNECTED || was == RedirectorClient::STATUS_CONNECTING, "disconnected once"); ASSERT((s == RedirectorClient::STATUS_DISCONNECTED_BAD_AUTH) == (rejected && badAuth), "a refused authentication is told from other ends"); ASSERT(!raw->isReflexiveAddressValid(), "no address is known any more"); sym_reach(s == RedirectorClient::STATUS_DISCONNECTED ? "disconnected" : "bad auth"); within(AT_DISCONNECTED); break;
		default: sym_fail("an unexpected status");
		}
	};
	raw->onReflexiveAddress = [](const Address &a) { ASSERT(!closed, "silence after closing"); calls++; reports++; ASSERT(raw->isReflexiveAddressValid() && raw->getReflexiveAddress() == a, "the address told is the address"); Address x; ASSERT(refl.size() && x.setFromEncoding(refl.data(), refl.data() + refl.size()) && x == a && x.getOrigin() == a.getOrigin(), "the address reported by the redirector"); within(AT_REFLEXIVE); };
	raw->onUserData = [](const uint8_t *p, size_t n) { ASSERT(!closed, "silence after closing"); calls++; udata++; ASSERT(Bytes(p, p + n) == udWant, "the data the redirector sent"); within(AT_DATA); };
}
static void check() // at rest
{
	if(rc) { ASSERT(raw->getStatus() == (closed ? int(RedirectorClient::STATUS_CLOSED) : st), "every change of status is told"); ASSERT(raw->getLoadFactor() == want && raw->getLoadFactorUpdateInterval() == interval && raw->isActive() == (closed ? raw->isActive() : active) && raw->getAdvertiseReflexiveAddress() == adv, "the configuration is remembered"); }
	if(closed || st != RedirectorClient::STATUS_CONNECTED || cutoff) return; sym_reach("connected");
	ASSERT(!ended && conns, "connected to the redirector"); ASSERT(auths == 2, "every key is presented");
	if(!active) ASSERT(registered == 0, "draining while inactive");
	else if(!paused)
	{
		ASSERT(registered == 1, "registered while active"); std::set<Address> told; bool incl = false; const uint8_t *p = settings.data(), *e = p + settings.size();
		while(p < e) { uintmax_t t; const uint8_t *v; size_t n; size_t r = Option::parse(p, e, &t, &v, &n); ASSERT(r, "well formed options"); p += r; if(!v) continue; if(t == 0x0d) incl = true; else { ASSERT(t == 0x0a, "a known option"); Address x; ASSERT(x.setFromEncoding(v, v + n) == n, "an address"); told.insert(x); } }
		ASSERT(incl == adv && told == extra, "the settings are those configured"); sym_reach("registered");
	}
	ASSERT(loads, "the load is told");
	ASSERT(data == sentData, "the data sent arrives once and in order");
}
static void start(Duration iv)
{
	net_now = 1000; tl = share_ref(new TimerList(), false); live = 0; rin.reset(); sout.reset(); conns = auths = loads = seenSettings = 0; registered = -1; data.clear(); sentData.clear(); ended = false; cutoff = false; st = RedirectorClient::STATUS_IDLE; calls = connects = 0; closed = rejected = badAuth = done = false; attempt = 0; want = 0; active = adv = true; paused = false; extra.clear(); where = what = 0; reports = udata = 0; udWant.clear(); refl.clear(); interval = iv; hmacs.clear(); paced = false;
}
static void make(End &a, End &b, unsigned form = 0)
{
	A = &a; S = &b; serve(b); rc = share_ref(new RC(a.r.get(), b.crypto.name), false); raw = rc.get(); watch(); static const Duration minis[] = { 30, 1 }; mini = minis[form]; raw->minimumReconnectInterval = mini;
	raw->addRedirectorAddress(Address((const struct sockaddr *)&b.addr)); raw->addSimpleAuth("k1", "pass"); raw->addSimpleAuth(B("key2"), B("w")); raw->setLoadFactorUpdateInterval(interval); raw->setRetransmitLimit(8); raw->setKeepalivePeriod(7); ASSERT(raw->getRetransmitLimit() == 8 && raw->getKeepalivePeriod() == 7, "limits are remembered");
}
static void over() // close, and nothing happens any more
{
	if(rc && !closed) { closed = true; raw->close(); } if(rc) { ASSERT(raw->getStatus() == RedirectorClient::STATUS_CLOSED && !raw->isConnected() && !raw->sendUserData("x", 1), "closed"); raw->connect(); raw->setActive(!raw->isActive()); raw->setLoadFactor(++want); raw->addAdditionalAddress(Address((const struct sockaddr *)&S->addr)); ASSERT(raw->getStatus() == RedirectorClient::STATUS_CLOSED, "closed for good"); }
	unsigned c = calls, n = conns; cutoff = false; pass(100); ASSERT(c == calls && n == conns, "nothing after closing"); if(conns && sym_param("strict", 1)) ASSERT(ended, "the redirector learns of it"); rc.reset(); tl->clear(); ASSERT(!live, "a closed client goes away"); A->r->shutdown(true); S->r->shutdown(true); turn(); rin.reset(); sout.reset();
}
static void restart() { S->r->shutdown(true); turn(); ended = true; rin.reset(); sout.reset(); S->tasks.clear(); S->writers.clear(); S->out.clear(); S->r = share_ref(new RTMFP(S, &S->crypto), false); S->r->addInterface(1); serve(*S); turn(); sym_reach("restarted"); }
static void history()
{
	static const Duration ivs[] = { 0, 3 }; unsigned form = sym_choice("form", 2); start(ivs[form]); End a("A", 1), b("B", 2); make(a, b, form); unsigned steps = sym_param("steps", 2); Address other((const struct sockaddr *)&a.addr), third((const struct sockaddr *)&b.addr);
	unsigned base = sym_choice("base", 4); if(base == 1) { active = false; raw->setActive(false); sym_reach("inactive"); } if(base == 2) { paused = true; raw->setPaused(true); sym_reach("paused"); } if(base == 3) { want = 77; raw->setLoadFactor(77); extra.insert(other); raw->addAdditionalAddress(other); }
	ASSERT(raw->getStatus() == RedirectorClient::STATUS_IDLE, "idle"); raw->connect(); raw->connect(); ASSERT(connects == 1, "one attempt"); bool late = !(base % 3) && sym_bool("late"); if(!late) { pass(1); ASSERT(st == RedirectorClient::STATUS_CONNECTED && conns == 1, "it connects"); ASSERT(load == want, "the load as it is"); check(); }
	for(unsigned i = 0; i < steps; i++)
	{
		bool up = st == RedirectorClient::STATUS_CONNECTED && !closed && !cutoff; unsigned was = calls, wasS = seenSettings;
		switch(sym_choice("op", 15))
		{
		case 0: active = !active; raw->setActive(active); turn(); break;
		case 1: paused = !paused; raw->setPaused(paused); turn(); break;
		case 2: want = want * 200 + 1; raw->setLoadFactor(want); turn(); break;
		case 3: extra.insert(third); raw->addAdditionalAddress(third); turn(); break;
		case 4: if(sym_bool("all")) { extra.clear(); raw->clearAdditionalAddresses(); } else { extra.erase(other); raw->removeAdditionalAddress(other); } turn(); break;
		case 5: adv = !adv; raw->setAdvertiseReflexiveAddress(adv); turn(); break;
		case 6: { Bytes x(1 + sym_choice("n", 2)); sym_bytes("x", x.data(), x.size()); auto w = raw->sendUserData(x.data(), x.size()); ASSERT(!!w == (st == RedirectorClient::STATUS_CONNECTED), "data is taken while connected"); if(w && !cutoff) sentData.push_back(x); turn(); } break;
		case 7: if(up) { static const unsigned ns[] = { 0, 6, 7, 19 }; Bytes x(ns[sym_choice("n", 4)]); sym_bytes("addr", x.data(), x.size()); if(x.size() && (x[0] & 0x80)) x[0] |= 0x80; refl = x; unsigned r = reports; Bytes m = Bytes(1, 0x0d) + x; sout->write(m); turn(); Address y; bool ok = y.setFromEncoding(x.data(), x.data() + x.size()); ASSERT(raw->isReflexiveAddressValid() == ok && reports == r + ok, "a well formed report is taken, another makes it unknown"); sym_reach(ok ? "reflexive" : "malformed"); } break;
		case 8: if(up) { Bytes x(sym_choice("n", 4)); sym_bytes("data", x.data(), x.size()); unsigned c = calls, d = udata; bool ud = x.size() && x[0] == 0x10; bool ra = x.size() && x[0] == 0x0d; udWant = x.size() ? Bytes(x.begin() + 1, x.end()) : Bytes(); sout->write(x); turn(); ASSERT(udata == d + ud && calls == c + ud && (ra ? !raw->isReflexiveAddressValid() : true), "only user data is handed on"); if(ud) sym_reach("user data"); } break;
		case 9: if(up && rin) { badAuth = sym_bool("bad"); rejected = true; ended = true; rin->close(badAuth ? 0x0a : 3); turn(); ASSERT(st >= RedirectorClient::STATUS_DISCONNECTED, "refused"); } break;
		case 10: if(up) restart(); break;
		case 11: cutoff = true; pass(40); ASSERT(st != RedirectorClient::STATUS_CONNECTED, "silence is noticed"); cutoff = false; sym_reach("silent"); break;
		case 12: pass(2); break;
		case 13: interval = interval ? 0 : 8; raw->setLoadFactorUpdateInterval(interval); turn(); break;
		case 14: closed = true; raw->close(); sym_reach("closed"); turn(); ASSERT(calls == was, "closing is silent"); i = steps; break;
		}
		if(!closed) { if(paused) ASSERT(seenSettings == wasS, "no settings while paused"); check(); }
	}
	if(!closed && sym_bool("wait")) { pass(125); ASSERT(st == RedirectorClient::STATUS_CONNECTED, "it connects again when the redirector is there"); check(); ASSERT(load == want, "the load is told in the end"); unsigned l = loads; pass(60); ASSERT(l == loads, "and only when it changes"); }
	over(); sym_reach("end");
}
static void reentry()
{
	start(0); End a("A", 1), b("B", 2); where = 1 + sym_choice("where", WHERES - 1); what = sym_choice("what", WHATS); make(a, b); raw->connect(); pass(1);
	if(rc && !closed) { ASSERT(st == RedirectorClient::STATUS_CONNECTED, "it connects"); check(); Bytes x(7); refl = x; sout->write(Bytes(1, 0x0d) + x); sout->write(Bytes(1, 0x10)); turn(); if(rc && !closed) { check(); if(sym_bool("bad")) { badAuth = rejected = true; ended = true, rin->close(0x0a); } else restart(); pass(65); } }
	ASSERT(done, "it was called"); if(rc && !closed) { ASSERT(st == RedirectorClient::STATUS_CONNECTED, "it connects again"); check(); ASSERT(load == want, "the load is told"); }
	over(); sym_reach("end");
}
static void pacing() // the load is told at once, then no more often than the interval
{
	start(3); End a("A", 1), b("B", 2); make(a, b); raw->connect(); pass(1); unsigned n = sym_param("sets", 4); ASSERT(loads == 1, "told when connected"); told = -1; paced = true;
	for(unsigned i = 0; i < n; i++)
	{
		static const Duration ds[] = { 0, 1, 2, 4 }; pass(ds[sym_choice("gap", 4)]); unsigned l = loads; uintmax_t v = sym_choice("v", 2) ? want + 300 : want; bool change = v != want; want = v; raw->setLoadFactor(v); bool free = told < 0 || net_now - told >= 3.01L; turn();
		if(!change) ASSERT(loads == l, "told only when it changes"); else if(free) ASSERT(loads == l + 1 && load == want, "told at once after a quiet time"); else if(loads == l) sym_reach("held back");
	}
	pass(3.1L); ASSERT(load == want, "the last load is told within the interval"); unsigned l = loads; pass(30); ASSERT(l == loads, "and only when it changes"); paced = false; over(); sym_reach("end");
}
extern "C" void sym_main() { switch(sym_param("what", 0)) { case 0: history(); break; case 1: reentry(); break; case 2: pacing(); break; } }
