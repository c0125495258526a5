// C38: each transaction answered once, streams isolated, silence after closing, server bytes of any content, what is sent arrives as given
#include "net.h"
#include "rtmfp/TCConnection.hpp"
#include "amfref.h"
using namespace com::zenomt::rtmp;
using Args = TCConnection::Args;
static std::shared_ptr<TimerList> rbTimers; static int live; // connections in existence
struct RB : public ReorderBuffer { using ReorderBuffer::ReorderBuffer; Time getCurrentTime() const override { return net_now; } std::shared_ptr<Timer> scheduleTimer(Time when) override { return rbTimers->schedule(when); } };
struct Conn : public RTMFPTCConnection
{
	Conn() { live++; } ~Conn() { live--; }
	std::shared_ptr<ReorderBuffer> reorderBufferFactory(Duration w) override { return share_ref(new RB(w), false); }
	size_t pending() const { return m_transactions.size(); }
};
// ---- the server, by hand
struct Got { uint32_t stream; uint8_t type; uint32_t ts; Bytes payload; };
static End *A, *S; static std::shared_ptr<RecvFlow> sctl; static std::shared_ptr<SendFlow> sret; static std::deque<Got> got; static std::map<uint32_t, std::vector<std::shared_ptr<RecvFlow> > > sflows; static std::map<unsigned, std::shared_ptr<SendFlow> > sout; static bool conforming;
static void attend(const std::shared_ptr<RecvFlow> &f)
{
	uint32_t id = 0; ReceiveOrder o; ASSERT(TCMetadata::parse(f->getMetadata(), &id, &o), "what the client opens is a Tin-Can flow"); sflows[id].push_back(f); f->accept(); f->setBufferCapacity(1 << 20);
	f->onMessage = [id](const uint8_t *p, size_t n, uintmax_t, size_t) { if(!n) return; Got g; g.stream = id; size_t h = TCMessage::parseHeader(p, p + n, &g.type, &g.ts); ASSERT(h, "what the client sends is well formed"); g.payload = Bytes(p + h, p + n); got.push_back(g); };
}
static void serve(End &b)
{
	b.r->onRecvFlow = [](std::shared_ptr<RecvFlow> f) {
		uint32_t id = 9; ReceiveOrder o; if(!TCMetadata::parse(f->getMetadata(), &id, &o)) return;
		ASSERT(!sctl && id == 0, "one control flow"); sctl = f; attend(f); sret = f->openReturnFlow(TCMetadata::encode(0, RO_SEQUENCE)); sret->onRecvFlow = [](std::shared_ptr<RecvFlow> g) { attend(g); };
	};
}
static void settle() { for(;;) { net_quiet(*A, *S); if(!rbTimers->fireDueTimers(net_now)) break; } }
static void pass(Duration d) { Time t = net_now + d; for(unsigned i = 0; ; i++) { if(i > 4000) sym_fail("too many timers"); settle(); Duration w = std::min(rbTimers->howLongToNextFire(net_now, 60), std::min(A->r->howLongToSleep(), S->r->howLongToSleep())); if(net_now + w > t) break; net_now += w > 0 ? w : 0; } net_now = t; settle(); }
static SendFlow *flow(uint32_t id, ReceiveOrder o = RO_SEQUENCE) { auto &f = sout[id * 2 + (o == RO_NETWORK)]; if(!f) { f = sctl->openReturnFlow(TCMetadata::encode(id, o)); f->onRecvFlow = [](std::shared_ptr<RecvFlow> g) { attend(g); }; } return f.get(); }
static bool said; static void say(const Bytes &m) { sret->write(m); said = true; }
static void reply(const char *how, double tid, const std::vector<std::shared_ptr<AMF0> > &args) { std::vector<std::shared_ptr<AMF0> > a = { AMF0::Null() }; a.insert(a.end(), args.begin(), args.end()); say(TCMessage::command(how, tid, a)); }
static Bytes data_payload(const char *cmd, uint8_t x) { Bytes b; AMF0String(cmd).encode(b); AMF0String(std::string(1, char(x))).encode(b); return b; }
struct Cmd { std::string name; double tid; Args args; };
static Cmd command_of(const Got &g) { Cmd c; const uint8_t *p = g.payload.data(), *e = p + g.payload.size(); ASSERT(g.type == TCMSG_COMMAND && g.ts == 0, "a command"); auto n = AMF0::decode(&p, e), t = AMF0::decode(&p, e); ASSERT(n && n->isString() && t && t->isNumber(), "a well formed command"); c.name = n->stringValue(); c.tid = t->doubleValue(); ASSERT(AMF0::decode(p, e, c.args), "well formed arguments"); return c; }

// ---- the client and what is expected of it
struct Tx { int heard; bool ok; bool queued; int answered; double tid; std::string text; bool null; }; static std::deque<Tx> txs;
struct Str { std::shared_ptr<TCStream> s; uint32_t id; bool dead, opened; int opens; unsigned got, expect; Tx *tx; uint8_t type; uint32_t ts; Bytes payload; unsigned status; bool dropped; }; static std::deque<Str> strs;
static std::shared_ptr<Conn> conn; static bool closed, failing; static int statuses, closes, commands, opens; static std::string lastStatus;
static unsigned where, what; static bool done;
enum { NOWHERE, IN_OPEN, IN_CONNECT, IN_STATUS, IN_TRANSACT, IN_STREAMOPEN, IN_AUDIO, IN_DATA, IN_STREAMSTATUS, IN_COMMAND, IN_CLOSE, WHERES };
enum { CLOSE, CLOSE_DROP, DELETE, DELETE_DROP, DROP, TRANSACT, CREATE, WHATS };
static void watch(const std::shared_ptr<TCStream> &s); static Tx *begin(const char *cmd);
static void within(unsigned here, Str *x)
{
	if(where != here || done) return; done = true; sym_reach("within");
	switch(what)
	{
	case CLOSE: case CLOSE_DROP: closed = true; for(auto &y : strs) y.dead = true; conn->close(); if(what == CLOSE_DROP) { for(auto &y : strs) { y.s.reset(); y.dropped = true; } conn.reset(); } break;
	case DELETE: case DELETE_DROP: for(auto &y : strs) if(y.s && (!x || x == &y)) { y.dead = true; y.s->deleteStream(); if(what == DELETE_DROP) { y.s.reset(); y.dropped = true; } } break;
	case DROP: for(auto &y : strs) { y.s.reset(); y.dropped = true; } conn.reset(); break;
	case TRANSACT: if(!conn) break; { Tx *t = begin("more"); (void)t; } break;
	case CREATE: if(!conn) break; { auto s = conn->createStream(); ASSERT(!!s == !closed, "streams are created while open"); if(s) watch(s); } break;
	}
}
static void hear(Tx *t, bool ok, const std::shared_ptr<AMF0> &r, unsigned here)
{
	ASSERT(t->queued, "only what was asked is answered"); t->heard++; ASSERT(t->heard == 1, "each transaction is answered once"); t->ok = ok; t->null = !r; ASSERT(!ok || r, "a success has a result"); if(r && r->isString()) t->text = r->stringValue(); ASSERT(closed || t->answered, "answered by the server, or closed"); within(here, nullptr);
}
static double nextTID;
static Tx *begin(const char *cmd)
{
	txs.push_back(Tx{}); Tx *t = &txs.back(); t->queued = true; t->tid = nextTID; bool connect = !strcmp(cmd, "connect"); auto h = [t, connect](bool ok, std::shared_ptr<AMF0> r) { hear(t, ok, r, connect ? IN_CONNECT : IN_TRANSACT); };
	bool rv = connect ? conn->connect(h, "rtmfp://host/app/inst?q") : conn->transact(h, cmd, { AMF0::Null(), AMF0::Number(7) }); ASSERT(rv == !closed, "transactions are accepted while open"); if(rv) nextTID++; else t->queued = false; return t;
}
static void watch(const std::shared_ptr<TCStream> &s)
{
	strs.push_back(Str{}); Str *x = &strs.back(); x->s = s; txs.push_back(Tx{}); x->tx = &txs.back(); x->tx->tid = nextTID++;
	s->onOpen = [x] { ASSERT(!x->dead && !closed && !x->opened, "opens once"); x->opened = true; ASSERT(!x->s || x->s->isOpen(), "open in the callback"); within(IN_STREAMOPEN, x); };
	s->onStatus = [x](std::shared_ptr<AMF0> info) { ASSERT(!x->dead && !closed && x->opened && info, "status of an open stream"); x->status++; within(IN_STREAMSTATUS, x); };
	auto take = [x](uint8_t type, uint32_t ts, const Bytes &p) { ASSERT(!x->dead && !closed && x->opened, "messages of an open stream"); x->got++; x->type = type; x->ts = ts; x->payload = p; within(type == TCMSG_AUDIO ? IN_AUDIO : IN_DATA, x); };
	s->onAudio = [take](uint32_t ts, const uint8_t *p, size_t n) { auto t = take; t(TCMSG_AUDIO, ts, Bytes(p, p + n)); };
	s->onVideo = [take](uint32_t ts, const uint8_t *p, size_t n) { auto t = take; t(TCMSG_VIDEO, ts, Bytes(p, p + n)); };
	s->onData = [take](uint32_t ts, const std::string &c, const Args &a) { auto t = take; Bytes p; AMF0String(c).encode(p); AMF0::encode(a, p); t(TCMSG_DATA, ts, p); };
}
static void begin_all(End &a, End &b)
{
	net_now = 1000; rbTimers = share_ref(new TimerList(), false); live = 0; got.clear(); sflows.clear(); sout.clear(); sctl.reset(); sret.reset(); txs.clear(); strs.clear(); closed = failing = done = false; statuses = closes = commands = opens = 0; lastStatus = ""; said = false; where = what = 0; nextTID = 1; A = &a; S = &b; serve(b);
	conn = share_ref(new Conn(), false); ASSERT(!conn->isOpen() && !conn->isConnected(), "not yet open");
	conn->onTransportOpen = [] { ASSERT(!closed && !opens, "the transport opens once"); opens++; within(IN_OPEN, nullptr); };
	conn->onStatus = [](std::shared_ptr<AMF0> i) { ASSERT(closes == 0, "no status after closing"); statuses++; auto o = i ? i->asObject() : nullptr; if(o && o->getValueAtKey("code")->isString()) lastStatus = o->getValueAtKey("code")->stringValue(); if(lastStatus == "NetConnection.Connect.Closed" || lastStatus == "NetConnection.Connect.Failed") { closed = true; for(auto &y : strs) y.dead = true; } within(IN_STATUS, nullptr); };
	conn->onCommand = [](const std::string &c, const Args &args) { ASSERT(!closed, "no command after closing"); commands++; within(IN_COMMAND, nullptr); };
	conn->onClose = [] { closes++; ASSERT(closes == 1 && closed, "closes once"); within(IN_CLOSE, nullptr); };
	ASSERT(conn->init(a.r.get(), b.crypto.name), "a connection begins"); ASSERT(!conn->init(a.r.get(), b.crypto.name), "only once"); conn->addCandidateAddress((const struct sockaddr *)&b.addr);
}
static void status_reply(const char *how, Tx *t, const char *code) { t->answered++; reply(how, t->tid, { AMF0::String(code) }); }
static void begin_connected(End &a, End &b)
{
	begin_all(a, b); Tx *t = begin("connect"); settle(); Cmd c = command_of(got.front()); ASSERT(c.name == "connect" && c.tid == 1 && c.args.size() == 1, "connect is first"); auto o = c.args[0]->asObject(); ASSERT(o && !strcmp(o->getValueAtKey("app")->stringValue(), "app/inst?q") && !strcmp(o->getValueAtKey("tcUrl")->stringValue(), "rtmfp://host/app/inst?q") && o->getValueAtKey("objectEncoding")->isNumber(), "connect says what for"); got.clear();
	if(conn && !closed) { ASSERT(conn->isOpen() && !conn->isConnected() && opens == 1, "open, not connected"); } status_reply("_result", t, "ok"); settle(); if(where == NOWHERE) ASSERT(t->heard == 1 && t->ok && t->text == "ok" && conn->isConnected(), "connected");
}
static Str *open_stream(uint32_t id) { auto s = conn->createStream(); ASSERT(s && !s->isOpen(), "a stream is promised"); watch(s); Str *x = &strs.back(); settle(); ASSERT(got.size() == 1, "asked for"); Cmd c = command_of(got.back()); ASSERT(c.name == "createStream" && c.tid == x->tx->tid, "createStream"); got.clear(); x->id = id; reply("_result", x->tx->tid, { AMF0::Number(id) }); settle(); return x; }
static void finish()
{
	if(conn && !closed && where != NOWHERE && sym_param("serverends", 1)) { if(!said || sym_bool("reject")) sctl->close(); else sret->close(); pass(1); } // by the server's choice
	if(conn) { bool was = closed; if(!was) { closed = true; for(auto &y : strs) y.dead = true; conn->close(); ASSERT(conn ? closes == 1 : true, "told"); } }
	else if(live) { sret->close(); settle(); if(sctl) sctl->close(); } // nobody holds it: it lasts until the server ends it
	pass(1); for(auto &t : txs) ASSERT(t.heard == (t.queued ? 1 : 0), "each transaction was answered"); ASSERT(closes <= 1, "closed once"); int was = closes + commands + statuses + opens; unsigned g = 0; for(auto &s : strs) { g += s.got + s.status; ASSERT(!s.s || !s.s->isOpen(), "streams are closed"); }
	if(conn) { ASSERT(closes == 1 && !conn->isOpen() && !conn->isConnected() && !conn->createStream() && !conn->transact(nullptr, "x") && !conn->command("x") && !conn->connect(nullptr, "rtmfp://h/"), "closed for good"); conn->close(); }
	if(sret && sret->isOpen()) { say(TCMessage::command("onStatus", 0, { AMF0::Null(), AMF0::Object() })); say(TCMessage::command("hello", 0, { AMF0::Null() })); } if(sctl && sctl->isOpen()) for(auto &s : strs) if(s.id) if(auto f = flow(s.id)) f->write(TCMessage::message(TCMSG_AUDIO, 1, B("x"))); settle();
	unsigned g2 = 0; for(auto &s : strs) g2 += s.got + s.status; ASSERT(g == g2 && was == closes + commands + statuses + opens, "silence"); for(auto &s : strs) s.s.reset(); conn.reset(); settle(); ASSERT(!live, "a closed connection goes away"); sym_reach("end");
	got.clear(); sflows.clear(); sout.clear(); sctl.reset(); sret.reset(); 
}
static double odd(unsigned k) { return k == 0 ? 99 : k == 1 ? NAN : k == 2 ? -1 : 0; }
static void history()
{
	End a("A", 1), b("B", 2); unsigned base = sym_choice("base", sym_param("bases", 5)); if(base >= 2) begin_connected(a, b); else { begin_all(a, b); begin("connect"); if(base) { settle(); got.clear(); } } if(base) said = base >= 2;
	if(base >= 3) { Str *x = open_stream(4); x->tx->answered = 1; } if(base == 4) { begin("doit"); auto y = conn->createStream(); watch(y); y->play("name"); y.reset(); settle(); got.clear(); }
	unsigned steps = sym_param("steps", 2); uint32_t nextID = 5;
	for(unsigned i = 0; i < steps; i++)
	{
		unsigned k = sym_choice("step", 8); size_t before = got.size(); bool wasClosed = closed;
		switch(k)
		{
		case 0: begin("doit"); settle(); if(sctl && !closed) { ASSERT(got.size() > before, "asked"); Cmd c = command_of(got.back()); ASSERT(c.name == "doit" && c.tid == txs.back().tid && c.args.size() == 2, "as asked"); sym_reach("transact"); } break;
		case 1: { auto s = conn->createStream(); ASSERT(!!s == !closed, "streams while open"); if(s) { watch(s); s->play("name"); } settle(); } break;
		case 2: if(strs.size()) { Str &x = strs[sym_choice("which", strs.size())]; bool announce = x.opened && !x.dead && !closed; x.dead = true; x.s->deleteStream(); settle(); if(announce) { ASSERT(got.size() == before + 1, "the server is told"); Cmd c = command_of(got.back()); ASSERT(c.name == "deleteStream" && c.args.size() == 2 && c.args[1]->doubleValue() == x.id, "which stream"); sym_reach("deleted"); } } break;
		case 3: if(!closed) { closed = true; for(auto &y : strs) y.dead = true; conn->close(); sym_reach("close"); } settle(); break;
		case 4: // the server answers something
		{
			if(!sret || !sret->isOpen()) break; unsigned n = txs.size(), which = sym_choice("tid", n + 4); bool good = sym_bool("good"); double tid = which < n ? txs[which].tid : odd(which - n); Str *x = nullptr; if(which < n) for(auto &s : strs) if(s.tx == &txs[which]) x = &s;
			std::shared_ptr<AMF0> r = AMF0::String("text"); uint32_t id = 0; bool open = false; bool first = which < n && !txs[which].answered; if(which < n) txs[which].answered++;
			if(x && good) switch(sym_choice("result", 7)) { case 0: id = nextID++; r = AMF0::Number(id); break; case 1: id = strs[0].id; r = AMF0::Number(id); break; case 2: r = AMF0::Number(0.5); break; case 3: r = AMF0::Number(4294967296.); break; case 4: r = AMF0::Number(0); break; case 5: id = 0xffffffffu; r = AMF0::Number(id); break; case 6: r = AMF0::Number(NAN); break; }
			bool taken = false; for(auto &s : strs) if(id && s.id == id && !s.dead) taken = true;
			bool ends = x ? first && (!id || taken || !good) : which == 0 && first && !good; // no usable stream; or refused
			if(x && first && id && !taken) { x->id = id; open = !x->dead && !closed; }
			if(ends && !closed) { failing = true; }
			Tx *t = which < n ? &txs[which] : nullptr; int heard = t ? t->heard : 0; if(sym_bool("bare")) r = x ? r : nullptr; reply(good ? "_result" : "_error", tid, r ? Args{ r } : Args{}); settle();
			if(!wasClosed) { ASSERT(closed == ends, "the connection ends when it must"); if(t && t->queued && first && !x) { ASSERT(t->heard == 1 && t->ok == good && (!r || t->text == "text") && !t->null, "the server's answer"); sym_reach("answered"); } if(open) { ASSERT(x->opened && x->s->isOpen(), "opened"); ASSERT(got.size() && got.back().stream == id && command_of(got.back()).name == "play", "what waited is sent"); sym_reach("opened"); } else if(x && x->s && !x->opened) ASSERT(!x->s->isOpen(), "not opened"); if(t && !first) ASSERT(t->heard == heard, "not twice"); }
			if(x && x->dead && !closed && first && id && !taken) { ASSERT(command_of(got.back()).name == "deleteStream" && command_of(got.back()).args[1]->doubleValue() == id, "a stream deleted meanwhile is given back"); sym_reach("given back"); }
			break;
		}
		case 5: // a message for some stream
		{
			if(!sret || !sret->isOpen()) break; uint32_t id = strs.size() && sym_bool("known") ? strs[sym_choice("which", strs.size())].id : 77; if(!id) break; static const uint8_t types[] = { TCMSG_AUDIO, TCMSG_VIDEO, TCMSG_DATA, TCMSG_COMMAND }; uint8_t type = types[sym_choice("type", 4)], v = sym_u8("payload"); uint32_t ts = sym_u32("ts"); Bytes p = type == TCMSG_DATA ? data_payload("cmd", v) : type == TCMSG_COMMAND ? Message::command("onStatus", 0, nullptr, AMF0::Object()) : Bytes(3, v);
			std::vector<unsigned> before_, st; for(auto &s : strs) { before_.push_back(s.got); st.push_back(s.status); } auto f = flow(id); if(!f || !f->isOpen()) { sout.erase(id * 2); f = flow(id); } if(!f) break; f->write(TCMessage::message(type, ts, p)); settle();
			for(unsigned j = 0; j < strs.size(); j++) { Str &s = strs[j]; bool mine = s.id == id && s.opened && !s.dead && !wasClosed; ASSERT(s.got == before_[j] + (mine && type != TCMSG_COMMAND) && s.status == st[j] + (mine && type == TCMSG_COMMAND), "each message to its stream only"); if(mine && type != TCMSG_COMMAND) { ASSERT(s.type == type && s.ts == ts && s.payload == p, "the message as sent"); sym_reach("stream message"); } }
			break;
		}
		case 6: if(sret && sret->isOpen()) { if(!said || sym_bool("reject")) sctl->close(); else sret->close(); closed = true; for(auto &y : strs) y.dead = true; settle(); ASSERT(closes == 1, "the server's end of it is an end"); sym_reach("server closed"); } break;
		case 7: if(sret && sret->isOpen()) { int c = commands, s = statuses; if(sym_bool("status")) { reply("onStatus", 0, { AMF0::Object() }); settle(); ASSERT(statuses == s + !wasClosed, "status"); } else { reply("hello", 3, { AMF0::Number(1) }); settle(); ASSERT(commands == c + !wasClosed, "command"); } } break;
		}
		if(!closed) ASSERT(conn->isOpen() == (sctl || opens), "open"); else ASSERT(!conn->isOpen() && closes == 1 && !conn->pending(), "closed, and everything answered");
	}
	finish();
}
static void reentry()
{
	End a("A", 1), b("B", 2); where = 1 + sym_choice("where", WHERES - 1); what = sym_choice("what", WHATS); unsigned w1 = where, w2 = what; 
	begin_all(a, b); where = w1; what = w2; bool waiting = sym_bool("waiting"); bool refuse = where == IN_CONNECT && sym_bool("refused");
	Tx *t = begin("connect"); settle(); if(conn && !closed) { if(waiting) { begin("doit"); } status_reply(refuse ? "_error" : "_result", t, "ok"); settle(); }
	if(conn && !closed)
	{
		got.clear(); if(waiting) { auto pend = conn->createStream(); if(pend) watch(pend); settle(); got.clear(); } uint32_t id = 3; auto s = conn->createStream(); ASSERT(!!s, "a stream"); watch(s); Str *x = &strs.back(); s.reset(); settle(); got.clear(); x->id = id; x->tx->answered++; reply("_result", x->tx->tid, { AMF0::Number(id) }); settle();
		unsigned order = sym_choice("order", 4); // in sequence; in network order, a hole filled, given up, or timed out
		if(where == IN_AUDIO || where == IN_DATA) { if(sctl && sctl->isOpen()) { auto f = flow(id, order ? RO_NETWORK : RO_SEQUENCE); Bytes m = where == IN_AUDIO ? TCMessage::message(TCMSG_AUDIO, 9, Bytes(3, 'a')) : TCMessage::message(TCMSG_DATA, 9, data_payload("cmd", 'x')); 
			if(order == 0) { f->write(m); f->write(m); settle(); }
			else { f->write(m, order == 2 ? 0.3L : INFINITY, order == 2 ? 0.3L : INFINITY); b.run(); std::deque<Wire> first; first.swap(b.out); f->write(m); f->write(m); settle(); sym_reach("held"); if(order == 3) { b.blocked = true; pass(1.5); b.blocked = false; sym_reach("timed out"); } if(order == 1 && sym_bool("now")) { for(auto &w : first) a.put(w.bytes, b.addr, w.tos); } else if(sym_bool("close")) f->close(); pass(3); } } }
		else if(where == IN_STREAMSTATUS) { flow(id)->write(TCMessage::message(TCMSG_COMMAND, 0, Message::command("onStatus", 0, nullptr, AMF0::Object()))); settle(); }
		else if(where == IN_COMMAND) { reply("hello", 0, {}); reply("hello", 0, {}); settle(); }
		else if(where == IN_STATUS) { reply("onStatus", 0, { AMF0::Object() }); reply("onStatus", 0, { AMF0::Object() }); settle(); }
		else if(where == IN_TRANSACT && conn) { Tx *d = begin("doit"); d->answered++; settle(); reply("_result", d->tid, { AMF0::Null() }); settle(); }
	}
	else if(closed && refuse) sym_reach("refused");
	finish();
}
static const uint8_t kinds[] = { TCMSG_COMMAND, TCMSG_COMMAND_EX, TCMSG_AUDIO, TCMSG_VIDEO, TCMSG_DATA, TCMSG_DATA_EX, TCMSG_USER_CONTROL, TCMSG_AGGREGATE };
static Bytes any(const char *n, unsigned most) { Bytes b(sym_choice("length", most + 1)); if(b.size()) sym_bytes(n, b.data(), b.size()); return b; }
static Ref *value_at(const Bytes &m, size_t &at) { return refValue(m.data(), m.size(), at, 1); }
static void bytes() // messages of any content
{
	End a("A", 1), b("B", 2); begin_connected(a, b); Str *x = open_stream(3); Tx *d = begin("doit"); settle(); got.clear(); unsigned form = sym_part(5), P = sym_param("length", 3); bool onStream = false; Bytes m;
	static const char *names[] = { "_result", "onStatus", "hello" }; 
	switch(form)
	{
	case 0: m = any("message", P + 3); onStream = sym_bool("stream"); break;
	case 1: m = TCMessage::message(kinds[sym_choice("type", sizeof kinds)], sym_u32("ts"), any("payload", P)); onStream = sym_bool("stream"); break;
	case 2: { bool ex = sym_bool("ex"); Bytes p; if(ex) p.push_back(sym_u8("format")); AMF0String(names[sym_choice("name", 3)]).encode(p); p.push_back(AMF0_NUMBER_MARKER); Bytes n(8); for(int i = 7; i >= 0; i--) n[7 - i] = 0; n[0] = sym_bool("tid") ? 0x40 : 0; p = p + n; AMF0Null().encode(p); p = p + any("tail", P); m = TCMessage::message(ex ? TCMSG_COMMAND_EX : TCMSG_COMMAND, sym_u32("ts"), p); onStream = sym_bool("stream"); break; }
	case 3: { bool ex = sym_bool("ex"); Bytes p; if(ex) p.push_back(sym_u8("format")); AMF0String("c").encode(p); p = p + any("tail", P); m = TCMessage::message(ex ? TCMSG_DATA_EX : TCMSG_DATA, sym_u32("ts"), p); onStream = sym_bool("stream"); break; }
	case 4: // keepalive
	{
		static const uint32_t v[] = { 0, 4999, 5000, 5001, 60000, 0x80000000u, 0xffffffffu }; uint32_t s = v[sym_choice("server", 7)], q = v[sym_choice("peer", 7)]; unsigned cut = sym_choice("cut", 3); bool ignore = sym_bool("ignore"); conn->ignoreSetKeepaliveUserCommand = ignore; Bytes p = { 0, TC_USERCONTROL_SET_KEEPALIVE }; for(int i = 3; i >= 0; i--) p.push_back(s >> (8 * i)); for(int i = 3; i >= 0; i--) p.push_back(q >> (8 * i)); if(cut == 1) p.pop_back(); if(cut == 2) p.push_back(7);
		Duration was = conn->sessionOpt()->getSessionKeepalivePeriod(), dflt = a.r->getDefaultSessionKeepalivePeriod(); say(TCMessage::message(TCMSG_USER_CONTROL, 0, p)); settle(); bool obey = cut != 1 && !ignore; 
		Duration es = obey ? std::max(s, 5000u) / 1000.0 : was, ep = obey ? std::max(q, 5000u) / 1000.0 : dflt; ASSERT(conn->sessionOpt()->getSessionKeepalivePeriod() == es, "the server's keepalive period"); ASSERT(a.r->getDefaultSessionKeepalivePeriod() == ep, "the peers' keepalive period"); sym_reach("keepalive"); finish(); return;
	}
	}
	uint8_t type = m.size() >= 5 ? m[0] : 0; Bytes p = m.size() >= 5 ? Bytes(m.begin() + 5, m.end()) : Bytes(); uint32_t ts = m.size() >= 5 ? uint32_t(m[1]) << 24 | m[2] << 16 | m[3] << 8 | m[4] : 0;
	bool ends = false; unsigned xgot = 0, xstatus = 0, xstat = 0, xcmd = 0; bool dheard = false, exact = false;
	bool ex = type == TCMSG_COMMAND_EX || type == TCMSG_DATA_EX; size_t at = 0; bool skip = p.empty(); if(!skip && ex) { skip = p[0] != 0; at = 1; }
	if(type == TCMSG_COMMAND || type == TCMSG_COMMAND_EX) { if(!skip) { Ref *n = value_at(p, at), *t = n ? value_at(p, at) : nullptr; if(!n || n->kind != Ref::STR || !t || t->kind != Ref::NUM) ends = true; else { if(onStream) xstatus = n->text == "onStatus"; else if(n->text == "onStatus") xstat = 1; else if(n->text == "hello") xcmd = 1; else if(n->text == "_result") dheard = t->bits == 0x4000000000000000ull && d->tid == 2; } } }
	else if(onStream && (type == TCMSG_AUDIO || type == TCMSG_VIDEO)) { xgot = 1; exact = true; }
	else if(onStream && (type == TCMSG_DATA || type == TCMSG_DATA_EX)) { if(!skip) { Ref *n = value_at(p, at); xgot = n && n->kind == Ref::STR; } }
	int st = statuses, cm = commands; d->answered = dheard; d->tid = d->tid; if(ends) failing = true; SendFlow *f = onStream ? flow(3) : sret.get(); f->write(m); said = true; settle();
	ASSERT(closed == ends, "closed by a malformed command only"); ASSERT(x->got == xgot && x->status == xstatus && statuses == st + int(xstat) + ends && commands == cm + int(xcmd), "heard as said"); ASSERT(d->heard == (dheard || ends), "answered if so"); if(exact) { ASSERT(x->type == type && x->ts == ts && x->payload == p, "as sent"); sym_reach("exact"); } if(ends) sym_reach("malformed"); if(xstat || xcmd || xstatus) sym_reach("command"); if(dheard) sym_reach("answer");
	if(!closed && !d->heard) { d->answered = 1; reply("_result", d->tid, { AMF0::String("late") }); settle(); ASSERT(d->heard == 1 && d->ok && d->text == "late", "still answered"); }
	finish();
}
static void sending()
{
	End a("A", 1), b("B", 2); begin_connected(a, b); auto s = conn->createStream(); watch(s); Str *x = &strs.back(); settle(); got.clear(); std::vector<std::pair<std::string, int> > asked; unsigned n = sym_param("sends", 1); uint32_t id = sym_bool("large") ? 0xfffffffeu : 1; bool opened = false; std::deque<Got> expect;
	for(unsigned i = 0; i < n + 1; i++)
	{
		if(i == 1) { reply("_result", x->tx->tid, { AMF0::Number(id) }); x->id = id; opened = true; settle(); ASSERT(x->s->isOpen(), "open"); }
		unsigned k = sym_choice("what", opened ? 11 : 6); Got g; g.stream = id; g.type = TCMSG_COMMAND; g.ts = 0; bool v = k > 1 && k < 5 && sym_bool("value"); Bytes one; uint32_t ts = k > 5 ? sym_u32("ts") : 0; if(k > 5 && k < 10) one = any("payload", 2); std::shared_ptr<WriteReceipt> r; Args more = { AMF0::Number(7) };
		auto cmd = [&](const char *c, std::shared_ptr<AMF0> arg, const Args &args) { Args z = { AMF0::Null() }; if(arg) z.push_back(arg); z.insert(z.end(), args.begin(), args.end()); g.payload = Message::command(c, 0, z); };
		switch(k)
		{
		case 0: s->publish("nm", more); cmd("publish", AMF0::String("nm"), more); break; case 1: s->play("nm", more); cmd("play", AMF0::String("nm"), more); break;
		case 2: s->pause(v); cmd("pause", AMF0::Boolean(v), {}); break; case 3: s->receiveAudio(v); cmd("receiveAudio", AMF0::Boolean(v), {}); break; case 4: s->receiveVideo(v); cmd("receiveVideo", AMF0::Boolean(v), {}); break; case 5: s->closeStream(); cmd("closeStream", nullptr, {}); break;
		case 6: r = s->sendAudio(ts, one); g.type = TCMSG_AUDIO; g.ts = ts; g.payload = one; break; case 7: r = s->sendVideo(ts, one.data(), one.size()); g.type = TCMSG_VIDEO; g.ts = ts; g.payload = one; break;
		case 8: r = s->send(ts, "data", { AMF0::String(std::string(one.begin(), one.end())) }); g.type = TCMSG_DATA; g.ts = ts; AMF0String("data").encode(g.payload); AMF0String(std::string(one.begin(), one.end())).encode(g.payload); break;
		case 9: r = s->send("data", { AMF0::String(std::string(one.begin(), one.end())) }); g.type = TCMSG_DATA; g.ts = 0; AMF0String("data").encode(g.payload); AMF0String(std::string(one.begin(), one.end())).encode(g.payload); break;
		case 10: { settle(); while(got.size()) { ASSERT(expect.size(), "nothing else"); Got h = got.front(), e = expect.front(); got.pop_front(); expect.pop_front(); ASSERT(h.stream == e.stream && h.type == e.type && h.ts == e.ts && h.payload == e.payload, "as given"); } s->sync(); settle(); ASSERT(got.size() == 3 && got[0].payload.size() == 10, "a marker on each"); for(auto &h : got) ASSERT(h.stream == id && h.type == TCMSG_USER_CONTROL && h.payload == got[0].payload && h.payload[1] == TC_USERCONTROL_FLOW_SYNC && h.payload[9] == 3 && !h.payload[8], "the same marker"); got.clear(); sym_reach("sync"); continue; }
		}
		if(k > 5) ASSERT(!!r, "accepted"); expect.push_back(g); if(!opened) { ASSERT(!s->sendAudio(1, Bytes(1)) && !s->sendVideo(1, Bytes(1)) && !s->send("x"), "not before it is open"); s->sync(); } else settle();
	}
	settle(); ASSERT(got.size() == expect.size(), "everything arrives"); for(unsigned i = 0; i < expect.size(); i++) { Got &h = got[i], &e = expect[i]; ASSERT(h.stream == e.stream && h.type == e.type, "what was sent"); ASSERT(h.ts == e.ts, "the timestamp given"); ASSERT(h.payload == e.payload, "the payload given"); sym_reach("sent"); }
	got.clear(); ASSERT(conn->command("ping", { AMF0::Null(), AMF0::Number(3) }), "a command"); ASSERT(!conn->command("connect") && !conn->transact(nullptr, "createStream") && !conn->transact(nullptr, "deleteStream"), "reserved"); settle(); ASSERT(got.size() == 1 && got[0].stream == 0 && got[0].payload == Message::command("ping", 0, { AMF0::Null(), AMF0::Number(3) }), "the command as given"); s->deleteStream(); x->dead = true; ASSERT(!s->sendAudio(1, Bytes(1)) && !s->sendVideo(1, Bytes(1)) && !s->send("x"), "nor after it is deleted"); s.reset(); finish();
}
extern "C" void sym_main()
{
	switch(sym_param("what", 0)) { case 0: history(); break; case 1: reentry(); break; case 2: bytes(); break; case 3: sending(); break; }
}
