// C23: reassembly and delivery by the receiving flow
#include "net.h"
static const int MAX = 6;
struct Frag { uint8_t bytes[2]; unsigned len, fra; int msg; bool have, settled, gone; }; // have: its data was accepted; settled: arrived or skipped; gone: sender gave up
struct Message { int first, last; bool delivered; };
static Frag fr[MAX]; static Message ms[MAX]; static int n, nm, base, lastDelivered, mode, completions; static bool finished, closing, closed, network, held, finSeen; static std::shared_ptr<RecvFlow> flow; static uint64_t off;
static bool complete(int m) { for(int i = ms[m].first; i <= ms[m].last; i++) if(!fr[i].have) return false; return true; }
static bool settledThrough(int i) { for(int k = 0; k <= i; k++) if(!fr[k].settled) return false; return true; }
static void got(const uint8_t *p, size_t len, uintmax_t seq, size_t frags)
{
	ASSERT(!closed && !finished, "no message after the end"); ASSERT(!held, "nothing while on hold");
	int m; for(m = 0; m < nm; m++) if(seq == off + 1 + ms[m].first) break; ASSERT(m < nm, "the sequence number of a message");
	ASSERT(!ms[m].delivered, "once"); ms[m].delivered = true; ASSERT(complete(m), "only whole messages"); ASSERT(frags == size_t(ms[m].last - ms[m].first + 1), "fragment count");
	size_t want = 0; for(int i = ms[m].first; i <= ms[m].last; i++) want += fr[i].len; ASSERT(len == want, "length");
	bool eq = true; for(int i = ms[m].first; i <= ms[m].last; i++) for(unsigned k = 0; k < fr[i].len; k++) eq = eq & (*p++ == fr[i].bytes[k]); ASSERT(eq, "bytes");
	if(!network) { ASSERT(m > lastDelivered, "in order"); ASSERT(settledThrough(ms[m].first - 1), "not before an earlier one that may still arrive"); }
	lastDelivered = m; sym_reach("message"); if(m) sym_reach("second message"); if(frags > 1) sym_reach("fragments");
	if(closing) { closing = false; closed = true; flow->close(); }
}
extern "C" void sym_main()
{
	End a("A", 1), b("B", 2); flow.reset(); nm = 0; lastDelivered = -1; completions = 0; finished = closed = false;
	b.r->onRecvFlow = [&](std::shared_ptr<RecvFlow> f) { flow = f; f->accept(); if(mode == 1) f->setReceiveOrder(RO_NETWORK); if(mode >= 2) f->setReceiveOrder(RO_HOLD); f->onMessage = got; f->onComplete = [](bool error) { ASSERT(!error && !closed, "completes without error"); ASSERT(!completions++, "completes once"); finished = true; }; };
	auto f = net_open(a, b);
	mode = sym_choice("mode", sym_param("modes", 4)); network = mode == 1; held = mode >= 2; // 0 queue order, 1 network order, 2 held then queue order, 3 held then network order
	static const uint64_t offs[] = { 0, 126, (1ull << 63) - 2 }; off = sym_param("anyseq", 0) ? sym_u64("base") : offs[sym_param("offsets", 0) ? sym_choice("offset", 3) : mode & 1]; ASSUME(off <= (1ull << 63)); /* all sequence numbers up to the base have been passed over */ closing = !held && sym_bool("close");
	n = sym_param("fragments", 3); int first = 0;
	for(int i = 0; i < n; i++)
	{
		bool ends = i == n - 1 || sym_bool("end"); Frag &x = fr[i]; x.msg = nm; x.len = i == n - 1 && n > 2 ? 0 : i == 0 ? 2 : 1; sym_bytes("bytes", x.bytes, x.len); x.have = x.settled = x.gone = false;
		x.fra = ends ? (first == i ? USERDATA_FRA_WHOLE : USERDATA_FRA_END) : first == i ? USERDATA_FRA_BEGIN : USERDATA_FRA_MIDDLE;
		if(ends) { ms[nm].first = first; ms[nm].last = i; ms[nm].delivered = false; nm++; first = i + 1; }
	}
	bool always = sym_param("always", 1); int dups = sym_param("dups", 1), events = sym_param("events", 4), abandons = sym_param("abandons", 1), release = held ? 1 : 0; bool fin = false;
	for(int k = 0; k < events; k++)
	{
		if(abandons && sym_bool("giveup")) { abandons--; int m = sym_choice("which", nm); for(int i = ms[m].first; i <= ms[m].last; i++) fr[i].gone = true; }
		if(release && sym_bool("release")) { release = 0; held = false; network = mode == 3; flow ? flow->setReceiveOrder(network ? RO_NETWORK : RO_SEQUENCE) : (void)(mode -= 2); b.run(); sym_reach("release"); }
		int i = sym_choice("arrival", n); Frag &x = fr[i];
		if(x.settled) { if(!dups) sym_cut(); dups--; }
		int through = -1, news = 0; while(through + 1 < n && (fr[through + 1].settled || fr[through + 1].gone)) news += !fr[++through].settled; // what the sender may tell the receiver not to wait for
		if(!(news ? sym_bool("skip") : always && through >= 0)) through = -1;
		if(through > i) { if(!x.gone && !x.settled) sym_cut(); through = i; }
		Bytes body; bool abn = x.gone; body.push_back(USERDATA_FLAG_OPT | x.fra | (abn ? USERDATA_FLAG_ABN : 0) | (i == n - 1 ? USERDATA_FLAG_FIN : 0)); vlu(body, 7); vlu(body, off + 1 + i); vlu(body, through < 0 ? (off ? i + 1 : i + 1) : i - through); Option::append(USERDATA_OPTION_METADATA, nullptr, 0, body); Option::append(body);
		if(!abn) body.insert(body.end(), x.bytes, x.bytes + x.len);
		for(int q = 0; q <= through; q++) fr[q].settled |= q != i;
		if(!x.settled && !abn) x.have = true; x.settled = true; if(i == n - 1) fin = true;
		Bytes c; chunk_add(c, CHUNK_USERDATA, body); ASSERT(b.put(wire_make(b.sid, HEADER_MODE_INITIATOR, c), a.addr), "packet accepted"); ASSERT(flow != nullptr, "flow"); b.run();
		if(closed) { sym_reach("closed"); continue; }
		if(!held) for(int m = 0; m < nm; m++) if(complete(m) && (settledThrough(ms[m].last) || (network && mode == 1))) ASSERT(ms[m].delivered, "delivered as soon as possible");
		bool all = fin && settledThrough(n - 1); for(int m = 0; m < nm; m++) if(complete(m) && !ms[m].delivered) all = false;
		if(!held) ASSERT(finished == all, "complete exactly when everything has arrived or was skipped"); if(finished) sym_reach("finished");
	}
	flow.reset(); b.r->onRecvFlow = nullptr;
}
