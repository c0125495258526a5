// C21: hostile bytes in a validly sealed packet of an open session
#include "net.h"
static const uint64_t FRESH = (1ull << 40) + 5; // a flow no short body can name
static unsigned heard, closedHeard, exceptions; static uint64_t heardSeq; static std::vector<std::shared_ptr<RecvFlow> > in; static ReceiveOrder order; static bool strictOrder, sawAny; static uint64_t lastSeq;
static Bytes userdata(uint64_t flow, uint64_t seq, uint64_t off, uint8_t flags, const Bytes &data) { Bytes u; u.push_back(flags | USERDATA_FLAG_OPT); vlu(u, flow); vlu(u, seq); vlu(u, off); Option::append(USERDATA_OPTION_METADATA, nullptr, 0, u); Option::append(u); return u + data; }
static bool put(End &b, End &a, const Bytes &chunks) { return b.put(wire_make(b.sid, HEADER_MODE_INITIATOR, chunks), a.addr); }
static uint8_t codes[] = { 0x7f, 0x18, 0x0c, 0x4c, 0x01, 0x41, 0x10, 0x11, 0x51, 0x50, 0x5e, 0xec, 0x0f };
// fragments of one flow with sequence numbers and framing that contradict each other
static uint8_t fraOf[8]; static uint64_t seqMax; static unsigned delivered; static bool used[8];
static void fragment(const uint8_t *p, size_t len, uintmax_t seq, size_t frags)
{
	ASSERT(seq >= 2 && seq + frags - 1 <= 6, "sequence numbers that were sent"); delivered++;
	ASSERT(len == frags, "every fragment carried one byte"); uint64_t s = seq;
	for(size_t i = 0; i < frags; i++, s++)
	{
		ASSERT(!used[s], "no fragment is delivered twice"); used[s] = true; ASSERT(p[i] == 0x40 + s, "consecutive fragments in order");
		uint8_t want = frags == 1 ? USERDATA_FRA_WHOLE : i == 0 ? USERDATA_FRA_BEGIN : i == frags - 1 ? USERDATA_FRA_END : USERDATA_FRA_MIDDLE; if(i == 0 || i == frags - 1) ASSERT(fraOf[s] == want, "a message starts with its beginning and ends with its end");
	}
	if(order == RO_SEQUENCE) { ASSERT(!sawAny || seq > lastSeq, "in order"); sawAny = true; lastSeq = seq; }
}
extern "C" void sym_main()
{
	heard = closedHeard = exceptions = 0; in.clear(); delivered = 0; sawAny = false; memset(used, 0, sizeof used); unsigned part = sym_part(5);
	End a("A", 1), b("B", 2); order = RO_SEQUENCE; if(part == 2) order = sym_bool("network") ? RO_NETWORK : RO_SEQUENCE;
	b.r->onRecvFlow = [&](std::shared_ptr<RecvFlow> f) {
		in.push_back(f); f->accept(); f->setReceiveOrder(order); f->onComplete = [](bool) { closedHeard++; };
		if(part == 2) f->onMessage = fragment; else f->onMessage = [](const uint8_t *p, size_t n, uintmax_t seq, size_t) { heard++; heardSeq = seq; };
	};
	auto f = net_open(a, b, "m");
	if(part == 2)
	{
		int n = sym_param("frags", 4); bool seen[8] = { false };
		for(int k = 0; k < n; k++)
		{
			int s = 2 + sym_choice("seq", sym_param("seqs", 4)); if(seen[s]) sym_cut(); seen[s] = true; fraOf[s] = sym_choice("fra", 4) << 4;
			Bytes c; chunk_add(c, CHUNK_USERDATA, userdata(FRESH, s, s, fraOf[s], Bytes(1, 0x40 + s))); ASSERT(put(b, a, c), "accepted"); b.run();
		}
		if(sym_bool("hole")) { Bytes c; chunk_add(c, CHUNK_USERDATA, userdata(FRESH, 1, 1, USERDATA_FLAG_ABN, Bytes())); put(b, a, c); b.run(); }
		sym_reach("frags");
	}
	else
	{
		// something received in part, something sent and unanswered, a return flow
		{ Bytes c; chunk_add(c, CHUNK_USERDATA, userdata(9, 2, 2, USERDATA_FRA_BEGIN, B("xy"))); put(b, a, c); b.run(); ASSERT(in.size() == 1, "flow"); }
		auto back = in[0]->openReturnFlow(Bytes(), PRI_ROUTINE); back->onException = [](uintmax_t) { exceptions++; }; back->write(B("one"), INFINITY, INFINITY); back->write(B("two"), INFINITY, INFINITY); b.run(); net_now += 0.05L; uint64_t backId = 0; for(auto &w : b.out) for(auto &k : wire_parse(w.bytes).chunks) if(k.type == CHUNK_USERDATA) VLU::parse(k.body.data() + 1, k.body.data() + k.body.size(), &backId); ASSERT(backId, "return flow data"); b.out.clear();
		ASSERT(back->getOutstandingBytes() > 0, "data outstanding");
		unsigned n; uint8_t bytes[32]; Bytes c; bool wellFormed = true;
		if(part == 0) { n = sym_choice("size", sym_param("packet", 5) + 1); sym_bytes("cleartext", bytes, n); Bytes p = wire_make(b.sid, 0, Bytes()); p.pop_back(); p.insert(p.end(), bytes, bytes + n); if(n) { ASSUME(!(bytes[0] & (HEADER_FLAG_TS | HEADER_FLAG_TSE))); } b.put(p, a.addr); sym_reach("packet"); }
		else if(part == 3) { static const uint16_t vals[] = { 0, 1, 0x7fff, 0x8000, 0xffff }; uint8_t fl = sym_u8("flags"); uint16_t ts = vals[sym_choice("ts", 5)], te = vals[sym_choice("tse", 5)]; Bytes p = wire_make(b.sid, 0, Bytes(), ts, te); p[12] = fl; unsigned cut = sym_choice("cut", 4); while(cut-- && p.size() > 12) p.pop_back(); b.put(p, a.addr, 0); sym_reach("header"); }
		else if(part == 4)
		{
			Bytes x; uint8_t code = 0; Bytes own; vlu(own, backId);
			switch(sym_choice("template", 9))
			{
			case 0: code = CHUNK_USERDATA; x.push_back(sym_u8("flags") | USERDATA_FLAG_OPT); vlu(x, 9); vlu(x, 3); vlu(x, 1); break;
			case 1: code = CHUNK_USERDATA; x.push_back(sym_u8("flags") | USERDATA_FLAG_OPT); vlu(x, 10); vlu(x, 3); vlu(x, 3); break;
			case 2: code = CHUNK_ACK_RANGES; x = own; vlu(x, 63); vlu(x, 0); break;
			case 3: code = CHUNK_ACK_RANGES; x = own; break;
			case 4: code = CHUNK_ACK_BITMAP; x = own; vlu(x, 63); break;
			case 5: code = CHUNK_EXCEPTION; x = own; break;
			case 6: code = CHUNK_PING_REPLY; x.push_back(PING_MARKING_MOBILITY); break;
			case 7: code = CHUNK_FIHELLO; vlu(x, 1); x.push_back('B'); break;
			case 8: { code = CHUNK_PING; static const int sizes[] = { MAX_PING_MESSAGE_LENGTH - 10, MAX_PING_MESSAGE_LENGTH - 4, MAX_PING_MESSAGE_LENGTH - 3, MAX_PING_MESSAGE_LENGTH - 2, MAX_PING_MESSAGE_LENGTH, 1400 }; x.resize(sizes[sym_choice("ping", 6)], 7); break; }
			}
			if(sym_bool("last")) chunk_add(c, CHUNK_USERDATA, userdata(9, UINT64_MAX, sym_bool("all") ? UINT64_MAX : 0, USERDATA_FRA_WHOLE, B("w"))), code = code == CHUNK_USERDATA ? CHUNK_NEXT_USERDATA : code;
			n = sym_choice("size", sym_param("tail", 5) + 1); sym_bytes("tail", bytes, n); x.insert(x.end(), bytes, bytes + n); chunk_add(c, code, x); put(b, a, c); sym_reach("template");
		}
		else
		{
			unsigned t = sym_param("type", -1) >= 0 ? sym_param("type", -1) : sym_choice("type", sizeof codes); n = sym_choice("size", sym_param("body", 5) + 1); sym_bytes("body", bytes, n);
			if(codes[t] == CHUNK_NEXT_USERDATA) chunk_add(c, CHUNK_USERDATA, userdata(9, 5, 5, USERDATA_FRA_WHOLE, B("w"))); // otherwise nothing precedes it
			chunk_add(c, codes[t], Bytes(bytes, bytes + n)); put(b, a, c); sym_reach("chunk");
		}
		b.run();
		// the session still carries a message, unless it was closed
		if(part == 1 && (c[0] == CHUNK_CLOSE || c[0] == CHUNK_CLOSE_ACK)) sym_reach("closed");
		else if(part != 0)
		{
			unsigned h = heard; uint64_t seq = 1; Bytes m; chunk_add(m, CHUNK_USERDATA, userdata(FRESH, seq, seq, USERDATA_FRA_WHOLE, B("hello"))); ASSERT(put(b, a, m), "a good packet is accepted"); b.run(); ASSERT(heard == h + 1 && heardSeq == 1, "the session still carries a message"); ASSERT(b.out.size(), "and answers"); sym_reach("alive");
		}
		if(sym_param("linger", 0)) { for(int i = 0; i < 40; i++) { net_now += std::max((Duration)0, std::min(b.r->howLongToSleep(), (Duration)5)); b.run(); } }
		back->close();
	}
	b.r->onRecvFlow = nullptr; in.clear();
}
