// What a correct sender's books look like, kept from the wire and the acknowledgements alone. Messages are one fragment each.
#pragma once
#include "net.h"
struct SFrag { uintmax_t seq; Bytes data; std::shared_ptr<WriteReceipt> r; bool flying, acked, abn; size_t size; unsigned tsn, naks; };
struct SFlow { std::shared_ptr<SendFlow> f; uintmax_t id, next; size_t window; std::vector<SFrag> frags;
	size_t flying() { size_t n = 0; for(auto &x : frags) if(x.flying) n += x.size; return n; }
	bool owing() { for(auto &x : frags) if(!x.flying && !x.acked) return true; return false; }
};
struct Sent { unsigned flow; unsigned packet; size_t before, beforeSession; int tos; uint8_t flags; uintmax_t seq; };
struct SendRef {
	std::deque<SFlow> flows; unsigned tsn = 0, maxAcked = 0; std::vector<Sent> sent; size_t ackedBytes = 0, lostBytes = 0; bool naks = false, loss = false; std::vector<Parsed> other; std::vector<int> otherTos;
	size_t total() { size_t n = 0; for(auto &f : flows) n += f.flying(); return n; }
	void add(std::shared_ptr<SendFlow> f) { flows.push_back(SFlow{ f, 0, 1, INITIAL_RECV_BUFFER, {} }); }
	void write(unsigned i, const Bytes &m) { SFlow &f = flows[i]; auto r = f.f->write(m); ASSERT(r, "written"); f.frags.push_back(SFrag{ f.next++, m, r, false, false, false, 0, 0, 0 }); }
	void look(End &a) // account for what was sent
	{
		sent.clear(); other.clear(); otherTos.clear();
		while(a.out.size())
		{
			Wire w = a.out.front(); a.out.pop_front(); Parsed p = wire_parse(w.bytes); auto us = wire_user(p); size_t session = total(); if(us.size()) tsn++; else { other.push_back(p); otherTos.push_back(w.tos); }
			for(auto &u : us)
			{
				int at = -1; for(unsigned i = 0; i < flows.size(); i++) if(flows[i].id == u.id) at = i;
				for(unsigned i = 0; at < 0 && i < flows.size(); i++) if(!flows[i].id && flows[i].frags.size() && (u.data == flows[i].frags[0].data)) { at = i; flows[i].id = u.id; } // flows are told apart by what is in them
				ASSERT(at >= 0, "a known flow"); SFlow &f = flows[at]; bool known = false;
				for(auto &x : f.frags) if(x.seq == u.seq) { known = true; ASSERT(!x.flying && !x.acked, "only what is owed is sent"); sent.push_back(Sent{ unsigned(at), tsn, f.flying(), session, w.tos, p.flags, u.seq }); x.flying = true; x.naks = 0; x.tsn = tsn; x.size = u.size; x.abn = u.flags & USERDATA_FLAG_ABN; }
				ASSERT(known, "only what was written is sent");
			}
		}
	}
	void timeout() { for(auto &f : flows) for(auto &x : f.frags) x.flying = false; }
	void begin() { ackedBytes = lostBytes = 0; naks = loss = false; }
	void ack(unsigned i, uintmax_t from, uintmax_t to) { for(auto &x : flows[i].frags) if(!x.acked && x.seq >= from && x.seq <= to) { if(x.flying) { ackedBytes += x.size; if(x.tsn > maxAcked) maxAcked = x.tsn; } x.acked = true; x.flying = false; } }
	void after() { for(auto &f : flows) for(auto &x : f.frags) if(x.flying && x.tsn <= maxAcked) { if(!x.abn) naks = true; if(++x.naks >= NAKS_FOR_LOSS) { x.flying = false; lostBytes += x.size; if(!x.abn) loss = true; } } }
	Bytes chunk(unsigned i, uintmax_t blocks, uintmax_t cum, const std::vector<uintmax_t> &pairs = {}) { flows[i].window = blocks * 1024; return ack_make(flows[i].id, blocks, cum, pairs); }
};
