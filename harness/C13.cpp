// C13: markers and barriers
#include "net.h"
#include "rtmfp/FlowSyncManager.hpp"
using namespace com::zenomt::rtmp;
static void markers()
{
	uint32_t id = sym_u32("id"), n = sym_u32("count"), gotId = 7; size_t gotCount = 9; Bytes m = FlowSyncManager::makeSyncMessage(id, n); ASSERT(m.size() == 15, "the size of a marker"); ASSERT(FlowSyncManager::parse(m.data(), m.size(), gotId, gotCount) == 15 && gotId == id && gotCount == n, "a marker says what it was made from"); 
	gotId = 7; gotCount = 9; uint8_t *pay = new uint8_t[8]; memcpy(pay, m.data() + 7, 8); ASSERT(FlowSyncManager::parseUserCommandPayload(pay, pay + 8, gotId, gotCount) == 8 && gotId == id && gotCount == n, "so does its payload"); for(int k = 0; k < 8; k++) ASSERT(!FlowSyncManager::parseUserCommandPayload(pay, pay + k, gotId, gotCount), "less than a payload is none"); delete[] pay;
	auto mgr = share_ref(new FlowSyncManager(), false); for(uint32_t i = 0; i < 3; i++) { Bytes q = mgr->makeSyncMessage(n); ASSERT(FlowSyncManager::parse(q.data(), q.size(), gotId, gotCount) == 15 && gotId == i && gotCount == n, "successive markers have successive identifiers"); }
	size_t len = sym_choice("len", 18); uint8_t *x = new uint8_t[len ? len : 1]; for(size_t i = 0; i < len; i++) x[i] = sym_u8("byte"); gotId = 7; gotCount = 9; size_t rv = FlowSyncManager::parse(x, len, gotId, gotCount); bool is = len >= 15 && x[0] == 4 && x[5] == 0 && x[6] == 34;
	ASSERT(rv == (is ? 15 : 0), "exactly markers are markers"); if(is) { ASSERT(gotId == (uint32_t(x[7]) << 24 | x[8] << 16 | x[9] << 8 | x[10]) && gotCount == (size_t(x[11]) << 24 | x[12] << 16 | x[13] << 8 | x[14]), "of what their bytes say"); sym_reach("marker"); } delete[] x; sym_reach("end");
}
enum { FLOWS = 3, IDS = 2 };
static std::vector<int> waiting[IDS]; static bool held[FLOWS]; static std::deque<Bytes> sent[FLOWS]; static unsigned need[IDS]; static std::shared_ptr<FlowSyncManager> mgr; static int network; static const uint32_t ids[IDS] = { 5, 0x80000005u };
static void release(int k) { for(int f : waiting[k]) held[f] = false; waiting[k].clear(); }
static void barriers()
{
	for(int i = 0; i < IDS; i++) waiting[i].clear(); for(int i = 0; i < FLOWS; i++) { held[i] = false; sent[i].clear(); }
	End a("A", 1), b("B", 2); mgr = share_ref(new FlowSyncManager(), false); std::shared_ptr<SendFlow> out[FLOWS]; std::vector<std::shared_ptr<RecvFlow> > in; unsigned setup = sym_choice("setup", 3); network = setup == 2 ? 0 : -1; need[0] = setup == 1 ? 3 : 2; need[1] = 2;
	b.r->onRecvFlow = [&](std::shared_ptr<RecvFlow> r)
	{
		int i = in.size(); in.push_back(r); r->accept(); r->setReceiveOrder(i == network ? RO_NETWORK : RO_SEQUENCE);
		r->onMessage = [i, &in](const uint8_t *p, size_t n, uintmax_t, size_t)
		{
			if(n == 1 && *p == 'o') return; ASSERT(!held[i], "a suspended flow is silent"); ASSERT(sent[i].size() && sent[i].front() == Bytes(p, p + n), "messages arrive in order"); sent[i].pop_front(); uint32_t id; size_t count; if(!FlowSyncManager::parse(p, n, id, count) || !mgr) return;
			int k = id == ids[0] ? 0 : 1; ASSERT(id == ids[k] && count == need[k], "the marker"); bool done = waiting[k].size() + 1 >= count; if(done) { release(k); sym_reach("met"); } else { waiting[k].push_back(i); if(i != network) held[i] = true; }
			ASSERT(mgr->sync(id, count, in[i]) == done, "the barrier opens with the last arrival");
		};
	};
	out[0] = net_open(a, b); out[0]->write(B("o")); net_quiet(a, b); for(int i = 1; i < FLOWS; i++) { out[i] = a.r->openFlow(b.crypto.name, B("f")); out[i]->write(B("o")); net_quiet(a, b); } ASSERT(in.size() == FLOWS, "all flows"); 
	unsigned n = sym_param("steps", 4);
	for(unsigned s = 0; s < n; s++)
	{
		unsigned k = sym_choice("step", 5);
		if(k < 3) { int f = sym_choice("flow", s ? FLOWS : setup == 2 ? 2 : 1); Bytes m = k == 2 ? B("data") : FlowSyncManager::makeSyncMessage(ids[k], need[k]); if(k == 2) m.push_back('0' + s); sent[f].push_back(m); out[f]->write(m); if(sym_param("bursts", 0) && sym_bool("burst")) continue; }
		else if(k == 3) { int id = sym_choice("id", IDS); release(id); mgr->reset(ids[id]); sym_reach("reset"); }
		else { for(int i = 0; i < IDS; i++) release(i); mgr.reset(); net_quiet(a, b); net_until(a, b, net_now + 1); sym_reach("closed"); break; }
		net_quiet(a, b); net_until(a, b, net_now + 0.5L);
		for(int i = 0; i < FLOWS; i++) { ASSERT(held[i] || sent[i].empty(), "a flow that is not suspended delivers"); ASSERT((in[i]->getReceiveOrder() == RO_HOLD) == held[i], "exactly those who wait are suspended"); }
	}
	mgr.reset(); for(int i = 0; i < IDS; i++) release(i); net_until(a, b, net_now + 1); for(int i = 0; i < FLOWS; i++) { ASSERT(sent[i].empty(), "without the manager all resume"); ASSERT(in[i]->getReceiveOrder() == (i == network ? RO_NETWORK : RO_SEQUENCE), "as they were"); }
	b.r->onRecvFlow = nullptr; for(auto &r : in) r->onMessage = nullptr; sym_reach("end");
}
extern "C" void sym_main() { if(sym_param("barriers", 0)) barriers(); else markers(); }
