// C14: packet building
#include "sym.h"
#include "rtmfp/rtmfp.hpp"
#include "rtmfp/packet.hpp"
#include "rtmfp/PacketAssembler.hpp"
#include <cstring>
using namespace com::zenomt; using namespace com::zenomt::rtmfp;

static std::vector<uint8_t> vlu(uint64_t v) { uint64_t rest = v; unsigned n = 1; while(rest >>= 7) n++; std::vector<uint8_t> o; for(unsigned i = n; i-- > 0; ) o.push_back((v >> 7 * i & 127) | (i ? 128 : 0)); return o; }
extern "C" void sym_main()
{
	static const unsigned caps[] = { 8, 11, 24 }; unsigned margin = sym_param("margin", 2), cap = margin + caps[sym_choice("cap", 3)] - 2, how = sym_choice("init", 2);
	uint8_t *buf = new uint8_t[cap]; memset(buf, 0xee, cap); PacketAssembler p; std::vector<uint8_t> m(margin, 0xee); // what the packet holds
	bool tc = false; uint8_t flags = 0;
	if(!how) p.init(buf, margin, cap);
	else
	{
		flags = sym_u8("flags"); long ts = sym_bool("ts") ? (long)sym_u16("tsv") : -1, tse = sym_bool("tse") ? (long)sym_u16("tsev") : -1; p.init(buf, margin, cap, flags, ts, tse);
		flags &= ~(8 | 4); if(ts >= 0) flags |= 8; if(tse >= 0) flags |= 4; m.push_back(flags); for(long t : { ts, tse }) if(t >= 0) { m.push_back(t >> 8); m.push_back(t & 255); }
		tc = flags & 0x80; ASSERT(p.getTimeCriticalFlag() == tc, "time critical flag as given");
	}
	size_t chunk = 0; bool open = false;
	auto add = [&] (const std::vector<uint8_t> &b, bool did) { bool fits = m.size() + b.size() <= cap; ASSERT(did == fits, "accepted exactly if it fits"); if(fits) m.insert(m.end(), b.begin(), b.end()); };
	for(int step = 0, n = sym_param("steps", 3); step < n; step++)
	{
		switch(sym_choice("op", 8))
		{
		case 0: { uint8_t t = sym_u8("type"); size_t at = m.size(); bool did = p.startChunk(t); add({ t, 0, 0 }, did); if(did) { chunk = at; open = true; } sym_reach("start"); break; }
		case 1: { uint8_t b = sym_u8("byte"); add({ b }, p.push(b)); break; }
		case 2: { static const unsigned ks[] = { 0, 3, 25 }; unsigned k = ks[sym_choice("n", 3)]; std::vector<uint8_t> b(k, 7); if(k && k < 4) sym_bytes("bytes", b.data(), k); add(b, step & 1 ? p.push(b) : p.push(b.data(), k)); break; }
		case 3: { static const unsigned ks[] = { 0, 3, 130 }; unsigned k = ks[sym_choice("n", 3)]; std::vector<uint8_t> b(k, 9), f = vlu(k); if(k && k < 4) sym_bytes("bytes", b.data(), k); f.insert(f.end(), b.begin(), b.end()); add(f, step & 1 ? p.pushField(b) : p.pushField(b.data(), k)); sym_reach("field"); break; }
		case 4: { uint64_t v = step ? sym_range("number", 0, 16384) : sym_u64("number"); bool did = p.pushVLU(v); add(vlu(v), did); break; }
		case 5: if(open) { p.commitChunk(); size_t len = m.size() - chunk - 3; m[chunk + 1] = len >> 8; m[chunk + 2] = len & 255; open = false; sym_reach("commit"); } break;
		case 6: p.rollbackChunk(); if(open) { m.resize(chunk); open = false; sym_reach("rollback"); } break;
		case 7: if(how) { p.setTimeCriticalFlag(); m[margin] |= 0x80; ASSERT(p.getTimeCriticalFlag(), "time critical flag set"); } break;
		}
		ASSERT(p.remaining() == cap - m.size(), "remaining space"); std::vector<uint8_t> v = p.toVector(); ASSERT(v.size() == m.size(), "packet length"); bool eq = true; for(size_t i = 0; i < m.size(); i++) eq = eq & (v[i] == m[i]); ASSERT(eq, "packet content");
	}
	delete[] buf; sym_reach("end");
}
