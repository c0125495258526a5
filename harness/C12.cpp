// C12: media track metadata and message headers
#include "sym.h"
#include "rtmfp/Media.hpp"
#include "rtmfp/VLU.hpp"
#include <cstring>
#include <cmath>
using namespace com::zenomt; using namespace com::zenomt::rtmfp;

static std::string text(const char *name, unsigned max) { unsigned n = sym_choice(name, max + 1); std::string s(n, 'x'); if(n) sym_bytes("text", &s[0], n); return s; }
static bool same(const void *a_, const void *b_, size_t n) { auto a = (const uint8_t *)a_, b = (const uint8_t *)b_; bool eq = true; for(size_t i = 0; i < n; i++) eq = eq & (a[i] == b[i]); return eq; }
static bool same(const std::string &a, const std::string &b) { return a.size() == b.size() && same(a.data(), b.data(), a.size()); }
static unsigned vlu(const uint8_t *b, unsigned at, unsigned n, uint64_t &v) // length, 0 if malformed
{
	v = 0; for(unsigned i = at; i < n; i++) { if(v >> 57) return 0; v = v << 7 | (b[i] & 127); if(!(b[i] & 128)) return i + 1 - at; } return 0;
}
static const char SIG[] = "http://zenomt.com/ns/rtmfp#media";
static void fields(const Media &a, const Media &b)
{
	uint64_t t, u, v, w; a.getTimescale(&t, &u); b.getTimescale(&v, &w); ASSERT(t == v && u == w, "timescale"); ASSERT(a.streamID == b.streamID, "stream"); ASSERT(a.trackID == b.trackID, "track");
	ASSERT(same(a.codec, b.codec), "codec"); ASSERT(same(a.mediaType, b.mediaType), "media type"); ASSERT(same(a.trackName, b.trackName), "track name"); ASSERT(a.getReceiveIntent() == b.getReceiveIntent(), "receive intent");
}
extern "C" void sym_main()
{
	switch(sym_part(7))
	{
	case 0: // description round trip
	{
		Media a; unsigned wide = sym_choice("wide", 4); auto num = [&] (const char *name, unsigned i) { return i == wide ? sym_u64(name) : (uint64_t)sym_range(name, 0, 127); }; a.streamID = num("stream", 0); a.trackID = num("track", 1); unsigned max = sym_param("text", 1); a.codec = text("codec", max); a.mediaType = text("type", max); a.trackName = text("name", max);
		if(sym_bool("network")) ASSERT(a.setReceiveIntent(RO_NETWORK), "network intent"); ASSERT(!a.setReceiveIntent(RO_HOLD), "hold is not an intent");
		uint64_t ticks = num("ticks", 2), per = num("per", 3), x, y; bool ok = ticks && per; ASSERT(a.setTimescale(ticks, per) == ok, "timescale must not be zero"); a.getTimescale(&x, &y); if(ok) ASSERT(x == ticks && y == per, "timescale"); else ASSERT(x == 1000 && y == 1, "default timescale");
		Bytes m = a.toMetadata(); auto b = Media::fromMetadata(m); ASSERT(b, "metadata parses"); fields(a, *b); ASSERT(b->reorderSuggestion < 0 && b->getOrigin() == 0, "nothing else is set");
		Media c; ASSERT(c.setFromMetadata(m) == m.size(), "metadata parses completely"); fields(a, c); Bytes again = b->toMetadata(); ASSERT(again.size() == m.size() && same(again.data(), m.data(), m.size()), "metadata is stable"); Media d(a); fields(a, d);
		sym_reach("describe"); break;
	}
	case 1: // description with times
	{
		static const uint64_t scales[][2] = { {1000, 1}, {90000, 1}, {1, 1}, {30000, 1001}, {44100, 1}, {1, 60} }; static const long double origins[] = { 0, 1, 0.5L, 1234567.25L, 4294967296.125L, 1e15L }; static const long double reorders[] = { -1, 0, 0.25L, 1, 3.5L, 100, 1.0L/0 };
		Media a; a.streamID = sym_u8("stream"); a.codec = "c"; unsigned s = sym_choice("scale", 6), o = sym_choice("origin", 6), r = sym_choice("reorder", 7); a.setTimescale(scales[s][0], scales[s][1]); ASSERT(a.setOrigin(origins[o]), "origin"); a.reorderSuggestion = reorders[r];
		ASSERT(!a.setOrigin(-1) && !a.setOrigin(1.0L/0) && a.getOrigin() == origins[o], "bad origins are refused"); Bytes m = a.toMetadata(); auto b = Media::fromMetadata(m); ASSERT(b, "metadata parses"); fields(a, *b); ASSERT(b->getOrigin() == origins[o], "origin survives");
		long double tick = (long double)scales[s][1] / scales[s][0]; ASSERT(b->getTickDuration() == tick, "tick"); if(r == 0 || r == 6) ASSERT(b->reorderSuggestion < 0, "no suggestion"); else ASSERT(fabsl(b->reorderSuggestion - reorders[r]) <= tick / 2 * 1.0000001L, "suggestion survives to the nearest tick");
		if(r != 6) ASSERT(a == *b && !(a != *b) && *b == a && a.parametersEqual(*b), "equal description");
		Media c(a); ASSERT(c == a || r == 6, "copy is equal"); c.streamID++; ASSERT(c != a && (r == 6 || c.encodingAndTrackParametersEqual(a)), "stream differs"); c.streamID--; c.trackID++; ASSERT(c != a && !c.encodingAndTrackParametersEqual(a) && (r == 6 || c.encodingParametersEqual(a)), "track differs"); c.trackID--; c.trackName += "x"; ASSERT(c != a, "name differs"); c.trackName = a.trackName; c.codec += "x"; ASSERT(c != a && !c.encodingParametersEqual(a), "codec differs"); c.codec = a.codec; c.mediaType += "y"; ASSERT(c != a, "type differs"); c.mediaType = a.mediaType; c.setTimescale(scales[s][0] + 1, scales[s][1]); ASSERT(c != a, "timescale differs"); c.setTimescale(scales[s][0], scales[s][1]); c.setReceiveIntent(RO_NETWORK); ASSERT(c != a, "intent differs");
		uint64_t t = sym_choice("ticks", 4); static const uint64_t ts[] = { 0, 1, 999, 123456789 }; long double when = a.ticksToTime(ts[t]); bool fine = (when + 1) / tick < 1e15L; if(fine) ASSERT(fabsl(when - (origins[o] + ts[t] * tick)) <= 1e-3L * tick, "ticks to time"); if((when + 1) / tick < 1e15L) { ASSERT(a.timeToTicks(when) == ts[t], "ticks survive"); ASSERT(a.timeToTicks(when + tick * 0.4L) == ts[t] && a.timeToTicks(when + tick * 0.6L) == ts[t] + 1, "times round to the nearest tick"); }
		ASSERT(a.timeToTicks(origins[o] - 5) == 0 && a.timeToTicks(1.0L/0) == 0, "times before the origin are the origin");
		uint8_t pay = sym_u8("pay"); Bytes msg = a.makeMessage(true, 1, when, sym_bool("pts") ? when + 2 * tick : -1, &pay, 1); long double dts = 0, pts = 0; bool rai = false; int type = 0; size_t off = 0; size_t rv = a.parseHeader(msg.data(), msg.size(), &rai, &type, &dts, &pts, &off); ASSERT(rv == msg.size() - 1 && off == rv && rai && type == 1 && msg[rv] == pay, "message");
		if(fine) ASSERT(fabsl(dts - when) <= tick * 0.5001L && (fabsl(pts - when) <= tick / 2 || fabsl(pts - when - 2 * tick) <= tick / 2), "message times"); sym_reach("times"); break;
	}
	case 2: // any metadata
	{
		static const char *mids[] = { "", "\x02\x1d\x07", "\x02\x1d\x07\x01\x4c", "\x02\x1d\x07\x01\x4c\x03\x01\x05\x01", "\x11", "\x11\x00\x80", "\x03\x01\x64\x01" }; static const unsigned midLen[] = { 0, 3, 5, 9, 1, 3, 4 };
		unsigned mid = sym_choice("middle", 7), tail = sym_choice("tail", sym_param("tail", 5) + 1), sig = 33, n = sig + midLen[mid] + tail; bool full = mid != 4 && mid != 5;
		if(!full) { n = sig + 20; } uint8_t *b = new uint8_t[n]; memcpy(b, SIG, 33);
		if(full) { memcpy(b + sig, mids[mid], midLen[mid]); sym_bytes("tail", b + sig + midLen[mid], tail); }
		else { static const uint8_t fix[20] = { 17, 0, 0, 0, 0, 0, 0, 0, 0, 9, 0x80, 0, 0, 0, 0, 0, 0, 0, 0, 0 }; memcpy(b + sig, fix, 20); b[sig] = mid == 4 ? 16 : 17; b[sig + 18] = 1; b[sig + 2] = sym_bool("negative") ? 0x80 : 0; }
		// the reference reads first and keeps the values that end up in floating point small
		uint64_t stream = 0, track = 0, ticks = 1000, per = 1, reorder = 0; bool ok = true, sawS = false, sawC = false, sawR = false, net = false; std::string codec, type, name; unsigned at = sig;
		while(ok && at < n)
		{
			uint64_t len; unsigned k = vlu(b, at, n, len); if(!k || len > n - at - k) { ok = false; break; }
			len = sym_concretize(len); at += k; unsigned end = at + len; if(!len) continue; uint64_t opt; k = vlu(b, at, end, opt); if(!k) { ok = false; break; } unsigned v = at + k; at = end; uint64_t x;
			if(opt == 0x1d) { if((ok = vlu(b, v, end, x))) { stream = x; sawS = true; } } else if(opt == 0x4c) { codec = std::string((char *)b + v, end - v); sawC = true; } else if(opt == 0x44) type = std::string((char *)b + v, end - v); else if(opt == 0x21) name = std::string((char *)b + v, end - v);
			else if(opt == 0x2d) { if((ok = vlu(b, v, end, x))) track = x; } else if(opt == 0x0a) net = true; else if(opt == 0) { ok = end - v >= 16 && b[v] < 0x80; }
			else if(opt == 1) { uint64_t y; k = vlu(b, v, end, x); ok = k && vlu(b, v + k, end, y) && x && y; if(ok) { ticks = x; per = y; } } else if(opt == 0x0b) { if((ok = vlu(b, v, end, x))) { reorder = x; sawR = true; } }
		}
		ok = ok && sawS && sawC; if(ok && sawR) { ASSUME(reorder < 3 || reorder == 127); ASSUME(ticks == 1 || ticks == 100 || ticks == 1000 || ticks == 5); ASSUME(per == 1 || per == 3); sym_concretize(reorder); sym_concretize(ticks); sym_concretize(per); }
		Bytes bytes(b, b + n); Media a; size_t rv = a.setFromMetadata(bytes); ASSERT(rv == (ok ? n : 0), "parses exactly if well formed"); ASSERT((Media::fromMetadata(bytes) != nullptr) == ok, "both parsers agree");
		if(ok)
		{
			uint64_t t, p; a.getTimescale(&t, &p); ASSERT(t == ticks && p == per, "timescale"); ASSERT(a.streamID == stream && a.trackID == track, "stream and track"); ASSERT(same(a.codec, codec) && same(a.mediaType, type) && same(a.trackName, name), "texts"); ASSERT(a.getReceiveIntent() == (net ? RO_NETWORK : RO_SEQUENCE), "intent");
			if(sawR) { long double want = (long double)reorder * ((long double)per / ticks); ASSERT(fabsl(a.reorderSuggestion - want) < 1e-9L, "suggestion"); } else ASSERT(a.reorderSuggestion < 0, "no suggestion"); sym_reach("meta.ok");
		}
		else sym_reach("meta.bad");
		delete[] b; break;
	}
	case 3: // signature
	{
		Bytes m(SIG, SIG + 33); m.insert(m.end(), { 2, 0x1d, 7, 1, 0x4c }); unsigned i = sym_choice("at", 33); uint8_t v = sym_u8("v"); m[i] = v; ASSERT((Media::fromMetadata(m) != nullptr) == (v == (uint8_t)SIG[i]), "the signature must match"); unsigned n = sym_choice("cut", 38); m.resize(n); m[i < n ? i : 0] = n ? v : 0; if(n < 38 && n) ASSERT(!Media::fromMetadata(m), "truncated metadata is rejected"); sym_reach("signature"); break;
	}
	case 4: // any message header
	{
		unsigned n = sym_choice("len", sym_param("header", 6) + 1); uint8_t *b = new uint8_t[n]; sym_bytes("bytes", b, n); bool rai = false; int type = -1; uint64_t dts = 1, pts = 2; size_t off = 99; size_t rv = Media::basicParseHeader(b, n, &rai, &type, &dts, &pts, &off);
		bool ok = n; unsigned at = 1, list = 1; uint64_t d = 0, o = 0; unsigned tss = n ? b[0] >> 4 & 3 : 0;
		if(ok && tss) { unsigned k = vlu(b, at, n, d); at += k; ok = k; if(ok && tss > 1) { k = vlu(b, at, n, o); at += k; ok = k; } }
		if(ok && tss == 3) ok = o <= d; list = at;
		if(ok && (b[0] & 0x40)) for(;;) { uint64_t len, t; unsigned k = vlu(b, at, n, len); if(!k || len > n - at - k) { ok = false; break; } len = sym_concretize(len); at += k; if(!len) break; if(!vlu(b, at, at + len, t)) { ok = false; break; } at += len; }
		ASSERT(rv == (ok ? at : 0), "parses exactly if well formed"); if(ok) { ASSERT(rai == (b[0] >> 7) && type == (b[0] & 15) && off == list, "flags, type, options"); ASSERT(dts == d, "decode time"); ASSERT(pts == (tss == 3 ? d - o : d + o), "presentation time"); sym_reach("header.ok"); } else sym_reach("header.bad");
		ASSERT(Media::basicParseHeader(b, n, nullptr, nullptr, nullptr, nullptr, nullptr) == rv, "outputs are optional"); delete[] b; break;
	}
	case 5: // message round trip
	{
		uint64_t d = sym_u64("dts"), p = sym_u64("pts"); int type = sym_range("type", 0, 15); bool rai = sym_bool("rai"); static const unsigned shapes[] = { 0, 2, 1, 3 }; unsigned l = shapes[sym_choice("list", sym_param("lists", 2))], n = l ? l - 1 : 3; uint8_t pay[3]; sym_bytes("bytes", pay, n); static const uint8_t lists[][5] = { {0}, {0}, {2, 5, 6, 0}, {1, 4, 1, 9, 0} }; static const unsigned listLen[] = { 0, 1, 4, 5 };
		Bytes m = Media::basicMakeMessage(rai, type, d, p, lists[l], listLen[l], pay, n); bool r = !rai; int t = -1; uint64_t d2 = ~d, p2 = ~p; size_t off = 0, rv = Media::basicParseHeader(m.data(), m.size(), &r, &t, &d2, &p2, &off);
		ASSERT(rv + n == m.size(), "header length"); ASSERT(off + listLen[l] == rv && same(m.data() + off, lists[l], listLen[l]), "options"); ASSERT(same(m.data() + rv, pay, n), "payload"); ASSERT(r == rai && t == type, "flags and type"); ASSERT(d2 == d, "decode time survives"); ASSERT(p2 == p, "presentation time survives"); sym_reach("message"); break;
	}
	case 6: // order
	{
		Media m[3]; for(auto &a : m) { a.streamID = sym_u8("stream"); a.trackID = sym_u8("track"); a.mediaType = text("type", 1); }
		auto sgn = [] (int x) { return x < 0 ? -1 : x > 0; }; int ab = sgn(m[0].track_compare(m[1])), bc = sgn(m[1].track_compare(m[2])), ac = sgn(m[0].track_compare(m[2]));
		bool eq = m[0].trackID == m[1].trackID && m[0].mediaType == m[1].mediaType; ASSERT((ab == 0) == eq, "equal exactly if track and type are"); ASSERT(sgn(m[1].track_compare(m[0])) == -ab, "antisymmetric"); if(ab <= 0 && bc <= 0) ASSERT(ac <= 0 && (ac < 0 || (ab == 0 && bc == 0)), "transitive"); ASSERT(Media::track_less(m[0], m[1]) == (ab < 0), "less");
		int sab = sgn(m[0].stream_track_compare(m[1])); ASSERT((sab == 0) == (eq && m[0].streamID == m[1].streamID), "equal exactly if stream, track and type are"); ASSERT(m[0].streamID == m[1].streamID ? sab == ab : sab == (m[0].streamID < m[1].streamID ? -1 : 1), "stream first"); ASSERT(Media::stream_track_less(m[0], m[1]) == (sab < 0), "less"); ASSERT(sgn(m[1].stream_track_compare(m[0])) == -sab, "antisymmetric"); sym_reach("order"); break;
	}
	}
}
