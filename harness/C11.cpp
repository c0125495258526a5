// C11: audio and video payload classification against the FLV / enhanced RTMP bit layout
#include "sym.h"
#include "rtmfp/TCMessage.hpp"
#include <cstring>
using namespace com::zenomt; using namespace com::zenomt::rtmp;

extern "C" void sym_main()
{
	using M = Message; unsigned n = sym_choice("len", 8);
	if(sym_bool("build"))
	{
		uint32_t codec = sym_u32("codec"); Bytes b = M::makeVideoEndOfSequence(codec);
		if(codec > 15) { ASSERT(b.size() == 5 && b[0] == 0x92 && b[1] == codec >> 24 && b[2] == (codec >> 16 & 255) && b[3] == (codec >> 8 & 255) && b[4] == (codec & 255), "enhanced end of sequence"); ASSERT(M::isVideoEnhanced(b.data(), 5) && M::getVideoCodec(b.data(), 5) == codec, "names its codec"); }
		else if(codec == 7) ASSERT(b.size() == 5 && b[0] == 0x17 && b[1] == 2 && !b[2] && !b[3] && !b[4], "AVC end of sequence"); else ASSERT(b.empty(), "silence");
		ASSERT(M::isVideoSequenceSpecial(b.data(), b.size()), "end of sequence is special"); ASSERT(!M::isVideoInit(b.data(), b.size()), "end of sequence is not initialisation"); ASSERT(!M::isVideoKeyframe(b.data(), b.size()), "end of sequence is not a keyframe");
		sym_reach("build"); return;
	}
	uint8_t *p = new uint8_t[n]; sym_bytes("payload", p, n); uint8_t b0 = n ? p[0] : 0, b1 = n > 1 ? p[1] : 0; uint32_t four = n >= 5 ? (uint32_t)p[1] << 24 | p[2] << 16 | p[3] << 8 | p[4] : 0;
	if(sym_bool("video"))
	{
		bool enh = n >= 5 && (b0 & 0x80); unsigned pt = b0 & 15, frame = b0 >> 4 & 7; bool avc = !enh && n > 1 && (b0 & 15) == 7;
		bool multi = enh && pt == 6; bool special = n == 0 || (n > 1 && (enh ? !multi && pt != 1 && pt != 3 : avc && b1 != 1));
		ASSERT(M::isVideoEnhanced(p, n) == enh, "enhanced video"); ASSERT(M::isVideoEnhancedMetadata(p, n) == (enh && pt == 4), "video metadata"); ASSERT(M::isVideoEnhancedMultitrack(p, n) == multi, "multitrack video");
		ASSERT(M::isVideoSequenceSpecial(p, n) == special, "video sequence special"); ASSERT(M::isVideoInit(p, n) == (enh ? pt == 0 || pt == 5 : avc && b1 == 0), "video initialisation");
		ASSERT(M::isVideoKeyframe(p, n) == (n && frame == 1 && !special), "keyframe"); ASSERT(M::getVideoCodec(p, n) == (enh ? multi ? 0 : four : n ? b0 & 15u : 0u), "video codec");
		sym_reach("video");
	}
	else
	{
		bool enh = n >= 5 && b0 >> 4 == 9; unsigned pt = b0 & 15; bool end = n == 0 || b0 == 0x92, init = enh ? pt == 0 : n > 1 && b0 >> 4 == 10 && b1 == 0;
		ASSERT(M::isAudioEnhanced(p, n) == enh, "enhanced audio"); ASSERT(M::isAudioEnhancedMultichannelConfig(p, n) == (enh && pt == 4), "multichannel configuration"); ASSERT(M::isAudioEnhancedMultitrack(p, n) == (enh && pt == 5), "multitrack audio");
		ASSERT(M::isAudioInit(p, n) == init, "audio initialisation"); ASSERT(M::isAudioSequenceEnd(p, n) == end, "audio end"); ASSERT(M::isAudioSequenceSpecial(p, n) == (end || init || (enh && pt == 4)), "audio sequence special");
		ASSERT(M::getAudioCodec(p, n) == (enh ? pt == 5 ? 0x90 : four : n ? b0 & 0xf0u : 0u), "audio codec"); sym_reach("audio");
	}
	delete[] p;
}
