// C06: hexadecimal text
#include "sym.h"
#include "rtmfp/Hex.hpp"
#include <cstring>
using namespace com::zenomt;
// branch-free
static int digit(int c)
{
	int d = -((c >= '0') & (c <= '9')), l = -((c >= 'a') & (c <= 'f')), u = -((c >= 'A') & (c <= 'F'));
	return (d & (c - '0')) | (l & (c - 'a' + 10)) | (u & (c - 'A' + 10)) | ~(d | l | u);
}
static bool space(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
extern "C" void sym_main()
{
	unsigned part = sym_part(3);
	if(part == 0)
	{
		unsigned n = sym_choice("len", sym_param("enc", 4)); uint8_t *b = new uint8_t[n]; sym_bytes("bytes", b, n);
		std::string s = Hex::encode(b, n); static const char dig[] = "0123456789abcdef";
		ASSERT(s.size() == 2 * n, "two digits per byte");
		for(unsigned i = 0; i < n; i++) { uint8_t hi = s[2 * i], lo = s[2 * i + 1]; ASSERT(((hi < 'A') | (hi > 'F')) & ((lo < 'A') | (lo > 'F')), "lower-case digits"); ASSERT((digit(hi) == b[i] >> 4) & (digit(lo) == (b[i] & 15)), "digit values"); }
		std::vector<uint8_t> v(b, b + n); ASSERT(Hex::encode(v) == s && Hex::encode(b, b + n) == s, "overloads agree");
		std::vector<uint8_t> d(1, 0x77); ASSERT(Hex::decode(s.c_str(), d), "decoding an encoding succeeds");
		ASSERT(d.size() == n + 1 && d[0] == 0x77, "decoding appends"); for(unsigned i = 0; i < n; i++) ASSERT(d[1 + i] == b[i], "round trip");
		(void)dig; delete[] b; sym_reach("encode");
	}
	else if(part == 1)
	{
		unsigned n = sym_choice("len", sym_param("dec", 5)); char *t = new char[n + 1]; sym_bytes("text", t, n); t[n] = 0;
		std::vector<uint8_t> d; d.push_back(1); d.push_back(2); std::vector<uint8_t> want; bool ok = true; int hi = -1;
		for(unsigned i = 0; i < n; i++)
		{
			int c = (unsigned char)t[i]; if(!c) break; int q = digit(c);
			if(q < 0) { if(!space(c) || hi >= 0) { ok = false; break; } continue; }
			if(hi < 0) hi = q; else { want.push_back(hi * 16 + q); hi = -1; }
		}
		if(hi >= 0) ok = false;
		bool rv = Hex::decode(t, d);
		ASSERT(rv == ok, "accepts exactly pairs of digits separated by white space");
		if(rv) { ASSERT(d.size() == 2 + want.size(), "decoded length"); for(size_t i = 0; i < want.size(); i++) ASSERT(d[2 + i] == want[i], "decoded bytes"); sym_reach("decode.ok"); }
		else { ASSERT(d.size() == 2, "nothing is appended on failure"); sym_reach("decode.bad"); }
		ASSERT(d[0] == 1 && d[1] == 2, "existing bytes are kept"); delete[] t;
	}
	else
	{
		uint8_t c = sym_u8("c"), e = sym_u8("e"); int q = digit(c);
		ASSERT(q >= 0 ? Hex::decodeDigit((char)c) == q : Hex::decodeDigit((char)c) < 0, "digit classification");
		char *t = new char[2]; t[0] = c; t[1] = e; int b = Hex::decodeByte(t);
		ASSERT((q >= 0 && digit(e) >= 0) ? b == q * 16 + digit(e) : b == -1, "two-digit byte"); delete[] t;
		char *u = new char[1]; u[0] = 0; ASSERT(Hex::decodeByte(u) == -1, "empty text"); delete[] u; sym_reach("digit");
	}
}
