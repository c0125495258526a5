// C01: VLU / field / option codec
#include "sym.h"
#include "rtmfp/VLU.hpp"
#include <cstring>
using namespace com::zenomt::rtmfp;

// value of a complete base-128 string, saturating at 2^64-1, by the textbook definition
static uintmax_t refValue(const uint8_t *p, size_t n)
{
	uintmax_t v = 0; bool sat = false;
	for(size_t i = 0; i < n; i++) { if(v >> 57) sat = true; v = (v << 7) | (p[i] & 0x7f); }
	return sat ? UINTMAX_MAX : v;
}

static void encodeRoundTrip()
{
	uint64_t v = sym_u64("value");
	uint8_t buf[VLU::MAX_VLU_SIZE + 2];
	memset(buf, 0xEE, sizeof buf);
	size_t n = VLU::encode(v, buf);
	ASSERT(n >= 1 && n <= 10, "encoded length in range");
	ASSERT(n == VLU::encode(v, nullptr), "length query equals encoded length");
	ASSERT(n == 1 || (v >> (7 * (n - 1))) != 0, "encoding is minimal");
	ASSERT(n == 10 || (v >> (7 * n)) == 0, "encoding holds every bit");
	for(size_t i = 0; i < n; i++)
	{
		ASSERT((buf[i] & 0x7f) == ((v >> (7 * (n - 1 - i))) & 0x7f), "encoded digit");
		ASSERT((buf[i] >> 7) == (i + 1 < n), "continuation bits");
	}
	ASSERT(buf[n] == 0xEE, "encode writes only the encoded bytes");
	std::vector<uint8_t> vec(1, 0x55);
	VLU::append(v, vec);
	ASSERT(vec.size() == n + 1 && vec[0] == 0x55, "append extends by the encoded length");
	for(size_t i = 0; i < n; i++) ASSERT(vec[1 + i] == buf[i], "append equals encode");
	uintmax_t out = ~v;
	ASSERT(VLU::parse(buf, buf + n, &out) == n && out == v, "decode is the inverse of encode");
	out = ~v;
	ASSERT(VLU::parse(buf, buf + n, &out, false) == n && out == v, "decode without saturation is the inverse too");
	out = ~v;
	ASSERT(VLU::parse(buf, nullptr, &out) == n && out == v, "decode without a limit is the inverse too");
	for(size_t k = 0; k < n; k++)
	{
		uint8_t *t = new uint8_t[k]; memcpy(t, buf, k);
		ASSERT(VLU::parse(t, t + k, nullptr) == 0, "every truncation is rejected");
		delete[] t;
	}
	sym_reach("encode");
}

static void parseAny(unsigned maxLen)
{
	unsigned n = sym_choice("len", maxLen + 1);
	uint8_t *b = new uint8_t[n];
	sym_bytes("bytes", b, n);
	uintmax_t out = 0x1234;
	size_t rv = VLU::parse(b, b + n, &out);
	size_t term = 0; while(term < n && (b[term] & 0x80)) term++;
	if(term == n) { ASSERT(rv == 0, "incomplete integer is rejected"); sym_reach("parse.truncated"); }
	else
	{
		ASSERT(rv == term + 1, "consumes exactly up to the terminating digit");
		ASSERT(out == refValue(b, term + 1), "decoded value, saturating");
		uintmax_t raw = 0, w = 0; ASSERT(VLU::parse(b, b + n, &raw, false) == rv, "same length without saturation");
		for(size_t i = 0; i <= term; i++) w = (w << 7) | (b[i] & 0x7f);
		ASSERT(raw == w, "value modulo 2^64 without saturation");
		sym_reach("parse.complete");
	}
	delete[] b;
}

// fields and options over arbitrary bytes. The buffer is exactly n bytes, so any access past it is caught.
static void fieldAny(unsigned maxLen)
{
	unsigned n = sym_choice("len", maxLen + 1);
	uint8_t *b = new uint8_t[n];
	sym_bytes("bytes", b, n);
	const uint8_t *pl = nullptr; size_t pn = 777;
	size_t rv = VLU::parseField(b, b + n, &pl, &pn);
	uintmax_t want = 0; size_t hl = VLU::parse(b, b + n, &want);
	if(!hl || want > n - hl) { ASSERT(rv == 0, "truncated field is rejected"); sym_reach("field.truncated"); }
	else
	{
		ASSERT(rv == hl + want, "field consumes its header and payload");
		ASSERT(pl == b + hl && pn == want, "field payload is in bounds");
		sym_reach("field.ok");
	}
	uintmax_t ty = 999; const uint8_t *val = b; size_t vl = 888;
	size_t orv = Option::parse(b, b + n, &ty, &val, &vl);
	if(!rv) ASSERT(orv == 0, "option in a truncated field is rejected");
	else if(pn == 0) { ASSERT(orv == rv && ty == 0 && val == nullptr && vl == 0, "empty field is the option marker"); sym_reach("option.marker"); }
	else
	{
		uintmax_t t2 = 0; size_t tl = VLU::parse(pl, pl + pn, &t2);
		if(!tl) { ASSERT(orv == 0, "option whose type is truncated is rejected"); sym_reach("option.badtype"); }
		else
		{
			ASSERT(orv == rv && ty == t2 && val == pl + tl && vl == pn - tl, "option type and value");
			std::vector<uint8_t> re; Option::append(ty, val, vl, re);
			const uint8_t *v3; size_t l3; uintmax_t t3;
			ASSERT(Option::parse(re.data(), re.data() + re.size(), &t3, &v3, &l3) == re.size() && t3 == ty && l3 == vl && (vl == 0 || 0 == memcmp(v3, val, vl)), "option re-encodes to an equal option");
			sym_reach("option.ok");
		}
	}
	// outputs are optional
	ASSERT(VLU::parseField(b, b + n, nullptr, nullptr) == rv, "outputs are optional");
	ASSERT(Option::parse(b, b + n, nullptr, nullptr, nullptr) == orv, "outputs are optional");
	delete[] b;
}

static void optionEncode(unsigned maxVal)
{
	uint64_t ty = sym_u64("type");
	unsigned form = sym_choice("form", 4);
	std::vector<uint8_t> d(1, 0x11);
	uint8_t val[160]; unsigned vl = 0; uint64_t iv = 0;
	if(form == 0) { vl = sym_choice("vlen", maxVal + 1); sym_bytes("val", val, vl); Option::append(ty, val, vl, d); }
	else if(form == 1) { iv = sym_u64("ival"); vl = VLU::encode(iv, val); Option::append(ty, (uintmax_t)iv, d); }
	else if(form == 2) { Option::append(ty, d); }
	else { vl = 120 + sym_choice("vlen", 16); for(unsigned i = 0; i < vl; i++) val[i] = i; std::vector<uint8_t> vv(val, val + vl); Option::append(ty, vv, d); }
	ASSERT(d[0] == 0x11, "existing bytes are kept");
	Option::append(d);
	ASSERT(d.back() == 0, "marker is a zero byte");
	size_t body = d.size() - 2;
	uintmax_t t = ~ty; const uint8_t *v = nullptr; size_t l = 0;
	size_t rv = Option::parse(d.data() + 1, d.data() + d.size(), &t, &v, &l);
	ASSERT(rv == body && t == ty && l == vl, "option decodes to what was encoded");
	for(unsigned i = 0; i < vl; i++) ASSERT(v[i] == val[i], "option value bytes");
	for(size_t k = 0; k < body; k++) ASSERT(Option::parse(d.data() + 1, d.data() + 1 + k, nullptr, nullptr, nullptr) == 0, "every truncation of an option is rejected");
	ASSERT(Option::parse(d.data() + 1 + rv, d.data() + d.size(), &t, &v, &l) == 1 && v == nullptr, "marker after the option");
	sym_reach("option.encode");
}

extern "C" void sym_main()
{
	int deep = sym_tier();
	switch(sym_part(4))
	{
	case 0: encodeRoundTrip(); break;
	case 1: parseAny(deep ? 16 : 12); break;
	case 2: fieldAny(deep ? 24 : 14); break;
	default: optionEncode(deep ? 12 : 4); break;
	}
}
