// C05: checksums against independent textbook formulations
#include "sym.h"
#include "rtmfp/Checksums.hpp"
#include <cstring>
using namespace com::zenomt;

// CRC by polynomial long division of (init xor first 32 bits ... ) one message bit at a time, most significant first
static uint32_t refBE(uint32_t crc, const uint8_t *p, size_t n)
{
	for(size_t i = 0; i < n; i++)
	{
		crc ^= (uint32_t)p[i] << 24;
		for(int k = 0; k < 8; k++) { uint32_t m = 0u - (crc >> 31); crc = (crc << 1) ^ (0x04C11DB7u & m); }
	}
	return crc;
}
static uint32_t refLE(uint32_t crc, const uint8_t *p, size_t n)
{
	for(size_t i = 0; i < n; i++)
	{
		crc ^= p[i];
		for(int k = 0; k < 8; k++) { uint32_t m = 0u - (crc & 1); crc = (crc >> 1) ^ (0xEDB88320u & m); }
	}
	return crc;
}
static uint16_t refIn(const uint8_t *p, size_t n)
{
	// RFC 1071: ones-complement sum of 16-bit big-endian words, an odd last byte contributing its own value (as the library's unit test fixes it)
	uint32_t s = 0;
	for(size_t i = 0; i < n; i += 2)
	{
		uint32_t w = i + 1 < n ? ((uint32_t)p[i] << 8) | p[i + 1] : p[i];
		s += w; s = (s & 0xffff) + (s >> 16);
	}
	return (uint16_t)~s;
}
extern "C" void sym_main()
{
	unsigned part = sym_part(4);
	if(part == 0)
	{
		unsigned n = sym_choice("len", sym_param("crclen", 3)); uint8_t *b = new uint8_t[n]; sym_bytes("msg", b, n); uint32_t init = sym_u32("init");
		if(sym_bool("be")) { ASSERT(crc32_be(init, b, n) == refBE(init, b, n), "big-endian CRC-32 register"); ASSERT(crc32_be(b, n) == refBE(0xffffffffu, b, n), "big-endian CRC-32 with standard initial value"); }
		else { ASSERT(crc32_le(init, b, n) == refLE(init, b, n), "little-endian CRC-32 register"); ASSERT(crc32_le(b, n) == refLE(0xffffffffu, b, n), "little-endian CRC-32 with standard initial value"); }
		delete[] b; sym_reach("crc");
	}
	else if(part == 1)
	{
		// longer message with a few arbitrary bytes at an arbitrary place, and continuation of a register across a split
		unsigned n = sym_param("longlen", 4); uint8_t b[64]; for(unsigned i = 0; i < n; i++) b[i] = (uint8_t)(i * 37 + 11);
		unsigned at = sym_choice("at", n - 1); sym_bytes("patch", b + at, 2);
		unsigned cut = at + 1;
		ASSERT(crc32_be(crc32_be(b, cut), b + cut, n - cut) == crc32_be(b, n), "CRC of pieces equals CRC of the whole (big-endian)");
		ASSERT(crc32_le(crc32_le(b, cut), b + cut, n - cut) == crc32_le(b, n), "CRC of pieces equals CRC of the whole (little-endian)");
		// any single-bit change is detected
		uint8_t d[64]; memcpy(d, b, n); unsigned bit = sym_choice("bit", 8); d[at] ^= 1 << bit;
		ASSERT(crc32_be(d, n) != crc32_be(b, n) && crc32_le(d, n) != crc32_le(b, n), "single-bit change is detected"); sym_reach("crc.long");
		ASSERT(crc32_be("123456789", 9) == 0x0376E6E7u && (crc32_le("123456789", 9) ^ 0xffffffffu) == 0xCBF43926u, "published check values");
	}
	else if(part == 2)
	{
		unsigned n = sym_choice("len", sym_param("sumlen", 6)); uint8_t *b = new uint8_t[n]; sym_bytes("msg", b, n);
		uint16_t c = in_cksum(b, n); ASSERT(c == refIn(b, n), "Internet checksum equals its definition"); delete[] b; sym_reach(n & 1 ? "sum.odd" : "sum.even");
	}
	else
	{
		// appending the checksum makes the sum verify to zero
		unsigned n = 2 * (1 + sym_choice("words", 3)); uint8_t b[16]; sym_bytes("msg", b, n); uint16_t c = in_cksum(b, n); b[n] = c >> 8; b[n + 1] = c & 0xff;
		ASSERT(in_cksum(b, n + 2) == 0, "a message with its checksum appended verifies"); sym_reach("sum.verify");
	}
}
