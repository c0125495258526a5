// C04: network addresses
#include "sym.h"
#include "rtmfp/Address.hpp"
#include <cstring>
using namespace com::zenomt::rtmfp;

static unsigned len(int fam) { return fam == AF_INET ? 4 : fam == AF_INET6 ? 16 : 0; }
struct Ref { int fam; uint8_t ip[16]; uint16_t port; unsigned origin; };
static void same(const Address &a, const Ref &r, const char *what)
{
	ASSERT(a.getFamily() == r.fam, what); ASSERT(a.getIPAddressLength() == len(r.fam), what);
	ASSERT(a.getPort() == r.port, what); ASSERT((unsigned)a.getOrigin() == r.origin, what);
	ASSERT((a.getIPAddressPtr() != nullptr) == (len(r.fam) != 0), what);
	if(len(r.fam)) { bool eq = true; const uint8_t *p = a.getIPAddressPtr(); for(unsigned i = 0; i < len(r.fam); i++) eq = eq & (p[i] == r.ip[i]); ASSERT(eq, what); }
}
static void make(Address &a, Ref &r, int fam)
{
	r.fam = fam; r.port = sym_u16("port"); r.origin = sym_range("origin", 0, 3); sym_bytes("ip", r.ip, len(fam));
	ASSERT(a.setIPAddress(r.ip, len(fam)), "setting an address of 4 or 16 bytes"); a.setPort(r.port); a.setOrigin((Address::Origin)r.origin);
}
static void preset(Address &a, Ref &r)
{
	unsigned c = sym_choice("before", 3); memset(&r, 0, sizeof r);
	if(c) { r.fam = c == 1 ? AF_INET : AF_INET6; for(unsigned i = 0; i < len(r.fam); i++) r.ip[i] = 17 * i + 3; r.port = 4321; r.origin = 2; a.setIPAddress(r.ip, len(r.fam)); a.setPort(r.port); a.setOrigin(Address::ORIGIN_OBSERVED); }
	same(a, r, "prepared address");
}
extern "C" void sym_main()
{
	switch(sym_part(6))
	{
	case 0: // round trip through the wire form and the socket form
	{
		Address a; Ref r, was; preset(a, was); int fam = sym_bool("six") ? AF_INET6 : AF_INET; make(a, r, fam); same(a, r, "address as set");
		unsigned n = 3 + len(fam); uint8_t *b = new uint8_t[n]; ASSERT(a.encode(b) == n && a.getEncodedLength() == n, "encoded length");
		ASSERT(b[0] == ((fam == AF_INET6 ? 0x80 : 0) | r.origin), "encoded flags"); ASSERT(b[n - 2] == (r.port >> 8) && b[n - 1] == (r.port & 255), "encoded port");
		bool eq = true; for(unsigned i = 0; i < len(fam); i++) eq = eq & (b[1 + i] == r.ip[i]); ASSERT(eq, "encoded address bytes");
		std::vector<uint8_t> v = a.encode(); ASSERT(v.size() == n && 0 == memcmp(v.data(), b, n), "both encoders agree");
		Address c; preset(c, was); ASSERT(c.setFromEncoding(b, b + n) == n, "an encoding decodes"); same(c, r, "decode is the inverse of encode"); ASSERT(c == a, "decoded address is equal");
		Address d(a.getSockaddr(), a.getOrigin()); same(d, r, "socket address round trip"); ASSERT(a.getSockaddrLen() == (fam == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6)), "socket address length");
		Address e(a); same(e, r, "copy"); Address f; f = a; same(f, r, "assignment"); std::vector<uint8_t> ip = a.getIPAddress(); ASSERT(ip.size() == len(fam) && 0 == memcmp(ip.data(), r.ip, len(fam)), "address bytes");
		uint8_t junk[17] = {0}; unsigned bad = sym_choice("badlen", 18); if(bad != 4 && bad != 16) { ASSERT(!e.setIPAddress(junk, bad), "other lengths are rejected"); same(e, r, "rejected address leaves the object alone"); }
		delete[] b; sym_reach("roundtrip"); break;
	}
	case 1: // any bytes
	{
		unsigned n = sym_choice("len", 21); uint8_t *b = new uint8_t[n]; sym_bytes("bytes", b, n); Address a; Ref r; preset(a, r);
		size_t rv = a.setFromEncoding(b, b + n);
		unsigned need = n && (b[0] & 0x80) ? 19 : 7;
		if(n < need) { ASSERT(rv == 0, "truncated encoding is rejected"); same(a, r, "rejected encoding leaves the object alone"); sym_reach("decode.bad"); }
		else { Ref q; q.fam = need == 19 ? AF_INET6 : AF_INET; memcpy(q.ip, b + 1, len(q.fam)); q.port = (b[need - 2] << 8) | b[need - 1]; q.origin = b[0] & 3; ASSERT(rv == need, "consumes exactly one address"); same(a, q, "decoded fields"); sym_reach("decode.ok"); }
		ASSERT(a.setFromEncoding(b + n, b) == 0 || n == 0, "inverted bounds are rejected"); delete[] b; break;
	}
	case 2: // order and equality of two
	{
		Address a, b; Ref p, q; memset(&p, 0, sizeof p); memset(&q, 0, sizeof q); int fams[3] = {0, AF_INET, AF_INET6};
		int fa = fams[sym_choice("fa", 3)], fb = fams[sym_choice("fb", 3)]; if(fa) make(a, p, fa); if(fb) make(b, q, fb);
		bool eq = fa == fb; if(eq && fa) { eq = p.port == q.port; for(unsigned i = 0; i < len(fa); i++) eq = eq & (p.ip[i] == q.ip[i]); }
		bool ab = a < b, ba = b < a, e = a == b;
		ASSERT(e == eq, "equal exactly if family, bytes and port are equal"); ASSERT(e == (b == a), "equality is symmetric");
		ASSERT((int)ab + (int)ba + (int)e == 1, "exactly one of less, greater, equal"); ASSERT(!(a < a) && (a == a), "irreflexive"); sym_reach("order2"); break;
	}
	case 3: // transitivity
	{
		Address x[3]; int fams[3] = {0, AF_INET, AF_INET6};
		for(int i = 0; i < 3; i++) { int f = fams[sym_choice("f", 3)]; if(!f) continue; uint8_t ip[16]; memset(ip, 7, 16); ip[0] = sym_u8("ip0"); ip[len(f) - 1] = sym_u8("ipN"); x[i].setIPAddress(ip, len(f)); x[i].setPort(sym_u16("port")); }
		if(x[0] < x[1] && x[1] < x[2]) { ASSERT(x[0] < x[2], "order is transitive"); sym_reach("transitive"); }
		break;
	}
	case 4: // mapping v4 to v6 and back
	{
		Address a; Ref r; make(a, r, AF_INET); ASSERT(a.canMapToFamily(AF_INET) && a.canMapToFamily(AF_INET6), "IPv4 always maps");
		ASSERT(a.setFamily(AF_INET6), "map"); Ref m = r; m.fam = AF_INET6; memset(m.ip, 0, 10); m.ip[10] = m.ip[11] = 0xff; memcpy(m.ip + 12, r.ip, 4); same(a, m, "mapped address");
		ASSERT(a.canMapToFamily(AF_INET), "mapped address maps back"); ASSERT(a.setFamily(AF_INET), "unmap"); same(a, r, "mapping back gives the same address");
		ASSERT(!a.setFamily(AF_UNIX) && !a.setFamily(0), "other families are rejected"); same(a, r, "rejected family leaves the object alone"); sym_reach("map"); break;
	}
	default: // v6 to v4
	{
		Address a; Ref r; r.fam = AF_INET6; r.port = sym_u16("port"); r.origin = 3; sym_bytes("ip", r.ip, 16); a.setIPAddress(r.ip, 16); a.setPort(r.port); a.setOrigin(Address::ORIGIN_RELAY);
		bool mapped = true; for(int i = 0; i < 12; i++) mapped = mapped & (r.ip[i] == (i < 10 ? 0 : 0xff));
		ASSERT(a.canMapToFamily(AF_INET) == mapped, "only IPv4-mapped addresses convert"); ASSERT(a.setFamily(AF_INET), "convert");
		Ref q = r; q.fam = AF_INET; if(mapped) memcpy(q.ip, r.ip + 12, 4); else memset(q.ip, 0, 4); same(a, q, "converted address"); 
		struct sockaddr_in bogus; memset(&bogus, 0, sizeof bogus); bogus.sin_family = AF_UNIX; Address c; ASSERT(!c.setSockaddr((struct sockaddr *)&bogus) && !c.setSockaddr(nullptr) && c.getFamily() == 0 && c.getEncodedLength() == 0, "unsupported socket addresses are rejected"); uint8_t none[1]; ASSERT(c.encode(none) == 0 && c.encode().empty(), "an unset address has no encoding");
		sym_reach("unmap"); break;
	}
	}
}
