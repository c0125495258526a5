// C07: URI parsing
#include "sym.h"
#include "rtmfp/URIParse.hpp"
#include <cstring>
using namespace com::zenomt;
typedef std::string S;
static bool eq(const S &a, const S &b) { if(a.size() != b.size()) return false; bool r = true; for(size_t i = 0; i < a.size(); i++) r = r & (a[i] == b[i]); return r; }
static bool isAlpha(char c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')); }
static bool isDig(char c) { return (c >= '0') & (c <= '9'); }
static size_t upTo(const S &s, size_t from, const char *stops) { for(; from < s.size(); from++) { bool hit = false; for(const char *p = stops; *p; p++) hit = hit | (s[from] == *p); if(hit) break; } return from; }
// an independent left-to-right splitter
struct Ref {
	S schemePart, scheme, hier, queryPart, query, fragPart, frag, authPart, auth, path, uiPart, ui, user, pwPart, pw, hostinfo, host, port;
	Ref(const S &t)
	{
		size_t p = 0, e;
		if(!t.empty() && isAlpha(t[0])) { e = upTo(t, 0, ":/?#"); if(e < t.size() && t[e] == ':') { scheme = t.substr(0, e); schemePart = t.substr(0, e + 1); p = e + 1; } }
		e = upTo(t, p, "?#"); hier = t.substr(p, e - p); p = e;
		if(p < t.size() && t[p] == '?') { e = upTo(t, p, "#"); queryPart = t.substr(p, e - p); query = queryPart.substr(1); p = e; }
		if(p < t.size()) { fragPart = t.substr(p); frag = fragPart.substr(1); }
		path = hier;
		if(hier.size() >= 2 && hier[0] == '/' && hier[1] == '/') { e = upTo(hier, 2, "/"); authPart = hier.substr(0, e); auth = authPart.substr(2); path = hier.substr(e); }
		hostinfo = auth;
		e = upTo(auth, 0, ":@"); size_t at = e; if(e < auth.size() && auth[e] == ':') at = upTo(auth, e + 1, "@");
		if(at < auth.size()) { uiPart = auth.substr(0, at + 1); ui = auth.substr(0, at); user = auth.substr(0, e); if(e < at) { pwPart = auth.substr(e, at - e); pw = pwPart.substr(1); } hostinfo = auth.substr(at + 1); }
		// [literal]? name? (:digits)?  or nothing at all
		size_t h = 0; S lit; bool bracket = false;
		if(!hostinfo.empty() && hostinfo[0] == '[') { size_t c = upTo(hostinfo, 1, "]"); if(c < hostinfo.size()) { bracket = true; lit = hostinfo.substr(1, c - 1); h = c + 1; } }
		for(int attempt = 0; attempt < 2; attempt++)
		{
			size_t q = upTo(hostinfo, h, ":"); bool ok = q == hostinfo.size();
			if(!ok) { size_t d = q + 1; while(d < hostinfo.size() && isDig(hostinfo[d])) d++; ok = d == hostinfo.size() && d > q + 1; if(ok) port = hostinfo.substr(q + 1); }
			if(ok) { host = bracket && !lit.empty() ? lit : hostinfo.substr(h, q - h); return; }
			if(!bracket) return;
			bracket = false; lit = S(); h = 0;
		}
	}
};
static S low(const S &s) { S r; for(size_t i = 0; i < s.size(); i++) { char c = s[i]; r.push_back((char)(c + 32 * ((c >= 'A') & (c <= 'Z')))); } return r; }
static S symText(unsigned max) { unsigned n = sym_choice("len", max + 1); char b[24]; sym_bytes("text", b, n); return S(b, n); }

static void parse(unsigned max)
{
	static const char *pre[] = {"", "a:", "//", "h://", "s://u@", "rtmfp://h", "//[", "/"};
	S t = pre[sym_choice("prefix", 8)]; t += symText(max);
	bool breaks = false; for(size_t i = 0; i < t.size(); i++) breaks = breaks | (t[i] == '\n') | (t[i] == '\r');
	URIParse u(t);
	ASSERT(eq(u.uri, t), "the text itself is kept");
	if(breaks) { sym_reach("linebreak"); return; }
	Ref r(t);
	ASSERT(eq(u.schemePart + u.hierpart + u.queryPart + u.fragmentPart, t), "the parts re-concatenate to the text");
	ASSERT(eq(u.authorityPart + u.path, u.hierpart) && eq(u.userinfoPart + u.hostinfo, u.authority), "authority and path, user info and host re-concatenate");
	ASSERT(eq(u.schemePart, r.schemePart) && eq(u.scheme, r.scheme) && eq(u.canonicalScheme, low(r.scheme)), "scheme");
	ASSERT(eq(u.hierpart, r.hier) && eq(u.queryPart, r.queryPart) && eq(u.query, r.query) && eq(u.fragmentPart, r.fragPart) && eq(u.fragment, r.frag), "query and fragment");
	ASSERT(eq(u.authorityPart, r.authPart) && eq(u.authority, r.auth) && eq(u.path, r.path), "authority and path");
	ASSERT(eq(u.userinfoPart, r.uiPart) && eq(u.userinfo, r.ui) && eq(u.user, r.user) && eq(u.passwordPart, r.pwPart) && eq(u.password, r.pw), "user info");
	ASSERT(eq(u.hostinfo, r.hostinfo) && eq(u.host, r.host) && eq(u.port, r.port), "host and port");
	S cs = low(r.scheme), ep = r.port;
	if(ep.empty() && !r.hostinfo.empty()) { if(cs == "http" || cs == "ws") ep = "80"; else if(cs == "https" || cs == "wss" || cs == "rtmps") ep = "443"; else if(cs == "rtmfp" || cs == "rtmp") ep = "1935"; }
	ASSERT(eq(u.effectivePort, ep), "effective port");
	ASSERT(eq(u.origin, r.scheme.empty() || r.hostinfo.empty() ? S() : r.scheme + "://" + r.hostinfo), "origin");
	ASSERT(eq(u.publicUri, r.schemePart + (r.authPart.empty() ? S() : S("//") + r.hostinfo) + r.path + r.queryPart), "public URI omits user info and fragment");
	sym_reach("parse");
}
// RFC 3986 5.2.4 on the index of the next unread character instead of a shrinking buffer
static S refDots(const S &in)
{
	S out; size_t p = 0; auto rest = [&] (const char *w) { size_t n = strlen(w); if(in.size() - p < n) return false; for(size_t i = 0; i < n; i++) if(in[p + i] != w[i]) return false; return true; };
	auto whole = [&] (const char *w) { return in.size() - p == strlen(w) && rest(w); };
	auto pop = [&] { size_t k = out.size(); while(k > 0 && out[k - 1] != '/') k--; out.resize(k ? k - 1 : 0); };
	bool slash = false; // a "/" standing before position p
	while(p < in.size() || slash)
	{
		if(slash)
		{
			// input is "/" + rest
			if(rest("./")) { p += 1; slash = false; continue; }
			if(whole(".")) { p += 1; continue; }
			if(rest("../")) { p += 2; pop(); slash = false; continue; }
			if(whole("..")) { p += 2; pop(); continue; }
			out.push_back('/'); slash = false; size_t e = upTo(in, p, "/"); out += in.substr(p, e - p); p = e; continue;
		}
		if(rest("../")) p += 3; else if(rest("./")) p += 2; else if(whole(".") || whole("..")) p = in.size();
		else if(in[p] == '/') { p++; slash = true; }
		else { size_t e = upTo(in, p, "/"); out += in.substr(p, e - p); p = e; }
	}
	return out;
}
static void dots(unsigned max)
{
	S t = symText(max); for(size_t i = 0; i < t.size(); i++) ASSUME(t[i] != 0);
	ASSERT(eq(URIParse::removeDotSegments(t), refDots(t)), "dot segments are removed as RFC 3986 says"); sym_reach("dots");
}
static int dig(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static void percent(unsigned max)
{
	S t = symText(max); S w; bool ok = true;
	for(size_t i = 0; i < t.size() && t[i]; i++)
	{
		if(t[i] != '%') { w.push_back(t[i]); continue; }
		int h = i + 1 < t.size() ? dig((unsigned char)t[i + 1]) : -1, l = h >= 0 && i + 2 < t.size() ? dig((unsigned char)t[i + 2]) : -1;
		if(h < 0 || l < 0 || h * 16 + l == 0) { ok = false; break; }
		w.push_back((char)(h * 16 + l)); i += 2;
	}
	if(!ok) w = S();
	ASSERT(eq(URIParse::percentDecode(t), w), "percent decoding"); ASSERT(eq(URIParse::safePercentDecode(t), w.empty() ? t : w), "safe percent decoding"); sym_reach(ok ? "percent" : "percent.bad");
}
static void splitting(unsigned max)
{
	S t = symText(max); unsigned k = sym_choice("max", 4); bool two = sym_bool("two");
	std::vector<S> v = two ? URIParse::split(t, S("/."), k) : URIParse::split(t, '/', k);
	std::vector<S> w; S cur; for(size_t i = 0; i < t.size(); i++) { bool sep = (t[i] == '/') | (two & (t[i] == '.')); if(sep && (k == 0 || w.size() + 1 < k)) { w.push_back(cur); cur = S(); } else cur.push_back(t[i]); }
	w.push_back(cur); ASSERT(v.size() == w.size(), "number of pieces"); for(size_t i = 0; i < w.size(); i++) ASSERT(eq(v[i], w[i]), "pieces"); ASSERT(URIParse::split(t, S(), k).empty(), "no separators"); sym_reach("split");
}
static void relative(unsigned max)
{
	static const char *bases[] = {"a://h/b/c?q#f", "a://h", "a:b", "/b/c"};
	S base = bases[sym_choice("base", 4)]; S t = symText(max); for(size_t i = 0; i < t.size(); i++) ASSUME((t[i] != 0) & (t[i] != '\n') & (t[i] != '\r'));
	Ref B(base), R(t); S want;
	if(!R.schemePart.empty()) want = R.schemePart + R.authPart + refDots(R.path) + R.queryPart;
	else if(!R.authPart.empty()) want = B.schemePart + R.authPart + refDots(R.path) + R.queryPart;
	else if(R.path.empty()) want = B.schemePart + B.authPart + B.path + (R.queryPart.empty() ? B.queryPart : R.queryPart);
	else if(R.path[0] == '/') want = B.schemePart + B.authPart + refDots(R.path) + R.queryPart;
	else { S m; if(!B.authPart.empty() && B.path.empty()) m = S("/") + R.path; else { size_t k = B.path.size(); while(k > 0 && B.path[k - 1] != '/') k--; m = B.path.substr(0, k) + R.path; } want = B.schemePart + B.authPart + refDots(m) + R.queryPart; }
	want += R.fragPart;
	ASSERT(eq(URIParse(base).transformRelativeReference(t), want), "relative references resolve as RFC 3986 says"); sym_reach("relative");
}
extern "C" void sym_main()
{
	switch(sym_part(5))
	{
	case 0: parse(sym_param("parse", 4)); break;
	case 1: dots(sym_param("dots", 6)); break;
	case 2: percent(sym_param("percent", 5)); break;
	case 3: splitting(sym_param("split", 4)); break;
	default: relative(sym_param("rel", 2)); break;
	}
}
