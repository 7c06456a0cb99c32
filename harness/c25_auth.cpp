// C25: basic authentication headers
#include "pbt.hpp"
#include <core/http/http.hpp>
using namespace pbt; using namespace Lambda::HTTP;
static std::string b64(const std::string& d, bool pad = true) {
	static const char* T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string o; size_t i = 0;
	for (; i + 2 < d.size(); i += 3) { unsigned v = (uint8_t)d[i] << 16 | (uint8_t)d[i + 1] << 8 | (uint8_t)d[i + 2]; for (int k = 18; k >= 0; k -= 6) o += T[v >> k & 63]; }
	if (d.size() - i == 1) { unsigned v = (uint8_t)d[i] << 16; o += T[v >> 18 & 63]; o += T[v >> 12 & 63]; if (pad) o += "=="; }
	if (d.size() - i == 2) { unsigned v = (uint8_t)d[i] << 16 | (uint8_t)d[i + 1] << 8; for (int k = 18; k > 0; k -= 6) o += T[v >> k & 63]; if (pad) o += "="; }
	return o;
}
static std::string scheme(Src& s) { std::string t = "basic"; for (auto& c : t) if (s.flip()) c -= 32; return t; }
static std::string word(Src& s, bool colon) {
	std::string t; switch (s.weighted({ 3, 1, 1, 1 })) { case 0: t = s.str("abz019 .@", s.below(14)); break; case 1: t = ""; break; case 2: t = s.bytestr(s.len(200)); break; default: t = s.str("ab:", s.below(10)); }
	if (colon && s.chance(1, 3)) t += s.pick({ ":", "::", ":x", " :" });
	if (!colon) t.erase(std::remove(t.begin(), t.end(), ':'), t.end()); return t;
}
static void valid(Src& s, Case& c) {
	auto u = word(s, false), p = word(s, true); auto h = scheme(s) + std::string(s.chance(1, 8) ? 2 + s.below(3) : 1, ' ') + b64(u + ":" + p); c.note("user " + show(u) + " password " + show(p) + " header " + show(h));
	auto r = Auth::parseBasicAuth(h); c.check(r.has_value(), "no credentials found");
	c.checkf(r->user == u, [&] { return "user is " + show(r->user); }); c.checkf(r->password == p, [&] { return "password is " + show(r->password); });
	c.nontrivial(p.empty() || p.find(':') != std::string::npos || u.empty()); if (p.empty()) c.label("empty password"); if (p.find(':') != std::string::npos) c.label("colon in password"); if (u.empty()) c.label("empty user");
}
static void invalid(Src& s, Case& c) {
	std::string h, good = b64("admin:secret");
	switch (s.weighted({ 2, 2, 2, 1 })) {
		case 0: h = s.str("abcdefghijklmnop", 1 + s.below(8)) + s.pick({ "basic ", " basic ", "Basic ", " " }) + good; { std::string l = h; for (auto& x : l) x |= 32; if (l.compare(0, 6, "basic ") == 0) throw Discard{}; } break;	// another scheme
		case 1: h = scheme(s) + " " + b64(word(s, false)); break;	// no colon
		case 2: h = scheme(s) + s.pick({ "", " ", "  ", "\t" }); break;	// nothing encoded
		default: h = std::string(s.pick({ "Bearer ", "Digest ", "Negotiate ", "basically ", "x-basic ", "\"basic\" " })) + (s.flip() ? good : "username=basic, " + good); break;
	}
	c.note("header " + show(h)); bool none = true; try { none = !Auth::parseBasicAuth(h).has_value(); } catch (const std::exception&) {} c.check(none, "credentials found in a header that carries none"); c.nontrivial(h.size() > 6);
}
static void fuzz(Src& s, Case& c) {
	std::string h = s.chance(3, 4) ? scheme(s) + " " : ""; bool junk = false; if (s.chance(1, 3)) h += b64(s.bytestr(s.len(20)) + ":" + s.bytestr(s.len(20)), s.flip()); size_t n = s.count(5); for (size_t i = 0; i < n; i++) switch (s.below(4)) { case 0: h += s.str("abcXYZ019+/", s.len(20)); break; case 1: h += s.pick({ "=", "==", " ", "basic", "Basic ", "\t" }); break; case 2: h += b64(s.bytestr(s.len(12)), s.flip()); break; default: h += s.bytestr(s.len(6)); junk = true; }
	c.note("header " + show(h)); bool some = false; try { some = Auth::parseBasicAuth(h).has_value(); } catch (const std::exception&) {} c.nontrivial(some);
}
int main(int argc, char** argv) {
	return run(argc, argv, "C25", {
		{ "valid", valid, 300000, 3000000, "headers a standard client makes for generated users and passwords, any scheme case; non-trivial: empty or colon-bearing parts", 8, 15 },
		{ "invalid", invalid, 300000, 3000000, "other schemes, missing pair, missing colon: no credentials; non-trivial: longer than the scheme name", 8, 15 },
		{ "fuzz", fuzz, 300000, 3000000, "arbitrary header texts: no crash; non-trivial: yields credentials", 8, 15 },
	});
}
