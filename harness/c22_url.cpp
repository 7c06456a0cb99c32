// C22: URLs and query strings
#include "pbt.hpp"
#include <core/http/http.hpp>
using namespace pbt; using namespace Lambda;
typedef std::vector<std::pair<std::string, std::string>> Pairs;

static std::string lower(std::string t) { for (auto& c : t) if (c >= 'A' && c <= 'Z') c += 32; return t; }
static bool mixed(const std::string& t) { return lower(t) != t; }
// bytes allowed in a component: printable ASCII and high bytes minus the excluded ones
static std::string part(Src& s, const char* not_, size_t min, size_t max) {
	std::string a; for (int c = 33; c < 256; c++) if (c != 127 && !strchr(not_, c)) a += (char)c;
	std::string ab = "abzAZ019-._~%+"; std::string pun; for (auto c : std::string("?=&#:@/[]{}!$'()*,;|\\^\"<>")) if (!strchr(not_, c)) pun += c;
	size_t n = min + s.len(max - min); std::string o;
	int mode = s.weighted({ 3, 2, 1 }); auto cased = mode == 0 ? ab : mode == 1 ? ab + pun + pun : a;
	return s.str(cased, n);
}
struct Comp { std::string proto, user, pass, hostname, port, path, hash; bool query = false; Pairs q; };
static std::string pairs_text(Src& s, const Pairs& q, bool junk) {
	std::string o; size_t k = 0;
	for (auto& e : q) { if (k++) o += "&"; if (junk && s.chance(1, 3)) { o += s.pick({ "", "k", "=v", "k=", "=", "&&" }); o += "&"; } o += e.first + "=" + e.second; }
	if (junk && s.chance(1, 4)) o += s.pick({ "&", "&k", "&=x", "&x=" });
	return o;
}
// pairs as written; the expected parameters are the last pair of every key
static Pairs gen_pairs(Src& s, const char* keynot, const char* firstnot) {
	Pairs q; size_t n = s.count(7); for (size_t i = 0; i < n; i++) { std::string k; if (q.size() && s.chance(1, 6)) { k = s.pick(q).first; for (auto& x : k) if (s.chance(1, 3)) { if (x >= 'a' && x <= 'z') x -= 32; else if (x >= 'A' && x <= 'Z') x += 32; } } else k = part(s, i ? keynot : firstnot, 1, 12); q.push_back({ k, part(s, "&#", 1, s.chance(1, 20) ? 3000 : 14) }); }
	return q;
}
static Pairs last(const Pairs& q) { Pairs o; for (auto& e : q) { auto it = std::find_if(o.begin(), o.end(), [&](auto& x) { return lower(x.first) == lower(e.first); }); if (it == o.end()) o.push_back(e); else it->second = e.second; } return o; }
static void expect(Case& c, const char* what, const std::string& got, const std::string& want) { c.checkf(got == want, [&] { return std::string(what) + " is " + show(got) + ", expected " + show(want); }); }
static void check_query(Case& c, const HTTP::URLSearchParams& sp, const Pairs& q, const char* where, bool exact) {
	for (auto& e : q) {
		for (auto& k : { e.first, lower(e.first), [&] { auto u = e.first; for (auto& x : u) if (x >= 'a' && x <= 'z') x -= 32; return u; }() }) {
			c.checkf(sp.has(k), [&] { return std::string(where) + ": parameter " + show(k) + " not found"; });
			expect(c, where, sp.get(k), e.second);
		}
	}
	if (exact) c.check(sp.size() == q.size() && sp.entries().size() == q.size(), std::string(where) + ": wrong number of parameters");
}
static void same(Case& c, const HTTP::URL& a, const HTTP::URL& b, const char* w) {
	auto f = [&](const char* n, const std::string& x, const std::string& y) { c.checkf(x == y, [&] { return std::string(w) + ": " + n + " " + show(y) + " instead of " + show(x); }); };
	f("protocol", a.protocol, b.protocol); f("username", a.username, b.username); f("password", a.password, b.password); f("host", a.host, b.host); f("hostname", a.hostname, b.hostname); f("port", a.port, b.port); f("path", a.pathname, b.pathname);
	f("fragment", a.hash == "#" ? "" : a.hash, b.hash == "#" ? "" : b.hash); c.check(a.searchParams.entries() == b.searchParams.entries(), std::string(w) + ": different query parameters");
}
static void parts(Src& s, Case& c) {
	Comp k; bool absolute = s.chance(3, 4), creds = false, nocolon = false, slash = true;
	if (absolute) {
		k.proto = s.weighted({ 3, 1 }) == 0 ? s.pick({ "http", "https", "ws", "HTTP", "ftp" }) : s.str("abzAZ09+-.", 1 + s.below(8));
		creds = s.chance(1, 3); if (creds) { k.user = part(s, ":@/?#", s.chance(1, 6) ? 0 : 1, 10); if (!s.chance(1, 5)) k.pass = part(s, "@/?#", s.chance(1, 5) ? 0 : 1, 12); else nocolon = s.flip(); }
		k.hostname = s.chance(1, 10) ? s.pick({ "[::1]", "[2001:db8::5]", "[::]" }) : part(s, ":@/?#[]", 1, 20);
		if (s.chance(1, 3)) k.port = s.flip() ? std::to_string(s.upto(65535)) : std::string(s.pick({ "80", "443", "8080", "8180", "21", "0", "1", "65535", "8443", "3000", "080" }));
		slash = s.chance(5, 6);
	}
	if (slash) {
		k.path = "/" + part(s, "?#", 0, s.chance(1, 20) ? 2000 : 24); k.query = s.flip(); if (k.query) k.q = gen_pairs(s, "=&#", "=&#");
		if (s.chance(1, 3)) k.hash = "#" + part(s, "", 0, 14);
	}
	std::string t = absolute ? k.proto + "://" + (creds ? k.user + (nocolon ? "" : ":" + k.pass) + "@" : "") + k.hostname + (k.port.size() ? ":" + k.port : "") : "";
	bool junk = s.chance(1, 5); t += k.path; if (k.query) t += "?" + pairs_text(s, k.q, junk); t += k.hash; auto all = k.q.size(); k.q = last(k.q);
	c.note("URL " + show(t, 800));
	HTTP::URL u; try { u = s.flip() ? HTTP::URL(t) : t.find('\0') == std::string::npos ? HTTP::URL(t.c_str()) : HTTP::URL(t); } catch (const std::exception& e) { c.fail(std::string("rejected: ") + e.what()); }
	expect(c, "protocol", u.protocol, k.proto); expect(c, "username", u.username, k.user); expect(c, "password", u.password, k.pass);
	expect(c, "host", u.host, k.hostname + (k.port.size() ? ":" + k.port : "")); expect(c, "host name", u.hostname, k.hostname); expect(c, "port", u.port, k.port);
	expect(c, "path", u.pathname, slash ? k.path : "/"); expect(c, "fragment", u.hash == "#" ? "" : u.hash, k.hash == "#" ? "" : k.hash);
	check_query(c, u.searchParams, k.q, "query", !junk);
	if (absolute) {
		std::string h; try { h = u.href(); HTTP::URL again(h); c.note("printed " + show(h, 800)); same(c, u, again, "printed and parsed again"); c.check(again.href() == h, "printing again differs"); } catch (const std::exception& e) { c.fail(std::string("printing: ") + e.what()); }
	}
	HTTP::URL copy = u; same(c, u, copy, "copy");
	c.nontrivial(absolute ? (creds || k.port.size()) && k.q.size() : k.q.size() > 0); if (k.q.size() > 1) c.label("several parameters"); if (all > k.q.size()) c.label("repeated key"); bool qv = false; for (auto& e : k.q) qv |= e.second.find_first_of("?=") != std::string::npos; if (qv) c.label("value with ? or ="); bool mk = false; for (auto& e : k.q) mk |= mixed(e.first); if (mk) c.label("upper-case key");
}
static void query(Src& s, Case& c) {
	int form = s.weighted({ 2, 2, 1 }); bool lead = form == 0 && s.chance(1, 4); auto q = gen_pairs(s, "=&#", form == 0 && !lead ? "=&#?" : "=&#"); bool junk = s.chance(1, 5);
	std::string t = form == 0 ? "" : form == 1 ? "?" : part(s, "?=&#", 1, 20) + "?"; if (lead) t += s.pick({ "&", "flag&", "=v&", "k=&" }); t += pairs_text(s, q, junk); c.note("query " + show(t, 800)); auto all = q.size(); q = last(q); if (all > q.size()) c.label("repeated key");
	HTTP::URLSearchParams sp(t); check_query(c, sp, q, "parsed", !junk);
	auto printed = sp.stringify(); c.note("printed " + show(printed, 800)); HTTP::URLSearchParams again("?" + printed); c.check(again.entries() == sp.entries(), "printed form parses to other parameters");
	HTTP::URLSearchParams none; c.check(none.stringify().empty() && HTTP::URLSearchParams(std::string()).size() == 0, "empty query not empty");
	c.nontrivial(q.size() > 1);
}
static void reject(Src& s, Case& c) {
	std::string t;
	switch (s.weighted({ 1, 1, 1, 1 })) {
		case 0: t = part(s, "/", 0, 30); break;	// no protocol
		case 1: t = "://" + part(s, "", 0, 20); break;	// empty protocol
		case 2: t = std::string(s.pick({ "http", "https", "a" })) + "://" + (s.flip() ? "u:p@" : "") + (s.flip() ? ":" + std::to_string(s.upto(70000)) : "") + s.pick({ "", "/", "/path?x=1", "/://h" }); break;	// no host
		default: t = part(s, "/", 1, 10) + s.pick({ ":", ":/", "/", "//", "/a/b", ":80/x" }); break;
	}
	if (t.size() && t[0] == '/') throw Discard{};
	c.note("text " + show(t)); bool thrown = false;
	try { HTTP::URL u(t); } catch (const std::exception&) { thrown = true; }
	c.check(thrown, "accepted although it has no protocol or no host"); c.nontrivial(t.size() > 2);
}
static void fuzz(Src& s, Case& c) {
	std::string t; size_t n = s.count(20); for (size_t i = 0; i < n; i++) switch (s.weighted({ 4, 2, 1 })) { case 0: t += s.pick({ "http", "://", "/", "?", "#", "=", "&", "@", ":", "[", "]", "a", "B", " ", "%41", "\t", "host" }); break; case 1: t += s.bytestr(s.len(10)); break; default: t += s.dictstr("http://"); }
	c.note("text " + show(t, 600)); bool ok = false;
	try { HTTP::URL u(t); ok = true; try { HTTP::URL v(u.href()); } catch (const std::runtime_error&) {} } catch (const std::runtime_error&) {}
	HTTP::URLSearchParams sp(t); for (auto& e : sp.entries()) { c.check(e.first.size() && e.second.size(), "empty key or value"); c.check(sp.has(e.first) && sp.get(e.first) == e.second, "listed parameter cannot be found by its key"); }
	c.nontrivial(ok);
}
int main(int argc, char** argv) {
	return run(argc, argv, "C22", {
		{ "parts", parts, 250000, 3000000, "URLs assembled from generated components (credentials, IPv6 hosts, ports, long paths, queries whose values hold '?' and '=', junk items, fragments); parse vs the components, print, parse again; non-trivial: absolute with credentials or port and a query, or a path with a query", 8, 20 },
		{ "query", query, 250000, 3000000, "query strings with and without prefix vs the pairs they were made of; non-trivial: at least two pairs", 8, 15 },
		{ "reject", reject, 200000, 2000000, "texts without protocol or host must be refused with an error; non-trivial: longer than two bytes", 8, 10 },
		{ "fuzz", fuzz, 300000, 4000000, "arbitrary texts made of URL delimiters and bytes: no crash, listed parameters can be found; non-trivial: parses", 8, 15, 60, true },
	});
}
