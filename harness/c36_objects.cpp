// C36: body, request and response objects hold exactly what they were given
#include "pbt.hpp"
#include <core/http/http.hpp>
using namespace pbt; using namespace Lambda::HTTP;
typedef std::vector<uint8_t> Bytes;
static Bytes bytes(const std::string& t) { return Bytes(t.begin(), t.end()); }
static std::string content(Src& s) { switch (s.weighted({ 1, 3, 3, 1 })) { case 0: return ""; case 1: return s.str("abz019 \n", 1 + s.below(20)); case 2: return s.bytestr(s.len(200)); default: return s.bytestr(s.len(9000)); } }
// text a C string can carry
static std::string cstr(Src& s) { auto t = content(s); return t.substr(0, t.find('\0')); }
static void holds(Case& c, const BodyBuffer& b, const std::string& want, const std::string& w) {
	auto where = [&](const std::string& g) { size_t i = 0; while (i < g.size() && i < want.size() && g[i] == want[i]) i++; return " has " + std::to_string(g.size()) + " bytes, expected " + std::to_string(want.size()) + ", first difference at " + std::to_string(i); };
	c.checkf(b.buffer() == bytes(want), [&] { auto& v = b.buffer(); return w + ": buffer()" + where(std::string(v.begin(), v.end())); });
	c.checkf(b.text() == want, [&] { return w + ": text()" + where(b.text()); }); c.checkf(b.size() == want.size(), [&] { return w + ": size() " + std::to_string(b.size()) + ", expected " + std::to_string(want.size()); });
	std::string conv = b; c.checkf(conv == want, [&] { return w + ": conversion to text" + where(conv); });
}
static BodyBuffer make(Src& s, std::string& want, std::string& how) {
	switch (s.below(6)) {
		case 0: want = content(s); how = "string"; return BodyBuffer(want);
		case 1: want = content(s); how = "bytes"; return BodyBuffer(bytes(want));
		case 2: want = cstr(s); how = "text"; return BodyBuffer(want.c_str());
		case 3: want = ""; how = "null text"; return BodyBuffer(static_cast<const char*>(nullptr));
		case 4: want = ""; how = "nothing"; return BodyBuffer();
		default: { want = content(s); how = "copy"; BodyBuffer b(want), x(b); b = std::string("changed afterwards"); return x; }
	}
}
static void body(Src& s, Case& c) {
	constexpr int N = 3; BodyBuffer b[N]; std::string m[N]; size_t ops = 1 + s.count(14); bool zero = false, copied = false, assigned = false;
	for (size_t i = 0; i < ops; i++) {
		int a = s.below(N), o = s.below(N); std::string log = "object " + std::to_string(a) + ": ";
		switch (s.below(9)) {
			case 0: { std::string how; auto x = make(s, m[a], how); b[a] = x; log += "made from " + how; } break;
			case 1: m[a] = content(s); b[a] = m[a]; log += "= string"; assigned = true; break;
			case 2: m[a] = content(s); b[a] = bytes(m[a]); log += "= bytes"; assigned = true; break;
			case 3: m[a] = cstr(s); b[a] = m[a].c_str(); log += "= text"; assigned = true; break;
			case 4: { b[a] = static_cast<const char*>(nullptr); if (b[a].size() == 0) m[a].clear(); log += "= null text"; } break;	// kept or emptied, nothing else
			case 5: b[a] = b[o]; m[a] = m[o]; log += "= object " + std::to_string(o); copied |= a != o; break;
			case 6: { BodyBuffer x(b[o]); b[a] = x; m[a] = m[o]; x = "not this"; log += "= copy of object " + std::to_string(o); copied |= a != o; } break;
			case 7: { BodyBuffer x(b[a]); BodyBuffer y(std::move(x)); holds(c, y, m[a], "moved copy"); b[a] = std::move(y); log += "moved around"; } break;
			default: { std::string t = b[o].text(); b[a] = t; m[a] = m[o]; log += "= text of object " + std::to_string(o); } break;
		}
		zero |= m[a].find('\0') != std::string::npos; c.note(log + " " + show(m[a], 60)); for (int j = 0; j < N; j++) holds(c, b[j], m[j], "object " + std::to_string(j));
	}
	c.nontrivial(ops > 2 && (zero || copied || assigned)); if (zero) c.label("holds zero bytes"); if (copied) c.label("copied"); if (assigned) c.label("assigned");
}
static Headers headers(Src& s, std::vector<KVpair>& want) { Headers h; size_t n = s.count(5); for (size_t i = 0; i < n; i++) { KVpair p(s.pick({ "x-a", "x-b", "accept", "set-cookie" }), s.str("abz019 =;", 1 + s.below(12))); h.append(p.first, p.second); want.push_back(p); } std::stable_sort(want.begin(), want.end(), [](auto& a, auto& b) { return a.first < b.first; }); return h; }
static void messages(Src& s, Case& c) {
	std::string want, how; auto b = make(s, want, how); std::vector<KVpair> hw; auto h = headers(s, hw); int form = s.below(6); bool rq = s.flip(); c.note(std::string(rq ? "request" : "response") + " form " + std::to_string(form) + " body from " + how + " " + show(want, 60) + " headers " + std::to_string(hw.size()));
	if (rq) {
		std::string path = "/" + s.str("abz019.-_/", s.below(12)), key = s.str("abz", 1 + s.below(5)), val = s.str("abz019", 1 + s.below(6)); bool full = s.flip(); std::string url = (full ? "http://h.example" : "") + path + "?" + key + "=" + val;
		std::string ms = s.pick({ "GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "TRACE", "PATCH", "CONNECT" }); Method meth(ms); bool hm = form == 2 || form == 4 || form == 5, hh = form == 3 || form == 5, hb = form >= 4;
		auto check = [&](const Request& r, const std::string& w) {
			c.check(r.method.toString() == (hm ? ms : "GET"), w + ": method is " + r.method.toString()); c.check(r.headers.entries() == (hh ? hw : std::vector<KVpair>{}), w + ": headers differ"); holds(c, r.body, hb ? want : "", w);
			if (form) { c.check(r.url.pathname == path, w + ": path is " + show(r.url.pathname)); c.check(r.url.searchParams.get(key) == val && r.url.searchParams.size() == 1, w + ": query parameters differ"); c.check(r.url.host == (full ? "h.example" : ""), w + ": host is " + show(r.url.host)); }
		};
		std::optional<Request> r; switch (form) { case 0: r.emplace(); break; case 1: r.emplace(url); break; case 2: r.emplace(url, meth); break; case 3: r.emplace(url, h); break; case 4: r.emplace(url, meth, b); break; default: r.emplace(url, meth, h, b); }
		check(*r, "request"); holds(c, b, want, "the body it was made from"); Request cp(*r); check(cp, "copy"); r->body = "changed"; r->headers.set("x-a", "changed"); r->method = Method("TRACE"); r->url = URL("/changed"); check(cp, "copy after the original changed"); Request mv(std::move(cp)); check(mv, "moved"); *r = mv; check(*r, "assigned");
	} else {
		bool hs = form >= 1 && form <= 4, hh = form == 2 || form == 4, hb = form >= 3; uint32_t code = s.pick({ 200, 201, 204, 302, 400, 404, 500, 503 }); bool own = s.flip(); std::string text = s.str("abz ", 1 + s.below(10)); Status st = own ? Status(code, text) : Status(code); if (!own) text = Status(code).text();
		auto check = [&](const Response& r, const std::string& w) {
			c.check(r.status.code() == (hs ? code : 200), w + ": status is " + std::to_string(r.status.code())); c.check(r.status.text() == (hs ? text : "OK"), w + ": reason is " + show(r.status.text())); c.check(r.headers.entries() == (hh ? hw : std::vector<KVpair>{}), w + ": headers differ"); holds(c, r.body, hb ? want : "", w);
		};
		std::optional<Response> r; switch (form) { case 0: r.emplace(); break; case 1: r.emplace(st); break; case 2: r.emplace(st, h); break; case 3: r.emplace(st, b); break; case 4: r.emplace(st, h, b); break; default: r.emplace(b); }
		check(*r, "response"); holds(c, b, want, "the body it was made from"); Response cp(*r); check(cp, "copy"); r->body = "changed"; r->headers.set("x-a", "changed"); r->status = 418; check(cp, "copy after the original changed"); Response mv(std::move(cp)); check(mv, "moved"); *r = mv; check(*r, "assigned");
	}
	c.nontrivial(form >= 2 && (want.size() || hw.size())); c.label(rq ? "request" : "response"); if (want.find('\0') != std::string::npos) c.label("body with zero bytes");
}
int main(int argc, char** argv) {
	return run(argc, argv, "C36", {
		{ "body", body, 250000, 3000000, "histories of making, assigning (string, bytes, C text), copying and moving over three body objects vs a byte-string model, all four accessors compared after every step; non-trivial: at least three steps with a copy, an assignment or zero bytes", 8, 15 },
		{ "messages", messages, 300000, 4000000, "every constructor of Request and Response over generated parts, then copies, moves and assignment, with the original changed in between; non-trivial: a form with several parts and some content", 8, 15 },
	});
}
