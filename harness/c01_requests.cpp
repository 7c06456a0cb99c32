// C01: every request reaches the handler once, in order and intact
#include "net.hpp"
using namespace pbt; using namespace net; namespace L = Lambda;
struct Seen { L::HTTP::Request rq; std::string ctx; };
static std::mutex mtx; static std::vector<Seen> seen; static net::Server srv, small; static std::atomic<double> delay{0};
static const std::string VIS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'()*+,-./:;<=>?@[]^_`{|}~\"\\";
static L::HandlerResponse handle(const L::HTTP::Request& rq, const L::RequestContext& cx) { size_t n; { std::lock_guard<std::mutex> l(mtx); seen.push_back({ rq, cx.contextID }); n = seen.size(); } if (delay > 0) nap(delay); (void)n; L::HTTP::Response r(200); r.headers.set("content-type", "application/octet-stream"); r.body = rq.headers.get("x-case"); return r; }
static void init() { quiet(); auto c = config(); srv = start(c, handle); c.service.useThreadList = true; small = start(c, handle); }
static std::string b64(const std::string& d) { static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string o; size_t i = 0; for (; i < d.size(); i += 3) { uint32_t v = (uint8_t)d[i] << 16 | (i + 1 < d.size() ? (uint8_t)d[i + 1] << 8 : 0) | (i + 2 < d.size() ? (uint8_t)d[i + 2] : 0); o += A[v >> 18]; o += A[v >> 12 & 63]; o += i + 1 < d.size() ? A[v >> 6 & 63] : '='; o += i + 2 < d.size() ? A[v & 63] : '='; } return o; }
struct Req { std::string method, path, host, user, pass, body, id, wire; bool auth = false, hosted = false, close = false; std::vector<std::pair<std::string, std::string>> params; std::map<std::string, std::vector<std::string>> headers; size_t hdrend = 0; };
static std::string recase(Src& s, std::string k) { unsigned m = s.below(3); for (size_t i = 0; i < k.size(); i++) k[i] = m == 0 ? k[i] : m == 1 ? toupper(k[i]) : (i == 0 || k[i - 1] == '-') ? toupper(k[i]) : k[i]; return k; }
static std::string value(Src& s) { switch (s.weighted({ 5, 2, 1, 1 })) { case 0: return s.pick({ "x", "text/html, */*;q=0.8", "a=b; c=d", "gzip", "0", "Mon, 01 Jan 2024 00:00:00 GMT", "\"q\"", "a: b", ":", "close", "identity" }); case 1: { auto v = s.str(VIS, 1 + s.below(40)); return v; } case 2: { std::string v = s.str(VIS, 1 + s.below(10)) + s.pick({ " ", "  ", "\t", " : " }) + s.str(VIS, 1 + s.below(10)); return v; } default: return s.str(VIS, s.pick({ 100u, 2000u, 2048u, 4100u })) + "\xc3\xa9"; } }
static std::string bodytext(Src& s, bool big) {
	switch (s.weighted({ 5, 3, 2, 2, big ? 2u : 0u })) { case 0: return ""; case 1: return s.bytestr(1 + s.below(200)); case 2: return s.pick({ "\r\n\r\n", "GET / HTTP/1.1\r\nx-case: fake\r\n\r\n", "\r\n", "\n", "POST /x HTTP/1.1\r\ncontent-length: 3\r\n\r\nabc", "0\r\n\r\n", "\r" }); case 3: return s.bytestr(s.len(6000)); default: return s.bytestr(s.chance(1, 20) ? s.pick({ 1000000u, 1048576u, 3000000u }) : s.pick({ 2047u, 2048u, 2049u, 4096u, 65535u, 65536u, 65537u, 131072u, 131073u, 196608u, 262144u, 300000u })); }
}
static Req request(Src& s, const std::string& id, bool big) {
	Req r; r.id = id; r.method = s.pick({ "GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "TRACE", "PATCH", "CONNECT" }); r.path = "/"; static const std::string P = "abcdefghijklmnopqrstuvwxyz0123456789-._~!$&'()*+,;=:@%/";
	switch (s.weighted({ 2, 3, 2, 1 })) { case 0: break; case 1: r.path += s.pick({ "a", "index.html", "a/b/c", "%20x", "a//b", "%3f%23", "../x", "a;b=c", "*" }); break; case 2: r.path += s.str(P, s.below(60)); break; default: r.path += s.str(P, s.pick({ 500u, 2040u, 2050u, 4000u })); }
	std::string q; if (s.flip()) { std::set<std::string> used; size_t n = 1 + s.below(5); static const std::string Q = "abcdefghijklmnopqrstuvwxyz0123456789-._~%+"; for (size_t i = 0; i < n; i++) { std::string k = s.str(Q, 1 + s.below(6)), v = s.str(Q + "=?/:@ABC", 1 + s.below(12)); if (!used.insert(k).second) continue; r.params.push_back({ k, v }); q += (q.empty() ? "?" : "&") + k + "=" + v; } } else if (s.chance(1, 8)) q = "?"; if (s.chance(1, 10)) q += std::string("#") + s.pick({ "frag", "", "a=b&c=d", "x?y=z", "/other/path" });
	std::vector<std::string> lines; auto add = [&](const std::string& k, const std::string& v) { r.headers[k].push_back(v); lines.push_back(recase(s, k) + ":" + s.pick({ " ", "", "  ", "\t", " \t " }) + v + s.pick({ "", "", " ", "\t" })); };
	add("x-case", id); if ((r.hosted = s.chance(5, 6))) { r.host = s.pick({ "localhost", "localhost:8080", "example.com", "127.0.0.1:80", "[::1]", "[::1]:8180", "EXAMPLE.org:1" }); add("host", r.host); }
	if (s.chance(1, 4)) { r.auth = true; static const std::string U = VIS + " \xc3\xa9"; r.user = s.str("abcXYZ019._-@ ", (s.chance(1, 8) ? 0 : 1 + s.below(10))); r.pass = s.str(U, s.chance(1, 12) ? s.pick({ 255u, 1000u, 3000u, 9000u }) : s.below(12)); add("authorization", std::string(s.pick({ "Basic ", "basic ", "BASIC " })) + b64(r.user + ":" + r.pass)); } else if (s.chance(1, 12)) add("authorization", s.pick({ "Bearer abc.def", "Digest username=\"a\", realm=\"b\"", "Negotiate YQ==", "token" }));
	size_t n = s.weighted({ 3, 5, 1 }); n = n == 0 ? 0 : n == 1 ? 1 + s.below(6) : s.chance(1, 8) ? 100 + s.below(300) : 20 + s.below(60); for (size_t i = 0; i < n; i++) { std::string k = s.pick({ "accept", "user-agent", "x-a", "x-b", "cookie", "x-forwarded-for", "accept-language", "etag", "x-long-name-with-many-dashes-1", "content-type", "origin", "expect", "upgrade", "trailer", "x-http-method-override", "via" }); add(k, value(s)); }
	r.body = bodytext(s, big); if (r.body.size() || s.chance(1, 3)) { auto pad = s.chance(1, 10) ? std::string("0") : ""; add("content-length", pad + std::to_string(r.body.size())); }
	if (s.chance(1, 6)) add("connection", s.pick({ "keep-alive", "Keep-Alive", "keep-alive, x", "TE" }));
	for (size_t i = lines.size(); i > 1; i--) if (s.chance(1, 3)) { // shuffle while keeping the order of repeated headers
		auto k1 = lines[i - 1].substr(0, lines[i - 1].find(':')), k2 = lines[i - 2].substr(0, lines[i - 2].find(':')); if (!ieq(k1, k2)) std::swap(lines[i - 1], lines[i - 2]); }
	r.wire = r.method + " " + r.path + q + " HTTP/1.1\r\n"; for (auto& l : lines) r.wire += l + "\r\n"; r.wire += "\r\n"; r.hdrend = r.wire.size(); r.wire += r.body; return r;
}
static void same(Case& c, const Req& w, const L::HTTP::Request& g, uint16_t port) {
	auto eq = [&](const char* f, const std::string& a, const std::string& b) { c.checkf(a == b, [&] { return "request " + w.id + ": " + f + " is " + show(b, 100) + " instead of " + show(a, 100); }); };
	eq("method", w.method, g.method.toString()); eq("path", w.path, g.url.pathname); auto bt = g.body.buffer(); eq("body", w.body, std::string(bt.begin(), bt.end()));
	c.checkf(g.url.searchParams.entries().size() == w.params.size(), [&] { return "request " + w.id + ": " + std::to_string(g.url.searchParams.entries().size()) + " query parameters instead of " + std::to_string(w.params.size()); }); for (auto& p : w.params) eq("query parameter", p.second, g.url.searchParams.get(p.first));
	size_t n = 0; for (auto& h : w.headers) { n += h.second.size(); auto v = g.headers.getAll(h.first); c.checkf(v == h.second, [&] { return "request " + w.id + ": header " + h.first + " has " + std::to_string(v.size()) + " values (first " + show(v.size() ? v[0] : "", 80) + ") instead of " + std::to_string(h.second.size()) + " (first " + show(h.second[0], 80) + ")"; }); }
	c.checkf(g.headers.entries().size() == n, [&] { return "request " + w.id + ": " + std::to_string(g.headers.entries().size()) + " headers instead of " + std::to_string(n); });
	eq("user", w.auth ? w.user : "", g.url.username); eq("password", w.auth ? w.pass : "", g.url.password);
	if (w.hosted) { auto p = w.host.find(':', w.host[0] == '[' ? w.host.find(']') : 0); eq("host", w.host, g.url.host); eq("hostname", w.host.substr(0, p), g.url.hostname); eq("port", p == std::string::npos ? "" : w.host.substr(p + 1), g.url.port); }
	(void)port;
}
static void deliver(Src& s, Case& c) {
	static uint64_t serial = 0; std::string base = std::to_string(getpid()) + "-" + std::to_string(++serial) + "-"; auto& sv = s.flip() ? srv : small; delay = s.chance(1, 4) ? 0.0005 : 0;
	{ std::lock_guard<std::mutex> l(mtx); seen.clear(); }
	size_t nconn = s.chance(1, 4) ? 2 + s.below(3) : 1, total = 0; struct Conn { std::vector<Req> rq; std::vector<std::vector<Segment>> bursts; std::vector<size_t> upto; std::string err; }; std::vector<Conn> cn(nconn); bool pipelined = false, segmented = false; std::string base0;
	for (size_t k = 0; k < nconn; k++) { auto& q = cn[k]; size_t n = s.chance(1, 12) ? 10 + s.below(20) : s.chance(1, 150) ? 257 + s.below(60) : 1 + s.below(6); std::string burst; std::vector<size_t> marks;
		for (size_t i = 0; i < n; i++) { q.rq.push_back(request(s, "r" + std::to_string(k) + "." + std::to_string(i), n <= 6)); auto& r = q.rq.back(); c.note("connection " + std::to_string(k) + " request " + r.id + " " + r.method + " " + show(r.path, 50) + " header " + std::to_string(r.hdrend) + " body " + std::to_string(r.body.size()) + "\n"); marks.push_back(burst.size() + r.hdrend); marks.push_back(burst.size() + r.wire.size()); burst += r.wire; total++;
			bool flush = i + 1 == n || s.chance(1, n > 100 ? 60 : 2); if (flush) { auto v = cut(s, burst, marks); segmented |= v.size() > 1; if (q.upto.empty() ? i > 0 : i + 1 - q.upto.back() > 1) pipelined = true; c.note("send " + plan(v) + "\n"); q.bursts.push_back(v); q.upto.push_back(i + 1); burst.clear(); marks.clear(); } } }
	auto drive = [&](Conn& q) { Client cl; if (!cl.open(sv.port)) { q.err = "harness: cannot connect"; return; } size_t got = 0, need = 0; net::Response r; std::string why;
		for (size_t b = 0; b < q.bursts.size(); b++) { need = 0; bool ok = cl.run(q.bursts[b], [&] { while (got < q.upto[b]) { if (cl.in.size() < need || cl.in.empty()) return false; int st = parse(cl.in, 0, q.rq[got].method == "HEAD", r, why); if (st < 0) { q.err = "response to " + q.rq[got].id + " malformed: " + why; return true; } if (!st) { need = r.size; return false; } if (r.status != 200 || (q.rq[got].method != "HEAD" && r.body != q.rq[got].id)) { q.err = "response to " + q.rq[got].id + " has status " + std::to_string(r.status) + " and body " + show(r.body, 60); return true; } cl.in.erase(0, r.size); need = 0; got++; } return true; });
			if (q.err.size()) return; if (!ok) { q.err = std::string("no response to request ") + q.rq[got].id + (cl.over() ? " (connection closed)" : " within 12 s"); return; } }
		if (cl.in.size()) q.err = "extra bytes after the last response: " + show(cl.in, 60); };
	if (nconn == 1) drive(cn[0]); else { std::vector<std::thread> t; for (auto& q : cn) t.emplace_back([&] { drive(q); }); for (auto& x : t) x.join(); }
	std::vector<Seen> got; { std::lock_guard<std::mutex> l(mtx); got = seen; }
	for (auto& q : cn) c.check(q.err.empty(), q.err);
	c.checkf(got.size() == total, [&] { return "handler ran " + std::to_string(got.size()) + " times for " + std::to_string(total) + " requests"; });
	std::vector<size_t> at(nconn, 0); std::vector<std::string> ctx(nconn); for (auto& g : got) { auto id = g.rq.headers.get("x-case"); size_t k = id.size() > 1 ? atoi(id.c_str() + 1) : nconn; c.check(k < nconn && at[k] < cn[k].rq.size() && cn[k].rq[at[k]].id == id, "handler got request " + show(id, 40) + " out of order"); same(c, cn[k].rq[at[k]], g.rq, sv.port); at[k]++; }
	c.nontrivial(total > 1 || segmented); if (pipelined) c.label("pipelined"); if (segmented) c.label("segmented"); if (nconn > 1) c.label("several connections"); for (auto& q : cn) for (auto& r : q.rq) { if (r.body.size()) c.label("with body"); if (r.body.size() > 60000) c.label("large body"); if (r.auth) c.label("credentials"); }
}
int main(int argc, char** argv) {
	return run(argc, argv, "C01", { { "deliver", deliver, 10000, 250000, "1-4 keep-alive connections to one server (either connection tracking mode), each sending 1-30 generated requests (method, path, query, repeated and oddly spaced headers, credentials, host, binary body of up to 300 kB) cut into segments at random and near header and body boundaries, with and without pauses and pipelining; every request must reach the handler once, in order, field by field equal, and be answered; non-trivial: more than one request or more than one segment", 14, 60, 45, false, false, init },
		{ "deliver-tsan", deliver, 700, 15000, "the same on a thread-sanitized build", 8, 60, 40, false, false, init } });
}
