// C02: the client receives exactly the response the handler returned
#include "http_common.hpp"
using namespace pbt; using namespace net; namespace L = Lambda;
// ------------------------------------------------------------ faults in the server's send()
static std::atomic<int> faulty{ 0 }; static std::atomic<uint32_t> frng{ 1 };
extern "C" ssize_t send(int fd, const void* b, size_t n, int fl) {
	if (faulty && n > 0) { uint32_t r = frng = frng * 1664525u + 1013904223u; r >>= 8; if (r % 8 == 0) { errno = EINTR; return -1; } if (n > 1 && r % 3) n = 1 + (r >> 4) % (r % 5 ? n : std::min<size_t>(n, 10)); }
	return syscall(SYS_sendto, fd, b, n, fl, nullptr, 0);
}
struct Plan { int via = 0; int code = 200; std::string text; bool custom = false; std::vector<std::pair<std::string, std::string>> set, append; std::vector<std::pair<std::string, std::string>> cookies; std::string body; bool head = false; };
static std::mutex mtx; static std::map<std::string, Plan> plans; static std::map<std::string, std::string> rid; static net::Server srv[2];
static L::HandlerResponse handle(const L::HTTP::Request& rq, const L::RequestContext& cx) {
	Plan p; auto id = rq.headers.get("x-case"); { std::lock_guard<std::mutex> l(mtx); auto it = plans.find(id); if (it == plans.end()) return "unknown"; p = it->second; rid[id] = cx.contextID + "-" + cx.requestID; }
	std::vector<uint8_t> bytes(p.body.begin(), p.body.end());
	switch (p.via) { case 1: return p.body; case 2: return p.body.c_str(); case 3: return bytes; }
	L::HTTP::Response r(p.custom ? L::HTTP::Status(p.code, p.text) : L::HTTP::Status(p.code)); for (auto& h : p.set) r.headers.set(h.first, h.second); for (auto& h : p.append) r.headers.append(h.first, h.second);
	if (p.cookies.size()) { L::HTTP::Cookies ck; for (auto& k : p.cookies) ck.set(k.first, k.second); r.setCookies(ck); } r.body = bytes; return r;
}
static void init() { quiet(); auto c = config(); srv[0] = start(c, handle); c.service.useThreadList = true; srv[1] = start(c, handle); }
static const std::string VIS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'()*+,-./:;<=>?@[]^_`{|}~\"\\";
static std::string value(Src& s) { switch (s.weighted({ 5, 3, 1, 1, 1 })) { case 0: return s.pick({ "x", "a, b", "max-age=3600", "text", "0", "W/\"tag\"", "" }); case 1: return s.str(VIS, 1 + s.below(40)); case 2: return s.str(VIS, 1 + s.below(10)) + " " + s.str(VIS, 1 + s.below(10)) + "\xc3\xa9"; case 3: { if (!s.chance(1, 8)) return s.str(VIS, s.pick({ 2000u, 2048u, 5000u })); auto u = s.str(VIS, 1 + s.below(100)); size_t n = s.pick({ 16384u, 65536u, 70000u, 200000u }); std::string o; while (o.size() < n) o += u; return o; } default: return s.pick({ "a\r\nx-injected: 1", "\nx-injected: 1", "b\r\n\r\n<html>", "c\rx-injected: 2", "d\n", "\r\n" }); } }
static std::string one(std::string v) { for (auto& c : v) if (c == '\r' || c == '\n' || !c) c = ' '; auto a = v.find_first_not_of(" \t"), z = v.find_last_not_of(" \t"); return a == std::string::npos ? "" : v.substr(a, z - a + 1); }
static const int CODES[] = { 200, 201, 202, 203, 204, 205, 206, 301, 302, 303, 304, 307, 308, 400, 401, 403, 404, 405, 409, 410, 418, 429, 500, 501, 502, 503 };
static Plan plan(Src& s, bool big) {
	Plan p; p.via = s.weighted({ 8, 1, 1, 1 }); p.body = [&]() -> std::string { switch (s.weighted({ 2, 4, 3, big ? 2u : 0u })) { case 0: return ""; case 1: return s.pick({ "Hello", "{\"a\":1}", "<html></html>", "HTTP/1.1 200 OK\r\ncontent-length: 0\r\n\r\n", "\r\n\r\n", "0\r\n\r\n" }); case 2: { auto x = s.bytestr(s.len(8000)); return x; } default: { auto unit = s.bytestr(1 + s.below(2000)); size_t n = s.chance(1, 10) ? 4300000u : s.pick({ 65536u, 65537u, 200000u, 500000u, 1500000u }); std::string o; while (o.size() < n) o += unit; o.resize(n); return o; } } }();
	if (p.via == 2) { auto z = p.body.find('\0'); if (z != std::string::npos) p.body.resize(z); }
	if (p.via) return p; p.code = CODES[s.below(sizeof CODES / sizeof *CODES)]; if (s.chance(1, 6)) { p.custom = true; p.code = s.flip() ? 200 + s.below(400) : p.code; p.text = s.pick({ "OK", "Custom text", "", "It's; fine", "a\r\nx-injected: 1", "Very Long Reason Phrase With Many Words" }); } else if (p.code == 418 || p.code == 429) p.code = 200;
	size_t n = s.weighted({ 2, 5, 1 }); n = n == 0 ? 0 : n == 1 ? 1 + s.below(6) : s.chance(1, 6) ? 100 + s.below(200) : 10 + s.below(40); static const std::string T = "abcdefghijklmnopqrstuvwxyz-0123456789";
	for (size_t i = 0; i < n; i++) { std::string k = s.flip() ? s.pick({ "x-a", "X-B", "Cache-Control", "etag", "Vary", "Location", "link", "warning" }) : "x-" + s.str(T, 1 + s.below(12)); if (ieq(k, "x-injected") || ieq(k, "x-request-id")) continue; auto v = value(s); if (s.flip()) p.append.push_back({ k, v }); else p.set.push_back({ k, v }); }
	if (s.flip()) p.set.push_back({ "content-type", s.pick({ "text/plain", "application/json", "image/png", "application/octet-stream", "TEXT/HTML; charset=utf-8" }) });
	if (s.chance(1, 10)) p.set.push_back({ "content-encoding", s.pick({ "x-own", "gzip", "br" }) }); if (s.chance(1, 10)) p.set.push_back({ s.pick({ "content-length", "Date", "Server", "X-Request-Id" }), s.pick({ "5", "0", "mine" }) });
	if (s.chance(1, 6)) { std::set<std::string> u; size_t k = 1 + s.below(3); for (size_t i = 0; i < k; i++) { auto nm = s.str("abc", 1 + s.below(2)); if (u.insert(nm).second) p.cookies.push_back({ nm, s.str("xyz019", 1 + s.below(8)) }); } }
	return p;
}
static void fidelity(Src& s, Case& c) {
	static uint64_t serial = 0; auto& sv = srv[s.below(2)]; { std::lock_guard<std::mutex> l(mtx); plans.clear(); rid.clear(); } faulty = s.chance(1, 3); frng = s.below(1 << 30) + 1; bool slow = s.chance(1, 5); if (faulty) c.label("short and interrupted sends"); if (slow) c.label("slow reader");
	size_t nconn = s.chance(1, 5) ? 2 + s.below(2) : 1; struct Conn { std::vector<std::string> id; std::vector<Plan> p; std::vector<std::string> wire; std::vector<size_t> upto; std::string err; size_t sent = 0; }; std::vector<Conn> cn(nconn); bool interesting = false; time_t t0 = time(nullptr);
	for (size_t k = 0; k < nconn; k++) { auto& q = cn[k]; size_t n = s.chance(1, 60) ? 7 + s.below(40) : 1 + s.below(6), from = 0; for (size_t i = 0; i < n; i++) { auto id = std::to_string(getpid()) + "." + std::to_string(++serial); Plan p = plan(s, n < 4); p.head = s.chance(1, 7); q.id.push_back(id); q.wire.push_back(std::string(p.head ? "HEAD" : s.pick({ "GET", "POST" })) + " / HTTP/1.1\r\nx-case: " + id + "\r\n" + s.pick({ "", "", "accept-encoding: gzip, deflate, br\r\n", "accept-encoding: gzip\r\n", "accept-encoding: deflate\r\n" }) + "\r\n");
		c.note("connection " + std::to_string(k) + (p.head ? " HEAD" : " GET") + " -> via " + std::to_string(p.via) + " " + std::to_string(p.code) + " " + show(p.text, 30) + " headers " + std::to_string(p.set.size() + p.append.size()) + " body " + std::to_string(p.body.size()) + "\n"); for (auto& h : p.set) c.note("  set " + show(h.first) + ": " + show(h.second, 40) + "\n"); for (auto& h : p.append) c.note("  append " + show(h.first) + ": " + show(h.second, 40) + "\n");
		interesting |= p.set.size() + p.append.size() > 1 || p.body.size() > 2000 || p.head; { std::lock_guard<std::mutex> l(mtx); plans[id] = p; } q.p.push_back(p); if (i + 1 == n || s.flip()) { q.upto.push_back(i + 1); from = i + 1; } } (void)from; }
	unsigned chunk = 1 + s.below(20000); double lag = s.below(3) * 0.0004;
	auto drive = [&](Conn& q) { Client cl; if (!cl.open(sv.port, slow ? 2048 : 0)) { q.err = "harness: cannot connect"; return; } size_t got = 0;
		for (size_t u : q.upto) { std::string all; for (size_t i = got; i < u; i++) all += q.wire[i]; if (slow) { cl.chunk = 1 << 16; cl.lag = 0; } cl.send(all); if (slow) { nap(0.003); cl.chunk = chunk + 2000; cl.lag = lag; }
			for (; got < u; got++) { auto& p = q.p[got]; net::Response r; auto e = next(cl, p.head, r, 20); auto bad = [&](const std::string& m) { if (q.err.empty()) q.err = "response " + std::to_string(got) + ": " + m; }; if (e.size()) { bad(e); return; }
				if (r.status != p.code) bad("status " + std::to_string(r.status) + " instead of " + std::to_string(p.code)); auto reason = p.custom ? one(p.text) : L::HTTP::Status(p.code).text(); if (r.reason != reason && one(r.reason) != reason) bad("reason " + show(r.reason, 50) + " instead of " + show(reason, 50));
				std::map<std::string, std::vector<std::string>> want; for (auto& h : p.set) want[lower(h.first)] = { h.second }; for (auto& h : p.append) want[lower(h.first)].push_back(h.second); for (auto& k : p.cookies) { bool found = false; for (auto& v : r.all("set-cookie")) found |= v.substr(0, v.find(';')) == k.first + "=" + k.second; if (!found) bad("cookie " + k.first + " is missing"); }
				for (auto& w : want) { if (w.first == "content-length" || w.first == "date" || w.first == "server" || w.first == "x-request-id") { if (r.all(w.first).size() != 1) bad(w.first + " header repeated"); continue; } std::vector<std::string> v; for (auto& x : w.second) v.push_back(one(x)); auto g = r.all(w.first); for (auto& x : g) x = one(x); if (v != g) bad("header " + w.first + " has " + std::to_string(g.size()) + " values (first " + show(g.size() ? g[0] : "", 60) + ") instead of " + std::to_string(v.size()) + " (first " + show(v[0], 60) + ")"); }
				if (p.via == 3 && r.get("content-type") != "application/octet-stream") bad("binary response has the type " + show(r.get("content-type"), 50)); if (r.has("x-injected")) bad("a line break in a value made a header of its own");
				bool nobody = p.code == 204 || p.code == 304 || p.head; if (!nobody) { try { auto d = want.count("content-encoding") ? r.body : undo(r.get("content-encoding"), r.body); if (d != p.body) { size_t i = 0; while (i < d.size() && i < p.body.size() && d[i] == p.body[i]) i++; bad("body of " + std::to_string(d.size()) + " bytes differs from the handler's " + std::to_string(p.body.size()) + " at offset " + std::to_string(i)); } } catch (const std::exception& x) { bad("body cannot be decoded: " + std::string(x.what())); } }
				if (p.head && p.code != 204 && p.code != 304 && !r.has("content-encoding") && r.get("content-length") != std::to_string(p.body.size())) bad("HEAD announces length " + r.get("content-length") + " instead of " + std::to_string(p.body.size()));
				time_t d = httpdate(r.get("date")); if (r.all("date").size() != 1 || d < t0 - 1 || d > time(nullptr) + 1) bad("date " + show(r.get("date"), 50) + " is not the current time"); if (r.all("server").size() != 1 || r.get("server").empty()) bad("no server name");
				std::string id; { std::lock_guard<std::mutex> l(mtx); id = rid[q.id[got]]; } if (r.all("x-request-id").size() != 1 || r.get("x-request-id") != id) bad("request id " + show(r.get("x-request-id"), 40) + " but the handler saw " + show(id, 40));
				if (q.err.size()) return; } }
		if (!cl.over()) { cl.pull(); } if (cl.in.size()) q.err = "bytes after the last response: " + show(cl.in, 60); };
	if (nconn == 1) drive(cn[0]); else { std::vector<std::thread> t; for (auto& q : cn) t.emplace_back([&] { drive(q); }); for (auto& x : t) x.join(); c.label("several connections"); }
	faulty = 0; for (auto& q : cn) c.check(q.err.empty(), q.err); c.nontrivial(interesting);
	for (auto& q : cn) for (auto& p : q.p) { if (p.head) c.label("HEAD"); if (p.code == 204 || p.code == 304) c.label("no-body status"); if (p.body.size() > 60000) c.label("large body"); if (p.via) c.label("short-hand response"); }
}
int main(int argc, char** argv) {
	return run(argc, argv, "C02", { { "fidelity", fidelity, 9000, 200000, "1-3 connections x 1-6 requests (GET, POST, HEAD, pipelined or not, with and without accept-encoding) answered with generated responses (all ways to build one, statuses, custom reasons, repeated headers, line breaks in values, cookies, binary bodies up to 1.5 MB) under short and interrupted sends and slow readers; every message is parsed by an independent strict parser and compared; non-trivial: several headers, a larger body or HEAD", 14, 60, 45, false, false, init },
		{ "fidelity-tsan", fidelity, 700, 15000, "the same on a thread-sanitized build", 8, 60, 40, false, false, init } });
}
