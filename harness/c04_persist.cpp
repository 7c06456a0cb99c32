// C04: connection persistence is announced truthfully
#include "http_common.hpp"
using namespace pbt; using namespace net; namespace L = Lambda;
struct Plan { std::string conn; int kind = 0; size_t size = 0; };	// kind 0 plain 1 throws 2 nothing 3 204
static std::mutex mtx; static std::map<std::string, Plan> plans; static std::vector<std::string> ran; static net::Server srv[4];
static L::HandlerResponse handle(const L::HTTP::Request& rq, const L::RequestContext&) {
	Plan p; auto id = rq.headers.get("x-case"); { std::lock_guard<std::mutex> l(mtx); ran.push_back(id); auto it = plans.find(id); if (it == plans.end()) return "unknown"; p = it->second; } if (p.kind == 1) throw std::runtime_error("planned"); if (p.kind == 2) return {};
	L::HTTP::Response r(p.kind == 3 ? 204 : 200); if (p.conn.size()) r.headers.set("Connection", p.conn); r.headers.set("content-type", "image/png"); r.body = std::string(p.size, 'x'); return r;
}
static void init() { quiet(); auto c = config(); c.transport.maxRequestSize = 100000; for (int i = 0; i < 4; i++) { c.transport.reuseConnections = i < 2; c.service.useThreadList = i & 1; srv[i] = start(c, handle); } }
static std::string recase(Src& s, std::string k) { unsigned m = s.below(4); for (auto& c : k) if (m == 1 || (m == 2 && s.flip())) c = toupper(c); return k; }
static std::string asking(Src& s, bool& close) {
	close = false; switch (s.weighted({ 5, 4, 3, 1 })) { case 0: return ""; case 1: return recase(s, s.pick({ "keep-alive", "keep-alive", "keep-alive, TE", "TE, keep-alive", "TE" })); case 2: close = true; return recase(s, s.pick({ "close", "close", "close", "close, TE", "TE,close", "TE , close", "keep-alive, close", "close,keep-alive" })); default: return s.pick({ "closed", "x-close", "not-close", "foreclose, TE", "clos" }); }
}
static void persist(Src& s, Case& c) {
	static uint64_t serial = 0; unsigned w = s.weighted({ 4, 4, 1, 1 }); bool reuse = w < 2; auto& sv = srv[w]; Client cl; if (!cl.open(sv.port)) c.fail("harness: cannot connect"); { std::lock_guard<std::mutex> l(mtx); plans.clear(); ran.clear(); }
	size_t n = s.chance(1, 250) ? 60 + s.below(250) : s.chance(1, 25) ? 7 + s.below(24) : 1 + s.below(6); bool lng = n > 30; struct Rq { std::string id, wire, why; bool head = false, close = false, bad = false; Plan p; int status = 200; }; std::vector<Rq> rq; std::string tag = "c" + std::to_string(getpid()) + "." + std::to_string(++serial) + ".";
	for (size_t i = 0; i < n; i++) { Rq r; r.id = tag + std::to_string(i); bool cc = false, hc = false; r.head = s.chance(1, 8); r.p.size = !lng && s.chance(1, 12) ? s.pick({ 100000u, 400000u, 40000u }) : s.below(50); r.p.kind = s.weighted({ 10, 1, 1, 1 });
		std::string ask = lng && !s.chance(1, 200) ? "" : asking(s, cc), lines; if (s.chance(1, 12)) { size_t k = 1 + s.below(14); for (size_t j = 0; j < k; j++) { auto t = "x-t" + std::to_string(j); if (s.chance(1, 6)) { lines += "Connection: " + t + "\r\n"; continue; } ask = s.chance(2, 3) ? t + (ask.size() ? ", " + ask : "") : ask + (ask.size() ? ", " : "") + t; } } if (ask.size()) { if (s.chance(1, 6)) lines = "Connection: x-other\r\n"; lines += std::string(s.pick({ "Connection", "connection", "CONNECTION" })) + ": " + ask + "\r\n"; }
		if (r.p.kind == 0 || r.p.kind == 3) { r.p.conn = s.chance(1, lng ? 400 : 3) ? asking(s, hc) : ""; if (hc && lower(r.p.conn).find("keep") != std::string::npos) r.p.conn = "Close"; }
		r.close = cc || hc || !reuse; r.why = !reuse ? "reuse is off" : cc ? "the client asked for close" : hc ? "the handler asked for close" : ""; r.status = r.p.kind == 1 || r.p.kind == 2 ? 500 : r.p.kind == 3 ? 204 : 200; std::string body = s.chance(1, 4) ? s.bytestr(s.below(300)) : ""; if (body.size()) lines += "content-length: " + std::to_string(body.size()) + "\r\n";
		r.wire = std::string(r.head ? "HEAD" : body.size() ? "POST" : "GET") + " / HTTP/1.1\r\nx-case: " + r.id + "\r\n" + lines + "\r\n" + body;
		if (s.chance(1, lng ? 2000 : 15)) { r.bad = r.close = true; r.why = "the request is not acceptable"; switch (s.below(7)) { case 4: r.wire = "BREW / HTTP/1.1\r\n\r\n"; r.status = 501; break; case 5: r.wire = "GET / HTTP/2.0\r\n\r\n"; r.status = 400; break; case 6: r.wire = "GET\r\nx-case: " + r.id + "\r\n\r\n"; r.status = 400; break; case 0: r.wire = "GET / HTTP/1.1\r\nno separator\r\n\r\n"; r.status = 400; break; case 1: r.wire = "GET / HTTP/1.1\r\nx-case: " + r.id + "\r\ncontent-length: 200000\r\n\r\n"; r.status = 413; break; case 2: r.wire = "POST / HTTP/1.1\r\nx-case: " + r.id + "\r\ncontent-length: x\r\n\r\n"; r.status = 400; break; default: r.wire = "GET / HTTP/1.1\r\nConnection: keep-alive\r\n: empty\r\n\r\n"; r.status = 400; } r.head = false; }
		c.note(std::string(r.bad ? "bad " : "") + show(r.wire, 160) + " handler connection " + show(r.p.conn) + " kind " + std::to_string(r.p.kind) + " size " + std::to_string(r.p.size) + (r.close ? " -> close: " + r.why : " -> keep-alive") + "\n"); { std::lock_guard<std::mutex> l(mtx); plans[r.id] = r.p; } rq.push_back(r); }
	size_t got = 0; bool ended = false; while (got < n && !ended) {
		size_t upto = s.flip() ? got + 1 : got + 1 + s.below(n - got); std::string all; for (size_t i = got; i < upto; i++) all += rq[i].wire; if (got && s.chance(1, 10)) nap(0.003); cl.send(all); if (upto > got + 1) c.label("pipelined");
		for (; got < upto && !ended; got++) { auto& r = rq[got]; net::Response x; auto e = next(cl, r.head, x); std::string w = "response " + std::to_string(got) + ": "; c.check(e.empty(), w + e); c.check(x.status == r.status, w + "status " + std::to_string(x.status) + " instead of " + std::to_string(r.status)); bool close; e = announced(x, close); c.check(e.empty(), w + e);
			c.check(close == r.close, w + (r.close ? "announces keep-alive although " + r.why : std::string("announces close although nobody asked for it"))); if (!r.head && r.status == 200) c.check(x.body.size() == r.p.size, w + "body incomplete");
			if (close) { ended = true; c.check(cl.waitend(8), w + "announced close but the connection stays open"); c.check(cl.in.empty(), w + "bytes after a response that announced close: " + show(cl.in, 80)); } } }
	if (!ended) { cl.pull(); c.check(!cl.over() && cl.in.empty(), "connection ended although keep-alive was announced"); if (s.chance(1, 3)) { nap(0.004); cl.pull(); c.check(!cl.over(), "idle connection ended although keep-alive was announced"); } }
	std::vector<std::string> want; for (size_t i = 0; i < got; i++) if (!rq[i].bad) want.push_back(rq[i].id); { std::lock_guard<std::mutex> l(mtx); c.check(ran == want, "handler ran for " + std::to_string(ran.size()) + " requests instead of " + std::to_string(want.size())); }
	c.label(ended ? "closed" : "kept alive"); c.nontrivial(n > 1 || ended); if (!reuse) c.label("reuse off");
}
int main(int argc, char** argv) {
	return run(argc, argv, "C04", { { "persist", persist, 40000, 250000, "1-6 requests, some pipelined, with connection headers asking for close, keep-alive, other or nothing (letter case, lists, look-alikes, repeated), handlers doing the same, errors, HEAD and refused requests, on servers with and without connection reuse and in both tracking modes; each announcement is compared with what was asked and with what the server then does; non-trivial: several requests or a close", 12, 60, 45, false, false, init } });
}
