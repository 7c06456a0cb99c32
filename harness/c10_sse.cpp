// C10: server-sent events reach the client exactly as pushed
#include "http_common.hpp"
using namespace pbt; using namespace net; namespace L = Lambda; using L::SSE::EventMessage;
static std::atomic<int> faulty{ 0 }; static std::atomic<uint32_t> frng{ 1 };
extern "C" ssize_t send(int fd, const void* b, size_t n, int fl) { if (faulty && n > 0) { uint32_t r = frng = frng * 1664525u + 1013904223u; r >>= 8; if (r % 8 == 0) { errno = EINTR; return -1; } if (n > 1 && r % 3) n = 1 + (r >> 4) % (r % 5 ? n : std::min<size_t>(n, 10)); } return syscall(SYS_sendto, fd, b, n, fl, nullptr, 0); }
struct Plan { std::vector<std::vector<EventMessage>> ev; int end = 0; double delay = 0; bool forever = false; std::atomic<bool> over{ false }; std::atomic<size_t> pushed{ 0 }; std::string bad; bool told = false; };
static std::mutex mtx; static std::map<std::string, std::shared_ptr<Plan>> plans; static net::Server srv[2], hasty;
static L::HandlerResponse handle(const L::HTTP::Request& rq, const L::RequestContext& cx) {
	std::shared_ptr<Plan> p; auto id = rq.headers.get("x-case"); { std::lock_guard<std::mutex> l(mtx); auto it = plans.find(id); if (it == plans.end()) return "plain " + id; p = it->second; } struct Done { Plan& p; ~Done() { p.over = true; } } done{ *p };
	auto w = cx.startEventStream(); if (p->forever) { double end = now() + 30; try { while (now() < end) { if (!w.connected()) { p->told = true; break; } for (auto& e : p->ev[0]) { w.push(e); p->pushed++; } nap(p->delay); } } catch (const std::exception&) { p->told = true; } return {}; }
	if (!w.connected()) p->bad = "connected() is false on a fresh stream"; auto pusher = [&](size_t k) { for (auto& e : p->ev[k]) { w.push(e); p->pushed++; if (p->delay > 0) nap(p->delay); } };
	if (p->ev.size() == 1) pusher(0); else { std::vector<std::thread> t; for (size_t k = 0; k < p->ev.size(); k++) t.emplace_back([&, k] { try { pusher(k); } catch (const std::exception& e) { std::lock_guard<std::mutex> l(mtx); p->bad = std::string("push threw ") + e.what(); } }); for (auto& x : t) x.join(); }
	if (p->end == 0 || p->end == 3) { w.close(); if (w.connected()) p->bad = "connected() after close"; if (p->end == 3) w.close(); try { w.push({ "late" }); p->bad = "push after close does not throw"; } catch (const std::exception&) {} } else if (p->end == 2) throw std::runtime_error("planned"); else if (p->end == 4) return L::HTTP::Response(204); return {};
}
static void init() { quiet(); auto c = config(); for (int i = 0; i < 2; i++) { c.service.useThreadList = i & 1; srv[i] = start(c, handle); } c.service.connectionTimeouts.send = 300; hasty = start(c, handle); }
// ------------------------------------------------------------ the event stream algorithm of the HTML standard, over bytes
struct Got { std::string data, type, id; long retry; };
struct Parser { std::string buf, data, type, id; long retry = -1; std::vector<Got> got; bool cr = false, any = false;
	void line(const std::string& l) { if (l.empty()) { if (data.empty()) { type.clear(); return; } data.pop_back(); got.push_back({ data, type, id, retry }); data.clear(); type.clear(); return; } if (l[0] == ':') return; auto c = l.find(':'); auto f = l.substr(0, c), v = c == std::string::npos ? "" : l.substr(c + 1); if (v.size() && v[0] == ' ') v.erase(0, 1);
		if (f == "event") type = v; else if (f == "data") data += v + "\n"; else if (f == "id") { if (v.find('\0') == std::string::npos) id = v; } else if (f == "retry") { if (v.size() && v.size() < 12 && v.find_first_not_of("0123456789") == std::string::npos) retry = std::stol(v); } }
	void feed(const std::string& d) { for (char c : d) { if (c == '\n' && cr) { cr = false; continue; } cr = c == '\r'; if (c == '\r' || c == '\n') { line(buf); buf.clear(); } else buf += c; } } };
static std::string norm(const std::string& d) { std::string o; for (size_t i = 0; i < d.size(); i++) { if (d[i] == '\r') { if (i + 1 < d.size() && d[i + 1] == '\n') i++; o += '\n'; } else o += d[i]; } return o; }
static std::string nextid() { static uint64_t serial = 0; return std::to_string(getpid()) + "." + std::to_string(++serial); }
static std::string word(Src& s) { return s.weighted({ 4, 1 }) ? s.pick({ "", " ", ":", "message", "data", " lead", "a: b" }) : s.str("abcdefghijklmnopqrstuvwxyzABCDEFGHIJ0123456789-_:. /{}\"", 1 + s.below(20)); }
// names and ids cannot hold line breaks: each byte of one becomes a space
static std::string field(Src& s) { auto w = word(s); if (s.chance(1, 6)) { size_t n = 1 + s.below(3); for (size_t i = 0; i < n; i++) w.insert(s.below(w.size() + 1), s.pick({ "\n", "\r\n", "\r", "\n\n", "\ndata: forged\n\n", "\r\nid: 7" })); } return w; }
static std::string oneline(std::string t) { for (auto& c : t) if (c == '\n' || c == '\r') c = ' '; return t; }
static EventMessage event(Src& s, bool big) {
	EventMessage e; switch (s.weighted({ 2, 4, 4, 2, big ? 1u : 0u })) { case 0: break; case 1: e.data = s.str("abc {}\":0123456789", 1 + s.below(60)); break; case 2: { size_t n = 1 + s.below(8); for (size_t i = 0; i < n; i++) { e.data += s.pick({ "", "x", "line", "data: y", ": c", " lead", "event: fake", "id: 9", "retry: 5" }); e.data += s.pick({ "\n", "\n", "\r\n", "\r", "\n\n", "\r\r\n", "" }); } break; } case 3: e.data = s.bytestr(s.below(200)); break; default: { auto u = s.bytestr(1 + s.below(300)); size_t n = s.pick({ 2047u, 2048u, 20000u, 70000u, 300000u }); while (e.data.size() < n) e.data += u; } }
	if (s.chance(1, 3)) e.event = field(s); if (s.chance(1, 3)) e.id = field(s); if (s.chance(1, 4)) e.retry = s.pick<uint32_t>({ 0u, 1u, 3000u, 10u, 999999999u, 4294967295u }); return e;
}
static std::string request(Src& s, const std::string& id) { return std::string(s.weighted({ 6, 1 }) ? "POST" : "GET") + " /events HTTP/1.1\r\nx-case: " + id + "\r\n" + s.pick({ "", "accept-encoding: gzip, br\r\n", "accept: text/event-stream\r\n", "origin: http://localhost\r\n", "origin: null\r\n", "Origin: https://a-b.example:8443\r\n", "connection: keep-alive\r\n", "connection: close\r\n" }) + "\r\n"; }
static std::string head(Client& cl, const std::string& rq = "") { net::Response r; std::string why; int st = 0; size_t at = 0; cl.wait([&] { if (cl.in.empty()) return false; auto e = cl.in.find("\r\n\r\n"); if (e == std::string::npos) return false; at = e + 4; std::string in = cl.in.substr(0, at); st = net::parse(in, 0, true, r, why); return st != 0; }); if (st < 0) return "malformed response: " + why; if (!st) return cl.over() ? "connection ended without a response" : "no response within 12 s"; cl.in.erase(0, at);
	if (r.status != 200) return "stream starts with status " + std::to_string(r.status); auto ct = r.all("content-type"); if (ct.size() != 1 || lower(ct[0]).compare(0, 17, "text/event-stream")) return "content type of the stream is " + (ct.size() ? show(ct[0]) : std::string("missing")); if (r.has("content-length")) return "stream announces a length"; if (r.has("content-encoding")) return "stream announces a content coding"; if (listed(r.all("connection"), "close")) return "stream announces close"; auto o = lower(rq).find("origin: "); if (o != std::string::npos) { auto want = rq.substr(o + 8, rq.find("\r\n", o) - o - 8); auto got = r.all("access-control-allow-origin"); if (got.size() != 1 || (got[0] != want && got[0] != "*")) return "the stream does not allow the client's origin " + want; } if (!listed(r.all("cache-control"), "no-cache") && !listed(r.all("cache-control"), "no-store")) return "the stream may be cached"; return ""; }
static void events(Src& s, Case& c) {
	auto id = nextid(); auto p = std::make_shared<Plan>(); size_t n = s.chance(3, 4) ? 1 : 2 + s.below(3); bool big = s.chance(1, 4); p->ev.resize(n); size_t total = 0; for (size_t k = 0; k < n; k++) { size_t m = s.chance(1, 10) ? 20 + s.below(60) : s.below(9); for (size_t i = 0; i < m; i++) { auto e = event(s, big && total < 8); if (n > 1) { e.data = std::to_string(k) + "." + std::to_string(i) + ":" + e.data; e.id.reset(); e.retry.reset(); } p->ev[k].push_back(e); total++; } }
	p->end = s.weighted({ 5, 2, 1, 1, 1 }); p->delay = s.chance(1, 4) ? 0.0003 : 0; faulty = s.chance(1, 3); frng = s.below(1 << 30) + 1; bool slow = s.chance(1, 6); c.note(std::to_string(n) + " pushers, end " + std::to_string(p->end) + (slow ? " slow client" : "") + (faulty ? " short sends" : "") + "\n"); for (auto& v : p->ev) for (auto& e : v) c.note("event data " + std::to_string(e.data.size()) + " " + show(e.data, 60) + (e.event ? " name " + show(*e.event) : "") + (e.id ? " id " + show(*e.id) : "") + (e.retry ? " retry " + std::to_string(*e.retry) : "") + "\n");
	{ std::lock_guard<std::mutex> l(mtx); plans[id] = p; } auto& sv = srv[s.below(2)]; Client cl; if (!cl.open(sv.port, slow ? 4096 : 0)) c.fail("harness: cannot connect"); if (s.chance(1, 4)) { cl.send("GET / HTTP/1.1\r\nx-case: before\r\n\r\n"); net::Response r; auto e = next(cl, false, r); c.check(e.empty(), "request before the stream: " + e); }
	auto rq = request(s, id); cl.run(cut(s, rq), nullptr); auto e = head(cl, rq); c.check(e.empty(), e); if (slow) { cl.chunk = 3000 + s.below(60000); cl.lag = 0.0003; } if (s.chance(1, 5)) cl.send(s.pick({ "GET / HTTP/1.1\r\nx-case: after\r\n\r\n", "x" }));
	Parser ps; cl.wait([&] { ps.feed(cl.in); cl.in.clear(); return cl.over(); }, 20); ps.feed(cl.in); cl.in.clear(); faulty = 0; bool fin = eventually(12, [&] { return p->over.load(); }); { std::lock_guard<std::mutex> l(mtx); plans.erase(id); } c.check(cl.over(), "stream does not end"); c.check(fin, "handler still running"); c.check(p->bad.empty(), p->bad);
	bool closing = p->end == 0 || p->end == 3; c.check(ps.buf.empty() && ps.data.empty(), "stream ends within an event: " + show(ps.data + ps.buf, 60)); c.check(ps.got.size() == total + closing, std::to_string(ps.got.size()) + " events received for " + std::to_string(total) + " pushed" + (closing ? " and a close event" : ""));
	if (closing) { auto& g = ps.got.back(); c.check(g.type == "close" && g.data.empty(), "last event is " + show(g.type) + " " + show(g.data, 40) + " instead of a close event"); }
	std::vector<size_t> at(n, 0); std::string lid; long retry = -1; for (size_t i = 0; i < total; i++) { auto& g = ps.got[i]; size_t k = 0; if (n > 1) { k = strtoul(g.data.c_str(), nullptr, 10); c.check(k < n && at[k] < p->ev[k].size(), "event of no pusher: " + show(g.data, 60)); } auto& w = p->ev[k][at[k]++]; if (w.id && w.id->find('\0') == std::string::npos) lid = oneline(*w.id); if (w.retry) retry = *w.retry; auto want = norm(w.data); auto name = "event " + std::to_string(i) + ": ";
		c.checkf(g.data == want, [&] { return name + "data is " + std::to_string(g.data.size()) + " bytes " + show(g.data, 80) + " instead of " + std::to_string(want.size()) + " bytes " + show(want, 80); }); c.checkf(g.type == oneline(w.event.value_or("")), [&] { return name + "name is " + show(g.type) + " instead of " + show(w.event.value_or("")); }); c.checkf(g.id == lid, [&] { return name + "id is " + show(g.id) + " instead of " + show(lid); }); c.check(g.retry == retry, name + "retry is " + std::to_string(g.retry) + " instead of " + std::to_string(retry)); if (want.find('\n') != std::string::npos) c.label("multi-line data"); }
	if (closing) c.check(ps.got.back().id == lid && ps.got.back().retry == retry, "the close event changes the last event id or the retry time");
	c.nontrivial(total > 1); if (n > 1) c.label("several pushers"); if (closing) c.label("closed by the handler");
}
static void gone(Src& s, Case& c) {
	auto id = nextid(); auto p = std::make_shared<Plan>(); p->forever = true; p->ev.resize(1); size_t m = 1 + s.below(3); for (size_t i = 0; i < m; i++) p->ev[0].push_back(event(s, false)); if (s.flip()) p->ev[0][0].data = std::string(5000, 'x'); p->delay = s.pick({ 0.0002, 0.001 }); unsigned how = s.below(4); bool stall = how == 3; auto& sv = stall ? hasty : srv[s.below(2)]; if (stall) { p->ev[0][0].data = std::string(20000, 'x'); p->delay = 0; } static const char* HOW[] = { "close", "reset", "close with data unread", "stall" }; c.note(std::string("client goes by ") + HOW[how] + "\n"); c.label(HOW[how]);
	{ std::lock_guard<std::mutex> l(mtx); plans[id] = p; } Client cl; if (!cl.open(sv.port, stall ? 4096 : 0)) c.fail("harness: cannot connect"); Client other; if (!other.open(sv.port)) c.fail("harness: cannot connect"); auto canary = [&](const char* when) { other.send("GET / HTTP/1.1\r\nx-case: " + id + "c\r\n\r\n"); net::Response r; auto e = next(other, false, r); c.check(e.empty(), std::string("other client ") + when + ": " + e); c.check(r.status == 200 && r.body == "plain " + id + "c", std::string("other client ") + when + " got " + show(r.body, 40)); };
	canary("before"); cl.send(request(s, id)); auto e = head(cl); c.check(e.empty(), e); size_t k = s.below(5); if (!stall) cl.wait([&] { return p->pushed >= k && (how == 2 || cl.in.size() > 0); }); if (how == 0) { cl.pull(); cl.drop(); } else if (how == 1) cl.rst(); else if (how == 2) { cl.drop(); } canary("meanwhile");
	c.check(eventually(stall ? 20 : 12, [&] { return p->over.load(); }), "handler keeps pushing 12 s after the client is gone"); c.check(p->told, "handler was not told that the client is gone"); canary("after"); { std::lock_guard<std::mutex> l(mtx); plans.erase(id); } c.nontrivial(true);
}
// streams that are open when their server is shut down
static void stopped(Src& s, Case& c) {
	struct One { std::vector<EventMessage> ev; unsigned farewell = 0, end = 0; double delay = 0; std::atomic<size_t> pushed{ 0 }; std::atomic<bool> told{ false }, over{ false }; std::string bad; };
	std::vector<std::unique_ptr<One>> one; size_t n = 1 + s.below(4); for (size_t i = 0; i < n; i++) { one.push_back(std::make_unique<One>()); auto& o = *one.back(); size_t m = 1 + s.below(4); for (size_t k = 0; k < m; k++) o.ev.push_back(event(s, false)); o.farewell = s.below(4); o.end = s.below(3); o.delay = s.pick({ 0.0002, 0.001, 0.005 }); c.note("stream of " + std::to_string(m) + " events, " + std::to_string(o.farewell) + " more after the shutdown, " + (o.end == 0 ? "closed" : o.end == 1 ? "returned from" : "thrown out of") + "\n"); }
	auto cfg = config(); cfg.service.useThreadList = true; auto sv = start(cfg, [&](const L::HTTP::Request& rq, const L::RequestContext& cx) -> L::HandlerResponse {
		auto& o = *one.at(strtoul(rq.headers.get("x-case").c_str(), nullptr, 10)); struct Done { One& o; ~Done() { o.over = true; } } done{ o }; auto w = cx.startEventStream(); auto put = [&] { w.push(o.ev[o.pushed % o.ev.size()]); o.pushed++; };
		try { double limit = now() + 30; while (w.connected() && now() < limit) { put(); nap(o.delay); } o.told = !w.connected(); for (unsigned i = 0; i < o.farewell; i++) put(); if (o.end == 0) w.close(); } catch (const std::exception& e) { o.bad = e.what(); return {}; } if (o.end == 2) throw std::runtime_error("planned"); return {}; });
	std::vector<Client> cl(n); std::vector<Parser> ps(n); for (size_t i = 0; i < n; i++) { if (!cl[i].open(sv.port)) c.fail("harness: cannot connect"); cl[i].send(request(s, std::to_string(i))); auto e = head(cl[i]); c.check(e.empty(), e); size_t want = s.below(6); cl[i].wait([&] { return one[i]->pushed >= want; }); }
	nap(s.below(10) * 0.0005); bool early = false; for (auto& o : one) if (o->over || o->told) early = true; sv.inst->shutdownn(); std::thread waiter([&] { sv.inst->awaitFinished(); }); struct J { std::thread& t; ~J() { t.join(); } }; std::string err;
	{ J j{ waiter }; for (size_t i = 0; i < n; i++) { cl[i].wait([&] { ps[i].feed(cl[i].in); cl[i].in.clear(); return cl[i].over(); }, 20); ps[i].feed(cl[i].in); cl[i].in.clear(); } }
	c.check(!early, "a stream counts as disconnected although its client and its server are there");
	for (size_t i = 0; i < n; i++) { auto& o = *one[i]; auto& p = ps[i]; auto name = "stream " + std::to_string(i) + ": "; c.check(cl[i].over() && o.over, name + "does not end"); c.check(o.told, name + "the handler was not told of the shutdown"); c.check(o.bad.empty(), name + "pushing during the shutdown threw " + o.bad); c.check(!cl[i].reset, name + "connection reset"); bool closing = o.end == 0;
		c.check(p.buf.empty() && p.data.empty(), name + "ends within an event"); c.check(p.got.size() == o.pushed + closing, name + std::to_string(p.got.size()) + " events received for " + std::to_string(o.pushed) + " pushed" + (closing ? " and a close event" : ""));
		if (closing) c.check(p.got.back().type == "close" && p.got.back().data.empty(), name + "last event is " + show(p.got.back().type) + " instead of a close event"); for (size_t k = 0; k < o.pushed; k++) { auto& w = o.ev[k % o.ev.size()]; c.checkf(p.got[k].data == norm(w.data) && p.got[k].type == oneline(w.event.value_or("")), [&] { return name + "event " + std::to_string(k) + " is " + show(p.got[k].type) + " " + show(p.got[k].data, 80); }); } if (o.farewell) c.nontrivial(true); }
}
int main(int argc, char** argv) {
	return run(argc, argv, "C10", {
		{ "events", events, 24000, 300000, "1-4 threads of a handler pushing up to 80 events (empty, single- and multi-line data with every line break, field look-alikes, binary, up to 300 kB; names, ids, retry values) under short and interrupted sends and slow clients, ended by close, return, exception or a stray response; the stream is parsed with the HTML standard's algorithm and compared; non-trivial: more than one event", 14, 60, 40, false, false, init },
		{ "gone", gone, 520, 30000, "a handler pushing events while its client closes, resets, closes with unread data or stops reading (300 ms send timeout): the handler must be told and another client must be served throughout; all non-trivial", 14, 60, 30, false, false, init },
		{ "shutdown", stopped, 1200, 20000, "1-4 streams open while their server is shut down: every handler is told, what it pushes before and after that, and the close event, still arrive, and the connections end; non-trivial: something is pushed after the shutdown", 14, 60, 20, false, false, [] { quiet(); } },
		{ "events-tsan", events, 1500, 30000, "the event histories on a thread-sanitized build", 8, 60, 30, false, false, init } });
}
