// C09: websocket handshake, outgoing messages, heartbeat and close
#include "ws_common.hpp"
#include "http_common.hpp"
using namespace pbt; using namespace net; namespace L = Lambda; using L::Websocket::Message; using L::Websocket::CloseReason;
// ------------------------------------------------------------ faults in the server's send(), a movable monotonic clock
static std::atomic<int> faulty{ 0 }; static std::atomic<uint32_t> frng{ 1 }; static std::atomic<int64_t> ahead{ 0 }; static thread_local bool exempt = false;
extern "C" ssize_t send(int fd, const void* b, size_t n, int fl) { if (faulty && n > 0) { uint32_t r = frng = frng * 1664525u + 1013904223u; r >>= 8; if (r % 8 == 0) { errno = EINTR; return -1; } if (n > 1 && r % 3) n = 1 + (r >> 4) % (r % 5 ? n : std::min<size_t>(n, 10)); } return syscall(SYS_sendto, fd, b, n, fl, nullptr, 0); }
#ifndef __SANITIZE_THREAD__
extern "C" int clock_gettime(clockid_t id, timespec* t) noexcept { int r = syscall(SYS_clock_gettime, id, t); if (!r && id == CLOCK_MONOTONIC && !exempt) { int64_t ns = t->tv_nsec + ahead.load(); t->tv_sec += ns / 1000000000; t->tv_nsec = ns % 1000000000; } return r; }
#endif
struct Out { std::string data; int kind = 0; bool binary = false, partial = false; };	// kind: constructor used
struct Plan { std::vector<std::vector<Out>> senders; int end = 0; int code = 1000; double delay = 0; bool catches = false; std::atomic<bool> over{ false }, entered{ false }; std::vector<size_t> sent; std::string bad; bool read = false; };
static std::mutex mtx; static std::map<std::string, std::shared_ptr<Plan>> plans; static net::Server srv[2];
static Message make(const Out& o) { std::vector<uint8_t> b(o.data.begin(), o.data.end()); switch (o.kind) { case 0: return Message(o.data); case 1: return Message(o.data, o.partial); case 2: return Message(b); case 3: return Message(b, o.partial); default: return Message(b, o.binary, o.partial); } }
static L::HandlerResponse handle(const L::HTTP::Request& rq, const L::RequestContext& cx) {
	exempt = true; std::shared_ptr<Plan> p; { std::lock_guard<std::mutex> l(mtx); auto it = plans.find(rq.headers.get("x-case")); if (it == plans.end()) return "unknown"; p = it->second; } p->entered = true; struct Done { Plan& p; ~Done() { p.over = true; } } done{ *p };
	if (p->catches) { try { auto w = cx.upgrateToWebsocket(); } catch (const std::exception&) { L::HTTP::Response r(418); r.body = std::string("caught"); return r; } return {}; }
	auto w = cx.upgrateToWebsocket(); size_t n = p->senders.size(); p->sent.assign(n, 0); std::vector<std::thread> t; std::atomic<size_t> total{ 0 };
	auto sender = [&](size_t k) { exempt = true; for (auto& o : p->senders[k]) { try { w.sendMessage(make(o)); } catch (const std::exception&) { break; } p->sent[k]++; total++; if (p->delay > 0) nap(p->delay); } };
	if (n == 1) sender(0); else for (size_t k = 0; k < n; k++) t.emplace_back(sender, k);
	if (p->end == 4) { std::vector<std::thread> cl; eventually(0.5, [&] { return total > 2; }); for (int i = 0; i < 2; i++) cl.emplace_back([&] { exempt = true; w.close((CloseReason)p->code); }); for (auto& x : cl) x.join(); }
	for (auto& x : t) x.join(); if (p->read || p->end == 3) { try { while (w.awaitMessage()) w.nextMessage(); } catch (const std::exception&) {} }
	if (p->end == 0 || p->end == 4) { w.close((CloseReason)p->code); if (p->end == 0 && p->code % 2) w.close(CloseReason::PolicyViolation); try { w.sendMessage(std::string("late")); p->bad = "sendMessage after close does not throw"; } catch (const std::exception&) {} } else if (p->end == 2) throw std::runtime_error("planned"); return {};
}
static void init() { exempt = true; quiet(); auto c = config(); c.transport.maxRequestSize = 1 << 20; for (int i = 0; i < 2; i++) { c.service.useThreadList = i & 1; srv[i] = start(c, handle); } }
static std::string nextid() { static uint64_t serial = 0; return std::to_string(getpid()) + "." + std::to_string(++serial); }
static void add(const std::string& id, std::shared_ptr<Plan> p) { std::lock_guard<std::mutex> l(mtx); plans[id] = p; }
static void forget(const std::string& id) { std::lock_guard<std::mutex> l(mtx); plans.erase(id); }
// ------------------------------------------------------------ handshake
static std::string recase(Src& s, std::string k) { unsigned m = s.below(4); for (auto& c : k) if (m == 1 || (m == 2 && s.flip())) c = toupper(c); return k; }
static void handshake(Src& s, Case& c) {
	exempt = true; auto id = nextid(); auto p = std::make_shared<Plan>(); p->catches = s.chance(1, 8); p->senders.resize(1); bool ping = s.flip(); p->senders[0].push_back({ "hello", 0, false, false }); p->read = true; add(id, p);
	std::string method = s.weighted({ 8, 1 }) ? s.pick({ "POST", "PUT", "HEAD", "OPTIONS", "DELETE", "PATCH" }) : "GET"; bool valid = method == "GET"; std::vector<std::string> h; auto line = [&](std::string k, std::string v) { h.push_back(recase(s, k) + ":" + s.pick({ " ", "", "  " }) + v + s.pick({ "", " " })); };
	switch (s.weighted({ 10, 1, 1 })) { case 0: line("upgrade", recase(s, "websocket")); break; case 1: valid = false; break; default: valid = false; line("upgrade", s.pick({ "h2c", "websockets", "web socket", "websocket2", "TLS/1.0" })); }
	std::string key; if (s.weighted({ 10, 1 }) == 0) { key = s.weighted({ 3, 1 }) ? s.str("abcXYZ019+/=-_ .", 1 + s.below(80)) : ws::b64(s.bytestr(16)); auto a = key.find_first_not_of(' '), z = key.find_last_not_of(' '); key = a == std::string::npos ? "k" : key.substr(a, z - a + 1); line("sec-websocket-key", key); } else { valid = false; if (s.flip()) line("sec-websocket-key", ""); }
	if (valid || s.chance(5, 6)) line("connection", s.pick({ "Upgrade", "upgrade", "keep-alive, Upgrade" })); line("sec-websocket-version", "13"); if (s.chance(1, 3)) line("origin", "http://localhost"); if (s.chance(1, 4)) line("sec-websocket-extensions", "permessage-deflate"); line("x-case", id); for (size_t i = h.size(); i > 1; i--) std::swap(h[i - 1], h[s.below(i)]);
	std::string wire = method + " /socket?x=1 HTTP/1.1\r\n"; for (auto& x : h) wire += x + "\r\n"; wire += "\r\n"; c.note(show(wire, 600) + (valid ? " valid" : " invalid") + (p->catches ? ", handler catches" : "") + "\n");
	Client cl; if (!cl.open(srv[s.below(2)].port)) c.fail("harness: cannot connect"); size_t before = s.below(3); for (size_t i = 0; i < before; i++) { cl.send("GET /unknown HTTP/1.1\r\nx-case: none\r\n\r\n"); net::Response r; auto e = next(cl, false, r); c.check(e.empty(), "request before the handshake: " + e); }
	bool early = valid && !p->catches && s.chance(1, 6); if (early) { wire += ws::frame(0x89, "early", 77); c.note("a ping follows at once\n"); c.label("early frame"); }
	auto segs = cut(s, wire); if (!cl.run(segs, nullptr) && !early) c.fail("handshake cannot be sent");
	net::Response r; std::string why; int st = 0; cl.wait([&] { if (cl.in.empty()) return false; st = net::parse(cl.in, 0, method == "HEAD", r, why); return st != 0; }); if (st < 0) c.fail("malformed handshake response: " + why); if (!st) c.fail(cl.over() ? "connection closed without a handshake response" : "no handshake response within 12 s"); cl.in.erase(0, r.size); c.nontrivial(true); c.label(valid ? "valid" : "invalid");
	if (early && r.status >= 400 && r.status < 500) { c.check(!r.has("sec-websocket-accept"), "refused handshake carries an accept value"); cl.wait([&] { return cl.over() || cl.in.size(); }, 0.02); c.check(cl.in.find("early") == std::string::npos, "a frame is answered after a refused handshake"); c.label("early frame refused"); forget(id); return; }
	if (!valid) { c.check(p->catches ? r.status == 418 : r.status >= 400 && r.status < 500, "invalid handshake answered with status " + std::to_string(r.status)); c.check(!r.has("sec-websocket-accept"), "refused handshake carries an accept value"); if (!p->catches) cl.send(ws::frame(0x89, "probe", 7)); cl.wait([&] { return cl.over() || cl.in.size(); }, 0.02); c.check(cl.in.find("probe") == std::string::npos && (cl.in.empty() || !cl.in.compare(0, 4, "HTTP")), "frames are answered after a refused handshake: " + show(cl.in, 40)); forget(id); return; }
	c.check(r.status == 101, "valid handshake answered with status " + std::to_string(r.status)); c.check(ieq(r.get("upgrade"), "websocket") && listed(r.all("connection"), "upgrade"), "switching response lacks upgrade headers"); c.checkf(r.all("sec-websocket-accept") == std::vector<std::string>{ ws::accept(key) }, [&] { return "accept value " + show(r.get("sec-websocket-accept")) + " instead of " + ws::accept(key) + " for key " + show(key); }); c.check(!r.has("sec-websocket-extensions"), "an extension was agreed to"); c.check(!r.has("content-length") || r.get("content-length") == "0", "switching response announces a body");
	ws::Reader rd{ cl }; if (!p->catches) { if (ping) cl.send(ws::frame(0x89, "abc", 0x01020304)); cl.wait([&] { rd.take(); return rd.err.size() || rd.got.size() >= 1u + ping + early; }); c.check(rd.err.empty(), rd.err); c.check(rd.got.size() >= 1u + ping + early, early ? "the frame sent along with the handshake is lost" : "upgraded connection carries no messages"); cl.send(ws::frame(0x88, "", 0)); } cl.wait([&] { rd.take(); return cl.over(); }); rd.take(); c.check(rd.err.empty() && cl.in.empty(), "after the handshake: " + rd.err); c.check(rd.closed && cl.over(), "no close frame at the end"); forget(id);
}
// ------------------------------------------------------------ outgoing messages
static Out message(Src& s, bool tagged, size_t k, size_t i, bool big) {
	Out o; o.kind = s.below(5); o.partial = !tagged && s.chance(1, 4); if (o.kind == 0 || o.kind == 2) o.partial = false; o.binary = o.kind == 2 || o.kind == 3 || (o.kind == 4 && s.flip()); size_t n = 0; switch (s.weighted({ 4, 3, big ? 2u : 0u })) { case 0: n = s.below(60); break; case 1: n = s.pick({ 0u, 1u, 124u, 125u, 126u, 127u, 128u, 255u, 256u, 257u, 1000u, 2048u }); break; default: n = s.pick({ 5000u, 65534u, 65535u, 65536u, 65537u, 70000u, 200000u, 400000u }); }
	if (tagged) o.data = std::to_string(k) + "." + std::to_string(i) + ":"; auto u = s.bytestr(1 + s.below(20)); while (o.data.size() < n) { o.data += u; if (o.data.size() > 30) o.data += (char)(o.data.size() * 13); } if (o.data.size() > n && !tagged) o.data.resize(n); if (tagged && o.data.size() > std::max<size_t>(n, 8)) o.data.resize(std::max<size_t>(n, 8)); return o;
}
static void outbound(Src& s, Case& c) {
	exempt = true; auto id = nextid(); auto p = std::make_shared<Plan>(); size_t n = s.flip() ? 1 : 2 + s.below(4); bool big = s.chance(1, 4); p->senders.resize(n); size_t total = 0; for (size_t k = 0; k < n; k++) { size_t m = s.chance(1, 8) ? 20 + s.below(40) : s.below(10); for (size_t i = 0; i < m; i++) { p->senders[k].push_back(message(s, n > 1, k, i, big && total < 6)); total++; } }
	p->end = s.weighted({ 3, 2, 1, 3, n > 1 ? 2u : 0u }); p->code = s.pick({ 1000, 1001, 1002, 1003, 1008, 1009, 1011 }); p->delay = s.chance(1, 3) ? 0.0002 : 0; p->read = s.flip() && p->end == 3; bool slow = s.chance(1, 5); faulty = s.chance(1, 3); frng = s.below(1 << 30) + 1;
	std::vector<std::string> pings; std::vector<Segment> plan; size_t np = s.flip() ? s.below(12) : 0; for (size_t i = 0; i < np; i++) { auto d = std::to_string(i) + s.bytestr(s.below(s.chance(1, 5) ? 120 : 20)); pings.push_back(d); plan.push_back({ ws::frame(0x89, d, (uint32_t)s.range(0, 0xffffffffu)), s.flip() ? 0.0003 : 0 }); } if (s.chance(1, 4)) { plan.push_back({ ws::frame(0x82, s.bytestr(s.below(300)), 99), 0 }); }
	c.note(std::to_string(n) + " senders, end " + std::to_string(p->end) + " code " + std::to_string(p->code) + (slow ? " slow client" : "") + (faulty ? " short sends" : "") + ", " + std::to_string(np) + " pings\n"); for (size_t k = 0; k < n; k++) { c.note("sender " + std::to_string(k) + ":"); for (auto& o : p->senders[k]) c.note(std::string(" ") + (o.binary ? "b" : "t") + std::to_string(o.data.size()) + (o.partial ? "+" : "")); c.note("\n"); }
	add(id, p); Client cl; if (!cl.open(srv[s.below(2)].port, slow ? 4096 : 0)) c.fail("harness: cannot connect"); auto e = ws::shake(cl, id); c.check(e.empty(), e); if (slow) { cl.chunk = 3000 + s.below(60000); cl.lag = 0.0003; }
	ws::Reader rd{ cl }; auto data = [&] { size_t k = 0; for (auto& f : rd.got) k += f.op < 8; return k; }; if (p->end == 3) { size_t want = cl.sent; for (auto& g : plan) want += g.data.size(); cl.run(plan, [&] { rd.take(); return rd.err.size() || rd.closed || (cl.sent >= want && data() >= total); }, 20); cl.run({ { ws::frame(0x88, s.flip() ? "" : std::string("\x03\xe8", 2), 5), 0 } }, nullptr); } else cl.run(plan, [&] { rd.take(); return rd.err.size() || rd.closed; }, 20);
	cl.wait([&] { rd.take(); return cl.over(); }); rd.take(); faulty = 0; bool fin = eventually(12, [&] { return p->over.load(); }); forget(id);
	c.checkf(rd.err.empty(), [&] { return "server sent a bad frame: " + rd.err; }); c.checkf(cl.in.empty(), [&] { return "stream ends within a frame: " + show(cl.in, 40); }); c.check(rd.closed, cl.over() ? "connection ended without a close frame" : "no close frame within 20 s"); c.check(cl.over(), "connection still open after the close frame"); c.check(fin, "handler still running"); c.check(p->bad.empty(), p->bad);
	int want = p->end == 0 || p->end == 4 ? p->code : p->end == 3 ? 1000 : 1001; std::vector<ws::Frame> dat; size_t pong = 0; for (auto& f : rd.got) { if (f.op == 8) { c.check(f.data.size() == 2 && ws::code(f) == want, "close code " + std::to_string(ws::code(f)) + " instead of " + std::to_string(want)); } else if (f.op == 10) { c.check(pong < pings.size() && f.data == pings[pong], "pong " + std::to_string(pong) + " carries " + show(f.data, 40)); pong++; } else if (f.op == 9) c.fail("unexpected ping"); else dat.push_back(f); } if (p->end == 3) c.check(pong == pings.size(), std::to_string(pong) + " pongs for " + std::to_string(pings.size()) + " pings");
	size_t sent = 0; for (auto x : p->sent) sent += x; if (p->end != 4) c.check(sent == total, "only " + std::to_string(sent) + " of " + std::to_string(total) + " messages could be sent"); c.check(dat.size() == sent, std::to_string(dat.size()) + " frames received for " + std::to_string(sent) + " messages sent");
	std::vector<size_t> at(n, 0); bool open = false; for (auto& f : dat) { size_t k = 0; if (n > 1) { k = strtoul(f.data.c_str(), nullptr, 10); c.check(k < n && at[k] < p->senders[k].size(), "frame of no sender: " + show(f.data, 40)); } auto& o = p->senders[k][at[k]]; c.checkf(f.data == o.data, [&] { return "message " + std::to_string(k) + "." + std::to_string(at[k]) + " arrived as " + std::to_string(f.data.size()) + " bytes " + show(f.data, 40) + " instead of " + std::to_string(o.data.size()) + " bytes " + show(o.data, 40); });
		int op = open ? 0 : o.binary ? 2 : 1; c.check(f.op == op && f.fin == !o.partial, "message " + std::to_string(k) + "." + std::to_string(at[k]) + " has opcode " + std::to_string(f.op) + (f.fin ? " final" : " not final") + " instead of " + std::to_string(op) + (o.partial ? " not final" : " final")); open = o.partial; at[k]++; if (o.partial) c.label("multipart"); if (o.data.size() > 65535) c.label("64 bit length"); else if (o.data.size() > 125) c.label("16 bit length"); }
	c.nontrivial(total > 1 || pings.size() > 0); if (n > 1) c.label("several senders"); c.label(p->end == 0 ? "explicit close" : p->end == 1 ? "handler returns" : p->end == 2 ? "handler throws" : p->end == 3 ? "client closes" : "close races with senders"); if (pings.size()) c.label("client pings");
}
// ------------------------------------------------------------ heartbeat
static void heartbeat(Src& s, Case& c) {
	exempt = true; ahead = 0; size_t n = 1 + s.below(6); struct Conn { std::string id; std::shared_ptr<Plan> p; Client cl; std::unique_ptr<ws::Reader> rd; int policy = 0; size_t until = 0, pings = 0, seen = 0; int missed = 0, gone = 0; bool dead = false; }; std::vector<Conn> cn(n); auto& sv = srv[s.below(2)]; size_t k = 0;
	for (auto& q : cn) { q.id = nextid(); q.p = std::make_shared<Plan>(); q.p->end = 3; q.p->senders.resize(1); q.policy = s.weighted({ 3, 2, 2 }); q.until = s.below(4); add(q.id, q.p); if (!q.cl.open(sv.port)) c.fail("harness: cannot connect"); auto e = ws::shake(q.cl, q.id); c.check(e.empty(), e); q.rd = std::make_unique<ws::Reader>(ws::Reader{ q.cl }); q.rd->keepalive = true; c.note("connection " + std::to_string(k++) + (q.policy == 0 ? " answers every ping" : q.policy == 1 ? " answers every other ping" : " answers " + std::to_string(q.until) + " pings") + "\n"); }
	size_t steps = 3 + s.below(7); uint32_t mask = 0x11223344; auto sync = [&](Conn& q, size_t step) { auto tag = "sync" + std::to_string(step); q.cl.send(ws::frame(0x89, tag, mask)); q.cl.wait([&] { q.rd->take(); if (q.rd->closed) return true; for (auto& f : q.rd->got) if (f.op == 10 && f.data == tag) return true; return false; }, 12); };
	for (size_t i = 0; i < 3 + steps; i++) { double jump = 5.1 + s.below(9) * 0.1; for (auto& q : cn) if (!q.dead) sync(q, i * 2); ahead += (int64_t)(jump * 1e9); k = 0; for (auto& q : cn) { auto name = "connection " + std::to_string(k++); if (q.dead) continue; size_t had = q.seen; q.cl.wait([&] { q.rd->take(); if (q.rd->closed || q.cl.over()) return true; size_t m = 0; for (auto& f : q.rd->got) m += f.op == 9; q.seen = m; return m > had; }, 12); c.check(q.rd->err.empty(), q.rd->err);
			if (q.rd->closed || q.cl.over()) { c.check(q.policy == 2 && q.missed >= 2, name + " was closed although it answered " + (q.missed ? "all pings but " + std::to_string(q.missed) : std::string("all pings"))); q.dead = true; q.cl.wait([&] { q.rd->take(); return q.cl.over(); }); c.check(q.cl.over(), name + " still open after its close frame"); c.label("silent client closed"); continue; }
			c.check(q.seen > had, name + " got no ping although " + std::to_string(jump) + " s passed"); q.pings++; auto& f = *std::find_if(q.rd->got.rbegin(), q.rd->got.rend(), [](auto& x) { return x.op == 9; }); bool answer = q.policy == 0 || (q.policy == 1 && q.pings % 2 == 0) || (q.policy == 2 && q.pings <= q.until); if (answer) { q.cl.send(ws::frame(0x8a, f.data, mask)); q.missed = 0; } else { q.missed++; q.cl.send(s.flip() ? ws::frame(0x8a, "other", mask) : ws::frame(0x81, "data", mask)); } sync(q, i * 2 + 1); c.check(q.policy == 2 || !q.rd->closed, name + " was closed although it answers pings"); c.check(q.missed < 6, name + " is still open after " + std::to_string(q.missed) + " unanswered pings"); } }
	k = 0; for (auto& q : cn) { if (!q.dead && !q.rd->closed) { q.cl.send(ws::frame(0x88, "", mask)); } q.cl.wait([&] { q.rd->take(); return q.cl.over(); }); q.rd->take(); c.check(q.cl.over() && q.rd->closed, "connection " + std::to_string(k) + " does not close"); c.check(eventually(12, [&] { return q.p->over.load(); }), "handler still waiting"); forget(q.id); k++; if (q.policy < 2) c.label("answering client kept"); } c.nontrivial(true); ahead = 0;
}
int main(int argc, char** argv) {
	return run(argc, argv, "C09", {
		{ "handshake", handshake, 8000, 200000, "handshake requests in any header order, spelling and segmentation, valid and invalid (method, missing or foreign upgrade, missing key), after 0-2 ordinary requests on the connection; status, accept value against an independent SHA-1, and frames afterwards; all non-trivial", 12, 60, 25, false, false, init },
		{ "outbound", outbound, 24000, 150000, "1-5 threads of a handler sending up to 60 messages each (payloads 0 to 400 kB around every length encoding, all constructors, multipart) under short and interrupted sends and slow clients, while the client pings, ended by close with any reason, return, exception, the client, or two closers racing with the senders; an independent strict frame reader compares every frame; non-trivial: more than one message or a ping", 12, 60, 30, false, false, init },
		{ "heartbeat", heartbeat, 240, 6000, "1-6 upgraded connections under a clock moved ahead 5-6 s at a time, answering all, every other or only the first few pings: answering clients stay, silent ones are closed; all non-trivial", 12, 90, 40, false, false, init },
		{ "outbound-tsan", outbound, 3000, 20000, "the outbound histories on a thread-sanitized build", 8, 60, 30, false, false, init } });
}
