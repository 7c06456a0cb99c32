// C11: servers start, stop and restart cleanly
#include "ws_common.hpp"
#include "http_common.hpp"
using namespace pbt; using namespace net; namespace L = Lambda;
// what the handlers of one instance do and did
struct World {
	std::mutex m; std::condition_variable cv; bool open = false; std::map<std::string, int> entered, left; std::atomic<int> running{ 0 }, gated{ 0 }, late{ 0 }; std::atomic<bool> over{ false };
	void release() { std::lock_guard<std::mutex> l(m); open = true; cv.notify_all(); }
	int seen(const std::string& id) { std::lock_guard<std::mutex> l(m); auto i = entered.find(id); return i == entered.end() ? 0 : i->second; }
};
static std::string body(const std::string& id, size_t n) { std::string b = "R:" + id + ":"; while (b.size() < n) b += id + (char)('a' + b.size() % 23); return b; }
static L::RequestCallback handler(std::shared_ptr<World> w) {
	return [w](const L::HTTP::Request& rq, const L::RequestContext& cx) -> L::HandlerResponse {
		struct In { World& w; In(World& x) : w(x) { w.running++; if (w.over) w.late++; } ~In() { if (w.over) w.late++; w.running--; } } in{ *w }; auto id = rq.headers.get("x-case"), how = rq.headers.get("x-how"); size_t n = strtoul(rq.headers.get("x-size").c_str(), nullptr, 10); { std::lock_guard<std::mutex> l(w->m); w->entered[id]++; } struct Out { World& w; std::string id; ~Out() { std::lock_guard<std::mutex> l(w.m); w.left[id]++; } } out{ *w, id };
		if (how == "gate") { std::unique_lock<std::mutex> l(w->m); w->gated++; w->cv.wait(l, [&] { return w->open; }); w->gated--; } else if (how == "slow") nap(0.004); else if (how == "ws") { auto s = cx.upgrateToWebsocket(); while (s.awaitMessage()) { auto m = s.nextMessage(); s.sendMessage(m.data); } return {}; } else if (how == "sse") { auto s = cx.startEventStream(); while (s.connected()) { try { s.push({ "tick" }); } catch (const std::exception&) { break; } nap(0.002); } return {}; } else if (how == "throw") throw std::runtime_error(body(id, n));
		return body(id, n); };
}
static std::string nextid() { static std::atomic<uint64_t> serial{ 0 }; return std::to_string(getpid()) + "." + std::to_string(++serial); }
static std::string wire(const std::string& id, const std::string& how, size_t n, bool close) { return "GET / HTTP/1.1\r\nx-case: " + id + "\r\nx-how: " + how + "\r\nx-size: " + std::to_string(n) + "\r\n" + (how == "ws" ? "upgrade: websocket\r\nconnection: upgrade\r\nsec-websocket-key: YQ==\r\n" : close ? "connection: close\r\n" : "") + "\r\n"; }
// a request that has to be served
static std::string served(uint16_t port, const std::string& id) { Client cl; if (!cl.open(port)) return "connection refused"; cl.send(wire(id, "", 0, false)); net::Response r; auto e = next(cl, false, r); if (e.empty() && r.body != body(id, 0)) e = "answered with " + show(r.body, 60); return e; }
struct Rq { std::string id, how; size_t n = 0; bool close = false; double pause = 0; };
struct Cl { std::vector<Rq> rq; double delay = 0, hold = 0; bool piped = false, busy = false; int end = 0; std::string err; std::vector<std::string> got; bool refused = false; bool ended = false; };
static void client(Cl& x, uint16_t port, std::atomic<bool>& stopping) {
	nap(x.delay); Client cl; if (!cl.open(port)) { x.refused = true; if (!stopping) x.err = "connection refused although the server is running"; return; }
	auto take = [&](const Rq& q, bool last) { net::Response r; std::string why; int st = 0; cl.wait([&] { if (cl.in.empty()) return false; st = parse(cl.in, 0, false, r, why, q.how == "sse"); return st != 0; }, 30); if (st < 0) { x.err = "malformed response: " + why; return false; } if (!st) { x.ended = true; if (!cl.over()) x.err = "neither a response nor the end of the connection within 30 s"; else if (cl.in.size() && !cl.reset) x.err = "connection ends within a response (" + std::to_string(cl.in.size()) + " bytes)"; else if (cl.in.size()) x.err = "connection is reset within a response"; return false; } cl.in.erase(0, r.size); if (q.how != "ws" && q.how != "sse" && (q.how == "throw" ? r.body.find(q.id) == std::string::npos : r.body != body(q.id, q.n))) { x.err = "request " + q.id + " answered with " + show(r.body, 60); return false; } x.got.push_back(q.id); (void)last; return true; };
	if (x.piped) { std::string all; for (auto& q : x.rq) all += wire(q.id, q.how, q.n, q.close); cl.send(all); for (size_t i = 0; i < x.rq.size(); i++) if (!take(x.rq[i], i + 1 == x.rq.size())) break; } else for (size_t i = 0; i < x.rq.size(); i++) { nap(x.rq[i].pause); if (!cl.send(wire(x.rq[i].id, x.rq[i].how, x.rq[i].n, x.rq[i].close)) && !cl.over()) {} if (!take(x.rq[i], i + 1 == x.rq.size())) break; }
	if (!x.rq.empty() && x.rq.back().how == "ws" && x.got.size() == x.rq.size()) { cl.send(ws::frame(0x81, "echo", 5)); ws::Reader rd{ cl }; if (x.end == 0) { cl.wait([&] { rd.take(); return cl.over(); }, 30); rd.take(); if (rd.err.size()) x.err = rd.err; else if (cl.eof && !rd.closed) x.err = "websocket ends without a close frame"; } }
	// asks on and on, whatever happens to the server, up to a while after the shutdown
	if (x.busy && x.err.empty() && !x.ended) { auto tag = nextid(); double since = 0, limit = now() + 40; size_t k = 0; while (x.err.empty() && !x.ended) { Rq q; q.id = tag + "-" + std::to_string(k++); cl.send(wire(q.id, "", 0, false)); if (take(q, true)) x.got.pop_back(); if (stopping && !since) since = now(); if (since && now() - since > 8) { x.err = "requests are still answered 8 s after the shutdown"; break; } if (now() > limit) { x.err = "harness: never stopped"; break; } } }
	if (x.end == 0) { cl.wait([&] { return cl.over(); }, 30); if (!cl.over()) x.err = "connection still open 30 s later"; x.ended = true; if (x.err.empty() && cl.in.size() && (x.rq.empty() || (x.rq.back().how != "sse" && x.rq.back().how != "ws"))) x.err = "unexpected bytes " + show(cl.in, 60); } else { nap(x.hold); if (x.end == 1) cl.drop(); else cl.rst(); }
}
static void cycle(Src& s, Case& c) {
	size_t f0 = fds(), t0 = net::threads(), cycles = 1 + s.weighted({ 3, 2, 1 }); bool track = !s.chance(1, 4); uint16_t port = 0; bool under = false, inflight = false;
#ifdef __SANITIZE_THREAD__
	track = true;	// nothing a thread sanitizer knows of orders a detached thread's end before the destruction
#endif
	c.note(track ? "tracked connections\n" : "detached connections\n"); c.label(track ? "tracked" : "detached");
	for (size_t cy = 0; cy < cycles; cy++) {
		auto w = std::make_shared<World>(); L::ServerConfig k = config(); k.service.useThreadList = track; k.service.fastPortReuse = true; k.service.maxConnections = s.pick({ 500u, 0u, 50u, 64u, 4000000000u }); k.service.connectionTimeouts.receive = s.pick({ 100u, 200u, 400u }); k.service.connectionTimeouts.send = 12000; net::Server sv;
		if (!cy) { sv = start(k, handler(w)); port = sv.port; } else { k.service.port = port; try { sv.inst = std::make_unique<L::LambdaInstance>(handler(w), k); sv.port = port; } catch (const std::exception& e) { if (listening(port) == 2) { c.label("port taken by somebody else"); return; } c.fail("restart " + std::to_string(cy) + " on the same port fails: " + e.what()); } c.label("restart on the same port"); }
		if (s.flip()) { auto e = served(port, nextid()); c.check(e.empty(), "after start " + std::to_string(cy) + ": " + e); }
		size_t n = s.below(7); std::vector<Cl> cl(n); int mode = s.below(track ? 6 : 4); double lead = s.weighted({ 2, 3, 1 }); lead = lead == 0 ? 0 : lead == 1 ? s.below(20) * 0.0003 : s.below(20) * 0.001; double opener = s.below(10) * 0.0006; static const char* MODE[] = { "shutdown, wait, destroy", "wait in another thread, shutdown", "shutdown from two threads, wait", "shutdown, wait in two places", "destroy", "shutdown, destroy" };
		c.note("cycle " + std::to_string(cy) + ": " + MODE[mode] + " after " + std::to_string((int)(lead * 1e6)) + " us, receive timeout " + std::to_string(k.service.connectionTimeouts.receive) + ", limit " + std::to_string(k.service.maxConnections) + "\n"); c.label(MODE[mode]); bool gates = false;
		for (auto& x : cl) { size_t m = s.below(5); x.piped = s.flip(); x.delay = s.weighted({ 2, 1 }) ? s.below(12) * 0.0004 : 0; x.end = s.weighted({ 5, 1, 1 }); x.hold = s.below(10) * 0.0005; for (size_t i = 0; i < m; i++) { Rq q; q.id = nextid(); unsigned h = s.weighted({ 5, 3, 3, 1, 1, 1 }); static const char* H[] = { "", "slow", "gate", "throw", "ws", "sse" }; q.how = H[h]; if (q.how == "gate" && !track) q.how = "slow"; if (q.how == "sse" && (!track || x.end)) q.how = "slow"; if (q.how == "ws" && (!track)) q.how = ""; gates |= q.how == "gate"; q.n = s.chance(1, 5) ? s.pick({ 5000u, 70000u, 600000u }) : s.below(100); q.close = s.chance(1, 10); q.pause = s.below(4) * 0.0005; x.rq.push_back(q); c.note((i ? " " : "  client:") + (q.how.empty() ? std::string("plain") : q.how)); if (q.close || q.how == "ws" || q.how == "sse") break; } x.busy = track && x.end == 0 && !s.below(6) && (x.rq.empty() || (!x.rq.back().close && x.rq.back().how != "ws" && x.rq.back().how != "sse")); if (x.busy) { c.label("never ceasing client"); c.note(" asks on;"); } c.note(x.rq.size() ? (x.piped ? " pipelined" : "") + std::string(x.end == 0 ? ", stays\n" : x.end == 1 ? ", closes\n" : ", resets\n") : "  idle client\n"); }
		std::atomic<bool> stopping{ false }; std::vector<std::thread> th; for (auto& x : cl) th.emplace_back([&] { client(x, port, stopping); }); nap(lead); std::vector<std::thread> aux; std::atomic<bool> returned{ false }; auto tag = nextid(); std::string early;
		std::thread watch([&] { double end = now() + 0.004 + opener; while (now() < end) { if (returned && w->gated > 0 && track) early = "waiting returned while a handler was running"; nap(0.0002); } w->release(); });	// handlers behind the gate go on some time later
		auto wait = [&] { try { sv.inst->awaitFinished(); } catch (const std::exception& e) { early = std::string("awaitFinished throws ") + e.what(); } if (track && w->running > 0) early = "a handler is running after waiting returned"; returned = true; };
		auto stop = [&] { stopping = true; sv.inst->shutdownn(); if (listening(port) == 1) early = "still listening after shutdown"; Client x; if (x.open(port) && listening(port) != 2) { x.send(wire(tag, "", 0, false)); x.waitend(0.05); } };
		switch (mode) { case 0: stop(); wait(); break; case 1: aux.emplace_back([&] { wait(); }); nap(0.001); c.check(stopping || !returned, "waiting returned before any shutdown"); stop(); aux[0].join(); aux.clear(); break; case 2: for (int i = 0; i < 2; i++) aux.emplace_back([&] { stop(); }); for (auto& t : aux) t.join(); aux.clear(); wait(); break; case 3: stop(); wait(); wait(); break; case 4: stopping = true; break; case 5: stop(); break; }
		under |= w->running > 0; inflight |= gates; if (mode < 4 && track) { w->over = true; } if (!track) { for (auto& t : th) t.join(); th.clear(); watch.join(); bool q = eventually(30, [&] { return w->running == 0 && net::threads() <= t0; }); c.check(q, "connection threads are still there 30 s after their clients left"); sv.inst.reset(); } else { sv.inst.reset(); w->over = true; c.check(w->running == 0, "a handler is running after destruction"); for (auto& t : th) t.join(); watch.join(); }
		c.check(early.empty(), early); c.check(!w->seen(tag), "a connection made after shutdown was served"); c.check(listening(port) != 1, "still listening after destruction"); for (size_t i = 0; i < n; i++) { auto& x = cl[i]; auto nm = "client " + std::to_string(i) + ": "; c.check(x.err.empty(), nm + x.err); size_t ran = 0; for (auto& q : x.rq) { int e = w->seen(q.id); c.check(e <= 1, nm + "request handled " + std::to_string(e) + " times"); ran += e; } if (ran) under = true; c.check(x.got.size() <= ran || ran == x.rq.size(), nm + std::to_string(x.got.size()) + " responses for " + std::to_string(ran) + " handled requests"); c.check(x.got.size() == ran, nm + "only " + std::to_string(x.got.size()) + " of " + std::to_string(ran) + " requests that reached the handler were answered"); for (size_t q = 0; q < x.got.size(); q++) c.check(x.got[q] == x.rq[q].id, nm + "responses out of order"); }
		nap(0.0003); c.check(w->late == 0 && w->running == 0, "a handler ran after waiting returned"); }
	c.check(eventually(12, [&] { return fds() <= f0 && net::threads() <= t0; }), "left over: " + std::to_string((long)fds() - (long)f0) + " descriptors, " + std::to_string((long)net::threads() - (long)t0) + " threads"); c.nontrivial(under || cycles > 1); if (inflight) c.label("requests held across the shutdown");
}
// ------------------------------------------------------------ connection limit
static void limit(Src& s, Case& c) {
	unsigned kind = s.weighted({ 8, 1, 1 }); size_t max = 50 + s.below(8); auto k = config(); k.service.useThreadList = kind < 2; k.service.maxConnections = kind == 1 ? 0 : max; k.service.connectionTimeouts.receive = 12000; auto w = std::make_shared<World>(); size_t f0 = fds(), t0 = net::threads(); auto sv = start(k, handler(w)); size_t extra = 1 + s.below(8), all = max + extra; std::vector<std::unique_ptr<Client>> cl(all); std::vector<std::string> id(all); bool burst = s.flip(), unlimited = kind > 0; c.note((kind == 0 ? "limit " + std::to_string(max) : kind == 1 ? std::string("no limit") : "limit " + std::to_string(max) + " without tracking") + ", " + std::to_string(all) + (burst ? " connections at once\n" : " connections one after another\n")); c.label(kind == 0 ? "limited" : kind == 1 ? "no limit" : "not tracked");
	auto open = [&](size_t i) { cl[i] = std::make_unique<Client>(); if (!cl[i]->open(sv.port)) c.fail("harness: cannot connect"); }; auto ask = [&](Client& x, std::string& q, const std::string& how) { q = nextid(); x.send(wire(q, how, 0, false)); };
	auto answer = [&](Client& x, const std::string& q, bool must, const std::string& name) { net::Response r; auto e = next(x, false, r); if (e.empty()) { c.check(r.body == body(q, 0), name + " answered with " + show(r.body, 60)); return true; } c.check(!must, name + ": " + e); c.check(x.over(), name + ": " + e); c.check(x.in.empty(), name + " beyond the limit got " + show(x.in, 60)); c.check(!w->seen(q), name + " beyond the limit was served"); return false; };
	std::vector<size_t> live; size_t held = s.flip() ? s.below(20) : 0; if (burst) { for (size_t i = 0; i < all; i++) open(i); size_t n = 0; std::vector<size_t> order(all); for (size_t i = 0; i < all; i++) order[i] = i; for (size_t i = all; i > 1; i--) std::swap(order[i - 1], order[s.below(i)]); for (size_t i : order) ask(*cl[i], id[i], ""); for (size_t i : order) if (answer(*cl[i], id[i], unlimited, "connection " + std::to_string(i))) { n++; live.push_back(i); } else cl[i]->drop(); if (!unlimited) c.check(n == max, std::to_string(n) + " of " + std::to_string(all) + " connections were served under a limit of " + std::to_string(max)); }
	else { for (size_t i = 0; i < all; i++) { open(i); ask(*cl[i], id[i], ""); bool must = unlimited || i < max; bool ok = answer(*cl[i], id[i], must, "connection " + std::to_string(i)); c.check(must || !ok, "connection " + std::to_string(i) + " was served beyond a limit of " + std::to_string(max)); if (ok) live.push_back(i); else cl[i]->drop(); } }
	for (size_t i = 0; i < held && i < live.size(); i++) { auto j = live[i]; ask(*cl[j], id[j], "gate"); } size_t rounds = 1 + s.below(3); for (size_t rd = 0; rd < rounds && !unlimited; rd++) {
		{ Client x; std::string q; if (!x.open(sv.port)) c.fail("harness: cannot connect"); ask(x, q, ""); c.check(!answer(x, q, false, "a further connection"), "a further connection was served beyond a limit of " + std::to_string(max)); }
		for (size_t i = rd ? 0 : held; i < live.size(); i += 1 + s.below(8)) { auto j = live[i]; ask(*cl[j], id[j], ""); answer(*cl[j], id[j], true, "earlier connection " + std::to_string(j)); } if (!rd) { w->release(); for (size_t i = 0; i < held && i < live.size(); i++) answer(*cl[live[i]], id[live[i]], true, "connection held over the refusal"); }
		size_t freed = 1 + s.below(s.flip() ? 4 : 30); for (size_t i = 0; i < freed; i++) { size_t p = s.below(live.size()); auto& x = *cl[live[p]]; switch (s.below(4)) { case 0: x.drop(); break; case 1: x.rst(); break; case 2: x.finish(); x.waitend(); c.check(x.over(), "connection open after the client's end"); break; default: x.send("GET /\r\n\r\n"); x.waitend(); c.check(x.over(), "connection open after a malformed request"); } live.erase(live.begin() + p); } c.note("round " + std::to_string(rd) + ": " + std::to_string(freed) + " connections end; ");
		for (size_t i = 0; i < freed; i++) { bool ok = false; double end = now() + 12; while (!ok && now() < end) { cl.push_back(std::make_unique<Client>()); id.emplace_back(); if (!cl.back()->open(sv.port)) c.fail("harness: cannot connect"); ask(*cl.back(), id.back(), ""); ok = answer(*cl.back(), id.back(), false, "replacement"); if (!ok) { cl.pop_back(); id.pop_back(); nap(0.002); } } c.check(ok, "capacity of " + std::to_string(freed - i) + " finished connections does not become available again"); live.push_back(cl.size() - 1); } c.label("capacity reused"); }
	w->release(); for (auto& x : cl) if (x) x->drop(); if (kind == 2) c.check(eventually(20, [&] { return net::threads() <= t0 + 1; }), "connection threads left over"); sv.inst.reset(); c.check(eventually(12, [&] { return fds() <= f0 && net::threads() <= t0; }), "left over: " + std::to_string((long)fds() - (long)f0) + " descriptors, " + std::to_string((long)net::threads() - (long)t0) + " threads"); c.nontrivial(true);
}
// ------------------------------------------------------------ configurations that cannot start
static void refused(Src& s, Case& c) {
	size_t f0 = fds(), t0 = net::threads(); auto w = std::make_shared<World>(); w->open = true; auto k = config(); k.service.useThreadList = s.flip(); unsigned kind = s.below(2); std::string what; if (kind == 0) { k.service.maxConnections = 1 + s.below(49); k.service.port = someport(); c.note("limit " + std::to_string(k.service.maxConnections) + "\n"); try { L::LambdaInstance x(handler(w), k); c.fail("a limit of " + std::to_string(k.service.maxConnections) + " was accepted"); } catch (const Failure&) { throw; } catch (const std::exception& e) { what = e.what(); } c.check(listening(k.service.port) != 1, "still listening after a failed start"); }
	else { auto sv = start(k, handler(w)); auto k2 = k; k2.service.port = sv.port; k2.service.fastPortReuse = s.flip(); size_t n = 1 + s.below(4); c.note(std::to_string(n) + " more servers on a port in use\n"); for (size_t i = 0; i < n; i++) { try { L::LambdaInstance x(handler(w), k2); c.fail("two servers on one port"); } catch (const Failure&) { throw; } catch (const std::exception& e) { what = e.what(); } } auto e = served(sv.port, nextid()); c.check(e.empty(), "first server after the failed start of others: " + e); if (k.service.useThreadList == false) eventually(12, [&] { return net::threads() <= t0 + 1; }); }
	c.check(what.size(), "no explanation"); c.check(eventually(12, [&] { return fds() <= f0 && net::threads() <= t0; }), "left over: " + std::to_string((long)fds() - (long)f0) + " descriptors, " + std::to_string((long)net::threads() - (long)t0) + " threads"); c.nontrivial(true); c.label(kind ? "port in use" : "limit too low");
}
static void init() { quiet(); std::thread([] { nap(0.01); }).join(); }
int main(int argc, char** argv) {
	return run(argc, argv, "C11", {
		{ "cycle", cycle, 1400, 30000, "1-3 start/stop cycles of a server on one port with up to 6 clients each (idle, sequential and pipelined requests to quick, slow, failing and held handlers, websockets, event streams), stopped at a random point by shutdown and wait from one or several threads or by destruction: every request that reached the handler is answered completely and in order, nothing is served or running afterwards, the port can be bound again, no descriptor or thread is left; non-trivial: requests were handled or the server restarted", 12, 80, 40, false, false, init },
		{ "limit", limit, 500, 10000, "51-65 connections at once or one after another under limits of 50-57 (or none, or without tracking): exactly the limit is served, the rest is closed without a byte, earlier connections (some held in their handler) go on, capacity of connections ended in four ways comes back; all non-trivial", 8, 80, 40, false, false, init },
		{ "refused", refused, 400, 8000, "servers with too low a limit or on a port in use fail to start with an error, leave nothing behind and do not disturb the one that is running; all non-trivial", 8, 60, 30, false, false, init },
		{ "cycle-tsan", cycle, 350, 5000, "the start/stop cycles on a thread-sanitized build", 10, 80, 40, false, false, init } });
}
