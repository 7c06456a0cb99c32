// C12: connections release every resource they used
#include "ws_common.hpp"
#include "http_common.hpp"
#include "leak.hpp"
#include <dlfcn.h>
#include <pthread.h>
using namespace pbt; using namespace net; namespace L = Lambda;
static thread_local bool exempt = false; static std::atomic<int> failthread{ 0 }, failopt{ 0 };
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) { static auto real = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create"); if (!exempt) { int k = failthread; while (k > 0 && !failthread.compare_exchange_weak(k, k - 1)) {} if (k > 0) return EAGAIN; } return real(t, a, f, x); }
static const std::string BIG(1500000, 'B'); static std::atomic<long> busy{ 0 }; static net::Server srv[5];	// tracked and detached, patient and hasty; tracked without a limit
static L::HandlerResponse handle(const L::HTTP::Request& rq, const L::RequestContext& cx) {
	struct Busy { Busy() { busy++; } ~Busy() { busy--; } } b; exempt = true; auto path = rq.url.pathname;
	if (path == "/socket" || path == "/ws") { auto w = cx.upgrateToWebsocket(); auto how = rq.url.searchParams.get("how"); w.sendMessage(std::string("hello")); if (how == "return") return {}; if (how == "throw") throw std::runtime_error("planned"); if (how == "close") { w.close(L::Websocket::CloseReason::Normal); return {}; } while (w.awaitMessage()) { auto m = w.nextMessage(); w.sendMessage(m.data); } return {}; }
	if (path == "/sse") { auto w = cx.startEventStream(); for (int i = 0; i < 60 && w.connected(); i++) { w.push({ std::string(500, 'e') }); nap(0.0005); } if (rq.url.searchParams.get("how") == "close") w.close(); return {}; } if (path == "/big") { L::HTTP::Response r(200); r.body = BIG; return r; } if (path == "/medium") { L::HTTP::Response r(200); r.body = BIG.substr(0, 60000); return r; } if (path == "/slow") { nap(0.003); return "slow"; } if (path == "/throw") throw std::runtime_error("planned"); if (path == "/none") return {}; if (path == "/cookies") { L::HTTP::Cookies ck(rq.headers.get("cookie")); ck.set("b", "2"); L::HTTP::Response r(200); r.setCookies(ck); r.body = std::string("cookies"); return r; } return "ok";
}
static void init() { exempt = true; quiet(); auto c = config(); c.transport.maxRequestSize = 50000; exempt = false; for (int i = 0; i < 4; i++) { c.service.useThreadList = !(i & 1); c.service.maxConnections = 60; c.service.connectionTimeouts.receive = c.service.connectionTimeouts.send = i > 1 ? 120 : 12000; c.errorResponseType = (L::ErrorResponseType)(i % 3); srv[i] = start(c, handle); } c.service.useThreadList = true; c.service.maxConnections = 0; c.service.connectionTimeouts.receive = c.service.connectionTimeouts.send = 12000; srv[4] = start(c, handle); exempt = true; }
// ------------------------------------------------------------ scripts of single connections
struct Script { unsigned kind = 0; std::string first, rest; std::vector<Segment> seg; unsigned end = 0; bool read = true; double hold = 0; size_t answers = 0; };
static const char* KIND[] = { "served", "malformed", "unfinished", "websocket", "event stream", "large response", "failing handler", "too large", "nothing sent" }; static const char* END[] = { "closes", "resets", "half-closes", "waits for the end" };
static Script script(Src& s, bool hasty, bool quick) {
	Script x; x.kind = s.below(quick ? 8 : 9); x.end = s.below(4); auto get = [&](const std::string& p, bool close) { return "GET " + p + " HTTP/1.1\r\naccept-encoding: " + std::string(s.pick({ "x", "gzip", "br", "deflate" })) + "\r\ncookie: a=1; b=2\r\n" + (close ? "connection: close\r\n" : "") + "\r\n"; }; bool selfend = false;
	switch (x.kind) { case 0: { size_t n = 1 + s.below(5); for (size_t i = 0; i < n; i++) { bool cl = i + 1 == n && s.chance(1, 3); x.rest += get(s.pick({ "/", "/slow", "/cookies", "/a?b=c&d=e" }), cl); selfend |= cl; } x.answers = n; break; } case 1: x.rest = s.pick({ "GET /\r\n\r\n", "BREW / HTTP/1.1\r\n\r\n", "GET / HTTP/1.1\r\nbroken\r\n\r\n", "POST / HTTP/1.1\r\ncontent-length: x\r\n\r\n", "GET / HTTP/1.1\r\ntransfer-encoding: chunked\r\n\r\n" }); selfend = true; x.answers = 0; break; case 2: x.rest = "POST / HTTP/1.1\r\ncontent-length: 40000\r\n\r\n" + std::string(s.below(30000), 'x'); x.rest.resize(1 + s.below(x.rest.size())); break;
	case 3: { auto how = s.pick({ "echo", "return", "throw", "close" }); x.first = "GET /ws?how=" + std::string(how) + " HTTP/1.1\r\nupgrade: websocket\r\nconnection: upgrade\r\nsec-websocket-key: YWJj\r\n\r\n"; size_t n = s.below(5); for (size_t i = 0; i < n; i++) x.rest += ws::frame((uint8_t)s.pick({ 0x81, 0x82, 0x89, 0x8a, 0x01, 0x80, 0x83 }), s.bytestr(s.below(quick ? 100 : 3000)), 99); if (x.end == 3) x.rest += ws::frame(0x88, "", 5); selfend = true; break; }
	case 4: x.rest = get(s.flip() ? "/sse" : "/sse?how=close", false); selfend = true; break; case 5: x.rest = get(quick ? "/medium" : "/big", true); selfend = true; break; case 6: { size_t n = 1 + s.below(3); for (size_t i = 0; i < n; i++) x.rest += get(s.pick({ "/throw", "/none" }), i + 1 == n); selfend = true; x.answers = n; break; } case 7: x.rest = "POST / HTTP/1.1\r\ncontent-length: 60000\r\n\r\n"; selfend = true; break; default: break; }
	if (x.end == 3 && !selfend && !hasty) x.end = s.below(3); x.read = x.kind == 5 ? s.flip() : s.chance(4, 5); if (x.end == 3) x.read = true; x.hold = s.chance(1, 3) ? s.below(10) * 0.0004 : 0; x.seg = cut(s, x.rest, {}, 3); if (quick) for (auto& g : x.seg) g.pause = 0; if (x.end < 2 && s.chance(1, 3) && x.seg.size() > 1) { x.seg.resize(1 + s.below(x.seg.size() - 1)); x.answers = 0; } return x;
}
static std::string play(const Script& x, uint16_t port) {
	Client cl; if (!cl.open(port, x.read ? 0 : 4096)) return "harness: cannot connect"; if (x.first.size()) { cl.send(x.first); cl.wait([&] { return cl.in.find("\r\n\r\n") != std::string::npos; }); } cl.run(x.seg, nullptr, x.read ? 2 : 0.1); if (x.read && x.answers && x.end != 1) cl.wait([&] { size_t n = 0, p = 0; while ((p = cl.in.find("HTTP/1.1 ", p)) != std::string::npos) { n++; p++; } return n >= x.answers; }, 2); if (x.hold) { if (x.read) cl.wait([&] { return cl.over(); }, x.hold); else nap(x.hold); }
	if (x.end == 0) cl.drop(); else if (x.end == 1) cl.rst(); else if (x.end == 2) { cl.finish(); cl.waitend(0.1); } else { cl.waitend(20); if (!cl.over()) return "connection is not ended (" + std::string(KIND[x.kind]) + ")"; } return "";
}
static void settled(Case& c, size_t f0, size_t t0, const std::string& when) { bool ok = eventually(20, [&] { return busy == 0 && fds() <= f0 && net::threads() <= t0; }); c.check(ok, when + ": " + std::to_string((long)fds() - (long)f0) + " descriptors, " + std::to_string((long)net::threads() - (long)t0) + " threads, " + std::to_string(busy.load()) + " handlers left 20 s after all connections ended"); }
static void histories(Src& s, Case& c) {
	exempt = true; unsigned w = s.weighted({ 3, 3, 2, 2, 1 }); auto& sv = srv[w]; size_t f0 = fds(), t0 = net::threads(), n = 1 + s.below(14); std::vector<Script> sc; c.note(std::string(w & 1 ? "detached" : "tracked") + (w == 4 ? ", no limit\n" : w > 1 ? ", short timeouts\n" : "\n")); c.label(w & 1 ? "detached" : "tracked"); int ft = s.chance(1, 8) ? 1 + s.below(3) : 0; for (size_t i = 0; i < n; i++) { sc.push_back(script(s, w == 2 || w == 3, false)); auto& x = sc.back(); c.note(std::string("  ") + KIND[x.kind] + " " + show(x.first + x.rest, 60) + " " + plan(x.seg) + ", " + END[x.end] + (x.read ? "\n" : " without reading\n")); c.label(KIND[x.kind]); c.label(END[x.end]); } if (ft) { c.note("thread creation fails " + std::to_string(ft) + " times\n"); c.label("thread creation fails"); }
	std::vector<std::string> err(n); std::vector<std::thread> t; for (size_t i = 0; i < n; i++) t.emplace_back([&, i] { exempt = true; err[i] = play(sc[i], sv.port); }); failthread = ft; for (auto& x : t) x.join(); failthread = 0; for (auto& e : err) c.check(e.empty(), e); settled(c, f0, t0, "after " + std::to_string(n) + " connections"); c.nontrivial(n > 1);
}
// ------------------------------------------------------------ memory
static void memory(Src& s, Case& c) {
	exempt = true; unsigned w = s.pick({ 0u, 1u, 4u }); auto& sv = srv[w]; size_t f0 = fds(), t0 = net::threads(), kinds = 1 + s.below(3); std::vector<Script> sc; for (size_t i = 0; i < kinds; i++) { auto x = script(s, false, true); if (x.kind == 5) x.read = true; x.hold = 0; sc.push_back(x); c.note(std::string(KIND[x.kind]) + " " + show(x.first + x.rest, 80) + ", " + END[x.end] + "\n"); c.label(KIND[x.kind]); } c.label(w == 1 ? "detached" : w ? "tracked without limit" : "tracked"); size_t n = w == 1 ? 40 : 120; size_t slack = w == 1 ? n * 6 : w ? 6000 : 24000;
	auto round = [&]() -> long { std::vector<std::string> e(10); std::vector<std::thread> t; std::atomic<size_t> nx{ 0 }; for (auto& y : e) t.emplace_back([&] { exempt = true; for (size_t i; y.empty() && (i = nx++) < n;) y = play(sc[i % kinds], sv.port); }); for (auto& x : t) x.join(); for (auto& y : e) c.check(y.empty(), y); settled(c, f0, t0, "after " + std::to_string(n) + " connections"); return (long)live_bytes(); };
	long a = round(); if (!a) { c.note("no byte counts in this build"); return; } bool grows = true; long b = 0; int rounds = 0; for (; rounds < 4 && grows; rounds++) { b = round(); grows = b - a > (long)slack; if (grows && rounds < 3) a = b; } c.check(!grows, "memory in use grows by " + std::to_string(b - a) + " bytes with every " + std::to_string(n) + " connections"); c.nontrivial(true);
}
// one connection that stays, however much it carries
static void lasting(Src& s, Case& c) {
	exempt = true; unsigned w = s.below(2), kind = s.weighted({ 3, 2 }); auto& sv = srv[w]; size_t kinds = 1 + s.below(4), n = 60; std::vector<std::string> rq; std::vector<size_t> answers; Client cl; if (!cl.open(sv.port)) c.fail("harness: cannot connect"); c.label(kind ? "websocket" : "requests"); c.label(w ? "detached" : "tracked");
	if (kind == 0) for (size_t i = 0; i < kinds; i++) { auto head = std::string(s.pick({ "GET", "POST", "PUT" })) + " " + s.pick({ "/", "/cookies", "/a?b=c&d=e", "/throw", "/none", "/medium" }) + " HTTP/1.1\r\naccept-encoding: " + s.pick({ "x", "gzip", "br", "deflate" }) + "\r\n" + s.pick({ "", "cookie: a=1; b=2\r\n", "x-long: 0123456789012345678901234567890123456789\r\n" }); size_t m = s.pick({ 0u, 10u, 5000u }); rq.push_back(head + (m && head[0] != 'G' ? "content-length: " + std::to_string(m) + "\r\n\r\n" + std::string(m, 'b') : "\r\n")); c.note(show(rq.back(), 120) + "\n"); }
	else { auto e = ws::shake(cl, "x"); c.check(e.empty(), e); for (size_t i = 0; i < kinds; i++) { std::string f; size_t a = 1; auto d = s.bytestr(s.below(800)); switch (s.below(4)) { case 0: f = ws::frame(s.flip() ? 0x81 : 0x82, d, 7); break; case 1: f = ws::frame(0x01, d, 7) + ws::frame(0x00, d, 8) + ws::frame(0x80, d, 9); break; case 2: f = ws::frame(0x89, d.substr(0, 100), 7); break; default: f = ws::frame(0x8a, d.substr(0, 100), 7); a = 0; } rq.push_back(f); answers.push_back(a); c.note(std::to_string(f.size()) + " bytes, opcode " + std::to_string(f[0] & 15) + "\n"); } }
	ws::Reader rd{ cl }; if (kind) { cl.wait([&] { rd.take(); return rd.got.size() >= 1; }); c.check(rd.got.size() == 1, "no greeting on the websocket"); rd.got.clear(); }
	auto round = [&]() -> long { for (size_t i = 0; i < n; i++) { cl.send(rq[i % kinds]); if (kind == 0) { net::Response r; auto e = next(cl, false, r); c.check(e.empty(), e); } else { size_t want = answers[i % kinds]; cl.wait([&] { rd.take(); return rd.got.size() >= want || rd.err.size(); }); c.check(rd.err.empty() && rd.got.size() >= want, "websocket does not answer: " + rd.err); rd.got.clear(); } } nap(0.004); return (long)live_bytes(); };
	long a = round(), b = 0; if (!a) { c.note("no byte counts in this build"); return; } bool grows = true; for (int r = 0; r < 5 && grows; r++) { b = round(); grows = b - a > (long)n * 8; if (grows && r < 4) a = b; } c.check(!grows, "memory in use grows by " + std::to_string(b - a) + " bytes with every " + std::to_string(n) + (kind ? " frames" : " requests") + " of one connection"); c.nontrivial(true);
}
// ------------------------------------------------------------ connections beyond the limit
static void refused(Src& s, Case& c) {
	exempt = true; auto& sv = srv[0]; size_t f0 = fds(), t0 = net::threads(); { std::vector<Client> cl(60); for (auto& x : cl) { if (!x.open(sv.port)) c.fail("harness: cannot connect"); x.send("GET / HTTP/1.1\r\n\r\n"); } size_t ok = 0; for (auto& x : cl) { net::Response r; ok += next(x, false, r).empty(); } c.check(ok == 60, "only " + std::to_string(ok) + " of 60 connections served"); size_t n = 1 + s.below(30); c.note(std::to_string(n) + " connections beyond the limit\n"); std::vector<Client> more(n); for (auto& x : more) { if (!x.open(sv.port)) c.fail("harness: cannot connect"); if (s.flip()) x.send("GET / HTTP/1.1\r\n\r\n"); } for (auto& x : more) { x.waitend(); c.check(x.over(), "a connection beyond the limit is left open"); if (s.flip()) x.drop(); } size_t mine = 60; for (auto& x : more) mine += x.fd >= 0; bool q = eventually(12, [&] { return fds() == f0 + mine + 60; }); c.check(q, std::to_string((long)fds() - (long)(f0 + mine + 60)) + " descriptors held for " + std::to_string(n) + " refused connections"); for (auto& x : cl) if (s.flip()) x.rst(); } settled(c, f0, t0, "after refusals"); c.nontrivial(true);
}
// ------------------------------------------------------------ idle connections
static void idle(Src& s, Case& c) {
	exempt = true; unsigned T = s.pick({ 60u, 100u, 150u, 250u, 400u, 700u, 1200u }), S = s.pick({ 100u, 250u }); bool track = s.flip(); auto k = config(); k.service.useThreadList = track; k.service.connectionTimeouts.receive = T; k.service.connectionTimeouts.send = S; k.service.maxConnections = 50; size_t f0 = fds(), t0 = net::threads(), n = 2 + s.below(9); exempt = false; auto sv = start(k, handle); exempt = true; size_t f1 = fds(), t1 = net::threads(); c.note(std::string(track ? "tracked" : "detached") + ", receive timeout " + std::to_string(T) + " ms\n"); c.label(track ? "tracked" : "detached"); struct I { unsigned kind; size_t m; std::string err; size_t cutat; double gap; }; std::vector<I> v(n); static const char* K[] = { "silent", "part of a header", "part of a body", "after requests", "slow but active, then idle", "does not read" };
	for (auto& i : v) { i.kind = s.weighted({ 3, 3, 3, 4, 3, 1 }); i.m = 1 + s.below(4); i.cutat = s.below(1000); i.gap = T * (0.2 + 0.05 * s.below(5)) / 1000; c.note(std::string("  ") + K[i.kind] + "\n"); c.label(K[i.kind]); } std::atomic<size_t> stuck{ 0 }; std::atomic<bool> go{ false };
	std::vector<std::thread> t; for (auto& i : v) t.emplace_back([&i, &sv, T, S, &stuck, &go] { exempt = true; Client cl; if (!cl.open(sv.port, i.kind == 5 ? 4096 : 0)) { i.err = "harness: cannot connect"; return; } double last = now(); const std::string head = "POST /a HTTP/1.1\r\nhost: localhost\r\ncontent-length: 200\r\n\r\n", bod(200, 'b');
		if (i.kind == 1) { cl.send(head.substr(0, 1 + i.cutat % (head.size() - 1))); last = now(); } else if (i.kind == 2) { cl.send(head + bod.substr(0, i.cutat % 199)); last = now(); } else if (i.kind == 3) { for (size_t q = 0; q < i.m; q++) { cl.send(head + bod); net::Response r; auto e = next(cl, false, r); if (e.size()) { i.err = e; return; } } last = now(); }
		else if (i.kind == 4) { auto all = head + bod; size_t pieces = 3 + i.m; double worst = 0; for (size_t q = 0; q < pieces; q++) { if (q) nap(i.gap); double t0 = now(); if (q) worst = std::max(worst, t0 - last); size_t a = all.size() * q / pieces, b = all.size() * (q + 1) / pieces; last = t0; cl.send(all.substr(a, b - a)); if (cl.over() && worst < T * 0.001 * 0.8) { i.err = "closed while the client was active"; return; } } net::Response r; auto e = next(cl, false, r); if (e.size()) { if (worst < T * 0.001 * 0.8) i.err = "active client: " + e; return; } last = now(); }
		else if (i.kind == 5) { cl.send("GET /big HTTP/1.1\r\n\r\n"); stuck++; eventually(60, [&] { return go.load(); }); return; }
		cl.waitend(30); double el = now() - last; if (!cl.over()) i.err = "still open 30 s after the last byte"; else if (el < T * 0.001 - 0.02) i.err = "closed " + std::to_string(el * 1000) + " ms after the last byte"; else if (el > T * 0.001 + 4) i.err = "closed only " + std::to_string(el * 1000) + " ms after the last byte"; }); size_t stalled = 0; for (auto& i : v) stalled += i.kind == 5; for (size_t i = 0; i < n; i++) if (v[i].kind != 5) t[i].join();
	bool rel = true; if (stalled) { rel = eventually(30, [&] { return stuck == stalled && fds() <= f1 + stalled && busy == 0 && net::threads() <= t1 + stalled; }); } long df = (long)fds() - (long)(f1 + stalled), dt = (long)net::threads() - (long)(t1 + stalled); go = true; for (size_t i = 0; i < n; i++) if (v[i].kind == 5) t[i].join(); for (auto& i : v) c.check(i.err.empty(), std::string(K[i.kind]) + " (timeout " + std::to_string(T) + " ms): " + i.err); c.check(rel, "clients that do not read keep " + std::to_string(df) + " descriptors and " + std::to_string(dt) + " threads long after the send timeout of " + std::to_string(S) + " ms"); settled(c, f1, t1, "after idle connections"); sv.inst.reset(); settled(c, f0, t0, "after the server"); c.nontrivial(true);
}
int main(int argc, char** argv) {
	return run(argc, argv, "C12", {
		{ "histories", histories, 2000, 50000, "1-14 connections at once to tracked and detached servers with long and short timeouts: served, malformed, unfinished, too large, silent, websockets ended in four ways, event streams, large responses, failing handlers, failing thread creation; ended by the client (close, reset, half-close, in the middle) or the server; descriptors, threads and running handlers return to where they were; non-trivial: several connections", 10, 80, 40, false, false, init },
		{ "memory", memory, 140, 2500, "40 (detached) or 120 (tracked, with and without a limit) connections of 1-3 randomly chosen kinds, repeated: heap bytes in use must not grow in every one of up to four rounds by more than six bytes for each connection (detached) or what finished, uncollected workers explain (tracked); all non-trivial", 8, 80, 40, false, false, init },
		{ "lasting", lasting, 300, 6000, "60 requests (methods, bodies, codings, cookies, failing handlers) or websocket frames (messages, fragments, pings, pongs) of 1-4 kinds on one connection, repeated: heap bytes in use must not grow in every one of up to five rounds by more than eight bytes for each; all non-trivial", 8, 60, 30, false, false, init },
		{ "refused", refused, 60, 1500, "1-30 connections beyond a full server's limit, closed or kept by their clients: no descriptor is held for them; all non-trivial", 8, 60, 20, false, false, init },
		{ "idle", idle, 160, 3000, "2-10 connections that are silent, stop within a header or body or after requests, or trickle and then stop, to tracked and detached servers with receive timeouts of 60-1200 ms and no other traffic: each is closed after the timeout and not before; clients that do not read lose their connection after the send timeout; all non-trivial", 10, 80, 40, false, false, init } });
}
