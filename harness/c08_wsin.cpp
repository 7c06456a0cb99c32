// C08: websocket messages from the client arrive intact and in order
#include "ws_common.hpp"
using namespace pbt; using namespace net; namespace L = Lambda;
struct Msg { std::string data; bool binary, partial; };
struct Plan { int mode = 0; std::atomic<bool> go{ false }, up{ false }, over{ false }; std::mutex m; std::vector<Msg> got; std::string end; };
static std::mutex mtx; static std::map<std::string, std::shared_ptr<Plan>> plans; static net::Server srv[4]; static const size_t LIMIT[4] = { 1 << 20, 1 << 20, 2000, 70000 };
static L::HandlerResponse handle(const L::HTTP::Request& rq, const L::RequestContext& cx) {
	std::shared_ptr<Plan> p; { std::lock_guard<std::mutex> l(mtx); auto it = plans.find(rq.headers.get("x-case")); if (it == plans.end()) return "unknown"; p = it->second; }
	struct Done { Plan& p; ~Done() { p.over = true; } } done{ *p };
	{ auto w = cx.upgrateToWebsocket(); p->up = true; if (p->mode == 2) eventually(10, [&] { return p->go.load(); });
	time_t since = time(nullptr); unsigned empties = 0; auto take = [&](const L::Websocket::Message& m) { if (p->mode == 1) nap(0.0003); std::lock_guard<std::mutex> l(p->m); p->got.push_back({ std::string(m.data.begin(), m.data.end()), m.binary, m.partial }); if (m.text() != p->got.back().data || m.size() != m.data.size()) p->end = "text() or size() disagree with data"; if (m.timestamp < since - 1 || m.timestamp > time(nullptr) + 1) p->end = "a message is dated " + std::to_string(m.timestamp - since) + " s after its socket was opened"; };
	try { for (;;) { if (p->mode == 3) { if (!w.hasMessage()) { if (p->go) { if (!w.awaitMessage()) break; } else { nap(0.0005); if (!w.hasMessage() && ++empties % 5 == 1) { try { take(w.nextMessage()); } catch (const std::exception&) { } } continue; } } } else if (!w.awaitMessage()) break; auto m = w.nextMessage(); take(m); continue; } } catch (const std::exception& e) { if (p->end.empty()) p->end = std::string("threw ") + e.what(); } }
	return {};
}
static void init() { quiet(); auto c = config(); for (int i = 0; i < 4; i++) { c.service.useThreadList = i & 1; c.transport.maxRequestSize = LIMIT[i]; srv[i] = start(c, handle); } }
static std::string payload(Src& s, size_t limit, bool big) { size_t n = [&]() -> size_t { switch (s.weighted({ 3, 5, 3, big ? 2u : 0u })) { case 0: return s.below(4); case 1: return s.below(100); case 2: return s.pick({ 124u, 125u, 126u, 127u, 128u, 250u, 252u, 254u, 256u, 258u, 300u, 508u, 1000u }); default: return s.pick({ 4000u, 65534u, 65535u, 65536u, 65537u, 70000u, 131072u, 200001u }); } }(); n = std::min(n, limit - 14); if (n > 60) { auto u = s.bytestr(1 + s.below(40)); std::string o; while (o.size() < n) { o += u; o += (char)(o.size() * 7 + 1); } o.resize(n); return o; } return s.bytestr(n); }
struct Stream { std::vector<Msg> want; std::vector<std::string> pongs; int code = 0; bool cutoff = false; std::string ends; std::vector<Segment> plan; bool oversend = false; size_t frames = 0; };
static Stream stream(Src& s, Case& c, size_t limit) {
	Stream o; std::string wire; std::vector<size_t> marks; bool open = false, kind = false; size_t n = s.chance(1, 10) ? s.chance(1, 4) ? 100 + s.below(500) : 20 + s.below(60) : s.below(10); bool big = s.chance(1, 4), tiny = n > 90; if (tiny) c.label("hundreds of frames"); size_t total = 0; auto put = [&](const std::string& f) { marks.push_back(wire.size()); marks.push_back(wire.size() + std::min<size_t>(f.size(), 10)); wire += f; }; auto mask = [&]() -> uint32_t { return s.chance(1, 6) ? 0 : s.chance(1, 4) ? 0xff00ff01u : (uint32_t)s.range(0, 0xffffffffu); };
	for (size_t i = 0; i < n; i++) { o.frames++; if (s.chance(1, 4)) { auto p = s.bytestr(s.chance(1, 4) ? s.pick({ 124u, 125u }) : s.below(20)); if (s.chance(1, 12)) p = "ping/lambda/ws"; bool ping = s.chance(3, 4); put(ws::frame(0x80 | (ping ? 9 : 10), p, mask())); if (ping) o.pongs.push_back(p); c.note(std::string(ping ? "ping " : "pong ") + std::to_string(p.size()) + "\n"); continue; }
		auto p = tiny ? s.bytestr(s.below(6)) : payload(s, limit, big && total < 400000); total += p.size(); bool fin = s.chance(3, 4); if (!open) kind = s.flip(); put(ws::frame((fin ? 0x80 : 0) | (open ? 0 : kind ? 2 : 1), p, mask())); o.want.push_back({ p, kind, !fin }); c.note(std::string(open ? "continuation " : kind ? "binary " : "text ") + std::to_string(p.size()) + (fin ? "" : " more follows") + "\n"); if (open) c.label("continuation"); open = !fin; }
	switch (s.weighted({ 6, 6, 1, 1 })) {
	case 0: { std::string p; if (s.flip()) { int code = s.pick({ 1000, 1001, 1003, 3000, 4999 }); p = std::string(1, (char)(code >> 8)) + (char)code + std::string(s.below(20), 'r'); } put(ws::frame(0x88, p, mask())); o.code = 1000; o.ends = "close frame"; if (s.chance(1, 3)) { put(ws::frame(0x81, "late", mask())); put(ws::frame(0x89, "late", mask())); o.oversend = true; o.ends = "close frame followed by others"; } break; }
	case 1: { auto p = s.bytestr(s.below(30)); unsigned k = s.below(open ? 8 : 7); o.code = 1002; o.oversend = true; switch (k) {
		case 0: o.ends = "unmasked frame"; put(ws::frame(s.pick({ 0x81, 0x82, 0x89, 0x88, 0x8a }), p, 0, false)); break;
		case 1: { int op = s.pick({ 3, 4, 5, 6, 7, 11, 12, 13, 14, 15 }); o.ends = "opcode " + std::to_string(op); put(ws::frame((s.flip() ? 0x80 : 0) | op, p, mask())); break; }
		case 2: o.ends = "reserved bits"; put(ws::frame(0x80 | (1 + s.below(7)) << 4 | s.pick({ 1, 2, 9 }), p, mask())); break;
		case 3: o.ends = "fragmented control frame"; put(ws::frame(s.pick({ 8, 9, 10 }), p, mask())); break;
		case 4: o.ends = "oversized control frame"; put(ws::frame(0x80 | s.pick({ 8, 9, 10 }), std::string(s.pick({ 126u, 127u, 300u }), 'p'), mask())); break;
		case 5: { o.ends = "oversized message"; o.code = 1009; uint64_t len = s.pick<uint64_t>({ limit + 1, limit + 100, limit * 2, 1ull << 31, 1ull << 32, (1ull << 32) + 10, 1ull << 40, (1ull << 63) - 1, (1ull << 63) - 14 }); put(ws::head(0x80 | (open ? 0 : 1 + s.below(2)), len, true, mask()) + std::string(s.below(60), 'x')); c.note("announced " + std::to_string(len) + " of " + std::to_string(limit) + "\n"); break; }
		case 6: if (open) { o.ends = "message within a message"; put(ws::frame((s.flip() ? 0x80 : 0) | (1 + s.below(2)), p, mask())); } else { o.ends = "continuation of nothing"; put(ws::frame(s.flip() ? 0x80 : 0, p, mask())); } break;
		default: o.ends = "message within a message"; put(ws::frame(0x81, p, mask())); } if (s.flip()) put(ws::frame(0x81, "late", mask())); break; }
	case 2: o.ends = "end of stream"; o.code = -1; if (s.flip()) { auto f = ws::frame(0x82, s.bytestr(1 + s.below(200)), mask()); put(f.substr(0, s.below(f.size()))); o.ends = "end of stream inside a frame"; } break;
	default: o.ends = "reset"; o.code = -2; o.cutoff = true; }
	o.plan = cut(s, wire, marks); if (s.chance(1, 30) && o.plan.size() > 1) { o.plan[s.below(o.plan.size() - 1) + 1].pause = 0.12; c.label("long pause"); } if (wire.size() > 65536) c.label("large frames"); if (o.plan.size() > 1) c.label("segmented"); c.note(o.ends + ", send " + net::plan(o.plan) + "\n"); return o;
}
static void inbound(Src& s, Case& c) {
	static uint64_t serial = 0; unsigned w = s.weighted({ 4, 4, 2, 2 }); auto& sv = srv[w]; size_t nconn = s.chance(1, 4) ? 2 + s.below(3) : 1; struct Conn { std::string id; std::shared_ptr<Plan> p = std::make_shared<Plan>(); Stream st; std::string err; }; std::vector<Conn> cn(nconn); c.note("limit " + std::to_string(LIMIT[w]) + "\n");
	for (auto& q : cn) { q.id = std::to_string(getpid()) + "." + std::to_string(++serial); q.p->mode = s.weighted({ 4, 2, 2, 1 }); c.note("connection " + q.id + " handler mode " + std::to_string(q.p->mode) + "\n"); q.st = stream(s, c, LIMIT[w]); std::lock_guard<std::mutex> l(mtx); plans[q.id] = q.p; }
	auto drive = [&](Conn& q) { Client cl; if (!cl.open(sv.port)) { q.err = "harness: cannot connect"; return; } q.err = ws::shake(cl, q.id); if (q.err.size()) return; auto& st = q.st; ws::Reader rd{ cl }; auto& p = *q.p; auto bad = [&](const std::string& m) { if (q.err.empty()) q.err = m; };
		if (st.cutoff) { cl.run(st.plan, nullptr); if (st.frames % 2) cl.wait([&] { std::lock_guard<std::mutex> l(p.m); return p.got.size() == st.want.size(); }, 1); cl.rst(); p.go = true; }
		else { size_t all = cl.sent; for (auto& g : st.plan) all += g.data.size(); cl.run(st.plan, [&] { rd.take(); return rd.closed || rd.err.size() || (st.code < 0 && cl.sent == all && rd.got.size() >= st.pongs.size()); }); if (st.code < 0) cl.finish(); p.go = true; cl.wait([&] { rd.take(); return cl.over(); }); rd.take();
			if (rd.err.size()) bad("server sent a bad frame: " + rd.err); else if (cl.in.size()) bad("stream ends within a frame: " + show(cl.in, 40)); else if (!cl.over()) bad("connection still open 12 s after " + st.ends);
			size_t k = 0; for (auto& f : rd.got) { if (f.op == 10) { if (k >= st.pongs.size()) bad("unexpected pong " + show(f.data, 40)); else if (f.data != st.pongs[k]) bad("pong " + std::to_string(k) + " is " + show(f.data, 60) + " instead of " + show(st.pongs[k], 60)); k++; } else if (f.op == 8) { int code = ws::code(f); if (st.code > 0 && code != st.code) bad("close code " + std::to_string(code) + " instead of " + std::to_string(st.code) + " for " + st.ends); } else bad("unexpected frame with opcode " + std::to_string(f.op)); }
			if (k != st.pongs.size()) bad(std::to_string(k) + " pongs for " + std::to_string(st.pongs.size()) + " pings"); if (st.code > 0 && !rd.closed) bad("no close frame after " + st.ends); }
		if (!eventually(12, [&] { return p.over.load(); })) { bad("handler still waiting 12 s after " + st.ends); return; }
		std::lock_guard<std::mutex> l(p.m); if (p.end.compare(0, 6, "text()") == 0) bad(p.end); size_t n = p.got.size(); if (!st.cutoff && n != st.want.size()) bad("handler received " + std::to_string(n) + " messages instead of " + std::to_string(st.want.size()) + " before " + st.ends + (p.end.size() ? " (" + p.end + ")" : "")); if (n > st.want.size()) bad("handler received more messages than were sent");
		for (size_t i = 0; i < n && q.err.empty(); i++) { auto &a = p.got[i], &b = st.want[i]; if (a.data != b.data) bad("message " + std::to_string(i) + " is " + std::to_string(a.data.size()) + " bytes " + show(a.data, 40) + " instead of " + std::to_string(b.data.size()) + " bytes " + show(b.data, 40)); else if (a.binary != b.binary) bad("message " + std::to_string(i) + (a.binary ? " is binary instead of text" : " is text instead of binary")); else if (a.partial != b.partial) bad("message " + std::to_string(i) + (a.partial ? " claims that more follows" : " hides that more follows")); } };
	if (nconn == 1) drive(cn[0]); else { std::vector<std::thread> t; for (auto& q : cn) t.emplace_back([&] { drive(q); }); for (auto& x : t) x.join(); c.label("several connections"); }
	{ std::lock_guard<std::mutex> l(mtx); for (auto& q : cn) plans.erase(q.id); } size_t fr = 0; for (auto& q : cn) { fr += q.st.frames; c.label(q.st.ends.compare(0, 6, "opcode") ? q.st.ends.c_str() : "reserved opcode"); } for (auto& q : cn) c.check(q.err.empty(), q.err); c.nontrivial(fr > 1);
}
int main(int argc, char** argv) {
	return run(argc, argv, "C08", {
		{ "inbound", inbound, 12000, 200000, "1-4 upgraded connections, each sending up to 600 text, binary, continuation, ping and pong frames (payloads 0 to 200 kB around every length encoding, any mask) cut into segments at random and near frame heads, then a close frame, one protocol violation, an oversized frame, an end of stream or a reset, to handlers that read eagerly, slowly, late or by polling; delivered messages, pongs, close codes and the end of the connection are compared with an independent model; non-trivial: more than one frame", 16, 60, 40, false, false, init },
		{ "inbound-tsan", inbound, 800, 20000, "the same histories on a thread-sanitized build", 8, 60, 40, false, false, init } });
}
