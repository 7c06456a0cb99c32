// C31: short identifiers and the request and connection identifiers made of them
#include "ws_common.hpp"
#include "http_common.hpp"
#include <core/crypto/crypto.hpp>
#include <sys/wait.h>
#include <cmath>
using namespace pbt; using namespace net; namespace L = Lambda; using L::Crypto::ShortID;
static std::string form(uint32_t v) { unsigned char b[4]; memcpy(b, &v, 4); char o[9]; snprintf(o, 9, "%02x%02x%02x%02x", b[0], b[1], b[2], b[3]); return o; }
static bool eight(const std::string& t) { return t.size() == 8 && t.find_first_not_of("0123456789abcdef") == std::string::npos; }
static uint32_t value(const std::string& t) { unsigned char b[4]; for (int i = 0; i < 4; i++) b[i] = (unsigned char)std::stoul(t.substr(i * 2, 2), nullptr, 16); uint32_t v; memcpy(&v, b, 4); return v; }
// ------------------------------------------------------------ values
static void values(Src& s, Case& c) {
	auto any = [&]() -> uint32_t { switch (s.below(4)) { case 0: return s.pick({ 0u, 1u, 9u, 10u, 15u, 16u, 255u, 256u, 65535u, 65536u, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0x01020304u, 0xabcdefu }); case 1: return 1u << s.below(32); default: return (uint32_t)s.upto(0xffffffffull); } };
	struct M { std::unique_ptr<ShortID> o; uint32_t v; bool dead; }; std::vector<M> v; size_t n = 1 + s.below(14); bool copied = false; auto show1 = [&](size_t i) { return "#" + std::to_string(i); };
	for (size_t i = 0; i < n; i++) { unsigned op = v.empty() ? s.below(2) : s.below(8); size_t k = v.size() ? s.below(v.size()) : 0, j = v.size() ? s.below(v.size()) : 0; if (v.size() && op > 1 && op < 6 && v[j].dead) op = 0;
		switch (op) { case 0: { auto x = any(); c.note("new " + std::to_string(x) + "; "); v.push_back({ std::make_unique<ShortID>(x), x, false }); break; } case 1: { auto o = std::make_unique<ShortID>(); auto x = o->id(); c.note("new random; "); v.push_back({ std::move(o), x, false }); break; }
		case 2: { c.note("copy " + show1(j) + "; "); v.push_back({ std::make_unique<ShortID>(*v[j].o), v[j].v, false }); copied = true; break; } case 3: { c.note("move " + show1(j) + "; "); v.push_back({ std::make_unique<ShortID>(std::move(*v[j].o)), v[j].v, false }); v[j].dead = true; copied = true; break; } case 4: { c.note("assign " + show1(j) + " to " + show1(k) + "; "); *v[k].o = *v[j].o; v[k].v = v[j].v; v[k].dead = false; copied = true; break; } case 5: { c.note("move-assign " + show1(j) + " to " + show1(k) + "; "); if (j == k) break; *v[k].o = std::move(*v[j].o); v[k].v = v[j].v; v[k].dead = false; v[j].dead = true; copied = true; break; }
		case 6: { auto x = any(); c.note("update " + show1(k) + " to " + std::to_string(x) + "; "); v[k].o->update(x); v[k].v = x; v[k].dead = false; break; } default: { c.note("renew " + show1(k) + "; "); auto was = v[k].o->id(); v[k].o->update(); v[k].v = v[k].o->id(); v[k].dead = false; if (was == v[k].v) { v[k].o->update(); c.check(v[k].o->id() != was, "update() twice left the identifier unchanged"); v[k].v = v[k].o->id(); } } }
		for (size_t q = 0; q < v.size(); q++) if (!v[q].dead) { auto& t = v[q].o->toString(); c.check(v[q].o->id() == v[q].v, show1(q) + " has value " + std::to_string(v[q].o->id()) + " instead of " + std::to_string(v[q].v)); c.checkf(t == form(v[q].v), [&] { return show1(q) + " prints as " + show(t) + " instead of " + form(v[q].v); }); } }
	c.nontrivial(n > 2); if (copied) c.label("copied or moved");
}
// ------------------------------------------------------------ distinct under concurrency
static size_t repeats(std::vector<uint32_t> a) { std::sort(a.begin(), a.end()); size_t r = 0; for (size_t i = 1; i < a.size(); i++) r += a[i] == a[i - 1]; return r; }
static size_t allowed(double n) { double e = n * n / 2 / 2147483647.0; return (size_t)(e + 5 * std::sqrt(e) + 2.5); }	// never exceeded by chance
static void many(Src& s, Case& c, size_t lo, size_t hi) {
	size_t t = 1 + s.below(8), n = lo + s.below(hi - lo), total = t * n; unsigned way = s.below(3); c.note(std::to_string(t) + " threads create " + std::to_string(n) + " identifiers each\n"); std::vector<std::vector<uint32_t>> got(t); std::vector<std::string> bad(t); std::atomic<size_t> ready{ 0 }; std::vector<std::thread> th;
	for (size_t k = 0; k < t; k++) th.emplace_back([&, k] { auto& g = got[k]; g.reserve(n); ready++; while (ready < t) std::this_thread::yield(); ShortID one; for (size_t i = 0; i < n; i++) { if (way == 0) { ShortID x; g.push_back(x.id()); if (i % 64 == 0 && x.toString() != form(x.id())) bad[k] = x.toString(); } else { one.update(); g.push_back(one.id()); if (i % 64 == 0 && one.toString() != form(one.id())) bad[k] = one.toString(); } } }); for (auto& x : th) x.join();
	std::vector<uint32_t> all; for (size_t k = 0; k < t; k++) { c.check(bad[k].empty(), "identifier prints as " + show(bad[k])); all.insert(all.end(), got[k].begin(), got[k].end()); } auto r = repeats(all); c.check(r <= allowed(total), std::to_string(r) + " of " + std::to_string(total) + " identifiers created by " + std::to_string(t) + " threads repeat an earlier one (at most " + std::to_string(allowed(total)) + " by chance)");
	uint32_t ones = 0, zeros = 0; for (auto x : all) { ones |= x; zeros |= ~x; } if (total > 200) { c.check((ones & 0x7fffffff) == 0x7fffffff && (zeros & 0x7fffffff) == 0x7fffffff, "some bits of " + std::to_string(total) + " identifiers never change"); } c.nontrivial(t > 1); if (t > 1) c.label("several threads");
}
static void concurrent(Src& s, Case& c) { if (s.chance(1, 12)) many(s, c, 5000, 30000); else many(s, c, 20, 2000); }
static void concurrent_tsan(Src& s, Case& c) { many(s, c, 10, 300); }
// ------------------------------------------------------------ separate processes
static std::string other() { int p[2]; if (pipe(p)) return ""; pid_t k = fork(); if (!k) { dup2(p[1], 1); close(p[0]); close(p[1]); execl("/proc/self/exe", "ids", "--ids", (char*)nullptr); _exit(1); } close(p[1]); std::string o; char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) o.append(b, n); close(p[0]); int st; waitpid(k, &st, 0); return o; }
static void processes(Src& s, Case& c) { size_t n = 2 + s.below(3); c.note(std::to_string(n) + " processes\n"); std::vector<uint32_t> all; for (size_t i = 0; i < n; i++) { auto t = other(); c.check(t.size() == 200 * 9, "harness: helper process failed"); for (size_t k = 0; k < t.size(); k += 9) all.push_back(value(t.substr(k, 8))); } auto r = repeats(all); c.check(r <= 2, std::to_string(r) + " identifiers of " + std::to_string(n) + " processes repeat"); c.nontrivial(true); }
// ------------------------------------------------------------ server
struct Ran { std::string id, cx, rq; }; static std::mutex mtx; static std::vector<Ran> ran; static net::Server srv[2];
static L::HandlerResponse handle(const L::HTTP::Request& rq, const L::RequestContext& cx) {
	auto id = rq.headers.get("x-case"); Ran r{ id, cx.contextID, cx.requestID }; auto how = rq.headers.get("x-how"); if (how == "slow") { nap(0.001); if (cx.contextID != r.cx || cx.requestID != r.rq) r.rq = "changed while the handler ran"; } { std::lock_guard<std::mutex> l(mtx); ran.push_back(r); } if (how == "throw") throw std::runtime_error("planned"); if (how == "none") return {}; if (how == "header") { L::HTTP::Response x(200); x.headers.set("x-request-id", "forged"); x.body = std::string("b"); return x; } if (how == "sse") { auto w = cx.startEventStream(); w.push({ "e" }); w.close(); return {}; } if (how == "ws") { auto w = cx.upgrateToWebsocket(); w.close(L::Websocket::CloseReason::Normal); return {}; } return "ok";
}
static void init() { quiet(); auto c = config(); for (int i = 0; i < 2; i++) { c.service.useThreadList = i & 1; c.errorResponseType = (L::ErrorResponseType)i; c.transport.maxRequestSize = 2000; srv[i] = start(c, handle); } }
static void server(Src& s, Case& c) {
	static uint64_t serial = 0; auto tag = std::to_string(getpid()) + "." + std::to_string(++serial) + "."; { std::lock_guard<std::mutex> l(mtx); ran.clear(); } auto& sv = srv[s.below(2)]; size_t n = 1 + s.below(8); struct Q { std::string id, how; }; struct Conn { std::vector<Q> q; std::string wire; std::vector<Segment> seg; std::vector<std::string> hdr; std::string err; bool bad = false; }; std::vector<Conn> cn(n); bool more = false;
	for (size_t k = 0; k < n; k++) { auto& x = cn[k]; size_t m = 1 + s.below(6); more |= m > 1; c.note("connection " + std::to_string(k) + ":"); for (size_t i = 0; i < m; i++) { Q q{ tag + std::to_string(k) + "." + std::to_string(i), s.pick({ "", "", "slow", "throw", "none", "header" }) }; if (i + 1 == m && s.chance(1, 4)) q.how = s.pick({ "sse", "wsbad", "malformed", "large" }); c.note(" " + (q.how.empty() ? "plain" : q.how)); if (q.how == "malformed") { x.wire += "GET / HTTP/1.1\r\nbroken\r\n\r\n"; x.bad = true; } else if (q.how == "large") { x.wire += "POST / HTTP/1.1\r\ncontent-length: 9999\r\n\r\n"; x.bad = true; } else x.wire += "GET / HTTP/1.1\r\nx-case: " + q.id + "\r\nx-how: " + (q.how == "wsbad" ? "ws" : q.how) + "\r\n\r\n"; x.q.push_back(q); } c.note("\n"); x.seg = cut(s, x.wire); }
	std::vector<std::thread> th; for (auto& x : cn) th.emplace_back([&] { Client cl; if (!cl.open(sv.port)) { x.err = "harness: cannot connect"; return; } size_t i = 0; net::Response r; std::string why; cl.run(x.seg, [&] { while (i < x.q.size()) { if (cl.in.empty()) return false; int st = parse(cl.in, 0, false, r, why, x.q[i].how == "sse"); if (st < 0) { x.err = "malformed response: " + why; return true; } if (!st) return false; auto v = r.all("x-request-id"); x.hdr.push_back(v.size() == 1 ? v[0] : std::to_string(v.size()) + " header lines"); cl.in.erase(0, r.size); i++; } return true; }); if (x.err.empty() && i < x.q.size()) x.err = "only " + std::to_string(i) + " of " + std::to_string(x.q.size()) + " responses"; }); for (auto& t : th) t.join(); for (auto& x : cn) c.check(x.err.empty(), x.err);
	std::map<std::string, Ran> got; { std::lock_guard<std::mutex> l(mtx); for (auto& r : ran) got[r.id] = r; } std::set<std::string> cxs, rqs; size_t reqs = 0, dup = 0;
	for (size_t k = 0; k < n; k++) { auto& x = cn[k]; std::string own; for (size_t i = 0; i < x.q.size(); i++) { auto& h = x.hdr[i]; auto name = "request " + std::to_string(i) + " of connection " + std::to_string(k); c.check(h.size() == 17 && h[8] == '-' && eight(h.substr(0, 8)) && eight(h.substr(9)), name + ": request id header " + show(h)); if (own.empty()) own = h.substr(0, 8); c.check(h.substr(0, 8) == own, name + " reports connection " + h.substr(0, 8) + ", earlier ones " + own); bool unseen = x.q[i].how == "malformed" || x.q[i].how == "large"; auto it = got.find(x.q[i].id); if (!unseen) { c.check(it != got.end(), name + " was not handled"); auto& r = it->second; c.check(r.cx + "-" + r.rq == h, name + ": header " + show(h) + " but the handler was given " + show(r.cx) + " and " + show(r.rq)); } reqs++; dup += !rqs.insert(h.substr(9)).second; } dup += !cxs.insert(own).second; }
	c.check(dup <= 1, std::to_string(dup) + " repeated identifiers among " + std::to_string(n) + " connections and " + std::to_string(reqs) + " requests"); for (auto& x : cxs) dup += rqs.count(x); c.check(dup <= 2, "connection identifiers are used for requests"); c.nontrivial(n > 1 && more);
}
int main(int argc, char** argv) {
	if (argc > 1 && std::string(argv[1]) == "--ids") { for (int i = 0; i < 200; i++) { ShortID x; printf("%s\n", x.toString().c_str()); } return 0; }
	return run(argc, argv, "C31", {
		{ "values", values, 60000, 1500000, "identifiers made of any number or at random, copied, moved, assigned and updated in sequences of up to 14 operations; value and eight-digit form against a model after every step; non-trivial: more than two operations" },
		{ "concurrent", concurrent, 1500, 30000, "1-8 threads creating up to 30000 identifiers each: no more repeats than chance explains for 31 random bits, every bit used, printed form equals the value; non-trivial: several threads" },
		{ "processes", processes, 60, 2000, "2-4 separately started processes creating 200 identifiers each: no repeats across processes; all non-trivial", 2 },
		{ "server", server, 4500, 150000, "1-8 connections at once with 1-6 pipelined requests each (plain, slow, failing, forging the header, event streams, refused upgrades, malformed, too large): every response carries one request id header made of the connection's one identifier and the request's own, as the handler was given them, none repeated; non-trivial: several connections and a connection with several requests", 10, 60, 30, false, false, init },
		{ "concurrent-tsan", concurrent_tsan, 400, 8000, "the concurrent creation on a thread-sanitized build; non-trivial: several threads" } });
}
