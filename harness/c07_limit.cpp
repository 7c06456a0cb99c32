// C07: the request size limit is enforced exactly
#include "http_common.hpp"
using namespace pbt; using namespace net; namespace L = Lambda;
static const size_t LIMIT[] = { 220, 300, 1000, 2048, 2049, 4096, 10000, 65536, 200000 }; static const size_t N = sizeof LIMIT / sizeof *LIMIT;
struct Ran { std::string id; size_t body; uint64_t sum; }; static std::mutex mtx; static std::vector<Ran> ran; static net::Server srv[N];
static uint64_t sum(const std::string& d) { return hash64(d); }
static L::HandlerResponse handle(const L::HTTP::Request& rq, const L::RequestContext&) { auto& b = rq.body.buffer(); std::string d(b.begin(), b.end()); std::lock_guard<std::mutex> l(mtx); ran.push_back({ rq.headers.get("x-case"), d.size(), sum(d) }); return "ok"; }
static void init() { quiet(); auto c = config(); for (size_t i = 0; i < N; i++) { c.service.useThreadList = i & 1; c.errorResponseType = (L::ErrorResponseType)(i % 3); c.transport.maxRequestSize = LIMIT[i]; srv[i] = start(c, handle); } }
struct Rq { std::string id, wire, body; bool refuse = false; size_t head = 0; };
// a header section of exactly n bytes (if it can be that small) announcing len
static std::string header(Src& s, const std::string& id, const std::string& len, size_t n) {
	std::string h = std::string(len.empty() ? "GET" : "POST") + " /" + s.pick({ "", "path", "a?b=c" }) + " HTTP/1.1\r\nx-case: " + id + "\r\n"; if (len.size()) h += "content-length: " + len + "\r\n"; size_t k = s.below(4); std::string end = "\r\n";
	while (h.size() + 2 < n) { size_t room = n - h.size() - 2; if (room < 7) { if (room == 0) break; auto p = h.find(" HTTP/1.1"); h.insert(p, std::string(room, 'p')); break; } size_t m = k && room > 60 ? std::min<size_t>(room - 7, 8 + s.below(room - 20)) : room; if (k) k--; if (room - m < 7 && m != room) m = room; h += "x-" + std::string(1, 'a' + k) + ":" + std::string(m - 6, "vwxyz"[k]) + "\r\n"; } return h + end;
}
static void limit(Src& s, Case& c) {
	static uint64_t serial = 0; size_t w = s.below(N), max = LIMIT[w]; auto& sv = srv[w]; { std::lock_guard<std::mutex> l(mtx); ran.clear(); } Client cl; if (!cl.open(sv.port)) c.fail("harness: cannot connect"); size_t n = s.weighted({ 3, 2 }) ? 2 + s.below(5) : 1; std::vector<Rq> rq; std::string tag = std::to_string(getpid()) + "." + std::to_string(++serial) + "."; c.note("limit " + std::to_string(max) + "\n"); bool never = false; std::vector<size_t> marks; std::string wire; bool edge = false;
	for (size_t i = 0; i < n; i++) { Rq r; r.id = tag + std::to_string(i); size_t least = header(s, r.id, "100000", 0).size() + 4; long delta = s.pick<long>({ -40, -5, -4, -3, -2, -1, 0, 0, 0, 1, 1, 2, 3, 4, 5, 40, 2048 }); if (delta > 0 && (i + 1 < n || !s.chance(2, 3))) delta = -delta; if (s.chance(1, 4)) delta = -(long)s.below(max > least ? max - least : 1); long tl = (long)max + delta; size_t total = tl < 0 ? 0 : tl; if (total < least || total > max + 5000) total = least; unsigned kind = delta > 0 ? s.below(6) : s.below(2); edge |= delta > -6 && delta < 6;
		if (kind == 0 || kind == 5) { r.wire = header(s, r.id, s.flip() ? "" : "0", total); r.head = r.wire.size(); if (r.head != total) { r.wire = header(s, r.id, "", total); r.head = r.wire.size(); } r.refuse = r.head > max; if (kind == 5 && r.refuse) { r.wire.resize(r.wire.size() - 4); if (r.wire.size() <= max) r.wire += std::string(max + 1 - r.wire.size(), 'v'); r.wire += std::string(s.below(3), 'v'); never = true; c.note("(header never ends) "); } }
		else if (kind <= 2) { size_t h = least + s.below(std::min<size_t>(total - least + 1, s.flip() ? 200 : 100000)); size_t b = total - h; if (kind == 2 && s.flip()) { h = least; b = total - h; } auto len = std::to_string(b); r.wire = header(s, r.id, len, h); r.head = r.wire.size(); b = total > r.head ? total - r.head : 0; if (std::to_string(b).size() != len.size()) { r.wire = header(s, r.id, std::to_string(b), r.head); r.head = r.wire.size(); } else { auto p = r.wire.find("content-length: "); r.wire.replace(p + 16, len.size(), std::to_string(b)); } auto u = s.bytestr(1 + s.below(50)); while (r.body.size() < b) r.body += u; r.body.resize(b); r.refuse = r.head + b > max; if (r.refuse && r.head > max) {} r.wire += r.refuse && s.flip() ? r.body.substr(0, s.below(b + 1)) : r.body; }
		else { static const char* HUGE_[] = { "18446744073709551615", "18446744073709551616", "18446744073709551500", "9223372036854775807", "9223372036854775808", "4294967296", "4294967295", "2147483648", "99999999999999999999999", "18446744073709551614", "18446744073709551361" }; std::string len = s.weighted({ 4, 1 }) ? std::to_string(max + s.below(100000)) : HUGE_[s.below(11)]; if (s.chance(1, 6)) len = "00" + len; r.wire = header(s, r.id, len, 0); r.head = r.wire.size(); r.refuse = true; r.wire += std::string(s.below(20), 'b'); c.note("(announces " + len + ") "); }
		c.note("request " + r.id + " header " + std::to_string(r.head) + " body " + std::to_string(r.body.size()) + (r.refuse ? " refused\n" : " accepted\n")); marks.push_back(wire.size() + r.head); wire += r.wire; marks.push_back(wire.size()); rq.push_back(r); if (r.refuse) break; }
	if (rq.back().refuse && !never && s.chance(1, 3)) wire += s.flip() ? "GET / HTTP/1.1\r\nx-case: " + tag + "late\r\n\r\n" : std::string(3000, 'z'); auto segs = cut(s, wire, marks); c.note("send " + plan(segs) + "\n"); n = rq.size();
	size_t got = 0, need = 0; net::Response r; std::string err, why; cl.run(segs, [&] { while (got < n) { if (cl.in.empty() || cl.in.size() < need) return false; int st = parse(cl.in, 0, false, r, why); if (st < 0) { err = "malformed response: " + why; return true; } if (!st) { need = r.size; return false; } need = 0; cl.in.erase(0, r.size); auto& q = rq[got]; if (r.status != (q.refuse ? 413 : 200)) { err = "request " + q.id + " of " + std::to_string(q.head) + " + " + std::to_string(q.body.size()) + " bytes under a limit of " + std::to_string(max) + " answered with status " + std::to_string(r.status); return true; } bool close; auto e = announced(r, close); if (e.size() || close != q.refuse) { err = "response " + std::to_string(got) + ": " + (e.size() ? e : std::string(close ? "announces close" : "announces keep-alive after a refusal")); return true; } got++; } return true; });
	if (err.empty() && got < n) err = "no response to request " + rq[got].id + (cl.over() ? " (connection ended)" : " within 12 s"); c.check(err.empty(), err); if (rq.back().refuse) { cl.in.clear(); c.check(cl.waitend(), "connection stays open after a refused request"); c.check(cl.in.empty(), "bytes after the refusal: " + show(cl.in, 60)); c.label("refused"); if (never) c.label("header without end"); } else { cl.pull(); c.check(!cl.over() && cl.in.empty(), "connection ended after accepted requests"); c.label("all accepted"); }
	std::vector<Ran> g; { std::lock_guard<std::mutex> l(mtx); g = ran; } size_t want = n - rq.back().refuse; c.check(g.size() == want, "handler ran " + std::to_string(g.size()) + " times instead of " + std::to_string(want)); for (size_t i = 0; i < want; i++) c.check(g[i].id == rq[i].id && g[i].body == rq[i].body.size() && g[i].sum == sum(rq[i].body), "request " + rq[i].id + " reached the handler changed"); c.nontrivial(edge); if (segs.size() > 1) c.label("segmented"); if (n > 1) c.label("pipelined");
}
// ------------------------------------------------------------ limits of every size
static void limits(Src& s, Case& c) {
	static const size_t G4 = 1ull << 32; L::ServerConfig k = config(); k.service.useThreadList = true; k.service.connectionTimeouts.receive = k.service.connectionTimeouts.send = 12000; static uint64_t serial = 0; std::string id = std::to_string(getpid()) + "." + std::to_string(++serial); { std::lock_guard<std::mutex> l(mtx); ran.clear(); } size_t least = header(s, id, "100000", 0).size() + 4; size_t max; unsigned kind = s.weighted({ 4, 4, 5, 1 }); size_t total; bool sendall = true;
	if (kind == 0) { max = s.below(least + 400); total = std::max<size_t>(least, max + s.below(3)); if (s.flip() && max > least) total = least + s.below(max - least); c.label("small limit"); }
	else if (kind == 1) { max = 1ull << (9 + s.below(10)); max += s.below(5); max -= 2; total = max + s.below(3) - 1; c.label("around a power of two"); }
	else if (kind == 2) { max = s.pick<size_t>({ G4, G4 + 1, G4 + 100, G4 * 3 + 7, G4 / 2, G4 / 2 + 50, (size_t)1 << 40, (size_t)1 << 63, ((size_t)1 << 63) - 1, ~(size_t)0, ~(size_t)0 - 1, G4 * 65536, 0xFFFF0000ull }); if (s.flip()) max += s.below(300) * (max < ~(size_t)0 - 1000); total = least + s.below(s.flip() ? 500 : 100000); c.label("limit of gigabytes"); }
	else { max = k.transport.maxRequestSize; total = max + s.below(3) - 1; sendall = total <= max; c.label("default limit"); }
	k.transport.maxRequestSize = max; auto sv = start(k, handle); size_t h = least + s.below(std::min<size_t>(total - least + 1, 200)), b = total - h; auto len = std::to_string(b); auto wire = header(s, id, len, h); b = total > wire.size() ? total - wire.size() : 0; if (std::to_string(b).size() != len.size()) wire = header(s, id, std::to_string(b), wire.size()); else { auto p = wire.find("content-length: "); wire.replace(p + 16, len.size(), std::to_string(b)); } size_t head = wire.size(); bool refuse = head + b > max; std::string body; auto u = s.bytestr(1 + s.below(50)); while (body.size() < b) body += u; body.resize(b); if (sendall && !(refuse && s.flip())) wire += body;
	c.note("limit " + std::to_string(max) + ", request " + std::to_string(head) + " + " + std::to_string(b) + (refuse ? " refused\n" : " accepted\n")); Client cl; if (!cl.open(sv.port)) c.fail("harness: cannot connect"); std::vector<Segment> segs = cut(s, wire, { head, wire.size() }, 4); net::Response r; std::string why, err; int st = 0; cl.run(segs, [&] { if (cl.in.empty()) return false; st = parse(cl.in, 0, false, r, why); return st != 0; });
	if (st <= 0) c.fail(st < 0 ? "malformed response: " + why : std::string("no response")); c.check(r.status == (refuse ? 413 : 200), "answered with status " + std::to_string(r.status)); std::vector<Ran> g; { std::lock_guard<std::mutex> l(mtx); g = ran; } c.check(g.size() == !refuse, "handler ran " + std::to_string(g.size()) + " times"); if (!refuse) c.check(g[0].id == id && g[0].body == b && g[0].sum == sum(body), "request reached the handler changed"); else { cl.in.clear(); c.check(cl.waitend(), "connection stays open after a refused request"); } c.nontrivial(kind || max >= least); cl.drop();
}
int main(int argc, char** argv) {
	return run(argc, argv, "C07", { { "limit", limit, 30000, 400000, "1-6 pipelined requests to servers with limits from 220 to 200000 bytes, header section plus body at, around or far from the limit (header only, header and body, lengths announced up to beyond 2^64 without a body, headers that never end), cut into segments at random and near the boundaries; accepted ones must reach the handler intact, refused ones get 413 and the connection closes; non-trivial: a total within 5 bytes of the limit", 14, 60, 45, false, false, init },
		{ "limits", limits, 2000, 40000, "a server of its own for each case, with limits of 0 to 400 bytes, around powers of two, of two gigabytes to 2^64-1 bytes, or the default, and a request at or around the limit (or far below it where it is out of reach): accepted intact or refused with 413; non-trivial: a limit that some request fits", 8, 60, 30, false, false, [] { quiet(); } } });
}
