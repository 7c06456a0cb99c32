// C05: no client behaviour can take the server down
#include "ws_common.hpp"
#include "http_common.hpp"
#include <dlfcn.h>
#include <pthread.h>
using namespace pbt; using namespace net; namespace L = Lambda;
// ------------------------------------------------------------ resource faults on the server's own threads
static thread_local bool exempt = false; static std::atomic<int> failaccept{ 0 }, failthread{ 0 }; static std::atomic<int> whicherr{ 0 };
extern "C" int accept(int fd, sockaddr* a, socklen_t* n) { if (!exempt) { int k = failaccept; while (k > 0 && !failaccept.compare_exchange_weak(k, k - 1)) {} if (k > 0) { static const int E[] = { EMFILE, ENFILE, ENOBUFS, ENOMEM, ECONNABORTED, EINTR, EAGAIN, EPROTO }; errno = E[whicherr++ % 8]; return -1; } } return syscall(SYS_accept4, fd, a, n, 0); }
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) { static auto real = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create"); if (!exempt) { int k = failthread; while (k > 0 && !failthread.compare_exchange_weak(k, k - 1)) {} if (k > 0) return EAGAIN; } return real(t, a, f, x); }
struct Seen { std::string method, path, body; }; static std::mutex mtx; static std::vector<Seen> seen; static std::atomic<long> busy{ 0 }; static net::Server srv[2], hasty;
static const std::string BIG(1500000, 'B');
static L::HandlerResponse handle(const L::HTTP::Request& rq, const L::RequestContext& cx) {
	exempt = true; struct Busy { Busy() { busy++; } ~Busy() { busy--; } } b; auto path = rq.url.pathname; if (path == "/canary") return "canary " + rq.headers.get("x-case");
	if (path == "/ws") { auto w = cx.upgrateToWebsocket(); while (w.awaitMessage()) { auto m = w.nextMessage(); w.sendMessage(m.data); } return {}; } if (path == "/sse") { auto w = cx.startEventStream(); for (int i = 0; i < 200 && w.connected(); i++) { w.push({ std::string(2000, 'e') }); nap(0.0005); } return {}; } if (path == "/big") { L::HTTP::Response r(200); r.body = BIG; return r; } if (path == "/slow") { nap(0.003); return "slow"; } if (path == "/throw") throw std::runtime_error("planned");
	{ std::lock_guard<std::mutex> l(mtx); auto bb = rq.body.buffer(); seen.push_back({ rq.method.toString(), path, std::string(bb.begin(), bb.end()) }); } try { rq.url.href(); rq.url.searchParams.entries(); L::HTTP::Cookies(rq.headers.get("cookie")).entries(); } catch (const std::exception&) {} return "ok";
}
static void init() { exempt = true; quiet(); auto c = config(); c.transport.maxRequestSize = 50000; exempt = false; for (int i = 0; i < 2; i++) { c.service.useThreadList = i & 1; c.errorResponseType = (L::ErrorResponseType)i; srv[i] = start(c, handle); } c.service.connectionTimeouts.receive = 150; c.service.connectionTimeouts.send = 150; hasty = start(c, handle); exempt = true; }
// ------------------------------------------------------------ what a byte stream means
struct Want { std::vector<Seen> rq; bool bad = false, vague = false, closes = false, head = false; std::string why; };
static bool known(const std::string& m) { for (auto k : { "GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "TRACE", "PATCH", "CONNECT" }) if (ieq(m, k)) return true; return false; }
static Want meaning(const std::string& in, size_t max) {
	Want w; size_t at = 0; static const std::string T = "!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"; auto bad = [&](const char* y) { w.bad = true; w.why = y; };
	while (at < in.size()) { auto e = in.find("\r\n\r\n", at); if (e == std::string::npos) { if (in.size() - at >= max) bad("endless header"); else w.why = "incomplete header"; return w; } if (e + 4 - at > max) { bad("header too large"); return w; }
		std::string hd = in.substr(at, e - at); at = e + 4; std::vector<std::string> ln; for (size_t p = 0;;) { auto q = hd.find("\r\n", p); ln.push_back(hd.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) break; p = q + 2; }
		bool odd = false; for (auto& l : ln) for (unsigned char ch : l) if ((ch < 32 && ch != '\t') || ch == 127) odd = true; auto& sl = ln[0]; for (unsigned char ch : sl) if (ch < 32 || ch == 127) { bad("control character in the start line"); return w; } std::vector<std::string> part; for (size_t p = 0;;) { auto q = sl.find(' ', p); part.push_back(sl.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) break; p = q + 1; }
		w.head = ieq(part[0], "HEAD"); if (sl.empty()) { if (ln.size() > 1) w.vague = true; else bad("empty header"); return w; } if (part.size() != 3 || part[1].empty() || part[2].compare(0, 7, "HTTP/1.")) { if (odd && part.size() == 3) { w.vague = true; return w; } if (part.back().empty() || part[0].empty()) { w.vague = true; return w; } bad("start line"); return w; } if (sl.find('\t') != std::string::npos) odd = true; if (!known(part[0])) { if (odd) { w.vague = true; return w; } bad("unknown method"); return w; } for (unsigned char ch : sl) if (ch > 126) odd = true; if (part[1][0] != '/' || part[1].find('#') != std::string::npos || (part[2] != "HTTP/1.1" && part[2] != "HTTP/1.0") || part[1].find("//") != std::string::npos) odd = true;
		std::vector<std::string> cl; bool close = false, te = false, auth = false; for (size_t i = 1; i < ln.size(); i++) { auto c = ln[i].find(':'); if (c == std::string::npos) { if (odd || ln[i].empty() || ln[i][0] == ' ' || ln[i][0] == '\t') { w.vague = true; return w; } bad("header line without colon"); return w; } auto k = ln[i].substr(0, c), v = ln[i].substr(c + 1); auto tr = [](std::string x) { auto a = x.find_first_not_of(" \t"), z = x.find_last_not_of(" \t"); return a == std::string::npos ? std::string() : x.substr(a, z - a + 1); }; if (tr(k).empty()) { if (odd) { w.vague = true; return w; } bad("header without a name"); return w; } if (k.find_first_not_of(T) != std::string::npos) odd = true; v = tr(v); if (ieq(k, "content-length")) cl.push_back(v); if (ieq(k, "transfer-encoding")) { if (v.empty()) odd = true; else te = true; } if (ieq(k, "authorization")) auth = true; if (ieq(k, "connection")) close |= listed({ v }, "close"); if (ieq(k, "upgrade")) odd = true; }
		if (odd || auth) { w.vague = true; return w; } if (te) { bad("transfer coding"); return w; } size_t n = 0; if (cl.size()) { for (auto& v : cl) if (v != cl[0] || v.empty()) { bad(v.empty() ? "length" : "conflicting lengths"); return w; } if (cl.size() > 1) { w.vague = true; return w; } if (cl[0].find_first_not_of("0123456789") != std::string::npos) { bad("length"); return w; } n = cl[0].size() > 18 ? max + 1 : std::stoull(cl[0]); if (cl[0].size() > 18 && cl[0][0] == '0') { w.vague = true; return w; } if (hd.size() + 4 + n > max) { bad("too large"); return w; } if (in.size() - at < n) { w.why = "incomplete body"; return w; } }
		auto m = part[0]; for (auto& ch : m) ch = toupper(ch); w.rq.push_back({ m, part[1].substr(0, part[1].find('?')), in.substr(at, n) }); at += n; if (close) { w.closes = true; w.why = "asked to close"; return w; } }
	return w;
}
static const char* TOK[] = { "\r\n", "\r\n\r\n", ":", " ", "\t", "\r", "\n", std::string("\0", 1).c_str(), "HTTP/1.1", "HTTP/2.0", "HTTP/1.0", "GET", "POST / HTTP/1.1\r\n", "content-length: 5\r\n", "Content-Length: ", "content-length: 18446744073709551615\r\n", "content-length: -1\r\n", "transfer-encoding: chunked\r\n", "connection: close\r\n", "\xff\xfe", "%00", "?", "#", "authorization: Basic !!!!\r\n", "authorization: Basic\r\n", "authorization: Basic YQ\r\n", "cookie: a\r\n", "cookie: =;;=\r\n", "host: [\r\n", "host: :\r\n", "accept-encoding: ;q,,;\r\n", "99999999999999999999", "/../..", "expect: 100-continue\r\n", "upgrade: websocket\r\n", "connection: ,,,\r\n", "x:", "?&=&&", "?a", "BREW" };
static std::string valid(Src& s) { auto m = s.pick({ "GET", "GET", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "HEAD", "HEAD" }); std::string h = std::string(m) + " /" + s.str("abc/._-", s.below(12)) + (s.chance(1, 4) ? "?k=v&b=c" : "") + " HTTP/1.1\r\n"; size_t n = s.below(5); std::string body = s.flip() ? "" : s.bytestr(s.below(200)); for (size_t i = 0; i < n; i++) h += s.pick({ "host: localhost\r\n", "accept: */*\r\n", "cookie: a=b; c=d\r\n", "accept-encoding: gzip, br\r\n", "x-long: aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\r\n", "connection: keep-alive\r\n" }); if (body.size() || s.chance(1, 4)) h += "content-length: " + std::to_string(body.size()) + "\r\n"; return h + "\r\n" + body; }
static std::string mutate(Src& s, std::string d) { size_t k = 1 + s.below(4); for (size_t i = 0; i < k; i++) { size_t p = s.below(d.size() + 1), n = std::min<size_t>(s.below(12), d.size() - p); switch (s.below(8)) { case 0: d.erase(p, n); break; case 1: d.insert(p, TOK[s.below(sizeof TOK / sizeof *TOK)]); break; case 2: d.insert(p, s.bytestr(1 + s.below(5))); break; case 3: if (p < d.size()) d[p] = (char)s.below(256); break; case 4: d.insert(p, d.substr(p, n)); break; case 5: if (p < d.size()) d[p] ^= (char)(1 << s.below(8)); break; case 6: { auto q = d.find("\r\n", p); if (q != std::string::npos) d.insert(q + 2, TOK[s.below(sizeof TOK / sizeof *TOK)]); break; } default: d.resize(p); } } return d; }
static std::string malformed(Src& s) { std::string cl = "content-length: "; switch (s.below(16)) { case 0: return "GET\r\n\r\n"; case 1: return "GET /\r\n\r\n"; case 2: return "GET / HTTP/1.1 extra\r\n\r\n"; case 3: return s.pick({ "BREW", "GE", "GETT", "get_", "-", "PRI" }) + std::string(" / HTTP/1.1\r\n\r\n"); case 4: return "GET / " + std::string(s.pick({ "HTTP/2.0", "HTTP", "HTTP/", "http/1.1", "HTCPCP/1.0", "HTTP/11" })) + "\r\n\r\n"; case 5: return "GET / HTTP/1.1\r\nno colon here\r\n\r\n"; case 6: return "GET / HTTP/1.1\r\n: no name\r\n\r\n"; case 7: return "POST / HTTP/1.1\r\n" + cl + s.pick({ "x", "-1", "+5", "5x", "0x5", "1e3", "5.0", "5,6", "NaN", "5 5", "", " \t", "\xd9\xa5" }) + "\r\n\r\nhello"; case 8: return "POST / HTTP/1.1\r\n" + cl + "5\r\n" + cl + s.pick({ "6", "0", "50", "", " " }) + "\r\n\r\nhello"; case 9: return "POST / HTTP/1.1\r\ntransfer-encoding: " + std::string(s.pick({ "chunked", "Chunked", "gzip, chunked", "identity" })) + "\r\n\r\n5\r\nhello\r\n0\r\n\r\n"; case 10: return "POST / HTTP/1.1\r\n" + cl + s.pick({ "60000", "50001", "18446744073709551615", "99999999999999999999" }) + "\r\n\r\n"; case 11: return "GET / HTTP/1.1\r\nx: " + std::string(60000, 'a') + "\r\n\r\n"; case 12: return "\r\n\r\n"; case 13: return "\x16\x03\x01\x02\x01\x01\r\n\r\n"; case 14: return "POST / HTTP/1.1\r\nhost: a\r\naccept\r\n" + cl + "5\r\n\r\nhello"; default: return "GET / HTTP/1.1\r\ntransfer-encoding: chunked\r\n" + cl + "5\r\n\r\nhello"; } }
static void canary(Case& c, uint16_t port, const std::string& when) { static std::atomic<uint64_t> serial{ 0 }; Client cl; c.check(cl.open(port), "cannot connect " + when); auto tag = std::to_string(++serial); std::string err; net::Response r; for (int i = 0; i < 2 && err.empty(); i++) { cl.send("GET /canary HTTP/1.1\r\nx-case: " + tag + "\r\n\r\n"); err = next(cl, false, r); if (err.empty() && (r.status != 200 || r.body != "canary " + tag)) err = "status " + std::to_string(r.status) + " and body " + show(r.body, 40); } c.check(err.empty(), "well-behaved client " + when + ": " + err); }
static void bytes(Src& s, Case& c) {
	exempt = true; unsigned w = s.below(2); auto& sv = srv[w]; std::string in; size_t n = s.below(4); for (size_t i = 0; i < n; i++) in += valid(s); unsigned kind = s.weighted({ 4, 6, 1, 2 }); if (kind == 0) { in += malformed(s); if (s.flip()) in += valid(s); } else if (kind == 1) { std::string x; size_t k = 1 + s.below(3); for (size_t i = 0; i < k; i++) x += valid(s); in += mutate(s, x); } else if (kind == 2) in += s.bytestr(s.below(300)) + (s.flip() ? "\r\n\r\n" : ""); else { auto x = valid(s); in += x.substr(0, s.below(x.size())); }
	auto segs = cut(s, in); auto want = meaning(in, 50000); c.note("stream " + show(in, 1500) + "\n" + std::to_string(want.rq.size()) + " requests, then " + (want.vague ? "anything" : want.bad ? "malformed: " + want.why : want.why.empty() ? "the end" : want.why) + ", send " + plan(segs) + "\n"); { std::lock_guard<std::mutex> l(mtx); seen.clear(); }
	Client cl; if (!cl.open(sv.port)) c.fail("cannot connect"); auto full = cl.run(segs, [&] { return cl.sent >= in.size(); }); (void)full; bool wait = want.bad; if (wait) { cl.waitend(); c.check(cl.over(), "connection stays open after a malformed request (" + want.why + ")"); } else { if (!want.closes) cl.finish(); cl.waitend(); c.check(cl.over(), "connection stays open after the client's end of stream"); } c.check(eventually(12, [&] { return busy == 0; }), "handler still running");
	std::vector<Seen> got; { std::lock_guard<std::mutex> l(mtx); got = seen; } auto upto = std::min(got.size(), want.rq.size()); if (!want.vague) c.check(got.size() == want.rq.size(), "handler ran " + std::to_string(got.size()) + " times instead of " + std::to_string(want.rq.size()) + (want.why.size() ? " (" + want.why + ")" : "")); else c.check(got.size() >= want.rq.size(), "handler ran " + std::to_string(got.size()) + " times for at least " + std::to_string(want.rq.size()) + " requests"); for (size_t i = 0; i < upto; i++) c.checkf(got[i].method == want.rq[i].method && got[i].path == want.rq[i].path && got[i].body == want.rq[i].body, [&] { return "handler got " + got[i].method + " " + show(got[i].path) + " with body " + show(got[i].body, 60) + " instead of " + want.rq[i].method + " " + show(want.rq[i].path) + " " + show(want.rq[i].body, 60); });
	size_t k = 0; bool refused = false; while (cl.in.size()) { net::Response r; std::string why; bool head = k < got.size() && got[k].method == "HEAD"; int st = parse(cl.in, 0, head, r, why); if (st <= 0 && k >= got.size() && (want.vague || want.head)) st = parse(cl.in, 0, true, r, why); if (st <= 0) { c.check(st == 0 && cl.reset, "response " + std::to_string(k) + (st ? " malformed: " + why : " incomplete")); break; } cl.in.erase(0, r.size); c.check(!refused, "a response follows the refusal"); if (r.status >= 400) { refused = true; c.check((r.status < 500 || r.status == 501) && (want.vague || want.bad), "status " + std::to_string(r.status) + " for " + (want.why.empty() ? "a valid request" : want.why)); } else { k++; c.check(r.status == 200, "status " + std::to_string(r.status)); } } c.check(k == got.size() || cl.reset, std::to_string(k) + " responses for " + std::to_string(got.size()) + " requests");
	if (s.chance(1, 3)) canary(c, sv.port, "afterwards"); c.nontrivial(want.bad || kind == 1 || kind == 3); c.label(want.vague ? "leniency allowed" : want.bad ? "malformed" : want.why.empty() ? "valid after all" : want.why.c_str()); if (refused) c.label("refused with a status");
}
static void chaos(Src& s, Case& c) {
	exempt = true; auto& sv = s.chance(1, 6) ? hasty : srv[s.below(2)]; bool hst = &sv == &hasty; size_t n = 1 + s.below(6); struct H { std::vector<Segment> plan; unsigned how; double hold; bool rd; size_t stop; std::string first; }; std::vector<H> hs;
	for (size_t i = 0; i < n; i++) { H h; std::string d; unsigned kind = s.below(8); switch (kind) { case 0: d = s.bytestr(s.below(3000)); break; case 1: d = valid(s) + mutate(s, valid(s)); break; case 2: d = malformed(s); break; case 3: h.first = ws::request("h", "dGhlIHNhbXBsZSBub25jZQ=="); { size_t m = s.below(6); for (size_t j = 0; j < m; j++) d += ws::frame((uint8_t)(s.flip() ? 0x82 : s.below(256)), s.bytestr(s.below(300)), 77, s.chance(7, 8)); if (s.flip()) d = mutate(s, d); if (s.chance(1, 4)) d += ws::head(0x82, s.pick<uint64_t>({ 200ull, 40000ull, 1ull << 40, ~0ull }), true, 1); } break; case 4: d = "GET /sse HTTP/1.1\r\n\r\n" + s.bytestr(s.below(20)); break; case 5: { size_t m = 1 + s.below(4); for (size_t j = 0; j < m; j++) d += "GET /big HTTP/1.1\r\naccept-encoding: " + std::string(s.pick({ "x", "gzip" })) + "\r\n\r\n"; break; } case 6: { size_t m = 1 + s.below(8); for (size_t j = 0; j < m; j++) d += s.flip() ? "GET /slow HTTP/1.1\r\n\r\n" : "GET /throw HTTP/1.1\r\n\r\n"; break; } default: d = "POST / HTTP/1.1\r\ncontent-length: 40000\r\n\r\n" + std::string(s.below(39999), 'x'); }
		h.plan = cut(s, d); h.how = s.below(4); h.hold = s.weighted({ 3, 3, 1 }); h.hold = h.hold == 0 ? 0 : h.hold == 1 ? s.below(20) * 0.0002 : 0.02; h.rd = s.flip(); h.stop = h.plan.size() ? s.below(h.plan.size()) + 1 : 0; static const char* HOW[] = { "closes", "resets", "half-closes", "stays until the server ends it" }; static const char* KIND[] = { "random bytes", "mutated request", "malformed request", "websocket abuse", "event stream", "large responses", "slow and failing handlers", "unfinished body" }; if (h.how == 3 && (!hst || kind == 3)) h.how = s.below(3); c.note(std::string(KIND[kind]) + ": " + show(d, 200) + " " + plan(h.plan) + ", then " + HOW[h.how] + (h.rd ? " after reading\n" : "\n")); c.label(KIND[kind]); c.label(HOW[h.how]); hs.push_back(h); }
	std::vector<std::string> err(n); std::vector<std::thread> t; for (size_t i = 0; i < n; i++) t.emplace_back([&, i] { exempt = true; auto& h = hs[i]; Client cl; if (!cl.open(sv.port, h.rd ? 0 : 4096)) { err[i] = "cannot connect"; return; } if (h.first.size()) { cl.send(h.first); cl.wait([&] { return cl.in.find("\r\n\r\n") != std::string::npos; }, 5); } std::vector<Segment> p(h.plan.begin(), h.plan.begin() + h.stop); cl.run(p, nullptr, h.rd ? 1 : 0.2); if (h.rd) cl.wait([&] { return cl.over(); }, h.hold); else nap(h.hold); if (h.how == 0) cl.drop(); else if (h.how == 1) cl.rst(); else if (h.how == 2) { cl.finish(); cl.waitend(0.05); } else { cl.wait([&] { return cl.over(); }, 12); if (!cl.over()) err[i] = "idle connection still open long after the timeout"; } });
	Case* cc = &c; std::string cerr; try { size_t m = 1 + s.below(3); for (size_t i = 0; i < m; i++) canary(*cc, sv.port, "meanwhile"); } catch (const Failure& f) { cerr = f.msg; } for (auto& x : t) x.join(); c.check(cerr.empty(), cerr); for (auto& e : err) c.check(e.empty(), e); canary(c, sv.port, "afterwards"); c.check(eventually(15, [&] { return busy == 0; }), "a handler is still running after its client is gone"); c.nontrivial(true);
}
static void exhausted(Src& s, Case& c) {
	exempt = true; auto& sv = srv[s.below(2)]; Client old; if (!old.open(sv.port)) c.fail("cannot connect"); old.send("GET /canary HTTP/1.1\r\nx-case: old\r\n\r\n"); net::Response r; auto e = next(old, false, r); c.check(e.empty(), e); bool th = s.flip(); int k = 1 + s.below(6); whicherr = s.below(8); c.note(std::string(th ? "thread creation" : "accept") + " fails " + std::to_string(k) + " times\n"); c.label(th ? "thread creation fails" : "accept fails"); (th ? failthread : failaccept) = k;
	size_t n = 1 + s.below(8); std::vector<Client> cl(n); size_t served = 0, dropped = 0; for (auto& x : cl) { if (!x.open(sv.port)) { failthread = failaccept = 0; c.fail("cannot connect"); } x.send("GET /canary HTTP/1.1\r\nx-case: new\r\n\r\n"); if (s.flip()) nap(0.0005); } for (auto& x : cl) { net::Response q; auto er = next(x, false, q); if (er.empty() && q.body == "canary new") served++; else dropped++; } (th ? failthread : failaccept) = 0; c.check(dropped <= (size_t)(th ? k : 0), std::to_string(dropped) + " connections lost while " + (th ? "thread creation" : "accept") + " failed " + std::to_string(k) + " times");
	old.send("GET /canary HTTP/1.1\r\nx-case: old\r\n\r\n"); e = next(old, false, r); c.check(e.empty() && r.body == "canary old", "earlier connection after the failures: " + e); canary(c, sv.port, "after the failures"); c.nontrivial(true);
}
int main(int argc, char** argv) {
	return run(argc, argv, "C05", {
		{ "bytes", bytes, 24000, 400000, "byte streams of 0-3 valid requests followed by a catalogued malformed request, structurally mutated requests, random bytes or a truncated request, in random segments; an independent reader of the stream says what must reach the handler, what must be refused and where leniency is allowed; other clients are served afterwards; non-trivial: malformed, mutated or truncated", 14, 60, 40, false, false, init },
		{ "chaos", chaos, 2600, 60000, "1-6 hostile clients at once (random bytes, malformed and unfinished requests, websocket frame abuse, event streams, large responses, slow and failing handlers) that close, reset, half-close or stall at random points while a well-behaved client must be served throughout; all non-trivial", 12, 60, 40, false, false, init },
		{ "exhausted", exhausted, 1500, 30000, "accept or thread creation fails several times in a row while clients connect: earlier connections and later clients are served, no more connections are lost than thread creations failed; all non-trivial", 10, 60, 25, false, false, init } });
}
