// C34: handlers and the log identify the client and the request correctly
#include "ws_common.hpp"
#include "http_common.hpp"
extern "C" void __sanitizer_set_report_fd(void*) __attribute__((weak));
using namespace pbt; using namespace net; namespace L = Lambda;
struct Rec { std::string rid, cid, host, method, path; unsigned port = 0, hport = 0; };
struct Rq { std::string id, how, method, path, query, text, extra; int status = 200; bool close = false; Rec rec; bool ran = false, answered = false; };
static std::mutex mtx; static std::map<std::string, Rq*> plans; static net::Server srv[8]; static int fo = -1, fe = -1; static size_t base = 0;
static L::HandlerResponse handle(const L::HTTP::Request& rq, const L::RequestContext& cx) {
	Rq* p; { std::lock_guard<std::mutex> l(mtx); auto i = plans.find(rq.headers.get("x-case")); if (i == plans.end()) return "unknown"; p = i->second; p->ran = true; p->rec = { cx.requestID, cx.contextID, cx.conninfo.remoteAddr.hostname, rq.method.toString(), rq.url.pathname, cx.conninfo.remoteAddr.port, cx.conninfo.hostPort }; }
	auto& h = p->how; if (h == "throw") throw std::runtime_error(p->text); if (h == "odd") throw 5; if (h == "none") return {};
	if (h == "ws" || h == "badws" || h == "wsthrow" || h == "wslate") { auto s = cx.upgrateToWebsocket(); while (s.awaitMessage()) { auto m = s.nextMessage(); try { s.sendMessage(m.data); } catch (const std::exception&) { if (h != "wsthrow") break; } if (h == "wsthrow") throw std::runtime_error(p->text); } if (h == "wslate") return L::HTTP::Response(p->status, "late"); return {}; }
	if (h == "caught") { try { auto s = cx.upgrateToWebsocket(); } catch (const std::exception&) { } return L::HTTP::Response(p->status, "handled"); }
	if (h == "sse" || h == "ssethrow" || h == "sselate") { auto s = cx.startEventStream(); s.push({ "one" }); if (h == "ssethrow") throw std::runtime_error(p->text); s.close(); if (h == "sselate") return L::HTTP::Response(p->status, "late"); return {}; }
	return L::HTTP::Response(p->status, "ok");
}
static std::string fresh(int fd) { std::string o; char b[65536]; ssize_t n; off_t at = 0; while ((n = pread(fd, b, sizeof b, at)) > 0) { o.append(b, n); at += n; } if (ftruncate(fd, 0)) {} lseek(fd, 0, SEEK_SET); return o; }
static std::vector<std::string> lines(const std::string& t) { std::vector<std::string> o; size_t p = 0; while (p < t.size()) { auto q = t.find('\n', p); if (q == std::string::npos) { o.push_back(t.substr(p) + "<no line end>"); break; } o.push_back(t.substr(p, q - p)); p = q + 1; } return o; }
static void init() {
	int keep = dup(2); if (__sanitizer_set_report_fd) __sanitizer_set_report_fd((void*)(intptr_t)keep); fo = memfd_create("out", MFD_CLOEXEC); fe = memfd_create("err", MFD_CLOEXEC); fflush(stdout); fflush(stderr); dup2(fo, 1); dup2(fe, 2); fcntl(1, F_SETFL, O_APPEND); fcntl(2, F_SETFL, O_APPEND);
	auto c = config(); for (int i = 0; i < 8; i++) { c.loglevel.requests = i & 1; c.loglevel.transportEvents = i & 2; c.service.useThreadList = i & 4; c.errorResponseType = (L::ErrorResponseType)(i % 3); srv[i] = start(c, handle); } nap(0.02); base = net::threads(); fflush(stdout); fresh(fo); fresh(fe);
}
struct Cn { std::vector<Rq> rq; bool piped = false; int end = 0; std::string broken = "BAD"; uint16_t port = 0; std::string err; bool open = false; };
static bool isws(const std::string& h) { return h == "ws" || h == "wsthrow" || h == "wslate"; }
static bool issse(const std::string& h) { return h.compare(0, 3, "sse") == 0; }
static std::string wire(const Rq& q) {
	std::string w = q.method + " " + q.path + q.query + " HTTP/1.1\r\nHost: h\r\nx-case: " + q.id + "\r\n" + q.extra; if (isws(q.how)) w += "Upgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: YQ==\r\n"; else if (q.close) w += "Connection: close\r\n"; return w + "\r\n";
}
static bool stays(const std::string& h) { return h == "" || h == "throw" || h == "odd" || h == "none" || h == "caught"; }
static void drive(Cn& x, uint16_t port) {
	Client cl; if (!cl.open(port)) { x.err = "harness: cannot connect"; return; } x.open = true; x.port = cl.port();
	auto take = [&](Rq& q) { net::Response r; std::string why; int st = 0; bool up = isws(q.how) || issse(q.how); cl.wait([&] { if (cl.in.empty()) return false; st = parse(cl.in, 0, q.method == "HEAD", r, why, up); return st != 0; }, 12); if (st != 1) { x.err = "request " + q.id + " (" + q.how + "): " + (st < 0 ? why : "no response"); return false; } cl.in.erase(0, r.size); q.answered = true; int want = q.how == "throw" || q.how == "odd" || q.how == "none" ? 500 : isws(q.how) ? 101 : issse(q.how) ? 200 : q.how == "badws" ? 0 : q.status; if (want && r.status != want) { x.err = "request " + q.id + " answered with status " + std::to_string(r.status); return false; } if (!want) q.status = r.status; return true; };
	if (x.piped) { std::string all; for (auto& q : x.rq) all += wire(q); cl.send(all); } bool last = true; for (auto& q : x.rq) { if (!x.piped) cl.send(wire(q)); if (x.end == 2 && &q == &x.rq.back()) break; if (!take(q)) { last = false; break; } } if (!last) { cl.rst(); return; }
	auto how = x.rq.empty() ? std::string() : x.rq.back().how; if (x.end == 2) { cl.rst(); return; }
	if (issse(how)) { cl.waitend(); if (cl.in.find("HTTP/1.1") != std::string::npos) x.err = "a response appears within the event stream"; } else if (isws(how)) { cl.send(ws::frame(0x81, "echo", 5)); if (how != "wsthrow") cl.send(ws::frame(0x88, "", 9)); cl.waitend(); } else if (issse(how) || how == "badws" || (x.rq.size() && x.rq.back().close)) cl.waitend(); else if (x.end == 1) { cl.send(x.broken + "\r\n\r\n"); cl.waitend(); } else if (x.end == 3) { cl.finish(); cl.waitend(); } else return; if (!cl.over()) x.err = "the connection stays open";
}
static void log(Src& s, Case& c) {
	static uint64_t serial = 0; int w = s.below(8); bool req = w & 1, tra = w & 2; size_t n = 1 + s.weighted({ 3, 3, 2, 1, 1 }); std::vector<Cn> cn(n); { std::lock_guard<std::mutex> l(mtx); plans.clear(); } size_t total = 0; c.note(std::string(req ? "requests " : "") + (tra ? "transport " : "") + (w & 4 ? "tracked" : "detached") + "\n");
	for (auto& x : cn) { size_t m = s.below(6); x.piped = s.flip(); x.end = s.weighted({ 5, 2, 1, 2 }); x.broken = s.weighted({ 1, 2 }) ? "GET /a" + std::string(s.pick({ "\n", "\r", "\n\n", "\x1b[2K\r", "\x7f", "\t", "\v" })) + s.pick({ "[00000000]", "[Transport]", "", "[0badcafe]\n" }) + s.pick({ "", "(10.0.0.1)" }) + " HTTP/1.1" : s.pick({ "BAD", "GET /x HTTP/1.1\r\nnocolon", "BREW / HTTP/1.1", "POST / HTTP/1.1\r\ncontent-length: x", "GET / HTTP/2.0" }); c.note("connection" + std::string(x.piped ? " pipelined" : "") + " end " + std::to_string(x.end) + ":"); for (size_t i = 0; i < m; i++) { Rq q; q.id = std::to_string(getpid()) + "." + std::to_string(++serial); bool fin = i + 1 == m; static const char* H[] = { "", "throw", "odd", "none", "caught", "badws", "ws", "sse", "wsthrow", "ssethrow", "wslate", "sselate" }; q.how = H[s.weighted({ 10, 3, 1, 1, 1, (unsigned)fin, (unsigned)(fin * 2), (unsigned)(fin * 2), (unsigned)fin, (unsigned)fin, (unsigned)fin, (unsigned)fin })];
			q.method = q.how == "caught" || stays(q.how) ? s.pick({ "GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH" }) : "GET"; if (q.how == "caught") q.method = "GET"; q.path = "/"; size_t seg = s.below(4); for (size_t k = 0; k < seg; k++) q.path += s.str("abcXYZ019-_.~%!$&'()*+,;=:@", s.below(12)) + (s.flip() ? "/" : ""); if (q.path.compare(0, 2, "//") == 0) q.path = "/x" + q.path; if (s.chance(1, 3)) q.query = "?k=" + s.str("abc019", s.below(9)); q.text = s.chance(1, 6) ? "" : s.str("abc xyz-->[](){}%s\"'\\", s.below(40)); q.status = s.pick({ 200, 201, 202, 204, 206, 301, 302, 304, 400, 401, 403, 404, 405, 418, 500, 502, 503 }); if (s.chance(1, 3)) for (size_t k = 1 + s.below(3); k--;) q.extra += std::string(s.pick({ "X-Forwarded-For: 6.6.6.6, 7.7.7.7", "X-Real-IP: 6.6.6.6", "Forwarded: for=6.6.6.6", "X-Request-Id: 00000000-11111111", "User-Agent: x", "Referer: http://h/from", "X-Original-URL: /other", "X-HTTP-Method-Override: DELETE", "Via: 1.1 proxy", "Authorization: Basic dTpw", "Cookie: a=b" })) + "\r\n"; q.close = fin && stays(q.how) && s.chance(1, 6); c.note(" " + q.method + " " + q.path + (q.how.empty() ? "" : " " + q.how) + (q.close ? " close" : "")); x.rq.push_back(q); }
		if (x.rq.size() && (!stays(x.rq.back().how) || x.rq.back().close) && x.end) x.end = 0; c.note("\n"); total += m; }
	// one more connection after the others have left: when it is answered the server has accepted them all
	cn.emplace_back(); cn[n].rq.emplace_back(); { auto& q = cn[n].rq[0]; q.id = std::to_string(getpid()) + "." + std::to_string(++serial); q.method = "GET"; q.path = "/last"; } n++;
	{ std::lock_guard<std::mutex> l(mtx); for (auto& x : cn) for (auto& q : x.rq) plans[q.id] = &q; }
	if (n == 2) drive(cn[0], srv[w].port); else { std::vector<std::thread> t; for (size_t i = 0; i + 1 < n; i++) t.emplace_back([&, i] { drive(cn[i], srv[w].port); }); for (auto& x : t) x.join(); c.label("several connections"); } drive(cn[n - 1], srv[w].port);
	bool quiet = eventually(15, [&] { return net::threads() <= base; }); fflush(stdout); fflush(stderr); auto out = lines(fresh(fo)), err = lines(fresh(fe)); { std::lock_guard<std::mutex> l(mtx); plans.clear(); } c.check(quiet, "connections are still being served 15 s after their clients left");
	std::string all; for (auto& l : out) all += "out: " + l + "\n"; for (auto& l : err) all += "err: " + l + "\n"; c.note(all.substr(0, 4000));
	for (size_t i = 0; i < n; i++) { auto nm = "connection " + std::to_string(i) + ": "; auto& x = cn[i]; c.check(x.err.empty(), nm + x.err); for (auto& q : x.rq) { if (!q.ran) { c.check(x.end == 2, nm + "request " + q.id + " was not handled"); continue; } auto& r = q.rec; c.check(r.host == "127.0.0.1", nm + "the handler sees client address " + show(r.host)); c.check(r.port == x.port, nm + "the handler sees client port " + std::to_string(r.port) + " instead of " + std::to_string(x.port)); c.check(r.hport == srv[w].port, nm + "the handler sees server port " + std::to_string(r.hport)); c.check(r.method == q.method && r.path == q.path, nm + "the handler sees " + r.method + " " + r.path); } }
	// what has to be there, and what may be
	std::map<std::string, int> must[2], may[2]; size_t unknown = 0; std::vector<std::vector<std::string>> seq(n);
	auto isid = [](const std::string& t) { return t.size() == 8 && t.find_first_not_of("0123456789abcdef") == std::string::npos; };
	for (size_t i = 0; i < n; i++) { auto& x = cn[i]; std::string cid; for (auto& q : x.rq) if (q.ran) cid = q.rec.cid; auto addr = "127.0.0.1:" + std::to_string(x.port); std::string tail = " created for " + addr;
		if (tra) { std::vector<std::string> f; for (auto& l : out) if (l.size() > tail.size() && l.compare(l.size() - tail.size(), tail.size(), tail) == 0) f.push_back(l); c.check(f.size() == 1, std::to_string(f.size()) + " lines announce the connection from " + addr); auto id = f[0].substr(0, f[0].size() - tail.size()); c.check(id.compare(0, 12, "[Transport] ") == 0 && isid(id.substr(12)), "odd line " + show(f[0], 100)); id = id.substr(12); c.check(cid.empty() || cid == id, "connection " + cid + " is announced as " + id); cid = id; must[0][f[0]]++; seq[i].push_back(f[0]); }
		for (auto& q : x.rq) { if (!q.ran) continue; auto pre = "[" + q.rec.rid + "] (" + (tra ? cid : std::string("127.0.0.1")) + ")"; auto line = pre + " " + q.method + " " + q.path + " --> "; if (!req) continue; auto crash = pre + " Handler crashed:"; auto& h = q.how; auto& set = q.answered ? must : may; if (h == "throw" || h == "wsthrow" || h == "ssethrow") crash += q.text.empty() ? "" : " " + q.text; if (h == "throw" || h == "odd" || h == "wsthrow" || h == "ssethrow") { if (h == "odd") crash += " Unexpected handler exception"; must[1][crash]++; }
			if (isws(h)) { set[0][line + "Websocket"]++; seq[i].push_back(line + "Websocket"); } else if (h == "sse" || h == "ssethrow" || h == "sselate") { set[0][line + "SSE stream"]++; seq[i].push_back(line + "SSE stream"); } else { if (h == "caught" || h == "badws") { may[0][line + "Websocket"]++; may[1][pre + " Protocol switch aborted:"]++; } int st = h == "throw" || h == "odd" || h == "none" ? 500 : q.status; set[0][line + std::to_string(st)]++; seq[i].push_back(line + std::to_string(st)); } }
		auto bye = "[Transport] " + cid + " (127.0.0.1) "; if (x.end == 2) { if (tra) may[0][bye + "closed"]++; if (tra || req) may[1][bye + "terminated:"]++; if (cid.empty()) unknown++; if (tra) { size_t k = 0; for (auto& l : out) k += l == bye + "closed"; for (auto& l : err) k += l.compare(0, bye.size() + 11, bye + "terminated:") == 0; c.check(k == 1, "the end of connection " + cid + " is logged " + std::to_string(k) + " times"); } } else if (x.end == 1) { if (tra || req) { if (cid.empty()) unknown++; else { size_t k = 0; for (auto& l : err) k += l.compare(0, bye.size() + 12, bye + "terminated: ") == 0; c.check(k == 1, "the failure of connection " + cid + " is logged " + std::to_string(k) + " times"); may[1][bye + "terminated:"]++; } } } else if (tra) { must[0][bye + "closed"]++; seq[i].push_back(bye + "closed"); } }
	std::vector<std::string>* got[] = { &out, &err }; static const char* NM[] = { "standard output", "standard error" };
	for (int k = 0; k < 2; k++) { auto left = must[k]; auto opt = may[k]; for (auto& l : *got[k]) { auto i = left.find(l); if (i != left.end() && i->second > 0) { i->second--; continue; } bool ok = false; for (auto& o : opt) if (o.second > 0 && (l == o.first || (k && l.compare(0, o.first.size(), o.first) == 0 && o.first.back() == ':'))) { o.second--; ok = true; break; } if (!ok && k && unknown && l.compare(0, 12, "[Transport] ") == 0 && isid(l.substr(12, 8)) && l.compare(20, 25, " (127.0.0.1) terminated: ") == 0) { unknown--; ok = true; } c.check(ok, "unexpected line on " + std::string(NM[k]) + ": " + show(l, 200)); } for (auto& l : left) c.check(!l.second, "missing on " + std::string(NM[k]) + ": " + show(l.first, 200)); }
	for (auto& q : seq) { size_t at = 0; for (auto& l : q) { size_t f = at; while (f < out.size() && out[f] != l) f++; bool lost = f == out.size(); if (lost) { bool some = false; for (auto& o : out) some |= o == l; c.check(!some, "out of order: " + show(l, 200)); } else at = f + 1; } }
	c.nontrivial(total > 0 && (req || tra)); c.label(req ? tra ? "both" : "requests" : tra ? "transport events" : "no logging");
}
// what an instance says of itself
static void begin(Src& s, Case& c) {
	size_t n = 1 + s.below(3); std::vector<net::Server> sv; std::map<std::string, int> want; bool req = s.flip(), tra = s.flip(); std::vector<bool> told;
	for (size_t i = 0; i < n; i++) { auto k = config(); told.push_back(s.flip()); k.loglevel.startMessage = told[i]; k.loglevel.requests = req; k.loglevel.transportEvents = tra; k.service.fastPortReuse = s.flip(); k.service.useThreadList = s.flip() || told[i]; sv.push_back(start(k, handle)); if (told[i]) want["[Service] Started at http://localhost:" + std::to_string(sv[i].port) + "/"]++; c.note("server" + std::string(told[i] ? " announced" : "") + (k.service.fastPortReuse ? " reusing its port" : "") + "\n"); }
	for (size_t i = 0; i < n; i++) if (told[i]) { Client cl; c.check(cl.open(sv[i].port), "nothing listens at the announced port " + std::to_string(sv[i].port)); }
	unsigned down = 0; for (auto& x : sv) { if (s.flip()) { x.inst->shutdownn(); down++; if (s.flip()) x.inst->awaitFinished(); } x.inst.reset(); }
	eventually(15, [&] { return net::threads() <= base; }); fflush(stdout); fflush(stderr); auto out = lines(fresh(fo)), err = lines(fresh(fe)); for (auto& l : err) c.fail("unexpected line on standard error: " + show(l, 200)); std::map<std::string, int> got; unsigned stop = 0;
	for (auto& l : out) { if (l.find("Started") != std::string::npos) got[l]++; else if (l == "[Service] Shutting down...") stop++; else c.check(l.compare(0, 10, "[Service] ") == 0 || (tra && l.compare(0, 12, "[Transport] ") == 0), "unexpected line on standard output: " + show(l, 200)); }
	for (auto& w : want) c.check(got[w.first] == w.second, std::to_string(got[w.first]) + " times " + show(w.first)); for (auto& g : got) c.check(want.count(g.first) && want[g.first] == g.second, "a server that should not is announced: " + show(g.first)); c.check(stop == down, std::to_string(stop) + " shutdowns logged instead of " + std::to_string(down)); c.nontrivial(n > 1);
}
int main(int argc, char** argv) {
	return run(argc, argv, "C34", {
		{ "start", begin, 1500, 20000, "1-3 servers, each announced or not, started, connected to and shut down: each announced one has exactly one line with the port it listens at, each shutdown one line, the others none; non-trivial: several servers", 8, 60, 20, false, false, init },
	 { "log", log, 20000, 250000, "1-5 concurrent connections x 0-5 requests (7 methods, odd paths, 17 statuses, failing and silent handlers, websockets, event streams, refused upgrades, malformed requests, resets) on servers with each logging option and tracking mode; the handler's view of client and ports and the complete captured output are compared with the lines the history calls for, their stream and order; non-trivial: something is requested and logged", 12, 60, 45, false, false, init } });
}
