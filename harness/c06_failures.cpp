// C06: a failing handler harms only its own request
#include "http_common.hpp"
#include "ref_json.hpp"
using namespace pbt; using namespace net; namespace L = Lambda;
struct Own : std::exception { std::string m; Own(const std::string& x) : m(x) {} const char* what() const noexcept override { return m.c_str(); } };
struct Plain { int x = 1; };
struct Plan { int kind = 0; std::string text, body; double delay = 0; };
static std::mutex mtx; static std::map<std::string, Plan> plans; static std::map<std::string, int> ran; static net::Server srv[6];
static L::HandlerResponse handle(const L::HTTP::Request& rq, const L::RequestContext& cx) {
	Plan p; auto id = rq.headers.get("x-case"); { std::lock_guard<std::mutex> l(mtx); ran[id]++; auto it = plans.find(id); if (it == plans.end()) return "unknown"; p = it->second; } if (p.delay > 0) nap(p.delay); L::HTTP::Response half(200); half.headers.set("x-half", "1"); half.body = std::string("half");
	switch (p.kind) { case 1: throw std::runtime_error(p.text); case 2: throw std::logic_error(p.text); case 3: throw Own(p.text); case 4: throw L::Error(p.text); case 5: throw 42; case 6: throw "text"; case 7: throw std::string("text"); case 8: throw Plain(); case 9: return {}; case 10: throw std::bad_alloc(); case 11: { std::vector<int> v; return std::to_string(v.at(3)); } case 12: return L::HTTP::Response(L::HTTP::Status(299)); case 13: try { throw std::runtime_error("inner"); } catch (...) { std::throw_with_nested(std::runtime_error(p.text)); }
		case 14: throw L::Network::NetworkError(p.text, 0); case 15: throw L::HTTP::Transport::ProtocolError(p.text, 404); case 16: throw std::optional<int>(); case 17: throw std::string(); case 18: throw std::system_error(std::make_error_code(std::errc::io_error), p.text); case 19: throw nullptr; case 20: return L::HandlerResponse(); }
	L::HTTP::Response r(200); r.headers.set("content-type", "image/png"); r.body = p.body; return r;
}
static void init() { quiet(); auto c = config(); L::ErrorResponseType t[] = { L::ErrorResponseType::HTML, L::ErrorResponseType::JSON, L::ErrorResponseType::Plain }; for (int i = 0; i < 6; i++) { c.errorResponseType = t[i % 3]; c.service.useThreadList = i > 2; c.loglevel.requests = i & 1; srv[i] = start(c, handle); } int n = ::open("/dev/null", O_WRONLY); dup2(n, 2); ::close(n); }
static std::string text(Src& s) { std::string t; switch (s.weighted({ 4, 2, 2, 1 })) { case 0: t = s.pick({ "failed", "it's \"bad\"", "a<b && c>d", "<script>alert(1)</script>", "{{svcpage_statuscode}}", "line\nbreak", "tab\there", "back\\slash", "\x01\x1f\x7f", "", "\"", "\\", "</div>", "&amp;", "{{x}}", "\r\n\r\n", "%s%n", "}", "{" }); break; case 1: t = gen_utf8(s, s.below(30)); break; case 2: t = s.str("abc<>&\"'\\{}[]\n\t /", s.below(60)); break; default: t = s.str("abc ", s.pick({ 3000u, 20000u, 100000u })); } auto z = t.find('\0'); if (z != std::string::npos) t.resize(z); return t; }
// text a reader of an HTML page sees
static std::string visible(const std::string& h) { std::string o; bool tag = false; for (size_t i = 0; i < h.size(); i++) { char ch = h[i]; if (tag) { tag = ch != '>'; continue; } if (ch == '<' && i + 1 < h.size() && (isalpha((unsigned char)h[i + 1]) || h[i + 1] == '/' || h[i + 1] == '!')) { tag = true; continue; } if (ch == '&') { static const std::pair<const char*, char> E[] = { { "&amp;", '&' }, { "&lt;", '<' }, { "&gt;", '>' }, { "&quot;", '"' }, { "&#39;", '\'' }, { "&apos;", '\'' }, { "&#34;", '"' }, { "&#x27;", '\'' } }; bool f = false; for (auto& e : E) if (!h.compare(i, strlen(e.first), e.first)) { o += e.second; i += strlen(e.first) - 1; f = true; break; } if (f) continue; } o += ch; } return o; }
static std::string page(int fmt, const net::Response& r, const std::string* text) {
	auto ct = lower(r.get("content-type")); if (r.status != 500) return "status " + std::to_string(r.status) + " instead of 500"; if (r.has("x-half")) return "parts of another response"; std::string b; try { b = undo(r.get("content-encoding"), r.body); } catch (const std::exception& e) { return std::string("undecodable: ") + e.what(); }
	if (fmt == 0) { if (ct.compare(0, 9, "text/html")) return "content type " + ct + " of an HTML page"; if (lower(b).find("<!doctype html>") == std::string::npos || lower(b).find("</html>") == std::string::npos) return "no HTML page: " + show(b, 80); if (b.find("500") == std::string::npos) return "HTML page lacks the status"; if (text && visible(b).find(*text) == std::string::npos) return "HTML page does not show the failure text " + show(*text, 60); return ""; }
	if (fmt == 1) { if (ct.compare(0, 16, "application/json")) return "content type " + ct + " of a JSON document"; std::string err; auto v = RefJson::parse(b, err); if (!v) return "JSON error page does not parse: " + err; bool f = !text; std::function<void(const JV&)> walk = [&](const JV& x) { if (x.t == JV::Str && text && x.s.find(*text) != std::string::npos) f = true; for (auto& y : x.a) walk(y); for (auto& y : x.o) walk(y.second); }; walk(*v); return f ? "" : "JSON error page lacks the failure text " + show(*text, 60); }
	if (ct.compare(0, 10, "text/plain")) return "content type " + ct + " of plain text"; if (text && b.find(*text) == std::string::npos) return "plain error page lacks the failure text " + show(*text, 60); return b.empty() ? "empty error page" : "";
}
static void failing(Src& s, Case& c) {
	static uint64_t serial = 0; int w = s.below(6); { std::lock_guard<std::mutex> l(mtx); plans.clear(); ran.clear(); } size_t nconn = 1 + s.below(3); struct Conn { std::vector<std::string> id, wire; std::vector<Plan> p; std::vector<bool> head; bool pipe; std::string err; }; std::vector<Conn> cn(nconn); size_t fails = 0, total = 0;
	for (size_t k = 0; k < nconn; k++) { auto& q = cn[k]; size_t n = 1 + s.below(6); q.pipe = s.flip(); for (size_t i = 0; i < n; i++) { Plan p; p.kind = s.flip() ? 0 : 1 + s.below(20); p.body = "body-" + std::to_string(i) + s.str("xyz", s.below(20)); p.text = text(s); if (s.chance(1, 8)) p.delay = 0.001; auto id = std::to_string(getpid()) + "." + std::to_string(++serial); bool head = s.chance(1, 10); fails += p.kind > 0; total++; { std::lock_guard<std::mutex> l(mtx); plans[id] = p; } std::string b = s.chance(1, 4) ? s.bytestr(s.below(400)) : ""; q.id.push_back(id); q.p.push_back(p); q.head.push_back(head); q.wire.push_back(std::string(head ? "HEAD" : "POST") + " / HTTP/1.1\r\nx-case: " + id + "\r\n" + (s.chance(1, 5) ? "accept-encoding: gzip\r\n" : "") + "content-length: " + std::to_string(b.size()) + "\r\n\r\n" + b); c.note("connection " + std::to_string(k) + " kind " + std::to_string(p.kind) + " text " + show(p.text, 60) + (head ? " HEAD" : "") + "\n"); } }
	auto drive = [&](Conn& q) { Client cl; if (!cl.open(srv[w].port)) { q.err = "harness: cannot connect"; return; } if (q.pipe) { std::string a; for (auto& x : q.wire) a += x; cl.send(a); }
		for (size_t i = 0; i < q.id.size(); i++) { if (!q.pipe) cl.send(q.wire[i]); net::Response r; auto e = next(cl, q.head[i], r); auto& p = q.p[i]; std::string wh = "response " + std::to_string(i) + " (kind " + std::to_string(p.kind) + "): "; if (e.size()) { q.err = wh + e; return; } bool close; e = announced(r, close); if (e.size() || close) { q.err = wh + (e.size() ? e : "the connection is closed"); return; }
			if (!p.kind) { if (r.status != 200 || (!q.head[i] && r.body != p.body)) { q.err = wh + "successful request got status " + std::to_string(r.status) + " and body " + show(r.body, 60); return; } continue; }
			bool carries = (p.kind <= 4 && p.kind >= 1) || p.kind == 13 || p.kind == 14 || p.kind == 15 || p.kind == 18; if (q.head[i]) { if (r.status != 500) { q.err = wh + "status " + std::to_string(r.status); return; } continue; } e = page(w % 3, r, carries ? &p.text : nullptr); if (e.size()) { q.err = wh + e; return; } }
		cl.pull(); if (cl.over() || cl.in.size()) q.err = "connection ended or extra bytes after the last response"; };
	if (nconn == 1) drive(cn[0]); else { std::vector<std::thread> t; for (auto& q : cn) t.emplace_back([&] { drive(q); }); for (auto& x : t) x.join(); c.label("several connections"); }
	for (auto& q : cn) c.check(q.err.empty(), q.err); { std::lock_guard<std::mutex> l(mtx); c.check(ran.size() == total, "handler ran for " + std::to_string(ran.size()) + " of " + std::to_string(total) + " requests"); for (auto& x : ran) c.check(x.second == 1, "handler ran several times for one request"); }
	c.nontrivial(fails > 0); c.label(w % 3 == 0 ? "HTML pages" : w % 3 == 1 ? "JSON pages" : "plain pages"); c.label("failed requests", fails);
}
int main(int argc, char** argv) {
	return run(argc, argv, "C06", { { "failing", failing, 20000, 250000, "1-3 concurrent connections x 1-6 requests, about half of whose handlers throw one of 18 kinds of values (standard, library, own, non-standard; texts with markup, quotes, control characters, template marks, UTF-8, 100 kB) or return nothing, on servers with each error format; failing ones must get exactly a 500 page of that format carrying the text (HTML read as a reader sees it, JSON by an independent parser), all others their own response on a connection that stays open; non-trivial: some handler fails", 12, 60, 45, false, false, init },
		{ "failing-tsan", failing, 700, 15000, "the same on a thread-sanitized build", 8, 60, 40, false, false, init } });
}
