// C03: response compression is only ever what the client asked for
#include "http_common.hpp"
using namespace pbt; using namespace net; namespace L = Lambda;
struct Plan { std::optional<std::string> type, coding; std::string body; bool fail = false; int code = 200; };
static std::mutex mtx; static std::map<std::string, Plan> plans; static net::Server srv[2];
static L::HandlerResponse handle(const L::HTTP::Request& rq, const L::RequestContext&) {
	Plan p; { std::lock_guard<std::mutex> l(mtx); auto it = plans.find(rq.headers.get("x-case")); if (it == plans.end()) return "unknown"; p = it->second; } if (p.fail) throw std::runtime_error(p.body);
	L::HTTP::Response r(p.code); if (p.type) r.headers.set("Content-Type", *p.type); if (p.coding) r.headers.set("Content-Encoding", *p.coding); r.body = std::vector<uint8_t>(p.body.begin(), p.body.end()); return r;
}
static void init() { quiet(); auto c = config(); c.errorResponseType = L::ErrorResponseType::Plain; srv[0] = start(c, handle); c.transport.useCompression = false; c.service.useThreadList = true; srv[1] = start(c, handle); }
static std::string recase(Src& s, std::string k) { unsigned m = s.below(4); for (auto& c : k) if (m == 1 || (m == 2 && s.flip())) c = toupper(c); return k; }
struct Accept { std::string lines; std::set<std::string> ok; size_t items = 0; };
static Accept accept(Src& s) {
	Accept a; if (s.chance(1, 8)) { if (s.flip()) a.lines = "accept-encoding: \r\n"; return a; } size_t n = s.chance(1, 8) ? 6 + s.below(14) : 1 + s.below(5); std::set<std::string> used; std::vector<std::string> items;
	for (size_t i = 0; i < n; i++) { std::string k = s.weighted({ 4, 1 }) == 0 ? s.pick({ "gzip", "br", "deflate" }) : s.pick({ "identity", "compress", "zstd", "gzipped", "xbr", "bro", "brotli", "x-deflate", "inflate", "g", "deflate64", "exi", "pack200-gzip", "aes128gcm", "dcb", "x-1", "x-2", "x-3", "x-4", "x-5" }); if (!used.insert(k).second) continue; std::string q; bool ok = true; switch (s.weighted({ 5, 2, 2 })) { case 1: q = s.pick({ ";q=1", ";q=0.5", "; q=0.001", ";q=1.000", " ; q=0.9", ";Q=0.3" }); break; case 2: q = s.pick({ ";q=0", "; q=0", ";q=0.0", ";q=0.000", " ; Q=0" }); ok = false; break; default: break; } items.push_back(recase(s, k) + q); if (ok) a.ok.insert(k); }
	if (s.chance(1, 8)) items.insert(items.begin() + s.below(items.size() + 1), "*;q=0"); a.items = items.size(); std::string cur; const char* name = s.pick({ "accept-encoding", "Accept-Encoding", "ACCEPT-ENCODING" });
	for (size_t i = 0; i < items.size(); i++) { if (cur.size() && s.chance(1, 8)) { a.lines += std::string(name) + ": " + cur + "\r\n"; cur.clear(); } cur += (cur.size() ? s.pick({ ", ", ", ", ",", " , ", " ,", ",  ", ",\t", ", ," }) : "") + items[i]; } a.lines += std::string(name) + ": " + cur + "\r\n"; return a;
}
static const char* TEXT[] = { "text/plain", "text/html; charset=utf-8", "text/css", "application/json", "application/xml", "image/svg+xml", "application/javascript", "TEXT/HTML", "application/ld+json; a=b", "Application/JSON" };
static const char* BIN[] = { "image/png", "application/octet-stream", "video/mp4", "application/zip", "font/woff2", "audio/mpeg", "application/pdf", "application/wasm", "IMAGE/JPEG", "application/gzip", "image/webp" };
static void coding(Src& s, Case& c) {
	static uint64_t serial = 0; bool on = !s.chance(1, 5); auto& sv = srv[on ? 0 : 1];
#ifdef PBT_VARIANT
	on = false;	// that build has no codecs
#endif
	 Client cl; if (!cl.open(sv.port)) c.fail("harness: cannot connect"); { std::lock_guard<std::mutex> l(mtx); plans.clear(); } size_t n = s.chance(1, 60) ? 6 + s.below(20) : 1 + s.below(5); bool pipe = s.chance(1, 3); std::string all; std::vector<Plan> ps; std::vector<Accept> as; std::vector<bool> textual, heads; bool nt = false;
	for (size_t i = 0; i < n; i++) {
		auto id = std::to_string(getpid()) + "." + std::to_string(++serial); Plan p; Accept a = accept(s); bool txt = true; switch (s.weighted({ 4, 2, 3 })) { case 0: p.type = TEXT[s.below(10)]; break; case 1: break; default: p.type = BIN[s.below(11)]; txt = false; } if (s.chance(1, 6)) p.coding = s.pick({ "gzip", "br", "identity", "x-own", "deflate", "gzip, br" });
		switch (s.weighted({ 1, 3, 3, 1 })) { case 0: break; case 1: p.body = s.pick({ "Hello", "x", "{}", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa" }); break; case 2: p.body = s.bytestr(s.len(3000)); break; default: { auto u = s.bytestr(1 + s.below(300)); size_t z = s.pick({ 16384u, 32768u, 65536u, 65537u, 262144u }); while (p.body.size() < z) p.body += u; p.body.resize(z); } }
		if (s.chance(1, 10)) { p = {}; p.fail = true; p.body = "failure " + s.str("abc", s.below(30)); txt = true; } else if (s.chance(1, 10)) p.code = s.pick({ 404, 500, 204, 304, 206 }); bool head = s.chance(1, 8);
		{ std::lock_guard<std::mutex> l(mtx); plans[id] = p; } c.note(std::string(on ? "" : "(compression off) ") + show(a.lines, 200) + " type " + (p.type ? *p.type : "none") + " coding " + (p.coding ? *p.coding : "none") + " body " + std::to_string(p.body.size()) + (p.fail ? " throws" : "") + " status " + std::to_string(p.code) + "\n"); all += std::string(head ? "HEAD" : "GET") + " / HTTP/1.1\r\nx-case: " + id + "\r\n" + a.lines + "\r\n"; if (a.items) nt = true; ps.push_back(p); as.push_back(a); textual.push_back(txt); heads.push_back(head);
		if (!pipe) { cl.send(all); all.clear(); } if (pipe && i + 1 < n) continue; if (pipe) cl.send(all);
		for (size_t k = pipe ? 0 : i; k <= i; k++) {
			auto& p = ps[k]; auto& a = as[k]; net::Response r; auto e = next(cl, heads[k], r); c.check(e.empty(), e); std::string w = "response " + std::to_string(k) + ": "; c.check(r.status == (p.fail ? 500 : p.code), w + "status " + std::to_string(r.status)); auto ce = r.all("content-encoding");
			if (p.coding) { c.check(ce == std::vector<std::string>{ *p.coding }, w + "content-encoding " + (ce.size() ? show(ce[0]) : std::string("missing")) + " instead of the handler's " + *p.coding); if (!heads[k] && p.code != 204 && p.code != 304) c.check(r.body == p.body, w + "body already coded by the handler was changed"); c.label("coded by the handler"); continue; }
			c.check(ce.size() <= 1, w + "several content-encoding headers"); std::string got = ce.size() ? ce[0] : ""; if (got.size()) { c.label(got == "br" ? "brotli" : got == "gzip" ? "gzip" : "deflate"); c.check(on, w + "coded with compression disabled"); c.check(textual[k], w + "coded although its type is " + (p.type ? *p.type : "")); c.check(a.ok.count(got), w + "coded as " + got + " which this request does not accept"); const char* best = a.ok.count("br") ? "br" : a.ok.count("gzip") ? "gzip" : "deflate"; c.check(got == best, w + "coded as " + got + " instead of the preferred " + best); } else c.label("not coded");
			if (!heads[k] && p.code != 204 && p.code != 304) { std::string d; try { d = undo(got, r.body); } catch (const std::exception& x) { c.fail(w + "announced as " + (got.size() ? got : "not coded") + " but: " + x.what()); } if (p.fail) c.check(d.find(p.body) != std::string::npos, w + "error page lacks the failure text"); else c.check(d == p.body, w + "decodes to other bytes than the handler's body"); }
		}
	}
	c.nontrivial(nt);
}
int main(int argc, char** argv) {
	return run(argc, argv, "C03", { { "coding", coding, 40000, 250000, "1-5 requests of one connection, each with its own accept-encoding (names, look-alikes, letter case, weights including zero, separators, several header lines, absent) and response (textual, other or no type, own content-encoding, error page, no-body statuses, HEAD) with compression on and off; coding must be the best one accepted by that request or none, and decode by an independent decoder to the handler's body; non-trivial: an accept-encoding list was sent", 12, 60, 45, false, false, init } });
}
