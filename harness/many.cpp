// More than 2^16 items in one history: long connections, long streams, large collections. MANY says for which property.
#if MANY <= 10
#include "ws_common.hpp"
#include "http_common.hpp"
#else
#include "pbt.hpp"
#include <lambda.hpp>
#include <core/html/html.hpp>
#include <core/json/json.hpp>
#include <core/polyfill/polyfill.hpp>
#include <extra/kvstorage/kvstorage.hpp>
#include <extra/vfs/vfs.hpp>
#include <filesystem>
#endif
using namespace pbt; namespace L = Lambda;
static size_t howmany(Src& s) { return 65530 + s.below(4000); }
// items follow from their number alone, so that the case stays small
static uint32_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; return (uint32_t)(x >> 16); }
#if MANY <= 10
using namespace net;
static net::Server srv[2]; static std::atomic<uint64_t> salt{ 0 }; static std::atomic<size_t> total{ 0 }, ran{ 0 }, wrong{ 0 };
static std::string body(uint64_t k, size_t i) { auto r = mix(k * 1000003 + i); return std::to_string(i) + std::string(r % 9, 'a' + r % 26); }
static L::HandlerResponse handle(const L::HTTP::Request& rq, const L::RequestContext& cx) {
	uint64_t k = salt; size_t n = total;
#if MANY == 1
	(void)cx; (void)n; size_t i = ran++; auto b = rq.body.buffer(); if (rq.url.pathname != "/" + std::to_string(i) || rq.headers.get("x") != body(k, i) || std::string(b.begin(), b.end()) != (i % 3 ? "" : body(k, i))) wrong++; return body(k, i);
#elif MANY == 8
	auto w = cx.upgrateToWebsocket(); while (w.awaitMessage()) { auto m = w.nextMessage(); size_t i = ran++; auto r = mix(k + i); if (i >= n || m.text() != body(k, i) || m.partial != (r % 5 == 0 && i + 1 < n)) wrong++; } return {};
#elif MANY == 9
	auto w = cx.upgrateToWebsocket(); for (size_t i = 0; i < n; i++) { w.sendMessage(L::Websocket::Message(body(k, i), mix(k + i) % 5 == 0 && i + 1 < n)); ran++; } while (w.awaitMessage()) w.nextMessage(); return {};
#else
	auto w = cx.startEventStream(); for (size_t i = 0; i < n; i++) { w.push({ body(k, i) }); ran++; } w.close(); return {};
#endif
}
static void init() { quiet(); auto c = config(); for (int i = 0; i < 2; i++) { c.service.useThreadList = i & 1; srv[i] = start(c, handle); } }
static void many(Src& s, Case& c) {
	auto& sv = srv[s.below(2)]; size_t n = howmany(s); uint64_t k = s.below(1 << 30); salt = k; total = n; ran = 0; wrong = 0; Client cl; if (!cl.open(sv.port)) c.fail("harness: cannot connect"); c.note(std::to_string(n) + " items, salt " + std::to_string(k)); size_t seen = 0; std::string bad;
#if MANY == 1
	std::string w; for (size_t i = 0; i < n; i++) { auto b = i % 3 ? "" : body(k, i); w += (i % 3 ? "GET /" : "POST /") + std::to_string(i) + " HTTP/1.1\r\nx: " + body(k, i) + "\r\nconnection: keep-alive\r\n" + (i % 3 ? "" : "content-length: " + std::to_string(b.size()) + "\r\n") + "\r\n" + b; }
	std::vector<Segment> p; for (size_t a = 0; a < w.size(); a += 30011) p.push_back({ w.substr(a, 30011) });
	cl.run(p, [&] { size_t at = 0; while (seen < n && at < cl.in.size()) { net::Response r; std::string why; int st = parse(cl.in, at, false, r, why); if (!st) break; if (st < 0 || r.status != 200 || r.body != body(k, seen)) { bad = "response " + std::to_string(seen) + " is " + (st < 0 ? why : std::to_string(r.status) + " " + show(r.body, 40)) + " instead of " + body(k, seen); return true; } at += r.size; seen++; } cl.in.erase(0, at); return seen == n; });
	c.check(bad.empty(), bad); c.check(seen == n && ran == n, std::to_string(ran) + " of " + std::to_string(n) + " requests on one connection reached the handler, " + std::to_string(seen) + " were answered"); c.check(!wrong, std::to_string(wrong) + " requests arrived changed or out of order"); c.check(cl.in.empty(), "bytes after the last response");
#elif MANY == 8
	auto e = ws::shake(cl, "m"); c.check(e.empty(), e); std::string w; bool open = false; for (size_t i = 0; i < n; i++) { auto r = mix(k + i); bool more = r % 5 == 0 && i + 1 < n; w += ws::frame((more ? 0 : 0x80) | (open ? 0 : 1), body(k, i), r); open = more; } w += ws::frame(0x88, "", 1);
	std::vector<Segment> p; for (size_t a = 0; a < w.size(); a += 30011) p.push_back({ w.substr(a, 30011) }); cl.run(p, [&] { return cl.over(); }); seen = n; eventually(12, [&] { return ran == n; }); c.check(cl.over(), "connection still open after the close frame"); c.check(ran == n, "handler received " + std::to_string(ran) + " of " + std::to_string(n) + " messages"); c.check(!wrong, std::to_string(wrong) + " messages arrived changed or out of order");
#elif MANY == 9
	auto e = ws::shake(cl, "m"); c.check(e.empty(), e); bool open = false, closed = false; cl.run({}, [&] { size_t at = 0; ws::Frame f; while (bad.empty()) { int st = ws::parse(cl.in, at, f, bad); if (st <= 0) break; if (f.op == 8) { closed = true; continue; } if (f.op == 9 && f.data == "ping/lambda/ws") continue; bool more = mix(k + seen) % 5 == 0 && seen + 1 < n; if (seen >= n || f.data != body(k, seen) || f.op != (open ? 0 : 1) || f.fin == more) { bad = "message " + std::to_string(seen) + " arrives as opcode " + std::to_string(f.op) + (f.fin ? "" : " more follows") + " " + show(f.data, 40); break; } open = more; seen++; } cl.in.erase(0, at); return seen == n || bad.size(); });
	c.check(bad.empty(), bad); c.check(seen == n, std::to_string(seen) + " of " + std::to_string(n) + " messages arrived"); cl.send(ws::frame(0x88, "", 1)); c.check(cl.waitend(), "connection still open after the close frame"); (void)closed;
#else
	cl.send("GET /sse HTTP/1.1\r\n\r\n"); bool head = false; std::string text; cl.run({}, [&] { if (!head) { auto e = cl.in.find("\r\n\r\n"); if (e == std::string::npos) return cl.over(); head = true; if (cl.in.compare(0, 12, "HTTP/1.1 200")) bad = "stream refused"; cl.in.erase(0, e + 4); }
		for (char ch : cl.in) if (ch != '\r') text += ch; cl.in.clear(); size_t at = 0; while (bad.empty()) { auto z = text.find("\n\n", at); if (z == std::string::npos) break; auto ev = text.substr(at, z - at); at = z + 2; auto want = "data:" + body(k, seen); std::string got; for (char ch : ev) if (ch != ' ') got += ch; if (seen == n && ev.compare(0, 6, "event:") == 0) continue; if (got != want) bad = "event " + std::to_string(seen) + " is " + show(ev, 60); seen++; } text.erase(0, at); return cl.over() || bad.size(); });
	c.check(bad.empty(), bad); c.check(seen == n && cl.over(), std::to_string(seen) + " of " + std::to_string(n) + " events arrived" + (cl.over() ? "" : ", stream still open"));
#endif
	c.check(eventually(10, [&] { return ran == n; }), "handler did " + std::to_string(ran) + " of " + std::to_string(n)); c.nontrivial(seen > 65536);
}
#else
static void init() {}
static std::string item(uint64_t k, size_t i) { auto r = mix(k * 1000003 + i); return "v" + std::to_string(r % 100000) + std::string(r % 7, 'a' + r % 26); }
static std::string dir() { static std::string d; static pid_t p = 0; if (p != getpid()) { p = getpid(); d = std::string(getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "/tmp") + "/many" + std::to_string(p); mkdir(d.c_str(), 0700); } return d; }
static void many(Src& s, Case& c) {
	size_t n = howmany(s); uint64_t k = s.below(1 << 30); c.note(std::to_string(n) + " items, salt " + std::to_string(k)); auto eq = [&](const std::string& got, const std::string& want, const char* what, size_t i) { c.checkf(got == want, [&] { return std::string(what) + " " + std::to_string(i) + " is " + show(got, 60) + " instead of " + show(want, 60); }); };
#if MANY == 14
	std::error_code e; std::filesystem::remove_all(dir() + "/kv", e); auto f = dir() + "/kv"; { L::Storage::KVStorage::StorageInterface st(f); for (size_t i = 0; i < n; i++) st.setItem("k" + std::to_string(i), item(k, i)); c.check(st.size() == n, "size is " + std::to_string(st.size()) + " after storing " + std::to_string(n) + " items"); for (size_t i = 0; i < n; i += 1000) st.removeItem("k" + std::to_string(i)); }
	{ L::Storage::KVStorage::StorageInterface st(f); c.check(st.size() == n - (n + 999) / 1000, "size is " + std::to_string(st.size()) + " after reopening"); for (size_t i = 0; i < n; i++) { auto key = "k" + std::to_string(i); bool has = st.hasItem(key); c.checkf(has == (i % 1000 != 0), [&] { return "item " + std::to_string(i) + (has ? " came back" : " is lost"); }); if (has) eq(st.getItem(key), item(k, i), "item", i); } } std::filesystem::remove_all(f, e);
#elif MANY == 16
	L::VFS::Interface a; auto name = [](size_t i, bool up) { return (up ? "/D" : "/d") + std::to_string(i % 7) + (up ? "/F" : "/f") + std::to_string(i); }; size_t bytes = 0; for (size_t i = 0; i < n; i++) { a.write(name(i, false), item(k, i)); bytes += name(i, false).size() + item(k, i).size(); } auto same = [&](size_t files) { auto st = a.stats(); c.check(st.totalFiles == files && st.totalSize == bytes, std::to_string(st.totalFiles) + " files with " + std::to_string(st.totalSize) + " bytes instead of " + std::to_string(files) + " with " + std::to_string(bytes)); c.check(a.listAll().size() == files, "listing has " + std::to_string(a.listAll().size()) + " files instead of " + std::to_string(files)); }; same(n);
	size_t gone = 0; for (size_t i = 0; i < n; i += 1000) { a.remove(name(i, true)); bytes -= name(i, false).size() + item(k, i).size(); gone++; } same(n - gone); for (size_t i = 0; i < n; i++) { auto v = a.read(name(i, mix(k ^ i) % 3 == 0)); c.checkf(v.has_value() == (i % 1000 != 0), [&] { return "file " + std::to_string(i) + (v ? " came back" : " is lost"); }); if (v) eq(v->text(), item(k, i), "file", i); }
#elif MANY == 18
	std::string t = "["; for (size_t i = 0; i < n; i++) t += (i ? "," : "") + (i % 2 ? std::to_string(mix(k + i) % 1000000) : "\"" + item(k, i) + "\""); t += "]"; auto p = L::JSON::parse(t); auto& a = p.asArray(); c.check(a.size() == n, "array of " + std::to_string(n) + " is read as " + std::to_string(a.size()) + " items"); for (size_t i = 0; i < n; i++) { if (i % 2) c.checkf(a[i].asInt() == (int32_t)(mix(k + i) % 1000000), [&] { return "item " + std::to_string(i) + " is " + std::to_string(a[i].asInt()); }); else eq(a[i].asString(), item(k, i), "item", i); } c.check(L::JSON::stringify(p) == t, "array of " + std::to_string(n) + " items is printed differently");
	std::string o = "{"; for (size_t i = 0; i < n; i++) o += (i ? ",\"k" : "\"k") + std::to_string(i) + "\":\"" + item(k, i) + "\""; o += "}"; p = L::JSON::parse(o); auto q = L::JSON::parse(L::JSON::stringify(p)); for (auto x : { &p, &q }) { auto& m = x->asMap(); c.check(m.size() == n, "object of " + std::to_string(n) + " is read as " + std::to_string(m.size()) + " items"); for (size_t i = 0; i < n; i++) { auto it = m.find("k" + std::to_string(i)); c.checkf(it != m.end(), [&] { return "key " + std::to_string(i) + " is lost"; }); eq(it->second.asString(), item(k, i), "value", i); } }
#elif MANY == 22
	std::string t; for (size_t i = 0; i < n; i++) t += (i ? "&k" : "k") + std::to_string(i) + "=" + item(k, i); L::HTTP::URL u("http://h/p?" + t); auto again = L::HTTP::URLSearchParams(u.searchParams.stringify()); for (auto x : { &u.searchParams, &again }) { c.check(x->entries().size() == n, std::to_string(n) + " parameters are read as " + std::to_string(x->entries().size())); for (size_t i = 0; i < n; i++) { eq(x->get("k" + std::to_string(i)), item(k, i), "parameter", i); } }
#elif MANY == 23
	L::HTTP::Headers h; for (size_t i = 0; i < n; i++) h.append(i % 2 ? "X-All" : "x-" + std::to_string(i), item(k, i)); auto all = h.getAll("x-aLL"); c.check(all.size() == n / 2, "x-all has " + std::to_string(all.size()) + " values instead of " + std::to_string(n / 2)); c.check(h.entries().size() == n && h.size() == n - n / 2 + 1, std::to_string(h.entries().size()) + " entries of " + std::to_string(n)); for (size_t i = 0; i < n; i++) eq(i % 2 ? all[i / 2] : h.get("X-" + std::to_string(i)), item(k, i), "value", i);
#elif MANY == 24
	std::string t; for (size_t i = 0; i < n; i++) t += (i ? "; k" : "k") + std::to_string(i) + "=" + item(k, i); L::HTTP::Cookies a(t), b; c.check(a.size() == n, std::to_string(a.size()) + " cookies of " + std::to_string(n)); for (size_t i = 0; i < n; i++) { eq(a.get("K" + std::to_string(i)), item(k, i), "cookie", i); b.set("k" + std::to_string(i), item(k, i)); } auto l = b.serialize(); std::set<std::string> got(l.begin(), l.end()); c.check(l.size() == n && got.size() == n, std::to_string(l.size()) + " cookies to send instead of " + std::to_string(n)); for (size_t i = 0; i < n; i++) c.checkf(got.count("k" + std::to_string(i) + "=" + item(k, i)), [&] { return "cookie " + std::to_string(i) + " is not sent"; });
#elif MANY == 26
	std::string t, want; L::HTML::TemplateProps p; for (size_t i = 0; i < 26; i++) p[std::string(1, 'a' + i)] = std::string(mix(k + i) % 4, 'A' + i); for (size_t i = 0; i < n; i++) { auto v = std::string(1, 'a' + mix(k * 7 + i) % 26); t += "{{" + v + "}}"; want += p[v]; } auto got = L::HTML::renderTemplate(t, p); size_t d = 0; while (d < got.size() && d < want.size() && got[d] == want[d]) d++; c.checkf(got == want, [&] { return "rendered text differs from byte " + std::to_string(d) + " on: " + show(got.substr(d, 40)) + " instead of " + show(want.substr(d, 40)); });
#elif MANY == 28
	std::vector<std::string> v; for (size_t i = 0; i < n; i++) v.push_back(item(k, i)); auto j = L::Strings::join(v, ", "); std::string want; for (size_t i = 0; i < n; i++) want += (i ? ", " : "") + v[i]; c.check(j == want, "joined text of " + std::to_string(n) + " items differs"); auto sp = L::Strings::split(j, ", "); c.check(sp == v, std::to_string(n) + " items split into " + std::to_string(sp.size())); auto sc = L::Strings::split(j, ','); c.check(sc.size() == n, std::to_string(n) + " items split into " + std::to_string(sc.size())); std::string t; want.clear(); for (size_t i = 0; i < n; i++) { char ch = 'a' + mix(k + i) % 26; t += ch; t += ", "; want += ch; want += '|'; } const std::string ct = t; auto r = L::Strings::replaceAll(ct, std::string(", "), std::string("|")); c.check(r == want, "not every separator of " + std::to_string(n) + " items was replaced");
#endif
	c.nontrivial(n > 65536);
}
#endif
#define STR2(x) #x
#define STR(x) STR2(x)
#if MANY < 10
#define ID "C0" STR(MANY)
#else
#define ID "C" STR(MANY)
#endif
int main(int argc, char** argv) { return run(argc, argv, ID, { { "many", many, 4, 60, "65,530 to 69,530 items in one history (requests or frames on one connection, events of one stream, entries of one collection), contents and order compared; non-trivial: more than 65,536", 4, 120, 60, false, false, init } }); }
