// Values and pure functions used by several threads at once, under ThreadSanitizer: every call must give what the same call gives when nothing else runs.
// One source for several properties; PURE says which (its number).
#include "pbt.hpp"
#include <lambda.hpp>
#include <core/compression/compression.hpp>
#include <core/crypto/crypto.hpp>
#include <core/encoding/encoding.hpp>
#include <core/html/html.hpp>
#include <core/json/json.hpp>
#include <core/polyfill/polyfill.hpp>
#include <thread>
using namespace pbt; namespace L = Lambda; using namespace Lambda::HTTP;
typedef std::function<std::string()> Call; typedef std::vector<uint8_t> Vec;
static Vec vec(const std::string& t) { return Vec(t.begin(), t.end()); }
static std::string str(const Vec& v) { return std::string(v.begin(), v.end()); }
static std::string text(Src& s, const char* abc, size_t max = 40) { return s.chance(1, 8) ? s.bytestr(s.len(max)) : s.str(abc, s.len(s.chance(1, 10) ? 30 * max : max)); }
static std::string kv(const std::vector<KVpair>& v) { std::string r; for (auto& e : v) r += e.first + "\x01" + e.second + "\x02"; return r; }
#if PURE == 18
static const char* const ABC = "abc\"\\u00e9 \n0";
static L::JSON::Property tree(Src& s, int d) {
	switch (s.below(d > 3 ? 5 : 7)) { case 0: return L::JSON::Property(nullptr); case 1: return L::JSON::Property(s.flip()); case 2: return L::JSON::Property((int32_t)s.below(1 << 30)); case 3: return L::JSON::Property((long double)s.below(1000000) / 7); case 4: return L::JSON::Property(s.str("ab\"\\\n\xc3\xa9", s.below(20)));
		case 5: { L::JSON::Array a; size_t n = s.below(5); for (size_t i = 0; i < n; i++) a.push_back(tree(s, d + 1)); return L::JSON::Property(a); } default: { L::JSON::Map m; size_t n = s.below(5); for (size_t i = 0; i < n; i++) m.insert({ s.str("abc", 1 + s.below(4)), tree(s, d + 1) }); return L::JSON::Property(m); } }
}
static Call make(Src& s) {
	auto p = std::make_shared<L::JSON::Property>(tree(s, 0)); auto t = s.flip() ? L::JSON::stringify(*p) : s.pick({ std::string("[1,2,{\"a\":[true,false,null,-1.5e3]}]"), std::string("{\"k\":\"\\u00e9\\n\"}"), text(s, "[]{}\",:12tfn") });
	switch (s.below(3)) { case 0: return [p] { return L::JSON::stringify(*p); }; case 1: return [t] { return L::JSON::stringify(L::JSON::parse(t)); }; default: return [p] { auto q = *p; auto r = L::JSON::stringify(q); q = L::JSON::Property("other"); return r + L::JSON::stringify(q) + std::to_string((int)p->type()); }; }
}
#elif PURE == 19
static Call make(Src& s) {
	namespace E = L::Encoding; auto d = s.bytestr(s.len(s.chance(1, 8) ? 3000 : 40)); auto t = text(s, "abAB09+/=%2F");
	switch (s.below(6)) { case 0: return [d] { return E::toBase64(vec(d)); }; case 1: { auto x = s.flip() ? E::toBase64(vec(d)) : t; return [x] { return str(E::fromBase64(x)); }; } case 2: return [d] { return E::toHex(vec(d)); }; case 3: { auto x = s.flip() ? E::toHex(vec(d)) : t; return [x] { return str(E::fromHex(x)); }; } case 4: return [d] { return E::encodeURIComponent(d); }; default: { auto x = s.flip() ? E::encodeURIComponent(d) : t; return [x] { return E::decodeURIComponent(x); }; } }
}
#elif PURE == 20
static Call make(Src& s) {
	namespace Z = L::Compress; auto d = vec(s.flip() ? s.bytestr(s.len(2000)) : s.str("ab", s.len(20000))); auto q = (Z::Quality)s.below(10); auto h = s.pick({ Z::ZlibSetHeader::Gzip, Z::ZlibSetHeader::Defalte });
	switch (s.below(4)) { case 0: return [=] { return str(Z::brotliDecompressBuffer(Z::brotliCompressBuffer(d, q))); }; case 1: return [=] { return str(Z::zlibDecompressBuffer(Z::zlibCompressBuffer(d, q, h))); }; case 2: return [=] { return str(Z::zlibDecompressBuffer(d)); };
		default: { size_t k = 1 + s.below(4); return [=] { Z::GzipStreamCompressor a(q); Vec o; for (size_t i = 0; i < k; i++) { Vec p(d.begin() + d.size() * i / k, d.begin() + d.size() * (i + 1) / k); auto x = a.nextChunk(p); o.insert(o.end(), x.begin(), x.end()); } auto x = a.end(); o.insert(o.end(), x.begin(), x.end()); Z::GzipStreamDecompressor b; Vec r; for (size_t i = 0; i < k; i++) { Vec p(o.begin() + o.size() * i / k, o.begin() + o.size() * (i + 1) / k); auto y = b.nextChunk(p); r.insert(r.end(), y.begin(), y.end()); } return str(r) + (b.isDone() ? "done" : "more"); }; } }
}
#elif PURE == 21
static Call make(Src& s) { auto d = s.bytestr(s.len(300)); size_t k = 1 + s.below(4); return [=] { L::Crypto::SHA1 h; for (size_t i = 0; i < k; i++) { auto p = d.substr(d.size() * i / k, d.size() * (i + 1) / k - d.size() * i / k); if (i & 1) h.update(p); else h.update(vec(p)); } return str(h.digest()); }; }
#elif PURE == 22
static std::string show_url(const URL& u) { return u.protocol + "|" + u.username + "|" + u.password + "|" + u.host + "|" + u.hostname + "|" + u.port + "|" + u.pathname + "|" + u.hash + "|" + kv(u.searchParams.entries()) + "|" + u.href() + "|" + u.searchParams.stringify() + "|" + u.searchParams.get("A"); }
static Call make(Src& s) {
	auto t = s.flip() ? "http://" + s.str("ab:@", s.below(6)) + s.str("ab.", 1 + s.below(10)) + "/" + s.str("ab/%20", s.below(20)) + "?" + s.str("ab=&%41+", s.below(40)) + "#" + s.str("ab", s.below(5)) : text(s, "ab:/?#=&%41@"); auto u = std::make_shared<URL>(); try { *u = URL(t); } catch (...) {}
	switch (s.below(3)) { case 0: return [t] { return show_url(URL(t)); }; case 1: return [u] { return show_url(*u); }; default: return [t] { URLSearchParams p(t); p.append("A", "x"); return kv(p.entries()) + p.stringify(); }; }
}
#elif PURE == 23
static Call make(Src& s) {
	std::vector<KVpair> v; size_t n = s.below(10); for (size_t i = 0; i < n; i++) v.push_back({ s.str("aBc-", 1 + s.below(5)), text(s, "ab ,\t") }); auto h = std::make_shared<Headers>(); for (auto& e : v) h->append(e.first, e.second); auto k = s.str("AbC-", 1 + s.below(5)); auto read = [k](const Headers& x) { std::string r = kv(x.entries()) + x.get(k) + std::to_string(x.size()) + (x.has(k) ? "y" : "n"); for (auto& e : x.getAll(k)) r += e; return r; };
	switch (s.below(3)) { case 0: return [=] { Headers x; for (auto& e : v) if (e.second.size() & 1) x.append(e.first, e.second); else x.set(e.first, e.second); x.del(k); return read(x); }; case 1: return [=] { return read(*h); }; default: return [=] { Headers x(*h); x.set(k, "1"); auto r = read(x); return r + read(*h); }; }
}
#elif PURE == 24
static Call make(Src& s) {
	auto t = s.flip() ? s.str("ab", 1 + s.below(3)) + "=" + s.str("xy=", s.below(9)) + "; b=2; " + s.str("AB", 1 + s.below(2)) + "=3" : text(s, "ab=; "); auto k = std::make_shared<Cookies>(); try { *k = Cookies(t); } catch (...) {} k->set("S", "1"); auto n = s.str("aBb", 1 + s.below(2)); auto read = [n](const Cookies& x) { std::string r = kv(x.entries()) + x.get(n) + (x.has(n) ? "y" : "n"); for (auto& e : x.serialize()) r += e + "\x03"; return r; };
	switch (s.below(3)) { case 0: return [=] { return read(Cookies(t)); }; case 1: return [=] { return read(*k); }; default: return [=] { Cookies x(*k); x.set(n, "v", { { "Max-Age", "5" }, "Secure" }); x.del("a"); Response r; r.setCookies(x); return read(x) + kv(r.headers.entries()); }; }
}
#elif PURE == 25
static Call make(Src& s) { auto u = text(s, "ab:c"), b = L::Encoding::toBase64(vec(u)); auto t = s.weighted({ 3, 1 }) ? text(s, "Basic ab==") : "bASIC " + b; return [t] { auto c = Auth::parseBasicAuth(t); return c ? c->user + "\x01" + c->password : std::string("none"); }; }
#elif PURE == 26
static Call make(Src& s) {
	auto p = std::make_shared<L::HTML::TemplateProps>(); size_t n = s.below(5); for (size_t i = 0; i < n; i++) (*p)[s.str("ab", 1 + s.below(2))] = text(s, "{}<&\"' ab"); std::string t; n = s.below(10); for (size_t i = 0; i < n; i++) t += s.pick({ std::string("{{a}}"), std::string("{{ b }}"), std::string("{{ab}}"), text(s, "{} ab\n") });
	if (s.flip()) return [t] { return L::HTML::escapeText(t); }; return [=] { return L::HTML::renderTemplate(t, *p); };
}
#elif PURE == 28
static Call make(Src& s) {
	namespace S = L::Strings; const std::string t = text(s, "aB c-,\t"), k = s.str("a,B ", s.below(3)), w = s.str("xa", s.below(4)); char ch = s.pick({ 'a', ',', ' ' }); auto list = [](const std::vector<std::string>& v) { std::string r = std::to_string(v.size()); for (auto& e : v) r += "\x01" + e; return r; };
	switch (s.below(8)) { case 0: return [=] { const std::string c = t; return S::toLowerCase(c) + S::toUpperCase(c) + S::toTittleCase(c); }; case 1: return [=] { const std::string c = t; return S::trim(c); }; case 2: return [=] { return list(S::split(t, k)); }; case 3: return [=] { return list(S::split(t, ch)); }; case 4: return [=] { return S::join(S::split(t, ch), k.c_str()); }; case 5: return [=] { const std::string c = t; return S::replace(c, k, w) + S::replaceAll(c, k, w); }; case 6: return [=] { auto c = t; S::trim(c); S::toLowerCase(c); S::replaceAll(c, k, w); return c; }; default: return [=] { return std::to_string(S::includes(t, k)) + std::to_string(S::includes(t, ch)) + std::to_string(S::includes(t, std::vector<std::string>{ k, w })) + std::to_string(S::startsWith(t, k)) + std::to_string(S::endsWith(t, k)); }; }
}
#elif PURE == 29
static Call make(Src& s) {
	time_t t = (time_t)s.below(4102444800u); auto d = std::make_shared<L::Date>(t); auto read = [](const L::Date& x) { return x.getDate() + "|" + x.toUTCString() + "|" + x.toHRTString() + "|" + std::to_string(x.getDay()) + "." + std::to_string(x.getMonth()) + "." + std::to_string(x.getYear()) + " " + std::to_string(x.getHours()) + ":" + std::to_string(x.getMinutes()) + ":" + std::to_string(x.getSeconds()) + "@" + std::to_string(x.getTime()); };
	if (s.chance(1, 4)) return [=] { return read(*d); }; return [=] { return read(L::Date(t)); };
}
#elif PURE == 32
static Call make(Src& s) {
	auto m = s.pick({ std::string("get"), std::string(" POST"), std::string("Delete"), std::string("patch\n"), std::string("nope"), std::string("") }); auto e = s.pick({ std::string("html"), std::string(".png"), std::string("a.b.json"), std::string("zip"), std::string("none"), text(s, "abc.") }); unsigned k = s.pick({ 200u, 404u, 500u, 304u, 418u, 999u });
	switch (s.below(3)) { case 0: return [=] { Method x(m); return x.toString() + std::to_string(x == m) + std::to_string((int)(Methods)x) + std::to_string(x == "GET"); }; case 1: return [=] { Status x(k); return x.text() + std::to_string(x.code()) + std::to_string((int)x.type()); }; default: return [=] { auto t = L::Content::getExtMimetype(e); return t + "|" + L::Content::getMimetypeExt(t); }; }
}
#elif PURE == 36
static Call make(Src& s) {
	auto b = s.bytestr(s.len(500)); auto r = std::make_shared<Response>(Status(s.pick({ 200u, 404u })), Headers({ { "a", "b" }, { "A", s.str("xy", s.below(9)) } }), BodyBuffer(b)); auto q = std::make_shared<Request>("http://h/p?a=1", Method("post"), BodyBuffer(b)); q->headers.set("Cookie", "a=1; b=" + s.str("xyz", 1 + s.below(5)));
	auto rd = [](const Response& x) { return std::to_string(x.status.code()) + x.status.text() + kv(x.headers.entries()) + x.body.text() + std::to_string(x.body.size()); };
	switch (s.below(3)) { case 0: return [=] { Response x(*r); x.headers.append("c", "d"); x.body = "other"; return rd(x) + rd(*r); }; case 1: return [=] { Request x(*q); x.url.pathname += "x"; return x.url.href() + q->url.href() + x.method.toString() + x.body.text() + kv(q->getCookies().entries()); }; default: return [=] { BodyBuffer x(r->body); x = vec(b + "!"); return x.text() + (std::string)r->body + std::to_string(x.size()); }; }
}
#endif
static std::string ask(const Call& f) { try { return "=" + f(); } catch (const std::exception& e) { return std::string("error ") + e.what(); } }
static void together(Src& s, Case& c) {
	size_t n = 2 + s.count(16), k = 2 + s.below(4); std::vector<Call> f; for (size_t i = 0; i < n; i++) f.push_back(make(s)); bool same = s.flip();
	std::vector<std::vector<std::string>> got(k, std::vector<std::string>(n)); std::atomic<size_t> ready{0}; std::vector<std::thread> t;
	for (size_t j = 0; j < k; j++) t.emplace_back([&, j] { ready++; while (ready < k) std::this_thread::yield(); for (size_t i = 0; i < n; i++) { size_t x = same ? i : (i + j * 3) % n; got[j][x] = ask(f[x]); } }); for (auto& x : t) x.join();
	size_t ok = 0; for (size_t i = 0; i < n; i++) { auto want = ask(f[i]); ok += want[0] == '='; if (i < 6) c.note("call " + std::to_string(i) + " gives " + show(want, 80)); for (size_t j = 0; j < k; j++) c.checkf(got[j][i] == want, [&] { return "call " + std::to_string(i) + " gives " + show(want, 200) + " alone and " + show(got[j][i], 200) + " while " + std::to_string(k) + " threads run such calls"; }); }
	c.nontrivial(ok > 1);
}
#define STR2(x) #x
#define STR(x) STR2(x)
int main(int argc, char** argv) { return run(argc, argv, "C" STR(PURE), { { "together", together, 1500, 30000, "2-5 threads making the same random calls at once (some on shared constant objects), compared with the same calls made alone, under ThreadSanitizer; non-trivial: at least two calls that succeed", 4, 30, 20, false, true } }); }
