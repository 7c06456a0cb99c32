// C28: string utilities vs naive references
#include "pbt.hpp"
#include <core/polyfill/polyfill.hpp>
using namespace pbt; using namespace Lambda;
typedef const std::string cs;

static std::string text(Src& s, size_t max = 300) {
	switch (s.weighted({ 3, 3, 2, 1 })) { case 0: return s.str("ab,", s.len(12)); case 1: return s.str("aAzZ@[`{ -\r\n\t.,\v\f\xc3\x80\xff", s.len(30)); case 2: return s.bytestr(s.len(40)); default: return s.bytestr(s.len(max)); }
}
static bool find_at(const std::string& h, size_t i, const std::string& n) { if (i > h.size() || n.size() > h.size() - i) return false; for (size_t k = 0; k < n.size(); k++) if (h[i + k] != n[k]) return false; return true; }
static size_t naive_find(const std::string& h, const std::string& n, size_t from = 0) { for (size_t i = from; i <= h.size(); i++) if (find_at(h, i, n)) return i; return std::string::npos; }
static bool ws(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }

static void casing(Src& s, Case& c) {
	cs t = text(s); c.note("text " + show(t)); std::string lo = t, up = t, ti = t; bool start = true;
	for (size_t i = 0; i < t.size(); i++) { unsigned char x = t[i]; bool u = x >= 65 && x <= 90, l = x >= 97 && x <= 122; if (u) lo[i] = x + 32; if (l) up[i] = x - 32; ti[i] = start ? (l ? x - 32 : x) : (u ? x + 32 : x); start = x == ' ' || x == '-'; }
	auto eq = [&](const char* n, cs& got, cs& want) { c.checkf(got == want, [&] { return std::string(n) + " gives " + show(got) + ", expected " + show(want); }); };
	eq("toLowerCase", Strings::toLowerCase(t), lo); eq("toUpperCase", Strings::toUpperCase(t), up); eq("toTittleCase", Strings::toTittleCase(t), ti);
	std::string m = t; Strings::toLowerCase(m); eq("in-place toLowerCase", m, lo); m = t; Strings::toUpperCase(m); eq("in-place toUpperCase", m, up); m = t; Strings::toTittleCase(m); eq("in-place toTittleCase", m, ti);
	c.nontrivial(lo != t && up != t);
}
static void trims(Src& s, Case& c) {
	std::string core = text(s); cs t = s.str(" \t\r\n", s.len(6)) + core + s.str(" \t\r\n\v", s.len(6)); c.note("text " + show(t));
	size_t a = 0, b = t.size(); while (a < b && ws(t[a])) a++; while (b > a && ws(t[b - 1])) b--; std::string want = t.substr(a, b - a);
	auto g = Strings::trim(t); c.checkf(g == want, [&] { return "trim gives " + show(g) + ", expected " + show(want); });
	std::string m = t; Strings::trim(m); c.checkf(m == want, [&] { return "in-place trim gives " + show(m) + ", expected " + show(want); }); c.check(Strings::trim(static_cast<cs&>(m)) == want, "trim is not idempotent");
	c.nontrivial(want != t); if (want.empty()) c.label("only white space");
}
static std::string needle(Src& s, const std::string& t) {
	if (t.size() && s.flip()) { size_t i = s.below(t.size()), n = 1 + s.len(std::min<size_t>(t.size() - i - 1, 20)); return t.substr(i, n); }
	return s.flip() ? s.str("ab,", s.len(5)) : text(s, 40);
}
static void search(Src& s, Case& c) {
	cs t = text(s); std::string n = needle(s, t); if (s.chance(1, 4)) n = t.substr(t.size() - std::min(t.size(), (size_t)s.len(8))); if (s.chance(1, 8)) n = t + "a";
	c.note("text " + show(t) + " needle " + show(n)); bool inc = naive_find(t, n) != std::string::npos;
	c.check(Strings::includes(t, n) == inc, "includes differs"); c.check(Strings::startsWith(t, n) == find_at(t, 0, n), "startsWith differs");
	bool ew = n.size() <= t.size() && find_at(t, t.size() - n.size(), n); c.check(Strings::endsWith(t, n) == ew, "endsWith differs");
	char ch = n.size() ? n[0] : (char)s.upto(255); bool hc = false; for (auto x : t) hc |= x == ch; c.check(Strings::includes(t, ch) == hc, "includes(char) differs");
	std::vector<std::string> v; bool any = false; size_t k = s.count(4); for (size_t i = 0; i < k; i++) { v.push_back(needle(s, t)); any |= naive_find(t, v.back()) != std::string::npos; } c.check(Strings::includes(t, v) == any, "includes(list) differs");
	c.nontrivial(inc && n.size()); if (ew && naive_find(t, n) != t.size() - n.size()) c.label("suffix occurs earlier too"); if (n.size() > t.size()) c.label("needle longer than text");
}
static void splits(Src& s, Case& c) {
	cs t = text(s); std::string n = needle(s, t); c.note("text " + show(t) + " separator " + show(n));
	auto ref = [&](const std::string& sep) { std::vector<std::string> r; if (t.empty()) return r; if (sep.empty()) { r.push_back(t); return r; } size_t at = 0, m; while ((m = naive_find(t, sep, at)) != std::string::npos) { r.push_back(t.substr(at, m - at)); at = m + sep.size(); } if (at < t.size()) r.push_back(t.substr(at)); return r; };
	auto want = ref(n), got = Strings::split(t, n); auto pr = [](const std::vector<std::string>& v) { std::string o = "["; for (auto& x : v) o += show(x, 60) + " "; return o + "]"; };
	c.checkf(got == want, [&] { return "split gives " + pr(got) + ", expected " + pr(want); });
	if (n.size()) { char ch = n[0]; auto w = ref(std::string(1, ch)); auto g = Strings::split(t, ch); c.checkf(g == w, [&] { return "split by character gives " + pr(g) + ", expected " + pr(w); }); auto one = Strings::split(t, std::string(1, ch)); c.check(one == g, "split by character and by one-character string differ"); }
	if (n.find('\0') == std::string::npos) {
		auto j = Strings::join(got, n.c_str()); c.checkf(j == t || (n.size() && j + n == t), [&] { return "join(split(text)) = " + show(j); });
	}
	std::vector<std::string> parts; size_t k = s.count(6); for (size_t i = 0; i < k; i++) parts.push_back(s.flip() ? "" : s.str("ab,", s.len(4))); auto tok = s.pick({ ",", "", ", ", "ab" }); std::string w; for (size_t i = 0; i < k; i++) { if (i) w += tok; w += parts[i]; }
	auto j = Strings::join(parts, tok); c.checkf(j == w, [&] { return "join of " + pr(parts) + " with " + show(tok) + " gives " + show(j); });
	c.nontrivial(got.size() > 1);
}
static void replaces(Src& s, Case& c) {
	cs t = text(s); cs n = needle(s, t); std::string r = s.weighted({ 2, 1, 1 }) == 0 ? s.str("ab,x", s.len(5)) : s.flip() ? n + n : n + s.str("ab", s.len(3)); cs rep = r;
	c.note("text " + show(t) + " needle " + show(n) + " replacement " + show(rep));
	auto first = t; size_t m = naive_find(t, n); if (m != std::string::npos) first = t.substr(0, m) + rep + t.substr(m + n.size());
	std::string all; if (n.size()) { size_t at = 0, k; while ((k = naive_find(t, n, at)) != std::string::npos) { all += t.substr(at, k - at) + rep; at = k + n.size(); } all += t.substr(at); }
	auto g = Strings::replace(t, n, rep); std::string g2 = t; Strings::replace(g2, n, rep); c.check(g == g2, "copying and in-place replace differ");
	c.checkf(g == first || (n.empty() && g == t), [&] { return "replace gives " + show(g) + ", expected " + show(first); });
	auto h = Strings::replaceAll(t, n, rep); std::string h2 = t; Strings::replaceAll(h2, n, rep); c.check(h == h2, "copying and in-place replaceAll differ");
	if (n.size()) c.checkf(h == all, [&] { return "replaceAll gives " + show(h) + ", expected " + show(all); });
	c.nontrivial(m != std::string::npos && n.size() && n != rep); if (n.size() && all != first) c.label("several matches");
}
int main(int argc, char** argv) {
	return run(argc, argv, "C28", {
		{ "case", casing, 300000, 4000000, "texts over letters, neighbours of the letter ranges, separators and raw bytes; non-trivial: both cases present", 8, 10 },
		{ "trim", trims, 300000, 4000000, "texts with white space around; non-trivial: something is trimmed", 8, 10 },
		{ "search", search, 300000, 4000000, "text and needle (substring, suffix, longer, empty, random); non-trivial: non-empty needle occurs", 8, 10 },
		{ "split_join", splits, 300000, 4000000, "text and separator, lists with empty items; non-trivial: more than one piece", 8, 10 },
		{ "replace", replaces, 300000, 4000000, "text, needle, replacement that may contain the needle; non-trivial: a replacement happens", 8, 10 },
	});
}
