// C23: header collections against a multimap model
#include "pbt.hpp"
#include <core/http/http.hpp>
using namespace pbt; using namespace Lambda::HTTP;
typedef std::map<std::string, std::vector<std::string>> Model;
static std::string lower(std::string t) { for (auto& c : t) if (c >= 'A' && c <= 'Z') c += 32; return t; }
static std::string trim(const std::string& t) { size_t a = 0, b = t.size(); auto ws = [](char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }; while (a < b && ws(t[a])) a++; while (b > a && ws(t[b - 1])) b--; return t.substr(a, b - a); }
static std::string name(Src& s, const std::vector<std::string>& used) {
	if (used.size() && s.chance(3, 5)) { auto n = s.pick(used); for (auto& c : n) if (s.chance(1, 3)) { if (c >= 'a' && c <= 'z') c -= 32; else if (c >= 'A' && c <= 'Z') c += 32; } return n; }
	switch (s.weighted({ 3, 2, 1, 1 })) { case 0: return s.pick({ "Content-Type", "accept", "Set-Cookie", "X-A", "x-b", "Host", "[", "{", "@", "`" }); case 1: return s.str("abzABZ-_[{@`", 1 + s.below(6)); case 2: return s.bytestr(s.len(12)); default: return s.str("aA\xc3\xa9 \t", s.below(5)); }
}
static std::string value(Src& s) { return s.weighted({ 4, 1, 1 }) == 0 ? s.str("abcXY 01,;=", s.below(10)) : s.flip() ? std::string() : s.bytestr(s.len(200)); }
static void compare(Case& c, const Headers& h, const Model& m, const std::vector<std::string>& used, const char* which) {
	std::string w = which;
	c.checkf(h.size() == m.size(), [&] { return w + ": size " + std::to_string(h.size()) + ", expected " + std::to_string(m.size()); });
	auto e = h.entries(); std::stable_sort(e.begin(), e.end(), [](auto& a, auto& b) { return a.first < b.first; });
	std::vector<KVpair> want; for (auto& k : m) for (auto& v : k.second) want.push_back({ k.first, v });
	c.checkf(e == want, [&] { std::string o = w + ": entries"; for (auto& x : e) o += " " + show(x.first, 40) + "=" + show(x.second, 40); o += "\nexpected"; for (auto& x : want) o += " " + show(x.first, 40) + "=" + show(x.second, 40); return o; });
	auto one = [&](const std::string& n) {
		auto it = m.find(lower(n)); auto all = h.getAll(n);
		c.checkf(h.has(n) == (it != m.end()), [&] { return w + ": has(" + show(n) + ") is wrong"; });
		c.checkf(h.get(n) == (it == m.end() || it->second.empty() ? "" : it->second[0]), [&] { return w + ": get(" + show(n) + ") gives " + show(h.get(n)); });
		c.checkf(it == m.end() ? all.empty() : all == it->second, [&] { return w + ": getAll(" + show(n) + ") gives " + std::to_string(all.size()) + " values"; });
	};
	for (auto& n : used) { one(n); } one("never-used-name");
}
template <class T> static T make(const std::vector<KVpair>& v) {
	switch (v.size()) { case 0: return T(std::initializer_list<KVpair>{}); case 1: return T({ v[0] }); case 2: return T({ v[0], v[1] }); case 3: return T({ v[0], v[1], v[2] }); case 4: return T({ v[0], v[1], v[2], v[3] }); default: return T({ v[0], v[1], v[2], v[3], v[4] }); }
}
static void history(Src& s, Case& c) {
	constexpr int N = 3; Headers h[N]; Model m[N]; std::vector<std::string> used; std::string log; bool multi = false, copied = false;
	size_t ops = 1 + s.count(25);
	for (size_t i = 0; i < ops; i++) {
		int a = s.below(N), b = s.below(N);
		switch (s.weighted({ 5, 5, 2, 2, 2, 1, 1, 1 })) {
			case 0: { auto n = name(s, used); auto v = value(s); used.push_back(n); log += "\nset " + std::to_string(a) + " " + show(n) + " " + show(v, 60); h[a].set(n, v); m[a][lower(n)] = { v }; } break;
			case 1: { auto n = name(s, used); auto v = value(s); used.push_back(n); log += "\nappend " + std::to_string(a) + " " + show(n) + " " + show(v, 60); h[a].append(n, v); auto& l = m[a][lower(n)]; l.push_back(v); multi |= l.size() > 1; } break;
			case 2: { auto n = name(s, used); log += "\ndel " + std::to_string(a) + " " + show(n); h[a].del(n); m[a].erase(lower(n)); } break;
			case 3: { std::vector<KVpair> v; size_t k = s.below(6); Model f; for (size_t j = 0; j < k; j++) { auto n = s.str(" \t", s.below(3)) + name(s, used) + s.str(" \t", s.below(3)); auto x = s.str(" \t", s.below(3)) + value(s) + s.str(" \t", s.below(3)); v.push_back({ n, x }); used.push_back(trim(n)); f[lower(trim(n))].push_back(trim(x)); }
				log += "\nconstruct " + std::to_string(a); for (auto& e : v) log += " " + show(e.first) + "=" + show(e.second, 60); h[a] = make<Headers>(v); m[a] = f; } break;
			case 4: log += "\ncopy-assign " + std::to_string(a) + " := " + std::to_string(b); h[a] = h[b]; m[a] = m[b]; copied |= a != b; break;
			case 5: { log += "\ncopy-construct " + std::to_string(a) + " from " + std::to_string(b); Headers x(h[b]); compare(c, x, m[b], used, "copy"); x.set("only-in-copy", "1"); copied |= m[b].size() > 0; Headers y(x); h[a] = std::move(y); m[a] = m[b]; m[a]["only-in-copy"] = { "1" }; used.push_back("only-in-copy"); } break;
			case 6: { if (a == b) break; log += "\nmove-assign " + std::to_string(a) + " from " + std::to_string(b); h[a] = std::move(h[b]); m[a] = m[b]; h[b] = Headers(); m[b].clear(); } break;
			default: { log += "\nmove-construct " + std::to_string(a); Headers x(std::move(h[a])); compare(c, x, m[a], used, "moved-into"); h[a] = x; } break;
		}
		c.note(log.size() ? log.substr(1) : ""); log.clear(); if (used.size() > 12) used.erase(used.begin());
		for (int k = 0; k < N; k++) compare(c, h[k], m[k], used, ("collection " + std::to_string(k)).c_str());
	}
	c.nontrivial(multi && copied); if (multi) c.label("repeated header"); if (copied) c.label("copied");
}
int main(int argc, char** argv) {
	return run(argc, argv, "C23", {
		{ "history", history, 60000, 1500000, "histories of set/append/delete/construct/copy/move over three collections, compared with a multimap model after every step; non-trivial: a name with several values and a copy", 8, 25 },
	});
}
