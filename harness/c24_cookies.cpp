// C24: cookies against a model
#include "pbt.hpp"
#include <core/http/http.hpp>
#include <ctime>
using namespace pbt; using namespace Lambda::HTTP;
struct Pend { std::string value; std::vector<std::pair<std::string, std::string>> props; bool del = false; };
struct Model { std::map<std::string, std::string> data; std::map<std::string, Pend> queue; };
static std::string lower(std::string t) { for (auto& c : t) if (c >= 'A' && c <= 'Z') c += 32; return t; }
static std::string swapcase(Src& s, std::string n) { for (auto& c : n) if (s.chance(1, 3)) { if (c >= 'a' && c <= 'z') c -= 32; else if (c >= 'A' && c <= 'Z') c += 32; } return n; }
static std::string name(Src& s, const std::vector<std::string>& used) {
	if (used.size() && s.chance(3, 5)) return swapcase(s, s.pick(used));
	return s.flip() ? s.pick({ "id", "SID", "x_lambda", "Theme", "a" }) : s.str("abzABZ019!#$%&'*+-.^_`|~", 1 + s.below(8));
}
static std::string octets(Src& s, size_t min) { size_t n = min + s.len(s.chance(1, 20) ? 3000 : 20); return s.weighted({ 3, 1 }) == 0 ? s.str("abzABZ019=!#%&:/+-.", n) : s.str([] { std::string a; for (int c = 0x21; c < 0x7f; c++) if (c != '"' && c != ',' && c != ';' && c != '\\') a += (char)c; return a; }(), n); }
// a line that deletes `name`: empty value and an expiry in the past
static bool deletes(const std::string& line, const std::string& name) {
	if (line.compare(0, name.size() + 1, name + "=") != 0) return false;
	auto p = line.find(';'); if (line.substr(name.size() + 1, p == std::string::npos ? p : p - name.size() - 1) != "") return false;
	bool past = false;
	while (p != std::string::npos) {
		auto e = line.find(';', p + 1); auto a = line.substr(p + 1, e == std::string::npos ? e : e - p - 1); while (a.size() && a[0] == ' ') a.erase(0, 1); p = e;
		auto eq = a.find('='); auto k = lower(a.substr(0, eq)); if (eq == std::string::npos) continue; auto v = a.substr(eq + 1);
		if (k == "max-age") past |= atol(v.c_str()) <= 0;
		if (k == "expires") { tm t{}; auto r = strptime(v.c_str(), "%a, %d %b %Y %H:%M:%S GMT", &t); if (!r || *r) return false; past |= timegm(&t) < time(nullptr); }
	}
	return past;
}
static void compare(Case& c, const Cookies& k, const Model& m, const std::vector<std::string>& used, std::string w) {
	c.checkf(k.size() == m.data.size(), [&] { return w + ": size " + std::to_string(k.size()) + ", expected " + std::to_string(m.data.size()); });
	auto e = k.entries(); std::sort(e.begin(), e.end()); std::vector<KVpair> want(m.data.begin(), m.data.end()); c.check(e == want, w + ": entries differ");
	for (auto& n : used) { auto it = m.data.find(lower(n)); c.checkf(k.has(n) == (it != m.data.end()), [&] { return w + ": has(" + n + ") is wrong"; }); c.checkf(k.get(n) == (it == m.data.end() ? "" : it->second), [&] { return w + ": get(" + n + ") gives " + show(k.get(n)); }); }
	auto check_lines = [&](std::vector<std::string> lines, const char* via) {
		c.checkf(lines.size() == m.queue.size(), [&] { std::string o; for (auto& l : lines) o += "\n  " + show(l); return w + ": " + std::to_string(lines.size()) + " lines from " + via + ", expected " + std::to_string(m.queue.size()) + o; });
		for (auto& q : m.queue) {
			std::string full = q.first + "=" + q.second.value; for (auto& p : q.second.props) if (p.first.size()) full += "; " + p.first + (p.second.size() ? "=" + p.second : "");
			bool found = false; for (auto& l : lines) found |= q.second.del ? deletes(l, q.first) : l == full;
			c.checkf(found, [&] { std::string o; for (auto& l : lines) o += "\n  " + show(l); return w + ": no line from " + via + (q.second.del ? " deletes " + q.first : " is " + show(full)) + ", lines are" + o; });
		}
	};
	check_lines(k.serialize(), "serialize"); Response r; r.headers.set("x-other", "1"); r.setCookies(k); check_lines(r.headers.getAll("set-cookie"), "setCookies");
}
static void history(Src& s, Case& c) {
	constexpr int N = 2; Cookies k[N]; Model m[N]; std::vector<std::string> used; std::string log; bool changed = false, copied = false, parsed = false;
	size_t ops = 1 + s.count(16);
	for (size_t i = 0; i < ops; i++) {
		int a = s.below(N), b = s.below(N);
		switch (s.weighted({ 3, 4, 3, 3, 2, 1, 1 })) {
			case 0: {
				Model f; std::string h; size_t n = s.count(6);
				for (size_t j = 0; j < n; j++) { auto x = name(s, used); auto v = octets(s, 1); if (f.data.count(lower(x))) continue; f.data[lower(x)] = v; used.push_back(x); h += (h.size() ? "; " : "") + x + "=" + v; }
				log += "\nparse " + std::to_string(a) + " " + show(h, 200); bool viareq = s.flip();
				if (viareq) { Request r; if (h.size() || s.flip()) r.headers.set("Cookie", h); k[a] = r.getCookies(); } else k[a] = Cookies(h);
				m[a] = f; parsed |= n > 0;
			} break;
			case 1: { auto n = name(s, used); auto v = octets(s, 0); used.push_back(n); log += "\nset " + std::to_string(a) + " " + n + "=" + show(v, 60); k[a].set(n, v); m[a].data[lower(n)] = v; m[a].queue[lower(n)] = { v, {} }; changed = true; } break;
			case 2: {
				auto n = name(s, used); auto v = octets(s, 0); used.push_back(n); std::vector<std::pair<std::string, std::string>> p; size_t np = s.below(4);
				for (size_t j = 0; j < np; j++) p.push_back({ s.pick({ "Secure", "Path", "HttpOnly", "SameSite", "Domain", "Max-Age", "" }), s.pick({ "", "/", "Lax", "a.b", "10", "23 Oct 2077 08:28:00 GMT" }) });
				log += "\nset " + std::to_string(a) + " " + n + "=" + show(v, 60); for (auto& x : p) log += " [" + x.first + "=" + x.second + "]";
				switch (np) {
					case 0: k[a].set(n, v, {}); break;
					case 1: if (p[0].second.empty()) k[a].set(n, v, { p[0].first }); else k[a].set(n, v, { { p[0].first, p[0].second } }); break;
					case 2: k[a].set(n, v, { { p[0].first, p[0].second }, { p[1].first, p[1].second } }); break;
					default: if (p[1].second.empty()) k[a].set(n, v, { { p[0].first, p[0].second }, p[1].first.c_str(), { p[2].first, p[2].second } }); else k[a].set(n, v, { { p[0].first, p[0].second }, { p[1].first, p[1].second }, { p[2].first, p[2].second } });
				}
				m[a].data[lower(n)] = v; m[a].queue[lower(n)] = { v, p }; changed = true;
			} break;
			case 3: { auto n = name(s, used); log += "\ndel " + std::to_string(a) + " " + n; k[a].del(n); if (m[a].data.erase(lower(n))) { m[a].queue[lower(n)] = { "", {}, true }; c.label("deletion"); } } break;
			case 4: log += "\nassign " + std::to_string(a) + " := " + std::to_string(b); k[a] = k[b]; m[a] = m[b]; copied |= a != b && m[b].queue.size(); break;
			case 5: { log += "\ncopy and move " + std::to_string(a); Cookies x(k[a]); compare(c, x, m[a], used, "copy"); Cookies y(std::move(x)); compare(c, y, m[a], used, "moved copy"); y.set("only_in_copy", "1"); copied |= m[a].queue.size() > 0; } break;
			default: if (a != b) { log += "\nmove-assign " + std::to_string(a) + " from " + std::to_string(b); k[a] = std::move(k[b]); m[a] = m[b]; k[b] = Cookies(); m[b] = {}; copied |= m[a].queue.size() > 0; } break;
		}
		c.note(log.size() ? log.substr(1) : ""); log.clear(); if (used.size() > 10) used.erase(used.begin());
		for (int j = 0; j < N; j++) compare(c, k[j], m[j], used, "collection " + std::to_string(j));
	}
	c.nontrivial(changed && (copied || parsed)); if (copied) c.label("pending changes copied or moved");
}
static void pairs(Src& s, Case& c) {
	// plain name/value pairs attached to a response: one line each
	std::string n[3], v[3]; for (int i = 0; i < 3; i++) { n[i] = s.chance(1, 8) ? "" : name(s, {}); v[i] = octets(s, 0); }
	Response r; r.setCookies({ { n[0], v[0] }, { n[1], v[1] }, { n[2], v[2] } }); std::vector<std::string> want;
	for (int i = 0; i < 3; i++) if (n[i].size()) want.push_back(v[i].size() ? n[i] + "=" + v[i] : n[i]);
	c.note(n[0] + "=" + show(v[0]) + " " + n[1] + "=" + show(v[1]) + " " + n[2] + "=" + show(v[2])); c.check(r.headers.getAll("set-cookie") == want, "lines differ from the pairs given"); c.nontrivial(want.size() > 1);
}
static void fuzz(Src& s, Case& c) {
	std::string t; size_t n = s.count(16); for (size_t i = 0; i < n; i++) t += s.weighted({ 3, 1 }) == 0 ? s.pick({ "; ", ";", "=", "a", "B", " ", "\t", "a=b", ",", "\"" }) : s.bytestr(s.len(10));
	c.note("header " + show(t)); Cookies k(t); for (auto& e : k.entries()) c.check(k.has(e.first) && k.get(e.first) == e.second, "listed cookie cannot be read by its name"); c.check(k.serialize().empty(), "parsing alone queued a change"); c.nontrivial(k.size() > 0);
}
int main(int argc, char** argv) {
	return run(argc, argv, "C24", {
		{ "history", history, 60000, 1500000, "histories of parse/set/set with attributes/delete/copy/move over two collections, compared with a model after every step (readable values and Set-Cookie lines); non-trivial: a change plus a copy with pending changes or a parsed header", 8, 25 },
		{ "pairs", pairs, 100000, 1000000, "plain pairs attached to a response; non-trivial: at least two lines", 8, 10 },
		{ "fuzz", fuzz, 200000, 2000000, "arbitrary cookie headers: no crash, what is listed can be read; non-trivial: something is parsed", 8, 10 },
	});
}
