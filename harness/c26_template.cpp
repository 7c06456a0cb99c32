// C26: template rendering
#include "loc.hpp"
#include <core/html/html.hpp>
using namespace pbt; using namespace Lambda;

static std::string render_ref(const std::string& t, const HTML::TemplateProps& p, int& well, int& malformed) {
	std::string o; size_t i = 0;
	while (i < t.size()) {
		if (t.compare(i, 2, "{{") != 0) { o += t[i++]; continue; }
		auto e = t.find("}}", i + 2); if (e == std::string::npos) { o += t.substr(i); return o; }
		auto in = t.substr(i + 2, e - i - 2); size_t a = 0, b = in.size();
		while (a < b && (in[a] == ' ' || in[a] == '\t')) a++;
		while (b > a && (in[b - 1] == ' ' || in[b - 1] == '\t')) b--;
		auto name = in.substr(a, b - a); bool ok = !name.empty(); for (unsigned char c : name) ok &= (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_';
		if (ok) { well++; auto it = p.find(name); if (it != p.end()) o += it->second; } else { malformed++; o += t.substr(i, e + 2 - i); }
		i = e + 2;
	}
	return o;
}
static std::string name(Src& s) { return s.weighted({ 4, 1 }) ? s.str("abZ_09", 1 + s.below(20)) : s.pick({ "a", "b", "title", "x_1", "A", "_", "0" }); }
static std::string value(Src& s) {
	switch (s.weighted({ 2, 3, 1, 1 })) { case 0: return s.str("xyz <>&\"", s.len(12)); case 1: { std::string v; size_t n = s.count(4); for (size_t i = 0; i < n; i++) v += s.pick({ "{{", "}}", "{{ a }}", "{{b}}", "{", "}", "a", " ", "{{title}}", "\\1", "$&" }); return v; } case 2: return ""; default: return s.bytestr(s.len(400)); }
}
static void render(Src& s, Case& c) {
	HTML::TemplateProps p; size_t np = s.count(6); for (size_t i = 0; i < np; i++) { auto k = name(s); p[k] = value(s); }
	std::string t; size_t n = s.count(14);
	for (size_t i = 0; i < n; i++) switch (s.weighted({ 4, 5, 2, 1, 1 })) {
		case 0: t += s.pick({ "text", "{{", "}}", "{", "}", "{{{", "}}}", "<b>", "\n", "{{}}", "{{ }}", "}}{{", " " }); break;
		case 1: { std::string in; auto pad = [&] { return s.str(" \t", s.below(4)); }; t += "{{" + pad() + (np && s.flip() ? std::next(p.begin(), s.below(p.size()))->first : name(s)) + pad() + "}}"; } break;
		case 2: t += "{{" + s.str("ab_ \t-.{\n}0\xe4\xff\xc3", s.below(8)) + "}}"; break;
		case 3: t += s.bytestr(s.len(60)); break;
		default: t += s.str("{} a", s.len(30)); break;
	}
	std::string pl; for (auto& e : p) pl += " " + e.first + "=" + show(e.second, 60);
	c.note("template " + show(t, 600) + "\nvalues" + pl);
	int w = 0, m = 0; auto want = render_ref(t, p, w, m); InLocale lo(pick_locale(s), &c); auto got = HTML::renderTemplate(t, p);
	c.checkf(got == want, [&] { return "rendered " + show(got, 600) + "\nexpected " + show(want, 600); });
	c.nontrivial(w > 0); if (m) c.label("has malformed placeholder"); if (w > 1) c.label("several placeholders");
}
static void big(Src& s, Case& c) {
	std::string t; size_t n = 200 + s.below(3000); HTML::TemplateProps p{ { "v", s.bytestr(s.len(300)) }, { "w", "" } };
	auto unit = s.pick({ "{{v}}", "{{ w }}", "{{", "}}", "{{v}}{", "{{-}}", "{{ v }} x " }); for (size_t i = 0; i < n; i++) t += unit;
	c.note(std::to_string(n) + " times " + unit); int w = 0, m = 0; auto want = render_ref(t, p, w, m); c.check(HTML::renderTemplate(t, p) == want, "long template rendered differently"); c.nontrivial(w > 0);
}
int main(int argc, char** argv) {
	return run(argc, argv, "C26", {
		{ "render", render, 800000, 10000000, "templates assembled from text, well-formed and broken placeholders and brace runs, with values that contain placeholders, vs a one-pass reference; non-trivial: at least one well-formed placeholder", 8, 10 },
		{ "long", big, 4000, 40000, "templates of thousands of repeated units; non-trivial: contains placeholders", 8, 30 },
	});
}
