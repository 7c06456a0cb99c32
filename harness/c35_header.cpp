// C35: the single-file header holds everything the header tree holds
#include "pbt.hpp"
#include <core/polyfill/polyfill.hpp>
#define main gensfi_main
#include <tools/gensfi/main.cpp>
#undef main
#include <version.hpp>
#undef LAMBDA_VERSION
static std::string version = "2.0.0";
#define LAMBDA_VERSION version
#define main updatedllinfo_main
namespace dllinfo {
#include <tools/updatedllinfo/main.cpp>
}
#undef main
using namespace pbt;
// ------------------------------------------------------------ a lexer that ignores comments and white space but not the extent of directives
static bool idc(unsigned char c) { return isalnum(c) || c == '_' || c == '$' || c >= 128; }
static std::vector<std::string> lex(const std::string& in) {
	std::string t; for (char c : in) if (c != '\r') t += c; std::vector<std::string> o; bool bol = true, dir = false; size_t i = 0;
	while (i < t.size()) {
		char c = t[i];
		if (c == '\n') { if (dir) o.push_back("<end of directive>"); dir = false; bol = true; i++; continue; }
		if (c == '\\' && i + 1 < t.size() && t[i + 1] == '\n') { i += 2; continue; }
		if (isspace((unsigned char)c)) { i++; continue; }
		if (t.compare(i, 2, "//") == 0) { while (i < t.size() && t[i] != '\n') i++; continue; }
		if (t.compare(i, 2, "/*") == 0) { auto e = t.find("*/", i + 2); i = e == std::string::npos ? t.size() : e + 2; continue; }
		if (bol && c == '#') { dir = true; }
		bol = false;
		if (c == '"' || c == '\'') { size_t e = i + 1; while (e < t.size() && t[e] != c && t[e] != '\n') e += t[e] == '\\' ? 2 : 1; e = std::min(e + 1, t.size()); o.push_back(t.substr(i, e - i)); i = e; continue; }
		if (idc(c)) { size_t e = i; while (e < t.size() && idc(t[e])) e++; o.push_back(t.substr(i, e - i)); i = e; continue; }
		o.push_back(std::string(1, c)); i++;
	}
	if (dir) o.push_back("<end of directive>"); return o;
}
// ------------------------------------------------------------ generated header trees
struct Line { int kind; std::string text, target; };	// kind 0 text 1 include of a file 2 system include
struct File { std::string path, guard; std::vector<Line> lines; std::string before, after, endif; bool crlf = false, nonl = false; };
static std::string comment(Src& s, bool inl) {
	static const std::string A = "abc xyz*/\"'#$;{}\\"; auto words = [&] { std::string w = s.str("abc xyz\"'#$;{}", s.below(24)); if (s.chance(1, 8)) w += s.pick({ "https://x.y/z", "#include <no>", "#endif", "* //", "don't", "/* ", "{{ merged }}" }); return w; };
	if (inl) return s.flip() ? "/* " + words() + " */" : "/** " + words() + " */";
	switch (s.below(4)) { case 0: return "//\t" + words(); case 1: return "//" + words(); case 2: { std::string o = "/*"; size_t n = s.below(4); for (size_t i = 0; i < n; i++) o += "\n\t" + words(); return o + "\n*/"; } default: { std::string o = "/**"; size_t n = s.below(4); for (size_t i = 0; i < n; i++) o += "\n\t * " + words(); return o + "\n*/"; } }
}
static std::string str(Src& s) { std::string o = "\""; size_t n = s.below(4); for (size_t i = 0; i < n; i++) o += s.pick({ "a", "$1", "$&", "$$", "$", "http://x", "\\\"", "\\n", "\\\\", "/* ", " */", "//", "#", "{{", " ", "%s", "'" , "\\$" }); return o + "\""; }
static std::string code(Src& s, unsigned& serial) {
	auto id = "n" + std::to_string(serial++); std::string in = s.str("\t ", s.below(3)), tail = s.chance(1, 8) ? s.pick({ "\t//\tnote", " // see https://a.b", " // it's", " /* x */", "  ", "\t", " // \"" }) : "";
	switch (s.weighted({ 5, 3, 3, 2, 2, 2, 1, 1, 1, 1 })) {
		case 0: return in + "int " + id + ";" + tail;
		case 1: return in + "static const char* " + id + " = " + str(s) + ";" + tail;
		case 2: return in + "#define M_" + id + " " + (s.flip() ? str(s) : std::to_string(s.below(100))) + (tail == "\t//\tnote" ? "" : tail);
		case 3: return in + "#ifdef F_" + id + "\n" + in + "\tvoid " + id + "();\n" + (s.flip() ? in + "#else\n" + in + "\tchar " + id + ";\n" : "") + in + "#endif" + (s.flip() ? "" : tail);
		case 4: return in + "class " + id + " {\n" + in + "\tprivate:\n" + in + "\t\tchar m = '" + s.pick({ "a", "\"", "\\'", "\\\\", "/", "$" }) + "';" + tail + "\n" + (s.flip() ? "\n" : s.str("\t ", s.below(4)) + "\n") + in + "\tpublic:\n" + (s.flip() ? in + "\t\t" + comment(s, true) + "\n" : "") + in + "\t\tint f() const;\n" + in + "};";
		case 5: return in + "#define F_" + id + "(x) \\\n" + in + "\tdo { \\\n" + in + "\t\tg(x, " + str(s) + "); \\\n" + in + "\t} while (0)" ;
		case 6: return in + "int" + comment(s, true) + id + " = 1" + comment(s, true) + "+ 2;" + tail;
		case 7: return in + "namespace " + id + " {";
		case 8: return in + "}" + (s.flip() ? ";" : "");
		default: return in + "#pragma " + id + (s.flip() ? " x" : "");
	}
}
static std::string render(const File& f, Src& s) {
	std::string o = f.before; if (f.guard.size()) o += "#ifndef " + f.guard + "\n#define " + f.guard + "\n";
	for (auto& l : f.lines) o += l.text + "\n"; if (f.guard.size()) o += f.endif; o += f.after; if (f.nonl && o.size() && o.back() == '\n') o.pop_back();
	if (f.crlf) { std::string q; for (char c : o) { if (c == '\n') q += '\r'; q += c; } o = q; } return o;
}
static std::string rel(const std::string& from, const std::string& to, bool dot) {
	namespace fs = std::filesystem; auto d = fs::path(from).parent_path(); auto r = fs::path(to).lexically_relative(d.empty() ? fs::path(".") : d).generic_string(); if (d.empty()) r = to; return (dot && r.rfind("..", 0) != 0 ? "./" : "") + r;
}
static void put(const std::string& p, const std::string& d) { std::ofstream o(p, std::ios::binary | std::ios::trunc); o << d; }
static std::string slurp(const std::string& p) { std::ifstream i(p, std::ios::binary); std::stringstream o; o << i.rdbuf(); return o.str(); }
static void merge(Src& s, Case& c) {
	static std::string base; static pid_t me = 0; if (me != getpid()) { me = getpid(); base = std::string(getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "/tmp") + "/sfi" + std::to_string(me); mkdir(base.c_str(), 0700); }
	std::filesystem::remove_all(base + "/t"); std::filesystem::create_directories(base + "/t"); if (chdir((base + "/t").c_str())) c.fail("harness: chdir");
	static const char* DIRS[] = { "", "core/", "core/http/", "extra/", "extra/x.y/", "core/http/deep/" }; size_t n = s.chance(1, 6) ? 1 + s.below(2) : 2 + s.below(8); std::vector<File> f(n); unsigned serial = 1; bool nt = false; std::map<std::string, size_t> at;
	for (size_t i = 0; i < n; i++) { f[i].path = std::string(i ? DIRS[s.below(6)] : "") + "h" + std::to_string(i) + s.pick({ ".hpp", ".h", "-a.hpp", "_impl.hpp", ".d.hpp", "lib.hpp" }); at[f[i].path] = i; }
	for (size_t i = 0; i < n; i++) {
		auto& h = f[i]; h.guard = s.chance(1, 10) ? "" : s.pick({ "__LIB_MADDSUA_LAMBDA_", "__LIB_MADDSUA_LAMBDA_CORE_", "LIB_LAMBDA_" }) + std::string("H") + std::to_string(i) + s.pick({ "__", "_HPP", "__" }); h.crlf = s.chance(1, 12); h.nonl = s.chance(1, 6); if (s.chance(1, 3)) h.before += comment(s, false) + "\n"; if (s.chance(1, 3)) h.before += s.pick({ "\n", "\n\n", "\t\n" }); h.endif = s.pick({ "#endif\n", "\n#endif\n", "\n\n#endif\n\n", "#endif // guard\n", "\n#endif /* guard */\n", "\t#endif\n" }); if (s.chance(1, 8)) h.after = s.pick({ "\n", "//\tend\n", "\n\n\n" });
		size_t k = s.flip() ? s.count(10) : 3 + s.below(7);
		for (size_t j = 0; j < k; j++) switch (s.weighted({ 6, n > 1 ? 4u : 0u, 2, 2, 2 })) {
			case 0: h.lines.push_back({ 0, code(s, serial), "" }); break;
			case 1: { size_t t = 1 + s.below(n - 1); if (t == i) break; h.lines.push_back({ 1, s.str("\t ", s.below(3)) + "#include " + s.pick({ "", "", " " }) + "\"" + rel(f[i].path, f[t].path, !s.chance(1, 4)) + "\"" + s.pick({ "", "", "", " ", "\t//\twhy", " /* why */", " // see \"other.hpp\"", "\t/* \"x\" */" }), f[t].path }); } break;
			case 2: { auto q = std::string(s.pick({ "<string>", "<vector>", "<map>", "<sys/socket.h>", "<stdint.h>" })); h.lines.push_back({ 2, s.str("\t ", s.below(3)) + "#include " + q + s.pick({ "", "", "", " ", "\t// for x", " // std::vector<int>", " /* <a> */" }), q }); } break;
			case 3: h.lines.push_back({ 0, s.str("\t", s.below(3)) + comment(s, false), "" }); break;
			default: h.lines.push_back({ 0, s.pick({ "", "", "\t", "  \t", "\n\n", "\n\t\n" }), "" }); break;
		}
	}
	for (size_t i = 0; i < n; i++) { auto t = render(f[i], s); std::filesystem::create_directories(std::filesystem::path("./" + f[i].path).parent_path()); put(f[i].path, t); c.note("=== " + f[i].path + "\n" + t); }
	// what must be there
	std::vector<std::string> sys, want; std::set<std::string> seen; size_t depth = 0, skipped = 0;
	std::function<void(size_t)> walk = [&](size_t i) { std::string cur = f[i].before; depth++; auto flush = [&] { auto l = lex(cur); want.insert(want.end(), l.begin(), l.end()); cur.clear(); }; for (auto& l : f[i].lines) { if (!l.kind) { cur += l.text + "\n"; continue; } flush(); if (!seen.insert(l.target).second) { skipped++; continue; } if (l.kind == 2) sys.push_back(l.target); else walk(at[l.target]); } cur += f[i].after; flush(); };
	walk(0); std::string tpl = s.pick({ "", "/*\n\tlib\n\t{{release_time}} x\n*/\n\n", "int first$1;\n" }); tpl += "#ifndef G\n#define G\n"; tpl += s.pick({ "{{global_includes}}\n", "{{ global_includes }}\n", "{ {Global_Includes} }\n" }); tpl += s.pick({ "{{merged_includes}}\n", "{{\tmerged_includes }}\n", "\n{{MERGED_INCLUDES}}" }); tpl += "\n#endif\n"; put("tpl", tpl);
	std::string wt = tpl.find("first$1") != std::string::npos ? "int first$1;\n" : ""; wt += "#ifndef G\n#define G\n"; for (auto& q : sys) wt += "#include " + q + "\n"; auto all = lex(wt); all.insert(all.end(), want.begin(), want.end()); auto l = lex("\n#endif\n"); all.insert(all.end(), l.begin(), l.end());
	auto a0 = "--entrypoint=" + f[0].path; const char* av[] = { "gensfi", a0.c_str(), "--output=out.hpp", "--template=tpl", nullptr }; fflush(stdout); int rc = gensfi_main(4, av); c.check(rc == 0, "gensfi exits with " + std::to_string(rc)); auto out = slurp("out.hpp"); auto got = lex(out); c.note("=== generated\n" + out);
	size_t i = 0; while (i < got.size() && i < all.size() && got[i] == all[i]) i++; auto around = [&](const std::vector<std::string>& v) { std::string o; for (size_t k = i > 4 ? i - 4 : 0; k < v.size() && k < i + 5; k++) o += (k == i ? " >>>" : " ") + v[k]; return o; };
	c.checkf(got == all, [&] { return "the generated header differs from the tree at token " + std::to_string(i) + " of " + std::to_string(all.size()) + "\n  there:   " + around(got) + "\n  expected:" + around(all); });
	nt = depth > 2 && want.size() > 30; c.nontrivial(nt); if (skipped) c.label("repeated include"); if (depth > 3) c.label("several headers");
}
static void refused(Src& s, Case& c) {	// nothing is written over the old output when an input is missing
	static std::string base; static pid_t me = 0; if (me != getpid()) { me = getpid(); base = std::string(getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "/tmp") + "/sfr" + std::to_string(me); mkdir(base.c_str(), 0700); }
	std::filesystem::remove_all(base + "/t"); std::filesystem::create_directories(base + "/t"); if (chdir((base + "/t").c_str())) c.fail("harness: chdir");
	unsigned what = s.below(4); put("a.hpp", what == 0 ? "int a;\n#include \"./missing.hpp\"\n" : "int a;\n"); put("tpl", "{{merged_includes}}"); put("out.hpp", "previous"); std::vector<std::string> a{ "gensfi" }; if (what != 1) a.push_back(what == 2 ? "--entrypoint=none.hpp" : "--entrypoint=a.hpp"); a.push_back("--output=out.hpp"); a.push_back(what == 3 ? "--template=none" : "--template=tpl"); if (s.flip()) std::swap(a[1], a.back()); std::vector<const char*> av; for (auto& x : a) av.push_back(x.c_str());
	c.note("variant " + std::to_string(what)); bool threw = false; int rc = 0; try { rc = gensfi_main(av.size(), av.data()); } catch (const std::exception&) { threw = true; } c.check(threw || rc != 0, "no error reported"); c.check(slurp("out.hpp") == "previous", "the output was overwritten although an input is missing"); c.nontrivial();
}
static void resource(Src& s, Case& c) {	// the library's version resource
	static std::string base; static pid_t me = 0; if (me != getpid()) { me = getpid(); base = std::string(getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "/tmp") + "/dll" + std::to_string(me); mkdir(base.c_str(), 0700); } if (chdir(base.c_str())) c.fail("harness: chdir");
	version = std::to_string(s.below(30)) + "." + std::to_string(s.below(120)) + (s.flip() ? "." + std::to_string(s.below(11)) : "") + (s.chance(1, 4) ? "." + std::to_string(s.below(5000)) : "") + s.pick({ "", "", "", "-rc1", "-beta", " " }); std::string comma; for (char x : version) if (isalnum((unsigned char)x)) comma += x; else if (x == '.') comma += ',';
	auto year = [] { time_t t = time(nullptr); return std::to_string(gmtime(&t)->tm_year + 1900); }; auto y0 = year(); std::string tpl; std::vector<int> used; size_t n = s.count(30); std::vector<std::string> part; for (size_t i = 0; i < n; i++) { unsigned k = s.below(8); part.push_back(k == 0 ? "$VERSION_DOT" : k == 1 ? "$VERSION_COMMA" : k == 2 ? "$RELEASED_YEAR" : k == 3 ? s.pick({ "$", "$$", "VERSION_DOT", "$VERSION", "$version_dot", "$RELEASED", "VALUE \"FileVersion\", \"", "\\0\"" }) : s.pick({ "\r\n", "\n", " ", "\t", ",", "\"", "1 VERSIONINFO", "\xc2\xa9" })); tpl += part.back(); }
	bool missing = s.chance(1, 10), noarg = !missing && s.chance(1, 12); unsigned which = s.below(2); unlink("tpl"); if (!missing) put("tpl", tpl); put("out.rc", "previous"); std::vector<const char*> av{ "updatedllinfo" }; if (!noarg || which) av.push_back("--template=tpl"); if (!noarg || !which) av.push_back("--output=out.rc"); if (av.size() == 3 && s.flip()) std::swap(av[1], av[2]); if (s.chance(1, 5)) av.push_back(s.pick({ "-x", "--verbose", "--other=1", "stray" })); c.note("version " + version + (missing ? ", no template" : noarg ? ", argument left out" : "") + "\n" + tpl);
	bool threw = false; int rc = 0; try { rc = dllinfo::updatedllinfo_main(av.size(), av.data()); } catch (const std::exception&) { threw = true; } auto out = slurp("out.rc"), y1 = year(); if (missing || noarg) { c.check(threw || rc, "no error reported"); c.check(out == "previous", "the output was overwritten although an input is missing"); c.label("refused"); c.nontrivial(); return; }
	c.check(!rc && !threw, "fails on a proper template"); auto fill = [&](const std::string& y) { std::string o = tpl; for (auto& [k, v] : std::vector<std::pair<std::string, std::string>>{ { "$VERSION_DOT", version }, { "$VERSION_COMMA", comma }, { "$RELEASED_YEAR", y } }) { std::string q; for (size_t i = 0; i < o.size();) if (!o.compare(i, k.size(), k)) { q += v; i += k.size(); } else q += o[i++]; o = q; } return o; };
	c.checkf(out == fill(y0) || out == fill(y1), [&] { return "resource is " + show(out, 300) + " instead of " + show(fill(y0), 300); }); c.nontrivial(out != tpl);
}
int main(int argc, char** argv) {
	return run(argc, argv, "C35", {
		{ "merge", merge, 6000, 150000, "trees of 1-10 headers in nested directories (guards, relative and system includes with trailing comments, repeated and circular includes, comments of every kind, macros with continuations, conditionals, strings holding comment marks, dollar signs and escapes, CRLF, missing final newline) and templates; the tokens and directive extents of the output must be those of every header once, at its first inclusion; non-trivial: more than two headers and 30 tokens", 8, 30, 60 },
		{ "refused", refused, 400, 4000, "missing entry point, template, included header or argument: an error and the old output stays; all non-trivial", 4, 20 },
		{ "resource", resource, 20000, 300000, "version resource templates with any mix of placeholders, look-alikes and text, for generated versions, arguments in any order or missing: every placeholder and nothing else is replaced; non-trivial: something was replaced or refused", 8, 20 },
	});
}
