// C13: static file server against a model of its directory tree
#include "pbt.hpp"
#include "mime_table.hpp"
#include <extra/staticserver/staticserver.hpp>
#include <filesystem>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/un.h>
using namespace pbt; using namespace Lambda; namespace fs = std::filesystem;
typedef std::map<std::string, std::string> Files;	// path below the root ("a/b.txt") -> contents
static std::string dir() { static std::string d; static pid_t p = 0; if (p != getpid()) { p = getpid(); d = std::string(getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "/tmp") + "/st" + std::to_string(p); mkdir(d.c_str(), 0700); } return d; }
static void spew(const std::string& f, const std::string& d) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o << d; }
static std::string segment(Src& s) {
	static const std::string A = "abAB.-_ ~%20+\xc3\xa9\xff\x01";
	switch (s.weighted({ 6, 3, 2, 1 })) {
		case 0: return s.pick({ "a", "b", "index.html", "index.htm", "page.html", "img.png", "data.json", "v1.0", "README", "sub", "x.tar.gz", "A", "index", "archive." });
		case 1: return s.str(A, 1 + s.below(8)); case 2: return s.pick({ "..a", "a..", "...", ".hidden", "a.b.c", ".html", "a..b", "..", "." }); default: return s.str("abc.", 200 + s.below(56));
	}
}
static bool good(const std::string& n) { return n != "." && n != ".." && n.size() <= 255; }
struct Tree { std::string root; Files files; std::set<std::string> dirs, specials; };
static void addfile(Src& s, Tree& t, Case& c) {
	std::string p; size_t depth = s.below(4); for (size_t i = 0; i < depth; i++) { std::string n; if (t.dirs.size() > 1 && p.empty() && s.flip()) { auto it = t.dirs.begin(); std::advance(it, s.below(t.dirs.size())); n = *it; if (n.empty()) continue; } else n = segment(s); if (!good(n.substr(n.rfind('/') + 1))) continue; auto q = p.empty() ? n : p + "/" + n; if (t.files.count(q) || t.specials.count(q) || q.size() > 1500) continue; p = q; std::error_code e; fs::create_directories(t.root + "/" + p, e); if (e) c.fail("harness: mkdir " + e.message()); for (size_t k = 0; (k = p.find('/', k)) != std::string::npos; k++) t.dirs.insert(p.substr(0, k)); t.dirs.insert(p); }
	if (s.chance(1, 8)) return; auto n = segment(s); if (!good(n)) return; auto q = p.empty() ? n : p + "/" + n; if (t.dirs.count(q) || t.specials.count(q)) return;
	if (s.chance(1, 15) && !t.files.count(q)) { if (s.flip()) { mkfifo((t.root + "/" + q).c_str(), 0600); } else { sockaddr_un a{}; a.sun_family = AF_UNIX; int fd = socket(AF_UNIX, SOCK_STREAM, 0); if (t.root.size() + q.size() + 1 < sizeof a.sun_path) { strcpy(a.sun_path, (t.root + "/" + q).c_str()); bind(fd, (sockaddr*)&a, sizeof a); } else mkfifo((t.root + "/" + q).c_str(), 0600); close(fd); } t.specials.insert(q); c.note("special file " + show(q, 60)); return; }
	auto d = s.bytestr(s.chance(1, 20) ? s.len(300000) : s.len(200)); spew(t.root + "/" + q, d); t.files[q] = d; c.note("file " + show(q, 60) + " of " + std::to_string(d.size()) + " bytes");
}
// expected outcome: key of the file served, or nothing
static std::optional<std::string> expected(const Tree& t, std::string p) {
	for (auto& ch : p) if (ch == '\\') ch = '/'; std::vector<std::string> v; bool slash = false; std::string cur; p += '/';
	for (size_t i = 0; i < p.size(); i++) { if (p[i] != '/') { cur += p[i]; continue; } if (cur.empty() || cur == ".") slash = true; else if (cur == "..") { if (v.size()) v.pop_back(); slash = true; } else { v.push_back(cur); slash = false; } cur.clear(); }
	std::string q; for (auto& x : v) q += (q.empty() ? "" : "/") + x; if (q.find('\0') != std::string::npos) return {}; if (!slash && t.files.count(q)) return q; if (!q.empty() && !t.dirs.count(q)) return {};
	for (auto n : { "index.html", "index.htm" }) { auto k = q.empty() ? n : q + "/" + n; if (t.files.count(k)) return k; } return {};
}
static std::string path(Src& s, const Tree& t) {
	auto any = [&]() -> std::string { size_t n = t.files.size() + t.dirs.size(); size_t k = s.below(n); if (k < t.files.size()) { auto it = t.files.begin(); std::advance(it, k); return it->first; } auto it = t.dirs.begin(); std::advance(it, k - t.files.size()); return *it; };
	std::string p; if (s.flip()) p = "/" + any(); else { size_t n = s.below(8); for (size_t i = 0; i < n; i++) { p += s.pick({ "/", "\\", "//", "" }); switch (s.weighted({ 3, 2, 1, 1, 1 })) { case 0: { auto a = any(); p += a; } break; case 1: p += ".."; break; case 2: p += "."; break; case 3: p += segment(s); break; default: p += s.pick({ "secret", "outside", "root", "rootx/secret", "%2e%2e", "..%2f", "index.html", "etc/passwd", "<script>x</script>", "a<b>&\"'" }); break; } } if (s.flip()) p += s.pick({ "/", "\\", "/..", "/.", "//" }); }
	switch (s.weighted({ 8, 2, 1, 1, 1, 1, 1 })) {
		case 6: { std::string u = s.pick({ "/.", "//", "/a/..", "/\\.", "/bcd/./.." }), w; size_t k = 1 + s.len(s.chance(1, 4) ? 12000 : 300); while (w.size() < k) w += u; p = w + (p.empty() || p[0] == '/' ? "" : "/") + p; } break;	// a long way round
		case 0: break; case 1: { size_t k = s.below(4); for (size_t i = 0; i < k; i++) { size_t a = s.below(p.size() + 1); p.insert(a, s.pick({ "/", "../", "./", "\\", "/../", "/./", "//", "..", "..\\", "a/../" })); } } break;
		case 2: p.insert(s.below(p.size() + 1), 1, '\0'); break; case 3: if (p.size()) p.erase(s.below(p.size()), 1); break; case 4: p += s.str("ab/.\\", 100 + s.below(9000)); break; default: p = s.bytestr(s.len(60)); break;
	}
	return p;
}
static void ask(Case& c, const StaticServer& sv, const Tree& t, const std::string& p, bool viareq) {
	HTTP::Request rq; rq.url.pathname = p; HTTP::Response r = viareq ? sv.serve(rq) : sv.serve(p); auto want = expected(t, p); int st = r.status.code(); auto& b = r.body.buffer(); std::string body(b.begin(), b.end());
	c.checkf(st == 200 || st == 404, [&] { return "path " + show(p) + " gives status " + std::to_string(st); });
	c.checkf(body.find("SECRET-OUTSIDE") == std::string::npos, [&] { return "path " + show(p) + " reveals a file outside the root"; });
	c.checkf((st == 200) == want.has_value(), [&] { return "path " + show(p) + (want ? " should serve " + show(*want) + " but gives " : " should not be found but gives ") + std::to_string(st); });
	if (!want) { c.label("not found"); auto ty = r.headers.get("content-type"); bool html = ty.empty() || ty.find("html") != std::string::npos; if (html && p.find('<') != std::string::npos) { auto ctl = sv.serve("/no-such-file-here").body.buffer(); size_t a = std::count(b.begin(), b.end(), '<'), z = std::count(ctl.begin(), ctl.end(), '<'); c.label("markup in a missing path"); c.checkf(a == z, [&] { return "path " + show(p) + " shows up as markup in the error page"; }); } return; }
	c.checkf(body == t.files.at(*want), [&] { return "path " + show(p) + " gives " + std::to_string(body.size()) + " bytes " + show(body, 60) + " instead of the " + std::to_string(t.files.at(*want).size()) + " bytes of " + show(*want); });
	auto name = want->substr(want->rfind('/') + 1); auto dot = name.rfind('.'); std::string ext = dot == std::string::npos ? "" : name.substr(dot + 1), low = ext; for (auto& x : low) if (x >= 'A' && x <= 'Z') x += 32; auto ty = r.headers.get("content-type"); auto it = mime_expected.find(ext); std::string exp = it == mime_expected.end() ? "application/octet-stream" : it->second;
	bool ok = ty == exp || (dot == 0 && ty == "application/octet-stream") || (mime_expected.count(low) && ty == mime_expected.at(low)); if (dot == std::string::npos) ok = ty == "application/octet-stream";
	c.checkf(ok, [&] { return show(*want) + " is served as " + ty + ", expected " + exp; });
}
static void paths(Src& s, Case& c) {
	auto d = dir(); std::error_code e; fs::remove_all(d + "/w", e); fs::create_directories(d + "/w/root"); fs::create_directories(d + "/w/rootx"); for (auto f : { "/w/secret", "/w/rootx/secret", "/w/index.html", "/w/rootx/index.html", "/w/outside.html" }) spew(d + f, "SECRET-OUTSIDE"); Tree t; t.root = d + "/w/root"; t.dirs.insert("");
	size_t n = 1 + s.count(10); for (size_t i = 0; i < n; i++) addfile(s, t, c); if (chdir((d + "/w").c_str())) c.fail("chdir"); std::string root; switch (s.below(5)) { case 0: root = t.root; break; case 1: root = t.root + "/"; break; case 2: root = "root"; break; case 3: root = "./root/"; break; default: root = "../w/root"; break; } c.note("root " + root.substr(root.find("/w/") == std::string::npos ? 0 : root.find("/w/")));
	StaticServer sv(root); size_t q = 5 + s.below(30); bool dots = false, hit = false;
	for (auto& f : t.files) ask(c, sv, t, "/" + f.first, false);
	for (size_t i = 0; i < q; i++) { auto p = path(s, t); c.note("ask " + show(p)); ask(c, sv, t, p, s.flip()); auto w = expected(t, p); if (w) { hit = true; dots |= p != "/" + *w; } if (s.chance(1, 8)) { if (t.files.size() && s.chance(1, 3)) { auto it = t.files.begin(); std::advance(it, s.below(t.files.size())); auto nw = s.flip() ? s.bytestr(s.len(200)) : it->second; if (nw == it->second && nw.size()) nw[s.below(nw.size())] ^= 1 + s.below(255); c.note("rewrite " + show(it->first, 60)); spew(t.root + "/" + it->first, nw); it->second = nw; auto q = "/" + it->first; ask(c, sv, t, q, s.flip()); } else if (t.files.size() && s.flip()) { auto it = t.files.begin(); std::advance(it, s.below(t.files.size())); c.note("delete " + show(it->first, 60)); unlink((t.root + "/" + it->first).c_str()); t.files.erase(it); } else addfile(s, t, c); } }
	if (s.chance(1, 6) && t.files.size()) {	// no descriptor left: nothing can be read, so nothing may be served as if it were
		rlimit old, lim; getrlimit(RLIMIT_NOFILE, &old); lim = old; lim.rlim_cur = 0; setrlimit(RLIMIT_NOFILE, &lim); HTTP::Response r = sv.serve("/" + t.files.begin()->first); setrlimit(RLIMIT_NOFILE, &old); auto& b = r.body.buffer(); c.note("ask for the first file without descriptors");
		c.check(r.status.code() != 200 || std::string(b.begin(), b.end()) == t.files.begin()->second, "a file that could not be read was served as something else"); c.label("unreadable file");
	}
	if (chdir("/")) c.fail("chdir"); fs::remove_all(d + "/w", e); c.nontrivial(hit && dots);
}
static void roots(Src& s, Case& c) {
	auto d = dir(); spew(d + "/plain", "x"); auto r = s.pick({ std::string("/nothing"), std::string("/plain"), std::string("/") + s.str("abc/..", 1 + s.below(5000)), std::string("/plain/x") }); std::error_code e; c.note("root " + show(r)); bool dirx = fs::is_directory(d + r, e); bool threw = false; try { StaticServer sv(d + r); } catch (const std::exception&) { threw = true; } c.check(threw != dirx, "constructing on a root that is not a directory must fail"); c.nontrivial(threw);
}
int main(int argc, char** argv) {
	return run(argc, argv, "C13", {
		{ "paths", paths, 8000, 200000, "random directory trees (dots, odd bytes, long names, fifos, index pages) asked for every file and for random paths with dot segments, backslashes, NUL, over-long and mutated parts, with files outside the root as bait; non-trivial: a file served through another spelling of its path", 8, 30, 60 },
		{ "roots", roots, 300, 3000, "roots that do not exist or are no directories", 4, 30, 20 },
	});
}
