// C13: one static server used by several threads at once, under ThreadSanitizer
#define main unused_main
#include "c13_static.cpp"
#undef main
#include <thread>
static void threads(Src& s, Case& c) {
	auto d = dir(); std::error_code e; fs::remove_all(d + "/t", e); fs::create_directories(d + "/t/root"); spew(d + "/t/secret", "SECRET-OUTSIDE"); Tree t; t.root = d + "/t/root"; t.dirs.insert(""); size_t n = 2 + s.count(8); for (size_t i = 0; i < n; i++) addfile(s, t, c);
	StaticServer sv(t.root); size_t k = 2 + s.below(4), q = 5 + s.below(30); std::vector<std::vector<std::string>> ps(k); std::vector<std::vector<HTTP::Response>> rs(k);
	for (auto& v : ps) for (size_t i = 0; i < q; i++) { if (t.files.size() && s.flip()) { auto it = t.files.begin(); std::advance(it, s.below(t.files.size())); v.push_back("/" + it->first); } else v.push_back(path(s, t)); }
	c.note(std::to_string(k) + " threads with " + std::to_string(q) + " paths each, the first: " + show(ps[0][0])); std::vector<std::thread> th; for (size_t j = 0; j < k; j++) th.emplace_back([&, j] { for (auto& p : ps[j]) rs[j].push_back(sv.serve(p)); }); for (auto& x : th) x.join();
	size_t hits = 0; for (size_t j = 0; j < k; j++) for (size_t i = 0; i < q; i++) { auto want = expected(t, ps[j][i]); auto& r = rs[j][i]; auto& b = r.body.buffer(); c.checkf((r.status.code() == 200) == want.has_value(), [&] { return "path " + show(ps[j][i]) + " gives " + std::to_string(r.status.code()) + " when asked for by several threads"; }); if (want) { hits++; c.checkf(std::string(b.begin(), b.end()) == t.files.at(*want), [&] { return "path " + show(ps[j][i]) + " gives the wrong bytes when asked for by several threads"; }); } }
	fs::remove_all(d + "/t", e); c.nontrivial(hits >= k);
}
int main(int argc, char** argv) {
	return run(argc, argv, "C13", { { "threads", threads, 250, 20000, "2-5 threads asking one static server for random paths at once, under ThreadSanitizer; non-trivial: as many hits as threads", 6, 30, 30, false, true } });
}
