// C17: the reader/writer queue under ThreadSanitizer
#define main unused_main
#include "c17_tar.cpp"
#undef main
static void queue(Src& s, Case& c) {
	VirtualFilesystem v; auto m = fileset(s, 40, s.chance(1, 10), &v); fake_now = 1800000000; int n = 1 + s.below(3); std::vector<std::string> fs; for (int i = 0; i < n; i++) fs.push_back(dir() + "/q" + std::to_string(i) + ext(s));
	bool fail = s.chance(1, 4); if (fail) v.write(std::string("\0", 1), "x"); c.note(std::to_string(n) + " threads save and load the same file system" + (fail ? ", one name cannot be stored" : "") + "\n" + brief(m));
	std::vector<std::thread> t; std::vector<std::string> err(n); std::vector<VirtualFilesystem> w(n);
	for (int i = 0; i < n; i++) t.emplace_back([&, i] { try { v.saveSnapshot(fs[i]); if (fail) { err[i] = "an unusable name was saved"; return; } } catch (const std::exception& e) { if (!fail) err[i] = e.what(); return; } try { w[i].loadSnapshot(fs[i]); } catch (const std::exception& e) { err[i] = e.what(); } });
	for (auto& x : t) x.join(); for (auto& e : err) c.check(e.empty(), e); if (!fail) for (auto& x : w) same(c, x, m, "after a concurrent save and load"); c.nontrivial(n > 1 && m.size() > 4);
}
int main(int argc, char** argv) {
	return run(argc, argv, "C17", { { "queue", queue, 600, 20000, "up to 40 files through the reader and writer threads, several snapshots at once, under ThreadSanitizer; non-trivial: several threads and files", 6, 30, 30, false, true } });
}
