// C16: concurrent use of one virtual file system (built with ThreadSanitizer)
#include "pbt.hpp"
#include <extra/vfs/vfs.hpp>
#include <thread>
using namespace pbt; using namespace Lambda;
// contents name the writer and the length so that a mixture is visible
static std::string content(int th, int seq, size_t n) { auto h = std::to_string(th) + ":" + std::to_string(seq) + ":" + std::to_string(n) + ";"; std::string o; while (o.size() < n + h.size()) o += h; o.resize(n + h.size()); return o; }
static bool whole(const std::string& d) { int a, b; size_t n; return sscanf(d.c_str(), "%d:%d:%zu;", &a, &b, &n) == 3 && d == content(a, b, n); }
static void threads(Src& s, Case& c) {
	VirtualFilesystem v; int nt = 2 + s.below(4); struct Op { int kind; std::string a, b; size_t n; }; std::vector<std::vector<Op>> plan(nt); bool snap = s.chance(1, 4); static const char* N[] = { "a", "B", "c/d", "E", "f.txt" }; std::string log;
	for (auto& p : plan) { size_t k = 5 + s.below(60); for (size_t i = 0; i < k; i++) p.push_back({ (int)s.weighted({ 5, 4, 2, 3, 2, 2, 2 }), N[s.below(5)], N[s.below(5)], s.len(300) }); log += std::to_string(k) + " ops; "; }
	c.note(std::to_string(nt) + " threads: " + log + (snap ? "with snapshots" : "")); std::atomic<int> go{ 0 }, bad{ 0 }; std::vector<std::thread> t; auto file = std::string(getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "/tmp") + "/vt" + std::to_string(getpid()) + ".tar";
	for (int i = 0; i < nt; i++) t.emplace_back([&, i] {
		go++; while (go < nt) {} int seq = 0;
		for (auto& o : plan[i]) switch (o.kind) {
			case 0: v.write(o.a, content(i, seq++, o.n)); break;
			case 1: { auto r = v.read(o.a); if (r && !whole(r->text())) bad++; } break;
			case 2: v.remove(o.a); break;
			case 3: try { v.move(o.a, o.b); } catch (const std::exception&) {} break;
			case 4: for (auto& e : v.listAll()) if (e.name.empty()) bad++; break;
			case 5: { auto f = v.fileInfo(o.a); if (f && f->name.empty()) bad++; } break;
			default: { auto st = v.stats(); if (st.totalFiles > 5) bad++; } break;
		}
	});
	if (snap) { try { v.saveSnapshot(file); VirtualFilesystem w; w.loadSnapshot(file); for (auto& e : w.listAll()) if (!whole(w.read(e.name)->text())) bad++; v.loadSnapshot(file); } catch (const std::exception& e) { for (auto& x : t) x.join(); c.fail(std::string("snapshot: ") + e.what()); } }
	for (auto& x : t) x.join(); unlink(file.c_str()); c.check(!bad, "a reader saw a torn or impossible state");
	size_t total = 0, n = 0; for (auto& e : v.listAll()) { auto r = v.read(e.name); c.check(r && whole(r->text()) && r->size() == e.size, "a file holds a mixture"); total += e.name.size() + e.size; n++; }
	auto st = v.stats(); c.checkf(st.totalFiles == n && st.totalSize == total, [&] { return "totals say " + std::to_string(st.totalFiles) + " files, " + std::to_string(st.totalSize) + " bytes; actually " + std::to_string(n) + " and " + std::to_string(total); });
	c.nontrivial(n > 0);
}
int main(int argc, char** argv) {
	return run(argc, argv, "C16", {
		{ "threads", threads, 2500, 60000, "2-5 threads of random operations on five shared names under ThreadSanitizer, contents self-identifying, totals recomputed at the end; non-trivial: files remain", 4, 30, 25, false, true },
	});
}
