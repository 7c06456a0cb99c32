// C15: concurrent use of one key-value store (built with ThreadSanitizer)
#include "pbt.hpp"
#include <extra/kvstorage/kvstorage.hpp>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <thread>
using namespace pbt; typedef Lambda::Storage::KVStorage::StorageInterface Store; typedef std::map<std::string, std::string> Map;
// random delays around the log writes widen the race windows
static std::atomic<uint32_t> delay_seed{ 0 };
static void jitter() { uint32_t x = delay_seed.load(std::memory_order_relaxed); if (!x) return; x = x * 1664525 + 1013904223; delay_seed.store(x | 1, std::memory_order_relaxed); if ((x >> 16) % 3 == 0) { timespec t{ 0, (long)((x >> 8) % 60000) }; nanosleep(&t, nullptr); } else if ((x >> 16) % 3 == 1) sched_yield(); }
extern "C" {
ssize_t write(int fd, const void* b, size_t n) { if (fd > 2) jitter(); ssize_t r = syscall(SYS_write, fd, b, n); if (fd > 2) jitter(); return r; }
ssize_t writev(int fd, const iovec* v, int c) { if (fd > 2) jitter(); ssize_t r = syscall(SYS_writev, fd, v, c); if (fd > 2) jitter(); return r; }
}
static std::string file() { return std::string(getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "/tmp") + "/kt" + std::to_string(getpid()) + ".ldb"; }
struct Op { int kind; std::string k, v; std::string got; size_t n = 0; uint64_t from = 0, to = 0; };	// 0 set 1 get 2 remove 3 has 4 size 5 clear
static std::string text(const Op& o) {
	auto w = " [" + std::to_string(o.from) + "," + std::to_string(o.to) + "]";
	switch (o.kind) { case 0: return "set " + o.k + "=" + show(o.v, 20) + w; case 1: return "get " + o.k + " -> " + show(o.got, 20) + w; case 2: return "remove " + o.k + w; case 3: return "has " + o.k + " -> " + std::to_string(o.n) + w; case 4: return "size -> " + std::to_string(o.n) + w; default: return "clear" + w; }
}
static bool step(Map& m, const Op& o) {
	switch (o.kind) {
		case 0: m[o.k] = o.v; return true; case 1: { auto i = m.find(o.k); return o.got == (i == m.end() ? "" : i->second); } case 2: m.erase(o.k); return true;
		case 3: return o.n == m.count(o.k); case 4: return o.n == m.size(); default: m.clear(); return true;
	}
}
// Wing & Gong search for a linearisation that ends in the given state
struct Lin {
	const std::vector<std::vector<Op>>& h; const Map& fin; std::unordered_set<uint64_t> dead; size_t steps = 0;
	bool search(std::vector<size_t>& pos, const Map& m) {
		if (++steps > 400000) return true;	// undecided counts as fine
		bool end = true; uint64_t minret = UINT64_MAX; for (size_t t = 0; t < h.size(); t++) if (pos[t] < h[t].size()) { end = false; minret = std::min(minret, h[t][pos[t]].to); }
		if (end) return m == fin;
		uint64_t key = hash64(pos.data(), pos.size() * sizeof(size_t)); for (auto& x : m) key = hash64(x.second, hash64(x.first, key)); if (dead.count(key)) return false;
		for (size_t t = 0; t < h.size(); t++) if (pos[t] < h[t].size() && h[t][pos[t]].from < minret) { Map n = m; if (!step(n, h[t][pos[t]])) continue; pos[t]++; if (search(pos, n)) return true; pos[t]--; }
		dead.insert(key); return false;
	}
};
static void run_ops(Store& st, std::vector<std::vector<Op>>& h) {
	std::atomic<uint64_t> clock{ 1 }; std::atomic<size_t> go{ 0 }; std::vector<std::thread> t; size_t n = h.size();
	for (auto& ops : h) t.emplace_back([&] { go++; while (go < n) {} for (auto& o : ops) { o.from = clock.fetch_add(1); switch (o.kind) { case 0: st.setItem(o.k, o.v); break; case 1: o.got = st.getItem(o.k); break; case 2: st.removeItem(o.k); break; case 3: o.n = st.hasItem(o.k); break; case 4: o.n = st.size(); break; default: st.clear(); } o.to = clock.fetch_add(1); } });
	for (auto& x : t) x.join();
}
static Map state(Store& st, const std::vector<std::string>& keys) { Map m; for (auto& k : keys) if (st.hasItem(k)) m[k] = st.getItem(k); return m; }
static void linear(Src& s, Case& c) {
	std::vector<std::string> keys{ "a", "b", "c" }; size_t nt = 2 + s.below(3); auto f = file(); unlink(f.c_str()); delay_seed = s.upto(0xffffff) | 1; std::vector<std::vector<Op>> h(nt); bool overlap = false, wr = false;
	for (size_t i = 0; i < nt; i++) { size_t k = 1 + s.below(8); for (size_t j = 0; j < k; j++) { Op o; o.kind = s.weighted({ 6, 5, 3, 3, 2, 1 }); o.k = keys[s.below(3)]; o.v = std::to_string(i) + "." + std::to_string(j) + std::string(s.chance(1, 5) ? s.len(3000) : 0, 'x'); h[i].push_back(o); } }
	{ std::string plan; for (size_t i = 0; i < nt; i++) { plan += "thread " + std::to_string(i) + ":"; for (auto& o : h[i]) { auto t = text(o); plan += " " + t.substr(0, t.find(" [")) + ";"; } plan += "\n"; } c.note("planned (results not filled in)\n" + plan); }
	Map fin; { Store st(f); run_ops(st, h); delay_seed = 0; fin = state(st, keys); c.check(st.size() == fin.size(), "size differs from the keys present"); }
	std::string all; for (size_t i = 0; i < nt; i++) { all += "thread " + std::to_string(i) + ":"; for (auto& o : h[i]) { all += " " + text(o) + ";"; wr |= o.kind == 0; for (size_t j = 0; j < nt; j++) if (j != i) for (auto& p : h[j]) overlap |= p.from < o.to && o.from < p.to; } all += "\n"; } c.note("executed\n" + all);
	Lin l{ h, fin, {} }; std::vector<size_t> pos(nt, 0); c.check(l.search(pos, {}), "the history has no linearisation that ends in the final state"); if (l.steps > 400000) c.label("undecided");
	{ Store st(f); auto m = state(st, keys); c.checkf(m == fin && st.size() == fin.size(), [&] { return "a reopen finds other contents than the final state (" + std::to_string(m.size()) + " keys, expected " + std::to_string(fin.size()) + ")"; }); } unlink(f.c_str()); c.nontrivial(overlap && wr);
}
static void heavy(Src& s, Case& c) {
	std::vector<std::string> keys; for (int i = 0; i < 40; i++) keys.push_back("key" + std::to_string(i)); size_t nt = 2 + s.below(6), per = 50 + s.below(250); auto f = file(); unlink(f.c_str()); uint64_t seed = s.upto(0xffffffff); bool clr = s.chance(1, 3); c.note(std::to_string(nt) + " threads, " + std::to_string(per) + " operations each, seed " + std::to_string(seed)); std::vector<std::vector<Op>> h(nt); delay_seed = 0;
	auto val = [](size_t t, size_t j, size_t n) { auto u = std::to_string(t) + "/" + std::to_string(j) + "/" + std::to_string(n) + ";"; std::string o; while (o.size() < n + u.size()) o += u; return o; };
	for (size_t i = 0; i < nt; i++) { Rng r(seed + i); for (size_t j = 0; j < per; j++) { Op o; auto x = r.below(20); o.kind = x < 8 ? 0 : x < 13 ? 1 : x < 16 ? 2 : x < 18 ? 3 : x < 19 || !clr ? 4 : 5; o.k = keys[r.below(keys.size())]; if (o.kind == 0) o.v = val(i, j, r.below(4) ? r.below(50) : r.below(5000)); h[i].push_back(o); } }
	std::map<std::string, std::set<std::string>> written; for (auto& t : h) for (auto& o : t) if (o.kind == 0) written[o.k].insert(o.v); Map fin;
	{ Store st(f); run_ops(st, h); fin = state(st, keys); c.check(st.size() == fin.size(), "size differs from the keys present"); }
	for (auto& t : h) for (auto& o : t) { if (o.kind == 1 && o.got.size()) c.checkf(written[o.k].count(o.got), [&] { return "get " + o.k + " returned " + show(o.got, 60) + " which nobody wrote"; }); if (o.kind == 4) c.check(o.n <= keys.size(), "impossible size"); }
	for (auto& x : fin) c.checkf(written[x.first].count(x.second), [&] { return x.first + " holds a value nobody wrote"; });
	{ Store st(f); auto m = state(st, keys); c.check(m == fin && st.size() == fin.size(), "a reopen finds other contents than the final state"); } unlink(f.c_str()); c.nontrivial(fin.size() > 3);
}
int main(int argc, char** argv) {
	return run(argc, argv, "C15", {
		{ "linear", linear, 6000, 200000, "short concurrent histories with delays around the log writes, searched for a linearisation ending in the observed and reopened state; non-trivial: overlapping operations and writes", 6, 30, 30, false, true },
		{ "heavy", heavy, 250, 8000, "2-7 threads on 40 keys, values identify their writer; reads must be written values, the reopened state the final one; non-trivial: keys remain", 4, 60, 30, false, true },
	});
}
