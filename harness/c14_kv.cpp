// C14: key-value storage against a map model, with kills, faults and damage
#include "pbt.hpp"
#include <extra/kvstorage/kvstorage.hpp>
#include <dirent.h>
#include <dlfcn.h>
#include <optional>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/mman.h>
using namespace pbt; typedef Lambda::Storage::KVStorage::StorageInterface Store; typedef std::map<std::string, std::string> Map;
// ------------------------------------------------------------ file system effects
struct Fx {	// called around every file system effect while armed
	bool armed = false; std::function<void(const char*)> before;
	std::function<size_t(size_t)> split;				// bytes to write before a snapshot (0: none)
	std::function<int(const char*, size_t*)> fault;		// errno to fail with; may shorten a write
};
static Fx fx;
static bool enter(const char* what, int& err, size_t* n = nullptr) { err = 0; if (!fx.armed) return false; fx.armed = false; if (fx.before) fx.before(what); if (fx.fault) err = fx.fault(what, n); fx.armed = true; return true; }
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" {
ssize_t write(int fd, const void* b, size_t n) {
	int e; size_t k = n; if (fd > 2 && enter("write", e, &k)) { if (e) { errno = e; return -1; } if (k < n) return syscall(SYS_write, fd, b, k); if (fx.split && n > 1) { size_t p = fx.split(n); if (p && p < n) { ssize_t r = syscall(SYS_write, fd, b, p); if (r != (ssize_t)p) return r; fx.armed = false; fx.before("rest of write"); fx.armed = true; ssize_t q = syscall(SYS_write, fd, (const char*)b + p, n - p); return q < 0 ? q : q + r; } } }
	return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const iovec* v, int c) {
	int e; if (fx.armed && fd > 2) { std::string all; for (int i = 0; i < c; i++) all.append((const char*)v[i].iov_base, v[i].iov_len); return write(fd, all.data(), all.size()); }
	(void)e; return syscall(SYS_writev, fd, v, c);
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { int e; if (enter("pwrite", e) && e) { errno = e; return -1; } return syscall(SYS_pwrite64, fd, b, n, o); }
FILE* fopen(const char* p, const char* m) { int e; if (*m != 'r' && enter("open", e) && e) { errno = e; return nullptr; } return real<FILE* (*)(const char*, const char*)>("fopen")(p, m); }
FILE* fopen64(const char* p, const char* m) { int e; if (*m != 'r' && enter("open", e) && e) { errno = e; return nullptr; } return real<FILE* (*)(const char*, const char*)>("fopen64")(p, m); }
int rename(const char* a, const char* b) noexcept { int e; if (enter("rename", e) && e) { errno = e; return -1; } return syscall(SYS_rename, a, b); }
int truncate(const char* p, off_t n) noexcept { int e; if (enter("truncate", e) && e) { errno = e; return -1; } return syscall(SYS_truncate, p, n); }
int truncate64(const char* p, off64_t n) noexcept { int e; if (enter("truncate", e) && e) { errno = e; return -1; } return syscall(SYS_truncate, p, n); }
int ftruncate(int f, off_t n) noexcept { int e; if (enter("truncate", e) && e) { errno = e; return -1; } return syscall(SYS_ftruncate, f, n); }
int ftruncate64(int f, off64_t n) noexcept { int e; if (enter("truncate", e) && e) { errno = e; return -1; } return syscall(SYS_ftruncate, f, n); }
int unlink(const char* p) noexcept { int e; if (enter("unlink", e) && e) { errno = e; return -1; } return syscall(SYS_unlink, p); }
int remove(const char* p) noexcept { int e; if (enter("unlink", e) && e) { errno = e; return -1; } return syscall(SYS_unlink, p); }
}
// ------------------------------------------------------------ scratch
static std::string dir() { static std::string d; static pid_t p = 0; if (p != getpid()) { p = getpid(); d = std::string(getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "/tmp") + "/kv" + std::to_string(p); mkdir(d.c_str(), 0700); } return d; }
static std::string slurp(const std::string& f) { int fd = open(f.c_str(), O_RDONLY); std::string o; if (fd < 0) return o; char b[65536]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) o.append(b, n); close(fd); return o; }
static void spew(const std::string& f, const std::string& d) { int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); size_t p = 0; while (p < d.size()) { ssize_t n = syscall(SYS_write, fd, d.data() + p, d.size() - p); if (n <= 0) abort(); p += n; } close(fd); }
typedef std::map<std::string, std::string> Dir;	// files of a directory
static Dir snap(const std::string& d) { Dir o; if (auto h = opendir(d.c_str())) { while (auto e = readdir(h)) if (e->d_type == DT_REG) o[e->d_name] = slurp(d + "/" + e->d_name); closedir(h); } return o; }
static void wipe(const std::string& d) { if (auto h = opendir(d.c_str())) { while (auto e = readdir(h)) if (e->d_type == DT_REG) syscall(SYS_unlink, (d + "/" + e->d_name).c_str()); closedir(h); } }
static void restore(const std::string& d, const Dir& s) { wipe(d); for (auto& f : s) spew(d + "/" + f.first, f.second); }
static std::string sub(const char* n) { auto d = dir() + "/" + n; mkdir(d.c_str(), 0700); wipe(d); return d; }
// ------------------------------------------------------------ operations
struct Op { int kind; std::string k, v; };	// 0 set 1 remove 2 clear 3 reopen
static std::string key(Src& s) {
	switch (s.weighted({ 6, 2, 1 })) { case 0: return s.pick({ "a", "b", "key", "", "K", "a\nb" }); case 1: return s.bytestr(s.below(12)); default: return s.bytestr(s.chance(1, 6) ? s.pick({ 65535u, 65534u, 32768u }) : s.len(400)); }
}
static Op gen(Src& s, const Map& m, bool big) {
	Op o; o.kind = s.weighted({ 10, 4, 1, 2 }); o.k = m.size() && s.flip() ? [&] { auto it = m.begin(); std::advance(it, s.below(m.size())); return it->first; }() : key(s); if (o.kind == 0) o.v = s.bytestr(big && s.chance(1, 20) ? s.len(1 << 20) : s.len(300)); return o;
}
static void put(Map& m, const Op& o) { if (o.kind == 0) m[o.k] = o.v; else if (o.kind == 1) m.erase(o.k); else if (o.kind == 2) m.clear(); }
static std::string text(const Op& o) { return o.kind == 0 ? "set " + show(o.k, 40) + " = " + show(o.v, 40) : o.kind == 1 ? "remove " + show(o.k, 40) : o.kind == 2 ? "clear" : "reopen"; }
static void exec(Store& s, const Op& o) { if (o.kind == 0) s.setItem(o.k, o.v); else if (o.kind == 1) s.removeItem(o.k); else if (o.kind == 2) s.clear(); }
static std::string diff(Store& st, const Map& m, const std::set<std::string>& keys) {
	for (auto& k : keys) { auto it = m.find(k); if (st.hasItem(k) != (it != m.end())) return show(k, 60) + (it == m.end() ? " is present but should not be" : " is missing"); auto v = st.getItem(k); if (it != m.end() ? v != it->second : !v.empty()) return show(k, 60) + " is " + show(v, 60) + (it != m.end() ? ", expected " + show(it->second, 60) : ", expected nothing"); }
	if (st.size() != m.size()) return "size is " + std::to_string(st.size()) + ", expected " + std::to_string(m.size()); return "";
}
// ------------------------------------------------------------ history
static void history(Src& s, Case& c) {
	auto d = sub("h"); if (chdir(d.c_str())) c.fail("chdir"); std::string f; switch (s.below(6)) { case 0: f = d + "/x.ldb"; break; case 1: f = "x.ldb"; break; case 2: f = "./x"; break; case 3: f = "link.ldb"; break; case 4: f = d + "/sub/deep/x.ldb"; break; default: break; }
	auto make = [&](const std::string& n) { return n.empty() ? new Store() : new Store(n); };	// no name: the default file of the working directory c.note("file " + (f.empty() ? "by default" : f));
	bool linked = f == "link.ldb"; auto real = d + "/real.ldb"; if (linked) { unlink("link.ldb"); { Store q(real); } if (symlink(s.flip() ? real.c_str() : "real.ldb", "link.ldb")) c.fail("symlink"); c.label("through a link"); } auto name = [&] { return linked && s.flip() ? real : f; };
	std::unique_ptr<Store> st(make(name())); Map m; std::set<std::string> keys; bool reopened = false, removed = false; size_t n = 1 + s.count(30);
	mode_t mode = 0; auto kept = [&] { struct stat b; c.checkf(!mode || (stat(f.c_str(), &b) == 0 && (b.st_mode & 07777) == mode), [&] { return "the file had mode " + std::to_string(mode) + ", now it's " + std::to_string(b.st_mode & 07777); }); };
	for (size_t i = 0; i < n; i++) {
		if (f.size() && s.chance(1, 12)) { mode = s.pick({ 0600, 0640, 0644, 0660, 0666, 0755 }); chmod(f.c_str(), mode); c.note("chmod " + std::to_string(mode)); c.label("file mode changed"); }
		auto o = gen(s, m, true); bool over = o.kind < 2 && s.chance(1, 60); if (over) o.k += std::string(65536 - std::min<size_t>(65535, o.k.size()) + s.below(3), 'L'); keys.insert(o.k); c.note(text(o));
		if (over && o.k.size() > 65535) { bool threw = false; try { exec(*st, o); } catch (const std::exception&) { threw = true; } c.check(threw || o.kind == 1, "a key over the format's limit was accepted"); c.label("key too long"); }
		else if (o.kind == 3) { st.reset(); st.reset(make(name())); kept(); if (m.size()) reopened = true; }
		else { removed |= o.kind == 1 && m.count(o.k); exec(*st, o); put(m, o); }
		auto e = diff(*st, m, keys); c.checkf(e.empty(), [&] { return "after " + text(o) + ": " + e; });
	}
	kept(); if (s.chance(1, 8)) { st.reset(); fflush(nullptr); pid_t p = fork(); if (!p) { std::string e = "?"; try { std::unique_ptr<Store> q(make(f)); e = diff(*q, m, keys); } catch (const std::exception& x) { e = x.what(); } _exit(e.empty() ? 0 : 9); } int w; waitpid(p, &w, 0); c.check(WIFEXITED(w) && WEXITSTATUS(w) == 0, "another process opening the file sees something else"); c.label("other process"); }
	else { st.reset(); for (int i = 0; i < 1 + linked; i++) { std::unique_ptr<Store> q(make(i ? real : f)); auto e = diff(*q, m, keys); c.checkf(e.empty(), [&] { return std::string("after reopening") + (i ? " the file itself: " : ": ") + e; }); kept(); } }
	if (linked) unlink("link.ldb"); if (f.find("deep") != std::string::npos) { wipe(d + "/sub/deep"); rmdir((d + "/sub/deep").c_str()); rmdir((d + "/sub").c_str()); } c.nontrivial(reopened && removed);
}
// ------------------------------------------------------------ kill points
struct Point { Dir files; size_t done; bool inflight; std::string where; };
static void kill_points(Src& s, Case& c) {
	auto d = sub("k"); auto f = d + "/x.ldb"; std::vector<Op> ops; std::vector<Map> states{ {} }; std::set<std::string> keys; size_t n = 1 + s.count(14);
	for (size_t i = 0; i < n; i++) { auto o = gen(s, states.back(), false); if (o.k.size() > 1000) o.k.resize(1000); ops.push_back(o); keys.insert(o.k); auto m = states.back(); put(m, o); states.push_back(m); c.note(text(o)); }
	std::vector<Point> pts; size_t done = 0; bool inflight = false, record = true; uint64_t sd = s.upto(0xffffffff); Rng r(sd); std::string cur = "open";
	fx.before = [&](const char* w) { if (record) pts.push_back({ snap(d), done, inflight, cur + ": before " + w }); }; fx.split = [&](size_t k) { return r.below(3) ? 1 + r.below(k - 1) : 0; }; fx.fault = nullptr;
	struct Off { ~Off() { fx = Fx(); } } off;
	fx.armed = true;
	{ std::unique_ptr<Store> st(new Store(f)); for (auto& o : ops) { inflight = true; cur = text(o); if (o.kind == 3) { st.reset(); st.reset(new Store(f)); } else exec(*st, o); done++; inflight = false; fx.before("return"); } cur = "close"; st.reset(); fx.before("end"); }
	fx.armed = false;
	auto d2 = sub("k2"); auto f2 = d2 + "/x.ldb";
	auto matches = [&](Store& q, const Point& p) { std::string e = diff(q, states[p.done], keys); if (!e.empty() && p.inflight && diff(q, states[p.done + 1], keys).empty()) e.clear(); return e; };
	std::set<uint64_t> seen; size_t second = 0, torn = 0;
	for (auto& p : pts) {
		uint64_t h = p.done * 2 + p.inflight; for (auto& x : p.files) h = hash64(x.second, hash64(x.first, h)); if (!seen.insert(h).second) continue;
		restore(d2, p.files); std::vector<Point> again; record = true; fx.before = [&](const char* w) { again.push_back({ snap(d2), p.done, p.inflight, "killed at [" + p.where + "], then killed while reopening before " + w }); }; torn += p.where.find("rest of") != std::string::npos;
		fx.armed = true; std::string e; try { Store q(f2); fx.armed = false; e = matches(q, p); if (e.empty()) { q.setItem("after", "crash"); } } catch (const std::exception& x) { e = std::string("does not open: ") + x.what(); } fx.armed = false;
		c.checkf(e.empty(), [&] { return "killed at [" + p.where + "] after " + std::to_string(p.done) + " operations: " + e; });
		{ Store q(f2); c.checkf(q.getItem("after") == "crash", [&] { return "killed at [" + p.where + "]: an operation after the recovery is lost at the next open"; }); }
		// a second kill during the recovery
		if (again.size()) { auto& a = again[r.below(again.size())]; restore(d2, a.files); try { Store q(f2); e = matches(q, a); } catch (const std::exception& x) { e = std::string("does not open: ") + x.what(); } c.checkf(e.empty(), [&] { return a.where + ": " + e; }); second++; }
	}
	c.label("kill points", seen.size()); c.label("torn writes", torn); c.label("kills during recovery", second); c.nontrivial(torn && n > 2);
}
// ------------------------------------------------------------ failing effects
static void faults(Src& s, Case& c) {
	auto d = sub("f"); auto f = d + "/x.ldb"; Map m; std::set<std::string> keys; size_t n = 2 + s.count(20); struct Off { ~Off() { fx = Fx(); } } off; bool nt = false, benign_only = s.chance(1, 4);
	std::unique_ptr<Store> st(new Store(f)); int arm = -1, len = 0, err = 0; size_t part = 0; bool hit = false, hard = false; bool shortened = false;
	fx.fault = [&](const char* w, size_t* k) -> int {
		if (arm < 0) return 0; if (arm > 0) { arm--; return 0; } hit = true; bool wr = !strcmp(w, "write");
		if (benign_only) { arm = -1; if (!wr) return 0; if (err == EINTR) return EINTR; if (k && *k > 1) *k = 1 + part % (*k - 1); return 0; }
		if (wr && part && !shortened && k && *k > 1) { *k = 1 + part % (*k - 1); shortened = true; return 0; }	// a short write, the next one fails
		hard = true; if (len > 0 && --len == 0) arm = -1; return err;
	};
	for (size_t i = 0; i < n; i++) {
		auto o = gen(s, m, false); if (o.k.size() > 2000) o.k.resize(2000); keys.insert(o.k); hit = hard = shortened = false; bool f_on = s.chance(1, 3);
		if (f_on) { arm = s.below(o.kind == 3 ? 6 : 2); len = 1 + s.below(4); err = benign_only ? (s.flip() ? EINTR : 0) : s.pick({ ENOSPC, EIO, EDQUOT }); part = s.flip() ? 1 + s.below(4000) : 0; } else arm = -1;
		c.note(text(o) + (f_on ? " with effect " + std::to_string(arm) + "+ failing " + std::to_string(len) + " times with " + (err ? strerror(err) : "a short write") + (part ? " after a partial write" : "") : "")); bool threw = false; std::string what; Dir old; if (o.kind == 3) { st.reset(); old = snap(d); }
		fx.armed = true; try { if (o.kind == 3) st.reset(new Store(f)); else exec(*st, o); } catch (const std::exception& e) { threw = true; what = e.what(); } fx.armed = false; arm = -1;
		if (threw) {
			c.checkf(hard, [&] { return text(o) + " failed although " + (hit ? "only an interrupted or short write happened: " : "nothing went wrong: ") + what; }); nt = true;
			c.label(o.kind == 3 ? "open failed" : "operation failed");
			if (o.kind == 3) { st.reset(new Store(f)); }
			else { auto e = diff(*st, m, keys); c.checkf(e.empty(), [&] { return text(o) + " failed but had an effect: " + e; }); if (s.flip()) { try { Op p{ 0, "probe", "1" }; keys.insert("probe"); st->setItem(p.k, p.v); put(m, p); } catch (const std::exception&) { c.label("unusable until reopened"); st.reset(); st.reset(new Store(f)); } } else { st.reset(); st.reset(new Store(f)); } }
		} else { put(m, o); if (hard) c.label("survived a fault"); if (hit && !hard) { c.label("short or interrupted write"); nt |= benign_only; } }
		auto e = diff(*st, m, keys); c.checkf(e.empty(), [&] { return "after " + text(o) + ": " + e; });
		if (s.chance(1, 4)) { st.reset(); st.reset(new Store(f)); e = diff(*st, m, keys); c.checkf(e.empty(), [&] { return "after " + text(o) + (threw ? " (failed)" : "") + " and a reopen: " + e; }); }
	}
	st.reset(); Store q(f); auto e = diff(q, m, keys); c.checkf(e.empty(), [&] { return "after a final reopen: " + e; }); c.nontrivial(nt);
}
// ------------------------------------------------------------ damage
static void damage(Src& s, Case& c) {
	auto d = sub("d"); auto f = d + "/x.ldb"; std::vector<Map> states{ {} }; std::set<std::string> keys; size_t n = s.count(12); { Store st(f); for (size_t i = 0; i < n; i++) { auto o = gen(s, states.back(), false); if (o.kind == 3) o.kind = 1; if (o.k.size() > 3000) o.k.resize(3000); c.note(text(o)); exec(st, o); keys.insert(o.k); auto m = states.back(); put(m, o); states.push_back(m); } }
	auto raw = slurp(f), bad = raw; std::string what; bool refuse = false, prefix = false;
	switch (s.weighted({ 5, 3, 1, 1, 2 })) {
		case 0: { size_t k = s.below(raw.size() + 1); bad.resize(k); prefix = true; what = "truncated to " + std::to_string(k) + " of " + std::to_string(raw.size()); c.nontrivial(k > 8 && k < raw.size()); } break;
		case 1: { size_t p = s.below(raw.size()); uint8_t x = 1 + s.below(255); bad[p] ^= x; what = "byte " + std::to_string(p) + " of " + std::to_string(raw.size()) + " xor " + std::to_string(x); refuse = p < 8; c.nontrivial(p >= 8); } break;
		case 2: bad = s.bytestr(s.len(2000)); refuse = bad.size() >= 8 && bad.compare(0, 6, raw, 0, 6); what = "garbage of " + std::to_string(bad.size()) + " bytes"; break;
		case 3: { size_t k = 1 + s.below(40); bad += s.bytestr(k); what = "followed by " + std::to_string(k) + " bytes"; } break;
		default: { size_t a = s.below(raw.size()), k = 1 + s.below(40); auto ins = s.bytestr(k); if (s.flip()) bad.insert(a, ins); else bad.erase(a, k); refuse = false; what = "cut or spliced at " + std::to_string(a); c.nontrivial(); } break;
	}
	c.note(what); wipe(d); spew(f, bad); bool ok = true; std::string why; Map now; std::set<std::string> all = keys;
	try {
		Store q(f); if (prefix) { bool any = false; std::string e; for (auto& m : states) { e = diff(q, m, keys); any |= e.empty(); } c.checkf(any, [&] { return what + ": opened with contents that match no prefix of the operations (" + e + " compared with all of them)"; }); }
		for (auto& k : keys) if (q.hasItem(k)) now[k] = q.getItem(k); size_t others = q.size() - now.size(); q.setItem("fresh", "value"); bool had = now.count("fresh"); now["fresh"] = "value"; (void)had;
		c.checkf(q.size() >= now.size() && q.size() <= now.size() + others, [&] { return what + ": size changed strangely"; });
	} catch (const std::exception& e) { ok = false; why = e.what(); }
	c.checkf(!(ok && refuse), [&] { return what + ": opened a file of another format"; }); c.label(ok ? "opened" : "refused");
	if (!ok) { c.checkf(slurp(f) == bad, [&] { return what + ": refused (" + why + ") but modified the file"; }); }
	else { Store q(f); for (auto& k : keys) if (k != "fresh") { auto it = now.find(k); c.checkf(q.hasItem(k) == (it != now.end()) && (it == now.end() || q.getItem(k) == it->second), [&] { return what + ": " + show(k, 40) + " changed at the next open"; }); } c.checkf(q.getItem("fresh") == "value", [&] { return what + ": a new value was lost"; }); }
}
// ------------------------------------------------------------ real kills
static void killed(Src& s, Case& c) {
	auto d = sub("r"); auto f = d + "/x.ldb"; struct Sh { std::atomic<uint64_t> started, done; }; auto sh = (Sh*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (sh) Sh{}; uint64_t seed = s.upto(0xffffffff); size_t rounds = 1 + s.below(3); bool reopen = s.flip(); std::string log;
	auto op = [](uint64_t seed, uint64_t i) { Rng r(seed + i * 7919); Op o; o.kind = r.below(20) == 0 ? 2 : r.below(4) == 0 ? 1 : 0; o.k = std::string("key") + char('a' + r.below(6)); if (r.below(10) == 0) o.k.resize(1 + r.below(9000), 'k'); if (o.kind == 0) o.v = std::string(r.below(5) ? r.below(60) : r.below(200000), 'a' + r.below(26)); return o; };
	Map m; std::set<std::string> keys; uint64_t base = 0;
	for (size_t i = 0; i < rounds; i++) {
		unsigned delay = s.below(12000); c.note("kill after " + std::to_string(delay) + " us"); pid_t p = fork();
		if (!p) { try { std::unique_ptr<Store> st(new Store(f)); for (uint64_t k = base; k < base + 3000; k++) { auto o = op(seed, k); sh->started = k + 1; exec(*st, o); sh->done = k + 1; if (reopen && k % 7 == 6) { st.reset(); st.reset(new Store(f)); } } } catch (const std::exception&) { _exit(5); } _exit(0); }
		usleep(delay); kill(p, SIGKILL); int w; waitpid(p, &w, 0); c.check(WIFSIGNALED(w) || WEXITSTATUS(w) == 0, "the storing process failed");
		uint64_t a = std::max<uint64_t>(sh->done, base), b = std::max<uint64_t>(sh->started, base); for (uint64_t k = base; k < a; k++) { auto o = op(seed, k); put(m, o); keys.insert(o.k); } auto m2 = m; if (b > a) { auto o = op(seed, a); put(m2, o); keys.insert(o.k); }
		if (a == 0 && access(f.c_str(), F_OK)) { c.label("killed before the first open ended"); continue; }
		Store q(f); auto e = diff(q, m, keys); bool second = false; if (!e.empty() && b > a) { second = diff(q, m2, keys).empty(); if (second) m = m2; }
		c.checkf(e.empty() || second, [&] { return "killed after " + std::to_string(a) + " completed operations" + (b > a ? " with one in flight" : "") + ": " + e; }); c.label("operations completed", a - base); if (a > base) c.nontrivial(); base = b; sh->done = sh->started = b;
	}
	munmap(sh, 4096);
}
int main(int argc, char** argv) {
	return run(argc, argv, "C14", {
		{ "history", history, 6000, 150000, "histories of set/remove/clear/reopen over arbitrary keys and values against a map, reopened at the end here or in another process; non-trivial: a reopen with contents and a removal of a present key", 8, 30, 40 },
		{ "kill_points", kill_points, 1500, 40000, "the file system state at every effect (and inside writes) of a history becomes a crash image; each is reopened, used, and killed again while reopening; non-trivial: a torn write", 8, 60, 40 },
		{ "faults", faults, 4000, 100000, "histories in which opens, writes, renames or truncations fail (ENOSPC, EIO, EDQUOT, after partial writes) or are interrupted or short; non-trivial: a reported failure or a survived interruption", 8, 30, 30 },
		{ "damage", damage, 8000, 200000, "truncated, flipped, spliced, extended and foreign files; non-trivial: damage after the file header", 8, 30, 30 },
		{ "killed", killed, 600, 20000, "a process writing continuously is killed by SIGKILL at a random moment, up to three times in a row; non-trivial: operations were completed", 8, 30, 30 },
	});
}
