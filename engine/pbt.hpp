// Property-based testing engine: choice-sequence generators, forked workers,
// crash/hang containment, integrated shrinking, replay files, coverage-guided
// mutation of choice sequences, evidence output. Header only, no dependencies.
#pragma once
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cinttypes>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace pbt {

using Bytes = std::vector<uint8_t>;

inline uint64_t splitmix(uint64_t& s) {
	uint64_t z = (s += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed) { splitmix(s); }
	uint64_t next() { return splitmix(s); }
	uint64_t below(uint64_t n) { return n ? next() % n : next(); }	// [0,n)
};
inline uint64_t hash64(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
	auto b = (const uint8_t*)p;
	for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ull; }
	return h;
}
inline uint64_t hash64(const std::string& s, uint64_t h = 0xcbf29ce484222325ull) { return hash64(s.data(), s.size(), h); }

inline double now_s() {
	return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ---------------------------------------------------------------- shared memory
constexpr size_t CAP_CHOICES = 1 << 16, CAP_HASH = 1 << 19, CAP_LABELS = 48, CAP_SAMPLES = 3, SAMPLE_LEN = 3000;
struct Shm {
	volatile uint64_t cur_case, state;	// state: 0 idle 1 running 2 failed 3 finished
	volatile double started; volatile uint64_t stop;
	uint64_t evals, nontrivial, discarded, nhash;
	uint64_t nchoice, caseseed;
	uint64_t corpus, edges;
	char msg[16384];
	char note[32768];
	struct { char name[56]; uint64_t n; } labels[CAP_LABELS];
	uint64_t nsamples;
	char samples[CAP_SAMPLES][SAMPLE_LEN];
	uint64_t choice[CAP_CHOICES];
	uint64_t hashes[CAP_HASH];
};

struct Failure { std::string msg; };
struct Discard {};

// dictionary of integers and strings taken from the code under test
struct Dict {
	std::vector<uint64_t> ints;	// sorted, unique
	std::vector<std::string> strs;
	std::set<uint64_t> seen;
	void add(uint64_t v) { if (v >= 2 && v <= (64u << 20) && ints.size() < 6000 && seen.insert(v).second) ints.push_back(v); }
};
inline Dict& dict() { static Dict d; return d; }

// ---------------------------------------------------------------- choice source
class Src {
	Shm* shm; Rng rng;
	const std::vector<uint64_t>* rep = nullptr; size_t pos = 0; bool extend = false;
public:
	Src(Shm* m, uint64_t seed) : shm(m), rng(seed) { shm->nchoice = 0; }
	Src(Shm* m, const std::vector<uint64_t>* r, bool ext, uint64_t seed = 1) : shm(m), rng(seed), rep(r), extend(ext) { shm->nchoice = 0; }
	size_t used() const { return pos; }
	bool replaying() const { return rep != nullptr; }

	// one recorded choice in [0,max]; `fresh` proposes the value when not replaying
	template <class F> uint64_t choice(uint64_t max, F fresh) {
		uint64_t v;
		if (rep && pos < rep->size()) {
			v = (*rep)[pos++];
			if (v > max) v = max == UINT64_MAX ? v : v % (max + 1);
		} else if (rep && !extend) { pos++; v = 0; }
		else { v = fresh(rng); if (v > max) v = max == UINT64_MAX ? v : v % (max + 1); }
		if (shm->nchoice >= CAP_CHOICES) throw Discard{};
		shm->choice[shm->nchoice++] = v;
		return v;
	}
	uint64_t upto(uint64_t max) { return choice(max, [&](Rng& r) { return max == UINT64_MAX ? r.next() : r.below(max + 1); }); }
	uint64_t below(uint64_t n) { return upto(n - 1); }
	int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)upto((uint64_t)(hi - lo)); }
	// true with probability num/den; shrinks to false
	bool chance(unsigned num, unsigned den) { return choice(1, [&](Rng& r) -> uint64_t { return r.below(den) < num; }); }
	bool flip() { return chance(1, 2); }
	// weighted alternative; index 0 is the simplest
	size_t weighted(std::initializer_list<unsigned> w) {
		uint64_t tot = 0; for (auto x : w) tot += x;
		size_t k = choice(w.size() - 1, [&](Rng& r) -> uint64_t { auto v = r.below(tot); size_t i = 0; for (auto x : w) { if (v < x) return i; v -= x; i++; } return 0; });
		return *(w.begin() + k) ? k : 0;	// shrinking may have chosen an alternative that is excluded here
	}
	template <class C> auto pick(const C& c) -> decltype(*std::begin(c)) {
		auto it = std::begin(c); std::advance(it, below(std::size(c))); return *it;
	}
	template <class T> const T& pick(std::initializer_list<T> c) { return *(c.begin() + below(c.size())); }
	const char* pick(std::initializer_list<const char*> c) { return *(c.begin() + below(c.size())); }

	// a length/size in [0,max], biased to small values, boundaries and constants of the code under test
	uint64_t len(uint64_t max) {
		return choice(max, [&](Rng& r) -> uint64_t {
			uint64_t v = 0;
			switch (r.below(8)) {
				case 0: v = r.below(4); break;
				case 1: v = r.below(17); break;
				case 2: v = r.below(80); break;
				case 3: { int b = r.below(64 - (max ? __builtin_clzll(max) : 63)); v = (1ull << b) + r.below(1ull << b); } break;
				case 4: { int b = r.below(64 - (max ? __builtin_clzll(max) : 63) + 1); v = (b >= 63 ? max : (1ull << b)) + r.below(5) - 2; } break;
				case 5: case 6: {
					auto& d = dict().ints;
					if (d.empty()) { v = r.below(max + 1); break; }
					for (int i = 0; i < 6; i++) { v = d[r.below(d.size())]; if (v <= max + 2) break; }
					v += r.below(2) ? 0 : r.below(5) - 2;
				} break;
				default: v = max > 300 ? r.below(300) : r.below(max + 1); break;
			}
			return (int64_t)v < 0 ? 0 : v > max ? r.below(std::min<uint64_t>(max, 64) + 1) : v;
		});
	}
	// number of elements: geometric-ish small
	size_t count(size_t max) { return choice(max, [&](Rng& r) -> uint64_t { uint64_t m = r.below(4) ? std::min<size_t>(max, 6) : max; return r.below(m + 1); }); }

	// n bytes; long content is expanded from one recorded seed so that cases stay small
	Bytes bytes(size_t n) {
		Bytes out; out.reserve(n);
		if (n <= 24) { for (size_t i = 0; i < n; i++) out.push_back((uint8_t)choice(255, [](Rng& r) -> uint64_t { auto v = r.next(); return (v & 0x300) ? ((v & 0x400) ? 32 + (v & 63) : v & 255) : ((v & 0x400) ? 0 : 255); })); return out; }
		auto mode = weighted({ 3, 1, 1, 2, 2 }); Rng r(upto(0xffffffff) * 7919 + 13);
		return expand(r, mode, n);
	}
	static Bytes expand(Rng& r, size_t mode, size_t n) {
		Bytes out(n);
		switch (mode) {
			case 0: for (auto& c : out) c = "abcdefghijklmnopqrstuvwxyz ABCDEF\r\n\t0123456789-_.,;:"[r.below(53)]; break;
			case 1: break;
			case 2: { uint8_t c = r.next(); for (auto& x : out) x = c; } break;
			case 3: { size_t p = 1 + r.below(300); for (size_t i = 0; i < n; i++) out[i] = i < p ? r.next() : out[i - p]; } break;
			default: for (auto& c : out) c = r.next(); break;
		}
		return out;
	}
	std::string bytestr(size_t n) { auto b = bytes(n); return std::string(b.begin(), b.end()); }
	// n characters of an alphabet
	std::string str(const std::string& alpha, size_t n) {
		std::string s; s.reserve(n);
		if (n <= 40) { for (size_t i = 0; i < n; i++) s.push_back(alpha[below(alpha.size())]); return s; }
		Rng r(upto(0xffffffff) * 104729 + 7);
		for (size_t i = 0; i < n; i++) s.push_back(alpha[r.below(alpha.size())]);
		return s;
	}
	// a string from the code's own literals (or the fallback)
	std::string dictstr(const std::string& fallback) {
		auto& d = dict().strs; if (d.empty()) return fallback;
		return d[below(d.size())];
	}
};

// ---------------------------------------------------------------- case context
class Case {
	Shm* shm;
public:
	bool is_nontrivial = false; std::string text; bool want_text;
	Case(Shm* m, bool want) : shm(m), want_text(want) { shm->note[0] = 0; }
	[[noreturn]] void fail(const std::string& m) { throw Failure{ m }; }
	void check(bool ok, const std::string& m) { if (!ok) fail(m); }
	template <class F> void checkf(bool ok, F m) { if (!ok) fail(m()); }
	void nontrivial() { is_nontrivial = true; }
	void nontrivial(bool b) { if (b) is_nontrivial = true; }
	void label(const char* n, uint64_t by = 1) {
		for (auto& l : shm->labels) {
			if (!l.name[0]) { snprintf(l.name, sizeof l.name, "%s", n); l.n = by; return; }
			if (!strncmp(l.name, n, sizeof l.name - 1)) { l.n += by; return; }
		}
	}
	// human readable rendering of the case, written to shared memory so that it survives a crash
	void note(const std::string& s) {
		text += s; if (text.empty() || text.back() != '\n') text += '\n';
		snprintf(shm->note, sizeof shm->note, "%s", text.c_str());
	}
};

inline std::string show(const std::string& s, size_t max = 160) {
	std::string o = "\""; char b[8];
	for (size_t i = 0; i < s.size(); i++) {
		if (i >= max) { o += "\"...(" + std::to_string(s.size()) + " bytes)"; return o; }
		unsigned char c = s[i];
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c == '\t') o += "\\t";
		else if (c < 32 || c > 126) { snprintf(b, 8, "\\x%02x", c); o += b; }
		else o += c;
	}
	return o + "\"";
}
inline std::string show(const Bytes& s, size_t max = 160) { return show(std::string(s.begin(), s.end()), max); }

// ---------------------------------------------------------------- coverage
inline uint8_t covmap[1 << 16];
inline uint64_t case_serial = 0;	// how many cases this process has run
inline bool cov_on = false;
inline bool cmp_on = false;
}
#ifdef PBT_COVERAGE
#define PBT_NOSAN __attribute__((no_sanitize_address, no_sanitize_undefined, no_sanitize("thread"), used))
extern "C" {
PBT_NOSAN inline void pbt_pc(uintptr_t pc) { if (pbt::cov_on) { uint32_t h = (uint32_t)(pc * 0x9E3779B1u) >> 16; auto& b = pbt::covmap[h]; if (b < 255) b++; } }
PBT_NOSAN void __sanitizer_cov_trace_pc() { pbt_pc((uintptr_t)__builtin_return_address(0)); }
PBT_NOSAN void __sanitizer_cov_trace_cmp1(uint8_t, uint8_t) {}
PBT_NOSAN void __sanitizer_cov_trace_cmp2(uint16_t, uint16_t) {}
PBT_NOSAN void __sanitizer_cov_trace_cmp4(uint32_t, uint32_t) {}
PBT_NOSAN void __sanitizer_cov_trace_cmp8(uint64_t, uint64_t) {}
PBT_NOSAN void __sanitizer_cov_trace_const_cmp1(uint8_t, uint8_t) {}
PBT_NOSAN void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t) { if (pbt::cmp_on) { pbt::cmp_on = false; pbt::dict().add(a); pbt::cmp_on = true; } }
PBT_NOSAN void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t) { if (pbt::cmp_on) { pbt::cmp_on = false; pbt::dict().add(a); pbt::cmp_on = true; } }
PBT_NOSAN void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t) { if (pbt::cmp_on) { pbt::cmp_on = false; pbt::dict().add(a); pbt::cmp_on = true; } }
PBT_NOSAN void __sanitizer_cov_trace_cmpf(float, float) {}
PBT_NOSAN void __sanitizer_cov_trace_cmpd(double, double) {}
PBT_NOSAN void __sanitizer_cov_trace_switch(uint64_t, void*) {}
}
#endif
extern "C" {
inline const char* __asan_default_options();
__attribute__((used, weak)) const char* __asan_default_options() { return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0:malloc_context_size=12:max_allocation_size_mb=6000:quarantine_size_mb=64"; }
__attribute__((used, weak)) const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=98"; }
__attribute__((used, weak)) const char* __tsan_default_options() { return "exitcode=97:halt_on_error=1:second_deadlock_stack=1:report_signal_unsafe=0:report_thread_leaks=0"; }
}
namespace pbt {

// ---------------------------------------------------------------- checks
struct Check {
	std::string name;
	std::function<void(Src&, Case&)> fn;
	uint64_t quick, thorough;		// number of cases per tier
	std::string rule;				// what a case is and when it is non-trivial
	int workers = 8;
	double hang_s = 60;				// a case running longer than this is a hang
	double cap_s = 100;				// safety cap on the campaign's wall time (quick); x6 in thorough
	bool cov = false;				// coverage-guided mutation
	bool sched = false;				// outcome may depend on the schedule: confirm by repeated replay
	std::function<void()> init;		// once in every forked child
};

struct Opts { std::string tier = "quick", evidence, replaydir = "/tmp", only, replay, prop, dictfile, within; uint64_t seed = 1; uint64_t cases = 0; int workers = 0; bool verbose = false; };

struct Outcome { bool failed = false, hang = false, crash = false; std::string msg, note; std::vector<uint64_t> choices; };

class Runner {
	Opts o; std::string prop; std::vector<Check> checks;
	bool thorough() const { return o.tier == "thorough"; }

	static Shm* newshm() {
		auto p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED) { perror("mmap"); exit(3); }
		return (Shm*)p;
	}
	static int errfd() { return memfd_create("err", 0); }
	static std::string errtext(int fd) {
		off_t n = lseek(fd, 0, SEEK_END); std::string s; size_t take = std::min<off_t>(n, 6000); s.resize(take);
		// sanitizer reports start with ==PID==ERROR or "runtime error": keep the head of the report
		std::string all; all.resize(std::min<off_t>(n, 1 << 20)); if (pread(fd, all.data(), all.size(), 0) < 0) return "";
		auto p = all.find("ERROR: "); auto q = all.find("runtime error:"); auto w = all.find("WARNING: ThreadSanitizer");
		size_t at = std::min({ p, q, w }); if (at == std::string::npos) at = all.size() > 3000 ? all.size() - 3000 : 0; else { auto nl = all.rfind('\n', at); at = nl == std::string::npos ? 0 : nl + 1; }
		return all.substr(at, 3500);
	}
	static void child_setup(int err) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		int dn = open("/dev/null", O_RDWR);
		if (!getenv("PBT_VERBOSE")) { dup2(dn, 1); dup2(err, 2); }
		dup2(dn, 0);
		setvbuf(stdout, nullptr, _IONBF, 0);
	}
	// run one case in the current process; returns true when it failed
	static bool run_one(const Check& ck, Shm* m, Src& s, bool want, bool& nontriv) {
		Case c(m, want); nontriv = false;
		case_serial++;
		try { ck.fn(s, c); nontriv = c.is_nontrivial; }
		catch (const Failure& f) { snprintf(m->msg, sizeof m->msg, "%s", f.msg.c_str()); m->state = 2; return true; }
		catch (const Discard&) { m->discarded++; }
		catch (const std::exception& e) { snprintf(m->msg, sizeof m->msg, "unexpected exception: %s", e.what()); m->state = 2; return true; }
		return false;
	}
	uint64_t case_seed(const Check& ck, uint64_t i) const { uint64_t h = hash64(ck.name, o.seed * 0x9E3779B97F4A7C15ull + 77); uint64_t s = h ^ (i * 0xD1B54A32D192ED03ull); return splitmix(s); }

	[[noreturn]] void worker(const Check& ck, Shm* m, int w, int K, uint64_t n, int err) {
		child_setup(err);
		if (ck.init) ck.init();
		std::vector<std::vector<uint64_t>> corpus; std::vector<uint8_t> seen; uint64_t edges = 0;
		if (ck.cov) seen.assign(sizeof covmap, 0);
		for (uint64_t i = w; i < n && !m->stop; i += K) {
			m->cur_case = i; m->caseseed = case_seed(ck, i); m->started = now_s(); m->state = 1;
			bool nt = false, failed;
			std::vector<uint64_t> base; Rng mr(m->caseseed ^ 0xABCDEF);
			if (ck.cov && !corpus.empty() && mr.below(2)) {
				base = mutate(corpus[mr.below(2) ? mr.below(corpus.size()) : corpus.size() - 1 - mr.below(std::min<size_t>(corpus.size(), 8))], corpus, mr);
			}
			if (ck.cov) { memset(covmap, 0, sizeof covmap); cov_on = true; cmp_on = true; }
			if (base.size()) { Src s(m, &base, true, m->caseseed); failed = run_one(ck, m, s, true, nt); }
			else { Src s(m, m->caseseed); failed = run_one(ck, m, s, true, nt); }
			if (ck.cov) {
				cov_on = false; cmp_on = false; bool nw = false;
				for (size_t b = 0; b < sizeof covmap; b++) if (covmap[b]) {
					uint8_t v = covmap[b], bk = v >= 128 ? 128 : v >= 32 ? 64 : v >= 16 ? 32 : v >= 8 ? 16 : v >= 4 ? 8 : v >= 3 ? 4 : v;
					if (!(seen[b] & bk)) { if (!seen[b]) edges++; seen[b] |= bk; nw = true; }
				}
				if (nw && m->nchoice && m->nchoice < 6000 && corpus.size() < 1500) corpus.emplace_back(m->choice, m->choice + m->nchoice);
				m->corpus = corpus.size(); m->edges = edges;
			}
			m->evals++;
			if (failed) _exit(7);
			if (nt) {
				m->nontrivial++;
				if (m->nhash < CAP_HASH) m->hashes[m->nhash++] = hash64(m->choice, m->nchoice * 8);
				if (m->nsamples < CAP_SAMPLES && m->note[0]) snprintf(m->samples[m->nsamples++], SAMPLE_LEN, "%s", m->note);
			}
			m->state = 0;
		}
		m->state = 3; _exit(0);
	}
	static std::vector<uint64_t> mutate(std::vector<uint64_t> v, const std::vector<std::vector<uint64_t>>& corpus, Rng& r) {
		int k = 1 + r.below(4);
		while (k--) {
			if (v.empty()) return v;
			size_t p = r.below(v.size());
			switch (r.below(8)) {
				case 0: v[p] = r.below(256); break;
				case 1: v[p] += r.below(9) - 4; if ((int64_t)v[p] < 0) v[p] = 0; break;
				case 2: { auto& d = dict().ints; if (d.size()) v[p] = d[r.below(d.size())] + r.below(3) - 1; } break;
				case 3: { size_t l = 1 + r.below(std::min<size_t>(8, v.size() - p)); v.erase(v.begin() + p, v.begin() + p + l); } break;
				case 4: { size_t l = 1 + r.below(std::min<size_t>(12, v.size() - p)); std::vector<uint64_t> t(v.begin() + p, v.begin() + p + l); v.insert(v.begin() + p, t.begin(), t.end()); } break;
				case 5: { auto& c = corpus[r.below(corpus.size())]; if (c.size()) { size_t q = r.below(c.size()); v.resize(p); v.insert(v.end(), c.begin() + q, c.end()); } } break;
				case 6: v.resize(p + 1); break;
				default: v[p] = r.next() & 0xffffffff; break;
			}
		}
		return v;
	}

	// run given choices (or a list of case indices) in a fresh child
	Outcome run_choices(const Check& ck, const std::vector<uint64_t>& ch, double limit, Shm* m) {
		Outcome oc; int err = errfd();
		m->state = 1; m->msg[0] = 0; m->note[0] = 0; m->nchoice = 0;
		pid_t pid = fork();
		if (!pid) {
			child_setup(err); if (ck.init) ck.init();
			Src s(m, &ch, false); bool nt; bool f = run_one(ck, m, s, true, nt);
			if (!f) m->state = 3;
			_exit(f ? 7 : 0);
		}
		finish(pid, err, limit, m, oc);
		oc.choices.assign(m->choice, m->choice + std::min<uint64_t>(m->nchoice, CAP_CHOICES));
		return oc;
	}
	Outcome run_cases(const Check& ck, const std::vector<uint64_t>& idx, double limit, Shm* m) {
		Outcome oc; int err = errfd();
		m->state = 1; m->msg[0] = 0; m->note[0] = 0;
		pid_t pid = fork();
		if (!pid) {
			child_setup(err); if (ck.init) ck.init(); bool f = false;
			for (auto i : idx) { Src s(m, case_seed(ck, i)); bool nt; f = run_one(ck, m, s, true, nt); if (f) break; }
			if (!f) m->state = 3;
			_exit(f ? 7 : 0);
		}
		finish(pid, err, limit, m, oc);
		return oc;
	}
	void finish(pid_t pid, int err, double limit, Shm* m, Outcome& oc) {
		double t0 = now_s(); int st = 0;
		while (true) {
			pid_t r = waitpid(pid, &st, WNOHANG);
			if (r == pid) break;
			double el = now_s() - t0;
			if (el > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); oc.failed = oc.hang = true; break; }
			usleep(el < 0.02 ? 200 : el < 1 ? 2000 : 20000);
		}
		oc.note = m->note;
		if (oc.hang) oc.msg = "the case did not finish within " + std::to_string((int)limit) + " s (hang)";
		else if (m->state == 2) { oc.failed = true; oc.msg = m->msg; }
		else if (WIFSIGNALED(st)) { oc.failed = oc.crash = true; oc.msg = std::string("process died with signal ") + strsignal(WTERMSIG(st)) + "\n" + errtext(err); }
		else if (WEXITSTATUS(st) != 0) { oc.failed = oc.crash = true; oc.msg = "process ended with status " + std::to_string(WEXITSTATUS(st)) + "\n" + errtext(err); }
		else if (m->state != 3) { oc.failed = oc.crash = true; oc.msg = "process exited in the middle of a case\n" + errtext(err); }
		close(err);
	}

	std::vector<uint64_t> shrink(const Check& ck, std::vector<uint64_t> best, Outcome& last, Shm* m, bool hang) {
		double t0 = now_s(), budget = hang ? 60 : 45; int tries = 0;
		double lim = hang ? std::min(ck.hang_s, 8.0) : ck.hang_s;
		if (hang) { auto r = run_choices(ck, best, lim, m); if (!r.failed) return best; }
		auto attempt = [&](const std::vector<uint64_t>& c) {
			if (now_s() - t0 > budget || tries++ > 3000) return false;
			auto r = run_choices(ck, c, lim, m);
			if (!r.failed) return false;
			if (r.hang != hang) return false;
			auto norm = r.choices; while (norm.size() && norm.back() == 0) norm.pop_back();
			if (norm.size() > c.size() || (r.crash)) norm = c;
			best = norm; last = r; return true;
		};
		{ auto c = best; while (c.size() && c.back() == 0) c.pop_back(); if (c.size() < best.size()) attempt(c); }
		bool progress = true;
		while (progress && now_s() - t0 < budget) {
			progress = false;
			for (size_t k = std::max<size_t>(best.size() / 2, 1); k >= 1; k /= 2) {
				for (size_t i = 0; i + k <= best.size() && now_s() - t0 < budget;) {
					auto c = best; c.erase(c.begin() + i, c.begin() + i + k);
					if (attempt(c)) progress = true; else i += std::max<size_t>(k / 2, 1);
				}
				if (k == 1) break;
			}
			for (size_t k = 8; k >= 1; k /= 2) for (size_t i = 0; i + k <= best.size() && now_s() - t0 < budget; i += k) {
				bool any = false; for (size_t j = 0; j < k; j++) any |= best[i + j] != 0;
				if (!any) continue;
				auto c = best; for (size_t j = 0; j < k; j++) c[i + j] = 0;
				if (attempt(c)) progress = true;
			}
			for (size_t i = 0; i < best.size() && now_s() - t0 < budget; i++) {
				uint64_t lo = 0;
				while (i < best.size() && lo < best[i] && now_s() - t0 < budget) {
					uint64_t mid = lo + (best[i] - lo) / 2; auto c = best; c[i] = mid; uint64_t before = best[i];
					if (attempt(c)) { progress = true; if (i >= best.size() || best[i] >= before) break; } else lo = mid + 1;
				}
			}
			// try decrementing a count together with deleting a later block (structures with length prefix)
			for (size_t i = 0; i < best.size() && now_s() - t0 < budget; i++) if (best[i] >= 1 && best[i] < 64) {
				for (size_t k = 1; k <= 8 && i < best.size() && best[i] >= 1; k++) {
					bool hit = false;
					for (size_t j = i + 1; j + k <= best.size() && j < i + 40; j++) {
						auto c = best; c[i]--; c.erase(c.begin() + j, c.begin() + j + k);
						if (attempt(c)) { progress = hit = true; break; }
						if (now_s() - t0 > budget) break;
					}
					if (hit) k = 0;
				}
			}
		}
		return best;
	}
	std::string write_replay(const Check& ck, const std::vector<uint64_t>& ch, const Outcome& oc, const std::string& kind) {
		mkdir(o.replaydir.c_str(), 0755);
		std::string path = o.replaydir + "/" + prop + "-" + ck.name + "-" + std::to_string(o.seed) + ".replay";
		std::ofstream f(path);
		f << "property " << prop << "\ncheck " << ck.name << "\nseed " << o.seed << "\nkind " << kind << "\nchoices";
		for (auto v : ch) f << ' ' << v;
		f << "\n--- case\n" << oc.note << "\n--- failure\n" << oc.msg << "\n--- replay with: python3 /verif/run.py " << prop << " --replay " << path << "\n";
		return path;
	}

	static std::string jstr(const std::string& s) {
		std::string r = "\""; char b[8];
		for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
		return r + "\"";
	}
	struct Stat { std::string name, rule; uint64_t evals = 0, nontriv = 0, distinct = 0, discarded = 0, corpus = 0, edges = 0; double wall = 0; bool capped = false; std::map<std::string, uint64_t> labels; std::vector<std::string> samples; };
	std::vector<Stat> stats; int violations = 0; double t_start = now_s();

	void evidence() {
		if (o.evidence.empty()) return;
		uint64_t ev = 0, di = 0; for (auto& s : stats) { ev += s.evals; di += s.distinct; }
		std::ostringstream f;
		f << "{\n \"property\": " << jstr(prop) << ",\n \"tier\": " << jstr(o.tier) << ",\n \"seed\": " << o.seed << ",\n \"level\": " << jstr(getenv("PBT_LEVEL") ? getenv("PBT_LEVEL") : "exploration") << ",\n \"coverage\": {\n  \"evaluations\": " << ev << ",\n  \"distinct_nontrivial\": " << di << ",\n  \"rule\": ";
		std::string rule; for (auto& s : stats) rule += "[" + s.name + "] " + s.rule + " ";
		f << jstr(rule) << ",\n  \"samples\": [";
		bool first = true; for (auto& s : stats) for (auto& x : s.samples) { f << (first ? "" : ",") << "\n   " << jstr("[" + s.name + "] " + x); first = false; }
		f << "],\n  \"checks\": {";
		first = true;
		for (auto& s : stats) {
			f << (first ? "" : ",") << "\n   " << jstr(s.name) << ": {\"evaluations\": " << s.evals << ", \"nontrivial\": " << s.nontriv << ", \"distinct_nontrivial\": " << s.distinct << ", \"discarded\": " << s.discarded << ", \"corpus\": " << s.corpus << ", \"edges_seen\": " << s.edges << ", \"wall_s\": " << s.wall << ", \"time_capped\": " << (s.capped ? "true" : "false") << ", \"classes\": {";
			bool g = true; for (auto& l : s.labels) { f << (g ? "" : ", ") << jstr(l.first) << ": " << l.second; g = false; }
			f << "}}"; first = false;
		}
		f << "\n  }\n },\n \"assumptions\": [\"the oracles in /verif/harness are correct; g++/ASan/UBSan, the kernel's loopback network and file system\"],\n \"wall_s\": " << now_s() - t_start << ",\n \"violations\": " << violations << "\n}\n";
		std::ofstream out(o.evidence + ".tmp"); out << f.str(); out.close(); rename((o.evidence + ".tmp").c_str(), o.evidence.c_str());
	}

	bool run_check(const Check& ck) {
		uint64_t n = o.cases ? o.cases : thorough() ? ck.thorough : ck.quick; int K = o.workers ? std::min(o.workers, ck.workers) : ck.workers;
		if ((uint64_t)K > n) K = n ? n : 1;
		double cap = ck.cap_s * (thorough() ? 6 : 1), t0 = now_s();
		std::vector<Shm*> ms; std::vector<pid_t> pids; std::vector<int> errs;
		fflush(stdout); fflush(stderr);
		for (int w = 0; w < K; w++) {
			auto m = newshm(); int e = errfd(); ms.push_back(m); errs.push_back(e);
			pid_t p = fork(); if (!p) worker(ck, m, w, K, n, e);
			pids.push_back(p);
		}
		int live = K; std::vector<bool> done(K, false); int bad = -1; bool badhang = false; bool capped = false; int badst = 0;
		while (live && bad < 0) {
			usleep(3000);
			for (int w = 0; w < K && bad < 0; w++) if (!done[w]) {
				int st; pid_t r = waitpid(pids[w], &st, WNOHANG);
				if (r == pids[w]) { done[w] = true; live--; if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && ms[w]->state == 3)) { bad = w; badst = st; } }
				else if ((ms[w]->state == 1 && now_s() - ms[w]->started > ck.hang_s) || (ms[w]->evals == 0 && ms[w]->state == 0 && now_s() - t0 > ck.hang_s + 30)) { kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); done[w] = true; live--; bad = w; badhang = true; }
			}
			if (!capped && now_s() - t0 > cap) { capped = true; for (auto m : ms) m->stop = 1; }	// the running cases may finish or hang
		}
		for (int w = 0; w < K; w++) if (!done[w]) { kill(pids[w], SIGKILL); int st; waitpid(pids[w], &st, 0); }
		Stat s; s.name = ck.name; s.rule = ck.rule; s.capped = capped; std::unordered_set<uint64_t> hs;
		for (auto m : ms) {
			s.evals += m->evals; s.nontriv += m->nontrivial; s.discarded += m->discarded; s.corpus += m->corpus; s.edges = std::max<uint64_t>(s.edges, m->edges);
			for (uint64_t i = 0; i < m->nhash; i++) hs.insert(m->hashes[i]);
			for (auto& l : m->labels) if (l.name[0]) s.labels[l.name] += l.n;
			for (uint64_t i = 0; i < m->nsamples && s.samples.size() < 2; i++) s.samples.push_back(std::string(m->samples[i]).substr(0, 1500));
		}
		s.distinct = hs.size(); s.wall = now_s() - t0; stats.push_back(s);
		printf("[%s/%s] %" PRIu64 " cases, %" PRIu64 " non-trivial (%" PRIu64 " distinct), %" PRIu64 " discarded, corpus %" PRIu64 ", %.1f s%s\n", prop.c_str(), ck.name.c_str(), s.evals, s.nontriv, s.distinct, s.discarded, s.corpus, s.wall, capped ? " (time cap reached: fewer cases than planned)" : "");
		if (o.verbose) for (auto& l : s.labels) printf("    %-40s %" PRIu64 "\n", l.first.c_str(), l.second);
		fflush(stdout);
		bool violated = false;
		if (bad >= 0) {
			auto bm = ms[bad]; std::vector<uint64_t> ch(bm->choice, bm->choice + std::min<uint64_t>(bm->nchoice, CAP_CHOICES));
			Outcome first; first.failed = true; first.note = bm->note; first.hang = badhang;
			first.msg = bm->state == 2 ? std::string(bm->msg) : badhang ? "hang" : (WIFSIGNALED(badst) ? std::string("signal ") + strsignal(WTERMSIG(badst)) : "exit status " + std::to_string(WEXITSTATUS(badst))) + "\n" + errtext(errs[bad]);
			violated = confirm(ck, ch, first, bm->cur_case, bad, K);
		}
		for (auto m : ms) munmap(m, sizeof(Shm));
		for (auto e : errs) close(e);
		return violated;
	}

	bool confirm(const Check& ck, std::vector<uint64_t> ch, Outcome first, uint64_t idx, int w, int K) {
		printf("[%s/%s] case %" PRIu64 " failed: %s\n", prop.c_str(), ck.name.c_str(), idx, first.msg.substr(0, 600).c_str()); fflush(stdout);
		auto m = newshm(); Outcome r; double t0 = now_s();
		int tries = ck.sched ? 150 : 12;
		for (int i = 0; i < tries && now_s() - t0 < (first.hang ? 2.5 * ck.hang_s : 80); i++) { r = run_choices(ck, ch, ck.hang_s, m); if (r.failed) break; }
		if (!r.failed) {
			// maybe it needs the state left behind by earlier cases of the same worker
			std::vector<uint64_t> all; for (uint64_t i = w; i <= idx; i += K) all.push_back(i);
			for (size_t take = 2; !ck.cov && now_s() - t0 < 200; take *= 4) {
				size_t k = std::min(take, all.size()); std::vector<uint64_t> part(all.end() - k, all.end());
				auto q = run_cases(ck, part, ck.hang_s * 2, m);
				if (q.failed) {
					auto path = write_replay(ck, part, q, "cases"); violations++;
					printf("VIOLATION property=%s replay=%s\n%s\n", prop.c_str(), path.c_str(), q.msg.c_str()); fflush(stdout); munmap(m, sizeof(Shm)); return true;
				}
				if (k == all.size()) break;
			}
			printf("[%s/%s] the failure of case %" PRIu64 " did not reproduce in %d replays: not reported as a violation\n%s\n", prop.c_str(), ck.name.c_str(), idx, tries, first.msg.c_str()); fflush(stdout);
			munmap(m, sizeof(Shm));
			unconfirmed.push_back({ first.msg, first.note, ch, first.hang });
			return false;
		}
		auto best = ch; Outcome last = r;
		if (!ck.sched) best = shrink(ck, ch, last, m, r.hang);
		int ok = 0, att = 0; double t1 = now_s();
		while (ok < (r.hang ? 1 : 3) && att < (ck.sched ? 400 : 6) && now_s() - t1 < (r.hang ? 3.2 * ck.hang_s : 60)) { att++; auto q = run_choices(ck, best, ck.hang_s, m); if (q.failed) { ok++; last = q; } }
		if (ok < 1) { best = ch; last = r; }
		auto path = write_replay(ck, best, last, "choices"); violations++;
		printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str());
		printf("  check %s, replayed %d/%d times\n--- case\n%s\n--- failure\n%s\n", ck.name.c_str(), ok, att, last.note.substr(0, 4000).c_str(), last.msg.substr(0, 4000).c_str()); fflush(stdout);
		munmap(m, sizeof(Shm));
		return true;
	}
	struct Unc { std::string msg, note; std::vector<uint64_t> ch; bool hang; }; std::vector<Unc> unconfirmed;

	int do_replay() {
		std::ifstream f(o.replay); std::string line, name, kind; std::vector<uint64_t> ch;
		while (std::getline(f, line)) {
			std::istringstream is(line); std::string k; is >> k;
			if (k == "check") is >> name; else if (k == "seed") is >> o.seed; else if (k == "kind") is >> kind;
			else if (k == "choices") { uint64_t v; while (is >> v) ch.push_back(v); } else if (k == "---") break;
		}
		for (auto& ck : checks) if (ck.name == name) {
			auto m = newshm(); Outcome r;
			for (int i = 0; i < (ck.sched ? 150 : 3); i++) { r = kind == "cases" ? run_cases(ck, ch, ck.hang_s * 2, m) : run_choices(ck, ch, ck.hang_s, m); if (r.failed) break; }
			printf("--- case\n%s\n", r.note.c_str());
			if (r.failed) { printf("--- failure\n%s\nVIOLATION property=%s replay=%s\n", r.msg.c_str(), prop.c_str(), o.replay.c_str()); return 1; }
			printf("the replay does not fail\n"); return 0;
		}
		fprintf(stderr, "no check %s\n", name.c_str()); return 3;
	}

	void load_dict() {
		if (o.dictfile.empty()) return;
		std::ifstream f(o.dictfile); std::string line;
		while (std::getline(f, line)) {
			if (line.size() < 2) continue;
			if (line[0] == 'i') dict().add(strtoull(line.c_str() + 2, nullptr, 0));
			else if (line[0] == 's' && line.size() <= 130) {	// hex coded literal
				std::string s; for (size_t i = 2; i + 1 < line.size(); i += 2) s.push_back((char)strtol(line.substr(i, 2).c_str(), nullptr, 16));
				dict().strs.push_back(s);
			}
		}
	}
public:
	Runner(std::string p, std::vector<Check> c) : prop(std::move(p)), checks(std::move(c)) {}
	int main(int argc, char** argv) {
		for (int i = 1; i < argc; i++) {
			std::string a = argv[i]; auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
			if (a == "--tier") o.tier = val(); else if (a == "--seed") o.seed = strtoull(val().c_str(), nullptr, 10);
			else if (a == "--evidence") o.evidence = val(); else if (a == "--replaydir") o.replaydir = val();
			else if (a == "--check") o.only = val(); else if (a == "--replay") o.replay = val();
			else if (a == "--cases") o.cases = strtoull(val().c_str(), nullptr, 10); else if (a == "--workers") o.workers = atoi(val().c_str());
			else if (a == "--within") o.within = val(); else if (a == "--dict") o.dictfile = val(); else if (a == "-v") o.verbose = true;
			else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
		}
		signal(SIGPIPE, SIG_DFL);
		load_dict();
		if (o.replay.size()) return do_replay();
		bool bad = false;
		for (auto& ck : checks) {
			if (o.only.size() && ck.name != o.only) continue; if (o.within.size() && ("," + o.within + ",").find("," + std::string(ck.name) + ",") == std::string::npos) continue;
			// A failure that does not reproduce alone is not reported; explore again with other seeds.
			// Two independent failing campaigns of the same check are reported (schedule-dependent defect).
			size_t unc = 0; auto saved = o.seed; bool v = false;
			for (int round = 0; round < 3 && !v; round++) {
				unconfirmed.clear(); o.seed = saved + 1000003ull * round;
				v = run_check(ck);
				if (v || unconfirmed.empty()) break;
				if (!unconfirmed[0].hang) unc++;
				if (unc >= 2) {
					Outcome oc; oc.msg = unconfirmed[0].msg + "\n(seen in two independent campaigns; depends on the schedule)"; oc.note = unconfirmed[0].note;
					auto path = write_replay(ck, unconfirmed[0].ch, oc, "choices"); violations++; v = true;
					printf("VIOLATION property=%s replay=%s\n--- case\n%s\n--- failure\n%s\n", prop.c_str(), path.c_str(), oc.note.c_str(), oc.msg.c_str());
				}
			}
			o.seed = saved;
			if (v) { bad = true; break; }
		}
		evidence();
		if (bad) return 1;
		printf("OK property=%s\n", prop.c_str());
		return 0;
	}
};

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
inline int run(int argc, char** argv, const char* prop, std::vector<Check> checks) {
#ifdef PBT_VARIANT	// the same checks on another build of the library
	for (auto& c : checks) { c.name += "-" PBT_STR(PBT_VARIANT); c.rule += "; library built " PBT_STR(PBT_VARIANT); c.quick = std::max<uint64_t>(c.quick / 5, 4); c.thorough = std::max<uint64_t>(c.thorough / 5, 4); }
#endif
	return Runner(prop, std::move(checks)).main(argc, argv); }

}
