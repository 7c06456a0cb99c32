// C27: log lines of concurrent threads
#include "pbt.hpp"
#include <core/utils/utils.hpp>
#include <thread>
#include <barrier>
#include <poll.h>
using namespace pbt; using namespace Lambda;
using SyncOut::MgsOverload;

static MgsOverload item(Src& s, std::string& text, Rng& r, bool any = false) {	// any: line breaks too
	(void)s; char b[400]; auto num = [&] { static const uint64_t X[] = { 0, 1, ~0ull, 1ull << 63, (1ull << 63) - 1, 1ull << 31, (1ull << 31) - 1, 0x8000, 0x7fff, 0xffff, 0xffffffff, 0x80, 0xff, 1ull << 32 }; return r.below(4) ? r.next() : X[r.below(14)]; };
	switch (r.below(17)) {
		case 0: { std::string v; size_t n = r.below(4) ? r.below(30) : r.below(3000); for (size_t i = 0; i < n; i++) v += any && r.below(4) == 0 ? (char)r.next() : "abcdefgh %s\\{}\t\xc3\xa9"[r.below(18)]; text = v; return MgsOverload(v); }
		case 1: text = "literal"; return MgsOverload("literal");
		case 2: { bool v = r.below(2); text = v ? "true" : "false"; return MgsOverload(v); }
		case 3: { char v = any && r.below(2) ? (char)r.next() : 'a' + r.below(26); text = std::string(1, v); return MgsOverload(v); }
		case 4: { unsigned char v = num(); snprintf(b, 400, "%u", v); text = b; return MgsOverload(v); }
		case 5: { short v = num(); snprintf(b, 400, "%d", v); text = b; return MgsOverload(v); }
		case 6: { unsigned short v = num(); snprintf(b, 400, "%u", v); text = b; return MgsOverload(v); }
		case 7: { int v = num(); snprintf(b, 400, "%d", v); text = b; return MgsOverload(v); }
		case 8: { unsigned v = num(); snprintf(b, 400, "%u", v); text = b; return MgsOverload(v); }
		case 9: { long v = num(); snprintf(b, 400, "%ld", v); text = b; return MgsOverload(v); }
		case 10: { unsigned long v = num(); snprintf(b, 400, "%lu", v); text = b; return MgsOverload(v); }
		case 11: { long long v = num(); snprintf(b, 400, "%lld", v); text = b; return MgsOverload(v); }
		case 12: { unsigned long long v = num(); snprintf(b, 400, "%llu", v); text = b; return MgsOverload(v); }
		case 13: { double v = (int64_t)r.next() / 4096.0; snprintf(b, 400, "%f", v); text = b; return MgsOverload(v); }
		case 14: { float v = (int32_t)r.next() / 256.0f; snprintf(b, 400, "%f", v); text = b; return MgsOverload(v); }
		case 15: { long double v = (int64_t)r.next() / 1024.0L; snprintf(b, 400, "%Lf", v); text = b; return MgsOverload(v); }
		default: text = ""; switch (r.below(3)) { case 0: return MgsOverload(""); case 1: return MgsOverload(std::string()); default: return MgsOverload((const char*)nullptr); }
	}
}
struct Plan { std::vector<MgsOverload> items; std::string line; bool err, single; };
static std::string drain(int fd) { std::string o; char b[65536]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) o.append(b, n); return o; }

static void logs(Src& s, Case& c) {
	size_t T = 1 + s.below(12), L = 1 + s.below(60); bool same = s.flip(); int mode = s.below(3);
	std::vector<std::vector<Plan>> plan(T);
	for (size_t t = 0; t < T; t++) { Rng r(s.upto(1u << 30) * 31 + t); size_t n = 0; for (size_t l = 0; l < L; l++) {
		Plan p; p.err = r.below(2); p.single = r.below(4) == 0; std::string tag = "#" + std::to_string(t) + "." + std::to_string(n++);
		size_t k = p.single ? 1 : 1 + r.below(6); p.items.push_back(MgsOverload(tag)); p.line = tag;
		for (size_t i = 1; i < k; i++) { std::string x; p.items.push_back(item(s, x, r)); if (x.size()) p.line += " " + x; }
		plan[t].push_back(p);
	} }
	c.note(std::to_string(T) + " threads x " + std::to_string(L) + " lines, " + (same ? "one pipe for both streams" : "two pipes") + ", buffering " + std::to_string(mode));
	int p1[2], p2[2]; if (pipe(p1) || pipe(p2)) c.fail("pipe");
	fflush(stdout); fflush(stderr); int s1 = dup(1), s2 = dup(2);
	setvbuf(stdout, nullptr, mode == 0 ? _IOFBF : mode == 1 ? _IOLBF : _IONBF, mode == 0 ? 4096 : 0);
	dup2(p1[1], 1); dup2(same ? p1[1] : p2[1], 2); close(p1[1]); close(p2[1]);
	std::string out, err; std::thread r1([&] { out = drain(p1[0]); }), r2([&] { err = drain(p2[0]); });
	{
		std::barrier bar((long)T); std::vector<std::thread> th;
		auto call = [](Plan& p) {
			auto& v = p.items; auto go = [&](std::initializer_list<MgsOverload> l) { if (p.err) syncout.error(l); else syncout.log(l); };
			if (p.single) { if (p.err) syncout.error(v[0]); else syncout.log(v[0]); return; }
			switch (v.size()) { case 1: go({ v[0] }); break; case 2: go({ v[0], v[1] }); break; case 3: go({ v[0], v[1], v[2] }); break; case 4: go({ v[0], v[1], v[2], v[3] }); break; case 5: go({ v[0], v[1], v[2], v[3], v[4] }); break; default: go({ v[0], v[1], v[2], v[3], v[4], v[5] }); }
		};
		for (size_t t = 0; t < T; t++) th.emplace_back([&, t] { bar.arrive_and_wait(); for (auto& p : plan[t]) call(p); });
		for (auto& t : th) t.join();
	}
	fflush(stdout); fflush(stderr); dup2(s1, 1); dup2(s2, 2); close(s1); close(s2); setvbuf(stdout, nullptr, _IONBF, 0);
	r1.join(); r2.join(); close(p1[0]); close(p2[0]);
	auto lines = [&](const std::string& text, const char* what, bool wantOut, bool wantErr) {
		std::vector<std::string> v; size_t at = 0; while (at < text.size()) { auto e = text.find('\n', at); if (e == std::string::npos) c.fail(std::string(what) + " does not end with a line break: " + show(text.substr(at))); v.push_back(text.substr(at, e - at)); at = e + 1; }
		// every thread's own lines per stream must appear whole and in order
		std::map<std::pair<size_t, bool>, std::vector<const Plan*>> want; size_t total = 0;
		std::map<std::string, std::pair<std::pair<size_t, bool>, size_t>> pos;
		for (size_t t = 0; t < T; t++) for (auto& p : plan[t]) if (p.err ? wantErr : wantOut) { auto k = std::make_pair(t, p.err); pos[p.line] = { k, want[k].size() }; want[k].push_back(&p); total++; }
		std::map<std::pair<size_t, bool>, size_t> next;
		for (auto& l : v) {
			auto it = pos.find(l); if (it == pos.end()) c.fail(std::string(what) + " contains a line that no call wrote (mixed, altered or on the wrong stream): " + show(l, 400));
			auto& n = next[it->second.first]; if (it->second.second != n) c.fail(std::string(what) + ": line lost, repeated or out of order: " + show(l, 200)); n++;
		}
		if (v.size() != total) c.fail(std::string(what) + " holds " + std::to_string(v.size()) + " lines, expected " + std::to_string(total));
	};
	if (same) lines(out, "output", true, true); else { lines(out, "stdout", true, false); lines(err, "stderr", false, true); }
	c.nontrivial(T > 1);
}
static void lone(Src& s, Case& c) {	// single call: exact text
	Rng r(s.upto(1u << 30)); std::vector<MgsOverload> v; std::string want; size_t k = s.below(6);
	for (size_t i = 0; i < k; i++) { std::string x; v.push_back(item(s, x, r, true)); if (x.size()) want += (want.size() ? " " : "") + x; }
	c.note("items -> " + show(want)); bool e = s.flip(); int p[2]; if (pipe(p)) c.fail("pipe"); fcntl(p[1], F_SETPIPE_SZ, 1 << 18); int fd = e ? 2 : 1; fflush(stdout); int sv = dup(fd); dup2(p[1], fd); close(p[1]);
	auto go = [&](std::initializer_list<MgsOverload> l) { if (e) syncout.error(l); else syncout.log(l); };
	switch (k) { case 0: go({}); break; case 1: if (s.flip()) go({ v[0] }); else if (e) syncout.error(v[0]); else syncout.log(v[0]); break; case 2: go({ v[0], v[1] }); break; case 3: go({ v[0], v[1], v[2] }); break; case 4: go({ v[0], v[1], v[2], v[3] }); break; default: go({ v[0], v[1], v[2], v[3], v[4] }); }
	fflush(stdout); dup2(sv, fd); close(sv); auto got = drain(p[0]); close(p[0]);
	if (want.size()) want += "\n"; else c.checkf(got.empty() || got == "\n", [&] { return "a call with nothing to print wrote " + show(got); });
	if (want.size()) c.checkf(got == want, [&] { return "wrote " + show(got, 400) + ", expected " + show(want, 400); });
	c.nontrivial(k > 1);
}
int main(int argc, char** argv) {
	return run(argc, argv, "C27", {
		{ "line", lone, 60000, 1000000, "one log or error call with up to 5 items of every supported type, exact text; non-trivial: more than one item", 8, 20 },
		{ "threads", logs, 3000, 60000, "1-12 threads writing tagged lines to both streams (one or two pipes, all buffering modes): every line whole, once, in its thread's order, on its stream; non-trivial: at least two threads", 8, 60, 100, false, true },
	});
}
