// C21: SHA-1 against an independent implementation
#include "pbt.hpp"
#include "ref_sha1.hpp"
#include <core/crypto/crypto.hpp>
using namespace pbt; using namespace Lambda;

static std::string hexs(const Bytes& b) { std::string o; char t[3]; for (auto x : b) { snprintf(t, 3, "%02x", x); o += t; } return o; }
static void feed(Crypto::SHA1& h, Src& s, const Bytes& d, std::string& plan) {
	size_t at = 0; Rng r(0);
	size_t mode = s.weighted({ 2, 3, 1, 1 });
	while (at < d.size() || (mode == 1 && s.chance(1, 6))) {
		size_t n = mode == 0 ? d.size() - at : mode == 1 ? s.len(std::min<size_t>(d.size() - at, 300)) : mode == 2 ? std::min<size_t>(64, d.size() - at) : std::min<size_t>(1 + s.below(3), d.size() - at);
		if (s.flip()) { h.update(std::string(d.begin() + at, d.begin() + at + n)); plan += "t"; } else { h.update(Bytes(d.begin() + at, d.begin() + at + n)); plan += "b"; }
		plan += std::to_string(n) + " "; at += n;
		if (s.used() > 3000 || plan.size() > 12000) { h.update(Bytes(d.begin() + at, d.end())); plan += "rest"; break; }
	}
}
static void digest(Src& s, Case& c) {
	Crypto::SHA1 h; int rounds = 1 + s.below(3); std::string log;
	for (int k = 0; k < rounds; k++) {
		size_t n;
		switch (s.weighted({ 3, 3, 1 })) { case 0: n = s.len(400); break; case 1: { size_t q = s.below(6); n = q * 64 + s.below(20) + 50; } break; default: n = s.len(300000); }
		auto d = s.bytes(n); std::string plan; size_t cut = 0;
		if (k && s.flip()) { // leave junk in the state, then reset
			auto junk = s.bytes(s.len(200)); h.update(junk); if (s.flip()) h.digest(); log += "junk " + std::to_string(junk.size()) + " "; }
		if (k) { auto& rr = h.reset(); c.check(&rr == &h, "reset does not return the hasher"); log += "reset "; }
		feed(h, s, d, plan); (void)cut;
		log += "message of " + std::to_string(n) + " bytes in pieces " + plan + "; "; c.note(log);
		auto got = h.digest(), want = ref_sha1(d);
		c.checkf(got == want, [&] { return "round " + std::to_string(k) + ": digest " + hexs(got) + ", standard " + hexs(want); });
		c.nontrivial(n > 0); c.label(n % 64 >= 56 ? "padding needs an extra block" : "padding fits");
		if (n > 4096) c.label("more than 4 KiB");
	}
}
int main(int argc, char** argv) {
	Bytes abc = { 'a', 'b', 'c' };
	if (hexs(ref_sha1(abc)) != "a9993e364706816aba3e25717850c26c9cd0d89d" || hexs(ref_sha1({})) != "da39a3ee5e6b4b0d3255bfef95601890afd80709") { puts("reference SHA-1 is wrong"); return 3; }
	return run(argc, argv, "C21", {
		{ "digest", digest, 300000, 5000000, "1-3 messages through one hasher, each cut into pieces given as bytes or text, with reset between; lengths biased to the padding boundary; non-trivial: non-empty message" },
	});
}
