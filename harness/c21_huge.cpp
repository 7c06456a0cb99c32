// C21: SHA-1 of messages whose bit length needs more than 32 bits
#include "pbt.hpp"
#include "ref_sha1.hpp"
#include <core/crypto/crypto.hpp>
#include <memory>
using namespace pbt; using namespace Lambda;
static std::string hexs(const Bytes& b) { std::string o; char t[3]; for (auto x : b) { snprintf(t, 3, "%02x", x); o += t; } return o; }
// in pieces of any size; the bit count fills one length byte after the other
static void measure(Src& s, Case& c, uint64_t total) {
	c.note("message of " + std::to_string(total) + " bytes");
	Crypto::SHA1 h; RefSha1 r; Bytes blk = Src::expand(*std::make_unique<Rng>(s.upto(1000)), 4, 1 << 20); uint64_t left = total; bool text = s.flip(); size_t piece = s.pick({ blk.size(), (size_t)(64 * 1024 + 13), (size_t)4097 });
	while (left) { size_t n = std::min<uint64_t>(left, piece); Bytes b(blk.begin(), blk.begin() + n); if (text) h.update(std::string(b.begin(), b.end())); else h.update(b); r.update(b.data(), n); left -= n; }
	auto g = h.digest(), w = r.digest(); c.checkf(g == w, [&] { return "digest " + hexs(g) + ", standard " + hexs(w); });
	c.nontrivial();
}
static void large(Src& s, Case& c) { int bits = 16 + s.below(9); measure(s, c, (1ull << bits) + s.below(1ull << bits)); }
// lengths whose bit count does not fit 32 bits
static void huge(Src& s, Case& c) { measure(s, c, (512ull << 20) + s.below(160ull << 20)); }
int main(int argc, char** argv) {
	return run(argc, argv, "C21", {
		{ "large", large, 120, 1500, "messages of 64 KiB to 32 MiB in pieces of several sizes; all non-trivial", 4, 100, 100 },
		{ "huge", huge, 4, 12, "messages of more than 2^32 bits; all non-trivial", 4, 300, 200 },
	});
}
