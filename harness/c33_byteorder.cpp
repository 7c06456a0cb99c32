// C33: byte order helpers
#include "pbt.hpp"
#include <core/utils/utils.hpp>
using namespace pbt; using namespace Lambda;

template <class T> static void one(Case& c, T v, const char* name) {
	typename std::make_unsigned<T>::type u = v; uint8_t be[sizeof(T)], le[sizeof(T)];
	for (size_t i = 0; i < sizeof(T); i++) { be[sizeof(T) - 1 - i] = (uint8_t)(u >> (8 * i)); le[i] = (uint8_t)(u >> (8 * i)); }
	T n = Bits::netwnormx(v), st = Bits::storenormx(v);
	auto hx = [](uint64_t x) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)x); return std::string(b); };
	c.checkf(!memcmp(&n, be, sizeof(T)), [&] { return std::string("netwnormx<") + name + ">(" + hx(u) + ") = " + hx((typename std::make_unsigned<T>::type)n) + " is not the big-endian form"; });
	c.checkf(!memcmp(&st, le, sizeof(T)), [&] { return std::string("storenormx<") + name + ">(" + hx(u) + ") is not the little-endian form"; });
	c.checkf(Bits::netwnormx(n) == v && Bits::storenormx(st) == v, [&] { return std::string(name) + " " + hx(u) + ": applying the helper twice does not give the value back"; });
}
static uint64_t value(Src& s) {
	switch (s.weighted({ 2, 2, 2, 1 })) {
		case 0: return s.upto(UINT64_MAX);
		case 1: { uint64_t v = 0; for (int i = 0; i < 8; i++) v = v << 8 | s.pick({ 0, 1, 0x7f, 0x80, 0xff, 0x5a }); return v; }
		case 2: return 1ull << s.below(64);
		default: return s.upto(70000) * (s.flip() ? -1 : 1);
	}
}
static void random_values(Src& s, Case& c) {
	auto v = value(s); char b[40]; snprintf(b, 40, "value 0x%016llx", (unsigned long long)v); c.note(b);
	one<int16_t>(c, v, "int16"); one<uint16_t>(c, v, "uint16"); one<int32_t>(c, v, "int32"); one<uint32_t>(c, v, "uint32"); one<int64_t>(c, v, "int64"); one<uint64_t>(c, v, "uint64");
	c.nontrivial(v > 255);
}
static void all16(Src& s, Case& c) {
	uint32_t hi = s.below(256); c.note("all 16-bit values with high byte " + std::to_string(hi));
	for (uint32_t lo = 0; lo < 256; lo++) { one<int16_t>(c, hi << 8 | lo, "int16"); one<uint16_t>(c, hi << 8 | lo, "uint16"); }
	c.nontrivial();
}
int main(int argc, char** argv) {
	return run(argc, argv, "C33", {
		{ "values", random_values, 2000000, 30000000, "64-bit patterns (uniform, single bits, sign and boundary bytes) through all six overloads of both helpers vs shifting; non-trivial: more than one byte" },
		{ "all16", all16, 4000, 20000, "all 256 values with a drawn high byte (in effect every 16-bit value); all non-trivial" },
	});
}
