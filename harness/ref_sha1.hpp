#pragma once
#include <cstdint>
#include <string>
#include <vector>
// independent SHA-1, written from FIPS 180-4
struct RefSha1 {
	uint32_t h[5] = { 0x67452301u, 0xEFCDAB89u, 0x98BADCFEu, 0x10325476u, 0xC3D2E1F0u }; std::vector<uint8_t> buf; uint64_t total = 0;
	static uint32_t rol(uint32_t x, int n) { return x << n | x >> (32 - n); }
	void block(const uint8_t* p) {
		uint32_t w[80]; for (int i = 0; i < 16; i++) w[i] = (uint32_t)p[4 * i] << 24 | (uint32_t)p[4 * i + 1] << 16 | (uint32_t)p[4 * i + 2] << 8 | p[4 * i + 3];
		for (int i = 16; i < 80; i++) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
		uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
		for (int i = 0; i < 80; i++) {
			uint32_t f, k;
			if (i < 20) { f = (b & c) | (~b & d); k = 0x5A827999; } else if (i < 40) { f = b ^ c ^ d; k = 0x6ED9EBA1; }
			else if (i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8F1BBCDC; } else { f = b ^ c ^ d; k = 0xCA62C1D6; }
			uint32_t t = rol(a, 5) + f + e + k + w[i]; e = d; d = c; c = rol(b, 30); b = a; a = t;
		}
		h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
	}
	void update(const uint8_t* p, size_t n) {
		total += n; size_t i = 0;
		if (!buf.empty()) { while (i < n && buf.size() < 64) buf.push_back(p[i++]); if (buf.size() == 64) { block(buf.data()); buf.clear(); } }
		for (; i + 64 <= n; i += 64) block(p + i);
		buf.insert(buf.end(), p + i, p + n);
	}
	std::vector<uint8_t> digest() {
		uint64_t bits = total * 8; uint8_t one = 0x80, z = 0; update(&one, 1); while (buf.size() != 56) update(&z, 1);
		uint8_t l[8]; for (int i = 0; i < 8; i++) l[i] = bits >> (56 - 8 * i); update(l, 8);
		std::vector<uint8_t> o; for (auto x : h) for (int i = 3; i >= 0; i--) o.push_back(x >> (8 * i)); return o;
	}
};
inline std::vector<uint8_t> ref_sha1(const std::vector<uint8_t>& d) { RefSha1 r; r.update(d.data(), d.size()); return r.digest(); }
