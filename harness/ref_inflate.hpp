#pragma once
// Independent inflate (RFC 1950/1951/1952) written for these checks; no zlib involved.
#include <cstdint>
#include <stdexcept>
#include <string>
#include <vector>
namespace refz {
using Bytes = std::vector<uint8_t>;
inline uint32_t crc32(const uint8_t* p, size_t n, uint32_t c = 0) {
	struct Table { uint32_t at[256]; Table() { for (uint32_t i = 0; i < 256; i++) { uint32_t k = i; for (int j = 0; j < 8; j++) k = k & 1 ? 0xEDB88320u ^ (k >> 1) : k >> 1; at[i] = k; } } };
	static const Table t; const uint32_t* T = t.at;
	c = ~c; while (n--) c = T[(c ^ *p++) & 255] ^ (c >> 8); return ~c;
}
inline uint32_t adler(const Bytes& d) { uint32_t a = 1, b = 0; for (auto x : d) { a = (a + x) % 65521; b = (b + a) % 65521; } return b << 16 | a; }
struct Bits {
	const Bytes& in; size_t pos; uint32_t buf = 0; int cnt = 0;
	Bits(const Bytes& i, size_t p) : in(i), pos(p) {}
	uint32_t get(int n) { while (cnt < n) { if (pos >= in.size()) throw std::runtime_error("truncated"); buf |= (uint32_t)in[pos++] << cnt; cnt += 8; } uint32_t v = buf & ((1u << n) - 1); buf >>= n; cnt -= n; return v; }
	void align() { buf = 0; cnt = 0; }
};
struct Huff {
	uint16_t count[16] = {}, symbol[288] = {};
	void make(const uint8_t* len, int n) {
		for (auto& c : count) c = 0; for (int i = 0; i < n; i++) count[len[i]]++;
		uint16_t offs[16]; offs[1] = 0; for (int i = 1; i < 15; i++) offs[i + 1] = offs[i] + count[i];
		for (int i = 0; i < n; i++) if (len[i]) symbol[offs[len[i]]++] = i; count[0] = 0;
		int left = 1; for (int i = 1; i <= 15; i++) { left = (left << 1) - count[i]; if (left < 0) throw std::runtime_error("over-subscribed code"); }
	}
	int decode(Bits& b) const { int code = 0, first = 0, index = 0; for (int l = 1; l <= 15; l++) { code |= b.get(1); int c = count[l]; if (code - c < first) return symbol[index + (code - first)]; index += c; first = (first + c) << 1; code <<= 1; } throw std::runtime_error("bad code"); }
};
inline Bytes inflate_raw(const Bytes& in, size_t& pos, size_t limit = 64u << 20) {
	static const uint16_t LB[] = { 3,4,5,6,7,8,9,10,11,13,15,17,19,23,27,31,35,43,51,59,67,83,99,115,131,163,195,227,258 }, LE[] = { 0,0,0,0,0,0,0,0,1,1,1,1,2,2,2,2,3,3,3,3,4,4,4,4,5,5,5,5,0 };
	static const uint16_t DB[] = { 1,2,3,4,5,7,9,13,17,25,33,49,65,97,129,193,257,385,513,769,1025,1537,2049,3073,4097,6145,8193,12289,16385,24577 }, DE[] = { 0,0,0,0,1,1,2,2,3,3,4,4,5,5,6,6,7,7,8,8,9,9,10,10,11,11,12,12,13,13 };
	Bits b(in, pos); Bytes out; bool last;
	do {
		last = b.get(1); int type = b.get(2);
		if (type == 0) {
			b.align(); auto u = [&] { if (b.pos >= in.size()) throw std::runtime_error("truncated"); return (uint32_t)in[b.pos++]; };
			uint32_t n = u(); n |= u() << 8; uint32_t m = u(); m |= u() << 8; if ((n ^ m) != 0xffff) throw std::runtime_error("bad stored length");
			for (uint32_t i = 0; i < n; i++) out.push_back(u());
		} else if (type == 3) throw std::runtime_error("bad block type");
		else {
			Huff l, d; uint8_t len[320];
			if (type == 1) { int i = 0; for (; i < 144; i++) len[i] = 8; for (; i < 256; i++) len[i] = 9; for (; i < 280; i++) len[i] = 7; for (; i < 288; i++) len[i] = 8; l.make(len, 288); for (i = 0; i < 30; i++) len[i] = 5; d.make(len, 30); }
			else {
				int nl = b.get(5) + 257, nd = b.get(5) + 1, nc = b.get(4) + 4; static const uint8_t ord[] = { 16,17,18,0,8,7,9,6,10,5,11,4,12,3,13,2,14,1,15 };
				if (nl > 286 || nd > 30) throw std::runtime_error("too many codes"); uint8_t cl[19] = {}; for (int i = 0; i < nc; i++) cl[ord[i]] = b.get(3); Huff c; c.make(cl, 19);
				int i = 0; while (i < nl + nd) { int s = c.decode(b); if (s < 16) len[i++] = s; else { int r, v = 0; if (s == 16) { if (!i) throw std::runtime_error("no previous length"); v = len[i - 1]; r = 3 + b.get(2); } else r = s == 17 ? 3 + b.get(3) : 11 + b.get(7); if (i + r > nl + nd) throw std::runtime_error("too many lengths"); while (r--) len[i++] = v; } }
				if (!len[256]) throw std::runtime_error("no end code"); l.make(len, nl); d.make(len + nl, nd);
			}
			while (true) {
				int s = l.decode(b); if (s < 256) out.push_back(s); else if (s == 256) break;
				else { s -= 257; if (s >= 29) throw std::runtime_error("bad length"); size_t n = LB[s] + b.get(LE[s]); int t = d.decode(b); if (t >= 30) throw std::runtime_error("bad distance"); size_t dist = DB[t] + b.get(DE[t]); if (dist > out.size()) throw std::runtime_error("distance too far"); for (size_t i = 0; i < n; i++) out.push_back(out[out.size() - dist]); }
				if (out.size() > limit) throw std::runtime_error("output limit");
			}
		}
		if (out.size() > limit) throw std::runtime_error("output limit");
	} while (!last);
	pos = b.pos - b.cnt / 8; return out;
}
// complete gzip member / zlib stream; throws unless everything, checksum included, is right
inline Bytes gunzip(const Bytes& in, size_t* used = nullptr) {
	if (in.size() < 18 || in[0] != 0x1f || in[1] != 0x8b || in[2] != 8 || in[3] & 0xe0) throw std::runtime_error("not gzip");
	size_t p = 10; auto need = [&](size_t n) { if (p + n > in.size()) throw std::runtime_error("truncated"); };
	if (in[3] & 4) { need(2); size_t n = in[p] | in[p + 1] << 8; p += 2; need(n); p += n; }
	for (int f : { 8, 16 }) if (in[3] & f) { while (true) { need(1); if (!in[p++]) break; } }
	if (in[3] & 2) { need(2); if ((crc32(in.data(), p) & 0xffff) != (uint32_t)(in[p] | in[p + 1] << 8)) throw std::runtime_error("header crc"); p += 2; }
	auto out = inflate_raw(in, p); need(8); auto le = [&](size_t o) { return (uint32_t)in[o] | in[o + 1] << 8 | in[o + 2] << 16 | (uint32_t)in[o + 3] << 24; };
	if (le(p) != crc32(out.data(), out.size()) || le(p + 4) != (uint32_t)out.size()) throw std::runtime_error("checksum");
	if (used) *used = p + 8; else if (p + 8 != in.size()) throw std::runtime_error("trailing data"); return out;
}
inline Bytes unzlib(const Bytes& in, size_t* used = nullptr) {
	if (in.size() < 6 || (in[0] & 15) != 8 || (in[0] >> 4) > 7 || (in[0] << 8 | in[1]) % 31 || in[1] & 32) throw std::runtime_error("not zlib");
	size_t p = 2; auto out = inflate_raw(in, p); if (p + 4 > in.size()) throw std::runtime_error("truncated");
	if (((uint32_t)in[p] << 24 | in[p + 1] << 16 | in[p + 2] << 8 | in[p + 3]) != adler(out)) throw std::runtime_error("checksum");
	if (used) *used = p + 4; else if (p + 4 != in.size()) throw std::runtime_error("trailing data"); return out;
}
// a small deflate writer: stored blocks and fixed-code blocks with literals and matches chosen by the caller
struct Writer {
	Bytes out; uint32_t buf = 0; int cnt = 0;
	void put(uint32_t v, int n) { buf |= v << cnt; cnt += n; while (cnt >= 8) { out.push_back(buf); buf >>= 8; cnt -= 8; } }
	void code(uint32_t v, int n) { uint32_t r = 0; for (int i = 0; i < n; i++) r |= (v >> i & 1) << (n - 1 - i); put(r, n); }
	void align() { if (cnt) { out.push_back(buf); buf = 0; cnt = 0; } }
	void stored(const uint8_t* p, size_t n, bool last) { put(last, 1); put(0, 2); align(); out.push_back(n); out.push_back(n >> 8); out.push_back(~n); out.push_back(~n >> 8); out.insert(out.end(), p, p + n); }
	void fixed_begin(bool last) { put(last, 1); put(1, 2); }
	void sym(int s) { if (s < 144) code(0x30 + s, 8); else if (s < 256) code(0x190 + s - 144, 9); else if (s < 280) code(s - 256, 7); else code(0xC0 + s - 280, 8); }
	void match(size_t len, size_t dist) {
		static const uint16_t LB[] = { 3,4,5,6,7,8,9,10,11,13,15,17,19,23,27,31,35,43,51,59,67,83,99,115,131,163,195,227,258 }, LE[] = { 0,0,0,0,0,0,0,0,1,1,1,1,2,2,2,2,3,3,3,3,4,4,4,4,5,5,5,5,0 };
		static const uint16_t DB[] = { 1,2,3,4,5,7,9,13,17,25,33,49,65,97,129,193,257,385,513,769,1025,1537,2049,3073,4097,6145,8193,12289,16385,24577 }, DE[] = { 0,0,0,0,1,1,2,2,3,3,4,4,5,5,6,6,7,7,8,8,9,9,10,10,11,11,12,12,13,13 };
		int l = 28; while (LB[l] > len) l--; sym(257 + l); put(len - LB[l], LE[l]); int d = 29; while (DB[d] > dist) d--; code(d, 5); put(dist - DB[d], DE[d]);
	}
	void end_block() { sym(256); }
};
inline Bytes wrap_gzip(const Bytes& deflated, const Bytes& data, uint8_t flags, const Bytes& extra = {}) {
	Bytes o{ 0x1f, 0x8b, 8, flags, 1, 2, 3, 4, 0, 255 }; if (flags & 4) { o.push_back(extra.size()); o.push_back(extra.size() >> 8); o.insert(o.end(), extra.begin(), extra.end()); } if (flags & 8) for (auto c : std::string("name.txt")) o.push_back(c); if (flags & 8) o.push_back(0); if (flags & 16) { o.push_back('c'); o.push_back(0); }
	if (flags & 2) { auto c = crc32(o.data(), o.size()); o.push_back(c); o.push_back(c >> 8); }
	o.insert(o.end(), deflated.begin(), deflated.end()); auto c = crc32(data.data(), data.size()); for (int i = 0; i < 4; i++) o.push_back(c >> 8 * i); for (int i = 0; i < 4; i++) o.push_back((uint32_t)data.size() >> 8 * i); return o;
}
inline Bytes wrap_zlib(const Bytes& deflated, const Bytes& data) { Bytes o{ 0x78, 0x9c }; o.insert(o.end(), deflated.begin(), deflated.end()); auto a = adler(data); for (int i = 3; i >= 0; i--) o.push_back(a >> 8 * i); return o; }
}
