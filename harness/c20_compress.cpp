// C20: compression codecs
#include "pbt.hpp"
#include "leak.hpp"
#include "ref_inflate.hpp"
#include <brotli/decode.h>
#include <brotli/encode.h>
#include <core/compression/compression.hpp>
#include <optional>
#include <zlib.h>
using namespace pbt; using namespace Lambda::Compress;
typedef std::vector<uint8_t> V;
static constexpr size_t K = 128 * 1024;

static V data(Src& s, size_t max) {
	size_t n; switch (s.weighted({ 6, 3, 2, 1 })) { case 0: n = s.len(600); break; case 1: n = s.len(max); break; case 2: n = std::min<size_t>(max, K * (1 + s.below(4)) + s.below(65) - 32); break; default: n = std::min<size_t>(max, K * (1 + s.below(4))); }
	auto d = s.bytes(n); if (n > 100 && s.chance(1, 4)) { auto e = s.bytes(n / 2); std::copy(e.begin(), e.end(), d.begin() + n / 4); } return d;
}
// live heap apart from the case description
static size_t live_now(Case& c) { auto n = live_bytes(); return n ? n - c.text.capacity() : 0; }
static void no_leak(Case& c, size_t live, size_t slack) { if (!live) return; auto n = live_now(c); c.checkf(n <= live + slack, [&] { return "memory is leaked: " + std::to_string(n - live) + " bytes"; }); }
static std::string what(const V& d) { return std::to_string(d.size()) + " bytes " + show(d, 48); }
static void equal(Case& c, const V& got, const V& want, const char* w) {
	if (got == want) return; size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
	c.fail(std::string(w) + ": got " + std::to_string(got.size()) + " bytes, expected " + std::to_string(want.size()) + ", first difference at " + std::to_string(i));
}
template <class F> static V run_ok(Case& c, const char* w, F f) { try { return f(); } catch (const std::exception& e) { c.fail(std::string(w) + " threw: " + e.what()); } }
static ZlibSetHeader header(Src& s) { return s.pick({ ZlibSetHeader::Gzip, ZlibSetHeader::Defalte, ZlibSetHeader::Raw }); }

static void zlib_roundtrip(Src& s, Case& c) {
	auto d = data(s, 600000); auto q = (Quality)s.below(10); auto h = header(s); c.note("quality " + std::to_string((int)q) + " header " + std::to_string((int)h) + " data " + what(d));
	auto live = live_now(c); {
		auto z = run_ok(c, "compressing", [&] { return zlibCompressBuffer(d, q, h); });
		if (d.empty()) c.check(z.empty() && zlibDecompressBuffer(z).empty(), "empty input does not give empty output");
		else {
			V ref = run_ok(c, "independent decoder", [&] { size_t p = 0; if (h == ZlibSetHeader::Gzip) return refz::gunzip(z); if (h == ZlibSetHeader::Defalte) return refz::unzlib(z); auto o = refz::inflate_raw(z, p); if (p != z.size()) throw std::runtime_error("trailing data"); return o; });
			equal(c, ref, d, "independent decoder");
			if (h != ZlibSetHeader::Raw) equal(c, run_ok(c, "decompressing", [&] { return zlibDecompressBuffer(z); }), d, "round trip");
		}
	}
	no_leak(c, live, 64); c.nontrivial(d.size() > 20); if (d.size() > K) c.label("longer than a chunk"); if (d.size() && d.size() % K == 0) c.label("multiple of the chunk");
}
// zlib or gzip streams made by other writers
static V foreign(Src& s, const V& d, std::string& how) {
	if (s.flip()) {
		z_stream z{}; int wb = 9 + s.below(7); bool gz = s.flip(); deflateInit2(&z, s.below(10), Z_DEFLATED, gz ? wb + 16 : wb, 1 + s.below(9), s.below(5)); V o(deflateBound(&z, d.size()) + 4096 + d.size()); z.next_out = o.data(); z.avail_out = o.size(); size_t at = 0; int n = s.count(4);
		how = std::string("zlib ") + (gz ? "gzip" : "deflate") + " window " + std::to_string(wb);
		for (int i = 0; i < n; i++) { size_t k = d.size() ? s.len(d.size() - at) : 0; z.next_in = (Bytef*)d.data() + at; z.avail_in = k; at += k; deflate(&z, s.pick({ Z_NO_FLUSH, Z_SYNC_FLUSH, Z_FULL_FLUSH, Z_PARTIAL_FLUSH })); at -= z.avail_in; }
		z.next_in = (Bytef*)d.data() + at; z.avail_in = d.size() - at; int r = deflate(&z, Z_FINISH); o.resize(z.total_out); deflateEnd(&z); if (r != Z_STREAM_END) throw Discard{}; return o;
	}
	refz::Writer w; size_t at = 0; Rng r(s.upto(0xffffffff)); size_t blocks = 1 + s.count(5); int style = s.below(3);
	for (size_t b = 0; b < blocks; b++) {
		bool last = b + 1 == blocks; size_t n = last ? d.size() - at : s.len(std::min<size_t>(d.size() - at, 65535)); int t = style == 2 ? (int)r.below(2) : style;
		if (t == 0) { while (n > 65535) { w.stored(d.data() + at, 65535, false); at += 65535; n -= 65535; } w.stored(d.data() + at, n, last); at += n; }
		else {
			w.fixed_begin(last); size_t end = at + n;
			while (at < end) {
				bool m = false; if (at && r.below(3)) for (int tr = 0; tr < 3 && !m; tr++) { size_t dist = 1 + r.below(std::min<size_t>(at, r.below(2) ? 32768 : 600)), len = 0; while (len < 258 && at + len < end && d[at + len] == d[at + len - dist]) len++; if (len >= 3) { if (r.below(4) == 0) len = 3 + r.below(len - 2); w.match(len, dist); at += len; m = true; } }
				if (!m) w.sym(d[at++]);
			}
			w.end_block();
		}
	}
	w.align(); bool gz = s.flip(); int fl = gz ? s.upto(31) & 30 : 0; how = std::string("own writer ") + (gz ? "gzip flags " + std::to_string(fl) : "zlib") + " style " + std::to_string(style);
	return gz ? refz::wrap_gzip(w.out, d, fl, s.bytes(s.len(300))) : refz::wrap_zlib(w.out, d);
}
static void zlib_foreign(Src& s, Case& c) {
	auto d = data(s, 500000); std::string how; auto z = foreign(s, d, how); c.note(how + " data " + what(d));
	equal(c, run_ok(c, "decompressing", [&] { return zlibDecompressBuffer(z); }), d, "decompressed"); c.nontrivial(d.size() > 20);
}
static size_t piece(Src& s, size_t left) { switch (s.weighted({ 3, 2, 1, 1, 1 })) { case 0: return std::min<size_t>(left, s.len(3000)); case 1: return s.len(left); case 2: return 0; case 3: return left; default: return left > 40 ? left - s.below(40) : left; } }
static void stream_compress(Src& s, Case& c) {
	auto q = (Quality)s.below(10); c.note("quality " + std::to_string((int)q)); auto live = live_now(c); bool several = false, moved = false;
	{
		std::optional<GzipStreamCompressor> z; z.emplace(q); size_t streams = 1 + s.below(3);
		for (size_t i = 0; i < streams; i++) {
			V in, out; auto add = [&](const V& v) { out.insert(out.end(), v.begin(), v.end()); }; std::string log;
			auto move = [&] { if (!s.chance(1, 6)) return; moved = true; if (s.flip()) { GzipStreamCompressor t(std::move(*z)); z.emplace(std::move(t)); log += " move"; } else { GzipStreamCompressor t((Quality)s.below(10)); if (s.flip()) { V x = s.bytes(s.len(100)); t.nextChunk(x); } t = std::move(*z); z.reset(); z.emplace(std::move(t)); log += " move-assign"; } };
			size_t n = s.count(10); bool ended = false; bool abandon = i + 1 < streams && s.chance(1, 4);
			for (size_t k = 0; k < n; k++) {
				V d = s.weighted({ 5, 1, 1 }) == 0 ? s.bytes(s.len(4000)) : s.flip() ? V() : s.bytes(s.flip() ? K + s.below(64) - 40 : s.len(300000)); log += " chunk " + std::to_string(d.size()); V copy = d; bool fin = k + 1 == n && s.chance(1, 3);
				try { add(fin ? z->nextChunk(d, GzipStreamCompressor::StreamFlush::Finish) : s.flip() ? z->nextChunk(d) : z->nextChunk(d, GzipStreamCompressor::StreamFlush::Noflush)); } catch (const std::exception& e) { c.note(log); c.fail(std::string("nextChunk threw: ") + e.what()); }
				c.check(d == copy, "nextChunk changed its input"); in.insert(in.end(), copy.begin(), copy.end()); ended = fin; if (fin) log += " finish"; move();
			}
			if (abandon && !ended) { c.note(log + " reset"); z->reset(); continue; }
			if (!ended) { try { add(z->end()); log += " end"; } catch (const std::exception& e) { c.note(log); c.fail(std::string("end threw: ") + e.what()); } }
			c.note(log); bool refused = false; V more{ 1 }; try { z->nextChunk(more); } catch (const std::exception&) { refused = true; } c.check(refused, "an ended stream accepts more data");
			V ref = run_ok(c, "independent decoder", [&] { return refz::gunzip(out); }); equal(c, ref, in, "independent decoder");
			if (out.size() < 400000) { GzipStreamDecompressor x; V got = run_ok(c, "stream decompressor", [&] { return x.nextChunk(out); }); equal(c, got, in, "stream decompressor"); c.check(x.isDone(), "decompressor does not report the end"); equal(c, run_ok(c, "one-shot decompressor", [&] { return zlibDecompressBuffer(out); }), in, "one-shot decompressor"); }
			several |= n > 2 && in.size() > 100; z->reset();
		}
	}
	no_leak(c, live, 256); c.nontrivial(several); if (moved) c.label("moved");
}
// does zlib itself find an error in the data (as opposed to a missing rest)?
static bool data_error(const V& z) { z_stream x{}; inflateInit2(&x, 32); x.next_in = (Bytef*)z.data(); x.avail_in = z.size(); int r; do { uint8_t buf[9000]; x.next_out = buf; x.avail_out = sizeof buf; r = inflate(&x, Z_NO_FLUSH); } while (r == Z_OK && x.avail_out == 0); inflateEnd(&x); return r == Z_DATA_ERROR; }
static void stream_decompress(Src& s, Case& c) {
	auto live = live_now(c); bool several = false, moved = false;
	{
		std::optional<GzipStreamDecompressor> x; x.emplace(); size_t streams = 1 + s.below(3);
		for (size_t i = 0; i < streams; i++) {
			auto d = data(s, 400000); std::string how; V z; int src = s.below(3);
			if (src == 0) z = foreign(s, d, how); else if (src == 1) { z = zlibCompressBuffer(d, (Quality)s.below(10), s.flip() ? ZlibSetHeader::Gzip : ZlibSetHeader::Defalte); how = "library"; } else { GzipStreamCompressor g((Quality)s.below(10)); z = g.nextChunk(d); auto e = g.end(); z.insert(z.end(), e.begin(), e.end()); how = "library stream"; }
			if (z.empty()) continue;
			int mode = s.weighted({ 3, 1, 1 }); V bad = z; if (mode == 2) { bad[s.below(bad.size())] ^= 1 + s.below(255); } if (mode == 1) bad.resize(s.below(bad.size())); if (mode) how += mode == 1 ? " truncated to " + std::to_string(bad.size()) : " corrupted";
			std::string log = how + " data " + what(d) + " chunks"; V out; size_t at = 0; bool threw = false; size_t n = 0;
			auto move = [&] { if (!s.chance(1, 8)) return; moved = true; if (s.flip()) { GzipStreamDecompressor t(std::move(*x)); x.emplace(std::move(t)); } else { GzipStreamDecompressor t; if (s.flip()) { V p{ 0x1f, 0x8b, 8 }; t.nextChunk(p); } t = std::move(*x); x.reset(); x.emplace(std::move(t)); } log += " move"; };
			try {
				while (at < bad.size() && !x->isDone()) { size_t k = ++n > 40 ? bad.size() - at : piece(s, bad.size() - at); log += " " + std::to_string(k); V ch(bad.begin() + at, bad.begin() + at + k); at += k; auto o = x->nextChunk(ch); out.insert(out.end(), o.begin(), o.end()); if (out.size() > (48u << 20)) throw Discard{}; move(); }
				if (s.chance(1, 4) && !x->isDone()) { V e; auto o = x->nextChunk(e); out.insert(out.end(), o.begin(), o.end()); log += " 0"; }
			} catch (const std::exception& e) { threw = true; log += std::string(" threw ") + e.what(); }
			c.note(log); bool done = !threw && x->isDone();
			if (mode == 0) { c.check(done, threw ? "valid stream refused" : "end of the stream not reported"); equal(c, out, d, "streamed"); bool refused = false; V more{ 1 }; try { x->nextChunk(more); } catch (const std::exception&) { refused = true; } c.check(refused, "a finished stream accepts more data"); }
			else if (mode == 1) { c.check(!done, "a truncated stream is reported complete"); c.check(out.size() <= d.size() && std::equal(out.begin(), out.end(), d.begin()), "a truncated stream yields other bytes"); c.label("truncated"); }
			else if (done && out != d) { V ref; bool ok = true; size_t u; try { ref = bad[0] == 0x1f ? refz::gunzip(bad, &u) : refz::unzlib(bad, &u); } catch (const std::exception&) { ok = false; } c.check(ok && ref == out, "a corrupted stream is accepted with other contents"); }
			if (mode == 2) { c.label("corrupted"); c.check(threw || !data_error(bad), "a corrupted stream was read to its end without an error"); }
			several |= n > 1 && d.size() > 100; x->reset(); c.check(!x->isDone(), "reset stream reports done");
		}
	}
	no_leak(c, live, 256); c.nontrivial(several); if (moved) c.label("moved");
}
static void zlib_damage(Src& s, Case& c) {
	auto d = data(s, 300000); V z; std::string how; if (s.flip()) { auto h = s.flip() ? ZlibSetHeader::Gzip : ZlibSetHeader::Defalte; z = zlibCompressBuffer(d, (Quality)s.below(10), h); how = "library"; } else z = foreign(s, d, how); if (z.empty()) return;
	V bad = z; bool trunc = s.flip();
	if (trunc) { bad.resize(1 + s.below(z.size() - 1)); if (s.chance(1, 4)) bad.resize(z.size() - std::min<size_t>(z.size() - 1, 1 + s.below(9))); } else { size_t at = s.chance(1, 3) ? s.below(std::min<size_t>(z.size(), 20)) : s.chance(1, 2) ? z.size() - 1 - s.below(std::min<size_t>(z.size(), 12)) : s.below(z.size()); bad[at] ^= 1 + s.below(255); how += " byte " + std::to_string(at); }
	c.note(how + (trunc ? " truncated to " + std::to_string(bad.size()) : " corrupted") + " data " + what(d)); V got; bool threw = false; try { got = zlibDecompressBuffer(bad); } catch (const std::exception&) { threw = true; }
	if (trunc) c.check(threw, "truncated data accepted");
	else if (!threw && got != d) { bool ok = true; V ref; size_t u; try { ref = bad[0] == 0x1f ? refz::gunzip(bad, &u) : refz::unzlib(bad, &u); } catch (const std::exception&) { ok = false; } c.check(ok && ref == got, "corrupted data accepted with other contents"); }
	c.label(threw ? "rejected" : "unchanged contents"); c.nontrivial(threw);
}
static V brotli_ref(const V& z, bool& ok) { V o; BrotliDecoderState* b = BrotliDecoderCreateInstance(nullptr, nullptr, nullptr); size_t in = z.size(); const uint8_t* p = z.data(); BrotliDecoderResult r; do { uint8_t buf[5000]; size_t on = sizeof buf; uint8_t* q = buf; r = BrotliDecoderDecompressStream(b, &in, &p, &on, &q, nullptr); o.insert(o.end(), buf, buf + (sizeof buf - on)); } while (r == BROTLI_DECODER_RESULT_NEEDS_MORE_OUTPUT); ok = r == BROTLI_DECODER_RESULT_SUCCESS; BrotliDecoderDestroyInstance(b); return o; }
static void brotli(Src& s, Case& c) {
	auto q = (Quality)s.below(10); auto d = data(s, (int)q > 7 ? 300000 : 600000); bool lib = s.flip(), ok; V z; c.note((lib ? "library quality " + std::to_string((int)q) : std::string("reference encoder")) + " data " + what(d)); auto live = live_now(c);
	if (lib) { z = run_ok(c, "compressing", [&] { return brotliCompressBuffer(d, q); }); if (d.empty()) { c.check(z.empty(), "empty input gives output"); return; } auto r = brotli_ref(z, ok); c.check(ok, "reference decoder refuses the output"); equal(c, r, d, "reference decoder"); }
	else {
		auto* e = BrotliEncoderCreateInstance(nullptr, nullptr, nullptr); BrotliEncoderSetParameter(e, BROTLI_PARAM_QUALITY, s.below(d.size() > 100000 ? 8 : 12)); BrotliEncoderSetParameter(e, BROTLI_PARAM_LGWIN, 10 + s.below(15)); BrotliEncoderSetParameter(e, BROTLI_PARAM_MODE, s.below(3));
		size_t at = 0, n = s.count(4); auto push = [&](size_t k, BrotliEncoderOperation op) { const uint8_t* p = d.data() + at; at += k; do { uint8_t buf[8192]; size_t on = sizeof buf; uint8_t* o = buf; BrotliEncoderCompressStream(e, op, &k, &p, &on, &o, nullptr); z.insert(z.end(), buf, buf + (sizeof buf - on)); } while (k || BrotliEncoderHasMoreOutput(e)); };
		for (size_t i = 0; i < n; i++) push(s.len(d.size() - at), s.flip() ? BROTLI_OPERATION_FLUSH : BROTLI_OPERATION_PROCESS); push(d.size() - at, BROTLI_OPERATION_FINISH); BrotliEncoderDestroyInstance(e);
	}
	{ auto got = run_ok(c, "decompressing", [&] { return brotliDecompressBuffer(z); }); equal(c, got, d, "round trip"); }
	if (s.chance(1, 8)) { V more = z; auto x = s.bytes(1 + (s.flip() ? s.len(300) : K + s.len(2 * K))); more.insert(more.end(), x.begin(), x.end()); c.note("then followed by " + what(x)); V got; bool threw = false; try { got = brotliDecompressBuffer(more); } catch (const std::exception&) { threw = true; } c.check(threw || got == d, "data after the end changes the contents"); c.label("followed by other data"); }
	V bad = z; bool trunc = s.flip(); if (trunc) { bad.resize(s.below(z.size())); if (bad.empty()) return; } else bad[s.below(bad.size())] ^= 1 + s.below(255);
	c.note(trunc ? "then truncated to " + std::to_string(bad.size()) : "then one byte corrupted"); auto ref = brotli_ref(bad, ok); if (ref.size() > (64u << 20)) return; bool threw = false; V got; try { got = brotliDecompressBuffer(bad); } catch (const std::exception&) { threw = true; }
	if (trunc) c.check(threw, "truncated data accepted"); else if (!threw) c.check(ok && got == ref, "corrupted data gives contents the reference decoder does not");
	{ V().swap(z); V().swap(bad); V().swap(ref); V().swap(got); } no_leak(c, live, 256);
	c.nontrivial(d.size() > 20); c.label(threw ? "damaged: rejected" : "damaged: still decodes");
}
static void garbage(Src& s, Case& c) {
	V z = s.bytes(s.len(2000)); if (s.chance(1, 2)) { V h = s.pick({ V{ 0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3 }, V{ 0x78, 0x9c }, V{ 0x78, 0xbb }, V{ 0x0b }, V{ 0x1f, 0x8b } }); z.insert(z.begin(), h.begin(), h.end()); } c.note("input " + show(z)); int accepted = 0;
	try { auto o = zlibDecompressBuffer(z); bool ok = z.empty(); V r; size_t u; if (!ok) try { r = z[0] == 0x1f ? refz::gunzip(z, &u) : refz::unzlib(z, &u); ok = true; } catch (const std::exception&) {} accepted++; c.check(ok && r == o, "garbage accepted as deflate data"); } catch (const std::exception&) {}
	try { auto o = brotliDecompressBuffer(z); bool ok = true; V r = z.empty() ? V() : brotli_ref(z, ok); accepted++; c.check(ok && r == o, "garbage accepted as brotli data"); } catch (const std::exception&) {}
	try { GzipStreamDecompressor x; size_t at = 0; while (at < z.size() && !x.isDone()) { size_t k = 1 + s.below(z.size() - at); V ch(z.begin() + at, z.begin() + at + k); at += k; x.nextChunk(ch); } c.check(x.isDone() || !data_error(z), "garbage was read to its end without an error"); } catch (const std::exception&) {}
	c.nontrivial(z.size() > 10 && !accepted);
}
int main(int argc, char** argv) {
	return run(argc, argv, "C20", {
		{ "zlib_roundtrip", zlib_roundtrip, 8000, 120000, "buffers (empty to 600 kB, around chunk multiples) x quality x header; decoded by an independent inflate and by the library, leak-checked; non-trivial: more than 20 bytes", 8, 30, 20 },
		{ "zlib_foreign", zlib_foreign, 9000, 80000, "gzip/zlib streams by other writers (zlib with random window, level, strategy and flushes; own writer of stored and fixed blocks with header extras); non-trivial: more than 20 bytes", 8, 30, 20 },
		{ "stream_compress", stream_compress, 9000, 80000, "histories over a stream compressor: chunks of any size, finish/end, reset, abandon, move; output decoded independently; non-trivial: more than two chunks", 8, 30, 20 },
		{ "stream_decompress", stream_decompress, 9000, 80000, "streams of every origin, intact, truncated or corrupted, cut into arbitrary chunks, reset and moved; non-trivial: several chunks", 8, 30, 20 },
		{ "zlib_damage", zlib_damage, 10000, 120000, "one-shot decompression of truncated and single-byte-corrupted data; non-trivial: rejected", 8, 30, 20 },
		{ "brotli", brotli, 7000, 60000, "library and reference encoder output through both decoders, then truncated or corrupted; non-trivial: more than 20 bytes", 8, 30, 25 },
		{ "garbage", garbage, 20000, 500000, "arbitrary bytes behind plausible headers; non-trivial: rejected", 8, 20, 15 },
	});
}
