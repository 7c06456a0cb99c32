// C19: base64 / hex / URI component coding
#include "loc.hpp"
#include <core/encoding/encoding.hpp>
using namespace pbt; using namespace Lambda;

static const std::string B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string ref_b64(const Bytes& d) {
	std::string o; uint32_t acc = 0; int bits = 0;
	for (auto b : d) { acc = (acc << 8 | b) & 0xffffff; bits += 8; while (bits >= 6) { bits -= 6; o += B64[acc >> bits & 63]; } }
	if (bits) o += B64[acc << (6 - bits) & 63];
	while (o.size() % 4) o += '=';
	return o;
}
static Bytes data(Src& s, size_t max = 70000) { return s.bytes(s.len(max)); }

static void b64_roundtrip(Src& s, Case& c) {
	auto d = data(s); c.note("bytes " + show(d));
	auto e = Encoding::toBase64(d);
	c.checkf(e == ref_b64(d), [&] { return "toBase64 gives " + show(e) + ", expected " + show(ref_b64(d)); });
	auto back = Encoding::fromBase64(e);
	c.checkf(back == d, [&] { return "fromBase64(toBase64(x)) != x: " + show(back); });
	auto un = e; while (un.size() && un.back() == '=') un.pop_back();
	auto back2 = Encoding::fromBase64(un);
	c.checkf(back2 == d, [&] { return "unpadded text " + show(un) + " decodes to " + show(back2); });
	c.nontrivial(d.size() > 0); c.label(d.size() % 3 == 0 ? "len%3=0" : d.size() % 3 == 1 ? "len%3=1" : "len%3=2");
}
template <class F> static std::optional<Bytes> attempt(F f) { try { auto r = f(); return Bytes(r.begin(), r.end()); } catch (const std::exception&) { return std::nullopt; } }

static void b64_reject(Src& s, Case& c) {
	auto e = ref_b64(data(s, 400)); size_t at = s.below(e.size() + 1);
	uint8_t bad; do { bad = s.upto(255); if (B64.find((char)bad) == std::string::npos && bad != '=') break; bad = "!-_ \n.,"[s.below(7)]; } while (0);
	if (s.flip() && at < e.size()) e[at] = bad; else e.insert(e.begin() + at, bad);
	c.note("text " + show(e));
	InLocale lo(pick_locale(s), &c); auto r = attempt([&] { return Encoding::fromBase64(e); });
	c.checkf(!r, [&] { return "text with the non-alphabet byte " + std::to_string(bad) + " was accepted, giving " + show(*r); });
	c.nontrivial(e.size() > 4);
}
static void b64_any(Src& s, Case& c) {
	std::string t; size_t n = s.len(300); for (size_t i = 0; i < n; i++) t += s.weighted({ 8, 1 }) ? '=' : B64[s.below(64)];
	c.note("text " + show(t));
	auto r = attempt([&] { return Encoding::fromBase64(t); });
	if (r) c.check(r->size() <= t.size(), "decoded text is longer than its encoding");
	c.nontrivial(t.find('=') != std::string::npos);
}
static void hex(Src& s, Case& c) {
	auto d = data(s, 5000); c.note("bytes " + show(d));
	static const char* H = "0123456789abcdef"; std::string lo; for (auto b : d) { lo += H[b >> 4]; lo += H[b & 15]; }
	auto e = Encoding::toHex(d); std::string el = e; for (auto& x : el) if (x >= 'A' && x <= 'F') x += 32;
	c.checkf(el == lo, [&] { return "toHex gives " + show(e); });
	c.check(Encoding::fromHex(e) == d, "fromHex(toHex(x)) != x");
	std::string mix = lo; Rng r(s.upto(1 << 20)); for (auto& x : mix) if (x >= 'a' && r.below(2)) x -= 32;
	c.checkf(Encoding::fromHex(mix) == d, [&] { return "mixed case text " + show(mix) + " decodes differently"; });
	for (auto b : { d.empty() ? uint8_t(0) : d[0] }) { auto hb = Encoding::byteToHex(b); c.check(Encoding::hexToByte(hb) == b, "hexToByte(byteToHex(b)) != b"); }
	c.nontrivial(d.size() > 0);
}
static void hex_reject(Src& s, Case& c) {
	std::string t; size_t n = s.len(80); for (size_t i = 0; i < n; i++) t += "0123456789abcdefABCDEF"[s.below(22)];
	bool odd = t.size() % 2, bad = false;
	if (t.size() && s.chance(2, 3)) {
		uint8_t x = s.upto(255); t[s.below(t.size())] = (char)x;
		bad = !isxdigit(x);
	}
	c.note("text " + show(t));
	std::optional<Bytes> r; { InLocale lo(pick_locale(s), &c); r = attempt([&] { return Encoding::fromHex(t); }); }
	if (odd || bad) c.checkf(!r, [&] { return "invalid hex text was accepted, giving " + show(*r); });
	else c.check(!!r, "valid hex text was rejected");
	c.nontrivial(odd || bad); c.label(bad ? "bad symbol" : odd ? "odd length" : "valid");
}
static bool hexd(char x) { return isxdigit((unsigned char)x); }
static void uri(Src& s, Case& c) {
	std::string d;
	switch (s.weighted({ 3, 2, 1 })) { case 0: d = s.bytestr(s.len(60)); break; case 1: d = s.str("aZ09-_.~!*'()%/?#[]@&=+$,; \"<>\\^`{|}\x01\n\x7f\x80\xc3\xa9\xff", s.len(60)); break; default: { auto b = data(s, 4000); d.assign(b.begin(), b.end()); } }
	c.note("text " + show(d));
	auto e = Encoding::encodeURIComponent(d);
	std::string ref; // independent decoding of the result
	for (size_t i = 0; i < e.size(); i++) {
		unsigned char x = e[i];
		if (x == '%') { c.checkf(i + 2 < e.size() && hexd(e[i + 1]) && hexd(e[i + 2]), [&] { return "malformed escape in " + show(e); }); ref += (char)strtol(e.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
		else { c.checkf(x < 0x80 && (isalnum(x) || strchr("-_.~!*'()", x)), [&] { return "unescaped reserved byte in " + show(e); }); ref += (char)x; }
	}
	c.checkf(ref == d, [&] { return "encodeURIComponent gives " + show(e) + " which stands for " + show(ref); });
	size_t un = 0, kept = 0; for (unsigned char x : d) if (x < 128 && (isalnum(x) || strchr("-_.~", x)) && x) un++;
	for (size_t i = 0; i < e.size(); i++) if (e[i] == '%') i += 2; else if (isalnum((unsigned char)e[i]) || strchr("-_.~", e[i])) kept++;
	c.checkf(un == kept, [&] { return "unreserved characters were escaped: " + show(e); });
	auto back = Encoding::decodeURIComponent(e);
	c.checkf(back == d, [&] { return "decodeURIComponent(encodeURIComponent(x)) = " + show(back); });
	// lower-case escapes and raw unreserved bytes decode too
	std::string all; for (unsigned char x : d) { char b[4]; if (s.replaying() ? (x & 1) : (x & 1)) { snprintf(b, 4, "%%%02x", x); all += b; } else if (x == '%') all += "%25"; else all += (char)x; }
	auto back2 = Encoding::decodeURIComponent(all);
	c.checkf(back2 == d, [&] { return "decodeURIComponent(" + show(all) + ") = " + show(back2) + ", expected " + show(d); });
	c.nontrivial(e.size() > d.size());
}
static void uri_reject(Src& s, Case& c) {
	std::string t = s.str("abc019%", s.len(30)); if (s.flip()) t += s.pick({ "%", "%4", "%G0", "%0g", "%:0", "%@1", "%\xff" "0", "%[1", "%4`", "%zz" });
	if (s.chance(1, 3)) t += s.str("abc01", s.len(4));
	bool bad = false; std::string ref;
	for (size_t i = 0; i < t.size(); i++) if (t[i] == '%') { if (i + 2 < t.size() && hexd(t[i + 1]) && hexd(t[i + 2])) { ref += (char)strtol(t.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else { bad = true; break; } } else ref += t[i];
	c.note("text " + show(t));
	auto r = attempt([&] { return Encoding::decodeURIComponent(t); });
	if (bad) c.checkf(!r, [&] { return "a malformed escape was accepted, giving " + show(*r); });
	else c.checkf(r && *r == Bytes(ref.begin(), ref.end()), [&] { return "expected " + show(ref) + ", got " + (r ? show(*r) : "an error"); });
	c.nontrivial(bad); c.label(bad ? "malformed" : "valid");
}
int main(int argc, char** argv) {
	return run(argc, argv, "C19", {
		{ "base64", b64_roundtrip, 300000, 4000000, "byte strings of every length class up to 70000, encode vs an independent encoder, decode padded and unpadded; non-trivial: not empty" },
		{ "base64_reject", b64_reject, 200000, 3000000, "valid base64 text with one byte outside the alphabet put anywhere must be rejected; non-trivial: longer than one block" },
		{ "base64_any", b64_any, 200000, 3000000, "alphabet text of any length with '=' anywhere: no out-of-bounds access; non-trivial: contains '='" },
		{ "hex", hex, 200000, 3000000, "byte strings vs independent hex; non-trivial: not empty" },
		{ "hex_reject", hex_reject, 300000, 4000000, "hex text with one arbitrary byte or of odd length; accepted iff valid; non-trivial: invalid" },
		{ "uri", uri, 300000, 4000000, "byte strings through encodeURIComponent and an independent decoder; non-trivial: something had to be escaped" },
		{ "uri_reject", uri_reject, 300000, 4000000, "text with broken escapes is rejected, others decode like the reference; non-trivial: malformed" },
	});
}
