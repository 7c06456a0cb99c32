#pragma once
// independent JSON model: value tree, strict RFC 8259 parser, text writer
#include "pbt.hpp"
#include <memory>
#include <optional>
#include <cmath>
struct JV {
	enum T { Null, Str, Bool, Int, Flt, Arr, Obj } t = Null;
	std::string s; bool b = false; int64_t i = 0; long double f = 0; std::vector<JV> a; std::map<std::string, JV> o;
	static bool feq(long double x, long double y) { return (double)x == (double)y; }
	bool operator==(const JV& r) const {
		if (t != r.t) return false;
		switch (t) { case Null: return true; case Str: return s == r.s; case Bool: return b == r.b; case Int: return i == r.i; case Flt: return feq(f, r.f); case Arr: return a == r.a; default: return o == r.o; }
	}
	std::string show() const {
		switch (t) { case Null: return "null"; case Str: return pbt::show(s, 200); case Bool: return b ? "true" : "false"; case Int: return std::to_string(i); case Flt: { char x[80]; snprintf(x, 80, "%.21Lgf", f); return x; }
			case Arr: { std::string r = "["; for (auto& x : a) r += x.show() + " "; return r + "]"; } default: { std::string r = "{"; for (auto& x : o) r += pbt::show(x.first) + ":" + x.second.show() + " "; return r + "}"; } }
	}
	size_t size() const { size_t n = 1; for (auto& x : a) n += x.size(); for (auto& x : o) n += x.second.size(); return n; }
};
struct RefJson {
	const std::string& t; size_t p = 0; std::string err; RefJson(const std::string& x) : t(x) {}
	void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r')) p++; }
	bool bad(const char* m) { if (err.empty()) err = std::string(m) + " at offset " + std::to_string(p); return false; }
	static void utf8(std::string& o, uint32_t c) { if (c < 0x80) o += (char)c; else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } }
	bool hex4(uint32_t& v) { v = 0; for (int k = 0; k < 4; k++) { if (p >= t.size() || !isxdigit((unsigned char)t[p])) return bad("bad \\u escape"); v = v * 16 + (isdigit((unsigned char)t[p]) ? t[p] - '0' : (t[p] | 32) - 'a' + 10); p++; } return true; }
	bool str(std::string& o) {
		if (p >= t.size() || t[p] != '"') return bad("string expected"); p++;
		while (true) {
			if (p >= t.size()) return bad("unterminated string"); unsigned char c = t[p++];
			if (c == '"') return true; if (c < 0x20) { p--; return bad("raw control character in string"); }
			if (c != '\\') { o += (char)c; continue; }
			if (p >= t.size()) return bad("unterminated escape"); c = t[p++];
			switch (c) { case '"': case '\\': case '/': o += (char)c; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
				case 'u': { uint32_t v, w; if (!hex4(v)) return false; if (v >= 0xD800 && v < 0xDC00) { if (t.compare(p, 2, "\\u")) return bad("lone surrogate"); p += 2; if (!hex4(w)) return false; if (w < 0xDC00 || w > 0xDFFF) return bad("lone surrogate"); v = 0x10000 + (v - 0xD800) * 0x400 + (w - 0xDC00); } utf8(o, v); } break;
				default: p--; return bad("bad escape"); }
		}
	}
	bool num(JV& v) {
		size_t a = p; bool fl = false; auto dig = [&] { return p < t.size() && isdigit((unsigned char)t[p]); };
		if (p < t.size() && t[p] == '-') p++; if (!dig()) return bad("digit expected"); if (t[p] == '0') p++; else while (dig()) p++;
		if (p < t.size() && t[p] == '.') { fl = true; p++; if (!dig()) return bad("digit expected"); while (dig()) p++; }
		if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) { fl = true; p++; if (p < t.size() && (t[p] == '+' || t[p] == '-')) p++; if (!dig()) return bad("digit expected"); while (dig()) p++; }
		auto x = t.substr(a, p - a); if (fl || fabsl(strtold(x.c_str(), nullptr)) > 2147483648.0L || x == "2147483648") { v.t = JV::Flt; v.f = strtold(x.c_str(), nullptr); } else { v.t = JV::Int; v.i = strtoll(x.c_str(), nullptr, 10); } return true;
	}
	bool val(JV& v, int d = 0) {
		ws(); if (d > 3000) return bad("too deep"); if (p >= t.size()) return bad("value expected");
		char c = t[p];
		if (c == '"') { v.t = JV::Str; return str(v.s); }
		if (c == '-' || isdigit((unsigned char)c)) return num(v);
		for (auto w : { "true", "false", "null" }) if (!t.compare(p, strlen(w), w)) { p += strlen(w); v.t = *w == 'n' ? JV::Null : JV::Bool; v.b = *w == 't'; return true; }
		if (c == '[') { v.t = JV::Arr; p++; ws(); if (p < t.size() && t[p] == ']') { p++; return true; } while (true) { v.a.emplace_back(); if (!val(v.a.back(), d + 1)) return false; ws(); if (p < t.size() && t[p] == ',') { p++; continue; } if (p < t.size() && t[p] == ']') { p++; return true; } return bad("',' or ']' expected"); } }
		if (c == '{') { v.t = JV::Obj; p++; ws(); if (p < t.size() && t[p] == '}') { p++; return true; } while (true) { ws(); std::string k; if (!str(k)) return false; ws(); if (p >= t.size() || t[p] != ':') return bad("':' expected"); p++; JV x; if (!val(x, d + 1)) return false; v.o[k] = x; ws(); if (p < t.size() && t[p] == ',') { p++; continue; } if (p < t.size() && t[p] == '}') { p++; return true; } return bad("',' or '}' expected"); } }
		return bad("unexpected character");
	}
	static std::optional<JV> parse(const std::string& t, std::string& err) { RefJson r(t); JV v; if (!r.val(v)) { err = r.err; return {}; } r.ws(); if (r.p != t.size()) { err = "trailing text at " + std::to_string(r.p); return {}; } return v; }
};
inline std::string gen_utf8(pbt::Src& s, size_t n) {
	std::string o; for (size_t i = 0; i < n; i++) switch (s.weighted({ 4, 4, 2, 1 })) {
		case 0: o += "abcXYZ 019"[s.below(10)]; break;
		case 1: { static const std::string sp = "\"\\{}[]:,\n\r\t/\b\f\x01\x1f\x7fnrtub0'"; size_t k = s.below(sp.size() + 1); o += k < sp.size() ? sp[k] : '\0'; } break;
		case 2: RefJson::utf8(o, s.pick({ 0xe9u, 0x20acu, 0x7ffu, 0x800u, 0xffffu, 0x10000u, 0x1f600u, 0x10ffffu, 0x80u })); break;
		default: { uint32_t c = s.upto(0x10ffff); if (c >= 0xD800 && c < 0xE000) c -= 0x800; RefJson::utf8(o, c); } }
	return o;
}
inline long double gen_float(pbt::Src& s) {
	switch (s.weighted({ 3, 2, 2, 1, 1 })) {
		case 0: return (double)s.range(-100000, 100000) / (double)s.pick({ 10, 100, 1000, 8, 3, 7, 1 });
		case 1: { double d; uint64_t b = s.upto(UINT64_MAX); memcpy(&d, &b, 8); return std::isfinite(d) ? d : 1.5; }
		case 2: return s.pick({ 0.0, -0.0, 1.0, -1.0, 0.1, 1e-7, 1e21, 1e22, 1e100, 5e-324, 1.7976931348623157e308, 123456789.125, 1e-10, 4294967296.0, 9007199254740993.0 });
		case 3: return (double)((float)s.range(-1000000, 1000000) * 0.001f);
		default: return s.flip() ? (double)s.pick({ 2147483648ll, -2147483649ll, 4294967295ll, 4294967296ll, 1700000000000ll, 9007199254740992ll, 3000000000ll }) : (double)s.range(2147483648ll, 1ll << (33 + s.below(20)));
	}
}
inline JV gen_json(pbt::Src& s, int depth) {
	JV v; size_t k = s.weighted({ 2, 4, 2, 3, 3, depth ? 4u : 0u, depth ? 4u : 0u });
	if (!depth && k >= 5) k = 3;
	switch (k) {
		case 0: v.t = JV::Null; break; case 1: v.t = JV::Str; v.s = gen_utf8(s, s.count(12)); break; case 2: v.t = JV::Bool; v.b = s.flip(); break;
		case 3: v.t = JV::Int; v.i = s.weighted({ 3, 1, 1 }) == 0 ? s.range(-200, 200) : s.flip() ? s.range(INT32_MIN, INT32_MAX) : s.pick({ 0ll, 2147483647ll, -2147483648ll, -1ll, 1000000000ll }); break;
		case 4: v.t = JV::Flt; v.f = gen_float(s); break;
		case 5: { v.t = JV::Arr; size_t n = s.count(6); for (size_t i = 0; i < n; i++) v.a.push_back(gen_json(s, depth - 1)); } break;
		default: { v.t = JV::Obj; size_t n = s.count(6); for (size_t i = 0; i < n; i++) { auto key = s.flip() ? s.str("abkey_", s.below(6)) : gen_utf8(s, s.count(6)); v.o[key] = gen_json(s, depth - 1); } }
	}
	return v;
}
// writes a value as JSON text, in one of the many spellings the standard allows
inline std::string write_json(pbt::Src& s, const JV& v, int style) {
	auto ws = [&] { return style ? s.str(" \n\t\r", s.weighted({ 6, 2, 1, 1 })) : std::string(); };
	auto str = [&](const std::string& x) {
		std::string o = "\"";
		for (size_t i = 0; i < x.size();) {
			unsigned char c = x[i]; char b[16];
			if (c < 0x80) {
				const char* sh = c == '"' ? "\\\"" : c == '\\' ? "\\\\" : c == '\n' ? "\\n" : c == '\r' ? "\\r" : c == '\t' ? "\\t" : c == '\b' ? "\\b" : c == '\f' ? "\\f" : c == '/' ? "\\/" : nullptr;
				bool must = c < 0x20 || c == '"' || c == '\\', u = style && s.chance(1, 6);
				if (u || (must && !sh)) { snprintf(b, 16, s.flip() ? "\\u%04x" : "\\u%04X", c); o += b; } else if (sh && (must || s.flip())) o += sh; else o += (char)c;
				i++; continue;
			}
			int n = c >= 0xF0 ? 4 : c >= 0xE0 ? 3 : 2; uint32_t cp = n == 4 ? c & 7 : n == 3 ? c & 15 : c & 31; for (int k = 1; k < n; k++) cp = cp << 6 | (x[i + k] & 63);
			if (style && s.chance(1, 3)) { if (cp >= 0x10000) { snprintf(b, 16, "\\u%04x\\u%04X", 0xD800 + ((cp - 0x10000) >> 10), 0xDC00 + ((cp - 0x10000) & 0x3ff)); } else snprintf(b, 16, "\\u%04x", cp); o += b; } else o += x.substr(i, n);
			i += n;
		}
		return o + "\"";
	};
	switch (v.t) {
		case JV::Null: return "null"; case JV::Bool: return v.b ? "true" : "false"; case JV::Int: return std::to_string(v.i); case JV::Str: return str(v.s);
		case JV::Flt: { char b[400]; double d = v.f; if (style && d == std::floor(d) && (d > 2147483647.0 || d < -2147483648.0) && s.chance(2, 3)) { snprintf(b, 400, "%.0f", d); return b; }
			if (style && s.chance(1, 3)) {	// a mantissa without a point
				snprintf(b, 400, "%.16e", d); std::string m = b; auto e = m.find('e'); int x = atoi(m.c_str() + e + 1) - 16; m = m.substr(0, e); m.erase(m.find('.'), 1); size_t neg = m[0] == '-'; while (m.size() > neg + 1 && m.back() == '0') { m.pop_back(); x++; } size_t z = neg; while (z + 1 < m.size() && m[z] == '0') z++; m.erase(neg, z - neg); if (d == 0) x = (int)s.below(5);
				m += s.pick({ "e", "E" }); m += x < 0 ? "" : s.pick({ "", "+" }); m += x < 0 ? "-" : ""; m += s.chance(1, 4) ? "0" : ""; m += std::to_string(std::abs(x)); if (strtod(m.c_str(), nullptr) == d) return m;
			}
			switch (style ? s.below(4) : 0) { case 0: snprintf(b, 400, "%.17g", d); break; case 1: snprintf(b, 400, "%.17e", d); break; case 2: snprintf(b, 400, "%.16E", d); break; default: if (fabs(d) < 1e15 && (fabs(d) > 1e-5 || d == 0)) snprintf(b, 400, "%.20f", d); else snprintf(b, 400, "%.17g", d); }
			std::string t = b; if (strtod(b, nullptr) != d) { snprintf(b, 400, "%.17g", d); t = b; } if (t.find_first_of(".eE") == std::string::npos) t += ".0"; return t; }
		case JV::Arr: { std::string o = "[" + ws(); bool f = true; for (auto& x : v.a) { if (!f) o += "," + ws(); o += write_json(s, x, style) + ws(); f = false; } return o + "]"; }
		default: { std::string o = "{" + ws(); bool f = true; for (auto& x : v.o) { if (style && s.chance(1, 30)) { o += (f ? "" : "," + ws()) + str(x.first) + ws() + ":" + ws() + s.pick({ "null", "1", "\"old\"", "{}", "[1,2]" }) + ws(); f = false; } if (!f) o += "," + ws(); o += str(x.first) + ws() + ":" + ws() + write_json(s, x.second, style) + ws(); f = false; } return o + "}"; }
	}
}
