#pragma once
#include "net.hpp"
#include "ref_inflate.hpp"
#include <brotli/decode.h>
// undoes a content coding; throws when the data is no complete stream of it
inline std::string undo(const std::string& coding, const std::string& d) {
	if (coding.empty()) return d; refz::Bytes b(d.begin(), d.end()), o; size_t used = b.size();
	if (coding == "gzip") o = refz::gunzip(b, &used); else if (coding == "deflate") o = refz::unzlib(b, &used);
	else if (coding == "br") { auto st = BrotliDecoderCreateInstance(nullptr, nullptr, nullptr); size_t in = b.size(); const uint8_t* p = b.data(); BrotliDecoderResult r; do { uint8_t buf[65536]; size_t room = sizeof buf; uint8_t* q = buf; r = BrotliDecoderDecompressStream(st, &in, &p, &room, &q, nullptr); o.insert(o.end(), buf, q); } while (r == BROTLI_DECODER_RESULT_NEEDS_MORE_OUTPUT); BrotliDecoderDestroyInstance(st); if (r != BROTLI_DECODER_RESULT_SUCCESS) throw std::runtime_error("broken brotli stream"); used = b.size() - in; }
	else throw std::runtime_error("unknown content coding " + coding);
	if (used != b.size()) throw std::runtime_error("bytes after the end of the " + coding + " stream"); return std::string(o.begin(), o.end());
}
inline std::string lower(std::string s) { for (auto& c : s) c = tolower((unsigned char)c); return s; }
inline std::vector<std::string> tokens(const std::vector<std::string>& v) { std::vector<std::string> o; for (auto& l : v) { size_t p = 0; while (p <= l.size()) { auto q = std::min(l.find(',', p), l.size()); auto t = l.substr(p, q - p); auto a = t.find_first_not_of(" \t"), z = t.find_last_not_of(" \t"); if (a != std::string::npos) o.push_back(lower(t.substr(a, z - a + 1))); p = q + 1; } } return o; }
inline bool listed(const std::vector<std::string>& v, const std::string& t) { for (auto& x : tokens(v)) if (x == t) return true; return false; }
// seconds since the epoch of an IMF-fixdate, or -1
inline time_t httpdate(const std::string& d) { tm t{}; if (d.size() != 29) return -1; auto e = strptime(d.c_str(), "%a, %d %b %Y %H:%M:%S GMT", &t); if (!e || *e) return -1; int wd = t.tm_wday; time_t r = timegm(&t); return t.tm_wday == wd ? r : -1; }
// the connection header announces exactly one of the two; empty text when fine
inline std::string announced(const net::Response& r, bool& close) { bool c = listed(r.all("connection"), "close"), k = listed(r.all("connection"), "keep-alive"); close = c; return c == k ? "connection header announces " + std::string(c ? "both keep-alive and close" : "neither keep-alive nor close") + ": " + pbt::show(r.get("connection"), 60) : ""; }
