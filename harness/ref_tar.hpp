#pragma once
// Independent ustar reader and writer
#include <cstdint>
#include <cstring>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
namespace reftar {
struct Entry { std::string name, data; long mtime = 0; char type = '0'; };
inline size_t pad(size_t n) { return (512 - n % 512) % 512; }
inline std::string oct(uint64_t v, size_t n) { std::string o(n, '0'); for (size_t i = n; i-- > 0; v >>= 3) o[i] = '0' + (v & 7); return o; }
struct Style { int chk = 0; bool owner = false; bool nulltype = false; int numfmt = 0; };
// name must fit name+prefix
inline std::string header(const Entry& e, Style st = {}) {
	std::string h(512, '\0'), name = e.name, prefix;
	if (name.size() > 100) { size_t cut = std::string::npos; for (size_t i = name.size() - 101; i < name.size() && i <= 155; i++) if (name[i] == '/' && i && i + 1 < name.size()) { cut = i; break; } if (cut == std::string::npos) throw std::runtime_error("name does not fit"); prefix = name.substr(0, cut); name = name.substr(cut + 1); }
	auto put = [&](size_t o, const std::string& v) { memcpy(&h[o], v.data(), v.size()); };
	auto num = [&](uint64_t v, size_t n) { if (st.numfmt == 0) return oct(v, n - 1) + std::string(1, '\0'); if (st.numfmt == 1) return oct(v, n - 1) + " "; auto s = oct(v, n - 1); size_t z = s.find_first_not_of('0'); if (z == std::string::npos) z = s.size() - 1; for (size_t i = 0; i < z; i++) s[i] = ' '; return s + " "; };
	put(0, name); put(100, num(0644, 8)); put(108, num(st.owner ? 1000 : 0, 8)); put(116, num(st.owner ? 100 : 0, 8)); put(124, num(e.data.size(), 12)); put(136, num(e.mtime, 12)); h[156] = e.type == '0' && st.nulltype ? 0 : e.type; if (e.type == '2') put(157, "target"); memcpy(&h[257], "ustar\0" "00", 8);
	if (st.owner) { put(265, "builder"); put(297, "users"); put(329, num(0, 8)); put(337, num(0, 8)); } put(345, prefix);
	memset(&h[148], ' ', 8); unsigned sum = 0; for (unsigned char c : h) sum += c; auto s = oct(sum, 6); put(148, s); if (st.chk == 0) { h[154] = 0; h[155] = ' '; } else if (st.chk == 1) { put(148, oct(sum, 7)); h[155] = 0; } else { h[154] = ' '; h[155] = ' '; }
	return h;
}
inline std::string write(const std::vector<Entry>& v, Style st = {}, size_t endblocks = 2) {
	std::string o; for (auto& e : v) { o += header(e, st); o += e.data; o.append(pad(e.data.size()), '\0'); } o.append(endblocks * 512, '\0'); return o;
}
// strict reader; also understands GNU long names
inline std::vector<Entry> read(const std::string& t) {
	std::vector<Entry> out; size_t p = 0; std::string longname; bool haslong = false;
	while (true) {
		if (p + 512 > t.size()) throw std::runtime_error("no end marker"); auto h = t.substr(p, 512); bool zero = true; for (auto c : h) zero &= !c;
		if (zero) { if (t.size() < p + 1024) throw std::runtime_error("incomplete end marker"); for (size_t i = p; i < t.size(); i++) if (t[i]) throw std::runtime_error("data after end marker"); if ((t.size() - p) % 512) throw std::runtime_error("not a whole number of blocks"); return out; }
		p += 512; auto num = [&](size_t o, size_t n) { uint64_t v = 0; bool any = false; size_t i = o; while (i < o + n && h[i] == ' ') i++; for (; i < o + n && h[i] >= '0' && h[i] <= '7'; i++) { v = v * 8 + h[i] - '0'; any = true; } if (!any || (i < o + n && h[i] != ' ' && h[i] != 0)) throw std::runtime_error("bad number"); return v; };
		unsigned sum = 0; for (size_t i = 0; i < 512; i++) sum += i >= 148 && i < 156 ? 32 : (unsigned char)h[i]; if (sum != num(148, 8)) throw std::runtime_error("header checksum");
		if (memcmp(&h[257], "ustar", 6)) throw std::runtime_error("no ustar magic");
		Entry e; e.name = std::string(&h[0], strnlen(&h[0], 100)); if (h[345]) e.name = std::string(&h[345], strnlen(&h[345], 155)) + "/" + e.name; e.mtime = num(136, 12); e.type = h[156] ? h[156] : '0'; size_t n = num(124, 12);
		if (p + n + pad(n) > t.size()) throw std::runtime_error("truncated contents"); e.data = t.substr(p, n); for (size_t i = p + n; i < p + n + pad(n); i++) if (t[i]) throw std::runtime_error("padding not zero"); p += n + pad(n);
		if (e.type == 'L') { longname = e.data.c_str(); haslong = true; continue; }
		if (haslong) { e.name = longname; haslong = false; } out.push_back(e);
	}
}
}
