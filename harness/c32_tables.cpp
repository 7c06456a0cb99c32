// C32: methods, statuses, media types
#include "pbt.hpp"
#include "mime_table.hpp"
#include <core/http/http.hpp>
#include <core/polyfill/polyfill.hpp>
using namespace pbt; using namespace Lambda; using namespace Lambda::HTTP;

static const std::vector<std::pair<std::string, Methods>> METHODS = {
	{ "GET", Methods::GET }, { "POST", Methods::POST }, { "PUT", Methods::PUT }, { "DELETE", Methods::DEL }, { "HEAD", Methods::HEAD },
	{ "OPTIONS", Methods::OPTIONS }, { "TRACE", Methods::TRACE }, { "PATCH", Methods::PATCH }, { "CONNECT", Methods::CONNECT } };
static std::string up(std::string s) { for (auto& c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }
static std::string mixcase(Src& s, std::string t) { for (auto& c : t) if (isalpha((unsigned char)c) && s.flip()) c ^= 32; return t; }

static void method(Src& s, Case& c) {
	auto& e = METHODS[s.below(METHODS.size())]; auto t = mixcase(s, e.first); c.note("method " + t);
	Method m = s.flip() ? Method(t) : Method(t.c_str());
	c.check((Methods)m == e.second, "wrong enumerator"); c.checkf(m.toString() == e.first && (std::string)m == e.first, [&] { return "prints as " + m.toString(); });
	auto& f = METHODS[s.below(METHODS.size())]; Method o(f.first); auto ot = mixcase(s, f.first); bool same = &e == &f;
	c.check((m == o) == same, "Method == Method disagrees with the names"); c.check((m == ot) == same, "Method == string disagrees with the names"); c.check((m == ot.c_str()) == same, "Method == text disagrees with the names");
	c.check(!(m == (const char*)nullptr) && !(m == std::string("")) && !(m == (e.first + "X")) && !(m == e.first.substr(1)), "Method equals a different name");
	Method cp(m); Method as; as = m; c.check(cp == m && as == m && (Methods)as == e.second, "copy differs"); c.check((Methods)Method() == Methods::GET, "default method is not GET");
	c.nontrivial(t != e.first);
}
static void method_unknown(Src& s, Case& c) {
	std::string t;
	switch (s.weighted({ 2, 2, 1 })) { case 0: { t = METHODS[s.below(METHODS.size())].first; size_t p = s.below(t.size()); switch (s.below(3)) { case 0: t.erase(p, 1); break; case 1: t.insert(p, 1, s.pick({ 'X', 'E', ' ', '\0', '-' })); break; default: t[p] = "XGET_"[s.below(5)]; } } break; case 1: t = s.str("GETPOSDLHACRN", s.len(9)); break; default: t = s.bytestr(s.len(12)); }
	c.note("text " + show(t)); auto trimmed = t; while (trimmed.size() && strchr(" \t\r\n", trimmed.back()) && trimmed.back()) trimmed.pop_back(); while (trimmed.size() && strchr(" \t\r\n", trimmed[0]) && trimmed[0]) trimmed.erase(0, 1);
	bool known = false; for (auto& m : METHODS) known |= m.first == up(trimmed);
	try { Method m(t); c.checkf(known, [&] { return "unknown method accepted as " + m.toString(); }); c.check(m.toString() == up(trimmed), "accepted as another method"); }
	catch (const std::exception&) { c.check(!known || trimmed != t, "known method rejected"); }
	c.nontrivial(!known);
}
static const std::map<uint32_t, std::string> STATUS = {
	{100,"Continue"},{101,"Switching Protocols"},{102,"Processing"},{200,"OK"},{201,"Created"},{202,"Accepted"},{203,"Non-Authoritative Information"},{204,"No Content"},{205,"Reset Content"},{206,"Partial Content"},{207,"Multi-Status"},{226,"IM Used"},
	{300,"Multiple Choices"},{301,"Moved Permanently"},{302,"Found"},{303,"See Other"},{304,"Not Modified"},{305,"Use Proxy"},{307,"Temporary Redirect"},{308,"Permanent Redirect"},
	{400,"Bad Request"},{401,"Unauthorized"},{402,"Payment Required"},{403,"Forbidden"},{404,"Not Found"},{405,"Method Not Allowed"},{406,"Not Acceptable"},{407,"Proxy Authentication Required"},{408,"Request Timeout"},{409,"Conflict"},{410,"Gone"},{411,"Length Required"},{412,"Precondition Failed"},{413,"Payload Too Large"},{414,"URI Too Long"},{415,"Unsupported Media Type"},{416,"Range Not Satisfiable"},{417,"Expectation Failed"},{418,"I'm a teapot"},{422,"Unprocessable Entity"},{423,"Locked"},{424,"Failed Dependency"},{426,"Upgrade Required"},{428,"Precondition Required"},{429,"Too Many Requests"},{431,"Request Header Fields Too Large"},{451,"Unavailable For Legal Reasons"},
	{500,"Internal Server Error"},{501,"Not Implemented"},{502,"Bad Gateway"},{503,"Service Unavailable"},{504,"Gateway Time-out"},{505,"HTTP Version Not Supported"},{506,"Variant Also Negotiates"},{507,"Insufficient Storage"},{511,"Network Authentication Required"} };
static Status::Type klass(uint32_t c) { return c < 200 ? Status::Type::Info : c < 300 ? Status::Type::Success : c < 400 ? Status::Type::Redirect : c < 500 ? Status::Type::ClientError : Status::Type::ServerError; }
static std::string lettersof(const std::string& s) { std::string o; for (unsigned char c : s) if (isalpha(c)) o += tolower(c); return o; }
static void status(Src& s, Case& c) {
	uint32_t code;
	switch (s.weighted({ 4, 1, 1 })) { case 0: code = s.below(620); break; case 1: { auto it = STATUS.begin(); std::advance(it, s.below(STATUS.size())); code = it->first + (s.flip() ? 0x10000u * s.below(3) : 0); } break; default: code = s.upto(UINT32_MAX); }
	c.note("status " + std::to_string(code));
	auto k = STATUS.find(code);
	try {
		Status st(code);
		if (k == STATUS.end()) { c.checkf(false, [&] { return "unknown code accepted as " + std::to_string(st.code()) + " " + st.text(); }); }
		c.check(st.code() == code, "code differs"); c.checkf(lettersof(st.text()) == lettersof(k->second), [&] { return "reason " + st.text() + ", expected " + k->second; });
		c.check(st.type() == klass(code), "class differs"); Status cp = st; c.check(cp.code() == code && cp.text() == st.text() && cp.type() == st.type(), "copy differs");
		c.nontrivial();
	} catch (const std::exception& e) { c.checkf(k == STATUS.end(), [&] { return std::string("standard code rejected: ") + e.what(); }); }
	auto text = s.str("abc OK-x", s.len(20)); Status own(code, text);
	c.check(own.code() == code && own.text() == text, "custom status text/code lost"); c.check(own.type() == klass(code), "class of a custom status differs");
	Status def; c.check(def.code() == 200 && def.text() == "OK" && def.type() == Status::Type::Success, "default status is not 200 OK");
}
static void mime(Src& s, Case& c) {
	auto it = mime_expected.begin(); std::advance(it, s.below(mime_expected.size()));
	std::string name = it->first; size_t form = s.weighted({ 1, 2, 2, 2 });
	static const std::vector<std::string> stems = { "a", "archive.tar", "x.html", "..", "a b", "файл", "", "dir.d/f" };
	if (form == 1) name = "." + name; else if (form == 2) name = s.pick(stems) + "." + name; else if (form == 3) name = "/" + s.str("abc/._-", s.len(20)) + "." + name;
	bool dotext = it->first.find('.') != std::string::npos; c.note("name " + show(name));
	if (!dotext) { auto g = Content::getExtMimetype(name); c.checkf(g == it->second, [&] { return "media type " + g + ", expected " + it->second; }); }
	auto ext = Content::getMimetypeExt(it->second); auto e = mime_expected.find(ext);
	c.checkf(e != mime_expected.end() && e->second == it->second, [&] { return "extension " + ext + " for media type " + it->second + " does not map back to it"; });
	c.nontrivial(form > 0);
}
static void mime_unknown(Src& s, Case& c) {
	std::string ext;
	switch (s.weighted({ 2, 2, 1 })) { case 0: { auto it = mime_expected.begin(); std::advance(it, s.below(mime_expected.size())); ext = it->first; size_t p = s.below(ext.size() + 1); if (s.flip()) ext.insert(p, 1, "xq0 /"[s.below(5)]); else if (p < ext.size()) ext.erase(p, 1); } break; case 1: ext = s.str("abcxhtml0", s.len(8)); break; default: ext = s.bytestr(s.len(20)); }
	auto dot = ext.find_last_of('.'); auto last = dot == std::string::npos ? ext : ext.substr(dot + 1); auto low = last; for (auto& x : low) if (x >= 'A' && x <= 'Z') x += 32;
	c.note("extension " + show(ext)); auto want = mime_expected.count(last) ? mime_expected.at(last) : "application/octet-stream"; auto g = Content::getExtMimetype(ext);
	c.checkf(g == want || (low != last && mime_expected.count(low) && g == mime_expected.at(low)), [&] { return "media type " + g + ", expected " + want; });
	auto t = s.flip() ? "application/x-unknown-" + s.str("abc", 4) : s.str("abc/", s.len(10)); bool known = false; for (auto& e : mime_expected) known |= e.second == t;
	if (!known) c.checkf(Content::getMimetypeExt(t) == "bin", [&] { return "extension of unknown type " + t + " is " + Content::getMimetypeExt(t); });
	c.nontrivial(!mime_expected.count(last));
}
int main(int argc, char** argv) {
	return run(argc, argv, "C32", {
		{ "method", method, 40000, 500000, "known names in random letter case vs the RFC list, equality vs all others; non-trivial: not all upper case" },
		{ "method_unknown", method_unknown, 200000, 3000000, "near-miss and random names; non-trivial: unknown" },
		{ "status", status, 200000, 3000000, "codes 0..620, high-bit aliases, 32-bit values, with and without text; non-trivial: standard code" },
		{ "mime", mime, 200000, 3000000, "every registered extension bare, with dot, with file name, with path, and back; non-trivial: not bare" },
		{ "mime_unknown", mime_unknown, 200000, 3000000, "near-miss and random extensions; non-trivial: unregistered" },
	});
}
