// C18: JSON
#include "ref_json.hpp"
#include "loc.hpp"
#include "leak.hpp"
#include <core/json/json.hpp>
using namespace pbt; using namespace Lambda; using JSON::Property;

static Property build(const JV& v, Src& s) {
	switch (v.t) {
		case JV::Null: return Property(nullptr); case JV::Bool: return Property(v.b); case JV::Str: return v.s.find('\0') == std::string::npos && s.flip() ? Property(v.s.c_str()) : Property(v.s);
		case JV::Int: if (v.i >= 0 && v.i < 65536 && s.flip()) return Property((uint16_t)v.i); if (v.i >= -32768 && v.i < 32768 && s.flip()) return Property((int16_t)v.i); if (v.i >= 0 && s.flip()) return Property((uint32_t)v.i); return Property((int32_t)v.i);
		case JV::Flt: if (v.f > 2147483647.0L && v.f <= 4294967295.0L && v.f == floorl(v.f) && s.flip()) return Property((uint32_t)v.f); if ((float)v.f == v.f && s.flip()) return Property((float)v.f); return s.flip() ? Property((double)v.f) : Property(v.f);
		case JV::Arr: { JSON::Array a; for (auto& x : v.a) a.push_back(build(x, s)); return Property(a); }
		default: { JSON::Map m; for (auto& x : v.o) m.emplace(x.first, build(x.second, s)); return Property(m); }
	}
}
static std::string read(const Property& p, JV& v) {
	struct A { JSON::JSTypes t; std::function<void()> f; };
	std::vector<A> acc = { { JSON::JSTypes::Float, [&] { v.f = p.asFloat(); v.t = JV::Flt; } }, { JSON::JSTypes::Integer, [&] { v.i = p.asInt(); v.t = JV::Int; } }, { JSON::JSTypes::Boolean, [&] { v.b = p.asBool(); v.t = JV::Bool; } }, { JSON::JSTypes::String, [&] { v.s = p.asString(); v.t = JV::Str; } }, { JSON::JSTypes::Array, [&] { (void)p.asArray(); } }, { JSON::JSTypes::Map, [&] { (void)p.asMap(); } } };
	for (auto& a : acc) { bool ok = true; try { a.f(); } catch (const std::exception&) { ok = false; } if (ok != (p.type() == a.t)) return ok ? "access to the wrong type succeeded" : "access to the right type failed"; }
	if (p.isNull() != (p.type() == JSON::JSTypes::Null) || p.isUndefined() != (p.type() == JSON::JSTypes::Undefined) || p.isNil() != (p.isNull() || p.isUndefined())) return "null/undefined tests disagree with the type";
	switch (p.type()) {
		case JSON::JSTypes::Array: v.t = JV::Arr; for (auto& x : p.asArray()) { v.a.emplace_back(); auto e = read(x, v.a.back()); if (e.size()) return e; } break;
		case JSON::JSTypes::Map: v.t = JV::Obj; for (auto& x : p.asMap()) { auto e = read(x.second, v.o[x.first]); if (e.size()) return e; } break;
		case JSON::JSTypes::Null: v.t = JV::Null; break; case JSON::JSTypes::Undefined: return "value is undefined"; default: break;
	}
	return "";
}
static void expect(Case& c, const Property& p, const JV& want, const std::string& what) { JV g; auto e = read(p, g); c.checkf(e.empty(), [&] { return what + ": " + e; }); c.checkf(g == want, [&] { return what + ": " + g.show() + ", expected " + want.show(); }); }

static void roundtrip(Src& s, Case& c) {
	auto v = gen_json(s, 1 + s.below(5)); c.note("value " + v.show()); auto p = build(v, s); expect(c, p, v, "constructed value");
	auto lc = pick_locale(s); std::string t; { InLocale lo(lc, &c); t = JSON::stringify(p); } std::string err; auto r = RefJson::parse(t, err);
	c.checkf(!!r, [&] { return "the text is not valid JSON (" + err + "): " + show(t, 600); });
	c.checkf(*r == v, [&] { return "an independent parser reads " + show(t, 600) + " as " + r->show(); });
	Property q; { InLocale lo(lc); q = JSON::parse(t); } expect(c, q, v, "parse(" + show(t, 400) + ")");
	c.nontrivial(v.size() > 1); c.label(v.t == JV::Arr ? "array" : v.t == JV::Obj ? "object" : "scalar");
}
static void longdouble(Src& s, Case& c) {
	long double f = gen_float(s); uint64_t m = s.upto(UINT64_MAX); int e = s.range(-300, 300); f = s.flip() ? ldexpl((long double)m, e) : f; char b[80]; snprintf(b, 80, "float %.21Lg", f); c.note(b);
	if (!std::isfinite(f) || !std::isfinite((double)f)) { c.note("out of range"); return; }
	auto t = JSON::stringify(Property(f)); std::string err; auto r = RefJson::parse(t, err); c.checkf(r && r->t == JV::Flt, [&] { return "text " + t + " is not a JSON number with fraction or exponent: " + err; });
	auto q = JSON::parse(t); bool dbl = (long double)(double)f == f; c.checkf(q.type() == JSON::JSTypes::Float && (dbl ? (double)q.asFloat() == (double)f : q.asFloat() == f), [&] { return "text " + t + " reads back as another value"; }); c.nontrivial();
}
static void parse_valid(Src& s, Case& c) {
	JV v;
	if (s.chance(1, 40)) { size_t d = s.len(200); v.t = JV::Int; v.i = 7; for (size_t i = 0; i < d; i++) { JV w; if (s.flip()) { w.t = JV::Arr; w.a.push_back(v); } else { w.t = JV::Obj; w.o["k"] = v; } v = w; } c.label("deep"); }
	else v = gen_json(s, 1 + s.below(5));
	auto t = s.str(" \n\t", s.weighted({ 3, 1, 1 })) + write_json(s, v, s.weighted({ 1, 4 })) + s.str(" \n\t", s.weighted({ 3, 1, 1 })); c.note("text " + show(t, 1500));
	std::string err; auto r = RefJson::parse(t, err); if (!r || !(*r == v)) c.fail("harness error: the reference does not read its own text: " + err);
	Property p; auto lc = pick_locale(s); try { InLocale lo(lc, &c); p = JSON::parse(t); } catch (const std::exception& e) { c.fail(std::string("valid JSON rejected: ") + e.what()); }
	expect(c, p, v, "parsed value"); c.nontrivial(v.size() > 1);
}
static void values(Src& s, Case& c) {	// copies and assignments of values
	size_t before = live_bytes(); std::string log;
	{
		std::vector<std::unique_ptr<Property>> p; std::vector<JV> m; size_t n = 2 + s.below(4);
		for (size_t i = 0; i < n; i++) { m.push_back(gen_json(s, s.below(4))); p.push_back(std::make_unique<Property>(build(m.back(), s))); log += "v" + std::to_string(i) + " = " + m.back().show() + "\n"; }
		size_t ops = 1 + s.count(14);
		for (size_t k = 0; k < ops; k++) {
			size_t a = s.below(n), b = s.below(n);
			switch (s.weighted({ 4, 2, 2, 2, 2, 1 })) {
				case 0: *p[a] = *p[b]; m[a] = JV(m[b]); log += "v" + std::to_string(a) + " = v" + std::to_string(b) + "\n"; break;
				case 1: { Property q(*p[b]); p[a] = std::make_unique<Property>(q); m[a] = JV(m[b]); log += "v" + std::to_string(a) + " = copy of v" + std::to_string(b) + "\n"; } break;
				case 2: { Property q(*p[b]); p[a] = std::make_unique<Property>(std::move(q)); m[a] = JV(m[b]); log += "v" + std::to_string(a) + " = moved copy of v" + std::to_string(b) + "\n"; } break;
				case 3: { auto v = gen_json(s, 1); *p[a] = build(v, s); m[a] = v; log += "v" + std::to_string(a) + " = new " + v.show() + "\n"; } break;
				case 4: { // a part of a value assigned to the value itself
					if (m[a].t == JV::Arr && m[a].a.size()) { size_t i = s.below(m[a].a.size()); *p[a] = p[a]->asArray()[i]; JV t = m[a].a[i]; m[a] = t; log += "v" + std::to_string(a) + " = its element " + std::to_string(i) + "\n"; }
					else if (m[a].t == JV::Obj && m[a].o.size()) { auto key = m[a].o.begin()->first; *p[a] = p[a]->asMap().at(key); JV t = m[a].o[key]; m[a] = t; log += "v" + std::to_string(a) + " = its member\n"; }
				} break;
				default: { JSON::Array arr{ *p[a], *p[b] }; *p[a] = Property(arr); JV w; w.t = JV::Arr; w.a = { m[a], m[b] }; m[a] = w; log += "v" + std::to_string(a) + " = [itself, v" + std::to_string(b) + "]\n"; if (m[a].size() > 3000) { *p[a] = Property(1); JV o; o.t = JV::Int; o.i = 1; m[a] = o; } } break;
			}
			c.note(log); log.clear(); for (size_t i = 0; i < n; i++) expect(c, *p[i], m[i], "v" + std::to_string(i));
		}
		c.nontrivial(ops > 2);
	}
	(void)before;
}
static void leaks(Src& s, Case& c) {
	auto v = gen_json(s, 3), w = gen_json(s, 3); Rng r(s.upto(1 << 20)); c.note("values " + v.show() + " and " + w.show()); Src* sp = &s; auto t = write_json(s, v, 1); auto pv = build(v, *sp), pw = build(w, *sp);
	auto body = [&] { Property a(pv), b(pw), d; d = a; a = b; b = d; d = d; Property e(std::move(b)); try { e = JSON::parse(t); JSON::parse(t + ","); } catch (const std::exception&) {} try { JSON::parse("[" + t + ",[}"); } catch (const std::exception&) {} };
	body(); size_t before = live_bytes(); body(); body(); size_t after = live_bytes(); c.checkf(after <= before, [&] { return std::to_string(after - before) + " bytes leaked"; }); c.nontrivial(v.size() > 1);
}
static void any_text(Src& s, Case& c) {
	std::string t;
	switch (s.weighted({ 16, 12, 8, 1 })) {
		case 0: { t = write_json(s, gen_json(s, 1 + s.below(3)), 1); size_t k = 1 + s.below(4); while (k--) { if (t.empty()) break; size_t at = s.below(t.size()); switch (s.below(5)) { case 0: t.erase(at, 1 + s.below(3)); break; case 1: t.insert(at, s.pick({ "\"", "\\", "{", "}", "[", "]", ",", ":", "\\u", "\\u12", "-", ".", "e9", "null", "1" })); break; case 2: t[at] = (char)s.upto(255); break; case 3: t.resize(at); break; default: t += t.substr(at); } } } break;
		case 1: { size_t n = s.count(20); for (size_t i = 0; i < n; i++) t += s.pick({ "\"", "\\", "{", "}", "[", "]", ",", ":", "\\u", "\\ud800", "-", ".", "e", "1", "0", "true", "false", "null", "t", "fe", " ", "\"a\"", "\n", "99999999999", "1e999999", "-0", "\\\"" }); } break;
		case 2: t = s.bytestr(s.len(200)); break;
		default: { size_t n = s.len(s.chance(1, 10) ? 60000 : 3000); auto u = s.pick({ "[", "{\"a\":", "[[", "{", "\"", "\\", "[1,", "]", "{\"k\":[", "," }); for (size_t i = 0; i < n && t.size() < 120000; i++) t += u; } break;
	}
	c.note("text " + show(t, 1000));
	try { Property p = JSON::parse(t); auto u = JSON::stringify(p); (void)u; JV v; auto e = read(p, v); if (e.size() && e != "value is undefined") c.fail(e); c.label("accepted"); } catch (const std::exception&) { c.label("rejected"); }
	std::string err; auto r = RefJson::parse(t, err); c.nontrivial(!r);
}
int main(int argc, char** argv) {
	return run(argc, argv, "C18", {
		{ "roundtrip", roundtrip, 60000, 1500000, "random value trees (escapes, control characters, unicode keys, int32, doubles) -> stringify -> strict independent parser and library parser; non-trivial: container", 8, 20 },
		{ "floats", longdouble, 60000, 1000000, "floating point values incl. extended precision; all in-range cases non-trivial", 8, 10 },
		{ "parse_valid", parse_valid, 60000, 1500000, "random value trees written with random white space, escapes and number spellings, incl. nesting up to 200; non-trivial: container", 8, 20 },
		{ "values", values, 20000, 400000, "sequences of copy, move, assign, self- and part-assignment over a pool of values, all compared with a model after every step; non-trivial: more than two operations", 8, 20 },
		{ "leaks", leaks, 10000, 100000, "heap balance over assignments, moves and failed parses; non-trivial: container", 8, 20 },
		{ "any_text", any_text, 120000, 4000000, "mutated, token-soup, byte and deeply nested texts: parse ends with a value or an error; coverage guided; non-trivial: not valid JSON", 8, 30, 100, true },
	});
}
