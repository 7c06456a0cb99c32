// C29: dates
#include "pbt.hpp"
#include <core/polyfill/polyfill.hpp>
#include <clocale>
using namespace pbt; using namespace Lambda;

struct Civil { int64_t y; int m, d, h, mi, s, wd; };
static Civil civil(int64_t t) {	// days-from-civil algorithm inverted by counting years, independent of libc
	int64_t days = t / 86400; int sec = t % 86400; Civil c; c.h = sec / 3600; c.mi = sec / 60 % 60; c.s = sec % 60; c.wd = (days + 4) % 7;
	auto leap = [](int64_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; };
	int64_t y = 1970 + days / 366; auto before = [&](int64_t y) { int64_t n = y - 1; auto L = [](int64_t k) { return k / 4 - k / 100 + k / 400; }; return (y - 1970) * 365 + L(n) - L(1969); };
	while (before(y + 1) <= days) y++;
	int64_t r = days - before(y); static const int ml[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
	int m = 0; while (r >= ml[m] + (m == 1 && leap(y))) { r -= ml[m] + (m == 1 && leap(y)); m++; }
	c.y = y; c.m = m; c.d = r + 1; return c;
}
static const char* WD[] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" };
static const char* MN[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
static void check_date(Case& c, const Date& d, int64_t t) {
	auto v = civil(t); char b[200];
	c.check(d.getTime() == t, "getTime differs");
	c.checkf(d.getSeconds() == v.s && d.getMinutes() == v.mi && d.getHours() == v.h, [&] { return "time of day " + std::to_string(d.getHours()) + ":" + std::to_string(d.getMinutes()) + ":" + std::to_string(d.getSeconds()); });
	c.checkf(d.getDay() == v.d && d.getMonth() == v.m, [&] { return "day " + std::to_string(d.getDay()) + " month " + std::to_string(d.getMonth()); });
	c.checkf(d.getYear() == v.y - 1900, [&] { return "getYear " + std::to_string(d.getYear()); });
	snprintf(b, sizeof b, "%s, %02d %s %lld %02d:%02d:%02d GMT", WD[v.wd], v.d, MN[v.m], (long long)v.y, v.h, v.mi, v.s);
	c.checkf(d.toUTCString() == b, [&] { return "toUTCString " + show(d.toUTCString()) + ", expected " + b; });
	snprintf(b, sizeof b, "%02d %s %lld %02d:%02d:%02d", v.d, MN[v.m], (long long)v.y, v.h, v.mi, v.s);
	c.checkf(d.toHRTString() == b, [&] { return "toHRTString " + show(d.toHRTString()) + ", expected " + b; });
	snprintf(b, sizeof b, "%s, %02d %s %lld", WD[v.wd], v.d, MN[v.m], (long long)v.y);
	c.checkf(d.getDate() == b, [&] { return "getDate " + show(d.getDate()) + ", expected " + b; });
}
static int64_t instant(Src& s) {
	const int64_t END = 253402300799ll;
	switch (s.weighted({ 2, 2, 2, 1 })) {
		case 0: return s.upto(END);
		case 1: { // around a day / month / year boundary
			int64_t day = s.upto(END / 86400); int64_t t = day * 86400 + s.range(-3, 3); return t < 0 ? 0 : t > END ? END : t; }
		case 2: { int64_t y = 1970 + s.below(8030); int64_t n = y - 1; auto L = [](int64_t k) { return k / 4 - k / 100 + k / 400; }; int64_t days = (y - 1970) * 365 + L(n) - L(1969) + s.pick({ 0, 31, 58, 59, 60, 364, 365 }); int64_t t = days * 86400 + s.pick({ 0, 1, 3599, 3600, 43199, 43200, 86399 }); return t > END ? END : t; }
		default: return std::min<int64_t>(END, (1ll << s.below(38)) + s.range(-1, 1));
	}
}
static void dates(Src& s, Case& c) {
	const char* tz = s.pick({ "UTC", "America/New_York", "EST5EDT", "XYZ-14:30", "ABC+11", "CET-1CEST,M3.5.0,M10.5.0/3", ":bogus" });
	const char* lc = s.pick({ "C", "C.UTF-8", "de_DE.UTF-8", "POSIX", "de_DE.ISO-8859-1", "tr_TR.ISO-8859-9" });
	setenv("TZ", tz, 1); setenv("LC_ALL", lc, 1); setenv("LANG", lc, 1); tzset(); bool on = s.flip() && setlocale(LC_ALL, ""); if (!on) setlocale(LC_ALL, "C"); else if (*lc == 'd' || *lc == 't') c.label("translated names");
	auto t = instant(s); c.note("epoch " + std::to_string(t) + " TZ " + tz + " locale " + lc);
	Date d(t); check_date(c, d, t); Date e = d; setenv("TZ", "QQQ+5", 1); tzset(); Date f(0); f = e; check_date(c, f, t);
	c.nontrivial(t % 86400 != 0); c.label(tz);
}
static void current(Src& s, Case& c) {
	setenv("TZ", s.pick({ "UTC", "EST5EDT", "XYZ-14" }), 1); tzset();
	int64_t a = time(nullptr); Date d; int64_t b = time(nullptr); c.note("now " + std::to_string(a));
	c.check(d.getTime() >= a - 1 && d.getTime() <= b, "Date() is not the current time"); check_date(c, d, d.getTime()); c.nontrivial();
}
int main(int argc, char** argv) {
	return run(argc, argv, "C29", {
		{ "instants", dates, 600000, 8000000, "instants in 1970..9999 (uniform, around day/month/year/leap boundaries, powers of two) under several time zones and locales vs an independent calendar; non-trivial: not midnight" },
		{ "current", current, 400, 4000, "default constructed date is now; all non-trivial" },
	});
}
