// Dates (C30): every operation on dates, with the fields before and after.
#include "vh.hpp"
#include "vnet.hpp"
#include "vmime/vmime.hpp"
#include "vmime/utility/datetimeUtils.hpp"
#include "vmime/utility/outputStreamStringAdapter.hpp"
#include "vmime/net/imap/IMAPUtils.hpp"
#include <ctime>
#include <cstdlib>
#include <sys/time.h>
#include <unistd.h>
#include <sys/syscall.h>
using namespace vh;
typedef vmime::utility::datetimeUtils DU;

static bool g_fake = false; static time_t g_now = 0;
extern "C" time_t time(time_t* p) noexcept {
	time_t t;
	if (g_fake) t = g_now; else { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); t = ts.tv_sec; }
	if (p) *p = t;
	return t;
}

static std::string F(const vmime::datetime& d) {
	return Obj().i("y", d.getYear()).i("mo", d.getMonth()).i("d", d.getDay()).i("h", d.getHour()).i("mi", d.getMinute()).i("s", d.getSecond()).i("z", d.getZone()).json();
}
static int dim(int y, int m) { static const int n[] = {31,28,31,30,31,30,31,31,30,31,30,31}; return m == 2 && y % 4 == 0 && (y % 100 || y % 400 == 0) ? 29 : n[m - 1]; }
static int rzone(Rng& r) {
	int k = r.below(10);
	return k < 3 ? 0 : k < 6 ? 60 * r.range(-12, 14) : k < 7 ? 15 * r.range(-95, 95) : k < 8 ? r.range(-1439, 1439) : k < 9 ? r.pick(std::vector <int>{-1, 1, 59, -59, 61, -61, 30, -30, 1439, -1439}) : r.range(-5999, 5999);
}
static vmime::datetime rdate(Rng& r) {
	int y = r.chance(50) ? r.pick(std::vector <int>{1000, 1582, 1899, 1900, 1969, 1970, 1999, 2000, 2001, 2003, 2004, 2020, 2099, 2100, 2400, 9998}) : r.range(1000, 9998);
	int m = r.chance(40) ? r.pick(std::vector <int>{1, 2, 3, 12}) : r.range(1, 12);
	int n = dim(y, m), d = r.chance(60) ? r.pick(std::vector <int>{1, 2, 28, n, n, n - 1}) : r.range(1, n);
	int h = r.chance(50) ? r.pick(std::vector <int>{0, 1, 12, 22, 23}) : r.range(0, 23), mi = r.chance(50) ? r.pick(std::vector <int>{0, 1, 30, 59}) : r.range(0, 59);
	return vmime::datetime(y, m, d, h, mi, r.chance(30) ? r.pick(std::vector <int>{0, 59}) : r.range(0, 59), rzone(r));
}
static std::string genS(const vmime::datetime& d) { std::string s; vmime::utility::outputStreamStringAdapter o(s); d.generate(o); return s; }
template <class Fn> static void run(const Fn& f) {
	try { f(); } catch (std::exception& e) { emitRaw(Obj().str("e", "exc").str("w", e.what()).json()); }
}
static void genBack(Rng& r, const vmime::datetime& d) { run([&] {
	std::string s = genS(d);
	emitRaw(Obj().str("e", "gen").bytes("x", s).json());
	vmime::datetime b = rdate(r); b.parse(s); 
	emitRaw(Obj().str("e", "back").raw("f", F(b)).json());
}); }
static void imap(const vmime::datetime& d) { run([&] { emitRaw(Obj().str("e", "imap").bytes("x", vmime::net::imap::IMAPUtils::dateTime(d)).json()); }); }
static void zone(const vmime::datetime& d, int to) { run([&] {
	vmime::datetime b = to == 0 ? DU::toUniversalTime(d) : DU::toLocalTime(d, to);
	emitRaw(Obj().str("e", "zone").i("to", to).raw("f", F(b)).json());
}); }
static void cmp(const vmime::datetime& a, const vmime::datetime& b) { run([&] {
	emitRaw(Obj().str("e", "cmp").raw("f", F(b)).b("eq", a == b).b("ne", a != b).b("lt", a < b).b("le", a <= b).b("gt", a > b).b("ge", a >= b).json());
}); }
static void week(const vmime::datetime& d) { run([&] {
	emitRaw(Obj().str("e", "week").i("dow", d.getWeekDay()).i("iso", DU::getWeekOfYear(d.getYear(), d.getMonth(), d.getDay(), true)).i("cal", d.getWeek()).json());
}); }
static void make(const vmime::datetime& d) { emitRaw(Obj().str("e", "make").raw("f", F(d)).json()); }

static std::string ws(Rng& r, bool must) {
	if (r.chance(80)) return must ? " " : "";
	static const std::vector <std::string> v = {" ", "  ", "\t", "\r\n ", " \r\n\t"};
	return r.pick(v);
}
static std::string cased(Rng& r, std::string s) { int k = r.below(10); for (char& c : s) c = char(k == 0 ? toupper(c) : k == 1 ? tolower(c) : c); return s; }
static std::string num(int n, int w) { char b[32]; snprintf(b, sizeof b, "%0*d", w, n); return b; }
static std::string rtext(Rng& r) {
	static const std::vector <std::string> D = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}, M = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"},
		Z = {"UT", "GMT", "UTC", "EST", "EDT", "CST", "CDT", "MST", "MDT", "PST", "PDT"};
	vmime::datetime d = rdate(r);
	std::string x = ws(r, false);
	if (r.chance(70)) x += cased(r, r.pick(D)) + ws(r, false) + "," + ws(r, r.chance(90));
	x += (d.getDay() < 10 && r.chance(50) ? num(d.getDay(), 1) : num(d.getDay(), 2)) + ws(r, true) + cased(r, M[size_t(d.getMonth() - 1)]) + ws(r, true);
	x += (r.chance(80) ? num(d.getYear(), 4) : num(r.range(0, 99), 2)) + ws(r, true);
	x += num(d.getHour(), 2) + (r.chance(5) ? ws(r, false) : "") + ":" + (r.chance(5) ? ws(r, false) : "") + num(d.getMinute(), 2);
	if (r.chance(80)) x += std::string(r.chance(5) ? " " : "") + ":" + (r.chance(5) ? " " : "") + num(d.getSecond(), 2);
	int k = r.below(10);
	if (k < 5) { x += ws(r, true); int z = std::abs(d.getZone()); x += (d.getZone() < 0 ? "-" : "+") + num(z / 60 * 100 + z % 60, 4); }
	else if (k < 7) x += ws(r, true) + cased(r, r.pick(Z));
	else if (k < 9) x += ws(r, true) + std::string(1, cased(r, std::string(1, char('A' + r.below(26))))[0]);
	if (r.chance(10)) x += ws(r, true) + r.pick(std::vector <std::string>{"(CET)", "(x y)", " ", "\r\n "});
	if (r.chance(15)) for (int i = r.range(1, 3) ; i > 0 && !x.empty() ; --i) {      // malformed
		size_t p = size_t(r.below(int(x.size())));
		switch (r.below(4)) { case 0: x.erase(p, 1); break; case 1: x.resize(p); break; case 2: x.insert(p, 1, r.pick(std::vector <char>{' ', ':', '9', '3', 'a', ',', '-', '+', '('})); break; default: x[p] = char(r.range(32, 126)); }
	}
	return x;
}
static void ops(Rng& r, const vmime::datetime& d) {
	if (r.chance(60)) genBack(r, d);
	if (r.chance(40)) imap(d);
	if (r.chance(60)) zone(d, 0);
	for (int i = r.below(3) ; i > 0 ; --i) zone(d, rzone(r));
	if (r.chance(40)) week(d);
	if (r.chance(50)) { vmime::datetime o = r.chance(40) ? rdate(r) : d; if (r.chance(50)) { try { o = DU::toLocalTime(o, rzone(r)); } catch (std::exception&) { } }
		if (r.chance(30)) o.setSecond(r.range(0, 59)); if (r.chance(20)) o.setMinute(r.range(0, 59)); if (r.chance(20)) o.setZone(rzone(r)); cmp(d, o); }
}
static void dateMode(Rng& r, int) {
	setCfg(Obj());
	for (int i = r.range(1, 4) ; i > 0 ; --i) {
		vmime::datetime d;
		if (r.chance(50)) { d = rdate(r); make(d); }
		else { std::string x = rtext(r); d = rdate(r);
			if (r.chance(50)) { std::string pre = r.chance(50) ? "x: " : ""; d.parse(pre + x + (r.chance(50) ? "\r\nNext: 3" : ""), pre.size(), pre.size() + x.size(), NULL); } else d = x;
			vmime::datetime d2 = rdate(r); d2 = x;
			emitRaw(Obj().str("e", "parse").bytes("x", x).raw("f", F(d)).raw("f2", F(d2)).json()); }
		ops(r, d);
	}
	if (r.chance(30)) { int y = r.range(1000, 9998), m = r.range(1, 12); run([&] { emitRaw(Obj().str("e", "month").i("y", y).i("m", m).i("dim", DU::getDaysInMonth(y, m)).b("leap", DU::isLeapYear(y)).json()); }); }
	if (r.chance(40)) {
		static const std::vector <const char*> tz = {"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "NST3:30NDT,M3.2.0,M11.1.0", "<+1245>-12:45<+1345>,M9.5.0/2:45,M4.1.0/3:45", "<-11>11", "<+14>-14", "EST5EDT,M3.2.0,M11.1.0", "<+0530>-5:30"};
		setenv("TZ", r.pick(tz), 1); tzset();
		time_t t;
		if (r.chance(50)) t = time_t(r.range(0, 2000000000)) + r.below(2000000000);
		else { struct tm m = {}; m.tm_year = r.range(100, 150); m.tm_mon = r.pick(std::vector <int>{2, 9, 10, 3, 8}); m.tm_mday = r.range(1, 31); m.tm_hour = r.below(24); m.tm_min = r.below(60); t = timegm(&m); }
		g_now = t; g_fake = true;
		vmime::datetime d = vmime::datetime::now();
		g_fake = false;
		emitRaw(Obj().str("e", "now").i("day", (long long)(t / 86400)).i("sec", (long long)(t % 86400)).raw("f", F(d)).json());
		setenv("TZ", "UTC0", 1); tzset();
	}
	if (r.chance(20)) { time_t t = time_t(r.range(0, 2000000000)) + r.below(2000000000); vmime::datetime d(t); emitRaw(Obj().str("e", "now").i("day", (long long)(t / 86400)).i("sec", (long long)(t % 86400)).raw("f", F(d)).json()); }
}
// script: y mo d h mi z z2
static void dscript(Rng& r, int idx) {
	std::istringstream in(scriptLine(idx)); int y, mo, d, h, mi, z, z2; in >> y >> mo >> d >> h >> mi >> z >> z2;
	setCfg(Obj());
	vmime::datetime a(y, mo, d, h, mi, r.range(0, 59), z); make(a);
	genBack(r, a); imap(a); zone(a, 0); zone(a, z2); week(a);
	vmime::datetime b = DU::toLocalTime(a, z2); cmp(a, b); b.setMinute((mi + 7) % 60); cmp(a, b);
}
int main(int argc, char** argv) {
	initVmime();
	return runMain(argc, argv, {{"dates", dateMode}, {"dscript", dscript}});
}
