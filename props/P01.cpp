#include <engine.hpp>
#include "civil.hpp"
#include <dal/time/dateutils.hpp>
#include <dal/utilities/exceptions.hpp>
using namespace Dal;
PROPERTY_DEF("P01", "Every date of the representable range 1970-01-01..2149-05-22 is enumerated in blocks, and random (date, months/days/format) "
  "combinations are drawn; the oracle is an independent civil calendar. Non-trivial: the block/case is a distinct one whose result stays in the range and "
  "involves a month end, leap day, year boundary, or a non-zero shift.")
namespace pbt { std::vector<std::string> ASSUMPTIONS = {"domain: valid civil dates within Date::Minimum()..Date::Maximum()"}; void globalInit() {} }
using civil::Ymd;

static void oneDate(int n) {
    Ymd a = civil::fromDays(n);
    Date_ d(a.y, a.m, a.d);
    CHECK(d.IsValid(), civil::iso(a));
    CHECK(Date::Year(d) == a.y && Date::Month(d) == a.m && Date::Day(d) == a.d, civil::iso(a) << " read back as " << Date::Year(d) << "-" << Date::Month(d) << "-" << Date::Day(d));
    CHECK(Date::ToExcel(d) == n + 25569, civil::iso(a) << " excel " << Date::ToExcel(d));
    CHECK(Date::FromExcel(n + 25569) == d, civil::iso(a));
    CHECK(NumericValueOf(d) == n + 25569.0, civil::iso(a));
    CHECK(Date::DayOfWeek(d) == civil::weekday(n), civil::iso(a) << " dow " << Date::DayOfWeek(d));
    CHECK(Date::IsWeekEnd(d) == (civil::weekday(n) == 0 || civil::weekday(n) == 6), civil::iso(a));
    CHECK(Date::DaysInMonth(a.y, a.m) == civil::dim(a.y, a.m), civil::iso(a) << " dim " << Date::DaysInMonth(a.y, a.m));
    Date_ e = Date::EndOfMonth(d);
    CHECK(Date::Year(e) == a.y && Date::Month(e) == a.m && Date::Day(e) == civil::dim(a.y, a.m), civil::iso(a));
    CHECK(std::string(Date::ToString(d).c_str()) == civil::iso(a), civil::iso(a) << " vs " << Date::ToString(d).c_str());
    CHECK(Date::IsDateString(Date::ToString(d)), civil::iso(a));
    CHECK(Date::FromString(Date::ToString(d)) == d, civil::iso(a));
    if (n > 0) { Date_ p = d; --p; CHECK(p == civil::date(n - 1) && p < d && d > p && p != d && p <= d && d >= p && d - p == 1, civil::iso(a)); }
    if (n < civil::MAXDAY) { Date_ p = d; ++p; CHECK(p == civil::date(n + 1) && d < p && !(p < d) && !(p <= d) && !(d >= p), civil::iso(a)); }
    CHECK(d == Date_(d) && d <= d && d >= d && !(d < d) && !(d > d) && !(d != d), civil::iso(a));
}
SUB("every-date", 65536 / 64, 65536 / 64) {
    // the blocks are visited in a fixed order by index, so that together the cases cover the whole range
    int block = g.n(0, 1023);
    for (int k = 0; k < 64; ++k) { int n = block * 64 + k; if (n <= civil::MAXDAY) oneDate(n); }
    SHOW("dates " << civil::iso(civil::fromDays(std::min(block * 64, civil::MAXDAY))) << " .. +64");
    g.nontrivial();
}
SUB("whole-range", 8, 16) {
    int part = g.n(0, 7);
    for (int n = part; n <= civil::MAXDAY; n += 8) oneDate(n);
    SHOW("every 8th date from day " << part);
    g.nontrivial();
}
static int genDay(pbt::G& g) {
    switch (g.draw(5)) {
    case 0: { int y = g.n(1970, 2148), m = g.n(1, 12); return civil::days(y, m, civil::dim(y, m)); }
    case 1: { int y = g.n(1970, 2148); return civil::days(y, 2, civil::dim(y, 2)) - g.n(0, 1); }
    case 2: { int y = g.n(1970, 2149); return civil::days(y, 1, 1) + (y == 1970 ? 0 : -g.n(0, 1)); }
    case 3: return g.of({0, civil::MAXDAY, civil::MAXDAY - 1, 1, civil::days(2000, 2, 29), civil::days(2100, 2, 28), civil::days(2100, 3, 1)});
    default: return g.n(0, civil::MAXDAY);
    }
}
SUB("add-months", 2000000, 20000000) {
    int n = genDay(g); Ymd a = civil::fromDays(n);
    int lo = -((a.y - 1970) * 12 + a.m - 1), hi = (2149 - a.y) * 12 + 4 - (a.m - 1);
    int k = g.chance(50) ? g.n(std::max(lo, -30), std::min(hi, 30)) : g.n(lo, hi);
    bool eom = g.b();
    Ymd e = civil::addMonths(a, k, eom);
    SHOW(civil::iso(a) << " + " << k << "M eom=" << eom << " -> " << civil::iso(e));
    if (civil::num(e) > civil::MAXDAY) g.discard();
    g.nontrivial(k != 0);
    if (e.d != a.d) g.label("day-changed");
    if (k < 0) g.label("backward");
    Date_ r = Date::AddMonths(civil::date(a), k, eom);
    CHECK(r == civil::date(e) && Date::Year(r) == e.y && Date::Month(r) == e.m && Date::Day(r) == e.d,
          civil::iso(a) << " + " << k << " months, eom " << eom << ": got " << Date::ToString(r).c_str() << " expected " << civil::iso(e));
    if (!eom) CHECK(Date::AddMonths(civil::date(a), k) == r, "default argument");
}
SUB("add-days", 2000000, 20000000) {
    int n = genDay(g), m = genDay(g);
    Date_ a = civil::date(n), b = civil::date(m);
    SHOW(civil::iso(civil::fromDays(n)) << " and " << civil::iso(civil::fromDays(m)));
    g.nontrivial(n != m);
    CHECK(b - a == m - n, b - a << " vs " << m - n);
    CHECK(a.AddDays(m - n) == b, "AddDays " << m - n << " from " << civil::iso(civil::fromDays(n)));
    CHECK((a < b) == (n < m) && (a > b) == (n > m) && (a == b) == (n == m) && (a != b) == (n != m) && (a <= b) == (n <= m) && (a >= b) == (n >= m), "order of " << n << " and " << m);
}
SUB("range-and-validity", 100000, 1000000) {
    int s = g.chance(50) ? g.n(25560, 25575) : g.chance(50) ? g.n(25568 + 65520, 25568 + 65545) : g.n(-100000, 200000);
    Date_ d = Date::FromExcel(s);
    SHOW("excel serial " << s);
    bool in = s > 25568 && s < 25568 + 65536;
    g.nontrivial(true);
    CHECK(d.IsValid() == in, "serial " << s);
    if (in) CHECK(Date::ToExcel(d) == s, "serial " << s);
    CHECK(!Date_().IsValid(), "default date");
    CHECK(Date::Minimum() == civil::date(0) && Date::Maximum() == civil::date(civil::MAXDAY), "limits");
    // constructing outside the range gives an invalid date, not a wrapped one
    int y = g.chance(50) ? g.n(2150, 2330) : g.n(1800, 1969), m = g.n(1, 12), dd = g.n(1, 28);
    CHECK(!Date_(y, m, dd).IsValid(), y << "-" << m << "-" << dd << " should be invalid");
}
SUB("date-strings", 60000, 400000) {
    int n = genDay(g); Ymd a = civil::fromDays(n); char b[64];
    int f = g.n(0, 5);
    switch (f) {
    case 0: snprintf(b, 64, "%04d-%02d-%02d", a.y, a.m, a.d); break;
    case 1: snprintf(b, 64, "%d-%d-%d", a.y, a.m, a.d); break;
    case 2: snprintf(b, 64, "%02d/%02d/%04d", a.m, a.d, a.y); break;
    case 3: snprintf(b, 64, "%d/%d/%d", a.m, a.d, a.y); break;
    case 4: if (a.y < 2000 || a.y > 2099) { a.y = 2000 + a.y % 100; if (a.d > civil::dim(a.y, a.m)) a.d = 28; } snprintf(b, 64, "%d/%d/%02d", a.m, a.d, a.y - 2000); break;
    default: snprintf(b, 64, "%04d-%02d-%02d", a.y, a.m, a.d);
    }
    std::string s = b;
    if (f < 5) {
        SHOW("parse " << s);
        g.nontrivial();
        CHECK(Date::IsDateString(String_(s)), s);
        CHECK(Date::FromString(String_(s)) == civil::date(a), s << " parsed as " << Date::ToString(Date::FromString(String_(s))).c_str());
    } else {
        // corrupt the format: anything not recognised must be rejected by FromString
        int k = g.n(0, (int)s.size());
        const std::string junk = g.of<std::string>({"x", "-", "/", " ", ".", "T", ""});
        switch (g.draw(3)) { case 0: s.insert(k, junk); break; case 1: if (k < (int)s.size()) s.erase(k, 1); break; default: if (k < (int)s.size()) s[k] = junk.empty() ? '_' : junk[0]; }
        SHOW("corrupt " << s);
        int d1 = -1, d2 = -1; bool iso = true; int parts = 1; for (size_t q = 0; q < s.size(); ++q) { if (s[q] == '-' || s[q] == '/') { ++parts; if (d1 < 0) d1 = (int)q; else d2 = (int)q; } else if (!isdigit((unsigned char)s[q])) iso = false; }
        bool ok = iso && parts == 3 && d1 > 0 && d2 > d1 + 1 && d2 + 1 < (int)s.size() && s[d1] == s[d2];
        CHECK(Date::IsDateString(String_(s)) == ok, s);
        if (!ok) { g.nontrivial(); MUST_THROW(Date::FromString(String_(s)), s); }
    }
}
SUB("future-codes", 64, 64) {
    int c = g.n(1, 126); static const std::string codes = "FGHJKMNQUVXZ";
    auto p = codes.find((char)c); SHOW("code " << (char)c);
    g.nontrivial(p != std::string::npos);
    if (p != std::string::npos) CHECK(Date::MonthFromFutureCode((char)c) == (int)p + 1, (char)c);
    else MUST_THROW(Date::MonthFromFutureCode((char)c), (char)c);
    for (int q = -128; q < 128; ++q) if (q == 0 || codes.find((char)q) == std::string::npos) MUST_THROW(Date::MonthFromFutureCode((char)q), "character " << q);
    for (size_t k = 0; k < codes.size(); ++k) CHECK(Date::MonthFromFutureCode(codes[k]) == (int)k + 1, codes[k]);
}
SUB("no-such-day", 4000, 100000) {   // text that names no day is refused, not moved to a neighbouring day
    int y = g.n(1970, 2148), m = g.n(1, 12), d = g.n(1, 28); switch (g.n(0, 4)) { case 4: y = g.b() ? g.n(2150, 9999) : g.b() ? g.n(1000, 1968) : g.b() ? g.n(0, 9) : g.n(100, 999); if (g.b()) { m = 12; d = 31; } break; case 0: m = g.chance(30) ? 0 : g.n(13, 40); break; case 1: d = g.chance(30) ? 0 : g.n(32, 99); break; default: m = g.pick(std::vector<int>{2, 4, 6, 9, 11}); d = m == 2 ? g.n(civil::leap(y) ? 30 : 29, 31) : 31; } char b[64]; switch (g.n(0, 2)) { case 0: snprintf(b, 64, "%04d-%02d-%02d", y, m, d); break; case 1: snprintf(b, 64, "%d-%d-%d", y, m, d); break; default: snprintf(b, 64, "%d/%d/%d", m, d, y); } SHOW(b); g.nontrivial(); MUST_THROW(Date::FromString(String_(b)), b);
}
