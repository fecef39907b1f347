#include <engine.hpp>
#include "civil.hpp"
#include <dal/time/datetime.hpp>
#include <dal/time/datetimeutils.hpp>
#include <dal/utilities/exceptions.hpp>
using namespace Dal;
PROPERTY_DEF("P02", "All 86400 times of day are enumerated in blocks on random dates, and random pairs of date-times, millisecond stamps, increments and time strings are "
  "drawn; oracle: integer arithmetic on seconds / milliseconds. Non-trivial: time of day not midnight, or a shift crossing midnight, or a string that must be rejected.")
namespace pbt { std::vector<std::string> ASSUMPTIONS = {"dates within Date::Minimum()..Date::Maximum(), day fractions in [0,1)"}; void globalInit() {} }

static std::string hms(int s) { char b[32]; snprintf(b, 32, "%02d:%02d:%02d", s / 3600, s / 60 % 60, s % 60); return b; }
static void oneTime(int day, int s) {
    Date_ d = civil::date(day);
    DateTime_ t(d, s / 3600, s / 60 % 60, s % 60);
    const std::string e = civil::iso(civil::fromDays(day)) + " " + hms(s);
    CHECK(t.IsValid() && t.Date() == d, e);
    CHECK(pbt::close(t.Frac(), s / 86400.0, 1e-14), e << " frac " << t.Frac());
    CHECK(DateTime::Hour(t) == s / 3600, e << " hour " << DateTime::Hour(t));
    CHECK(DateTime::Minute(t) == s / 60 % 60, e << " minute " << DateTime::Minute(t));
    CHECK(std::string(DateTime::TimeString(t).c_str()) == hms(s), e << " prints " << DateTime::TimeString(t).c_str());
    String_ p = DateTime::ToString(t);
    CHECK(std::string(p.c_str()) == e, e << " prints " << p.c_str());
    CHECK(DateTime::IsDateTimeString(p), e);
    CHECK(DateTime::FromString(p) == t, e << " reads back differently");
    CHECK(DateTime::MSec(t) == day * 86400000LL + s * 1000LL, e << " msec " << DateTime::MSec(t));
    CHECK(pbt::close(NumericValueOf(t), day + 25569 + s / 86400.0, 1e-15), e);
}
SUB("every-second", 2700, 10800) {
    int block = g.n(0, 2699), day = g.n(0, civil::MAXDAY);
    for (int k = 0; k < 32; ++k) oneTime(day, block * 32 + k);
    SHOW("day " << day << " seconds from " << block * 32);
    g.nontrivial();
}
SUB("all-seconds-of-a-day", 8, 16) {
    int part = g.n(0, 7), day = g.n(0, civil::MAXDAY);
    for (int k = part; k < 86400; k += 8) oneTime(day, k);
    SHOW("every 8th second from " << part);
    g.nontrivial();
}
SUB("milliseconds", 2000000, 20000000) {
    long long ms = g.i(0, (long long)civil::MAXDAY * 86400000LL);
    if (g.chance(20)) ms -= ms % 1000;
    if (g.chance(10)) ms -= ms % 86400000;
    DateTime_ t(ms);
    SHOW("msec " << ms);
    g.nontrivial(ms % 86400000 != 0);
    CHECK(DateTime::MSec(t) == ms, ms << " -> " << DateTime::MSec(t));
    CHECK(t.Date() == civil::date((int)(ms / 86400000)), ms);
    int s = (int)(ms % 86400000 / 1000);
    CHECK(std::string(DateTime::TimeString(t).c_str()) == hms(s), ms << " prints " << DateTime::TimeString(t).c_str() << " expected " << hms(s));
}
SUB("order-and-difference", 1000000, 10000000) {
    int d1 = g.n(0, civil::MAXDAY), d2 = g.chance(60) ? std::min(civil::MAXDAY, d1 + g.n(0, 1)) : g.n(0, civil::MAXDAY);
    int s1 = g.n(0, 86399), s2 = g.chance(30) ? s1 : g.n(0, 86399);
    DateTime_ a(civil::date(d1), s1 / 3600, s1 / 60 % 60, s1 % 60), b(civil::date(d2), s2 / 3600, s2 / 60 % 60, s2 % 60);
    long long x = d1 * 86400LL + s1, y = d2 * 86400LL + s2;
    SHOW(DateTime::ToString(a).c_str() << " vs " << DateTime::ToString(b).c_str());
    g.nontrivial(x != y);
    if (d1 == d2) g.label("same-day");
    CHECK((a < b) == (x < y) && (a > b) == (x > y) && (a == b) == (x == y) && (a != b) == (x != y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "order of " << x << ", " << y);
    CHECK(std::fabs((b - a) - (y - x) / 86400.0) < 1e-10, "difference " << b - a);
    CHECK((NumericValueOf(a) < NumericValueOf(b)) == (x < y), "numeric order");
}
SUB("order-of-fractions", 200000, 4000000) {   // the order is that of the instants, however close they are
    int d = g.n(0, civil::MAXDAY); double f = g.u01() * 0.999, h = f; switch (g.n(0, 3)) { case 0: h = std::nextafter(f, 2.0); break; case 1: h = f + std::pow(10.0, -(double)g.n(5, 14)); break; case 2: break; default: h = g.u01() * 0.999; }
    if (!(h < 1.0)) h = f; DateTime_ a(civil::date(d), f), b(civil::date(d), h);
    SHOW(d << " + " << f << " vs " << h); g.nontrivial(f != h);
    CHECK(a.Frac() == f && b.Frac() == h, "stored fractions");
    CHECK((a < b) == (f < h) && (a > b) == (f > h) && (a <= b) == (f <= h) && (a >= b) == (f >= h) && (a == b) == (f == h) && (a != b) == (f != h), "order of " << f << " and " << h);
}
SUB("add-fraction", 1000000, 10000000) {
    int d1 = g.n(0, civil::MAXDAY - 4001), s1 = g.n(0, 86399);
    long long add = g.chance(50) ? g.i(1, 86400 * 2) : g.i(1, 86400LL * 4000);
    DateTime_ a(civil::date(d1), s1 / 3600, s1 / 60 % 60, s1 % 60);
    DateTime_ b = a + add / 86400.0; DateTime_ c(a); DateTime_& r = (c += add / 86400.0);
    SHOW(DateTime::ToString(a).c_str() << " + " << add << "s");
    g.nontrivial(s1 + add >= 86400);
    CHECK(&r == &c && b == c, "+ and += agree");
    CHECK(b.Frac() >= 0 && b.Frac() < 1.0 && b.IsValid(), "fraction " << b.Frac());
    CHECK(std::fabs((b - a) - add / 86400.0) < 1e-9, "advance by " << b - a << " instead of " << add / 86400.0);
    long long tot = d1 * 86400LL + s1 + add;
    CHECK(std::fabs(NumericValueOf(b) - (25569 + tot / 86400.0)) < 1e-9, "numeric value");
    CHECK(a.Date() == civil::date(d1), "operand unchanged");
    MUST_THROW(a + 0.0, "non-positive increment"); MUST_THROW(a + (-add / 86400.0), "negative increment");
}
SUB("time-strings", 40000, 400000) {
    int day = g.n(0, civil::MAXDAY); std::string d = civil::iso(civil::fromDays(day));
    int h = g.n(0, 30), m = g.n(0, 70), s = g.n(0, 70); bool sec = g.b(), pad = g.b();
    if (g.chance(40)) { h %= 24; m %= 60; s %= 60; }
    char b[64]; if (sec) snprintf(b, 64, pad ? "%02d:%02d:%02d" : "%d:%d:%d", h, m, s); else snprintf(b, 64, pad ? "%02d:%02d" : "%d:%d", h, m);
    if (!sec) s = 0;
    std::string t = d + " " + b; bool good = h < 24 && m < 60 && s < 60;
    SHOW(t); g.nontrivial();
    if (good) { g.label("valid"); CHECK(DateTime::FromString(String_(t)) == DateTime_(civil::date(day), h, m, s), t); }
    else MUST_THROW(DateTime::FromString(String_(t)), t);
    CHECK(DateTime::IsDateTimeString(String_(t)), t);
    CHECK(!DateTime::IsDateTimeString(String_(d)), d);
    for (const char* tail : {" ", " 12", " :30", " 12:", " :", ":12", "T12:30"}) CHECK(!DateTime::IsDateTimeString(String_(d) + tail), d << tail << " counts as a date and a time");
    CHECK(DateTime::FromString(String_(d)) == DateTime_(civil::date(day)), d);
    MUST_THROW(DateTime::FromString(String_(d + " " + std::to_string(h))), "hour only");
    MUST_THROW(DateTime::FromString(String_(t + (sec ? ":" : ":1:") + std::to_string(s))), "too many parts");
    if (!good && 3600 * h + 60 * m + s >= 86400) MUST_THROW(DateTime_(civil::date(day), h, m, s), "constructor");
    { int nh = g.n(-3, 23), nm = g.n(-200, 200), ns = g.n(-90, 90), tot = 3600 * nh + 60 * nm + ns; if (tot < 0 || tot >= 86400) MUST_THROW(DateTime_(civil::date(day), nh, nm, ns), nh << "h " << nm << "m " << ns << "s"); }
    MUST_THROW(DateTime_(civil::date(day), 1.0 + g.u01()), "fraction above one");
}
