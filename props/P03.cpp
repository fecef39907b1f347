#include <engine.hpp>
#include "civil.hpp"
#include <dal/platform/initall.hpp>
#include <dal/time/holidays.hpp>
#include <dal/time/dateincrement.hpp>
#include <dal/utilities/exceptions.hpp>
#include <set>
using namespace Dal;
PROPERTY_DEF("P03", "Random holiday centres (weekday holidays, working weekends, long runs, empty ones) are registered, random unions of them and of the built-in Chinese calendars are queried "
  "at random dates and ranges; oracle: day-by-day set membership and counting. Non-trivial: the case uses a non-empty calendar and a range or step that crosses at least one holiday, weekend or working weekend.")
namespace pbt { std::vector<std::string> ASSUMPTIONS = {"holidays are weekdays, working weekends are Saturdays or Sundays, both strictly increasing, as AddCenter requires", "steps stay within Date::Minimum()..Maximum()"}; void globalInit() { RegisterAll_::Init(0); } }

struct Cal { std::set<int> hol, ww; };
static bool wkend(int n) { int w = civil::weekday(n); return w == 0 || w == 6; }
static bool bus(const Cal& c, int n) { return c.ww.count(n) || (!wkend(n) && !c.hol.count(n)); }
static Vector_<Date_> dates(const std::set<int>& s) { Vector_<Date_> r; for (int n : s) r.push_back(civil::date(n)); return r; }

static int counter = 0;
static Cal genCal(pbt::G& g, int lo, int span) {
    Cal c;
    int k = g.n(0, 60);
    for (int j = 0; j < k; ++j) {
        int n = lo + g.n(0, span);
        int run = g.chance(30) ? g.n(1, 15) : 1;
        for (int q = 0; q < run; ++q) { int d = n + q; if (!wkend(d)) c.hol.insert(d); }
    }
    int m = g.chance(50) ? g.n(0, 20) : 0;
    for (int j = 0; j < m; ++j) { int n = lo + g.n(0, span); while (!wkend(n)) ++n; c.ww.insert(n); }
    return c;
}
static Cal fromCenter(const String_& name) {
    auto h = Holidays::OfCenter(name); Cal c;
    for (auto& d : h->holidays_) c.hol.insert(civil::of(d));
    for (auto& d : h->workWeekends_) c.ww.insert(civil::of(d));
    return c;
}
struct Setup { std::vector<std::string> names; Cal all; int lo, span; };
static Setup setup(pbt::G& g) {
    Setup s; s.span = g.of({30, 100, 400, 3000}); s.lo = g.n(100, civil::MAXDAY - 4000);
    if (g.chance(25)) s.lo = g.n(civil::days(2005, 1, 1), civil::days(2020, 1, 1));
    int k = g.n(0, 3);
    for (int j = 0; j < k; ++j) {
        std::string nm; Cal c;
        if (g.chance(25)) { nm = g.b() ? "CN.SSE" : "CN.IB"; c = fromCenter(String_(nm)); }
        else { nm = std::string(1, (char)('A' + g.n(0, 25))) + "C" + std::to_string(++counter); c = genCal(g, s.lo, s.span); Holidays::AddCenter(String_(nm), dates(c.hol), dates(c.ww)); }
        s.names.push_back(nm); s.all.hol.insert(c.hol.begin(), c.hol.end()); s.all.ww.insert(c.ww.begin(), c.ww.end());
    }
    return s;
}
static std::string join(const std::vector<std::string>& v) { std::string r; for (auto& x : v) r += (r.empty() ? "" : " ") + x; return r; }

SUB("business-days", 12000, 60000) {
    Setup s = setup(g);
    Holidays_ h(String_(join(s.names)));
    SHOW("centers '" << join(s.names) << "' holidays " << s.all.hol.size() << " working weekends " << s.all.ww.size());
    if (s.all.hol.size() + s.all.ww.size()) g.nontrivial();
    if (s.names.size() > 1) g.label("union"); if (!s.all.ww.empty()) g.label("working-weekends");
    bool counted = g.b();                       // some unions are replaced by a merged calendar once counted
    auto query = [&](const Holidays_& hh) {
        for (int q = 0; q < 12; ++q) {
            int n = s.lo + g.n(0, s.span);
            if (q % 3 == 0 && !s.all.hol.empty()) { auto it = s.all.hol.lower_bound(n); n = it == s.all.hol.end() ? *s.all.hol.rbegin() : *it; n += g.n(-1, 1); }
            if (q % 3 == 1 && !s.all.ww.empty()) { auto it = s.all.ww.lower_bound(n); n = it == s.all.ww.end() ? *s.all.ww.rbegin() : *it; n += g.n(-1, 1); }
            Date_ d = civil::date(n);
            CHECK(hh.IsHoliday(d) == (s.all.hol.count(n) > 0), civil::iso(civil::fromDays(n)));
            CHECK(hh.IsWorkWeekends(d) == (s.all.ww.count(n) > 0), civil::iso(civil::fromDays(n)));
            int nx = n; while (!bus(s.all, nx)) ++nx;
            int pv = n; while (!bus(s.all, pv)) --pv;
            CHECK(Holidays::NextBus(hh, d) == civil::date(nx), "NextBus from " << civil::iso(civil::fromDays(n)) << " got " << Date::ToString(Holidays::NextBus(hh, d)).c_str() << " expected " << civil::iso(civil::fromDays(nx)));
            CHECK(Holidays::PrevBus(hh, d) == civil::date(pv), "PrevBus from " << civil::iso(civil::fromDays(n)) << " got " << Date::ToString(Holidays::PrevBus(hh, d)).c_str() << " expected " << civil::iso(civil::fromDays(pv)));
        }
    };
    query(h);
    if (counted) { CountBusDays_ c(h); query(Holidays_(String_(join(s.names)))); }
    std::vector<std::string> perm = s.names; g.shuffle(perm); if (!perm.empty() && g.b()) perm.push_back(perm[0]);
    CHECK(Holidays_(String_(join(perm))) == Holidays_(String_(join(s.names))), "order/repetition of centers " << join(perm));
    CHECK(s.names.empty() == (Holidays_(String_(join(s.names))) == Holidays::None()), "None");
}
SUB("count-business-days", 12000, 60000) {
    Setup s = setup(g);
    Holidays_ h(String_(join(s.names)));
    CountBusDays_ count(h);
    SHOW("centers '" << join(s.names) << "' holidays " << s.all.hol.size() << " working weekends " << s.all.ww.size());
    for (int q = 0; q < 10; ++q) {
        int a = s.lo + g.n(-20, s.span), b = g.chance(40) ? a + g.n(-3, 20) : s.lo + g.n(-20, s.span + 20);
        int e = 0; for (int n = a; n < b; ++n) e += bus(s.all, n);
        int got = count(civil::date(a), civil::date(b));
        if (b > a + 7 && !s.all.hol.empty()) g.nontrivial();
        CHECK(got == e, "business days in [" << civil::iso(civil::fromDays(a)) << ", " << civil::iso(civil::fromDays(b)) << ") got " << got << " expected " << e);
        int m = a + g.n(0, 60), c = m + g.n(0, 60);
        CHECK(count(civil::date(a), civil::date(m)) + count(civil::date(m), civil::date(c)) == count(civil::date(a), civil::date(c)), "additivity");
    }
}
SUB("n-business-days", 12000, 60000) {
    Setup s = setup(g);
    Holidays_ h(String_(join(s.names)));
    int n = g.chance(30) ? g.n(0, 2) : g.n(1, 40), from = s.lo + g.n(0, s.span);
    SHOW("centers '" << join(s.names) << "' " << n << " business days from " << civil::iso(civil::fromDays(from)));
    g.nontrivial(n > 0);
    int f = from, b = from;
    for (int k = 0; k < n; ++k) { do ++f; while (!bus(s.all, f)); do --b; while (!bus(s.all, b)); }
    if (n == 0 && !s.names.empty()) { while (!bus(s.all, f)) ++f; while (!bus(s.all, b)) --b; }
    auto inc = Date::NBusDays(n, h);
    CHECK(civil::date(from) + *inc == civil::date(f), "forward got " << Date::ToString(civil::date(from) + *inc).c_str() << " expected " << civil::iso(civil::fromDays(f)));
    CHECK(civil::date(from) - *inc == civil::date(b), "backward got " << Date::ToString(civil::date(from) - *inc).c_str() << " expected " << civil::iso(civil::fromDays(b)));
    auto par = Date::ParseIncrement(String_(std::to_string(n) + g.of<std::string>({"BD", "bd", "BUSDAY", "BusinessDay"}) + (s.names.empty() ? "" : ";" + join(s.names))));
    CHECK(civil::date(from) + *par == civil::date(f) && civil::date(from) - *par == civil::date(b), "parsed increment");
}
SUB("calendar-registration", 4000, 20000) {
    Setup s = setup(g);
    std::string nm = "REG" + std::to_string(++counter);
    Cal c = genCal(g, s.lo, s.span);
    Vector_<Date_> hol = dates(c.hol), ww = dates(c.ww);
    int fault = g.n(0, 4);
    SHOW(nm << " fault kind " << fault);
    bool bad = false;
    if (fault == 1) { int n = s.lo; while (!wkend(n)) ++n; hol.push_back(civil::date(n + 7 * 600)); bad = true; }
    if (fault == 2) { int n = s.lo; while (wkend(n)) ++n; ww.push_back(civil::date(n + 7 * 600)); bad = true; }
    if (fault == 3 && hol.size() > 1) { std::swap(hol[0], hol.back()); bad = true; }
    if (fault == 4) { nm = "CN.SSE"; bad = true; }
    g.nontrivial();
    if (bad) {
        auto before = fromCenter("CN.SSE");
        MUST_THROW(Holidays::AddCenter(String_(nm), hol, ww), "fault kind " << fault);
        CHECK(fromCenter("CN.SSE").hol == before.hol, "a refused registration must not change the data");
        if (fault != 4) MUST_THROW(Holidays_{String_(nm)}, "a refused centre must not exist");
    } else {
        Holidays::AddCenter(String_(nm), hol, ww);
        Cal r = fromCenter(String_(nm));
        CHECK(r.hol == c.hol && r.ww == c.ww, "stored calendar differs");
    }
    MUST_THROW(Holidays_(String_("NOSUCH" + std::to_string(counter))), "unknown centre");
}
SUB("built-in-calendars", 64, 256) {
    // every date covered by the built-in calendars
    std::string nm = g.of<std::string>({"CN.SSE", "CN.IB", "CN.SSE CN.IB"}); int part = g.n(0, 15);
    Cal c; if (nm != "CN.IB") { auto x = fromCenter("CN.SSE"); c.hol.insert(x.hol.begin(), x.hol.end()); c.ww.insert(x.ww.begin(), x.ww.end()); }
    if (nm != "CN.SSE") { auto x = fromCenter("CN.IB"); c.hol.insert(x.hol.begin(), x.hol.end()); c.ww.insert(x.ww.begin(), x.ww.end()); }
    Holidays_ h((String_(nm))); CountBusDays_ cnt(h); int base = civil::days(2004, 12, 20);
    int run = 0, last = base;
    for (int n = base; n < civil::days(2026, 1, 10); ++n) {
        if (n % 16 == part) {
            CHECK(h.IsHoliday(civil::date(n)) == (c.hol.count(n) > 0) && h.IsWorkWeekends(civil::date(n)) == (c.ww.count(n) > 0), civil::iso(civil::fromDays(n)));
            CHECK(cnt(civil::date(base), civil::date(n)) == run, "count to " << civil::iso(civil::fromDays(n)));
        }
        if (bus(c, n)) { ++run; last = n; }
        if (n % 16 == part && run) CHECK(Holidays::PrevBus(h, civil::date(n)) == civil::date(last), civil::iso(civil::fromDays(n)));
    }
    SHOW(nm << " part " << part); g.nontrivial();
}
