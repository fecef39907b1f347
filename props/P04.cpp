#include <engine.hpp>
#include "civil.hpp"
#include <dal/platform/initall.hpp>
#include <dal/time/holidays.hpp>
#include <dal/time/dateincrement.hpp>
#include <dal/time/schedules.hpp>
#include <dal/time/periodlength.hpp>
#include <dal/math/cell.hpp>
#include <dal/utilities/exceptions.hpp>
#include <dal/currency/currency.hpp>
#include <set>
using namespace Dal;
PROPERTY_DEF("P04", "Random increment strings (all step sizes and their aliases, IMM/IMM1/CDS/EOM families, '&' compounds, holiday suffixes) applied forward and backward to random dates, and schedules "
  "from random start/maturity/tenor/rule; oracle: civil-calendar reference with searches for the next special day. Non-trivial: the increment moves the date, or the schedule has at least three dates.")
namespace pbt { std::vector<std::string> ASSUMPTIONS = {"results stay within Date::Minimum()..Maximum()"}; void globalInit() { RegisterAll_::Init(0); } }
using civil::Ymd;

static bool wkend(int n) { int w = civil::weekday(n); return w == 0 || w == 6; }
static std::set<int> HOL, WW;                 // CN.IB
static void load() { if (!HOL.empty()) return; auto h = Holidays::OfCenter(String_("CN.IB")); for (auto& d : h->holidays_) HOL.insert(civil::of(d)); for (auto& d : h->workWeekends_) WW.insert(civil::of(d)); }
static bool bus(int n, bool cn) { return cn ? WW.count(n) || (!wkend(n) && !HOL.count(n)) : !wkend(n); }

struct Inc { std::string txt; std::function<int(int, bool)> step; };
static int third(int y, int m) { int n = civil::days(y, m, 1), w = 0; for (;; ++n) if (civil::weekday(n) == 3 && ++w == 3) return n; }  // third Wednesday
static Inc genInc(pbt::G& g, bool special = true) {
    Inc r; int kind = g.n(0, special ? 8 : 4);
    if (kind <= 4) {
        bool cn = g.chance(25); load();
        int n = kind == 0 ? g.n(0, 12) : g.n(0, 40);
        static const std::vector<std::vector<std::string>> nm = {{"Y", "YEAR", "YEARS", "y"}, {"M", "MONTH", "MONTHS", "m"}, {"W", "WEEK", "WEEKS", "w"}, {"BD", "BUSDAY", "BUSINESSDAY", "bd"}, {"CD", "CALDAY", "CALENDARDAY", "cd"}};
        r.txt = std::to_string(n) + g.pick(nm[kind]) + (cn ? ";CN.IB" : "");
        r.step = [=](int d, bool f) {
            int s = f ? 1 : -1, o = d;
            if (kind == 0) o = civil::num(civil::addMonths(civil::fromDays(d), 12 * n * s, false));
            else if (kind == 1) o = civil::num(civil::addMonths(civil::fromDays(d), n * s, false));
            else if (kind == 2) o = d + 7 * n * s;
            else if (kind == 4) o = d + n * s;
            else for (int k = 0; k < n; ++k) do o += s; while (!bus(o, cn));
            if (cn) while (!bus(o, true)) o += s;
            return o;
        };
    } else {
        static const std::vector<std::vector<std::string>> nm = {{"IMM", "IMM3", "IMMQUARTERLY", "imm"}, {"IMM1", "IMMMONTHLY", "imm1"}, {"CDS", "CDS3", "CDSQUARTERLY", "cds"}, {"EOM", "eom"}};
        int k = kind - 5; r.txt = g.pick(nm[k]);
        r.step = [=](int d, bool f) {
            if (k == 3) { Ymd a = civil::fromDays(d); return f ? civil::days(a.y, a.m, civil::dim(a.y, a.m)) : civil::days(a.y, a.m, 1) - 1; }
            for (int o = f ? d + 1 : d - 1;; o += f ? 1 : -1) {
                Ymd a = civil::fromDays(o);
                if (k == 2 ? a.d == 20 && a.m % 3 == 0 : o == third(a.y, a.m) && (k == 1 || a.m % 3 == 0)) return o;
            }
        };
    }
    return r;
}
static int genDay(pbt::G& g, int lo, int hi) {
    int n = g.n(lo, hi); Ymd a = civil::fromDays(n);
    switch (g.n(0, 5)) {
    case 0: return std::min(hi, civil::days(a.y, a.m, civil::dim(a.y, a.m)));
    case 1: return std::min(hi, std::max(lo, third(a.y, a.m) + g.n(-1, 1)));
    case 2: return std::min(hi, std::max(lo, civil::days(a.y, a.m, 20) + g.n(-1, 1)));
    case 3: return std::min(hi, std::max(lo, civil::days(civil::leap(a.y) ? a.y : a.y - a.y % 4 + 4 > 2099 ? 2096 : a.y - a.y % 4 + 4, 2, 29)));
    default: return n;
    }
}
static const int LO = civil::days(1990, 1, 1), HI = civil::days(2110, 1, 1);
SUB("single-increments", 300000, 3000000) {
    int d = genDay(g, LO, HI); Inc i = genInc(g);
    SHOW(civil::iso(civil::fromDays(d)) << " +/- " << i.txt);
    auto inc = Date::ParseIncrement(String_(i.txt));
    int f = i.step(d, true), b = i.step(d, false);
    g.nontrivial(f != d || b != d);
    g.label(i.txt.find_first_not_of("0123456789") == 0 ? "special-day" : "multistep");
    Date_ from = civil::date(d);
    CHECK(from + *inc == civil::date(f), civil::iso(civil::fromDays(d)) << " + " << i.txt << " = " << Date::ToString(from + *inc).c_str() << " expected " << civil::iso(civil::fromDays(f)));
    CHECK(from - *inc == civil::date(b), civil::iso(civil::fromDays(d)) << " - " << i.txt << " = " << Date::ToString(from - *inc).c_str() << " expected " << civil::iso(civil::fromDays(b)));
    CHECK(inc->FwdFrom(from) == from + *inc && inc->BackFrom(from) == from - *inc, "operators");
    CHECK((from + *Date::ToIMM(true)) == (from + *Date::ParseIncrement("IMM1")) && (from - *Date::ToIMM(false)) == (from - *Date::ParseIncrement("IMM")), "ToIMM");
}
SUB("compound-increments", 150000, 1500000) {
    int d = genDay(g, civil::days(2022, 1, 1), civil::days(2088, 1, 1)); std::vector<Inc> is; int k = g.n(2, 4); std::string t;
    for (int j = 0; j < k; ++j) { is.push_back(genInc(g)); t += (j ? "&" : "") + is.back().txt; }
    SHOW(civil::iso(civil::fromDays(d)) << " +/- " << t);
    int f = d, b = d; for (auto& i : is) f = i.step(f, true), b = i.step(b, false);
    g.nontrivial(f != d);
    auto inc = Date::ParseIncrement(String_(t));
    CHECK(inc->FwdFrom(civil::date(d)) == civil::date(f), t << " got " << Date::ToString(inc->FwdFrom(civil::date(d))).c_str() << " expected " << civil::iso(civil::fromDays(f)));
    CHECK(inc->BackFrom(civil::date(d)) == civil::date(b), t << " got " << Date::ToString(inc->BackFrom(civil::date(d))).c_str() << " expected " << civil::iso(civil::fromDays(b)));
}
SUB("bad-increments", 20000, 200000) {
    std::string t = g.of<std::string>({"", "5", "3D", "DAY", "IM", "3MM", "M3", "-3M", "+3M", " ", "3M&", "&", "3X;CN.IB", "3M;NOWHERE", "IMM3M", "3.5M", "3 M2", "99999999999M"});
    if (g.b()) { std::string j; int n = g.n(1, 4); for (int k = 0; k < n; ++k) j += (char)g.n('A', 'Z'); t = std::to_string(g.n(0, 99)) + "Q" + j; }
    SHOW("'" << t << "'"); g.nontrivial();
    if (t == "3M&" || t == "&") return;      // a trailing separator is accepted as a compound
    MUST_THROW(Date::ParseIncrement(String_(t)), t);
    CHECK(IsLiborTenor("3M") && IsSwapTenor("3Y") && !IsLiborTenor("3y") && !IsSwapTenor("2W"), "tenor kinds");
}
static Vector_<Date_> toDates(const std::vector<int>& v) { Vector_<Date_> r; for (int n : v) r.push_back(civil::date(n)); return r; }
SUB("schedules", 60000, 600000) {
    Inc t = genInc(g, true);
    int a = genDay(g, LO, civil::days(2090, 1, 1)), len = g.of({0, 10, 200, 2000}), z = a + g.n(0, len);
    if (g.chance(20)) z = t.step(t.step(a, true), true);         // maturity on the grid
    bool fwd = g.b();
    std::vector<int> e; bool stuck = false;
    if (fwd) {
        for (int d = a; d <= z;) { e.push_back(d); int n = t.step(d, true); if (n <= d) { stuck = true; break; } d = n; }
        if (!stuck && e.back() != z) e.push_back(z);
    } else {
        for (int d = z; d >= a;) { e.push_back(d); int n = t.step(d, false); if (n >= d) { stuck = true; break; } d = n; }
        if (!stuck && e.back() != a) e.push_back(a);
        std::reverse(e.begin(), e.end());
    }
    SHOW((fwd ? "Forward " : "Backward ") << civil::iso(civil::fromDays(a)) << " to " << civil::iso(civil::fromDays(z)) << " by " << t.txt);
    auto inc = Date::ParseIncrement(String_(t.txt));
    DateGeneration_ m(fwd ? "Forward" : "Backward");
    if (stuck) { g.label("tenor-stuck"); MUST_THROW(DateGenerate(civil::date(a), civil::date(z), inc, m), "a tenor that does not move must be refused"); return; }
    g.nontrivial(e.size() >= 3);
    if (e.size() > 1 && t.step(e[e.size() - 2], true) != e.back()) g.label("stub");
    auto got = DateGenerate(civil::date(a), civil::date(z), inc, m);
    auto show = [](const Vector_<Date_>& v) { std::string s; for (auto& d : v) s += std::string(Date::ToString(d).c_str()) + " "; return s; };
    CHECK(got == toDates(e), "got " << show(got) << " expected " << show(toDates(e)));
    // adjusted schedules
    bool cn = g.b(), following = g.b(); load();
    Holidays_ hols(cn ? String_("CN.IB") : String_(""));
    std::set<int> adj; for (int n : e) { int o = n; if (following) while (!bus(o, cn)) ++o; adj.insert(o); }
    auto sch = MakeSchedule(civil::date(a), Cell_(civil::date(z)), hols, inc, m, BizDayConvention_(following ? "Following" : "Unadjusted"));
    auto exp = toDates(std::vector<int>(adj.begin(), adj.end()));
    CHECK(sch == exp, (following ? "Following" : "Unadjusted") << " got " << show(sch) << " expected " << show(exp));
    MUST_THROW(MakeSchedule(civil::date(a), Cell_(1.0), hols, inc, m), "maturity must be a date");
}
SUB("period-lengths", 100000, 1000000) {
    int d = genDay(g, LO, HI), k = g.n(0, 3); static const int M[] = {12, 6, 3, 1};
    static const std::vector<std::vector<std::string>> nm = {{"ANNUAL", "12M"}, {"SEMIANNUAL", "SEMI", "6M"}, {"QUARTERLY", "3M"}, {"MONTHLY", "1M"}};
    PeriodLength_ p(String_(g.pick(nm[k])));
    SHOW(civil::iso(civil::fromDays(d)) << " " << p.String()); g.nontrivial();
    CHECK(p.Months() == M[k], p.String());
    CHECK(Date::NominalMaturity(civil::date(d), p, Ccy_("USD")) == civil::date(civil::addMonths(civil::fromDays(d), M[k], false)), civil::iso(civil::fromDays(d)) << " " << p.String());
}
