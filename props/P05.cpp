#include <engine.hpp>
#include "civil.hpp"
#include <dal/time/daybasis.hpp>
#include <dal/utilities/exceptions.hpp>
#include <dal/protocol/accrualperiod.hpp>
using namespace Dal;
PROPERTY_DEF("P05", "Random (start, end) pairs biased to month ends, leap days and year boundaries, every day basis and alias, random ACT/365L contexts; oracle: day-by-day accumulation (ACT bases), "
  "the textbook 30/360 US rule, and the leap-day rule of ACT/365L. Non-trivial: start before end.")
namespace pbt { std::vector<std::string> ASSUMPTIONS = {"start <= end"}; void globalInit() {} }
using civil::Ymd;
static const int HI = 65520;   // Date::Maximum()
static int genDay(pbt::G& g, int lo, int hi) {
    int n = g.n(lo, hi); Ymd a = civil::fromDays(n); int r = n;
    switch (g.n(0, 4)) {
    case 0: r = civil::days(a.y, a.m, civil::dim(a.y, a.m)) - g.n(0, 1); break;
    case 1: r = civil::days(a.y, 2, civil::dim(a.y, 2)) + g.n(-1, 1); break;
    case 2: r = civil::days(a.y, 1, 1) - g.n(0, 1); break;
    default: break;
    }
    return std::min(hi, std::max(lo, r));
}
static double actact(int a, int b) {
    std::map<int, int> perYear; for (int n = a; n < b;) { Ymd y = civil::fromDays(n); int e = std::min(b, civil::days(y.y + 1, 1, 1)); perYear[y.y] += e - n; n = e; }
    double r = 0; for (auto& p : perYear) r += p.second / (civil::leap(p.first) ? 366.0 : 365.0); return r;
}
static double bond(Ymd a, Ymd b) {
    auto eofeb = [](const Ymd& x) { return x.m == 2 && x.d == civil::dim(x.y, 2); };
    int d1 = a.d, d2 = b.d;
    if (eofeb(a) && eofeb(b)) d2 = 30;
    if (eofeb(a)) d1 = 30;
    if (d2 == 31 && d1 >= 30) d2 = 30;
    if (d1 == 31) d1 = 30;
    return (360 * (b.y - a.y) + 30 * (b.m - a.m) + d2 - d1) / 360.0;
}
SUB("year-fractions", 1500000, 15000000) {
    int a = genDay(g, 0, HI), b = g.chance(70) ? genDay(g, a, std::min(HI, a + g.of({40, 400, 2000}))) : genDay(g, a, HI);
    int k = g.n(0, 4);
    static const std::vector<std::vector<std::string>> nm = {{"ACT_365F", "ACT/365F", "ACT365FIXED", "act_365f"}, {"ACT_365L", "ACT/365L", "ISMAYear"}, {"ACT_360", "ACT/360", "MONEY", "ACTUAL/360"},
        {"ACT_ACT", "ACT/ACT", "ACTUAL/ACTUAL"}, {"BOND", "30_360", "30/360", "30_360_US"}};
    std::string name = g.pick(nm[k]); DayBasis_ basis((String_(name)));
    Date_ s = civil::date(a), e = civil::date(b);
    SHOW(name << " " << civil::iso(civil::fromDays(a)) << " to " << civil::iso(civil::fromDays(b)));
    g.nontrivial(b > a); g.label(nm[k][0]);
    double exp = 0, got = 0;
    if (k == 0) exp = (b - a) / 365.0, got = basis(s, e, nullptr);
    else if (k == 2) exp = (b - a) / 360.0, got = basis(s, e, nullptr);
    else if (k == 3) exp = actact(a, b), got = basis(s, e, nullptr);
    else if (k == 4) exp = bond(civil::fromDays(a), civil::fromDays(b)), got = basis(s, e, nullptr);
    else {
        MUST_THROW(basis(s, e, nullptr), "ACT/365L needs a context");
        int end = g.chance(60) ? b : genDay(g, b, std::min(HI, b + 400)), months = g.of({12, 12, 6, 3, 1});
        DayBasis::Context_ ctx(g.b(), s, civil::date(end), months);
        double den;
        if (months == 12) { den = 365; for (int y = civil::fromDays(a).y; y <= civil::fromDays(end).y; ++y) if (civil::leap(y)) { int f = civil::days(y, 2, 29); if (f > a && f <= end) den = 366; } }
        else den = civil::leap(civil::fromDays(end).y) ? 366 : 365;
        SHOW("nominal end " << civil::iso(civil::fromDays(end)) << " coupon months " << months);
        exp = (b - a) / den; got = basis(s, e, &ctx);
        if (den == 366) g.label("365L-leap");
    }
    CHECK(pbt::close(got, exp, 1e-13, 1e-15), name << " " << civil::iso(civil::fromDays(a)) << " to " << civil::iso(civil::fromDays(b)) << " got " << got << " expected " << exp);
    if (k == 3 || k == 0 || k == 2) {     // additivity
        int m = g.n(a, b);
        CHECK(pbt::close(basis(s, civil::date(m), nullptr) + basis(civil::date(m), e, nullptr), got, 1e-12, 1e-14), name << " additivity");
    }
}
SUB("accrual-periods", 200000, 2000000) {
    int a = genDay(g, 0, HI - 500), b = genDay(g, a, a + 450); double n = g.real(-1e6, 1e6);
    std::string name = g.of<std::string>({"ACT_365F", "ACT_360", "ACT_ACT", "BOND"});
    SHOW(name << " " << civil::iso(civil::fromDays(a)) << " to " << civil::iso(civil::fromDays(b)) << " notional " << n); g.nontrivial(b > a);
    AccrualPeriod_ p(civil::date(a), civil::date(b), n, DayBasis_(String_(name)));
    CHECK(p.startDate_ == civil::date(a) && p.endDate_ == civil::date(b) && p.notional_ == n, "fields");
    double exp = name == "ACT_365F" ? (b - a) / 365.0 : name == "ACT_360" ? (b - a) / 360.0 : name == "ACT_ACT" ? actact(a, b) : bond(civil::fromDays(a), civil::fromDays(b));
    CHECK(pbt::close(p.dcf_, exp, 1e-13, 1e-15), "dcf " << p.dcf_ << " expected " << exp);
}
