#include <engine.hpp>
#include "civil.hpp"
#include <dal/math/operators.hpp>
#include <dal/math/vectors.hpp>
#include <dal/platform/initall.hpp>
#include <dal/currency/currencydata.hpp>
#include <dal/protocol/conventions.hpp>
#include <dal/protocol/couponrate.hpp>
#include <dal/protocol/clearer.hpp>
#include <dal/protocol/optiontype.hpp>
#include <dal/protocol/underlying.hpp>
#include <dal/protocol/accrualperiod.hpp>
#include <dal/protocol/payment.hpp>
#include <dal/time/holidays.hpp>
#include <dal/time/holidaydata.hpp>
#include <dal/time/periodlength.hpp>
#include <dal/time/daybasis.hpp>
#include <map>
#include <set>
using namespace Dal;
PROPERTY_DEF("P29", "Random histories of currency conventions (defaults and per-currency overrides of fixing days, calendars and day bases over generated holiday centres) against a map model; libor start and fixing dates against day-by-day counting; merged underlyings against a map of latest dates; option payouts, accrual periods and traded rates against their definitions. Non-trivial: an override is replaced or read through a default, a holiday is crossed, or two underlyings share an entry.")
namespace pbt { std::vector<std::string> ASSUMPTIONS = {"conventions are written before they are read by other threads", "dates stay within the calendar's range"}; void globalInit() { RegisterAll_::Init(0); } }
static std::string S(const String_& s) { return std::string(s.begin(), s.end()); }
static const std::vector<std::string> CCY = {"USD", "EUR", "GBP", "JPY", "AUD", "CHF", "CAD", "CNY"};
static Ccy_ ccy(const std::string& s) { return Ccy_(String_(s)); }
struct Cal { std::set<int> hol, ww; };
static bool wkend(int n) { int w = civil::weekday(n); return w == 0 || w == 6; }
static bool bus(const Cal& c, int n) { return c.ww.count(n) || (!wkend(n) && !c.hol.count(n)); }
static std::string centre(pbt::G& g, Cal& c, int lo, int span) { static int k = 0; for (int i = g.n(0, 25); i > 0; --i) { int n = lo + g.n(0, span), run = g.chance(30) ? g.n(1, 12) : 1; for (int q = 0; q < run; ++q) if (!wkend(n + q)) c.hol.insert(n + q); } if (g.b()) for (int i = g.n(0, 6); i > 0; --i) { int n = lo + g.n(0, span); while (!wkend(n)) ++n; c.ww.insert(n); } Vector_<Date_> h, w; for (int n : c.hol) h.push_back(civil::date(n)); for (int n : c.ww) w.push_back(civil::date(n)); std::string nm = "V29" + std::to_string(++k); Holidays::AddCenter(String_(nm), h, w); return nm; }
SUB("conventions", 3000, 15000) {   // what was written last for a currency, else the default; then the libor dates that follow from it
    int lo = g.n(1000, 60000), span = 120; std::map<std::string, int> days; int defDays = 2; days["CNY"] = 1; auto& fd = Ccy::Conventions::LiborFixDays(); fd.XWrite().SetDefault(2); for (auto& c : CCY) { int k = g.n(0, 4); fd.XWrite()(ccy(c), k); days[c] = k; } auto& fh = Ccy::Conventions::LiborFixHolidays(); Cal dc; std::string dn = centre(g, dc, lo, span); fh.XWrite().SetDefault(Holidays_(String_(dn))); std::map<std::string, Cal> cal; for (auto& c : CCY) if (g.chance(40) || c == "CNY") { Cal x; std::string n = centre(g, x, lo, span); if (g.chance(30)) { Cal y; std::string m = centre(g, y, lo, span); n += " " + m; x.hol.insert(y.hol.begin(), y.hol.end()); x.ww.insert(y.ww.begin(), y.ww.end()); } fh.XWrite()(ccy(c), Holidays_(String_(n))); cal[c] = x; } else { fh.XWrite()(ccy(c), Holidays_(String_(dn))); cal[c] = dc; } (void)defDays;
    for (int q = g.n(1, 6); q > 0; --q) { std::string c = g.pick(CCY); if (g.chance(20)) { int k = g.n(0, 5); SHOW(c << " fixes " << k << " days before"); fd.XWrite()(ccy(c), k); days[c] = k; } if (g.chance(15)) { fd.XWrite().SetDefault(g.n(0, 5)); SHOW("other default"); } CHECK(fd(ccy(c)) == days[c], c << " fixes " << fd(ccy(c)) << " days before, expected " << days[c]); int d = lo + 30 + g.n(0, 60); const Cal& k = cal[c]; int e = d, n = days[c]; if (n == 0) while (!bus(k, e)) ++e; for (int i = 0; i < n; ++i) { ++e; while (!bus(k, e)) ++e; } if (e != d + n) g.nontrivial(); SHOW(c << " " << civil::iso(civil::fromDays(d)) << " " << n << " days"); Date_ s = Libor::StartFromFix(ccy(c), civil::date(d)); CHECK(s == civil::date(e), c << " fixed on " << civil::iso(civil::fromDays(d)) << " starts on " << S(Date::ToString(s)) << ", expected " << civil::iso(civil::fromDays(e)));
        e = d; if (n == 0) while (!bus(k, e)) --e; for (int i = 0; i < n; ++i) { --e; while (!bus(k, e)) --e; } DateTime_ f = Libor::FixFromStart(ccy(c), civil::date(d)); CHECK(f.Date() == civil::date(e) && DateTime::Hour(f) == 10 && DateTime::Minute(f) == 0, c << " starting on " << civil::iso(civil::fromDays(d)) << " fixes at " << S(DateTime::ToString(f)) << ", expected " << civil::iso(civil::fromDays(e)) << " 10:00"); if (bus(k, d)) { Date_ b = Libor::StartFromFix(ccy(c), f.Date()); CHECK(b == civil::date(d), "fixing date of a business-day start does not lead back to it but to " << S(Date::ToString(b))); } }
}
template <class T> static void facts(pbt::G& g, const Ccy::Fact_<T>& f, const std::vector<T>& vals, bool& haveDef, T& def, std::map<std::string, T>& own, const char* what) {
    for (int q = g.n(1, 12); q > 0; --q) { std::string c = g.pick(CCY); switch (g.n(0, 3)) { case 0: def = g.pick(vals); haveDef = true; f.XWrite().SetDefault(def); SHOW(what << " default"); break; case 1: { T v = g.pick(vals); if (own.count(c)) g.nontrivial(); own.erase(c); own.insert({c, v}); f.XWrite()(ccy(c), v); SHOW(what << " " << c); break; } default: { if (own.count(c)) CHECK(f(ccy(c)) == own.at(c), what << " of " << c << " is not what was written"); else if (haveDef) { g.nontrivial(); CHECK(f(ccy(c)) == def, what << " of " << c << " is not the default"); } else MUST_THROW(f(ccy(c)), "no " << what << " for " << c); } } }
}
SUB("facts", 4000, 80000) {   // process-wide: the model lives as long as the process
    static bool d1 = false, d2 = false; static DayBasis_ b1, b2; static std::map<std::string, DayBasis_> o1, o2; static std::vector<DayBasis_> all; if (all.empty()) for (auto& x : DayBasisListAll()) all.push_back(x); facts<DayBasis_>(g, Ccy::Conventions::LiborDayBasis(), all, d1, b1, o1, "libor basis"); facts<DayBasis_>(g, Ccy::Conventions::SwapFixedDayBasis(), all, d2, b2, o2, "swap basis"); for (auto& x : o1) CHECK(Ccy::Conventions::LiborDayBasis()(ccy(x.first)) == x.second, "libor basis of " << x.first << " changed"); for (auto& x : o2) CHECK(Ccy::Conventions::SwapFixedDayBasis()(ccy(x.first)) == x.second, "swap basis of " << x.first << " changed");
}
struct Named_ : Index_ { String_ n_; explicit Named_(const std::string& n) : n_(n) {} String_ Name() const override { return n_; } };
struct Ref { std::map<std::string, int> c, r; std::map<std::string, int> ix; };
SUB("underlyings", 15000, 300000) {
    static const std::vector<std::string> nm = {"EQ[A]", "EQ[B]", "IR:USD,5Y", "FX[USD/JPY]"}, cr = {"ACME", "Corp", "acme", "Zed"}; int n = g.n(1, 4); std::vector<Underlying_> u(n); std::vector<Ref> m(n); auto low = [](std::string s) { for (char& c : s) c = (char)toupper((unsigned char)c); return s; }; int shared = 0; auto up = [&](std::map<std::string, int>& t, const std::string& k, int d) { auto f = t.find(k); if (f == t.end()) t[k] = d; else { ++shared; f->second = std::max(f->second, d); } };
    for (int q = g.n(1, 20); q > 0; --q) { size_t i = g.draw(n); int d = g.n(1, 65000); switch (g.n(0, 4)) { case 0: { auto c = g.pick(CCY); u[i].Include(ccy(c), civil::date(d)); up(m[i].c, c, d); break; } case 1: { auto c = g.pick(nm); u[i].Include(IndexKey_(Handle_<Index_>(new Named_(c))), DateTime_(civil::date(d), 9)); up(m[i].ix, c, d); break; } case 2: { auto c = g.pick(cr); u[i].Include(String_(c), civil::date(d)); up(m[i].r, low(c), d); break; } default: { size_t j = g.draw(n); if (i == j && g.chance(70)) j = (j + 1) % n; SHOW(i << "+=" << j); Underlying_ before = u[j]; u[i] += u[j]; Ref o = m[j]; for (auto& x : o.c) up(m[i].c, x.first, x.second); for (auto& x : o.r) up(m[i].r, x.first, x.second); for (auto& x : o.ix) up(m[i].ix, x.first, x.second); if (i != j) CHECK(u[j].payCcys_ == before.payCcys_, "the added underlying changed"); } } SHOW(d);
        for (int k = 0; k < n; ++k) { CHECK(u[k].payCcys_.size() == m[k].c.size() && u[k].credits_.size() == m[k].r.size() && u[k].indices_.size() == m[k].ix.size(), "underlying " << k << " has " << u[k].payCcys_.size() << "+" << u[k].credits_.size() << "+" << u[k].indices_.size() << " entries"); for (auto& x : u[k].payCcys_) CHECK(x.second == civil::date(m[k].c.at(x.first.String())), "last payment in " << S(x.first.String()) << " is " << S(Date::ToString(x.second))); for (auto& x : u[k].credits_) CHECK(x.second == civil::date(m[k].r.at(low(S(x.first)))), "last date of credit " << S(x.first)); for (auto& x : u[k].indices_) CHECK(x.second == DateTime_(civil::date(m[k].ix.at(S(x.first.name_))), 9), "last fixing of " << S(x.first.name_)); } } g.nontrivial(shared > 0);
}
SUB("payouts", 30000, 600000) {
    double s = g.chance(10) ? 0 : g.logUni(1e-3, 1e5), k = g.chance(20) ? s : s * g.uni(0.3, 2); SHOW(s << " vs " << k); g.nontrivial(s != k); OptionType_ c(String_(g.b() ? "CALL" : "c")), p(String_(g.b() ? "PUT" : "p")), v(String_(g.b() ? "STRADDLE" : "C+P")); double a = c.Payout(s, k), b = p.Payout(s, k), d = v.Payout(s, k); CHECK(a == (s > k ? s - k : 0), "call pays " << a); CHECK(b == (k > s ? k - s : 0), "put pays " << b); CHECK(d == std::fabs(s - k), "straddle pays " << d); CHECK(a - b == s - k && a + b == d, "parity");
}
SUB("accruals", 15000, 300000) {
    int a = g.n(0, 64000), b = a + g.n(0, 1500); double n = g.uni(-1e6, 1e6); auto all = DayBasisListAll(); DayBasis_ basis = all[(int)g.draw(all.size())]; SHOW(civil::iso(civil::fromDays(a)) << " " << b - a << " " << S(basis.String())); g.nontrivial(b > a); bool stub = g.b(), with = g.b(); Handle_<DayBasis::Context_> cx; if (with) { cx.reset(new DayBasis::Context_(g.b(), civil::date(a), civil::date(b), g.pick(std::vector<int>{1, 3, 6, 12}))); } double w; std::string err; try { w = basis(civil::date(a), civil::date(b), cx.get()); } catch (const std::exception&) { w = 0; err = "refused"; } std::unique_ptr<AccrualPeriod_> p; try { p.reset(with ? new AccrualPeriod_(civil::date(a), civil::date(b), n, basis, cx, stub) : new AccrualPeriod_(civil::date(a), civil::date(b), n, basis)); } catch (const std::exception&) { CHECK(!err.empty(), "an accrual period is refused although its basis accepts the dates"); return; } CHECK(err.empty(), "an accrual period with no day-count fraction"); CHECK(p->startDate_ == civil::date(a) && p->endDate_ == civil::date(b) && p->notional_ == n && p->couponBasis_ == basis && p->dcf_ == w && p->isStub_ == (with && stub) && p->context_.get() == cx.get(), "the period does not hold what it was given; fraction " << p->dcf_ << ", expected " << w);
    Payment::Info_ i(String_("x"), DateTime_(civil::date(a), 9), Payment::Conditions_(), g.b() ? p.get() : nullptr); Payment_ pay(DateTime_(civil::date(a), 10), ccy(g.pick(CCY)), civil::date(b), String_("s"), i); { Date_ cd = civil::date(g.n(0, 65000)); Payment_ p2(pay.eventTime_, pay.ccy_, pay.date_, String_("strm"), i, cd); CHECK(p2.commitDate_ == cd && p2.date_ == civil::date(b) && S(p2.stream_) == "strm" && S(p2.tag_.description_) == "x" && p2.tag_.knownTime_ == i.knownTime_, "a payment does not hold its commitment date, stream or tag"); } Payment_ cp = pay; CHECK(cp.date_ == civil::date(b) && cp.eventTime_ == pay.eventTime_ && cp.ccy_ == pay.ccy_ && cp.commitDate_ == Date::Minimum() && cp.tag_.period_.has_value() == i.period_.has_value() && (!i.period_ || cp.tag_.period_->dcf_ == p->dcf_) && cp.tag_.conditions_.exerciseCondition_ == Payment::Conditions_::Exercise_::UNCONDITIONAL, "a payment does not hold what it was given");
}
SUB("traded-rates", 2000, 20000) {
    auto all = TradedRateListAll(); TradedRate_ r = all[(int)g.draw(all.size())]; std::string n = r.String(); SHOW(n); g.nontrivial(); int m = n.find("6M") != std::string::npos ? 6 : 3; bool cme = n.find("LCH") == std::string::npos; CHECK(r.Period().Months() == m, n << " has period " << r.Period().Months()); CHECK(r.Clearer() == Clearer_(String_(cme ? "CME" : "LCH")), n << " clears at " << S(r.Clearer().String())); if (n.find("FUT") == std::string::npos) CHECK(FindRate(r.Period(), r.Clearer()) == r, n << " is found as " << S(FindRate(r.Period(), r.Clearer()).String())); for (const char* p : {"ANNUAL", "MONTHLY"}) MUST_THROW(FindRate(PeriodLength_(String_(p)), r.Clearer()), p);
}
