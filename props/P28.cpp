#include <engine.hpp>
#include "civil.hpp"
#include <dal/math/vectors.hpp>
#include <dal/platform/initall.hpp>
#include <dal/indice/index.hpp>
#include <dal/indice/indexparse.hpp>
#include <dal/indice/indexpath.hpp>
#include <dal/indice/index/equity.hpp>
#include <dal/indice/index/fx.hpp>
#include <dal/indice/index/ir.hpp>
#include <dal/indice/parser/equity.hpp>
#include <dal/indice/parser/fx.hpp>
#include <dal/time/dateincrement.hpp>
#include <dal/time/dateutils.hpp>
#include <dal/time/holidays.hpp>
#include <dal/currency/currencydata.hpp>
#include <dal/protocol/couponrate.hpp>
#include <dal/protocol/clearer.hpp>
#include <map>
using namespace Dal;
PROPERTY_DEF("P28", "Random equity, FX and interest-rate indices: names are compared with the documented notation, parsed back and cloned; corrupted names must be refused; delivery, start and maturity dates are compared with the civil calendar; fixing look-ups through random stacks of environments, and monitored historical paths, with plain maps. Non-trivial: the index has a delivery or start, or the history has at least three fixings.")
namespace pbt { std::vector<std::string> ASSUMPTIONS = {"index names contain no brackets, '@', '>' or ':'", "monitoring intervals are multiples of an eighth of a day (others accumulate rounding, and fixing times are matched exactly)", "the extremum of a path, marked as unfinished in the code, is not judged"}; void globalInit() { RegisterAll_::Init(0); } }
template <class T> static T one(pbt::G& g, const Vector_<T>& v) { return v[(int)g.draw(v.size())]; }
static std::string S(const String_& s) { return std::string(s.begin(), s.end()); }
static const std::vector<std::string> CCY = {"USD", "EUR", "GBP", "JPY", "AUD", "CHF", "CAD", "CNY"};
static std::string word(pbt::G& g) { static const std::string ok = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcxyz0123456789._- &/+"; int n = g.n(1, 8); std::string s; for (int i = 0; i < n; ++i) s += ok[g.draw(ok.size())]; return s; }
static civil::Ymd day(pbt::G& g) { return civil::fromDays(g.n(365, 54000)); }
static Date_ D(const civil::Ymd& d) { return Date_(d.y, d.m, d.d); }
struct Tenor { std::string text; int months = 0, days = 0; };
static Tenor tenor(pbt::G& g) { Tenor t; int n = g.n(1, 30); switch (g.n(0, 3)) { case 0: t.months = 12 * n; t.text = std::to_string(n) + "Y"; break; case 1: t.months = n; t.text = std::to_string(n) + "M"; break; case 2: t.days = 7 * n; t.text = std::to_string(n) + "W"; break; default: t.days = n; t.text = std::to_string(n) + "CD"; } return t; }
static civil::Ymd plus(const civil::Ymd& d, const Tenor& t) { return civil::fromDays(civil::num(civil::addMonths(d, t.months, false)) + t.days); }
static DateTime_ at(pbt::G& g, const civil::Ymd& d) { return DateTime_(D(d), g.n(0, 23), g.n(0, 59), g.n(0, 59)); }
static std::unique_ptr<Index_> parsed(const std::string& n) { std::unique_ptr<Index_> r(Index::Parse(String_(n))); CHECK(r, "no index for " << n); return r; }
SUB("equities", 30000, 600000) {
    std::string nm = word(g), want = "EQ[" + nm + "]"; int kind = g.n(0, 2); civil::Ymd del = day(g), fix = day(g); Tenor t = tenor(g); if (kind == 1) want += "@" + civil::iso(del); if (kind == 2) want += ">" + t.text; SHOW(want); g.nontrivial(kind > 0); Date_ dd = D(del); String_ tt(t.text); Index::Equity_ e(String_(nm), kind == 1 ? &dd : nullptr, kind == 2 ? &tt : nullptr); CHECK(S(e.Name()) == want, "name is " << S(e.Name()) << ", expected " << want);
    auto p = g.b() ? parsed(want) : std::unique_ptr<Index_>(Index::EquityParser(String_(want))); CHECK(S(p->Name()) == want, want << " reads back as " << S(p->Name())); auto* q = dynamic_cast<Index::Equity_*>(p.get()); CHECK(q && S(q->eqName_) == nm, "read back as another equity"); auto c = Index::Clone(e); CHECK(c && S(c->Name()) == want, "clone is " << (c ? S(c->Name()) : "none")); DateTime_ f = at(g, fix); Date_ w = kind == 1 ? dd : kind == 2 ? D(plus(fix, t)) : Date::Maximum(); CHECK(e.Delivery(f) == w && q->Delivery(f) == w, "delivery of " << want << " fixed on " << civil::iso(fix) << " is " << S(Date::ToString(e.Delivery(f))) << ", expected " << S(Date::ToString(w)));
}
SUB("currency-pairs", 15000, 300000) {
    std::string a = g.pick(CCY), b = g.pick(CCY), want = "FX[" + a + "/" + b + "]"; SHOW(want); g.nontrivial(a != b); Index::Fx_ e{Ccy_(String_(b)), Ccy_(String_(a))}; CHECK(S(e.Name()) == want, "name is " << S(e.Name()) << ", expected " << want); auto p = g.b() ? parsed(want) : std::unique_ptr<Index_>(Index::FxParser(String_(want))); CHECK(S(p->Name()) == want, want << " reads back as " << S(p->Name())); auto c = Index::Clone(e); CHECK(c && S(c->Name()) == want, "clone");
    std::string back = "FX[" + b + "/" + a + "]"; std::map<std::string, std::map<DateTime_, double>> h; std::vector<DateTime_> ts; int n = g.n(1, 6); for (int i = 0; i < n; ++i) ts.push_back(at(g, day(g))); for (auto& t : ts) { if (g.b()) h[want][t] = g.chance(10) ? 0.0 : g.uni(0.1, 200); if (g.b()) h[back][t] = g.uni(0.1, 200); } FixingsAccess_ acc; for (auto& k : h) acc.fixings_[String_(k.first)] = Handle_<Fixings_>(new Fixings_(String_(k.first), k.second)); ENV_SEED(acc);
    for (auto& t : ts) { bool dir = h.count(want) && h[want].count(t), inv = h.count(back) && h[back].count(t); SHOW(dir << inv); if (!dir && !inv) { MUST_THROW(p->Fixing(_env, t), "no fixing either way"); continue; } double w = dir ? h[want][t] : 1.0 / h[back][t], x = p->Fixing(_env, t); CHECK(std::fabs(x - w) <= 1e-14 * w, want << " fixes at " << x << ", expected " << w << (dir ? "" : " from the inverse pair")); CHECK(e.Fixing(_env, t) == x, "original and parsed index differ"); }
}
SUB("refused", 20000, 300000) {   // one character too many or too few
    bool eq = g.b(); std::string nm = eq ? std::string("EQ[") + (g.b() ? "IBM" : "HS300") + "]" : "FX[" + g.pick(CCY) + "/" + g.pick(CCY) + "]", bad; switch (g.n(0, eq ? 6 : 9)) { case 0: bad = nm.substr(0, nm.size() - 1); break; case 1: bad = nm + g.pick(std::vector<std::string>{"x", " x", "]x", "3M", "2022-01-01", "["}); break; case 2: bad = nm.substr(2); break; case 3: bad = "QE" + nm.substr(2); break; case 4: bad = nm.substr(0, 2) + ":" + nm.substr(3); break; case 5: bad = nm.substr(0, 2) + ":" + nm.substr(2); break; case 6: bad = nm + (eq ? g.pick(std::vector<std::string>{"@", "@hello", "@2022-13-01", "@2022-02-30", "x@2022-01-01", "x>3M"}) : "@2022-01-01"); break; case 7: bad = "FX[" + g.pick(CCY) + "]"; break; case 8: bad = "FX[" + g.pick(CCY) + "/XXX]"; break; default: bad = "FX[/" + g.pick(CCY) + "]"; } SHOW(bad); g.nontrivial(); std::unique_ptr<Index_> r; bool ok = true; try { r.reset(Index::Parse(String_(bad))); } catch (const std::exception&) { ok = false; } CHECK(!ok || !r, bad << " is accepted as " << S(r->Name()));
}
struct Probe_ : Index_ { String_ n_; explicit Probe_(const std::string& n) : n_(n) {} String_ Name() const override { return n_; } };
struct Other_ : Environment_::Entry_ {};
SUB("fixings", 15000, 300000) {   // a stack of environments; the innermost fixing access decides
    static const std::vector<std::string> names = {"EQ[A]", "EQ[B]", "FX[USD/JPY]", "eq[a]"}; std::vector<DateTime_> ts; for (int i = g.n(1, 5); i > 0; --i) ts.push_back(at(g, day(g))); std::vector<std::unique_ptr<Environment_::Entry_>> es; std::vector<std::map<std::string, std::map<DateTime_, double>>> hs; std::vector<bool> is; int n = g.n(0, 3); size_t total = 0; for (int i = 0; i < n; ++i) { hs.emplace_back(); if (g.chance(25)) { es.emplace_back(new Other_); is.push_back(false); continue; } is.push_back(true); auto* a = new FixingsAccess_; es.emplace_back(a); for (int k = 0; k < 3; ++k) if (g.chance(70)) { for (auto& t : ts) if (g.chance(70)) { hs.back()[names[k]][t] = g.uni(-5, 5); ++total; } a->fixings_[String_(names[k])] = Handle_<Fixings_>(new Fixings_(String_(names[k]), hs.back()[names[k]])); } } g.nontrivial(total > 2);
    _ENV = nullptr; std::vector<std::unique_ptr<Environment::XDecorated_>> st; for (auto& e : es) st.emplace_back(new Environment::XDecorated_(_env, *e)); int top = -1; for (int i = 0; i < n; ++i) if (is[i]) top = i;
    for (int q = g.n(1, 6); q > 0; --q) { size_t k = g.draw(4); DateTime_ t = g.chance(85) ? g.pick(ts) : at(g, day(g)); std::string key = k == 3 ? names[0] : names[k]; const double* v = nullptr; if (top >= 0 && hs[top].count(key)) { auto f = hs[top][key].find(t); if (f != hs[top][key].end()) v = &f->second; } SHOW(names[k] << " " << S(DateTime::ToString(t)) << (v ? "" : " missing")); bool quiet = g.b(); if (v) { CHECK(Index::PastFixing(_env, String_(names[k]), t, quiet) == *v, "fixing of " << names[k] << " is " << Index::PastFixing(_env, String_(names[k]), t, quiet) << ", expected " << *v); CHECK(Probe_(names[k]).Fixing(_env, t) == *v, "fixing through the index"); } else { if (quiet) CHECK(Index::PastFixing(_env, String_(names[k]), t, true) == -Dal::INF, "a missing fixing is " << Index::PastFixing(_env, String_(names[k]), t, true)); else { MUST_THROW(Index::PastFixing(_env, String_(names[k]), t), "missing fixing"); MUST_THROW(Probe_(names[k]).Fixing(_env, t), "missing fixing"); } } }
    while (!st.empty()) st.pop_back(); CHECK(_env == nullptr, "the environment is not restored");
    std::map<DateTime_, double> m; for (auto& t : ts) if (g.b()) m[t] = g.uni(0, 9); FixHistory_ fh(m); for (auto& t : ts) { if (m.count(t)) CHECK(fh.Find(t) == m[t], "history: " << fh.Find(t) << ", expected " << m[t]); else { CHECK(fh.Find(t, true) == -Dal::INF, "history: missing fixing found"); MUST_THROW(fh.Find(t), "missing in history"); } MUST_THROW(FixHistory::Empty().Find(t), "empty history"); }
}
static Cell_ when(pbt::G& g, int kind, const civil::Ymd& fix, std::string& text, int& days) { civil::Ymd d = day(g); switch (kind) { case 0: days = civil::num(fix); text = ""; return Cell_(); case 1: { Tenor t = tenor(g); text = t.text; days = civil::num(plus(fix, t)); return Cell_(String_(t.text)); } case 2: text = civil::iso(d); days = civil::num(d); return Cell_(D(d)); default: text = civil::iso(d); days = civil::num(d); return Cell_(at(g, d)); } }
SUB("interest-rates", 20000, 400000) {
    civil::Ymd fix = day(g); DateTime_ f = at(g, fix); std::string ccy = g.pick(CCY), st, mt; int sd = 0, md = 0, sk = g.n(0, 2), mk = g.n(1, 2); Ccy_ c{String_(ccy)}; Cell_ start = when(g, sk, fix, st, sd), mat = when(g, mk, fix, mt, md); SHOW(ccy << " fixed " << civil::iso(fix) << " start '" << st << "' maturity " << mt); g.nontrivial(sk > 0); CollateralType_ coll = one(g, CollateralTypeListAll()); Index::DF_ df(c, mat, sk || g.b() ? &start : nullptr, coll); std::string want = "IR[DF]:" + ccy + (sk ? "," + st : "") + "," + mt; CHECK(S(df.Name()) == want, "name is " << S(df.Name()) << ", expected " << want); CHECK(df.collateral_ == coll, "the collateral is " << S(df.collateral_.String()) << ", given " << S(coll.String())); CHECK(df.StartDate(f) == civil::date(sd), "start is " << S(Date::ToString(df.StartDate(f)))); CHECK(df.Maturity(f) == civil::date(md), "maturity is " << S(Date::ToString(df.Maturity(f))) << ", expected " << S(Date::ToString(civil::date(md))));
    int off = g.n(-30, 4000); if (civil::num(fix) + off > 0 && civil::num(fix) + off < 65000) { Index::DF_ o(c, Cell_(double(off))); CHECK(o.Maturity(f) == civil::date(civil::num(fix) + off), "maturity " << off << " days after the fixing is " << S(Date::ToString(o.Maturity(f)))); }
    { Cell_ odd = g.chance(33) ? Cell_(g.b()) : g.b() ? Cell_(g.n(-20, 400) + 0.5) : Cell_(f); bool dt = Cell::IsDateTime(odd); Index::DF_ o(c, odd); if (!dt) MUST_THROW((void)o.Maturity(f), "a maturity that is neither a day nor an increment"); MUST_THROW((void)o.Name(), "name with an unsupported maturity"); MUST_THROW((void)Index::DF_(c, Cell_()).Name(), "name without a maturity"); MUST_THROW((void)Index::Swap_(c, String_("10Y"), odd).Name(), "name with an unsupported start"); }
    TradedRate_ tr = one(g, TradedRateListAll()); Index::Libor_ l(c, tr, start); want = "IR:" + ccy + "," + tr.String() + (sk ? "," + st : ""); CHECK(S(l.Name()) == want, "name is " << S(l.Name()) << ", expected " << want); Tenor t = tenor(g); Index::Swap_ sw(c, String_(t.text), start); want = "IR:" + ccy + "," + t.text + (sk ? "," + st : ""); CHECK(S(sw.Name()) == want, "name is " << S(sw.Name()) << ", expected " << want);
    if (sk == 2) CHECK(l.StartDate(f) == civil::date(sd) && sw.StartDate(f) == civil::date(sd), "a fixed start is moved"); else { Ccy::Conventions::LiborFixHolidays().XWrite().SetDefault(Holidays_(String_("")));
        if (ccy != "CNY") { int d = sd, k = 2; while (k > 0) { ++d; int w = civil::weekday(d); if (w != 0 && w != 6) --k; } CHECK(l.StartDate(f) == civil::date(d) && sw.StartDate(f) == civil::date(d), "start is " << S(Date::ToString(l.StartDate(f))) << ", expected two business days after " << S(Date::ToString(civil::date(sd)))); } }
    IndexKey_ k1{Handle_<Index_>(new Index::DF_(c, mat))}, k2{Handle_<Index_>(new Index::DF_(c, mat))}, k3{Handle_<Index_>(new Index::Swap_(c, String_(t.text)))}; CHECK(k1 == k2 && !(k1 < k2) && !(k2 < k1), "equal indices have different keys"); CHECK(!(k1 == k3) && (k1 < k3) != (k3 < k1), "different indices have the same key");
}
SUB("historical-paths", 20000, 400000) {
    civil::Ymd from = civil::fromDays(g.n(100, 60000)); static const double steps[] = {0.125, 0.25, 0.5, 0.75, 1, 2, 7}; double h = g.pick(std::vector<double>(steps, steps + 7)); int n = g.n(0, 20); DateTime_ t0(D(from), g.n(0, 7) * 0.125); std::map<DateTime_, double> fx; std::vector<std::pair<double, double>> seen; double lo = g.uni(-1, 1), hi = lo + (g.chance(10) ? 0 : g.uni(0, 2)), ramp = g.chance(30) ? 0 : g.uni(0.01, 1.5), tail = g.chance(50) ? 0 : h * 0.5;
    auto val = [&]() { switch (g.n(0, 5)) { case 0: return lo; case 1: return hi; case 2: return lo - ramp * g.u01(); case 3: return hi + ramp * g.u01(); default: return g.uni(-3, 4); } }; auto prob = [&](double x) { double d = x < lo ? lo - x : x > hi ? x - hi : 0; return d == 0 ? 1.0 : ramp > 0 && d < ramp ? 1 - d / ramp : 0.0; }; long base = civil::num(from); auto when = [&](double e) { double a = t0.Frac() + e; int d = (int)std::floor(a); return DateTime_(civil::date((int)base + d), a - d); }; double want = 1; DateTime_ to = n == 0 ? t0 : tail > 0 ? when((n - 1) * h + tail) : when(n * h); for (int i = 0; i < n; ++i) { if (g.chance(20)) continue; double x = val(); fx[when(i * h)] = x; want *= prob(x); } if (tail == 0 && g.b()) fx[when(n * h)] = hi + 50; if (g.b()) fx[when(n * h + 30)] = hi + 60; if (n > 0 && g.b()) fx[when((n / 2) * h + h * 0.3)] = hi + 70; SHOW(n << " steps of " << h << " from " << S(DateTime::ToString(t0)) << " to " << S(DateTime::ToString(to)) << " range " << lo << ".." << hi << " ramp " << ramp); g.nontrivial(fx.size() > 2); IndexPathHistorical_ p(fx); auto r = std::make_pair(lo, hi);
    double got = p.AllInRangeProb(t0, to, r, h, ramp); CHECK(std::fabs(got - want) <= 1e-12, "probability of staying in range is " << got << ", expected " << want); for (auto& f : fx) { double w = prob(f.second), q = p.FixInRangeProb(f.first, r, ramp); CHECK(std::fabs(q - w) <= 1e-12, "in-range weight of " << f.second << " is " << q << ", expected " << w); double e = p.Expectation(f.first, r), we = f.second < lo ? lo : f.second > hi ? hi : f.second; CHECK(e == we, "collared fixing is " << e << ", expected " << we); } DateTime_ no = when(-3.7); if (!fx.count(no)) { MUST_THROW(p.Expectation(no, r), "no fixing"); MUST_THROW(p.FixInRangeProb(no, r, ramp), "no fixing"); } if (g.chance(5)) { MUST_THROW(p.AllInRangeProb(t0, when(5), r, g.b() ? 0.0 : -1.0, ramp), "monitoring never advances"); }
}
