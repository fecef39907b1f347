#include <engine.hpp>
#include <dal/platform/platform.hpp>
#include <dal/math/operators.hpp>
#include <dal/time/date.hpp>
#include <dal/curve/piecewiseconstant.hpp>
#include <dal/curve/piecewiselinear.hpp>
#include <dal/curve/discount.hpp>
#include <dal/curve/ycimp.hpp>
#include <memory>
#include <set>
using namespace Dal;
PROPERTY_DEF("P12", "Random knot dates (1 to 8, gaps from one day to years), rates of both signs, query dates at, beside, between and outside the knots, and chains of base curves up to depth 4 with substitutions; integrals are compared with "
  "exact day-by-day sums. Non-trivial: a query strictly inside the knot range of a curve with at least 3 knots, or a curve with a base.")
namespace pbt { std::vector<std::string> ASSUMPTIONS = {"curves have at least one knot, knot dates strictly increase"}; void globalInit() {} }
typedef std::vector<double> V; typedef std::vector<int> VI;
static VI knots(pbt::G& g, int n) { VI k(n); k[0] = 30000 + g.n(0, 15000); for (int i = 1; i < n; ++i) k[i] = k[i - 1] + (g.chance(40) ? g.n(1, 3) : g.n(1, 400)); return k; }
static Date_ D(int x) { return Date::FromExcel(x); }
static Vector_<Date_> dates(const VI& k) { Vector_<Date_> r; for (int x : k) r.push_back(D(x)); return r; }
static Vector_<> mk(const V& v) { return Vector_<>(v.begin(), v.end()); }
static V vals(pbt::G& g, int n) { V v(n); for (auto& x : v) x = g.chance(20) ? g.n(-1, 1) * 0.01 : g.uni(-0.05, 0.15); return v; }
static int query(pbt::G& g, const VI& k) { int c = g.n(0, 5), n = (int)k.size(); return c == 0 ? k[g.n(0, n - 1)] : c == 1 ? k[g.n(0, n - 1)] + (g.b() ? 1 : -1) : c == 2 ? k[0] - g.n(1, 500) : c == 3 ? k[n - 1] + g.n(1, 500) : g.n(k[0], k[n - 1]); }
static bool tol(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)); }
SUB("piecewise-constant", 40000, 800000) {
    int n = g.n(1, 8); VI k = knots(g, n); V f = vals(g, n); SHOW("knots " << pbt::vec(k) << " f " << pbt::vec(f));
    PiecewiseConstant_ c(dates(k), mk(f)); if (g.chance(30)) { f = vals(g, n); c.fRight_ = mk(f); c.Update(); g.label("updated"); }
    auto F = [&](int d) { double v = 0; for (int i = 0; i < n; ++i) if (k[i] <= d) v = f[i]; return v; };
    auto I = [&](int d) { double s = 0; for (int x = k[0]; x < d; ++x) s += F(x); return s; };
    int qs[2]; for (int r = 0; r < 2; ++r) { int q = qs[r] = query(g, k); SHOW("q " << q); bool kn = g.b(); if (n >= 3 && q > k[0] && q < k[n - 1]) g.nontrivial();
        double v = PWC::F(c, D(q), &kn); CHECK(v == F(q), "value at " << q << " " << v << " expected " << F(q)); CHECK(PWC::F(c, D(q)) == F(q), "value without knot flag"); bool isk = false; for (int x : k) isk |= x == q; CHECK(kn == isk, "is_knot at " << q);
        CHECK(tol(c.IntegralTo(D(q)), I(q)), "integral to " << q << " " << c.IntegralTo(D(q)) << " expected " << I(q)); }
    CHECK(tol(PWC::Integral(c, D(qs[0]), D(qs[1])), I(qs[1]) - I(qs[0])), "integral between");
    double val = g.uni(-1, 1); int from = 30000 + g.n(0, 100); std::unique_ptr<PiecewiseConstant_> cc(PWC::NewConstant(val, D(from))); CHECK(PWC::F(*cc, D(from + g.n(0, 99))) == val && PWC::F(*cc, D(from - 1 - g.n(0, 99))) == 0, "constant curve"); CHECK(tol(cc->IntegralTo(D(from + 7)), 7 * val), "constant integral");
    V sh = f; sh.push_back(0); MUST_THROW(PiecewiseConstant_(dates(k), mk(sh)), "sizes");
}
struct PL { VI k; V l, r;
    double F(int d, bool right) const { int n = (int)k.size(); if (right ? d < k[0] : d <= k[0]) return l[0]; if (right ? d >= k[n - 1] : d > k[n - 1]) return r[n - 1];
        for (int i = 0; i + 1 < n; ++i) { if (right ? (k[i] <= d && d < k[i + 1]) : (k[i] < d && d <= k[i + 1])) return r[i] + (l[i + 1] - r[i]) * double(d - k[i]) / (k[i + 1] - k[i]); } return NAN; }
    double I(int d) const { double s = 0; if (d < k[0]) { for (int x = d; x < k[0]; ++x) s -= 0.5 * (F(x, true) + F(x + 1, false)); return s; } for (int x = k[0]; x < d; ++x) s += 0.5 * (F(x, true) + F(x + 1, false)); return s; }
    PiecewiseLinear_ make() const { return PiecewiseLinear_(dates(k), mk(l), mk(r)); } };
static PL gen(pbt::G& g) { PL p; int n = g.n(1, 6); p.k = knots(g, n); p.l = vals(g, n); p.r = g.chance(40) ? p.l : vals(g, n); return p; }
SUB("piecewise-linear", 40000, 800000) {
    PL p = gen(g); int n = (int)p.k.size(); SHOW("knots " << pbt::vec(p.k) << " left " << pbt::vec(p.l) << " right " << pbt::vec(p.r)); PiecewiseLinear_ c = p.make();
    if (g.chance(30)) { p.l = vals(g, n); p.r = vals(g, n); c.fLeft_ = mk(p.l); c.fRight_ = mk(p.r); c.Update(); g.label("updated"); }
    for (int r = 0; r < 3; ++r) { int q = query(g, p.k); SHOW("q " << q); if (n >= 3 && q > p.k[0] && q < p.k[n - 1]) g.nontrivial();
        for (int s = 0; s < 2; ++s) { double v = c.ValueAt(D(q), s), w = p.F(q, s); CHECK(tol(v, w), "value at " << q << (s ? " from the right " : " from the left ") << v << " expected " << w); }
        double v = c.IntegralTo(D(q)), w = p.I(q); CHECK(tol(v, w), "integral to " << q << " " << v << " expected " << w); }
    V sh = p.l; sh.push_back(1); MUST_THROW(PiecewiseLinear_(dates(p.k), mk(sh), mk(p.r)), "left sizes"); MUST_THROW(PiecewiseLinear_(dates(p.k), mk(p.l), mk(sh)), "right sizes");
}
SUB("discount-curves", 30000, 500000) {
    int depth = g.n(1, 4); std::vector<PL> ps; std::vector<Handle_<DiscountCurve_>> hs;
    for (int i = 0; i < depth; ++i) { ps.push_back(gen(g)); SHOW("level " << i << " knots " << pbt::vec(ps[i].k) << " left " << pbt::vec(ps[i].l) << " right " << pbt::vec(ps[i].r)); hs.push_back(Handle_<DiscountCurve_>(i ? NewDiscountPWLF(String_("c") + char('0' + i), ps[i].make(), hs[i - 1]) : NewDiscountPWLF("c0", ps[0].make()))); }
    if (depth > 1) g.nontrivial(); const DiscountCurve_& top = *hs.back();
    auto df = [&](const std::vector<PL>& v, int a, int b) { double s = 0; for (auto& p : v) s += p.I(b) - p.I(a); return std::exp(-s / 365.0); };
    int a = query(g, ps[0].k), b = query(g, ps.back().k), c = query(g, ps[0].k); SHOW("dates " << a << " " << b << " " << c);
    double ab = top(D(a), D(b)), bc = top(D(b), D(c)), ac = top(D(a), D(c));
    CHECK(tol(ab, df(ps, a, b)), "discount " << ab << " expected " << df(ps, a, b)); CHECK(std::fabs(ab * bc - ac) <= 1e-9 * std::fabs(ac), "discount factors compose: " << ab * bc << " vs " << ac); CHECK(top(D(a), D(a)) == 1.0, "zero-length discount"); CHECK(std::fabs(ab * top(D(b), D(a)) - 1) < 1e-9, "reversal");
    // components
    Vector_<const YCComponent_*> all; top.Poll(&all); CHECK((int)all.size() == depth, "polled " << all.size() << " components of " << depth); for (int i = 0; i < depth; ++i) CHECK(all[i] == hs[depth - 1 - i].get(), "component " << i);
    std::map<const YCComponent_*, Handle_<YCComponent_>> hm; top.Poll(&hm); CHECK((int)hm.size() == depth - 1, "handles for " << hm.size()); for (int i = 0; i + 1 < depth; ++i) CHECK(hm.count(hs[i].get()) && hm[hs[i].get()].get() == hs[i].get(), "handle of level " << i);
    // cloning with substitution of the immediate base, of an unrelated curve, or none
    PL q = gen(g); Handle_<DiscountCurve_> other(NewDiscountPWLF("other", q.make())); YCComponent_::substitutions_t sub; std::vector<PL> exp = ps; bool same = true;
    if (depth > 1 && g.b()) { sub[hs[depth - 2].get()] = handle_cast<YCComponent_>(other); exp = {q, ps.back()}; same = false; g.label("base replaced"); } else if (g.b()) sub[other.get()] = handle_cast<YCComponent_>(hs[0]);
    std::unique_ptr<YCComponent_> cl(top.Clone("clone", sub)); auto* dc = dynamic_cast<DiscountCurve_*>(cl.get()); CHECK(dc != nullptr, "clone type"); CHECK(dc->name_ == "clone" && dc != &top, "clone name");
    double x = (*dc)(D(a), D(b)); CHECK(tol(x, df(exp, a, b)), "clone discount " << x << " expected " << df(exp, a, b)); if (same) CHECK(x == ab, "plain clone");
    CHECK(top(D(a), D(b)) == ab, "the original changed");
}
