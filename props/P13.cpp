#include <engine.hpp>
#include <dal/platform/platform.hpp>
#include <dal/math/operators.hpp>
#include <dal/math/specialfunctions.hpp>
#include <dal/math/distribution/black.hpp>
#include <dal/math/distribution/utils.hpp>
#include <dal/math/analytics/vanilla.hpp>
#include <dal/protocol/optiontype.hpp>
#include <functional>
using namespace Dal;
PROPERTY_DEF("P13", "Forwards, strikes and total vols over several decades (including negative forwards and strikes for the normal model, zero vol, at-the-money and up to four standard deviations away), all option types in every accepted spelling; "
  "prices are compared with numerical quadrature of the payoff, greeks with differences of the quadrature price, implied vols by repricing. Non-trivial: vol > 0 and strike within four standard deviations of the forward.")
namespace pbt { std::vector<std::string> ASSUMPTIONS = {"InverseNCDF at exactly 0 and 1 is out of scope (infinite)", "implied vols are judged by repricing: a price match within the solver's own tolerance"}; void globalInit() {} }
typedef OptionType_::Value_ T;
static OptionType_ otype(pbt::G& g, T* v) { int k = g.n(0, 2); *v = k == 0 ? T::CALL : k == 1 ? T::PUT : T::STRADDLE; static const std::vector<std::vector<const char*>> names = {{"CALL", "C", "Call", "call"}, {"PUT", "P", "put"}, {"STRADDLE", "V", "C+P", "Straddle"}}; return g.b() ? OptionType_(*v) : OptionType_(String_(g.pick(names[k]))); }
static double pay(T t, double s, double k) { return t == T::CALL ? std::max(s - k, 0.0) : t == T::PUT ? std::max(k - s, 0.0) : std::fabs(s - k); }
// E[f(Z)] over [a,b] by 10-point Gauss-Legendre panels of width at most 1/2
static double gl(const std::function<double(double)>& f, double a, double b) {
    static const double x[5] = {0.1488743389816312, 0.4333953941292472, 0.6794095682990244, 0.8650633666889845, 0.9739065285171717}, w[5] = {0.2955242247147529, 0.2692667193099963, 0.2190863625159820, 0.1494513491505806, 0.0666713443086881};
    if (b <= a) return 0; int n = (int)std::ceil((b - a) * 1.0) + 1; double s = 0, h = (b - a) / n; for (int i = 0; i < n; ++i) { double c = a + (i + 0.5) * h; for (int k = 0; k < 5; ++k) s += w[k] * (f(c + 0.5 * h * x[k]) + f(c - 0.5 * h * x[k])); } return 0.5 * h * s; }
static double phi(double z) { return std::exp(-0.5 * z * z) / std::sqrt(2 * M_PI); }
static double quad(T t, double k, const std::function<double(double)>& spot, double kink, double shift) {
    double lo = std::min(-9.0, -9.0 + shift), hi = std::max(9.0, 9.0 + shift); kink = std::min(std::max(kink, lo), hi); double r = 0;
    if (t != T::CALL) r += gl([&](double z) { return (k - spot(z)) * phi(z); }, lo, kink); if (t != T::PUT) r += gl([&](double z) { return (spot(z) - k) * phi(z); }, kink, hi); return r; }
static double blackQ(T t, double f, double v, double k) { return quad(t, k, [&](double z) { return f * std::exp(-0.5 * v * v + v * z); }, (std::log(k / f) + 0.5 * v * v) / v, v); }
static double bachQ(T t, double f, double v, double k) { return quad(t, k, [&](double z) { return f + v * z; }, (k - f) / v, 0); }
SUB("normal-distribution", 60000, 1500000) {
    double z = g.chance(10) ? g.n(-8, 8) : g.chance(30) ? g.uni(-38, 38) : g.uni(-6, 6); SHOW("z " << pbt::dbl(z)); g.nontrivial();
    double p = NCDF(z), want = 0.5 * std::erfc(-z / std::sqrt(2.0)); CHECK(std::fabs(p - want) <= 1e-14 * want + 1e-300 || std::fabs(p / want - 1) < 1e-9, "NCDF " << p << " expected " << want); CHECK(std::fabs(NCDF(z) + NCDF(-z) - 1) < 1e-15 * 4, "symmetry");
    CHECK(std::fabs(NPDF(z) - phi(z)) <= 1e-12, "NPDF " << NPDF(z)); double q = NCDF(z, false); CHECK(q >= 0 && q <= 1 && std::fabs(q - want) <= 2e-4, "spline NCDF " << q << " expected " << want); CHECK(std::fabs(NCDF(-z, false) + q - 1) < 1e-12, "spline symmetry");
    double z2 = z + g.logUni(1e-3, 3); CHECK(NCDF(z2) >= p, "monotone"); CHECK(NCDF(z2, false) >= q - 1e-12, "spline monotone");
}
SUB("inverse-normal", 60000, 1500000) {
    double p = g.chance(20) ? g.logUni(1e-15, 0.5) : g.chance(20) ? 1 - g.logUni(1e-12, 0.5) : g.chance(20) ? 0.02425 + g.uni(-1e-6, 1e-6) : g.uni(1e-6, 1 - 1e-6); SHOW("p " << pbt::dbl(p)); g.nontrivial();
    double z = InverseNCDF(p), t = std::min(p, 1 - p); CHECK(std::fabs(NCDF(z) - p) <= (t < 1e-6 ? 1e-3 * t : t < 1e-4 ? 1e-7 * t : 1e-12 * t) + 1e-15, "round trip " << pbt::dbl(NCDF(z)));
    double raw = InverseNCDF(p, true, false); CHECK(std::fabs(raw - z) <= 1e-6 + 1e-8 * std::fabs(z) * std::fabs(z), "unpolished " << raw << " polished " << z); double im = InverseNCDF(p, false, true); CHECK(std::fabs(im - z) <= 2.1e-4 * 2.5066283 * std::exp(std::min(8.0, 0.5 * z * z)) + 1e-5, "polished with the spline " << im << " exact " << z);
    if (p > 1e-9 && p < 1 - 1e-9) { CHECK(std::fabs(InverseNCDF(1 - p) + z) <= 1e-6 * (1 + std::fabs(z)), "antisymmetry"); double p2 = std::min(1 - 1e-10, p * (1 + g.logUni(1e-5, 1))); if (p2 > p) CHECK(InverseNCDF(p2) > z - 1e-9, "monotone"); }
    double bad = g.pick(std::vector<double>{-1e-9, -1, 1 + 1e-9, 2, NAN}); MUST_THROW(InverseNCDF(bad), "argument " << bad);
}
static void checkGreeks(const char* m, const Vector_<>& got, const std::function<double(double, double)>& price, double f, double v, double scale) {
    double hf = 1e-3 * scale, hv = 1e-4 * v; double d = (price(f + hf, v) - price(f - hf, v)) / (2 * hf), w = (price(f, v + hv) - price(f, v - hv)) / (2 * hv);
    CHECK(got.size() == 2, "greeks"); CHECK(std::fabs(got[0] - d) <= 1e-5, m << " delta " << got[0] << " expected " << d); CHECK(std::fabs(got[1] * v - w * v) <= 1e-5 * scale, m << " vega " << got[1] << " expected " << w); }
SUB("black", 15000, 400000) {
    double f = g.chance(20) ? 100 : g.logUni(1e-2, 1e4), v = g.logUni(0.005, 3), n = g.chance(15) ? 0 : g.uni(-4, 4), k = f * std::exp(n * v); T t; OptionType_ o = otype(g, &t); SHOW("f " << pbt::dbl(f) << " vol " << pbt::dbl(v) << " k " << pbt::dbl(k) << " " << o.String()); g.nontrivial();
    double sc = std::max(f, k); double p = Distribution::BlackOpt(f, v, k, o), q = blackQ(t, f, v, k); CHECK(std::fabs(p - q) <= 1e-9 * sc, "price " << pbt::dbl(p) << " quadrature " << pbt::dbl(q));
    double c = Distribution::BlackOpt(f, v, k, OptionType_("CALL")), u = Distribution::BlackOpt(f, v, k, OptionType_("PUT")), s = Distribution::BlackOpt(f, v, k, OptionType_("STRADDLE")); CHECK(std::fabs(c - u - (f - k)) <= 1e-11 * sc, "parity"); CHECK(std::fabs(c + u - s) <= 1e-11 * sc, "straddle");
    CHECK(p >= pay(t, f, k) - 1e-11 * sc, "below intrinsic"); double v2 = v * (1 + g.logUni(1e-3, 1)); CHECK(Distribution::BlackOpt(f, v2, k, o) >= p - 1e-11 * sc, "monotone in vol");
    CHECK(Distribution::BlackOpt(f, 0.0, k, o) == pay(t, f, k), "zero vol"); CHECK(o.Payout(f, k) == pay(t, f, k), "payout"); CHECK(Distribution::BlackOpt(f, v, -k, o) == pay(t, f, -k), "negative strike");
    Vector_<> gr = Distribution::BlackGreeks(f, v, k, o); checkGreeks("black", gr, [&](double F, double V) { return blackQ(t, F, V, k); }, f, v, f * std::min(v, 1.0));
    DistributionBlack_ d(f, v); CHECK(d.Forward() == f && d.Vol() == v && std::fabs(d.OptionPrice(k, o) - p) <= 1e-13 * sc && std::fabs(d.VolVega(k, o) - v * gr[1]) <= 1e-12 * sc, "distribution"); std::vector<String_> names = {"delta", "vega", "volvega"}; g.shuffle(names); Vector_<String_> ask; for (int i = g.n(0, 3); i > 0; --i) ask.push_back(names[i - 1]);
    auto m = d.ParameterDerivatives(k, o, ask); CHECK(m.size() == ask.size(), "reported " << m.size()); for (auto& x : m) { double w = x.first == "delta" ? gr[0] : x.first == "vega" ? gr[1] : v * gr[1]; CHECK(std::fabs(x.second - w) <= 1e-12 * sc, x.first.c_str() << " " << x.second); } MUST_THROW(d.ParameterDerivatives(k, o, Vector_<String_>(1, "theta")), "unknown greek");
    d.Vol() = v2; CHECK(std::fabs(d.OptionPrice(k, o) - Distribution::BlackOpt(f, v2, k, o)) <= 1e-13 * sc, "vol can be changed");
    double mat = g.logUni(0.1, 10); CHECK(std::fabs(AAD::BlackScholes(f, k, v / std::sqrt(mat), mat) - c) <= 1e-10 * sc, "BlackScholes");
}
SUB("bachelier", 15000, 400000) {
    double f = (g.chance(30) ? -1 : 1) * (g.chance(20) ? 100 : g.logUni(1e-2, 1e4)); if (g.chance(10)) f = 0; double v = std::max(1e-2, std::fabs(f)) * g.logUni(0.005, 3), n = g.chance(15) ? 0 : g.uni(-4, 4), k = g.chance(10) ? 0 : f + n * v; T t; OptionType_ o = otype(g, &t); SHOW("f " << pbt::dbl(f) << " vol " << pbt::dbl(v) << " k " << pbt::dbl(k) << " " << o.String()); g.nontrivial(); if (f * k <= 0) g.label("forward or strike not positive");
    double sc = std::max({std::fabs(f), std::fabs(k), v}); double p = Distribution::BachelierOpt(f, v, k, o), q = bachQ(t, f, v, k); CHECK(std::fabs(p - q) <= 1e-9 * sc, "price " << pbt::dbl(p) << " quadrature " << pbt::dbl(q));
    double c = Distribution::BachelierOpt(f, v, k, OptionType_("CALL")), u = Distribution::BachelierOpt(f, v, k, OptionType_("PUT")), s = Distribution::BachelierOpt(f, v, k, OptionType_("STRADDLE")); CHECK(std::fabs(c - u - (f - k)) <= 1e-11 * sc, "parity"); CHECK(std::fabs(c + u - s) <= 1e-11 * sc, "straddle");
    CHECK(Distribution::BachelierOpt(f, 0.0, k, o) == pay(t, f, k), "zero vol"); Vector_<> gr = Distribution::BachelierGreeks(f, v, k, o); checkGreeks("bachelier", gr, [&](double F, double V) { return bachQ(t, F, V, k); }, f, v, v);
    DistributionBachelier_ d(f, v); CHECK(d.Forward() == f && d.Vol() == v && std::fabs(d.OptionPrice(k, o) - p) <= 1e-13 * sc && std::fabs(d.VolVega(k, o) - v * gr[1]) <= 1e-12 * sc, "distribution"); auto m = d.ParameterDerivatives(k, o, Vector_<String_>({"delta", "vega", "volvega"})); CHECK(m.size() == 3 && std::fabs(m["delta"] - gr[0]) <= 1e-13 && std::fabs(m["vega"] - gr[1]) <= 1e-12 && std::fabs(m["volvega"] - v * gr[1]) <= 1e-12 * sc, "derivatives");
    double mat = g.logUni(0.1, 10); CHECK(std::fabs(AAD::Bachelier(f, k, v / std::sqrt(mat), mat) - c) <= 1e-10 * sc, "Bachelier");
}
SUB("implied-vol", 40000, 1000000) {
    bool bach = g.b(); double f = g.chance(20) ? 100 : g.logUni(1e-2, 300), v = g.logUni(0.01, 2.5), n = g.chance(15) ? 0 : g.uni(-3, 3), k; T t; OptionType_ o = otype(g, &t);
    if (bach) { if (g.chance(30)) f = -f; v *= std::fabs(f); k = f + n * v; } else k = f * std::exp(n * v);
    SHOW((bach ? "bachelier f " : "black f ") << pbt::dbl(f) << " vol " << pbt::dbl(v) << " k " << pbt::dbl(k) << " " << o.String()); g.nontrivial();
    auto P = [&](double V) { return bach ? Distribution::BachelierOpt(f, V, k, o) : Distribution::BlackOpt(f, V, k, o); }; double p = P(v); double guess = g.chance(60) ? 0.0 : v * g.uni(0.7, 1.5); if (p < o.Payout(f, k)) p = o.Payout(f, k);
    double iv = bach ? Distribution::BachelierIV(f, k, o, p, guess) : Distribution::BlackIV(f, k, o, p, guess); CHECK(iv > 0 && std::isfinite(iv), "iv " << iv);
    double slack = 2e-10 * std::max(1.0, std::fabs(f)), tol = 2e-10 * std::max(1.0, p) + std::max(P(iv * std::exp(slack)) - P(iv), P(iv) - P(iv * std::exp(-slack))) * 2 + 1e-13 * std::max(std::fabs(f), std::fabs(k));
    CHECK(std::fabs(P(iv) - p) <= tol, "implied vol " << pbt::dbl(iv) << " reprices to " << pbt::dbl(P(iv)) << " not " << pbt::dbl(p));
    double below = o.Payout(f, k) - g.logUni(1e-6, 1) * (1 + std::fabs(f)); MUST_THROW((bach ? Distribution::BachelierIV(f, k, o, below) : Distribution::BlackIV(f, k, o, below)), "price below intrinsic");
    if (t == T::CALL) { double mat = g.logUni(0.1, 10); double w = bach ? AAD::BachelierIVol(f, k, p, mat) : AAD::BlackScholesIVol(f, k, p, mat); CHECK(std::fabs(P(w * std::sqrt(mat)) - p) <= 2 * tol, "annualised implied vol " << w); }
    if (!bach && std::fabs(n) < 2) { DistributionBlack_ d(f, v); int st = g.n(1, 4); double w = Distribution::BlackIV(d, k, g.chance(50) ? 0.0 : v, st); OptionType_ oo(k > f ? "CALL" : "PUT"); CHECK(std::fabs(Distribution::BlackOpt(f, w, k, oo) - Distribution::BlackOpt(f, v, k, oo)) <= 2 * tol, "implied vol of a model in " << st << " steps " << w); }
}
SUB("merton-and-payout", 10000, 200000) {
    double s = g.logUni(1, 1000), v = g.uni(0.02, 0.6), mat = g.uni(0.1, 3), lam = g.chance(20) ? 0 : g.uni(0, (g.chance(30) ? 2.5 : 0.5) / mat), mj = g.uni(-0.3, 0.3), sj = g.chance(20) ? 0 : g.uni(0, 0.3), k = s * std::exp(g.uni(-2, 2) * v * std::sqrt(mat)); SHOW("s " << s << " k " << k << " vol " << v << " T " << mat << " lambda " << lam << " mean " << mj << " sd " << sj); if (lam > 0) g.nontrivial();
    double want = 0, pr = std::exp(-lam * mat), kap = std::exp(mj + 0.5 * sj * sj) - 1; double tail = 0; for (int n = 0; n < 60; ++n) { double F = s * std::exp(n * (mj + 0.5 * sj * sj) - lam * kap * mat), V = std::sqrt(v * v * mat + n * sj * sj); double dp = (std::log(F / k) + 0.5 * V * V) / V; auto N = [](double z) { return 0.5 * std::erfc(-z / std::sqrt(2.0)); }; want += pr * (F * N(dp) - k * N(dp - V)); if (n >= 10) tail += pr * F; pr *= lam * mat / (n + 1); }
    double got = AAD::Merton(s, k, v, mat, lam, mj, sj); CHECK(std::fabs(got - want) <= 1e-7 * s + tail, "Merton " << pbt::dbl(got) << " expected " << pbt::dbl(want));
    T t; OptionType_ o = otype(g, &t); double a = g.uni(-5, 5), b = g.chance(20) ? a : g.uni(-5, 5); CHECK(o.Payout(a, b) == pay(t, a, b), "payout " << o.String()); CHECK(o.Switch() == t, "type"); CHECK(OptionType_(String_(o.String())) == o, "spelling");
}
