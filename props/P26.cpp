#include "../engine/engine.hpp"
#include <dal/platform/platform.hpp>
#include <dal/math/operators.hpp>
#include <dal/math/aad/aad.hpp>
#include <dal/math/analytics/vanilla.hpp>
#include <dal/model/dupire.hpp>
using namespace Dal; using namespace Dal::AAD;
PROPERTY_DEF("P26", "Random implied-volatility surfaces (flat, term structure, SVI-shaped smile, Merton jumps, with random rates and dividends): local volatilities are compared with the closed form in terms of implied total variance; calibrated tables, with and without bumped risk views, entry by entry with direct evaluation and the flat extrapolation rule; filled grids with their definition. Non-trivial: a surface that is not flat, or a table of at least four entries.")
namespace pbt { std::vector<std::string> ASSUMPTIONS = {"local volatilities are compared where the surface has no near-arbitrage and within 2.5 standard deviations, to the accuracy of the finite differences", "grids have a spot near the money"}; void globalInit() {} }
struct Shape { int kind = 0; double spot = 100, r = 0, q = 0, a = 0.04, b = 0, rho = 0, m = 0, s = 0.3, c = 0; };   // total variance a T + c T^2, or T times SVI in log-moneyness
struct W { double w, wT, y1, y2; };
static W total(const Shape& k, double y, double T) { if (k.kind < 2) return {k.a * T + k.c * T * T, k.a + 2 * k.c * T, 0, 0}; double z = y - k.m, R = std::sqrt(z * z + k.s * k.s), v = k.a + k.b * (k.rho * z + R); return {v * T, v, T * k.b * (k.rho + z / R), T * k.b * k.s * k.s / (R * R * R)}; }
static double fwd(const Shape& k, double T) { return k.spot * std::exp((k.r - k.q) * T); }
struct Surf : IVS_ { Shape k; const RiskView_<double>* bump = nullptr; explicit Surf(const Shape& k) : IVS_(k.spot, k.r, k.q), k(k) {} double ImpliedVol(double K, double T) const override { return std::sqrt(total(k, std::log(K / fwd(k, T)), T).w / T) + (bump ? bump->Spread(K, T) : 0.0); } };
static double local(const Shape& k, double K, double T, double& den) { double y = std::log(K / fwd(k, T)); W x = total(k, y, T); den = 1 - y / x.w * x.y1 + 0.25 * (-0.25 - 1 / x.w + y * y / x.w / x.w) * x.y1 * x.y1 + 0.5 * x.y2; return std::sqrt(x.wT / den); }
static Shape shape(pbt::G& g, bool rates) { Shape k; k.kind = g.n(0, 2); k.spot = g.b() ? 100 : g.logUni(0.1, 5000); if (rates && g.chance(70)) { k.r = g.uni(-0.03, 0.1); k.q = g.uni(-0.03, 0.08); } double v = g.logUni(0.06, 0.7); k.a = v * v; if (k.kind == 1) k.c = g.uni(-0.02, 0.2) * k.a; if (k.kind == 2) { k.b = g.uni(0, 0.6) * k.a; k.rho = g.uni(-0.7, 0.7); k.m = g.uni(-0.1, 0.1); k.s = g.uni(0.2, 0.8); } return k; }
static std::string show(const Shape& k) { std::ostringstream o; o.precision(17); o << (k.kind == 0 ? "flat" : k.kind == 1 ? "term" : "SVI") << " spot " << k.spot << " r " << k.r << " q " << k.q << " a " << k.a << " c " << k.c << " b " << k.b << " rho " << k.rho << " m " << k.m << " s " << k.s; return o.str(); }
SUB("local-volatility", 30000, 800000) {
    Shape k = shape(g, true); double T = g.logUni(0.05, 10), sd = std::sqrt(total(k, 0, T).w), K = fwd(k, T) * std::exp(g.uni(-2, 2) * sd); SHOW(show(k) << " K " << K << " T " << T); g.nontrivial(k.kind > 0); double den, want = local(k, K, T, den); if (!(den > 0.2) || !(total(k, std::log(K / fwd(k, T)), T).wT > 0.2 * k.a) || !std::isfinite(want)) g.discard(); Surf s(k); double got = s.LocalVol(K, T); CHECK(std::fabs(got - want) <= 2e-4 * want, "local vol is " << got << ", expected " << want); RiskView_<double> none; CHECK(std::fabs(s.LocalVol(K, T, &none) - got) <= 1e-6 * got, "an empty risk view changes the result");
}
SUB("calls", 20000, 400000) {   // prices are Black with the forward, discounted, at the implied vol plus spread
    Shape k = shape(g, true); double T = g.logUni(0.02, 8), K = fwd(k, T) * std::exp(g.uni(-1.5, 1.5) * std::sqrt(k.a * T)); SHOW(show(k) << " K " << K << " T " << T); g.nontrivial(k.kind > 0 || k.r != 0); if (!(total(k, std::log(K / fwd(k, T)), T).w > 0)) g.discard(); Surf s(k); double v = std::sqrt(total(k, std::log(K / fwd(k, T)), T).w), d1 = std::log(fwd(k, T) / K) / v + v / 2, N1 = 0.5 * std::erfc(-d1 / std::sqrt(2.0)), N2 = 0.5 * std::erfc(-(d1 - v) / std::sqrt(2.0)), want = std::exp(-k.r * T) * (fwd(k, T) * N1 - K * N2); double got = s.Call(K, T); CHECK(s.Spot() == k.spot, "spot"); CHECK(std::fabs(got - want) <= 1e-10 * k.spot, "call is " << got << ", expected " << want);
    double bump = g.uni(-0.3, 1) * v / std::sqrt(T), V = v + bump * std::sqrt(T), e1 = std::log(fwd(k, T) / K) / V + V / 2, w2 = std::exp(-k.r * T) * (fwd(k, T) * 0.5 * std::erfc(-e1 / std::sqrt(2.0)) - K * 0.5 * std::erfc(-(e1 - V) / std::sqrt(2.0))); RiskView_<double> rv(Vector_<>(1, K), Vector_<>(1, T)); double part = g.b() ? 0.0 : g.uni(-1, 1) * bump; if (part != 0.0) rv.Bump(0, 0, part); rv.Bump(0, 0, bump - part); got = s.Call(K, T, &rv); CHECK(std::fabs(got - w2) <= 1e-10 * k.spot, "call with a spread of " << bump << " is " << got << ", expected " << w2);
}
SUB("jump-surface", 4000, 100000) {
    double spot = 100, vol = g.uni(0.08, 0.4), in = g.uni(0, 0.3), mu = g.uni(-0.25, 0.15), sj = g.uni(0.02, 0.25), T = g.logUni(0.1, 4), K = spot * std::exp(g.uni(-1.2, 1.2) * vol * std::sqrt(T)); SHOW("vol " << vol << " intensity " << in << " jump " << mu << " +- " << sj << " K " << K << " T " << T); g.nontrivial(); MertonIVS_ s(spot, vol, in, mu, sj); double want = Merton(spot, K, vol, T, in, mu, sj), got = s.Call(K, T); CHECK(std::fabs(got - want) <= 1e-6 * want + 1e-9, "call is " << got << ", expected " << want << " at implied vol " << s.ImpliedVol(K, T));
}
static Vector_<> knots(pbt::G& g, double a, double lo, double hi, int n) { Vector_<> v; for (int i = 0; i < n; ++i) { v.push_back(a); a += g.uni(lo, hi); } return v; }
static void filled(pbt::G& g, const Vector_<>& got, const Vector_<>& must, double gap, double small, const char* what) {
    for (size_t i = 1; i < got.size(); ++i) { CHECK(got[i] > got[i - 1], what << " do not increase: " << pbt::vec(std::vector<double>(got.begin(), got.end()))); CHECK(got[i] - got[i - 1] <= gap + small + 1e-9 * gap, what << ": a gap of " << got[i] - got[i - 1] << " exceeds " << gap); } for (double x : must) CHECK(std::find(got.begin(), got.end(), x) != got.end(), what << ": " << x << " is not on the grid"); CHECK(got.front() == must.front() && got.back() == must.back(), what << ": ends"); size_t k = 0, n = 1; for (size_t i = 1; i < must.size(); ++i) n += std::max(1, (int)std::ceil((must[i] - must[i - 1]) / gap - 1e-9)); (void)k; CHECK(got.size() == n, what << ": " << got.size() << " points, expected " << n);
    size_t at = 0; for (size_t i = 1; i < must.size(); ++i) { size_t to = std::find(got.begin(), got.end(), must[i]) - got.begin(); for (size_t j = at; j <= to; ++j) { double e = must[i - 1] + (must[i] - must[i - 1]) * (double)(j - at) / (double)(to - at); CHECK(std::fabs(got[j] - e) <= 1e-9 * gap, what << ": points between " << must[i - 1] << " and " << must[i] << " are not evenly spaced"); } at = to; }
}
SUB("grids", 20000, 500000) {
    bool whole = g.chance(30); int n = g.n(1, 6); Vector_<> a; double x = whole ? g.n(-5, 5) : g.uni(-5, 5); for (int i = 0; i < n; ++i) { a.push_back(x); x += whole ? g.n(1, 6) : g.logUni(0.02, 6); } double gap = whole ? g.pick(std::vector<double>{0.5, 1, 2, 0.25}) : g.logUni(0.05, 5), small = 1e-3 * gap; Vector_<> add; int m = g.n(0, 2); std::set<double> all(a.begin(), a.end()); for (int i = 0; i < m; ++i) { double y = g.chance(30) ? a[g.draw(a.size())] : g.uni(-7, 20); bool far = true; for (double z : all) if (z != y && std::fabs(z - y) < 2 * small + 0.01) far = false; if (far && std::find(add.begin(), add.end(), y) == add.end()) { add.push_back(y); all.insert(y); } } std::sort(add.begin(), add.end()); SHOW(pbt::vec(std::vector<double>(a.begin(), a.end())) << " and " << pbt::vec(std::vector<double>(add.begin(), add.end())) << " gap " << gap); g.nontrivial(n > 1); Vector_<> got = add.empty() && g.b() ? FillData(a, gap, small) : FillData(a, gap, small, add.begin(), add.end()); filled(g, got, Vector_<>(all.begin(), all.end()), gap, small, "grid");
}
SUB("calibration", 6000, 150000) {
    Shape k = shape(g, true); k.spot = 100; if (k.kind == 1 && k.c < 0) k.c = -k.c; Vector_<> S, T; double ds = g.uni(3, 15), dt = g.uni(0.1, 0.7); S = knots(g, 100 - g.uni(5, 60), 5, 60, g.n(1, 4)); S.push_back(100.0); std::sort(S.begin(), S.end()); for (size_t i = 1; i < S.size();) if (S[i] - S[i - 1] < 0.5) S.erase(S.begin() + (S[i] == 100.0 ? i - 1 : i)); else ++i; T = knots(g, g.uni(0.1, 1.5), 0.05, g.chance(15) ? 5 : 1.5, g.n(1, 3)); bool first = true; for (double t : T) if (std::fabs(t - dt) < 1e-3) first = false; if (!first) g.discard(); Surf s(k); bool bumped = g.chance(40); Vector_<> rk = knots(g, g.uni(60, 100), 5, 30, g.n(1, 3)), rt = knots(g, g.uni(0.1, 1), 0.2, 1, g.n(1, 3)); RiskView_<double> rv(rk, rt); if (bumped) for (size_t i = 0; i < rk.size(); ++i) for (size_t j = 0; j < rt.size(); ++j) rv.Bump((int)i, (int)j, g.uni(-0.002, 0.004)); SHOW(show(k) << " spots " << pbt::vec(std::vector<double>(S.begin(), S.end())) << " step " << ds << " times " << pbt::vec(std::vector<double>(T.begin(), T.end())) << " step " << dt << (bumped ? " bumped" : ""));
    auto r = bumped ? DupireCalib(s, S, ds, T, dt, rv) : DupireCalib(s, S, ds, T, dt); Vector_<> must = T; must.push_back(dt); std::sort(must.begin(), must.end()); filled(g, r.spots_, S, ds, 0.01, "spots"); filled(g, r.times_, must, dt, 2e-4, "times"); int n = (int)r.spots_.size(), q = (int)r.times_.size(); g.nontrivial(n * q >= 4); CHECK(r.lVols_.Rows() == n && r.lVols_.Cols() == q, "table is " << r.lVols_.Rows() << " by " << r.lVols_.Cols()); Surf z(k); if (bumped) z.bump = &rv;
    for (int j = 0; j < q; ++j) { double t = r.times_[j], sd = s.Call(100.0, t) * std::sqrt(2 * M_PI), lo = 100 - 2.5 * sd, hi = 100 + 2.5 * sd; int il = 0, ih = n - 1; bool edge = false; for (double x : r.spots_) if (std::fabs(x - lo) < 1e-6 || std::fabs(x - hi) < 1e-6) edge = true; if (edge) continue; while (r.spots_[il] < lo) ++il; while (r.spots_[ih] > hi) --ih; for (int i = 0; i < n; ++i) { int e = std::min(std::max(i, il), ih); double w = z.LocalVol(r.spots_[e], t), got = r.lVols_(i, j); if (!std::isfinite(w)) continue; CHECK(std::fabs(got - r.lVols_(e, j)) <= 1e-12 * w, "beyond the grid local vol at spot " << r.spots_[i] << " and time " << t << " is " << got << ", the last one is " << r.lVols_(e, j)); CHECK(std::fabs(got - w) <= 1e-6 * w, "local vol at spot " << r.spots_[i] << " and time " << t << " is " << got << ", expected " << w << " (that of spot " << r.spots_[e] << ")"); } }
}
SUB("risk-views", 3000, 60000) {   // sensitivities of calibrated local vols to the buckets of a risk view
    Shape k = shape(g, true); k.spot = 100; if (k.kind == 1 && k.c < 0) k.c = -k.c; Vector_<> rk = knots(g, g.uni(60, 100), 10, 40, g.n(1, 3)), rt = knots(g, g.uni(0.1, 1), 0.3, 1, g.n(1, 3)); double T = g.b() ? g.uni(0.2, 3) : g.logUni(0.1, 10), K = fwd(k, T) * std::exp(g.uni(-1.2, 1.2) * std::sqrt(k.a * T)); double den; local(k, K, T, den); if (!(den > 0.3)) g.discard(); for (double x : rk) if (std::fabs(x / K - 1) < 2e-3) g.discard(); for (double x : rt) if (std::fabs(x / T - 1) < 2e-3) g.discard(); SHOW(show(k) << " K " << K << " T " << T << " buckets " << pbt::vec(std::vector<double>(rk.begin(), rk.end())) << " x " << pbt::vec(std::vector<double>(rt.begin(), rt.end()))); g.nontrivial(rk.size() * rt.size() > 1); Surf s(k); std::unique_ptr<Tape_> tape(new Tape_); Number_::SetTape(*tape); RiskView_<Number_> rv(rk, rt); Number_ y = s.LocalVol(K, T, &rv) * 1.0; double base = s.LocalVol(K, T); CHECK(std::fabs(y.value() - base) <= 1e-6 * base, "value " << y.value() << ", expected " << base); y.PropagateToStart(); double h = 2e-3 * std::sqrt(k.a), most = 1, sum = 0; std::vector<std::pair<double, double>> c; for (size_t i = 0; i < rk.size(); ++i) for (size_t j = 0; j < rt.size(); ++j) { RiskView_<double> u(rk, rt), d(rk, rt); u.Bump((int)i, (int)j, h); d.Bump((int)i, (int)j, -h); double fd = (s.LocalVol(K, T, &u) - s.LocalVol(K, T, &d)) / (2 * h); if (std::isnan(fd)) g.discard(); most = std::max(most, std::fabs(fd)); sum += fd; c.emplace_back(rv.Risks()((int)i, (int)j).Adjoint(), fd); } for (auto& x : c) CHECK(std::fabs(x.first - x.second) <= 0.02 * most, "sensitivity " << x.first << ", by bumping " << x.second);
}
SUB("off-grid", 1000, 20000) { Shape k = shape(g, false); k.spot = 100; if (k.kind == 1 && k.c < 0) k.c = -k.c; Surf s(k); double T = g.uni(0.02, 1), sd = s.Call(100.0, T) * std::sqrt(2 * M_PI); Vector_<> S; int w = g.n(0, 2); if (w != 1) S.push_back(100 - 2.6 * sd); if (w != 0) S.push_back(100 + 2.6 * sd); if (S[0] <= 0) g.discard(); SHOW(show(k) << " T " << T << " spots " << pbt::vec(std::vector<double>(S.begin(), S.end()))); g.nontrivial(); bool ok = true; Vector_<> out((int)S.size()); try { DupireCalibMaturity(s, T, S.begin(), S.end(), out.begin()); } catch (const std::exception&) { ok = false; } CHECK(!ok, "a grid without spots near the money is accepted"); }
