#include <engine.hpp>
#include <dal/platform/platform.hpp>
#include <dal/math/operators.hpp>
#include <dal/math/specialfunctions.hpp>
#include <dal/math/ndarray.hpp>
#include <dal/math/matrix/squarematrix.hpp>
#include <dal/utilities/noncopyable.hpp>
#include <bitset>
#include <dal/math/pde/pde.hpp>
#include <dal/math/pde/fd1d.hpp>
#include <dal/math/pde/finitedifference.hpp>
#include <dal/math/pde/meshers/uniform1dmesher.hpp>
#include <dal/math/pde/meshers/concentrating1dmesher.hpp>
#include <memory>
using namespace Dal;
PROPERTY_DEF("P16", "Random uniform and concentrating meshes (2 to 60 points, with and without the concentration point on the mesh, at or near an end), random coordinate maps, random drift, variance, discount rate and time step vectors and theta in [0,1]; the roll-back step is compared with a dense solve of the theta scheme, difference operators with exact derivatives of quadratics, "
  "and whole roll-backs with closed-form Black prices. Non-trivial: at least 5 mesh points and non-zero diffusion.")
namespace pbt { std::vector<std::string> ASSUMPTIONS = {"mesh widths and coefficients of moderate size (condition of the implicit system below about 1e8)", "the Black comparison allows the discretisation error of a 200 by 60 grid"}; void globalInit() {} }
typedef std::vector<double> V; typedef std::vector<V> M;
static std::unique_ptr<FDM1DMesher_> mesh(pbt::G& g, int n, double* lo, double* hi, std::string* d) {
    double a = g.uni(-5, 5), b = a + g.logUni(0.1, 20); *lo = a; *hi = b;
    if (g.b()) { *d = "uniform"; return std::unique_ptr<FDM1DMesher_>(new Uniform1DMesher_(a, b, n)); }
    double c = g.chance(15) ? a : g.chance(15) ? b : g.uni(a, b), den = g.logUni(0.02, 5); bool req = g.b(); *d = "concentrating at " + pbt::str(c) + " density " + pbt::str(den) + (req ? " on mesh" : ""); return std::unique_ptr<FDM1DMesher_>(new Concentrating1dMesher_(a, b, n, std::make_pair(c, den), req)); }
SUB("meshes", 40000, 800000) {
    int n = g.n(2, 60); double a = g.uni(-5, 5), b = a + g.logUni(1e-3, 100); bool uni = g.chance(35), req = g.b(); double c = g.chance(10) ? a : g.chance(10) ? b : g.chance(10) ? a + (b - a) * 1e-3 : g.uni(a, b), den = g.logUni(0.02, 5); SHOW("n " << n << " [" << pbt::dbl(a) << "," << pbt::dbl(b) << "]" << (uni ? " uniform" : " concentrating") << " c " << pbt::dbl(c) << " density " << den << " required " << req); if (n >= 5) g.nontrivial();
    std::unique_ptr<FDM1DMesher_> m; if (uni) m.reset(new Uniform1DMesher_(a, b, n)); else if (!req && g.b()) m.reset(new Concentrating1dMesher_(a, b, n, std::make_pair(c, den))); else m.reset(new Concentrating1dMesher_(a, b, n, std::make_pair(c, den), req));
    CHECK(m->Size() == n && (int)m->Locations().size() == n, "size"); CHECK(m->Location(0) == a && m->Location(n - 1) == b, "ends"); double s = b - a, best = 1e300; for (int i = 0; i < n; ++i) { CHECK(m->Location(i) == m->Locations()[i], "location"); best = std::min(best, std::fabs(m->Location(i) - c)); if (i) { double h = m->Location(i) - m->Location(i - 1); CHECK(h > 0, "mesh not increasing at " << i); CHECK(std::fabs(m->DMinus(i) - h) <= 1e-9 * s, "DMinus " << i); CHECK(std::fabs(m->DPlus(i - 1) - h) <= 1e-9 * s, "DPlus " << i - 1); if (uni) CHECK(std::fabs(h - s / (n - 1)) <= 1e-9 * s, "uniform spacing " << h); } }
    if (!uni && req && n >= 3) CHECK(best <= 1e-8 * s, "the required point is not on the mesh, off by " << best);
    if (!uni && n >= 8 && den < 0.1 && c > a + 0.2 * s && c < b - 0.2 * s && !req) { int k = 0; for (int i = 1; i + 2 < n; ++i) if (std::fabs(m->Location(i) - c) < std::fabs(m->Location(k) - c)) k = i; double near = m->DPlus(k), end = std::max(m->DPlus(0), m->DPlus(n - 2)); CHECK(near < end, "spacing near the concentration point " << near << " not finer than at the ends " << end); }
    MUST_THROW(Uniform1DMesher_(b, a, n), "reversed range"); MUST_THROW(Concentrating1dMesher_(a, b, n, std::make_pair(b + 1, den)), "point outside"); MUST_THROW(Concentrating1dMesher_(a, b, n, std::make_pair(c, -den)), "negative density");
}
SUB("coordinate-map", 30000, 500000) {
    double w = g.logUni(1e-2, 100), r = g.chance(20) ? 1.0 : g.logUni(1.0001, 100); SHOW("width " << w << " range " << r); if (r > 1) g.nontrivial(); std::unique_ptr<PDE::CoordinateMap_> m(r == 1.0 && g.b() ? PDE::NewIdentityMap() : PDE::NewSinhMap(w, r)); double y = g.uni(-3, 3) * w / std::max(1.0, std::sqrt(r * r - 1)), d, dd, x = (*m)(y, &d, &dd); SHOW("y " << pbt::dbl(y));
    CHECK((*m)(y) == x, "same value without derivatives"); CHECK(std::fabs(m->Y(x) - y) <= 1e-9 * (std::fabs(y) + 1e-3 * w), "inverse " << m->Y(x)); double h = 1e-4 * w / std::max(1.0, std::sqrt(r * r - 1)), dp, dm, xp = (*m)(y + h, &dp), xm = (*m)(y - h, &dm); CHECK(std::fabs((xp - xm) / (2 * h) - d) <= 1e-6 * (1 + std::fabs(d)), "first derivative " << d); CHECK(std::fabs((dp - dm) - dd * 2 * h) <= 1e-6 * (1 + std::fabs(dd * 2 * h)) * (dp + dm), "second derivative " << dd); CHECK(d >= 1.0, "slope below one");
    double e, at = m->Y(w); (*m)(at, &e); CHECK(std::fabs(e - r) <= 1e-6 * r, "slope at the width is " << e << ", asked for " << r); CHECK((*m)(0.0) == 0.0, "origin"); CHECK((*m)(-y) == -x, "odd"); MUST_THROW(PDE::NewSinhMap(-w, r), "negative width"); MUST_THROW(PDE::NewSinhMap(w, 0.5), "range below one");
}
SUB("difference-operators", 30000, 600000) {
    int n = g.n(3, 40); double lo, hi; std::string d; auto m = mesh(g, n, &lo, &hi, &d); double c0 = g.uni(-2, 2), c1 = g.uni(-2, 2), c2 = g.uni(-2, 2); SHOW("n " << n << " [" << lo << "," << hi << "] " << d << " quadratic " << c0 << " " << c1 << " " << c2); if (n >= 5) g.nontrivial();
    std::unique_ptr<Sparse::TriDiagonal_> dx(PDE::Dx(*m)), dxx(PDE::Dxx(*m)); CHECK(dx->Size() == n && dxx->Size() == n, "size"); Vector_<> f(n), o, oo; double hmin = 1e300, sc = 1; for (int i = 0; i < n; ++i) { double x = m->Location(i) - lo; f[i] = c0 + c1 * x + c2 * x * x; sc = std::max(sc, std::fabs(f[i])); if (i) hmin = std::min(hmin, m->Location(i) - m->Location(i - 1)); } dx->MultiplyLeft(f, &o); dxx->MultiplyLeft(f, &oo);
    for (int i = 0; i < n; ++i) { double x = m->Location(i) - lo; bool in = i > 0 && i < n - 1; double w = in ? c1 + 2 * c2 * x : 0, ww = in ? 2 * c2 : 0; CHECK(std::fabs(o[i] - w) <= 1e-11 * sc / hmin + 1e-9, "first derivative at " << i << ": " << o[i] << " expected " << w); CHECK(std::fabs(oo[i] - ww) <= 1e-11 * sc / hmin / hmin + 1e-9, "second derivative at " << i << ": " << oo[i] << " expected " << ww); }
    Uniform1DMesher_ two(0, 1, 2); MUST_THROW(PDE::Dx(two), "two points"); MUST_THROW(PDE::Dxx(two), "two points");
}
static V solve(M a, V b) { int n = (int)b.size(); for (int i = 0; i < n; ++i) { int p = i; for (int k = i + 1; k < n; ++k) if (std::fabs(a[k][i]) > std::fabs(a[p][i])) p = k; std::swap(a[i], a[p]); std::swap(b[i], b[p]); for (int k = i + 1; k < n; ++k) { double f = a[k][i] / a[i][i]; if (f != 0) { for (int j = i; j < n; ++j) a[k][j] -= f * a[i][j]; b[k] -= f * b[i]; } } } for (int i = n - 1; i >= 0; --i) { for (int j = i + 1; j < n; ++j) b[i] -= a[i][j] * b[j]; b[i] /= a[i][i]; } return b; }
SUB("theta-scheme", 15000, 300000) {
    int n = g.n(3, 20); double lo, hi; std::string d; auto m = mesh(g, n, &lo, &hi, &d); V mu(n), var(n), r(n), f(n); double h = (hi - lo) / (n - 1); for (int i = 0; i < n; ++i) { var[i] = g.chance(10) ? 0.0 : g.uni(0.01, 2) * h; mu[i] = g.chance(20) ? 0.0 : g.uni(-0.3, 0.3) * var[i]; r[i] = g.chance(20) ? 0.0 : g.uni(-0.02, 0.1); f[i] = g.uni(-3, 3); }
    double theta = g.chance(25) ? 0.0 : g.chance(25) ? 1.0 : g.chance(25) ? 0.5 : g.u01(); double dt = g.logUni(1e-3, 0.5); SHOW("n " << n << " [" << lo << "," << hi << "] " << d << " theta " << theta << " dt " << dt << " mu " << pbt::vec(mu) << " var " << pbt::vec(var) << " r " << pbt::vec(r) << " f " << pbt::vec(f)); if (n >= 5) g.nontrivial();
    auto mk = [](const V& v) { return Vector_<>(v.begin(), v.end()); }; PDE::FD1D_ fd(*m); CHECK(fd.X() == m->Locations(), "mesh"); fd.Init(); fd.Mu() = mk(mu); fd.Var() = mk(var); fd.R() = mk(r); Vector_<> res = mk(f); V want = f; int steps = g.n(1, 3);
    M A(n, V(n, 0.0)); for (int i = 1; i + 1 < n; ++i) { double l = m->Location(i) - m->Location(i - 1), u = m->Location(i + 1) - m->Location(i); A[i][i - 1] = mu[i] * (-u / (l * (l + u))) + var[i] / (l * (l + u)); A[i][i + 1] = mu[i] * (l / (u * (l + u))) + var[i] / (u * (l + u)); A[i][i] = mu[i] * (u - l) / (l * u) - var[i] / (l * u) - r[i]; }
    double sc = 1; for (int s = 0; s < steps; ++s) { fd.RollBwd(dt, theta, res); V b(n); M I(n, V(n, 0.0)); for (int i = 0; i < n; ++i) { b[i] = want[i]; for (int j = 0; j < n; ++j) { b[i] += dt * (1 - theta) * A[i][j] * want[j]; I[i][j] = (i == j) - dt * theta * A[i][j]; } } want = theta != 0 ? solve(I, b) : b; for (double x : b) sc = std::max(sc, std::fabs(x)); for (double x : want) sc = std::max(sc, std::fabs(x)); }
    CHECK((int)res.size() == n, "size"); if (!(sc < 1e6)) g.discard(); for (int i = 0; i < n; ++i) CHECK(std::fabs(res[i] - want[i]) <= 1e-6 * sc, "value " << i << " " << res[i] << " expected " << want[i]); CHECK(res[0] == f[0] || std::fabs(res[0] - f[0]) < 1e-9, "lower boundary moved"); CHECK(std::fabs(res[n - 1] - f[n - 1]) < 1e-9, "upper boundary moved"); CHECK(fd.Mu() == mk(mu) && fd.Var() == mk(var) && fd.R() == mk(r), "coefficients changed");
}
SUB("black-by-rollback", 150, 3000) {   // European call or put on log-spot
    double s = 100, vol = g.uni(0.1, 0.5), t = g.uni(0.2, 2), rate = g.uni(-0.02, 0.08), k = s * std::exp(g.uni(-1, 1) * vol * std::sqrt(t)), half = 5 * vol * std::sqrt(t); bool call = g.b(); double theta = g.b() ? 0.5 : 1.0; int n = 201, nt = 60; SHOW("vol " << vol << " T " << t << " rate " << rate << " strike " << k << (call ? " call" : " put") << " theta " << theta); g.nontrivial(); double x0 = std::log(s); bool uni = g.b();
    std::unique_ptr<FDM1DMesher_> m; if (uni) m.reset(new Uniform1DMesher_(x0 - half, x0 + half, n)); else m.reset(new Concentrating1dMesher_(x0 - half, x0 + half, n, std::make_pair(x0, 0.3), true)); PDE::FD1D_ fd(*m); fd.Init(); fd.Mu() = Vector_<>(n, rate - 0.5 * vol * vol); fd.Var() = Vector_<>(n, vol * vol); fd.R() = Vector_<>(n, rate); Vector_<> f(n); for (int i = 0; i < n; ++i) f[i] = std::max((call ? 1 : -1) * (std::exp(m->Location(i)) - k), 0.0); for (int i = 0; i < nt; ++i) fd.RollBwd(t / nt, i < 4 ? 1.0 : theta, f);
    int j = 0; for (int i = 0; i < n; ++i) if (std::fabs(m->Location(i) - x0) < std::fabs(m->Location(j) - x0)) j = i; double S = std::exp(m->Location(j)), F = S * std::exp(rate * t), v = vol * std::sqrt(t), dp = std::log(F / k) / v + 0.5 * v; auto N = [](double z) { return 0.5 * std::erfc(-z / std::sqrt(2.0)); }; double w = std::exp(-rate * t) * (call ? F * N(dp) - k * N(dp - v) : k * N(v - dp) - F * N(-dp)); CHECK(std::fabs(f[j] - w) <= 0.004 * s * std::max(1.0, v), "roll-back " << f[j] << " Black " << w);
}
