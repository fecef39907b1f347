#include <engine.hpp>
#include <dal/platform/platform.hpp>
#include <dal/math/operators.hpp>
#include <dal/math/vectors.hpp>
#include <dal/math/matrix/matrixs.hpp>
#include <dal/math/interp/interp.hpp>
#include <dal/math/interp/interp2d.hpp>
#include <dal/math/interp/interpcubic.hpp>
#include <memory>
using namespace Dal;
PROPERTY_DEF("P11", "Random increasing knots (1 to 12, spacings over six decades, occasional repeated abscissae for the linear kind), random ordinates, and query points at, next to, between and outside the knots; linear and bilinear values are compared "
  "with direct formulas, cubic splines with an independent dense solve of the spline equations. Non-trivial: a query strictly between two different knots of an interpolator with at least 3 knots.")
namespace pbt { std::vector<std::string> ASSUMPTIONS = {"knots less than 1e-8 apart are out of scope (the linear interpolator treats points within 2.2e-16 of a knot as the knot)", "the spline comparison uses relative tolerance 1e-6"}; void globalInit() {} }
typedef std::vector<double> V;
static V knots(pbt::G& g, int n) { V x(n); double s = g.pick(std::vector<double>{1, 1, 100, 0.01}); x[0] = g.chance(30) ? 0 : g.uni(-3, 3) * s; for (int i = 1; i < n; ++i) x[i] = x[i - 1] + s * (g.b() ? g.n(1, 3) : g.logUni(1e-2, 10)); return x; }
static V vals(pbt::G& g, int n) { V f(n); for (auto& v : f) v = g.chance(20) ? g.n(-1, 1) : g.uni(-5, 5); return f; }
static Vector_<> mk(const V& v) { return Vector_<>(v.begin(), v.end()); }
static double query(pbt::G& g, const V& x) {
    int n = (int)x.size(), k = g.n(0, 9);
    if (k <= 1) return x[g.n(0, n - 1)];
    if (k == 2) return x[0] - g.logUni(1e-6, 100);
    if (k == 3) return x[n - 1] + g.logUni(1e-6, 100);
    if (k == 4) { double v = x[g.n(0, n - 1)]; return std::nextafter(v, g.b() ? 1e300 : -1e300); }
    if (n == 1) return x[0] + g.uni(-1, 1);
    int i = g.n(0, n - 2); return x[i] + (x[i + 1] - x[i]) * g.u01();
}
static double lin(const V& x, const V& f, double q) {
    int n = (int)x.size(); if (q <= x[0]) return f[0]; if (q >= x[n - 1]) return q > x[n - 1] ? f[n - 1] : NAN;
    for (int i = 0; i + 1 < n; ++i) if (x[i] < q && q < x[i + 1]) { double t = (q - x[i]) / (x[i + 1] - x[i]); return f[i] * (1 - t) + f[i + 1] * t; }
    return NAN;
}
static double scale(const V& f) { double s = 1e-300; for (double v : f) s = std::max(s, std::fabs(v)); return s; }
SUB("linear", 60000, 1500000) {
    int n = g.n(1, 12); V x = knots(g, n); if (n > 2 && g.chance(15)) { int i = g.n(1, n - 1); double d = x[i] - x[i - 1]; for (int j = i; j < n; ++j) x[j] -= d; x[i] = x[i - 1]; g.label("repeated abscissa"); }
    V f = vals(g, n); SHOW("x " << pbt::vec(x) << " f " << pbt::vec(f));
    std::unique_ptr<Interp1_> p; 
    bool dup = false; for (int i = 1; i < n; ++i) if (x[i] == x[i - 1]) dup = true;
    if (!dup && g.b()) { std::map<double, double> m; for (int i = 0; i < n; ++i) m[x[i]] = f[i]; p.reset(new Interp1Linear_("m", m)); } else if (g.b()) p.reset(new Interp1Linear_("n", mk(x), mk(f))); else p.reset(Interp::NewLinear("n", mk(x), mk(f)));
    double sc = scale(f);
    for (int k = 0; k < 6; ++k) {
        double q = query(g, x); double v = (*p)(q); SHOW("q " << pbt::dbl(q));
        CHECK(p->IsInBounds(q), "linear interpolation is defined everywhere");
        std::vector<double> at; for (int i = 0; i < n; ++i) if (x[i] == q) at.push_back(f[i]);
        if (!at.empty()) { bool ok = false; for (double a : at) if (a == v) ok = true; CHECK(ok, "at the knot " << q << " gives " << v); continue; }
        double w = lin(x, f, q); CHECK(std::fabs(v - w) <= 1e-12 * sc, "at " << pbt::dbl(q) << " gives " << pbt::dbl(v) << " expected " << pbt::dbl(w));
        if (q < x[0]) CHECK(v == f[0], "left extrapolation"); if (q > x[n - 1]) CHECK(v == f[n - 1], "right extrapolation");
        if (n >= 3 && q > x[0] && q < x[n - 1]) g.nontrivial();
    }
}
SUB("bilinear", 40000, 1000000) {
    int n = g.n(1, 6), m = g.n(1, 6); V x = knots(g, n), y = knots(g, m); std::vector<V> f(n); Matrix_<> F(n, m); double sc = 1e-300; for (int i = 0; i < n; ++i) { f[i] = vals(g, m); sc = std::max(sc, scale(f[i])); for (int j = 0; j < m; ++j) F(i, j) = f[i][j]; }
    SHOW("x " << pbt::vec(x) << " y " << pbt::vec(y)); for (auto& r : f) SHOW(pbt::vec(r));
    std::unique_ptr<Interp2_> p(g.b() ? Interp::NewLinear2("z", mk(x), mk(y), F) : new Interp2Linear_("z", mk(x), mk(y), F));
    auto clampq = [](const V& k, double q) { return std::min(std::max(q, k.front()), k.back()); };
    for (int k = 0; k < 6; ++k) {
        double qx = query(g, x), qy = query(g, y); double v = (*p)(qx, qy), cx = clampq(x, qx), cy = clampq(y, qy); SHOW("q " << pbt::dbl(qx) << "," << pbt::dbl(qy));
        int i = 0, j = 0; while (i + 2 < n && x[i + 1] <= cx) ++i; while (j + 2 < m && y[j + 1] <= cy) ++j;
        double tx = n > 1 ? (cx - x[i]) / (x[i + 1] - x[i]) : 0, ty = m > 1 ? (cy - y[j]) / (y[j + 1] - y[j]) : 0; int i1 = n > 1 ? i + 1 : i, j1 = m > 1 ? j + 1 : j;
        double w = f[i][j] * (1 - tx) * (1 - ty) + f[i1][j] * tx * (1 - ty) + f[i][j1] * (1 - tx) * ty + f[i1][j1] * tx * ty;
        CHECK(std::fabs(v - w) <= 1e-11 * sc, "at " << pbt::dbl(qx) << "," << pbt::dbl(qy) << " gives " << pbt::dbl(v) << " expected " << pbt::dbl(w)); CHECK(p->IsInBounds(qx, qy), "in bounds");
        if (n >= 3 && m >= 3 && qx > x[0] && qx < x[n - 1] && qy > y[0] && qy < y[m - 1]) g.nontrivial();
    }
    Interp2_& r = *p; CHECK(static_cast<Interp2Linear_&>(r).x() == mk(x) && static_cast<Interp2Linear_&>(r).y() == mk(y), "knots");
}
static V solve(std::vector<V> a, V b) { int n = (int)b.size(); for (int i = 0; i < n; ++i) { int p = i; for (int k = i + 1; k < n; ++k) if (std::fabs(a[k][i]) > std::fabs(a[p][i])) p = k; std::swap(a[i], a[p]); std::swap(b[i], b[p]);
    for (int k = i + 1; k < n; ++k) { double f = a[k][i] / a[i][i]; if (f != 0) { for (int j = i; j < n; ++j) a[k][j] -= f * a[i][j]; b[k] -= f * b[i]; } } }
    for (int i = n - 1; i >= 0; --i) { for (int j = i + 1; j < n; ++j) b[i] -= a[i][j] * b[j]; b[i] /= a[i][i]; } return b; }
// cubic spline: unknown second derivatives m_i; reference solves the textbook equations densely
SUB("cubic-spline", 40000, 1000000) {
    int n = g.n(3, 10); V x(n); double s = g.pick(std::vector<double>{1, 10, 0.1}); x[0] = g.uni(-2, 2) * s; for (int i = 1; i < n; ++i) x[i] = x[i - 1] + s * (g.b() ? 1.0 : g.uni(0.2, 3)); V f = vals(g, n);
    int lo = g.n(1, 3), ro = g.n(1, 3); double lv = g.chance(30) ? 0 : g.uni(-2, 2), rv = g.chance(30) ? 0 : g.uni(-2, 2); bool poly = g.chance(40); V c(4);
    if (poly) { g.label("cubic polynomial"); for (auto& k : c) k = g.uni(-1, 1); auto P = [&](double t, int d) { double u = t / s; return d == 0 ? c[0] + u * (c[1] + u * (c[2] + u * c[3])) : d == 1 ? (c[1] + u * (2 * c[2] + 3 * u * c[3])) / s : d == 2 ? (2 * c[2] + 6 * u * c[3]) / s / s : 6 * c[3] / s / s / s; };
        for (int i = 0; i < n; ++i) f[i] = P(x[i], 0); lv = P(x[0], lo); rv = P(x[n - 1], ro); }
    if (lo == 3 && ro == 3) { g.label("both third derivatives"); }
    SHOW("x " << pbt::vec(x) << " f " << pbt::vec(f) << " lhs " << lo << ":" << lv << " rhs " << ro << ":" << rv);
    std::unique_ptr<Interp1_> p(Interp::NewCubic("c", mk(x), mk(f), Interp::Boundary_(lo, lv), Interp::Boundary_(ro, rv)));
    std::vector<V> a(n, V(n, 0.0)); V b(n, 0.0);
    auto h = [&](int i) { return x[i + 1] - x[i]; }; auto sl = [&](int i) { return (f[i + 1] - f[i]) / h(i); };
    if (lo == 1) { a[0][0] = h(0) / 3; a[0][1] = h(0) / 6; b[0] = sl(0) - lv; } else if (lo == 2) { a[0][0] = 1; b[0] = lv; } else { a[0][0] = -1 / h(0); a[0][1] = 1 / h(0); b[0] = lv; }
    for (int i = 1; i < n - 1; ++i) { a[i][i - 1] = h(i - 1) / 6; a[i][i] = (h(i - 1) + h(i)) / 3; a[i][i + 1] = h(i) / 6; b[i] = sl(i) - sl(i - 1); }
    int e = n - 1; if (ro == 1) { a[e][e] = h(e - 1) / 3; a[e][e - 1] = h(e - 1) / 6; b[e] = rv - sl(e - 1); } else if (ro == 2) { a[e][e] = 1; b[e] = rv; } else { a[e][e] = 1 / h(e - 1); a[e][e - 1] = -1 / h(e - 1); b[e] = rv; }
    V m = solve(a, b); double sc = scale(f); for (int i = 0; i < n; ++i) sc = std::max(sc, std::fabs(m[i]) * s * s);
    for (int i = 0; i < n; ++i) { CHECK((*p)(x[i]) == f[i], "knot " << x[i] << " gives " << (*p)(x[i])); CHECK(p->IsInBounds(x[i]), "knots are in bounds"); }
    CHECK(!p->IsInBounds(x[0] - s * 1e-9 - 1e-9) && !p->IsInBounds(x[e] + s * 1e-9 + 1e-9), "outside the knots is out of bounds");
    for (int k = 0; k < 8; ++k) {
        int i = g.n(0, n - 2); double q = x[i] + h(i) * g.u01(); if (k == 7) { bool l = g.b(); q = l ? x[0] - h(0) * g.u01() : x[e] + h(e - 1) * g.u01(); i = l ? 0 : e - 1; }   // continuing the end cubic
        if (q != x[i]) g.nontrivial(); double t = q - x[i], H = h(i);
        double w = f[i] + t * (sl(i) - H * (2 * m[i] + m[i + 1]) / 6) + t * t * m[i] / 2 + t * t * t * (m[i + 1] - m[i]) / (6 * H);
        double v = (*p)(q); CHECK(std::fabs(v - w) <= 1e-6 * sc, "at " << pbt::dbl(q) << " gives " << pbt::dbl(v) << " expected " << pbt::dbl(w));
    }
}
SUB("bad-knots-refused", 15000, 300000) {
    int n = g.n(3, 8); V x = knots(g, n), f = vals(g, n), y = knots(g, n); int kind = g.n(0, 6); SHOW("kind " << kind << " x " << pbt::vec(x)); g.nontrivial();
    V bad = x; int i = g.n(1, n - 1); std::swap(bad[i], bad[i - 1]); V dup = x; dup[i] = dup[i - 1]; V sh(f.begin(), f.end() - 1); Matrix_<> F(n, n), S(n, n - 1), R(n - 1, n);
    Interp::Boundary_ b(2, 0.0);
    auto cubic = [&](const V& X, const V& Y, Interp::Boundary_ l, Interp::Boundary_ r) { delete Interp::NewCubic("c", mk(X), mk(Y), l, r); };
    switch (kind) {
    case 0: MUST_THROW(Interp1Linear_("l", mk(bad), mk(f)), "decreasing knots"); MUST_THROW(cubic(bad, f, b, b), "decreasing spline knots"); break;
    case 1: MUST_THROW(Interp1Linear_("l", mk(x), mk(sh)), "sizes"); MUST_THROW(cubic(x, sh, b, b), "spline sizes"); break;
    case 2: MUST_THROW(cubic(dup, f, b, b), "repeated spline knots"); break;
    case 3: { int o = g.pick(std::vector<int>{0, 4, -1, 7}); MUST_THROW(cubic(x, f, Interp::Boundary_(o, 0), b), "left boundary order " << o); MUST_THROW(cubic(x, f, b, Interp::Boundary_(o, 0)), "right boundary order " << o); break; }
    case 4: MUST_THROW(Interp2Linear_("l", mk(bad), mk(y), F), "decreasing x"); MUST_THROW(Interp2Linear_("l", mk(x), mk(bad), F), "decreasing y"); break;
    case 5: MUST_THROW(Interp2Linear_("l", mk(x), mk(y), S), "columns"); MUST_THROW(Interp2Linear_("l", mk(x), mk(y), R), "rows"); break;
    default: { V two(x.begin(), x.begin() + g.n(1, 2)); V ftwo(f.begin(), f.begin() + two.size()); MUST_THROW(cubic(two, ftwo, b, b), "fewer than three spline knots"); }
    }
}
