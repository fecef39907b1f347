#include <engine.hpp>
#include <dal/platform/platform.hpp>
#include <dal/math/operators.hpp>
#include <dal/math/rootfind.hpp>
#include <dal/math/smooth.hpp>
#include <dal/math/matrix/matrixs.hpp>
#include <dal/math/matrix/squarematrix.hpp>
#include <dal/math/matrix/sparse.hpp>
#include <dal/math/matrix/cholesky.hpp>
#include <dal/math/matrix/banded.hpp>
#include <dal/math/optimization/underdetermined.hpp>
#include <dal/math/cell.hpp>
#include <dal/utilities/dictionary.hpp>
#include <dal/utilities/exceptions.hpp>
#include <functional>
#include <memory>
using namespace Dal;
PROPERTY_DEF("P14", "Random functions with a root (lines, cubics, exponentials, arctangents, steps, steep and flat ones, increasing and decreasing) with random brackets, guesses, steps and tolerances; random underdetermined linear and mildly nonlinear systems with positive definite weights; "
  "random smoothing problems. Oracles: the convergence test itself re-evaluated, a bracket tracked by the harness, dense Lagrange solutions, and the normal equations of the smoother. Non-trivial: more than three function evaluations, or at least two unknowns with a constraint.")
namespace pbt { std::vector<std::string> ASSUMPTIONS = {"the hunting finder is given monotone functions whose slope does not vanish between the guess and the root", "Underdetermined::Approximate is judged on linear systems, within its own conjugate-gradient tolerance (1e-5 relative plus the square root of the dimension)"}; void globalInit() {} }
typedef std::vector<double> V; typedef std::vector<V> M;
static std::function<double(double)> func(pbt::G& g, double root, std::string* d, bool hunt) {
    double a = (g.b() ? 1 : -1) * g.logUni(0.05, 20); int k = g.n(0, hunt ? 3 : 5); *d = std::string("kind ") + char('0' + k) + " slope " + pbt::str(a);
    switch (k) { case 0: return [=](double x) { return a * (x - root); }; case 1: return [=](double x) { double t = x - root; return a * (t + 0.2 * t * t * t); }; case 2: return [=](double x) { return a * std::sinh(std::max(-300.0, std::min(300.0, x - root))); }; case 3: return [=](double x) { double t = x - root; return a * (t + 0.5 * std::sin(t)); };
    case 4: return [=](double x) { return a * std::atan(5 * (x - root)); }; default: return [=](double x) { return x < root ? -a : a; }; }
}
SUB("bracketed-brent", 30000, 800000) {
    double root = g.uni(-10, 10), lo = root - g.logUni(1e-3, 50), hi = root + g.logUni(1e-3, 50); std::string d; auto f = func(g, root, &d, false); double xt = g.logUni(1e-12, 1e-3), ft = g.chance(40) ? 0.0 : g.logUni(1e-12, 1e-3), tol = g.pick(std::vector<double>{1e-15, 1e-10, 1e-8});
    SHOW("root " << pbt::dbl(root) << " [" << pbt::dbl(lo) << "," << pbt::dbl(hi) << "] " << d << " tol " << xt << " " << ft);
    std::pair<double, double> L(lo, f(lo)), H(hi, f(hi)); if (g.b()) std::swap(L, H); BracketedBrent_ b(L, H, tol); Converged_ done(xt, ft); double a = lo, c = hi, w = b.BracketWidth(); CHECK(std::fabs(w - (hi - lo)) < 1e-12 * (1 + std::fabs(lo) + std::fabs(hi)), "initial bracket width");
    int n = 0; for (;; ++n) { CHECK(n < 400, "no convergence after 400 evaluations, bracket " << b.BracketWidth()); double x = b.NextX(), y = f(x); CHECK(x >= std::min(a, c) - 1e-12 * (1 + std::fabs(a)) && x <= std::max(a, c) + 1e-12 * (1 + std::fabs(c)), "evaluation at " << pbt::dbl(x) << " outside the bracket [" << pbt::dbl(a) << "," << pbt::dbl(c) << "]");
        bool fin = done(b, y); if ((y < 0) == (f(a) < 0)) a = x; else c = x; CHECK(b.BracketWidth() <= w * (1 + 1e-12), "bracket grew"); w = b.BracketWidth();
        bool want = std::fabs(y) < ft || b.BracketWidth() < xt; CHECK(fin == want, "convergence test"); if (fin || y == 0) { bool ok = std::fabs(y) <= ft || y == 0 || std::fabs(x - root) <= xt * (1 + 1e-9) + 1e-14 * std::fabs(root); CHECK(ok, "converged at " << pbt::dbl(x) << " with value " << y); break; } }
    if (n > 3) g.nontrivial();
    double bad = g.uni(0.1, 3); MUST_THROW(BracketedBrent_(std::make_pair(lo, bad), std::make_pair(hi, bad * 2), tol), "no sign change");
}
SUB("hunting-brent", 30000, 800000) {
    double root = g.uni(-20, 20), guess = g.chance(10) ? root : g.uni(-20, 20), step = g.chance(50) ? 0.0 : g.logUni(1e-3, 5); if (g.chance(20)) { root = g.n(-40, 40) * 0.25; step = g.of({1, 2, 4}) * 0.25; guess = root + g.n(-1, 1) * step; }   // a trial may land on the root
    std::string d; auto f = func(g, root, &d, true); double xt = g.logUni(1e-10, 1e-4), ft = g.chance(30) ? 0.0 : g.logUni(1e-10, 1e-4); SHOW("root " << pbt::dbl(root) << " guess " << pbt::dbl(guess) << " step " << step << " " << d);
    Brent_ b = step > 0 ? Brent_(guess, EPSILON, step) : Brent_(guess); Converged_ done(xt, ft); CHECK(b.NextX() == guess, "first trial is the guess"); CHECK(std::isinf(b.BracketWidth()) || b.BracketWidth() > 1e20, "no bracket yet"); int n = 0;
    for (;; ++n) { CHECK(n < 300, "no convergence"); double x = b.NextX(), y = f(x); if (done(b, y)) { CHECK(std::fabs(y) <= ft || std::fabs(x - root) <= xt * 1.001 + 1e-13 * (1 + std::fabs(root)), "converged at " << pbt::dbl(x) << " value " << y); break; } }
    if (n > 3) g.nontrivial();
}
static M spd(pbt::G& g, int n) { M l(n, V(n, 0.0)); for (int i = 0; i < n; ++i) { for (int j = 0; j < i; ++j) l[i][j] = g.chance(30) ? 0.0 : g.uni(-0.5, 0.5); l[i][i] = g.uni(0.6, 2); } M a(n, V(n, 0.0)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k <= std::min(i, j); ++k) a[i][j] += l[i][k] * l[j][k]; return a; }
static V solve(M a, V b) { int n = (int)b.size(); for (int i = 0; i < n; ++i) { int p = i; for (int k = i + 1; k < n; ++k) if (std::fabs(a[k][i]) > std::fabs(a[p][i])) p = k; std::swap(a[i], a[p]); std::swap(b[i], b[p]);
    for (int k = i + 1; k < n; ++k) { double f = a[k][i] / a[i][i]; for (int j = i; j < n; ++j) a[k][j] -= f * a[i][j]; b[k] -= f * b[i]; } }
    for (int i = n - 1; i >= 0; --i) { for (int j = i + 1; j < n; ++j) b[i] -= a[i][j] * b[j]; b[i] /= a[i][i]; } return b; }
// a Jacobian of the harness's own: what a user with a structured Jacobian supplies
struct Jac : Underdetermined::Jacobian_ { M J; explicit Jac(const M& j) : J(j) {}
    int Rows() const override { return (int)J.size(); } int Columns() const override { return (int)J[0].size(); }
    void DivideRows(const Vector_<>& tol) override { for (size_t i = 0; i < J.size(); ++i) for (auto& x : J[i]) x /= tol[i]; }
    Vector_<> MultiplyLeft(const Vector_<>& dx) const override { Vector_<> r(J.size(), 0.0); for (size_t i = 0; i < J.size(); ++i) for (size_t k = 0; k < J[i].size(); ++k) r[i] += J[i][k] * dx[k]; return r; }
    Vector_<> MultiplyRight(const Vector_<>& t) const override { Vector_<> r(J[0].size(), 0.0); for (size_t i = 0; i < J.size(); ++i) for (size_t k = 0; k < J[i].size(); ++k) r[k] += J[i][k] * t[i]; return r; }
    void QForm(const Sparse::SymmetricDecomposition_& w, SquareMatrix_<>* form) const override { int m = Rows(); form->Resize(m); for (int j = 0; j < m; ++j) { Vector_<> b(J[j].begin(), J[j].end()), y(J[j].size()); w.Solve(b, &y); for (int i = 0; i < m; ++i) { double v = 0; for (size_t k = 0; k < J[i].size(); ++k) v += J[i][k] * y[k]; (*form)(i, j) = v; } } }
    void SecantUpdate(const Vector_<>& dx, const Vector_<>& df) override { double x2 = 0; for (double x : dx) x2 += x * x; if (!(x2 > 0)) return; auto p = MultiplyLeft(dx); for (size_t i = 0; i < J.size(); ++i) for (size_t k = 0; k < J[i].size(); ++k) J[i][k] += (df[i] - p[i]) / x2 * dx[k]; } };
struct Fn : Underdetermined::Function_ { M J; V c; double nl; mutable int calls = 0; int mode = 0; double bump = 1e-4; // mode: 0 bumped, 1 dense exact gradient, 2 own Jacobian
    double BumpSize() const override { return bump; }
    Vector_<> F(const Vector_<>& x) const override { ++calls; Vector_<> r(J.size()); for (size_t i = 0; i < J.size(); ++i) { double s = -c[i]; for (size_t k = 0; k < x.size(); ++k) s += J[i][k] * (x[k] + nl * std::sin(x[k])); r[i] = s; } return r; }
    M grad(const Vector_<>& x) const { M r = J; for (auto& row : r) for (size_t k = 0; k < x.size(); ++k) row[k] *= 1 + nl * std::cos(x[k]); return r; }
    Underdetermined::Jacobian_* Gradient(const Vector_<>& x, const Vector_<>&) const override { return mode == 2 ? new Jac(grad(x)) : nullptr; }
    void Gradient(const Vector_<>& x, const Vector_<>& f, Matrix_<>* j) const override { if (mode == 0) return Underdetermined::Function_::Gradient(x, f, j); M r = grad(x); j->Resize((int)r.size(), (int)x.size()); for (size_t i = 0; i < r.size(); ++i) for (size_t k = 0; k < x.size(); ++k) (*j)(i, k) = r[i][k]; } };
static Underdetermined::Controls_ controls(int ev, int re) { Dictionary_ d; d.Insert("maxEvaluations", Cell_(double(ev))); d.Insert("maxRestarts", Cell_(double(re))); return Underdetermined::Controls_(d); }
static double cond(const M& J) { int m = (int)J.size(); M q(m, V(m, 0.0)); double tr = 0; for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) { for (size_t k = 0; k < J[i].size(); ++k) q[i][j] += J[i][k] * J[j][k]; if (i == j) tr += q[i][j]; } double mx = 0; for (int i = 0; i < m; ++i) { V e(m, 0.0); e[i] = 1; V s = solve(q, e); for (double x : s) mx = std::max(mx, std::fabs(x)); } return tr * mx; }
SUB("underdetermined", 20000, 400000) {
    int n = g.n(1, 7), m = g.n(1, std::min(n, 4)); Fn f; f.J.assign(m, V(n)); for (auto& r : f.J) for (auto& x : r) x = g.chance(25) ? 0.0 : g.uni(-2, 2); for (int i = 0; i < m; ++i) f.J[i][i] += g.b() ? 2.5 : -2.5; f.nl = g.chance(60) ? 0.0 : (g.b() ? g.uni(-0.25, 0.25) : g.uni(-0.05, 0.05)); V x0(n); for (auto& x : x0) x = g.uni(-2, 2); f.c.resize(m); for (auto& x : f.c) x = g.uni(-3, 3); f.mode = g.n(0, 2); if (f.nl == 0) f.bump = g.pick(std::vector<double>{1e-4, 1e-3, 1e-2, 1.0}); g.label(f.mode == 0 ? "bumped" : f.mode == 1 ? "dense gradient" : "own Jacobian");
    if (!(cond(f.J) < 1e4)) g.discard(); M w = spd(g, n); Vector_<> tol(m); for (auto& t : tol) t = g.logUni(1e-8, 1e-3); if (g.b()) for (auto& t : tol) t = tol[0]; SquareMatrix_<> W(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) W(i, j) = w[i][j]; std::unique_ptr<Sparse::SymmetricDecomposition_> dec(CholeskyDecomposition(W));
    SHOW("n " << n << " m " << m << " nonlinearity " << f.nl << " tol " << pbt::vec(std::vector<double>(tol.begin(), tol.end())) << " x0 " << pbt::vec(x0)); if (m >= 1 && n >= 2) g.nontrivial(); if (f.nl != 0) g.label("nonlinear");
    Vector_<> guess(x0.begin(), x0.end()); int ev = g.n(1, 3) == 1 ? g.n(1, 12) : 500; auto c = controls(ev, 60); Vector_<> x; bool threw = false; f.calls = 0;
    try { x = Underdetermined::Find(f, guess, tol, *dec, c); } catch (const Exception_&) { threw = true; }
    // one gradient costs n + 1 evaluations of F
    int fc = f.calls; if (threw) { CHECK(f.nl != 0 || ev < 3, "a linear system was not solved"); CHECK(f.nl == 0 || ev < 500 || std::fabs(f.nl) > 0.05 || *MinElement(tol) < 1e-6 || *MinElement(tol) != *MaxElement(tol) || cond(f.J) > 100, "a mildly nonlinear system was not solved in " << fc << " evaluations"); return; }
    CHECK((int)x.size() == n, "size"); Vector_<> r = f.F(x); for (int i = 0; i < m; ++i) CHECK(std::fabs(r[i]) < tol[i], "constraint " << i << " off by " << r[i] << " tolerance " << tol[i]); CHECK(guess == Vector_<>(x0.begin(), x0.end()), "guess modified");
    if (f.nl == 0) { // least move in the W norm:  W (x - x0) = J' lambda, J x = c
        M k(n + m, V(n + m, 0.0)); V b(n + m, 0.0); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) k[i][j] = w[i][j]; for (int i = 0; i < m; ++i) { for (int j = 0; j < n; ++j) { k[n + i][j] = f.J[i][j]; k[j][n + i] = f.J[i][j]; } b[n + i] = f.c[i]; for (int j = 0; j < n; ++j) b[n + i] -= f.J[i][j] * x0[j]; }
        V s = solve(k, b); for (int j = 0; j < n; ++j) CHECK(std::fabs(x[j] - x0[j] - s[j]) <= 1e-5 * (1 + std::fabs(s[j])) + 0.02 * *MaxElement(tol) * cond(f.J), "component " << j << " moved by " << x[j] - x0[j] << ", the least-norm move is " << s[j]); CHECK(fc <= 2 + n + 1 + 2, "linear system took " << fc << " evaluations"); }
}
SUB("approximate", 12000, 300000) {
    int n = g.n(1, 7), m = g.n(1, 6); Fn f; f.J.assign(m, V(n)); for (auto& r : f.J) for (auto& x : r) x = g.chance(25) ? 0.0 : g.uni(-2, 2); f.nl = g.chance(70) ? 0.0 : g.uni(-0.05, 0.05); f.mode = g.n(0, 2); if (f.nl == 0) f.bump = g.pick(std::vector<double>{1e-4, 1e-3, 1e-2}); f.c.resize(m); for (auto& x : f.c) x = g.uni(-3, 3); V x0(n); for (auto& x : x0) x = g.uni(-2, 2);
    int up = g.n(0, std::min(2, n - 1)); std::unique_ptr<Sparse::Square_> W(Sparse::NewBandDiagonal(n, up, up)); M w(n, V(n, 0.0)); for (int i = 0; i < n; ++i) for (int j = std::max(0, i - up); j < i; ++j) w[i][j] = w[j][i] = g.uni(-0.4, 0.4); for (int i = 0; i < n; ++i) { w[i][i] = g.uni(0.2, 3); for (int j = 0; j < n; ++j) if (j != i) w[i][i] += std::fabs(w[i][j]); } for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (std::abs(i - j) <= up) W->Set(i, j, w[i][j]);
    Vector_<> tol(m); double t0 = g.logUni(1e-8, 1e-3); for (auto& t : tol) t = t0; double fit = g.logUni(1e-3, 1e-1); int ev = g.chance(50) ? g.n(1, 15) : g.n(4, 80), re = g.n(1, 12); SHOW("n " << n << " m " << m << " nonlinearity " << f.nl << " mode " << f.mode << " tol " << t0 << " fit " << fit << " evaluations " << ev << " restarts " << re << " x0 " << pbt::vec(x0)); if (n >= 2 && ev > 4) g.nontrivial(); g.label(f.mode == 0 ? "bumped" : f.mode == 1 ? "dense gradient" : "own Jacobian");
    Vector_<> guess(x0.begin(), x0.end()); auto c = controls(ev, re); Vector_<> x = Underdetermined::Approximate(f, guess, tol, fit, *W, c); int fc = f.calls; CHECK((int)x.size() == n, "size"); CHECK(guess == Vector_<>(x0.begin(), x0.end()), "guess modified"); if (f.mode) CHECK(fc <= std::max(ev, 1), fc << " evaluations, " << ev << " allowed"); if (ev <= 3) { CHECK(x == guess, "moved without an evaluation to spare"); return; }
    // minimise (x - x0)' W (x - x0) + m |F / fit|^2
    auto force = [&](const Vector_<>& y, double* size, double* obj) { Vector_<> r = f.F(y); M j = f.grad(y); double s = 0, o = 0; *size = 0; for (double v : r) o += m * v * v / fit / fit; for (int i = 0; i < n; ++i) { double v = 0; for (int k = 0; k < n; ++k) { v += w[i][k] * (y[k] - x0[k]); o += w[i][k] * (y[k] - x0[k]) * (y[i] - x0[i]); } for (int k = 0; k < m; ++k) { double t = j[k][i] * r[k] * m / fit / fit; v += t; *size += std::fabs(t); } s += v * v; } *obj = o; return std::sqrt(s); };
    double z0, z1, o0, o1, f0 = force(guess, &z0, &o0), f1 = force(x, &z1, &o1);
    if (f.nl == 0) CHECK(f1 <= 1.5 * (std::sqrt(double(n)) + 1e-5 * f0) + 1e-8 * z0, "not the regularised fit: gradient of the penalty is " << f1 << " (" << f0 << " at the guess)");
    if (f.nl == 0) CHECK(o1 <= o0 * (1 + 1e-9) + 1e-12, "penalty rose from " << o0 << " to " << o1);
}
SUB("controls", 4000, 60000) {
    Dictionary_ d; int me = g.n(-1, 50), mr = g.n(-1, 20); bool hasE = g.chance(90), hasR = g.chance(90); if (hasE) d.Insert("maxEvaluations", Cell_(double(me))); if (hasR) d.Insert("maxRestarts", Cell_(double(mr))); double rt = 0.4, bt = 0.1, mb = 0.8; int tries = 5; g.nontrivial();
    if (g.b()) { rt = g.uni(-0.2, 1.3); d.Insert("restartTolerance", Cell_(rt)); } if (g.b()) { bt = g.uni(0, 1); d.Insert("backtrackTolerance", Cell_(bt)); } if (g.b()) { mb = g.uni(0, 1.2); d.Insert("maxBacktrack", Cell_(mb)); } if (g.b()) { tries = g.n(1, 9); d.Insert("MAXBACKTRACKTRIES", Cell_(double(tries))); }
    bool ok = hasE && hasR && me > 0 && mr > 0 && rt >= 0 && rt <= 1 && mb > bt && mb < 1; SHOW(me << " " << mr << " " << rt << " " << bt << " " << mb); if (!ok) { MUST_THROW(Underdetermined::Controls_{d}, "invalid controls"); return; }
    Underdetermined::Controls_ c(d); CHECK(c.maxEvaluations_ == me && c.maxRestarts_ == mr && c.restartTolerance_ == rt && c.backtrackTolerance_ == bt && c.maxBacktrack_ == mb && c.maxBacktrackTries_ == tries, "values"); Underdetermined::Controls_ e(c.Data()); CHECK(e.maxEvaluations_ == me && e.maxRestarts_ == mr && e.restartTolerance_ == rt && e.backtrackTolerance_ == bt && e.maxBacktrack_ == mb && e.maxBacktrackTries_ == tries, "data round trip");
}
SUB("smoothing", 40000, 1000000) {
    int n = g.n(2, 12); V x(n), y(n), w(n, 1.0); x[0] = g.uni(-3, 3); for (int i = 1; i < n; ++i) x[i] = x[i - 1] + (g.chance(40) ? 1 : g.logUni(1e-2, 10)); for (auto& v : y) v = g.chance(20) ? g.n(-1, 1) : g.uni(-5, 5); bool hw = g.b(); if (hw) for (auto& v : w) v = g.logUni(0.1, 10); double lam = g.chance(15) ? 0.0 : g.logUni(1e-3, 1e3); if (hw && lam > 0 && g.chance(30)) { int keep = g.n(0, n - 1); for (int i = 0; i < n; ++i) if (i != keep && g.chance(40)) w[i] = 0.0; g.label("zero-weights"); } SHOW("x " << pbt::vec(x) << " y " << pbt::vec(y) << " w " << pbt::vec(w) << " lambda " << lam); if (lam > 0) g.nontrivial();
    auto mk = [](const V& v) { return Vector_<>(v.begin(), v.end()); }; Vector_<> z = hw ? SmoothedVals(mk(x), mk(y), mk(w), lam) : lam == 0 && g.b() ? SmoothedVals(mk(x), mk(y)) : SmoothedVals(mk(x), mk(y), Vector_<>(), lam); CHECK((int)z.size() == n, "size");
    double sz = 0, sy = 0, sc = 1; for (int i = 0; i < n; ++i) { sz += w[i] * z[i]; sy += w[i] * y[i]; sc += w[i] * std::fabs(y[i]); double r = w[i] * (z[i] - y[i]), mg = w[i] * std::fabs(y[i]); if (i) { double c = lam / (x[i] - x[i - 1]); r += c * (z[i] - z[i - 1]); mg += c * (std::fabs(z[i]) + std::fabs(z[i - 1])); } if (i + 1 < n) { double c = lam / (x[i + 1] - x[i]); r += c * (z[i] - z[i + 1]); mg += c * (std::fabs(z[i]) + std::fabs(z[i + 1])); } CHECK(std::fabs(r) <= 1e-8 * (1 + mg), "stationarity at " << i << ": " << r << " z " << z[i]); if (lam == 0) CHECK(std::fabs(z[i] - y[i]) < 1e-12 * (1 + std::fabs(y[i])), "no smoothing"); }
    CHECK(std::fabs(sz - sy) <= 1e-6 * sc, "weighted mean kept"); int k = g.n(1, n - 1); V bad = x; std::swap(bad[k], bad[k - 1]); MUST_THROW(SmoothedVals(mk(bad), mk(y)), "unsorted x"); V sh(y.begin(), y.end() - 1); MUST_THROW(SmoothedVals(mk(x), mk(sh)), "sizes");
}
