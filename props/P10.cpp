#include <engine.hpp>
#include <dal/platform/platform.hpp>
#include <dal/math/vectors.hpp>
#include <dal/math/matrix/matrixs.hpp>
#include <dal/math/matrix/squarematrix.hpp>
#include <dal/math/matrix/banded.hpp>
#include <dal/math/matrix/sparse.hpp>
#include <dal/math/matrix/sparseutils.hpp>
#include <dal/math/matrix/cholesky.hpp>
#include <dal/math/matrix/decompositions.hpp>
#include <dal/math/matrix/decompositionsmisc.hpp>
#include <dal/math/matrix/bcg.hpp>
#include <memory>
using namespace Dal;
PROPERTY_DEF("P10", "Random well-conditioned matrices (tridiagonal, banded, dense symmetric positive definite, lower triangular, diagonal) of size 1 to 12 with zeros, ties and negative off-diagonals; products, solves, "
  "quadratic forms and correlated draws are compared with dense triple loops and with the residual of the equation solved. Non-trivial: size 2 or more with a non-zero off-diagonal element.")
namespace pbt { std::vector<std::string> ASSUMPTIONS = {"matrices to be inverted have condition number below about 1e6 (diagonally dominant or built as L L')", "LowerBandAccumulator_ is not covered"}; void globalInit() {} }
typedef std::vector<std::vector<double>> M;
typedef std::vector<double> V;
static double val(pbt::G& g) { return g.chance(25) ? g.n(-2, 2) : g.uni(-2, 2); }
static V genV(pbt::G& g, int n) { V v(n); for (auto& x : v) x = val(g) * 3; return v; }
static Vector_<> mkv(const V& v) { return Vector_<>(v.begin(), v.end()); }
static V mul(const M& a, const V& x) { V r(a.size(), 0.0); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < x.size(); ++j) r[i] += a[i][j] * x[j]; return r; }
static M tr(const M& a) { M r(a.size() ? a[0].size() : 0, V(a.size())); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[i].size(); ++j) r[j][i] = a[i][j]; return r; }
static V solve(M a, V b) { int n = (int)b.size(); for (int i = 0; i < n; ++i) { int p = i; for (int k = i + 1; k < n; ++k) if (std::fabs(a[k][i]) > std::fabs(a[p][i])) p = k; std::swap(a[i], a[p]); std::swap(b[i], b[p]);
    for (int k = i + 1; k < n; ++k) { double f = a[k][i] / a[i][i]; for (int j = i; j < n; ++j) a[k][j] -= f * a[i][j]; b[k] -= f * b[i]; } }
    for (int i = n - 1; i >= 0; --i) { for (int j = i + 1; j < n; ++j) b[i] -= a[i][j] * b[j]; b[i] /= a[i][i]; } return b; }
static void same(const char* w, const Vector_<>& got, const V& want, double tol = 1e-8) { CHECK(got.size() == want.size(), w << " size " << got.size()); double s = 1; for (double x : want) s = std::max(s, std::fabs(x)); for (size_t i = 0; i < want.size(); ++i) CHECK(std::fabs(got[i] - want[i]) <= tol * s, w << "[" << i << "] " << got[i] << " expected " << want[i]); }
static void decomposition(pbt::G& g, const SquareMatrixDecomposition_& d, const M& a) {
    int n = (int)a.size(); CHECK(d.Size() == n, "Size " << d.Size());
    V x = genV(g, n), b = genV(g, n); Vector_<> X = mkv(x), B = mkv(b);
    auto out = [&] { return g.b() ? Vector_<>(n, 5.0) : Vector_<>(); };   // the result vector may or may not have the right size already
    { auto o = out(); d.MultiplyLeft(X, &o); same("multiply left", o, mul(a, x)); } { auto o = out(); d.MultiplyRight(X, &o); same("multiply right", o, mul(tr(a), x)); }
    { auto o = out(); d.SolveLeft(B, &o); same("solve left", o, solve(a, b), 1e-7); } { auto o = out(); d.SolveRight(B, &o); same("solve right", o, solve(tr(a), b), 1e-7); }
    { auto o = X; d.MultiplyLeft(o, &o); same("multiply left in place", o, mul(a, x)); } { auto o = X; d.MultiplyRight(o, &o); same("multiply right in place", o, mul(tr(a), x)); }
    { auto o = B; d.SolveLeft(o, &o); same("solve left in place", o, solve(a, b), 1e-7); } { auto o = B; d.SolveRight(o, &o); same("solve right in place", o, solve(tr(a), b), 1e-7); }
}
static void correlated(pbt::G& g, const SymmetricMatrixDecomposition_& d, const M& a) {
    int n = (int)a.size(); M c(n, V(n));
    for (int k = 0; k < n; ++k) { Vector_<> e(n + 3, 0.0); e[k] = 1.0; e[n] = 99; Vector_<> o; auto p = d.MakeCorrelated(e.begin(), &o); CHECK((int)o.size() == n, "correlated size"); CHECK(p - e.begin() == d.Rank(), "MakeCorrelated consumed " << (p - e.begin()) << " deviates, rank " << d.Rank()); for (int i = 0; i < n; ++i) c[i][k] = o[i]; }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double s = 0; for (int k = 0; k < n; ++k) s += c[i][k] * c[j][k]; CHECK(std::fabs(s - a[i][j]) <= 1e-7 * (1 + std::fabs(a[i][j])), "covariance of correlated draws at " << i << "," << j << ": " << s << " expected " << a[i][j]); }
    V z = genV(g, n); Vector_<> o, Z = mkv(z); d.MakeCorrelated(Z.begin(), &o); same("linear in the draws", o, mul(c, z));
}
static void qform(pbt::G& g, const Sparse::SymmetricDecomposition_& d, const M& a) {
    int n = (int)a.size(), m = g.chance(25) ? g.n(5, 14) : g.n(1, 4); M J(m); Matrix_<> JJ(m, n); for (int i = 0; i < m; ++i) { J[i] = genV(g, n); for (int k = 0; k < n; ++k) JJ(i, k) = J[i][k]; }
    SquareMatrix_<> q; d.QForm(JJ, &q); CHECK(q.Rows() == m, "QForm size");
    for (int i = 0; i < m; ++i) { V w = solve(a, J[i]); for (int j = 0; j < m; ++j) { double s = 0; for (int k = 0; k < n; ++k) s += w[k] * J[j][k]; CHECK(std::fabs(q(i, j) - s) <= 1e-6 * (1 + std::fabs(s)), "QForm " << i << "," << j << ": " << q(i, j) << " expected " << s); } }
}
static M spd(pbt::G& g, int n, int width) { M l(n, V(n, 0.0)); for (int i = 0; i < n; ++i) { for (int j = std::max(0, i - width); j < i; ++j) l[i][j] = g.chance(20) ? 0.0 : g.uni(-0.5, 0.5); l[i][i] = g.uni(0.7, 2.5); }
    M a(n, V(n, 0.0)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k <= std::min(i, j); ++k) a[i][j] += l[i][k] * l[j][k]; return a; }
static bool offdiag(const M& a) { for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a.size(); ++j) if (i != j && a[i][j] != 0) return true; return false; }
static std::string ms(const M& m) { std::string s; for (auto& r : m) s += pbt::vec(r); return s; }

// a covariance or correlation matrix may be singular (perfectly correlated or unmoving assets): correlated draws stay finite and have that covariance
SUB("semi-definite", 15000, 300000) {
    int n = g.n(1, 7), r = g.n(1, n); M f(n, V(r, 0.0)); bool whole = g.b(); for (auto& row : f) for (auto& x : row) x = whole ? g.n(-2, 2) : g.uni(-1.5, 1.5);
    for (int i = 1; i < n; ++i) if (g.chance(25)) { f[i] = f[g.n(0, i - 1)]; if (g.b()) for (auto& x : f[i]) x = -x; } else if (g.chance(10)) f[i].assign(r, 0.0);
    M a(n, V(n, 0.0)); double tr = 0; for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) for (int k = 0; k < r; ++k) a[i][j] += f[i][k] * f[j][k]; tr += a[i][i]; } SHOW(ms(a)); if (tr < 1e-3) return; if (n > 1 && r < n) g.nontrivial();
    SquareMatrix_<> s(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) s(i, j) = a[i][j]; std::unique_ptr<Sparse::SymmetricDecomposition_> d(CholeskyDecomposition(s)); M c(n, V(n));
    for (int k = 0; k < n; ++k) { Vector_<> e(n, 0.0), o; e[k] = 1.0; d->MakeCorrelated(e.begin(), &o); for (int i = 0; i < n; ++i) { CHECK(std::isfinite(o[i]), "correlated draw " << i << " is " << o[i]); c[i][k] = o[i]; } }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double t = 0; for (int k = 0; k < n; ++k) t += c[i][k] * c[j][k]; CHECK(std::fabs(t - a[i][j]) <= 1e-5 * (1 + tr), "covariance of correlated draws at " << i << "," << j << ": " << t << " expected " << a[i][j]); }
    V x = genV(g, n); Vector_<> o; d->Multiply(mkv(x), &o); V w = mul(a, x); for (int i = 0; i < n; ++i) CHECK(std::fabs(o[i] - w[i]) <= 1e-5 * (1 + tr) * 7, "product [" << i << "] " << o[i] << " expected " << w[i]);
}
SUB("banded-and-tridiagonal", 25000, 600000) {
    int n = g.chance(4) ? g.n(13, 40) : g.n(1, 12), above = g.n(0, 3), below = g.n(0, 3); bool sym = g.chance(50); if (sym) below = above;
    bool tri = above <= 1 && below <= 1; if (tri) above = below = 1;
    std::unique_ptr<Sparse::Square_> m(Sparse::NewBandDiagonal(n, above, below));
    M a; if (sym && !tri) a = spd(g, n, above);
    else { a.assign(n, V(n, 0.0)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { if (j - i > above || i - j > below || i == j) continue; a[i][j] = sym && j < i ? a[j][i] : g.chance(15) ? 0.0 : g.uni(-1, 1); } for (int i = 0; i < n; ++i) { double s = 0; for (int j = 0; j < n; ++j) s += std::fabs(a[i][j]) + std::fabs(a[j][i]); a[i][i] = (g.b() ? 1 : -1) * (s + g.uni(0.2, 2)); } }
    SHOW("above " << above << " below " << below << " A " << ms(a)); if (n > 1 && offdiag(a)) g.nontrivial(); if (!tri) g.label("banded");
    std::vector<std::pair<int, int>> order; for (int i = 0; i < n; ++i) for (int j = std::max(0, i - below); j <= std::min(n - 1, i + above); ++j) order.push_back({i, j});
    g.shuffle(order);
    for (auto& p : order) { double v = a[p.first][p.second]; if (g.b()) m->Set(p.first, p.second, v); else { double h = g.chance(50) ? 0.5 : 0.0; m->Set(p.first, p.second, h); m->Add(p.first, p.second, v - h); a[p.first][p.second] = h + (v - h); } }
    const Sparse::Square_& cm = *m; CHECK(cm.Size() == n, "size");
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { CHECK(cm(i, j) == a[i][j], "element " << i << "," << j << " " << cm(i, j) << " expected " << a[i][j]); if (j - i > above || i - j > below) MUST_THROW(m->Set(i, j, 1.0), "out of band write at " << i << "," << j); }
    bool isSym = true; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (std::fabs(a[i][j] - a[j][i]) > 1e-9) isSym = false;
    bool exact = true; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (a[i][j] != a[j][i]) exact = false;
    if (isSym == exact) CHECK(cm.IsSymmetric() == isSym, "IsSymmetric " << cm.IsSymmetric());
    V x = genV(g, n); Vector_<> o; cm.MultiplyLeft(mkv(x), &o); same("A x", o, mul(a, x)); cm.MultiplyRight(mkv(x), &o); same("x A", o, mul(tr(a), x));
    if (!tri && !isSym) { bool threw = false; try { std::unique_ptr<SquareMatrixDecomposition_> d(cm.Decompose()); } catch (const std::exception&) { threw = true; } CHECK(threw, "decomposed an unsymmetric band matrix"); return; }
    if (isSym != exact || (!tri && !sym)) return;
    std::unique_ptr<SquareMatrixDecomposition_> d(cm.Decompose()); decomposition(g, *d, a);
    std::unique_ptr<Sparse::SymmetricDecomposition_> sd(cm.DecomposeSymmetric()); CHECK((sd != nullptr) == isSym, "symmetric decomposition");
    if (sd) { qform(g, *sd, a); if (!tri) correlated(g, *sd, a); }
}
SUB("dense-cholesky", 25000, 600000) {
    int n = g.n(1, 10); M a = spd(g, n, n); SHOW("A " << ms(a)); if (n > 1 && offdiag(a)) g.nontrivial();
    SquareMatrix_<> s(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) s(i, j) = a[i][j];
    std::unique_ptr<Sparse::SymmetricDecomposition_> d(CholeskyDecomposition(s)); decomposition(g, *d, a); correlated(g, *d, a); qform(g, *d, a);
    { V b = genV(g, n), x = genV(g, n); Vector_<> o; d->Solve(mkv(b), &o); same("Solve", o, solve(a, b), 1e-7); d->Multiply(mkv(x), &o); same("Multiply", o, mul(a, x)); }
    int m = g.n(1, 4); Vector_<Vector_<>> B; std::vector<V> bs; for (int k = 0; k < m; ++k) { bs.push_back(genV(g, n)); B.push_back(mkv(bs.back())); }
    CholeskySolve(&s, &B); for (int k = 0; k < m; ++k) same("CholeskySolve", B[k], solve(a, bs[k]), 1e-7);
}
SUB("triangular-and-diagonal", 20000, 450000) {
    int n = g.n(1, 10); M l(n, V(n, 0.0)); SquareMatrix_<> s(n); V diag(n); M dm(n, V(n, 0.0));
    for (int i = 0; i < n; ++i) { for (int j = 0; j <= i; ++j) { l[i][j] = i == j ? (g.b() ? 1 : -1) * g.uni(0.8, 2) : g.uni(-0.6, 0.6); s(i, j) = l[i][j]; } diag[i] = g.uni(0.1, 5); dm[i][i] = diag[i]; }
    SHOW("L " << ms(l) << " D " << pbt::vec(diag)); if (n > 1) g.nontrivial();
    std::unique_ptr<SquareMatrixDecomposition_> t(LowerTriangularAsDecomposition(s)); decomposition(g, *t, l);
    std::unique_ptr<SymmetricMatrixDecomposition_> d(DiagonalAsDecomposition(mkv(diag))); decomposition(g, *d, dm); correlated(g, *d, dm);
    int z = g.n(0, n - 1); diag[z] = 0.0; s(z, z) = 0.0; Vector_<> o(n), b(n, 1.0);
    std::unique_ptr<SymmetricMatrixDecomposition_> d0(DiagonalAsDecomposition(mkv(diag))); MUST_THROW(d0->Solve(b, &o), "division by a zero diagonal");
    std::unique_ptr<SquareMatrixDecomposition_> t0(LowerTriangularAsDecomposition(s)); MUST_THROW(t0->SolveLeft(b, &o), "division by a zero diagonal"); MUST_THROW(t0->SolveRight(b, &o), "division by a zero diagonal");
    diag[z] = -1.0; std::unique_ptr<SymmetricMatrixDecomposition_> dn(DiagonalAsDecomposition(mkv(diag))); MUST_THROW(dn->MakeCorrelated(b.begin(), &o), "negative variance");
}
namespace {
    struct Pre : Sparse::Square_, HasPreConditioner_ {
        const Sparse::Square_& a; int kind; Pre(const Sparse::Square_& x, int k) : a(x), kind(k) {}   // 1 none, 2 diagonal, 3 lower triangle
        int Size() const override { return a.Size(); } bool IsSymmetric() const override { return a.IsSymmetric(); }
        void MultiplyLeft(const Vector_<>& x, Vector_<>* b) const override { a.MultiplyLeft(x, b); } void MultiplyRight(const Vector_<>& x, Vector_<>* b) const override { a.MultiplyRight(x, b); }
        SquareMatrixDecomposition_* Decompose() const override { return a.Decompose(); } const double& operator()(int i, int j) const override { return a(i, j); } void Set(int, int, double) override {}
        void PreConditionerSolveLeft(const Vector_<>& b, Vector_<>* x) const override { Vector_<> r(b); if (kind == 2) for (int i = 0; i < Size(); ++i) r[i] /= a(i, i); if (kind == 3) for (int i = 0; i < Size(); ++i) { for (int j = 0; j < i; ++j) r[i] -= a(i, j) * r[j]; r[i] /= a(i, i); } *x = r; }
        void PreConditionerSolveRight(const Vector_<>& b, Vector_<>* x) const override { Vector_<> r(b); if (kind == 2) for (int i = 0; i < Size(); ++i) r[i] /= a(i, i); if (kind == 3) for (int i = Size() - 1; i >= 0; --i) { for (int j = i + 1; j < Size(); ++j) r[i] -= a(j, i) * r[j]; r[i] /= a(i, i); } *x = r; }
    };
}
SUB("iterative-solvers", 25000, 600000) {
    int n = g.n(1, 12), w = g.n(0, 3); bool cg = g.b(); M a = spd(g, n, w); 
    if (!cg) for (int i = 0; i < n; ++i) { double s = 0; for (int j = 0; j < n; ++j) if (i != j && std::abs(i - j) <= w) { a[i][j] = g.uni(-0.4, 0.4); s += 1; } a[i][i] = 1.0 + s + g.uni(0, 1); }
    int wb = std::max(1, w); std::unique_ptr<Sparse::Square_> m(Sparse::NewBandDiagonal(n, wb, wb)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (std::abs(i - j) <= wb) m->Set(i, j, a[i][j]);
    V b = genV(g, n), sol = solve(a, b); Vector_<> x(n, 0.0); int start = g.n(0, 3);
    if (start == 1) x = mkv(genV(g, n)); if (start == 2) { x = mkv(sol); g.label("started at the solution"); } if (start == 3) { for (auto& q : b) q = 0; for (auto& q : sol) q = 0; g.label("zero right-hand side"); }
    SHOW((cg ? "CG " : "BCG ") << ms(a) << " b " << pbt::vec(b) << " start " << pbt::vec(x)); if (n > 1 && offdiag(a)) g.nontrivial();
    double rel = g.of({1e-9, 1e-6, 1e-11}), abs = g.of({1e-10, 1e-8}); int pre = g.n(0, cg ? 2 : 3); Pre p(*m, pre); const Sparse::Square_& A = pre ? (const Sparse::Square_&)p : *m; if (pre >= 2) g.label("preconditioned"); Vector_<> x0(x);
    // the textbook iteration: residual after each step
    V res; bool smooth = true; { V xr(x.begin(), x.end()), q = mul(a, xr), rr(n), rt, pv(n, 0.0), pt(n, 0.0); for (int i = 0; i < n; ++i) rr[i] = b[i] - q[i]; rt = rr; auto nrm = [](const V& v) { double t = 0; for (double z : v) t += z * z; return std::sqrt(t); }; auto dot = [](const V& u, const V& v) { double t = 0; for (size_t i = 0; i < u.size(); ++i) t += u[i] * v[i]; return t; }; M at(n, V(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) at[i][j] = a[j][i]; res.push_back(nrm(rr)); double old = 0; for (int it = 0; it < 3 * n + 6 && res.back() > 1e-14; ++it) { Vector_<> z, zt; if (pre) { p.PreConditionerSolveLeft(mkv(rr), &z); p.PreConditionerSolveRight(mkv(rt), &zt); } else { z = mkv(rr); zt = mkv(rt); } if (cg) zt = z; double beta = dot(V(zt.begin(), zt.end()), rr), f = it ? beta / old : 0; for (int i = 0; i < n; ++i) { pv[i] = z[i] + f * pv[i]; pt[i] = zt[i] + f * pt[i]; } if (cg) pt = pv; old = beta; V ap = mul(a, pv), apt = mul(cg ? a : at, pt); double den = dot(ap, pt); if (std::fabs(den) < 1e-3 * nrm(ap) * nrm(pt) || std::fabs(beta) < 1e-3 * nrm(rr) * nrm(V(zt.begin(), zt.end()))) { smooth = false; break; } double al = beta / den; for (int i = 0; i < n; ++i) { xr[i] += al * pv[i]; rr[i] -= al * ap[i]; rt[i] -= al * apt[i]; } res.push_back(nrm(rr)); } }
    double bnorm = 0; for (double z : b) bnorm += z * z; double stop = rel * std::sqrt(bnorm) + abs; int need = 0; while (need < (int)res.size() && res[need] > stop) ++need; bool known = smooth && need < (int)res.size() && need <= 8; for (int k = 0; known && k < need; ++k) known = res[k] > 2 * stop; if (known) known = res[need] < 0.5 * stop;
    auto run = [&](int most, Vector_<>* y) { if (cg) Sparse::CGSolve(A, mkv(b), rel, abs, most, y); else Sparse::BCGSolve(A, mkv(b), rel, abs, most, y); };
    if (known) { g.label("iterations known"); Vector_<> y(x0); try { run(std::max(1, need), &y); } catch (const std::exception& e) { CHECK(false, "not solved in the " << need << " iterations the method needs: " << e.what()); } if (need > 1) { y = x0; MUST_THROW(run(need - 1, &y), "solved in " << need - 1 << " iterations, the method needs " << need); } }
    if (cg) Sparse::CGSolve(A, mkv(b), rel, abs, 60 * n + 40, &x); else { try { Sparse::BCGSolve(A, mkv(b), rel, abs, 60 * n + 40, &x); } catch (const std::exception&) { CHECK(!known, "gave up"); g.label("bcg gave up"); return; } }
    V r = mul(a, V(x.begin(), x.end())); double rn = 0, bn = 0; for (int i = 0; i < n; ++i) { rn += (b[i] - r[i]) * (b[i] - r[i]); bn += b[i] * b[i]; }
    CHECK(std::sqrt(rn) <= 1.5 * (rel * std::sqrt(bn) + abs) + 1e-12, "residual " << std::sqrt(rn) << " tolerance " << rel * std::sqrt(bn) + abs << " x " << pbt::vec(x));
    MUST_THROW(Sparse::CGSolve(A, Vector_<>(n + 1, 1.0), rel, abs, 10, &x), "size mismatch accepted"); MUST_THROW(Sparse::BCGSolve(A, mkv(b), 0.0, 0.0, 10, &x), "no tolerance accepted");
}
SUB("couplings-and-singular", 15000, 300000) {
    int n = g.n(2, 8); std::unique_ptr<Sparse::Square_> m(Sparse::NewBandDiagonal(n, 2, 2)); M a(n, V(n, 0.0)); g.nontrivial();
    int k = g.n(1, 10); for (int q = 0; q < k; ++q) { int i = g.n(0, n - 1), j = std::min(n - 1, std::max(0, i + g.n(-2, 2))); if (i == j) continue; double s = val(g), wi = val(g), wj = val(g); bool c = g.b(); if (c) { wi = 1; wj = -1; }
        SHOW("couple " << i << "," << j << " " << s); if (c) Sparse::AddCoupling(m.get(), i, j, s); else Sparse::AddBinomial(m.get(), s, i, j, wi, wj); a[i][i] += s * wi * wi; a[i][j] += s * wi * wj; a[j][i] += s * wi * wj; a[j][j] += s * wj * wj; }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) CHECK(std::fabs((*m)(i, j) - a[i][j]) < 1e-9, "coupling at " << i << "," << j);
    // a tridiagonal matrix whose leading pivot vanishes is refused, not divided by
    std::unique_ptr<Sparse::Square_> t(Sparse::NewBandDiagonal(n, 1, 1)); int z = g.n(0, n - 1); for (int i = 0; i < n; ++i) t->Set(i, i, i == z ? 0.0 : 1.0 + i); MUST_THROW(std::unique_ptr<SquareMatrixDecomposition_>(t->Decompose()), "zero pivot at " << z); if (n >= 3) { int w = g.n(2, std::min(n - 1, 4)); M q = spd(g, n, w); std::unique_ptr<Sparse::Square_> bd(Sparse::NewBandDiagonal(n, w, w)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (std::abs(i - j) <= w) bd->Set(i, j, i == j && i == z ? -g.uni(0.01, 2) : q[i][j]); MUST_THROW(std::unique_ptr<SquareMatrixDecomposition_>(bd->Decompose()), "negative variance at " << z << " of a banded matrix"); }
}
