#include <engine.hpp>
#include <dal/platform/platform.hpp>
#include <dal/math/operators.hpp>
#include <dal/math/specialfunctions.hpp>
#include <dal/math/vectors.hpp>
#include <dal/math/aad/aad.hpp>
#include <memory>
using namespace Dal;
using Dal::AAD::Number_;
using Dal::AAD::Tape_;
PROPERTY_DEF("P17", "Random straight-line programs (1 to 60 statements over 1 to 6 inputs, every operator and function of the library with numbers and doubles on either side, nested expressions, compound assignments, copies, reuse of intermediates, scale factors from 1e-20 to 1e20) are run on taped numbers and on an independent forward-mode model that carries values, derivatives and the sum of "
  "magnitudes of the terms in each derivative. Non-trivial: at least 5 statements and two inputs on which the result depends.")
namespace pbt { std::vector<std::string> ASSUMPTIONS = {"derivatives are judged where the program is differentiable (no ties in max, min, fabs; log, sqrt and divisors away from zero)", "values below 1e30 and derivative terms below 1e40 in size"}; void globalInit() {} }

// ---- forward-mode reference
namespace ref {
struct Bad {};
struct D { double v; std::vector<double> g, m; double e = 0; };   // e: bound on the rounding error another order of the same operations could bring
static int NI = 0;
static D cst(double x) { return D{x, std::vector<double>(NI, 0.0), std::vector<double>(NI, 0.0)}; }
static const double ULPS = 1e-15;
static D lin(double v, const D& a, double da) { if (!std::isfinite(v) || std::fabs(v) > 1e30 || !std::isfinite(da)) throw Bad(); D r = cst(v); r.e = std::fabs(da) * a.e + ULPS * std::fabs(v); for (int i = 0; i < NI; ++i) { r.g[i] = da * a.g[i]; r.m[i] = std::fabs(da) * a.m[i]; if (!(r.m[i] < 1e40)) throw Bad(); } return r; }
static D lin(double v, const D& a, double da, const D& b, double db) { if (!std::isfinite(v) || std::fabs(v) > 1e30 || !std::isfinite(da) || !std::isfinite(db)) throw Bad(); D r = cst(v); r.e = std::fabs(da) * a.e + std::fabs(db) * b.e + ULPS * std::fabs(v); for (int i = 0; i < NI; ++i) { r.g[i] = da * a.g[i] + db * b.g[i]; r.m[i] = std::fabs(da) * a.m[i] + std::fabs(db) * b.m[i]; if (!(r.m[i] < 1e40)) throw Bad(); } return r; }
static double nzero(double x, double e = 0) { if (std::fabs(x) < 1e-3 || e > 1e-12 * std::fabs(x)) throw Bad(); return x; }
static void sure(const D& a) { if (a.e > 1e-12) throw Bad(); }   // the argument of a function must not be rounding noise
static D addm(D r, const D& a, const D& b) { for (int i = 0; i < NI; ++i) { r.m[i] += 1e10 * (b.e * a.m[i] + a.e * b.m[i]); if (!(r.m[i] < 1e40)) throw Bad(); } return r; }
static D operator+(const D& a, const D& b) { return lin(a.v + b.v, a, 1, b, 1); }
static D operator-(const D& a, const D& b) { return lin(a.v - b.v, a, 1, b, -1); }
static D operator*(const D& a, const D& b) { return addm(lin(a.v * b.v, a, b.v, b, a.v), a, b); }
static D operator/(const D& a, const D& b) { nzero(b.v, b.e); if (a.e > 1e-11 * (1 + std::fabs(a.v))) throw Bad(); return lin(a.v / b.v, a, 1 / b.v, b, -a.v / b.v / b.v); }
static D operator+(double a, const D& b) { return lin(a + b.v, b, 1); }  static D operator+(const D& a, double b) { return lin(a.v + b, a, 1); }
static D operator-(double a, const D& b) { return lin(a - b.v, b, -1); } static D operator-(const D& a, double b) { return lin(a.v - b, a, 1); }
static D operator*(double a, const D& b) { return lin(a * b.v, b, a); }  static D operator*(const D& a, double b) { return lin(a.v * b, a, b); }
static D operator/(double a, const D& b) { nzero(b.v, b.e); return lin(a / b.v, b, -a / b.v / b.v); } static D operator/(const D& a, double b) { if (b == 0) throw Bad(); return lin(a.v / b, a, 1 / b); }
static D operator-(const D& a) { return lin(-a.v, a, -1); } static D operator+(const D& a) { return a; }
static D& operator+=(D& a, const D& b) { return a = a + b; } static D& operator-=(D& a, const D& b) { return a = a - b; } static D& operator*=(D& a, const D& b) { return a = a * b; } static D& operator/=(D& a, const D& b) { return a = a / b; }
static D& operator+=(D& a, double b) { return a = a + b; } static D& operator-=(D& a, double b) { return a = a - b; } static D& operator*=(D& a, double b) { return a = a * b; } static D& operator/=(D& a, double b) { return a = a / b; }
static D exp(const D& a) { sure(a); if (std::fabs(a.v) > 40) throw Bad(); double v = std::exp(a.v); return lin(v, a, v); }
static void pos(const D& a) { sure(a); if (!(a.v > 1e-25) || (a.v < 1e-3 && a.e > 1e-12 * a.v)) throw Bad(); }
static D log(const D& a) { pos(a); return lin(std::log(a.v), a, 1 / a.v); }
static D sqrt(const D& a) { pos(a); double v = std::sqrt(a.v); return lin(v, a, 0.5 / v); }
static D fabs(const D& a) { nzero(a.v, a.e); return lin(std::fabs(a.v), a, a.v > 0 ? 1 : -1); }
static double phi(double x) { return std::exp(-0.5 * x * x) * 0.39894228040143267794; }
static double Phi(double x) { return 0.5 * std::erfc(-x * 0.70710678118654752440); }
static D NPDF(const D& a) { sure(a); if (std::fabs(a.v) > 8) throw Bad(); return lin(phi(a.v), a, -a.v * phi(a.v)); }
static D NCDF(const D& a) { sure(a); if (std::fabs(a.v) > 8) throw Bad(); return lin(Phi(a.v), a, phi(a.v)); }
static D erfc(const D& a) { sure(a); if (std::fabs(a.v) > 6) throw Bad(); return lin(std::erfc(a.v), a, -2 / std::sqrt(M_PI) * std::exp(-a.v * a.v)); }
static double pchk(double l, double r) { if (!(std::fabs(r) < 6) || !(l < 1e4)) throw Bad(); if (l > 1e-3) return l; if (l == 0.0 && r > 1.5) return l; throw Bad(); }
static D pow(const D& a, const D& b) { sure(a); sure(b); pchk(a.v, b.v); double v = std::pow(a.v, b.v); return lin(v, a, b.v * std::pow(a.v, b.v - 1), b, a.v == 0.0 ? 0.0 : std::log(a.v) * v); }
static D pow(const D& a, double b) { sure(a); bool whole = b == std::floor(b) && std::fabs(b) < 6; if (!(whole && a.v < -1e-3 && a.v > -1e4)) pchk(a.v, b); return lin(std::pow(a.v, b), a, b * std::pow(a.v, b - 1)); }
static D pow(double a, const D& b) { sure(b); pchk(a, b.v); double v = std::pow(a, b.v); return lin(v, b, a == 0.0 ? 0.0 : std::log(a) * v); }
static void tie(double a, double b, double e) { if (std::fabs(a - b) < 1e-9 * (1 + std::fabs(a)) + 2 * e) throw Bad(); }
static D max(const D& a, const D& b) { tie(a.v, b.v, a.e + b.e); return a.v > b.v ? a : b; } static D min(const D& a, const D& b) { tie(a.v, b.v, a.e + b.e); return a.v < b.v ? a : b; }
static D max(const D& a, double b) { tie(a.v, b, a.e); return a.v > b ? a : cst(b); } static D min(const D& a, double b) { tie(a.v, b, a.e); return a.v < b ? a : cst(b); }
static D max(double b, const D& a) { return max(a, b); } static D min(double b, const D& a) { return min(a, b); }
}
using ref::D;
// ---- the statements, for either type
static const int NOPS = 60;
template <class T> T op(int k, const T& a, const T& b, const T& c, double d) {
    using std::exp; using std::log; using std::sqrt; using std::fabs; using std::erfc; using std::pow; using std::max; using std::min;
    switch (k) {
    case 0: return a * 0.5 + b * 0.25; case 1: return a + b; case 2: return a - b; case 3: return a * b; case 4: return a / b; case 5: return a + d; case 6: return d + a; case 7: return a - d; case 8: return d - a; case 9: return a * d; case 10: return d * a; case 11: return a / d; case 12: return d / a;
    case 13: return exp(a); case 14: return log(a); case 15: return sqrt(a); case 16: return fabs(a); case 17: return NPDF(a); case 18: return NCDF(a); case 19: return erfc(a); case 20: return pow(a, b); case 21: return pow(a, d); case 22: return pow(d, a); case 23: return max(a, b); case 24: return min(a, b); case 25: return max(a, d); case 26: return max(d, a); case 27: return min(a, d); case 28: return min(d, a);
    case 29: return -a; case 30: return +a; case 31: return a; case 32: { T t = a; t += b; return t; } case 33: { T t = a; t -= b * c; return t; } case 34: { T t = a; t *= b; return t; } case 35: { T t = a; t /= b; return t; } case 36: { T t = a; t += d; return t; } case 37: { T t = a; t -= d; return t; } case 38: { T t = a; t *= d; return t; } case 39: { T t = a; t /= d; return t; }
    case 40: return exp(a * b - c * 2.0) / (1.0 + b * b); case 41: return a * b * c + a * a - c / (2.0 + a * a); case 42: return (a + b) * (a - b) * (c + d); case 43: return log(1.0 + a * a + exp(-fabs(b))); case 44: return max(a - b, 0.25 * c) + min(a * 2.0, b + d); case 45: return NCDF((a - b) / (1.0 + c * c)) * d - NPDF(a); case 46: return sqrt(a * a + b * b + 1.0) - pow(1.5 + c * c, 2.5);
    case 47: { T t = a * b; T u = t; t = t * c; u += t; return u - a; } case 48: { T t = a; t += t; t *= t; return t + b; } case 49: return pow(max(a - b, 0.0), 2.0); case 50: return pow(max(a - b, 0.0), c); case 51: return a * 1e-20; case 52: return a * 1e20; case 53: return a / 1e15; case 54: return 1e-16 * a + b; case 55: return a * a; case 56: return sqrt(1e-20 * exp(a)) * 1e9; case 57: return log(exp(a * 0.5) * 1e-15); case 58: return sqrt(a) * 1e-6 + log(b); default: return pow(a - b, 3.0) - erfc(d - a * 0.125) / (3.0 - min(c, 2.0));
    } }
struct Stmt { int k, a, b, c; double d; int to; };
static bool isBig(int k) { return k == 51 || k == 52 || k == 53; }
struct Prog { std::vector<double> in; std::vector<Stmt> st; std::vector<D> r; };   // r: final registers of the reference
static Prog make(pbt::G& g, int maxStmts) {
    Prog p; int ni = g.n(1, 6); ref::NI = ni; for (int i = 0; i < ni; ++i) p.in.push_back(g.chance(5) ? (double)g.n(-2, 2) : g.uni(-3, 3)); for (int i = 0; i < ni; ++i) { D d = ref::cst(p.in[i]); d.g[i] = d.m[i] = 1; p.r.push_back(d); }
    int ns = g.n(1, maxStmts); bool scales = g.chance(30); for (int s = 0; s < ns; ++s) { Stmt q; q.k = g.n(0, NOPS - 1); if (isBig(q.k) && !scales) q.k = 3; int n = (int)p.r.size(); auto pickReg = [&] { return g.chance(50) ? n - 1 - (int)g.draw(std::min(n, 3)) : (int)g.draw(n); }; q.a = pickReg(); q.b = pickReg(); q.c = pickReg(); q.d = g.chance(20) ? (double)g.n(1, 3) : g.chance(8) ? 0.0 : g.chance(8) ? -g.uni(0.2, 3) : g.uni(0.2, 3); q.to = g.chance(15) ? (int)g.draw(n) : n; if (q.to < ni) q.to = n;
        D v; try { v = op<D>(q.k, p.r[q.a], p.r[q.b], p.r[q.c], q.d); } catch (const ref::Bad&) { q.k = 0; v = op<D>(0, p.r[q.a], p.r[q.b], p.r[q.c], q.d); }
        if (q.to == n) p.r.push_back(v); else p.r[q.to] = v; p.st.push_back(q); }
    return p; }
static void show(pbt::G& g, const Prog& p) { SHOW("inputs " << pbt::vec(p.in)); for (auto& q : p.st) SHOW("r" << q.to << " = op" << q.k << "(r" << q.a << ",r" << q.b << ",r" << q.c << "," << q.d << ")"); }
static void run(const Prog& p, std::vector<Number_>& r) { for (auto& q : p.st) { Number_ v = op<Number_>(q.k, r[q.a], r[q.b], r[q.c], q.d); if (q.to == (int)r.size()) r.push_back(v); else r[q.to] = v; } }
namespace { double NPDF(double x) { return Dal::NPDF(x); } double NCDF(double x) { return Dal::NCDF(x); } }
static std::vector<double> runD(const Prog& p) { std::vector<double> r = p.in; for (auto& q : p.st) { double v = op<double>(q.k, r[q.a], r[q.b], r[q.c], q.d); if (q.to == (int)r.size()) r.push_back(v); else r[q.to] = v; } return r; }
static Tape_ THE; static Tape_ OTHER;
static bool reads(const Prog& p, int res) { int c = 0; for (double x : p.r[res].m) c += x != 0; return c >= 2 && p.st.size() >= 5; }
#define NEAR_D(got, D_, i, what) CHECK(std::fabs((got) - (D_).g[i]) <= 1e-10 * (D_).m[i] + 1e-280, what << " derivative in input " << (i) << " is " << (got) << ", expected " << (D_).g[i])
SUB("gradient", 150000, 2000000) {
    Prog p = make(g, g.chance(10) ? 60 : 14); show(g, p); Number_::SetTape(THE); THE.Rewind(); std::vector<Number_> r; r.reserve(p.r.size()); bool viaPut = g.b(); for (double x : p.in) { r.emplace_back(Number_(x)); if (viaPut) r.back().PutOnTape(); } std::vector<Number_> in = r; run(p, r);
    auto want = runD(p); CHECK(want.size() == r.size(), "registers"); for (size_t i = 0; i < r.size(); ++i) { CHECK(std::fabs(r[i].value() - want[i]) <= p.r[i].e, "register " << i << " has value " << r[i].value() << ", plain doubles give " << want[i]); CHECK(double(r[i]) == r[i].value(), "conversion"); }
    int res = (int)r.size() - 1; g.nontrivial(reads(p, res)); int again = g.chance(20) ? 2 : 1; for (int k = 0; k < again; ++k) { if (k) { r[res].ResetAdjoints(); for (auto& x : in) CHECK(x.Adjoint() == 0.0, "adjoint after reset"); res = (int)g.draw(r.size()); } r[res].PropagateToStart(); int ni = (int)in.size();
        if (res >= ni) for (int i = 0; i < ni; ++i) NEAR_D(in[i].Adjoint(), p.r[res], i, "register " << res); else for (int i = 0; i < ni; ++i) CHECK(in[i].Adjoint() == (i == res ? 1.0 : 0.0), "derivative of an input in input " << i << " is " << in[i].Adjoint()); }
}
SUB("zero-base", 20000, 400000) {   // 0 to a power, the base and the exponent numbers or doubles: worthless, not undefined
    double r = g.b() ? g.of({1.0, 2.0, 3.0, 1.5}) : g.uni(1.0, 6.0), w = g.uni(-3, 3), y = g.uni(-3, 3); int form = g.n(0, 4); SHOW("form " << form << " exponent " << pbt::dbl(r)); g.nontrivial(form != 1); Number_::SetTape(THE); THE.Rewind(); Number_ a(g.b() ? 0.0 : y), b(a.value()), e(r), s(w); Number_ z = g.b() ? Number_(a - b) : Number_(max(a - b - 1.0, 0.0)); double dz = r == 1.0 ? 1.0 : 0.0; Number_ res; double db = 0;
    switch (form) { case 0: res = pow(z, e) * s; break; case 1: res = pow(z, r) * s; break; case 2: res = pow(0.0, e) * s; break; case 3: res = s * pow(z, e) + pow(z, r); break; default: res = s + pow(0.0, e * 2.0 + s * s); db = 1; } if (form == 2 || form == 4) dz = 0; z.Adjoint(); CHECK(std::fabs(res.value() - (form == 4 ? w : 0.0)) < 1e-14, "value " << res.value()); res.PropagateToStart();
    double wz = form == 3 ? (w + 1) * dz : w * dz; CHECK(std::fabs(z.Adjoint() - wz) < 1e-12, "derivative in the base is " << z.Adjoint() << ", expected " << wz); CHECK(std::fabs(e.Adjoint()) < 1e-12, "derivative in the exponent is " << e.Adjoint()); CHECK(std::fabs(s.Adjoint() - db) < 1e-12, "derivative in the factor is " << s.Adjoint());
}
SUB("equal-arguments", 15000, 300000) {   // the larger (smaller) of a quantity and itself is that quantity, slope included
    double x = g.uni(-5, 5), y = g.uni(-5, 5); int form = g.n(0, 5); bool mx = g.b(); SHOW((mx ? "max" : "min") << " form " << form << " at " << x << " " << y); g.nontrivial(form != 0); Number_::SetTape(THE); THE.Rewind(); Number_ a(x), b(y); Number_ c = a; auto m = [&](const Number_& p, const Number_& q) { Number_ r; if (mx) r = max(p, q); else r = min(p, q); return r; }; Number_ res; double da = 1, db = 0, v = x;
    switch (form) { case 0: res = m(a, a); break; case 1: res = m(a, c); break; case 2: { Number_ p = a * b, q = b * a; res = m(p, q); da = y; db = x; v = x * y; break; } case 3: { Number_ p = a * a; res = m(m(p, p), p) + b; da = 2 * x; db = 1; v = x * x + y; break; } case 4: { Number_ p = a * b; if (mx) res = g.b() ? Number_(max(p, b * a)) : Number_(max(b * a, p)); else res = g.b() ? Number_(min(p, b * a)) : Number_(min(b * a, p)); da = y; db = x; v = x * y; break; } default: { if (mx) res = max(-a, a * -1.0) * b; else res = min(a + 0.0, c) * b * -1.0; da = -y; db = -x; v = -x * y; } }
    CHECK(std::fabs(res.value() - v) < 1e-12, "value " << res.value() << ", expected " << v); res.PropagateToStart(); double ga = a.Adjoint(), gb = b.Adjoint(); CHECK(std::fabs(ga - da) < 1e-12 && std::fabs(gb - db) < 1e-12, "slopes " << ga << ", " << gb << ", expected " << da << ", " << db);
}
SUB("several-results", 25000, 800000) {   // many adjoints in one sweep
    Prog p = make(g, 14); show(g, p); int nr = g.n(1, 5); SHOW(nr << " results"); auto keep = AAD::SetNumResultsForAAD(true, nr); Number_::SetTape(OTHER); OTHER.Rewind(); std::vector<Number_> r; std::vector<Tape_::Iterator_> itIn; r.reserve(p.r.size()); for (double x : p.in) { r.emplace_back(Number_(x)); itIn.push_back(std::prev(OTHER.End())); }
    int ni = (int)p.in.size(), nReg = (int)p.r.size(); std::vector<int> which(nr); std::vector<std::vector<Tape_::Iterator_>> at(1); run(p, r); std::vector<Tape_::Iterator_> out; std::vector<Number_> res; for (int j = 0; j < nr; ++j) { which[j] = g.b() ? nReg - 1 : (int)g.draw(nReg); res.push_back(Number_(r[which[j]] * 2.0)); out.push_back(std::prev(OTHER.End())); } g.nontrivial(nr >= 2 && reads(p, nReg - 1));
    for (int j = 0; j < nr; ++j) for (int k = 0; k < nr; ++k) CHECK(out[j]->Adjoint(k) == 0.0, "adjoint not zero on a new node"); int rounds = g.n(1, 2); for (int q = 0; q < rounds; ++q) { if (q) OTHER.ResetAdjoints(); for (int j = 0; j < nr; ++j) out[j]->Adjoint(j) = 1.0; Number_::PropagateAdjointsMulti(std::prev(OTHER.End()), OTHER.Begin());
        for (int j = 0; j < nr; ++j) for (int i = 0; i < ni; ++i) { double got = itIn[i]->Adjoint(j) / 2; NEAR_D(got, p.r[which[j]], i, "result " << j << " (register " << which[j] << ")"); } }
}
SUB("checkpoint", 20000, 600000) {   // inputs -> preamble -> mark -> many paths, sum of path gradients
    Prog p = make(g, 8); show(g, p); Number_::SetTape(THE); THE.Rewind(); std::vector<Number_> r; r.reserve(64); for (double x : p.in) r.emplace_back(Number_(x)); std::vector<Number_> in = r; run(p, r); int ni = (int)in.size(); auto vals = runD(p); THE.Mark(); int paths = g.n(1, 6); SHOW(paths << " paths"); std::vector<double> sum(ni, 0.0), mag(ni, 0.0);
    for (int k = 0; k < paths; ++k) { THE.RewindToMark(); Prog q; q.in = vals; q.r = p.r; int ns = g.n(1, 6); for (int s = 0; s < ns; ++s) { Stmt t; t.k = g.n(0, NOPS - 1); if (isBig(t.k)) t.k = 3; int n = (int)q.r.size(); t.a = (int)g.draw(n); t.b = (int)g.draw(n); t.c = (int)g.draw(n); t.d = g.uni(0.2, 3); t.to = n; D v; try { v = op<D>(t.k, q.r[t.a], q.r[t.b], q.r[t.c], t.d); } catch (const ref::Bad&) { t.k = 0; v = op<D>(0, q.r[t.a], q.r[t.b], q.r[t.c], t.d); } q.r.push_back(v); q.st.push_back(t); }
        std::vector<Number_> rr = r; run(q, rr); Number_ fin = rr.back() * 1.0; fin.PropagateToMark(); for (int i = 0; i < ni; ++i) { sum[i] += q.r.back().g[i]; mag[i] += q.r.back().m[i]; } }
    Number_::PropagateMarkToStart(); for (int i = 0; i < ni; ++i) CHECK(std::fabs(in[i].Adjoint() - sum[i]) <= 1e-10 * mag[i] + 1e-280, "derivative of the sum over " << paths << " paths in input " << i << " is " << in[i].Adjoint() << ", expected " << sum[i]); g.nontrivial(paths >= 2 && ni >= 2);
}
SUB("comparisons", 15000, 300000) {
    Number_::SetTape(THE); THE.Rewind(); double x = g.real(-3, 3), y = g.b() ? x : g.real(-3, 3); SHOW(pbt::dbl(x) << " " << pbt::dbl(y)); g.nontrivial(); Number_ a(x), b(y); CHECK((a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y) && (a == b) == (x == y) && (a != b) == (x != y), "number with number"); CHECK((a < y) == (x < y) && (a > y) == (x > y) && (a <= y) == (x <= y) && (a >= y) == (x >= y) && (a == y) == (x == y) && (a != y) == (x != y), "number with double"); CHECK((x < b) == (x < y) && (x > b) == (x > y) && (x <= b) == (x <= y) && (x >= b) == (x >= y) && (x == b) == (x == y) && (x != b) == (x != y), "double with number");
    CHECK((a * 2.0 < b + 1.0) == (x * 2 < y + 1) && (a * 2.0 >= b + 1.0) == (x * 2 >= y + 1) && (-a == b) == (-x == y), "expressions"); a = y; CHECK(a == b && a.value() == y, "assignment from a double"); Number_ c = a; c = x; CHECK(a.value() == y && c.value() == x, "copies are independent values"); c = a; c += 1.0; CHECK(a.value() == y, "compound assignment on a copy");
    Number_ z = a * a; a.ResetAdjoints(); z.PropagateToStart(); CHECK(a.Adjoint() == 2 * y, "gradient after assignment");
}
