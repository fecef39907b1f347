// Reference simulation of the two models, on doubles or on forward-mode numbers.
#pragma once
#include "../engine/engine.hpp"
#include "script.hpp"
#include <dal/platform/platform.hpp>
#include <dal/math/operators.hpp>
#include <dal/math/vectors.hpp>
#include <functional>
namespace mdlref {
using scr::Dual; using Dal::Vector_;
inline double lg(double x) { return std::log(x); } inline double ex(double x) { return std::exp(x); } inline Dual lg(const Dual& x) { return scr::log(x); } inline Dual ex(const Dual& x) { return scr::exp(x); } using scr::val;
struct Mdl { bool bs = true; double spot, vol = 0, r, q, maxDt = 1; std::vector<double> S, T, sg; };   // sg: row per spot knot
inline Vector_<> V(const std::vector<double>& x) { Vector_<> r; for (double y : x) r.push_back(y); return r; }
inline Mdl model(pbt::G& g) {
    Mdl m; m.bs = g.chance(35); m.spot = g.b() ? g.n(1, 400) * 0.5 : g.logUni(0.01, 1e4); m.r = g.chance(15) ? 0 : g.uni(-0.05, 0.12); m.q = g.chance(15) ? 0 : g.uni(-0.03, 0.1); m.vol = g.chance(5) ? 0.0 : g.logUni(0.01, 1.0); if (m.bs) return m;
    int ns = g.n(1, 5), nt = g.n(1, 4); double s = m.spot * g.uni(0.3, 1.2); for (int i = 0; i < ns; ++i) { m.S.push_back(s); s *= 1 + g.logUni(0.02, 0.6); } double t = g.b() ? 0 : g.uni(0, 1); for (int i = 0; i < nt; ++i) { m.T.push_back(t); t += g.logUni(0.05, 2); } bool flat = g.chance(10); for (int i = 0; i < ns * nt; ++i) m.sg.push_back(flat ? m.vol : g.logUni(0.03, 0.8)); m.maxDt = g.chance(30) ? 1.0 : g.logUni(0.05, 2.0); return m;
}
inline std::vector<double> times(pbt::G& g) { std::vector<double> t; bool days = g.chance(70); int n = g.n(1, 5); double x = 0; if (g.chance(35)) { t.push_back(0); if (n > 1) --n; else if (g.b()) return t; } int d = 0; for (int i = 0; i < n; ++i) { if (days) { d += g.chance(20) ? g.n(1, 5) : g.chance(20) ? 365 * g.n(1, 2) : g.n(1, 800); x = d / 365.0; } else x += g.logUni(0.004, 3); t.push_back(x); } return t; }
template <class T> T lin(const std::vector<double>& xs, const std::function<T(size_t)>& y, const T& x, double& kink) { size_t n = xs.size(); double v = val(x); for (double k : xs) kink = std::min(kink, std::fabs(v - k)); if (v >= xs[n - 1]) return y(n - 1); if (v <= xs[0]) return y(0); size_t i = 1; while (xs[i] < v) ++i; T w = (x - T(xs[i - 1])) / T(xs[i] - xs[i - 1]); return y(i - 1) + (y(i) - y(i - 1)) * w; }
// how much rounding errors of the log spot can have grown along the last path simulated (steep volatilities amplify them)
inline double& growth() { static double a = 1; return a; }
// the steps: the observation times and today, with longer gaps split evenly into as few steps as keep below the maximum
inline std::vector<double> grid(const Mdl& m, const std::vector<double>& t, std::vector<int>& obs) { std::vector<double> s = {0}; obs.clear(); for (double x : t) { if (x == 0) { obs.push_back(0); continue; } double a = s.back(), gap = x - a; int n = m.bs ? 1 : std::max(1, (int)std::ceil(gap / m.maxDt - 1e-12)); for (int i = 1; i <= n; ++i) s.push_back(i == n ? x : a + gap * i / n); obs.push_back((int)s.size() - 1); } return s; }
template <class T> void path(const Mdl& m, const std::vector<T>& par, const std::vector<double>& t, const std::vector<double>& z, std::vector<T>& spot, std::vector<T>& num, double& kink) {   // par: as the library lists them
    std::vector<int> obs; auto s = grid(m, t, obs); T S0 = par[0], r = m.bs ? par[2] : par[1], q = m.bs ? par[3] : par[2]; std::vector<T> all = {S0}; T x = lg(S0);
    std::vector<double> ls; for (double v : m.S) ls.push_back(std::log(v)); size_t nt = m.T.size();
    double err = 1; auto volAt = [&](double at, double when) { double none = 1e300; return lin<double>(ls, [&](size_t k) { return lin<double>(m.T, [&](size_t j) { return val(par[3 + k * nt + j]); }, when, none); }, at, none); };
    for (size_t i = 0; i + 1 < s.size(); ++i) { double dt = s[i + 1] - s[i]; T v = T(0.0); if (m.bs) v = par[1]; else v = lin<T>(ls, [&](size_t k) { double none = 1e300; return lin<T>(m.T, [&](size_t j) { return par[3 + k * nt + j]; }, T(s[i]), none); }, x, kink); if (!m.bs) { double h = 1e-6, c = -val(v) * dt + std::sqrt(dt) * z[i], at = val(x), mid = volAt(at, s[i]), up = (volAt(at + h, s[i]) - mid) / h * c, dn = (mid - volAt(at - h, s[i])) / h * c; err = err * std::max(std::fabs(1 + up), std::fabs(1 + dn)) + (1 + std::fabs(at)) * (1 + std::max(std::fabs(up), std::fabs(dn))); } x = x + (r - q - T(0.5) * v * v) * T(dt) + v * T(std::sqrt(dt) * z[i]); all.push_back(ex(x)); }
    growth() = err; spot.clear(); num.clear(); for (size_t k = 0; k < t.size(); ++k) { spot.push_back(all[obs[k]]); num.push_back(ex(r * T(t[k]))); }
}
inline std::vector<double> params(const Mdl& m) { if (m.bs) return {m.spot, m.vol, m.r, m.q}; std::vector<double> p = {m.spot, m.r, m.q}; p.insert(p.end(), m.sg.begin(), m.sg.end()); return p; }
inline std::string show(const Mdl& m) { std::ostringstream o; o.precision(17); o << (m.bs ? "BS" : "Dupire") << " spot " << m.spot << " r " << m.r << " q " << m.q; if (m.bs) o << " vol " << m.vol; else o << " S " << pbt::vec(m.S) << " T " << pbt::vec(m.T) << " vols " << pbt::vec(m.sg) << " maxDt " << m.maxDt; return o.str(); }
}
