// Random scripts: syntax trees, their text in the script language, and a reference interpreter.
#pragma once
#include <engine.hpp>
#include <cmath>
#include <string>
#include <vector>
#include <set>
#include <array>
#include <algorithm>
namespace scr {
struct E { char op = 'c'; double c = 0; int v = 0; std::vector<E> a; };          // c const, v variable, k named constant, s spot, + - * / ^ M m (max min) n p (unary) l q e (log sqrt exp)
struct B { char op = '='; std::vector<E> e; std::vector<B> a; double eps = -1; char sep = ':'; };   // = ! < > L G (on e[0], e[1]), & |
struct S { char kind = '='; int v = 0; E e; B c; std::vector<S> t, f; bool hasElse = false; };      // = assign, p pays, i if
typedef std::vector<S> Ev;
static const std::vector<std::string> VARS = {"x", "y", "opt", "alive", "v_1", "Payoff", "acc2"};
static const std::vector<std::string> KNAMES = {"STRIKE", "KO", "COUPON", "REBATE", "FLOOR_1", "CAP"};

static const std::vector<std::string> MACROS = {"CALLPAY", "RANGEFWD", "ZED"};
struct Gen {
    pbt::G& g; int nv, nk; bool wild; bool eps = false; int depthIf = 0; bool raw = true;
    Gen(pbt::G& g_, int nv_, int nk_, bool wild_) : g(g_), nv(nv_), nk(nk_), wild(wild_) {}
    E mk(char op, std::vector<E> a) { E e; e.op = op; e.a = std::move(a); return e; }
    E cst(double x) { E e; e.op = 'c'; e.c = x; return e; }
    double num() { return g.chance(50) ? (double)g.n(0, 5) : g.n(0, 480) * 0.25; }
    E leaf() { E e; int w = g.n(0, 9); if (w <= 2) { e.op = 'c'; e.c = num(); } else if (w <= 5) { e.op = 'v'; e.v = g.n(0, nv - 1); } else if (w <= 6 && nk > 0) { e.op = 'k'; e.v = g.n(0, nk - 1); } else e.op = 's'; return e; }
    E expr(int d) {
        if (d <= 0 || g.chance(25)) return leaf();
        switch (g.n(0, 14)) {
        case 0: case 1: return mk('+', {expr(d - 1), expr(d - 1)}); case 2: case 3: return mk('-', {expr(d - 1), expr(d - 1)}); case 4: case 5: return mk('*', {expr(d - 1), expr(d - 1)});
        case 6: { E q = g.chance(60) ? cst(g.n(1, 16) * 0.5) : mk('+', {mk('*', {leaf(), leaf()}), cst(g.n(1, 9) * 0.25)}); if (g.chance(60) == false) q = g.chance(wild ? 60 : 0) ? expr(d - 1) : q; return mk('/', {expr(d - 1), q}); }
        case 7: { if (wild && g.chance(20)) return mk('^', {expr(d - 1), expr(d - 1)}); if (g.chance(20)) { E x = leaf(); return mk('^', {cst(g.of({0.0, 0.5, 1.0, 1.25, 2.0})), mk('+', {mk('m', {mk('*', {x, x}), cst(4)}), cst(g.n(1, 4) * 0.5)})}); }   /* a fixed base with a positive exponent that moves */ E b = expr(d - 1); E ex = cst(g.n(0, 6) * 0.5); if (ex.c != std::floor(ex.c)) b = mk('+', {mk('*', {b, b}), cst(0.5)}); return mk('^', {b, ex}); }
        case 8: { E m = mk('M', {expr(d - 1), expr(d - 1)}); while (g.chance(20) && m.a.size() < 5) m.a.push_back(expr(d - 1)); if (g.chance(2)) while (m.a.size() < 16 && g.chance(85)) m.a.push_back(expr(0)); return m; } case 9: { E m = mk('m', {expr(d - 1), expr(d - 1)}); while (g.chance(20) && m.a.size() < 5) m.a.push_back(expr(d - 1)); if (g.chance(2)) while (m.a.size() < 16 && g.chance(85)) m.a.push_back(expr(0)); return m; }
        case 10: return mk('n', {expr(d - 1)}); case 11: return mk('p', {expr(d - 1)});
        case 12: { E x = expr(d - 1); return mk('l', {wild && g.chance(30) ? x : mk('+', {mk('*', {x, x}), cst(1)})}); } case 13: { E x = expr(d - 1); return mk('q', {wild && g.chance(30) ? x : mk('+', {mk('*', {x, x}), cst(0.25)})}); } default: return mk('e', {mk('m', {mk('/', {expr(d - 1), cst(64)}), cst(3)})}); } }
    B cond(int d) {
        B b; if (d > 0 && g.chance(35)) { b.op = g.b() ? '&' : '|'; b.a = {cond(d - 1), cond(d - 1)}; return b; }
        b.op = "=!<>LG"[g.n(0, 5)]; b.e = {expr(g.n(0, 2)), expr(g.n(0, 2))}; if (g.chance(30)) { b.eps = eps ? g.n(1, 40) * 0.25 : 0.01; b.sep = g.b() ? ':' : ';'; } return b; }
    S stmt(int d) {
        S s; int w = g.n(0, 9); if (w <= 4 || (w > 6 && d <= 0)) { s.kind = '='; s.v = g.n(0, nv - 1); s.e = expr(g.n(0, 3)); } else if (w <= 6) { s.kind = 'p'; s.v = g.n(0, nv - 1); s.e = expr(g.n(0, 3)); }
        else { s.kind = 'i'; s.c = cond(2); int n = g.chance(8) ? 0 : g.chance(1) ? g.n(4, 20) : g.n(1, 3); for (int i = 0; i < n; ++i) s.t.push_back(stmt(d - 1)); s.hasElse = g.chance(55); if (s.hasElse) { n = g.chance(8) ? 0 : g.chance(1) ? g.n(4, 20) : g.n(1, 3); for (int i = 0; i < n; ++i) s.f.push_back(stmt(d - 1)); } } return s; }
    Ev event(int n, int d = 2) { Ev e; for (int i = 0; i < n; ++i) e.push_back(stmt(d)); return e; }
};
// ---- text
struct Printer {
    pbt::G& g; bool noise; explicit Printer(pbt::G& g_, bool n) : g(g_), noise(n) {}
    std::string kw(std::string s) { if (!noise) return s; int w = g.n(0, 3); for (char& c : s) if (w == 0) c = (char)std::tolower(c); else if (w == 1) c = (char)std::toupper(c); else if (w == 2 && g.b()) c = (char)(std::isupper(c) ? std::tolower(c) : std::toupper(c)); return s; }
    std::string sp() { if (!noise) return " "; int w = g.n(0, 5); return w == 0 ? "" : w == 1 ? "  " : w == 2 ? "\n" : w == 3 ? "\t" : " "; }
    std::string gap() { std::string s = sp(); return s.empty() ? " " : s; }
    static std::string num(double x) { char b[64]; snprintf(b, sizeof b, "%.12f", x); std::string s = b; while (s.back() == '0') s.pop_back(); if (s.back() == '.') s.pop_back(); return s; }
    std::string at(const E& e, int lvl) { int l = level(e); std::string s = expr(e); if (l < lvl || (noise && g.chance(8))) s = "(" + sp() + s + sp() + ")"; return s; }
    static int level(const E& e) { switch (e.op) { case '+': case '-': return 1; case '*': case '/': return 2; case '^': return 3; case 'n': case 'p': return 4; default: return 5; } }
    std::string args(const E& e) { std::string s = sp() + "("; for (size_t i = 0; i < e.a.size(); ++i) s += (i ? "," : "") + sp() + at(e.a[i], 1); return s + sp() + ")"; }
    std::string expr(const E& e) {
        switch (e.op) { case 'c': { std::string s = num(e.c); if (noise && g.chance(15) && s.find('.') == std::string::npos) s += g.b() ? "." : ".0"; else if (noise && s.size() > 2 && s[0] == '0' && s[1] == '.' && g.b()) s = s.substr(1); return s; } case 'v': return kw(VARS[e.v]); case 'k': return kw(KNAMES[e.v]); case 's': return kw("spot") + sp() + "(" + sp() + ")";
        case '+': case '-': return at(e.a[0], 1) + sp() + e.op + sp() + at(e.a[1], 2); case '*': case '/': return at(e.a[0], 2) + sp() + e.op + sp() + at(e.a[1], 3); case '^': return at(e.a[0], 3) + sp() + "^" + sp() + at(e.a[1], 4); case 'n': return "-" + sp() + at(e.a[0], 4); case 'p': return "+" + sp() + at(e.a[0], 4);
        case 'M': return kw("max") + args(e); case 'm': return kw("min") + args(e); case 'l': return kw("log") + args(e); case 'q': return kw("sqrt") + args(e); case 'd': return kw("dcf") + "(ACT365F, " + kw("PeriodBegin") + ", " + kw("PeriodEnd") + ")"; case 't': return e.a.empty() ? "" : kw(MACROS[e.v]); default: return kw("exp") + args(e); } }
    std::string cond(const B& b, int lvl) {
        if (b.op == '&' || b.op == '|') { int l = b.op == '|' ? 1 : 2; std::string s = cond(b.a[0], l) + gap() + kw(b.op == '|' ? "or" : "and") + gap() + cond(b.a[1], l + 1); if (l < lvl || (noise && g.chance(10))) s = "(" + sp() + s + sp() + ")"; return s; }
        std::string l = at(b.e[0], 1); size_t k = l.find_first_not_of(" \n\t"); if (l[k] == '(') l = "+" + l; std::string o = b.op == '=' ? "=" : b.op == '!' ? "!=" : b.op == '<' ? "<" : b.op == '>' ? ">" : b.op == 'L' ? "<=" : ">="; std::string s = l + sp() + o + sp() + at(b.e[1], 1); if (b.eps >= 0) s += sp() + b.sep + sp() + num(b.eps); if (noise && g.chance(10)) s = "(" + s + ")"; return s; }
    std::string stmt(const S& s) {
        if (s.kind == 'i') { std::string r = kw("if") + gap() + cond(s.c, 1) + gap() + kw("then") + gap(); for (auto& t : s.t) r += stmt(t) + gap(); if (s.hasElse) { r += kw("else") + gap(); for (auto& t : s.f) r += stmt(t) + gap(); } return r + kw("end"); }
        return kw(VARS[s.v]) + (s.kind == '=' ? sp() + "=" + sp() : gap() + kw("pays") + gap()) + at(s.e, 1); }
    std::string event(const Ev& e) { std::string r; for (auto& s : e) r += stmt(s) + (noise ? gap() : "\n"); return r; }
};
// ---- reference: an interpreter over doubles, or over numbers that carry derivatives to up to 24 inputs
struct Dual { double v = 0; std::array<double, 24> d{}, m{}; Dual() {} Dual(double x) : v(x) {} static Dual input(double x, int k) { Dual r(x); r.d[k] = r.m[k] = 1; return r; } };
inline Dual lin(double v, const Dual& a, double pa) { Dual r(v); for (int i = 0; i < 24; ++i) { r.d[i] = pa * a.d[i]; r.m[i] = std::fabs(pa) * a.m[i]; if (a.d[i] == 0 && a.m[i] == 0) r.d[i] = r.m[i] = 0; } return r; }
inline Dual lin(double v, const Dual& a, double pa, const Dual& b, double pb) { Dual x = lin(v, a, pa), y = lin(v, b, pb); for (int i = 0; i < 24; ++i) { x.d[i] += y.d[i]; x.m[i] += y.m[i]; } return x; }
inline Dual operator+(const Dual& a, const Dual& b) { return lin(a.v + b.v, a, 1, b, 1); } inline Dual operator-(const Dual& a, const Dual& b) { return lin(a.v - b.v, a, 1, b, -1); } inline Dual operator*(const Dual& a, const Dual& b) { return lin(a.v * b.v, a, b.v, b, a.v); } inline Dual operator/(const Dual& a, const Dual& b) { return lin(a.v / b.v, a, 1 / b.v, b, -a.v / b.v / b.v); } inline Dual operator-(const Dual& a) { return lin(-a.v, a, -1); }
inline Dual pow(const Dual& a, const Dual& b) { double v = std::pow(a.v, b.v); return lin(v, a, b.v == 0 ? 0.0 : b.v * std::pow(a.v, b.v - 1), b, a.v > 0 ? std::log(a.v) * v : 0.0); } inline Dual log(const Dual& a) { return lin(std::log(a.v), a, 1 / a.v); } inline Dual sqrt(const Dual& a) { return lin(std::sqrt(a.v), a, 0.5 / std::sqrt(a.v)); } inline Dual exp(const Dual& a) { return lin(std::exp(a.v), a, std::exp(a.v)); }
inline double val(double x) { return x; } inline double val(const Dual& x) { return x.v; }
template <class T> struct EnvT { std::vector<T> var, k; T spot = T(0.0), num = T(1.0); bool bad = false, tie = false; double nearest = 1e300, kink = 1e300, big = 1; int payments = 0, taken = 0, skipped = 0; };   // tie: both sides of a comparison equal a computed value; nearest: distance of a comparison from its threshold; kink: the same, with maxima and minima
typedef EnvT<double> Env;
template <class T> T ev(const E& e, EnvT<T>& s) {
    using std::pow; using std::log; using std::sqrt; using std::exp; auto A = [&](int i) { return ev(e.a[i], s); }; T r = T(0.0); switch (e.op) { case 'c': return T(e.c); case 'v': return s.var[e.v]; case 'k': return s.k[e.v]; case 's': return s.spot; case 'd': return T(e.c); case 't': return ev(e.a[0], s); case '+': { T a = A(0), b = A(1); r = a + b; break; } case '-': { T a = A(0), b = A(1); r = a - b; break; } case '*': { T a = A(0), b = A(1); r = a * b; break; } case '/': { T a = A(0), b = A(1); r = a / b; break; } case '^': { T a = A(0), b = A(1); r = pow(a, b); break; }
    case 'M': { r = A(0); for (size_t i = 1; i < e.a.size(); ++i) { T b = A((int)i); s.kink = std::min(s.kink, std::fabs(val(b) - val(r))); if (val(b) > val(r)) r = b; } break; } case 'm': { r = A(0); for (size_t i = 1; i < e.a.size(); ++i) { T b = A((int)i); s.kink = std::min(s.kink, std::fabs(val(b) - val(r))); if (val(b) < val(r)) r = b; } break; } case 'n': r = -A(0); break; case 'p': r = A(0); break; case 'l': r = log(A(0)); break; case 'q': r = sqrt(A(0)); break; case 'e': r = exp(A(0)); break; }
    if (!std::isfinite(val(r)) || std::fabs(val(r)) > 1e15) s.bad = true; else s.big = std::max(s.big, std::fabs(val(r))); return r; }
template <class T> bool cv(const B& b, EnvT<T>& s) {
    if (b.op == '&') { bool l = cv(b.a[0], s); bool r = cv(b.a[1], s); return l && r; } if (b.op == '|') { bool l = cv(b.a[0], s); bool r = cv(b.a[1], s); return l || r; }
    T l = ev(b.e[0], s), r = ev(b.e[1], s); double d = val(l) - val(r); if (d != 0) s.nearest = std::min(s.nearest, std::fabs(d)); else if (val(l) * 8 != std::floor(val(l) * 8)) s.tie = true; s.kink = std::min(s.kink, std::fabs(d)); switch (b.op) { case '=': return d == 0; case '!': return d != 0; case '<': return d < 0; case '>': return d > 0; case 'L': return d <= 0; default: return d >= 0; } }
template <class T> void run(const S& s, EnvT<T>& x) { if (s.kind == '=') x.var[s.v] = ev(s.e, x); else if (s.kind == 'p') { ++x.payments; x.var[s.v] = x.var[s.v] + ev(s.e, x) / x.num; if (!std::isfinite(val(x.var[s.v]))) x.bad = true; else x.big = std::max(x.big, std::fabs(val(x.var[s.v]))); } else if (cv(s.c, x)) { ++x.taken; for (auto& t : s.t) run(t, x); } else { ++x.skipped; for (auto& t : s.f) run(t, x); } }
// ---- reference for smoothed conditionals: every comparison has a degree of truth, a conditional blends what its branches leave behind
template <class T> struct Blur { double def = 1; double closest = 1e300; int blended = 0; };   // closest: distance from a kink of the smoothing
template <class T> T degree(const B& b, EnvT<T>& s, Blur<T>& z) {
    if (b.op == '&') { T l = degree(b.a[0], s, z); T r = degree(b.a[1], s, z); return l * r; } if (b.op == '|') { T l = degree(b.a[0], s, z); T r = degree(b.a[1], s, z); return l + r - l * r; }
    T l = ev(b.e[0], s), r = ev(b.e[1], s); T d = (b.op == '<' || b.op == 'L') ? r - l : l - r; double eps = b.eps >= 0 ? b.eps : z.def, h = eps / 2, x = val(d); z.closest = std::min({z.closest, std::fabs(x - h), std::fabs(x + h)});
    if (b.op == '=' || b.op == '!') { z.closest = std::min(z.closest, std::fabs(x)); T q = x < -h || x > h ? T(0.0) : (x < 0 ? T(1.0) + d / T(h) : T(1.0) - d / T(h)); return b.op == '=' ? q : T(1.0) - q; }
    return x < -h ? T(0.0) : x > h ? T(1.0) : (d + T(h)) / T(eps); }
template <class T> void runSmooth(const S& s, EnvT<T>& x, Blur<T>& z) {
    if (s.kind != 'i') { run(s, x); return; } T dt = degree(s.c, x, z); if (val(dt) > 1 - 1e-13) { for (auto& t : s.t) runSmooth(t, x, z); return; } if (val(dt) < 1e-13) { for (auto& t : s.f) runSmooth(t, x, z); return; }
    ++z.blended; std::vector<T> before = x.var; for (auto& t : s.t) runSmooth(t, x, z); std::vector<T> yes = x.var; x.var = before; for (auto& t : s.f) runSmooth(t, x, z); for (size_t i = 0; i < x.var.size(); ++i) x.var[i] = dt * yes[i] + (T(1.0) - dt) * x.var[i]; }
// ---- a bound on the size of every value that any choice of branches can produce (used to leave out scripts that overflow in a branch not taken)
inline double mag(const E& e, const std::vector<double>& m, const std::vector<double>& k, double& top) { double r = 0; auto A = [&](int i) { return mag(e.a[i], m, k, top); }; switch (e.op) { case 'c': return std::fabs(e.c); case 'v': return m[e.v]; case 'k': return std::fabs(k[e.v]); case 's': return 200; case 'd': return 100; case 't': return A(0); case '+': case '-': r = A(0) + A(1); break; case '*': r = A(0) * A(1); break; case '/': r = A(0) * 1000; A(1); break; case '^': r = std::pow(std::max(1.0, A(0)), A(1)); break; case 'M': case 'm': for (size_t i = 0; i < e.a.size(); ++i) r = std::max(r, A((int)i)); break; case 'n': case 'p': r = A(0); break; case 'l': r = std::log(1 + A(0)) + 2; break; case 'q': r = std::sqrt(A(0)); break; default: A(0); r = 50; break; } if (!(r < 1e20)) top = 1e300; top = std::max(top, r); return r; }
inline void mag(const B& b, const std::vector<double>& m, const std::vector<double>& k, double& top) { for (auto& e : b.e) mag(e, m, k, top); for (auto& a : b.a) mag(a, m, k, top); }
inline void mag(const S& s, std::vector<double>& m, const std::vector<double>& k, double& top) { if (s.kind == '=') m[s.v] = mag(s.e, m, k, top); else if (s.kind == 'p') m[s.v] += 10 * mag(s.e, m, k, top); else { mag(s.c, m, k, top); auto a = m, b = m; for (auto& t : s.t) mag(t, a, k, top); for (auto& t : s.f) mag(t, b, k, top); for (size_t i = 0; i < m.size(); ++i) m[i] = std::max(a[i], b[i]); } }
// ... and on how many separate values a variable can have (the processing keeps them all)
inline double many(const E& e, const std::vector<double>& m, double& top) { double r = 1; if (e.op == 'v') r = m[e.v]; else for (auto& a : e.a) r *= many(a, m, top); top = std::max(top, r); return r; }
inline void many(const B& b, const std::vector<double>& m, double& top) { if (b.e.size() == 2) top = std::max(top, many(b.e[0], m, top) * many(b.e[1], m, top)); for (auto& a : b.a) many(a, m, top); }
inline void assigned(const S& s, std::set<int>& h) { if (s.kind != 'i') h.insert(s.v); for (auto& t : s.t) assigned(t, h); for (auto& t : s.f) assigned(t, h); }
inline void many(const S& s, std::vector<double>& m, double& top) { if (s.kind == '=') m[s.v] = many(s.e, m, top); else if (s.kind == 'p') { double r = many(s.e, m, top); m[s.v] = std::max(1.0, std::min(m[s.v] * r, 1e6)); top = std::max(top, m[s.v]); } else { many(s.c, m, top); std::set<int> hit; assigned(s, hit); auto a = m, b = m; for (auto& t : s.t) many(t, a, top); for (auto& t : s.f) many(t, b, top); for (size_t i = 0; i < m.size(); ++i) if (hit.count((int)i)) m[i] = a[i] + b[i]; } }
inline bool overflows(const std::vector<Ev>& ev, const std::vector<double>& k) { std::vector<double> c(VARS.size(), 1.0); double most = 1; for (auto& e : ev) for (auto& s : e) many(s, c, most); if (!(most < 3e4)) return true; std::vector<double> m(VARS.size(), 0.0); double top = 0; for (auto& e : ev) for (auto& s : e) mag(s, m, k, top); return !(top < 1e20); }
// variables and constants mentioned
inline void names(const E& e, std::vector<int>& v, std::vector<int>& k) { if (e.op == 'v' && std::find(v.begin(), v.end(), e.v) == v.end()) v.push_back(e.v); if (e.op == 'k' && std::find(k.begin(), k.end(), e.v) == k.end()) k.push_back(e.v); for (auto& a : e.a) names(a, v, k); }
inline void names(const B& b, std::vector<int>& v, std::vector<int>& k) { for (auto& e : b.e) names(e, v, k); for (auto& a : b.a) names(a, v, k); }
inline void names(const S& s, std::vector<int>& v, std::vector<int>& k) { if (s.kind == 'i') { names(s.c, v, k); for (auto& t : s.t) names(t, v, k); for (auto& t : s.f) names(t, v, k); } else { E e; e.op = 'v'; e.v = s.v; names(e, v, k); names(s.e, v, k); } }
inline int size(const E& e) { int n = 1; for (auto& a : e.a) n += size(a); return n; }
inline int ifs(const S& s) { if (s.kind != 'i') return 0; int n = 1; for (auto& t : s.t) n += ifs(t); for (auto& t : s.f) n += ifs(t); return n; }

// ---- a whole product: dated events, named constants, and the paths it is evaluated on
struct Product { std::vector<Ev> ev; std::vector<double> k; std::vector<int> gaps; std::vector<int> vars, ks; int today = 0; };   // vars, ks: order of first appearance
inline Product product(pbt::G& g, bool wild, bool eps = false, int maxEvents = 4) {
    Product p; int nv = g.n(1, (int)VARS.size()), nk = g.n(0, g.chance(20) ? (int)KNAMES.size() : 3); for (int i = 0; i < nk; ++i) p.k.push_back(g.n(0, 400) * 0.25); Gen gen(g, nv, nk, wild); gen.eps = eps; int n = g.n(1, maxEvents); for (int i = 0; i < n; ++i) { p.ev.push_back(gen.event(g.n(1, 4))); p.gaps.push_back(g.n(1, 400)); } p.today = g.n(36526, 54788); return p; }
inline void finish(Product& p) { p.vars.clear(); p.ks.clear(); for (auto& e : p.ev) for (auto& s : e) names(s, p.vars, p.ks);  if (p.vars.empty()) { S s; s.v = 0; s.e.op = 'c'; p.ev[0].push_back(s); p.vars.push_back(0); } }
struct Path { std::vector<double> spot, num; };
inline Path path(pbt::G& g, size_t n) { Path p; for (size_t i = 0; i < n; ++i) { p.spot.push_back(g.chance(40) ? g.n(0, 480) * 0.25 : g.uni(0.5, 150)); p.num.push_back(g.chance(30) ? 1.0 : g.uni(0.2, 3)); } return p; }
template <class T> EnvT<T> start(const Product& p) { EnvT<T> e; e.var.assign(VARS.size(), T(0.0)); for (double k : p.k) e.k.push_back(T(k)); return e; }
template <class T> void walk(const Product& p, EnvT<T>& e, const std::vector<T>& spot, const std::vector<T>& num) { for (size_t i = 0; i < p.ev.size(); ++i) { e.spot = spot[i]; e.num = num[i]; for (auto& s : p.ev[i]) run(s, e); } }
}
