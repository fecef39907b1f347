#include "scriptdal.hpp"
#include <dal/script/visitor/domain.hpp>
#include <dal/script/visitor/domainproc.hpp>
#include <set>
using namespace Dal; using namespace Dal::Script; using namespace scr;
PROPERTY_DEF("P33", "Random unions of closed intervals and points (ends on a grid of quarters within +-20, or infinite, built by adding pieces in any order) are compared with an independent model of the set, and arithmetic on them with the results of the operation on points taken from both sides; random scripts are analysed and then run on random paths, and every variable must end inside the set of values found for it. Non-trivial: at least two pieces, or a script with a conditional executed.")
namespace pbt { std::vector<std::string> ASSUMPTIONS = {"ends of intervals are multiples of a quarter, so that none differ by less than the 2e-14 treated as equal", "analysed scripts keep their values finite, and do not divide by a variable that can only be zero", "ranges of products and quotients of unbounded pieces may be wider than needed, never narrower"}; void globalInit() {} }
static const double INFTY = 1e300;   // stands for infinity in the model
typedef std::pair<double, double> P;
static Bound_ bound(double x) { return x >= INFTY ? Bound_(Bound_::plusInfinity_) : x <= -INFTY ? Bound_(Bound_::minusInfinity_) : Bound_(x); }
static Interval_ iv(const P& p) { return Interval_(bound(p.first), bound(p.second)); }
static P piece(pbt::G& g) { double a = g.n(-40, 40) * 0.25, b = a; if (g.chance(25)) a = b = g.n(-2, 2); else if (!g.chance(30)) b = a + g.n(0, 40) * 0.25; if (g.chance(8)) a = -INFTY; if (g.chance(8)) b = INFTY; if (g.chance(10)) { if (g.b()) a = 0; else b = 0; if (a > b) std::swap(a, b); } return {a, b}; }
struct Set { std::vector<P> p; void norm() { std::sort(p.begin(), p.end()); std::vector<P> r; for (auto& x : p) if (!r.empty() && x.first <= r.back().second) r.back().second = std::max(r.back().second, x.second); else r.push_back(x); p = r; } bool has(double x) const { for (auto& q : p) if (q.first <= x && x <= q.second) return true; return false; } };
static std::string num(double x) { std::ostringstream o; if (x >= INFTY) o << "+INF"; else if (x <= -INFTY) o << "-INF"; else o << x; return o.str(); }
static std::string show(const Set& s) { std::string r = "{"; for (size_t i = 0; i < s.p.size(); ++i) r += (i ? ";" : "") + (s.p[i].first == s.p[i].second ? "{" + num(s.p[i].first) + "}" : "(" + num(s.p[i].first) + "," + num(s.p[i].second) + ")"); return r + "}"; }
static bool single(const P& p) { return p.first == p.second; }
static double neg(double x) { return -x; } static double sum(double a, double b) { if (std::fabs(a) >= INFTY) return a; if (std::fabs(b) >= INFTY) return b; return a + b; }
static Set gen(pbt::G& g, Domain_& d, int lo, int hi) { Set s; int n = g.n(lo, hi); for (int i = 0; i < n; ++i) { P p = piece(g); s.p.push_back(p); if (single(p) && g.b()) d.AddSingleton(p.first); else d.AddInterval(iv(p)); } s.norm(); return s; }
static double inside(pbt::G& g, const P& p) { double a = std::max(p.first, -60.0), b = std::min(p.second, 60.0); if (p.first <= -INFTY && g.chance(20)) return -1e6; if (p.second >= INFTY && g.chance(20)) return 1e6; if (a > b) return p.first; int k = g.n(0, 3); return k == 0 ? a : k == 1 ? b : g.n((int)std::lround(a * 8), (int)std::lround(b * 8)) / 8.0; }
static std::string zeros(std::string t) { for (std::string z : {"(-0,", ",-0)", "{-0}"}) for (size_t i; (i = t.find(z)) != std::string::npos;) t.erase(i + 1, 1); return t; }   // minus zero is zero
static void same(pbt::G& g, const Domain_& d, const Set& s, const std::string& what) {
    CHECK(zeros(d.Write()) == zeros(show(s)), what << " is " << d.Write() << ", expected " << show(s)); CHECK(d.Size() == s.p.size() && d.IsEmpty() == s.p.empty(), what << " has " << d.Size() << " pieces"); for (int k = 0; k < 8; ++k) { double x = s.p.empty() || g.b() ? g.n(-400, 400) / 8.0 : inside(g, g.pick(s.p)); CHECK(d.Includes(x) == s.has(x), what << (s.has(x) ? " lacks " : " holds ") << x); } }
SUB("intervals", 60000, 1500000) {
    P a = piece(g), b = piece(g); if (g.chance(15)) b = a; else if (g.chance(15) && a.second < INFTY) { b.first = a.second; b.second = std::max(b.second, b.first); } Interval_ x = iv(a), y = iv(b); SHOW(x.Write() << " and " << y.Write()); g.nontrivial(!single(a) && !single(b)); double v = 0;
    bool inf = a.first <= -INFTY || a.second >= INFTY; CHECK(x.IsSingleton(&v) == single(a) && (!single(a) || v == a.first), "point"); CHECK(x.IsContinuous() == !single(a) && x.IsInfinite() == inf && x.IsZero() == (a.first == 0 && a.second == 0), "kind"); CHECK(x.IsPositive() == (a.first >= 0) && x.IsPositive(true) == (a.first > 0) && x.IsNegative() == (a.second <= 0) && x.IsNegative(true) == (a.second < 0) && x.IsPosOrNeg() == (a.first >= 0 || a.second <= 0) && x.IsPosOrNeg(true) == (a.first > 0 || a.second < 0), "sign");
    CHECK((x == y) == (a == b) && (x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b), "order"); CHECK(x.Includes(y) == (a.first <= b.first && a.second >= b.second) && y.IsIncludedIn(x) == x.Includes(y), "inclusion"); CHECK(x.IsAdjacent(y) == (a.second == b.first ? 1u : a.first == b.second ? 2u : 0u), "adjacent " << x.IsAdjacent(y));
    bool meet = std::max(a.first, b.first) <= std::min(a.second, b.second); Interval_ r; CHECK(Intersect(x, y) == meet && Intersect(x, y, &r) == meet, "meet"); if (meet) CHECK(r == iv({std::max(a.first, b.first), std::min(a.second, b.second)}), "intersection is " << r.Write()); Interval_ m; CHECK(Merge(x, y) == meet && Merge(x, y, &m) == meet, "merge"); if (meet) { P w{std::min(a.first, b.first), std::max(a.second, b.second)}; CHECK(m == iv(w), "union is " << m.Write()); Interval_ z = x; z.Merge(y); CHECK(z == iv(w), "union is " << z.Write()); }
    Interval_ s = x; s += y; CHECK(s == x + y, "+="); s = x; s -= y; CHECK(s == x - y, "-="); CHECK(x + y == iv({a.first <= -INFTY || b.first <= -INFTY ? -INFTY : a.first + b.first, a.second >= INFTY || b.second >= INFTY ? INFTY : a.second + b.second}), "sum is " << (x + y).Write()); CHECK(-x == iv({neg(a.second), neg(a.first)}), "negative is " << (-x).Write()); CHECK(x - y == x + -y, "difference");
    CHECK(x.IMin(y) == iv({std::min(a.first, b.first), std::min(a.second, b.second)}) && x.IMax(y) == iv({std::max(a.first, b.first), std::max(a.second, b.second)}), "smaller or larger"); bool fin = !inf && b.first > -INFTY && b.second < INFTY; if (fin) { double q[4] = {a.first * b.first, a.first * b.second, a.second * b.first, a.second * b.second}; CHECK(x * y == iv({*std::min_element(q, q + 4), *std::max_element(q, q + 4)}), "product is " << (x * y).Write()); }
    if (b == P(0, 0)) { MUST_THROW((void)y.Inverse(), "one over zero"); MUST_THROW((void)(x / y), "division by zero"); } else { Interval_ w = y.Inverse(); if (fin && (b.first > 0 || b.second < 0)) CHECK(w == Interval_(Bound_(1 / b.second), Bound_(1 / b.first)), "inverse is " << w.Write()); Interval_ q = x / y, pr = x * y; for (int k = 0; k < 6; ++k) { double u = inside(g, a), t = inside(g, b); CHECK(pr.Includes(u * t), u << " * " << t << " is outside " << pr.Write()); if (t != 0) { CHECK(w.Includes(1 / t), "1 / " << t << " is outside " << w.Write()); if (fin) CHECK(q.Includes(u / t) || q.Includes((u / t) * (1 + 1e-15)) || q.Includes((u / t) * (1 - 1e-15)), u << " / " << t << " is outside " << q.Write()); } } }
    for (int k = 0; k < 4; ++k) { double t = g.n(-400, 400) / 8.0; CHECK(x.Includes(t) == (a.first <= t && t <= a.second), t << " in " << x.Write()); } auto sq = [](double t) { return t * t + 1; }; Interval_ fd = iv({1, INFTY}), fx = x.ApplyFunc(sq, fd); CHECK(single(a) ? fx == Interval_(sq(a.first)) : fx == fd, "image is " << fx.Write()); auto f2 = [](double t, double u) { return t + 2 * u; }; Interval_ all = iv({-INFTY, INFTY}), f2x = x.ApplyFunc2(f2, y, all); CHECK(single(a) && single(b) ? f2x == Interval_(f2(a.first, b.first)) : f2x == all, "image is " << f2x.Write());
    double lo = g.n(-40, 40) * 0.25, hi = lo - g.n(1, 40) * 0.25; MUST_THROW(Interval_(Bound_(lo), Bound_(hi)), "ends the wrong way round"); MUST_THROW(Interval_(Bound_(Bound_::plusInfinity_), Bound_(Bound_::plusInfinity_)), "starting at infinity"); MUST_THROW(Interval_(Bound_(Bound_::minusInfinity_), Bound_(Bound_::minusInfinity_)), "ending at minus infinity");
}
SUB("unions", 60000, 1500000) {
    Domain_ d; Set s = gen(g, d, 0, 7); SHOW(show(s)); g.nontrivial(s.p.size() > 1); same(g, d, s, "the union"); Domain_ e; Set t = gen(g, e, 0, 4); { Domain_ c = d; c.AddDomain(e); Set u = s; u.p.insert(u.p.end(), t.p.begin(), t.p.end()); u.norm(); same(g, c, u, "the union of two"); Domain_ c2 = e; c2.AddDomain(d); same(g, c2, u, "the union of two the other way"); Domain_ mv = std::move(c); same(g, mv, u, "moved"); c2 = mv; same(g, c2, u, "assigned"); }
    size_t ns = 0; bool pos = true, neg = true, spos = true, sneg = true, inf = false, zd = false, zc = false; for (auto& p : s.p) { ns += single(p); pos &= p.first >= 0; spos &= p.first > 0; neg &= p.second <= 0; sneg &= p.second < 0; inf |= p.first <= -INFTY || p.second >= INFTY; if (p.first <= 0 && p.second >= 0) (single(p) ? zd : zc) = true; } bool disc = ns == s.p.size(), none = s.p.empty();
    CHECK(d.IsPositive() == pos && d.IsPositive(true) == spos && d.IsNegative() == neg && d.IsNegative(true) == sneg && d.IsPosOrNeg() == (pos || neg) && d.IsPosOrNeg(true) == (spos || sneg), "sign"); CHECK(d.IsInfinite() == inf && d.IsDiscrete() == disc && d.IsContinuous() == !disc, "kind"); std::vector<double> sv; for (auto& p : s.p) if (single(p)) sv.push_back(p.first); auto g1 = d.GetSingletons(), g2 = d.GetSingletons(false); CHECK(std::vector<double>(g2.begin(), g2.end()) == sv && std::vector<double>(g1.begin(), g1.end()) == (disc ? sv : std::vector<double>()), "points");
    std::pair<double, double> bb; double cv = 0; CHECK(d.IsBoolean() == (disc && ns == 2) && d.IsConstant() == (disc && ns == 1), "two values, one value"); if (d.IsBoolean(&bb)) CHECK(bb.first == sv[0] && bb.second == sv[1], "two values"); if (d.IsConstant(&cv)) CHECK(cv == sv[0], "one value"); Set cs; for (auto& p : s.p) if (!single(p)) cs.p.push_back(p); same(g, d.GetContinuous(), cs, "the continuous part"); CHECK(d.MinBound() == bound(none ? -INFTY : s.p.front().first) && d.MaxBound() == bound(none ? INFTY : s.p.back().second), "ends");
    CHECK(d.CanBeZero() == (zd || zc) && d.ZeroIsDiscrete() == zd && d.ZeroIsCont() == zc && d.CanBeNonZero() == !(none || (s.p.size() == 1 && zd)), "zero"); CHECK(d.CanBePositive(true) == (!none && s.p.back().second > 0) && d.CanBePositive(false) == (!none && s.p.back().second >= 0) && d.CanBeNegative(true) == (!none && s.p.front().first < 0) && d.CanBeNegative(false) == (!none && s.p.front().first <= 0), "possible signs");
    if (!none) for (int st = 0; st < 2; ++st) { double r = -7, w = 0; bool have = false; for (auto& p : s.p) if (st ? p.first > 0 : p.first >= 0) { have = true; w = p.first; break; } CHECK(d.SmallestPosLb(r, st) == have && (!have || r == w), "smallest positive start is " << r << ", expected " << (have ? num(w) : "none")); have = false; r = -7; for (auto p = s.p.rbegin(); p != s.p.rend(); ++p) if (st ? p->second < 0 : p->second <= 0) { have = true; w = p->second; break; } CHECK(d.BiggestNegRb(r, st) == have && (!have || r == w), "largest negative end is " << r << ", expected " << (have ? num(w) : "none")); }
    P q = piece(g); bool in = false; for (auto& p : s.p) in |= p.first <= q.first && q.second <= p.second; CHECK(d.Includes(iv(q)) == in, "includes " << iv(q).Write());
}
SUB("arithmetic", 40000, 1000000) {
    Domain_ d, e; Set s = gen(g, d, 1, 4), t = gen(g, e, 1, 4); SHOW(show(s) << " with " << show(t)); g.nontrivial(s.p.size() > 1 || t.p.size() > 1); auto pairs = [&](const std::function<P(const P&, const P&)>& f) { Set r; for (auto& a : s.p) for (auto& b : t.p) r.p.push_back(f(a, b)); r.norm(); return r; };
    auto add = [](const P& a, const P& b) { return P(sum(a.first, b.first), sum(a.second, b.second)); }; auto minus = [](const P& b) { return P(-b.second, -b.first); }; same(g, d + e, pairs(add), "the sum"); same(g, d - e, pairs([&](const P& a, const P& b) { return add(a, minus(b)); }), "the difference"); Set n; for (auto& p : s.p) n.p.push_back(minus(p)); n.norm(); same(g, -d, n, "the negative");
    same(g, d.DMin(e), pairs([](const P& a, const P& b) { return P(std::min(a.first, b.first), std::min(a.second, b.second)); }), "the smaller"); same(g, d.DMax(e), pairs([](const P& a, const P& b) { return P(std::max(a.first, b.first), std::max(a.second, b.second)); }), "the larger"); bool zero = false, fin = true; for (auto& b : t.p) zero |= b == P(0, 0); for (auto& a : s.p) fin &= a.first > -INFTY && a.second < INFTY; bool fint = true; for (auto& b : t.p) fint &= b.first > -INFTY && b.second < INFTY;
    if (fin && fint) same(g, d * e, pairs([](const P& a, const P& b) { double q[4] = {a.first * b.first + 0.0, a.first * b.second + 0.0, a.second * b.first + 0.0, a.second * b.second + 0.0}; return P(*std::min_element(q, q + 4), *std::max_element(q, q + 4)); }), "the product"); Domain_ pr = d * e; for (int k = 0; k < 8; ++k) { double u = inside(g, g.pick(s.p)), v = inside(g, g.pick(t.p)); CHECK(pr.Includes(u * v), u << " * " << v << " is outside " << pr.Write()); }
    if (zero) { MUST_THROW((void)(d / e), "division by {0}"); MUST_THROW((void)e.Inverse(), "one over {0}"); } else { Domain_ q = d / e, w = e.Inverse(); for (int k = 0; k < 8; ++k) { double u = inside(g, g.pick(s.p)), v = inside(g, g.pick(t.p)); if (v == 0) continue; CHECK(w.Includes(1 / v), "1 / " << v << " is outside " << w.Write()); double x = u / v; CHECK(q.Includes(x) || q.Includes(x * (1 + 1e-14)) || q.Includes(x * (1 - 1e-14)), u << " / " << v << " is outside " << q.Write()); } }
    double x = g.n(-40, 40) * 0.25; Set up, dn; for (auto& p : s.p) { up.p.push_back({sum(p.first, x), sum(p.second, x)}); dn.p.push_back({sum(p.first, -x), sum(p.second, -x)}); } Domain_ c = d; c += x; same(g, c, up, "shifted up"); c = d; c -= x; same(g, c, dn, "shifted down");
    bool sd = true, td = true; for (auto& p : s.p) sd &= single(p); for (auto& p : t.p) td &= single(p); auto f = [](double y) { return y * y + 1; }; auto f2 = [](double y, double z) { return y + 2 * z; }; Interval_ fd = iv({1, INFTY}), all = iv({-INFTY, INFTY}); Set im; if (sd) for (auto& p : s.p) im.p.push_back({f(p.first), f(p.first)}); else im.p.push_back({1, INFTY}); im.norm(); same(g, d.ApplyFunc(f, fd), im, "the image"); Set i2; if (sd && td) for (auto& a : s.p) for (auto& b : t.p) i2.p.push_back({f2(a.first, b.first), f2(a.first, b.first)}); else i2.p.push_back({-INFTY, INFTY}); i2.norm(); same(g, d.ApplyFunc2(f2, e, all), i2, "the image of two");
}
// ---- scripts: whatever the path, a variable ends inside the set of values found for it
static E c_(double x) { E e; e.op = 'c'; e.c = x; return e; } static E v_(int v) { E e; e.op = 'v'; e.v = v; return e; } static E s_() { E e; e.op = 's'; return e; } static E b_(char o, E a, E b) { E e; e.op = o; e.a = {std::move(a), std::move(b)}; return e; }
static E expr(pbt::G& g, int nv, int d) { if (d <= 0 || g.chance(35)) { int k = g.n(0, 9); return k < 5 ? v_(g.n(0, nv - 1)) : k < 9 ? c_(g.n(0, 4) * 0.5) : s_(); } int k = g.n(0, 9); if (k == 8) { E x = expr(g, nv, d - 1); return b_('^', c_(g.of({0.0, 0.5, 2.0})), b_('+', b_('m', b_('*', x, x), c_(4)), c_(0.5))); } if (k == 9) { E x = expr(g, nv, d - 1), l; l.op = 'l'; l.a = {b_('+', b_('*', x, x), c_(0.5))}; return l; } if (k < 6) return b_("+-*Mm/"[k], expr(g, nv, d - 1), k == 5 ? c_(g.n(1, 4)) : expr(g, nv, d - 1)); E e; e.op = k == 6 ? 'n' : 'q'; E x = expr(g, nv, d - 1); if (e.op == 'q') x = b_('*', x, x); e.a = {x}; return e; }
static S stmt(pbt::G& g, int nv, int d) { S s; if (d <= 0 || g.chance(60)) { s.kind = g.chance(15) ? 'p' : '='; s.v = g.n(0, nv - 1); s.e = expr(g, nv, 2); return s; } s.kind = 'i'; s.c.op = "=!<>LG"[g.n(0, 5)]; s.c.e = {expr(g, nv, 1), g.b() ? c_(g.n(0, 4) * 0.5) : expr(g, nv, 1)}; int n = g.n(1, 3); for (int i = 0; i < n; ++i) s.t.push_back(stmt(g, nv, d - 1)); s.hasElse = g.b(); if (s.hasElse) { n = g.n(1, 2); for (int i = 0; i < n; ++i) s.f.push_back(stmt(g, nv, d - 1)); } return s; }
SUB("script-values", 25000, 600000) {
    Product p; if (g.chance(25)) p = product(g, false); else { int nv = g.n(1, 3), n = g.n(1, 3); for (int i = 0; i < n; ++i) { Ev e; int m = g.n(1, 4); for (int j = 0; j < m; ++j) e.push_back(stmt(g, nv, 2)); p.ev.push_back(e); p.gaps.push_back(g.n(1, 300)); } p.today = g.n(36526, 54788); } finish(p); if (overflows(p.ev, p.k)) g.discard(); Text t = text(g, p, false); SHOW(show(t)); Global::Dates_::SetEvaluationDate(day(p.today)); auto prod = build(t), an = build(t); an->IndexVariables(); an->IFProcess(); bool fuzzy = g.b(); DomainProcessor_ dp(an->VarNames().size(), fuzzy); try { an->Visit(dp); } catch (const std::exception& e) { if (std::string(e.what()).find("Division by {0}") != std::string::npos) g.discard(); throw; } prod->PreProcess(false, true);
    const auto& dom = dp.VarDomains(); const auto& names = an->VarNames(); auto w = where(*prod), wa = where(*an); auto eval = prod->BuildEvaluator<double>(); auto sc = prod->BuildScenario<double>(); for (size_t v = 0; v < VARS.size(); ++v) if (wa[v] >= 0) g.label(dom[wa[v]].IsDiscrete() ? "discrete" : "continuous"); (void)names; int paths = g.n(1, 6);
    for (int k = 0; k < paths; ++k) { Path a = path(g, p.ev.size()); SHOW("spots " << pbt::vec(a.spot) << " numeraires " << pbt::vec(a.num)); Env e = start<double>(p); walk(p, e, a.spot, a.num); if (e.taken + e.skipped > 0) g.nontrivial(); fill(*sc, a.spot, a.num); prod->Evaluate(*sc, eval); if (e.bad || e.nearest < 1e-9 * e.big) continue; double tol = 1e-9 * std::max(1.0, e.big); Domain_ blur(Interval_(Bound_(-tol), Bound_(tol))); for (size_t v = 0; v < VARS.size(); ++v) if (wa[v] >= 0) { double x = eval.VarVals()[w[v]]; CHECK(dom[wa[v]].Includes(x) || (dom[wa[v]] + blur).Includes(x), VARS[v] << " ends at " << x << ", outside " << dom[wa[v]].Write()); } }
}
