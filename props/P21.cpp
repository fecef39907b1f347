#include "scriptdal.hpp"
#include <dal/math/aad/aad.hpp>
#include <functional>
using namespace Dal; using namespace Dal::Script; using Dal::AAD::Number_; using Dal::AAD::Tape_;
PROPERTY_DEF("P21", "Random products with conditionals nested up to three deep are evaluated by the smoothing evaluator with random smoothing widths (global, and overridden per comparison with ; or :): away from every threshold the values equal the plain evaluation, including flags that hold a few discrete values, and with a width of zero also exactly on the thresholds; for conditions on the spot the values and gradients equal a direct interpreter that blends branches by degree of truth; paths moved continuously through a threshold change values continuously. "
  "Non-trivial: at least one conditional executed (crisp), or blended (smoothed).")
namespace pbt { std::vector<std::string> ASSUMPTIONS = {"values that leave the finite range (above 1e15, or undefined) are not compared", "a script that divides by a variable that can only be zero is refused by the processing and not judged"}; void globalInit() {} }
using namespace scr;
static bool refused(const std::exception& e) { return std::string(e.what()).find("Division by {0}") != std::string::npos; }
static E c_(double x) { E e; e.op = 'c'; e.c = x; return e; } static E v_(int v) { E e; e.op = 'v'; e.v = v; return e; } static E s_() { E e; e.op = 's'; return e; } static E b_(char o, E a, E b) { E e; e.op = o; e.a = {std::move(a), std::move(b)}; return e; }
// conditions whose expression involves the spot additively, so that it can take every value
static void spotConditions(pbt::G& g, S& s) { if (s.kind != 'i') return; std::function<void(B&)> f = [&](B& b) { for (auto& x : b.a) f(x); if (!b.e.empty()) { if (g.chance(50)) b.e = {s_(), c_(g.n(0, 300) * 0.5)}; else b.e[0] = b_(g.b() ? '+' : '-', s_(), b.e[0]); } }; f(s.c); for (auto& t : s.t) spotConditions(g, t); for (auto& t : s.f) spotConditions(g, t); }
SUB("smoothed", 20000, 500000) {
    Product p = product(g, false, true); for (auto& e : p.ev) for (auto& s : e) spotConditions(g, s); finish(p); if (overflows(p.ev, p.k)) g.discard(); double eps = g.pick(std::vector<double>{0.25, 1, 5, 20, 60}); Text t = text(g, p, g.chance(20)); SHOW(show(t) << " width " << eps); Global::Dates_::SetEvaluationDate(day(p.today)); auto prod = build(t); size_t nested = 0; try { nested = prod->PreProcess(true, g.b()); } catch (const std::exception& e) { if (refused(e)) g.discard(); throw; }
    auto w = where(*prod); auto eval = prod->BuildFuzzyEvaluator<double>((int)nested, eps); auto sc = prod->BuildScenario<double>(); int paths = g.n(1, 3); for (int k = 0; k < paths; ++k) { Path a = path(g, p.ev.size()); SHOW("spots " << pbt::vec(a.spot) << " numeraires " << pbt::vec(a.num)); Env e = start<double>(p); Blur<double> z; z.def = eps; for (size_t i = 0; i < p.ev.size(); ++i) { e.spot = a.spot[i]; e.num = a.num[i]; for (auto& s : p.ev[i]) runSmooth(s, e, z); } fill(*sc, a.spot, a.num); if (g.chance(20)) { FuzzyEvaluator_<double> c(eval); eval = c; } prod->Evaluate(*sc, eval); if (z.blended) { g.nontrivial(); g.label("blended"); } if (e.bad) continue; double big = e.big * (1 + 1 / std::min(eps, 0.25)) * 100; for (int v : p.vars) CHECK(agree(eval.VarVals()[w[v]], e.var[v], big), VARS[v] << " is " << eval.VarVals()[w[v]] << ", expected " << e.var[v]); }
}
SUB("gradients", 8000, 200000) {
    Product p = product(g, false, true); for (auto& e : p.ev) for (auto& s : e) spotConditions(g, s); finish(p); if (overflows(p.ev, p.k)) g.discard(); double eps = g.pick(std::vector<double>{1, 5, 20, 60}); Text t = text(g, p, false); SHOW(show(t) << " width " << eps); Global::Dates_::SetEvaluationDate(day(p.today)); auto prod = build(t); size_t nested = 0; try { nested = prod->PreProcess(true, false); } catch (const std::exception& e) { if (refused(e)) g.discard(); throw; }
    Path a = path(g, p.ev.size()); for (double& x : a.spot) x = g.uni(1, 150); SHOW("spots " << pbt::vec(a.spot) << " numeraires " << pbt::vec(a.num)); size_t n = p.ev.size(); auto e = start<Dual>(p); Blur<Dual> z; z.def = eps; int id = 0; std::vector<Dual> s, m; for (double x : a.spot) s.push_back(Dual::input(x, id++)); for (double x : a.num) m.push_back(Dual::input(x, id++)); for (auto& k : e.k) k = Dual::input(k.v, id++); for (size_t i = 0; i < n; ++i) { e.spot = s[i]; e.num = m[i]; for (auto& q : p.ev[i]) runSmooth(q, e, z); } if (e.bad || e.kink < 1e-9 * e.big || z.closest < 1e-7 * e.big) g.discard(); if (z.blended) g.nontrivial();
    auto w = where(*prod); int v = p.vars[g.draw(p.vars.size())]; std::unique_ptr<Tape_> tape(new Tape_); Number_::SetTape(*tape); auto eval = prod->BuildFuzzyEvaluator<Number_>((int)nested, eps); auto sc = prod->BuildScenario<Number_>(); std::vector<Number_> sp, nu; for (double x : a.spot) sp.emplace_back(x); for (double x : a.num) nu.emplace_back(x); fill(*sc, sp, nu); prod->Evaluate(*sc, eval); CHECK(agree(eval.VarVals()[w[v]].value(), e.var[v].v, 1000 * e.big), VARS[v] << " is " << eval.VarVals()[w[v]].value() << ", expected " << e.var[v].v);
    Number_ res = eval.VarVals()[w[v]] * 1.0; res.PropagateToStart(); auto near = [&](double x, double d, double mm, const std::string& what) { CHECK(std::fabs(x - d) <= 1e-8 * mm + 1e-300, "derivative of " << VARS[v] << " to " << what << " is " << x << ", expected " << d); if (d != 0 && z.blended) g.label("non-zero derivative of a blend"); };
    for (size_t i = 0; i < n; ++i) { near(sp[i].Adjoint(), e.var[v].d[i], e.var[v].m[i], "spot " + std::to_string(i)); near(nu[i].Adjoint(), e.var[v].d[n + i], e.var[v].m[n + i], "numeraire " + std::to_string(i)); } for (size_t j = 0; j < p.k.size(); ++j) { const auto& names = prod->ConstVarNames(); for (size_t i = 0; i < names.size(); ++i) if (names[i] == String_(KNAMES[j])) near(eval.ConstVarVals()[i].Adjoint(), e.var[v].d[2 * n + j], e.var[v].m[2 * n + j], KNAMES[j]); }
}
// a width of zero is no smoothing: also exactly on the threshold
SUB("no-smoothing", 8000, 200000) {
    Product p = product(g, false, true); double def = g.pick(std::vector<double>{0, 0, 5, 60}); std::function<void(B&)> f = [&](B& b) { for (auto& x : b.a) f(x); if (!b.e.empty()) { b.e = {s_(), c_(g.n(0, 30) * 0.5)}; if (g.chance(20)) std::swap(b.e[0], b.e[1]); b.eps = def > 0 || g.chance(30) ? 0 : -1; } }; std::function<void(S&)> q = [&](S& s) { if (s.kind != 'i') return; f(s.c); for (auto& t : s.t) q(t); for (auto& t : s.f) q(t); }; for (auto& e : p.ev) for (auto& s : e) q(s); finish(p); if (overflows(p.ev, p.k)) g.discard(); Text t = text(g, p, g.chance(20)); SHOW(show(t) << " width " << def); Global::Dates_::SetEvaluationDate(day(p.today)); auto prod = build(t); size_t nested = 0; try { nested = prod->PreProcess(true, g.b()); } catch (const std::exception& e) { if (refused(e)) g.discard(); throw; }
    auto w = where(*prod); auto eval = prod->BuildFuzzyEvaluator<double>((int)nested, def); auto sc = prod->BuildScenario<double>(); int paths = g.n(1, 4); for (int k = 0; k < paths; ++k) { Path a = path(g, p.ev.size()); for (double& x : a.spot) x = g.n(0, 30) * 0.5; SHOW("spots " << pbt::vec(a.spot)); Env e = start<double>(p); walk(p, e, a.spot, a.num); fill(*sc, a.spot, a.num); prod->Evaluate(*sc, eval); if (e.taken + e.skipped) g.nontrivial(); if (e.bad) continue; for (int v : p.vars) CHECK(agree(eval.VarVals()[w[v]], e.var[v], e.big), VARS[v] << " is " << eval.VarVals()[w[v]] << ", the plain evaluation gives " << e.var[v]); }
}
// flags hold a few whole numbers; every other condition compares the spot with a level it is far from
static S flagStmt(pbt::G& g, int nf, int nv, int d) {
    S s; int w = g.n(0, 9); auto flag = [&] { return g.n(0, nf - 1); }; auto small = [&] { return c_(g.n(0, 3)); }; auto fe = [&]() { E e = v_(flag()); while (g.chance(35)) e = b_("+-*Mm"[g.n(0, 4)], e, g.b() ? v_(flag()) : small()); return e; };
    if (w <= 3 || (w > 5 && d <= 0)) { s.kind = '='; s.v = flag(); s.e = g.chance(60) ? small() : fe(); return s; } if (w <= 5) { s.kind = g.b() ? 'p' : '='; s.v = nf + g.n(0, nv - nf - 1); s.e = g.b() ? b_('*', fe(), s_()) : b_('+', v_(nf + g.n(0, nv - nf - 1)), fe()); return s; }
    s.kind = 'i'; std::function<B(int)> cond = [&](int q) { B b; if (q > 0 && g.chance(30)) { b.op = g.b() ? '&' : '|'; b.a = {cond(q - 1), cond(q - 1)}; return b; } b.op = "=!<>LG"[g.n(0, 5)]; if (g.chance(30)) b.e = {s_(), c_(g.n(0, 15) * 10)}; else b.e = {fe(), g.b() ? small() : fe()}; return b; }; s.c = cond(2); int n = g.n(1, 3); for (int i = 0; i < n; ++i) s.t.push_back(flagStmt(g, nf, nv, d - 1)); s.hasElse = g.b(); if (s.hasElse) { n = g.n(1, 3); for (int i = 0; i < n; ++i) s.f.push_back(flagStmt(g, nf, nv, d - 1)); } return s; }
SUB("far-from-thresholds", 20000, 500000) {
    Product p; int nv = g.n(2, (int)VARS.size()), nf = g.n(1, nv - 1), n = g.n(1, 4); for (int i = 0; i < n; ++i) { Ev e; int m = g.n(1, 4); for (int j = 0; j < m; ++j) e.push_back(flagStmt(g, nf, nv, 2)); p.ev.push_back(e); p.gaps.push_back(g.n(1, 300)); } p.today = g.n(36526, 54788); finish(p); if (overflows(p.ev, p.k)) g.discard(); double eps = g.pick(std::vector<double>{1e-6, 0.01, 1, 8}); Text t = text(g, p, g.chance(20)); SHOW(show(t) << " width " << eps); Global::Dates_::SetEvaluationDate(day(p.today)); auto prod = build(t); size_t nested = prod->PreProcess(true, g.b()); auto w = where(*prod); auto eval = prod->BuildFuzzyEvaluator<double>((int)nested, eps); auto sc = prod->BuildScenario<double>(); int paths = g.n(1, 4);
    for (int k = 0; k < paths; ++k) { Path a = path(g, p.ev.size()); for (double& x : a.spot) x = g.n(0, 15) * 10 + g.uni(4.01, 5.99); SHOW("spots " << pbt::vec(a.spot)); Env e = start<double>(p); walk(p, e, a.spot, a.num); fill(*sc, a.spot, a.num); prod->Evaluate(*sc, eval); if (e.taken + e.skipped) g.nontrivial(); if (e.bad) continue; for (int v : p.vars) CHECK(agree(eval.VarVals()[w[v]], e.var[v], e.big), VARS[v] << " is " << eval.VarVals()[w[v]] << ", the plain evaluation gives " << e.var[v]); }
}
SUB("flags-through-a-threshold", 20000, 500000) {   // a barrier that sets a flag: blended values lie between the two outcomes and move continuously with the spot
    double L = g.n(50, 150), eps = g.n(1, 40) * 0.5, reb = g.n(0, 20), def = g.b() ? eps : 7; bool own = def != eps; int first = g.n(0, 3), second = g.n(0, 3); if (first == second) second = first + 1; std::string cmp = g.pick(std::vector<std::string>{">", ">=", "<", "<="}), ov = own ? std::string(g.b() ? " ; " : " : ") + Printer::num(eps) : ""; int test = g.b() ? first : second; std::string cmp2 = g.pick(std::vector<std::string>{"=", "!=", ">", ">=", "<", "<="}); Text t; t.ev.emplace_back(40000, "alive = " + std::to_string(first) + " IF spot() " + cmp + " " + Printer::num(L) + ov + " THEN alive = " + std::to_string(second) + " END"); t.ev.emplace_back(40100, "IF alive " + cmp2 + " " + std::to_string(test) + " THEN x pays spot() ELSE x pays " + Printer::num(reb) + " END"); SHOW(show(t) << " width " << def); g.nontrivial();
    Global::Dates_::SetEvaluationDate(day(39000)); auto prod = build(t, "x"); size_t nested = prod->PreProcess(true, g.b()); auto ev = prod->BuildFuzzyEvaluator<double>((int)nested, def); auto sc = prod->BuildScenario<double>(); double s2 = g.n(30, 180) + 0.5; auto f = [&](double s1) { fill<double>(*sc, {s1, s2}, {1.0, 1.0}); prod->Evaluate(*sc, ev); return ev.VarVals()[prod->PayOffIdx()]; };
    auto crisp = [&](double s1) { bool up = cmp == ">" ? s1 > L : cmp == ">=" ? s1 >= L : cmp == "<" ? s1 < L : s1 <= L; int a = up ? second : first; bool q = cmp2 == "=" ? a == test : cmp2 == "!=" ? a != test : cmp2 == ">" ? a > test : cmp2 == ">=" ? a >= test : cmp2 == "<" ? a < test : a <= test; return q ? s2 : reb; }; double lo = f(L - eps), hi = f(L + eps); CHECK(std::fabs(lo - crisp(L - eps)) < 1e-9 && std::fabs(hi - crisp(L + eps)) < 1e-9, "below the band " << lo << ", above " << hi << ", plain " << crisp(L - eps) << ", " << crisp(L + eps));
    double prev = lo; int N = 40; for (int i = 1; i <= N; ++i) { double s1 = L - eps + 2 * eps * i / N, x = f(s1); CHECK(x >= std::min(lo, hi) - 1e-9 && x <= std::max(lo, hi) + 1e-9, "at " << s1 << " the value " << x << " is outside " << lo << " to " << hi); CHECK(std::fabs(x - prev) <= std::fabs(hi - lo) * (2.0 * 2 / N) + 1e-9, "the value jumps from " << prev << " to " << x << " at " << s1); double mid = lo + (hi - lo) * std::min(1.0, std::max(0.0, (s1 - L + eps / 2) / eps)); CHECK(std::fabs(x - mid) <= 1e-9 * (1 + std::fabs(lo) + std::fabs(hi)), "at " << s1 << " the value is " << x << ", linear blending gives " << mid); prev = x; }
}
