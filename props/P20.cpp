#include "scriptdal.hpp"
#include <dal/math/aad/aad.hpp>
#include <functional>
using namespace Dal; using namespace Dal::Script; using Dal::AAD::Number_; using Dal::AAD::Tape_;
PROPERTY_DEF("P20", "Random products (as in P19, with variables that often hold only a few discrete values, so that conditions are decided before valuation) are evaluated after domain and constant-condition processing, compiled with and without that processing, compiled twice, and with doubles and recorded numbers; values are compared with a direct interpreter and gradients to spots, numeraires and named constants with its forward-mode derivatives. "
  "Non-trivial: at least one conditional executed, or at least two payments.")
namespace pbt { std::vector<std::string> ASSUMPTIONS = {"values that leave the finite range (above 1e15, or undefined) are not compared, and scripts with such values in a branch not taken are not processed", "comparisons that miss their threshold by less than a billionth of the largest value involved are not judged (processing treats differences below 2e-14 as zero)", "a script that divides by a variable that can only be zero is refused by the processing and not judged"}; void globalInit() {} }
using namespace scr;
// a mixture of free scripts and of scripts built on flags: variables that only ever hold a few values
static E c_(double x) { E e; e.op = 'c'; e.c = x; return e; } static E v_(int v) { E e; e.op = 'v'; e.v = v; return e; } static E s_() { E e; e.op = 's'; return e; } static E b_(char o, E a, E b) { E e; e.op = o; e.a = {std::move(a), std::move(b)}; return e; }
static S flagStmt(pbt::G& g, int nf, int nv, int nk, int d) {
    S s; int w = g.n(0, 9); auto flag = [&] { return g.n(0, nf - 1); }; auto small = [&] { return c_(g.n(0, 3)); };
    auto fe = [&]() { E e = v_(flag()); while (g.chance(40)) e = b_("+-*Mm/"[g.n(0, 5)], e, g.b() ? v_(flag()) : small()); if (e.op == '/') e = b_('/', e.a[0], b_('+', b_('*', v_(flag()), v_(flag())), c_(1))); if (g.chance(15)) { E n; n.op = 'n'; n.a = {e}; e = n; } if (g.chance(12)) { E x = b_('*', e, e), n; switch (g.n(0, 2)) { case 0: n.op = 'q'; n.a = {b_('+', x, c_(0.25))}; e = n; break; case 1: n.op = 'l'; n.a = {b_('+', x, c_(0.5))}; e = n; break; default: e = b_('^', c_(g.of({0.0, 0.5, 2.0})), b_('+', b_('m', x, c_(4)), c_(0.5))); } } return e; };   // of few values too: what the values cannot be together is outside the function's domain
    if (w <= 3 || (w > 6 && d <= 0)) { s.kind = '='; s.v = flag(); s.e = g.chance(60) ? small() : fe(); if (g.chance(10)) s.e = s_(); return s; }
    if (w <= 5) { s.kind = g.b() ? 'p' : '='; s.v = nf + g.n(0, nv - nf - 1); E k; k.op = 'k'; k.v = nk ? g.n(0, nk - 1) : 0; s.e = g.chance(40) ? b_('*', fe(), s_()) : g.chance(50) ? b_('+', v_(nf + g.n(0, nv - nf - 1)), fe()) : nk ? b_('*', k, fe()) : fe(); return s; }
    s.kind = 'i'; std::function<B(int)> cond = [&](int q) { B b; if (q > 0 && g.chance(30)) { b.op = g.b() ? '&' : '|'; b.a = {cond(q - 1), cond(q - 1)}; return b; } b.op = "=!<>LG"[g.n(0, 5)]; int z = g.n(0, 5); E one; if (z == 0) { b.e = {s_(), c_(g.n(0, 200) * 0.5)}; } else if (z == 1) { one.op = "lqe"[g.n(0, 2)]; one.a = {one.op == 'e' ? b_('/', s_(), c_(100)) : b_('/', s_(), c_(g.n(1, 150)))}; b.e = {one, c_(g.n(0, 3))}; } else if (z == 2) b.e = {b_('-', s_(), b_('*', c_(g.n(1, 3)), v_(flag()))), small()}; else b.e = {fe(), g.b() ? small() : fe()}; return b; };
    s.c = cond(2); int n = g.n(1, 3); for (int i = 0; i < n; ++i) s.t.push_back(flagStmt(g, nf, nv, nk, d - 1)); s.hasElse = g.b(); if (s.hasElse) { n = g.n(1, 3); for (int i = 0; i < n; ++i) s.f.push_back(flagStmt(g, nf, nv, nk, d - 1)); } return s; }
static Product some(pbt::G& g, bool wild) {
    if (g.chance(40)) { Product p = product(g, wild); finish(p); return p; }
    Product p; int nv = g.n(2, (int)VARS.size()), nf = g.n(1, nv - 1), nk = g.n(0, g.chance(20) ? (int)scr::KNAMES.size() : 3), n = g.n(1, 4); for (int i = 0; i < nk; ++i) p.k.push_back(g.n(0, 400) * 0.25); for (int i = 0; i < n; ++i) { Ev e; int m = g.n(1, 4); for (int j = 0; j < m; ++j) e.push_back(flagStmt(g, nf, nv, nk, 2)); p.ev.push_back(e); p.gaps.push_back(g.n(1, 300)); } p.today = g.n(36526, 54788); finish(p); return p; }
static bool refused(const std::exception& e) { return std::string(e.what()).find("Division by {0}") != std::string::npos; }
// which: 0 processed, 1 compiled, 2 processed and compiled
static void variant(pbt::G& g, int which, int paths, bool wild) {
    Product p = some(g, wild); if (which != 1 && overflows(p.ev, p.k)) g.discard(); Text t = text(g, p, g.chance(20)); SHOW(show(t)); Global::Dates_::SetEvaluationDate(day(p.today)); auto prod = build(t); try { prod->PreProcess(false, which == 1); } catch (const std::exception& e) { if (refused(e)) g.discard(); throw; } if (which) prod->Compile(); if (which && g.chance(20)) { SHOW("compiled twice"); prod->Compile(); }
    auto w = where(*prod); auto eval = prod->BuildEvaluator<double>(); auto state = prod->BuildEvalState<double>(); auto sc = prod->BuildScenario<double>();
    for (int k = 0; k < paths; ++k) { Path a = path(g, p.ev.size()); SHOW("spots " << pbt::vec(a.spot) << " numeraires " << pbt::vec(a.num)); Env e = start<double>(p); walk(p, e, a.spot, a.num); if (e.taken + e.skipped > 0 || e.payments > 1) g.nontrivial(); fill(*sc, a.spot, a.num); if (which) prod->EvaluateCompiled(*sc, state); else prod->Evaluate(*sc, eval); if (e.bad || e.nearest < 1e-9 * e.big) { g.label("not judged"); continue; } g.label("compared"); const auto& got = which ? state.VarVals() : eval.VarVals(); for (size_t v = 0; v < VARS.size(); ++v) if (w[v] >= 0) CHECK(agree(got[w[v]], e.var[v], e.big), (which ? "compiled: " : "processed: ") << VARS[v] << " is " << got[w[v]] << ", expected " << e.var[v]); }
}
SUB("processed", 25000, 600000) { variant(g, 0, g.n(1, 4), false); }
SUB("compiled", 25000, 600000) { variant(g, 1, g.n(1, 4), g.chance(10)); }
SUB("processed-and-compiled", 25000, 600000) { variant(g, 2, g.n(1, 4), false); }
SUB("gradients", 10000, 250000) {
    Product p = some(g, false); bool skip = g.b(); if (overflows(p.ev, p.k)) g.discard(); Text t = text(g, p, false); SHOW(show(t) << (skip ? " compiled" : " processed and compiled")); Global::Dates_::SetEvaluationDate(day(p.today)); auto prod = build(t); try { prod->PreProcess(false, skip); } catch (const std::exception& e) { if (refused(e)) g.discard(); throw; } prod->Compile(); Path a = path(g, p.ev.size()); for (double& x : a.spot) x = g.uni(1, 150); SHOW("spots " << pbt::vec(a.spot) << " numeraires " << pbt::vec(a.num)); size_t n = p.ev.size();
    auto e = start<Dual>(p); std::vector<Dual> s, m; int id = 0; for (double x : a.spot) s.push_back(Dual::input(x, id++)); for (double x : a.num) m.push_back(Dual::input(x, id++)); for (auto& k : e.k) k = Dual::input(k.v, id++); walk(p, e, s, m); if (e.bad || e.nearest < 1e-9 * e.big) g.discard(); bool tie = e.kink < 1e-9 * e.big; if (e.taken + e.skipped > 0 || e.payments > 1) g.nontrivial();
    auto w = where(*prod); int v = p.vars[g.draw(p.vars.size())]; std::unique_ptr<Tape_> tape(new Tape_); Number_::SetTape(*tape); auto eval = prod->BuildEvalState<Number_>(); auto sc = prod->BuildScenario<Number_>(); std::vector<Number_> sp, nu; for (double x : a.spot) sp.emplace_back(x); for (double x : a.num) nu.emplace_back(x); fill(*sc, sp, nu); prod->EvaluateCompiled(*sc, eval);
    for (int q : p.vars) CHECK(agree(eval.VarVals()[w[q]].value(), e.var[q].v, e.big), VARS[q] << " is " << eval.VarVals()[w[q]].value() << ", expected " << e.var[q].v); if (tie) { g.label("tie"); return; }
    Number_ res = eval.VarVals()[w[v]] * 1.0; res.PropagateToStart(); auto near = [&](double x, double d, double mm, const std::string& what) { CHECK(std::fabs(x - d) <= 1e-9 * mm + 1e-300, "derivative of " << VARS[v] << " to " << what << " is " << x << ", expected " << d); if (d != 0) g.label("non-zero derivative"); };
    for (size_t i = 0; i < n; ++i) { near(sp[i].Adjoint(), e.var[v].d[i], e.var[v].m[i], "spot " + std::to_string(i)); near(nu[i].Adjoint(), e.var[v].d[n + i], e.var[v].m[n + i], "numeraire " + std::to_string(i)); } for (size_t j = 0; j < p.k.size(); ++j) { const auto& names = prod->ConstVarNames(); for (size_t i = 0; i < names.size(); ++i) if (names[i] == String_(KNAMES[j])) { near(eval.ConstVarVals()[i].Adjoint(), e.var[v].d[2 * n + j], e.var[v].m[2 * n + j], "the constant " + KNAMES[j]); if (e.var[v].d[2 * n + j] != 0) g.label("non-zero constant risk"); } }
}
SUB("interleaved-products", 4000, 100000) {   // two compiled products evaluated in turns do not disturb each other
    std::vector<Product> p; std::vector<std::unique_ptr<ScriptProduct_>> prod; int today = g.n(36526, 54788); for (int i = 0; i < 2; ++i) { p.push_back(some(g, false)); if (overflows(p[i].ev, p[i].k)) g.discard(); p[i].today = today; Text t = text(g, p[i], false); SHOW(show(t)); Global::Dates_::SetEvaluationDate(day(today)); prod.push_back(build(t)); try { prod[i]->PreProcess(false, g.b()); } catch (const std::exception& e) { if (refused(e)) g.discard(); throw; } prod[i]->Compile(); }
    std::vector<EvalState_<double>> st; for (int i = 0; i < 2; ++i) st.push_back(prod[i]->BuildEvalState<double>()); int n = g.n(2, 6); for (int q = 0; q < n; ++q) { int i = g.n(0, 1); Path a = path(g, p[i].ev.size()); Env e = start<double>(p[i]); walk(p[i], e, a.spot, a.num); if (e.taken + e.skipped > 0) g.nontrivial(); auto sc = prod[i]->BuildScenario<double>(); fill(*sc, a.spot, a.num); prod[i]->EvaluateCompiled(*sc, st[i]); if (e.bad || e.nearest < 1e-9 * e.big) continue; auto w = where(*prod[i]); for (size_t v = 0; v < VARS.size(); ++v) if (w[v] >= 0) CHECK(agree(st[i].VarVals()[w[v]], e.var[v], e.big), "product " << i << ": " << VARS[v] << " is " << st[i].VarVals()[w[v]] << ", expected " << e.var[v]); }
}
