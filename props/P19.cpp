#include "scriptdal.hpp"
#include <dal/math/aad/aad.hpp>
#include <dal/time/daybasis.hpp>
#include <dal/time/dateutils.hpp>
using namespace Dal; using namespace Dal::Script; using Dal::AAD::Number_; using Dal::AAD::Tape_;
PROPERTY_DEF("P19", "Random products of one to four dated events are generated as syntax trees over assignments, payments, nested conditionals, comparisons, AND/OR, arithmetic, powers, maxima and minima of two to five arguments, LOG/SQRT/EXP, spots and named constants, printed in the script language with random spelling, whitespace and redundant parentheses, and evaluated by the library on random paths; every variable is compared with a direct interpreter of the tree, "
  "and the adjoint gradients to all spots, numeraires and constants with forward-mode derivatives carried by the same interpreter. Non-trivial: at least one conditional executed, or at least two payments.")
namespace pbt { std::vector<std::string> ASSUMPTIONS = {"values that leave the finite range (above 1e15, or undefined) are not compared", "gradients are compared away from comparison thresholds and ties of maxima and minima", "events lie on or after the evaluation date"}; void globalInit() {} }
using namespace scr;
static void compare(pbt::G& g, const ScriptProduct_& prod, const Env& ref, const Vector_<double>& got, const char* what) { auto w = where(prod); for (size_t v = 0; v < VARS.size(); ++v) if (w[v] >= 0) CHECK(agree(got[w[v]], ref.var[v], ref.big), what << ": " << VARS[v] << " is " << got[w[v]] << ", expected " << ref.var[v]); }
static void mentioned(pbt::G& g, const Product& p, const ScriptProduct_& prod) { auto w = where(prod); CHECK(prod.VarNames().size() == p.vars.size(), "the product lists " << prod.VarNames().size() << " variables, the script mentions " << p.vars.size()); for (int v : p.vars) CHECK(w[v] >= 0, VARS[v] << " is not listed"); CHECK(prod.ConstVarNames().size() == p.ks.size(), "the product lists " << prod.ConstVarNames().size() << " constants, the script mentions " << p.ks.size()); }
SUB("evaluation", 25000, 600000) {
    Product p = product(g, g.chance(25)); finish(p); Text t = text(g, p, g.chance(60)); SHOW(show(t)); Global::Dates_::SetEvaluationDate(day(p.today)); auto prod = build(t); prod->PreProcess(false, true); mentioned(g, p, *prod); auto eval = prod->BuildEvaluator<double>(); auto sc = prod->BuildScenario<double>(); int paths = g.chance(2) ? g.n(130, 300) : g.n(1, 4);
    for (int k = 0; k < paths; ++k) { Path a = path(g, p.ev.size()); SHOW("spots " << pbt::vec(a.spot) << " numeraires " << pbt::vec(a.num)); Env e = start<double>(p); walk(p, e, a.spot, a.num); fill(*sc, a.spot, a.num); prod->Evaluate(*sc, eval); if (e.taken + e.skipped > 0 || e.payments > 1) g.nontrivial(); if (e.bad) { g.label("undefined"); continue; } g.label("compared"); compare(g, *prod, e, eval.VarVals(), k ? "later path" : "first path"); }
}
SUB("copied-evaluators", 8000, 200000) {   // a copy or a moved-to evaluator goes on as the original would
    Product p = product(g, false); finish(p); Text t = text(g, p, false); SHOW(show(t)); Product p2 = g.b() ? p : product(g, false); if (p2.k.size() == p.k.size()) for (auto& k : p2.k) k = g.n(0, 400) * 0.25; finish(p2); p2.today = p.today; Text t2 = text(g, p2, false); SHOW("another product: " << show(t2)); Global::Dates_::SetEvaluationDate(day(p.today)); auto prod = build(t); prod->PreProcess(false, true); auto prod2 = build(t2); prod2->PreProcess(false, true); auto sc = prod->BuildScenario<double>(), sc2 = prod2->BuildScenario<double>(); Evaluator_<double> a = prod->BuildEvaluator<double>(), b = prod->BuildEvaluator<double>(); std::vector<Evaluator_<double>> pool;
    auto use = [&](Evaluator_<double>& x, const char* what) { Path q = path(g, p.ev.size()); Env e = start<double>(p); walk(p, e, q.spot, q.num); fill(*sc, q.spot, q.num); prod->Evaluate(*sc, x); if (e.taken + e.skipped > 0 || e.payments > 1) g.nontrivial(); if (!e.bad) compare(g, *prod, e, x.VarVals(), what); };
    auto use2 = [&](Evaluator_<double>& x, const char* what) { Path q = path(g, p2.ev.size()); Env e = start<double>(p2); walk(p2, e, q.spot, q.num); fill(*sc2, q.spot, q.num); prod2->Evaluate(*sc2, x); if (!e.bad) compare(g, *prod2, e, x.VarVals(), what); };
    int n = g.n(1, 6); for (int i = 0; i < n; ++i) switch (g.n(0, 7)) { case 0: SHOW("use"); use(a, "original"); break; case 1: { SHOW("copy"); Evaluator_<double> c(a); use(c, "copy"); break; } case 2: SHOW("assign"); b = a; use(b, "assigned copy"); break; case 3: { SHOW("move"); Evaluator_<double> c(std::move(a)); use(c, "moved-to"); a = c; break; } case 4: { SHOW("move-assign"); b = prod->BuildEvaluator<double>(); a = std::move(b); b = a; use(a, "move-assigned"); break; } case 5: { SHOW("pool"); pool.push_back(a); use(pool[g.n(0, (int)pool.size() - 1)], "evaluator in a vector"); break; }
        case 6: { SHOW("assign from the other product's"); Evaluator_<double> o = prod2->BuildEvaluator<double>(); if (g.b()) use2(o, "other product"); b = o; use2(b, "assigned from another product's evaluator"); if (g.b()) { b = a; use(b, "assigned back"); } break; } case 7: { SHOW("move-assign from the other product's"); Evaluator_<double> o = prod2->BuildEvaluator<double>(); b = std::move(o); use2(b, "move-assigned from another product's evaluator"); break; } }
}
SUB("gradients", 8000, 200000) {
    Product p = product(g, false); finish(p); Text t = text(g, p, false); SHOW(show(t)); Global::Dates_::SetEvaluationDate(day(p.today)); auto prod = build(t); prod->PreProcess(false, true); Path a = path(g, p.ev.size()); for (double& x : a.spot) x = g.uni(1, 150); SHOW("spots " << pbt::vec(a.spot) << " numeraires " << pbt::vec(a.num)); size_t n = p.ev.size();
    auto e = start<Dual>(p); std::vector<Dual> s, m; int id = 0; for (double x : a.spot) s.push_back(Dual::input(x, id++)); for (double x : a.num) m.push_back(Dual::input(x, id++)); for (auto& k : e.k) k = Dual::input(k.v, id++); walk(p, e, s, m); if (e.bad || e.kink < 1e-9 * e.big) g.discard(); if (e.taken + e.skipped > 0 || e.payments > 1) g.nontrivial();
    auto w = where(*prod); int v = p.vars[g.draw(p.vars.size())]; std::unique_ptr<Tape_> tape(new Tape_); Number_::SetTape(*tape); auto eval = prod->BuildEvaluator<Number_>(); auto sc = prod->BuildScenario<Number_>(); std::vector<Number_> sp, nu; for (double x : a.spot) sp.emplace_back(x); for (double x : a.num) nu.emplace_back(x); fill(*sc, sp, nu); prod->Evaluate(*sc, eval);
    for (int q : p.vars) CHECK(agree(eval.VarVals()[w[q]].value(), e.var[q].v, e.big), VARS[q] << " is " << eval.VarVals()[w[q]].value() << ", expected " << e.var[q].v);
    Number_ res = eval.VarVals()[w[v]] * 1.0; res.PropagateToStart(); auto near = [&](double x, double d, double mm, const std::string& what) { CHECK(std::fabs(x - d) <= 1e-9 * mm + 1e-300, "derivative of " << VARS[v] << " to " << what << " is " << x << ", expected " << d); if (d != 0) g.label("non-zero derivative"); };
    for (size_t i = 0; i < n; ++i) { near(sp[i].Adjoint(), e.var[v].d[i], e.var[v].m[i], "spot " + std::to_string(i)); near(nu[i].Adjoint(), e.var[v].d[n + i], e.var[v].m[n + i], "numeraire " + std::to_string(i)); } for (size_t j = 0; j < p.k.size(); ++j) { const auto& names = prod->ConstVarNames(); for (size_t i = 0; i < names.size(); ++i) if (names[i] == String_(KNAMES[j])) near(eval.ConstVarVals()[i].Adjoint(), e.var[v].d[2 * n + j], e.var[v].m[2 * n + j], KNAMES[j]); }
}
SUB("payoff", 8000, 200000) {   // the value reported is the named variable, or else the one mentioned last
    Product p = product(g, false); finish(p); bool named = g.b(); int v = p.vars[g.draw(p.vars.size())]; Text t = text(g, p, g.b()); Printer pr(g, true); std::string pay = named ? pr.kw(VARS[v]) : ""; SHOW(show(t) << " payoff " << pay); g.nontrivial(p.vars.size() > 1); Global::Dates_::SetEvaluationDate(day(p.today)); auto prod = build(t, pay); prod->PreProcess(false, true);
    if (!named) { for (auto& e : p.ev) for (auto& s : e) if (ifs(s)) g.discard(); v = p.vars.back(); } CHECK(prod->PayOffIdx() < prod->VarNames().size() && prod->VarNames()[prod->PayOffIdx()] == String_(VARS[v]), "payoff is " << (int)prod->PayOffIdx() << ", expected " << VARS[v]);
}
SUB("accrual-factors", 6000, 150000) {   // DCF(basis, start, end) is the day-count fraction, anywhere a number is
    static const std::vector<std::string> bases = {"ACT_365F", "ACT_360", "BOND", "ACT_ACT", "ACT_365", "Actual/360", "Actual/365F"}; int a = g.n(36526, 50000), b = a + g.n(-400, 4000); std::string basis = g.pick(bases); double want; String_ sa = Date::ToString(day(a)), sb = Date::ToString(day(b)); try { want = DayBasis_(String_(basis))(day(a), day(b), nullptr); } catch (...) { g.discard(); want = 0; }
    Printer pr(g, true); std::string call = pr.kw("dcf") + pr.sp() + "(" + pr.sp() + basis + pr.sp() + "," + pr.sp() + std::string(sa.c_str()) + pr.sp() + "," + pr.sp() + std::string(sb.c_str()) + pr.sp() + ")"; double k = g.n(1, 40) * 0.5; Text t; t.ev.emplace_back(40000, "x = 2 * " + call + " + 1 y pays " + pr.num(k) + "*" + call + " IF " + call + " > 0.5 THEN z = 1 ELSE z = 2 END"); SHOW(show(t)); g.nontrivial(); Global::Dates_::SetEvaluationDate(day(36526)); auto prod = build(t); prod->PreProcess(false, true); auto ev = prod->BuildEvaluator<double>(); auto sc = prod->BuildScenario<double>(); fill<double>(*sc, {100.0}, {2.0}); prod->Evaluate(*sc, ev); const auto& n = prod->VarNames();
    for (size_t i = 0; i < n.size(); ++i) { double got = ev.VarVals()[i], exp = n[i] == "x" ? 2 * want + 1 : n[i] == "y" ? k * want / 2.0 : want > 0.5 ? 1 : 2; CHECK(std::fabs(got - exp) <= 1e-12 * (1 + std::fabs(exp)), n[i] << " is " << got << ", expected " << exp << " with " << call << " = " << want); }
}
