#include "scriptdal.hpp"
#include <dal/time/schedules.hpp>
#include <dal/time/dateincrement.hpp>
#include <dal/time/holidays.hpp>
#include <dal/time/holidaydata.hpp>
#include <functional>
using namespace Dal; using namespace Dal::Script; using namespace scr;
PROPERTY_DEF("P23", "Random event tables: numeric and text macros, then dated rows and schedule rows in any order, with several rows on one date, before, on and after the evaluation date, periods that fix at their beginning or end, PeriodBegin/PeriodEnd placeholders, calendars and business-day rules. The reference expands the table by hand (schedule dates from the schedule generator that P04 checks), runs past events with payments left out and future events in date order and row order, and the library's plain, processed and compiled evaluations must agree, as must dates, time line and sample definitions. "
  "Non-trivial: at least one past and one future event, or a schedule row with three or more periods.")
namespace pbt { std::vector<std::string> ASSUMPTIONS = {"past events do not read the spot (the library has no fixings for it)", "text macro names are not part of other words of the script", "values that leave the finite range are not compared"}; void globalInit() { Holidays::AddCenter("XYZ", {Date_(2024, 5, 1), Date_(2024, 10, 1), Date_(2025, 1, 1)}, {}); } }
static int serial(const Date_& d) { return (int)(d - Date_(2000, 1, 1)) + 36526; }
static void noSpot(E& e) { if (e.op == 's') { e.op = 'c'; e.c = 7; } if (e.op == 't') { E x; x.op = 'c'; x.c = 3; e = x; } for (auto& a : e.a) noSpot(a); } static void noSpot(B& b) { for (auto& e : b.e) noSpot(e); for (auto& a : b.a) noSpot(a); } static void noSpot(S& s) { noSpot(s.e); if (s.kind == 'i') { noSpot(s.c); for (auto& t : s.t) noSpot(t); for (auto& t : s.f) noSpot(t); } }
static void period(E& e, double v) { if (e.op == 'd') e.c = v; for (auto& a : e.a) period(a, v); } static void period(S& s, double v) { period(s.e, v); for (auto& t : s.t) period(t, v); for (auto& t : s.f) period(t, v); }
static void sprinkle(pbt::G& g, E& e, int nm, const std::vector<E>& macros, bool dcf, bool top = true) { if (e.op == 'c' || e.op == 's' || e.op == 'v') { if (dcf && g.chance(30)) { e = E(); e.op = 'd'; } else if (nm && !top && g.chance(15)) { int k = g.n(0, nm - 1); E t; t.op = 't'; t.v = k; t.a = {macros[k]}; e = t; } return; } if (e.op == '^' || e.op == 'l' || e.op == 'q') return; if (e.op == '/') { sprinkle(g, e.a[0], nm, macros, dcf, false); return; } for (auto& a : e.a) sprinkle(g, a, nm, macros, dcf, false); }
static void sprinkle(pbt::G& g, S& s, int nm, const std::vector<E>& m, bool dcf) { if (s.kind != 'i') sprinkle(g, s.e, nm, m, dcf); for (auto& t : s.t) sprinkle(g, t, nm, m, dcf); for (auto& t : s.f) sprinkle(g, t, nm, m, dcf); }
static void past(const S& s, Env& x) { if (s.kind == 'p') { ev(s.e, x); return; } if (s.kind == '=') { run(s, x); return; } if (cv(s.c, x)) { for (auto& t : s.t) past(t, x); } else for (auto& t : s.f) past(t, x); }
SUB("tables", 12000, 300000) {
    int today = g.chance(60) ? serial(Date_(2024, 3, 1)) + g.n(0, 400) : g.n(40000, 50000), nv = g.n(1, 4), nk = g.n(0, g.chance(20) ? (int)scr::KNAMES.size() : 3), nm = g.n(0, 3); std::vector<double> k; for (int i = 0; i < nk; ++i) k.push_back(g.n(0, 400) * (g.chance(25) ? -0.25 : 0.25)); Gen gen(g, nv, nk, false); Printer pr(g, g.chance(30)); std::vector<E> macros; for (int i = 0; i < nm; ++i) { E e = gen.expr(2); E one; one.op = 'p'; one.a = {e}; macros.push_back(one); } Vector_<Cell_> c; Vector_<String_> e; auto row = [&](const Cell_& cell, const std::string& what) { c.push_back(cell); e.push_back(String_(what)); };
    std::vector<std::pair<int, int>> heads; for (int i = 0; i < nk; ++i) heads.emplace_back(0, i); for (int i = 0; i < nm; ++i) heads.emplace_back(1, i); g.shuffle(heads); for (auto& h : heads) { std::string n = pr.kw(h.first ? MACROS[h.second] : KNAMES[h.second]), v = h.first ? "(" + pr.expr(macros[h.second]) + ")" : Printer::num(k[h.second]); SHOW("[" << n << "] " << v); row(Cell_(String_(n)), v); }
    std::map<int, Ev> all; int rows = g.n(1, 4), longest = 0; bool anyPast = false, anyFuture = false; for (int r = 0; r < rows; ++r) { bool dcf = g.chance(35); Ev st = gen.event(g.n(1, 3), 1); for (auto& s : st) sprinkle(g, s, nm, macros, dcf);
        if (!dcf) { int d = today + (g.chance(15) ? 0 : g.n(-300, 400)); if (d < today) for (auto& s : st) noSpot(s); (d < today ? anyPast : anyFuture) = true; std::string txt = pr.event(st); SHOW("[" << d << " (today " << (d - today >= 0 ? "+" : "") << d - today << ")] " << txt); row(Cell_(day(d)), txt); for (auto& s : st) all[d].push_back(s); }
        else { int a = today + g.n(-500, 200), span = g.n(20, 700), b = a + span; std::string freq = g.pick(std::vector<std::string>{"1M", "3M", "6M", "1Y", "2W", "1W"}); bool begin = g.chance(40), cal = g.chance(40), fol = g.chance(40); auto sched = MakeSchedule(day(a), Cell_(day(b)), Holidays_(cal ? "XYZ" : ""), Date::ParseIncrement(String_(freq)), DateGeneration_("Forward"), BizDayConvention_(fol ? "Following" : "Unadjusted")); bool touches = false; for (size_t i = 1; i < sched.size(); ++i) if (serial(begin ? sched[i - 1] : sched[i]) < today) touches = true; if (touches) for (auto& s : st) noSpot(s);
            std::vector<std::string> f = {"START: " + std::string(Date::ToString(day(a)).c_str()), "END: " + std::string(Date::ToString(day(b)).c_str()), "FREQ: " + freq}; if (cal) f.push_back("CALENDAR: XYZ"); if (fol) f.push_back("BizRule: Following"); if (begin || g.chance(30)) f.push_back(begin ? "FIXING: BEGIN" : "FIXING: END"); g.shuffle(f); std::string h; for (auto& x : f) h += x + " "; std::string txt = pr.event(st); SHOW("[" << h << "] " << txt); row(Cell_(String_(h)), txt); longest = std::max(longest, (int)sched.size() - 1);
            for (size_t i = 1; i < sched.size(); ++i) { int d = serial(begin ? sched[i - 1] : sched[i]); (d < today ? anyPast : anyFuture) = true; for (auto s : st) { period(s, (double)(sched[i] - sched[i - 1]) / 365.0); all[d].push_back(s); } } } }
    g.nontrivial((anyPast && anyFuture) || longest >= 3); SHOW("today " << today); Global::Dates_::SetEvaluationDate(day(today)); std::unique_ptr<ScriptProduct_> prod(new ScriptProduct_(c, e)); std::vector<int> fut, pst; std::vector<Ev> fev; for (auto& x : all) if (x.first >= today) { fut.push_back(x.first); fev.push_back(x.second); } else pst.push_back(x.first);
    CHECK(prod->EventDates().size() == fut.size() && prod->Events().size() == fut.size(), "the product has " << prod->EventDates().size() << " future events, expected " << fut.size()); for (size_t i = 0; i < fut.size(); ++i) CHECK(prod->EventDates()[i] == day(fut[i]), "event " << i << " is on " << Date::ToString(prod->EventDates()[i]) << ", expected " << Date::ToString(day(fut[i]))); CHECK(prod->PastEventDates().size() == pst.size(), "the product has " << prod->PastEventDates().size() << " past events, expected " << pst.size()); for (size_t i = 0; i < pst.size(); ++i) CHECK(prod->PastEventDates()[i] == day(pst[i]), "past event " << i);
    std::vector<Ev> whole; for (auto& x : all) whole.push_back(x.second); if (overflows(whole, k)) g.discard(); int how = g.n(0, 3); try { prod->PreProcess(false, how == 0 || how == 2); } catch (const std::exception& x) { if (std::string(x.what()).find("Division by {0}") != std::string::npos) g.discard(); throw; } CHECK(prod->TimeLine().size() == fut.size() && prod->DefLine().size() == fut.size(), "time line has " << prod->TimeLine().size() << " entries for " << fut.size() << " events"); for (size_t i = 0; i < fut.size(); ++i) { double t = (fut[i] - today) / 365.0; const auto& d = prod->DefLine()[i]; CHECK(std::fabs(prod->TimeLine()[i] - t) < 1e-12 && d.numeraire_ && d.forwardMats_.size() == 1 && d.forwardMats_[0].size() == 1 && std::fabs(d.forwardMats_[0][0] - t) < 1e-12, "time " << prod->TimeLine()[i] << " of event " << i << ", expected " << t); }
    Env env; env.var.assign(VARS.size(), 0.0); env.k = k; for (int d : pst) for (auto& s : all[d]) past(s, env); auto w = where(*prod); if (!env.bad && env.nearest > 1e-9 * env.big) for (size_t v = 0; v < VARS.size(); ++v) if (w[v] >= 0) CHECK(agree(prod->VarValues()[w[v]], env.var[v], env.big), "after past events " << VARS[v] << " is " << prod->VarValues()[w[v]] << ", expected " << env.var[v]);
    if (prod->VarNames().empty()) return; Env start = env; if (how >= 2) prod->Compile(); auto st = prod->BuildEvalState<double>(); auto evl = prod->BuildEvaluator<double>(); auto sc = prod->BuildScenario<double>(); int paths = g.n(1, 3); for (int q = 0; q < paths; ++q) { Path a = path(g, fut.size()); SHOW("spots " << pbt::vec(a.spot)); env = start; for (size_t i = 0; i < fut.size(); ++i) { env.spot = a.spot[i]; env.num = a.num[i]; for (auto& s : fev[i]) run(s, env); } fill(*sc, a.spot, a.num); if (how >= 2) prod->EvaluateCompiled(*sc, st); else prod->Evaluate(*sc, evl); if (env.bad || env.nearest < 1e-9 * env.big) continue; const auto& got = how >= 2 ? st.VarVals() : evl.VarVals(); for (size_t v = 0; v < VARS.size(); ++v) if (w[v] >= 0) CHECK(agree(got[w[v]], env.var[v], env.big), (how == 0 ? "plain: " : how == 1 ? "processed: " : how == 2 ? "compiled: " : "processed and compiled: ") << VARS[v] << " is " << got[w[v]] << ", expected " << env.var[v]); }
}
SUB("refused-tables", 6000, 150000) {
    std::string a = g.pick(KNAMES), b = "x = 1"; Printer pr(g, true); Vector_<Cell_> c; Vector_<String_> e; auto row = [&](const Cell_& x, const std::string& t) { c.push_back(x); e.push_back(String_(t)); }; Cell_ d(day(45000)); int w = g.n(0, 4); g.nontrivial(); bool num = g.b(), num2 = g.b(); std::string v1 = num ? "110.5" : "spot() + 1", v2 = num2 ? "120" : "spot() + 2"; SHOW("defect " << w << " with " << v1 << " and " << v2); Global::Dates_::SetEvaluationDate(day(44000));
    switch (w) { case 0: row(Cell_(String_(pr.kw(a))), v1); row(Cell_(String_(pr.kw(a))), v2); row(d, b); break; case 1: row(d, b); row(Cell_(String_(a)), v1); break; case 2: row(Cell_("START: 2024-01-01 END: 2024-03-01 FREQ: 1M"), b); row(Cell_(String_(a)), v1); break; case 3: row(d, b); c.push_back(d); break; default: row(Cell_(String_(a)), v1); row(d, b); e.push_back("y = 1"); break; } bool ok = true; try { ScriptProduct_ p(c, e); } catch (const std::exception&) { ok = false; } CHECK(!ok, (w == 0 ? "a macro defined twice" : w <= 2 ? "a macro after an event" : "rows without an event or a date") << " is accepted");
}
SUB("long-past", 300, 6000) {   // many past payments
    int n = g.n(100, 400), today = g.n(44000, 46000); Vector_<Cell_> c; Vector_<String_> e; for (int i = 0; i < n; ++i) { c.push_back(Cell_(day(today - n + i))); e.push_back("x pays 1 y = y + 2"); } c.push_back(Cell_(day(today + 100))); e.push_back("x pays 3 * y"); SHOW(n << " past payments"); g.nontrivial(); Global::Dates_::SetEvaluationDate(day(today)); ScriptProduct_ p(c, e, "x"); p.PreProcess(false, g.b()); auto ev = p.BuildEvaluator<double>(); auto sc = p.BuildScenario<double>(); fill<double>(*sc, {100.0}, {2.0}); p.Evaluate(*sc, ev); CHECK(std::fabs(ev.VarVals()[p.PayOffIdx()] - 3.0 * n) < 1e-9 * n, "value " << ev.VarVals()[p.PayOffIdx()] << ", expected " << 3 * n);
}
