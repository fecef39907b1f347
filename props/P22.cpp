#include "scriptdal.hpp"
#include <dal/script/parser.hpp>
#include <dal/script/event/schedule.hpp>
#include <dal/time/holidays.hpp>
#include <dal/time/holidaydata.hpp>
#include <sstream>
using namespace Dal; using namespace Dal::Script;
PROPERTY_DEF("P22", "Malformed scripts are made from valid ones by deleting, duplicating, exchanging, truncating and inserting tokens, by splicing two scripts, and from random token sequences; malformed schedule headers likewise. Each must either be refused with an error or give a product that can be processed, compiled, printed and evaluated without touching memory it does not own (address and undefined-behaviour sanitizers on). "
  "Single defects of a known kind (a missing END, THEN, parenthesis, operand or argument, a stray operand, a reserved word or number as a variable, an assignment to a named constant) must be refused. Non-trivial: a script with at least five tokens.")
namespace pbt { std::vector<std::string> ASSUMPTIONS = {"expressions are at most 128 deep (the size of the evaluation stacks)"}; void globalInit() { Holidays::AddCenter("XYZ", {Date_(2024, 5, 1)}, {}); } }
using namespace scr;
static std::vector<std::string> toks(const std::string& s) { std::vector<std::string> r; for (auto& t : Tokenize(String_(s))) r.push_back(t.c_str()); return r; }
static std::string join(const std::vector<std::string>& t) { std::string s; for (auto& x : t) s += x + " "; return s; }
static const std::vector<std::string> SOUP = {"x", "y", "STRIKE", "IF", "THEN", "ELSE", "END", "AND", "OR", "PAYS", "SPOT", "MAX", "MIN", "LOG", "SQRT", "EXP", "DCF", "(", ")", ",", "=", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "^", ";", ":", "1", "2.5", ".", "1.2.3", "0", "_", "9x", "ACT_365F", "2024", "01", "spot()", "if", "STRIKE"};
// accepted scripts must be usable
static bool digest(pbt::G& g, const Text& t) {
    std::unique_ptr<ScriptProduct_> p; Global::Dates_::SetEvaluationDate(day(36526)); try { p = build(t); } catch (const std::exception&) { g.label("refused"); return false; } g.label("accepted"); size_t nested = 0; bool fuzzy = g.b();
    try { nested = p->PreProcess(fuzzy, g.b()); } catch (const std::exception&) { g.label("refused by processing"); return true; } std::ostringstream o; p->Debug(o); if (p->VarNames().empty()) return true; auto sc = p->BuildScenario<double>(); for (auto& s : *sc) { s.spot_ = g.uni(1, 150); s.numeraire_ = 1.5; } auto ev = p->BuildEvaluator<double>(); p->Evaluate(*sc, ev); if (fuzzy) { auto fe = p->BuildFuzzyEvaluator<double>((int)nested, 0.5); p->Evaluate(*sc, fe); } p->Compile(); auto st = p->BuildEvalState<double>(); p->EvaluateCompiled(*sc, st); CHECK(p->PayOffIdx() < p->VarNames().size(), "payoff index"); return true; }
static Text valid(pbt::G& g) { Product p = product(g, true, false, 2); finish(p); return text(g, p, g.chance(30)); }
SUB("mutated", 12000, 300000) {
    Text t = valid(g); auto& s = t.ev[g.draw(t.ev.size())].second; auto k = toks(s); int n = g.n(1, 3); for (int i = 0; i < n && !k.empty(); ++i) { size_t a = g.draw(k.size()), b = g.draw(k.size()); switch (g.n(0, 7)) { case 0: k.erase(k.begin() + a); break; case 1: k.insert(k.begin() + a, k[b]); break; case 2: std::swap(k[a], k[b]); break; case 3: k.resize(a); break; case 4: case 5: k.insert(k.begin() + a, g.pick(SOUP)); break; case 6: k[a] = g.pick(SOUP); break; case 7: k.erase(k.begin(), k.begin() + a); break; } }
    s = join(k); SHOW(show(t)); g.nontrivial(k.size() >= 5); digest(g, t);
}
SUB("token-soup", 12000, 300000) { Text t; if (g.b()) t.k.emplace_back("STRIKE", "100"); int n = g.n(1, 14); std::string s; if (g.chance(70)) s = g.b() ? "x = " : g.b() ? "x pays " : "IF x > "; for (int i = 0; i < n; ++i) s += g.pick(SOUP) + (g.chance(90) ? " " : ""); t.ev.emplace_back(40000, s); SHOW(show(t)); g.nontrivial(n >= 5); digest(g, t); }
SUB("spliced", 6000, 150000) { Text a = valid(g), b = valid(g); auto x = toks(a.ev[0].second), y = toks(b.ev[0].second); x.resize(g.draw(x.size() + 1)); y.erase(y.begin(), y.begin() + g.draw(y.size() + 1)); x.insert(x.end(), y.begin(), y.end()); a.ev[0].second = join(x); SHOW(show(a)); g.nontrivial(x.size() >= 5); digest(g, a); }
SUB("bytes", 6000, 150000) { Text t; std::string s; int n = g.n(0, 40); for (int i = 0; i < n; ++i) s += g.chance(70) ? std::string(1, (char)g.n(32, 126)) : g.chance(50) ? " " : std::string(1, (char)g.n(1, 255)); if (g.b()) s = "x = 1 " + s; t.ev.emplace_back(40000, s); SHOW(show(t)); g.nontrivial(n >= 5); digest(g, t); }
SUB("single-defects", 20000, 500000) {
    Gen gen(g, 4, 2, false); Printer pr(g, false); auto ex = [&](int d) { return pr.at(gen.expr(d), 1); }; auto cmp = [&]() { return "x + " + ex(1) + g.pick(std::vector<std::string>{" > ", " < ", " = ", " >= ", " <= ", " != "}) + ex(1); }; std::string a = ex(2), b = ex(2), c = cmp(), bad, good, kind; auto pick = [&](const char* k, std::string gd, std::string bd) { kind = k; good = std::move(gd); bad = std::move(bd); };
    std::string st = g.b() ? "x = " : "y pays "; switch (g.n(0, 27)) {
    case 0: pick("missing END", "IF " + c + " THEN x = " + a + " END", "IF " + c + " THEN x = " + a); break; case 1: pick("missing END after ELSE", "IF " + c + " THEN x = 1 ELSE y = " + a + " END", "IF " + c + " THEN x = 1 ELSE y = " + a); break; case 2: pick("missing THEN", "IF " + c + " THEN x = 1 END", "IF " + c + " x = 1 END"); break; case 3: pick("missing condition", "IF " + c + " THEN x = 1 END", "IF THEN x = 1 END"); break; case 4: pick("IF alone", "IF " + c + " THEN END", "IF"); break; case 5: pick("IF without THEN to the end", "IF " + c + " THEN END", "IF " + c); break;
    case 6: pick("missing )", st + "(" + a + ")", st + "(" + a); break; case 7: pick("missing (", st + "(" + a + ")", st + a + ")"); break; case 8: pick("empty parentheses", st + "(" + a + ")", st + "()"); break; case 9: pick("stray operand in parentheses", st + "(" + a + ")", st + "(" + a + " " + std::to_string(g.n(0, 9)) + ")"); break; case 10: pick("stray variable in parentheses", st + "(" + a + ")", st + "(" + a + " x)"); break; case 11: pick("stray tokens in a condition", "IF (" + c + ") THEN x = 1 END", "IF (" + c + " 2) THEN x = 1 END"); break;
    case 12: pick("missing right-hand side", st + a, st); break; case 13: pick("missing right operand", st + a, st + a + " " + g.pick(std::vector<std::string>{"+", "-", "*", "/", "^"})); break; case 14: pick("missing left operand", st + a, st + g.pick(std::vector<std::string>{"*", "/", "^"}) + " " + a); break; case 15: pick("variable alone", st + a, "x"); break;
    case 16: pick("assignment to a named constant", "x = STRIKE + " + a, "STRIKE = " + a); break; case 17: pick("payment into a named constant", "x pays STRIKE + " + a, "STRIKE pays " + a); break; case 18: { std::string kw = g.pick(std::vector<std::string>{"END", "THEN", "ELSE", "PAYS", "AND", "OR", "SPOT", "MAX", "MIN", "LOG", "SQRT", "EXP", "DCF"}); pick("reserved word as a variable", "x = " + a, kw + " = " + a); break; } case 19: pick("number as a variable", "x = " + a, std::to_string(g.n(0, 99)) + " = " + a); break;
    case 20: { bool m = g.b(); pick("one argument", st + (m ? "MAX(" : "MIN(") + a + "," + b + ")", st + (m ? "MAX(" : "MIN(") + a + ")"); break; } case 21: { std::string f = g.pick(std::vector<std::string>{"LOG", "SQRT", "EXP"}); pick("too many or no arguments", st + f + "(" + a + ")", g.b() ? st + f + "(" + a + "," + b + ")" : st + f + "()"); break; } case 22: pick("argument to SPOT", st + "SPOT()", st + "SPOT(" + a + ")"); break; case 23: pick("function without parentheses", st + "SPOT()", st + g.pick(std::vector<std::string>{"SPOT", "MAX", "LOG", "SPOT + 1", "MAX 1, 2", "DCF"})); break; case 24: pick("arguments not separated", st + "MAX(" + a + "," + b + ")", st + "MAX(" + a + ", 1 2)"); break;
    case 25: { std::string full = "DCF(ACT_365F, 2024-01-01, 2025-01-01)"; pick("incomplete DCF", st + full, st + g.pick(std::vector<std::string>{"DCF()", "DCF(ACT_365F)", "DCF(ACT_365F, 2024-01-01)", "DCF(ACT_365F,)", "DCF(ACT_365F, 2024-01-01,)", "DCF(,2024-01-01,2025-01-01)", "DCF(ACT_365F, 2024-01-01, 2025-01-01"})); break; } case 26: pick("missing comparator", "IF x > 1 THEN x = 1 END", g.b() ? "IF x THEN x = 1 END" : "IF x > THEN x = 1 END"); break; default: pick("smoothing width missing", "IF x > 1 ; 0.5 THEN x = 1 END", g.b() ? "IF x > 1 ;" : "IF x > 1 : THEN x = 1 END"); break; }
    std::string pre = g.b() ? "v_1 = 1 " : ""; Text t; t.k.emplace_back("STRIKE", "100"); t.k.emplace_back("KO", "0.5"); t.ev.emplace_back(40000, pre + good); SHOW(kind << ": " << pre + bad); g.nontrivial(toks(bad).size() >= 5); g.label(kind); try { build(t); } catch (const std::exception& e) { CHECK(false, "the correct form is refused: " << pre + good << " -- " << e.what()); } t.ev[0].second = pre + bad; bool ok = true; try { build(t); } catch (const std::exception&) { ok = false; } CHECK(!ok, "accepted in spite of: " << kind << " -- " << pre + bad);
}
SUB("schedules", 20000, 500000) {   // headers of repeated events
    std::vector<std::string> k = {"START:", "2024-01-01", "END:", "2025-01-01", "FREQ:", g.pick(std::vector<std::string>{"1M", "3M", "1W", "6M", "1Y"})}; if (g.b()) { k.push_back("FIXING:"); k.push_back(g.b() ? "BEGIN" : "END"); } if (g.b()) { k.push_back("BizRule:"); k.push_back("Following"); } if (g.b()) { k.push_back("CALENDAR:"); k.push_back("XYZ"); } bool broken = g.chance(80); if (broken) { int n = g.n(1, 3); for (int i = 0; i < n && !k.empty(); ++i) { size_t a = g.draw(k.size()), b = g.draw(k.size()); switch (g.n(0, 6)) { case 0: k.erase(k.begin() + a); break; case 1: k.insert(k.begin() + a, k[b]); break; case 2: std::swap(k[a], k[b]); break; case 3: k.resize(a); break; case 4: k[a] = g.pick(std::vector<std::string>{"2024-01", "2024", "XX", ":", "0M", "-1M", "2023-12-31", "BEGIN", "::", "START:", "2024-13-01", "NONE"}); break; case 5: if (k[a].size() > 1) k[a].resize(k[a].size() - 1); break; case 6: k.insert(k.begin() + a, g.pick(std::vector<std::string>{":", "-", "2024-06-01", "FREQ:", "FIXING:", "END:"})); break; } } }
    std::string h; for (auto& x : k) h += x + " "; SHOW(h); g.nontrivial(k.size() >= 5); Global::Dates_::SetEvaluationDate(Date_(2023, 6, 1)); Vector_<Cell_> c; Vector_<String_> e; c.push_back(Cell_(String_(h))); e.push_back("x pays DCF(ACT_365F, PeriodBegin, PeriodEnd)"); std::unique_ptr<ScriptProduct_> p; bool ok = true; try { p.reset(new ScriptProduct_(c, e)); } catch (const std::exception& ex) { ok = false; if (!broken) CHECK(false, "a correct schedule is refused: " << ex.what()); } g.label(ok ? "accepted" : "refused"); if (ok) { p->PreProcess(false, false); if (!p->VarNames().empty()) { auto sc = p->BuildScenario<double>(); for (auto& s : *sc) { s.spot_ = 1; s.numeraire_ = 1; } auto ev = p->BuildEvaluator<double>(); p->Evaluate(*sc, ev); } }
    if (broken && g.chance(30)) { String_ hs(h); try { auto v = ParseSchedule(Tokenize(hs)); (void)v; } catch (const std::exception&) {} }
}
SUB("incomplete-schedules", 4000, 100000) {   // START, END and FREQ are all needed, in whatever order
    std::vector<std::vector<std::string>> k = {{"START:", "2024-01-01"}, {"END:", "2025-01-01"}, {"FREQ:", g.pick(std::vector<std::string>{"1M", "3M", "1W", "6M", "1Y"})}}, o; if (g.b()) o.push_back({"FIXING:", g.b() ? "BEGIN" : "END"}); if (g.b()) o.push_back({"BizRule:", "Following"}); if (g.b()) o.push_back({"CALENDAR:", "XYZ"}); auto full = k; full.insert(full.end(), o.begin(), o.end()); k.erase(k.begin() + g.n(0, 2)); if (g.chance(20)) k.erase(k.begin() + g.n(0, 1)); k.insert(k.end(), o.begin(), o.end()); if (g.b()) g.shuffle(k);
    auto text = [](const std::vector<std::vector<std::string>>& v) { std::string h; for (auto& x : v) h += x[0] + " " + x[1] + " "; return h; }; auto built = [&](const std::string& h) { Vector_<Cell_> c; Vector_<String_> e; c.push_back(Cell_(String_(h))); e.push_back("x pays 1"); try { ScriptProduct_ p(c, e); return true; } catch (const std::exception&) { return false; } }; SHOW(text(k)); g.nontrivial(k.size() >= 3); Global::Dates_::SetEvaluationDate(Date_(2023, 6, 1)); CHECK(built(text(full)), "the complete schedule is refused: " << text(full)); CHECK(!built(text(k)), "an incomplete schedule is accepted: " << text(k));
}
SUB("wrong-schedule-values", 4000, 100000) {   // every field but one is right
    std::vector<std::vector<std::string>> k = {{"START:", "2024-01-01"}, {"END:", "2025-01-01"}, {"FREQ:", g.pick(std::vector<std::string>{"1M", "3M", "1W", "6M", "1Y"})}}; std::vector<int> what = {0, 1, 2}; if (g.chance(70)) { k.push_back({"FIXING:", g.b() ? "BEGIN" : "END"}); what.push_back(3); } if (g.b()) { k.push_back({"BizRule:", "Following"}); what.push_back(4); } if (g.b()) { k.push_back({"CALENDAR:", "XYZ"}); what.push_back(5); } auto bad = k; size_t i = g.draw(k.size()); static const std::vector<std::vector<std::string>> WRONG = {{"20240101", "2024-13-01", "2024-02-30", "today", "1M", "2024-1"}, {"20250101", "2025-13-01", "2025-02-29", "1Y", "later"}, {"1", "M", "1Q1", "2024-03-01", "monthly", "M1"}, {"MIDDLE", "BEG", "ENDS", "START", "1", "BEGINEND"}, {"Sometimes", "Followed", "1", "NONE"}}; if (what[i] == 5) bad[i][0] = g.pick(std::vector<std::string>{"HOLIDAYS:", "CALENDARS:", "CAL:"}); else bad[i][1] = g.pick(WRONG[what[i]]); if (g.b()) g.shuffle(bad);
    auto text = [](const std::vector<std::vector<std::string>>& v) { std::string h; for (auto& x : v) h += x[0] + " " + x[1] + " "; return h; }; auto built = [&](const std::string& h) { Vector_<Cell_> c; Vector_<String_> e; c.push_back(Cell_(String_(h))); e.push_back("x pays 1"); try { ScriptProduct_ p(c, e); return true; } catch (const std::exception&) { return false; } }; SHOW(text(bad)); g.nontrivial(k.size() >= 4); Global::Dates_::SetEvaluationDate(Date_(2023, 6, 1)); CHECK(built(text(k)), "the right schedule is refused: " << text(k)); CHECK(!built(text(bad)), "accepted: " << text(bad));
}
