#include "scriptdal.hpp"
#include <dal/time/dateutils.hpp>
#include <public/src/script.hpp>
#include <sstream>
#include <map>
using namespace Dal; using namespace Dal::Script;
PROPERTY_DEF("P32", "Random products (as in P19) are printed by the library, before and after processing; the printed tree is read back by an independent reader and executed on random paths, and every variable is compared with the direct interpreter of the generated tree; dates, event and statement numbers and variable positions are checked. Non-trivial: at least one conditional executed, or at least two payments.")
namespace pbt { std::vector<std::string> ASSUMPTIONS = {"constants have at most six decimals, as they are printed", "events lie on or after the evaluation date", "values that leave the finite range are not compared"}; void globalInit() {} }
using namespace scr;
struct Nd { std::string name, par; std::vector<Nd> a; };
struct Reader { const std::string& s; size_t i = 0; explicit Reader(const std::string& t) : s(t) {} void ws() { while (i < s.size() && isspace((unsigned char)s[i])) ++i; } bool at(char c) { ws(); return i < s.size() && s[i] == c; }
    Nd node() { ws(); Nd n; while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '_')) n.name += s[i++]; CHECK(!n.name.empty(), "no node at <" << s.substr(i, 40) << ">"); if (i < s.size() && s[i] == '[') { size_t e = s.find(']', i); CHECK(e != std::string::npos, "unclosed ["); n.par = s.substr(i + 1, e - i - 1); i = e + 1; } if (at('(')) { ++i; for (;;) { n.a.push_back(node()); if (at(',')) { ++i; continue; } CHECK(at(')'), "neither , nor ) at <" << s.substr(i, 40) << ">"); ++i; break; } } return n; } };
struct Run { std::map<std::string, double> var; std::map<std::string, double> k; double spot = 0, num = 1; std::vector<std::string> order; bool indexed = false; };
static std::string low(std::string s) { for (char& c : s) c = (char)tolower((unsigned char)c); return s; }
static std::vector<std::string> split(const std::string& s) { std::vector<std::string> r(1); for (char c : s) if (c == ',') r.emplace_back(); else r.back() += c; return r; }
static std::string var(const Nd& n, Run& r) { CHECK(n.name == "VAR" && n.a.empty(), n.name << " where a variable belongs"); auto p = split(n.par); CHECK(p.size() == 3, "VAR[" << n.par << "]"); if (r.indexed) { int k = atoi(p[1].c_str()); CHECK(k >= 0 && k < (int)r.order.size() && low(r.order[k]) == low(p[0]), p[0] << " is at position " << k); } return low(p[0]); }
static double val(const Nd& n, Run& r) {
    auto A = [&](int k) { CHECK(k < (int)n.a.size(), n.name << " lacks an argument"); return val(n.a[k], r); }; auto argc = [&](size_t k) { CHECK(n.a.size() == k, n.name << " has " << n.a.size() << " arguments"); };
    if (n.name == "CONST") { argc(0); return atof(n.par.c_str()); } if (n.name == "VAR") return r.var[var(n, r)]; if (n.name == "CONST_VAR") { auto p = split(n.par); CHECK(p.size() == 3 && r.k.count(low(p[0])), "CONST_VAR[" << n.par << "]"); CHECK(std::fabs(atof(p[2].c_str()) - r.k[low(p[0])]) <= 1e-6, p[0] << " is printed as " << p[2] << ", its value is " << r.k[low(p[0])]); return r.k[low(p[0])]; } if (n.name == "SPOT") { argc(0); return r.spot; }
    if (n.name == "UPLUS") { argc(1); return A(0); } if (n.name == "UMINUS") { argc(1); return -A(0); } if (n.name == "ADD") { argc(2); return A(0) + A(1); } if (n.name == "SUBTRACT") { argc(2); return A(0) - A(1); } if (n.name == "MULT") { argc(2); return A(0) * A(1); } if (n.name == "DIV") { argc(2); return A(0) / A(1); } if (n.name == "POW") { argc(2); return std::pow(A(0), A(1)); } if (n.name == "LOG") { argc(1); return std::log(A(0)); } if (n.name == "EXP") { argc(1); return std::exp(A(0)); } if (n.name == "SQRT") { argc(1); return std::sqrt(A(0)); }
    if (n.name == "MAX" || n.name == "MIN") { CHECK(n.a.size() >= 2, n.name); double x = A(0); for (size_t k = 1; k < n.a.size(); ++k) { double y = A((int)k); x = n.name == "MAX" ? (y > x ? y : x) : (y < x ? y : x); } return x; } throw pbt::Failure{"unknown expression " + n.name}; }
static bool truth(const Nd& n, Run& r, double eps) {
    if (n.name == "TRUE") return true; if (n.name == "FALSE") return false; if (n.name == "AND") { CHECK(n.a.size() == 2, "AND"); bool a = truth(n.a[0], r, eps), b = truth(n.a[1], r, eps); return a && b; } if (n.name == "OR") { CHECK(n.a.size() == 2, "OR"); bool a = truth(n.a[0], r, eps), b = truth(n.a[1], r, eps); return a || b; } if (n.name == "NOT") { CHECK(n.a.size() == 1, "NOT"); return !truth(n.a[0], r, eps); } CHECK(n.a.size() == 1, n.name); CHECK(n.par.substr(0, 9) == "CONT,EPS=" || n.par.substr(0, 16) == "DISCRETE,BOUNDS=", n.name << "[" << n.par << "]"); double x = val(n.a[0], r); if (n.name == "EQUALZERO") return x == 0; if (n.name == "GTZERO") return x > 0; CHECK(n.name == "GTEQUALZERO", "unknown condition " << n.name); return x >= 0; }
static void exec(const Nd& n, Run& r) {
    if (n.name == "COLLECT") { for (auto& a : n.a) exec(a, r); return; } if (n.name == "ASSIGN") { CHECK(n.a.size() == 2, "ASSIGN"); double x = val(n.a[1], r); r.var[var(n.a[0], r)] = x; return; } if (n.name == "PAYS") { CHECK(n.a.size() == 2, "PAYS"); double x = val(n.a[1], r); r.var[var(n.a[0], r)] += x / r.num; return; }
    CHECK(n.name == "IF" && n.par.substr(0, 10) == "FIRSTELSE=" && !n.a.empty(), "unknown statement " << n.name << "[" << n.par << "]"); int fe = atoi(n.par.c_str() + 10), N = (int)n.a.size(); CHECK(fe == -1 || (fe >= 1 && fe <= N), "FIRSTELSE=" << fe << " with " << N << " arguments"); bool t = truth(n.a[0], r, 0); int from = t ? 1 : fe < 0 ? N : fe, to = t ? (fe < 0 ? N : fe) : N; for (int k = from; k < to; ++k) exec(n.a[k], r); }
struct Printed { std::vector<std::string> vars; std::vector<std::string> dates; std::vector<std::vector<Nd>> ev; };
static Printed read(const std::string& txt) { Printed p; size_t i = 0; while (i < txt.size()) { size_t e = txt.find('\n', i); if (e == std::string::npos) e = txt.size(); std::string l = txt.substr(i, e - i); if (l.empty()) { i = e + 1; continue; } if (l.substr(0, 4) == "Var[") { CHECK(p.ev.empty(), "variables after events"); size_t q = l.find("] = "); CHECK(q != std::string::npos && atoi(l.c_str() + 4) == (int)p.vars.size(), l << " is variable number " << p.vars.size()); p.vars.push_back(l.substr(q + 4)); i = e + 1; } else if (l.substr(0, 12) == "EventTime_: ") { p.ev.emplace_back(); p.dates.push_back(l.substr(12, 10)); size_t q = l.find("Event_: ", 12); CHECK(q != std::string::npos && atoi(l.c_str() + q + 8) == (int)p.ev.size(), l << " is event number " << p.ev.size()); i = e + 1; } else if (l.substr(0, 12) == "Statement_: ") { CHECK(!p.ev.empty() && atoi(l.c_str() + 12) == (int)p.ev.back().size() + 1, l << " follows statement number " << (p.ev.empty() ? 0 : p.ev.back().size())); std::string rest = txt.substr(e + 1); Reader r(rest); p.ev.back().push_back(r.node()); i = e + 1 + r.i; } else throw pbt::Failure{"unexpected line <" + l + ">"}; } return p; }
static void same(pbt::G& g, const Product& p, const Text& t, const std::string& txt, bool indexed, const char* when) {
    Printed q = read(txt); CHECK(q.ev.size() == p.ev.size(), when << ": " << q.ev.size() << " events printed, " << p.ev.size() << " given"); if (indexed) CHECK(q.vars.size() == p.vars.size(), when << ": " << q.vars.size() << " variables printed, " << p.vars.size() << " mentioned"); for (size_t i = 0; i < q.ev.size(); ++i) { std::string d = Date::ToString(day(t.ev[i].first)).c_str(); CHECK(q.dates[i] == d, when << ": event " << i << " on " << q.dates[i] << ", expected " << d); CHECK(q.ev[i].size() == p.ev[i].size(), when << ": event " << i << " has " << q.ev[i].size() << " statements, expected " << p.ev[i].size()); }
    for (int k = 0; k < 3; ++k) { Path a = path(g, p.ev.size()); Env e = start<double>(p); walk(p, e, a.spot, a.num); if (e.taken + e.skipped > 0 || e.payments > 1) g.nontrivial(); if (e.bad || e.tie || e.nearest < 1e-9 * e.big) { g.label("undefined or tied"); continue; } g.label("compared"); Run r; r.indexed = indexed; r.order = q.vars; for (size_t j = 0; j < p.k.size(); ++j) r.k[low(KNAMES[j])] = p.k[j]; for (size_t i = 0; i < q.ev.size(); ++i) { r.spot = a.spot[i]; r.num = a.num[i]; for (auto& n : q.ev[i]) exec(n, r); } for (int v : p.vars) CHECK(agree(r.var[low(VARS[v])], e.var[v], e.big), when << ": the printed program leaves " << VARS[v] << " = " << r.var[low(VARS[v])] << ", the script " << e.var[v] << "\n" << txt); }
}
SUB("as-parsed", 12000, 300000) {
    Product p = product(g, g.chance(25)); finish(p); Text t = text(g, p, g.chance(60)); SHOW(show(t)); Global::Dates_::SetEvaluationDate(day(p.today)); std::string txt;
    if (g.b()) { Vector_<Cell_> c; Vector_<String_> e; for (auto& k : t.k) { c.push_back(Cell_(String_(k.first))); e.push_back(String_(k.second)); } for (auto& v : t.ev) { c.push_back(Cell_(day(v.first))); e.push_back(String_(v.second)); } auto h = NewScriptProduct(String_("nm"), c, e); CHECK(std::string(h->Name().c_str()) == "nm", "name"); txt = DebugScriptProduct(h).c_str(); std::string again = DebugScriptProduct(h).c_str(); CHECK(again == txt, "a second description differs"); } else { auto prod = build(t); std::ostringstream o; prod->Debug(o); txt = o.str(); }
    same(g, p, t, txt, false, "as parsed");
}
SUB("as-processed", 12000, 300000) {
    Product p = product(g, false, g.b()); finish(p); if (overflows(p.ev, p.k)) g.discard(); Text t = text(g, p, false); SHOW(show(t)); Global::Dates_::SetEvaluationDate(day(p.today)); auto prod = build(t); bool fuzzy = g.b(), skip = g.b(); SHOW((fuzzy ? "fuzzy" : "") << (skip ? " skip" : "")); prod->PreProcess(fuzzy, skip); std::ostringstream o; prod->Debug(o); same(g, p, t, o.str(), true, "as processed");
}
