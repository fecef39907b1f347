// Building the library's product from a generated one.
#pragma once
#include "script.hpp"
#include <dal/platform/platform.hpp>
#include <dal/math/operators.hpp>
#include <dal/math/specialfunctions.hpp>
#include <dal/math/cell.hpp>
#include <dal/script/event.hpp>
#include <dal/storage/globals.hpp>
#include <dal/time/date.hpp>
#include <memory>
namespace scr {
inline Dal::Date_ day(int serial) { return Dal::Date_(2000, 1, 1).AddDays(serial - 36526); }
struct Text { std::vector<std::pair<std::string, std::string>> k; std::vector<std::pair<int, std::string>> ev; };   // constants, and events by day
inline Text text(pbt::G& g, const Product& p, bool noise) { Printer pr(g, noise); Text t; for (size_t i = 0; i < p.k.size(); ++i) t.k.emplace_back(pr.kw(KNAMES[i]), Printer::num(p.k[i])); int d = p.today; for (size_t i = 0; i < p.ev.size(); ++i) { d += p.gaps[i]; t.ev.emplace_back(d, pr.event(p.ev[i])); } return t; }
inline std::unique_ptr<Dal::Script::ScriptProduct_> build(const Text& t, const std::string& payoff = "") { Dal::Vector_<Dal::Cell_> c; Dal::Vector_<Dal::String_> e; for (auto& k : t.k) { c.push_back(Dal::Cell_(Dal::String_(k.first))); e.push_back(Dal::String_(k.second)); } for (auto& v : t.ev) { c.push_back(Dal::Cell_(day(v.first))); e.push_back(Dal::String_(v.second)); } return std::unique_ptr<Dal::Script::ScriptProduct_>(new Dal::Script::ScriptProduct_(c, e, Dal::String_(payoff))); }
inline std::string show(const Text& t) { std::string r; for (auto& k : t.k) r += "[" + k.first + "] " + k.second + "\n"; for (auto& e : t.ev) r += "[" + std::to_string(e.first) + "] " + e.second + "\n"; return r; }
template <class T> void fill(Dal::AAD::Scenario_<T>& s, const std::vector<T>& spot, const std::vector<T>& num) { for (size_t i = 0; i < spot.size(); ++i) { s[i].spot_ = spot[i]; s[i].numeraire_ = num[i]; } }
// position of each generated variable in the product, -1 when it is not mentioned
inline std::vector<int> where(const Dal::Script::ScriptProduct_& p) { std::vector<int> w(VARS.size(), -1); const auto& n = p.VarNames(); for (size_t i = 0; i < n.size(); ++i) for (size_t j = 0; j < VARS.size(); ++j) if (n[i] == Dal::String_(VARS[j])) { if (w[j] != -1) throw pbt::Failure{"variable " + VARS[j] + " is listed twice"}; w[j] = (int)i; } return w; }
inline bool agree(double a, double b, double big) { return a == b || std::fabs(a - b) <= 1e-9 * std::max(std::fabs(a), std::fabs(b)) + 1e-12 * big; }
}
