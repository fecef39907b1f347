#include <engine.hpp>
#include "civil.hpp"
#include <dal/platform/platform.hpp>
#include <dal/utilities/exceptions.hpp>
#include <dal/time/datetime.hpp>
#include <dal/time/datetimeutils.hpp>
#include <dal/time/dateutils.hpp>
#include <dal/time/dateincrement.hpp>
#include <dal/time/holidays.hpp>
#include <thread>
#include <atomic>
using namespace Dal;
PROPERTY_DEF("P31", "Random call trees in which every level opens scopes with notes and notices of every type, changes the noticed values, throws, catches (rethrows, recovers, throws again inside a handler) or runs other levels on further threads; each message is compared with an explicit stack of the scopes open at the throw. Also errors of the library itself with generated input. Non-trivial: at least three scopes are open at a throw, or a throw follows a caught one.")
namespace pbt { std::vector<std::string> ASSUMPTIONS = {"noticed variables live as long as their scope", "numbers are shown with six decimals"}; void globalInit() {} }
static std::string S(const String_& s) { return std::string(s.begin(), s.end()); }
struct Ctx { std::vector<std::string> open; int throws = 0, deep = 0; };   // what is in scope, in order of entering
struct Plan { int kind = 0; int i = 0; double d = 0; std::string s; int day = 0, sec = 0; bool change = false; std::vector<Plan> kids; int act = 0; };   // act: 0 nothing, 1 throw, 2 throw as script error; catcher below
static Plan plan(pbt::G& g, int depth) { Plan p; p.kind = g.n(0, 6); p.i = g.n(-100000, 100000); p.d = g.normalish() * 1000; static const std::string al = "abc XYZ_09.:;=\"'%\\{}"; for (int k = g.n(0, 8); k > 0; --k) p.s += al[g.draw(al.size())]; p.day = g.n(0, 65000); p.sec = g.n(0, 86399); p.change = g.chance(30); p.act = g.chance(25) ? g.n(1, 2) : 0; if (depth > 0) for (int k = g.n(0, 3); k > 0; --k) p.kids.push_back(plan(g, depth - 1)); return p; }
static std::string six(double d) { char b[400]; snprintf(b, 400, "%f", d); return b; }
static std::string show(const Plan& p) { switch (p.kind) { case 0: return "n = " + std::to_string(p.i); case 1: return "x = " + six(p.d); case 2: return "c = " + p.s; case 3: return "s = " + p.s; case 4: return "d = " + civil::iso(civil::fromDays(p.day)); case 5: { char b[64]; snprintf(b, 64, "%s %02d:%02d:%02d", civil::iso(civil::fromDays(p.day)).c_str(), p.sec / 3600, p.sec / 60 % 60, p.sec % 60); return std::string("t = ") + b; } default: return "a note"; } }
static void judge(const std::exception& e, Ctx& c, const std::string& msg, int line, bool script) {
    std::string w = e.what(), want = std::string("\n") + __FILE__ + ":" + std::to_string(line) + ": In function `fail': \n" + msg; for (auto& o : c.open) want += "\n" + o;
    CHECK(w == want, "message is <" << w << ">, expected <" << want << ">"); CHECK(dynamic_cast<const Exception_*>(&e) && (dynamic_cast<const ScriptError_*>(&e) != nullptr) == script, "class of the error"); }
static int LINE = 0, LINE2 = 0;
static void fail(const Plan& p, const std::string& msg) { if (p.act == 1) { LINE = __LINE__; THROW(msg); } LINE2 = __LINE__; THROW2(String_(msg), ScriptError_); }
static void descend(Plan p, Ctx& c);
static void inside(Plan& p, Ctx& c) {
    c.open.push_back(show(p));
    for (auto& k : p.kids) {
        size_t n = c.open.size();
        try { descend(k, c); }
        catch (const pbt::Failure&) { throw; }
        catch (const std::exception&) { c.open.resize(n); ++c.throws; Exception_ again("f", 1, "(unknown)", "again"); std::string w = again.what(), want = "\nf:1: again"; for (auto& o : c.open) want += "\n" + o; CHECK(w == want, "in a handler the message is <" << w << ">, expected <" << want << ">"); }
    }
    if (p.act) { c.deep = std::max(c.deep, (int)c.open.size()); std::string msg = "m" + std::to_string(p.i); try { fail(p, msg); } catch (const pbt::Failure&) { throw; } catch (const std::exception& e) { judge(e, c, msg, p.act == 1 ? LINE : LINE2, p.act == 2); throw; } }
    c.open.pop_back();
}
static void descend(Plan p, Ctx& c) {
    int n = p.i; double x = p.d; String_ s(p.s); Date_ d = civil::date(p.day); DateTime_ t(d, p.sec / 3600, p.sec / 60 % 60, p.sec % 60); const char* cs = p.s.c_str(); Plan q = p; if (p.change) { q.i = -p.i + 1; q.d = p.d * 2 - 1; }   // a noticed variable that changes is shown as it is when the error occurs
    switch (p.kind) {
    case 0: { NOTICE2("n", n); if (p.change) n = q.i; inside(q, c); break; }
    case 1: { NOTICE2("x", x); if (p.change) x = q.d; inside(q, c); break; }
    case 2: { NOTICE2("c", cs); inside(q, c); break; }
    case 3: { NOTICE2("s", s); inside(q, c); break; }
    case 4: { NOTICE2("d", d); inside(q, c); break; }
    case 5: { NOTICE2("t", t); inside(q, c); break; }
    default: { NOTE("a note"); inside(q, c); } }
}
static void plain(const Ctx& c) { Exception_ e("file.cpp", 7, "func", String_("text")); std::string w = e.what(), want = "\nfile.cpp:7: In function `func': \ntext"; for (auto& o : c.open) want += "\n" + o; CHECK(w == want, "message is <" << w << ">, expected <" << want << ">"); }
SUB("call-trees", 60000, 1500000) { Ctx c; int depth = g.n(0, 4); for (int k = g.n(1, 3); k > 0; --k) { Plan p = plan(g, depth); size_t n = c.open.size(); try { descend(p, c); } catch (const pbt::Failure&) { throw; } catch (const std::exception&) { c.open.resize(n); ++c.throws; } plain(c); } SHOW(c.throws << " errors, deepest with " << c.deep << " scopes"); g.nontrivial(c.deep >= 3 || c.throws >= 2); }
static void levels(int n, int to, Ctx& c) { if (n == to) { plain(c); THROW("bottom"); } int level = n; NOTICE2("level", level); c.open.push_back("level = " + std::to_string(n)); levels(n + 1, to, c); }
SUB("deep-calls", 2000, 40000) {   // recursion keeps every level's scope, however many there are
    int n = g.chance(20) ? g.n(0, 30) : g.n(30, 300); SHOW(n << " levels"); g.nontrivial(n > 3); for (int k = 0; k < 2; ++k) { Ctx c; std::string w; try { levels(0, n, c); } catch (const pbt::Failure&) { throw; } catch (const std::exception& e) { w = e.what(); } for (int q = 0; q < n; ++q) CHECK(w.find("\nlevel = " + std::to_string(q)) != std::string::npos, "level " << q << " of " << n << " is missing from the message"); Ctx none; plain(none); }
}
SUB("threads", 300, 6000) {   // every thread has its own scopes
    int n = g.n(2, 4); std::vector<std::vector<Plan>> ps(n); for (auto& v : ps) for (int k = g.n(1, 6); k > 0; --k) v.push_back(plan(g, 3)); std::vector<std::string> bad(n); std::atomic<int> ready{0}; std::vector<std::thread> th; int outer = g.n(1, 9); NOTICE(outer); Ctx mine; mine.open.push_back("outer = " + std::to_string(outer));
    for (int k = 0; k < n; ++k) th.emplace_back([&, k] { ++ready; while (ready < n) std::this_thread::yield(); Ctx c; try { for (auto& p : ps[k]) { try { descend(p, c); } catch (const pbt::Failure&) { throw; } catch (const std::exception&) { c.open.clear(); } plain(c); } } catch (const std::exception& e) { bad[k] = e.what(); } catch (const pbt::Failure& f) { bad[k] = "scopes of another thread, or wrong ones, in the message: " + f.msg; } }); for (auto& t : th) t.join(); SHOW(n << " threads"); g.nontrivial(); for (auto& b : bad) CHECK(b.empty(), b); plain(mine);
}
SUB("library-errors", 20000, 300000) {   // the library's own errors name the offending input, and leave no scope behind
    std::string junk = "Q"; static const std::string al = "abcXYZ%$?! "; for (int k = g.n(0, 8); k > 0; --k) junk += al[g.draw(al.size())]; std::string w; SHOW(junk); g.nontrivial(); int k = g.n(0, 3); try { NOTICE2("request", k); switch (k) { case 0: Date::FromString(String_(junk)); break; case 1: DateTime::FromString(String_(junk)); break; case 2: Date::ParseIncrement(String_(junk)); break; default: Holidays_ h{String_(junk)}; } } catch (const std::exception& e) { w = e.what(); }
    if (k == 3 && w.empty()) return; CHECK(!w.empty(), junk << " was accepted"); CHECK(w.find("request = " + std::to_string(k)) != std::string::npos, "no context in " << w); if (k < 3) CHECK(w.find(junk) != std::string::npos, "the offending text is not named in " << w); Ctx c; plain(c);
}
