#include <dal/platform/platform.hpp>
#include <dal/storage/storable.hpp>
#include <dal/time/datetime.hpp>
#define FixHistory_ IndexFixHistory_   // the library has two classes of this name; only that of the globals is used here
#include <dal/indice/fixings.hpp>
#undef FixHistory_
#include "scriptdal.hpp"
#include <dal/math/aad/aad.hpp>
#include <dal/math/cellutils.hpp>
#include <dal/math/specialfunctions.hpp>
#include <dal/math/distribution/black.hpp>
#include <dal/math/interp/interp.hpp>
#include <dal/math/matrix/cholesky.hpp>
#include <dal/math/matrix/squarematrix.hpp>
#include <dal/math/matrix/decompositions.hpp>
#include <dal/math/random/pseudorandom.hpp>
#include <dal/script/simulation.hpp>
#include <dal/storage/box.hpp>
#include <dal/storage/globals.hpp>
#include <dal/storage/json.hpp>
#include <dal/storage/splat.hpp>
#include <dal/storage/_repository.hpp>
#include <dal/string/strings.hpp>
#include <dal/time/dateincrement.hpp>
#include <dal/time/dateutils.hpp>
#include <dal/time/datetimeutils.hpp>
#include <dal/time/daybasis.hpp>
#include <dal/time/holidays.hpp>
#include <dal/time/holidaydata.hpp>
#include <dal/indice/index.hpp>
#include <dal/indice/indexparse.hpp>
#include <dal/indice/parser/init.hpp>
#include <dal/time/calendars/init.hpp>
#include <dal/currency/init.hpp>
#include <dal/concurrency/threadpool.hpp>
#include <dal/currency/currencydata.hpp>
#include <dal/math/pde/fd1d.hpp>
#include <dal/math/pde/meshers/uniform1dmesher.hpp>
#include <dal/math/matrix/banded.hpp>
#include <dal/math/matrix/bcg.hpp>
#include <dal/math/matrix/sparse.hpp>
#include <dal/math/matrix/matrixarithmetic.hpp>
#include <dal/math/interp/interpcubic.hpp>
#include <dal/math/random/brownianbridge.hpp>
#include <dal/math/rootfind.hpp>
#include <dal/utilities/dictionary.hpp>
#include <dal/utilities/facts.hpp>
#include <atomic>
#include <unistd.h>
#include <signal.h>
#include <sys/syscall.h>
#include <cstdio>
#include <locale>
#include <thread>
using namespace Dal; using Dal::AAD::Number_; using Dal::AAD::Tape_;
PROPERTY_DEF("P34", "Two to six threads, started together, each perform random operations at once: ordinary library calls (dates, increments, day counts, distributions, generators, matrices, storing and reading objects, scripts, adjoint gradients, errors with their context) whose results are compared with the same calls made by one thread; "
  "and histories on the process-wide registries (object repository, global dates, fixings, holiday centres, combined calendars, index parsers) checked against what any one-at-a-time order could give. Everything runs under the thread sanitizer. Non-trivial: at least two threads with three operations each.")
static volatile bool INIT = false;
static void say(const char* m, size_t n) { (void)!syscall(SYS_write, 1, m, n); syscall(SYS_exit_group, 1); }   // no call the sanitizer watches: it holds its own locks here
extern "C" void __tsan_on_report(void*) { if (!INIT) return; static const char m[] = "VIOLATION property=P34 replay=/verif/replays/P34-first.replay\nthe first uses of the library, made by several threads at once, race\n"; say(m, sizeof m - 1); }
static void stuck(int) { static const char m[] = "VIOLATION property=P34 replay=/verif/replays/P34-first.replay\nthe first uses of the library, made by several threads at once, do not return\n"; say(m, sizeof m - 1); }
static void first() {   // every one-time initialisation, from four threads at once
    if (FILE* f = fopen("/verif/replays/P34-first.replay", "w")) { fputs("property: P34\nsub: first\nmessage: several threads make the first use of the library at once\n", f); fclose(f); } signal(SIGALRM, stuck); alarm(120);
    INIT = true; std::atomic<int> ready(0); std::vector<std::thread> t; for (int i = 0; i < 4; ++i) t.emplace_back([&] { ++ready; while (ready < 4) std::this_thread::yield(); try { Calendars_::Init(); CcyFacts_::Init(); IndexParsers_::Init(); (void)NCDF(-1.0, false); (void)InverseNCDF(0.3); (void)Date::FromString("2024-01-02"); (void)Date::Today(); { Matrix_<Cell_> m(1, 2); m(0, 0) = Date_(2024, 1, 2); m(0, 1) = String_("a"); Box_ b("b", m); (void)JSON::ReadString(JSON::WriteString(b), true); (void)UnSplat(Splat(b), true); } std::unique_ptr<Index_> x(Index::Parse("EQ[abc]")); (void)x->Name(); (void)Global::Dates_::EvaluationDate(); (void)Global::Dates_::AccountingDate(); CountBusDays_ cnt(Holidays_("CN.SSE")); try { (void)Date::ParseIncrement("zz"); } catch (const std::exception&) {} (void)Ccy::Conventions::LiborFixDays()(Ccy_("CNY")); (void)Dictionary::FromString("a=1"); } catch (const std::exception&) {} }); for (auto& x : t) x.join(); INIT = false; alarm(0); unlink("/verif/replays/P34-first.replay");
}
namespace pbt { std::vector<std::string> ASSUMPTIONS = {"objects are not shared between threads while one of them changes them; only the process-wide registries are", "schedules are those the machine produces under load; they are not enumerated", "currency conventions are registered before they are used from several threads"}; void globalInit() { auto& ct = std::use_facet<std::ctype<char>>(std::locale()); for (int c = 0; c < 256; ++c) { (void)ct.narrow((char)c, 0); (void)ct.widen((char)c); } char in[2] = {'a', 'b'}, out[2]; ct.narrow(in, in + 2, 0, out); ct.widen(in, in + 2, out);   // the standard library's own caches, filled on first use
    ThreadPool_::GetInstance()->Stop(); first(); } }
static std::string S(const String_& s) { return std::string(s.begin(), s.end()); }
static std::string num(double x) { return pbt::dbl(x); }
static Date_ day(int k) { return Date_(2020, 1, 1).AddDays(k); }
// starts n threads together and joins them; an exception is a failure
template <class F> static void together(pbt::G& g, int n, F f) { std::vector<std::string> err(n); std::atomic<int> ready(0); std::vector<std::thread> t; for (int i = 0; i < n; ++i) t.emplace_back([&, i] { ++ready; while (ready < n) std::this_thread::yield(); try { f(i); } catch (const std::exception& e) { err[i] = e.what(); if (err[i].empty()) err[i] = "unnamed"; } catch (...) { err[i] = "unknown exception"; } }); for (auto& x : t) x.join(); for (int i = 0; i < n; ++i) CHECK(err[i].empty(), "thread " << i << ": " << err[i]); }
static void calendars() { static bool done = false; if (done) return; done = true; auto hol = [](int from) { Vector_<Date_> r; for (int k = from; k < 1500; k += 11) if (!Date::IsWeekEnd(day(k))) r.push_back(day(k)); return r; }; auto ww = [](int from) { Vector_<Date_> r; for (int k = from; k < 1500; k += 13) if (Date::IsWeekEnd(day(k))) r.push_back(day(k)); return r; }; Holidays::AddCenter("MT.A", hol(3), ww(1)); Holidays::AddCenter("MT.B", hol(5), ww(2)); Holidays::AddCenter("MT.C", hol(8), Vector_<Date_>()); Holidays::AddCenter("MT.D", Vector_<Date_>(), Vector_<Date_>()); }
static const std::vector<const char*> CENTERS = {"MT.A", "MT.B", "MT.C", "MT.D"};
static std::string deeper(int n, const std::string& w) { NOTICE(n); if (n > 0) return deeper(n - 1, w); if (w.size() % 2) THROW("at " + w); REQUIRE(w.empty(), "at " + w); return ""; }
typedef std::function<std::string()> Job;
static Job job(pbt::G& g, std::string* what) {
    int k = g.n(0, 24); int a = g.n(0, 1400), b = g.n(0, 1400); double x = g.uni(0.05, 3), y = g.uni(0.05, 0.95); int n = g.n(1, 6); std::string w; for (int i = g.n(1, 8); i > 0; --i) w += g.of({'a', 'b', 'Q', '7', ' ', '"', '\\', '/'});
    static const char* names[] = {"dates", "increments", "day counts", "normal distribution", "json", "splat", "generator", "option", "error", "gradient", "index", "calendar", "cells", "cholesky", "script", "business days", "banded matrix", "conjugate gradients", "cubic spline", "brownian bridge", "finite differences", "implied volatility", "root", "dictionary", "currency facts"}; *what = names[k];
    switch (k) {
    case 0: return [=] { Date_ d = day(a); return S(Date::ToString(Date::AddMonths(d, n))) + S(Date::ToString(Date::FromString(Date::ToString(d)))) + S(DateTime::ToString(DateTime::FromString(Date::ToString(d) + " 10:20:30"))) + std::to_string(Date::DayOfWeek(d)) + (Date::IsDateString(String_(w)) ? "y" : "n"); };
    case 1: { static const std::vector<const char*> inc = {"1M", "IMM", "IMM1", "2Y", "3D", "CDS", "6M;3D", "EOM"}; std::string i = g.pick(inc); return [=] { auto p = Date::ParseIncrement(String_(i)); return S(Date::ToString(day(a) + *p)) + S(Date::ToString(day(a) - *p)); }; }
    case 2: { static const std::vector<const char*> bs = {"ACT_365F", "ACT_360", "BOND", "ACT_365L", "ACT_ACT_ISDA"}; std::string nm = g.pick(bs); return [=] { return num(DayBasis_(String_(nm))(day(std::min(a, b)), day(std::max(a, b)), nullptr)); }; }
    case 3: return [=] { return num(NCDF(x, false)) + num(NCDF(-x)) + num(InverseNCDF(y)) + num(InverseNCDF(y, false, true)); };
    case 4: return [=] { Matrix_<Cell_> m(2, 2); m(0, 0) = x; m(0, 1) = String_(w); m(1, 0) = day(a); m(1, 1) = true; Box_ bx(String_(w), m); String_ s = JSON::WriteString(bx); auto r = JSON::ReadString(s, true); return S(s) + S(JSON::WriteString(*r)); };
    case 5: return [=] { std::unique_ptr<Interp1_> f(Interp::NewLinear(String_("i"), Vector_<>{0.0, 1.0, 2.0 + n}, Vector_<>{x, y, 1.0})); auto m = Splat(*f); auto r = UnSplat(m, true); return num((*f)(x)) + S(JSON::WriteString(*r)); };
    case 6: { bool mrg = g.b(), nrm = g.b(); return [=] { std::unique_ptr<PseudoRandom_> r(New(RNGType_(mrg ? "MRG32" : "IRN"), a + 1, n)); r->SkipTo(b); Vector_<> z(n); std::string o; for (int i = 0; i < 3; ++i) { if (nrm) r->FillNormal(&z); else r->FillUniform(&z); o += num(z[0]); } return o; }; }
    case 7: return [=] { double p = Distribution::BlackOpt(100.0, y, 100.0 * x, OptionType_("CALL")); return num(p) + num(Distribution::BlackOpt(100.0, y, 100.0 * x, OptionType_("C+P"))); };
    case 8: return [=] { std::string o; for (int i = 0; i < 3; ++i) { try { deeper(n, w); } catch (const std::exception& e) { o += e.what(); } } return o; };
    case 9: return [=] { static thread_local Tape_ tape; Number_::SetTape(tape); tape.Clear(); Number_ p(x), q(y); Number_ r = log(p) * exp(q) + p / q; for (int i = 0; i < n; ++i) r = r * p + NCDF(q); r.PropagateToStart(); std::string o = num(r.value()) + num(p.Adjoint()) + num(q.Adjoint()); tape.Clear(); return o; };
    case 10: { std::string nm = g.of<std::string>({"EQ[abc]", "EQ[abc]>1M", "EQ[x]@2024-03-05", "FX[USD/EUR]", "FX[CNY/USD]"}); return [=] { std::unique_ptr<Index_> i(Index::Parse(String_(nm))); return S(i->Name()) + S(Index::Clone(*i)->Name()); }; }
    case 11: { std::string c = std::string(g.pick(CENTERS)) + " " + g.pick(CENTERS) + " " + g.pick(CENTERS); return [=] { Holidays_ h{String_(c)}; CountBusDays_ cnt(h); return S(h.String()) + std::to_string(cnt(day(std::min(a, b)), day(std::max(a, b)))) + S(Date::ToString(Holidays::NextBus(h, day(a)))) + S(Holidays_(String_(c)).String()); }; }
    case 12: return [=] { Cell_ c = Cell::ConvertString(String_(w)); auto v = String::Split(String_(w), ' ', true); return S(Cell::CoerceToString(c)) + S(Cell::CoerceToString(Cell_(x))) + std::to_string(v.size()) + S(String::NextName(String_("k"))) + num(String::ToDouble(String_("1.5"))); };
    case 13: return [=] { SquareMatrix_<> m(3); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m(i, j) = i == j ? 3 + x : y; std::unique_ptr<SymmetricMatrixDecomposition_> d(CholeskyDecomposition(m)); Vector_<> r(3), q(3, 1.0); d->Solve(q, &r); return num(r[0]) + num(r[2]); };
    case 14: { bool comp = g.b(), fuzzy = g.b(); return [=] { Script::ScriptProduct_ prd(Vector_<Cell_>{Cell_("K"), Cell_(day(1700)), Cell_(day(1900))}, Vector_<String_>{String_("100"), String_("IF spot() > " + std::to_string(100 + n) + " THEN x = 1 END"), String_("IF x > 0.5 THEN y pays MAX(spot() - K, 0) ELSE y pays 1 END")}, "y"); prd.PreProcess(fuzzy, fuzzy); if (comp) prd.Compile(); Handle_<ModelData_> d(new BSModelData_("m", 100, y, 0.01, 0.02)); auto r = Script::MCSimulation<double>(prd, d, 20 + n, "mrg32", false, comp); return num(r.aggregated_); }; }
    case 16: return [=] { int m = n + 2; std::unique_ptr<Sparse::Square_> t(Sparse::NewBandDiagonal(m, n % 2 + 1, n % 2 + 1)); for (int i = 0; i < m; ++i) { t->Set(i, i, 4 + x); if (i) { t->Set(i, i - 1, y); t->Set(i - 1, i, y); } } std::unique_ptr<SquareMatrixDecomposition_> d(t->Decompose()); Vector_<> q(m, 1.0), r(m), z(m); d->SolveLeft(q, &r); t->MultiplyLeft(r, &z); return num(r[0]) + num(r[m - 1]) + num(z[0]); };
    case 17: return [=] { int m = n + 2; std::unique_ptr<Sparse::Square_> t(Sparse::NewBandDiagonal(m, 1, 1)); for (int i = 0; i < m; ++i) { t->Set(i, i, 4 + x); if (i) { t->Set(i, i - 1, y); t->Set(i - 1, i, y); } } Vector_<> q(m, 1.0), r(m, 0.0), u(m, 0.0); Sparse::CGSolve(*t, q, 1e-10, 1e-10, 200, &r); Sparse::BCGSolve(*t, q, 1e-10, 1e-10, 200, &u); return num(r[0]) + num(u[m - 1]); };
    case 18: return [=] { std::unique_ptr<Interp1_> f(Interp::NewCubic(String_("c"), Vector_<>{0.0, 1.0, 2.0, 3.5}, Vector_<>{x, y, 1.0, x * y}, Interp::Boundary_(1 + n % 2, y), Interp::Boundary_(2, 0.0))); return num((*f)(x)) + num((*f)(y)) + num((*f)(3.2)); };
    case 19: return [=] { std::unique_ptr<Random_> r(new BrownianBridge_(std::unique_ptr<Random_>(New(RNGType_("MRG32"), a + 1, n)))); Vector_<> z(n); r->FillNormal(&z); r->FillNormal(&z); return num(z[0]) + num(z[n - 1]); };
    case 20: return [=] { int m = 8 + n; Uniform1DMesher_ ms(0.0, 1.0 + x, m); PDE::FD1D_ fd(ms); fd.Init(); fd.Mu() = Vector_<>(m, 0.1); fd.Var() = Vector_<>(m, y); fd.R() = Vector_<>(m, 0.02); Vector_<> f(m); for (int i = 0; i < m; ++i) f[i] = std::max(i - 4.0, 0.0); fd.RollBwd(0.01, 0.5, f); fd.RollBwd(0.01, 1.0, f); return num(f[3]) + num(f[m - 1]); };
    case 21: return [=] { double p = Distribution::BlackOpt(100.0, y, 100.0 * x, OptionType_("PUT")); try { return num(Distribution::BlackIV(100.0, 100.0 * x, OptionType_("PUT"), p + 1.0)); } catch (const std::exception& e) { return std::string(e.what()); } };
    case 22: return [=] { Brent_ br(y, EPSILON, 0.3); Converged_ done(1e-9, 1e-9); double z = 0, fz = 0; for (int i = 0; i < 60; ++i) { z = br.NextX(); fz = z * z * z + z - x; if (done(br, fz)) break; } return num(z); };
    case 23: return [=] { Dictionary_ d; d.Insert("K1", Cell_(x)); d.Insert("Day", Cell_(day(a))); d.Insert("flag", Cell_(true)); String_ t = Dictionary::ToString(d); return S(t) + S(Dictionary::ToString(Dictionary::FromString(t))) + (d.Has("k1") ? "y" : "n") + (d.Has("zz") ? "y" : "n"); };
    case 24: { bool cny = g.b(); return [=] { Ccy_ c(cny ? "CNY" : "USD"); std::string o = std::to_string(Ccy::Conventions::LiborFixDays()(c)); try { o += S(Ccy::Conventions::LiborFixHolidays()(c).String()); } catch (const std::exception& e) { o += e.what(); } return o; }; }
    default: { std::string c = std::string(g.pick(CENTERS)); bool back = g.b(); return [=] { auto p = Date::ParseIncrement(String_(std::to_string(n) + "BD;" + c)); return S(Date::ToString(back ? day(a) - *p : day(a) + *p)); }; }
    }
}
SUB_CONC("calls", 1500, 15000) {
    calendars(); Calendars_::Init(); CcyFacts_::Init(); IndexParsers_::Init(); Global::Dates_::SetEvaluationDate(day(1600)); int nt = g.n(2, 6), nj = g.n(1, 12); std::vector<Job> js; std::vector<std::string> what(nj); for (int i = 0; i < nj; ++i) js.push_back(job(g, &what[i])); std::vector<std::vector<int>> order(nt); for (auto& o : order) { for (int i = 0; i < nj; ++i) o.push_back(i); g.shuffle(o); } g.nontrivial(nj >= 3); for (auto& s : what) SHOW(s); SHOW("on " << nt << " threads");
    std::vector<std::vector<std::string>> got(nt, std::vector<std::string>(nj)); together(g, nt, [&](int t) { for (int i : order[t]) { try { got[t][i] = js[i](); } catch (const std::exception& e) { got[t][i] = std::string("error ") + e.what(); } } });
    for (int i = 0; i < nj; ++i) { std::string want; try { want = js[i](); } catch (const std::exception& e) { want = std::string("error ") + e.what(); } for (int t = 0; t < nt; ++t) CHECK(got[t][i] == want, what[i] << " on thread " << t << " of " << nt << " gives " << got[t][i] << ", alone " << want); }
}
static Handle_<Storable_> box(const std::string& name, double v) { Matrix_<Cell_> m(1, 1); m(0, 0) = v; return Handle_<Storable_>(std::shared_ptr<const Storable_>(new Box_(String_(name), m))); }
static double held(const Handle_<Storable_>& h) { auto* b = dynamic_cast<const Box_*>(h.get()); return b ? Cell::ToDouble(b->contents_(0, 0)) : -1; }
SUB_CONC("repository", 900, 9000) {
    ENV_SEED_TYPE(ObjectAccess_); auto* repo = Environment::Find<ObjectAccess_>(_env); (void)repo->Erase(String_(".*")); int nt = g.n(2, 6), n = g.n(1, 15), ns = g.n(1, 2); bool type = g.chance(20); std::vector<std::vector<int>> ops(nt); for (auto& o : ops) for (int i = 0; i < n; ++i) o.push_back(g.n(0, 8)); SHOW(nt << " threads, " << n << " operations" << (type ? ", replacing by type" : "")); g.nontrivial(n >= 3);
    std::vector<int> left(nt, 0), shared(nt, 0); together(g, nt, [&](int t) { std::vector<std::pair<String_, Handle_<Storable_>>> mine; std::string own = "own" + std::to_string(t) + "x"; auto bad = [&](const std::string& m) { throw std::runtime_error(m); }; for (int i = 0; i < n; ++i) switch (ops[t][i]) {
        case 0: case 1: if (!type) { auto h = box(own, i); mine.push_back({repo->Add(h, RepositoryErase_("NONE")), h}); } break;
        case 2: case 3: { auto h = box("shared" + std::to_string(i % ns), 100 * t + i); (void)repo->Add(h, RepositoryErase_(type ? "TYPE" : "NAME")); ++shared[t]; break; }
        case 4: if (!mine.empty() && repo->Fetch(mine.back().first) != mine.back().second) bad("an object is not found under its tag"); break;
        case 5: { auto f = repo->Find(String_(own)); if (f.size() != mine.size()) bad(std::to_string(f.size()) + " objects found, " + std::to_string(mine.size()) + " added"); break; }
        case 6: if (!mine.empty()) { if (!repo->Erase(*mine.back().second)) bad("an object is not there to be erased"); mine.pop_back(); } break;
        case 7: { int k = repo->Erase(String_(own)); if (k != (int)mine.size()) bad(std::to_string(k) + " objects erased of " + std::to_string(mine.size())); mine.clear(); break; }
        default: { int s = repo->Size(); if (s < (int)mine.size()) bad("size " + std::to_string(s)); auto f = repo->Find(String_(type ? "Box" : "shared0")); if (f.size() > 1) bad(std::to_string(f.size()) + " objects where each replaces the others"); for (auto& h : f) if (held(h) < 0) bad("an object was damaged"); } } left[t] = (int)mine.size(); });
    int all = 0, any = 0; for (int t = 0; t < nt; ++t) { all += left[t]; any += shared[t]; } if (type) CHECK((int)repo->Find(String_("Box")).size() == (any ? 1 : 0), "objects of a type that replaces its like: " << repo->Find(String_("Box")).size()); else { int sh = 0; for (int s = 0; s < ns; ++s) { auto f = repo->Find(String_("shared" + std::to_string(s))); CHECK(f.size() <= 1, f.size() << " objects of one name though each replaced the others"); sh += (int)f.size(); } CHECK((any > 0) == (sh > 0) && repo->Size() == all + sh, repo->Size() << " objects at the end, expected " << all + sh); } (void)repo->Erase(String_(".*"));
}
SUB_CONC("globals", 900, 9000) {
    int nt = g.n(2, 6), n = g.n(1, 15); bool acc = g.b(), append = g.chance(70); std::vector<std::vector<int>> ops(nt); for (auto& o : ops) for (int i = 0; i < n; ++i) o.push_back(g.n(0, 5)); SHOW(nt << " threads, " << n << " operations"); g.nontrivial(n >= 3); auto set = [&](const Date_& d) { if (acc) Global::Dates_::SetAccountingDate(d); else Global::Dates_::SetEvaluationDate(d); }; auto get = [&] { return acc ? Global::Dates_::AccountingDate() : Global::Dates_::EvaluationDate(); }; set(day(5000)); XGLOBAL::StoreFixings("MT", FixHistory_(), false); XGLOBAL::StoreFixings("MT2", FixHistory_(), false); auto when = [](int t, int i) { return DateTime_(day(100 * t + i), 0.5); }; std::vector<int> stored(nt, 0), sets(nt, 0);
    together(g, nt, [&](int t) { auto bad = [&](const std::string& m) { throw std::runtime_error(m); }; std::vector<int> mine; for (int i = 0; i < n; ++i) switch (ops[t][i]) {
        case 0: set(day(5001 + t)); ++sets[t]; break;
        case 1: { int k = get() - day(5000); if (k < 0 || k > nt) bad("the date read was never set: " + S(Date::ToString(get()))); break; }
        case 2: case 3: { FixHistory_ h; h.vals_.push_back(std::make_pair(when(t, i), 10.0 * t + i)); if (append) { int c = XGLOBAL::StoreFixings("MT", h); mine.push_back(i); if (c < (int)mine.size()) bad(std::to_string(c) + " fixings stored after " + std::to_string(mine.size())); } else { if (XGLOBAL::StoreFixings("MT2", h, false) != 1) bad("number of fixings"); mine.push_back(i); } break; }
        case 4: { FixHistory_ h = Global::Fixings_().History(append ? "MT" : "MT2"); std::set<int> seen; for (auto& v : h.vals_) { int k = v.first.Date() - day(0); if (v.second != 10.0 * (k / 100) + k % 100) bad("a fixing has another's value"); if (k / 100 == t) seen.insert(k % 100); } if (append) for (int i : mine) if (!seen.count(i)) bad("a fixing stored earlier is missing"); if (!append && h.vals_.size() > 1) bad("more than the last fixing"); break; }
        default: if (t == 0) { (void)Global::Fixings_().History("MT"); } else { auto h = box("unrelated" + std::to_string(t), i); (void)ObjectAccess_().Add(h, RepositoryErase_("NAME")); if (i % 2) (void)ObjectAccess_().Erase(*h); } } stored[t] = (int)mine.size(); });
    int all = 0, any = 0; for (int t = 0; t < nt; ++t) { all += stored[t]; any += sets[t]; } if (append) CHECK((int)Global::Fixings_().History("MT").vals_.size() == all, Global::Fixings_().History("MT").vals_.size() << " fixings of " << all << " stored at once are left"); else CHECK((int)Global::Fixings_().History("MT2").vals_.size() == (all ? 1 : 0), "fixings replaced"); if (any) CHECK(get() != day(5000), "every date set was lost"); ENV_SEED_TYPE(ObjectAccess_); auto* repo = Environment::Find<ObjectAccess_>(_env); CHECK(repo->Find(String_(acc ? "AccountingDate" : "EvaluationDate")).size() == 1, "one date is stored " << repo->Find(String_(acc ? "AccountingDate" : "EvaluationDate")).size() << " times");
}
SUB_CONC("registrations", 300, 3000) {   // centres and parsers registered while others are used
    calendars(); Calendars_::Init(); CcyFacts_::Init(); IndexParsers_::Init(); static int round = 0; ++round; int nt = g.n(2, 6), n = g.n(1, 6); SHOW(nt << " threads, " << n << " registrations each"); g.nontrivial(n >= 3 || nt > 3); bool same = g.chance(30); std::atomic<int> won(0); auto name = [&](int t, int i) { return "R" + std::to_string(round) + "." + (same ? std::string("s") : std::to_string(t)) + "." + std::to_string(i); }; auto hol = [&](int t, int i) { Vector_<Date_> h; Date_ d = day(10 * t + 70 * i); while (Date::IsWeekEnd(d)) ++d; h.push_back(d); return h; };
    together(g, nt, [&](int t) { auto bad = [&](const std::string& m) { throw std::runtime_error(m); }; for (int i = 0; i < n; ++i) { String_ c(name(t, i)); if (same) { bool ok = true; try { Holidays::AddCenter(c, hol(0, i)); } catch (const std::exception&) { ok = false; } won += ok; } else Holidays::AddCenter(c, hol(t, i)); Holidays_ h(c); if (!h.IsHoliday(hol(same ? 0 : t, i)[0])) bad("a centre just added lacks its holiday"); if (Holidays_(String_("MT.A")).String() != "MT.A") bad("another centre changed"); CountBusDays_ cnt(Holidays_(String_("MT.A ") + c)); (void)cnt(day(0), day(100)); Index::RegisterParser(String_("P") + c, [](const String_& nm) { return Index::Parse(String_("EQ[") + nm.substr(nm.find('[') + 1)); }); std::unique_ptr<Index_> x(Index::Parse(String_("P") + c + "[abc]")); if (x->Name() != "EQ[abc]") bad("a parser just registered gives " + S(x->Name())); std::unique_ptr<Index_> e(Index::Parse("FX[USD/EUR]")); if (e->Name() != "FX[USD/EUR]") bad("another parser changed"); IndexParsers_::Init(); CcyFacts_::Init(); } });
    for (int t = 0; t < (same ? 1 : nt); ++t) for (int i = 0; i < n; ++i) { CHECK(Holidays_(String_(name(t, i))).IsHoliday(hol(t, i)[0]), "centre " << name(t, i) << " was lost"); } if (same) CHECK(won == n, won << " of " << n << " registrations of one name succeeded");
}
