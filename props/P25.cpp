#include "modelref.hpp"
#include "scriptdal.hpp"
#include <dal/math/aad/aad.hpp>
#include <dal/math/distribution/black.hpp>
#include <dal/math/random/brownianbridge.hpp>
#include <dal/script/simulation.hpp>
#include <dal/concurrency/threadpool.hpp>
#include <public/src/value.hpp>
using namespace Dal; using namespace Dal::Script; using Dal::AAD::Number_; using Dal::AAD::Tape_; using mdlref::Mdl; using mdlref::V; using scr::Dual; using scr::Product; using scr::Text; using scr::VARS; using scr::KNAMES;
PROPERTY_DEF("P25", "Random scripts on random models are valued with random numbers of paths (one to several batches), threads, generators, with or without bridge and compilation; the total and every sensitivity are compared with a plain sequential loop: generator, reference model recursion, reference interpreter (with forward-mode derivatives and, for smoothed runs, the reference smoothing). Non-trivial: at least two paths and a result that differs between paths.")
namespace pbt { std::vector<std::string> ASSUMPTIONS = {"paths on which a value leaves the finite range, or a comparison is within rounding of its threshold, are not compared", "names of constants differ from names of model parameters", "the Sobol generator is absent from this tree"}; void globalInit() { ThreadPool_::GetInstance()->Stop(); } }
static Mdl model(pbt::G& g, size_t most) { for (;;) { Mdl m = mdlref::model(g); m.maxDt = 1.0; m.spot = g.uni(20, 130) + 0.0123456789; double f = 1; if (!m.bs) { f = m.spot * g.uni(0.4, 0.9) / m.S[0]; for (double& s : m.S) s *= f; } if (params(m).size() <= most) return m; m.S.clear(); } }
static Handle_<ModelData_> data(const Mdl& m) { Matrix_<> v((int)m.S.size(), (int)m.T.size()); for (size_t i = 0; i < m.S.size(); ++i) for (size_t j = 0; j < m.T.size(); ++j) v((int)i, (int)j) = m.sg[i * m.T.size() + j]; Handle_<ModelData_> d; if (m.bs) d.reset(new BSModelData_("m", m.spot, m.vol, m.r, m.q)); else d.reset(new DupireModelData_("m", m.spot, m.r, m.q, V(m.S), V(m.T), v)); return d; }
static void threads(pbt::G& g) { int n = g.n(1, 8); SHOW(n << " threads"); ThreadPool_::GetInstance()->Start(n, true); }
static std::unique_ptr<Random_> rng(const std::string& kind, size_t dim, bool bb) { std::unique_ptr<Random_> r(New(RNGType_(kind == "irn" ? "IRN" : "MRG32"), 1024, (int)dim)); if (bb) return std::unique_ptr<Random_>(new BrownianBridge_(std::move(r))); return r; }
// products: free ones, and the usual shapes
static Product some(pbt::G& g, bool eps) {
    Product p; if (g.chance(65)) { p = scr::product(g, false, eps, 3); if (g.chance(25)) p.gaps[0] = 0; finish(p); return p; }
    using scr::E; using scr::S; using scr::B; auto c = [](double x) { E e; e.op = 'c'; e.c = x; return e; }; auto v = [](int i) { E e; e.op = 'v'; e.v = i; return e; }; auto k = [](int i) { E e; e.op = 'k'; e.v = i; return e; }; auto sp = [] { E e; e.op = 's'; return e; }; auto b = [](char o, E x, E y) { E e; e.op = o; e.a = {x, y}; return e; }; auto st = [](char kind, int i, E e) { S s; s.kind = kind; s.v = i; s.e = e; return s; }; auto iff = [](char o, E x, E y, scr::Ev t, scr::Ev f) { S s; s.kind = 'i'; s.c.op = o; s.c.e = {x, y}; s.t = t; s.f = f; s.hasElse = !f.empty(); return s; };
    p.k = {g.uni(40, 120), g.uni(60, 160)}; p.today = g.n(36526, 54788); int n = g.n(1, 3); switch (g.n(0, 4)) {
    case 0: p.ev = {{st('p', 0, b('M', b(g.b() ? '-' : '+', sp(), k(0)), c(0)))}}; n = 1; break; case 1: for (int i = 0; i < n; ++i) p.ev.push_back({st('=', 0, b('+', v(0), sp()))}); p.ev.back().push_back(st('p', 1, b('M', b('-', b('/', v(0), c(n)), k(0)), c(0)))); break;
    case 2: for (int i = 0; i < n; ++i) p.ev.push_back({iff('>', sp(), k(1), {st('=', 0, c(1))}, {})}); p.ev.back().push_back(st('p', 1, b('*', b('-', c(1), v(0)), b('M', b('-', sp(), k(0)), c(0))))); break; case 3: p.ev.push_back({st('=', 0, c(1))}); for (int i = 0; i < n; ++i) p.ev.push_back({iff('=', v(0), c(1), {iff('G', sp(), k(1), {st('p', 1, k(0)), st('=', 0, c(0))}, {st('p', 1, c(2))})}, {})}); break;
    default: for (int i = 0; i < n; ++i) p.ev.push_back({st(g.b() ? '=' : 'p', 0, g.chance(30) ? c(5) : g.chance(50) ? k(0) : sp())}); break; }
    for (size_t i = 0; i < p.ev.size(); ++i) p.gaps.push_back(i == 0 && g.chance(25) ? 0 : g.n(1, 400)); finish(p); return p;
}
namespace scr {
static E c_(double x) { E e; e.op = 'c'; e.c = x; return e; } static E v_(int v) { E e; e.op = 'v'; e.v = v; return e; } static E s_() { E e; e.op = 's'; return e; } static E b_(char o, E a, E b) { E e; e.op = o; e.a = {std::move(a), std::move(b)}; return e; }
static void spotConditions(pbt::G& g, S& s) { if (s.kind != 'i') return; std::function<void(B&)> f = [&](B& b) { for (auto& x : b.a) f(x); if (!b.e.empty()) { if (g.chance(50)) b.e = {s_(), c_(g.n(0, 300) * 0.5)}; else b.e[0] = b_(g.b() ? '+' : '-', s_(), b.e[0]); } }; f(s.c); for (auto& t : s.t) spotConditions(g, t); for (auto& t : s.f) spotConditions(g, t); }
}
struct Ref { double sum = 0, abs = 0; std::vector<double> d, m; bool varied = false; };
// a plain loop over the paths; wide: derivatives; smoothing width or -1
template <class T> Ref reference(pbt::G& g, const Mdl& m, const Product& p, int pay, size_t n, const std::string& kind, bool bb, double eps) {
    std::vector<double> t; int d = 0; for (int x : p.gaps) { d += x; t.push_back(d / 365.0); } std::vector<int> obs; size_t dim = mdlref::grid(m, t, obs).size() - 1; auto gen = rng(kind, dim, bb); Vector_<> z((int)dim); Ref r; auto pr = params(m); std::vector<T> par; for (size_t i = 0; i < pr.size(); ++i) par.push_back(T(pr[i])); if constexpr (std::is_same<T, Dual>::value) for (size_t i = 0; i < pr.size(); ++i) par[i] = Dual::input(pr[i], (int)i); r.d.assign(24, 0.0); r.m.assign(24, 0.0); double first = 0;
    for (size_t i = 0; i < n; ++i) { gen->FillNormal(&z); std::vector<T> s, u; double kink = 1e300; mdlref::path<T>(m, par, t, std::vector<double>(z.begin(), z.end()), s, u, kink); auto e = scr::start<T>(p); if constexpr (std::is_same<T, Dual>::value) for (size_t j = 0; j < e.k.size(); ++j) e.k[j] = Dual::input(e.k[j].v, (int)(pr.size() + j)); scr::Blur<T> blur; blur.def = eps; for (size_t q = 0; q < p.ev.size(); ++q) { e.spot = s[q]; e.num = u[q]; for (auto& x : p.ev[q]) if (eps > 0) scr::runSmooth(x, e, blur); else scr::run(x, e); }
        if (e.bad || e.big > 1e9 || mdlref::growth() > 1e4 || (eps <= 0 && (e.tie || e.nearest < 1e-9 * e.big))) g.discard(); if (std::is_same<T, Dual>::value && (e.kink < 1e-9 * e.big || kink < 1e-7 || (eps > 0 && blur.closest < 1e-7 * e.big))) g.discard(); double val = scr::val(e.var[pay]); r.sum += val; r.abs += e.big; if (i == 0) first = val; else if (val != first) r.varied = true; if constexpr (std::is_same<T, Dual>::value) for (int q = 0; q < 24; ++q) { r.d[q] += e.var[pay].d[q]; r.m[q] += e.var[pay].m[q]; } }
    return r;
}
static size_t paths(pbt::G& g, int many) { return g.chance(many) ? (g.chance(30) ? g.pick(std::vector<int>{1023, 1024, 1025, 2048, 2049}) : g.n(1025, 9000)) : g.chance(10) ? 1 : g.n(1, 60); }
static void value(pbt::G& g, int many) {
    Product p = some(g, false); Mdl m = model(g, 40); std::string kind = g.b() ? "mrg32" : "irn"; bool bb = g.chance(30); size_t n = paths(g, many); int pay = p.vars[g.draw(p.vars.size())]; Text t = text(g, p, false); bool compiled = g.b(), proc = g.b() && !overflows(p.ev, p.k); SHOW(scr::show(t) << show(m) << " payoff " << VARS[pay] << " " << n << " paths of " << kind << (bb ? " bridged" : "") << (compiled ? " compiled" : "") << (proc ? " processed" : "")); threads(g);
    Ref r = reference<double>(g, m, p, pay, n, kind, bb, -1); g.nontrivial(r.varied); Global::Dates_::SetEvaluationDate(scr::day(p.today)); auto prod = build(t, VARS[pay]); try { prod->PreProcess(false, !proc); } catch (const std::exception& e) { if (std::string(e.what()).find("Division by {0}") != std::string::npos) g.discard(); throw; } if (compiled) prod->Compile(); int runs = g.n(1, 2); for (int k = 0; k < runs; ++k) { SimResults_ res = MCSimulation<double>(*prod, data(m), n, String_(kind), bb, compiled); CHECK(std::fabs(res.aggregated_ - r.sum) <= 1e-9 * r.abs, (k ? "second run: " : "") << "total " << res.aggregated_ << ", expected " << r.sum); }
}
SUB("values", 12000, 300000) { value(g, 1); }
SUB_CONC("values-in-batches", 700, 20000) { value(g, 100); }
static void risks(pbt::G& g, int many, bool compiled) {
    double eps = compiled ? -1 : g.pick(std::vector<double>{0.25, 1, 5, 20}); Product p = some(g, !compiled); if (!compiled) { for (auto& e : p.ev) for (auto& s : e) spotConditions(g, s); finish(p); } if (overflows(p.ev, p.k)) g.discard(); Mdl m = model(g, 24 - p.k.size()); std::string kind = g.b() ? "mrg32" : "irn"; bool bb = g.chance(30); size_t n = paths(g, many); int pay = p.vars[g.draw(p.vars.size())]; Text t = text(g, p, false); SHOW(scr::show(t) << show(m) << " payoff " << VARS[pay] << " " << n << " paths of " << kind << (bb ? " bridged" : "") << (compiled ? " compiled" : " smoothed by ") << eps); threads(g);
    Ref r = reference<Dual>(g, m, p, pay, n, kind, bb, eps); g.nontrivial(r.varied); Global::Dates_::SetEvaluationDate(scr::day(p.today)); static Tape_ main; Number_::SetTape(main); auto prod = build(t, VARS[pay]); size_t nested = 0; try { nested = prod->PreProcess(!compiled, true); } catch (const std::exception& e) { if (std::string(e.what()).find("Division by {0}") != std::string::npos) g.discard(); throw; } if (compiled) prod->Compile(); int runs = g.n(1, 2);
    for (int k = 0; k < runs; ++k) { SimResults_ res = MCSimulation<Number_>(*prod, data(m), n, String_(kind), bb, compiled, (int)nested, eps > 0 ? eps : 0.01); const char* rep = k ? "second run: " : ""; CHECK(std::fabs(res.aggregated_ - r.sum) <= 1e-8 * r.abs, rep << "total " << res.aggregated_ << ", expected " << r.sum); auto pr = params(m); const auto& kn = prod->ConstVarNames(); CHECK(res.names_.size() == pr.size() + kn.size() && res.risks_.size() == res.names_.size(), rep << "there are " << res.risks_.size() << " sensitivities, expected " << pr.size() + kn.size());
        auto near = [&](size_t at, size_t from) { double w = r.d[from] / n; CHECK(std::fabs(res.risks_[at] - w) <= 1e-8 * r.m[from] / n + 1e-12 * r.abs / n, rep << "sensitivity to " << res.names_[at] << " is " << res.risks_[at] << ", expected " << w); if (w != 0) g.label("non-zero sensitivity"); }; for (size_t i = 0; i < pr.size(); ++i) near(i, i); for (size_t i = 0; i < kn.size(); ++i) for (size_t j = 0; j < p.k.size(); ++j) if (kn[i] == String_(KNAMES[j])) near(pr.size() + i, pr.size() + j);
        SimResults_ copy = res; res.risks_.Fill(-99.0); for (size_t i = 0; i < copy.names_.size(); ++i) { bool once = true; for (size_t j = 0; j < i; ++j) if (copy.names_[i] == copy.names_[j]) once = false; for (size_t j = i + 1; j < copy.names_.size(); ++j) if (copy.names_[i] == copy.names_[j]) once = false; if (once) CHECK(pbt::bitsame(copy[copy.names_[i]], copy.risks_[i]), "by name, " << copy.names_[i] << " is " << copy[copy.names_[i]] << ", expected " << copy.risks_[i]); } }
}
SUB("sensitivities-compiled", 5000, 120000) { risks(g, 1, true); }
SUB("sensitivities-smoothed", 5000, 120000) { risks(g, 1, false); }
SUB_CONC("sensitivities-in-batches", 300, 8000) { risks(g, 100, g.b()); }
SUB("public-valuation", 3000, 80000) {   // the interface's one call, on a stored product: value, and sensitivities by name
    bool aad = g.b(); Product p = some(g, aad); if (aad) { for (auto& e : p.ev) for (auto& s : e) spotConditions(g, s); finish(p); } if (overflows(p.ev, p.k)) g.discard(); Mdl m = model(g, 24 - p.k.size()); std::string kind = g.b() ? "mrg32" : "irn"; bool bb = g.chance(30); size_t n = paths(g, 3); double eps = g.pick(std::vector<double>{0.25, 1, 5, 20}); Text t = text(g, p, false); SHOW(scr::show(t) << show(m) << " " << n << " paths of " << kind << (bb ? " bridged" : "") << (aad ? " with sensitivities" : "")); threads(g); Global::Dates_::SetEvaluationDate(scr::day(p.today)); static Tape_ main; Number_::SetTape(main); Vector_<Cell_> c; Vector_<String_> e; for (auto& k : t.k) { c.push_back(Cell_(String_(k.first))); e.push_back(String_(k.second)); } for (auto& v : t.ev) { c.push_back(Cell_(scr::day(v.first))); e.push_back(String_(v.second)); } Handle_<ScriptProductData_> prd(new ScriptProductData_("p", c, e));
    ScriptProduct_ probe = prd->Product(); probe.IndexVariables(); int pay = -1; for (size_t j = 0; j < VARS.size(); ++j) if (probe.VarNames()[probe.PayOffIdx()] == String_(VARS[j])) pay = (int)j; CHECK(pay >= 0, "no payoff"); std::map<String_, double> res; try { res = ValueByMonteCarlo(prd, data(m), (int)n, String_(kind), bb, aad, eps); } catch (const std::exception& x) { if (std::string(x.what()).find("Division by {0}") != std::string::npos) g.discard(); throw; }
    Ref r = aad ? reference<Dual>(g, m, p, pay, n, kind, bb, eps) : reference<double>(g, m, p, pay, n, kind, bb, -1); g.nontrivial(r.varied); CHECK(res.count("PV") && std::fabs(res["PV"] - r.sum / n) <= 1e-8 * r.abs / n, "PV " << res["PV"] << ", expected " << r.sum / n); if (!aad) { CHECK(res.size() == 1, "results besides PV"); return; } std::vector<std::string> nm; if (m.bs) nm = {"spot", "vol", "rate", "div"}; else { nm = {"spot", "rate", "repo"}; for (double s : m.S) for (double x : m.T) { char b[80]; std::snprintf(b, sizeof b, "lvol %.2f %.2f", s, x); nm.push_back(b); } } if (std::set<std::string>(nm.begin(), nm.end()).size() != nm.size()) g.discard(); CHECK(res.size() == 1 + nm.size() + p.ks.size(), res.size() << " results, expected " << 1 + nm.size() + p.ks.size()); for (int k : p.ks) nm.push_back(KNAMES[k]); for (size_t i = 0; i < nm.size(); ++i) { size_t from = i < params(m).size() ? i : params(m).size() + p.ks[i - params(m).size()]; String_ key("d_" + nm[i]); CHECK(res.count(key), "no " << key); double w = r.d[from] / n; CHECK(std::fabs(res[key] - w) <= 1e-8 * r.m[from] / n + 1e-12 * r.abs / n, key << " is " << res[key] << ", expected " << w); }
}
struct Other_ : ModelData_ { Other_() : ModelData_("OtherModelData_", "m") {} void Write(Archive::Store_&) const override {} ModelData_* MutantModel(const String_*, const Slide_*) const override { return new Other_; } };
SUB("refused", 600, 10000) {   // an unknown generator or number of paths is an error, never a zero value
    Product p = some(g, false); if (overflows(p.ev, p.k)) g.discard(); Mdl m = model(g, 20); Text t = text(g, p, false); threads(g); Global::Dates_::SetEvaluationDate(scr::day(p.today)); static Tape_ main; Number_::SetTape(main); Vector_<Cell_> c; Vector_<String_> e; for (auto& k : t.k) { c.push_back(Cell_(String_(k.first))); e.push_back(String_(k.second)); } for (auto& v : t.ev) { c.push_back(Cell_(scr::day(v.first))); e.push_back(String_(v.second)); } Handle_<ScriptProductData_> prd(new ScriptProductData_("p", c, e)); bool aad = g.b(), bad = g.b(), alien = g.chance(20); std::string kind = alien ? "mrg32" : bad ? g.pick(std::vector<std::string>{"", "mrg", "mrg321", "niederreiter", "IRN2"}) : g.b() ? "mrg32" : "irn"; int n = bad || alien ? g.n(1, 3000) : -g.n(0, 5); SHOW(scr::show(t) << n << " paths of '" << kind << "'" << (aad ? " with sensitivities" : "")); g.nontrivial(); bool ok = true; std::string what; try { ValueByMonteCarlo(prd, alien ? Handle_<ModelData_>(new Other_) : data(m), n, String_(kind), g.b(), aad, 0.01); } catch (const std::exception& x) { ok = false; what = x.what(); } if (what.find("Division by {0}") != std::string::npos) g.discard(); CHECK(!ok, (alien ? "a model of another kind" : bad ? "an unknown generator" : "a number of paths that is not positive") << " is accepted");
}
SUB("expired", 1500, 30000) {   // events before the evaluation date count through the values they leave, also when none are left
    Mdl m = model(g, 20); int today = g.n(40000, 50000), n = g.n(1, 4); Vector_<Cell_> c; Vector_<String_> e; double x = 0; std::ostringstream o; int d = today - 400; for (int i = 0; i < n; ++i) { d += g.n(1, 90); int a = g.n(0, 50); c.push_back(Cell_(scr::day(d))); std::string s = g.b() ? "x = x + " + std::to_string(a) : "x = " + std::to_string(a); x = s[4] == 'x' ? x + a : a; if (g.b()) s += " x pays 7"; e.push_back(String_(s)); o << "[" << d - today << "] " << s << " "; } bool left = g.chance(40); double pay = 0; if (left) { int later = g.n(0, 500), a = g.n(1, 20); c.push_back(Cell_(scr::day(today + later))); e.push_back(String_("x pays " + std::to_string(a))); pay = a * std::exp(-m.r * later / 365.0); o << "[" << later << "] x pays " << a; }
    bool aad = g.b(), bb = g.b(); SHOW(o.str() << show(m) << (aad ? " with sensitivities" : "")); g.nontrivial(x != 0); threads(g); Global::Dates_::SetEvaluationDate(scr::day(today)); static Tape_ main; Number_::SetTape(main); Handle_<ScriptProductData_> prd(new ScriptProductData_("p", c, e)); auto r = ValueByMonteCarlo(prd, data(m), g.n(1, 30), g.b() ? "mrg32" : "irn", bb, aad, 0.01); CHECK(std::fabs(r["PV"] - x - pay) <= 1e-11 * (x + pay + 1), "PV is " << r["PV"] << ", expected " << x + pay); if (aad) CHECK(r["d_spot"] == 0.0, "delta of a fixed amount is " << r["d_spot"]);
}
