#include "../engine/engine.hpp"
#include "modelref.hpp"
#include <dal/platform/platform.hpp>
#include <dal/math/operators.hpp>
#include <dal/math/aad/aad.hpp>
#include <dal/model/factory.hpp>
using namespace Dal; using namespace Dal::AAD; using namespace mdlref;
PROPERTY_DEF("P24", "Random models (Black-Scholes; local volatility with random spot and time knots, volatilities and maximum step), random observation times with or without today, and random normals: every simulated spot, numeraire and discount is compared with the Euler (or exact lognormal) recursion carried out independently, and adjoint gradients to every parameter with forward-mode derivatives of that recursion. Non-trivial: at least two future observation times.")
namespace pbt { std::vector<std::string> ASSUMPTIONS = {"observation times increase, are zero or at least a day, and positive differences are at least a day", "gradients are compared away from the knots of the volatility surface", "spots and volatilities are positive"}; void globalInit() {} }
template <class T> std::unique_ptr<Model_<T>> make(const Mdl& m, bool factory) {
    Matrix_<> v((int)m.S.size(), (int)m.T.size()); for (size_t i = 0; i < m.S.size(); ++i) for (size_t j = 0; j < m.T.size(); ++j) v((int)i, (int)j) = m.sg[i * m.T.size() + j];
    if (factory) { Handle_<ModelData_> d; if (m.bs) d.reset(new BSModelData_("m", m.spot, m.vol, m.r, m.q)); else d.reset(new DupireModelData_("m", m.spot, m.r, m.q, V(m.S), V(m.T), v)); return CreateModel<T>(d); }
    if (m.bs) return std::unique_ptr<Model_<T>>(new BlackScholes_<T>(T(m.spot), T(m.vol), T(m.r), T(m.q))); Matrix_<T> vt(v.Rows(), v.Cols()); for (int i = 0; i < v.Rows(); ++i) for (int j = 0; j < v.Cols(); ++j) vt(i, j) = T(v(i, j)); return std::unique_ptr<Model_<T>>(new Dupire_<T>(T(m.spot), T(m.r), T(m.q), V(m.S), V(m.T), vt, m.maxDt));
}
struct Obs { std::vector<double> t; Vector_<> tl; Vector_<SampleDef_> defs; };
static void definitions(pbt::G& g, Obs& o, bool someWithout) { o.tl = V(o.t); o.defs = Vector_<SampleDef_>(); for (double x : o.t) { SampleDef_ d; d.numeraire_ = !someWithout || g.chance(70); d.forwardMats_.push_back(Vector_<>(1, x)); int n = g.n(0, 2); for (int i = 0; i < n; ++i) d.discountMats_.push_back(x + g.uni(0, 5)); o.defs.push_back(d); } }
static std::vector<double> normals(pbt::G& g, size_t n) { std::vector<double> z; for (size_t i = 0; i < n; ++i) z.push_back(g.chance(10) ? 0.0 : g.normalish()); return z; }
static void against(pbt::G& g, const Mdl& m, const Obs& o, Model_<double>& mdl, const char* what) {
    std::vector<int> obs; size_t dim = grid(m, o.t, obs).size() - 1; CHECK(mdl.SimDim() == dim, what << ": needs " << mdl.SimDim() << " normals, expected " << dim); Scenario_<double> sc; AllocatePath(o.defs, sc); InitializePath(sc); int n = g.n(1, 3); for (int k = 0; k < n; ++k) { auto z = normals(g, dim); SHOW("normals " << pbt::vec(z)); mdl.GeneratePath(V(z), &sc); std::vector<double> s, u; double kink = 1e300; path<double>(m, params(m), o.t, z, s, u, kink);
        for (size_t i = 0; i < o.t.size(); ++i) { CHECK(std::fabs(sc[i].spot_ - s[i]) <= std::max(1e-10, 4e-15 * growth()) * s[i], what << ": spot at " << o.t[i] << " is " << sc[i].spot_ << ", expected " << s[i]); if (o.defs[i].numeraire_) CHECK(std::fabs(sc[i].numeraire_ - u[i]) <= 1e-12 * u[i], what << ": numeraire at " << o.t[i] << " is " << sc[i].numeraire_ << ", expected " << u[i]); else CHECK(sc[i].numeraire_ == 1.0, what << ": numeraire not asked for at " << o.t[i] << " is " << sc[i].numeraire_); if (!m.bs) { for (size_t j = 0; j < o.defs[i].discountMats_.size(); ++j) { double w = std::exp(-m.r * (o.defs[i].discountMats_[j] - o.t[i])); CHECK(std::fabs(sc[i].discounts_[j] - w) <= 1e-12 * w, what << ": discount is " << sc[i].discounts_[j] << ", expected " << w); } CHECK(sc[i].forwards_[0][0] == sc[i].spot_, what << ": forward " << sc[i].forwards_[0][0]); } } }
}
static Mdl altered(pbt::G& g, const Mdl& m) { Mdl x = m; x.spot *= g.uni(0.7, 1.4); x.r += g.uni(-0.02, 0.02); x.q += g.uni(-0.02, 0.02); x.vol *= g.uni(0.7, 1.5); for (double& v : x.sg) if (g.b()) v *= g.uni(0.7, 1.5); return x; }
static void put(Model_<double>& mdl, const Mdl& m) { auto p = params(m); for (size_t i = 0; i < p.size(); ++i) *mdl.Parameters()[i] = p[i]; }
SUB("paths", 40000, 1000000) {
    Mdl m = model(g); Obs o; o.t = times(g); definitions(g, o, g.chance(20)); bool factory = (m.bs || m.maxDt == 1.0) && g.b(); SHOW(show(m) << " times " << pbt::vec(o.t)); g.nontrivial(o.t.size() > 2 || (o.t.size() == 2 && o.t[0] > 0)); g.label(m.bs ? "Black-Scholes" : "Dupire"); auto mdl = make<double>(m, factory); CHECK(mdl->NumAssets() == 1 && mdl->AssetNames().size() == 1, "assets"); mdl->Allocate(o.tl, o.defs); mdl->Init(o.tl, o.defs); against(g, m, o, *mdl, "path");
}
SUB("histories", 12000, 300000) {   // clones, changed parameters and other timelines
    Mdl m = model(g); std::vector<std::unique_ptr<Model_<double>>> pool; std::vector<Mdl> is; std::vector<std::unique_ptr<Obs>> on; pool.push_back(make<double>(m, false)); is.push_back(m); on.emplace_back(); SHOW(show(m)); int n = g.n(2, 7), used = 0; for (int i = 0; i < n; ++i) { size_t k = g.draw(pool.size()); switch (g.n(0, 3)) {
        case 0: { SHOW("clone " << k); pool.push_back(pool[k]->Clone()); is.push_back(is[k]); on.emplace_back(); break; } case 1: { is[k] = altered(g, is[k]); SHOW("change " << k << " to " << show(is[k])); put(*pool[k], is[k]); if (on[k]) pool[k]->Init(on[k]->tl, on[k]->defs); break; }
        default: { if (!on[k] || g.b()) { on[k].reset(new Obs); on[k]->t = times(g); definitions(g, *on[k], false); pool[k]->Allocate(on[k]->tl, on[k]->defs); pool[k]->Init(on[k]->tl, on[k]->defs); } SHOW("simulate " << k << " at " << pbt::vec(on[k]->t)); against(g, is[k], *on[k], *pool[k], "after changes"); ++used; break; } } }
    g.nontrivial(used > 1); for (size_t k = 0; k < pool.size(); ++k) { auto p = params(is[k]); CHECK(pool[k]->NumParams() == p.size() && pool[k]->ParameterLabels().size() == p.size(), "number of parameters"); for (size_t i = 0; i < p.size(); ++i) CHECK(*pool[k]->Parameters()[i] == p[i], "parameter " << i << " (" << pool[k]->ParameterLabels()[i] << ") of model " << k << " is " << *pool[k]->Parameters()[i] << ", expected " << p[i]); if (m.bs) CHECK(pool[k]->ParameterLabels()[0] == "spot" && pool[k]->ParameterLabels()[1] == "vol" && pool[k]->ParameterLabels()[2] == "rate" && pool[k]->ParameterLabels()[3] == "div", "labels"); else { CHECK(pool[k]->ParameterLabels()[0] == "spot" && pool[k]->ParameterLabels()[1] == "rate" && pool[k]->ParameterLabels()[2] == "repo", "labels"); size_t w = 3; for (double s : m.S) for (double t : m.T) { char b[80]; std::snprintf(b, sizeof b, "lvol %.2f %.2f", s, t); CHECK(pool[k]->ParameterLabels()[w] == b, "label " << pool[k]->ParameterLabels()[w] << ", expected " << b); ++w; } } }
}
SUB("gradients", 15000, 400000) {
    Mdl m = model(g); if (params(m).size() > 24) g.discard(); Obs o; o.t = times(g); definitions(g, o, false); SHOW(show(m) << " times " << pbt::vec(o.t)); g.nontrivial(o.t.size() > 2 || (o.t.size() == 2 && o.t[0] > 0)); std::vector<int> obs; size_t dim = grid(m, o.t, obs).size() - 1; auto z = normals(g, dim); SHOW("normals " << pbt::vec(z)); auto p = params(m); std::vector<Dual> dp; for (size_t i = 0; i < p.size(); ++i) dp.push_back(Dual::input(p[i], (int)i)); std::vector<Dual> s, u; double kink = 1e300; path<Dual>(m, dp, o.t, z, s, u, kink); if (kink < 1e-7 || growth() > 1e5) g.discard();
    std::unique_ptr<Tape_> tape(new Tape_); Number_::SetTape(*tape); auto proto = make<Number_>(m, (m.bs || m.maxDt == 1.0) && g.b()); auto mdl = g.b() ? proto->Clone() : std::move(proto); for (Number_* x : mdl->Parameters()) x->PutOnTape(); mdl->Allocate(o.tl, o.defs); mdl->Init(o.tl, o.defs); Scenario_<Number_> sc; AllocatePath(o.defs, sc); InitializePath(sc); mdl->GeneratePath(V(z), &sc); size_t at = g.draw(o.t.size()); bool spot = g.chance(75); Number_ y = (spot ? sc[at].spot_ : sc[at].numeraire_) * 1.0; const Dual& w = spot ? s[at] : u[at]; CHECK(std::fabs(y.value() - w.v) <= 1e-10 * w.v, "value " << y.value() << ", expected " << w.v); y.PropagateToStart();
    for (size_t i = 0; i < p.size(); ++i) { double d = mdl->Parameters()[i]->Adjoint(); CHECK(std::fabs(d - w.d[i]) <= 1e-8 * w.m[i] + 1e-13 * w.v, (spot ? "spot" : "numeraire") << " at " << o.t[at] << ": derivative to " << mdl->ParameterLabels()[i] << " is " << d << ", expected " << w.d[i]); if (w.d[i] != 0) g.label("non-zero derivative"); }
}
SUB("model-data", 10000, 200000) {   // renaming keeps the data; shapes that do not fit are refused
    Mdl m = model(g); Matrix_<> v((int)m.S.size(), (int)m.T.size()); for (size_t i = 0; i < m.S.size(); ++i) for (size_t j = 0; j < m.T.size(); ++j) v((int)i, (int)j) = m.sg[i * m.T.size() + j]; std::unique_ptr<ModelData_> d; if (m.bs) d.reset(new BSModelData_("m", m.spot, m.vol, m.r, m.q)); else d.reset(new DupireModelData_("m", m.spot, m.r, m.q, V(m.S), V(m.T), v)); Vector_<Handle_<Slide_>> none; int n = g.n(0, 2); for (int i = 0; i < n; ++i) none.push_back(Handle_<Slide_>()); SHOW(show(m) << " with " << n << " empty slides"); g.nontrivial(); std::unique_ptr<ModelData_> e(d->MutantModel("other", none)); CHECK(e->name_ == "other" && e->type_ == d->type_, "renamed: " << e->name_ << " of type " << e->type_);
    if (m.bs) { auto* x = dynamic_cast<BSModelData_*>(e.get()); CHECK(x && x->spot_ == m.spot && x->vol_ == m.vol && x->rate_ == m.r && x->div_ == m.q, "renamed data differ"); return; } auto* x = dynamic_cast<DupireModelData_*>(e.get()); CHECK(x && x->spot_ == m.spot && x->rate_ == m.r && x->repo_ == m.q && x->spots_ == V(m.S) && x->times_ == V(m.T) && x->vols_.Rows() == v.Rows() && x->vols_.Cols() == v.Cols() && std::equal(v.begin(), v.end(), x->vols_.begin()), "renamed data differ");
    int dr = g.n(-1, 1), dc = g.n(-1, 1); if (!dr && !dc) return; Matrix_<> bad(v.Rows() + dr, v.Cols() + dc, 0.2); Handle_<ModelData_> h(new DupireModelData_("m", m.spot, m.r, m.q, V(m.S), V(m.T), bad)); bool ok = true; try { auto y = CreateModel<double>(h); } catch (const std::exception&) { ok = false; } CHECK(!ok, "a surface of " << bad.Rows() << " by " << bad.Cols() << " for " << m.S.size() << " spots and " << m.T.size() << " times is accepted");
}
SUB("samples", 8000, 200000) {   // a path allocated for a timeline of definitions has room for what each asks, and starts at 0 and 1 whatever it held before
    Scenario_<double> sc; int rounds = g.n(1, 3); for (int r = 0; r < rounds; ++r) { int n = g.n(0, 5); Vector_<SampleDef_> defs; std::ostringstream o; for (int i = 0; i < n; ++i) { SampleDef_ d; d.numeraire_ = g.b(); int a = g.n(0, 4), b = g.n(0, 4), c = g.n(0, 3); for (int j = 0; j < a; ++j) d.discountMats_.push_back(1.0 + j); for (int j = 0; j < b; ++j) d.liborDefs_.push_back(SampleDef_::RateDef_(j, j + 0.5, "L")); o << " [" << a << " discounts, " << b << " rates, forwards"; for (int j = 0; j < c; ++j) { int k = g.n(0, 4); d.forwardMats_.push_back(Vector_<>(k, 2.0)); o << " " << k; } o << "]"; if (c > 1) g.nontrivial(); defs.push_back(d); } SHOW("round " << r << ":" << o.str());
        AllocatePath(defs, sc); CHECK((int)sc.size() == n, sc.size() << " samples for " << n << " definitions"); for (int i = 0; i < n; ++i) { CHECK(sc[i].discounts_.size() == defs[i].discountMats_.size() && sc[i].libors_.size() == defs[i].liborDefs_.size() && sc[i].forwards_.size() == defs[i].forwardMats_.size(), "sample " << i << " has " << sc[i].discounts_.size() << " discounts, " << sc[i].libors_.size() << " rates and " << sc[i].forwards_.size() << " assets"); for (size_t j = 0; j < sc[i].forwards_.size(); ++j) CHECK(sc[i].forwards_[j].size() == defs[i].forwardMats_[j].size(), "sample " << i << ", asset " << j << ": " << sc[i].forwards_[j].size() << " forwards for " << defs[i].forwardMats_[j].size()); }
        InitializePath(sc); for (auto& s : sc) { CHECK(s.spot_ == 0 && s.numeraire_ == 1, "starts with spot " << s.spot_ << " and numeraire " << s.numeraire_); auto ones = [&](Vector_<>& v, const char* what) { for (double& x : v) { CHECK(x == 1, what << " starts at " << x); x = 5; } }; ones(s.discounts_, "a discount"); ones(s.libors_, "a rate"); for (auto& f : s.forwards_) ones(f, "a forward"); s.spot_ = s.numeraire_ = 7; } }
}
