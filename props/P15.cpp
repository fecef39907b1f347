#include <engine.hpp>
#include <dal/platform/platform.hpp>
#include <dal/math/operators.hpp>
#include <dal/math/specialfunctions.hpp>
#include <dal/math/random/pseudorandom.hpp>
#include <dal/math/random/brownianbridge.hpp>
#include <dal/math/matrix/matrixs.hpp>
#include <public/src/random.hpp>
#include <memory>
using namespace Dal;
PROPERTY_DEF("P15", "Random seeds, dimensions 1 to 12, generator types, precisions and histories of uniform fills, normal fills and skips to random path numbers (0 to 3000, occasionally 2^40 for MRG32), also through the Brownian bridge and the storable front end. Oracles: the published MRG32k3a recurrence in 128-bit integer arithmetic (as the library seeds and updates it), "
  "plain sequential drawing for skips, exact antithetic pairing, orthogonality of the bridge. Non-trivial: a skip followed by draws, or dimension 2 or more.")
namespace pbt { std::vector<std::string> ASSUMPTIONS = {"seeds from 1 to 2^31-2; vectors passed have the generator's dimension; the Sobol generator is not in this source tree"}; void globalInit() {} }
typedef std::vector<double> V;
static V v(const Vector_<>& x) { return V(x.begin(), x.end()); }
struct Mrg { typedef __int128 I; I m1 = 4294967087LL, m2 = 4294944443LL; I x[3], y[3];   // x[0] newest
    explicit Mrg(int seed) { for (int i = 0; i < 3; ++i) { x[i] = seed; y[i] = I(seed) + 1; } }
    double next() { I nx = (I(1403580) * x[1] - I(810728) * x[2]) % m1; if (nx < 0) nx += m1; I ny = (I(527612) * y[0] - I(1370589) * y[2]) % m2; if (ny < 0) ny += m2; x[2] = x[1]; x[1] = x[0]; x[0] = nx; y[2] = y[1]; y[1] = y[0]; y[0] = ny; double d = double((long long)(nx - ny)); return nx > ny ? d / 4294967088.0 : (d + 4294967087.0) / 4294967088.0; } };
static RNGType_ type(pbt::G& g, bool* mrg) { *mrg = g.b(); return RNGType_(String_(*mrg ? g.pick(std::vector<const char*>{"MRG32", "mrg32", "MRG32k32a"}) : g.pick(std::vector<const char*>{"IRN", "irn", "ShuffledIRN"}))); }
static int seed(pbt::G& g) { return g.chance(20) ? g.pick(std::vector<int>{1, 2, 1024, 2147483646, 10784549, 13112884, 28703419, 37460775})   /* the last four reach a zero state within 26 draws of the shuffled generator */ : g.n(1, 2000000000); }
// the sequence a user sees, drawn one path at a time from a fresh generator
struct Model { std::unique_ptr<PseudoRandom_> r; Model(const RNGType_& t, int s, int d, bool p) : r(New(t, s, d, p)) {} };
SUB("uniform-stream", 15000, 300000) {
    bool mrg; RNGType_ t = type(g, &mrg); int s = seed(g), d = g.n(1, 12); bool prec = g.b(); SHOW((mrg ? "MRG32" : "IRN") << " seed " << s << " dim " << d << " precise " << prec); if (d > 1) g.nontrivial();
    std::unique_ptr<PseudoRandom_> r(New(t, s, d, prec)), r2(New(t, s, d, prec)), c(r->Clone()); CHECK(r->NDim() == (size_t)d && c->NDim() == (size_t)d, "dimension"); Mrg m(s); Vector_<> a(d), b(d), e(d); V prev;
    for (int i = 0, n = g.n(1, 12); i < n; ++i) { bool normal = false; r->FillUniform(&a); r2->FillUniform(&b); c->FillUniform(&e); CHECK(a == b, "same seed, same stream"); CHECK(a == e, "clone of a fresh generator"); for (double u : a) CHECK(u > 0 && u < 1, "uniform " << pbt::dbl(u)); (void)normal;
        if (i % 2) for (int k = 0; k < d; ++k) CHECK(a[k] == 1.0 - prev[k], "antithetic path " << a[k] << " of " << prev[k]); else if (mrg) for (int k = 0; k < d; ++k) { double w = m.next(); CHECK(a[k] == w, "MRG32k3a draw " << pbt::dbl(a[k]) << " expected " << pbt::dbl(w)); } prev = v(a); }
}
SUB("normal-stream", 15000, 300000) {
    bool mrg; RNGType_ t = type(g, &mrg); int s = seed(g), d = g.n(1, 12); bool prec = g.b(); SHOW((mrg ? "MRG32" : "IRN") << " seed " << s << " dim " << d << " precise " << prec); if (d > 1) g.nontrivial();
    std::unique_ptr<PseudoRandom_> r(New(t, s, d, prec)), u(New(t, s, d, prec)), c(r->Clone()); Vector_<> a(d), e(d);
    for (int i = 0, n = g.n(1, 8); i < n; ++i) { r->FillNormal(&a); c->FillNormal(&e); CHECK(a == e, "clone of a fresh generator (precise " << prec << ")"); for (int k = 0; k < d; ++k) { double w = InverseNCDF(u->NextUniform(), prec, prec); CHECK(a[k] == w, "normal draw " << pbt::dbl(a[k]) << " expected " << pbt::dbl(w)); } }
}
SUB("skip", 12000, 200000) {
    bool mrg; RNGType_ t = type(g, &mrg); int s = seed(g), d = g.n(1, 6); bool prec = g.b(), bb = g.chance(30); std::string hist; std::unique_ptr<Random_> r(New(t, s, d, prec)); if (bb) r.reset(new BrownianBridge_(std::move(r))); Vector_<> a(d), b(d); g.nontrivial();
    auto fresh = [&] { std::unique_ptr<Random_> x(New(t, s, d, prec)); if (bb) x.reset(new BrownianBridge_(std::move(x))); return x; };
    for (int rep = 0, nr = g.n(1, 3); rep < nr; ++rep) { int pre = g.n(0, 3); for (int i = 0; i < pre; ++i) { if (g.b()) r->FillUniform(&a); else r->FillNormal(&a); }   // a used generator can be repositioned
        int n = g.chance(30) ? g.n(0, 4) : g.n(0, g.chance(20) ? 3000 : 40); if (rep == 0 && g.u01() > 0.994) n = g.n(60000, 300000); bool normal = g.b(), dbl = g.chance(20); hist += " draws " + std::to_string(pre) + " skip " + std::to_string(n) + (normal ? " normal" : " uniform"); SHOW((mrg ? "MRG32" : "IRN") << " seed " << s << " dim " << d << " bridge " << bb << hist);
        if (dbl) r->SkipTo(g.n(0, 50)); r->SkipTo(n); auto f = fresh(); for (int i = 0; i < n; ++i) { if (normal) f->FillNormal(&b); else f->FillUniform(&b); }
        for (int i = 0, m = g.n(1, 5); i < m; ++i) { if (normal) { r->FillNormal(&a); f->FillNormal(&b); } else { r->FillUniform(&a); f->FillUniform(&b); } CHECK(a == b, "draw " << i << " after a skip to " << n << ": " << pbt::dbl(a[0]) << " expected " << pbt::dbl(b[0])); } }
}
SUB("long-skip", 3000, 40000) {   // MRG32 skips compose: skip to a+b equals skip to a, then b paths
    int s = seed(g), d = g.n(1, 5); unsigned long long n = g.draw(1ull << (g.n(1, 40))); int k = g.n(1, 20); bool normal = g.b(); SHOW("seed " << s << " dim " << d << " to " << n << " + " << k << (normal ? " normal" : " uniform")); g.nontrivial();
    std::unique_ptr<PseudoRandom_> a(New(RNGType_("MRG32"), s, d)), b(New(RNGType_("MRG32"), s, d)); a->SkipTo(n + k); b->SkipTo(n); Vector_<> x(d), y(d); auto fill = [&](PseudoRandom_& r, Vector_<>& z) { if (normal) r.FillNormal(&z); else r.FillUniform(&z); };
    for (int i = 0; i < k; ++i) fill(*b, y); for (int i = 0; i < 3; ++i) { fill(*a, x); fill(*b, y); CHECK(x == y, "path " << n + k + i << " differs: " << pbt::dbl(x[0]) << " vs " << pbt::dbl(y[0])); }
}
struct Fixed : Random_ { size_t d; Vector_<> z; Fixed(size_t n) : d(n), z(n, 0.0) {} void FillUniform(Vector_<>* x) override { for (size_t i = 0; i < d; ++i) (*x)[i] = NCDF(z[i]); } void FillNormal(Vector_<>* x) override { for (size_t i = 0; i < d; ++i) (*x)[i] = z[i]; } void SkipTo(size_t) override {} Random_* Clone() const override { return new Fixed(*this); } size_t NDim() const override { return d; } };
SUB("brownian-bridge", 4000, 60000) {
    int d = g.chance(5) ? g.n(25, 150) : g.n(1, 24); auto* f = new Fixed(d); BrownianBridge_ bb{std::unique_ptr<Random_>(f)}; SHOW("dim " << d); if (d > 1) g.nontrivial(); CHECK(bb.NDim() == (size_t)d, "dimension"); std::vector<V> q; Vector_<> o(g.b() ? d : 0);
    for (int k = 0; k < d; ++k) { f->z = Vector_<>(d, 0.0); f->z[k] = 1.0; bb.FillNormal(&o); CHECK((int)o.size() == d, "size"); q.push_back(v(o)); }
    for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) { double s = 0, r = 0; for (int k = 0; k < d; ++k) { s += q[i][k] * q[j][k]; r += q[k][i] * q[k][j]; } CHECK(std::fabs(s - (i == j)) < 1e-10 && std::fabs(r - (i == j)) < 1e-10, "the bridge is not orthogonal at " << i << "," << j); }
    for (int j = 0; j < d; ++j) CHECK(std::fabs(q[0][j] - 1 / std::sqrt(double(d))) < 1e-10, "the first deviate sets the final value only");
    Vector_<> z(d); for (auto& x : z) x = g.uni(-3, 3); f->z = z; bb.FillNormal(&o); for (int j = 0; j < d; ++j) { double s = 0; for (int k = 0; k < d; ++k) s += q[k][j] * z[k]; CHECK(std::fabs(o[j] - s) < 1e-9, "linear"); } Vector_<> u(d); bb.FillUniform(&u); for (int j = 0; j < d; ++j) CHECK(std::fabs(u[j] - NCDF(o[j])) < 1e-12, "uniform from bridge"); std::unique_ptr<Random_> c(bb.Clone()); Vector_<> w(d); c->FillNormal(&w); CHECK(w == o, "bridge clone");
}
SUB("front-end", 4000, 60000) {
    bool mrg = g.b(); int s = seed(g), d = g.n(1, 6), n = g.n(1, 8); SHOW((mrg ? "MRG32" : "IRN") << " seed " << s << " dim " << d << " paths " << n); if (d > 1) g.nontrivial(); const char* nm = mrg ? "MRG32" : "IRN"; auto h = NewPseudoRSG(nm, s, d); std::unique_ptr<PseudoRandom_> r(New(RNGType_(String_(nm)), s, d)); Matrix_<> y; Vector_<> a(d);
    for (int k = 0; k < 2; ++k) { bool normal = g.b(); if (normal) GetPseudoRSGNormal(h, n, &y); else GetPseudoRSGUniform(h, n, &y); CHECK(y.Rows() == n && y.Cols() == d, "shape"); for (int i = 0; i < n; ++i) { if (normal) r->FillNormal(&a); else r->FillUniform(&a); for (int j = 0; j < d; ++j) CHECK(y(i, j) == a[j], "element " << i << "," << j); } }
    MUST_THROW(RNGType_(String_("nosuch")), "unknown generator type");
}
SUB("statistics", 60, 600) {
    bool mrg; RNGType_ t = type(g, &mrg); int s = seed(g), d = g.n(1, 4), n = 20000; bool normal = g.b(); SHOW((mrg ? "MRG32" : "IRN") << " seed " << s << " dim " << d << (normal ? " normal" : " uniform")); g.nontrivial(); std::unique_ptr<PseudoRandom_> r(New(t, s, d)); Vector_<> a(d); V m(d, 0.0), q(d, 0.0); double lag = 0, x0 = 0;
    double mu = normal ? 0 : 0.5, var = normal ? 1 : 1.0 / 12, kurt = normal ? 3 : 1.8; for (int i = 0; i < n; ++i) { if (normal) r->FillNormal(&a); else { r->FillUniform(&a); if (i % 2) { --i; r->FillUniform(&a); ++i; } } double p = mu; for (int k = 0; k < d; ++k) { m[k] += a[k] - mu; q[k] += (a[k] - mu) * (a[k] - mu); if (k) lag += (a[k] - mu) * (p - mu); p = a[k]; } (void)x0; }
    for (int k = 0; k < d; ++k) { CHECK(std::fabs(m[k] / n) < 8 * std::sqrt(2 * var / n), "mean " << m[k] / n); CHECK(std::fabs(q[k] / n - var) < 8 * var * std::sqrt(2 * (kurt - 1) / n), "variance " << q[k] / n); } if (d > 1) CHECK(std::fabs(lag / n) < 8 * var * std::sqrt(2.0 * (d - 1) / n), "correlation of neighbouring dimensions " << lag / n / var);
}
