#include "storables.hpp"
#include <dal/storage/json.hpp>
#include <dal/storage/splat.hpp>
#include <dal/utilities/file.hpp>
#include <unistd.h>
using namespace Dal; using namespace st;
PROPERTY_DEF("P07", "Random objects of all thirteen storable types (nested bags and curve chains with shared members, numbers over the whole double range, text with quotes, escapes and non-ASCII bytes, empty vectors/cells) are written, read back and compared through an independent recording archive and through their public accessors; "
  "malformed input is made by byte and token mutations of valid text. Non-trivial: nested or shared content, more than one member, or text the reader must reject.")
namespace pbt { std::vector<std::string> ASSUMPTIONS = {"date-times are stored to the second in JSON", "a text cell that looks like an ISO date reads back as a date", "the splatted table cannot show empty vectors, cells and strings, so these are left out there", "comma-separated files hold plain words, and dates in generic cells come back as their text", "numbers are finite"}; void globalInit() {} }
static std::string str(const String_& s) { return std::string(s.begin(), s.end()); }
static void sameSharing(const Bag_& a, const Bag_& b) {
    CHECK(a.contents_.size() == b.contents_.size(), "bag size");
    std::map<const Storable_*, const Storable_*> m, inv;
    auto i = a.contents_.begin(); auto j = b.contents_.begin();
    for (; i != a.contents_.end(); ++i, ++j) {
        CHECK(str(i->first) == str(j->first), "bag key");
        auto it = m.find(i->second.get()); if (it != m.end()) CHECK(it->second == j->second.get(), "a shared object was duplicated on reading");
        auto iv = inv.find(j->second.get()); if (iv != inv.end()) CHECK(iv->second == i->second.get(), "different objects were merged on reading");
        m[i->second.get()] = j->second.get(); inv[j->second.get()] = i->second.get();
        auto* x = dynamic_cast<const Bag_*>(i->second.get()); auto* y = dynamic_cast<const Bag_*>(j->second.get()); CHECK(!x == !y, "bag kind"); if (x) sameSharing(*x, *y);
    }
}
static void sameObject(pbt::G& g, const Storable_& a, const Storable_& b, bool secs) {
    CHECK(str(a.Name()) == str(b.Name()) && str(a.Type()) == str(b.Type()), str(a.Name()) << " " << str(b.Name()));
    std::string x = dump(a, secs), y = dump(b, secs);
    CHECK(x == y, "\n wrote " << x << "\n read  " << y);
#define AS(T) if (auto* p = dynamic_cast<const T*>(&a)) { auto* q = dynamic_cast<const T*>(&b); CHECK(q, "dynamic type");
    AS(Interp1_) for (int k = 0; k < 5; ++k) { double t = g.uni(-20, 20); CHECK(pbt::bitsame((*p)(t), (*q)(t)), "interpolated value at " << t); } }
    AS(Interp2_) for (int k = 0; k < 5; ++k) { double t = g.uni(-20, 20), u = g.uni(-20, 20); CHECK(pbt::bitsame((*p)(t, u), (*q)(t, u)), "interpolated value"); } }
    AS(DiscountCurve_) for (int k = 0; k < 5; ++k) { Date_ f = Date::FromExcel(g.n(25569, 70000)), t = Date::FromExcel(g.n(25569, 70000)); CHECK(pbt::bitsame((*p)(f, t), (*q)(f, t)), "discount factor"); } }
    AS(PiecewiseConstant_) CHECK(p->knotDates_ == q->knotDates_ && p->fRight_ == q->fRight_ && p->sofar_.size() == q->sofar_.size(), "pwc"); }
    AS(BSModelData_) CHECK(p->spot_ == q->spot_ && p->vol_ == q->vol_ && p->rate_ == q->rate_ && p->div_ == q->div_, "bs data"); }
    AS(DupireModelData_) CHECK(p->spot_ == q->spot_ && p->rate_ == q->rate_ && p->repo_ == q->repo_ && p->spots_ == q->spots_ && p->times_ == q->times_ && p->vols_.Rows() == q->vols_.Rows(), "dupire data"); }
    AS(Box_) CHECK(p->contents_.Empty() == q->contents_.Empty(), "box"); }
    AS(Bag_) sameSharing(*p, *q); }
    AS(Report_) CHECK(p->Axes() == q->Axes(), "axes"); for (auto& ax : p->Axes()) CHECK(p->Size(ax) == q->Size(ax) && p->Header(ax).labels_ == q->Header(ax).labels_ && p->Header(ax).values_.Rows() == q->Header(ax).values_.Rows(), "axis " << str(ax)); }
    AS(PseudoRSG_) CHECK(p->NDim() == q->NDim(), "dim"); }
}
SUB("recorder-sees-values", 20000, 100000) {   // what objects write is what they were built from
    Gen G_(g, false); int n = g.n(1, 5); auto x = G_.grid(n), f = G_.nums(n); Interp1Linear_ i(String_("nm"), x, f);
    std::string e = "Interp1Linear_v1{f=["; for (double d : f) e += hexd(d) + ","; e += "];name='nm';x=["; for (double d : x) e += hexd(d) + ","; e += "];}";
    g.nontrivial(n > 1); SHOW(e);
    CHECK(dump(i, false) == e, dump(i, false));
    CHECK(i.x() == x && i.f() == f, "accessors");
    double s = G_.num(), v = G_.num(), r = G_.num(), d = G_.num(); BSModelData_ b(String_(), s, v, r, d);
    CHECK(dump(b, false) == "BSModelData_v1{div=N" + hexd(d) + ";rate=N" + hexd(r) + ";spot=N" + hexd(s) + ";vol=N" + hexd(v) + ";}", dump(b, false));
    auto kd = G_.dates(n); PiecewiseConstant_ p(kd, f); std::string pe = "PiecewiseConstant_v1{fRight=["; for (double z : f) pe += hexd(z) + ","; pe += "];knotDates=["; for (auto& z : kd) pe += dv(z) + ","; pe += "];}";
    CHECK(dump(p, false) == pe, dump(p, false));
    int nd = g.n(1, 4), sd = g.n(1, 1000); bool pr = g.b(); PseudoRSG_ rs(String_("MRG32"), sd, nd, pr);
    CHECK(dump(rs, false) == "PseudoRSG_v1{n_dim=N" + hexd(nd) + ";name='MRG32';precise=" + (pr ? "Btrue" : "Bfalse") + ";seed=N" + hexd(sd) + ";}", dump(rs, false));
    std::map<DateTime_, double> fx; for (int k = 0; k < n; ++k) fx[G_.dateTime()] = G_.num();
    Fixings_ fo(String_("ix"), fx); std::string fe = "Fixings{fixing_times=["; for (auto& z : fx) fe += dtv(z.first) + ","; fe += "];fixings=["; for (auto& z : fx) fe += hexd(z.second) + ","; fe += "];name='ix';}";
    CHECK(dump(fo, false) == fe, dump(fo, false));
    int rr = g.n(1, 3), cc = g.n(1, 3); Matrix_<> m(rr, cc); std::string me = "M" + std::to_string(rr) + "x" + std::to_string(cc) + "["; for (int a = 0; a < rr; ++a) for (int q = 0; q < cc; ++q) { m(a, q) = G_.num(); me += hexd(m(a, q)) + ","; } me += "]";
    auto gx = G_.grid(rr), gy = G_.grid(cc); std::string xs = "["; for (double z : gx) xs += hexd(z) + ","; xs += "]"; std::string ys = "["; for (double z : gy) ys += hexd(z) + ","; ys += "]";
    DupireModelData_ dd(String_(), s, r, d, gx, gy, m);
    CHECK(dump(dd, false) == "DupireModelData_v1{rate=N" + hexd(r) + ";repo=N" + hexd(d) + ";spot=N" + hexd(s) + ";spots=" + xs + ";times=" + ys + ";vols=" + me + ";}", dump(dd, false));
    Interp2Linear_ i2(String_(), gx, gy, m); CHECK(dump(i2, false) == "Interp2Linear_v1{f=" + me + ";x=" + xs + ";y=" + ys + ";}", dump(i2, false));
    PiecewiseLinear_ pl(kd, f, x); std::unique_ptr<DiscountCurve_> dc(NewDiscountPWLF(String_("c"), pl)); std::string de = "DiscountPWLF_v1{knotDates=["; for (auto& z : kd) de += dv(z) + ","; de += "];leftVals=["; for (double z : f) de += hexd(z) + ","; de += "];name='c';rightVals=["; for (double z : x) de += hexd(z) + ","; de += "];}";
    CHECK(dump(*dc, false) == de, dump(*dc, false));
}
SUB("json-round-trip", 40000, 400000) {
    Gen G_(g, false); auto h = G_.any(2); for (auto& k : G_.kinds) g.label(k); g.nontrivial(G_.pool.size() > 1 || !h->Name().empty());
    String_ s = JSON::WriteString(*h); SHOW(str(s));
    Handle_<Storable_> r;
    try { r = JSON::ReadString(s, g.b()); } catch (const std::exception& e) { g.fail(std::string("own output refused: ") + e.what() + "\n" + str(s)); }
    CHECK(r, "null object"); sameObject(g, *h, *r, true);
    CHECK(str(JSON::WriteString(*r)) == str(s), "second write differs");
}
SUB("json-file", 300, 3000) {
    Gen G_(g, false); auto h = G_.any(2); g.nontrivial();
    std::string fn = "/tmp/verif_p07_" + std::to_string(getpid()) + ".json";
    JSON::WriteFile(*h, String_(fn)); auto r = JSON::ReadFile(String_(fn), true); unlink(fn.c_str());
    CHECK(r, "null"); sameObject(g, *h, *r, true);
    MUST_THROW(JSON::ReadFile(String_("/tmp/verif_p07_does_not_exist.json"), true), "missing file");
}
SUB("splat-round-trip", 40000, 400000) {
    Gen G_(g, true); auto h = G_.any(2); for (auto& k : G_.kinds) g.label(k); g.nontrivial(G_.pool.size() > 1 || !h->Name().empty());
    Matrix_<Cell_> m = Splat(*h); SHOW(dump(*h, false)); SHOW("table " << m.Rows() << "x" << m.Cols());
    CHECK(m.Cols() <= 400 && m.Rows() <= 8000, "table " << m.Rows() << "x" << m.Cols());
    Handle_<Storable_> r;
    try { r = UnSplat(m, g.b()); } catch (const std::exception& e) { g.fail(std::string("own table refused: ") + e.what() + "\n" + dump(*h, false)); }
    CHECK(r, "null object"); sameObject(g, *h, *r, false);
}
static std::string mutate(pbt::G& g, std::string s) {
    int n = g.n(1, 3);
    for (int k = 0; k < n; ++k) {
        size_t p = s.empty() ? 0 : g.draw(s.size());
        switch (g.n(0, 6)) {
        case 0: s = s.substr(0, p); break;
        case 1: if (!s.empty()) s.erase(p, 1 + g.draw(4)); break;
        case 2: s.insert(p, 1, "{}[],:\"\\ -1.e"[g.draw(13)]); break;
        case 3: if (!s.empty()) { char c = "{}[],:\"\\ntf0-~$"[g.draw(16)]; if (c != '0' || !isdigit((unsigned char)s[p])) s[p] = c; } break;
        case 4: { auto q = s.find_first_of(":,[", p); if (q != std::string::npos) s.insert(q + 1, g.of<std::string>({"null", "true", "-1", "\"x\"", "[]", "{}", "[[1]]", "\"2020-13-45\"", "{\"$tag\": \"1\"}"}) + g.of<std::string>({"", ","})); } break;
        case 5: { auto q = s.find('"', p), e = q == std::string::npos ? q : s.find('"', q + 1); if (e != std::string::npos) s.replace(q, e - q + 1, g.of<std::string>({"\"~type\"", "\"$tag\"", "\"name\"", "\"cols\"", "\"Bag\"", "\"Box\"", "\"Cubic1\"", "1", "\"\""})); } break;
        default: { auto q = s.find(',', p); if (q != std::string::npos) { auto e = s.find_first_of(",]}", q + 1); if (e != std::string::npos) s.erase(q, e - q); } } }
    }
    return s;
}
// ---- a type of the user's own, with members of every kind the archives know, nested and shared
struct Field { std::string name; int kind; double d = 0; bool b = false; String_ s; Date_ dt; Vector_<> vd; Vector_<int> vi; Vector_<bool> vb; Vector_<String_> vs; Vector_<Date_> vdt; Vector_<DateTime_> vt; Vector_<Cell_> vc; Matrix_<> md; Matrix_<String_> ms; Matrix_<Cell_> mc; Dictionary_ dict; Handle_<Storable_> h; Field(const std::string& n, int k) : name(n), kind(k) {} };
static const int NKINDS = 17;
static std::map<std::string, std::vector<std::pair<std::string, int>>> SCHEMA;
struct Anything_ : Storable_ { std::string id; std::vector<Field> f; Anything_(const std::string& i) : Storable_("Anything", String_(i)), id(i) {}
    void Write(Archive::Store_& dst) const override { dst.SetType("VerifAnything"); using Archive::Utils::Set; Set(dst, "id", String_(id)); for (auto& x : f) { String_ n(x.name); switch (x.kind) { case 0: Set(dst, n, x.d); break; case 1: Set(dst, n, x.b); break; case 2: Set(dst, n, x.s); break; case 3: Set(dst, n, x.dt); break; case 4: Set(dst, n, x.vd); break; case 5: Set(dst, n, x.vi); break; case 6: Set(dst, n, x.vb); break; case 7: Set(dst, n, x.vs); break; case 8: Set(dst, n, x.vdt); break; case 9: Set(dst, n, x.vt); break; case 10: Set(dst, n, x.vc); break; case 11: Set(dst, n, x.md); break; case 12: Set(dst, n, x.ms); break; case 13: Set(dst, n, x.mc); break; case 14: Set(dst, n, x.dict); break; default: Set(dst, n, x.h); } } dst.Done(); } };
struct AnythingReader_ : Archive::Reader_ { AnythingReader_() { Archive::Register("VerifAnything", this); } Storable_* Build() const override { return nullptr; }
    Storable_* Build(const Archive::View_& src, Archive::Built_& share) const override { std::string id = str(src.Child("id").AsString()); auto* r = new Anything_(id); for (auto& k : SCHEMA[id]) { Field x(k.first, k.second); if (!src.HasChild(String_(k.first))) THROW("member missing"); const Archive::View_& v = src.Child(String_(k.first)); switch (k.second) { case 0: x.d = v.AsDouble(); break; case 1: x.b = v.AsBool(); break; case 2: x.s = v.AsString(); break; case 3: x.dt = v.AsDate(); break; case 4: x.vd = v.AsDoubleVector(); break; case 5: x.vi = v.AsIntVector(); break; case 6: x.vb = v.AsBoolVector(); break; case 7: x.vs = v.AsStringVector(); break; case 8: x.vdt = v.AsDateVector(); break; case 9: x.vt = v.AsDateTimeVector(); break; case 10: x.vc = v.AsCellVector(); break; case 11: x.md = v.AsDoubleMatrix(); break; case 12: x.ms = v.AsStringMatrix(); break; case 13: x.mc = v.AsCellMatrix(); break; case 14: x.dict = v.AsDictionary(); break; default: x.h = Archive::Builder_<Storable_>(share, "member", "any")(v); } r->f.push_back(x); } if (src.HasChild("absent")) THROW("phantom member"); return r; } };
static AnythingReader_ THE_READER;
static Handle_<Storable_> anything(pbt::G& g, Gen& G_, int depth, int& count, std::vector<Handle_<Storable_>>& made) {
    std::string id = "o" + std::to_string(count++); auto* a = new Anything_(id); Handle_<Storable_> h{std::shared_ptr<const Storable_>(a)}; auto& sch = SCHEMA[id]; sch.clear(); static const std::vector<std::string> NM = {"val", "Val2", "x.y", "a b", "cols", "rows", "m_1", "0", "z"}; std::vector<std::string> nm = NM; g.shuffle(nm); int n = g.n(1, 5);
    for (int i = 0; i < n; ++i) { Field x(nm[i], g.n(0, NKINDS - 1)); if (x.kind > 14 && depth == 0 && made.empty()) x.kind = 0; int L = G_.len(0, 5); int r = g.n(1, 3), c = g.n(1, 3); switch (x.kind) { case 0: x.d = G_.num(); break; case 1: x.b = g.b(); break; case 2: x.s = String_(G_.text()); break; case 3: x.dt = G_.date(); break; case 4: x.vd = G_.nums(L); break; case 5: for (int j = 0; j < L; ++j) x.vi.push_back(g.chance(20) ? g.of({2147483647, -2147483647, 0, -1}) : g.n(-1000, 1000)); break; case 6: for (int j = 0; j < L; ++j) x.vb.push_back(g.b()); break; case 7: for (int j = 0; j < L; ++j) x.vs.push_back(String_(G_.text())); break; case 8: for (int j = 0; j < L; ++j) x.vdt.push_back(G_.date()); break; case 9: for (int j = 0; j < L; ++j) x.vt.push_back(G_.dateTime()); break; case 10: for (int j = 0; j < L; ++j) x.vc.push_back(G_.cell()); break;
        case 11: x.md = Matrix_<>(r, c); for (int p = 0; p < r; ++p) for (int q = 0; q < c; ++q) x.md(p, q) = G_.num(); break; case 12: x.ms = Matrix_<String_>(r, c); for (int p = 0; p < r; ++p) for (int q = 0; q < c; ++q) x.ms(p, q) = String_(G_.text()); break; case 13: x.mc = G_.cells(r, c); break; case 14: for (int j = 0; j < std::max(1, L); ++j) { Cell_ v; switch (g.n(0, 4)) { case 0: v = Cell_(G_.num()); break; case 1: v = Cell_(g.b()); break; case 2: v = Cell_(G_.date()); break; case 3: v = Cell_(G_.dateTime()); break; default: v = Cell_(String_("w" + std::string((size_t)g.n(0, 4), 'k'))); } x.dict.Insert(String_(std::string(1, (char)('A' + j % 26)) + "key" + (j < 26 ? std::string() : std::to_string(j))), v); } break; default: x.h = !made.empty() && (depth == 0 || g.b()) ? g.pick(made) : g.chance(30) ? G_.any(1) : anything(g, G_, depth - 1, count, made); }
        sch.emplace_back(x.name, x.kind); a->f.push_back(x); }
    made.push_back(h); return h; }
static void sameFields(const Anything_& a, const Anything_& b, std::map<const Storable_*, const Storable_*>& m, std::map<const Storable_*, const Storable_*>& inv) { CHECK(a.id == b.id && a.f.size() == b.f.size(), "members of " << a.id); for (size_t i = 0; i < a.f.size(); ++i) if (a.f[i].kind > 14) { auto* x = a.f[i].h.get(); auto* y = b.f[i].h.get(); CHECK(x && y, "null member"); auto it = m.find(x); if (it != m.end()) { CHECK(it->second == y, "a shared object was duplicated on reading"); continue; } CHECK(!inv.count(y), "different objects were merged on reading"); m[x] = y; inv[y] = x; auto* p = dynamic_cast<const Anything_*>(x); auto* q = dynamic_cast<const Anything_*>(y); CHECK(!p == !q, "dynamic type"); if (p) sameFields(*p, *q, m, inv); } }
SUB("user-types", 25000, 250000) {
    bool splat = g.b(); Gen G_(g, splat); int count = 0; SCHEMA.clear(); std::vector<Handle_<Storable_>> made; auto h = anything(g, G_, 2, count, made); g.nontrivial(count > 1); g.label(splat ? "table" : "json"); std::string x = dump(*h, true); SHOW((splat ? "table " : "json ") << x); Handle_<Storable_> r; Matrix_<Cell_> t; String_ s;
    try { if (splat) { t = Splat(*h); r = UnSplat(t, g.b()); } else { s = JSON::WriteString(*h); r = JSON::ReadString(s, g.b()); } } catch (const std::exception& e) { g.fail(std::string("own output refused: ") + e.what() + "\n" + str(s)); }
    CHECK(r, "null object"); std::string y = dump(*r, true); CHECK(x == y, "\n wrote " << x << "\n read  " << y); std::map<const Storable_*, const Storable_*> m, inv; auto* q = dynamic_cast<const Anything_*>(r.get()); CHECK(q, "dynamic type"); sameFields(dynamic_cast<const Anything_&>(*h), *q, m, inv);
}
SUB("splat-cells", 15000, 200000) {   // a table edited by hand: another spelling of the same value gives the same object, and a value of the wrong kind is refused
    auto* a = new Anything_("e"); Handle_<Storable_> h{std::shared_ptr<const Storable_>(a)}; SCHEMA.clear(); static const int K[] = {4, 5, 6, 8, 9}; Field x("val", K[g.n(0, 4)]); int L = g.n(1, 6), at = (int)g.draw(L); auto day = [&] { return Date_(g.n(1990, 2060), g.n(1, 12), g.n(1, 28)); };
    for (int j = 0; j < L; ++j) switch (x.kind) { case 4: x.vd.push_back(g.n(-4000, 4000) * 0.25); break; case 5: x.vi.push_back(g.n(-1000, 1000)); break; case 6: x.vb.push_back(g.b()); break; case 8: x.vdt.push_back(day()); break; default: x.vt.push_back(DateTime_(day(), j == at ? 0.0 : g.n(0, 7) * 0.125)); }
    SCHEMA["e"].emplace_back(x.name, x.kind); a->f.push_back(x); std::string was = dump(*h, true); Matrix_<Cell_> t = Splat(*h); int row = -1; for (int i = 0; i < t.Rows(); ++i) if (t.Cols() > 2 && Cell::IsString(t(i, 1)) && Cell::ToString(t(i, 1)) == String_("val")) row = i; if (row < 0 || t.Cols() < 2 + L) g.discard();   // laid out in some other way
    Cell_& c = t(row, 2 + at); bool wrong = g.b(); std::string what; auto put = [&](const Cell_& v, const std::string& w) { c = v; what = w; }; char b[64];
    if (!wrong) switch (x.kind) { case 4: std::snprintf(b, sizeof b, "%.2f", x.vd[at]); put(Cell_(String_(b)), "its text"); break; case 5: std::snprintf(b, sizeof b, "%d", x.vi[at]); put(Cell_(String_(b)), "its text"); break; case 6: put(Cell_(String_(x.vb[at] ? "true" : "false")), "its text"); break; case 8: put(Cell_(String_(Date::ToString(x.vdt[at]))), "its text"); break; default: put(Cell_(x.vt[at].Date()), "its date"); }
    else { int w = g.n(0, 1); switch (x.kind) { case 4: if (w) put(Cell_(day()), "a date"); else put(Cell_(true), "a truth value"); break; case 5: if (w) put(Cell_(x.vi[at] + g.of({0.5, -0.25, 0.125})), "a fraction"); else put(Cell_(day()), "a date"); break; case 6: if (w) put(Cell_(day()), "a date"); else put(Cell_(1.0), "a number"); break; case 8: if (w) put(Cell_(true), "a truth value"); else put(Cell_(40000.0), "a number"); break; default: if (w) put(Cell_(true), "a truth value"); else put(Cell_(40000.0), "a number"); } }
    SHOW(was << " with entry " << at << " replaced by " << what); g.nontrivial(L > 1); g.label(wrong ? "wrong kind" : "another spelling"); Handle_<Storable_> r; std::string err; try { r = UnSplat(t, g.b()); } catch (const std::exception& e) { err = e.what(); }
    if (wrong) CHECK(!err.empty(), what << " is taken: " << dump(*r, true)); else { CHECK(err.empty(), "refused: " << err); CHECK(dump(*r, true) == was, "reads as " << dump(*r, true)); }
}
SUB("json-malformed", 60000, 1000000) {
    Gen G_(g, false); auto h = G_.any(1); std::string s = str(JSON::WriteString(*h)), t = mutate(g, s); SHOW(t);
    if (t.size() > 4000) g.discard();
    bool threw = false; Handle_<Storable_> r;
    try { r = JSON::ReadString(String_(t), g.b()); } catch (const std::exception&) { threw = true; }
    g.nontrivial(threw); g.label(threw ? "refused" : "accepted");
    if (!threw) { CHECK(r, "null object without an exception"); (void)JSON::WriteString(*r); }
}
SUB("json-wrong-values", 20000, 200000) {   // where a number belongs nothing else is taken, and a matrix has whole rows
    Gen G_(g, false); int r = g.n(1, 4), c = g.n(1, 4); Matrix_<> m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = G_.num(); std::unique_ptr<Storable_> o; int kind = g.n(0, 4);
    switch (kind) { case 0: o.reset(new BSModelData_(String_("n"), G_.num(), G_.num(), G_.num(), G_.num())); break; case 1: o.reset(new Interp1Linear_(String_("n"), G_.grid(r), G_.nums(r))); break; case 2: o.reset(new PiecewiseConstant_(G_.dates(r), G_.nums(r), String_("n"))); break; case 3: o.reset(new Interp2Linear_(String_("n"), G_.grid(r), G_.grid(c), m)); break; default: o.reset(new DupireModelData_(String_("n"), G_.num(), G_.num(), G_.num(), G_.grid(r), G_.grid(c), m)); }
    std::string s = str(JSON::WriteString(*o)), t; (void)JSON::ReadString(String_(s), true);
    if (kind > 2 && c > 1 && g.b()) { auto v = s.find("\"vals\""); CHECK(v != std::string::npos, s); auto e = s.find(']', v); auto q = s.rfind(',', e); CHECK(e != std::string::npos, s); t = g.b() && q > v ? s.substr(0, q) + s.substr(e) : s.substr(0, e) + ", 1.5" + s.substr(e); g.label("ragged matrix"); g.nontrivial(); SHOW(t); MUST_THROW(JSON::ReadString(String_(t), g.b()), "a matrix with a broken row is accepted"); return; }
    std::vector<std::pair<size_t, size_t>> num; bool in = false; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '\\') { ++i; continue; } if (s[i] == '"') { in = !in; continue; } if (!in && (isdigit((unsigned char)s[i]) || s[i] == '-')) { size_t j = i; while (j < s.size() && (isalnum((unsigned char)s[j]) || s[j] == '-' || s[j] == '+' || s[j] == '.')) ++j; if (i < 8 || s.substr(i - 8, 8) != "\"rows\": ") num.emplace_back(i, j - i); i = j - 1; } } CHECK(!num.empty(), s);
    auto& p = g.pick(num); t = s; t.replace(p.first, p.second, g.of<std::string>({"null", "true", "\"x\"", "\"\"", "[]", "{}", "[1]"})); g.nontrivial(num.size() > 1); SHOW(t); MUST_THROW(JSON::ReadString(String_(t), g.b()), "accepted " << t);
}
SUB("json-arbitrary", 60000, 1000000) {
    static const std::vector<std::string> tok = {"{", "}", "[", "]", ",", ":", "\"~type\"", "\"$tag\"", "\"name\"", "\"Box\"", "\"Bag\"", "\"Interp1Linear_v1\"", "\"contents\"", "\"contents0\"", "\"cols\"", "\"vals\"", "\"x\"", "\"f\"", "1", "2.5", "null", "true", "\"\"", "\\", "\"", " ", "-", "\"keys\"", "\"Report_v1\"", "\"sizes\""};
    std::string s = g.b() ? "{" : ""; int n = g.n(0, 20); for (int k = 0; k < n; ++k) s += g.pick(tok); if (g.b()) s += "}"; SHOW(s);
    bool threw = false; Handle_<Storable_> r; try { r = JSON::ReadString(String_(s), true); } catch (const std::exception&) { threw = true; }
    g.nontrivial(n > 2); if (!threw) { CHECK(r, "null object without an exception"); g.label("accepted"); }
    if (s.empty() || (s[0] != '{')) CHECK(threw, "accepted '" << s << "'");
}
SUB("splat-malformed", 40000, 400000) {
    Gen G_(g, true); auto h = G_.any(1); Matrix_<Cell_> m = Splat(*h); int n = g.n(1, 3);
    for (int k = 0; k < n; ++k) { int i = (int)g.draw(m.Rows()), j = (int)g.draw(m.Cols());
        switch (g.n(0, 3)) { case 0: m(i, j) = Cell_(); break; case 1: m(i, j) = Cell_(String_(g.of<std::string>({"~Bag", "~Box", "$1", "$1~Cubic1", "x", "name", "contents0", "~"}))); break; case 2: m(i, j) = Cell_(g.of({-1.0, 0.5, 2.0})); break; default: m(i, j) = Cell_(g.b()); } }
    bool threw = false; Handle_<Storable_> r; try { r = UnSplat(m, g.b()); } catch (const std::exception&) { threw = true; }
    g.nontrivial(threw); g.label(threw ? "refused" : "accepted");
    if (!threw) CHECK(r, "null object without an exception");
}

SUB("splat-file", 2000, 30000) {
    Gen G_(g, true, true); auto h = G_.any(2); for (auto& k : G_.kinds) g.label(k); g.nontrivial(G_.pool.size() > 1 || !h->Name().empty()); SHOW(dump(*h, true));
    String_ fn("/tmp/verif_p07_" + std::to_string(getpid()) + ".csv"); SplatFile(fn, *h); Handle_<Storable_> r; std::string err; try { r = UnSplatFile(fn, g.b()); } catch (const std::exception& e) { err = e.what(); } unlink(fn.c_str());
    CHECK(err.empty(), "own file refused: " << err); CHECK(r, "null object"); sameObject(g, *h, *r, true);
}
SUB("text-files", 1500, 20000) {   // lines come back as they were written, whatever their number and length
    Vector_<String_> w; int n = g.n(0, 12); bool big = false; for (int i = 0; i < n; ++i) { std::string s; switch (g.n(0, 4)) { case 0: break; case 1: s = std::string(g.n(2040, 2056), 'x'); big = true; break; case 2: s = std::string(g.n(1, 20000), 'y'); big = true; break; default: for (int k = g.n(0, 40); k > 0; --k) s += (char)g.n(32, 126); } w.push_back(String_(s)); } g.nontrivial(n > 1); if (big) g.label("long line"); SHOW(n << " lines");
    String_ fn("/tmp/verif_p07_" + std::to_string(getpid()) + ".txt"); File::Write(fn, w); if (g.chance(30)) { w.clear(); w.push_back(String_("second")); File::Write(fn, w); } Vector_<String_> r; File::Read(fn, &r); bool gone = true; try { File::Remove(fn); } catch (const std::exception&) { gone = false; } gone = gone && access(fn.c_str(), F_OK) != 0; unlink(fn.c_str()); CHECK(gone, "the file is not removed"); CHECK(r.size() == w.size(), "wrote " << w.size() << " lines, read " << r.size()); for (size_t i = 0; i < w.size(); ++i) CHECK(str(r[i]) == str(w[i]), "line " << i << " of " << w[i].size() << " characters reads back as one of " << r[i].size()); MUST_THROW(File::Remove(fn), "removing a missing file");
}
