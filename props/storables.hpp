// Random storable objects, and a recording Archive::Store_ that gives an exact canonical dump of any of them.
#pragma once
#include <engine.hpp>
#include <dal/platform/platform.hpp>
#include <dal/storage/archive.hpp>
#include <dal/storage/storable.hpp>
#include <dal/storage/box.hpp>
#include <dal/storage/bag.hpp>
#include <dal/math/interp/interp.hpp>
#include <dal/math/interp/interp2d.hpp>
#include <dal/math/interp/interpcubic.hpp>
#include <dal/curve/piecewiseconstant.hpp>
#include <dal/curve/piecewiselinear.hpp>
#include <dal/curve/discount.hpp>
#include <dal/curve/ycimp.hpp>
#include <dal/indice/fixings.hpp>
#include <dal/risk/report.hpp>
#include <dal/script/event.hpp>
#include <dal/model/blackscholes.hpp>
#include <dal/model/dupire.hpp>
#include <dal/math/random/pseudorandom.hpp>
#include <dal/time/dateutils.hpp>
#include <dal/time/datetimeutils.hpp>
#include <dal/utilities/dictionary.hpp>
namespace st {
using namespace Dal;
inline std::string hexd(double d) { char b[64]; snprintf(b, 64, "%a", d); return b; }
inline std::string sv(const String_& s) { return "'" + std::string(s.begin(), s.end()) + "'"; }
inline std::string dv(const Date_& d) { return std::string("D") + std::to_string(Date::ToExcel(d)); }
inline std::string dtv(const DateTime_& d) { return "T" + std::to_string(Date::ToExcel(d.Date())) + "/" + hexd(d.Frac()); }
inline std::string dtvSec(const DateTime_& d) { return "T" + std::to_string(Date::ToExcel(d.Date())) + "/" + std::to_string(std::llround(d.Frac() * 86400)); }
inline std::string cv(const Cell_& c, bool secs) {
    if (Cell::IsBool(c)) return Cell::ToBool(c) ? "Btrue" : "Bfalse";
    if (Cell::IsDouble(c)) return "N" + hexd(Cell::ToDouble(c));
    if (Cell::IsDate(c)) return dv(Cell::ToDate(c));
    if (Cell::IsDateTime(c)) return secs ? dtvSec(Cell::ToDateTime(c)) : dtv(Cell::ToDateTime(c));
    if (Cell::IsString(c)) return sv(Cell::ToString(c));
    return "_";
}
struct Recorder : Archive::Store_ {
    std::map<const Storable_*, int>& ids; bool secs;
    std::string type, val; int ref = 0; bool isRef = false;
    std::vector<std::pair<std::string, std::shared_ptr<Recorder>>> kids;
    Recorder(std::map<const Storable_*, int>& i, bool s) : ids(i), secs(s) {}
    bool StoreRef(const Storable_* o) override { auto it = ids.find(o); if (it != ids.end()) { isRef = true; ref = it->second; return true; } ref = (int)ids.size() + 1; ids[o] = ref; return false; }
    void SetType(const String_& t) override { type.assign(t.begin(), t.end()); }
    Store_& Child(const String_& n) override {
        std::string nm(n.begin(), n.end());
        for (auto& k : kids) if (k.first == nm) return *k.second;
        kids.emplace_back(nm, std::make_shared<Recorder>(ids, secs)); return *kids.back().second;
    }
    template <class V, class F> void vecOf(const V& v, F f) { val = "["; for (auto&& x : v) val += f(x) + ","; val += "]"; }
    template <class M, class F> void matOf(const M& m, F f) {   // an n x 0 matrix holds nothing: same as an empty one
        int r = m.Cols() ? m.Rows() : 0; val = "M" + std::to_string(r) + "x" + std::to_string(r ? m.Cols() : 0) + "[";
        for (int i = 0; i < r; ++i) for (int j = 0; j < m.Cols(); ++j) val += f(m(i, j)) + ","; val += "]"; }
    Recorder& operator=(double d) override { val = "N" + hexd(d); return *this; }
    Recorder& operator=(bool b) override { val = b ? "Btrue" : "Bfalse"; return *this; }
    Recorder& operator=(const String_& s) override { val = sv(s); return *this; }
    Recorder& operator=(const Date_& d) override { val = dv(d); return *this; }
    Recorder& operator=(const DateTime_& d) override { val = secs ? dtvSec(d) : dtv(d); return *this; }
    Recorder& operator=(const Vector_<>& v) override { vecOf(v, hexd); return *this; }
    Recorder& operator=(const Vector_<int>& v) override { vecOf(v, [](int i) { return std::to_string(i); }); return *this; }
    Recorder& operator=(const Vector_<bool>& v) override { vecOf(v, [](bool b) { return std::string(b ? "t" : "f"); }); return *this; }
    Recorder& operator=(const Vector_<String_>& v) override { vecOf(v, sv); return *this; }
    Recorder& operator=(const Vector_<Date_>& v) override { vecOf(v, dv); return *this; }
    Recorder& operator=(const Vector_<DateTime_>& v) override { bool s = secs; vecOf(v, [s](const DateTime_& d) { return s ? dtvSec(d) : dtv(d); }); return *this; }
    Recorder& operator=(const Vector_<Cell_>& v) override { bool s = secs; vecOf(v, [s](const Cell_& c) { return cv(c, s); }); return *this; }
    Recorder& operator=(const Matrix_<>& m) override { matOf(m, hexd); return *this; }
    Recorder& operator=(const Matrix_<String_>& m) override { matOf(m, sv); return *this; }
    Recorder& operator=(const Matrix_<Cell_>& m) override { bool s = secs; matOf(m, [s](const Cell_& c) { return cv(c, s); }); return *this; }
    Recorder& operator=(const Dictionary_& d) override { auto s = Dictionary::ToString(d); val = "{" + std::string(s.begin(), s.end()) + "}"; return *this; }
    std::string dump() const {
        if (isRef) return "@" + std::to_string(ref);
        if (type.empty() && kids.empty()) return val;
        std::string r = (ref ? "#" + std::to_string(ref) : "") + type + "{";
        auto k = kids; std::sort(k.begin(), k.end(), [](auto& a, auto& b) { return a.first < b.first; });   // storage order of members is not observable
        for (auto& c : k) r += c.first + "=" + c.second->dump() + ";";
        return r + "}";
    }
};
inline std::string dump(const Storable_& s, bool secs) { std::map<const Storable_*, int> ids; Recorder r(ids, secs); s.Write(r); return r.dump(); }

struct Gen {
    pbt::G& g; bool splat;      // splat: no empty vectors / strings / cells (its tabular form cannot show them)
    std::vector<Handle_<Storable_>> pool; std::vector<Handle_<DiscountCurve_>> curves; std::set<std::string> kinds;
    bool file;      // file: plain words only, no dates in cells (the comma-separated form does not mark them)
    Gen(pbt::G& gg, bool s, bool f = false) : g(gg), splat(s), file(f) {}
    double num() { double d = number(); return file && d == 0 ? 0.0 : d; }
    double number() {
        switch (g.n(0, 5)) {
        case 0: return g.n(-5, 5);
        case 1: return g.uni(-100, 100);
        case 2: return std::round(g.uni(-1e6, 1e6)) / 1024;
        case 3: return (g.b() ? 1 : -1) * g.logUni(1e-12, 1e-3);
        case 4: return (g.b() ? 1 : -1) * g.logUni(1e-250, 1e250);
        default: return g.of({0.1, -0.0, 1e22, 123456789.123456789, 4.9406564584124654e-324, 1.7976931348623157e308, 2147483648.0, 0.30000000000000004}); } }
    std::string text(bool mayBeEmpty = true) {
        static const std::string al = "aZ09 _.,;:=~$-+*/()<>\"\\\n\t{}[]'#\x01";
        if (file) { static const std::string plain = "aZ09 _.;:/()<>{}[]#bcd"; std::string r = "w"; int n = g.n(0, 6); for (int k = 0; k < n; ++k) r += plain[g.draw(plain.size())]; return r; }
        std::string r; int n = g.n(mayBeEmpty && !splat ? 0 : 1, 6);
        for (int k = 0; k < n; ++k) r += g.chance(10) ? g.of<std::string>({"\xc3\xa9", "\xe4\xb8\xad", "\\u0041", "\"", "\\"}) : std::string(1, al[g.draw(al.size())]);
        if (splat && !r.empty()) r = "s" + r;
        return r; }
    String_ name() { return g.chance(25) ? String_() : String_(text()); }
    int len(int lo, int hi) { if (hi >= 5 && pool.size() < 3 && g.draw(100) == 99) return g.n(60, 140); return g.n(splat ? std::max(1, lo) : lo, hi); }
    Date_ date() { return Date::FromExcel(g.n(25569, 91000)); }
    DateTime_ dateTime() { int s = g.n(0, 86399); return DateTime_(date(), s / 3600, (s / 60) % 60, s % 60); }
    Vector_<> nums(int n) { Vector_<> v; for (int i = 0; i < n; ++i) v.push_back(num()); return v; }
    Vector_<> grid(int n) { Vector_<> v; double x = g.uni(-10, 10); for (int i = 0; i < n; ++i) { v.push_back(x); x += g.of({1.0, 0.25, 0.1, 3.7}) + (g.b() ? g.u01() : 0.0); } return v; }
    Vector_<Date_> dates(int n) { Vector_<Date_> v; int x = g.n(25569, 60000); for (int i = 0; i < n; ++i) { v.push_back(Date::FromExcel(x)); x += g.n(1, 900); } return v; }
    Cell_ cell() {
        if (file) switch (g.n(0, 2)) { case 0: return Cell_(num()); case 1: return Cell_(g.b()); default: return Cell_(String_(text())); }
        switch (g.n(0, splat ? 4 : 5)) { case 0: return Cell_(num()); case 1: return Cell_(g.b()); case 2: return Cell_(date()); case 3: return Cell_(dateTime());
            case 4: { std::string t = text(false); return Cell_(String_("x" + t)); } default: return Cell_(); } }
    Matrix_<Cell_> cells(int r, int c) { Matrix_<Cell_> m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = cell(); return m; }
    Matrix_<Cell_> gappy(int r, int c) { Matrix_<Cell_> m = cells(r, c); if (splat && !file && r && g.chance(50)) for (int j = 0; j < c; ++j) { int stays = g.n(0, r - 1); for (int i = 0; i < r; ++i) if (i != stays && g.b()) m(i, j) = Cell_(); } return m; }   // a table shows an empty cell where its column holds something else
    Handle_<Storable_> keep(Storable_* p) { Handle_<Storable_> h{std::shared_ptr<const Storable_>(p)}; pool.push_back(h); return h; }
    Handle_<DiscountCurve_> curve(int depth) {
        Handle_<DiscountCurve_> base;
        if (depth > 0 && g.chance(50)) base = !curves.empty() && g.b() ? g.pick(curves) : curve(depth - 1);
        int n = g.n(1, 5); PiecewiseLinear_ f(dates(n), nums(n), nums(n));
        Handle_<DiscountCurve_> h{std::shared_ptr<const DiscountCurve_>(NewDiscountPWLF(name(), f, base))};
        curves.push_back(h); pool.push_back(handle_cast<Storable_>(h)); return h; }
    Handle_<Storable_> any(int depth) {
        static const char* nm[] = {"interp1", "cubic", "interp2", "pwc", "discount", "fixings", "box", "report", "product", "bs", "dupire", "rng", "bag"};
        int k = g.n(0, depth > 0 ? 14 : 11); if (k > 12) k = 12; if (file && k == 8) k = 9;
        kinds.insert(nm[k]);
        switch (k) {
        case 0: { int n = len(1, 6); return keep(new Interp1Linear_(name(), grid(n), nums(n))); }
        case 1: { int n = g.n(3, 7); Vector_<> f; for (int i = 0; i < n; ++i) f.push_back(g.uni(-5, 5));
            return keep(Interp::NewCubic(name(), grid(n), f, Interp::Boundary_(g.n(1, 3), g.uni(-1, 1)), Interp::Boundary_(g.n(1, 3), g.uni(-1, 1)))); }
        case 2: { int r = g.n(1, 4), c = g.n(1, 4); Matrix_<> m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = num();
            return keep(new Interp2Linear_(name(), grid(r), grid(c), m)); }
        case 3: { int n = len(1, 5); return keep(new PiecewiseConstant_(dates(n), nums(n), name())); }
        case 4: return handle_cast<Storable_>(curve(3));
        case 5: { std::map<DateTime_, double> m; int n = len(0, 6); for (int i = 0; i < n; ++i) m[dateTime()] = num(); return keep(new Fixings_(name(), m)); }
        case 6: { int r = len(0, 5), c = r ? g.n(1, 4) : 0; return keep(new Box_(name(), gappy(r, c))); }
        case 7: { int n = g.n(1, 3); Vector_<Report::Axis_> ax(n); Vector_<int> sz;
            for (int i = 0; i < n; ++i) { ax[i].name_ = String_(std::string(1, "ba9c"[i]) + "x"); ax[i].size_ = g.n(i == 0 && !splat ? 0 : 1, 3); sz.push_back(ax[i].size_); int L = len(0, 2); for (int j = 0; j < L; ++j) ax[i].labels_.push_back(String_("l" + text(false))); }
            auto* r = new Report_(name(), ax); int tot = 1; for (int i : sz) tot *= i; r->SetAll(nums(tot));
            for (int i = 0; i < n; ++i) for (int j = 0; j < sz[i]; ++j) if (splat || g.b()) { Vector_<Cell_> row; for (size_t q = 0; q < ax[i].labels_.size(); ++q) row.push_back(cell()); r->AddHeaderRow(ax[i].name_, j, row); }
            return keep(r); }
        case 8: { int n = len(0, 4); Vector_<Cell_> d; Vector_<String_> e; for (int i = 0; i < n; ++i) { d.push_back(g.chance(20) ? Cell_(String_("K" + text(false))) : Cell_(date())); e.push_back(String_("x" + text())); } return keep(new Script::ScriptProductData_(name(), d, e)); }
        case 9: return keep(new BSModelData_(name(), num(), num(), num(), num()));
        case 10: { int r = len(1, 5), c = g.n(1, 4); Matrix_<> m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = num(); return keep(new DupireModelData_(name(), num(), num(), num(), grid(r), grid(c), m)); }
        case 11: return keep(new PseudoRSG_(String_(g.of<std::string>({"IRN", "MRG32"})), g.n(1, 100000), g.n(1, 5), g.b()));
        default: { std::multimap<String_, Handle_<Storable_>> m; int n = len(0, 5);
            for (int i = 0; i < n; ++i) { auto h = !pool.empty() && g.chance(35) ? g.pick(pool) : any(depth - 1); m.insert({String_("k" + text()), h}); }
            return keep(new Bag_(name(), m)); }
        } }
};
}
