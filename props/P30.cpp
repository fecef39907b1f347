#include <engine.hpp>
#include <dal/math/operators.hpp>
#include <dal/math/vectors.hpp>
#include <dal/risk/report.hpp>
#include <map>
#include <set>
using namespace Dal;
PROPERTY_DEF("P30", "Random histories on reports of one to four axes (writing and reading by address, extending the first axis, replacing all values, header rows in any order, indices and sizes out of range) against a map from index tuples to values and a table of header rows. Non-trivial: at least two axes and ten operations.")
namespace pbt { std::vector<std::string> ASSUMPTIONS = {"the product of the axis sizes fits an int"}; void globalInit() {} }
static std::string S(const String_& s) { return std::string(s.begin(), s.end()); }
typedef std::vector<int> Ix;
static std::vector<Ix> tuples(const Ix& sz) { std::vector<Ix> r; Ix c(sz.size(), 0); for (int s : sz) if (s == 0) return r; for (;;) { r.push_back(c); int k = (int)sz.size() - 1; while (k >= 0 && ++c[k] == sz[k]) c[k--] = 0; if (k < 0) return r; } }
static std::string str(const Cell_& c) { return Cell::IsEmpty(c) ? "-" : Cell::IsString(c) ? "s" + S(Cell::ToString(c)) : Cell::IsDouble(c) ? "d" + std::to_string(Cell::ToDouble(c)) : "?"; }
SUB("report-histories", 20000, 400000) {
    static const char* nm[] = {"trade", "View", "bucket", "a"}; int n = g.n(1, 4); Ix perm = {0, 1, 2, 3}; g.shuffle(perm); Vector_<Report::Axis_> ax(n); Ix sz; std::vector<std::vector<std::vector<std::string>>> head(n); std::vector<int> labels; for (int i = 0; i < n; ++i) { ax[i].name_ = String_(nm[perm[i]]); ax[i].size_ = i == 0 && g.chance(15) ? 0 : g.n(1, 5); sz.push_back(ax[i].size_); for (int k = g.n(0, 3); k > 0; --k) ax[i].labels_.push_back(String_("l" + std::to_string(k))); labels.push_back((int)ax[i].labels_.size()); head[i].assign(ax[i].size_, std::vector<std::string>(labels[i], "-")); SHOW(S(ax[i].name_) << ":" << ax[i].size_); }
    Report_ r(String_("r"), ax); const Report_& cr = r; std::map<Ix, double> m; for (auto& t : tuples(sz)) m[t] = 0; auto at = [&](const Ix& t) { auto a = r.MakeAddress(); for (int i = 0; i < n; ++i) a[ax[i].name_] = t[i]; return a; }; int ops = g.n(1, 30); g.nontrivial(n > 1 && ops >= 10); std::vector<bool> touched(n, false);
    for (int q = 0; q < ops; ++q) { Ix t; for (int i = 0; i < n; ++i) t.push_back(sz[i] ? g.n(0, sz[i] - 1) : 0); switch (g.n(0, 7)) {
        case 0: case 1: case 2: { if (sz[0] == 0 || g.chance(15)) t[0] = sz[0] + g.n(0, 2); double v = g.n(1, 1000); SHOW("set " << pbt::vec(t) << "=" << v); r[at(t)] = v; if (t[0] >= sz[0]) { sz[0] = t[0] + 1; for (auto& u : tuples(sz)) m.insert({u, 0.0}); } m[t] = v; break; }
        case 3: { if (sz[0] == 0) break; SHOW("get"); CHECK(cr[at(t)] == m[t], "entry " << pbt::vec(t) << " is " << cr[at(t)] << ", expected " << m[t]); t[0] = sz[0] + g.n(0, 2); MUST_THROW(cr[at(t)], "reading beyond the first axis"); break; }
        case 4: { size_t k = g.draw(n); bool neg = g.b(); if (neg) t[k] = -g.n(1, 3); else { if (k == 0) break; t[k] = sz[k] + g.n(0, 3); } SHOW("bad index " << pbt::vec(t)); MUST_THROW(cr[at(t)], "index " << pbt::vec(t)); MUST_THROW(r[at(t)], "index " << pbt::vec(t)); MUST_THROW(at(t)["nosuch"], "unknown axis"); break; }
        case 5: { int extra = g.chance(30) ? g.n(0, 2) : 0; Ix s2 = sz; s2[0] += extra; auto all = tuples(s2); if (all.empty()) break; Vector_<> v; std::map<Ix, double> m2; for (auto& u : all) { double x = g.n(1, 1000); v.push_back(x); m2[u] = x; } if (g.chance(20)) { v.push_back(1); if (n > 1 && (int)v.size() % ((int)all.size() / s2[0]) != 0) { SHOW("uneven"); MUST_THROW(r.SetAll(v), "values that do not fill the report"); break; } v.pop_back(); } if (g.chance(10) && (int)all.size() == (int)m.size() && sz[0] > 1) { Vector_<> w; for (size_t k = 0; k < all.size() / sz[0]; ++k) w.push_back(1); SHOW("too few"); MUST_THROW(r.SetAll(w), "values that lose entries"); break; } SHOW("set all " << v.size()); r.SetAll(v); sz = s2; m = m2; break; }
        default: { size_t k = g.draw(n); int row = g.n(0, std::max(sz[k], 1) - 1 + (k == 0 ? 2 : 0)); Vector_<Cell_> c; std::vector<std::string> w; for (int i = 0; i < labels[k]; ++i) { Cell_ x = g.b() ? Cell_((double)g.n(0, 99)) : Cell_(String_("x" + std::to_string(g.n(0, 9)))); c.push_back(x); w.push_back(str(x)); } SHOW("header " << S(ax[k].name_) << " row " << row); if (g.chance(10)) { c.push_back(Cell_(1.0)); MUST_THROW(r.AddHeaderRow(ax[k].name_, row, c), "too many header values"); MUST_THROW(r.AddHeaderRow(ax[k].name_, -1, c), "a negative header row"); break; } r.AddHeaderRow(ax[k].name_, row, c); if ((int)head[k].size() <= row) head[k].resize(row + 1, std::vector<std::string>(labels[k], "-")); head[k][row] = w; break; } }
        for (int i = 0; i < n; ++i) CHECK(r.Size(ax[i].name_) == sz[i], "axis " << S(ax[i].name_) << " has size " << r.Size(ax[i].name_) << ", expected " << sz[i]); }
    for (auto& u : m) CHECK(cr[at(u.first)] == u.second, "entry " << pbt::vec(u.first) << " is " << cr[at(u.first)] << ", expected " << u.second); std::set<std::string> names, got; for (auto& a : ax) names.insert(S(a.name_)); for (auto& a : r.Axes()) got.insert(S(a)); CHECK(names == got, "axes"); for (int i = 0; i < n; ++i) { const auto& h = r.Header(ax[i].name_); CHECK(h.labels_ == ax[i].labels_, "labels of " << S(ax[i].name_)); if (labels[i] == 0) continue; CHECK(h.values_.Rows() == (int)head[i].size(), "header of " << S(ax[i].name_) << " has " << h.values_.Rows() << " rows, expected " << head[i].size()); for (int a = 0; a < h.values_.Rows(); ++a) for (int b = 0; b < labels[i]; ++b) CHECK(str(h.values_(a, b)) == head[i][a][b], "header of " << S(ax[i].name_) << " at " << a << "," << b << " is " << str(h.values_(a, b)) << ", expected " << head[i][a][b]); } MUST_THROW(r.Size("nosuch"), "unknown axis"); MUST_THROW(r.Header("nosuch"), "unknown axis");
}
SUB("refused", 3000, 50000) { int n = g.n(0, 4), bad = g.n(0, 2); Vector_<Report::Axis_> ax(n); for (int i = 0; i < n; ++i) { ax[i].name_ = String_("x" + std::to_string(i)); ax[i].size_ = g.n(1, 3); } if (n == 0) { MUST_THROW(Report_(String_("r"), ax), "no axes"); return; } int k = g.n(0, n - 1); g.nontrivial(n > 1); if (bad == 0) { ax[k].size_ = -g.n(1, 3); SHOW("negative size of axis " << k << " of " << n); } else if (bad == 1) { if (k == 0) { ax[0].size_ = 0; Report_ ok(String_("r"), ax); CHECK(ok.Size("x0") == 0, "empty first axis"); return; } ax[k].size_ = 0; SHOW("zero size of axis " << k); } else { if (k == 0) return; ax[k].name_ = g.b() ? ax[k - 1].name_ : String_("X" + std::to_string(k - 1)); SHOW("two axes " << S(ax[k].name_)); } MUST_THROW(Report_(String_("r"), ax), "malformed axes"); }
