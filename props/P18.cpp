#include <engine.hpp>
#include <dal/platform/platform.hpp>
#include <dal/math/operators.hpp>
#include <dal/math/specialfunctions.hpp>
#include <dal/math/vectors.hpp>
#include <dal/math/aad/aad.hpp>
#include <memory>
#include <thread>
using namespace Dal;
using Dal::AAD::Number_;
using Dal::AAD::Tape_;
using Dal::AAD::BlockList_;
PROPERTY_DEF("P18", "Random histories of appends, marks, rewinds, clears, finds and traversals on block lists with blocks of 1 to 9 elements are replayed on a plain vector; random histories of recording, marking, rewinding, propagating and resetting on tapes whose node counts are driven to just below, at and just above whole blocks (16384 nodes), in single and several-adjoint mode, "
  "and concurrently on several threads with a tape each. Non-trivial: a history that crosses a block boundary, or at least two threads.")
namespace pbt { std::vector<std::string> ASSUMPTIONS = {"RewindToMark only after a Mark that has not been cleared or rewound past", "results are recorded after the mark they are propagated to"}; void globalInit() {} }

template <int B> static void model(pbt::G& g) {
    BlockList_<int, B> l; std::vector<std::pair<int*, int>> m; int markAt = -1, next = 1, steps = g.n(1, 40); bool crossed = false; std::vector<int*> everAt;
    auto check = [&](const char* when) {
        CHECK(l.Size() == (int)m.size(), when << ": size " << l.Size() << ", expected " << m.size()); const auto& cl = l; size_t k = 0; for (auto it = l.Begin(); it != l.End(); ++it, ++k) { CHECK(k < m.size(), when << ": more elements than were added"); CHECK(&*it == m[k].first && *it == m[k].second, when << ": element " << k << " is " << *it << ", expected " << m[k].second); } CHECK(k == m.size(), when << ": forward traversal saw " << k << " of " << m.size());
        k = 0; for (auto it = cl.Begin(); it != cl.End(); ++it, ++k) CHECK(k < m.size() && *it == m[k].second, when << ": constant traversal, element " << k); CHECK(k == m.size(), when << ": constant traversal"); k = 0; for (int x : l) { CHECK(k < m.size() && x == m[k].second, when << ": range loop"); ++k; } k = m.size(); auto it = l.End(); while (it != l.Begin()) { --it; --k; CHECK(k < m.size() && *it == m[k].second, when << ": backward traversal, element " << k); } CHECK(k == 0, when << ": backward traversal stopped early"); };
    for (int s = 0; s < steps; ++s) { int w = g.n(0, 12); switch (w) {
        case 0: case 1: case 2: case 3: case 4: { int n = g.n(1, 2 * B + 1); SHOW("add " << n); for (int i = 0; i < n; ++i) { int* p = l.EmplaceBack(next); CHECK(*p == next, "value stored"); for (auto& e : m) CHECK(e.first != p, "two live elements share a place"); m.emplace_back(p, next++); } if ((int)m.size() > B) crossed = true; break; }
        case 5: { SHOW("add to the end of the block"); while (m.size() % B != 0 || m.empty()) { int* p = l.EmplaceBack(next); m.emplace_back(p, next++); } crossed = true; break; }
        case 6: SHOW("mark"); l.SetMark(); markAt = (int)m.size(); break;
        case 7: if (markAt < 0) break; SHOW("rewind to mark"); l.RewindToMark(); m.resize(markAt); break;
        case 8: SHOW("rewind"); l.Rewind(); m.clear(); markAt = -1; break;
        case 9: if (g.b()) break; SHOW("clear"); l.Clear(); m.clear(); markAt = -1; break;
        case 10: { if (m.empty()) break; size_t k = g.draw(m.size()); SHOW("find " << k); auto it = l.Find(m[k].first); CHECK(&*it == m[k].first, "find returned another element"); size_t d = 0; while (it != l.End()) { ++it; ++d; } CHECK(d == m.size() - k, "find " << k << " is " << d << " from the end"); int elsewhere = 0; CHECK(l.Find(&elsewhere) == l.End(), "found an element that is not there"); break; }
        case 11: { if (m.empty()) break; size_t k = g.draw(m.size() + 1); SHOW("rewind to position " << k); auto it = l.Begin(); for (size_t i = 0; i < k; ++i) ++it; l.RewindTo(it); m.resize(k); if (markAt > (int)k) markAt = -1; break; }
        case 12: { SHOW("position"); auto a = l.GetPosition(); auto z = l.GetZeroPosition(); CHECK(a == l.End(), "position is the end"); CHECK(z == l.Begin(), "zero position is the beginning"); if (markAt >= 0 && markAt < (int)m.size()) CHECK(*l.Mark() == m[markAt].second, "mark"); break; } }
        check("after step"); }
    g.nontrivial(crossed && steps >= 4);
}
SUB("block-list", 25000, 800000) { int b = g.n(0, 4); SHOW("block size " << (b == 0 ? 4 : b == 1 ? 1 : b == 2 ? 2 : b == 3 ? 5 : 9)); if (b == 0) model<4>(g); else if (b == 1) model<1>(g); else if (b == 2) model<2>(g); else if (b == 3) model<5>(g); else model<9>(g); }
SUB("block-list-runs", 25000, 800000) {   // contiguous runs: never overlapping, never reused while live, contents kept
    BlockList_<double, 8> l; std::vector<std::pair<double*, std::vector<double>>> m; int mark = -1; double next = 1; int steps = g.n(1, 30); g.nontrivial(steps >= 6);
    for (int s = 0; s < steps; ++s) { int w = g.n(0, 9); if (w <= 5) { int n = g.n(1, 8); SHOW("run " << n); double* p; if (n == 3 && g.b()) p = l.template EmplaceBackMulti<3>(); else if (n == 8 && g.b()) p = l.template EmplaceBackMulti<8>(); else if (n == 1 && g.b()) p = l.EmplaceBack(); else p = l.EmplaceBackMulti((size_t)n); std::vector<double> v(n); for (int i = 0; i < n; ++i) p[i] = v[i] = next++; m.emplace_back(p, v); }
        else if (w == 6) { SHOW("mark"); l.SetMark(); mark = (int)m.size(); } else if (w == 7 && mark >= 0) { SHOW("to mark"); l.RewindToMark(); m.resize(mark); } else if (w == 8) { SHOW("rewind"); l.Rewind(); m.clear(); mark = -1; } else if (w == 9 && g.chance(30)) { SHOW("zero"); l.Memset(0); for (auto& r : m) for (double& x : r.second) x = 0; }
        for (size_t k = 0; k < m.size(); ++k) for (size_t i = 0; i < m[k].second.size(); ++i) CHECK(m[k].first[i] == m[k].second[i], "run " << k << " of " << m.size() << " was overwritten"); }
}
static const int BLK = (int)AAD::BLOCK_SIZE;
static int nodes(Tape_& t) { int n = 0; for (auto it = t.Begin(); it != t.End(); ++it) ++n; return n; }
SUB("whole-blocks", 60, 1500) {   // node counts at and around whole blocks
    std::unique_ptr<Tape_> t(new Tape_); Number_::SetTape(*t); int blocks = g.n(1, 2), target = blocks * BLK + g.n(-2, 2), rounds = g.n(1, 4), mode = g.n(0, 2); SHOW("nodes " << target << " rounds " << rounds << " mode " << mode); g.nontrivial(); double x0 = g.uni(0.5, 2), y0 = g.uni(0.5, 2);
    for (int r = 0; r < rounds; ++r) { bool clear = g.b(); if (r) { if (clear) t->Clear(); else t->Rewind(); } Number_ x(x0), y(y0); Number_ s = x * y; int n = 3, c = 0; while (n < target) { s += x; ++n; ++c; } CHECK(nodes(*t) == n, "tape has " << nodes(*t) << " nodes, recorded " << n);
        if (mode == 1) { t->ResetAdjoints(); for (auto it = t->Begin(); it != t->End(); ++it) CHECK(it->Adjoint() == 0.0, "adjoint after reset"); } s.PropagateToStart(); CHECK(std::fabs(x.Adjoint() - (y0 + c)) < 1e-8 * (1 + c) && std::fabs(y.Adjoint() - x0) < 1e-12, "gradient " << x.Adjoint() << ", " << y.Adjoint() << " expected " << y0 + c << ", " << x0);
        if (mode == 2) { t->ResetAdjoints(); CHECK(x.Adjoint() == 0.0 && y.Adjoint() == 0.0 && s.Adjoint() == 0.0, "adjoints after reset"); s.PropagateToStart(); CHECK(std::fabs(x.Adjoint() - (y0 + c)) < 1e-8 * (1 + c), "gradient after a reset " << x.Adjoint()); } }
    Number_::SetTape(*t); t->Clear();
}
SUB("mark-at-block-end", 60, 1500) {
    std::unique_ptr<Tape_> t(new Tape_); Number_::SetTape(*t); int pre = BLK * g.n(1, 2) + g.n(-2, 2), paths = g.n(1, 5); double x0 = g.uni(0.5, 2), y0 = g.uni(0.5, 2); SHOW("nodes before the mark " << pre << " paths " << paths); g.nontrivial(); Number_ x(x0), y(y0); Number_ s = x * y; int n = 3, c = 0; while (n < pre) { s += x; ++n; ++c; } t->Mark(); double k = 0; for (int p = 0; p < paths; ++p) { t->RewindToMark(); CHECK(nodes(*t) == pre, "nodes after a rewind to the mark: " << nodes(*t)); Number_ v = s * 1.5; int extra = g.chance(40) ? BLK + g.n(-3, 3) : g.n(0, 5); for (int e = 0; e < extra; ++e) v += y; v.PropagateToMark(); k += 1.5; CHECK(std::fabs(s.Adjoint() - k) < 1e-9 * k, "adjoint at the mark " << s.Adjoint() << " after " << p + 1 << " paths"); }
    Number_::PropagateMarkToStart(); CHECK(std::fabs(x.Adjoint() - k * (y0 + c)) <= 1e-8 * k * (1 + c), "gradient " << x.Adjoint() << " expected " << k * (y0 + c));
}
SUB("mark-on-an-empty-tape", 2000, 20000) {   // nothing recorded before the mark: there is nothing to propagate to
    std::unique_ptr<Tape_> t(new Tape_); Number_::SetTape(*t); int paths = g.n(0, 4), junk = g.chance(50) ? g.n(1, 40) : 0; SHOW("earlier nodes " << junk << " paths " << paths); g.nontrivial(paths > 0); if (junk) { Number_ z(1.0); for (int k = 1; k < junk; ++k) z += 1.0; t->Rewind(); } t->Mark();
    for (int p = 0; p < paths; ++p) { t->RewindToMark(); double a = g.uni(0.5, 2), b = g.uni(0.5, 2); Number_ x(a), y(b); Number_ v = x * y + x; v.PropagateToMark(); CHECK(std::fabs(x.Adjoint() - (b + 1)) < 1e-12 && std::fabs(y.Adjoint() - a) < 1e-12, "gradient " << x.Adjoint() << ", " << y.Adjoint()); Number_::PropagateMarkToStart(); CHECK(std::fabs(x.Adjoint() - (b + 1)) < 1e-12 && std::fabs(y.Adjoint() - a) < 1e-12, "gradient after propagating from the mark " << x.Adjoint() << ", " << y.Adjoint()); }
    if (!paths) { Number_::PropagateMarkToStart(); CHECK(nodes(*t) == 0, "nodes"); }
    t->Clear();
}
SUB("several-adjoints-blocks", 40, 800) {
    std::unique_ptr<Tape_> t(new Tape_); int nr = g.of({2, 3, 7, 100, 1000}); auto keep = AAD::SetNumResultsForAAD(true, nr); Number_::SetTape(*t); int rounds = g.n(1, 3), len = std::max(4, (int)AAD::ADJ_SIZE / nr * g.n(1, 2) + g.n(-2, 2)); SHOW("results " << nr << " nodes " << len); g.nontrivial(); double x0 = g.uni(0.5, 2);
    for (int r = 0; r < rounds; ++r) { if (r) { if (g.b()) t->Rewind(); else t->Clear(); } Number_ x(x0); auto xi = std::prev(t->End()); t->Mark(); int inner = g.n(1, 2); double mult = 0; int zero = g.n(1, 4); auto wgt = [&](int j) { return zero > 1 && j % zero == 0 ? 0.0 : j + 1.0; }; for (int k = 0; k < inner; ++k) { t->RewindToMark(); Number_ s = x * 2.0; for (int i = 2; i < len; ++i) s += x; auto it = std::prev(t->End()); for (int j = 0; j < nr; ++j) { CHECK(it->Adjoint(j) == 0.0, "new node has adjoint " << it->Adjoint(j)); it->Adjoint(j) = wgt(j); } Number_::PropagateAdjointsMulti(it, t->Begin()); mult += len; for (int j = 0; j < nr; ++j) CHECK(std::fabs(xi->Adjoint(j) - mult * wgt(j)) <= 1e-9 * mult * wgt(j), "result " << j << " derivative " << xi->Adjoint(j) << " expected " << mult * wgt(j)); } t->ResetAdjoints(); for (int j = 0; j < nr; ++j) CHECK(xi->Adjoint(j) == 0.0, "adjoint after reset"); }
}
SUB_CONC("threads", 60, 2000) {
    int nt = g.n(2, 6), reps = g.n(1, 30); std::vector<double> in(nt * 3); for (double& x : in) x = g.uni(0.3, 2); SHOW("threads " << nt << " repeats " << reps); g.nontrivial(); std::vector<std::string> bad(nt); std::vector<std::thread> th;
    Tape_ mine; Number_::SetTape(mine); Number_ q(3.0), w(2.0); Number_ prod = q * w;
    for (int k = 0; k < nt; ++k) th.emplace_back([&, k] { Tape_ t; Number_::SetTape(t); if (Number_::Tape() != &t) bad[k] = "tape of this thread"; double a = in[3 * k], b = in[3 * k + 1], c = in[3 * k + 2]; Number_ x(a), y(b), z(c); Number_ pre = x * y; t.Mark(); double dx = 0, dy = 0, dz = 0; for (int r = 0; r < reps * 50; ++r) { t.RewindToMark(); Number_ v = exp(pre - z) + pre * double(r % 3); v.PropagateToMark(); double e = std::exp(a * b - c) ; dx += b * (e + r % 3); dy += a * (e + r % 3); dz -= e; } Number_::PropagateMarkToStart(); if (!(std::fabs(x.Adjoint() - dx) <= 1e-9 * (std::fabs(dx) + 1) && std::fabs(y.Adjoint() - dy) <= 1e-9 * (std::fabs(dy) + 1) && std::fabs(z.Adjoint() - dz) <= 1e-9 * (std::fabs(dz) + 1))) bad[k] = "gradient " + pbt::str(x.Adjoint()) + " expected " + pbt::str(dx); });
    for (auto& x : th) x.join(); for (int k = 0; k < nt; ++k) CHECK(bad[k].empty(), "thread " << k << ": " << bad[k]); CHECK(Number_::Tape() == &mine, "this thread's tape changed"); prod.PropagateToStart(); CHECK(q.Adjoint() == 2.0 && w.Adjoint() == 3.0, "this thread's tape was disturbed");
}
