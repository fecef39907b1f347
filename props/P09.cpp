#include <engine.hpp>
#include <algorithm>
using std::max; using std::min;
#include <dal/platform/platform.hpp>
#include <dal/platform/strict.hpp>
#include <dal/math/vectors.hpp>
#include <dal/math/matrix/matrixs.hpp>
#include <dal/math/matrix/squarematrix.hpp>
#include <dal/math/matrix/matrixutils.hpp>
#include <dal/math/matrix/matrixarithmetic.hpp>
#include <dal/math/ndarray.hpp>
#include <dal/math/stacks.hpp>
#include <dal/math/cell.hpp>
#include <dal/math/cellutils.hpp>
#include <dal/utilities/algorithms.hpp>
#include <dal/utilities/numerics.hpp>
#include <dal/utilities/functionals.hpp>
#include <dal/utilities/maps.hpp>
using namespace Dal;
PROPERTY_DEF("P09", "Random operation sequences on matrices, vectors, n-dimensional arrays, cubes and stacks are mirrored on nested std::vectors; products, quadratic forms, covariances and table layouts "
  "of random shapes (aliased or not) are compared with triple loops and an independent layout evaluator; layout strings are also mutated. Non-trivial: at least one dimension is 2 or more, or the history has at least 3 operations.")
namespace pbt { std::vector<std::string> ASSUMPTIONS = {"element-wise operations are given equal sizes where the API requires it", "elements added by growing a matrix are unspecified until written", "indices are in range"}; void globalInit() {} }

typedef std::vector<std::vector<double>> M;
static double val(pbt::G& g) { return g.chance(30) ? g.n(-3, 3) : g.real(-10, 10); }
static M genM(pbt::G& g, int r, int c) { M m(r, std::vector<double>(c)); for (auto& x : m) for (auto& y : x) y = val(g); return m; }
static Matrix_<> mk(const M& m, int c) { Matrix_<> r((int)m.size(), c); for (int i = 0; i < (int)m.size(); ++i) for (int j = 0; j < c; ++j) r(i, j) = m[i][j]; return r; }
static Vector_<> mkv(const std::vector<double>& v) { return Vector_<>(v.begin(), v.end()); }
static std::string ms(const M& m) { std::string s = "["; for (auto& r : m) s += pbt::vec(r); return s + "]"; }
static void same(const char* what, const Matrix_<>& a, const M& m, int cols, double tol = 0) {
    CHECK(a.Rows() == (int)m.size(), what << ": rows " << a.Rows() << " expected " << m.size());
    CHECK(a.Cols() == cols, what << ": cols " << a.Cols() << " expected " << cols);
    for (int i = 0; i < a.Rows(); ++i) for (int j = 0; j < cols; ++j)
        CHECK(tol > 0 ? std::fabs(a(i, j) - m[i][j]) <= tol : a(i, j) == m[i][j], what << " (" << i << "," << j << "): " << a(i, j) << " expected " << m[i][j]);
}

SUB("matrix-histories", 32000, 720000) {
    struct E { Matrix_<> a; M m; int c = 0; };
    E e[2];
    int ops = g.n(1, 14); if (ops >= 3) g.nontrivial();
    auto verify = [&](const char* what) {
        for (auto& x : e) {
            const Matrix_<>& ca = x.a;
            same(what, ca, x.m, x.c);
            CHECK(ca.Empty() == (x.m.empty() || x.c == 0), what << ": Empty of " << x.m.size() << "x" << x.c);
            int k = 0; std::vector<double> flat; for (auto& r : x.m) flat.insert(flat.end(), r.begin(), r.end());
            if (!flat.empty()) {
                CHECK(ca.end() - ca.begin() == (long)flat.size(), what << ": element range");
                for (auto v : ca) CHECK(v == flat[k++], what << ": iteration");
                int r = g.n(0, (int)x.m.size() - 1), c = g.n(0, x.c - 1);
                auto row = ca.Row(r); auto col = ca.Col(c);
                CHECK((int)row.size() == x.c && (int)col.size() == (int)x.m.size(), what << ": slice sizes");
                for (int j = 0; j < x.c; ++j) CHECK(row[j] == x.m[r][j] && ca[r][j] == x.m[r][j], what << ": row slice");
                for (int i = 0; i < (int)x.m.size(); ++i) CHECK(col[i] == x.m[i][c], what << ": column slice");
                Vector_<> cv = col, rv = row; k = 0; for (auto v : cv) { CHECK(v == x.m[k][c], what << ": column copy"); ++k; }
                CHECK(rv.front() == row.front() && rv.back() == row.back() && (int)rv.size() == x.c, what << ": row ends");
            }
        }
    };
    for (int o = 0; o < ops; ++o) {
        E& x = e[g.n(0, 1)]; E& y = &x == &e[0] ? e[1] : e[0];
        int R = (int)x.m.size();
        switch (g.n(0, 10)) {
        case 0: { int r = g.n(0, 6), c = g.n(0, 6); double v = val(g); SHOW("new " << r << "x" << c << " fill " << v); x.a = Matrix_<>(r, c, v); x.m.assign(r, std::vector<double>(c, v)); x.c = c; break; }
        case 1: { int r = g.n(0, 8), c = g.chance(50) ? x.c : g.n(0, 8); SHOW("resize " << r << "x" << c); x.a.Resize(r, c);
            M n(r, std::vector<double>(c, 0.0));
            for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) if (i < R && j < x.c) n[i][j] = x.m[i][j]; else { n[i][j] = val(g); x.a(i, j) = n[i][j]; }
            x.m = n; x.c = c; break; }
        case 2: { double v = val(g); SHOW("fill " << v); x.a.Fill(v); for (auto& r : x.m) for (auto& q : r) q = v; break; }
        case 3: { if (R == 0 || x.c == 0) break; int i = g.n(0, R - 1), j = g.n(0, x.c - 1); double v = val(g); SHOW("set " << i << "," << j); x.a(i, j) = v; x.m[i][j] = v; break; }
        case 4: { SHOW("copy"); x.a = y.a; x.m = y.m; x.c = y.c; break; }
        case 5: { SHOW("copy-construct and move-assign"); Matrix_<> t(y.a); x.a = std::move(t); x.m = y.m; x.c = y.c; break; }
        case 6: { SHOW("swap"); x.a.swap(y.a); std::swap(x.m, y.m); std::swap(x.c, y.c); break; }
        case 7: { double v = val(g); SHOW("scale " << v); x.a *= v; for (auto& r : x.m) for (auto& q : r) q *= v; break; }
        case 8: { if (R == 0 || x.c == 0) break; int i = g.n(0, R - 1); SHOW("write row " << i); auto r = x.a.Row(i); for (int j = 0; j < x.c; ++j) { double v = val(g); r[j] = v; x.m[i][j] = v; } break; }
        case 9: { if (R == 0 || x.c == 0) break; int j = g.n(0, x.c - 1); SHOW("write column " << j); auto r = x.a.Col(j); int i = 0; for (auto p = r.begin(); p != r.end(); ++p, ++i) { double v = val(g); (*(p.val_)) = v; x.m[i][j] = v; } break; }
        case 10: { if (R == 0 || x.c == 0 || y.m.empty() || y.c == 0 || y.c < x.c) break; SHOW("append " << y.m.size() << "x" << y.c << " below " << R << "x" << x.c);
            int oc = x.c; Matrix_<> b(y.a); Matrix::Append(&x.a, b); for (auto& r : x.m) r.resize(y.c, 0.0); 
            for (int i = 0; i < R; ++i) for (int j = oc; j < y.c; ++j) { x.a(i, j) = 0.0; x.m[i][j] = 0.0; }
            for (auto& r : y.m) x.m.push_back(r); x.c = y.c; break; }
        }
        verify("after op");
    }
}

SUB("products", 24000, 480000) {
    int r = g.n(1, g.chance(15) ? 20 : 6), k = g.n(1, g.chance(15) ? 20 : 6), c = g.n(1, 6);
    if (r > 1 || k > 1 || c > 1) g.nontrivial();
    M a = genM(g, r, k), b = genM(g, k, c); std::vector<double> x(k), y(r); for (auto& v : x) v = val(g); for (auto& v : y) v = val(g);
    SHOW("A " << ms(a) << " B " << ms(b));
    M ab(r, std::vector<double>(c, 0.0)); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) for (int q = 0; q < k; ++q) ab[i][j] += a[i][q] * b[q][j];
    const double tol = 1e-9;
    Matrix_<> A = mk(a, k), B = mk(b, c), R(g.n(0, 3), g.n(0, 3), 7.0);
    Matrix::Multiply(A, B, &R); same("A*B", R, ab, c, tol); same("A kept", A, a, k);
    { Matrix_<> A2(A); Matrix::Multiply(A2, B, &A2); same("A*B into A", A2, ab, c, tol); }
    { Matrix_<> B2(B); Matrix::Multiply(A, B2, &B2); same("A*B into B", B2, ab, c, tol); }
    { int n = g.n(1, 6); M q = genM(g, n, n), qq(n, std::vector<double>(n, 0.0)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int l = 0; l < n; ++l) qq[i][j] += q[i][l] * q[l][j]; Matrix_<> Q = mk(q, n), Q2; Matrix::Multiply(Q, Q, &Q2); same("Q*Q", Q2, qq, n, tol); Matrix::Multiply(Q, Q, &Q); same("Q*Q into Q", Q, qq, n, tol); }
    std::vector<double> Ax(r, 0.0), yA(k, 0.0); double yAx = 0;
    for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) { Ax[i] += a[i][j] * x[j]; yA[j] += y[i] * a[i][j]; yAx += y[i] * a[i][j] * x[j]; }
    auto vs = [&](const char* w, const Vector_<>& v, const std::vector<double>& e) { CHECK(v.size() == e.size(), w << " size"); for (size_t i = 0; i < e.size(); ++i) CHECK(std::fabs(v[i] - e[i]) <= tol, w << "[" << i << "] " << v[i] << " expected " << e[i]); };
    Vector_<> out(g.n(0, 4), 3.0); Matrix::Multiply(A, mkv(x), &out); vs("A*x", out, Ax);
    { Vector_<> t = mkv(x); Matrix::Multiply(A, t, &t); vs("A*x into x", t, Ax); }
    { Vector_<> o2(g.n(0, 4), 3.0); Matrix::Multiply(mkv(y), A, &o2); vs("y*A", o2, yA); }
    { Vector_<> t = mkv(y); Matrix::Multiply(t, A, &t); vs("y*A into y", t, yA); }
    CHECK(std::fabs(Matrix::WeightedInnerProduct(mkv(y), A, mkv(x)) - yAx) <= 1e-8, "y'Ax");
    MUST_THROW(Matrix::Multiply(A, mkv(std::vector<double>(k + 1, 1.0)), &out), "size mismatch accepted");
    { Matrix_<> bad(k + 1, c, 1.0); MUST_THROW(Matrix::Multiply(A, bad, &R), "size mismatch accepted"); }
    { // J squared to upper triangle, across the 16-wide blocks
        int n = g.chance(30) ? g.n(15, 35) : g.n(1, 6), f = g.chance(30) ? g.n(15, 70) : g.n(1, 6); if (n > 16) g.label("blocked");
        M J = genM(g, n, f), h0 = genM(g, n, n); Matrix_<> H = mk(h0, n);
        Matrix::AddJSquaredToUpper(mk(J, f), &H);
        { Matrix_<> wrong = g.b() ? Matrix_<>(n + 1, n, 0.0) : Matrix_<>(n, n + 1, 0.0); MUST_THROW(Matrix::AddJSquaredToUpper(mk(J, f), &wrong), "J J' added to a matrix of another size"); }
        for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) { double e = h0[i][j]; for (int q = 0; q < f; ++q) e += J[i][q] * J[j][q]; if (j > i) CHECK(H(j, i) == h0[j][i], "J J' changed the lower triangle at " << j << "," << i); CHECK(std::fabs(H(i, j) - e) <= 1e-8, "J J' at " << i << "," << j << " n " << n << " factors " << f << ": " << H(i, j) << " expected " << e); }
    }
    { // vols and correlations of a covariance matrix
        int n = g.n(1, 5); M f = genM(g, n, n); M cov(n, std::vector<double>(n, 0.0));
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int q = 0; q < n; ++q) cov[i][j] += f[i][q] * f[j][q];
        bool ok = true; for (int i = 0; i < n; ++i) ok = ok && cov[i][i] > 1e-6; if (ok && g.b()) { std::vector<double> sc(n); for (auto& z : sc) z = g.logUni(1e-5, 1e3); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) cov[i][j] *= sc[i] * sc[j]; }
        if (ok) { Matrix_<> C = mk(cov, n), corr; Vector_<> v = Matrix::Vols(C, &corr); same("cov kept", C, cov, n);
            Vector_<> v2 = Matrix::Vols(C); CHECK(v2 == v, "vols with and without correlations"); { Matrix_<> D(C); Vector_<> v3 = Matrix::Vols(D, &D); CHECK(v3 == v && D.Rows() == n && D.Cols() == n, "correlations into the covariances: vols"); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) CHECK(std::fabs(D(i, j) - corr(i, j)) <= 1e-12, "correlations into the covariances"); }
            for (int i = 0; i < n; ++i) { CHECK(std::fabs(v[i] - std::sqrt(cov[i][i])) <= 1e-12 * std::sqrt(cov[i][i]), "vol");
                for (int j = 0; j < n; ++j) CHECK(std::fabs(corr(i, j) - cov[i][j] / std::sqrt(cov[i][i] * cov[j][j])) <= 1e-9, "correlation " << i << "," << j << " " << corr(i, j)); } }
    }
    { Matrix_<> T = Matrix::MakeTranspose(A); CHECK(T.Rows() == k && T.Cols() == r, "transpose shape"); for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) CHECK(T(j, i) == a[i][j], "transpose"); }
    { bool bc = g.b(); auto vv = Matrix::ToVectors(A, bc); Matrix_<> back = Matrix::FromVectors(vv, bc, false); same("to and from vectors", back, a, k);
      auto dbl = Matrix::Apply([](double z) { return 2 * z; }, A); for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) CHECK(dbl(i, j) == 2 * a[i][j], "Apply"); 
      if (r > 1) { auto bad = Matrix::ToVectors(A); bad.back().push_back(1.0); MUST_THROW(Matrix::FromVectors(bad, false, false), "ragged rows accepted");
        auto rg = Matrix::FromVectors(bad, false, false, true); CHECK(rg.Cols() == k + 1 && rg(r - 1, k) == 1.0 && rg(0, k) == 0.0, "ragged rows"); } }
}

// ---- table layout: an independent evaluator on grids
struct Lay { char op; std::vector<Lay> kids; int arg = 0; };
struct Grid { int r = 0, c = 0; std::vector<double> v; double& at(int i, int j) { return v[i * c + j]; } double at(int i, int j) const { return v[i * c + j]; } };
static const double BLANK = -1e9;
static Grid blank(int r, int c) { Grid g; g.r = r; g.c = c; g.v.assign((size_t)r * c, BLANK); return g; }
static Lay genLay(pbt::G& g, int depth, int nArgs) {
    Lay l; int k = depth <= 0 ? 0 : g.n(0, 9);
    if (k < 3) { l.op = 'a'; l.arg = std::min(9, g.n(0, nArgs + (g.chance(5) ? 1 : 0))); }
    else if (k < 6) { l.op = "TI*"[k - 3]; l.kids.push_back(genLay(g, depth - 1, nArgs)); }
    else { l.op = ":;.,"[k - 6]; int n = g.n(2, 3); for (int j = 0; j < n; ++j) l.kids.push_back(genLay(g, depth - 1, nArgs)); }
    return l;
}
static std::string text(pbt::G& g, const Lay& l) {
    std::string s;
    if (l.op == 'a') s = std::string(1, (char)('0' + l.arg));
    else if (l.kids.size() == 1) { s = text(g, l.kids[0]); if (l.kids[0].kids.size() > 1) s = "(" + s + ")"; s += (g.b() ? l.op : (char)tolower(l.op)); }
    else for (size_t j = 0; j < l.kids.size(); ++j) { std::string t = text(g, l.kids[j]); if (l.kids[j].kids.size() > 1) t = "(" + t + ")"; s += (j ? std::string(1, l.op) : "") + t; }
    return g.chance(10) ? "(" + s + ")" : s;
}
static Grid eval(const Lay& l, const std::vector<Grid>& args) {
    if (l.op == 'a') return l.arg == 0 ? blank(1, 1) : l.arg <= (int)args.size() ? args[l.arg - 1] : blank(0, 0);
    if (l.op == 'T') { Grid k = eval(l.kids[0], args), r = blank(k.c, k.r); for (int i = 0; i < k.r; ++i) for (int j = 0; j < k.c; ++j) r.at(j, i) = k.at(i, j); return r; }
    if (l.op == 'I') { Grid k = eval(l.kids[0], args), r = blank(k.r, k.c); for (int i = 0; i < k.r; ++i) for (int j = 0; j < k.c; ++j) r.at(k.r - 1 - i, k.c - 1 - j) = k.at(i, j); return r; }
    if (l.op == '*') { Grid k = eval(l.kids[0], args), r = blank(1, k.r * k.c); r.v = k.v; return r; }
    std::vector<Grid> ks; for (auto& k : l.kids) ks.push_back(eval(k, args));
    bool vert = l.op == ':' || l.op == ';', far = l.op == ':' || l.op == '.';
    int R = 0, C = 0; for (auto& k : ks) { if (vert) { R += k.r; C = std::max(C, k.c); } else { C += k.c; R = std::max(R, k.r); } }
    Grid r = blank(R, C); int at = 0;
    for (auto& k : ks) { int oi = vert ? at : (far ? R - k.r : 0), oj = vert ? (far ? C - k.c : 0) : at; for (int i = 0; i < k.r; ++i) for (int j = 0; j < k.c; ++j) r.at(oi + i, oj + j) = k.at(i, j); at += vert ? k.r : k.c; }
    return r;
}
static double cellVal(const Cell_& c) { return Cell::IsEmpty(c) ? BLANK : Cell::ToDouble(c); }
SUB("table-layouts", 32000, 720000) {
    int n = g.chance(20) ? g.n(5, 9) : g.n(1, 4); std::vector<Grid> args; std::vector<Matrix_<Cell_>> tabs; double next = 1;
    for (int k = 0; k < n; ++k) { Grid q = blank(g.n(1, 3), g.n(1, 3)); for (auto& v : q.v) v = next++; args.push_back(q); Matrix_<Cell_> t(q.r, q.c); for (int i = 0; i < q.r; ++i) for (int j = 0; j < q.c; ++j) t(i, j) = Cell_(q.at(i, j)); tabs.push_back(t); }
    Vector_<const Matrix_<Cell_>*> ptr; for (auto& t : tabs) ptr.push_back(&t);
    Lay l = genLay(g, g.n(0, 4), n); std::string f = text(g, l); Grid want = eval(l, args);
    SHOW("format " << f); if (!l.kids.empty()) g.nontrivial();
    if (want.r * want.c == 0) { MUST_THROW(Matrix::Format(ptr, String_(f)), "empty output"); return; }
    Matrix_<Cell_> got = Matrix::Format(ptr, String_(f));
    CHECK(got.Rows() == want.r && got.Cols() == want.c, "format '" << f << "' shape " << got.Rows() << "x" << got.Cols() << " expected " << want.r << "x" << want.c);
    for (int i = 0; i < want.r; ++i) for (int j = 0; j < want.c; ++j) CHECK(cellVal(got(i, j)) == want.at(i, j), "format '" << f << "' at " << i << "," << j << ": " << cellVal(got(i, j)) << " expected " << want.at(i, j));
}
SUB("malformed-layouts", 20000, 480000) {
    static const char* AL = "0123()TIti*:;.,9 x";
    std::string f; int len = g.n(0, 10); for (int k = 0; k < len; ++k) f += AL[g.draw(18)];
    SHOW("format '" << f << "'"); if (len > 1) g.nontrivial();
    Matrix_<Cell_> t(2, 2); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) t(i, j) = Cell_(1.0 + i * 2 + j);
    Vector_<const Matrix_<Cell_>*> ptr; ptr.push_back(&t); if (g.b()) ptr.push_back(&t);
    try { auto r = Matrix::Format(ptr, String_(f)); CHECK(r.Rows() > 0 && r.Cols() > 0, "empty result"); for (int i = 0; i < r.Rows(); ++i) for (int j = 0; j < r.Cols(); ++j) { double v = cellVal(r(i, j)); CHECK(v == BLANK || (v >= 1 && v <= 4), "stray value"); } }
    catch (const std::exception&) { g.label("refused"); }
}

SUB("vectors-and-algorithms", 32000, 720000) {
    int n = g.n(0, 12); std::vector<double> a(n), b(n); for (auto& v : a) v = g.n(-5, 5); for (auto& v : b) v = val(g);
    if (n > 1) g.nontrivial(); SHOW("a " << pbt::vec(a) << " b " << pbt::vec(b));
    Vector_<> A = mkv(a), B = mkv(b); double s = val(g);
    auto is = [&](const char* w, const Vector_<>& v, std::function<double(int)> f) { CHECK((int)v.size() == n, w << " size"); for (int i = 0; i < n; ++i) CHECK(v[i] == f(i), w << "[" << i << "] " << v[i] << " expected " << f(i)); };
    { Vector_<> t(A); t *= s; is("*=", t, [&](int i) { return a[i] * s; }); } { Vector_<> t(A); t += s; is("+=", t, [&](int i) { return a[i] + s; }); } { Vector_<> t(A); t -= s; is("-=", t, [&](int i) { return a[i] - s; }); }
    { Vector_<> t(A); t += B; is("+= v", t, [&](int i) { return a[i] + b[i]; }); } { Vector_<> t(A); t -= B; is("-= v", t, [&](int i) { return a[i] - b[i]; }); }
    is("a*s", A * s, [&](int i) { return a[i] * s; }); is("s*a", s * A, [&](int i) { return a[i] * s; }); is("a*b", A * B, [&](int i) { return a[i] * b[i]; });
    CHECK((A == B) == (a == b) && (A != B) == (a != b), "vector equality"); { Vector_<> t(A); t.push_back(1.0); CHECK(!(t == A) && t != A && !(A == t) && A != t, "longer vector differs"); }
    auto sorted = a; std::sort(sorted.begin(), sorted.end()); auto uq = sorted; uq.erase(std::unique(uq.begin(), uq.end()), uq.end());
    { auto u = Unique(A); CHECK(std::vector<double>(u.begin(), u.end()) == uq, "Unique " << pbt::vec(u)); }
    { auto r = Reverse(A); std::vector<double> e(a.rbegin(), a.rend()); CHECK(std::vector<double>(r.begin(), r.end()) == e, "Reverse"); }
    { auto r = Filter(A, [](double x) { return x > 0; }); std::vector<double> e; for (double v : a) if (v > 0) e.push_back(v); CHECK(std::vector<double>(r.begin(), r.end()) == e, "Filter"); }
    { bool mono = true, wk = true; for (int i = 1; i < n; ++i) { mono = mono && a[i - 1] < a[i]; wk = wk && a[i - 1] <= a[i]; } CHECK(IsMonotonic(A) == mono, "IsMonotonic"); CHECK(IsMonotonic(A, std::less_equal<>()) == wk, "IsMonotonic <="); }
    { Vector_<> S = mkv(sorted); double x = g.n(-6, 6); int lo = 0, hi = 0; for (double v : sorted) { lo += v < x; hi += v <= x; } CHECK(LowerBound(S, x) - S.begin() == lo && UpperBound(S, x) - S.begin() == hi && BinarySearch(S, x) == (hi > lo), "bounds of " << x); }
    if (n) { CHECK(*MaxElement(A) == sorted.back() && *MinElement(A) == sorted.front(), "extremes"); }
    { auto c = Concatenate(A, B); CHECK((int)c.size() == 2 * n, "Concatenate size"); for (int i = 0; i < n; ++i) CHECK(c[i] == a[i] && c[n + i] == b[i], "Concatenate"); auto j = Vector::Join(A, B); CHECK(j == c, "Join"); }
    { auto z = Zip(A, B); for (int i = 0; i < n; ++i) CHECK(z[i].first == a[i] && z[i].second == b[i], "Zip"); }
    { auto f = Apply([](double x, double y) { return x - 2 * y; }, A, B); is("Apply2", f, [&](int i) { return a[i] - 2 * b[i]; }); Vector_<> t(n + 1); MUST_THROW(Copy(A, &t), "Copy into a wrong size"); }
    { std::map<int, double> m; for (int i = 0; i < n; ++i) m[(int)a[i]] = b[i]; auto k = Keys(m); auto v = MapValues(m); int i = 0; for (auto& p : m) { CHECK(k[i] == p.first && v[i] == p.second, "Keys/MapValues"); ++i; } }
    double sum = 0, ip = 0, l1 = 0, l2 = 0; for (int i = 0; i < n; ++i) { sum += b[i]; ip += a[i] * b[i]; l1 += std::fabs(b[i]); l2 += b[i] * b[i]; }
    CHECK(pbt::close(Accumulate(B), sum, 1e-12, 1e-12), "Accumulate"); CHECK(pbt::close(InnerProduct(A, B), ip, 1e-12, 1e-12), "InnerProduct");
    if (n && l1 > 1e-3) { auto v = Vector::L1Normalized(B); auto w = Vector::L2Normalized(B); for (int i = 0; i < n; ++i) CHECK(pbt::close(v[i], b[i] / l1, 1e-9, 1e-11) && pbt::close(w[i], b[i] / std::sqrt(l2), 1e-9, 1e-11), "normalised"); }
    if (n) { double ma = 0, mb = sum / n, cv = 0, va = 0, vb = 0; for (double v : a) ma += v; ma /= n; for (int i = 0; i < n; ++i) { cv += (a[i] - ma) * (b[i] - mb); va += (a[i] - ma) * (a[i] - ma); vb += (b[i] - mb) * (b[i] - mb); }
        CHECK(pbt::close(Vector::Covariance(A, B), cv / n, 1e-9, 1e-10), "Covariance " << Vector::Covariance(A, B) << " expected " << cv / n);
        if (va > 1e-3 && vb > 1e-3) CHECK(pbt::close(Vector::Correlation(A, B), cv / std::sqrt(va * vb), 1e-9, 1e-9), "Correlation"); }
    { int k = g.n(0, 9); auto u = Vector::UpTo(k); CHECK((int)u.size() == k, "UpTo size"); for (int i = 0; i < k; ++i) CHECK(u[i] == i, "UpTo"); }
    { double lo = val(g), hi = val(g); int k = g.n(2, 9); auto x = Vector::XRange(lo, hi, (size_t)k); CHECK((int)x.size() == k && x[0] == lo && x[k - 1] == hi, "XRange ends"); for (int i = 0; i < k; ++i) CHECK(pbt::close(x[i], lo + (hi - lo) * i / (k - 1), 1e-12, 1e-12), "XRange"); }
    { double x = g.chance(20) ? g.real(-2e9, 2e9) : g.real(-100, 100); double nr = std::floor(std::fabs(x) + 0.5); if (nr - std::fabs(x) != 0.5) CHECK(NearestInt(x) == (int)(x < 0 ? -nr : nr), "NearestInt(" << x << ") " << NearestInt(x)); int k = g.n(-2000000000, 2000000000); CHECK(AsInt((double)k) == k && AsInt(k + 1e-10) == k && AsInt(k - 1e-10) == k && AsInt((std::ptrdiff_t)k) == k, "AsInt " << k);
      MUST_THROW(AsInt(3e9), "too large"); MUST_THROW(NearestInt(-3e9), "too large"); MUST_THROW(AsInt((std::ptrdiff_t)1 << 40), "too large"); }
}

SUB("arrays-and-cubes", 20000, 480000) {
    int d = g.n(1, 4); Vector_<int> sz; int tot = 1; for (int k = 0; k < d; ++k) { sz.push_back(g.n(1, 4)); tot *= sz.back(); }
    SHOW("sizes " << pbt::vec(sz)); if (tot > 1) g.nontrivial();
    typedef std::map<std::vector<int>, double> Md; Md m; ArrayN_<double> a(sz, 2.5);
    auto each = [](const Vector_<int>& s, std::function<void(const Vector_<int>&)> f) { Vector_<int> w(s.size(), 0); for (;;) { f(w); int k = (int)s.size() - 1; while (k >= 0 && ++w[k] == s[k]) w[k--] = 0; if (k < 0) return; } };
    auto key = [](const Vector_<int>& w) { return std::vector<int>(w.begin(), w.end()); };
    double next = 1; each(sz, [&](const Vector_<int>& w) { CHECK(a[w] == 2.5, "fill"); m[key(w)] = next; a[w] = next++; });
    auto verify = [&](const char* what) { int cnt = 0; each(sz, [&](const Vector_<int>& w) { ++cnt; CHECK(a[w] == m[key(w)], what << " at " << pbt::vec(w) << ": " << a[w] << " expected " << m[key(w)]); }); CHECK(a.Sizes() == sz, "Sizes"); };
    verify("written");
    int ops = g.n(0, 4);
    for (int o = 0; o < ops; ++o) switch (g.n(0, 3)) {
        case 0: { Vector_<int> ns; for (int k = 0; k < d; ++k) ns.push_back(g.n(1, 5)); SHOW("resize " << pbt::vec(ns)); a.Resize(ns); Md n2; each(ns, [&](const Vector_<int>& w) { bool old = true; for (int k = 0; k < d; ++k) old = old && w[k] < sz[k]; n2[key(w)] = old ? m[key(w)] : 0.0; }); m = n2; sz = ns; verify("resized"); break; }
        case 1: { SHOW("scale"); a *= 3.0; for (auto& p : m) p.second *= 3.0; verify("scaled"); break; }
        case 2: { SHOW("swap"); ArrayN_<double> b(Vector_<int>(2, 2), 9.0); a.Swap(&b); CHECK(a.Sizes() == Vector_<int>(2, 2), "swapped sizes"); Vector_<int> z(2, 1); CHECK(a[z] == 9.0, "swapped"); b.Swap(&a); verify("swapped back"); break; }
        case 3: { Vector_<int> z(d, 0); for (int k = 0; k < d; ++k) z[k] = g.n(0, sz[k] - 1); a[z] = -1; m[key(z)] = -1; verify("set"); break; }
    }
    { Vector_<int> w = sz; w.push_back(1); MUST_THROW(a.Resize(w), "dimension change accepted"); }
    int I = g.n(1, 4), J = g.n(1, 4), K = g.n(1, 4); Cube_<double> c(I, J, K); std::vector<double> cv((size_t)I * J * K);
    for (int i = 0; i < I; ++i) for (int j = 0; j < J; ++j) for (int k = 0; k < K; ++k) { double v = val(g); c(i, j, k) = v; cv[(i * J + j) * K + k] = v; }
    const Cube_<double>& cc = c;
    for (int i = 0; i < I; ++i) for (int j = 0; j < J; ++j) { CHECK(cc.SliceEnd(i, j) - cc.SliceBegin(i, j) == K, "slice length"); for (int k = 0; k < K; ++k) CHECK(cc(i, j, k) == cv[(i * J + j) * K + k] && cc.SliceBegin(i, j)[k] == cc(i, j, k), "cube"); }
    int I2 = g.n(1, 5), J2 = g.n(1, 5), K2 = g.n(1, 5); c.Resize(I2, J2, K2); CHECK(c.SizeI() == I2 && c.SizeJ() == J2 && c.SizeK() == K2, "cube sizes");
    for (int i = 0; i < I2; ++i) for (int j = 0; j < J2; ++j) for (int k = 0; k < K2; ++k) CHECK(c(i, j, k) == (i < I && j < J && k < K ? cv[(i * J + j) * K + k] : 0.0), "cube resized from " << I << "," << J << "," << K << " to " << I2 << "," << J2 << "," << K2 << " at " << i << "," << j << "," << k << ": " << c(i, j, k));
}

SUB("stacks", 20000, 480000) {
    Stack_<double, 4> s(g.of({4, 1, 2, 8})), t; std::vector<double> m, mt; StaticStack_<double, 64> f; std::vector<double> mf;
    int ops = g.n(1, 40); if (ops >= 3) g.nontrivial();
    for (int o = 0; o < ops; ++o) {
        switch (g.n(0, 8)) {
        case 0: case 1: case 2: { double v = val(g); s.Push(v); m.push_back(v); SHOW("push"); break; }
        case 3: if (!m.empty()) { double v = s.TopAndPop(); SHOW("top and pop"); CHECK(v == m.back(), "TopAndPop gave " << v << " expected " << m.back()); m.pop_back(); } break;
        case 4: if (!m.empty()) { int k = g.n(1, (int)m.size()); SHOW("pop " << k); if (k == 1) s.Pop(); else s.Pop((size_t)k); m.resize(m.size() - k); } break;
        case 5: SHOW("copy"); t = s; mt = m; break;
        case 6: { SHOW("copy, move"); Stack_<double, 4> u; u = t; s = std::move(u); m = mt; break; }
        case 7: if (g.chance(30)) { SHOW("clear"); if (g.b()) s.Clear(); else s.Reset(); m.clear(); } break;
        case 8: { double v = val(g); if (mf.size() < 60) { f.Push(v); mf.push_back(v); } else { CHECK(f.TopAndPop() == mf.back(), "static TopAndPop"); mf.pop_back(); } break; }
        }
        CHECK(s.Size() == (int)m.size() && s.IsEmpty() == m.empty(), "size " << s.Size() << " expected " << m.size());
        for (size_t k = 0; k < m.size(); ++k) CHECK(s[k] == m[m.size() - 1 - k], "element " << k); if (!m.empty()) CHECK(s.Top() == m.back(), "Top");
        size_t k = m.size(); for (auto v : s) CHECK(k > 0 && v == m[--k], "iteration");
        CHECK(t.Size() == (int)mt.size(), "copy size"); for (size_t q = 0; q < mt.size(); ++q) CHECK(t[q] == mt[mt.size() - 1 - q], "copy changed");
        CHECK(f.Size() == mf.size(), "static size"); for (size_t q = 0; q < mf.size(); ++q) CHECK(f[(int)q] == mf[mf.size() - 1 - q], "static element");
    }
}
