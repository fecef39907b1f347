#include <engine.hpp>
#include "civil.hpp"
#include <dal/string/strings.hpp>
#include <dal/string/stringutils.hpp>
#include <dal/math/cell.hpp>
#include <dal/math/cellutils.hpp>
#include <dal/time/datetimeutils.hpp>
#include <dal/time/dateutils.hpp>
#include <dal/time/daybasis.hpp>
#include <dal/time/periodlength.hpp>
#include <dal/time/schedules.hpp>
#include <dal/currency/currency.hpp>
#include <dal/protocol/clearer.hpp>
#include <dal/protocol/collateraltype.hpp>
#include <dal/protocol/couponrate.hpp>
#include <dal/protocol/optiontype.hpp>
#include <dal/math/random/pseudorandom.hpp>
#include <dal/utilities/dictionary.hpp>
#include <dal/storage/box.hpp>
#include <dal/storage/bag.hpp>
#include <dal/math/matrix/matrixs.hpp>
#include <dal/utilities/exceptions.hpp>
#include <cmath>
using namespace Dal;
PROPERTY_DEF("P06", "Random strings over letters of both cases, digits, separators, spaces, underscores and arbitrary bytes; random cells of all six kinds; random dictionaries and operation sequences on them; "
  "oracle: plain std::string/std::map models after upper-casing and dropping blanks and underscores. Non-trivial: the strings differ only in case/fluff, or the case contains a separator, a typed value or a duplicate key.")
namespace pbt { std::vector<std::string> ASSUMPTIONS = {"doubles are printed with six decimals, so text round trips of doubles are exact only to that resolution"}; void globalInit() {} }

static std::string up(const std::string& s) { std::string r; for (char c : s) r += c >= 'a' && c <= 'z' ? (char)(c - 32) : c; return r; }
static std::string cond(const std::string& s) { std::string r; for (char c : up(s)) if (c != ' ' && c != '\t' && c != '_') r += c; return r; }
static std::string std_(const String_& s) { return std::string(s.begin(), s.end()); }
static String_ S(const std::string& s) { return String_(s); }
static std::string genStr(pbt::G& g, int maxLen, bool bytes = false) {
    static const std::string al = "abAB zZ_19\tcC;=,.-";
    std::string r; int n = g.n(0, maxLen);
    for (int k = 0; k < n; ++k) r += bytes && g.chance(15) ? (char)g.n(1, 255) : al[g.draw(al.size())];
    return r;
}
static std::string mangle(pbt::G& g, const std::string& s, bool fluff) {
    std::string r; for (char c : s) { if (fluff && g.chance(20)) r += g.of({' ', '_', '\t'}); r += g.b() ? (char)(c >= 'a' && c <= 'z' ? c - 32 : c) : (char)(c >= 'A' && c <= 'Z' ? c + 32 : c); }
    if (fluff && g.chance(20)) r += ' ';
    return r;
}
SUB("case-insensitive-order", 200000, 2000000) {
    bool variant = g.chance(40); std::string a = genStr(g, 8, true), b = variant ? mangle(g, a, false) : genStr(g, 8, true), c = genStr(g, 8, true);
    if (!variant && g.chance(30)) { int x = g.n(1, 127), y = g.b() ? g.n(1, 127) : std::min(127, std::max(1, x + g.of({-32, -1, 1, 32}))); std::string pre = genStr(g, 2), post = genStr(g, 2); a = pre + (char)x + post; b = pre + (char)y + post; }   // texts that differ in one character
    // which bytes above 127 count as the same letter is left to the library; the oracle only speaks of ASCII, or of the same high bytes on both sides
    bool ascii = true; for (unsigned char ch : a + b) if (ch >= 128) ascii = false;
    String_ A = S(a), B = S(b), C = S(c);
    SHOW("'" << a << "' vs '" << b << "'");
    bool eq = ascii || variant ? up(a) == up(b) : A == B;
    g.nontrivial(eq && a != b); if (eq) g.label("equal");
    CHECK((A == B) == eq && (B == A) == eq && (A != B) == !eq, a << " | " << b);
    CHECK((A == b.c_str()) == eq || b.find('\0') != std::string::npos, a << " | " << b);
    CHECK((A < B) + (B < A) + (A == B) == 1, "trichotomy " << a << " | " << b);
    if (A < B && B < C) CHECK(A < C, "transitivity");
    if (A == B) CHECK((A < C) == (B < C) && (C < A) == (C < B), "order respects equality");
    CHECK((A.compare(B) < 0) == (A < B) && (A.compare(B) == 0) == eq, "compare");
    if (ascii) CHECK(A.find(B) != String_::npos ? up(a).find(up(b)) == A.find(B) : up(a).find(up(b)) == std::string::npos, "find '" << b << "' in '" << a << "'");
    else if (A.find(B) != String_::npos) CHECK(String_(A.substr(A.find(B), B.size())) == B, "found '" << b << "' in '" << a << "'");
    else CHECK(!eq, "'" << b << "' not found in an equal text");
    if (ascii) CHECK((A < B) == (up(a) < up(b)), "ASCII order is upper-case order: " << a << " | " << b);
}
SUB("condensed-equivalent", 200000, 2000000) {
    std::string a = genStr(g, 10, true), b = g.chance(60) ? mangle(g, a, true) : genStr(g, 10);
    SHOW("'" << a << "' vs '" << b << "'"); g.nontrivial(cond(a) == cond(b) && a != b);
    bool ascii = true; for (unsigned char ch : a + b) if (ch >= 128) ascii = false;
    if (ascii) CHECK(std_(String::Condensed(S(a))) == cond(a), a << " condensed to " << std_(String::Condensed(S(a))));
    CHECK(String::Equivalent(S(a), cond(b).c_str()) == (cond(a) == cond(b)), a << " | " << cond(b));
}
SUB("split-join", 200000, 2000000) {
    int n = g.n(1, 6); std::vector<std::string> parts; char sep = g.of({',', ';', ' ', ':', '='});
    std::string joined;
    for (int k = 0; k < n; ++k) { std::string p; int m = g.chance(30) ? 0 : g.n(1, 4); for (int q = 0; q < m; ++q) p += (char)g.n('a', 'f'); parts.push_back(p); joined += (k ? std::string(1, sep) : "") + p; }
    SHOW("'" << joined << "'"); g.nontrivial(n > 1);
    if (joined.empty() && n == 1) { CHECK(String::Split(S(joined), sep, true).empty(), "empty text"); return; }
    auto all = String::Split(S(joined), sep, true);
    CHECK(all.size() == parts.size(), "'" << joined << "' gave " << all.size() << " fields, expected " << parts.size());
    for (size_t k = 0; k < parts.size(); ++k) CHECK(std_(all[k]) == parts[k], joined << " field " << k);
    std::vector<std::string> ne; for (auto& p : parts) if (!p.empty()) ne.push_back(p);
    auto some = String::Split(S(joined), sep, false);
    CHECK(some.size() == ne.size(), joined << " non-empty fields");
    for (size_t k = 0; k < ne.size(); ++k) CHECK(std_(some[k]) == ne[k], joined);
    Vector_<String_> v; for (auto& p : parts) v.push_back(S(p));
    CHECK(std_(String::Accumulate(v, String_(1, sep), false)) == joined, "join keeping empties of '" << joined << "'");
    std::string j2; for (auto& p : ne) j2 += (j2.empty() ? "" : std::string(1, sep)) + p;
    CHECK(std_(String::Accumulate(v, String_(1, sep))) == j2, "join skipping empties of '" << joined << "'");
}
SUB("numbers-and-bools", 200000, 2000000) {
    int i = g.chance(30) ? g.of({0, -1, 2147483647, -2147483647 - 1}) : g.n(-1000000, 1000000);
    SHOW("int " << i); g.nontrivial();
    CHECK(String::ToInt(String::FromInt(i)) == i && std_(ToString(i)) == std::to_string(i), i);
    double d = g.chance(50) ? std::round(g.uni(-1e6, 1e6) * 1e6) / 1e6 : g.uni(-1e3, 1e3);
    CHECK(std::fabs(String::ToDouble(String::FromDouble(d)) - d) <= 5.1e-7, d << " prints as " << std_(String::FromDouble(d)));
    char b[64]; snprintf(b, 64, "%.17g", d); CHECK(String::ToDouble(String_(b)) == d && String::IsNumber(String_(b)), b);
    std::string junk = std::string(b) + g.of<std::string>({"x", " ", ",", "-", "..", "e"});
    CHECK(!String::IsNumber(S(junk)), junk); MUST_THROW(String::ToDouble(S(junk)), junk);
    CHECK(!String::IsNumber(String_("")), "empty"); MUST_THROW(String::ToDouble(String_("")), "empty"); MUST_THROW(String::ToInt(String_("abc")), "abc");
    bool v = g.b(); std::string w = mangle(g, v ? g.of<std::string>({"true", "t", "y", "1"}) : g.of<std::string>({"false", "f", "n", "0"}), false);
    CHECK(String::ToBool(S(w)) == v, w); CHECK(String::ToBool(String::FromBool(v)) == v, "FromBool");
    MUST_THROW(String::ToBool(S(w + "x")), w); MUST_THROW(String::ToBool(String_("")), "empty");
    int n = g.n(1, 6); std::string run, csv; std::vector<bool> e;
    for (int k = 0; k < n; ++k) { bool z = g.b(); e.push_back(z); run += z ? g.of({'T', 'y', '1'}) : g.of({'F', 'n', '0'}); csv += (k ? "," : "") + (z ? g.of<std::string>({"true", "T", "1"}) : g.of<std::string>({"FALSE", "n", "0"})); }
    auto chk = [&](const Vector_<bool>& got, const std::string& s) { CHECK(got.size() == e.size(), s); for (size_t k = 0; k < e.size(); ++k) CHECK(got[k] == e[k], s); };
    chk(String::ToBoolVector(S(run)), run); if (n > 1) chk(String::ToBoolVector(S(csv)), csv);
    if (n > 1) { std::string gap = csv; auto q = g.b() ? 0 : gap.find(',') + 1; gap.insert(q, ","); if (g.chance(30)) gap = csv + ","; MUST_THROW(String::ToBoolVector(S(gap)), gap); MUST_THROW(String::ToBoolVector(S(csv + ",x")), csv); }   // an empty field is no truth value
    Vector_<bool> bv; for (bool z : e) bv.push_back(z);
    chk(Cell::ToBoolVector(Cell::FromBoolVector(bv)), "cell bool vector");
}
SUB("next-name", 100000, 500000) {
    std::string pre = g.of<std::string>({"", "a", "x_", "n9a", "Z"}); std::string dig; int n = g.n(0, 6); for (int k = 0; k < n; ++k) dig += g.chance(40) ? '9' : (char)g.n('0', '9');
    std::string name = pre + dig; SHOW(name); g.nontrivial(n > 1);
    std::string e;
    if (dig.empty()) e = pre.empty() ? "0" : pre + "1";
    else { std::string d = dig; int k = (int)d.size() - 1; while (k >= 0 && d[k] == '9') d[k--] = '0'; if (k >= 0) ++d[k]; else d = (pre.empty() ? "0" : "1") + d; e = pre + d; }
    CHECK(std_(String::NextName(S(name))) == e, name << " -> " << std_(String::NextName(S(name))) << " expected " << e);
}
template <class E> static void enumRound(pbt::G& g, const Vector_<E>& all, const char* what) {
    for (const auto& x : all) {
        std::string nm = x.String();
        CHECK(E(S(nm)) == x, what << " " << nm);
        std::string m = mangle(g, nm, true);
        CHECK(E(S(m)) == x, what << " '" << m << "' should read as " << nm);
        for (const auto& y : all) CHECK((x == y) == (std::string(y.String()) == nm), what << " names are distinct");
        std::string bad = m + g.of<std::string>({"q7", "\xc3\xa9", "!", "\x80"});
        MUST_THROW(E(S(bad)), what << " '" << bad << "'");
        CHECK(Cell::ToEnum<E>(Cell::FromEnum(x)) == x, what);
    }
    MUST_THROW(E(String_("")), what << " empty"); MUST_THROW(E(S(genStr(g, 6, true) + "?~")), what);
}
SUB("enumerations", 20000, 200000) {
    g.nontrivial(); SHOW("all enumerations with random case and fluff");
    enumRound(g, DayBasisListAll(), "DayBasis"); enumRound(g, CcyListAll(), "Ccy"); enumRound(g, PeriodLengthListAll(), "PeriodLength");
    enumRound(g, DateGenerationListAll(), "DateGeneration"); enumRound(g, BizDayConventionListAll(), "BizDayConvention"); enumRound(g, ClearerListAll(), "Clearer");
    enumRound(g, CollateralTypeListAll(), "CollateralType"); enumRound(g, TradedRateListAll(), "TradedRate"); enumRound(g, OptionTypeListAll(), "OptionType"); enumRound(g, RNGTypeListAll(), "RNGType");
}
// ---- cells
struct M { int kind; bool b; double d; int day; int sec; std::string s; };   // 0 empty 1 bool 2 double 3 date 4 datetime 5 string
static M genM(pbt::G& g, bool textSafe) {
    M m{}; m.kind = g.n(0, 5); m.b = g.b(); m.day = g.n(0, civil::MAXDAY); m.sec = g.n(0, 86399);
    switch (g.n(0, 3)) { case 0: m.d = g.n(-1000, 1000); break; case 1: m.d = g.n(-1000000, 1000000) / 1e6; break; case 2: m.d = g.of({5e9, -3e12, 2147483647.0, -2147483648.0, 2147483646.0, 0.0}); break; default: m.d = g.uni(-1e5, 1e5); }
    int n = g.n(textSafe ? 1 : 0, 6); for (int k = 0; k < n; ++k) m.s += g.of({'p', 'Q', 'x', 'Z', ' ', '!', 'u'});
    if (textSafe) m.s = "v" + m.s;
    return m;
}
static Cell_ cell(const M& m) {
    switch (m.kind) { case 0: return Cell_(); case 1: return Cell_(m.b); case 2: return Cell_(m.d); case 3: return Cell_(civil::date(m.day));
    case 4: return Cell_(DateTime_(civil::date(m.day), m.sec / 3600, m.sec / 60 % 60, m.sec % 60)); default: return Cell_(S(m.s)); }
}
static std::string show(const M& m) { return std::string("kind ") + std::to_string(m.kind) + " " + pbt::dbl(m.d) + " '" + m.s + "'"; }
template <class F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
SUB("cells", 300000, 3000000) {
    M m = genM(g, false), o = genM(g, false); if (g.chance(20)) o = m; Cell_ c = cell(m), d = cell(o);
    SHOW(show(m)); g.nontrivial(); g.label("kind-" + std::to_string(m.kind));
    bool same = m.kind == o.kind && (m.kind == 0 || (m.kind == 1 && m.b == o.b) || (m.kind == 2 && m.d == o.d) || (m.kind == 3 && m.day == o.day) || (m.kind == 4 && m.day == o.day && m.sec == o.sec) || (m.kind == 5 && up(m.s) == up(o.s)));
    CHECK((c == d) == same, show(m) << " == " << show(o));
    bool isInt = m.kind == 2 && m.d == std::trunc(m.d) && m.d >= -2147483648.0 && m.d <= 2147483647.0;
    CHECK(Cell::IsEmpty(c) == (m.kind == 0 || (m.kind == 5 && m.s.empty())), show(m));
    CHECK(Cell::IsBool(c) == (m.kind == 1) && Cell::IsDouble(c) == (m.kind == 2) && Cell::IsDate(c) == (m.kind == 3) && Cell::IsDateTime(c) == (m.kind == 4) && Cell::IsString(c) == (m.kind == 5), show(m));
    CHECK(Cell::IsInt(c) == isInt, show(m));
    CHECK(throws([&] { Cell::ToBool(c); }) == (m.kind != 1), show(m)); if (m.kind == 1) CHECK(Cell::ToBool(c) == m.b, show(m));
    CHECK(throws([&] { Cell::ToDouble(c); }) == (m.kind != 1 && m.kind != 2), show(m)); if (m.kind == 2) CHECK(Cell::ToDouble(c) == m.d, show(m)); if (m.kind == 1) CHECK(Cell::ToDouble(c) == (m.b ? 1 : 0), show(m));
    CHECK(throws([&] { Cell::ToInt(c); }) == !(isInt || m.kind == 1), show(m)); if (isInt) CHECK(Cell::ToInt(c) == (int)m.d, show(m)); if (m.kind == 1) CHECK(Cell::ToInt(c) == (m.b ? 1 : 0), show(m));
    CHECK(throws([&] { Cell::ToDate(c); }) == (m.kind != 3), show(m)); if (m.kind == 3) CHECK(Cell::ToDate(c) == civil::date(m.day), show(m));
    CHECK(throws([&] { Cell::ToDateTime(c); }) == (m.kind != 4), show(m));
    CHECK((Cell::ToDouble(Cell_(), 7.5) == 7.5) && Cell::ToInt(Cell_(""), 3) == 3, "defaults for empty cells");
    Cell_ a; a = m.b; CHECK(a == Cell_(m.b), "assign bool"); a = m.d; CHECK(a == Cell_(m.d), "assign double"); a = S(m.s); CHECK(a == S(m.s) && S(m.s) == a, "assign string"); a = (int)m.day; CHECK(Cell::ToInt(a) == m.day, "assign int");
    a = civil::date(m.day); CHECK(Cell::ToDate(a) == civil::date(m.day), "assign date"); a.Clear(); CHECK(Cell::IsEmpty(a), "clear");
    // text
    std::string t; if (m.kind == 1) t = m.b ? "TRUE" : "FALSE"; else if (m.kind == 2) { char b[400]; if (isInt) snprintf(b, 400, "%d", (int)m.d); else snprintf(b, 400, "%f", m.d); t = b; }
    else if (m.kind == 3) t = civil::iso(civil::fromDays(m.day)); else if (m.kind == 4) { char b[64]; snprintf(b, 64, "%s %02d:%02d:%02d", civil::iso(civil::fromDays(m.day)).c_str(), m.sec / 3600, m.sec / 60 % 60, m.sec % 60); t = b; } else if (m.kind == 5) t = m.s;
    CHECK(std_(Cell::ToString(c)) == t, show(m) << " prints as " << std_(Cell::ToString(c)) << " expected " << t);
    if (m.kind == 2) CHECK(std::strtod(std_(Cell::CoerceToString(c)).c_str(), nullptr) == m.d, show(m) << " coerces to " << std_(Cell::CoerceToString(c)));
    else CHECK(Cell::CoerceToString(c) == S(t), show(m) << " coerces to " << std_(Cell::CoerceToString(c)));
    { std::string w = g.chance(50) ? g.of<std::string>({"T", "F", "Y", "N", "Yes", "no", "on", "off", "TRU", "truth", "FALS", "falsey", "none", "null", "NA", "e", "E5", "x1", "-", "+", "/", ":", "1x", "1 2 x", "12:x", "2024-x"}) : "w" + m.s; Cell_ r = Cell::ConvertString(S(w)); CHECK(Cell::IsString(r) && r == S(w), "the text " << w << " is read as something else"); CHECK(Cell::ConvertString(S("")) == Cell_(), "no text is no value"); }
    if (m.kind != 5) {
        Cell_ r = Cell::ConvertString(Cell::CoerceToString(c));
        if (m.kind == 2) CHECK(Cell::IsDouble(r) && std::fabs(Cell::ToDouble(r) - m.d) <= 5.1e-7 + 1e-15 * std::fabs(m.d), show(m) << " reads back as " << std_(Cell::ToString(r)));
        else CHECK(r == c, show(m) << " reads back as " << std_(Cell::ToString(r)));
    }
}
SUB("dictionary", 100000, 1000000) {
    Dictionary_ dct; std::map<std::string, M> model; int n = g.n(0, 12);
    for (int k = 0; k < n; ++k) {
        static const std::vector<std::string> keys = {"a", "A", "a b", "A_B", "ab", "key one", "KEYONE", "x1", "X_1", "zz"};
        std::string key = g.chance(70) ? g.pick(keys) : "k" + std::to_string(g.n(0, 99)); M m = genM(g, true); std::string ck = cond(key);
        int op = g.n(0, 3);
        if (op <= 1) {
            if (model.count(ck)) { g.label("duplicate"); MUST_THROW(dct.Insert(S(key), cell(m)), key); }
            else { dct.Insert(S(key), cell(m)); model[ck] = m; }
        } else if (op == 2) {
            CHECK(dct.Has(S(key)) == (model.count(ck) > 0), key);
            if (model.count(ck)) CHECK(dct.At(S(key)) == cell(model[ck]), key);
            else { MUST_THROW(dct.At(S(key)), key); CHECK(Cell::IsEmpty(dct.At(S(key), true)), key); CHECK(dct.Size() == (int)model.size(), "a lookup must not insert"); }
        } else {
            auto f = [](const Cell_& c) { return Cell::IsDouble(c) ? Cell::ToDouble(c) : -1.0; };
            if (model.count(ck)) CHECK(Dictionary::Extract(dct, S(key), f, -2.0) == (model[ck].kind == 2 ? model[ck].d : -1.0), key);
            else { CHECK(Dictionary::Extract(dct, S(key), f, -2.0) == -2.0, key); MUST_THROW(Dictionary::Extract(dct, S(key), f), key); }
        }
    }
    CHECK(dct.Size() == (int)model.size(), "size");
    g.nontrivial(model.size() > 1);
    auto it = dct.begin(); for (auto& kv : model) { CHECK(std_(it->first) == kv.first && it->second == cell(kv.second), "iteration order at " << kv.first); ++it; }
    String_ txt = Dictionary::ToString(dct); SHOW(std_(txt));
    Dictionary_ back = Dictionary::FromString(txt);
    CHECK(back.Size() == dct.Size(), std_(txt));
    for (auto& kv : model) {
        const Cell_& c = back.At(S(kv.first)); const M& m = kv.second;
        if (m.kind == 2) CHECK(Cell::IsDouble(c) && Cell::ToDouble(c) == m.d, kv.first << " reads back as " << Cell::CoerceToString(c));
        else if (m.kind == 1) CHECK(Cell::CoerceToString(c) == Cell::CoerceToString(cell(m)), kv.first);      // booleans come back as the words true/false
        else CHECK(c == cell(m), kv.first << " in " << std_(txt));
    }
    CHECK(std_(Dictionary::ToString(back)) == std_(txt), "text is stable");
    MUST_THROW(Dictionary::FromString(S(std_(txt) + (model.empty() ? "" : ";") + "noequals")), "entry without '='");
    if (!model.empty()) MUST_THROW(Dictionary::FromString(S(std_(txt) + ";" + model.begin()->first + "=1")), "duplicate key");
    MUST_THROW(Dictionary::FromString(String_("a=b=c")), "two '='"); MUST_THROW(Dictionary::FromString(String_("=3")), "empty key");
}
SUB("handles", 30000, 300000) {   // objects kept under condensed names are found under any spelling, only as what they are
    std::map<String_, Handle_<Storable_>> hs; std::map<std::string, std::pair<const Storable_*, bool>> model; int n = g.n(0, 6); static const std::vector<std::string> keys = {"a", "A b", "curve_1", "CURVE 2", "usd ois", "x", "X_Y z", "ab"};
    for (int k = 0; k < n; ++k) { std::string key = g.pick(keys); if (model.count(cond(key))) continue; bool box = g.b(); Handle_<Storable_> h; if (box) h.reset(new Box_(String_("b"), Matrix_<Cell_>(1, 1))); else h.reset(new Bag_(String_("g"), std::multimap<String_, Handle_<Storable_>>())); hs[String::Condensed(S(key))] = h; model[cond(key)] = {h.get(), box}; }
    g.nontrivial(model.size() > 1);
    for (int k = 0; k < 4; ++k) { std::string key = mangle(g, g.pick(keys), true); auto it = model.find(cond(key)); SHOW(key);
        if (it == model.end()) { MUST_THROW(Dictionary::FindHandleBase(hs, S(key)), key); CHECK(!Dictionary::FindHandleBase(hs, S(key), true), "found an object under " << key); MUST_THROW(Dictionary::FindHandle<Box_>(hs, S(key)), key); }
        else { CHECK(Dictionary::FindHandleBase(hs, S(key), g.b()).get() == it->second.first, "another object under " << key); if (it->second.second) { CHECK(Dictionary::FindHandle<Box_>(hs, S(key)).get() == it->second.first, key); MUST_THROW(Dictionary::FindHandle<Bag_>(hs, S(key)), key); } else { CHECK(Dictionary::FindHandle<Bag_>(hs, S(key)).get() == it->second.first, key); MUST_THROW(Dictionary::FindHandle<Box_>(hs, S(key)), key); } } }
}
