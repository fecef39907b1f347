// Choice-sequence property-based testing engine.
// Every random decision of a case is drawn from G and recorded as a bounded integer; a failing case is shrunk by
// editing that sequence and is replayed from it. A case is a pure function of (code, property, subcheck, sequence).
#pragma once
#include <cmath>
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>
#include <limits>

namespace pbt {

struct Failure { std::string msg; };   // deliberately not a std::exception
struct Discard {};                      // case outside the domain (counted)

class G {
public:
    // --- engine side
    bool replay = false;
    bool verbose = false;
    std::vector<uint64_t> choices;      // recorded (or being replayed)
    size_t pos = 0;
    uint64_t s[4];
    bool nontrivial_ = false;
    std::map<std::string, uint64_t>* labels = nullptr;
    std::ostringstream notes;
    int tier = 0;                       // 0 quick, 1 thorough
    uint64_t sigHash = 0;               // optional case signature (0: hash of the choices)
    volatile uint64_t* shm = nullptr;   // shm[0] = count, then the choices: survives a crash of the process

    void seed(uint64_t x);
    uint64_t raw();
    uint64_t draw(uint64_t n);          // uniform on [0, n); 0 is the simplest; n == 0 means 2^64

    // --- property side
    int64_t i(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo) + 1)); }
    int n(int lo, int hi) { return static_cast<int>(i(lo, hi)); }
    bool b() { return draw(2) == 1; }
    bool chance(int percent) { return draw(100) >= static_cast<uint64_t>(100 - percent); }  // shrinks to false
    double u01();                       // [0,1), shrinks towards dyadic / zero
    double real(double lo, double hi);  // mixture: end points, round numbers, uniform
    double uni(double lo, double hi) { return lo + (hi - lo) * u01(); }
    double logUni(double lo, double hi) { return std::min(hi, std::max(lo, std::exp(std::log(lo) + (std::log(hi) - std::log(lo)) * u01()))); }
    double normalish();                 // roughly N(0,1)
    template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
    template <class T> T of(std::initializer_list<T> l) { auto k = draw(l.size()); return *(l.begin() + k); }
    template <class T> void shuffle(std::vector<T>& v) {
        for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[k - 1 - draw(k)]);
    }
    void nontrivial(bool yes = true) { if (yes) nontrivial_ = true; }
    void label(const std::string& l) { if (labels) ++(*labels)[l]; }
    [[noreturn]] void fail(const std::string& m) { throw Failure{m}; }
    [[noreturn]] void discard() { throw Discard{}; }
};

using Fn = std::function<void(G&)>;
struct Sub { std::string name; int quick; int thorough; Fn fn; bool concurrent; };
std::vector<Sub>& subs();
struct Reg { Reg(const char* n, int q, int t, Fn f, bool conc = false) { subs().push_back(Sub{n, q, t, std::move(f), conc}); } };

std::string dbl(double x);              // shortest exact form
template <class T> std::string str(const T& x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }
inline std::string str(bool b) { return b ? "true" : "false"; }
template <class V> std::string vec(const V& v) {
    std::ostringstream o; o.precision(17); o << "[";
    bool first = true; for (auto&& x : v) { if (!first) o << ", "; o << x; first = false; } o << "]"; return o.str();
}
// |a-b| <= abs + rel*max(|a|,|b|); two NaNs are different, equal infinities equal
inline bool close(double a, double b, double rel, double absTol = 0.0) {
    if (a == b) return true;
    if (std::isnan(a) || std::isnan(b) || std::isinf(a) || std::isinf(b)) return false;
    return std::fabs(a - b) <= absTol + rel * std::max(std::fabs(a), std::fabs(b));
}
inline bool bitsame(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

extern const char* PROPERTY;
extern const char* RULE;                // how cases are made, what makes one non-trivial
extern std::vector<std::string> ASSUMPTIONS;
void globalInit();                      // defined by each property (once, before forking)

} // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define SUB(name, quick, thorough) \
    static void PBT_CAT(sub_, __LINE__)(pbt::G& g); \
    static pbt::Reg PBT_CAT(reg_, __LINE__)(name, quick, thorough, PBT_CAT(sub_, __LINE__)); \
    static void PBT_CAT(sub_, __LINE__)([[maybe_unused]] pbt::G& g)
#define SUB_CONC(name, quick, thorough) \
    static void PBT_CAT(sub_, __LINE__)(pbt::G& g); \
    static pbt::Reg PBT_CAT(reg_, __LINE__)(name, quick, thorough, PBT_CAT(sub_, __LINE__), true); \
    static void PBT_CAT(sub_, __LINE__)([[maybe_unused]] pbt::G& g)
#define SHOW(stream) do { if (g.verbose) { g.notes << std::setprecision(17) << stream << "; "; } } while (0)
#define CHECK(cond, stream) do { if (!(cond)) { std::ostringstream o_; o_.precision(17); o_ << stream; \
    throw pbt::Failure{std::string(#cond) + " -- " + o_.str()}; } } while (0)
#define PROPERTY_DEF(id, rule) namespace pbt { const char* PROPERTY = id; const char* RULE = rule; }
// runs an expression that must throw some std::exception
#define MUST_THROW(expr, stream) do { bool t_ = false; try { (void)(expr); } catch (const std::exception&) { t_ = true; } \
    if (!t_) { std::ostringstream o_; o_.precision(17); o_ << stream; throw pbt::Failure{std::string("expected an exception: ") + #expr + " -- " + o_.str()}; } } while (0)
#include <iomanip>
