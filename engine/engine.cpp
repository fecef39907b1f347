#include "engine.hpp"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <unordered_set>

#if defined(__SANITIZE_ADDRESS__)
#define PBT_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#endif
#if defined(__SANITIZE_THREAD__)
#define PBT_TSAN 1
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define PBT_TSAN 1
#endif
#endif
#ifdef PBT_TSAN
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:die_after_fork=0:report_signal_unsafe=0:exitcode=66:history_size=4"; }
extern "C" const char* __tsan_default_suppressions() { return "race:std::__exception_ptr\nrace:std::runtime_error::~runtime_error\nrace:std::logic_error::~logic_error\nrace:std::future_error::~future_error\nrace:std::bad_alloc::~bad_alloc\nrace:Dal::Exception_::~Exception_\nrace:__cxa_free_exception\nrace:__cxa_end_catch\nrace:std::rethrow_exception\n"   /* libstdc++ counts the references to an exception object without telling the sanitizer */; }
#endif
#ifdef PBT_ASAN
extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:symbolize=1"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:abort_on_error=1"; }
#endif

namespace pbt {

static const size_t SHM_CH = 1 << 16;
std::vector<Sub>& subs() { static std::vector<Sub> s; return s; }

static uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}
void G::seed(uint64_t x) { for (auto& v : s) v = splitmix(x); }
uint64_t G::raw() {
    auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
    const uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
}
uint64_t G::draw(uint64_t n) {
    if (replay) {
        if (pos >= choices.size()) { choices.push_back(0); }
        uint64_t v = choices[pos];
        if (n != 0 && v >= n) v = n - 1;
        choices[pos] = v;
        ++pos;
        return v;
    }
    uint64_t v = n == 0 ? raw() : static_cast<uint64_t>((static_cast<unsigned __int128>(raw()) * n) >> 64);
    choices.push_back(v);
    ++pos;
    if (shm && pos < SHM_CH) { shm[pos] = v; shm[0] = pos; }
    return v;
}
double G::u01() {
    // precision class first, so that shrinking reaches short binary fractions
    switch (draw(4)) {
    case 0: return static_cast<double>(draw(16)) / 16.0;
    case 1: return static_cast<double>(draw(1000)) / 1000.0;
    case 2: return static_cast<double>(draw(1u << 24)) / static_cast<double>(1u << 24);
    default: return static_cast<double>(draw(1ull << 53)) / 9007199254740992.0;
    }
}
double G::real(double lo, double hi) {
    switch (draw(8)) {
    case 0: return lo;
    case 1: return hi;
    case 2: if (lo <= 0 && hi >= 0) return 0.0; return lo;
    case 3: { double r = std::round(uni(lo, hi)); return std::min(hi, std::max(lo, r)); }
    default: return uni(lo, hi);
    }
}
double G::normalish() {
    double u = 0; for (int k = 0; k < 6; ++k) u += static_cast<double>(draw(1u << 20)) / static_cast<double>(1u << 20);
    return (u - 3.0) * std::sqrt(2.0);
}
std::string dbl(double x) { char b[64]; snprintf(b, sizeof b, "%.17g", x); return b; }

// ---------------------------------------------------------------------------------------------
struct Outcome { enum { PASS, FAIL, DISCARD } k = PASS; std::string msg; };

static Outcome runCase(const Sub& s, G& g) {
    try { s.fn(g); return {}; }
    catch (const Failure& f) { return {Outcome::FAIL, f.msg}; }
    catch (const Discard&) { return {Outcome::DISCARD, ""}; }
    catch (const std::exception& e) { return {Outcome::FAIL, std::string("unexpected exception: ") + e.what()}; }
    catch (...) { return {Outcome::FAIL, "unexpected exception of unknown type"}; }
}

static const int NSHARD = 8;
struct ShardState {
    volatile int sub; volatile uint64_t idx; volatile double started; volatile int failed; volatile uint64_t evals, discards, nontriv;
};
static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static uint64_t caseSeed(uint64_t seed, const std::string& sub, int shard, uint64_t idx) {
    uint64_t x = fnv(sub, fnv(PROPERTY)); x ^= seed * 0x9e3779b97f4a7c15ull; splitmix(x);
    x ^= (static_cast<uint64_t>(shard) << 56) ^ (idx * 0xd1342543de82ef95ull);
    return splitmix(x);
}
static uint64_t sig(const G& g, int sub) {
    if (g.sigHash) return g.sigHash * 31 + sub;
    uint64_t h = 1469598103934665603ull + sub;
    for (auto c : g.choices) { h ^= c; h *= 1099511628211ull; h ^= h >> 29; }
    return h;
}
static double HANG = 60.0;
static long cpuTicks(pid_t p) { std::ifstream f("/proc/" + std::to_string(p) + "/stat"); std::string l; std::getline(f, l); size_t k = l.rfind(')'); if (k == std::string::npos) return -1; std::istringstream is(l.substr(k + 2)); std::string w; long u = 0, v = 0; for (int i = 0; i < 11; ++i) is >> w; is >> u >> v; return u + v; }

// wait for a child that is expected to end within `secs` seconds; one that does not (a sanitizer stuck while reporting a crash) is ended
static void reap(pid_t c, int* st, double secs) { double t0 = now(); for (;;) { pid_t r = waitpid(c, st, WNOHANG); if (r == c || r < 0) return; if (now() - t0 > secs) { kill(c, SIGKILL); waitpid(c, st, 0); return; } usleep(200); } }

// run one case from a choice vector in a forked child. kind: 0 pass/discard, 1 fail, 2 crash, 3 hang
struct Trial { int kind; std::string msg; std::vector<uint64_t> norm; std::string notes; };
static Trial trial(int sub, const std::vector<uint64_t>& ch, bool verbose, double tmo, int tier, uint64_t* genSeed = nullptr) {
    int p[2]; if (pipe(p)) { perror("pipe"); _exit(3); }
    fflush(stdout); fflush(stderr);
    pid_t c = fork();
    if (c == 0) {
        ::close(p[0]);
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 1);
        if (!verbose) dup2(dn, 2); else dup2(p[1], 2);
        struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
        G g; g.tier = tier; g.verbose = verbose;
        if (genSeed) g.seed(*genSeed); else { g.replay = true; g.choices = ch; }
        Outcome o = runCase(subs()[sub], g);
        std::ostringstream out;
        out << "\n@@RESULT " << (o.k == Outcome::FAIL ? 1 : 0) << "\n" << g.pos << "\n";
        for (size_t k = 0; k < g.pos && k < g.choices.size(); ++k) out << g.choices[k] << " ";
        out << "\n" << o.msg.size() << "\n" << o.msg << g.notes.str();
        std::string s = out.str();
        size_t off = 0; while (off < s.size()) { ssize_t w = write(p[1], s.data() + off, s.size() - off); if (w <= 0) break; off += w; }
        ::close(p[1]); _exit(0);
    }
    ::close(p[1]);
    std::string buf; double t0 = now(); bool hang = false;
    while (true) {
        struct pollfd pf{p[0], POLLIN, 0};
        int r = poll(&pf, 1, 200);
        if (r > 0) { char b[65536]; ssize_t n = read(p[0], b, sizeof b); if (n <= 0) break; buf.append(b, n); }
        if (now() - t0 > tmo) { hang = true; kill(c, SIGKILL); break; }
    }
    ::close(p[0]);
    int st = 0; reap(c, &st, 20);
    Trial t; t.kind = 0;
    if (hang) { t.kind = 3; t.msg = "case did not terminate"; return t; }
    auto at = buf.rfind("\n@@RESULT ");
    if (at == std::string::npos || !WIFEXITED(st) || WEXITSTATUS(st) != 0) {
        t.kind = 2;
        std::ostringstream o; o << "crash: ";
        if (WIFSIGNALED(st)) o << "signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")"; else o << "exit " << WEXITSTATUS(st);
        // keep the sanitizer's summary lines
        std::istringstream is(buf); std::string l; int kept = 0;
        while (std::getline(is, l)) if ((l.find("ERROR: AddressSanitizer") != std::string::npos || l.find("WARNING: ThreadSanitizer") != std::string::npos || l.find("runtime error") != std::string::npos || (l.find("    #") == 0 && l.find("/repo/") != std::string::npos)) && kept++ < 6) o << " | " << l;
        t.msg = o.str(); return t;
    }
    std::istringstream is(buf.substr(at + 10)); int k; size_t n, m; is >> k >> n; t.norm.resize(n);
    for (auto& v : t.norm) is >> v;
    is >> m; is.get(); std::string rest((std::istreambuf_iterator<char>(is)), {});
    t.kind = k; t.msg = rest.substr(0, m); t.notes = rest.size() > m ? rest.substr(m) : "";
    return t;
}

static std::vector<uint64_t> shrink(int sub, std::vector<uint64_t> cur, int tier, double budget, int attemptsPer, double tmo) {
    double t0 = now();
    auto bad = [&](std::vector<uint64_t>& c) {
        for (int k = 0; k < attemptsPer; ++k) { Trial t = trial(sub, c, false, tmo, tier); if (t.kind) { if (!t.norm.empty() || t.kind == 1) c = t.norm; return true; } if (now() - t0 > budget) return false; }
        return false;
    };
    bool improved = true;
    while (improved && now() - t0 < budget) {
        improved = false;
        for (size_t len = std::max<size_t>(1, cur.size() / 2); len >= 1; len /= 2) {          // delete blocks
            for (size_t at = 0; at + len <= cur.size() && now() - t0 < budget;) {
                auto c = cur; c.erase(c.begin() + at, c.begin() + at + len);
                size_t before = cur.size();
                if (bad(c) && c.size() < before) { cur = c; improved = true; } else at += len;
            }
            if (len == 1) break;
        }
        for (size_t len = std::max<size_t>(1, cur.size() / 2); len >= 1; len /= 2) {          // zero blocks
            for (size_t at = 0; at + len <= cur.size() && now() - t0 < budget; at += len) {
                bool nz = false; for (size_t k = at; k < at + len; ++k) nz |= cur[k] != 0;
                if (!nz) continue;
                auto c = cur; std::fill(c.begin() + at, c.begin() + at + len, 0);
                if (bad(c) && c <= cur) { cur = c; improved = true; }
            }
            if (len == 1) break;
        }
        for (size_t k = 0; k < cur.size() && now() - t0 < budget; ++k) {                         // minimise values
            uint64_t lo = 0, hi = cur[k];
            while (lo < hi && now() - t0 < budget) {
                uint64_t mid = lo + (hi - lo) / 2; auto c = cur; c[k] = mid;
                if (bad(c) && c.size() <= cur.size() && k < c.size()) { cur = c; hi = std::min(mid, cur[k]); improved = true; } else lo = mid + 1;
                if (k >= cur.size()) break;
            }
        }
    }
    return cur;
}

// A failure that needs the process history: run cases 0..idx of this shard (from subcheck `from`) in one child.
static int historyTrial(int from, int q, int shard, uint64_t idx, uint64_t seed, int tier, const std::vector<uint64_t>& counts, std::string& msg) {
    int p[2]; if (pipe(p)) return 0;
    fflush(stdout); pid_t c = fork();
    if (c == 0) {
        ::close(p[0]); int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2);
        for (int s = from; s <= q; ++s)
            for (uint64_t k = 0; k < (s == q ? idx + 1 : counts[s]); ++k) {
                G g; g.tier = tier; g.seed(caseSeed(seed, subs()[s].name, shard, k));
                Outcome o = runCase(subs()[s], g);
                if (o.k == Outcome::FAIL) { if (write(p[1], o.msg.data(), std::min<size_t>(o.msg.size(), 4000)) < 0) _exit(77); _exit(77); }
            }
        _exit(0);
    }
    ::close(p[1]); std::string buf; double t0 = now();
    for (;;) { struct pollfd pf{p[0], POLLIN, 0}; int r = poll(&pf, 1, 200); if (r > 0) { char b[4096]; ssize_t n = read(p[0], b, sizeof b); if (n <= 0) break; buf.append(b, n); } if (now() - t0 > 120) { kill(c, SIGKILL); ::close(p[0]); int st; waitpid(c, &st, 0); return 0; } }
    ::close(p[0]); int st = 0; reap(c, &st, 20);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    msg = WIFSIGNALED(st) ? std::string("crash: signal ") + std::to_string(WTERMSIG(st)) : buf;
    return 1;
}

static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

static int doReplay(const std::string& path, int tier) {
    std::ifstream f(path); std::string hist, name; std::vector<uint64_t> ch; std::string l;
    while (std::getline(f, l)) {
        if (l.rfind("sub: ", 0) == 0) name = l.substr(5);
        else if (l.rfind("tier: ", 0) == 0) tier = l.substr(6) == "thorough";
        else if (l.rfind("history: ", 0) == 0) hist = l.substr(9);
        else if (l.rfind("choices: ", 0) == 0) { std::istringstream is(l.substr(9)); uint64_t v; while (is >> v) ch.push_back(v); }
    }
    if (!hist.empty()) {
        std::istringstream is(hist); uint64_t sd, idx; int sh, from, q; is >> sd >> sh >> from >> q >> idx;
        std::vector<uint64_t> counts; for (auto& x : subs()) { uint64_t t = tier ? x.thorough : x.quick; counts.push_back(t / NSHARD + (uint64_t(sh) < t % NSHARD)); }
        std::string msg; if (historyTrial(from, q, sh, idx, sd, tier, counts, msg)) { std::cout << "REPRODUCED " << PROPERTY << "/" << name << ": " << msg << std::endl; return 1; }
        std::cout << "not reproduced" << std::endl; return 0;
    }
    for (size_t k = 0; k < subs().size(); ++k) if (subs()[k].name == name) {
        int n = subs()[k].concurrent ? 200 : 1;
        for (int a = 0; a < n; ++a) {
            Trial t = trial((int)k, ch, true, HANG, tier);
            if (t.kind) { std::cout << "REPRODUCED " << PROPERTY << "/" << name << ": " << t.msg << "\n" << t.notes << std::endl; return 1; }
            if (a == n - 1) std::cout << "not reproduced " << PROPERTY << "/" << name << "\n" << t.notes << std::endl;
        }
        return 0;
    }
    std::cout << "unknown subcheck " << name << std::endl; return 0;
}

} // namespace pbt
using namespace pbt;

int main(int argc, char** argv) {
    uint64_t seed = 1; int tier = 0; std::string evidence, replayDir = ".", replay, only; double scale = 1.0; bool list = false;
    for (int k = 1; k < argc; ++k) {
        std::string a = argv[k]; auto nx = [&] { return std::string(k + 1 < argc ? argv[++k] : ""); };
        if (a == "--seed") seed = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--tier") tier = nx() == "thorough";
        else if (a == "--evidence") evidence = nx();
        else if (a == "--replay-dir") replayDir = nx();
        else if (a == "--replay") replay = nx();
        else if (a == "--only") only = nx();
        else if (a == "--scale") scale = atof(nx().c_str());
        else if (a == "--hang") HANG = atof(nx().c_str());
        else if (a == "--list") list = true;
    }
    if (list) { for (auto& s : subs()) std::cout << s.name << " " << s.quick << " " << s.thorough << "\n"; return 0; }
    globalInit();
    if (!replay.empty()) return doReplay(replay, tier);
    double t0 = now();
    auto* shm = static_cast<volatile uint64_t*>(mmap(nullptr, sizeof(uint64_t) * SHM_CH * NSHARD, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    auto* st = static_cast<ShardState*>(mmap(nullptr, sizeof(ShardState) * NSHARD, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    memset(st, 0, sizeof(ShardState) * NSHARD);
    char tmpl[] = "/tmp/pbtXXXXXX"; std::string dir = mkdtemp(tmpl) ? tmpl : "/tmp";
    auto casesFor = [&](const Sub& s) {
        double n = (tier ? s.thorough : s.quick) * scale; if (!only.empty() && s.name.find(only) == std::string::npos) n = 0;
        return static_cast<uint64_t>(std::max(n, 0.0));
    };
    fflush(stdout);
    pid_t pids[NSHARD];
    for (int sh = 0; sh < NSHARD; ++sh) {
        pids[sh] = fork();
        if (pids[sh]) continue;
        int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); int de = open((dir + "/e" + std::to_string(sh)).c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600); dup2(de >= 0 ? de : dn, 2);
        struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
        std::ofstream res(dir + "/s" + std::to_string(sh));
        std::unordered_set<uint64_t> seen;
        std::map<std::string, uint64_t> labels;
        bool failed = false;
        for (size_t q = 0; q < subs().size() && !failed; ++q) {
            const Sub& s = subs()[q]; uint64_t total = casesFor(s), mine = total / NSHARD + (uint64_t(sh) < total % NSHARD);
            seen.clear(); labels.clear(); uint64_t ev = 0, nt = 0, dc = 0; std::vector<uint64_t> samp; double ts = now();
            for (uint64_t k = 0; k < mine; ++k) {
                st[sh].sub = (int)q; st[sh].idx = k; st[sh].started = now();
                G g; g.tier = tier; g.labels = &labels; g.shm = shm + size_t(sh) * SHM_CH; g.shm[0] = 0; g.seed(caseSeed(seed, s.name, sh, k));
                Outcome o = runCase(s, g);
                ++ev; st[sh].evals = st[sh].evals + 1;
                if (o.k == Outcome::FAIL) { st[sh].failed = 1; failed = true; std::cerr << o.msg << std::endl; break; }
                if (o.k == Outcome::DISCARD) { ++dc; continue; }
                if (g.nontrivial_) { if (seen.insert(sig(g, (int)q)).second) ++nt; if (samp.size() < 2) samp.push_back(k); }
            }
            res << "S " << q << " " << ev << " " << nt << " " << dc << " " << (now() - ts) << "\n";
            for (auto& l : labels) res << "L " << q << " " << l.second << " " << l.first << "\n";
            for (auto k : samp) res << "X " << q << " " << k << "\n";
            for (auto h : seen) res << "H " << q << " " << h << "\n";
        }
        res.close(); st[sh].started = 0;
        _exit(failed ? 77 : 0);
    }
    bool idle[NSHARD] = {}; double stuckAt[NSHARD] = {}, lookAt[NSHARD] = {}; long ticksAt[NSHARD] = {};
    bool done[NSHARD] = {}; int left = NSHARD; struct Bad { int shard, kind; }; std::vector<Bad> bads; double firstBad = 0;
    while (left) {
        for (int sh = 0; sh < NSHARD; ++sh) {
            if (done[sh]) continue;
            int s; pid_t r = waitpid(pids[sh], &s, WNOHANG);
            if (r == pids[sh]) {
                done[sh] = true; --left;
                if (WIFEXITED(s) && WEXITSTATUS(s) == 0) continue;
                bads.push_back({sh, WIFEXITED(s) && WEXITSTATUS(s) == 77 ? 1 : 2}); if (!firstBad) firstBad = now();
            } else if (st[sh].started > 0 && now() - st[sh].started > HANG) {
                // starved or stuck? a process that gets some processor time is given more of it
                if (stuckAt[sh] != st[sh].started) { stuckAt[sh] = st[sh].started; ticksAt[sh] = cpuTicks(pids[sh]); lookAt[sh] = now(); idle[sh] = false; continue; }
                if (now() - lookAt[sh] < 6) continue;
                long tk = cpuTicks(pids[sh]); idle[sh] = tk == ticksAt[sh];
                if (!idle[sh] && now() - st[sh].started < 3 * HANG) { ticksAt[sh] = tk; lookAt[sh] = now(); continue; }
                kill(pids[sh], SIGKILL); waitpid(pids[sh], &s, 0); done[sh] = true; --left; bads.push_back({sh, 3}); if (!firstBad) firstBad = now();
            }
        }
        if (firstBad && now() - firstBad > 3.0) {      // a failure is known: stop the others soon
            for (int sh = 0; sh < NSHARD; ++sh) if (!done[sh]) { kill(pids[sh], SIGKILL); int s; waitpid(pids[sh], &s, 0); done[sh] = true; --left; }
        }
        usleep(20000);
    }
    std::string said[NSHARD];
    // ---- aggregate
    struct Agg { uint64_t ev = 0, dc = 0; double secs = 0; std::unordered_set<uint64_t> seen; std::map<std::string, uint64_t> labels; std::vector<std::pair<int, uint64_t>> samp; };
    std::vector<Agg> agg(subs().size());
    for (int sh = 0; sh < NSHARD; ++sh) {
        std::ifstream f(dir + "/s" + std::to_string(sh)); std::string l;
        while (std::getline(f, l)) {
            std::istringstream is(l); char c; size_t q; is >> c >> q; if (!is || q >= agg.size()) continue;
            if (c == 'S') { uint64_t a, b, d; double t; is >> a >> b >> d >> t; agg[q].ev += a; agg[q].dc += d; agg[q].secs += t; }
            else if (c == 'L') { uint64_t n; is >> n; std::string nm; is.get(); std::getline(is, nm); agg[q].labels[nm] += n; }
            else if (c == 'X') { uint64_t k; is >> k; agg[q].samp.emplace_back(sh, k); }
            else if (c == 'H') { uint64_t h; is >> h; agg[q].seen.insert(h); }
        }
        unlink((dir + "/s" + std::to_string(sh)).c_str());
        { std::ifstream e(dir + "/e" + std::to_string(sh)); std::stringstream b; b << e.rdbuf(); said[sh] = b.str().substr(0, 3000); unlink((dir + "/e" + std::to_string(sh)).c_str()); }
    }
    rmdir(dir.c_str());
    uint64_t ev = 0, nt = 0; for (auto& a : agg) { ev += a.ev; nt += a.seen.size(); }
    // ---- judge failures
    int violations = 0, unconfirmed = 0; std::string violMsg, violReplay, violNotes, violSub;
    std::sort(bads.begin(), bads.end(), [&](const Bad& a, const Bad& b) { return a.kind < b.kind; });
    double judgeT0 = now();
    for (auto& b : bads) {
        if (violations || now() - judgeT0 > 300) break;
        int q = st[b.shard].sub; const Sub& s = subs()[q];
        volatile uint64_t* sm = shm + size_t(b.shard) * SHM_CH;
        std::vector<uint64_t> ch; for (uint64_t k = 1; k <= sm[0]; ++k) ch.push_back(static_cast<uint64_t>(sm[k]));
        double tmo = b.kind == 3 ? HANG : 30;
        Trial f{0, "", {}, ""};
        int tries = s.concurrent ? 300 : 1;
        for (int a = 0; a < tries && !f.kind && now() - judgeT0 < 200; ++a) f = trial(q, ch, false, tmo, tier);
        if (!f.kind && !s.concurrent && b.kind != 3) {
            // not reproduced alone: does the history of this shard reproduce it?
            std::vector<uint64_t> counts; for (auto& x : subs()) { uint64_t t = casesFor(x); counts.push_back(t / NSHARD + (uint64_t(b.shard) < t % NSHARD)); }
            int from = q, rep = 0; std::string msg; uint64_t idx = st[b.shard].idx;
            if (!historyTrial(q, q, b.shard, idx, seed, tier, counts, msg)) from = 0;
            for (int a = 0; a < 3; ++a) { if (historyTrial(from, q, b.shard, idx, seed, tier, counts, msg)) ++rep; else break; }
            if (rep == 3) {
                violations = 1; violMsg = "(needs the preceding cases of the run) " + msg; violSub = s.name;
                violReplay = replayDir + "/" + PROPERTY + "-" + s.name + ".replay";
                std::ofstream o(violReplay);
                o << "property: " << PROPERTY << "\nsub: " << s.name << "\ntier: " << (tier ? "thorough" : "quick") << "\nmessage: " << jstr(violMsg)
                  << "\nhistory: " << seed << " " << b.shard << " " << from << " " << q << " " << idx << "\n";
                continue;
            }
        }
        if (!f.kind && !s.concurrent) { ++unconfirmed; std::cout << "UNCONFIRMED (not reproduced in a fresh process) " << PROPERTY << "/" << s.name << " kind " << b.kind << std::endl; continue; }
        std::vector<uint64_t> mn = ch;
        if (f.kind && f.kind != 3) mn = shrink(q, f.kind == 1 ? f.norm : ch, tier, s.concurrent ? 60 : 45, s.concurrent ? 20 : 1, tmo);
        int rep = 0; Trial last{0, "", {}, ""};
        auto confirm = [&](const std::vector<uint64_t>& c) {
            rep = 0;
            for (int a = 0; a < 3; ++a) {
                Trial t = trial(q, c, true, tmo, tier);
                for (int x = 0; s.concurrent && x < 100 && !t.kind; ++x) t = trial(q, c, true, tmo, tier);
                if (t.kind) { ++rep; last = t; } else break;
                if (t.kind == 3 && a == 1) { rep = 3; break; }
            }
        };
        confirm(mn);
        if (rep < 3) { mn = ch; confirm(mn); }
        if (rep < 3 && !s.concurrent) { ++unconfirmed; std::cout << "UNCONFIRMED (unstable) " << PROPERTY << "/" << s.name << std::endl; continue; }
        if (rep == 0 && !f.kind && b.kind == 3 && !idle[b.shard]) { ++unconfirmed; std::cout << "UNCONFIRMED (slow, not stuck) " << PROPERTY << "/" << s.name << std::endl; continue; }
        if (rep == 0) { last = f; if (last.msg.empty()) last.msg = b.kind == 3 ? "no thread makes progress (observed once, under concurrency)" : "failure observed once, under concurrency: " + said[b.shard]; }
        violations = 1; violMsg = last.msg; violNotes = last.notes; violSub = s.name;
        violReplay = replayDir + "/" + PROPERTY + "-" + s.name + ".replay";
        std::ofstream o(violReplay);
        o << "property: " << PROPERTY << "\nsub: " << s.name << "\ntier: " << (tier ? "thorough" : "quick") << "\nseed: " << seed
          << "\nmessage: " << jstr(violMsg) << "\ncase: " << jstr(violNotes) << "\nchoices: ";
        for (auto v : mn) o << v << " ";
        o << "\n";
    }
    // ---- samples: rerun a few non-trivial cases verbosely
    std::vector<std::string> samples;
    for (size_t q = 0; q < subs().size(); ++q) {
        size_t k = 0;
        for (auto& x : agg[q].samp) {
            if (k++ >= 2 || samples.size() >= 24) break;
            uint64_t cs = caseSeed(seed, subs()[q].name, x.first, x.second);
            Trial t = trial((int)q, {}, true, HANG, tier, &cs);
            std::string n = t.notes; if (n.size() > 400) n = n.substr(0, 400) + "...";
            samples.push_back(subs()[q].name + ": " + n);
        }
    }
    if (!evidence.empty()) {
        std::ofstream o(evidence); o.precision(6);
        o << "{\n \"property\": " << jstr(PROPERTY) << ",\n \"tier\": \"" << (tier ? "thorough" : "quick") << "\",\n \"seed\": " << seed
          << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << ev << ",\n  \"distinct_nontrivial\": " << nt << ",\n  \"rule\": " << jstr(RULE)
          << ",\n  \"samples\": [";
        for (size_t k = 0; k < samples.size(); ++k) o << (k ? ", " : "") << "\n   " << jstr(samples[k]);
        o << "],\n  \"subchecks\": {";
        bool f1 = true;
        for (size_t q = 0; q < subs().size(); ++q) {
            o << (f1 ? "" : ",") << "\n   " << jstr(subs()[q].name) << ": {\"evaluations\": " << agg[q].ev << ", \"distinct_nontrivial\": " << agg[q].seen.size()
              << ", \"discarded\": " << agg[q].dc << ", \"cpu_s\": " << agg[q].secs << ", \"classes\": {"; f1 = false;
            bool f2 = true; for (auto& l : agg[q].labels) { o << (f2 ? "" : ", ") << jstr(l.first) << ": " << l.second; f2 = false; }
            o << "}}";
        }
        o << "}\n },\n \"assumptions\": [";
        for (size_t k = 0; k < ASSUMPTIONS.size(); ++k) o << (k ? ", " : "") << jstr(ASSUMPTIONS[k]);
        o << "],\n \"wall_s\": " << (now() - t0) << ",\n \"violations\": " << violations << "\n}\n";
    }
    std::cout << PROPERTY << " tier=" << (tier ? "thorough" : "quick") << " seed=" << seed << " cases=" << ev << " distinct_nontrivial=" << nt
              << " wall=" << (now() - t0) << "s" << std::endl;
    if (violations) {
        std::cout << "  " << violSub << ": " << violMsg << "\n  case: " << violNotes << std::endl;
        std::cout << "VIOLATION property=" << PROPERTY << " replay=" << violReplay << std::endl;
        return 1;
    }
    return 0;
}
