#include "scriptdal.hpp"
#include <dal/math/aad/aad.hpp>
#include <dal/script/simulation.hpp>
#include <dal/concurrency/threadpool.hpp>
#include <dal/concurrency/concurrentqueue.hpp>
#include <atomic>
#include <thread>
#include <unistd.h>
#include <signal.h>
#include <sys/syscall.h>
using namespace Dal; using namespace Dal::Script; using Dal::AAD::Number_; using Dal::AAD::Tape_;
PROPERTY_DEF("P27", "Random task graphs (nested spawning, waits in any order, exceptions, bursts) on pools of one to eight threads with random restarts, random producers and consumers on a queue, and Monte Carlo runs in several batches, executed under the thread sanitizer; every task must run exactly once, every wait return, every result or exception arrive, and no two threads race. Non-trivial: at least two threads and eight tasks or elements.")
static volatile bool INIT = true;
extern "C" void __tsan_on_report(void*) { if (!INIT) return; static const char m[] = "VIOLATION property=P27 replay=/verif/replays/P27-stop.replay\nstopping the pool races with its threads\n"; (void)!syscall(SYS_write, 1, m, sizeof m - 1); syscall(SYS_exit_group, 1); }
static void stuck(int) { static const char m[] = "VIOLATION property=P27 replay=/verif/replays/P27-stop.replay\nstopping the pool does not return\n"; (void)!syscall(SYS_write, 1, m, sizeof m - 1); syscall(SYS_exit_group, 1); }
namespace pbt { std::vector<std::string> ASSUMPTIONS = {"the pool is started and stopped by one thread at a time", "schedules are those the machine produces under load, with random pauses; they are not enumerated"}; void globalInit() { if (FILE* f = fopen("/verif/replays/P27-stop.replay", "w")) { fputs("property: P27\nsub: stop\nmessage: stopping the pool does not return\n", f); fclose(f); } signal(SIGALRM, stuck); alarm(120); ThreadPool_::GetInstance()->Stop(); alarm(0); INIT = false; unlink("/verif/replays/P27-stop.replay"); } }
static ThreadPool_* pool() { return ThreadPool_::GetInstance(); }
static size_t cap(size_t n) { size_t h = std::thread::hardware_concurrency(); return n <= 0 || n > h ? h : n; }
static size_t start(pbt::G& g) { size_t n = (size_t)g.n(1, 8); SHOW(n << " threads"); pool()->Start(n, true); CHECK(pool()->NumThreads() == cap(n), "the pool has " << pool()->NumThreads() << " threads, expected " << cap(n)); return cap(n); }
static void pause(int k) { if (k == 1) std::this_thread::yield(); else if (k > 1) std::this_thread::sleep_for(std::chrono::microseconds(k * 20)); }
SUB_CONC("tasks", 700, 20000) {
    size_t n = start(g); int rounds = g.n(1, 3); for (int r = 0; r < rounds; ++r) { int m = g.n(1, 60), slow = g.chance(30) ? g.n(1, 5) : 0; std::vector<int> plain(m, 0), who(m, -1); std::vector<std::atomic<int>> runs(m), busy(n); for (auto& x : runs) x = 0; for (auto& x : busy) x = 0; std::atomic<int> wrong(0), mine(0); std::vector<int> fate(m); for (int& f : fate) f = g.chance(10) ? g.n(2, 6) : g.chance(20) ? 1 : 0; SHOW(m << " tasks, pace " << slow); g.nontrivial(n > 1 && m >= 8); std::vector<TaskHandle_> h; std::vector<int> order;
        for (int i = 0; i < m; ++i) { order.push_back(i); h.push_back(pool()->SpawnTask([&, i]() { size_t t = ThreadPool_::ThreadNum(); if (t == 0) ++mine; if (t >= n) { ++wrong; } else { if (busy[t]++) ++wrong; } pause(slow); plain[i] = i + 1; who[i] = (int)t; ++runs[i]; if (t < n) --busy[t]; switch (fate[i]) { case 2: throw std::runtime_error("task " + std::to_string(i)); case 3: throw std::bad_alloc(); case 4: throw i; case 5: throw Exception_("f", 1, "g", "task " + std::to_string(i)); case 6: throw std::future_error(std::future_errc::no_state); default: break; } return fate[i] == 0; })); } if (g.b()) g.shuffle(order); else if (g.b()) std::reverse(order.begin(), order.end());
        for (int i : order) { int before = mine; bool ran = pool()->ActiveWait(h[i]); CHECK(ran == (mine > before), "the wait says it ran " << (ran ? "some" : "no") << " tasks, it ran " << mine - before); CHECK(runs[i] == 1, "task " << i << " ran " << runs[i] << " times when its wait returned"); bool ok = false; int kind = 0; std::string err; try { ok = h[i].get(); } catch (int k) { kind = k == i ? 4 : -1; } catch (const std::bad_alloc&) { kind = 3; } catch (const std::future_error&) { kind = 6; } catch (const Exception_& e) { kind = 5; err = e.what(); } catch (const std::exception& e) { kind = 2; err = e.what(); } CHECK(fate[i] >= 2 ? kind == fate[i] && (kind == 2 ? err == "task " + std::to_string(i) : kind == 5 ? err.find("task " + std::to_string(i)) != std::string::npos : true) : kind == 0 && ok == (fate[i] == 0), "task " << i << " delivered " << ok << " kind " << kind << " of " << fate[i] << " '" << err << "'"); CHECK(plain[i] == i + 1, "what task " << i << " wrote is not seen"); }
        for (int i = 0; i < m; ++i) CHECK(runs[i] == 1 && who[i] >= 0 && who[i] < (int)n, "task " << i << " ran " << runs[i] << " times, last on thread " << who[i]); CHECK(wrong == 0, "a thread number was shared by running tasks or out of range"); CHECK(ThreadPool_::ThreadNum() == 0, "the caller's number is " << ThreadPool_::ThreadNum()); }
}
SUB_CONC("nested", 300, 8000) {   // tasks that spawn tasks and wait for them
    size_t n = start(g); int depth = g.n(1, 3), wide = g.n(1, 4), slow = g.chance(30) ? g.n(1, 3) : 0; SHOW("depth " << depth << " width " << wide); std::atomic<int> count(0); int all = 0, lvl = 1; for (int i = 0; i < depth; ++i) { lvl *= wide; all += lvl; } g.nontrivial(n > 1 && all >= 8); std::function<bool(int)> go = [&](int d) { pause(slow); if (d == 0) return true; std::vector<TaskHandle_> h; for (int i = 0; i < wide; ++i) h.push_back(pool()->SpawnTask([&, d]() { ++count; return go(d - 1); })); bool ok = true; for (auto& x : h) { pool()->ActiveWait(x); ok = x.get() && ok; } return ok; }; CHECK(go(depth) && count == all, count << " tasks ran, expected " << all);
}
SUB_CONC("meetings", 250, 6000) {   // as many tasks as idle threads run side by side: each waits for all the others
    size_t n = start(g); int rounds = g.n(1, 4); for (int r = 0; r < rounds; ++r) { int k = g.n(1, (int)n); bool me = k == (int)n; SHOW(k << " tasks meet on " << n << " threads"); g.nontrivial(k > 1); std::atomic<int> here(0); std::atomic<bool> off(false); std::vector<TaskHandle_> h; pause(g.n(0, 3)); for (int i = 0; i < k; ++i) { if (g.chance(20)) pause(g.n(1, 3)); h.push_back(pool()->SpawnTask([&, k] { ++here; auto t0 = std::chrono::steady_clock::now(); while (here < k && !off) { std::this_thread::sleep_for(std::chrono::microseconds(50)); if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(10)) { off = true; return false; } } return !off.load(); })); } bool met = true; if (me) for (auto& x : h) pool()->ActiveWait(x); for (auto& x : h) met = x.get() && met; CHECK(met, "of " << k << " tasks that wait for each other only " << here << " were running on " << n << " threads"); }
}
SUB_CONC("queue-meetings", 250, 6000) {   // every waiting consumer is woken by an element of its own
    int n = g.n(1, 6); SHOW(n << " consumers"); g.nontrivial(n > 1); ConcurrentQueue_<int> q; std::atomic<int> here(0), late(0); std::vector<std::thread> t; for (int i = 0; i < n; ++i) t.emplace_back([&] { int x; if (!q.Pop(x)) return; ++here; auto t0 = std::chrono::steady_clock::now(); while (here < n && !late) { std::this_thread::sleep_for(std::chrono::microseconds(50)); if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(10)) ++late; } }); pause(g.n(0, 20)); for (int i = 0; i < n; ++i) { if (g.chance(20)) pause(1); q.Push(i); } for (auto& x : t) { while (late == 0 && here < n) std::this_thread::sleep_for(std::chrono::microseconds(50)); if (late) q.Interrupt(); x.join(); } CHECK(late == 0, "of " << n << " waiting consumers only " << here << " got one of " << n << " elements");
}
SUB_CONC("restarts", 150, 4000) {   // stopping gives up queued tasks visibly; the pool works again afterwards
    int k = g.n(1, 5); for (int r = 0; r < k; ++r) { size_t n = start(g); int m = g.n(0, 30); std::atomic<int> done(0); std::vector<TaskHandle_> h; for (int i = 0; i < m; ++i) h.push_back(pool()->SpawnTask([&]() { pause(2); ++done; return true; })); bool wait = g.b(), stop = g.b(); if (n > 1 && g.chance(30)) { SHOW("left to the workers"); for (auto& x : h) CHECK(x.wait_for(std::chrono::seconds(20)) == std::future_status::ready, "no worker takes a task"); wait = true; } g.nontrivial(n > 1 && m >= 8); SHOW(m << (wait ? " waited for" : " abandoned") << (stop ? ", stopped" : ", restarted")); if (wait) for (auto& x : h) pool()->ActiveWait(x); if (stop) { pool()->Stop(); CHECK(pool()->NumThreads() == 1, "threads are left after stopping"); if (g.b()) pool()->Stop(); } else pool()->Start((size_t)g.n(1, 8), true); int fine = 0, broken = 0; for (auto& x : h) { CHECK(x.wait_for(std::chrono::seconds(20)) == std::future_status::ready, "a task given up is never reported"); try { x.get(); ++fine; } catch (const std::future_error&) { ++broken; } } CHECK(fine == done && fine + broken == m && (!wait || fine == m), fine << " tasks finished, " << broken << " given up, " << done << " ran, of " << m); if (g.chance(30)) { size_t before = pool()->NumThreads(); bool on = !stop; pool()->Start(3, false); CHECK(pool()->NumThreads() == (on ? before : cap(3)), "starting without restart gives " << pool()->NumThreads() << " threads"); } }
}
SUB("queue-model", 10000, 200000) {
    ConcurrentQueue_<int> q; std::deque<int> m; bool stop = false; int n = g.n(1, 30), next = 0; g.nontrivial(n >= 8); for (int i = 0; i < n; ++i) { int x = -1; switch (g.n(0, 6)) { case 0: case 1: case 2: q.Push(++next); m.push_back(next); SHOW("push"); break; case 3: { SHOW("try"); bool ok = q.TryPop(x); CHECK(ok == !m.empty(), "TryPop gives " << ok << " on " << m.size() << " elements"); if (ok) { CHECK(x == m.front(), "popped " << x << ", expected " << m.front()); m.pop_front(); } break; } case 4: if (!m.empty() || stop) { SHOW("pop"); bool ok = q.Pop(x); CHECK(ok == !stop, "Pop gives " << ok); if (ok) { CHECK(x == m.front(), "popped " << x << ", expected " << m.front()); m.pop_front(); } } break; case 5: SHOW("interrupt/reset"); if (stop) q.ResetInterrupt(); else q.Interrupt(); stop = !stop; break; case 6: if (g.chance(20)) { SHOW("clear"); q.Clear(); m.clear(); } break; } CHECK(q.Empty() == m.empty(), "Empty() is " << q.Empty()); }
}
SUB_CONC("queue-threads", 400, 12000) {
    int np = g.n(1, 4), nc = g.n(1, 4), each = g.n(1, 80); bool tries = g.chance(30); SHOW(np << " producers of " << each << ", " << nc << " consumers"); g.nontrivial(np + nc > 2 && np * each >= 8); ConcurrentQueue_<std::unique_ptr<std::pair<int, int>>> q; std::vector<std::vector<std::pair<int, int>>> got(nc); std::atomic<int> left(np * each); std::vector<std::thread> t; for (int c = 0; c < nc; ++c) t.emplace_back([&, c] { std::unique_ptr<std::pair<int, int>> x; while (left > 0) { bool ok = tries ? q.TryPop(x) : q.Pop(x); if (ok) { got[c].push_back(*x); if (--left == 0) q.Interrupt(); } else if (tries) std::this_thread::yield(); } }); for (int p = 0; p < np; ++p) t.emplace_back([&, p] { for (int i = 0; i < each; ++i) q.Push(std::unique_ptr<std::pair<int, int>>(new std::pair<int, int>(p, i))); }); for (auto& x : t) x.join();
    std::map<std::pair<int, int>, int> seen; for (auto& v : got) { std::map<int, int> last; for (auto& e : v) { ++seen[e]; if (last.count(e.first)) CHECK(last[e.first] < e.second, "elements of one producer came out of order"); last[e.first] = e.second; } } CHECK((int)seen.size() == np * each, seen.size() << " elements came out, " << np * each << " went in"); for (auto& s : seen) CHECK(s.second == 1, "an element came out twice"); CHECK(q.Empty(), "not empty at the end");
}
SUB_CONC("queue-clearing", 250, 6000) {   // emptying the queue while others take from it: nothing comes out twice, nothing invented
    int np = g.n(1, 3), nc = g.n(1, 3), each = g.n(1, 60), clears = g.n(1, 30); SHOW(np << " producers of " << each << ", " << nc << " consumers, " << clears << " clears"); g.nontrivial(np * each >= 8); ConcurrentQueue_<std::unique_ptr<std::pair<int, int>>> q; std::vector<std::vector<std::pair<int, int>>> got(nc); std::atomic<int> busy(np); std::vector<std::thread> t; for (int c = 0; c < nc; ++c) t.emplace_back([&, c] { std::unique_ptr<std::pair<int, int>> x; for (;;) { bool last = busy == 0; if (q.TryPop(x)) got[c].push_back(*x); else if (last) break; else std::this_thread::yield(); } }); for (int p = 0; p < np; ++p) t.emplace_back([&, p] { for (int i = 0; i < each; ++i) q.Push(std::unique_ptr<std::pair<int, int>>(new std::pair<int, int>(p, i))); --busy; }); t.emplace_back([&] { for (int i = 0; i < clears; ++i) { q.Clear(); q.Empty(); std::this_thread::yield(); } }); for (auto& x : t) x.join(); std::map<std::pair<int, int>, int> seen; for (auto& v : got) { std::map<int, int> last; for (auto& e : v) { CHECK(++seen[e] == 1, "an element came out twice"); CHECK(e.first >= 0 && e.first < np && e.second >= 0 && e.second < each, "an element nobody put in"); if (last.count(e.first)) CHECK(last[e.first] < e.second, "elements of one producer came out of order"); last[e.first] = e.second; } } CHECK(q.Empty(), "not empty at the end");
}
SUB_CONC("interrupts", 150, 3000) { int n = g.n(1, 6); bool full = g.chance(20); SHOW(n << " waiting"); g.nontrivial(n > 1); ConcurrentQueue_<int> q; std::atomic<int> woke(0); std::vector<std::thread> t; for (int i = 0; i < n; ++i) t.emplace_back([&] { int x; if (!q.Pop(x)) ++woke; }); pause(g.n(0, 5)); (void)full; q.Interrupt(); for (auto& x : t) x.join(); CHECK(woke == n, woke << " of " << n << " woke"); }
SUB_CONC("simulations", 24, 500) {   // batches of paths on several threads, with and without sensitivities
    size_t n = start(g); Vector_<Cell_> c; Vector_<String_> e; c.push_back(Cell_("STRIKE")); e.push_back("100"); int m = g.n(1, 3); for (int i = 0; i < m; ++i) { c.push_back(Cell_(Date_(2024, 1, 1).AddDays(100 * (i + 1)))); e.push_back(i + 1 < m ? "IF spot() > 120 THEN x = 1 END" : "IF x < 0.5 THEN y pays MAX(spot() - STRIKE, 0) ELSE y pays 1 END"); } Global::Dates_::SetEvaluationDate(Date_(2024, 1, 1)); static Tape_ main; Number_::SetTape(main); ScriptProduct_ prd(c, e, "y"); bool aad = g.b(), comp = g.b(), bs = g.b(); size_t paths = (size_t)g.n(1100, 3500), nested = prd.PreProcess(aad && !comp, g.b()); if (comp) prd.Compile(); SHOW(paths << " paths" << (aad ? " with sensitivities" : "") << (comp ? " compiled" : "")); g.nontrivial(n > 1); Handle_<ModelData_> d; if (bs) d.reset(new BSModelData_("m", 100, 0.2, 0.01, 0.02)); else d.reset(new DupireModelData_("m", 100, 0.01, 0.02, Vector_<>(1, 100.0), Vector_<>(1, 1.0), Matrix_<>(1, 1, 0.2))); auto run = [&] { return aad ? MCSimulation<Number_>(prd, d, paths, "mrg32", false, comp, (int)nested, 1.0) : MCSimulation<double>(prd, d, paths, "mrg32", false, comp); }; SimResults_ a = run(); pool()->Start(1, true); SimResults_ b = run(); CHECK(std::fabs(a.aggregated_ - b.aggregated_) <= 1e-9 * std::fabs(b.aggregated_), "total " << a.aggregated_ << " on " << n << " threads, " << b.aggregated_ << " on one"); for (size_t i = 0; i < a.risks_.size(); ++i) CHECK(std::fabs(a.risks_[i] - b.risks_[i]) <= 1e-9 * (1 + std::fabs(b.risks_[i])), a.names_[i] << ": " << a.risks_[i] << " on " << n << " threads, " << b.risks_[i] << " on one");
}
