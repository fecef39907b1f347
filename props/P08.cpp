#include <engine.hpp>
#include <dal/platform/platform.hpp>
#include <dal/storage/globals.hpp>
#include <dal/storage/_repository.hpp>
#include <dal/storage/audit.hpp>
#include <dal/storage/box.hpp>
#include <dal/math/interp/interp.hpp>
#include <dal/curve/piecewiseconstant.hpp>
#include <dal/time/dateutils.hpp>
#include <dal/time/datetimeutils.hpp>
#include <public/src/repository.hpp>
#include <public/src/global.hpp>
#include <regex>
#include <thread>
#include <mutex>
using namespace Dal;
PROPERTY_DEF("P08", "Random operation sequences (length 1-40) over the process-wide object repository (add with every erase policy, fetch by live and dead tags, find/erase by regular expression or object, size), the global evaluation/accounting dates with nested scoped overrides, the fixing histories, nested environments and the auditor, "
  "each compared after every step with a plain map model. Non-trivial: the sequence erased or replaced something, or restored a scoped value.")
namespace pbt { std::vector<std::string> ASSUMPTIONS = {"object names contain no '~' (the tag separator)"}; void globalInit() {} }
static std::string S(const String_& s) { return std::string(s.begin(), s.end()); }
static std::string up(std::string s) { for (auto& c : s) c = (char)toupper((unsigned char)c); return s; }
namespace Dal { __attribute__((weak)) void Repository_Erase(const Vector_<Handle_<Storable_>>& objects, int* num_erased); }
struct Own_ : Storable_ { Own_(const char* type, const std::string& nm) : Storable_(type, String_(nm)) {} void Write(Archive::Store_&) const override {} };
struct Ent { std::string tag, type, name; Handle_<Storable_> h; };
static Handle_<Storable_> makeObj(pbt::G& g, int kind, const std::string& nm) {
    double x = g.n(0, 9);
    if (kind == 0) return Handle_<Storable_>(std::shared_ptr<const Storable_>(new Interp1Linear_(String_(nm), Vector_<>{x, x + 1}, Vector_<>{1.0, 2.0})));
    if (kind == 1) return Handle_<Storable_>(std::shared_ptr<const Storable_>(new PiecewiseConstant_(Vector_<Date_>{Date_(2020, 1, 1)}, Vector_<>{x}, String_(nm))));
    if (kind > 2) { static const char* own[] = {"Box2", "BOX_", "Interp1", "Bo"}; return Handle_<Storable_>(std::shared_ptr<const Storable_>(new Own_(own[kind - 3], nm))); }   // types of the user's own whose names begin, or are begun by, another type's
    Matrix_<Cell_> m(1, 1); m(0, 0) = x; return Handle_<Storable_>(std::shared_ptr<const Storable_>(new Box_(String_(nm), m)));
}
SUB("repository-model", 15000, 150000) {
    ENV_SEED_TYPE(ObjectAccess_); auto* repo = Environment::Find<ObjectAccess_>(_env); CHECK(repo, "environment lookup");
    (void)repo->Erase(String_(".*")); CHECK(repo->Size() == 0 && SizeRepository() == 0, "not emptied");
    std::vector<Ent> live; std::vector<std::string> dead; std::vector<Handle_<Storable_>> all; bool erased = false;
    int n = g.n(1, 40);
    static const std::vector<std::string> names = {"", "a", "A", "ab", "b", "curve", "Curve1", "x.y", "a b"};
    static const std::vector<std::string> pats = {"a", "b~", "^~Interp", "~", "zzz", "Box|Piece", "[0-9]$", "curve", "^$", "~a~", "\\."};
    auto drop = [&](auto pred) { for (size_t k = 0; k < live.size();) if (pred(live[k])) { dead.push_back(live[k].tag); live.erase(live.begin() + k); erased = true; } else ++k; };
    for (int s = 0; s < n; ++s) {
        int op = g.n(0, 9);
        if (op <= 3 || live.empty()) {
            Handle_<Storable_> h = !all.empty() && g.chance(20) ? g.pick(all) : makeObj(g, g.n(0, 6), g.pick(names)); all.push_back(h);
            int pol = g.n(0, 3); static const char* pn[] = {"NONE", "NAME_NONEMPTY", "NAME", "TYPE"}; SHOW("add " << S(h->Type()) << " '" << S(h->Name()) << "' " << pn[pol]);
            std::string ty = S(h->Type()), nm = S(h->Name());
            if (pol == 3) drop([&](Ent& e) { return up(e.type) == up(ty); });
            else if (pol == 2 || (pol == 1 && !nm.empty())) drop([&](Ent& e) { return up(e.type) == up(ty) && up(e.name) == up(nm); });
            String_ tag = repo->Add(h, RepositoryErase_(pn[pol]));
            bool known = false; for (auto& e : live) if (e.h == h) { known = true; CHECK(e.tag == S(tag), "same object, different tag"); }
            if (!known) { for (auto& e : live) CHECK(up(e.tag) != up(S(tag)), "tag clash " << S(tag)); live.push_back({S(tag), ty, nm, h}); }
            CHECK(S(tag).find(nm) != std::string::npos && S(tag).find(ty) != std::string::npos, "tag " << S(tag) << " does not name the object");
            dead.erase(std::remove(dead.begin(), dead.end(), S(tag)), dead.end());
        } else if (op == 4) { auto& e = g.pick(live); SHOW("fetch " << e.tag); CHECK(repo->Fetch(String_(e.tag), g.b()) == e.h, "fetch " << e.tag); }
        else if (op == 5) { std::string t = dead.empty() ? "nothing" : g.pick(dead); SHOW("fetch dead " << t); MUST_THROW(repo->Fetch(String_(t)), t); CHECK(!repo->Fetch(String_(t), true), "dead tag found"); }
        else if (op == 6) { std::string p = g.pick(pats); std::regex re(p); SHOW("erase /" << p << "/"); int cnt = 0; for (auto& e : live) cnt += std::regex_search(e.tag, re);
            int got = repo->Erase(String_(p)); CHECK(got == cnt, "erased " << got << " of " << cnt << " matching " << p); drop([&](Ent& e) { return std::regex_search(e.tag, re); }); }
        else if (op == 7) { std::vector<Handle_<Storable_>> o; int k = g.n(1, 3); for (int q = 0; q < k; ++q) o.push_back(g.pick(all)); SHOW("erase " << k << " objects"); Vector_<Handle_<Storable_>> v(o.begin(), o.end());
            int cnt = 0; for (auto& h : o) { size_t b = live.size(); drop([&](Ent& e) { return e.h == h; }); cnt += b != live.size(); }
            if (k == 1 && g.b()) CHECK(repo->Erase(*o[0]) == (cnt == 1), "erase object"); else if (Dal::Repository_Erase && g.b()) { int got = -1; Dal::Repository_Erase(v, &got); CHECK(got == cnt, "erased " << got << " of " << cnt); } else CHECK(EraseRepository(v) == cnt, "erased count"); }
        else { std::string p = g.pick(pats); std::regex re(p); SHOW("find /" << p << "/"); std::multiset<const Storable_*> e, r; for (auto& x : live) if (std::regex_search(x.tag, re)) e.insert(x.h.get());
            auto f = op == 8 ? repo->Find(String_(p)) : FindRepository(String_(p)); for (auto& h : f) r.insert(h.get()); CHECK(e == r, "find /" << p << "/ gave " << r.size() << " expected " << e.size()); }
        CHECK(repo->Size() == (int)live.size() && SizeRepository() == (int)live.size(), "size " << repo->Size() << " expected " << live.size());
        for (auto& e : live) CHECK(repo->Fetch(String_(e.tag)) == e.h, "lost " << e.tag);
    }
    g.nontrivial(erased);
    (void)repo->Erase(String_(".*"));
}
struct DateModel { Date_ eval, acct; };
static void scopes(pbt::G& g, DateModel& m, int depth, bool& used) {
    auto rd = [&] { return Date::FromExcel(g.n(30000, 60000)); };
    auto check = [&] { CHECK(Global::Dates_::EvaluationDate() == m.eval && GetEvaluationDate() == m.eval && Global::Dates_::AccountingDate() == m.acct, "dates " << Date::ToExcel(Global::Dates_::EvaluationDate()) << " " << Date::ToExcel(Global::Dates_::AccountingDate()) << " expected " << Date::ToExcel(m.eval) << " " << Date::ToExcel(m.acct)); };
    int n = g.n(1, 4);
    for (int k = 0; k < n; ++k) {
        Date_ d = rd();
        switch (g.n(0, depth > 0 ? 6 : 3)) {
        case 0: SetEvaluationDate(d); m.eval = d; break;
        case 1: Global::Dates_::SetAccountingDate(d); m.acct = d; break;
        case 2: XGLOBAL::SetEvaluationDate(d); m.eval = d; break;
        case 3: XGLOBAL::SetAccountingDate(d); m.acct = d; break;
        case 4: { DateModel s = m; { auto o = XGLOBAL::SetEvaluationDateInScope(d); m.eval = d; check(); used = true; scopes(g, m, depth - 1, used); } m.eval = s.eval; } break;
        case 5: { DateModel s = m; { auto o = XGLOBAL::SetAccountingDateInScope(d); m.acct = d; check(); used = true; scopes(g, m, depth - 1, used); } m.acct = s.acct; } break;
        default: { DateModel s = m; try { auto o = XGLOBAL::SetEvaluationDateInScope(d); auto o2 = std::move(o); m.eval = d; check(); used = true; throw 1; } catch (int) {} m.eval = s.eval; } }
        check();
    }
}
SUB("global-dates", 8000, 80000) {
    DateModel m; m.eval = Date::FromExcel(g.n(30000, 60000)); m.acct = Date::FromExcel(g.n(30000, 60000));
    XGLOBAL::SetEvaluationDate(m.eval); XGLOBAL::SetAccountingDate(m.acct); bool used = false; scopes(g, m, 3, used); g.nontrivial(used);
}
SUB("fixing-histories", 6000, 60000) {
    std::map<std::string, std::map<DateTime_, double>> model; static const std::vector<std::string> idx = {"EQ[IBM]", "FX[EUR/USD]", "IR:1", "ab", "a"};
    for (auto& i : idx) XGLOBAL::StoreFixings(String_(i), FixHistory_(), false);
    int n = g.n(1, 12);
    for (int s = 0; s < n; ++s) {
        std::string ix = g.pick(idx); FixHistory_ h; int k = g.n(0, 5); bool app = g.chance(70);
        for (int q = 0; q < k; ++q) h.vals_.push_back(std::make_pair(DateTime_(Date::FromExcel(40000 + g.n(0, 9)), g.n(0, 23)), g.uni(-5, 5)));
        SHOW((app ? "append " : "replace ") << k << " to " << ix);
        if (!app) model[ix].clear(); else g.nontrivial(!model[ix].empty());
        for (auto& p : h.vals_) model[ix][p.first] = p.second;
        int got = app && g.b() ? XGLOBAL::StoreFixings(String_(ix), h) : XGLOBAL::StoreFixings(String_(ix), h, app);
        CHECK(got == (int)model[ix].size(), "stored " << got << " expected " << model[ix].size());
        for (auto& i : idx) {
            FixHistory_ r = Global::Fixings_().History(String_(i)); auto& m = model[i];
            CHECK(r.vals_.size() == m.size(), i << " has " << r.vals_.size() << " fixings, expected " << m.size());
            size_t q = 0; for (auto& p : m) { CHECK(r.vals_[q].first == p.first && r.vals_[q].second == p.second, i << " fixing " << q); ++q; }
        }
    }
    CHECK(Global::Fixings_().History(String_("never stored")).vals_.empty(), "unknown index");
}
struct EA : Environment::Entry_ { int id; explicit EA(int i) : id(i) {} };
struct EB : Environment::Entry_ { int id; explicit EB(int i) : id(i) {} };
struct EC : EA { using EA::EA; };
static void envCheck(_ENV, const std::vector<std::pair<int, int>>& st) {   // innermost last
    std::vector<int> a, b, c, all; for (auto it = st.rbegin(); it != st.rend(); ++it) { all.push_back(it->second); if (it->first != 1) a.push_back(it->second); if (it->first == 1) b.push_back(it->second); if (it->first == 2) c.push_back(it->second); }
    auto* fa = Environment::Find<EA>(_env); auto* fb = Environment::Find<EB>(_env); auto* fc = Environment::Find<EC>(_env);
    CHECK(a.empty() ? !fa : fa && fa->id == a[0], "Find must return the innermost entry of the type"); CHECK(b.empty() ? !fb : fb && fb->id == b[0], "Find B"); CHECK(c.empty() ? !fc : fc && fc->id == c[0], "Find C");
    auto ca = Environment::Collect<EA>(_env); CHECK(ca.size() == a.size(), "Collect"); for (size_t k = 0; k < a.size(); ++k) CHECK(ca[k]->id == a[k], "Collect order");
    int cnt = 0; Environment::Iterate(_env, [&](const Environment::Entry_&) { ++cnt; }); CHECK(cnt == (int)all.size(), "Iterate visits " << cnt << " of " << all.size());
}
static void envRec(pbt::G& g, const Environment_* _env, std::vector<std::pair<int, int>>& st, int depth) {
    envCheck(_env, st); if (!depth) return;
    int n = g.n(1, 2);
    for (int k = 0; k < n; ++k) {
        int t = g.n(0, 2), id = (int)st.size() * 100 + k; const Environment_* before = _env; size_t sz = st.size();
        { EA a(id); EB b(id); EC c(id); const Environment::Entry_& e = t == 0 ? (Environment::Entry_&)a : t == 1 ? (Environment::Entry_&)b : (Environment::Entry_&)c; ENV_ADD(e); st.push_back({t, id}); envRec(g, _env, st, depth - 1); }
        CHECK(_env == before, "environment not restored"); st.resize(sz); envCheck(_env, st);
    }
}
SUB("environment-nesting", 20000, 200000) {
    std::vector<std::pair<int, int>> st; int d = g.n(0, 5); g.nontrivial(d > 1);
    if (g.b()) { _ENV = nullptr; envRec(g, _env, st, d); }
    else { Vector_<Handle_<Environment::Entry_>> es; int n = g.n(0, 3); for (int k = 0; k < n; ++k) { int t = g.n(0, 1); Environment::Entry_* e = t == 0 ? (Environment::Entry_*)new EA(-1 - k) : new EB(-1 - k); es.push_back(Handle_<Environment::Entry_>(std::shared_ptr<const Environment::Entry_>(e))); st.insert(st.begin(), {t, -1 - k}); }
        Environment::Base_ base(es); envRec(g, &base, st, d); }
}
SUB("auditor", 10000, 100000) {
    AuditorImp_ aud; ENV_SEED(aud); std::multimap<std::string, Handle_<Storable_>> m; static const std::vector<std::string> keys = {"k", "K2", "z", "k "};
    int n = g.n(1, 12); bool rep = false;
    for (int s = 0; s < n; ++s) {
        std::string k = g.pick(keys); int op = g.n(0, 3);
        if (op <= 1) { bool ex = op == 1; aud.mode_ = ex ? AuditorImp_::READING_EXCLUSIVE : AuditorImp_::READING; auto h = makeObj(g, g.n(0, 1), "n"); if (ex) { rep |= m.count(k) > 0; m.erase(k); } m.insert({k, h}); Environment::AuditBase(_env, String_(k), h); }
        else { aud.mode_ = AuditorImp_::SHOWING; auto f = aud.Find(String_(k)); auto r = m.equal_range(k); std::multiset<const Storable_*> e, q; for (auto i = r.first; i != r.second; ++i) e.insert(i->second.get()); for (auto& h : f) q.insert(h.get());
            CHECK(e == q, "auditor shows " << q.size() << " of " << e.size());
            std::set<const Storable_*> ints; for (auto* p : e) if (dynamic_cast<const Interp1Linear_*>(p)) ints.insert(p);
            Handle_<Interp1Linear_> got; bool threw = false; try { Environment::Recall(_env, String_(k), &got); } catch (const std::exception&) { threw = true; }
            CHECK(threw == (ints.size() > 1), "conflicting recollections"); if (!threw) CHECK(ints.empty() ? !got : got.get() == *ints.begin(), "recalled object");
            aud.mode_ = AuditorImp_::READING; CHECK(aud.Find(String_(k)).empty(), "nothing is shown outside SHOWING"); }
    }
    g.nontrivial(rep || n > 4);
}
SUB_CONC("repository-threads", 60, 400) {
    ENV_SEED_TYPE(ObjectAccess_); auto* repo = Environment::Find<ObjectAccess_>(_env); (void)repo->Erase(String_(".*"));
    int T = g.n(2, 6), N = g.n(5, 60); g.nontrivial(); std::vector<int> keepCnt(T); std::vector<std::string> err(T); std::vector<std::thread> th; std::vector<uint64_t> seeds; for (int t = 0; t < T; ++t) seeds.push_back(g.draw(1u << 30));
    for (int t = 0; t < T; ++t) th.emplace_back([&, t] {
        uint64_t x = seeds[t] * 2 + 1; std::vector<std::pair<String_, Handle_<Storable_>>> mine;
        try { for (int k = 0; k < N; ++k) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; int r = (int)(x >> 60);
            if (r < 9 || mine.empty()) { Handle_<Storable_> h(std::shared_ptr<const Storable_>(new Interp1Linear_(String_("t" + std::to_string(t)), Vector_<>{1.0, 2.0}, Vector_<>{1.0, (double)k}))); mine.push_back({repo->Add(h, RepositoryErase_("NONE")), h}); }
            else if (r < 13) { if (repo->Fetch(mine.back().first, true) != mine.back().second) err[t] = "lost"; (void)repo->Find(String_("t" + std::to_string(t))); }
            else { if (!repo->Erase(*mine.back().second)) err[t] = "not erased"; mine.pop_back(); } }
        keepCnt[t] = (int)mine.size(); } catch (const std::exception& e) { err[t] = e.what(); } });
    for (auto& z : th) z.join();
    int sum = 0; for (int t = 0; t < T; ++t) { CHECK(err[t].empty(), err[t]); sum += keepCnt[t]; }
    CHECK(repo->Size() == sum, "size " << repo->Size() << " expected " << sum); (void)repo->Erase(String_(".*"));
}
