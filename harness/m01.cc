// M01: object manager and update notifier.
#include <usml/managed/managed.h>
#include "vt.h"
using namespace usml::managed;
static void nap(double us) { std::this_thread::sleep_for(std::chrono::microseconds((long)us)); }
static thread_local uint64_t jit = 1;
static std::atomic<int> shake{0};  // percent of comparisons that are slow: widens the critical sections
static void jitter() {
    int p = shake.load(std::memory_order_relaxed);
    if (!p) return;
    jit = vt::mix(jit);
    if ((int)(jit % 100) < p) { if (jit & 4096) std::this_thread::yield(); else nap(jit % 60); }
}
struct skey {  // key whose comparison takes time
    int k;
    skey(int kk = 0) : k(kk) {}
    bool operator<(const skey& o) const { jitter(); return k < o.k; }
};
static std::atomic<int> live{0};
struct thing : managed_obj<skey, thing>, update_notifier<thing> {
    int id;
    thing(int key, int i) : managed_obj(skey(key), "thing " + std::to_string(i)), id(i) { ++live; }
    ~thing() { --live; }
};
typedef std::shared_ptr<thing> tp;
typedef manager_template<thing> mgr;
struct ev { bool add; int key, id; };
struct ear : manager_listener<thing> {
    mutable std::mutex m;
    mutable std::vector<ev> log;
    void notify_add(const thing* t) const override { jitter(); std::lock_guard<std::mutex> g(m); log.push_back({true, t->keyID().k, t->id}); }
    void notify_remove(skey k) const override { jitter(); std::lock_guard<std::mutex> g(m); log.push_back({false, k.k, -1}); }
};
static std::atomic<long> tick{0};
struct op {
    enum { ADD, REMOVE, FIND, LIST } what;
    int key, id;                         // id: object added, or found (-1: none)
    bool ok;
    std::vector<std::pair<int, int>> got;  // list
    long t0, t1;
};
typedef std::map<int, int> state;
static bool apply(const op& o, state& s) {  // is the recorded answer right in state s?
    switch (o.what) {
        case op::ADD: if (o.ok == (s.count(o.key) > 0)) return false; if (o.ok) s[o.key] = o.id; return true;
        case op::REMOVE: return o.ok == (s.erase(o.key) > 0);
        case op::FIND: { auto i = s.find(o.key); return (i == s.end() ? -1 : i->second) == o.id; }
        default: return std::vector<std::pair<int, int>>(s.begin(), s.end()) == o.got;
    }
}
struct lin {  // is there an order of the operations that explains every answer?
    const std::vector<op>& h;
    std::set<std::pair<uint32_t, state>> seen;
    bool dfs(uint32_t done, const state& s) {
        if (done == (h.size() == 32 ? ~0u : (1u << h.size()) - 1)) return true;
        if (!seen.insert({done, s}).second) return false;
        long first = LONG_MAX;
        for (size_t i = 0; i < h.size(); ++i) if (!(done >> i & 1)) first = std::min(first, h[i].t1);
        for (size_t i = 0; i < h.size(); ++i) if (!(done >> i & 1) && h[i].t0 < first) {
            state n(s);
            if (apply(h[i], n) && dfs(done | 1u << i, n)) return true;
        }
        return false;
    }
};
static std::string show(const std::vector<op>& h) {
    std::ostringstream s;
    for (auto& o : h) {
        s << "[" << o.t0 << "," << o.t1 << "]" << "ARFL"[o.what] << o.key << "#" << o.id << (o.ok ? "+" : "-");
        for (auto& p : o.got) s << "(" << p.first << "#" << p.second << ")";
        s << " ";
    }
    return s.str();
}
static op doit(mgr& M, int what, int key, int id) {
    op o;
    o.what = decltype(o.what)(what); o.key = key; o.id = id; o.ok = true;
    tp t;
    if (what == op::ADD) t.reset(new thing(key, id));
    o.t0 = ++tick;
    switch (what) {
        case op::ADD: try { int k = M.add(t).k; if (k != key) o.key = -999; } catch (mgr::duplicate_key&) { o.ok = false; } break;
        case op::REMOVE: o.ok = M.remove(skey(key)); break;
        case op::FIND: { tp f = M.find(skey(key)); o.t1 = ++tick; o.id = f ? f->id : -1; if (f && f->keyID().k != key) o.id = -999; return o; }
        default: { auto l = M.list(); o.t1 = ++tick; for (auto& f : l) o.got.push_back({f->keyID().k, f->id}); std::sort(o.got.begin(), o.got.end()); return o; }
    }
    o.t1 = ++tick;
    return o;
}
struct uear : update_listener<thing> {
    std::atomic<int> n{0};
    std::mutex m;
    std::map<int, int> per;  // notifications per object
    update_notifier<thing>* leave{nullptr};
    std::function<void(const thing*)> more;
    void notify_update(const thing* t) override {
        jitter();
        { std::lock_guard<std::mutex> g(m); ++per[t->id]; }
        ++n;
        if (leave) leave->remove_listener(this);
        if (more) more(t);
    }
};

int main(int argc, char** argv) {
    vt::init(argc, argv);
    vt::section("sequence", 3000, [&](Case& C, Rng& R) {
        shake = 0;
        int keys = R.in(1, 8), steps = R.in(1, 60), ne = R.in(0, 4);
        C.in("keys", keys).in("steps", steps).in("listeners", ne);
        int was = live;
        {
            std::unique_ptr<mgr> M(new mgr);
            std::map<int, tp> want;
            std::vector<ear> ears(ne);
            std::vector<std::vector<ev>> exp(ne);
            std::set<int> reg;
            std::map<int, std::weak_ptr<thing>> weak;
            int id = 0;
            auto tell = [&](bool add, int k, int i) { for (int e : reg) exp[e].push_back({add, k, i}); };
            for (int s = 0; s < steps; ++s) {
                int k = R.in(0, keys - 1), w = R.in(0, 9);
                if (w <= 3) {
                    tp t(want.count(k) && R.chance(0.3) ? want[k] : tp(new thing(k, id++)));
                    bool threw = false;
                    try { CHECK(M->add(t).k == k, "add.key", ""); } catch (mgr::duplicate_key& e) { threw = true; CHECK(std::string(e.what()) == "duplicate key", "add.what", e.what()); }
                    CHECK(threw == (want.count(k) > 0), "add.duplicate", "key " << k << " threw " << threw);
                    if (!threw) { want[k] = t; tell(true, k, t->id); vt::obs("added"); } else vt::obs("duplicates");
                } else if (w <= 6) {
                    std::weak_ptr<thing> wp;
                    if (want.count(k)) wp = want[k];
                    bool had = want.erase(k) > 0, hold = R.chance(0.5);
                    tp keep = hold ? wp.lock() : tp();
                    CHECK(M->remove(skey(k)) == had, "remove.result", "key " << k << " want " << had);
                    if (had) tell(false, k, -1);
                    if (keep) CHECK(keep.use_count() == 1 && keep->keyID().k == k, "remove.owner", keep.use_count() << " owners left");
                    if (had && !hold) CHECK(wp.expired(), "remove.leak", "removed object still alive");
                } else if (w == 7 && ne) {
                    int e = R.in(0, ne - 1);
                    M->add_listener(&ears[e]);
                    reg.insert(e);
                } else if (w == 8 && ne) {
                    int e = R.in(0, ne - 1);
                    M->remove_listener(&ears[e]);
                    reg.erase(e);
                }
                for (int q = 0; q < keys; ++q) {
                    tp f = M->find(skey(q));
                    CHECK(f == (want.count(q) ? want[q] : tp()), "find", "key " << q);
                }
                auto l = M->list();
                CHECK(l.size() == want.size(), "list.size", l.size() << " want " << want.size());
                for (auto& t : l) CHECK(t && want.count(t->keyID().k) && want[t->keyID().k] == t, "list", "object not in the collection");
                for (int e = 0; e < ne; ++e) {
                    CHECK(ears[e].log.size() == exp[e].size(), "notify.count", "listener " << e << " heard " << ears[e].log.size() << " of " << exp[e].size());
                    if (!exp[e].empty()) { auto &a = ears[e].log.back(), &b = exp[e].back(); CHECK(a.add == b.add && a.key == b.key && a.id == b.id, "notify.what", "listener " << e << " heard " << a.add << " " << a.key << "#" << a.id); }
                }
            }
            std::list<tp> snap = M->list();
            size_t n = snap.size();
            M.reset();
            for (auto& t : snap) CHECK(t.use_count() == 2 && t->id >= 0, "manager.deleted", t.use_count());
            CHECK(snap.size() == n, "snapshot", snap.size());
        }
        CHECK(live == was, "leak", live - was << " objects left");
    });
    vt::section("history", 1200, [&](Case& C, Rng& R) {
        int nt = R.in(2, 4), keys = R.in(1, 3), each = R.in(2, nt == 2 ? 10 : nt == 3 ? 7 : 5), ne = R.in(0, 2);
        int sh = R.pick({0, 5, 20, 50});
        C.in("threads", nt).in("keys", keys).in("each", each).in("listeners", ne).in("shake", sh);
        int was = live;
        std::vector<op> h;
        {
            mgr M;
            std::vector<ear> ears(ne);
            for (auto& e : ears) M.add_listener(&e);
            std::vector<std::vector<op>> hs(nt);
            std::vector<uint64_t> seeds;
            for (int t = 0; t < nt; ++t) seeds.push_back(R.next());
            shake = sh;
            std::atomic<int> ready{0};
            std::vector<std::thread> th;
            for (int t = 0; t < nt; ++t) th.emplace_back([&, t] {
                Rng r(seeds[t]);
                jit = seeds[t];
                ++ready;
                while (ready < nt) {}
                for (int i = 0; i < each; ++i) {
                    int w = r.pick({0, 0, 0, 1, 1, 1, 2, 2, 3});
                    hs[t].push_back(doit(M, w, r.in(0, keys - 1), 100 * t + i));
                    if (r.chance(0.2)) nap(r.uni(0, 50));
                }
            });
            for (auto& t : th) t.join();
            shake = 0;
            for (auto& v : hs) h.insert(h.end(), v.begin(), v.end());
            if (h.size() <= 30) h.push_back(doit(M, op::LIST, 0, 0));  // what is left in the end
            size_t over = 0;
            for (size_t i = 0; i < h.size(); ++i) for (size_t j = 0; j < i; ++j) over += h[i].t0 < h[j].t1 && h[j].t0 < h[i].t1;
            vt::obs("overlapping_calls", over);
            vt::obs("calls", h.size());
            lin L{h, {}};
            CHECK(L.dfs(0, state()), "linearizable", "no order explains " << show(h));
            for (auto& e : ears) {
                std::map<int, std::vector<int>> adds, seen;
                std::map<int, int> rem, srem;
                for (auto& o : h) { if (o.what == op::ADD && o.ok) adds[o.key].push_back(o.id); if (o.what == op::REMOVE && o.ok) ++rem[o.key]; }
                std::map<int, bool> in;
                for (auto& v : e.log) {
                    CHECK(in[v.key] != v.add, "notify.order", "key " << v.key << (v.add ? " added" : " removed") << " twice in a row: " << show(h));
                    in[v.key] = v.add;
                    if (v.add) seen[v.key].push_back(v.id); else ++srem[v.key];
                }
                for (auto* m : {&adds, &seen}) for (auto& p : *m) std::sort(p.second.begin(), p.second.end());
                CHECK(adds == seen, "notify.adds", "heard other additions than there were: " << show(h));
                CHECK(rem == srem, "notify.removes", "heard other removals than there were: " << show(h));
            }
        }
        CHECK(live == was, "history.leak", live - was);
    });
    vt::section("listeners", 600, [&](Case& C, Rng& R) {  // that come and go while objects come and go
        int writers = R.in(1, 3), goers = R.in(1, 3), each = R.in(2, 12);
        int sh = R.pick({0, 5, 30});
        C.in("writers", writers).in("goers", goers).in("each", each).in("shake", sh);
        mgr M;
        struct stay { ear e; long a0, a1, r0, r1; };
        std::vector<std::vector<std::unique_ptr<stay>>> stays(goers);
        std::vector<std::vector<op>> hs(writers);
        std::vector<uint64_t> seeds;
        for (int t = 0; t < writers + goers; ++t) seeds.push_back(R.next());
        std::atomic<int> ready{0};
        shake = sh;
        std::vector<std::thread> th;
        for (int t = 0; t < writers + goers; ++t) th.emplace_back([&, t] {
            Rng r(seeds[t]);
            jit = seeds[t];
            ++ready;
            while (ready < writers + goers) {}
            for (int i = 0; i < each; ++i) {
                if (t < writers) {
                    // keys are never reused, so that each notification belongs to one call
                    int key = 1000 * t + i;
                    hs[t].push_back(doit(M, op::ADD, key, key));
                    if (r.chance(0.6)) hs[t].push_back(doit(M, op::REMOVE, key, key));
                } else {
                    auto& v = stays[t - writers];
                    v.emplace_back(new stay);
                    stay& s = *v.back();
                    s.a0 = ++tick; M.add_listener(&s.e); s.a1 = ++tick;
                    nap(r.uni(0, 200));
                    s.r0 = ++tick; M.remove_listener(&s.e); s.r1 = ++tick;
                }
            }
        });
        for (auto& t : th) t.join();
        shake = 0;
        for (auto& g : stays) for (auto& sp : g) {
            stay& s = *sp;
            std::map<std::pair<bool, int>, int> n;
            for (auto& v : s.e.log) ++n[{v.add, v.key}];
            for (auto& hh : hs) for (auto& o : hh) {
                int c = n[{o.what == op::ADD, o.key}];
                CHECK(c <= 1, "listener.twice", c);
                if (s.a1 < o.t0 && o.t1 < s.r0) { CHECK(c == 1, "listener.missed", "registered [" << s.a1 << "," << s.r0 << "] call [" << o.t0 << "," << o.t1 << "]"); vt::obs("must_hear"); }
                else if (o.t1 < s.a0 || s.r1 < o.t0) CHECK(c == 0, "listener.stranger", "registered [" << s.a0 << "," << s.r1 << "] call [" << o.t0 << "," << o.t1 << "]");
                else vt::obs("may_hear");
            }
        }
    });
    vt::section("update_sequence", 2000, [&](Case& C, Rng& R) {
        shake = 0;
        int n = R.in(1, 6), objs = R.in(1, 3), steps = R.in(1, 40);
        C.in("listeners", n).in("objects", objs).in("steps", steps);
        std::vector<tp> o;
        for (int i = 0; i < objs; ++i) o.emplace_back(new thing(i, i));
        std::vector<uear> u(n);
        std::vector<std::set<int>> reg(objs);
        std::vector<std::map<int, int>> want(n);
        for (int s = 0; s < steps; ++s) {
            int e = R.in(0, n - 1), k = R.in(0, objs - 1);
            switch (R.in(0, 4)) {
                case 0: case 1: o[k]->add_listener(&u[e]); reg[k].insert(e); break;
                case 2: o[k]->remove_listener(&u[e]); reg[k].erase(e); break;
                case 3: u[e].leave = R.chance(0.3) ? o[k].get() : nullptr; break;  // listener that says goodbye when called
                default:
                    for (int x : std::set<int>(reg[k])) {
                        ++want[x][k];
                        for (int q = 0; q < objs; ++q) if (u[x].leave == o[q].get()) reg[q].erase(x);
                    }
                    o[k]->notify_update(o[k].get());
                    vt::obs("updates");
            }
            for (int x = 0; x < n; ++x) CHECK(u[x].per == want[x], "update.count", "listener " << x << " heard " << u[x].n << " updates");
        }
    });
    // listeners that change who listens, while they are called: who left is not called any more, who stayed is called once
    vt::section("update_changes", 1500, [&](Case& C, Rng& R) {
        shake = 0;
        const int n = R.in(2, 8), rounds = R.in(1, 10);
        C.in("listeners", n).in("rounds", rounds);
        tp o(new thing(0, 0));
        std::vector<uear> u(n);
        std::vector<int> in(n, 0), start(n), calls(n), left(n), back(n);
        for (int x = 0; x < n; ++x) if (R.chance(0.8)) { o->add_listener(&u[x]); in[x] = 1; }
        std::vector<std::vector<std::pair<bool, int>>> acts(n);
        for (int x = 0; x < n; ++x)
            u[x].more = [&, x](const thing*) {
                ++calls[x];
                CHECK(in[x], "update.left", "listener " << x << " called after it was removed");
                for (auto& a : acts[x])
                    if (a.first) { o->add_listener(&u[a.second]); in[a.second] = 1; back[a.second] = 1; }
                    else { o->remove_listener(&u[a.second]); if (in[a.second]) { in[a.second] = 0; left[a.second] = 1; vt::obs("left during an update"); } }
            };
        for (int r = 0; r < rounds; ++r) {
            start = in;
            for (int x = 0; x < n; ++x) {
                calls[x] = left[x] = back[x] = 0;
                acts[x].clear();
                if (R.chance(0.4)) for (int j = R.in(1, 3); j > 0; --j) acts[x].push_back({R.chance(0.3), R.in(0, n - 1)});
            }
            o->notify_update(o.get());
            for (int x = 0; x < n; ++x) {
                CHECK(calls[x] <= 1, "update.twice", "listener " << x << " called " << calls[x] << " times");
                if (start[x] && !left[x]) CHECK(calls[x] == 1, "update.stayed", "listener " << x << " called " << calls[x] << " times");
                if (!start[x] && !back[x]) CHECK(calls[x] == 0, "update.stranger", "listener " << x << " called");
            }
        }
    });
    vt::section("update_threads", 600, [&](Case& C, Rng& R) {
        int nu = R.in(1, 3), goers = R.in(1, 3), each = R.in(2, 15), perm = R.in(0, 3);
        int sh = R.pick({0, 10, 50});
        C.in("notifiers", nu).in("goers", goers).in("each", each).in("always", perm).in("shake", sh);
        thing T(0, 0);
        std::vector<uear> always(perm);
        uear never;
        for (auto& a : always) T.add_listener(&a);
        struct stay { uear e; long a0, a1, r0, r1; };
        std::vector<std::vector<std::unique_ptr<stay>>> stays(goers);
        std::vector<std::vector<std::pair<long, long>>> calls(nu);
        std::vector<std::vector<std::unique_ptr<thing>>> ids(nu);
        std::vector<uint64_t> seeds;
        for (int t = 0; t < nu + goers; ++t) seeds.push_back(R.next());
        for (int t = 0; t < nu; ++t) for (int i = 0; i < each; ++i) ids[t].emplace_back(new thing(0, 1000 * t + i));
        std::atomic<int> ready{0};
        shake = sh;
        std::vector<std::thread> th;
        for (int t = 0; t < nu + goers; ++t) th.emplace_back([&, t] {
            Rng r(seeds[t]);
            jit = seeds[t];
            ++ready;
            while (ready < nu + goers) {}
            for (int i = 0; i < each; ++i) {
                if (t < nu) {
                    long a = ++tick;
                    T.notify_update(ids[t][i].get());
                    calls[t].push_back({a, ++tick});
                } else {
                    auto& v = stays[t - nu];
                    v.emplace_back(new stay);
                    stay& s = *v.back();
                    s.a0 = ++tick; T.add_listener(&s.e); s.a1 = ++tick;
                    nap(r.uni(0, 100));
                    s.r0 = ++tick; T.remove_listener(&s.e); s.r1 = ++tick;
                }
            }
        });
        for (auto& t : th) t.join();
        shake = 0;
        CHECK(never.n == 0, "update.stranger", never.n);
        for (int t = 0; t < nu; ++t) for (int i = 0; i < each; ++i) {
            int id = 1000 * t + i;
            for (auto& a : always) CHECK(a.per[id] == 1, "update.always", "listener heard update " << a.per[id] << " times");
            auto& o = calls[t][i];
            for (auto& g : stays) for (auto& s : g) {
                int c = s->e.per[id];
                CHECK(c <= 1, "update.twice", c);
                if (s->a1 < o.first && o.second < s->r0) { CHECK(c == 1, "update.missed", "registered [" << s->a1 << "," << s->r0 << "] update [" << o.first << "," << o.second << "]"); vt::obs("must_hear_update"); }
                else if (o.second < s->a0 || s->r1 < o.first) CHECK(c == 0, "update.late", "registered [" << s->a0 << "," << s->r1 << "] update [" << o.first << "," << o.second << "]");
            }
        }
    });
    return vt::finish();
}
