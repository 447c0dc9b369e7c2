// T01: worker pool, tasks, controller.
#include <dirent.h>
#include <usml/threads/threads.h>
#include <usml/threads/thread_controller.h>
#include <usml/threads/thread_pool.h>
#include <usml/threads/thread_task.h>
#include "vt.h"
using namespace usml::threads;
typedef std::chrono::steady_clock clk;
static double ms(clk::time_point a) { return std::chrono::duration<double, std::milli>(clk::now() - a).count(); }
static void nap(double us) { std::this_thread::sleep_for(std::chrono::microseconds((long)us)); }
static int threads() {
    int n = 0;
    if (DIR* d = opendir("/proc/self/task")) { while (auto* e = readdir(d)) n += e->d_name[0] != '.'; closedir(d); }
    return n;
}
// a joined thread may stay in the list for a moment
static int extra(int before) { auto t0 = clk::now(); while (threads() > before && ms(t0) < 3000) nap(200); return threads() - before; }
struct Log {  // what the workers were seen doing
    std::mutex m;
    std::vector<size_t> started;
    std::atomic<int> busy{0}, most{0};
    std::atomic<bool> closed{false}, late{false};
};
enum kind { quick, naps, throws_std, throws_other, spins, spawns };
struct job : thread_task {
    Log* log;
    size_t seq;
    kind k;
    double us;
    std::function<void()> extra;
    std::atomic<int> runs{0}, ended{0};
    job(Log* l, size_t s, kind kk, double u) : log(l), seq(s), k(kk), us(u) {}
    void run() override {
        if (log->closed) log->late = true;
        int b = ++log->busy, o = log->most;
        while (o < b && !log->most.compare_exchange_weak(o, b)) {}
        { std::lock_guard<std::mutex> g(log->m); log->started.push_back(seq); }
        ++runs;
        if (k == naps) nap(us);
        if (k == spins) while (!_abort) nap(50);
        if (extra) extra();
        _done = true;
        --log->busy;
        ++ended;
        if (k == throws_std) throw std::runtime_error("job");
        if (k == throws_other) throw 5;
    }
};
typedef std::shared_ptr<job> jp;
static kind anykind(Rng& R) { return R.pick({quick, quick, naps, naps, throws_std, throws_other}); }

int main(int argc, char** argv) {
    vt::init(argc, argv);
    std::cerr.setstate(std::ios::failbit);  // the pool reports the exceptions of tasks here
    vt::section("pool", 220, [&](Case& C, Rng& R) {
        unsigned workers = R.in(1, 6), clients = R.in(1, 4);
        size_t each = R.in(0, 40);
        bool hold = R.chance(0.7), spawn = R.chance(0.3);
        C.in("workers", workers).in("clients", clients).in("tasks", each).in("hold", hold).in("spawn", spawn);
        size_t base = thread_task::num_active();
        int before = threads();
        Log log;
        std::vector<std::vector<jp>> all(clients);
        std::vector<jp> kids;
        std::mutex km;
        std::vector<uint64_t> seeds;
        for (unsigned c = 0; c < clients; ++c) seeds.push_back(R.next());
        {
            thread_pool pool(workers);
            std::vector<std::thread> cl;
            for (unsigned c = 0; c < clients; ++c) cl.emplace_back([&, c] {
                Rng r(seeds[c]);
                for (size_t i = 0; i < each; ++i) {
                    jp t(new job(&log, c * 1000 + i, anykind(r), r.uni(0, 300)));
                    if (spawn && r.chance(0.3)) t->extra = [&, t0 = t.get()] {
                        jp k(new job(&log, 100000, quick, 0));
                        { std::lock_guard<std::mutex> g(km); kids.push_back(k); }
                        pool.run(k);
                    };
                    all[c].push_back(t);
                    pool.run(t);
                    if (r.chance(0.1)) nap(r.uni(0, 500));
                }
            });
            for (auto& t : cl) t.join();
            if (base == 0) {
                thread_task::wait();
                size_t ran = 0;
                for (auto& v : all) for (auto& t : v) ran += t->ended == 1;
                CHECK(ran == clients * each, "wait.early", "wait returned with " << ran << " of " << clients * each << " tasks run");
                CHECK(thread_task::num_active() == 0, "wait.active", thread_task::num_active());
            } else { auto t0 = clk::now(); while (thread_task::num_active() > base && ms(t0) < 8000) nap(200); }
        }
        int left = extra(before);
        CHECK(left <= 0, "workers_left", left << " threads left after shutdown");
        std::set<size_t> ids;
        size_t n = 0;
        for (auto& v : all) for (auto& t : v) {
            CHECK(t->runs == 1 && t->ended == 1, "once", "task ran " << t->runs << " times");
            CHECK(t->done(), "done", "");
            ids.insert(t->id()); ++n;
        }
        for (auto& t : kids) { CHECK(t->runs == 1, "once.spawned", "task ran " << t->runs << " times"); ids.insert(t->id()); ++n; }
        CHECK(ids.size() == n, "ids", n - ids.size() << " tasks share an identifier");
        CHECK(log.most <= (int)workers, "too_many", log.most << " at a time with " << workers << " workers");
        // first come first served, per client: what is overtaken is in the hands of another worker
        std::map<size_t, size_t> at;
        for (size_t i = 0; i < log.started.size(); ++i) at[log.started[i]] = i;
        for (unsigned c = 0; c < clients; ++c) for (size_t i = 0; i < each; ++i) {
            size_t over = 0;
            for (size_t j = 0; j < i; ++j) over += at[c * 1000 + j] > at[c * 1000 + i];
            CHECK(over < workers, "order", "task " << i << " of client " << c << " started before " << over << " earlier ones with " << workers << " workers");
        }
        vt::obs("tasks", n);
        vt::obs(log.most == (int)workers ? "pools_saturated" : "pools_not_saturated");
        all.clear(); kids.clear();
        CHECK(thread_task::num_active() == base, "active", thread_task::num_active() << " want " << base);
    });
    vt::section("shutdown", 200, [&](Case& C, Rng& R) {
        unsigned workers = R.in(1, 5);
        size_t n = R.in(0, 30), spin = R.chance(0.4) ? R.in(1, workers) : 0;
        bool hold = R.chance(0.5);
        double when = R.pick({0.0, 0.0, 300.0, 1500.0, 4000.0});
        C.in("workers", workers).in("tasks", n).in("spinning", spin).in("hold", hold).in("when", when);
        size_t base = thread_task::num_active();
        int before = threads();
        Log log;
        std::vector<jp> all;
        std::thread killer;
        std::atomic<bool> down{false};
        {
            std::unique_ptr<thread_pool> pool(new thread_pool(workers));
            for (size_t i = 0; i < spin; ++i) { all.emplace_back(new job(&log, i, spins, 0)); pool->run(all.back()); }
            for (size_t i = 0; i < n; ++i) { all.emplace_back(new job(&log, spin + i, anykind(R), R.uni(0, 2000))); pool->run(all.back()); }
            nap(when);
            if (spin) killer = std::thread([&] { nap(2000); for (size_t i = 0; i < spin; ++i) all[i]->abort(); });
            pool.reset();
            down = true;
            log.closed = true;
        }
        if (killer.joinable()) killer.join();
        int left = extra(before);
        CHECK(left <= 0, "shutdown.workers_left", left << " threads left after shutdown");
        size_t ran = 0;
        for (auto& t : all) {
            CHECK(t->runs <= 1 && t->runs == t->ended, "shutdown.once", "started " << t->runs << " ended " << t->ended);
            ran += t->runs;
        }
        CHECK(log.busy == 0, "shutdown.running", log.busy << " tasks still running");
        vt::obs("dropped", all.size() - ran);
        vt::obs("run_before_shutdown", ran);
        if (!hold) all.clear();
        CHECK(thread_task::num_active() == base, "shutdown.active", thread_task::num_active() << " want " << base << ", " << all.size() << " tasks held");
        if (base == 0) thread_task::wait();  // must return
        nap(1500);
        CHECK(!log.late, "shutdown.late", "a task was started after shutdown");
    });
    vt::section("lonely", 120, [&](Case& C, Rng& R) {  // tasks that no pool ever gets to see, and one that is submitted twice
        size_t base = thread_task::num_active(), n = R.in(1, 20);
        bool twice = R.chance(0.5);
        C.in("tasks", n).in("twice", twice);
        Log log;
        { std::vector<jp> v; for (size_t i = 0; i < n; ++i) v.emplace_back(new job(&log, i, quick, 0)); CHECK(thread_task::num_active() == base + n, "created", thread_task::num_active() << " want " << base + n); }
        CHECK(thread_task::num_active() == base, "deleted.active", thread_task::num_active() << " want " << base);
        CHECK(log.started.empty(), "deleted.run", "a task ran without a pool");
        if (twice) {
            jp t(new job(&log, 0, quick, 0)), u(new job(&log, 1, naps, 500));
            thread_pool pool(R.in(1, 3));
            pool.run(t); pool.run(t); pool.run(u);
            auto t0 = clk::now();
            while ((t->ended < 2 || u->ended < 1) && ms(t0) < 8000) nap(200);
            nap(300);
            CHECK(t->ended == 2 && u->ended == 1, "twice.run", t->ended << " " << u->ended);
            t0 = clk::now();
            while (thread_task::num_active() != base && ms(t0) < 5000) nap(200);
            CHECK(thread_task::num_active() == base, "twice.active", thread_task::num_active() << " want " << base);
        }
    });
    vt::section("abort", 150, [&](Case& C, Rng& R) {
        unsigned workers = R.in(1, 4);
        size_t n = workers == 1 ? 1 : R.in(1, 8);  // the one that is kept must not be in the way of the others
        C.in("workers", workers).in("tasks", n);
        Log log;
        thread_pool pool(workers);
        std::vector<jp> all;
        for (size_t i = 0; i < n; ++i) { all.emplace_back(new job(&log, i, spins, 0)); pool.run(all.back()); }
        std::vector<size_t> order(n);
        for (size_t i = 0; i < n; ++i) order[i] = i;
        for (size_t i = n; i > 1; --i) std::swap(order[i - 1], order[R.in(0, i - 1)]);
        nap(R.uni(0, 2000));
        size_t keep = order.back();
        for (size_t i : order) if (i != keep) all[i]->abort();
        auto t0 = clk::now();
        auto left = [&] { size_t c = 0; for (auto& t : all) c += t->ended == 0; return c; };
        while (left() > 1 && ms(t0) < 8000) nap(200);
        CHECK(left() == 1 && all[keep]->ended == 0, "abort", left() << " tasks left, one was not aborted");
        all[keep]->abort();
        t0 = clk::now();
        while (left() && ms(t0) < 8000) nap(200);
        CHECK(left() == 0, "abort.last", left());
        vt::obs("aborted_tasks", n);
    });
    vt::section("wait", 60, [&](Case& C, Rng& R) {
        while (thread_task::num_active()) nap(200);
        Log log;
        int limit = R.in(3, 15);
        C.in("limit", limit);
        thread_pool pool(2);
        jp t(new job(&log, 0, spins, 0));
        pool.run(t);
        auto t0 = clk::now();
        bool threw = false;
        try { thread_task::wait(limit); } catch (std::range_error&) { threw = true; }
        CHECK(threw && ms(t0) >= limit, "wait.limit", "gave up: " << threw << " after " << ms(t0) << " ms of " << limit);
        t->abort();
        thread_task::wait(20000);
        CHECK(t->ended == 1 && thread_task::num_active() == 0, "wait.done", t->ended);
    });
    vt::section("identifiers", 150, [&](Case& C, Rng& R) {
        unsigned n = R.in(2, 8);
        size_t each = R.in(50, 400);
        C.in("threads", n).in("each", each);
        std::vector<std::vector<size_t>> ids(n);
        std::atomic<int> ready{0};
        std::vector<std::thread> th;
        Log log;
        for (unsigned k = 0; k < n; ++k) th.emplace_back([&, k] {
            ++ready;
            while (ready < (int)n) {}
            for (size_t i = 0; i < each; ++i) { job j(&log, 0, quick, 0); ids[k].push_back(j.id()); }
        });
        for (auto& t : th) t.join();
        std::set<size_t> s;
        for (auto& v : ids) {
            s.insert(v.begin(), v.end());
            for (size_t i = 1; i < v.size(); ++i) CHECK(v[i] > v[i - 1], "identifiers.sequence", v[i] << " after " << v[i - 1]);
        }
        CHECK(s.size() == n * each, "identifiers.unique", n * each - s.size() << " identifiers given twice");
        vt::obs("identifiers", n * each);
    });
    vt::section("controller", 60, [&](Case& C, Rng& R) {
        unsigned n = R.in(2, 6), workers = R.in(1, 4);
        bool again = R.chance(0.5);
        C.in("threads", n).in("workers", workers).in("reset_while_busy", again);
        while (thread_task::num_active()) nap(200);
        Log log;
        if (C.index >= 8) thread_controller::reset(workers);  // before: the very first use
        std::vector<std::thread> th;
        std::vector<thread_pool*> got(n);
        std::vector<jp> all(n), kids;
        std::mutex m;
        std::atomic<int> ready{0};
        for (unsigned k = 0; k < n; ++k) {
            all[k].reset(new job(&log, k, naps, R.uni(0, 2000)));
            if (again) all[k]->extra = [&] { nap(500); thread_controller::instance()->run([&] { jp q(new job(&log, 99, quick, 0)); std::lock_guard<std::mutex> g(m); kids.push_back(q); return q; }()); };
        }
        for (unsigned k = 0; k < n; ++k) th.emplace_back([&, k] { ++ready; while (ready < (int)n) {} got[k] = thread_controller::instance(); got[k]->run(all[k]); });
        for (auto& t : th) t.join();
        for (unsigned k = 1; k < n; ++k) CHECK(got[k] == got[0], "controller.single", "two pools");
        if (again) {
            auto t0 = clk::now();
            while (ms(t0) < 5000) { nap(100); std::lock_guard<std::mutex> g(log.m); if (!log.started.empty()) break; }
            thread_controller::reset(workers);  // tasks in flight still want the controller
            CHECK(log.busy == 0 || !kids.empty(), "controller.reset", log.busy << " tasks of the old pool still running");
        }
        thread_task::wait(20000);
        for (auto& t : all) CHECK(t->runs <= 1 && (again || t->runs == 1), "controller.once", t->runs);
        for (auto& t : kids) CHECK(t->runs <= 1, "controller.once", "spawned " << t->runs);  // a reset may drop them
        if (C.index >= 8) CHECK(log.most <= (int)workers * (again ? 2 : 1), "controller.workers", log.most << " at a time, " << workers << " asked for");
    });
    return vt::finish();
}
