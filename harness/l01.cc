// L01: platforms attached to each other, against a small model of rigid mounting.
#include <usml/platforms/platforms.h>
#include "vt.h"
using namespace usml::platforms;
typedef platform_model::sptr pp;
typedef std::array<double, 9> mat;
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define RANKED 1
#endif
#endif
#ifdef RANKED
static const bool ranked = true;  // swapping host and child looks like a lock order reversal to the race detector
#else
static const bool ranked = false;
#endif
static void nap(double us) { std::this_thread::sleep_for(std::chrono::microseconds((long)us)); }
static mat rot(const orientation& o) { mat m; auto r = o.rotation(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m[3 * i + j] = r(i, j); return m; }
static mat mul(const mat& a, const mat& b) {
    mat m;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { m[3 * i + j] = 0; for (int k = 0; k < 3; ++k) m[3 * i + j] += a[3 * i + k] * b[3 * k + j]; }
    return m;
}
static const double RAD = M_PI / 180.0;
__attribute__((noinline)) static void dirty() {  // leaves other values where local variables will be
    volatile double a[2000];
    for (int i = 0; i < 2000; ++i) a[i] = 1e3 + i;
}
struct place {  // motion state of one platform, and how far the flat earth formula may be off
    time_t t{0};
    double lat{0}, lon{0}, alt{0}, speed{0}, slack{1e-5};
    mat o;
};
static place moved(const place& p, double n, double e, double u) {
    place q = p;
    double rho = wposition::earth_radius + p.alt, d = std::sqrt(n * n + e * e + u * u);
    q.lat += n / rho / RAD;
    q.lon += e / (rho * std::cos(p.lat * RAD)) / RAD;
    q.alt += u;
    q.slack += 1e-6 * d + (1.0 + 2.0 * std::fabs(std::tan(p.lat * RAD))) * d * d / rho;
    return q;
}
static double lonerr(double a, double b) { return std::remainder(a - b, 360.0); }
static double apart(const place& p, const wposition1& w) {
    double k = wposition::earth_radius * RAD;
    double x = (w.latitude() - p.lat) * k, y = lonerr(w.longitude(), p.lon) * k * std::cos(p.lat * RAD), z = w.altitude() - p.alt;
    return std::sqrt(x * x + y * y + z * z);
}
static double apart(const mat& a, const mat& b) { double m = 0; for (int i = 0; i < 9; ++i) m = std::max(m, std::fabs(a[i] - b[i])); return m; }
struct node {
    pp p;
    std::weak_ptr<platform_model> w;
    place at;
    int host{-1};
    std::map<int, std::pair<std::array<double, 3>, mat>> kids;
    bool gone{false};
};
static void follow(std::vector<node>& N, int i) {  // children take the place of their mounting
    for (auto& k : N[i].kids) {
        const place& h = N[i].at;
        auto& off = k.second.first;
        double v[3];
        for (int r = 0; r < 3; ++r) v[r] = h.o[3 * r] * off[0] + h.o[3 * r + 1] * off[1] + h.o[3 * r + 2] * off[2];
        N[k.first].at = moved(h, v[0], v[1], v[2]);
        N[k.first].at.o = mul(h.o, k.second.second);
        follow(N, k.first);
    }
}
static bool below(const std::vector<node>& N, int i, int top) { for (; i >= 0; i = N[i].host) if (i == top) return true; return false; }
static orientation orient(Rng& R) { return R.chance(0.2) ? orientation(R.pick({0.0, 90.0, 180.0, 270.0, 45.0}), 0, 0) : orientation(R.uni(-180, 360), R.uni(-80, 80), R.uni(-170, 170)); }
static bvector offset(Rng& R) {
    double s = R.logu(0.1, 500);
    if (R.chance(0.1)) return bvector();
    if (R.chance(0.3)) { int k = R.in(0, 2); double v = R.uni(-s, s); return bvector(k == 0 ? v : 0.0, k == 1 ? v : 0.0, k == 2 ? v : 0.0); }
    return bvector(R.uni(-s, s), R.uni(-s, s), R.uni(-s, s));
}
static wposition1 where(Rng& R) { return wposition1(R.uni(-80, 80), R.chance(0.2) ? R.pick({-180.0, 179.9999, 0.0, 359.9999, 180.0}) : R.uni(-180, 180), R.chance(0.1) ? 0.0 : R.uni(-6000, 100)); }
static void same(Case& C, const std::vector<node>& N, const char* when) {
    for (size_t i = 0; i < N.size(); ++i) {
        if (N[i].gone) continue;
        const place& a = N[i].at;
        time_t t = -1; wposition1 w; orientation o; double s = -1;
        N[i].p->get_motion(&t, &w, &o, &s);
        CHECK(t == a.t, "time", MSG(when << ": platform " << i << " at time " << t << " instead of " << a.t));
        CHECK(vt::same(s, a.speed), "speed", MSG(when << ": platform " << i << " at speed " << s << " instead of " << a.speed));
        double d = apart(a, w);
        CHECK(d <= a.slack, "position", MSG(when << ": platform " << i << " is " << d << " m from its place (allowed " << a.slack << ")"));
        double e = apart(rot(o), a.o);
        CHECK(e < 1e-9, "attitude", MSG(when << ": platform " << i << " attitude is off by " << e));
        wposition1 w2 = N[i].p->position();
        CHECK(N[i].p->time() == t && N[i].p->speed() == s && w2.rho() == w.rho() && w2.theta() == w.theta() && w2.phi() == w.phi() && rot(N[i].p->orient()) == rot(o), "accessors", MSG(when << ": accessors of platform " << i << " disagree with get_motion"));
        const platform_model* h = N[i].host < 0 ? nullptr : N[N[i].host].p.get();
        CHECK(N[i].p->host() == h, "host", MSG(when << ": platform " << i << " has the wrong host"));
        std::multiset<platform_model*> got, want;
        for (auto& c : N[i].p->children()) got.insert(c.get());
        for (auto& k : N[i].kids) want.insert(N[k.first].p.get());
        CHECK(got == want, "children", MSG(when << ": platform " << i << " has " << got.size() << " children instead of " << want.size() << ", or other ones"));
        vt::obs(N[i].host < 0 ? "free platforms compared" : N[N[i].host].host < 0 ? "children compared" : "grandchildren compared");
        if (N[i].host >= 0) vt::maxv("mounting error over allowance", d / a.slack);
    }
}
struct watcher : platform_model {  // counts the updates that reach it
    std::atomic<int> n{0};
    std::atomic<int> last{-1};
    using platform_model::platform_model;
    void update_internals(time_t t, const wposition1& p, const orientation& o, double s, update_type_enum u) override {
        ++n; last = (int)u;
        platform_model::update_internals(t, p, o, s, u);
    }
};

int main(int argc, char** argv) {
    vt::init(argc, argv);
    vt::section("history", 1500, [&](Case& C, Rng& R) {
        int n = R.in(2, 9), steps = R.in(3, 40);
        C.in("platforms", n).in("steps", steps);
        std::vector<node> N(n);
        std::string log;
        for (int i = 0; i < n; ++i) {
            wposition1 w = where(R);
            orientation o = orient(R);
            N[i].at.t = R.in(0, 100000); N[i].at.speed = R.uni(0, 20);
            N[i].at.lat = w.latitude(); N[i].at.lon = w.longitude(); N[i].at.alt = w.altitude(); N[i].at.o = rot(o);
            N[i].p.reset(new watcher(i + 1, "p", N[i].at.t, w, o, N[i].at.speed));
            N[i].w = N[i].p;
        }
        same(C, N, "start");
        {   // a mounting without offset is at the host whatever was in memory before
            alignas(bvector) static unsigned char buf[sizeof(bvector)];
            for (size_t i = 0; i < sizeof buf; ++i) ((volatile unsigned char*)buf)[i] = (unsigned char)(0x40 + i);
            asm volatile("" : : "r"(buf) : "memory");
            bvector* z = new (buf) bvector();
            asm volatile("" : : "r"(z) : "memory");
            CHECK(z->front() == 0.0 && z->right() == 0.0 && z->up() == 0.0, "default offset", MSG("default mounting offset is " << z->front() << " " << z->right() << " " << z->up()));
        }
        for (int s = 0; s < steps; ++s) {
            int a = R.in(0, n - 1), b = R.in(0, n - 1);
            if (N[a].gone) continue;
            std::ostringstream what;
            std::vector<int> was(n);
            for (int i = 0; i < n; ++i) if (!N[i].gone) was[i] = ((watcher*)N[i].p.get())->n;
            int upd = -1, kind = -1;
            switch (R.in(0, 9)) {
                case 0: case 1: case 2: {  // attach b to a
                    if (N[b].gone || a == b) continue;
                    bvector off = offset(R);
                    orientation o = orient(R);
                    if (N[b].host == a) {  // already there: refused
                        what << "attach again " << b << " to " << a;
                        bool threw = false;
                        try { N[a].p->add_child(N[b].p, off, o); } catch (std::exception&) { threw = true; }
                        CHECK(threw, "duplicate", MSG("child " << b << " attached twice to " << a));
                        vt::obs("duplicate attachments refused");
                        break;
                    }
                    if (N[b].host >= 0 || below(N, a, b) || (ranked && a > b)) continue;
                    what << "attach " << b << " to " << a;
                    bool plain = R.chance(0.1);  // default mounting
                    if (plain) { off = bvector(0, 0, 0); o = orientation(); }
                    dirty();
                    auto k = plain ? N[a].p->add_child(N[b].p) : N[a].p->add_child(N[b].p, off, o);
                    CHECK(k == N[b].p->keyID(), "key", "add_child returned another key");
                    N[b].host = a;
                    N[a].kids[b] = {{off.front(), off.right(), off.up()}, rot(o)};
                    follow(N, a);
                    vt::obs("attachments");
                    break;
                }
                case 3: {  // detach
                    auto& kids = N[a].kids;
                    if (R.chance(0.2)) {
                        what << "detach stranger";
                        int x = R.in(0, n + 3);
                        if (kids.count(x)) continue;
                        CHECK(!N[a].p->remove_child(x + 1), "detach", "removing something that is not attached succeeded");
                        break;
                    }
                    if (kids.empty()) continue;
                    auto it = kids.begin();
                    std::advance(it, R.in(0, (int)kids.size() - 1));
                    what << "detach " << it->first << " from " << a;
                    CHECK(N[a].p->remove_child(it->first + 1), "detach", "removing a child failed");
                    N[it->first].host = -1;
                    kids.erase(it);
                    vt::obs("detachments");
                    break;
                }
                case 4: {  // destroy a host
                    if (N[a].host >= 0 || !R.chance(0.2)) continue;
                    what << "destroy " << a;
                    for (auto& k : N[a].kids) { N[k.first].host = -1; vt::obs("children of destroyed hosts"); }
                    N[a].kids.clear();
                    N[a].gone = true;
                    N[a].p.reset();
                    CHECK(N[a].w.expired(), "leak", "platform kept alive after its last owner let go");
                    break;
                }
                case 5: case 6: {  // dead reckoning
                    place& p = N[a].at;
                    double dt = R.chance(0.1) ? 0 : R.chance(0.1) ? -R.in(1, 60) : std::floor(R.logu(1, 3000));
                    double d = p.speed * dt;
                    if (std::fabs(p.lat) > 81) continue;
                    kind = R.in(0, 2);
                    what << "reckon " << a << " by " << dt << " s, " << d << " m";
                    N[a].p->update(p.t + (time_t)dt, (platform_model::update_type_enum)kind);
                    place q = moved(p, p.o[0] * d, p.o[3] * d, p.o[6] * d);
                    q.t = p.t + (time_t)dt;
                    N[a].at = q;
                    // continue from where it is, so that allowances do not pile up
                    double e = apart(q, N[a].p->position());
                    CHECK(e <= q.slack, "reckoning", MSG(what.str() << ": off by " << e << " m"));
                    wposition1 w = N[a].p->position();
                    N[a].at.lat = w.latitude(); N[a].at.lon = w.longitude(); N[a].at.alt = w.altitude(); N[a].at.slack = 1e-5;
                    follow(N, a);
                    upd = a;
                    vt::obs("dead reckonings");
                    break;
                }
                default: {
                    wposition1 w = where(R);
                    orientation o = orient(R);
                    place q;
                    q.t = R.in(0, 1000000); q.speed = R.chance(0.1) ? 0.0 : R.uni(0, 30);
                    q.lat = w.latitude(); q.lon = w.longitude(); q.alt = w.altitude(); q.o = rot(o);
                    kind = R.in(0, 2);
                    what << "update " << a;
                    if (kind == 0 && R.chance(0.5)) N[a].p->update(q.t, w, o, q.speed);
                    else N[a].p->update(q.t, w, o, q.speed, (platform_model::update_type_enum)kind);
                    N[a].at = q;
                    follow(N, a);
                    upd = a;
                    vt::obs("updates");
                }
            }
            log += what.str() + "; ";
            if (upd >= 0) for (int i = 0; i < n; ++i) if (!N[i].gone) {
                watcher* w = (watcher*)N[i].p.get();
                bool in = below(N, i, upd);
                CHECK(w->n - was[i] == (in ? 1 : 0), "updates", MSG(log << ": platform " << i << " was updated " << w->n - was[i] << " times"));
                CHECK(!in || w->last == kind, "update type", MSG(log << ": platform " << i << " got update type " << w->last << " for " << kind));
            }
            same(C, N, log.c_str());
        }
        for (auto& x : N) x.p.reset();
        for (auto& x : N) CHECK(x.w.expired(), "leak", "platform never destroyed");
    });
    vt::section("keys", 600, [&](Case& C, Rng& R) {
        platform_manager::reset();
        int n = R.in(1, 40);
        C.in("steps", n);
        std::map<uint64_t, pp> want;
        uint64_t top = 0;
        bool wide = R.chance(0.3);
        for (int i = 0; i < n; ++i) {
            platform_manager* M = platform_manager::instance();
            uint64_t k = R.chance(0.5) ? 0 : (uint64_t)R.in(1, 30) + (wide && R.chance(0.4) ? (uint64_t)R.in(1, 3) << 32 : 0);
            if (R.chance(0.25)) {
                bool had = want.erase(k) > 0;
                CHECK(M->remove(k) == had, "remove", "remove gave the wrong answer");
            } else {
                pp p(new platform_model(k, "x"));
                bool threw = false;
                uint64_t got = 0;
                try { got = M->add(p); } catch (platform_manager::duplicate_key&) { threw = true; }
                if (k == 0) {
                    CHECK(!threw && got != 0 && want.count(got) == 0 && got > top, "auto key", MSG("automatic key " << got << " after " << top));
                    vt::obs("automatic keys");
                } else CHECK(threw == (want.count(k) > 0) && (threw || got == k), "given key", MSG("platform with key " << k << " gave " << got << (threw ? " and was refused" : "")));
                if (!threw) { want[got] = p; CHECK(p->keyID() == got, "key", "platform does not have the key it was given"); }
                top = std::max(top, std::max(k, got));
            }
            std::map<uint64_t, pp> have;
            for (auto& p : M->list()) have[p->keyID()] = p;
            CHECK(have == want, "contents", MSG("manager holds " << have.size() << " platforms instead of " << want.size()));
            if (R.chance(0.03)) { platform_manager::reset(); want.clear(); top = 0; CHECK(platform_manager::instance()->list().empty(), "reset", "platforms left after reset"); }
        }
        for (auto& w : want) CHECK(platform_manager::instance()->find(w.first) == w.second, "find", "platform not found");
        platform_manager::reset();
    });
    // One writer, many readers: every reading is one of the states that were written.
    vt::section("readers", 40, [&](Case& C, Rng& R) {
        int readers = R.in(1, 4), steps = R.in(100, 600), kids = R.in(1, 3);
        bool churn = R.chance(0.5);
        C.in("readers", readers).in("steps", steps).in("children", kids).in("attach and detach", churn);
        double base = R.uni(-40, 40);
        auto state = [&](long k) { place p; p.t = k; p.lat = base + 0.001 * k; p.lon = -0.002 * k; p.alt = -k; p.speed = 3.0 * k; p.o = rot(orientation(0.5 * k, 0.01 * (k % 1000), 0)); return p; };
        auto put = [&](platform_model& p, long k) { p.update(k, wposition1(base + 0.001 * k, -0.002 * k, -(double)k), orientation(0.5 * k, 0.01 * (k % 1000), 0), 3.0 * k, platform_model::NO_UPDATE); };
        std::vector<pp> P;  // a chain of platforms
        std::vector<std::pair<std::array<double, 3>, mat>> mount;
        P.push_back(pp(new platform_model(1, "host")));
        mount.push_back({});
        put(*P[0], 0);
        for (int i = 1; i <= kids; ++i) {
            P.push_back(pp(new platform_model(i + 1, "child")));
            bvector off = offset(R);
            orientation o = orient(R);
            mount.push_back({{off.front(), off.right(), off.up()}, rot(o)});
            P[i - 1]->add_child(P[i], off, o);
        }
        std::atomic<bool> stop{false};
        std::atomic<int> up{0};
        std::atomic<long> reads{0}, distinct{0};
        std::mutex fm;
        std::string bad;
        auto oops = [&](const std::string& s) { std::lock_guard<std::mutex> g(fm); if (bad.empty()) bad = s; };
        std::vector<std::thread> T;
        for (int r = 0; r < readers; ++r) T.emplace_back([&, r] {
            std::vector<long> last(P.size(), -1);
            ++up;
            uint64_t x = r + 1;
            while (!stop) {
                x = vt::mix(x);
                size_t i = x % P.size();
                time_t t = 0; wposition1 w; orientation o; double s = 0;
                P[i]->get_motion(&t, &w, &o, &s);
                ++reads;
                place a = state(t);
                for (size_t j = 1; j <= i; ++j) {
                    std::vector<node> N(2);
                    N[0].at = a; N[0].kids[1] = mount[j];
                    follow(N, 0);
                    a = N[1].at;
                }
                if (t < last[i]) oops("time of a platform went back");
                if (t != last[i]) ++distinct;
                last[i] = t;
                if (s != a.speed || apart(a, w) > a.slack || apart(rot(o), a.o) > 1e-9)
                    oops(MSG("reading of platform " << i << " at time " << t << ": speed " << s << ", " << apart(a, w) << " m and " << apart(rot(o), a.o) << " from the state written"));
                if (x & 256) {  // single values are whole too
                    wposition1 v = P[0]->position();
                    long k = std::lround(-v.altitude());
                    if (apart(state(k), v) > 1e-4) oops("torn position");
                    mat m = rot(P[0]->orient());
                    double e = 0;
                    for (int a1 = 0; a1 < 3; ++a1) for (int b1 = 0; b1 < 3; ++b1) { double q = 0; for (int c = 0; c < 3; ++c) q += m[3 * a1 + c] * m[3 * b1 + c]; e = std::max(e, std::fabs(q - (a1 == b1))); }
                    if (e > 1e-9) oops("torn attitude");
                    double sp = P[0]->speed();
                    if (std::remainder(sp, 3.0) != 0.0) oops("torn speed");
                    if (P[0]->children().size() < 1) oops("child missing");
                    if (P.size() > 1 && P[1]->host() != P[0].get()) oops("host missing");
                    P[i]->is_acoustic_target();
                }
            }
        });
        std::vector<pp> extra;
        for (int i = 0; i < 3; ++i) extra.push_back(pp(new platform_model(100 + i, "extra")));
        std::thread mover([&] {
            uint64_t x = 77;
            while (churn && !stop) {
                x = vt::mix(x);
                auto& e = extra[x % 3];
                if (e->host() == nullptr) P[0]->add_child(e, bvector(1, 2, 3)); else P[0]->remove_child(e->keyID());
                e->is_acoustic_target((x & 64) != 0);
                nap(x % 50);
            }
        });
        while (up < readers) std::this_thread::yield();
        for (long k = 1; k <= steps; ++k) { put(*P[0], k); if (k % 16 == 0) nap(R.in(0, 40)); }
        stop = true;
        for (auto& t : T) t.join();
        mover.join();
        vt::obs("concurrent readings", reads);
        vt::obs("distinct states read", distinct);
        if (!bad.empty()) C.fail("concurrent reading", bad);
    });
    // Dead reckoning from several threads adds up to one track.
    vt::section("reckoners", 60, [&](Case& C, Rng& R) {
        int threads = R.in(2, 5), steps = R.in(20, 200);
        double speed = R.uni(1, 15), lat = R.uni(-60, 60);
        C.in("threads", threads).in("steps", steps).in("speed", speed).in("lat", lat);
        pp p(new platform_model(1, "p", 0, wposition1(lat, 10, -50), orientation(), speed)), kid(new platform_model(2, "k"));
        p->add_child(kid, bvector(100, 0, 0));
        std::atomic<int> up{0};
        std::vector<std::thread> T;
        std::vector<uint64_t> seeds;
        for (int i = 0; i < threads; ++i) seeds.push_back(R.next());
        for (int i = 0; i < threads; ++i) T.emplace_back([&, i] {
            ++up;
            while (up < threads) std::this_thread::yield();
            uint64_t x = seeds[i];
            for (int k = 0; k < steps; ++k) { x = vt::mix(x); p->update((time_t)(x % 5000), platform_model::NO_UPDATE); if (x & 4096) std::this_thread::yield(); }
        });
        for (auto& t : T) t.join();
        place a;
        a.t = p->time(); a.lat = lat; a.lon = 10; a.alt = -50;
        a = moved(a, speed * (double)a.t, 0, 0);
        double e = apart(a, p->position());
        CHECK(e < 1e-3, "lost motion", MSG("after reckoning to " << a.t << " s by " << threads << " threads the platform is " << e << " m off its track"));
        CHECK(kid->time() == p->time(), "child time", "child was left behind");
        place b = moved(a, 100, 0, 0);
        CHECK(apart(b, kid->position()) < 0.01, "child position", "child was left behind");
        vt::obs("concurrent reckonings", threads * steps);
    });
    vt::section("singleton", 150, [&](Case& C, Rng& R) {
        platform_manager::reset();
        int threads = R.in(2, 6), adds = R.in(1, 20);
        C.in("threads", threads).in("adds", adds);
        std::atomic<int> up{0};
        std::vector<std::thread> T;
        std::vector<platform_manager*> got(threads);
        std::vector<std::vector<uint64_t>> keys(threads);
        for (int i = 0; i < threads; ++i) T.emplace_back([&, i] {
            ++up;
            while (up < threads) ;
            got[i] = platform_manager::instance();
            for (int k = 0; k < adds; ++k) keys[i].push_back(platform_manager::instance()->add(pp(new platform_model(0, "x"))));
        });
        for (auto& t : T) t.join();
        std::set<uint64_t> all;
        for (int i = 0; i < threads; ++i) {
            CHECK(got[i] == got[0], "singleton", "threads were given different managers");
            all.insert(keys[i].begin(), keys[i].end());
        }
        CHECK((int)all.size() == threads * adds, "unique keys", MSG(all.size() << " keys for " << threads * adds << " platforms"));
        CHECK((int)platform_manager::instance()->list().size() == threads * adds, "lost", "platforms were lost");
        vt::obs("concurrent first uses");
        platform_manager::reset();
    });
    return vt::finish();
}
