// O01: shared environment snapshots, concurrent queries.
#include <usml/ocean/ocean.h>
#include <usml/types/types.h>
#include "vt.h"
using namespace usml::ocean;
using namespace usml::types;
using boost::numeric::ublas::matrix;
typedef boost::numeric::ublas::vector<double> dv;
static double E() { return wposition::earth_radius; }
static void nap(double us) { std::this_thread::sleep_for(std::chrono::microseconds((long)us)); }
static std::atomic<long> tick{0};
static seq_vector::csptr axis(Rng& R, double lo, double hi, size_t n, bool even) {
    if (even) { double d = (hi - lo) / (n - 1); return seq_vector::csptr(new seq_linear(lo, d, (int)n)); }
    std::vector<double> v;
    for (size_t i = 0; i < n; ++i) v.push_back(lo + (hi - lo) * (i + (i && i + 1 < n ? R.uni(-0.35, 0.35) : 0)) / (n - 1));
    if (R.chance(0.3)) std::reverse(v.begin(), v.end());
    return seq_vector::csptr(new seq_data(v.data(), v.size()));
}
template <size_t N> static std::shared_ptr<gen_grid<N>> grid(Rng& R, const double lo[], const double hi[], const size_t sz[], bool even, double mid, double half) {
    seq_vector::csptr ax[N];
    for (size_t d = 0; d < N; ++d) ax[d] = axis(R, lo[d], hi[d], sz[d], even && d > 0);
    auto g = std::make_shared<gen_grid<N>>(ax);
    size_t k[N];
    for (size_t a = 0; a < sz[0]; ++a) for (size_t b = 0; b < (N > 1 ? sz[1] : 1); ++b) for (size_t c = 0; c < (N > 2 ? sz[2] : 1); ++c) {
        size_t full[3] = {a, b, c};
        for (size_t d = 0; d < N; ++d) k[d] = full[d];
        g->setdata(k, mid + R.uni(-half, half));
    }
    for (size_t d = 0; d < N; ++d) { g->interp_type(d, R.pick({interp_enum::nearest, interp_enum::linear, interp_enum::pchip})); g->edge_limit(d, true); }
    return g;
}
struct env {
    ocean_model::csptr o;
    std::shared_ptr<ambient_model> noise;
    std::string what;
};
static reflect_loss_model::csptr loss(Rng& R, std::string& w) {
    switch (R.in(0, 4)) {
        case 0: w += "const,"; return reflect_loss_model::csptr(new reflect_loss_constant(R.uni(0, 9), R.uni(-3, 3)));
        case 1: w += "eckart,"; return reflect_loss_model::csptr(new reflect_loss_eckart(R.uni(0, 15)));
        case 2: w += "beckmann,"; return reflect_loss_model::csptr(new reflect_loss_beckmann(R.uni(0, 15)));
        case 3: w += "rayleigh,"; return reflect_loss_model::csptr(new reflect_loss_rayleigh(bottom_type_enum(R.in(0, 7))));
        default: {
            w += "rayleigh_grid,";
            double lo[2] = {10, 20}, hi[2] = {30, 40};
            size_t sz[2] = {(size_t)R.in(2, 5), (size_t)R.in(2, 5)};
            seq_vector::csptr ax[2] = {axis(R, lo[0], hi[0], sz[0], true), axis(R, lo[1], hi[1], sz[1], true)};
            auto* g = new gen_grid<2>(ax);
            for (size_t a = 0; a < sz[0]; ++a) for (size_t b = 0; b < sz[1]; ++b) { size_t k[2] = {a, b}; g->setdata(k, R.in(0, 7)); }
            return reflect_loss_model::csptr(new reflect_loss_rayleigh_grid(data_grid<2>::sptr(g)));
        }
    }
}
static scattering_model::csptr scat(Rng& R) {
    switch (R.in(0, 2)) {
        case 0: return scattering_model::csptr(new scattering_constant(R.uni(-60, 0)));
        case 1: return scattering_model::csptr(new scattering_lambert(R.uni(-40, -10)));
        default: return scattering_model::csptr(new scattering_chapman(R.uni(1, 20)));
    }
}
static env make(Rng& R) {
    env e;
    double lo[3] = {E() - 5000, to_colatitude(30.0), to_radians(20.0)}, hi[3] = {E(), to_colatitude(10.0), to_radians(40.0)};
    size_t sz[3] = {(size_t)R.in(4, 8), (size_t)R.in(4, 6), (size_t)R.in(4, 6)};
    auto boundary = [&](double depth) -> boundary_model::csptr {
        auto l = loss(R, e.what);
        auto s = scat(R);
        switch (R.in(0, 4)) {
            case 0: e.what += "flat "; return boundary_model::csptr(new boundary_flat(depth, l, s));
            case 1: e.what += "slope "; return boundary_model::csptr(new boundary_slope(wposition1(20, 30, 0), depth, R.uni(-0.02, 0.02), R.uni(-0.02, 0.02), l, s));
            case 2: e.what += "grid1 "; return boundary_model::csptr(new boundary_grid<1>(grid<1>(R, lo + 1, hi + 1, sz + 1, false, E() - depth, 50), l, s));
            case 3: e.what += "grid2 "; return boundary_model::csptr(new boundary_grid<2>(grid<2>(R, lo + 1, hi + 1, sz + 1, false, E() - depth, 50), l, s));
            default: {
                e.what += "bathy ";
                seq_vector::csptr ax[2] = {axis(R, lo[1], hi[1], sz[1], true), axis(R, lo[2], hi[2], sz[2], true)};
                auto g = std::make_shared<gen_grid<2>>(ax);
                for (size_t a = 0; a < sz[1]; ++a) for (size_t b = 0; b < sz[2]; ++b) { size_t k[2] = {a, b}; g->setdata(k, E() - depth + R.uni(-50, 50)); }
                for (int d = 0; d < 2; ++d) g->interp_type(d, interp_enum::pchip), g->edge_limit(d, true);
                data_grid<2>::csptr dg = g;
                return boundary_model::csptr(new boundary_grid<2>(data_grid<2>::csptr(new data_grid_bathy(dg)), l, s));
            }
        }
    };
    auto top = boundary(0), bot = boundary(R.uni(2000, 5000));
    attenuation_model::csptr att(R.chance(0.5) ? (attenuation_model*)new attenuation_thorp : new attenuation_constant(R.uni(0, 1e-3)));
    profile_model::csptr p;
    switch (R.in(0, 8)) {
        case 0: e.what += "linear"; p.reset(new profile_linear(1500, R.uni(-0.05, 0.05), 800, 0.016, att)); break;
        case 1: e.what += "munk"; p.reset(new profile_munk(1300, 1300, 1500, 7.37e-3, att)); break;
        case 2: e.what += "catenary"; p.reset(new profile_catenary(1500, 0.015, 1000, att)); break;
        case 3: e.what += "n2"; p.reset(new profile_n2(1550, 1.2, att)); break;
        case 4: e.what += "grid1"; p.reset(new profile_grid<1>(grid<1>(R, lo, hi, sz, false, 1500, 20), att)); break;
        case 5: e.what += "grid2"; p.reset(new profile_grid<2>(grid<2>(R, lo, hi, sz, false, 1500, 20), att)); break;
        case 6: e.what += "grid3"; p.reset(new profile_grid<3>(grid<3>(R, lo, hi, sz, false, 1500, 20), att)); break;
        case 7: {
            e.what += "svp";
            auto g = grid<3>(R, lo, hi, sz, true, 1500, 20);
            g->interp_type(0, interp_enum::pchip); g->interp_type(1, interp_enum::linear); g->interp_type(2, interp_enum::linear);
            data_grid<3>::csptr dg = g;
            p.reset(new profile_grid<3>(data_grid<3>::csptr(new data_grid_svp(dg)), att));
            break;
        }
        default: {
            e.what += "mackenzie";
            uint64_t seed = R.next();
            Rng r1(seed), r2(seed);
            auto t = grid<3>(r1, lo, hi, sz, true, 10, 9), s = grid<3>(r2, lo, hi, sz, true, 35, 2);
            p.reset(new profile_grid<3>(data_grid<3>::csptr(new data_grid_mackenzie(t, s)), att));
        }
    }
    if (R.chance(0.3)) const_cast<profile_model*>(p.get())->flat_earth(true);
    auto* o = new ocean_model(top, bot, p);
    for (int k = R.in(0, 2); k > 0; --k) o->add_volume(volume_model::csptr(new volume_flat(100.0 * k, 20, scat(R))));
    e.o.reset(o);
    if (R.chance(0.6)) e.noise.reset(new ambient_wenz(R.uni(0, 20), R.in(0, 7), R.in(0, 3))); else e.noise.reset(new ambient_constant(R.uni(30, 80)));
    return e;
}
// one question and its answer as a list of numbers
static std::vector<double> ask(const env& e, uint64_t seed) {
    Rng R(seed);
    const ocean_model& o = *e.o;
    std::vector<double> a;
    size_t n = R.in(1, 3), m = R.in(1, 4);
    wposition w(n, m);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) { w.latitude(i, j, R.uni(8, 32)); w.longitude(i, j, R.uni(18, 42)); w.altitude(i, j, -R.uni(0, 5100)); }
    wposition1 p(w, 0, 0);
    size_t nf = R.in(1, 4);
    seq_vector::csptr f(new seq_log(R.uni(50, 300), 2.5, (int)nf));
    auto put = [&](const dv& v) { for (double x : v) a.push_back(x); };
    boundary_model::csptr b = R.chance(0.5) ? o.surface() : o.bottom();
    switch (R.in(0, 8)) {
        case 0: case 1: {
            matrix<double> s(n, m);
            wvector g(n, m);
            bool grad = R.chance(0.6);
            o.profile()->sound_speed(w, &s, grad ? &g : nullptr);
            for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) { a.push_back(s(i, j)); if (grad) { a.push_back(g.rho(i, j)); a.push_back(g.theta(i, j)); a.push_back(g.phi(i, j)); } }
            break;
        }
        case 2: {
            matrix<double> d(n, m);
            matrix<dv> x(n, m);
            for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) { d(i, j) = R.uni(1, 1e5); x(i, j) = dv(nf); }
            o.profile()->attenuation(w, f, d, &x);
            for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) put(x(i, j));
            break;
        }
        case 3: {
            double r;
            wvector1 v;
            bool nrm = R.chance(0.6);
            b->height(p, &r, nrm ? &v : nullptr);
            a.push_back(r);
            if (nrm) { a.push_back(v.rho()); a.push_back(v.theta()); a.push_back(v.phi()); }
            break;
        }
        case 4: {
            matrix<double> r(n, m);
            wvector v(n, m);
            bool nrm = R.chance(0.6);
            b->height(w, &r, nrm ? &v : nullptr);
            for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) { a.push_back(r(i, j)); if (nrm) a.push_back(v.rho(i, j) + v.theta(i, j) + v.phi(i, j)); }
            break;
        }
        case 5: {
            dv x(nf), y(nf);
            b->reflect_loss(p, f, R.uni(0.01, 1.57), &x, &y);
            put(x); put(y);
            break;
        }
        case 6: {
            dv x(nf);
            o.scattering(R.in(0, 1 + 2 * o.num_volume()), p, f, R.uni(0.01, 1.5), R.uni(0.01, 1.5), R.uni(0, 6), R.uni(0, 6), &x);
            put(x);
            break;
        }
        case 7: {
            dv x(nf);
            e.noise->ambient(p, f, &x);
            put(x);
            break;
        }
        default: {
            matrix<double> r(n, m), t(n, m), de(n, m), az(n, m);
            matrix<dv> x(n, m);
            for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) { de(i, j) = R.uni(0.01, 1.5); az(i, j) = R.uni(0, 6); x(i, j) = dv(nf); }
            if (o.num_volume()) {
                auto v = o.volume(R.in(0, o.num_volume() - 1));
                v->depth(w, &r, &t);
                a.push_back(r(0, 0)); a.push_back(t(0, 0));
                v->scattering(w, f, R.uni(0.1, 1.5), de, 0.5, az, &x);
            } else b->scattering(w, f, R.uni(0.1, 1.5), de, 0.5, az, &x);
            for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) put(x(i, j));
        }
    }
    return a;
}
static bool equal(const std::vector<double>& a, const std::vector<double>& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i]) && !(std::isnan(a[i]) && std::isnan(b[i]))) return false;
    return true;
}
// an environment whose every part carries the same number
static ocean_model::csptr numbered(int k) {
    boundary_model::csptr top(new boundary_flat(0.0, reflect_loss_model::csptr(new reflect_loss_constant(k, 1)), scattering_model::csptr(new scattering_constant(-k - 1.0))));
    boundary_model::csptr bot(new boundary_flat(1000.0 + k, reflect_loss_model::csptr(new reflect_loss_constant(k, 2)), scattering_model::csptr(new scattering_constant(-k - 1.0))));
    profile_model::csptr p(new profile_linear(1400.0 + k, attenuation_model::csptr(new attenuation_constant(k * 1e-3))));
    std::vector<volume_model::csptr> v(1, volume_model::csptr(new volume_flat(100.0 + k, 10.0, -k - 1.0)));
    return ocean_model::csptr(new ocean_model(top, bot, p, &v));
}
static std::vector<double> parts(const ocean_model& o) {
    static const double fr[1] = {1000};
    seq_vector::csptr f(new seq_data(fr, 1));
    wposition1 p(1, 2, -5);
    wposition w(1, 1, 1, 2, -5);
    dv x(1);
    double r;
    matrix<double> s(1, 1), d(1, 1, 1.0);
    matrix<dv> m(1, 1);
    m(0, 0) = dv(1);
    std::vector<double> a;
    o.surface()->reflect_loss(p, f, 0.5, &x); a.push_back(x[0]);
    o.bottom()->reflect_loss(p, f, 0.5, &x); a.push_back(x[0]);
    o.bottom()->height(p, &r); a.push_back(E() - 1000 - r);
    o.profile()->sound_speed(w, &s); a.push_back(s(0, 0) - 1400);
    o.profile()->attenuation(w, f, d, &m); a.push_back(m(0, 0)[0]);
    for (int i : {0, 1, 2}) { o.scattering(i, p, f, 0.5, 0.5, 0.5, 0.5, &x); a.push_back(-10 * std::log10(x[0]) - 1); }
    o.volume(0)->depth(p, &r); a.push_back(E() - 100 - r);
    a.push_back(o.num_volume() == 1 ? a[0] : -1);
    return a;
}

int main(int argc, char** argv) {
    vt::init(argc, argv);
    vt::section("query", 500, [&](Case& C, Rng& R) {
        env e = make(R);
        unsigned n = R.in(2, 6);
        size_t each = R.in(5, 60);
        bool same = R.chance(0.5), first = R.chance(0.5);
        C.in("ocean", e.what).in("threads", n).in("each", each).in("same_questions", same).in("reference_first", first);
        std::vector<std::vector<uint64_t>> qs(n);
        for (unsigned t = 0; t < n; ++t) for (size_t i = 0; i < each; ++i) qs[t].push_back(same && t ? qs[0][i] : R.next());
        std::vector<std::vector<std::vector<double>>> want(n), got(n);
        auto ref = [&] { for (unsigned t = 0; t < n; ++t) for (uint64_t q : qs[t]) want[t].push_back(ask(e, q)); };
        if (first) ref();
        std::atomic<unsigned> ready{0};
        std::vector<std::thread> th;
        for (unsigned t = 0; t < n; ++t) th.emplace_back([&, t] {
            ++ready;
            while (ready < n) {}
            for (uint64_t q : qs[t]) got[t].push_back(ask(e, q));
        });
        for (auto& t : th) t.join();
        if (!first) ref();
        for (unsigned t = 0; t < n; ++t) for (size_t i = 0; i < each; ++i)
            CHECK(equal(got[t][i], want[t][i]), "answer", "thread " << t << " question " << i << " got " << (got[t][i].empty() ? 0 : got[t][i][0]) << " alone " << (want[t][i].empty() ? 0 : want[t][i][0]) << " in " << e.what);
        vt::obs("answers", n * each);
    });
    vt::section("publish", 400, [&](Case& C, Rng& R) {
        int readers = R.in(1, 5), pubs = R.in(1, 2), each = R.in(2, 40);
        double resets = R.pick({0.0, 0.0, 0.3});
        C.in("readers", readers).in("publishers", pubs).in("each", each).in("resets", resets);
        ocean_shared::reset();
        struct pub { int k; long t0, t1; };
        std::vector<std::vector<pub>> P(pubs);
        std::vector<std::vector<std::weak_ptr<const ocean_model>>> weak(pubs);
        struct look { int k; long t0, t1; bool mixed, changed; };
        std::vector<std::vector<look>> L(readers);
        std::vector<uint64_t> seeds;
        for (int t = 0; t < readers + pubs; ++t) seeds.push_back(R.next());
        std::atomic<int> ready{0}, left{pubs};
        std::vector<std::thread> th;
        for (int t = 0; t < readers + pubs; ++t) th.emplace_back([&, t] {
            Rng r(seeds[t]);
            ++ready;
            while (ready < readers + pubs) {}
            if (t < pubs) {
                for (int i = 0; i < each; ++i) {
                    pub p;
                    if (r.chance(resets)) { p.k = -1; p.t0 = ++tick; ocean_shared::reset(); p.t1 = ++tick; }
                    else {
                        p.k = 1 + i * pubs + t;
                        auto o = numbered(p.k);
                        weak[t].push_back(o);
                        p.t0 = ++tick; ocean_shared::update(o); p.t1 = ++tick;
                    }
                    P[t].push_back(p);
                    if (r.chance(0.3)) nap(r.uni(0, 100));
                }
                --left;
            } else {
                std::vector<std::pair<ocean_model::csptr, int>> held;
                do {
                    look l;
                    l.t0 = ++tick;
                    ocean_model::csptr o = ocean_shared::current();
                    l.t1 = ++tick;
                    l.mixed = l.changed = false;
                    l.k = -1;
                    if (o) {
                        auto a = parts(*o);
                        l.k = (int)std::lround(a[0]);
                        for (double x : a) l.mixed = l.mixed || std::fabs(x - l.k) > 1e-6;
                        if (r.chance(0.3)) held.push_back({o, l.k});
                    }
                    if (!held.empty()) { auto& h = r.of(held); for (double x : parts(*h.first)) l.changed = l.changed || std::fabs(x - h.second) > 1e-6; }
                    L[t - pubs].push_back(l);
                    if (!o) nap(20);
                } while (left > 0 && L[t - pubs].size() < 3000);
            }
        });
        for (auto& t : th) t.join();
        std::vector<pub> all(1, pub{-1, -2, -1});
        for (auto& v : P) all.insert(all.end(), v.begin(), v.end());
        // the reset above comes before everything
        for (auto& v : L) for (auto& l : v) {
            CHECK(!l.mixed, "mixture", "an environment with parts of different ones, first is " << l.k);
            CHECK(!l.changed, "changed", "a held environment changed");
            bool ok = false;
            for (auto& p : all) {
                if (p.k != l.k || p.t0 > l.t1) continue;
                bool over = false;
                for (auto& q : all) over = over || (q.t0 > p.t1 && q.t1 < l.t0);
                if (!over) { ok = true; break; }
            }
            CHECK(ok, "stale", "read " << l.k << " which was replaced before the call or never published");
            vt::obs(l.k < 0 ? "read_empty" : "read");
        }
        ocean_model::csptr last = ocean_shared::current();
        ocean_shared::reset();
        CHECK(ocean_shared::current() == nullptr, "reset", "environment left after reset");
        if (last) { auto a = parts(*last); for (double x : a) CHECK(std::fabs(x - a[0]) < 1e-6, "kept", "environment broken by reset"); }
        int keep = last ? (int)std::lround(parts(*last)[0]) : -1;
        last.reset();
        size_t alive = 0;
        for (auto& v : weak) for (auto& q : v) alive += !q.expired();
        CHECK(alive == 0, "released", alive << " environments are never freed, the last was " << keep);
        vt::obs("published", all.size() - 1);
    });
    vt::section("canned", 60, [&](Case& C, Rng& R) {
        double d = R.uni(50, 6000), bl = R.uni(0, 30);
        C.in("depth", d).in("loss", bl);
        bool def = R.chance(0.2);
        if (def) ocean_utils::make_iso(d); else ocean_utils::make_iso(d, bl);
        auto o = ocean_shared::current();
        CHECK(o && o->surface() && o->bottom() && o->profile(), "iso.parts", "");
        wposition1 p(R.uni(-80, 80), R.uni(-180, 180), -R.uni(0, 50));
        wposition w(1, 1, p.latitude(), p.longitude(), p.altitude());
        double r;
        matrix<double> s(1, 1);
        wvector g(1, 1);
        o->surface()->height(p, &r); NEAR(r, E(), 1e-6, "iso.surface", "");
        if (def) bl = 0;
        {
            o->bottom()->height(p, &r); NEAR(r, E() - d, 1e-6, "iso.bottom", "");
            dv x(1);
            double f = 700;
            o->bottom()->reflect_loss(p, seq_vector::csptr(new seq_data(&f, 1)), 0.4, &x); NEAR(x[0], bl, 1e-9, "iso.loss", "");
        }
        {
            dv x(1), ph(1);
            double f = 700;
            seq_vector::csptr fs(new seq_data(&f, 1));
            o->surface()->reflect_loss(p, fs, R.uni(0.05, 1.5), &x, &ph); NEAR(x[0], 0, 1e-9, "iso.surface_loss", ""); NEAR(std::cos(ph[0]), -1, 1e-9, "iso.surface_phase", "");
            matrix<double> dist(1, 1); dist(0, 0) = R.logu(1, 1e6);
            matrix<vector<double>> at(1, 1); at(0, 0) = vector<double>(1);
            o->profile()->attenuation(w, fs, dist, &at); NEAR(at(0, 0)(0), 0, 1e-12, "iso.absorption", "");
        }
        o->profile()->sound_speed(w, &s, &g);
        NEAR(s(0, 0), 1500, 1e-9, "iso.speed", "");
        CHECK(g.rho(0, 0) == 0 && g.theta(0, 0) == 0 && g.phi(0, 0) == 0, "iso.gradient", g.rho(0, 0));
        ocean_shared::reset();
    });
    return vt::finish();
}
