// Q03: eigenrays against the paths that exist between source and target.
#include "scene.h"
static void compare(Case& C, Setup& q, size_t k, const std::vector<eigenray_model::csptr>& G, double tmax) {
    Scene& s = q.s;
    const Target& t = q.tg[k];
    auto P = paths(q, t);
    const double bow = t.TH * ref::Re() * std::pow(q.daz * D, 2) / 8;
    std::vector<double> err[2];
    double lo = (q.de0 + 2 * s.dde / D) * D, hi = (q.de0 + (q.nde - 3) * s.dde / D) * D;
    std::vector<int> used(G.size());
    std::string id = MSG("target " << k << ": ");
    for (auto& p : P) {
        bool vert, iso = p.de > lo && p.de < hi && s.isolated(p.de, t.TH, p.h, &vert, bow);
        std::string pid = MSG(id << "path de " << p.de / D << " az " << t.az << " time " << p.h.t << " surface " << p.h.ns << " bottom " << p.h.nb << ": ");
        int n = 0;
        for (size_t i = 0; i < G.size(); ++i) {
            auto& g = *G[i];
            if (g.surface != p.h.ns || g.bottom != p.h.nb || std::fabs(g.source_de - p.de / D) > 1.5 * s.dde / D) continue;
            used[i] = 1;
            ++n;
            if (!iso) continue;
            double te = g.travel_time - p.h.t, de = (g.source_de - p.de / D) / (s.dde / D), ta = (g.target_de - p.h.e / D) / (s.dde / D);
            double sa = std::remainder(g.source_az - t.az, 360), ra = std::remainder(g.target_az - t.arrive / D, 360);
            vt::maxv("time/(.1 dt + bow)", std::fabs(te) / (s.dt * .1 + bow / s.c)); vt::maxv("time/dt", std::fabs(te) / s.dt); vt::maxv("de/step", std::fabs(de)); vt::maxv("tde/step", std::fabs(ta)); vt::maxv("saz/step", std::fabs(sa) / q.daz); vt::maxv("taz/step", std::fabs(ra) / q.daz);
            err[0].push_back(std::fabs(de)); err[1].push_back(std::fabs(ta));
            NEAR(g.travel_time, p.h.t, 0.2 * s.dt + 1.2 * bow / s.c, "time", pid << "travel time");
            NEAR(g.source_de, p.de / D, 0.6 * s.dde / D, "source_de", pid << "launch elevation");
            NEAR(g.target_de, p.h.e / D, 1.0 * s.dde / D, "target_de", pid << "arrival elevation");
            CHECK(std::fabs(sa) < 0.05 * q.daz, "source_az", pid << "launch azimuth " << g.source_az);
            CHECK(std::fabs(ra) < 0.05 * q.daz, "target_az", pid << "arrival azimuth " << g.target_az << " for " << t.arrive / D);
            CHECK(!vert || (g.upper == p.h.nu && g.lower == p.h.nl), "vertices", pid << g.upper << " upper and " << g.lower << " lower vertices for " << p.h.nu << " and " << p.h.nl);
            CHECK(g.frequencies->size() == q.f->size() && g.intensity.size() == q.f->size() && g.phase.size() == q.f->size(), "frequencies", pid << "frequencies " << g.frequencies->size());
        }
        if (p.h.t > tmax - 3 * s.dt) continue;
        if (!iso) { vt::obs("paths too close to a change of the fan"); continue; }
        vt::obs("paths");
        CHECK(n > 0, "missed", pid << "no eigenray");
        CHECK(n < 2, "twice", pid << n << " eigenrays");
    }
    for (int k = 0; k < 2; ++k) {
        if (err[k].size() < 5) continue;
        std::sort(err[k].begin(), err[k].end());
        double m = err[k][err[k].size() / 2];
        vt::maxv(k ? "median tde/step" : "median de/step", m);
        CHECK(m < 0.2, k ? "target_de_median" : "source_de_median", id << "half of the " << err[k].size() << " eigenrays are off by more than " << m << " fan steps in elevation");
    }
    for (size_t i = 0; i < G.size(); ++i) {
        if (used[i]) continue;
        auto& g = *G[i];
        double e = g.source_de * D;
        if (e < lo || e > hi) continue;
        Hit h = s.hit(e, t.TH);
        if (h.ok && h.ns == g.surface && h.nb == g.bottom && s.isolated(e, t.TH, h, nullptr, bow))
            C.fail("spurious", MSG(id << "eigenray de " << g.source_de << " az " << g.source_az << " time " << g.travel_time << " surface " << g.surface << " bottom " << g.bottom << " passes the target range at depth " << h.z << " for a target at " << t.z));
        else if (!h.ok || h.ns != g.surface || h.nb != g.bottom) vt::obs("eigenrays at a change of the fan");
        double dt2 = h.ok ? std::fabs(h.t - g.travel_time) : 0;
        vt::maxv("unused time", dt2);
    }
}
int main(int argc, char** argv) {
    vt::init(argc, argv);
    vt::section("constant", 60, [&](Case& C, Rng& R) {
        Setup q = make(R, C, true, 3, false);
        wposition tg = q.targets({0, 1, 2});
        wave_queue w(q.ocean, q.f, wposition1(q.src.lat, q.src.lon, -q.s.z0), q.de, q.az, q.s.dt, &tg);
        listener L;
        w.add_eigenray_listener(&L);
        run(w, q.s.tmax);
        for (size_t k = 0; k < 3; ++k) compare(C, q, k, L.got[{k, 0}], q.s.tmax);
    });
    vt::section("refracted", 30, [&](Case& C, Rng& R) {
        Setup q = make(R, C, false, 3, false);
        wposition tg = q.targets({0, 1, 2});
        wave_queue w(q.ocean, q.f, wposition1(q.src.lat, q.src.lon, -q.s.z0), q.de, q.az, q.s.dt, &tg);
        listener L;
        w.add_eigenray_listener(&L);
        run(w, q.s.tmax);
        for (size_t k = 0; k < 3; ++k) compare(C, q, k, L.got[{k, 0}], q.s.tmax);
    });
    vt::section("independent", 30, [&](Case& C, Rng& R) {
        Setup q = make(R, C, R.chance(0.5), 6, true);
        q.s.tmax = std::min(q.s.tmax, 5.0);
        auto go = [&](std::vector<size_t> which, size_t rows, int how) {
            wposition tg(rows, which.size() / rows);
            for (size_t i = 0; i < which.size(); ++i) { auto& t = q.tg[which[i]]; size_t a = i / tg.size2(), b = i % tg.size2(); tg.latitude(a, b, t.at.lat); tg.longitude(a, b, t.at.lon); tg.altitude(a, b, -t.z); }
            wave_queue w(q.ocean, q.f, wposition1(q.src.lat, q.src.lon, -q.s.z0), q.de, q.az, q.s.dt, &tg);
            listener L, M;
            w.add_eigenray_listener(&L);
            if (how == 1) w.add_eigenray_listener(&M);
            if (how == 2) { w.add_eigenray_listener(&M); w.remove_eigenray_listener(&M); }
            run(w, q.s.tmax);
            if (how == 1) CHECK(M.got == L.got, "listeners", "two listeners were not told the same");
            if (how == 2) CHECK(M.got.empty(), "listeners", "a removed listener was told");
            std::map<size_t, std::vector<eigenray_model::csptr>> out;
            for (size_t i = 0; i < which.size(); ++i) { auto k = std::make_pair(i / tg.size2(), i % tg.size2()); if (L.got.count(k)) out[which[i]] = L.got[k]; L.got.erase(k); }
            CHECK(L.got.empty(), "no_target", "eigenrays for a target that does not exist");
            return out;
        };
        auto all = go({0, 1, 2, 3, 4, 5}, R.pick({1, 2, 3, 6}), R.in(0, 2));
        std::vector<size_t> some;
        for (size_t i = 0; i < 6; ++i) if (R.chance(0.4)) some.push_back(i);
        if (some.empty()) some.push_back(3);
        for (size_t i = some.size(); i-- > 1;) std::swap(some[i], some[R.in(0, (int)i)]);
        auto part = go(some, 1, 0);
        for (size_t i : some) {
            auto &a = all[i], &b = part[i];
            CHECK(a.size() == b.size(), "other_targets", "target " << i << ": " << a.size() << " eigenrays among others, " << b.size() << " among fewer");
            for (size_t k = 0; k < std::min(a.size(), b.size()); ++k) {
                vt::obs("eigenrays compared");
                auto &x = *a[k], &y = *b[k];
                bool ok = x.travel_time == y.travel_time && x.source_de == y.source_de && x.source_az == y.source_az && x.target_de == y.target_de && x.target_az == y.target_az && x.surface == y.surface && x.bottom == y.bottom && x.caustic == y.caustic && x.upper == y.upper && x.lower == y.lower;
                for (size_t f = 0; f < q.f->size(); ++f) ok = ok && vt::same(x.intensity(f), y.intensity(f)) && vt::same(x.phase(f), y.phase(f));
                CHECK(ok, "other_targets", "target " << i << " eigenray " << k << " differs when there are fewer targets");
            }
        }
    });
    vt::section("limits", 30, [&](Case& C, Rng& R) {
        Setup q = make(R, C, R.chance(0.4), 2, true);
        q.s.tmax = std::min(q.s.tmax, 6.0);
        wposition tg = q.targets({0, 1});
        int mb = R.chance(0.4) ? 999 : R.in(0, 3), ms = R.chance(0.4) ? 999 : R.in(0, 3), mc = R.chance(0.6) ? 999 : R.in(0, 1), mu = R.chance(0.6) ? 999 : R.in(0, 1);
        double lim = R.chance(0.5) ? 300 : R.uni(60, 80);
        C.in("max_bottom", mb).in("max_surface", ms).in("max_caustic", mc).in("max_upper", mu).in("limit", lim);
        listener L[2];
        for (int k = 0; k < 2; ++k) {
            wave_queue w(q.ocean, q.f, wposition1(q.src.lat, q.src.lon, -q.s.z0), q.de, q.az, q.s.dt, &tg);
            if (k) { w.max_bottom(mb); w.max_surface(ms); w.max_caustic(mc); w.max_upper(mu); w.intensity_threshold(lim); }
            w.add_eigenray_listener(&L[k]);
            run(w, q.s.tmax);
        }
        for (size_t t = 0; t < 2; ++t) {
            auto &a = L[0].got[{t, 0}], &b = L[1].got[{t, 0}];
            size_t j = 0;
            for (auto& x : a) {
                bool keep = x->bottom <= mb && x->surface <= ms && x->caustic <= mc && x->upper <= mu, loud = false;
                double near = 1e9;
                for (double v : x->intensity) { loud = loud || v < lim; near = std::min(near, std::fabs(v - lim)); }
                keep = keep && loud;
                vt::obs(keep ? "kept" : "suppressed");
                if (keep) {
                    bool ok = j < b.size() && b[j]->travel_time == x->travel_time && b[j]->source_de == x->source_de && b[j]->source_az == x->source_az;
                    CHECK(ok, "within_limits", "target " << t << " eigenray de " << x->source_de << " time " << x->travel_time << " bottom " << x->bottom << " surface " << x->surface << " caustic " << x->caustic << " upper " << x->upper << " loss " << x->intensity(0) << " is within the limits and not reported");
                    if (!ok) return;
                    ++j;
                }
            }
            CHECK(j == b.size(), "beyond_limits", "target " << t << ": " << b.size() - j << " eigenrays beyond the limits or not there without limits");
        }
    });
    return vt::finish();
}
