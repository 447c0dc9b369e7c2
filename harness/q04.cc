// Q04: intensity and phase of eigenrays.
#include "scene.h"
static double db(double x) { return -10 * std::log10(x); }
int main(int argc, char** argv) {
    vt::init(argc, argv);
    auto body = [&](Case& C, Rng& R, bool constant) {
        Setup q = make(R, C, constant, 3, false, true, 6);
        Scene& s = q.s;
        wposition tg = q.targets({0, 1, 2});
        bool classic = R.chance(0.4);
        C.in("model", classic ? "classic" : "gaussian");
        wave_queue w(q.ocean, q.f, wposition1(q.src.lat, q.src.lon, -s.z0), q.de, q.az, s.dt, &tg, classic ? wave_queue::CLASSIC_RAY : wave_queue::HYBRID_GAUSSIAN);
        w.intensity_threshold(300);
        listener L;
        w.add_eigenray_listener(&L);
        run(w, s.tmax);
        const double cs = s.o.speed.c(s.z0);
        for (size_t t = 0; t < 3; ++t) {
            const Target& T = q.tg[t];
            const double bow = T.TH * ref::Re() * std::pow(q.daz * D, 2) / 8;
            const double lo = (q.de0 + 6 * s.dde / D) * D, hi = (q.de0 + (q.nde - 7) * s.dde / D) * D;
            for (auto& p : paths(q, T)) {
                if (p.de < lo || p.de > hi) continue;
                // beams of low frequency reach further
                const double ct = s.o.speed.c(T.z), spread = 2 * M_PI * ct / (*q.f)(0), cell = T.TH * ref::Re() * s.dde / std::cos(p.h.e);
                double wide = classic ? 3 : 1 + 4 * std::sqrt(1 + spread * spread / cell / cell);
                if (wide > 40 || !s.isolated(p.de, T.TH, p.h, nullptr, bow, std::ceil(wide))) { vt::obs("paths next to a change of the fan"); continue; }
                // coarse azimuths: the closest ray is passed early, so at another depth than the path
                if (bow * std::fabs(std::tan(p.h.e)) > 0.08 * cell) { vt::obs("paths between coarse azimuths"); continue; }
                const double h = s.dde;
                Hit a = s.hit(p.de - h, T.TH), b = s.hit(p.de + h, T.TH);
                const double dzde = std::fabs(b.z - a.z) / (2 * h), Rt = ref::Re() - T.z;
                double tube = std::cos(p.de) / (Rt * std::sin(T.TH) * dzde * std::cos(p.h.e));
                for (auto& g : L.got[{t, 0}]) {
                    if (g->surface != p.h.ns || g->bottom != p.h.nb || std::fabs(g->source_de - p.de / D) > 0.7 * s.dde / D) continue;
                    vt::obs(classic ? "classic" : "gaussian");
                    std::string id = MSG((classic ? "classic" : "gaussian") << " target " << t << " path de " << p.de / D << " time " << p.h.t << " surface " << p.h.ns << " bottom " << p.h.nb << ": ");
                    for (size_t f = 0; f < q.f->size(); ++f) {
                        const double F = (*q.f)(f);
                        double want = db(tube * (classic ? ct / cs : 1)), phase = -M_PI / 2 * g->caustic, bounce = 0;
                        for (auto& x : p.h.bounces) { bounce += x.bottom ? q.bl->loss(F, x.grazing) : q.sl->loss(F, x.grazing); phase += x.bottom ? q.bl->shift(F, x.grazing) : -M_PI; }
                        double absorb = q.att->a * F * (p.h.s + q.att->b * p.h.zs);
                        want += bounce + absorb;
                        double tol = (classic ? 0.3 : 0.12) + 0.02 * absorb;
                        vt::maxv(classic ? "classic dB" : constant ? "gaussian straight dB" : "gaussian refracted dB", std::fabs(g->intensity(f) - want));
                        if (absorb > 1) vt::obs("with absorption");
                        NEAR(g->intensity(f), want, tol, classic ? "loss_classic" : "loss_gaussian", id << "loss at " << F << " Hz of spreading " << db(tube) << " absorption " << absorb << " bounces " << bounce);
                        NEAR(g->phase(f), phase, 0.01 + 0.02 * p.h.bounces.size(), "phase", id << "phase at " << F << " Hz");
                        vt::maxv("phase", std::fabs(g->phase(f) - phase));
                    }
                }
            }
        }
    };
    vt::section("straight", 60, [&](Case& C, Rng& R) { body(C, R, true); });
    vt::section("refracted", 30, [&](Case& C, Rng& R) { body(C, R, false); });
    // the same fan with and without absorption: the difference is the absorption along the path, at the time of arrival
    auto absorbed = [&](Case& C, Rng& R, bool constant) {
        Setup q = make(R, C, constant, 3, constant, false, 6);
        Scene& s = q.s;
        wposition tg = q.targets({0, 1, 2});
        q.bl->a = 0; q.sl->a = 0;
        const double step = R.uni(0.5, 5), F0 = (*q.f)(0), alpha = step / (s.c * s.dt * F0);
        const double ls = R.uni(0, 3) / F0, lb = R.uni(0, 3) / F0;
        auto fan = [&](double a, listener& L) {
            q.att->a = a; q.att->b = 0;
            q.sl->per = a > 0 ? ls : 0; q.bl->per = a > 0 ? lb : 0;
            wave_queue w(q.ocean, q.f, wposition1(q.src.lat, q.src.lon, -s.z0), q.de, q.az, s.dt, &tg);
            w.intensity_threshold(1e5);
            w.add_eigenray_listener(&L);
            run(w, s.tmax);
        };
        listener L0, L1;
        C.in("absorption per step and Hz", step / F0).in("loss per surface bounce and Hz", ls).in("bottom", lb);
        fan(0, L0); fan(alpha, L1);
        for (size_t t = 0; t < 3; ++t) {
            auto &x = L0.got[{t, 0}], &y = L1.got[{t, 0}];
            CHECK(x.size() == y.size(), "absorbed_paths", "target " << t << ": " << x.size() << " paths without and " << y.size() << " with absorption");
            for (size_t i = 0; i < std::min(x.size(), y.size()); ++i) {
                auto &g = *x[i], &h = *y[i];
                CHECK(g.travel_time == h.travel_time && g.source_de == h.source_de, "absorbed_paths", "target " << t << " path " << i << ": another path with absorption");
                const double len = h.travel_time, edge = 1.5 * s.c * s.dt;
                if (h.surface + h.bottom > 0) { if (q.tg[t].z < edge || s.o.depth - q.tg[t].z < edge) { vt::obs("arrivals at a bounce"); continue; } vt::obs("arrivals after bounces"); }
                for (size_t f = 0; f < q.f->size(); ++f) {
                    const double per = alpha * (*q.f)(f) * s.c * s.dt, bounce = (*q.f)(f) * (h.surface * ls + h.bottom * lb), want = per * len / s.dt + bounce, got = h.intensity(f) - g.intensity(f);
                    vt::maxv(constant ? "absorbed straight, in steps" : "absorbed refracted, in steps", std::fabs(got - want) / per);
                    if (constant) NEAR(got, want, 0.02 * per + 1e-6 * bounce, "absorbed", "target " << t << " path " << i << " time " << len << " surface " << h.surface << " bottom " << h.bottom << ": absorption at " << (*q.f)(f) << " Hz with " << per << " dB per step");
                }
                vt::obs(MSG("arrival in part " << (int)std::floor(5 * (len / s.dt - std::floor(len / s.dt))) << " of 5 of a step"));
            }
        }
    };
    vt::section("absorbed", 30, [&](Case& C, Rng& R) { absorbed(C, R, true); });
    // short fans: targets between the last rays, where the beams beyond the end of the fan are missing
    vt::section("ends", 60, [&](Case& C, Rng& R) {
        Setup q = make(R, C, true, 3, true, true, 6);
        Scene& s = q.s;
        size_t done = 0;
        for (size_t t = 0; t < 3; ++t) {
            const Target& T = q.tg[t];
            double az = T.az - q.az0;
            az -= 360 * std::floor(az / 360);
            if (!q.circle && (az < 5 * q.daz || az > (q.naz - 6) * q.daz)) continue;
            const double bow = T.TH * ref::Re() * std::pow(q.daz * D, 2) / 8, ct = s.c, spread = 2 * M_PI * ct / (*q.f)(0);
            auto all = paths(q, T);
            for (size_t i = all.size(); i > 1; --i) std::swap(all[i - 1], all[R.in(0, (int)i - 1)]);
            for (auto& p : all) {
                const double cell = T.TH * ref::Re() * s.dde / std::cos(p.h.e), beams = std::sqrt(1 + spread * spread / cell / cell);
                if (done >= 4 || beams > 1.02 || !s.isolated(p.de, T.TH, p.h, nullptr, bow, 5)) continue;
                if (bow * std::fabs(std::tan(p.h.e)) > 0.08 * cell) continue;
                ++done;
                const size_t n = 8 + R.in(0, (int)(R.pick({10., 70.}) / (s.dde / D)));
                const bool up = R.chance(0.7);
                const double pos = R.uni(-0.45, 3), first = p.de / D - (up ? (double)n - 2 - pos : 1 + pos) * s.dde / D;
                if (first < -85 || first + n * s.dde / D > 85) continue;
                seq_vector::csptr de(new seq_linear(first, s.dde / D, n));
                wposition tg = q.targets({t});
                wave_queue w(q.ocean, q.f, wposition1(q.src.lat, q.src.lon, -s.z0), de, q.az, s.dt, &tg);
                w.intensity_threshold(300);
                listener L;
                w.add_eigenray_listener(&L);
                run(w, s.tmax);
                const double x = (p.de / D - first) / (s.dde / D);
                double sum = 0;
                for (size_t i = 0; i + 1 < n; ++i) sum += std::exp(-0.5 * std::pow(x - i - 0.5, 2)) / std::sqrt(2 * M_PI);
                const double h = s.dde;
                Hit a = s.hit(p.de - h, T.TH), b = s.hit(p.de + h, T.TH);
                const double dzde = std::fabs(b.z - a.z) / (2 * h), Rt = ref::Re() - T.z, tube = std::cos(p.de) / (Rt * std::sin(T.TH) * dzde * std::cos(p.h.e));
                for (auto& g : L.got[{0, 0}]) {
                    if (g->surface != p.h.ns || g->bottom != p.h.nb || std::fabs(g->source_de - p.de / D) > 0.7 * s.dde / D) continue;
                    const double F = (*q.f)(0);
                    double want = db(tube * sum);
                    for (auto& y : p.h.bounces) want += y.bottom ? q.bl->loss(F, y.grazing) : q.sl->loss(F, y.grazing);
                    const double absorb = q.att->a * F * (p.h.s + q.att->b * p.h.zs);
                    want += absorb;
                    vt::obs(MSG((up ? "upper" : "lower") << " end, interval " << (int)std::floor(pos)));
                    vt::maxv(MSG((up ? "upper" : "lower") << " end dB"), std::fabs(g->intensity(0) - want));
                    NEAR(g->intensity(0), want, (pos < 0.3 ? 1.2 : 0.6) + 0.02 * absorb, "loss_ends", "target " << t << " path " << p.de / D << " fan of " << n << " from " << first << " position " << x);
                }
            }
        }
    });
    return vt::finish();
}
