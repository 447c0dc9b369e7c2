// E01: eigenray collections: bookkeeping, totals, dead reckoning, notification.
#include <usml/eigenrays/eigenrays.h>
#include <usml/ocean/ocean.h>
#include <usml/types/types.h>
#include <algorithm>
#include "vt.h"
using namespace usml::eigenrays;
using namespace usml::ocean;
using namespace usml::types;
using boost::numeric::ublas::matrix;
typedef boost::numeric::ublas::vector<double> dv;
static const double D = M_PI / 180;
static eigenray_model* ray(Rng& R, const seq_vector::csptr& f, double tmax = 100) {
    auto* r = new eigenray_model();
    r->frequencies = f;
    r->travel_time = R.uni(0.01, tmax);
    r->intensity.resize(f->size());
    r->phase.resize(f->size());
    for (size_t i = 0; i < f->size(); ++i) r->intensity[i] = R.uni(20, 120), r->phase[i] = R.uni(-7, 7);
    r->source_de = R.uni(-89, 89); r->target_de = R.uni(-89, 89);
    r->source_az = R.uni(-180, 360); r->target_az = R.uni(-180, 360);
    if (R.chance(0.3)) r->source_az = 359.9 * R.u();
    r->surface = R.in(0, 9); r->bottom = R.in(0, 9); r->caustic = R.in(0, 9); r->upper = R.in(0, 9); r->lower = R.in(0, 9);
    return r;
}
static seq_vector::csptr freqs(Rng& R) {
    std::vector<double> f(R.in(1, 4));
    double x = R.logu(5, 500);
    for (auto& v : f) v = x, x *= R.uni(1.1, 4);
    return seq_vector::csptr(new seq_data(f.data(), f.size()));
}
static bool azclose(double a, double b, double tol) { return std::fabs(std::remainder(a - b, 360)) < tol; }
struct probe : eigenray_listener {
    std::vector<std::tuple<size_t, size_t, const eigenray_model*, size_t>> got;
    std::vector<std::pair<double, size_t>> checks;
    void add_eigenray(size_t a, size_t b, eigenray_model::csptr r, size_t id) override { got.emplace_back(a, b, r.get(), id); }
    void check_eigenrays(double t, size_t id) override { checks.emplace_back(t, id); }
};
struct subject : eigenray_notifier {
    void fire(size_t a, size_t b, eigenray_model::csptr r, size_t id) { notify_eigenray_listeners(a, b, r, id); }
    void chk(double t, size_t id) { check_eigenray_listeners(t, id); }
};

int main(int argc, char** argv) {
    vt::init(argc, argv);
    vt::section("collection", 2500, [&](Case& C, Rng& R) {
        auto f = freqs(R);
        size_t n1 = R.in(1, 4), n2 = R.in(1, 4), nf = f->size();
        wposition tgt(n1, n2);
        matrix<uint64_t> ids(n1, n2);
        uint64_t next = 1 + R.in(0, 50);
        for (size_t i = 0; i < n1; ++i) for (size_t j = 0; j < n2; ++j) {
            tgt.latitude(i, j, R.uni(-80, 80)); tgt.longitude(i, j, R.uni(-180, 180)); tgt.altitude(i, j, -R.uni(0, 4000));
            ids(i, j) = next; next += R.chance(0.15) ? (uint64_t)1 << 32 : R.in(1, 9);
        }
        wposition1 src(R.uni(-80, 80), R.uni(-180, 180), -R.uni(0, 4000));
        bool coh = R.chance(0.6), noids = R.chance(0.2);
        uint64_t sid = R.in(1, 1000) + (R.chance(0.2) ? (uint64_t)R.in(1, 9) << 33 : 0);
        C.in("n1", n1).in("n2", n2).in("nf", nf).in("coherent", coh).in("noids", noids);
        std::unique_ptr<eigenray_collection> col(noids ? new eigenray_collection(f, src, tgt, sid, matrix<uint64_t>(), coh) : new eigenray_collection(f, src, tgt, sid, ids, coh));
        CHECK(col->size1() == n1 && col->size2() == n2 && col->sourceID() == sid && col->coherent() == coh && col->frequencies() == f, "attributes", "stored wrong");
        std::map<std::pair<size_t, size_t>, std::vector<eigenray_model::csptr>> model;
        int adds = R.in(0, 25);
        for (int k = 0; k < adds; ++k) {
            size_t i = R.in(0, n1 - 1), j = R.in(0, n2 - 1);
            eigenray_model::csptr r(ray(R, f));
            model[{i, j}].push_back(r);
            col->add_eigenray(i, j, r, k);
        }
        int sums = R.in(1, 2);
        for (int k = 0; k < sums; ++k) col->sum_eigenrays();
        if (R.chance(0.3)) {  // adding after a sum and summing again
            size_t i = R.in(0, n1 - 1), j = R.in(0, n2 - 1);
            eigenray_model::csptr r(ray(R, f));
            model[{i, j}].push_back(r);
            col->add_eigenray(i, j, r);
            col->sum_eigenrays();
        }
        for (size_t i = 0; i < n1; ++i) for (size_t j = 0; j < n2; ++j) {
            auto& m = model[{i, j}];
            auto& l = col->eigenrays(i, j);
            bool same = l.size() == m.size();
            if (same) { size_t k = 0; for (auto& r : l) same = same && r == m[k++]; }
            CHECK(same, "list", "target " << i << "," << j << " has " << l.size() << " want " << m.size());
            wposition1 p = col->position(i, j);
            CHECK(vt::near(p.latitude(), tgt.latitude(i, j), 1e-9) && vt::near(p.longitude(), tgt.longitude(i, j), 1e-9) && vt::near(p.altitude(), tgt.altitude(i, j), 1e-4), "position", i << "," << j);
            double t0 = 0;
            for (auto& r : m) if (t0 == 0 || r->travel_time < t0) t0 = r->travel_time;
            CHECK(col->initial_time(i, j) == t0, "initial_time", col->initial_time(i, j) << " want " << t0);
            CHECK(col->targetID(i, j) == (noids ? 0 : ids(i, j)), "targetID", col->targetID(i, j));
            if (!noids) {
                auto q = col->find_eigenrays(ids(i, j));
                CHECK(q == l, "find", "identifier " << ids(i, j));
                CHECK(col->find_initial_time(ids(i, j)) == t0, "find_time", ids(i, j));
            }
            const eigenray_model& t = col->total(i, j);
            CHECK(t.intensity.size() == nf && t.phase.size() == nf, "total.size", t.intensity.size());
            if (t.intensity.size() != nf || t.phase.size() != nf) continue;
            double wgt = 0, tm = 0, sde = 0, tde = 0, best = 0, second = 0;
            std::complex<double> sa = 0, ta = 0;
            const eigenray_model* strong = nullptr;
            for (size_t k = 0; k < nf; ++k) {
                std::complex<double> s = 0;
                double p = 0;
                for (auto& r : m) {
                    double a = std::pow(10, -r->intensity[k] / 20), w = a * a;
                    s += std::polar(a, std::fmod(2 * M_PI * (*f)[k] * r->travel_time + r->phase[k], 2 * M_PI));
                    p += w;
                    wgt += w; tm += w * r->travel_time; sde += w * r->source_de; tde += w * r->target_de;
                    sa += std::polar(w, r->source_az * D); ta += std::polar(w, r->target_az * D);
                    if (w > best) { if (r.get() != strong) second = best; best = w; strong = r.get(); }
                    else if (r.get() != strong) second = std::max(second, w);
                }
                double want = coh ? std::abs(s) : std::sqrt(p);
                if (want < 1e-15) { NEAR(t.intensity[k], 300, 1e-6, "total.none", "no path"); continue; }
                double rel = coh ? std::abs(s) / std::sqrt(p) : 1;  // cancellation makes the sum sensitive
                NEAR(t.intensity[k], -20 * std::log10(want), 1e-6 / rel, "total.intensity", "target " << i << "," << j << " frequency " << k);
                if (coh) NEAR(std::remainder(t.phase[k] - std::arg(s), 2 * M_PI), 0, 1e-6 / rel, "total.phase", k);
            }
            vt::obs("totals");
            bool fin = std::isfinite(t.travel_time) && std::isfinite(t.source_de) && std::isfinite(t.source_az) && std::isfinite(t.target_de) && std::isfinite(t.target_az);
            CHECK(fin, "total.finite", "time " << t.travel_time << " with " << m.size() << " paths");
            if (m.empty()) { CHECK(t.surface == -1 && t.bottom == -1 && t.caustic == -1, "total.nopath", t.surface); vt::obs("targets_without_paths"); continue; }
            NEARR(t.travel_time, tm / wgt, 1e-9, 0, "total.time", "");
            NEARR(t.source_de, sde / wgt, 1e-9, 1e-9, "total.source_de", "");
            NEARR(t.target_de, tde / wgt, 1e-9, 1e-9, "total.target_de", "");
            if (std::abs(sa) > 1e-6 * wgt) CHECK(azclose(t.source_az, std::arg(sa) / D, 1e-6), "total.source_az", t.source_az << " want " << std::arg(sa) / D);
            if (std::abs(ta) > 1e-6 * wgt) CHECK(azclose(t.target_az, std::arg(ta) / D, 1e-6), "total.target_az", t.target_az << " want " << std::arg(ta) / D);
            if (second < best * (1 - 1e-9))
                CHECK(t.surface == strong->surface && t.bottom == strong->bottom && t.caustic == strong->caustic && t.upper == strong->upper && t.lower == strong->lower, "total.counts", "not those of the strongest path");
        }
        if (!noids) CHECK(col->find_eigenrays(999999).empty() && col->find_initial_time(999999) == 0, "find.unknown", "found paths of an unknown target");
    });
    vt::section("fresh", 50, [&](Case& C, Rng& R) {  // a path nobody has filled in yet carries nothing
        C.in("none", 0);
        std::unique_ptr<eigenray_model> r(new (std::nothrow) eigenray_model());
        CHECK(r->travel_time == 0 && r->source_de == 0 && r->source_az == 0 && r->target_de == 0 && r->target_az == 0, "fresh.angles", r->travel_time);
        CHECK(!r->surface && !r->bottom && !r->caustic && !r->upper && !r->lower && !r->frequencies && r->intensity.empty() && r->phase.empty(), "fresh.counts", r->bottom);
        std::unique_ptr<eigenray_model> a(ray(R, freqs(R))), b(new eigenray_model(*a));
        CHECK(a->travel_time == b->travel_time && a->source_de == b->source_de && a->source_az == b->source_az && a->target_de == b->target_de && a->target_az == b->target_az && a->surface == b->surface && a->bottom == b->bottom && a->caustic == b->caustic && a->upper == b->upper && a->lower == b->lower && a->frequencies == b->frequencies, "fresh.copy", "");
    });
    vt::section("order", 600, [&](Case& C, Rng& R) {
        auto f = freqs(R);
        wposition tgt(1, 1, 10, 20, -100);
        eigenray_collection a(f, wposition1(10, 21, -10), tgt), b(f, wposition1(10, 21, -10), tgt);
        std::vector<eigenray_model::csptr> v;
        for (int k = 0; k < R.in(1, 12); ++k) v.emplace_back(ray(R, f));
        C.in("n", v.size());
        for (auto& r : v) a.add_eigenray(0, 0, r);
        for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[R.in(0, i - 1)]);
        for (auto& r : v) b.add_eigenray(0, 0, r);
        a.sum_eigenrays(); b.sum_eigenrays();
        for (size_t k = 0; k < f->size(); ++k) if (a.total(0, 0).intensity[k] < 150) NEAR(a.total(0, 0).intensity[k], b.total(0, 0).intensity[k], 1e-3, "order.intensity", k);
        NEAR(a.total(0, 0).travel_time, b.total(0, 0).travel_time, 1e-9, "order.time", "");
        CHECK(a.initial_time() == b.initial_time(), "order.initial", "");
    });
    vt::section("reckon", 2000, [&](Case& C, Rng& R) {
        auto f = freqs(R);
        double c0 = R.uni(1450, 1550);
        bool att = R.chance(0.5);
        double ac = att ? R.uni(1e-6, 1e-4) : 0;
        auto* pm = new profile_linear(c0);
        pm->attenuation(attenuation_model::csptr(new attenuation_constant(ac)));
        profile_model::csptr prof(pm);
        double lat = R.uni(-75, 75), lon = R.chance(0.2) ? R.pick({180.0, -180.0, 179.9999}) : R.uni(-180, 180);
        wposition1 src(lat, lon, -R.uni(0, 3000));
        double tlon = lon + R.uni(-1, 1);
        if (tlon > 180) tlon -= 360;
        if (tlon < -180) tlon += 360;
        if (R.chance(0.2)) tlon = 179.9999;
        wposition tgt(1, 1, lat + R.uni(-1, 1), tlon, -R.uni(0, 3000));
        eigenray_collection col(f, src, tgt);
        std::vector<eigenray_model::csptr> v;
        for (int k = 0; k < R.in(1, 5); ++k) { auto* r = ray(R, f); r->travel_time = R.uni(10, 100); v.emplace_back(r); col.add_eigenray(0, 0, v.back()); }
        std::vector<double> before;
        for (auto& r : v) before.push_back(r->travel_time);
        auto moved = [&](const wposition1& p, double n, double e, double u) {
            double lo = p.longitude() + e / (p.rho() * std::sin(p.theta())) / D;
            if (lo > 180) lo -= 360;
            if (lo < -180) lo += 360;
            return wposition1(p.latitude() + n / p.rho() / D, lo, p.altitude() + u);
        };
        double s[3], t[3];
        double big = R.chance(0.5) ? 300 : 20;
        for (auto& x : s) x = R.uni(-big, big);
        for (auto& x : t) x = R.uni(-big, big);
        if (R.chance(0.3)) s[0] = s[1] = s[2] = 0;
        if (R.chance(0.3)) t[0] = t[1] = t[2] = 0;
        wposition1 t0(tgt, 0, 0), s1 = moved(src, s[0], s[1], s[2]), t1 = moved(t0, t[0], t[1], t[2]);
        C.in("lat", lat).in("lon", lon).in("tlon", tlon).in("c", c0).in("att", ac).inv("move_source", std::vector<double>(s, s + 3)).inv("move_target", std::vector<double>(t, t + 3));
        eigenray_list out = col.dead_reckon(0, 0, s1, t1, prof);
        CHECK(out.size() == v.size(), "reckon.count", out.size());
        size_t k = 0;
        for (auto& r : out) {
            auto& o = *v[k];
            CHECK(o.travel_time == before[k], "reckon.original", "stored path was changed");
            auto along = [&](double* m, double de, double az) { return m[0] * std::cos(de * D) * std::cos(az * D) + m[1] * std::cos(de * D) * std::sin(az * D) + m[2] * std::sin(de * D); };
            double ds = -along(s, o.source_de, o.source_az), dt = along(t, o.target_de, o.target_az), dr = ds + dt;
            double L = o.travel_time * c0;
            NEAR(r->travel_time, o.travel_time + dr / c0, 1e-4 + 2e-4 * big / c0, "reckon.time", "path moved by " << dr << " m");
            for (size_t q = 0; q < f->size(); ++q) {
                dv a0(1), dummy;
                matrix<double> dist(1, 1);
                matrix<dv> at(1, 1);
                at(0, 0).resize(f->size());
                wposition p(1, 1); p.latitude(0, 0, lat); p.longitude(0, 0, lon); p.altitude(0, 0, -10);
                dist(0, 0) = 1000; prof->attenuation(p, f, dist, &at);
                double per = at(0, 0)[q] / 1000;
                NEAR(r->intensity[q], o.intensity[q] + 20 * std::log10((L + dr) / L) + per * dr, 1e-3 + 1e-2 * std::fabs(per * dr), "reckon.intensity", q);
                CHECK(r->phase[q] == o.phase[q], "reckon.phase", q);
            }
            CHECK(r->source_de == o.source_de && r->source_az == o.source_az && r->target_de == o.target_de && r->target_az == o.target_az && r->surface == o.surface && r->bottom == o.bottom && r->caustic == o.caustic && r->upper == o.upper && r->lower == o.lower, "reckon.rest", "changed");
            vt::obs("reckoned");
            ++k;
        }
        auto again = col.dead_reckon(0, 0, src, t0, prof);
        CHECK(again.size() == v.size(), "reckon.none", again.size());
        k = 0;
        for (auto& r : again) CHECK(vt::near(r->travel_time, v[k++]->travel_time, 1e-6), "reckon.none", "time changed without motion");
    });
    vt::section("notify", 600, [&](Case& C, Rng& R) {
        auto f = freqs(R);
        subject s;
        std::vector<probe> p(4);
        std::vector<int> on(4, 0);
        std::vector<size_t> want(4, 0), wantc(4, 0);
        C.in("x", 0);
        for (int k = 0; k < 30; ++k) {
            int w = R.in(0, 3);
            switch (R.in(0, 3)) {
                case 0: s.add_eigenray_listener(&p[w]); on[w] = 1; break;
                case 1: s.remove_eigenray_listener(&p[w]); on[w] = 0; break;
                case 2: {
                    eigenray_model::csptr r(ray(R, f));
                    size_t a = R.in(0, 5), b = R.in(0, 5), id = R.in(0, 99);
                    s.fire(a, b, r, id);
                    for (int i = 0; i < 4; ++i) if (on[i]) {
                        ++want[i];
                        CHECK(p[i].got.size() == want[i] && p[i].got.back() == std::make_tuple(a, b, r.get(), id), "notify.args", "listener " << i);
                    }
                    break;
                }
                default: s.chk(k, k + 1); for (int i = 0; i < 4; ++i) if (on[i]) { ++wantc[i]; CHECK(!p[i].checks.empty() && p[i].checks.back() == std::make_pair((double)k, (size_t)k + 1), "notify.check", i); }
            }
            for (int i = 0; i < 4; ++i) CHECK(p[i].got.size() == want[i] && p[i].checks.size() == wantc[i], "notify.count", "listener " << i << " got " << p[i].got.size() << " want " << want[i]);
        }
    });
    return vt::finish();
}
