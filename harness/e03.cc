// E03: bistatic overlap of two reverberation patches against an independent Gaussian overlap integral.
#include <usml/biverbs/biverbs.h>
#include <usml/beampatterns/beampatterns.h>
#include <usml/eigenverbs/eigenverbs.h>
#include <usml/ocean/ocean.h>
#include <usml/sensors/sensors.h>
#include <usml/types/types.h>
#include <algorithm>
#include <atomic>
#include <thread>
#include "vt.h"
using namespace usml::beampatterns;
using namespace usml::biverbs;
using namespace usml::eigenverbs;
using namespace usml::ocean;
using namespace usml::sensors;
using namespace usml::types;
typedef boost::numeric::ublas::vector<double> dv;
typedef eigenverb_model::csptr vp;
static const double D = M_PI / 180;
static seq_vector::csptr freqs(Rng& R) {
    std::vector<double> f(R.in(1, 4));
    double x = R.logu(5, 500);
    for (auto& v : f) v = x, x *= R.uni(1.1, 4);
    return seq_vector::csptr(new seq_data(f.data(), f.size()));
}
struct place { double lat, lon; };
// great circle destination, long double unit vectors, independent of the library
static place dest(place p, double range, double bearing) {
    long double d = range / wposition::earth_radius, la = p.lat * D, lo = p.lon * D;
    long double n[3] = {-sinl(la) * cosl(lo), -sinl(la) * sinl(lo), cosl(la)}, e[3] = {-sinl(lo), cosl(lo), 0}, r[3] = {cosl(la) * cosl(lo), cosl(la) * sinl(lo), sinl(la)}, o[3];
    for (int i = 0; i < 3; ++i) o[i] = r[i] * cosl(d) + sinl(d) * (n[i] * cosl(bearing) + e[i] * sinl(bearing));
    return {(double)(atan2l(o[2], hypotl(o[0], o[1])) / D), (double)(atan2l(o[1], o[0]) / D)};
}
static eigenverb_model* patch(Rng& R, const seq_vector::csptr& f, place p, double alt, double len, double wid, double dir) {
    auto* v = new eigenverb_model();
    v->travel_time = R.uni(0.1, 60);
    v->frequencies = f;
    v->power.resize(f->size());
    for (auto& x : v->power) x = R.logu(1e-8, 1);
    v->length = len; v->width = wid;
    v->position = wposition1(p.lat, p.lon, alt);
    v->direction = dir;
    v->grazing = R.uni(0.02, 1.5);
    v->sound_speed = R.uni(1450, 1560);
    v->de_index = R.in(0, 180); v->az_index = R.in(0, 360);
    v->source_de = R.uni(-1.5, 1.5); v->source_az = R.uni(0, 2 * M_PI);
    v->surface = R.in(0, 5); v->bottom = R.in(0, 5); v->caustic = R.in(0, 5); v->upper = R.in(0, 5); v->lower = R.in(0, 5);
    return v;
}
// gaussian overlap: returns {overlap integral in the library's normalization, duration}
static std::pair<double, double> oracle(const eigenverb_model& s, const eigenverb_model& r) {
    // separation in the local frame of the receiver patch
    long double la = r.position.latitude() * D, lo = r.position.longitude() * D, lb = s.position.latitude() * D, lc = s.position.longitude() * D;
    long double n[3] = {-sinl(la) * cosl(lo), -sinl(la) * sinl(lo), cosl(la)}, e[3] = {-sinl(lo), cosl(lo), 0}, u[3] = {cosl(la) * cosl(lo), cosl(la) * sinl(lo), sinl(la)};
    long double w[3] = {cosl(lb) * cosl(lc), cosl(lb) * sinl(lc), sinl(lb)}, N = 0, E = 0, U = 0;
    for (int i = 0; i < 3; ++i) N += n[i] * w[i], E += e[i] * w[i], U += u[i] * w[i];
    long double h = hypotl(N, E), d = h > 0 ? atan2l(h, U) * (wposition::earth_radius + r.position.altitude()) / h : 0;
    long double x[2] = {E * d, N * d};  // east, north
    auto cov = [](const eigenverb_model& v, long double M[2][2]) {
        long double a = v.direction, f[2] = {sinl(a), cosl(a)}, c[2] = {cosl(a), -sinl(a)};
        for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) M[i][j] = f[i] * f[j] * v.length * v.length + c[i] * c[j] * v.width * v.width;
    };
    long double S[2][2], T[2][2], M[2][2];
    cov(s, S); cov(r, T);
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) M[i][j] = S[i][j] + T[i][j];
    long double det = M[0][0] * M[1][1] - M[0][1] * M[1][0];
    long double q = (x[0] * x[0] * M[1][1] - 2 * x[0] * x[1] * M[0][1] + x[1] * x[1] * M[0][0]) / det;
    // product of both gaussians: covariance S M^-1 T, spread along the receiver direction
    long double I[2][2] = {{M[1][1] / det, -M[0][1] / det}, {-M[1][0] / det, M[0][0] / det}}, A[2][2] = {}, P[2][2] = {};
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) for (int k = 0; k < 2; ++k) A[i][j] += S[i][k] * I[k][j];
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) for (int k = 0; k < 2; ++k) P[i][j] += A[i][k] * T[k][j];
    long double f[2] = {sinl(r.direction), cosl(r.direction)}, var = 0;
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) var += f[i] * P[i][j] * f[j];
    return {(double)(0.25L * expl(-0.5L * q) / sqrtl(det)), (double)(0.5L * sqrtl(var) * cosl(r.grazing) / r.sound_speed)};
}
static double wrap(double a) { return std::remainder(a, 2 * M_PI); }
struct scene { vp s, r; double sep, sig; };
static scene make(Rng& R, const seq_vector::csptr& f) {
    scene q;
    place p{R.chance(0.1) ? R.uni(-88, 88) : R.uni(-70, 70), R.chance(0.25) ? (R.chance(0.5) ? 180 : -180) + R.uni(-0.01, 0.01) : R.uni(-180, 180)};
    if (std::fabs(p.lat) < 1e-6) p.lat = 0.5;
    auto size = [&](double& l, double& w) { l = R.logu(5, 5000); w = R.chance(0.2) ? l : l * R.logu(0.03, 30); };
    double l1, w1, l2, w2;
    size(l1, w1);
    if (R.chance(0.2)) l2 = l1, w2 = w1; else size(l2, w2);
    q.sig = std::sqrt(std::max(l1, w1) * std::max(l1, w1) + std::max(l2, w2) * std::max(l2, w2));
    q.sep = R.chance(0.1) ? 0 : q.sig * R.uni(0, 2.5);
    double d1 = R.uni(-M_PI, 2 * M_PI), d2 = R.chance(0.2) ? d1 + M_PI / 2 * R.in(0, 4) : R.uni(-M_PI, 2 * M_PI), alt = -R.uni(0, 5000);
    place o = q.sep > 0 ? dest(p, q.sep, R.chance(0.2) ? d2 + M_PI / 4 * R.in(0, 7) : R.uni(0, 2 * M_PI)) : p;
    q.r.reset(patch(R, f, p, alt, l2, w2, d2));
    q.s.reset(patch(R, f, o, R.chance(0.5) ? alt : alt - R.uni(0, 50), l1, w1, d1));
    return q;
}
static void same_fields(Case& C, const biverb_model& b, const eigenverb_model& s, const eigenverb_model& r) {
    CHECK(b.travel_time == s.travel_time + r.travel_time, "time", "travel time " << b.travel_time << " want " << s.travel_time + r.travel_time);
    CHECK(b.frequencies == r.frequencies, "frequencies", "frequencies not those of the receiver patch");
    CHECK(b.de_index == r.de_index && b.az_index == r.az_index, "indices", "launch indices not those of the receiver patch");
    CHECK(b.source_de == s.source_de && b.source_az == s.source_az && b.receiver_de == r.source_de && b.receiver_az == r.source_az, "angles", "launch angles not those of the patches");
    CHECK(b.source_surface == s.surface && b.source_bottom == s.bottom && b.source_caustic == s.caustic && b.source_upper == s.upper && b.source_lower == s.lower, "source_counts", "counts of the source patch changed");
    CHECK(b.receiver_surface == r.surface && b.receiver_bottom == r.bottom && b.receiver_caustic == r.caustic && b.receiver_upper == r.upper && b.receiver_lower == r.lower, "receiver_counts", "counts of the receiver patch changed");
}
static biverb_model one(Case& C, const vp& s, const vp& r, const dv& scatter) {
    biverb_collection col;
    col.add_biverb(s, r, scatter, 0);
    auto l = col.biverbs(0);
    CHECK(l.size() == 1, "kept", "overlap not kept with a limit of zero: " << l.size());
    biverb_model m = **l.begin();
    return m;
}
struct asked { double si, sc, ai, ac; wposition1 p; };
struct spy_scatter : scattering_model {
    mutable std::vector<asked> log;
    double gain = 1;
    static double law(double de_i, double de_s, double az_i, double az_s, double f, double lat) { return (1.1 + std::sin(3 * de_i) * 0.5 + 0.3 * std::cos(2 * de_s) + 0.1 * std::sin(az_i) - 0.05 * std::cos(az_s)) * 1e-3 * std::sqrt(f) * (1 + 0.01 * lat); }
    void scattering(const wposition1& p, const seq_vector::csptr& f, double de_i, double de_s, double az_i, double az_s, dv* a) const override {
        log.push_back({de_i, de_s, az_i, az_s, p});
        a->resize(f->size(), false);
        for (size_t i = 0; i < f->size(); ++i) (*a)[i] = gain * law(de_i, de_s, az_i, az_s, (*f)[i], p.latitude());
    }
    void scattering(const wposition&, const seq_vector::csptr&, double, boost::numeric::ublas::matrix<double>, double, boost::numeric::ublas::matrix<double>, boost::numeric::ublas::matrix<dv>*) const override {}
};
struct hear : update_listener<biverb_collection::csptr> {
    int n = 0;
    biverb_collection::csptr last;
    void notify_update(const biverb_collection::csptr* c) override { ++n; last = *c; }
};
int main(int argc, char** argv) {
    vt::init(argc, argv);
    biverb_collection::power_threshold = 0.0;
    vt::section("overlap", 6000, [&](Case& C, Rng& R) {
        auto f = freqs(R);
        auto q = make(R, f);
        dv sc(f->size());
        for (auto& x : sc) x = R.logu(1e-6, 1);
        C.in("rlat", q.r->position.latitude()).in("rlon", q.r->position.longitude()).in("slat", q.s->position.latitude()).in("slon", q.s->position.longitude());
        C.in("sdir", q.s->direction / D).in("rdir", q.r->direction / D).in("slen", q.s->length).in("swid", q.s->width).in("rlen", q.r->length).in("rwid", q.r->width).in("separation", q.sep);
        auto b = one(C, q.s, q.r, sc);
        same_fields(C, b, *q.s, *q.r);
        auto o = oracle(*q.s, *q.r);
        CHECK(b.power.size() == f->size(), "power_size", "power has " << b.power.size() << " entries");
        // haversine ranges carry rounding of about 1e-9 relative at these separations
        for (size_t i = 0; i < f->size() && i < b.power.size(); ++i)
            NEARR(b.power[i], 0.5 * q.s->power[i] * q.r->power[i] * sc[i] * o.first, 1e-5, 1e-300, "power", "overlap power at frequency " << i);
        NEARR(b.duration, o.second, 1e-6, 1e-15, "duration", "overlap duration");
        double k = -std::log(b.power[0] / (0.125 * q.s->power[0] * q.r->power[0] * sc[0]));
        vt::obs("overlaps");
        if (q.sep > 0 && k > 0) vt::obs("separated");
        vt::maxv("max_separation_sigma", q.sig > 0 ? q.sep / q.sig : 0);
        // swapping both patches changes nothing but the roles (flat geometry: equal within curvature)
        if (std::fabs(q.s->position.latitude()) < 60 && std::fabs(q.r->position.latitude()) < 60 && q.sep < 2000 && std::fabs(q.s->position.latitude()) > 1e-6 && q.s->position.altitude() == q.r->position.altitude()) {
            auto b2 = one(C, q.r, q.s, sc);
            same_fields(C, b2, *q.r, *q.s);
            auto o2 = oracle(*q.r, *q.s);
            NEARR(b2.power[0], 0.5 * q.s->power[0] * q.r->power[0] * sc[0] * o2.first, 1e-5, 1e-300, "power", "overlap power with roles exchanged");
            vt::obs("exchanged");
        }
    });
    vt::section("invariance", 2500, [&](Case& C, Rng& R) {
        auto f = freqs(R);
        auto q = make(R, f);
        while (q.sep < 1 || std::fabs(q.r->position.latitude()) > 80) q = make(R, f);
        dv sc(f->size(), R.logu(1e-6, 1));
        auto b = one(C, q.s, q.r, sc);
        auto pl = [](const wposition1& p) { return place{p.latitude(), p.longitude()}; };
        C.in("separation", q.sep).in("sdir", q.s->direction / D).in("rdir", q.r->direction / D);
        // mirror images: in the meridian of the receiver, in the equator, in both
        for (int m = 1; m < 4; ++m) {
            vp s(new eigenverb_model(*q.s)), r(new eigenverb_model(*q.r));
            double lon0 = R.uni(-180, 180);
            auto mir = [&](eigenverb_model& v) {
                auto p = pl(v.position);
                if (m & 1) p.lon = std::remainder(2 * lon0 - p.lon, 360), v.direction = -v.direction;
                if (m & 2) p.lat = -p.lat, v.direction = M_PI - v.direction;
                v.position = wposition1(p.lat, p.lon, v.position.altitude());
            };
            mir(*s); mir(*r);
            auto c = one(C, s, r, sc);
            for (size_t i = 0; i < f->size(); ++i) NEARR(c.power[i], b.power[i], 1e-5, 1e-300, "mirror", "power of the mirror image " << m);
            NEARR(c.duration, b.duration, 1e-6, 1e-15, "mirror_duration", "duration of the mirror image " << m);
            vt::obs("mirrored");
        }
        {  // adding full turns or half turns to headings changes nothing
            vp s(new eigenverb_model(*q.s)), r(new eigenverb_model(*q.r));
            s->direction += M_PI * R.in(-2, 2); r->direction += M_PI * R.in(-2, 2);
            auto c = one(C, s, r, sc);
            NEARR(c.power[0], b.power[0], 1e-8, 1e-300, "turns", "power after adding half turns");
            NEARR(c.duration, b.duration, 1e-8, 1e-15, "turns_duration", "duration after adding half turns");
        }
        if (q.sep < 20000) {  // rotating the geometry about the receiver
            double t = R.uni(0, 2 * M_PI), br, rg = q.r->position.gc_range(q.s->position, &br);
            auto p = dest(pl(q.r->position), rg / (wposition::earth_radius + q.r->position.altitude()) * wposition::earth_radius, br + t);
            vp s(new eigenverb_model(*q.s)), r(new eigenverb_model(*q.r));
            s->direction += t; r->direction += t;
            s->position = wposition1(p.lat, p.lon, s->position.altitude());
            auto c = one(C, s, r, sc);
            NEARR(c.power[0], b.power[0], 1e-5, 1e-300, "rotation", "power after turning everything by " << t / D);
            NEARR(c.duration, b.duration, 1e-6, 1e-15, "rotation_duration", "duration after turning everything by " << t / D);
            vt::obs("rotated");
        }
        {  // linear in each factor
            vp s(new eigenverb_model(*q.s)), r(new eigenverb_model(*q.r));
            double a = R.uni(0.1, 9), b1 = R.uni(0.1, 9), g = R.uni(0.1, 9);
            s->power *= a; r->power *= b1;
            dv sc2 = sc * g;
            auto c = one(C, s, r, sc2);
            for (size_t i = 0; i < f->size(); ++i) NEARR(c.power[i], b.power[i] * a * b1 * g, 1e-12, 1e-300, "linear", "power not proportional to its factors");
        }
    });
    vt::section("threshold", 2000, [&](Case& C, Rng& R) {
        auto f = freqs(R);
        size_t vols = R.in(0, 3);
        biverb_collection col(vols);
        CHECK(col.num_interfaces() == 2 * (1 + vols), "interfaces", "number of interfaces " << col.num_interfaces());
        double lim = R.logu(1e-20, 1e-10);
        std::vector<std::multimap<double, double>> want(col.num_interfaces());
        int n = R.in(0, 30), kept = 0;
        biverb_collection::power_threshold = lim;
        C.in("limit", lim).in("n", n);
        for (int k = 0; k < n; ++k) {
            auto q = make(R, f);
            if (R.chance(0.3)) q.s->travel_time = std::floor(q.s->travel_time), q.r->travel_time = std::floor(q.r->travel_time);
            dv sc(f->size());
            for (auto& x : sc) x = R.logu(1e-12, 1);
            auto o = oracle(*q.s, *q.r);
            // place the strongest frequency close to the limit in half of the cases
            double best = 0;
            for (size_t i = 0; i < f->size(); ++i) best = std::max(best, 0.5 * q.s->power[i] * q.r->power[i] * sc[i] * o.first);
            if (R.chance(0.5) && best > 1e-290) { sc *= lim / best * (R.chance(0.5) ? R.uni(1.01, 3) : R.uni(0.2, 0.99)); best = 0; for (size_t i = 0; i < f->size(); ++i) best = std::max(best, 0.5 * q.s->power[i] * q.r->power[i] * sc[i] * o.first); }
            if (std::fabs(best / lim - 1) < 1e-3) continue;
            size_t w = R.in(0, col.num_interfaces() - 1);
            col.add_biverb(q.s, q.r, sc, w);
            if (best > lim) want[w].emplace(q.s->travel_time + q.r->travel_time, best), ++kept;
            vt::obs(best > lim ? "kept" : "dropped");
        }
        biverb_collection::power_threshold = 0;
        for (size_t w = 0; w < want.size(); ++w) {
            auto l = col.biverbs(w);
            CHECK(l.size() == want[w].size() && col.size(w) == want[w].size(), "count", "interface " << w << " has " << l.size() << "/" << col.size(w) << " overlaps, want " << want[w].size());
            double t = -1e9;
            for (auto& b : l) { CHECK(b->travel_time >= t, "order", "overlaps not in order of time"); t = b->travel_time; }
            std::vector<double> a, e;
            for (auto& b : l) a.push_back(norm_inf(b->power));
            for (auto& p : want[w]) e.push_back(p.second);
            std::sort(a.begin(), a.end()); std::sort(e.begin(), e.end());
            for (size_t i = 0; i < a.size() && i < e.size(); ++i) NEARR(a[i], e[i], 1e-5, 0, "kept_power", "set of kept overlaps differs on interface " << w);
        }
        if (!kept) C.trivial();
    });
    vt::section("concurrent", 60, [&](Case& C, Rng& R) {
        auto f = freqs(R);
        biverb_collection col(1);
        int nt = R.in(2, 4), per = 40;
        std::atomic<int> go{0}, done{0};
        std::vector<std::thread> th;
        std::atomic<long> bad{0}, reads{0}, partial{0};
        std::vector<uint64_t> seeds(nt);
        for (auto& s : seeds) s = R.next();
        for (int t = 0; t < nt; ++t) th.emplace_back([&, t] {
            Rng r(seeds[t]);
            std::vector<scene> q;
            for (int k = 0; k < per; ++k) q.push_back(make(r, f)), q.back().s->travel_time = 1000 * (t + 1), q.back().r->travel_time = k;
            dv sc(f->size(), 1.0);
            for (++go; go < nt;) std::this_thread::yield();
            for (int k = 0; k < per; ++k) col.add_biverb(q[k].s, q[k].r, sc, k % 4);
            ++done;
        });
        for (int t = 0; t < 2; ++t) th.emplace_back([&, t] {
            size_t last[4] = {};
            do {
                for (size_t w = 0; w < 4; ++w) {
                    size_t n = t ? col.size(w) : col.biverbs(w).size();
                    if (n < last[w]) ++bad;
                    if (n > 0 && n < (size_t)nt * per / 4) ++partial;
                    last[w] = n;
                    ++reads;
                }
            } while (done < nt);
        });
        for (auto& t : th) t.join();
        CHECK(bad == 0, "shrink", "number of overlaps went down while adding");
        for (size_t w = 0; w < 4; ++w) {
            std::multiset<double> have, want;
            for (auto& b : col.biverbs(w)) have.insert(b->travel_time);
            for (int t = 0; t < nt; ++t) for (int k = 0; k < per; ++k) if (k % 4 == (int)w) want.insert(1000.0 * (t + 1) + k);
            CHECK(have == want, "lost", "interface " << w << " has " << have.size() << " overlaps after concurrent adding, want " << want.size());
        }
        vt::obs("concurrent_adds", nt * per); vt::obs("concurrent_reads", reads); vt::obs("reads_of_partial_state", partial);
    });
    vt::section("generator", 150, [&](Case& C, Rng& R) {
        auto f = freqs(R);
        sensor_manager::reset();
        auto* mgr = sensor_manager::instance();
        mgr->frequencies(f);
        auto surf = new boundary_flat();
        auto bot = new boundary_flat(3000.0);
        size_t vols = R.in(0, 2);
        std::vector<std::shared_ptr<spy_scatter>> sp;
        for (size_t i = 0; i < 2 + vols; ++i) sp.push_back(std::make_shared<spy_scatter>()), sp.back()->gain = i + 1;
        bot->scattering(scattering_model::csptr(sp[0])); surf->scattering(scattering_model::csptr(sp[1]));
        auto* oc = new ocean_model(boundary_model::csptr(surf), boundary_model::csptr(bot), profile_model::csptr(new profile_linear()));
        for (size_t i = 0; i < vols; ++i) oc->add_volume(volume_model::csptr(new volume_flat(200.0 * (i + 1), 10.0, scattering_model::csptr(sp[2 + i]))));
        ocean_shared::update(ocean_model::csptr(oc));
        bool mono = R.chance(0.5);
        auto mk = [&](uint64_t id, bool s, bool r) {
            sensor_model::sptr q(new sensor_model(id, "s" + std::to_string(id), 0, wposition1(30, 20, -100)));
            if (s) q->src_beam(0, bp_model::csptr(new bp_omni()));
            if (r) q->rcv_beam(0, bp_model::csptr(new bp_omni()));
            q->time_maximum(5); q->compute_reverb(true); q->multistatic(mono ? 0 : 1);
            return q;
        };
        auto a = mk(1, true, mono), b = mono ? a : mk(2, false, true);
        mgr->add_sensor(a);
        if (!mono) mgr->add_sensor(b);
        auto pairs = mgr->find_source(1);
        CHECK(pairs.size() == 1, "pair", "no pair for the generator: " << pairs.size());
        auto pair = *pairs.begin();
        auto* se = new eigenverb_collection(vols);
        auto* re = new eigenverb_collection(vols);
        place o{R.uni(20, 50), R.chance(0.3) ? 179.99 : R.uni(-170, 170)};
        std::vector<std::vector<vp>> sv(2 * (1 + vols)), rv(2 * (1 + vols));
        for (size_t w = 0; w < sv.size(); ++w) {
            for (int k = R.in(0, 8); k > 0; --k) { auto v = vp(patch(R, f, dest(o, R.uni(0, 4000), R.uni(0, 6.28)), -100, R.logu(100, 3000), R.logu(100, 3000), R.uni(0, 6.28))); se->add_eigenverb(v, w); sv[w].push_back(v); }
            for (int k = R.in(0, 8); k > 0; --k) { auto v = vp(patch(R, f, dest(o, R.uni(0, 4000), R.uni(0, 6.28)), -100, R.logu(100, 3000), R.logu(100, 3000), R.uni(0, 6.28))); re->add_eigenverb(v, w); rv[w].push_back(v); }
        }
        eigenverb_collection::csptr sc(se), rc(re);
        hear h;
        C.in("volumes", vols).in("mono", mono);
        {
            biverb_generator g(pair, sc, rc);
            g.add_listener(&h);
            g.run();
            CHECK(h.n == 1 && h.last != nullptr, "told", "listeners told " << h.n << " times");
            if (h.n != 1) return;
            CHECK(pair->biverbs() == h.last, "published", "pair does not hold the overlaps it was told about");
            CHECK(h.last->num_interfaces() == sv.size(), "interfaces", "interfaces " << h.last->num_interfaces());
            for (size_t w = 0; w < sv.size(); ++w) {
                // expected: for every receiver patch the source patches found in its search area
                biverb_collection want(vols);
                size_t n = 0;
                auto ident = [](const biverb_model& b) { return std::make_tuple(b.travel_time, b.source_de, b.receiver_de); };
                std::map<std::tuple<double, double, double>, dv> exp;
                for (auto& r : rv[w]) for (auto& s : sc->find_eigenverbs(r, w)) {
                    dv v(f->size());
                    auto o2 = oracle(*s, *r);
                    for (size_t i = 0; i < f->size(); ++i) v[i] = 0.5 * s->power[i] * r->power[i] * o2.first * (w < 2 ? w + 1 : 3 + (w - 2) / 2) * spy_scatter::law(s->grazing, r->grazing, s->direction, r->direction, (*f)[i], r->position.latitude());
                    exp[{s->travel_time + r->travel_time, s->source_de, r->source_de}] = v;
                    ++n;
                }
                auto l = h.last->biverbs(w);
                CHECK(l.size() == n, "generated", "interface " << w << " has " << l.size() << " overlaps, want " << n);
                for (auto& b2 : l) {
                    auto it = exp.find(ident(*b2));
                    CHECK(it != exp.end(), "generated_pair", "overlap of patches that do not overlap on interface " << w);
                    if (it == exp.end()) continue;
                    for (size_t i = 0; i < f->size(); ++i) NEARR(b2->power[i], it->second[i], 1e-5, 1e-300, "generated_power", "overlap power with the scattering strength of interface " << w << " at frequency " << i);
                }
                vt::obs("generated_overlaps", n);
            }
        }
        {  // an aborted generator publishes nothing
            hear h2;
            biverb_generator g(pair, sc, rc);
            g.add_listener(&h2);
            g.abort();
            g.run();
            CHECK(h2.n == 0 && !g.done(), "aborted", "aborted overlap computation published a result");
        }
        pairs.clear(); pair.reset();
        sensor_manager::reset();
    });
    return vt::finish();
}
