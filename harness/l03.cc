// L03: what the pairs hold after their sensors were updated, against an undisturbed computation of the same state.
#include <usml/beampatterns/bp_omni.h>
#include <usml/beampatterns/bp_cardioid.h>
#include <usml/biverbs/biverb_generator.h>
#include <usml/eigenrays/eigenray_collection.h>
#include <usml/eigenverbs/eigenverb_collection.h>
#include <usml/ocean/ocean.h>
#include <usml/ocean/ocean_shared.h>
#include <usml/platforms/platforms.h>
#include <usml/rvbts/rvbts_generator.h>
#include <usml/sensors/sensors.h>
#include <usml/threads/threads.h>
#include <usml/transmit/transmit_cw.h>
#include <usml/types/seq_linear.h>
#include <usml/types/seq_rayfan.h>
#include <usml/waveq3d/waveq3d.h>
#include <fstream>
#include "vt.h"
using namespace usml::sensors;
using namespace usml::beampatterns;
using namespace usml::ocean;
using namespace usml::threads;
using namespace usml::transmit;
typedef std::shared_ptr<sensor_model> sp;
typedef std::pair<uint64_t, uint64_t> ends;
static void nap(double us) { std::this_thread::sleep_for(std::chrono::microseconds((long)us)); }
static ends of(const sensor_pair* p) { return {p->source()->keyID(), p->receiver()->keyID()}; }
static std::string str(const ends& e) { return std::to_string(e.first) + "_" + std::to_string(e.second); }
template <class F> static bool soon(F f) { for (int i = 0; i < 4000; ++i) { if (f()) return true; nap(500); } return f(); }
static double norm360(double a) { a = fmod(a, 360.0); if (a < 0) a += 360.0; return a; }

// one path as a list of numbers; drop = angles left out
static std::vector<double> ray(const eigenray_model& r) {
    std::vector<double> v{r.travel_time, r.source_de, r.source_az, r.target_de, r.target_az, (double)r.surface, (double)r.bottom, (double)r.caustic, (double)r.upper, (double)r.lower};
    for (double x : r.intensity) v.push_back(x);
    for (double x : r.phase) v.push_back(x);
    return v;
}
static std::vector<std::vector<double>> rays_of(const eigenray_list& l) {
    std::vector<std::vector<double>> o;
    for (auto& r : l) o.push_back(ray(*r));
    std::sort(o.begin(), o.end());
    return o;
}
static std::vector<std::vector<double>> verbs_of(const eigenverb_collection& c) {
    std::vector<std::vector<double>> o;
    for (size_t i = 0; i < c.num_interfaces(); ++i) for (auto& e : c.eigenverbs(i)) {
        std::vector<double> v{(double)i, e->travel_time, e->position.latitude(), e->position.longitude(), e->length, e->width, e->direction, e->grazing, e->source_de, e->source_az};
        for (double x : e->power) v.push_back(x);
        o.push_back(v);
    }
    std::sort(o.begin(), o.end());
    return o;
}
static std::vector<std::vector<double>> biverbs_of(const biverb_collection& c) {
    std::vector<std::vector<double>> o;
    for (size_t i = 0; i < c.num_interfaces(); ++i) for (auto& e : c.biverbs(i)) {
        std::vector<double> v{(double)i, e->travel_time, e->duration, e->source_de, e->source_az, e->receiver_de, e->receiver_az};
        for (double x : e->power) v.push_back(x);
        o.push_back(v);
    }
    std::sort(o.begin(), o.end());
    return o;
}
static bool same_list(const std::vector<std::vector<double>>& a, const std::vector<std::vector<double>>& b, double tol) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) {
        if (a[i].size() != b[i].size()) return false;
        for (size_t j = 0; j < a[i].size(); ++j) {
            double x = a[i][j], y = b[i][j];
            if (std::isnan(x) && std::isnan(y)) continue;
            if (!(std::abs(x - y) <= tol * (1.0 + std::abs(x))) && !(x == y)) return false;
        }
    }
    return true;
}
// Checks that paths of a pair are `list` seen from its source; list as collected by `driver`.
static void paths(Case& C, const sensor_pair& p, const sensor_model* driver, const eigenray_list& list, const std::string& what) {
    auto d = p.dirpaths();
    CHECK(d != nullptr, "no paths", what + ": pair has no paths");
    if (!d) return;
    uint64_t s = p.source()->keyID(), r = p.receiver()->keyID();
    CHECK(d->sourceID() == s && d->size1() == 1 && d->size2() == 1 && d->targetID(0, 0) == r, "ends", MSG(what << ": paths of " << s << "_" << r << " are from " << d->sourceID() << " to " << d->targetID(0, 0)));
    wposition1 tp = p.receiver()->position(), dp = d->position(0, 0);
    CHECK(tp.distance(dp) < 1e-3, "target position", MSG(what << ": paths end " << tp.distance(dp) << " m off the receiver"));
    bool forward = driver->keyID() == s;
    std::vector<std::vector<double>> want;
    for (auto& e : list) {
        eigenray_model m(*e);
        if (!forward) {
            m.source_de = -e->target_de; m.target_de = -e->source_de;
            m.source_az = e->target_az + 180.0; m.target_az = e->source_az + 180.0;
        }
        m.source_az = norm360(m.source_az + 1e-9) - 1e-9; m.target_az = norm360(m.target_az + 1e-9) - 1e-9;
        want.push_back(ray(m));
    }
    std::vector<std::vector<double>> got;
    for (auto& e : d->eigenrays(0, 0)) {
        eigenray_model m(*e);
        m.source_az = norm360(m.source_az + 1e-9) - 1e-9; m.target_az = norm360(m.target_az + 1e-9) - 1e-9;
        got.push_back(ray(m));
    }
    std::sort(want.begin(), want.end());
    std::sort(got.begin(), got.end());
    if (!same_list(got, want, 1e-9)) {
        std::ostringstream o;
        o << what << ": " << got.size() << " paths of " << want.size();
        if (!got.empty() && !want.empty()) { o << " first"; for (int i = 0; i < 7; ++i) o << " " << got[0][i] << "/" << want[0][i]; }
        C.fail(forward ? "paths from the source" : "paths from the receiver", o.str());
    }
    vt::obs(forward ? "source-driven pairs" : "receiver-driven pairs");
}

struct setup {  // one scenario
    struct sensor { bool src, rcv, reverb; uint64_t group; double time_max; bool pulses, cos; };
    std::vector<sensor> s;
    std::vector<wposition1> at;
    std::vector<orientation> facing;
    double depth, tstep;
    size_t layers = 0;
    double de_step, az_step;
    seq_vector::csptr freq;
    uint64_t id(size_t i) const { return i + 1; }
    uint64_t marker(size_t i) const { return 1000 + i; }
};
static transmit_list pulses(Rng& R, int mode = 0) {
    transmit_list l;
    int n = R.in(1, 3);
    for (int i = 0; i < n; ++i) l.push_back(transmit_model::csptr(new transmit_cw("CW", R.uni(0.05, 0.4), R.uni(910, 1090), R.uni(0, 0.2), R.uni(150, 220), window::type::BOXCAR, 0.0, R.uni(-90, 90), R.uni(-40, 40), mode)));
    return l;
}
static wposition1 place(Rng& R, double depth) { return wposition1(36.0 + R.uni(0, 0.003), 16.0 + R.uni(0, 0.003), -R.uni(0.1, 0.9) * depth); }
static setup draw(Rng& R, bool reverb = true) {
    setup u;
    int n = R.in(1, 3);
    u.depth = R.uni(60, 200);
    u.layers = (size_t)(R.chance(0.4) ? R.in(1, 2) : 0);
    u.tstep = R.pick({0.05, 0.1});
    u.de_step = R.pick({20.0, 30.0});
    u.az_step = R.pick({30.0, 45.0});
    u.freq.reset(new seq_linear(900.0, 200.0, (size_t)R.in(1, 2)));
    for (int i = 0; i < n; ++i) {
        setup::sensor a;
        a.src = R.chance(0.75); a.rcv = !a.src || R.chance(0.6);
        a.reverb = reverb && R.chance(0.85); a.group = R.chance(0.1) ? 0 : 1;
        a.time_max = R.uni(0.3, 0.6); a.pulses = R.chance(0.7); a.cos = R.chance(0.4);
        u.s.push_back(a);
        u.at.push_back(place(R, u.depth));
        u.facing.push_back(orientation(R.uni(-180, 180), R.uni(-20, 20), R.uni(-20, 20)));
    }
    return u;
}
static sp make(const setup& u, size_t i, const wposition1& pos, const transmit_list& tl) {
    auto& a = u.s[i];
    sp p(new sensor_model(u.id(i), "s" + std::to_string(u.id(i)), 0, pos, u.facing[i]));
    bp_model::csptr b(new bp_omni());
    if (a.cos) b.reset(new bp_cardioid());
    if (a.src) p->src_beam(0, b);
    if (a.rcv) p->rcv_beam(0, b);
    p->multistatic(a.group);
    p->compute_reverb(a.reverb);
    p->time_maximum(a.time_max);
    p->time_step(u.tstep);
    p->de_fan(seq_vector::csptr(new seq_linear(-90.0, u.de_step, 90.0)));
    p->az_fan(seq_vector::csptr(new seq_linear(0.0, u.az_step, 360.0)));
    if (a.pulses && a.src && !tl.empty()) p->transmit_schedule(tl);
    return p;
}
static void ocean(const setup& u, size_t layers) {
    scattering_model::csptr scat(new scattering_constant(-30.0));
    boundary_model::csptr surface(new boundary_flat(0.0, reflect_loss_model::csptr(new reflect_loss_constant(0.0, M_PI)), scat));
    boundary_model::csptr bottom(new boundary_flat(-u.depth, reflect_loss_model::csptr(new reflect_loss_constant(1.0)), scat));
    profile_model::csptr profile(new profile_linear(1500.0, attenuation_model::csptr(new attenuation_constant(0.0))));
    std::vector<volume_model::csptr> v;
    for (size_t i = 0; i < layers; ++i) v.push_back(volume_model::csptr(new volume_flat(-u.depth * (0.35 + 0.2 * (double)i), 10.0, scattering_model::csptr(new scattering_constant(-60.0)))));
    ocean_shared::update(ocean_model::csptr(new ocean_model(surface, bottom, profile, &v)));
}
static void ocean(const setup& u) { ocean(u, u.layers); }
static wposition1 mark(int gen) { return wposition1(36.0, 16.0, -1.0 - 0.001 * gen); }
static int marked(double alt) { return (int)std::lround((-alt - 1.0) / 0.001); }

// Remembers what listeners of pairs saw last.
struct last_seen : update_listener<sensor_pair> {
    struct view { const void *dir, *bi, *rv; };
    std::mutex m;
    std::map<ends, view> last;
    std::atomic<double> lag{0};
    void notify_update(const sensor_pair* p) override {
        { std::lock_guard<std::mutex> g(m); last[of(p)] = view{p->dirpaths().get(), p->biverbs().get(), p->rvbts().get()}; }
        vt::obs("listener calls");
        if (lag > 0) nap(lag);
    }
};
// Generations published per sensor.
struct generations : wavefront_listener {
    std::mutex m;
    std::map<uint64_t, std::vector<int>> seq;
    std::map<uint64_t, std::set<uint64_t>> targets;
    std::atomic<double> lag{0};
    void update_wavefront_data(const sensor_model* s, eigenray_collection::csptr e, eigenverb_collection::csptr) override {
        if (lag > 0) nap(lag * 0.5);
        int g = -1;
        std::set<uint64_t> t;
        for (size_t i = 0; i < e->size1(); ++i) { t.insert(e->targetID(i, 0)); if (e->targetID(i, 0) == 1000 + s->keyID() - 1) g = marked(e->position(i, 0).altitude()); }
        { std::lock_guard<std::mutex> l(m); seq[s->keyID()].push_back(g); targets[s->keyID()] = t; }
        if (lag > 0) nap(lag * 0.5);
    }
};
struct result {
    std::vector<std::vector<double>> from_src, from_rcv, src_verbs, rcv_verbs, biverbs;
    matrix<double> rvbts;
    bool has_verbs = false, has_bi = false, has_rvbts = false;
};
static void add_markers(const setup& u) {
    for (size_t i = 0; i < u.s.size(); ++i) platform_manager::instance()->add(platform_model::sptr(new platform_model(u.marker(i), "marker", 0, mark(0))));
}
static std::map<ends, result> undisturbed(const setup& u, const std::vector<wposition1>& at, const std::vector<transmit_list>& tl) {
    std::map<ends, result> out;
    sensor_manager::reset();
    ocean(u);
    sensor_manager::instance()->frequencies(u.freq);
    add_markers(u);
    std::vector<sp> who;
    for (size_t i = 0; i < u.s.size(); ++i) { who.push_back(make(u, i, at[i], tl[i])); sensor_manager::instance()->add_sensor(who[i], nullptr); }
    for (size_t i = 0; i < u.s.size(); ++i) {
        who[i]->update(1, at[i], u.facing[i], 0.0, platform_model::FORCE_UPDATE);
        thread_task::wait();
        for (auto& p : sensor_manager::instance()->list()) if (p->dirpaths()) {
            auto& r = out[of(p.get())];
            if (p->source() == who[i]) r.from_src = rays_of(p->dirpaths()->eigenrays(0, 0));
            else if (p->receiver() == who[i]) r.from_rcv = rays_of(p->dirpaths()->eigenrays(0, 0));
        }
    }
    for (auto& p : sensor_manager::instance()->list()) {
        auto& r = out[of(p.get())];
        if (p->source() == p->receiver()) r.from_rcv = r.from_src;
        if (p->src_eigenverbs()) { r.has_verbs = true; r.src_verbs = verbs_of(*p->src_eigenverbs()); r.rcv_verbs = verbs_of(*p->rcv_eigenverbs()); }
        if (p->biverbs()) { r.has_bi = true; r.biverbs = biverbs_of(*p->biverbs()); }
        if (p->rvbts()) { r.has_rvbts = true; r.rvbts = p->rvbts()->time_series(); }
    }
    who.clear();
    sensor_manager::reset();
    return out;
}
static bool same_matrix(const matrix<double>& a, const matrix<double>& b) {
    if (a.size1() != b.size1() || a.size2() != b.size2()) return false;
    double big = 0;
    for (size_t i = 0; i < a.size1(); ++i) for (size_t j = 0; j < a.size2(); ++j) big = std::max(big, std::abs(a(i, j)));
    for (size_t i = 0; i < a.size1(); ++i) for (size_t j = 0; j < a.size2(); ++j) if (!(std::abs(a(i, j) - b(i, j)) <= 1e-9 * big)) return false;
    return true;
}

int main(int argc, char** argv) {
    vt::init(argc, argv);
    vt::section("paths", 300, [&](Case& C, Rng& R) {
        sensor_manager::reset();
        setup u = draw(R, false);
        while (u.s.size() < 2) u = draw(R, false);
        for (auto& a : u.s) a.group = 1;
        u.s[0].src = true; u.s[1].rcv = true;
        if (R.chance(0.4)) { u.s[0].rcv = false; u.s[1].src = false; }
        C.in("sensors", u.s.size());
        sensor_manager::instance()->frequencies(u.freq);
        last_seen seen;
        std::vector<sp> who;
        for (size_t i = 0; i < u.s.size(); ++i) { who.push_back(make(u, i, u.at[i], {})); sensor_manager::instance()->add_sensor(who[i], &seen); }
        auto list = sensor_manager::instance()->list();
        for (int step = 0; step < 6; ++step) {
            size_t k = (size_t)R.in(0, (int)who.size() - 1);
            if (R.chance(0.3)) { wposition1 to = place(R, u.depth); who[k]->update(step, to, u.facing[k], 0.0, platform_model::NO_UPDATE); }
            // paths of this sensor to everyone and to someone who is not a sensor
            std::vector<uint64_t> ids;
            for (size_t i = 0; i < who.size(); ++i) ids.push_back(u.id(i));
            ids.push_back(77);
            for (size_t i = ids.size(); i-- > 1;) std::swap(ids[i], ids[(size_t)R.in(0, (int)i)]);
            matrix<uint64_t> id(ids.size(), 1);
            wposition pos(ids.size(), 1);
            for (size_t i = 0; i < ids.size(); ++i) { id(i, 0) = ids[i]; wposition1 w = ids[i] == 77 ? place(R, u.depth) : who[ids[i] - 1]->position(); pos.latitude(i, 0, w.latitude()); pos.longitude(i, 0, w.longitude()); pos.altitude(i, 0, w.altitude()); }
            bool coherent = R.chance(0.5);
            auto c = std::make_shared<eigenray_collection>(u.freq, who[k]->position(), pos, u.id(k), id, coherent);
            std::map<uint64_t, eigenray_list> mine;
            for (size_t i = 0; i < ids.size(); ++i) {
                int m = R.in(0, 4);
                for (int j = 0; j < m; ++j) {
                    auto* e = new eigenray_model();
                    e->travel_time = R.uni(0.01, 5.0); e->frequencies = u.freq;
                    e->source_de = R.uni(-90, 90); e->source_az = R.uni(0, 360); e->target_de = R.uni(-90, 90); e->target_az = R.pick({R.uni(0, 360), R.uni(-180, 180)});
                    e->surface = R.in(0, 3); e->bottom = R.in(0, 3); e->caustic = R.in(0, 3); e->upper = R.in(0, 2); e->lower = R.in(0, 2);
                    e->intensity = vector<double>(u.freq->size()); e->phase = vector<double>(u.freq->size());
                    for (size_t f = 0; f < u.freq->size(); ++f) { e->intensity[f] = R.uni(30, 120); e->phase[f] = R.uni(-3, 3); }
                    eigenray_model::csptr q(e);
                    c->add_eigenray(i, 0, q);
                    mine[ids[i]].push_back(q);
                }
            }
            c->sum_eigenrays();
            std::map<ends, const void*> before;
            for (auto& p : list) before[of(p.get())] = p->dirpaths().get();
            who[k]->notify_wavefront_listeners(who[k].get(), c, std::make_shared<eigenverb_collection>(0));
            for (auto& p : list) {
                bool in = p->source() == who[k] || p->receiver() == who[k];
                if (!in) { CHECK(p->dirpaths().get() == before[of(p.get())], "stranger", MSG("pair " << p->hash_key() << " took the paths of sensor " << u.id(k))); continue; }
                uint64_t other = p->source() == who[k] ? p->receiver()->keyID() : p->source()->keyID();
                paths(C, *p, who[k].get(), mine[other], "direct");
                if (p->dirpaths()) CHECK(p->dirpaths()->coherent() == coherent, "coherent", "summation changed its kind");
                CHECK(seen.last[of(p.get())].dir == p->dirpaths().get(), "told", "listener was not told about new paths");
            }
        }
        who.clear(); list.clear();
        sensor_manager::reset();
    });
    // Computations from either end of a pair are the same set of paths.
    vt::section("reciprocal", 6, [&](Case& C, Rng& R) {
        sensor_manager::reset();
        setup u;
        u.depth = R.uni(150, 400);
        u.freq.reset(new seq_linear(1000.0, 1.0, (size_t)1));
        double range = R.uni(300, 900), bearing = R.uni(0, 360), z0 = -R.uni(0.15, 0.85) * u.depth, z1 = -R.uni(0.15, 0.85) * u.depth;
        C.in("depth", u.depth).in("range", range).in("bearing", bearing).in("z0", z0).in("z1", z1);
        ocean(u);
        wposition1 a(30, 20, z0), b(a, range, to_radians(bearing));
        b.altitude(z1);
        sensor_manager::instance()->frequencies(u.freq);
        last_seen seen;
        std::vector<sp> who;
        for (int i = 0; i < 2; ++i) {
            sp p(new sensor_model(i + 1, i ? "rcv" : "src", 0, i ? b : a));
            if (i) p->rcv_beam(0, bp_model::csptr(new bp_omni())); else p->src_beam(0, bp_model::csptr(new bp_omni()));
            p->multistatic(1); p->time_maximum(1.1); p->time_step(0.05);
            p->de_fan(seq_vector::csptr(new seq_linear(-70.0, 1.0, 70.0)));
            double mid = bearing + (i ? 180.0 : 0.0);
            p->az_fan(seq_vector::csptr(new seq_linear(mid - 12.0, 4.0, mid + 12.0)));
            who.push_back(p);
            sensor_manager::instance()->add_sensor(p, &seen);
        }
        auto pair = sensor_manager::instance()->find("1_2");
        typedef std::map<std::pair<int, int>, eigenray_model> table;
        table t[2];
        for (int i = 0; i < 2; ++i) {
            who[i]->update(1, who[i]->position(), orientation(), 0.0, platform_model::FORCE_UPDATE);
            thread_task::wait();
            auto d = pair->dirpaths();
            CHECK(d != nullptr, "no paths", "no paths after an update");
            if (!d) { sensor_manager::reset(); return; }
            for (auto& e : d->eigenrays(0, 0)) {
                // direct path and single reflections are unambiguous
                if (e->surface + e->bottom <= 1 && std::abs(e->source_de) < 60 && std::abs(e->target_de) < 60) t[i][{e->surface, e->bottom}] = *e;
            }
        }
        std::vector<double> off[2];
        for (auto& kv : t[0]) {
            auto it = t[1].find(kv.first);
            if (it == t[1].end()) { vt::obs("paths found from one end only"); continue; }
            auto &x = kv.second, &y = it->second;
            // straight lines over images give the angles
            int S = kv.first.first, B = kv.first.second;
            double rise = S ? -z1 - z0 : B ? (-2 * u.depth - z1) - z0 : z1 - z0;
            double de = to_degrees(atan2(rise, range)), tde = (S || B) ? -de : de;
            // single paths may be off next to a change of the fan
            for (auto* e : {&x, &y}) {
                NEAR(std::abs(std::remainder(e->source_az - bearing, 360.0)), 0.0, 0.5, "bearing", MSG("path leaves towards " << e->source_az << " instead of " << bearing));
                NEAR(std::abs(std::remainder(e->target_az - bearing, 360.0)), 0.0, 0.5, "arrival bearing", MSG("path arrives heading " << e->target_az << " instead of " << bearing));
                off[e == &y].push_back(std::max(std::abs(e->source_de - de), std::abs(e->target_de - tde)));
            }
            if (off[0].back() > 0.3 || off[1].back() > 0.3) continue;
            NEAR(x.travel_time, y.travel_time, 0.04, "time", MSG("path takes " << x.travel_time << " one way and " << y.travel_time << " the other"));
            NEAR(x.intensity[0], y.intensity[0], 2.5, "loss", MSG("path loses " << x.intensity[0] << " dB one way and " << y.intensity[0] << " the other"));
            vt::obs("paths computed from both ends");
        }
        for (int i = 0; i < 2; ++i) if (off[i].size() > 1) {
            std::sort(off[i].begin(), off[i].end());
            CHECK(off[i][(off[i].size() - 1) / 2] < 0.3, "angles", MSG("half of the " << off[i].size() << " paths from end " << i << " are off by more than " << off[i][(off[i].size() - 1) / 2] << " degrees"));
        }
        if (t[0].empty()) C.trivial();
        who.clear(); pair.reset();
        sensor_manager::reset();
    });
    // Updates from several threads while older computations run end in the results of the last update.
    vt::section("settled", 40, [&](Case& C, Rng& R) {
        setup u = draw(R);
        size_t n = u.s.size();
        std::vector<wposition1> at;
        std::vector<transmit_list> tl(n);
        for (size_t i = 0; i < n; ++i) { at.push_back(place(R, u.depth)); tl[i] = pulses(R); }
        int threads = R.in(1, 3), steps = R.in(1, 6);
        unsigned pool = (unsigned)R.pick({1, 2, 4, 8});
        double lag = R.chance(0.6) ? R.logu(50, 20000) : 0.0, gap = R.chance(0.7) ? R.logu(20, 30000) : 0.0;
        C.in("sensors", n).in("threads", threads).in("steps", steps).in("pool", pool).in("lag us", lag).in("gap us", gap);
        thread_controller::reset(pool);
        auto want = undisturbed(u, at, tl);
        sensor_manager::reset();
        ocean(u);
        sensor_manager::instance()->frequencies(u.freq);
        last_seen seen;
        generations gens;
        add_markers(u);
        std::vector<sp> who;
        std::vector<std::unique_ptr<std::mutex>> mm;
        std::vector<int> gen(n, 0);
        for (size_t i = 0; i < n; ++i) {
            who.push_back(make(u, i, u.at[i], R.chance(0.5) ? pulses(R) : transmit_list()));
            mm.emplace_back(new std::mutex());
            who[i]->add_wavefront_listener(&gens);
            sensor_manager::instance()->add_sensor(who[i], &seen);
        }
        seen.lag = gens.lag = lag;
        auto bump = [&](size_t i) { std::lock_guard<std::mutex> g(*mm[i]); platform_manager::instance()->find(u.marker(i))->update(1, mark(++gen[i]), orientation(), 0.0, platform_model::NO_UPDATE); };
        std::vector<uint64_t> seeds;
        for (int t = 0; t < threads; ++t) seeds.push_back(R.next());
        std::vector<std::thread> T;
        for (int t = 0; t < threads; ++t) T.emplace_back([&, t] {
            Rng Q(seeds[t]);
            for (int k = 0; k < steps; ++k) {
                size_t i = (size_t)Q.in(0, (int)n - 1);
                bump(i);
                who[i]->update(1 + k, place(Q, u.depth), u.facing[i], 0.0, platform_model::FORCE_UPDATE);
                vt::obs("updates disturbed");
                if (Q.chance(0.3)) who[i]->transmit_schedule(pulses(Q), Q.chance(0.5) ? platform_model::FORCE_UPDATE : platform_model::NO_UPDATE);
                if (gap > 0) nap(Q.uni(0, gap));
            }
        });
        for (auto& t : T) t.join();
        for (size_t i = 0; i < n; ++i) who[i]->update(100, at[i], u.facing[i], 0.0, platform_model::NO_UPDATE);
        for (size_t i = 0; i < n; ++i) who[i]->transmit_schedule(u.s[i].pulses && u.s[i].src ? tl[i] : transmit_list());
        std::vector<size_t> order;
        for (size_t i = 0; i < n; ++i) order.push_back(i);
        for (size_t i = n; i-- > 1;) std::swap(order[i], order[(size_t)R.in(0, (int)i)]);
        for (size_t i : order) {
            bump(i);
            who[i]->update(100, at[i], u.facing[i], 0.0, platform_model::FORCE_UPDATE);
            if (gap > 0 && R.chance(0.5)) nap(R.uni(0, gap));
        }
        bool drift = R.chance(0.3);  // moved on without asking for an update: the results stay those of the last forced update
        if (drift) for (size_t i = 0; i < n; ++i) who[i]->update(101, place(R, u.depth), u.facing[i], 0.0, platform_model::NO_UPDATE);
        thread_task::wait();
        seen.lag = gens.lag = 0;
        size_t npairs = 0;
        for (auto& p : sensor_manager::instance()->list()) {
            ends e = of(p.get());
            ++npairs;
            auto& w = want[e];
            CHECK(p->dirpaths() != nullptr, "no paths", "pair " + str(e) + " has no paths");
            if (!p->dirpaths()) continue;
            auto got = rays_of(p->dirpaths()->eigenrays(0, 0));
            bool fs = same_list(got, w.from_src, 1e-9), fr = same_list(got, w.from_rcv, 1e-9);
            CHECK(fs || fr, "paths", MSG("pair " << str(e) << " ends with " << got.size() << " paths that are not those of the final state (" << w.from_src.size() << " and " << w.from_rcv.size() << ")"));
            vt::obs(fs ? "settled from source" : "settled from receiver");
            if (w.has_verbs) {
                CHECK(p->src_eigenverbs() && p->rcv_eigenverbs(), "no patches", "pair " + str(e) + " has no patches");
                if (p->src_eigenverbs() && p->rcv_eigenverbs()) {
                    CHECK(same_list(verbs_of(*p->src_eigenverbs()), w.src_verbs, 1e-9), "source patches", "pair " + str(e) + " ends with other source patches");
                    CHECK(same_list(verbs_of(*p->rcv_eigenverbs()), w.rcv_verbs, 1e-9), "receiver patches", "pair " + str(e) + " ends with other receiver patches");
                    vt::obs("patches compared", (long)w.src_verbs.size());
                }
            } else CHECK(!p->src_eigenverbs() && !p->rcv_eigenverbs(), "unasked patches", "pair without reverberation has patches");
            CHECK((p->biverbs() != nullptr) == w.has_bi, "no overlaps", "pair " + str(e) + (w.has_bi ? " has no overlaps" : " has overlaps nobody asked for"));
            if (p->biverbs() && w.has_bi) {
                auto g = biverbs_of(*p->biverbs());
                CHECK(same_list(g, w.biverbs, 1e-9), "overlaps", MSG("pair " << str(e) << " ends with other overlaps, " << g.size() << " of " << w.biverbs.size()));
                vt::obs("overlaps compared", (long)g.size());
            }
            if (w.has_rvbts) {
                CHECK(p->rvbts() != nullptr, "no envelopes", "pair " + str(e) + " has no envelopes");
                if (p->rvbts() && !drift) {
                    CHECK(same_matrix(p->rvbts()->time_series(), w.rvbts), "envelopes", "pair " + str(e) + " ends with other envelopes");
                    vt::obs("envelopes compared");
                }
            }
            std::lock_guard<std::mutex> g(seen.m);
            auto it = seen.last.find(e);
            CHECK(it != seen.last.end(), "not told", "listeners of pair " + str(e) + " were never told");
            if (it != seen.last.end()) {
                CHECK(it->second.dir == p->dirpaths().get() && it->second.bi == p->biverbs().get() && it->second.rv == p->rvbts().get(), "told too early", "listeners of pair " + str(e) + " were not told about its final results");
            }
        }
        if (!npairs) C.trivial();
        uint64_t mix = 0;
        for (size_t i = 0; i < n; ++i) {
            auto& q = gens.seq[u.id(i)];
            bool up = std::is_sorted(q.begin(), q.end());
            CHECK(up, "older after newer", "wavefronts of sensor " + std::to_string(u.id(i)) + " were published out of order");
            CHECK(!q.empty() && q.back() == gen[i], "last wavefront", MSG("sensor " << u.id(i) << " last published update " << (q.empty() ? -1 : q.back()) << " of " << gen[i]));
            vt::obs("wavefronts published", (long)q.size());
            vt::obs("wavefronts superseded", (long)gen[i] - (long)q.size());
            for (int g : q) mix = mix * 31 + (uint64_t)g;
            who[i]->remove_wavefront_listener(&gens);
        }
        vt::mix(mix);
        std::vector<std::weak_ptr<sensor_model>> weak;
        for (auto& w : who) weak.push_back(w);
        who.clear();
        sensor_manager::reset();
        for (auto& w : weak) CHECK(soon([&] { return w.expired(); }), "kept", "sensor still alive after its pairs, tasks and manager are gone");
    });
    // Sensors are removed and managers reset while computations run.
    vt::section("lifetime", 40, [&](Case& C, Rng& R) {
        sensor_manager::reset();
        setup u = draw(R);
        size_t n = u.s.size();
        int steps = R.in(2, 8);
        unsigned pool = (unsigned)R.pick({1, 2, 4, 8});
        double lag = R.chance(0.6) ? R.logu(50, 20000) : 0.0, gap = R.chance(0.8) ? R.logu(20, 100000) : 0.0;
        bool byreset = R.chance(0.3), swap_ocean = R.chance(0.3);
        C.in("sensors", n).in("steps", steps).in("pool", pool).in("lag us", lag).in("gap us", gap).in("reset", byreset);
        thread_controller::reset(pool);
        ocean(u);
        sensor_manager::instance()->frequencies(u.freq);
        auto seen = std::make_shared<last_seen>();
        seen->lag = lag;
        std::vector<sp> who(n);
        std::vector<std::weak_ptr<sensor_model>> weak;
        std::vector<std::weak_ptr<sensor_pair>> wpairs;
        for (int k = 0; k < steps; ++k) {
            size_t i = (size_t)R.in(0, (int)n - 1);
            if (!who[i]) {
                who[i] = make(u, i, place(R, u.depth), pulses(R));
                weak.push_back(who[i]);
                sensor_manager::instance()->add_sensor(who[i], seen.get());
                for (auto& p : sensor_manager::instance()->list()) wpairs.push_back(p);
            }
            who[i]->update(k, place(R, u.depth), u.facing[i], 0.0, platform_model::FORCE_UPDATE);
            if (R.chance(0.5)) { size_t j = (size_t)R.in(0, (int)n - 1); if (who[j]) who[j]->update(k, place(R, u.depth), u.facing[j], 0.0, platform_model::FORCE_UPDATE); }
            if (gap > 0) nap(R.uni(0, gap));
            if (swap_ocean && R.chance(0.5)) { ocean(u, (size_t)R.in(0, 2)); vt::obs("oceans replaced"); }
            if (R.chance(0.4)) {
                size_t j = (size_t)R.in(0, (int)n - 1);
                if (who[j]) { sensor_manager::instance()->remove_sensor(who[j], seen.get()); who[j].reset(); vt::obs("sensors removed while busy", thread_task::num_active() > 0); }
            }
        }
        if (byreset) { who.clear(); sensor_manager::reset(); vt::obs("resets while busy", thread_task::num_active() > 0); }
        else {
            for (size_t i = 0; i < n; ++i) if (who[i]) { sensor_manager::instance()->remove_sensor(who[i], seen.get()); who[i].reset(); }
            seen->lag = 0;
            // removed listeners are never called again, so they may go
            thread_task::wait();
        }
        thread_task::wait();
        seen.reset();
        for (auto& w : weak) CHECK(soon([&] { return w.expired(); }), "kept", "removed sensor stays alive");
        for (auto& w : wpairs) CHECK(soon([&] { return w.expired(); }), "pair kept", "pair of a removed sensor stays alive");
        sensor_manager::reset();
        CHECK(platform_manager::instance()->list().empty(), "platforms left", "platforms survive the reset");
        vt::obs("sensors that ended", (long)weak.size());
    });
    // Sensors come and go in some threads while others update everything there is.
    vt::section("arrivals", 25, [&](Case& C, Rng& R) {
        sensor_manager::reset();
        setup u = draw(R);
        while (u.s.size() < 2) u = draw(R);
        for (auto& a : u.s) a.time_max = 0.15;
        size_t n = u.s.size();
        int steps = R.in(2, 12), updaters = R.in(1, 2);
        double gap = R.chance(0.7) ? R.logu(10, 3000) : 0.0;
        C.in("sensors", n).in("steps", steps).in("updaters", updaters).in("gap us", gap);
        thread_controller::reset((unsigned)R.pick({1, 2, 4}));
        ocean(u);
        sensor_manager::instance()->frequencies(u.freq);
        last_seen seen;
        std::vector<uint64_t> seeds;
        for (int i = 0; i < 4; ++i) seeds.push_back(R.next());
        std::atomic<int> left{(int)n};
        std::mutex wm;
        std::vector<std::weak_ptr<sensor_model>> weak;
        std::vector<std::thread> T;
        for (size_t i = 0; i < n; ++i) T.emplace_back([&, i] {
            Rng Q(seeds[i]);
            for (int k = 0; k < steps; ++k) {
                sp p = make(u, i, place(Q, u.depth), pulses(Q));
                { std::lock_guard<std::mutex> g(wm); weak.push_back(p); }
                sensor_manager::instance()->add_sensor(p, &seen);
                if (gap > 0) nap(Q.uni(0, gap));
                if (Q.chance(0.3)) p->transmit_schedule(pulses(Q), platform_model::FORCE_UPDATE);
                sensor_manager::instance()->remove_sensor(p, &seen);
                vt::obs("sensors that came and went");
            }
            --left;
        });
        for (int t = 0; t < updaters; ++t) T.emplace_back([&, t] {
            Rng Q(seeds[3] + (uint64_t)t);
            while (left > 0) {
                for (auto& q : platform_manager::instance()->list()) {
                    q->update(1, q->position(), q->orient(), 0.0, Q.chance(0.3) ? platform_model::FORCE_UPDATE : platform_model::TEST_THRESHOLD);
                    vt::obs("updates of whatever is there");
                }
                for (auto& p : sensor_manager::instance()->list()) { p->dirpaths(); p->biverbs(); p->rvbts(); p->hash_key(); }
                nap(200);
            }
        });
        for (auto& t : T) t.join();
        thread_task::wait();
        for (auto& w : weak) CHECK(soon([&] { return w.expired(); }), "kept", "removed sensor stays alive");
        CHECK(sensor_manager::instance()->list().empty(), "pairs left", "pairs of removed sensors are left");
        CHECK(platform_manager::instance()->list().empty(), "platforms left", "removed sensors are left in the platform manager");
        sensor_manager::reset();
    });
    // Schedules start computations of envelopes when they should.
    vt::section("schedule", 30, [&](Case& C, Rng& R) {
        sensor_manager::reset();
        setup u = draw(R);
        u.s.resize(1); u.at.resize(1);
        u.s[0].src = u.s[0].rcv = u.s[0].reverb = true; u.s[0].pulses = false;
        thread_controller::reset(4);
        ocean(u);
        sensor_manager::instance()->frequencies(u.freq);
        last_seen seen;
        sp s = make(u, 0, u.at[0], {});
        sensor_manager::instance()->add_sensor(s, &seen);
        auto p = sensor_manager::instance()->find("1_1");
        CHECK(p != nullptr, "no pair", "no pair of a sensor with itself");
        if (!p) { sensor_manager::reset(); return; }
        auto compare = [&](const transmit_list& tl) {
            auto r = p->rvbts();
            if (!r) return;
            double shortest = 1e9;
            for (auto& t : tl) shortest = std::min(shortest, t->duration);
            seq_vector::csptr times(new seq_linear(s->time_minimum(), std::max(0.1, shortest / 2), s->time_maximum()));
            rvbts_collection want(s, s->position(), s->orient(), s->speed(), s, s->position(), s->orient(), s->speed(), times);
            for (size_t i = 0; i < p->biverbs()->num_interfaces(); ++i) for (auto& b : p->biverbs()->biverbs(i)) {
                double start = 0.0;  // pulses follow each other
                for (auto& t : tl) { want.add_biverb(b, t, bvector(t->orderedDE, t->orderedAZ), start); start += t->delay + t->duration; }
            }
            CHECK(same_matrix(r->time_series(), want.time_series()), "envelopes", "envelopes are not those of the schedule and the overlaps of the pair");
            vt::obs("envelopes compared");
        };
        bool early = R.chance(0.3);
        transmit_list now;
        if (early) { now = pulses(R); s->transmit_schedule(now, platform_model::FORCE_UPDATE); thread_task::wait(); CHECK(p->rvbts() == nullptr, "too early", "envelopes without overlaps"); }
        s->update(1, u.at[0], u.facing[0], 0.0, platform_model::FORCE_UPDATE);
        thread_task::wait();
        CHECK(p->biverbs() != nullptr, "no overlaps", "no overlaps after an update");
        if (!p->biverbs()) { p.reset(); s.reset(); sensor_manager::reset(); return; }
        CHECK((p->rvbts() != nullptr) == !now.empty(), "from update", (now.empty() ? "envelopes without a schedule" : "no envelopes although there is a schedule"));
        compare(now);
        std::ostringstream log;
        for (int k = 0; k < 6; ++k) {
            auto old = p->rvbts();
            const void* ob = p->biverbs().get();
            auto how = R.pick({platform_model::NO_UPDATE, platform_model::TEST_THRESHOLD, platform_model::FORCE_UPDATE});
            transmit_list next = R.chance(0.3) ? transmit_list() : pulses(R);
            bool launch = !next.empty() && (now.empty() || how == platform_model::FORCE_UPDATE);
            log << now.size() << ">" << next.size() << (how == platform_model::FORCE_UPDATE ? "!" : "") << " ";
            { std::lock_guard<std::mutex> g(seen.m); seen.last.clear(); }
            s->transmit_schedule(next, how);
            CHECK(s->transmit_schedule() == next, "kept schedule", "schedule of the sensor is not the one set");
            thread_task::wait();
            CHECK((p->rvbts() != old) == launch, launch ? "not computed" : "computed anyway", MSG(log.str() << ": envelopes " << (launch ? "were not computed" : "were computed without being asked for")));
            CHECK(p->biverbs().get() == ob, "overlaps changed", "a schedule changed the overlaps");
            if (launch) {
                compare(next);
                CHECK(seen.last.count(ends(1, 1)) && seen.last[ends(1, 1)].rv == p->rvbts().get(), "told", "listener was not told about new envelopes");
            } else CHECK(seen.last.empty(), "told of nothing", "listener was told although nothing changed");
            now = next;
            vt::obs("schedules set");
        }
        p.reset(); s.reset();
        sensor_manager::reset();
    });
    // Movements below the thresholds do not start computations; targets are those in range.
    // What a computation uses is the state at its update, whatever changes before a worker gets to it.
    vt::section("settings", 40, [&](Case& C, Rng& R) {
        sensor_manager::reset();
        setup u = draw(R);
        u.s.resize(1); u.at.resize(1);
        u.s[0].src = u.s[0].rcv = true;
        thread_controller::reset(1);
        ocean(u);
        auto env = ocean_shared::current();
        seq_vector::csptr freq(new seq_linear(R.uni(300, 900), 150.0, (size_t)R.in(1, 3)));
        sensor_manager::instance()->frequencies(freq);
        sp s = make(u, 0, u.at[0], {});
        sensor_manager::instance()->add_sensor(s, nullptr);
        int np = R.in(1, 3), maxb = R.in(0, 3), maxs = R.in(0, 3);
        double tmax = R.uni(0.1, 0.5), step = R.pick({0.02, 0.05, 0.07}), loss = R.chance(0.5) ? R.uni(30, 60) : 300;
        seq_vector::csptr de(new seq_linear(-R.uni(60, 90), R.pick({7.5, 15.0, 20.0}), 90.0)), az(new seq_linear(0.0, R.pick({30.0, 45.0, 60.0}), 360.0));
        if (R.chance(0.3)) az.reset(new seq_linear(R.uni(0, 90), 20.0, 200.0));
        bool save = R.chance(0.15);
        std::string name = vt::S().scratch + "/wave.nc";
        C.in("targets", np).in("maxb", maxb).in("maxs", maxs).in("tmax", tmax).in("step", step).in("loss", loss).in("save", save);
        std::vector<platform_model::sptr> others;
        for (int i = 0; i < np; ++i) {
            platform_model::sptr q(new platform_model((uint64_t)(50 + i), "p", 0, place(R, u.depth)));
            others.push_back(q);
            platform_manager::instance()->add(q);
        }
        s->max_bottom(maxb); s->max_surface(maxs); s->time_maximum(tmax); s->time_step(step); s->intensity_threshold(-loss); s->de_fan(de); s->az_fan(az);
        CHECK(s->max_bottom() == maxb && s->max_surface() == maxs && s->time_maximum() == tmax && s->time_step() == step && s->intensity_threshold() == -loss && s->de_fan() == de && s->az_fan() == az && s->time_minimum() == 0 && s->multistatic() == u.s[0].group, "settings kept", "a setting reads back differently");
        if (save) s->wavefront_file(name);
        struct catcher : wavefront_listener {
            std::mutex m;
            std::vector<std::pair<eigenray_collection::csptr, eigenverb_collection::csptr>> got;
            void update_wavefront_data(const sensor_model*, eigenray_collection::csptr e, eigenverb_collection::csptr v) override { std::lock_guard<std::mutex> g(m); got.emplace_back(e, v); }
        } ear;
        s->add_wavefront_listener(&ear);
        struct busy : thread_task { std::atomic<bool>& go; busy(std::atomic<bool>& g) : go(g) {} void run() override { while (!go) nap(200); } };
        std::atomic<bool> go{false};
        thread_controller::instance()->run(std::make_shared<busy>(go));
        wposition1 at = u.at[0];
        std::vector<wposition1> tpos{at};
        std::vector<uint64_t> tid{1};
        for (auto& q : others) tpos.push_back(q->position()), tid.push_back(q->keyID());
        s->update(1, at, u.facing[0], 0.0, platform_model::FORCE_UPDATE);
        // everything changes while the worker is busy
        if (R.chance(0.8)) s->update(2, place(R, u.depth), orientation(R.uni(-180, 180), 0, 0), 3.0, platform_model::NO_UPDATE);
        if (R.chance(0.8)) for (auto& q : others) q->update(2, place(R, u.depth), orientation(), 0.0, platform_model::NO_UPDATE);
        if (R.chance(0.8)) { s->max_bottom(0); s->max_surface(0); s->time_maximum(0.05); s->time_step(0.01); s->intensity_threshold(-1); s->de_fan(seq_vector::csptr(new seq_linear(-10.0, 5.0, 10.0))); s->az_fan(seq_vector::csptr(new seq_linear(0.0, 5.0, 10.0))); }
        if (R.chance(0.8)) sensor_manager::instance()->frequencies(u.freq);
        if (R.chance(0.6)) { setup v = u; v.depth *= 1.3; ocean(v, 0); }
        if (R.chance(0.3)) platform_manager::instance()->remove(50);
        go = true;
        thread_task::wait();
        CHECK(ear.got.size() == 1, "computations", MSG(ear.got.size() << " computations after one update"));
        s->remove_wavefront_listener(&ear);
        if (!ear.got.empty()) {
            size_t n = tid.size();
            wposition pos(n, 1);
            matrix<uint64_t> id(n, 1);
            for (size_t i = 0; i < n; ++i) { pos.latitude(i, 0, tpos[i].latitude()); pos.longitude(i, 0, tpos[i].longitude()); pos.altitude(i, 0, tpos[i].altitude()); id(i, 0) = tid[i]; }
            usml::waveq3d::wave_queue wave(env, freq, at, de, az, step, &pos);
            wave.intensity_threshold(-loss); wave.max_bottom(maxb); wave.max_surface(maxs);
            eigenray_collection rays(freq, at, pos, 1, id);
            eigenverb_collection verbs(env->num_volume());
            wave.add_eigenray_listener(&rays);
            if (s->compute_reverb()) wave.add_eigenverb_listener(&verbs);
            while (wave.time() < tmax) wave.step();
            auto& e = *ear.got[0].first;
            CHECK(e.sourceID() == 1 && e.frequencies() == freq, "origin", "results of another source or band");
            long found = 0;
            for (size_t i = 0; i < n; ++i) {
                auto a = rays_of(e.find_eigenrays(tid[i])), b = rays_of(rays.eigenrays(i, 0));
                CHECK(same_list(a, b, 1e-6), "settings paths", MSG("target " << tid[i] << " has " << a.size() << " paths, " << b.size() << " in the state of the update"));
                found += (long)b.size();
            }
            CHECK(same_list(verbs_of(*ear.got[0].second), verbs_of(verbs), 1e-6), "settings patches", "patches are not those of the state of the update");
            vt::obs("paths of settings", found);
        }
        if (save) {
            std::ifstream f(name, std::ios::binary);
            char c[4] = {0};
            f.read(c, 4);
            CHECK(f.gcount() == 4 && (std::string(c, 3) == "CDF" || std::string(c + 1, 3) == "HDF"), "wavefront file", "no wavefront file was written");
            std::remove(name.c_str());
        }
        s.reset(); others.clear();
        sensor_manager::reset();
    });
    vt::section("thresholds", 60, [&](Case& C, Rng& R) {
        sensor_manager::reset();
        setup u = draw(R, false);
        u.s.resize(1); u.at.resize(1);
        thread_controller::reset(2);
        ocean(u);
        sensor_manager::instance()->frequencies(u.freq);
        generations gens;
        u.s[0].time_max = 0.05;
        sp s = make(u, 0, u.at[0], {});
        double lo = R.chance(0.5) ? R.uni(1, 200) : 0.0, hi = R.chance(0.5) ? lo + R.uni(50, 400) : 0.0;
        s->min_range(lo); s->max_range(hi);
        C.in("min", lo).in("max", hi);
        s->add_wavefront_listener(&gens);
        sensor_manager::instance()->add_sensor(s, nullptr);
        int np = R.in(1, 6);
        std::vector<platform_model::sptr> others;
        for (int i = 0; i < np; ++i) {
            platform_model::sptr q(new platform_model((uint64_t)(50 + i), "p", 0, wposition1(u.at[0], R.uni(10, 600), R.uni(0, 6.28))));
            if (R.chance(0.25)) q->is_acoustic_target(false);
            others.push_back(q);
            platform_manager::instance()->add(q);
        }
        wposition1 pos = u.at[0], ref;
        orientation ori(R.uni(-60, 60), R.uni(-40, 40), R.uni(-40, 40)), oref;
        bool first = true;
        std::ostringstream log;
        for (int k = 0; k < 12; ++k) {
            auto how = R.pick({platform_model::NO_UPDATE, platform_model::TEST_THRESHOLD, platform_model::TEST_THRESHOLD, platform_model::FORCE_UPDATE});
            // amounts well below or above the thresholds of 0.01 degrees, 5 metres and 5 degrees
            auto amount = [&](double th) { return (R.chance(0.5) ? 1 : -1) * th * (R.chance(0.85) ? R.uni(0, 0.2) : R.uni(1.1, 2.0)); };
            pos.latitude(pos.latitude() + (R.chance(0.3) ? amount(0.01) : 0));
            pos.longitude(pos.longitude() + (R.chance(0.3) ? amount(0.01) : 0));
            pos.altitude(std::max(-0.95 * u.depth, std::min(-0.05 * u.depth, pos.altitude() + (R.chance(0.3) ? amount(5.0) : 0))));
            double yaw = ori.yaw(), pitch = ori.pitch(), roll = ori.roll();
            if (R.chance(0.3)) yaw += amount(5.0);
            if (R.chance(0.3)) pitch += amount(5.0);
            if (R.chance(0.3)) roll += amount(5.0);
            pitch = std::max(-60.0, std::min(60.0, pitch));
            roll = std::max(-60.0, std::min(60.0, roll));
            yaw = std::max(-120.0, std::min(120.0, yaw));
            ori = orientation(yaw, pitch, roll);
            double m = 0;
            double d[6] = {(pos.latitude() - ref.latitude()) / 0.01, (pos.longitude() - ref.longitude()) / 0.01, (pos.altitude() - ref.altitude()) / 5.0, (ori.yaw() - oref.yaw()) / 5.0, (ori.pitch() - oref.pitch()) / 5.0, (ori.roll() - oref.roll()) / 5.0};
            for (double x : d) m = std::max(m, std::abs(x));
            if (how == platform_model::TEST_THRESHOLD && !first && std::abs(m - 1.0) < 0.02) how = platform_model::NO_UPDATE;
            bool expect = how == platform_model::FORCE_UPDATE || (how == platform_model::TEST_THRESHOLD && (first || m > 1));
            std::set<uint64_t> in;
            bool close = false;
            auto consider = [&](uint64_t id, const wposition1& at) {
                double r = at.distance(pos);
                if (lo == 0 && hi == 0) { in.insert(id); return; }
                if (std::abs(r - lo) < 0.1 || (hi > 0 && std::abs(r - hi) < 0.1)) { if (!(r == 0 && lo == 0)) close = true; }
                if (r >= lo && (hi == 0 || r <= hi)) in.insert(id);
            };
            for (auto& q : others) if (q->is_acoustic_target()) consider(q->keyID(), q->position());
            consider(1, pos);
            size_t before = gens.seq[1].size();
            s->update(k + 1, pos, ori, 0.0, how);
            thread_task::wait();
            size_t got = gens.seq[1].size() - before;
            if (expect) { ref = pos; oref = ori; first = false; }
            log << (how == platform_model::FORCE_UPDATE ? "F" : how == platform_model::NO_UPDATE ? "N" : "T") << m << (got ? "+ " : " ");
            if (close) { vt::obs("targets at the limit skipped"); continue; }
            if (expect && in.empty()) { CHECK(got == 0, "no targets", "computation without targets"); continue; }
            CHECK(got == (expect ? 1u : 0u), expect ? "not started" : "started", MSG(log.str() << ": " << got << " computations, " << (expect ? "one" : "none") << " expected at " << m << " thresholds"));
            if (got) {
                CHECK(gens.targets[1] == in, "targets", MSG("computed " << gens.targets[1].size() << " targets instead of the " << in.size() << " in range"));
                vt::obs("computations with the right targets");
            } else vt::obs("movements below the thresholds");
        }
        s->remove_wavefront_listener(&gens);
        s.reset(); others.clear();
        sensor_manager::reset();
    });
    return vt::finish();
}
