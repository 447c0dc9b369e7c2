// E02: reverberation patches: search by overlap and production by the propagation model.
#include <usml/eigenverbs/eigenverbs.h>
#include <usml/ocean/ocean.h>
#include <usml/types/types.h>
#include <usml/waveq3d/waveq3d.h>
#include <algorithm>
#include <atomic>
#include <thread>
#include <boost/geometry/geometry.hpp>
#include "rays.h"
#include "vt.h"
using namespace usml::eigenverbs;
using namespace usml::ocean;
using namespace usml::types;
using namespace usml::waveq3d;
typedef boost::numeric::ublas::vector<double> dv;
typedef eigenverb_model::csptr vp;
static const double D = M_PI / 180;
struct place { double lat, lon; };
static place dest(place p, double range, double bearing) {
    long double d = range / wposition::earth_radius, la = p.lat * D, lo = p.lon * D;
    long double n[3] = {-sinl(la) * cosl(lo), -sinl(la) * sinl(lo), cosl(la)}, e[3] = {-sinl(lo), cosl(lo), 0}, r[3] = {cosl(la) * cosl(lo), cosl(la) * sinl(lo), sinl(la)}, o[3];
    for (int i = 0; i < 3; ++i) o[i] = r[i] * cosl(d) + sinl(d) * (n[i] * cosl(bearing) + e[i] * sinl(bearing));
    return {(double)(atan2l(o[2], hypotl(o[0], o[1])) / D), (double)(atan2l(o[1], o[0]) / D)};
}
static eigenverb_model* patch(Rng& R, const seq_vector::csptr& f, place p, double len, double wid, double dir, double alt = -100) {
    auto* v = new eigenverb_model();
    v->travel_time = R.uni(0.1, 60);
    v->frequencies = f;
    v->power.resize(f->size());
    for (auto& x : v->power) x = R.logu(1e-8, 1);
    v->length = len; v->width = wid;
    v->position = wposition1(p.lat, p.lon, alt);
    v->direction = dir; v->grazing = R.uni(0.02, 1.5); v->sound_speed = R.uni(1450, 1560);
    v->de_index = R.in(0, 180); v->az_index = R.in(0, 360);
    v->source_de = R.uni(-1.5, 1.5); v->source_az = R.uni(0, 2 * M_PI);
    v->surface = v->bottom = v->caustic = v->upper = v->lower = 0;
    return v;
}
// position of a point in the frame of the search area: 1 on its outline, less inside
static double reach(const eigenverb_model& q, const wposition1& w) {
    long double la = q.position.latitude() * D, lo = q.position.longitude() * D, lb = w.latitude() * D, lc = w.longitude() * D;
    long double n[3] = {-sinl(la) * cosl(lo), -sinl(la) * sinl(lo), cosl(la)}, e[3] = {-sinl(lo), cosl(lo), 0}, u[3] = {cosl(la) * cosl(lo), cosl(la) * sinl(lo), sinl(la)};
    long double x[3] = {cosl(lb) * cosl(lc), cosl(lb) * sinl(lc), sinl(lb)}, N = 0, E = 0, U = 0;
    for (int i = 0; i < 3; ++i) N += n[i] * x[i], E += e[i] * x[i], U += u[i] * x[i];
    if (U <= 0) return 1e9;
    N /= U; E /= U;  // gnomonic: great circles are straight lines
    long double a = q.direction, f = N * cosl(a) + E * sinl(a), s = -N * sinl(a) + E * cosl(a), k = 1.5L / (wposition::earth_radius + q.position.altitude());
    return (double)(fabsl(f) / tanl(k * q.length) + fabsl(s) / tanl(k * q.width));
}
// The search the library is known to make (see known_findings.txt): the outline is taken with
// latitude and longitude exchanged and without its closing side. Answers that differ from the true
// set in exactly this way are the known finding, any other difference is a new one.
namespace bgm = boost::geometry::model;
typedef bgm::point<double, 2, boost::geometry::cs::spherical_equatorial<boost::geometry::degree>> bpoint;
typedef boost::geometry::index::rtree<std::pair<bpoint, const void*>, boost::geometry::index::rstar<8>> btree;
static bgm::polygon<bpoint> open_outline(const eigenverb_model& q) {
    bgm::polygon<bpoint> a;
    for (int k = 0; k < 4; ++k) {
        wposition1 p(q.position, 1.5 * (k % 2 ? q.width : q.length), q.direction + k * M_PI_2);
        a.outer().push_back(bpoint(p.latitude(), p.longitude()));
    }
    return a;
}
int main(int argc, char** argv) {
    vt::init(argc, argv);
    vt::section("find", 1500, [&](Case& C, Rng& R) {
        seq_vector::csptr f(new seq_linear(1000.0, 1.0, 1));
        size_t vols = R.in(0, 2);
        eigenverb_collection col(vols);
        CHECK(col.num_interfaces() == 2 * (1 + vols), "interfaces", "number of interfaces " << col.num_interfaces());
        place o{R.chance(0.1) ? R.uni(-85, 85) : R.uni(-70, 70), R.chance(0.25) ? (R.chance(0.5) ? 180 : -180) + R.uni(-0.02, 0.02) : R.chance(0.1) ? R.uni(180, 360) : R.uni(-180, 180)};
        double L = R.logu(20, 20000), W = R.chance(0.2) ? L : L * R.logu(0.05, 20), dir = R.chance(0.2) ? M_PI / 2 * R.in(-2, 4) : R.uni(-M_PI, 2 * M_PI);
        vp q(patch(R, f, o, L, W, dir));
        C.in("lat", o.lat).in("lon", o.lon).in("length", L).in("width", W).in("direction", dir / D);
        std::vector<std::vector<vp>> have(col.num_interfaces());
        int n = R.in(0, 60);
        for (int k = 0; k < n; ++k) {
            // around the query, in its own axes
            double s = R.uni(0, 3), t = R.uni(0, 2 * M_PI), fx = 1.5 * L * s * std::cos(t), sx = 1.5 * W * s * std::sin(t);
            if (R.chance(0.05)) fx = sx = 0;
            place p = dest(o, std::hypot(fx, sx), dir + std::atan2(sx, fx));
            vp v(patch(R, f, p, L, W, R.uni(0, 6)));
            double a = reach(*q, v->position);
            if (std::fabs(a - 1) < 1e-3) continue;
            size_t w = R.in(0, col.num_interfaces() - 1);
            col.add_eigenverb(v, w);
            have[w].push_back(v);
        }
        long in = 0, out = 0;
        for (size_t w = 0; w < have.size(); ++w) {
            CHECK(col.size(w) == have[w].size() && col.eigenverbs(w).size() == have[w].size(), "stored", "interface " << w << " holds " << col.size(w) << " patches, want " << have[w].size());
            std::set<const void*> got, want;
            size_t count = 0;
            for (auto& v : col.find_eigenverbs(q, w)) got.insert(v.get()), ++count;
            std::set<const void*> open, pruned;
            auto outline = open_outline(*q);
            btree tree;
            for (auto& v : have[w]) {
                if (reach(*q, v->position) < 1) want.insert(v.get()), ++in; else ++out;
                bpoint b(v->position.latitude(), v->position.longitude());
                if (boost::geometry::within(b, outline)) open.insert(v.get());
                tree.insert({b, v.get()});
            }
            std::vector<std::pair<bpoint, const void*>> hits;
            tree.query(boost::geometry::index::within(outline), std::back_inserter(hits));
            for (auto& h : hits) pruned.insert(h.second);
            CHECK(count == got.size(), "twice", "a patch was found twice");
            if (got == want) { vt::obs("exact_searches"); continue; }
            if (got == open || got == pruned) { CHECK(false, "open_outline", "search found " << got.size() << " patches, " << want.size() << " are inside of the area: the search area is missing a side and has latitude and longitude exchanged"); continue; }
            for (auto& v : have[w]) {
                double a = reach(*q, v->position);
                CHECK((a < 1) == (got.count(v.get()) > 0), a < 1 ? "missed" : "spurious", "patch at " << v->position.latitude() << "," << v->position.longitude() << " at " << a << " of the outline " << (a < 1 ? "not found" : "found"));
            }
            CHECK(false, "found_set", "open=" << open.size() << " lon " << o.lon << " lat " << o.lat << " stored " << have[w].size() << " found " << count << " patches, want " << want.size());
        }
        vt::obs("inside", in); vt::obs("outside", out);
        if (!in) C.trivial();
    });
    vt::section("production", 110, [&](Case& C, Rng& R) {
        ref::Ocean1D o;
        o.depth = R.logu(150, 4500);
        o.speed.form = R.in(0, 2);
        o.speed.c0 = R.uni(1470, 1530);
        if (o.speed.form == 0) o.speed.g = R.chance(0.4) ? 0 : R.uni(-0.03, 0.03);
        if (o.speed.form == 1) o.speed.g = R.uni(-0.03, 0.03);
        if (o.speed.form == 2) { o.speed.axis = R.uni(300, 1300); o.speed.scale = R.uni(900, 1300); }
        double alt = -R.uni(0.03, 0.97) * o.depth, alpha = R.chance(0.3) ? 0 : R.logu(1e-9, 1e-6), sloss = R.uni(0, 3), bloss = R.uni(0, 8);
        std::vector<volume_model::csptr> vols;
        int nv = R.in(0, 2);
        for (int k = 0; k < nv; ++k) {
            double z = R.uni(0.05, 0.95) * o.depth;
            if (std::fabs(z + alt) < 3) continue;
            o.layers.push_back(z);
            vols.push_back(volume_model::csptr(new volume_flat(z, 20.0, -90.0)));
        }
        ref::Place src{R.chance(0.2) ? R.uni(-84, 84) : R.uni(-60, 60), R.chance(0.2) ? 179.99 : R.uni(-180, 180)};
        double dt = R.pick({0.05, 0.1, 0.2, 0.25});
        if (o.speed.form == 2) dt = 0.05;
        while (dt * 1500 > o.depth / 2) dt /= 2;
        auto steepest = [&](double z) { double m = 0, d; for (double x : {z - 1500 * dt, z, z + 1500 * dt}) o.speed.c(std::max(x, -1500 * dt), &d), m = std::max(m, std::fabs(d)); return m; };
        long steps = R.in(40, 90);
        double tmax = steps * dt;
        seq_vector::csptr f(R.chance(0.5) ? (seq_vector*)new seq_linear(1000.0, 500.0, 1) : new seq_log(100.0, 3.0, 4));
        std::vector<double> de, az;
        int kind = R.in(0, 2), nde = R.in(3, 14), naz = R.in(3, 6);
        if (kind == 0) { double lo = R.uni(-89, 20), in = R.uni(0.2, (89 - lo) / nde); for (int k = 0; k < nde; ++k) de.push_back(lo + in * k); }
        else { double x = R.uni(-89, -20); for (int k = 0; k < nde && x < 89.5; ++k) de.push_back(x), x += R.uni(0.3, 25); }
        bool full = R.chance(0.35), even = R.chance(0.5);
        double a0 = R.uni(0, 360), sweep = full ? 360 : R.uni(5, 200);
        std::vector<double> cuts{0, sweep};
        for (int k = 0; k < naz - 2; ++k) cuts.push_back(even ? sweep * (k + 1) / (naz - 1) : R.uni(0.02, 0.98) * sweep);
        std::sort(cuts.begin(), cuts.end());
        for (double x : cuts) if (az.empty() || x + a0 - az.back() > 0.1) az.push_back(a0 + x);
        if (full) { a0 = R.pick({0.0, 90.0, -180.0}); double s = a0 - az[0]; for (auto& x : az) x += s; az.back() = a0 + 360; }
        if (de.size() < 3 || az.size() < 3) { C.trivial(); return; }
        seq_vector::csptr fde, faz;
        if (kind == 0) fde.reset(new seq_linear(de[0], de[1] - de[0], (size_t)de.size())); else fde.reset(new seq_data(de));
        if (even) faz.reset(new seq_linear(az[0], (az.back() - az[0]) / (az.size() - 1), (size_t)az.size())); else faz.reset(new seq_data(az));
        for (size_t k = 0; k < de.size(); ++k) de[k] = (*fde)(k);
        for (size_t k = 0; k < az.size(); ++k) az[k] = (*faz)(k);
        full = full && std::fmod(az[0] + 720, 360) == std::fmod(az.back() + 720, 360);
        C.in("profile", o.speed.text()).in("depth", o.depth).in("source", -alt).in("lat", src.lat).in("lon", src.lon).in("dt", dt).in("steps", steps).inv("layers", o.layers).inv("de", de).inv("az", az);
        int maxs = R.chance(0.4) ? R.in(0, 3) : 999, maxb = R.chance(0.4) ? R.in(0, 3) : 999;
        double floor_dB = R.chance(0.4) ? R.uni(5, 60) : 300;
        C.in("max_surface", maxs).in("max_bottom", maxb).in("floor", floor_dB);
        attenuation_model::csptr att(new attenuation_constant(alpha));
        ocean_model::csptr ocean(new ocean_model(
            boundary_model::csptr(new boundary_flat(0.0, reflect_loss_model::csptr(new reflect_loss_constant(sloss)))),
            boundary_model::csptr(new boundary_flat(o.depth, reflect_loss_model::csptr(new reflect_loss_constant(bloss)))), o.speed.model(att), &vols));
        wposition1 pos(src.lat, src.lon, alt);
        struct listener : eigenverb_listener {
            std::map<std::pair<size_t, size_t>, std::vector<std::pair<eigenverb_model::csptr, size_t>>> got;
            long n = 0;
            void add_eigenverb(eigenverb_model::csptr v, size_t i) override { got[{v->de_index, v->az_index}].push_back({v, i}); ++n; }
        } L;
        wave_queue wave(ocean, f, pos, fde, faz, dt);
        wave.add_eigenverb_listener(&L);
        wave.max_surface(maxs); wave.max_bottom(maxb);
        wave.eigenverb_threshold(floor_dB);
        for (long k = 0; k < steps; ++k) wave.step();
        wave.remove_eigenverb_listener(&L);
        vt::obs("patches", L.n);
        double power_floor = std::pow(10, -0.1 * floor_dB);
        long compared = 0, hidden = 0;
        for (size_t d = 0; d < de.size(); ++d) {
            ref::Ray ray = ref::trace(o, -alt, de[d] * D, tmax, dt, 10, 3, 0.008);
            double lo = d == 0 ? de[1] - de[0] : de[d] - de[d - 1], hi = d + 1 == de.size() ? de[d] - de[d - 1] : de[d + 1] - de[d];
            double dlo = (de[d] - lo / 2) * D, dhi = (de[d] + hi / 2) * D;
            double end = std::min(ray.certain, tmax) - 2.5 * dt;
            // a bounce is located to second order in the time step, the error stays with the ray
            std::vector<double> drift(ray.events.size() + 1);
            for (size_t k = 0; k < ray.events.size(); ++k) {
                auto& e = ray.events[k];
                double dc = steepest(e.at.z), c = o.speed.c(e.at.z), acc = c * (c / ref::Re() + std::fabs(dc));
                drift[k + 1] = drift[k] + (e.kind == ref::BOTTOM || e.kind == ref::SURFACE ? 1.5 * acc * dt * dt / std::sin(e.grazing) : 0);
            }
            for (size_t a = 0; a < az.size(); ++a) {
                auto& got = L.got[{d, a}];
                if ((full && a + 1 == az.size()) || std::fabs(de[d]) > 89.9) {
                    CHECK(got.empty(), "duplicate_azimuth", "ray " << d << "," << a << " is the same as that of the first azimuth but has " << got.size() << " patches");
                    continue;
                }
                double left = a == 0 ? (full ? az.back() - az[az.size() - 2] : az[1] - az[0]) : az[a] - az[a - 1], right = a + 1 == az.size() ? az[a] - az[a - 1] : az[a + 1] - az[a];
                double area = (std::sin(dhi) - std::sin(dlo)) * (left + right) / 2 * D, dde = dhi - dlo;
                std::vector<bool> used(got.size());
                bool vertex_doubt = false;
                for (size_t n = 0; n < ray.events.size(); ++n) {
                    auto& e = ray.events[n];
                    if (e.at.t < 1.01 * dt) continue;
                    if (e.at.t > end) break;
                    if (e.kind == ref::UPPER || e.kind == ref::LOWER) continue;
                    if (std::fabs(e.at.t - dt) < 0.1 * dt) continue;
                    size_t type = e.kind == ref::BOTTOM ? 0 : e.kind == ref::SURFACE ? 1 : e.at.e < 0 ? eigenverb_model::VOLUME_LOWER + 2 * e.layer : eigenverb_model::VOLUME_UPPER + 2 * e.layer;
                    double dc = steepest(e.at.z), c = o.speed.c(e.at.z), acc = c * (std::cos(e.at.e) * std::cos(e.at.e) * c / ref::Re() + std::fabs(dc)), v = c * std::sin(e.grazing);
                    double tolt = 2 * dt * dt * acc / v + 1e-6 + 0.02 * dt * dt + drift[n] / v, tolz = 2 * acc * dt * dt + 1e-3;
                    // all patches of this interface near this time
                    int hits = 0; size_t which = 0;
                    for (size_t k = 0; k < got.size(); ++k) if (got[k].second == type && std::fabs(got[k].first->travel_time - e.at.t) < tolt) ++hits, which = k;
                    bool inside = e.surface <= maxs && e.bottom <= maxb;
                    std::vector<double> power;
                    double best = 0;
                    for (size_t k = 0; k < f->size(); ++k) power.push_back(std::pow(10, -0.1 * (e.surface * sloss + e.bottom * bloss + alpha * (*f)(k) * e.at.s)) * area / std::sin(e.grazing)), best = std::max(best, power.back());
                    double slack = alpha * (*f)(f->size() - 1) * c * dt * 1.1 * 0.1 * std::log(10) + 5e-3 + 0.02 * dt * dt;
                    if (std::fabs(std::log(best / power_floor)) < slack + 0.01) { for (size_t k = 0; k < got.size(); ++k) if (std::fabs(got[k].first->travel_time - e.at.t) < tolt) used[k] = true; continue; }
                    if (best < power_floor) inside = false;
                    if (!inside) { ++hidden; CHECK(hits == 0, "beyond_limits", "patch of ray " << de[d] << "," << az[a] << " at interface " << type << " time " << e.at.t << " is beyond the limits: surface " << e.surface << " bottom " << e.bottom << " power " << best); continue; }
                    CHECK(hits != 0, "missing", "ray " << de[d] << "," << az[a] << " (" << d << "," << a << ") meets interface " << type << " at time " << e.at.t << " grazing " << e.grazing / D << " without a patch");
                    CHECK(hits <= 1, "twice", "ray " << de[d] << "," << az[a] << " makes " << hits << " patches of interface " << type << " at time " << e.at.t);
                    if (hits != 1) continue;
                    CHECK(!used[which], "twice", "patch used twice");
                    used[which] = true;
                    ++compared;
                    const eigenverb_model& p = *got[which].first;
                    std::string id = MSG("ray " << de[d] << "," << az[a] << " interface " << type << " time " << e.at.t << ": ");
                    vt::maxv("time_error_us", 1e6 * std::fabs(p.travel_time - e.at.t));
                    double heading; ref::Place at = ref::travel(src, e.at.th, az[a] * D, &heading);
                    wposition1 want(at.lat, at.lon, -e.at.z);
                    double off = ref::angle_between({p.position.latitude(), p.position.longitude()}, at) * ref::Re();
                    CHECK(off < c * tolt + 0.02 + 2e-6 * e.at.s, "place", id << "patch is " << off << " m away from where the ray is");
                    NEAR(p.position.altitude(), -e.at.z, tolz, "altitude", id << "altitude of patch");
                    double tolg = 1.5 * dt * (c / ref::Re() + std::fabs(dc)) * (type == eigenverb_model::BOTTOM ? 1 / std::max(0.05, std::cos(e.at.e)) : 1) + 1e-4 + drift[n] * std::fabs(dc) / c;
                    NEAR(p.grazing, e.grazing, tolg, "grazing", id << "grazing angle");
                    NEAR(std::remainder(p.direction - heading, 2 * M_PI), 0, 1e-4 + 0.02 * std::fabs(std::tan(at.lat * D)) * c * dt / ref::Re() + 1e-9 / std::max(1e-6, std::cos(e.at.e)), "direction", id << "direction of patch");
                    NEAR(p.sound_speed, c, 0.01 * dt + 0.02 * std::fabs(dc) * c * dt + std::fabs(dc) * tolz + drift[n] * std::fabs(dc) + 1e-6, "sound_speed", id << "sound speed");
                    CHECK(p.surface == e.surface && p.bottom == e.bottom, "bounces", id << "bounces surface " << p.surface << " bottom " << p.bottom << " want " << e.surface << " " << e.bottom);
                    (void)vertex_doubt;
                    CHECK(p.de_index == d && p.az_index == a, "index", id << "index");
                    NEAR(p.source_de, de[d] * D, 1e-9, "launch", id << "launch elevation");
                    NEAR(p.source_az, az[a] * D, 1e-9, "launch", id << "launch azimuth");
                    double rel = 2e-3 + 0.03 * dt * dt + 1.5 * tolt / e.at.t + 1.1 * tolg / std::tan(e.grazing);
                    NEARR(p.length, 0.5 * e.at.s * dde / std::sin(e.grazing), rel, 0, "length", id << "length");
                    NEARR(p.width, 0.5 * e.at.s * area / dde, 2e-3 + 1.5 * tolt / e.at.t, 0, "width", id << "width");
                    CHECK(p.frequencies == f && p.power.size() == f->size(), "frequencies", id << "frequencies");
                    for (size_t k = 0; k < f->size(); ++k)
                        NEARR(p.power[k], power[k], rel + alpha * (*f)(k) * c * dt * 1.1 * 0.1 * std::log(10), 0, "power", id << "power at " << (*f)(k) << " Hz");
                }
                for (size_t k = 0; k < got.size(); ++k) {
                    CHECK(got[k].second < 2 + 2 * o.layers.size(), "interface", "interface " << got[k].second);
                    if (!used[k] && got[k].first->travel_time > 1.5 * dt && got[k].first->travel_time < end - dt) CHECK(false, "spurious", "ray " << de[d] << "," << az[a] << " (" << d << "," << a << ") has a patch of interface " << got[k].second << " at time " << got[k].first->travel_time << " grazing " << got[k].first->grazing / D << " that it does not meet");
                }
            }
        }
        vt::obs("patches_compared", compared);
        vt::obs("beyond_limits", hidden);
        if (!compared) C.trivial();
    });
    vt::section("concurrent", 40, [&](Case& C, Rng& R) {
        seq_vector::csptr f(new seq_linear(1000.0, 1.0, 1));
        size_t vols = R.in(0, 1);
        eigenverb_collection col(vols);
        place o{R.uni(-60, 60), R.uni(-170, 170)};
        int nt = R.in(2, 3), each = R.in(20, 80);
        std::vector<std::vector<std::pair<vp, size_t>>> mine(nt);
        // every other patch lies well inside of the area that is searched, in the middle of it, the rest far away
        for (int t = 0; t < nt; ++t) for (int k = 0; k < each; ++k) {
            place p = k % 2 ? dest(o, R.uni(10000, 30000), R.uni(0, 6)) : dest(o, R.uni(0, 1), R.uni(0, 6));
            mine[t].push_back({vp(patch(R, f, p, 100, 100, 0)), (size_t)R.in(0, col.num_interfaces() - 1)});
        }
        vp q(patch(R, f, o, 1000, 1000, R.uni(0, 6)));
        C.in("threads", nt).in("each", each);
        std::atomic<int> go{0};
        std::atomic<bool> stop{false};
        std::vector<std::thread> ts;
        std::vector<std::string> bad(2);
        for (int t = 0; t < nt; ++t) ts.emplace_back([&, t] { ++go; while (go < nt + 2) std::this_thread::yield(); for (auto& m : mine[t]) { col.add_eigenverb(m.first, m.second); if (t == 0) std::this_thread::yield(); } });
        std::vector<long> searches(2);
        for (int r = 0; r < 2; ++r) ts.emplace_back([&, r] {
            ++go; while (go < nt + 2) std::this_thread::yield();
            std::vector<size_t> last(col.num_interfaces());
            while (!stop) for (size_t w = 0; w < last.size(); ++w) {
                size_t before = col.size(w);
                auto L = col.find_eigenverbs(q, w);
                size_t list = col.eigenverbs(w).size(), after = col.size(w);
                ++searches[r];
                if (before < last[w] || list < before || after < list) bad[r] = "number of patches went down";
                if (L.size() > after) bad[r] = "more patches found than stored";
                for (auto& v : L) if (!v || v->length != 100) bad[r] = "search returned a patch that is not complete";
                last[w] = after;
            }
        });
        for (int t = 0; t < nt; ++t) ts[t].join();
        stop = true;
        for (int r = 0; r < 2; ++r) ts[nt + r].join();
        for (auto& b : bad) CHECK(b.empty(), "concurrent", b);
        for (size_t w = 0; w < col.num_interfaces(); ++w) {
            std::set<const void*> in, all;
            for (auto& m : mine) for (size_t k = 0; k < m.size(); ++k) if (m[k].second == w) { all.insert(m[k].first.get()); if (k % 2 == 0) in.insert(m[k].first.get()); }
            std::set<const void*> got, have;
            for (auto& v : col.find_eigenverbs(q, w)) got.insert(v.get());
            for (auto& v : col.eigenverbs(w)) have.insert(v.get());
            CHECK(have == all, "concurrent_stored", "interface " << w << " holds " << have.size() << " patches, want " << all.size());
            CHECK(std::includes(all.begin(), all.end(), got.begin(), got.end()), "concurrent_found", "search found patches of another interface");
            vt::obs("found_after", got.size());
        }
        vt::obs("searches", searches[0] + searches[1]);
    });
    return vt::finish();
}
