// Q01: refraction of wavefronts.
#include <usml/ocean/ocean.h>
#include <usml/types/types.h>
#include <usml/waveq3d/waveq3d.h>
#include <array>
#include "rays.h"
#include "vt.h"
using namespace usml::eigenrays;
using namespace usml::eigenverbs;
using namespace usml::ocean;
using namespace usml::types;
using namespace usml::waveq3d;
static const double D = M_PI / 180;
typedef std::array<long double, 3> V3;
static V3 operator+(V3 a, V3 b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
static V3 operator*(long double s, V3 a) { return {s * a[0], s * a[1], s * a[2]}; }
static long double dot(V3 a, V3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static void basis(long double th, long double ph, V3& r, V3& t, V3& p) {
    r = {sinl(th) * cosl(ph), sinl(th) * sinl(ph), cosl(th)};
    t = {cosl(th) * cosl(ph), cosl(th) * sinl(ph), -sinl(th)};
    p = {-sinl(ph), cosl(ph), 0};
}
static V3 place(const wave_front* w, size_t d, size_t a) {
    V3 r, t, p;
    basis(w->position.theta(d, a), w->position.phi(d, a), r, t, p);
    return (long double)w->position.rho(d, a) * r;
}
static V3 slowness(const wave_front* w, size_t d, size_t a) {
    V3 r, t, p;
    basis(w->position.theta(d, a), w->position.phi(d, a), r, t, p);
    return (long double)w->ndirection.rho(d, a) * r + (long double)w->ndirection.theta(d, a) * t + (long double)w->ndirection.phi(d, a) * p;
}
// sound speed that changes linearly in earth centred cartesian coordinates
class tilted : public profile_model {
   public:
    double c0; V3 g, origin;
    tilted(double c, V3 slope, V3 at) : profile_model(attenuation_model::csptr(new attenuation_constant(0))), c0(c), g(slope), origin(at) {}
    long double c(V3 x) const { return c0 + dot(g, x + (-1.0L) * origin); }
    void sound_speed(const wposition& L, matrix<double>* speed, wvector* grad = nullptr) const override {
        for (size_t i = 0; i < L.size1(); ++i) for (size_t j = 0; j < L.size2(); ++j) {
            V3 r, t, p;
            long double rho = L.rho(i, j), th = L.theta(i, j);
            basis(th, L.phi(i, j), r, t, p);
            (*speed)(i, j) = (double)c(rho * r);
            if (grad) { grad->rho(i, j, (double)dot(g, r)); grad->theta(i, j, (double)(rho * dot(g, t))); grad->phi(i, j, (double)(rho * sinl(th) * dot(g, p))); }
        }
    }
};
static ref::Speed any_speed(Rng& R) {
    ref::Speed s;
    s.form = R.in(0, 2);
    s.c0 = R.uni(1440, 1560);
    if (s.form == 0) s.g = R.chance(0.35) ? 0 : R.uni(-0.08, 0.08);
    if (s.form == 1) s.g = R.uni(-0.05, 0.05);
    if (s.form == 2) s.axis = R.uni(500, 1400), s.scale = R.uni(900, 1500);
    return s;
}
static ref::Place any_place(Rng& R) { return {R.chance(0.2) ? R.uni(-84, 84) : R.chance(0.1) ? R.uni(-0.01, 0.01) : R.uni(-65, 65), R.chance(0.2) ? (R.chance(0.5) ? 180 : -180) + R.uni(-0.05, 0.05) : R.chance(0.1) ? R.uni(180, 360) : R.uni(-180, 180)}; }
static seq_vector::csptr any_de(Rng& R, bool many = true) {
    int n = many ? R.in(1, 12) : 1;
    if (n < 2 || R.chance(0.5)) return seq_vector::csptr(new seq_linear(R.uni(-89, 40), R.uni(0.3, 49.0 / n), (size_t)n));
    std::vector<double> v; double x = R.uni(-89, -20);
    for (int k = 0; k < n && x < 89; ++k) v.push_back(x), x += R.uni(0.2, 20);
    if (v.size() < 2) v = {x - 100, x - 90};
    return seq_vector::csptr(new seq_data(v));
}
static seq_vector::csptr any_az(Rng& R, bool many = true) { return seq_vector::csptr(new seq_linear(R.chance(0.3) ? R.pick({0.0, 90.0, 180.0, 270.0, -90.0}) : R.uni(-180, 360), R.uni(1, 60), (size_t)(many ? R.in(1, 5) : 1))); }
static ocean_model::csptr deep(profile_model::csptr p, double depth, double sl = 0, double bl = 0) {
    return ocean_model::csptr(new ocean_model(boundary_model::csptr(new boundary_flat(0.0, reflect_loss_model::csptr(new reflect_loss_constant(sl)))), boundary_model::csptr(new boundary_flat(depth, reflect_loss_model::csptr(new reflect_loss_constant(bl)))), p));
}
static double roughness(const ref::Speed& s, double depth, double& G) {
    G = 0;
    for (int k = 0; k <= 20; ++k) { double d; s.c(depth * k / 20, &d); G = std::max(G, std::fabs(d)); }
    G += 1600 / ref::Re();
    return G + (s.form == 2 ? 2 * 1500 / s.scale : 3 * G);
}
struct ErrorNow { double place = 0, unit = 0; };
// largest distance to the reference over all rays, up to the first bounce of each
static ErrorNow compare(Case& C, const ref::Ocean1D& o, ref::Place src, double alt, seq_vector::csptr de, seq_vector::csptr az, double dt, long steps, double tol, double tolu, bool judge, long& seen) {
    wave_queue w(deep(o.speed.model(attenuation_model::csptr(new attenuation_constant(0))), o.depth), seq_vector::csptr(new seq_linear(1000.0, 1.0, 1)), wposition1(src.lat, src.lon, alt), de, az, dt);
    ErrorNow E; double G2; roughness(o.speed, o.depth, G2);
    std::vector<ref::Ray> rays;
    std::vector<double> last;
    for (size_t d = 0; d < de->size(); ++d) {
        rays.push_back(ref::trace(o, -alt, (*de)(d) * D, steps * dt, dt, 20));
        double t = 1e30;
        for (auto& e : rays[d].events) if (e.kind == ref::SURFACE || e.kind == ref::BOTTOM) { t = e.at.t; break; }
        last.push_back(std::min(t, rays[d].certain) - dt * 1.01);
    }
    double c0 = o.speed.c(-alt);
    for (long k = 0; k <= steps; ++k) {
        NEAR(w.time(), k * dt, 1e-9 * (1 + k * dt), "time", "time of step");
        for (size_t d = 0; d < de->size(); ++d) for (size_t a = 0; a < az->size(); ++a) {
            if (k * dt > last[d]) continue;
            ++seen;
            const wave_front* f = w.curr();
            const ref::State& s = rays[d].path[k];
            double head; ref::Place p = ref::travel(src, s.th, (*az)(a) * D, &head);
            V3 r, t, q; basis((90 - p.lat) * (long double)D, p.lon * (long double)D, r, t, q);
            V3 want = (long double)(ref::Re() - s.z) * r, got = place(f, d, a), diff = got + (-1.0L) * want;
            V3 u = slowness(f, d, a), dir = std::sin(s.e) * r + std::cos(s.e) * (-std::cos(head) * t + std::sin(head) * q);
            double c = o.speed.c(-f->position.altitude(d, a)), err = (double)sqrtl(dot(diff, diff)), unit = std::fabs((double)sqrtl(dot(u, u)) * c - 1);
            E.place = std::max(E.place, err); E.unit = std::max(E.unit, unit);
            if (!judge) continue;
            std::string id = MSG("ray " << (*de)(d) << "," << (*az)(a) << " time " << k * dt << ": ");
            CHECK(err <= tol, "path", id << err << " m away from the refracted path, allowed " << tol);
            CHECK(unit <= tolu, "unit", id << "length of direction differs from slowness by " << unit << " allowed " << tolu);
            NEARR(f->sound_speed(d, a), c, 1e-9, 0, "speed", id << "sound speed at the ray");
            V3 du = (long double)c * u + (-1.0L) * dir;
            CHECK((double)sqrtl(dot(du, du)) <= 4 * tolu + 2e-9 * s.s / 1000 + tol * 1e-4, "direction", id << "direction differs by " << (double)sqrtl(dot(du, du)));
            double toll = tol + s.s * (dt * 1600 / ref::Re() * (1 + std::fabs(std::tan(p.lat * D))) + 0.1 * std::pow(G2 * dt, 2));
            NEAR(f->path_length(d, a), s.s, toll, "length", id << "path length");
            vt::maxv("length_error_over_allowed", std::fabs(f->path_length(d, a) - s.s) / toll);
            // Snell's law on a sphere, vertical plane
            double horizontal = std::hypot(f->ndirection.theta(d, a), f->ndirection.phi(d, a)) * f->position.rho(d, a), start = std::cos((*de)(d) * D) / c0 * (ref::Re() + alt);
            CHECK(std::fabs(horizontal - start) <= 1e-9 * (1 + k) * start + 1e-3 * tolu * start + 1e-9 * (ref::Re() / 1500), "snell", id << "horizontal slowness changed by " << horizontal / start - 1);
            CHECK(f->surface(d, a) == 0 && f->bottom(d, a) == 0, "bounced", id << "bounced without reaching a boundary");
            vt::maxv("path_error_over_allowed", err / tol);
            vt::maxv("unit_error_over_allowed", unit / tolu);
        }
        if (k < steps) w.step();
    }
    return E;
}
int main(int argc, char** argv) {
    vt::init(argc, argv);
    vt::section("refraction", 150, [&](Case& C, Rng& R) {
        ref::Ocean1D o; o.speed = any_speed(R); o.depth = R.logu(500, 9000);
        ref::Place src = any_place(R);
        double alt = -R.uni(0.05, 0.95) * o.depth;
        auto de = any_de(R), az = any_az(R);
        double dt = o.speed.form == 2 ? R.logu(0.01, 0.05) : R.logu(0.01, 0.4), G, K = roughness(o.speed, o.depth, G);
        long steps = R.in(10, 120); double T = dt * steps;
        C.in("profile", o.speed.text()).in("depth", o.depth).in("source", -alt).in("lat", src.lat).in("lon", src.lon).in("dt", dt).in("steps", steps).inv("de", std::vector<double>(de->begin(), de->end())).inv("az", std::vector<double>(az->begin(), az->end()));
        double tol = 2 * std::pow(dt, 3) * T * 1600 * G * std::pow(K, 2) + 2e-6 * (1 + T), tolu = 2 * std::pow(dt, 3) * T * G * K * K + 3e-3 * std::pow(dt, 3) * std::pow(G, 2) * K + 2e-10 * (1 + steps);
        long seen = 0;
        compare(C, o, src, alt, de, az, dt, steps, tol, tolu, true, seen);
        vt::obs("ray_steps", seen);
        if (seen < 5) C.trivial();
    });
    vt::section("convergence", 40, [&](Case& C, Rng& R) {
        ref::Ocean1D o; o.speed = any_speed(R); o.depth = R.uni(4000, 9000);
        ref::Place src = any_place(R);
        double alt = -R.uni(0.3, 0.7) * o.depth;
        seq_vector::csptr de(new seq_linear(R.uni(-30, -10), R.uni(2, 4), (size_t)8)), az = any_az(R);
        double G, K = roughness(o.speed, o.depth, G), dt = std::min(R.uni(0.2, 0.4), 0.12 / K), T = 0;
        long steps = R.in(24, 60);
        T = dt * steps;
        C.in("profile", o.speed.text()).in("depth", o.depth).in("source", -alt).in("lat", src.lat).in("lon", src.lon).in("dt", dt).in("steps", steps).in("de", (*de)(0));
        double scale = std::pow(dt, 3) * T * 1600 * G * K * K;
        long seen = 0;
        ErrorNow a = compare(C, o, src, alt, de, az, dt, steps, 1, 1, false, seen), b = compare(C, o, src, alt, de, az, dt / 2, 2 * steps, 1, 1, false, seen);
        vt::obs("ray_steps", seen);
        double noise = 2e-7 * (1 + T);
        if (a.place < 20 * noise) { C.trivial(); return; }
        CHECK(b.place <= a.place / 4 + noise || b.place < 0.005 * scale, "order", "error " << a.place << " m becomes " << b.place << " m when the time step is halved, third order promises one eighth");
        vt::maxv("error_ratio_when_step_is_halved", b.place / a.place);
    });
    vt::section("range_dependent", 80, [&](Case& C, Rng& R) {
        ref::Place src = any_place(R);
        double alt = -R.uni(1000, 3000);
        V3 r, t, p; basis((90 - src.lat) * (long double)D, src.lon * (long double)D, r, t, p);
        double gz = R.uni(-0.03, 0.03), gn = R.chance(0.2) ? 0 : R.uni(-0.02, 0.02), ge = R.chance(0.2) ? 0 : R.uni(-0.02, 0.02), c0 = R.uni(1450, 1550), dt = R.logu(0.01, 0.2);
        long steps = R.in(10, 80);
        V3 x0 = (long double)(ref::Re() + alt) * r, g = (-gz) * r + gn * (-1.0L * t) + ge * p;
        std::shared_ptr<tilted> prof(new tilted(c0, g, x0));
        auto de = any_de(R), az = any_az(R);
        C.in("lat", src.lat).in("lon", src.lon).in("alt", alt).in("gz", gz).in("gn", gn).in("ge", ge).in("c0", c0).in("dt", dt).in("steps", steps).inv("de", std::vector<double>(de->begin(), de->end())).inv("az", std::vector<double>(az->begin(), az->end()));
        wave_queue w(deep(prof, 10000), seq_vector::csptr(new seq_linear(1000.0, 1.0, 1)), wposition1(src.lat, src.lon, alt), de, az, dt);
        struct S { V3 x, u; long double s; };
        std::vector<S> ray;
        for (size_t d = 0; d < de->size(); ++d) for (size_t a = 0; a < az->size(); ++a) {
            double e = (*de)(d) * D, h = (*az)(a) * D;
            ray.push_back({x0, (1 / c0) * (std::sin(e) * r + std::cos(e) * (-std::cos(h) * t + std::sin(h) * p)), 0});
        }
        auto f = [&](const S& s) { long double c = prof->c(s.x); return S{(c * c) * s.u, (-1 / c) * g, c}; };
        auto mad = [&](const S& a, long double h, const S& b) { return S{a.x + h * b.x, a.u + h * b.u, a.s + h * b.s}; };
        double G = std::fabs(gz) + std::fabs(gn) + std::fabs(ge) + 1600 / ref::Re() * (1 + std::fabs(std::tan(src.lat * D)));
        long seen = 0;
        for (long k = 0; k <= steps; ++k) {
            double T = k * dt, tol = 6 * std::pow(dt, 3) * T * 1600 * std::pow(G, 3) + 2e-6 * (1 + T), tolu = 0.2 * std::pow(dt, 3) * (T + dt) * std::pow(G, 3) + 1e-9 * (1 + T);
            for (size_t d = 0; d < de->size(); ++d) for (size_t a = 0; a < az->size(); ++a) {
                S& s = ray[d * az->size() + a];
                double z = (double)(ref::Re() - sqrtl(dot(s.x, s.x)));
                if (z < 500 || z > 9500) { s.s = -1e30; }
                if (s.s < 0) continue;
                ++seen;
                V3 dx = place(w.curr(), d, a) + (-1.0L) * s.x, du = slowness(w.curr(), d, a) + (-1.0L) * s.u;
                double e1 = (double)sqrtl(dot(dx, dx)), e2 = (double)(sqrtl(dot(du, du)) * prof->c(s.x));
                std::string id = MSG("ray " << (*de)(d) << "," << (*az)(a) << " time " << T << ": ");
                CHECK(e1 <= tol, "range_dependent_path", id << e1 << " m away from the refracted path, allowed " << tol);
                CHECK(e2 <= tolu, "range_dependent_direction", id << "direction differs by " << e2 << ", allowed " << tolu);
                NEAR(w.curr()->path_length(d, a), (double)s.s, tol + (double)s.s * (dt * 1600 / ref::Re() * (1 + std::fabs(std::tan(src.lat * D)) * 1.5) + std::pow(G * dt, 2)), "length", id << "path length");
                vt::maxv("range_dependent_error_over_allowed", e1 / tol);
                vt::maxv("range_dependent_direction_over_allowed", e2 / tolu);
                for (int j = 0; j < 10; ++j) {
                    long double h = dt / 10;
                    S k1 = f(s), k2 = f(mad(s, h / 2, k1)), k3 = f(mad(s, h / 2, k2)), k4 = f(mad(s, h, k3));
                    s = mad(mad(mad(mad(s, h / 6, k1), h / 3, k2), h / 3, k3), h / 6, k4);
                }
            }
            w.step();
        }
        vt::obs("ray_steps_range_dependent", seen);
        if (seen < 5) C.trivial();
    });
    vt::section("independent", 60, [&](Case& C, Rng& R) {
        ref::Ocean1D o; o.speed = any_speed(R); o.depth = R.logu(200, 4000);
        ref::Place src = any_place(R);
        double alt = -R.uni(0.1, 0.9) * o.depth, dt = std::min(R.pick({0.02, 0.05, 0.1}), o.depth / 4000);
        long steps = R.in(20, 60);
        seq_vector::csptr de(new seq_linear(R.uni(-60, -20), R.uni(3, 12), (size_t)R.in(3, 8))), az(new seq_linear(R.uni(0, 300), R.uni(5, 60), (size_t)R.in(3, 5)));
        seq_vector::csptr f(R.chance(0.5) ? (seq_vector*)new seq_linear(1000.0, 500.0, 1) : new seq_log(100.0, 3.0, 3));
        C.in("profile", o.speed.text()).in("depth", o.depth).in("source", -alt).in("lat", src.lat).in("lon", src.lon).in("dt", dt).in("steps", steps);
        auto oc = deep(o.speed.model(attenuation_model::csptr(new attenuation_constant(1e-8))), o.depth, 1, 2);
        wposition1 pos(src.lat, src.lon, alt);
        wposition targets(2, 1);
        for (int k = 0; k < 2; ++k) { ref::Place p = ref::travel(src, R.uni(0.2, 1) * steps * dt * 1500 / ref::Re(), R.uni(0, 6)); targets.latitude(k, 0, p.lat); targets.longitude(k, 0, p.lon); targets.altitude(k, 0, -R.uni(0.1, 0.9) * o.depth); }
        struct quiet : eigenray_listener, eigenverb_listener, reflection_listener {
            long n = 0;
            void add_eigenray(size_t, size_t, eigenray_model::csptr, size_t) override { ++n; }
            void add_eigenverb(eigenverb_model::csptr, size_t) override { ++n; }
            void check_eigenrays(double, size_t) override {}
            void reflect(double, size_t, size_t, double, double, double, const wposition1&, const wvector1&, size_t) override { ++n; }
        } L;
        wave_queue plain(oc, f, pos, de, az, dt), again(oc, f, pos, de, az, dt), loud(oc, f, pos, de, az, dt, &targets, R.chance(0.5) ? wave_queue::HYBRID_GAUSSIAN : wave_queue::CLASSIC_RAY);
        loud.add_eigenray_listener(&L); loud.add_eigenverb_listener(&L); loud.add_reflection_listener(&L);
        size_t d0 = R.in(0, de->size() - 1), a0 = R.in(0, az->size() - 1);
        wave_queue single(oc, f, pos, seq_vector::csptr(new seq_linear((*de)(d0), 1.0, (size_t)1)), seq_vector::csptr(new seq_linear((*az)(a0), 1.0, (size_t)1)), dt);
        auto differ = [&](const wave_front* x, size_t xd, size_t xa, const wave_front* y, size_t yd, size_t ya, bool fold) {
            std::ostringstream o;
            o.precision(17);
            auto t = [&](const char* n, double p, double q) { if (!vt::nearr(p, q, 1e-12, 1e-12)) o << n << " " << p << " " << q << "; "; };
            t("rho", x->position.rho(xd, xa), y->position.rho(yd, ya)); t("theta", x->position.theta(xd, xa), y->position.theta(yd, ya)); t("phi", x->position.phi(xd, xa), y->position.phi(yd, ya));
            t("nrho", 1e3 * x->ndirection.rho(xd, xa), 1e3 * y->ndirection.rho(yd, ya)); t("ntheta", 1e3 * x->ndirection.theta(xd, xa), 1e3 * y->ndirection.theta(yd, ya)); t("nphi", 1e3 * x->ndirection.phi(xd, xa), 1e3 * y->ndirection.phi(yd, ya));
            t("c", x->sound_speed(xd, xa), y->sound_speed(yd, ya)); t("length", x->path_length(xd, xa), y->path_length(yd, ya));
            t("surface", x->surface(xd, xa), y->surface(yd, ya)); t("bottom", x->bottom(xd, xa), y->bottom(yd, ya)); t("upper", x->upper(xd, xa), y->upper(yd, ya)); t("lower", x->lower(xd, xa), y->lower(yd, ya));
            for (size_t k = 0; k < f->size(); ++k) { t("attenuation", x->attenuation(xd, xa)(k), y->attenuation(yd, ya)(k)); if (fold) t("phase", x->phase(xd, xa)(k), y->phase(yd, ya)(k)); }
            if (fold) t("caustic", x->caustic(xd, xa), y->caustic(yd, ya)), t("edge", x->on_edge(xd, xa), y->on_edge(yd, ya));
            return o.str();
        };
        for (long k = 0; k < steps; ++k) {
            plain.step(); again.step(); loud.step(); single.step();
            for (size_t d = 0; d < de->size(); ++d) for (size_t a = 0; a < az->size(); ++a) {
                std::string x = differ(plain.curr(), d, a, again.curr(), d, a, true), y = differ(plain.curr(), d, a, loud.curr(), d, a, true);
                CHECK(x.empty(), "repeat", "ray " << d << "," << a << " step " << k << " differs in a second run: " << x);
                CHECK(y.empty(), "observed", "ray " << d << "," << a << " step " << k << " differs when targets and listeners are present: " << y);
            }
            std::string x = differ(plain.curr(), d0, a0, single.curr(), 0, 0, false);
            CHECK(x.empty(), "alone", "ray " << d0 << "," << a0 << " step " << k << " differs when it is alone: " << x);
        }
        vt::obs("listener_calls", L.n);
        vt::obs("ray_steps_repeated", steps * de->size() * az->size());
    });
    return vt::finish();
}
