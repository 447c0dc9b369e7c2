// Q02: reflection of rays from the surface and the bottom.
#include <usml/ocean/ocean.h>
#include <usml/types/types.h>
#include <usml/waveq3d/waveq3d.h>
#include <array>
#include "rays.h"
#include "vt.h"
using namespace usml::eigenverbs;
using namespace usml::ocean;
using namespace usml::types;
using namespace usml::waveq3d;
static const double D = M_PI / 180;
typedef std::array<long double, 3> V3;
static V3 operator+(V3 a, V3 b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
static V3 operator-(V3 a, V3 b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static V3 operator*(long double s, V3 a) { return {s * a[0], s * a[1], s * a[2]}; }
static long double dot(V3 a, V3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static double len(V3 a) { return (double)sqrtl(dot(a, a)); }
static void basis(long double th, long double ph, V3& r, V3& t, V3& p) {
    r = {sinl(th) * cosl(ph), sinl(th) * sinl(ph), cosl(th)};
    t = {cosl(th) * cosl(ph), cosl(th) * sinl(ph), -sinl(th)};
    p = {-sinl(ph), cosl(ph), 0};
}
static V3 from(double rho, double th, double ph) { V3 r, t, p; basis(th, ph, r, t, p); return (long double)rho * r; }
static V3 vec(const wposition1& at, double a, double b, double c) { V3 r, t, p; basis(at.theta(), at.phi(), r, t, p); return (long double)a * r + (long double)b * t + (long double)c * p; }
static double phi0 = 0;  // longitudes are kept continuous with that of the source
static wposition1 to_pos(V3 x) {
    wposition1 w;
    w.rho(len(x)); w.theta((double)atan2l(hypotl(x[0], x[1]), x[2])); double ph = (double)atan2l(x[1], x[0]); w.phi(phi0 + std::remainder(ph - phi0, 2 * M_PI));
    return w;
}
// bottom with waves along latitude and longitude
class wavy : public boundary_model {
   public:
    double R0, A, k1, k2, p1, p2, th0, ph0;
    double h(double th, double ph, double* gt, double* gp) const {
        double dph = std::remainder(ph - ph0, 2 * M_PI), a = k1 * R0 * (th - th0) + p1, b = k2 * R0 * dph + p2;
        if (gt) *gt = -A * k1 * R0 * std::sin(a), *gp = -A * k2 * R0 * std::sin(b);
        return R0 + A * std::cos(a) + A * std::cos(b);
    }
    void height(const wposition& L, matrix<double>* rho, wvector* n = nullptr) const override {
        for (size_t i = 0; i < L.size1(); ++i) for (size_t j = 0; j < L.size2(); ++j) {
            double r; wvector1 v;
            height(wposition1(L, i, j), &r, n ? &v : nullptr);
            (*rho)(i, j) = r;
            if (n) { n->rho(i, j, v.rho()); n->theta(i, j, v.theta()); n->phi(i, j, v.phi()); }
        }
    }
    void height(const wposition1& L, double* rho, wvector1* n = nullptr) const override {
        double gt, gp;
        *rho = h(L.theta(), L.phi(), &gt, &gp);
        if (n) {
            double t = -gt / *rho, p = -gp / (*rho * std::sin(L.theta())), N = std::sqrt(1 + t * t + p * p);
            n->rho(1 / N); n->theta(t / N); n->phi(p / N);
        }
    }
};
// loss and phase that depend on everything, and remember how often they were asked
struct loss_model : reflect_loss_model {
    double a, b; mutable std::atomic<long> calls{0};
    loss_model(double x, double y) : a(x), b(y) {}
    double loss(double f, double g) const { return a * std::cos(g) + f * 1e-4; }
    double shift(double f, double g) const { return b * std::sin(g) + f * 1e-5; }
    void reflect_loss(const wposition1&, const seq_vector::csptr& f, double g, vector<double>* amp, vector<double>* ph = nullptr) const override {
        ++calls;
        for (size_t k = 0; k < f->size(); ++k) { (*amp)(k) = loss((*f)(k), g); if (ph) (*ph)(k) = shift((*f)(k), g); }
    }
};
struct bounce { double time, dt, grazing, speed; wposition1 pos; wvector1 dir; size_t type; };
struct recorder : reflection_listener {
    std::map<std::pair<size_t, size_t>, std::vector<bounce>> got;
    long n = 0;
    void reflect(double time, size_t de, size_t az, double dt, double g, double c, const wposition1& p, const wvector1& d, size_t type) override { got[{de, az}].push_back({time, dt, g, c, p, d, type}); ++n; }
};
static ref::Place any_place(Rng& R) { return {R.chance(0.2) ? R.uni(-80, 80) : R.chance(0.1) ? R.uni(-0.01, 0.01) : R.uni(-65, 65), R.chance(0.2) ? (R.chance(0.5) ? 180 : -180) + R.uni(-0.05, 0.05) : R.chance(0.1) ? R.uni(180, 360) : R.uni(-180, 180)}; }
int main(int argc, char** argv) {
    vt::init(argc, argv);
    // straight rays between bounces, bottoms of any shape
    vt::section("straight", 130, [&](Case& C, Rng& R) {
        double depth = R.logu(100, 5000), c = R.uni(1440, 1560), dt = R.pick({0.02, 0.05, 0.1, 0.2});
        while (dt * c > depth / 2) dt /= 2;
        long steps = R.in(40, 140);
        ref::Place src = any_place(R);
        std::shared_ptr<loss_model> sl(new loss_model(R.uni(0, 2), 7)), bl(new loss_model(R.uni(0, 5), R.uni(-2, 2)));
        int shape = R.in(0, 2);
        phi0 = src.lon * D;
        boundary_model::csptr bottom;
        double bend = 1 / ref::Re() * (1 + std::fabs(std::tan(src.lat * D))) * 2;
        std::string what = "flat";
        if (shape == 0) bottom.reset(new boundary_flat(depth, bl));
        if (shape == 1) { double s1 = R.uni(-4, 4) * D, s2 = R.chance(0.3) ? 0 : R.uni(-4, 4) * D; bottom.reset(new boundary_slope(wposition1(src.lat, src.lon), depth, s1, s2, bl)); what = MSG("slope " << s1 / D << " " << s2 / D); bend *= 2; }
        if (shape == 2) {
            auto w = new wavy();
            double l1 = R.logu(20, 200) * dt * c + 500, l2 = R.logu(20, 200) * dt * c + 500;
            w->A = std::min({0.2 * depth, 0.03 * std::min(l1, l2), R.logu(1, 200)}); w->k1 = 2 * M_PI / l1; w->k2 = 2 * M_PI / l2 * std::cos(src.lat * D);
            w->p1 = R.uni(0, 6); w->p2 = R.uni(0, 6); w->th0 = (90 - src.lat) * D; w->ph0 = src.lon * D; w->R0 = ref::Re() - depth;
            w->reflect_loss(bl);
            bottom.reset(w);
            what = MSG("wavy " << w->A << " m over " << l1 << " " << l2 << " m");
            bend += w->A * (4 * M_PI * M_PI) * (1 / l1 / l1 + 1 / l2 / l2);
        }
        double alt = -R.uni(0.05, 0.9) * depth;
        { double r; bottom->height(wposition1(src.lat, src.lon), &r); alt = -R.uni(0.05, 0.95) * (ref::Re() - r); }
        double alpha = R.chance(0.5) ? 0 : R.logu(1e-9, 1e-7);
        auto ocean = ocean_model::csptr(new ocean_model(boundary_model::csptr(new boundary_flat(0.0, sl)), bottom, profile_model::csptr(new profile_linear(c, attenuation_model::csptr(new attenuation_constant(alpha))))));
        seq_vector::csptr f(R.chance(0.5) ? (seq_vector*)new seq_linear(1000.0, 500.0, 1) : new seq_log(100.0, 3.0, 3)), de, az(new seq_linear(R.uni(0, 300), R.uni(5, 90), (size_t)R.in(1, 4)));
        int nde = R.in(1, 8);
        de.reset(new seq_linear(R.uni(-80, 20), R.uni(0.5, 60.0 / nde), (size_t)nde));
        C.in("bottom", what).in("depth", depth).in("c", c).in("dt", dt).in("steps", steps).in("lat", src.lat).in("lon", src.lon).in("alt", alt).inv("de", std::vector<double>(de->begin(), de->end())).inv("az", std::vector<double>(az->begin(), az->end()));
        wposition1 pos(src.lat, src.lon, alt);
        recorder L;
        wave_queue w(ocean, f, pos, de, az, dt);
        w.add_reflection_listener(&L);
        struct seg { V3 x, u; double t; int ns = 0, nb = 0; std::vector<double> loss, phase; double tol = 1e-5; bool lost = false; int lower = 0; bool doubt = false; size_t seen = 0; double travelled = 0; };
        std::vector<seg> rays(de->size() * az->size());
        for (size_t d = 0; d < de->size(); ++d) for (size_t a = 0; a < az->size(); ++a) {
            seg& s = rays[d * az->size() + a];
            double e = (*de)(d) * D, h = (*az)(a) * D;
            s.x = from(pos.rho(), pos.theta(), pos.phi()); s.u = vec(pos, std::sin(e), -std::cos(e) * std::cos(h), std::cos(e) * std::sin(h)); s.t = 0;
            s.loss.assign(f->size(), 0); s.phase.assign(f->size(), 0);
        }
        long bounces = 0, given_up = 0;
        for (long k = 0; k < steps; ++k) {
            w.step();
            double t = w.time();
            for (size_t d = 0; d < de->size(); ++d) for (size_t a = 0; a < az->size(); ++a) {
                seg& s = rays[d * az->size() + a];
                auto& got = L.got[{d, a}];
                std::string id = MSG("ray " << (*de)(d) << "," << (*az)(a) << " time " << t << ": ");
                for (; s.seen < got.size() && !s.lost; ++s.seen) {
                    bounce& b = got[s.seen];
                    bool bot = b.type == eigenverb_model::BOTTOM;
                    CHECK(bot || b.type == eigenverb_model::SURFACE, "interface", id << "interface " << b.type);
                    // exact meeting of the straight ray with the interface
                    auto inside = [&](double q) { V3 x = s.x + (long double)q * s.u; wposition1 p = to_pos(x); if (!bot) return p.rho() < ref::Re(); double r; bottom->height(p, &r); return p.rho() > r; };
                    double q = 0, step = c * dt / 20, end = c * (b.time - s.t) + c * dt;
                    // start inside: the place of the last bounce is exact only to its tolerance
                    double start = std::min(s.tol * 4 + 1e-6, c * dt / 2);
                    q = start;
                    bool found = false;
                    for (; q < end; q += step) if (!inside(q)) { found = true; break; }
                    CHECK(found, "false_bounce", id << "is told to bounce from interface " << b.type << " at time " << b.time << " but does not reach it");
                    if (!found) { s.lost = true; break; }
                    double lo = std::max(start, q - step), hi = q;
                    if (q == start) lo = 0;
                    for (int i = 0; i < 60; ++i) { double m = (lo + hi) / 2; (inside(m) ? lo : hi) = m; }
                    q = hi;
                    V3 X = s.x + (long double)q * s.u;
                    wposition1 P = to_pos(X);
                    wvector1 n; double r;
                    if (bot) bottom->height(P, &r, &n); else n.rho(-1), n.theta(0), n.phi(0);
                    V3 N = vec(P, n.rho(), n.theta(), n.phi());
                    double sg = -(double)dot(N, s.u), g = std::asin(std::max(-1.0, std::min(1.0, sg)));
                    if (g < 0.012 + bend * c * dt) { s.lost = true; ++given_up; break; }  // near grazing: below the resolution of the model
                    ++bounces;
                    double tolx = 2 * bend * c * c * dt * dt / sg + s.tol + 1e-3 * c * dt;
                    NEAR(b.time, s.t + q / c, tolx / c, "bounce_time", id << "time of bounce from interface " << b.type);
                    NEAR(b.time - b.dt, t - dt, 1e-9 * (1 + t), "bounce_offset", id << "time offset of bounce");
                    V3 Y = from(b.pos.rho(), b.pos.theta(), b.pos.phi());
                    CHECK(len(Y - X) <= tolx, "bounce_place", id << "bounce from interface " << b.type << " is " << len(Y - X) << " m from where the ray meets it, allowed " << tolx);
                    NEAR(b.grazing, g, 3 * bend * c * dt + 1e-5 + 1e-9 / std::max(1e-4, std::cos(g)) + (bot ? 1e-6 / std::max(1e-3, std::cos(g)) : 0), "grazing", id << "grazing angle at interface " << b.type);
                    NEARR(b.speed, c, 1e-9, 0, "bounce_speed", id << "sound speed at bounce");
                    V3 dir = vec(b.pos, b.dir.rho(), b.dir.theta(), b.dir.phi());
                    CHECK(len((1 / (long double)len(dir)) * dir - s.u) < 1e-5 + 3e-7 * c * dt, "bounce_direction", id << "direction at bounce is off by " << len((1 / (long double)len(dir)) * dir - s.u));
                    vt::maxv("bounce_place_over_allowed", len(Y - X) / tolx);
                    // perigee before the bounce
                    long double e0 = dot(s.u, s.x) / sqrtl(dot(s.x, s.x));
                    if (e0 < 0) { double per = (double)-dot(s.u, s.x); if (per < q) { ++s.lower; } if (std::fabs(per - q) < 2.2 * c * dt || per < 2.2 * c * dt) s.doubt = true; }
                    for (size_t i = 0; i < f->size(); ++i) { s.loss[i] += (bot ? *bl : *sl).loss((*f)(i), b.grazing); s.phase[i] += bot ? bl->shift((*f)(i), b.grazing) : -M_PI; }
                    (bot ? s.nb : s.ns)++;
                    // continue from where it says it bounced
                    wvector1 m; 
                    if (bot) bottom->height(b.pos, &r, &m); else m.rho(-1), m.theta(0), m.phi(0);
                    V3 M = vec(b.pos, m.rho(), m.theta(), m.phi());
                    s.u = s.u - (2 * dot(s.u, M)) * M;
                    s.u = (1 / (long double)len(s.u)) * s.u;
                    s.x = Y; s.t = b.time; s.tol = bend * c * c * dt * dt / sg + 1e-4; s.travelled += q;
                }
                if (s.lost) continue;
                const wave_front* x = w.curr();
                V3 X = from(x->position.rho(d, a), x->position.theta(d, a), x->position.phi(d, a)), W = s.x + (long double)(c * (t - s.t)) * s.u;
                double drift = 2e-6 + 2e-9 * c * (t - s.t) + 1e-4 * bend * c * dt;
                wposition1 P = to_pos(X); double r; bottom->height(P, &r);
                if (ref::Re() - r < 1.3 * c * dt) { s.lost = true; ++given_up; continue; }  // less water than one time step
                double sink = r - P.rho(), tolw = 2 * s.tol + 0.01;
                CHECK(P.rho() - ref::Re() <= tolw, "above_surface", id << "ray is " << P.rho() - ref::Re() << " m above the surface");
                CHECK(sink <= tolw + bend * c * c * dt * dt, "below_bottom", id << "ray is " << sink << " m below the bottom");
                CHECK(len(X - W) <= drift, "specular", id << "ray is " << len(X - W) << " m off the straight line since its last bounce (" << s.ns << " surface, " << s.nb << " bottom), allowed " << drift);
                vt::maxv("path_error_over_allowed", len(X - W) / drift);
                V3 u = vec(P, x->ndirection.rho(d, a), x->ndirection.theta(d, a), x->ndirection.phi(d, a));
                CHECK(std::fabs(len(u) * c - 1) < 1e-6, "unit", id << "length of direction " << len(u) * c);
                CHECK(len((long double)c * u - s.u) < 1e-5 + bend * c * dt * 0.2, "specular_direction", id << "direction is off by " << len((long double)c * u - s.u));
                CHECK(x->surface(d, a) == s.ns && x->bottom(d, a) == s.nb, "counts", id << "counts " << x->surface(d, a) << " surface and " << x->bottom(d, a) << " bottom bounces, was told of " << s.ns << " and " << s.nb);
                NEAR(x->path_length(d, a), c * t, 1e-6 * c * t + (s.ns + s.nb) * (s.tol + 0.01) + c * t * bend * c * dt, "length", id << "path length");
                for (size_t i = 0; i < f->size(); ++i) {
                    NEAR(x->attenuation(d, a)(i), s.loss[i] + alpha * (*f)(i) * x->path_length(d, a), 1e-9 + 1e-6 * s.loss[i] + alpha * (*f)(i) * 0.01 * (1 + s.ns + s.nb), "loss", id << "loss after " << s.ns << " and " << s.nb << " bounces at " << (*f)(i) << " Hz");
                    NEAR(x->phase(d, a)(i) + M_PI / 2 * x->caustic(d, a), s.phase[i], 1e-9 * (1 + std::fabs(s.phase[i])), "phase", id << "phase after " << s.ns << " and " << s.nb << " bounces and " << x->caustic(d, a) << " caustics");
                }
                // vertices: straight rays only have perigees
                double run = c * (t - s.t), per = (double)-dot(s.u, s.x);
                if (std::fabs(per - run) < 2.2 * c * dt) continue;
                if (s.t > 0 && per > 0 && per < 2.2 * c * dt) s.doubt = true;
                if (!s.doubt) {
                    int now = s.lower + (per > 0 && per < run);
                    CHECK(x->lower(d, a) == now, "vertices", id << "counts " << x->lower(d, a) << " lower vertices, has passed " << now);
                }
                CHECK(x->upper(d, a) == 0, "vertices", id << "straight ray counts " << x->upper(d, a) << " upper vertices");
            }
        }
        CHECK(sl->calls + bl->calls == L.n, "loss_calls", "losses were asked " << sl->calls + bl->calls << " times for " << L.n << " bounces");
        vt::obs("bounces", bounces); vt::obs("near_grazing_given_up", given_up);
        if (!bounces) C.trivial();
    });
    // refracted rays over a flat bottom, compared to exact histories
    vt::section("refracted", 110, [&](Case& C, Rng& R) {
        ref::Ocean1D o;
        o.depth = R.logu(200, 5000);
        o.speed.form = R.in(0, 2);
        o.speed.c0 = R.uni(1470, 1530);
        if (o.speed.form == 0) o.speed.g = R.uni(-0.06, 0.06);
        if (o.speed.form == 1) o.speed.g = R.uni(-0.06, 0.06);
        if (o.speed.form == 2) o.speed.axis = R.uni(300, 1300), o.speed.scale = R.uni(900, 1300);
        bool duct = R.chance(0.35);
        if (duct) { o.speed.form = 2; o.speed.scale = R.uni(600, 1200); o.speed.axis = R.uni(0.4, 0.6) * o.speed.scale; o.speed.eps = R.uni(0.01, 0.05); o.depth = R.uni(1, 2) * o.speed.scale; }
        double alt = duct ? -o.speed.axis * R.uni(0.8, 1.2) : -R.uni(0.05, 0.95) * o.depth, dt = R.pick({0.01, 0.02, 0.05, 0.1});
        if (o.speed.form == 2) dt = std::min(dt, duct ? 0.02 : 0.05);
        while (dt * 1500 > o.depth / 4) dt /= 2;
        long steps = duct ? R.in(200, 400) : R.in(60, 250);
        double tmax = steps * dt, G = 0;
        for (int k = 0; k <= 20; ++k) { double d; o.speed.c(o.depth * k / 20, &d); G = std::max(G, std::fabs(d)); }
        double K = G + 1600 / ref::Re() + (o.speed.form == 2 ? 2 * 1500 / o.speed.scale : 3 * G);
        ref::Place src = any_place(R);
        std::shared_ptr<loss_model> sl(new loss_model(R.uni(0, 2), 7)), bl(new loss_model(R.uni(0, 5), R.uni(-2, 2)));
        double alpha = R.chance(0.5) ? 0 : R.logu(1e-9, 1e-7);
        auto ocean = ocean_model::csptr(new ocean_model(boundary_model::csptr(new boundary_flat(0.0, sl)), boundary_model::csptr(new boundary_flat(o.depth, bl)), o.speed.model(attenuation_model::csptr(new attenuation_constant(alpha)))));
        seq_vector::csptr f(new seq_linear(1000.0, 500.0, (size_t)R.in(1, 2))), de, az(new seq_linear(R.uni(0, 300), R.uni(5, 90), (size_t)R.in(1, 3)));
        size_t nde = R.in(2, 14);
        if (duct) de.reset(new seq_linear(R.uni(-14, -6), R.uni(6, 24) / nde, nde)); else if (R.chance(0.6)) de.reset(new seq_linear(R.uni(-20, 0), R.uni(0.3, 20.0 / nde), nde)); else de.reset(new seq_linear(R.uni(-80, 0), R.uni(1, 75.0 / nde), nde));
        C.in("profile", o.speed.text()).in("depth", o.depth).in("dt", dt).in("steps", steps).in("lat", src.lat).in("lon", src.lon).in("alt", alt).inv("de", std::vector<double>(de->begin(), de->end())).inv("az", std::vector<double>(az->begin(), az->end()));
        recorder L;
        wave_queue w(ocean, f, wposition1(src.lat, src.lon, alt), de, az, dt);
        w.add_reflection_listener(&L);
        std::vector<ref::Ray> rays;
        std::vector<std::vector<double>> drift(nde);  // place error after each event
        std::vector<double> usable(nde);
        double base = 4 * std::pow(dt, 3) * tmax * 1600 * (G + 1600 / ref::Re()) * K * K + 2e-6 * (1 + tmax) + 0.002;
        for (size_t d = 0; d < nde; ++d) {
            rays.push_back(ref::trace(o, -alt, (*de)(d) * D, tmax, dt, 10, 3, 0.01));
            usable[d] = std::min(rays[d].certain, tmax) - 2.2 * dt;
            double sum = base;
            for (auto& e : rays[d].events) {
                drift[d].push_back(sum);
                if (e.kind == ref::SURFACE || e.kind == ref::BOTTOM) {
                    double g, c = o.speed.c(e.at.z, &g), gg = std::max(std::fabs(g), G) + c / ref::Re();
                    sum = sum * 1.5 + 1.5 * c * gg * dt * dt / std::sin(e.grazing);
                    if (sum > 0.2 * o.depth * std::sin(e.grazing)) usable[d] = std::min(usable[d], e.at.t);
                }
            }
            drift[d].push_back(sum);
        }
        std::vector<std::vector<std::pair<double, double>>> folds(nde);
        long bounces = 0, vertices = 0, caustics = 0; int seen_folds = 0;
        std::vector<std::vector<double>> loss(nde * az->size(), std::vector<double>(f->size(), 0.0)), phase = loss;
        std::vector<size_t> told(nde * az->size(), 0);
        // caustics each ray must have counted by now, and whether that is beyond doubt
        std::vector<int> fold(nde, 0), foldbad(nde, 0), order(nde, -1), zone(nde, 0), hs(nde, 2), fresh(nde, 1);  // the rays start in the order of the fan
        for (long k = 0; k < steps; ++k) {
            w.step();
            double t = w.time();
            for (size_t d = 1; d < nde; ++d) {
                // order in depth of this ray and the one below it in the fan, at the last two steps
                double a = rays[d].path[k].z - rays[d - 1].path[k].z, b = rays[d].path[k + 1].z - rays[d - 1].path[k + 1].z;
                double unsure = 0;
                int sd0 = 0, bd0 = 0, sd1 = 0, bd1 = 0; bool hit = false;
                for (int q = 0; q < 2; ++q) for (size_t n = 0; n < rays[d - q].events.size(); ++n) {
                    auto& e = rays[d - q].events[n];
                    if (e.at.t > t + dt) break;
                    unsure = std::max(unsure, drift[d - q][n + 1]);
                    if (e.kind != ref::SURFACE && e.kind != ref::BOTTOM) continue;
                    if (e.at.t > t - 2.2 * dt) hit = true;
                    if (e.at.t <= t) (q ? (e.kind == ref::SURFACE ? sd1 : bd1) : (e.kind == ref::SURFACE ? sd0 : bd0))++;
                }
                unsure = std::max(unsure, base) * 2 + 0.01;
                if (k == 0) continue;
                bool same = sd0 == sd1 && bd0 == bd1;
                // which of the two is deeper, once that is beyond doubt
                int sign = std::fabs(b) < unsure ? 0 : b > 0 ? 1 : -1;
                if (same && hs[d] != 2 && (sign != hs[d] || sign == 0)) foldbad[d] = 1;  // folds right at a bounce
                hs[d] = hit && same ? sign : 2;
                if (hit || !same) { if (zone[d]) foldbad[d] = 1; order[d] = 0; }
                else if (std::fabs(b) < unsure) { zone[d] = order[d] != 0; }
                else {
                    int now = b > 0 ? 1 : -1;
                    if (order[d] && now != order[d]) { ++fold[d]; ++caustics; }
                    else if (order[d] && zone[d] && !fresh[d]) foldbad[d] = 1;  // touched and came back
                    order[d] = now; zone[d] = 0; fresh[d] = 0;
                }
                (void)a;
                if (t > usable[d] || t > usable[d - 1]) foldbad[d] = 1;
            }
            for (size_t d = 0; d < nde; ++d) {
                if (t > usable[d]) continue;
                const ref::State& want = rays[d].path[k + 1];
                size_t n = 0;
                int ns = 0, nb = 0, nu = 0, nl = 0; bool close = false, vertex_close = false;
                for (; n < rays[d].events.size() && rays[d].events[n].at.t <= t; ++n) {
                    auto& e = rays[d].events[n];
                    (e.kind == ref::SURFACE ? ns : e.kind == ref::BOTTOM ? nb : e.kind == ref::UPPER ? nu : nl)++;
                }
                double place = drift[d][n];
                for (size_t m = 0; m < rays[d].events.size(); ++m) {
                    auto& e = rays[d].events[m];
                    double slack = place / 1400 / (e.kind == ref::SURFACE || e.kind == ref::BOTTOM ? std::sin(e.grazing) : 1);
                    bool wall = e.kind == ref::SURFACE || e.kind == ref::BOTTOM;
                    if (std::fabs(e.at.t - t) < slack + 1e-9) close = true;
                    if (!wall && e.at.t < t + 2.2 * dt) {
                        // the direction at a vertex is turning slowly: it may be noticed early or late
                        double curve = 1e-9, g, c = o.speed.c(e.at.z, &g); curve = std::fabs(c / ref::Re() + g);
                        if (std::fabs(e.at.t - t) < 2.2 * dt + (place * G + 1e-6 * 1500) / 1500 / std::max(curve, 1e-7) * 2) vertex_close = true;
                    }
                    // a vertex right at a bounce or at another vertex can go unnoticed
                    if (m && e.at.t < t + 2.2 * dt && e.at.t - rays[d].events[m - 1].at.t < 2.5 * dt && (!wall || rays[d].events[m - 1].kind >= ref::LAYER)) vertex_close = true;
                }
                if (std::fabs((*de)(d)) < 0.3) vertex_close = true;
                for (size_t a = 0; a < az->size(); ++a) {
                    std::string id = MSG("ray " << (*de)(d) << "," << (*az)(a) << " time " << t << ": ");
                    const wave_front* x = w.curr();
                    auto& got = L.got[{d, a}];
                    size_t ray = d * az->size() + a;
                    // bounces it was told of against those that happen
                    for (; told[ray] < got.size(); ++told[ray]) {
                        bounce& b = got[told[ray]];
                        bool bot = b.type == eigenverb_model::BOTTOM;
                        size_t m = 0, c = 0;
                        for (; m < rays[d].events.size(); ++m) { auto k2 = rays[d].events[m].kind; if (k2 == ref::SURFACE || k2 == ref::BOTTOM) if (c++ == told[ray]) break; }
                        for (size_t i = 0; i < f->size(); ++i) { loss[ray][i] += (bot ? *bl : *sl).loss((*f)(i), b.grazing); phase[ray][i] += bot ? bl->shift((*f)(i), b.grazing) : -M_PI; }
                        if (b.time > usable[d]) continue;
                        CHECK(m < rays[d].events.size(), "false_bounce", id << "is told to bounce from interface " << b.type << " at time " << b.time << " but meets nothing");
                        if (m == rays[d].events.size()) continue;
                        auto& e = rays[d].events[m];
                        double g, cc = o.speed.c(e.at.z, &g), tolx = drift[d][m] + 1.5 * cc * (std::max(std::fabs(g), G) + cc / ref::Re()) * dt * dt / std::sin(e.grazing);
                        CHECK(bot == (e.kind == ref::BOTTOM), "wrong_interface", id << "bounces from interface " << b.type << " at time " << b.time << ", should from the other");
                        NEAR(b.time, e.at.t, tolx / 1400 / std::sin(e.grazing), "bounce_time", id << "time of bounce");
                        NEAR(b.grazing, e.grazing, (1.5 * dt * (std::fabs(g) + G + cc / ref::Re()) + (drift[d][m]) * G / cc) / std::max(0.2, std::cos(e.grazing)) + 1e-4, "grazing", id << "grazing angle");
                        NEAR(b.pos.altitude(), -e.at.z, 2 * tolx * std::sin(e.grazing) + 0.01, "bounce_altitude", id << "altitude of bounce");
                        ref::Place p = ref::travel(src, e.at.th, (*az)(a) * D);
                        double off = ref::angle_between({b.pos.latitude(), b.pos.longitude()}, p) * ref::Re();
                        CHECK(off < 2 * tolx / std::sin(e.grazing) + 0.02 + 1e-6 * e.at.s, "bounce_place", id << "bounce is " << off << " m off, allowed " << 2 * tolx / std::sin(e.grazing));
                        ++bounces;
                    }
                    if (!close) CHECK(x->surface(d, a) == ns && x->bottom(d, a) == nb, "counts", id << "counts " << x->surface(d, a) << " surface and " << x->bottom(d, a) << " bottom bounces, meets " << ns << " and " << nb);
                    CHECK((size_t)(x->surface(d, a) + x->bottom(d, a)) == got.size(), "told", id << "counts " << x->surface(d, a) + x->bottom(d, a) << " bounces and was told of " << got.size());
                    double over = x->position.altitude(d, a), deep = -over - o.depth;
                    CHECK(over < place + 0.01 && deep < place + 0.01, "out_of_water", id << "altitude " << over << " of the ray");
                    if (!close) NEAR(-over, want.z, place + 0.01, "depth", id << "depth after " << ns << " and " << nb << " bounces");
                    if (!vertex_close) {
                        vertices += nu + nl;
                        CHECK(x->upper(d, a) == nu && x->lower(d, a) == nl, "vertices", id << "counts " << x->upper(d, a) << " upper and " << x->lower(d, a) << " lower vertices, has passed " << nu << " and " << nl);
                    }
                    NEAR(x->path_length(d, a), want.s, place + want.s * (dt * 3e-4 * (1 + std::fabs(std::tan(src.lat * D))) + 0.1 * std::pow(K * dt, 2)) + (ns + nb) * 0.02, "length", id << "path length");
                    for (size_t i = 0; i < f->size(); ++i) {
                        NEAR(x->attenuation(d, a)(i), loss[ray][i] + alpha * (*f)(i) * x->path_length(d, a), 1e-9 + 1e-6 * loss[ray][i] + alpha * (*f)(i) * (0.05 * (1 + ns + nb) + 1e-3 * x->path_length(d, a)), "loss", id << "loss after " << ns << " and " << nb << " bounces at " << (*f)(i) << " Hz");
                        NEAR(x->phase(d, a)(i) + M_PI / 2 * x->caustic(d, a), phase[ray][i], 1e-9 * (1 + std::fabs(phase[ray][i])), "phase", id << "phase after " << ns << " and " << nb << " bounces and " << x->caustic(d, a) << " caustics");
                    }
                    if (d && !foldbad[d] && !zone[d] && order[d]) vt::obs("caustic_counts_compared"), seen_folds = std::max(seen_folds, fold[d]);
                    if (d && !foldbad[d] && !zone[d] && order[d]) CHECK(x->caustic(d, a) == fold[d], "caustics", id << "counts " << x->caustic(d, a) << " caustics, the fan has folded " << fold[d] << " times");
                    if (d == 0) CHECK(x->caustic(d, a) == 0, "caustics", id << "caustics of the first ray");
                }
            }
        }
        vt::maxv("caustics_of_one_ray", seen_folds);
        vt::obs("refracted_bounces", bounces); vt::obs("vertices", vertices); vt::obs("caustics", caustics);
        if (!bounces && !vertices) C.trivial();
    });
    // water so shallow that a ray meets several boundaries within a time step
    vt::section("shallow", 150, [&](Case& C, Rng& R) {
        const double dt = R.pick({0.02, 0.05, 0.1}), c = R.uni(1440, 1560), depth = c * dt * R.uni(0.35, 1.6);
        const double z0 = R.uni(0.05, 0.95) * depth, de0 = R.uni(-85, -20), de1 = R.uni(20, 85);
        const long steps = R.in(10, 80);
        ref::Place src = any_place(R);
        std::shared_ptr<loss_model> sl(new loss_model(R.uni(0, 2), 7)), bl(new loss_model(R.uni(0, 5), R.uni(-2, 2)));
        auto ocean = ocean_model::csptr(new ocean_model(boundary_model::csptr(new boundary_flat(0.0, sl)), boundary_model::csptr(new boundary_flat(depth, bl)), profile_model::csptr(new profile_linear(c, attenuation_model::csptr(new attenuation_constant(0.0))))));
        seq_vector::csptr f(new seq_linear(1000.0, 500.0, (size_t)2)), de(new seq_data(std::vector<double>{de0, 0.5 * de0 - 7, -13, 13, 0.5 * de1 + 7, de1})), az(new seq_linear(R.uni(0, 300), 20.0, (size_t)2));
        C.in("dt", dt).in("c", c).in("depth", depth).in("z0", z0).in("steps", steps).in("lat", src.lat).in("lon", src.lon).in("first de", de0).in("last de", de1);
        recorder L;
        wave_queue w(ocean, f, wposition1(src.lat, src.lon, -z0), de, az, dt);
        w.add_reflection_listener(&L);
        const double Re = ref::Re(), Rb = Re - depth;
        struct ray { double r, e, left; int ns = 0, nb = 0; double loss[2] = {0, 0}, phase[2] = {0, 0}; std::vector<double> when; double now = 0; };
        std::vector<ray> rays;
        for (size_t d = 0; d < de->size(); ++d) rays.push_back({Re - z0, (*de)(d) * D, 0});
        std::vector<bool> lost(rays.size() * 2, false);
        for (long k = 0; k < steps; ++k) {
            w.step();
            for (size_t d = 0; d < de->size(); ++d) {
                ray& y = rays[d];
                // advance by one step, boundary by boundary
                double left = w.time() * c - y.now;
                int in_step = 0;
                while (left > 0) {
                    double p = y.r * std::cos(y.e), a = y.r * std::sin(y.e);
                    bool down = y.e < 0 && p < Rb;
                    double b = down ? -std::sqrt(Rb * Rb - p * p) : std::sqrt(Re * Re - p * p), g = b - a;
                    if (g >= left) { double x = a + left; y.r = std::hypot(p, x); y.e = std::atan2(x, p); y.now += left; break; }
                    y.r = down ? Rb : Re; y.now += g; left -= g; ++in_step;
                    double e = std::atan2(b, p), graz = std::fabs(e);
                    y.e = -e; (down ? y.nb : y.ns)++; y.when.push_back(y.now / c);
                    for (int q = 0; q < 2; ++q) { y.loss[q] += down ? bl->loss((*f)(q), graz) : sl->loss((*f)(q), graz); y.phase[q] += down ? bl->shift((*f)(q), graz) : -M_PI; }
                }
                if (in_step > 1) vt::obs(MSG(std::min(in_step, 4) << " bounces in a step"));
                const double z = Re - y.r, near = 1e-6 * c * dt + 1e-3 * depth + 2e-3 * (y.ns + y.nb);
                for (size_t a = 0; a < 2; ++a) {
                    if (lost[2 * d + a]) continue;
                    std::string id = MSG("ray " << (*de)(d) << "," << (*az)(a) << " time " << w.time() << " depth " << z << " after " << y.ns << " surface and " << y.nb << " bottom bounces, " << in_step << " of them in this step: ");
                    const double alt = w.curr()->position.altitude(d, a);
                    vt::maxv("shallow altitude", std::fabs(alt + z));
                    NEAR(alt, -z, near, "shallow_altitude", id << "altitude");
                    if (std::fabs(alt + z) > near) { lost[2 * d + a] = true; continue; }
                    // a bounce at the very end of the step may belong to the next one
                    if (z < 2 * near || depth - z < 2 * near) { vt::obs("end of step at a boundary"); continue; }
                    CHECK(w.curr()->surface(d, a) == y.ns, "shallow_surface", id << "surface count " << w.curr()->surface(d, a));
                    CHECK(w.curr()->bottom(d, a) == y.nb, "shallow_bottom", id << "bottom count " << w.curr()->bottom(d, a));
                    CHECK(L.got[std::make_pair(d, a)].size() >= (size_t)(y.ns + y.nb), "shallow_events", id << L.got[std::make_pair(d, a)].size() << " bounces were announced");
                    for (int q = 0; q < 2; ++q) {
                        NEAR(w.curr()->attenuation(d, a)(q), y.loss[q], 1e-3 * (1 + y.loss[q]), "shallow_loss", id << "loss");
                        NEAR(w.curr()->phase(d, a)(q), y.phase[q] - M_PI / 2 * w.curr()->caustic(d, a), 1e-3 * (1 + std::fabs(y.phase[q])), "shallow_phase", id << "phase");
                    }
                }
            }
        }
    });
    return vt::finish();
}
