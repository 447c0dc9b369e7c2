// Scenes with targets, and the paths that exist in them.
#pragma once
#include <usml/ocean/ocean.h>
#include <usml/types/types.h>
#include <usml/waveq3d/waveq3d.h>
#include "rays.h"
#include "vt.h"
using namespace usml::eigenrays;
using namespace usml::ocean;
using namespace usml::types;
using namespace usml::waveq3d;
static const double D = M_PI / 180;
// losses that depend on frequency and grazing angle
struct loss_model : reflect_loss_model {
    double a, b, per = 2e-4;
    loss_model(double x, double y) : a(x), b(y) {}
    double loss(double f, double g) const { return a * std::cos(g) + f * per; }
    double shift(double f, double g) const { return b * std::sin(g) + f * 1e-5; }
    void reflect_loss(const wposition1&, const seq_vector::csptr& f, double g, vector<double>* amp, vector<double>* ph = nullptr) const override { for (size_t k = 0; k < f->size(); ++k) { (*amp)(k) = loss((*f)(k), g); if (ph) (*ph)(k) = shift((*f)(k), g); } }
};
// absorption that depends on frequency and depth
struct absorption : attenuation_model {
    double a, b;
    absorption(double x, double y) : a(x), b(y) {}
    double alpha(double f, double z) const { return a * f * (1 + b * z); }
    void attenuation(const wposition& at, const seq_vector::csptr& f, const matrix<double>& d, matrix<vector<double>>* out) const override {
        for (size_t i = 0; i < at.size1(); ++i) for (size_t j = 0; j < at.size2(); ++j) for (size_t k = 0; k < f->size(); ++k) (*out)(i, j)(k) = alpha((*f)(k), -at.altitude(i, j)) * d(i, j);
    }
};
struct Bounce { bool bottom; double grazing; };
struct Hit { bool ok; double z, t, s, e; int ns, nb, nu, nl; bool doubt; double zs; std::vector<Bounce> bounces; };  // zs: depth summed along the path
// straight rays on a sphere, without integration
static Hit straight(double depth, double c, double z0, double e, double TH) {
    const double R = ref::Re();
    double r = R - z0, th = 0, s = 0, zs = 0;
    int ns = 0, nb = 0, nl = 0;
    std::vector<Bounce> list;
    // depth along a straight segment, summed over its length
    auto zsum = [&](double p, double x, double y) { double n = 0; const int N = 8; double a = p * tan(x), b = p * tan(y), h = (b - a) / N; for (int i = 0; i <= N; ++i) { double q = a + i * h, w = (i == 0 || i == N) ? 1 : i % 2 ? 4 : 2; n += w * (R - std::sqrt(p * p + q * q)); } return n * h / 3; };
    for (int k = 0; k < 400; ++k) {
        double p = r * cos(e), up = acos(std::min(1.0, p / R)), dn = -2;
        if (e < 0 && p / (R - depth) <= 1) dn = -acos(p / (R - depth));
        bool bot = dn > -1.9 && dn >= e - 1e-15;
        double eh = bot ? dn : up, dth = eh - e;
        if (th + dth >= TH) { double ee = e + TH - th, rr = p / cos(ee); zs += zsum(p, e, ee); s += rr * sin(ee) - r * sin(e); if (e < 0 && ee > 0) ++nl; return {true, R - rr, s / c, s, ee, ns, nb, 0, nl, false, zs, list}; }
        if (e < 0 && eh > 0) ++nl;
        double rr = bot ? R - depth : R;
        s += rr * sin(eh) - r * sin(e);
        zs += zsum(p, e, eh);
        list.push_back({bot, std::fabs(eh)});
        th += dth; r = rr; e = -eh;
        ++(bot ? nb : ns);
    }
    return {false};
}
struct Scene {
    ref::Ocean1D o;
    double z0, tmax, dt, dde;
    bool constant;
    double c;
    std::map<double, ref::Ray> traced;
    Hit hit(double e, double TH) {
        if (constant) return straight(o.depth, c, z0, e, TH);
        auto it = traced.find(e);
        if (it == traced.end()) it = traced.emplace(e, ref::trace(o, z0, e, std::ceil(tmax / dt + 5) * dt, dt, 2)).first;
        const ref::Ray& r = it->second;
        if (r.path.back().th < TH) return {false};
        size_t lo = 0, hi = r.path.size() - 1;
        while (hi - lo > 1) { size_t m = (lo + hi) / 2; (r.path[m].th < TH ? lo : hi) = m; }
        const ref::State& x = r.path[lo];
        double a = 0, b = dt;
        for (int i = 0; i < 50; ++i) { double m = (a + b) / 2; (ref::rk4(o.speed, x, m).th < TH ? a : b) = m; }
        ref::State y = ref::rk4(o.speed, x, a);
        Hit h{true, y.z, x.t + a, y.s, y.e, 0, 0, 0, 0, x.t + a > r.certain, 0, {}};
        for (size_t i = 1; i <= lo; ++i) h.zs += (r.path[i].z + r.path[i - 1].z) / 2 * (r.path[i].s - r.path[i - 1].s);
        h.zs += (x.z + y.z) / 2 * (y.s - x.s);
        for (auto& ev : r.events) {
            if (ev.at.t > h.t + 4 * dt) break;
            if (std::fabs(ev.at.t - h.t) < 3.5 * dt && ev.kind != ref::LAYER) h.doubt = true;
            if (ev.at.t > h.t) continue;
            if (ev.kind == ref::SURFACE || ev.kind == ref::BOTTOM) h.bounces.push_back({ev.kind == ref::BOTTOM, ev.grazing});
            if (ev.kind == ref::SURFACE) ++h.ns; else if (ev.kind == ref::BOTTOM) ++h.nb; else if (ev.kind == ref::UPPER) ++h.nu; else if (ev.kind == ref::LOWER) ++h.nl;
        }
        return h;
    }
    // neighbouring rays take the same kind of path, and pass the target range in order
    bool isolated(double e, double TH, const Hit& h, bool* vertices = nullptr, double bow = 0, double wide = 3) {
        // rays of the fan next to a path that starts or ends level may turn between
        if (vertices) *vertices = std::fabs(e) > 2.5 * dde + 1.2 * TH && std::fabs(h.e) > 2.5 * dde + 1.2 * TH;
        double lo = 1e30, hi = 0;
        int dir = 0;
        double step = constant ? 0.5 : 1;
        double zl = 0;
        bool first = true;
        for (double k = -wide; k <= wide; k += step) {
            double ee = e + k * dde;
            if (std::fabs(ee) > 80 * D) return false;
            if (constant)
                for (int j = -1; j <= 1; j += 2) {
                    double T = TH + j * 3.2 * c * dt * cos(h.e) / ref::Re();
                    if (T <= 0) return false;
                    Hit n = hit(ee, T);
                    if (!n.ok || n.ns != h.ns || n.nb != h.nb) return false;
                    double m = 0.3 * c * dt * std::fabs(sin(n.e));
                    if (n.z < m || o.depth - n.z < m) return false;
                    if (n.nl != h.nl && vertices) *vertices = false;
                }
            Hit n = hit(ee, TH);
            if (!n.ok || n.doubt || n.ns != h.ns || n.nb != h.nb) return false;
            if (vertices && (n.nu != h.nu || n.nl != h.nl)) *vertices = false;
            // turning points within a step or two of the target may or may not be counted
            for (int j = -1; vertices && *vertices && j <= 1; j += 2) {
                Hit m = hit(ee, TH + j * 3 * c * dt / ref::Re());
                if (!m.ok || m.nu != h.nu || m.nl != h.nl) *vertices = false;
            }
            if (!first) {
                double g = n.z - zl;
                if (dir == 0) dir = g > 0 ? 1 : -1;
                if (g * dir <= 0) return false;
                lo = std::min(lo, std::fabs(g)); hi = std::max(hi, std::fabs(g));
            }
            first = false;
            zl = n.z;
        }
        // the closest of several coarse azimuths is passed a little early, and so at another depth
        if (lo / (constant ? 0.5 : 1) < 3 * bow * std::fabs(std::tan(h.e)) || lo < 0.1 * dde * TH * ref::Re() * (constant ? 0.5 : 1)) return false;
        return hi < 1.6 * lo;
    }
};
struct listener : eigenray_listener {
    std::map<std::pair<size_t, size_t>, std::vector<eigenray_model::csptr>> got;
    void add_eigenray(size_t a, size_t b, eigenray_model::csptr r, size_t) override { got[{a, b}].push_back(r); }
};
struct Target { double TH, z, az, arrive; ref::Place at; };
struct Setup {
    Scene s;
    ref::Place src;
    std::vector<Target> tg;
    double daz, az0; size_t naz; bool circle;
    double de0; size_t nde;
    ocean_model::csptr ocean;
    seq_vector::csptr f, de, az;
    double maxb;
    wposition targets(const std::vector<size_t>& which) const {
        wposition w(which.size(), 1);
        for (size_t i = 0; i < which.size(); ++i) { auto& t = tg[which[i]]; w.latitude(i, 0, t.at.lat); w.longitude(i, 0, t.at.lon); w.altitude(i, 0, -t.z); }
        return w;
    }
    std::shared_ptr<loss_model> sl, bl;
    std::shared_ptr<absorption> att;
};
static Setup make(Rng& R, Case& C, bool constant, int ntg, bool small, bool lossy = false, int margin = 3) {
    Setup q;
    Scene& s = q.s;
    s.constant = constant;
    s.dt = R.pick({0.05, 0.1});
    s.dde = R.pick({0.25, 0.5, 1.0}) * D;
    if (small) s.dde = std::max(s.dde, 0.5 * D);
    double depth = constant ? R.logu(300, 5000) : R.logu(1000, 5000);
    s.o.depth = depth;
    if (constant) { s.c = R.uni(1440, 1560); s.o.speed.c0 = s.c; }
    else {
        int form = R.in(0, 2);
        s.o.speed.form = form; s.o.speed.c0 = R.uni(1460, 1520);
        s.o.speed.g = form == 0 ? R.uni(-0.03, 0.03) : R.uni(0.005, 0.03) * (R.chance(0.5) ? 1 : -1);
        if (form == 2) { s.o.speed.axis = R.uni(500, 1300); s.o.speed.scale = R.uni(800, 1500); s.o.speed.c0 = R.uni(1480, 1510); }
        s.c = s.o.speed.c0;
    }
    s.z0 = R.uni(.08, .92) * depth;
    q.src = {R.chance(0.15) ? R.uni(-0.02, 0.02) : R.uni(-70, 70), R.chance(0.2) ? (R.chance(0.5) ? 180 : -180) + R.uni(-0.02, 0.02) : R.uni(-180, 180)};
    double br0 = R.chance(0.3) ? R.pick({0., 90., 180., 270.}) + R.uni(-2, 2) : R.uni(0, 360);
    s.tmax = 0;
    for (int k = 0; k < ntg; ++k) {
        double range = small ? R.uni(1500, 6000) : constant ? R.uni(.5, 4) * depth + 2000 : R.logu(0.7 * depth + 1500, 40000);
        if (range > 45 * s.c * 0.02 / s.dde * 1.0 && false) range = 0;
        Target t;
        t.TH = range / ref::Re(); t.z = R.uni(.08, .92) * depth;
        double b = (br0 + R.uni(-8, 8)) * D;
        t.at = ref::travel(q.src, t.TH, b, &t.arrive);
        t.az = b / D;
        if (R.chance(0.3)) t.at.lon += t.at.lon > 0 ? -360 : 360;
        q.tg.push_back(t);
        s.tmax = std::max(s.tmax, range / s.c * (constant ? 1.8 : 1.3));
    }
    q.daz = R.pick({1., 2., 5.});
    q.circle = R.chance(0.25);
    if (q.circle) { q.daz = R.pick({4., 5., 6.}); q.az0 = R.pick({0., -180., 10.}); q.naz = (size_t)std::lround(360 / q.daz) + 1; }
    else { q.az0 = std::floor(br0 - 8 - margin * q.daz) + R.u(); q.naz = (size_t)((16 / q.daz) + 2 + 2 * margin); if (R.chance(0.5)) q.az0 -= 360 * std::floor(q.az0 / 360); }
    double lim = constant ? 60 : 30;
    if (small && !q.circle) q.naz = std::min<size_t>(q.naz, 20);
    q.de0 = -lim + R.uni(0, 0.9) * s.dde / D; q.nde = (size_t)(2 * lim * D / s.dde);
    q.sl.reset(new loss_model(lossy ? R.uni(0, 2) : 0, R.uni(-2, 2))); q.bl.reset(new loss_model(lossy ? R.uni(0, 6) : 0.5, lossy ? R.uni(-3, 3) : 0));
    auto surf = boundary_model::csptr(new boundary_flat(0.0, q.sl)), bot = boundary_model::csptr(new boundary_flat(depth, q.bl));
    q.att.reset(new absorption(R.chance(0.3) ? 0 : R.logu(1e-9, 3e-7), R.chance(0.5) ? 0 : R.uni(-1.5e-4, 1e-3)));
    attenuation_model::csptr att = q.att;
    q.ocean.reset(new ocean_model(surf, bot, constant ? profile_model::csptr(new profile_linear(s.c, att)) : s.o.speed.model(att)));
    q.f.reset(R.chance(0.6) ? (seq_vector*)new seq_linear(1000., 1., (size_t)1) : new seq_linear(500., 700., (size_t)3));
    q.de.reset(new seq_linear(q.de0, s.dde / D, q.nde));
    q.az.reset(new seq_linear(q.az0, q.daz, q.naz));
    std::vector<double> v;
    for (auto& t : q.tg) { v.push_back(t.TH * ref::Re()); v.push_back(t.z); v.push_back(t.az); }
    C.in("speed", constant ? MSG("constant " << s.c) : s.o.speed.text()).in("depth", depth).in("z0", s.z0).in("lat", q.src.lat).in("lon", q.src.lon).in("dt", s.dt).in("de0", q.de0).in("dde", s.dde / D).in("nde", q.nde).in("az0", q.az0).in("daz", q.daz).in("naz", q.naz).in("tmax", s.tmax).inv("targets (range, depth, azimuth)", v);
    return q;
}
static void run(wave_queue& w, double tmax) { while (w.time() < tmax) w.step(); }
struct Path { double de; Hit h; };
static std::vector<Path> paths(Setup& q, const Target& t) {
    std::vector<Path> out;
    Scene& s = q.s;
    double lo = (q.de0 + s.dde / D) * D, hi = (q.de0 + (q.nde - 2) * s.dde / D) * D, step = s.constant ? 0.02 * D : s.dde / 4;
    Hit a = s.hit(lo, t.TH);
    for (double e = lo; e + step < hi; e += step) {
        Hit b = s.hit(e + step, t.TH);
        if (a.ok && b.ok && a.ns == b.ns && a.nb == b.nb && a.z != t.z && (a.z - t.z) * (b.z - t.z) <= 0) {
            double l = e, h = e + step;
            Hit x = a;
            if (s.constant)
                for (int i = 0; i < 50; ++i) { double m = (l + h) / 2; x = s.hit(m, t.TH); ((x.z - t.z) * (a.z - t.z) > 0 ? l : h) = m; }
            else {
                double za = a.z - t.z, zb = b.z - t.z;
                for (int i = 0; i < 8 && h - l > 1e-7; ++i) { double m = l + (h - l) * std::min(0.98, std::max(0.02, za / (za - zb))); x = s.hit(m, t.TH); double zx = x.z - t.z; if (zx * za > 0) l = m, za = zx; else h = m, zb = zx; l = l; if (std::fabs(zx) < 1e-4) { l = h = m; break; } }
            }
            x = s.hit(l, t.TH);
            out.push_back({l, x});
        }
        a = b;
    }
    return out;
}
