// Reference rays in an ocean that does not change with range: ray equations in the vertical
// plane of a spherical earth, integrated far more finely than the library does.
#pragma once
#include <usml/ocean/ocean.h>
#include <usml/types/types.h>
#include <cmath>
#include <vector>
namespace ref {
using namespace usml::types;
using namespace usml::ocean;
static const double RAD = M_PI / 180;
inline double Re() { return wposition::earth_radius; }
struct Place { double lat, lon; };
// great circle from a place
inline Place travel(Place p, double angle, double bearing, double* arrive = nullptr) {
    long double d = angle, la = p.lat * (long double)M_PIl / 180, lo = p.lon * (long double)M_PIl / 180;
    long double n[3] = {-sinl(la) * cosl(lo), -sinl(la) * sinl(lo), cosl(la)}, e[3] = {-sinl(lo), cosl(lo), 0}, r[3] = {cosl(la) * cosl(lo), cosl(la) * sinl(lo), sinl(la)}, o[3], v[3];
    for (int i = 0; i < 3; ++i) {
        long double h = n[i] * cosl(bearing) + e[i] * sinl(bearing);
        o[i] = r[i] * cosl(d) + sinl(d) * h;
        v[i] = -r[i] * sinl(d) + cosl(d) * h;
    }
    long double la2 = atan2l(o[2], hypotl(o[0], o[1])), lo2 = atan2l(o[1], o[0]);
    if (arrive) {
        long double N = -sinl(la2) * cosl(lo2) * v[0] - sinl(la2) * sinl(lo2) * v[1] + cosl(la2) * v[2];
        long double E = -sinl(lo2) * v[0] + cosl(lo2) * v[1];
        *arrive = (double)atan2l(E, N);
    }
    return {(double)(la2 * 180 / M_PIl), (double)(lo2 * 180 / M_PIl)};
}
inline double angle_between(Place a, Place b) {
    long double la = a.lat * RAD, lb = b.lat * RAD, dl = (b.lon - a.lon) * RAD;
    return (double)(2 * asinl(std::min(1.0L, sqrtl(sinl((lb - la) / 2) * sinl((lb - la) / 2) + cosl(la) * cosl(lb) * sinl(dl / 2) * sinl(dl / 2)))));
}
inline double bearing(Place a, Place b) {
    long double la = a.lat * RAD, lb = b.lat * RAD, dl = (b.lon - a.lon) * RAD;
    return (double)atan2l(sinl(dl) * cosl(lb), cosl(la) * sinl(lb) - sinl(la) * cosl(lb) * cosl(dl));
}
// sound speed against depth
struct Speed {
    int form = 0;  // 0 linear, 1 n2, 2 munk
    double c0 = 1500, g = 0, axis = 1300, scale = 1300, eps = 7.37e-3;
    double c(double z, double* dz = nullptr) const {
        double v, d;
        if (form == 0) { v = c0 + g * z; d = g; }
        else if (form == 1) { double f = 2 * g / c0; v = c0 / std::sqrt(1 + z * f); d = -0.5 * f * c0 * std::pow(1 + z * f, -1.5); }
        else { double u = 2 * (z - axis) / scale; v = c0 * (1 + eps * (u - 1 + std::exp(-u))); d = c0 * eps * (1 - std::exp(-u)) * 2 / scale; }
        if (dz) *dz = d;
        return v;
    }
    profile_model::csptr model(const attenuation_model::csptr& att) const {
        if (form == 0) return profile_model::csptr(new profile_linear(c0, g, att));
        if (form == 1) return profile_model::csptr(new profile_n2(c0, g, att));
        return profile_model::csptr(new profile_munk(axis, scale, c0, eps, att));
    }
    std::string text() const {
        char b[160];
        snprintf(b, sizeof b, form == 0 ? "linear %.3f %.5f" : form == 1 ? "n2 %.3f %.5f" : "munk %.3f axis %.1f scale %.1f eps %.3g", c0, form == 2 ? axis : g, scale, eps);
        return b;
    }
};
struct Ocean1D {
    Speed speed;
    double depth = 1000;
    std::vector<double> layers;  // depths
};
struct State { double z, th, e, s, t; };  // depth, range angle, elevation (up positive), path length, time
enum Kind { BOTTOM, SURFACE, LAYER, UPPER, LOWER };
struct Event { Kind kind; int layer; State at; double grazing; int surface, bottom, upper, lower; double dz; };  // counts before the event
struct Ray {
    std::vector<State> path;   // every dt
    std::vector<Event> events;
    double certain;            // time up to which the order and kind of events is beyond doubt
};
inline State deriv(const Speed& sp, const State& x) {
    double d, c = sp.c(x.z, &d), r = Re() - x.z;
    // dc/dr = -dc/dz
    return {-c * std::sin(x.e), c * std::cos(x.e) / r, std::cos(x.e) * (c / r + d), c, 1};
}
inline State add(const State& a, const State& b, double h) { return {a.z + h * b.z, a.th + h * b.th, a.e + h * b.e, a.s + h * b.s, a.t + h * b.t}; }
inline State rk4(const Speed& sp, const State& x, double h) {
    State k1 = deriv(sp, x), k2 = deriv(sp, add(x, k1, h / 2)), k3 = deriv(sp, add(x, k2, h / 2)), k4 = deriv(sp, add(x, k3, h));
    State y = x;
    y.z += h / 6 * (k1.z + 2 * k2.z + 2 * k3.z + k4.z);
    y.th += h / 6 * (k1.th + 2 * k2.th + 2 * k3.th + k4.th);
    y.e += h / 6 * (k1.e + 2 * k2.e + 2 * k3.e + k4.e);
    y.s += h / 6 * (k1.s + 2 * k2.s + 2 * k3.s + k4.s);
    y.t += h;
    return y;
}
// fold elevation of steep rays into -90..90 is not needed: a ray plane passes the vertical only through the earth centre
// trace for a time, with a sample at every multiple of dt (sub steps in between);
// near: how close (m) to an interface a vertex may come, or how small a grazing angle may be, before the outcome is in doubt
inline Ray trace(const Ocean1D& o, double z0, double e0, double tmax, double dt, int sub, double near_m = 2, double near_g = 0.003) {
    Ray R;
    R.certain = 1e30;
    State x{z0, 0, e0, 0, 0};
    R.path.push_back(x);
    int ns = 0, nb = 0, nu = 0, nl = 0;
    double h = dt / sub;
    long steps = (long)std::llround(tmax / dt);
    auto doubt = [&](double t) { if (t < R.certain) R.certain = t; };
    for (long k = 0; k < steps; ++k) {
        for (int j = 0; j < sub; ++j) {
            double left = h;
            for (int guard = 0; left > 0 && guard < 50; ++guard) {
                State y = rk4(o.speed, x, left);
                // first event in this sub step
                Kind kind = BOTTOM;
                int layer = -1;
                double best = 2;
                auto cross = [&](auto f, Kind K, int L) {  // f goes from <=0 (or anything) to >0
                    double a = 0, b = left;
                    if (!(f(y) > 0)) return;
                    for (int i = 0; i < 60; ++i) { double m = (a + b) / 2; (f(rk4(o.speed, x, m)) > 0 ? b : a) = m; }
                    if (b / left < best) { best = b / left; kind = K; layer = L; }
                };
                cross([&](const State& s) { return -s.z; }, SURFACE, -1);
                cross([&](const State& s) { return s.z - o.depth; }, BOTTOM, -1);
                for (size_t i = 0; i < o.layers.size(); ++i) {
                    double Z = o.layers[i];
                    if (x.z < Z - 1e-9) cross([&](const State& s) { return s.z - Z; }, LAYER, (int)i);
                    else if (x.z > Z + 1e-9) cross([&](const State& s) { return Z - s.z; }, LAYER, (int)i);
                }
                if (x.e < 0) cross([&](const State& s) { return s.e; }, LOWER, -1);
                else if (x.e > 0) cross([&](const State& s) { return -s.e; }, UPPER, -1);
                if (best > 1) { x = y; break; }
                double used = best * left;
                x = rk4(o.speed, x, used);
                left -= used;
                Event ev{kind, layer, x, std::fabs(x.e), ns, nb, nu, nl, 0};
                if (kind == SURFACE || kind == BOTTOM || kind == LAYER) {
                    if (ev.grazing < near_g) doubt(x.t);
                } else {
                    double gap = std::min(x.z, o.depth - x.z);
                    for (double Z : o.layers) gap = std::min(gap, std::fabs(x.z - Z));
                    if (gap < near_m) doubt(x.t);
                }
                R.events.push_back(ev);
                if (kind == SURFACE) { x.z = 0; x.e = -x.e; if (x.e > 0) x.e = -1e-12; ++ns; }
                else if (kind == BOTTOM) { x.z = o.depth; x.e = -x.e; if (x.e < 0) x.e = 1e-12; ++nb; }
                else if (kind == LAYER) { double Z = o.layers[layer]; x.z = x.e > 0 ? Z - 2e-9 : Z + 2e-9; }
                else if (kind == UPPER) { ++nu; x.e = -1e-14; }
                else { ++nl; x.e = 1e-14; }
                if (left < 1e-13) break;
            }
        }
        x.t = (k + 1) * dt;
        R.path.push_back(x);
    }
    return R;
}
}  // namespace ref
