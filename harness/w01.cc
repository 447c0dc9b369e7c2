// W01: positions and vectors.  Reference: Cartesian coordinates in long double
// and textbook spherical trigonometry.
#include <usml/types/types.h>
#include "vt.h"
using namespace usml::types;
using boost::numeric::ublas::matrix;
typedef long double L;
struct V3 { L x, y, z; };
static V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static L dot3(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static V3 cross3(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static L len(V3 a) { return sqrtl(dot3(a, a)); }
static V3 cart(const wvector1& w) {
    L t = w.theta(), p = w.phi(), r = w.rho();
    return {r * sinl(t) * cosl(p), r * sinl(t) * sinl(p), r * cosl(t)};
}
static const L PIL = acosl(-1.0L);
struct Geo { double lat, lng, alt; };
static Geo rgeo(Rng& R) {
    Geo g;
    g.lat = R.chance(0.25) ? R.pick({0.0, 90.0, -90.0, 45.0, -45.0, 1e-9, 89.999999, -89.9999, 89.99}) : R.uni(-90, 90);
    g.lng = R.chance(0.25) ? R.pick({0.0, 180.0, -180.0, 359.9999, 360.0, 90.0, -179.9999, 179.9999}) : R.uni(-180, 360);
    g.alt = R.chance(0.3) ? 0.0 : R.uni(-11000, 9000);
    return g;
}
static Geo near_geo(Rng& R, Geo a) {
    double d = R.logu(1e-9, 3);
    Geo g = a;
    g.lat = std::max(-90.0, std::min(90.0, a.lat + R.uni(-d, d)));
    g.lng = a.lng + R.uni(-d, d);
    if (R.chance(0.5)) g.alt = a.alt + R.uni(-100, 100);
    if (R.chance(0.1)) g.lng += 360;
    return g;
}

int main(int argc, char** argv) {
    vt::init(argc, argv);
    vt::section("convert", 4000, [&](Case& C, Rng& R) {
        Geo g = rgeo(R);
        C.in("lat", g.lat).in("lng", g.lng).in("alt", g.alt);
        wposition1 p(g.lat, g.lng, g.alt);
        NEAR(p.latitude(), g.lat, 1e-11, "lat", "latitude");
        NEAR(p.longitude(), g.lng, 1e-11, "lng", "longitude");
        NEAR(p.altitude(), g.alt, 1e-8, "alt", "altitude");
        NEAR(p.theta(), (double)((90.0L - g.lat) * PIL / 180), 1e-14, "theta", "theta");
        NEAR(p.phi(), (double)(g.lng * PIL / 180), 1e-14, "phi", "phi");
        NEARR(p.rho(), wposition::earth_radius + g.alt, 1e-15, 0, "rho", "rho");
        // setters change one coordinate only
        Geo h = rgeo(R);
        wposition1 q(p);
        q.latitude(h.lat);
        CHECK(q.phi() == p.phi() && q.rho() == p.rho(), "set.lat", "latitude changed something else");
        q.longitude(h.lng);
        CHECK(q.rho() == p.rho(), "set.lng", "longitude changed the altitude");
        NEAR(q.latitude(), h.lat, 1e-11, "set.lat2", "latitude after longitude");
        q.altitude(h.alt);
        NEAR(q.latitude(), h.lat, 1e-11, "set.all", "latitude");
        NEAR(q.longitude(), h.lng, 1e-11, "set.all", "longitude");
        NEAR(q.altitude(), h.alt, 1e-8, "set.all", "altitude");
        wposition1 d;
        CHECK(d.altitude() == 0.0, "default", "default altitude " << d.altitude());
        NEAR(d.latitude(), 0, 1e-12, "default", "default latitude");
    });
    vt::section("matrix_form", 400, [&](Case& C, Rng& R) {
        size_t n = R.in(1, 5), m = R.in(1, 6);
        Geo g = rgeo(R);
        C.in("n", n).in("m", m).in("lat", g.lat).in("lng", g.lng).in("alt", g.alt);
        wposition w(n, m, g.lat, g.lng, g.alt);
        CHECK(w.size1() == n && w.size2() == m, "m.size", "size " << w.size1() << "x" << w.size2());
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) {
            NEAR(w.latitude(i, j), g.lat, 1e-11, "m.ctor", "latitude");
            NEAR(w.longitude(i, j), g.lng, 1e-11, "m.ctor", "longitude");
            NEAR(w.altitude(i, j), g.alt, 1e-8, "m.ctor", "altitude");
        }
        std::vector<Geo> gs(n * m);
        matrix<double> la(n, m), ln(n, m), al(n, m);
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) { Geo q = rgeo(R); gs[i * m + j] = q; la(i, j) = q.lat; ln(i, j) = q.lng; al(i, j) = q.alt; }
        bool alias = R.chance(0.5);
        if (R.chance(0.5)) { w.latitude(la, alias); w.longitude(ln, alias); w.altitude(al, alias); }
        else for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) { w.latitude(i, j, la(i, j)); w.longitude(i, j, ln(i, j)); w.altitude(i, j, al(i, j)); }
        matrix<double> ola = w.latitude(), oln = w.longitude(), oal = w.altitude();
        wposition cp(w), cv((const wvector&)w);
        Geo og = R.chance(0.3) ? near_geo(R, gs[0]) : rgeo(R);
        wposition1 o(og.lat, og.lng, og.alt);
        matrix<double> D(n, m), N(n, m), S(n, m), S2(n, m);
        w.dot(o, D); w.dotnorm(o, N); w.distance(o, S); w.distance2(o, S2);
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) {
            Geo q = gs[i * m + j];
            wposition1 p(q.lat, q.lng, q.alt), x(w, i, j);
            CHECK(vt::near(p.rho(), w.rho(i, j), 1e-8) && vt::near(p.theta(), w.theta(i, j), 1e-13) && vt::near(p.phi(), w.phi(i, j), 1e-13), "m.set", "element " << i << "," << j);
            CHECK(x.rho() == w.rho(i, j) && x.theta() == w.theta(i, j) && x.phi() == w.phi(i, j), "m.extract", "element " << i << "," << j);
            wvector1 y(w, i, j);
            CHECK(y.rho() == w.rho(i, j) && y.theta() == w.theta(i, j) && y.phi() == w.phi(i, j), "m.extractv", "element " << i << "," << j);
            NEAR(ola(i, j), q.lat, 1e-11, "m.get", "latitude matrix");
            NEAR(oln(i, j), q.lng, 1e-11, "m.get", "longitude matrix");
            NEAR(oal(i, j), q.alt, 1e-8, "m.get", "altitude matrix");
            CHECK(cp.rho(i, j) == w.rho(i, j) && cv.theta(i, j) == w.theta(i, j) && cp.phi(i, j) == w.phi(i, j), "m.copy", "copy");
            NEARR(D(i, j), p.dot(o), 1e-12, 1e-1, "m.dot", "dot");
            NEAR(N(i, j), p.dotnorm(o), 1e-13, "m.dotnorm", "dotnorm");
            NEARR(S2(i, j), p.distance2(o), 1e-10, 0.2, "m.distance2", "distance2");
            NEARR(S(i, j), std::sqrt(S2(i, j)), 1e-12, 0, "m.distance", "distance");
        }
        wposition one(o);
        CHECK(one.size1() == 1 && one.rho(0, 0) == o.rho() && one.theta(0, 0) == o.theta() && one.phi(0, 0) == o.phi(), "m.from1", "matrix of one position");
        // grid of latitudes x longitudes
        boost::numeric::ublas::vector<double> va(n), vb(m);
        for (size_t i = 0; i < n; ++i) va[i] = gs[i * m].lat;
        for (size_t j = 0; j < m; ++j) vb[j] = gs[j].lng;
        wposition gr(va, vb, og.alt);
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) {
            NEAR(gr.latitude(i, j), va[i], 1e-11, "m.grid", "latitude");
            NEAR(gr.longitude(i, j), vb[j], 1e-11, "m.grid", "longitude");
            NEAR(gr.altitude(i, j), og.alt, 1e-8, "m.grid", "altitude");
        }
    });
    vt::section("dot_distance", 4000, [&](Case& C, Rng& R) {
        Geo a = rgeo(R), b = R.chance(0.4) ? near_geo(R, a) : rgeo(R);
        C.in("lat1", a.lat).in("lng1", a.lng).in("alt1", a.alt).in("lat2", b.lat).in("lng2", b.lng).in("alt2", b.alt);
        wposition1 p(a.lat, a.lng, a.alt), q(b.lat, b.lng, b.alt);
        V3 P = cart(p), Q = cart(q);
        L d2 = dot3(P - Q, P - Q);
        NEARR(p.dot(q), (double)dot3(P, Q), 1e-13, 0.05, "dot", "dot");
        NEAR(p.dotnorm(q), (double)(dot3(P, Q) / len(P) / len(Q)), 1e-14, "dotnorm", "dotnorm");
        NEARR(p.distance2(q), (double)d2, 1e-12, 0.1, "distance2", "distance2");
        NEARR(p.distance(q), (double)sqrtl(d2), 1e-12, 0.1 / std::max(0.3, (double)sqrtl(d2)), "distance", "distance");
        CHECK(p.distance(q) >= 0, "distance.neg", "distance " << p.distance(q));
        CHECK(vt::near(p.distance2(q), q.distance2(p), 0.1), "distance.sym", "distances " << p.distance2(q) << " " << q.distance2(p));
        CHECK(p.distance(p) < 0.35, "distance.self", "distance to itself " << p.distance(p));
    });
    vt::section("great_circle", 6000, [&](Case& C, Rng& R) {
        Geo a = rgeo(R), b = R.chance(0.4) ? near_geo(R, a) : rgeo(R);
        if (R.chance(0.05)) { b.lat = -a.lat; b.lng = a.lng + 180; }
        C.in("lat1", a.lat).in("lng1", a.lng).in("alt1", a.alt).in("lat2", b.lat).in("lng2", b.lng);
        wposition1 p(a.lat, a.lng, a.alt), q(b.lat, b.lng, b.alt);
        double brg = -1, rng = p.gc_range(q, &brg);
        V3 P = cart(wvector1(1, p.theta(), p.phi())), Q = cart(wvector1(1, q.theta(), q.phi()));
        L ang = atan2l(len(cross3(P, Q)), dot3(P, Q));
        double Rp = p.rho();
        CHECK(std::isfinite(rng) && rng >= 0, "gc.finite", "range " << rng);
        // the haversine loses digits close to the antipode
        double tol = 1e-15 / std::max(1e-8, (double)cosl(ang / 2)) + 1e-15 / std::max(1e-9, (double)ang) * 0 + 1e-13 * (double)ang;
        NEAR(rng / Rp, (double)ang, tol + 1e-14, "gc.range", "range (radians)");
        NEARR(p.gc_range(q), rng, 0, 0, "gc.range_only", "range without bearing");
        double rq = q.gc_range(p) / q.rho();
        NEAR(rq, (double)ang, tol + 1e-14, "gc.symmetric", "reverse range (radians)");
        CHECK(brg >= -1e-12 && brg < 2 * M_PI + 1e-9, "gc.bearing_limits", "bearing " << brg);
        // starting points on the equator have their own place in the record:
        // there the bearing is due north (or due south) for every destination
        bool eq = std::fabs(p.latitude() * M_PI / 180) < 1e-10 && (brg == 0.0 || brg == M_PI);
        std::string suffix = eq ? "_equator" : "";
        // bearing from the local north and east components
        double cl = std::cos(a.lat * M_PI / 180);
        if (ang > 1e-11 && (double)(PIL - ang) > 1e-6 && cl > 1e-7) {
            L t = p.theta(), f = p.phi();
            V3 N = {-cosl(t) * cosl(f), -cosl(t) * sinl(f), sinl(t)}, E = {-sinl(f), cosl(f), 0};
            L n = dot3(Q, N), e = dot3(Q, E);
            double want = (double)atan2l(e, n), diff = std::remainder(brg - want, 2 * M_PI);
            double btol = 1e-14 / (double)std::min(sinl(ang), 1.0L) + 1e-10 + 1e-14 / cl;
            vt::obs("bearings");
            CHECK(std::fabs(diff) < btol, "gc.bearing" + suffix, "bearing " << brg << " want " << want << " diff " << diff);
        } else if (cl < 1e-13 && ang > 1e-9 && (double)(PIL - ang) > 1e-6) {
            NEAR(std::fabs(std::remainder(brg, 2 * M_PI)), a.lat > 0 ? M_PI : 0.0, 1e-9, "gc.pole", "bearing from pole");
        }
        // travelling that range on that bearing ends at the other point
        if ((double)(PIL - ang) > 1e-4 && ang > 1e-10 && (cl > 1e-5 || cl < 1e-13)) {
            wposition1 r(p, rng, brg);
            NEAR(r.altitude(), a.alt, 1e-8, "gc.travel_alt", "altitude after travel");
            V3 T = cart(wvector1(1, r.theta(), r.phi()));
            double miss = (double)len(T - Q);
            if (cl < 1e-13) {  // from a pole only the latitude is determined
                NEAR(r.latitude(), b.lat, 1e-5, "gc.travel_pole", "latitude after travel from pole");
            } else {
                // positions close to a pole lose digits in the latitude (asin)
                double lim = 1e-9 + 1e-15 / std::max(1e-9, std::cos(b.lat * M_PI / 180)) + 1e-10 / cl * 0;
                if (std::cos(b.lat * M_PI / 180) < 1e-4) lim = 3e-8;
                CHECK(miss < lim, "gc.travel" + suffix, "travel of " << rng << " on " << brg << " misses by " << miss << " radians");
                vt::obs("travels");
            }
        }
    });
    vt::section("travel", 3000, [&](Case& C, Rng& R) {
        Geo a = rgeo(R);
        if (std::fabs(a.lat) > 89.9) a.lat = R.uni(-89, 89);
        double ang = R.chance(0.5) ? R.logu(1e-6, 3) : R.uni(0, 3), b = R.chance(0.3) ? R.pick({0.0, M_PI / 2, M_PI, 3 * M_PI / 2}) : R.uni(-7, 7);
        wposition1 p(a.lat, a.lng, a.alt);
        double range = ang * p.rho();
        C.in("lat", a.lat).in("lng", a.lng).in("alt", a.alt).in("range", range).in("bearing", b);
        wposition1 q(p, range, b);
        L t = p.theta(), f = p.phi();
        V3 P = cart(wvector1(1, p.theta(), p.phi()));
        V3 N = {-cosl(t) * cosl(f), -cosl(t) * sinl(f), sinl(t)}, E = {-sinl(f), cosl(f), 0};
        V3 W = {P.x * cosl(ang) + (N.x * cosl(b) + E.x * sinl(b)) * sinl(ang), P.y * cosl(ang) + (N.y * cosl(b) + E.y * sinl(b)) * sinl(ang), P.z * cosl(ang) + (N.z * cosl(b) + E.z * sinl(b)) * sinl(ang)};
        double miss = (double)len(cart(wvector1(1, q.theta(), q.phi())) - W);
        CHECK(miss < 1e-9 + (std::fabs(q.latitude()) > 89.99 ? 3e-8 : 0), "travel.end", "misses by " << miss << " radians");
        NEAR(q.altitude(), a.alt, 1e-8, "travel.alt", "altitude");
    });
    vt::section("directions", 3000, [&](Case& C, Rng& R) {
        // local direction vector (up, south, east) to angles
        double de = R.uni(-90, 90), az = R.uni(-180, 180), s = R.logu(1e-3, 1e3);
        C.in("de", de).in("az", az).in("s", s);
        double d = de * M_PI / 180, a = az * M_PI / 180;
        wvector1 v(s * std::sin(d), -s * std::cos(d) * std::cos(a), s * std::cos(d) * std::sin(a));
        double od, oa;
        v.direction(&od, &oa);
        NEAR(od, de, 1e-6, "dir.de", "elevation");
        if (std::fabs(de) < 89.99) NEAR(std::remainder(oa - az, 360), 0, 1e-8, "dir.az", "azimuth");
        // direction from a position to a point
        Geo g1 = rgeo(R), g2 = rgeo(R);
        C.in("lat1", g1.lat).in("lng1", g1.lng).in("lat2", g2.lat).in("lng2", g2.lng);
        wposition1 p(g1.lat, g1.lng, g1.alt), q(g2.lat, g2.lng, g2.alt);
        V3 P = cart(p), Q = cart(q), Dv = Q - P;
        if ((double)len(Dv) > 10) {
            wvector1 u;
            double length = u.direction(p, q);
            L t = p.theta(), f = p.phi();
            V3 U = {sinl(t) * cosl(f), sinl(t) * sinl(f), cosl(t)}, Sth = {cosl(t) * cosl(f), cosl(t) * sinl(f), -sinl(t)}, E = {-sinl(f), cosl(f), 0};
            L n = len(Dv);
            NEARR(length, (double)n, 1e-9, 0, "dir.length", "length");
            NEAR(u.rho(), (double)(dot3(Dv, U) / n), 1e-8, "dir.to", "up component");
            NEAR(u.theta(), (double)(dot3(Dv, Sth) / n), 1e-8, "dir.to", "south component");
            NEAR(u.phi(), (double)(dot3(Dv, E) / n), 1e-8, "dir.to", "east component");
            // and back: the direction in the geocentric frame
            wvector1 gdir;
            u.direction(p, &gdir);
            V3 G = cart(gdir);
            CHECK((double)len(G - V3{Dv.x / n, Dv.y / n, Dv.z / n}) < 1e-8, "dir.back", "geocentric direction differs by " << (double)len(G - V3{Dv.x / n, Dv.y / n, Dv.z / n}));
        }
    });
    vt::section("area", 3000, [&](Case& C, Rng& R) {
        Geo a = rgeo(R);
        if (std::fabs(a.lat) > 80) a.lat = R.uni(-80, 80);
        a.alt = R.uni(-4000, 0);
        double size = R.logu(3, 1e5), e = size / 111e3;
        Geo g[4];
        g[0] = a;
        int kind = (int)R.in(0, 3);
        for (int i = 1; i < 4; ++i) {
            g[i] = a;
            double x = i == 1 ? 1 : i == 2 ? 1 : 0, y = i == 1 ? 0 : 1;
            if (kind == 1) { x = R.uni(-1, 1); y = R.uni(-1, 1); }
            if (kind == 2) y = 0;                    // in line
            if (kind == 3 && R.chance(0.5)) x = y = 0;  // coincident
            g[i].lat += x * e; g[i].lng += y * e;
            if (kind == 1) g[i].alt += R.uni(-1, 1) * size;
        }
        wposition1 p[4];
        for (int i = 0; i < 4; ++i) p[i] = wposition1(g[i].lat, g[i].lng, g[i].alt);
        C.in("kind", kind).in("lat", a.lat).in("lng", a.lng).in("size", size);
        auto tri = [&](int i, int j, int k) { return 0.5L * len(cross3(cart(p[j]) - cart(p[i]), cart(p[k]) - cart(p[i]))); };
        double t3 = p[0].area(p[1], p[2]), t4 = p[0].area(p[1], p[2], p[3]);
        // distances carry an absolute error of about 0.1 m^2 / distance
        double tol = 1e-6 * size * size + 3 * size + 1;
        if (kind == 2 || kind == 3) tol = 2 * size * std::sqrt(0.3) + 1e-3 * size * size;
        CHECK(std::isfinite(t3) && t3 >= 0 && std::isfinite(t4) && t4 >= 0, "area.finite", "areas " << t3 << " " << t4);
        if (size > 100) {
            NEAR(t3, (double)tri(0, 1, 2), tol, "area.3", "triangle");
            NEAR(t4, (double)(tri(0, 1, 2) + tri(0, 2, 3)), 2 * tol, "area.4", "quadrilateral");
        }
    });
    vt::section("earth_radius", 40, [&](Case& C, Rng& R) {
        double lat = R.uni(-90, 90), keep = wposition::earth_radius;
        C.in("lat", lat);
        CHECK(keep == 6371000.0, "radius.default", "default radius " << keep);
        wposition::compute_earth_radius(lat);
        double got = wposition::earth_radius;
        wposition1 p(10, 20, -30);
        NEAR(p.rho(), got - 30, 1e-8, "radius.used", "radius not used");
        wposition::earth_radius = keep;
        L a = 6378137.0L, f = 1 / 298.257223563L, e2 = f * (2 - f), s = sinl(lat * PIL / 180), w = sqrtl(1 - e2 * s * s);
        NEARR(got, (double)sqrtl(a * (1 - e2) / (w * w * w) * a / w), 1e-12, 0, "radius", "Gaussian radius");
    });
    return vt::finish();
}
