// B01: heights and normals of boundaries, depths of layers, text bathymetry.
#include <usml/ocean/ocean.h>
#include <usml/types/types.h>
#include "vt.h"
using namespace usml::ocean;
using namespace usml::types;
using boost::numeric::ublas::matrix;
typedef boost::numeric::ublas::vector<double> dv;
static double E() { return wposition::earth_radius; }
static void unit(Case& C, const wvector1& n, double sign) {
    double len = std::sqrt(n.rho() * n.rho() + n.theta() * n.theta() + n.phi() * n.phi());
    NEAR(len, 1, 1e-9, "normal.unit", n.rho() << " " << n.theta() << " " << n.phi());
    CHECK(n.rho() * sign > 0, "normal.side", "vertical component " << n.rho());
}
// many points at once against one at a time; returns nothing, fills keys
static void many(Case& C, Rng& R, const boundary_model& b, const std::function<wposition1()>& at) {
    size_t n = R.in(1, 5), m = R.in(1, 5);
    wposition p(n, m);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) { auto q = at(); p.rho(i, j, q.rho()); p.theta(i, j, q.theta()); p.phi(i, j, q.phi()); }
    wposition keep = p;
    matrix<double> h(n, m), h2(n, m);
    wvector v(n, m);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) h(i, j) = R.uni(-9, 9), v.rho(i, j, 3), v.theta(i, j, -2), v.phi(i, j, 5);
    b.height(p, &h, &v);
    b.height(p, &h2);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) {
        double r = 0, r2 = 0;
        wvector1 w(1, 2, 3);
        b.height(wposition1(p, i, j), &r, &w);
        b.height(wposition1(p, i, j), &r2);
        NEARR(h(i, j), r, 1e-13, 0, "many.height", "row " << i << " column " << j);
        CHECK(vt::near(v.rho(i, j), w.rho(), 1e-9) && vt::near(v.theta(i, j), w.theta(), 1e-9) && vt::near(v.phi(i, j), w.phi(), 1e-9), "many.normal",
              v.rho(i, j) << "," << v.theta(i, j) << "," << v.phi(i, j) << " alone " << w.rho() << "," << w.theta() << "," << w.phi());
        CHECK(vt::near(h2(i, j), r, 1e-6) && vt::near(r2, r, 1e-6), "optional_normal", "height changes when the normal is not asked for: " << h2(i, j) << " " << r2 << " " << r);
        CHECK(p.rho(i, j) == keep.rho(i, j) && p.theta(i, j) == keep.theta(i, j) && p.phi(i, j) == keep.phi(i, j), "location_changed", "");
        vt::obs("points");
    }
}
static wposition1 anywhere(Rng& R) { return wposition1(R.uni(-85, 85), R.uni(-180, 180), -R.uni(0, 8000)); }
// slope of the heights around a point, by differences over d radians
static void slope(const boundary_model& b, const wposition1& p, double d, double& st, double& sp) {
    double h[5], r;
    auto at = [&](double dt, double dp) { wposition1 q(p); q.theta(p.theta() + dt); q.phi(p.phi() + dp); b.height(q, &r); return r; };
    h[0] = at(0, 0); h[1] = at(d, 0); h[2] = at(-d, 0); h[3] = at(0, d); h[4] = at(0, -d);
    st = (h[1] - h[2]) / (2 * d) / h[0];
    sp = (h[3] - h[4]) / (2 * d) / (h[0] * std::sin(p.theta()));
}
static seq_vector::csptr axis(Rng& R, double lo, double hi, size_t n) {
    bool up = R.chance(0.7);
    if (R.chance(0.6)) { double d = (hi - lo) / (n - 1); return seq_vector::csptr(up ? new seq_linear(lo, d, (int)n) : new seq_linear(hi, -d, (int)n)); }
    std::vector<double> v;
    for (size_t i = 0; i < n; ++i) v.push_back(lo + (hi - lo) * (i + (i && i + 1 < n ? R.uni(-0.35, 0.35) : 0)) / (n - 1));
    if (!up) std::reverse(v.begin(), v.end());
    return seq_vector::csptr(new seq_data(v.data(), v.size()));
}

int main(int argc, char** argv) {
    vt::init(argc, argv);
    vt::section("flat", 4000, [&](Case& C, Rng& R) {
        double d = R.chance(0.3) ? 0 : R.uni(1, 8000);
        bool neg = R.chance(0.5), custom = R.chance(0.4);
        C.in("depth", d).in("negative", neg);
        reflect_loss_model::csptr loss(custom ? new reflect_loss_constant(2.5, 0.5) : nullptr);
        boundary_flat b(neg ? -d : d, loss);
        auto p = anywhere(R);
        double r;
        wvector1 n;
        b.height(p, &r, &n);
        NEAR(r, E() - d, 1e-6, "flat.height", "");
        unit(C, n, d == 0 ? -1 : 1);
        CHECK(n.theta() == 0 && n.phi() == 0, "flat.normal", n.theta());
        many(C, R, b, [&] { return anywhere(R); });
        double f = 1000;
        dv a(1), ph(1);
        b.reflect_loss(p, seq_vector::csptr(new seq_data(&f, 1)), 0.4, &a, &ph);
        CHECK(a[0] == (custom ? 2.5 : 0) && vt::near(ph[0], custom ? 0.5 : d == 0 ? M_PI : 0, 1e-12), "flat.default_loss", a[0] << " " << ph[0]);
    });
    vt::section("slope", 4000, [&](Case& C, Rng& R) {
        double lat = R.uni(-75, 75), lon = R.uni(-180, 180), d = R.uni(0, 6000), sa = R.chance(0.2) ? 0 : R.uni(-0.3, 0.3), sb = R.chance(0.4) ? 0 : R.uni(-0.3, 0.3);
        C.in("lat", lat).in("lon", lon).in("depth", d).in("lat_slope", sa).in("lon_slope", sb);
        std::unique_ptr<boundary_slope> b;
        {   // the location belongs to the caller and may be gone afterwards
            std::unique_ptr<wposition1> ref(new wposition1(lat, lon, 0));
            b.reset(new boundary_slope(*ref, d, sa, sb));
            ref->latitude(lat / 2); ref->longitude(lon / 3);
        }
        auto p = wposition1(lat + R.uni(-2, 2), lon + R.uni(-2, 2), -100);
        wposition1 ref(lat, lon, 0);
        double r;
        wvector1 n;
        b->height(p, &r, &n);
        double want = (E() - d) * (1 + std::sin(ref.theta()) * std::tan(sb) * (p.phi() - ref.phi())) * (1 - std::tan(sa) * (p.theta() - ref.theta()));
        NEAR(r, want, 1e-5, "slope.height", "");
        unit(C, n, 1);
        b->height(ref, &r, &n);
        NEAR(r, E() - d, 1e-6, "slope.reference", "");
        NEAR(n.theta(), std::sin(sa), 1e-9, "slope.normal", "latitude direction");
        NEAR(n.phi(), -std::sin(sb), 1e-9, "slope.normal", "longitude direction");
        double st, sp;
        slope(*b, ref, 1e-5, st, sp);
        double tol = 1e-6 + 1.2 * (std::fabs(sa) * sb * sb + std::fabs(sb) * sa * sa);  // constant angles, not exact when both slopes are steep
        NEAR(n.theta() / n.rho(), -st, tol, "slope.perpendicular", "latitude direction");
        NEAR(n.phi() / n.rho(), -sp, tol, "slope.perpendicular", "longitude direction");
        many(C, R, *b, [&] { return wposition1(lat + R.uni(-2, 2), lon + R.uni(-2, 2), -R.uni(0, 5000)); });
    });
    vt::section("grid", 2500, [&](Case& C, Rng& R) {
        size_t n0 = R.in(4, 8), n1 = R.in(4, 8);
        double ta = R.uni(0.3, 2.6), pa = R.uni(-3, 2.8), w = R.logu(0.003, 0.2);
        bool fast = R.chance(0.4);
        std::string kind = fast ? "bathy" : R.chance(0.5) ? "pchip" : "linear";
        seq_vector::csptr ax[2];
        if (fast) {
            ax[0].reset(new seq_linear(ta, w / n0, (int)n0)); ax[1].reset(new seq_linear(pa, w / n1, (int)n1));
        } else { ax[0] = axis(R, ta, ta + w, n0); ax[1] = axis(R, pa, pa + w, n1); }
        auto g = std::make_shared<gen_grid<2>>(ax);
        double d0 = R.uni(100, 4000), rough = R.chance(0.2) ? 0 : R.uni(1, 0.4 * d0);
        for (size_t i = 0; i < n0; ++i) for (size_t j = 0; j < n1; ++j) { size_t k[2] = {i, j}; g->setdata(k, E() - d0 - R.uni(-rough, rough)); }
        for (int k = 0; k < 2; ++k) g->interp_type(k, kind == "linear" ? interp_enum::linear : interp_enum::pchip), g->edge_limit(k, true);
        data_grid<2>::csptr dg = g;
        if (fast) dg.reset(new data_grid_bathy(dg));
        C.in("kind", kind).in("theta", ta).in("phi", pa).in("width", w).in("n0", n0).in("n1", n1).in("depth", d0).in("rough", rough);
        boundary_grid<2> b(dg);
        double t0 = std::min((*ax[0])[0], (*ax[0])[n0 - 1]), t1 = std::max((*ax[0])[0], (*ax[0])[n0 - 1]), p0 = std::min((*ax[1])[0], (*ax[1])[n1 - 1]), p1 = std::max((*ax[1])[0], (*ax[1])[n1 - 1]);
        for (int q = 0; q < 4; ++q) {  // stored depths come back at their places
            size_t i = R.in(0, n0 - 1), j = R.in(0, n1 - 1), k[2] = {i, j};
            wposition1 p;
            p.rho(E()); p.theta((*ax[0])[i]); p.phi((*ax[1])[j]);
            double r;
            b.height(p, &r);
            NEAR(r, g->data(k), 1e-4, "grid.node", "node " << i << "," << j);
        }
        for (int q = 0; q < 4; ++q) {
            wposition1 p;
            p.rho(E()); p.theta(R.uni(t0, t1)); p.phi(R.uni(p0, p1));
            double r, st, sp, fd = 1e-5 * w;
            // differences must not straddle a grid line
            bool skip = false;
            for (double x : *ax[0]) skip = skip || std::fabs(p.theta() - x) < 3 * fd;
            for (double x : *ax[1]) skip = skip || std::fabs(p.phi() - x) < 3 * fd;
            if (skip) continue;
            wvector1 n;
            b.height(p, &r, &n);
            unit(C, n, 1);
            slope(b, p, fd, st, sp);
            double tol = 2e-4 * (1 + std::fabs(st) + std::fabs(sp)) + 1e-8 / fd / 1e3;
            if (kind != "pchip") {  // the blended node slopes of the general cubic grid are checked by G01
                NEAR(n.theta() / n.rho(), -st, tol, MSG("grid.slope." << kind), "colatitude direction");
                NEAR(n.phi() / n.rho(), -sp, tol, MSG("grid.slope." << kind), "longitude direction");
            } else {
                double loc[2] = {p.theta(), p.phi()}, gr[2], v = dg->interpolate(loc, gr);
                NEAR(n.theta() / n.rho(), -gr[0] / v, 1e-9, "grid.gradient", "colatitude direction");
                NEAR(n.phi() / n.rho(), -gr[1] / (v * std::sin(p.theta())), 1e-9, "grid.gradient", "longitude direction");
            }
            vt::obs("slopes");
        }
        many(C, R, b, [&] { wposition1 p; p.rho(E() - 50); p.theta(R.uni(t0 - w / 5, t1 + w / 5)); p.phi(R.uni(p0 - w / 5, p1 + w / 5)); return p; });
        double f = 500;
        dv a(1), c(1);
        seq_vector::csptr fr(new seq_data(&f, 1));
        b.reflect_loss(anywhere(R), fr, 0.3, &a);
        reflect_loss_rayleigh(bottom_type_enum::sand).reflect_loss(anywhere(R), fr, 0.3, &c);
        CHECK(a[0] == c[0], "grid.default_loss", a[0] << " want that of sand " << c[0]);
    });
    vt::section("grid1", 1500, [&](Case& C, Rng& R) {  // depth depends on latitude only
        size_t n = R.in(3, 8);
        double ta = R.uni(0.3, 2.6), w = R.logu(0.003, 0.2), d0 = R.uni(100, 4000), rough = R.uni(1, 0.4 * d0);
        seq_vector::csptr ax[1] = {axis(R, ta, ta + w, n)};
        auto g = std::make_shared<gen_grid<1>>(ax);
        for (size_t i = 0; i < n; ++i) { size_t k[1] = {i}; g->setdata(k, E() - d0 - R.uni(-rough, rough)); }
        bool lin = R.chance(0.5);
        g->interp_type(0, lin ? interp_enum::linear : interp_enum::pchip); g->edge_limit(0, true);
        C.in("linear", lin).in("theta", ta).in("width", w).in("n", n);
        boundary_grid<1> b(g);
        wposition1 p;
        p.rho(E()); p.theta(R.uni(ta, ta + w)); p.phi(R.uni(-3, 3));
        double r, gr[1], loc[1] = {p.theta()};
        wvector1 v;
        b.height(p, &r, &v);
        unit(C, v, 1);
        double h = g->interpolate(loc, gr);
        NEAR(r, h, 1e-9, "grid1.height", "");
        NEAR(v.theta() / v.rho(), -gr[0] / h, 1e-9, "grid1.slope", "");
        CHECK(v.phi() == 0, "grid1.slope", "longitude direction " << v.phi());
        many(C, R, b, [&] { wposition1 q; q.rho(E() - 50); q.theta(R.uni(ta - w / 5, ta + w * 1.2)); q.phi(R.uni(-3, 3)); return q; });
    });
    vt::section("layer", 1500, [&](Case& C, Rng& R) {
        double d = R.uni(0, 6000), t = R.uni(0, 900);
        bool neg = R.chance(0.3);
        C.in("depth", d).in("thickness", t).in("negative", neg);
        volume_flat v(neg ? -d : d, t, -40);
        size_t n = R.in(1, 4), m = R.in(1, 4);
        wposition p(n, m, R.uni(-80, 80), R.uni(-180, 180), -R.uni(0, 4000));
        matrix<double> r(n, m), th(n, m), r2(n, m);
        v.depth(p, &r, &th);
        v.depth(p, &r2);
        double a, b;
        v.depth(wposition1(p, 0, 0), &a, &b);
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) {
            NEAR(r(i, j), E() - d, 1e-6, "layer.depth", i);
            CHECK(th(i, j) == t && a == r(i, j) && b == t && r2(i, j) == a, "layer.thickness", th(i, j));
        }
    });
    vt::section("defaults", 300, [&](Case& C, Rng& R) {
        double d = R.uni(1, 6000), sa = R.uni(-0.3, 0.3), lat = R.uni(-75, 75), lon = R.uni(-180, 180);
        C.in("d", d).in("slope", sa).in("lat", lat).in("lon", lon);
        auto p = anywhere(R);
        double a, b = 1, r;
        volume_flat v0, v1(d);
        v0.depth(p, &a, &b);
        CHECK(vt::near(a, E(), 1e-6) && b == 0, "defaults.layer", a - E() << " thickness " << b);
        v1.depth(p, &a, &b);
        CHECK(vt::near(a, E() - d, 1e-6) && b == 0, "defaults.layer", a - E() << " thickness " << b);
        boundary_flat f0;
        wvector1 n, n2;
        f0.height(p, &r, &n);
        CHECK(vt::near(r, E(), 1e-6) && n.rho() == -1, "defaults.flat", r - E());
        wposition1 ref(lat, lon), q(lat + R.uni(-3, 3), lon + R.uni(-3, 3));
        boundary_slope s0(ref, d, sa), s1(ref, d, sa, 0.0);
        double x, y;
        s0.height(q, &x, &n);
        s1.height(q, &y, &n2);
        CHECK(x == y && n.theta() == n2.theta() && n.phi() == n2.phi() && n.rho() == n2.rho(), "defaults.slope", x - y);
        // no loss and no scattering where none was configured
        double fr = 1000;
        auto f = seq_vector::csptr(new seq_data(&fr, 1));
        dv l(1, 9.0), ph(1, 9.0), sc(1, 9.0);
        s0.reflect_loss(q, f, 0.4, &l, &ph);
        CHECK(l[0] == 0 && ph[0] == 0, "defaults.loss", l[0] << " " << ph[0]);
        const scattering_model* quiet[] = {&s0, &f0, &v0, &v1};
        scattering_constant none;
        for (auto* m : {(const scattering_model*)&none, quiet[0], quiet[1], quiet[2], quiet[3]}) {
            sc[0] = 9;
            m->scattering(q, f, 0.3, 0.4, 0, 1, &sc);
            NEARR(sc[0], 1e-30, 1e-9, 0, "defaults.scattering", sc[0]);
        }
        vt::obs("defaults");
    });
    vt::section("text", 600, [&](Case& C, Rng& R) {
        size_t nr = R.in(2, 9), nc = R.in(2, 9);
        double x = std::round(R.uni(-180, 170) * 1e4) / 1e4, y = std::round(R.uni(-85, 75) * 1e4) / 1e4, cell = R.pick({0.25, 0.5, 0.1, 0.0125, 1.0});
        std::string name = vt::S().scratch + "/b.asc";
        std::vector<double> z(nr * nc);
        for (auto& v : z) v = std::round(-R.uni(-50, 6000) * 10) / 10;
        int bad = R.chance(0.25) ? R.in(1, 4) : 0;
        C.in("rows", nr).in("columns", nc).in("x", x).in("y", y).in("cell", cell).in("malformed", bad);
        {
            std::ofstream o(name);
            o.precision(12);
            const char* nl = R.chance(0.2) ? "\r\n" : "\n";
            size_t stop = bad == 1 ? R.in(0, nr * nc - 1) : nr * nc;
            if (bad == 2) o << (R.chance(0.5) ? "" : "something else entirely\n");
            else {
                o << (R.chance(0.1) ? std::string(R.in(79, 300), 'N') : "NCOLS") << "   " << nc << nl << "NROWS  ";
                if (bad == 3) o << "many" << nl; else if (bad == 4) o << 0 << nl; else o << nr << nl;
                o << "XLLCENTER " << x << nl << "YLLCENTER " << y << nl << "CELLSIZE " << cell << nl << "NODATA_VALUE 999999" << nl;
                for (size_t i = 0; i < stop; ++i) o << "  " << z[i] << ((i + 1) % nc ? "" : nl);
            }
        }
        if (bad) {
            bool threw = false;
            try { ascii_arc_bathy b(name.c_str()); } catch (std::exception&) { threw = true; }
            CHECK(threw, "text.malformed", "accepted a malformed file");
            vt::obs("malformed_files");
            threw = false;
            try { ascii_arc_bathy b((name + ".none").c_str()); } catch (std::exception&) { threw = true; }
            CHECK(threw, "text.missing", "accepted a file that does not exist");
            return;
        }
        auto* g = new ascii_arc_bathy(name.c_str());
        data_grid<2>::csptr dg(g);
        boundary_grid<2> b(dg);
        for (int q = 0; q < 12; ++q) {
            size_t i = R.in(0, nr - 1), j = R.in(0, nc - 1);
            wposition1 p(y + cell * (nr - 1 - i), 0, 0);  // the first row is the northern one
            p.phi((x + cell * j) * M_PI / 180);
            double r;
            b.height(p, &r);
            NEAR(r - E(), z[i * nc + j], 0.01, "text.sample", "row " << i << " column " << j);
            size_t k[2] = {i, j};
            NEAR(g->data(k) - E(), z[i * nc + j], 1e-6, "text.data", "row " << i << " column " << j);
            vt::obs("text_samples");
        }
        CHECK(g->axis(0).size() == nr && g->axis(1).size() == nc, "text.size", g->axis(0).size());
        std::remove(name.c_str());
    });
    return vt::finish();
}
