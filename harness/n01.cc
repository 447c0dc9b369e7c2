// N01: gridded ocean data files, written here through the plain netCDF interface and read by the library.
#include <netcdf.h>
#include <usml/netcdf/netcdf_files.h>
#include <usml/ocean/ocean.h>
#include <usml/types/types.h>
#include <fstream>
#include "vt.h"
using namespace usml::netcdf;
using namespace usml::ocean;
using namespace usml::types;
static const double D = M_PI / 180;
static std::string dir;
#define NC(x) do { int e_ = (x); if (e_) { fprintf(stderr, "harness netcdf error %s line %d\n", nc_strerror(e_), __LINE__); abort(); } } while (0)
struct Writer {
    int id;
    std::map<std::string, int> dims;
    Writer(Rng& R, const std::string& name) { NC(nc_create(name.c_str(), R.chance(0.3) ? NC_NETCDF4 : R.chance(0.5) ? NC_64BIT_OFFSET : 0, &id)); }
    int dim(const std::string& n, size_t l) { int d; NC(nc_def_dim(id, n.c_str(), l, &d)); return dims[n] = d; }
    int var(const std::string& n, nc_type t, std::vector<std::string> ds) { std::vector<int> d; for (auto& x : ds) d.push_back(dims[x]); int v; NC(nc_def_var(id, n.c_str(), t, (int)d.size(), d.data(), &v)); return v; }
    void att(int v, const char* n, double x, nc_type t = NC_DOUBLE) { NC(nc_put_att_double(id, v, n, t, 1, &x)); }
    void def() { NC(nc_enddef(id)); }
    void put(int v, const std::vector<double>& x) { NC(nc_put_var_double(id, v, x.data())); }
    void close() { NC(nc_close(id)); }
};
// horizontal layout of a file and a region of it
struct Layout {
    std::vector<double> lat, lon;  // stored
    bool global = false, dup = false;
    size_t period = 0;
    double dlat, dlon;
    nc_type type = NC_DOUBLE;
    double south, north, west, east;
    double eps;
};
static Layout layout(Case& C, Rng& R, bool outside = false) {
    Layout L;
    L.type = R.chance(0.25) ? NC_FLOAT : NC_DOUBLE;
    L.global = R.chance(0.6);
    size_t n;
    double first;
    if (L.global) {
        L.period = (size_t)R.pick({12, 24, 36, 72, 90, 180, 360, 400});
        L.dlon = 360.0 / (double)L.period;
        bool neg = R.chance(0.5), half = R.chance(0.5);
        first = (neg ? -180 : 0) + (half ? L.dlon / 2 : 0);
        L.dup = !half && R.chance(0.5);
        n = L.period + L.dup;
    } else {
        L.dlon = R.pick({0.25, 0.5, 1.0, 2.0, 1.0 / 3});
        n = (size_t)R.in(3, 60);
        // one of the two ways to write a longitude
        first = R.chance(0.5) ? R.uni(-180, 179) : R.uni(0, 359);
        if (R.chance(0.3)) first = R.pick({-10., -5., 170., 175., 180., -180., 0., 350., 190.});
        if (R.chance(0.5)) first = std::round(first);
    }
    for (size_t i = 0; i < n; ++i) L.lon.push_back(first + L.dlon * (double)i);
    L.dlat = R.pick({0.5, 1.0, 2.0, 5.0});
    if (R.chance(0.3)) { bool half = R.chance(0.5); for (double y = -90 + (half ? L.dlat / 2 : 0); y <= 90; y += L.dlat) L.lat.push_back(y); }
    else { double y = R.uni(-85, 60); if (R.chance(0.5)) y = std::round(y); int m = R.in(2, 30); for (int i = 0; i < m && y <= 90; ++i, y += L.dlat) L.lat.push_back(y); }
    if (L.type == NC_FLOAT) { for (auto& x : L.lat) x = (float)x; for (auto& x : L.lon) x = (float)x; }
    L.eps = L.type == NC_FLOAT ? 2e-4 : 1e-7;
    // latitudes of the region
    double lo = L.lat.front(), hi = L.lat.back();
    auto edge = [&](double a, double b, double step) { double v = R.uni(a, b); if (L.type == NC_DOUBLE && R.chance(0.3)) v = a + step * std::round((v - a) / step); return v; };
    double a = edge(lo, hi, L.dlat), b = edge(lo, hi, L.dlat);
    L.south = std::min(a, b); L.north = std::max(a, b);
    if (R.chance(0.2)) L.south = lo - R.uni(0, 20);
    if (R.chance(0.2)) L.north = hi + R.uni(0, 20);
    // longitudes: pick where, then how to say it
    double w, e;
    if (L.global && R.chance(0.2)) { w = R.pick({0., -180.}); e = w + 360; }
    else {
        if (L.global) { w = edge(L.lon.front(), L.lon.front() + 360, L.dlon); e = w + (R.chance(0.2) ? R.uni(100, 300) : R.uni(0.1, 60)); if (R.chance(0.3)) e = w + L.dlon * std::round((e - w) / L.dlon); }
        else {
            double p = edge(L.lon.front(), L.lon.back(), L.dlon), q = edge(L.lon.front(), L.lon.back(), L.dlon);
            w = std::min(p, q); e = std::max(p, q);
            if (R.chance(0.2)) w = L.lon.front() - R.uni(0, 30);
            if (R.chance(0.2)) e = L.lon.back() + R.uni(0, 30);
            if (outside) { double g = R.uni(2, 40) + L.dlon; w = L.lon.back() + g; e = w + R.uni(1, 40); }
        }
        // documented conventions: spanning 0 -> west negative, spanning 180 -> both positive, otherwise as you like
        double k = 360 * std::floor((w + 180) / 360);
        w -= k; e -= k;              // west in -180..180
        bool zero = w < 0 && e > 0, date = e > 180;
        if (date && zero) { if (R.chance(0.5)) w += 360, e += 360; }  // both, any
        else if (date) ;
        else if (!zero && w < 0 && R.chance(0.5)) w += 360, e += 360;
    }
    L.west = w; L.east = e;
    C.in("lat0", lo).in("nlat", L.lat.size()).in("dlat", L.dlat).in("lon0", L.lon.front()).in("nlon", n).in("dlon", L.dlon).in("global", L.global).in("repeated", L.dup).in("float", L.type == NC_FLOAT).in("south", L.south).in("north", L.north).in("west", L.west).in("east", L.east);
    return L;
}
// stored points that are inside of the region, by row and by column (with the longitude they have there)
static std::vector<size_t> rows(const Layout& L) { std::vector<size_t> r; for (size_t i = 0; i < L.lat.size(); ++i) if (L.lat[i] >= L.south && L.lat[i] <= L.north) r.push_back(i); return r; }
static std::vector<std::pair<size_t, double>> cols(const Layout& L) {
    std::vector<std::pair<size_t, double>> r;
    for (size_t i = 0; i < L.lon.size(); ++i)
        for (int k = -2; k <= 2; ++k) { double x = L.lon[i] + 360 * k; if (x >= L.west && x <= L.east) r.push_back({i, x}); }
    return r;
}
static long at(const seq_vector& ax, double v, double tol) { long best = -1; double d = tol; for (size_t i = 0; i < ax.size(); ++i) if (std::fabs(ax(i) - v) <= d) best = (long)i, d = std::fabs(ax(i) - v); return best; }
// the axes of what was read
static bool axes(Case& C, const Layout& L, const seq_vector& lat, const seq_vector& lon, std::vector<long>& r, std::vector<long>& c) {
    r.assign(lat.size(), -1); c.assign(lon.size(), -1);
    const double tol = L.type == NC_FLOAT ? 1e-4 * D : 1e-9;
    for (size_t i = 0; i < lat.size(); ++i) {
        double y = 90 - lat(i) / D;
        for (size_t k = 0; k < L.lat.size(); ++k) if (std::fabs(L.lat[k] - y) < tol / D * 10) r[i] = (long)k;
        CHECK(r[i] >= 0, "latitude_axis", "latitude " << y << " is not in the file");
        CHECK(y > L.south - 1.01 * L.dlat && y < L.north + 1.01 * L.dlat, "latitude_excess", "latitude " << y << " is far outside of the region");
        if (r[i] < 0) return false;
    }
    for (size_t i = 0; i < lon.size(); ++i) {
        double x = lon(i) / D;
        for (size_t k = 0; k < L.lon.size(); ++k) if (std::fabs(std::remainder(L.lon[k] - x, 360)) < tol / D * 10) c[i] = (long)k;
        CHECK(c[i] >= 0, "longitude_axis", "longitude " << x << " is not in the file");
        CHECK(x > L.west - 1.01 * L.dlon && x < L.east + 1.01 * L.dlon, "longitude_excess", "longitude " << x << " is far outside of the region " << L.west << " to " << L.east);
        if (c[i] < 0) return false;
    }
    for (size_t k : rows(L)) CHECK(at(lat, (90 - L.lat[k]) * D, tol * 10) >= 0, "latitude_lost", "stored latitude " << L.lat[k] << " is inside of the region, and was not read");
    for (auto& k : cols(L)) CHECK(at(lon, k.second * D, tol * 10) >= 0, "longitude_lost", "stored longitude " << L.lon[k.first] << " is inside of the region at " << k.second << ", and was not read");
    return true;
}
static std::vector<double> noise(Rng& R, size_t n, double a, double b, bool whole = false) { std::vector<double> v(n); for (auto& x : v) { x = R.uni(a, b); if (whole) x = std::round(x); } return v; }

int main(int argc, char** argv) {
    vt::init(argc, argv);
    dir = vt::S().scratch + "/";
    vt::section("bathymetry", 700, [&](Case& C, Rng& R) {
        bool outside = R.chance(0.08);
        Layout L = layout(C, R, outside);
        const std::string name = dir + "bathy.nc";
        nc_type type = R.pick({NC_DOUBLE, NC_FLOAT, NC_SHORT, NC_INT});
        auto z = noise(R, L.lat.size() * L.lon.size(), -9000, 3000, true);
        if (L.dup) for (size_t i = 0; i < L.lat.size(); ++i) z[i * L.lon.size() + L.period] = z[i * L.lon.size()];
        Writer W(R, name);
        bool xy = R.chance(0.5);
        std::string la = xy ? "y" : "lat", lo = xy ? "x" : "lon";
        W.dim(lo, L.lon.size()); W.dim(la, L.lat.size());
        int v1 = W.var(lo, L.type, {lo}), v2 = W.var(la, L.type, {la}), v3 = W.var(R.chance(0.5) ? "z" : "altitude", type, {la, lo});
        W.def(); W.put(v1, L.lon); W.put(v2, L.lat); W.put(v3, z); W.close();
        double radius = R.chance(0.3) ? 0 : R.chance(0.5) ? wposition::earth_radius : R.uni(6.3e6, 6.4e6);
        std::unique_ptr<netcdf_bathy> b;
        bool empty = cols(L).empty() || rows(L).empty();
        try {
            if (radius == wposition::earth_radius) b.reset(new netcdf_bathy(name.c_str(), L.south, L.north, L.west, L.east));
            else b.reset(new netcdf_bathy(name.c_str(), L.south, L.north, L.west, L.east, radius));
        } catch (const std::exception& e) {
            vt::obs("refused");
            CHECK(empty, "refused", "region with " << rows(L).size() << " stored latitudes and " << cols(L).size() << " stored longitudes: " << e.what());
            return;
        }
        if (outside && !L.global && cols(L).empty()) { CHECK(b->axis(1).size() > 0, "outside", "a region outside of the file gives an empty grid"); return; }
        std::vector<long> r, c;
        if (!axes(C, L, b->axis(0), b->axis(1), r, c)) return;
        for (size_t i = 0; i < r.size(); ++i) for (size_t j = 0; j < c.size(); ++j) {
            size_t idx[2] = {i, j};
            vt::obs("samples");
            double want = z[(size_t)r[i] * L.lon.size() + (size_t)c[j]] + radius;
            if (std::fabs(b->data(idx) - want) > 1e-9 * (1 + radius)) { C.fail("bathy_value", MSG("lat " << L.lat[(size_t)r[i]] << " lon " << b->axis(1)(j) / D << ": " << b->data(idx) - radius << " instead of " << want - radius)); return; }
        }
        if (r.size() > 1 && c.size() > 1)
            for (int q = 0; q < 5; ++q) {
                size_t i = R.in(0, (int)r.size() - 1), j = R.in(0, (int)c.size() - 1);
                double loc[2] = {b->axis(0)(i), b->axis(1)(j)}, want = z[(size_t)r[i] * L.lon.size() + (size_t)c[j]] + radius;
                NEAR(b->interpolate(loc), want, 1e-3, "bathy_interpolate", "interpolating at a stored place");
            }
    });
    vt::section("profiles", 500, [&](Case& C, Rng& R) {
        Layout L = layout(C, R);
        const std::string name = dir + "profile.nc";
        size_t nt = R.in(1, 12), nz = R.in(1, 8), nh = L.lat.size() * L.lon.size();
        if (nh * nz * nt > 200000) nt = 1, nz = 2;
        std::vector<double> t, z;
        double x = R.uni(0, 30);
        for (size_t i = 0; i < nt; ++i) t.push_back(x), x += R.uni(0.2, 40);
        x = R.chance(0.5) ? 0 : R.uni(0, 20);
        for (size_t i = 0; i < nz; ++i) z.push_back(x), x += R.uni(1, 500);
        bool packed = R.chance(0.5);
        nc_type type = packed ? NC_SHORT : R.pick({NC_DOUBLE, NC_FLOAT});
        int scaling = packed ? R.in(0, 3) : R.chance(0.1) ? R.in(1, 3) : 0;   // 1 scale, 2 offset, 3 both
        double sc = R.uni(1e-3, 0.1), of = R.uni(-10, 1500);
        double missing = packed ? -32767 : R.pick({-9999., 1e20});
        bool holes = R.chance(0.5), two = R.chance(0.3);
        auto v = noise(R, nt * nz * nh, packed ? -30000 : 0, packed ? 30000 : 40, packed);
        if (type == NC_FLOAT) for (auto& y : v) y = (float)y;
        auto other = noise(R, nt * nz * nh, 100, 200);
        if (holes) for (auto& y : v) if (R.chance(0.2)) y = missing;
        if (L.dup) for (size_t i = 0; i < v.size(); i += L.lon.size()) v[i + L.period] = v[i];
        Writer W(R, name);
        W.dim("time", nt); W.dim("depth", nz); W.dim("lat", L.lat.size()); W.dim("lon", L.lon.size());
        int vt_ = W.var("time", NC_DOUBLE, {"time"}), vz = W.var("depth", R.chance(0.5) ? NC_DOUBLE : NC_DOUBLE, {"depth"}), vy = W.var("lat", L.type, {"lat"}), vx = W.var("lon", L.type, {"lon"});
        int vo = two ? W.var("salinity", NC_DOUBLE, {"time", "depth", "lat", "lon"}) : -1;
        int vv = W.var("Water_Temp", type, {"time", "depth", "lat", "lon"});
        if (holes) W.att(vv, "_FillValue", missing, type);
        if (scaling & 1) W.att(vv, "scale_factor", sc);
        if (scaling & 2) W.att(vv, "add_offset", of);
        W.def(); W.put(vt_, t); W.put(vz, z); W.put(vy, L.lat); W.put(vx, L.lon); W.put(vv, v);
        if (two) W.put(vo, other);
        W.close();
        double date = R.uni(-10, t.back() + 20);
        if (R.chance(0.3)) date = t[(size_t)R.in(0, (int)nt - 1)];
        size_t ti = 0, tie = 0;
        double best = 1e30, second = 1e30;
        for (size_t i = 0; i < nt; ++i) { double d = std::fabs(date - t[i]); if (d < best) second = best, best = d, ti = i; else if (d < second) second = d, tie = i; }
        (void)tie;
        if (second - best < 1e-9) date = t[ti];
        C.in("times", nt).in("depths", nz).in("scaling", scaling).in("holes", holes).in("packed", packed).in("date", date);
        bool empty = cols(L).empty() || rows(L).empty();
        std::unique_ptr<netcdf_profile> p;
        const char* var = two ? R.pick({"temp", "TEMP", "water_temp"}) : nullptr;
        try { p.reset(new netcdf_profile(name.c_str(), date, L.south, L.north, L.west, L.east, var)); }
        catch (const std::exception& e) { vt::obs("refused"); CHECK(empty, "refused", "region with " << rows(L).size() << " stored latitudes and " << cols(L).size() << " stored longitudes: " << e.what()); return; }
        CHECK(p->axis(0).size() == nz, "depth_axis", "number of depths");
        if (p->axis(0).size() != nz) return;
        for (size_t k = 0; k < nz; ++k) NEAR(wposition::earth_radius - p->axis(0)(k), z[k], 1e-6, "depth_axis", "depth " << k);
        std::vector<long> r, c;
        if (!axes(C, L, p->axis(1), p->axis(2), r, c)) return;
        for (size_t k = 0; k < nz; ++k) for (size_t i = 0; i < r.size(); ++i) for (size_t j = 0; j < c.size(); ++j) {
            size_t idx[3] = {k, i, j};
            double raw = v[((ti * nz + k) * L.lat.size() + (size_t)r[i]) * L.lon.size() + (size_t)c[j]];
            double want = holes && raw == missing ? NAN : raw * (scaling & 1 ? sc : 1) + (scaling & 2 ? of : 0), got = p->data(idx);
            vt::obs(std::isnan(want) ? "missing samples" : "samples");
            if (std::isnan(want) ? !std::isnan(got) : !(std::fabs(got - want) <= 1e-9 * (1 + std::fabs(want)))) { C.fail("profile_value", MSG("depth " << z[k] << " lat " << L.lat[(size_t)r[i]] << " lon " << p->axis(2)(j) / D << " raw " << raw << ": " << got << " instead of " << want)); return; }
        }
        const size_t* q = nullptr; (void)q;
    });
    // missing values
    auto profile_file = [&](Rng& R, const std::string& name, const std::vector<double>& z, const std::vector<double>& lat, const std::vector<double>& lon, const std::vector<double>& v, std::vector<double> times = {15}) {
        Writer W(R, name);
        W.dim("time", times.size()); W.dim("depth", z.size()); W.dim("lat", lat.size()); W.dim("lon", lon.size());
        int a = W.var("time", NC_DOUBLE, {"time"}), b = W.var("depth", NC_DOUBLE, {"depth"}), c = W.var("lat", NC_DOUBLE, {"lat"}), d = W.var("lon", NC_DOUBLE, {"lon"}), e = W.var("t_an", NC_DOUBLE, {"time", "depth", "lat", "lon"});
        W.att(e, "_FillValue", -1e9);
        W.def(); W.put(a, times); W.put(b, z); W.put(c, lat); W.put(d, lon); W.put(e, v); W.close();
    };
    auto filled = [](Case& C, const std::vector<double>& z, size_t ny, size_t nx, const std::vector<double>& raw, const data_grid<3>& g, bool holes) {
        size_t nz = z.size();
        auto R_ = [&](size_t k, size_t i, size_t j) { double x = raw[(k * ny + i) * nx + j]; return x == -1e9 ? NAN : x; };
        auto G = [&](size_t k, size_t i, size_t j) { size_t q[3] = {k, i, j}; return g.data(q); };
        size_t deep = 0;
        for (size_t k = 0; k < nz; ++k) for (size_t i = 0; i < ny; ++i) for (size_t j = 0; j < nx; ++j) if (!std::isnan(R_(k, i, j))) deep = k;
        for (size_t k = 0; k < nz; ++k) {
            double lo = 1e30, hi = -1e30;
            for (size_t i = 0; i < ny; ++i) for (size_t j = 0; j < nx; ++j) {
                double x = R_(k, i, j);
                if (k) x = (x - R_(k - 1, i, j)) / (z[k] - z[k - 1]);
                if (!std::isnan(x)) lo = std::min(lo, x), hi = std::max(hi, x);
            }
            for (size_t i = 0; i < ny; ++i) for (size_t j = 0; j < nx; ++j) {
                double got = G(k, i, j), x = R_(k, i, j);
                std::string where = MSG("depth " << z[k] << " row " << i << " column " << j << ": ");
                if (!std::isfinite(got)) { C.fail("fill_finite", where + "not a number after filling"); return; }
                if (!std::isnan(x)) { vt::obs("kept"); if (got != x) { C.fail("fill_changed", MSG(where << "valid value " << x << " became " << got)); return; } continue; }
                double grad = k ? (got - G(k - 1, i, j)) / (z[k] - z[k - 1]) : got;
                if (k <= deep) {
                    vt::obs(k ? "gradient filled" : "surface filled");
                    double tol = 1e-6 * (1 + std::max(std::fabs(lo), std::fabs(hi)));
                    if (grad < lo - tol || grad > hi + tol) { C.fail(k ? "fill_gradient" : "fill_surface", MSG(where << "filled with a " << (k ? "gradient" : "value") << " of " << grad << ", valid ones are " << lo << " to " << hi)); return; }
                } else {
                    vt::obs("extrapolated");
                    double above = k > 1 ? (G(k - 1, i, j) - G(k - 2, i, j)) / (z[k - 1] - z[k - 2]) : 0;
                    if (holes && k == deep + 1) continue;
                    if (std::fabs(grad - above / 2) > 1e-6 * (1 + std::fabs(above))) { C.fail("fill_taper", MSG(where << "gradient " << grad << " below one of " << above)); return; }
                }
            }
        }
    };
    vt::section("fill", 300, [&](Case& C, Rng& R) {
        size_t nz = R.in(1, 8), ny = R.in(2, 7), nx = R.in(2, 7), deep = R.in(0, (int)nz - 1);
        std::vector<double> z, lat, lon;
        double x = 0;
        for (size_t i = 0; i < nz; ++i) z.push_back(x), x += R.uni(5, 500);
        for (size_t i = 0; i < ny; ++i) lat.push_back(10.0 + (double)i);
        for (size_t i = 0; i < nx; ++i) lon.push_back(100.0 + (double)i);
        bool holes = R.chance(0.3), same = R.chance(0.3);
        std::vector<double> v(nz * ny * nx), base(nz);
        for (auto& q : base) q = R.uni(0, 30);
        size_t fi = R.in(0, (int)ny - 1), fj = R.in(0, (int)nx - 1);
        double land = R.uni(0, 0.9);
        for (size_t i = 0; i < ny; ++i) for (size_t j = 0; j < nx; ++j) {
            size_t bottom = (i == fi && j == fj) ? deep + 1 : R.chance(land) ? (size_t)R.in(0, (int)deep + 1) : deep + 1;
            for (size_t k = 0; k < nz; ++k) {
                double& q = v[(k * ny + i) * nx + j];
                q = k < bottom ? (same ? base[k] : R.uni(0, 30)) : -1e9;
                if (holes && (i != fi || j != fj) && R.chance(0.1)) q = -1e9;
            }
        }
        C.in("depths", nz).in("rows", ny).in("cols", nx).in("deepest", deep).in("holes", holes).in("same", same).inv("values", v);
        const std::string name = dir + "fill.nc";
        profile_file(R, name, z, lat, lon, v);
        netcdf_profile p(name.c_str(), 15, lat[0], lat.back(), lon[0], lon.back());
        CHECK(p.axis(1).size() == ny && p.axis(2).size() == nx, "fill_size", "size");
        if (p.axis(1).size() != ny || p.axis(2).size() != nx) return;
        p.fill_missing();
        filled(C, z, ny, nx, v, p, holes);
        if (same && !holes)
            for (size_t k = 0; k <= deep; ++k) for (size_t i = 0; i < ny; ++i) for (size_t j = 0; j < nx; ++j) { size_t q[3] = {k, i, j}; NEAR(p.data(q), base[k], 1e-6, "fill_same", "filling an ocean that is the same everywhere"); }
    });
    vt::section("fill near", 60, [&](Case& C, Rng& R) {
        // two valid columns: missing ones take more from the nearer
        size_t nx = R.in(4, 9);
        std::vector<double> v(2 * nx, -1e9), lat = {0, 1}, lon, z = {0};
        for (size_t i = 0; i < nx; ++i) lon.push_back((double)i);
        size_t r = R.in(0, 1);
        v[r * nx] = 0; v[r * nx + nx - 1] = 1;
        C.in("columns", nx).in("row", r);
        const std::string name = dir + "near.nc";
        profile_file(R, name, z, lat, lon, v);
        netcdf_profile p(name.c_str(), 15, 0, 1, 0, (double)nx - 1);
        p.fill_missing();
        double last = -1;
        for (size_t j = 0; j < nx; ++j) {
            size_t q[3] = {0, r, j};
            double x = p.data(q);
            vt::obs("near");
            CHECK(x >= last - 1e-12, "fill_nearest", "filled values do not go from the one valid value to the other");
            double mid = (double)j - (double)(nx - 1) / 2;
            if (mid < -0.1) CHECK(x < 0.5, "fill_nearest", "column " << j << " is nearer to 0 and filled with " << x);
            if (mid > 0.1) CHECK(x > 0.5, "fill_nearest", "column " << j << " is nearer to 1 and filled with " << x);
            last = x;
        }
    });
    vt::section("woa", 120, [&](Case& C, Rng& R) {
        size_t nz = R.in(3, 9), ns = R.chance(0.15) ? nz : (size_t)R.in(1, (int)nz), ny = R.in(2, 5), nx = R.in(2, 5), dy = R.in(0, 2), dx = R.in(0, 2);
        bool extra = R.chance(0.1);
        std::vector<double> z, lat, lon, months = {15, 46, 75, 106, 136, 167, 197, 228, 259, 289, 320, 350}, seasons = {46, 136, 228, 320};
        if (R.chance(0.3)) seasons = {182};
        double x = 0;
        for (size_t i = 0; i < nz + 2; ++i) z.push_back(x), x += R.uni(5, 500);
        if (extra) ns = nz + 1;
        std::vector<double> zd(z.begin(), z.begin() + (long)nz), zs(z.begin(), z.begin() + (long)ns);
        for (size_t i = 0; i < ny + dy; ++i) lat.push_back(10.5 + (double)i);
        for (size_t i = 0; i < nx + dx; ++i) lon.push_back(100.5 + (double)i);
        size_t h = lat.size() * lon.size();
        auto d = noise(R, seasons.size() * nz * h, 0, 30), s = noise(R, 12 * ns * h, 0, 30);
        const std::string nd = dir + "deep.nc", nsn = dir + "shallow.nc";
        bool land = R.chance(0.4);
        size_t bad = R.in(0, (int)h - 1);
        if (land) { for (size_t q = bad; q < d.size(); q += h) d[q] = -1e9; for (size_t q = bad; q < s.size(); q += h) s[q] = -1e9; }
        profile_file(R, nd, zd, lat, lon, d, seasons); profile_file(R, nsn, zs, lat, lon, s, months);
        int month = R.in(1, 12);
        bool only = R.chance(0.2);
        C.in("deep", nz).in("shallow", ns).in("rows", lat.size()).in("cols", lon.size()).in("month", month).in("only deep", only).in("land", land);
        std::unique_ptr<netcdf_woa> w;
        try { w.reset(new netcdf_woa(nd.c_str(), only ? nullptr : nsn.c_str(), month, 10.5, 10.5 + (double)ny - 1, 100.5, 100.5 + (double)nx - 1)); }
        catch (const std::exception& e) { vt::obs("refused"); CHECK(extra && !only, "woa_refused", e.what()); return; }
        CHECK(!extra || only, "woa_extra", "a shallow file with more depths than the deep one is accepted");
        double day = std::round(30.5 * (month - 0.5));
        auto near = [&](const std::vector<double>& t) { size_t b = 0; for (size_t i = 1; i < t.size(); ++i) if (std::fabs(t[i] - day) < std::fabs(t[b] - day)) b = i; return b; };
        size_t td = near(seasons), ts = (size_t)month - 1;
        std::vector<double> raw(nz * ny * nx);
        for (size_t k = 0; k < nz; ++k) for (size_t i = 0; i < ny; ++i) for (size_t j = 0; j < nx; ++j)
            raw[(k * ny + i) * nx + j] = k < ns && !only ? s[((ts * ns + k) * lat.size() + i) * lon.size() + j] : d[((td * nz + k) * lat.size() + i) * lon.size() + j];
        CHECK(w->axis(0).size() == nz && w->axis(1).size() == ny && w->axis(2).size() == nx, "woa_size", "size");
        if (w->axis(0).size() != nz || w->axis(1).size() != ny || w->axis(2).size() != nx) return;
        for (size_t k = 0; k < raw.size(); ++k) if (raw[k] == -1e9) vt::obs("land");
        bool any = false;
        for (size_t k = 0; k < ny * nx; ++k) any = any || raw[k] != -1e9;
        if (any) filled(C, zd, ny, nx, raw, *w, false);
    });
    vt::section("coards", 150, [&](Case& C, Rng& R) {
        auto go = [&](auto dims) {
            constexpr size_t N = decltype(dims)::value;
            const std::string name = dir + "coards.nc";
            Writer W(R, name);
            std::vector<std::vector<double>> ax(N);
            std::vector<std::string> names;
            std::vector<int> ids;
            size_t total = 1;
            for (size_t k = 0; k < N; ++k) {
                size_t n = R.in(2, 6);
                int kind = R.in(0, 2);
                double x = kind == 2 ? R.uni(1, 50) : R.uni(-50, 50), step = R.uni(0.1, 5) * (R.chance(0.2) ? -1 : 1);
                for (size_t i = 0; i < n; ++i) { ax[k].push_back(x); if (kind == 0) x += step; else if (kind == 1) x += R.uni(0.1, 5) * (step > 0 ? 1 : -1); else x *= step > 0 ? 1.5 : 0.7; }
                total *= n;
                names.push_back(std::string(1, (char)('a' + k)));
                W.dim(names.back(), n);
            }
            for (size_t k = 0; k < N; ++k) ids.push_back(W.var(names[k], NC_DOUBLE, {names[k]}));
            bool miss = R.chance(0.5), fill = R.chance(0.5), readfill = R.chance(0.5);
            int v = W.var("field", NC_DOUBLE, names), other = W.var("zother", NC_DOUBLE, names);
            if (miss) W.att(v, "missing_value", -99);
            if (fill) W.att(v, "_FillValue", -7);
            auto x = noise(R, total, 0, 10), y = noise(R, total, 0, 10);
            if (miss) for (auto& q : x) if (R.chance(0.2)) q = -99;
            W.def();
            for (size_t k = 0; k < N; ++k) W.put(ids[k], ax[k]);
            W.put(v, x); W.put(other, y); W.close();
            C.in("dims", N).in("total", total).in("missing", miss).in("fill", fill).in("read_fill", readfill);
            netCDF::NcFile file(name, netCDF::NcFile::read);
            netcdf_coards<(int)N> g(file, "field", readfill);
            for (size_t k = 0; k < N; ++k) {
                CHECK(g.axis((int)k).size() == ax[k].size(), "coards_axis", "size of axis " << k);
                if (g.axis((int)k).size() != ax[k].size()) return;
                for (size_t i = 0; i < ax[k].size(); ++i) NEAR(g.axis((int)k)(i), ax[k][i], 1e-9 * (1 + std::fabs(ax[k][i])) + 1.1e-3 * std::fabs(i ? ax[k][i] - ax[k][i - 1] : 0), "coards_axis", "axis " << k << " at " << i);
            }
            for (size_t o = 0; o < total; ++o) {
                size_t i[N], q = o;
                for (size_t k = N; k-- > 0;) i[k] = q % ax[k].size(), q /= ax[k].size();
                double want = miss && x[o] == -99 ? (readfill && fill ? -7 : NAN) : x[o];
                vt::obs("coards samples");
                CHECK(vt::same(g.data(i), want), "coards_value", "sample " << o << " is " << g.data(i) << " instead of " << want);
            }
        };
        int n = R.in(1, 3);
        if (n == 1) go(std::integral_constant<size_t, 1>()); else if (n == 2) go(std::integral_constant<size_t, 2>()); else go(std::integral_constant<size_t, 3>());
    });
    vt::section("provinces", 150, [&](Case& C, Rng& R) {
        size_t ny = R.in(2, 12), nx = R.in(2, 12), nt = R.in(1, 5);
        bool order = R.chance(0.3);  // as in the documentation: longitude first
        double y0 = R.uni(-60, 40), dy = R.uni(0.1, 2), x0 = R.uni(-170, 100), dx = R.uni(0.1, 2) * (R.chance(0.3) ? -1 : 1);
        std::vector<double> lat, lon, type(ny * nx), sp, de, at, ss, sa;
        for (size_t i = 0; i < ny; ++i) lat.push_back(y0 + dy * (double)i);
        for (size_t i = 0; i < nx; ++i) lon.push_back(x0 + dx * (double)i);
        for (size_t i = 0; i < nt; ++i) sp.push_back(R.uni(1.05, 1.3)), de.push_back(R.uni(1.2, 2.4)), at.push_back(R.uni(0.01, 1)), ss.push_back(0), sa.push_back(0);
        bool bad = R.chance(0.1);
        for (auto& t : type) t = (double)R.in(0, (int)nt - 1);   // [lat][lon]
        if (bad) type[(size_t)R.in(0, (int)(ny * nx) - 1)] = R.pick({-1., (double)nt, 1e6});
        std::vector<double> stored = type;
        if (order) for (size_t i = 0; i < ny; ++i) for (size_t j = 0; j < nx; ++j) stored[j * ny + i] = type[i * nx + j];
        const std::string name = dir + "province.nc";
        Writer W(R, name);
        for (auto n : {"speed_ratio", "density_ratio", "atten", "shear_speed", "shear_atten"}) W.dim(n, nt);
        W.dim("longitude", nx); W.dim("latitude", ny);
        int v[8]; int k = 0;
        for (auto n : {"speed_ratio", "density_ratio", "atten", "shear_speed", "shear_atten"}) v[k++] = W.var(n, NC_DOUBLE, {n});
        v[5] = W.var("longitude", NC_DOUBLE, {"longitude"}); v[6] = W.var("latitude", NC_DOUBLE, {"latitude"});
        v[7] = order ? W.var("type", NC_DOUBLE, {"longitude", "latitude"}) : W.var("type", NC_DOUBLE, {"latitude", "longitude"});
        W.def(); W.put(v[0], sp); W.put(v[1], de); W.put(v[2], at); W.put(v[3], ss); W.put(v[4], sa); W.put(v[5], lon); W.put(v[6], lat); W.put(v[7], stored); W.close();
        C.in("rows", ny).in("cols", nx).in("types", nt).in("lat0", y0).in("dlat", dy).in("lon0", x0).in("dlon", dx).in("longitude first", order).in("bad type", bad);
        std::unique_ptr<reflect_loss_netcdf> m;
        try { m.reset(new reflect_loss_netcdf(name.c_str())); }
        catch (const std::exception& e) { vt::obs("refused"); CHECK(bad, "province_refused", e.what()); return; }
        CHECK(!bad, "province_type", "a province that does not exist is accepted");
        if (bad) return;
        seq_vector::csptr f(new seq_linear(1000., 1., (size_t)1));
        vector<double> a(1), p(1), b(1), c(1);
        for (int q = 0; q < 30; ++q) {
            double y = R.uni(lat.front() - dy, lat.back() + dy), x = R.uni(std::min(lon.front(), lon.back()) - 0.5, std::max(lon.front(), lon.back()) + 0.5), g = R.uni(0.1, 1.4);
            auto idx = [](double v, double v0, double d, size_t n, bool& edge) { double k = (v - v0) / d; edge = edge || (std::fabs(k - std::floor(k) - 0.5) < 1e-3); return (size_t)std::min((double)n - 1, std::max(0.0, std::floor(k + 0.5))); };
            bool edge = false;
            size_t i = idx(y, y0, dy, ny, edge), j = idx(x, x0, dx, nx, edge);
            if (edge) continue;
            wposition1 w(y, x);
            m->reflect_loss(w, f, g, &a, &p);
            auto model = [&](size_t t) { reflect_loss_rayleigh r(de[t], sp[t], at[t], ss[t], sa[t]); r.reflect_loss(w, f, g, &b, &c); return vt::same(a(0), b(0)) && vt::same(p(0), c(0)); };
            vt::obs("province lookups");
            if (model((size_t)type[i * nx + j])) continue;
            // the axes of the file end one interval early, and files with longitude first are read as if it was second
            bool e2 = false;
            size_t i2 = idx(y, y0, dy * ((double)ny - 1) / (double)ny, ny, e2), j2 = idx(x, x0, dx * ((double)nx - 1) / (double)nx, nx, e2);
            if (e2) continue;
            bool shrunk = model((size_t)stored[i2 * nx + j2]);
            C.fail(!shrunk ? "province" : order ? "province_order" : "province_axis", MSG("latitude " << y << " longitude " << x << " is in cell " << i << "," << j << " with province " << type[i * nx + j]));
            if (!shrunk) return;
        }
    });
    vt::section("ascii", 200, [&](Case& C, Rng& R) {
        const std::string name = dir + "arc.asc";
        size_t ny = R.in(1, 12), nx = R.in(1, 12);
        double x0 = R.uni(-180, 180), y0 = R.uni(-80, 60), cell = R.pick({0.00083333, 0.1, 0.5, 1.0});
        auto z = noise(R, ny * nx, -6000, 10);
        int bad = R.chance(0.15) ? R.in(1, 4) : 0;
        {
            std::ofstream o(name);
            o.precision(17);
            const char* nl = R.chance(0.3) ? "\r\n" : "\n";
            o << (bad == 1 ? "NCOLS many" : MSG("NCOLS " << nx)) << nl << "NROWS " << (bad == 2 ? -1 : (long)ny) << nl << "XLLCENTER " << x0 << nl << "YLLCENTER " << y0 << nl << "CELLSIZE " << cell << nl << "NODATA_VALUE 999999" << nl;
            for (size_t i = 0; i < ny * nx - (bad == 3); ++i) { if (bad == 4 && i == ny * nx / 2) o << "wet "; else o << z[i] << ((i + 1) % nx ? " " : nl); }
        }
        C.in("rows", ny).in("cols", nx).in("lat", y0).in("lon", x0).in("cell", cell).in("malformed", bad);
        std::unique_ptr<ascii_arc_bathy> b;
        try { b.reset(new ascii_arc_bathy(name.c_str())); }
        catch (const std::exception& e) { vt::obs("refused"); CHECK(bad, "arc_refused", e.what()); return; }
        CHECK(!bad, "arc_malformed", "a malformed file is accepted");
        if (bad) return;
        CHECK(b->axis(0).size() == ny && b->axis(1).size() == nx, "arc_size", "size");
        for (size_t i = 0; i < ny; ++i) for (size_t j = 0; j < nx; ++j) {
            size_t q[2] = {i, j};
            NEAR(90 - b->axis(0)(i) / D, y0 + cell * (double)(ny - 1 - i), 1e-9, "arc_latitude", "row " << i);
            NEAR(b->axis(1)(j) / D, x0 + cell * (double)j, 1e-9, "arc_longitude", "column " << j);
            NEAR(b->data(q) - wposition::earth_radius, z[i * nx + j], 1e-6, "arc_value", "row " << i << " column " << j);
            vt::obs("ascii samples");
        }
    });
    vt::section("ascii profile", 200, [&](Case& C, Rng& R) {
        const std::string name = dir + "profile.txt";
        size_t n = R.in(0, 12);
        std::vector<double> z, c;
        double x = R.chance(0.7) ? 0 : R.uni(0, 10);
        for (size_t i = 0; i < n; ++i) z.push_back(x), c.push_back(R.uni(1440, 1560)), x += R.uni(0.5, 500);
        int bad = n == 0 ? 1 : R.chance(0.15) ? R.in(2, 3) : 0;
        {
            std::ofstream o(name);
            o.precision(17);
            const char *nl = R.chance(0.3) ? "\r\n" : "\n", *sep = R.pick({",", ", ", " ", "\t", " , "});
            for (size_t i = 0; i < n; ++i) {
                if (R.chance(0.1)) o << nl;
                if (bad == 2 && i == n / 2) o << "deep" << nl; else if (bad == 3 && i == n - 1) o << z[i] << nl;
                else { o << z[i] << sep << c[i]; if (i + 1 < n || R.chance(0.7)) o << nl; }
            }
        }
        C.in("points", n).in("malformed", bad);
        std::unique_ptr<ascii_profile> p;
        try { p.reset(new ascii_profile(name.c_str())); }
        catch (const std::exception& e) { vt::obs("refused"); CHECK(bad, "text_refused", e.what()); return; }
        CHECK(!bad, "text_malformed", "a malformed file is accepted");
        if (bad) return;
        CHECK(p->axis(0).size() == n, "text_size", "size " << p->axis(0).size() << " instead of " << n);
        if (p->axis(0).size() != n) return;
        for (size_t i = 0; i < n; ++i) {
            size_t q[1] = {i};
            NEAR(wposition::earth_radius - p->axis(0)(i), z[i], 1e-6, "text_depth", "line " << i);
            NEAR(p->data(q), c[i], 1e-9, "text_value", "line " << i);
            vt::obs("text samples");
        }
    });
    vt::section("malformed", 120, [&](Case& C, Rng& R) {
        const std::string name = dir + "bad.nc";
        int kind = R.in(0, 5), what = R.in(0, 3);
        C.in("kind", kind).in("reader", what);
        remove(name.c_str());
        std::string use = name;
        if (kind == 0) use = dir + "there_is_no_such_file.nc";
        else if (kind == 1) { std::ofstream o(name); o << "this is not a data file\n"; }
        else if (kind == 2) { std::ofstream o(name); }
        else {
            Writer W(R, name);
            W.dim("time", 2); W.dim("depth", 3); W.dim("lat", 4); W.dim("lon", 5); W.dim("latitude", 4); W.dim("longitude", 5); W.dim("speed_ratio", 2);
            std::vector<std::string> names = {"time", "depth", "lat", "lon"};
            if (kind == 3) for (auto& n : names) W.var(n, NC_DOUBLE, {n});           // no field at all
            if (kind == 4) { names.erase(names.begin() + R.in(0, 3)); for (auto& n : names) W.var(n, NC_DOUBLE, {n}); }
            if (kind == 4) W.var("field", NC_DOUBLE, {"time", "depth"}); // no coordinates or too few dimensions
            if (kind == 5) { W.var("field", NC_DOUBLE, {"time", "depth", "lat", "lon"}); W.var("z", NC_DOUBLE, {"lat", "lon"}); }      // field without coordinates
            W.def(); W.close();
        }
        if (kind == 4 && what == 0) what = 1;
        bool threw = false;
        try {
            if (what == 0) netcdf_bathy b(use.c_str(), 0, 1, 0, 1);
            else if (what == 1) netcdf_profile p(use.c_str(), 0, 0, 1, 0, 1);
            else if (what == 2) netcdf_woa p(use.c_str(), use.c_str(), 3, 0, 1, 0, 1);
            else reflect_loss_netcdf r(use.c_str());
        } catch (const std::exception&) { threw = true; }
        vt::obs(threw ? "refused" : "accepted");
        CHECK(threw, "malformed", "a malformed file is accepted");
    });
    return vt::finish();
}
