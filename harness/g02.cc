// G02: fast grids against an independent evaluation of their documented rule
// and, where both follow the same rule, against gen_grid.
#include <usml/types/types.h>
#include <memory>
#include "vt.h"
using namespace usml::types;
namespace ub = boost::numeric::ublas;
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));

static seq_vector::csptr axis(Rng& R, int n, std::vector<double>& x, double sc) {
    bool up = R.chance(0.6);
    seq_vector::csptr s;
    if (R.chance(0.4)) s.reset(new seq_linear(R.uni(-50, 50), (up ? 1 : -1) * sc * R.uni(0.2, 2), (int)n));
    else {
        std::vector<double> v(n);
        double p = R.uni(-50, 50);
        for (int i = 0; i < n; ++i) v[i] = p, p += (up ? 1 : -1) * sc * (R.chance(0.2) ? R.uni(0.02, 0.1) : R.uni(0.3, 2));
        s.reset(new seq_data(v));
    }
    for (size_t i = 0; i < s->size(); ++i) x.push_back((*s)(i));
    return s;
}
static int interval(const std::vector<double>& a, double p) {
    int n = (int)a.size(), k = 0;
    if (n < 2) return 0;
    bool up = a[1] > a[0];
    while (k < n - 2 && (up ? p >= a[k + 1] : p <= a[k + 1])) ++k;
    return k;
}
static double clamp(const std::vector<double>& a, double p) {
    return std::min(std::max(a.front(), a.back()), std::max(std::min(a.front(), a.back()), p));
}
static double hmean(double d0, double d1, double hp, double hn) {
    if (d0 * d1 <= 0) return 0;
    double w0 = 2 * hn + hp, w1 = hn + 2 * hp;
    return (w0 + w1) / (w0 / d0 + w1 / d1);
}
static double endslope(double d0, double d1, double h0, double h1) {
    double m = ((2 * h0 + h1) * d0 - h0 * d1) / (h0 + h1);
    if (m * d0 <= 0) return 0;
    if (d0 * d1 < 0 && std::fabs(m) > 3 * std::fabs(d0)) return 3 * d0;
    return m;
}
static double node_slope(const std::vector<double>& a, const std::vector<double>& y, int i) {
    int n = (int)a.size();
    auto h = [&](int q) { return a[q + 1] - a[q]; };
    auto dl = [&](int q) { return (y[q + 1] - y[q]) / h(q); };
    if (n < 2) return 0;
    if (n == 2) return dl(0);
    if (i == 0) return endslope(dl(0), dl(1), h(0), h(1));
    if (i == n - 1) return endslope(dl(n - 2), dl(n - 3), h(n - 2), h(n - 3));
    return hmean(dl(i - 1), dl(i), h(i - 1), h(i));
}
static void hermite(double u, double h, double y0, double y1, double s0, double s1, double& v, double& d) {
    v = (1 + 2 * u) * (1 - u) * (1 - u) * y0 + u * (1 - u) * (1 - u) * h * s0 + u * u * (3 - 2 * u) * y1 + u * u * (u - 1) * h * s1;
    d = 6 * u * (u - 1) / h * y0 + (1 - u) * (1 - 3 * u) * s0 + 6 * u * (1 - u) / h * y1 + u * (3 * u - 2) * s1;
}
static std::vector<double> place(Rng& R, const std::vector<std::vector<double>>& x, bool outside) {
    std::vector<double> p;
    for (auto& a : x) {
        double lo = std::min(a.front(), a.back()), hi = std::max(a.front(), a.back()), q = R.u();
        if (q < 0.25) p.push_back(a[R.in(0, (long)a.size() - 1)]);
        else if (q < 0.45 && outside) p.push_back(R.chance(0.5) ? lo - R.logu(1e-6, 10) : hi + R.logu(1e-6, 10));
        else if (q < 0.65) {  // in the first and last intervals
            int k = R.chance(0.5) ? 0 : std::max(0, (int)a.size() - 2);
            p.push_back(a.size() > 1 ? R.uni(a[k], a[k + 1]) : a[0]);
        } else p.push_back(R.uni(lo, hi));
    }
    return p;
}
static std::string str(const std::vector<double>& p) {
    std::ostringstream s;
    s.precision(17);
    for (double q : p) s << q << " ";
    return s.str();
}
// derivatives of linear interpolation jump at nodes
static bool at_node(const std::vector<double>& a, double p) {
    for (double q : a)
        if (std::fabs(q - p) <= 1e-9 * std::max(1.0, std::fabs(q))) return true;
    return false;
}

static void svp(Case& C, Rng& R) {
    std::vector<std::vector<double>> x(3);
    seq_vector::csptr ax[3];
    int nz = (int)R.pick({1, 2, 3, 4, 5, 8, 15});
    ax[0] = axis(R, nz, x[0], 30);
    ax[1] = axis(R, (int)R.pick({1, 2, 3, 4}), x[1], 1);
    ax[2] = axis(R, (int)R.pick({1, 2, 3, 4}), x[2], 1);
    for (int d = 0; d < 3; ++d) C.inv(("axis" + std::to_string(d)).c_str(), x[d]);
    std::shared_ptr<gen_grid<3>> g(new gen_grid<3>(ax));
    int n1 = (int)x[1].size(), n2 = (int)x[2].size(), style = (int)R.in(0, 2);
    C.in("style", style);
    std::vector<double> v(nz * n1 * n2);
    double c[4];
    for (double& q : c) q = R.uni(-2, 2);
    for (int i = 0; i < nz; ++i)
        for (int j = 0; j < n1; ++j)
            for (int k = 0; k < n2; ++k) {
                double q = style == 0 ? 1500 + R.uni(-10, 10) : style == 1 ? 1500 + c[0] * x[0][i] * 0.05 + c[1] * x[1][j] + c[2] * x[2][k] : 1500 + (double)R.in(-2, 2);
                v[(i * n1 + j) * n2 + k] = q;
                size_t idx[3] = {(size_t)i, (size_t)j, (size_t)k};
                g->setdata(idx, q);
            }
    bool lim[3];
    for (int d = 0; d < 3; ++d) g->edge_limit(d, lim[d] = R.chance(0.8)), C.in("limit", lim[d]);
    g->interp_type(0, (interp_enum)(int)R.in(-1, 1));  // ignored by the fast grid
    data_grid<3>::csptr cg(g);
    // memory that every one of four grids loses; the harness itself may allocate now and then
    long lost = 1 << 30;
    for (int n = 0; n < 4 && lost > 0; ++n) {
        size_t before = __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0;
        {
            data_grid_svp tmp(cg);
            double p[3] = {x[0][0], x[1][0], x[2][0]};
            tmp.interpolate(p);
        }
        size_t after = __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0;
        lost = std::min(lost, (long)(after - before));
    }
    CHECK(lost <= 0, "svp_leak", MSG(lost << " bytes lost by one grid"));
    data_grid_svp* fast = new data_grid_svp(cg);
    std::unique_ptr<data_grid_svp> own(fast);
    data_grid<3>::csptr base(own.release());  // through the common interface
    std::vector<std::vector<double>> ps;
    std::vector<double> got;
    for (int n = 0; n < 30; ++n) {
        auto p = place(R, x, true);
        std::vector<double> q = p;
        int k[3];
        double u[3], h[3];
        double amp = 1;
        for (int d = 0; d < 3; ++d) {
            if (x[d].size() < 2) q[d] = x[d][0], k[d] = 0, u[d] = 0, h[d] = 1;
            else {
                if (lim[d]) q[d] = clamp(x[d], p[d]);
                k[d] = interval(x[d], q[d]);
                h[d] = x[d][k[d] + 1] - x[d][k[d]];
                u[d] = (q[d] - x[d][k[d]]) / h[d];
                amp *= std::max(1.0, std::pow(std::fabs(u[d]) + 1, d == 0 ? 3 : 1));
            }
        }
        double f[2][2], dz[2][2];
        for (int a = 0; a < 2; ++a)
            for (int b = 0; b < 2; ++b) {
                int j = std::min(k[1] + a, n1 - 1), l = std::min(k[2] + b, n2 - 1);
                std::vector<double> col;
                for (int i = 0; i < nz; ++i) col.push_back(v[(i * n1 + j) * n2 + l]);
                if (nz < 2) f[a][b] = col[0], dz[a][b] = 0;
                else hermite(u[0], h[0], col[k[0]], col[k[0] + 1], node_slope(x[0], col, k[0]), node_slope(x[0], col, k[0] + 1), f[a][b], dz[a][b]);
            }
        auto bil = [&](double w[2][2]) { return (1 - u[1]) * ((1 - u[2]) * w[0][0] + u[2] * w[0][1]) + u[1] * ((1 - u[2]) * w[1][0] + u[2] * w[1][1]); };
        double want = bil(f), wd[3] = {bil(dz), n1 > 1 ? ((1 - u[2]) * (f[1][0] - f[0][0]) + u[2] * (f[1][1] - f[0][1])) / h[1] : 0,
                                       n2 > 1 ? ((1 - u[1]) * (f[0][1] - f[0][0]) + u[1] * (f[1][1] - f[1][0])) / h[2] : 0};
        double loc[3] = {p[0], p[1], p[2]}, der[3] = {1e99, 1e99, 1e99};
        double v1 = base->interpolate(loc), v2 = base->interpolate(loc, der);
        double tol = 1e-9 * 1500 * amp;
        NEAR(v1, want, tol, "svp_value", MSG("at " << str(p)));
        CHECK(v1 == v2, "svp_value_depends_on_derivative", MSG("at " << str(p)));
        for (int d = 0; d < 3; ++d) {
            CHECK(loc[d] == p[d], "svp_location_changed", MSG("at " << str(p)));
            bool jump = (d > 0 || x[0].size() == 2) && at_node(x[d], q[d]);
            for (int e = 1; e < 3; ++e) jump |= e == d && at_node(x[e], q[e]);
            if (!jump) NEAR(der[d], wd[d], 1e-6 * amp / std::fabs(h[d]) + 1e-9, "svp_derivative", MSG("dim " << d << " at " << str(p)));
        }
        ps.push_back(p), got.push_back(v1);
        vt::obs("svp_points");
    }
    size_t N = ps.size();
    ub::matrix<double> m[3], r(N, 1), dm[3];
    for (int d = 0; d < 3; ++d) {
        m[d].resize(N, 1), dm[d].resize(N, 1);
        for (size_t i = 0; i < N; ++i) m[d](i, 0) = ps[i][d];
    }
    bool withd = R.chance(0.5), direct = R.chance(0.5);
    auto dx = withd ? &dm[0] : nullptr, dy = withd ? &dm[1] : nullptr, dzm = withd ? &dm[2] : nullptr;
    if (direct) static_cast<const data_grid_svp&>(*base).interpolate(m[0], m[1], m[2], &r, dx, dy, dzm);
    else base->interpolate(m[0], m[1], m[2], &r, dx, dy, dzm);
    for (size_t i = 0; i < N; ++i) {
        CHECK(r(i, 0) == got[i], "svp_matrix_form", MSG((direct ? "direct" : "base") << " at " << str(ps[i])));
        for (int d = 0; d < 3; ++d) CHECK(m[d](i, 0) == ps[i][d], "svp_matrix_location", "argument changed");
        if (withd) {
            double der[3];
            base->interpolate(ps[i].data(), der);
            for (int d = 0; d < 3; ++d) CHECK(dm[d](i, 0) == der[d], "svp_matrix_derivative", MSG("dim " << d));
        }
    }
    // the general grid with the same rule agrees in value
    gen_grid<3> G(*g);
    G.interp_type(0, interp_enum::pchip), G.interp_type(1, interp_enum::linear), G.interp_type(2, interp_enum::linear);
    if (nz != 3)  // three point profiles are linear in the general grid
        for (size_t i = 0; i < N; ++i) {
            double a = G.interpolate(ps[i].data());
            bool ext = false;
            for (int d = 0; d < 3; ++d) ext |= !lim[d];
            if (!ext) NEAR(got[i], a, 1e-8 * 1500, "svp_general", MSG("at " << str(ps[i])));
        }
    // nodes
    for (int n = 0; n < 8; ++n) {
        size_t idx[3];
        double p[3];
        for (int d = 0; d < 3; ++d) idx[d] = (size_t)R.in(0, (long)x[d].size() - 1), p[d] = x[d][idx[d]];
        NEAR(base->interpolate(p), v[(idx[0] * n1 + idx[1]) * n2 + idx[2]], 1e-8, "svp_node", "stored value");
    }
    // copies share nothing that is released twice
    data_grid_svp copy(static_cast<const data_grid_svp&>(*base));
    CHECK(copy.interpolate(ps[0].data()) == got[0], "svp_copy", "copy differs");
}

static void bathy(Case& C, Rng& R) {
    std::vector<std::vector<double>> x(2);
    seq_vector::csptr ax[2];
    int type = (int)R.in(-1, 1), lo = type > 0 ? 4 : type == 0 ? 2 : 1;
    int n[2];
    for (int d = 0; d < 2; ++d) ax[d] = axis(R, n[d] = lo + (int)R.in(0, 5), x[d], R.pick({0.1, 1.0, 10.0})), C.inv("axis", x[d]);
    int style = (int)R.in(0, 2);
    C.in("type", type).in("style", style);
    std::shared_ptr<gen_grid<2>> g(new gen_grid<2>(ax));
    std::vector<double> v(n[0] * n[1]);
    double c[3] = {R.uni(-3, 3), R.uni(-3, 3), R.uni(-100, 100)}, mag = 0;
    for (int i = 0; i < n[0]; ++i)
        for (int j = 0; j < n[1]; ++j) {
            double q = style == 0 ? R.uni(-100, 100) : style == 1 ? c[2] + c[0] * x[0][i] + c[1] * x[1][j] : 100 * std::sin(i * 0.5 + c[0]) * std::cos(j * 0.4 + c[1]);
            v[i * n[1] + j] = q, mag = std::max(mag, std::fabs(q));
            size_t idx[2] = {(size_t)i, (size_t)j};
            g->setdata(idx, q);
        }
    bool lim[2];
    for (int d = 0; d < 2; ++d) {
        g->interp_type(d, (interp_enum)type);
        g->edge_limit(d, lim[d] = R.chance(0.8));
        C.in("limit", lim[d]);
    }
    data_grid<2>::csptr cg(g), base(new data_grid_bathy(cg));
    auto at = [&](int i, int j) { return v[i * n[1] + j]; };
    // documented differences
    auto D = [&](int d, int i, int& a, int& b) { a = std::max(0, i - 1), b = std::min(n[d] - 1, i + 1); };
    auto fx = [&](int i, int j) { int a, b; D(0, i, a, b); return (at(b, j) - at(a, j)) / (x[0][b] - x[0][a]); };
    auto fy = [&](int i, int j) { int a, b; D(1, j, a, b); return (at(i, b) - at(i, a)) / (x[1][b] - x[1][a]); };
    auto fxy = [&](int i, int j) {
        int a, b, p, q;
        D(0, i, a, b), D(1, j, p, q);
        return (at(b, q) - at(b, p) - at(a, q) + at(a, p)) / ((x[0][b] - x[0][a]) * (x[1][q] - x[1][p]));
    };
    std::vector<std::vector<double>> ps;
    std::vector<double> got;
    for (int t = 0; t < 30; ++t) {
        auto p = place(R, x, true), q = p;
        int k[2];
        double u[2] = {0, 0}, h[2] = {1, 1}, amp = 1;
        bool skip = false;
        for (int d = 0; d < 2; ++d) {
            k[d] = 0;
            if (n[d] < 2) { q[d] = x[d][0]; continue; }
            if (lim[d]) q[d] = clamp(x[d], p[d]);
            k[d] = interval(x[d], q[d]);
            h[d] = x[d][k[d] + 1] - x[d][k[d]];
            u[d] = (q[d] - x[d][k[d]]) / h[d];
            amp *= std::max(1.0, std::pow(1 + std::fabs(u[d]), 3));
            if (type < 0 && std::fabs(u[d] - 0.5) < 1e-9) skip = true;
        }
        if (skip) continue;
        double want, wd[2] = {0, 0};
        if (type < 0) want = at(k[0] + (n[0] > 1 && u[0] >= 0.5), k[1] + (n[1] > 1 && u[1] >= 0.5));
        else if (type == 0) {
            double a = at(k[0], k[1]), b = at(k[0] + 1, k[1]), e = at(k[0], k[1] + 1), f = at(k[0] + 1, k[1] + 1);
            want = (1 - u[0]) * ((1 - u[1]) * a + u[1] * e) + u[0] * ((1 - u[1]) * b + u[1] * f);
            wd[0] = ((1 - u[1]) * (b - a) + u[1] * (f - e)) / h[0];
            wd[1] = ((1 - u[0]) * (e - a) + u[0] * (f - b)) / h[1];
        } else {  // tensor product of Hermite cubics
            auto B = [&](double w, double hh, double o[4], double od[4]) {
                for (int m = 0; m < 4; ++m) hermite(w, hh, m == 0, m == 1, m == 2, m == 3, o[m], od[m]);
            };
            double b0[4], e0[4], b1[4], e1[4];
            B(u[0], h[0], b0, e0), B(u[1], h[1], b1, e1);
            want = 0;
            for (int a = 0; a < 2; ++a)
                for (int b = 0; b < 2; ++b) {
                    int i = k[0] + a, j = k[1] + b;
                    double F[4] = {at(i, j), fx(i, j), fy(i, j), fxy(i, j)};
                    double w[4][2] = {{b0[a], b1[b]}, {b0[a + 2], b1[b]}, {b0[a], b1[b + 2]}, {b0[a + 2], b1[b + 2]}};
                    double wx[4][2] = {{e0[a], b1[b]}, {e0[a + 2], b1[b]}, {e0[a], b1[b + 2]}, {e0[a + 2], b1[b + 2]}};
                    double wy[4][2] = {{b0[a], e1[b]}, {b0[a + 2], e1[b]}, {b0[a], e1[b + 2]}, {b0[a + 2], e1[b + 2]}};
                    for (int m = 0; m < 4; ++m) want += F[m] * w[m][0] * w[m][1], wd[0] += F[m] * wx[m][0] * wx[m][1], wd[1] += F[m] * wy[m][0] * wy[m][1];
                }
        }
        double loc[2] = {p[0], p[1]}, der[2] = {1e99, 1e99};
        double v1 = base->interpolate(loc), v2 = base->interpolate(loc, der);
        NEAR(v1, want, 1e-9 * mag * amp + 1e-10, "bathy_value", MSG("type " << type << " at " << str(p)));
        NEAR(v2, v1, 1e-12 * (1 + std::fabs(v1)), "bathy_value_depends_on_derivative", "with derivative");
        for (int d = 0; d < 2; ++d) {
            CHECK(loc[d] == p[d], "bathy_location_changed", MSG("at " << str(p)));
            if (!(type == 0 && at_node(x[d], q[d]))) NEAR(der[d], wd[d], 1e-7 * mag * amp / std::fabs(h[d]) + 1e-8 * std::fabs(wd[d]) + 1e-10, "bathy_derivative", MSG("type " << type << " dim " << d << " at " << str(p)));
        }
        if (style == 1 && type >= 0) {  // a plane stays a plane
            NEAR(v1, c[2] + c[0] * q[0] + c[1] * q[1], 1e-9 * mag * amp + 1e-9, "bathy_plane", MSG("type " << type << " at " << str(p)));
            vt::obs("planes");
        }
        if (type <= 0) {  // same rule as the general grid
            double gd[2], gv = g->interpolate(loc, gd);
            NEAR(v1, gv, 1e-9 * mag * amp + 1e-10, "bathy_general", MSG("type " << type << " at " << str(p)));
        }
        ps.push_back(p), got.push_back(v1);
        vt::obs("bathy_points");
        vt::obs(type < 0 ? "bathy_nearest" : type == 0 ? "bathy_linear" : "bathy_cubic");
    }
    if (ps.empty()) return C.trivial();
    size_t N = ps.size();
    ub::matrix<double> a(N, 1), b(N, 1), r(N, 1), da(N, 1), db(N, 1);
    for (size_t i = 0; i < N; ++i) a(i, 0) = ps[i][0], b(i, 0) = ps[i][1];
    bool withd = R.chance(0.5), direct = R.chance(0.5);
    if (direct) static_cast<const data_grid_bathy&>(*base).interpolate(a, b, &r, withd ? &da : nullptr, withd ? &db : nullptr);
    else base->interpolate(a, b, &r, withd ? &da : nullptr, withd ? &db : nullptr);
    for (size_t i = 0; i < N; ++i) {
        CHECK(r(i, 0) == got[i], "bathy_matrix_form", MSG("at " << str(ps[i])));
        if (withd) {
            double der[2];
            base->interpolate(ps[i].data(), der);
            CHECK(da(i, 0) == der[0] && db(i, 0) == der[1], "bathy_matrix_derivative", MSG("at " << str(ps[i])));
        }
    }
    for (int t = 0; t < 8; ++t) {
        int i = (int)R.in(0, n[0] - 1), j = (int)R.in(0, n[1] - 1);
        double p[2] = {x[0][i], x[1][j]};
        NEAR(base->interpolate(p), at(i, j), 1e-9 * mag + 1e-10, "bathy_node", MSG("type " << type << " node " << i << "," << j));
    }
    // smooth field: fast cubic close to the general cubic away from the edges of a fine even grid
}

static void smooth(Case& C, Rng& R) {
    double h = R.uni(0.2, 1), kx = R.uni(0.05, 0.3) / h, ky = R.uni(0.05, 0.3) / h, ph = R.uni(0, 6);
    C.in("h", h).in("kx", kx).in("ky", ky);
    int n = 24;
    seq_vector::csptr ax[2] = {seq_vector::csptr(new seq_linear(0.0, h, (int)n)), seq_vector::csptr(new seq_linear(0.0, h, (int)n))};
    std::shared_ptr<gen_grid<2>> g(new gen_grid<2>(ax));
    auto f = [&](double a, double b) { return 3000 + 500 * std::sin(kx * a + ph) + 300 * std::cos(ky * b + kx * a); };
    for (size_t i = 0; i < (size_t)n; ++i)
        for (size_t j = 0; j < (size_t)n; ++j) {
            size_t idx[2] = {i, j};
            g->setdata(idx, f(i * h, j * h));
        }
    g->interp_type(0, interp_enum::pchip), g->interp_type(1, interp_enum::pchip);
    data_grid_bathy fast{data_grid<2>::csptr(g)};
    for (int t = 0; t < 40; ++t) {
        double p[2] = {R.uni(0, (n - 1) * h), R.uni(0, (n - 1) * h)};
        double q = std::max(kx, ky) * h;
        NEAR(fast.interpolate(p), f(p[0], p[1]), 800 * q * q, "smooth_fast", MSG("at " << p[0] << "," << p[1]));
        NEAR(fast.interpolate(p), g->interpolate(p), 800 * q * q, "smooth_general", MSG("at " << p[0] << "," << p[1]));
        vt::maxv("smooth_error_over_h2", std::fabs(fast.interpolate(p) - f(p[0], p[1])) / (800 * q * q));
    }
}

int main(int argc, char** argv) {
    vt::init(argc, argv);
    vt::section("svp", 2400, svp);
    vt::section("bathy", 3000, bathy);
    vt::section("smooth", 200, smooth);
    return vt::finish();
}
