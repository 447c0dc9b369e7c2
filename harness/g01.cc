// G01: interpolation of gen_grid against an independent recursive evaluation
// of the documented rule of each dimension.
#include <usml/types/types.h>
#include <complex>
#include <functional>
#include "vt.h"
using namespace usml::types;
namespace ub = boost::numeric::ublas;

// ---------------------------------------------------------------- reference
struct Ref {
    int D;
    std::vector<std::vector<double>> x;  // axes
    std::vector<int> type;               // effective type: -1, 0, 1
    std::vector<bool> limit;
    std::vector<double> v;  // values, last dimension fastest
    double scale = 0;

    double at(const std::vector<int>& i) const {
        size_t o = 0;
        for (int d = 0; d < D; ++d) o = o * x[d].size() + i[d];
        return v[o];
    }
    // interval with the location
    int interval(int d, double p) const {
        const auto& a = x[d];
        int n = (int)a.size();
        if (n < 2) return 0;
        bool up = a[1] > a[0];
        int k = 0;
        while (k < n - 2 && (up ? p >= a[k + 1] : p <= a[k + 1])) ++k;
        return k;
    }
    static double hmean(double d0, double d1, double hp, double hn) {
        if (d0 * d1 <= 0) return 0;
        double w0 = 2 * hn + hp, w1 = hn + 2 * hp;
        return (w0 + w1) / (w0 / d0 + w1 / d1);
    }
    static double endslope(double d0, double d1, double h0, double h1) {
        double m = ((2 * h0 + h1) * d0 - h0 * d1) / (h0 + h1);
        if (m * d0 <= 0) return 0;
        if (d0 * d1 < 0 && std::fabs(m) > 3 * std::fabs(d0)) return 3 * d0;
        return m;
    }
    static void slopes(const std::vector<double>& a, const std::vector<double>& y, int k, double& s1, double& s2) {
        int n = (int)a.size();
        auto h = [&](int i) { return a[i + 1] - a[i]; };
        auto dl = [&](int i) { return (y[i + 1] - y[i]) / h(i); };
        auto node = [&](int i) {
            if (i == 0) return endslope(dl(0), dl(1), h(0), h(1));
            if (i == n - 1) return endslope(dl(n - 2), dl(n - 3), h(n - 2), h(n - 3));
            return hmean(dl(i - 1), dl(i), h(i - 1), h(i));
        };
        s1 = node(k), s2 = node(k + 1);
    }
    // interpolate in one dimension over node values y (whole axis)
    double rule(int d, double p, const std::vector<double>& y, int k, double* slope) const {
        const auto& a = x[d];
        if (a.size() < 2) {
            if (slope) *slope = 0;
            return y[0];
        }
        double h = a[k + 1] - a[k], u = (p - a[k]) / h;
        if (type[d] < 0) {
            if (slope) *slope = 0;
            return y[u < 0.5 ? k : k + 1];
        }
        if (type[d] == 0) {
            if (slope) *slope = (y[k + 1] - y[k]) / h;
            return y[k] * (1 - u) + y[k + 1] * u;
        }
        double s1, s2;
        slopes(a, y, k, s1, s2);
        if (slope) *slope = s1 * (1 - u) + s2 * u;
        double h00 = (1 + 2 * u) * (1 - u) * (1 - u), h10 = u * (1 - u) * (1 - u), h01 = u * u * (3 - 2 * u), h11 = u * u * (u - 1);
        return h00 * y[k] + h10 * h * s1 + h01 * y[k + 1] + h11 * h * s2;
    }
    // value and derivatives with dimensions 0..d interpolated, the others fixed
    double eval(int d, std::vector<int>& fix, const std::vector<double>& p, const std::vector<int>& k, std::vector<double>& der) const {
        if (d < 0) return at(fix);
        int n = (int)x[d].size();
        std::vector<double> y(n, 0);
        std::vector<std::vector<double>> dy(D, std::vector<double>(n, 0));
        int lo = std::max(0, k[d] - 2), hi = std::min(n - 1, k[d] + 3);
        for (int i = lo; i <= hi; ++i) {
            fix[d] = i;
            std::vector<double> sub(D, 0);
            y[i] = eval(d - 1, fix, p, k, sub);
            for (int e = 0; e < d; ++e) dy[e][i] = sub[e];
        }
        double s;
        double r = rule(d, p[d], y, k[d], &s);
        der[d] = s;
        for (int e = 0; e < d; ++e) der[e] = rule(d, p[d], dy[e], k[d], nullptr);
        return r;
    }
    // amplification of rounding errors by extrapolation
    double cond(const std::vector<double>& p) const {
        double c = 1;
        for (int d = 0; d < D; ++d) {
            if (x[d].size() < 2 || limit[d] || type[d] < 0) continue;
            int k = interval(d, p[d]);
            double u = std::fabs((p[d] - x[d][k]) / (x[d][k + 1] - x[d][k]));
            if (u > 1) c *= type[d] > 0 ? 10 * u * u * u : 2 * u;
        }
        return c;
    }
    double operator()(std::vector<double> p, std::vector<double>& der) const {
        std::vector<int> k(D), fix(D, 0);
        for (int d = 0; d < D; ++d) {
            double lo = std::min(x[d].front(), x[d].back()), hi = std::max(x[d].front(), x[d].back());
            if (x[d].size() < 2) p[d] = x[d][0];
            else if (limit[d]) p[d] = std::min(hi, std::max(lo, p[d]));
            k[d] = interval(d, p[d]);
        }
        der.assign(D, 0);
        return eval(D - 1, fix, p, k, der);
    }
};

static seq_vector::csptr axis(Rng& R, int n, std::vector<double>& x) {
    int which = (int)R.in(0, 4);
    seq_vector::csptr s;
    bool up = R.chance(0.6);
    if (which == 0) s.reset(new seq_linear(R.uni(-50, 50), (up ? 1 : -1) * R.logu(0.05, 20), (int)n));
    else if (which == 1) s.reset(new seq_log(R.logu(0.1, 100), up ? R.uni(1.1, 2.5) : R.uni(0.4, 0.9), (int)n));
    else {
        std::vector<double> v(n);
        double p = R.uni(-50, 50), sc = R.logu(0.1, 30);
        for (int i = 0; i < n; ++i) {
            v[i] = p;
            p += (up ? 1 : -1) * sc * (R.chance(0.2) ? R.uni(0.02, 0.1) : R.uni(0.3, 2));
        }
        if (which == 2) s.reset(new seq_data(v));
        else s = seq_vector::build_best(v.data(), v.size());
    }
    x.clear();
    for (size_t i = 0; i < s->size(); ++i) x.push_back((*s)(i));
    return s;
}
static int effective(int t, int n) { return n < 2 ? -1 : (n < 4 && t > 0) ? 0 : t; }

template <int D>
struct Grid {
    std::shared_ptr<gen_grid<D>> g;
    Ref r;
    void build(Case& C, Rng& R, int style) {
        r.D = D;
        r.x.resize(D);
        seq_vector::csptr ax[D];
        size_t N = 1;
        for (int d = 0; d < D; ++d) {
            int n = D == 1 ? (int)R.pick({1, 2, 3, 4, 5, 6, 9, 20}) : (int)R.pick({1, 2, 3, 4, 5, 6});
            ax[d] = axis(R, n, r.x[d]);
            N *= n;
            C.inv(("axis" + std::to_string(d)).c_str(), r.x[d]);
        }
        g.reset(new gen_grid<D>(ax));
        double c[D + 1], mag = R.logu(1e-3, 1e4);
        for (auto& q : c) q = mag * R.uni(-1, 1);
        std::vector<double> f;
        for (size_t o = 0; o < N; ++o) {
            size_t idx[D];
            size_t q = o;
            for (int d = D - 1; d >= 0; --d) idx[d] = q % r.x[d].size(), q /= r.x[d].size();
            double v = 0;
            if (style == 0) v = mag * R.uni(-1, 1);                         // rough
            else if (style == 1) {                                          // linear
                v = c[D];
                for (int d = 0; d < D; ++d) v += c[d] * r.x[d][idx[d]];
            } else if (style == 2) {                                        // monotone in every dimension, plateaus
                for (int d = 0; d < D; ++d) v += (double)idx[d] * idx[d] * std::fabs(c[d]) * (d + 1);
                if (R.chance(0.3)) v = std::floor(v / mag) * mag;
            } else v = R.chance(0.5) ? 0 : mag * (double)R.in(-2, 2);       // plateaus and extremes
            g->setdata(idx, v);
            f.push_back(v);
            r.scale = std::max(r.scale, std::fabs(v));
        }
        r.v = f;
        for (int d = 0; d < D; ++d) {
            int t = (int)R.in(-1, 1);
            bool lim = R.chance(0.75);
            if (R.chance(0.3)) g->interp_type(d, (interp_enum)(int)R.in(-1, 1));  // history of settings
            g->interp_type(d, (interp_enum)t);
            if (R.chance(0.3)) g->edge_limit(d, !lim);
            g->edge_limit(d, lim);
            r.type.push_back(effective(t, (int)r.x[d].size()));
            r.limit.push_back(lim);
            C.in(("type" + std::to_string(d)).c_str(), t).in(("limit" + std::to_string(d)).c_str(), lim);
            CHECK((int)g->interp_type(d) == r.type[d], "interp_type_readback", MSG("dim " << d << " asked " << t << " got " << (int)g->interp_type(d) << " size " << r.x[d].size()));
            CHECK(g->edge_limit(d) == lim, "edge_limit_readback", MSG("dim " << d));
        }
    }
    std::vector<double> place(Rng& R, bool outside) {
        std::vector<double> p(D);
        for (int d = 0; d < D; ++d) {
            auto& a = r.x[d];
            double lo = std::min(a.front(), a.back()), hi = std::max(a.front(), a.back()), w = std::max(hi - lo, 1.0);
            double q = R.u();
            if (q < 0.2) p[d] = a[R.in(0, (long)a.size() - 1)];
            else if (q < 0.35 && a.size() > 1) {
                int k = (int)R.in(0, (long)a.size() - 2);
                p[d] = a[k] + (a[k + 1] - a[k]) * R.pick({0.25, 0.499, 0.501, 1e-9, 1 - 1e-9, 0.999});
            } else if (q < 0.5 && outside) p[d] = R.chance(0.5) ? lo - w * R.logu(1e-6, 0.3) : hi + w * R.logu(1e-6, 0.3);
            else if (q < 0.53 && outside && r.limit[d]) p[d] = R.chance(0.5) ? -1e12 : 1e12;
            else p[d] = R.uni(lo, hi);
        }
        return p;
    }
    double minstep(int d) const {
        double h = 1e300;
        for (size_t i = 0; i + 1 < r.x[d].size(); ++i) h = std::min(h, std::fabs(r.x[d][i + 1] - r.x[d][i]));
        return h;
    }
};

static double slope_scale(const Ref& r, int d) {
    double h = 1e300;
    for (size_t i = 0; i + 1 < r.x[d].size(); ++i) h = std::min(h, std::fabs(r.x[d][i + 1] - r.x[d][i]));
    return r.x[d].size() > 1 ? r.scale / h : 0;
}

// nearest neighbour decisions closer than rounding to the middle are not judged
template <int D>
static bool ambiguous(const Grid<D>& G, const std::vector<double>& p) {
    for (int d = 0; d < D; ++d) {
        const auto& a = G.r.x[d];
        if (G.r.type[d] >= 0 || a.size() < 2) continue;
        for (size_t k = 0; k + 1 < a.size(); ++k)
            if (std::fabs((p[d] - a[k]) / (a[k + 1] - a[k]) - 0.5) < 1e-9) return true;
    }
    return false;
}

template <int D>
static void run(Case& C, Rng& R, int style) {
    Grid<D> G;
    G.build(C, R, style);
    Ref& r = G.r;
    auto label = [&](const std::vector<double>& p) {
        std::ostringstream s;
        s.precision(17);
        for (double q : p) s << q << " ";
        return s.str();
    };
    std::vector<std::vector<double>> ps;
    std::vector<double> got;
    for (int n = 0; n < 25; ++n) {
        auto p = G.place(R, true);
        if (ambiguous(G, p)) continue;
        // a pchip interval just at a node may be entered from either side by rounding; its value is continuous, its slope too
        bool atnode = false;
        for (int d = 0; d < D; ++d)
            for (double a : r.x[d]) atnode |= r.type[d] == 0 && std::fabs(p[d] - a) <= 1e-9 * std::max(1.0, std::fabs(a));
        double loc[D + 1], der[D];
        for (int d = 0; d < D; ++d) loc[d] = p[d], der[d] = 1e99;
        std::vector<double> want_d;
        double want = r(p, want_d);
        double v1 = G.g->interpolate(loc);
        double v2 = G.g->interpolate(loc, der);
        double tol = 1e-9 * r.scale * r.cond(p) + 1e-12;
        NEAR(v1, want, std::max(tol, 1e-9 * std::fabs(want)), "value", MSG(D << "-D at " << label(p)));
        CHECK(v1 == v2, "value_depends_on_derivative", MSG(v1 << " != " << v2 << " at " << label(p)));
        for (int d = 0; d < D; ++d) {
            CHECK(loc[d] == p[d], "location_changed", label(p));
            // the documented discontinuities of slopes: linear kinks
            if (atnode) continue;
            double rel = 1e-7 * r.cond(p);
            NEAR(der[d], want_d[d], rel * (slope_scale(r, d) + std::fabs(want_d[d])) + 1e-12, "derivative", MSG(D << "-D dim " << d << " at " << label(p)));
        }
        ps.push_back(p);
        got.push_back(v1);
        vt::obs("points", 1);
        for (int d = 0; d < D; ++d) vt::obs(r.type[d] < 0 ? "dims_nearest" : r.type[d] == 0 ? "dims_linear" : "dims_pchip", 1);
    }
    // answers do not depend on history, and the matrix form gives the same
    for (size_t i = 0; i < ps.size(); ++i) {
        size_t j = (size_t)R.in(0, (long)ps.size() - 1);
        CHECK(G.g->interpolate(ps[j].data()) == got[j], "history", label(ps[j]));
    }
    if (!ps.empty()) {
        size_t n = ps.size();
        ub::matrix<double> m[3], res(n, 1), dm[3];
        for (int d = 0; d < 3; ++d) m[d].resize(n, 1), dm[d].resize(n, 1);
        for (size_t i = 0; i < n; ++i)
            for (int d = 0; d < D; ++d) m[d](i, 0) = ps[i][d];
        bool withd = R.chance(0.5);
        const data_grid<D>& dg = *G.g;
        if constexpr (D == 1) dg.interpolate(m[0], &res, withd ? &dm[0] : nullptr);
        if constexpr (D == 2) dg.interpolate(m[0], m[1], &res, withd ? &dm[0] : nullptr, withd ? &dm[1] : nullptr);
        if constexpr (D == 3) dg.interpolate(m[0], m[1], m[2], &res, withd ? &dm[0] : nullptr, withd ? &dm[1] : nullptr, withd ? &dm[2] : nullptr);
        for (size_t i = 0; i < n; ++i) {
            CHECK(res(i, 0) == got[i], "matrix_form", label(ps[i]));
            double der[D];
            if (withd) {
                G.g->interpolate(ps[i].data(), der);
                for (int d = 0; d < D; ++d) CHECK(dm[d](i, 0) == der[d], "matrix_form_derivative", label(ps[i]));
            }
        }
    }
    // node values exactly where stored
    for (int n = 0; n < 10; ++n) {
        size_t idx[D];
        std::vector<int> ii(D);
        double loc[D];
        for (int d = 0; d < D; ++d) {
            idx[d] = (size_t)R.in(0, (long)r.x[d].size() - 1);
            ii[d] = (int)idx[d];
            loc[d] = r.x[d][idx[d]];
        }
        CHECK(G.g->data(idx) == r.at(ii), "data_accessor", "stored value changed");
        NEAR(G.g->interpolate(loc), r.at(ii), 1e-10 * r.scale + 1e-14, "node_value", MSG("style " << style));
    }
    // direct statements that do not use the reference
    std::vector<double> base = G.place(R, false);
    if (style == 1 && !ambiguous(G, base)) {  // linear data are reproduced by linear and pchip
        bool nn = false;
        for (int d = 0; d < D; ++d) nn |= r.type[d] < 0;
        if (!nn) {
            // plane through node 0 and steps, from the data
            std::vector<int> zero(D, 0);
            double v = r.at(zero);
            std::vector<double> sl(D);
            for (int d = 0; d < D; ++d) {
                auto one = zero;
                one[d] = (int)r.x[d].size() - 1;
                sl[d] = (r.at(one) - r.at(zero)) / (r.x[d][one[d]] - r.x[d][0]);
                v += sl[d] * (base[d] - r.x[d][0]);
            }
            double der[D];
            NEAR(G.g->interpolate(base.data(), der), v, 1e-9 * r.scale + 1e-12, "linear_exact", label(base));
            for (int d = 0; d < D; ++d) NEAR(der[d], sl[d], 1e-7 * slope_scale(r, d) + 1e-12, "linear_slope", MSG("dim " << d));
            vt::obs("linear_fields", 1);
        }
    }
    if (D == 1 && r.type[0] != 0 && r.x[0].size() > 1) {  // shape preservation
        for (int n = 0; n < 20; ++n) {
            double p = R.uni(std::min(r.x[0].front(), r.x[0].back()), std::max(r.x[0].front(), r.x[0].back()));
            int k = r.interval(0, p);
            double v = G.g->interpolate(&p), lo = std::min(r.v[k], r.v[k + 1]), hi = std::max(r.v[k], r.v[k + 1]);
            CHECK(v >= lo - 1e-9 * r.scale && v <= hi + 1e-9 * r.scale, "overshoot", MSG(v << " outside " << lo << ".." << hi << " at " << p));
        }
    }
    // a grid with one axis turned around is the same field
    int turn = (int)R.in(0, D - 1);
    if (r.x[turn].size() > 1) {
        seq_vector::csptr ax[D];
        for (int d = 0; d < D; ++d) {
            auto v = r.x[d];
            if (d == turn) std::reverse(v.begin(), v.end());
            ax[d].reset(new seq_data(v));
        }
        gen_grid<D> T(ax);
        for (size_t o = 0; o < r.v.size(); ++o) {
            size_t idx[D], q = o;
            for (int d = D - 1; d >= 0; --d) idx[d] = q % r.x[d].size(), q /= r.x[d].size();
            idx[turn] = r.x[turn].size() - 1 - idx[turn];
            T.setdata(idx, r.v[o]);
        }
        for (int d = 0; d < D; ++d) T.interp_type(d, (interp_enum)r.type[d]), T.edge_limit(d, r.limit[d]);
        for (size_t i = 0; i < ps.size(); ++i) {
            NEAR(T.interpolate(ps[i].data()), got[i], 1e-9 * r.scale * r.cond(ps[i]) + 1e-12 + 1e-9 * std::fabs(got[i]), "axis_direction", MSG("axis " << turn << " at " << label(ps[i])));
            vt::obs("turned", 1);
        }
    }
    if (!r.limit[0] && R.chance(0.1)) C.trivial();
}

// other element types follow the scalar rule for each element
template <class T> struct El;
template <> struct El<ub::vector<double>> {
    static ub::vector<double> make(const double* v) { ub::vector<double> r(3); for (int i = 0; i < 3; ++i) r(i) = v[i]; return r; }
    static double get(const ub::vector<double>& v, int i) { return v(i); }
    static const char* name() { return "vector"; }
};
template <> struct El<ub::matrix<double>> {
    static ub::matrix<double> make(const double* v) { ub::matrix<double> r(1, 3); for (int i = 0; i < 3; ++i) r(0, i) = v[i]; return r; }
    static double get(const ub::matrix<double>& v, int i) { return v(0, i); }
    static const char* name() { return "matrix"; }
};
template <class T>
static void elements(Case& C, Rng& R) {
    std::vector<double> x[2];
    seq_vector::csptr ax[2] = {axis(R, (int)R.in(4, 7), x[0]), axis(R, (int)R.in(2, 5), x[1])};
    gen_grid<2, T> V(ax);
    std::vector<gen_grid<2>> S(3, gen_grid<2>(ax));
    for (auto& s : S) s = gen_grid<2>(ax);
    for (size_t i = 0; i < x[0].size(); ++i)
        for (size_t j = 0; j < x[1].size(); ++j) {
            double v[3] = {R.uni(-1, 1), (double)R.in(-1, 1), R.uni(0, 5)};
            size_t idx[2] = {i, j};
            V.setdata(idx, El<T>::make(v));
            for (int e = 0; e < 3; ++e) S[e].setdata(idx, v[e]);
        }
    for (int d = 0; d < 2; ++d) {
        int t = (int)R.in(-1, 1);
        V.interp_type(d, (interp_enum)t);
        for (auto& s : S) s.interp_type(d, (interp_enum)t);
        C.in("type", t);
    }
    for (int n = 0; n < 20; ++n) {
        double p[2];
        for (int d = 0; d < 2; ++d) p[d] = R.uni(std::min(x[d].front(), x[d].back()) - 1, std::max(x[d].front(), x[d].back()) + 1);
        T der[2], der0;
        (void)der0;
        T a = V.interpolate(p), b = V.interpolate(p, der);
        for (int e = 0; e < 3; ++e) {
            double sd[2], s = S[e].interpolate(p, sd);
            NEAR(El<T>::get(a, e), s, 1e-9, "element_value", MSG(El<T>::name() << " element " << e << " at " << p[0] << "," << p[1]));
            NEAR(El<T>::get(b, e), s, 1e-9, "element_value", MSG(El<T>::name() << " with derivative, element " << e));
            for (int d = 0; d < 2; ++d) NEARR(El<T>::get(der[d], e), sd[d], 1e-7, 1e-9, "element_derivative", MSG(El<T>::name() << " element " << e << " dim " << d));
        }
        vt::obs("element_points", 1);
    }
}

int main(int argc, char** argv) {
    vt::init(argc, argv);
    vt::section("grid1", 2400, [](Case& C, Rng& R) { run<1>(C, R, C.index % 4); });
    vt::section("grid2", 1600, [](Case& C, Rng& R) { run<2>(C, R, C.index % 4); });
    vt::section("grid3", 800, [](Case& C, Rng& R) { run<3>(C, R, C.index % 4); });
    vt::section("vector", 200, [](Case& C, Rng& R) { elements<ub::vector<double>>(C, R); });
    vt::section("matrix", 200, [](Case& C, Rng& R) { elements<ub::matrix<double>>(C, R); });
    vt::section("other", 300, [](Case& C, Rng& R) {  // float and complex
        std::vector<double> x;
        seq_vector::csptr ax[1] = {axis(R, (int)R.in(4, 9), x)};
        gen_grid<1, float> F(ax);
        gen_grid<1, std::complex<double>> Z(ax);
        gen_grid<1> A(ax), B(ax);
        for (size_t i = 0; i < x.size(); ++i) {
            double a = R.uni(-1, 1), b = R.uni(-1, 1);
            A.setdata(&i, a), B.setdata(&i, b), F.setdata(&i, (float)a), Z.setdata(&i, std::complex<double>(a, b));
        }
        int t = (int)R.in(-1, 1);
        A.interp_type(0, (interp_enum)t), F.interp_type(0, (interp_enum)t);
        int tz = (int)R.in(-1, 0);  // the scalar rule has no documented complex form for pchip
        B.interp_type(0, (interp_enum)tz), Z.interp_type(0, (interp_enum)tz);
        gen_grid<1> A2(A);
        A2.interp_type(0, (interp_enum)tz);
        C.in("t", t).in("tz", tz);
        for (int n = 0; n < 20; ++n) {
            double p = R.uni(std::min(x.front(), x.back()) - 1, std::max(x.front(), x.back()) + 1), da, db, da2;
            float df;
            std::complex<double> dz;
            double a = A.interpolate(&p, &da), b = B.interpolate(&p, &db), a2 = A2.interpolate(&p, &da2);
            float f = F.interpolate(&p, &df);
            std::complex<double> z = Z.interpolate(&p, &dz);
            NEAR(f, a, 1e-4, "float_value", MSG("at " << p));
            NEAR(z.real(), a2, 1e-9, "complex_value", MSG("at " << p));
            NEAR(z.imag(), b, 1e-9, "complex_value", MSG("at " << p));
            NEARR(dz.real(), da2, 1e-9, 1e-9, "complex_derivative", MSG("at " << p));
            NEARR(dz.imag(), db, 1e-9, 1e-9, "complex_derivative", MSG("at " << p));
            vt::obs("element_points", 2);
        }
    });
    return vt::finish();
}
