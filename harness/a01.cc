// A01: beam patterns against closed forms, symmetry, and solid angle averages.
#include <usml/beampatterns/beampatterns.h>
#include <usml/types/types.h>
#include "vt.h"
using namespace usml::beampatterns;
using namespace usml::types;
using boost::numeric::ublas::matrix;
typedef boost::numeric::ublas::vector<double> dv;
struct V3 { double f, r, u; };
static V3 dirn(Rng& R) {
    if (R.chance(0.15)) return R.pick<V3>({{1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}});
    double u = R.uni(-1, 1), a = R.chance(0.2) ? R.in(-12, 12) * M_PI / 6 : R.uni(-M_PI, M_PI), c = std::sqrt(1 - u * u);
    return {c * std::cos(a), c * std::sin(a), u};
}
static bvector bv(V3 v) { return bvector(v.f, v.r, v.u); }
static std::ostream& operator<<(std::ostream& o, const V3& v) { return o << v.f << "," << v.r << "," << v.u; }
static double sq(double x) { return x * x; }
static double dot(V3 a, V3 b) { return a.f * b.f + a.r * b.r + a.u * b.u; }
static std::vector<double> freqs(Rng& R) {
    std::vector<double> f(R.in(1, 5));
    double x = R.logu(50, 5000);
    if (R.chance(0.3)) x = R.pick({500.0, 750.0, 1000.0, 1500.0, 3000.0});
    for (auto& v : f) { v = x; x *= R.chance(0.3) ? 2.0 : R.uni(1.1, 2.5); }
    return f;
}
static seq_vector::csptr sv(const std::vector<double>& f) { return seq_vector::csptr(new seq_data(f.data(), f.size())); }
static dv garbage(Rng& R, size_t n) {
    dv g(n);
    for (auto& x : g) x = R.pick({std::nan(""), HUGE_VAL, -3.0, 0.0, 7.0});
    return g;
}
// all levels, computed together; and the same levels alone, which have to agree
static dv level(Case& C, Rng& R, const bp_model& bp, V3 a, const std::vector<double>& f, V3 s, double c) {
    dv out = garbage(R, f.size());
    bp.beam_level(bv(a), sv(f), &out, bv(s), c);
    CHECK(out.size() == f.size(), "level.size", out.size());
    dv again = garbage(R, f.size());
    bp.beam_level(bv(a), sv(f), &again, bv(s), c);
    for (size_t i = 0; i < f.size(); ++i) {
        CHECK(std::isfinite(out[i]) && out[i] >= 0 && out[i] <= 1 + 1e-9, "level.range", "level " << out[i] << " at " << f[i] << " Hz arrival " << a << " steering " << s);
        CHECK(vt::same(out[i], again[i]), "level.repeat", out[i] << " then " << again[i]);
        dv one = garbage(R, 1);
        bp.beam_level(bv(a), sv({f[i]}), &one, bv(s), c);
        NEARR(one[0], out[i], 1e-9, 1e-12, "level.alone", "frequency " << f[i]);
    }
    vt::obs("levels", f.size());
    return out;
}
static double lineref(int n, double d, double f, double c, double dp) {  // coherent sum of unit phasors
    std::complex<double> s = 0;
    for (int i = 0; i < n; ++i) s += std::polar(1.0, 2 * M_PI * d * f / c * dp * (i - (n - 1) / 2.0));
    return std::norm(s) / n / n;
}
template <class F> static double average(F fn) {  // solid angle average, midpoint rule on up and azimuth
    const int nu = 240, na = 360;
    double s = 0;
    for (int i = 0; i < nu; ++i) {
        double u = -1 + (i + 0.5) * 2.0 / nu, q = std::sqrt(1 - u * u);
        for (int j = 0; j < na; ++j) { double a = (j + 0.5) * 2 * M_PI / na; s += fn(V3{q * std::cos(a), q * std::sin(a), u}); }
    }
    return s / nu / na;
}
static dv direct(Case& C, Rng& R, const bp_model& bp, const std::vector<double>& f, V3 s, double c) {
    dv out = garbage(R, f.size());
    bp.directivity(sv(f), &out, bv(s), c);
    CHECK(out.size() == f.size(), "directivity.size", out.size());
    for (size_t i = 0; i < f.size(); ++i) {
        dv one = garbage(R, 1);
        bp.directivity(sv({f[i]}), &one, bv(s), c);
        NEARR(one[0], out[i], 1e-9, 0, "directivity.alone", "frequency " << f[i]);
    }
    vt::obs("directivities", f.size());
    return out;
}
static double levof(const bp_model& bp, V3 a, double f, V3 s, double c) {
    dv o(1);
    bp.beam_level(bv(a), sv({f}), &o, bv(s), c);
    return o[0];
}

static const bp_model& base(const bp_model& b) { return b; }

struct gate : bp_model {  // a user's pattern: each frequency has its own level, many of them exactly zero or one
    uint64_t seed;
    explicit gate(uint64_t s) : seed(s) {}
    double at(double f) const { Rng r(seed ^ (uint64_t)std::llround(f * 1e6)); return r.pick({0.0, 0.0, 1.0, r.u()}); }
    void beam_level(const bvector&, const seq_vector::csptr& f, vector<double>* L, const bvector&, double) const override { for (size_t i = 0; i < f->size(); ++i) (*L)(i) = at((*f)(i)); }
    void directivity(const seq_vector::csptr& f, vector<double>* L, const bvector&, double) const override { for (size_t i = 0; i < f->size(); ++i) (*L)(i) = 1; }
};
int main(int argc, char** argv) {
    vt::init(argc, argv);
    vt::section("line", 3000, [&](Case& C, Rng& R) {
        int n = R.in(1, 12);
        double c = R.chance(0.5) ? 1500 : R.uni(1400, 1600);
        auto f = freqs(R);
        double d = R.chance(0.5) ? c / f[0] * R.pick({0.25, 0.5, 1.0, 0.33}) : R.uni(0.01, 3);
        bool h = R.chance(0.5);
        V3 a = dirn(R), s = R.chance(0.3) ? a : dirn(R);
        C.in("n", n).in("d", d).in("type", h ? "HLA" : "VLA").in("a", a).in("s", s).in("c", c).inv("f", f);
        bp_line bp(n, d, h ? HLA : VLA);
        dv L = level(C, R, bp, a, f, s, c);
        double dp = h ? a.f - s.f : a.u - s.u;
        for (size_t i = 0; i < f.size(); ++i) NEAR(L[i], lineref(n, d, f[i], c, dp), 1e-9 + 1e-12 * n * n * d * f[i], "line.value", f[i] << " Hz");
        V3 b = a;  // turned about the axis
        double t = R.uni(-M_PI, M_PI);
        if (h) { double q = std::hypot(a.r, a.u); b.r = q * std::cos(t); b.u = q * std::sin(t); }
        else { double q = std::hypot(a.r, a.f); b.r = q * std::cos(t); b.f = q * std::sin(t); }
        dv T = level(C, R, bp, b, f, s, c);
        for (size_t i = 0; i < f.size(); ++i) NEAR(T[i], L[i], 1e-9, "line.symmetry", b);
        if (s.f == a.f && s.u == a.u) for (auto x : L) NEAR(x, 1.0, 1e-12, "line.steered", "peak");
        dv D = direct(C, R, bp, f, s, c);
        for (size_t i = 0; i < f.size(); ++i) {
            double k = 2 * M_PI * d * f[i] / c, w = 0, st = h ? s.f : s.u;
            for (int p = 0; p < n; ++p) for (int q = 0; q < n; ++q) w += p == q ? 1 : std::cos(k * (p - q) * st) * std::sin(k * (p - q)) / (k * (p - q));
            NEARR(D[i], w / n / n, 1e-9, 1e-12, "line.directivity", f[i] << " Hz");
        }
    });
    vt::section("planar", 2000, [&](Case& C, Rng& R) {
        int nu = R.in(1, 8), nr = R.in(1, 8);
        double c = R.chance(0.5) ? 1500 : R.uni(1400, 1600);
        auto f = freqs(R);
        double du = R.chance(0.5) ? c / f[0] * R.pick({0.25, 0.5, 1.0}) : R.uni(0.01, 2), dr = R.chance(0.5) ? du : R.uni(0.01, 2);
        bool baf = R.chance(0.5);
        V3 a = dirn(R), s = R.chance(0.3) ? a : dirn(R);
        C.in("nu", nu).in("du", du).in("nr", nr).in("dr", dr).in("baffle", baf).in("a", a).in("s", s).in("c", c).inv("f", f);
        bp_planar bp(nu, du, nr, dr, baf);
        dv L = level(C, R, bp, a, f, s, c);
        for (size_t i = 0; i < f.size(); ++i) {
            double want = baf && a.f <= 0 ? 0 : lineref(nu, du, f[i], c, a.u - s.u) * lineref(nr, dr, f[i], c, a.r - s.r);
            NEAR(L[i], want, 1e-9 + 1e-11 * f[i] * (du + dr), "planar.value", f[i] << " Hz");
        }
        if (nu > 1 && nr > 1) {
            V3 st{R.uni(0.5, 1), 0, 0};
            double q = std::sqrt(1 - sq(st.f)), t = R.uni(0, 2 * M_PI);
            st.r = q * std::cos(t); st.u = q * std::sin(t);
            dv D = direct(C, R, bp, f, st, c);
            for (size_t i = 0; i < f.size(); ++i)
                NEARR(D[i], 3 * sq(c / f[i]) / (2 * M_PI * M_PI * st.f * du * dr * std::sqrt((sq(nu) - 1) * (sq(nr) - 1))) * (baf ? 0.5 : 1), 1e-9, 0, "planar.directivity", f[i]);
        }
    });
    vt::section("arbitrary", 2000, [&](Case& C, Rng& R) {
        int n = R.in(1, 10);
        double c = R.uni(1400, 1600);
        auto f = freqs(R);
        matrix<double> loc(n, 3);
        boost::numeric::ublas::vector<std::complex<double> > w(n);
        dv wr(n);
        double sz = R.uni(0, 3) * c / f[0];
        for (int i = 0; i < n; ++i) {
            for (int k = 0; k < 3; ++k) loc(i, k) = R.uni(-sz, sz);
            wr[i] = R.uni(0, 2) + 0.01;
            w[i] = std::polar(wr[i], R.uni(-1, 1));
        }
        int kind = R.in(0, 2);
        bool baf = R.chance(0.4);
        V3 a = dirn(R), s = R.chance(0.3) ? a : dirn(R);
        C.in("n", n).in("kind", kind).in("size", sz).in("baffle", baf).in("a", a).in("s", s).in("c", c).inv("f", f).inv("loc", loc.data());
        std::unique_ptr<bp_arb> bp(kind == 0 ? new bp_arb(loc, baf) : kind == 1 ? new bp_arb(loc, wr, baf) : new bp_arb(loc, w, baf));
        dv L = garbage(R, f.size());
        bp->beam_level(bv(a), sv(f), &L, bv(s), c);
        for (size_t i = 0; i < f.size(); ++i) {
            std::complex<double> acc = 0, tot = 0;
            for (int j = 0; j < n; ++j) {
                std::complex<double> x = kind == 0 ? 1.0 : kind == 1 ? std::complex<double>(wr[j]) : w[j];
                double ph = 2 * M_PI * f[i] / c * ((a.f - s.f) * loc(j, 0) + (a.r - s.r) * loc(j, 1) + (a.u - s.u) * loc(j, 2));
                acc += x * std::polar(1.0, ph);
                tot += x;
            }
            // the sign of the phase is a matter of convention and only shows up for complex weights
            std::complex<double> neg = 0;
            for (int j = 0; j < n; ++j) {
                std::complex<double> x = kind == 0 ? 1.0 : kind == 1 ? std::complex<double>(wr[j]) : w[j];
                neg += x * std::polar(1.0, -2 * M_PI * f[i] / c * ((a.f - s.f) * loc(j, 0) + (a.r - s.r) * loc(j, 1) + (a.u - s.u) * loc(j, 2)));
            }
            double p = std::norm(acc) / std::norm(tot), q = std::norm(neg) / std::norm(tot), tol = 1e-8 * (1 + p + q);
            if (baf && a.f <= 0) p = q = 0;
            CHECK(vt::near(L[i], p, tol) || vt::near(L[i], q, tol), "arb.value", "got " << L[i] << " want " << p << " or " << q);
            if (kind < 2) CHECK(L[i] <= 1 + 1e-9, "level.range", L[i]);
            dv one = garbage(R, 1);
            bp->beam_level(bv(a), sv({f[i]}), &one, bv(s), c);
            NEARR(one[0], L[i], 1e-9, 1e-12, "level.alone", "frequency " << f[i]);
        }
        vt::obs("levels", f.size());
    });
    vt::section("axis_patterns", 3000, [&](Case& C, Rng& R) {
        double c = R.uni(1400, 1600);
        auto f = freqs(R);
        V3 a = dirn(R), s = dirn(R);
        int kind = R.in(0, 3);
        C.in("kind", kind).in("a", a).in("s", s).in("c", c).inv("f", f);
        if (kind == 0) {
            double N = R.chance(0.5) ? R.pick({0.0, 1.0, std::sqrt(3.0), 3.0}) : R.uni(0, 6);
            C.in("N", N);
            bp_cardioid bp(N);
            dv L = level(C, R, bp, a, f, s, c), D = direct(C, R, bp, f, s, c);
            for (auto x : L) NEAR(x, sq((1 + N * a.f) / (1 + N)), 1e-12, "cardioid.value", "");
            for (auto x : D) NEARR(x, (3 + N * N) / (3 * sq(1 + N)), 1e-12, 0, "cardioid.directivity", "");
        } else if (kind == 1) {
            double nul = R.chance(0.3) ? 300 : R.uni(0, 60);
            bool neg = R.chance(0.5), sine = R.chance(0.5);
            C.in("null", nul).in("sine", sine);
            bp_trig bp(sine ? bp_trig_type::sine : bp_trig_type::cosine, neg ? -nul : nul);
            double K = std::pow(10, -nul / 20);
            dv L = level(C, R, bp, a, f, s, c), D = direct(C, R, bp, f, s, c);
            for (auto x : L) NEAR(x, K + (1 - K) * sq(sine ? a.r : a.f), 1e-12, "trig.value", "");
            for (auto x : D) NEARR(x, K + (1 - K) / 3, 1e-12, 0, "trig.directivity", "");
        } else if (kind == 2) {
            bp_omni bp;
            dv L = level(C, R, bp, a, f, s, c), D = direct(C, R, bp, f, s, c);
            for (auto x : L) NEAR(x, 1, 0, "omni.value", "");
            for (auto x : D) NEAR(x, 1, 0, "omni.directivity", "");
        } else {
            double dia = R.chance(0.5) ? c / f[0] * R.uni(0.1, 6) : R.uni(0.01, 3);
            bool baf = R.chance(0.5);
            if (R.chance(0.2)) a.f = (1 + 2.3e-16) * (R.chance(0.5) ? 1 : -1), a.r = a.u = 0;
            C.in("diameter", dia).in("baffle", baf).in("a", a);
            bp_piston bp(dia, baf);
            dv L = level(C, R, bp, a, f, s, c), D = direct(C, R, bp, f, s, c);
            for (size_t i = 0; i < f.size(); ++i) {
                double ka = M_PI * dia * f[i] / c, x = ka * std::sqrt(sq(a.r) + sq(a.u));
                double w = x < 1e-7 ? 1 : sq(2 * std::cyl_bessel_j(1.0, x) / x);
                NEAR(L[i], baf && a.f <= 0 ? 0 : w, 1e-8, "piston.value", f[i] << " Hz");
                // average of the response over the sphere
                double avg = (1 - std::cyl_bessel_j(1.0, 2 * ka) / ka) / sq(ka) * (baf ? 1 : 2);
                if (ka > 5) NEARR(D[i], avg, 0.1, 0, "piston.directivity", f[i] << " Hz ka " << ka);
            }
        }
    });
    vt::section("solid", 3000, [&](Case& C, Rng& R) {
        double vw = R.chance(0.2) ? R.pick({180.0, 90.0, 45.0}) : R.uni(1, 180), hw = R.chance(0.3) ? R.pick({360.0, 180.0, 90.0}) : R.uni(1, 360);
        bool gauss = R.chance(0.5), dflt = R.chance(0.1);
        if (dflt) hw = 360;
        double de = R.uni(-89, 89), az = R.uni(-180, 180), sde = R.uni(-89, 89), saz = R.chance(0.4) ? R.pick({180.0, -180.0, 179.0, -179.0, -90.0, -91.0, 90.0}) : R.uni(-180, 180);
        if (R.chance(0.5)) { de = std::max(-89.5, std::min(89.5, sde + R.uni(-1, 1) * vw * 0.6)); az = std::remainder(saz + R.uni(-1, 1) * hw * 0.6, 360); }
        C.in("gauss", gauss).in("vw", vw).in("hw", hw).in("de", de).in("az", az).in("sde", sde).in("saz", saz);
        std::unique_ptr<bp_model> bp(gauss ? (dflt ? new bp_gaussian(vw) : new bp_gaussian(vw, hw)) : (dflt ? new bp_solid(vw) : new bp_solid(vw, hw)));
        auto v3 = [](double d, double z) { d *= M_PI / 180; z *= M_PI / 180; return V3{std::cos(d) * std::cos(z), std::cos(d) * std::sin(z), std::sin(d)}; };
        auto f = freqs(R);
        dv L = level(C, R, *bp, v3(de, az), f, v3(sde, saz), 1500);
        double dd = std::fabs(de - sde), da = std::fabs(std::remainder(az - saz, 360));
        double want;
        bool skip = false;
        if (gauss) {
            double x = vw < 180 ? dd / vw : 0, y = hw < 360 ? da / hw : 0;
            want = std::exp(-0.5 * (x * x + y * y));
        } else {
            want = dd <= vw / 2 && da <= hw / 2 ? 1 : 0;
            skip = std::fabs(dd - vw / 2) < 1e-9 || std::fabs(da - hw / 2) < 1e-9;
        }
        if (!skip) for (auto x : L) NEAR(x, want, 1e-9, gauss ? "gaussian.value" : "solid.value", "de off " << dd << " az off " << da);
        dv P = level(C, R, *bp, v3(sde, saz), f, v3(sde, saz), 1500);
        for (auto x : P) NEAR(x, 1.0, 1e-12, "solid.steered", "peak");
        dv D = direct(C, R, *bp, f, v3(sde, saz), 1500);
        double span = std::min(90.0, sde + vw / 2) - std::max(-90.0, sde - vw / 2);
        for (auto x : D) NEARR(x, span / 180 * hw / 360, 1e-9, 0, "solid.directivity", "");
        // straight up and down, including rounding above one
        V3 up{0, 0, R.chance(0.5) ? 1.0 + 2.3e-16 : -1.0 - 2.3e-16};
        dv U = level(C, R, *bp, up, f, v3(sde, saz), 1500);
        if (hw >= 360 && std::fabs(std::fabs(up.u * 90 - sde) - vw / 2) > 1e-6)
            for (auto x : U) NEAR(x, gauss ? (vw < 180 ? std::exp(-0.5 * sq((up.u * 90 - sde) / vw)) : 1) : (std::fabs(up.u * 90 - sde) <= vw / 2 ? 1 : 0), 1e-8, "solid.vertical", up.u);
    });
    vt::section("grid", 1500, [&](Case& C, Rng& R) {
        int nf = R.in(1, 4), nd = R.in(2, 6), na = R.in(2, 8);
        std::vector<double> fa(nf), da(nd), aa(na);
        for (int i = 0; i < nf; ++i) fa[i] = (i ? fa[i - 1] : 50) + R.uni(50, 500);
        for (int i = 0; i < nd; ++i) da[i] = -90 + 180.0 * i / (nd - 1);
        for (int i = 0; i < na; ++i) aa[i] = -180 + 360.0 * i / (na - 1);
        seq_vector::csptr ax[3] = {sv(fa), sv(da), sv(aa)};
        auto* g = new gen_grid<3>(ax);
        std::vector<double> data(nf * nd * na);
        for (int i = 0; i < nf; ++i) for (int j = 0; j < nd; ++j) for (int k = 0; k < na; ++k) {
            size_t ix[3] = {(size_t)i, (size_t)j, (size_t)k};
            double v = data[(i * nd + j) * na + k] = R.u();
            g->setdata(ix, v);
        }
        for (int i = 0; i < 3; ++i) g->edge_limit(i, true);
        int it = R.in(0, 1);
        for (int i = 0; i < 3; ++i) g->interp_type(i, it ? interp_enum::linear : interp_enum::nearest);
        C.in("nf", nf).in("nd", nd).in("na", na).in("linear", it);
        bp_grid bp{data_grid<3>::csptr(g)};
        for (int rep = 0; rep < 4; ++rep) {
            bool node = R.chance(0.5);
            int j = R.in(0, nd - 1), k = R.in(0, na - 1);
            double de = node ? da[j] : R.uni(-90, 90), az = node ? aa[k] : R.uni(-180, 180);
            if (node && (j == 0 || j == nd - 1 || k == 0 || k == na - 1)) { j = nd > 2 ? 1 : 0; node = nd > 2 && na > 2; k = na > 2 ? 1 : 0; de = node ? da[j] : 10; az = node ? aa[k] : 20; }
            V3 a{std::cos(de * M_PI / 180) * std::cos(az * M_PI / 180), std::cos(de * M_PI / 180) * std::sin(az * M_PI / 180), std::sin(de * M_PI / 180)};
            std::vector<double> f;
            for (int i = 0; i < R.in(1, 4); ++i) f.push_back(0);
            double x = node ? 0 : R.uni(60, 200);
            std::vector<int> fi;
            for (size_t i = 0; i < f.size(); ++i) { if (node) { int q = std::min<int>(i, nf - 1); fi.push_back(q); f[i] = fa[q] + (i >= (size_t)nf ? 1e3 * (i - nf + 1) : 0); } else f[i] = x, x += R.uni(50, 300); }
            C.in("de", de).in("az", az);
            dv L = level(C, R, bp, a, f, dirn(R), 1500);
            for (size_t i = 0; i < f.size(); ++i) {
                double loc[3] = {f[i], de, az};
                double want = node ? data[(fi[i] * nd + j) * na + k] : g->interpolate(loc);
                if (!node && !it) {  // nearest: keep away from ties
                    double dt = std::fmod((de + 90) / (180.0 / (nd - 1)), 1), at = std::fmod((az + 180) / (360.0 / (na - 1)), 1);
                    if (std::fabs(dt - 0.5) < 1e-6 || std::fabs(at - 0.5) < 1e-6) continue;
                }
                NEAR(L[i], want, 1e-9, "grid.value", "node " << node << " f " << f[i]);
            }
        }
        dv up = level(C, R, bp, V3{0, 0, 1 + 2.3e-16}, {100}, dirn(R), 1500);
        (void)up;
    });
    vt::section("multi", 2000, [&](Case& C, Rng& R) {
        auto f = freqs(R);
        double c = R.uni(1400, 1600);
        int n = R.in(1, 4);
        std::list<bp_model::csptr> l;
        for (int i = 0; i < n; ++i) switch (R.in(0, 5)) {
            case 5: l.emplace_back(new gate(R.next())); break;
            case 0: l.emplace_back(new bp_line(R.in(1, 6), 0.5, R.chance(0.5) ? HLA : VLA)); break;
            case 1: l.emplace_back(new bp_cardioid(R.uni(0, 3))); break;
            case 2: l.emplace_back(new bp_planar(3, 0.5, 4, 0.6, true)); break;
            case 3: l.emplace_back(new bp_piston(R.uni(0.1, 1), true)); break;
            default: l.emplace_back(new bp_omni());
        }
        bool sum = R.chance(0.5);
        V3 a = dirn(R), s = dirn(R);
        C.in("n", n).in("sum", sum).in("a", a).in("s", s).inv("f", f);
        bp_multi bp(l, sum ? bp_multi_type::sum : bp_multi_type::product);
        dv L = garbage(R, f.size());
        bp.beam_level(bv(a), sv(f), &L, bv(s), c);
        for (size_t i = 0; i < f.size(); ++i) {
            double w = sum ? 0 : 1;
            for (auto& p : l) { double x = levof(*p, a, f[i], s, c); w = sum ? w + x : w * x; }
            NEARR(L[i], w, 1e-9, 1e-12, sum ? "multi.sum" : "multi.product", f[i] << " Hz");
        }
        vt::obs("levels", f.size());
    });
    vt::section("average", 48, [&](Case& C, Rng& R) {
        // default directivity is the numeric average of the response; the closed forms agree with it
        double c = 1500, f = R.uni(200, 1200);
        V3 s = R.chance(0.5) ? V3{1, 0, 0} : dirn(R);
        std::unique_ptr<bp_model> bp;
        bool generic = false;
        double tol = 0.02;
        int k = C.index % 6;
        switch (k) {
            case 0: bp.reset(new bp_line(R.in(1, 7), R.uni(0.2, 0.9), R.chance(0.5) ? HLA : VLA)); break;
            case 1: bp.reset(new bp_cardioid(R.uni(0, 4))); break;
            case 2: bp.reset(new bp_trig(R.chance(0.5) ? bp_trig_type::sine : bp_trig_type::cosine, R.uni(0, 40))); break;
            case 3: { matrix<double> loc(4, 3); for (auto& x : loc.data()) x = R.uni(-1, 1); bp.reset(new bp_arb(loc, R.chance(0.5))); generic = true; break; }
            case 4: { std::list<bp_model::csptr> l; l.emplace_back(new bp_line(4, 0.6, VLA)); l.emplace_back(new bp_cardioid(R.uni(0, 2))); bp.reset(new bp_multi(l)); generic = true; break; }
            default: bp.reset(new bp_piston(R.uni(2.5, 4) * c / f, R.chance(0.5))); tol = 0.1;
        }
        C.in("kind", k).in("s", s).in("f", f);
        dv D = direct(C, R, *bp, {f, 1.3 * f}, s, c);
        double avg = average([&](V3 a) { return levof(*bp, a, f, s, c); });
        NEARR(D[0], avg, generic ? 0.02 : tol, 1e-4, "directivity.average", "");
    });
    vt::section("rotated", 2000, [&](Case& C, Rng& R) {
        double y = R.uni(-180, 180), p = R.uni(-80, 80), r = R.chance(0.4) ? 0 : R.uni(-180, 180);
        orientation o(y, p, r);
        y *= M_PI / 180; p *= M_PI / 180; r *= M_PI / 180;
        V3 F{std::cos(p) * std::cos(y), std::cos(p) * std::sin(y), std::sin(p)}, R0{-std::sin(y), std::cos(y), 0}, U0{-std::sin(p) * std::cos(y), -std::sin(p) * std::sin(y), std::cos(p)};
        V3 Rt{R0.f * std::cos(r) - U0.f * std::sin(r), R0.r * std::cos(r) - U0.r * std::sin(r), R0.u * std::cos(r) - U0.u * std::sin(r)};
        V3 a = dirn(R);
        C.in("yaw", y).in("pitch", p).in("roll", r).in("a", a);
        bp_cardioid card(1.0);
        bp_trig sine(bp_trig_type::sine, 40);
        auto fr = sv({500, 900});
        dv L = garbage(R, 2);
        base(card).beam_level(bv(a), o, fr, &L);
        double w = sq((1 + dot(a, F)) / 2);
        for (auto x : L) NEAR(x, w, 1e-9, "rotated.front", "front of the rotated array");
        base(sine).beam_level(bv(a), o, fr, &L);
        w = 0.01 + 0.99 * sq(dot(a, Rt));
        for (auto x : L) NEAR(x, w, 1e-9, "rotated.right", "right side of the rotated array");
        base(card).beam_level(bv(F), o, fr, &L);
        for (auto x : L) NEAR(x, 1.0, 1e-9, "rotated.peak", "");
    });
    vt::section("layouts", 500, [&](Case& C, Rng& R) {
        int nf = R.in(1, 4), nr = R.in(1, 4), nu = R.in(1, 4);
        double sf = R.uni(0, 2), sr = R.uni(0, 2), su = R.uni(0, 2);
        matrix<double> m;
        bp_con_uniform(nf, sf, nr, sr, nu, su, &m);
        C.in("nf", nf).in("nr", nr).in("nu", nu).in("sf", sf);
        CHECK(m.size1() == (size_t)nf * nr * nu && m.size2() == 3, "uniform.size", m.size1());
        size_t i = 0;
        if (m.size1() == (size_t)nf * nr * nu)
            for (int u = 0; u < nu; ++u) for (int e = 0; e < nr; ++e) for (int n = 0; n < nf; ++n, ++i)
                CHECK(vt::near(m(i, 0), (n - (nf - 1) / 2.0) * sf, 1e-12) && vt::near(m(i, 1), (e - (nr - 1) / 2.0) * sr, 1e-12) && vt::near(m(i, 2), (u - (nu - 1) / 2.0) * su, 1e-12), "uniform.value", "element " << i);
        int rings = R.in(1, 4);
        dv rad(rings), off(rings);
        boost::numeric::ublas::vector<int> num(rings);
        int tot = 0;
        for (int k = 0; k < rings; ++k) { rad[k] = R.uni(0.1, 4); off[k] = R.uni(-7, 7); tot += num[k] = R.in(1, 7); }
        bp_con_ring(rad, num, off, &m);
        CHECK(m.size1() == (size_t)tot && m.size2() == 3, "ring.size", m.size1() << " want " << tot);
        i = 0;
        if (m.size1() == (size_t)tot)
            for (int k = 0; k < rings; ++k) for (int j = 0; j < num[k]; ++j, ++i) {
                double a = off[k] - 2 * M_PI * j / num[k];
                CHECK(vt::near(m(i, 0), rad[k] * std::cos(a), 1e-9) && vt::near(m(i, 1), rad[k] * std::sin(a), 1e-9) && m(i, 2) == 0, "ring.value", "ring " << k << " element " << j);
            }
    });
    vt::section("defaults", 400, [&](Case& C, Rng& R) {  // what an omitted argument stands for
        auto f = freqs(R);
        V3 a = dirn(R), fwd{1, 0, 0};
        orientation o(R.uni(-180, 180), R.uni(-80, 80), R.uni(-180, 180));
        double d = R.uni(0.1, 2), dia = R.uni(0.3, 5), vw = R.uni(5, 80), hw = R.uni(5, 300);
        int n = R.in(2, 6), m = R.in(2, 6);
        C.in("a", a).in("d", d).in("n", n).inv("f", f);
        matrix<double> el(n, 3);
        for (auto& x : el.data()) x = R.uni(-1, 1);
        bp_line h(n, d, HLA), v(n, d, VLA);
        bp_planar pl(n, d, m, d), pl2(n, d, m, d, false);
        bp_arb ar(el), ar2(el, false);
        bp_cardioid ca, ca2(1.0);
        bp_gaussian ga(vw), ga2(vw, 360.0), gb(vw, hw);
        bp_solid so(vw), so2(vw, 360.0), sb(vw, hw);
        bp_piston pi(dia), pi2(dia, false);
        bp_trig tr, tr2(bp_trig_type::cosine, -300.0), ts(bp_trig_type::sine), ts2(bp_trig_type::sine, -300.0);
        bp_omni om;
        std::list<bp_model::csptr> list{bp_model::csptr(new bp_line(n, d, HLA)), bp_model::csptr(new bp_cardioid(0.5))};
        bp_multi mu(list), mu2(list, bp_multi_type::product);
        struct { const bp_model *shortened, *full; const char* name; } all[] = {{&h, &h, "hla"}, {&v, &v, "vla"}, {&pl, &pl2, "planar"}, {&ar, &ar2, "arb"}, {&ca, &ca2, "cardioid"}, {&ga, &ga2, "gaussian"}, {&gb, &gb, "gaussian"}, {&so, &so2, "solid"}, {&sb, &sb, "solid"}, {&pi, &pi2, "piston"}, {&tr, &tr2, "cosine"}, {&ts, &ts2, "sine"}, {&om, &om, "omni"}, {&mu, &mu2, "multi"}};
        auto eq = [&](const dv& x, const dv& y) { bool e = x.size() == y.size(); for (size_t i = 0; e && i < x.size(); ++i) e = vt::same(x[i], y[i]); return e; };
        auto calls = [&](auto& s, const bp_model& w, const char* name) {  // through the pattern's own type, where the defaults can differ from the base class
            dv x(f.size(), 9.0), y(f.size(), 8.0);
            s.beam_level(bv(a), sv(f), &x);
            w.beam_level(bv(a), sv(f), &y, bv(fwd), 1500.0);
            CHECK(eq(x, y), MSG("defaults.level." << name), "level without steering and sound speed");
        };
        auto gains = [&](auto& s, const bp_model& w, const char* name) {
            dv x(f.size(), 9.0), y(f.size(), 8.0);
            s.directivity(sv(f), &x);
            w.directivity(sv(f), &y, bv(fwd), 1500.0);
            CHECK(eq(x, y), MSG("defaults.directivity." << name), "directivity without steering and sound speed");
        };
        for (auto& p : all) {
            calls(*p.shortened, *p.full, p.name);
            dv x(f.size(), 9.0), y(f.size(), 8.0);
            p.shortened->beam_level(bv(a), o, sv(f), &x);
            p.full->beam_level(bv(a), o, sv(f), &y, bv(fwd), 1500.0);
            CHECK(eq(x, y), MSG("defaults.rotated." << p.name), "rotated level without steering and sound speed");
        }
        calls(h, h, "hla"); calls(v, v, "vla"); calls(pl, pl2, "planar"); calls(ar, ar2, "arb"); calls(ca, ca2, "cardioid"); calls(ga, ga2, "gaussian");
        calls(so, so2, "solid"); calls(pi, pi2, "piston"); calls(tr, tr2, "cosine"); calls(ts, ts2, "sine"); calls(om, om, "omni"); calls(mu, mu2, "multi");
        if (C.index % 10 == 0) {
            gains(h, h, "hla"); gains(v, v, "vla"); gains(pl, pl2, "planar"); gains(ca, ca2, "cardioid"); gains(so, so2, "solid"); gains(pi, pi2, "piston"); gains(tr, tr2, "cosine"); gains(om, om, "omni");
            gains(base(h), h, "hla"); gains(base(pl), pl2, "planar"); gains(base(pi), pi2, "piston");
        }
        vt::obs("defaults");
    });
    return vt::finish();
}
