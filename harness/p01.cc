// P01: sound speed profiles and their gradients.
#include <usml/ocean/ocean.h>
#include <usml/types/types.h>
#include "vt.h"
using namespace usml::ocean;
using namespace usml::types;
using boost::numeric::ublas::matrix;
static double E() { return wposition::earth_radius; }
struct Pt { double rho, theta, phi; };
typedef std::function<double(const Pt&)> Fn;
static wposition1 pos(const Pt& p) { wposition1 q; q.rho(p.rho); q.theta(p.theta); q.phi(p.phi); return q; }
static double ask(const profile_model& m, const Pt& p, wvector* g = nullptr) {
    wposition w(1, 1);
    w.rho(0, 0, p.rho); w.theta(0, 0, p.theta); w.phi(0, 0, p.phi);
    matrix<double> s(1, 1);
    s(0, 0) = -1;
    m.sound_speed(w, &s, g);
    return s(0, 0);
}
// formula, gradient, many against one, optional gradient, unchanged location
// kinks: 0 = smooth at this point; d = difference step per direction
static void judge(Case& C, Rng& R, const profile_model& m, const Fn& want, double tol, const std::function<Pt()>& at, const std::function<bool(const Pt&, int, double)>& smooth, const double step[3], double gtol) {
    size_t n = R.in(1, 4), k = R.in(1, 4);
    wposition w(n, k);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < k; ++j) { auto p = at(); w.rho(i, j, p.rho); w.theta(i, j, p.theta); w.phi(i, j, p.phi); }
    wposition keep = w;
    matrix<double> s(n, k), s2(n, k);
    wvector g(n, k);
    bool dirty = R.chance(0.5);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < k; ++j) { s(i, j) = -3; s2(i, j) = 8; double q = dirty ? R.uni(-5, 5) : 0; g.rho(i, j, q); g.theta(i, j, 2 * q); g.phi(i, j, -q); }
    m.sound_speed(w, &s, &g);
    m.sound_speed(w, &s2, nullptr);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < k; ++j) {
        Pt p{w.rho(i, j), w.theta(i, j), w.phi(i, j)};
        CHECK(p.rho == keep.rho(i, j) && p.theta == keep.theta(i, j) && p.phi == keep.phi(i, j), "location_changed", i);
        NEARR(s(i, j), want(p), tol, 0, "speed", "depth " << E() - p.rho << " theta " << p.theta << " phi " << p.phi);
        CHECK(s(i, j) > 0, "positive", s(i, j));
        NEARR(s2(i, j), s(i, j), 1e-12, 0, "optional_gradient", "speed with the gradient " << s(i, j));
        wvector g1(1, 1);
        NEARR(ask(m, p, &g1), s(i, j), 1e-12, 0, "independent", "alone and together differ");
        CHECK(vt::nearr(g1.rho(0, 0), g.rho(i, j), 1e-9, 1e-15) && vt::nearr(g1.theta(0, 0), g.theta(i, j), 1e-9, 1e-12) && vt::nearr(g1.phi(0, 0), g.phi(i, j), 1e-9, 1e-12), "independent.gradient",
              "together " << g.rho(i, j) << "," << g.theta(i, j) << "," << g.phi(i, j) << " alone " << g1.rho(0, 0) << "," << g1.theta(0, 0) << "," << g1.phi(0, 0));
        double got[3] = {g.rho(i, j), g.theta(i, j), g.phi(i, j)};
        const char* dir[3] = {"depth", "colatitude", "longitude"};
        for (int d = 0; d < 3; ++d) {
            if (!smooth(p, d, step[d] * 2)) continue;
            auto shift = [&](double x) { Pt q = p; (d == 0 ? q.rho : d == 1 ? q.theta : q.phi) += x; return ask(m, q); };
            double h = step[d], fd = (8 * (shift(h) - shift(-h)) - (shift(2 * h) - shift(-2 * h))) / (12 * h), scale = 2e-12 * s(i, j) / h;
            NEARR(got[d], fd, gtol, 5 * scale + gtol * 1e-3, MSG("gradient." << dir[d]), "depth " << E() - p.rho << " speed " << s(i, j));
            vt::obs("gradients");
        }
        vt::obs("points");
    }
}
static Pt deep(Rng& R, double z0 = 0, double z1 = 6000) { return Pt{E() - R.uni(z0, z1), R.uni(0.2, 2.9), R.uni(-3.1, 3.1)}; }
static seq_vector::csptr axis(Rng& R, double lo, double hi, size_t n, bool even) {
    bool up = R.chance(0.6);
    if (even) { double d = (hi - lo) / (n - 1); return seq_vector::csptr(up ? new seq_linear(lo, d, (int)n) : new seq_linear(hi, -d, (int)n)); }
    std::vector<double> v;
    for (size_t i = 0; i < n; ++i) v.push_back(lo + (hi - lo) * (i + (i && i + 1 < n ? R.uni(-0.35, 0.35) : 0)) / (n - 1));
    if (!up) std::reverse(v.begin(), v.end());
    return seq_vector::csptr(new seq_data(v.data(), v.size()));
}
template <size_t N> static void gridded(Case& C, Rng& R) {
    seq_vector::csptr ax[N];
    double lo[3] = {E() - 5000, R.uni(0.3, 2.3), R.uni(-3, 2.5)}, hi[3] = {E() - R.uni(0, 50), 0, 0};
    hi[1] = lo[1] + R.logu(0.01, 0.4); hi[2] = lo[2] + R.logu(0.01, 0.4);
    bool fast = N == 3 && R.chance(0.4);
    size_t sz[3] = {(size_t)R.in(3, 8), (size_t)R.in(2, 5), (size_t)R.in(2, 5)};
    if (fast) for (auto& s : sz) s = std::max<size_t>(s, 3);
    for (size_t d = 0; d < N; ++d) ax[d] = axis(R, lo[d], hi[d], sz[d], d > 0 && (fast || R.chance(0.6)));
    auto g = std::make_shared<gen_grid<N>>(ax);
    double ch = R.chance(0.2) ? 0 : R.uni(1, 40);
    size_t k[N];
    for (size_t a = 0; a < sz[0]; ++a) for (size_t b = 0; b < (N > 1 ? sz[1] : 1); ++b) for (size_t c = 0; c < (N > 2 ? sz[2] : 1); ++c) {
        size_t full[3] = {a, b, c};
        for (size_t d = 0; d < N; ++d) k[d] = full[d];
        g->setdata(k, 1500 + R.uni(-ch, ch));
    }
    bool lin[3];
    for (size_t d = 0; d < N; ++d) {
        lin[d] = fast ? d > 0 : R.chance(0.5);
        g->interp_type(d, lin[d] ? interp_enum::linear : interp_enum::pchip); g->edge_limit(d, true);
    }
    std::shared_ptr<const data_grid<N>> dg = g;
    if constexpr (N == 3) if (fast) dg.reset(new data_grid_svp(dg));
    profile_grid<N> m(dg);
    bool flat = R.chance(0.3);
    m.flat_earth(flat);
    C.in("dims", N).in("fast", fast).in("flat_earth", flat).in("sizes", MSG(sz[0] << "," << sz[1] << "," << sz[2])).in("range", ch);
    for (size_t d = 0; d < N; ++d) C.in("linear", lin[d]);
    Fn want = [&](const Pt& p) {
        double loc[3] = {p.rho, p.theta, p.phi};
        double c = dg->interpolate(loc);
        return flat ? c * p.rho / E() : c;
    };
    auto at = [&] {
        double v[3] = {0, R.uni(0.3, 2.8), R.uni(-3, 3)};
        for (size_t d = 0; d < N; ++d) v[d] = R.uni(lo[d] - 0.1 * (hi[d] - lo[d]), hi[d] + 0.1 * (hi[d] - lo[d]));
        return Pt{v[0], v[1], v[2]};
    };
    bool cubic = false;  // the slopes of the general cubic grid are node slopes, G01 decides them
    for (size_t d = 0; d < N; ++d) cubic = cubic || (!lin[d] && !fast);
    auto smooth = [&](const Pt& p, int d, double h) {
        double v[3] = {p.rho, p.theta, p.phi};
        if (d >= (int)N) return true;
        if (cubic) return false;
        for (double x : *ax[d]) if (std::fabs(v[d] - x) < h * 1.5) return false;
        for (size_t q = 0; q < N; ++q) if (v[q] < lo[q] || v[q] > hi[q]) return false;
        return true;
    };
    double step[3] = {5, 1e-4, 1e-4};
    for (int d = 1; d < 3; ++d) step[d] = 0.01 * (hi[d] - lo[d]);
    judge(C, R, m, want, 1e-12, at, smooth, step, 1e-5);
    if (cubic) {  // what the grid says, handed on with every direction in its place
        auto p = at();
        double loc[3] = {p.rho, p.theta, p.phi}, gr[3] = {0, 0, 0}, c = dg->interpolate(loc, gr);
        wvector v(1, 1);
        v.rho(0, 0, 9); v.theta(0, 0, 8); v.phi(0, 0, 7);
        ask(m, p, &v);
        double f = flat ? p.rho / E() : 1;
        NEARR(v.rho(0, 0), N > 0 ? gr[0] * f + (flat ? c / E() : 0) : 0, 1e-9, 1e-14, "grid.gradient", "depth");
        NEARR(v.theta(0, 0), N > 1 ? gr[1] * f : 0, 1e-9, 1e-12, "grid.gradient", "colatitude");
        NEARR(v.phi(0, 0), N > 2 ? gr[2] * f : 0, 1e-9, 1e-12, "grid.gradient", "longitude");
    }
}

int main(int argc, char** argv) {
    vt::init(argc, argv);
    const double step[3] = {2, 1e-3, 1e-3};
    auto always = [](const Pt&, int, double) { return true; };
    vt::section("linear", 3000, [&](Case& C, Rng& R) {
        double c0 = R.uni(1400, 1600), g0 = R.uni(-0.05, 0.05), z1 = R.uni(50, 4000), g1 = R.uni(-0.05, 0.05);
        int form = R.in(0, 2);
        bool flat = R.chance(0.3);
        C.in("form", form).in("c0", c0).in("g0", g0).in("z1", z1).in("g1", g1).in("flat_earth", flat);
        std::unique_ptr<profile_linear> m(form == 0 ? new profile_linear(c0) : form == 1 ? new profile_linear(c0, g0) : new profile_linear(c0, g0, z1, g1));
        m->flat_earth(flat);
        judge(C, R, *m, [&](const Pt& p) {
            double z = E() - p.rho, c = form == 0 ? c0 : form == 1 || z < z1 ? c0 + g0 * z : c0 + g0 * z1 + g1 * (z - z1);
            return flat ? c * p.rho / E() : c;
        }, 1e-11, [&] { auto p = deep(R, -10); if (R.chance(0.1)) p.rho = E() - z1; return p; },
              [&](const Pt& p, int d, double h) { return d || form < 2 || std::fabs(E() - p.rho - z1) > h; }, step, 1e-6);
    });
    vt::section("munk", 2000, [&](Case& C, Rng& R) {
        double z1 = R.uni(500, 2000), B = R.uni(500, 2500), c1 = R.uni(1450, 1550), e = R.uni(0.001, 0.01);
        bool flat = R.chance(0.3), def = R.chance(0.2);
        if (def) z1 = 1300, B = 1300, c1 = 1500, e = 7.37e-3;
        C.in("z1", z1).in("B", B).in("c1", c1).in("e", e).in("flat_earth", flat).in("default", def);
        std::unique_ptr<profile_munk> m(def ? new profile_munk() : new profile_munk(z1, B, c1, e));
        m->flat_earth(flat);
        judge(C, R, *m, [&](const Pt& p) {
            double z = 2 * (E() - p.rho - z1) / B, c = c1 * (1 + e * (z - 1 + std::exp(-z)));
            return flat ? c * p.rho / E() : c;
        }, 1e-10, [&] { return deep(R); }, always, step, 1e-5);
    });
    vt::section("catenary", 2000, [&](Case& C, Rng& R) {
        double c1 = R.uni(1450, 1550), g1 = R.uni(5000, 60000), z1 = R.uni(200, 3000);
        bool flat = R.chance(0.3);
        C.in("z1", z1).in("c1", c1).in("g1", g1).in("flat_earth", flat);
        profile_catenary m(c1, g1, z1);
        m.flat_earth(flat);
        judge(C, R, m, [&](const Pt& p) {
            double c = c1 * std::cosh((E() - p.rho - z1) / g1);
            return flat ? c * p.rho / E() : c;
        }, 1e-11, [&] { return deep(R); }, always, step, 1e-5);
    });
    vt::section("n2", 2000, [&](Case& C, Rng& R) {
        double c0 = R.uni(1450, 1550), g0 = R.uni(0.01, 1.3);
        bool flat = R.chance(0.3);
        C.in("c0", c0).in("g0", g0).in("flat_earth", flat);
        profile_n2 m(c0, g0);
        m.flat_earth(flat);
        judge(C, R, m, [&](const Pt& p) {
            double c = c0 / std::sqrt(1 - 2 * g0 / c0 * (p.rho - E()));
            return flat ? c * p.rho / E() : c;
        }, 1e-10, [&] { return deep(R); }, always, step, 1e-5);
    });
    vt::section("grid1", 1500, [&](Case& C, Rng& R) { gridded<1>(C, R); });
    vt::section("grid2", 1500, [&](Case& C, Rng& R) { gridded<2>(C, R); });
    vt::section("grid3", 2500, [&](Case& C, Rng& R) { gridded<3>(C, R); });
    vt::section("mackenzie", 800, [&](Case& C, Rng& R) {
        size_t sz[3] = {(size_t)R.in(2, 6), (size_t)R.in(2, 5), (size_t)R.in(2, 5)};
        seq_vector::csptr ax[3] = {axis(R, E() - 5000, E(), sz[0], false), axis(R, 0.5, 0.6, sz[1], true), axis(R, 1, 1.1, sz[2], true)};
        auto t = std::make_shared<gen_grid<3>>(ax), s = std::make_shared<gen_grid<3>>(ax);
        for (size_t a = 0; a < sz[0]; ++a) for (size_t b = 0; b < sz[1]; ++b) for (size_t c = 0; c < sz[2]; ++c) { size_t k[3] = {a, b, c}; t->setdata(k, R.uni(-2, 32)); s->setdata(k, R.uni(25, 40)); }
        for (int d = 0; d < 3; ++d) t->interp_type(d, d ? interp_enum::linear : interp_enum::pchip), t->edge_limit(d, R.chance(0.7));
        C.in("sizes", MSG(sz[0] << "," << sz[1] << "," << sz[2]));
        auto m = std::make_shared<data_grid_mackenzie>(t, s);
        profile_grid<3> prof(m);
        for (size_t a = 0; a < sz[0]; ++a) for (size_t b = 0; b < sz[1]; ++b) for (size_t c = 0; c < sz[2]; ++c) {
            size_t k[3] = {a, b, c};
            double T = t->data(k), S = s->data(k), D = E() - (*ax[0])[a];
            double w = 1448.96 + 4.591 * T - 5.304e-2 * T * T + 2.374e-4 * T * T * T + 1.340 * (S - 35) + 1.630e-2 * D + 1.675e-7 * D * D - 1.025e-2 * T * (S - 35) - 7.139e-13 * T * D * D * D;
            NEARR(m->data(k), w, 1e-12, 0, "mackenzie.node", "T " << T << " S " << S << " D " << D);
            NEARR(ask(prof, Pt{(*ax[0])[a], (*ax[1])[b], (*ax[2])[c]}), w, 1e-6, 0, "mackenzie.profile", "node");
            vt::obs("mackenzie_nodes");
        }
        for (int d = 0; d < 3; ++d) CHECK(m->interp_type(d) == t->interp_type(d) && m->edge_limit(d) == t->edge_limit(d), "mackenzie.rules", d);
    });
    vt::section("text", 800, [&](Case& C, Rng& R) {
        size_t n = R.in(2, 12);
        std::vector<double> z, c;
        double d = R.uni(-5, 30);
        for (size_t i = 0; i < n; ++i) z.push_back(std::round(d * 100) / 100), c.push_back(std::round(R.uni(1400, 1600) * 100) / 100), d += R.uni(5, 400);
        const char* sep = R.pick({",", ", ", " ", "\t", " , "});
        const char* nl = R.chance(0.25) ? "\r\n" : "\n";
        int extra = R.chance(0.4) ? R.in(1, 3) : 0, bad = R.chance(0.15) ? R.in(1, 3) : 0;
        bool noend = R.chance(0.3), mid = R.chance(0.15);
        C.inv("depth", z).inv("speed", c).in("sep", sep).in("blank_lines", extra).in("malformed", bad).in("crlf", nl[0] == '\r');
        std::string name = vt::S().scratch + "/p.csv";
        {
            std::ofstream o(name);
            o.precision(12);
            if (bad == 1) o << "depth" << sep << "speed" << nl;
            for (size_t i = 0; i < n && bad != 3; ++i) {
                o << z[i] << sep;
                if (bad == 2 && i == n - 1) o << "x"; else o << c[i];
                if (i + 1 < n || !noend || extra) o << nl;
                if (mid && i == 0) o << nl;
            }
            for (int i = 0; i < extra; ++i) o << (R.chance(0.3) ? "  " : "") << nl;
        }
        if (bad) {
            bool threw = false;
            try { ascii_profile p(name.c_str()); } catch (std::exception&) { threw = true; }
            CHECK(threw, "text.malformed", "accepted a malformed file " << bad);
            vt::obs("malformed_files");
            return;
        }
        auto* g = new ascii_profile(name.c_str());
        data_grid<1>::csptr dg(g);
        profile_grid<1> prof(dg);
        CHECK(g->axis(0).size() == n, "text.size", g->axis(0).size() << " samples, wrote " << n);
        if (g->axis(0).size() != n) return;
        for (size_t i = 0; i < n; ++i) {
            NEAR(ask(prof, Pt{E() - z[i], 1.5, 1}), c[i], 1e-5, "text.sample", "depth " << z[i]);
            vt::obs("text_samples");
        }
        CHECK(vt::near(ask(prof, Pt{E() - z[n - 1] - 500, 1.5, 1}), c[n - 1], 1e-9) && vt::near(ask(prof, Pt{E() - z[0] + 20, 1.5, 1}), c[0], 1e-9), "text.edge", "not limited to the first and last sample");
        std::remove(name.c_str());
    });
    return vt::finish();
}
