// R01: reflection loss, scattering strength, attenuation, ambient noise.
#include <usml/ocean/ocean.h>
#include <usml/types/types.h>
#include "vt.h"
using namespace usml::ocean;
using namespace usml::types;
using boost::numeric::ublas::matrix;
typedef boost::numeric::ublas::vector<double> dv;
typedef std::complex<double> cd;
static seq_vector::csptr freqs(Rng& R, size_t lo = 1, size_t hi = 6, double f0 = 5, double f1 = 30000) {
    std::vector<double> f(R.in(lo, hi));
    for (auto& v : f) v = R.logu(f0, f1);
    std::sort(f.begin(), f.end());
    for (size_t i = 1; i < f.size(); ++i) if (f[i] <= f[i - 1] * 1.0001) f[i] = f[i - 1] * 1.01;
    return seq_vector::csptr(new seq_data(f.data(), f.size()));
}
static seq_vector::csptr one(double f) { return seq_vector::csptr(new seq_data(&f, 1)); }
static wposition1 place(Rng& R) { return wposition1(R.uni(-89, 89), R.uni(-180, 180), -R.uni(0, 6000)); }
// fluid / solid half space, Jensen et al. 1.6.1, exp(-i w t)
static cd rayleigh(double rho, double cp, double ap, double cs, double as, double grazing) {
    const double K = 1 / (20 * M_LOG10E * 2 * M_PI);
    double th = M_PI / 2 - grazing;
    cd c(cp, -ap * K * cp), s = std::sin(th) * c, cosp = std::sqrt(1.0 - s * s);
    if (cosp.imag() < 0) cosp = -cosp;
    cd Zw = 1 / std::cos(th), num = rho * c, Zb;
    if (cs == 0) {
        Zb = num / cosp;
    } else {
        cd v(cs, -as * K * cs), t = std::sin(th) * v, coss = std::sqrt(1.0 - t * t);
        if (coss.imag() < 0) coss = -coss;
        cd c2 = 1.0 - 2.0 * t * t, s2 = 2.0 * t * coss;
        Zb = num / cosp * c2 * c2 + rho * v / coss * s2 * s2;
    }
    return (Zb - Zw) / (Zb + Zw);
}
// loss in dB and phase agree with a reflection coefficient
#define REFL(a, p, R_, key) do { \
    double want_ = -20 * std::log10(std::abs(R_)); \
    NEARR(a, want_, 1e-6, 1e-7 + 1e-13 / (std::abs(R_) + 1e-300), key ".loss", ""); \
    if (std::abs(R_) > 1e-6) NEAR(std::remainder((p) - std::arg(R_), 2 * M_PI), 0, 1e-6, key ".phase", "loss " << want_); } while (0)
static const double TAB[8][5] = {{1.5, 1.00, 0.2, 0, 1.0}, {1.7, 1.05, 1.0, 0, 1.5}, {1.9, 1.10, 0.8, 0, 2.5}, {2.0, 1.20, 0.6, 0, 1.5},
    {2.1, 1.30, 0.4, 0.40, 1.0}, {2.2, 1.60, 0.2, 0.67, 0.5}, {2.4, 2.00, 0.1, 1.00, 0.2}, {2.7, 3.50, 0.1, 1.67, 0.2}};
static cd table(int t, double g) { return rayleigh(TAB[t][0], TAB[t][1], TAB[t][2], TAB[t][3], TAB[t][3] == 0 ? 0 : TAB[t][4], g); }
// runs a model; checks finite, no gain, each frequency independent of the others and of the output's old content
static bool run(const reflect_loss_model& m, const wposition1& p, const seq_vector::csptr& f, double g, dv& a, dv& ph, Rng& R, Case& C) {
    a.resize(f->size()); ph.resize(f->size());
    for (size_t k = 0; k < f->size(); ++k) a[k] = R.uni(-9, 9), ph[k] = NAN;
    m.reflect_loss(p, f, g, &a, &ph);
    dv b(f->size());
    m.reflect_loss(p, f, g, &b);
    bool ok = true;
    for (size_t k = 0; k < f->size(); ++k) {
        dv c(1), d(1);
        m.reflect_loss(p, one((*f)[k]), g, &c, &d);
        CHECK(vt::nearr(c[0], a[k], 1e-12, 1e-12) && vt::nearr(d[0], ph[k], 1e-12, 1e-12), "independent", "frequency " << k << ": " << a[k] << " alone " << c[0]);
        CHECK(vt::same(b[k], a[k]), "phase_optional", "loss without phase " << b[k] << " with " << a[k]);
        CHECK(std::isfinite(a[k]) && std::isfinite(ph[k]), "finite", "loss " << a[k] << " phase " << ph[k] << " at grazing " << g);
        CHECK(a[k] >= -1e-9, "gain", "loss " << a[k] << " dB at grazing " << g);
        ok = ok && std::isfinite(a[k]);
    }
    vt::obs("reflections", f->size());
    return ok;
}
static double grazing(Rng& R) { return R.chance(0.15) ? R.pick({0.0, M_PI / 2, 1e-12, 1e-6, M_PI / 2 - 1e-9}) : R.uni(0, M_PI / 2); }

int main(int argc, char** argv) {
    vt::init(argc, argv);
    vt::section("rayleigh", 20000, [&](Case& C, Rng& R) {
        double rho = R.uni(0.5, 4), cp = R.uni(0.7, 4), ap = R.chance(0.3) ? 0 : R.uni(0, 3), cs = 0, as = 0;
        if (R.chance(0.5)) {
            cs = R.uni(0.05, 0.85) * cp * 0.86;
            if (ap > 0 && R.chance(0.7)) as = R.uni(0, 1) * std::min(5.0, ap / (4. / 3 * cs * cs / (cp * cp)));
        }
        double g = grazing(R);
        // a grazing angle below which everything is reflected: right at it the answer is infinitely steep
        for (double c : {cp, cs}) if (c > 1 && std::fabs(std::cos(g) - 1 / c) < 1e-4) { C.trivial(); return; }
        auto f = freqs(R);
        C.in("density", rho).in("speed", cp).in("att", ap).in("shear", cs).in("att_shear", as).in("grazing", g);
        reflect_loss_rayleigh m(rho, cp, ap, cs, as);
        dv a, p;
        cd want = rayleigh(rho, cp, ap, cs, as, std::min(g, M_PI / 2 - 1e-10));
        if (std::abs(want) < 1e-7) { C.trivial(); return; }
        if (!run(m, place(R), f, g, a, p, R, C)) return;
        for (size_t k = 0; k < f->size(); ++k) REFL(a[k], p[k], want, "rayleigh");
        if (cp > 1 && ap == 0 && cs == 0) {
            if (std::cos(g) > 1 / cp) { CHECK(std::fabs(a[0]) < 1e-6, "total_reflection", a[0] << " dB below the critical angle"); vt::obs("total_reflections"); }
        }
    });
    vt::section("sediments", 4000, [&](Case& C, Rng& R) {
        int t = R.in(0, 7);
        double g = grazing(R);
        if (t >= 3 && std::fabs(std::cos(g) - 1 / TAB[t][1]) < 1e-6) { C.trivial(); return; }
        C.in("type", t).in("grazing", g);
        reflect_loss_rayleigh byenum((bottom_type_enum)t), bynum((size_t)t);
        auto f = freqs(R);
        dv a, p, b, q;
        cd want = rayleigh(TAB[t][0], TAB[t][1], TAB[t][2], TAB[t][3], TAB[t][3] == 0 ? 0 : TAB[t][4], std::min(g, M_PI / 2 - 1e-10));
        if (TAB[t][3] == 0) {  // weak shear: a shear speed of zero transmits nothing
        }
        run(byenum, place(R), f, g, a, p, R, C);
        run(bynum, place(R), f, g, b, q, R, C);
        for (size_t k = 0; k < f->size(); ++k) {
            CHECK(vt::same(a[k], b[k]) && vt::same(p[k], q[k]), "enum", "by name " << a[k] << " by number " << b[k]);
            REFL(a[k], p[k], want, "sediment");
        }
    });
    vt::section("rayleigh_grid", 1500, [&](Case& C, Rng& R) {
        size_t n0 = R.in(2, 6), n1 = R.in(2, 6);
        double la = R.uni(-80, 70), lo = R.uni(-170, 150), d0 = R.uni(0.1, 2), d1 = R.uni(0.1, 4);
        seq_vector::csptr ax[2] = {seq_vector::csptr(new seq_linear(la, d0, (int)n0)), seq_vector::csptr(new seq_linear(lo, d1, (int)n1))};
        auto g = std::make_shared<gen_grid<2>>(ax);
        std::vector<int> t(n0 * n1);
        for (size_t i = 0; i < n0; ++i) for (size_t j = 0; j < n1; ++j) { size_t k[2] = {i, j}; g->setdata(k, (double)(t[i * n1 + j] = R.in(0, 7))); }
        reflect_loss_rayleigh_grid m(g);
        C.in("lat", la).in("lon", lo).in("dlat", d0).in("dlon", d1).in("n0", n0).in("n1", n1);
        for (int q = 0; q < 8; ++q) {
            double u = R.uni(-1.5, n0 + 0.5), v = R.uni(-1.5, n1 + 0.5);
            if (std::fabs(u - std::floor(u) - 0.5) < 1e-6 || std::fabs(v - std::floor(v) - 0.5) < 1e-6) continue;
            double lat = la + u * d0, lon = lo + v * d1;
            if (std::fabs(lat) > 88 || std::fabs(lon) > 179) continue;
            size_t i = std::min<double>(n0 - 1, std::max(0., std::floor(u + 0.5))), j = std::min<double>(n1 - 1, std::max(0., std::floor(v + 0.5)));
            double gr = R.uni(0.01, 1.5);
            dv a, p;
            run(m, wposition1(lat, lon, -1000), freqs(R), gr, a, p, R, C);
            REFL(a[0], p[0], table(t[i * n1 + j], gr), "grid");
        }
    });
    vt::section("surface", 12000, [&](Case& C, Rng& R) {
        double w = R.chance(0.1) ? 0 : R.uni(0, 25), g = grazing(R);
        auto f = freqs(R);
        C.in("wind", w).in("grazing", g);
        reflect_loss_beckmann bs(w);
        reflect_loss_eckart ek(w);
        dv a, p, e, q;
        auto at = place(R);
        run(bs, at, f, g, a, p, R, C);
        run(ek, at, f, g, e, q, R, C);
        double th = std::max(g, 1e-10), x = th * th / (2 * (0.003 + 5.1e-3 * w));
        double v3 = std::max(0.5 * std::sin(th), (1 - std::exp(-x / 4) / std::sqrt(M_PI * x)) * std::sin(th));
        v3 = std::min(v3, 0.99);
        for (size_t k = 0; k < f->size(); ++k) {
            double F = (*f)[k], high = -20 * std::log10(std::sqrt(1 - v3)), low = -20 * std::log10(0.3 + 0.7 / (1 + 6e-11 * w * w * w * w * F * F));
            NEARR(a[k], high + low, 1e-9, 1e-9, "beckmann.loss", "frequency " << F);
            NEAR(std::remainder(p[k] - M_PI, 2 * M_PI), 0, 1e-9, "beckmann.phase", "");
            NEARR(e[k], 8.6e-9 * F * F * w * w * w * w * std::sin(g) * std::sin(g), 1e-9, 1e-12, "eckart.loss", "frequency " << F);
            NEAR(std::remainder(q[k] - M_PI, 2 * M_PI), 0, 1e-9, "eckart.phase", "");
            if (k) CHECK(a[k] >= a[k - 1] - 1e-9 && e[k] >= e[k - 1] - 1e-9, "frequency.order", "loss falls with frequency");
        }
        double g2 = R.uni(g, M_PI / 2);
        dv a2, p2;
        run(bs, at, f, g2, a2, p2, R, C);
        CHECK(a2[0] >= a[0] - 1e-9, "beckmann.order", "loss " << a[0] << " at " << g << " but " << a2[0] << " at " << g2);
        NEARR(wave_height_pierson(w), 0.22 * w * w / (4 * 9.8), 1e-9, 0, "wave_height", "");
    });
    vt::section("constant", 1500, [&](Case& C, Rng& R) {
        double amp = R.uni(0, 60), ph = R.uni(-4, 4);
        C.in("loss", amp).in("phase", ph);
        auto f = freqs(R);
        dv a, p;
        reflect_loss_constant m(amp, ph);
        run(m, place(R), f, grazing(R), a, p, R, C);
        for (size_t k = 0; k < f->size(); ++k) CHECK(a[k] == amp && p[k] == ph, "constant", a[k] << " " << p[k]);
    });
    vt::section("scattering", 6000, [&](Case& C, Rng& R) {
        double bss = R.uni(-60, -5), w = R.uni(0.5, 25), sc = R.uni(-300, -5);
        auto f = freqs(R, 1, 5);
        size_t n = R.in(1, 4), m = R.in(1, 4), nf = f->size();
        double de = R.uni(0, 1.5), az = R.uni(-3, 6);
        matrix<double> ds(n, m), as(n, m);
        wposition pos(n, m);
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) {
            ds(i, j) = R.chance(0.05) ? 0 : R.uni(0, 1.5); as(i, j) = R.uni(-3, 6);
            pos.latitude(i, j, R.uni(-80, 80)); pos.longitude(i, j, R.uni(-180, 180)); pos.altitude(i, j, -R.uni(0, 5000));
        }
        bool neg = R.chance(0.4);  // Lambert and constant laws hold for either sign of the angles
        C.in("bss", bss).in("wind", w).in("de", de).in("n", n).in("m", m).in("negative", neg).inv("f", f->data());
        scattering_model::csptr laws[3] = {scattering_model::csptr(new scattering_lambert(bss)), scattering_model::csptr(new scattering_chapman(w)), scattering_model::csptr(new scattering_constant(sc))};
        for (int l = 0; l < 3; ++l) {
            matrix<double> d2 = ds;
            double di = de;
            if (neg && l != 1) { di = -de; d2 = -ds; }
            // the law, and everything that passes it on
            boundary_flat bnd(1000.0);
            bnd.scattering(laws[l]);
            volume_flat vol(500, 100, laws[l]);
            const scattering_model* via[3] = {laws[l].get(), &bnd, &vol};
            const char* name[3] = {"lambert", "chapman", "constant"};
            for (int v = 0; v < 3; ++v) {
                matrix<dv> many(n, m);
                for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) many(i, j) = dv(nf, -5.0);
                matrix<double> az2 = as;
                via[v]->scattering(pos, f, di, d2, az, az2, &many);
                for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) {
                    dv s(nf, -7.0);
                    via[v]->scattering(wposition1(pos, i, j), f, di, d2(i, j), az, as(i, j), &s);
                    CHECK(many(i, j).size() == nf && s.size() == nf, "scattering.size", many(i, j).size());
                    if (many(i, j).size() != nf || s.size() != nf) continue;
                    for (size_t k = 0; k < nf; ++k) {
                        double want;
                        if (l == 0) want = std::fabs(std::pow(10, bss / 10) * std::sin(di) * std::sin(d2(i, j)));
                        else if (l == 2) want = std::pow(10, sc / 10);
                        else {
                            double beta = 158 * std::pow(w / 0.514444444 * std::cbrt((*f)[k]), -0.58), gr = 0.5 * (di + d2(i, j)) * 180 / M_PI;
                            want = std::pow(10, (3.3 * beta * std::log10(gr / 30 + 1e-6) - 42.4 * std::log10(beta) + 2.6) / 10);
                        }
                        CHECK(vt::nearr(s[k], want, 1e-6, 1e-300), MSG("scattering." << name[l]), "strength " << s[k] << " want " << want << " at " << (*f)[k]);
                        CHECK(vt::nearr(many(i, j)[k], s[k], 1e-9, 1e-300), MSG("scattering.many." << name[l]), "many " << many(i, j)[k] << " one " << s[k]);
                        CHECK(s[k] >= 0 && std::isfinite(s[k]), "scattering.finite", s[k]);
                        vt::obs("strengths");
                    }
                }
            }
        }
    });
    vt::section("ocean", 3000, [&](Case& C, Rng& R) {  // the ocean hands on what was configured for the interface asked for
        size_t layers = R.in(0, 3);
        std::vector<double> db;
        for (size_t i = 0; i < layers + 2; ++i) db.push_back(-10 - 7 * (double)i - R.u());
        auto* bot = new boundary_flat(R.uni(3000, 5000), reflect_loss_model::csptr(new reflect_loss_constant(3.5, 0.25)), scattering_model::csptr(new scattering_constant(db[0])));
        auto* top = new boundary_flat(0.0, reflect_loss_model::csptr(new reflect_loss_constant(1.5, 3)), scattering_model::csptr(new scattering_constant(db[1])));
        std::vector<volume_model::csptr> vols;
        for (size_t i = 0; i < layers; ++i) vols.emplace_back(new volume_flat(100 + 300 * i, 20, db[i + 2]));
        boundary_model::csptr B(bot), T(top);
        profile_model::csptr P(new profile_linear(1500.0));
        bool later = R.chance(0.5);
        ocean_model ocean(T, B, P, later ? nullptr : &vols);
        if (later) for (auto& v : vols) ocean.add_volume(v);
        C.in("layers", layers).in("later", later);
        CHECK(ocean.surface() == T && ocean.bottom() == B && ocean.profile() == P && ocean.num_volume() == layers, "components", ocean.num_volume());
        auto f = freqs(R);
        auto at = place(R);
        for (size_t i = 0; i < 2 + 2 * layers; ++i) {
            dv a(f->size(), -1.0);
            ocean.scattering(i, at, f, 0.3, 0.4, 1, 2, &a);
            size_t who = i < 2 ? i : 2 + (i - 2) / 2;
            NEARR(a[0], std::pow(10, db[who] / 10), 1e-9, 0, "interface", "interface " << i);
        }
        bool threw = false;
        dv a(f->size());
        try { ocean.scattering(2 + 2 * layers, at, f, 0.3, 0.4, 1, 2, &a); } catch (std::exception&) { threw = true; }
        CHECK(threw, "interface.unknown", "accepted interface " << 2 + 2 * layers);
        dv l, p;
        run(*ocean.bottom(), at, f, 0.3, l, p, R, C);
        CHECK(l[0] == 3.5 && p[0] == 0.25, "bottom.loss", l[0]);
        run(*ocean.surface(), at, f, 0.3, l, p, R, C);
        CHECK(l[0] == 1.5 && p[0] == 3, "surface.loss", l[0]);
        bot->reflect_loss(reflect_loss_model::csptr(new reflect_loss_constant(7.5, 0.5)));
        run(*ocean.bottom(), at, f, 0.3, l, p, R, C);
        CHECK(l[0] == 7.5 && p[0] == 0.5, "bottom.replaced", l[0]);
        for (size_t i = 0; i < layers; ++i) {
            double rho, th;
            ocean.volume(i)->depth(at, &rho, &th);
            NEAR(wposition::earth_radius - rho, 100 + 300. * i, 1e-6, "layer.depth", i);
            CHECK(th == 20, "layer.thickness", th);
        }
    });
    vt::section("attenuation", 4000, [&](Case& C, Rng& R) {
        size_t n = R.in(1, 4), m = R.in(1, 4);
        auto f = freqs(R, 1, 6, 10, 50000);
        size_t nf = f->size();
        wposition pos(n, m);
        matrix<double> d(n, m);
        double co = R.logu(1e-9, 1e-3);
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) {
            pos.latitude(i, j, R.uni(-80, 80)); pos.longitude(i, j, R.uni(-180, 180)); pos.altitude(i, j, -R.uni(0, 9000));
            d(i, j) = R.chance(0.1) ? 0 : R.logu(0.1, 1e6);
        }
        C.in("n", n).in("m", m).inv("f", f->data()).in("coefficient", co);
        attenuation_model::csptr mod[2] = {attenuation_model::csptr(new attenuation_constant(co)), attenuation_model::csptr(new attenuation_thorp())};
        for (int k = 0; k < 2; ++k) {
            profile_linear P(1500.0, mod[k]);
            for (int via = 0; via < 2; ++via) {
                matrix<dv> a(n, m);
                for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) a(i, j) = dv(nf, -5.0);
                if (via) P.attenuation(pos, f, d, &a); else mod[k]->attenuation(pos, f, d, &a);
                for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) for (size_t q = 0; q < nf; ++q) {
                    double F = (*f)[q], F2 = F * F * 1e-6, want = co * F * d(i, j);
                    if (k) want = d(i, j) / 1000 * (0.0033 + F2 * (3e-4 + 44 / (4100 + F2) + 0.11 / (1 + F2))) * (1 + 5.88264e-6 * pos.altitude(i, j)) / (1 - 5.88264e-6 * 1000);
                    NEARR(a(i, j)[q], want, 1e-9, 0, k ? "thorp" : "linear_attenuation", "distance " << d(i, j) << " frequency " << F);
                    CHECK(a(i, j)[q] >= 0, "attenuation.sign", a(i, j)[q]);
                    vt::obs("attenuations");
                }
            }
        }
    });
    vt::section("water", 1500, [&](Case& C, Rng& R) {  // attenuation of a profile: Thorp unless something else was set
        size_t n = R.in(1, 3), m = R.in(1, 3);
        auto f = freqs(R, 1, 4, 10, 50000);
        size_t nf = f->size();
        double co = R.uni(0.001, 5);
        C.in("n", n).in("m", m).in("coefficient", co).inv("f", f->data());
        wposition pos(n, m, R.uni(-80, 80), R.uni(-180, 180), -R.uni(0, 5000));
        matrix<double> dist(n, m);
        for (auto& x : dist.data()) x = R.uni(0, 50000);
        auto get = [&](const attenuation_model& a) {
            matrix<dv> out(n, m);
            for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) out(i, j) = dv(nf, -5.0);
            a.attenuation(pos, f, dist, &out);
            return out;
        };
        auto same = [&](const matrix<dv>& a, const matrix<dv>& b) {
            for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) for (size_t k = 0; k < nf; ++k) if (!vt::same(a(i, j)[k], b(i, j)[k])) return false;
            return true;
        };
        attenuation_thorp th;
        attenuation_model::csptr con(new attenuation_constant(co)), con2(new attenuation_constant(2 * co));
        auto T = get(th), K = get(*con), K2 = get(*con2);
        std::unique_ptr<profile_model> def[] = {std::unique_ptr<profile_model>(new profile_linear(1500.0)), std::unique_ptr<profile_model>(new profile_linear(1500.0, 0.01)), std::unique_ptr<profile_model>(new profile_linear(1500.0, 0.01, 800.0, -0.01)), std::unique_ptr<profile_model>(new profile_munk())};
        std::unique_ptr<profile_model> set[] = {std::unique_ptr<profile_model>(new profile_linear(1500.0, con)), std::unique_ptr<profile_model>(new profile_linear(1500.0, 0.01, con)), std::unique_ptr<profile_model>(new profile_linear(1500.0, 0.01, 800.0, -0.01, con)), std::unique_ptr<profile_model>(new profile_munk(1300, 1300, 1500, 7.37e-3, con))};
        for (int i = 0; i < 4; ++i) {
            CHECK(same(get(*def[i]), T), "water.default", "profile " << i);
            CHECK(same(get(*set[i]), K), "water.configured", "profile " << i);
            def[i]->attenuation(con);
            CHECK(same(get(*def[i]), K), "water.replaced", "profile " << i);
            set[i]->attenuation(con2);
            CHECK(same(get(*set[i]), K2), "water.replaced", "profile " << i);
        }
        vt::obs("water");
    });
    vt::section("ambient", 6000, [&](Case& C, Rng& R) {
        double w = R.chance(0.1) ? 0 : R.chance(0.1) ? -1 : R.uni(0, 25), lev = R.uni(10, 120);
        int ship = R.in(0, 8), rain = R.in(0, 3);
        auto f = freqs(R, 1, 8, 1, 100000);
        if (R.chance(0.2)) { double v[4] = {549, 551, 15400, 15600}; f.reset(new seq_data(v, 4)); }
        C.in("wind", w).in("ship", ship).in("rain", rain).inv("f", f->data());
        dv a(R.in(0, 3)), b;
        ambient_wenz z(w, ship, rain);
        auto at = place(R);
        z.ambient(at, f, &a);
        ambient_constant(lev).ambient(at, f, &b);
        CHECK(a.size() == f->size() && b.size() == f->size(), "ambient.size", a.size());
        for (size_t k = 0; k < f->size(); ++k) {
            double F = (*f)[k], L = std::log10(F), t = 0;
            auto add = [&](double db) { t += std::pow(10, db / 10); };
            add(107 - 30 * L); add(-75 + 20 * L);
            if (ship >= 1 && ship <= 7) add(76 - 20 * std::pow(L - std::log10(30.0), 2) + 5 * (ship - 4));
            if (w >= 0) { double kn = w / 0.514444444; add(F < 1000 ? 44 + std::sqrt(21 * kn) + 17 * (3 - L) * (L - 2) : 95 + std::sqrt(21 * kn) - 17 * L); }
            if (F >= 550 && F <= 15500) {
                if (rain == 1) add(64.942 + 19.917 * L - 5.242 * L * L);
                if (rain == 2) add(19.628 + 42.933 * L - 7.516 * L * L);
                if (rain == 3) add(222.491 - 135.904 * L + 43.893 * L * L - 4.737 * L * L * L);
            }
            NEARR(a[k], t, 1e-6, 0, "wenz", "frequency " << F);
            NEARR(b[k], std::pow(10, lev / 10), 1e-9, 0, "ambient_constant", "");
            dv c;
            z.ambient(at, one(F), &c);
            NEARR(c[0], a[k], 1e-9, 0, "ambient.independent", "");
        }
        vt::obs("noise_levels", f->size());
    });
    return vt::finish();
}
