// A02: transmit waveforms and windows.
#include <usml/transmit/transmit.h>
#include <usml/types/types.h>
#include "vt.h"
using namespace usml::transmit;
using namespace usml::types;
typedef boost::numeric::ublas::vector<double> dv;
static double i0(double x) { double s = 1, t = 1; for (int k = 1; k < 400; ++k) { t *= x * x / 4 / k / k; s += t; if (t < 1e-18 * s) break; } return s; }
static double winref(window::type t, double n, double N, double beta) {
    if (t == window::type::BOXCAR || N == 1) return 1;
    double M = N - 1;
    if (t == window::type::HANN) return 0.5 * (1 - std::cos(2 * M_PI * n / M));
    if (t == window::type::HAMMING) return 0.54 - 0.46 * std::cos(2 * M_PI * n / M);
    double r = (n - M / 2) / (M / 2);
    return i0(beta * std::sqrt(std::max(0.0, 1 - r * r))) / i0(beta);
}
static window::type wt(Rng& R) { return (window::type)R.in(0, 3); }
int main(int argc, char** argv) {
    vt::init(argc, argv);
    vt::section("window", 3000, [&](Case& C, Rng& R) {
        window::type t = wt(R);
        size_t N = C.index < 40 ? C.index / 4 + 1 : R.in(1, R.chance(0.1) ? 5000 : 200);
        if (C.index < 40) t = (window::type)(C.index % 4);
        double beta = R.chance(0.2) ? 0 : R.uni(0, 20);
        C.in("type", (int)t).in("N", N).in("beta", beta);
        dv w = window::any(t, N, beta);
        CHECK(w.size() == N, "window.size", w.size());
        double peak = 0;
        for (size_t i = 0; i < w.size(); ++i) {
            CHECK(std::isfinite(w[i]) && w[i] >= -1e-12 && w[i] <= 1 + 1e-12, "window.range", "w[" << i << "]=" << w[i]);
            NEAR(w[i], w[w.size() - 1 - i], 1e-9, "window.symmetry", i);
            NEAR(w[i], winref(t, i, N, beta), 1e-9, "window.formula", "sample " << i);
            peak = std::max(peak, w[i]);
            if (i && 2 * i < w.size()) CHECK(w[i] >= w[i - 1] - 1e-12, "window.rise", "sample " << i);
        }
        if (N % 2) NEAR(w[N / 2], 1.0, 1e-9, "window.peak", "center");
        dv x = t == window::type::BOXCAR ? window::boxcar(N) : t == window::type::HANN ? window::hann(N) : t == window::type::HAMMING ? window::hamming(N) : window::kaiser(N, beta);
        for (size_t i = 0; i < std::min(w.size(), x.size()); ++i) CHECK(w[i] == x[i], "window.any", i);
        vt::obs("window_samples", N);
        vt::obs("windows_" + std::to_string((int)t));
    });
    vt::section("signal", 2000, [&](Case& C, Rng& R) {
        bool lfm = R.chance(0.5);
        double fs = R.chance(0.5) ? R.pick({100.0, 500.0, 1000.0, 4096.0, 333.3}) : R.uni(50, 5000);
        double dur = R.chance(0.5) ? R.in(1, 200) / fs : R.uni(1.0, 300.0) / fs;
        double fc = R.uni(100, 20000), fb = R.chance(0.2) ? fc : fc + R.uni(-0.5, 0.5) * fs, bw = R.uni(0, 0.5) * fs, ph = R.chance(0.3) ? 0 : R.uni(-20, 20);
        window::type t = wt(R);
        double wp = R.uni(0, 8);
        C.in("lfm", lfm).in("fs", fs).in("dur", dur).in("fc", fc).in("fb", fb).in("bw", bw).in("phase", ph).in("window", (int)t).in("param", wp);
        std::unique_ptr<transmit_model> m;
        if (lfm) m.reset(new transmit_lfm("LFM", dur, bw, fc, 0.5, 2.0, t, wp, 10, 20, 1));
        else m.reset(new transmit_cw("CW", dur, fc, 0.5, 2.0, t, wp, 10, 20, 1));
        CHECK(m->type == (lfm ? "LFM" : "CW") && m->duration == dur && m->fcenter == fc && m->bandwidth == (lfm ? bw : 0) && m->delay == 0.5 && m->source_level == 2 && m->window_type == t && m->window_param == wp && m->orderedAZ == 10 && m->orderedDE == 20 && m->transmit_mode == 1, "attributes", "stored wrong");
        double out = std::nan("");
        cdvector s = m->asignal(fs, fb, ph, &out);
        size_t N = (size_t)std::llround(dur * fs);
        CHECK(s.size() == N || std::fabs(dur * fs - std::floor(dur * fs) - 0.5) < 1e-9, "signal.size", s.size() << " want " << N);
        N = s.size();
        if (!N) return;
        double T = N / fs;
        auto phase = [&](double tt) { return lfm ? 2 * M_PI * ((fc - bw / 2 - fb) * tt + 0.5 * bw / T * tt * tt) + ph : 2 * M_PI * (fc - fb) * tt + ph; };
        for (size_t n = 0; n < N; ++n) {
            std::complex<double> w = std::polar(winref(t, n, N, wp), phase(n / fs));
            double e = std::abs(s[n] - w);
            CHECK(e < 1e-8, "signal.value", "sample " << n << " got " << s[n] << " want " << w);
            if (!(e < 1e-8)) break;
        }
        NEAR(std::remainder(out - phase(T), 2 * M_PI), 0, 1e-7, "signal.outphase", out);
        CHECK(std::fabs(out) <= 2 * M_PI, "signal.outphase", out);
        // a window does not change the phase, and no output phase is needed
        cdvector s2 = m->asignal(fs, fb, ph, nullptr);
        bool eq = s2.size() == N;
        for (size_t n = 0; eq && n < N; ++n) eq = s[n] == s2[n];
        CHECK(eq, "signal.repeat", "differs without output phase");
        // two boxcar pulses in a row have one continuous phase
        transmit_cw a("A", dur, fc), b("B", dur, fc);
        double p = ph;
        cdvector x = a.asignal(fs, fb, p, &p), y = b.asignal(fs, fb, p, &p);
        if (x.size() && y.size()) {
            std::complex<double> step = std::polar(1.0, 2 * M_PI * (fc - fb) / fs);
            CHECK(std::abs(y[0] - x[x.size() - 1] * step) < 1e-7, "signal.continuity", "jump at the joint");
            vt::obs("joints");
        }
        vt::obs("signal_samples", N);
        vt::obs(lfm ? "lfm" : "cw");
    });
    vt::section("defaults", 200, [&](Case& C, Rng& R) {
        double dur = R.uni(0.01, 2), fc = R.uni(100, 9000), bw = R.uni(1, 90);
        C.in("dur", dur).in("fc", fc).in("bw", bw);
        transmit_cw a("CW1", dur, fc);
        transmit_lfm b("LFM1", dur, bw, fc);
        for (transmit_model* m : {(transmit_model*)&a, (transmit_model*)&b}) {
            CHECK(m->duration == dur && m->fcenter == fc && m->bandwidth == (m == &b ? bw : 0), "defaults.given", m->type);
            CHECK(m->delay == 0 && m->source_level == 1 && m->window_type == window::type::BOXCAR && m->window_param == 0 && m->orderedAZ == 0 && m->orderedDE == 0 && m->transmit_mode == 0, "defaults.omitted", m->type);
        }
        cdvector x = a.asignal(1000, fc), y = a.asignal(1000, fc, 0.0, nullptr), u = b.asignal(1000, fc), v = b.asignal(1000, fc, 0.0, nullptr);
        auto eq = [](const cdvector& p, const cdvector& q) { return p.size() == q.size() && std::equal(p.begin(), p.end(), q.begin()); };
        CHECK(eq(x, y) && eq(u, v), "defaults.phase", "input phase");
        vt::obs("defaults");
    });
    return vt::finish();
}
