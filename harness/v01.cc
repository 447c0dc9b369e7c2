// V01: reverberation envelopes against sums of Gaussians built from the same overlaps, pulses and beams.
#include <netcdf.h>
#include <usml/beampatterns/beampatterns.h>
#include <usml/biverbs/biverb_collection.h>
#include <usml/eigenverbs/eigenverb_collection.h>
#include <usml/platforms/platforms.h>
#include <usml/rvbts/rvbts.h>
#include <usml/sensors/sensors.h>
#include <usml/transmit/transmit.h>
#include <usml/types/types.h>
#include "vt.h"
using namespace usml::sensors;
using namespace usml::beampatterns;
using namespace usml::transmit;
using namespace usml::rvbts;
using namespace usml::biverbs;
using namespace usml::eigenverbs;
static const double D = M_PI / 180;
typedef std::array<double, 3> V3;
typedef std::array<V3, 3> Axes;  // front, right and up of a body in north, east and up
static double dot(const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static Axes axes(double y, double p, double r) {
    y *= D; p *= D; r *= D;
    V3 F{std::cos(p) * std::cos(y), std::cos(p) * std::sin(y), std::sin(p)}, R{-std::sin(y), std::cos(y), 0}, U{-std::sin(p) * std::cos(y), -std::sin(p) * std::sin(y), std::cos(p)};
    Axes a;
    a[0] = F;
    for (int i = 0; i < 3; ++i) { a[1][i] = R[i] * std::cos(r) - U[i] * std::sin(r); a[2][i] = U[i] * std::cos(r) + R[i] * std::sin(r); }
    return a;
}
static V3 in(const Axes& a, const V3& w) { return V3{dot(a[0], w), dot(a[1], w), dot(a[2], w)}; }
static V3 out(const Axes& a, const V3& b) { V3 w; for (int i = 0; i < 3; ++i) w[i] = a[0][i] * b[0] + a[1][i] * b[1] + a[2][i] * b[2]; return w; }
static V3 dir(double de, double az) { return V3{std::cos(de) * std::cos(az), std::cos(de) * std::sin(az), std::sin(de)}; }  // radians
static bvector bv(const V3& v) { return bvector(v[0], v[1], v[2]); }

struct Beam { bp_model::csptr p; int kind; double factor; V3 steer; };
static Beam beam(Rng& R) {
    Beam b;
    b.kind = R.in(0, 3);
    b.factor = 1;
    switch (b.kind) {
        case 0: b.p.reset(new bp_omni()); break;
        case 1: b.p.reset(new bp_cardioid(1.0)); break;
        case 2: b.factor = R.uni(0.3, 3); b.p.reset(new bp_cardioid(b.factor)); break;
        default: b.p.reset(new bp_line((size_t)R.in(3, 12), R.uni(0.3, 1.0), R.chance(0.5) ? VLA : HLA)); break;
    }
    double de = R.uni(-80, 80) * D, az = R.uni(-180, 180) * D;
    b.steer = R.chance(0.2) ? V3{1, 0, 0} : dir(de, az);
    return b;
}
static double response(const Beam& b, const V3& body, const V3& steer, double f) {
    if (b.kind == 0) return 1;
    if (b.kind < 3) { double g = (1 + b.factor * body[0]) / (1 + b.factor); return g * g; }
    vector<double> l(1, 0.0);
    b.p->beam_level(bv(body), seq_vector::csptr(new seq_linear(f, 1.0, (size_t)1)), &l, bv(steer));
    return l[0];
}
static biverb_model::csptr overlap(Rng& R, const seq_vector::csptr& f, double tmax) {
    auto* b = new biverb_model();
    b->travel_time = R.uni(-0.2, 1.2) * tmax;
    b->frequencies = f;
    b->power = vector<double>(f->size());
    double level = R.logu(1e-12, 1e-2);
    for (size_t i = 0; i < f->size(); ++i) b->power[i] = level * R.logu(0.3, 3);
    b->duration = R.logu(1e-3, 0.5);
    b->de_index = b->az_index = 0;
    b->source_de = R.uni(-90, 90) * D; b->source_az = R.uni(-360, 360) * D;
    b->receiver_de = R.uni(-90, 90) * D; b->receiver_az = R.uni(-360, 360) * D;
    b->source_surface = b->source_bottom = b->source_caustic = b->source_upper = b->source_lower = 0;
    b->receiver_surface = b->receiver_bottom = b->receiver_caustic = b->receiver_upper = b->receiver_lower = 0;
    return biverb_model::csptr(b);
}
static seq_vector::csptr freqs(Rng& R) {
    int n = R.chance(0.3) ? 1 : R.in(2, 6);
    double f = R.uni(500, 2000);
    if (n == 1) return seq_vector::csptr(new seq_linear(f, 1.0, (size_t)1));
    switch (R.in(0, 2)) {
        case 0: return seq_vector::csptr(new seq_linear(f, R.uni(20, 300), (size_t)n));
        case 1: return seq_vector::csptr(new seq_log(f, R.uni(1.05, 1.6), (size_t)n));
        default: { std::vector<double> v; for (int i = 0; i < n; ++i) { v.push_back(f); f += R.uni(20, 300); } return seq_vector::csptr(new seq_data(v)); }
    }
}
static transmit_model::csptr pulse(Rng& R, const seq_vector::csptr& f, int mode) {
    double lo = (*f)[0], hi = (*f)[f->size() - 1];
    double fc = R.chance(0.25) ? (*f)[(size_t)R.in(0, (int)f->size() - 1)] : R.uni(lo, hi);
    double T = R.logu(0.005, 0.5), delay = R.chance(0.4) ? 0 : R.uni(0, 1), sl = R.logu(1e-2, 1e6), az = R.uni(-180, 180), de = R.uni(-80, 80);
    if (R.chance(0.5)) return transmit_model::csptr(new transmit_cw("CW", T, fc, delay, sl, window::type::BOXCAR, 0.0, az, de, mode));
    return transmit_model::csptr(new transmit_lfm("LFM", T, 0.1 * fc, fc, delay, sl, window::type::HANN, 0.0, az, de, mode));
}
struct Bounds {  // lower and upper bound of every sample
    std::vector<double> t;
    std::vector<std::vector<double>> lo, hi;
    std::vector<double> peak;
    Bounds(size_t rows, const std::vector<double>& times) : t(times), lo(rows, std::vector<double>(times.size(), 0.0)), hi(lo), peak(rows, 0.0) {}
    long added = 0, ignored = 0;
    void add(size_t row, const biverb_model& b, const transmit_model& x, double start, double bs, double br) {
        const seq_vector& f = *b.frequencies;
        double p = b.power[0];
        if (f.size() > 1) {
            size_t k = 0;
            while (k + 2 < f.size() && x.fcenter >= f[k + 1]) ++k;
            double u = (x.fcenter - f[k]) / (f[k + 1] - f[k]);
            p = (1 - u) * b.power[k] + u * b.power[k + 1];
        }
        double area = x.source_level * bs * p * x.duration * br, th = rvbts_collection::power_threshold;
        bool never = area < th * (1 - 1e-6), always = area > th * (1 + 1e-6) && x.source_level * bs > th * (1 + 1e-6);
        if (never) { ++ignored; return; }
        ++added;
        double T = b.duration + x.duration, c = start + x.delay + b.travel_time + T;
        peak[row] += area / (T * std::sqrt(2 * M_PI));
        for (size_t i = 0; i < t.size(); ++i) {
            double q = (t[i] - c) / T, v = area * std::exp(-0.5 * q * q) / (T * std::sqrt(2 * M_PI));
            hi[row][i] += v;
            if (always && std::abs(q) < 4.999) lo[row][i] += v;
        }
    }
};
static void check(Case& C, const matrix<double>& m, const Bounds& b, const char* what) {
    CHECK(m.size1() == b.lo.size() && m.size2() == b.t.size(), "shape", MSG(what << ": " << m.size1() << " channels by " << m.size2() << " times instead of " << b.lo.size() << " by " << b.t.size()));
    if (m.size1() != b.lo.size() || m.size2() != b.t.size()) return;
    for (size_t r = 0; r < b.lo.size(); ++r) for (size_t i = 0; i < b.t.size(); ++i) {
        double tol = 1e-9 * b.peak[r] + 1e-300;
        if (!(m(r, i) >= b.lo[r][i] * (1 - 1e-8) - tol && m(r, i) <= b.hi[r][i] * (1 + 1e-8) + tol)) {
            C.fail(what, MSG("channel " << r << " at " << b.t[i] << " s is " << m(r, i) << " instead of " << b.lo[r][i] << " to " << b.hi[r][i] << " (peaks add up to " << b.peak[r] << ")"));
            return;
        }
    }
    vt::obs("samples compared", (long)(b.lo.size() * b.t.size()));
    vt::obs("contributions", b.added);
    vt::obs("contributions below the limit", b.ignored);
}
struct World {
    std::shared_ptr<sensor_model> src, rcv;
    std::map<int, Beam> sb, rb;
    Axes sa, ra;
    double sy[3], ry[3];
    orientation so() const { return orientation(sy[0], sy[1], sy[2]); }
    orientation ro() const { return orientation(ry[0], ry[1], ry[2]); }
    size_t row(int key) const { size_t n = 0; for (auto& b : rb) { if (b.first == key) return n; ++n; } return n; }
};
static World world(Rng& R, bool mono = false) {
    World w;
    auto att = [&](double* a) { a[0] = R.chance(0.2) ? 0 : R.uni(-180, 180); a[1] = R.chance(0.3) ? 0 : R.uni(-80, 80); a[2] = R.chance(0.3) ? 0 : R.uni(-170, 170); };
    att(w.sy); att(w.ry);
    if (mono) std::copy(w.sy, w.sy + 3, w.ry);
    w.sa = axes(w.sy[0], w.sy[1], w.sy[2]); w.ra = axes(w.ry[0], w.ry[1], w.ry[2]);
    w.src.reset(new sensor_model(1, "src", 0, wposition1(10, 20, -100), w.so(), 3));
    w.rcv = mono ? w.src : std::shared_ptr<sensor_model>(new sensor_model(2, "rcv", 0, wposition1(10.1, 20.1, -50), w.ro(), 2));
    int nm = R.in(1, 3), nc = R.in(1, 5);
    for (int i = 0; i < nm; ++i) { int k = R.in(-2, 6); w.sb[k] = beam(R); w.src->src_beam(k, w.sb[k].p); }
    bool plain = R.chance(0.4);
    for (int i = 0; i < nc; ++i) { int k = plain ? i : R.in(-5, 40); w.rb[k] = beam(R); w.rcv->rcv_beam(k, w.rb[k].p, bv(w.rb[k].steer)); }
    return w;
}
static seq_vector::csptr times(Rng& R, double* tmax) {
    size_t n = (size_t)(R.chance(0.1) ? R.in(1, 3) : R.in(4, 200));
    double dt = R.logu(0.005, 0.3);
    *tmax = dt * (double)n;
    double t0 = R.chance(0.5) ? 0 : R.uni(0, 2);
    *tmax += t0;
    return seq_vector::csptr(new seq_linear(t0, dt, n));
}
static std::vector<double> values(const seq_vector& s) { std::vector<double> v; for (size_t i = 0; i < s.size(); ++i) v.push_back(s[i]); return v; }
static rvbts_collection* fresh(const World& w, const seq_vector::csptr& t) {
    // neither storage nor sums may depend on what memory held before
    std::vector<std::unique_ptr<double[]>> dirt;
    for (int i = 0; i < 4; ++i) { dirt.emplace_back(new double[t->size() * w.rb.size()]); for (size_t k = 0; k < t->size() * w.rb.size(); ++k) dirt.back()[k] = 1e30; }
    dirt.clear();
    return new rvbts_collection(w.src, w.src->position(), w.so(), 3, w.rcv, w.rcv->position(), w.ro(), 2, t);
}

int main(int argc, char** argv) {
    vt::init(argc, argv);
    const double threshold = rvbts_collection::power_threshold;
    vt::section("contributions", 4000, [&](Case& C, Rng& R) {
        rvbts_collection::power_threshold = R.chance(0.3) ? R.logu(1e-9, 1e-1) : threshold;
        World w = world(R, R.chance(0.2));
        double tmax;
        auto t = times(R, &tmax);
        auto f = freqs(R);
        int n = R.chance(0.5) ? 1 : R.in(2, 15);
        C.in("channels", w.rb.size()).in("times", t->size()).in("frequencies", f->size()).in("n", n).in("threshold", rvbts_collection::power_threshold);
        std::unique_ptr<rvbts_collection> c(fresh(w, t)), d(fresh(w, t));
        Bounds b(w.rb.size(), values(*t));
        struct one { biverb_model::csptr v; transmit_model::csptr x; V3 s; };
        std::vector<one> all;
        for (int i = 0; i < n; ++i) {
            int mode = w.sb.begin()->first;
            for (auto& k : w.sb) if (R.chance(0.4)) mode = k.first;
            bool unknown = R.chance(0.05);
            if (unknown) mode = 77;
            one o{overlap(R, f, tmax), pulse(R, f, mode), dir(R.uni(-80, 80) * D, R.uni(-180, 180) * D)};
            all.push_back(o);
            if (unknown) { vt::obs("pulses of unknown beams"); continue; }
            double bs = response(w.sb[mode], in(w.sa, dir(o.v->source_de, o.v->source_az)), o.s, o.x->fcenter);
            size_t row = 0;
            for (auto& r : w.rb) b.add(row++, *o.v, *o.x, 0, bs, response(r.second, in(w.ra, dir(o.v->receiver_de, o.v->receiver_az)), r.second.steer, o.x->fcenter));
        }
        for (auto& o : all) c->add_biverb(o.v, o.x, bv(o.s));
        if (R.chance(0.3)) { w.rcv->rcv_beam(99, bp_model::csptr(new bp_omni())); vt::obs("channels added later"); for (auto& o : all) (void)o; }
        check(C, c->time_series(), b, "envelope");
        for (size_t i = all.size(); i-- > 1;) std::swap(all[i], all[(size_t)R.in(0, (int)i)]);
        for (auto& o : all) d->add_biverb(o.v, o.x, bv(o.s));
        check(C, d->time_series(), b, "order");
        rvbts_collection::power_threshold = threshold;
    });
    // All energy of a contribution is found in the envelope when the axis resolves it.
    vt::section("energy", 1000, [&](Case& C, Rng& R) {
        World w = world(R);
        auto f = freqs(R);
        auto v = overlap(R, f, 5);
        v->travel_time = R.uni(1, 4);
        int mode = w.sb.begin()->first;
        auto x = pulse(R, f, mode);
        double T = v->duration + x->duration, mid = v->travel_time + x->delay + T, dt = T * R.uni(0.05, 0.5);
        seq_vector::csptr t(new seq_linear(mid - 6 * T - R.uni(0, 1) * dt, dt, (size_t)std::ceil(12.0 * T / dt + 2)));
        C.in("T", T).in("dt", dt).in("delay", x->delay);
        std::unique_ptr<rvbts_collection> c(fresh(w, t));
        V3 s = dir(R.uni(-80, 80) * D, R.uni(-180, 180) * D);
        c->add_biverb(v, x, bv(s));
        double bs = response(w.sb[mode], in(w.sa, dir(v->source_de, v->source_az)), s, x->fcenter);
        size_t row = 0;
        for (auto& r : w.rb) {
            double br = response(r.second, in(w.ra, dir(v->receiver_de, v->receiver_az)), r.second.steer, x->fcenter);
            double sum = 0, at = 0, sq = 0, p = v->power[0];
            for (size_t i = 0; i < t->size(); ++i) { double y = c->time_series()(row, i); sum += y; at += y * (*t)[i]; sq += y * (*t)[i] * (*t)[i]; }
            if (f->size() > 1) { size_t k = 0; while (k + 2 < f->size() && x->fcenter >= (*f)[k + 1]) ++k; double u = (x->fcenter - (*f)[k]) / ((*f)[k + 1] - (*f)[k]); p = (1 - u) * v->power[k] + u * v->power[k + 1]; }
            double want = x->source_level * bs * p * x->duration * br;
            if (want < threshold * 1.001 || x->source_level * bs < threshold * 1.001) { ++row; continue; }
            NEARR(sum * dt, want, 2e-5, 1e-25, "area", MSG("area of the envelope of channel " << row));
            if (want > 1e-18) {
                at /= sum; sq = std::sqrt(std::max(0.0, sq / sum - at * at));
                NEAR(at, mid, 1e-4 * T, "centre", MSG("centre of the envelope of channel " << row));
                NEARR(sq, T, 1e-3, 0, "width", MSG("width of the envelope of channel " << row));
                vt::obs("areas, centres and widths");
            }
            ++row;
        }
    });
    // Task that adds the overlaps of a pair for all pulses, one after the other.
    vt::section("generator", 400, [&](Case& C, Rng& R) {
        sensor_manager::reset();
        World w = world(R, R.chance(0.2));
        auto f = freqs(R);
        double tmin = R.chance(0.5) ? 0 : R.uni(0, 1), tmax = tmin + R.uni(0.5, 8), step = R.uni(0.05, 0.3);
        w.rcv->time_minimum(tmin); w.rcv->time_maximum(tmax); 
        if (w.src != w.rcv) { w.src->time_minimum(0.123); w.src->time_maximum(99); }
        int hosts = R.in(0, 2);
        std::vector<std::shared_ptr<platform_model>> carrier;
        double hy[3] = {R.uni(-180, 180), R.uni(-40, 40), R.uni(-40, 40)};
        Axes ha = axes(hy[0], hy[1], hy[2]);
        // attitude of the array ends up as the one drawn, whoever carries it
        for (int i = 0; i < hosts; ++i) carrier.emplace_back(new platform_model((uint64_t)(10 + i), "host", 0, wposition1(10, 20, -90), i ? orientation(R.uni(-180, 180), 0, 0) : orientation(hy[0], hy[1], hy[2]), 0));
        for (int i = 1; i < hosts; ++i) carrier[i - 1]->add_child(carrier[i], bvector(0, 0, 0), orientation(R.uni(-90, 90), 0, 0));
        if (hosts) {
            carrier.back()->add_child(w.src, bvector(1, 2, 3), orientation(R.uni(-90, 90), R.uni(-20, 20), R.uni(-20, 20)));
            carrier[0]->update(5, wposition1(10, 20, -90), orientation(hy[0], hy[1], hy[2]), 0, platform_model::NO_UPDATE);
            orientation now = w.src->orient();
            matrix<double> m = now.rotation();
            for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) w.sa[k][i] = m(i, k);
            if (w.src == w.rcv) w.ra = w.sa;
        }
        transmit_list tl;
        int np = R.in(1, 4), nb = R.in(1, 12);
        for (int i = 0; i < np; ++i) { auto k = w.sb.begin(); std::advance(k, R.in(0, (int)w.sb.size() - 1)); tl.push_back(pulse(R, f, k->first)); }
        w.src->transmit_schedule(tl);
        C.in("hosts", hosts).in("pulses", np).in("overlaps", nb).in("yaw", hy[0]);
        size_t layers = (size_t)R.in(0, 2);
        auto* bc = new biverb_collection(layers);
        biverb_collection::csptr keep(bc);
        // overlaps enter a collection as products of patches
        std::vector<biverb_model::csptr> added;
        for (int i = 0; i < nb; ++i) {
            auto patch = [&] {
                auto* e = new eigenverb_model();
                e->travel_time = R.uni(0, 0.5 * tmax); e->frequencies = f; e->power = vector<double>(f->size());
                for (size_t k = 0; k < f->size(); ++k) e->power[k] = R.logu(1e-3, 1);
                e->length = R.uni(20, 200); e->width = R.uni(20, 200);
                e->position = wposition1(10, 20, -200); e->direction = 0; e->grazing = R.uni(0.1, 1); e->sound_speed = 1500;
                e->source_de = R.uni(-1, 1); e->source_az = R.uni(0, 6); e->de_index = e->az_index = 0;
                e->surface = e->bottom = e->caustic = e->upper = e->lower = 0;
                return eigenverb_model::csptr(e);
            };
            bc->add_biverb(patch(), patch(), vector<double>(f->size(), R.logu(1e-4, 1)), (size_t)R.in(0, (int)(2 * layers + 1)));
        }
        for (size_t i = 0; i < bc->num_interfaces(); ++i) for (auto& b : bc->biverbs(i)) added.push_back(b);
        auto pair = std::make_shared<sensor_pair>(w.src, w.rcv);
        struct ear : update_listener<rvbts_collection::csptr> { rvbts_collection::csptr got; int n = 0; void notify_update(const rvbts_collection::csptr* c) override { got = *c; ++n; } } e;
        auto task = std::make_shared<rvbts_generator>(pair, w.src, w.rcv, step, keep);
        task->add_listener(&e);
        wposition1 sp = w.src->position(), rp = w.rcv->position();
        double ss = w.src->speed();
        bool abort = R.chance(0.1), moved = R.chance(0.5);
        if (moved) {  // the task works on the state at its construction
            w.src->update(9, wposition1(11, 21, -10), orientation(1, 2, 3), 7, platform_model::NO_UPDATE);
            w.rcv->update(9, wposition1(12, 22, -20), orientation(4, 5, 6), 8, platform_model::NO_UPDATE);
            w.src->transmit_schedule(transmit_list());
            w.rcv->time_maximum(1.0);
        }
        if (abort) task->abort();
        task->run();
        if (abort) { CHECK(e.n == 0 && pair->rvbts() == nullptr, "aborted", "aborted computation was announced"); vt::obs("aborted computations"); return; }
        CHECK(e.n == 1 && e.got, "announced", MSG("result announced " << e.n << " times"));
        if (!e.got) return;
        CHECK(pair->rvbts() == e.got, "pair", "pair does not hold the result");
        std::vector<double> t;
        for (size_t i = 0; i < e.got->travel_times()->size(); ++i) t.push_back((*e.got->travel_times())[i]);
        CHECK(!t.empty() && std::abs(t[0] - tmin) < 1e-9 && std::abs(t.back() - tmax) < step && (t.size() < 2 || std::abs(t[1] - t[0] - step) < 1e-9), "axis", "time axis is not that of the receiver");
        CHECK(e.got->source() == w.src && e.got->receiver() == w.rcv && e.got->source_pos().distance(sp) < 1e-3 && e.got->receiver_pos().distance(rp) < 1e-3 && e.got->source_speed() == ss, "state", "result does not hold the state of its sensors");
        Bounds b(w.rb.size(), t);
        for (auto& v : added) {
            double start = 0;
            for (auto& x : tl) {
                V3 ordered = dir(x->orderedDE * D, x->orderedAZ * D);
                V3 s = hosts ? in(w.sa, out(ha, ordered)) : ordered;
                double bs = response(w.sb[x->transmit_mode], in(w.sa, dir(v->source_de, v->source_az)), s, x->fcenter);
                size_t row = 0;
                for (auto& r : w.rb) b.add(row++, *v, *x, start, bs, response(r.second, in(w.ra, dir(v->receiver_de, v->receiver_az)), r.second.steer, x->fcenter));
                start += x->delay + x->duration;
            }
        }
        check(C, e.got->time_series(), b, "generated");
        vt::obs(hosts ? "hosted sources" : "sources without host");
        pair.reset();
        for (size_t i = carrier.size(); i-- > 0;) for (auto& c : carrier[i]->children()) carrier[i]->remove_child(c->keyID());
    });
    vt::section("export", 150, [&](Case& C, Rng& R) {
        World w = world(R);
        double tmax;
        auto t = times(R, &tmax);
        auto f = freqs(R);
        C.in("channels", w.rb.size()).in("times", t->size());
        wposition1 sp(R.uni(-80, 80), R.uni(-170, 170), -R.uni(0, 3000)), rp(R.uni(-80, 80), R.uni(-170, 170), -R.uni(0, 3000));
        double ss = R.uni(0, 20), rs = R.uni(0, 20);
        rvbts_collection c(w.src, sp, w.so(), ss, w.rcv, rp, w.ro(), rs, t);
        for (int i = 0; i < 5; ++i) c.add_biverb(overlap(R, f, tmax), pulse(R, f, w.sb.begin()->first), bvector(1, 0, 0));
        std::string name = vt::S().scratch + "/rvbts.nc";
        c.write_netcdf(name.c_str());
        int id = -1;
        CHECK(nc_open(name.c_str(), NC_NOWRITE, &id) == NC_NOERR, "open", "can not open what was written");
        if (id < 0) return;
        auto scalar = [&](const char* n, double want, double tol) {
            int v; double x = NAN;
            bool ok = nc_inq_varid(id, n, &v) == NC_NOERR && nc_get_var_double(id, v, &x) == NC_NOERR;
            CHECK(ok && std::abs(x - want) <= tol, "exported", MSG(n << " was written as " << x << " instead of " << want));
        };
        scalar("sourceID", 1, 0); scalar("receiverID", 2, 0);
        scalar("source_latitude", sp.latitude(), 1e-9); scalar("source_longitude", sp.longitude(), 1e-9); scalar("source_altitude", sp.altitude(), 1e-6);
        scalar("receiver_latitude", rp.latitude(), 1e-9); scalar("receiver_longitude", rp.longitude(), 1e-9); scalar("receiver_altitude", rp.altitude(), 1e-6);
        scalar("source_yaw", w.so().yaw(), 1e-9); scalar("source_pitch", w.so().pitch(), 1e-9); scalar("source_roll", w.so().roll(), 1e-9); scalar("source_speed", ss, 0);
        scalar("receiver_yaw", w.ro().yaw(), 1e-9); scalar("receiver_pitch", w.ro().pitch(), 1e-9); scalar("receiver_roll", w.ro().roll(), 1e-9); scalar("receiver_speed", rs, 0);
        int dv, d0[2]; size_t n0 = 0, n1 = 0;
        bool ok = nc_inq_varid(id, "time_series", &dv) == NC_NOERR && nc_inq_vardimid(id, dv, d0) == NC_NOERR && nc_inq_dimlen(id, d0[0], &n0) == NC_NOERR && nc_inq_dimlen(id, d0[1], &n1) == NC_NOERR;
        CHECK(ok && n0 == w.rb.size() && n1 == t->size(), "dimensions", MSG("envelopes of " << n0 << " channels by " << n1 << " times were written"));
        if (ok && n0 == w.rb.size() && n1 == t->size()) {
            std::vector<double> a(n0 * n1), tt(n1);
            nc_get_var_double(id, dv, a.data());
            int tv; nc_inq_varid(id, "travel_time", &tv); nc_get_var_double(id, tv, tt.data());
            for (size_t j = 0; j < n1; ++j) { CHECK(tt[j] == (*t)[j], "times", "times were written wrongly"); for (size_t i = 0; i < n0; ++i) CHECK(a[i * n1 + j] == c.time_series()(i, j), "values", MSG("channel " << i << " time " << j << " was written as " << a[i * n1 + j])); }
            int cv; std::vector<double> ch(n0, NAN);
            CHECK(nc_inq_varid(id, "channels", &cv) == NC_NOERR && nc_get_var_double(id, cv, ch.data()) == NC_NOERR, "channels", "no channel axis was written");
            for (size_t i = 0; i < n0; ++i) CHECK(ch[i] == (double)i, "channels", MSG("channel " << i << " was written as " << ch[i]));
            vt::obs("values read back", (long)(n0 * n1));
        }
        nc_close(id);
        remove(name.c_str());
    });
    return vt::finish();
}
