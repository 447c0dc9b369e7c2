// S01: axis sequences.  Reference: a plain std::vector of the elements each
// kind of axis documents, compared with everything the sequence offers.
#include <usml/types/types.h>
#include "vt.h"
using namespace usml::types;

struct Axis {
    std::shared_ptr<const seq_vector> seq;
    std::vector<double> want;  // documented elements
    std::string kind;
    double tol;  // relative error of elements allowed by repeated addition / multiplication
};

static std::vector<double> monotone(Rng& R, int n, double span, bool up) {
    std::vector<double> v(n);
    double x = R.uni(-span, span);
    for (int i = 0; i < n; ++i) {
        v[i] = x;
        double s = R.chance(0.2) ? R.logu(1e-6, 1e-3) * span : R.uni(0.01, 1.0) * span / 4;
        x += up ? s : -s;
    }
    return v;
}

static Axis make(Case& C, Rng& R, int which) {
    Axis A;
    A.tol = 1e-9;
    int n = (int)R.pick({1, 2, 3, 4, 5, 7, 10, 33, 200});
    switch (which) {
        case 0: {  // first, increment, size
            double f = R.uni(-1e3, 1e3), d = (R.chance(0.5) ? 1 : -1) * R.logu(1e-3, 1e3);
            for (int i = 0; i < n; ++i) A.want.push_back(f + i * d);
            C.in("f", f).in("d", d).in("n", n);
            if (R.chance(0.5)) A.seq.reset(new seq_linear(f, d, n)); else A.seq.reset(new seq_linear(f, d, (size_t)n));
            A.kind = "linear_size";
            break;
        }
        case 1: {  // first, increment, last (element multiples)
            double f = R.in(-50, 50), d = R.pick({0.1, 0.25, 0.5, 1.0, 2.0, 3.0, 10.0, -0.1, -0.5, -1.0, -4.0});
            double last = f + (n - 1 + R.pick({0.0, 0.0, 0.5, 0.85})) * d;
            for (int i = 0; i < n; ++i) A.want.push_back(f + i * d);
            C.in("f", f).in("d", d).in("last", last);
            A.seq.reset(new seq_linear(f, d, last));
            A.kind = "linear_last";
            break;
        }
        case 2: {  // first, last, size
            double f = R.uni(-100, 100), l = f + (R.chance(0.5) ? 1 : -1) * R.logu(1e-2, 1e4);
            for (int i = 0; i < n; ++i) A.want.push_back(n > 1 ? f + i * (l - f) / (n - 1) : f);
            C.in("f", f).in("l", l).in("n", n);
            A.seq.reset(new seq_linear(f, l, (size_t)n, true));
            A.kind = "linear_first_last";
            break;
        }
        case 3: {  // log, first, ratio, size
            double f = (R.chance(0.2) ? -1 : 1) * R.logu(1e-2, 1e4), r = R.chance(0.7) ? R.uni(1.01, 4) : R.uni(0.3, 0.99);
            n = std::min(n, 40);
            for (int i = 0; i < n; ++i) A.want.push_back(f * std::pow(r, i));
            C.in("f", f).in("r", r).in("n", n);
            if (R.chance(0.5)) A.seq.reset(new seq_log(f, r, n)); else A.seq.reset(new seq_log(f, r, (size_t)n));
            A.kind = "log_size";
            break;
        }
        case 4: {  // log, first, ratio, last
            double f = R.logu(1, 100), r = R.pick({2.0, 10.0, 1.5, std::sqrt(2.0)});
            n = std::min(n, 12);
            double last = f * std::pow(r, n - 1 + R.pick({0.0, 0.5}));
            // the documented tolerance of the last value
            int m = (int)std::max(1.0, std::floor(1.0 + std::log((last + r / 10) / f) / std::log(r)));
            for (int i = 0; i < m; ++i) A.want.push_back(f * std::pow(r, i));
            C.in("f", f).in("r", r).in("last", last);
            A.seq.reset(new seq_log(f, r, last));
            A.kind = "log_last";
            break;
        }
        case 5: {  // arbitrary
            A.want = monotone(R, n, R.logu(1, 1e4), R.chance(0.5));
            C.inv("data", A.want);
            if (R.chance(0.5)) A.seq.reset(new seq_data(A.want));
            else A.seq.reset(new seq_data(A.want.data(), A.want.size()));
            A.kind = "data";
            A.tol = 0;
            break;
        }
        case 6: {  // ray fan
            n = std::max(n, 2);
            double a = R.uni(-90, 80), b = R.uni(a + 0.5, 90), c = R.chance(0.3) ? 0.0 : R.uni(-60, 60), s = R.uni(1, 20);
            double a1 = std::atan((a - c) / s), b1 = std::atan((b - c) / s);
            for (int i = 0; i < n; ++i) A.want.push_back(c + s * std::tan(a1 + (b1 - a1) * i / (n - 1)));
            C.in("first", a).in("last", b).in("n", n).in("center", c).in("spread", s);
            if (R.chance(0.3)) A.seq.reset(new seq_rayfan(b, a, n, c, s)); else A.seq.reset(new seq_rayfan(a, b, n, c, s));
            A.kind = "rayfan";
            break;
        }
        case 7: {  // augmented
            n = std::max(n, 4);
            int extra = (int)R.in(0, 13);
            seq_vector::csptr o;
            bool even = R.chance(0.5);
            double f = R.uni(-90, 0), d = R.pick({-1.0, 1.0}) * R.uni(0.5, 5);
            std::vector<double> ov;
            if (even) { o.reset(new seq_linear(f, d, n)); for (int i = 0; i < n; ++i) ov.push_back(f + i * d); }
            else { ov = monotone(R, n, 90, R.chance(0.7)); o.reset(new seq_data(ov)); }
            C.inv("origin", ov).in("extra", extra);
            A.seq.reset(new seq_augment(o, extra));
            A.kind = "augment";
            // documented: the original elements with `extra` rays added to both edges
            CHECK(A.seq->size() == ov.size() + extra, "augment.size", "size " << A.seq->size() << " want " << ov.size() + extra);
            size_t inside_lo = 0, inside_hi = 0, other = 0;
            double sgn = ov[1] > ov[0] ? 1 : -1;
            for (size_t i = 0; i < A.seq->size(); ++i) {
                double v = (*A.seq)[i];
                bool orig = false;
                for (double x : ov) if (std::fabs(x - v) <= 1e-9 * (1 + std::fabs(x))) orig = true;
                if (orig) continue;
                if (sgn * v > sgn * ov[0] && sgn * v < sgn * ov[1]) ++inside_lo;
                else if (sgn * v > sgn * ov[n - 2] && sgn * v < sgn * ov[n - 1]) ++inside_hi;
                else ++other;
                A.want.push_back(v);
            }
            A.want = ov;
            CHECK(other == 0 && inside_lo == (size_t)(extra / 2) && inside_hi == (size_t)(extra - extra / 2), "augment.placement",
                  "added " << inside_lo << " low " << inside_hi << " high " << other << " elsewhere for " << extra);
            A.want.clear();
            for (size_t i = 0; i < A.seq->size(); ++i) A.want.push_back((*A.seq)[i]);
            for (size_t i = 0; i < ov.size(); ++i) {
                bool hit = false;
                for (double v : A.want) if (std::fabs(ov[i] - v) <= 1e-9 * (1 + std::fabs(v))) hit = true;
                CHECK(hit, "augment.lost", "original element " << ov[i] << " lost");
            }
            break;
        }
        default: {  // automatically chosen
            int t = (int)R.in(0, 5);
            if (t == 0) { double f = R.uni(-100, 100), d = R.pick({-1, 1}) * R.logu(1e-3, 1e2); for (int i = 0; i < n; ++i) A.want.push_back(f + i * d); }
            else if (t == 1) { double f = R.logu(0.1, 1e4), r = R.uni(1.05, 3); n = std::min(n, 20); for (int i = 0; i < n; ++i) A.want.push_back(f * std::pow(r, i)); }
            else if (t == 2) { A.want = monotone(R, n, R.logu(1, 1e4), R.chance(0.5)); }
            else if (t == 3) { // passes through exactly zero
                A.want = monotone(R, n, 100, R.chance(0.5)); double z = A.want[R.in(0, n - 1)]; for (double& x : A.want) x -= z; }
            else if (t == 4) { // nearly linear at large offset
                double f = R.uni(1e4, 1e6); for (int i = 0; i < n; ++i) A.want.push_back(f + i * 3.0 + (i % 3 == 1 ? R.uni(0, 2.0) : 0)); }
            else { A.want = {0, 10, 20, 30, 50, 75, 100, 125, 150, 200, 250, 300, 400, 500}; A.want.resize(std::min<size_t>(n, A.want.size())); }
            C.in("t", t).inv("data", A.want);
            if (R.chance(0.3)) A.seq = seq_vector::build_best(A.want);
            else if (R.chance(0.5)) { boost::numeric::ublas::vector<double> u(A.want.size()); for (size_t i = 0; i < A.want.size(); ++i) u[i] = A.want[i]; A.seq = seq_vector::build_best(u); }
            else A.seq = seq_vector::build_best(A.want.data(), A.want.size());
            A.kind = "best";
            // element values are kept to a small fraction of the distance between neighbours
            A.tol = -1;
        }
    }
    return A;
}

static void checkall(Case& C, Rng& R, Axis& A) {
    const seq_vector& s = *A.seq;
    const std::string k = A.kind + ".";
    const size_t n = A.want.size();
    if (s.size() != n) { C.fail(k + "size", MSG("size " << s.size() << " want " << n)); return; }
    double span = 0, amax = 0;
    for (double v : A.want) amax = std::max(amax, std::fabs(v));
    if (n > 1) span = std::fabs(A.want[n - 1] - A.want[0]);
    auto gap = [&](size_t i) {
        double g = 1e300;
        if (i > 0) g = std::min(g, std::fabs(A.want[i] - A.want[i - 1]));
        if (i + 1 < n) g = std::min(g, std::fabs(A.want[i + 1] - A.want[i]));
        return g > 1e299 ? 0.0 : g;
    };
    // elements
    std::vector<double> v(n);
    for (size_t i = 0; i < n; ++i) {
        v[i] = s[i];
        double tol = A.tol < 0 ? 2e-3 * gap(i) + 1e-9 * amax : A.tol * (std::fabs(A.want[i]) + amax + span);
        if (A.tol == 0) CHECK(v[i] == A.want[i], k + "element", "element " << i << " is " << v[i] << " want " << A.want[i]);
        else NEAR(v[i], A.want[i], tol, k + "element", "element " << i);
        CHECK(s(i) == v[i], k + "call", "operator() differs at " << i);
        CHECK(std::isfinite(v[i]), k + "finite", "element " << i << " is " << v[i]);
    }
    CHECK(s(n) == v[n - 1] && s(n + 5) == v[n - 1], k + "call_clip", "operator() beyond the end");
    // monotone
    bool up = n < 2 || A.want[n - 1] > A.want[0];
    for (size_t i = 1; i < n; ++i) CHECK(up ? v[i] > v[i - 1] : v[i] < v[i - 1], k + "monotone", "elements " << i - 1 << ".." << i << ": " << v[i - 1] << " " << v[i]);
    // increments
    for (size_t i = 0; i + 1 < n; ++i) NEAR(s.increment(i), v[i + 1] - v[i], 1e-9 * (amax + span), k + "increment", "increment " << i);
    if (n > 1) {
        // beyond the last interval the increment is limited to the last one
        NEAR(s.increment(n - 1), v[n - 1] - v[n - 2], 1e-9 * (amax + span), k + "increment_last", "last increment");
        CHECK(s.increment(n + 3) == s.increment(n - 1), k + "increment_clip", "increment beyond the end");
    }
    // iteration in both directions, copies
    {
        size_t i = 0;
        for (auto it = s.begin(); it != s.end() && i <= n; ++it, ++i) CHECK(i < n && *it == v[i], k + "iter", "forward element " << i);
        CHECK(i == n, k + "iter", "visited " << i);
        i = 0;
        for (auto it = s.rbegin(); it != s.rend() && i <= n; ++it, ++i) CHECK(i < n && *it == v[n - 1 - i], k + "riter", "backward element " << i);
        CHECK(i == n, k + "riter", "visited " << i);
        auto d = s.data();
        CHECK(d.size() == n, k + "data", "copy size " << d.size());
        for (i = 0; i < std::min<size_t>(n, d.size()); ++i) CHECK(d[i] == v[i], k + "data", "copy element " << i);
        boost::numeric::ublas::vector<double> u(s);
        CHECK(u.size() == n, k + "ublas", "ublas copy size " << u.size());
        for (i = 0; i < std::min<size_t>(n, u.size()); ++i) CHECK(u[i] == v[i], k + "ublas", "ublas element " << i);
    }
    // lookups
    auto look = [&](double x) {
        size_t f = s.find_index(x);
        size_t lim = n < 2 ? 0 : n - 2;
        if (f > lim) { C.fail(k + "find_index.range", MSG("find_index(" << x << ")=" << f << " of " << n)); return; }
        vt::obs("lookups");
        if (n >= 2) {
            double lo = up ? v[f] : -v[f], hi = up ? v[f + 1] : -v[f + 1], y = up ? x : -x;
            double eps = 1e-9 * (amax + span) ;
            double first = up ? v[0] : -v[0], last = up ? v[n - 1] : -v[n - 1];
            if (y < first - eps) CHECK(f == 0, k + "find_index.below", "find_index(" << x << ")=" << f);
            else if (y > last + eps) CHECK(f == n - 2, k + "find_index.above", "find_index(" << x << ")=" << f << " size " << n);
            else CHECK(y >= lo - eps && y <= hi + eps, k + "find_index", "find_index(" << x << ")=" << f << " interval [" << v[f] << "," << v[f + 1] << "]");
            if (A.tol == 0) {  // exact elements: half open intervals
                for (size_t i = 0; i + 1 < n; ++i) if (x == v[i]) CHECK(f == i, k + "find_index.element", "find_index(element " << i << ")=" << f);
            }
        }
        size_t m = s.find_nearest(x);
        if (m >= n) { C.fail(k + "find_nearest.range", MSG("find_nearest(" << x << ")=" << m << " of " << n)); return; }
        double best = 1e300;
        for (size_t i = 0; i < n; ++i) best = std::min(best, std::fabs(v[i] - x));
        CHECK(std::fabs(v[m] - x) <= best + 1e-9 * (amax + span), k + "find_nearest", "find_nearest(" << x << ")=" << m << " (" << v[m] << ") best distance " << best);
    };
    for (size_t i = 0; i < n; i += 1 + n / 20) {
        look(v[i]);
        look(std::nextafter(v[i], 1e300));
        look(std::nextafter(v[i], -1e300));
        if (i + 1 < n) for (double t : {0.25, 0.5, 0.75, 0.999}) look(v[i] + t * (v[i + 1] - v[i]));
    }
    look(v[n - 1]);
    if (n > 1) look(0.5 * (v[n - 1] + v[n - 2]));
    for (double x : {0.0, -1.0, 1.0, 1e18, -1e18, 1e300, -1e300, 1e30}) look(x);
    for (int j = 0; j < 6; ++j) look(R.uni(-2, 2) * (amax + span));
    // comparison
    {
        seq_data d(v);
        CHECK(s == d && d == s && !(s != d), k + "equal", "sequence differs from its own elements");
        if (n > 1) {
            std::vector<double> w(v);
            size_t j = R.in(0, n - 1);
            w[j] += (j + 1 < n ? (v[j + 1] - v[j]) : (v[j] - v[j - 1])) * 0.25;
            seq_data e(w);
            CHECK(s != e && !(s == e), k + "notequal", "sequence equals one with another element " << j);
            std::vector<double> p(v.begin(), v.end() - 1);
            seq_data q(p);
            CHECK(s != q && q != s, k + "notequal_size", "sequence equals a shorter one");
        }
    }
    // clip
    for (int j = 0; j < 3; ++j) {
        size_t a = R.in(0, n - 1), b = R.in(0, n - 1);
        if (a > b) std::swap(a, b);
        double lo = std::min(v[a], v[b]), hi = std::max(v[a], v[b]);
        double g = 0.4 * std::max(gap(a), 1e-6), h = 0.4 * std::max(gap(b), 1e-6);
        if (n > 1) { g = 0.4 * gap(a); h = 0.4 * gap(b); }
        if (R.chance(0.5)) { lo -= up ? g : h; hi += up ? h : g; }
        if (R.chance(0.2)) { lo = -1e30; hi = 1e30; a = 0; b = n - 1; }
        auto c = s.clip(lo, hi);
        CHECK(c->size() == b - a + 1, k + "clip.size", "clip(" << lo << "," << hi << ") has " << c->size() << " want " << b - a + 1);
        if (c->size() == b - a + 1)
            for (size_t i = 0; i < c->size(); ++i) NEAR((*c)[i], v[a + i], 2e-3 * gap(a + i) + 1e-9 * amax, k + "clip.element", "clip element " << i);
    }
}

int main(int argc, char** argv) {
    vt::init(argc, argv);
    static const char* names[] = {"linear_size", "linear_last", "linear_first_last", "log_size", "log_last", "data", "rayfan", "augment", "best"};
    for (int w = 0; w < 9; ++w)
        vt::section(names[w], 600, [&](Case& C, Rng& R) {
            Axis A = make(C, R, w);
            checkall(C, R, A);
        });
    // copies of sequences are independent of the original and equal to it
    vt::section("copy", 200, [&](Case& C, Rng& R) {
        std::unique_ptr<seq_linear> a(new seq_linear(R.uni(-5, 5), R.uni(0.1, 3), (int)R.in(2, 9)));
        std::unique_ptr<seq_log> b(new seq_log(R.uni(1, 5), R.uni(1.1, 3), (int)R.in(2, 9)));
        C.in("a", (*a)[0]).in("b", (*b)[0]);
        seq_linear c(*a);
        seq_log d(*b);
        CHECK(c == *a && d == *b, "copy.equal", "copy differs");
        double x = (*a)[1], y = (*b)[1];
        a.reset(); b.reset();
        CHECK(c[1] == x && d[1] == y, "copy.keeps", "copy changed");
    });
    // series that are not monotone are refused
    vt::section("refuse", 300, [&](Case& C, Rng& R) {
        auto v = monotone(R, (int)R.in(3, 20), 100, R.chance(0.5));
        size_t i = R.in(1, v.size() - 1);
        std::swap(v[i], v[i - 1]);
        if (R.chance(0.3)) v[i] = v[i - 1];
        C.inv("data", v);
        bool threw = false;
        if (v.size() < 3) return;
        bool mono = true;
        for (size_t j = 2; j < v.size(); ++j) if ((v[j] - v[j - 1]) * (v[j - 1] - v[j - 2]) <= 0) mono = false;
        try { seq_data d(v); } catch (const std::invalid_argument&) { threw = true; }
        CHECK(threw == !mono, "refuse", "monotone " << mono << " refused " << threw);
    });
    return vt::finish();
}
