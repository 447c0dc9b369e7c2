// U01: element-wise math and random numbers.  Reference: the scalar function of
// the C++ library applied to each element.
#include <usml/ublas/ublas.h>
#include <usml/ublas/randgen.h>
#include <boost/numeric/ublas/vector_proxy.hpp>
#include <boost/numeric/ublas/matrix_proxy.hpp>
#include "vt.h"
namespace U = usml::ublas;
using namespace usml::ublas;
using boost::numeric::ublas::matrix;
using boost::numeric::ublas::vector;
using boost::numeric::ublas::range;
typedef std::complex<double> cd;

template <class T> struct Lim { static constexpr double rel = 1e-12; };
template <> struct Lim<float> { static constexpr double rel = 2e-5; };
template <> struct Lim<std::complex<float>> { static constexpr double rel = 2e-4; };
template <> struct Lim<cd> { static constexpr double rel = 1e-11; };

static bool close(double a, double b, double rel) { return vt::same(a, b) || std::fabs(a - b) <= rel * (1 + std::max(std::fabs(a), std::fabs(b))) || (a == b); }
template <class T> bool closec(const std::complex<T>& a, const std::complex<T>& b, double rel) {
    return (std::isnan(a.real()) && std::isnan(b.real())) || std::abs(a - b) <= rel * (1 + std::abs(a) + std::abs(b));
}
inline bool closeT(double a, double b, double r) { return close(a, b, r); }
inline bool closeT(float a, float b, double r) { return close(a, b, r); }
inline bool closeT(const cd& a, const cd& b, double r) { return closec(a, b, r); }
inline bool closeT(const std::complex<float>& a, const std::complex<float>& b, double r) { return closec(a, b, r); }

template <class T> T rnd(Rng& R, double lo, double hi);
template <> inline double rnd<double>(Rng& R, double lo, double hi) { return R.uni(lo, hi); }
template <> inline float rnd<float>(Rng& R, double lo, double hi) { return (float)R.uni(lo, hi); }
template <> inline cd rnd<cd>(Rng& R, double lo, double hi) { return cd(R.uni(lo, hi), R.uni(lo, hi)); }
template <> inline std::complex<float> rnd<std::complex<float>>(Rng& R, double lo, double hi) { return std::complex<float>((float)R.uni(lo, hi), (float)R.uni(lo, hi)); }

template <class V> struct Acc;
template <class T> struct Acc<vector<T>> {
    static vector<T> make(Rng& R, size_t n, size_t, double lo, double hi) { vector<T> v(n); for (size_t i = 0; i < n; ++i) v[i] = rnd<T>(R, lo, hi); return v; }
    static size_t count(const vector<T>& v) { return v.size(); }
    static const T& at(const vector<T>& v, size_t i) { return v[i]; }
    static T& at(vector<T>& v, size_t i) { return v[i]; }
    static const char* name() { return "vector"; }
};
template <class T, class L> struct Acc<matrix<T, L>> {
    typedef matrix<T, L> M;
    static M make(Rng& R, size_t n, size_t m, double lo, double hi) { M v(n, m); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) v(i, j) = rnd<T>(R, lo, hi); return v; }
    static size_t count(const M& v) { return v.size1() * v.size2(); }
    static const T& at(const M& v, size_t i) { return v(i / v.size2(), i % v.size2()); }
    static T& at(M& v, size_t i) { return v(i / v.size2(), i % v.size2()); }
    static const char* name() { return "matrix"; }
};

#define CMP(OUT, RES, NAME, ...) do { RES _r(__VA_ARGS__); size_t _n = Acc<RES>::count(_r); \
    if (_n != N) (C).fail(std::string(NAME) + ".size", MSG("size " << _n << " want " << N)); \
    else for (size_t i = 0; i < N; ++i) { auto want = OUT; auto got = Acc<RES>::at(_r, i); \
        if (!closeT(got, (decltype(got))want, tol)) { (C).fail(NAME, MSG(Acc<RES>::name() << " element " << i << " is " << got << " want " << want)); break; } } \
    vt::obs("functions"); } while (0)
#define X(i) A::at(x, i)
#define Y(i) A::at(y, i)

// real types.  V: container, A accessor
template <class V, class VC, class VR>
void real_fns(Case& C, Rng& R, size_t n, size_t m) {
    typedef Acc<V> A;
    typedef typename V::value_type T;
    const double tol = Lim<T>::rel;
    V x = A::make(R, n, m, -3, 3), y = A::make(R, n, m, -3, 3);
    if (A::count(x) > 2) { A::at(x, 0) = (T)0; A::at(y, 1) = (T)0; A::at(y, 0) = (T)-0.5; A::at(x, 1) = (T)2; A::at(x, 2) = (T)-1; }
    size_t N = A::count(x);
    const V x0(x), y0(y);
    T s = (T)R.uni(-2, 2);
    V p = A::make(R, n, m, 1.01, 8), u = A::make(R, n, m, -0.95, 0.95);
    C.in("n", n).in("m", m).in("s", s);
    CMP(X(i) + s, V, "plus_vs", x + s);
    CMP(s + X(i), V, "plus_sv", s + x);
    CMP(X(i) - s, V, "minus_vs", x - s);
    CMP(s - X(i), V, "minus_sv", s - x);
    CMP(s / A::at(p, i), V, "div_sv", s / p);
    CMP(X(i) * Y(i), V, "times_vv", x * y);
    CMP(X(i) / A::at(p, i), V, "div_vv", x / p);
    CMP(std::max(X(i), s), V, "max", U::max(x, s));
    CMP(std::min(X(i), s), V, "min", U::min(x, s));
    CMP(std::floor(X(i)), V, "floor", U::floor(x));
    CMP(std::ceil(X(i)), V, "ceil", U::ceil(x));
    CMP(X(i) * (T)(180 / M_PI), V, "to_degrees", U::to_degrees(x));
    CMP(X(i) * (T)(M_PI / 180), V, "to_radians", U::to_radians(x));
    CMP((T)90 - X(i) * (T)(180 / M_PI), V, "to_latitude", U::to_latitude(x));
    CMP(((T)90 - X(i)) * (T)(M_PI / 180), V, "to_colatitude", U::to_colatitude(x));
    CMP(std::fabs(X(i)), VR, "abs", U::abs(x));
    CMP(X(i) * X(i), VR, "abs2", U::abs2(x));
    CMP(std::sqrt(A::at(p, i)), V, "sqrt", U::sqrt(p));
    CMP((Y(i) < 0 ? -std::fabs(X(i)) : std::fabs(X(i))), V, "copysign", U::copysign(x, y));
    CMP(std::cos(X(i)), V, "cos", U::cos(x));
    CMP(std::cosh(X(i)), V, "cosh", U::cosh(x));
    CMP(std::sin(X(i)), V, "sin", U::sin(x));
    CMP(std::sinh(X(i)), V, "sinh", U::sinh(x));
    CMP(std::tan(A::at(u, i)), V, "tan", U::tan(u));
    CMP(std::tanh(X(i)), V, "tanh", U::tanh(x));
    CMP(std::acos(A::at(u, i)), V, "acos", U::acos(u));
    CMP(std::acosh(A::at(p, i)), V, "acosh", U::acosh(p));
    CMP(std::asin(A::at(u, i)), V, "asin", U::asin(u));
    CMP(std::asinh(X(i)), V, "asinh", U::asinh(x));
    CMP(std::atan(X(i)), V, "atan", U::atan(x));
    CMP(std::atan2(X(i), Y(i)), V, "atan2", U::atan2(x, y));
    CMP(std::atanh(A::at(u, i)), V, "atanh", U::atanh(u));
    CMP(std::exp(X(i)), V, "exp", U::exp(x));
    CMP(std::log(A::at(p, i)), V, "log", U::log(p));
    CMP(std::log10(A::at(p, i)), V, "log10", U::log10(p));
    CMP(std::pow(A::at(p, i), s), V, "pow_vs", U::pow(p, s));
    CMP(std::pow((T)2.5, X(i)), V, "pow_sv", U::pow((T)2.5, x));
    CMP(std::pow(A::at(p, i), Y(i)), V, "pow_vv", U::pow(p, y));
    CMP(std::sin(X(i)), V, "signal", U::signal(x));
    typedef typename VC::value_type TC;
    CMP(TC(std::sin(X(i)), std::cos(X(i))), VC, "asignal", U::asignal(x));
    // expressions as arguments
    CMP(std::exp((X(i) + Y(i)) * (T)0.5), V, "expr.exp", U::exp((x + y) * (T)0.5));
    CMP(std::max(X(i) * Y(i), s), V, "expr.max", U::max(element_prod(x, y), s));
    CMP((X(i) + s) * (s - Y(i)) / A::at(p, i), V, "expr.chain", element_div(element_prod(x + s, s - y), p));
    CMP((T)1 - (T)2 * (X(i) * X(i) + Y(i)), V, "expr.nest", (T)1 - (T)2 * (U::abs2(x) + y));
    CMP(std::sqrt(std::fabs(std::sin(X(i)) * std::cos(Y(i)))), V, "expr.deep", U::sqrt(U::abs(element_prod(U::sin(x), U::cos(y)))));
    CMP(std::pow(X(i) * X(i) + (T)1, (T)-0.5), V, "expr.pow", U::pow(U::abs2(x) + (T)1, (T)-0.5));
    for (size_t i = 0; i < N; ++i) CHECK(A::at(x, i) == A::at(x0, i) && A::at(y, i) == A::at(y0, i), "arguments", "argument changed at " << i);
    // assignment to the argument itself, and no alias into another
    V z(x), w(x);
    z = U::sin(z);
    boost::numeric::ublas::noalias(w) = U::cos(x);
    for (size_t i = 0; i < N; ++i) {
        if (!closeT(A::at(z, i), (T)std::sin(X(i)), tol)) { C.fail("self", MSG("self assignment at " << i)); break; }
        if (!closeT(A::at(w, i), (T)std::cos(X(i)), tol)) { C.fail("noalias", MSG("noalias at " << i)); break; }
    }
}
template <class V, class VR>
void complex_fns(Case& C, Rng& R, size_t n, size_t m) {
    typedef Acc<V> A;
    typedef typename V::value_type T;
    typedef typename VR::value_type S;
    const double tol = Lim<T>::rel;
    V x = A::make(R, n, m, -2, 2), y = A::make(R, n, m, 0.3, 2);
    size_t N = A::count(x);
    const V x0(x);
    T s(rnd<T>(R, -2, 2));
    C.in("n", n).in("m", m).in("s", s);
    V z = A::make(R, n, m, -0.9, 0.9);
    CMP(X(i) + s, V, "c.plus_vs", x + s);
    CMP(s - X(i), V, "c.minus_sv", s - x);
    CMP(X(i) - s, V, "c.minus_vs", x - s);
    CMP(s / Y(i), V, "c.div_sv", s / y);
    CMP(X(i) * Y(i), V, "c.times_vv", x * y);
    CMP(X(i) / Y(i), V, "c.div_vv", x / y);
    CMP(std::abs(X(i)), VR, "c.abs", U::abs(x));
    CMP(std::norm(X(i)), VR, "c.abs2", U::abs2(x));
    CMP(std::arg(X(i)), VR, "c.arg", U::arg(x));
    CMP(std::sqrt(X(i)), V, "c.sqrt", U::sqrt(x));
    CMP(std::cos(X(i)), V, "c.cos", U::cos(x));
    CMP(std::cosh(X(i)), V, "c.cosh", U::cosh(x));
    CMP(std::sin(X(i)), V, "c.sin", U::sin(x));
    CMP(std::sinh(X(i)), V, "c.sinh", U::sinh(x));
    CMP(std::tan(A::at(z, i)), V, "c.tan", U::tan(z));
    CMP(std::tanh(A::at(z, i)), V, "c.tanh", U::tanh(z));
    CMP(std::asin(A::at(z, i)), V, "c.asin", U::asin(z));
    CMP(std::asinh(A::at(z, i)), V, "c.asinh", U::asinh(z));
    CMP(std::atan(A::at(z, i)), V, "c.atan", U::atan(z));
    CMP(std::atanh(A::at(z, i)), V, "c.atanh", U::atanh(z));
    CMP(std::exp(X(i)), V, "c.exp", U::exp(x));
    CMP(std::log(X(i)), V, "c.log", U::log(x));
    CMP(std::log10(X(i)), V, "c.log10", U::log10(x));
    CMP(std::pow(X(i), s), V, "c.pow_vs", U::pow(x, s));
    CMP(std::pow(s, X(i)), V, "c.pow_sv", U::pow(s, x));
    CMP(std::pow(X(i), Y(i)), V, "c.pow_vv", U::pow(x, y));
    CMP(std::pow(X(i), (S)2.5), V, "c.pow_vr", U::pow(x, (S)2.5));
    // the inverse functions with more than one usual branch undo the direct ones
    V ac(U::acos(z)), ah(U::acosh(z));
    CMP(A::at(z, i), V, "c.acos", U::cos(ac));
    CMP(A::at(z, i), V, "c.acosh", U::cosh(ah));
    CMP(std::exp(X(i) * Y(i)), V, "c.expr", U::exp(element_prod(x, y)));
    for (size_t i = 0; i < N; ++i) CHECK(A::at(x, i) == A::at(x0, i), "c.arguments", "argument changed at " << i);
}
#undef X
#undef Y

typedef boost::numeric::ublas::column_major CM;
static size_t dim(Rng& R) { return (size_t)R.pick({1, 2, 3, 5, 8, 17}); }
// one translation unit per element type, compiled side by side
void run_vector_double(Case& C, Rng& R);
void run_vector_float(Case& C, Rng& R);
void run_matrix_double(Case& C, Rng& R);
void run_matrix_float(Case& C, Rng& R);
void run_matrix_cm(Case& C, Rng& R);
void run_vector_complex(Case& C, Rng& R);
void run_matrix_complex(Case& C, Rng& R);
void run_vector_complexf(Case& C, Rng& R);
void run_matrix_complexf(Case& C, Rng& R);
#if PART == 1
void run_vector_double(Case& C, Rng& R) { real_fns<vector<double>, vector<cd>, vector<double>>(C, R, dim(R), 0); }
#endif
#if PART == 2
void run_vector_float(Case& C, Rng& R) { real_fns<vector<float>, vector<std::complex<float>>, vector<float>>(C, R, dim(R), 0); }
#endif
#if PART == 3
void run_matrix_double(Case& C, Rng& R) { real_fns<matrix<double>, matrix<cd>, matrix<double>>(C, R, dim(R), dim(R)); }
#endif
#if PART == 4
void run_matrix_float(Case& C, Rng& R) { real_fns<matrix<float>, matrix<std::complex<float>>, matrix<float>>(C, R, dim(R), dim(R)); }
#endif
#if PART == 5
void run_matrix_cm(Case& C, Rng& R) { real_fns<matrix<double, CM>, matrix<cd, CM>, matrix<double, CM>>(C, R, dim(R), dim(R)); }
#endif
#if PART == 6
void run_vector_complex(Case& C, Rng& R) { complex_fns<vector<cd>, vector<double>>(C, R, dim(R), 0); }
#endif
#if PART == 7
void run_matrix_complex(Case& C, Rng& R) { complex_fns<matrix<cd>, matrix<double>>(C, R, dim(R), dim(R)); }
#endif
#if PART == 8
void run_vector_complexf(Case& C, Rng& R) { complex_fns<vector<std::complex<float>>, vector<float>>(C, R, dim(R), 0); }
#endif
#if PART == 9
void run_matrix_complexf(Case& C, Rng& R) { complex_fns<matrix<std::complex<float>>, matrix<float>>(C, R, dim(R), dim(R)); }
#endif
#if PART == 0
int main(int argc, char** argv) {
    vt::init(argc, argv);
    vt::section("vector_double", 300, [&](Case& C, Rng& R) { run_vector_double(C, R); });
    vt::section("vector_float", 300, [&](Case& C, Rng& R) { run_vector_float(C, R); });
    vt::section("matrix_double", 300, [&](Case& C, Rng& R) { run_matrix_double(C, R); });
    vt::section("matrix_float", 300, [&](Case& C, Rng& R) { run_matrix_float(C, R); });
    vt::section("matrix_cm", 200, [&](Case& C, Rng& R) { run_matrix_cm(C, R); });
    vt::section("vector_complex", 300, [&](Case& C, Rng& R) { run_vector_complex(C, R); });
    vt::section("matrix_complex", 300, [&](Case& C, Rng& R) { run_matrix_complex(C, R); });
    vt::section("vector_complexf", 200, [&](Case& C, Rng& R) { run_vector_complexf(C, R); });
    vt::section("matrix_complexf", 200, [&](Case& C, Rng& R) { run_matrix_complexf(C, R); });
    // parts of matrices as arguments
    vt::section("proxies", 300, [&](Case& C, Rng& R) {
        size_t n = dim(R), m = dim(R);
        C.in("n", n).in("m", m);
        matrix<double> x = Acc<matrix<double>>::make(R, n, m, -3, 3);
        size_t r = R.in(0, n - 1), c = R.in(0, m - 1);
        vector<double> a = U::cos(row(x, r)), b = U::exp(column(x, c)) + 1.0;
        for (size_t j = 0; j < m; ++j) NEAR(a[j], std::cos(x(r, j)), 1e-14, "proxy.row", "row element " << j);
        for (size_t i = 0; i < n; ++i) NEAR(b[i], std::exp(x(i, c)) + 1, 1e-12, "proxy.column", "column element " << i);
        matrix<double> t = U::sin(trans(x));
        CHECK(t.size1() == m && t.size2() == n, "proxy.trans", "size");
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) NEAR(t(j, i), std::sin(x(i, j)), 1e-14, "proxy.trans", "element");
        size_t i1 = R.in(r + 1, n), j1 = R.in(c + 1, m);
        matrix<double> k(x);
        auto pr = project(k, range(r, i1), range(c, j1));
        pr = U::abs(pr) + 2.0;
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) {
            bool in = i >= r && i < i1 && j >= c && j < j1;
            NEAR(k(i, j), in ? std::fabs(x(i, j)) + 2 : x(i, j), 1e-14, "proxy.range", "element " << i << "," << j);
        }
        vector<double> v = Acc<vector<double>>::make(R, m, 0, -3, 3);
        vector<double> e = U::sqrt(U::abs(prod(x, v)));
        for (size_t i = 0; i < n; ++i) { double s = 0; for (size_t j = 0; j < m; ++j) s += x(i, j) * v[j]; NEAR(e[i], std::sqrt(std::fabs(s)), 1e-7, "proxy.prod", "element " << i); }
    });
    vt::section("scalars", 1000, [&](Case& C, Rng& R) {
        double t = R.uni(-400, 400), s = R.uni(-1, 1);
        C.in("t", t);
        NEARR(U::to_degrees(t), t * 180 / M_PI, 1e-15, 0, "sc.deg", "to_degrees");
        NEARR(U::to_radians(t), t * M_PI / 180, 1e-15, 0, "sc.rad", "to_radians");
        NEARR(U::to_latitude(t), 90 - t * 180 / M_PI, 1e-14, 1e-12, "sc.lat", "to_latitude");
        NEARR(U::to_colatitude(t), (90 - t) * M_PI / 180, 1e-14, 1e-15, "sc.colat", "to_colatitude");
        CHECK(U::copysign(t, s) == (s < 0 ? -std::fabs(t) : std::fabs(t)), "sc.copysign", "copysign(" << t << "," << s << ")=" << U::copysign(t, s));
    });
    // random generators
    vt::section("randgen", 60, [&](Case& C, Rng& R) {
        unsigned seed = (unsigned)R.next();
        C.in("seed", seed);
        U::randgen a(seed), b(seed), c(seed + 1), d;
        std::string ops;
        int diffs = 0;
        for (int i = 0; i < 40; ++i) {
            int op = (int)R.in(0, 9);
            ops += (char)('0' + op);
            int n = (int)R.in(1, 7), m = (int)R.in(1, 4);
            (void)d.gaussian();  // another generator in between
            if (op == 0) { double x = a.uniform(), y = b.uniform(); CHECK(x == y, "rand.same", "uniform " << ops); diffs += x != c.uniform(); CHECK(x >= 0 && x < 1, "rand.range", x); }
            else if (op == 1) { double x = a.gaussian(), y = b.gaussian(); CHECK(x == y, "rand.same", "gaussian " << ops); diffs += x != c.gaussian(); }
            else if (op == 2) { cd x = a.cgaussian(), y = b.cgaussian(); CHECK(x == y, "rand.same", "cgaussian " << ops); }
            else if (op == 3) {  // vector or one by one
                vector<double> v = a.uniform(n);
                CHECK((int)v.size() == n, "rand.size", "size");
                for (int j = 0; j < n; ++j) { double y = b.uniform(); CHECK(v[j] == y, "rand.order", "uniform vector " << j); }
            } else if (op == 4) {
                vector<double> v = a.gaussian(n);
                for (int j = 0; j < n; ++j) { double y = b.gaussian(); CHECK(v[j] == y, "rand.order", "gaussian vector " << j); }
            } else if (op == 5) {
                vector<cd> v = a.cgaussian(n);
                for (int j = 0; j < n; ++j) { cd y = b.cgaussian(); CHECK(v[j] == y, "rand.order", "cgaussian vector " << j); }
            } else if (op == 6) {
                matrix<double> v = a.uniform(n, m);
                CHECK((int)v.size1() == n && (int)v.size2() == m, "rand.size", "matrix size");
                for (int j = 0; j < n; ++j) for (int k = 0; k < m; ++k) { double y = b.uniform(); CHECK(v(j, k) == y, "rand.order", "uniform matrix"); }
            } else if (op == 7) {
                matrix<double> v = a.gaussian(n, m);
                CHECK((int)v.size1() == n && (int)v.size2() == m, "rand.size", "matrix size");
                for (int j = 0; j < n; ++j) for (int k = 0; k < m; ++k) { double y = b.gaussian(); CHECK(v(j, k) == y, "rand.order", "gaussian matrix"); }
            } else if (op == 8) {
                matrix<cd> v = a.cgaussian(n, m);
                for (int j = 0; j < n; ++j) for (int k = 0; k < m; ++k) { cd y = b.cgaussian(); CHECK(v(j, k) == y, "rand.order", "cgaussian matrix"); }
            } else {  // seeding starts the sequence again
                unsigned s2 = (unsigned)R.next();
                a.seed(s2);
                U::randgen f(s2);
                b = f;
                double x = a.gaussian(), y = b.gaussian();
                CHECK(x == y, "rand.seed", "after seed " << ops);
            }
        }
        C.in("ops", ops);
        U::randgen e(seed), f(seed + 1);
        int same = 0;
        for (int i = 0; i < 50; ++i) same += e.uniform() == f.uniform();
        CHECK(same < 5, "rand.seeds_differ", "two seeds agree on " << same << " of 50");
    });
    vt::section("distribution", 8, [&](Case& C, Rng& R) {
        unsigned seed = (unsigned)R.next();
        C.in("seed", seed);
        U::randgen g(seed);
        const int n = 100000;
        double lim = 6 / std::sqrt((double)n);
        vector<double> u = g.uniform(n), v = g.gaussian(n);
        vector<cd> c = g.cgaussian(n);
        double mu = 0, su = 0, mg = 0, sg = 0, cr = 0, ci = 0, cri = 0, lag = 0, lo = 1, hi = 0, in1 = 0;
        for (int i = 0; i < n; ++i) {
            mu += u[i] / n; su += (u[i] - 0.5) * (u[i] - 0.5) / n; mg += v[i] / n; sg += v[i] * v[i] / n;
            cr += c[i].real() * c[i].real() / n; ci += c[i].imag() * c[i].imag() / n; cri += c[i].real() * c[i].imag() / n;
            if (i) lag += v[i] * v[i - 1] / n;
            lo = std::min(lo, u[i]); hi = std::max(hi, u[i]); in1 += std::fabs(v[i]) < 1 ? 1.0 / n : 0;
        }
        CHECK(lo >= 0 && hi < 1 && lo < 0.001 && hi > 0.999, "dist.range", "uniform in " << lo << ".." << hi);
        NEAR(mu, 0.5, lim * 0.3, "dist.mean", "uniform mean");
        NEAR(su, 1.0 / 12, lim * 0.1, "dist.var", "uniform variance");
        NEAR(mg, 0, lim, "dist.gmean", "gaussian mean");
        NEAR(sg, 1, lim * 1.5, "dist.gvar", "gaussian variance");
        NEAR(in1, 0.6826895, lim * 0.5, "dist.gshape", "gaussian within one sigma");
        NEAR(lag, 0, lim, "dist.lag", "gaussian correlation");
        NEAR(cr, 1, lim * 1.5, "dist.creal", "complex gaussian real variance");
        NEAR(ci, 1, lim * 1.5, "dist.cimag", "complex gaussian imaginary variance");
        NEAR(cri, 0, lim, "dist.ccross", "complex gaussian correlation");
    });
    return vt::finish();
}
#endif
