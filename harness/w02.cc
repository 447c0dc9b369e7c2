// W02: orientations and body vectors.  Reference: rotation matrices built from
// the documented meaning of yaw, pitch and roll.
#include <usml/types/types.h>
#include "vt.h"
using namespace usml::types;
using boost::numeric::ublas::matrix;
using boost::numeric::ublas::vector;
struct M3 { double a[3][3]; };
static M3 mul(const M3& x, const M3& y) {
    M3 r;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { r.a[i][j] = 0; for (int k = 0; k < 3; ++k) r.a[i][j] += x.a[i][k] * y.a[k][j]; }
    return r;
}
// columns: front, right and up of the body in (north, east, up)
static M3 ref(double yaw, double pitch, double roll) {
    double y = yaw * M_PI / 180, p = pitch * M_PI / 180, r = roll * M_PI / 180;
    double f[3] = {cos(p) * cos(y), cos(p) * sin(y), sin(p)};
    double r0[3] = {-sin(y), cos(y), 0}, u0[3] = {-sin(p) * cos(y), -sin(p) * sin(y), cos(p)};
    M3 m;
    for (int i = 0; i < 3; ++i) {
        m.a[i][0] = f[i];
        m.a[i][1] = r0[i] * cos(r) - u0[i] * sin(r);  // positive roll lowers the right side
        m.a[i][2] = u0[i] * cos(r) + r0[i] * sin(r);
    }
    return m;
}
static double diff(const orientation& o, const M3& m) {
    matrix<double> r = o.rotation();
    double d = r.size1() == 3 && r.size2() == 3 ? 0 : 1e9;
    for (int i = 0; i < 3 && d < 1e8; ++i) for (int j = 0; j < 3; ++j) { double e = std::fabs(r(i, j) - m.a[i][j]); if (!(e <= d)) d = e; }
    return d;
}
static double ang(Rng& R, double lim) { return R.chance(0.25) ? std::max(-lim, std::min(lim, (double)R.pick({0, 45, -45, 90, -90, 180, -180, 30}))) : R.uni(-lim, lim); }

static void proper(Case& C, const orientation& o, const char* key) {
    matrix<double> r = o.rotation();
    double worst = 0;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
        double s = 0;
        for (int k = 0; k < 3; ++k) s += r(k, i) * r(k, j);
        worst = std::max(worst, std::fabs(s - (i == j)));
        if (std::isnan(s)) worst = 1e9;
    }
    double det = r(0, 0) * (r(1, 1) * r(2, 2) - r(1, 2) * r(2, 1)) - r(0, 1) * (r(1, 0) * r(2, 2) - r(1, 2) * r(2, 0)) + r(0, 2) * (r(1, 0) * r(2, 1) - r(1, 1) * r(2, 0));
    CHECK(worst < 1e-12, key, "not orthonormal: " << worst);
    NEAR(det, 1.0, 1e-12, key, "determinant");
}
static void angles(Case& C, orientation o, double y, double p, double r, const char* key, double tol = 1e-9) {
    double gy = o.yaw(), gp = o.pitch(), gr = o.roll();
    CHECK(std::isfinite(gy) && std::isfinite(gp) && std::isfinite(gr), "angles.finite", key << " angles " << gy << " " << gp << " " << gr);
    if (std::fabs(p) > 89.99) { NEAR(gp, p, 2e-2, key, "pitch"); return; }
    double t = tol / std::cos(p * M_PI / 180);
    NEAR(std::remainder(gy - y, 360), 0, t, key, "yaw " << gy << " want " << y);
    NEAR(gp, p, t * 10, key, "pitch");
    NEAR(std::remainder(gr - r, 360), 0, t, key, "roll " << gr << " want " << r);
}

int main(int argc, char** argv) {
    vt::init(argc, argv);
    vt::section("construct", 2000, [&](Case& C, Rng& R) {
        double y = ang(R, 360), p = ang(R, 90), r = ang(R, 180);
        C.in("yaw", y).in("pitch", p).in("roll", r);
        orientation o(y, p, r);
        M3 m = ref(y, p, r);
        NEAR(diff(o, m), 0, 1e-13, "matrix", "rotation matrix");
        proper(C, o, "proper");
        CHECK(o.yaw() == y && o.pitch() == p && o.roll() == r, "read.direct", "angles read back " << o.yaw() << " " << o.pitch() << " " << o.roll());
        vector<double> f = o.front(), ri = o.right(), u = o.up();
        for (int i = 0; i < 3; ++i) {
            NEAR(f(i), m.a[i][0], 1e-13, "front", "front " << i);
            NEAR(ri(i), m.a[i][1], 1e-13, "right", "right " << i);
            NEAR(u(i), m.a[i][2], 1e-13, "up", "up " << i);
        }
        orientation fromm(o.rotation());
        NEAR(diff(fromm, m), 0, 1e-13, "from_matrix", "rotation matrix");
        angles(C, fromm, y, p, r, "from_matrix.angles");
        orientation cp(o), as;
        as = o;
        angles(C, cp, y, p, r, "copy.angles");
        angles(C, as, y, p, r, "assign.angles");
        NEAR(diff(cp, m) + diff(as, m), 0, 1e-13, "copy.matrix", "copy");
        orientation d, e;
        NEAR(diff(d, ref(0, 0, 0)), 0, 1e-15, "default", "default orientation");
        e.update_orientation(y, p, r);
        NEAR(diff(e, m), 0, 1e-13, "update", "update_orientation");
        CHECK(e.yaw() == y && e.pitch() == p && e.roll() == r, "update.read", "angles");
    });
    // any history of settings, copies and combinations
    vt::section("history", 3000, [&](Case& C, Rng& R) {
        double y = ang(R, 180), p = R.uni(-80, 80), r = ang(R, 180);
        C.in("yaw", y).in("pitch", p).in("roll", r);
        orientation o(y, p, r);
        std::string ops;
        int n = (int)R.in(1, 10);
        for (int i = 0; i < n; ++i) {
            int op = (int)R.in(0, 8);
            ops += "yprcaumRi"[op];
            if (op == 0) { y = R.uni(-180, 180); o.yaw(y); }
            else if (op == 1) { p = R.uni(-85, 85); o.pitch(p); }
            else if (op == 2) { r = R.uni(-180, 180); o.roll(r); }
            else if (op == 3) { orientation q(o); o.update_orientation(1, 2, 3); o = q; }
            else if (op == 4) { orientation q; q = o; std::swap(q, o); }
            else if (op == 5) { y = R.uni(-180, 180); p = R.uni(-85, 85); r = R.uni(-180, 180); o.update_orientation(y, p, r); }
            else if (op == 6) { orientation q(o.rotation()); o = q; }
            else if (op == 7) { orientation id; orientation q; q.rotate(id, o); o = q; }
            else { (void)o.pitch(); }
            if (R.chance(0.3)) angles(C, o, y, p, r, "history.angles", 1e-7);
        }
        C.in("ops", ops);
        angles(C, o, y, p, r, "history.angles", 1e-7);
        NEAR(diff(o, ref(y, p, r)), 0, 1e-9, "history.matrix", "matrix after " << ops);
        proper(C, o, "history.proper");
    });
    vt::section("combine", 2000, [&](Case& C, Rng& R) {
        double a[3] = {ang(R, 180), ang(R, 90), ang(R, 180)}, b[3] = {ang(R, 180), ang(R, 90), ang(R, 180)};
        C.in("a0", a[0]).in("a1", a[1]).in("a2", a[2]).in("b0", b[0]).in("b1", b[1]).in("b2", b[2]);
        orientation A(a[0], a[1], a[2]), B(b[0], b[1], b[2]), X;
        M3 want = mul(ref(a[0], a[1], a[2]), ref(b[0], b[1], b[2]));
        X.rotate(A, B);
        NEAR(diff(X, want), 0, 1e-13, "combine", "A after B");
        proper(C, X, "combine.proper");
        CHECK(std::isfinite(X.yaw()) && std::isfinite(X.pitch()) && std::isfinite(X.roll()), "angles.finite", "angles of combination");
        // rebuilding from the angles that are reported gives the same rotation
        if (std::fabs(X.pitch()) < 89.9) {
            orientation Y(X.yaw(), X.pitch(), X.roll());
            NEAR(diff(Y, want), 0, 1e-9, "combine.rebuild", "rebuilt");
        }
        orientation S(A);
        S.rotate(S, B);
        NEAR(diff(S, want), 0, 1e-13, "combine.alias_parent", "aliased parent");
        orientation T(B);
        T.rotate(A, T);
        NEAR(diff(T, want), 0, 1e-13, "combine.alias_child", "aliased child");
        NEAR(diff(A, ref(a[0], a[1], a[2])) + diff(B, ref(b[0], b[1], b[2])), 0, 1e-13, "combine.inputs", "inputs changed");
        // body vectors: applying the combination equals one rotation after the other
        bvector v(R.uni(-1, 1), R.uni(-1, 1), R.uni(-1, 1)), w, w2, c, al(v);
        c.rotate(X, v);
        w.rotate(B, v);
        w2.rotate(A, w);
        double l0 = 0, l1 = 0;
        for (int i = 0; i < 3; ++i) {
            double e = 0;
            for (int k = 0; k < 3; ++k) e += want.a[i][k] * v.data()(k);
            NEAR(c.data()(i), e, 1e-12, "vector.rotate", "component " << i);
            NEAR(w2.data()(i), e, 1e-12, "vector.sequence", "component " << i);
            l0 += v.data()(i) * v.data()(i);
            l1 += c.data()(i) * c.data()(i);
        }
        NEARR(l0, l1, 1e-12, 0, "vector.length", "length");
        al.rotate(X, al);
        for (int i = 0; i < 3; ++i) NEAR(al.data()(i), c.data()(i), 1e-13, "vector.alias", "aliased component " << i);
        // world to body of a whole set undoes body to world
        size_t n = R.in(1, 6);
        matrix<double> m(3, n), k;
        for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < n; ++j) m(i, j) = R.uni(-5, 5);
        k = m;
        X.rotate_vector(m);
        for (size_t j = 0; j < n; ++j) {
            bvector b2(m(0, j), m(1, j), m(2, j)), back;
            back.rotate(X, b2);
            for (size_t i = 0; i < 3; ++i) {
                double e = 0;
                for (int q = 0; q < 3; ++q) e += want.a[q][i] * k(q, j);
                NEAR(m(i, j), e, 1e-12, "to_body", "component " << i);
                NEAR(back.data()(i), k(i, j), 1e-12, "to_body.back", "component " << i);
            }
        }
    });
    vt::section("bvector", 2000, [&](Case& C, Rng& R) {
        double de = ang(R, 90), az = ang(R, 360);
        C.in("de", de).in("az", az);
        bvector v(de, az);
        double d = de * M_PI / 180, a = az * M_PI / 180;
        NEAR(v.front(), cos(d) * cos(a), 1e-14, "bv.front", "front");
        NEAR(v.right(), cos(d) * sin(a), 1e-14, "bv.right", "right");
        NEAR(v.up(), sin(d), 1e-14, "bv.up", "up");
        bvector w(v.data()), x(w), y, z(1., 2., 3.);
        y = x;
        CHECK(y.front() == v.front() && y.right() == v.right() && y.up() == v.up(), "bv.copy", "copy");
        CHECK(z.front() == 1 && z.right() == 2 && z.up() == 3, "bv.ctor", "components");
        z.front(4); z.right(5); z.up(6);
        CHECK(z.data()(0) == 4 && z.data()(1) == 5 && z.data()(2) == 6, "bv.set", "components");
        // an orientation that points its front at (de,az) turns the front vector there
        orientation o(az, de, R.uni(-180, 180));
        bvector f(1., 0., 0.), g;
        g.rotate(o, f);
        NEAR(g.front(), v.front(), 1e-12, "bv.point", "front");
        NEAR(g.right(), v.right(), 1e-12, "bv.point", "right");
        NEAR(g.up(), v.up(), 1e-12, "bv.point", "up");
    });
    return vt::finish();
}
