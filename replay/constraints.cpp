// C05, C06
#include "rp.h"
#include <cfloat>
using namespace rp;
using namespace atg_scs;

template <class S> struct D {
    S v, d;
    D(S a = S(), S b = S()) : v(a), d(b) {}
};
template <class S> D<S> operator+(D<S> a, D<S> b) { return D<S>(a.v + b.v, a.d + b.d); }
template <class S> D<S> operator-(D<S> a, D<S> b) { return D<S>(a.v - b.v, a.d - b.d); }
template <class S> D<S> operator*(D<S> a, D<S> b) { return D<S>(a.v * b.v, a.v * b.d + a.d * b.v); }
inline double cosx(double x) { return std::cos(x); }
inline double sinx(double x) { return std::sin(x); }
template <class S> D<S> sinx(D<S> a);
template <class S> D<S> cosx(D<S> a) { return D<S>(cosx(a.v), (S() - sinx(a.v)) * a.d); }
template <class S> D<S> sinx(D<S> a) { return D<S>(sinx(a.v), cosx(a.v) * a.d); }
typedef D<D<double>> N;
static N cst(double x) { return N(D<double>(x, 0), D<double>(0, 0)); }

struct Q { N x, y, t; };
static void rot(N t, N x, N y, N &ox, N &oy) { ox = cosx(t) * x - sinx(t) * y; oy = sinx(t) * x + cosx(t) * y; }

typedef std::function<N(const Q *)> Eq;

struct Want { double ks, kd, lo, hi, bias; };

static void run(Constraint &c, State &st, RigidBody *b, int nb, const std::vector<Eq> &eqs, const std::vector<Want> &w, const double (*Jc)[6]) {
    Constraint::Output o;
    std::memset(&o, 0x5A, sizeof o);
    std::vector<double> before;
    require(c.getConstraintCount() == (int)w.size(), "number of equations");
    require(c.m_bodyCount == nb, "number of bodies");
    c.calculate(&o, &st.s);
    for (size_t r = 0; r < w.size(); ++r) {
        double q[6], v[6];
        for (int k = 0; k < nb; ++k) {
            int i = b[k].index;
            bool g = i < 0;
            q[3 * k] = g ? 0 : st.s.p_x[i]; q[3 * k + 1] = g ? 0 : st.s.p_y[i]; q[3 * k + 2] = g ? 0 : st.s.theta[i];
            v[3 * k] = g ? 0 : st.s.v_x[i]; v[3 * k + 1] = g ? 0 : st.s.v_y[i]; v[3 * k + 2] = g ? 0 : st.s.v_theta[i];
        }
        for (int k = 0; k < nb; ++k) note("body %d: index %d q=(%.17g %.17g %.17g) v=(%.17g %.17g %.17g)", k, b[k].index, q[3 * k], q[3 * k + 1], q[3 * k + 2], v[3 * k], v[3 * k + 1], v[3 * k + 2]);
        char nm[64];
        for (int j = 0; j < 3 * nb; ++j) {
            double J, Jd, C = 0;
            if (Jc) { J = Jc[r][j]; Jd = 0; }
            else {
                // inner dual: along the motion; outer dual: derivative with respect to q_j
                Q s[2];
                for (int k = 0; k < nb; ++k)
                    for (int e = 0; e < 3; ++e) {
                        int x = 3 * k + e;
                        N z(D<double>(q[x], v[x]), D<double>(x == j ? 1.0 : 0.0, 0));
                        (e == 0 ? s[k].x : e == 1 ? s[k].y : s[k].t) = z;
                    }
                N z = eqs[r](s);
                C = z.v.v; J = z.d.v; Jd = z.d.d;
            }
            snprintf(nm, sizeof nm, "C[%zu]", r); expect(nm, o.C[r], C, 10);
            snprintf(nm, sizeof nm, "J[%zu][%d]", r, j); expect(nm, o.J[r][j], J, 10);
            snprintf(nm, sizeof nm, "J_dot[%zu][%d]", r, j); expect(nm, o.J_dot[r][j], Jd, 100);
        }
        snprintf(nm, sizeof nm, "ks[%zu]", r); expect(nm, o.ks[r], w[r].ks);
        snprintf(nm, sizeof nm, "kd[%zu]", r); expect(nm, o.kd[r], w[r].kd);
        snprintf(nm, sizeof nm, "limits[%zu][0]", r); if (o.limits[r][0] != w[r].lo) fail("%s: got %g expected %g", nm, o.limits[r][0], w[r].lo);
        snprintf(nm, sizeof nm, "limits[%zu][1]", r); if (o.limits[r][1] != w[r].hi) fail("%s: got %g expected %g", nm, o.limits[r][1], w[r].hi);
        snprintf(nm, sizeof nm, "v_bias[%zu]", r); expect(nm, o.v_bias[r], w[r].bias);
    }
}

struct Env {
    int n;
    State st;
    RigidBody b[2];
    double ks, kd, lx, ly;
    explicit Env(Rng &r) : n(r.i(1, 4)), st(r, n, 2) {
        for (int i = 0; i < n; ++i) st.s.theta[i] = r.d(-7, 7);
        b[0].index = r.i(0, n - 1);
        b[1].index = r.i(0, n - 1);
        randomBody(r, b[0]); randomBody(r, b[1]);
        ks = r.v(); kd = r.v(); lx = r.v(); ly = r.v();
    }
};

RP_TEST("C05 C06", link, 10) {
    Env e(r);
    LinkConstraint c;
    double lx2 = r.v(), ly2 = r.v();
    c.setBody1(&e.b[0]); c.setBody2(&e.b[1]);
    c.setLocalPosition1(e.lx, e.ly); c.setLocalPosition2(lx2, ly2);
    double mf = DBL_MAX;
    if (r.flip()) { mf = r.d(0, 50); c.m_maxForce = mf; }
    c.m_ks = e.ks; c.m_kd = e.kd;
    note("link local1=(%g %g) local2=(%g %g)", e.lx, e.ly, lx2, ly2);
    auto f = [&](const Q *q, bool y) {
        N ax, ay, bx, by;
        rot(q[0].t, cst(e.lx), cst(e.ly), ax, ay);
        rot(q[1].t, cst(lx2), cst(ly2), bx, by);
        return y ? q[0].y + ay - q[1].y - by : q[0].x + ax - q[1].x - bx;
    };
    Want w{e.ks, e.kd, -mf, mf, 0};
    run(c, e.st, e.b, 2, {[&](const Q *q) { return f(q, false); }, [&](const Q *q) { return f(q, true); }}, {w, w}, nullptr);
}

RP_TEST("C05 C06", fixed_position, 10) {
    Env e(r);
    FixedPositionConstraint c;
    double wx = r.v(), wy = r.v();
    c.setBody(&e.b[0]); c.setLocalPosition(e.lx, e.ly); c.setWorldPosition(wx, wy);
    c.m_ks = e.ks; c.m_kd = e.kd;
    note("local=(%g %g) world=(%g %g)", e.lx, e.ly, wx, wy);
    auto f = [&](const Q *q, bool y) {
        N ax, ay;
        rot(q[0].t, cst(e.lx), cst(e.ly), ax, ay);
        return y ? q[0].y + ay - cst(wy) : q[0].x + ax - cst(wx);
    };
    Want w{e.ks, e.kd, -DBL_MAX, DBL_MAX, 0};
    run(c, e.st, e.b, 1, {[&](const Q *q) { return f(q, false); }, [&](const Q *q) { return f(q, true); }}, {w, w}, nullptr);
}

RP_TEST("C05 C06", fixed_rotation, 10) {
    Env e(r);
    FixedRotationConstraint c;
    double t = r.v();
    c.setBody(&e.b[0]); c.m_rotation = t; c.m_ks = e.ks; c.m_kd = e.kd;
    note("rotation=%g", t);
    run(c, e.st, e.b, 1, {[&](const Q *q) { return q[0].t - cst(t); }}, {Want{e.ks, e.kd, -DBL_MAX, DBL_MAX, 0}}, nullptr);
}

RP_TEST("C05 C06", line, 10) {
    Env e(r);
    LineConstraint c;
    double dx = r.v(), dy = r.v(), px = r.v(), py = r.v();
    c.setBody(&e.b[0]); c.m_local_x = e.lx; c.m_local_y = e.ly; c.m_dx = dx; c.m_dy = dy; c.m_p0_x = px; c.m_p0_y = py;
    c.m_ks = e.ks; c.m_kd = e.kd;
    note("line local=(%g %g) d=(%g %g) p0=(%g %g)", e.lx, e.ly, dx, dy, px, py);
    run(c, e.st, e.b, 1, {[&](const Q *q) {
        N ax, ay;
        rot(q[0].t, cst(e.lx), cst(e.ly), ax, ay);
        return cst(dx) * (q[0].y + ay - cst(py)) - cst(dy) * (q[0].x + ax - cst(px));
    }}, {Want{e.ks, e.kd, -DBL_MAX, DBL_MAX, 0}}, nullptr);
}

RP_TEST("C05 C06", rolling, 10) {
    Env e(r);
    RollingConstraint c;
    double dx = r.v(), dy = r.v(), R = r.d(0.1, 3);
    c.setBaseBody(&e.b[0]); c.setRollingBody(&e.b[1]);
    c.m_local_x = e.lx; c.m_local_y = e.ly; c.m_dx = dx; c.m_dy = dy; c.m_radius = R; c.m_ks = e.ks; c.m_kd = e.kd;
    note("rolling local=(%g %g) d=(%g %g) R=%g", e.lx, e.ly, dx, dy, R);
    auto f = [&](const Q *q, bool h) {
        N ox, oy, ux, uy;
        rot(q[0].t, cst(e.lx), cst(e.ly), ox, oy);
        rot(q[0].t, cst(dx), cst(dy), ux, uy);
        N ex = q[1].x - q[0].x - ox, ey = q[1].y - q[0].y - oy;
        return h ? cst(R) - (ey * ux - ex * uy) : cst(0) - (q[1].t - q[0].t) * cst(R) - (ex * ux + ey * uy);
    };
    run(c, e.st, e.b, 2, {[&](const Q *q) { return f(q, false); }, [&](const Q *q) { return f(q, true); }},
        {Want{0, 0, -DBL_MAX, DBL_MAX, 0}, Want{e.ks, e.kd, -DBL_MAX, DBL_MAX, 0}}, nullptr);
}

static void maybeGround(Rng &r, Env &e) { if (r.i(0, 3) == 0) e.b[r.i(0, 1)].index = -1; }

RP_TEST("C05 C06", gear, 10) {
    Env e(r);
    maybeGround(r, e);
    SimpleGearConstraint c;
    double ratio = r.v();
    bool neutral = r.flip();
    c.m_bodies[0] = &e.b[0]; c.m_bodies[1] = &e.b[1]; c.m_ratio = ratio; c.m_neutral = neutral; c.m_ks = e.ks; c.m_kd = e.kd;
    note("gear ratio=%g neutral=%d", ratio, neutral);
    double J[1][6] = {{0, 0, 1, 0, 0, -ratio}};
    run(c, e.st, e.b, 2, {}, {Want{e.ks, e.kd, neutral ? 0 : -DBL_MAX, neutral ? 0 : DBL_MAX, 0}}, J);
}

RP_TEST("C05 C06", clutch, 10) {
    Env e(r);
    maybeGround(r, e);
    ClutchConstraint c;
    double lo = r.d(-10, 0), hi = r.d(0, 10);
    c.m_bodies[0] = &e.b[0]; c.m_bodies[1] = &e.b[1]; c.m_minTorque = lo; c.m_maxTorque = hi; c.m_ks = e.ks; c.m_kd = e.kd;
    double J[1][6] = {{0, 0, -1, 0, 0, 1}};
    run(c, e.st, e.b, 2, {}, {Want{e.ks, e.kd, lo, hi, 0}}, J);
}

RP_TEST("C05 C06", friction, 10) {
    Env e(r);
    maybeGround(r, e);
    RotationFrictionConstraint c;
    double lo = r.d(-10, 0), hi = r.d(0, 10);
    c.setBody(&e.b[0]); c.m_minTorque = lo; c.m_maxTorque = hi; c.m_ks = e.ks; c.m_kd = e.kd;
    double J[1][6] = {{0, 0, 1, 0, 0, 0}};
    run(c, e.st, e.b, 1, {}, {Want{e.ks, e.kd, lo, hi, 0}}, J);
}

RP_TEST("C05 C06", constant_rotation, 10) {
    Env e(r);
    maybeGround(r, e);
    ConstantRotationConstraint c;
    double lo = r.d(-10, 0), hi = r.d(0, 10), w = r.v();
    c.setBody(&e.b[0]); c.m_minTorque = lo; c.m_maxTorque = hi; c.m_rotationSpeed = w; c.m_ks = e.ks; c.m_kd = e.kd;
    double J[1][6] = {{0, 0, 1, 0, 0, 0}};
    run(c, e.st, e.b, 1, {}, {Want{e.ks, e.kd, lo, hi, w}}, J);
}
