// Demonstrations of the genuine defects found (and repaired).  demo N exits 0 when the
// behaviour is right, non-zero (or a sanitizer / assertion abort) when the defect is present.
#include "scs.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
using namespace atg_scs;
static int bad(const char *s, double a, double b) { printf("FAIL %s: got %.17g expected %.17g\n", s, a, b); return 1; }
static bool close(double a, double b, double tol = 1e-9) { return std::fabs(a - b) <= tol * (1 + std::fabs(b)); }
struct Acc : public Rk4OdeSolver {};
struct Fixed : public Constraint {          // one row, Jacobian/J_dot/v_bias set by hand
    double j[6], bias; Fixed(int n) : Constraint(1, n) { memset(j, 0, sizeof j); bias = 0; }
    void calculate(Output *o, SystemState *) override {
        memset(o, 0, sizeof *o); for (int i = 0; i < 6; ++i) o->J[0][i] = j[i]; o->v_bias[0] = bias; o->kd[0] = 2; noLimits(o); }
};
static void poison(void *p, size_t n) { memset(p, 0x7f, n); }
int main(int argc, char **argv) {
    switch (atoi(argv[1])) {
    case 1: { SparseMatrix<3> s; s.initialize(3, 2); s.destroy(); s.initialize(3, 2); s.set(1, 1, 1, 5.0);
        int r = s.get(1, 1, 1) == 5.0 ? 0 : 1; s.destroy(); return r; }
    case 2: { SparseMatrix<3> s; s.initialize(6, 2); s.setBlock(0, 0, 0); for (int i = 0; i < 3; ++i) s.set(0, 0, i, 7.0);
        s.initialize(6, 2); double v = s.get(0, 0, 0); s.destroy(); return v == 0 ? 0 : bad("empty block reads", v, 0); }
    case 3: { { SystemState st; st.resize(2, 0); st.destroy(); SystemState s2; s2.resize(0, 0); s2.resize(1, 1); s2.destroy(); SystemState s3; s3.resize(0, 3); s3.destroy(); } return 0; } // leak: ASan
    case 4: { SystemState a, b; a.resize(1, 1); for (int i = 0; i < 2; i++) a.r_x[i] = a.r_y[i] = a.r_t[i] = 0;
        b.resize(50, 50); b.copy(&a); a.destroy(); b.destroy(); return 0; }   // heap over-read: ASan
    case 5: { GenericRigidBodySystem *s = new GenericRigidBodySystem; GaussianEliminationSleSolver g; EulerOdeSolver e; s->initialize(&g, &e);
        RigidBody b; b.reset(); b.m = b.I = 1; s->addRigidBody(&b); FixedPositionConstraint c; c.setBody(&b); s->addConstraint(&c); s->process(0.01, 1); delete s; return 0; }
    case 6: { GenericRigidBodySystem *s = new GenericRigidBodySystem; GaussSeidelSleSolver g; EulerOdeSolver e; s->initialize(&g, &e);
        RigidBody b1, b2; b1.reset(); b2.reset(); b1.m = b1.I = b2.m = b2.I = 1; b2.p_x = 1; s->addRigidBody(&b1); s->addRigidBody(&b2); GravityForceGenerator gr; s->addForceGenerator(&gr);
        Fixed c1(2), c2(2); c1.m_bodies[0] = &b1; c1.m_bodies[1] = &b2; c2.m_bodies[0] = &b1; c2.m_bodies[1] = &b2;
        c1.j[0] = 1; c1.j[3] = -1; c2.j[1] = 1; c2.j[4] = 2;
        s->addConstraint(&c1); s->addConstraint(&c2); s->process(0.01, 1);
        double f = c2.F_y[0][0], h = c2.F_y[0][1]; int r = (close(h, 2 * f) && std::fabs(f) > 1) ? 0 : bad("reaction on second body", h, 2 * f); delete s; return r; }
    case 7: { OptimizedNsvRigidBodySystem s; GaussSeidelSleSolver g; s.initialize(&g); RigidBody b, ground; b.reset(); b.m = b.I = 1; ground.reset(); s.addRigidBody(&b);
        FixedPositionConstraint dummy; Fixed c(2); c.m_bodies[0] = &b; c.m_bodies[1] = &ground; ground.index = -1; c.j[0] = 1; s.addConstraint(&c); s.process(0.01, 1); return 0; } // OOB write: ASan
    case 8: { SystemState st; st.resize(1, 0); st.p_x[0] = st.p_y[0] = st.theta[0] = st.v_x[0] = st.v_y[0] = st.v_theta[0] = st.f_x[0] = st.f_y[0] = st.t[0] = 0;
        RigidBody b, ground; b.reset(); b.m = b.I = 1; ground.reset(); b.index = 0; ground.index = -1; ground.p_x = 5; Spring sp; sp.m_body1 = &b; sp.m_body2 = &ground; sp.m_ks = 1; sp.apply(&st);
        double f = st.f_x[0]; st.destroy(); return close(f, 4) ? 0 : bad("spring to ground", f, 4); }
    case 9: { GaussSeidelSleSolver g; SparseMatrix<3> J; J.initialize(3, 1); J.setBlock(0, 0, 0); J.set(0, 0, 0, 1); J.set(0, 0, 1, 0); J.set(0, 0, 2, 0); J.setEmpty(0, 1);
        Matrix W(1, 3, 1.0), right(1, 1, -2.0), res; bool ok = g.solve(J, W, right, nullptr, &res); double x = res.get(0, 0);
        // ill-conditioned two-row system, must not report success far from a fixed point
        SparseMatrix<3> K; K.initialize(3, 2); for (int r = 0; r < 2; ++r) { K.setBlock(r, 0, 0); K.setEmpty(r, 1); }
        K.set(0, 0, 0, 1); K.set(0, 0, 1, 0); K.set(0, 0, 2, 0); K.set(1, 0, 0, 1); K.set(1, 0, 1, 0.2); K.set(1, 0, 2, 0);
        Matrix r2(1, 2); r2.set(0, 0, -1.0); r2.set(0, 1, 1.0); Matrix prev(1, 2), res2; prev.set(0, 0, -1.0); prev.set(0, 1, -1.0);
        Matrix z(1, 2, 0.0); bool ok2 = g.solve(K, W, r2, &z, &res2);
        double a = res2.get(0, 0), b = res2.get(0, 1); int rc = 0;
        if (ok2) { double na = (-1.0 - b), nb = (1.0 - na) / 1.04; if (std::fabs(na - a) > 0.25 * std::fmax(1e-3, std::fabs(a)) || std::fabs(nb - b) > 0.25 * std::fmax(1e-3, std::fabs(b))) rc = bad("unconverged success", a, na); }
        if (!ok || !close(x, -2)) rc = bad("1x1", x, -2);
        J.destroy(); K.destroy(); W.destroy(); right.destroy(); res.destroy(); r2.destroy(); prev.destroy(); res2.destroy(); z.destroy(); return rc; }
    case 10: { GaussianEliminationSleSolver g; SparseMatrix<3> J; J.initialize(3, 1); J.setBlock(0, 0, 0); J.set(0, 0, 0, 1); J.set(0, 0, 1, 0); J.set(0, 0, 2, 0); J.setEmpty(0, 1);
        Matrix W(1, 3, 1.0), right(1, 1, 2.0), res; g.solve(J, W, right, nullptr, &res); SparseMatrix<3> J0; J0.initialize(3, 0); Matrix r0(1, 0); g.solve(J0, W, r0, nullptr, &res);
        int h = res.getHeight(); J.destroy(); J0.destroy(); W.destroy(); right.destroy(); r0.destroy(); res.destroy(); return h == 0 ? 0 : bad("result height", h, 0); }
    case 11: { Rk4OdeSolver o; SystemState st; st.resize(1, 0); double x = 1, v = 0; const double dt = 0.5; st.p_x[0] = x; st.v_x[0] = v; st.p_y[0] = st.v_y[0] = st.theta[0] = st.v_theta[0] = 0; st.a_y[0] = st.a_theta[0] = st.a_x[0] = 0; st.m[0] = 1; st.f_x[0] = st.f_y[0] = st.t[0] = 0;
        o.start(&st, dt); while (true) { bool d = o.step(&st); st.a_x[0] = -st.p_x[0]; o.solve(&st); if (d) break; } o.end();
        double k1x = v, k1v = -x, k2x = v + dt / 2 * k1v, k2v = -(x + dt / 2 * k1x), k3x = v + dt / 2 * k2v, k3v = -(x + dt / 2 * k2x), k4x = v + dt * k3v, k4v = -(x + dt * k3x);
        double ex = x + dt / 6 * (k1x + 2 * k2x + 2 * k3x + k4x), ev = v + dt / 6 * (k1v + 2 * k2v + 2 * k3v + k4v); double gx = st.p_x[0], gv = st.v_x[0]; st.destroy();
        if (!close(gx, ex)) return bad("position", gx, ex); return close(gv, ev) ? 0 : bad("velocity", gv, ev); }
    case 12: { Rk4OdeSolver o; SystemState st; st.resize(1, 1); st.p_x[0] = st.v_x[0] = st.p_y[0] = st.v_y[0] = st.theta[0] = st.v_theta[0] = st.a_y[0] = st.a_theta[0] = st.a_x[0] = 0; st.m[0] = 1; st.f_x[0] = st.f_y[0] = st.t[0] = 0; st.indexMap[0] = 0;
        for (int i = 0; i < 2; ++i) st.r_x[i] = st.r_y[i] = st.r_t[i] = 99; o.start(&st, 0.1); int k = 0; double f[4] = { 1, 2, 5, 4 };
        while (true) { bool d = o.step(&st); for (int i = 0; i < 2; ++i) st.r_x[i] = st.r_y[i] = st.r_t[i] = f[k] * (i + 1); ++k; o.solve(&st); if (d) break; } o.end();
        double e = (1 + 4 + 10 + 4) / 6.0, a = st.r_x[0], b = st.r_t[1]; st.destroy(); if (!close(a, e)) return bad("r[0]", a, e); return close(b, 2 * e) ? 0 : bad("r[1]", b, 2 * e); }
    case 13: { OptimizedNsvRigidBodySystem s; RigidBody a, b; a.reset(); b.reset(); s.addRigidBody(&a); s.addRigidBody(&b); s.removeRigidBody(&a); return a.index == -1 && b.index == 0 ? 0 : bad("stale index", a.index, -1); }
    case 14: { alignas(16) static char buf[1024]; poison(buf, sizeof buf); Fixed *c = new (buf) Fixed(2); return c->m_bodies[1] == nullptr && c->m_bodies[0] == nullptr ? 0 : bad("m_bodies not null", 1, 0); }
    case 15: { SystemState st; st.resize(2, 2); for (int i = 0; i < 2; ++i) st.p_x[i] = st.p_y[i] = st.theta[i] = st.v_x[i] = st.v_y[i] = st.v_theta[i] = 0;
        RigidBody base, w; base.reset(); w.reset(); base.index = 0; w.index = 1; RollingConstraint c; c.m_dx = 1; c.m_dy = 0; c.m_radius = 0.5; c.setBaseBody(&base); c.setRollingBody(&w); Constraint::Output o;
        // a wheel of radius 1/2 that has rolled 3 along the line has turned by -6 relative to its base
        double base_th = 0.3; st.theta[0] = base_th; double tx = cos(base_th), ty = sin(base_th); st.p_x[1] = 3 * tx - 0.5 * ty; st.p_y[1] = 3 * ty + 0.5 * tx; st.theta[1] = base_th - 6; c.calculate(&o, &st); double C0 = o.C[0], C1 = o.C[1]; st.destroy();
        if (!close(C1, 0)) return bad("C1", C1, 0); return close(C0, 0) ? 0 : bad("no-slip residual", C0, 0); }
    case 16: { const int N = 300; OptimizedNsvRigidBodySystem s; GaussSeidelSleSolver g; s.initialize(&g); RigidBody *b = new RigidBody[N]; for (int i = 0; i < N; ++i) { b[i].reset(); b[i].m = b[i].I = 1; s.addRigidBody(&b[i]); }
        GravityForceGenerator gr; s.addForceGenerator(&gr); FixedPositionConstraint c; c.setBody(&b[N - 1]); s.addConstraint(&c); for (int i = 0; i < 10; ++i) s.process(0.01, 1);
        double y = b[N - 1].p_y; delete[] b; return std::fabs(y) < 1e-6 ? 0 : bad("pinned body moved", y, 0); }
    case 17: { GenericRigidBodySystem *s = new GenericRigidBodySystem; GaussianEliminationSleSolver g; EulerOdeSolver e; s->initialize(&g, &e); RigidBody b; b.reset(); b.m = b.I = 1; s->addRigidBody(&b);
        ConstantRotationConstraint c; c.setBody(&b); c.m_rotationSpeed = 2.0; c.m_ks = 0; c.m_kd = 10.0; s->addConstraint(&c); for (int i = 0; i < 2000; ++i) s->process(0.001, 1);
        double v = std::fabs(b.v_theta); delete s; return close(v, 2.0, 1e-3) ? 0 : bad("constant rotation speed", v, 2); }
    }
    return 2;
}
