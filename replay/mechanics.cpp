// C07 - C10
#include "rp.h"
using namespace rp;
using namespace atg_scs;

struct Copy {
    std::vector<double> f_x, f_y, t, all;
    explicit Copy(const SystemState &s) {
        f_x.assign(s.f_x, s.f_x + s.n); f_y.assign(s.f_y, s.f_y + s.n); t.assign(s.t, s.t + s.n);
        const double *a[] = {s.a_theta, s.v_theta, s.theta, s.a_x, s.a_y, s.v_x, s.v_y, s.p_x, s.p_y, s.m};
        for (const double *p : a) all.insert(all.end(), p, p + s.n);
    }
    void same(const SystemState &s) { require(Copy(s).all == all, "only forces change"); }
};

static void forces(const SystemState &s, Copy &c, const std::vector<double> &fx, const std::vector<double> &fy, const std::vector<double> &t) {
    for (int i = 0; i < s.n; ++i) {
        note("body %d", i);
        expect("force x", s.f_x[i], c.f_x[i] + fx[i], 10);
        expect("force y", s.f_y[i], c.f_y[i] + fy[i], 10);
        expect("torque", s.t[i], c.t[i] + t[i], 100);
    }
    c.same(s);
}

RP_TEST("C07", body_transform, 10) {
    RigidBody b;
    randomBody(r, b);
    double x = r.v(), y = r.v(), wx, wy, lx, ly;
    note("p=(%g %g) theta=%g local=(%g %g)", b.p_x, b.p_y, b.theta, x, y);
    b.localToWorld(x, y, &wx, &wy);
    expect("world x", wx, b.p_x + std::cos(b.theta) * x - std::sin(b.theta) * y, 100);
    expect("world y", wy, b.p_y + std::sin(b.theta) * x + std::cos(b.theta) * y, 100);
    b.worldToLocal(wx, wy, &lx, &ly);
    expect("local x comes back", lx, x, 100);
    expect("local y comes back", ly, y, 100);
    b.worldToLocal(x, y, &lx, &ly);
    b.localToWorld(lx, ly, &wx, &wy);
    expect("world x comes back", wx, x, 100);
    expect("world y comes back", wy, y, 100);
}

RP_TEST("C07", state_transform, 10) {
    int n = r.n(1, 5), i = r.i(0, n - 1);
    State st(r, n, 1);
    SystemState &s = st.s;
    double x = r.v(), y = r.v(), wx, wy, vx, vy;
    note("body %d of %d: p=(%g %g) theta=%g v=(%g %g) v_theta=%g local=(%g %g)", i, n, s.p_x[i], s.p_y[i], s.theta[i], s.v_x[i], s.v_y[i], s.v_theta[i], x, y);
    s.localToWorld(x, y, &wx, &wy, i);
    double rx = std::cos(s.theta[i]) * x - std::sin(s.theta[i]) * y, ry = std::sin(s.theta[i]) * x + std::cos(s.theta[i]) * y;
    expect("world x", wx, s.p_x[i] + rx, 100);
    expect("world y", wy, s.p_y[i] + ry, 100);
    s.velocityAtPoint(x, y, &vx, &vy, i);
    expect("velocity x", vx, s.v_x[i] - s.v_theta[i] * ry, 100);
    expect("velocity y", vy, s.v_y[i] + s.v_theta[i] * rx, 100);
}

RP_TEST("C08", apply_force, 10) {
    int n = r.n(1, 5), b = r.i(0, n - 1);
    State st(r, n, 1);
    SystemState &s = st.s;
    double x = r.v(), y = r.v(), fx = r.v(), fy = r.v();
    note("body %d of %d: p=(%g %g) theta=%g local=(%g %g) force=(%g %g)", b, n, s.p_x[b], s.p_y[b], s.theta[b], x, y, fx, fy);
    Copy c(s);
    std::vector<double> ex(n), ey(n), et(n);
    double rx = std::cos(s.theta[b]) * x - std::sin(s.theta[b]) * y, ry = std::sin(s.theta[b]) * x + std::cos(s.theta[b]) * y;
    ex[b] = fx; ey[b] = fy; et[b] = rx * fy - ry * fx;
    s.applyForce(x, y, fx, fy, b);
    forces(s, c, ex, ey, et);
}

RP_TEST("C09", gravity, 10) {
    int n = r.n(0, 6);
    State st(r, n, 1);
    GravityForceGenerator g;
    expect("default gravity", g.m_g, 9.81);
    g.m_g = r.v();
    note("n=%d g=%g", n, g.m_g);
    Copy c(st.s);
    std::vector<double> ex(n), ey(n), et(n);
    for (int i = 0; i < n; ++i) ey[i] = -st.s.m[i] * g.m_g;
    g.apply(&st.s);
    forces(st.s, c, ex, ey, et);
}

RP_TEST("C09", static_force, 10) {
    int n = r.n(1, 5), b = r.i(0, n - 1);
    State st(r, n, 1);
    SystemState &s = st.s;
    RigidBody body;
    randomBody(r, body);
    body.index = b;
    double x = r.v(), y = r.v(), fx = r.v(), fy = r.v();
    StaticForceGenerator g;
    g.setForce(fx, fy); g.setPosition(x, y); g.m_body = &body;
    note("body %d of %d local=(%g %g) force=(%g %g)", b, n, x, y, fx, fy);
    Copy c(s);
    std::vector<double> ex(n), ey(n), et(n);
    double rx = std::cos(s.theta[b]) * x - std::sin(s.theta[b]) * y, ry = std::sin(s.theta[b]) * x + std::cos(s.theta[b]) * y;
    ex[b] = fx; ey[b] = fy; et[b] = rx * fy - ry * fx;
    g.apply(&s);
    forces(s, c, ex, ey, et);
}

RP_TEST("C09", spring, 40) {
    int n = r.n(1, 5);
    State st(r, n, 1);
    SystemState &s = st.s;
    RigidBody b[2];
    Spring g;
    double lx[2], ly[2], x[2], y[2], vx[2], vy[2], rx[2], ry[2];
    if (r.i(0, 4) == 0) for (int i = 0; i < n; ++i) { s.p_x[i] *= 0.001; s.p_y[i] *= 0.001; }
    bool degenerate = r.i(0, 5) == 0;
    bool shared = r.i(0, 5) == 0;
    for (int k = 0; k < 2; ++k) {
        randomBody(r, b[k]);
        b[k].index = r.i(0, 3) == 0 ? -1 : r.i(0, n - 1);
        if (shared && k == 1) b[1] = b[0];
        lx[k] = r.v(); ly[k] = r.v();
        if (degenerate) { lx[k] = 0.001 * r.v(); ly[k] = 0; b[shared ? 0 : k].p_x = b[shared ? 0 : k].p_y = 0; b[k].p_x = b[k].p_y = 0; }
        int i = b[k].index;
        double th = i < 0 ? b[k].theta : s.theta[i];
        rx[k] = std::cos(th) * lx[k] - std::sin(th) * ly[k]; ry[k] = std::sin(th) * lx[k] + std::cos(th) * ly[k];
        x[k] = (i < 0 ? b[k].p_x : s.p_x[i]) + rx[k]; y[k] = (i < 0 ? b[k].p_y : s.p_y[i]) + ry[k];
        vx[k] = i < 0 ? 0 : s.v_x[i] - s.v_theta[i] * ry[k];
        vy[k] = i < 0 ? 0 : s.v_y[i] + s.v_theta[i] * rx[k];
        note("end %d: body index %d local=(%g %g) world=(%g %g) v=(%g %g)", k, i, lx[k], ly[k], x[k], y[k], vx[k], vy[k]);
    }
    g.m_p1_x = lx[0]; g.m_p1_y = ly[0]; g.m_p2_x = lx[1]; g.m_p2_y = ly[1];
    g.m_ks = r.v(); g.m_kd = r.v(); g.m_restLength = r.d(0, 3);
    bool miss = r.i(0, 15) == 0;
    g.m_body1 = &b[0]; g.m_body2 = &b[shared ? 0 : 1];
    if (miss) (r.flip() ? g.m_body1 : g.m_body2) = nullptr;
    double dx = x[1] - x[0], dy = y[1] - y[0], l = std::sqrt(dx * dx + dy * dy);
    if (std::fabs(l - 0.01) < 1e-9) return;
    if (l >= 0.01) { dx /= l; dy /= l; } else dx = dy = 0;
    double fx = dx * (l - g.m_restLength) * g.m_ks + (vx[1] - vx[0]) * g.m_kd;
    double fy = dy * (l - g.m_restLength) * g.m_ks + (vy[1] - vy[0]) * g.m_kd;
    Copy c(s);
    std::vector<double> ex(n), ey(n), et(n);
    if (!miss)
        for (int k = 0; k < 2; ++k) {
            int i = b[k].index;
            if (i < 0) continue;
            double sg = k ? -1 : 1;
            ex[i] += sg * fx; ey[i] += sg * fy; et[i] += sg * (rx[k] * fy - ry[k] * fx);
        }
    note("ks=%g kd=%g rest=%g miss=%d", g.m_ks, g.m_kd, g.m_restLength, miss);
    for (int i = 0; i < n; ++i) { s.f_x[i] = 0; s.f_y[i] = 0; s.t[i] = 0; }
    if (r.flip()) st.s.f_x[0] = 3;
    Copy c2(s);
    g.apply(&s);
    for (int i = 0; i < n; ++i) {
        expect("force x", s.f_x[i], c2.f_x[i] + ex[i], 1e4);
        expect("force y", s.f_y[i], c2.f_y[i] + ey[i], 1e4);
        expect("torque", s.t[i], c2.t[i] + et[i], 1e5);
    }
    c2.same(s);
}

RP_TEST("C09", motor, 20) {
    int n = r.n(1, 5);
    State st(r, n, 1);
    SystemState &s = st.s;
    RigidBody b[2];
    randomBody(r, b[0]); randomBody(r, b[1]);
    b[0].index = r.i(0, 3) == 0 ? -1 : r.i(0, n - 1);
    b[1].index = r.i(0, n - 1);
    ConstantSpeedMotor g;
    if (r.i(0, 7) == 0 && b[0].index >= 0) { b[1] = b[0]; g.m_body0 = &b[0]; g.m_body1 = &b[0]; }
    else { g.m_body0 = &b[0]; g.m_body1 = &b[1]; }
    g.m_ks = r.v(); g.m_kd = r.v(); g.m_maxTorque = r.d(0, 10); g.m_speed = r.v();
    double v0 = b[0].index < 0 ? 0 : s.v_theta[b[0].index], a0 = b[0].index < 0 ? 0 : s.a_theta[b[0].index];
    double t = (g.m_speed - (s.v_theta[b[1].index] - v0)) * g.m_ks - (s.a_theta[b[1].index] - a0) * g.m_kd;
    note("body0 %d body1 %d of %d ks=%g kd=%g max=%g speed=%g torque before limit=%g", b[0].index, b[1].index, n, g.m_ks, g.m_kd, g.m_maxTorque, g.m_speed, t);
    if (t > g.m_maxTorque) t = g.m_maxTorque;
    if (t < -g.m_maxTorque) t = -g.m_maxTorque;
    Copy c(s);
    std::vector<double> ex(n), ey(n), et(n);
    if (b[0].index >= 0) et[b[0].index] -= t;
    et[b[1].index] += t;
    g.apply(&s);
    forces(s, c, ex, ey, et);
}

RP_TEST("C10", energy, 10) {
    RigidBody b[2];
    randomBody(r, b[0]); randomBody(r, b[1]);
    double E = 0.5 * b[0].m * (b[0].v_x * b[0].v_x + b[0].v_y * b[0].v_y) + 0.5 * b[0].I * b[0].v_theta * b[0].v_theta;
    note("m=%g I=%g v=(%g %g %g)", b[0].m, b[0].I, b[0].v_x, b[0].v_y, b[0].v_theta);
    expect("kinetic energy", b[0].energy(), E);
    Spring g;
    expect("energy of a detached spring", g.energy(), 0);
    g.m_p1_x = r.v(); g.m_p1_y = r.v(); g.m_p2_x = r.v(); g.m_p2_y = r.v(); g.m_ks = r.v(); g.m_restLength = r.d(0, 3);
    bool shared = r.i(0, 3) == 0;
    if (shared) b[1] = b[0];
    if (r.i(0, 3) == 0) { g.m_p2_x = g.m_p1_x; g.m_p2_y = g.m_p1_y; }
    g.m_body1 = &b[0]; g.m_body2 = &b[shared ? 0 : 1];
    double x1, y1, x2, y2, e[4];
    x1 = b[0].p_x + std::cos(b[0].theta) * g.m_p1_x - std::sin(b[0].theta) * g.m_p1_y;
    y1 = b[0].p_y + std::sin(b[0].theta) * g.m_p1_x + std::cos(b[0].theta) * g.m_p1_y;
    x2 = b[1].p_x + std::cos(b[1].theta) * g.m_p2_x - std::sin(b[1].theta) * g.m_p2_y;
    y2 = b[1].p_y + std::sin(b[1].theta) * g.m_p2_x + std::cos(b[1].theta) * g.m_p2_y;
    g.getEnds(e, e + 1, e + 2, e + 3);
    expect("x1", e[0], x1, 100); expect("y1", e[1], y1, 100); expect("x2", e[2], x2, 100); expect("y2", e[3], y2, 100);
    double l = std::sqrt((x2 - x1) * (x2 - x1) + (y2 - y1) * (y2 - y1)) - g.m_restLength;
    expect("spring energy", g.energy(), 0.5 * g.m_ks * l * l, 1e4);
    if (r.flip()) { g.m_body1 = nullptr; expect("energy of a detached spring", g.energy(), 0); }
    else { g.m_body2 = nullptr; expect("energy of a detached spring", g.energy(), 0); }
    b[0].reset();
    for (double v : {b[0].p_x, b[0].p_y, b[0].v_x, b[0].v_y, b[0].theta, b[0].v_theta, b[0].m, b[0].I}) expect("reset", v, 0);
    RigidBody f;
    require(f.index == -1, "a new body is not registered");
}
