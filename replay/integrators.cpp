// C11, C12, C21
#include "rp.h"
using namespace rp;
using namespace atg_scs;

struct Kin { std::vector<double> p[3], v[3], a[3], rest; };
static Kin grab(const SystemState &s) {
    Kin k;
    const double *p[3] = {s.p_x, s.p_y, s.theta}, *v[3] = {s.v_x, s.v_y, s.v_theta}, *a[3] = {s.a_x, s.a_y, s.a_theta};
    for (int e = 0; e < 3; ++e) { k.p[e].assign(p[e], p[e] + s.n); k.v[e].assign(v[e], v[e] + s.n); k.a[e].assign(a[e], a[e] + s.n); }
    const double *q[] = {s.f_x, s.f_y, s.t, s.m};
    for (const double *x : q) k.rest.insert(k.rest.end(), x, x + s.n);
    return k;
}

template <class O> static void single(Rng &r, bool nsv) {
    int n = r.n(0, 6);
    State st(r, n, r.n(0, 3));
    SystemState &s = st.s;
    O o;
    double dt = r.dt();
    note("n=%d dt=%g", n, dt);
    int rounds = r.i(1, 3);
    for (int q = 0; q < rounds; ++q) {
        Kin k0 = grab(s);
        o.start(&s, dt);
        require(o.step(&s), "one evaluation per step");
        expect("time step seen by the evaluation", s.dt, dt);
        o.solve(&s);
        o.end();
        Kin k = grab(s);
        for (int e = 0; e < 3; ++e)
            for (int i = 0; i < n; ++i) {
                note("body %d coordinate %d p=%.17g v=%.17g a=%.17g", i, e, k0.p[e][i], k0.v[e][i], k0.a[e][i]);
                double vn = k0.v[e][i] + k0.a[e][i] * dt;
                expect("velocity", k.v[e][i], vn, 10);
                expect("position", k.p[e][i], k0.p[e][i] + (nsv ? vn : k0.v[e][i]) * dt, 10);
                expect("acceleration is kept", k.a[e][i], k0.a[e][i]);
            }
        require(k.rest == k0.rest, "forces and masses are kept");
        double *a[3] = {s.a_x, s.a_y, s.a_theta};
        for (int e = 0; e < 3; ++e) for (int i = 0; i < n; ++i) a[e][i] = r.v();
    }
}

RP_TEST("C11", euler, 10) { single<EulerOdeSolver>(r, false); }
RP_TEST("C11", nsv, 10) { single<NsvOdeSolver>(r, true); }

RP_TEST("C12", rk4, 10) {
    long mem = live();
    {
        Rk4OdeSolver o;
        int rounds = r.i(1, 3);
        for (int q = 0; q < rounds; ++q) {
            int n = r.n(0, 6), nc = r.n(0, 4);
            if (n == 0 && nc == 0) n = 1;
            State st(r, n, nc);
            SystemState &s = st.s;
            double dt = r.dt();
            note("round %d n=%d n_c=%d dt=%g", q, n, nc, dt);
            Kin k0 = grab(s);
            std::vector<double> acc[3], pos[3], re[3];
            for (int e = 0; e < 3; ++e) { acc[e].assign(n, 0); pos[e].assign(n, 0); re[e].assign(2 * nc, 0); }
            o.start(&s, dt);
            const double c[4] = {0, 0.5, 0.5, 1}, w[4] = {1, 2, 2, 1};
            Kin prev = k0;
            for (int g = 0; g < 4; ++g) {
                bool last = o.step(&s);
                require(last == (g == 3), "the fourth evaluation is the last");
                expect("time of the evaluation", s.dt, c[g] * dt);
                Kin k = grab(s);
                for (int e = 0; e < 3; ++e)
                    for (int i = 0; i < n; ++i) {
                        note("evaluation %d body %d coordinate %d", g, i, e);
                        double wp = g == 0 ? k0.p[e][i] : k0.p[e][i] + c[g] * dt * prev.v[e][i];
                        double wv = g == 0 ? k0.v[e][i] : k0.v[e][i] + c[g] * dt * prev.a[e][i];
                        expect("position at the evaluation", k.p[e][i], wp, 10);
                        expect("velocity at the evaluation", k.v[e][i], wv, 10);
                    }
                double *a[3] = {s.a_x, s.a_y, s.a_theta}, *rr[3] = {s.r_x, s.r_y, s.r_t};
                for (int e = 0; e < 3; ++e) {
                    for (int i = 0; i < n; ++i) a[e][i] = r.v();
                    for (int i = 0; i < 2 * nc; ++i) rr[e][i] = r.v();
                }
                Kin kk = grab(s);
                for (int e = 0; e < 3; ++e) {
                    for (int i = 0; i < n; ++i) { acc[e][i] += w[g] / 6 * kk.a[e][i]; pos[e][i] += w[g] / 6 * kk.v[e][i]; }
                    for (int i = 0; i < 2 * nc; ++i) re[e][i] += w[g] / 6 * rr[e][i];
                }
                o.solve(&s);
                if (g < 3) {
                    Kin z = grab(s);
                    for (int e = 0; e < 3; ++e) require(z.p[e] == kk.p[e] && z.v[e] == kk.v[e] && z.a[e] == kk.a[e], "intermediate evaluations keep the state");
                }
                prev = kk;
            }
            o.end();
            Kin k = grab(s);
            for (int e = 0; e < 3; ++e) {
                for (int i = 0; i < n; ++i) {
                    note("result body %d coordinate %d", i, e);
                    expect("position", k.p[e][i], k0.p[e][i] + dt * pos[e][i], 10);
                    expect("velocity", k.v[e][i], k0.v[e][i] + dt * acc[e][i], 10);
                }
                double *rr[3] = {s.r_x, s.r_y, s.r_t};
                for (int i = 0; i < 2 * nc; ++i) expect("reaction", rr[e][i], re[e][i], 100);
            }
        }
    }
    if (live() != mem) fail("memory of the integrator is not released (%ld blocks)", live() - mem);
}

static void touch(SystemState &s, int n, int nc) {
    double *a[] = {s.a_theta, s.v_theta, s.theta, s.a_x, s.a_y, s.v_x, s.v_y, s.p_x, s.p_y, s.f_x, s.f_y, s.t, s.m};
    for (double *p : a) for (int i = 0; i < n; ++i) p[i] = 1;
    double *b[] = {s.r_x, s.r_y, s.r_t};
    for (double *p : b) for (int i = 0; i < 2 * nc; ++i) p[i] = 2;
    for (int i = 0; i < nc; ++i) s.indexMap[i] = 3;
    for (double *p : a) for (int i = 0; i < n; ++i) require(p[i] == 1, "arrays are separate");
    for (double *p : b) for (int i = 0; i < 2 * nc; ++i) require(p[i] == 2, "arrays are separate");
}

RP_TEST("C21", lifecycle, 20) {
    long mem = live();
    {
        SystemState s, q;
        int ops = r.i(1, 8);
        for (int o = 0; o < ops; ++o) {
            int op = r.i(0, 3);
            if (op <= 1) {
                int n = r.n(0, 6), nc = r.n(0, 6);
                note("resize(%d, %d)", n, nc);
                s.resize(n, nc);
                require(s.n >= n && s.n_c >= nc, "room for what was requested");
                touch(s, s.n, s.n_c);
            } else if (op == 2) {
                int n = r.n(0, 6), nc = r.n(0, 6);
                State src(r, n, nc);
                note("copy from (%d, %d)", n, nc);
                s.copy(&src.s);
                require(s.n >= n && s.n_c >= nc, "room for the copy");
                double *a[] = {s.a_theta, s.v_theta, s.theta, s.a_x, s.a_y, s.v_x, s.v_y, s.p_x, s.p_y, s.f_x, s.f_y, s.t, s.m};
                SystemState &z = src.s;
                double *b[] = {z.a_theta, z.v_theta, z.theta, z.a_x, z.a_y, z.v_x, z.v_y, z.p_x, z.p_y, z.f_x, z.f_y, z.t, z.m};
                for (int k = 0; k < 13; ++k) for (int i = 0; i < n; ++i) expect("copied value", a[k][i], b[k][i]);
                double *c[] = {s.r_x, s.r_y, s.r_t}, *d[] = {z.r_x, z.r_y, z.r_t};
                for (int k = 0; k < 3; ++k) for (int i = 0; i < 2 * nc; ++i) expect("copied reaction", c[k][i], d[k][i]);
                for (int i = 0; i < nc; ++i) require(s.indexMap[i] == z.indexMap[i], "copied index");
            } else {
                note("destroy");
                s.destroy();
                require(s.n == 0 && s.n_c == 0, "empty after destroy");
            }
        }
        s.destroy();
    }
    if (live() != mem) fail("memory of the state is not released (%ld blocks)", live() - mem);
}
