// C16 - C20, C22: whole systems built from recording parts
#include "rp.h"
#include <chrono>
#include <algorithm>
#include <cfloat>
using namespace rp;
using namespace atg_scs;

// the clock of the library only moves where a part says so
static long long g_ns = 1000;
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(g_ns)); }
}}}

namespace {
struct Sim;
struct FakeConstraint : Constraint {
    double p[64];
    long spin = 0;
    int calls = 0;
    FakeConstraint(Rng &r, int rows, int bodies) : Constraint(rows, bodies) { for (double &x : p) x = r.v(); }
    void calculate(Output *o, SystemState *s) override {
        ++calls;
        values(o, s);
        g_ns += spin;
    }
    void values(Output *o, const SystemState *s) const {
        double q = 0;
        for (int k = 0; k < m_bodyCount; ++k) {
            int b = m_bodies[k]->index;
            if (b != -1) q += s->p_x[b] - 0.5 * s->theta[b] + 0.25 * s->v_y[b];
        }
        int z = 0;
        for (int i = 0; i < 3; ++i) {
            o->C[i] = p[z++] + 0.1 * q;
            o->v_bias[i] = p[z++];
            o->ks[i] = p[z++];
            o->kd[i] = p[z++];
            double a = p[z++], b = p[z++];
            o->limits[i][0] = std::fabs(a) > 1 ? -DBL_MAX : -std::fabs(a);
            o->limits[i][1] = std::fabs(b) > 1 ? DBL_MAX : std::fabs(b);
            for (int j = 0; j < 6; ++j) { o->J[i][j] = p[z++] + 0.05 * q; o->J_dot[i][j] = p[z++]; }
        }
    }
};
struct FakeForce : ForceGenerator {
    Sim *sim;
    int calls = 0;
    double p[4];
    long spin = 0;
    FakeForce(Rng &r, Sim *s) : sim(s) { for (double &x : p) x = r.v(); }
    void apply(SystemState *s) override;
};
struct FakeOde : OdeSolver {
    Sim *sim;
    void start(SystemState *, double) override;
    bool step(SystemState *) override;
    void solve(SystemState *) override;
    void end() override;
};
struct FakeSle : SleSolver {
    Sim *sim;
    FakeSle(bool l) : SleSolver(l) {}
    bool solve(SparseMatrix<3> &J, Matrix &W, Matrix &right, Matrix *result, Matrix *previous) override;
    bool solveWithLimits(SparseMatrix<3> &J, Matrix &W, Matrix &right, Matrix &limits, Matrix *result, Matrix *previous) override;
};

struct Sim {
    Rng &r;
    std::string prop;
    bool generic;
    RigidBodySystem *sys;
    GenericRigidBodySystem *gen = nullptr;
    OptimizedNsvRigidBodySystem *opt = nullptr;
    FakeOde ode;
    FakeSle sle;
    std::vector<RigidBody *> bodies;            // registered, in registry order
    std::vector<FakeConstraint *> cons;
    std::vector<FakeForce *> forces;
    std::vector<RigidBody *> ground;
    std::vector<RigidBody *> allb;
    std::vector<FakeConstraint *> allc;
    std::vector<FakeForce *> allf;

    // one step
    double dt = 0;
    int steps = 0;
    int started = 0, stage = 0, stages = 0, solved = 0;
    bool ended = true;
    long forceNs = 0, odeNs = 0, calcNs = 0, solveNs = 0;
    long long sumForce = 0, sumOde = 0, sumCalc = 0, sumSolve = 0;
    int genCalls = 0;
    std::vector<double> fx, fy, ft;
    std::vector<double> lambda, J;              // J: 6 per row
    std::vector<std::vector<double>> body0;     // state given to the step
    std::vector<double> bodyOut[6];
    std::vector<double> rx, ry, rt, px0, vx0;

    bool on(const char *p) const { return prop == p; }

    Sim(Rng &rr, const char *p) : r(rr), prop(p), generic(rr.flip()), sle(rr.flip()) {
        ode.sim = this;
        sle.sim = this;
        if (generic) { gen = new GenericRigidBodySystem; gen->initialize(&sle, &ode); sys = gen; }
        else { opt = new OptimizedNsvRigidBodySystem; opt->initialize(&sle); opt->m_biasFactor = r.d(0.1, 2); sys = opt; }
        note("%s system", generic ? "generic" : "velocity-level");
        for (int i = 0; i < 2; ++i) { ground.push_back(new RigidBody); allb.push_back(ground.back()); randomBody(r, *ground.back()); }
    }
    ~Sim() {
        delete sys;
        for (auto *x : allb) delete x;
        for (auto *x : allc) delete x;
        for (auto *x : allf) delete x;
    }
    int rows() const { int n = 0; for (auto *c : cons) n += c->getConstraintCount(); return n; }

    template <class T> static void drop(std::vector<T *> &v, int i) { v[i] = v.back(); v.pop_back(); }

    void addBody() {
        RigidBody *b = new RigidBody;
        randomBody(r, *b);
        allb.push_back(b);
        sys->addRigidBody(b);
        bodies.push_back(b);
    }
    void addConstraint() {
        int nb = r.i(1, 2);
        FakeConstraint *c = new FakeConstraint(r, r.i(1, 3), nb);
        int a = r.i(0, (int)bodies.size() - 1);
        c->m_bodies[0] = bodies[a];
        if (nb == 2) {
            int b = r.i(0, (int)bodies.size());
            c->m_bodies[1] = b == a || b == (int)bodies.size() ? ground[0] : bodies[b];
            if (r.i(0, 3) == 0) std::swap(c->m_bodies[0], c->m_bodies[1]);
        }
        allc.push_back(c);
        sys->addConstraint(c);
        cons.push_back(c);
    }
    void addForce() {
        FakeForce *f = new FakeForce(r, this);
        allf.push_back(f);
        sys->addForceGenerator(f);
        forces.push_back(f);
    }
    void removeConstraint(int i) { sys->removeConstraint(cons[i]); drop(cons, i); }
    void removeBody(int i) {
        // constraints keep referring to it only as a ground body; the others are kept joined to something
        RigidBody *b = bodies[i];
        for (int k = (int)cons.size() - 1; k >= 0; --k) {
            bool live = false;
            for (int q = 0; q < cons[k]->m_bodyCount; ++q) live = live || (cons[k]->m_bodies[q] != b && cons[k]->m_bodies[q]->index != -1);
            if (!live) removeConstraint(k);
        }
        sys->removeRigidBody(b);
        drop(bodies, i);
    }
    void change(int n) {
        for (; n > 0; --n) {
            switch (r.i(0, 8)) {
                case 0: case 1: if (bodies.size() < 6) addBody(); break;
                case 2: case 3: if (bodies.size() && cons.size() < 6) addConstraint(); break;
                case 4: if (forces.size() < 4) addForce(); break;
                case 5: if (cons.size()) removeConstraint(r.i(0, (int)cons.size() - 1)); break;
                case 6: if (bodies.size() > 1) removeBody(r.i(0, (int)bodies.size() - 1)); break;
                case 7: if (forces.size() > 0) { int i = r.i(0, (int)forces.size() - 1); sys->removeForceGenerator(forces[i]); drop(forces, i); } break;
                case 8: if (bodies.size()) { RigidBody *b = bodies[r.i(0, (int)bodies.size() - 1)]; randomBody2(*b); } break;
            }
        }
        if (bodies.empty()) addBody();
    }
    void randomBody2(RigidBody &b) { int k = b.index; randomBody(r, b); b.index = k; }

    void noteAll() {
        note("%d bodies, %d constraints (%d rows), %d forces, dt=%g steps=%d", (int)bodies.size(), (int)cons.size(), rows(), (int)forces.size(), dt, steps);
        for (auto *c : cons) {
            std::string s;
            for (int k = 0; k < c->m_bodyCount; ++k) s += " " + std::to_string(c->m_bodies[k]->index);
            note("  constraint: %d rows, bodies%s", c->getConstraintCount(), s.c_str());
        }
    }

    void expectState(const char *what, const double *a, int i, double want, const char *p) {
        if (on(p)) { char b[80]; snprintf(b, sizeof b, "%s of body %d", what, i); expect(b, a[i], want, 10); }
    }

    void checkPopulated(const SystemState *s) {
        if (!on("C17")) return;
        for (size_t i = 0; i < bodies.size(); ++i) {
            RigidBody *b = bodies[i];
            expectState("v_x given to the step", s->v_x, (int)i, b->v_x, "C17");
            expectState("v_y given to the step", s->v_y, (int)i, b->v_y, "C17");
            expectState("p_x given to the step", s->p_x, (int)i, b->p_x, "C17");
            expectState("p_y given to the step", s->p_y, (int)i, b->p_y, "C17");
            expectState("theta given to the step", s->theta, (int)i, b->theta, "C17");
            expectState("v_theta given to the step", s->v_theta, (int)i, b->v_theta, "C17");
            expectState("mass given to the step", s->m, (int)i, b->m, "C17");
        }
        require(s->n >= (int)bodies.size() && s->n_c >= rows(), "the state has room for every body and row");
        int j = 0;
        for (size_t i = 0; i < cons.size(); ++i) {
            if (s->indexMap[i] != j) fail("index of the first row of constraint %d is %d, expected %d", (int)i, s->indexMap[i], j);
            j += cons[i]->getConstraintCount();
        }
    }

    void atSolve(SparseMatrix<3> &Jm, Matrix &W, Matrix &right, Matrix *limits, Matrix *result) {
        const SystemState *s = sys->state();
        int n = (int)bodies.size(), m = rows();
        double h = dt / steps;
        if (on("C19") && limits && generic) fail("limits are not part of the acceleration-level system");
        if (on("C19") && !generic && sle.supportsLimits() != (limits != nullptr)) fail("the solver variant does not match what the solver supports");
        J.assign(6 * m, 0.0);
        std::vector<double> C(m), vb(m), ks(m), kd(m), l0(m), l1(m);
        std::vector<std::vector<double>> dense(m, std::vector<double>(3 * n, 0.0)), dot = dense;
        int j = 0;
        for (auto *c : cons) {
            Constraint::Output o;
            c->values(&o, s);
            for (int k = 0; k < c->getConstraintCount(); ++k, ++j) {
                C[j] = o.C[k]; vb[j] = o.v_bias[k]; ks[j] = o.ks[k]; kd[j] = o.kd[k]; l0[j] = o.limits[k][0]; l1[j] = o.limits[k][1];
                for (int b = 0; b < c->m_bodyCount; ++b) {
                    int x = c->m_bodies[b]->index;
                    if (x == -1) continue;
                    for (int q = 0; q < 3; ++q) {
                        J[6 * j + 3 * b + q] = o.J[k][3 * b + q];
                        dense[j][3 * x + q] += o.J[k][3 * b + q];
                        dot[j][3 * x + q] += o.J_dot[k][3 * b + q];
                    }
                }
            }
        }
        if (on("C17") || on("C18")) {
            if (W.getHeight() != 3 * n || W.getWidth() != 1) fail("weights: %d x %d, expected 1 x %d", W.getWidth(), W.getHeight(), 3 * n);
            for (int i = 0; i < n; ++i) {
                expect("inverse mass weight", W.get(0, 3 * i), 1 / bodies[i]->m, 0);
                expect("inverse mass weight", W.get(0, 3 * i + 1), 1 / bodies[i]->m, 0);
                expect("inverse inertia weight", W.get(0, 3 * i + 2), 1 / bodies[i]->I, 0);
            }
        }
        if (on("C17")) {
            if (genCalls != (int)forces.size()) fail("%d of %d force generators were applied", genCalls, (int)forces.size());
            for (int i = 0; i < n; ++i) {
                expectState("force x", s->f_x, i, fx[i], "C17");
                expectState("force y", s->f_y, i, fy[i], "C17");
                expectState("torque", s->t, i, ft[i], "C17");
            }
        }
        if (on("C19")) {
            if (Jm.getHeight() != m || Jm.getWidth() != 3 * n) fail("Jacobian: %d x %d, expected %d x %d", Jm.getWidth(), Jm.getHeight(), 3 * n, m);
            if (right.getHeight() != m || (m && right.getWidth() != 1)) fail("right side: %d x %d, expected 1 x %d", right.getWidth(), right.getHeight(), m);
            if (limits && !generic && (limits->getHeight() != m || (m && limits->getWidth() != 2))) fail("limits: %d x %d, expected 2 x %d", limits->getWidth(), limits->getHeight(), m);
            Matrix e;
            Jm.expand(&e);
            for (int i = 0; i < m; ++i) {
                for (int q = 0; q < 3 * n; ++q)
                    if (!close(e.get(q, i), dense[i][q])) fail("Jacobian row %d column %d is %.17g, expected %.17g", i, q, e.get(q, i), dense[i][q]);
                double jv = 0, jf = 0, jd = 0, sc = 1;
                for (int b = 0; b < n; ++b) {
                    const double v[3] = {s->v_x[b], s->v_y[b], s->v_theta[b]}, f[3] = {s->f_x[b] / bodies[b]->m, s->f_y[b] / bodies[b]->m, s->t[b] / bodies[b]->I};
                    for (int q = 0; q < 3; ++q) {
                        jv += dense[i][3 * b + q] * v[q]; jf += dense[i][3 * b + q] * f[q]; jd += dot[i][3 * b + q] * v[q];
                        sc += fabs(dense[i][3 * b + q] * v[q]) + fabs(dense[i][3 * b + q] * f[q]) + fabs(dot[i][3 * b + q] * v[q]);
                    }
                }
                double want = generic ? -jd - jf - ks[i] * C[i] - kd[i] * (jv + vb[i]) : -(jv + jf * h + vb[i] + opt->m_biasFactor / h * C[i]);
                char b[64];
                snprintf(b, sizeof b, "right side of row %d", i);
                expect(b, right.get(0, i), want, sc + fabs(C[i]) * (1 + fabs(ks[i])) + fabs(C[i] / h) + fabs(kd[i]) * sc);
                if (limits && !generic) {
                    expect("lower limit", limits->get(0, i), l0[i] * h, 0);
                    expect("upper limit", limits->get(1, i), l1[i] * h, 0);
                }
            }
            e.destroy();
        }
        if (Jm.getHeight() == m && Jm.getWidth() == 3 * n) {
            // reactions follow from the rows that were handed over
            Matrix e;
            Jm.expand(&e);
            j = 0;
            for (auto *c : cons) for (int k = 0; k < c->getConstraintCount(); ++k, ++j) for (int b = 0; b < c->m_bodyCount; ++b) {
                int x = c->m_bodies[b]->index;
                if (x != -1) for (int q = 0; q < 3; ++q) J[6 * j + 3 * b + q] = e.get(3 * x + q, j);
            }
            e.destroy();
        }
        lambda.resize(m);
        result->initialize(1, m);
        for (int i = 0; i < m; ++i) { lambda[i] = r.v(); result->set(0, i, lambda[i]); }
        for (int i = 0; i < m; ++i) {
            l0[i] = generic ? lambda[i] : lambda[i] / h;
            for (int q = 0; q < 6; ++q) J[6 * i + q] *= l0[i];          // now the reactions
        }
        g_ns += solveNs;
        sumSolve += solveNs / 1000;
        sumCalc += calcNs / 1000;
        ++solved;
        px0.assign(s->p_x, s->p_x + n);
        vx0.assign(s->v_x, s->v_x + n);
        if (!generic) sumForce += forceNs / 1000;
    }

    // accelerations that the reactions in J produce
    void accel(std::vector<double> a[3]) {
        const SystemState *s = sys->state();
        int n = (int)bodies.size();
        a[0].assign(s->f_x, s->f_x + n); a[1].assign(s->f_y, s->f_y + n); a[2].assign(s->t, s->t + n);
        int j = 0;
        for (auto *c : cons)
            for (int k = 0; k < c->getConstraintCount(); ++k, ++j)
                for (int b = 0; b < c->m_bodyCount; ++b) {
                    int x = c->m_bodies[b]->index;
                    if (x != -1) for (int q = 0; q < 3; ++q) a[q][x] += J[6 * j + 3 * b + q];
                }
        for (int i = 0; i < n; ++i) { a[0][i] /= bodies[i]->m; a[1][i] /= bodies[i]->m; a[2][i] /= bodies[i]->I; }
    }

    void clearStage() {
        genCalls = 0;
        fx.assign(bodies.size(), 0.0); fy = fx; ft = fx;
    }

    void process() {
        std::sort(bodies.begin(), bodies.end(), [](RigidBody *a, RigidBody *b) { return a->index < b->index; });
        std::sort(cons.begin(), cons.end(), [](FakeConstraint *a, FakeConstraint *b) { return a->m_index < b->m_index; });
        dt = r.d(0.01, 0.1);
        steps = r.i(1, 4);
        started = stage = stages = solved = 0;
        ended = true;
        sumForce = sumOde = sumCalc = sumSolve = 0;
        // the durations of this call
        const long unit = on("C22") && r.i(0, 2) == 0 ? 10000000000L : 1000L;      // sums of microseconds beyond 32 bits
        forceNs = unit * r.i(1, 900); odeNs = unit * r.i(1, 900); solveNs = unit * r.i(1, 900); calcNs = 0;
        for (auto *f : forces) f->spin = 0;
        if (forces.size()) forces[r.i(0, (int)forces.size() - 1)]->spin = forceNs; else forceNs = 0;
        for (auto *c : cons) { c->spin = unit * r.i(1, 900); calcNs += c->spin; c->calls = 0; }
        if (!generic) odeNs = 0;
        noteAll();
        std::vector<RigidBody> before;
        for (auto *b : allb) before.push_back(*b);
        double t0 = opt ? opt->timeElapsed() : 0;
        clearStage();
        sys->process(dt, steps);
        int n = (int)bodies.size();
        if (on("C22")) {
            if (generic) { require(ended, "the last sub-step has ended"); if (started != steps) fail("%d sub-steps, expected %d", started, steps); }
            else {
                if (solved != steps) fail("%d sub-steps, expected %d", solved, steps);
                expect("time elapsed", opt->timeElapsed(), t0 + dt, 1);
            }
        }
        if (on("C17")) {
            for (size_t i = 0; i < allb.size(); ++i)
                if (allb[i]->index == -1 && memcmp(&before[i], allb[i], sizeof(RigidBody)) != 0) fail("a body that is not registered was written");
                else if (before[i].m != allb[i]->m || before[i].I != allb[i]->I || before[i].index != allb[i]->index) fail("mass or index of a body was written");
            if (generic) for (int i = 0; i < n; ++i) {
                const double got[6] = {bodies[i]->v_x, bodies[i]->v_y, bodies[i]->p_x, bodies[i]->p_y, bodies[i]->v_theta, bodies[i]->theta};
                static const char *nm[6] = {"v_x", "v_y", "p_x", "p_y", "v_theta", "theta"};
                for (int q = 0; q < 6; ++q) if (got[q] != bodyOut[q][i]) fail("%s of body %d after the step is %.17g, the integrated value is %.17g", nm[q], i, got[q], bodyOut[q][i]);
            }
            else {
                const SystemState *s = sys->state();
                for (int i = 0; i < n; ++i) {
                    const double got[6] = {bodies[i]->v_x, bodies[i]->v_y, bodies[i]->p_x, bodies[i]->p_y, bodies[i]->v_theta, bodies[i]->theta};
                    const double want[6] = {s->v_x[i], s->v_y[i], s->p_x[i], s->p_y[i], s->v_theta[i], s->theta[i]};
                    for (int q = 0; q < 6; ++q) if (got[q] != want[q]) fail("field %d of body %d after the step is %.17g, the integrated value is %.17g", q, i, got[q], want[q]);
                }
            }
        }
        if (!generic && on("C18")) {
            std::vector<double> a[3];
            accel(a);
            for (int i = 0; i < n; ++i) {
                expect("acceleration x of a body", sys->state()->a_x[i], a[0][i], 100);
                expect("acceleration y of a body", sys->state()->a_y[i], a[1][i], 100);
                expect("angular acceleration of a body", sys->state()->a_theta[i], a[2][i], 100);
            }
        }
        if (!generic && on("C22")) {
            // the last sub-step moved the bodies for its share of the time
            double h = dt / steps;
            expect("length of a sub-step", sys->state()->dt, h, 0);
            for (int i = 0; i < n; ++i) {
                double v = vx0[i] + h * sys->state()->a_x[i];
                expect("v_x after the step", bodies[i]->v_x, v, 100);
                expect("p_x after the step", bodies[i]->p_x, px0[i] + h * v, 100);
            }
        }
        if (on("C20")) {
            int j = 0;
            for (size_t i = 0; i < cons.size(); ++i)
                for (int k = 0; k < cons[i]->getConstraintCount(); ++k, ++j)
                    for (int b = 0; b < cons[i]->m_bodyCount; ++b) {
                        const double got[3] = {cons[i]->F_x[k][b], cons[i]->F_y[k][b], cons[i]->F_t[k][b]};
                        for (int q = 0; q < 3; ++q) if (!close(got[q], J[6 * j + 3 * b + q]))
                            fail("force component %d that constraint %d reports for equation %d on body %d is %.17g, applied was %.17g", q, (int)i, k, b, got[q], J[6 * j + 3 * b + q]);
                    }
        }
    }
};

void FakeForce::apply(SystemState *s) {
    ++calls;
    if (sim->genCalls == 0 && sim->on("C17"))
        for (size_t i = 0; i < sim->bodies.size(); ++i) if (s->f_x[i] != 0 || s->f_y[i] != 0 || s->t[i] != 0) fail("forces of body %d do not start from zero", (int)i);
    if (sim->genCalls == 0 && sim->solved == 0) sim->checkPopulated(s);
    ++sim->genCalls;
    g_ns += spin;
    for (size_t i = 0; i < sim->bodies.size(); ++i) {
        double a = p[0] + 0.1 * s->p_x[i], b = p[1] - 0.2 * s->v_y[i], c = p[2] + 0.1 * i;
        s->f_x[i] += a; s->f_y[i] += b; s->t[i] += c;
        sim->fx[i] += a; sim->fy[i] += b; sim->ft[i] += c;
    }
}
void FakeOde::start(SystemState *s, double h) {
    OdeSolver::start(s, h);
    if (sim->on("C22")) {
        require(sim->ended, "a sub-step starts after the previous one ended");
        expect("length of a sub-step", h, sim->dt / sim->steps, 0);
    }
    if (sim->started == 0) sim->checkPopulated(s);
    sim->ended = false;
    ++sim->started;
    sim->stage = 0;
    sim->stages = sim->r.i(1, 4);
}
bool FakeOde::step(SystemState *s) {
    if (sim->on("C22") && sim->stage >= sim->stages) fail("the integrator is advanced after it reported its last stage");
    sim->clearStage();
    return sim->stage + 1 >= sim->stages;
}
void FakeOde::solve(SystemState *s) {
    int n = (int)sim->bodies.size();
    if (sim->on("C18")) {
        std::vector<double> a[3];
        sim->accel(a);
        for (int i = 0; i < n; ++i) {
            sim->expectState("acceleration x", s->a_x, i, a[0][i], "C18");
            sim->expectState("acceleration y", s->a_y, i, a[1][i], "C18");
            sim->expectState("angular acceleration", s->a_theta, i, a[2][i], "C18");
        }
    }
    g_ns += sim->odeNs;
    sim->sumOde += sim->odeNs / 1000;
    sim->sumForce += sim->forceNs / 1000;
    ++sim->stage;
    double *f[6] = {s->v_x, s->v_y, s->p_x, s->p_y, s->v_theta, s->theta};
    for (int q = 0; q < 6; ++q) {
        for (int i = 0; i < n; ++i) f[q][i] = sim->r.v();
        sim->bodyOut[q].assign(f[q], f[q] + n);
    }
}
void FakeOde::end() {
    if (sim->on("C22")) {
        require(!sim->ended, "a sub-step ends once");
        if (sim->stage != sim->stages) fail("a sub-step ended after %d of %d stages", sim->stage, sim->stages);
    }
    sim->ended = true;
}
bool FakeSle::solve(SparseMatrix<3> &J, Matrix &W, Matrix &right, Matrix *result, Matrix *) {
    sim->atSolve(J, W, right, nullptr, result);
    if (!sim->generic) sim->clearStage();
    return true;
}
bool FakeSle::solveWithLimits(SparseMatrix<3> &J, Matrix &W, Matrix &right, Matrix &limits, Matrix *result, Matrix *) {
    sim->atSolve(J, W, right, &limits, result);
    if (!sim->generic) sim->clearStage();
    return true;
}

void several(Rng &r, const char *prop) {
    long mem = live();
    {
        Sim s(r, prop);
        s.change(r.i(3, 14));
        for (int k = r.i(1, 4); k > 0; --k) {
            s.process();
            s.change(r.i(0, 8));
        }
    }
    require(live() == mem, "everything allocated is released");
}

struct Timings {
    std::vector<long long> s[4];
    void add(const Sim &m) { s[0].push_back(m.sumOde); s[1].push_back(m.sumSolve); s[2].push_back(m.sumForce); s[3].push_back(m.sumCalc); }
    void check(const RigidBodySystem *sys) {
        const float got[4] = {sys->getOdeSolveMicroseconds(), sys->getConstraintSolveMicroseconds(), sys->getForceEvalMicroseconds(), sys->getConstraintEvalMicroseconds()};
        static const char *nm[4] = {"integration", "constraint solving", "force evaluation", "constraint evaluation"};
        for (int k = 0; k < 4; ++k) {
            double sum = 0;
            int n = (int)s[k].size(), c = std::min(n, 600);
            for (int i = n - c; i < n; ++i) sum += s[k][i];
            char b[120];
            snprintf(b, sizeof b, "average duration of %s over the last %d of %d calls", nm[k], c, n);
            expect(b, got[k], c ? sum / c : 0, 0, 2.5e-7);
        }
    }
};
}

RP_TEST("C17", population, 10) { several(r, "C17"); }
RP_TEST("C18", accelerations, 10) { several(r, "C18"); }
RP_TEST("C19", assembly, 10) { several(r, "C19"); }
RP_TEST("C20", reactions, 10) { several(r, "C20"); }
RP_TEST("C22", substeps, 10) {
    long mem = live();
    {
        Sim s(r, "C22");
        Timings t;
        t.check(s.sys);
        s.change(r.i(3, 10));
        for (int k = r.i(1, 6); k > 0; --k) {
            s.process();
            t.add(s);
            t.check(s.sys);
            s.change(r.i(0, 4));
        }
    }
    require(live() == mem, "everything allocated is released");
}
RP_TEST("C22", timings_wrap_around, 1) {
    Sim s(r, "C22");
    Timings t;
    s.change(4);
    int n = r.i(595, 700);
    for (int k = 0; k < n; ++k) {
        s.process();
        t.add(s);
        log_.clear();
        if (k > 590 || k % 97 == 0) t.check(s.sys);
    }
}

RP_TEST("C16", registry, 10) {
    long mem = live();
    {
        GenericRigidBodySystem sys;
        std::vector<RigidBody *> b, bo;
        std::vector<FakeConstraint *> c, co;
        std::vector<FakeForce *> f, fo;
        for (int k = r.i(1, 25); k > 0; --k) {
            switch (r.i(0, 12)) {
                case 0: case 1: case 2: {
                    RigidBody *x;
                    if (bo.size() && r.flip()) { x = bo.back(); bo.pop_back(); } else x = new RigidBody;
                    note("add body"); sys.addRigidBody(x); b.push_back(x); break;
                }
                case 3: case 4: case 5: {
                    FakeConstraint *x;
                    if (co.size() && r.flip()) { x = co.back(); co.pop_back(); } else x = new FakeConstraint(r, r.i(1, 3), 1);
                    note("add constraint with %d equations", x->getConstraintCount()); sys.addConstraint(x); c.push_back(x); break;
                }
                case 6: case 7: {
                    FakeForce *x;
                    if (fo.size() && r.flip()) { x = fo.back(); fo.pop_back(); } else x = new FakeForce(r, nullptr);
                    note("add force"); sys.addForceGenerator(x); f.push_back(x); break;
                }
                case 8: case 9: if (b.size()) { int i = r.i(0, (int)b.size() - 1); note("remove body at %d of %d", b[i]->index, (int)b.size()); sys.removeRigidBody(b[i]); bo.push_back(b[i]); b.erase(b.begin() + i); } break;
                case 10: if (c.size()) { int i = r.i(0, (int)c.size() - 1); note("remove constraint at %d of %d", c[i]->m_index, (int)c.size()); sys.removeConstraint(c[i]); co.push_back(c[i]); c.erase(c.begin() + i); } break;
                case 11: if (f.size()) { int i = r.i(0, (int)f.size() - 1); note("remove force at %d of %d", f[i]->m_index, (int)f.size()); sys.removeForceGenerator(f[i]); fo.push_back(f[i]); f.erase(f.begin() + i); } break;
                case 12:
                    if (r.i(0, 3) == 0) {
                        note("reset");
                        sys.reset();
                        for (auto *x : b) delete x;
                        for (auto *x : c) delete x;
                        for (auto *x : f) delete x;
                        b.clear(); c.clear(); f.clear();
                    }
                    break;
            }
            if (sys.getRigidBodyCount() != (int)b.size()) fail("%d bodies, expected %d", sys.getRigidBodyCount(), (int)b.size());
            if (sys.getConstraintCount() != (int)c.size()) fail("%d constraints, expected %d", sys.getConstraintCount(), (int)c.size());
            if (sys.getForceGeneratorCount() != (int)f.size()) fail("%d forces, expected %d", sys.getForceGeneratorCount(), (int)f.size());
            int rows = 0;
            for (auto *x : c) rows += x->getConstraintCount();
            if (sys.getFullConstraintCount() != rows) fail("%d equations, expected %d", sys.getFullConstraintCount(), rows);
            for (auto *x : b) if (x->index < 0 || x->index >= (int)b.size() || sys.getRigidBody(x->index) != x) fail("a registered body carries index %d of %d but another one is there", x->index, (int)b.size());
            std::vector<int> seen(c.size(), 0);
            for (auto *x : c) if (x->m_index < 0 || x->m_index >= (int)c.size() || seen[x->m_index]++) fail("a registered constraint carries index %d of %d, out of range or used twice", x->m_index, (int)c.size());
            seen.assign(f.size(), 0);
            for (auto *x : f) if (x->m_index < 0 || x->m_index >= (int)f.size() || seen[x->m_index]++) fail("a registered force generator carries index %d of %d, out of range or used twice", x->m_index, (int)f.size());
            for (auto *x : bo) if (x->index != -1) fail("a removed body carries index %d", x->index);
            for (auto *x : co) if (x->m_index != -1) fail("a removed constraint carries index %d", x->m_index);
            for (auto *x : fo) if (x->m_index != -1) fail("a removed force generator carries index %d", x->m_index);
        }
        for (auto *x : b) delete x;
        for (auto *x : c) delete x;
        for (auto *x : f) delete x;
        for (auto *x : bo) delete x;
        for (auto *x : co) delete x;
        for (auto *x : fo) delete x;
    }
    require(live() == mem, "everything allocated is released");
}
