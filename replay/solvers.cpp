// C13, C14, C15
#include "rp.h"
#include <algorithm>
using namespace rp;
using namespace atg_scs;

typedef std::vector<std::vector<double>> D;
typedef std::vector<double> V;

namespace {
// J, W, right side, limits; A = J W J^T
struct Problem {
    SparseMatrix<3> J;
    Matrix W, b, lim;
    D j, A;
    V w, rhs, lo, hi;
    int n, nb;
    D jdense() {
        Matrix e;
        J.expand(&e);
        D d(e.getHeight(), V(e.getWidth()));
        for (int i = 0; i < e.getHeight(); ++i) for (int k = 0; k < e.getWidth(); ++k) d[i][k] = e.get(k, i);
        e.destroy();
        return d;
    }
    ~Problem() { J.destroy(); W.destroy(); b.destroy(); lim.destroy(); }
    // kind 0: any values; 1: integers, exact cancellations; 2: well conditioned (diagonally dominant Jacobian part);
    // 3: integers with weights of both signs, so that leading elements are zero
    void make(Rng &r, int n_, int kind, bool limits, double scale = 1) {
        n = n_;
        nb = kind == 2 ? n + 1 : r.i(1, n + 2);
        J.initialize(3 * nb, n);
        for (int i = 0; i < n; ++i) {
            int b0 = kind == 2 ? i : r.i(0, nb - 1), b1 = kind == 2 ? i + 1 : r.i(0, nb - 1);
            bool swap = r.flip();
            bool one = kind != 2 && r.i(0, 3) == 0;
            if (b0 == b1) one = true;
            for (int e = 0; e < 2; ++e) {
                int k = swap ? 1 - e : e;
                if (e == 1 && one) continue;
                J.setBlock(i, k, e ? b1 : b0);
                for (int l = 0; l < 3; ++l)
                    J.set(i, k, l, kind == 1 || kind == 3 ? (double)r.i(-1, 1) : kind == 2 ? (l == e ? 1.0 : 0.0) * (e ? 0.5 : 1) + 0.2 * r.d(-1, 1) : r.v());
            }
        }
        w.assign(3 * nb, 0.0);
        W.initialize(1, 3 * nb);
        for (int i = 0; i < 3 * nb; ++i) { w[i] = scale * (kind == 1 ? (double)r.i(1, 2) : kind == 3 ? (r.flip() ? 1.0 : -1.0) : r.d(0.3, 2)); W.set(0, i, w[i]); }
        b.initialize(1, n);
        rhs.assign(n, 0.0);
        for (int i = 0; i < n; ++i) { rhs[i] = kind == 1 || kind == 3 ? (double)r.i(-3, 3) : r.v(); b.set(0, i, rhs[i]); }
        if (limits) {
            lim.initialize(2, n);
            lo.assign(n, 0.0); hi = lo;
            for (int i = 0; i < n; ++i) {
                lo[i] = r.i(0, 2) ? r.d(-2, 0.5) : -DBL_MAX;
                hi[i] = r.i(0, 2) ? std::max(lo[i], 0.0) + r.d(0, 2) : DBL_MAX;
                if (r.i(0, 5) == 0) hi[i] = lo[i] = r.d(-1, 1);
                lim.set(0, i, lo[i]); lim.set(1, i, hi[i]);
            }
        }
        j = jdense();
        A.assign(n, V(n, 0.0));
        for (int i = 0; i < n; ++i) for (int c = 0; c < n; ++c) for (int q = 0; q < 3 * nb; ++q) A[i][c] += j[i][q] * w[q] * j[c][q];
        rp::note("%d unknowns, %d bodies", n, nb);
        for (int i = 0; i < n; ++i) {
            std::string s;
            for (int c = 0; c < n; ++c) { char t[40]; snprintf(t, sizeof t, " %.9g", A[i][c]); s += t; }
            rp::note(" A row [%s ]  b %.9g", s.c_str(), rhs[i]);
            if (limits) rp::note("   limits %.9g .. %.9g", lo[i], hi[i]);
        }
    }
    void unchanged() {
        if (J.getHeight() != n || J.getWidth() != 3 * nb) fail("the Jacobian has changed its size");
        D e = jdense();
        for (int i = 0; i < n; ++i) for (int c = 0; c < 3 * nb; ++c) if (e[i][c] != j[i][c]) fail("the Jacobian is changed");
        if (W.getWidth() != 1 || W.getHeight() != 3 * nb) fail("the weights have changed their size");
        for (int c = 0; c < 3 * nb; ++c) if (W.get(0, c) != w[c]) fail("the weights are changed");
        if (b.getWidth() != 1 || b.getHeight() != n) fail("the right side has changed its size");
        for (int i = 0; i < n; ++i) if (b.get(0, i) != rhs[i]) fail("the right side is changed");
        if (!lo.empty()) for (int i = 0; i < n; ++i) if (lim.get(0, i) != lo[i] || lim.get(1, i) != hi[i]) fail("the limits are changed");
    }
};
V read(Matrix &m) { V v(m.getHeight()); for (int i = 0; i < m.getHeight(); ++i) v[i] = m.get(0, i); return v; }
void write(Matrix &m, const V &v) { m.initialize(1, (int)v.size()); for (size_t i = 0; i < v.size(); ++i) m.set(0, (int)i, v[i]); }
V randomV(Rng &r, int n) { V v(n); for (double &x : v) x = r.v(); return v; }

// the start of a solve: result and previous in some configuration
struct Start {
    Matrix x, p;
    Matrix *previous;
    V start, before;
    bool separate;
    void make(Rng &r, int n, bool zeroIfNone) {
        start.assign(n, 0.0);
        separate = false;
        if (r.flip()) { start = randomV(r, n); write(x, start); if (zeroIfNone) start.assign(n, 0.0); }
        else if (r.flip()) x.initialize(1, n + r.i(1, 2), 7.0);
        else if (n > 1) x.initialize(1, n - 1, 7.0);
        previous = nullptr;
        switch (r.i(0, 3)) {
            case 0: break;
            case 1: previous = &x; if (x.getHeight() == n) start = read(x); break;
            case 2: before = randomV(r, n); write(p, before); start = before; previous = &p; separate = true; break;
            case 3: before = randomV(r, n > 1 && r.flip() ? n - 1 : n + r.i(1, 2)); write(p, before); previous = &p; separate = true; break;
        }
    }
    void unchanged() {
        if (!separate) return;
        if (read(p) != before) fail("the warm start is changed");
    }
    ~Start() { x.destroy(); p.destroy(); }
};

// one projected sweep; returns the largest relative change
double sweep(const Problem &P, V &x, bool limits) {
    double d = 0;
    for (int i = 0; i < P.n; ++i) {
        double s = P.rhs[i];
        for (int c = 0; c < P.n; ++c) if (c != i) s -= P.A[i][c] * x[c];
        s /= P.A[i][i];
        if (limits) s = std::fmax(P.lo[i], std::fmin(P.hi[i], s));
        d = std::fmax(d, std::fabs(s - x[i]) / std::fmax(1e-3, std::fabs(x[i])));
        x[i] = s;
    }
    return d;
}
bool dominant(const Problem &P) {
    for (int i = 0; i < P.n; ++i) { if (!(P.A[i][i] > 0.05)) return false; }
    return true;
}
} // namespace

RP_TEST("C13", gauss_seidel_sweeps, 20) {
    long mem = live();
    {
        GaussSeidelSleSolver g;
        for (int round = r.i(1, 3); round > 0; --round) {
            Problem P;
            bool limits = r.flip();
            P.make(r, r.i(1, 6), r.flip() ? 2 : 0, limits);
            if (!dominant(P)) continue;
            Start s;
            s.make(r, P.n, false);
            g.m_maxIterations = r.i(0, 3) ? r.i(0, 6) : r.i(0, 60);
            g.m_minDelta = r.flip() ? r.d(0.001, 2) : r.d(1e-6, 0.1);
            V x = s.start;
            bool want = false, unsure = false;
            double scale = 1;
            for (int k = 0; k < g.m_maxIterations; ++k) {
                double d = sweep(P, x, limits);
                for (double v : x) scale = std::fmax(scale, std::fabs(v));
                if (std::fabs(d - g.m_minDelta) < 1e-6 * (1 + d)) unsure = true;
                if (d < g.m_minDelta) { want = true; break; }
            }
            if (unsure || !(scale < 1e6)) continue;
            rp::note("at most %d sweeps, tolerance %.9g, result %d rows, previous %s", g.m_maxIterations, g.m_minDelta, s.x.getHeight(), !s.previous ? "none" : s.previous == &s.x ? "result" : "separate");
            bool ret = limits ? g.solveWithLimits(P.J, P.W, P.b, P.lim, &s.x, s.previous) : g.solve(P.J, P.W, P.b, s.previous, &s.x);
            if (s.x.getWidth() != 1 || s.x.getHeight() != P.n) fail("the result is %d x %d, expected one unknown for each of %d rows", s.x.getWidth(), s.x.getHeight(), P.n);
            for (int i = 0; i < P.n; ++i) {
                if (!close(s.x.get(0, i), x[i], scale, 1e-8)) fail("unknown %d is %.17g, the sweeps give %.17g", i, s.x.get(0, i), x[i]);
                if (limits && g.m_maxIterations > 0 && !(s.x.get(0, i) >= P.lo[i] && s.x.get(0, i) <= P.hi[i])) fail("unknown %d is %.17g outside its limits", i, s.x.get(0, i));
            }
            if (ret != want) fail("reports %s, expected %s", ret ? "convergence" : "no convergence", want ? "convergence" : "no convergence");
            P.unchanged();
            s.unchanged();
        }
    }
    if (live() != mem) fail("%ld allocations are not released", live() - mem);
}

RP_TEST("C13", gauss_seidel_converges, 6) {
    GaussSeidelSleSolver g;
    Problem P;
    bool limits = r.flip();
    P.make(r, r.i(1, 8), 2, limits);
    Start s;
    s.make(r, P.n, false);
    g.m_maxIterations = 4000;
    g.m_minDelta = 1e-9;
    bool ret = limits ? g.solveWithLimits(P.J, P.W, P.b, P.lim, &s.x, s.previous) : g.solve(P.J, P.W, P.b, s.previous, &s.x);
    if (!ret) fail("does not converge on a well conditioned system");
    for (int i = 0; i < P.n; ++i) {
        double v = P.rhs[i], x = s.x.get(0, i);
        for (int c = 0; c < P.n; ++c) v -= P.A[i][c] * s.x.get(0, c);
        double sc = 1 + std::fabs(P.rhs[i]);
        bool ok = std::fabs(v) < 1e-5 * sc;
        if (limits) {
            if (!(x >= P.lo[i] && x <= P.hi[i])) fail("unknown %d is %.17g outside its limits", i, x);
            ok = ok || (v > 0 && x == P.hi[i]) || (v < 0 && x == P.lo[i]);
        }
        if (!ok) fail("row %d: remainder %.9g with unknown %.9g", i, v, x);
    }
}

RP_TEST("C14", gaussian_elimination, 20) {
    long mem = live();
    {
        GaussianEliminationSleSolver g;
        for (int round = r.i(1, 4); round > 0; --round) {
            Problem P;
            P.make(r, r.i(1, 7), r.i(0, 3), false, std::ldexp(1.0, -4 * r.i(0, 3) * r.i(0, 3)));
            // exact-ish rank by elimination with full pivoting
            D a = P.A;
            double big = 0, small = 1e300;
            bool ok = true;
            for (int k = 0; k < P.n; ++k) {
                int pi = k, pj = k;
                for (int i = k; i < P.n; ++i) for (int c = k; c < P.n; ++c) if (std::fabs(a[i][c]) > std::fabs(a[pi][pj])) { pi = i; pj = c; }
                double v = std::fabs(a[pi][pj]);
                big = std::fmax(big, v); small = std::fmin(small, v);
                if (!(v > 1e-7 * big)) { ok = false; break; }
                std::swap(a[k], a[pi]);
                for (auto &row : a) std::swap(row[k], row[pj]);
                for (int i = k + 1; i < P.n; ++i) { double f = a[i][k] / a[k][k]; for (int c = k; c < P.n; ++c) a[i][c] -= f * a[k][c]; }
            }
            if (!ok || small < 1e-7 * big) continue;
            Start s;
            s.make(r, P.n, true);
            if (!g.solve(P.J, P.W, P.b, s.previous, &s.x)) fail("does not solve a regular system");
            if (s.x.getWidth() != 1 || s.x.getHeight() != P.n) fail("the result is %d x %d, expected one unknown for each of %d rows", s.x.getWidth(), s.x.getHeight(), P.n);
            V x = read(s.x);
            double m = 0;
            for (double v : x) m = std::fmax(m, std::fabs(v));
            for (int i = 0; i < P.n; ++i) {
                double v = P.rhs[i], sc = std::fabs(P.rhs[i]);
                for (int c = 0; c < P.n; ++c) { v -= P.A[i][c] * x[c]; sc += std::fabs(P.A[i][c]) * m; }
                if (!(std::fabs(v) <= 1e-7 * (sc + big))) fail("row %d: the result leaves a remainder of %.9g", i, v);
            }
            P.unchanged();
            if (s.separate) s.unchanged();
        }
    }
    if (live() != mem) fail("%ld allocations are not released", live() - mem);
}

RP_TEST("C15", conjugate_gradient, 20) {
    long mem = live();
    {
        ConjugateGradientSleSolver g;
        for (int round = r.i(1, 3); round > 0; --round) {
            Problem P;
            int kind = r.flip() ? 2 : 0;
            P.make(r, r.i(1, 6), kind, false);
            Start s;
            s.make(r, P.n, true);
            g.setMaxIterations(r.i(0, 2) ? 4 * P.n : r.i(0, 3));
            g.setMaxError(r.i(0, 2) ? r.d(1e-6, 0.1) : 0.0);
            g.setMinError(r.flip() ? r.d(1e-7, 1e-2) : r.d(0.01, 3));
            bool tight = kind == 2 && g.getMaxIterations() == 4 * P.n;
            bool start = true;
            for (int i = 0; i < P.n; ++i) {
                double v = P.rhs[i];
                for (int c = 0; c < P.n; ++c) v -= P.A[i][c] * s.start[c];
                if (!(std::fabs(v) < 0.999999 * std::fmax(std::fabs(g.getMaxError() * P.rhs[i]), g.getMinError()))) start = false;
            }
            rp::note("at most %d steps, relative tolerance %.9g, absolute %.9g, previous %s", g.getMaxIterations(), g.getMaxError(), g.getMinError(), !s.previous ? "none" : s.previous == &s.x ? "result" : "separate");
            for (int i = 0; i < P.n; ++i) rp::note("  start %.9g", s.start[i]);
            bool ret = g.solve(P.J, P.W, P.b, s.previous, &s.x);
            if (s.x.getWidth() != 1 || s.x.getHeight() != P.n) fail("the result is %d x %d, expected one unknown for each of %d rows", s.x.getWidth(), s.x.getHeight(), P.n);
            if (start && !ret) fail("reports failure from a start that is good enough");
            if (start) for (int i = 0; i < P.n; ++i) if (s.x.get(0, i) != s.start[i]) fail("a start that is good enough is not returned");
            if (tight && !ret) fail("does not solve a well conditioned system of %d unknowns in %d steps", P.n, g.getMaxIterations());
            if (ret) {
                V x = read(s.x);
                for (int i = 0; i < P.n; ++i) {
                    double v = P.rhs[i], sc = std::fabs(P.rhs[i]);
                    for (int c = 0; c < P.n; ++c) { v -= P.A[i][c] * x[c]; sc += std::fabs(P.A[i][c] * x[c]); }
                    double tol = std::fmax(std::fabs(g.getMaxError() * P.rhs[i]), g.getMinError());
                    if (!(std::fabs(v) <= tol * (1 + 1e-6) + 1e-9 * sc)) fail("reports success with a remainder of %.9g in row %d, tolerance %.9g", v, i, tol);
                }
            }
            P.unchanged();
            s.unchanged();
        }
    }
    if (live() != mem) fail("%ld allocations are not released", live() - mem);
}

// conjugate directions: n steps solve a system of n unknowns
RP_TEST("C15", conjugate_gradient_steps, 6) {
    ConjugateGradientSleSolver g;
    Problem P;
    P.make(r, r.i(1, 5), 2, false);
    Start s;
    s.make(r, P.n, true);
    for (int i = 0; i < P.n; ++i) if (std::fabs(s.start[i]) > 10 || std::fabs(P.rhs[i]) > 10) return;
    g.setMaxIterations(P.n);
    g.setMaxError(0);
    g.setMinError(1e-7);
    if (!g.solve(P.J, P.W, P.b, s.previous, &s.x)) fail("%d steps do not solve a well conditioned system of %d unknowns", P.n, P.n);
}

// rows without any weight: convergence is not reported for something that is not a solution
RP_TEST("C13", gauss_seidel_degenerate, 4) {
    GaussSeidelSleSolver g;
    Problem P;
    bool limits = r.flip();
    P.make(r, r.i(1, 5), 0, limits);
    int z = r.i(0, P.n - 1);
    for (int k = 0; k < 2; ++k) for (int l = 0; l < 3; ++l) P.J.set(z, k, l, 0.0);
    if (r.flip()) P.b.set(0, z, 0.0);
    Start s;
    s.make(r, P.n, false);
    g.m_maxIterations = r.i(1, 200);
    rp::note("row %d has no weights, its right side is %.9g", z, P.b.get(0, z));
    bool ret = limits ? g.solveWithLimits(P.J, P.W, P.b, P.lim, &s.x, s.previous) : g.solve(P.J, P.W, P.b, s.previous, &s.x);
    if (!ret) return;
    for (int i = 0; i < P.n; ++i) if (!std::isfinite(s.x.get(0, i))) fail("reports convergence with unknown %d at %g", i, s.x.get(0, i));
}
