// C03, C04
#include "rp.h"
using namespace rp;
using namespace atg_scs;

typedef std::vector<std::vector<double>> D;
static D zero(int h, int w) { return D(h, std::vector<double>(w, 0.0)); }
static void note(const D &d) {
    for (auto &a : d) { std::string s; for (double x : a) { char b[32]; snprintf(b, sizeof b, " %.3g", x); s += b; } rp::note("  [%s ]", s.c_str()); }
}

// any sequence of earlier uses
static void history(Rng &r, SparseMatrix<3> &m, Matrix *t) {
    for (int n = r.i(0, 3); n > 0; --n) {
        int nb = r.n(0, 4), h = r.n(0, 5);
        if (h == 0) { if (m.getHeight() > 0 || m.getWidth() > 0) m.destroy(); continue; }
        m.initialize(3 * nb, h);
        for (int i = 0; i < h; ++i) for (int k = 0; k < 2; ++k) if (nb && r.flip()) {
            m.setBlock(i, k, k % nb == k ? k : 0);
            for (int l = 0; l < 3; ++l) m.set(i, k, l, r.v());
        }
    }
    if (t) { t->initialize(r.i(0, 4), r.i(0, 4), r.v()); }
}

// a random block-sparse matrix and its expansion
static D fill(Rng &r, SparseMatrix<3> &m, int nb, int h, bool junk = false) {
    m.initialize(3 * nb, h);
    D d = zero(h, 3 * nb);
    for (int i = 0; i < h; ++i) {
        int used = -1;
        int order = r.flip();
        for (int kk = 0; kk < 2; ++kk) {
            int k = order ? 1 - kk : kk;
            int b = nb ? r.i(0, nb - 1) : -1;
            if (r.i(0, 3) == 0 || nb == 0 || b == used) {
                // an unused block may hold anything
                if (junk) for (int l = 0; l < 3; ++l) m.set(i, k, l, r.v());
                continue;
            }
            used = b;
            m.setBlock(i, k, b);
            for (int l = 0; l < 3; ++l) { double v = r.v(); m.set(i, k, l, v); d[i][3 * b + l] = v; }
        }
    }
    return d;
}
static void same(const char *what, Matrix &m, const D &d, int w) {
    if (m.getWidth() != w || m.getHeight() != (int)d.size()) fail("%s: size %d x %d, expected %d x %d", what, m.getWidth(), m.getHeight(), w, (int)d.size());
    for (int i = 0; i < (int)d.size(); ++i)
        for (int j = 0; j < w; ++j)
            if (!close(m.get(j, i), d[i][j], 10)) fail("%s: entry row %d column %d is %.17g, expected %.17g", what, i, j, m.get(j, i), d[i][j]);
}
static void same(const char *what, SparseMatrix<3> &m, const D &d, int w) {
    if (m.getWidth() != w || m.getHeight() != (int)d.size()) fail("%s: size %d x %d, expected %d x %d", what, m.getWidth(), m.getHeight(), w, (int)d.size());
    Matrix e;
    m.expand(&e);
    same(what, e, d, w);
    e.destroy();
}

RP_TEST("C03", sparse_algebra, 20) {
    long mem = live();
    {
        SparseMatrix<3> A, B, T;
        Matrix x, y, t;
        history(r, A, 0); history(r, B, 0); history(r, T, &t);
        int nb = r.n(1, 4), h = r.n(1, 5), h2 = r.n(1, 5), w = 3 * nb, op = r.i(0, 6);
        bool junk = r.i(0, 3) == 0;
        D a = fill(r, A, nb, h, junk), b = fill(r, B, nb, h2, junk);
        rp::note("operation %d, %d x %d, operand:", op, h, w);
        note(a);
        D e;
        switch (op) {
            case 0: A.expand(&t); same("expansion", t, a, w); break;
            case 1:
                A.expandTransposed(&t);
                e = zero(w, h);
                for (int i = 0; i < h; ++i) for (int j = 0; j < w; ++j) e[j][i] = a[i][j];
                same("transposed expansion", t, e, h);
                break;
            case 2: {
                bool self = r.i(0, 2) == 0;
                if (self) { b = a; h2 = h; }
                rp::note("second operand:"); note(b);
                A.multiplyTranspose(self ? A : B, &t);
                e = zero(h, h2);
                for (int i = 0; i < h; ++i) for (int j = 0; j < h2; ++j) for (int k = 0; k < w; ++k) e[i][j] += a[i][k] * b[j][k];
                same("product with the transpose", t, e, h2);
                same("second operand is kept", self ? A : B, b, w);
                break;
            }
            case 3: {
                x.initialize(1, h);
                for (int i = 0; i < h; ++i) x.set(0, i, r.v());
                A.transposeMultiplyVector(x, &t);
                e = zero(w, 1);
                for (int i = 0; i < h; ++i) for (int j = 0; j < w; ++j) e[j][0] += a[i][j] * x.get(0, i);
                same("transpose times vector", t, e, 1);
                break;
            }
            case 4: {
                int c = r.i(1, 3);
                x.initialize(c, w);
                D xs = zero(w, c);
                for (int i = 0; i < w; ++i) for (int j = 0; j < c; ++j) { xs[i][j] = r.v(); x.set(j, i, xs[i][j]); }
                A.multiply(x, &t);
                e = zero(h, c);
                for (int i = 0; i < h; ++i) for (int j = 0; j < c; ++j) for (int k = 0; k < w; ++k) e[i][j] += a[i][k] * xs[k][j];
                same("product", t, e, c);
                same("dense operand is kept", x, xs, c);
                break;
            }
            case 5: {
                x.initialize(1, w);
                for (int i = 0; i < w; ++i) x.set(0, i, r.v());
                A.rightScale(x, &T);
                e = a;
                for (int i = 0; i < h; ++i) for (int j = 0; j < w; ++j) e[i][j] *= x.get(0, j);
                same("columns scaled", T, e, w);
                for (int i = 0; i < h; ++i) for (int k = 0; k < 2; ++k) for (int l = 0; l < 3; ++l) T.set(i, k, l, 7);
                break;
            }
            case 6: {
                x.initialize(1, h);
                for (int i = 0; i < h; ++i) x.set(0, i, r.v());
                A.leftScale(x, &T);
                e = a;
                for (int i = 0; i < h; ++i) for (int j = 0; j < w; ++j) e[i][j] *= x.get(0, i);
                same("rows scaled", T, e, w);
                for (int i = 0; i < h; ++i) for (int k = 0; k < 2; ++k) for (int l = 0; l < 3; ++l) T.set(i, k, l, 7);
                break;
            }
        }
        same("operand is kept", A, a, w);
        A.destroy(); B.destroy(); T.destroy(); x.destroy(); y.destroy(); t.destroy();
    }
    require(live() == mem, "everything allocated is released");
}

RP_TEST("C04", sparse_storage, 20) {
    long mem = live();
    {
        SparseMatrix<3> m;
        int nb = 0, h = 0;
        bool made = false, known = false;
        std::vector<int> blk;
        std::vector<double> val;
        for (int k = r.i(1, 10); k > 0; --k) {
            int op = r.i(0, 7), b2 = r.n(0, 5), h2 = r.n(made ? 0 : 1, 9);
            if (op == 0) {
                rp::note("destroy()");
                m.destroy();
                nb = h = 0; made = false; known = false;
            } else if (op <= 2) {
                rp::note("initialize(%d, %d)", 3 * b2, h2);
                m.initialize(3 * b2, h2);
                nb = b2; h = h2; made = true; known = true;
                blk.assign(2 * h, -1);
                val.assign(6 * h, 0.0);
            } else if (op == 3) {
                rp::note("resize(%d, %d)", 3 * b2, h2);
                bool same = made && b2 == nb && h2 == h;
                m.resize(3 * b2, h2);
                if (!same) known = false;
                nb = b2; h = h2; made = true;
            } else if (made && known && h && nb) {
                int i = r.i(0, h - 1), e = r.i(0, 1), l = r.i(0, 2);
                if (r.i(0, 4) == 0) {
                    rp::note("setEmpty(%d, %d)", i, e);
                    m.setEmpty(i, e);
                    blk[2 * i + e] = -1;
                    for (int q = 0; q < 3; ++q) val[6 * i + 3 * e + q] = 0;
                } else if (r.flip()) {
                    int b = r.i(0, nb - 1);
                    if (blk[2 * i + 1 - e] != b) {
                        rp::note("setBlock(%d, %d, %d)", i, e, b);
                        m.setBlock(i, e, b);
                        blk[2 * i + e] = b;
                    }
                } else {
                    double v = r.v();
                    rp::note("set(%d, %d, %d, %g)", i, e, l, v);
                    m.set(i, e, l, v);
                    val[6 * i + 3 * e + l] = v;
                }
            }
            if (m.getWidth() != 3 * nb || m.getHeight() != h) fail("size %d x %d, expected %d x %d", m.getWidth(), m.getHeight(), 3 * nb, h);
            if (made && known) {
                for (int i = 0; i < h; ++i) for (int e = 0; e < 2; ++e) for (int l = 0; l < 3; ++l) {
                    double g = m.get(i, e, l);
                    if (g != val[6 * i + 3 * e + l]) fail("entry row %d, block %d, slice %d is %g, expected %g", i, e, l, g, val[6 * i + 3 * e + l]);
                }
                if (h) {
                    Matrix d;
                    m.expand(&d);
                    for (int i = 0; i < h; ++i) for (int j = 0; j < 3 * nb; ++j) {
                        double want = 0;
                        for (int e = 0; e < 2; ++e) if (blk[2 * i + e] == j / 3) want = val[6 * i + 3 * e + j % 3];
                        if (d.get(j, i) != want) fail("expansion at row %d column %d is %g, expected %g", i, j, d.get(j, i), want);
                    }
                    d.destroy();
                }
            }
            if (made && !known) {
                // every entry can be written independently
                for (int i = 0; i < h; ++i) for (int e = 0; e < 2; ++e) { m.setEmpty(i, e); for (int l = 0; l < 3; ++l) m.set(i, e, l, 6 * i + 3 * e + l); }
                for (int i = 0; i < h; ++i) for (int e = 0; e < 2; ++e) for (int l = 0; l < 3; ++l)
                    if (m.get(i, e, l) != 6 * i + 3 * e + l) fail("entry row %d, block %d, slice %d shares storage with another one", i, e, l);
                blk.assign(2 * h, -1);
                val.resize(6 * h);
                for (int i = 0; i < 6 * h; ++i) val[i] = i;
                known = true;
            }
        }
        m.destroy();
        require(m.getWidth() == 0 && m.getHeight() == 0, "a destroyed matrix is empty");
        m.destroy();
    }
    require(live() == mem, "everything allocated is released exactly once");
}
