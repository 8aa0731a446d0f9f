// C01, C02
#include "rp.h"
using namespace rp;
using namespace atg_scs;

typedef std::vector<std::vector<double>> D;
static D zero(int h, int w) { return D(h, std::vector<double>(w, 0.0)); }
static D rnd(Rng &r, int h, int w) {
    D d = zero(h, w);
    for (auto &a : d) for (double &x : a) x = r.v();
    return d;
}
static void shuffle(Rng &r, Matrix &m) {
    if (!m.getHeight() || r.i(0, 2)) return;
    for (int k = r.i(1, 3); k > 0; --k) m.fastRowSwap(r.i(0, m.getHeight() - 1), r.i(0, m.getHeight() - 1));
    note("rows exchanged");
}
// a matrix whose storage has some history
static void history(Rng &r, Matrix &m) {
    int n = r.i(0, 3);
    for (int k = 0; k < n; ++k) {
        int w = r.n(0, 6), h = r.n(0, 6);
        switch (r.i(0, 3)) {
            case 0: m.resize(w, h); break;
            case 1: if (w && h) m.initialize(w, h); break;
            case 2: m.initialize(w, h, r.v()); break;
            case 3: m.destroy(); break;
        }
        note("history: %d x %d", m.getWidth(), m.getHeight());
        shuffle(r, m);
        for (int i = 0; i < m.getHeight(); ++i) for (int j = 0; j < m.getWidth(); ++j) m.set(j, i, r.v());
    }
}
static void put(Rng &r, Matrix &m, const D &d, int w) {
    m.resize(w, (int)d.size());
    shuffle(r, m);
    for (int i = 0; i < (int)d.size(); ++i) for (int j = 0; j < w; ++j) m.set(j, i, d[i][j]);
}
static void same(const char *what, Matrix &m, const D &d, int w) {
    if (m.getWidth() != w || m.getHeight() != (int)d.size()) fail("%s: size %d x %d, expected %d x %d", what, m.getWidth(), m.getHeight(), w, (int)d.size());
    for (int i = 0; i < (int)d.size(); ++i)
        for (int j = 0; j < w; ++j)
            if (!close(m.get(j, i), d[i][j], 10)) fail("%s: entry row %d column %d is %.17g, expected %.17g", what, i, j, m.get(j, i), d[i][j]);
}

RP_TEST("C01", dense_algebra, 20) {
    long mem = live();
    {
        Matrix A, B, T;
        history(r, A); history(r, B); history(r, T);
        int w = r.n(1, 6), h = r.n(1, 6), w2 = r.n(1, 6);
        int op = r.i(0, 14);
        if ((op == 7 || op == 8) && r.i(0, 3) == 0) { w = 1; if (op == 8) h = 1; }
        int ha = h, wa = w, hb = h, wb = w, ht = h, wt = w;
        D a, b, t;
        double s = r.v();
        if (op == 1) { hb = w; wb = w2; wt = w2; }
        if (op == 2) { hb = h; wb = w2; ht = w; wt = w2; }
        if (op == 3) { ht = w; wt = h; }
        if (op == 7) { wb = 1; }
        if (op == 8) { wb = 1; hb = w; }
        if (op == 12 || op == 13) { wa = wb = wt = w = 1; }
        a = rnd(r, ha, wa); b = rnd(r, hb, wb); t = zero(ht, wt);
        put(r, A, a, wa); put(r, B, b, wb);
        int alias = r.i(0, 3);                 // 1: target is A, 2: target is B
        bool aliasable = (op == 4 || op == 5 || op == 6 || op == 7 || op == 8 || op == 9 || op == 10);
        bool fits2 = (hb == ht && wb == wt);
        Matrix *tg = &T;
        if (aliasable && alias == 1) tg = &A;
        if (aliasable && alias == 2 && fits2 && op != 9 && op != 10) tg = &B;
        note("op %d, A %d x %d, B %d x %d, target %s", op, wa, ha, wb, hb, tg == &T ? "separate" : tg == &A ? "left operand" : "right operand");
        double res = 0, want = 0;
        switch (op) {
            case 0: case 14: T.set(&A); t = a; break;
            case 1: A.multiply(B, &T); for (int i = 0; i < ht; ++i) for (int j = 0; j < wt; ++j) for (int k = 0; k < wa; ++k) t[i][j] += a[i][k] * b[k][j]; break;
            case 2: A.transposeMultiply(B, &T); for (int i = 0; i < ht; ++i) for (int j = 0; j < wt; ++j) for (int k = 0; k < ha; ++k) t[i][j] += a[k][i] * b[k][j]; break;
            case 3: A.transpose(&T); for (int i = 0; i < ht; ++i) for (int j = 0; j < wt; ++j) t[i][j] = a[j][i]; break;
            case 4: A.add(B, tg); for (int i = 0; i < ht; ++i) for (int j = 0; j < wt; ++j) t[i][j] = a[i][j] + b[i][j]; break;
            case 5: A.subtract(B, tg); for (int i = 0; i < ht; ++i) for (int j = 0; j < wt; ++j) t[i][j] = a[i][j] - b[i][j]; break;
            case 6: A.componentMultiply(B, tg); for (int i = 0; i < ht; ++i) for (int j = 0; j < wt; ++j) t[i][j] = a[i][j] * b[i][j]; break;
            case 7: A.leftScale(B, tg); for (int i = 0; i < ht; ++i) for (int j = 0; j < wt; ++j) t[i][j] = b[i][0] * a[i][j]; break;
            case 8: A.rightScale(B, tg); for (int i = 0; i < ht; ++i) for (int j = 0; j < wt; ++j) t[i][j] = b[j][0] * a[i][j]; break;
            case 9: A.scale(s, tg); for (int i = 0; i < ht; ++i) for (int j = 0; j < wt; ++j) t[i][j] = s * a[i][j]; break;
            case 10: A.negate(tg); for (int i = 0; i < ht; ++i) for (int j = 0; j < wt; ++j) t[i][j] = -a[i][j]; break;
            case 11: {
                bool self = r.i(0, 4) == 0;
                if (self) b = a;
                bool p = r.flip();
                if (p) A.pmadd(self ? A : B, s); else A.madd(self ? A : B, s);
                for (int i = 0; i < ht; ++i) for (int j = 0; j < wt; ++j) t[i][j] = p ? s * a[i][j] + b[i][j] : a[i][j] + b[i][j] * s;
                same("in place", A, t, wt);
                if (!self) same("operand is kept", B, b, wb);
                A.destroy(); B.destroy(); T.destroy();
                return;
            }
            case 12: { bool self = r.i(0, 4) == 0; res = A.dot(self ? A : B); for (int i = 0; i < h; ++i) want += a[i][0] * (self ? a : b)[i][0]; break; }
            case 13: res = A.vectorMagnitudeSquared(); for (int i = 0; i < h; ++i) want += a[i][0] * a[i][0]; break;
        }
        expect("scalar result", res, want, 100);
        if (op != 12 && op != 13) same("result", *tg, t, wt);
        if (tg != &A) same("left operand is kept", A, a, wa);
        if (tg != &B) same("right operand is kept", B, b, wb);
        A.destroy(); B.destroy(); T.destroy();
    }
    require(live() == mem, "everything allocated is released");
}

RP_TEST("C01", dense_equals, 4) {
    Matrix A, B;
    int w = r.n(0, 4), h = r.n(0, 4);
    A.initialize(w, h, 1.0);
    int w2 = r.i(0, 5) ? w : r.i(0, 4), h2 = r.i(0, 5) ? h : r.i(0, 4);
    B.initialize(w2, h2, 1.0);
    double err = r.d(0.1, 2);
    bool want = w == w2 && h == h2;
    if (want && w && h && r.flip()) {
        double d = r.d(-1, 1) * 3;
        B.set(r.i(0, w - 1), r.i(0, h - 1), 1.0 + d);
        if (fabs(fabs(d) - err) < 1e-6) d = 0; else want = fabs(d) <= err;
        note("difference %g tolerance %g", d, err);
        require(A.equals(B, err) == want, "equality up to the tolerance");
        require(B.equals(A, err) == want, "equality up to the tolerance");
    }
    else require(A.equals(B, err) == want, "equality of sizes and entries");
    A.destroy(); B.destroy();
}

RP_TEST("C02", dense_storage, 20) {
    long mem = live();
    {
        Matrix m;
        D d;                                   // model, nan = unknown
        int w = 0, n = r.i(1, 10);
        bool made = false;
        for (int k = 0; k < n; ++k) {
            int op = r.i(0, 8), nw = r.n(0, 8), nh = r.n(0, 8);
            if (op == 0) {
                note("resize(%d, %d)", nw, nh);
                m.resize(nw, nh);
                if (nw != w || nh != (int)d.size()) { d = zero(nh, nw); for (auto &x : d) for (double &y : x) y = NAN; w = nw; }
                made = true;
            }
            else if (op == 1) {
                note("initialize(%d, %d)", nw, nh);
                if (!(made || (nw && nh))) continue;
                m.initialize(nw, nh); d = zero(nh, nw); w = nw; made = true;
            }
            else if (op == 2) { double v = r.v(); note("initialize(%d, %d, %g)", nw, nh, v); m.initialize(nw, nh, v); d = zero(nh, nw); for (auto &x : d) for (double &y : x) y = v; w = nw; made = true; }
            else if (op == 3 && w && d.size()) {
                std::vector<double> raw(w * d.size());
                for (double &x : raw) x = r.v();
                note("set(data)");
                m.set(raw.data());
                for (size_t i = 0; i < d.size(); ++i) for (int j = 0; j < w; ++j) d[i][j] = raw[i * w + j];
            }
            else if (op == 4 && r.flip()) { note("destroy()"); m.destroy(); d.clear(); w = 0; made = false; }
            else if (op == 5 && w && d.size()) {
                int i = r.i(0, (int)d.size() - 1), j = r.i(0, w - 1);
                double v = r.v();
                note("set(%d, %d)", j, i);
                m.set(j, i, v); d[i][j] = v;
                if (r.flip()) { m.add(j, i, 2.5); d[i][j] += 2.5; }
            }
            else if (op == 6) {
                // a fresh temporary
                if (nw && nh) {
                    Matrix t(nw, nh, 3.0);
                    for (int i = 0; i < nh; ++i) for (int j = 0; j < nw; ++j) expect("constructed with a value", t.get(j, i), 3.0);
                    t.set(0, 0, 1);
                    bool full = true;
                    for (auto &x : d) for (double y : x) full = full && !std::isnan(y);
                    if (full) {
                        t.set(&m);
                        require(t.getWidth() == w && t.getHeight() == (int)d.size(), "size of the copy");
                        for (int i = 0; i < (int)d.size(); ++i) for (int j = 0; j < w; ++j) expect("copied entry", t.get(j, i), d[i][j]);
                    }
                    t.destroy();
                }
            }
            else if (op == 8 && d.size()) {
                int i = r.i(0, (int)d.size() - 1), j = r.i(0, (int)d.size() - 1);
                note("fastRowSwap(%d, %d)", i, j);
                m.fastRowSwap(i, j);
                std::swap(d[i], d[j]);
            }
            else if (op == 7 && w && d.size()) {
                // every entry is storage of its own
                for (int i = 0; i < (int)d.size(); ++i) for (int j = 0; j < w; ++j) { d[i][j] = i * 100 + j; m.set(j, i, d[i][j]); }
            }
            if (m.getWidth() != w || m.getHeight() != (int)d.size()) fail("size is %d x %d, expected %d x %d", m.getWidth(), m.getHeight(), w, (int)d.size());
            for (int i = 0; i < (int)d.size(); ++i)
                for (int j = 0; j < w; ++j) {
                    double v = m.get(j, i);
                    if (!std::isnan(d[i][j]) && v != d[i][j]) fail("entry row %d column %d is %.17g, expected %.17g", i, j, v, d[i][j]);
                }
        }
        m.destroy();
        if (r.flip()) m.destroy();
        require(m.getWidth() == 0 && m.getHeight() == 0, "a destroyed matrix is empty");
    }
    require(live() == mem, "everything allocated is released exactly once");
}
