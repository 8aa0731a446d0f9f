// Concrete replay of contracts against the real code: seeded cases, one process per run.
#ifndef RP_H
#define RP_H
#include "scs.h"
#include <cfloat>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <new>
#include <string>
#include <unistd.h>
#include <vector>

namespace rp {
struct Rng {
    uint64_t s;
    int mode;                        // kind of values in this case: 0 any, 1 small integers (exact arithmetic), 2 many zeros
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {
        next(); next();
        int k = i(0, 9);
        mode = k < 2 ? 1 : k < 3 ? 2 : 0;
    }
    uint64_t next() {
        s ^= s >> 12; s ^= s << 25; s ^= s >> 27;
        return s * 2685821657736338717ull;
    }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double d(double a, double b) { return a + (b - a) * u(); }
    int i(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }
    // a size: now and then well beyond the usual range
    int n(int a, int b) { return i(0, 11) ? i(a, b) : i(b, 8 * b); }
    double dt() { return mode == 1 ? 1.0 / (1 << i(0, 4)) : d(0.0001, 0.3); }
    bool flip() { return next() & 1; }
    // typical magnitudes with some special values
    double v() {
        if (mode == 1) return i(-2, 2);
        if (mode == 2 && i(0, 4) < 3) return 0.0;
        switch (i(0, 9)) {
            case 0: return 0.0;
            case 1: return 1.0;
            case 2: return -1.0;
            case 3: return d(-100, 100);
            default: return d(-3, 3);
        }
    }
};

struct Test {
    const char *prop, *name;
    void (*fn)(Rng &);
    int weight;
};
inline std::vector<Test> &tests() { static std::vector<Test> t; return t; }
struct Reg { Reg(const char *p, const char *n, void (*f)(Rng &), int w) { tests().push_back(Test{p, n, f, w}); } };

extern char current[256];
extern std::string log_;
void note(const char *fmt, ...);
[[noreturn]] void fail(const char *fmt, ...);
long live();                 // allocations made by the code under test that are alive

inline bool close(double a, double b, double scale = 1.0, double tol = 1e-9) {
    if (a == b) return true;
    if (!(std::isfinite(a) && std::isfinite(b))) return false;
    return std::fabs(a - b) <= tol * (std::fabs(a) + std::fabs(b) + std::fabs(scale) + 1e-12);
}
inline void expect(const char *what, double got, double want, double scale = 1.0, double tol = 1e-9) {
    if (!close(got, want, scale, tol)) fail("%s: got %.17g, expected %.17g", what, got, want);
}
inline void require(bool c, const char *what) { if (!c) fail("%s", what); }

#define RP_TEST(prop, name, weight) \
    static void rp_##name(rp::Rng &); \
    static rp::Reg rp_reg_##name(prop, #name, rp_##name, weight); \
    static void rp_##name(rp::Rng &r)

// a state with n bodies and nc constraint rows
struct State {
    atg_scs::SystemState s;
    State(Rng &r, int n, int nc) {
        s.resize(n, nc);
        fill(r);
    }
    void fill(Rng &r) {
        double *a[] = {s.a_theta, s.v_theta, s.theta, s.a_x, s.a_y, s.v_x, s.v_y, s.p_x, s.p_y, s.f_x, s.f_y, s.t, s.m};
        for (double *p : a) for (int i = 0; i < s.n; ++i) p[i] = r.v();
        for (int i = 0; i < s.n; ++i) s.m[i] = r.d(0.1, 5);
        double *b[] = {s.r_x, s.r_y, s.r_t};
        for (double *p : b) for (int i = 0; i < 2 * s.n_c; ++i) p[i] = r.v();
        for (int i = 0; i < s.n_c; ++i) s.indexMap[i] = i;
        s.dt = r.d(0.001, 0.1);
    }
    ~State() { s.destroy(); }
};

inline void randomBody(Rng &r, atg_scs::RigidBody &b) {
    b.p_x = r.v(); b.p_y = r.v(); b.v_x = r.v(); b.v_y = r.v();
    b.theta = r.d(-7, 7); b.v_theta = r.v();
    b.m = r.d(0.1, 5); b.I = r.d(0.1, 5);
}
} // namespace rp
#endif
