"""C13, C14, C15: the linear solvers."""
from fractions import Fraction
from .base import *
from . import matrix as M
from . import sparse as S
from ..loops import Inv, Carried, Progress
from .. import smt

GS = 'GaussSeidelSleSolver'
N = V('n', 'I')
i_ = V('any.row', 'I')
IN = [ge(i_, I(0)), lt(i_, N)]
_j = V('j', 'I')


def dot_range(a, x, lo, hi, i):
    return T.Sum(lambda j: mul(a(i, j), x(j)), lo, hi)


def sweep_value(a, b, new, old, i, lim=None):
    """projected update of unknown i: the earlier ones are new, the later ones old"""
    v = mul(R(1) / a(i, i), sub(sub(b(i), dot_range(a, new, I(0), i, i)), dot_range(a, old, add(i, I(1)), N, i)))
    if lim is not None:
        v = T.fmax(lim(i, I(0)), T.fmin(lim(i, I(1)), v))
    return v


def _ordered(atoms):
    """the lower limit of a row is at most its upper limit"""
    return [le(T.app('lim.e', [a.args[1], I(0)], 'R'), T.app('lim.e', [a.args[1], I(1)], 'R')) for a in atoms if a.op == 'app' and a.args[0] == 'lim.e']


smt.LEMMAS.append(_ordered)


def change(new, old):
    """change of an unknown relative to its size"""
    return T.fabs(sub(new, old)) / T.fmax(T.num(Fraction(1e-3), 'R'), T.fabs(old))


def gs_iteration(limits):
    @task('C13', '%s::solveIteration%s' % (GS, ' with limits' if limits else ''))
    def go(E):
        w = E.world('solveIteration')
        A = M.mat(w, 'A', N, N)
        b = M.mat(w, 'b', I(1), N)
        x = M.mat(w, 'x', I(1), N)
        lim = M.mat(w, 'lim', I(2), N) if limits else None
        g = w.obj('gs', GS)
        args = [P0(g), A.ptr, b.ptr] + ([lim.ptr] if limits else []) + [x.ptr, x.ptr]
        r = w.run(w.fn('%s::solveIteration/%d' % (GS, len(args))), args)
        old = lambda i: x.e(i, I(0))
        rd = M.reader(w.ex, w.post, x.ptr)
        new = lambda i: rd(i, I(0))
        gw, gh = M.msize(w.ex, w.post, x.ptr)
        w.ensure_val('the unknowns keep their number', gh, N)
        want = sweep_value(A.e, lambda i: b.e(i, I(0)), new, old, i_, lim.e if limits else None)
        w.ensure_val('every unknown is updated in turn', new(i_), want, IN)
        w.ensure('no unknown changed by more than the returned value', le(change(new(i_), old(i_)), w.ret), IN)
        q, c = w.c.bound('q'), V('any.bound')
        w.ensure('the returned value is no larger than the largest change', lt(w.ret, c),
                 [gt(c, R(0)), T.forall(q, implies(band(ge(q, I(0)), lt(q, N)), lt(change(new(q), old(q)), c)))])
        w.frame([x.data])
        return w


gs_iteration(False)
gs_iteration(True)


# ------------------------------------------------------------------ Gauss-Seidel: whole solve
NBK = V('J.nb', 'I')


class Sys:
    """the arguments of a solve() and the system they stand for"""

    def __init__(self, w, result, previous, limits=False, order=('previous', 'result')):
        self.w = w
        self.J = S.smat(w, 'J', NBK, N)
        self.W = M.mat(w, 'W', I(1), scale_i(NBK, 3))
        self.b = M.mat(w, 'b', I(1), N)
        self.lim = M.mat(w, 'lim', I(2), N) if limits else None
        self.x = M.mat(w, 'x', I(1), N) if result == 'fits' else M.mat(w, 'x', I(1))
        if result != 'fits':
            w.assume(ne(self.x.h, N))
        self.prev = None
        if previous == 'fits':
            self.prev = M.mat(w, 'prev', I(1), N)
        elif previous == 'other size':
            self.prev = M.mat(w, 'prev', I(1))
            w.assume(ne(self.prev.h, N))
        p = NULL if previous == 'none' else self.x.ptr if previous == 'result' else self.prev.ptr
        self.args = [self.J.ptr, self.W.ptr, self.b.ptr] + ([self.lim.ptr] if limits else []) + [p if o == 'previous' else self.x.ptr for o in order]
        fits = result == 'fits'
        if previous == 'fits':
            self.start = lambda i: self.prev.e(i, I(0))
        elif fits:
            self.start = lambda i: self.x.e(i, I(0))
        else:
            self.start = lambda i: R(0)

    def A(self, i, j):
        """entry of J W J^T"""
        J = self.J
        return S.pairs([J.blk(i, k) for k in range(2)], [J.blk(j, k) for k in range(2)],
                       lambda k, m: mul(J.v(i, k, m), self.W.e(add(scale_i(J.blk(i, k), 3), I(m)), I(0))), lambda l, m: J.v(j, l, m))

    def rhs(self, i):
        return self.b.e(i, I(0))


SW = lambda q, i: T.app('sweep.x', [q, i], 'R')
SD = lambda q: T.app('sweep.change', [q], 'R')
# abbreviation: change(x of sweep q at i, x of sweep q-1 at i), for q >= 1
CH = lambda q, i: T.app('sweep.delta', [q, i], 'R')
SAT = lambda q: T.app('sweep.at', [q], 'I')


class Sweep:
    """contract of one iteration in place, with a ghost count of the sweeps"""

    def __init__(self, w, s, limits):
        self.w, self.s, self.limits = w, s, limits
        self.g = w.obj('ghost', 'Constraint')
        w.st.mem[(self.g, 0)] = ('I64', I(0))
        self.cell = Ptr(self.g, I(0))

    def count(self, st):
        return self.w.ex.load1(st, self.cell, 'I64')

    def old(self, q):
        return lambda i: ite(le(q, I(0)), self.s.start(i), SW(q, i))

    def apply(self, ex, st, args, ins):
        w, s = self.w, self.s
        st = st.copy()
        left, right = args[1], args[2]
        nx, k = args[-2], args[-1]
        ob = lambda g, what: w.c.oblige(st, g, what, ins, 'pre')
        ob(ex.pcmp(st, 'eq', nx, k), 'the iteration works in place')
        lw, lh = M.msize(ex, st, left)
        ob(band(eq(lw, N), eq(lh, N)), 'the matrix of the system is square')
        ob(ex.pcmp(st, 'eq', right, s.b.ptr), 'the right side of the system')
        if self.limits:
            ob(ex.pcmp(st, 'eq', args[3], s.lim.ptr), 'the limits of the system')
        kw, kh = M.msize(ex, st, k)
        ob(band(eq(kw, I(1)), eq(kh, N)), 'one unknown for every row')
        a, b = w.c.bound('r'), w.c.bound('c')
        rng = [ge(a, I(0)), lt(a, N), ge(b, I(0)), lt(b, N)]
        e = M.reader(ex, st, left)(a, b, rng)
        ob(implies(band(*rng), eq(e, s.A(a, b))), 'the matrix of the system is J W J^T')
        for m, nm in ((s.b, 'right side'), (s.lim, 'limits')):
            if m is not None:
                ob(implies(band(*rng[:2]), eq(M.reader(ex, st, m.ptr)(a, I(0), rng), m.e(a, I(0)))), 'the %s is unchanged' % nm)
        q = self.count(st)
        x = M.reader(ex, st, k)(a, I(0), rng)
        ob(implies(band(*rng[:2]), eq(x, self.old(q)(a))), 'the iteration continues from the last unknowns')
        q1 = add(q, I(1))
        st = M.assign(ex, st, k, I(1), N, lambda r, c: SW(q1, r), 'swept', ins)
        st = st[0] if isinstance(st, tuple) else st
        t = V('t@sweep', 'I')
        new, old = (lambda i: SW(q1, i)), self.old(q)
        lim = s.lim.e if self.limits else None
        st.assume(ge(SD(q1), R(0)),
                  T.forall(t, implies(band(ge(t, I(0)), lt(t, N)), eq(new(t), sweep_value(s.A, s.rhs, new, old, t, lim)))),
                  T.forall(t, implies(band(ge(t, I(0)), lt(t, N)), le(CH(q1, t), SD(q1)))),
                  bor(eq(SD(q1), R(0)), band(ge(SAT(q1), I(0)), lt(SAT(q1), N), eq(CH(q1, SAT(q1)), SD(q1)))))
        ex.store1(st, self.cell, 'I64', q1)
        return st, SD(q1)


def configured(w, obj, cls, fields):
    """the settings of the solver are the same after the call"""
    for f, v in fields.items():
        w.ensure_val('%s keeps its setting' % f, w.get(w.post, obj, cls, f, 'I32' if v.sort == 'I' else 'R'), v)


def gs_solve(limits):
    name = '%s::solve%s' % (GS, 'WithLimits' if limits else '')

    @task('C13', name)
    def go(E):
        for result in ('fits', 'other size'):
            for previous in ('none', 'result', 'fits', 'other size'):
                w = E.world('%s (result: %s, previous: %s)' % (name, result, previous))
                M.install(w)
                S.install(w)
                s = Sys(w, result, previous, limits, ('result', 'previous') if limits else ('previous', 'result'))
                mi, md = V('max', 'I'), V('tolerance')
                w.assume(ge(mi, I(0)))
                ov = {'m_maxIterations': mi, 'm_minDelta': md}
                r0, _ = M.rows_fields(w, 'M', V('M.w', 'I'), V('M.h', 'I'), 'm_M.')
                _, r1 = S.row_fields(w, 'reg', V('reg.nb', 'I'), V('reg.h', 'I'), 'm_reg.')
                g = w.obj('gs', GS, dict(ov, **r0, **r1))
                sw = Sweep(w, s, limits)
                w.c.contracts[w.fn('%s::solveIteration/%d' % (GS, 6 if limits else 5))] = sw
                w.run(w.fn(name), [P0(g)] + s.args)
                K = sw.count(w.post)
                rd = M.reader(w.ex, w.post, s.x.ptr)
                got = rd(i_, I(0))
                gw, gh = M.msize(w.ex, w.post, s.x.ptr)
                w.ensure('one unknown for every row', band(eq(gh, N), eq(gw, I(1))))
                w.ensure_val('the result is that of the last sweep', got, sw.old(K)(i_), IN)
                last = lt(CH(K, i_), md)
                w.ensure('converged: the last sweep changed no unknown by the tolerance or more', implies(w.ret, band(ge(K, I(1)), last)), IN)
                w.ensure('gives up only after the configured number of sweeps', band(le(K, mi), bor(w.ret, eq(K, mi))))
                q = w.c.bound('q')
                w.ensure('reports convergence when the last sweep changed every unknown by less than the tolerance', w.ret,
                         [gt(md, R(0)), ge(K, I(1)), T.forall(q, implies(band(ge(q, I(0)), lt(q, N)), lt(CH(K, q), md)))])
                e = V('any.sweep', 'I')
                w.ensure('no sweep before the last one changed every unknown by less than the tolerance', ge(SD(e), md), [ge(e, I(1)), lt(e, K)])
                if limits:
                    lo, hi = s.lim.e(i_, I(0)), s.lim.e(i_, I(1))
                    w.ensure('every unknown is within its limits', implies(ge(K, I(1)), band(le(lo, got), le(got, hi))), IN)
                configured(w, g, GS, ov)
                w.frame([sw.g, s.x.reg, s.x.data, g])
        return w


gs_solve(False)
gs_solve(True)


# ------------------------------------------------------------------ conjugate gradient
CG = 'ConjugateGradientSleSolver'
AE = lambda i, j: T.app('A', [i, j], 'R')       # abbreviation: entry (i, j) of J W J^T


def cg_fields(w, sized=True):
    ov = {}
    regs = []
    for f in ('m_r', 'm_p', 'm_Ap', 'm_x', 'm_mreg0', 'm_mreg1'):
        o, d = M.rows_fields(w, f, V(f + '.w', 'I'), V(f + '.h', 'I'), f + '.')
        ov.update(o)
        regs.append(d)
    return ov, regs


@task('C15', CG + '::multiply')
def cg_multiply(E):
    w = E.world('multiply')
    M.install(w)
    S.install(w)
    s = Sys(w, 'other size', 'none')
    ov, regs = cg_fields(w)
    g = w.obj('cg', CG, ov)
    v = M.mat(w, 'v', I(1), N)
    w.run(w.fn(CG + '::multiply'), [P0(g), s.J.ptr, s.W.ptr, v.ptr, s.x.ptr])
    want = lambda r, c: T.Sum(lambda j: mul(s.A(r, j), v.e(j, I(0))), I(0), N)
    M.is_matrix(w, s.x.ptr, I(1), N, want, 'the product')
    w.frame([s.x.reg, s.x.data, g] + regs)
    return w


def small(err, t, me, mi):
    return le(T.fabs(err), T.fmax(T.fabs(mul(me, t)), mi))


@task('C15', CG + '::sufficientlySmall')
def cg_small(E):
    w = E.world('sufficientlySmall')
    x, t = M.mat(w, 'x', I(1), N), M.mat(w, 't', I(1), N)
    me, mi = V('maxError'), V('minError')
    g = w.obj('cg', CG, {'m_maxError': me, 'm_minError': mi})
    r = w.run(w.fn(CG + '::sufficientlySmall'), [P0(g), x.ptr, t.ptr])
    f = lambda i: small(x.e(i, I(0)), t.e(i, I(0)), me, mi)
    q = w.c.bound('q')
    w.ensure('accepted: every error is small', implies(w.ret, f(i_)), IN)
    w.ensure('accepts small errors', w.ret, [T.forall(q, implies(band(ge(q, I(0)), lt(q, N)), f(q)))])
    w.frame([])
    return w


class CgMultiply:
    def __init__(self, w, s):
        self.w, self.s = w, s
        self.g = w.obj('ghost', 'Constraint')
        w.st.mem[(self.g, 0)] = ('I64', I(0))
        self.cell = Ptr(self.g, I(0))

    def apply(self, ex, st, args, ins):
        w, s = self.w, self.s
        st = st.copy()
        this, J, W, x, target = args
        ob = lambda g, what: w.c.oblige(st, g, what, ins, 'pre')
        ob(band(ex.pcmp(st, 'eq', J, s.J.ptr), ex.pcmp(st, 'eq', W, s.W.ptr)), 'the matrix of the system')
        xw, xh = M.msize(ex, st, x)
        ob(band(eq(xw, I(1)), eq(xh, N)), 'one factor for every unknown')
        M.distinct(ex, st, x, target, 'separate target', ins)
        rd = M.reader(ex, st, x)
        st = M.assign(ex, st, target, I(1), N, lambda r, c: T.Sum(lambda j: mul(AE(r, j), rd(j, I(0), [ge(j, I(0)), lt(j, N)])), I(0), N), 'product', ins)
        ex.store1(st, self.cell, 'I64', add(ex.load1(st, self.cell, 'I64'), I(1)))
        return st, None


class CgSmall:
    def __init__(self, w, s, me, mi):
        self.w, self.s, self.me, self.mi = w, s, me, mi

    def apply(self, ex, st, args, ins):
        w = self.w
        this, x, t = args
        st = st.copy()
        ob = lambda g, what: w.c.oblige(st, g, what, ins, 'pre')
        xw, xh = M.msize(ex, st, x)
        tw, th = M.msize(ex, st, t)
        ob(band(eq(xw, I(1)), eq(tw, I(1)), eq(xh, th)), 'an error for every unknown')
        rx, rt = M.reader(ex, st, x), M.reader(ex, st, t)
        f = lambda i, fs=(): small(rx(i, I(0), fs), rt(i, I(0), fs), self.me, self.mi)
        ret = w.c.fresh('small', 'B')
        q = w.c.bound('q')
        at = w.c.fresh('large.at', 'I')
        rq = [ge(q, I(0)), lt(q, xh)]
        st.assume(bor(bnot(ret), T.forall(q, implies(band(*rq), f(q, rq)))),
                  bor(ret, band(ge(at, I(0)), lt(at, xh), bnot(f(at, [ge(at, I(0)), lt(at, xh)])))))
        return st, ret


def residual(rd, b, i):
    return sub(b(i), T.Sum(lambda j: mul(AE(i, j), rd(j, I(0), [ge(j, I(0)), lt(j, N)])), I(0), N))


@task('C15', CG + '::solve')
def cg_solve(E):
    for result in ('fits', 'other size'):
        for previous in ('none', 'result', 'fits', 'other size'):
            w = E.world('%s::solve (result: %s, previous: %s)' % (CG, result, previous))
            M.install(w)
            S.install(w)
            s = Sys(w, result, previous)
            if not (previous == 'fits' or previous == 'result' and result == 'fits'):
                s.start = lambda i: R(0)
            w.c.opaque_loops = True
            ma, me, mi = V('max', 'I'), V('maxError'), V('minError')
            w.assume(ge(ma, I(0)))
            ov, regs = cg_fields(w)
            ov.update({'m_maxIterations': ma, 'm_maxError': me, 'm_minError': mi})
            g = w.obj('cg', CG, ov)
            mu = CgMultiply(w, s)
            w.c.contracts[w.fn(CG + '::multiply')] = mu
            w.c.contracts[w.fn(CG + '::sufficientlySmall')] = CgSmall(w, s, me, mi)
            at = lambda f: Ptr(g, I(w.off(CG, f)))
            fn = w.fn(CG + '::solve')

            def res(ex, st):
                q = T.var('q@inv', 'I')
                rq = [ge(q, I(0)), lt(q, N)]
                rr, rx = M.reader(ex, st, at('m_r')), M.reader(ex, st, at('m_x'))
                return [T.forall(q, implies(band(*rq), eq(rr(q, I(0), rq), residual(rx, s.rhs, q))))]
            w.c.loop_invs.append(Inv('the residual is b - A x', fn, res))
            w.run(fn, [P0(g)] + s.args)
            rd = M.reader(w.ex, w.post, s.x.ptr)
            gw, gh = M.msize(w.ex, w.post, s.x.ptr)
            w.ensure('one unknown for every row', band(eq(gh, N), eq(gw, I(1))))
            w.ensure('success: the residual of the result is small', implies(w.ret, small(residual(rd, s.rhs, i_), s.rhs(i_), me, mi)), IN)
            q = w.c.bound('q')
            good = T.forall(q, implies(band(ge(q, I(0)), lt(q, N)), small(residual(lambda j, *_: s.start(j), s.rhs, q), s.rhs(q), me, mi)))
            w.ensure('a start that is good enough is the result', band(w.ret, eq(rd(i_, I(0)), s.start(i_))), IN + [good])
            K = w.ex.load1(w.post, mu.cell, 'I64')
            w.ensure('gives up only after the configured number of steps', bor(w.ret, ge(K, ma)))
            configured(w, g, CG, {'m_maxIterations': ma, 'm_maxError': me, 'm_minError': mi})
            w.frame([mu.g, s.x.reg, s.x.data, g] + regs)
    return w


def vec(ex, st, p):
    rd = M.reader(ex, st, p)
    return lambda q: rd(q, I(0), [ge(q, I(0)), lt(q, N)])


def prod(v):
    return lambda q: T.Sum(lambda j: mul(AE(q, j), v(j)), I(0), N)


def dot(u, v):
    return T.Sum(lambda q: mul(u(q), v(q)), I(0), N)


class CgDirections(CgMultiply):
    """the product, and (inside the loop) what the symmetry of A says about it: u.Av = v.Au"""

    def apply(self, ex, st, args, ins):
        v = vec(ex, st, args[3])
        us = [vec(ex, st, self.m_r), prod(v)]
        st, ret = CgMultiply.apply(self, ex, st, args, ins)
        for u in us if self.w.c.loopvars else []:
            st.assume(eq(dot(v, prod(u)), dot(u, prod(v))))
        return st, ret


@task('C15', CG + '::solve: search directions')
def cg_directions(E):
    """for a positive definite system every step minimises along its direction and the directions are
    conjugate (so that n of them solve the system)"""
    for result, previous in (('other size', 'none'), ('fits', 'result')):
        w = E.world('%s::solve: search directions (result: %s, previous: %s)' % (CG, result, previous))
        M.install(w)
        S.install(w)
        s = Sys(w, result, previous)
        w.c.opaque_loops = True
        ma, me, mi = V('max', 'I'), V('maxError'), V('minError')
        w.assume(ge(ma, I(0)))
        ov, regs = cg_fields(w)
        ov.update({'m_maxIterations': ma, 'm_maxError': me, 'm_minError': mi})
        g = w.obj('cg', CG, ov)
        at = lambda f: Ptr(g, I(w.off(CG, f)))
        mu = CgDirections(w, s)
        mu.m_r = at('m_r')
        fn = w.fn(CG + '::solve')
        w.c.contracts[w.fn(CG + '::multiply')] = mu
        w.c.contracts[w.fn(CG + '::sufficientlySmall')] = CgSmall(w, s, me, mi)
        rp = lambda ex, st: (vec(ex, st, at('m_r')), vec(ex, st, at('m_p')))

        def searched(ex, st):
            r, p = rp(ex, st)
            return [eq(dot(r, p), dot(r, r))]

        def conjugate(ex, st):
            r, p = rp(ex, st)
            return [eq(dot(r, prod(p)), dot(p, prod(p)))]

        def given(ex, st):
            r, p = rp(ex, st)
            return [ne(dot(r, r), R(0)), ne(dot(p, prod(p)), R(0))]
        used = lambda hs, ls: not same(hs.mem[(mu.g, 0)][1], ls.mem[(mu.g, 0)][1])
        w.c.loop_invs.append(Inv('the residual is orthogonal to the last direction', fn, searched, required=used))
        w.c.loop_invs.append(Inv('the directions are conjugate', fn, conjugate, required=used))
        def onward(ex, hs, ls):
            (_, p0), (_, p1) = rp(ex, hs), rp(ex, ls)
            return [eq(dot(p1, prod(p0)), R(0))]
        w.c.loop_invs.append(Progress('every direction is conjugate to the one before', fn, onward, required=used))
        w.c.loop_invs.append(Carried('square of the residual carried along', fn, lambda ex, st: (lambda r: dot(r, r))(vec(ex, st, at('m_r')))))
        w.c.loop_given.append(Inv('positive definite', fn, given))
        w.run(fn, [P0(g)] + s.args)
        w.ensure('returns', TRUE)
    return w


# ------------------------------------------------------------------ Gaussian elimination
GE = 'GaussianEliminationSleSolver'


class GeProduct:
    """contract of multiplyTranspose; its result is abbreviated to A(i, j)"""

    def __init__(self, w, s, real):
        self.w, self.s, self.real = w, s, real

    def apply(self, ex, st, args, ins):
        w, s = self.w, self.s
        r = self.real.apply(ex, st, args, ins)
        if r is NotImplemented:
            return r
        st, ret = r
        t = args[2]
        tw, th = M.msize(ex, st, t)
        ob = lambda g, what: w.c.oblige(st, g, what, ins, 'pre')
        ob(band(eq(tw, N), eq(th, N)), 'the matrix of the system is square')
        a, b = w.c.bound('r'), w.c.bound('c')
        rng = [ge(a, I(0)), lt(a, N), ge(b, I(0)), lt(b, N)]
        ob(implies(band(*rng), eq(M.reader(ex, st, t)(a, b, rng), s.A(a, b))), 'the matrix of the system is J W J^T')
        return M.assign(ex, st, t, N, N, AE, 'system', ins), ret


def counters(st):
    """local variables that are integers and zero"""
    return [k for k, e in st.mem.items() if isinstance(e, tuple) and e[0] in ('I32', 'I64') and k[0].uname.startswith('local') and isinstance(e[1], T.T) and T.const_int(e[1]) == 0]


def decisions(ls):
    """the conditions on which the values of local variables depend after an iteration"""
    out = []
    for k, e in ls.mem.items():
        a = T.single_atom(e[1]) if isinstance(e, tuple) and isinstance(e[1], T.T) and e[1].sort == 'I' and k[0].uname.startswith('local') else None
        if a is not None and a.op == 'ite' and not smt.is_int_fact(a.args[0]) and a.args[0].op in ('eq', 'not', 'le', 'lt'):
            c = a.args[0].args[0] if a.args[0].op == 'not' else a.args[0]
            if c not in out:
                out.append(c)
    return out[:2]


def cases(goals, cs):
    if not cs:
        return [((), g) for g in goals]
    c = cs[0]
    out = []
    for v, l in ((True, c), (False, bnot(c))):
        out += [((l,) + h, g) for h, g in cases([smt.assume_bool(x, c, v) for x in goals], cs[1:])]
    return out


class Form(Inv):
    def step(self, ex, hs, ls):
        return cases(self.at(ex, ls), decisions(ls))


class Echelon(Inv):
    """rows from c on are zero in the columns before d, row i before that in the columns before i;
    c and d are some local variables that start at zero"""

    def __init__(self, fn, p):
        Inv.__init__(self, '', fn, None, 0)
        self.p = p

    def expand(self, ex, st0):
        ks = counters(st0)
        return [Form('echelon form (%s, %s)' % (a[0].uname, b[0].uname), self.fn, lambda ex, st, a=a, b=b: self.form(ex, st, a, b)) for a in ks for b in ks]

    def form(self, ex, st, a, b):
        c, d = st.mem[a][1], st.mem[b][1]
        i, j = T.var('i@inv', 'I'), T.var('j@inv', 'I')
        rng = [ge(i, I(0)), lt(i, N), ge(j, I(0)), lt(j, N)]
        e = M.reader(ex, st, self.p)(i, j, rng)
        z = lambda k: T.forall(i, T.forall(j, implies(band(*rng, k), eq(e, R(0)))))
        return [le(c, d), z(band(lt(i, c), lt(j, i))), z(band(ge(i, c), lt(j, d)))]


Y = lambda j: T.app('solution', [j], 'R')       # an arbitrary vector


def row_error(rd, q, y=Y, cut=None, known=()):
    """row q of the augmented matrix: left side minus right side; the sum may be taken in three parts"""
    at = list(known) + [ge(q, I(0)), lt(q, N)]
    part = lambda a, b: T.Sum(lambda j: mul(rd(q, j, at + [ge(j, a), lt(j, b)]), y(j)), a, b)
    if cut is None:
        left = part(I(0), N)
    else:
        left = add(add(part(I(0), cut), part(add(cut, I(1)), N)), mul(rd(q, cut, at), y(cut)))
    return sub(left, rd(q, N, at))


class Equations(Inv):
    """a vector that satisfies every row of the matrix satisfies row any.row of the system.
    A step keeps this if every old row is a combination of new rows: old(q) = new(p) + c new(r); which rows
    and which c is searched among the row numbers and columns the loop uses"""

    def __init__(self, fn, p, b):
        Inv.__init__(self, 'solutions of the rows are solutions of the system', fn, self.form, 0)
        self.p, self.b, self.hits = p, b, {}

    def expand(self, ex, st0):
        return [self] if counters(st0) else []

    def goal(self):
        return eq(sub(T.Sum(lambda j: mul(AE(i_, j), Y(j)), I(0), N), self.b(i_)), R(0))

    def form(self, ex, st):
        q = T.var('q@inv', 'I')
        return [bor(bnot(T.forall(q, implies(band(ge(q, I(0)), lt(q, N)), eq(row_error(M.reader(ex, st, self.p), q), R(0))))), self.goal())]

    def start(self, ex, st):
        return [(tuple(IN) + (eq(row_error(M.reader(ex, st, self.p), i_), R(0)),), self.goal())]

    def step(self, ex, hs, ls):
        old, new = M.reader(ex, hs, self.p), M.reader(ex, ls, self.p)
        q, j = T.var('row.of.step', 'I'), T.var('column.of.step', 'I')
        base = (ge(q, I(0)), lt(q, N))
        a, b = old(q, j, base), new(q, j, base)
        out = []
        hy0 = ls.hyps() + list(base)
        for cs in splits(hy0, decisions(ls) + row_choices(a, b)):
            known = sure(cs)
            rows, cols = touched(a, known(b), q, j)
            for cs in [cs + x for x in splits(hy0 + list(cs), [lt(c, N) for c in cols])]:
                self.rows(out, base, hy0, cs, known, old, new, q, rows, cols)
        return out

    def rows(self, out, base, hy0, cs, known, old, new, q, rows, cols):
            done = []
            for r in rows:
                case = cs + tuple(done) + (eq(q, r),)
                out.append((base + case, self.combination(hy0 + list(case), known, old, new, r, rows, cols)))
                done.append(ne(q, r))
            for more in splits(hy0 + list(cs) + done, [lt(q, r) for r in rows]):
                case = cs + tuple(done) + more
                out.append((base + case, self.combination(hy0 + list(case), known, old, new, q, rows, cols)))

    def combination(self, hy, known, old, new, q, rows, cols):
        ps = [q] + [r for r in rows if r is not q]
        first = None
        ways = [(p, r, c) for p in ps for r in ps if r is not p for c in cols] + [(p, None, None) for p in ps]
        nr = dict((w, n) for n, w in enumerate(ways))
        for p, r, c in sorted(ways, key=lambda w: (-self.hits.get((len(ways), nr[w]), 0), nr[w])):
            cut = c if r is not None and smt.quick(hy, band(ge(c, I(0)), lt(c, N))) else None
            g = row_error(new, p, cut=cut)
            if r is not None:
                f = mul(old(q, c), T.inv(new(r, c)))
                g = add(g, mul(f, row_error(new, r, cut=cut)))
            g = decided(hy, known(eq(row_error(old, q, cut=cut), g)))
            if smt.prove(hy, g, 3000).ok:
                k = (len(ways), nr[p, r, c])
                self.hits[k] = self.hits.get(k, 0) + 1
                return g
            first = first or g
        return first


def decided(hy, g):
    """g with the conditions that hy decides replaced by their values"""
    for c in smt._conds(g):
        if smt.quick(hy, c):
            g = smt.assume_bool(g, c, True)
        elif smt.quick(hy, bnot(c)):
            g = smt.assume_bool(g, c, False)
    return g


def sure(cs):
    mp = {c: TRUE for c in cs if c.op != 'not'}
    mp.update({c.args[0]: FALSE for c in cs if c.op == 'not'})
    mp.update({bnot(c): FALSE for c in cs if bnot(c).op != 'not'})
    return lambda t: T._subst(t, mp, {})


def splits(hy, cs):
    """the possible combinations of the conditions"""
    if not cs:
        return [()]
    out = []
    for l in (cs[0], bnot(cs[0])):
        if l is not FALSE and not smt.quick(hy, bnot(l)):
            out += [(l,) + x for x in splits(hy + [l], cs[1:])]
    return out


def row_choices(old, new):
    """conditions that decide which rows of the old matrix the new one is made of"""
    names = T.symnames(old)
    out = []
    for x in T.atoms_of(new):
        if x.op == 'app' and x.args[0] in names and len(x.args) > 2:
            for c in smt._conds(x.args[-2]):
                if c.op != 'eq' and c not in out:
                    out.append(c)
    return out[:3]


def touched(old, new, q, j):
    """rows and columns of the old matrix on which element (q, j) of the new one depends"""
    qa, ja = T.single_atom(q), T.single_atom(j)
    names = T.symnames(old)
    rows, cols = [], []

    def leaves(t, out):
        a = T.single_atom(t)
        if a is not None and a.op == 'ite':
            leaves(a.args[1], out)
            leaves(a.args[2], out)
        elif not {qa, ja} & T.atoms_of(t) and t not in out:
            out.append(t)
    for x in T.atoms_of(new):
        if x.op == 'app' and x.args[0] in names and len(x.args) > 2:
            leaves(x.args[-2], rows)
            d = smt._divided(x.args[-1], 8)
            if d is not None:
                leaves(d, cols)
    for c in smt._conds(new):
        if c.op == 'eq' and c.args[0].sort == 'I':
            r = smt._scaled(c.args[0], qa)
            if r is not None and abs(r[0]) == 1 and ja not in T.atoms_of(r[1]):
                v = T.scale(r[1], -r[0])
                if v not in rows:
                    rows.append(v)
    return rows, cols


def pivots(rd):
    """no element on the diagonal is zero"""
    q = T.var('q@pivot', 'I')
    rng = (ge(q, I(0)), lt(q, N))
    return T.forall(q, implies(band(*rng), ne(rd(q, q, rng), R(0))))


def propagated(hy):
    """the hypotheses without the disjuncts that are known to be false, and without conditions known to hold"""
    out = []
    for h in hy:
        if h.op == 'or' and len(h.args) <= 3 and any(d.op == 'and' for d in h.args):
            rest = [d for d in h.args if not (smt.is_int_fact(d) and smt.quick(hy, bnot(d)))]
            h = bor(*rest)
        out += list(h.args) if h.op == 'and' else [h]
    mp = {}
    for h in out:
        if h.op not in ('forall', 'or'):
            mp[h] = T.TRUE
            if bnot(h).op != 'not':
                mp[bnot(h)] = FALSE
    return tuple(dict.fromkeys(h if h in mp else T._subst(h, mp, {}) for h in out))


def ge_solution(w, rd, x, given):
    """the values returned satisfy the system; rd reads the matrix of the solver, x the result"""
    st = w.post.copy()
    st.pc, st.facts = (), propagated(list(w.post.hyps()) + list(IN))
    hy = list(st.facts) + [pivots(rd)]
    last = sub(N, I(1))
    e = lambda kn, j: decided(kn, rd(i_, j, tuple(kn)))
    v = lambda kn, j: decided(kn, x(j, I(0), tuple(kn)))
    # back substitution
    for case in splits(hy, [lt(i_, last)]):
        kn = hy + list(case)
        kn.append(ne(e(kn, i_), R(0)))
        left = mul(e(kn, i_), v(kn, i_))
        goal = decided(kn, eq(left, e(kn, N)))
        above = smt.quick(kn, lt(i_, last))
        if above:
            # the rows above the last one use it: as one term of the sum, or as a value of its own
            inner = lambda j, end: kn + [gt(j, i_), lt(j, end)]
            part = lambda end: T.Sum(lambda j: mul(rd(i_, j, inner(j, end)), x(j, I(0), inner(j, end))), add(i_, I(1)), end)
            goal = decided(kn, eq(add(add(left, mul(e(kn, last), v(kn, last))), part(last)), e(kn, N)))
            if not smt.prove(kn, goal, 20000).ok:
                goal = decided(kn, eq(add(left, part(N)), e(kn, N)))
        w.ensure('row of the triangular system' + ('' if above else ' (last row)'), goal, kn, st)
        w.c.obls[-1].timeout = 20000
    j = T.var('j@below', 'I')
    below = [ge(j, I(0)), lt(j, i_)]
    zero = decided(hy + below, eq(rd(i_, j, hy + below), R(0)))
    w.ensure('zero below the diagonal', zero, hy + below, st)
    # from here on the arbitrary vector is the result
    el = lambda j: rd(i_, j, hy)
    tri = eq(add(T.Sum(lambda j: mul(rd(i_, j, hy + [gt(j, i_), lt(j, N)]), Y(j)), add(i_, I(1)), N), mul(el(i_), Y(i_))), el(N))
    low = T.forall(j, implies(band(*below), zero))
    left = decided(hy, eq(T.Sum(lambda j: mul(rd(i_, j, hy + [ge(j, I(0)), lt(j, i_)]), Y(j)), I(0), i_), R(0)))
    w.ensure('part of a row before the diagonal', left, hy + [low], st)
    w.ensure('row of the matrix', decided(hy, eq(row_error(rd, i_, cut=i_, known=hy), R(0))), hy + [decided(hy, tri), left], st)
    q = T.var('q@inv', 'I')
    rows = T.forall(q, implies(band(ge(q, I(0)), lt(q, N)), decided(hy, eq(row_error(rd, q, known=hy), R(0)))))
    st = st.copy()
    st.facts = tuple(T._subst(h, {rows: T.TRUE}, {}) for h in st.facts)
    w.ensure('the result satisfies the system', given.goal(), tuple(IN), st)


def ge_solve(result):
    def run(E):
        w = E.world('%s::solve (result: %s)' % (GE, result))
        M.install(w)
        S.install(w)
        s = Sys(w, result, 'none')
        fn = w.fn(GE + '::solve')
        ov, regs = {}, []
        for f in ('m_a', 'm_M'):
            o, d = M.rows_fields(w, f, V(f + '.w', 'I'), V(f + '.h', 'I'), f + '.')
            ov.update(o)
            regs.append(d)
        _, r1 = S.row_fields(w, 'reg', V('reg.nb', 'I'), V('reg.h', 'I'), 'm_reg.')
        g = w.obj('ge', GE, dict(ov, **r1))
        mt = w.fn(S.CN + '::multiplyTranspose')
        w.c.contracts[mt] = GeProduct(w, s, w.c.contracts[mt])
        at = Ptr(g, I(w.off(GE, 'm_a')))
        w.c.loop_invs.append(Echelon(fn, at))
        given = Equations(fn, at, s.rhs)
        w.c.loop_invs.append(given)
        w.c.aborts = lambda st: pivots(M.reader(w.ex, st, at))
        w.run(fn, [P0(g)] + s.args)
        gw, gh = M.msize(w.ex, w.post, s.x.ptr)
        w.ensure('one unknown for every row', band(eq(gh, N), eq(gw, I(1))))
        w.ensure('returns true', w.ret)
        w.frame([s.x.reg, s.x.data, g] + regs)
        ge_solution(w, M.reader(w.ex, w.post, at), M.reader(w.ex, w.post, s.x.ptr), given)
        return w
    return run


for r_ in ('fits', 'other size'):
    task('C14', '%s::solve (result: %s)' % (GE, r_))(ge_solve(r_))
