"""C11, C12: the integrators."""
from .base import *
from .state import CopyContract, null_state

KIN = [('p_x', 'v_x', 'a_x'), ('p_y', 'v_y', 'a_y'), ('theta', 'v_theta', 'a_theta')]


def element(w, sreg, f, i, n, st=None):
    rng = [ge(i, I(0)), lt(i, n)]
    p = w.get(st or w.post, sreg, 'SystemState', f, 'P')
    return w.at(st or w.post, p, i, 'R', rng), rng


def arrays(w, st, sreg, fs):
    return [w.get(st.copy(), sreg, 'SystemState', f, 'P').reg for f in fs]


def one_step(E, cls, nsv):
    w = E.world(cls + ': start, step, solve')
    st = w.sysstate()
    o = w.obj('ode', cls)
    dt = V('dt')
    m, _ = w.run(w.fn(cls + '::start'), [P0(o), P0(st), dt])
    w.frame([o])
    w.st = m
    m, r = w.run(w.fn(cls + '::step'), [P0(o), P0(st)])
    w.ensure('one evaluation per step', iff(r, TRUE) if r.sort == 'B' else eq(r, I(1)))
    w.ensure_val('the evaluation sees the full time step', w.get(w.post, st, 'SystemState', 'dt'), dt)
    w.frame([(st, w.off('SystemState', 'dt'))])
    # anything may happen to accelerations between step and solve
    w.st = w.post
    m, _ = w.run(w.fn(cls + '::solve'), [P0(o), P0(st)])
    n = V('st.n', 'I')
    for p, v, a in KIN:
        i = V('any.' + p, 'I')
        got, rng = element(w, st, v, i, n)
        vn = A('st.' + v, i) + A('st.' + a, i) * dt
        w.ensure_val('%s advances by the acceleration' % v, got, vn, rng)
        got, rng = element(w, st, p, i, n)
        w.ensure_val('%s advances by the %s velocity' % (p, 'new' if nsv else 'old'), got, A('st.' + p, i) + (vn if nsv else A('st.' + v, i)) * dt, rng)
    w.frame(arrays(w, w.pre, st, [f for t in KIN for f in t[:2]]) + [(st, w.off('SystemState', 'dt'))])
    w.st = w.post
    m, _ = w.run(w.fn(cls + '::end'), [P0(o)])
    w.frame([o])
    return w


@task('C11', 'EulerOdeSolver')
def euler(E):
    return one_step(E, 'EulerOdeSolver', False)


@task('C11', 'NsvOdeSolver')
def nsv(E):
    return one_step(E, 'NsvOdeSolver', True)


def rk4_arrays():
    return [f for t in KIN for f in t]


@task('C12', 'Rk4OdeSolver: start and four evaluations')
def rk4(E):
    """the whole step: between step() and solve() the forces of that stage are evaluated, which may set the
    accelerations and reactions to anything"""
    cls = 'Rk4OdeSolver'
    w = E.world('Rk4OdeSolver: one time step')
    w.c.contracts[w.fn('SystemState::copy')] = CopyContract(w)
    st = w.sysstate()
    ov = {}
    w.sysstate('init', prefix='m_initialState.', into=ov)
    w.sysstate('acc', prefix='m_accumulator.', into=ov)
    o = w.obj('ode', cls, ov)
    dt = V('dt')
    n, nc = V('st.n', 'I'), V('st.n_c', 'I')
    m, _ = w.run(w.fn(cls + '::start'), [P0(o), P0(st), dt])
    w.frame([o] + [q.reg for f, q in ov.items() if isinstance(q, Ptr)])
    acc = {}
    half = dt * T.num(Fraction(1, 2), 'R')
    # classic Runge-Kutta: stage times and weights
    coef = [R(0), half, half, dt]
    wts = [1, 2, 2, 1]

    def k_of(i):
        """derivatives at every stage, for body i"""
        st_ = {}
        ks = []
        for s in range(4):
            x = {}
            for p, v, a in KIN:
                if s == 0:
                    x[p], x[v] = A('st.' + p, i), A('st.' + v, i)
                else:
                    kp = ks[s - 1]
                    x[p] = A('st.' + p, i) + coef[s] * kp[p]
                    x[v] = A('st.' + v, i) + coef[s] * kp[v]
            k = {}
            for p, v, a in KIN:
                k[p] = x[v]
                k[v] = A('stage%d.%s' % (s, a), i)
            ks.append(k)
            yield x, k
    for s in range(4):
        w.st = w.post
        m, r = w.run(w.fn(cls + '::step'), [P0(o), P0(st)])
        last = r if r.sort == 'B' else ne(r, I(0))
        w.ensure('evaluation %d %s the last one' % (s + 1, 'is' if s == 3 else 'is not'), last if s == 3 else bnot(last))
        w.ensure_val('evaluation %d is at the classic time' % (s + 1), w.get(w.post, st, 'SystemState', 'dt'), coef[s])
        i = V('any', 'I')
        x, k = list(k_of(i))[s]
        for p, v, a in KIN:
            for f in (p, v):
                got, rng = element(w, st, f, i, n)
                w.ensure_val('%s of the state at which evaluation %d happens' % (f, s + 1), got, x[f], rng)
        w.frame(arrays(w, w.pre, st, [f for t in KIN for f in t[:2]]) + [(st, w.off('SystemState', 'dt')), o])
        # evaluation: new accelerations and reactions
        m = w.post.copy()
        for t in KIN:
            havoc(w, m, st, t[2], 'stage%d.%s' % (s, t[2]))
        for f in w.ST_CON:
            havoc(w, m, st, f, 'stage%d.%s' % (s, f))
        w.st = m
        w.run(w.fn(cls + '::solve'), [P0(o), P0(st)])
    i = V('any', 'I')
    ks = [k for _, k in k_of(i)]
    for p, v, a in KIN:
        for f in (p, v):
            got, rng = element(w, st, f, i, n)
            spec = A('st.' + f, i)
            for s in range(4):
                spec = spec + dt * T.num(Fraction(wts[s], 6), 'R') * ks[s][f]
            w.ensure_val('%s after the step is the classic combination' % f, got, spec, rng)
    for f in w.ST_CON:
        got, rng = element(w, st, f, i, scale_i(nc, 2))
        spec = R(0)
        for s in range(4):
            spec = spec + T.num(Fraction(wts[s], 6), 'R') * A('stage%d.%s' % (s, f), i)
        w.ensure_val('%s after the step is the weighted average over the stages' % f, got, spec, rng)
    w.frame(arrays(w, w.pre, st, [f for t in KIN for f in t[:2]] + w.ST_CON) + [(st, w.off('SystemState', 'dt')), o])
    w.st = w.post
    w.run(w.fn(cls + '::end'), [P0(o)])
    w.frame([o])
    return w


def havoc(w, st, sreg, f, name):
    p = w.get(st, sreg, 'SystemState', f, 'P')
    st.mem[(p.reg, 'a')] = Chain(lambda key, idx, off, kind: T.app(name, [idx], 'R'))


@task('C12', 'Rk4OdeSolver construction and destruction')
def rk4_life(E):
    cls = 'Rk4OdeSolver'
    ws = []
    w = E.world('Rk4OdeSolver: construct, destruct')
    o = w.obj('ode', cls)
    w.run(w.fn('Rk4OdeSolver::Rk4OdeSolver'), [P0(o)])
    w.st = w.post
    w.run(w.fn('Rk4OdeSolver::~Rk4OdeSolver'), [P0(o)])
    w.ensure('returns', TRUE if w.post is not None else FALSE, st=w.pre)
    ws.append(w)
    w = E.world('Rk4OdeSolver: destruct after use')
    ov = {}
    w.sysstate('init', prefix='m_initialState.', into=ov)
    w.sysstate('acc', prefix='m_accumulator.', into=ov)
    o = w.obj('ode', cls, ov)
    w.run(w.fn('Rk4OdeSolver::~Rk4OdeSolver'), [P0(o)])
    w.ensure('returns', TRUE if w.post is not None else FALSE, st=w.pre)
    for f, p in ov.items():
        if isinstance(p, Ptr):
            w.ensure('%s is released' % f, w.post.freed.get(p.reg, FALSE))
    ws.append(w)
    return ws
