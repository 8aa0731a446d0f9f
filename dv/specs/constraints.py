"""C05 / C06: what every constraint reports to the solver."""
from .base import *

DMAX = None


def dmax():
    import sys
    return T.num(Fraction(sys.float_info.max), 'R')


class Q:
    """state variables of body k as read through the system state"""

    def __init__(self, idx):
        self.x, self.y, self.t = A('st.p_x', idx), A('st.p_y', idx), A('st.theta', idx)
        self.vx, self.vy, self.vt = A('st.v_x', idx), A('st.v_y', idx), A('st.v_theta', idx)

    def pos(self):
        return [self.x, self.y, self.t]

    def vel(self):
        return [self.vx, self.vy, self.vt]


def setup(E, cls, nb, conf, ground=False):
    w = E.world(cls + '::calculate')
    st = w.sysstate()
    idx = []
    bodies = []
    for k in range(nb):
        i = V('b%d.index' % k, 'I')
        idx.append(i)
        bodies.append(w.obj('b%d' % k, 'RigidBody', {'index': i}))
        if ground:
            w.assume(ge(i, I(-1)), lt(i, V('st.n', 'I')))
        else:
            w.assume(ge(i, I(0)), lt(i, V('st.n', 'I')))
    raw = w.obj('con', cls)
    ctor = w.fn('%s::%s' % (cls, cls))
    # the constructor runs first, then the public configuration
    w.c.suppress += 1
    s, _ = w.ex.call_function(ctor, [P0(raw)], w.st.copy())
    w.c.suppress -= 1
    if s is None:
        raise Spec('constructor of %s does not return' % cls)
    w.st = s
    w.ncon = w.get(s, raw, 'Constraint', 'm_constraintCount', 'I32')
    w.nbody = w.get(s, raw, 'Constraint', 'm_bodyCount', 'I32')
    for k in range(nb):
        w.ex.store1(s, Ptr(raw, I(w.off(cls, 'm_bodies') + 8 * k)), 'P', P0(bodies[k]))
    for f in conf:
        if f in ('m_neutral',):
            w.put(s, raw, cls, f, 'I8', V('con.' + f, 'I'))
            w.assume(ge(V('con.' + f, 'I'), I(0)), le(V('con.' + f, 'I'), I(1)))
        else:
            w.put(s, raw, cls, f, 'R', V('con.' + f))
    for k in list(s.mem):
        pass
    out = w.obj('out', 'Output')
    w.out, w.con, w.idx, w.cls, w.nb = out, raw, idx, cls, nb
    w.run(w.fn(cls + '::calculate'), [P0(raw), P0(out), P0(st)])
    if w.post is None:
        raise Spec('calculate never returns')
    w.frame([out])
    return w


def oget(w, what, *ix):
    o = w.dbg.fields('Output')[what]
    dims = {'C': (3,), 'J': (3, 6), 'J_dot': (3, 6), 'v_bias': (3,), 'limits': (3, 2), 'ks': (3,), 'kd': (3,)}[what]
    k = 0
    for d, i in zip(dims, ix):
        k = k * d + i
    return w.get(w.post, w.out, 'Output', o + 8 * k)


def finish(w, rows, C=None, Jspec=None, limits=None, ks=None, kd=None, v_bias=None):
    """C: geometric equations as functions of the state (position level) or None;
    Jspec: constant rows for velocity level constraints"""
    q = [Q(i) for i in w.idx]
    w.ensure('%s has %d equations' % (w.cls, rows), eq(w.ncon, I(rows)), tag='C06')
    w.ensure('%s acts on %d bodies' % (w.cls, w.nb), eq(w.nbody, I(w.nb)), tag='C06')
    pos = [x for b in q for x in b.pos()]
    vel = [x for b in q for x in b.vel()]
    for r in range(rows):
        c = oget(w, 'C', r)
        if C is not None:
            w.ensure_val('C[%d] is the geometric equation' % r, c, C[r], tag='C05')
            grad = [T.diff(C[r], x) for x in pos]
        else:
            w.ensure_val('C[%d] is zero (velocity constraint)' % r, c, R(0), tag='C05')
            grad = Jspec[r]
        for i in range(3 * w.nb):
            j = oget(w, 'J', r, i)
            w.ensure_val('J[%d][%d] is the derivative of equation %d' % (r, i, r), j, grad[i], tag='C05')
            jd = R(0)
            for x, v in zip(pos, vel):
                jd = jd + T.diff(grad[i], x) * v
            w.ensure_val('J_dot[%d][%d] is the time derivative of J[%d][%d]' % (r, i, r, i), oget(w, 'J_dot', r, i), jd, tag='C05')
        w.ensure_val('v_bias[%d] is the configured one' % r, oget(w, 'v_bias', r), v_bias[r] if v_bias else R(0), tag='C06')
        w.ensure_val('ks[%d] is the configured one' % r, oget(w, 'ks', r), ks[r], tag='C06')
        w.ensure_val('kd[%d] is the configured one' % r, oget(w, 'kd', r), kd[r], tag='C06')
        lo, hi = limits[r]
        w.ensure_val('lower limit of equation %d is the configured one' % r, oget(w, 'limits', r, 0), lo, tag='C06')
        w.ensure_val('upper limit of equation %d is the configured one' % r, oget(w, 'limits', r, 1), hi, tag='C06')
    return w


def cv(f):
    return V('con.' + f)


NOLIM = lambda: (neg(dmax()), dmax())


@task('C05 C06', 'LinkConstraint::calculate')
def link(E):
    w = setup(E, 'LinkConstraint', 2, ['m_maxForce', 'm_local_x_1', 'm_local_y_1', 'm_local_x_2', 'm_local_y_2', 'm_ks', 'm_kd'])
    a, b = Q(w.idx[0]), Q(w.idx[1])
    ax, ay = rot(a.t, cv('m_local_x_1'), cv('m_local_y_1'))
    bx, by = rot(b.t, cv('m_local_x_2'), cv('m_local_y_2'))
    C = [a.x + ax - b.x - bx, a.y + ay - b.y - by]
    m = cv('m_maxForce')
    return finish(w, 2, C, limits=[(neg(m), m)] * 2, ks=[cv('m_ks')] * 2, kd=[cv('m_kd')] * 2)


@task('C05 C06', 'FixedPositionConstraint::calculate')
def fixedpos(E):
    w = setup(E, 'FixedPositionConstraint', 1, ['m_local_x', 'm_local_y', 'm_world_x', 'm_world_y', 'm_ks', 'm_kd'])
    a = Q(w.idx[0])
    ax, ay = rot(a.t, cv('m_local_x'), cv('m_local_y'))
    return finish(w, 2, [a.x + ax - cv('m_world_x'), a.y + ay - cv('m_world_y')], limits=[NOLIM()] * 2, ks=[cv('m_ks')] * 2, kd=[cv('m_kd')] * 2)


@task('C05 C06', 'FixedRotationConstraint::calculate')
def fixedrot(E):
    w = setup(E, 'FixedRotationConstraint', 1, ['m_rotation', 'm_ks', 'm_kd'])
    a = Q(w.idx[0])
    return finish(w, 1, [a.t - cv('m_rotation')], limits=[NOLIM()], ks=[cv('m_ks')], kd=[cv('m_kd')])


@task('C05 C06', 'LineConstraint::calculate')
def line(E):
    w = setup(E, 'LineConstraint', 1, ['m_local_x', 'm_local_y', 'm_p0_x', 'm_p0_y', 'm_dx', 'm_dy', 'm_ks', 'm_kd'])
    a = Q(w.idx[0])
    ax, ay = rot(a.t, cv('m_local_x'), cv('m_local_y'))
    # signed distance (times |d|) from the line through p0 along d
    C = cv('m_dx') * (a.y + ay - cv('m_p0_y')) - cv('m_dy') * (a.x + ax - cv('m_p0_x'))
    return finish(w, 1, [C], limits=[NOLIM()], ks=[cv('m_ks')], kd=[cv('m_kd')])


@task('C05 C06', 'RollingConstraint::calculate')
def rolling(E):
    w = setup(E, 'RollingConstraint', 2, ['m_local_x', 'm_local_y', 'm_dx', 'm_dy', 'm_radius', 'm_ks', 'm_kd'])
    a, b = Q(w.idx[0]), Q(w.idx[1])
    ox, oy = rot(a.t, cv('m_local_x'), cv('m_local_y'))
    dx, dy = rot(a.t, cv('m_dx'), cv('m_dy'))
    ex, ey = b.x - a.x - ox, b.y - a.y - oy
    s = ex * dx + ey * dy                  # distance travelled along the surface
    h = ey * dx - ex * dy                  # height of the centre above the surface
    C = [neg((b.t - a.t) * cv('m_radius')) - s, cv('m_radius') - h]
    return finish(w, 2, C, limits=[NOLIM()] * 2, ks=[R(0), cv('m_ks')], kd=[R(0), cv('m_kd')])


@task('C05 C06', 'SimpleGearConstraint::calculate')
def gear(E):
    w = setup(E, 'SimpleGearConstraint', 2, ['m_ratio', 'm_neutral', 'm_ks', 'm_kd'], ground=True)
    z = R(0)
    ng = ne(V('con.m_neutral', 'I'), I(0))
    return finish(w, 1, None, [[z, z, R(1), z, z, neg(cv('m_ratio'))]], limits=[(ite(ng, z, neg(dmax())), ite(ng, z, dmax()))], ks=[cv('m_ks')], kd=[cv('m_kd')])


@task('C05 C06', 'ClutchConstraint::calculate')
def clutch(E):
    w = setup(E, 'ClutchConstraint', 2, ['m_minTorque', 'm_maxTorque', 'm_ks', 'm_kd'], ground=True)
    z = R(0)
    return finish(w, 1, None, [[z, z, R(-1), z, z, R(1)]], limits=[(cv('m_minTorque'), cv('m_maxTorque'))], ks=[cv('m_ks')], kd=[cv('m_kd')])


@task('C05 C06', 'RotationFrictionConstraint::calculate')
def friction(E):
    w = setup(E, 'RotationFrictionConstraint', 1, ['m_minTorque', 'm_maxTorque', 'm_ks', 'm_kd'], ground=True)
    return finish(w, 1, None, [[R(0), R(0), R(1)]], limits=[(cv('m_minTorque'), cv('m_maxTorque'))], ks=[cv('m_ks')], kd=[cv('m_kd')])


@task('C05 C06', 'ConstantRotationConstraint::calculate')
def constrot(E):
    w = setup(E, 'ConstantRotationConstraint', 1, ['m_rotationSpeed', 'm_minTorque', 'm_maxTorque', 'm_ks', 'm_kd'], ground=True)
    return finish(w, 1, None, [[R(0), R(0), R(1)]], limits=[(cv('m_minTorque'), cv('m_maxTorque'))], ks=[cv('m_ks')], kd=[cv('m_kd')], v_bias=[cv('m_rotationSpeed')])


@task('C06', 'configuration setters')
def setters(E):
    ws = []
    for cls, m, fs in [('LinkConstraint', 'setLocalPosition1', ['m_local_x_1', 'm_local_y_1']), ('LinkConstraint', 'setLocalPosition2', ['m_local_x_2', 'm_local_y_2']),
                       ('FixedPositionConstraint', 'setWorldPosition', ['m_world_x', 'm_world_y']), ('FixedPositionConstraint', 'setLocalPosition', ['m_local_x', 'm_local_y'])]:
        w = E.world('%s::%s' % (cls, m))
        o = w.obj('con', cls)
        w.run(w.fn('%s::%s' % (cls, m)), [P0(o), V('x'), V('y')])
        for f, v in zip(fs, 'xy'):
            w.ensure_val('sets %s' % f, w.get(w.post, o, cls, f), V(v))
        w.frame([(o, w.off(cls, f)) for f in fs])
        ws.append(w)
    return ws
