"""C07-C10: coordinate transforms, force application, force generators, energy."""
from .base import *


def pt(w, name):
    """out parameter"""
    return w.array(name, I(1), 'R')


BODY = ['p_x', 'p_y', 'v_x', 'v_y', 'theta', 'v_theta', 'm', 'I']


def bv(b, f):
    return V('%s.%s' % (b, f))


@task('C07', 'RigidBody::localToWorld')
def b_l2w(E):
    w = E.world('RigidBody::localToWorld')
    b = w.obj('b', 'RigidBody')
    ox, oy = pt(w, 'ox'), pt(w, 'oy')
    w.run(w.fn('RigidBody::localToWorld'), [P0(b), V('x'), V('y'), ox, oy])
    rx, ry = rot(bv('b', 'theta'), V('x'), V('y'))
    w.ensure_val('x = p_x + (R(theta) l)_x', w.at(w.post, ox, 0), bv('b', 'p_x') + rx)
    w.ensure_val('y = p_y + (R(theta) l)_y', w.at(w.post, oy, 0), bv('b', 'p_y') + ry)
    w.frame([ox.reg, oy.reg])
    return w


@task('C07', 'RigidBody::worldToLocal')
def b_w2l(E):
    w = E.world('RigidBody::worldToLocal')
    b = w.obj('b', 'RigidBody')
    ox, oy = pt(w, 'ox'), pt(w, 'oy')
    w.run(w.fn('RigidBody::worldToLocal'), [P0(b), V('x'), V('y'), ox, oy])
    dx, dy, t = V('x') - bv('b', 'p_x'), V('y') - bv('b', 'p_y'), bv('b', 'theta')
    w.ensure_val('x = (R(-theta)(w - p))_x', w.at(w.post, ox, 0), cos(t) * dx + sin(t) * dy)
    w.ensure_val('y = (R(-theta)(w - p))_y', w.at(w.post, oy, 0), cos(t) * dy - sin(t) * dx)
    w.frame([ox.reg, oy.reg])
    return w


@task('C07', 'round trip of the transforms of a body')
def b_round(E):
    ws = []
    for first, second in (('localToWorld', 'worldToLocal'), ('worldToLocal', 'localToWorld')):
        w = E.world('RigidBody::%s then %s' % (first, second))
        b = w.obj('b', 'RigidBody')
        ox, oy, qx, qy = pt(w, 'ox'), pt(w, 'oy'), pt(w, 'qx'), pt(w, 'qy')
        m, _ = w.run(w.fn('RigidBody::' + first), [P0(b), V('x'), V('y'), ox, oy])
        pre = w.pre
        w.st = m
        w.run(w.fn('RigidBody::' + second), [P0(b), w.at(m, ox, 0), w.at(m, oy, 0), qx, qy])
        w.ensure_val('x comes back', w.at(w.post, qx, 0), V('x'))
        w.ensure_val('y comes back', w.at(w.post, qy, 0), V('y'))
        # distances are kept: second point
        rx, ry, sx, sy = pt(w, 'rx'), pt(w, 'ry'), None, None
        w.st = w.post
        w.run(w.fn('RigidBody::' + first), [P0(b), V('x2'), V('y2'), rx, ry])
        dx = w.at(w.post, rx, 0) - w.at(w.post, ox, 0)
        dy = w.at(w.post, ry, 0) - w.at(w.post, oy, 0)
        ex, ey = V('x2') - V('x'), V('y2') - V('y')
        w.ensure_val('%s keeps distances' % first, dx * dx + dy * dy, ex * ex + ey * ey)
        ws.append(w)
    return ws


def st_body(w, name='body'):
    i = V(name, 'I')
    w.assume(ge(i, I(0)), lt(i, V('st.n', 'I')))
    return i


@task('C07', 'SystemState::localToWorld')
def s_l2w(E):
    w = E.world('SystemState::localToWorld')
    st = w.sysstate()
    i = st_body(w)
    ox, oy = pt(w, 'ox'), pt(w, 'oy')
    w.run(w.fn('SystemState::localToWorld'), [P0(st), V('x'), V('y'), ox, oy, i])
    rx, ry = rot(A('st.theta', i), V('x'), V('y'))
    w.ensure_val('x = p_x + (R(theta) l)_x', w.at(w.post, ox, 0), A('st.p_x', i) + rx)
    w.ensure_val('y = p_y + (R(theta) l)_y', w.at(w.post, oy, 0), A('st.p_y', i) + ry)
    w.frame([ox.reg, oy.reg])
    return w


@task('C07', 'SystemState::velocityAtPoint')
def s_vel(E):
    w = E.world('SystemState::velocityAtPoint')
    st = w.sysstate()
    i = st_body(w)
    ox, oy = pt(w, 'ox'), pt(w, 'oy')
    w.run(w.fn('SystemState::velocityAtPoint'), [P0(st), V('x'), V('y'), ox, oy, i])
    # time derivative of the world position of the point
    px, py, th = A('st.p_x', i), A('st.p_y', i), A('st.theta', i)
    rx, ry = rot(th, V('x'), V('y'))
    for nm, o, pos in (('x', ox, px + rx), ('y', oy, py + ry)):
        d = T.diff(pos, px) * A('st.v_x', i) + T.diff(pos, py) * A('st.v_y', i) + T.diff(pos, th) * A('st.v_theta', i)
        w.ensure_val('v_%s is the time derivative of the world position of the point' % nm, w.at(w.post, o, 0), d)
    w.frame([ox.reg, oy.reg])
    return w


def forces_are(w, sreg, spec, tag=None):
    """spec(i) -> (fx, fy, t) added to body i, for every body"""
    i = V('any.i', 'I')
    rng = [ge(i, I(0)), lt(i, V('st.n', 'I'))]
    fx, fy, t = spec(i)
    for f, d, nm in (('f_x', fx, 'force x'), ('f_y', fy, 'force y'), ('t', t, 'torque')):
        p = w.get(w.post, sreg, 'SystemState', f, 'P')
        w.ensure_val('%s of every body changes by exactly the specified amount' % nm, w.at(w.post, p, i, 'R', rng), A('st.' + f, i) + d, rng, tag=tag)
    al = [w.get(w.pre.copy(), sreg, 'SystemState', f, 'P').reg for f in ('f_x', 'f_y', 't')]
    w.frame(al, tag=tag)


def at_point(i, lx, ly, fx, fy):
    """force and torque of a force applied at the local point of body i"""
    rx, ry = rot(A('st.theta', i), lx, ly)
    return fx, fy, rx * fy - ry * fx


@task('C08', 'SystemState::applyForce')
def s_apply(E):
    w = E.world('SystemState::applyForce')
    st = w.sysstate()
    b = st_body(w)
    w.run(w.fn('SystemState::applyForce'), [P0(st), V('x'), V('y'), V('fx'), V('fy'), b])
    fx, fy, t = at_point(b, V('x'), V('y'), V('fx'), V('fy'))
    forces_are(w, st, lambda i: tuple(ite(eq(i, b), v, R(0)) for v in (fx, fy, t)))
    return w


@task('C09', 'GravityForceGenerator::apply')
def gravity(E):
    w = E.world('GravityForceGenerator::apply')
    st = w.sysstate()
    g = w.obj('gen', 'GravityForceGenerator')
    w.run(w.fn('GravityForceGenerator::apply'), [P0(g), P0(st)])
    forces_are(w, st, lambda i: (R(0), neg(A('st.m', i) * V('gen.m_g')), R(0)))
    return w


@task('C09', 'GravityForceGenerator default')
def gravity0(E):
    w = E.world('GravityForceGenerator::GravityForceGenerator')
    g = w.obj('gen', 'GravityForceGenerator')
    w.run(w.fn('GravityForceGenerator::GravityForceGenerator'), [P0(g)])
    w.ensure_val('standard gravity', w.get(w.post, g, 'GravityForceGenerator', 'm_g'), T.num(Fraction(9.81), 'R'))
    return w


@task('C09', 'StaticForceGenerator::apply')
def static(E):
    w = E.world('StaticForceGenerator::apply')
    st = w.sysstate()
    bi = V('b.index', 'I')
    w.assume(ge(bi, I(0)), lt(bi, V('st.n', 'I')))
    b = w.obj('b', 'RigidBody', {'index': bi})
    g = w.obj('gen', 'StaticForceGenerator', {'m_body': P0(b)})
    w.run(w.fn('StaticForceGenerator::apply'), [P0(g), P0(st)])
    gv = lambda f: V('gen.' + f)
    v = at_point(bi, gv('m_p_x'), gv('m_p_y'), gv('m_f_x'), gv('m_f_y'))
    forces_are(w, st, lambda i: tuple(ite(eq(i, bi), x, R(0)) for x in v))
    return w


@task('C09', 'StaticForceGenerator setters')
def static_set(E):
    ws = []
    for m, fs in (('setForce', ['m_f_x', 'm_f_y']), ('setPosition', ['m_p_x', 'm_p_y'])):
        w = E.world('StaticForceGenerator::' + m)
        g = w.obj('gen', 'StaticForceGenerator')
        w.run(w.fn('StaticForceGenerator::' + m), [P0(g), V('x'), V('y')])
        for f, v in zip(fs, 'xy'):
            w.ensure_val('sets ' + f, w.get(w.post, g, 'StaticForceGenerator', f), V(v))
        w.frame([(g, w.off('StaticForceGenerator', f)) for f in fs])
        ws.append(w)
    return ws


def two_bodies(w, shared=False):
    """two bodies, or one body in both places"""
    out = []
    if shared:
        i = V('b1.index', 'I')
        w.assume(ge(i, I(-1)), lt(i, V('st.n', 'I')))
        return [(i, w.obj('b1', 'RigidBody', {'index': i}))] * 2
    for k in (1, 2):
        i = V('b%d.index' % k, 'I')
        w.assume(ge(i, I(-1)), lt(i, V('st.n', 'I')))
        out.append((i, w.obj('b%d' % k, 'RigidBody', {'index': i})))
    return out


def spring_ends(bs, state=True):
    """world position and velocity of both attachment points (a ground body is at rest)"""
    ends = []
    for k, (i, b) in enumerate(bs, 1):
        lx, ly = V('gen.m_p%d_x' % k), V('gen.m_p%d_y' % k)
        g = eq(i, I(-1)) if state else TRUE
        bn = 'b%d' % k
        th = ite(g, V(bn + '.theta'), A('st.theta', i)) if state else V(bn + '.theta')

        def pick(bf, sf):
            return ite(g, V('%s.%s' % (bn, bf)), A('st.' + sf, i)) if state else V('%s.%s' % (bn, bf))
        rx, ry = rot(th, lx, ly)
        x, y = pick('p_x', 'p_x') + rx, pick('p_y', 'p_y') + ry
        om = ite(g, R(0), A('st.v_theta', i))
        vx = ite(g, R(0), A('st.v_x', i)) - om * ry
        vy = ite(g, R(0), A('st.v_y', i)) + om * rx
        ends.append((x, y, vx, vy, lx, ly))
    return ends


@task('C09', 'Spring::apply')
def spring(E):
    ws = []
    z = R(0)
    for g1 in (False, True):
        for g2, shared in ((False, False), (True, False), (g1, True)):
            w = E.world('Spring::apply (%s, %s)' % ('ground' if g1 else 'body', 'the same' if shared else 'ground' if g2 else 'body'))
            st = w.sysstate()
            bs = two_bodies(w, shared)
            name = lambda k: 'b1' if shared else 'b%d' % k
            ends = []
            for k, ((i, b), g) in enumerate(zip(bs, (g1, g2)), 1):
                w.assume(eq(i, I(-1)) if g else ge(i, I(0)))
                lx, ly = V('gen.m_p%d_x' % k), V('gen.m_p%d_y' % k)
                if g:
                    rx, ry = rot(V(name(k) + '.theta'), lx, ly)
                    ends.append((V(name(k) + '.p_x') + rx, V(name(k) + '.p_y') + ry, z, z, lx, ly))
                else:
                    rx, ry = rot(A('st.theta', i), lx, ly)
                    om = A('st.v_theta', i)
                    ends.append((A('st.p_x', i) + rx, A('st.p_y', i) + ry, A('st.v_x', i) - om * ry, A('st.v_y', i) + om * rx, lx, ly))
            gen = w.obj('gen', 'Spring', {'m_body1': P0(bs[0][1]), 'm_body2': P0(bs[1][1])})
            w.run(w.fn('Spring::apply'), [P0(gen), P0(st)])
            (x1, y1, vx1, vy1, lx1, ly1), (x2, y2, vx2, vy2, lx2, ly2) = ends
            dx, dy = x2 - x1, y2 - y1
            l = T.fn1('sqrt', dx * dx + dy * dy)
            far = ge(l, T.num(Fraction(0.01), 'R'))
            ux, uy = ite(far, dx * T.inv(l), z), ite(far, dy * T.inv(l), z)
            ks, kd, L0 = V('gen.m_ks'), V('gen.m_kd'), V('gen.m_restLength')
            F = ux * (l - L0) * ks + (vx2 - vx1) * kd, uy * (l - L0) * ks + (vy2 - vy1) * kd
            # on body 1 the force F, on body 2 the opposite force; nothing on the ground
            i1, i2 = bs[0][0], bs[1][0]
            a = at_point(i1, lx1, ly1, F[0], F[1])
            b = at_point(i2, lx2, ly2, neg(F[0]), neg(F[1]))

            def spec(i):
                return tuple((z if g1 else ite(eq(i, i1), p, z)) + (z if g2 else ite(eq(i, i2), q, z)) for p, q in zip(a, b))
            forces_are(w, st, spec)
            ws.append(w)
    for which in ('m_body1', 'm_body2'):
        w = E.world('Spring::apply without %s' % which)
        st = w.sysstate()
        bs = two_bodies(w)
        ov = {'m_body1': P0(bs[0][1]), 'm_body2': P0(bs[1][1])}
        ov[which] = NULL
        gen = w.obj('gen', 'Spring', ov)
        w.run(w.fn('Spring::apply'), [P0(gen), P0(st)])
        forces_are(w, st, lambda i: (z, z, z))
        ws.append(w)
    return ws


@task('C09', 'ConstantSpeedMotor::apply')
def motor(E):
    w = E.world('ConstantSpeedMotor::apply')
    st = w.sysstate()
    i0, i1 = V('b0.index', 'I'), V('b1.index', 'I')
    n = V('st.n', 'I')
    w.assume(ge(i0, I(-1)), lt(i0, n), ge(i1, I(0)), lt(i1, n))
    w.assume(ge(V('gen.m_maxTorque'), R(0)))        # a maximum is not negative
    b0, b1 = w.obj('b0', 'RigidBody', {'index': i0}), w.obj('b1', 'RigidBody', {'index': i1})
    gen = w.obj('gen', 'ConstantSpeedMotor', {'m_body0': P0(b0), 'm_body1': P0(b1)})
    w.run(w.fn('ConstantSpeedMotor::apply'), [P0(gen), P0(st)])
    g = eq(i0, I(-1))
    z = R(0)
    rv = A('st.v_theta', i1) - ite(g, z, A('st.v_theta', i0))
    ra = A('st.a_theta', i1) - ite(g, z, A('st.a_theta', i0))
    mt = V('gen.m_maxTorque')
    tq = (V('gen.m_speed') - rv) * V('gen.m_ks') - ra * V('gen.m_kd')
    lim = T.fmin(mt, T.fmax(neg(mt), tq))
    forces_are(w, st, lambda i: (z, z, ite(eq(i, i1), lim, z) - ite(band(bnot(g), eq(i, i0)), lim, z)))
    # the torque never exceeds the configured maximum
    i = V('any.j', 'I')
    p = w.get(w.post, st, 'SystemState', 't', 'P')
    ass = [ge(mt, z), ne(i0, i1)]
    d = w.at(w.post, p, i1, 'R') - A('st.t', i1)
    w.ensure('torque on the driven body is at most the maximum', band(le(d, mt), ge(d, neg(mt))), ass)
    return w


@task('C09', 'ConstantSpeedMotor::apply between a body and itself')
def motor_self(E):
    w = E.world('ConstantSpeedMotor::apply (the same body)')
    st = w.sysstate()
    i = V('b.index', 'I')
    w.assume(ge(i, I(0)), lt(i, V('st.n', 'I')), ge(V('gen.m_maxTorque'), R(0)))
    b = w.obj('b', 'RigidBody', {'index': i})
    gen = w.obj('gen', 'ConstantSpeedMotor', {'m_body0': P0(b), 'm_body1': P0(b)})
    w.run(w.fn('ConstantSpeedMotor::apply'), [P0(gen), P0(st)])
    z = R(0)
    forces_are(w, st, lambda i: (z, z, z))
    return w


@task('C10', 'RigidBody::energy')
def b_energy(E):
    w = E.world('RigidBody::energy')
    b = w.obj('b', 'RigidBody')
    w.run(w.fn('RigidBody::energy'), [P0(b)])
    w.ensure_val('kinetic energy', w.ret, body_energy(lambda f: bv('b', f)))
    w.ensure('energy is not negative', ge(w.ret, R(0)), [ge(bv('b', 'm'), R(0)), ge(bv('b', 'I'), R(0))])
    w.frame([])
    return w


def body_energy(f):
    half = T.num(Fraction(1, 2), 'R')
    return half * f('m') * (f('v_x') * f('v_x') + f('v_y') * f('v_y')) + half * f('I') * f('v_theta') * f('v_theta')


@task('C10', 'Spring::energy and getEnds')
def s_energy(E):
    ws = []
    for shared in (False, True):
        tag = ' (both ends on one body)' if shared else ''
        names = ('b1', 'b1') if shared else ('b1', 'b2')

        def start(what):
            w = E.world(what + tag)
            regs = {n: w.obj(n, 'RigidBody') for n in dict.fromkeys(names)}
            return w, w.obj('gen', 'Spring', {'m_body%d' % k: P0(regs[n]) for k, n in enumerate(names, 1)})
        w, gen = start('Spring::energy')
        w.run(w.fn('Spring::energy'), [P0(gen)])
        pts = []
        for k, n in enumerate(names, 1):
            rx, ry = rot(V(n + '.theta'), V('gen.m_p%d_x' % k), V('gen.m_p%d_y' % k))
            pts.append((V(n + '.p_x') + rx, V(n + '.p_y') + ry))
        dx, dy = pts[1][0] - pts[0][0], pts[1][1] - pts[0][1]
        l = T.fn1('sqrt', dx * dx + dy * dy)
        x = l - V('gen.m_restLength')
        w.ensure_val('half k x^2', w.ret, T.num(Fraction(1, 2), 'R') * V('gen.m_ks') * x * x)
        w.frame([])
        ws.append(w)
        w, gen = start('Spring::getEnds')
        o = [pt(w, 'o%d' % k) for k in range(4)]
        w.run(w.fn('Spring::getEnds'), [P0(gen)] + o)
        for k in range(4):
            w.ensure_val('end %d' % k, w.at(w.post, o[k], 0), pts[k // 2][k % 2])
        w.frame([q.reg for q in o])
        ws.append(w)
    for which in ('m_body1', 'm_body2'):
        w = E.world('Spring::energy without %s' % which)
        b = w.obj('b', 'RigidBody')
        ov = {'m_body1': P0(b), 'm_body2': P0(b)}
        ov[which] = NULL
        gen = w.obj('gen', 'Spring', ov)
        w.run(w.fn('Spring::energy'), [P0(gen)])
        w.ensure_val('a spring that is not attached stores nothing', w.ret, R(0))
        w.frame([])
        ws.append(w)
    return ws


@task('C10', 'RigidBody::reset')
def b_reset(E):
    ws = []
    for fnm in ('RigidBody::reset', 'RigidBody::RigidBody'):
        w = E.world(fnm)
        b = w.obj('b', 'RigidBody')
        w.run(w.fn(fnm), [P0(b)])
        for f in BODY:
            w.ensure_val('%s is zero' % f, w.get(w.post, b, 'RigidBody', f), R(0))
        if fnm.endswith('RigidBody'):
            w.ensure_val('a new body is not registered', w.get(w.post, b, 'RigidBody', 'index', 'I32'), I(-1))
        else:
            w.frame([(b, w.off('RigidBody', f)) for f in BODY])
        ws.append(w)
    return ws
