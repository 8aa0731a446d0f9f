"""C16 - C20, C22: the rigid body systems.

A system is described up to the names of its objects: the registered bodies are the elements
0..n-1 of the family Body (element i is registered at index i), the registered constraints the
elements of the family Con, the force generators those of Gen.  Constraint j has con.nf(j) in 1..3
equations and con.nb(j) in 1..2 bodies, its k-th body is the registered body con.body<k>(j), or a
ground body (index -1) when con.body<k>(j) is -1."""
from .base import *
from . import matrix as M
from .state import null_state, array_ok, alts, ALL
from ..world import World

N, NC, NG = V('nbodies', 'I'), V('nconstraints', 'I'), V('ngenerators', 'I')
nf = lambda j: A('con.nf', j, 'I')
nb = lambda j: A('con.nb', j, 'I')
cb = lambda j, k: A('con.body%d' % k, j, 'I')
ROW = lambda j: T.Sum(lambda q: nf(q), I(0), j)

# what is known about the arbitrary registry (true for every index by the choice of the functions)
DOM = {
    'con.nf': lambda a: [ge(atom(a), I(1)), le(atom(a), I(3))],
    'con.nb': lambda a: [ge(atom(a), I(1)), le(atom(a), I(2))],
    'con.body0': lambda a: [ge(atom(a), I(-1)), lt(atom(a), N)],
    'con.body1': lambda a: [ge(atom(a), I(-1)), lt(atom(a), N)],
}


def _dom(atoms):
    out = []
    for a in atoms:
        if a.op == 'app' and a.args[0] == 'con.body0':
            # the two bodies of a constraint are different bodies
            b = T.app('con.body1', [a.args[1]], 'I')
            out.append(implies(band(ge(atom(a), I(0)), eq(nb(a.args[1]), I(2))), ne(atom(a), b)))
    for a in atoms:
        if a.op == 'app' and a.args[0] in DOM:
            out += DOM[a.args[0]](a)
        elif a.op == 'sum':
            bv, body, lo, hi = a.args
            b = T.single_atom(body)
            if b is not None and b.op == 'app' and b.args[0] == 'con.nf' and b.args[1] is bv:
                # sum of values in 1..3 (induction on hi)
                out += [implies(ge(hi, lo), band(ge(atom(a), sub(hi, lo)), le(atom(a), scale_i(sub(hi, lo), 3))))]
    return out


smt.LEMMAS.append(_dom)
smt.REGS.append(DOM)
from ..sym import prefix_key, NONNEG
NONNEG.add(prefix_key(T.single_atom(ROW(V('j', 'I')))))


class Sys:
    pass


VEC = {'m_rigidBodies': ('Body', 'bodies', N), 'm_constraints': ('Con', 'cons', NC), 'm_forceGenerators': ('Gen', 'gens', NG)}


def index_map(nm):
    """the index map left by populateSystemState: the first equation of every constraint"""
    return lambda key, idx: ite(band(ge(idx, I(0)), lt(idx, NC)), ROW(idx), A(nm, idx, 'I'))


def system(w, cls='RigidBodySystem', extra=None, state=None, name='sys', populated=False):
    """an arbitrary system of class cls with N bodies, NC constraints and NG generators"""
    s = Sys()
    w.assume(ge(N, I(0)), ge(NC, I(0)), ge(NG, I(0)))
    s.body = w.obj('Body', 'RigidBody', {'index': lambda k: k}, nkeys=1)
    s.ground = w.obj('Ground', 'RigidBody', {'index': lambda k: I(-1)}, nkeys=1)
    # entries of m_bodies beyond the body count are unset
    bp = lambda k: (lambda j: pite(lt(I(k), nb(j)), bp0(k)(j), UndefP('unused body of a constraint')) if k else bp0(k)(j))
    bp0 = lambda k: (lambda j: pite(eq(cb(j, k), I(-1)), Ptr(s.ground, I(0), (add(scale_i(j, 2), I(k)),)), Ptr(s.body, I(0), (cb(j, k),))))
    s.con = w.obj('Con', 'Constraint', {'_vptr$Constraint': lambda j: AbsVT('Constraint'), 'm_index': lambda j: j, 'm_bodyCount': nb,
                                        'm_constraintCount': nf, 'm_bodies': bp(0), 'm_bodies+8': bp(1)}, nkeys=1)
    s.gen = w.obj('Gen', 'ForceGenerator', {'_vptr$ForceGenerator': lambda j: AbsVT('ForceGenerator'), 'm_index': lambda j: j}, nkeys=1)
    ov = {}
    for f, (cn, vn, cnt) in VEC.items():
        fam = {'Body': s.body, 'Con': s.con, 'Gen': s.gen}[cn]
        vec = w.array(vn, cnt, 'P', init=lambda key, idx, fam=fam: Ptr(fam, I(0), (idx,)))
        cap = V(vn + '.cap', 'I')
        w.assume(ge(cap, cnt), le(cap, I(2 ** 60 - 1)), lt(cnt, I(2 ** 31 - 1)))
        vec.reg.size = scale_i(cap, 8)
        ov[f] = vec
        ov[f + '._M_impl._M_finish'] = Ptr(vec.reg, scale_i(cnt, 8))
        ov[f + '._M_impl._M_end_of_storage'] = Ptr(vec.reg, scale_i(cap, 8))
        setattr(s, vn, vec)
    if state == 'empty':
        for f, _, _, _ in ALL:
            ov['m_state.' + f] = NULL
        ov.update({'m_state.n': I(0), 'm_state.n_c': I(0)})
    else:
        n0, c0 = state or (None, None)
        w.sysstate('st', n0, c0, prefix='m_state.', into=ov, imap=index_map('st.indexMap') if populated else None)
    for f in ('m_odeSolveMicroseconds', 'm_constraintSolveMicroseconds', 'm_forceEvalMicroseconds', 'm_constraintEvalMicroseconds'):
        ov[f] = w.array(f, I(600), 'I64')
    ov['m_frameIndex'] = V('frame', 'I')
    w.assume(ge(V('frame', 'I'), I(0)), lt(V('frame', 'I'), I(600)))
    ov['_vptr$RigidBodySystem'] = AbsVT(cls)
    ov.update((extra or {}))
    s.cls = cls
    s.reg = w.obj(name, cls, ov)
    s.ptr = P0(s.reg)
    s.ov = ov
    return s


def vec(w, s, f, st=None):
    st = st or w.post
    return w.get(st, s.reg, s.cls, f, 'P'), w.get(st, s.reg, s.cls, f + '._M_impl._M_finish', 'P')


def vsize(w, s, f, st=None):
    b, e = vec(w, s, f, st)
    return extent(b, e)


def extent(b, e):
    """number of pointers between b and e; None if they do not belong to one array"""
    if isinstance(b, PIte):
        c = b.c
        m, n = extent(b.a, under(c, e, True)), extent(b.b, under(c, e, False))
        return None if m is None or n is None else ite(c, m, n)
    if isinstance(e, PIte):
        m, n = extent(b, e.a), extent(b, e.b)
        return None if m is None or n is None else ite(e.c, m, n)
    if isinstance(b, Ptr) and isinstance(e, Ptr) and b.reg is e.reg:
        return exact_div(sub(e.off, b.off), 8)
    if b is NULL and e is NULL:
        return I(0)
    return None


def under(c, p, val):
    """the pointer p when c is known"""
    while isinstance(p, PIte) and (p.c is c or p.c is bnot(c)):
        p = p.a if (p.c is c) == val else p.b
    return p


def velem(w, s, f, i, rng, st=None):
    b, _ = vec(w, s, f, st)
    return w.at(st or w.post, b, i, 'P', rng)


OBJ = {'m_rigidBodies': ('RigidBody', 'index', 'body'), 'm_constraints': ('Constraint', 'm_index', 'con'), 'm_forceGenerators': ('ForceGenerator', 'm_index', 'gen')}


def list_is(w, s, f, count, elem, st=None):
    """the list f has count elements, element i is elem(i) and carries the index i"""
    cls, ix, _ = OBJ[f]
    n = vsize(w, s, f)
    if n is None:
        w.ensure('%s is one array' % f, FALSE)
        return
    w.ensure_val('%s has the right number of elements' % f, n, count)
    i = V('any.' + f, 'I')
    rng = [ge(i, I(0)), lt(i, count)]
    p = velem(w, s, f, i, rng)
    w.ensure_val('every element of %s is the expected object' % f, p, elem(i), rng)
    s2 = w.post.copy()
    s2.pc = s2.pc + tuple(rng)
    v = w.ex.load(s2, w.ex.padd(p, I(w.off(cls, ix))), 'I32')
    w.ensure_val('every element of %s is registered at its own index' % f, v, i, rng)


def fam(s, f):
    return getattr(s, OBJ[f][2])


def pelem(s, f):
    return lambda i: Ptr(fam(s, f), I(0), (i,))


ADD = {'m_rigidBodies': ('addRigidBody', 'removeRigidBody'), 'm_constraints': ('addConstraint', 'removeConstraint'), 'm_forceGenerators': ('addForceGenerator', 'removeForceGenerator')}


def others(w, s, f):
    for g in VEC:
        if g != f:
            list_is(w, s, g, VEC[g][2], pelem(s, g))


def reg_task(f):
    addf, remf = ADD[f]
    cnt = VEC[f][2]
    cls, ix, _ = OBJ[f]

    @task('C16', 'RigidBodySystem::' + addf)
    def t_add(E):
        w = E.world('RigidBodySystem::' + addf)
        s = system(w)
        new = w.obj('New', cls, {('_vptr$' + cls): AbsVT(cls)} if cls != 'RigidBody' else {})
        w.run(w.fn('RigidBodySystem::' + addf), [s.ptr, P0(new)])
        list_is(w, s, f, add(cnt, I(1)), lambda i: pite(eq(i, cnt), P0(new), pelem(s, f)(i)))
        others(w, s, f)
        w.ensure_val('the new object carries its index', w.get(w.post, new, cls, ix, 'I32'), cnt)
        w.frame([(new, w.off(cls, ix)), getattr(s, VEC[f][1]).reg] + [(s.reg, w.off(s.cls, f) + 8 * k) for k in range(3)])
        return w

    @task('C16', 'RigidBodySystem::' + remf)
    def t_rem(E):
        ws = []
        r = V('r', 'I')
        for what, cond in (('the last', eq(r, sub(cnt, I(1)))), ('not the last', lt(r, sub(cnt, I(1))))):
            w = E.world('RigidBodySystem::%s (%s)' % (remf, what))
            s = system(w)
            w.assume(ge(r, I(0)), lt(r, cnt), cond)
            w.run(w.fn('RigidBodySystem::' + remf), [s.ptr, Ptr(fam(s, f), I(0), (r,))])
            last = sub(cnt, I(1))
            list_is(w, s, f, last, lambda i: pelem(s, f)(ite(eq(i, r), last, i)))
            others(w, s, f)
            key = Ptr(fam(s, f), I(w.off(cls, ix)), (r,))
            w.ensure_val('the removed object is marked as not registered', w.ex.load(w.post.copy(), key, 'I32'), I(-1))
            q = V('q', 'I')
            rng = [ge(q, I(0)), lt(q, cnt), ne(q, r), ne(q, last)]
            s2 = w.post.copy()
            s2.pc = s2.pc + tuple(rng)
            w.ensure_val('every other object keeps its index', w.ex.load(s2, Ptr(fam(s, f), I(w.off(cls, ix)), (q,)), 'I32'), q, rng)
            w.frame([(fam(s, f), w.off(cls, ix)), getattr(s, VEC[f][1]).reg] + [(s.reg, w.off(s.cls, f) + 8 * k) for k in range(3)])
            ws.append(w)
        return ws


for _f in VEC:
    reg_task(_f)


@task('C16', 'RigidBodySystem::getRigidBody and counts')
def t_counts(E):
    ws = []
    w = E.world('RigidBodySystem::getRigidBody')
    s = system(w)
    i = V('i', 'I')
    w.assume(ge(i, I(0)), lt(i, N))
    w.run(w.fn('RigidBodySystem::getRigidBody'), [s.ptr, i])
    w.ensure_val('the body at the index', w.ret, Ptr(s.body, I(0), (i,)))
    w.frame([])
    ws.append(w)
    for g, c in (('getRigidBodyCount', N), ('getConstraintCount', NC), ('getForceGeneratorCount', NG)):
        w = E.world('RigidBodySystem::' + g)
        s = system(w)
        w.run(w.fn('RigidBodySystem::' + g), [s.ptr])
        w.ensure_val('the number of registered objects', w.ret, c)
        w.frame([])
        ws.append(w)
    w = E.world('RigidBodySystem::getFullConstraintCount')
    s = system(w)
    w.run(w.fn('RigidBodySystem::getFullConstraintCount'), [s.ptr])
    w.ensure_val('the sum of the equations of the registered constraints', w.ret, ROW(NC))
    w.frame([])
    ws.append(w)
    return ws


@task('C16', 'RigidBodySystem::reset')
def t_reset(E):
    w = E.world('RigidBodySystem::reset')
    s = system(w)
    w.run(w.fn('RigidBodySystem::reset'), [s.ptr])
    for f in VEC:
        n = vsize(w, s, f)
        w.ensure_val('%s is empty' % f, n if n is not None else I(-1), I(0))
    w.frame([(s.reg, w.off(s.cls, f) + 8) for f in VEC])
    return w


# ------------------------------------------------------------------ construction
@task('C16 C22', 'RigidBodySystem construction and destruction')
def t_ctor(E):
    w = E.world('RigidBodySystem: construct and destruct')
    reg = w.obj('sys', 'RigidBodySystem')
    w.run(w.fn('RigidBodySystem::RigidBodySystem'), [P0(reg)])
    s = Sys()
    s.reg, s.cls = reg, 'RigidBodySystem'
    for f in VEC:
        n = vsize(w, s, f)
        w.ensure_val('%s is empty' % f, n if n is not None else I(-1), I(0))
    w.ensure_val('no sample is recorded', w.get(w.post, reg, s.cls, 'm_frameIndex', 'I64'), I(0))
    for f in SAMPLES:
        p = w.get(w.post, reg, s.cls, f, 'P')
        array_ok(w, f, p, I(600), 'I64')
        i = V('any.' + f, 'I')
        rng = [ge(i, I(0)), lt(i, I(600))]
        w.ensure_val('every entry of %s is unset' % f, w.at(w.post, p, i, 'I64', rng), I(-1), rng)
    w.st = w.post
    ptrs = [w.get(w.post, reg, s.cls, f, 'P') for f in SAMPLES]
    w.run(w.fn('RigidBodySystem::~RigidBodySystem'), [P0(reg)])
    for f, p in zip(SAMPLES, ptrs):
        if isinstance(p, Ptr):
            w.ensure('%s is released' % f, w.post.freed.get(p.reg, FALSE))
    return w


SAMPLES = ('m_odeSolveMicroseconds', 'm_constraintSolveMicroseconds', 'm_forceEvalMicroseconds', 'm_constraintEvalMicroseconds')


def unrounded(t):
    """the term without its roundings to single precision"""
    while True:
        rs = [a for a in T.atoms_of(t) if a.op == 'app' and a.args[0] == 'round32' and not any(b.op == 'app' and b.args[0] == 'round32' for b in T.atoms_of(a.args[1]))]
        if not rs:
            return t
        t = T.subst(t, {a: a.args[1] for a in rs})


# a sample is a duration (process records none below zero, see there) or -1
for _f in SAMPLES:
    DOM[_f] = lambda a: [ge(atom(a), I(-1))]


@task('C22', 'average durations')
def t_avg(E):
    ws = []
    for g, f in (('getOdeSolveMicroseconds', SAMPLES[0]), ('getConstraintSolveMicroseconds', SAMPLES[1]), ('getForceEvalMicroseconds', SAMPLES[2]), ('getConstraintEvalMicroseconds', SAMPLES[3])):
        w = E.world('RigidBodySystem::' + g)
        s = system(w)
        w.run(w.fn('RigidBodySystem::' + g), [s.ptr])
        smp = lambda i: A(f, i, 'I')
        set_ = lambda i: ne(smp(i), I(-1))
        total = T.Sum(lambda i: ite(set_(i), smp(i), I(0)), I(0), I(600))
        count = T.Sum(lambda i: ite(set_(i), I(1), I(0)), I(0), I(600))
        w.ensure('zero when nothing was recorded', eq(w.ret, R(0)), [eq(count, I(0))])
        mean = T.i2r(total) / T.i2r(count)
        w.ensure('the mean of the recorded samples (to single precision)', eq(unrounded(w.ret), mean), [ne(count, I(0))])
        w.frame([])
        ws.append(w)
    return ws


# ------------------------------------------------------------------ populate (C17)
BODY = {'v_x': 'v_x', 'v_y': 'v_y', 'p_x': 'p_x', 'p_y': 'p_y', 'v_theta': 'v_theta', 'theta': 'theta', 'm': 'm'}


def bodyf(f, i):
    return A('Body.' + f, i)


def sarr(w, s, f, i, rng, kind='R', st=None):
    p = w.get(st or w.post, s.reg, s.cls, 'm_state.' + f, 'P')
    return w.at(st or w.post, p, i, kind, rng)


STATE_WORLDS = (('empty', bor(gt(N, I(0)), gt(NC, I(0))), 'from empty'), (None, lt(V('st.n', 'I'), N), 'more bodies than before'),
                (None, lt(V('st.n_c', 'I'), ROW(NC)), 'more constraints than before'),
                (None, band(ge(V('st.n', 'I'), N), ge(V('st.n_c', 'I'), ROW(NC))), 'large enough'))


@task('C17', 'RigidBodySystem::populateSystemState')
def t_pop(E):
    ws = []
    for kind, cond, what in STATE_WORLDS:
        w = E.world('populateSystemState (%s)' % what)
        s = system(w, state=kind)
        w.assume(cond)
        w.run(w.fn('RigidBodySystem::populateSystemState'), [s.ptr])
        n2, nc2 = (w.get(w.post, s.reg, s.cls, 'm_state.' + f, 'I32') for f in ('n', 'n_c'))
        w.ensure('room for every body', ge(n2, N))
        w.ensure('room for every constraint equation', ge(nc2, ROW(NC)))
        for f, cf, k, kd in ALL:
            array_ok(w, 'm_state.' + f, w.get(w.post, s.reg, s.cls, 'm_state.' + f, 'P'), scale_i(n2 if cf == 'n' else nc2, k), kd)
        i = V('any.body', 'I')
        rng = [ge(i, I(0)), lt(i, N)]
        for f in ('a_x', 'a_y', 'a_theta'):
            w.ensure_val('%s of every body is cleared' % f, sarr(w, s, f, i, rng), R(0), rng)
        for f, bf in BODY.items():
            w.ensure_val('%s of every body is copied into the state' % f, sarr(w, s, f, i, rng), bodyf(bf, i), rng)
        j = V('any.con', 'I')
        rng = [ge(j, I(0)), lt(j, NC)]
        w.ensure_val('indexMap gives the first equation of every constraint', sarr(w, s, 'indexMap', j, rng, 'I32'), ROW(j), rng)
        w.frame([(s.reg, w.off(s.cls, 'm_state.' + f)) for f, _, _, _ in ALL] + [(s.reg, w.off(s.cls, 'm_state.n')), (s.reg, w.off(s.cls, 'm_state.n_c'))]
                + [p.reg for k, p in s.ov.items() if k.startswith('m_state.') and isinstance(p, Ptr)])
        ws.append(w)
    return ws


@task('C17', 'RigidBodySystem::populateMassMatrices')
def t_mass(E):
    w = E.world('populateMassMatrices')
    s = system(w)
    M.install(w)
    a, b = M.mat(w, 'Mm'), M.mat(w, 'Mi')
    w.run(w.fn('RigidBodySystem::populateMassMatrices'), [s.ptr, a.ptr, b.ptr])
    mass = lambda r, f: ite(eq(r, T.add(scale_i(T.idiv(r, 3), 3), I(2))), f(bodyf('I', T.idiv(r, 3))), f(bodyf('m', T.idiv(r, 3))))
    i = V('any.body', 'I')
    rng = [ge(i, I(0)), lt(i, N)]
    for x, f, what in ((a, lambda v: v, 'mass'), (b, T.inv, 'inverse mass')):
        gw, gh = M.msize(w.ex, w.post, x.ptr)
        w.ensure_val('%s matrix has one column' % what, gw, I(1))
        w.ensure_val('%s matrix has three rows per body' % what, gh, scale_i(N, 3))
        rd = M.reader(w.ex, w.post, x.ptr)
        for k, fld in ((0, 'm'), (1, 'm'), (2, 'I')):
            w.ensure_val('%s of degree of freedom %d of every body' % (what, k), rd(add(scale_i(i, 3), I(k)), I(0), rng), f(bodyf(fld, i)), rng)
    w.frame([a.reg, a.data, b.reg, b.data])
    return w


@task('C17', 'RigidBodySystem::processForces')
def t_forces(E):
    w = E.world('processForces')
    s = system(w)
    w.assume(ge(V('st.n', 'I'), N))
    o = w.dbg.fields('SystemState')
    b0 = V('b0', 'I')
    w.assume(ge(b0, I(0)), lt(b0, N))
    calls = w.obj('calls', 'RigidBody', {'p_x': lambda k: R(0), 'index': lambda k: I(0)}, nkeys=1)  # ghost: number of calls of generator k
    tot = w.obj('order', 'RigidBody', {'index': I(0)})

    def apply(ex, st, args, ins):
        g, stp = args[0], args[1]
        if not (isinstance(g, Ptr) and g.reg is s.gen):
            raise Unsupported('apply on an unknown generator')
        k = g.key[0]
        w.c.oblige(st, w.ex.pcmp(st, 'eq', stp, Ptr(s.reg, I(w.off(s.cls, 'm_state')))), 'every generator acts on the state of this system', ins)
        # generator k adds gen.<f>(k) to the forces on the (arbitrary) body b0
        for f in ('f_x', 'f_y', 't'):
            q = w.ex.padd(w.ex.load(st, w.ex.padd(stp, I(o[f])), 'P', ins), scale_i(b0, 8))
            w.ex.store(st, q, 'R', add(w.ex.load(st, q, 'R', ins), A('gen.' + f, k)), ins)
        p = Ptr(calls, I(w.off('RigidBody', 'index')), (k,))
        n = ex.load(st, p, 'I32', ins)
        ex.store(st, p, 'I32', add(n, I(1)), ins)
        q = Ptr(tot, I(w.off('RigidBody', 'index')))
        m = ex.load(st, q, 'I32', ins)
        ex.store(st, q, 'I32', add(m, I(1)), ins)
        return st, None
    w.c.virt[('ForceGenerator', 2)] = apply
    w.run(w.fn('RigidBodySystem::processForces'), [s.ptr])
    i = V('any.body', 'I')
    rng = [ge(i, I(0)), lt(i, N)]
    for f in ('f_x', 'f_y', 't'):
        w.ensure_val('%s of every body is the sum of what the generators add to it' % f, sarr(w, s, f, i, rng),
                     ite(eq(i, b0), T.Sum(lambda q: A('gen.' + f, q), I(0), NG), R(0)), rng)
    k = V('any.gen', 'I')
    rk = [ge(k, I(0)), lt(k, NG)]
    s2 = w.post.copy()
    s2.pc = s2.pc + tuple(rk)
    w.ensure_val('every generator is applied once', w.ex.load(s2, Ptr(calls, I(w.off('RigidBody', 'index')), (k,)), 'I32'), I(1), rk)
    w.ensure_val('as many applications as generators', w.get(w.post, tot, 'RigidBody', 'index', 'I32'), NG)
    w.frame([calls, tot] + [s.ov['m_state.' + f].reg for f in ('f_x', 'f_y', 't')])
    return w


# ------------------------------------------------------------------ write-back (C17, C20)
DYN = ('v_x', 'v_y', 'p_x', 'p_y', 'v_theta', 'theta')


def written_back(w, s, st_val):
    """every registered body has exactly the values of its slot of the state, every constraint the reactions of its equations"""
    i = V('any.body', 'I')
    rng = [ge(i, I(0)), lt(i, N)]
    s2 = w.post.copy()
    s2.pc = s2.pc + tuple(rng)
    for f in DYN:
        w.ensure_val('%s of every body is the integrated value' % f, w.ex.load(s2, Ptr(s.body, I(w.off('RigidBody', f)), (i,)), 'R'), st_val(f, i, rng), rng, tag='C17')
    j = V('any.con', 'I')
    for e in range(3):
        for k in range(2):
            rng = [ge(j, I(0)), lt(j, NC)]
            s2 = w.post.copy()
            s2.pc = s2.pc + tuple(rng)
            for f, r in (('F_x', 'r_x'), ('F_y', 'r_y'), ('F_t', 'r_t')):
                o = w.off('Constraint', f) + 16 * e + 8 * k
                v = w.ex.load(s2, Ptr(s.con, I(o), (j,)), 'R')
                act = [lt(I(e), nf(j)), lt(I(k), nb(j))]
                w.ensure_val('%s of equation %d on body %d of every constraint is the reaction of its row' % (f, e, k), v,
                             st_val(r, add(scale_i(ROW(j), 2), I(2 * e + k)), rng + act), rng + act, tag='C20')


def pre_state(w, s):
    return lambda f, i, rng: A('st.' + f, i)


@task('C17 C20', 'OptimizedNsvRigidBodySystem::propagateResults')
def t_prop(E):
    w = E.world('propagateResults')
    s = system(w, 'OptimizedNsvRigidBodySystem', populated=True)
    w.assume(ge(V('st.n', 'I'), N), ge(V('st.n_c', 'I'), ROW(NC)))
    w.run(w.fn('OptimizedNsvRigidBodySystem::propagateResults'), [s.ptr])
    written_back(w, s, pre_state(w, s))
    w.frame([(s.body, w.off('RigidBody', f)) for f in DYN] + [(s.con, w.off('Constraint', f) + 8 * k) for f in ('F_x', 'F_y', 'F_t') for k in range(6)])
    return w


# ------------------------------------------------------------------ constraint processing (C18, C19, C20)
from . import sparse as SP

OUT1 = ('C', 'v_bias', 'ks', 'kd')


def out(f, e, j, c=None):
    return A('out.%s.%d%s' % (f, e, '' if c is None else '.%d' % c), j)


def matrices(w, cls, special=None):
    """every matrix embedded in the system is a valid matrix of arbitrary size, except the special ones {path: (w, h)}"""
    ov, ms = {}, {}
    fs = w.dbg.fields(cls)
    for f in list(fs):
        if f + '.m_blockData' in fs:
            s, o = SP.row_fields(w, f, V(f + '.nb', 'I'), V(f + '.h', 'I'), f + '.')
            ov.update(o)
            ms[f] = s
        elif f + '.m_capacityWidth' in fs:
            wd, ht = (special or {}).get(f, (V(f + '.w', 'I'), V(f + '.h', 'I')))
            o, data = M.rows_fields(w, f, wd, ht, f + '.')
            ov.update(o)
            ms[f] = data
    return ov, ms


class Virt:
    """contracts of the abstract interfaces a system calls"""

    def __init__(self, w, s):
        self.w, self.s = w, s

    def calculate(self, ex, st, args, ins):
        """C05, C06: the output is a function of constraint and state; nothing else changes"""
        w, s = self.w, self.s
        con, o, stp = args
        if not (isinstance(con, Ptr) and con.reg is s.con):
            raise Unsupported('calculate on an unknown constraint')
        j = con.key[0]
        w.c.oblige(st, ex.pcmp(st, 'eq', stp, Ptr(s.reg, I(w.off(s.cls, 'm_state')))), 'every constraint is evaluated on the state of this system', ins)
        s.clock.advance(ex, st, A('time.calculate', j, 'I'))
        fo = w.dbg.fields('Output')
        for e in range(3):
            for f in OUT1:
                ex.store(st, ex.padd(o, I(fo[f] + 8 * e)), 'R', out(f, e, j), ins)
            for c in range(2):
                ex.store(st, ex.padd(o, I(fo['limits'] + 16 * e + 8 * c)), 'R', out('limits', e, j, c), ins)
            for f in ('J', 'J_dot'):
                for c in range(6):
                    ex.store(st, ex.padd(o, I(fo[f] + 48 * e + 8 * c)), 'R', out(f, e, j, c), ins)
        return st, None


def mass_inv(r):
    return T.app('m_iv.M_inv.e', [r, I(0)], 'R')


def _equal_masses(hyps, goal):
    """populateMassMatrices (C17): both coordinates of a body have the same inverse mass"""
    mp = {}
    for a in T.atoms_of(goal):
        if a.op == 'app' and a.args[0] == 'm_iv.M_inv.e':
            r = a.args[1]
            if all(c.denominator == 1 and c % 3 == 0 for m, c in r.args if m) and T.const_of(r) % 3 == 1:
                mp[a] = mass_inv(sub(r, I(1)))
    return hyps, (T._subst(goal, mp, {}) if mp else goal)


smt.SIMPLIFY.append(_equal_masses)


def lam(r):
    return A('lambda', r)


def jrow(j, e):
    return add(ROW(j), I(e))


def jdot(f, j, e, q):
    """row e of the Jacobian of constraint j times the vector q(body, coordinate), registered bodies only"""
    r = R(0)
    for k in range(2):
        b = cb(j, k)
        act = band(lt(I(k), nb(j)), ne(b, I(-1)))
        r = add(r, ite(act, SP.sumup(mul(out(f, e, j, 3 * k + c), q(b, c)) for c in range(3)), R(0)))
    return r


VEL = ('v_x', 'v_y', 'v_theta')
FRC = ('f_x', 'f_y', 't')


def proc_world(E, cls, name, limits):
    w = E.world(name)
    ov, ms = matrices(w, cls, {'m_iv.M_inv': (I(1), scale_i(N, 3))})
    solver = w.obj('Solver', 'SleSolver', {'_vptr$SleSolver': AbsVT('SleSolver'), 'm_supportsLimits': I(1 if limits else 0)})
    ov['m_sleSolver'] = P0(solver)
    s = system(w, cls, ov, populated=True)
    w.assume(ge(V('st.n', 'I'), N), ge(V('st.n_c', 'I'), ROW(NC)))
    M.install(w)
    SP.install(w)
    s.ms = ms
    g = w.obj('ghost', 'Constraint')
    w.st.mem[(g, 0)] = ('I64', I(0))
    s.clock = Clock(w, g, 0)
    w.assume(ge(V('time.solver', 'I'), I(0)))
    v = Virt(w, s)
    w.c.virt[('Constraint', 2)] = v.calculate
    return w, s


def solver_contract(w, s, right, limits, calls):
    """what the system hands to the equation solver (C19), and an arbitrary solution"""
    j = V('any.con', 'I')

    def solve(lim):
        def go(ex, st, args, ins):
            calls.append(1)
            so, J, Mi, rt = args[:4]
            lm = args[4] if lim else None
            prev, res = args[-2:]
            iv = lambda f: Ptr(s.reg, I(w.off(s.cls, 'm_iv.' + f)))
            tagged = lambda g, what: w.c.oblige(st, g, what, ins, 'post')
            tagged(ex.pcmp(st, 'eq', Mi, iv('M_inv')), 'the solver gets the inverse masses')
            jw, jh = SP.size(ex, st, J)
            tagged(band(eq(jw, scale_i(N, 3)), eq(jh, ROW(NC))), 'the Jacobian has three columns per body and a row per equation')
            rw, rh = M.msize(ex, st, rt)
            tagged(band(eq(rw, I(1)), eq(rh, ROW(NC))), 'the right hand side has one entry per equation')
            blk, val = SP.snap(ex, st, J)
            rd = M.reader(ex, st, rt)
            ld = M.reader(ex, st, lm) if lim else None
            if lim:
                lw, lh = M.msize(ex, st, lm)
                tagged(band(eq(lw, I(2)), eq(lh, ROW(NC))), 'the limits are two columns with one entry per equation')
            for e in range(3):
                rng = [ge(j, I(0)), lt(j, NC), lt(I(e), nf(j))]
                r = jrow(j, e)
                s2 = st.copy()
                s2.pc = s2.pc + tuple(rng)
                post = lambda what, g: w.c.oblige(s2, g, what, ins, 'post')
                for k in range(2):
                    act = band(lt(I(k), nb(j)), ne(cb(j, k), I(-1)))
                    post('equation %d of every constraint: block of body %d' % (e, k), eq(blk(r, k, rng), ite(act, cb(j, k), I(-1))))
                    for c in range(3):
                        post('equation %d of every constraint: Jacobian entry %d of body %d' % (e, c, k), eq(val(r, k, c, rng), ite(act, out('J', e, j, 3 * k + c), R(0))))
                # a row without a moving body constrains nothing: its right hand side is left open
                act = bor(*[band(lt(I(k), nb(j)), ne(cb(j, k), I(-1))) for k in range(2)])
                post('equation %d of every constraint: right hand side' % e, bor(T.bnot(act), eq(rd(r, I(0), rng), right(j, e))))
                if lim:
                    for c in range(2):
                        post('equation %d of every constraint: limit %d' % (e, c), eq(ld(r, I(c), rng), limits(j, e, c)))
            st = M.assign(ex, st, res, I(1), ROW(NC), lambda r, c: lam(r), 'lambda', ins)
            s.clock.advance(ex, st, V('time.solver', 'I'))
            return st, TRUE
        return go
    w.c.virt[('SleSolver', 2)] = solve(False)
    w.c.virt[('SleSolver', 3)] = solve(True)


def reaction(j, e, k, c, scale):
    """component c of the reaction of equation e of constraint j on its body k"""
    act = band(lt(I(k), nb(j)), ne(cb(j, k), I(-1)))
    return ite(act, mul(mul(lam(jrow(j, e)), scale), out('J', e, j, 3 * k + c)), R(0))


def proc_post(w, s, scale, clocks=()):
    j, i = V('any.con', 'I'), V('any.body', 'I')
    for e in range(3):
        for k in range(2):
            rng = [ge(j, I(0)), lt(j, NC), lt(I(e), nf(j))]
            for f, c in (('r_x', 0), ('r_y', 1), ('r_t', 2)):
                w.ensure_val('%s of equation %d on body %d is multiplier times Jacobian' % (f, e, k), sarr(w, s, f, add(scale_i(jrow(j, e), 2), I(k)), rng),
                             reaction(j, e, k, c, scale), rng, tag='C20')
    rng = [ge(i, I(0)), lt(i, N)]
    for f, fr, c in (('a_x', 'f_x', 0), ('a_y', 'f_y', 1), ('a_theta', 't', 2)):
        def tot(q):
            r = R(0)
            for e in range(3):
                for k in range(2):
                    r = add(r, ite(band(lt(I(e), nf(q)), lt(I(k), nb(q)), eq(cb(q, k), i)), mul(mul(lam(jrow(q, e)), scale), out('J', e, q, 3 * k + c)), R(0)))
            return r
        w.ensure_val('%s of every body is the sum of its forces and reactions over its mass' % f, sarr(w, s, f, i, rng),
                     mul(add(A('st.' + fr, i), T.Sum(tot, I(0), NC)), mass_inv(add(scale_i(i, 3), I(2 if c == 2 else 0)))), rng, tag='C18')
    own = [s.ov['m_state.' + f].reg for f in ('a_x', 'a_y', 'a_theta', 'r_x', 'r_y', 'r_t')]
    iv = []
    for o in range(0, w.dbg.size(s.cls)):
        if o >= w.off(s.cls, 'm_iv'):
            iv.append((s.reg, o))
    keep = [f for f in ('m_iv.M', 'm_iv.M_inv')]
    mreg = []
    for f, m in s.ms.items():
        if f in keep:
            continue
        mreg += [m.data, m.blocks] if hasattr(m, 'blocks') else [m]
    w.frame(own + iv + mreg + list(clocks) + [s.clock.p.reg])
    w.ensure_val('the time of constraint evaluation is the time spent outside the solver', w.at(w.post, P0(clocks[0]), I(0), 'I64', []), T.idiv(T.Sum(lambda q: A('time.calculate', q, 'I'), I(0), NC), 1000), tag='C22')
    w.ensure_val('the time of constraint solving is the time spent in the solver', w.at(w.post, P0(clocks[1]), I(0), 'I64', []), T.idiv(V('time.solver', 'I'), 1000), tag='C22')


def opt_processing(E, limits):
    dt = V('dt')
    w, s = proc_world(E, 'OptimizedNsvRigidBodySystem', 'OptimizedNsvRigidBodySystem::processConstraints', limits)
    w.assume(gt(dt, R(0)))
    calls = []

    def right(j, e):
        qp = lambda b, c: add(A('st.' + VEL[c], b), mul(mul(A('st.' + FRC[c], b), dt), mass_inv(add(scale_i(b, 3), I(c)))))
        return neg(add(add(jdot('J', j, e, qp), out('v_bias', e, j)), mul(V('sys.m_biasFactor') / dt, out('C', e, j))))
    solver_contract(w, s, right, lambda j, e, c: mul(out('limits', e, j, c), dt), calls)
    t1, t2 = w.array('evalTime', I(1), 'I64'), w.array('solveTime', I(1), 'I64')
    w.run(w.fn('OptimizedNsvRigidBodySystem::processConstraints'), [s.ptr, dt, t1, t2])
    w.ensure('the solver is called', TRUE if calls else FALSE, tag='C19')
    proc_post(w, s, T.inv(dt), (t1.reg, t2.reg))
    return w


@task('C18 C19 C20', 'OptimizedNsvRigidBodySystem::processConstraints with a solver that supports limits')
def t_opt1(E):
    return opt_processing(E, True)


@task('C18 C19 C20', 'OptimizedNsvRigidBodySystem::processConstraints with a solver without limits')
def t_opt2(E):
    return opt_processing(E, False)


@task('C18 C19 C20', 'GenericRigidBodySystem::processConstraints')
def t_gen(E):
    w, s = proc_world(E, 'GenericRigidBodySystem', 'GenericRigidBodySystem::processConstraints', False)
    calls = []

    def right(j, e):
        vel = lambda b, c: A('st.' + VEL[c], b)
        acc = lambda b, c: mul(A('st.' + FRC[c], b), mass_inv(add(scale_i(b, 3), I(c))))
        spring = add(mul(out('ks', e, j), out('C', e, j)), mul(out('kd', e, j), add(jdot('J', j, e, vel), out('v_bias', e, j))))
        return neg(add(add(jdot('J_dot', j, e, vel), jdot('J', j, e, acc)), spring))
    solver_contract(w, s, right, None, calls)
    t1, t2 = w.array('evalTime', I(1), 'I64'), w.array('solveTime', I(1), 'I64')
    w.run(w.fn('GenericRigidBodySystem::processConstraints'), [s.ptr, t1, t2])
    w.ensure('the solver is called', TRUE if calls else FALSE, tag='C19')
    proc_post(w, s, R(1), (t1.reg, t2.reg))
    return w


def durations(w):
    """only the reported times of a run whose other obligations belong to C18, C19 and C20"""
    w.c.obls[:] = [o for o in w.c.obls if getattr(o, 'tag', None) == 'C22']
    return w


@task('C22', 'OptimizedNsvRigidBodySystem::processConstraints: durations')
def t_dur_opt(E):
    return durations(opt_processing(E, True))


@task('C22', 'GenericRigidBodySystem::processConstraints: durations')
def t_dur_gen(E):
    return durations(t_gen(E))


# ------------------------------------------------------------------ whole steps (C17, C20, C22)
NOW = '@_ZNSt6chrono3_V212steady_clock3nowEv'
NST = lambda q: A('stages', q, 'I')
DUR = lambda f, q, k: T.app('time.' + f, [q, k], 'I')
DOM['stages'] = lambda a: [ge(atom(a), I(1)), le(atom(a), I(1000))]
for _f in ('force', 'eval', 'solve', 'ode', 'calc', 'calculate'):
    DOM['time.' + _f] = lambda a: [ge(atom(a), I(0))]
NONNEG.add(prefix_key(T.single_atom(T.Sum(NST, I(0), V('j', 'I')))))
NONNEG.add(prefix_key(T.single_atom(T.Sum(lambda q: A('time.calculate', q, 'I'), I(0), V('j', 'I')))))


class Clock:
    """a clock that advances only inside the calls whose duration is to be measured"""

    def __init__(self, w, ghost, off):
        self.w, self.p = w, Ptr(ghost, I(off))
        w.ex.lib.tab[NOW] = self.now

    def now(self, st, a, i):
        self.w.ex.lib.used.add('std::chrono::steady_clock::now')
        return st, self.w.ex.load1(st, self.p, 'I64')

    def advance(self, ex, st, d):
        ex.store1(st, self.p, 'I64', add(ex.load1(st, self.p, 'I64'), d))


class Protocol:
    """the order in which a system may call its parts, with ghost counters.
    idle -start-> started -step-> stepped -forces-> forced -constraints-> constrained -solve-> started -end-> idle"""
    CELLS = ('phase', 'starts', 'stage', 'populated', 'masses', 'clock')

    def __init__(self, w, s, steps, dt, ode):
        self.w, self.s, self.steps, self.dt, self.ode = w, s, steps, dt, ode
        # the built-in NSV integrator of the optimized system has one stage (its contract: step returns true, C11);
        # any OdeSolver may sit behind the generic system, so there the number of stages is arbitrary
        self.single = s.cls == 'OptimizedNsvRigidBodySystem'
        self.nst = (lambda q: I(1)) if self.single else NST
        self.g = w.obj('ghost', 'Constraint')
        for k, c in enumerate(self.CELLS):
            w.st.mem[(self.g, 8 * k)] = ('I64', I(0))
        self.clock = Clock(w, self.g, 8 * self.CELLS.index('clock'))
        self.state = Ptr(s.reg, I(w.off(s.cls, 'm_state')))

    def cell(self, c):
        return Ptr(self.g, I(8 * self.CELLS.index(c)))

    def get(self, st, c):
        return self.w.ex.load1(st, self.cell(c), 'I64')

    def set(self, st, c, v):
        self.w.ex.store1(st, self.cell(c), 'I64', v)

    def need(self, st, g, what, ins, tag='C22'):
        o = self.w.c.oblige(st, g, what, ins, 'pre')

    def same(self, st, p, q):
        return self.w.ex.pcmp(st, 'eq', p, q)

    def phase(self, st, a, what, ins):
        self.need(st, eq(self.get(st, 'phase'), I(a)), what, ins)

    def now(self, st):
        return sub(self.get(st, 'starts'), I(1)), self.get(st, 'stage')

    # -- parts
    def populate(self, ex, st, args, ins):
        w, s = self.w, self.s
        st = st.copy()
        self.need(st, self.same(st, args[0], s.ptr), 'the state of this system is populated', ins)
        self.need(st, eq(self.get(st, 'starts'), I(0)), 'the state is populated before the first sub-step', ins)
        n2, c2 = V('st2.n', 'I'), V('st2.n_c', 'I')
        st.assume(ge(n2, N), ge(c2, ROW(NC)))
        for f, cf, k, kd in ALL:
            nm = 'st2.' + f
            if f in BODY:
                init = lambda key, idx, f=f: bodyf(BODY[f], idx)
            else:
                init = index_map(nm) if f == 'indexMap' else None
            p = w.array(nm, scale_i(n2 if cf == 'n' else c2, k), kd, init=init)
            w.objs.remove(p.reg)
            ex.store1(st, Ptr(s.reg, I(w.off(s.cls, 'm_state.' + f))), 'P', p)
        for f, v in (('n', n2), ('n_c', c2)):
            ex.store1(st, Ptr(s.reg, I(w.off(s.cls, 'm_state.' + f))), 'I32', v)
        self.set(st, 'populated', I(1))
        return st, None

    def masses(self, ex, st, args, ins):
        w, s = self.w, self.s
        st = st.copy()
        for a, f in ((args[1], 'M'), (args[2], 'M_inv')):
            self.need(st, self.same(st, a, Ptr(s.reg, I(w.off(s.cls, 'm_iv.' + f)))), 'the %s matrix of this system is populated' % f, ins)
        self.set(st, 'masses', I(1))
        return st, None

    def start(self, ex, st, args, ins):
        st = st.copy()
        self.need(st, band(self.same(st, args[0], self.ode), self.same(st, args[1], self.state)), 'start: the integrator and the state of this system', ins)
        self.phase(st, 0, 'a sub-step starts when the previous one has ended', ins)
        self.need(st, eq(args[2], self.dt / T.i2r(self.steps)), 'every sub-step has an equal share of the time', ins)
        self.need(st, band(eq(self.get(st, 'populated'), I(1)), eq(self.get(st, 'masses'), I(1))), 'state and masses are populated before the first sub-step', ins)
        self.set(st, 'starts', add(self.get(st, 'starts'), I(1)))
        self.set(st, 'stage', I(0))
        self.set(st, 'phase', I(1))
        return st, None

    def step(self, ex, st, args, ins):
        st = st.copy()
        self.need(st, band(self.same(st, args[0], self.ode), self.same(st, args[1], self.state)), 'step: the integrator and the state of this system', ins)
        self.phase(st, 1, 'a stage begins after the previous one was integrated', ins)
        q, k = self.now(st)
        self.need(st, lt(k, self.nst(q)), 'no stage after the last one', ins)
        self.set(st, 'phase', I(2))
        return st, TRUE if self.single else eq(k, sub(NST(q), I(1)))

    def forces(self, ex, st, args, ins):
        st = st.copy()
        self.need(st, self.same(st, args[0], self.s.ptr), 'the forces of this system', ins)
        self.phase(st, 2, 'forces are evaluated once in every stage, at the state of the stage', ins)
        self.clock.advance(ex, st, DUR('force', *self.now(st)))
        self.set(st, 'phase', I(3))
        return st, None

    def constraints(self, ex, st, args, ins):
        st = st.copy()
        self.need(st, self.same(st, args[0], self.s.ptr), 'the constraints of this system', ins)
        self.phase(st, 3, 'constraints are evaluated once in every stage, after the forces', ins)
        if len(args) == 4:
            self.need(st, eq(args[1], self.dt / T.i2r(self.steps)), 'constraints are solved for the time of a sub-step', ins)
        q, k = self.now(st)
        ex.store(st, args[-2], 'I64', DUR('eval', q, k), ins)
        ex.store(st, args[-1], 'I64', DUR('solve', q, k), ins)
        self.clock.advance(ex, st, DUR('calc', q, k))
        self.set(st, 'phase', I(4))
        return st, None

    def value(self, f, q, k, i):
        return T.app('ode.' + f, [q, k, i], 'R')

    def solve(self, ex, st, args, ins):
        w, s = self.w, self.s
        st = st.copy()
        self.need(st, band(self.same(st, args[0], self.ode), self.same(st, args[1], self.state)), 'solve: the integrator and the state of this system', ins)
        self.phase(st, 4, 'a stage is integrated after its forces and constraints were evaluated', ins)
        q, k = self.now(st)
        for f in DYN + ('r_x', 'r_y', 'r_t'):
            p = w.get(st, s.reg, s.cls, 'm_state.' + f, 'P')
            n = exact_div(p.reg.size, 8)
            t = ex.c.bound('t')
            ch = ex.chain(st, p.reg, 'a')
            st.mem[(p.reg, 'a')] = ch.push(U(p.key, add(p.off, scale_i(t, 8)), TRUE, 'R', self.value(f, q, k, t), 'set', ((t, I(0), n),)))
        self.clock.advance(ex, st, DUR('ode', q, k))
        self.set(st, 'stage', add(k, I(1)))
        self.set(st, 'phase', I(1))
        return st, None

    def end(self, ex, st, args, ins):
        st = st.copy()
        self.need(st, self.same(st, args[0], self.ode), 'end: the integrator of this system', ins)
        self.phase(st, 1, 'a sub-step ends after its last stage was integrated', ins)
        q, k = self.now(st)
        self.need(st, eq(k, self.nst(q)), 'a sub-step ends when the integrator has reported its last stage', ins)
        self.set(st, 'phase', I(0))
        return st, None


class Call:
    def __init__(self, h):
        self.h = h

    def apply(self, ex, st, args, ins):
        return self.h(ex, st, args, ins)


def whole(E, cls, ode_cls):
    w = E.world(cls + '::process')
    dt, steps = V('dt'), V('steps', 'I')
    extra = {}
    if ode_cls == 'OdeSolver':
        o = w.obj('Ode', 'OdeSolver', {'_vptr$OdeSolver': AbsVT('OdeSolver')})
        extra['m_odeSolver'] = P0(o)
    s = system(w, cls, extra)
    w.assume(ge(steps, I(1)), gt(dt, R(0)))
    P = Protocol(w, s, steps, dt, P0(o) if ode_cls == 'OdeSolver' else Ptr(s.reg, I(w.off(cls, 'm_odeSolver'))))
    cs = w.c.contracts
    cs[w.fn('RigidBodySystem::populateSystemState')] = Call(P.populate)
    cs[w.fn('RigidBodySystem::populateMassMatrices')] = Call(P.masses)
    cs[w.fn('RigidBodySystem::processForces')] = Call(P.forces)
    cs[w.fn(cls + '::processConstraints')] = Call(P.constraints)
    for k, (m, h) in enumerate((('start', P.start), ('step', P.step), ('solve', P.solve), ('end', P.end))):
        w.c.virt[('OdeSolver', 2 + k)] = h
        if ode_cls != 'OdeSolver':
            cs[w.fn('%s::%s' % (ode_cls, m))] = Call(h)
    w.run(w.fn(cls + '::process'), [s.ptr, dt, steps])
    w.ensure_val('as many sub-steps as requested', P.get(w.post, 'starts'), steps, tag='C22')
    w.ensure_val('the last sub-step has ended', P.get(w.post, 'phase'), I(0), tag='C22')
    if 'm_t' in w.dbg.fields(cls):
        w.ensure_val('the elapsed time advances by the requested time', w.get(w.post, s.reg, cls, 'm_t'), add(V('sys.m_t'), dt), tag='C22')
    last = sub(steps, I(1))
    written_back(w, s, lambda f, i, rng: P.value(f, last, sub(P.nst(last), I(1)), i))
    fr = V('frame', 'I')
    us = lambda f: T.Sum(lambda q: T.Sum(lambda k: T.idiv(DUR(f, q, k), 1000), I(0), P.nst(q)), I(0), steps)
    tot = lambda f: T.Sum(lambda q: T.Sum(lambda k: DUR(f, q, k), I(0), P.nst(q)), I(0), steps)
    i = V('any.sample', 'I')
    rng = [ge(i, I(0)), lt(i, I(600))]
    for f, v, what in ((SAMPLES[0], us('ode'), 'integration'), (SAMPLES[1], tot('solve'), 'constraint solving'), (SAMPLES[2], us('force'), 'force evaluation'), (SAMPLES[3], tot('eval'), 'constraint evaluation')):
        p = w.get(w.post, s.reg, cls, f, 'P')
        w.ensure_val('the time of %s is recorded, the other samples are kept' % what, w.at(w.post, p, i, 'I64', rng), ite(eq(i, fr), v, A(f, i, 'I')), rng, tag='C22')
        for a in T.atoms_of(v):
            if a.op == 'sum':
                NONNEG.add(prefix_key(a))       # sums of durations
        w.ensure('the recorded time of %s is not negative' % what, ge(v, I(0)), tag='C22')
    w.ensure_val('the next sample replaces the oldest one', w.get(w.post, s.reg, cls, 'm_frameIndex', 'I64'), T.imod(add(fr, I(1)), 600), tag='C22')
    st_ = [(s.reg, w.off(cls, 'm_state.' + f)) for f, _, _, _ in ALL] + [(s.reg, w.off(cls, 'm_state.n')), (s.reg, w.off(cls, 'm_state.n_c'))]
    w.frame([P.g, (s.reg, w.off(cls, 'm_frameIndex'))] + st_ + [s.ov[f].reg for f in SAMPLES] + ([(s.reg, w.off(cls, 'm_t'))] if 'm_t' in w.dbg.fields(cls) else [])
            + [(s.body, w.off('RigidBody', f)) for f in DYN] + [(s.con, w.off('Constraint', f) + 8 * k) for f in ('F_x', 'F_y', 'F_t') for k in range(6)])
    return w


@task('C17 C20 C22', 'OptimizedNsvRigidBodySystem::process')
def t_whole_opt(E):
    return whole(E, 'OptimizedNsvRigidBodySystem', 'NsvOdeSolver')


@task('C17 C20 C22', 'GenericRigidBodySystem::process')
def t_whole_gen(E):
    return whole(E, 'GenericRigidBodySystem', 'OdeSolver')
