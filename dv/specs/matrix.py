"""C01, C02: dense matrices.

Two descriptions of a valid matrix are used.  The storage description (functions that manage
memory): a data array of capacityWidth*capacityHeight doubles and a row table with row i at
m_data + i*width.  The row description (all other functions): a row table whose entries point to
pairwise disjoint rows of width doubles; m_data is unknown, so that code that uses it is not
interpreted in this description.  resize establishes both (the lemma that rows i*width+j are
disjoint and inside the allocation is an obligation of resize)."""
from .base import *

CLS = 'Matrix'


# ------------------------------------------------------------------ valid matrices
class M:
    """a matrix of the pre state"""

    def __init__(self, ptr, w, h, fn):
        self.ptr, self.w, self.h, self.fn = ptr, w, h, fn

    def e(self, r, c):
        return T.app(self.fn, [r, c], 'R')


def rows_fields(w, name, wd, ht, prefix='', fn=None):
    """row description: {field: value}"""
    fn = fn or name + '.e'
    w.assume(ge(wd, I(0)), ge(ht, I(0)))
    data = Region(name + '.row', 'array', scale_i(wd, 8), 'R', nkeys=1, origin='ext',
                  init=lambda key, idx: T.app(fn, [key[0], idx], 'R'))
    data.uname = name + '.row'
    cap = T.var(name + '.capH', 'I')
    w.assume(ge(cap, ht))
    rows = Region(name + '.rows', 'array', scale_i(cap, 8), 'P', origin='ext',
                  init=lambda key, idx: pite(band(le(I(0), idx), lt(idx, ht)), Ptr(data, I(0), (idx,)), UndefP('unused row of ' + name)))
    rows.uname = name + '.rows'
    w.objs += [data, rows]
    return {prefix + 'm_matrix': Ptr(rows, I(0)), prefix + 'm_data': UndefP('m_data of ' + name), prefix + 'm_width': wd, prefix + 'm_height': ht,
            prefix + 'm_capacityWidth': T.var(name + '.capW', 'I'), prefix + 'm_capacityHeight': cap}, data


def mat(w, name, wd=None, ht=None):
    wd = wd if wd is not None else V(name + '.w', 'I')
    ht = ht if ht is not None else V(name + '.h', 'I')
    wd, ht = T.lift(wd, 'I'), T.lift(ht, 'I')
    ov, data = rows_fields(w, name, wd, ht)
    reg = w.obj(name, CLS, ov)
    m = M(P0(reg), wd, ht, name + '.e')
    m.reg, m.data = reg, data
    return m


def null_mat(w, name):
    reg = w.obj(name, CLS, {'m_matrix': NULL, 'm_data': NULL, 'm_width': I(0), 'm_height': I(0), 'm_capacityWidth': I(0), 'm_capacityHeight': I(0)})
    m = M(P0(reg), I(0), I(0), name + '.e')
    m.reg = reg
    return m


def flat_mat(w, name, wd=None, ht=None, order=None):
    """storage description; order: the place of each row in the data array (rows may have been exchanged)"""
    wd = wd if wd is not None else V(name + '.w', 'I')
    ht = ht if ht is not None else V(name + '.h', 'I')
    wd, ht = T.lift(wd, 'I'), T.lift(ht, 'I')
    cw, ch = V(name + '.cw', 'I'), V(name + '.ch', 'I')
    w.assume(ge(wd, I(0)), ge(ht, I(0)), ge(cw, wd), ge(ch, ht))
    data = w.array(name + '.data', mul(cw, ch), 'R')
    rows = w.array(name + '.rows', ch, 'P', init=lambda key, idx: pite(band(le(I(0), idx), lt(idx, ht)), Ptr(data.reg, scale_i(mul(order(idx) if order else idx, wd), 8)), UndefP('unused row')))
    if order:
        k = T.var('k@order', 'I')
        w.assume(T.forall(k, implies(band(ge(k, I(0)), lt(k, ht)), band(ge(order(k), I(0)), lt(order(k), ht)))))
    reg = w.obj(name, CLS, {'m_matrix': rows, 'm_data': data, 'm_width': wd, 'm_height': ht, 'm_capacityWidth': cw, 'm_capacityHeight': ch})
    m = M(P0(reg), wd, ht, None)
    m.e = lambda r, c: T.app(name + '.data', [add(mul(r, wd), c)], 'R')
    m.reg, m.data, m.rows = reg, data, rows
    return m


# ------------------------------------------------------------------ reading
def off(dbg):
    return dbg.fields(CLS)


def msize(ex, st, p, ins=None):
    o = off(ex.c.dbg)
    return ex.load(st, ex.padd(p, I(o['m_width'])), 'I32', ins), ex.load(st, ex.padd(p, I(o['m_height'])), 'I32', ins)


def row(ex, st, p, r):
    o = off(ex.c.dbg)
    m = ex.load(st, ex.padd(p, I(o['m_matrix'])), 'P')
    return ex.load(st, ex.padd(m, scale_i(r, 8)), 'P')


def reader(ex, st, p):
    """element function of the matrix at p in state st (a snapshot)"""
    snap = st.copy()
    wd, ht = msize(ex, snap, p)

    def e(r, c, facts=()):
        s = snap.copy()
        s.pc = s.pc + (ge(r, I(0)), lt(r, ht), ge(c, I(0)), lt(c, wd)) + tuple(facts)
        ex.c.suppress += 1
        try:
            q = row(ex, s, p, r)
            return ex.load(s, ex.padd(q, scale_i(c, 8)), 'R')
        finally:
            ex.c.suppress -= 1
    return e


def fresh_mat(ex, st, p, wd, ht, f=None, name='m'):
    """the matrix at p becomes wd x ht with elements f(row, column)"""
    c = ex.c
    o = off(c.dbg)
    lv = tuple(c.loopvars)
    if f is None:
        g = c.freshfn(name)
        el = lambda r, x: g((r, x), 'R')
    else:
        el = f
    la = [T.single_atom(v) for v in lv]

    def init(key, idx):
        v = el(key[-1], idx)
        mp = {a: k for a, k in zip(la, key) if atom(a) is not k}
        return T._subst(v, mp, {}) if mp else v
    n = len(lv)
    data = Region(c.newname(name + '.row'), 'array', scale_i(wd, 8), 'R', nkeys=1 + n, origin='heap', init=init)
    rows = Region(c.newname(name + '.rows'), 'array', scale_i(ht, 8), 'P', origin='heap', nkeys=n,
                  init=lambda key, idx: Ptr(data, I(0), tuple(key) + (idx,)))
    at = lambda x: ex.padd(p, I(o[x]))
    ex.store(st, at('m_matrix'), 'P', Ptr(rows, I(0), lv))
    ex.store(st, at('m_data'), 'P', UndefP('m_data'))
    ex.store(st, at('m_width'), 'I32', wd)
    ex.store(st, at('m_height'), 'I32', ht)
    ex.store(st, at('m_capacityWidth'), 'I32', c.fresh('capW', 'I'))
    ex.store(st, at('m_capacityHeight'), 'I32', c.fresh('capH', 'I'))
    return st


def assign(ex, st, p, wd, ht, f=None, name='m', ins=None):
    """effect of an operation whose target becomes wd x ht with elements f (None: unspecified)"""
    w0, h0 = msize(ex, st, p, ins)
    hy = st.hyps()
    if quick(hy, eq(w0, wd)) and quick(hy, eq(h0, ht)):
        if f is None:
            return st
        r, x = ex.c.bound('r'), ex.c.bound('c')
        s = st.copy()
        s.pc = s.pc + (ge(r, I(0)), lt(r, ht), ge(x, I(0)), lt(x, wd))
        ex.c.suppress += 1
        try:
            q = row(ex, s, p, r)
            if isinstance(q, PIte):
                qs = [x for g, x in ex._alts(q) if not quick(s.hyps(), bnot(g))]
                q = qs[0] if len(qs) == 1 else q
        finally:
            ex.c.suppress -= 1
        if not isinstance(q, Ptr):
            if quick(hy, eq(mul(wd, ht), I(0))) or quick(hy, eq(ht, I(0))):
                return st
            raise Unsupported('row table of ' + name)
        v = f(r, x)
        ch = ex.chain(st, q.reg, 'a')
        st = st.copy()
        st.mem[(q.reg, 'a')] = ch.push(U(q.key, add(q.off, scale_i(x, 8)), TRUE, 'R', v, 'set', ((r, I(0), ht), (x, I(0), wd))))
        return st
    return fresh_mat(ex, st, p, wd, ht, f, name)


# ------------------------------------------------------------------ contracts
class Op:
    """contract of a matrix operation: apply(ex, st, args) = precondition obligations + assign"""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def apply(self, ex, st, args, ins):
        st = st.copy()
        for a in args:
            if is_ptr(a) and not isinstance(a, Ptr):
                return NotImplemented
        return self.fn(ex, st, args, ins)


def need(ex, st, g, what, ins):
    ex.c.oblige(st, g, 'precondition: ' + what, ins, 'call')


def c_resize(ex, st, a, ins):
    need(ex, st, band(ge(a[1], I(0)), ge(a[2], I(0))), 'size is not negative', ins)
    return assign(ex, st, a[0], a[1], a[2], None, 'resized', ins), None


def c_init(ex, st, a, ins):
    need(ex, st, band(ge(a[1], I(0)), ge(a[2], I(0))), 'size is not negative', ins)
    v = a[3] if len(a) > 3 else R(0)
    return assign(ex, st, a[0], a[1], a[2], lambda r, c: v, 'init', ins), None


def c_set(ex, st, a, ins):
    wd, ht = msize(ex, st, a[1])
    e = reader(ex, st, a[1])
    return assign(ex, st, a[0], wd, ht, e, 'copy', ins), None


def distinct(ex, st, x, y, what, ins):
    need(ex, st, bnot(ex.pcmp(st, 'eq', x, y)), what, ins)


def c_multiply(ex, st, a, ins):
    this, b, t = a
    w1, h1 = msize(ex, st, this)
    w2, h2 = msize(ex, st, b)
    need(ex, st, eq(w1, h2), 'inner sizes agree', ins)
    distinct(ex, st, t, this, 'target is not the left operand', ins)
    distinct(ex, st, t, b, 'target is not the right operand', ins)
    x, y = reader(ex, st, this), reader(ex, st, b)
    return assign(ex, st, t, w2, h1, lambda r, c: T.Sum(lambda k: mul(x(r, k, [ge(k, I(0)), lt(k, w1)]), y(k, c, [ge(k, I(0)), lt(k, w1)])), I(0), w1), 'product', ins), None


def c_tmultiply(ex, st, a, ins):
    this, b, t = a
    w1, h1 = msize(ex, st, this)
    w2, h2 = msize(ex, st, b)
    need(ex, st, eq(h1, h2), 'heights agree', ins)
    distinct(ex, st, t, this, 'target is not the left operand', ins)
    distinct(ex, st, t, b, 'target is not the right operand', ins)
    x, y = reader(ex, st, this), reader(ex, st, b)
    return assign(ex, st, t, w2, w1, lambda r, c: T.Sum(lambda k: mul(x(k, r, [ge(k, I(0)), lt(k, h1)]), y(k, c, [ge(k, I(0)), lt(k, h1)])), I(0), h1), 'product', ins), None


def c_transpose(ex, st, a, ins):
    this, t = a
    w1, h1 = msize(ex, st, this)
    distinct(ex, st, t, this, 'target is not the operand', ins)
    x = reader(ex, st, this)
    return assign(ex, st, t, h1, w1, lambda r, c: x(c, r), 'transposed', ins), None


def c_ew2(op):
    def f(ex, st, a, ins):
        this, b, t = a
        w1, h1 = msize(ex, st, this)
        w2, h2 = msize(ex, st, b)
        need(ex, st, band(eq(w1, w2), eq(h1, h2)), 'sizes agree', ins)
        x, y = reader(ex, st, this), reader(ex, st, b)
        return assign(ex, st, t, w1, h1, lambda r, c: op(x(r, c), y(r, c)), 'elementwise', ins), None
    return f


def c_leftscale(ex, st, a, ins):
    this, s, t = a
    w1, h1 = msize(ex, st, this)
    w2, h2 = msize(ex, st, s)
    need(ex, st, band(eq(w2, I(1)), eq(h2, h1)), 'scale is a column of the height', ins)
    need(ex, st, bor(bnot(ex.pcmp(st, 'eq', t, s)), eq(w1, I(1))), 'a target that is also the scale keeps its size', ins)
    x, y = reader(ex, st, this), reader(ex, st, s)
    return assign(ex, st, t, w1, h1, lambda r, c: mul(y(r, I(0)), x(r, c)), 'scaled', ins), None


def c_rightscale(ex, st, a, ins):
    this, s, t = a
    w1, h1 = msize(ex, st, this)
    w2, h2 = msize(ex, st, s)
    need(ex, st, band(eq(w2, I(1)), eq(h2, w1)), 'scale is a column of the width', ins)
    need(ex, st, bor(bnot(ex.pcmp(st, 'eq', t, s)), band(eq(w1, I(1)), eq(h1, w1))), 'a target that is also the scale keeps its size', ins)
    x, y = reader(ex, st, this), reader(ex, st, s)
    return assign(ex, st, t, w1, h1, lambda r, c: mul(y(c, I(0)), x(r, c)), 'scaled', ins), None


def c_scale(ex, st, a, ins):
    this, s, t = a
    w1, h1 = msize(ex, st, this)
    x = reader(ex, st, this)
    return assign(ex, st, t, w1, h1, lambda r, c: mul(s, x(r, c)), 'scaled', ins), None


def c_negate(ex, st, a, ins):
    this, t = a
    w1, h1 = msize(ex, st, this)
    x = reader(ex, st, this)
    return assign(ex, st, t, w1, h1, lambda r, c: neg(x(r, c)), 'negated', ins), None


def c_madd(ex, st, a, ins):
    this, b, s = a
    w1, h1 = msize(ex, st, this)
    w2, h2 = msize(ex, st, b)
    need(ex, st, band(eq(w1, w2), eq(h1, h2)), 'sizes agree', ins)
    x, y = reader(ex, st, this), reader(ex, st, b)
    return assign(ex, st, this, w1, h1, lambda r, c: add(x(r, c), mul(y(r, c), s)), 'madd', ins), None


def c_pmadd(ex, st, a, ins):
    this, b, s = a
    w1, h1 = msize(ex, st, this)
    w2, h2 = msize(ex, st, b)
    need(ex, st, band(eq(w1, w2), eq(h1, h2)), 'sizes agree', ins)
    x, y = reader(ex, st, this), reader(ex, st, b)
    return assign(ex, st, this, w1, h1, lambda r, c: add(mul(s, x(r, c)), y(r, c)), 'pmadd', ins), None


def c_mag(ex, st, a, ins):
    w1, h1 = msize(ex, st, a[0])
    need(ex, st, eq(w1, I(1)), 'a column', ins)
    x = reader(ex, st, a[0])
    return st, T.Sum(lambda k: mul(x(k, I(0), [ge(k, I(0)), lt(k, h1)]), x(k, I(0), [ge(k, I(0)), lt(k, h1)])), I(0), h1)


def c_dot(ex, st, a, ins):
    w1, h1 = msize(ex, st, a[0])
    w2, h2 = msize(ex, st, a[1])
    need(ex, st, band(eq(w1, I(1)), eq(w2, I(1)), eq(h1, h2)), 'columns of equal height', ins)
    x, y = reader(ex, st, a[0]), reader(ex, st, a[1])
    return st, T.Sum(lambda k: mul(x(k, I(0), [ge(k, I(0)), lt(k, h1)]), y(k, I(0), [ge(k, I(0)), lt(k, h1)])), I(0), h1)


def c_swap(ex, st, a, ins):
    this, i, j = a
    w1, h1 = msize(ex, st, this)
    need(ex, st, band(ge(i, I(0)), lt(i, h1), ge(j, I(0)), lt(j, h1)), 'rows of the matrix', ins)
    x = reader(ex, st, this)
    return assign(ex, st, this, w1, h1, lambda r, c: x(ite(eq(r, i), j, ite(eq(r, j), i, r)), c), 'swapped', ins), None


CONTRACTS = {
    'Matrix::fastRowSwap': c_swap,
    'Matrix::resize': c_resize, 'Matrix::initialize/4': c_init, 'Matrix::initialize/3': c_init,
    'Matrix::multiply': c_multiply, 'Matrix::transposeMultiply': c_tmultiply, 'Matrix::transpose': c_transpose,
    'Matrix::componentMultiply': c_ew2(mul), 'Matrix::add/3': c_ew2(add), 'Matrix::subtract': c_ew2(sub),
    'Matrix::leftScale': c_leftscale, 'Matrix::rightScale': c_rightscale, 'Matrix::scale': c_scale, 'Matrix::negate': c_negate,
    'Matrix::madd': c_madd, 'Matrix::pmadd': c_pmadd, 'Matrix::vectorMagnitudeSquared': c_mag, 'Matrix::dot': c_dot,
}


def install(w, names=None):
    """use the contracts of the matrix functions at call sites"""
    for n, f in CONTRACTS.items():
        if names is not None and n not in names:
            continue
        try:
            w.c.contracts[w.fn(n)] = Op(n, f)
        except Spec:
            pass
    if names is None or 'Matrix::set/2' in names:
        for m in set_fns(w):
            w.c.contracts[m] = Op('Matrix::set', c_set)


def set_fns(w):
    return [n for n in w.mod.funcs if n.startswith('@_ZN7atg_scs6Matrix3setEPS0_') and not w.mod.funcs[n].decl]


# ------------------------------------------------------------------ postconditions
def is_matrix(w, ptr, wd, ht, f, name='target'):
    """the matrix at ptr is wd x ht and its elements, as get() reads them, are f(row, column)"""
    ex, st = w.ex, w.post
    gw, gh = msize(ex, st, ptr)
    w.ensure_val('%s has the width of the result' % name, gw, wd)
    w.ensure_val('%s has the height of the result' % name, gh, ht)
    r, c = V('any.row', 'I'), V('any.col', 'I')
    rng = [ge(r, I(0)), lt(r, ht), ge(c, I(0)), lt(c, wd)]
    elem(w, ptr, r, c, f(r, c), rng, 'every entry of %s' % name)


def elem(w, ptr, r, c, want, rng, what):
    s = w.post.copy()
    s.pc = s.pc + tuple(rng)
    n0 = len(w.c.obls)
    q = row(w.ex, s, ptr, r)
    v = w.ex.load(s, w.ex.padd(q, scale_i(c, 8)), 'R')
    w.ensure_val(what + ' is the specified value', v, want, rng)


def op_task(fn, operands, result, f, aliases, both=False):
    """verify fn(operands.., target) for targets of the right size, of another size and aliased operands.
    operands: f(w) -> (list of M, extra args); result(ms) -> (w, h)"""
    def go(E):
        ws = []
        kinds = ['fits', 'other size'] + ['target is operand %d' % k for k in aliases]
        if both:
            kinds += ['both operands are one matrix, target ' + k for k in ('fits', 'of other size')]
            kinds += ['both operands and the target are one matrix'] if aliases else []
        for kind in kinds:
            w = E.world('%s (%s)' % (fn, kind))
            install(w, ['Matrix::resize'])
            ms, xargs = operands(w)
            if kind.startswith('both'):
                w.assume(eq(ms[0].w, ms[1].w), eq(ms[0].h, ms[1].h))
                ms[1] = ms[0]
            wd, ht = result(ms)
            if kind.startswith('target is') or kind.endswith('one matrix'):
                t = ms[int(kind.split()[-1])] if kind.startswith('target') else ms[0]
                w.assume(eq(t.w, wd), eq(t.h, ht))
            elif kind.endswith('fits'):
                t = mat(w, 'T', wd, ht)
            else:
                t = mat(w, 'T')
                w.assume(bor(ne(t.w, wd), ne(t.h, ht)))
            args = [ms[0].ptr] + (xargs if xargs is not None else [m.ptr for m in ms[1:]]) + [t.ptr]
            w.run(w.fn(fn), args)
            is_matrix(w, t.ptr, wd, ht, lambda r, c: f(ms, r, c))
            w.frame([t.reg, t.data])
            ws.append(w)
        return ws
    return go


def two_same(w):
    a = mat(w, 'A')
    b = mat(w, 'B', a.w, a.h)
    return [a, b], None


def one(w):
    return [mat(w, 'A')], []


def reg_op(fn, operands, result, f, aliases, both=False):
    task('C01', fn)(op_task(fn, operands, result, f, aliases, both))


same0 = lambda ms: (ms[0].w, ms[0].h)
reg_op('Matrix::add/3', two_same, same0, lambda ms, r, c: add(ms[0].e(r, c), ms[1].e(r, c)), (0, 1), True)
reg_op('Matrix::subtract', two_same, same0, lambda ms, r, c: sub(ms[0].e(r, c), ms[1].e(r, c)), (0, 1), True)
reg_op('Matrix::componentMultiply', two_same, same0, lambda ms, r, c: mul(ms[0].e(r, c), ms[1].e(r, c)), (0, 1), True)
reg_op('Matrix::negate', one, same0, lambda ms, r, c: neg(ms[0].e(r, c)), (0,))
reg_op('Matrix::scale', lambda w: ([mat(w, 'A')], [V('s')]), same0, lambda ms, r, c: mul(V('s'), ms[0].e(r, c)), (0,))


def with_col(dim):
    def f(w):
        a = mat(w, 'A')
        return [a, mat(w, 'B', I(1), getattr(a, dim))], None
    return f


reg_op('Matrix::leftScale', with_col('h'), same0, lambda ms, r, c: mul(ms[1].e(r, I(0)), ms[0].e(r, c)), (0, 1), True)
reg_op('Matrix::rightScale', with_col('w'), same0, lambda ms, r, c: mul(ms[1].e(c, I(0)), ms[0].e(r, c)), (0, 1), True)
reg_op('Matrix::transpose', one, lambda ms: (ms[0].h, ms[0].w), lambda ms, r, c: ms[0].e(c, r), ())


def prod(w):
    a = mat(w, 'A')
    return [a, mat(w, 'B', None, a.w)], None


def tprod(w):
    a = mat(w, 'A')
    return [a, mat(w, 'B', None, a.h)], None


reg_op('Matrix::multiply', prod, lambda ms: (ms[1].w, ms[0].h),
       lambda ms, r, c: T.Sum(lambda k: mul(ms[0].e(r, k), ms[1].e(k, c)), I(0), ms[0].w), ())
reg_op('Matrix::transposeMultiply', tprod, lambda ms: (ms[1].w, ms[0].w),
       lambda ms, r, c: T.Sum(lambda k: mul(ms[0].e(k, r), ms[1].e(k, c)), I(0), ms[0].h), (), True)


def square(E):
    """squaring: both operands are the same matrix"""
    w = E.world('Matrix::multiply (square)')
    install(w, ['Matrix::resize'])
    a = mat(w, 'A', V('n', 'I'), V('n', 'I'))
    t = mat(w, 'T')
    w.run(w.fn('Matrix::multiply'), [a.ptr, a.ptr, t.ptr])
    is_matrix(w, t.ptr, a.w, a.h, lambda r, c: T.Sum(lambda k: mul(a.e(r, k), a.e(k, c)), I(0), a.w))
    w.frame([t.reg, t.data])
    return w


task('C01', 'Matrix::multiply by itself')(square)


def inplace(fn, f):
    def go(E):
        ws = []
        for kind in ('two matrices', 'same matrix'):
            w = E.world('%s (%s)' % (fn, kind))
            a = mat(w, 'A')
            b = mat(w, 'B', a.w, a.h) if kind == 'two matrices' else a
            w.run(w.fn(fn), [a.ptr, b.ptr, V('s')])
            is_matrix(w, a.ptr, a.w, a.h, lambda r, c: f(a.e(r, c), b.e(r, c)))
            w.frame([a.data])
            ws.append(w)
        return ws
    task('C01', fn)(go)


inplace('Matrix::madd', lambda a, b: add(a, mul(b, V('s'))))
inplace('Matrix::pmadd', lambda a, b: add(mul(V('s'), a), b))


@task('C01', 'Matrix::vectorMagnitudeSquared and dot')
def t_mag(E):
    ws = []
    w = E.world('Matrix::vectorMagnitudeSquared')
    a = mat(w, 'A', I(1))
    w.run(w.fn('Matrix::vectorMagnitudeSquared'), [a.ptr])
    w.assume(gt(a.h, I(0)))
    w.ensure_val('the sum of the squares', w.ret, T.Sum(lambda k: mul(a.e(k, I(0)), a.e(k, I(0))), I(0), a.h))
    w.frame([])
    ws.append(w)
    for kind in ('two', 'same'):
        w = E.world('Matrix::dot (%s)' % kind)
        a = mat(w, 'A', I(1))
        b = mat(w, 'B', I(1), a.h) if kind == 'two' else a
        w.run(w.fn('Matrix::dot'), [a.ptr, b.ptr])
        w.ensure_val('the sum of the products', w.ret, T.Sum(lambda k: mul(a.e(k, I(0)), b.e(k, I(0))), I(0), a.h))
        w.frame([])
        ws.append(w)
    return ws


@task('C01', 'Matrix::equals')
def t_equals(E):
    ws = []
    err = V('err')
    for kind in ('same size', 'other width', 'other height'):
        w = E.world('Matrix::equals (%s)' % kind)
        a = mat(w, 'A')
        b = mat(w, 'B', *((a.w, a.h) if kind == 'same size' else (None, a.h) if kind == 'other width' else (a.w, None)))
        if kind == 'other width':
            w.assume(ne(a.w, b.w))
        if kind == 'other height':
            w.assume(ne(a.h, b.h))
        w.run(w.fn('Matrix::equals'), [a.ptr, b.ptr, err])
        if kind != 'same size':
            w.ensure('false when the sizes differ', bnot(w.ret))
        else:
            r, c = V('any.row', 'I'), V('any.col', 'I')
            w.ensure('true only if every entry is within the tolerance', le(T.fabs(sub(a.e(r, c), b.e(r, c))), err),
                     [w.ret, ge(r, I(0)), lt(r, a.h), ge(c, I(0)), lt(c, a.w)])
            q1, q2 = V('q1', 'I'), V('q2', 'I')
            allok = T.forall(q1, T.forall(q2, implies(band(ge(q1, I(0)), lt(q1, a.h), ge(q2, I(0)), lt(q2, a.w)), le(T.fabs(sub(a.e(q1, q2), b.e(q1, q2))), err))))
            w.ensure('true if every entry is within the tolerance', w.ret, [allok])
        w.frame([])
        ws.append(w)
    return ws


@task('C01 C02', 'Matrix::get, set, add')
def t_getset(E):
    ws = []
    r, c, v = V('r', 'I'), V('c', 'I'), V('v')
    for what in ('get', 'set', 'add'):
        w = E.world('Matrix::%s' % what)
        a = mat(w, 'A')
        w.assume(ge(r, I(0)), lt(r, a.h), ge(c, I(0)), lt(c, a.w))
        if what == 'get':
            w.run(w.fn('Matrix::get'), [a.ptr, c, r])
            w.ensure_val('the entry', w.ret, a.e(r, c))
            w.frame([])
        else:
            f = [n for n in w.mod.funcs if n in ('@_ZN7atg_scs6Matrix3%sEiid' % what,)]
            if not f:
                raise Spec('Matrix::%s(int, int, double)' % what)
            w.run(f[0], [a.ptr, c, r, v])
            new = v if what == 'set' else add(a.e(r, c), v)
            is_matrix(w, a.ptr, a.w, a.h, lambda x, y: ite(band(eq(x, r), eq(y, c)), new, a.e(x, y)), 'the matrix')
            w.frame([a.data])
        ws.append(w)
    return ws


@task('C01', 'Matrix::set(Matrix*)')
def t_set(E):
    ws = []
    for kind in ('fits', 'other size', 'itself'):
        w = E.world('Matrix::set (%s)' % kind)
        install(w, ['Matrix::resize'])
        a = mat(w, 'A')
        t = a if kind == 'itself' else mat(w, 'T', a.w, a.h) if kind == 'fits' else mat(w, 'T')
        if kind == 'other size':
            w.assume(bor(ne(a.w, t.w), ne(a.h, t.h)))
        fs = set_fns(w)
        if len(fs) != 1:
            raise Spec('Matrix::set(Matrix*)')
        w.run(fs[0], [t.ptr, a.ptr])
        is_matrix(w, t.ptr, a.w, a.h, lambda r, c: a.e(r, c))
        w.frame([t.reg, t.data])
        ws.append(w)
    return ws


# ==================================================================== C02: storage
def exchanged(k):
    """rows in an arbitrary order"""
    return T.app('T.order', [k], 'I')


def storage_state(w, name, kind, order=None):
    return null_mat(w, name) if kind == 'empty' else flat_mat(w, name, order=order)


def alts(w, st, p):
    out = []
    for c, q in w.ex._alts(p):
        if c is not TRUE and quick(st.hyps(), bnot(c)):
            continue
        out.append((c, q))
    return out


def storage_ok(w, ptr, wd, ht, order=None):
    """the matrix at ptr is a valid wd x ht matrix: its data array has room, row i starts at i*width
    (at order(i)*width for a matrix whose rows have been exchanged: order is one-to-one), and so distinct
    entries are distinct elements of one live array"""
    at = order or (lambda k: k)
    ex, st = w.ex, w.post
    o = off(w.dbg)
    gw, gh = msize(ex, st, ptr)
    w.ensure_val('width is the requested one', gw, wd)
    w.ensure_val('height is the requested one', gh, ht)
    ld = lambda f, k: ex.load(st, ex.padd(ptr, I(o[f])), k)
    w.ensure('capacity covers the size', band(ge(ld('m_capacityWidth', 'I32'), wd), ge(ld('m_capacityHeight', 'I32'), ht)))
    data, rows = ld('m_data', 'P'), ld('m_matrix', 'P')
    some = [gt(wd, I(0)), gt(ht, I(0))]
    for c, q in alts(w, st, data):
        if not isinstance(q, Ptr):
            w.ensure('entries have storage', bnot(band(c, *some)))
            continue
        w.ensure('data array has room for every capacity', implies(c, band(eq(q.off, I(0)), ge(q.reg.size, scale_i(mul(ld('m_capacityWidth', 'I32'), ld('m_capacityHeight', 'I32')), 8)))))
        w.ensure('data array is live', bnot(band(c, st.freed.get(q.reg, FALSE))))
    for c, q in alts(w, st, rows):
        if not isinstance(q, Ptr):
            w.ensure('rows have a table', bnot(band(c, *some)))
            continue
        w.ensure('row table has room for every row', implies(c, band(eq(q.off, I(0)), ge(q.reg.size, scale_i(ld('m_capacityHeight', 'I32'), 8)))))
        w.ensure('row table is live', bnot(band(c, st.freed.get(q.reg, FALSE))))
    r, r2, x, x2 = V('any.row', 'I'), V('other.row', 'I'), V('any.col', 'I'), V('other.col', 'I')
    rng = [ge(r, I(0)), lt(r, ht), ge(x, I(0)), lt(x, wd)]
    rng2 = rng + [ge(r2, I(0)), lt(r2, ht), ge(x2, I(0)), lt(x2, wd)]
    s = st.copy()
    s.pc = s.pc + tuple(rng)
    q = row(ex, s, ptr, r)
    w.ensure_val('row i starts at data + i*width', q, ex.padd(data, scale_i(mul(at(r), wd), 8)), rng)
    # the entry is inside the array and no other entry is stored there
    if order:
        place = [ge(at(r), I(0)), lt(at(r), ht), ge(at(r2), I(0)), lt(at(r2), ht)]
        rng, rng2 = rng + place[:2], rng2 + place
    e1, e2 = add(mul(at(r), wd), x), add(mul(at(r2), wd), x2)
    for c, q in alts(w, st, data):
        if isinstance(q, Ptr):
            w.ensure('every entry lies inside the data array', implies(c, band(ge(e1, I(0)), le(add(scale_i(e1, 8), I(8)), q.reg.size))), rng)
    w.ensure('distinct entries are distinct storage (rows in order)', ne(e1, e2), rng2 + [lt(at(r), at(r2))])
    w.ensure('distinct entries are distinct storage (same row)', ne(add(mul(at(r), wd), x), add(mul(at(r), wd), x2)), rng2 + [ne(x, x2)])


def released(w, m):
    for what in ('data', 'rows'):
        p = getattr(m, what, None)
        if isinstance(p, Ptr) and what == 'data' or (what == 'rows' and p is not None):
            w.ensure('%s of before is released' % what, w.post.freed.get(p.reg, FALSE))


def mem_of(m):
    return [m.reg] + [p.reg for p in (getattr(m, 'data', None), getattr(m, 'rows', None)) if isinstance(p, Ptr)]


@task('C02', 'Matrix constructors')
def m_ctor(E):
    ws = []
    w = E.world('Matrix::Matrix()')
    reg = w.obj('T', CLS)
    w.run(w.fn('Matrix::Matrix/1'), [P0(reg)])
    for f in ('m_matrix', 'm_data'):
        w.ensure_val('%s is null' % f, w.get(w.post, reg, CLS, f, 'P'), NULL)
    for f in ('m_width', 'm_height', 'm_capacityWidth', 'm_capacityHeight'):
        w.ensure_val('%s is zero' % f, w.get(w.post, reg, CLS, f, 'I32'), I(0))
    ws.append(w)
    w = E.world('Matrix::Matrix(width, height, value)')
    reg = w.obj('T', CLS)
    wd, ht, v = V('w', 'I'), V('h', 'I'), V('v')
    w.assume(gt(wd, I(0)), gt(ht, I(0)))
    w.run(w.fn('Matrix::Matrix/4'), [P0(reg), wd, ht, v])
    storage_ok(w, P0(reg), wd, ht)
    is_matrix(w, P0(reg), wd, ht, lambda r, c: v, 'the matrix')
    ws.append(w)
    return ws


SIZES = [('empty', 'from empty'), ('full', 'same size'), ('full', 'same size, rows exchanged'), ('full', 'wider than the capacity'), ('full', 'higher than the capacity'), ('full', 'within the capacity')]


def sizes(w, m, what, wd, ht):
    w.assume(ge(wd, I(0)), ge(ht, I(0)))
    if what == 'from empty':
        w.assume(bor(gt(wd, I(0)), gt(ht, I(0))))
    elif what.startswith('same size'):
        w.assume(eq(wd, m.w), eq(ht, m.h))
    elif what.startswith('wider'):
        w.assume(gt(wd, V('T.cw', 'I')))
    elif what.startswith('higher'):
        w.assume(le(wd, V('T.cw', 'I')), gt(ht, V('T.ch', 'I')))
    else:
        w.assume(le(wd, V('T.cw', 'I')), le(ht, V('T.ch', 'I')), bor(ne(wd, m.w), ne(ht, m.h)))


@task('C02', 'Matrix::resize')
def m_resize(E):
    ws = []
    for kind, what in SIZES:
        w = E.world('Matrix::resize (%s)' % what)
        order = exchanged if 'exchanged' in what else None
        m = storage_state(w, 'T', kind, order)
        wd, ht = V('w', 'I'), V('h', 'I')
        sizes(w, m, what, wd, ht)
        w.run(w.fn('Matrix::resize'), [m.ptr, wd, ht])
        storage_ok(w, m.ptr, wd, ht, order)
        w.frame([] if what.startswith('same size') else mem_of(m))
        if 'than the capacity' in what:
            released(w, m)
        ws.append(w)
    return ws


def init_task(fn, nargs):
    def one(E, kind, what, by_rows):
        w = E.world('%s (%s)' % (fn, what))
        order = exchanged if 'exchanged' in what else None
        m = mat(w, 'T') if by_rows else storage_state(w, 'T', kind, order)
        wd, ht, v = V('w', 'I'), V('h', 'I'), V('v')
        if what == 'to nothing':
            wd, ht = I(0), I(0)
        else:
            sizes(w, m, what, wd, ht)
        w.run(w.fn(fn), [m.ptr, wd, ht, v][:nargs])
        if by_rows and any(o.goal is FALSE for o in w.c.obls):
            raise Unsupported('data array in the row description')
        if what != 'to nothing':
            if not by_rows:
                storage_ok(w, m.ptr, wd, ht, order)
            is_matrix(w, m.ptr, wd, ht, lambda r, c: v if nargs == 4 else R(0), 'the matrix')
        w.frame([m.data] if by_rows else mem_of(m))
        return w

    def go(E):
        ws = []
        for kind, what in SIZES + [('empty', 'to nothing')]:
            k = len(E.worlds)
            try:
                # exchanged rows: by the row table if the function uses that, else by the data array
                w = one(E, kind, what, 'exchanged' in what)
            except Unsupported:
                if 'exchanged' not in what:
                    raise
                del E.worlds[k:]
                w = one(E, kind, what, False)
            ws.append(w)
        return ws
    task('C02', fn)(go)


init_task('Matrix::initialize/4', 4)
init_task('Matrix::initialize/3', 3)


@task('C02', 'Matrix::set(const double*)')
def m_setdata(E):
    w = E.world('Matrix::set(const double*)')
    m = mat(w, 'T')
    src = w.array('src', mul(m.w, m.h), 'R')
    fs = [n for n in w.mod.funcs if n == '@_ZN7atg_scs6Matrix3setEPKd']
    if not fs:
        raise Spec('Matrix::set(const double*)')
    w.run(fs[0], [m.ptr, src])
    is_matrix(w, m.ptr, m.w, m.h, lambda r, c: T.app('src', [add(mul(r, m.w), c)], 'R'), 'the matrix')
    w.frame([m.data])
    return w


@task('C02', 'Matrix::destroy and destructor')
def m_destroy(E):
    ws = []
    for kind in ('empty', 'full'):
        w = E.world('Matrix::destroy (%s)' % kind)
        m = storage_state(w, 'T', kind)
        w.run(w.fn('Matrix::destroy'), [m.ptr])
        for f in ('m_matrix', 'm_data'):
            w.ensure_val('%s is null' % f, w.get(w.post, m.reg, CLS, f, 'P'), NULL)
        for f in ('m_width', 'm_height', 'm_capacityWidth', 'm_capacityHeight'):
            w.ensure_val('%s is zero' % f, w.get(w.post, m.reg, CLS, f, 'I32'), I(0))
        released(w, m)
        w.frame(mem_of(m))
        w.st = w.post
        w.run(w.fn('Matrix::destroy'), [m.ptr])
        w.st = w.post
        w.run(w.fn('Matrix::~Matrix'), [m.ptr])
        ws.append(w)
    return ws


@task('C02', 'Matrix lifecycle from construction to destruction')
def m_life(E):
    ws = []
    for last in ('resize',):
        w = E.world('Matrix: construct, resize, %s, destroy, destruct' % last)
        reg = w.obj('T', CLS)
        p = P0(reg)
        w.run(w.fn('Matrix::Matrix/1'), [p])
        w.st = w.post
        a, b, c, d = (V(n, 'I') for n in ('w1', 'h1', 'w2', 'h2'))
        w.assume(ge(a, I(0)), ge(b, I(0)), ge(c, I(0)), ge(d, I(0)))
        w.run(w.fn('Matrix::resize'), [p, a, b])
        w.st = w.post
        w.run(w.fn('Matrix::' + last), [p, c, d] + ([V('v')] if last.endswith('4') else []))
        w.st = w.post
        w.run(w.fn('Matrix::destroy'), [p])
        w.st = w.post
        w.run(w.fn('Matrix::~Matrix'), [p])
        w.ensure('the destructor returns', TRUE if w.post is not None else FALSE, st=w.pre)
        ws.append(w)
    return ws


@task('C02', 'Matrix::getWidth and getHeight')
def m_getters(E):
    ws = []
    for n, f in (('Width', 'w'), ('Height', 'h')):
        w = E.world('Matrix::get' + n)
        m = mat(w, 'A')
        w.run(w.fn('Matrix::get' + n), [m.ptr])
        w.ensure_val('the ' + n.lower(), w.ret, getattr(m, f))
        w.frame([])
        ws.append(w)
    return ws


@task('C02', 'Matrix::fastRowSwap')
def m_swap(E):
    w = E.world('Matrix::fastRowSwap')
    m = mat(w, 'A')
    a, b = V('a', 'I'), V('b', 'I')
    w.assume(ge(a, I(0)), lt(a, m.h), ge(b, I(0)), lt(b, m.h))
    w.run(w.fn('Matrix::fastRowSwap'), [m.ptr, a, b])
    is_matrix(w, m.ptr, m.w, m.h, lambda r, c: m.e(ite(eq(r, a), b, ite(eq(r, b), a, r)), c), 'the matrix')
    # only the row table changes
    w.frame([x for x in w.objs if x.name == 'A.rows'])
    return w
