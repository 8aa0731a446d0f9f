"""C03, C04: block-sparse matrices SparseMatrix<3, 2>.

Each row has two entries; entry k of row i belongs to block blk(i, k) (-1: unused) and holds three
values, those of columns 3*blk(i, k) + 0..2.  A valid matrix has every block in range and names no
block twice in a row.  As for dense matrices there are two descriptions: the row description
(operations) with pairwise disjoint rows, and the storage description (memory management)."""
from .base import *
from . import matrix as M
from .matrix import Op, need, distinct, msize as dsize, reader as dreader, alts

CLS = 'SparseMatrix<3, 2>'
CN = 'SparseMatrix'
ST, EN = 3, 2
BLK = {}          # block function -> (number of blocks, height)


def _blk(atoms):
    out = []
    for a in atoms:
        if a.op == 'app' and a.args[0] in BLK and len(a.args) == 3:
            nb, ht = BLK[a.args[0]]
            i, k = a.args[1], a.args[2]
            other = T.app(a.args[0], [i, sub(I(1), k)], 'I')
            out.append(implies(band(ge(i, I(0)), lt(i, ht)), band(ge(atom(a), I(-1)), lt(atom(a), nb))))
            out.append(implies(band(ge(i, I(0)), lt(i, ht), ge(atom(a), I(0))), ne(atom(a), other)))
    return out


smt.LEMMAS.append(_blk)
smt.REGS.append(BLK)
smt.KEEP.append(BLK)


class S:
    def blk(self, i, k):
        return T.app(self.bfn, [i, I(k) if isinstance(k, int) else k], 'I')

    def v(self, i, k, l):
        return T.app(self.efn, [i, I(ST * k + l)], 'R')


def row_fields(w, name, nb, ht, prefix=''):
    s = S()
    s.nb, s.h, s.name = nb, ht, name
    s.bfn, s.efn = '%s.blk(%s x %s)' % (name, T.show(nb), T.show(ht)), name + '.e'
    BLK[s.bfn] = (nb, ht)
    w.assume(ge(nb, I(0)), ge(ht, I(0)))
    data = Region(name + '.row', 'array', I(8 * ST * EN), 'R', nkeys=1, origin='ext', init=lambda key, idx: T.app(s.efn, [key[0], idx], 'R'))
    data.uname = name + '.row'
    cap = V(name + '.capH', 'I')
    w.assume(ge(cap, ht))
    rows = Region(name + '.rows', 'array', scale_i(cap, 8), 'P', origin='ext',
                  init=lambda key, idx: pite(band(le(I(0), idx), lt(idx, ht)), Ptr(data, I(0), (idx,)), UndefP('unused row of ' + name)))
    rows.uname = name + '.rows'
    blk = w.array(name + '.blocks', scale_i(cap, EN), 'I32', init=lambda key, idx: s.blk(T.idiv(idx, EN), T.sub(idx, scale_i(T.idiv(idx, EN), EN))))
    w.objs += [data, rows]
    s.data, s.blocks = data, blk.reg
    return s, {prefix + 'm_matrix': Ptr(rows, I(0)), prefix + 'm_data': UndefP('m_data of ' + name), prefix + 'm_blockData': blk,
               prefix + 'm_width': scale_i(nb, ST), prefix + 'm_height': ht, prefix + 'm_capacityHeight': cap}


def smat(w, name, nb=None, ht=None):
    nb = nb if nb is not None else V(name + '.nb', 'I')
    ht = ht if ht is not None else V(name + '.h', 'I')
    s, ov = row_fields(w, name, nb, ht)
    s.reg = w.obj(name, CLS, ov)
    s.ptr = P0(s.reg)
    return s


def off(dbg):
    return dbg.fields(CLS)


def size(ex, st, p, ins=None):
    """(width, height)"""
    o = off(ex.c.dbg)
    return ex.load(st, ex.padd(p, I(o['m_width'])), 'I32', ins), ex.load(st, ex.padd(p, I(o['m_height'])), 'I32', ins)


def snap(ex, st, p):
    """(blk(i, k), v(i, k, l)) of the matrix at p in state st"""
    o = off(ex.c.dbg)
    st = st.copy()
    wd, ht = size(ex, st, p)

    def at(i, facts=()):
        s = st.copy()
        s.pc = s.pc + (ge(i, I(0)), lt(i, ht)) + tuple(facts)
        return s

    def quiet(f):
        ex.c.suppress += 1
        try:
            return f()
        finally:
            ex.c.suppress -= 1

    def blk(i, k, facts=()):
        def go():
            s = at(i, facts)
            b = ex.load(s, ex.padd(p, I(o['m_blockData'])), 'P')
            return ex.load(s, ex.padd(b, scale_i(add(scale_i(i, EN), I(k)), 4)), 'I32')
        return quiet(go)

    def v(i, k, l, facts=()):
        def go():
            s = at(i, facts)
            m = ex.load(s, ex.padd(p, I(o['m_matrix'])), 'P')
            q = ex.load(s, ex.padd(m, scale_i(i, 8)), 'P')
            return ex.load(s, ex.padd(q, I(8 * (ST * k + l))), 'R')
        return quiet(go)
    return blk, v


def fresh(ex, st, p, wd, ht, blk, v, name):
    """the matrix at p becomes wd x ht with the given blocks and values"""
    c = ex.c
    o = off(c.dbg)
    lv = tuple(c.loopvars)
    la = [T.single_atom(x) for x in lv]

    def back(x, key):
        mp = {a: k for a, k in zip(la, key) if atom(a) is not k}
        return T._subst(x, mp, {}) if mp else x

    def pick(fs, x):
        n = T.const_int(x)
        if n is not None and 0 <= n < len(fs):
            return fs[n]()
        r = fs[-1]()
        for i in range(len(fs) - 2, -1, -1):
            r = ite(eq(x, I(i)), fs[i](), r)
        return r
    n = len(lv)
    data = Region(c.newname(name + '.row'), 'array', I(8 * ST * EN), 'R', nkeys=1 + n, origin='heap',
                  init=lambda key, idx: back(pick([lambda e=e: v(key[-1], e // ST, e % ST) for e in range(ST * EN)], idx), key))
    rows = Region(c.newname(name + '.rows'), 'array', scale_i(ht, 8), 'P', origin='heap', nkeys=n,
                  init=lambda key, idx: Ptr(data, I(0), tuple(key) + (idx,)))
    blocks = Region(c.newname(name + '.blocks'), 'array', scale_i(ht, 4 * EN), 'I32', origin='heap', nkeys=n,
                    init=lambda key, idx: back(pick([lambda e=e: blk(T.idiv(idx, EN), e) for e in range(EN)], sub(idx, scale_i(T.idiv(idx, EN), EN))), key))
    at = lambda x: ex.padd(p, I(o[x]))
    ex.store(st, at('m_matrix'), 'P', Ptr(rows, I(0), lv))
    ex.store(st, at('m_data'), 'P', UndefP('m_data'))
    ex.store(st, at('m_blockData'), 'P', Ptr(blocks, I(0), lv))
    ex.store(st, at('m_width'), 'I32', wd)
    ex.store(st, at('m_height'), 'I32', ht)
    ex.store(st, at('m_capacityHeight'), 'I32', c.fresh('capH', 'I'))
    return st


# ------------------------------------------------------------------ contracts
def c_init(ex, st, a, ins):
    need(ex, st, band(ge(a[1], I(0)), ge(a[2], I(0))), 'size is not negative', ins)
    return fresh(ex, st, a[0], a[1], a[2], lambda i, k: I(-1), lambda i, k, l: R(0), 'sparse'), None


def valid(ex, st, p, what, ins):
    """the blocks of p are in range and differ within a row (checked at the call for an arbitrary row)"""
    wd, ht = size(ex, st, p)
    blk, v = snap(ex, st, p)
    i = ex.c.bound('vrow')
    s = st.copy()
    s.pc = s.pc + (ge(i, I(0)), lt(i, ht))
    b = [blk(i, k) for k in range(EN)]
    for k in range(EN):
        ex.c.oblige(s, bor(eq(b[k], I(-1)), band(ge(b[k], I(0)), le(add(scale_i(b[k], ST), I(ST)), wd))), 'precondition: blocks of %s are in range' % what, ins, 'call')
    ex.c.oblige(s, bor(eq(b[0], I(-1)), ne(b[0], b[1])), 'precondition: a row of %s names no block twice' % what, ins, 'call')


def used(b, x):
    return ite(eq(b, I(-1)), R(0), x)


def c_multiply(ex, st, a, ins):
    this, b, t = a
    wd, ht = size(ex, st, this)
    bw, bh = dsize(ex, st, b)
    need(ex, st, eq(wd, bh), 'the operand has as many rows as the matrix has columns', ins)
    distinct(ex, st, t, b, 'target is not the operand', ins)
    valid(ex, st, this, 'the matrix', ins)
    blk, v = snap(ex, st, this)
    x = dreader(ex, st, b)

    def f(r, c):
        tot = R(0)
        for k in range(EN):
            q = blk(r, k)
            u = [ne(q, I(-1))]
            tot = add(tot, used(q, sumup(mul(v(r, k, l), x(add(scale_i(q, ST), I(l)), c, u)) for l in range(ST))))
        return tot
    return M.assign(ex, st, t, bw, ht, f, 'product', ins), None


def sumup(xs):
    r = R(0)
    for x in xs:
        r = add(r, x)
    return r


def c_tmv(ex, st, a, ins):
    this, b, t = a
    wd, ht = size(ex, st, this)
    bw, bh = dsize(ex, st, b)
    need(ex, st, band(eq(bw, I(1)), eq(bh, ht)), 'the operand is a column with one entry per row', ins)
    distinct(ex, st, t, b, 'target is not the operand', ins)
    valid(ex, st, this, 'the matrix', ins)
    blk, v = snap(ex, st, this)
    x = dreader(ex, st, b)

    def f(r, c):
        """sum over the rows of the value in column r times the entry"""
        q = T.idiv(r, ST)
        l = sub(r, scale_i(q, ST))

        def g(i):
            rng = [ge(i, I(0)), lt(i, ht)]
            tot = R(0)
            for k in range(EN):
                val = v(i, k, 0, rng)
                for e in range(1, ST):
                    val = ite(eq(l, I(e)), v(i, k, e, rng), val)
                tot = add(tot, mul(T.ind(eq(blk(i, k, rng), q)), mul(val, x(i, I(0), rng))))
            return tot
        return T.Sum(g, I(0), ht)
    return M.assign(ex, st, t, I(1), wd, f, 'product', ins), None


def c_scale(left):
    def go(ex, st, a, ins):
        this, s, t = a
        wd, ht = size(ex, st, this)
        sw, sh = dsize(ex, st, s)
        if left:
            need(ex, st, eq(sh, ht), 'one factor per row', ins)
            need(ex, st, bor(eq(sw, I(1)), eq(ht, I(0))), 'factors form a column', ins)
        else:
            need(ex, st, band(eq(sw, I(1)), eq(sh, wd)), 'one factor per column', ins)
        distinct(ex, st, t, this, 'target is not the operand', ins)
        valid(ex, st, this, 'the matrix', ins)
        blk, v = snap(ex, st, this)
        x = dreader(ex, st, s)

        def val(i, k, l):
            b = blk(i, k)
            return used(b, mul(v(i, k, l), x(i, I(0)) if left else x(add(scale_i(b, ST), I(l)), I(0), [ne(b, I(-1))])))
        return fresh(ex, st, t, wd, ht, blk, val, 'scaled'), None
    return go


def pairs(b0, b1, f, g):
    """sum of the products of the entries of two rows that belong to the same block"""
    tot = R(0)
    for k in range(EN):
        for l in range(EN):
            tot = add(tot, ite(band(ne(b0[k], I(-1)), eq(b0[k], b1[l])), sumup(mul(f(k, m), g(l, m)) for m in range(ST)), R(0)))
    return tot


def c_mt(ex, st, a, ins):
    this, b, t = a
    w1, h1 = size(ex, st, this)
    w2, h2 = size(ex, st, b)
    need(ex, st, eq(w1, w2), 'widths agree', ins)
    valid(ex, st, this, 'the matrix', ins)
    valid(ex, st, b, 'the operand', ins)
    ba, va = snap(ex, st, this)
    bb, vb = snap(ex, st, b)

    def f(r, c):
        return pairs([ba(r, k) for k in range(EN)], [bb(c, l) for l in range(EN)], lambda k, m: va(r, k, m), lambda l, m: vb(c, l, m))
    return M.assign(ex, st, t, h2, h1, f, 'product', ins), None


CONTRACTS = {
    CN + '::initialize': c_init, CN + '::multiply': c_multiply, CN + '::transposeMultiplyVector': c_tmv,
    CN + '::leftScale': c_scale(True), CN + '::rightScale': c_scale(False), CN + '::multiplyTranspose': c_mt,
}


def install(w, names=None):
    for n, f in CONTRACTS.items():
        if names is None or n in names:
            try:
                w.c.contracts[w.fn(n)] = Op(n, f)
            except Spec:
                pass


# ------------------------------------------------------------------ C03
def dense(s, i, q, l):
    """entry (row i, column 3q+l) of the dense matrix that s stands for"""
    r = R(0)
    for k in range(EN):
        r = add(r, mul(T.ind(eq(s.blk(i, k), q)), s.v(i, k, l)))
    return r


def prep(w):
    M.install(w)
    install(w, [CN + '::initialize'])


def targets(E, name, wd, ht):
    """worlds with a dense target of the right or of another size"""
    for kind in ('fits', 'other size'):
        w = E.world('%s (target: %s)' % (name, kind))
        prep(w)
        t = M.mat(w, 'T', wd, ht) if kind == 'fits' else M.mat(w, 'T')
        if kind != 'fits':
            w.assume(bor(ne(t.w, wd), ne(t.h, ht)))
        yield w, t


i_, j_, q_ = V('any.row', 'I'), V('any.col', 'I'), V('any.block', 'I')
NB, H = V('A.nb', 'I'), V('A.h', 'I')


def exp_task(fn, tr):
    @task('C03', CN + '::' + fn)
    def go(E):
        ws = []
        for w, t in targets(E, CN + '::' + fn, *((H, scale_i(NB, ST)) if tr else (scale_i(NB, ST), H))):
            s = smat(w, 'A')
            w.run(w.fn(CN + '::' + fn), [s.ptr, t.ptr])
            gw, gh = dsize(w.ex, w.post, t.ptr)
            ww, hh = (s.h, scale_i(s.nb, ST)) if tr else (scale_i(s.nb, ST), s.h)
            w.ensure_val('target has the width of the dense matrix', gw, ww)
            w.ensure_val('target has the height of the dense matrix', gh, hh)
            rng = [ge(i_, I(0)), lt(i_, s.h), ge(q_, I(0)), lt(q_, s.nb)]
            for l in range(ST):
                c = add(scale_i(q_, ST), I(l))
                r, cc = (c, i_) if tr else (i_, c)
                M.elem(w, t.ptr, r, cc, dense(s, i_, q_, l), rng, 'every entry in a column 3q+%d' % l)
            w.frame([t.reg, t.data])
            ws.append(w)
        return ws


exp_task('expand', False)
exp_task('expandTransposed', True)


@task('C03', CN + '::multiply')
def t_mult(E):
    ws = []
    bw = V('B.w', 'I')
    for w, t in targets(E, CN + '::multiply', bw, H):
        s = smat(w, 'A')
        b = M.mat(w, 'B', bw, scale_i(s.nb, ST))
        w.run(w.fn(CN + '::multiply'), [s.ptr, b.ptr, t.ptr])
        M.is_matrix(w, t.ptr, bw, s.h, lambda r, c: T.Sum(lambda q: sumup(mul(dense(s, r, q, l), b.e(add(scale_i(q, ST), I(l)), c)) for l in range(ST)), I(0), s.nb))
        w.frame([t.reg, t.data])
        ws.append(w)
    return ws


@task('C03', CN + '::transposeMultiplyVector')
def t_tmv(E):
    ws = []
    for w, t in targets(E, CN + '::transposeMultiplyVector', I(1), scale_i(NB, ST)):
        s = smat(w, 'A')
        b = M.mat(w, 'B', I(1), s.h)
        w.run(w.fn(CN + '::transposeMultiplyVector'), [s.ptr, b.ptr, t.ptr])
        gw, gh = dsize(w.ex, w.post, t.ptr)
        w.ensure_val('target is a column', gw, I(1))
        w.ensure_val('target has a row per column', gh, scale_i(s.nb, ST))
        rng = [ge(q_, I(0)), lt(q_, s.nb)]
        for l in range(ST):
            M.elem(w, t.ptr, add(scale_i(q_, ST), I(l)), I(0), T.Sum(lambda i: mul(dense(s, i, q_, l), b.e(i, I(0))), I(0), s.h), rng, 'every entry of column 3q+%d' % l)
        w.frame([t.reg, t.data])
        ws.append(w)
    return ws


@task('C03', CN + '::multiplyTranspose')
def t_mt(E):
    ws = []
    bh = V('B.h', 'I')
    for same in (False, True):
        for w, t in targets(E, CN + '::multiplyTranspose' + (' by itself' if same else ''), H if same else bh, H):
            s = smat(w, 'A')
            b = s if same else smat(w, 'B', s.nb, bh)
            w.run(w.fn(CN + '::multiplyTranspose'), [s.ptr, b.ptr, t.ptr])
            M.is_matrix(w, t.ptr, b.h, s.h, lambda r, c: T.Sum(lambda q: sumup(mul(dense(s, r, q, l), dense(b, c, q, l)) for l in range(ST)), I(0), s.nb))
            w.frame([t.reg, t.data])
            ws.append(w)
    return ws


def scale_task(fn, left):
    @task('C03', CN + '::' + fn)
    def go(E):
        ws = []
        for kind in ('fits', 'other size'):
            w = E.world('%s::%s (target: %s)' % (CN, fn, kind))
            prep(w)
            s = smat(w, 'A')
            b = M.mat(w, 'B', I(1), s.h if left else scale_i(s.nb, ST))
            t = smat(w, 'T', s.nb, s.h) if kind == 'fits' else smat(w, 'T')
            w.run(w.fn(CN + '::' + fn), [s.ptr, b.ptr, t.ptr])
            gw, gh = size(w.ex, w.post, t.ptr)
            w.ensure_val('target has the width of the matrix', gw, scale_i(s.nb, ST))
            w.ensure_val('target has the height of the matrix', gh, s.h)
            blk, v = snap(w.ex, w.post, t.ptr)
            rng = [ge(i_, I(0)), lt(i_, s.h)]
            for k in range(EN):
                w.ensure_val('entry %d of every row belongs to the same block' % k, blk(i_, k, rng), s.blk(i_, k), rng)
                for l in range(ST):
                    f = b.e(i_, I(0)) if left else b.e(add(scale_i(s.blk(i_, k), ST), I(l)), I(0))
                    w.ensure_val('value %d of entry %d of every row is scaled' % (l, k), v(i_, k, l, rng), used(s.blk(i_, k), mul(f, s.v(i_, k, l))), rng)
            w.frame([t.reg, t.data, t.blocks])
            ws.append(w)
        return ws


scale_task('leftScale', True)
scale_task('rightScale', False)


# ==================================================================== C04: storage
def null_sparse(w, name):
    s = S()
    s.reg = w.obj(name, CLS, {'m_matrix': NULL, 'm_data': NULL, 'm_blockData': NULL, 'm_width': I(0), 'm_height': I(0), 'm_capacityHeight': I(0)})
    s.ptr, s.h, s.wd, s.parts = P0(s.reg), I(0), I(0), []
    return s


def flat_sparse(w, name):
    s = S()
    s.wd, s.h, cap = V(name + '.w', 'I'), V(name + '.h', 'I'), V(name + '.ch', 'I')
    w.assume(ge(s.wd, I(0)), ge(s.h, I(0)), ge(cap, s.h))
    data = w.array(name + '.data', scale_i(cap, ST * EN), 'R')
    rows = w.array(name + '.rows', cap, 'P', init=lambda key, idx: pite(band(le(I(0), idx), lt(idx, s.h)), Ptr(data.reg, scale_i(idx, 8 * ST * EN)), UndefP('unused row')))
    blk = w.array(name + '.blocks', scale_i(cap, EN), 'I32')
    s.reg = w.obj(name, CLS, {'m_matrix': rows, 'm_data': data, 'm_blockData': blk, 'm_width': s.wd, 'm_height': s.h, 'm_capacityHeight': cap})
    s.ptr, s.parts = P0(s.reg), [data, rows, blk]
    return s


def storage_ok(w, ptr, wd, ht):
    ex, st = w.ex, w.post
    o = off(w.dbg)
    gw, gh = size(ex, st, ptr)
    w.ensure_val('width is the requested one', gw, wd)
    w.ensure_val('height is the requested one', gh, ht)
    ld = lambda f, k: ex.load(st, ex.padd(ptr, I(o[f])), k)
    cap = ld('m_capacityHeight', 'I32')
    w.ensure('capacity covers the height', ge(cap, ht))
    for f, n, what in (('m_data', 8 * ST * EN, 'values'), ('m_matrix', 8, 'row table'), ('m_blockData', 4 * EN, 'blocks')):
        for c, q in alts(w, st, ld(f, 'P')):
            if not isinstance(q, Ptr):
                w.ensure('%s have storage' % what, bnot(band(c, gt(ht, I(0)))))
                continue
            w.ensure('%s have room for the capacity' % what, implies(c, band(eq(q.off, I(0)), ge(q.reg.size, scale_i(cap, n)))))
            w.ensure('%s are live' % what, bnot(band(c, st.freed.get(q.reg, FALSE))))
    rng = [ge(i_, I(0)), lt(i_, ht)]
    s = st.copy()
    s.pc = s.pc + tuple(rng)
    q = ex.load(s, ex.padd(ex.load(s, ex.padd(ptr, I(o['m_matrix'])), 'P'), scale_i(i_, 8)), 'P')
    w.ensure_val('row i starts at data + 6*i (rows of six values: pairwise disjoint)', q, ex.padd(ld('m_data', 'P'), scale_i(i_, 8 * ST * EN)), rng)


def released(w, s):
    for p in s.parts:
        w.ensure('%s of before is released' % p.reg.name, w.post.freed.get(p.reg, FALSE))


def mem_of(s):
    return [s.reg] + [p.reg for p in s.parts]


SIZES = [('empty', 'from empty'), ('full', 'same size'), ('full', 'higher than the capacity'), ('full', 'within the capacity')]


def sizes(w, s, what, wd, ht):
    w.assume(ge(wd, I(0)), ge(ht, I(0)))
    if what == 'from empty':
        w.assume(gt(ht, I(0)))
    elif what == 'same size':
        w.assume(eq(wd, s.wd), eq(ht, s.h))
    elif what.startswith('higher'):
        w.assume(gt(ht, V('T.ch', 'I')))
    else:
        w.assume(le(ht, V('T.ch', 'I')), bor(ne(wd, s.wd), ne(ht, s.h)))


@task('C04', CN + '::SparseMatrix')
def s_ctor(E):
    w = E.world(CN + '::SparseMatrix')
    reg = w.obj('T', CLS)
    w.run(w.fn(CN + '::SparseMatrix'), [P0(reg)])
    for f in ('m_matrix', 'm_data', 'm_blockData'):
        w.ensure_val('%s is null' % f, w.get(w.post, reg, CLS, f, 'P'), NULL)
    for f in ('m_width', 'm_height', 'm_capacityHeight'):
        w.ensure_val('%s is zero' % f, w.get(w.post, reg, CLS, f, 'I32'), I(0))
    return w


def size_task(fn, init):
    @task('C04', CN + '::' + fn)
    def go(E):
        ws = []
        for kind, what in SIZES + [('empty', 'to nothing')]:
            w = E.world('%s::%s (%s)' % (CN, fn, what))
            s = null_sparse(w, 'T') if kind == 'empty' else flat_sparse(w, 'T')
            wd, ht = V('w', 'I'), V('h', 'I')
            if what == 'to nothing':
                w.assume(ge(wd, I(0)))
                ht = I(0)
            else:
                sizes(w, s, what, wd, ht)
            w.run(w.fn(CN + '::' + fn), [s.ptr, wd, ht])
            if what == 'to nothing':
                gw, gh = size(w.ex, w.post, s.ptr)
                w.ensure_val('no rows', gh, I(0))
                w.ensure_val('width is the requested one', gw, wd)
            else:
                storage_ok(w, s.ptr, wd, ht)
                if init:
                    blk, v = snap(w.ex, w.post, s.ptr)
                    rng = [ge(i_, I(0)), lt(i_, ht)]
                    for k in range(EN):
                        w.ensure_val('entry %d of every row belongs to no block' % k, blk(i_, k, rng), I(-1), rng)
                        for l in range(ST):
                            w.ensure_val('value %d of entry %d of every row is zero' % (l, k), v(i_, k, l, rng), R(0), rng)
            if what.startswith('higher'):
                released(w, s)
            w.frame([] if what == 'same size' and not init else mem_of(s))
            ws.append(w)
        return ws


size_task('resize', False)
size_task('initialize', True)


@task('C04', CN + '::destroy and destructor')
def s_destroy(E):
    ws = []
    for kind in ('empty', 'full'):
        w = E.world('%s::destroy (%s)' % (CN, kind))
        s = null_sparse(w, 'T') if kind == 'empty' else flat_sparse(w, 'T')
        w.run(w.fn(CN + '::destroy'), [s.ptr])
        for f in ('m_matrix', 'm_data', 'm_blockData'):
            w.ensure_val('%s is null' % f, w.get(w.post, s.reg, CLS, f, 'P'), NULL)
        for f in ('m_width', 'm_height', 'm_capacityHeight'):
            w.ensure_val('%s is zero' % f, w.get(w.post, s.reg, CLS, f, 'I32'), I(0))
        released(w, s)
        w.frame(mem_of(s))
        w.st = w.post
        w.run(w.fn(CN + '::destroy'), [s.ptr])
        w.st = w.post
        w.run(w.fn(CN + '::~SparseMatrix'), [s.ptr])
        ws.append(w)
    return ws


@task('C04', CN + ' lifecycle from construction to destruction')
def s_life(E):
    ws = []
    for last in ('resize',):
        w = E.world('%s: construct, resize, %s, destroy, destruct' % (CN, last))
        reg = w.obj('T', CLS)
        p = P0(reg)
        w.run(w.fn(CN + '::SparseMatrix'), [p])
        w.st = w.post
        a, b, c, d = (V(n, 'I') for n in ('w1', 'h1', 'w2', 'h2'))
        w.assume(ge(a, I(0)), ge(b, I(0)), ge(c, I(0)), ge(d, I(0)))
        w.run(w.fn(CN + '::resize'), [p, a, b])
        w.st = w.post
        w.run(w.fn(CN + '::' + last), [p, c, d])
        w.st = w.post
        w.run(w.fn(CN + '::destroy'), [p])
        w.st = w.post
        w.run(w.fn(CN + '::~SparseMatrix'), [p])
        w.ensure('the destructor returns', TRUE if w.post is not None else FALSE, st=w.pre)
        ws.append(w)
    return ws


@task('C03 C04', CN + '::set, get, setBlock, setEmpty')
def s_access(E):
    ws = []
    r, x, v, b = V('r', 'I'), V('x', 'I'), V('v'), V('b', 'I')
    for what in ('get', 'set', 'setBlock', 'setEmpty', 'getWidth', 'getHeight'):
        for e in range(EN):
            if what.startswith('getW') or what.startswith('getH'):
                if e:
                    continue
                w = E.world('%s::%s' % (CN, what))
                s = smat(w, 'A')
                w.run(w.fn(CN + '::' + what), [s.ptr])
                w.ensure_val('the dimension', w.ret, scale_i(s.nb, ST) if what == 'getWidth' else s.h)
                w.frame([])
                ws.append(w)
                continue
            w = E.world('%s::%s (entry %d)' % (CN, what, e))
            s = smat(w, 'A')
            w.assume(ge(r, I(0)), lt(r, s.h), ge(x, I(0)), lt(x, I(ST)), ge(b, I(0)), lt(b, s.nb))
            args = {'get': [r, I(e), x], 'set': [r, I(e), x, v], 'setBlock': [r, I(e), b], 'setEmpty': [r, I(e)]}[what]
            w.run(w.fn(CN + '::' + what), [s.ptr] + args)
            if what == 'get':
                w.ensure_val('the value', w.ret, T.app(s.efn, [r, add(x, I(ST * e))], 'R'))
            blk, val = snap(w.ex, w.post, s.ptr)
            rng = [ge(i_, I(0)), lt(i_, s.h)]
            for k in range(EN):
                hit = eq(i_, r) if k == e else FALSE
                nb = b if what == 'setBlock' else I(-1) if what == 'setEmpty' else s.blk(i_, k)
                w.ensure_val('block of entry %d' % k, blk(i_, k, rng), ite(hit, nb, s.blk(i_, k)), rng)
                for l in range(ST):
                    h2 = band(hit, eq(x, I(l))) if what == 'set' else hit if what == 'setEmpty' else FALSE
                    w.ensure_val('value %d of entry %d' % (l, k), val(i_, k, l, rng), ite(h2, v if what == 'set' else R(0), s.v(i_, k, l)), rng)
            w.frame({'get': [], 'set': [s.data], 'setBlock': [s.blocks], 'setEmpty': [s.data, s.blocks]}[what])
            ws.append(w)
    return ws
