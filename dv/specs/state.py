"""C21: storage of the system state: resize, copy, destroy."""
from .base import *
from ..world import World

DBL = World.ST_BODY
CON = World.ST_CON
ALL = [(f, 'n', 1, 'R') for f in DBL] + [(f, 'n_c', 2, 'R') for f in CON] + [('indexMap', 'n_c', 1, 'I32')]


def null_state(w, name):
    ov = {f: NULL for f, _, _, _ in ALL}
    ov.update({'n': I(0), 'n_c': I(0)})
    return w.obj(name, 'SystemState', ov)


def alts(w, st, p):
    """feasible alternatives of a pointer"""
    out = []
    for c, q in w.ex._alts(p):
        if c is not TRUE and quick(st.hyps(), bnot(c)):
            continue
        out.append((c, q))
    return out


def array_ok(w, what, p, count, kind, tag=None, exact=False):
    """p is the start of a live array of (at least) count elements; returns the regions"""
    st = w.post
    regs = []
    for c, q in alts(w, st, p):
        if not isinstance(q, Ptr) or q.reg.mode != 'array':
            w.ensure('%s is an allocated array' % what, bnot(c), tag=tag)
            continue
        need = scale_i(count, KSIZE[kind])
        sz = q.reg.size if q.reg.size is not None else I(0)
        w.ensure('%s holds the requested number of elements' % what, implies(c, band(eq(q.off, I(0)), ge(sz, need), *([eq(sz, need)] if exact else []))), tag=tag)
        f = st.freed.get(q.reg)
        w.ensure('%s is not freed' % what, TRUE if f is None else implies(c, bnot(f)), tag=tag)
        regs.append((c, q.reg))
    return regs


def state_ok(w, reg, n, nc, exact=True):
    """every array of the state is allocated, large enough and separate from the others"""
    seen = {}
    for f, cf, k, kind in ALL:
        p = w.get(w.post, reg, 'SystemState', f, 'P')
        cnt = scale_i(n if cf == 'n' else nc, k)
        for c, r in array_ok(w, f, p, cnt, kind, exact=exact):
            for c2, f2 in seen.get(r, []):
                w.ensure('%s and %s do not share storage' % (f, f2), bnot(band(c, c2)))
            seen.setdefault(r, []).append((c, f))


def freed(w, what, p0):
    """the array that p0 (a value of the pre state) points to has been released"""
    if isinstance(p0, Ptr):
        w.ensure('%s of before is released' % what, w.post.freed.get(p0.reg, FALSE))


def scenario(w, name, kind):
    return null_state(w, name) if kind == 'empty' else w.sysstate(name)


def old_ptrs(w, reg):
    return {f: w.get(w.pre.copy(), reg, 'SystemState', f, 'P') for f, _, _, _ in ALL}


@task('C21', 'SystemState constructor')
def s_ctor(E):
    w = E.world('SystemState::SystemState')
    s = w.obj('st', 'SystemState')
    w.run(w.fn('SystemState::SystemState'), [P0(s)])
    for f, _, _, _ in ALL:
        w.ensure_val('%s is null' % f, w.get(w.post, s, 'SystemState', f, 'P'), NULL)
    w.ensure_val('no bodies', w.get(w.post, s, 'SystemState', 'n', 'I32'), I(0))
    w.ensure_val('no constraints', w.get(w.post, s, 'SystemState', 'n_c', 'I32'), I(0))
    w.ensure_val('dt is zero', w.get(w.post, s, 'SystemState', 'dt'), R(0))
    return w


@task('C21', 'SystemState::resize')
def s_resize(E):
    ws = []
    bc, cc = V('bc', 'I'), V('cc', 'I')
    for kind, cond, what in (('empty', TRUE, 'from empty'), ('full', lt(V('st.n', 'I'), bc), 'more bodies'),
                             ('full', lt(V('st.n_c', 'I'), cc), 'more constraints'),
                             ('full', band(ge(V('st.n', 'I'), bc), ge(V('st.n_c', 'I'), cc)), 'large enough')):
        w = E.world('SystemState::resize (%s)' % what)
        w.assume(ge(bc, I(0)), ge(cc, I(0)), cond)
        if kind == 'empty':
            w.assume(bor(gt(bc, I(0)), gt(cc, I(0))))
        s = scenario(w, 'st', kind)
        w.run(w.fn('SystemState::resize'), [P0(s), bc, cc])
        old = old_ptrs(w, s)
        n, nc = w.get(w.post, s, 'SystemState', 'n', 'I32'), w.get(w.post, s, 'SystemState', 'n_c', 'I32')
        if what == 'large enough':
            w.frame([])
        else:
            w.ensure_val('n is the requested count', n, bc)
            w.ensure_val('n_c is the requested count', nc, cc)
            state_ok(w, s, bc, cc)
            for f, p in old.items():
                freed(w, f, p)
            w.frame([s] + [p.reg for p in old.values() if isinstance(p, Ptr)])
            w.ensure_val('dt is kept', w.get(w.post, s, 'SystemState', 'dt'), V('st.dt'))
        ws.append(w)
    # nothing requested
    w = E.world('SystemState::resize to nothing')
    s = scenario(w, 'st', 'empty')
    w.run(w.fn('SystemState::resize'), [P0(s), I(0), I(0)])
    w.frame([])
    ws.append(w)
    return ws


@task('C21', 'SystemState::destroy')
def s_destroy(E):
    ws = []
    for kind in ('empty', 'full'):
        w = E.world('SystemState::destroy (%s)' % kind)
        s = scenario(w, 'st', kind)
        w.run(w.fn('SystemState::destroy'), [P0(s)])
        old = old_ptrs(w, s)
        for f, p in old.items():
            freed(w, f, p)
            w.ensure_val('%s is null afterwards' % f, w.get(w.post, s, 'SystemState', f, 'P'), NULL)
        w.ensure_val('n is zero', w.get(w.post, s, 'SystemState', 'n', 'I32'), I(0))
        w.ensure_val('n_c is zero', w.get(w.post, s, 'SystemState', 'n_c', 'I32'), I(0))
        w.frame([s] + [p.reg for p in old.values() if isinstance(p, Ptr)])
        # a second destroy and the destructor are harmless
        pre = w.pre
        w.st = w.post
        w.run(w.fn('SystemState::destroy'), [P0(s)])
        w.st = w.post
        w.run(w.fn('SystemState::~SystemState'), [P0(s)])
        w.ensure('the destructor returns', TRUE if w.post is not None else FALSE, st=w.pre)
        ws.append(w)
    return ws


@task('C21', 'SystemState::copy')
def s_copy(E):
    ws = []
    n, nc = V('src.n', 'I'), V('src.n_c', 'I')
    for kind, cond, what in (('empty', bor(gt(n, I(0)), gt(nc, I(0))), 'into empty'), ('full', lt(V('st.n', 'I'), n), 'more bodies'),
                             ('full', lt(V('st.n_c', 'I'), nc), 'more constraints'),
                             ('full', band(ge(V('st.n', 'I'), n), ge(V('st.n_c', 'I'), nc)), 'large enough')):
        w = E.world('SystemState::copy (%s)' % what)
        s = scenario(w, 'st', kind)
        src = w.sysstate('src')
        w.assume(cond)
        w.run(w.fn('SystemState::copy'), [P0(s), P0(src)])
        n2, nc2 = w.get(w.post, s, 'SystemState', 'n', 'I32'), w.get(w.post, s, 'SystemState', 'n_c', 'I32')
        w.ensure('room for every body', ge(n2, n))
        w.ensure('room for every constraint', ge(nc2, nc))
        state_ok(w, s, n2, nc2, exact=False)
        for f, cf, k, kd in ALL:
            i = V('any.' + f, 'I')
            rng = [ge(i, I(0)), lt(i, scale_i(n if cf == 'n' else nc, k))]
            p = w.get(w.post, s, 'SystemState', f, 'P')
            w.ensure_val('%s of every entry is copied' % f, w.at(w.post, p, i, kd, rng), T.app('src.' + f, [i], ksort(kd)), rng)
        old = old_ptrs(w, s)
        if what != 'large enough':
            for f, p in old.items():
                freed(w, f, p)
        w.frame([s] + [p.reg for p in old.values() if isinstance(p, Ptr)])
        ws.append(w)
    w = E.world('SystemState::copy of an empty state')
    s = scenario(w, 'st', 'full')
    src = null_state(w, 'src')
    w.run(w.fn('SystemState::copy'), [P0(s), P0(src)])
    state_ok(w, s, w.get(w.post, s, 'SystemState', 'n', 'I32'), w.get(w.post, s, 'SystemState', 'n_c', 'I32'), exact=False)
    w.frame([])
    ws.append(w)
    return ws


@task('C21', 'SystemState lifecycle from construction to destruction')
def s_life(E):
    w = E.world('SystemState: construct, resize, resize, destroy, destruct')
    s = w.obj('st', 'SystemState')
    w.run(w.fn('SystemState::SystemState'), [P0(s)])
    for k in (1, 2):
        w.st = w.post
        a, b = V('bc%d' % k, 'I'), V('cc%d' % k, 'I')
        w.assume(ge(a, I(0)), ge(b, I(0)))
        w.run(w.fn('SystemState::resize'), [P0(s), a, b])
    w.st = w.post
    w.run(w.fn('SystemState::destroy'), [P0(s)])
    w.st = w.post
    w.run(w.fn('SystemState::~SystemState'), [P0(s)])
    w.ensure('the destructor returns', TRUE if w.post is not None else FALSE, st=w.pre)
    return w


# ----------------------------------------------------------------- contract
class CopyContract:
    """SystemState::copy as verified above"""
    requires = 'both states valid'

    def __init__(self, w):
        self.off = w.dbg.fields('SystemState')

    def apply(self, ex, st, args, ins):
        dst, src = args
        o = self.off
        if not isinstance(dst, Ptr) or not isinstance(src, Ptr):
            return NotImplemented
        at = lambda p, f: ex.padd(p, I(o[f]))
        n = ex.load(st, at(src, 'n'), 'I32', ins)
        nc = ex.load(st, at(src, 'n_c'), 'I32', ins)
        c = ex.c
        n2, nc2 = c.fresh('copy.n', 'I'), c.fresh('copy.n_c', 'I')
        st.assume(ge(n2, n), ge(nc2, nc))
        st = st.copy()
        for f, cf, k, kind in ALL:
            cnt, cnt2 = (n, n2) if cf == 'n' else (nc, nc2)
            q = ex.load(st, at(src, f), 'P', ins)
            fn = c.freshfn('copy.' + f)
            reg = Region('copy of ' + f, 'array', scale_i(scale_i(cnt2, k), KSIZE[kind]), kind, origin='heap',
                         init=lambda key, idx, fn=fn, kind=kind: fn((idx,), ksort(kind)))
            p = Ptr(reg, I(0))
            ex.lib.memcpy(st, [p, q, scale_i(scale_i(cnt, k), KSIZE[kind])], ins)
            ex.store(st, at(dst, f), 'P', p, ins)
        ex.store(st, at(dst, 'n'), 'I32', n2, ins)
        ex.store(st, at(dst, 'n_c'), 'I32', nc2, ins)
        return st, None
