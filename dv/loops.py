"""Exact summaries of loops.

A loop is executed once at a symbolic iteration k, starting from a guessed description of every
location it changes as a function of k (counters, prefix sums, last values, array updates of the
iterations before k).  The guess is refined until the execution of the body from the description
at k yields exactly the description at k+1 (the induction step); the base case holds by
construction of the description at 0.  Locations without a closed description are left arbitrary
at the start of every iteration (an over-approximation).  Obligations inside the body are proved
for the arbitrary iteration k.
"""
from .terms import *
from . import smt
from .smt import quick
from .sym import *
from . import terms as T
from .sym import _decide

DEFS = {}        # definition (with own symbol replaced) -> symbol name
MAXROUNDS = 12


class LoopFail(Unsupported):
    pass


def has_inner(f, header, blocks):
    return any(h != header and h in blocks for h in f.loops)


def run_loop(ex, f, header, blocks, st):
    c = ex.c
    mode = decide_mode(ex, f, header, blocks, st)
    if c.force_unroll:
        return unroll(ex, f, header, blocks, st, c.max_unroll)
    if mode == 'unroll':
        return unroll(ex, f, header, blocks, st, 8)
    if mode == 'concrete':
        save = (c.cnt, len(c.obls), set(c.obl_seen))
        try:
            return unroll(ex, f, header, blocks, st.copy(), 24)
        except LoopFail:
            c.cnt = save[0]
            del c.obls[save[1]:]
            c.obl_seen = set(save[2])
        try:
            return summarise(ex, f, header, blocks, st.copy())
        except LoopFail:
            c.cnt = save[0]
            del c.obls[save[1]:]
            c.obl_seen = set(save[2])
        return unroll(ex, f, header, blocks, st, c.max_unroll)
    if mode == 'forever':
        try:
            cnt = c.cnt
            return unroll(ex, f, header, blocks, st.copy(), 12)
        except LoopFail:
            c.cnt = cnt
    try:
        return summarise(ex, f, header, blocks, st)
    finally:
        pass


def header_cond(ex, f, header, st):
    """('cond', term, continue_polarity) or None"""
    t = f.blocks[header][-1]
    if t.op != 'br' or t.a.get('c') is None:
        return None
    s = st.copy()
    c = ex.c
    n0 = len(c.obls)
    seen = set(c.obl_seen)
    cnt = c.cnt
    try:
        for i in f.blocks[header][:-1]:
            if i.op == 'phi':
                continue
            if i.op in ('call', 'invoke'):
                s = ex.do_call(s, i)
                if s is None:
                    return None
                continue
            ex.simple(s, i)
        return ex.val(s, ('i', 1), t.a['c']), t
    except (Unsupported, Infeasible):
        return None
    finally:
        del c.obls[n0:]
        c.obl_seen = seen
        c.cnt = cnt


def decide_mode(ex, f, header, blocks, st):
    hc = header_cond(ex, f, header, st)
    if hc is None:
        t = f.blocks[header][-1]
        if t.op == 'br' and t.a.get('c') is None:
            return 'forever'
        return 'sum'
    cond, t = hc
    cont = cond if t.a['t'] in blocks else bnot(cond)
    if t.a['t'] in blocks and t.a['f'] in blocks:
        return 'sum'
    if cont is TRUE or cont is FALSE:
        return 'concrete'
    if has_inner(f, header, blocks):
        if cont.op == 'le' and cont.args[0].sort == 'I' and quick(st.hyps(), ge(cont.args[0], I(-3))):
            return 'unroll'
        return 'sum'
    if cont.op == 'le' and cont.args[0].sort == 'I':
        if quick(st.hyps(), ge(cont.args[0], I(-5))):
            return 'unroll'
    return 'sum'


def unroll(ex, f, header, blocks, st, bound):
    exits = {}
    n = 0
    while st is not None:
        if n > bound:
            raise LoopFail('loop in %s not unrolled completely after %d iterations' % (demangle(f.name), bound))
        n += 1
        edges = ex.exec_region(f, blocks, header, [(st, None)], back=header)
        latch = edges.pop('latch', None)
        for k, v in edges.items():
            exits.setdefault(k, []).extend(v)
        st = ex.merge([s for s, _ in latch]) if latch else None
    return exits


# ------------------------------------------------------------------ guesses
class Cell:
    def __init__(self, kind, c0):
        self.kind, self.c0 = kind, c0
        self.form = 'havoc'      # havoc | closed | unknown
        self.fn = None           # closed: value as function of an Int term
        self.desc = None


class ChainG:
    def __init__(self, c0):
        self.c0 = c0
        self.form = 'havoc'      # havoc | ups | unknown
        self.ts = None           # templates (U with loop variable kv free)
        self.sym = {}            # template index -> [name, definition or None]


class Loop:
    pass


def summarise(ex, f, header, blocks, st0):
    c = ex.c
    depth = len(c.loopvars)
    kv = T.var('k@%d' % depth, 'I')
    ka = T.single_atom(kv)
    for t in list(st0.facts) + list(st0.pc):
        if ka in T.atoms_of(t):
            raise Unsupported('loop variable in scope')
    cnt0 = c.cnt
    n0 = len(c.obls)
    seen0 = set(c.obl_seen)
    guess = {}
    marker = Region._n[0]
    havoc_out = c.havoc
    stuck = set()
    L = Loop()
    L.ex, L.c, L.kv, L.ka, L.depth, L.st0, L.marker = ex, c, kv, ka, depth, st0, marker
    L.guess = guess
    L.lid = cnt0
    result = None
    L.ubound = None
    L.paired = False
    L.invs = [j for i in c.loop_invs if i.applies(f, depth) for j in i.expand(ex, st0)]
    L.invs = [i for i in L.invs if steps_hold(i.start(ex, st0), st0)]
    rnd = -1
    while True:
        rnd += 1
        if rnd >= MAXROUNDS + 6 * bool(c.loop_invs):
            raise LoopFail('no stable description of the loop in ' + demangle(f.name))
        c.cnt = cnt0
        del c.obls[n0:]
        c.obl_seen = set(seen0)
        L.names = {}
        hs = header_state(L)
        for i in L.invs:
            hs.assume(*i.at(ex, hs))
        for i in c.loop_given:
            if i.applies(f, depth):
                hs.assume(*i.at(ex, hs))
        c.havoc = dict((n, False) for n in L.names)
        c.havoc.update({n: False for n in havoc_out if n not in c.havoc})
        c.loopvars.append(kv)
        try:
            edges = ex.exec_region(f, blocks, header, [(hs, None)], back=header)
            latch = edges.pop('latch', None)
            ls = ex.merge([s for s, _ in latch]) if latch else None
        finally:
            c.loopvars.pop()
            hv = c.havoc
            c.havoc = havoc_out
            for n in havoc_out:
                if hv.get(n):
                    havoc_out[n] = True
        L.hs, L.ls, L.edges, L.read = hs, ls, edges, {n for n, r in hv.items() if r and n in L.names}
        if ls is None:
            # the body never comes back to the header
            if rnd == 0 or not guess:
                return close_exits(L, I(0))
            result = 'once'
        ch = False
        if ls is not None:
            ch = discover(L)
            if not ch:
                ch = refine(L, stuck)
        if c.debug:
            print('  ' * depth, 'loop', demangle(f.name), header, 'round', rnd, 'changed', ch, 'at most', L.ubound and T.show(L.ubound),
                  {('%s+%s' % (k[0].uname, k[1])): (g.form, g.desc if isinstance(g, Cell) else None) for k, g in guess.items()})
        if ch and L.ubound is None:
            L.ubound = upper_bound(L)
        if not ch:
            ub = upper_bound(L)
            if ub is not L.ubound:
                L.ubound = ub
                continue
            if ls is not None and not L.paired:
                L.paired = True
                ps = [i for i in pairs(L) if holds(i.at(ex, st0), st0)]
                if ps:
                    L.invs += ps
                    continue
            # proposed invariants that the body does not preserve are dropped
            bad = [i for i in L.invs if ls is not None and not steps_hold(i.step(ex, hs, ls), ls)]
            if c.debug:
                print('invariants kept:', [i.name for i in L.invs if i not in bad], 'dropped:', [i.name for i in bad])
            if not bad:
                break
            L.invs = [i for i in L.invs if i not in bad]
            guess.clear()
            L.ubound = None
            rnd = -1
    for i in L.invs + [i for i in c.loop_invs if i.required is not None and i not in L.invs and i.applies(f, depth) and L.ls is not None and i.required(L.hs, L.ls)]:
        for st, steps, what in ((L.st0, i.start(ex, L.st0), 'holds at entry'), (L.ls, i.step(ex, L.hs, L.ls) if L.ls is not None else (), 'is preserved')):
            for hyp, g in steps:
                s = st.copy()
                s.pc = s.pc + tuple(hyp)
                c.oblige(s, g, 'invariant: %s: %s' % (i.name, what), None, 'inv')
    return finish(L)


class Inv:
    """a loop invariant proposed by a specification: at(ex, state) is a list of formulas about the
    state.  It is used for the loops of function fn (depth: only for loops nested that deep) where it
    holds at entry and is preserved by the body.  required(state before, state after an iteration):
    true for the loops that have to have this invariant (part of the contract)"""

    def __init__(self, name, fn, fs, depth=None, required=None):
        self.name, self.fn, self.fs, self.depth, self.required = name, fn, fs, depth, required

    def applies(self, f, depth):
        return f.name == self.fn and self.depth in (None, depth)

    def expand(self, ex, st0):
        return [self]

    def at(self, ex, st):
        ex.c.suppress += 1
        try:
            return self.fs(ex, st)
        finally:
            ex.c.suppress -= 1

    def start(self, ex, st):
        """what has to be shown at entry: [(further hypotheses, goal)]"""
        return [((), g) for g in self.at(ex, st)]

    def step(self, ex, hs, ls):
        """what has to be shown for an iteration from hs to ls: [(further hypotheses, goal)]"""
        return [((), g) for g in self.at(ex, ls)]


class Progress(Inv):
    """what every iteration has to achieve: fs(ex, state before, state after) (nothing is assumed)"""

    def at(self, ex, st):
        return []

    def step(self, ex, hs, ls):
        ex.c.suppress += 1
        try:
            return [((), g) for g in self.fs(ex, hs, ls)]
        finally:
            ex.c.suppress -= 1


class Carried(Inv):
    """some local variable holds the value value(ex, state): one proposed invariant for every local
    variable that does so at entry"""

    def __init__(self, name, fn, value):
        Inv.__init__(self, name, fn, None)
        self.value = value

    def expand(self, ex, st0):
        v = Inv('', self.fn, lambda ex, st: [self.value(ex, st)]).at(ex, st0)[0]
        out = []
        for key, e in st0.mem.items():
            if isinstance(e, tuple) and e[0] == 'R' and e[1] is v and key[0].uname.startswith('local'):
                out.append(Inv('%s (%s)' % (self.name, key[0].uname), self.fn, lambda ex, st, key=key: [eq(st.mem[key][1], self.value(ex, st))] if key in st.mem else []))
        return out


def holds(goals, st):
    hy = st.hyps()
    return all(smt.prove(hy, g, 8000).ok for g in goals)


def steps_hold(steps, st):
    hy = st.hyps()
    return all(smt.prove(hy + list(x), g, 8000).ok for x, g in steps)


def hname(L, key):
    return 'h@%d.%d:%s+%s' % (L.depth, L.lid, key[0].uname, key[1])


def header_state(L):
    """state at the start of iteration kv"""
    st = L.st0.copy()
    c = L.c
    lv = list(c.loopvars) + [L.kv]
    st.assume(ge(L.kv, I(0)))
    for key, g in L.guess.items():
        nm = hname(L, key)
        if isinstance(g, Cell):
            if g.form == 'closed':
                v = g.fn(L.kv)
                if getattr(g, 'axioms', None):
                    st.assume(*g.axioms(L.kv))
            else:
                L.names[nm] = key
                s = ksort(g.kind)
                if s == 'P':
                    if isinstance(g.c0, Ptr) and g.form == 'havoc' and not getattr(g, 'noptr', False):
                        r = g.c0.reg
                        ho = T.app(nm, lv, 'I')
                        if r.mode == 'array' and r.ekind:
                            # a moving pointer into an array stays at its elements (checked at the end of the body)
                            ho = add(g.c0.off, scale_i(ho, KSIZE[r.ekind]))
                        v = Ptr(r, ho, g.c0.key)
                    else:
                        v = UndefP(nm)
                else:
                    v = T.app(nm, lv, s)
                    b = getattr(g, 'steps', None)
                    if b:
                        st.assume(ge(v, add(g.c0, scale_i(L.kv, b[0]))), le(v, add(g.c0, scale_i(L.kv, b[1]))))
            st.mem[key] = (g.kind, v)
        else:
            if g.form == 'ups':
                st.mem[key] = closed_chain(L, g, L.kv)
                for i, (n, d) in g.sym.items():
                    if d is not None:
                        st.assume(*sym_axioms(L, g, i, L.kv))
            else:
                L.names[nm] = key
                st.mem[key] = Chain(HBase(nm, lv))
    if L.ubound is not None:
        st.assume(le(L.kv, L.ubound))
    return st


def closed_chain(L, g, k):
    ch = g.c0
    for i, u in enumerate(g.ts):
        ch = ch.push(closed_up(L, g, i, k))
    return ch


def closed_up(L, g, i, k):
    """effect of the iterations 0..k-1 of template i"""
    u = g.ts[i]
    indep = not u_mentions(u, L.ka, addr_only=True)
    if i in g.sym:
        u = u.clone(val=sym_app(L, g, i, L.kv))
    if indep and u.mode in ('set', 'fill'):
        # every iteration writes the same place: the last one stays
        w = u.subst({L.ka: sub(k, I(1))})
        return w.clone(guard=band(ge(k, I(1)), w.guard))
    t = T.var('u@%d' % L.depth, 'I')
    w = u.subst({L.ka: t})
    return w.clone(bvs=((t, I(0), k),) + w.bvs)


def sym_app(L, g, i, k):
    u = g.ts[i]
    nm = g.sym[i][0]
    return T.app(nm, list(L.c.loopvars) + [k] + [v for v, _, _ in u.bvs], ksort(u.kind))


def sym_axioms(L, g, i, k):
    """the values written by the iterations before k"""
    u = g.ts[i]
    nm, d = g.sym[i]
    q = T.var('q@%d' % L.depth, 'I')
    body = eq(sym_app(L, g, i, q), T.subst(d, {L.ka: q}))
    for v, lo, hi in reversed(u.bvs):
        body = T.forall(v, implies(band(le(lo, v), lt(v, hi)), body))
        body = body
    r = T.forall(q, T.subst(implies(band(ge(q, I(0)), lt(q, k)), body), {}) if not u.bvs else implies(band(ge(q, I(0)), lt(q, k)), body))
    return [r]


def u_mentions(u, a, addr_only=False):
    ts = list(u.key) + [u.off, u.guard]
    for v, lo, hi in u.bvs:
        ts += [lo, hi]
    if u.len is not None:
        ts.append(u.len)
    if not addr_only:
        ts += list(vterms(u.val))
    return any(a in T.atoms_of(t) for t in ts)


# ---------------------------------------------------------------- discovery
def persistent(L, reg):
    return reg.id <= L.marker


def entry_value(L, key, kind):
    e = L.st0.mem.get(key)
    if e is not None:
        return e[1]
    reg, o = key
    return L.ex._missing(L.st0, reg, o, kind)


def discover(L):
    """add locations that the body changed; True if there are new ones"""
    new = False
    hs, ls = L.hs, L.ls
    for key, e in ls.mem.items():
        reg, slot = key
        if key in L.guess or not persistent(L, reg):
            continue
        h = hs.mem.get(key)
        if h is e:
            continue
        if isinstance(e, Chain):
            if h is not None and samebase(h.base, e.base) and len(h.ups) == len(e.ups) and all(a.same(b) for a, b in zip(h.ups, e.ups)):
                continue
            if h is None:
                h = L.ex.chain(L.st0, reg, slot)
                if samebase(h.base, e.base) and not e.ups:
                    continue
            L.guess[key] = ChainG(L.st0.mem[key])
            new = True
        else:
            if h is None:
                c0 = entry_value(L, key, e[0])
                if same(c0, e[1]):
                    L.st0.mem[key] = (e[0], c0)
                    continue
            else:
                c0 = h[1]
                if same(h[1], e[1]):
                    continue
                if h[0] != e[0]:
                    c0 = None
            if c0 is None:
                c0 = L.c.fresh('retyped', ksort(e[0]))
            if isinstance(c0, PIte):
                left = [q for g, q in L.ex._alts(c0) if g is TRUE or not quick(L.st0.hyps(), bnot(g))]
                if len(left) == 1:
                    c0 = left[0]
            L.st0.mem[key] = (e[0], c0)
            L.guess[key] = Cell(e[0], c0)
            new = True
    for reg, fl in ls.fill.items():
        if persistent(L, reg) and fl != hs.fill.get(reg, ()):
            old = hs.fill.get(reg, ())
            add_ = fl[:len(fl) - len(old)]
            # a repeated clear of the same object: describe its cells individually
            L.st0.fill[reg] = fl
            if not getattr(reg, 'fillnoted', False):
                L.c.notes.add('object cleared in a loop: ' + reg.name)
            new = True
            if reg.origin != 'alloca':
                raise Unsupported('memset of a persistent object in a loop')
    for reg, fr in ls.freed.items():
        if persistent(L, reg) and fr is not hs.freed.get(reg, FALSE):
            raise Unsupported('delete in a loop')
    return new


def max_pattern(v, ca):
    """v is the larger (or smaller) one of the cell ca and an expression: (expression, 'max' or 'min')"""
    a = T.single_atom(v)
    if a is None or a.op != 'ite':
        return None
    c, x, y = a.args
    h = atom(ca)
    if x is h and y is not h:
        c, x, y = bnot(c), y, x
    elif y is not h:
        return None
    # c chooses x over h
    if c is lt(h, x) or c is le(h, x):
        return x, 'max'
    if c is lt(x, h) or c is le(x, h):
        return x, 'min'
    return None


def kept_or(v, h):
    """(c, x) if v is ite(c, x, h)"""
    a = T.single_atom(v) if isinstance(v, T.T) and v.sort != 'B' else None
    if a is None or a.op != 'ite':
        return None
    c, x, y = a.args
    return (c, x) if same(y, h) else (bnot(c), y) if same(x, h) else None


def pairs(L):
    """two variables assigned together, one an index and the other a value at that index: the relation
    between them that the assignment establishes is proposed as an invariant"""
    vs = []
    for key, g in L.guess.items():
        e, h = L.ls.mem.get(key), L.hs.mem.get(key)
        if isinstance(g, Cell) and e is not None and h is not None and e[0] == h[0] == g.kind and isinstance(g.c0, T.T):
            p = kept_or(e[1], h[1])
            if p is not None:
                vs.append((key, g, p))
    out = []
    for k2, g2, (c2, x2) in vs:
        r = coeff_of(x2, L.ka) if x2.sort == 'I' else None
        s = T.const_int(r[0]) if r is not None else None
        if s not in (1, -1):
            continue
        for k1, g1, (c1, x1) in vs:
            if x1.sort != 'R' or c1 is not c2:
                continue

            def form(ex, st, k1=k1, k2=k2, x1=x1, s=s, d=r[1]):
                if k1 not in st.mem or k2 not in st.mem:
                    return [FALSE]
                return [eq(st.mem[k1][1], T.subst(x1, {L.ka: scale_i(sub(st.mem[k2][1], d), s)}))]
            out.append(Inv('%s belongs to %s' % (k1[0].uname, k2[0].uname), None, form))
    return out


def running_max(L, c0, d, kind):
    """extremum of the start value and the values d of all iterations so far"""
    ka, kv = L.ka, L.kv
    lv = list(L.c.loopvars)
    kk = ('extremum', kind, d.id, c0.id, L.depth)
    nm = DEFS.get(kk)
    if nm is None:
        nm = DEFS[kk] = 'M!%d' % len(DEFS)
    less = (lambda a, b: le(a, b)) if kind == 'max' else (lambda a, b: le(b, a))

    def fn(k):
        n = T.const_int(sub(k, kv))
        if n is not None and n >= 1:
            r = T.app(nm, lv + [kv], 'R')
            for j in range(n):
                x = T.subst(d, {ka: add(kv, I(j))})
                r = ite(lt(r, x) if kind == 'max' else lt(x, r), x, r)
            return r
        return T.app(nm, lv + [k], 'R')

    def axioms(k):
        q = T.var('q@%d' % L.depth, 'I')
        m = T.app(nm, lv + [k], 'R')
        w = T.app(nm + '.at', lv + [k], 'I')
        at = lambda x: T.subst(d, {ka: x})
        return [less(c0, m), T.forall(q, implies(band(ge(q, I(0)), lt(q, k)), less(at(q), m))),
                bor(eq(m, c0), band(ge(w, I(0)), lt(w, k), eq(m, at(w))))]
    return fn, axioms


def latch_pattern(v, ca):
    """v is ite(P, X, cell): (P, X); None otherwise"""
    h = atom(ca)
    if v is h:
        return FALSE, None
    a = T.single_atom(v)
    if a is None or a.op != 'ite':
        return (TRUE, v) if ca not in T.atoms_of(v) else None
    c, x, y = a.args
    if ca in T.atoms_of(c):
        return None
    x, y = latch_pattern(x, ca), latch_pattern(y, ca)
    if x is None or y is None:
        return None
    val = y[1] if x[1] is None else x[1] if y[1] is None else ite(c, x[1], y[1])
    return bor(band(c, x[0]), band(bnot(c), y[0])), val


def latch(L, c0, P, X):
    """the value X of the last iteration in which P held, c0 before the first one"""
    ka, kv = L.ka, L.kv
    lv = list(L.c.loopvars)
    kk = ('latch', P.id, L.depth)
    nm = DEFS.get(kk)
    if nm is None:
        nm = DEFS[kk] = 'last!%d' % len(DEFS)
    at = lambda t, x: T.subst(t, {ka: x})

    def fn(k):
        n = T.const_int(sub(k, kv))
        if n is not None and n >= 1:
            r = fn(kv)
            for j in range(n):
                i = add(kv, I(j))
                r = ite(at(P, i), at(X, i), r)
            return r
        w = T.app(nm, lv + [k], 'I')
        return ite(lt(w, I(0)), c0, at(X, w))

    def axioms(k):
        q = T.var('q@%d' % L.depth, 'I')
        w = T.app(nm, lv + [k], 'I')
        return [ge(w, I(-1)), lt(w, k),
                T.forall(q, implies(band(ge(q, I(0)), lt(q, k), gt(q, w)), bnot(at(P, q)))),
                implies(ge(w, I(0)), at(P, w))]
    return fn, axioms


def step_range(v, h):
    """(least, largest) change from h to v if it is one of a few numbers, whatever the conditions"""
    if not isinstance(v, T.T) or v.sort != 'I':
        return None
    d = T.const_int(sub(v, h))
    if d is not None:
        return d, d
    a = T.single_atom(v)
    if a is None or a.op != 'ite':
        return None
    x, y = step_range(a.args[1], h), step_range(a.args[2], h)
    if x is None or y is None:
        return None
    return min(x[0], y[0]), max(x[1], y[1])


def push_diff(v, cur, ca):
    """v - cur if it does not mention the atom ca; pushes through ite"""
    d = sub(v, cur)
    if ca not in T.atoms_of(d):
        return d
    a = T.single_atom(v)
    if a is not None and a.op == 'ite':
        if ca in T.atoms_of(a.args[0]):
            return None
        x = push_diff(a.args[1], cur, ca)
        y = push_diff(a.args[2], cur, ca)
        if x is None or y is None:
            return None
        return ite(a.args[0], x, y)
    # one ite inside a sum
    for m, cc in v.args:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'ite' and ca in T.atoms_of(m[0][0]) and cc == 1:
            it = m[0][0]
            if ca in T.atoms_of(it.args[0]):
                return None
            rest = sub(v, atom(it))
            x = push_diff(add(it.args[1], rest), cur, ca)
            y = push_diff(add(it.args[2], rest), cur, ca)
            if x is None or y is None:
                return None
            return ite(it.args[0], x, y)
    return None


def simple_delta(L, d):
    """an increment that depends on how many iterations an inner loop made, as that number"""
    if d.sort != 'I' or not any(a.op == 'ite' for m, c in d.args for a, k in m):
        return d
    hy = L.hs.hyps()
    for m, c in d.args:
        for a, k in m:
            if a.op != 'ite':
                continue
            cands = []
            for x in T.atoms_of(a.args[0]):
                if x.op in ('app', 'var') and x.sort == 'I' and x is not L.ka and atom(x) not in cands:
                    cands.append(atom(x))
            for x in cands:
                for q in (1, 2, 3, 8):
                    if smt.prove(hy, eq(atom(a), scale_i(x, q)), 800).ok:
                        return simple_delta(L, T.subst(d, {a: scale_i(x, q)}))
    return d


def unresolved_names(L, but=None):
    # the forms at the start of the round: the body was executed with those
    return {nm for nm, key in L.names.items() if key != but and L.form0[key] == 'havoc'}


def counter(L, c0, d, kind):
    ka = L.ka
    if ka not in T.atoms_of(d):
        if d.sort == 'I':
            return lambda k: add(c0, mul(d, k)), 'counter'
        return lambda k: add(c0, mul(d, i2r(k))), 'counter'

    def fn(k):
        t = T.var('s@%d' % L.depth, 'I')
        n = T.const_int(sub(k, L.kv))
        if n is not None and n >= 1:
            # the last iterations are split off (k >= 0)
            r = fn(L.kv)
            for j in range(n):
                r = add(r, T.subst(d, {ka: add(L.kv, I(j))}))
            return r
        return add(c0, mksum(t, T.subst(d, {ka: t}), I(0), k))
    return fn, 'sum'


def refine(L, stuck):
    """one refinement step; True if the description changed"""
    changed = False
    ls, hs = L.ls, L.hs
    ka, kv = L.ka, L.kv
    L.form0 = {key: g.form for key, g in L.guess.items()}
    # names read or mentioned anywhere
    mentioned = set(L.read)
    for key, g in L.guess.items():
        e = ls.mem.get(key)
        if e is None:
            continue
        if isinstance(g, Cell):
            own = hname(L, key)
            mentioned |= (vnames(e[1]) - {own}) & set(L.names)
        else:
            own = hname(L, key)
            mentioned |= (chnames(Chain(None, e.ups)) - {own}) & set(L.names)
    for fct in ls.facts + ls.pc:
        if fct not in hs.facts and fct not in L.c.derived:
            mentioned |= T.symnames(fct) & set(L.names)
    unresolved_left = []
    for key, g in L.guess.items():
        if not isinstance(g, Cell):
            continue
        own = hname(L, key)
        e = ls.mem.get(key)
        if e is None or e[0] != g.kind:
            if g.form != 'unknown':
                g.form = 'unknown'
                g.noptr = True
                changed = True
            continue
        v = e[1]
        if isinstance(v, Ptr) and not persistent(L, v.reg):
            v = UndefP('gone')
        h = hs.mem[key][1]
        if g.form == 'closed':
            w = g.fn(add(kv, I(1)))
            if not same(v, w) and not prove_same(L, v, w):
                if g.desc in ('extremum', 'latch') and getattr(g, 'again', 0) < 3:
                    # the values compared have got better descriptions in the meantime
                    g.again = getattr(g, 'again', 0) + 1
                    g.form, g.axioms = 'havoc', None
                    changed = True
                    continue
                g.form = 'unknown'
                g.desc = 'demoted'
                changed = True
            continue
        if g.form == 'unknown':
            b = step_range(v, h) if ksort(g.kind) == 'I' and isinstance(g.c0, T.T) else None
            if b != getattr(g, 'steps', None):
                g.steps = b
                changed = True
            continue
        # havoc
        vn = vnames(v)
        if own not in mentioned and own not in vn:
            g.desc = 'temp'
            continue
        bad = unresolved_names(L, key)
        if vn & bad:
            unresolved_left.append(key)
            continue
        if isinstance(v, T.T) and v.sort != 'B' and own in vn:
            d = push_diff(v, h, T.single_atom(h))
            if d is not None:
                d = simple_delta(L, d)
                g.fn, g.desc = counter(L, g.c0, d, g.kind)
                g.form = 'closed'
                changed = True
                continue
            d = max_pattern(v, T.single_atom(h)) if v.sort == 'R' else None
            if d is not None and own not in vnames(d[0]):
                g.fn, g.axioms = running_max(L, g.c0, *d)
                g.form, g.desc = 'closed', 'extremum'
                changed = True
                continue
            d = latch_pattern(v, T.single_atom(h))
            if d is not None and d[1] is not None and own not in vnames(d[1]):
                g.fn, g.axioms = latch(L, g.c0, *d)
                g.form, g.desc = 'closed', 'latch'
                changed = True
                continue
        elif isinstance(v, Ptr) and isinstance(h, Ptr) and v.reg is h.reg and v.key == h.key and own in vn:
            ca = [a for a in T.atoms_of(h.off) if a.op == 'app' and a.args[0] == own]
            d = push_diff(v.off, h.off, ca[0]) if ca else None
            if d is not None:
                d = simple_delta(L, d)
                fo, g.desc = counter(L, g.c0.off, d, 'I64')
                g.fn = (lambda k, fo=fo, g=g: Ptr(g.c0.reg, fo(k), g.c0.key))
                g.form = 'closed'
                changed = True
                continue
        if own not in vn and not (isinstance(v, UndefP)):
            def fn(k, v=v, c0=g.c0):
                cond = le(k, I(0))
                if cond is not TRUE and T.is_num(sub(k, kv)):
                    # at k+1 the condition folds because k >= 0
                    n = T.const_int(sub(k, kv))
                    if n >= 1:
                        cond = FALSE
                return vite(cond, c0, vsubst(v, {ka: sub(k, I(1))}))
            g.fn = fn
            g.form = 'closed'
            g.desc = 'last'
            changed = True
            continue
        if isinstance(h, Ptr) and not getattr(g, 'noptr', False):
            g.noptr = True
            changed = True
            continue
        g.form = 'unknown'
        g.desc = 'recurrence'
        changed = True
    for key, g in L.guess.items():
        if isinstance(g, Cell):
            continue
        r = refine_chain(L, key, g, mentioned)
        if r == 'wait':
            unresolved_left.append(key)
        elif r:
            changed = True
    if not changed and unresolved_left:
        # break a cycle: give up on one chain (or cell) at a time
        unresolved_left.sort(key=lambda k: isinstance(L.guess[k], Cell))
        L.guess[unresolved_left[0]].form = 'unknown'
        L.guess[unresolved_left[0]].desc = 'cycle'
        changed = True
    return changed


def prove_same(L, v, w):
    hy = L.ls.hyps()
    if isinstance(v, T.T) and isinstance(w, T.T) and v.sort == w.sort:
        r = smt.prove(hy, eq(v, w), 3000)
        return r.ok
    if isinstance(v, Ptr) and isinstance(w, Ptr) and v.reg is w.reg:
        return all(smt.prove(hy, eq(a, b), 2000).ok for a, b in zip((v.off,) + v.key, (w.off,) + w.key))
    if isinstance(v, PIte) or isinstance(w, PIte):
        c = v.c if isinstance(v, PIte) else w.c
        return False
    return False


def normalise(L, ups):
    """merge updates of one iteration that hit the same place"""
    out = []
    for u in ups:
        if u.guard is T.FALSE:
            continue
        if not u.bvs and u.mode in ('set', 'acc'):
            for i in range(len(out) - 1, -1, -1):
                p = out[i]
                if p.mode == 'fill' or p.bvs:
                    break
                if p.off is u.off and p.key == u.key and p.kind == u.kind:
                    if u.mode == 'set' and u.guard is TRUE:
                        del out[i]
                        continue
                    if u.mode == 'acc' and p.guard is TRUE:
                        add_ = ite(u.guard, u.val, R(0))
                        u = p.clone(val=add(p.val, add_))
                        del out[i]
                        break
                    if u.mode == 'acc' and p.mode == 'acc' and p.guard is u.guard:
                        u = p.clone(val=add(p.val, u.val))
                        del out[i]
                        break
                    break
                else:
                    # different place? only continue past provably different ones
                    break
        elif u.mode == 'set' and u.guard is TRUE:
            # a store that this one overwrites everywhere
            while out and out[-1].mode == 'set' and out[-1].kind == u.kind and same_domain(out[-1], u):
                out.pop()
        out.append(u)
    return out


def same_domain(p, u):
    if len(p.bvs) != len(u.bvs) or len(p.key) != len(u.key):
        return False
    mp = {}
    for (v, lo, hi), (v2, lo2, hi2) in zip(p.bvs, u.bvs):
        if T.subst(lo, mp) is not lo2 or T.subst(hi, mp) is not hi2:
            return False
        mp[T.single_atom(v)] = v2
    return T.subst(p.off, mp) is u.off and all(T.subst(a, mp) is b for a, b in zip(p.key, u.key))


def refine_chain(L, key, g, mentioned):
    ls, hs = L.ls, L.hs
    kv, ka = L.kv, L.ka
    if g.form == 'unknown':
        return False
    h = hs.mem[key]
    e = ls.mem.get(key)
    own = hname(L, key)

    def giveup(why):
        g.form = 'unknown'
        g.desc = why
        if L.c.debug:
            print('   give up', key, why)
            for u in (g.ts or []) if hasattr(g, 'ts') else []:
                print('       ', u)
        return True
    if e is None or not samebase(h.base, e.base) or len(e.ups) < len(h.ups) or not all(a.same(b) for a, b in zip(h.ups, e.ups)):
        return giveup('base')
    nu = normalise(L, e.ups[len(h.ups):])
    if g.form == 'havoc':
        bad = unresolved_names(L, key)
        ts = []
        for u in nu:
            an = set()
            for t in list(u.key) + [u.off, u.guard] + [x for b in u.bvs for x in b[1:]] + ([u.len] if u.len is not None else []):
                an |= T.symnames(t)
            if an & (bad | {own}):
                return 'wait' if an & bad else giveup('address')
            vn = vnames(u.val) if not isinstance(u.val, int) else set()
            if vn & bad:
                return 'wait'
            if own in vn and u.mode == 'acc' and getattr(g, 'ownread', 0) > 2:
                return giveup('acc reads itself')
            g.ownread = getattr(g, 'ownread', 0) + (own in vn and u.mode == 'acc')
            ts.append(u)
        g.ts = ts
        g.sym = {}
        for i, u in enumerate(ts):
            if u.mode == 'set' and own in vnames(u.val):
                if L.c.opaque_loops:
                    return giveup('left to the invariants')
                if ksort(u.kind) == 'P' or ksort(u.kind) == 'B':
                    return giveup('pointer recurrence')
                g.sym[i] = ['V?%d.%d.%d' % (L.depth, L.lid, i), None]
        try:
            ok = order_ok(L, ts)
        except Unsupported as x:
            return giveup('order: %s' % x)
        if not ok:
            return giveup('order')
        g.form = 'ups'
        return True
    # ups
    if len(nu) != len(g.ts):
        if L.c.debug:
            print('   now', nu)
        return giveup('number of updates changed')
    changed = False
    hy = ls.hyps()
    for i, (u, t) in enumerate(zip(nu, g.ts)):
        if u.mode != t.mode and not u.bvs and not t.bvs and {u.mode, t.mode} == {'set', 'acc'} and len(nu) == len(g.ts):
            if u.mode == 'acc':
                # the same as an assignment of the old value plus the increment
                try:
                    pos = len(h.ups) + e.ups[len(h.ups):].index(u) if u in e.ups[len(h.ups):] else None
                    if pos is not None:
                        reg = key[0]
                        cur = read_chain(L.c, ls, Chain(e.base, e.ups[:pos]), u.key, u.off, u.kind, KSIZE[u.kind] if reg.mode == 'array' else None)
                        u = u.clone(mode='set', val=add(cur, u.val))
                except Unsupported:
                    pass
            elif getattr(g, 'flips', 0) < 3:
                g.flips = getattr(g, 'flips', 0) + 1
                if own not in vnames(u.val):
                    g.ts[i] = t = u
                    changed = True
                    try:
                        if not order_ok(L, g.ts):
                            return giveup('order')
                    except Unsupported as x:
                        return giveup('order: %s' % x)
        if u.mode != t.mode or u.kind != t.kind or len(u.bvs) != len(t.bvs):
            if L.c.debug:
                print('  shape', u, t)
            return giveup('shape')
        if u.bvs != t.bvs or u.key != t.key or u.off is not t.off or u.guard is not t.guard or u.len is not t.len:
            # a more precise address: start again from it
            if getattr(g, 'restarts', 0) < 3:
                g.restarts = getattr(g, 'restarts', 0) + 1
                g.form = 'havoc'
                return True
            return giveup('address changed')
        if i in g.sym:
            nm, d = g.sym[i]
            names = {n for n, _ in g.sym.values()}
            if d is None or not same_def(L, d, u.val):
                if d is not None and getattr(g, 'redef', 0) > 3:
                    return giveup('definition changes')
                g.redef = getattr(g, 'redef', 0) + 1
                if not (vnames(u.val) & names):
                    # no dependence on earlier iterations
                    del g.sym[i]
                    g.ts[i] = t.clone(val=u.val)
                else:
                    g.sym[i] = [nm, u.val]
                changed = True
        else:
            if isinstance(u.val, T.T) and u.val is not t.val or not isinstance(u.val, (T.T, int)) and not same(u.val, t.val):
                if getattr(g, 'revals', 0) > 4 or u.mode == 'acc' and own in vnames(u.val):
                    return giveup('value changes')
                g.revals = getattr(g, 'revals', 0) + 1
                g.ts[i] = t.clone(val=u.val)
                changed = True
    if not changed and any(t.mode == 'acc' and own in vnames(t.val) for t in g.ts):
        return giveup('acc reads itself')
    # canonical names for fully defined symbols
    if not changed and g.sym and all(d is not None for _, d in g.sym.values()):
        mp = {}
        ids = tuple(sorted((i, T.rename_apps(d, {n: 'SELF%d' % j for j, (n, _) in g.sym.items()}).id) for i, (_, d) in g.sym.items()))
        for i, (n, d) in g.sym.items():
            if n.startswith('V?'):
                kk = (ids, i, len(L.c.loopvars))
                nn = DEFS.get(kk)
                if nn is None:
                    nn = 'V!%d' % len(DEFS)
                    DEFS[kk] = nn
                mp[n] = nn
        if mp:
            for i in g.sym:
                n, d = g.sym[i]
                g.sym[i] = [mp.get(n, n), T.rename_apps(d, mp)]
            changed = True
    return changed


def same_def(L, d, v):
    return d is v


def order_ok(L, ts):
    """the updates of different iterations commute where the closed description reorders them"""
    kv, ka = L.kv, L.ka
    hy0 = [h for h in L.ls.hyps() if ka not in T.atoms_of(h)]
    s = T.var('os@%d' % L.depth, 'I')
    t = T.var('ot@%d' % L.depth, 'I')
    hk = [h for h in L.ls.hyps() if ka in T.atoms_of(h) and h.op != 'forall']

    def at(v):
        return [T.subst(h, {ka: v}) for h in hk]
    for i, u in enumerate(ts):
        if u.mode == 'set':
            if u_mentions(u, ka, True):
                # injectivity: solve() must determine the iteration
                w = u.subst({ka: t}).clone(bvs=((t, I(0), add(kv, I(1))),) + tuple(u.subst({ka: t}).bvs))
                z = u.subst({ka: s})
                zz = z.freshen() if z.bvs else z
                hy = hy0 + at(s) + [ge(s, I(0))] + [le(lo, v) for v, lo, hi in zz.bvs] + [lt(v, hi) for v, lo, hi in zz.bvs]
                r = solve(hy, w, zz.key, zz.off)
                if r is None:
                    return False
            elif ka in T.atoms_of(u.guard):
                return False
        elif u.mode == 'fill' and u_mentions(u, ka, True):
            raise Unsupported('moving memset')
    for i in range(len(ts)):
        for j in range(i + 1, len(ts)):
            a, b = ts[i], ts[j]
            if a.mode == 'acc' and b.mode == 'acc':
                continue
            # b at iteration s, a at iteration t > s : must not hit the same place
            if a.mode == 'fill' or b.mode == 'fill':
                raise Unsupported('memset and other updates in one loop')
            wa = a.subst({ka: t})
            wa = wa.freshen() if wa.bvs else wa
            zb = b.subst({ka: s})
            zb = zb.freshen() if zb.bvs else zb
            hy = hy0 + at(s) + at(t) + [ge(s, I(0)), lt(s, t)] + [le(lo, v) for v, lo, hi in zb.bvs + wa.bvs] + [lt(v, hi) for v, lo, hi in zb.bvs + wa.bvs]
            hy += [zb.guard, wa.guard]
            eqs = [eq(x, y) for x, y in zip(wa.key, zb.key)] + [eq(x, y) for x, y in split_eq(hy, wa.off, zb.off)]
            if not quick(hy, bnot(band(*eqs))):
                return False
    return True


# -------------------------------------------------------------------- exits
def trip_count(L, X):
    """K with X false before K and true at K, if X is linear"""
    ka = L.ka
    hy = L.st0.hyps()
    if X.op in ('le', 'eq') and X.args[0].sort == 'I':
        r = coeff_of(X.args[0], ka)
        if r is None:
            return None
        B, A = r
        B = T.const_int(B)
        if B is None or B == 0:
            return None
        if X.op == 'le':
            if B > 0:
                return None
            b = -B
            if b == 1:
                K = A
            else:
                K = T.idiv(add(A, I(b - 1)), b)
            if quick(hy, ge(K, I(0))):
                return K
            return ite(ge(K, I(0)), K, I(0))
        # exit when A + B k == 0
        q = exact_div(neg(A), B) if B > 0 else exact_div(A, -B)
        if q is None:
            return None
        if quick(hy, ge(q, I(0))):
            return q
    return None


def eqs_in(X):
    if X.op == 'eq' and X.args[0].sort == 'I':
        return [X]
    if X.op in ('and', 'or'):
        return [e for x in X.args for e in eqs_in(x)]
    if X.op == 'not':
        return eqs_in(X.args[0])
    return []


def upper_bound(L):
    """q, if the loop is left at iteration q exactly (an exit with condition k == q, q >= 0): every
    iteration that is reached satisfies k <= q"""
    npc = len(L.hs.pc)
    for tgt, l in L.edges.items():
        for s, p in l:
            X = band(*s.pc[npc:])
            for e in eqs_in(X):
                r = coeff_of(e.args[0], L.ka)
                if r is None:
                    continue
                B, A = r
                B = T.const_int(B)
                if not B:
                    continue
                q = exact_div(neg(A), B) if B > 0 else exact_div(A, -B)
                if q is None or L.ka in T.atoms_of(q) or not quick(L.st0.hyps(), ge(q, I(0))):
                    continue
                if X is e or smt.prove(L.st0.hyps(), T.subst(X, {L.ka: q}), 2000).ok:
                    return q
    return None


def finish(L):
    c = L.c
    hs = L.hs
    exits = [(tgt, s, p) for tgt, l in L.edges.items() for s, p in l]
    npc = len(L.hs.pc)
    if L.ls is None:
        return close_exits(L, I(0))
    if not exits:
        return {}
    K = None
    if len(exits) == 1:
        s = exits[0][1]
        X = band(*s.pc[npc:])
        K = trip_count(L, X)
        if K is None and L.ubound is not None and smt.prove(hs.hyps() + [X], eq(L.kv, L.ubound), 2000).ok:
            K = L.ubound
    facts = []
    if K is None:
        K = T.app(c.newname('K'), list(c.loopvars), 'I')
        q = T.var('q@%d' % L.depth, 'I')
        cont = band(*L.ls.pc[npc:])
        facts.append(ge(K, I(0)))
        if cont is not TRUE:
            body = implies(band(ge(q, I(0)), lt(q, K)), T.subst(cont, {L.ka: q}))
            facts.append(T.forall(q, body))
            last = T.subst(cont, {L.ka: sub(K, I(1))})
            facts.append(implies(ge(K, I(1)), last))
    # facts established in every completed iteration
    hist = []
    hset = set(hs.facts)
    for fct in L.ls.facts:
        if fct in hset or fct in c.derived or L.ka not in T.atoms_of(fct):
            continue
        hist.append(fct)
    for fct in hist:
        q = T.var('q@%d' % L.depth, 'I')
        facts.append(T.forall(q, implies(band(ge(q, I(0)), lt(q, K)), T.subst(fct, {L.ka: q}))))
    L.exitfacts = facts
    return close_exits(L, K)


def at_least_once(n, K):
    g = ge(K, I(1))
    return g if g is TRUE or quick(n.hyps(), g) else False


def close_exits(L, K):
    mp = {L.ka: K}
    memo = {}
    out = {}
    c = L.c
    for tgt, lst in L.edges.items():
        for s, pred in lst:
            n = L.st0.copy()
            base = list(n.facts)
            fs = []
            for fct in s.facts:
                if fct in n.facts:
                    continue
                fs.append(T._subst(fct, mp, memo))
            n.assume(*[x for x in getattr(L, 'exitfacts', [])])
            n.assume(*fs)
            pcx = tuple(T._subst(x, mp, memo) for x in s.pc[len(L.hs.pc):])
            fl = []
            dead = False
            for x in pcx:
                if x is TRUE:
                    continue
                if x is FALSE:
                    dead = True
                fl += list(x.args) if x.op == 'and' else [x]
            if dead:
                continue
            n.pc = n.pc + tuple(x for x in fl if x not in n.facts and x not in n.pc)
            n.mem = {}
            pos = None
            for key, e in s.mem.items():
                o = L.st0.mem.get(key)
                if o is e:
                    n.mem[key] = e
                    continue
                g = L.guess.get(key)
                if isinstance(e, Chain):
                    ch = chsubst(e, mp)
                    if pos is None and any(u.guard is not TRUE for u in ch.ups):
                        pos = at_least_once(n, K)
                    if pos:
                        ch = Chain(ch.base, tuple(u.clone(guard=band(*[x for x in (u.guard.args if u.guard.op == 'and' else (u.guard,)) if x is not pos]))
                                                  if u.guard is not TRUE else u for u in ch.ups))
                    n.mem[key] = ch
                else:
                    v = e[1]
                    if isinstance(g, Cell) and g.form == 'havoc' and L.ls is not None:
                        # temporary: last value of the loop unless overwritten since
                        if same(v, L.hs.mem[key][1]):
                            lv = L.ls.mem.get(key)
                            if lv is not None and lv[0] == g.kind and not isinstance(lv[1], UndefP):
                                km1 = sub(K, I(1))
                                v2 = vsubst(lv[1], {L.ka: km1})
                                try:
                                    n.mem[key] = (g.kind, vite(le(K, I(0)), g.c0, v2))
                                    continue
                                except Unsupported:
                                    pass
                    n.mem[key] = (e[0], vsubst(v, mp))
            n.fill = dict(s.fill)
            n.freed = {r: T._subst(x, mp, memo) if isinstance(x, T.T) else x for r, x in s.freed.items()}
            n.regs = {}
            for r, v in s.regs.items():
                o = L.st0.regs.get(r)
                n.regs[r] = v if o is v else vsubst(v, mp)
            n.ret = None if s.ret is None else vsubst(s.ret, mp)
            out.setdefault(tgt, []).append((n, pred))
    return out
