"""Symbolic execution of the LLVM IR of the real code: values, memory, calls.

Loops are summarised exactly (loops.py).  Functions under contract are not
entered at call sites: their contract is applied instead.
"""
import os
from fractions import Fraction
import struct
import re
from .terms import *
from . import terms as T
from . import smt
from .smt import quick


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


# ------------------------------------------------------------------ values
class Region:
    _n = [0]

    def __init__(self, name, mode, size=None, ekind=None, nkeys=0, init=None, origin='ext', esize=None):
        Region._n[0] += 1
        self.id = Region._n[0]
        self.name = name
        self.mode = mode            # 'struct' | 'array'
        self.size = size            # bytes (Int term) or None
        self.ekind = ekind
        self.nkeys = nkeys
        self.init = init            # struct: f(off,kind,key) ; array: f(key, idx) -> value
        self.origin = origin
        self.cache = {}
        self.keyrange = None        # f(key) -> list of Bool that hold for valid objects
        self.uname = '%s#%d' % (name, self.id)

    def __repr__(self):
        return self.uname


class Ptr:
    __slots__ = ('reg', 'key', 'off')

    def __init__(self, reg, off, key=()):
        self.reg = reg
        self.off = off if isinstance(off, T.T) else I(off)
        self.key = tuple(key)

    def __repr__(self):
        return 'Ptr(%r%s,+%s)' % (self.reg, ''.join('[%s]' % show(k) for k in self.key), show(self.off))


class NullT:
    def __repr__(self):
        return 'NULL'


NULL = NullT()


class PIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'PIte(%s,%r,%r)' % (show(self.c), self.a, self.b)


class FnPtr:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Fn(%s)' % self.name


class AbsVT:
    """vtable of an object of unknown dynamic type deriving from cls"""

    def __init__(self, cls, off=0):
        self.cls = cls
        self.off = off


class AbsFn:
    def __init__(self, cls, slot):
        self.cls = cls
        self.slot = slot


class UndefP:
    """uninitialised / havocked pointer"""

    def __init__(self, why=''):
        self.why = why

    def __repr__(self):
        return 'UndefP(%s)' % self.why


def is_ptr(v):
    return isinstance(v, (Ptr, NullT, PIte, FnPtr, UndefP, AbsVT, AbsFn))


def pite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if same(a, b):
        return a
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg is b.reg:
        return Ptr(a.reg, ite(c, a.off, b.off), tuple(ite(c, x, y) for x, y in zip(a.key, b.key)))
    return PIte(c, a, b)


def vite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if is_ptr(a) or is_ptr(b):
        return pite(c, a, b)
    if isinstance(a, list):
        return [vite(c, x, y) for x, y in zip(a, b)]
    if a is None or b is None:
        return None
    if a.sort != b.sort:
        raise Unsupported('merge of sorts')
    return ite(c, a, b)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.reg is b.reg and a.off is b.off and a.key == b.key
    if isinstance(a, PIte) and isinstance(b, PIte):
        return a.c is b.c and same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, FnPtr) and isinstance(b, FnPtr):
        return a.name == b.name
    if isinstance(a, AbsVT) and isinstance(b, AbsVT):
        return a.cls == b.cls and a.off == b.off
    if isinstance(a, AbsFn) and isinstance(b, AbsFn):
        return a.cls == b.cls and a.slot == b.slot
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False


def vsubst(v, mp, memo=None):
    if memo is None:
        memo = {}
    if isinstance(v, T.T):
        return T._subst(v, mp, memo)
    if isinstance(v, Ptr):
        return Ptr(v.reg, T._subst(v.off, mp, memo), tuple(T._subst(k, mp, memo) for k in v.key))
    if isinstance(v, PIte):
        return pite(T._subst(v.c, mp, memo), vsubst(v.a, mp, memo), vsubst(v.b, mp, memo))
    if isinstance(v, list):
        return [vsubst(x, mp, memo) for x in v]
    return v


def vterms(v):
    """terms inside a value"""
    if isinstance(v, T.T):
        yield v
    elif isinstance(v, Ptr):
        yield v.off
        yield from v.key
    elif isinstance(v, PIte):
        yield v.c
        yield from vterms(v.a)
        yield from vterms(v.b)
    elif isinstance(v, list):
        for x in v:
            yield from vterms(x)


def vnames(v):
    r = set()
    if isinstance(v, UndefP):
        r.add(v.why)
    elif isinstance(v, PIte):
        r |= T.symnames(v.c) | vnames(v.a) | vnames(v.b)
    elif isinstance(v, list):
        for x in v:
            r |= vnames(x)
    else:
        for t in vterms(v):
            r |= T.symnames(t)
    return r


def vmentions(v, atoms):
    for t in vterms(v):
        if not atoms.isdisjoint(T.atoms_of(t)):
            return True
    return False


# ------------------------------------------------------------------ memory
class U:
    """one update of an array / keyed chain.  bvs: ((var, lo, hi), ...)"""
    __slots__ = ('bvs', 'key', 'off', 'guard', 'kind', 'val', 'mode', 'len')

    def __init__(self, key, off, guard, kind, val, mode='set', bvs=(), ln=None):
        self.key, self.off, self.guard, self.kind, self.val = tuple(key), off, guard, kind, val
        self.mode, self.bvs, self.len = mode, tuple(bvs), ln

    def clone(self, **kw):
        d = dict(key=self.key, off=self.off, guard=self.guard, kind=self.kind, val=self.val, mode=self.mode, bvs=self.bvs, ln=self.len)
        d.update(kw)
        return U(**d)

    def subst(self, mp):
        memo = {}
        f = lambda t: T._subst(t, mp, memo)
        return U(tuple(f(k) for k in self.key), f(self.off), f(self.guard), self.kind, vsubst(self.val, mp, memo),
                 self.mode, tuple((v, f(lo), f(hi)) for v, lo, hi in self.bvs), None if self.len is None else f(self.len))

    def freshen(self):
        mp = {v: T.fresh('fb', 'I') for v, _, _ in self.bvs}
        u = self.subst({T.single_atom(k): v for k, v in mp.items()})
        u.bvs = tuple((mp[v], lo, hi) for v, lo, hi in u.bvs)
        return u

    def same(self, o):
        return self is o or (self.key == o.key and self.off is o.off and self.guard is o.guard and self.kind == o.kind
                             and same(self.val, o.val) and self.mode == o.mode and self.bvs == o.bvs and self.len is o.len)

    def terms(self):
        yield from self.key
        yield self.off
        yield self.guard
        yield from vterms(self.val)
        for v, lo, hi in self.bvs:
            yield lo
            yield hi
        if self.len is not None:
            yield self.len

    def __repr__(self):
        return 'U[%s](%s+%s if %s := %s%s)' % (','.join('%s:%s..%s' % (show(v), show(a), show(b)) for v, a, b in self.bvs), ','.join(show(k) for k in self.key), show(self.off), show(self.guard), '+=' if self.mode == 'acc' else '', self.val)


class HBase:
    """content of an array that is an unknown function of the loop state"""

    def __init__(self, name, prefix):
        self.name, self.prefix = name, tuple(prefix)

    def __call__(self, key, idx, off, kind):
        s = ksort(kind)
        if s == 'P':
            return UndefP('%s' % self.name)
        return T.app(self.name, self.prefix + tuple(key) + (off,), s)

    def subst(self, mp):
        memo = {}
        return HBase(self.name, [T._subst(x, mp, memo) for x in self.prefix])

    def same(self, o):
        return isinstance(o, HBase) and self.name == o.name and self.prefix == o.prefix

    def names(self):
        r = {self.name}
        for x in self.prefix:
            r |= T.symnames(x)
        return r


class MBase:
    """one of two contents, depending on a condition"""

    def __init__(self, ctx, x, y, cond):
        self.ctx, self.x, self.y, self.cond = ctx, x, y, cond

    def __call__(self, key, idx, off, kind):
        es = KSIZE[kind]
        if self.cond is TRUE:
            return read_chain(self.ctx, State(), self.x, key, off, kind, es)
        if self.cond is FALSE:
            return read_chain(self.ctx, State(), self.y, key, off, kind, es)
        st1 = State()
        st1.pc = (self.cond,)
        st2 = State()
        st2.pc = (bnot(self.cond),)
        return vite(self.cond, read_chain(self.ctx, st1, self.x, key, off, kind, es), read_chain(self.ctx, st2, self.y, key, off, kind, es))

    def subst(self, mp):
        return MBase(self.ctx, chsubst(self.x, mp), chsubst(self.y, mp), T._subst(self.cond, mp, {}))

    def same(self, o):
        return self is o

    def names(self):
        return chnames(self.x) | chnames(self.y) | T.symnames(self.cond)


def chsubst(ch, mp):
    b = ch.base
    if hasattr(b, 'subst'):
        b = b.subst(mp)
    return Chain(b, [u.subst(mp) for u in ch.ups])


def chnames(ch):
    r = set()
    if hasattr(ch.base, 'names'):
        r |= ch.base.names()
    for u in ch.ups:
        for t in u.terms():
            r |= T.symnames(t)
    return r


def samebase(a, b):
    return a is b or (hasattr(a, 'same') and a.same(b))


class Chain:
    __slots__ = ('base', 'ups')

    def __init__(self, base, ups=()):
        self.base = base        # f(key, idx, off, kind) -> value
        self.ups = tuple(ups)

    def push(self, u):
        return Chain(self.base, self.ups + (u,))


KSIZE = {'R': 8, 'F': 4, 'P': 8, 'I64': 8, 'I32': 4, 'I16': 2, 'I8': 1, 'I1': 1}


def ksort(kind):
    return {'R': 'R', 'F': 'R', 'P': 'P', 'I1': 'B'}.get(kind, 'I')


class State:
    __slots__ = ('pc', 'facts', 'mem', 'fill', 'freed', 'regs', 'ret')

    def __init__(self):
        self.pc = ()
        self.facts = ()
        self.mem = {}
        self.fill = {}
        self.freed = {}
        self.regs = {}
        self.ret = None

    def copy(self):
        s = State()
        s.pc = self.pc
        s.facts = self.facts
        s.mem = dict(self.mem)
        s.fill = dict(self.fill)
        s.freed = dict(self.freed)
        s.regs = dict(self.regs)
        s.ret = self.ret
        return s

    def hyps(self):
        return list(self.facts) + list(self.pc)

    def assume(self, *fs):
        for f in fs:
            if f is TRUE:
                continue
            if f.op == 'and':
                self.assume(*f.args)
            elif f not in self.facts:
                self.facts = self.facts + (f,)


def guardfact(g, f):
    if g is TRUE:
        return f
    if f.op == 'forall':
        return T.forall(f.args[0], implies(g, f.args[1]))
    return implies(g, f)


class Obl:
    def __init__(self, name, hyps, goal, where='', kind='post'):
        self.name, self.hyps, self.goal, self.where, self.kind = name, hyps, goal, where, kind
        self.res = None


class Ctx:
    """one verification run of one function"""

    def __init__(self, mod, dbg, contracts=None):
        self.mod = mod
        self.dbg = dbg
        self.contracts = contracts or {}
        self.obls = []
        self.loopvars = []
        self.cnt = 0
        self.havoc = {}             # names of havocked cells -> set when read
        self.derived = set()
        self.suppress = 0
        self.loop_invs = []
        self.loop_given = []
        self.aborts = None            # what has to hold where the code under test must not give up
        self.opaque_loops = False
        self.depth = 0
        self.globals = {}
        self.entered = []           # functions inlined
        self.applied = set()        # contracts applied
        self.top = None
        self.steps = 0
        self.maxsteps = 400000
        self.obl_seen = set()
        self.nondet = 0
        self.notes = set()
        self.invariants = []
        self.loop_hook = None
        self.unroll_bound = 4
        self.max_unroll = 700
        self.virt = {}
        self.debug = bool(os.environ.get("DV_DEBUG"))
        self.force_unroll = False

    # ---- fresh symbols depend on the enclosing loop variables
    def newname(self, name):
        self.cnt += 1
        return '%s!%d' % (name, self.cnt)

    def bound(self, name):
        return T.var(self.newname(name), 'I')

    def fresh(self, name, sort):
        n = self.newname(name)
        if sort == 'P':
            return UndefP(n)
        return T.app(n, list(self.loopvars), sort)

    def freshfn(self, name):
        """name of a function symbol; prefix arguments are the loop variables"""
        n = self.newname(name)
        lv = tuple(self.loopvars)
        return lambda args, sort: T.app(n, lv + tuple(args), sort)

    # ---- obligations
    def oblige(self, st, goal, name, ins=None, kind='safety'):
        if goal is TRUE:
            if not self.suppress:
                self._count(name, ins, kind, goal, st)
            return
        if not self.suppress:
            self._count(name, ins, kind, goal, st)
        self.derived.add(goal)
        st.assume(goal)

    def _count(self, name, ins, kind, goal, st):
        where = ''
        if ins is not None:
            where = '%s line %s' % (demangle(ins.fn.name), self.dbg.line(ins))
        k = (name, where, goal.id)
        hy = st.hyps()
        kk = (k, tuple(h.id for h in hy)) if goal is not TRUE else k
        if kk in self.obl_seen:
            return
        self.obl_seen.add(kk)
        self.obls.append(Obl(name, hy, goal, where, kind))


def demangle(n):
    m = re.match(r'@_ZN?K?(.*)$', n)
    s = n.lstrip('@')
    out = []
    mm = re.match(r'_ZNK?(.*)', s)
    if not mm:
        return s
    r = mm.group(1)
    while True:
        x = re.match(r'(\d+)', r)
        if not x:
            break
        k = int(x.group(1))
        r = r[len(x.group(1)):]
        out.append(r[:k])
        r = r[k:]
        mt = re.match(r'I(?:L[a-z]\d+E)+E', r)
        if mt:
            r = r[mt.end():]
        elif r[:1] == 'I':
            e = r.find('E')
            r = r[e + 1:]
    if r[:2] in ('C1', 'C2') and out:
        out.append(out[-1])
    if r[:2] in ('D0', 'D1', 'D2') and out:
        out.append('~' + out[-1])
    return '::'.join(o for o in out if o != 'atg_scs')


# ---------------------------------------------------------- address solving
def coeff_of(p, a):
    """p = q*a + r with a not in r (a an atom, linear); returns (q, r) or None"""
    q = {}
    r = {}
    for m, c in p.args:
        d = dict(m)
        k = d.get(a, 0)
        if k == 0:
            if any(a in T.atoms_of(x) for x, _ in m):
                return None
            r[m] = c
        elif k == 1:
            mm = tuple(x for x in m if x[0] is not a)
            if any(a in T.atoms_of(x) for x, _ in mm):
                return None
            q[mm] = q.get(mm, 0) + c
        else:
            return None
    return T._mkpoly(q, p.sort), T._mkpoly(r, p.sort)


def exact_div(p, c):
    """p / c for integer constant c when every coefficient is divisible"""
    c = int(c)
    if c == 1:
        return p
    d = {}
    rest = []
    for m, k in p.args:
        if k.denominator != 1 or int(k) % c:
            if k.denominator == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'ite':
                cond, x, y = m[0][0].args
                x, y = exact_div(scale_i(x, int(k)), c), exact_div(scale_i(y, int(k)), c)
                if x is not None and y is not None:
                    rest.append(ite(cond, x, y))
                    continue
            return None
        d[m] = Fraction(int(k) // c)
    r = T._mkpoly(d, 'I')
    for x in rest:
        r = add(r, x)
    return r


def _width_candidates(p):
    out = []
    for m, c in p.args:
        if sum(k for a, k in m) >= 2:
            for a, k in m:
                if k == 1 and a.op in ('var', 'app') and a not in out:
                    out.append(a)
    for m, c in p.args:
        if sum(k for a, k in m) == 1 and m[0][0].op in ('var', 'app') and m[0][0] not in out:
            out.append(m[0][0])
    return out


def split_eq(hyps, e, a, brange=()):
    """e = a as integer addresses; try to split along a stride w (row/column).  Returns list of
    equations [(lhs, rhs)]"""
    d = sub(e, a)
    # common constant factor
    ce = [int(c) for m, c in e.args if c.denominator == 1] + [int(c) for m, c in a.args]
    import math
    g = 0
    for c in ce:
        g = math.gcd(g, c)
    if g > 1:
        e, a = exact_div(e, g), exact_div(a, g)
    nl = [m for m, c in e.args + a.args if sum(k for x, k in m) >= 2]
    if not nl:
        return [(e, a)]
    hy = list(hyps) + list(brange)
    for w in _width_candidates(add(e, mul(a, I(1000003)))):
        x = coeff_of(e, w)
        y = coeff_of(a, w)
        if x is None or y is None:
            continue
        (qe, re_), (qa, ra) = x, y
        if not qe.args and not qa.args:
            continue
        W = atom(w)
        if re_ is ra:
            if quick(hyps, ge(W, I(1))):
                return [(qe, qa)]
        ok = True
        for r in (re_, ra):
            if not (quick(hy, ge(r, I(0))) and quick(hy, lt(r, W))):
                ok = False
                break
        if ok:
            return [(qe, qa), (re_, ra)]
    return [(e, a)]


class Prefix:
    """registry of prefix sums P(i)=sum_{t<i} f(t), f>=0, with owner functions"""
    tab = {}

    @classmethod
    def get(cls, sumatom):
        """sum atom with lo=0: key is body"""
        return cls.tab.get((sumatom.args[1], sumatom.args[2]))


def prefix_key(a):
    return (a.args[1], a.args[2])


def solve(hyps, u, key, off, extra=()):
    """find the bound variables for which update u hits (key,off).
    returns (conds list, {bvatom: term}) ; conds includes ranges and residual equations.
    raises Unsupported if a bound variable stays undetermined."""
    bv = {T.single_atom(v): (lo, hi) for v, lo, hi in u.bvs}
    br = []
    for v, lo, hi in u.bvs:
        br.append(le(lo, v))
        br.append(lt(v, hi))
    hy = list(hyps)
    own_hy = br + [u.guard]
    eqs = list(zip(u.key, key))
    if u.mode != 'fill':
        if bv or u.off is not off:
            eqs += [(x, y) for x, y in split_eq(hy, u.off, off, br)]
    sol = {}
    conds = []
    pend = eqs
    prog = True
    while pend and prog:
        prog = False
        nxt = []
        for e, a in pend:
            e = T._subst(e, sol, {}) if sol else e
            un = [b for b in bv if b not in sol and b in T.atoms_of(e)]
            if not un:
                c = eq(e, a)
                if c is FALSE:
                    return None
                if c is not TRUE:
                    conds.append(c)
                prog = True
                continue
            if len(un) == 1:
                b = un[0]
                x = coeff_of(e, b)
                if x is not None and T.is_num(x[0]):
                    c = int(T.numval(x[0]))
                    rhs = sub(a, x[1])
                    if c < 0:
                        c, rhs = -c, neg(rhs)
                    q = exact_div(rhs, c)
                    if q is None:
                        # residue classes
                        g = T.eq0(sub(scale_i(fresh('res', 'I'), c), rhs))
                        if g is FALSE:
                            return None
                        q = T.idiv(rhs, c)
                        conds.append(eq(T.imod(rhs, c), I(0)))
                    sol[b] = q
                    prog = True
                    continue
                r = _solve_prefix(hy, own_hy, e, a, un, bv, sol, conds)
                if r:
                    prog = True
                    continue
                r = _solve_inverse(e, a, b, sol, conds)
                if r:
                    prog = True
                    continue
            else:
                # try splitting after partial substitution
                sp = split_eq(hy, e, a, [T._subst(x, sol, {}) for x in br])
                if len(sp) > 1:
                    nxt += sp
                    prog = True
                    continue
                r = _solve_prefix(hy, own_hy, e, a, un, bv, sol, conds)
                if r:
                    prog = True
                    continue
                r = _solve_strides(hy, e, a, un, bv, sol, conds)
                if r:
                    prog = True
                    continue
            nxt.append((e, a))
        pend = nxt
    if pend or any(b not in sol for b in bv):
        raise Unsupported('address equation not solvable: %s' % (pend,))
    for v, lo, hi in u.bvs:
        s = sol[T.single_atom(v)]
        lo2 = T._subst(lo, sol, {})
        hi2 = T._subst(hi, sol, {})
        conds.append(le(lo2, s))
        conds.append(lt(s, hi2))
    return conds, sol


def scale_i(p, c):
    return T.scale(p, Fraction(c))


INVERSE = {}     # app name -> f(arg list of the app, index of arg, rhs) -> (solution, conds)


def _solve_inverse(e, a, b, sol, conds):
    at = T.single_atom(e)
    if at is not None and at.op == 'app' and at.args[0] in INVERSE:
        s, cs = INVERSE[at.args[0]](at.args[1:], a)
        sol[b] = s
        conds.extend(cs)
        return True
    return False


def _solve_strides(hy, e, a, un, bv, sol, conds):
    """constant strides: c1*t1 + c2*t2 (+r) with 0<=c2*t2<c1 for all t2 in range (constant bounds)"""
    cs = []
    r = e
    for b in un:
        x = coeff_of(r, b)
        if x is None or not T.is_num(x[0]):
            return False
        cs.append((int(T.numval(x[0])), b))
        r = x[1]
    cs.sort(key=lambda z: -z[0])
    rhs = sub(a, r)
    for i, (c, b) in enumerate(cs):
        if c <= 0:
            return False
        lo, hi = bv[b]
        rem = cs[i + 1:]
        # max of the remaining part must be < c
        mx = 0
        for c2, b2 in rem:
            l2, h2 = (T._subst(z, sol, {}) for z in bv[b2])
            l2, h2 = T.const_int(l2), T.const_int(h2)
            if l2 is None or l2 < 0 or h2 is None:
                return False
            mx += c2 * (h2 - 1)
        if mx >= c:
            return False
        if rem:
            q = T.idiv(rhs, c)
            sol[b] = q
            rhs = sub(rhs, scale_i(q, c))
        else:
            q = exact_div(rhs, c)
            if q is None:
                q = T.idiv(rhs, c)
                conds.append(eq(T.imod(rhs, c), I(0)))
            sol[b] = q
    return True


def own_fn(pk):
    """owner function symbol of a prefix sum"""
    if pk not in Prefix.tab:
        n = 'own!%d' % (len(Prefix.tab))
        Prefix.tab[pk] = n
    return Prefix.tab[pk]


def _solve_prefix(hy, own_hy, e, a, un, bv, sol, conds):
    """s*(P(t1) + t2) + r = a, P a prefix sum with non-negative body"""
    for t1 in un:
        for m, c in e.args:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sum' and m[0][0].sort == 'I' and t1 in T.atoms_of(m[0][0]):
                sa = m[0][0]
                lo, hi = sa.args[2], sa.args[3]
                if T.single_atom(hi) is not t1 or t1 in T.atoms_of(sa.args[1]):
                    continue
                s = int(c)
                rest = T._mkpoly({mm: cc for mm, cc in e.args if mm != m}, 'I')
                if t1 in T.atoms_of(rest):
                    continue
                others = [b for b in un if b is not t1]
                t2 = None
                if len(others) == 1:
                    x = coeff_of(rest, others[0])
                    if x is None or not T.is_num(x[0]) or T.numval(x[0]) != s:
                        continue
                    t2 = others[0]
                    rest = x[1]
                elif len(others) > 1:
                    continue
                k0 = T.const_of(rest)
                c0, k1 = (int(k0) // s, int(k0) % s) if s > 0 else (0, int(k0))
                rhs = exact_div(sub(a, sub(rest, I(s * c0))), s)
                if rhs is None:
                    # wrong residue class?
                    if T.eq0(sub(scale_i(T.fresh('res', 'I'), s), sub(a, rest))) is FALSE:
                        conds.append(FALSE)
                        sol[t1] = I(0)
                        if t2 is not None:
                            sol[t2] = I(0)
                        return True
                    continue
                body = sa.args[1]

                def f(t):
                    return T.subst(body, {sa.args[0]: t})

                def Psum(t):
                    return mksum(sa.args[0], body, lo, t)
                # the iteration is the owner of the address: its offset lies within its block
                inner = add(I(c0), atom(t2)) if t2 is not None else I(c0)
                ug = hy + own_hy
                if not (quick(ug, ge(inner, I(0))) and quick(ug, lt(inner, f(atom(t1))))):
                    continue
                # rhs = P(q) + c syntactically?
                q = None
                for mm, cc in rhs.args:
                    if cc == 1 and len(mm) == 1 and mm[0][0].op == 'sum' and prefix_key(mm[0][0]) == prefix_key(sa):
                        q = mm[0][0].args[3]
                        cpart = sub(rhs, atom(mm[0][0]))
                        if quick(hy, ge(cpart, I(0))) and quick(hy, lt(cpart, f(q))):
                            break
                        q = None
                if q is None:
                    on = own_fn(prefix_key(sa))
                    q = T.app(on, [rhs], 'I')
                    cpart = sub(rhs, Psum(q))
                sol[t1] = q
                if t2 is not None:
                    sol[t2] = sub(cpart, I(c0))
                else:
                    conds.append(eq(cpart, I(c0)))
                return True
    return False


# lemma instances for owner functions and prefix sums of non-negative bodies
NONNEG = set()      # prefix keys whose body is known non-negative (for every index)


def _sum_lemmas(atoms):
    out = []
    sums = [a for a in atoms if a.op == 'sum' and a.sort == 'I' and prefix_key(a) in NONNEG]
    byk = {}
    for a in sums:
        byk.setdefault(prefix_key(a), []).append(a)
    for a in atoms:
        if a.op == 'app' and isinstance(a.args[0], str) and a.args[0].startswith('own!'):
            for pk, n in Prefix.tab.items():
                if n == a.args[0] and pk in NONNEG:
                    r = a.args[1]
                    o = atom(a)
                    bv = T.var('bv#%d' % T.sumdepth(pk[0]), 'I')
                    # 0<=r -> P(own) <= r < P(own)+f(own), own>=lo   (defining property; r below the total)
                    P = mksum(bv, pk[0], pk[1], o)
                    nx = T.subst(pk[0], {bv: o})
                    out.append(implies(ge(r, I(0)), band(le(P, r), lt(r, add(P, nx)), ge(o, pk[1]))))
                    for s in byk.get(pk, []):
                        hi = s.args[3]
                        # r < P(hi) <-> own < hi
                        out.append(implies(band(ge(r, I(0)), lt(r, atom(s))), lt(o, hi)))
                        out.append(implies(band(ge(r, I(0)), le(atom(s), r)), ge(o, hi)))
    for pk, ss in byk.items():
        bv = T.var('bv#%d' % T.sumdepth(pk[0]), 'I')
        for s in ss:
            hi = s.args[3]
            out.append(ge(atom(s), I(0)))
            out.append(implies(le(hi, pk[1]), eq(atom(s), I(0))))
            # unfold one step at the top
            nx = T.subst(pk[0], {bv: hi})
            out.append(ge(nx, I(0)))
        for i in range(len(ss)):
            for j in range(len(ss)):
                if i == j:
                    continue
                a, b = ss[i], ss[j]
                ha, hb = a.args[3], b.args[3]
                # ha < hb  ->  P(ha)+f(ha) <= P(hb)
                fa = T.subst(pk[0], {bv: ha})
                out.append(implies(band(lt(ha, hb), ge(ha, pk[1])), le(add(atom(a), fa), atom(b))))
                out.append(implies(eq(ha, hb), eq(atom(a), atom(b))))
    return out


def _count_lemma(atoms):
    """a sum of 0s and positive constants (a count) is not negative"""
    return [ge(atom(a), I(0)) for a in atoms if a.op == 'sum' and a.sort == 'I' and prefix_key(a) not in NONNEG and T.const_min(prefix_key(a)[0]) >= 0]


smt.LEMMAS.append(_count_lemma)
smt.LEMMAS.append(_sum_lemmas)
smt.REGS += [NONNEG, Prefix.tab]


def _simp_owner(hyps, goal):
    """own(P(q) + c) is q when 0 <= c < f(q)"""
    names = {n: pk for pk, n in Prefix.tab.items()}
    bad = set()
    for _ in range(20):
        todo = None
        for a in T.atoms_of(goal):
            if a.op != 'app' or a.args[0] not in names or a in bad:
                continue
            bad.add(a)
            pk = names[a.args[0]]
            x = a.args[1]
            for mm, cc in x.args:
                if cc == 1 and len(mm) == 1 and mm[0][0].op == 'sum' and prefix_key(mm[0][0]) == pk:
                    q = mm[0][0].args[3]
                    c = sub(x, atom(mm[0][0]))
                    fq = T.subst(pk[0], {T.var('bv#%d' % T.sumdepth(pk[0]), 'I'): q})
                    if quick(hyps, ge(c, I(0))) and quick(hyps, lt(c, fq)):
                        todo = (a, q)
                        break
            if todo:
                break
        if todo is None:
            break
        goal = T._subst(goal, {todo[0]: todo[1]}, {})
        hyps = [T._subst(h, {todo[0]: todo[1]}, {}) if todo[0] in T.atoms_of(h) else h for h in hyps]
    return hyps, goal


smt.SIMPLIFY.append(_simp_owner)


def tidy(st, v):
    """resolve owners of known rows in a value just read, and the choices that depend on them"""
    if not isinstance(v, T.T) or not Prefix.tab or not any(n.startswith('own!') for n in vnames(v)):
        return v
    hy = st.hyps()
    w = _simp_owner(hy, v)[1]
    if w is v:
        return v
    for c in smt._conds(w):
        if smt.is_int_fact(c):
            d = _decide(hy, c)
            if d is not c:
                w = smt.assume_bool(w, c, d is TRUE)
    return w


# ------------------------------------------------------------- chain reading
def match(ctx, st, u, key, off):
    """condition under which u hits, and the value then"""
    hy = st.hyps()
    if u.bvs:
        at = set(T.atoms_of(off))
        for k in key:
            at |= T.atoms_of(k)
        if any(T.single_atom(v) in at for v, _, _ in u.bvs):
            u = u.freshen()
    if u.mode == 'fill':
        c = band(u.guard, *[eq(a, b) for a, b in zip(u.key, key)], le(u.off, off), lt(off, add(u.off, u.len)))
        return _decide(hy, c), u.val
    r = solve(hy, u, key, off)
    if r is None:
        return FALSE, None
    conds, sol = r
    out = []
    for c in conds:
        c = _decide(hy, c)
        if c is FALSE:
            return FALSE, None
        out.append(c)
    hy2 = hy + [c for c in out if c is not TRUE]
    g = T._subst(u.guard, sol, {}) if sol else u.guard
    g = _decide_conj(hy2, g)
    cond = band(*out, g)
    if cond is FALSE:
        return FALSE, None
    return cond, (vsubst(u.val, sol) if sol else u.val)


def _decide(hy, c):
    if c is TRUE or c is FALSE:
        return c
    if c in hy:
        return TRUE
    if bnot(c) in hy:
        return FALSE
    if smt.is_int_fact(c):
        if quick(hy, c):
            return TRUE
        if quick(hy, bnot(c)):
            return FALSE
    return c


def _decide_conj(hy, g):
    if g.op == 'and':
        return band(*[_decide(hy, x) for x in g.args])
    return _decide(hy, g)


def fillval(byte, kind):
    if kind in ('R', 'F'):
        if byte == 0:
            return R(0)
        return None
    if kind == 'P':
        return NULL if byte == 0 else None
    n = KSIZE[kind]
    if kind == 'I1':
        return TRUE if byte & 1 else FALSE
    v = int.from_bytes(bytes([byte]) * n, 'little')
    if kind in ('I32', 'I64') and v >= 1 << (8 * n - 1):
        v -= 1 << (8 * n)
    return I(v)


def read_chain(ctx, st, ch, key, off, kind, esize):
    acc = []          # (cond, val) newest first, set
    adds = R(0)
    parts = []        # list of ('ite', c, v) or ('add', v)
    for u in reversed(ch.ups):
        if u.mode == 'acc':
            try:
                c, v = match(ctx, st, u, key, off)
                v = ite(c, v, R(0)) if c is not FALSE else R(0)
            except Unsupported:
                v = acc_sum(u, key, off)
            if v.args:
                parts.append(('add', v))
            continue
        c, v = match(ctx, st, u, key, off)
        if c is FALSE:
            continue
        if u.mode == 'fill':
            v = fillval(u.val, kind)
            if v is None:
                v = ctx.fresh('filled', ksort(kind))
        elif u.kind != kind:
            v = convert_kind(ctx, v, u.kind, kind)
        if c is TRUE:
            base = v
            break
        parts.append(('ite', c, v))
    else:
        idx = exact_div(off, esize) if esize else None
        base = ch.base(key, idx, off, kind)
    r = base
    for p in reversed(parts):
        if p[0] == 'add':
            r = add(r, p[1])
        else:
            r = vite(p[1], p[2], r)
    return r


def convert_kind(ctx, v, k1, k2):
    if KSIZE[k1] == KSIZE[k2]:
        if {k1, k2} == {'I64', 'P'} and isinstance(v, T.T) and T.is_num(v) and not v.args:
            return NULL
        if {k1, k2} == {'I64', 'R'} and isinstance(v, T.T) and T.is_num(v) and not v.args:
            return R(0) if k2 == 'R' else I(0)
    raise Unsupported('memory reinterpretation %s as %s' % (k1, k2))


def acc_sum(u, key, off):
    c = band(u.guard, *[eq(a, b) for a, b in zip(u.key, key)], eq(u.off, off))
    v = mul(T.ind(c), u.val) if c is not TRUE else u.val
    for bv, lo, hi in reversed(u.bvs):
        w = T.fresh('acc', 'I')
        v = mksum(w, T.subst(v, {bv: w}), lo, hi)
    return v


# ---------------------------------------------------------------- machine
class Machine:
    def __init__(self, ctx):
        self.c = ctx
        self.mod = ctx.mod

    # ------------------------------------------------------- memory access
    def chain(self, st, reg, slot):
        ch = st.mem.get((reg, slot))
        if ch is None:
            if reg.mode == 'array':
                base = self._array_base(reg)
            else:
                base = self._keyed_base(reg, slot)
            ch = Chain(base)
            st.mem[(reg, slot)] = ch
        return ch

    def _array_base(self, reg):
        b = reg.cache.get('base')
        if b is None:
            if reg.init is not None:
                init = reg.init

                def b(key, idx, off, kind):
                    if idx is None:
                        raise Unsupported('misaligned access to ' + reg.name)
                    return init(key, idx)
            else:
                fn = reg.cache.get('undef')
                if fn is None:
                    fn = self.c.freshfn('undef.' + reg.name)
                    reg.cache['undef'] = fn

                def b(key, idx, off, kind):
                    if ksort(kind) == 'P':
                        return UndefP('uninitialised ' + reg.name)
                    return fn(tuple(key) + (off,), ksort(kind))
            reg.cache['base'] = b
        return b

    def _keyed_base(self, reg, slot):
        k = ('kb', slot)
        b = reg.cache.get(k)
        if b is None:
            def b(key, idx, off, kind):
                return reg.init(slot, kind, key)
            reg.cache[k] = b
        return b

    def slot(self, st, p, kind):
        if p.reg.mode == 'array':
            return 'a'
        o = T.const_int(p.off)
        if o is None:
            raise Unsupported('symbolic offset into object %r: %s' % (p.reg, show(p.off)))
        return o

    def check(self, st, p, size, ins, what):
        reg = p.reg
        f = st.freed.get(reg)
        if f is not None:
            self.c.oblige(st, bnot(f), '%s: object %s is alive' % (what, reg.name), ins)
        if reg.size is not None:
            lo = le(I(0), p.off)
            hi = le(add(p.off, I(size)), reg.size)
            g = band(lo, hi)
            if g is not TRUE:
                hy = st.hyps()
                gs = []
                for x in (lo, hi):
                    if x is not TRUE:
                        gs.append(x)
                self.c.oblige(st, band(*gs), '%s within bounds of %s' % (what, reg.name), ins)
            else:
                self.c.oblige(st, TRUE, '%s within bounds of %s' % (what, reg.name), ins)
        if reg.keyrange is not None:
            kr = band(*reg.keyrange(p.key))
            self.c.oblige(st, kr, '%s of a valid %s' % (what, reg.name), ins)

    def deref(self, st, p, ins, what):
        """resolve pointer to Ptr alternatives: list of (cond, Ptr)"""
        if isinstance(p, Ptr):
            return [(TRUE, p)]
        if isinstance(p, PIte):
            out = []
            hy = st.hyps()
            c = _decide(hy, p.c)
            if c is not FALSE:
                for cc, q in self._alts(p.a):
                    out.append((band(c, cc), q))
            if c is not TRUE:
                for cc, q in self._alts(p.b):
                    out.append((band(bnot(c), cc), q))
            good = []
            for cc, q in out:
                if isinstance(q, Ptr):
                    good.append((cc, q))
                else:
                    self.c.oblige(st, bnot(cc), '%s through a valid pointer' % what, ins)
            if not good:
                raise Infeasible()
            return good
        if p is NULL or isinstance(p, UndefP):
            self.c.oblige(st, FALSE, '%s through a valid pointer (%r)' % (what, p), ins)
            raise Infeasible()
        raise Unsupported('deref of %r' % (p,))

    def _alts(self, p):
        if isinstance(p, PIte):
            return [(band(p.c, c), q) for c, q in self._alts(p.a)] + [(band(bnot(p.c), c), q) for c, q in self._alts(p.b)]
        return [(TRUE, p)]

    def load(self, st, p, kind, ins=None):
        if isinstance(p, AbsVT):
            return AbsFn(p.cls, p.off // 8)
        alts = self.deref(st, p, ins, 'read')
        r = None
        for c, q in reversed(alts):
            if c is not TRUE:
                st2 = st.copy()
                st2.pc = st2.pc + (c,)
            else:
                st2 = st
            self.check(st2, q, KSIZE[kind], ins, 'read')
            v = self.load1(st2, q, kind)
            for k2, v2 in st2.mem.items():
                if k2 not in st.mem:
                    st.mem[k2] = v2
            r = v if r is None else vite(c, v, r)
        return r

    def load1(self, st, q, kind):
        reg = q.reg
        if reg.mode == 'struct' and reg.nkeys == 0:
            o = T.const_int(q.off)
            if o is None:
                return self._load_symoff(st, q, kind)
            e = st.mem.get((reg, o))
            if e is None:
                for lo, hi, b in st.fill.get(reg, ()):
                    if lo <= o and o + KSIZE[kind] <= hi:
                        v = fillval(b, kind)
                        if v is None:
                            v = self.c.fresh('filled', ksort(kind))
                        break
                else:
                    v = self.initval(reg, o, kind)
                st.mem[(reg, o)] = (kind, v)
                return v
            k2, v = e
            if self.c.havoc:
                self.mark(v)
            if k2 != kind:
                v = convert_kind(self.c, v, k2, kind)
            return v
        if reg.mode != 'array' and T.const_int(q.off) is None:
            return self._load_symoff(st, q, kind)
        slot = self.slot(st, q, kind)
        ch = self.chain(st, reg, slot)
        es = KSIZE[kind]
        if reg.ekind is None and reg.mode == 'array':
            reg.ekind = kind
        return tidy(st, read_chain(self.c, st, ch, q.key, q.off, kind, es if reg.mode == 'array' else None))

    def mark(self, v):
        """note that a havocked value is read"""
        hv = self.c.havoc
        for n in vnames(v):
            if n in hv:
                hv[n] = True

    def _load_symoff(self, st, q, kind):
        """small local arrays indexed symbolically: enumerate existing cells of that kind"""
        reg = q.reg
        sz = T.const_int(reg.size) if reg.size is not None else None
        if sz is None or sz > 400:
            raise Unsupported('symbolic offset into object %r' % (reg,))
        hy = st.hyps()
        r = None
        for o in range(0, sz, KSIZE[kind]):
            c = _decide(hy, eq(q.off, I(o)))
            if c is FALSE:
                continue
            v = self.load1(st, Ptr(reg, I(o), q.key), kind)
            r = v if r is None else vite(c, v, r)
        if r is None:
            raise Unsupported('symbolic offset')
        return r

    def initval(self, reg, o, kind):
        k = ('cell', o, kind)
        if k in reg.cache:
            return reg.cache[k]
        if reg.init is not None:
            v = reg.init(o, kind, ())
        else:
            v = self.c.fresh('undef.%s+%d' % (reg.name, o), ksort(kind))
        reg.cache[k] = v
        return v

    def store(self, st, p, kind, v, ins=None):
        alts = self.deref(st, p, ins, 'write')
        for c, q in alts:
            if c is not TRUE:
                st2 = st.copy()
                st2.pc = st2.pc + (c,)
                self.check(st2, q, KSIZE[kind], ins, 'write')
                self.store1(st, q, kind, v, c)
            else:
                self.check(st, q, KSIZE[kind], ins, 'write')
                self.store1(st, q, kind, v, TRUE)

    def store1(self, st, q, kind, v, guard=TRUE):
        reg = q.reg
        if reg.mode == 'struct' and reg.nkeys == 0:
            o = T.const_int(q.off)
            if o is None:
                sz = T.const_int(reg.size) if reg.size is not None else None
                if sz is None or sz > 400:
                    raise Unsupported('symbolic offset into object %r' % (reg,))
                hy = st.hyps()
                for o in range(0, sz, KSIZE[kind]):
                    c = _decide(hy, band(guard, eq(q.off, I(o))))
                    if c is FALSE:
                        continue
                    self.store1(st, Ptr(reg, I(o)), kind, v, c)
                return
            if guard is not TRUE:
                old = self.load1(st, q, kind)
                v = vite(guard, v, old)
            # overlapping cells of another width
            n = KSIZE[kind]
            for d in range(-7, n):
                if d == 0:
                    continue
                e = st.mem.get((reg, o + d))
                if e is not None and o + d + KSIZE[e[0]] > o:
                    if n == 1 or KSIZE[e[0]] == 1:
                        raise Unsupported('overlapping store')
                    del st.mem[(reg, o + d)]
            st.mem[(reg, o)] = (kind, v)
            return
        if reg.mode != 'array' and T.const_int(q.off) is None:
            sz = T.const_int(reg.size) if reg.size is not None else None
            if sz is None or sz > 600:
                raise Unsupported('symbolic offset into object %r' % (reg,))
            hy = st.hyps()
            for o in range(0, sz, KSIZE[kind]):
                c = _decide(hy, band(guard, eq(q.off, I(o))))
                if c is not FALSE:
                    self.store1(st, Ptr(reg, I(o), q.key), kind, v, c)
            return
        slot = self.slot(st, q, kind)
        ch = self.chain(st, reg, slot)
        if reg.mode == 'array' and reg.ekind is None:
            reg.ekind = kind
        mode = 'set'
        if kind == 'R' and isinstance(v, T.T):
            cur = read_chain(self.c, st, ch, q.key, q.off, kind, 8 if reg.mode == 'array' else None)
            g = acc_delta(v, cur)
            if g is not None:
                mode, v = 'acc', g
        st.mem[(reg, slot)] = ch.push(U(q.key, q.off, guard, kind, v, mode))

    # struct access helpers for specs
    def get(self, st, p, off, kind):
        return self.load1(st, Ptr(p.reg, add(p.off, I(off)), p.key), kind)

    def put(self, st, p, off, kind, v):
        self.store1(st, Ptr(p.reg, add(p.off, I(off)), p.key), kind, v)

    # ------------------------------------------------------------ operands
    def kind(self, ty):
        k = ty[0]
        if k == 'double':
            return 'R'
        if k == 'float':
            return 'F'
        if k == 'ptr':
            return 'P'
        if k == 'i':
            return 'I%d' % ty[1]
        raise Unsupported('scalar type %s' % (ty,))

    def val(self, st, ty, v):
        k = v[0]
        if k == 'loc':
            r = st.regs.get(v[1])
            if r is None:
                raise Unsupported('undefined register ' + v[1])
            return r
        if k == 'int':
            if ty == ('i', 1):
                return TRUE if v[1] else FALSE
            n = v[1]
            if ty[1] in (8, 16) and n < 0:
                n += 1 << ty[1]
            return I(n)
        if k == 'fp':
            return T.num(Fraction(v[1]), 'R')
        if k == 'hex':
            b = int(v[1][2:], 16)
            d = struct.unpack('<d', struct.pack('<Q', b))[0]
            if d != d or d in (float('inf'), float('-inf')):
                return T.var('fp.' + ('nan' if d != d else 'inf' if d > 0 else 'minf'), 'R')
            return T.num(Fraction(d), 'R')
        if k == 'null':
            return NULL
        if k == 'undef':
            if ty[0] in ('struct', 'named', 'arr'):
                t = self.mod.resolve(ty)
                if t[0] == 'struct':
                    return [self.val(st, f, v) for f in t[1]]
                return [self.val(st, t[2], v) for _ in range(t[1])]
            if ty[0] == 'ptr':
                return UndefP('undef')
            return self.c.fresh('undefc', ksort(self.kind(ty)))
        if k == 'zero':
            t = self.mod.resolve(ty)
            if t[0] == 'struct':
                return [self.val(st, f, v) for f in t[1]]
            if t[0] == 'arr':
                return [self.val(st, t[2], v) for _ in range(t[1])]
            if t[0] == 'ptr':
                return NULL
            if t[0] in ('double', 'float'):
                return R(0)
            if t == ('i', 1):
                return FALSE
            return I(0)
        if k == 'glob':
            return self.globptr(v[1])
        if k == 'agg':
            return [self.val(st, t, x) for t, x in v[1]]
        if k == 'cgep':
            _, sty, ops = v
            base = self.val(st, ops[0][0], ops[0][1])
            return self.gep(st, base, sty, ops[1:])
        if k == 'ccast':
            _, op, t1, x, t2 = v
            return self.cast(st, op, t1, self.val(st, t1, x), t2)
        raise Unsupported('constant ' + str(v))

    def globptr(self, name):
        name = self.mod.aliases.get(name, name)
        if name in self.mod.funcs:
            return FnPtr(name)
        reg = self.c.globals.get(name)
        if reg is None:
            g = self.mod.globals.get(name)
            t, v, const = g if g else (('i', 8), None, False)
            try:
                size = I(self.mod.sizeof(t))
            except Exception:
                size = None
            leaves = {}
            if v is not None:
                try:
                    self._flatinit(t, v, 0, leaves)
                except Unsupported:
                    leaves = {}
            M = self

            # a variable (not a constant) may hold anything an earlier call left in it
            def init(o, kind, key, leaves=leaves, nm=name, const=const):
                if not const and g is not None and not nm.startswith('@_ZTV'):
                    if kind == 'P':
                        raise Unsupported('pointer in the variable ' + nm)
                    return T.var('glob.%s+%s' % (nm, o), ksort(kind))
                if o in leaves:
                    ty, vv = leaves[o]
                    if vv[0] == 'thunk':
                        return vv[1]
                    return M.val(State(), ty, vv)
                return M.c.fresh('glob.%s+%s' % (nm, o), ksort(kind))
            reg = Region('global ' + name, 'struct', size, origin='global', init=init)
            self.c.globals[name] = reg
        return Ptr(reg, I(0))

    def _flatinit(self, t, v, off, out):
        t = self.mod.resolve(t)
        if v[0] == 'zero':
            for o, ty in self.mod.flat(t, off):
                out[o] = (ty, ('zero',))
        elif v[0] == 'agg':
            if t[0] == 'struct':
                offs = self.mod.layout(t)[0]
                for o, (ft, fv) in zip(offs, v[1]):
                    self._flatinit(ft, fv, off + o, out)
            else:
                s = self.mod.sizeof(t[2])
                for i, (ft, fv) in enumerate(v[1]):
                    self._flatinit(ft, fv, off + i * s, out)
        elif v[0] == 'cstr':
            pass
        else:
            out[off] = (t, v)

    def gep(self, st, base, sty, ops):
        off = I(0)
        ty = sty
        first = True
        for t, v in ops:
            x = self.val(st, t, v)
            if first:
                off = add(off, scale_i(x, self.mod.sizeof(ty)))
                first = False
                continue
            ty = self.mod.resolve(ty)
            if ty[0] == 'struct':
                i = T.const_int(x)
                off = add(off, I(self.mod.layout(ty)[0][i]))
                ty = ty[1][i]
            else:
                off = add(off, scale_i(x, self.mod.sizeof(ty[2])))
                ty = ty[2]
        return self.padd(base, off)

    def padd(self, p, off):
        if isinstance(p, Ptr):
            return Ptr(p.reg, add(p.off, off), p.key)
        if isinstance(p, PIte):
            return pite(p.c, self.padd(p.a, off), self.padd(p.b, off))
        if p is NULL:
            if not off.args:
                return NULL
            return UndefP('null+%s' % show(off))
        if isinstance(p, AbsVT):
            return AbsVT(p.cls, p.off + T.const_int(off))
        if isinstance(p, UndefP):
            return p
        raise Unsupported('gep on %r' % (p,))

    # --------------------------------------------------------------- scalar
    def tosigned(self, x, n):
        if n in (8, 16):
            h = 1 << (n - 1)
            v = T.const_int(x)
            if v is not None:
                return I(v - 2 * h if v >= h else v)
            return ite(lt(x, I(h)), x, sub(x, I(2 * h)))
        return x

    def tounsigned(self, st, x, n):
        if n in (8, 16):
            return x
        v = T.const_int(x)
        if v is not None:
            return I(v % (1 << n))
        if quick(st.hyps(), ge(x, I(0))):
            return x
        if quick(st.hyps(), lt(x, I(0))):
            return add(x, I(1 << n))
        return ite(ge(x, I(0)), x, add(x, I(1 << n)))

    def wrap(self, x, n):
        if n in (8, 16):
            v = T.const_int(x)
            if v is not None:
                return I(v % (1 << n))
            return T.imod(x, 1 << n)
        return x

    def binop(self, st, op, ty, x, y, ins):
        if op[0] == 'f' and op != 'freeze':
            if op == 'fadd':
                r = add(x, y)
            elif op == 'fsub':
                r = sub(x, y)
            elif op == 'fmul':
                r = mul(x, y)
            elif op == 'fdiv':
                r = mul(x, T.inv(y))
                if T.is_num(y) and T.numval(y) == 0:
                    self.c.notes.add('division by literal zero')
            else:
                raise Unsupported(op)
            if ty[0] == 'float':
                r = rnd32(r)
            return r
        n = ty[1]
        if n == 1:
            if op == 'xor':
                return bor(band(x, bnot(y)), band(bnot(x), y))
            if op == 'and':
                return band(x, y)
            if op == 'or':
                return bor(x, y)
            raise Unsupported('i1 ' + op)
        if op == 'add':
            return self.wrap(add(x, y), n)
        if op == 'sub':
            return self.wrap(sub(x, y), n)
        if op == 'mul':
            return self.wrap(mul(x, y), n)
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            c = T.const_int(y)
            if op[0] == 's':
                x, y = self.tosigned(x, n), self.tosigned(y, n)
                c = T.const_int(y)
            if c is None or c <= 0:
                if c is None and T.const_int(x) is None:
                    raise Unsupported('division by symbol')
                if c is not None and c < 0:
                    raise Unsupported('division by negative')
                if c == 0:
                    self.c.oblige(st, FALSE, 'integer division by non-zero', ins)
                    raise Infeasible()
                raise Unsupported('division by symbol')
            xv = T.const_int(x)
            if xv is not None:
                q = abs(xv) // c * (1 if xv >= 0 else -1)
                return I(q) if op.endswith('div') else I(xv - q * c)
            if 'exact' in ins.a.get('flags', ()):
                q = exact_div(x, c)
                if q is not None:
                    return q
            if op[0] == 'u':
                x = self.tounsigned(st, x, n)
            if not quick(st.hyps(), ge(x, I(0))):
                q = ite(ge(x, I(0)), T.idiv(x, c), neg(T.idiv(neg(x), c)))
            else:
                q = T.idiv(x, c)
            return q if op.endswith('div') else sub(x, scale_i(q, c))
        if op == 'shl':
            c = T.const_int(y)
            if c is not None:
                return self.wrap(scale_i(x, 1 << c), n)
        if op in ('lshr', 'ashr'):
            c = T.const_int(y)
            if c is not None and quick(st.hyps(), ge(x, I(0))):
                return T.idiv(x, 1 << c)
        xv, yv = T.const_int(x), T.const_int(y)
        if op in ('and', 'or', 'xor') and xv is not None and yv is not None:
            m = (1 << n) - 1
            r = {'and': xv & yv, 'or': xv | yv, 'xor': xv ^ yv}[op] & m
            if n in (32, 64) and r >= 1 << (n - 1):
                r -= 1 << n
            return I(r)
        if op == 'and' and yv is not None and yv >= 0 and (yv & (yv + 1)) == 0:
            if n in (8, 16) or quick(st.hyps(), ge(x, I(0))):
                return T.imod(x, yv + 1)
        if op == 'and' and yv is not None and yv < 0 and (-yv & (-yv - 1)) == 0:
            if n in (8, 16) or quick(st.hyps(), ge(x, I(0))):
                return sub(x, T.imod(x, -yv))
        if op == 'xor' and yv == -1:
            return sub(neg(x), I(1))
        raise Unsupported('%s i%d' % (op, n))

    def icmp(self, st, pred, ty, x, y):
        if ty[0] == 'ptr':
            return self.pcmp(st, pred, x, y)
        n = ty[1]
        if n == 1:
            if pred == 'eq':
                return iff(x, y)
            if pred == 'ne':
                return bnot(iff(x, y))
            raise Unsupported('icmp i1')
        if pred == 'eq':
            return eq(x, y)
        if pred == 'ne':
            return ne(x, y)
        if pred[0] == 's':
            x, y = self.tosigned(x, n), self.tosigned(y, n)
        else:
            x, y = self.tounsigned(st, x, n), self.tounsigned(st, y, n)
        return {'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[pred[1:]](x, y)

    def pcmp(self, st, pred, x, y):
        if isinstance(x, PIte):
            return bor(band(x.c, self.pcmp(st, pred, x.a, y)), band(bnot(x.c), self.pcmp(st, pred, x.b, y)))
        if isinstance(y, PIte):
            return bor(band(y.c, self.pcmp(st, pred, x, y.a)), band(bnot(y.c), self.pcmp(st, pred, x, y.b)))
        if isinstance(x, UndefP) or isinstance(y, UndefP):
            return self.c.fresh('undefcmp', 'B')
        if pred in ('eq', 'ne'):
            if x is NULL or y is NULL:
                e = TRUE if x is y else FALSE
            elif isinstance(x, Ptr) and isinstance(y, Ptr):
                if x.reg is not y.reg:
                    e = FALSE
                else:
                    e = band(eq(x.off, y.off), *[eq(a, b) for a, b in zip(x.key, y.key)])
            else:
                e = TRUE if same(x, y) else FALSE
            return e if pred == 'eq' else bnot(e)
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.reg is y.reg and x.key == y.key:
            return {'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[pred[1:]](x.off, y.off)
        raise Unsupported('pointer comparison')

    def fcmp(self, pred, x, y):
        if pred in ('ord', 'true'):
            return TRUE
        if pred in ('uno', 'false'):
            return FALSE
        p = pred[1:]
        if p == 'eq':
            return eq(x, y)
        if p == 'ne':
            return ne(x, y)
        return {'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[p](x, y)

    def ptrint(self, p):
        if p is NULL:
            return I(0)
        if isinstance(p, Ptr):
            return add(T.app('addr.%d' % p.reg.id, list(p.key), 'I'), p.off)
        if isinstance(p, PIte):
            return ite(p.c, self.ptrint(p.a), self.ptrint(p.b))
        if isinstance(p, UndefP):
            return T.var('address of nothing: ' + p.why, 'I')
        raise Unsupported('ptrtoint of %s' % type(p).__name__)

    def cast(self, st, op, t1, x, t2):
        if op == 'trunc':
            n = t2[1]
            if n == 1:
                v = T.const_int(x)
                if v is not None:
                    return TRUE if v & 1 else FALSE
                s = T.single_atom(x)
                if s is not None and s.op == 'ite' and all(T.const_int(z) is not None for z in s.args[1:]):
                    return ite(s.args[0], TRUE if T.const_int(s.args[1]) & 1 else FALSE, TRUE if T.const_int(s.args[2]) & 1 else FALSE)
                if quick(st.hyps(), band(ge(x, I(0)), le(x, I(1)))):
                    return ne(x, I(0))
                return ne(T.imod(x, 2), I(0))
            if n in (8, 16):
                v = T.const_int(x)
                if v is not None:
                    return I(v % (1 << n))
                if quick(st.hyps(), band(ge(x, I(0)), lt(x, I(1 << n)))):
                    return x
                # the common -1 sentinel
                return T.imod(x, 1 << n)
            if n == 32 and measures_time(x) and not quick(st.hyps(), band(ge(x, I(-1 << 31)), lt(x, I(1 << 31)))):
                return T.app('trunc32', [x], 'I')
            return x
        if op == 'zext':
            if t1 == ('i', 1):
                return ite(x, I(1), I(0))
            if t1[1] in (8, 16):
                return x
            return self.tounsigned(st, x, t1[1])
        if op == 'sext':
            if t1 == ('i', 1):
                return ite(x, I(-1), I(0))
            return self.tosigned(x, t1[1])
        if op in ('sitofp', 'uitofp'):
            if t1 == ('i', 1):
                return ite(x, R(1), R(0))
            x = self.tosigned(x, t1[1]) if op[0] == 's' else self.tounsigned(st, x, t1[1])
            r = i2r(x)
            if t2[0] == 'float':
                v = T.const_int(x)
                if v is None or abs(v) >= 1 << 24:
                    r = rnd32(r)
            return r
        if op == 'fptrunc':
            return rnd32(x)
        if op == 'fpext':
            return x
        if op in ('fptosi', 'fptoui'):
            if T.is_num(x):
                v = T.numval(x)
                return I(int(v))
            return T.app('fptosi', [x], 'I')
        if op == 'ptrtoint':
            return self.ptrint(x)
        if op in ('bitcast', 'addrspacecast'):
            return x
        if op == 'inttoptr':
            v = T.const_int(x)
            if v == 0:
                return NULL
        raise Unsupported('cast ' + op)


def measures_time(t):
    """sizes and indices fit in 32 bits (assumed, see DESIGN.md); durations are 64-bit quantities, which do not"""
    for a in T.atoms_of(t):
        n = a.args[0] if a.op in ('app', 'var') and a.args else ''
        if isinstance(n, str) and ('icroseconds' in n or n.startswith(('time.', 'now'))):
            return True
    return False


def rnd32(x):
    """rounding to float: exact for representable literals"""
    if T.is_num(x):
        v = T.numval(x)
        try:
            f = struct.unpack('<f', struct.pack('<f', float(v)))[0]
            return T.num(Fraction(f), 'R')
        except OverflowError:
            pass
    a = T.single_atom(x)
    if a is not None and a.op == 'app' and a.args[0] == 'round32':
        return x
    return T.app('round32', [x], 'R')


def acc_delta(v, cur):
    """v = cur + g with g not mentioning cur"""
    if not cur.args or T.is_num(cur):
        return None
    g = sub(v, cur)
    if len(g.args) != len(v.args) - len(cur.args) and len(cur.args) > 0:
        return None
    # the old value itself: an unknown standing alone, otherwise everything in it
    atoms = {m[0][0] for m, c in cur.args if len(m) == 1 and m[0][1] == 1}
    if not atoms:
        for m, c in cur.args:
            for a, k in m:
                atoms.add(a)
    if atoms & T.atoms_of(g):
        return None
    return g
