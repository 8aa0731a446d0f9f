"""Discharging of obligations: rewriting, case splitting, z3, cvc5."""
import time
import z3
from fractions import Fraction
from .terms import *
from . import terms as T

STATS = {'syntactic': 0, 'z3': 0, 'cvc5': 0, 'z3_time': 0.0, 'cvc5_time': 0.0, 'quick': 0, 'quick_time': 0.0}


class Conv:
    def __init__(self):
        self.memo = {}
        self.ax = []
        self.funcs = {}
        self.bools = {}
        self.trig = {}

    def rat(self, v):
        return z3.RealVal(str(Fraction(v)))

    def poly(self, p):
        r = self.memo.get(p)
        if r is not None:
            return r
        I_ = p.sort == 'I'
        ts = []
        den = 1
        for m, c in p.args:
            fs = []
            for a, k in m:
                z = self.atom(a)
                fs += [z] * k
            cv = (z3.IntVal(int(c)) if I_ and c.denominator == 1 else self.rat(c))
            if not fs:
                ts.append(cv)
            else:
                x = fs[0]
                for f in fs[1:]:
                    x = x * f
                ts.append(x if c == 1 else cv * x)
        if not ts:
            r = z3.IntVal(0) if I_ else z3.RealVal(0)
        elif len(ts) == 1:
            r = ts[0]
        else:
            r = z3.Sum(ts)
        self.memo[p] = r
        return r

    def fn(self, name, n, dom, rng):
        k = (name, dom, rng)
        f = self.funcs.get(k)
        if f is None:
            S = {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort()}
            f = z3.Function(name + '/' + ''.join(dom), *([S[d] for d in dom] + [S[rng]]))
            self.funcs[k] = f
        return f

    def atom(self, a):
        r = self.memo.get(a)
        if r is not None:
            return r
        op = a.op
        if op == 'var':
            r = z3.Int(a.args[0]) if a.sort == 'I' else z3.Real(a.args[0])
        elif op == 'app':
            xs = a.args[1:]
            f = self.fn(a.args[0], len(xs), tuple(x.sort for x in xs), a.sort)
            r = f(*[self.term(x) for x in xs])
        elif op == 'ite':
            r = z3.If(self.bool(a.args[0]), self.poly(a.args[1]), self.poly(a.args[2]))
        elif op == 'ind':
            r = z3.If(self.bool(a.args[0]), z3.RealVal(1), z3.RealVal(0))
        elif op == 'i2r':
            r = z3.ToReal(self.poly(a.args[0]))
        elif op == 'inv':
            x = self.poly(a.args[0])
            r = z3.Real('inv!%d' % a.id)
            self.ax.append(z3.If(x == 0, r == 0, r * x == 1))
        elif op == 'sqrt':
            x = self.poly(a.args[0])
            r = z3.Real('sqrt!%d' % a.id)
            self.ax.append(r >= 0)
            self.ax.append(z3.Implies(x >= 0, r * r == x))
        elif op == 'abs':
            x = self.poly(a.args[0])
            r = z3.If(x >= 0, x, -x)
        elif op in ('sin', 'cos'):
            x = a.args[0]
            k = ('trig', x)
            if k not in self.trig:
                s = z3.Real('sin!%d' % x.id)
                c = z3.Real('cos!%d' % x.id)
                self.trig[k] = (s, c)
                self.ax.append(s * s + c * c == 1)
                self.ax.append(z3.And(s >= -1, s <= 1, c >= -1, c <= 1))
            r = self.trig[k][0 if op == 'sin' else 1]
        elif op == 'div':
            r = self.poly(a.args[0]) / z3.IntVal(a.args[1])
        elif op == 'sum':
            # free variables other than the bound one make it a function of them; hash
            # consing gives one constant per distinct sum (sound: loses congruence only)
            bv = T.single_atom(a.args[0])
            fv = sorted([v for v in T.atoms_of(a) if v.op == 'var' and v is not bv and v.args[0].startswith('q!')], key=lambda v: v.id)
            r = z3.Real('sum!%d' % a.id) if a.sort == 'R' else z3.Int('sum!%d' % a.id)
        else:
            f = self.fn(op, 1, (a.args[0].sort,), a.sort)
            r = f(self.poly(a.args[0]))
        self.memo[a] = r
        return r

    def term(self, t):
        return self.bool(t) if t.sort == 'B' else self.poly(t)

    def bool(self, b):
        r = self.memo.get(b)
        if r is not None:
            return r
        op = b.op
        if op == 'true':
            r = z3.BoolVal(True)
        elif op == 'false':
            r = z3.BoolVal(False)
        elif op == 'bvar':
            r = z3.Bool(b.args[0])
        elif op == 'not':
            r = z3.Not(self.bool(b.args[0]))
        elif op == 'and':
            r = z3.And(*[self.bool(x) for x in b.args])
        elif op == 'or':
            r = z3.Or(*[self.bool(x) for x in b.args])
        elif op == 'le':
            r = self.poly(b.args[0]) <= 0
        elif op == 'lt':
            r = self.poly(b.args[0]) < 0
        elif op == 'eq':
            r = self.poly(b.args[0]) == 0
        elif op == 'bapp':
            xs = b.args[1:]
            f = self.fn(b.args[0], len(xs), tuple(x.sort for x in xs), 'B')
            r = f(*[self.term(x) for x in xs])
        elif op == 'forall':
            r = z3.Bool('forall!%d' % b.id)     # opaque proposition: sound in every position
        else:
            raise ValueError(op)
        self.memo[b] = r
        return r


_qcache = {}
QCONV = Conv()


def is_int_fact(h):
    """no real-valued sub term"""
    r = _intfact.get(h)
    if r is None:
        r = not any(x.sort == 'R' for x in T.atoms_of(h)) and h.op != 'forall'
        _intfact[h] = r
    return r


_intfact = {}
_syms = {}


def relevant(hyps, goal):
    """hypotheses connected to the goal through shared symbols (vars and function names)"""
    def syms(t):
        r = _syms.get(t)
        if r is None:
            r = _syms[t] = frozenset({(x.op, x.args[0]) for x in T.atoms_of(t) if x.op in ('var', 'app', 'bvar', 'bapp')} |
                                     {x.id for x in T.atoms_of(t) if x.op in ('sum',)})
        return r
    s = syms(goal)
    rest = [(h, syms(h)) for h in hyps]
    out = []
    ch = True
    while ch:
        ch = False
        r2 = []
        for h, hs in rest:
            if hs & s or not hs:
                out.append(h)
                s = s | hs
                ch = True
            else:
                r2.append((h, hs))
        rest = r2
    return out


def sum_facts(ts):
    """cheap sound facts about integer sums occurring in the terms"""
    out = []
    seen = set()
    for t in ts:
        for a in T.atoms_of(t):
            if a.op == 'sum' and a.sort == 'I' and a not in seen:
                seen.add(a)
    return seen


# facts that hold for every integer sum of a body known non-negative are supplied by
# the caller through 'sumnonneg' hints
NONNEG_SUM_BODIES = set()


def quick(hyps, goal, ms=400):
    """True if hyps |= goal is established quickly (integer reasoning)"""
    if goal is TRUE:
        return True
    if goal is FALSE and not hyps:
        return False
    hs = set(hyps)
    if goal in hs or FALSE in hs:
        return True
    if bnot(goal) in hs and goal is not FALSE:
        # may still be provable from a contradictory context; treat as no
        return False
    key = (tuple(sorted(h.id for h in hyps)), goal.id)
    r = _qcache.get(key)
    if r is not None:
        return r
    t0 = time.time()
    hy = [h for h in hyps if is_int_fact(h)] if is_int_fact(goal) else list(hyps)
    hy = relevant(hy, goal) if goal is not FALSE else hy
    c = QCONV if is_int_fact(goal) else Conv()      # integer facts need no defining axioms: the conversion can be kept
    s = z3.Solver()
    s.set('timeout', 20 * ms)
    s.set('rlimit', RLIMIT * ms)        # deterministic effort limit
    g = c.bool(goal)
    zs = [c.bool(h) for h in hy]
    for x in zs + int_lemmas(hy + [goal], c):
        s.add(x)
    for x in (product_lemmas(hy, goal) if is_int_fact(goal) else []):
        s.add(c.bool(x))
    for x in c.ax:
        s.add(x)
    s.add(z3.Not(g))
    res = s.check()
    r = res == z3.unsat
    _qcache[key] = r
    STATS['quick'] += 1
    STATS['quick_time'] += time.time() - t0
    return r


PREFIX = []      # registered prefix sums: (sum body with bv#, lo) -> body is >= 0 for every index
LEMMAS = []      # callbacks: f(set of atoms) -> list of Bool facts


def int_lemmas(ts, c):
    """instances of registered lemmas (each is a theorem or a recorded definition)"""
    atoms = set()
    for t in ts:
        atoms |= T.atoms_of(t)
    atoms = frozenset(a for a in atoms if a.op in ('app', 'bapp', 'sum', 'var', 'div'))
    key = (atoms,) + tuple(len(r) for r in REGS)
    fs = _lemcache.get(key)
    if fs is None:
        fs = _lemcache[key] = _int_lemmas(atoms)
    return [c.bool(f) for f in fs]


_lemcache = {}
REGS = []           # registries the lemmas depend on
RLIMIT = 5000


def _int_lemmas(atoms):
    out = []
    seen = set()
    for rnd in range(2):
        new = set()
        for L in LEMMAS:
            for f in L(atoms):
                if f not in seen:
                    seen.add(f)
                    out.append(f)
                    new |= T.atoms_of(f)
        new = {a for a in new if a.op == 'app'} - atoms
        if not new:
            break
        atoms = new          # the second round adds the facts about the functions the first one introduced
    return out


def nonlinear(ts):
    """degree-2 integer monomials in the terms"""
    out = set()
    for t in ts:
        for p in T.atoms_of(t):
            if p.op != 'poly' or p.sort != 'I':
                continue
            for m, c in p.args:
                if sum(k for a, k in m) >= 2:
                    out.add(tuple(a for a, k in m for _ in range(k)))
    return out


def product_lemmas(hyps, goal):
    """products of pairs of linear integer facts (each a theorem): a>=0, b>=0 -> a*b>=0"""
    nl = nonlinear([goal] + hyps)
    if not nl:
        return []
    rel = set()
    for m in nl:
        rel |= set(m)
    lin = []

    def addlin(e):
        if e.sort == 'I' and all(sum(k for a, k in m) <= 1 for m, c in e.args) and e.args and T.atoms_of(e) & rel and len(e.args) <= 4 and e not in lin:
            lin.append(e)
    gs = list(hyps)
    ng = bnot(goal) if goal is not FALSE else TRUE
    gs += list(ng.args) if ng.op == 'and' else [ng]
    for h in gs:
        if h.op == 'and':
            gs += list(h.args)
            continue
        if h.op == 'le':
            addlin(neg(h.args[0]))
        elif h.op == 'lt':
            addlin(sub(neg(h.args[0]), I(1)))
    out = []
    lin = lin[:14]
    for i in range(len(lin)):
        for j in range(i, len(lin)):
            out.append(ge(mul(lin[i], lin[j]), I(0)))
    return out


def feasible(hyps, ms=400):
    return not quick(hyps, FALSE, ms)


# --------------------------------------------------------------------- prove
class Result:
    def __init__(self, ok, how, model=None, note=''):
        self.ok = ok
        self.how = how
        self.model = model
        self.note = note

    def __repr__(self):
        return 'Result(%s,%s)' % (self.ok, self.how)


def _conds(t):
    """boolean conditions of ite/ind atoms in t, outermost (not below a sum)"""
    out = []
    seen = set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == 'sum' or x.op == 'forall':
            return
        if x.op in ('ite', 'ind'):
            c = x.args[0]
            for l in _lits(c):
                if l not in out:
                    out.append(l)
        for y in T.children(x):
            go(y)
    go(t)
    return out


def _modulo(hyps, goal):
    """the goal with one name for sums known to be equal, and x * (1/x) cancelled where x is known not to be 0"""
    mp, nz = {}, []
    for h in hyps:
        if h.op == 'eq' and h.args[0].sort == 'R' and len(h.args[0].args) == 2:
            (m, c), (n, d) = h.args[0].args
            if c + d == 0 and all(len(x) == 1 and x[0][1] == 1 and x[0][0].op == 'sum' for x in (m, n)):
                a, b = mp.get(m[0][0], m[0][0]), mp.get(n[0][0], n[0][0])
                if a is b:
                    continue
                if a.id < b.id:
                    a, b = b, a
                for k in mp:
                    if mp[k] is a:
                        mp[k] = b
                mp[a] = b
        elif h.op == 'not' and h.args[0].op == 'eq' and h.args[0].args[0].sort == 'R':
            nz.append(h.args[0].args[0])
    if not nz and not mp:
        return goal
    mp = {a: atom(b) for a, b in mp.items()}
    ren = lambda t: T._subst(t, mp, {}) if mp else t
    nz = {x for x in (T.single_atom(ren(t)) for t in nz) if x is not None}
    p = ren(goal.args[0])
    out = {}
    for m, c in p.args:
        e = dict(m)
        for a in nz:
            i = T.single_atom(T.inv(atom(a)))
            k = min(e.get(a, 0), e.get(i, 0))
            if k:
                for x in (a, i):
                    e[x] -= k
        t = tuple(sorted(((a, k) for a, k in e.items() if k), key=lambda x: x[0].id))
        out[t] = out.get(t, 0) + c
    return T.eq(T._mkpoly(out, 'R'), T.num(0, 'R'))


def _real_split(goal, depth):
    """the equation is an identity whatever its conditions are"""
    if goal is TRUE:
        return True
    if depth == 0 or goal is FALSE:
        return False
    cs = [c for c in _conds(goal) if not is_int_fact(c)]
    return bool(cs) and _real_split(assume_bool(goal, cs[0], True), depth - 1) and _real_split(assume_bool(goal, cs[0], False), depth - 1)


def _lits(c):
    if c.op in ('and', 'or'):
        r = []
        for x in c.args:
            r += _lits(x)
        return r
    if c.op == 'not':
        return _lits(c.args[0])
    return [c]


def assume_bool(t, lit, val):
    """replace literal lit by val in t (and its negation)"""
    mp = {}
    v = TRUE if val else FALSE
    mp[lit] = v
    n = bnot(lit)
    if n.op != 'not':
        mp[n] = FALSE if val else TRUE
    return subst_bool(t, mp)


def subst_bool(t, mp):
    return T._subst(t, mp, {})


def find_eq(lit):
    """integer equality usable as a substitution: (atom, term)"""
    if lit.op != 'eq' or lit.args[0].sort != 'I':
        return None
    p = lit.args[0]
    best = None
    for m, c in p.args:
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            a = m[0][0]
            if a.op not in ('var', 'app'):
                continue
            rest = T._mkpoly({mm: cc for mm, cc in p.args if mm != m}, 'I')
            r = T.scale(rest, -c)
            if a in T.atoms_of(r):
                continue
            # prefer variables, later created first
            sc = (a.op == 'var', a.id)
            if best is None or sc > best[0]:
                best = (sc, a, r)
    return (best[1], best[2]) if best else None


def prove(hyps, goal, timeout=10000, depth=10, want_model=True):
    t0 = time.time()
    hyps = [h for h in dict.fromkeys(hyps) if h is not TRUE]
    key = frozenset(hyps), goal, timeout
    r = _DONE.get(key)
    if r is None:
        r = _DONE[key] = _prove(hyps, goal, depth, timeout, t0 + 4 * timeout / 1000.0)
    return r


_DONE = {}


SIMPLIFY = []       # f(hyps, goal) -> equivalent (hyps, goal)


KEEP = []           # registries of functions with lemmas: an equality about one stays a hypothesis when it is substituted


def _simp(hyps, goal):
    """substitute integer equalities among the hypotheses"""
    kept = []
    for _ in range(12):
        e = None
        for h in hyps:
            e = find_eq(h)
            if e is not None and h not in kept:
                if e[0].op == 'app' and any(e[0].args[0] in k for k in KEEP):
                    kept.append(h)
                    if e[0] not in T.atoms_of(goal) and not any(e[0] in T.atoms_of(x) for x in hyps if x is not h):
                        e = None
                        continue
                break
            e = None
        if e is None:
            return hyps, goal
        a, r = e
        nh = []
        for x in hyps:
            if x is h:
                if x in kept:
                    nh.append(x)
                continue
            y = x if x in kept else T._subst(x, {a: r}, {})
            if y is TRUE:
                continue
            nh.append(y)
        goal = T._subst(goal, {a: r}, {})
        hyps = nh
    return hyps, goal


def _prove(hyps, goal, depth, timeout, deadline):
    if goal is TRUE:
        STATS['syntactic'] += 1
        return Result(True, 'syntactic')
    if goal in hyps or FALSE in hyps:
        STATS['syntactic'] += 1
        return Result(True, 'syntactic')
    if goal.op == 'and':
        how = 'syntactic'
        for g in goal.args:
            r = _prove(hyps, g, depth, timeout, deadline)
            if not r.ok:
                return r
            if r.how != 'syntactic':
                how = r.how
        return Result(True, how)
    if goal.op == 'forall':
        bv, body = goal.args
        v = T.fresh('sk', 'I')
        return _prove(hyps, T.subst(body, {bv: v}), depth, timeout, deadline)
    if goal.op == 'or':
        # hypotheses: negations of simple disjuncts
        lits = [bnot(g) for g in goal.args]
        main = None
        for g in goal.args:
            if g.op == 'forall' or (g.op == 'eq' and g.args[0].sort == 'R'):
                main = g
        if main is not None:
            return _prove(hyps + [bnot(g) for g in goal.args if g is not main], main, depth, timeout, deadline)
    # flatten conjunction hyps
    hh = []
    for h in hyps:
        hh += list(h.args) if h.op == 'and' else [h]
    hyps, goal = _simp(hh, goal)
    if FALSE in hyps:
        return Result(True, 'syntactic')
    for f in SIMPLIFY:
        hyps, goal = f(hyps, goal)
    # replace known literals in the goal
    mp = {}
    for h in hyps:
        if h.op != 'forall':
            mp[h] = TRUE
            n = bnot(h)
            if n.op != 'not':
                mp[n] = FALSE
    goal = T._subst(goal, mp, {})
    if goal is TRUE:
        STATS['syntactic'] += 1
        return Result(True, 'syntactic')
    if goal.op in ('and', 'or', 'forall') :
        if goal.op != 'or':
            return _prove(hyps, goal, depth, timeout, deadline)
    # case split on integer conditions of ites
    cs = [c for c in _conds(goal) if is_int_fact(c)]
    if cs and depth > 0 and time.time() < deadline:
        c = cs[0]
        if quick(hyps, c):
            return _prove(hyps + [c], assume_bool(goal, c, True), depth, timeout, deadline)
        n = bnot(c)
        if quick(hyps, n):
            return _prove(hyps + [n], assume_bool(goal, c, False), depth, timeout, deadline)
        r1 = _prove(hyps + [c], assume_bool(goal, c, True), depth - 1, timeout, deadline)
        if not r1.ok:
            return r1
        r2 = _prove(hyps + [n], assume_bool(goal, c, False), depth - 1, timeout, deadline)
        if not r2.ok:
            return r2
        return Result(True, 'z3' if 'z3' in (r1.how, r2.how) else r1.how if r1.how != 'syntactic' else r2.how)
    if goal.op == 'eq' and goal.args[0].sort == 'R':
        g2 = _modulo(hyps, goal)
        if g2 is TRUE:
            STATS['syntactic'] += 1
            return Result(True, 'syntactic')
        if g2.op == 'eq':
            goal = g2
    # symbols defined by a recurrence over earlier elements
    if depth > 0 and goal.op in ('eq', 'le', 'lt') and time.time() < deadline and _unfolded[0] < 2:
        g2 = _unfold(hyps, goal)
        if g2 is not None and g2 is not goal:
            _unfolded[0] += 1
            try:
                r = _prove(hyps, g2, depth - 1, timeout, deadline)
            finally:
                _unfolded[0] -= 1
            if r.ok:
                return r
    # sums: try to match
    if goal.op == 'eq' and (goal.args[0].sort == 'R' or goal.args[0].sort == 'I' and _sums_in(goal.args[0])):
        g2 = _strides(hyps, goal)
        if g2 is not None:
            return _prove(hyps, g2, max(depth, 6), timeout, deadline)
        if depth > 0 and _combine_sums(hyps, goal, depth, timeout, deadline):
            return Result(True, 'z3')
        g2 = _shifted(goal) if not _shifting[0] else None
        if g2 is TRUE:
            return Result(True, 'syntactic')
        if g2 is not None and g2.op != 'eq':
            g2 = None
        if g2 is not None and depth > 0 and time.time() < deadline:
            _shifting[0] = True
            try:
                if _combine_sums(hyps, g2, depth, timeout, deadline):
                    return Result(True, 'z3')
            finally:
                _shifting[0] = False
        g2 = _match_sums(hyps, goal, timeout, deadline)
        if g2 is not goal:
            return _prove(hyps, g2, depth, timeout, deadline)
    if goal.op == 'eq' and goal.args[0].sort == 'R' and _real_split(goal, 4):
        return Result(True, 'syntactic')
    r = _solve(hyps, goal, timeout)
    if not r.ok and time.time() < deadline and not _nesting[0]:
        _nesting[0] = True
        try:
            h2, g2 = _nested_sums(hyps, goal, timeout, deadline)
        finally:
            _nesting[0] = False
        if g2 is not goal or h2 != hyps:
            r2 = Result(True, 'z3') if g2 is TRUE or g2 in h2 or FALSE in h2 else _solve(h2, g2, timeout)
            if r2.ok:
                return r2
    return r


def _rebase(t, memo):
    """every sum with its range starting at zero"""
    r = memo.get(t)
    if r is not None:
        return r
    f = lambda x: _rebase(x, memo)
    if not any(a.op == 'sum' for a in T.atoms_of(t)):
        r = t
    elif t.op == 'poly':
        r = T.num(0, t.sort)
        for m, c in t.args:
            x = T.num(c, t.sort)
            for a, p in m:
                if a.op == 'sum':
                    bv, body, lo, hi = a.args
                    body, lo, hi = f(body), f(lo), f(hi)
                    v = T.fresh('sumv', 'I')
                    b = T.mksum(v, T.subst(body, {bv: add(v, lo)}), I(0), sub(hi, lo))
                elif any(y.op == 'sum' for y in T.atoms_of(a)):
                    b = T.rebuild_atom(a, f)
                else:
                    b = atom(a)
                x = T.mul(x, T.power(b, p))
            r = add(r, x)
    else:
        r = T.rebuild_bool(t, f)
    memo[t] = r
    return r


_nesting = [False]


def _nested_sums(hyps, goal, timeout, deadline):
    """makes provably equal sums inside conditionals and functions the same"""
    if goal.op not in ('eq', 'le', 'lt', 'or', 'not') and goal is not FALSE or not any(a.op == 'sum' for t in [goal] + hyps for a in T.atoms_of(t)):
        return hyps, goal
    given = [h for h in hyps if h.op != 'forall' and any(a.op == 'sum' for a in T.atoms_of(h))]
    plain = [h for h in hyps if h not in given]
    given = [_rebase(h, {}) for h in given]
    goal = _rebase(goal, {})
    ss = []

    def ground(t, bound):
        if isinstance(t, tuple):
            for x in t:
                ground(x, bound)
        elif isinstance(t, T.T):
            if t.op == 'poly':
                for m, _ in t.args:
                    for a, _ in m:
                        ground(a, bound)
                return
            if t.op in ('sum', 'forall'):
                if t.op == 'sum' and t not in ss and not any(b in T.atoms_of(t) for b in bound):
                    ss.append(t)
                return
            for x in t.args:
                if isinstance(x, T.T):
                    ground(x, bound)
    ground(goal, ())
    for h in given:
        if len(ss) < 8:
            ground(h, ())
    for x in range(len(ss)):
        for y in range(x + 1, len(ss)):
            a, b = ss[x], ss[y]
            if time.time() > deadline:
                return plain + given, goal
            if a.sort != b.sort or not quick(hyps, T.eq(a.args[3], b.args[3])):
                continue
            v = T.fresh('sv', 'I')
            g = T.eq(T.subst(a.args[1], {a.args[0]: v}), T.subst(b.args[1], {b.args[0]: v}))
            if g is TRUE or _prove(plain + [le(I(0), v), lt(v, b.args[3])], g, 4, min(timeout, 2000), deadline).ok:
                goal = T._subst(goal, {a: atom(b)}, {})
                given = [T._subst(h, {a: atom(b)}, {}) for h in given]
                break
    return plain + given, goal


def _outer(t, out):
    """applications in t that are not inside a sum"""
    if isinstance(t, T.T):
        if t.op == 'sum':
            return
        if t.op == 'app' and t.args[0].startswith('V!'):
            out.append(t)
        if t.op == 'poly':
            for m, _ in t.args:
                for a, _ in m:
                    _outer(a, out)
            return
        for a in t.args:
            if isinstance(a, (T.T, tuple)):
                _outer(a, out)
    elif isinstance(t, tuple):
        for a in t:
            _outer(a, out)


def _unfold(hyps, goal):
    """replaces symbols that are defined by sums over earlier elements by their definition"""
    atoms = []
    _outer(goal, atoms)
    atoms = [a for a in dict.fromkeys(atoms)]
    if not atoms:
        return None
    mp = {}
    for h in hyps:
        if h.op != 'forall':
            continue
        vs = []
        b = h
        conds = []
        while True:
            if b.op == 'forall':
                vs.append(T.single_atom(b.args[0]))
                b = b.args[1]
            elif b.op == 'or' and len([x for x in b.args if x.op in ('eq', 'forall')]) == 1:
                conds += [bnot(x) for x in b.args if x.op not in ('eq', 'forall')]
                b = [x for x in b.args if x.op in ('eq', 'forall')][0]
            else:
                break
        if b.op != 'eq' or b.args[0].sort != 'R':
            continue
        for m, c in b.args[0].args:
            if len(m) != 1 or m[0][1] != 1 or c not in (1, -1):
                continue
            d = m[0][0]
            if d.op != 'app' or not d.args[0].startswith('V!'):
                continue
            rest = T._mkpoly({k: v for k, v in b.args[0].args if k is not m}, 'R')
            inner = []
            _outer(rest, inner)
            if any(x.args[0] == d.args[0] for x in inner):
                continue
            rest = rest if c == -1 else T.neg(rest)
            for a in atoms:
                if a in mp or a.args[0] != d.args[0] or len(a.args) != len(d.args):
                    continue
                sub_ = {}
                ok = True
                for x, y in zip(d.args[1:], a.args[1:]):
                    xa = T.single_atom(x) if isinstance(x, T.T) else None
                    if xa is not None and xa in vs:
                        sub_[xa] = y
                    elif x is not y:
                        ok = False
                if ok and all(quick(hyps, T.subst(cc, sub_)) for cc in conds):
                    mp[a] = T.subst(rest, sub_)
    return T._subst(goal, mp, {}) if mp else None


def _sums_in(p):
    out = []
    for m, c in p.args:
        for a, k in m:
            if a.op == 'sum' and a not in out:
                out.append(a)
    return out


_unfolded = [0]      # nesting of unfolded recurrences
_shifting = [False]
_level = [0]         # nesting of the comparisons of sums


def _combine_sums(hyps, goal, depth, timeout, deadline):
    if _level[0] >= 3:
        return False
    _level[0] += 1
    try:
        return _combine_sums1(hyps, goal, depth, timeout, deadline)
    finally:
        _level[0] -= 1


def _combine_sums1(hyps, goal, depth, timeout, deadline):
    """sum_m c_m * SUM_t f_m(t) + rest == 0: enough that rest == 0 and, range by range, sum_m c_m * f_m(t) == 0 for every t.
    Ranges that differ by a few elements at the end are brought to the shortest one first."""
    p = goal.args[0]
    srt = p.sort
    rng = {}
    rest0 = T.num(0, srt)
    n = 0
    for m, c in p.args:
        ss = [(a, k) for a, k in m if a.op == 'sum']
        if not ss:
            rest0 = add(rest0, T._mkpoly({m: c}, srt))
            continue
        if len(ss) != 1 or ss[0][1] != 1:
            return False
        a = ss[0][0]
        rest = T._mkpoly({tuple(x for x in m if x[0] is not a): c}, srt)
        rng.setdefault((a.args[2], a.args[3]), []).append((a, rest))
        n += 1
    if n < 1:
        return False
    groups = []
    for (lo, hi), terms in rng.items():
        for g in groups:
            d, e = T.const_int(sub(hi, g[1])), T.const_int(sub(lo, g[0]))
            if d is not None and e is not None and abs(d) <= 4 and abs(e) <= 4:
                g[2].append((lo, e, hi, d, terms))
                break
        else:
            groups.append([lo, hi, [(lo, 0, hi, 0, terms)]])
    todo = []
    for lo, hi, parts in groups:
        l0, e0 = max(parts, key=lambda x: x[1])[:2]
        h0, d0 = min(parts, key=lambda x: x[3])[2:4]
        if len(parts) == 1 and len(parts[0][4]) < 2 or len(parts) > 1 and not quick(hyps, le(l0, h0)):
            g2 = _cut_sums(hyps, p)
            if g2 is not None:
                return time.time() < deadline and _prove(hyps, g2, max(depth, 8), timeout, deadline).ok
            if len(parts) > 1:
                return False
        terms = []
        for l, e, _, d, ts in parts:
            for a, c in ts:
                terms.append((a, c))
                for x in [add(h0, I(k)) for k in range(d - d0)] + [add(l, I(k)) for k in range(e0 - e)]:
                    rest0 = add(rest0, mul(c, T.subst(a.args[1], {a.args[0]: x})))
        todo.append((l0, h0, terms))
    for lo, hi, terms in todo:
        v = T.fresh('sv', 'I')
        tot = T.num(0, srt)
        for a, c in terms:
            tot = add(tot, mul(c, T.subst(a.args[1], {a.args[0]: v})))
        g = T.eq(tot, T.num(0, srt))
        if g is TRUE:
            continue
        if time.time() > deadline or not _prove(hyps + [le(lo, v), lt(v, hi)], g, max(depth, 8), min(timeout, 3000), deadline).ok:
            return False
    g = T.eq(rest0, T.num(0, srt))
    if g is TRUE:
        return True
    return time.time() < deadline and _prove(hyps, g, max(depth, 8), min(timeout, 3000), deadline).ok


def _cut_sums(hyps, p):
    """p == 0 with its sums split at the bounds of the other sums, when these bounds are ordered"""
    ss = _sums_in(p)
    cuts = []
    for a in ss:
        for e in a.args[2:4]:
            if e not in cuts:
                cuts.append(e)
    if len(cuts) < 3 or len(cuts) > 6:
        return None
    order = []
    for e in cuts:
        k = 0
        while k < len(order) and not quick(hyps, le(e, order[k])):
            if not quick(hyps, le(order[k], e)):
                return None
            k += 1
        order.insert(k, e)
    mp = {}
    for a in ss:
        i, j = order.index(a.args[2]), order.index(a.args[3])
        if i >= j or j == i + 1:
            continue
        r = T.num(0, a.sort)
        for k in range(i, j):
            r = add(r, T.mksum(a.args[0], a.args[1], order[k], order[k + 1]))
        mp[a] = r
    if not mp:
        return None
    return T._subst(T.eq(p, T.num(0, p.sort)), mp, {})


def _strides(hyps, goal):
    """with a sum over t < n/s in p (s a number): the sums over t < n taken s elements at a time"""
    p = goal.args[0]
    ss = _sums_in(p)
    if len(ss) < 2:
        return None
    for b in ss:
        q = b.args[3]
        if q.sort != 'I' or T.const_int(b.args[2]) != 0:
            continue
        ds = [d for d in T.atoms_of(q) if d.op == 'div' and d.args[1] in range(2, 9)]
        d = T.single_atom(q)
        if d is None or d not in ds:
            continue
        n, k = d.args
        bv = ((T.single_atom(b.args[0]), 1),)
        if not any(m == bv and c == k for at in T.atoms_of(b.args[1]) for x in at.args
                   if isinstance(x, T.T) and x.op == 'poly' and x.sort == 'I' for m, c in x.args):
            continue
        for a in ss:
            h = a.args[3]
            if a is b or T.const_int(a.args[2]) != 0 or h is q:
                continue
            if T.single_atom(h) is not None and T.single_atom(h) in ds or T.const_int(sub(n, h)) is None:
                continue
            kq = mul(I(k), q)
            if not quick(hyps, le(kq, h)) or not quick(hyps, le(I(0), q)):
                continue
            v, body = a.args[0], a.args[1]
            r = T.num(0, a.sort)
            for j in range(k):
                u = T.fresh('sumv', 'I')
                r = add(r, T.mksum(u, T.subst(body, {v: add(mul(I(k), u), I(j))}), I(0), q))
            if quick(hyps, le(h, add(kq, I(k - 1)))):
                for j in range(k - 1):
                    x = add(kq, I(j))
                    r = add(r, T.ite(lt(x, h), T.subst(body, {v: x}), T.num(0, a.sort)))
            else:
                r = add(r, T.mksum(v, body, kq, h))
            return T._subst(goal, {a: r}, {})
    return None


def _shifted(goal):
    """sums over 0 <= t < n - c next to sums up to c: over c <= t < n"""
    p = goal.args[0]
    ss = _sums_in(p)
    bounds = {x for a in ss for x in a.args[2:4]}
    mp = {}
    for b in ss:
        if T.const_int(b.args[2]) != 0 or T.const_int(b.args[3]) is not None or b.args[3].sort != 'I':
            continue
        for c in bounds:
            if T.const_int(c) is None and c is not b.args[3] and add(c, b.args[3]) in bounds:
                v, u = b.args[0], T.fresh('sumv', 'I')
                mp[b] = T.mksum(u, T.subst(b.args[1], {v: sub(u, c)}), c, add(c, b.args[3]))
                break
    return T._subst(goal, mp, {}) if mp else None


def _match_sums(hyps, goal, timeout, deadline):
    """goal: eq0(p).  Rewrites sums occurring in p into equal ones when that is provable."""
    p = goal.args[0]
    ss = _sums_in(p)
    if len(ss) < 1:
        return goal
    for x in range(len(ss)):
        a = ss[x]
        lo, hi = a.args[2], a.args[3]
        if quick(hyps, le(hi, lo)):
            return T._subst(goal, {a: T.num(0, a.sort)}, {})
    for x in range(len(ss)):
        for y in range(x + 1, len(ss)):
            a, b = ss[x], ss[y]
            if time.time() > deadline:
                return goal
            for form in (0, 1):
                la, ha, lb, hb = a.args[2], a.args[3], b.args[2], b.args[3]
                v = T.fresh('sv', 'I')
                fa = T.subst(a.args[1], {a.args[0]: v})
                if form == 0:
                    if not (quick(hyps, T.eq(sub(ha, la), sub(hb, lb)))):
                        break
                    fb = T.subst(b.args[1], {b.args[0]: add(v, sub(lb, la))})
                else:
                    # reversed order: t -> ha+lb-1 - (v - 0) ...
                    fb = T.subst(b.args[1], {b.args[0]: sub(add(sub(hb, I(1)), la), v)})
                g = T.eq(fa, fb)
                h2 = hyps + [le(la, v), lt(v, ha)]
                was, _nesting[0] = _nesting[0], True
                try:
                    r = Result(True, 's') if g is TRUE else _prove(h2, g, 6, min(timeout, 2000), deadline)
                finally:
                    _nesting[0] = was
                if r.ok:
                    return T._subst(goal, {a: atom(b)}, {})
    return goal


def prenex(f):
    """g -> forall v. b   becomes   forall v. (g -> b)"""
    if f.op == 'or':
        fs = [x for x in f.args if x.op == 'forall']
        if len(fs) == 1:
            rest = [x for x in f.args if x is not fs[0]]
            v, b = fs[0].args
            if not any(T.single_atom(v) in T.atoms_of(x) for x in rest):
                return T.forall(v, bor(*rest, b))
    return f


def _scaled(p, a):
    """(b, r): p = b * a + r with a number b and r without a"""
    b = dict(p.args).get(((a, 1),))
    if not b:
        return None
    r = sub(p, T.scale(atom(a), b))
    return (b, r) if a not in T.atoms_of(r) else None


def _divided(p, b):
    if any(c % b for m, c in p.args):
        return None
    return T._mkpoly({m: c // b for m, c in p.args}, 'I')


_INST = {}


def _instances(hyps, goal):
    """instantiate universally quantified hypotheses at matching applications"""
    out = []
    ground = set()
    for t in hyps + [goal]:
        if t.op != 'forall':
            ground |= T.atoms_of(t)
    done = set()
    first = set(T.atoms_of(goal))
    fas = [prenex(h) for h in hyps if h.op == 'forall' or (h.op == 'or' and any(x.op == 'forall' for x in h.args))]
    fas = [h for h in fas if h.op == 'forall']
    # what the goal mentions comes first: the number of instances is limited
    for rnd in range(6):
        known = {}
        for y in first if rnd < 2 else ground:
            if y.op in ('app', 'bapp'):
                known.setdefault((y.op, y.args[0], len(y.args)), []).append(y)
        new = []
        again = False
        for h in list(fas):
            bv, body = h.args
            ba = T.single_atom(bv)
            cands = set()
            for x in T.atoms_of(body):
                if x.op in ('app', 'bapp') and ba in T.atoms_of(x):
                    for i, ar in enumerate(x.args[1:]):
                        if ar is bv or (ar.sort == 'I' and T.single_atom(sub(ar, sub(ar, bv))) is ba and ba not in T.atoms_of(sub(ar, bv))):
                            off = sub(ar, bv)
                            for y in {y.args[1 + i] for y in known.get((x.op, x.args[0], len(x.args)), ())}:
                                cands.add(sub(y, off))
                        elif ar.sort == 'I' and ba in T.atoms_of(ar):
                            r = _scaled(ar, ba)
                            if r is not None:
                                for y in {y.args[1 + i] for y in known.get((x.op, x.args[0], len(x.args)), ())}:
                                    d = _divided(sub(y, r[1]), r[0])
                                    if d is not None:
                                        cands.add(d)
            for cnd in cands:
                if (h, cnd) in done:
                    continue
                done.add((h, cnd))
                if len(done) > 400:
                    return out + new
                f = _INST.get((h, cnd))
                if f is None:
                    f = _INST[h, cnd] = prenex(T.subst(body, {bv: cnd}))
                if f.op == 'forall':
                    if f not in fas:
                        fas.append(f)
                        again = True
                    continue
                new.append(f)
        if not new and not again:
            if rnd < 2:
                continue
            break
        out += new
        for f in new:
            ground |= T.atoms_of(f)
            first |= T.atoms_of(f)
    return out


def _solve(hyps, goal, timeout):
    t0 = time.time()
    inst = _instances(hyps, goal)
    hy = [h for h in hyps if h.op != 'forall'] + inst
    rel = relevant(hy, goal) if goal is not FALSE else hy
    c = Conv()
    g = c.bool(goal)
    zs = [c.bool(h) for h in rel] + int_lemmas(rel + [goal], c)
    if is_int_fact(goal):
        zs += [c.bool(x) for x in product_lemmas([h for h in rel if is_int_fact(h)], goal)]
    s = z3.Solver()
    s.set('timeout', timeout)
    for x in zs:
        s.add(x)
    for x in c.ax:
        s.add(x)
    s.add(z3.Not(g))
    res = s.check()
    STATS['z3_time'] += time.time() - t0
    if res == z3.unsat:
        STATS['z3'] += 1
        return Result(True, 'z3')
    model = None
    if res == z3.sat:
        m = s.model()
        model = {}
        for d in m.decls():
            if d.arity() == 0:
                model[d.name()] = str(m[d])
        return Result(False, 'z3', model, 'z3: sat')
    # second opinion
    r = _cvc5(s, timeout)
    if r:
        STATS['cvc5'] += 1
        return Result(True, 'cvc5')
    return Result(False, 'z3', None, 'z3: %s (%s)' % (res, s.reason_unknown()))


def _cvc5(s, timeout):
    t0 = time.time()
    try:
        import cvc5
        txt = '(set-logic ALL)\n' + s.to_smt2()
        slv = cvc5.Solver()
        slv.setOption('tlimit-per', str(int(timeout)))
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        sm = p.getSymbolManager()
        out = ''
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            out += cmd.invoke(slv, sm)
        return 'unsat' in out
    except Exception:
        return False
    finally:
        STATS['cvc5_time'] += time.time() - t0
