"""Hash-consed terms: booleans, mathematical integers and reals.

Every Int/Real value is a polynomial (op 'poly') over atoms, kept in normal
form, so that two values equal by ring axioms are the same object.
Reals use the convention inv(0)=0 only as a total extension; obligations never
rely on it unless the divisor is known to be non-zero.
"""
from fractions import Fraction
from functools import lru_cache
import math
import sys
sys.setrecursionlimit(100000)


class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'bvs', '__weakref__')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    # arithmetic sugar (I/R)
    def __add__(self, o): return add(self, lift(o, self.sort))
    def __radd__(self, o): return add(lift(o, self.sort), self)
    def __sub__(self, o): return sub(self, lift(o, self.sort))
    def __rsub__(self, o): return sub(lift(o, self.sort), self)
    def __mul__(self, o): return mul(self, lift(o, self.sort))
    def __rmul__(self, o): return mul(lift(o, self.sort), self)
    def __neg__(self): return neg(self)
    def __truediv__(self, o): return mul(self, inv(lift(o, self.sort)))
    def __rtruediv__(self, o): return mul(lift(o, self.sort), inv(self))


_tab = {}
_cnt = [0]


def mk(op, args, sort):
    k = (op, args, sort)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.sort = sort
        _cnt[0] += 1
        t.id = _cnt[0]
        t.bvs = None
        _tab[k] = t
    return t


TRUE = mk('true', (), 'B')
FALSE = mk('false', (), 'B')


def lift(v, sort):
    if isinstance(v, T):
        if v.sort == sort:
            return v
        if v.sort == 'I' and sort == 'R':
            return i2r(v)
        raise TypeError('sort %s vs %s' % (v.sort, sort))
    return num(v, sort)


# ---------------------------------------------------------------- polynomials
def _mkpoly(d, sort):
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0),
                         key=lambda mc: tuple((a.id, p) for a, p in mc[0])))
    return mk('poly', items, sort)


def num(v, sort='I'):
    if isinstance(v, float):
        v = Fraction(v)
    v = Fraction(v)
    return _mkpoly({(): v} if v else {}, sort)


def I(v): return num(v, 'I')
def R(v): return num(v, 'R')


def atom(a):
    """wrap an atom node as a polynomial"""
    return mk('poly', ((((a, 1),), Fraction(1)),), a.sort)


def var(name, sort):
    if sort == 'B':
        return mk('bvar', (name,), 'B')
    return atom(mk('var', (name,), sort))


_fresh = [0]


def fresh(name, sort):
    _fresh[0] += 1
    return var('%s!%d' % (name, _fresh[0]), sort)


def freshname(name):
    _fresh[0] += 1
    return '%s!%d' % (name, _fresh[0])


def app(name, args, sort):
    args = tuple(args)
    if not args:
        return var(name, sort)
    if sort == 'B':
        return mk('bapp', (name,) + args, 'B')
    return atom(mk('app', (name,) + args, sort))


def is_num(p):
    return p.op == 'poly' and (not p.args or (len(p.args) == 1 and p.args[0][0] == ()))


def numval(p):
    if not p.args:
        return Fraction(0)
    return p.args[0][1]


def const_int(p):
    if is_num(p):
        v = numval(p)
        if v.denominator == 1:
            return int(v)
    return None


def const_of(p):
    """constant term of a polynomial"""
    for m, c in p.args:
        if not m:
            return c
    return Fraction(0)


def pdict(p):
    return dict(p.args)


def add(p, q):
    if not p.args:
        return q
    if not q.args:
        return p
    d = dict(p.args)
    for m, c in q.args:
        d[m] = d.get(m, 0) + c
    return _mkpoly(d, p.sort)


def neg(p):
    return mk('poly', tuple((m, -c) for m, c in p.args), p.sort)


def sub(p, q):
    if p is q:
        return num(0, p.sort)
    return add(p, neg(q))


def scale(p, c):
    if c == 0:
        return num(0, p.sort)
    return mk('poly', tuple((m, k * c) for m, k in p.args), p.sort)


def _monomul(m1, m2):
    """product of two monomials; returns (mono) or list for reductions"""
    d = dict(m1)
    for a, p in m2:
        d[a] = d.get(a, 0) + p
    out = []
    for a, p in d.items():
        if p == 0:
            continue
        if a.op == 'ind' and p > 1:
            p = 1
        out.append((a, p))
    out.sort(key=lambda ap: ap[0].id)
    return tuple(out)


@lru_cache(maxsize=None)
def mul(p, q):
    if is_num(p):
        return scale(q, numval(p))
    if is_num(q):
        return scale(p, numval(q))
    d = {}
    for m1, c1 in p.args:
        for m2, c2 in q.args:
            m = _monomul(m1, m2)
            m, extra = _reduce_mono(m)
            if extra is None:
                d[m] = d.get(m, 0) + c1 * c2
            else:
                r = mul(_mkpoly({m: Fraction(1)}, p.sort), extra)
                for mm, cc in r.args:
                    d[mm] = d.get(mm, 0) + cc * c1 * c2
    return _mkpoly(d, p.sort)


def _reduce_mono(m):
    """sin^2 -> 1 - cos^2.  sqrt(x)^2 -> x is only valid for x>=0, so it is left alone;
    x * inv(x) is left alone too (only valid for x != 0)."""
    for i, (a, p) in enumerate(m):
        if a.op == 'sin' and p >= 2:
            rest = m[:i] + (((a, p - 2),) if p > 2 else ()) + m[i + 1:]
            c = fn1('cos', a.args[0])
            return rest, sub(num(1, 'R'), mul(c, c))
    return m, None


def power(p, n):
    r = num(1, p.sort)
    for _ in range(n):
        r = mul(r, p)
    return r


def single_atom(p):
    """the atom if p is exactly 1*atom"""
    if p.op == 'poly' and len(p.args) == 1 and p.args[0][1] == 1:
        m = p.args[0][0]
        if len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def inv(p):
    assert p.sort == 'R'
    if is_num(p):
        v = numval(p)
        if v == 0:
            return atom(mk('inv', (p,), 'R'))
        return num(1 / v, 'R')
    if len(p.args) == 1:
        m, c = p.args[0]
        r = num(1 / c, 'R')
        for a, k in m:
            if a.op == 'inv':
                f = a.args[0]          # inv(inv(x)) = x with inv(0)=0
            else:
                f = atom(mk('inv', (atom(a),), 'R'))
            r = mul(r, power(f, k))
        return r
    # factor out the leading coefficient so that inv(2x+2y) = 1/2 inv(x+y)
    c = p.args[0][1]
    q = scale(p, 1 / c)
    return mul(num(1 / c, 'R'), atom(mk('inv', (q,), 'R')))


def i2r(p):
    assert p.sort == 'I'
    # homomorphism: push inside the polynomial
    r = num(0, 'R')
    for m, c in p.args:
        t = num(c, 'R')
        for a, k in m:
            if a.op == 'ite':
                at = ite(a.args[0], i2r(a.args[1]), i2r(a.args[2]))
            else:
                at = atom(mk('i2r', (atom(a),), 'R'))
            t = mul(t, power(at, k))
        r = add(r, t)
    return r


def fn1(name, p):
    """sin, cos, sqrt, abs ... of a real"""
    if name in ('sin', 'cos') and p.args:
        # sin(-x) = -sin x, cos(-x) = cos x
        if p.args[0][1] < 0:
            r = fn1(name, neg(p))
            return neg(r) if name == 'sin' else r
    if name == 'abs' and is_num(p):
        return num(abs(numval(p)), 'R')
    if name == 'abs' and p.args and p.args[0][1] < 0:
        return fn1('abs', neg(p))
    if is_num(p) and numval(p) == 0:
        return num({'sin': 0, 'cos': 1, 'sqrt': 0}.get(name, 0), 'R') if name in ('sin', 'cos', 'sqrt') else atom(mk(name, (p,), 'R'))
    return atom(mk(name, (p,), 'R'))


# ---------------------------------------------------------------- booleans
def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'not':
        return b.args[0]
    if b.op == 'le':
        p = b.args[0]
        if p.sort == 'I':
            return le0(sub(I(1), p))
        return lt0(neg(p))
    if b.op == 'lt':
        return le0(neg(b.args[0]))
    return mk('not', (b,), 'B')


def band(*bs):
    out = []
    seen = set()
    for b in bs:
        if b is TRUE:
            continue
        if b is FALSE:
            return FALSE
        for x in (b.args if b.op == 'and' else (b,)):
            if x not in seen:
                seen.add(x)
                out.append(x)
    for x in out:
        if bnot(x) in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', tuple(out), 'B')


def bor(*bs):
    out = []
    seen = set()
    for b in bs:
        if b is FALSE:
            continue
        if b is TRUE:
            return TRUE
        for x in (b.args if b.op == 'or' else (b,)):
            if x not in seen:
                seen.add(x)
                out.append(x)
    for x in out:
        if bnot(x) in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', tuple(out), 'B')


def implies(a, b):
    return bor(bnot(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return bnot(b)
    if b is FALSE:
        return bnot(a)
    return band(implies(a, b), implies(b, a))


def _intnorm(p):
    """divide an int polynomial by gcd of non-constant coeffs; returns (q, ok)"""
    g = 0
    for m, c in p.args:
        if m != ():
            g = math.gcd(g, int(c))
    return g


def le0(p):
    if is_num(p):
        return TRUE if numval(p) <= 0 else FALSE
    if p.sort == 'I':
        g = _intnorm(p)
        if g > 1:
            d = {}
            for m, c in p.args:
                if m == ():
                    d[m] = Fraction(-((-int(c)) // g))   # ceil(c/g)
                else:
                    d[m] = c / g
            p = _mkpoly(d, 'I')
    else:
        c = abs(p.args[-1][1])
        if c != 1:
            p = scale(p, 1 / c)
    return mk('le', (p,), 'B')


def lt0(p):
    if p.sort == 'I':
        return le0(add(p, I(1)))
    if is_num(p):
        return TRUE if numval(p) < 0 else FALSE
    c = abs(p.args[-1][1])
    if c != 1:
        p = scale(p, 1 / c)
    return mk('lt', (p,), 'B')


def le(a, b): return le0(sub(a, b))
def lt(a, b): return lt0(sub(a, b))
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)


def eq0(p):
    if is_num(p):
        return TRUE if numval(p) == 0 else FALSE
    if p.sort == 'I':
        g = _intnorm(p)
        if g > 1:
            k = p.args[0][1] if p.args[0][0] == () else Fraction(0)
            if int(k) % g != 0:
                return FALSE
            p = scale(p, Fraction(1, g))
        if p.args[-1][1] < 0:
            p = neg(p)
    else:
        c = p.args[-1][1]
        if c != 1:
            p = scale(p, 1 / c)
    # ite with constant branches: eq0(ite(c,a,b)+k)
    if len(p.args) <= 2:
        a = None
        k = Fraction(0)
        for m, c in p.args:
            if m == ():
                k = c
            elif a is None and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'ite':
                a = (m[0][0], c)
            else:                    # two of them, or something else: no shortcut
                a = None
                break
        if a is not None and is_num(a[0].args[1]) and is_num(a[0].args[2]):
            c1 = numval(a[0].args[1]) * a[1] + k == 0
            c2 = numval(a[0].args[2]) * a[1] + k == 0
            cond = a[0].args[0]
            if c1 and c2:
                return TRUE
            if c1:
                return cond
            if c2:
                return bnot(cond)
            return FALSE
        if a is not None and _const_tree(a[0]):
            f = lambda t: eq0(add(scale(t, a[1]), num(k, p.sort)))
            x, y = f(a[0].args[1]), f(a[0].args[2])
            return bor(band(a[0].args[0], x), band(bnot(a[0].args[0]), y))
    return mk('eq', (p,), 'B')


def const_min(t):
    """least value of a term all of whose branches are constants (minus infinity for other terms)"""
    if is_num(t):
        return numval(t)
    b = single_atom(t)
    if b is None or b.op != 'ite':
        return float('-inf')
    return min(const_min(x) for x in b.args[1:])


def _const_tree(a):
    """all branches of the ite atom are constants"""
    for t in a.args[1:]:
        if is_num(t):
            continue
        b = single_atom(t)
        if b is None or b.op != 'ite' or not _const_tree(b):
            return False
    return True


def eq(a, b):
    if a.sort == 'B':
        return iff(a, b)
    return eq0(sub(a, b))


def ne(a, b): return bnot(eq(a, b))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'eq' and c.args[0].sort == 'I' and a.sort == 'I':
        # x == y ? x : y
        d = sub(a, b)
        if d is c.args[0] or neg(d) is c.args[0]:
            return b
    if a.sort == 'B':
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return bnot(c)
        return bor(band(c, a), band(bnot(c), b))
    if c.op == 'not':
        return ite(c.args[0], b, a)
    # nested same-condition
    sa = single_atom(a)
    if sa is not None and sa.op == 'ite':
        if sa.args[0] is c:
            a = sa.args[1]
    sb = single_atom(b)
    if sb is not None and sb.op == 'ite':
        if sb.args[0] is c:
            b = sb.args[2]
    if a is b:
        return a
    # canonical polarity for 'le' / 'lt' / 'eq' literals
    n = bnot(c)
    if n.id < c.id and n.op != 'not':
        c, a, b = n, b, a
    return atom(mk('ite', (c, a, b), a.sort))


def ind(c):
    if c is TRUE:
        return R(1)
    if c is FALSE:
        return R(0)
    return atom(mk('ind', (c,), 'R'))


def fmax(a, b):
    return ite(lt(a, b), b, a)


def fmin(a, b):
    return ite(lt(b, a), b, a)


def fabs(a):
    if is_num(a):
        return num(abs(numval(a)), 'R')
    b = single_atom(a)
    if b is not None and b.op in ('sqrt', 'abs'):
        return a
    return fn1('abs', a)


def idiv(p, c):
    """floor division of an int poly by a positive constant"""
    assert c > 0
    if c == 1:
        return p
    q = {}
    r = {}
    for m, k in p.args:
        k = int(k)
        if m == ():
            q[m] = Fraction(k // c)
            r[m] = Fraction(k % c)
        elif k % c == 0:
            q[m] = Fraction(k // c)
        else:
            q[m] = Fraction(k // c)
            r[m] = Fraction(k % c)
    q = _mkpoly(q, 'I')
    r = _mkpoly(r, 'I')
    if is_num(r):
        return q
    return add(q, atom(mk('div', (r, c), 'I')))


def imod(p, c):
    return sub(p, scale(idiv(p, c), c))


def forall(bv, body):
    """bv: a var poly; quantified fact (used only as an assumption or goal
    that the prover instantiates / skolemises)"""
    if body is TRUE or body is FALSE:
        return body
    return mk('forall', (bv, body), 'B')


# ---------------------------------------------------------------- traversal
def children(t):
    if t.op == 'poly':
        for m, c in t.args:
            for a, p in m:
                yield a
    else:
        for x in t.args:
            if isinstance(x, T):
                yield x


_atomscache = {}


def atoms_of(t):
    """set of all nodes reachable"""
    r = _atomscache.get(t)
    if r is not None:
        return r
    s = {t}
    for c in children(t):
        s |= atoms_of(c)
    r = frozenset(s)
    _atomscache[t] = r
    return r


def occurs(a, t):
    """a: var poly or node"""
    if a.op == 'poly':
        a = single_atom(a)
    return a in atoms_of(t)


def subst(t, mp, memo=None):
    """mp: {node: term}; node may be an atom (value: poly of same sort) or a Bool"""
    if memo is None:
        memo = {}
        mp = {(single_atom(k) if k.op == 'poly' else k): v for k, v in mp.items()}
        if None in mp:
            raise ValueError('subst of non-atom')
    return _subst(t, mp, memo)


def _subst(t, mp, memo):
    r = memo.get(t)
    if r is not None:
        return r
    if not any(k in atoms_of(t) for k in mp):
        memo[t] = t
        return t
    if t.op == 'poly':
        if t in mp:
            r = mp[t]
        else:
            r = num(0, t.sort)
            same = {}
            for m, c in t.args:
                tm = None
                touched = False
                parts = []
                for a, p in m:
                    na = _subst_atom(a, mp, memo)
                    if na is not None:
                        touched = True
                    parts.append((a, p, na))
                if not touched:
                    same[m] = same.get(m, 0) + c
                    continue
                tm = num(c, t.sort)
                for a, p, na in parts:
                    tm = mul(tm, power(na if na is not None else atom(a), p))
                r = add(r, tm)
            if same:
                r = add(r, _mkpoly(same, t.sort))
    else:
        if t.sort == 'B':
            r = mp.get(t)
            if r is None:
                r = _rebuild_bool(t, mp, memo)
        else:
            raise ValueError('atom in term position: %r' % (t.op,))
    memo[t] = r
    return r


def _subst_atom(a, mp, memo):
    """returns poly or None if unchanged"""
    k = ('a', a)
    if k in memo:
        return memo[k]
    r = None
    if a in mp:
        r = mp[a]
    elif any(x in atoms_of(a) for x in mp):
        r = rebuild_atom(a, lambda x: _subst(x, mp, memo))
    memo[k] = r
    return r


def rebuild_atom(a, f):
    op = a.op
    if op == 'var':
        return atom(a)
    if op == 'app':
        return app(a.args[0], [f(x) for x in a.args[1:]], a.sort)
    if op == 'ite':
        return ite(f(a.args[0]), f(a.args[1]), f(a.args[2]))
    if op == 'ind':
        return ind(f(a.args[0]))
    if op == 'inv':
        return inv(f(a.args[0]))
    if op == 'i2r':
        return i2r(f(a.args[0]))
    if op == 'div':
        return idiv(f(a.args[0]), a.args[1])
    if op == 'sum':
        bv, body, lo, hi = a.args
        return mksum(bv, f(body), f(lo), f(hi))
    return fn1(op, f(a.args[0]))


def _rebuild_bool(t, mp, memo):
    f = lambda x: _subst(x, mp, memo)
    return rebuild_bool(t, f)


def rebuild_bool(t, f):
    op = t.op
    if op in ('true', 'false', 'bvar'):
        return t
    if op == 'not':
        return bnot(f(t.args[0]))
    if op == 'and':
        return band(*[f(x) for x in t.args])
    if op == 'or':
        return bor(*[f(x) for x in t.args])
    if op == 'le':
        return le0(f(t.args[0]))
    if op == 'lt':
        return lt0(f(t.args[0]))
    if op == 'eq':
        return eq0(f(t.args[0]))
    if op == 'bapp':
        return app(t.args[0], [f(x) for x in t.args[1:]], 'B')
    if op == 'forall':
        return forall(t.args[0], f(t.args[1]))
    raise ValueError(op)


# ---------------------------------------------------------------- sums
def deite(p):
    """replace ite atoms by indicator polynomials (recursively at top level)"""
    if p.op != 'poly':
        return p
    if not any(a.op == 'ite' for m, c in p.args for a, k in m):
        return p
    r = num(0, p.sort)
    for m, c in p.args:
        t = num(c, p.sort)
        for a, k in m:
            if a.op == 'ite':
                x = deite(a.args[1])
                y = deite(a.args[2])
                i = ind(a.args[0])
                t = mul(t, power(add(y, mul(i, sub(x, y))), k))
            else:
                t = mul(t, power(atom(a), k))
        r = add(r, t)
    return r


def sumdepth(t):
    d = 0
    for x in atoms_of(t):
        if x.op == 'sum':
            d = max(d, int(single_atom(x.args[0]).args[0][3:]) + 1)
    return d


def Sum(f, lo, hi, sort='R'):
    """sum_{lo <= t < hi} f(t)"""
    if not isinstance(lo, T):
        lo = I(lo)
    if not isinstance(hi, T):
        hi = I(hi)
    v = fresh('sumv', 'I')
    return mksum(v, f(v), lo, hi)


def mksum(bv, body, lo, hi):
    n = const_int(sub(hi, lo))
    if n is not None and n <= 0:
        return num(0, body.sort)
    if n is not None and n <= 8:
        r = num(0, body.sort)
        for k in range(n):
            r = add(r, subst(body, {bv: add(lo, I(k))}))
        return r
    # inside the range its bounds hold
    mp = {}
    for l in (le(lo, bv), lt(bv, hi)):
        if l.op == 'le':
            mp[l] = TRUE
            if bnot(l).op == 'le':
                mp[bnot(l)] = FALSE
    body = _subst(body, mp, {}) if mp else body
    body = deite(body) if body.sort == 'R' else body
    a = single_atom(bv)
    # linearity: split monomials, pull out factors free of bv
    groups = {}
    out = num(0, body.sort)
    for m, c in body.args:
        inside = []
        outside = num(c, body.sort)
        for at, k in m:
            if a in atoms_of(at):
                # split conjunctive indicators
                inside.append((at, k))
            else:
                outside = mul(outside, power(atom(at), k))
        key = tuple(inside)
        groups[key] = add(groups[key], outside) if key in groups else outside
    for key, coef in groups.items():
        if key == ():
            cnt = ite(lt(lo, hi), sub(hi, lo), I(0))
            out = add(out, mul(coef, i2r(cnt) if body.sort == 'R' else cnt))
            continue
        b = _mkpoly({key: Fraction(1)}, body.sort)
        dl = delta(a, key, body.sort, lo, hi)
        if dl is not None:
            out = add(out, mul(coef, dl))
            continue
        cl = clip(a, key, body.sort, lo, hi)
        if cl is not None:
            out = add(out, mul(coef, mksum(bv, *cl)))
            continue
        d = sumdepth(b)
        cv = var('bv#%d' % d, 'I')
        if cv is not bv:
            b = subst(b, {bv: cv})
        # re-check: substitution may have simplified
        out = add(out, mul(coef, atom(mk('sum', (cv, b, lo, hi), body.sort))))
    return out


def clip(a, key, sort, lo, hi):
    """sum of [t >= e] * rest(t) or [t < e] * rest(t) where e is at a constant distance inside the range: a shorter sum"""
    for n, (at, k) in enumerate(key):
        if at.op != 'ind':
            continue
        conj = at.args[0].args if at.args[0].op == 'and' else (at.args[0],)
        for cnd in conj:
            if cnd.op != 'le' or cnd.args[0].sort != 'I':
                continue
            p = cnd.args[0]
            cf = None
            for m, c in p.args:
                if m == ((a, 1),):
                    cf = c
            if cf not in (1, -1):
                continue
            rest = sub(p, scale(atom(a), cf))
            if a in atoms_of(rest):
                continue
            l2, h2 = (rest, hi) if cf == -1 else (lo, sub(I(1), rest))
            d = const_int(sub(l2, lo) if cf == -1 else sub(hi, h2))
            if d is None or d <= 0:
                continue
            others = band(*[x for x in conj if x is not cnd])
            b = mul(ind(others), _mkpoly({key[:n] + key[n + 1:]: Fraction(1)}, sort))
            return b, l2, h2
    return None


def delta(a, key, sort, lo, hi):
    """sum of [t == e] * rest(t) over lo <= t < hi, where e does not mention t: [lo <= e < hi] * rest(e)"""
    for n, (at, k) in enumerate(key):
        if at.op != 'ind':
            continue
        conj = at.args[0].args if at.args[0].op == 'and' else (at.args[0],)
        for cnd in conj:
            if cnd.op != 'eq' or cnd.args[0].sort != 'I':
                continue
            p = cnd.args[0]
            cf = None
            for m, c in p.args:
                if len(m) == 1 and m[0] == (a, 1):
                    cf = c
                elif any(a in atoms_of(x) for x, _ in m):
                    cf = None
                    break
            if cf not in (1, -1):
                continue
            rest = sub(p, scale(atom(a), cf))
            e = scale(rest, -cf)
            if a in atoms_of(e):
                continue
            b = subst(_mkpoly({key: Fraction(1)}, sort), {atom(a): e})
            return mul(ind(band(le(lo, e), lt(e, hi))), b)
    return None


# ---------------------------------------------------------------- derivative
def diff(p, seeds):
    """formal total derivative of real polynomial p along seeds {var atom: dterm}"""
    r = R(0)
    for m, c in p.args:
        for i, (a, k) in enumerate(m):
            da = diff_atom(a, seeds)
            if not da.args:
                continue
            t = R(c * k)
            for j, (b, kk) in enumerate(m):
                t = mul(t, power(atom(b), kk - 1 if j == i else kk))
            r = add(r, mul(t, da))
    return r


def diff_atom(a, seeds):
    if a in seeds:
        return seeds[a]
    if a.op in ('var', 'app'):
        return R(0)
    if a.op == 'sin':
        return mul(fn1('cos', a.args[0]), diff(a.args[0], seeds))
    if a.op == 'cos':
        return neg(mul(fn1('sin', a.args[0]), diff(a.args[0], seeds)))
    if a.op == 'inv':
        return neg(mul(power(atom(a), 2), diff(a.args[0], seeds)))
    if not any(s in atoms_of(a) for s in seeds):
        return R(0)
    raise ValueError('cannot differentiate ' + a.op)


# ---------------------------------------------------------------- printing
def show(t, depth=6):
    if depth == 0:
        return '..'
    op = t.op
    if op == 'poly':
        if not t.args:
            return '0'
        out = []
        for m, c in t.args[:12]:
            fs = [show(a, depth - 1) + ('^%d' % p if p != 1 else '') for a, p in m]
            if c != 1 or not fs:
                fs.insert(0, str(c))
            out.append('*'.join(fs))
        if len(t.args) > 12:
            out.append('...%d more' % (len(t.args) - 12))
        return '(' + ' + '.join(out) + ')' if len(out) > 1 else out[0]
    if op in ('var', 'bvar'):
        return t.args[0]
    if op in ('true', 'false'):
        return op
    if op in ('app', 'bapp'):
        return t.args[0] + '(' + ','.join(show(x, depth - 1) for x in t.args[1:]) + ')'
    if op == 'le':
        return show(t.args[0], depth - 1) + ' <= 0'
    if op == 'lt':
        return show(t.args[0], depth - 1) + ' < 0'
    if op == 'eq':
        return show(t.args[0], depth - 1) + ' == 0'
    if op == 'sum':
        return 'sum[%s=%s..%s](%s)' % (show(t.args[0]), show(t.args[2], depth - 1), show(t.args[3], depth - 1), show(t.args[1], depth - 1))
    return op + '(' + ', '.join(show(x, depth - 1) if isinstance(x, T) else str(x) for x in t.args) + ')'


def rename_apps(t, mp, memo=None):
    """rename function symbols: mp {old name: new name}"""
    if memo is None:
        memo = {}
    k = t
    r = memo.get(k)
    if r is not None:
        return r
    if t.op == 'poly':
        r = num(0, t.sort)
        same = {}
        for m, c in t.args:
            if not any(x.op in ('app', 'bapp') and x.args[0] in mp for a, _ in m for x in atoms_of(a)):
                same[m] = same.get(m, 0) + c
                continue
            tm = num(c, t.sort)
            for a, p in m:
                if a.op == 'app':
                    na = app(mp.get(a.args[0], a.args[0]), [rename_apps(x, mp, memo) for x in a.args[1:]], a.sort)
                else:
                    na = rebuild_atom(a, lambda x: rename_apps(x, mp, memo))
                tm = mul(tm, power(na, p))
            r = add(r, tm)
        if same:
            r = add(r, _mkpoly(same, t.sort))
    elif t.op == 'bapp':
        r = app(mp.get(t.args[0], t.args[0]), [rename_apps(x, mp, memo) for x in t.args[1:]], 'B')
    else:
        r = rebuild_bool(t, lambda x: rename_apps(x, mp, memo))
    memo[k] = r
    return r


_symcache = {}


def symnames(t):
    """names of uninterpreted symbols in t"""
    r = _symcache.get(t)
    if r is None:
        r = frozenset(x.args[0] for x in atoms_of(t) if x.op in ('app', 'bapp', 'var', 'bvar'))
        _symcache[t] = r
    return r


def diff(p, a):
    """formal partial derivative of a real polynomial with respect to the atom a"""
    if a.op == 'poly':
        a = single_atom(a)
    out = num(0, 'R')
    for m, c in p.args:
        for i, (x, k) in enumerate(m):
            if a not in atoms_of(x):
                continue
            d = _datom(x, a)
            if not d.args:
                continue
            t = num(c * k, 'R')
            for j, (y, l) in enumerate(m):
                e = l - 1 if j == i else l
                if e:
                    t = mul(t, power(atom(y), e))
            out = add(out, mul(t, d))
    return out


def _datom(x, a):
    if x is a:
        return num(1, 'R')
    op = x.op
    if op == 'sin':
        return mul(fn1('cos', x.args[0]), diff(x.args[0], a))
    if op == 'cos':
        return neg(mul(fn1('sin', x.args[0]), diff(x.args[0], a)))
    if op == 'sqrt':
        return mul(mul(num(Fraction(1, 2), 'R'), inv(atom(x))), diff(x.args[0], a))
    if op == 'inv':
        return neg(mul(mul(atom(x), atom(x)), diff(x.args[0], a)))
    if op == 'ite':
        return ite(x.args[0], diff(x.args[1], a), diff(x.args[2], a))
    if op == 'app':
        return num(0, 'R')
    raise ValueError('derivative of ' + op)
