"""Assumed contracts on the C and C++ runtime (listed as trusted in the evidence)."""
import re
from .terms import *
from .smt import quick
from .sym import *
from . import terms as T
from .sym import _decide

TRUSTED = {
    'operator new / operator delete': 'new returns a fresh object of the requested size, delete ends its life',
    'memcpy / memset / memmove': 'byte copy and fill',
    'sin, cos, sqrt, fabs, fmin, fmax': 'exact real functions (sin^2+cos^2=1; sqrt(x)>=0, sqrt(x)^2=x)',
    'std::chrono::steady_clock::now': 'returns an arbitrary time point',
    'std::vector<T*>::push_back, resize': 'the standard library specification',
    '__assert_fail, abort': 'do not return',
}


class Lib:
    def __init__(self, m):
        self.m = m
        self.c = m.c
        self.used = set()
        self.tab = {
            '@cos': self.fn1('cos'), '@sin': self.fn1('sin'), '@sqrt': self.fn1('sqrt'), '@llvm.sqrt.f64': self.fn1('sqrt'),
            '@fabs': self.abs_, '@llvm.fabs.f64': self.abs_, '@hypot': self.hypot,
            '@fmax': self.fmax_, '@llvm.maxnum.f64': self.fmax_, '@fmin': self.fmin_, '@llvm.minnum.f64': self.fmin_,
            '@llvm.fmuladd.f64': lambda st, a, i: (st, add(mul(a[0], a[1]), a[2])),
            '@llvm.fma.f64': lambda st, a, i: (st, add(mul(a[0], a[1]), a[2])),
            '@llvm.is.fpclass.f64': lambda st, a, i: (st, FALSE),
            '@__assert_fail': self.assert_fail, '@abort': self.abort, '@llvm.trap': self.abort, '@_ZSt9terminatev': self.abort,
            '@__clang_call_terminate': self.abort,
            '@_Znam': self.new, '@_Znwm': self.new, '@_ZdaPv': self.delete, '@_ZdlPv': self.delete,
            '@_ZdlPvm': self.delete, '@_ZdaPvm': self.delete,
            '@llvm.umul.with.overflow.i64': self.umul, '@llvm.uadd.with.overflow.i64': self.uadd,
            '@_ZNSt6chrono3_V212steady_clock3nowEv': self.now,
            '@_ZSt28__throw_bad_array_new_lengthv': self.noret, '@_ZSt20__throw_length_errorPKc': self.noret, '@_ZSt17__throw_bad_allocv': self.noret,
        }
        self.pats = [
            (re.compile(r'@llvm\.memcpy\.'), self.memcpy), (re.compile(r'@llvm\.memmove\.'), self.memcpy),
            (re.compile(r'@llvm\.memset\.'), self.memset), (re.compile(r'@memset$'), self.memset), (re.compile(r'@mem(cpy|move)$'), self.memcpy),
            (re.compile(r'@llvm\.dbg\.|@llvm\.lifetime|@llvm\.assume|@llvm\.stack'), lambda st, a, i: (st, None)),
            (re.compile(r'@_ZNSt6vectorIP\w+SaIS\d_EE9push_backE(RKS\d_|OS\d_)$'), self.push_back),
            (re.compile(r'@_ZNSt6vectorIP\w+SaIS\d_EE6resizeEm$'), self.vresize),
            (re.compile(r'@_ZNSt6vectorIP\w+SaIS\d_EE8pop_backEv$'), self.pop_back),
            (re.compile(r'@llvm\.(smax|smin|umax|umin)\.i'), self.iminmax),
            (re.compile(r'@llvm\.abs\.i'), lambda st, a, i: (st, ite(lt(a[0], I(0)), neg(a[0]), a[0]))),
        ]
        self.cache = {}

    def find(self, name):
        if name in self.cache:
            return self.cache[name]
        h = self.tab.get(name)
        if h is None:
            for p, f in self.pats:
                if p.match(name):
                    h = f
                    break
        self.cache[name] = h
        return h

    def fn1(self, nm):
        def h(st, a, i):
            self.used.add('sin, cos, sqrt, fabs, fmin, fmax')
            return st, T.fn1(nm, a[0])
        return h

    def abs_(self, st, a, i):
        return st, T.fabs(a[0])

    def hypot(self, st, a, i):
        return st, T.fn1('sqrt', add(mul(a[0], a[0]), mul(a[1], a[1])))

    def fmax_(self, st, a, i):
        return st, T.fmax(a[0], a[1])

    def fmin_(self, st, a, i):
        return st, T.fmin(a[0], a[1])

    def iminmax(self, st, a, i):
        mx = 'max' in i.text
        c = lt(a[0], a[1])
        return st, (ite(c, a[1], a[0]) if mx else ite(c, a[0], a[1]))

    def assert_fail(self, st, a, i):
        # reached only if an assertion of the code under test fails
        self.stops(st, 'assertion holds', i)
        return None, None

    def abort(self, st, a, i):
        self.stops(st, 'abort is unreachable', i)
        return None, None

    def stops(self, st, what, i):
        if self.c.aborts is not None:
            st = st.copy()
            st.assume(self.c.aborts(st))
        self.c.oblige(st, FALSE, what, i)

    def noret(self, st, a, i):
        return None, None

    def umul(self, st, a, i):
        return st, [mul(a[0], a[1]), FALSE]

    def uadd(self, st, a, i):
        return st, [add(a[0], a[1]), FALSE]

    def now(self, st, a, i):
        self.used.add('std::chrono::steady_clock::now')
        return st, self.c.fresh('now', 'I')

    # ------------------------------------------------------------------ heap
    def new(self, st, a, i):
        self.used.add('operator new / operator delete')
        n = a[0]
        k = T.const_int(n)
        reg = Region('heap', 'array', n, origin='heap')
        if self.c.loopvars:
            reg.loopdepth = len(self.c.loopvars)
        reg.name = 'heap(%s:%s)' % (demangle(i.fn.name), self.c.dbg.line(i))
        return st, Ptr(reg, I(0))

    def delete(self, st, a, i):
        p = a[0]
        for c, q in self.m._alts(p):
            if q is NULL:
                continue
            if not isinstance(q, Ptr):
                self.c.oblige(st, bnot(c), 'delete of a valid pointer (%r)' % (q,), i)
                continue
            g = band(c, eq(q.off, I(0))) if q.off is not I(0) else c
            if q.off is not I(0):
                self.c.oblige(st, implies(c, eq(q.off, I(0))), 'delete of the start of an object', i)
            if q.reg.origin not in ('heap',):
                self.c.oblige(st, bnot(c), 'delete of a heap object (%s)' % q.reg.name, i)
                continue
            f = st.freed.get(q.reg, FALSE)
            self.c.oblige(st, implies(c, bnot(f)), 'no double delete of %s' % q.reg.name, i)
            st.freed[q.reg] = bor(f, c)
        return st, None

    def alloc_array(self, st, name, n, ekind, init=None):
        es = KSIZE[ekind]
        reg = Region(name, 'array', scale_i(n, es), ekind, init=init, origin='heap')
        return Ptr(reg, I(0))

    # ---------------------------------------------------------------- memory
    def memset(self, st, a, i):
        self.used.add('memcpy / memset / memmove')
        p, byte, ln = a[0], a[1], a[2]
        b = T.const_int(byte)
        if b is None:
            raise Unsupported('memset with symbolic byte')
        b &= 0xff
        if ln is I(0) or (T.const_int(ln) == 0):
            return st, None
        hy = st.hyps()
        if p is NULL:
            self.c.oblige(st, eq(ln, I(0)), 'memset on null only with length 0', i)
            return st, None
        for c, q in self.m._alts(p):
            if q is NULL:
                self.c.oblige(st, implies(c, eq(ln, I(0))), 'memset on null only with length 0', i)
                continue
            if not isinstance(q, Ptr):
                self.c.oblige(st, bnot(c), 'memset on a valid pointer', i)
                continue
            self.rangecheck(st, q, ln, c, i, 'memset')
            reg = q.reg
            if reg.mode == 'struct' and reg.nkeys == 0:
                o, n = T.const_int(q.off), T.const_int(ln)
                if o is None or n is None or c is not TRUE:
                    raise Unsupported('symbolic memset on object')
                for k in [k for k in st.mem if k[0] is reg and o <= k[1] < o + n]:
                    del st.mem[k]
                st.fill[reg] = ((o, o + n, b),) + st.fill.get(reg, ())
            elif reg.mode == 'array':
                ch = self.m.chain(st, reg, 'a')
                st.mem[(reg, 'a')] = ch.push(U(q.key, q.off, c, None, b, 'fill', (), ln))
            else:
                raise Unsupported('memset on family')
        return st, None

    def rangecheck(self, st, q, ln, c, i, what):
        f = st.freed.get(q.reg)
        if f is not None:
            self.c.oblige(st, implies(c, bnot(f)), '%s: object %s is alive' % (what, q.reg.name), i)
        self.c.oblige(st, implies(c, ge(ln, I(0))), '%s length is non-negative' % what, i)
        if q.reg.size is not None:
            self.c.oblige(st, implies(band(c, gt(ln, I(0))), band(ge(q.off, I(0)), le(add(q.off, ln), q.reg.size))), '%s within bounds of %s' % (what, q.reg.name), i)

    def memcpy(self, st, a, i):
        self.used.add('memcpy / memset / memmove')
        d, s, ln = a[0], a[1], a[2]
        if T.const_int(ln) == 0:
            return st, None
        da = self.m._alts(d)
        sa = self.m._alts(s)
        for cd, qd in da:
            for cs, qs in sa:
                c = _decide(st.hyps(), band(cd, cs)) if not (cd is TRUE and cs is TRUE) else TRUE
                if c is FALSE:
                    continue
                if not isinstance(qd, Ptr) or not isinstance(qs, Ptr):
                    self.c.oblige(st, implies(c, eq(ln, I(0))), 'memcpy on valid pointers', i)
                    continue
                self.copy1(st, qd, qs, ln, c, i)
        return st, None

    def copy1(self, st, qd, qs, ln, c, i):
        self.rangecheck(st, qd, ln, c, i, 'memcpy destination')
        self.rangecheck(st, qs, ln, c, i, 'memcpy source')
        rd, rs = qd.reg, qs.reg
        n = T.const_int(ln)
        if rd.mode == 'struct' and rd.nkeys == 0 and rs.mode == 'struct' and rs.nkeys == 0 and n is not None and c is TRUE:
            od, os_ = T.const_int(qd.off), T.const_int(qs.off)
            if od is None or os_ is None:
                raise Unsupported('memcpy symbolic offset')
            for k in [k for k in st.mem if k[0] is rd and od <= k[1] < od + n]:
                del st.mem[k]
            cells = [(k[1], e) for k, e in st.mem.items() if k[0] is rs and os_ <= k[1] < os_ + n]
            for o, e in cells:
                st.mem[(rd, od + o - os_)] = e
            fl = tuple((lo - os_ + od, hi - os_ + od, b) for lo, hi, b in st.fill.get(rs, ()))
            if fl:
                st.fill[rd] = fl + st.fill.get(rd, ())
            # cells not yet materialised in the source are copied on demand
            have = {o for o, _ in cells}
            prev_init = rd.init

            M = self.m

            def init(o, kind, key, rs=rs, od=od, os_=os_, n=n, prev=prev_init):
                if od <= o < od + n:
                    return M.initval(rs, o - od + os_, kind)
                if prev is not None:
                    return prev(o, kind, key)
                return M.c.fresh('undef', ksort(kind))
            rd.init = init
            return
        if rd.mode == 'array' and rs.mode == 'array':
            kind = rd.ekind or rs.ekind
            if kind is None:
                raise Unsupported('memcpy between untyped arrays')
            rd.ekind = rd.ekind or kind
            es = KSIZE[kind]
            cnt = exact_div(ln, es)
            if cnt is None:
                raise Unsupported('memcpy length not a multiple of the element size')
            t = self.c.bound('mc')
            sch = self.m.chain(st, rs, 'a')
            st2 = st.copy()
            st2.pc = st2.pc + (le(I(0), t), lt(t, cnt))
            k = T.const_int(cnt)
            if k is not None and k <= 16:
                vals = [read_chain(self.c, st, sch, qs.key, add(qs.off, I(es * x)), kind, es) for x in range(k)]
                ch = self.m.chain(st, rd, 'a')
                for x, v in enumerate(vals):
                    ch = ch.push(U(qd.key, add(qd.off, I(es * x)), c, kind, v))
                st.mem[(rd, 'a')] = ch
                return
            v = read_chain(self.c, st2, sch, qs.key, add(qs.off, scale_i(t, es)), kind, es)
            ch = self.m.chain(st, rd, 'a')
            st.mem[(rd, 'a')] = ch.push(U(qd.key, add(qd.off, scale_i(t, es)), c, kind, v, 'set', ((t, I(0), cnt),)))
            return
        if n is not None and n <= 128:
            # mixed object/array copy: by 8-byte cells of known kind
            for x in range(0, n, 8):
                kind = None
                for cand in ((rd.ekind if rd.mode == 'array' else None), (rs.ekind if rs.mode == 'array' else None)):
                    kind = kind or cand
                if kind is None:
                    e = st.mem.get((rs, (T.const_int(qs.off) or 0) + x))
                    kind = e[0] if isinstance(e, tuple) else 'R'
                v = self.m.load1(st, Ptr(rs, add(qs.off, I(x)), qs.key), kind)
                self.m.store1(st, Ptr(rd, add(qd.off, I(x)), qd.key), kind, v, c)
            return
        raise Unsupported('memcpy between %r and %r' % (rd, rs))

    # ---------------------------------------------------------- std::vector
    def vec(self, st, p):
        b = self.m.load(st, p, 'P')
        e = self.m.load(st, self.m.padd(p, I(8)), 'P')
        return b, e

    def push_back(self, st, a, i):
        self.used.add('std::vector<T*>::push_back, resize')
        p, vp = a
        b, e = self.vec(st, p)
        v = self.m.load(st, vp, 'P', i)
        if b is NULL:
            n = I(0)
        elif isinstance(b, Ptr) and isinstance(e, Ptr) and b.reg is e.reg:
            n = exact_div(sub(e.off, b.off), 8)
        else:
            raise Unsupported('vector in an unknown state')
        old = b

        def init(key, idx, old=old, ch=None):
            return UndefP('vector slack')
        reg = Region('vector', 'array', scale_i(add(n, I(1)), 8), 'P', origin='heap', init=init)
        # contents: copy of the old one, then the new element
        ch = Chain(self.m._array_base(reg))
        if isinstance(old, Ptr):
            och = self.m.chain(st, old.reg, 'a')
            k = T.const_int(n)
            if k is not None and k <= 16:
                for x in range(k):
                    ch = ch.push(U((), I(8 * x), TRUE, 'P', read_chain(self.c, st, och, old.key, add(old.off, I(8 * x)), 'P', 8)))
            else:
                t = self.c.bound('vc')
                st2 = st.copy()
                st2.pc = st2.pc + (le(I(0), t), lt(t, n))
                ch = ch.push(U((), scale_i(t, 8), TRUE, 'P', read_chain(self.c, st2, och, old.key, add(old.off, scale_i(t, 8)), 'P', 8), 'set', ((t, I(0), n),)))
        ch = ch.push(U((), scale_i(n, 8), TRUE, 'P', v))
        st.mem[(reg, 'a')] = ch
        self.m.store(st, p, 'P', Ptr(reg, I(0)))
        self.m.store(st, self.m.padd(p, I(8)), 'P', Ptr(reg, scale_i(add(n, I(1)), 8)))
        self.m.store(st, self.m.padd(p, I(16)), 'P', Ptr(reg, scale_i(add(n, I(1)), 8)))
        return st, None

    def vresize(self, st, a, i):
        """resize to a size that is not larger"""
        self.used.add('std::vector<T*>::push_back, resize')
        p, n = a
        b, e = self.vec(st, p)
        if not isinstance(b, Ptr):
            if T.const_int(n) == 0:
                return st, None
            raise Unsupported('resize of an empty vector')
        cur = exact_div(sub(e.off, b.off), 8)
        if not quick(st.hyps(), band(le(n, cur), ge(n, I(0)))):
            raise Unsupported('vector::resize that may grow')
        self.m.store(st, self.m.padd(p, I(8)), 'P', Ptr(b.reg, add(b.off, scale_i(n, 8)), b.key))
        return st, None

    def pop_back(self, st, a, i):
        p = a[0]
        b, e = self.vec(st, p)
        self.c.oblige(st, lt(b.off, e.off) if isinstance(b, Ptr) else FALSE, 'pop_back on a non-empty vector', i)
        self.m.store(st, self.m.padd(p, I(8)), 'P', Ptr(e.reg, sub(e.off, I(8)), e.key))
        return st, None
