"""Specification environment: builds the arbitrary pre-state of a function under contract, runs
the function, and states its postcondition."""
from .terms import *
from . import smt
from .smt import quick
from .sym import *
from . import terms as T
from .exe import Exec

PFX = '@_ZN7atg_scs'


class Spec(Exception):
    pass


class NoReturn(Exception):
    pass


class World:
    def __init__(self, mod, dbg, name, virt=None, contracts=None):
        self.mod, self.dbg, self.name = mod, dbg, name
        self.c = Ctx(mod, dbg, contracts or {})
        self.c.virt = dict(virt or {})
        self.ex = Exec(self.c)
        self.st = State()
        self.pre = None
        self.ensures = []
        self.objs = []

    # ---------------------------------------------------------------- names
    def fn(self, pat):
        """mangled name of the unique function whose readable name is pat (Class::method[/nargs])"""
        nargs = None
        if '/' in pat:
            pat, nargs = pat.split('/')
        out = []
        for n, f in self.mod.funcs.items():
            if 'atg_scs' in n and not f.decl and demangle(n) == pat:
                if n.endswith('D0Ev'):
                    continue
                if nargs is None or len(f.params) == int(nargs):
                    out.append(n)
        if len(out) != 1:
            raise Spec('function %s: %d candidates %s' % (pat, len(out), out))
        return out[0]

    def off(self, cls, path):
        f = self.dbg.fields(cls)
        if path not in f:
            raise Spec('no field %s in %s' % (path, cls))
        return f[path]

    def var(self, name, sort='I'):
        return T.var(name, sort)

    def assume(self, *fs):
        self.st.assume(*fs)

    # -------------------------------------------------------------- objects
    def obj(self, name, cls, ov=None, nkeys=0, origin='ext', size=None):
        """object of class cls with arbitrary contents, except for the overrides {path: value or f(key)}"""
        fields = self.dbg.fields(cls)
        if not fields:
            raise Spec('no class %s' % cls)
        byoff = {}
        for p, o in fields.items():
            if o not in byoff or len(p) > len(byoff[o]):
                byoff[o] = p
        offs = sorted(byoff)
        ovo = {}
        for p, v in (ov or {}).items():
            if '+' in p:
                q, x = p.split('+')
                ovo[fields[q] + int(x)] = v
            elif p in fields:
                ovo[fields[p]] = v
            else:
                raise Spec('no field %s in %s' % (p, cls))

        def pathof(o):
            b = max([x for x in offs if x <= o], default=0)
            p = byoff.get(b, '?')
            return p if b == o else '%s+%d' % (p, o - b)

        def init(o, kind, key):
            if o in ovo:
                v = ovo[o]
                return v(*key) if callable(v) else v
            s = ksort(kind)
            nm = '%s.%s' % (name, pathof(o))
            if s == 'P':
                return UndefP(nm)
            return T.app(nm, key, s)
        if size is None:
            size = self.sizeof(cls)
        r = Region(name, 'struct', I(size) if size else None, nkeys=nkeys, init=init, origin=origin)
        r.cls = cls
        r.uname = name
        self.objs.append(r)
        return r

    def sizeof(self, cls):
        n = self.dbg.size(cls)
        if n:
            return n
        raise Spec('no size of %s' % cls)

    def array(self, name, n, kind, init=None, origin='heap', fn=None):
        """pointer to an array of n elements"""
        es = KSIZE[kind]
        if init is None:
            nm = fn or name
            init = lambda key, idx: T.app(nm, tuple(key) + (idx,), ksort(kind))
        r = Region(name, 'array', scale_i(n, es), kind, init=init, origin=origin)
        r.uname = name
        self.objs.append(r)
        return Ptr(r, I(0))

    # --------------------------------------------------------------- access
    def get(self, st, p, cls, path, kind='R'):
        o = path if isinstance(path, int) else self.off(cls, path)
        if isinstance(p, Region):
            p = Ptr(p, I(0))
        self.c.suppress += 1
        try:
            return self.ex.load(st.copy(), self.ex.padd(p, I(o)), kind)
        finally:
            self.c.suppress -= 1

    def at(self, st, p, i, kind='R', assume=()):
        """element i of the array p points to"""
        s = st.copy()
        s.pc = s.pc + tuple(assume)
        self.c.suppress += 1
        try:
            return self.ex.load(s, self.ex.padd(p, scale_i(i if isinstance(i, T.T) else I(i), KSIZE[kind])), kind)
        finally:
            self.c.suppress -= 1

    def put(self, st, p, cls, path, kind, v):
        if isinstance(p, Region):
            p = Ptr(p, I(0))
        self.ex.store1(st, self.ex.padd(p, I(self.off(cls, path))), kind, v)

    # ------------------------------------------------------------------ run
    def run(self, fname, args):
        """execute the function; self.post is the state at its return"""
        self.c.top = fname
        self.pre = self.st.copy()
        self.st0 = self.st
        m, r = self.ex.call_function(fname, args, self.st.copy())
        self.post, self.ret = m, r
        if m is None:
            # no path of the function reaches its return
            o = Obl('the function returns', self.pre.hyps(), FALSE, self.name, 'post')
            o.tag = None
            self.c.obls.append(o)
            raise NoReturn(self.name)
        return m, r

    def ensure(self, name, goal, assume=(), st=None, tag=None):
        st = st or self.post
        hy = st.hyps() + [a for a in assume]
        o = Obl(name, hy, goal, self.name, 'post')
        o.tag = tag
        self.c.obls.append(o)

    def ensure_val(self, name, v, spec, assume=(), st=None, tag=None):
        if is_ptr(v) or is_ptr(spec):
            if same(v, spec):
                g = TRUE
            else:
                g = self.ex.pcmp(st or self.post, 'eq', v, spec)
        else:
            g = eq(v, spec)
        self.ensure(name, g, assume, st, tag)

    # ---------------------------------------------------------------- frame
    def frame(self, allowed=(), st=None, tag=None):
        """every location of an object that existed at entry keeps its value, except the allowed
        ones: Region (whole object) or (Region, slot)"""
        st = st or self.post
        al = set()
        for a in allowed:
            al.add(a)
        for (reg, slot), e in list(st.mem.items()):
            if reg.origin in ('alloca', 'global') or reg not in self.objs:
                continue
            if reg in al or (reg, slot) in al:
                continue
            o = self.pre.mem.get((reg, slot))
            if o is e:
                continue
            nm = 'frame: %s%s is unchanged' % (reg.name, '' if slot == 'a' else '.' + self.slotname(reg, slot))
            if isinstance(e, Chain):
                nu = len(o.ups) if o is not None else 0
                if len(e.ups) == nu and (o is None or samebase(o.base, e.base)) and (o is not None or e.base is (reg.cache.get('base') or reg.cache.get(('kb', slot)))):
                    self.ensure(nm, TRUE, tag=tag)
                    continue
                # arbitrary element
                key = tuple(T.var('fk%d' % i, 'I') for i in range(reg.nkeys))
                if reg.mode == 'array':
                    es = KSIZE[reg.ekind]
                    x = T.var('fi', 'I')
                    offt = scale_i(x, es)
                    kind = reg.ekind
                    ass = [ge(x, I(0))] + ([lt(offt, reg.size)] if reg.size is not None else [])
                else:
                    offt, kind, ass = I(slot), None, []
                    for u in e.ups:
                        kind = u.kind
                    ass = []
                s2 = st.copy()
                s2.pc = s2.pc + tuple(ass)
                s1 = self.pre.copy()
                s1.pc = s1.pc + tuple(ass)
                es2 = KSIZE[kind] if reg.mode == 'array' else None
                try:
                    v = read_chain(self.c, s2, e, key, offt, kind, es2)
                    och = o if o is not None else Chain(e.base if not isinstance(e.base, (HBase, MBase)) else self.base0(reg, slot))
                    w = read_chain(self.c, s1, och, key, offt, kind, es2)
                except Unsupported as x:
                    self.ensure(nm + ' (%s)' % x, FALSE, tag=tag)
                    continue
                self.ensure_val(nm, v, w, ass, tag=tag)
            else:
                w = o[1] if o is not None else self.ex._missing(self.pre, reg, slot, e[0])
                if isinstance(e[1], UndefP) and isinstance(w, UndefP) and e[1].why == w.why:
                    continue
                self.ensure_val(nm, e[1], w, tag=tag)
        for reg, f in st.freed.items():
            if reg in self.objs and reg not in al:
                self.ensure('frame: %s is not freed' % reg.name, bnot(f), tag=tag)

    def base0(self, reg, slot):
        return self.ex._array_base(reg) if reg.mode == 'array' else self.ex._keyed_base(reg, slot)

    def slotname(self, reg, slot):
        cls = getattr(reg, 'cls', None)
        if cls:
            for p, o in self.dbg.fields(cls).items():
                if o == slot:
                    return p
        return '+%s' % slot

    # ------------------------------------------------------------ state obj
    ST_BODY = ['a_theta', 'v_theta', 'theta', 'a_x', 'a_y', 'v_x', 'v_y', 'p_x', 'p_y', 'f_x', 'f_y', 't', 'm']
    ST_CON = ['r_x', 'r_y', 'r_t']

    def sysstate(self, name='st', n=None, nc=None, prefix='', into=None, ccount=2, imap=None):
        """SystemState with n bodies and nc constraint rows: pairwise disjoint arrays.
        into: overrides dict of an enclosing object (fields prefixed)"""
        n = n if n is not None else T.var(name + '.n', 'I')
        nc = nc if nc is not None else T.var(name + '.n_c', 'I')
        self.assume(ge(n, I(0)), ge(nc, I(0)))
        ov = {}
        for f in self.ST_BODY:
            ov[prefix + f] = self.array('%s.%s' % (name, f), n, 'R')
        for f in self.ST_CON:
            ov[prefix + f] = self.array('%s.%s' % (name, f), scale_i(nc, ccount), 'R')
        ov[prefix + 'indexMap'] = self.array('%s.indexMap' % name, nc, 'I32', **({'init': imap} if imap else {}))
        ov[prefix + 'n'] = n
        ov[prefix + 'n_c'] = nc
        ov[prefix + 'dt'] = T.var(name + '.dt', 'R')
        if into is not None:
            into.update(ov)
            return ov
        return self.obj(name, 'SystemState', ov)
