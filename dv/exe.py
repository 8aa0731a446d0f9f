"""Control flow, calls, library models."""
from .terms import *
from . import smt
from .smt import quick
from .sym import *
from . import terms as T
from .sym import _decide


def common_prefix(a, b):
    n = 0
    for x, y in zip(a, b):
        if x is not y:
            break
        n += 1
    return n


class Exec(Machine):
    def __init__(self, ctx):
        super().__init__(ctx)
        from . import libmodels
        self.lib = libmodels.Lib(self)
        from . import loops
        self.loops = loops

    # --------------------------------------------------------------- merge
    def merge(self, states):
        states = [s for s in states if s is not None]
        if not states:
            return None
        # merge most similar first: those with the longest common pc
        while len(states) > 1:
            best = None
            for i in range(len(states)):
                for j in range(i + 1, len(states)):
                    n = common_prefix(states[i].pc, states[j].pc)
                    if best is None or n > best[0]:
                        best = (n, i, j)
            _, i, j = best
            m = self.merge2(states[i], states[j])
            states = [s for k, s in enumerate(states) if k not in (i, j)] + [m]
        return states[0]

    def merge2(self, a, b):
        n = common_prefix(a.pc, b.pc)
        da, db = a.pc[n:], b.pc[n:]
        ca, cb = band(*da), band(*db)
        # conditions are mutually exclusive
        if len(da) == 0:
            cond = bnot(cb)
        elif len(db) == 0:
            cond = ca
        else:
            # prefer a distinguishing literal
            cond = None
            for x in da:
                if bnot(x) in db:
                    cond = x
                    break
            if cond is None:
                cond = ca if len(da) <= len(db) else bnot(cb)
        s = State()
        rest = bor(ca, cb)
        s.pc = a.pc[:n] + (tuple(rest.args) if rest.op == 'and' else (rest,) if rest is not TRUE else ())
        nf = common_prefix(a.facts, b.facts)
        fs = list(a.facts[:nf])
        bset = set(b.facts)
        aset = set(a.facts)
        for f in a.facts[nf:]:
            fs.append(f if f in bset else guardfact(ca, f))
        for f in b.facts[nf:]:
            if f not in aset:
                fs.append(guardfact(cb, f))
        seen = set()
        out = []
        for f in fs:
            if f is not TRUE and f not in seen:
                seen.add(f)
                out.append(f)
        s.facts = tuple(out)
        # memory
        keys = set(a.mem) | set(b.mem)
        for k in keys:
            x, y = a.mem.get(k), b.mem.get(k)
            if x is y:
                s.mem[k] = x
                continue
            reg, slot = k
            if x is None or y is None:
                # touched (or created) on one side only
                if isinstance(x if x is not None else y, Chain):
                    if x is None:
                        x = self.chain(a.copy(), reg, slot)
                    else:
                        y = self.chain(b.copy(), reg, slot)
                else:
                    kind = (x if x is not None else y)[0]
                    if x is None:
                        x = (kind, self._missing(a, reg, slot, kind))
                    else:
                        y = (kind, self._missing(b, reg, slot, kind))
            if isinstance(x, Chain):
                s.mem[k] = self.merge_chain(x, y, ca, cb, cond)
            else:
                if x[0] != y[0]:
                    try:
                        y = (x[0], convert_kind(self.c, y[1], y[0], x[0]))
                    except Unsupported:
                        continue
                s.mem[k] = (x[0], vite(cond, x[1], y[1]))
        for r in set(a.fill) | set(b.fill):
            x, y = a.fill.get(r, ()), b.fill.get(r, ())
            if x == y:
                s.fill[r] = x
            else:
                raise Unsupported('merge of memset state')
        for r in set(a.freed) | set(b.freed):
            s.freed[r] = ite(cond, a.freed.get(r, FALSE), b.freed.get(r, FALSE))
        for r in set(a.regs) & set(b.regs):
            x, y = a.regs[r], b.regs[r]
            if x is y:
                s.regs[r] = x
            else:
                try:
                    s.regs[r] = vite(cond, x, y)
                except Unsupported:
                    pass
        for r in set(a.regs) ^ set(b.regs):
            s.regs[r] = a.regs.get(r) if r in a.regs else b.regs.get(r)
        if a.ret is not None or b.ret is not None:
            s.ret = vite(cond, a.ret, b.ret)
        return s

    def _missing(self, st, reg, o, kind):
        for lo, hi, b in st.fill.get(reg, ()):
            if lo <= o and o + KSIZE[kind] <= hi:
                v = fillval(b, kind)
                if v is not None:
                    return v
        return self.initval(reg, o, kind)

    def merge_chain(self, x, y, ca, cb, cond):
        if not samebase(x.base, y.base):
            return Chain(MBase(self.c, x, y, cond))
        n = 0
        for u, v in zip(x.ups, y.ups):
            if not u.same(v):
                break
            n += 1
        ups = list(x.ups[:n])
        ex, ey = x.ups[n:], y.ups[n:]
        gx, gy = cond, bnot(cond)
        if len(ex) == len(ey) and len(ex) == 1 and ex[0].off is ey[0].off and ex[0].key == ey[0].key and not ex[0].bvs and not ey[0].bvs \
                and ex[0].mode == ey[0].mode == 'set' and ex[0].guard is TRUE and ey[0].guard is TRUE and ex[0].kind == ey[0].kind:
            ups.append(ex[0].clone(val=vite(cond, ex[0].val, ey[0].val)))
            return Chain(x.base, ups)
        for u in ex:
            ups.append(u.clone(guard=band(gx, u.guard)))
        for u in ey:
            ups.append(u.clone(guard=band(gy, u.guard)))
        return Chain(x.base, ups)

    # ------------------------------------------------------------ functions
    def call_function(self, name, args, st, ins=None):
        """execute the body of a function; returns (state, value) or (None, None) if it never returns"""
        f = self.mod.funcs[name]
        f.cfg()
        if f.irreducible:
            raise Unsupported('irreducible control flow in ' + demangle(name))
        if self.c.depth > 40:
            raise Unsupported('recursion')
        self.c.depth += 1
        if name not in self.c.entered:
            self.c.entered.append(name)
        try:
            saved = st.regs
            s = st.copy()
            s.regs = {}
            for (t, n), a in zip(f.params, args):
                s.regs[n] = a
            s.ret = None
            marks = set(s.mem)
            locals_ = []
            self._locals = getattr(self, '_locals', [])
            self._locals.append(locals_)
            edges = self.exec_region(f, set(f.rpo), f.order[0], [(s, None)])
            self._locals.pop()
            outs = edges.get('ret', [])
            m = self.merge([x for x, _ in outs])
            if m is None:
                return None, None
            r = m.ret
            m.regs = saved
            m.ret = None
            lr = set(locals_)
            if lr:
                for k in [k for k in m.mem if k[0] in lr]:
                    del m.mem[k]
            return m, r
        finally:
            self.c.depth -= 1

    def exec_region(self, f, blocks, entry, incoming, back=None):
        """incoming: [(state, pred label)] at entry.  back: header label whose re-entry edges are
        collected under key 'latch'.  returns {label|'ret'|'latch': [(state, pred)]}"""
        pend = {entry: list(incoming)}
        out = {}
        order = [l for l in f.rpo if l in blocks]
        # entry first
        if order[0] != entry:
            order = [entry] + [l for l in order if l != entry]
        for l in order:
            inc = pend.pop(l, None)
            if not inc:
                continue
            if l in f.loops and not (back == l):
                st = self.enter(f, l, inc)
                if st is None:
                    continue
                lb = f.loops[l]
                exits = self.loops.run_loop(self, f, l, lb, st)
                for tgt, sts in exits.items():
                    if tgt == 'ret':
                        out.setdefault('ret', []).extend(sts)
                    elif tgt in blocks:
                        pend.setdefault(tgt, []).extend(sts)
                    else:
                        out.setdefault(tgt, []).extend(sts)
                continue
            st = self.enter(f, l, inc)
            if st is None:
                continue
            try:
                edges = self.exec_block(f, l, st)
            except Infeasible:
                continue
            for tgt, s in edges:
                if tgt == 'ret':
                    out.setdefault('ret', []).append((s, l))
                elif back is not None and tgt == back:
                    out.setdefault('latch', []).append((s, l))
                elif tgt in blocks:
                    pend.setdefault(tgt, []).append((s, l))
                else:
                    out.setdefault(tgt, []).append((s, l))
        return out

    def enter(self, f, l, inc):
        """merge incoming states at block l, resolving phis"""
        phis = [i for i in f.blocks[l] if i.op == 'phi']
        sts = []
        for s, pred in inc:
            if s is None:
                continue
            s = s.copy()
            if phis and pred is not None:
                vals = {}
                for i in phis:
                    for v, lab in i.a['inc']:
                        if lab == pred or (lab.strip('%"').isdigit() and pred == '%entry!'):
                            vals[i.dst] = self.val(s, i.a['ty'], v)
                            break
                s.regs.update(vals)
            sts.append(s)
        return self.merge(sts)

    def exec_block(self, f, l, st):
        for i in f.blocks[l]:
            self.c.steps += 1
            if self.c.steps > self.c.maxsteps:
                raise Unsupported('step limit')
            op = i.op
            a = i.a
            if op == 'phi':
                if i.dst not in st.regs:
                    raise Unsupported('phi')
                continue
            if op == 'br':
                if a.get('c') is None:
                    return [(a['t'], st)]
                c = self.val(st, ('i', 1), a['c'])
                return self.fork(st, c, a['t'], a['f'])
            if op == 'switch':
                x = self.val(st, a['ty'], a['x'])
                edges = []
                rest = st
                for v, lab in a['cases']:
                    k = self.val(st, a['ty'], v)
                    c = eq(x, k) if a['ty'] != ('i', 1) else iff(x, k)
                    es = self.fork(rest, c, lab, None)
                    rest = None
                    for tgt, s in es:
                        if tgt is None:
                            rest = s
                        else:
                            edges.append((tgt, s))
                    if rest is None:
                        break
                if rest is not None:
                    edges.append((a['d'], rest))
                return edges
            if op == 'ret':
                st.ret = None if a['v'] is None else self.val(st, a['ty'], a['v'])
                return [('ret', st)]
            if op == 'unreachable':
                return []
            if op == 'invoke':
                st = self.do_call(st, i)
                if st is None:
                    return []
                return [(a['normal'], st)]
            if op == 'call':
                st = self.do_call(st, i)
                if st is None:
                    return []
                continue
            self.simple(st, i)
        raise Unsupported('block without terminator')

    def fork(self, st, c, t, f):
        hy = None
        if c is TRUE:
            return [(t, st)]
        if c is FALSE:
            return [(f, st)]
        n = bnot(c)
        if c in st.pc or c in st.facts:
            return [(t, st)]
        if n in st.pc or n in st.facts:
            return [(f, st)]
        if smt.is_int_fact(c):
            hy = st.hyps()
            if quick(hy, c):
                return [(t, st)]
            if quick(hy, n):
                return [(f, st)]
        a, b = st.copy(), st
        b = st.copy()
        a.pc = a.pc + (tuple(c.args) if c.op == 'and' else (c,))
        b.pc = b.pc + (tuple(n.args) if n.op == 'and' else (n,))
        return [(t, a), (f, b)]

    def simple(self, st, i):
        a = i.a
        op = i.op
        from .ir import BIN, CAST
        if op in BIN:
            x = self.val(st, a['ty'], a['x'])
            y = self.val(st, a['ty'], a['y'])
            a_fl = a.get('flags')
            st.regs[i.dst] = self.binop(st, op, a['ty'], x, y, i)
        elif op == 'fneg':
            st.regs[i.dst] = neg(self.val(st, a['ty'], a['x']))
        elif op == 'icmp':
            st.regs[i.dst] = self.icmp(st, a['pred'], a['ty'], self.val(st, a['ty'], a['x']), self.val(st, a['ty'], a['y']))
        elif op == 'fcmp':
            st.regs[i.dst] = self.fcmp(a['pred'], self.val(st, a['ty'], a['x']), self.val(st, a['ty'], a['y']))
        elif op in CAST:
            st.regs[i.dst] = self.cast(st, op, a['from'], self.val(st, a['from'], a['x']), a['to'])
        elif op == 'alloca':
            n = self.mod.sizeof(a['ty'])
            reg = Region('local', 'struct', I(n), origin='alloca')
            reg.uname = 'local %s in %s' % (i.dst, demangle(i.fn.name))
            self._locals[-1].append(reg)
            st.regs[i.dst] = Ptr(reg, I(0))
        elif op == 'load':
            ty = self.mod.resolve(a['ty'])
            p = self.val(st, ('ptr',), a['ptr'])
            if ty[0] in ('struct', 'arr'):
                st.regs[i.dst] = self.load_agg(st, p, ty, i)
            else:
                st.regs[i.dst] = self.load(st, p, self.kind(ty), i)
        elif op == 'store':
            ty = self.mod.resolve(a['ty'])
            p = self.val(st, ('ptr',), a['ptr'])
            v = self.val(st, a['ty'], a['v'])
            if ty[0] in ('struct', 'arr'):
                self.store_agg(st, p, ty, v, i)
            else:
                self.store(st, p, self.kind(ty), v, i)
        elif op == 'getelementptr':
            base = self.val(st, a['ops'][0][0], a['ops'][0][1])
            st.regs[i.dst] = self.gep(st, base, a['sty'], a['ops'][1:])
        elif op == 'select':
            c = self.val(st, ('i', 1), a['c'])
            st.regs[i.dst] = vite(c, self.val(st, a['ty'], a['x']), self.val(st, a['ty'], a['y']))
        elif op == 'extractvalue':
            v = self.val(st, a['ty'], a['x'])
            for k in a['idx']:
                v = v[k]
            st.regs[i.dst] = v
        elif op == 'insertvalue':
            v = self.val(st, a['ty'], a['x'])
            x = self.val(st, a['vty'], a['v'])

            def ins(v, ks):
                v = list(v)
                v[ks[0]] = x if len(ks) == 1 else ins(v[ks[0]], ks[1:])
                return v
            st.regs[i.dst] = ins(v, a['idx'])
        elif op == 'freeze':
            st.regs[i.dst] = self.val(st, a['ty'], a['x'])
        else:
            raise Unsupported('instruction ' + i.text[:60])

    def load_agg(self, st, p, ty, ins):
        if ty[0] == 'struct':
            offs = self.mod.layout(ty)[0]
            r = []
            for o, f in zip(offs, ty[1]):
                f = self.mod.resolve(f)
                q = self.padd(p, I(o))
                r.append(self.load_agg(st, q, f, ins) if f[0] in ('struct', 'arr') else self.load(st, q, self.kind(f), ins))
            return r
        s = self.mod.sizeof(ty[2])
        f = self.mod.resolve(ty[2])
        return [self.load_agg(st, self.padd(p, I(s * k)), f, ins) if f[0] in ('struct', 'arr') else self.load(st, self.padd(p, I(s * k)), self.kind(f), ins) for k in range(ty[1])]

    def store_agg(self, st, p, ty, v, ins):
        if ty[0] == 'struct':
            offs = self.mod.layout(ty)[0]
            fs = ty[1]
        else:
            s = self.mod.sizeof(ty[2])
            offs = [s * k for k in range(ty[1])]
            fs = [ty[2]] * ty[1]
        for o, f, x in zip(offs, fs, v):
            f = self.mod.resolve(f)
            q = self.padd(p, I(o))
            if f[0] in ('struct', 'arr'):
                self.store_agg(st, q, f, x, ins)
            else:
                self.store(st, q, self.kind(f), x, ins)

    # ----------------------------------------------------------------- calls
    def do_call(self, st, i):
        a = i.a
        if a.get('meta'):
            return st
        f = self.val(st, ('ptr',), a['f'])
        args = [self.val(st, t, v) for t, v in a['args']]
        if isinstance(f, PIte):
            # dynamic dispatch on a condition
            outs = []
            for c, g in self._alts(f):
                s = st.copy()
                es = self.fork(s, c, 'y', 'n')
                s = dict(es).get('y')
                if s is None:
                    continue
                s, r = self.invoke(s, g, args, i)
                if s is not None:
                    if i.dst:
                        s.regs = dict(s.regs)
                        s.regs[i.dst] = r
                    outs.append(s)
            return self.merge(outs)
        s, r = self.invoke(st, f, args, i)
        if s is None:
            return None
        if i.dst is not None:
            s.regs[i.dst] = r
        return s

    def invoke(self, st, f, args, i):
        if isinstance(f, AbsFn):
            h = self.c.virt.get((f.cls, f.slot))
            if h is None:
                raise Unsupported('virtual call %s/%d without contract' % (f.cls, f.slot))
            self.c.applied.add('virtual %s slot %d' % (f.cls, f.slot))
            return h(self, st, args, i)
        if not isinstance(f, FnPtr):
            self.c.oblige(st, FALSE, 'call through a valid function pointer', i)
            return None, None
        name = self.mod.aliases.get(f.name, f.name)
        h = self.lib.find(name)
        if h is not None:
            return h(st, args, i)
        ct = self.c.contracts.get(name)
        if ct is not None and name != self.c.top:
            r = ct.apply(self, st, args, i)
            if r is not NotImplemented:
                self.c.applied.add(name)
                return r
        fn = self.mod.funcs.get(name)
        if fn is None or fn.decl:
            raise Unsupported('external function ' + demangle(name))
        return self.call_function(name, args, st, i)
