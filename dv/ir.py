"""Parser for the textual LLVM 18 IR that clang -O0 emits for /repo."""
import re

TOK = re.compile(r'''
  (?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<loc>%"[^"]*"|%[-a-zA-Z$._0-9]+)
 |(?P<glob>@"[^"]*"|@[-a-zA-Z$._0-9]+)
 |(?P<md>![-a-zA-Z$._0-9]*)
 |(?P<attr>\#\d+)
 |(?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMH]?[0-9A-Fa-f]+|-?\d+)
 |(?P<id>[a-zA-Z_][-a-zA-Z0-9_.$]*)
 |(?P<dots>\.\.\.)
 |(?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    for m in TOK.finditer(s):
        out.append(m.group(0))
    return out


# ------------------------------------------------------------------- types
# ('i',n) ('double',) ('float',) ('ptr',) ('void',) ('arr',n,T) ('struct',(T..),packed) ('named',name)
class P:
    """token cursor"""
    __slots__ = ('t', 'i', 'mod')

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise SyntaxError('expected %s got %s in %s' % (x, y, ' '.join(self.t)))

    def type(self):
        x = self.next()
        if x == 'ptr':
            r = ('ptr',)
        elif x in ('double', 'float', 'void', 'label', 'metadata', 'x86_fp80', 'half'):
            r = (x,)
        elif re.fullmatch(r'i\d+', x):
            r = ('i', int(x[1:]))
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            r = ('arr', n, e)
        elif x == '<':
            if self.peek() == '{':
                self.next()
                fs = self._fields()
                self.expect('>')
                r = ('struct', fs, True)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                r = ('vec', n, e)
        elif x == '{':
            r = ('struct', self._fields(), False)
        elif x[0] == '%':
            r = ('named', x)
        else:
            raise SyntaxError('type? %s in %s' % (x, ' '.join(self.t)))
        # function types (varargs call): T (args...)
        if self.peek() == '(' and self.mod is not None and self.fn_type_ok:
            pass
        return r

    fn_type_ok = False

    def _fields(self):
        fs = []
        if self.accept('}'):
            return ()
        while True:
            fs.append(self.type())
            if self.accept('}'):
                break
            self.expect(',')
        return tuple(fs)

    PATTR = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'nocapture', 'readonly', 'writeonly',
             'noalias', 'returned', 'readnone', 'immarg', 'nofree', 'allocptr', 'allocalign', 'swiftself',
             'nest', 'mustprogress', 'noreturn', 'inrange', 'dead_on_unwind', 'dead_on_return', 'writable', 'swifterror', 'inalloca', 'preallocated', 'noext'}

    def skip_attrs(self):
        while True:
            x = self.peek()
            if x in self.PATTR:
                self.i += 1
            elif x in ('dereferenceable', 'dereferenceable_or_null', 'align', 'sret', 'byval', 'nofpclass', 'range', 'elementtype', 'captures', 'memory', 'initializes'):
                self.i += 1
                if self.peek() == '(':
                    d = 0
                    while True:
                        y = self.next()
                        if y == '(':
                            d += 1
                        elif y == ')':
                            d -= 1
                            if d == 0:
                                break
                elif x == 'align':
                    self.i += 1
            else:
                return

    # values: ('loc',name) ('int',n) ('fp',float/hexstr) ('null',) ('undef',) ('glob',name) ('cexpr',op,...) ('agg',[(T,v)]) ('zero',) ('cstr',bytes)
    def value(self, ty):
        x = self.next()
        if x[0] == '%':
            return ('loc', x)
        if x[0] == '@':
            return ('glob', x)
        if x == 'true':
            return ('int', 1)
        if x == 'false':
            return ('int', 0)
        if x == 'null':
            return ('null',)
        if x in ('undef', 'poison'):
            return ('undef',)
        if x == 'zeroinitializer':
            return ('zero',)
        if x[0] == 'c' and x[1:2] == '"':
            return ('cstr', x[2:-1])
        if x == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.i += 1
            if self.peek() == 'inrange':
                self.i += 1
                self._skip_paren()
            self.expect('(')
            sty = self.type()
            self.expect(',')
            ops = self._tvlist(')')
            return ('cgep', sty, ops)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'sext', 'zext', 'addrspacecast'):
            self.expect('(')
            t1 = self.type()
            v = self.value(t1)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('ccast', x, t1, v, t2)
        if x in ('add', 'sub', 'mul', 'xor', 'shl'):
            while self.peek() in ('nsw', 'nuw'):
                self.i += 1
            self.expect('(')
            ops = self._tvlist(')')
            return ('cbin', x, ops)
        if x == '{' or x == '[':
            close = '}' if x == '{' else ']'
            if self.accept(close):
                return ('agg', [])
            return ('agg', self._tvlist(close))
        if x == '<':
            if self.peek() == '{':
                self.next()
                r = ('agg', self._tvlist('}'))
                self.expect('>')
                return r
            return ('agg', self._tvlist('>'))
        if re.fullmatch(r'-?\d+', x):
            return ('int', int(x))
        if x.startswith('0x'):
            return ('hex', x)
        if re.fullmatch(r'-?\d+\.\d+(e[+-]?\d+)?', x):
            return ('fp', float(x))
        if x == 'dso_local_equivalent' or x == 'no_cfi':
            return self.value(ty)
        if x in ('blockaddress',):
            raise SyntaxError('blockaddress')
        raise SyntaxError('value? %s in %s' % (x, ' '.join(self.t)))

    def _skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            y = self.next()
            if y == '(':
                d += 1
            elif y == ')':
                d -= 1

    def _tvlist(self, close):
        r = []
        if self.accept(close):
            return r
        while True:
            if self.peek() == 'inrange':
                self.i += 1
            t = self.type()
            self.skip_attrs()
            r.append((t, self.value(t)))
            if self.accept(close):
                return r
            self.expect(',')


class Instr:
    __slots__ = ('op', 'dst', 'a', 'dbg', 'text', 'fn', 'blk', 'idx')

    def __repr__(self):
        return self.text


class Func:
    def __init__(self):
        self.name = None
        self.params = []      # (type, name)
        self.ret = None
        self.blocks = {}      # label -> [Instr]
        self.order = []
        self.decl = False
        self.dbg = None

    def cfg(self):
        if hasattr(self, '_succ'):
            return
        self._succ = {}
        for l in self.order:
            t = self.blocks[l][-1]
            if t.op == 'br':
                s = [t.a['t']] if t.a.get('c') is None else [t.a['t'], t.a['f']]
            elif t.op == 'switch':
                s = [t.a['d']] + [x[1] for x in t.a['cases']]
            elif t.op == 'invoke':
                s = [t.a['normal']]
            else:
                s = []
            u = []
            for x in s:
                if x not in u:
                    u.append(x)
            self._succ[l] = u
        # RPO
        seen = set()
        post = []
        st = [(self.order[0], iter(self._succ[self.order[0]]))]
        seen.add(self.order[0])
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self._succ[s])))
                    break
            else:
                post.append(n)
                st.pop()
        self.rpo = post[::-1]
        num = {l: i for i, l in enumerate(self.rpo)}
        self.preds = {l: [] for l in self.rpo}
        for l in self.rpo:
            for s in self._succ[l]:
                self.preds[s].append(l)
        # dominators (iterative)
        idom = {self.rpo[0]: self.rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in self.preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == idom[b]:
                    return False
                b = idom[b]
        # natural loops
        loops = {}
        self.irreducible = False
        for l in self.rpo:
            for s in self._succ[l]:
                if num[s] <= num[l]:
                    if not dom(s, l):
                        self.irreducible = True
                        continue
                    body = loops.setdefault(s, {s})
                    st = [l]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(self.preds[x])
        self.loops = loops           # header -> set of blocks
        # RPO in which the blocks of a loop are contiguous is not needed: a loop is
        # executed as one node at its header; exits are delivered afterwards.
        self.num = num


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.aliases = {}
        self.md = {}
        self._layout = {}

    # ---- layout
    def sizeof(self, t):
        k = t[0]
        if k == 'i':
            return max(1, (t[1] + 7) // 8)
        if k == 'double' or k == 'ptr':
            return 8
        if k == 'float':
            return 4
        if k == 'x86_fp80':
            return 16
        if k == 'arr':
            return t[1] * self.sizeof(t[2])
        if k == 'vec':
            return t[1] * self.sizeof(t[2])
        if k in ('struct', 'named'):
            return self.layout(t)[1]
        raise ValueError(t)

    def alignof(self, t):
        k = t[0]
        if k == 'i':
            n = self.sizeof(t)
            return n if n in (1, 2, 4, 8, 16) else 8
        if k in ('double', 'ptr'):
            return 8
        if k == 'float':
            return 4
        if k == 'x86_fp80':
            return 16
        if k in ('arr', 'vec'):
            return self.alignof(t[2])
        return self.layout(t)[2]

    def layout(self, t):
        """(offsets, size, align)"""
        r = self._layout.get(t)
        if r:
            return r
        if t[0] == 'named':
            r = self.layout(self.types[t[1]])
        else:
            off = 0
            al = 1
            offs = []
            for f in t[1]:
                a = 1 if t[2] else self.alignof(f)
                al = max(al, a)
                off = (off + a - 1) // a * a
                offs.append(off)
                off += self.sizeof(f)
            off = (off + al - 1) // al * al
            r = (offs, off, al)
        self._layout[t] = r
        return r

    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def flat(self, t, base=0):
        """scalar leaves of a type: [(off, scalar type)]"""
        t = self.resolve(t)
        if t[0] == 'struct':
            offs = self.layout(t)[0]
            r = []
            for o, f in zip(offs, t[1]):
                r += self.flat(f, base + o)
            return r
        if t[0] == 'arr':
            s = self.sizeof(t[2])
            r = []
            for i in range(t[1]):
                r += self.flat(t[2], base + i * s)
            return r
        return [(base, t)]


def parse(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        s = lines[i]
        i += 1
        if not s or s[0] == ';':
            continue
        if s.startswith('%'):
            mm = re.match(r'(%"[^"]*"|%[-\w$.]+) = type (.*)$', s)
            if mm:
                if mm.group(2) == 'opaque':
                    m.types[mm.group(1)] = ('struct', (), False)
                else:
                    m.types[mm.group(1)] = P(tokenize(mm.group(2)), m).type()
            continue
        if s.startswith('@'):
            try:
                _global(m, s)
            except (SyntaxError, IndexError, ValueError, AttributeError):
                pass
            continue
        if s.startswith('!'):
            mm = re.match(r'!(\d+) = (.*)$', s)
            if mm:
                m.md[mm.group(1)] = mm.group(2)
            continue
        if s.startswith('define'):
            body = []
            while lines[i] != '}':
                body.append(lines[i])
                i += 1
            i += 1
            f = _func(m, s, body)
            m.funcs[f.name] = f
            continue
        if s.startswith('declare'):
            f = _func(m, s, None)
            if f is not None:
                m.funcs.setdefault(f.name, f)
            continue
    return m


def _global(m, s):
    mm = re.match(r'(@"[^"]*"|@[-\w$.]+) = (.*)$', s)
    name, rest = mm.groups()
    if ' alias ' in ' ' + rest:
        a = re.search(r'ptr (@"[^"]*"|@[-\w$.]+)', rest)
        m.aliases[name] = a.group(1)
        return
    rest = re.sub(r', (align|comdat|section|!dbg|no_sanitize).*$', '', rest)
    rest = re.sub(r', comdat.*$', '', rest)
    mm = re.search(r'\b(constant|global)\b', rest)
    ext = 'external' in rest[:mm.start()] or 'extern_weak' in rest[:mm.start()]
    toks = tokenize(rest[mm.end():])
    p = P(toks, m)
    try:
        t = p.type()
        v = None if ext or p.peek() is None else p.value(t)
    except SyntaxError:
        t, v = ('i', 8), None
    m.globals[name] = (t, v, mm.group(1) == 'constant')


def _func(m, head, body):
    f = Func()
    mm = re.search(r'(@"[^"]*"|@[-\w$.]+)\s*\(', head)
    f.name = mm.group(1)
    dm = re.search(r'!dbg !(\d+)', head)
    if dm:
        f.dbg = dm.group(1)
    f.internal = ' internal ' in head[:mm.start()]
    toks = tokenize(head[mm.end():])
    p = P(toks, m)
    idx = 0
    try:
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    f.vararg = True
                    p.expect(')')
                    break
                t = p.type()
                p.skip_attrs()
                nm = None
                if p.peek() and p.peek()[0] == '%':
                    nm = p.next()
                else:
                    nm = '%' + str(idx)
                idx += 1
                f.params.append((t, nm))
                if p.accept(')'):
                    break
                p.expect(',')
    except SyntaxError:
        if body is None:
            return None
        body = None                           # its parameters are not understood: treated as an unknown function
    # return type: last type before name
    pre = head[:mm.start()]
    rt = re.search(r'(void|double|float|ptr|i\d+|\{[^}]*\}|%"[^"]*"|%[-\w$.]+|\[\d+ x [^\]]*\])\s*$', pre)
    f.ret = P(tokenize(rt.group(1)), m).type() if rt else ('void',)
    if body is None:
        f.decl = True
        return f
    lab = None
    # unnamed entry label is the next number
    ents = []
    j = 0
    while j < len(body):
        s = body[j]
        j += 1
        t = s.strip()
        if not t or t[0] == ';':
            continue
        lm = re.match(r'^("[^"]*"|[-\w$.]+):', s)
        if lm:
            lab = '%' + lm.group(1)
            f.blocks[lab] = []
            f.order.append(lab)
            continue
        if lab is None:
            lab = '%entry!'
            f.blocks[lab] = []
            f.order.append(lab)
        if t.startswith('switch') and '[' in t and ']' not in t:
            while True:
                u = body[j].strip()
                j += 1
                t += ' ' + u
                if u.startswith(']'):
                    break
        if ' invoke ' in ' ' + t and 'unwind label' not in t:
            t += ' ' + body[j].strip()
            j += 1
        if t.startswith(('call void @llvm.dbg.', 'tail call void @llvm.dbg.', '#dbg')):
            continue
        try:
            ins = _instr(m, t)
        except (SyntaxError, IndexError, ValueError, AttributeError):
            ins = Instr()                     # not understood: running into it is reported as such
            ins.op, ins.dst, ins.a, ins.dbg, ins.text = 'unparsed', None, {}, None, t
        ins.fn = f
        ins.blk = lab
        ins.idx = len(f.blocks[lab])
        f.blocks[lab].append(ins)
    return f


BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint',
        'inttoptr', 'bitcast', 'addrspacecast'}
FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc',
         'disjoint', 'nneg', 'volatile', 'nusw'}


def _instr(m, t):
    ins = Instr()
    ins.text = t
    dm = re.search(r', !dbg !(\d+)', t)
    ins.dbg = dm.group(1) if dm else None
    s = re.sub(r', !.*$', '', t)
    toks = tokenize(s)
    p = P(toks, m)
    ins.dst = None
    if len(toks) > 1 and toks[1] == '=':
        ins.dst = toks[0]
        p.i = 2
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    ins.op = op
    a = ins.a = {}

    def flags():
        fl = []
        while p.peek() in FLAGS:
            fl.append(p.next())
        return fl
    if op in BIN:
        a['flags'] = flags()
        a['ty'] = p.type()
        a['x'] = p.value(a['ty'])
        p.expect(',')
        a['y'] = p.value(a['ty'])
    elif op == 'fneg':
        flags()
        a['ty'] = p.type()
        a['x'] = p.value(a['ty'])
    elif op in ('icmp', 'fcmp'):
        flags()
        a['pred'] = p.next()
        a['ty'] = p.type()
        a['x'] = p.value(a['ty'])
        p.expect(',')
        a['y'] = p.value(a['ty'])
    elif op in CAST:
        flags()
        a['from'] = p.type()
        a['x'] = p.value(a['from'])
        p.expect('to')
        a['to'] = p.type()
    elif op == 'alloca':
        a['ty'] = p.type()
        a['n'] = None
        if p.accept(','):
            if p.peek() != 'align':
                nt = p.type()
                a['n'] = (nt, p.value(nt))
    elif op == 'load':
        flags()
        a['ty'] = p.type()
        p.expect(',')
        pt = p.type()
        a['ptr'] = p.value(pt)
    elif op == 'store':
        flags()
        a['ty'] = p.type()
        a['v'] = p.value(a['ty'])
        p.expect(',')
        pt = p.type()
        a['ptr'] = p.value(pt)
    elif op == 'getelementptr':
        flags()
        a['sty'] = p.type()
        ops = []
        while p.accept(','):
            if p.peek() == 'inrange':
                p.next()
            ty = p.type()
            ops.append((ty, p.value(ty)))
        a['ops'] = ops
    elif op in ('call', 'invoke'):
        while p.peek() in FLAGS or p.peek() in P.PATTR or p.peek() in ('ccc', 'fastcc', 'dereferenceable', 'align', 'range', 'dereferenceable_or_null'):
            if p.peek() in FLAGS or p.peek() in ('ccc', 'fastcc'):
                p.next()
            else:
                p.skip_attrs()
        a['ret'] = p.type()
        if p.peek() == '(' and True:
            # maybe a function type for varargs: T (T, ...) @f(
            save = p.i
            d = 0
            k = p.i
            while True:
                if p.t[k] == '(':
                    d += 1
                elif p.t[k] == ')':
                    d -= 1
                    if d == 0:
                        break
                k += 1
            p.i = k + 1
        a['f'] = p.value(('ptr',))
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                if p.peek() == 'metadata':
                    a['meta'] = True
                    return ins
                ty = p.type()
                p.skip_attrs()
                args.append((ty, p.value(ty)))
                if p.accept(')'):
                    break
                p.expect(',')
        a['args'] = args
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.next()
            p.expect('label')
            a['normal'] = p.next()
            p.expect('unwind')
            p.expect('label')
            a['unwind'] = p.next()
    elif op == 'br':
        ty = p.type() if p.peek() != 'label' else None
        if ty is None:
            p.next()
            a['t'] = p.next()
        else:
            a['c'] = p.value(ty)
            p.expect(',')
            p.expect('label')
            a['t'] = p.next()
            p.expect(',')
            p.expect('label')
            a['f'] = p.next()
    elif op == 'switch':
        a['ty'] = p.type()
        a['x'] = p.value(a['ty'])
        p.expect(',')
        p.expect('label')
        a['d'] = p.next()
        p.expect('[')
        cs = []
        while not p.accept(']'):
            ty = p.type()
            v = p.value(ty)
            p.expect(',')
            p.expect('label')
            cs.append((v, p.next()))
        a['cases'] = cs
    elif op == 'ret':
        ty = p.type()
        a['ty'] = ty
        a['v'] = None if ty == ('void',) else p.value(ty)
    elif op == 'phi':
        flags()
        a['ty'] = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(a['ty'])
            p.expect(',')
            inc.append((v, p.next()))
            p.expect(']')
            if not p.accept(','):
                break
        a['inc'] = inc
    elif op == 'select':
        flags()
        ct = p.type()
        a['c'] = p.value(ct)
        p.expect(',')
        a['ty'] = p.type()
        a['x'] = p.value(a['ty'])
        p.expect(',')
        t2 = p.type()
        a['y'] = p.value(t2)
    elif op == 'extractvalue':
        a['ty'] = p.type()
        a['x'] = p.value(a['ty'])
        a['idx'] = []
        while p.accept(','):
            a['idx'].append(int(p.next()))
    elif op == 'insertvalue':
        a['ty'] = p.type()
        a['x'] = p.value(a['ty'])
        p.expect(',')
        a['vty'] = p.type()
        a['v'] = p.value(a['vty'])
        a['idx'] = []
        while p.accept(','):
            a['idx'].append(int(p.next()))
    elif op in ('unreachable', 'landingpad', 'resume', 'fence', 'freeze', 'cleanup'):
        if op == 'freeze':
            a['ty'] = p.type()
            a['x'] = p.value(a['ty'])
    else:
        a['unsupported'] = True
    return ins


# --------------------------------------------------------------- debug info
class Debug:
    """field offsets by class, from the DWARF metadata in the module"""

    def __init__(self, m):
        self.m = m
        self.cls = {}
        self.ids = {}
        for k, v in m.md.items():
            mm = re.match(r'(?:distinct )?!DICompositeType\(tag: DW_TAG_(?:class|structure)_type, name: "([^"]*)"', v)
            if mm and 'DIFlagFwdDecl' not in v and 'elements:' in v:
                self.ids[k] = mm.group(1)
                self.cls.setdefault(mm.group(1), k)
        self._f = {}

    def _elems(self, k):
        v = self.m.md[k]
        mm = re.search(r'elements: !(\d+)', v)
        if not mm:
            return []
        e = self.m.md[mm.group(1)]
        return re.findall(r'!(\d+)', e)

    def _strip(self, k):
        while True:
            v = self.m.md.get(k, '')
            mm = re.match(r'(?:distinct )?!DIDerivedType\(tag: DW_TAG_(?:const_type|typedef|volatile_type)', v)
            if not mm:
                return k
            b = re.search(r'baseType: !(\d+)', v)
            if not b:
                return k
            k = b.group(1)

    def fields(self, cname):
        """{path: byte offset}; nested class members as a.b, bases flattened"""
        if cname in self._f:
            return self._f[cname]
        k = self.cls.get(cname)
        r = {} if k is None else self._fields_id(k)
        self._f[cname] = r
        return r

    def size(self, cname):
        k = self.cls.get(cname)
        if k is None:
            return None
        mm = re.search(r'size: (\d+)', self.m.md[k])
        return int(mm.group(1)) // 8 if mm else None

    def _fields_id(self, k, depth=0):
        r = {}
        for e in self._elems(k):
            v = self.m.md.get(e, '')
            if not v.startswith('!DIDerivedType(') and not v.startswith('distinct !DIDerivedType('):
                continue
            off = int((re.search(r'offset: (\d+)', v) or [0, '0'])[1]) // 8
            b = re.search(r'baseType: !(\d+)', v)
            bt = self._strip(b.group(1)) if b else None
            if 'DW_TAG_inheritance' in v:
                for kk, o in self._fields_id(bt, depth).items():
                    r[kk] = off + o
            elif 'DW_TAG_member' in v and 'DIFlagStaticMember' not in v:
                nm = re.search(r'name: "([^"]*)"', v)
                if not nm:
                    continue
                r[nm.group(1)] = off
                if bt in self.ids and depth < 3:
                    for kk, o in self._fields_id(bt, depth + 1).items():
                        r[nm.group(1) + '.' + kk] = off + o
        return r

    def line(self, ins):
        k = ins.dbg
        if not k:
            return '?'
        v = self.m.md.get(k, '')
        mm = re.search(r'line: (\d+)', v)
        ln = mm.group(1) if mm else '?'
        return ln

    def where(self, f):
        if not f.dbg:
            return f.name
        v = self.m.md.get(f.dbg, '')
        ln = re.search(r'line: (\d+)', v)
        fm = re.search(r'file: !(\d+)', v)
        fn = ''
        if fm:
            w = self.m.md.get(fm.group(1), '')
            x = re.search(r'filename: "([^"]*)"', w)
            fn = x.group(1) if x else ''
        return '%s:%s' % (fn.replace('/repo/', ''), ln.group(1) if ln else '?')
