"""Parser for the textual LLVM-18 IR that clang emits for the drivers.

Only what clang emits for the drivers is accepted; anything else raises
Unsupported (reported as 'undecided', never as a violation)."""
import re, struct

class Unsupported(Exception):
    pass

TOK = re.compile(r'''
    (?P<cstr>c"(?:[^"\\]|\\.)*")
  | (?P<loc>%"[^"]*"|%[-\w.$]+)
  | (?P<glob>@"[^"]*"|@[-\w.$]+)
  | (?P<com>\$"[^"]*"|\$[-\w.$]+)
  | (?P<meta>!(?:"[^"]*"|[-\w.]+)?)
  | (?P<str>"[^"]*")
  | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
  | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+)
  | (?P<word>[A-Za-z_][\w.]*)
  | (?P<dots>\.\.\.)
  | (?P<p>[\[\]{}()<>,=*\#:|])
  | (?P<ws>\s+)
''', re.X)

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise Unsupported('token at: ' + s[i:i+40])
        i = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        out.append((k, m.group()))
    return out

# ---- types -----------------------------------------------------------------
class Ty:
    __slots__ = ('k', 'a', '_sz', '_al')
    def __init__(self, k, a=None):
        self.k = k; self.a = a; self._sz = None; self._al = None
    def __repr__(self):
        return '%s(%s)' % (self.k, self.a)

VOID = Ty('void'); PTR = Ty('ptr'); DOUBLE = Ty('double'); FLOAT = Ty('float')
LABEL = Ty('label'); META = Ty('metadata')
_ints = {}
def INT(n):
    if n not in _ints:
        _ints[n] = Ty('int', n)
    return _ints[n]

class Module:
    def __init__(self):
        self.types = {}      # name -> Ty
        self.globals = {}    # name -> (Ty, init const or None)
        self.funcs = {}      # name -> Func
        self.decls = set()
        self._gsrc = {}

    def sizeof(self, t):
        if t._sz is not None:
            return t._sz
        self._layout(t)
        return t._sz

    def alignof(self, t):
        if t._al is None:
            self._layout(t)
        return t._al

    def _layout(self, t):
        k = t.k
        if k == 'int':
            b = (t.a + 7) // 8
            sz = 1
            while sz < b:
                sz *= 2
            t._sz = sz; t._al = min(sz, 16)
        elif k == 'ptr' or k == 'double':
            t._sz = 8; t._al = 8
        elif k == 'float':
            t._sz = 4; t._al = 4
        elif k == 'named':
            u = self.types[t.a]
            if u is None:
                raise Unsupported('opaque type')
            t._sz = self.sizeof(u); t._al = self.alignof(u)
        elif k == 'array':
            n, e = t.a
            t._sz = n * self.sizeof(e); t._al = self.alignof(e)
        elif k == 'vec':
            n, e = t.a
            t._sz = n * self.sizeof(e); t._al = t._sz
        elif k == 'struct':
            packed, els = t.a
            o = 0; al = 1
            for e in els:
                a = 1 if packed else self.alignof(e)
                al = max(al, a)
                o = (o + a - 1) // a * a
                o += self.sizeof(e)
            o = (o + al - 1) // al * al
            t._sz = o; t._al = al
        else:
            raise Unsupported('sizeof ' + k)

    def resolve(self, t):
        while t.k == 'named':
            t = self.types[t.a]
        return t

    def field(self, t, i):
        """offset and type of element i of struct t"""
        packed, els = t.a
        o = 0
        for j, e in enumerate(els):
            a = 1 if packed else self.alignof(e)
            o = (o + a - 1) // a * a
            if j == i:
                return o, e
            o += self.sizeof(e)
        raise Unsupported('field')

class Func:
    def __init__(self, name, ret, params):
        self.name = name; self.ret = ret; self.params = params  # [(Ty, name, attrs)]
        self.blocks = {}   # label -> [Instr]
        self.order = []
        self.entry = None
        self.vararg = False

class Instr:
    __slots__ = ('res', 'op', 'a', 'line')
    def __init__(self, res, op, a, line):
        self.res = res; self.op = op; self.a = a; self.line = line
    def __repr__(self):
        return self.line.strip()

# operand forms: ('loc',name) ('glob',name) ('c', python-value) ('undef',) ('agg',[(ty,op)...])
#                ('zero',) ('null',) ('expr',op,...)

PARAM_ATTRS_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'align', 'inalloca',
                     'elementtype', 'memory', 'captures', 'initializes', 'range', 'preallocated', 'byref', 'nofpclass'}
PARAM_ATTRS = {'noundef', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'readnone', 'noalias', 'returned',
               'zeroext', 'signext', 'inreg', 'immarg', 'nofree', 'swiftself', 'noext', 'nest', 'allocptr', 'allocalign',
               'writable', 'dead_on_unwind'}
FASTFLAGS = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}

class P:
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.m = mod
    def peek(self, o=0):
        j = self.i + o
        return self.t[j][1] if j < len(self.t) else None
    def kind(self, o=0):
        j = self.i + o
        return self.t[j][0] if j < len(self.t) else None
    def next(self):
        v = self.t[self.i][1]; self.i += 1; return v
    def accept(self, s):
        if self.peek() == s:
            self.i += 1; return True
        return False
    def expect(self, s):
        if self.peek() != s:
            raise Unsupported('expected %r got %r in %s' % (s, self.peek(), ' '.join(x[1] for x in self.t)[:200]))
        self.i += 1
    def done(self):
        return self.i >= len(self.t)

    def ty(self):
        v = self.peek(); k = self.kind()
        if k == 'word':
            self.i += 1
            if v == 'void': t = VOID
            elif v == 'ptr': t = PTR
            elif v == 'double': t = DOUBLE
            elif v == 'float': t = FLOAT
            elif v == 'label': t = LABEL
            elif v == 'metadata': t = META
            elif re.fullmatch(r'i\d+', v): t = INT(int(v[1:]))
            else: raise Unsupported('type ' + v)
        elif k == 'loc':
            self.i += 1
            t = Ty('named', v)
        elif v == '[':
            self.i += 1
            n = int(self.next()); self.expect('x'); e = self.ty(); self.expect(']')
            t = Ty('array', (n, e))
        elif v == '{':
            t = Ty('struct', (False, self.tylist('}')))
        elif v == '<':
            if self.peek(1) == '{':
                self.i += 1
                els = self.tylist('}')
                self.expect('>')
                t = Ty('struct', (True, els))
            else:
                self.i += 1
                n = int(self.next()); self.expect('x'); e = self.ty(); self.expect('>')
                t = Ty('vec', (n, e))
        else:
            raise Unsupported('type token %r' % v)
        # function type suffix: ret (args)
        return t

    def tylist(self, close):
        self.i += 1
        els = []
        while not self.accept(close):
            els.append(self.ty())
            self.accept(',')
        return els

    def attrs(self):
        """skip parameter attributes; return dict of interesting ones"""
        d = {}
        while True:
            v = self.peek(); k = self.kind()
            if v in PARAM_ATTRS:
                d[v] = True; self.i += 1
            elif v in PARAM_ATTRS_PAREN:
                self.i += 1
                if self.peek() == '(':
                    j = self.i
                    if v in ('sret', 'byval', 'byref', 'elementtype'):
                        self.i += 1
                        d[v] = self.ty()
                        self.expect(')')
                    else:
                        self.skip_paren()
                elif v == 'align':
                    self.i += 1
                else:
                    d[v] = True
            elif k == 'str':
                self.i += 1
                if self.accept('='):
                    self.i += 1
            else:
                return d

    def skip_paren(self):
        self.expect('(')
        depth = 1
        while depth:
            v = self.next()
            if v == '(': depth += 1
            elif v == ')': depth -= 1

    def value(self, t):
        v = self.peek(); k = self.kind()
        if k == 'loc':
            self.i += 1; return ('loc', v)
        if k == 'glob':
            self.i += 1; return ('glob', v[1:].strip('"'))
        if k == 'num':
            self.i += 1
            if t.k == 'int':
                return ('c', int(v) & ((1 << t.a) - 1))
            if t.k in ('double', 'float'):
                return ('f', float(v))
            raise Unsupported('num const for ' + t.k)
        if k == 'hex':
            self.i += 1
            if t.k in ('double', 'float'):
                return ('f', struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0])
            raise Unsupported('hex const')
        if k == 'cstr':
            self.i += 1
            bs = []
            s = v[2:-1]; j = 0
            while j < len(s):
                if s[j] == '\\':
                    if s[j+1] == '\\':
                        bs.append(92); j += 2
                    else:
                        bs.append(int(s[j+1:j+3], 16)); j += 3
                else:
                    bs.append(ord(s[j])); j += 1
            return ('agg', [(INT(8), ('c', b)) for b in bs])
        if v == 'true': self.i += 1; return ('c', 1)
        if v == 'false': self.i += 1; return ('c', 0)
        if v == 'null': self.i += 1; return ('null',)
        if v in ('undef', 'poison'): self.i += 1; return ('undef',)
        if v == 'zeroinitializer': self.i += 1; return ('zero',)
        if v in ('{', '['):
            close = '}' if v == '{' else ']'
            return ('agg', self.typed_list(close))
        if v == '<':
            if self.peek(1) == '{':
                self.i += 1
                r = self.typed_list('}')
                self.expect('>')
                return ('agg', r)
            return ('agg', self.typed_list('>'))
        if v == 'getelementptr':
            self.i += 1
            while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                self.i += 1
                if self.peek() == '(' and self.t[self.i-1][1] == 'inrange':
                    self.skip_paren()
            self.expect('(')
            bt = self.ty(); self.expect(',')
            ops = []
            while True:
                self.accept('inrange')
                ot = self.ty(); ops.append((ot, self.value(ot)))
                if not self.accept(','): break
            self.expect(')')
            return ('gep', bt, ops)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc'):
            self.i += 1
            self.expect('(')
            ot = self.ty(); ov = self.value(ot)
            self.expect('to'); tt = self.ty(); self.expect(')')
            return ('castexpr', v, ot, ov, tt)
        if v in ('sub', 'add', 'mul', 'xor'):
            self.i += 1
            while self.peek() in ('nuw', 'nsw'): self.i += 1
            self.expect('(')
            t1 = self.ty(); a = self.value(t1); self.expect(',')
            t2 = self.ty(); b = self.value(t2); self.expect(')')
            return ('binexpr', v, t1, a, b)
        if v == 'blockaddress' or v == 'dso_local_equivalent':
            raise Unsupported('const ' + v)
        raise Unsupported('value %r : %s' % (v, t))

    def typed_list(self, close):
        self.i += 1
        r = []
        while not self.accept(close):
            t = self.ty()
            r.append((t, self.value(t)))
            self.accept(',')
        return r

    def tv(self):
        t = self.ty()
        self.attrs()
        if t.k == 'metadata':
            # swallow metadata operand
            if self.kind() == 'meta':
                self.i += 1
                if self.peek() == '(':
                    self.skip_paren()
            else:
                t2 = self.ty(); self.value(t2)
            return (t, ('undef',))
        return (t, self.value(t))

BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
         'bitcast', 'addrspacecast'}

def parse_instr(line, mod):
    toks = tokenize(line)
    p = P(toks, mod)
    res = None
    if p.kind() == 'loc' and p.peek(1) == '=':
        res = p.next(); p.next()
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in BINOPS:
        flags = set()
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint') or p.peek() in FASTFLAGS:
            flags.add(p.next())
        t = p.ty(); a = p.value(t); p.expect(','); b = p.value(t)
        return Instr(res, op, (t, a, b, flags), line)
    if op == 'fneg':
        while p.peek() in FASTFLAGS: p.next()
        t = p.ty(); a = p.value(t)
        return Instr(res, 'fneg', (t, a), line)
    if op in CASTS:
        while p.peek() in ('nneg', 'nuw', 'nsw'): p.next()
        t, a = p.tv(); p.expect('to'); t2 = p.ty()
        return Instr(res, op, (t, a, t2), line)
    if op == 'alloca':
        p.accept('inalloca')
        t = p.ty()
        n = None
        if p.accept(','):
            if p.peek() != 'align' and p.kind() != 'meta':
                nt = p.ty(); n = p.value(nt)
        return Instr(res, 'alloca', (t, n), line)
    if op == 'load':
        p.accept('volatile')
        t = p.ty(); p.expect(','); pt = p.ty(); a = p.value(pt)
        return Instr(res, 'load', (t, a), line)
    if op == 'store':
        p.accept('volatile')
        t = p.ty(); v = p.value(t); p.expect(','); pt = p.ty(); a = p.value(pt)
        return Instr(res, 'store', (t, v, a), line)
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
        bt = p.ty(); p.expect(',')
        ops = []
        while True:
            ops.append(p.tv())
            if p.done() or not p.accept(','): break
            if p.kind() == 'meta': break
        return Instr(res, 'gep', (bt, ops), line)
    if op in ('icmp', 'fcmp'):
        while p.peek() in FASTFLAGS or p.peek() == 'samesign': p.next()
        pred = p.next(); t = p.ty(); a = p.value(t); p.expect(','); b = p.value(t)
        return Instr(res, op, (pred, t, a, b), line)
    if op == 'br':
        t = p.ty()
        if t.k == 'label':
            return Instr(None, 'br', (p.next(),), line)
        c = p.value(t); p.expect(','); p.ty(); l1 = p.next(); p.expect(','); p.ty(); l2 = p.next()
        return Instr(None, 'condbr', (c, l1, l2), line)
    if op == 'switch':
        t = p.ty(); v = p.value(t); p.expect(','); p.ty(); d = p.next()
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.ty(); cv = p.value(ct); p.expect(','); p.ty(); cases.append((cv[1], p.next()))
        return Instr(None, 'switch', (t, v, d, cases), line)
    if op == 'ret':
        t = p.ty()
        if t.k == 'void':
            return Instr(None, 'ret', (t, None), line)
        return Instr(None, 'ret', (t, p.value(t)), line)
    if op == 'unreachable':
        return Instr(None, 'unreachable', (), line)
    if op == 'phi':
        while p.peek() in FASTFLAGS: p.next()
        t = p.ty()
        inc = []
        while True:
            p.expect('['); v = p.value(t); p.expect(','); l = p.next(); p.expect(']')
            inc.append((v, l))
            if not p.accept(','): break
            if p.kind() == 'meta': break
        return Instr(res, 'phi', (t, inc), line)
    if op == 'select':
        while p.peek() in FASTFLAGS: p.next()
        c = p.tv(); p.expect(','); a = p.tv(); p.expect(','); b = p.tv()
        return Instr(res, 'select', (c, a, b), line)
    if op == 'freeze':
        t, a = p.tv()
        return Instr(res, 'freeze', (t, a), line)
    if op in ('call', 'invoke'):
        while p.peek() in FASTFLAGS: p.next()
        if p.peek() in ('fastcc', 'coldcc', 'ccc'): p.next()
        p.attrs()
        rt = p.ty()
        if p.peek() == '(':   # vararg function type
            p.skip_paren()
        callee = p.value(PTR)
        p.expect('(')
        args = []
        while not p.accept(')'):
            t = p.ty()
            at = p.attrs()
            if t.k == 'metadata':
                if p.kind() == 'meta':
                    p.i += 1
                    if p.peek() == '(':
                        p.skip_paren()
                    elif p.peek() == '{':
                        while p.next() != '}': pass
                else:
                    t2 = p.ty(); p.value(t2)
                args.append((t, ('undef',), at))
            else:
                args.append((t, p.value(t), at))
            p.accept(',')
        if op == 'invoke':
            while p.peek() != 'to': p.next()
            p.expect('to'); p.ty(); l1 = p.next()
            return Instr(res, 'call', (rt, callee, args, l1), line)
        return Instr(res, 'call', (rt, callee, args, None), line)
    if op == 'extractvalue':
        t, a = p.tv()
        idx = []
        while p.accept(','):
            if p.kind() == 'meta': break
            idx.append(int(p.next()))
        return Instr(res, 'extractvalue', (t, a, idx), line)
    if op == 'insertvalue':
        t, a = p.tv(); p.expect(','); t2, b = p.tv()
        idx = []
        while p.accept(','):
            if p.kind() == 'meta': break
            idx.append(int(p.next()))
        return Instr(res, 'insertvalue', (t, a, t2, b, idx), line)
    if op == 'extractelement':
        t, a = p.tv(); p.expect(','); t2, b = p.tv()
        return Instr(res, 'extractelement', (t, a, t2, b), line)
    if op == 'insertelement':
        t, a = p.tv(); p.expect(','); t2, b = p.tv(); p.expect(','); t3, c = p.tv()
        return Instr(res, 'insertelement', (t, a, t2, b, t3, c), line)
    if op == 'shufflevector':
        t, a = p.tv(); p.expect(','); t2, b = p.tv(); p.expect(','); t3, c = p.tv()
        return Instr(res, 'shufflevector', (t, a, t2, b, t3, c), line)
    raise Unsupported('instr ' + op)

LINKAGE = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
           'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default',
           'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'externally_initialized'}

def parse_module(text):
    mod = Module()
    lines = text.split('\n')
    i = 0
    glob_lines = []
    while i < len(lines):
        ln = lines[i]
        if ln.startswith('%') and ' = type ' in ln:
            name, rest = ln.split(' = type ', 1)
            if rest.strip() == 'opaque':
                mod.types[name] = None
            else:
                p = P(tokenize(rest), mod)
                mod.types[name] = p.ty()
        elif ln.startswith('@'):
            glob_lines.append(ln)
        elif ln.startswith('declare'):
            m = re.search(r'@("[^"]*"|[-\w.$]+)\s*\(', ln)
            if m: mod.decls.add(m.group(1).strip('"'))
        elif ln.startswith('define'):
            i = parse_func(lines, i, mod)
            continue
        i += 1
    for ln in glob_lines:
        m = re.match(r'@("[^"]*"|[-\w.$]+) = ', ln)
        name = m.group(1).strip('"')
        mod._gsrc[name] = ln[m.end():]
    return mod

def get_global(mod, name):
    if name in mod.globals:
        return mod.globals[name]
    src = mod._gsrc.get(name)
    if src is None:
        return None
    p = P(tokenize(src), mod)
    external = False
    while p.peek() in LINKAGE:
        v = p.next()
        if v in ('external', 'extern_weak'): external = True
        if v == 'thread_local' and p.peek() == '(':
            p.skip_paren()
    if p.peek() == 'alias':
        raise Unsupported('alias')
    const = p.next()  # global / constant
    t = p.ty()
    init = None
    if not external:
        init = p.value(t)
    mod.globals[name] = (t, init, const == 'constant')
    return mod.globals[name]

def parse_func(lines, i, mod):
    hdr = lines[i]
    # join until '{' at end
    while not hdr.rstrip().endswith('{'):
        i += 1
        hdr += ' ' + lines[i]
    toks = tokenize(hdr)
    # find function name
    k = next(j for j, t in enumerate(toks) if t[0] == 'glob')
    name = toks[k][1][1:].strip('"')
    # return type: parse backwards is hard: parse forward skipping linkage/attrs
    p = P(toks, mod)
    p.expect('define')
    while p.peek() in LINKAGE or p.peek() in ('fastcc', 'coldcc', 'ccc'):
        p.next()
    ra = p.attrs()
    rt = p.ty()
    p.i = k + 1
    p.expect('(')
    params = []
    n = 0
    f = Func(name, rt, params)
    while not p.accept(')'):
        if p.accept('...'):
            f.vararg = True
            continue
        t = p.ty()
        at = p.attrs()
        if p.kind() == 'loc':
            nm = p.next()
        else:
            nm = '%%%d' % n
        n += 1
        params.append((t, nm, at))
        p.accept(',')
    i += 1
    cur = None
    first = True
    body = []
    while lines[i].rstrip() != '}':
        ln = lines[i]
        s = ln.strip()
        if s == '' or s.startswith(';'):
            i += 1; continue
        m = re.match(r'^("[^"]*"|[-\w.$]+):', ln)
        if m:
            cur = '%' + m.group(1)
            f.blocks[cur] = []
            f.order.append(cur)
            if first:
                f.entry = cur
                first = False
            i += 1; continue
        if first:
            cur = '%' + str(n)
            f.blocks[cur] = []
            f.order.append(cur)
            f.entry = cur
            first = False
        # multi-line (switch, invoke)
        full = ln
        if s.startswith('switch') or ' switch ' in s:
            while ']' not in full:
                i += 1
                full += ' ' + lines[i].split(';')[0]
        elif ' invoke ' in ln or s.startswith('invoke'):
            if ' unwind ' not in full:
                i += 1
                full += ' ' + lines[i]
        elif s.startswith('landingpad') or ' landingpad ' in s:
            i += 1
            while lines[i].strip().startswith(('cleanup', 'catch', 'filter')):
                i += 1
            f.blocks[cur].append(Instr(None, 'unsupported', (), ln))
            continue
        f.blocks[cur].append(full)
        i += 1
    mod.funcs[name] = f
    return i + 1

def func_instrs(mod, f, label):
    """lazily parse a block"""
    b = f.blocks[label]
    if b and isinstance(b[0], str):
        b = [parse_instr(l, mod) if isinstance(l, str) else l for l in b]
        f.blocks[label] = b
    return b
