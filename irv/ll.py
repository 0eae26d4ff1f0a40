"""Parser for the subset of textual LLVM IR that clang 18 emits for /repo's sources."""
import re

class ParseError(Exception): pass

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"])*")
 | (?P<loc>%[-a-zA-Z$._0-9]+|%"[^"]*")
 | (?P<glob>@[-a-zA-Z$._0-9]+|@"[^"]*")
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#\d+)
 | (?P<num>0x[0-9A-Fa-f]+|-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
 | (?P<word>[a-zA-Z_][-a-zA-Z$._0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[=,(){}\[\]<>*:|])
)''', re.X)

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'): break
            raise ParseError('token: ' + s[i:i+60])
        i = m.end()
        k = m.lastgroup
        out.append((k, m.group(k)))
    return out

# ---- types: ('i',w) ('ptr',) ('arr',n,t) ('st',[t..],packed) ('named',name) ('void',) ('double',) ('fn',)

class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}    # name -> (type, init, const)
        self.funcs = {}
        self.decls = {}
    def resolve(self, t):
        while t[0] == 'named': t = self.types[t[1]]
        return t
    def size_align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            w = t[1]
            if w <= 8: return 1, 1
            if w <= 16: return 2, 2
            if w <= 32: return 4, 4
            if w <= 64: return 8, 8
            return 16, 16
        if k == 'ptr': return 8, 8
        if k == 'double': return 8, 8
        if k == 'float': return 4, 4
        if k == 'arr':
            s, a = self.size_align(t[2])
            return s * t[1], a
        if k == 'vec':
            s, a = self.size_align(t[2])
            return s * t[1], s * t[1]
        if k == 'st':
            off = 0; al = 1
            for f in t[1]:
                s, a = self.size_align(f)
                if t[2]: a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        raise ParseError('size of ' + str(t))
    def size(self, t): return self.size_align(t)[0]
    def field_off(self, t, i):
        t = self.resolve(t)
        off = 0
        for j, f in enumerate(t[1]):
            s, a = self.size_align(f)
            if t[2]: a = 1
            off = (off + a - 1) // a * a
            if j == i: return off, f
            off += s
        raise ParseError('field')

class Func:
    def __init__(self, name, params, ret):
        self.name, self.params, self.ret = name, params, ret
        self.blocks = {}      # label -> list of instrs
        self.order = []
        self.internal = False

class P:
    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)
    def next(self):
        r = self.t[self.i]; self.i += 1; return r
    def acc(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1; return True
        return False
    def exp(self, v):
        if not self.acc(v): raise ParseError(f'expected {v} got {self.peek()} in {self.t}')
    def type(self):
        k, v = self.next()
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit(): t = ('i', int(v[1:]))
            elif v == 'ptr': t = ('ptr',)
            elif v == 'void': t = ('void',)
            elif v in ('double', 'float'): t = (v,)
            elif v in ('metadata', 'label', 'opaque'): t = (v,)
            else: raise ParseError('type ' + v)
        elif k == 'loc': t = ('named', v)
        elif v == '[':
            n = int(self.next()[1]); self.exp('x'); e = self.type(); self.exp(']'); t = ('arr', n, e)
        elif v == '{':
            l = []
            if not self.acc('}'):
                while True:
                    l.append(self.type())
                    if self.acc('}'): break
                    self.exp(',')
            t = ('st', l, False)
        elif v == '<':
            if self.acc('{'):
                l = []
                if not self.acc('}'):
                    while True:
                        l.append(self.type())
                        if self.acc('}'): break
                        self.exp(',')
                self.exp('>')
                t = ('st', l, True)
            else:
                n = int(self.next()[1]); self.exp('x'); e = self.type(); self.exp('>'); t = ('vec', n, e)
        else: raise ParseError('type ' + str((k, v)))
        while self.peek()[1] == '(' and t[0] in ('i', 'void', 'ptr', 'double', 'named') and self._isfnty():
            d = 0
            while True:
                x = self.next()[1]
                if x == '(': d += 1
                if x == ')':
                    d -= 1
                    if d == 0: break
            t = ('fnty', t)
        return t
    def _isfnty(self):
        # function type in a call: "i32 (ptr, ...) @f(...)": only vararg calls use it
        j = self.i; d = 0
        while j < len(self.t):
            x = self.t[j][1]
            if x == '(': d += 1
            if x == ')':
                d -= 1
                if d == 0: break
            j += 1
        return j + 1 < len(self.t) and self.t[j + 1][0] in ('glob', 'loc')
    def attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in ('noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'readonly', 'writeonly',
                  'returned', 'immarg', 'dso_local', 'internal', 'private', 'unnamed_addr', 'local_unnamed_addr', 'constant', 'readnone', 'inreg', 'noreturn', 'allocptr', 'nofree', 'nounwind', 'willreturn'):
                self.next(); continue
            if k == 'word' and v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'elementtype', 'sret', 'byval'):
                self.next()
                if self.acc('('):
                    d = 1
                    while d:
                        x = self.next()[1]
                        if x == '(': d += 1
                        if x == ')': d -= 1
                else:
                    self.next()
                continue
            break
    def value(self, t):
        k, v = self.next()
        if k == 'loc': return ('l', v)
        if k == 'glob': return ('g', v[1:])
        if k == 'num':
            if t[0] in ('double', 'float'): return ('f', v)
            return ('c', int(v, 0))
        if k == 'word':
            if v == 'true': return ('c', 1)
            if v == 'false': return ('c', 0)
            if v in ('null', 'zeroinitializer'): return ('z',)
            if v in ('undef', 'poison'): return ('u',)
            if v in ('getelementptr',):
                self.acc('inbounds')
                self.exp('(')
                bt = self.type(); self.exp(',')
                self.type(); base = self.value(('ptr',))
                idx = []
                while self.acc(','):
                    self.acc('inrange')
                    it = self.type(); idx.append((it, self.value(it)))
                self.exp(')')
                return ('cgep', bt, base, idx)
            if v in ('bitcast', 'inttoptr', 'ptrtoint'):
                self.exp('('); ft = self.type(); x = self.value(ft); self.exp('to'); self.type(); self.exp(')')
                return x
            if v in ('sub', 'add', 'mul', 'xor', 'and', 'or', 'shl', 'lshr'):
                while self.peek()[1] in ('nsw', 'nuw'): self.next()
                self.exp('('); ta = self.type(); a = self.value(ta); self.exp(','); tb = self.type(); b = self.value(tb); self.exp(')')
                return ('cexpr', v, ta, a, b)
            raise ParseError('value ' + v)
        if k == 'str': return ('s', v)
        if v == '[' or v == '{' or v == '<':
            close = {'[': ']', '{': '}', '<': '>'}[v]
            if v == '<' and self.peek()[1] == '{':
                self.next()
            l = []
            if self.peek()[1] != close and not (self.peek()[1] == '}'):
                while True:
                    et = self.type(); l.append((et, self.value(et)))
                    if not self.acc(','): break
            if self.peek()[1] == '}' and close == '>': self.next()
            self.exp(close)
            return ('agg', l)
        raise ParseError('value ' + str((k, v)))

BIN = {'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv'}
CAST = {'zext','sext','trunc','ptrtoint','inttoptr','bitcast','uitofp','sitofp','fptoui','fptosi','freeze','fpext','fptrunc'}

def unescape(s):
    s = s[2:-1] if s[0] == 'c' else s[1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)

def parse(text, tolerant=False):
    mod = Module()
    lines = text.split('\n')
    i = 0
    cur = None
    blk = None
    while i < len(lines):
        ln = lines[i]; i += 1
        if cur is None:
            if ln.startswith('%') and ' = type ' in ln:
                n, r = ln.split(' = type ', 1)
                if r.strip() == 'opaque': continue
                p = P(tokenize(r), mod)
                mod.types[n.strip()] = p.type()
            elif ln.startswith('@'):
                toks = tokenize(ln)
                p = P(toks, mod)
                name = p.next()[1][1:]
                p.exp('=')
                const = False
                ext = False
                while p.peek()[0] == 'word' and p.peek()[1] in ('internal','private','unnamed_addr','local_unnamed_addr','dso_local','constant','global','external','common','weak','linkonce_odr','thread_local','appending'):
                    w = p.next()[1]
                    if w == 'constant': const = True
                    if w == 'external': ext = True
                t = p.type()
                init = None
                if not ext and p.peek()[1] not in (',', None): init = p.value(t)
                mod.globals[name] = (t, init, const)
            elif ln.startswith('declare'):
                m = re.search(r'@([-\w$.]+)\(', ln)
                if m: mod.decls[m.group(1)] = ln
            elif ln.startswith('define'):
                toks = tokenize(ln[len('define'):].rstrip(' {'))
                p = P(toks, mod)
                internal = 'internal' in ln.split('@')[0]
                p.attrs()
                while p.peek()[1] in ('hidden', 'linkonce_odr', 'weak', 'fastcc'): p.next()
                p.attrs()
                rt = p.type()
                name = p.next()[1][1:]
                p.exp('(')
                params = []
                if not p.acc(')'):
                    while True:
                        if p.acc('...'): params.append((('dots',), None))
                        else:
                            t = p.type(); p.attrs()
                            k, v = p.peek()
                            pn = None
                            if k == 'loc': pn = p.next()[1]
                            params.append((t, pn))
                        if p.acc(')'): break
                        p.exp(',')
                cur = Func(name, params, rt)
                cur.internal = internal
                blk = None
        else:
            s = ln.strip()
            if ln.startswith('}'):
                mod.funcs[cur.name] = cur
                cur = None
                continue
            if not s or s.startswith(';'): continue
            m = re.match(r'^([-a-zA-Z$._0-9]+|"[^"]*"):', ln)
            if m:
                blk = '%' + m.group(1)
                cur.blocks[blk] = []
                cur.order.append(blk)
                continue
            if blk is None:
                blk = '%entry'
                cur.blocks[blk] = []; cur.order.append(blk)
            if s.startswith('switch') and not s.rstrip().endswith(']') :
                while not s.rstrip().endswith(']') and ' ], ' not in s:
                    s += ' ' + lines[i].strip(); i += 1
            if not tolerant: cur.blocks[blk].append(parse_instr(s, mod))
            else:
                try: cur.blocks[blk].append(parse_instr(s, mod))
                except (ParseError, IndexError, KeyError, ValueError): cur.blocks[blk].append(('bad', s))
    return mod

def parse_instr(s, mod):
    # cut metadata suffix
    s0 = s
    if ' asm ' not in s:
        s = re.sub(r',\s*![a-zA-Z.]+ !\d+', '', s)
        s = re.sub(r',\s*!\w+ !\{[^}]*\}', '', s)
    else:
        s = re.sub(r',\s*!srcloc !\d+', '', s)
    p = P(tokenize(s), mod)
    dst = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        dst = p.next()[1]; p.next()
    op = p.next()[1]
    while op in ('tail', 'musttail', 'notail'): op = p.next()[1]
    if op in BIN:
        while p.peek()[1] in ('nsw', 'nuw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'): p.next()
        t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        return ('bin', dst, op, t, a, b, 'nsw' in s0.split(';')[0])
    if op in CAST:
        p.acc('nneg')
        while p.peek()[1] in ('nuw', 'nsw'): p.next()
        t = p.type(); a = p.value(t)
        if op == 'freeze': return ('cast', dst, op, t, a, t)
        p.exp('to'); t2 = p.type()
        return ('cast', dst, op, t, a, t2)
    if op in ('icmp', 'fcmp'):
        pred = p.next()[1]
        while pred in ('samesign',): pred = p.next()[1]
        t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        return (op, dst, pred, t, a, b)
    if op == 'select':
        p.type(); c = p.value(('i', 1)); p.exp(','); t = p.type(); a = p.value(t); p.exp(','); p.type(); b = p.value(t)
        return ('select', dst, c, t, a, b)
    if op == 'load':
        vol = p.acc('volatile')
        t = p.type(); p.exp(','); p.type(); a = p.value(('ptr',))
        return ('load', dst, t, a, vol)
    if op == 'store':
        vol = p.acc('volatile')
        t = p.type(); v = p.value(t); p.exp(','); p.type(); a = p.value(('ptr',))
        return ('store', t, v, a, vol)
    if op == 'getelementptr':
        while p.peek()[1] in ('inbounds', 'nuw', 'nusw'): p.next()
        bt = p.type(); p.exp(','); p.type(); base = p.value(('ptr',))
        idx = []
        while p.acc(','):
            it = p.type(); idx.append((it, p.value(it)))
        return ('gep', dst, bt, base, idx)
    if op == 'alloca':
        t = p.type()
        n = None
        if p.acc(','):
            if p.peek()[1] != 'align':
                nt = p.type(); n = p.value(nt)
        return ('alloca', dst, t, n)
    if op == 'phi':
        t = p.type()
        inc = []
        while True:
            p.exp('['); v = p.value(t); p.exp(','); l = p.next()[1]; p.exp(']')
            inc.append((v, l))
            if not p.acc(','): break
        return ('phi', dst, t, inc)
    if op == 'br':
        if p.peek()[1] == 'label':
            p.next(); return ('br', p.next()[1])
        p.type(); c = p.value(('i', 1)); p.exp(','); p.exp('label'); a = p.next()[1]; p.exp(','); p.exp('label'); b = p.next()[1]
        return ('cbr', c, a, b)
    if op == 'switch':
        t = p.type(); v = p.value(t); p.exp(','); p.exp('label'); d = p.next()[1]
        p.exp('[')
        cases = []
        while not p.acc(']'):
            p.type(); c = p.value(t); p.exp(','); p.exp('label'); cases.append((c[1], p.next()[1]))
        return ('switch', t, v, d, cases)
    if op == 'ret':
        t = p.type()
        if t[0] == 'void': return ('ret', None, None)
        return ('ret', t, p.value(t))
    if op == 'unreachable': return ('unreachable',)
    if op == 'extractvalue':
        t = p.type(); v = p.value(t); idx = []
        while p.acc(','): idx.append(int(p.next()[1]))
        return ('extractvalue', dst, t, v, idx)
    if op == 'insertvalue':
        t = p.type(); v = p.value(t); p.exp(','); t2 = p.type(); e = p.value(t2); idx = []
        while p.acc(','): idx.append(int(p.next()[1]))
        return ('insertvalue', dst, t, v, t2, e, idx)
    if op == 'call':
        p.attrs()
        while p.peek()[1] in ('fastcc',): p.next()
        rt = p.type()
        if rt[0] == 'fnty': rt = rt[1]
        if p.peek()[1] == 'asm':
            p.next()
            while p.peek()[1] in ('sideeffect', 'alignstack', 'inteldialect', 'unwind'): p.next()
            tmpl = unescape(p.next()[1]).decode('latin1'); p.exp(','); cons = unescape(p.next()[1]).decode()
            p.exp('(')
            args = _args(p)
            return ('asm', dst, rt, tmpl, cons, args)
        k, v = p.next()
        if k == 'glob': callee = ('g', v[1:])
        elif k == 'loc': callee = ('l', v)
        else: raise ParseError('callee ' + s)
        p.exp('(')
        return ('call', dst, rt, callee, _args(p))
    raise ParseError('instr ' + s)

def _args(p):
    args = []
    if p.acc(')'): return args
    while True:
        t = p.type(); p.attrs()
        if p.peek()[1] == 'elementtype' : p.attrs()
        args.append((t, p.value(t)))
        if p.acc(')'): break
        p.exp(',')
    return args
