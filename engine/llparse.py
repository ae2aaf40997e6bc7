"""Parser for the textual LLVM IR that rustc emits (opaque pointers)."""
import re

TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<loc>%(?:"[^"]*"|[-\w$.]+))
 |(?P<glob>@(?:"[^"]*"|[-\w$.]+))
 |(?P<meta>!(?:"[^"]*"|[-\w$.]*))
 |(?P<attr>\#\d+)
 |(?P<num>[-+]?(?:inf|qnan|nan|snan)(?:\(0x[0-9A-Fa-f]+\))?(?![\w.$])|-?\d+\.\d+(?:e[-+]?\d+)?|f0x[0-9A-Fa-f]+|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 |(?P<word>[A-Za-z_$.][-\w$.]*)
 |(?P<p>\.\.\.|[\[\](){}<>,=*:|^])
)''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    if '/*' in s: s = re.sub(r'/\*.*?\*/', ' ', s)
    out, i, n = [], 0, len(s)
    while i < n:
        while i < n and s[i] in ' \t\n\r':
            i += 1
        if i >= n or s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise ParseError('token: ' + s[i:i + 60])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out


def unq(name):
    return name[2:-1] if name[1:2] == '"' else name[1:]


class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def acc(self, v):
        if self.peek()[1] == v and self.peek()[0] in ('p', 'word'):
            self.i += 1
            return True
        return False

    def exp(self, v):
        k, x = self.next()
        if x != v:
            raise ParseError('expected %s got %s in %s' % (v, x, self.t))

    # types: ('i',w) 'float' 'double' 'ptr' 'void' ('arr',n,t) ('st',packed,[t]) ('vec',n,t)
    def type(self):
        k, x = self.next()
        if k == 'word':
            if re.fullmatch(r'i\d+', x): t = ('i', int(x[1:]))
            elif x in ('float', 'double', 'ptr', 'void', 'half', 'label', 'metadata', 'token', 'opaque'):
                t = x
                if x == 'ptr' and self.peek()[1] == 'addrspace':
                    self.next(); self.exp('('); self.next(); self.exp(')')
            else: raise ParseError('type %s' % x)
        elif k == 'loc':
            t = ('named', unq(x))
        elif x == '[':
            n = int(self.next()[1]); self.exp('x'); e = self.type(); self.exp(']'); t = ('arr', n, e)
        elif x == '{':
            t = ('st', False, self._tl('}'))
        elif x == '<':
            if self.peek()[1] == '{':
                self.next(); t = ('st', True, self._tl('}')); self.exp('>')
            else:
                n = int(self.next()[1]); self.exp('x'); e = self.type(); self.exp('>'); t = ('vec', n, e)
        else:
            raise ParseError('type %s' % x)
        return t

    def _tl(self, end):
        r = []
        if self.peek()[1] == end:
            self.next(); return r
        while True:
            r.append(self.type())
            if self.acc(','): continue
            self.exp(end)
            return r

    ATTRW = {'noundef', 'nonnull', 'noalias', 'nofree', 'readonly', 'readnone', 'writeonly', 'zeroext', 'signext', 'returned',
             'inreg', 'immarg', 'nocapture', 'writable', 'dead_on_unwind', 'noext', 'nest', 'swiftself', 'allocalign', 'allocptr',
             'dead_on_return'}

    def skipattrs(self):
        while True:
            k, x = self.peek()
            if k == 'word' and x in self.ATTRW:
                self.next()
                if self.peek()[1] == '(': self.skipparen()
            elif k == 'word' and x == 'align':
                self.next()
                if self.peek()[1] == '(': self.skipparen()
                else: self.next()
            elif k == 'word' and self.peek(1)[1] == '(' and x in (
                    'range', 'captures', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'nofpclass',
                    'initializes', 'memory', 'elementtype', 'inalloca', 'byref', 'preallocated'):
                self.next(); self.skipparen()
            elif k == 'str' and x[0] != 'c' or k == 'attr':
                self.next()
                if self.acc('='): self.next()
            else:
                return

    def skipparen(self):
        self.exp('(')
        d = 1
        while d:
            x = self.next()
            if x == ('p', '('): d += 1
            elif x == ('p', ')'): d -= 1

    # values: ('loc',name) ('glob',name) ('int',v) ('fp',text) 'null' 'undef' 'zero' ('agg',[..(ty,val)]) ('str',bytes) ('cexpr',op,...)
    def value(self, ty):
        k, x = self.next()
        if k == 'loc': return ('loc', unq(x))
        if k == 'glob': return ('glob', unq(x))
        if k == 'num':
            if isinstance(ty, tuple) and ty[0] == 'i': return ('int', int(x, 0))
            return ('fp', x)
        if k == 'meta': return ('meta', x)
        if k == 'str': return ('str', cstr(x[2:-1]))
        if k == 'word':
            if x == 'true': return ('int', 1)
            if x == 'false': return ('int', 0)
            if x == 'null': return ('null',)
            if x in ('undef', 'poison'): return ('undef',)
            if x == 'zeroinitializer': return ('zero',)
            if x == 'splat':
                self.exp('('); et = self.type(); v = self.value(et); self.exp(')')
                return ('splat', et, v)
            if x == 'getelementptr':
                while self.peek()[0] == 'word' and self.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    self.next()
                    if self.peek()[1] == '(' and self.peek(1)[0] == 'num': self.skipparen()
                self.exp('(')
                st = self.type(); self.exp(',')
                ops = self.tvlist(')')
                return ('cexpr', 'gep', st, ops)
            if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'addrspacecast'):
                self.exp('('); t = self.type(); v = self.value(t); self.exp('to'); t2 = self.type(); self.exp(')')
                return ('cexpr', x, (t, v), t2)
            if x in ('add', 'sub', 'mul', 'xor'):
                while self.peek()[0] == 'word': self.next()
                self.exp('(')
                ops = self.tvlist(')')
                return ('cexpr', x, ops)
            if x == 'nan' or x == 'inf': return ('fp', x)
            raise ParseError('value %s' % x)
        if x == '{' or x == '[':
            return ('agg', self.tvlist('}' if x == '{' else ']'))
        if x == '<':
            if self.acc('{'):
                r = self.tvlist('}'); self.exp('>')
                return ('agg', r)
            return ('agg', self.tvlist('>'))
        raise ParseError('value %s' % x)

    def tvlist(self, end):
        r = []
        if self.acc(end): return r
        while True:
            t = self.type()
            self.skipattrs()
            r.append((t, self.value(t)))
            if self.acc(','): continue
            self.exp(end)
            return r


def cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out += s[i].encode(); i += 1
    return bytes(out)


FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'samesign', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'reassoc', 'afn',
         'inbounds', 'nusw', 'volatile', 'tail', 'musttail', 'notail', 'atomic'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'zext', 'sext', 'trunc', 'bitcast', 'fptrunc', 'fpext', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'ptrtoint', 'inttoptr',
        'addrspacecast', 'ptrtoaddr'}
CCS = {'fastcc', 'coldcc', 'ccc', 'preserve_mostcc', 'preserve_allcc', 'tailcc', 'preserve_nonecc'}


class Func:
    __slots__ = ('path', 'name', 'params', 'blocks', 'entry', 'ret', 'lines', 'parsed')


def parse_inst(s):
    m = re.search(r'!dbg !(\d+)', s)
    I = _parse_inst(s)
    I['dbg'] = int(m.group(1)) if m else None
    return I


def _parse_inst(s):
    p = P(tokenize(s))
    dst = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        dst = unq(p.next()[1]); p.next()
    fl = set()
    while p.peek()[1] in FLAGS: fl.add(p.next()[1])
    op = p.next()[1]
    while p.peek()[0] == 'word' and p.peek()[1] in FLAGS: fl.add(p.next()[1])
    I = {'op': op, 'dst': dst, 'fl': fl}
    if op in BIN:
        t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        I.update(k='bin', ty=t, a=a, b=b)
    elif op == 'fneg':
        t = p.type(); I.update(k='fneg', ty=t, a=p.value(t))
    elif op in ('icmp', 'fcmp'):
        pred = p.next()[1]
        t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        I.update(k=op, pred=pred, ty=t, a=a, b=b)
    elif op == 'select':
        ct = p.type(); c = p.value(ct); p.exp(','); t = p.type(); a = p.value(t); p.exp(','); t2 = p.type(); b = p.value(t2)
        I.update(k='select', ct=ct, c=c, ty=t, a=a, b=b)
    elif op == 'phi':
        t = p.type(); inc = []
        while True:
            p.exp('['); v = p.value(t); p.exp(','); l = unq(p.next()[1]); p.exp(']')
            inc.append((v, l))
            if not (p.peek()[1] == ',' and p.peek(1)[1] == '['): break
            p.next()
        I.update(k='phi', ty=t, inc=dict((l, v) for v, l in inc))
    elif op == 'br':
        if p.acc('label'): I.update(k='jmp', to=unq(p.next()[1]))
        else:
            t = p.type(); c = p.value(t); p.exp(','); p.exp('label'); a = unq(p.next()[1]); p.exp(','); p.exp('label'); b = unq(p.next()[1])
            I.update(k='br', c=c, a=a, b=b)
    elif op == 'switch':
        t = p.type(); v = p.value(t); p.exp(','); p.exp('label'); d = unq(p.next()[1]); p.exp('[')
        cs = []
        while not p.acc(']'):
            ct = p.type(); cv = p.value(ct); p.exp(','); p.exp('label'); cs.append((cv, unq(p.next()[1])))
        I.update(k='switch', ty=t, v=v, d=d, cs=cs)
    elif op == 'ret':
        t = p.type()
        I.update(k='ret', ty=t, v=None if t == 'void' else p.value(t))
    elif op == 'unreachable':
        I.update(k='unreachable')
    elif op == 'call' or op == 'invoke':
        while p.peek()[0] == 'word' and p.peek()[1] in FLAGS | CCS: p.next()
        p.skipattrs()
        while p.peek()[0] == 'word' and p.peek()[1] in CCS: p.next()
        p.skipattrs()
        rt = p.type()
        if p.peek()[1] == '(':  # explicit fn type
            p.skipparen()
        k, x = p.peek()
        if k == 'word' and x == 'asm':
            I.update(k='asm', s=s)
            return I
        f = p.value('ptr')
        p.exp('(')
        args = []
        if not p.acc(')'):
            while True:
                t = p.type(); p.skipattrs()
                if t == 'metadata':
                    d = 0
                    while not (d == 0 and p.peek()[1] in (',', ')') and p.peek()[0] == 'p'):
                        x = p.next()[1]
                        if x == '(': d += 1
                        elif x == ')': d -= 1
                    args.append((t, ('meta', '')))
                else:
                    args.append((t, p.value(t)))
                if p.acc(','): continue
                p.exp(')')
                break
        I.update(k='call', ty=rt, f=f, args=args)
        if op == 'invoke':
            while p.peek()[1] != 'to': p.next()
            p.next(); p.exp('label'); I['to'] = unq(p.next()[1])
    elif op == 'alloca':
        t = p.type(); n = ('int', 1)
        if p.peek()[1] == ',' and p.peek(1)[1] != 'align':
            p.next(); nt = p.type(); n = p.value(nt)
        I.update(k='alloca', ty=t, n=n)
    elif op == 'load':
        t = p.type(); p.exp(','); p.exp('ptr'); a = p.value('ptr')
        I.update(k='load', ty=t, a=a)
    elif op == 'store':
        t = p.type(); v = p.value(t); p.exp(','); p.exp('ptr'); a = p.value('ptr')
        I.update(k='store', ty=t, v=v, a=a)
    elif op == 'getelementptr':
        while p.peek()[1] in FLAGS: p.next()
        st = p.type(); p.exp(',')
        pt = p.type(); base = p.value(pt); idx = []
        while p.peek()[1] == ',' and p.peek(1)[0] != 'meta':
            p.next(); it = p.type(); idx.append((it, p.value(it)))
        I.update(k='gep', st=st, base=base, idx=idx)
    elif op in CAST:
        t = p.type(); v = p.value(t); p.exp('to'); t2 = p.type()
        I.update(k='cast', ty=t, a=v, to=t2)
    elif op == 'freeze':
        t = p.type(); I.update(k='freeze', ty=t, a=p.value(t))
    elif op == 'extractvalue':
        t = p.type(); v = p.value(t); ix = []
        while p.peek()[1] == ',' and p.peek(1)[0] == 'num': p.next(); ix.append(int(p.next()[1]))
        I.update(k='extractvalue', ty=t, a=v, ix=ix)
    elif op == 'insertvalue':
        t = p.type(); v = p.value(t); p.exp(','); t2 = p.type(); e = p.value(t2); ix = []
        while p.peek()[1] == ',' and p.peek(1)[0] == 'num': p.next(); ix.append(int(p.next()[1]))
        I.update(k='insertvalue', ty=t, a=v, ety=t2, e=e, ix=ix)
    elif op == 'extractelement':
        t = p.type(); v = p.value(t); p.exp(','); it = p.type()
        I.update(k='extractelement', ty=t, a=v, ity=it, i=p.value(it))
    elif op == 'insertelement':
        t = p.type(); v = p.value(t); p.exp(','); et = p.type(); e = p.value(et); p.exp(','); it = p.type()
        I.update(k='insertelement', ty=t, a=v, ety=et, e=e, ity=it, i=p.value(it))
    elif op == 'shufflevector':
        t = p.type(); a = p.value(t); p.exp(','); t2 = p.type(); b = p.value(t2); p.exp(','); mt = p.type(); m = p.value(mt)
        I.update(k='shufflevector', ty=t, a=a, b=b, mty=mt, m=m)
    else:
        I.update(k='unsupported', s=s)
    return I


class Module:
    def __init__(self):
        self.funcs = {}
        self.globals = {}
        self.decls = set()
        self.aliases = {}
        self.meta = {}

    def load(self, path):
        lines = open(path).read().split('\n')
        i = 0
        meta = self.meta.setdefault(path, {})
        while i < len(lines):
            l = lines[i]
            if l.startswith('define '):
                j = i
                while lines[j] != '}': j += 1
                self._func(lines[i], lines[i + 1:j], path)
                i = j
            elif l.startswith('!'):
                m = re.match(r'!(\d+) = (.*)', l)
                if m: meta[int(m.group(1))] = m.group(2)
            elif l.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-\w$.]+)', l)
                if m: self.decls.add(unq('@' + m.group(1)))
            elif l.startswith('@'):
                m = re.match(r'@("[^"]*"|[-\w$.]+) = (.*)', l)
                if m:
                    name = unq('@' + m.group(1))
                    if re.match(r'[\w\s()]*\balias\b', m.group(2)):
                        ts = tokenize(m.group(2))
                        g = [x for k, x in ts if k == 'glob']
                        self.aliases[name] = unq(g[-1])
                    else:
                        self.globals[name] = m.group(2)
            i += 1

    def _func(self, head, body, path):
        m = re.search(r'@("[^"]*"|[-\w$.]+)\(', head)
        f = Func()
        f.name = unq('@' + m.group(1))
        f.path = path
        toks = tokenize(head[m.end() - 1:])
        p = P(toks)
        p.exp('(')
        ps = []
        if not p.acc(')'):
            while True:
                if p.acc('...'):
                    p.exp(')'); break
                t = p.type(); p.skipattrs()
                nm = unq(p.next()[1]) if p.peek()[0] == 'loc' else None
                ps.append((t, nm))
                if p.acc(','): continue
                p.exp(')')
                break
        f.params = ps
        f.lines = body
        f.parsed = False
        if f.name in self.funcs and ('linkonce' in head or 'weak' in head): return
        self.funcs[f.name] = f

    def func(self, name):
        name = self.aliases.get(name, name)
        f = self.funcs.get(name)
        if f is None: return None
        if not f.parsed:
            blocks, cur, order = {}, None, []
            acc = inv = None
            for l in f.lines:
                if not l.strip() or l.lstrip().startswith(';'): continue
                if acc is not None:
                    acc += ' ' + l.strip()
                    if l.strip().startswith(']'):
                        blocks[cur].append(parse_inst(acc)); acc = None
                    continue
                m = re.match(r'("[^"]*"|[-\w$.]+):', l)
                if m and not l.startswith(' '):
                    n = m.group(1)
                    cur = n[1:-1] if n[0] == '"' else n
                    blocks[cur] = []; order.append(cur)
                    continue
                if cur is None:
                    cur = '0' if not f.params else str(sum(1 for _, n in f.params if n is None or n.isdigit()))
                    blocks[cur] = []; order.append(cur)
                s = l.strip()
                if s.startswith('#dbg'): continue
                if ('invoke ' in s and s.split('=')[-1].strip().startswith('invoke ') or s.startswith('invoke ')) and ' to label ' not in s:
                    inv = s
                    continue
                if inv is not None:
                    s, inv = inv + ' ' + s, None
                if s.startswith('switch ') and ']' not in s.split('[', 1)[1]:
                    acc = s
                    continue
                blocks[cur].append(parse_inst(s))
            # unnamed parameters get numbers
            k = 0
            nps = []
            for t, n in f.params:
                if n is None: n = str(k); k += 1
                elif n.isdigit(): k = int(n) + 1
                nps.append((t, n))
            f.params = nps
            f.blocks, f.entry, f.parsed = blocks, order[0], True
        return f
