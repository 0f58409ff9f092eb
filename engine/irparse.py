"""Parser for the textual LLVM 18 IR that clang/opt print (opaque pointers).

Functions are parsed lazily: the module is first split into top level entities
and a body is only parsed when the symbolic executor reaches the function.
"""
import re

# ----------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'w', 'e', 'n', 'packed', '_sz', '_al', '_offs', 'key')

    def __init__(self, k, w=0, e=None, n=0, packed=False):
        self.k = k          # int float ptr void struct array vector label metadata func token
        self.w = w          # width in bits for int/float
        self.e = e          # element type / list of element types
        self.n = n
        self.packed = packed
        self._sz = None
        self._al = None
        self._offs = None

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.w
        if self.k == 'float':
            return 'f%d' % self.w
        if self.k == 'struct':
            return '{%s}' % ','.join(map(repr, self.e))
        if self.k in ('array', 'vector'):
            return '[%d x %r]' % (self.n, self.e)
        return self.k


VOID = Ty('void')
PTR = Ty('ptr', 64)
LABEL = Ty('label')
META = Ty('metadata')
TOKEN = Ty('token')
_ints = {}


def IntTy(w):
    t = _ints.get(w)
    if t is None:
        t = _ints[w] = Ty('int', w)
    return t


F32 = Ty('float', 32)
F64 = Ty('float', 64)
F80 = Ty('float', 80)
F16 = Ty('float', 16)
F128 = Ty('float', 128)


def align_of(t):
    if t._al is not None:
        return t._al
    k = t.k
    if k == 'int':
        b = (t.w + 7) // 8
        a = 1
        while a < b and a < 16:
            a *= 2
        if t.w > 64:
            a = 16
        r = a
    elif k == 'float':
        r = {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[t.w]
    elif k == 'ptr':
        r = 8
    elif k == 'struct':
        r = 1 if t.packed else max([align_of(x) for x in t.e] or [1])
    elif k == 'array':
        r = align_of(t.e)
    elif k == 'vector':
        r = 1
        while r < size_of(t):
            r *= 2
    else:
        raise NotImplementedError('align ' + k)
    t._al = r
    return r


def store_size(t):
    k = t.k
    if k == 'int':
        return (t.w + 7) // 8
    if k == 'float':
        return {16: 2, 32: 4, 64: 8, 80: 10, 128: 16}[t.w]
    if k == 'vector':
        return (t.n * (t.e.w) + 7) // 8
    return size_of(t)


def size_of(t):
    if t._sz is not None:
        return t._sz
    k = t.k
    if k == 'int' or k == 'float':
        a = align_of(t)
        s = store_size(t)
        r = (s + a - 1) // a * a
    elif k == 'ptr':
        r = 8
    elif k == 'struct':
        offsets(t)
        return t._sz
    elif k == 'array':
        r = t.n * size_of(t.e)
    elif k == 'vector':
        r = (t.n * t.e.w + 7) // 8
        a = 1
        while a < r:
            a *= 2
        r = a
    else:
        raise NotImplementedError('size ' + k)
    t._sz = r
    return r


def offsets(t):
    if t._offs is not None:
        return t._offs
    o = 0
    offs = []
    for e in t.e:
        if not t.packed:
            a = align_of(e)
            o = (o + a - 1) // a * a
        offs.append(o)
        o += size_of(e)
    a = align_of(t)
    t._sz = (o + a - 1) // a * a
    t._offs = offs
    return offs


# ----------------------------------------------------------------- tokens
_tok = re.compile(r'''
  (?P<ws>\s+|;[^\n]*)
 |(?P<gvar>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<lvar>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<cstr>c"[^"]*")
 |(?P<str>"[^"]*")
 |(?P<meta>![-a-zA-Z$._0-9]*(?:\\[0-9a-fA-F]{2}[-a-zA-Z$._0-9]*)*)
 |(?P<attr>\#\d+)
 |(?P<hexf>0x[KLMHR]?[0-9A-Fa-f]+)
 |(?P<num>-?\d+\.\d+(?:[eE][-+]?\d+)?|-?\d+)
 |(?P<dots>\.\.\.)
 |(?P<word>[a-zA-Z$._][-a-zA-Z$._0-9]*)
 |(?P<comdat>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = _tok.match
    while pos < n:
        x = m(s, pos)
        if x is None:
            raise SyntaxError('token at %r' % s[pos:pos + 40])
        k = x.lastgroup
        if k != 'ws':
            out.append((k, x.group()))
        pos = x.end()
    return out


# constants -------------------------------------------------------------
class C:
    """constant / operand.  k: int fp null undef poison zero gvar lvar str agg expr"""
    __slots__ = ('k', 'ty', 'v')

    def __init__(self, k, ty, v=None):
        self.k = k
        self.ty = ty
        self.v = v

    def __repr__(self):
        return 'C(%s,%r,%r)' % (self.k, self.ty, self.v)


class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'txt', 'blk', 'idx')

    def __init__(self, op, res, ty, a=None, x=None):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.x = x

    def __repr__(self):
        return '%s = %s %r %r %r' % (self.res, self.op, self.ty, self.a, self.x)


class Block:
    __slots__ = ('name', 'insts', 'phis', 'succs', 'preds', 'idx')

    def __init__(self, name):
        self.name = name
        self.insts = []
        self.phis = []
        self.succs = []
        self.preds = []


class Func:
    def __init__(self, name, rty, params, body_lines, varargs=False, decl=False, line=''):
        self.name = name
        self.rty = rty
        self.params = params   # [(ty, name, attrs)]
        self.lines = body_lines
        self.varargs = varargs
        self.decl = decl
        self.blocks = None
        self.hdr = line

    def parse(self, mod):
        if self.blocks is None:
            mod.parse_body(self)
        return self


class Global:
    __slots__ = ('name', 'ty', 'init', 'const', 'ext', 'line', 'align')


PARAM_ATTRS = {
    'zeroext', 'signext', 'inreg', 'noalias', 'nocapture', 'nofree', 'nest', 'returned', 'nonnull', 'swiftself',
    'swifterror', 'immarg', 'noundef', 'readonly', 'readnone', 'writeonly', 'writable', 'dead_on_unwind', 'allocptr',
    'allocalign'}
PAREN_ATTRS = {'byval', 'sret', 'byref', 'preallocated', 'inalloca', 'align', 'dereferenceable',
               'dereferenceable_or_null', 'nofpclass', 'elementtype', 'captures', 'range', 'memory', 'alignstack',
               'allocsize', 'vscale_range', 'initializes'}
CC = {'ccc', 'fastcc', 'coldcc', 'tailcc', 'ghccc', 'swiftcc', 'x86_64_sysvcc', 'cfguard_checkcc', 'win64cc'}
LINKAGE = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
           'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'default', 'hidden', 'protected',
           'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'externally_initialized', 'dllimport', 'dllexport'}
FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
         'bitcast', 'addrspacecast'}
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd',
          'fsub', 'fmul', 'fdiv', 'frem'}


def _unesc(s):
    if '\\' not in s:
        return s.encode('latin1')
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(c))
            i += 1
    return bytes(out)


def _nm(s):
    # strip sigil and quotes
    s = s[1:]
    if s.startswith('"'):
        s = s[1:-1]
        if '\\' in s:
            s = _unesc(s).decode('latin1')
    return s


class P:
    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        r = self.t[self.i][1]
        self.i += 1
        return r

    def eat(self, s):
        if self.i < len(self.t) and self.t[self.i][1] == s:
            self.i += 1
            return True
        return False

    def need(self, s):
        if not self.eat(s):
            raise SyntaxError('expected %r at %r' % (s, self.t[max(0, self.i - 5):self.i + 6]))

    # ---- types
    def type(self):
        k, s = self.t[self.i]
        self.i += 1
        if s == 'ptr':
            t = PTR
            if self.peek() == 'addrspace':
                self.next(); self.need('('); self.next(); self.need(')')
        elif s == 'void':
            t = VOID
        elif k == 'word' and s[0] == 'i' and s[1:].isdigit():
            t = IntTy(int(s[1:]))
        elif s == 'float':
            t = F32
        elif s == 'double':
            t = F64
        elif s == 'x86_fp80':
            t = F80
        elif s == 'fp128':
            t = F128
        elif s == 'half':
            t = F16
        elif s == 'label':
            t = LABEL
        elif s == 'metadata':
            t = META
        elif s == 'token':
            t = TOKEN
        elif k == 'lvar':
            t = self.m.named_type(_nm(s))
        elif s == '{':
            es = []
            if not self.eat('}'):
                while 1:
                    es.append(self.type())
                    if self.eat('}'):
                        break
                    self.need(',')
            t = Ty('struct', e=es)
        elif s == '[':
            n = int(self.next())
            self.need('x')
            e = self.type()
            self.need(']')
            t = Ty('array', e=e, n=n)
        elif s == '<':
            if self.eat('{'):
                es = []
                if not self.eat('}'):
                    while 1:
                        es.append(self.type())
                        if self.eat('}'):
                            break
                        self.need(',')
                self.need('>')
                t = Ty('struct', e=es, packed=True)
            else:
                if self.eat('vscale'):
                    raise NotImplementedError('vscale')
                n = int(self.next())
                self.need('x')
                e = self.type()
                self.need('>')
                t = Ty('vector', e=e, n=n)
        elif s == 'opaque':
            t = Ty('opaque')
        else:
            raise SyntaxError('type %r %r' % (s, self.t[max(0, self.i - 5):self.i + 6]))
        # function type suffix
        while self.peek() == '(' and t.k != 'label':
            self.need('(')
            ps = []
            va = False
            if not self.eat(')'):
                while 1:
                    if self.eat('...'):
                        va = True
                    else:
                        ps.append(self.type())
                    if self.eat(')'):
                        break
                    self.need(',')
            t = Ty('func', e=(t, ps, va))
        return t

    # ---- values
    def value(self, ty):
        k, s = self.t[self.i]
        self.i += 1
        if k == 'lvar':
            return C('lvar', ty, _nm(s))
        if k == 'gvar':
            return C('gvar', ty, _nm(s))
        if k == 'num':
            if ty.k == 'float':
                return C('fp', ty, float(s))
            return C('int', ty, int(s) & ((1 << ty.w) - 1))
        if k == 'hexf':
            h = s[2:]
            if h[0] in 'KLMHR':
                return C('fpbits', ty, (h[0], int(h[1:], 16)))
            import struct
            return C('fp', ty, struct.unpack('<d', struct.pack('<Q', int(h, 16)))[0] if True else 0) \
                if True else None
        if s == 'true':
            return C('int', ty, 1)
        if s == 'false':
            return C('int', ty, 0)
        if s == 'null':
            return C('null', ty)
        if s == 'undef':
            return C('undef', ty)
        if s == 'poison':
            return C('undef', ty)
        if s == 'none':
            return C('undef', ty)
        if s == 'zeroinitializer':
            return C('zero', ty)
        if k == 'cstr':
            return C('str', ty, _unesc(s[2:-1]))
        if s == '{' or s == '[':
            close = '}' if s == '{' else ']'
            return C('agg', ty, self._list(close))
        if s == '<':
            if self.eat('{'):
                r = self._list('}')
                self.need('>')
                return C('agg', ty, r)
            return C('agg', ty, self._list('>'))
        if s == 'asm':
            while self.kind() in ('word',):
                self.next()
            a = self.next()
            self.need(',')
            b = self.next()
            return C('asm', ty, (a, b))
        if k == 'meta':
            # metadata operand: skip balanced
            if self.peek() in ('(', '{'):
                d = 0
                while 1:
                    x = self.next()
                    if x in '({':
                        d += 1
                    elif x in ')}':
                        d -= 1
                        if d == 0:
                            break
            return C('undef', ty)
        if s == 'getelementptr':
            inr = False
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.next()
            self.need('(')
            et = self.type()
            self.need(',')
            ops = []
            while 1:
                self.eat('inrange')
                t = self.type()
                ops.append(self.value(t))
                if self.eat(')'):
                    break
                self.need(',')
            return C('expr', ty, ('getelementptr', et, ops))
        if s in CASTS:
            self.need('(')
            t = self.type()
            v = self.value(t)
            self.need('to')
            t2 = self.type()
            self.need(')')
            return C('expr', ty, (s, t2, [v]))
        if s in BINOPS:
            while self.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
                self.next()
            self.need('(')
            t = self.type()
            a = self.value(t)
            self.need(',')
            t = self.type()
            b = self.value(t)
            self.need(')')
            return C('expr', ty, (s, t, [a, b]))
        if s in ('icmp', 'fcmp'):
            pred = self.next()
            self.need('(')
            t = self.type()
            a = self.value(t)
            self.need(',')
            t = self.type()
            b = self.value(t)
            self.need(')')
            return C('expr', ty, (s, pred, [a, b]))
        if s == 'select':
            self.need('(')
            ops = []
            while 1:
                t = self.type()
                ops.append(self.value(t))
                if self.eat(')'):
                    break
                self.need(',')
            return C('expr', ty, ('select', None, ops))
        if s == 'blockaddress':
            raise NotImplementedError('blockaddress')
        if s == 'dso_local_equivalent' or s == 'no_cfi':
            return self.value(ty)
        raise SyntaxError('value %r %r' % (s, self.t[max(0, self.i - 5):self.i + 6]))

    def _list(self, close):
        out = []
        if self.eat(close):
            return out
        while 1:
            t = self.type()
            out.append(self.value(t))
            if self.eat(close):
                return out
            self.need(',')

    def tv(self):
        t = self.type()
        return self.value(t)

    def skip_attrs(self, collect=None):
        while self.i < len(self.t):
            k, s = self.t[self.i]
            if k == 'word' and s in PARAM_ATTRS:
                self.i += 1
                if collect is not None:
                    collect.append(s)
            elif k == 'word' and s in PAREN_ATTRS:
                self.i += 1
                nm = s
                st = self.i
                if self.peek() == '(':
                    d = 0
                    while 1:
                        x = self.next()
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0:
                                break
                elif nm == 'align':
                    self.next()
                if collect is not None:
                    collect.append((nm, self.t[st:self.i]))
            elif k == 'str':
                self.i += 1
                if self.eat('='):
                    self.next()
            else:
                return


class Module:
    def __init__(self, text):
        self.types = {}
        self.type_src = {}
        self.globals = {}
        self.glob_src = {}
        self.funcs = {}
        self.func_src = {}
        self.aliases = {}
        self._split(text)

    def _split(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                self.func_src[_nm('@' + m.group(1))] = (l, lines[i + 1:j])
                i = j + 1
                continue
            if l.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                self.func_src[_nm('@' + m.group(1))] = (l, None)
            elif l.startswith('@'):
                m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = ', l)
                nm = _nm(m.group(1))
                self.glob_src[nm] = l[m.end():]
            elif l.startswith('%'):
                m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', l)
                if m:
                    self.type_src[_nm(m.group(1))] = m.group(2)
            i += 1

    def named_type(self, nm):
        t = self.types.get(nm)
        if t is None:
            src = self.type_src.get(nm)
            if src is None:
                raise KeyError('type ' + nm)
            ph = Ty('struct', e=[])
            self.types[nm] = ph
            tt = P(self, tokenize(src)).type()
            ph.k, ph.w, ph.e, ph.n, ph.packed = tt.k, tt.w, tt.e, tt.n, tt.packed
            t = ph
        return t

    def get_global(self, nm):
        g = self.globals.get(nm)
        if g is not None:
            return g
        src = self.glob_src.get(nm)
        if src is None:
            return None
        p = P(self, tokenize(src))
        g = Global()
        g.name = nm
        g.ext = False
        g.init = None
        alias = False
        while 1:
            s = p.peek()
            if s in ('global', 'constant'):
                g.const = p.next() == 'constant'
                break
            if s == 'alias':
                p.next()
                alias = True
                break
            if s in ('external', 'extern_weak'):
                g.ext = True
            if s in LINKAGE:
                p.next()
                if s == 'thread_local' and p.peek() == '(':
                    while p.next() != ')':
                        pass
                continue
            if s == 'addrspace':
                p.next(); p.need('('); p.next(); p.need(')')
                continue
            raise SyntaxError('global %s: %r' % (nm, p.t[p.i:p.i + 4]))
        if alias:
            t = p.type()
            p.need(',')
            v = p.tv()
            g.const = True
            self.aliases[nm] = v
            g.ty = t
            g.init = v
            self.globals[nm] = g
            return g
        g.ty = p.type()
        if not g.ext:
            g.init = p.value(g.ty)
        self.globals[nm] = g
        return g

    def is_alias(self, nm):
        self.get_global(nm)
        return self.aliases.get(nm)

    def get_func(self, nm):
        f = self.funcs.get(nm)
        if f is not None:
            return f
        src = self.func_src.get(nm)
        if src is None:
            return None
        line, body = src
        p = P(self, tokenize(line.rstrip('{ ').strip()))
        p.next()
        while 1:
            s = p.peek()
            if s in LINKAGE or s in CC:
                p.next()
                continue
            save = p.i
            p.skip_attrs()
            if p.i == save:
                break
        rty = p.type()
        p.skip_attrs()
        assert p.kind() == 'gvar', p.t[p.i]
        p.next()
        p.need('(')
        params = []
        va = False
        cnt = 0
        if not p.eat(')'):
            while 1:
                if p.eat('...'):
                    va = True
                else:
                    t = p.type()
                    at = []
                    p.skip_attrs(at)
                    nme = None
                    if p.kind() == 'lvar':
                        nme = _nm(p.next())
                    else:
                        nme = str(cnt)
                    cnt += 1
                    # byval type
                    bv = None
                    for a in at:
                        if isinstance(a, tuple) and a[0] == 'byval':
                            bv = P(self, a[1][1:-1]).type()
                    params.append((t, nme, bv))
                if p.eat(')'):
                    break
                p.need(',')
        f = Func(nm, rty, params, body, va, body is None, line)
        self.funcs[nm] = f
        return f

    # ------------------------------------------------------------ bodies
    def parse_body(self, f):
        blocks = []
        cur = None
        lines = f.lines
        # count numbering of unnamed values for the entry label
        n_unnamed = sum(1 for (_, nm, _b) in f.params if nm.isdigit())
        i = 0
        first = True
        while i < len(lines):
            l = lines[i]
            if not l.strip() or l.lstrip().startswith(';'):
                i += 1
                continue
            if not l.startswith(' '):
                m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', l)
                nm = m.group(1)
                if nm.startswith('"'):
                    nm = _nm('%' + nm)
                cur = Block(nm)
                blocks.append(cur)
                first = False
                i += 1
                continue
            if first:
                cur = Block(str(n_unnamed))
                blocks.append(cur)
                first = False
            txt = l
            # multi-line: switch [...], invoke ... to label, landingpad clauses
            st = l.lstrip()
            i += 1
            if ' switch ' in l or st.startswith('switch '):
                if l.rstrip().endswith('['):
                    while ']' not in lines[i]:
                        txt += ' ' + lines[i]
                        i += 1
                    txt += ' ' + lines[i]
                    i += 1
            elif 'invoke ' in l:
                if ' unwind label ' not in l:
                    txt += ' ' + lines[i]
                    i += 1
            elif ' landingpad ' in l or st.startswith('landingpad'):
                while i < len(lines) and re.match(r'\s+(catch|cleanup|filter)\b', lines[i]):
                    txt += ' ' + lines[i]
                    i += 1
            ins = self.parse_inst(txt)
            ins.txt = txt.strip()
            ins.blk = cur
            if ins.op == 'phi':
                cur.phis.append(ins)
            else:
                cur.insts.append(ins)
        bm = {b.name: b for b in blocks}
        for idx, b in enumerate(blocks):
            b.idx = idx
            t = b.insts[-1]
            if t.op == 'br':
                ss = t.x
            elif t.op == 'switch':
                ss = [t.x[0]] + [l for _, l in t.x[1]]
            elif t.op == 'invoke':
                ss = [t.x['normal'], t.x['unwind']]
            else:
                ss = []
            seen = []
            for s in ss:
                if s not in seen:
                    seen.append(s)
            b.succs = [bm[s] for s in seen]
            for s in b.succs:
                s.preds.append(b)
        f.blocks = blocks
        f.bmap = bm

    def parse_inst(self, txt):
        # cut trailing metadata
        p = P(self, tokenize(txt))
        res = None
        if p.kind() == 'lvar' and p.t[1][1] == '=':
            res = _nm(p.next())
            p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op in BINOPS:
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint') or p.peek() in FMF:
                p.next()
            t = p.type()
            a = p.value(t)
            p.need(',')
            b = p.value(t)
            return Inst(op, res, t, [a, b])
        if op == 'fneg':
            while p.peek() in FMF:
                p.next()
            t = p.type()
            return Inst(op, res, t, [p.value(t)])
        if op in CASTS:
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                if p.next() == 'nneg' and op == 'zext':
                    op = 'sext'     # the same for non-negative values, which is all the instruction is defined for
            t = p.type()
            a = p.value(t)
            p.need('to')
            t2 = p.type()
            return Inst(op, res, t2, [a])
        if op in ('icmp', 'fcmp'):
            while p.peek() in FMF or p.peek() == 'samesign':
                p.next()
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.need(',')
            b = p.value(t)
            return Inst(op, res, IntTy(1), [a, b], pred)
        if op == 'alloca':
            p.eat('inalloca')
            t = p.type()
            cnt = None
            al = None
            while p.eat(','):
                if p.eat('align'):
                    al = int(p.next())
                elif p.kind() == 'meta':
                    break
                else:
                    cnt = p.tv()
            return Inst(op, res, PTR, [cnt] if cnt is not None else [], (t, al))
        if op == 'load':
            p.eat('atomic')
            p.eat('volatile')
            t = p.type()
            p.need(',')
            return Inst(op, res, t, [p.tv()])
        if op == 'store':
            p.eat('atomic')
            p.eat('volatile')
            v = p.tv()
            p.need(',')
            q = p.tv()
            return Inst(op, None, VOID, [v, q])
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            et = p.type()
            p.need(',')
            ops = [p.tv()]
            while p.eat(','):
                if p.kind() == 'meta':
                    break
                p.eat('inrange')
                ops.append(p.tv())
            ty = PTR
            return Inst(op, res, ty, ops, et)
        if op == 'br':
            if p.eat('label'):
                return Inst(op, None, VOID, [], [_nm(p.next())])
            t = p.type()
            c = p.value(t)
            p.need(',')
            p.need('label')
            l1 = _nm(p.next())
            p.need(',')
            p.need('label')
            l2 = _nm(p.next())
            return Inst(op, None, VOID, [c], [l1, l2])
        if op == 'switch':
            t = p.type()
            v = p.value(t)
            p.need(',')
            p.need('label')
            d = _nm(p.next())
            p.need('[')
            cs = []
            while not p.eat(']'):
                ct = p.type()
                cv = p.value(ct)
                p.need(',')
                p.need('label')
                cs.append((cv.v, _nm(p.next())))
            return Inst(op, None, VOID, [v], (d, cs))
        if op == 'ret':
            t = p.type()
            if t.k == 'void':
                return Inst(op, None, VOID, [])
            return Inst(op, None, VOID, [p.value(t)])
        if op == 'resume':
            return Inst(op, None, VOID, [p.tv()])
        if op == 'unreachable':
            return Inst(op, None, VOID, [])
        if op == 'phi':
            while p.peek() in FMF:
                p.next()
            t = p.type()
            inc = []
            while 1:
                p.need('[')
                v = p.value(t)
                p.need(',')
                l = _nm(p.next())
                p.need(']')
                inc.append((v, l))
                if not p.eat(','):
                    break
                if p.kind() == 'meta':
                    break
            return Inst(op, res, t, inc)
        if op == 'select':
            while p.peek() in FMF:
                p.next()
            a = p.tv()
            p.need(',')
            b = p.tv()
            p.need(',')
            c = p.tv()
            return Inst(op, res, b.ty, [a, b, c])
        if op == 'freeze':
            v = p.tv()
            return Inst(op, res, v.ty, [v])
        if op in ('call', 'invoke'):
            while p.peek() in FMF or p.peek() in CC:
                p.next()
            while 1:
                s = p.i
                p.skip_attrs()
                if p.peek() == 'addrspace':
                    p.next(); p.need('('); p.next(); p.need(')')
                if p.i == s:
                    break
            t = p.type()
            rty = t.e[0] if t.k == 'func' else t
            callee = p.value(PTR)
            p.need('(')
            args = []
            if not p.eat(')'):
                while 1:
                    at = p.type()
                    attrs = []
                    p.skip_attrs(attrs)
                    if at.k == 'metadata':
                        # skip metadata argument
                        d = 0
                        while 1:
                            x = p.peek()
                            if x in ('(', '{', '['):
                                d += 1
                            elif x in (')', '}', ']'):
                                if d == 0:
                                    break
                                d -= 1
                            elif x == ',' and d == 0:
                                break
                            p.next()
                        args.append(C('undef', at))
                    else:
                        v = p.value(at)
                        args.append(v)
                    if p.eat(')'):
                        break
                    p.need(',')
            x = {'callee': callee}
            if op == 'invoke':
                while p.peek() != 'to':
                    p.next()
                p.need('to')
                p.need('label')
                x['normal'] = _nm(p.next())
                p.need('unwind')
                p.need('label')
                x['unwind'] = _nm(p.next())
            return Inst(op, res, rty, args, x)
        if op == 'landingpad':
            t = p.type()
            clauses = []
            while p.i < len(p.t):
                s = p.peek()
                if s == 'cleanup':
                    p.next()
                    clauses.append(('cleanup', None))
                elif s == 'catch':
                    p.next()
                    clauses.append(('catch', p.tv()))
                elif s == 'filter':
                    p.next()
                    clauses.append(('filter', p.tv()))
                else:
                    break
            return Inst(op, res, t, [], clauses)
        if op == 'extractvalue':
            a = p.tv()
            idx = []
            while p.eat(','):
                if p.kind() == 'meta':
                    break
                idx.append(int(p.next()))
            t = a.ty
            for k in idx:
                t = t.e[k] if t.k == 'struct' else t.e
            return Inst(op, res, t, [a], idx)
        if op == 'insertvalue':
            a = p.tv()
            p.need(',')
            v = p.tv()
            idx = []
            while p.eat(','):
                if p.kind() == 'meta':
                    break
                idx.append(int(p.next()))
            return Inst(op, res, a.ty, [a, v], idx)
        if op == 'extractelement':
            a = p.tv()
            p.need(',')
            b = p.tv()
            return Inst(op, res, a.ty.e, [a, b])
        if op == 'insertelement':
            a = p.tv()
            p.need(',')
            b = p.tv()
            p.need(',')
            c = p.tv()
            return Inst(op, res, a.ty, [a, b, c])
        if op == 'shufflevector':
            a = p.tv()
            p.need(',')
            b = p.tv()
            p.need(',')
            c = p.tv()
            return Inst(op, res, Ty('vector', e=a.ty.e, n=c.ty.n), [a, b, c])
        if op == 'fence':
            return Inst(op, None, VOID, [])
        if op == 'atomicrmw':
            p.eat('volatile')
            o = p.next()
            a = p.tv()
            p.need(',')
            b = p.tv()
            return Inst(op, res, b.ty, [a, b], o)
        if op == 'cmpxchg':
            p.eat('weak')
            p.eat('volatile')
            a = p.tv()
            p.need(',')
            b = p.tv()
            p.need(',')
            c = p.tv()
            return Inst(op, res, Ty('struct', e=[b.ty, IntTy(1)]), [a, b, c])
        if op == 'va_arg':
            a = p.tv()
            p.need(',')
            t = p.type()
            return Inst(op, res, t, [a])
        raise SyntaxError('inst %s: %s' % (op, txt))


# ----------------------------------------------------------------- loops
def analyse(f):
    """dominators, natural loops, topological order inside loop nest"""
    blocks = f.blocks
    entry = blocks[0]
    # reverse postorder
    seen = set()
    order = []
    stack = [(entry, iter(entry.succs))]
    seen.add(entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(s.succs)))
                break
        else:
            order.append(b)
            stack.pop()
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for q in b.preds:
                if q in idom and q in num:
                    if new is None:
                        new = q
                    else:
                        x, y = q, new
                        while x is not y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) is not new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while 1:
            if a is b:
                return True
            if b is entry:
                return False
            b = idom[b]

    loops = {}   # header -> set of blocks
    latches = {}
    for b in rpo:
        for s in b.succs:
            if num[s] <= num[b]:
                if not dom(s, b):
                    raise NotImplementedError('irreducible loop in ' + f.name)
                body = loops.setdefault(s, {s})
                latches.setdefault(s, []).append(b)
                work = [b]
                while work:
                    x = work.pop()
                    if x in body:
                        continue
                    body.add(x)
                    work.extend(q for q in x.preds if q in num)
    f.rpo = rpo
    f.num = num
    f.loops = loops
    f.latches = latches
    # innermost loop header of each block
    inner = {}
    for h, body in sorted(loops.items(), key=lambda kv: -len(kv[1])):
        for b in body:
            inner[b] = h
    f.inner = inner
    f.idom = idom
    return f
