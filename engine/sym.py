"""Verification-condition generator: merging symbolic execution of LLVM IR.

Every function reached from a contract harness is executed symbolically over
all inputs; states are merged at control-flow joins, so the whole harness ends
up as one set of first order obligations.  Loops whose trip count is decided by
concrete values are executed completely; other loops need a loop contract
(invariant), or are unrolled to a declared bound (then the run is 'bounded').
"""
import re
import time
import z3
import irparse
from irparse import size_of, store_size, align_of, offsets, IntTy, PTR, C
from vals import *

PAGE_OK_SIZE = 1 << 40


class Path:
    __slots__ = ('parent', 'cond', 'depth')

    def __init__(self, parent, cond):
        self.parent = parent
        self.cond = cond
        self.depth = parent.depth + 1 if parent else 0

    def add(self, c):
        if c is True:
            return self
        return Path(self, c)

    def until(self, anc):
        out = []
        p = self
        while p is not anc:
            out.append(p.cond)
            p = p.parent
        out.reverse()
        return out

    def all(self):
        out = []
        p = self
        while p.parent is not None:
            out.append(p.cond)
            p = p.parent
        out.reverse()
        return out


ROOT = Path(None, True)


def lca(paths):
    ps = list(paths)
    d = min(p.depth for p in ps)
    ps = [_up(p, d) for p in ps]
    while any(p is not ps[0] for p in ps):
        ps = [p.parent for p in ps]
    return ps[0]


def _up(p, d):
    while p.depth > d:
        p = p.parent
    return p


def is_compl(a, b):
    if type(a) is bool or type(b) is bool:
        return a is not b and type(a) is bool and type(b) is bool
    if z3.is_not(a) and a.arg(0).eq(b):
        return True
    if z3.is_not(b) and b.arg(0).eq(a):
        return True
    return False


def reduce_lists(lists):
    """lists of literal lists; merge pairs that differ only in a complementary last literal"""
    ls = [list(l) for l in lists]
    ch = True
    while ch and len(ls) > 1:
        ch = False
        for i in range(len(ls)):
            for j in range(i + 1, len(ls)):
                a, b = ls[i], ls[j]
                if len(a) == len(b) and a and is_compl(a[-1], b[-1]) and \
                        all(same(x, y) for x, y in zip(a[:-1], b[:-1])):
                    ls[i] = a[:-1]
                    del ls[j]
                    ch = True
                    break
            if ch:
                break
    return ls


class Obj:
    __slots__ = ('id', 'name', 'size', 'kind', 'const', 'init', 'base', 'ro', 'tag', 'inname', 'align', 'ptrs')

    def __init__(self, id, name, size, kind):
        self.id = id
        self.name = name
        self.size = size       # int or BV64
        self.kind = kind       # stack heap global func input ext
        self.const = False
        self.init = None
        self.base = None
        self.ro = False
        self.tag = None
        self.inname = None
        self.align = 16
        self.ptrs = None


class OS:
    """content of one object"""
    __slots__ = ('cells', 'arr', 'alive', 'owner', 'esz')

    def __init__(self):
        self.cells = {}      # off -> (size, value)
        self.arr = None      # z3 Array (after a symbolic access)
        self.alive = True
        self.owner = None

    def copy(self, owner):
        n = OS()
        n.cells = dict(self.cells)
        n.arr = self.arr
        n.alive = self.alive
        n.owner = owner
        return n


class State:
    __slots__ = ('path', 'mem', 'exc', 'caught', 'owner', 'ghost')
    _cnt = [0]

    def __init__(self, path, mem, exc=None, caught=(), ghost=None):
        self.path = path
        self.mem = mem
        self.exc = exc
        self.caught = caught
        self.ghost = ghost if ghost is not None else {}
        State._cnt[0] += 1
        self.owner = State._cnt[0]

    def fork(self):
        # both sides lose exclusive ownership
        s = State(self.path, dict(self.mem), self.exc, self.caught, dict(self.ghost))
        State._cnt[0] += 1
        self.owner = State._cnt[0]
        return s

    def assume(self, c):
        self.path = self.path.add(c)


class Oblig:
    __slots__ = ('name', 'path', 'cond', 'kind', 'where', 'idx')

    def __init__(self, name, path, cond, kind, where):
        self.name = name
        self.path = path
        self.cond = cond
        self.kind = kind
        self.where = where


class Dead(Exception):
    """the current path cannot continue"""


class Executor:
    def __init__(self, mod, opts=None):
        self.m = mod
        self.o = dict(fp='ieee', max_iter=64, max_depth=60, check_bounds=True, feas_timeout=4000, small=300,
                      uninit=False)
        if opts:
            self.o.update(opts)
        self.objs = [Obj(0, 'null', 0, 'null')]
        self.gids = {}
        self.obligs = []
        self.assumps = []       # facts about fresh symbols, always true
        self.fresh_n = {}
        self.inputs = {}        # name -> (kind, term...)
        self.input_order = []
        self.covers = []
        self.observes = []
        self.depth = 0
        self.notes = set()
        self.trusted = set()
        self.funcs_seen = {}
        self.models = {}
        self.model_pats = []
        self.contracts = {}
        self.loop_contracts = []
        self.loops_cut = []
        self.bounded = set()
        self.base_by_ast = {}
        self.stack = []
        self.solver_time = 0.0
        self.feas_calls = 0
        self.objmax = 0
        self.deadline = None
        self.hooks = {}
        import models
        models.install(self)
        import loops
        self.loops = loops
        loops.install_models(self)
        if 'unroll' in self.o:
            self.o['max_iter'] = self.o['unroll']
            self.o['unwind_assume'] = 1

    # ------------------------------------------------------------ fresh
    def fresh_name(self, base):
        n = self.fresh_n.get(base, 0)
        self.fresh_n[base] = n + 1
        return base if n == 0 else '%s#%d' % (base, n)

    def fresh_bv(self, base, w):
        return z3.BitVec(self.fresh_name(base), w)

    def fresh_bool(self, base):
        return z3.Bool(self.fresh_name(base))

    def fresh_of(self, ty, base='havoc'):
        k = ty.k
        if k == 'int':
            if ty.w == 1:
                return self.fresh_bool(base)
            return self.fresh_bv(base, ty.w)
        if k == 'float':
            if ty.w in (32, 64):
                return FV(ty.w, b=self.fresh_bv(base, ty.w))
            return FV(ty.w, f=z3.FP(self.fresh_name(base), fsort(ty.w)))
        if k == 'ptr':
            # arbitrary pointer value: an unknown object
            o = self.new_obj(self.fresh_name('wild'), 0, 'wild')
            return Ptr([(True, o.id, 0)])
        if k == 'struct':
            return Agg([self.fresh_of(e, base) for e in ty.e])
        if k in ('array', 'vector'):
            return (Vec if k == 'vector' else Agg)([self.fresh_of(ty.e, base) for _ in range(ty.n)])
        raise Unsupported('fresh ' + k)

    # ---------------------------------------------------------- objects
    def new_obj(self, name, size, kind):
        o = Obj(len(self.objs), name, size, kind)
        self.objs.append(o)
        return o

    def base_of(self, oid):
        if oid == 0:
            return z3.BitVecVal(0, 64)
        o = self.objs[oid]
        if o.base is None:
            b = z3.BitVec('base!%d!%s' % (oid, o.name), 64)
            o.base = b
            self.base_by_ast[b.get_id()] = oid
            # addresses: non null, aligned, no wrap
            self.assumps.append(z3.UGE(b, z3.BitVecVal(4096, 64)))
            self.assumps.append(z3.ULT(b, z3.BitVecVal(1 << 47, 64)))
            if o.align > 1:
                self.assumps.append((b & (o.align - 1)) == 0)
        return o.base

    def global_ptr(self, name):
        al = self.m.is_alias(name)
        if al is not None:
            return self.const(al)
        gid = self.gids.get(name)
        if gid is None:
            g = self.m.get_global(name)
            if g is not None:
                if g.ext:
                    sz = 0
                    try:
                        sz = size_of(g.ty)
                    except Exception:
                        pass
                    o = self.new_obj('@' + name, sz, 'extglobal')
                    o.const = g.const
                else:
                    o = self.new_obj('@' + name, size_of(g.ty), 'global')
                    o.const = g.const
                    o.init = g
            else:
                o = self.new_obj('@' + name, 0, 'func')
                o.tag = name
                o.align = 1
            gid = self.gids[name] = o.id
        return Ptr([(True, gid, 0)])

    def os(self, st, oid):
        s = st.mem.get(oid)
        if s is None:
            o = self.objs[oid]
            s = OS()
            if o.kind == 'global' and o.init is not None:
                if o.const or self.o.get('globals_init', True) :
                    if not o.const:
                        self.notes.add('mutable global %s starts from its static initialiser' % o.name)
                    self.flatten(s.cells, 0, o.init.init)
            st.mem[oid] = s
        return s

    def osw(self, st, oid):
        s = self.os(st, oid)
        if s.owner != st.owner:
            s = s.copy(st.owner)
            st.mem[oid] = s
        return s

    def flatten(self, cells, off, c):
        t = c.ty
        k = c.k
        if k == 'agg':
            if t.k == 'struct':
                for o, e in zip(offsets(t), c.v):
                    self.flatten(cells, off + o, e)
            else:
                es = size_of(t.e)
                for i, e in enumerate(c.v):
                    self.flatten(cells, off + i * es, e)
            return
        if k == 'str':
            for i, ch in enumerate(c.v):
                cells[off + i] = (1, ch)
            return
        if k == 'zero' or (k == 'undef'):
            self.zero_cells(cells, off, t)
            return
        if k == 'null':
            cells[off] = (8, NULL)
            return
        v = self.const(c)
        cells[off] = (store_size(t), self.tomem(v, t))

    def zero_cells(self, cells, off, t):
        if t.k == 'struct':
            sz = size_of(t)
            for o, e in zip(offsets(t), t.e):
                self.zero_cells(cells, off + o, e)
            # padding
            pos = off
            for o, e in zip(offsets(t), t.e):
                if pos < off + o:
                    for q in range(pos, off + o):
                        cells[q] = (1, 0)
                pos = off + o + size_of(e)
            for q in range(pos, off + sz):
                cells[q] = (1, 0)
        elif t.k == 'array':
            es = size_of(t.e)
            if t.e.k == 'int' and t.e.w == 8 and t.n > 4096:
                raise Unsupported('huge zero array')
            for i in range(t.n):
                self.zero_cells(cells, off + i * es, t.e)
        elif t.k == 'ptr':
            cells[off] = (8, NULL)
        else:
            n = store_size(t)
            cells[off] = (n, 0)

    # ---------------------------------------------------------- consts
    def const(self, c):
        k = c.k
        if k == 'int':
            if c.ty.w == 1:
                return bool(c.v)
            return c.v
        if k == 'fp':
            return fconst(c.v, c.ty.w)
        if k == 'null':
            return NULL
        if k == 'undef':
            return self.undef(c.ty)
        if k == 'zero':
            return self.zero(c.ty)
        if k == 'gvar':
            return self.global_ptr(c.v)
        if k == 'agg':
            v = [self.const(x) for x in c.v]
            return Vec(v) if c.ty.k == 'vector' else Agg(v)
        if k == 'str':
            return Agg(list(c.v))
        if k == 'expr':
            return self.cexpr(c)
        if k == 'fpbits':
            if c.ty.w == 80:
                bits = c.v[1]
                sign = bits >> 79
                ex = (bits >> 64) & 0x7fff
                man = bits & ((1 << 64) - 1)
                if ex == 0 and man == 0:
                    return FV(80, f=z3.FPVal(0.0, S80))
                # value = man * 2^(ex-16383-63)
                import fractions
                e2 = ex - 16383 - 63
                fr = fractions.Fraction(man) * (fractions.Fraction(2) ** e2)
                if sign:
                    fr = -fr
                if fr.denominator == 1:
                    return FV(80, f=z3.simplify(z3.fpRealToFP(RNE, z3.RealVal(str(fr.numerator)), S80)))
                return FV(80, f=z3.simplify(
                    z3.fpRealToFP(RNE, z3.RealVal('%d/%d' % (fr.numerator, fr.denominator)), S80)))
        raise Unsupported('const %r' % c)

    def cexpr(self, c):
        op, x, ops = c.v
        if op == 'getelementptr':
            vs = [self.const(o) for o in ops]
            return self.gep(x, vs, [o.ty for o in ops])
        if op in irparse.CASTS:
            return self.cast(op, self.const(ops[0]), ops[0].ty, x)
        if op in irparse.BINOPS:
            return self.binop(op, x, self.const(ops[0]), self.const(ops[1]))
        if op == 'icmp':
            return self.icmp(x, ops[0].ty, self.const(ops[0]), self.const(ops[1]))
        if op == 'select':
            return self.ite(zb(self.const(ops[0])), self.const(ops[1]), self.const(ops[2]), ops[1].ty)
        raise Unsupported('constexpr ' + op)

    def undef(self, ty):
        if ty.k == 'ptr':
            return NULL
        if ty.k == 'struct':
            return Agg([self.undef(e) for e in ty.e])
        if ty.k == 'array':
            return Agg([self.undef(ty.e) for _ in range(ty.n)])
        if ty.k == 'vector':
            return Vec([self.undef(ty.e) for _ in range(ty.n)])
        if ty.k == 'metadata':
            return None
        return self.fresh_of(ty, 'undef')

    def zero(self, ty):
        k = ty.k
        if k == 'int':
            return False if ty.w == 1 else 0
        if k == 'float':
            return fconst(0.0, ty.w)
        if k == 'ptr':
            return NULL
        if k == 'struct':
            return Agg([self.zero(e) for e in ty.e])
        if k == 'array':
            return Agg([self.zero(ty.e) for _ in range(ty.n)])
        if k == 'vector':
            return Vec([self.zero(ty.e) for _ in range(ty.n)])
        raise Unsupported('zero')

    # ---------------------------------------------------------- floats
    def bits(self, fv):
        if fv._b is not None:
            return fv._b
        c = fv.cbits()
        if c is not None:
            return c
        if fv.w == 80:
            raise Unsupported('bits of x86_fp80')
        key = ('fbits', fv._f.get_id())
        memo = self.hooks.setdefault('fbits', {})
        hit = memo.get(fv._f.get_id())
        if hit is not None:
            fv._b = hit[1]
            return hit[1]
        b = self.fresh_bv('fbits', fv.w)
        s = fsort(fv.w)
        # equal as IEEE data (same sign of zero); any NaN pattern stands for NaN
        self.assumps.append(z3.fpBVToFP(b, s) == fv._f)
        memo[fv._f.get_id()] = (fv._f, b)
        fv._b = b
        return b

    def ffold(self, op, w, vals):
        """constant folding through python doubles"""
        import struct
        import math
        if w != 64 and w != 32:
            return None
        ps = []
        for v in vals:
            p = fpy(v)
            if p is None or math.isnan(p) or math.isinf(p):
                return None
            ps.append(p)
        try:
            if op == 'fadd':
                r = ps[0] + ps[1]
            elif op == 'fsub':
                r = ps[0] - ps[1]
            elif op == 'fmul':
                r = ps[0] * ps[1]
            elif op == 'fdiv':
                if ps[1] == 0:
                    return None
                r = ps[0] / ps[1]
            else:
                return None
        except OverflowError:
            return None
        if math.isinf(r) or math.isnan(r):
            return None
        return fconst(r, w)   # double rounding is innocuous for binary32 via binary64

    def fbin(self, op, w, a, b):
        if a.isconst() and b.isconst():
            r = self.ffold(op, w, [a, b])
            if r is not None:
                return r
        if self.o['fp'] == 'uf' and w in (32, 64):
            f = z3.Function('uf_%s%d' % (op, w), z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))
            x, y = bv(self.bits(a), w), bv(self.bits(b), w)
            if op in ('fadd', 'fmul') and x.get_id() > y.get_id():
                x, y = y, x      # IEEE addition and multiplication commute (up to NaN payload)
            return FV(w, b=f(x, y))
        x, y = a.f(), b.f()
        if op == 'fadd':
            r = z3.fpAdd(RNE, x, y)
        elif op == 'fsub':
            r = z3.fpSub(RNE, x, y)
        elif op == 'fmul':
            r = z3.fpMul(RNE, x, y)
        elif op == 'fdiv':
            r = z3.fpDiv(RNE, x, y)
        else:
            f = z3.Function('uf_%s%d' % (op, w), fsort(w), fsort(w), fsort(w))
            r = f(x, y)
        return FV(w, f=r)

    def fcmp(self, pred, a, b, w):
        if pred == 'true':
            return True
        if pred == 'false':
            return False
        x, y = a.f(), b.f()
        un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        if pred == 'ord':
            return simp_b(z3.Not(un))
        if pred == 'uno':
            return simp_b(un)
        p = pred[1:]
        if pred[0] == 'o':
            r = {'eq': lambda: z3.fpEQ(x, y), 'gt': lambda: z3.fpGT(x, y), 'ge': lambda: z3.fpGEQ(x, y),
                 'lt': lambda: z3.fpLT(x, y), 'le': lambda: z3.fpLEQ(x, y),
                 'ne': lambda: z3.And(z3.Not(un), z3.Not(z3.fpEQ(x, y)))}[p]()
        else:
            r = {'eq': lambda: z3.Or(un, z3.fpEQ(x, y)), 'gt': lambda: z3.Not(z3.fpLEQ(x, y)),
                 'ge': lambda: z3.Not(z3.fpLT(x, y)), 'lt': lambda: z3.Not(z3.fpGEQ(x, y)),
                 'le': lambda: z3.Not(z3.fpGT(x, y)), 'ne': lambda: z3.Not(z3.fpEQ(x, y))}[p]()
        if a.isconst() and b.isconst():
            return simp_b(r)
        return r

    # ---------------------------------------------------------- pointers
    def pint(self, v):
        """value -> integer (BV64) for arithmetic on pointers"""
        if isinstance(v, Ptr):
            r = None
            for g, o, f in reversed(v.alts):
                t = self.base_of(o)
                if not (is_c(f) and f == 0):
                    t = t + bv(f, 64)
                if o == 0:
                    t = bv(f, 64)
                r = t if r is None else z3.If(zb(g), t, r)
            if z3.is_bv_value(r):
                return r.as_long()
            return r
        return v

    def toptr(self, v):
        """integer -> pointer"""
        if isinstance(v, Ptr):
            return v
        if is_c(v):
            if v == 0:
                return NULL
            return Ptr([(True, 0, v)])
        e = z3.simplify(v)
        # find object base in a sum
        if z3.is_bv_value(e):
            return self.toptr(e.as_long())
        if e.decl().kind() == z3.Z3_OP_ITE:
            a = self.toptr(e.arg(1))
            b = self.toptr(e.arg(2))
            return self.ite(e.arg(0), a, b, PTR)
        terms = [e]
        if e.decl().kind() == z3.Z3_OP_BADD:
            terms = [e.arg(i) for i in range(e.num_args())]
        for t in terms:
            oid = self.base_by_ast.get(t.get_id())
            if oid is not None:
                off = simp(e - t)
                return Ptr([(True, oid, off)])
        o = self.new_obj(self.fresh_name('wild'), 0, 'wild')
        return Ptr([(True, o.id, 0)])

    def padd(self, p, d):
        if not isinstance(p, Ptr):
            p = self.toptr(p)
        if is_c(d) and d == 0:
            return p
        out = []
        for g, o, f in p.alts:
            if is_c(f) and is_c(d):
                n = (f + d) & mask(64)
            else:
                n = simp(bv(f, 64) + bv(d, 64))
            out.append((g, o, n))
        return Ptr(out)

    def gep(self, ety, vs, tys):
        p = vs[0]
        if isinstance(p, Vec):
            raise Unsupported('vector gep')
        off = 0
        sym = None
        t = ety
        first = True
        for v, vt in zip(vs[1:], tys[1:]):
            if first:
                sz = size_of(t)
                first = False
            elif t.k == 'struct':
                off += offsets(t)[v]
                t = t.e[v]
                continue
            else:
                sz = size_of(t.e)
                t = t.e
            if isinstance(v, Ptr):
                v = self.pint(v)
            if type(v) is int:
                w = vt.w
                if v >> (w - 1):
                    v -= 1 << w
                off += v * sz
            else:
                if v.size() < 64:
                    v = z3.SignExt(64 - v.size(), v)
                elif v.size() > 64:
                    v = z3.Extract(63, 0, v)
                tt = v * z3.BitVecVal(sz, 64) if sz != 1 else v
                sym = tt if sym is None else sym + tt
        if sym is None:
            return self.padd(p, off & mask(64))
        if off:
            sym = sym + z3.BitVecVal(off & mask(64), 64)
        return self.padd(p, sym)

    def ptr_eq(self, a, b):
        a = self.toptr(a)
        b = self.toptr(b)
        res = []
        for g, o, f in a.alts:
            for g2, o2, f2 in b.alts:
                gg = b_and(g, g2)
                if o == o2:
                    if is_c(f) and is_c(f2):
                        e = f == f2
                    else:
                        e = simp_b(bv(f, 64) == bv(f2, 64))
                else:
                    k1, k2 = self.objs[o].kind, self.objs[o2].kind
                    if k1 == 'wild' or k2 == 'wild':
                        e = self.fresh_bool('wildcmp')
                    else:
                        e = False
                res.append(b_and(gg, e))
        return b_ors(res)

    def order(self, pred, o, f, o2, f2):
        """pointers into different objects: one object lies before the other (which one is not known)"""
        a, b = self.objs[o], self.objs[o2]
        if not (o and o2 and is_c(f) and is_c(f2) and is_c(a.size) and is_c(b.size) and f <= a.size and f2 <= b.size) \
                or 'wild' in (a.kind, b.kind) or 'extglobal' in (a.kind, b.kind):
            return None
        if pred[1:] in ('gt', 'ge'):
            return self.order(pred[0] + {'gt': 'lt', 'ge': 'le'}[pred[1:]], o2, f2, o, f)
        before = z3.Bool('before!%d!%d' % (min(o, o2), max(o, o2)))
        if o > o2:
            before = z3.Not(before)
        if pred[1:] == 'lt':
            return b_and(before, self.fresh_bool('adjacent')) if f == a.size and f2 == 0 else before
        return b_or(before, self.fresh_bool('adjacent')) if f2 == b.size and f == 0 else before

    def icmp(self, pred, ty, a, b):
        if isinstance(a, Vec):
            return Vec([self.icmp(pred, ty.e, x, y) for x, y in zip(a, b)])
        if ty.k == 'ptr' or isinstance(a, Ptr) or isinstance(b, Ptr):
            if pred == 'eq':
                return self.ptr_eq(a, b)
            if pred == 'ne':
                return b_not(self.ptr_eq(a, b))
            a = self.toptr(a)
            b = self.toptr(b)
            if len(a.alts) == 1 and len(b.alts) == 1 and a.alts[0][1] == b.alts[0][1]:
                # within one object (offsets in bounds: compare as signed so that one-before works)
                x, y = a.alts[0][2], b.alts[0][2]
                return self.icmp({'u': 's'}.get(pred[0], pred[0]) + pred[1:], IntTy(64), x, y)
            res = []
            for g, o, f in a.alts:
                for g2, o2, f2 in b.alts:
                    if o == o2:
                        e = self.icmp('s' + pred[1:], IntTy(64), f, f2)
                    elif (e := self.order(pred, o, f, o2, f2)) is not None:
                        pass
                    else:
                        x = self.pint(Ptr([(True, o, f)]))
                        y = self.pint(Ptr([(True, o2, f2)]))
                        e = self.icmp(pred, IntTy(64), x, y)
                    res.append(b_and(b_and(g, g2), e))
            return b_ors(res)
        w = ty.w
        if w == 1:
            if pred == 'eq':
                return b_eq(a, b)
            if pred == 'ne':
                return b_not(b_eq(a, b))
            # unsigned on bools
            x, y = bv(a, 1), bv(b, 1)
            return self._cmp(pred, x, y)
        if type(a) is int and type(b) is int:
            if pred == 'eq':
                return a == b
            if pred == 'ne':
                return a != b
            if pred[0] == 's':
                if a >> (w - 1):
                    a -= 1 << w
                if b >> (w - 1):
                    b -= 1 << w
            return {'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[pred[1:]]
        return self._cmp(pred, bv(a, w), bv(b, w))

    def _cmp(self, pred, x, y):
        if x.eq(y):
            return pred in ('eq', 'uge', 'ule', 'sge', 'sle')
        if pred == 'eq':
            r = x == y
        elif pred == 'ne':
            r = z3.Not(x == y)
        else:
            r = {'ugt': z3.UGT, 'uge': z3.UGE, 'ult': z3.ULT, 'ule': z3.ULE, 'sgt': lambda p, q: p > q,
                 'sge': lambda p, q: p >= q, 'slt': lambda p, q: p < q, 'sle': lambda p, q: p <= q}[pred](x, y)
        return simp_b(r)

    # ---------------------------------------------------------- ints
    def binop(self, op, ty, a, b):
        if isinstance(a, Vec):
            return Vec([self.binop(op, ty.e, x, y) for x, y in zip(a, b)])
        if op[0] == 'f':
            return self.fbin(op, ty.w, a, b)
        w = ty.w
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'add':
                if isinstance(a, Ptr) and not isinstance(b, Ptr):
                    return self.padd(a, b)
                if isinstance(b, Ptr) and not isinstance(a, Ptr):
                    return self.padd(b, a)
            elif op == 'sub':
                if isinstance(a, Ptr) and isinstance(b, Ptr):
                    r = None
                    for g, o, f in reversed(a.alts):
                        for g2, o2, f2 in reversed(b.alts):
                            if o == o2:
                                d = self.binop('sub', IntTy(64), f, f2)
                            else:
                                d = self.binop('sub', IntTy(64), self.pint(Ptr([(True, o, f)])),
                                               self.pint(Ptr([(True, o2, f2)])))
                            gg = b_and(g, g2)
                            r = d if r is None else self.ite(zb(gg), d, r, IntTy(64))
                    return r
                if isinstance(a, Ptr) and not isinstance(b, Ptr):
                    return self.padd(a, self.binop('sub', IntTy(64), 0, b))
            elif op == 'and' and is_c(b) and b < 16:
                # low bits: objects are 16-aligned
                r = None
                for g, o, f in reversed(a.alts):
                    if self.objs[o].align < 16 and o:
                        r = None
                        break
                    d = self.binop('and', IntTy(64), f, b)
                    r = d if r is None else self.ite(zb(g), d, r, IntTy(64))
                if r is not None:
                    return r
            a = self.pint(a)
            b = self.pint(b)
        if w == 1:
            if type(a) is int:
                a = bool(a)
            if type(b) is int:
                b = bool(b)
            if op == 'and' or op == 'mul':
                return b_and(a, b)
            if op == 'or':
                return b_or(a, b)
            if op in ('xor', 'add', 'sub'):
                return b_not(b_eq(a, b))
            raise Unsupported('i1 ' + op)
        if type(a) is int and type(b) is int:
            return self.cfold(op, w, a, b)
        # identities
        if type(b) is int:
            if b == 0:
                if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                    return a
                if op in ('and', 'mul'):
                    return 0
            elif b == 1 and op in ('mul', 'udiv', 'sdiv'):
                return a
            elif b == mask(w):
                if op == 'and':
                    return a
                if op == 'or':
                    return b
        elif type(a) is int:
            if a == 0:
                if op in ('add', 'or', 'xor'):
                    return b
                if op in ('and', 'mul', 'shl', 'lshr', 'ashr'):
                    return 0
            elif a == 1 and op == 'mul':
                return b
            elif a == mask(w):
                if op == 'and':
                    return b
                if op == 'or':
                    return a
        if op in ('sdiv', 'srem', 'udiv', 'urem') and type(b) is int and 0 < b < 1 << (w - 1) and b & (b - 1) == 0:
            x, k, m = bv(a, w), bv(b.bit_length() - 1, w), bv(b - 1, w)
            if op[0] == 'u':
                return simp(z3.LShR(x, k) if op == 'udiv' else x & m)
            low = (lambda v: z3.LShR(v, k)) if op == 'sdiv' else (lambda v: v & m)
            return simp(z3.If(x < 0, -low(-x), low(x)))
        x, y = bv(a, w), bv(b, w)
        if op == 'add':
            r = x + y
        elif op == 'sub':
            if x.eq(y):
                return 0
            r = x - y
        elif op == 'mul':
            r = x * y
        elif op == 'udiv':
            r = z3.UDiv(x, y)
        elif op == 'sdiv':
            r = x / y
        elif op == 'urem':
            r = z3.URem(x, y)
        elif op == 'srem':
            r = z3.SRem(x, y)
        elif op == 'shl':
            r = x << y
        elif op == 'lshr':
            r = z3.LShR(x, y)
        elif op == 'ashr':
            r = x >> y
        elif op == 'and':
            r = x & y
        elif op == 'or':
            r = x | y
        elif op == 'xor':
            r = x ^ y
        else:
            raise Unsupported(op)
        return simp(r)

    def cfold(self, op, w, a, b):
        m = mask(w)
        if op == 'add':
            return (a + b) & m
        if op == 'sub':
            return (a - b) & m
        if op == 'mul':
            return (a * b) & m
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return (a << b) & m if b < w else 0
        if op == 'lshr':
            return a >> b if b < w else 0
        sa = a - (1 << w) if a >> (w - 1) else a
        sb = b - (1 << w) if b >> (w - 1) else b
        if op == 'ashr':
            return (sa >> min(b, w - 1)) & m
        if b == 0:
            raise Dead('division by zero')
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        q = abs(sa) // abs(sb)
        if (sa < 0) != (sb < 0):
            q = -q
        if op == 'sdiv':
            return q & m
        if op == 'srem':
            return (sa - q * sb) & m
        raise Unsupported(op)

    def cast(self, op, v, t1, t2):
        if isinstance(v, Vec):
            if t2.k != 'vector':
                # bitcast vector -> scalar
                e = self.concat_bits([self.tobits(x, t1.e) for x in v], t1.e.w)
                return self.frombits(e, t2)
            if op == 'bitcast' and (t1.n != t2.n):
                e = self.concat_bits([self.tobits(x, t1.e) for x in v], t1.e.w)
                return self.splitbits(e, t2)
            return Vec([self.cast(op, x, t1.e, t2.e) for x in v])
        if op == 'ptrtoint':
            if t2.w == 64:
                return v
            return self.cast('trunc', self.pint(v), IntTy(64), t2)
        if op == 'inttoptr':
            return self.toptr(v) if t1.w == 64 else self.toptr(self.cast('zext', v, t1, IntTy(64)))
        if op == 'bitcast' or op == 'addrspacecast':
            if t2.k == 'vector':
                return self.splitbits(self.tobits(v, t1), t2)
            if t1.k == t2.k:
                return v
            return self.frombits(self.tobits(v, t1), t2)
        if op == 'trunc':
            if isinstance(v, Ptr):
                v = self.pint(v)
            if t2.w == 1:
                if type(v) is int:
                    return bool(v & 1)
                return simp_b(z3.Extract(0, 0, v) == 1)
            if type(v) is int:
                return v & mask(t2.w)
            return simp(z3.Extract(t2.w - 1, 0, v))
        if op == 'zext':
            if t1.w == 1:
                if type(v) is bool:
                    return int(v)
                return z3.If(v, z3.BitVecVal(1, t2.w), z3.BitVecVal(0, t2.w))
            if type(v) is int:
                return v
            return simp(z3.ZeroExt(t2.w - t1.w, self.pint(v)))
        if op == 'sext':
            if t1.w == 1:
                if type(v) is bool:
                    return mask(t2.w) if v else 0
                return z3.If(v, z3.BitVecVal(mask(t2.w), t2.w), z3.BitVecVal(0, t2.w))
            if type(v) is int:
                return (v - (1 << t1.w) if v >> (t1.w - 1) else v) & mask(t2.w)
            return simp(z3.SignExt(t2.w - t1.w, v))
        uf = self.o['fp'] == 'uf'
        if op in ('fptrunc', 'fpext'):
            if v.isconst() and t1.w in (32, 64) and t2.w in (32, 64):
                p = fpy(v)
                if p == p:
                    return fconst(p, t2.w)
            if uf and op == 'fptrunc' and t1.w in (32, 64) and t2.w in (32, 64):
                f = z3.Function('uf_fptrunc%d_%d' % (t1.w, t2.w), z3.BitVecSort(t1.w), z3.BitVecSort(t2.w))
                return FV(t2.w, b=f(bv(self.bits(v), t1.w)))
            return FV(t2.w, f=z3.fpFPToFP(RNE, v.f(), fsort(t2.w)))
        if op in ('sitofp', 'uitofp'):
            if is_c(v):
                iv = int(v)
                if t1.w == 1:
                    iv = int(bool(v))
                    if op == 'sitofp':
                        iv = -iv
                elif op == 'sitofp' and iv >> (t1.w - 1):
                    iv -= 1 << t1.w
                if t2.w == 64 or (t2.w == 32 and abs(iv) < (1 << 53)):
                    return fconst(float(iv), t2.w)
                return FV(t2.w, f=z3.simplify(z3.fpRealToFP(RNE, z3.RealVal(iv), fsort(t2.w))))
            if isinstance(v, Ptr):
                v = self.pint(v)
            x = bv(v, t1.w)
            if uf and t2.w in (32, 64):
                f = z3.Function('uf_%s%d_%d' % (op, t1.w, t2.w), z3.BitVecSort(t1.w), z3.BitVecSort(t2.w))
                return FV(t2.w, b=f(x))
            g = z3.fpSignedToFP if op == 'sitofp' else z3.fpUnsignedToFP
            return FV(t2.w, f=g(RNE, x, fsort(t2.w)))
        if op in ('fptosi', 'fptoui'):
            if v.isconst():
                p = fpy(v) if t1.w in (32, 64) else None
                if p is not None and p == p and abs(p) < 2.0 ** 62:
                    r = int(p)
                    lo, hi = (-(1 << (t2.w - 1)), (1 << (t2.w - 1)) - 1) if op == 'fptosi' else (0, mask(t2.w))
                    if lo <= r <= hi:
                        return r & mask(t2.w)
            if uf and t1.w in (32, 64):
                f = z3.Function('uf_%s%d_%d' % (op, t1.w, t2.w), z3.BitVecSort(t1.w), z3.BitVecSort(t2.w))
                return f(bv(self.bits(v), t1.w))
            # out of range conversions are poison: an arbitrary value
            h = z3.fpToSBV if op == 'fptosi' else z3.fpToUBV
            rtz = z3.RTZ()
            x = v.f()
            e = h(rtz, x, z3.BitVecSort(t2.w))
            lo, hi = (-(1 << (t2.w - 1)), (1 << (t2.w - 1))) if op == 'fptosi' else (0, 1 << t2.w)
            s = fsort(t1.w)
            # in range iff  trunc(x) in [lo, hi)
            rx = z3.fpRoundToIntegral(rtz, x)
            inr = z3.And(z3.fpGEQ(rx, z3.simplify(z3.fpRealToFP(RNE, z3.RealVal(lo), s))),
                         z3.fpLT(rx, z3.simplify(z3.fpRealToFP(RNE, z3.RealVal(hi), s))))
            if self.o.get('fp_cast_ub', False):
                self.oblige('float to integer conversion in range', inr, 'fpcast')
            u = self.fresh_bv('fptoint_oor', t2.w)
            return z3.If(inr, e, u)
        raise Unsupported(op)

    def tobits(self, v, t):
        if t.k == 'float':
            return self.bits(v)
        if t.k == 'ptr':
            return v
        if t.k == 'vector':
            return self.concat_bits([self.tobits(x, t.e) for x in v], t.e.w)
        return v

    def frombits(self, b, t):
        if t.k == 'float':
            if isinstance(b, Ptr):
                b = self.pint(b)
            return FV(t.w, b=b)
        if t.k == 'ptr':
            return self.toptr(b)
        if t.k == 'vector':
            return self.splitbits(b, t)
        return b

    def concat_bits(self, parts, w):
        # little endian: element 0 lowest
        if all(type(p) is int for p in parts):
            r = 0
            for i, p in enumerate(parts):
                r |= p << (i * w)
            return r
        if len(parts) == 1:
            return parts[0]
        return simp(z3.Concat(*[bv(self.pint(p), w) for p in reversed(parts)]))

    def splitbits(self, b, t):
        out = []
        w = t.e.w
        for i in range(t.n):
            if type(b) is int:
                x = (b >> (i * w)) & mask(w)
            else:
                x = simp(z3.Extract(i * w + w - 1, i * w, self.pint(b)))
            if w == 1:
                x = bool(x) if type(x) is int else simp_b(x == 1)
            out.append(self.frombits(x, t.e))
        return Vec(out)

    # ---------------------------------------------------------- ite
    def ite(self, c, a, b, ty):
        if c is True:
            return a
        if c is False:
            return b
        if a is b:
            return a
        k = ty.k
        if k == 'struct':
            return Agg([self.ite(c, x, y, t) for x, y, t in zip(a, b, ty.e)])
        if k == 'array' or k == 'vector':
            return (Vec if k == 'vector' else Agg)([self.ite(c, x, y, ty.e) for x, y in zip(a, b)])
        if k == 'float':
            if same(a, b):
                return a
            if a._b is not None and b._b is not None and not (a._f is not None and b._f is not None):
                return FV(a.w, b=self.ite_i(c, a._b, b._b, a.w))
            return FV(a.w, f=z3.If(c, a.f(), b.f()))
        if k == 'int' and ty.w == 1:
            return self.ite_b(c, a, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ite_p(c, a, b)
        return self.ite_i(c, a, b, ty.w)

    def ite_b(self, c, a, b):
        if same(a, b):
            return a
        if a is True:
            return b_or(c, b)
        if a is False:
            return b_and(b_not(c), b)
        if b is True:
            return b_or(b_not(c), a)
        if b is False:
            return b_and(c, a)
        return z3.If(c, a, b)

    def ite_i(self, c, a, b, w):
        if same(a, b):
            return a
        return z3.If(c, bv(a, w), bv(b, w))

    def ite_p(self, c, a, b):
        a = self.toptr(a)
        b = self.toptr(b)
        if same(a, b):
            return a
        out = []
        index = {}
        nc = b_not(c)
        for src, cc in ((a, c), (b, nc)):
            for g, o, f in src.alts:
                gg = b_and(cc, g)
                if o in index:
                    i = index[o]
                    g0, _, f0 = out[i]
                    if same(f0, f):
                        out[i] = (b_or(g0, gg), o, f0)
                    else:
                        out[i] = (b_or(g0, gg), o, simp(z3.If(zb(gg), bv(f, 64), bv(f0, 64))))
                else:
                    index[o] = len(out)
                    out.append((gg, o, f))
        if len(out) == 1:
            out = [(True, out[0][1], out[0][2])]
        return Ptr(out)

    # ---------------------------------------------------------- obligations
    def oblige(self, name, cond, kind, st=None, where=None):
        st = st or self.cur
        if cond is True:
            self.trivial = getattr(self, 'trivial', 0) + 1
            return
        if self.loopctx and self.loops.muted(self, st):
            # header code before the invariants of an arbitrary iteration: checked on entry and at the back edge
            st.assume(cond if cond is not False else z3.BoolVal(False))
            return
        if where is None:
            where = self.where()
        self.obligs.append(Oblig(name, st.path, cond, kind, where))
        st.assume(cond if cond is not False else z3.BoolVal(False))

    def where(self):
        return ' <- '.join(reversed(self.stack[-4:]))

    # ---------------------------------------------------------- memory
    def tomem(self, v, ty):
        """register value -> cell value"""
        if ty.k == 'int' and ty.w == 1:
            if type(v) is bool:
                return int(v)
            return z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        if ty.k == 'int' and ty.w % 8:
            n = (ty.w + 7) // 8 * 8
            return v if type(v) is int else z3.ZeroExt(n - ty.w, v)
        return v

    def frommem(self, v, ty):
        """cell value (right size) -> register value"""
        k = ty.k
        if k == 'int':
            if isinstance(v, FV):
                v = self.bits(v)
            if ty.w == 1:
                if isinstance(v, Ptr):
                    raise Unsupported('i1 of pointer')
                if type(v) is int:
                    return bool(v & 1)
                return simp_b(z3.Extract(0, 0, v) == 1)
            n = (ty.w + 7) // 8 * 8
            if n != ty.w:
                if type(v) is int:
                    return v & mask(ty.w)
                return simp(z3.Extract(ty.w - 1, 0, v))
            return v
        if k == 'float':
            if isinstance(v, FV):
                return v
            if isinstance(v, Ptr):
                v = self.pint(v)
            return FV(ty.w, b=v)
        if k == 'ptr':
            if isinstance(v, FV):
                v = self.bits(v)
            return self.toptr(v)
        raise Unsupported('frommem ' + k)

    def cell_bits(self, v, n):
        if isinstance(v, FV):
            return self.bits(v)
        if isinstance(v, Ptr):
            return self.pint(v)
        return v

    def default_byte(self, oid, off):
        o = self.objs[oid]
        if o.inname is not None:
            return z3.BitVec('in!%s!%d' % (o.inname, off), 8)
        return z3.BitVec('uninit!%d!%d' % (oid, off), 8)

    def default_val(self, oid, off, n):
        """n bytes never written"""
        o = self.objs[oid]
        if o.inname is None and n in (2, 4, 8):
            return z3.BitVec('uninit%d!%d!%d' % (n, oid, off), 8 * n)
        bs = [self.default_byte(oid, off + i) for i in range(n)]
        return bs[0] if n == 1 else z3.Concat(*reversed(bs))

    def read_cells(self, s, oid, off, n):
        """n bytes at concrete off in cell mode -> raw cell value"""
        c = s.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        # gather
        parts = []   # (nbytes, int/BV) low to high
        pos = off
        end = off + n
        cells = s.cells
        anyc = False
        while pos < end:
            c = cells.get(pos)
            co = pos
            if c is None:
                for back in range(1, 17):
                    c2 = cells.get(pos - back)
                    if c2 is not None:
                        if c2[0] > back:
                            c = c2
                            co = pos - back
                        break
            if c is None:
                # uninitialised run
                run = 1
                while pos + run < end and (pos + run) not in cells:
                    run += 1
                if run == n:
                    v = self.default_val(oid, off, n)
                    w = self.cur_os_w(oid)
                    if w is not None and self.objs[oid].inname is None:
                        w.cells[off] = (n, v)
                    return v
                for i in range(run):
                    parts.append((1, self.default_byte(oid, pos + i)))
                pos += run
                continue
            anyc = True
            skip = pos - co
            take = min(c[0] - skip, end - pos)
            v = self.cell_bits(c[1], c[0])
            if take == c[0]:
                parts.append((take, v))
            elif type(v) is int:
                parts.append((take, (v >> (8 * skip)) & mask(8 * take)))
            else:
                parts.append((take, simp(z3.Extract(8 * (skip + take) - 1, 8 * skip, v))))
            pos += take
        if all(type(v) is int for _, v in parts):
            r = 0
            sh = 0
            for k, v in parts:
                r |= v << sh
                sh += 8 * k
            return r
        if len(parts) == 1:
            return parts[0][1]
        return simp(z3.Concat(*[bv(v, 8 * k) for k, v in reversed(parts)]))

    def cur_os_w(self, oid):
        st = self.cur
        if st is None:
            return None
        s = st.mem.get(oid)
        if s is None or s.owner != st.owner:
            return s   # writing a default value is shared knowledge: safe for all forks
        return s

    def write_cells(self, s, oid, off, n, v):
        cells = s.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, v)
            return
        end = off + n
        # left overlap
        for back in range(1, 17):
            c2 = cells.get(off - back)
            if c2 is not None:
                if c2[0] > back:
                    val = self.cell_bits(c2[1], c2[0])
                    cells[off - back] = (back, self.ext(val, 0, back))
                    if c2[0] > back + n:
                        r = c2[0] - back - n
                        cells[end] = (r, self.ext(val, back + n, r))
                break
        pos = off
        if n <= 64:
            rng = [p for p in range(off, end) if p in cells]
        else:
            rng = [p for p in cells if off <= p < end]
        for p in rng:
            k, val = cells[p]
            if p + k > end:
                r = p + k - end
                val = self.cell_bits(val, k)
                cells[end] = (r, self.ext(val, end - p, r))
            del cells[p]
        cells[off] = (n, v)

    def ext(self, v, skip, take):
        if type(v) is int:
            return (v >> (8 * skip)) & mask(8 * take)
        return simp(z3.Extract(8 * (skip + take) - 1, 8 * skip, v))

    def to_array(self, s, oid):
        """switch object to array mode"""
        if s.arr is not None:
            return
        o = self.objs[oid]
        if o.inname is not None:
            a = z3.Array('in!%s' % o.inname, z3.BitVecSort(64), z3.BitVecSort(8))
            for k in range(0):
                pass
        else:
            a = z3.Array('uninit!%d' % oid, z3.BitVecSort(64), z3.BitVecSort(8))
        if o.kind == 'global' and o.const and len(s.cells) > 4:
            pass
        for off in sorted(s.cells):
            n, v = s.cells[off]
            v = self.cell_bits(v, n)
            for i in range(n):
                a = z3.Store(a, z3.BitVecVal(off + i, 64), bv(self.ext(v, i, 1), 8))
        s.arr = a
        s.cells = {}

    def arr_read(self, s, off, n):
        off = bv(off, 64)
        bs = [z3.Select(s.arr, z3.simplify(off + i) if i else off) for i in range(n)]
        if n == 1:
            return simp(bs[0])
        return simp(z3.Concat(*reversed(bs)))

    def arr_write(self, s, off, n, v):
        off = bv(off, 64)
        v = bv(self.cell_bits(v, n), 8 * n)
        a = s.arr
        for i in range(n):
            a = z3.Store(a, z3.simplify(off + i) if i else off, z3.simplify(z3.Extract(8 * i + 7, 8 * i, v)) if n > 1 else v)
        s.arr = a

    def in_bounds(self, oid, off, n, st):
        """condition: [off, off+n) inside the live object"""
        o = self.objs[oid]
        if oid == 0 or o.kind in ('func', 'wild', 'null'):
            return False
        s = self.os(st, oid)
        sz = o.size
        al = s.alive
        if is_c(off) and is_c(sz):
            r = off + n <= sz
        elif is_c(sz):
            if sz < n:
                r = False
            else:
                r = simp_b(z3.ULE(bv(off, 64), z3.BitVecVal(sz - n, 64)))
        else:
            r = simp_b(z3.And(z3.UGE(sz, z3.BitVecVal(n, 64)), z3.ULE(bv(off, 64), sz - n)))
        return b_and(al, r)

    def candidates(self, oid, off, n, st=None, guard=True):
        """list of concrete offsets a symbolic offset can take (when small), else None"""
        o = self.objs[oid]
        if not is_c(o.size) or o.inname is not None and o.size > 4096:
            return None
        g, r = congruence(off)
        if g == 0:
            return [r & mask(64)]
        if g >= 1 << 40:
            g = 1
        r %= g
        # mod 2^64 wrap is excluded by the membership obligation
        cnt = (o.size - n - r) // g + 1 if o.size - n >= r else 0
        if cnt <= 0:
            return []
        if cnt > self.o['small']:
            return None if st is None else self.few_values(st, oid, off, n, guard)
        return [r + g * i for i in range(cnt)]

    def few_values(self, st, oid, off, n, guard):
        """objects holding pointers are kept as cells where the offset takes few values (enumerated by the solver, which
        proves that there are no others inside the object)"""
        c = st.mem.get(oid)
        if c is None or self.objs[oid].size > 4096 or not any(isinstance(x[1], Ptr) for x in c.cells.values()):
            return None
        s = z3.Solver()
        s.set('timeout', 2000)
        for a in self.assumps:
            s.add(a)
        for x in st.path.all():
            s.add(x)
        if guard is not True:
            s.add(zb(guard))
        off = bv(off, 64)
        s.add(z3.ULE(off, self.objs[oid].size - n))
        out = []
        t = time.time()
        try:
            while True:
                r = s.check()
                if r == z3.unsat:
                    return sorted(out)
                if r != z3.sat or len(out) > 40:
                    return None
                v = s.model().eval(off, model_completion=True).as_long()
                out.append(v)
                s.add(off != v)
        finally:
            self.solver_time += time.time() - t

    def use_arr(self, st, oid, off, n):
        """decide representation for a symbolic access: returns candidate list or None for array mode"""
        s = self.os(st, oid)
        if s.arr is not None:
            return None
        return self.candidates(oid, off, n)

    def alt_access(self, st, g, oid, off, n, what):
        """emit the bounds obligation for one pointer alternative"""
        if not self.o['check_bounds']:
            return
        c = self.in_bounds(oid, off, n, st)
        if c is True:
            return
        self.oblige('%s of %d bytes inside %s' % (what, n, self.objs[oid].name), b_or(b_not(g), c), 'bounds', st)

    def prune(self, p):
        return p

    def load_raw(self, st, p, n, ty):
        """returns a cell-level value of n bytes"""
        p = self.toptr(p)
        res = None
        alts = p.alts
        for idx in range(len(alts) - 1, -1, -1):
            g, oid, off = alts[idx]
            o = self.objs[oid]
            if g is not True:
                g = simp_b(g)
                if g is False:
                    continue
            self.alt_access(st, g, oid, off, n, 'load')
            if oid == 0 or o.kind in ('func', 'null', 'wild', 'extglobal'):
                if o.kind == 'extglobal' or o.kind == 'wild':
                    v = None
                    if o.kind == 'extglobal' and is_c(off):
                        s = self.os(st, oid)
                        c = s.cells.get(off)
                        if c is not None and c[0] == n:
                            v = c[1]
                    if v is None:
                        v = self.fresh_of(ty, 'ext')
                        v = self.tomem(v, ty)
                        if o.kind == 'extglobal' and is_c(off):
                            self.osw(st, oid).cells[off] = (n, v)
                    res = v if res is None else self.ite(zb(g), v, res, self.cellty(ty, n))
                continue
            s = self.os(st, oid)
            if o.ptrs is not None:
                if n != 8:
                    raise Unsupported('part of a pointer read')
                self.oblige('element of an array of pointers read as a whole', b_or(b_not(g), simp_b(bv(off, 64) & 7 == 0)), 'bounds', st)
                v = o.ptrs[-1]
                for k, q1 in reversed(o.ptrs[:-1]):
                    v = self.ite(simp_b(bv(off, 64) == bv(k, 64) * 8), q1, v, ty)
            elif s.arr is not None:
                v = self.arr_read(s, off, n)
            elif is_c(off):
                if is_c(o.size) and off + n > o.size:
                    continue
                v = self.read_cells(s, oid, off, n)
            else:
                cand = self.candidates(oid, off, n, st, g)
                if cand is None:
                    s = self.osw(st, oid)
                    self.to_array(s, oid)
                    v = self.arr_read(s, off, n)
                else:
                    if not cand:
                        continue
                    off = bv(off, 64)
                    mem = b_ors([off == c for c in cand])
                    if self.o['check_bounds'] :
                        self.strided(st, g, off, cand, n, o)
                    v = None
                    cty = self.cellty(ty, n)
                    for c in reversed(cand):
                        x = self.read_cells(s, oid, c, n)
                        x = self.tycell(x, ty, n)
                        v = x if v is None else self.ite(off == c, x, v, cty)
            if res is None:
                res = v
            else:
                cty = self.cellty(ty, n)
                res = self.ite(zb(g), self.tycell(v, ty, n), self.tycell(res, ty, n), cty)
        if res is None:
            # no valid alternative: path is dead after the failed obligation
            st.assume(z3.BoolVal(False))
            return self.tomem(self.fresh_of(ty, 'dead'), ty)
        return res

    def strided(self, st, g, off, cand, n, o):
        """membership: the offset is one of the candidates (guards against wrap of the congruence)"""
        if len(cand) == 1:
            cond = off == cand[0]
        else:
            gg = cand[1] - cand[0]
            if gg & (gg - 1) == 0:
                return   # congruences modulo powers of two survive wrap-around
            cond = b_ors([off == c for c in cand])
        self.oblige('access to %s on an element boundary' % o.name, b_or(b_not(g), cond), 'bounds', st)

    def cellty(self, ty, n):
        if ty.k == 'ptr':
            return PTR
        if ty.k == 'float':
            return ty
        return IntTy(8 * n)

    def tycell(self, v, ty, n):
        """coerce a raw cell value to the representation class of ty"""
        if ty.k == 'float':
            if not isinstance(v, FV):
                if isinstance(v, Ptr):
                    v = self.pint(v)
                return FV(ty.w, b=v)
            return v
        if isinstance(v, FV):
            v = self.bits(v)
        if ty.k == 'ptr':
            return self.toptr(v)
        return v

    def load(self, st, p, ty):
        k = ty.k
        if k == 'struct':
            return Agg([self.load(st, self.padd(p, o), e) for o, e in zip(offsets(ty), ty.e)])
        if k == 'array':
            es = size_of(ty.e)
            return Agg([self.load(st, self.padd(p, i * es), ty.e) for i in range(ty.n)])
        if k == 'vector':
            if ty.e.k == 'int' and ty.e.w % 8:
                v = self.load(st, p, IntTy(store_size(ty) * 8))
                return self.splitbits(v, ty)
            es = store_size(ty.e)
            return Vec([self.load(st, self.padd(p, i * es), ty.e) for i in range(ty.n)])
        n = store_size(ty)
        v = self.load_raw(st, p, n, ty)
        return self.frommem(v, ty)

    def store(self, st, p, v, ty):
        k = ty.k
        if k == 'struct':
            for o, e, x in zip(offsets(ty), ty.e, v):
                self.store(st, self.padd(p, o), x, e)
            return
        if k == 'array':
            es = size_of(ty.e)
            for i in range(ty.n):
                self.store(st, self.padd(p, i * es), v[i], ty.e)
            return
        if k == 'vector':
            if ty.e.k == 'int' and ty.e.w % 8:
                raise Unsupported('store of bit vector')
            es = store_size(ty.e)
            for i in range(ty.n):
                self.store(st, self.padd(p, i * es), v[i], ty.e)
            return
        n = store_size(ty)
        self.store_raw(st, p, n, self.tomem(v, ty), ty)

    def store_raw(self, st, p, n, v, ty):
        p = self.toptr(p)
        for g, oid, off in p.alts:
            o = self.objs[oid]
            if g is not True:
                g = simp_b(g)
                if g is False:
                    continue
            self.alt_access(st, g, oid, off, n, 'store')
            if o.kind == 'global' and o.const:
                self.oblige('store to constant %s' % o.name, b_not(g), 'bounds', st)
                continue
            if oid == 0 or o.kind in ('func', 'null', 'wild'):
                continue
            if o.ptrs is not None:
                raise Unsupported('store to an array of pointers')
            s = self.osw(st, oid)
            if s.arr is not None:
                if g is True:
                    self.arr_write(s, off, n, v)
                else:
                    old = s.arr
                    self.arr_write(s, off, n, v)
                    s.arr = z3.If(g, s.arr, old)
            elif is_c(off):
                if is_c(o.size) and off + n > o.size and o.kind != 'extglobal':
                    continue
                if g is True:
                    self.write_cells(s, oid, off, n, v)
                else:
                    old = self.read_cells(s, oid, off, n)
                    nv = self.mixcell(g, v, old, n)
                    self.write_cells(s, oid, off, n, nv)
            else:
                cand = self.candidates(oid, off, n, st, g)
                if cand is None:
                    self.to_array(s, oid)
                    old = s.arr
                    self.arr_write(s, off, n, v)
                    if g is not True:
                        s.arr = z3.If(g, s.arr, old)
                else:
                    off = bv(off, 64)
                    self.strided(st, g, off, cand, n, o) if cand else None
                    for c in cand:
                        cc = b_and(g, off == c)
                        old = self.read_cells(s, oid, c, n)
                        self.write_cells(s, oid, c, n, self.mixcell(cc, v, old, n))

    def mixcell(self, c, a, b, n):
        """ite on raw cell values"""
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if n == 8:
                if isinstance(a, Ptr) and isinstance(b, Ptr):
                    return self.ite_p(c, a, b)
                other = b if isinstance(a, Ptr) else a
                if is_c(other) and other == 0:
                    return self.ite_p(c, a, b)
                if not isinstance(other, FV) and not is_c(other):
                    # uninitialised or integer data next to a pointer: keep it as a pointer
                    t = self.toptr(other)
                    if self.objs[t.alts[0][1]].kind != 'wild' or self.is_uninit(other):
                        return self.ite_p(c, a, b)
            a = self.cell_bits(a, n)
            b = self.cell_bits(b, n)
        if isinstance(a, FV) and isinstance(b, FV):
            return self.ite(c, a, b, irparse.F32 if n == 4 else irparse.F64)
        if isinstance(a, FV) or isinstance(b, FV):
            o = b if isinstance(a, FV) else a
            if type(o) is int or self.is_uninit(o):
                w = n * 8
                fa = a if isinstance(a, FV) else FV(w, b=a)
                fb = b if isinstance(b, FV) else FV(w, b=b)
                return self.ite(c, fa, fb, irparse.F32 if n == 4 else irparse.F64)
            a = self.cell_bits(a, n)
            b = self.cell_bits(b, n)
        return self.ite(c, a, b, IntTy(8 * n))

    def is_uninit(self, e):
        return z3.is_expr(e) and z3.is_const(e) and e.decl().name().startswith('uninit')

    # ---------------------------------------------------------- bytes
    def copy(self, st, dst, src, n, move=False):
        if n == 0:
            return
        dst = self.toptr(dst)
        src = self.toptr(src)
        if type(n) is int:
            # concrete length
            if len(src.alts) == 1 and is_c(src.alts[0][2]) and len(dst.alts) == 1 and is_c(dst.alts[0][2]):
                g, so, sf = src.alts[0]
                g2, do, df = dst.alts[0]
                self.alt_access(st, True, so, sf, n, 'copy from')
                self.alt_access(st, True, do, df, n, 'copy to')
                if self.objs[so].kind in ('func', 'null', 'wild') or self.objs[do].kind in ('func', 'null', 'wild'):
                    st.assume(z3.BoolVal(False))
                    return
                ss = self.os(st, so)
                if is_c(self.objs[so].size) and sf + n > self.objs[so].size and self.objs[so].kind != 'extglobal':
                    return
                if is_c(self.objs[do].size) and df + n > self.objs[do].size:
                    return
                if ss.arr is None:
                    pieces = []
                    pos = sf
                    end = sf + n
                    while pos < end:
                        c = ss.cells.get(pos)
                        if c is not None and pos + c[0] <= end:
                            pieces.append((pos - sf, c[0], c[1]))
                            pos += c[0]
                        else:
                            # run without cells -> leave uninitialised if dest is fresh, else byte copy
                            inside = c is not None
                            if not inside:
                                for back in range(1, 17):
                                    c2 = ss.cells.get(pos - back)
                                    if c2 is not None:
                                        inside = c2[0] > back
                                        break
                            if inside:
                                pieces.append((pos - sf, 1, self.read_cells(ss, so, pos, 1)))
                                pos += 1
                            else:
                                run = 1
                                while pos + run < end and (pos + run) not in ss.cells:
                                    run += 1
                                # chunks aligned with the source offset so later typed reads match
                                while run > 0:
                                    k = 8
                                    while k > run or (pos % k):
                                        k //= 2
                                    if self.objs[so].inname is not None:
                                        k = 1
                                    pieces.append((pos - sf, k, self.read_cells(ss, so, pos, k)))
                                    pos += k
                                    run -= k
                    ds = self.osw(st, do)
                    if self.objs[do].const and self.objs[do].kind == 'global':
                        self.oblige('copy to constant', False, 'bounds', st)
                        return
                    if ds.arr is None:
                        for o, k, v in pieces:
                            self.write_cells(ds, do, df + o, k, v)
                    else:
                        for o, k, v in pieces:
                            self.arr_write(ds, df + o, k, v)
                    return
            if n <= 512:
                # element-wise through loads of the natural width
                vals = []
                pos = 0
                while pos < n:
                    k = 8 if n - pos >= 8 else 4 if n - pos >= 4 else 1
                    ty = IntTy(8 * k)
                    vals.append((pos, k, self.load_raw(st, self.padd(src, pos), k, ty)))
                    pos += k
                for pos, k, v in vals:
                    self.store_raw(st, self.padd(dst, pos), k, v, IntTy(8 * k))
                return
            n = z3.BitVecVal(n, 64)
        # symbolic length
        n = bv(self.pint(n), 64)
        self.range_ob(st, src, n, 'copy from')
        self.range_ob(st, dst, n, 'copy to')
        if len(src.alts) == 1 and len(dst.alts) == 1:
            (_, so, sf), (_, do, df) = src.alts[0], dst.alts[0]
            a, b = self.objs[so], self.objs[do]
            if (is_c(sf) and sf == 0 and is_c(df) and df == 0 and so != do and not is_c(a.size) and a.ptrs is None and b.ptrs is None
                    and all(o.kind in ('heap', 'input') and not is_c(o.size) and bv(o.size, 64).eq(n) for o in (a, b))):
                # one whole array onto another
                for o in (so, do):
                    if self.os(st, o).arr is None:
                        self.to_array(self.osw(st, o), o)
                self.osw(st, do).arr = self.os(st, so).arr
                return
        def reader(i):
            r = None
            for g, o, f in reversed(src.alts):
                if o == 0:
                    continue
                s = self.os(st, o)
                if s.arr is None:
                    s = self.osw(st, o)
                    self.to_array(s, o)
                v = z3.Select(s.arr, bv(f, 64) + i)
                r = v if r is None else z3.If(zb(g), v, r)
            return r
        self.range_write(st, dst, n, reader, src)

    def range_ob(self, st, p, n, what):
        for g, o, f in p.alts:
            ob = self.objs[o]
            if o == 0:
                c = z3.Or(n == 0)
            elif ob.kind in ('func', 'wild'):
                c = n == 0
            else:
                s = self.os(st, o)
                c = z3.Or(n == 0, z3.And(zb(s.alive), z3.ULE(bv(f, 64), bv(ob.size, 64)),
                                         z3.ULE(n, bv(ob.size, 64) - bv(f, 64))))
            c = simp_b(c)
            if c is not True:
                self.oblige('%s inside %s' % (what, ob.name), b_or(b_not(g), c), 'bounds', st)

    def range_write(self, st, dst, n, reader, src=None):
        """dst[0..n) := reader(i)"""
        for g, o, f in dst.alts:
            ob = self.objs[o]
            if o == 0 or ob.kind in ('func', 'wild'):
                continue
            s = self.os(st, o)
            small = self.o['small']
            if is_c(ob.size) and is_c(f) and s.arr is None and ob.size - f <= small and \
                    (src is None or all(is_c(self.objs[x].size) and is_c(y) and
                                        self.os(st, x).arr is None and self.objs[x].size <= small
                                        for _, x, y in src.alts if x)):
                new = []
                for i in range(ob.size - f):
                    if src is None:
                        v = reader(i)
                    else:
                        v = None
                        for g2, x, y in reversed(src.alts):
                            if x == 0 or y + i >= self.objs[x].size:
                                continue
                            t = self.read_cells(self.os(st, x), x, y + i, 1)
                            v = t if v is None else self.ite_i(zb(g2), t, v, 8)
                        if v is None:
                            break
                    c = b_and(g, simp_b(z3.UGT(n, z3.BitVecVal(i, 64))))
                    if c is False:
                        continue
                    new.append((i, c, v))
                s = self.osw(st, o)
                for i, c, v in new:
                    if c is True:
                        self.write_cells(s, o, f + i, 1, v)
                    else:
                        old = self.read_cells(s, o, f + i, 1)
                        self.write_cells(s, o, f + i, 1, self.ite_i(c, v, old, 8))
                continue
            i = z3.BitVec('copy!i', 64)
            body = bv(reader(i), 8) if src is None else reader(i)
            s = self.osw(st, o)
            self.to_array(s, o)
            fo = bv(f, 64)
            inside = z3.And(z3.UGE(i, fo), z3.ULT(i - fo, n), zb(g))
            body = z3.substitute(body, (i, i - fo))
            s.arr = z3.Lambda([i], z3.If(inside, body, z3.Select(s.arr, i)))

    def memset(self, st, dst, v, n):
        dst = self.toptr(dst)
        if type(n) is int:
            if len(dst.alts) == 1 and is_c(dst.alts[0][2]):
                g, o, f = dst.alts[0]
                if n == 0:
                    return
                self.alt_access(st, True, o, f, n, 'fill of')
                if self.objs[o].kind in ('func', 'null', 'wild'):
                    st.assume(z3.BoolVal(False))
                    return
                s = self.osw(st, o)
                if s.arr is None:
                    if is_c(self.objs[o].size) and f + n > self.objs[o].size:
                        return
                    pos = 0
                    # drop covered cells quickly
                    while pos < n:
                        a = f + pos
                        c = s.cells.get(a)
                        if c is not None and c[0] <= n - pos and c[0] in (1, 2, 4, 8):
                            k = c[0]
                        else:
                            k = 8
                            while k > n - pos or a % k:
                                k //= 2
                        if type(v) is int:
                            val = int.from_bytes(bytes([v]) * k, 'little')
                        elif k == 1:
                            val = v
                        else:
                            val = z3.Concat(*[v] * k)
                        self.write_cells(s, o, a, k, val)
                        pos += k
                    return
            if n <= 512:
                for i in range(n):
                    self.store_raw(st, self.padd(dst, i), 1, v, IntTy(8))
                return
        n = bv(self.pint(n), 64)
        self.range_ob(st, dst, n, 'fill of')
        self.range_write(st, dst, n, lambda i: v)

    # ---------------------------------------------------------- merging
    def merge_states(self, items):
        """items: list of (State, payload list of (value, ty)); returns merged (State, payload)"""
        items = [(s, p) for s, p in items if not self.path_dead(s.path)]
        if not items:
            return None
        if len(items) == 1:
            return items[0]
        paths = [s.path for s, _ in items]
        anc = lca(paths)
        rests = [p.until(anc) for p in paths]
        red = reduce_lists(rests)
        if any(not r for r in red):
            path = anc
        else:
            # factor a common prefix
            c = b_ors([b_ands(r) for r in red])
            c = simp_b(c) if len(red) <= 3 else c
            path = anc.add(c)
        sels = [b_ands(r) for r in rests]
        base = items[-1][0]
        mem = {}
        keys = {}
        for s, _ in items:
            for k in s.mem:
                keys[k] = 1
        st = State(path, mem)
        for k in keys:
            vs = [s.mem.get(k) for s, _ in items]
            first = vs[0]
            if all(v is first for v in vs):
                if first is not None:
                    mem[k] = first
                continue
            o = self.objs[k]
            if any(v is None for v in vs):
                if o.kind in ('global', 'extglobal', 'input', 'ext'):
                    vs = [self.os(s, k) for s, _ in items]
                else:
                    # object not yet allocated on some path: its content there is irrelevant
                    nn = [(v, i) for i, v in enumerate(vs) if v is not None]
                    if len(nn) == 1:
                        mem[k] = nn[0][0]
                        continue
                    vs = [v if v is not None else nn[0][0] for v in vs]
            mem[k] = self.merge_os(k, vs, sels, st, items)
        # exceptions
        excs = [s.exc for s, _ in items]
        if any(e is not None for e in excs):
            st.exc = self.merge_exc(excs, sels)
        ca = [s.caught for s, _ in items]
        if all(len(c) == len(ca[0]) for c in ca):
            st.caught = tuple(self.merge_exc([c[i] for c in ca], sels) if not all(c[i] is ca[0][i] for c in ca)
                              else ca[0][i] for i in range(len(ca[0])))
        else:
            st.caught = max(ca, key=len)
        gh = {}
        for k in set(k for s, _ in items for k in s.ghost):
            vs = [s.ghost.get(k) for s, _ in items]
            r = vs[-1]
            for v, c in zip(reversed(vs[:-1]), reversed(sels[:-1])):
                if v is r or (is_c(v) and is_c(r) and v == r):
                    continue
                if v is None or r is None:
                    r = v if r is None else r
                    continue
                w = (r if not is_c(r) else v)
                if isinstance(w, (Ptr,)):
                    r = self.ite_p(zb(c), v, r)
                elif z3.is_bool(w) or type(w) is bool:
                    r = self.ite_b(zb(c), v, r)
                else:
                    sz = 64 if is_c(w) else w.size()
                    r = self.ite_i(zb(c), v, r, sz)
            gh[k] = r
        st.ghost = gh
        payload = []
        if items[0][1] is not None:
            for j in range(len(items[0][1])):
                ty = items[0][1][j][1]
                r = items[-1][1][j][0]
                for (s, p), c in zip(reversed(items[:-1]), reversed(sels[:-1])):
                    r = self.ite(c if not type(c) is bool else c, p[j][0], r, ty)
                payload.append((r, ty))
        else:
            payload = None
        return st, payload

    def path_dead(self, p):
        while p.parent is not None:
            c = p.cond
            if c is False or (type(c) is not bool and z3.is_false(c)):
                return True
            p = p.parent
        return False

    def merge_exc(self, excs, sels):
        ptr = None
        types = []
        nn = [(e, c) for e, c in zip(excs, sels) if e is not None]
        for e, c in reversed(nn):
            p, ts = e
            ptr = p if ptr is None else self.ite_p(zb(c), p, ptr)
            for tc, tn in ts:
                types.append((b_and(c, tc), tn))
        return (ptr, types)

    def merge_os(self, oid, vs, sels, st, items):
        n = OS()
        n.owner = st.owner
        # alive
        al = vs[-1].alive
        for v, c in zip(reversed(vs[:-1]), reversed(sels[:-1])):
            al = self.ite_b(zb(c), v.alive, al) if not same(v.alive, al) else al
        n.alive = al
        if any(v.arr is not None for v in vs):
            vs2 = []
            for v in vs:
                if v.arr is None:
                    v = v.copy(st.owner)
                    self.to_array(v, oid)
                vs2.append(v)
            r = vs2[-1].arr
            for v, c in zip(reversed(vs2[:-1]), reversed(sels[:-1])):
                if not v.arr.eq(r):
                    r = z3.If(zb(c), v.arr, r)
            n.arr = r
            return n
        base = vs[-1]
        same_layout = True
        offs = {}
        for v in vs:
            for o, c in v.cells.items():
                p = offs.get(o)
                if p is None:
                    offs[o] = c[0]
                elif p != c[0]:
                    same_layout = False
                    offs[o] = None
        save = self.cur
        self.cur = None
        # quick check for overlap across layouts
        res = n.cells
        if same_layout:
            so = sorted(offs)
            for a, b in zip(so, so[1:]):
                if a + offs[a] > b:
                    same_layout = False
                    break
        if same_layout:
            for o, sz in offs.items():
                self.merge_cell(res, vs, sels, oid, o, sz)
        else:
            # split everything at the union of boundaries
            cuts = set()
            for v in vs:
                for o, c in v.cells.items():
                    cuts.add(o)
                    cuts.add(o + c[0])
            cuts = sorted(cuts)
            covered = lambda a: any(self.covers_cell(v, a) for v in vs)
            for a, b in zip(cuts, cuts[1:]):
                if covered(a):
                    while b - a > 8:
                        self.merge_cell(res, vs, sels, oid, a, 8)
                        a += 8
                    self.merge_cell(res, vs, sels, oid, a, b - a)
        self.cur = save
        return n

    def covers_cell(self, s, a):
        for back in range(0, 17):
            c = s.cells.get(a - back)
            if c is not None:
                return c[0] > back
        return False

    def merge_cell(self, res, vs, sels, oid, o, sz):
        vals = []
        for v in vs:
            c = v.cells.get(o)
            if c is not None and c[0] == sz:
                vals.append(c[1])
            else:
                vals.append(self.read_cells(v, oid, o, sz))
        r = vals[-1]
        for v, c in zip(reversed(vals[:-1]), reversed(sels[:-1])):
            if v is r or same(v, r):
                continue
            r = self.mixcell(zb(c), v, r, sz)
        res[o] = (sz, r)

    # ---------------------------------------------------------- feasibility
    def feasible(self, path, extra=()):
        if self.path_dead(path):
            return False
        self.feas_calls += 1
        t = time.time()
        s = z3.Solver()
        s.set('timeout', self.o['feas_timeout'])
        for a in self.assumps:
            s.add(a)
        for c in path.all():
            s.add(c)
        for c in extra:
            s.add(c)
        r = s.check()
        self.solver_time += time.time() - t
        return r != z3.unsat

    def truth(self, st, key):
        v = st.ghost.get(key, False)
        return v if type(v) is bool else (bool(v) if is_c(v) else False)

    # ---------------------------------------------------------- values
    def val(self, env, c):
        if c.k == 'lvar':
            v = env.get(c.v)
            if v is None:
                raise Unsupported('value %%%s not available (%s)' % (c.v, self.stack[-1] if self.stack else ''))
            return v
        if c.k == 'int':
            if c.ty.w == 1:
                return bool(c.v)
            return c.v
        return self.const(c)

    # ---------------------------------------------------------- calls
    def call(self, name, args, st, inst=None):
        """returns (ret State or None, value, throw list [State with exc])"""
        self.cur = st
        k = self.contracts.get(name)
        if k is not None and not (self.stack and self.stack[-1] == name):
            return k(self, st, args, inst)
        mdl = self.models.get(name)
        if mdl is None:
            for pat, fn in self.model_pats:
                if pat.match(name):
                    mdl = fn
                    self.models[name] = fn
                    break
        if mdl is not None:
            return mdl(self, st, args, inst, name)
        f = self.m.get_func(name)
        if f is None:
            al = self.m.is_alias(name)
            if al is not None and al.k == 'gvar':
                return self.call(al.v, args, st, inst)
        if f is None or f.decl:
            return self.unknown_call(name, args, st, inst, f)
        return self.run(f, args, st)

    def unknown_call(self, name, args, st, inst, f):
        raise Unsupported('no contract or body for external function ' + name)

    def call_ptr(self, p, args, st, inst):
        p = self.toptr(p)
        alts = []
        for g, o, f in p.alts:
            if g is not True:
                g = simp_b(g)
                if g is False:
                    continue
            alts.append((g, o, f))
        if len(alts) > 1:
            alts = [a for a in alts if self.feasible(st.path, [zb(a[0])])]
        good = []
        for g, o, f in alts:
            ob = self.objs[o]
            if ob.kind != 'func' or not (is_c(f) and f == 0):
                self.oblige('call through a valid function pointer (%s)' % ob.name, b_not(g), 'call', st)
                continue
            good.append((g, ob.tag))
        if not good:
            st.assume(z3.BoolVal(False))
            return None, None, []
        if len(good) == 1:
            return self.call(good[0][1], args, st, inst)
        rets, throws = [], []
        for g, nm in good:
            s2 = st.fork()
            s2.assume(g)
            r, v, th = self.call(nm, args, s2, inst)
            if r is not None:
                rets.append((r, [(v, inst.ty)] if inst.ty.k != 'void' else []))
            throws += th
        if not rets:
            return None, None, throws
        m = self.merge_states(rets)
        if m is None:
            return None, None, throws
        s, pl = m
        return s, (pl[0][0] if pl else None), throws

    def run(self, f, args, st):
        """symbolically execute a function body"""
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('symbolic execution budget exhausted')
        if self.depth > self.o['max_depth']:
            raise Unsupported('call depth in ' + f.name)
        rec = self.stack.count(f.name)
        if rec > self.o.get('max_rec', 12):
            raise Unsupported('recursion in ' + f.name)
        if rec >= 1:
            if not self.feasible(st.path):
                return None, None, []
        f.parse(self.m)
        if not hasattr(f, 'rpo'):
            irparse.analyse(f)
        self.funcs_seen[f.name] = self.funcs_seen.get(f.name, 0) + 1
        env = {}
        for i, (pty, pn, bv_) in enumerate(f.params):
            env[pn] = args[i]
        fr = Frame()
        fr.f = f
        fr.env = env
        fr.rets = []
        fr.throws = []
        fr.pending = {}
        fr.allocas = []
        fr.varargs = args[len(f.params):] if f.varargs else []
        self.depth += 1
        self.stack.append(f.name)
        try:
            fr.pending[f.rpo[0]] = [(st, [], None)]
            self.region(fr, None)
        finally:
            self.depth -= 1
            self.stack.pop()
        m = self.merge_states([(s, p) for s, p in fr.rets]) if fr.rets else None
        throws = fr.throws
        # stack objects die (their content is dropped)
        if m is not None:
            s, pl = m
            for a in fr.allocas:
                s.mem.pop(a, None)
            dead = OS()
            dead.alive = False
            for a in fr.allocas:
                s.mem[a] = dead
            return s, (pl[0][0] if pl else None), throws
        return None, None, throws

    def region(self, fr, header):
        f = fr.f
        blocks = f.rpo if header is None else [b for b in f.rpo if b in f.loops[header]]
        for b in blocks:
            if b not in fr.pending:
                continue
            if b is not header and b in f.loops:
                # inner loop
                self.loop(fr, b)
                continue
            if b is not header and f.inner.get(b) is not (header if header is not None else None):
                # belongs to an inner loop: executed there
                continue
            edges = fr.pending.pop(b)
            self.block(fr, b, edges)

    def loop(self, fr, h):
        f = fr.f
        for lc in self.loop_contracts:
            fn = lc(self, fr, h)
            if fn is not None:
                fn()
                return
        it = 0
        nsym = 0
        while h in fr.pending:
            edges = fr.pending[h]
            edges = [e for e in edges if not self.path_dead(e[0].path)]
            if not edges:
                del fr.pending[h]
                break
            if it >= 1:
                # prune infeasible iterations; concrete branches need no solver
                keep = []
                sym = False
                for e in edges:
                    if self.back_concrete(e, fr, h):
                        keep.append(e)
                    else:
                        sym = True
                        if self.feasible(e[0].path):
                            keep.append(e)
                edges = keep
                if sym:
                    nsym += 1
                if not edges:
                    del fr.pending[h]
                    break
            if nsym >= self.o['max_iter'] or it >= self.o.get('max_concrete', 20000):
                b = self.o.get('unwind_assume')
                if b:
                    # declared bound reached: executions beyond it are not covered
                    self.bounded.add('%s: loop unwound %d times' % (f.name, it))
                    del fr.pending[h]
                    break
                raise Unsupported('loop in %s exceeds %d iterations without a loop contract' % (f.name, it))
            fr.pending[h] = edges
            self.region(fr, h)
            it += 1

    def back_concrete(self, e, fr, h):
        """the back edge was reached without any new symbolic condition since the previous iteration"""
        last = getattr(fr, 'lastpath', None)
        if last is None:
            fr.lastpath = last = {}
        p = e[0].path
        q = last.get(h)
        last[h] = p
        return q is p

    def block(self, fr, b, edges):
        f = fr.f
        env = fr.env
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('symbolic execution budget exhausted')
        phis = b.phis
        m = self.merge_states([(s, pl) for s, pl, _ in edges])
        if m is None:
            return
        st, pl = m
        for ph, (v, ty) in zip(phis, pl):
            env[ph.res] = v
        try:
            for ins in b.insts:
                self.cur = st
                r = self.step(fr, b, ins, st)
                if r is None:
                    return
                st = r
        except Dead:
            return

    def edge(self, fr, b, succ_name, st):
        f = fr.f
        t = f.bmap[succ_name]
        pl = []
        for ph in t.phis:
            for v, l in ph.a:
                if l == b.name:
                    pl.append((self.val(fr.env, v), ph.ty))
                    break
            else:
                raise Unsupported('phi edge')
        fr.pending.setdefault(t, []).append((st, pl, b))

    # ---------------------------------------------------------- instructions
    def step(self, fr, b, i, st):
        op = i.op
        env = fr.env
        if op in irparse.BINOPS:
            a = self.val(env, i.a[0])
            c = self.val(env, i.a[1])
            if op in ('udiv', 'sdiv', 'urem', 'srem') and not isinstance(c, Vec):
                if is_c(c):
                    if c == 0:
                        self.oblige('division by zero', False, 'arith', st)
                        return None
                else:
                    self.oblige('divisor is not zero', simp_b(c != 0), 'arith', st)
            env[i.res] = self.binop(op, i.ty, a, c)
            return st
        if op == 'load':
            env[i.res] = self.load(st, self.val(env, i.a[0]), i.ty)
            return st
        if op == 'store':
            self.store(st, self.val(env, i.a[1]), self.val(env, i.a[0]), i.a[0].ty)
            return st
        if op == 'getelementptr':
            vs = [self.val(env, a) for a in i.a]
            env[i.res] = self.gep(i.x, vs, [a.ty for a in i.a])
            return st
        if op == 'icmp':
            env[i.res] = self.icmp(i.x, i.a[0].ty, self.val(env, i.a[0]), self.val(env, i.a[1]))
            return st
        if op == 'fcmp':
            a, c = self.val(env, i.a[0]), self.val(env, i.a[1])
            if isinstance(a, Vec):
                env[i.res] = Vec([self.fcmp(i.x, x, y, i.a[0].ty.e.w) for x, y in zip(a, c)])
            else:
                env[i.res] = self.fcmp(i.x, a, c, i.a[0].ty.w)
            return st
        if op in irparse.CASTS:
            env[i.res] = self.cast(op, self.val(env, i.a[0]), i.a[0].ty, i.ty)
            return st
        if op == 'br':
            if not i.a:
                self.edge(fr, b, i.x[0], st)
                return None
            c = self.val(env, i.a[0])
            if type(c) is not bool:
                c = simp_b(c)
            if c is True:
                self.edge(fr, b, i.x[0], st)
            elif c is False:
                self.edge(fr, b, i.x[1], st)
            elif i.x[0] == i.x[1]:
                self.edge(fr, b, i.x[0], st)
            else:
                s2 = st.fork()
                st.assume(c)
                s2.assume(b_not(c))
                self.edge(fr, b, i.x[0], st)
                self.edge(fr, b, i.x[1], s2)
            return None
        if op == 'select':
            c = self.val(env, i.a[0])
            x, y = self.val(env, i.a[1]), self.val(env, i.a[2])
            if isinstance(c, Vec):
                env[i.res] = Vec([self.ite(cc, p, q, i.ty.e) for cc, p, q in zip(c, x, y)])
            else:
                env[i.res] = self.ite(simp_b(c), x, y, i.ty)
            return st
        if op == 'call':
            return self.do_call(fr, b, i, st, None)
        if op == 'invoke':
            r = self.do_call(fr, b, i, st, i.x)
            if r is not None:
                self.edge(fr, b, i.x['normal'], r)
            return None
        if op == 'ret':
            if i.a:
                fr.rets.append((st, [(self.val(env, i.a[0]), i.a[0].ty)]))
            else:
                fr.rets.append((st, []))
            return None
        if op == 'switch':
            v = self.val(env, i.a[0])
            d, cs = i.x
            if isinstance(v, Ptr):
                v = self.pint(v)
            if is_c(v):
                v = int(v)
                for cv, l in cs:
                    if cv == v:
                        self.edge(fr, b, l, st)
                        return None
                self.edge(fr, b, d, st)
                return None
            w = i.a[0].ty.w
            cur = st
            for cv, l in cs:
                e = simp_b(bv(v, w) == z3.BitVecVal(cv, w)) if w > 1 else b_eq(v, bool(cv))
                if e is False:
                    continue
                s2 = cur.fork()
                s2.assume(e)
                self.edge(fr, b, l, s2)
                if e is True:
                    return None
                cur.assume(b_not(e))
            self.edge(fr, b, d, cur)
            return None
        if op == 'alloca':
            t, al = i.x
            sz = size_of(t)
            if i.a:
                n = self.val(env, i.a[0])
                n = self.pint(n)
                sz = sz * n if is_c(n) else simp(z3.ZeroExt(64 - n.size(), n) * sz if n.size() < 64 else n * sz)
            o = self.new_obj('%s.%s' % (fr.f.name[:24], i.res), sz, 'stack')
            fr.allocas.append(o.id)
            s = OS()
            s.owner = st.owner
            st.mem[o.id] = s
            env[i.res] = Ptr([(True, o.id, 0)])
            return st
        if op == 'fneg':
            v = self.val(env, i.a[0])
            env[i.res] = Vec([self.fneg(x) for x in v]) if isinstance(v, Vec) else self.fneg(v)
            return st
        if op == 'extractvalue':
            v = self.val(env, i.a[0])
            for k in i.x:
                v = v[k]
            env[i.res] = v
            return st
        if op == 'insertvalue':
            v = self.val(env, i.a[0])
            x = self.val(env, i.a[1])
            env[i.res] = self.insv(v, i.x, x)
            return st
        if op == 'extractelement':
            v = self.val(env, i.a[0])
            k = self.val(env, i.a[1])
            if not is_c(k):
                r = v[-1]
                for j in range(len(v) - 2, -1, -1):
                    r = self.ite(k == j, v[j], r, i.ty)
                env[i.res] = r
            else:
                env[i.res] = v[k]
            return st
        if op == 'insertelement':
            v = Vec(self.val(env, i.a[0]))
            k = self.val(env, i.a[2])
            x = self.val(env, i.a[1])
            if not is_c(k):
                v = Vec([self.ite(k == j, x, v[j], i.ty.e) for j in range(len(v))])
            else:
                v[k] = x
            env[i.res] = v
            return st
        if op == 'shufflevector':
            a = self.val(env, i.a[0])
            c = self.val(env, i.a[1])
            mk = self.val(env, i.a[2])
            both = list(a) + list(c)
            env[i.res] = Vec([both[k] if is_c(k) and k < len(both) else self.undef(i.ty.e) for k in mk])
            return st
        if op == 'freeze':
            env[i.res] = self.val(env, i.a[0])
            return st
        if op == 'unreachable':
            if self.o.get('unreachable', True):
                self.oblige('unreachable code in %s' % fr.f.name, False, 'unreachable', st)
            return None
        if op == 'landingpad':
            env[i.res] = self.landingpad(i, st)
            return st
        if op == 'resume':
            v = self.val(env, i.a[0])
            # current exception record was kept in st.exc
            fr.throws.append(st)
            return None
        if op == 'fence':
            return st
        if op == 'atomicrmw':
            p = self.val(env, i.a[0])
            v = self.val(env, i.a[1])
            old = self.load(st, p, i.ty)
            new = {'add': lambda: self.binop('add', i.ty, old, v), 'sub': lambda: self.binop('sub', i.ty, old, v),
                   'xchg': lambda: v, 'or': lambda: self.binop('or', i.ty, old, v),
                   'and': lambda: self.binop('and', i.ty, old, v)}[i.x]()
            self.store(st, p, new, i.ty)
            self.notes.add('atomic operations treated as sequential')
            env[i.res] = old
            return st
        if op == 'cmpxchg':
            p = self.val(env, i.a[0])
            e = self.val(env, i.a[1])
            n = self.val(env, i.a[2])
            ty = i.a[1].ty
            old = self.load(st, p, ty)
            eq = self.icmp('eq', ty, old, e)
            self.store(st, p, self.ite(zb(eq) if type(eq) is not bool else eq, n, old, ty), ty)
            env[i.res] = Agg([old, eq])
            return st
        raise Unsupported('instruction ' + op)

    def fneg(self, v):
        w = v.w
        if v._b is not None:
            if type(v._b) is int:
                return FV(w, b=v._b ^ (1 << (w - 1)))
            if v._f is None or self.o['fp'] == 'uf':
                return FV(w, b=v._b ^ z3.BitVecVal(1 << (w - 1), w))
        return FV(w, f=z3.fpNeg(v.f()))

    def insv(self, v, idx, x):
        v = Agg(v)
        if len(idx) == 1:
            v[idx[0]] = x
        else:
            v[idx[0]] = self.insv(v[idx[0]], idx[1:], x)
        return v

    def do_call(self, fr, b, i, st, inv):
        env = fr.env
        cal = i.x['callee']
        if cal.k == 'asm':
            if not i.res and cal.v[0] in ('""',):
                return st
            raise Unsupported('inline asm')
        if cal.k == 'gvar' and cal.v == 'llvm.va_start':
            self.va_start(fr, self.val(env, i.a[0]), st)
            return st
        args = [self.val(env, a) if a.ty.k != 'metadata' else None for a in i.a]
        # byval arguments: callee gets a private copy
        if cal.k == 'gvar':
            f = self.m.get_func(cal.v)
            if f is not None and any(p[2] for p in f.params):
                for k, (pty, pn, bt) in enumerate(f.params):
                    if bt is not None:
                        sz = size_of(bt)
                        o = self.new_obj('byval', sz, 'stack')
                        s = OS()
                        s.owner = st.owner
                        st.mem[o.id] = s
                        self.copy(st, Ptr([(True, o.id, 0)]), args[k], sz)
                        args[k] = Ptr([(True, o.id, 0)])
        self.cur_inst = i
        if cal.k == 'gvar':
            r, v, throws = self.call(cal.v, args, st, i)
        else:
            r, v, throws = self.call_ptr(self.val(env, cal), args, st, i)
        if throws:
            throws = [t for t in throws if not self.path_dead(t.path)]
        if throws:
            if inv is not None:
                for t in throws:
                    self.edge(fr, b, inv['unwind'], t)
            else:
                fr.throws += throws
        if r is None:
            return None
        if i.res is not None:
            env[i.res] = v
        return r

    def va_start(self, fr, p, st):
        raise Unsupported('varargs')

    # ---------------------------------------------------------- exceptions
    def type_matches(self, thrown, caught):
        """thrown/caught: typeinfo global names"""
        if thrown == caught:
            return True
        import models
        return caught in models.bases_of(self, thrown)

    def typeid(self, name):
        ids = self.hooks.setdefault('typeids', {})
        if name not in ids:
            ids[name] = len(ids) + 1
        return ids[name]

    def landingpad(self, i, st):
        ptr, types = st.exc
        sel = None
        for tc, tn in reversed(types):
            s = 0
            for k, v in i.x:
                if k == 'cleanup':
                    continue
                if k == 'catch':
                    if v.k == 'null':
                        s = self.typeid('*')
                        break
                    tv = self.const(v)
                    cn = self.objs[tv.alts[0][1]].name[1:]
                    if tn is None:
                        raise Unsupported('unknown exception type reaching a typed catch')
                    if self.type_matches(tn, cn):
                        s = self.typeid(cn)
                        break
                if k == 'filter':
                    s = self.typeid('*filter')
                    break
            sel = s if sel is None else self.ite_i(zb(tc), s, sel, 32)
        return Agg([ptr, sel])

    def throw(self, st, tname, ptr=None):
        """model helper: raise an exception of the named typeinfo"""
        if ptr is None:
            o = self.new_obj(self.fresh_name('exc'), 64, 'heap')
            s = OS()
            st.mem[o.id] = s
            ptr = Ptr([(True, o.id, 0)])
        st.exc = (ptr, [(True, tname)])
        return None, None, [st]


class Frame:
    pass
