"""Loop contracts.

A loop whose body starts with vf_inv(..)...; vf_cut(variant); is not unrolled.  Instead
  A  entry:      the header is executed from the entry state; exits are kept; where the body is entered every
                 invariant becomes an obligation; nothing beyond the cut is executed;
  B  iteration:  everything the body may change (registers carried around the loop, memory cells or whole arrays) is
                 replaced by unconstrained values, the invariants are assumed, the body is executed once; exits taken
                 after the cut are kept;
  C  maintained: the header is executed from the state at the end of B; exits are kept; where the body is entered
                 again every invariant becomes an obligation and the variant must have decreased.
The set of memory changed by the body is computed by executing B until it no longer grows; pointers that change must
stay inside the object they pointed to on entry (checked on the final B run), anything else is refused."""
import z3
from vals import *
import irparse
from irparse import PTR, IntTy


class Ctx:
    pass


class Hav(dict):
    """memory changed by the loop: object -> 'array' or {(offset, size)}; wild: cells that come to hold a pointer only inside
    the loop (an iteration that reads one before writing it reads an unknown pointer: using it is an error); pts: the objects a
    carried pointer (number of the phi) or pointer cell (object, offset) may point into, when they are several"""
    def __init__(self):
        self.wild = set()
        self.pts = {}


def install_models(ex):
    ex.loopctx = []
    ex.loop_contracts.append(contract)


def has_cut(f, h):
    memo = f.__dict__.setdefault('_cuts', {})
    if h in memo:
        return memo[h]
    r = False
    for b in f.loops[h]:
        if f.inner.get(b) is h or b is h:
            for ins in b.insts:
                if ins.op in ('call', 'invoke') and ins.x['callee'].k == 'gvar' and ins.x['callee'].v == 'vf_cut':
                    r = True
    memo[h] = r
    return r


def contract(ex, fr, h):
    if ex.o.get('loops') == 'off' or not has_cut(fr.f, h):
        return None
    return lambda: run(ex, fr, h)


def snap(fr):
    return dict((k, list(v)) for k, v in fr.pending.items()), list(fr.rets), list(fr.throws)


def restore(fr, s):
    fr.pending = dict((k, list(v)) for k, v in s[0].items())
    fr.rets = list(s[1])
    fr.throws[:] = s[2]


def run(ex, fr, h):
    f = fr.f
    where = f.name
    edges = fr.pending.pop(h)
    m = ex.merge_states([(s, pl) for s, pl, _ in edges])
    if m is None:
        return
    st, pl = m
    if not ex.feasible(st.path):
        return
    ids = ex.hooks.setdefault('loopid', [0])
    ids[0] += 1
    cx = Ctx()
    cx.key = 'post:%d' % ids[0]
    cx.where = where
    cx.variant = None
    cx.ncut = 0
    ex.loops_cut.append(where) if where not in ex.loops_cut else None
    # ---- A
    base = snap(fr)
    cx.mode = 'check'
    cx.what = 'on entry'
    iterate(ex, fr, h, st.fork(), pl, cx)
    if fr.pending.pop(h, None):
        raise Unsupported('loop in %s continues before its invariant' % where)
    after_a = snap(fr)
    # ---- B
    hav = Hav()
    hphi = None
    final = None
    for rnd in range(12):
        restore(fr, after_a)
        dry = final is None
        keep = (len(ex.obligs), len(ex.covers), len(ex.observes), getattr(ex, 'evaluated', 0),
                getattr(ex, 'trivial', 0), getattr(ex, 'ensures', 0))
        hs, hpl = havoc(ex, st.fork(), pl, hav, f, h)
        h0 = hs.fork()
        cx.mode = 'assume'
        cx.ncut = 0
        iterate(ex, fr, h, hs, hpl, cx)
        backs = fr.pending.pop(h, [])
        outs = []
        for k, v in list(fr.pending.items()):
            old = after_a[0].get(k, [])
            new = v[len(old):]
            outs += new
            # exits before the cut belong to A and C
            fr.pending[k] = list(old) + [e for e in new if e[0].ghost.get(cx.key)]
            if not fr.pending[k]:
                del fr.pending[k]
        grown = False
        for e in backs + outs:
            if e[0].ghost.get(cx.key) and diff(ex, h0, e[0], hav):
                grown = True
        if more_objects(ex, hpl, backs, hav, h0):
            grown = True
        for s in fr.throws[len(after_a[2]):] + [r[0] for r in fr.rets[len(after_a[1]):]]:
            pass
        if grown or final is None:
            if not grown:
                final = True
            del ex.obligs[keep[0]:]
            del ex.covers[keep[1]:]
            del ex.observes[keep[2]:]
            ex.evaluated, ex.trivial, ex.ensures = keep[3:]
            continue
        break
    else:
        raise Unsupported('the memory changed by the loop in %s keeps growing' % where)
    if cx.ncut == 0 and not backs:
        # the body is never entered
        return
    check_ptrs(ex, pl, hpl, backs, hav, h0, where)
    # ---- C
    if backs:
        mm = ex.merge_states([(s, p) for s, p, _ in backs])
        if mm is not None:
            s2, p2 = mm
            s2.ghost.pop(cx.key, None)
            cx.mode = 'check'
            cx.what = 'is maintained'
            iterate(ex, fr, h, s2, p2, cx)
            if fr.pending.pop(h, None):
                raise Unsupported('loop in %s continues before its invariant' % where)


def iterate(ex, fr, h, st, pl, cx):
    ex.loopctx.append(cx)
    saved_env = fr.env
    fr.env = dict(saved_env)
    sl = getattr(fr, 'lastpath', None)
    fr.lastpath = None
    cx.frame = fr
    try:
        fr.pending[h] = [(st, pl, None)]
        ex.region(fr, h)
    finally:
        ex.loopctx.pop()
        fr.env = saved_env
        fr.lastpath = sl


# ------------------------------------------------------------------ havoc
def havoc_val(ex, v, ty, nm, st, pts=None):
    if ty.k == 'ptr':
        p = ex.toptr(v)
        objs = set(o for g, o, o2 in p.alts)
        if len(objs) > 1:
            objs = set(o for g, o, o2 in p.alts if g is True or (g is not False and ex.feasible(st.path, [g])))
        objs |= pts or set()
        null = [o for o in objs if ex.objs[o].kind == 'null']
        if pts:
            alts, rest = [], True
            objs = sorted(objs)
            for k, o in enumerate(objs):
                c = True
                if k + 1 < len(objs):
                    c = z3.Bool(ex.fresh_name('hav!in%d' % o))
                off = 0 if o in null else ex.fresh_bv('hav!' + nm, 64)
                alts.append((b_and(rest, c), o, off))
                rest = b_and(rest, b_not(c))
            return Ptr(alts)
        if len(objs) != 1:
            raise Unsupported('loop-carried pointer %s into several objects' % nm)
        o = objs.pop()
        if null and pts is not None:
            # null so far: which objects it points into later is found by executing the body
            return Ptr([(True, o, 0)])
        if ex.objs[o].kind in ('null', 'func'):
            raise Unsupported('loop-carried pointer %s starts null' % nm)
        return Ptr([(True, o, ex.fresh_bv('hav!' + nm, 64))])
    if ty.k in ('struct', 'array'):
        els = ty.e if ty.k == 'struct' else [ty.e] * ty.n
        return Agg([havoc_val(ex, a, t, nm, st) for a, t in zip(v, els)])
    if ty.k == 'vector':
        return Vec([havoc_val(ex, a, ty.e, nm, st) for a in v])
    return ex.fresh_of(ty, 'hav!' + nm)


def havoc(ex, st, pl, hav, f, h):
    npl = []
    for k, (ph, (v, ty)) in enumerate(zip(h.phis, pl)):
        npl.append((havoc_val(ex, v, ty, str(ph.res), st, hav.pts.get(k, set())), ty))
    for oid, w in hav.items():
        s = ex.osw(st, oid)
        if w == 'array':
            ex.to_array(s, oid)
            s.arr = z3.Array(ex.fresh_name('hav!mem%d' % oid), z3.BitVecSort(64), z3.BitVecSort(8))
            continue
        for off, n in sorted(w):
            c = s.cells.get(off)
            old = c[1] if c is not None and c[0] == n else ex.read_cells(s, oid, off, n)
            if (oid, off, n) in hav.wild:
                v = ex.fresh_of(PTR, 'hav!cell')
            elif isinstance(old, Ptr):
                v = havoc_val(ex, old, PTR, 'cell', st, hav.pts.get((oid, off), set()))
            elif isinstance(old, FV):
                v = FV(8 * n, b=ex.fresh_bv('hav!cell', 8 * n))
            else:
                v = ex.fresh_bv('hav!cell', 8 * n)
            ex.write_cells(s, oid, off, n, v)
    return st, npl


def diff(ex, a, b, hav):
    """memory of b that differs from a; adds it to hav; True if hav grew"""
    grew = False
    for oid, sb in b.mem.items():
        sa = a.mem.get(oid)
        if sa is sb:
            continue
        o = ex.objs[oid]
        if sa is None:
            if o.kind not in ('global', 'extglobal', 'input', 'ext'):
                continue        # allocated in the loop
            sa = ex.os(a, oid)
        if sb.alive is not sa.alive and sa.alive is not False and not (
                z3.is_expr(sb.alive) and z3.is_expr(sa.alive) and sb.alive.eq(sa.alive)):
            raise Unsupported('the loop frees memory allocated before it')
        if hav.get(oid) == 'array':
            continue
        if sa.arr is not None or sb.arr is not None:
            if sa.arr is not None and sb.arr is not None and sa.arr.eq(sb.arr):
                continue
            if sa.arr is None and not written(ex, sa, sb, oid):
                continue
            hav[oid] = 'array'
            grew = True
            continue
        w = hav.setdefault(oid, set())
        for off, (n, v) in sb.cells.items():
            c = sa.cells.get(off)
            if c is not None and c[0] == n:
                if same(c[1], v):
                    continue
                if (off, n) in w:
                    continue
            else:
                if c is None and ex.is_uninit(v) if z3.is_expr(v) else False:
                    continue
                old = ex.read_cells(sa, oid, off, n)
                if same(old, v):
                    continue
                if (off, n) in w:
                    continue
            for (o2, n2) in list(w):
                if o2 < off + n and off < o2 + n2:
                    # different granularity: give up on the cells, treat as bytes
                    hav[oid] = 'array'
                    grew = True
                    break
            if hav[oid] == 'array':
                break
            w.add((off, n))
            grew = True
            if n == 8 and isinstance(v, Ptr) and not isinstance(c[1] if c is not None and c[0] == n else ex.read_cells(sa, oid, off, n), Ptr):
                hav.wild.add((oid, off, n))
        if hav.get(oid) == set():
            del hav[oid]
    return grew


def written(ex, sa, sb, oid):
    t = sa.copy(sa.owner)
    ex.to_array(t, oid)
    return not t.arr.eq(sb.arr)


def ptr_objs(ex, p, path=None):
    r = set()
    for g, o, f in ex.toptr(p).alts:
        if g is False or (path is not None and g is not True and not ex.feasible(path, [g])):
            continue
        # (an integer made a pointer counts as an object of its own, which no pointer may be assumed to point into)
        r.add(-1 if ex.objs[o].kind == 'null' and not (is_c(f) and f == 0) else o)
    return r


def more_objects(ex, hpl, backs, hav, h0):
    """objects that carried pointers and pointer cells reach at the end of the body only; adds them to hav.pts"""
    grew = False

    def add(key, old, new, path):
        nonlocal grew
        a = ptr_objs(ex, old)
        b = ptr_objs(ex, new)
        if b <= a:
            return
        b = ptr_objs(ex, new, path)
        if b <= a:
            return
        if -1 in b or len(a | b) > 6 or any(ex.objs[o].kind == 'func' or (o not in h0.mem and ex.objs[o].kind not in (
                'null', 'global', 'extglobal', 'input', 'ext')) for o in b):
            raise Unsupported('loop-carried pointer leaves its object')
        hav.pts[key] = hav.pts.get(key, set()) | a | b
        grew = True
    for (s, p2, _) in backs:
        for k, ((v, ty), (w, _)) in enumerate(zip(hpl, p2)):
            if ty.k == 'ptr':
                add(k, v, w, s.path)
        for oid, w in hav.items():
            if w == 'array':
                continue
            for off, n in w:
                if (oid, off, n) in hav.wild:
                    continue
                a = h0.mem[oid].cells.get(off)
                b = s.mem[oid].cells.get(off) if oid in s.mem else None
                if a is not None and isinstance(a[1], Ptr) and b is not None and isinstance(b[1], Ptr):
                    add((oid, off), a[1], b[1], s.path)
    return grew


def check_ptrs(ex, pl, hpl, backs, hav, h0, where):
    """loop-carried pointers and pointer cells stay inside the objects assumed for them"""
    for (s, p2, _) in backs:
        for (v, ty), (w, _) in zip(hpl, p2):
            if ty.k == 'ptr' and not (ptr_objs(ex, w) <= ptr_objs(ex, v) or ptr_objs(ex, w, s.path) <= ptr_objs(ex, v)):
                raise Unsupported('loop-carried pointer in %s leaves its object' % where)
        for oid, w in hav.items():
            if w == 'array':
                continue
            for off, n in w:
                if (oid, off, n) in hav.wild:
                    continue
                a = h0.mem[oid].cells.get(off)
                b = s.mem[oid].cells.get(off) if oid in s.mem else None
                if a is not None and isinstance(a[1], Ptr):
                    if b is None or not isinstance(b[1], Ptr) or not (ptr_objs(ex, b[1]) <= ptr_objs(
                            ex, a[1]) or ptr_objs(ex, b[1], s.path) <= ptr_objs(ex, a[1])):
                        raise Unsupported('pointer stored in memory changes object in the loop of %s' % where)
                elif b is not None and isinstance(b[1], Ptr):
                    raise Unsupported('memory cell %s+%d turns into a pointer in the loop of %s (%s to %s)' % (ex.objs[oid].name, off, where, a and str(a[1])[:80], b[1].alts))


# ------------------------------------------------------------------ vf_inv / vf_cut
def vf_inv(ex, st, a, i, n):
    cx = ctx(ex)
    if cx is None:
        return st, None, []
    c = a[0]
    if cx.mode == 'assume':
        if c is False:
            st.assume(z3.BoolVal(False))
            return None, None, []
        if c is not True:
            st.assume(c)
        return st, None, []
    from sym import Oblig
    nm = 'loop invariant of %s holds %s' % (cx.where, cx.what)
    ex.ensures = getattr(ex, 'ensures', 0) + 1
    if c is True:
        ex.evaluated = getattr(ex, 'evaluated', 0) + 1
    else:
        for x in conjuncts(c):  # one obligation each, every one with those before it
            ex.obligs.append(Oblig(nm, st.path, x, 'invariant', ex.where()))
            st.assume(x if x is not False else z3.BoolVal(False))
    return st, None, []


def conjuncts(c):
    if isinstance(c, z3.BoolRef) and z3.is_and(c):
        return [y for x in c.children() for y in conjuncts(x)]
    return [c]


def vf_cut(ex, st, a, i, n):
    cx = ctx(ex)
    if cx is None:
        return st, None, []
    v = a[0]
    cx.ncut += 1
    if cx.mode == 'assume':
        cx.variant = v
        st.ghost[cx.key] = True
        return st, None, []
    if cx.what == 'is maintained' and cx.variant is not None:
        from sym import Oblig
        c = simp_b(z3.ULT(bv(v, 64), bv(cx.variant, 64)))
        if c is True:
            ex.evaluated = getattr(ex, 'evaluated', 0) + 1
        else:
            ex.obligs.append(Oblig('loop of %s terminates: its variant decreases' % cx.where, st.path, c, 'variant',
                                   ex.where()))
    return None, None, []


def ctx(ex):
    lc = ex.loopctx
    return lc[-1] if lc else None


def muted(ex, st):
    for c in ex.loopctx:
        if c.mode == 'assume' and not st.ghost.get(c.key):
            return True
    return False
