"""Assumed contracts on code outside /repo (C/C++ runtime, libc, logging back end)
and the vf_* specification primitives used by the contract harnesses."""
import re
import z3
import irparse
from irparse import IntTy, PTR, F32, F64
from vals import *

R = {}
PATS = []
TRUST = {}


def model(*names, trust=None):
    def d(fn):
        for n in names:
            R[n] = fn
            if trust:
                TRUST[n] = trust
        return fn
    return d


def pattern(p, trust=None):
    def d(fn):
        if trust:
            def w(ex, st, args, inst, name):
                ex.trusted.add(trust)
                return fn(ex, st, args, inst, name)
            PATS.append((re.compile(p), w))
        else:
            PATS.append((re.compile(p), fn))
        return fn
    return d


def install(ex):
    for n, fn in R.items():
        t = TRUST.get(n)
        if t:
            def w(ex, st, args, inst, name, fn=fn, t=t):
                ex.trusted.add(t)
                return fn(ex, st, args, inst, name)
            ex.models[n] = w
        else:
            ex.models[n] = fn
    ex.model_pats = list(PATS)


def ret(st, v=None):
    return st, v, []


# ------------------------------------------------------------- C++ exceptions
STD_BASES = {
    '_ZTISt9exception': [],
    '_ZTISt11logic_error': ['_ZTISt9exception'],
    '_ZTISt13runtime_error': ['_ZTISt9exception'],
    '_ZTISt16invalid_argument': ['_ZTISt11logic_error'],
    '_ZTISt12out_of_range': ['_ZTISt11logic_error'],
    '_ZTISt12length_error': ['_ZTISt11logic_error'],
    '_ZTISt12domain_error': ['_ZTISt11logic_error'],
    '_ZTISt14overflow_error': ['_ZTISt13runtime_error'],
    '_ZTISt15underflow_error': ['_ZTISt13runtime_error'],
    '_ZTISt11range_error': ['_ZTISt13runtime_error'],
    '_ZTISt9bad_alloc': ['_ZTISt9exception'],
    '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc'],
    '_ZTISt8bad_cast': ['_ZTISt9exception'],
    '_ZTISt18bad_variant_access': ['_ZTISt9exception'],
    '_ZTISt19bad_optional_access': ['_ZTISt9exception'],
    '_ZTISt12system_error': ['_ZTISt13runtime_error'],
    '_ZTISt17bad_function_call': ['_ZTISt9exception'],
    '_ZTI16ericwtools_error': ['_ZTISt13runtime_error'],
}


def bases_of(ex, t):
    memo = ex.hooks.setdefault('bases', {})
    if t in memo:
        return memo[t]
    memo[t] = set()
    direct = STD_BASES.get(t)
    if direct is None:
        direct = []
        g = ex.m.get_global(t)
        if g is None or g.init is None:
            pass
        else:
            # { vtable, name, base...}
            for c in g.init.v[2:] if g.init.k == 'agg' else []:
                if c.k == 'gvar' and c.v.startswith('_ZTI'):
                    direct.append(c.v)
    out = set()
    for b in direct:
        out.add(b)
        out |= bases_of(ex, b)
    memo[t] = out
    return out


@model('__cxa_allocate_exception')
def _(ex, st, a, i, n):
    sz = a[0] if is_c(a[0]) else 64
    o = ex.new_obj(ex.fresh_name('exc'), sz, 'heap')
    from sym import OS
    st.mem[o.id] = OS()
    return ret(st, Ptr([(True, o.id, 0)]))


@model('__cxa_free_exception', '__cxa_guard_abort', '_ZNSt16invalid_argumentD1Ev')
def _(ex, st, a, i, n):
    return ret(st)


@model('__cxa_throw')
def _(ex, st, a, i, n):
    ti = ex.toptr(a[1])
    types = [(g, ex.objs[o].name[1:]) for g, o, f in ti.alts]
    st.exc = (a[0], types)
    return None, None, [st]


@model('__cxa_begin_catch')
def _(ex, st, a, i, n):
    st.caught = st.caught + (st.exc,)
    return ret(st, a[0])


@model('__cxa_end_catch')
def _(ex, st, a, i, n):
    if st.caught:
        st.exc = st.caught[-1]
        st.caught = st.caught[:-1]
    return ret(st)


@model('__cxa_rethrow')
def _(ex, st, a, i, n):
    st.exc = st.caught[-1]
    return None, None, [st]


@model('llvm.eh.typeid.for', 'llvm.eh.typeid.for.p0')
def _(ex, st, a, i, n):
    return ret(st, ex.typeid(ex.objs[ex.toptr(a[0]).alts[0][1]].name[1:]))


@model('__clang_call_terminate', '_ZSt9terminatev', 'abort')
def _(ex, st, a, i, n):
    ex.oblige('no call to terminate/abort', False, 'terminate', st)
    return None, None, []


@model('exit', '_exit')
def _(ex, st, a, i, n):
    return path_exit(ex, st, 'exit')


def path_exit(ex, st, what):
    """the program refuses to continue: not a return.  An obligation unless the contract allows it."""
    al = st.ghost.get('allow_exit')
    if z3.is_expr(al):
        ex.oblige('program does not exit (%s)' % what, al, 'exit', st)
    elif not al:
        ex.oblige('program does not exit (%s)' % what, False, 'exit', st)
    else:
        ex.exits = getattr(ex, 'exits', [])
        ex.exits.append(st.path)
    return None, None, []


THROWS = {
    '_ZSt20__throw_length_errorPKc': '_ZTISt12length_error',
    '_ZSt19__throw_logic_errorPKc': '_ZTISt11logic_error',
    '_ZSt24__throw_out_of_range_fmtPKcz': '_ZTISt12out_of_range',
    '_ZSt20__throw_out_of_rangePKc': '_ZTISt12out_of_range',
    '_ZSt24__throw_invalid_argumentPKc': '_ZTISt16invalid_argument',
    '_ZSt21__throw_runtime_errorPKc': '_ZTISt13runtime_error',
    '_ZSt17__throw_bad_allocv': '_ZTISt9bad_alloc',
    '_ZSt28__throw_bad_array_new_lengthv': '_ZTISt20bad_array_new_length',
    '__cxa_throw_bad_array_new_length': '_ZTISt20bad_array_new_length',
    '__cxa_bad_cast': '_ZTISt8bad_cast',
    '_ZSt16__throw_bad_castv': '_ZTISt8bad_cast',
    '_ZSt25__throw_bad_function_callv': '_ZTISt17bad_function_call',
    '_ZSt20__throw_system_errori': '_ZTISt12system_error',
    '_ZSt27__throw_bad_optional_accessv': '_ZTISt19bad_optional_access',
    # /repo's own error exits: common/log.cc throws ericwtools_error
    '_Z5ErrorPKc': '_ZTI16ericwtools_error',
    '_Z6VErrorN3fmt2v917basic_string_viewIcEENS0_17basic_format_argsINS0_20basic_format_contextINS0_8appenderEcEEEE':
        '_ZTI16ericwtools_error',
}
for _n, _t in THROWS.items():
    def _mk(t):
        def fn(ex, st, a, i, n):
            ex.trusted.add('error reporting functions (Error, VError, std::__throw_*) throw the documented type')
            return ex.throw(st, t)
        return fn
    R[_n] = _mk(_t)


@pattern(r'_Z6VErrorN3fmt.*')
def _(ex, st, a, i, n):
    ex.trusted.add('error reporting functions (Error, VError, std::__throw_*) throw the documented type')
    return ex.throw(st, '_ZTI16ericwtools_error')


@pattern(r'_ZNSt(16invalid_argument|12out_of_range|13runtime_error|11logic_error|12length_error|14overflow_error)C[12]E.*')
def _(ex, st, a, i, n):
    return ret(st)


@pattern(r'_ZNSt(16invalid_argument|12out_of_range|13runtime_error|11logic_error|9exception|12length_error)D[012]Ev')
def _(ex, st, a, i, n):
    return ret(st)


@pattern(r'_ZN7logging7assert_EbPKcS1_i')
def _(ex, st, a, i, n):
    c = a[0]
    if c is True:
        return ret(st)
    al = st.ghost.get('allow_exit')
    if z3.is_expr(al):
        ex.oblige('Q_assert holds', z3.Or(zb(al), zb(c)), 'assert', st)
        st.assume(c)
        return (None, None, []) if c is False else ret(st)
    if al:
        st.assume(c if c is not False else z3.BoolVal(False))
        if c is False:
            return None, None, []
        return ret(st)
    ex.oblige('Q_assert holds', c, 'assert', st)
    if c is False:
        return None, None, []
    return ret(st)


@pattern(r'(_ZN3fmt2v96vprint|_ZN7logging(5print|6vprint|10vfuncprint|9funcprint|6header|5close|7percent|4init)).*',
         trust='logging:: and fmt::print only print: they return and change nothing the contracts mention')
def _(ex, st, a, i, n):
    return ret(st, ex.fresh_of(i.ty, 'log') if i is not None and i.ty.k != 'void' else None)


@pattern(r'_ZN3fmt2v9\d*7vformat.*',
         trust='fmt:: formatting returns some string (or the text is unused by the contract)')
def _(ex, st, a, i, n):
    # sret std::string: an arbitrary short string
    p = ex.toptr(a[0])
    from sym import OS
    g, o, f = p.alts[0]
    make_string(ex, st, p)
    return ret(st)


@pattern(r'_ZN3fmt2v96detail(10vformat_to|11assert_fail).*', trust='fmt:: formatting appends some text')
def _(ex, st, a, i, n):
    return ret(st)


def make_string(ex, st, p):
    """an arbitrary std::string of small size living in its local buffer"""
    ex.store(st, p, ex.padd(p, 16), PTR)
    ln = ex.fresh_bv('fmtlen', 64)
    ex.assumps.append(z3.ULE(ln, 15))
    ex.store(st, ex.padd(p, 8), ln, IntTy(64))
    for k in range(2):
        ex.store(st, ex.padd(p, 16 + 8 * k), ex.fresh_bv('fmttxt', 64), IntTy(64))


# ------------------------------------------------------------- memory
MAXALLOC = 1 << 46


@model('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t', '_ZnamSt11align_val_t', '_ZnwmSt11align_val_t',
       'aligned_alloc', trust='allocation returns a fresh block of the requested size or throws bad_alloc '
                              '(the throwing outcome is not explored)')
def _(ex, st, a, i, n):
    from sym import OS
    if ex.loopctx and not ex.feasible(st.path):
        st.assume(z3.BoolVal(False))
        return None, None, []
    sz = a[1] if n == 'aligned_alloc' else a[0]
    if isinstance(sz, Ptr):
        sz = ex.pint(sz)
    if not is_c(sz):
        sz = simp(sz)
        if not is_c(sz):
            # impossible sizes make the allocator throw
            st.assume(z3.ULT(sz, z3.BitVecVal(MAXALLOC, 64)))
    o = ex.new_obj(ex.fresh_name('heap'), sz, 'heap')
    st.mem[o.id] = OS()
    st.mem[o.id].owner = st.owner
    return ret(st, Ptr([(True, o.id, 0)]))


@model('calloc')
def _(ex, st, a, i, n):
    from sym import OS
    sz = ex.binop('mul', IntTy(64), a[0], a[1])
    o = ex.new_obj(ex.fresh_name('heap'), sz, 'heap')
    st.mem[o.id] = OS()
    st.mem[o.id].owner = st.owner
    p = Ptr([(True, o.id, 0)])
    ex.memset(st, p, 0, sz)
    return ret(st, p)


@model('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdaPvSt11align_val_t',
       '_ZdlPvmSt11align_val_t')
def _(ex, st, a, i, n):
    p = ex.toptr(a[0])
    for g, o, f in p.alts:
        if o == 0:
            continue
        ob = ex.objs[o]
        if ob.kind == 'wild':
            continue
        s = ex.osw(st, o)
        if g is not True:
            g = simp_b(g)
        bad = False
        if ob.kind not in ('heap',):
            ok = b_not(g)
            bad = True
        else:
            z = (f == 0) if is_c(f) else simp_b(f == 0)
            ok = b_or(b_not(g), b_and(s.alive, z))
        if ok is not True:
            ex.oblige('delete of a live allocation (%s)' % ob.name, ok, 'free', st)
        if bad:
            continue
        s = ex.osw(st, o)
        s.alive = b_and(s.alive, b_not(g))
    return ret(st)


@pattern(r'llvm\.(memcpy|memmove)\..*')
def _(ex, st, a, i, n):
    ex.copy(st, a[0], a[1], a[2])
    return ret(st)


@model('memcpy', 'memmove')
def _(ex, st, a, i, n):
    ex.copy(st, a[0], a[1], a[2])
    return ret(st, a[0])


@pattern(r'llvm\.memset\..*')
def _(ex, st, a, i, n):
    ex.memset(st, a[0], a[1], a[2])
    return ret(st)


@model('memset')
def _(ex, st, a, i, n):
    v = a[1]
    v = v & 255 if is_c(v) else simp(z3.Extract(7, 0, v))
    ex.memset(st, a[0], v, a[2])
    return ret(st, a[0])


def max_len(ex, st, p, n, hard=4096):
    if is_c(n):
        return n
    # bounded by the smallest object size
    m = None
    for g, o, f in ex.toptr(p).alts:
        ob = ex.objs[o]
        if is_c(ob.size):
            k = ob.size - (f if is_c(f) else 0)
            m = k if m is None else max(m, k)
    return m


def bytes_at(ex, st, p, i):
    return ex.load_raw_nb(st, ex.padd(p, i))


@model('bcmp', 'memcmp', 'strncmp', 'strcmp', 'strcasecmp', 'strncasecmp')
def _(ex, st, a, i, n):
    isstr = n.startswith('str')
    fold = 'case' in n
    lim = a[2] if n in ('bcmp', 'memcmp', 'strncmp', 'strncasecmp') else None
    if lim is not None and isinstance(lim, Ptr):
        lim = ex.pint(lim)
    if lim is not None and is_c(lim) and lim == 0:
        return ret(st, 0)
    p, q = ex.toptr(a[0]), ex.toptr(a[1])
    mx = lim if lim is not None and is_c(lim) else None
    for r in (p, q):
        k = max_len(ex, st, r, z3.BitVec('x', 64))
        if k is not None and (mx is None or (k < mx)):
            if isstr or not (lim is not None and is_c(lim)):
                mx = k
    if mx is None:
        raise Unsupported(n + ' of unbounded length')
    if mx > 600:
        raise Unsupported(n + ' of length %d' % mx)
    # walk; difference at first unequal byte
    res = []     # (guard so far, diff)
    g = True
    for k in range(mx):
        if lim is not None and not is_c(lim):
            g = b_and(g, simp_b(z3.UGT(lim, z3.BitVecVal(k, 64))))
        if g is False:
            break
        x = load_g(ex, st, p, k, g)
        y = load_g(ex, st, q, k, g)
        if fold:
            x, y = lower8(x), lower8(y)
        if is_c(x) and is_c(y):
            e = x == y
        else:
            e = simp_b(bv(x, 8) == bv(y, 8))
        if is_c(x) and is_c(y):
            d = (x - y) & mask(32)
        else:
            d = simp(z3.ZeroExt(24, bv(x, 8)) - z3.ZeroExt(24, bv(y, 8)))
        res.append((b_and(g, b_not(e)), d))
        g = b_and(g, e)
        if isstr:
            z = (x == 0) if is_c(x) else simp_b(bv(x, 8) == 0)
            g = b_and(g, b_not(z))
        if g is not True and g is not False:
            g = simp_b(g)
        if g is False:
            break
    if g is not False and not (lim is not None and mx == lim) and lim is None:
        ex.oblige(n + ' terminates inside its arguments', b_not(g), 'bounds', st)
    out = 0
    for c, d in reversed(res):
        out = ex.ite(c, d, out, IntTy(32))
    if n == 'bcmp':
        # only zero / non-zero is specified
        pass
    return ret(st, out)


def load_g(ex, st, p, k, g):
    """byte p[k], read under guard g (the bounds obligation is guarded)"""
    if g is True:
        return ex.load_raw(st, ex.padd(p, k), 1, IntTy(8))
    q = ex.padd(p, k)
    res = None
    for gg, o, f in reversed(q.alts):
        c = ex.in_bounds(o, f, 1, st)
        if c is not True:
            ex.oblige('string/memory comparison inside %s' % ex.objs[o].name,
                      b_or(b_not(b_and(g, gg)), c), 'bounds', st)
        if c is False:
            continue
        v = ex.load_raw(st, Ptr([(True, o, f)]), 1, IntTy(8)) if c is True else \
            quiet_load(ex, st, Ptr([(True, o, f)]))
        res = v if res is None else ex.ite(zb(gg), v, res, IntTy(8))
    return 0 if res is None else res


def quiet_load(ex, st, p):
    save = ex.o['check_bounds']
    ex.o['check_bounds'] = False
    try:
        return ex.load_raw(st, p, 1, IntTy(8))
    finally:
        ex.o['check_bounds'] = save


def lower8(x):
    if is_c(x):
        return x + 32 if 65 <= x <= 90 else x
    return z3.If(z3.And(z3.UGE(x, 65), z3.ULE(x, 90)), x + 32, x)


@model('tolower')
def _(ex, st, a, i, n):
    x = a[0]
    ex.trusted.add('tolower/isspace/toupper in the "C" locale')
    if is_c(x):
        return ret(st, x + 32 if 65 <= x <= 90 else x)
    return ret(st, z3.If(z3.And(x >= 65, x <= 90), x + 32, x))


@model('toupper')
def _(ex, st, a, i, n):
    x = a[0]
    if is_c(x):
        return ret(st, x - 32 if 97 <= x <= 122 else x)
    return ret(st, z3.If(z3.And(x >= 97, x <= 122), x - 32, x))


@model('isspace')
def _(ex, st, a, i, n):
    x = a[0]
    ex.trusted.add('tolower/isspace/toupper in the "C" locale')
    if is_c(x):
        return ret(st, 1 if x == 32 or 9 <= x <= 13 else 0)
    return ret(st, z3.If(z3.Or(x == 32, z3.And(x >= 9, x <= 13)), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))


@model('strlen')
def _(ex, st, a, i, n):
    p = ex.toptr(a[0])
    mx = max_len(ex, st, p, z3.BitVec('x', 64))
    if mx is None or mx > 2000:
        raise Unsupported('strlen unbounded')
    g = True
    res = []
    for k in range(mx):
        x = load_g(ex, st, p, k, g)
        z = (x == 0) if is_c(x) else simp_b(bv(x, 8) == 0)
        res.append((z, k))
        g = b_and(g, b_not(z))
        if g is False:
            break
    if g is not False:
        ex.oblige('strlen argument is terminated', b_not(g), 'bounds', st)
    out = res[-1][1]
    for z, k in reversed(res[:-1]):
        out = ex.ite(z, k, out, IntTy(64))
    return ret(st, out)


@model('memchr')
def _(ex, st, a, i, n):
    p = ex.toptr(a[0])
    c = a[1] & 255 if is_c(a[1]) else z3.Extract(7, 0, a[1])
    if not is_c(a[2]):
        mx = max_len(ex, st, p, a[2])
    else:
        mx = a[2]
    if mx is None or mx > 600:
        raise Unsupported('memchr')
    g = True
    out = NULL
    res = []
    for k in range(mx):
        gk = g if is_c(a[2]) else b_and(g, simp_b(z3.UGT(a[2], z3.BitVecVal(k, 64))))
        x = load_g(ex, st, p, k, gk)
        z = (x == c) if is_c(x) and is_c(c) else simp_b(bv(x, 8) == bv(c, 8))
        res.append((b_and(gk, z), k))
        g = b_and(gk, b_not(z))
        if g is False:
            break
    for z, k in reversed(res):
        out = ex.ite_p(zb(z), ex.padd(p, k), out) if type(z) is not bool else (ex.padd(p, k) if z else out)
    return ret(st, out)


@pattern(r'llvm\.(lifetime|invariant|experimental|dbg|prefetch|donothing|var\.annotation).*')
def _(ex, st, a, i, n):
    return ret(st)


@model('llvm.assume')
def _(ex, st, a, i, n):
    # optimiser facts derived from the same code; nothing is assumed from them
    return ret(st)


@model('llvm.stacksave', 'llvm.stacksave.p0', 'llvm.stackrestore', 'llvm.stackrestore.p0')
def _(ex, st, a, i, n):
    return ret(st, NULL)


@pattern(r'llvm\.expect\..*')
def _(ex, st, a, i, n):
    return ret(st, a[0])


@pattern(r'llvm\.(is\.constant)\..*')
def _(ex, st, a, i, n):
    return ret(st, False)


@pattern(r'llvm\.(objectsize)\..*')
def _(ex, st, a, i, n):
    return ret(st, mask(i.ty.w))


@model('llvm.trap', 'llvm.ubsantrap', 'llvm.debugtrap')
def _(ex, st, a, i, n):
    kind = {0: 'add overflow', 3: 'alignment/null', 7: 'division', 12: 'multiplication overflow',
            13: 'negation overflow', 18: 'out of bounds index', 20: 'shift', 21: 'subtraction overflow',
            5: 'float cast', 10: 'invalid builtin', 11: 'invalid enum/bool', 22: 'type mismatch'}.get(
        a[0] if a and is_c(a[0]) else -1, 'check %s' % (a[0] if a else ''))
    ex.oblige('no undefined behaviour: ' + kind, False, 'ub', st)
    return None, None, []


def minmax(k):
    def fn(ex, st, a, i, n):
        ty = i.ty
        def one(x, y, t):
            c = ex.icmp({'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[k], t, x, y)
            return ex.ite(c, x, y, t)
        if isinstance(a[0], Vec):
            return ret(st, Vec([one(x, y, ty.e) for x, y in zip(a[0], a[1])]))
        return ret(st, one(a[0], a[1], ty))
    return fn


for _k in ('umin', 'umax', 'smin', 'smax'):
    PATS.append((re.compile(r'llvm\.%s\..*' % _k), minmax(_k)))


@pattern(r'llvm\.abs\..*')
def _(ex, st, a, i, n):
    w = i.ty.w
    x = a[0]
    if is_c(x):
        return ret(st, ((1 << w) - x) & mask(w) if x >> (w - 1) else x)
    return ret(st, z3.If(x < 0, -x, x))


@pattern(r'llvm\.(ctpop|ctlz|cttz)\..*')
def _(ex, st, a, i, n):
    w = i.ty.w
    x = a[0]
    k = n.split('.')[1]
    if is_c(x):
        if k == 'ctpop':
            return ret(st, bin(x).count('1'))
        if k == 'ctlz':
            return ret(st, w - x.bit_length())
        return ret(st, w if x == 0 else (x & -x).bit_length() - 1)
    if k == 'ctpop':
        r = z3.BitVecVal(0, w)
        for j in range(w):
            r = r + z3.ZeroExt(w - 1, z3.Extract(j, j, x))
        return ret(st, r)
    r = z3.BitVecVal(w, w)
    rng = range(w) if k == 'ctlz' else range(w - 1, -1, -1)
    for j in rng:
        r = z3.If(z3.Extract(j, j, x) == 1, z3.BitVecVal(w - 1 - j if k == 'ctlz' else j, w), r)
    return ret(st, r)


@pattern(r'llvm\.bswap\..*')
def _(ex, st, a, i, n):
    w = i.ty.w
    x = a[0]
    if is_c(x):
        return ret(st, int.from_bytes(x.to_bytes(w // 8, 'little'), 'big'))
    return ret(st, simp(z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, x) for k in range(w // 8)])))


@pattern(r'llvm\.(fshl|fshr)\..*')
def _(ex, st, a, i, n):
    w = i.ty.w
    x, y, s = bv(a[0], w), bv(a[1], w), bv(a[2], w)
    s = z3.URem(s, z3.BitVecVal(w, w))
    cc = z3.Concat(x, y)
    if 'fshl' in n:
        r = z3.Extract(2 * w - 1, w, cc << z3.ZeroExt(w, s))
    else:
        r = z3.Extract(w - 1, 0, z3.LShR(cc, z3.ZeroExt(w, s)))
    return ret(st, simp(r))


@pattern(r'llvm\.[us](add|sub|mul)\.with\.overflow\..*')
def _(ex, st, a, i, n):
    parts = n.split('.')
    op = parts[1]
    sg = op[0] == 's'
    w = i.ty.e[0].w
    x, y = a[0], a[1]
    if isinstance(x, Ptr):
        x = ex.pint(x)
    if isinstance(y, Ptr):
        y = ex.pint(y)
    r = ex.binop(op[1:], IntTy(w), x, y)
    if is_c(x) and is_c(y):
        sx = x - (1 << w) if sg and x >> (w - 1) else x
        sy = y - (1 << w) if sg and y >> (w - 1) else y
        t = {'add': sx + sy, 'sub': sx - sy, 'mul': sx * sy}[op[1:]]
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, mask(w))
        return ret(st, Agg([r, not lo <= t <= hi]))
    X, Y = bv(x, w), bv(y, w)
    if op[1:] == 'mul':
        if sg:
            ov = z3.Not(z3.And(z3.BVMulNoOverflow(X, Y, True), z3.BVMulNoUnderflow(X, Y)))
        else:
            ov = z3.Not(z3.BVMulNoOverflow(X, Y, False))
    else:
        e = z3.SignExt if sg else z3.ZeroExt
        f = e(1, X) + e(1, Y) if op[1:] == 'add' else e(1, X) - e(1, Y)
        if sg:
            ov = z3.Extract(w, w, f) != z3.Extract(w - 1, w - 1, f)
        else:
            ov = z3.Extract(w, w, f) == 1
    return ret(st, Agg([r, simp_b(ov)]))


@pattern(r'llvm\.[us](add|sub)\.sat\..*')
def _(ex, st, a, i, n):
    w = i.ty.w
    op = n.split('.')[1]
    sg = op[0] == 's'
    X, Y = bv(a[0], w), bv(a[1], w)
    e = z3.SignExt if sg else z3.ZeroExt
    f = e(2, X) + e(2, Y) if op[1:] == 'add' else e(2, X) - e(2, Y)
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, mask(w))
    r = z3.If(f > hi, z3.BitVecVal(hi, w), z3.If(f < lo, z3.BitVecVal(lo, w), z3.Extract(w - 1, 0, f)))
    return ret(st, simp(r))


# ------------------------------------------------------------- floating point
def vmap(fn):
    def g(ex, st, a, i, n):
        if isinstance(a[0], Vec):
            t = i.ty.e
            return ret(st, Vec([fn(ex, st, xs, t, n) for xs in zip(*a)]))
        return ret(st, fn(ex, st, a, i.ty, n))
    return g


def f_abs(ex, st, a, t, n):
    v = a[0]
    w = v.w
    if v._b is not None and (v._f is None or type(v._b) is int):
        m = mask(w) >> 1
        return FV(w, b=(v._b & m) if is_c(v._b) else v._b & z3.BitVecVal(m, w))
    return FV(w, f=z3.fpAbs(v.f()))


def f_uf1(name):
    def fn(ex, st, a, t, n):
        ex.trusted.add('%s is an uninterpreted function of its argument' % name)
        v = a[0]
        if ex.o['fp'] == 'uf':
            f = z3.Function('uf_%s%d' % (name, v.w), z3.BitVecSort(v.w), z3.BitVecSort(v.w))
            return FV(v.w, b=f(bv(ex.bits(v), v.w)))
        f = z3.Function('uf_%s%d' % (name, v.w), fsort(v.w), fsort(v.w))
        return FV(v.w, f=f(v.f()))
    return fn


def f_rnd(name, rm):
    u = f_uf1(name)
    def fn(ex, st, a, t, n):
        if ex.o['fp'] == 'uf':
            v = a[0]
            f = z3.Function('uf_%s%d' % (name, v.w), z3.BitVecSort(v.w), z3.BitVecSort(v.w))
            return FV(v.w, b=f(bv(ex.bits(v), v.w)))
        return FV(a[0].w, f=z3.fpRoundToIntegral(rm(), a[0].f()))
    return fn


def f_sqrt(ex, st, a, t, n):
    v = a[0]
    if ex.o['fp'] == 'uf':
        f = z3.Function('uf_sqrt%d' % v.w, z3.BitVecSort(v.w), z3.BitVecSort(v.w))
        return FV(v.w, b=f(bv(ex.bits(v), v.w)))
    if ex.o.get('sqrt') == 'uf':
        # uninterpreted, with the sign facts the callers rely on
        f = z3.Function('uf_sqrt%d' % v.w, fsort(v.w), fsort(v.w))
        return FV(v.w, f=f(v.f()))
    return FV(v.w, f=z3.fpSqrt(RNE, v.f()))


def f_mm(k):
    def fn(ex, st, a, t, n):
        x, y = a[0].f(), a[1].f()
        r = z3.fpMin(x, y) if k == 'min' else z3.fpMax(x, y)
        return FV(a[0].w, f=r)
    return fn


def f_fma(ex, st, a, t, n):
    if 'fmuladd' in n or ex.o['fp'] == 'uf':
        return ex.fbin('fadd', a[0].w, ex.fbin('fmul', a[0].w, a[0], a[1]), a[2])
    return FV(a[0].w, f=z3.fpFMA(RNE, a[0].f(), a[1].f(), a[2].f()))


def f_copysign(ex, st, a, t, n):
    w = a[0].w
    x, y = bv(ex.bits(a[0]), w), bv(ex.bits(a[1]), w)
    hi = z3.BitVecVal(1 << (w - 1), w)
    return FV(w, b=simp((x & ~hi) | (y & hi)))


def reg(pat, fn):
    PATS.append((re.compile(pat + r'$'), vmap(fn)))


reg(r'llvm\.fabs\..*|fabsf?', f_abs)
reg(r'llvm\.floor\..*|floorf?', f_rnd('floor', z3.RTN))
reg(r'llvm\.ceil\..*|ceilf?', f_rnd('ceil', z3.RTP))
reg(r'llvm\.trunc\..*|truncf?', f_rnd('trunc', z3.RTZ))
reg(r'llvm\.round\..*|roundf?', f_rnd('round', z3.RNA))
reg(r'llvm\.(rint|nearbyint)\..*|rintf?|nearbyintf?', f_rnd('rint', z3.RNE))
reg(r'llvm\.sqrt\..*|sqrtf?', f_sqrt)
reg(r'llvm\.minnum\..*|fminf?', f_mm('min'))
reg(r'llvm\.maxnum\..*|fmaxf?', f_mm('max'))
reg(r'llvm\.(fmuladd|fma)\..*|fmaf?', f_fma)
reg(r'llvm\.copysign\..*|copysignf?', f_copysign)
for _k in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'exp2', 'log', 'log2', 'log10', 'cbrt'):
    reg(r'llvm\.%s\..*|%sf?' % (_k, _k), f_uf1(_k))


def f_uf2(name):
    def fn(ex, st, a, t, n):
        ex.trusted.add('%s is an uninterpreted function of its arguments' % name)
        w = a[0].w
        if ex.o['fp'] == 'uf':
            f = z3.Function('uf_%s%d' % (name, w), z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))
            return FV(w, b=f(bv(ex.bits(a[0]), w), bv(ex.bits(a[1]), w)))
        f = z3.Function('uf_%s%d' % (name, w), fsort(w), fsort(w), fsort(w))
        return FV(w, f=f(a[0].f(), a[1].f()))
    return fn


for _k in ('pow', 'atan2', 'fmod'):
    reg(r'llvm\.%s\..*|%sf?' % (_k, _k), f_uf2(_k))


@pattern(r'llvm\.is\.fpclass\..*')
def _(ex, st, a, i, n):
    m = a[1]
    x = a[0].f()
    c = []
    neg = z3.fpIsNegative(x)
    pos = z3.fpIsPositive(x)
    if m & 3:
        c.append(z3.fpIsNaN(x))
    for bit, t in ((2, z3.And(z3.fpIsInf(x), neg)), (3, z3.And(z3.fpIsNormal(x), neg)),
                   (4, z3.And(z3.fpIsSubnormal(x), neg)), (5, z3.And(z3.fpIsZero(x), neg)),
                   (6, z3.And(z3.fpIsZero(x), pos)), (7, z3.And(z3.fpIsSubnormal(x), pos)),
                   (8, z3.And(z3.fpIsNormal(x), pos)), (9, z3.And(z3.fpIsInf(x), pos))):
        if m >> bit & 1:
            c.append(t)
    return ret(st, simp_b(b_ors(c)))


# ------------------------------------------------------------- statics, threads
@model('__cxa_guard_acquire')
def _(ex, st, a, i, n):
    # first use in this harness run: initialise
    p = ex.toptr(a[0])
    v = ex.load(st, p, IntTy(8))
    e = ex.icmp('eq', IntTy(8), v, 0)
    return ret(st, ex.ite(e, 1, 0, IntTy(32)))


@model('__cxa_guard_release')
def _(ex, st, a, i, n):
    ex.store(st, a[0], 1, IntTy(8))
    return ret(st)


@model('__cxa_atexit')
def _(ex, st, a, i, n):
    return ret(st, 0)


@model('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_rwlock_wrlock', 'pthread_rwlock_unlock',
       'pthread_rwlock_rdlock', trust='locks: single threaded execution')
def _(ex, st, a, i, n):
    return ret(st, 0)


@model('__libc_single_threaded')
def _(ex, st, a, i, n):
    return ret(st, 1)


# ------------------------------------------------------------- specification primitives
def cstr(ex, st, p):
    p = ex.toptr(p)
    g, o, f = p.alts[0]
    s = ex.os(st, o)
    out = []
    k = f
    while True:
        c = s.cells.get(k)
        if c is None or c[1] == 0:
            break
        out.append(chr(c[1]))
        k += 1
    return ''.join(out)


def decl_input(ex, st, name, w, kind):
    k = ex.fresh_name('in!' + name)
    nm = k[3:]
    v = z3.BitVec(k, w)
    ex.inputs[nm] = (kind, v, w)
    ex.input_order.append(nm)
    return v


@model('vf_any')
def _(ex, st, a, i, n):
    w = a[0]
    nm = cstr(ex, st, a[1])
    v = decl_input(ex, st, nm, w, 'u')
    return ret(st, v if w == 64 else z3.ZeroExt(64 - w, v))


@model('vf_bytes')
def _(ex, st, a, i, n):
    nm = ex.fresh_name('in!' + cstr(ex, st, a[0]))[3:]
    sz = a[1]
    if not is_c(sz):
        sz = simp(sz)
    o = ex.new_obj(nm, sz, 'heap')
    o.inname = nm
    from sym import OS
    s = OS()
    if not is_c(sz) or sz > 4096:
        s.arr = z3.Array('in!%s' % nm, z3.BitVecSort(64), z3.BitVecSort(8))
    st.mem[o.id] = s
    ex.inputs[nm] = ('bytes', sz, None)
    ex.input_order.append(nm)
    return ret(st, Ptr([(True, o.id, 0)]))


@model('vf_ptrs')
def _(ex, st, a, i, n):
    """an array of n pointers: element k is p, every other one q"""
    sz = a[1] * 8 if is_c(a[1]) else simp(a[1] * 8)
    o = ex.new_obj(ex.fresh_name('ptrs'), sz, 'heap')
    o.ptrs = [(a[2], ex.toptr(a[3])), ex.toptr(a[4])]
    from sym import OS
    st.mem[o.id] = OS()
    return ret(st, Ptr([(True, o.id, 0)]))


@model('vf_ptrs2')
def _(ex, st, a, i, n):
    """an array of n pointers: element k is p, element l is r, every other one q"""
    sz = a[1] * 8 if is_c(a[1]) else simp(a[1] * 8)
    o = ex.new_obj(ex.fresh_name('ptrs'), sz, 'heap')
    o.ptrs = [(a[2], ex.toptr(a[3])), (a[4], ex.toptr(a[5])), ex.toptr(a[6])]
    from sym import OS
    st.mem[o.id] = OS()
    return ret(st, Ptr([(True, o.id, 0)]))


@model('vf_require')
def _(ex, st, a, i, n):
    c = a[0]
    if c is False:
        st.assume(z3.BoolVal(False))
        return None, None, []
    st.assume(c)
    ex.requires = getattr(ex, 'requires', 0) + 1
    return ret(st)


@model('vf_ensure')
def _(ex, st, a, i, n):
    nm = cstr(ex, st, a[1])
    if ex.loopctx and ex.loops.muted(ex, st):
        return ret(st)
    ex.ensures = getattr(ex, 'ensures', 0) + 1
    c = a[0]
    if c is True:
        # decided by evaluation: recorded as a discharged obligation
        ex.evaluated = getattr(ex, 'evaluated', 0) + 1
        ex.ens_names = getattr(ex, 'ens_names', set())
        ex.ens_names.add(nm)
        return ret(st)
    from sym import Oblig
    ex.obligs.append(Oblig(nm, st.path, c, 'ensures', ex.where()))
    return ret(st)


@model('vf_lemma')
def _(ex, st, a, i, n):
    # a fact that holds whatever the path: proved on its own, then available
    c = a[0]
    if c is True:
        return ret(st)
    if not (ex.loopctx and ex.loops.muted(ex, st)):
        from sym import Oblig, ROOT
        ex.obligs.append(Oblig('lemma: ' + cstr(ex, st, a[1]), ROOT, c, 'lemma', ex.where()))
    st.assume(c)
    return ret(st)


@model('vf_step')
def _(ex, st, a, i, n):
    # an intermediate fact: proved where it stands, then available
    c = a[0]
    if c is True:
        return ret(st)
    if not (ex.loopctx and ex.loops.muted(ex, st)):
        from sym import Oblig
        ex.obligs.append(Oblig('step: ' + cstr(ex, st, a[1]), st.path, c, 'step', ex.where()))
    st.assume(c)
    return ret(st)


@model('vf_cover')
def _(ex, st, a, i, n):
    ex.covers.append((cstr(ex, st, a[0]), st.path))
    return ret(st)


@model('vf_observe')
def _(ex, st, a, i, n):
    ex.observes.append((cstr(ex, st, a[0]), st.path, a[1]))
    return ret(st)


@model('vf_allow_exit')
def _(ex, st, a, i, n):
    st.ghost['allow_exit'] = a[0]
    return ret(st)


@model('vf_obj_size')
def _(ex, st, a, i, n):
    p = ex.toptr(a[0])
    r = None
    for g, o, f in reversed(p.alts):
        s = ex.objs[o].size
        r = s if r is None else ex.ite(zb(g), s, r, IntTy(64))
    return ret(st, r)


@model('vf_live')
def _(ex, st, a, i, n):
    p = ex.toptr(a[0])
    r = False
    for g, o, f in p.alts:
        r = b_or(r, b_and(g, ex.os(st, o).alive if o else False))
    return ret(st, r)


@model('vf_i')
def _(ex, st, a, i, n):
    return ret(st, a[0])


@model('vf_inv')
def _(ex, st, a, i, n):
    return ex.loops.vf_inv(ex, st, a, i, n)


@model('vf_cut')
def _(ex, st, a, i, n):
    return ex.loops.vf_cut(ex, st, a, i, n)
