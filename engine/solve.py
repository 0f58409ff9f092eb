"""Discharging obligations: z3 (library) first, cvc5 on the same SMT-LIB text when z3 gives up."""
import os
import pickle
import re
import select
import subprocess
import tempfile
import time
import z3
from vals import *


def formula(ex, ob):
    fs = list(ex.assumps) + ob.path.all()
    fs.append(z3.Not(zb(ob.cond)))
    return fs


def relevant(fs, goal_fs):
    return fs


def z3_check(fs, timeout, seed=0, tactic=None):
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver() if isinstance(tactic, str) else tactic.solver()
    s.set('timeout', int(timeout * 1000))
    if tactic is None:
        s.set('random_seed', seed)
    for f in fs:
        s.add(f)
    r = s.check()
    return ('unsat' if r == z3.unsat else 'sat' if r == z3.sat else 'unknown'), s


def model_inputs(ex, m):
    out = {}
    for nm in ex.input_order:
        kind, v, w = ex.inputs[nm]
        if kind == 'bytes':
            sz = v
            n = sz if is_c(sz) else m.eval(sz, model_completion=True).as_long()
            if n > 1 << 16:
                out[nm] = ['bytes', n, '']
                continue
            arr = z3.Array('in!%s' % nm, z3.BitVecSort(64), z3.BitVecSort(8))
            bs = bytearray()
            usearr = nm in getattr(ex, 'arr_inputs', ()) or not is_c(sz) or sz > 4096
            for i in range(n):
                x = m.eval(z3.BitVec('in!%s!%d' % (nm, i), 8), model_completion=not usearr)
                if not z3.is_bv_value(x):
                    x = m.eval(z3.Select(arr, z3.BitVecVal(i, 64)), model_completion=True)
                bs.append(x.as_long())
            out[nm] = ['bytes', n, bs.hex()]
        else:
            out[nm] = ['u', w, m.eval(v, model_completion=True).as_long()]
    return out


def cvc5_check(fs, timeout):
    s = z3.Solver()
    for f in fs:
        s.add(f)
    txt = s.to_smt2()
    if 'lambda' in txt:
        return 'unknown'
    txt = '(set-logic ALL)\n' + txt.replace('(set-logic', ';(set-logic')
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), f.name], capture_output=True, text=True,
                           timeout=timeout + 10)
        o = r.stdout.split()
        return o[0] if o and o[0] in ('sat', 'unsat') else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(f.name)


def abstract_products(fs, consts=False):
    """The formulas with products of two variables replaced by fresh values (weaker: when these are unsatisfiable, so are
    the given ones), or None when there is no such product."""
    subst, seen = [], set()
    work = list(fs)
    mul = (z3.Z3_OP_BMUL,)
    ovf = (z3.Z3_OP_BSMUL_NO_OVFL, z3.Z3_OP_BUMUL_NO_OVFL, z3.Z3_OP_BSMUL_NO_UDFL)
    while work:
        t = work.pop()
        if not z3.is_app(t) or t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if t.decl().kind() in mul + ovf and (sum(not z3.is_bv_value(c) for c in t.children()) > 1 or consts and not pow2(t)):
            subst.append(t)
        work.extend(t.children())
    if not subst or any(z3.is_quantifier(f) for f in fs):
        return None
    pairs = [(t, z3.FreshConst(t.sort(), 'product')) for t in subst]
    return [z3.substitute(f, *pairs) for f in fs]


def pow2(t):
    """a product with plus or minus a power of two"""
    for c in t.children():
        if z3.is_bv_value(c):
            v, w = c.as_long(), c.size()
            return v & (v - 1) == 0 or ((1 << w) - v) & ((1 << w) - v - 1) == 0
    return False


def portfolio(jobs, timeout):
    """Run (name, command, formulas, sat is definite) side by side; the first definite answer wins: (status, name).
    Jobs with a fifth entry start that many seconds later."""
    procs = []
    late = [j for j in jobs if len(j) > 4]
    jobs = [j for j in jobs if len(j) == 4]

    def start(jobs):
        for name, cmd, fs, definite in jobs:
            s = z3.Solver()
            for f in fs:
                s.add(f)
            txt = '(set-logic ALL)\n' + s.to_smt2().replace('(set-logic', ';(set-logic')
            txt = re.sub(r'\(bv([us]div|[us]rem|smod)_i ', r'(bv\1 ', txt)  # (z3's own names)
            if name == 'cvc5' and ('lambda' in txt or '_noovfl' in txt or '_noudfl' in txt):
                continue
            f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
            f.write(txt)
            f.close()
            p = [name, definite, f.name, subprocess.Popen(cmd + [f.name], stdout=subprocess.PIPE,
                                                          stderr=subprocess.DEVNULL, text=True)]
            procs.append(p)
            live.append(p)

    live = []
    try:
        start(jobs)
        t0 = time.time()
        end = t0 + timeout + 5
        while (live or late) and time.time() < end:
            for j in list(late):
                if time.time() - t0 > j[4] or not live:
                    late.remove(j)
                    start([j[:4]])
            for p in list(live):
                if p[3].poll() is not None:
                    live.remove(p)
                    o = p[3].stdout.read().split()
                    if o and (o[0] == 'unsat' or o[0] == 'sat' and p[1]):
                        return o[0], p[0]
            time.sleep(0.05)
        return 'unknown', ''
    finally:
        for p in procs:
            if p[3].poll() is None:
                p[3].kill()
            p[3].wait()
            os.unlink(p[2])


def check_one(ex, ob, timeout, seed):
    t0 = time.time()
    fs = formula(ex, ob)
    st, s = z3_check(fs, min(timeout, 4), seed)
    be, first = 'z3', st != 'unknown'
    if st == 'unknown':
        fa = abstract_products(fs)
        ms = int(timeout * 1000)
        z, c = ['z3-new', '-t:%d' % ms], ['cvc5', '--tlimit=%d' % ms]
        fc = fa or abstract_products(fs, True)
        # (a fifth entry: seconds to wait for the others first)
        jobs = [('z3', z + ['smt.random_seed=%d' % seed], fs, True), ('cvc5', c, fa or fs, fa is None),
                ('z3', z + ['sat.smt=true', 'smt.bv.solver=2', 'tactic.default_tactic=smt'], fs, False, 2)]
        if fc:
            jobs.append(('z3', z, fc, False))
            jobs.append(('cvc5', c, fs if fa else fc, bool(fa), 6))
        if timeout > 10:
            jobs.append(('cvc5', c + ['--solve-bv-as-int=sum'], fs, False, 8))
        st, be = portfolio(jobs, timeout)
    inp = None
    if st == 'sat':
        if not first:  # a model for the replay
            st2, s = z3_check(fs, timeout, seed)
            if st2 != 'sat':
                return st, be, time.time() - t0, None
        try:
            inp = model_inputs(ex, small_model(ex, fs, s, seed).model())
        except Exception as e:
            inp = None
    return st, be or 'z3', time.time() - t0, inp


def small_model(ex, fs, s, seed):
    """a model with short byte strings when there is one: the replay has to hold them"""
    m = s.model()
    big = [v for kind, v, w in ex.inputs.values() if kind == 'bytes' and not is_c(v)
           and m.eval(v, model_completion=True).as_long() > 4096]
    for lim in (4096, 60000):
        if big:
            st, t = z3_check(fs + [z3.ULE(v, lim) for v in big], 6, seed)
            if st == 'sat':
                return t
    return s


def discharge(ex, timeout=60, workers=1, seed=1, stop_first=False):
    """returns list of (status, backend, secs, inputs) aligned with ex.obligs"""
    obs = ex.obligs
    n = len(obs)
    res = [None] * n
    if n == 0:
        return res
    # one shot for all the safety obligations first: usually they are all true
    safety = [i for i, o in enumerate(obs) if o.kind != 'ensures']
    if len(safety) > 3:
        base = list(ex.assumps)
        neg = z3.Or(*[z3.And(*(obs[i].path.all() + [z3.Not(zb(obs[i].cond))])) for i in safety])
        t0 = time.time()
        st, s = z3_check(base + [neg], 10, seed)
        dt = time.time() - t0
        if st == 'unsat':
            for i in safety:
                res[i] = ('unsat', 'z3', dt / len(safety), None)
    todo = [i for i in range(n) if res[i] is None]
    if workers <= 1 or len(todo) <= 1:
        for i in todo:
            res[i] = check_one(ex, obs[i], timeout, seed)
            if stop_first and res[i][0] == 'sat':
                break
        return res
    procs = []
    w = min(workers, len(todo))
    todo = todo[:12000]  # (what is left: the entries have to fit into the pipe)
    tr, tw = os.pipe()
    os.write(tw, b''.join(i.to_bytes(4, 'little') for i in todo))
    os.close(tw)
    for k in range(w):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            f = os.fdopen(wr, 'wb')
            open_ = 0
            try:
                while True:
                    i = os.read(tr, 4)
                    if len(i) < 4:
                        break
                    i = int.from_bytes(i, 'little')
                    # (once some are left open the contract is not proved: the others get less time)
                    r = check_one(ex, obs[i], timeout if open_ < 2 else min(timeout, 30 if open_ < 4 else 8), seed)
                    open_ += r[0] not in ('sat', 'unsat')
                    pickle.dump((i, r), f)
                    f.flush()
            finally:
                f.close()
                os._exit(0)
        os.close(wr)
        procs.append((pid, os.fdopen(r, 'rb')))
    os.close(tr)
    for pid, f in procs:
        while True:
            try:
                i, x = pickle.load(f)
            except EOFError:
                break
            res[i] = x
        f.close()
        os.waitpid(pid, 0)
    for i in range(n):
        if res[i] is None:
            res[i] = ('unknown', 'crash', 0.0, None)
    return res


def check_covers(ex, timeout=20):
    """every cover point must be reachable: returns list of (label, status)"""
    by = {}
    for lab, p in ex.covers:
        by.setdefault(lab, []).append(p)
    out = []
    for lab, ps in by.items():
        st, s = z3_check(list(ex.assumps) + [b_ors_([z3.And(*(p.all() + [z3.BoolVal(True)])) for p in ps])], timeout)
        inp = None
        if st == 'sat':
            try:
                inp = model_inputs(ex, s.model())
            except Exception:
                pass
        out.append((lab, st, inp))
    return out


def b_ors_(l):
    return l[0] if len(l) == 1 else z3.Or(*l)
