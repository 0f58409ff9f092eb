#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY: decide one property by discharging the contracts in harness/ against /repo's current source."""
import sys
import os
import re
import json
import time
import pickle
import subprocess
import traceback
import hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512 << 20)
import build
from build import VERIF, REPO

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
ASSUME_COMMON = [
    'clang 18 front end and the listed LLVM mid-level passes preserve the meaning of the C++ source (the verified '
    'text is the IR of the real functions, compiled from /repo on this run; -O1 front end, -fno-strict-aliasing, '
    '-ffp-contract=off, NDEBUG as in the shipped build)',
    'allocation never fails; distinct objects do not overlap; pointers to distinct objects are never compared for '
    'order in a way the result depends on',
    'the verifier itself (/verif/engine), z3 and cvc5',
]


# ------------------------------------------------------------------ registry
class Contract:
    pass


def parse_opts(s):
    """name, k=v, k="text", flag"""
    out = {}
    for m in re.finditer(r'(\w+)(?:\s*=\s*("(?:[^"\\]|\\.)*"|[^,\s)]+))?', s):
        v = m.group(2)
        if v is None:
            v = True
        elif v[0] == '"':
            v = v[1:-1]
        elif re.fullmatch(r'-?\d+', v):
            v = int(v)
        elif re.fullmatch(r'\d+\.\d+', v):
            v = float(v)
        out[m.group(1)] = v
    return out


def load_units():
    units = []
    d = os.path.join(VERIF, 'harness')
    for fn in sorted(os.listdir(d)):
        if not fn.endswith('.cc') or fn == 'vf_native.cc':
            continue
        txt = open(os.path.join(d, fn)).read()
        u = dict(file=os.path.join(d, fn), name=fn, flags=[], contracts=[], defaults={}, noinline=[])
        for m in re.finditer(r'(?m)^//@ flags (.*)$', txt):
            u['flags'] += m.group(1).split()
        for m in re.finditer(r'(?m)^//@ noinline (.*)$', txt):
            u['noinline'] += m.group(1).split()
        for m in re.finditer(r'(?m)^//@ defaults (.*)$', txt):
            u['defaults'].update(parse_opts(m.group(1)))
        pos = 0
        pend = None
        for m in re.finditer(r'(?m)^//@ (contract|claim) (.*)$|^CONTRACT\((\w+)\)', txt):
            if m.group(1) == 'contract':
                pend = parse_opts(m.group(2))
            elif m.group(3):
                o = dict(u['defaults'])
                o.update(pend or {})
                pend = None
                c = Contract()
                c.name = m.group(3)
                c.o = o
                c.prop = str(o.get('prop', '')).split('+')
                c.unit = u
                u['contracts'].append(c)
        units.append(u)
    return units


# ------------------------------------------------------------------ one contract (in a worker process)
def run_contract(c, ll, q, tlimit):
    t0 = time.time()
    c = attempt(c)
    first = run_once(c, ll, t0)
    q.append(first)
    if 'unroll' in c.o and c.o.get('loops') != 'off' and first['status'] in ('unsupported', 'failed', 'undecided'):
        # the same contract with the loops unrolled to the declared bound: finds concrete inputs, or stands in
        c2 = attempt(c)
        c2.o['loops'] = 'off'
        c2.o['exec_time'] = min(c2.o.get('exec_time', 100), 100)
        second = run_once(c2, ll, time.time())
        if first['status'] == 'unsupported':
            if second['status'] == 'bounded':
                second['msg'] = 'loop contract not applicable (%s); unrolled' % first['msg'][:200]
            if second['status'] in ('bounded', 'failed'):
                q[-1] = second
        elif second['status'] == 'failed':
            first['obligs'] = [x for x in second['obligs'] if x['status'] == 'sat'] + first['obligs']


def attempt(c):
    n = Contract()
    n.__dict__.update(c.__dict__)
    n.o = dict(c.o)
    return n


def run_once(c, ll, t0):
    import irparse
    import sym
    import solve
    from sym import State, ROOT
    from vals import Unsupported
    res = dict(name=c.name, status='error', obligs=[], msg='')
    try:
        m = irparse.Module(open(ll).read())
        o = dict(c.o)
        ex = sym.Executor(m, {k: v for k, v in o.items()})
        ex.deadline = t0 + o.get('exec_time', 240 if TIER == 'quick' else 900)
        st = State(ROOT, {})
        if o.get('allow_exit'):
            st.ghost['allow_exit'] = True
        r, v, th = ex.call('vfc_' + c.name, [], st)
        for s in th:
            t = ','.join(x[1] for x in (s.exc[1] if s.exc else []))
            ex.oblige('no exception escapes (%s)' % t, False, 'throw', s)
        res['exec'] = time.time() - t0
        tmo = o.get('timeout', 100 if TIER == 'quick' else 300)
        rs = solve.discharge(ex, timeout=tmo, workers=int(o.get('par', 2)), seed=SEED)
        obl = []
        for ob, x in zip(ex.obligs, rs):
            obl.append(dict(name=ob.name, kind=ob.kind, where=ob.where[-160:], status=x[0], backend=x[1],
                            secs=round(x[2], 4), inputs=x[3]))
        res['obligs'] = obl
        res['evaluated'] = getattr(ex, 'evaluated', 0)
        res['trivial'] = getattr(ex, 'trivial', 0)
        res['ensures'] = getattr(ex, 'ensures', 0)
        res['trusted'] = sorted(ex.trusted)
        res['notes'] = sorted(ex.notes)
        res['bounded'] = sorted(ex.bounded)
        res['loops_cut'] = list(ex.loops_cut)
        res['solver'] = sum(x[2] for x in rs)
        # vacuity: some normal end of the contract must be reachable
        cov = solve.check_covers(ex, 30)
        res['covers'] = [(a, b) for a, b, _ in cov]
        vac = [a for a, b, _ in cov if b == 'unsat']
        live = None
        if r is not None:
            s0, _ = solve.z3_check(list(ex.assumps) + r.path.all(), 60)
            live = s0
        res['end_reachable'] = live
        if any(x['status'] == 'sat' for x in obl):
            res['status'] = 'failed'
        elif any(x['status'] != 'unsat' for x in obl):
            res['status'] = 'undecided'
        elif vac or live == 'unsat' or (r is None and not getattr(ex, 'exits', None)):
            res['status'] = 'vacuous'
            res['msg'] = 'unreachable cover points: %s; end of contract %s' % (vac, live)
        elif not obl and not res['evaluated']:
            res['status'] = 'vacuous'
            res['msg'] = 'no obligation was generated'
        else:
            res['status'] = 'bounded' if (ex.bounded or o.get('bounded')) else 'proved'
    except Unsupported as e:
        res['status'] = 'unsupported'
        res['msg'] = str(e)[:600]
    except RecursionError:
        res['status'] = 'unsupported'
        res['msg'] = 'recursion limit'
    except MemoryError:
        res['status'] = 'unsupported'
        res['msg'] = 'memory'
    except Exception:
        res['status'] = 'error'
        res['msg'] = traceback.format_exc()[-3000:]
    res['wall'] = time.time() - t0
    return res


def worker(c, ll, path, tlimit):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
    out = []
    t = threading.Thread(target=run_contract, args=(c, ll, out, tlimit))
    t.start()
    t.join()
    with open(path, 'wb') as f:
        pickle.dump(out[0], f)


def run_pool(jobs, work, nproc, tlimit):
    """jobs: [(contract, ll)] -> results in order"""
    import signal
    res = {}
    running = {}
    todo = list(enumerate(jobs))
    todo.sort(key=lambda x: -x[1][0].o.get('cost', 1))
    t0 = time.time()
    end = t0 + tlimit  # for all of them
    while todo or running:
        while todo and len(running) < nproc:
            k, (c, ll) = todo.pop(0)
            path = os.path.join(work, 'r%d.pkl' % k)
            pid = os.fork()
            if pid == 0:
                os.setpgid(0, 0)
                try:
                    worker(c, ll, path, tlimit)
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(0)
            running[pid] = (k, path, time.time())
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid in running:
            k, path, ts = running.pop(pid)
            try:
                res[k] = pickle.load(open(path, 'rb'))
            except Exception:
                res[k] = dict(name=jobs[k][0].name, status='error', msg='worker died', obligs=[], wall=time.time() - ts)
            if any(x['status'] == 'sat' for x in res[k]['obligs']):
                end = min(end, time.time() + (150 if TIER == 'quick' else 900))  # there is something to report
            continue
        now = time.time()
        for p, (k, path, ts) in list(running.items()):
            lim = jobs[k][0].o.get('limit', tlimit)
            if now - ts > lim or now > end:
                try:
                    os.killpg(p, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(p, 0)
                del running[p]
                res[k] = dict(name=jobs[k][0].name, status='undecided', msg='time limit', obligs=[], wall=now - ts)
        time.sleep(0.01)
    return [res[k] for k in range(len(jobs))]


# ------------------------------------------------------------------ replay / search on the real code
def write_tape(path, inputs, header):
    with open(path, 'w') as f:
        for l in header:
            f.write('# ' + l.replace('\n', '\n# ') + '\n')
        for k, v in (inputs or {}).items():
            k = k.replace(' ', '_')
            if v[0] == 'bytes':
                f.write('%s bytes %d %s\n' % (k, v[1], v[2]))
            else:
                f.write('%s u %d %d\n' % (k, v[1], v[2]))


def native_bin(unit, work, cache):
    if unit['name'] not in cache:
        out = os.path.join(work, unit['name'] + '.native')
        try:
            build.native(unit['file'], out, unit['flags'])
            cache[unit['name']] = out
        except Exception as e:
            cache[unit['name']] = None
            print('note: native build of %s failed: %s' % (unit['name'], str(e)[-600:]))
    return cache[unit['name']]


def nat_replay(b, c, tape):
    try:
        r = subprocess.run([b, c.name, 'replay', tape], capture_output=True, timeout=90)
    except subprocess.TimeoutExpired:
        return 'fail', 'the real code does not terminate within 90 s'
    o = r.stdout.decode('latin1') + r.stderr.decode('latin1')
    if 'pc points to the zero page' in o:
        return 'unknown', o
    if r.returncode == 0:
        return 'pass', o
    if r.returncode == 4:
        return 'outside', o
    if r.returncode == 3 or r.returncode == 77 or r.returncode < 0 or 'Sanitizer' in o or 'runtime error' in o:
        return 'fail', o
    return 'unknown', o


def nat_search(b, c, secs, tape, base=None):
    cmd = [b, c.name, 'search', str(secs), str(SEED), tape] + ([base] if base else [])
    try:
        r = subprocess.run(cmd, capture_output=True, timeout=secs + 60)
    except subprocess.TimeoutExpired:
        return 'unknown', 'timeout'
    o = r.stdout.decode('latin1')
    return ('fail' if r.returncode == 3 else 'none'), o


def main():
    prop = sys.argv[1]
    only = sys.argv[2:]
    t0 = time.time()
    units = load_units()
    sel = [(u, [c for c in u['contracts'] if prop in c.prop and (not only or c.name in only) and
                (TIER == 'thorough' or c.o.get('tier') != 'thorough')]) for u in units]
    sel = [(u, cs) for u, cs in sel if cs]
    if not sel:
        print('no contract for property ' + prop)
        return 2
    work = build.temp()
    try:
        return check(prop, sel, work, t0)
    finally:
        build.cleanup(work)


def check(prop, sel, work, t0):
    jobs = []
    fns = set()
    errs = []
    import concurrent.futures as cf

    def prep(u, cs):
        bc = os.path.join(work, u['name'] + '.bc')
        try:
            build.compile_bc(u['file'], bc, u['flags'])
        except Exception as e:
            return u, cs, str(e)[-3000:], None
        out = []

        def ext1(c):
            ni = list(u['noinline']) + str(c.o.get('noinline', '')).split()
            return (c,) + build.extract(bc, ['vfc_' + c.name], work, ni, str(c.o.get('replace', '')).split())
        try:
            with cf.ThreadPoolExecutor(4) as p2:
                out = list(p2.map(ext1, cs))
        except Exception as e:
            return u, cs, str(e)[-3000:], None
        return u, cs, None, out
    with cf.ThreadPoolExecutor(6) as p:
        preps = list(p.map(lambda x: prep(*x), sel))
    for u, cs, err, out in preps:
        if err:
            errs.append((u['name'], err))
            continue
        for c, ll, f in out:
            jobs.append((c, ll))
            for nm, fl, ln in f:
                if fl.startswith(REPO):
                    fns.add('%s (%s)' % (nm, os.path.relpath(fl, REPO)))
    if errs:
        for n, e in errs:
            print('ERROR: extraction of %s failed:\n%s' % (n, e))
        return 2
    tprep = time.time() - t0
    tl = 600 if TIER == 'quick' else 3000
    rs = run_pool(jobs, work, 6, tl)
    known = load_known(prop)
    violations = []
    undecided = []
    cache = {}
    budget = [150.0 if TIER == 'quick' else 600.0]
    outdir = os.path.join(VERIF, 'out')
    for (c, ll), r in zip(jobs, rs):
        line = '%-34s %-11s obligations=%d evaluated=%d safety-by-evaluation=%d exec=%.1fs solver=%.1fs wall=%.1fs' % (
            c.name, r['status'], len(r['obligs']), r.get('evaluated', 0), r.get('trivial', 0), r.get('exec', 0),
            r.get('solver', 0), r['wall'])
        print(line + ((' ' + r['msg']) if r.get('msg') else ''))
        if r['status'] in ('proved', 'bounded'):
            continue
        bad = [x for x in r['obligs'] if x['status'] == 'sat']
        und = [x for x in r['obligs'] if x['status'] not in ('sat', 'unsat')]
        for x in bad + und:
            print('   obligation not discharged [%s]: %s (%s) at %s' % (x['status'], x['name'], x['kind'], x['where']))
        os.makedirs(outdir, exist_ok=True)
        b = native_bin(c.unit, work, cache)
        hit = None
        ran = None
        tape = os.path.join(outdir, '%s_%s.replay' % (prop, c.name))
        names = '; '.join(sorted(set(x['name'] for x in bad)) or sorted(set(x['name'] for x in und))) or r['status']
        if b:
            for x in bad:
                if x.get('inputs') is None:
                    continue
                write_tape(tape, x['inputs'], ['property %s contract %s (%s)' % (prop, c.name, c.unit['name']),
                                               'failed obligation: %s [%s] at %s' % (x['name'], x['kind'], x['where'])])
                v, o = nat_replay(b, c, tape)
                if v == 'fail':
                    hit = (x['name'], 'verifier counterexample replayed on the real code: ' + o[:1500])
                    break
            if hit is None and budget[0] > 0 and not any(not v[3] for v in violations):
                secs = float(c.o.get('search', 12 if TIER == 'quick' else 60))
                if not bad and r['status'] in ('error', 'vacuous'):
                    secs = min(secs, 4)
                ts = time.time()
                base = tape if any(x.get('inputs') for x in bad) and os.path.exists(tape) else None
                v, o = nat_search(b, c, secs, tape + '.s', None)
                ran = o
                if v != 'fail' and base:
                    v, o = nat_search(b, c, secs / 2, tape + '.s', base)
                if v == 'fail':
                    # confirm
                    v2, o2 = nat_replay(b, c, tape + '.s') if os.path.exists(tape + '.s') else ('fail', o)
                    if v2 == 'fail':
                        hit = (names, 'failing input found on the real code: ' + o[:1500])
                        txt = open(tape + '.s').read() if os.path.exists(tape + '.s') else ''
                        open(tape, 'w').write('# property %s contract %s (%s)\n# failed obligations: %s\n%s' % (
                            prop, c.name, c.unit['name'], names, txt))
                if os.path.exists(tape + '.s'):
                    os.unlink(tape + '.s')
                budget[0] -= time.time() - ts
        if hit:
            with open(tape, 'a') as f:
                f.write('# ' + hit[1].replace('\n', '\n# ') + '\n')
            violations.append((c, hit[0], tape, ''))
        elif bad:
            with open(tape, 'w') as f:
                f.write('# property %s contract %s\n' % (prop, c.name))
                for x in bad:
                    f.write('# failed obligation: %s [%s] at %s backend=%s\n# model: %s\n' % (
                        x['name'], x['kind'], x['where'], x['backend'], json.dumps(x.get('inputs'))))
            violations.append((c, names, tape, ' no-failing-input-found'))
        elif r['status'] == 'unsupported' and b and not re.search('exceeds|budget exhausted', r.get('msg', '')):
            # a construct outside the verifier's subset: the same contract, executed on the real code with random
            # inputs, stands in for the proof (bounded; not counted as proved)
            if not ran:
                ran = 'search budget used up'
            r['status'] = 'standin'
            r['bounded'] = ['executed on random inputs instead of proved (%s): %s' % (r['msg'][:200], ran.strip()[-200:])]
            print('   NOTE: %s is outside the verifier\'s subset (%s); bounded stand-in by execution: %s' % (
                c.name, r['msg'][:200], ran.strip()[-200:]))
        elif r['status'] in ('vacuous', 'error'):
            undecided.append((c, r))
        else:
            # the verifier did not accept the obligations generated from this source: the proof is gone
            names = names + ((' (' + r['msg'].strip().split('\n')[-1][:300] + ')') if r.get('msg') else '')
            with open(tape, 'w') as f:
                f.write('# property %s contract %s\n# not accepted by the verifier: %s\n' % (prop, c.name, names))
                for x in und:
                    f.write('# undischarged obligation: %s [%s] at %s\n' % (x['name'], x['kind'], x['where']))
                f.write('# verifier output: %s\n' % line)
            violations.append((c, names, tape, ' no-failing-input-found'))
    new = []
    known_hit = []
    for c, nm, tape, suf in violations:
        k = [x for x in known if x['contract'] == c.name and x['obligation'] in nm]
        if k:
            known_hit.append((k[0], c))
        else:
            new.append((c, nm, tape, suf))
    for k, c in known_hit:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    write_evidence(prop, jobs, rs, fns, violations, t0)
    for c, nm, tape, suf in new:
        print('failed obligation in %s: %s' % (c.name, nm))
    for c, nm, tape, suf in sorted(new, key=lambda x: x[3])[:1]:
        print('VIOLATION property=%s replay=%s%s' % (prop, tape, suf))
    if new:
        return 1
    if undecided:
        for c, r in undecided:
            print('ERROR: contract %s not decided: %s %s' % (c.name, r['status'], r.get('msg', '')))
        return 2
    print('property %s: all obligations discharged (%.1fs)' % (prop, time.time() - t0))
    return 0


def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [x for x in json.load(open(p)).get('findings', []) if x['property'] == prop]


def write_evidence(prop, jobs, rs, fns, violations, t0):
    ob = sum(len(r['obligs']) + r.get('evaluated', 0) for r in rs)
    unb = [r for r in rs if r['status'] == 'proved']
    dis = sum(sum(1 for x in r['obligs'] if x['status'] == 'unsat') + r.get('evaluated', 0) for r in rs)
    bounded = [(c, r) for (c, l), r in zip(jobs, rs) if r['status'] in ('bounded', 'standin')]
    be = {}
    for r in rs:
        for x in r['obligs']:
            if x['status'] == 'unsat':
                be[x['backend']] = be.get(x['backend'], 0) + 1
        if r.get('evaluated'):
            be['evaluation'] = be.get('evaluation', 0) + r['evaluated']
    trusted = sorted(set(t for r in rs for t in r.get('trusted', [])))
    lvl = 'proof'
    man = os.path.join(VERIF, 'MANIFEST.json')
    try:
        for ch in json.load(open(man))['checks']:
            if ch['property'] == prop:
                lvl = ch['level']
    except Exception:
        pass
    ev = dict(property=prop, tier=TIER, seed=SEED, level=lvl,
              coverage=dict(obligations=ob, discharged=dis,
                            obligations_in_unbounded_contracts=sum(len(r['obligs']) + r.get('evaluated', 0) for r in unb),
                            safety_conditions_true_by_evaluation=sum(r.get('trivial', 0) for r in rs),
                            by_backend=be, solver_seconds=round(sum(r.get('solver', 0) for r in rs), 2),
                            checker_cmd='python3-vt /verif/engine/check.py ' + prop,
                            trusted_base=['clang 18 + LLVM passes', '/verif/engine', 'z3', 'cvc5'] + trusted,
                            functions_under_contract=sorted(fns), functions_count=len(fns),
                            contracts=[dict(name=c.name, file='harness/' + c.unit['name'], status=r['status'],
                                            obligations=len(r['obligs']) + r.get('evaluated', 0),
                                            bound=c.o.get('bounded') or r.get('bounded') or None,
                                            loop_contracts=r.get('loops_cut') or None,
                                            covers=r.get('covers'), end_reachable=r.get('end_reachable'),
                                            wall_s=round(r['wall'], 2)) for (c, l), r in zip(jobs, rs)],
                            bounded=[dict(contract=c.name, bound=c.o.get('bounded') or r.get('bounded'))
                                     for c, r in bounded],
                            explanation='contract-based deductive verification of the functions listed, extracted '
                                        'mechanically from /repo on this run; contracts labelled bounded are not '
                                        'counted as proved'),
              assumptions=ASSUME_COMMON + trusted + sorted(set(n for r in rs for n in r.get('notes', []))) +
              sorted(set('assumed: ' + str(c.o['assume']) for c, l in jobs if c.o.get('assume'))),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    rc = 2
    try:
        rc = main()
    except SystemExit as e:
        rc = e.code
    except BaseException:
        traceback.print_exc()
    sys.stdout.flush()
    os._exit(rc if isinstance(rc, int) else 2)
