#!/opt/veriftools/pyvenv/bin/python3
"""dbg3.py CONTRACT SECS [pattern]: run one contract, try every obligation for SECS (8 in parallel); with a pattern print the models of the matching ones that fail."""
import sys, os, time, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
sys.setrecursionlimit(200000); threading.stack_size(512 << 20)
import check, build, irparse, sym, solve, z3
from sym import State, ROOT
name, secs = sys.argv[1], float(sys.argv[2])
pat = sys.argv[3] if len(sys.argv) > 3 and '=' not in sys.argv[3] else None
extra = [a for a in sys.argv[3:] if '=' in a]
def go():
    for u in check.load_units():
        for c in u['contracts']:
            if c.name == name:
                w = '/tmp/dbg.%d' % os.getpid(); os.makedirs(w, exist_ok=True)
                bc = w + '/x.bc'; build.compile_bc(u['file'], bc, u['flags'])
                ll, f = build.extract(bc, ['vfc_' + c.name], w, list(u['noinline']) + str(c.o.get('noinline', '')).split(), str(c.o.get('replace', '')).split())
                for a in extra:
                    k, v = a.split('='); c.o[k] = int(v) if v.isdigit() else v
                t0 = time.time()
                ex = sym.Executor(irparse.Module(open(ll).read()), dict(c.o)); ex.deadline = time.time() + 600
                st = State(ROOT, {})
                if c.o.get('allow_exit'): st.ghost['allow_exit'] = True
                try:
                    r, v, th = ex.call('vfc_' + c.name, [], st)
                except Exception as e:
                    print(type(e).__name__, str(e)[:2000], 'at', ex.where()); return
                for s in th:
                    ex.oblige('no exception escapes (%s)' % ','.join(x[1] for x in (s.exc[1] if s.exc else [])), False, 'throw', s)
                print('exec %.1f' % (time.time() - t0), len(ex.obligs), 'obligations', 'normal end' if r else 'NO NORMAL END', sorted(ex.notes)[:5], sorted(ex.trusted)[:8], sorted(ex.bounded))
                obs = ex.obligs
                W = 8; ps = []
                for k in range(W):
                    p = os.fork()
                    if p == 0:
                        for i in range(k, len(obs), W):
                            ob = obs[i]
                            t1 = time.time()
                            fs = solve.formula(ex, ob)
                            q, be, dt, inp = solve.check_one(ex, ob, secs, 1)
                            if q == 'sat':
                                q2, s = solve.z3_check(solve.formula(ex, ob), secs)
                            q += '(%s)' % be if be != 'z3' else ''
                            if not q.startswith('unsat') or time.time() - t1 > 5:
                                t = '%3d %s %.1f %s %s @ %s\n' % (i, q, time.time() - t1, ob.kind, ob.name, ob.where[-200:])
                                if q == 'sat' and pat and (pat in ob.name or pat == str(i)):
                                    m = s.model()
                                    t += 'COND %s\n' % str(ob.cond)[:3000]
                                    for x in ob.path.all()[-16:]: t += "  PATH %s\n" % str(x)[:2500]
                                    for d in m.decls():
                                        if z3.is_bv_value(m[d]): t += '   %s = %s\n' % (d.name(), m[d])
                                os.write(1, t.encode())
                        os._exit(0)
                    ps.append(p)
                for p in ps: os.waitpid(p, 0)
                for lab, q, i in solve.check_covers(ex, 10): print('cover', lab, q)
                os.system('rm -r ' + w)
t = threading.Thread(target=go); t.start(); t.join()
