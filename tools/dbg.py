#!/opt/veriftools/pyvenv/bin/python3
"""dbg.py PROP CONTRACT SECS: run one contract in-process, dumping the Python stack after SECS; prints obligations."""
import sys, os, time, threading, faulthandler
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
sys.argv_ = sys.argv[1:]
import check, build
prop, name, secs = sys.argv[1], sys.argv[2], float(sys.argv[3]) if len(sys.argv) > 3 else 60
for u in check.load_units():
    for c in u['contracts']:
        if c.name == name:
            w = '/tmp/dbg'
            os.makedirs(w, exist_ok=True)
            bc = w + '/x.bc'
            build.compile_bc(u['file'], bc, u['flags'])
            ll, f = build.extract(bc, ['vfc_' + c.name], w, list(u['noinline']) + str(c.o.get('noinline', '')).split(), str(c.o.get('replace', '')).split())
            for a in sys.argv[4:]:
                k, v = a.split('=')
                c.o[k] = int(v) if v.isdigit() else v
            out = []
            def go():
                out.append(check.run_once(c, ll, time.time()))
            threading.stack_size(512 << 20)
            faulthandler.dump_traceback_later(secs, exit=True)
            t = threading.Thread(target=go)
            t.start(); t.join()
            r = out[0]
            print(r['status'], r['msg'], 'exec', r.get('exec'))
            for o in r['obligs']:
                print(o['status'], o['backend'], o['secs'], o['kind'], o['name'], o['where'])
            os._exit(0)
