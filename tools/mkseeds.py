#!/usr/bin/env python3
"""mkseeds.py [ID...]: (re)write seeded/<ID>/ from tools/seeds_*.py: patch.diff made against /repo's HEAD, demo.sh, demo.cc, meta.json."""
import os, sys, json, subprocess, glob, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []
LIBS = '_build/common/libcommon.a -lfmt -ltbb -ltbbmalloc'
SH = '''#!/bin/bash
# exit 0: the behaviour is as it should be; nonzero: broken
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -O0 -g -DLINUX -DFMT_SHARED -DERICWTOOLS_VERSION='""' %s -Iinclude -I. "$H/demo.cc" %s -o "$T/demo" || exit 0
cd "$T" && %s ./demo
'''


def seed(id, prop, edits, demo, needs, breaks, libs=LIBS, flags='', env='timeout 120'):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, libs=libs, flags=flags, env=env))


def main():
    for f in sorted(glob.glob(os.path.join(V, 'tools', 'seeds_*.py'))):
        exec(open(f).read(), globals())
    w = tempfile.mkdtemp(prefix='mkseed')
    subprocess.check_call('git -C /repo archive HEAD | tar x -C ' + w, shell=True)
    subprocess.check_call('cd %s && git init -q . && git add -A && git -c user.email=a@b -c user.name=x commit -qm x' % w, shell=True)
    for s in SEEDS:
        if sys.argv[1:] and s['id'] not in sys.argv[1:]:
            continue
        d = os.path.join(V, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        for fn, old, new in s['edits']:
            p = os.path.join(w, fn)
            t = open(p, newline='').read()
            if '\r\n' in t:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            assert t.count(old) == 1, (s['id'], fn, t.count(old))
            open(p, 'w', newline='').write(t.replace(old, new))
        diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True).stdout
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        subprocess.check_call(['git', '-C', w, 'checkout', '-q', '--', '.'])
        open(os.path.join(d, 'demo.cc'), 'w').write(s['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write(SH % (s['flags'], s['libs'].replace('_build', '"$PWD"/_build'), s['env']))
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print(s['id'])
    shutil.rmtree(w)


main()
