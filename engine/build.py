"""Mechanical extraction: harness TU (which #includes the real /repo sources) -> LLVM IR, and native builds."""
import os
import re
import subprocess
import tempfile
import shutil

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LLVM = '/usr/lib/llvm-18/bin/'
DEFS = ['-std=gnu++20', '-DERICWTOOLS_VERSION=""', '-DFMT_SHARED', '-DLINUX', '-DUSE_PTHREADS', '-DNDEBUG', '-w']
INC = ['-I' + VERIF + '/harness', '-I' + REPO + '/include', '-I' + REPO]
PIPE = ('internalize,globaldce,ipsccp,cgscc(inline,function(sroa,early-cse<memssa>,simplifycfg,'
        'instcombine<no-verify-fixpoint>,sroa,loop-simplify,lcssa,loop-mssa(licm),gvn,memcpyopt,dse,adce,simplifycfg,'
        'instcombine<no-verify-fixpoint>)),globaldce,strip-dead-prototypes,function(loop-simplify,lcssa)')


class BuildError(Exception):
    pass


def sh(cmd, timeout=600):
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    if r.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd)[:400], r.stderr[-4000:]))
    return r.stdout


def compile_bc(src, out, flags=(), spec=True):
    if spec:
        # with the annotations in the sources; sources whose annotations no longer compile are taken without them
        try:
            return compile_bc(src, out, list(flags) + ['-DVERIF_SPEC', '-include', 'vf_spec.hh', '-fno-access-control'],
                              False)
        except BuildError as e:
            compile_bc(src, out, list(flags) + ['-fno-access-control'], False)
            print('note: %s compiled without the in-source loop contracts: %s' % (os.path.basename(src), str(e)[-300:]))
            return
    sh(['clang++-18'] + DEFS + ['-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DVERIF_IR', '-O1', '-gline-tables-only', '-Xclang',
        '-disable-llvm-passes', '-ffp-contract=off', '-fno-strict-aliasing'] + INC + list(flags) +
       ['-emit-llvm', '-c', src, '-o', out])


def extract(bc, names, workdir, noinline=(), replace=()):
    """returns (path of the .ll, [(source function, file)] reachable from the contracts)"""
    pub = ','.join(names)
    tag = re.sub(r'\W', '_', '_'.join(names))[:60]
    s1 = os.path.join(workdir, tag + '.s1.ll')
    sh([LLVM + 'opt', '-passes=internalize,globaldce', '-internalize-public-api-list=' + pub, bc, '-S', '-o', s1])
    txt = open(s1).read()
    fns = functions_in(txt)
    s2 = os.path.join(workdir, tag + '.s2.ll')
    for r in replace:
        # calls of a function are answered by its contract, which the harness states under another name
        old, new = r.split(':')
        txt, k = re.subn(r'((?:call|invoke) [^\n]*?)@"?(%s\w*)"?\(' % re.escape(old), lambda m: '%s@%s(' % (m.group(1), new), txt)
        if not k:
            print('note: no call of %s is left to be answered by its contract' % old)
        open(s1, 'w').write(txt)
    if noinline:
        # attribute goes after the parameter list: put before the trailing metadata/brace
        lines = txt.split('\n')
        for k, l in enumerate(lines):
            if l.startswith('define '):
                m = re.search(r'@"?([^"(]+)"?\(', l)
                if m and any(re.search(p, m.group(1)) for p in noinline):
                    lines[k] = add_attr(l)
        txt = '\n'.join(lines)
        open(s1, 'w').write(txt)
    sh([LLVM + 'opt', '-passes=strip-dead-debug-info,' + PIPE, '-internalize-public-api-list=' + pub, s1, '-S', '-o',
        s2])
    out = os.path.join(workdir, tag + '.ll')
    dbgstrip(s2, out)
    return out, fns


def add_attr(l):
    # find the end of the parameter list
    i = l.index('(', l.index('@'))
    d = 0
    for j in range(i, len(l)):
        if l[j] == '(':
            d += 1
        elif l[j] == ')':
            d -= 1
            if d == 0:
                break
    return l[:j + 1] + ' noinline' + l[j + 1:]


def dbgstrip(s2, out):
    txt = open(s2).read()
    txt = re.sub(r', !dbg !\d+', '', txt)
    txt = re.sub(r' !dbg !\d+', '', txt)
    txt = re.sub(r'(?m)^!\d+ = (distinct )?!DI.*\n', '', txt)
    open(out, 'w').write(txt)


def functions_in(txt):
    files = {}
    for m in re.finditer(r'(?m)^!(\d+) = !DIFile\(filename: "([^"]*)"(?:, directory: "([^"]*)")?', txt):
        files[m.group(1)] = m.group(2)
    subs = {}
    for m in re.finditer(r'(?m)^!(\d+) = distinct !DISubprogram\((.*)$', txt):
        b = m.group(2)
        nm = re.search(r'name: "([^"]*)"', b)
        fl = re.search(r'file: !(\d+)', b)
        ln = re.search(r'line: (\d+)', b)
        subs[m.group(1)] = (nm.group(1) if nm else '?', files.get(fl.group(1), '?') if fl else '?',
                            int(ln.group(1)) if ln else 0)
    out = set()
    for m in re.finditer(r'(?m)^define [^\n]*!dbg !(\d+)', txt):
        s = subs.get(m.group(1))
        if s:
            out.add(s)
    return sorted(out)


def native(src, out, flags=(), sanitize=True):
    """native build of the same contracts; symbols of /repo the contract never reaches are stubbed"""
    base = ['clang++-18'] + DEFS + ['-DVERIF_NATIVE', '-O1', '-g1', '-ffp-contract=off', '-fno-strict-aliasing',
            '-ffunction-sections', '-fdata-sections', '-fno-pie', '-fno-access-control'] + INC + [f for f in flags if 'sanitize' not in f]
    san = []
    if sanitize:
        san = ['-fsanitize=address,undefined', '-fno-sanitize=vptr,function', '-fno-sanitize-recover=undefined']
    o1, o2 = out + '.1.o', out + '.2.o'
    p1 = subprocess.Popen(base + san + ['-c', src, '-o', o1], stderr=subprocess.PIPE, text=True)
    p2 = subprocess.Popen(base + san + ['-c', VERIF + '/harness/vf_native.cc', '-o', o2], stderr=subprocess.PIPE,
                          text=True)
    e1, e2 = p1.communicate()[1], p2.communicate()[1]
    if p1.returncode or p2.returncode:
        raise BuildError((e1 or '')[-2000:] + (e2 or '')[-2000:])
    link = ['clang++-18'] + san + ['-no-pie', o1, o2, '-o', out, '-Wl,--gc-sections', '-rdynamic', '-lfmt', '-lpthread',
            '-Wl,--wrap=exit']
    keep = []
    r = subprocess.run(link, capture_output=True, text=True)
    if r.returncode:
        syms = sorted(set(re.findall(r"undefined reference to `([^']+)'", demangled_off(link))))
        st = out + '.stubs.s'
        with open(st, 'w') as f:
            f.write('.text\n')
            for k in syms:
                f.write('.globl "%s"\n"%s":\n  jmp vf_missing\n  .zero 256\n' % (k, k))
        sh(link + [st])
    return out


def demangled_off(link):
    r = subprocess.run(link + ['-Wl,--no-demangle'], capture_output=True, text=True)
    return r.stderr


def temp():
    return tempfile.mkdtemp(prefix='vf_')


def cleanup(d):
    shutil.rmtree(d, ignore_errors=True)
