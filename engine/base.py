"""Build the resolved program from /repo's current source and run one property's rules."""
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MM_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
TOOL = os.path.join(BUILD, 'mmexport')
_NORM = 'sroa<modify-cfg>,early-cse,instcombine<no-verify-fixpoint>,jump-threading'
PIPE = 'always-inline,function(%s)' % _NORM
# second normal form: conditions that only repeat an earlier one are resolved as well
PIPE2 = 'always-inline,function(%s,correlated-propagation,jump-threading)' % _NORM
if os.environ.get('MM_PIPE') == '2':
    PIPE = PIPE2

# rules that are path sensitive only: a violation has to show in both normal forms
SECOND_FORM = {'redirect', 'files', 'output'}


class Broken(Exception):
    """The analysis cannot decide: anchor vanished, zero instances, build failed."""


def which(*names):
    for n in names:
        p = n if n.startswith('/') and os.path.exists(n) else shutil.which(n)
        if p:
            return p
    raise Broken('missing tool: %s' % (names,))


def build_tool():
    src = os.path.join(VERIF, 'tool', 'mmexport.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    stamp = os.path.join(BUILD, 'mmexport.sha')
    if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = TOOL + '.%d' % os.getpid()
    r = subprocess.run([which('g++', 'clang++-18'), '-O1', '-std=c++17', '-fno-rtti', '-w', '-D_GNU_SOURCE',
                        '-I/usr/lib/llvm-18/include', src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'],
                       capture_output=True, text=True)
    if r.returncode:
        raise Broken('cannot build mmexport:\n' + r.stderr[-2000:])
    os.replace(tmp, TOOL)
    with open(stamp, 'w') as f:
        f.write(h)


def sources():
    """Translation units of the program: metamath_SOURCES of src/Makefile.am."""
    mk = open(os.path.join(REPO, 'src', 'Makefile.am')).read().replace('\\\n', ' ')
    out = []
    for l in mk.splitlines():
        if l.strip().startswith('metamath_SOURCES'):
            out = [w for w in l.split('=', 1)[1].split() if w.endswith('.c')]
    if len(out) < 10:
        raise Broken('cannot read metamath_SOURCES from src/Makefile.am')
    miss = [s for s in out if not os.path.exists(os.path.join(REPO, 'src', s))]
    if miss:
        raise Broken('missing sources %s' % miss)
    return [os.path.join(REPO, 'src', s) for s in out]


def export(known='known_functions.txt', pipe=None, extra=(), srcs=None, keep=None):
    """Compile /repo/src to bitcode, link, normalise, export; returns the JSON path."""
    build_tool()
    srcs = srcs or sources()
    tmp = tempfile.mkdtemp(prefix='mmsa.')
    try:
        cc = which('clang-18', 'clang')

        def one(s):
            o = os.path.join(tmp, os.path.basename(s) + '.bc')
            r = subprocess.run([cc, '-O0', '-g', '-std=gnu17', '-fno-builtin', '-fno-discard-value-names', '-Xclang',
                                '-disable-O0-optnone', '-fno-strict-aliasing', '-w', '-emit-llvm',
                                '-I', os.path.join(REPO, 'src')] + list(extra) + ['-c', s, '-o', o],
                               capture_output=True, text=True)
            if r.returncode:
                raise Broken('does not compile: %s\n%s' % (s, r.stderr[-1500:]))
            return o
        with ThreadPoolExecutor(8) as ex:
            bcs = list(ex.map(one, srcs))
        out = os.path.join(tmp, 'm.json')
        kf = os.path.join(VERIF, 'engine', known) if known else '-'
        if not os.path.exists(kf):
            kf = '-'
        r = subprocess.run([TOOL, kf, out, pipe or PIPE] + bcs, capture_output=True, text=True)
        if r.returncode:
            raise Broken('mmexport failed: ' + r.stderr[-1500:])
        import ir
        m = ir.Module(out)
        if keep:
            shutil.copy(out, keep)
        return m
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Report:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.viol = []          # (key, message)
        self.cover = {}         # counters
        self.samples = []
        self.rules = []
        self.assumptions = []

    def violation(self, key, msg):
        """key: stable identity (rule|function|construct), msg: full diagnosis."""
        if not any(k == key and m == msg for k, m in self.viol):
            self.viol.append((key, msg))

    def count(self, name, n=1):
        self.cover[name] = self.cover.get(name, 0) + n

    def atleast(self, name, n):
        if self.cover.get(name, 0) < n:
            raise Broken('rule instance count fell: %s = %d, expected at least %d' % (name, self.cover.get(name, 0), n))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def rule(self, s):
        self.rules.append(s)


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('finding: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                key, _, txt = rest.partition(' :: ')
                out[key.strip()] = txt.strip()
    return out


def run(pid, tier, fn, level):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rep = Report(pid, tier)
    try:
        m = export()
        rep.cover['translation_units'] = len(sources())
        rep.cover['functions'] = len(m.funcs)
        rep.cover['instructions'] = sum(len(b) for f in m.funcs.values() for b in f.blocks)
        rep.module = m
        fn(m, rep)
        if any(k.strip() not in known_findings(pid) for k, _ in rep.viol) and fn.__module__ in SECOND_FORM:
            # keep what the second normal form of the program shows as well
            m = export(pipe=PIPE2)
            r2 = Report(pid, tier)
            r2.module = m
            fn(m, r2)
            keys = {k for k, _ in r2.viol}
            rep.viol = [v for v in rep.viol if v[0] in keys]
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    kf = known_findings(pid)
    new = []
    hit = set()
    for key, msg in rep.viol:
        if key.strip() in kf:
            hit.add(key.strip())
        else:
            new.append((key, msg))
    for k in sorted(hit):
        print('KNOWN-FINDING: property=%s %s (%s)' % (pid, kf[k], k))
    rdir = os.path.join(VERIF, 'evidence')
    os.makedirs(rdir, exist_ok=True)
    cov = dict(rep.cover)
    cov['rules'] = rep.rules
    cov['samples'] = rep.samples
    cov['explanation'] = ('Static analysis of the LLVM IR that clang makes from the current source: %d translation units, '
                          '%d functions, %d instructions. Rules: ' % (cov['translation_units'], cov['functions'],
                                                                      cov['instructions'])) + ' | '.join(rep.rules)
    ob = cov.get('obligations')
    if ob is not None:
        cov['discharged'] = ob - len(new) - len(hit)
    cov['known_findings'] = len(hit)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': rep.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    with open(os.path.join(rdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    replay = os.path.join(rdir, pid + '.violations.txt')
    if new:
        with open(replay, 'w') as f:
            for k, msg in new:
                f.write('%s\n    %s\n' % (k, msg))
        for k, msg in new[:40]:
            print('  [%s] %s' % (k, msg))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    if os.path.exists(replay):
        os.remove(replay)
    print('OK property=%s %s' % (pid, ' '.join('%s=%s' % (k, v) for k, v in sorted(rep.cover.items()))))
    return 0
