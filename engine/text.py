"""C15 (format strings and value lists) and C16 (bytes as table indexes)."""
import os
import re
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
import base
import ir
import flow
import sem
from ir import loc, opexpr
from common import *

FORMAT = {'print2': 0, 'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2, 'fatalErrorPush': 0, 'vprintf': 0, 'vfprintf': 1,
          'vsprintf': 1, 'vsnprintf': 2, 'fatalErrorExitAt': 2, 'dprintf': 1, 'fscanf': 1, 'sscanf': 1, 'scanf': 0}
LISTS = ('cat', 'nmbrCat', 'pntrCat')

HEADER = '''#include <stdio.h>
#include <stdbool.h>
char print2(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool fatalErrorPush(char const *format, ...) __attribute__((format(printf, 1, 2)));
void fatalErrorExitAt(char const *file, unsigned line, char const *msgWithPlaceholders, ...) __attribute__((format(printf, 3, 4)));
'''


def format_params(m):
    """{function: parameter index} of format parameters, including functions that hand a parameter on as a format"""
    r = dict(FORMAT)
    ch = True
    while ch:
        ch = False
        for n, f in m.funcs.items():
            if n in r:
                continue
            for i in f.calls(*r):
                k = r[i.callee]
                if k < len(i.ops):
                    for o in sem.leaves(f, i.ops[k]):
                        a = f.argno(o)
                        if a is not None:
                            r[n] = a
                            ch = True
    return r


def check_format(m, rep):
    nr = noreturn(m)
    rep.rule('every format handed to print2, printf, fprintf, sprintf and the fatal error messages is a constant of the program (functions that '
             'hand on a format of their own are followed to their callers); every directive gets a value, of the type it names; every list of '
             'strings to be concatenated ends with NULL and has no NULL before')
    fp = format_params(m)
    for n, f in sorted(m.funcs.items()):
        for i in f.calls(*fp):
            k = fp[i.callee]
            if k >= len(i.ops):
                continue
            rep.count('formats')
            for o in sem.leaves(f, i.ops[k]):
                if o[0] in ('s', 'n', 'u'):
                    if o[0] == 's' and i.callee.startswith('fatalError'):
                        t = re.sub(r'%[%su]', '', o[1])
                        if '%' in t:
                            rep.violation('directive|%s|%s' % (n, o[1][:30]), 'format %r of %s() has a directive it does not know (%s)' % (o[1], i.callee, loc(i)))
                    continue
                if o[0] == 'v' and f.argno(o) is not None and fp.get(n) == f.argno(o):
                    continue
                if local_copy(f, o, fp.get(n)):
                    continue
                rep.violation('format|%s|%s' % (n, re.sub(r'\d+', '', opexpr(f, o))[:60]),
                              '%s() gets a format that is not a constant: %s (%s)' % (i.callee, opexpr(f, o)[:120], loc(i)))
        for i in f.calls(*LISTS):
            rep.count('lists')
            ops = i.ops
            if not ops or ops[-1][0] != 'n':
                rep.violation('list|%s' % n, 'the list of strings for %s() does not end with NULL (%s)' % (i.callee, loc(i)))
            elif any(o[0] == 'n' for o in ops[:-1]):
                rep.violation('list|%s' % n, 'the list of strings for %s() has NULL before its end (%s)' % (i.callee, loc(i)))
    types(m, rep)
    rep.atleast('formats', 300)
    rep.atleast('lists', 100)
    rep.count('obligations', rep.cover['formats'] + rep.cover['lists'])


def local_copy(f, o, k):
    """a load from a structure the format parameter was put in (the parser state of the fatal error messages)"""
    i = f.val(o)
    if i is None or i.op != 'load' or k is None:
        return False
    a = opexpr(f, i.ops[0])
    return any(s.op == 'store' and opexpr(f, s.ops[1]) == a and f.argno(flow.strip(f, s.ops[0])) == k for s in f.insts())


def types(m, rep):
    """clang's own check of the values against the directives, with print2 and the fatal error functions declared as formatters"""
    cc = base.which('clang-18', 'clang')
    tmp = tempfile.mkdtemp(prefix='mmfmt.')
    try:
        h = os.path.join(tmp, 'formats.h')
        open(h, 'w').write(HEADER)

        def one(s):
            r = subprocess.run([cc, '-fsyntax-only', '-std=gnu17', '-Wno-everything', '-include', h, '-Wformat', '-Wno-format-extra-args', '-Wno-format-security',
                                '-Wno-format-zero-length', '-Wno-format-nonliteral', '-fno-caret-diagnostics', '-fno-color-diagnostics', '-ferror-limit=0', '-I',
                                os.path.join(base.REPO, 'src'), s], capture_output=True, text=True, errors='replace')
            return s, r
        with ThreadPoolExecutor(8) as ex:
            for s, r in ex.map(one, base.sources()):
                if r.returncode:
                    raise base.Broken('does not compile with checked formats: %s\n%s' % (s, r.stderr[-800:]))
                rep.count('units_type_checked')
                for l in r.stderr.splitlines():
                    g = re.match(r'(.*?):(\d+):\d+: warning: (.*) \[-W', l)
                    if not g or "aka 'void *'" in l or "type 'void *'" in l or 'non-standard' in l:
                        continue
                    rep.violation('value|%s|%s' % (os.path.basename(g.group(1)), g.group(3)[:80]),
                                  'src/%s:%s: %s' % (os.path.basename(g.group(1)), g.group(2), g.group(3)))
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------- C16
def signed_byte(f, o, d=0):
    """the signed byte value that reaches o by widening and arithmetic, or None"""
    o = o if o[0] != 'v' else o
    i = f.val(o)
    if i is None or d > 6:
        return None
    if i.op == 'sext':
        s = f.val(i.ops[0])
        if s is not None and s.ty == 'i8' or i.ops[0][0] == 'v' and i.ops[0][1] < f.nargs and f.args[i.ops[0][1]][2] == 'i8':
            return i.ops[0]
        return signed_byte(f, i.ops[0], d + 1)
    if i.op in ('add', 'shl', 'mul', 'phi', 'select', 'zext', 'freeze'):
        ops = [x for x, b in i.ops] if i.op == 'phi' else i.ops[1:] if i.op == 'select' else i.ops
        for x in ops:
            r = signed_byte(f, x, d + 1)
            if r is not None:
                return r
    return None


class NonNeg(flow.Monitor):
    """State: is the byte known not to be negative?"""

    def __init__(self, f, o, at, nr):
        flow.Monitor.__init__(self, f, (0, 0), False)
        self.o, self.t, self.at, self.nr = o, opexpr(f, o), at, nr

    def step(self, st, i):
        if i is self.at and not st:
            self.err(i, 'negative')
        if i.op == 'call' and i.callee in self.nr or i.op == 'ret':
            return None
        if self.o[0] == 'v' and i.id == self.o[1]:
            return False
        return st

    def edge(self, st, b, t):
        for a, p, c, ao, co in sem.facts(self.f, b, t):
            if (ao == self.o or a == self.t) and co[0] == 'c':
                iv = flow.iv_meet((-128, 127), p, co[1])
                if iv is None:
                    return None
                if iv[0] >= 0:
                    st = True
        return st


def constant_text(f, o):
    """the byte comes from a constant string of the program"""
    i = f.val(o)
    if i is None or i.op != 'load':
        return False
    s = opexpr(f, i.ops[0])
    g = re.match(r'^ld\(&([\w.]+)\)\[|^&([\w.]+)\[', s)
    if not g:
        return False
    name = g.group(1) or g.group(2)
    return name in f.mod.__dict__.setdefault('_consttext', const_globals(f.mod))


def const_globals(m):
    """string variables only ever set to constant text, and constant arrays"""
    st = {}
    for f in m.funcs.values():
        for i in f.insts():
            n = global_store_name(f, i)
            if n:
                st.setdefault(n, []).append(all(x[0] in ('s', 'g') for x in sem.leaves(f, i.ops[0])))
            elif i.op == 'call' and i.callee == 'let' and i.ops[0][0] == 'g':
                st.setdefault(ir.gname(m, i.ops[0][1]), []).append(all(x[0] == 's' for x in sem.leaves(f, i.ops[1])))
            elif i.op == 'call' and i.callee == 'free_vstring':
                pass
    return {n for n, v in st.items() if all(v)}


def check_bytes(m, rep):
    nr = noreturn(m)
    rep.rule('a byte of text is used as a table index, or handed to a character class function, only after it was made unsigned or was '
             'found not to be negative')
    n = 0
    for name, f in sorted(m.funcs.items()):
        for i in f.insts():
            idx = []
            if i.op == 'getelementptr':
                # an index into an array or table; plain pointer + offset with a byte offset counts as well
                idx = [s[1] for s in i.path or () if s[0] in ('i', 'a', '?') and isinstance(s[1], list)]
            elif i.op == 'call' and i.callee in ('toupper', 'tolower', 'isalpha', 'isdigit', 'isalnum', 'isspace', 'isgraph', 'isprint', 'ispunct',
                                                 'isupper', 'islower', 'iscntrl', 'isxdigit'):
                idx = [i.ops[0]]
            for o in idx:
                v = f.val(o)
                if v is None or v.op not in ('sext', 'zext', 'add', 'phi', 'select', 'freeze', 'shl', 'mul', 'and', 'trunc'):
                    continue
                if any(byte_like(f, o)):
                    n += 1
                s = signed_byte(f, o)
                if s is None:
                    continue
                if constant_text(f, s) or is_flag(f, s):
                    continue
                mo = NonNeg(f, s, i, nr)
                mo.run()
                if mo.errors:
                    rep.violation('index|%s|%s' % (name, re.sub(r'\d+', '', opexpr(f, s))[:50]),
                                  'a byte that can be negative (above 127 in the file) is used as an index or class argument: %s; path %s' % (
                                      loc(i), mo.witness(mo.errors[0][2])))
    rep.cover['byte_indexes'] = n
    rep.atleast('byte_indexes', 20)
    rep.count('obligations', n)


def byte_like(f, o, d=0):
    i = f.val(o)
    if i is None or d > 5:
        return
    if i.op in ('zext', 'sext'):
        s = f.val(i.ops[0])
        if s is not None and s.ty == 'i8':
            yield True
    if i.op in ('add', 'phi', 'select', 'zext', 'sext'):
        for x in ([x for x, b in i.ops] if i.op == 'phi' else i.ops):
            if x[0] == 'v' and x[1] != i.id:
                yield from byte_like(f, x, d + 1)


def is_flag(f, o):
    """a small program value kept in a char: only constants or truth values are ever stored in it"""
    i = f.val(o)
    if i is None:
        return False
    if i.op == 'load' and i.ops[0][0] == 'g':
        n = ir.gname(f.mod, i.ops[0][1])
        for g in f.mod.funcs.values():
            for s in g.insts():
                if global_store_name(g, s) == n and not small(g, s.ops[0]):
                    return False
        return True
    return small(f, o)


def small(f, o):
    for x in sem.leaves(f, o):
        if x[0] == 'c' and x[1] >= 0:
            continue
        i = f.val(x)
        if i is not None and i.op == 'icmp':
            continue
        return False
    return True
