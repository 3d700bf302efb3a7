"""C08: existing files are not overwritten or removed without a backup."""
import re
import ir
import flow
import sem
from ir import loc, opexpr
from sem import X
from oblig import Must
from common import *

OPENW = ('fSafeOpen',)


def zero(p, c):
    return c in ('0', 'null') and p == 'eq'


def nonzero(p, c):
    return c in ('0', 'null') and p == 'ne'


def cstr(o):
    return o[1] if o[0] == 's' else None


def lets(f):
    """calls that change a local string: (inst, alloca id)"""
    out = {}
    for i in f.insts():
        if i.op == 'call' and i.callee in ('let', 'linput') and i.ops:
            for o in i.ops:
                a = sem.alloca_of(f, o)
                if a is not None:
                    out.setdefault(i.id, set()).add(a)
        elif i.op == 'store':
            a = sem.alloca_of(f, i.ops[1])
            if a is not None:
                out.setdefault(i.id, set()).add(a)
    return out


def var_of(f, o):
    """local string variable a name is read from"""
    i = f.val(flow.strip(f, o))
    if i is not None and i.op == 'load':
        return sem.alloca_of(f, i.ops[0])
    return None


def last_let(f, i, a):
    """text of the expression last assigned to string a before i when it is certain (same block or dominating, nothing between)"""
    b, k = i.block, i.idx
    seen = 0
    while True:
        for j in reversed(f.blocks[b][:k]):
            if j.op == 'call' and j.callee == 'let' and sem.alloca_of(f, j.ops[0]) == a:
                return j
            if j.op == 'store' and sem.alloca_of(f, j.ops[1]) == a:
                return j
        ps = f.pred[b]
        if len(ps) != 1 or seen > 20:
            return None
        seen += 1
        b = ps[0]
        k = len(f.blocks[b])


def numbered(f, i, o):
    """the number N when o names  prefix~N : the operand of str() in the last assignment, as operand"""
    a = var_of(f, o)
    e = None
    if a is not None:
        j = last_let(f, i, a)
        if j is not None and j.op == 'call':
            e = f.val(flow.strip(f, j.ops[1]))
    else:
        e = f.val(flow.strip(f, o))
    if e is None or e.op != 'call' or e.callee != 'cat':
        return None
    for x in e.ops:
        y = f.val(flow.strip(f, x))
        if y is not None and y.op == 'call' and y.callee == 'str':
            return y.ops[0]
    return None


def dnum(f, o):
    """constant integer value of a (floating) operand"""
    try:
        t = X(f, o)
        v = float(t)
        return int(v) if v == int(v) else None
    except ValueError:
        return None


def go(rep, f, mon, text, keyp):
    mon.run()
    rep.count('obligations', len(mon.points))
    for i, p, key in mon.errors:
        rep.violation('%s|%s' % (keyp, p), '%s (%s in %s); path %s' % (text.get(p, p), loc(i), f.name, mon.witness(key)))


TEXT = {
    'trunc': 'an existing file is truncated although no backup of it was made',
    'delete': 'a file is deleted although neither a backup was made nor versioning was switched off',
    'own': 'a file is removed that was not created just before (with a backup of the previous one)',
    'target': 'a file is renamed over a name that may exist and has not been backed up',
    'splits': 'included files are deleted although the whole output has not been written without error',
    'keep': 'included files are deleted although KEEP_INCLUDES may have been given',
}


def check(m, rep):
    nr = noreturn(m)
    rep.rule('Files are opened for writing only in fSafeOpen(); each path there to the truncating open has versioning off, the file missing, or it '
             'renamed successfully; remove() and rename() elsewhere only on names created by fSafeOpen() on the same path or known to be missing; '
             'the no-backup flag comes from the NO_VERSIONING qualifier only.')
    nrd = nr
    for f in m.funcs.values():
        ch = None
        for i in f.calls():
            c = i.callee
            if c in ('fopen', 'freopen'):
                rep.count('open_calls')
                rep.count('obligations')
                ms = const_strings(f, i.ops[1])
                for s in ms:
                    if s is not None and re.search('[wa+x]', s) and f.name not in OPENW:
                        rep.violation('%s|fopen' % f.name, 'a file is opened for writing without regard to an existing file of that name (%s in %s)' % (loc(i), f.name))
            elif c in ('creat', 'truncate', 'ftruncate', 'unlink', 'rmdir', 'freopen64', 'open') and c not in m.funcs:
                rep.count('obligations')
                rep.violation('%s|%s' % (f.name, c), '%s() bypasses the routine that keeps a backup of existing files (%s in %s)' % (c, loc(i), f.name))
        if f.name not in OPENW:
            removal(m, rep, nr, f)
    safeopen(m, rep, nr)
    flags(m, rep)
    splits(m, rep, nr)


def open_ok(f, name):
    """predicate for a fact: fSafeOpen(name, "w", ...) succeeded"""
    def fn(a, p, c, ao, co):
        i = f.val(ao)
        if not nonzero(p, c) or i is None or i.op != 'call' or i.callee != 'fSafeOpen':
            return False
        return X(f, i.ops[0]) == name and cstr(flow.strip(f, i.ops[1])) == 'w'
    return fn


def removal(m, rep, nr, f):
    L = None
    for i in f.calls('remove', 'rename'):
        rep.count('removals')
        tgt = i.ops[0] if i.callee == 'remove' else i.ops[1]
        name = X(f, tgt)
        if L is None:
            L = lets(f)
        va = var_of(f, tgt)
        alts = {name}
        # WRITE BIBLIOGRAPHY gets its own argument as parameter
        if name.startswith('ld(ld(&g_fullArg)['):
            for k, a in enumerate(f.args):
                if all(X(m.funcs[g.func.name], g.ops[k]) == name or cstr(flow.strip(g.func, g.ops[k])) is not None
                       for g in m.calls_to(f.name)) and any(X(g.func, g.ops[k]) == name for g in m.calls_to(f.name)):
                    alts.add('arg%d' % k)
        lits = {}
        for n, t in enumerate(sorted(alts)):
            lits['own%d' % n] = open_ok(f, t)

        def missing(a, p, c, ao, co):
            j = f.val(ao)
            return zero(p, c) and j is not None and j.op == 'call' and j.callee in ('fopen', 'readFileToString') and X(f, j.ops[0]) in alts
        lits['missing'] = missing
        names = tuple(lits)
        label = 'own'
        init = set()
        kills = None
        dead = None
        if i.callee == 'rename':
            label = 'target'
            sa = var_of(f, i.ops[0])
            if sa is not None:
                # a source name that is still empty: nothing is renamed
                init.add('empty')
                names += ('empty',)
            ev = {'removed': lambda j: j.op == 'call' and j.callee == 'remove' and X(f, j.ops[0]) in alts}
            names += ('removed',)
        else:
            sa = None
            ev = {}
            names = tuple(n for n in names if n != 'missing')

        def kills(j, sa=sa, va=va):
            w = L.get(j.id, ())
            r = set()
            if sa is not None and sa in w and not (j.op == 'call' and j.callee == 'let' and cstr(flow.strip(f, j.ops[1])) == '') and \
               not (j.op == 'store' and f.dominates(j.block, i.block) and is_empty(f, j.ops[0])):
                r.add('empty')
            if va is not None and va in w:
                r |= {'removed', 'missing'} | {n for n in lits if n.startswith('own')}
            return r
        mon = Must(f, nr, (0, 0), lits, ev, kills=kills, at=lambda j, i=i: [(label, names)] if j is i else [], init=frozenset(init))
        mon.deep = True
        go(rep, f, mon, TEXT, f.name)


def is_empty(f, o):
    return cstr(flow.strip(f, o)) == ''


def safeopen(m, rep, nr):
    f, = need(m, 'fSafeOpen')
    ok_name = 'arg0'
    L = lets(f)

    def missing(a, p, c, ao, co):
        j = f.val(ao)
        return zero(p, c) and j is not None and j.op == 'call' and j.callee == 'fopen' and X(f, j.ops[0]) == ok_name

    def renamed(a, p, c, ao, co):
        j = f.val(ao)
        return c == '0' and p == 'eq' and j is not None and j.op == 'call' and j.callee == 'rename' and X(f, j.ops[0]) == ok_name
    lits = {'missing': missing, 'renamed': renamed,
            'nover': lambda a, p, c, ao, co: a == 'arg2' and (c == '0' and p in ('ne', 'sgt') or c == '1' and p == 'eq')}
    need_w = ('missing', 'renamed', 'nover')

    def at(i):
        if i.op == 'call' and i.callee == 'fopen' and X(f, i.ops[0]) == ok_name and any(
                s and re.search('[wa+]', s) for s in const_strings(f, i.ops[1])):
            return [('trunc', need_w)]
        if i.op == 'call' and i.callee == 'remove' and X(f, i.ops[0]) == ok_name:
            return [('delete', need_w)]
        return []
    mon = Must(f, nr, (0, 0), lits, {}, at=at)
    mon.deep = True
    go(rep, f, mon, TEXT, f.name)
    # backups: the file becomes ~1, older ones move up from the highest to the lowest, only the last one is dropped
    rens = list(f.calls('rename'))
    for i in rens:
        rep.count('renames')
        rep.count('obligations', 2)
        if X(f, i.ops[0]) == ok_name:
            n = numbered(f, i, i.ops[1])
            if n is not None and dnum(f, n) is not None and dnum(f, n) != 1:
                rep.violation('fSafeOpen|name', 'the backup of a file is not named ~1 (%s)' % loc(i))
        else:
            a, b = numbered(f, i, i.ops[0]), numbered(f, i, i.ops[1])
            if a is None or b is None:
                continue
            ta, tb = plain(f, a), plain(f, b)
            if ta is None or tb is None:
                continue
            if ta[0] == tb[0] and tb[1] - ta[1] != 1:
                rep.violation('fSafeOpen|shift', 'an older backup is not renamed to the next higher number (%s)' % loc(i))
                continue
            l = sem.loop_of(f, i.block)
            if l is None or ta[0] != tb[0]:
                continue
            ks = [k for k in sem.counting(f, l) if 'phi%d' % k.phi.id == ta[0]]
            if ks and all(k.step > 0 for k in ks):
                rep.violation('fSafeOpen|order', 'older backups are moved up from the lowest number, each overwriting the next (%s)' % loc(i))
            for k in ks:
                if k.step < 0 and X(f, k.bound).lstrip('-').isdigit():
                    low = int(X(f, k.bound)) + (1 if k.pred in ('sgt', 'ugt', 'ne') else 0)
                    if low + ta[1] > 1:
                        rep.violation('fSafeOpen|lowest', 'the newest backup is not moved up before it is overwritten (%s)' % loc(i))
    shifts = [i for i in rens if X(f, i.ops[0]) != ok_name]
    if not shifts and rens and len(list(f.calls('fopen'))) <= 3:
        rep.violation('fSafeOpen|noshift', 'an older backup is overwritten instead of being moved up')
    # the number of the backup that is dropped is the last one scanned
    limit = None
    for l in f.loops:
        for k in sem.counting(f, l):
            if k.step == 1 and X(f, k.bound).isdigit() and any(i.op == 'call' and i.callee == 'fopen' for b in l[1] for i in f.blocks[b]):
                limit = int(X(f, k.bound)) - (1 if k.pred in ('slt', 'ult') else 0)
    for i in f.calls('remove'):
        if X(f, i.ops[0]) == ok_name:
            continue
        n = numbered(f, i, i.ops[0])
        if n is None:
            continue
        rep.count('obligations')
        v = dnum(f, n)
        if v is not None and limit is not None and v < limit:
            rep.violation('fSafeOpen|drop', 'a backup that is not the oldest one is dropped (%s)' % loc(i))


def plain(f, o):
    """(variable text, offset) of str()'s operand"""
    t = X(f, o)
    off = 0
    for _ in range(4):
        g = re.match(r'^sitofp\((.*)\)$', t)
        if g:
            t = g.group(1)
            continue
        g = re.match(r'^f?add\((.*),(-?[\d.e+]+)\)$', t)
        if g:
            off += int(float(g.group(2)))
            t = g.group(1)
            continue
        break
    return (t, off) if t.startswith('phi') else None


QUAL = {'nover': 'NO_VERSIONING', 'keep': 'KEEP_INCLUDES'}


def sources(m, f, o, seen=None, d=0):
    """where a flag value comes from: ('const', n) | ('switch', name) | ('other', text)"""
    seen = seen if seen is not None else set()
    out = set()
    for l in sem.leaves(f, o):
        if l[0] == 'c':
            out.add(('const', l[1]))
            continue
        if l[0] == 'v' and l[1] < f.nargs:
            if (f.name, l[1]) in seen or d > 8:
                continue
            seen.add((f.name, l[1]))
            cs = m.calls_to(f.name)
            for g in cs:
                if l[1] < len(g.ops):
                    out |= sources(m, g.func, g.ops[l[1]], seen, d + 1)
            continue
        i = f.val(l)
        if i is not None and i.op == 'icmp':
            p, c = i.pred, X(f, i.ops[1])
            j = f.val(flow.strip(f, i.ops[0]))
            if j is not None and j.op == 'call' and j.callee == 'switchPos' and cstr(j.ops[0]) is not None:
                out.add(('switch', cstr(j.ops[0])) if (p, c) in (('ne', '0'), ('sgt', '0'), ('sge', '1')) else ('noswitch', cstr(j.ops[0]))
                        if (p, c) in (('eq', '0'), ('sle', '0'), ('slt', '1')) else ('other', X(f, l)))
                continue
            if (p, c) == ('ne', '0'):
                out |= sources(m, f, i.ops[0], seen, d + 1)
                continue
        if i is not None and i.op == 'call' and i.callee == 'switchPos' and cstr(i.ops[0]) is not None:
            out.add(('switch', cstr(i.ops[0])))
            continue
        out.add(('other', X(f, l)))
    return out


def flags(m, rep):
    for f in m.funcs.values():
        for i in f.calls('fSafeOpen'):
            ms = const_strings(f, i.ops[1])
            if ms <= {'r'}:
                continue
            rep.count('write_opens')
            rep.count('obligations')
            for kind, v in sorted(sources(m, f, i.ops[2]), key=str):
                if kind == 'const' and v:
                    # a phi of constants under a condition is a flag: look at what decides it
                    if decided(m, f, i.ops[2]):
                        continue
                    rep.violation('%s|nover' % f.name, 'an existing file is overwritten without backup although NO_VERSIONING was not asked for (%s in %s)' % (loc(i), f.name))
                elif kind == 'switch' and 'NO_VERSIONING' not in v or kind == 'noswitch':
                    rep.violation('%s|nover %s' % (f.name, v), 'whether an existing file is backed up depends on the qualifier %s (%s in %s)' % (v, loc(i), f.name))


def decided(m, f, o):
    i = f.val(flow.strip(f, o))
    return i is not None and i.op in ('phi', 'select')


def splits(m, rep, nr):
    f, = need(m, 'writeSource')
    cs = list(f.calls('deleteSplits'))
    if not cs:
        return

    def called(name, test):
        def fn(a, p, c, ao, co):
            j = f.val(ao)
            return test(p, c) and j is not None and j.op == 'call' and j.callee == name
        return fn
    keepargs = set()
    for k in range(len(f.args)):
        src = set()
        for g in m.calls_to(f.name):
            src |= sources(m, g.func, g.ops[k])
        if ('switch', 'KEEP_INCLUDES') in src and not any(s[0] == 'noswitch' for s in src):
            keepargs.add('arg%d' % k)
    lits = {'opened': called('fSafeOpen', nonzero), 'closed': called('fclose', zero), 'good': called('ferror', zero),
            'wrote': lambda a, p, c, ao, co: (f.val(ao) is not None and f.val(ao).op == 'call' and
                                              f.val(ao).callee in ('fprintf', 'fputs', 'fwrite', 'fflush')),
            'keep0': lambda a, p, c, ao, co: a in keepargs and zero(p, c)}
    mon = Must(f, nr, (0, 0), lits, {}, at=lambda i: [('splits', ('opened',)), ('splits', ('closed',)), ('splits', ('good', 'wrote')), ('keep', ('keep0',))] if i in cs else [])
    mon.deep = True
    go(rep, f, mon, TEXT, f.name)
