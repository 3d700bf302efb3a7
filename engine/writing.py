"""C35: WRITE SOURCE writes the text of every statement.  The text is followed as pieces (linear forms over the lengths of the
sections), per kind of statement; the cutting into included files as pieces over the positions found."""
import flow
import ir
import sem
import trace
from trace import Lin, S, Str, sym, lit, END
from ir import loc
from closure import Scan
from base import Broken
from common import *

G = S('G')
KINDS = (('${', '{'), ('$}', '}'), ('$v', 'v'), ('$c', 'c'), ('$d', 'd'), ('$e', 'e'), ('$f', 'f'), ('$a', 'a'), ('$p', 'p'),
         ('the end', '?'))
SECTIONS = ('label', 'math', 'proof')


def isk(v, ix, field):
    """v was read from that field of the statement"""
    n = None
    if isinstance(v, Str) and len(v.p) == 1 and v.p[0][0] == 'sym':
        n = v.p[0][1]
    elif isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
        n = v.t[0][0]
    return isinstance(n, tuple) and n[0] == 'ld' and n[1][0] == 'gep' and len(n[1][2]) == 2 and n[1][2] == (ix, field)


def section(v, ix):
    for s in SECTIONS:
        if isk(v, ix, s + 'SectionPtr'):
            return s
    return None


def lengths(v, ix):
    """{section: factor, '': constant} of a number made of lengths of sections"""
    out = {'': v.c}
    for s, k in v.t:
        for n in SECTIONS:
            if isk(Lin(0, {s: 1}), ix, n + 'SectionLen'):
                out[n] = out.get(n, 0) + k
                break
        else:
            return None
    return out


def expected(kd):
    """pieces of a statement of that kind"""
    if kd == '?':
        return ['label']
    r = ['label', '$' + kd]
    if kd in '{}':
        return r
    r += ['math']
    if kd == 'p':
        r += ['$=', 'proof']
    return r + ['$.']


def pieces(w, st, base, ix):
    """what was put at base, in order: (list of pieces, total length) or None"""
    out, pos = [], Lin(0)
    for x in st.trail:
        if x[0] == 'store' and x[1][0] == 'char' and x[1][1] == base or x[0] == 'store' and x[1] == ('deref', base):
            off = x[1][2] if x[1][0] == 'char' else Lin(0)
            v = x[2]
            if not isinstance(v, Lin):
                return None
            if v.const is not None:
                c = chr(v.const)
            elif isk(v, ix, 'type'):
                c = 'TYPE'
            else:
                return None
            out.append((off, c, Lin(1), x[3]))
        elif x[0] == 'call' and x[1].op == 'call':
            i, a = x[1], x[2]
            hit = [n for n, y in enumerate(a) if y == base or isinstance(y, tuple) and y[0] == 'T' and y[1] == base]
            if not hit:
                continue
            if (i.callee in ('memcpy', 'memmove', 'strncpy') or (i.callee or '').startswith('llvm.mem')) and hit == [0]:
                off = a[0][2] if isinstance(a[0], tuple) else Lin(0)
                if not isinstance(a[1], Str) or not isinstance(a[2], Lin):
                    return None
                s = section(a[1], ix)
                if s is None and not (len(a[1].p) == 1 and a[1].p[0][0] == 'lit'):
                    return None
                out.append((off, s or a[1].p[0][1], a[2], i))
            elif i.callee in ('memcpy',) and 0 not in hit:
                return None
            else:
                return None
    return out


def fill(f, nr, rep, loop, kd, name):
    h = loop[0]
    ph = list(flow.phis(f, h))
    env = {}
    ptr = []
    for p in ph:
        if p.ty == 'ptr':
            env[p.id] = S(('ptr', p.id))
            ptr.append(p)
        else:
            env[p.id] = sym(('n', p.id))
    if len(ptr) != 1:
        return 'not decided'
    base = env[ptr[0].id]

    def walk(mem):
        init = {('g', 'g_Statement'): G}
        init.update(mem)
        return trace.Walk(f, nr, (h, 0), lambda i: i.block not in loop[1], None, init, None, through=h, once=h, env=env)
    w = walk({})
    ixs = {k[2][0] for e, i, st in w.paths for k in st.mem if k[0] == 'gep' and len(k[2]) == 2 and k[2][1] == 'type' and k[1] == G}
    if len(ixs) != 1 or w.over:
        return 'not decided'
    ix = ixs.pop()
    w = walk({('gep', G, (ix, 'type')): Lin(ord(kd))})
    want = expected(kd)
    for end, i, st in w.paths:
        if end != 'round':
            continue
        rep.count('paths')
        # the type is a constant on this walk, so a stored type is one too
        p = pieces(w, st, base, ix)
        if p is None:
            rep.count('not decided')
            continue
        out, pos, wrong = [], Lin(0), None
        for off, c, n, at in p:
            if off != pos:
                d = (off - pos).const
                if d is None and lengths(off - pos, ix) is None:
                    wrong = 'unknown'
                else:
                    wrong = wrong or ('%s is written at the wrong place' % (c if len(c) < 3 else 'the %s section' % c), at)
            if c in SECTIONS:
                if not isk(n, ix, c + 'SectionLen'):
                    if lengths(n, ix) is None:
                        wrong = 'unknown'
                    else:
                        wrong = wrong or ('the %s section is written with a wrong length' % c, at)
                out.append(c)
            else:
                if len(c) == 1 and out and out[-1][-1:] == '$' and out[-1] not in SECTIONS:
                    out[-1] += c
                else:
                    out.append(c)
            pos = off + n
        fin = st.env.get(ptr[0].id)
        fo = Lin(0) if fin == base else fin[2] if isinstance(fin, tuple) and fin[0] == 'T' and fin[1] == base else None
        if wrong == 'unknown' or fo is None or not isinstance(fo, Lin):
            rep.count('not decided')
            continue
        rep.count('obligations')
        if wrong is None and fo != pos:
            if lengths(fo - pos, ix) is None:
                rep.count('not decided')
                continue
            wrong = ('the next statement does not start where this one ends', i)
        if wrong is None and out != want:
            miss = [x for x in want if x not in out]
            wrong = ('%s is left out' % ('the %s section' % miss[0] if miss[0] in SECTIONS else '"%s"' % miss[0]) if miss else
                     'its parts are written as %s' % ' '.join(out), i)
        if wrong:
            rep.violation('statement|%s|%s' % (kd, wrong[0]), '%s(): of %s, %s (%s)' % (f.name, name, wrong[0], loc(wrong[1])))
    return None


def space(f, nr, rep, loop, acc, kd, name):
    """what one round adds to the reserved space"""
    h = loop[0]
    env = {p.id: S(('ptr', p.id)) if p.ty == 'ptr' else sym(('n', p.id)) for p in flow.phis(f, h)}

    def walk(mem):
        init = {('g', 'g_Statement'): G}
        init.update(mem)
        return trace.Walk(f, nr, (h, 0), lambda i: i.block not in loop[1], None, init, None, through=h, once=h, env=env)
    w = walk({})
    ixs = {k[2][0] for e, i, st in w.paths for k in st.mem if k[0] == 'gep' and len(k[2]) == 2 and k[2][1] == 'type' and k[1] == G}
    if len(ixs) != 1 or w.over:
        return
    ix = ixs.pop()
    w = walk({('gep', G, (ix, 'type')): Lin(ord(kd))})
    for end, i, st in w.paths:
        if end != 'round':
            continue
        v = st.env.get(acc.id)
        if not isinstance(v, Lin):
            continue
        d = lengths(v - env[acc.id], ix)
        if d is None:
            continue
        rep.count('obligations')
        want = {'': 0}
        for x in expected(kd):
            if x in SECTIONS:
                want[x] = want.get(x, 0) + 1
            else:
                want[''] += len(x)
        short = [x for x in want if d.get(x, 0) < want[x]]
        if short:
            rep.violation('space|%s' % kd, '%s(): the space reserved for %s lacks %s (%s)' % (
                f.name, name, 'the %s section' % short[0] if short[0] else 'its keywords', loc(i)))


def buffer(m, rep, nr):
    f, = need(m, 'writeSourceToBuffer')
    rep.rule('writeSourceToBuffer(): one round of the loop that copies the sections, for each kind of statement and each path: the '
             'pieces, their lengths, their places and the place where the next statement starts; the scan covers all statements and the end')
    loops = []
    for l in f.loops:
        inner = [i for b in l[1] for i in f.blocks[b] if sem.loop_of(f, b)[0] == l[0]]
        if any(i.op == 'call' and (i.callee or '').replace('llvm.', '').startswith(('memcpy', 'memmove', 'strncpy')) for i in inner):
            loops.append(l)
    if len(loops) != 1:
        rep.count('not decided')
        return
    l = loops[0]
    for name, kd in KINDS:
        if fill(f, nr, rep, l, kd, name):
            rep.count('not decided')
            return
    # which statements
    cop = next(i for b in l[1] for i in f.blocks[b] if i.op == 'call' and 'mem' in (i.callee or ''))
    for b in l[1]:
        for i in f.blocks[b]:
            if i.op == 'getelementptr' and any(e[0] == 'f' and 'SectionPtr' in str(e[-1]) for e in i.path):
                ixop = [e[1] for e in i.path if e[0] in ('i', 'a')]
                if len(ixop) == 1:
                    sc = Scan(f, l, ixop[0])
                    rep.count('scans', sc.ok)
                    msg = sc.complaint((None, 1), ('ld(&g_statements)', 1))
                    if msg:
                        rep.violation('scan', '%s(): the scan of the statements %s (%s)' % (f.name, msg, loc(i)))
                    if sc.ok:
                        for bb in l[1]:
                            for t in f.succ[bb]:
                                if t not in l[1] and (bb, t) not in sc.norm and returns(f, t, nr):
                                    rep.violation('ends', '%s(): the writing ends before the last statement (%s)' % (f.name, loc(f.blocks[bb][-1])))
                    break
        else:
            continue
        break
    # reserved space
    for l2 in f.loops:
        if l2[0] == l[0] or l2[0] in l[1]:
            continue
        for acc in flow.phis(f, l2[0]):
            if any(c.callee == 'malloc' and ('phi%d' % acc.id) in sem.X(f, c.ops[0]) for c in f.insts() if c.op == 'call'):
                for name, kd in KINDS:
                    space(f, nr, rep, l2, acc, kd, name)


def returns(f, b, nr):
    seen, st = set(), [b]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if any(i.op == 'call' and i.callee in nr for i in f.blocks[x]):
            continue
        if f.blocks[x][-1].op == 'ret':
            return True
        st += f.succ[x]
    return False


T = S('T')
BUF = S('BUF')


def asked(x):
    """the user is told that something went wrong"""
    return x[0] == 'call' and x[1].callee == 'print2' and isinstance(x[2][0], Str) and x[2][0].p and x[2][0].p[0][0] == 'lit' and \
        x[2][0].p[0][1].startswith('?')


def put(x, whole):
    """the whole text goes to a file: True, False (other text) or None"""
    if x[0] != 'call':
        return None
    i, a = x[1], x[2]
    if i.callee == 'fprintf' and len(a) > 2 and a[1] == lit('%s'):
        t = a[2]
    elif i.callee in ('fputs', 'fwrite'):
        t = a[0]
    else:
        return None
    if t == whole:
        return True
    if isinstance(t, Str) and any(p[0] == 'cut' and ('sym', p[1]) == whole.p[0] for p in t.p):
        return False
    return 'unknown'


def files(m, rep, nr):
    f, = need(m, 'writeSource')
    rep.rule('writeSource(): every path hands the whole text on (to the file or to be split), extracts, or shows an error')

    def handle(w, st, i, a):
        if i.callee == 'writeSourceToBuffer':
            return BUF
        if i.callee == 'writeSplitSource':
            k = a[0][1] if isinstance(a[0], tuple) and a[0][0] == 'A' else None
            st.trail.append(('split', i, st.mem.get(k)))
            return sym(('v', i.id))
        if i.callee in ('print2', 'strcmp', 'fclose', 'ferror'):
            return sym(('v', i.id))
        return None
    w = trace.Walk(f, nr, (0, 0), lambda i: False, handle)
    if w.over:
        rep.count('not decided')
        return
    for end, i, st in w.paths:
        if end != 'ret':
            continue
        t = st.trail
        rep.count('paths')
        if any(asked(x) or x[0] == 'call' and x[1].callee == 'writeExtractedSource' for x in t):
            continue
        r = [put(x, BUF) for x in t] + [x[2] == BUF or 'unknown' for x in t if x[0] == 'split']
        if True in r:
            rep.count('obligations')
        elif 'unknown' in r or not any(x[0] == 'call' and x[1].callee == 'writeSourceToBuffer' for x in t):
            if 'unknown' not in r and t[-1][0] == 'ret' and isinstance(t[-1][2], Lin) and t[-1][2].const not in (None, 0):
                rep.violation('nothing', '%s(): success without anything having been written (%s)' % (f.name, loc(i)))
        else:
            rep.violation('written', '%s(): there is a path on which the text of the database is not written in full and no error is shown (%s)'
                          % (f.name, loc(next((x[1] for x in reversed(t) if x[0] == 'call'), i))))


P1, P2, E1, E2 = (sym(x) for x in ('cmdPos1', 'cmdPos2', 'endPos1', 'endPos2'))
FN = S('includeFn')


def command(p):
    """the pieces are  $[ includeFn $]"""
    return len(p) == 3 and p[0][0] == 'lit' and p[0][1].split() == ['$['] and p[0][1][-1:].isspace() and p[1] == ('sym', 'includeFn') and \
        p[2][0] == 'lit' and p[2][1].split() == ['$]'] and p[2][1][:1].isspace()


def split(m, rep, nr):
    f, = need(m, 'writeSplitSource')
    need(m, 'getNextInclusion')
    rep.rule('writeSplitSource(), one round for each kind of inclusion and each path: the text before and after stays, the section '
             'goes to the included file, the inclusion command takes its place; at the end the text is written, is there already or an error is shown')
    found = list(f.calls('getNextInclusion'))
    if len(found) != 1:
        rep.count('not decided')
        return
    g = found[0]
    k = next(k for k, j in enumerate(f.blocks[g.block]) if j.id == g.id) + 1
    CELL = ('deref', S(('arg', 0)))

    def handle(w, st, i, a):
        c = i.callee
        if c == 'let' and isinstance(a[0], Str):
            st.mem[('deref', a[0])] = a[1] if isinstance(a[1], Str) else S(('v', i.id))
            return Lin(0)
        if c == 'writeSplitSource':
            kk = a[0][1] if isinstance(a[0], tuple) and a[0][0] == 'A' else CELL if a[0] == S(('arg', 0)) else None
            st.trail.append(('rec', i, st.mem.get(kk), a[1]))
            if kk is not None:
                st.mem[kk] = S(('v', i.id))
            return sym(('v', i.id))
        if c == 'readFileToString':
            return S(('file', i.id))
        if c in ('print2', 'fclose', 'ferror', 'rename', 'fprintf', 'fputs'):
            return sym(('v', i.id))
        if c == 'strcmp':
            return sym(('strcmp', a[0], a[1]))
        return None
    probe = trace.State()
    probe.env, probe.mem, probe.rng, probe.trail, probe.heads, probe.epoch = {}, {}, {}, [], {}, 0
    stop = lambda i: i.id == g.id
    w0 = trace.Walk(f, nr, (0, 0), stop, handle, through=g.block)
    init = {CELL: T}
    for n, v in ((2, P1), (3, P2), (4, E1), (5, E2), (6, None), (7, FN)):
        key = w0.key(probe, g.ops[n])
        if key is None:
            rep.count('not decided')
            return
        init[key] = v
        if v is None:
            ck = key
    for end, i, st in w0.paths:
        if end == 'stop':
            rep.count('obligations')
            if w0.val(st, g.ops[1]) != Lin(0):
                rep.violation('start', '%s(): the search for inclusions does not begin at the start of the text (%s)' % (f.name, loc(g)))
    for kd in 'BSIEN':
        ini = dict(init)
        ini[ck] = Lin(ord(kd))
        w = trace.Walk(f, nr, (g.block, k), stop, handle, ini, through=g.block)
        if w.over:
            rep.count('not decided')
            continue
        for end, i, st in w.paths:
            rep.count('paths')
            t = st.trail
            if end == 'ret' and kd == 'N':
                rep.count('obligations')
                if any(asked(x) for x in t):
                    continue
                r = [put(x, T) for x in t]
                same = any(x[0] == 'fact' and x[2] == 'eq' and isinstance(x[3], Lin) and x[3].const == 0 and isinstance(x[1], Lin) and
                           len(x[1].t) == 1 and isinstance(x[1].t[0][0], tuple) and x[1].t[0][0][0] == 'strcmp' and T in x[1].t[0][0][1:] for x in t)
                if True not in r and not same and 'unknown' not in r:
                    rep.violation('end', '%s(): there is a path on which the text of a file is neither written nor there already (%s)' % (f.name, loc(i)))
            if end != 'stop' or kd not in 'BS':
                if end == 'ret' and kd in 'BS' and not any(asked(x) for x in t):
                    rep.violation('early|' + kd, '%s(): the splitting ends before all inclusions are processed (%s)' % (f.name, loc(i)))
                continue
            text = st.mem.get(CELL)
            rec = [x for x in t if x[0] == 'rec']
            if kd == 'B':
                if len(rec) != 1:
                    rep.violation('section', '%s(): the section of an included file is %s (%s)' % (f.name, 'written twice' if rec else 'dropped', loc(g)))
                elif isinstance(rec[0][2], Str) and rec[0][2] != Str([('cut', 'T', P2, E1)]) and all(x[0] == 'lit' or x[1] in ('T', 'includeFn') for x in rec[0][2].p):
                    rep.violation('section text', '%s(): what goes to the included file is  %s  (%s)' % (f.name, rec[0][2], loc(rec[0][1])))
                elif isinstance(rec[0][3], Str) and rec[0][3] != FN and rec[0][3].p and rec[0][3].p[0] in (('sym', 'T'), ('sym', ('arg', 1))):
                    rep.violation('section name', '%s(): the section goes to another file (%s)' % (f.name, loc(rec[0][1])))
            if not isinstance(text, Str):
                rep.count('not decided')
                continue
            rep.count('obligations')
            after = E2 if kd == 'B' else P2
            p = text.p
            good = len(p) == 5 and p[0] == ('cut', 'T', Lin(1), P1) and p[4] == ('cut', 'T', after, END) and command(p[1:4])
            what = '"$( Begin $["' if kd == 'B' else '"$( Skip $["'
            if not good:
                known = all(x[0] == 'lit' or x[1] in ('T', 'includeFn', ('arg', 1)) for x in p)
                if known:
                    rep.violation('text|' + kd, '%s(): after a %s the text becomes  %s  (%s)' % (f.name, what, text, loc(g)))
                else:
                    rep.count('not decided')
                continue
            pos = w.val(st, g.ops[1])
            if isinstance(pos, Lin):
                d = pos - (P1 - 1 + Str(p[1:4]).length())
                mine = all(x in ('cmdPos1', 'cmdPos2', 'endPos1', 'endPos2') or x in dict(Str(p[1:4]).length().t) for x, n in d.t)
                if mine and (d.const is None or d.const > 1 or d.const < -3):
                    rep.violation('position|' + kd, '%s(): after a %s the search goes on at the wrong place (%s)' % (f.name, what, pos))


def check(m, rep):
    nr = noreturn(m)
    buffer(m, rep, nr)
    files(m, rep, nr)
    split(m, rep, nr)
    rep.atleast('paths', 8)
