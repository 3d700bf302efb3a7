"""C34: WRITE SOURCE /EXTRACT writes everything the extracted statements need."""
import re
import ir
import flow
import sem
from ir import loc, opexpr
from common import *
from sem import X, facts
from closure import (YES, NO, lin, at, cell, stored, Scan, Round, report, assertion)

TYPES = (('a', 97), ('p', 112), ('e', 101), ('f', 102), ('{', 123), ('}', 125), ('c', 99), ('v', 118), ('d', 100))
FIELD = re.compile(r'ld\(ld\(ld\(&g_Statement\)\[(.*)\]\.(\w+)\)\[(.*)\]\)$')


def typed(fa, v, out):
    a, p, c, ao, co = fa
    if a == 'ld(ld(&g_Statement)[%s].type)' % v and p in ('eq', 'ne'):
        for nm, k in TYPES:
            if c == str(k):
                out.add(('not ' if p == 'ne' else 'is ') + nm)
                if p == 'eq':
                    out |= {'not ' + n2 for n2, k2 in TYPES if k2 != k}


def flag(f, fa, N, v, out):
    a, p, c, ao, co = fa
    e = at(f, ao)
    if e and e[0] == N and X(f, e[1]) == v:
        if (p == 'ne' and c == str(YES)) or (p == 'eq' and c == str(NO)):
            out.add('unneeded')
        elif (p == 'eq' and c == str(YES)) or (p == 'ne' and c == str(NO)):
            out.add('needed')


class Target:
    """A place where statements named by a list of statement S are marked."""

    def __init__(self, f, i, N):
        self.i, self.ok = i, False
        t = X(f, stored(i)[1])
        self.text = t
        self.token = False
        mm = re.match(r'ld\(ld\(&g_MathToken\)\[(.*)\]\.statement\)$', t)
        if mm:
            self.token = True
            t = mm.group(1)
        mm = FIELD.match(t)
        self.field = self.S = None
        if mm:
            self.S, self.field, self.k = mm.groups()
        else:
            mm = re.match(r'ld\(ld\((&\w+)\)\[(.*)\]\)$', t)
            if not mm:
                return
            var, self.k = mm.groups()
            for c in f.calls('nmbrLet'):
                src = re.match(r'ld\(ld\(&g_Statement\)\[(.*)\]\.(\w+)\)$', opexpr(f, c.ops[1]))
                if opexpr(f, c.ops[0]) == var and src and f.dominates(c.block, i.block):
                    self.S, self.field = src.groups()
        self.ok = self.field is not None


def index_op(f, i, text):
    """operand with this text among what the address of a store is computed from"""
    st, seen = [i.ops[1]], set()
    while st:
        o = flow.strip(f, st.pop())
        if o[0] != 'v' or o[1] < f.nargs or o[1] in seen:
            continue
        seen.add(o[1])
        if opexpr(f, o) == text:
            return o
        j = f.inst[o[1]]
        if j.op in ('phi', 'call'):
            continue
        if j.op == 'getelementptr':
            st.append(j.ops[0])
            st += [e[1] for e in j.path if isinstance(e[1], (list, tuple))]
        else:
            st += j.ops
    return None


# field, through the token table, kinds of statement that have it
NEEDED = (('reqHypList', False, 'ap', 'a hypothesis'), ('optHypList', False, 'ap', 'a hypothesis that a proof may use'),
          ('reqDisjVarsStmt', False, 'ap', 'a $d statement'), ('optDisjVarsStmt', False, 'ap', 'a $d statement that a proof may use'),
          ('optVarList', True, 'ap', 'the declaration of a variable'),
          ('mathString', True, 'apef', 'the declaration of a symbol'))
OPTIONAL = (('reqVarList', True, 'ap', 'the declaration of a variable'),)


def outer_round(f, rep, nr, N, loop, S, kinds, inner, what, key):
    """each needed statement of these kinds gets to the inner loop"""
    def names(fa):
        out = set()
        typed(fa, S, out)
        flag(f, fa, N, S, out)
        return out

    def event(i):
        if i.block == inner:
            yield 'visited'

    def judge(n, g):
        if 'visited' in n or 'unneeded' in n or all('not ' + k in n for k in kinds):
            return None
        return 'left out'
    o = None
    sc = None
    for ph in flow.phis(f, loop[0]):
        for c in [['v', ph.id]]:
            if opexpr(f, c) == S:
                o = c
    if o is None:
        mm = re.match(r'add\((phi\d+),(-?\d+)\)$', S)
        for ph in flow.phis(f, loop[0]):
            if mm and opexpr(f, ['v', ph.id]) == mm.group(1):
                for b in loop[1]:
                    for i in f.blocks[b]:
                        if i.op == 'add' and opexpr(f, ['v', i.id]) == S:
                            o = ['v', i.id]
    if o is None:
        return
    sc = Scan(f, loop, o)

    class R(Round):
        def left(self, n):
            return 'left out, the scan ends early'
    mon = R(f, nr, loop, names, event, judge, (), None, sc.norm, start=(loop[0], 0))
    mon.init = (frozenset(), frozenset(), ())
    report(rep, f, mon, key, '%s of a statement that is needed is %%(what)s' % what)
    rep.count('scans', sc.ok)
    msg = sc.complaint((None, 1), lambda b: 0 if b == 'ld(&g_statements)' else None)
    if msg:
        rep.violation('scan|%s|%s' % (f.name, key), '%s(): the scan of the statements for %s %s (%s)'
                      % (f.name, what, msg, loc(f.blocks[loop[0]][-1])))


def lists(f, rep, nr, N, stores):
    got = {}
    for i in stores:
        t = Target(f, i, N)
        ls = sem.loops_of(f, i.block)
        if t.ok and len(ls) >= 2:
            got.setdefault((t.field, t.token), []).append((t, ls))
    heads = {}
    unknown = [i for i in stores if not Target(f, i, N).ok and len(sem.loops_of(f, i.block)) >= 2
               and not re.search(r'copeStatementNum', X(f, stored(i)[1])) and not re.match(r'(add\()?phi\d+(,-?\d+\))?$', X(f, stored(i)[1]))]
    for field, token, kinds, what in NEEDED + OPTIONAL:
        if (field, token) not in got:
            if (field, token, kinds, what) in NEEDED and not unknown:
                rep.violation('list|%s|%s' % (f.name, field), '%s(): nothing marks %s of a statement that is needed (%s)'
                              % (f.name, what, field))
            continue
        t, ls = got[(field, token)][0]
        rep.count('obligations')
        inner, outer = ls[0], ls[1]
        key = 'list ' + field

        def event(i, t=t, N=N):
            s = stored(i)
            if s and s[0] == N and i.ops[0] == ['c', YES] and X(f, s[1]) == t.text:
                yield 'marked'

        def names(fa, t=t):
            out = set()
            a, p, c, ao, co = fa
            e = at(f, ao)
            if e and e[0] == N and X(f, e[1]) == t.text and ((p == 'eq' and c == str(YES)) or (p == 'ne' and c == str(NO))):
                out.add('marked')
            return out
        k = index_op(f, t.i, t.k)
        sc = Scan(f, inner, k) if k is not None else None
        if sc is None:
            continue
        mon = Round(f, nr, inner, names, event, lambda n, g: None if 'marked' in n else 'left out', (), None, sc.norm,
                    start=(inner[0], 0))
        mon.init = (frozenset(), frozenset(), ())
        report(rep, f, mon, key, '%s in the list of a statement that is needed is %%(what)s' % what)
        rep.count('scans', sc.ok)
        src = 'ld(ld(&g_Statement)[%s].%s)' % (t.S, field)
        alt = {'reqHypList': 'numReqHyp', 'mathString': 'mathStringLen'}.get(field)

        def high(b, src=src, alt=alt, t=t):
            if b is None:
                return None
            if b.startswith('nmbrLen(') and (src in b or re.match(r'nmbrLen\(ld\(&\w+\)\)#\d+$', b)):
                return -1
            return -1 if alt and b == 'ld(ld(&g_Statement)[%s].%s)' % (t.S, alt) else None
        msg = sc.complaint((None, 0), high)
        if msg:
            rep.violation('scan|%s|%s entries' % (f.name, key), '%s(): the scan of the list with %s %s (%s)'
                          % (f.name, what, msg, loc(f.blocks[inner[0]][-1])))
        # wrong length: that of another list
        if sc.ok and sc.last[0]:
            mm = re.match(r'nmbrLen\(ld\(ld\(&g_Statement\)\[(.*)\]\.(\w+)\)\)#\d+$', sc.last[0])
            pair = {'reqDisjVarsStmt': ('reqDisjVarsA', 'reqDisjVarsB'), 'optDisjVarsStmt': ('optDisjVarsA', 'optDisjVarsB')}
            if mm is None:
                mm = re.match(r'ld\(ld\(&g_Statement\)\[(.*)\]\.(numReqHyp|mathStringLen)\)$', sc.last[0])
                if mm and mm.group(2) == alt:
                    mm = None
            if mm and mm.group(2) != field and mm.group(2) not in pair.get(field, ()):
                rep.violation('scan|%s|%s length' % (f.name, key), '%s(): the scan of the list with %s goes up to the length of '
                              'another list (%s) (%s)' % (f.name, what, mm.group(2), loc(f.blocks[inner[0]][-1])))
        outer_round(f, rep, nr, N, outer, t.S, kinds, inner[0], what, key)
        heads[field] = (outer, inner)
    return heads


def scopes(f, rep, nr, N, stores):
    """${ and $} around what is needed"""
    begin = [i for i in stores if X(f, stored(i)[1]).endswith('.beginScopeStatementNum)') or
             'beginScopeStatementNum' in X(f, stored(i)[1])]
    end = [i for i in stores if X(f, stored(i)[1]).endswith('.endScopeStatementNum)')]
    begin = [i for i in begin if i not in end]
    for i in (end if not begin else begin if not end else ()):
        l = sem.loop_of(f, i.block)
        if l and any(j is not i and j.block in l[1] and not FIELD.match(X(f, stored(j)[1])) for j in stores):
            return None
    if not begin and not end:
        if not any('copeStatementNum' in opexpr(f, o) for i in f.insts() if i.op == 'load' for o in i.ops):
            rep.violation('scope|%s|none' % f.name, '%s(): the ${ and $} around what is needed are not marked' % f.name)
        return None
    for what, x, other in (('${', begin, end), ('$}', end, begin)):
        if not x:
            rep.violation('scope|%s|%s' % (f.name, what), '%s(): the %s around what is needed is not marked' % (f.name, what))
    if not begin or not end:
        return None
    ls = sem.loops_of(f, begin[0].block)
    if len(ls) < 2:
        rep.violation('scope|%s|one' % f.name, '%s(): only the innermost scope around what is needed is marked (%s)'
                      % (f.name, loc(begin[0])))
        return ls[0] if ls else None
    inner, outer = ls[0], ls[1]
    rep.count('obligations')
    bt, et = X(f, stored(begin[0])[1]), X(f, stored(end[0])[1])

    def names(fa):
        out = set()
        a, p, c, ao, co = fa
        if a == bt and ((p == 'eq' and c == '0') or (p in ('slt', 'sle', 'ult', 'ule') and c in ('0', '1'))):
            out.add('outermost')
        e = at(f, ao)
        if e and e[0] == N and X(f, e[1]) == bt and ((p == 'eq' and c == str(YES)) or (p == 'ne' and c == str(NO))):
            out.add('known')
        return out

    def event(i):
        s = stored(i)
        if s and s[0] == N and i.ops[0] == ['c', YES]:
            if X(f, s[1]) == bt:
                yield 'begin'
            if X(f, s[1]) == et:
                yield 'end'

    def judge(n, g):
        if 'begin' not in n and 'known' not in n:
            return 'whose ${ is left out'
        if 'end' not in n and 'known' not in n:
            return 'whose $} is left out'
        return None

    class R(Round):
        def left(self, n):
            return None if n & {'outermost', 'known'} else 'while there may be another scope around it, is not looked at further'
    mon = R(f, nr, inner, names, event, judge, (), None, {(-1, -1)}, start=(inner[0], 0))
    mon.init = (frozenset(), frozenset(), ())
    report(rep, f, mon, 'scope', 'a scope around a statement that is needed, %(what)s')
    # each round goes to the next outer scope
    for ph in flow.phis(f, inner[0]):
        backs = [X(f, o) for o, b in ph.ops if b in inner[1]]
        outs = [X(f, o) for o, b in ph.ops if b not in inner[1]]
        if len(outs) == 1 and 'phi%d' % ph.id in bt and backs and all(x != bt for x in backs) and \
                all('copeStatementNum' in x for x in backs):
            rep.violation('scope|%s|next' % f.name, '%s(): the search for scopes does not go on from the ${ found (%s)'
                          % (f.name, loc(begin[0])))
        if len(outs) == 1 and 'phi%d' % ph.id in bt:
            outer_round(f, rep, nr, N, outer, outs[0], 'ap', inner[0], 'the scope', 'scope')
    return outer, inner


def trace(f, rep, nr, N, stores):
    """the statements asked for and what their proofs refer to"""
    c = [i for i in f.calls('traceProofWork') if sem.loop_of(f, i.block)]
    if not c:
        return None
    c = c[0]
    l = sem.loop_of(f, c.block)
    S = X(f, c.ops[0])
    rep.count('obligations')
    if c.ops[1][0] == 'c' and c.ops[1][1] != 0:
        rep.violation('trace|%s|essential' % f.name, '%s(): only the essential steps of the proofs are traced (%s)' % (f.name, loc(c)))
    used = 'ld(%s)' % opexpr(f, c.ops[3])
    ors = [i for i in stores if i.block in l[1] and sem.loop_of(f, i.block)[1] < l[1]]
    inner = sem.loop_of(f, ors[0].block) if ors else None

    def names(fa):
        out = set()
        typed(fa, S, out)
        flag(f, fa, N, S, out)
        a, p, x, ao, co = fa
        if a.startswith('matchesList(') and p == 'eq' and x == '0':
            out.add('unmatched')
        return out

    def event(i):
        s = stored(i)
        if s and s[0] == N and i.ops[0] == ['c', YES] and X(f, s[1]) == S:
            yield 'marked'
        if i is c:
            yield 'traced'
        if inner is not None and i.block == inner[0]:
            yield 'taken'

    def judge(n, g):
        if n & {'unmatched', 'needed'} or {'not a', 'not p'} <= n:
            return None
        if 'is p' in n:
            return None if {'traced', 'taken'} <= n else 'left out with what its proof refers to'
        return None if 'marked' in n or {'traced', 'taken'} <= n else 'left out'

    class R(Round):
        def left(self, n):
            return 'left out, the scan ends early'
    sc = Scan(f, l, c.ops[0])
    mon = R(f, nr, l, names, event, judge, (), None, sc.norm, start=(l[0], 0))
    mon.init = (frozenset(), frozenset(), ())
    report(rep, f, mon, 'trace', 'a statement that is asked for is %(what)s')
    rep.count('scans', sc.ok)
    msg = sc.complaint((None, 1), ('ld(&g_statements)', 0))
    if msg:
        rep.violation('scan|%s|trace' % f.name, '%s(): the scan for the statements asked for %s (%s)' % (f.name, msg, loc(c)))
    if inner is None:
        rep.violation('trace|%s|or' % f.name, '%s(): what the traced proof refers to is not taken over (%s)' % (f.name, loc(c)))
        return l
    w = X(f, stored(ors[0])[1])

    def names2(fa):
        a, p, x, ao, co = fa
        e = at(f, ao)
        if e and X(f, e[1]) == w:
            if e[0] == used and ((p == 'ne' and x == str(YES)) or (p == 'eq' and x == str(NO))):
                yield 'unused'
            if e[0] == N and ((p == 'eq' and x == str(YES)) or (p == 'ne' and x == str(NO))):
                yield 'unused'

    def event2(i):
        s = stored(i)
        if s and s[0] == N and i.ops[0] == ['c', YES] and X(f, s[1]) == w:
            yield 'marked'
    s2 = Scan(f, inner, stored(ors[0])[1])
    mon = Round(f, nr, inner, names2, event2, lambda n, g: None if n else 'left out', (), None, s2.norm, start=(inner[0], 0))
    mon.init = (frozenset(), frozenset(), ())
    report(rep, f, mon, 'trace use', 'a statement that a traced proof refers to is %(what)s')
    rep.count('scans', s2.ok)
    msg = s2.complaint((None, 1), lambda b: 0 if b in ('ld(&g_statements)', S) else None)
    if msg:
        rep.violation('scan|%s|trace use' % f.name, '%s(): the scan of what a traced proof refers to %s (%s)' % (f.name, msg, loc(c)))
    return l


class Out(Round):
    """A needed statement is written with all its parts."""

    def step(self, st, i):
        st = Round.step(self, st, i)
        if st is None or i.op != 'call':
            return st
        la, lo, gr = st
        if lo is None:
            return st
        f = self.f
        if i.callee in ('memcpy', 'llvm.memcpy.p0.p0.i64', 'let', 'getDescriptionAndLabel') or (i.callee or '').startswith('llvm.memcpy'):
            src = ' '.join(opexpr(f, o) for o in i.ops[1:2])
            for part in ('mathSectionPtr', 'proofSectionPtr', 'labelSectionPtr'):
                if '[%s].%s' % (self.S, part) in src:
                    lo = (lo - {'pending math', 'pending proof'}) | {'pending ' + part[:-10]}
        if i.callee in ('fprintf', 'fputs', 'fwrite', 'fputc', 'putc', '_IO_putc'):
            txt = [opexpr(f, o) for o in i.ops]
            if i.callee not in ('fprintf', 'fwrite'):
                txt = ['', ''] + txt
            for p in ('math', 'proof'):
                if 'pending ' + p in lo and any(t.startswith('ld(&') for t in txt[1:]):
                    lo = (lo - {'pending ' + p}) | {'wrote ' + p}
            for p in ('mathSectionPtr', 'proofSectionPtr'):
                if any('[%s].%s' % (self.S, p) in t for t in txt):
                    lo |= {'wrote ' + p[:-10]}
            if any('[%s].type' % self.S in t for t in (txt[2:] if i.callee != 'fwrite' else txt)):
                lo |= {'wrote type'}
            if any(t.startswith('ld(&') for t in txt[1:]) and 'got label' in lo:
                lo |= {'wrote label'}
        if i.callee == 'getDescriptionAndLabel' and X(f, i.ops[0]) == self.S:
            lo |= {'got label'}
        return (la, lo, gr)


def output(f, rep, nr, N):
    for c in f.calls('getDescriptionAndLabel'):
        l = sem.loop_of(f, c.block)
        if l is None:
            continue
        S = X(f, c.ops[0])
        rep.count('obligations')

        def names(fa):
            out = set()
            typed(fa, S, out)
            flag(f, fa, N, S, out)
            a, p, x, ao, co = fa
            if a == S and p == 'eq' and x == 'add(ld(&g_statements),1)':
                out.add('end')
            return out

        def judge(n, g):
            if 'unneeded' in n or 'end' in n:
                return None
            for p, what in (('wrote label', 'its label'), ('wrote type', 'its keyword')):
                if p not in n:
                    return 'without ' + what
            if 'wrote math' not in n and not n & {'is {', 'is }'}:
                return 'without its symbols'
            if 'wrote proof' not in n and not ('not p' in n or n & {'is {', 'is }'}):
                return 'without its proof'
            return None

        class O(Out):
            def left(self, n):
                return 'as the last although others follow'
        sc = Scan(f, l, c.ops[0])
        mon = O(f, nr, l, names, lambda i: (), judge, (), None, sc.norm, start=(l[0], 0))
        mon.S = S
        mon.init = (frozenset(), frozenset(), ())
        report(rep, f, mon, 'output', 'a statement that is needed is written %(what)s')
        rep.count('scans', sc.ok)
        msg = sc.complaint((None, 1), ('ld(&g_statements)', 0))
        if msg:
            rep.violation('scan|%s|output' % f.name, '%s(): the scan that writes the statements %s (%s)' % (f.name, msg, loc(c)))
        return l


def follows(f, a, b):
    """can loop b be entered after loop a was?"""
    seen, st = set(), [a[0]]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st += f.succ[x]
    return b[0] in seen


def check(m, rep):
    nr = noreturn(m)
    f, = need(m, 'writeExtractedSource')
    tr = [i for i in f.calls('traceProofWork')]
    st = {}
    for i in f.insts():
        s = stored(i)
        if s and i.ops[0] == ['c', YES]:
            st.setdefault(s[0], []).append(i)
    if not st:
        raise Broken('writeExtractedSource() marks no statements')
    N = max(st, key=lambda k: len(st[k]))
    stores = st[N]
    rep.count('marks', len(stores))
    t = trace(f, rep, nr, N, stores)
    sco = scopes(f, rep, nr, N, stores)
    heads = lists(f, rep, nr, N, stores)
    o = output(f, rep, nr, N)
    order = [('the trace', t)] + [(k, heads[k][0]) for k in heads if k != 'mathString']
    if sco and isinstance(sco, tuple) and len(sco) == 2 and isinstance(sco[0], tuple):
        order.append(('scopes', sco[0]))
    ms = heads.get('mathString', (None,))[0]
    for nm, l in order:
        if l is None:
            continue
        for nm2, l2 in [(nm3, l3) for nm3, l3 in order if nm == 'the trace' and nm3 != nm] + \
                ([('mathString', ms)] if ms is not None and nm not in ('scopes', 'reqVarList', 'optVarList') else []) + \
                ([('output', o)] if o is not None else []):
            if l2 is None or l2[0] == l[0]:
                continue
            rep.count('obligations')
            if not follows(f, l, l2):
                rep.violation('order|%s|%s before %s' % (f.name, nm2, nm), '%s(): what %s marks is marked only after the step (%s) that '
                              'would have to follow it up (%s)' % (f.name, nm, nm2, loc(f.blocks[l[0]][-1])))
    rep.rule('extract: each list a needed statement depends on is gone through in full for each needed statement, in an order that '
             'reaches everything, and each needed statement is written with all its parts')
