"""C22: what MINIMIZE_WITH may try and keep."""
import re
import ir
import flow
import sem
from ir import loc, opexpr
from common import *
from pa import command_loop
from oblig import Must
from paths import Path, entry

TYPE = re.compile(r'^ld\(ld\(&g_Statement\)\[(.*)\]\.type\)$', re.S)
LABEL = re.compile(r'^ld\(ld\(&g_Statement\)\[(.*)\]\.labelName\)$', re.S)
DISJ = re.compile(r'^nmbrLen\(ld\(ld\(&g_Statement\)\[(.*)\]\.reqDisjVars[AB]\)\)(#\d+)?$', re.S)
QUAL = ('EXCEPT', 'INCLUDE_MATHBOXES', 'MAY_GROW')
GLOBALS = ('ld(&g_proveStatement)', 'ld(&g_mathboxStmt)')
PIP = '&g_ProofInProgress'


def list_cells(f):
    """{qualifier: cells (texts) that hold its list argument}"""
    r = {}
    for i in f.calls('let'):
        a = sem.alloca_of(f, i.ops[0])
        t = opexpr(f, i.ops[1])
        m = re.search(r'g_fullArg\)\[switchPos\("(\w+)"\)', t)
        if a is not None and m:
            r.setdefault(m.group(1), set()).add('ld(%s)' % opexpr(f, i.ops[0]))
    return r


class Min(Path):
    def __init__(self, f, nr, start, hdr):
        allo = {i.id for i in f.insts() if i.op == 'alloca'}
        Path.__init__(self, f, nr, start, hdr, cells=allo, command='MINIMIZE_WITH', merges=False)
        self.lists = list_cells(f)
        self.calls = [i for i in f.calls('minimizeProof')]
        self.loops = {}
        for i in self.calls:
            for l in sem.loops_of(f, i.block):
                if l[0] != hdr:
                    self.loops[i.id] = l
                    break
        self.flagcells = {'k': set(), 'p': set()}
        for i in f.calls('traceProofWork'):
            for o in i.ops[3:4]:
                a = sem.alloca_of(f, o)
                if a is not None and any(i.block in l[1] for l in self.loops.values()):
                    kind = 'p' if opexpr(f, i.ops[0]) == 'ld(&g_proveStatement)' else 'k'
                    self.flagcells[kind].add('ld(%s)' % opexpr(f, o))
        self.text = {c[1] for i in f.calls('instr') if len(i.ops) == 3 for c in [i.ops[2]] if c[0] == 's'}
        self.rounds = 0
        # the loop over the axioms
        self.axloops = {}
        for i in f.insts():
            if i.op == 'getelementptr' and opexpr(f, i.ops[0]) in self.flagcells['k'] and len(i.path) == 1:
                l = sem.loop_of(f, i.block)
                if l and l[0] not in {x[0] for x in self.loops.values()} and l[0] != hdr:
                    self.axloops[l[0]] = l
        if not self.axloops:
            # leaving blocks are outside the natural loop: take any loop that reads the flags of the proof
            for i in f.insts():
                if i.op == 'getelementptr' and opexpr(f, i.ops[0]) in self.flagcells['p']:
                    l = sem.loop_of(f, i.block)
                    if l and l[0] not in {x[0] for x in self.loops.values()} and l[0] != hdr:
                        self.axloops[l[0]] = l

    # --- points
    def due(self, st, inst, label, ok):
        self.points.add((inst.id, label))
        if not ok:
            self.err(inst, label)

    def binds(self, o):
        v = self.f.val(o)
        return o[0] == 'c' or v is not None and (v.op in ('phi', 'icmp', 'zext', 'select') or v.is_call('instr'))

    def on_inst(self, st, i):
        f = self.f
        if i.op == 'call':
            n = i.callee
            if n == 'bug' and any(x[0] == 'called' for x in st):
                self.due(st, i, 'a trial that makes the compressed proof larger gets as far as an internal error', ('q1', 'MAY_GROW') in st or not any(x[0] == 'big' for x in st))
            if n == 'minimizeProof':
                K = self.T(st, i.ops[0])
                self.due(st, i, 'a statement that is not an assertion may be tried', ('type', K, 97) in st or ('type', K, 112) in st)
                self.due(st, i, 'a statement that does not match the list given by the user may be tried', ('match', K) in st)
                self.due(st, i, 'a statement excluded by EXCEPT may be tried', ('q0', 'EXCEPT') in st or ('nomatch', 'EXCEPT', K) in st)
                self.due(st, i, 'a statement excluded by FORBID may be tried', ('empty', 'FORBID') in st or ('nomatch', 'FORBID', K) in st)
                self.due(st, i, 'a statement of another mathbox may be tried without INCLUDE_MATHBOXES', ('mbox', K) in st or
                         ('q1', 'INCLUDE_MATHBOXES') in st)
                sv = frozenset(('before', x[1]) for x in st if x[0] == 'saved')
                st = frozenset(x for x in st if x[0] not in ('saved', 'before', 'called', 'kept', 'axioms', 'traced', 'small', 'big', 'eqnew', 'verified',
                                                            'sev', 'disj', 'notrace', 'zapped', 'new', 'good', 'reverted'))
                return st | sv | {('called', i.id, K)}
            if n == 'copyProofStruct':
                d, s = self.raw(i.ops[0]), self.raw(i.ops[1])
                if d == PIP:
                    if any(x[0] == 'called' for x in st):
                        self.due(st, i, 'a rejected trial is not undone by a copy of the proof from just before it', ('before', s) in st or ('saved', s) in st)
                    st = frozenset(x for x in st if x[0] not in ('saved', 'called')) | {('saved', s)}
                    st = st | frozenset(('saved', x[1]) for x in st if x[0] == 'before')
                    return st
                st = frozenset(x for x in st if not (x[0] in ('saved', 'before') and x[1] == d))
                if s == PIP:
                    st = st | {('saved', d)}
                return st
            if n == 'traceProofWork' and any(x[0] == 'called' for x in st):
                st = st | {('traced', self.T(st, i.ops[0]))}
            elif n == 'let':
                t = opexpr(f, i.ops[1])
                d = self.raw(i.ops[0])
                st = frozenset(x for x in st if not (x[0] == 'comp' and x[1] == d))
                if t.startswith('compressProof('):
                    # the compressed form of the current proof when the list was squished from it after the trial
                    src = i.ops[1]
                    v = f.val(flow.strip(f, src))
                    if v is not None and v.op == 'call' and ('sq', self.raw(v.ops[0])[3:-1]) in st:
                        st = st | {('comp', d)}
                if d == '&g_printString':
                    st = frozenset(x for x in st if x[0] != 'verified')
            elif n == 'nmbrLet':
                d = self.raw(i.ops[0])
                st = frozenset(x for x in st if not (x[0] == 'sq' and x[1] == d))
                t = opexpr(f, i.ops[1])
                if 'nmbrSquishProof(ld(&g_ProofInProgress))' in t and any(x[0] == 'called' for x in st):
                    st = st | {('sq', d)}
            elif n == 'strlen' and ('comp', self.raw(i.ops[0])[3:-1]) in st and any(x[0] == 'called' for x in st):
                st = frozenset(x for x in st if x[0] not in ('new', 'eqnew')) | {('new', i.id)}
            elif n == 'verifyProof' and ('capture',) in st and ('zapped',) in st and self.T(st, i.ops[0]) == 'ld(&g_proveStatement)':
                st = st | {('verified',)}
            elif n == 'instr' and ('verified',) in st and len(i.ops) == 3 and self.raw(i.ops[1]) == 'ld(&g_printString)' and i.ops[2][0] == 's' \
                    and i.ops[2][1].startswith('There is a disjoint'):
                st = st | {('good', i.id)}
        elif i.op == 'load':
            if opexpr(f, i.ops[0]) == '&g_WrkProof.errorSeverity' and ('verified',) in st:
                st = st | {('good', i.id)}
        elif i.op == 'store':
            g = global_store_name(f, i)
            if g == 'g_outputToString':
                st = frozenset(x for x in st if x[0] != 'capture')
                if i.ops[0] == ['c', 1]:
                    st = st | {('capture',)}
            t = opexpr(f, i.ops[1])
            if t.endswith('.proofSectionPtr') and any(x[0] == 'called' for x in st):
                v = self.raw(i.ops[0])
                st = frozenset(x for x in st if x[0] != 'zapped')
                if v.startswith('ld(&') and ('compz', v[3:-1]) in st or ('comp', v[3:-1]) in st:
                    st = st | {('zapped',)}
        return st

    def keep(self, st, i, a):
        d = self.raw(['v', a])
        r = set()
        if i.callee == 'let':
            t = opexpr(self.f, i.ops[1])
            if t.startswith('cat(') and 'ld(%s)' % d in t and any(x in st for x in (('comp', d), ('compz', d))):
                r.add(('compz', d))
            elif ('comp', d) in st:
                r.add(('comp', d))
        return frozenset(r)

    def step(self, st, i):
        f = self.f
        if i.is_call('let'):
            d = self.raw(i.ops[0])
            had = ('comp', d) in st or ('compz', d) in st
            t = opexpr(f, i.ops[1])
            st2 = Path.step(self, st, i)
            if st2 is not None and had and t.startswith('cat(') and 'ld(%s)' % d in t:
                st2 = st2 | {('compz', d)}
            return st2
        return Path.step(self, st, i)

    def on_facts(self, st, b, t, fs):
        f = self.f
        add = set()
        for a, p, c, ao, co in fs:
            m = TYPE.match(a)
            if m and co[0] == 'c':
                if p == 'eq':
                    add.add(('type', m.group(1), co[1]))
                elif p == 'ne':
                    add.add(('ntype', m.group(1), co[1]))
            v = f.val(ao)
            if c == '0' and v is not None and v.op == 'call':
                pos = p in ('ne', 'sgt')
                n = v.callee
                if n == 'matchesList':
                    l, what = LABEL.match(self.T(st, v.ops[0])), self.raw(v.ops[1])
                    if l:
                        K = l.group(1)
                        if what == 'ld(ld(&g_fullArg)[1])' and pos:
                            add.add(('match', K))
                        q = re.search(r'g_fullArg\)\[switchPos\("(\w+)"\)', what)
                        qs = {q.group(1)} if q else {x for x, cs in self.lists.items() if what in cs}
                        for x in qs:
                            add.add(('domatch' if pos else 'nomatch', x, K))
                elif n == 'switchPos' and v.ops[0][0] == 's' and v.ops[0][1] in QUAL:
                    add.add(('q1' if pos else 'q0', v.ops[0][1]))
                elif n == 'traceProof' and p == 'eq':
                    for x, cs in self.lists.items():
                        if self.raw(v.ops[3]) in cs and v.ops[1] == ['c', 0] and v.ops[2] == ['c', 0]:
                            add.add(('notrace', x, self.T(st, v.ops[0])))
                elif n == 'nmbrEq' and not p == 'eq' and PIP in self.raw(v.ops[0]) + self.raw(v.ops[1]):
                    add.add(('same',))
                elif n == 'instr' and p == 'eq' and ('good', v.id) in st:
                    add.add(('disj',))
            if v is not None and v.is_call('matchesList') and c == '1' and p in ('eq', 'ne'):
                l, what = LABEL.match(self.T(st, v.ops[0])), self.raw(v.ops[1])
                if l:
                    for x, cs in self.lists.items():
                        if what in cs:
                            add.add(('domatch' if p == 'eq' else 'nomatch', x, l.group(1)))
            for x, cs in self.lists.items():
                if c == '0' and p == 'eq' and a.startswith('ld(') and (a[3:-1] in cs or a.endswith('[0])') and a[3:-4] in cs):
                    add.add(('empty', x))
            dm = DISJ.match(a)
            if dm and c == '0' and p in ('eq', 'sle'):
                add.add(('nodisj', dm.group(1)))
            if a == 'ld(&g_WrkProof.errorSeverity)' and co[0] == 'c' and ao[0] == 'v' and ('good', ao[1]) in st and \
                    (p == 'sle' and co[1] <= 1 or p == 'slt' and co[1] <= 2 or p == 'eq' and co[1] in (0, 1)):
                add.add(('sev',))
            if p in ('slt', 'sle', 'sge', 'sgt') and 'g_mathboxSt' in c or p in ('sge', 'sgt') and co[0] == 'v' and self.mboxval(co):
                if p == 'slt' and c == 'ld(&g_mathboxStmt)' or p in ('sge', 'sgt') and self.mboxval(co):
                    if a not in GLOBALS:
                        add.add(('mbox', a))
            if p in ('sle', 'slt', 'eq') and ao[0] == 'v' and (('new', ao[1]) in st or ('eqnew', 'phi%d' % ao[1]) in st) and self.oldsize(co):
                add.add(('small', co[1] if co[0] == 'v' else -1))
            if p == 'sgt' and ao[0] == 'v' and (('new', ao[1]) in st or ('eqnew', 'phi%d' % ao[1]) in st) and self.oldsize(co):
                add.add(('big', co[1] if co[0] == 'v' else -1))
            fm = re.match(r'^ld\((ld\(&\w+\))\[(.*)\]\)$', a, re.S)
            if fm and co == ['c', 89]:
                if fm.group(1) in self.flagcells['p'] and p == 'eq':
                    add.add(('axok', fm.group(2)))
                if fm.group(1) in self.flagcells['k'] and p == 'ne':
                    add.add(('axok', fm.group(2)))
        st = st | add
        for x in st:
            if x[0] == 'type' and (('ntype',) + x[1:] in st or any(y[0] == 'type' and y[1] == x[1] and y[2] != x[2] for y in st)) or \
                    x[0] == 'big' and ('small', x[1]) in st or x[0] == 'q0' and ('q1', x[1]) in st or x[0] == 'domatch' and ('nomatch',) + x[1:] in st:
                return None
        # the loop over the axioms
        for h, l in self.axloops.items():
            if b in l[1] or all(q in l[1] for q in f.pred[b]):
                if t == h:
                    for x in f.blocks[h]:
                        pass
                    idx = self.axindex(st, l)
                    if idx is not None:
                        ok = ('axok', idx) in st or ('ntype', idx, 97) in st or ('domatch', 'ALLOW_NEW_AXIOMS', idx) in st and \
                            ('nomatch', 'NO_NEW_AXIOMS_FROM', idx) in st
                        self.due(st, f.blocks[b][-1], 'an axiom of the trial statement that the proof does not use yet is passed over', ok)
                elif t not in l[1] and b in l[1]:
                    idx = self.axindex(st, l)
                    if idx is not None:
                        st = frozenset(x for x in st if x[0] in ('=', 'ph') or idx not in x[1:])
                    for a, p, c, ao, co in fs:
                        if c == 'ld(&g_proveStatement)' and p in ('sge', 'eq') or c == 'add(ld(&g_proveStatement),-1)' and p in ('sgt', 'sge') and p == 'sgt':
                            st = st | {('axioms',)}
        # end of a round
        for x in [y for y in st if y[0] == 'called']:
            l = self.loops.get(x[1])
            if l is None or b not in l[1] and not all(q in l[1] for q in f.pred[b]):
                continue
            if t == l[0] or t not in l[1] and b in l[1]:
                if ('same',) in st:
                    st = st | frozenset(('saved', y[1]) for y in st if y[0] == 'before')
                else:
                    self.accepted(st, b, t, x[2], l)
                st = frozenset(y for y in st if y[0] != 'called')
        for l in self.loops.values():
            if t == l[0] or b in l[1] and t not in l[1] and all(q in l[1] for q in f.pred[t]):
                st = frozenset(y for y in st if y[0] in ('q0', 'q1', 'empty', 'saved', 'called'))
        return st

    def accepted(self, st, b, t, K, l):
        f = self.f
        i = f.blocks[b][-1]
        self.rounds += 1
        self.due(st, i, 'a trial may be kept although its proof uses a statement excluded by FORBID',
                 ('empty', 'FORBID') in st or ('notrace', 'FORBID', K) in st or ('ntype', K, 112) in st or ('type', K, 97) in st)
        if self.axloops:
            self.due(st, i, 'a trial may be kept without looking for new axioms', ('axioms',) in st)
            self.due(st, i, 'a trial may be kept without tracing the axioms of the statement tried', ('traced', K) in st)
        small = [y[1] for y in st if y[0] == 'small']
        grow = ('q1', 'MAY_GROW') in st
        self.due(st, i, 'a trial may be kept although the compressed proof got larger', grow or small)
        if small and not grow:
            ok = False
            for y in small:
                for ph in flow.phis(f, l[0]):
                    if any(['v', ph.id] == z for z in sem.leaves(f, ['v', y])) or ph.id == y:
                        o = flow.phi_in(ph, b)
                        ok |= o[0] == 'v' and (('new', o[1]) in st or ('eqnew', 'phi%d' % o[1]) in st)
                if not any(True for ph in flow.phis(f, l[0]) if ph.id == y):
                    ok = True       # kept in some other way
            self.due(st, i, 'after a trial was kept, later trials are compared with the size before it', ok)
        self.due(st, i, 'a trial may be kept although it violates a disjoint variable condition or the proof has an error',
                 ('nodisj', K) in st or ('sev',) in st and ('disj',) in st)

    def merged(self, old, st, b, t):
        f = self.f
        new = set()
        for ph in flow.phis(f, t):
            o = flow.phi_in(ph, b)
            if o[0] == 'v' and (('new', o[1]) in old or ('eqnew', 'phi%d' % o[1]) in old):
                new.add(('eqnew', 'phi%d' % ph.id))
        return st | new

    def axindex(self, st, l):
        """text of the statement number examined in this round"""
        f = self.f
        for i in f.insts():
            if i.op == 'getelementptr' and opexpr(f, i.ops[0]) in self.flagcells['k'] | self.flagcells['p'] and i.path and \
                    (i.block in l[1] or all(q in l[1] for q in f.pred[i.block])):
                return self.T(st, i.path[0][1])
        return None

    def mboxval(self, o):
        ls = sem.leaves(self.f, o)
        return bool(ls) and all('g_mathboxSt' in opexpr(self.f, x) for x in ls)

    def oldsize(self, o):
        if o[0] != 'v':
            return False
        ls = sem.leaves(self.f, o)
        return any(self.f.val(x) is not None and self.f.val(x).is_call('strlen') for x in ls)


def message(m, rep, f):
    """the text looked for is part of the message about $d violations"""
    g = m.funcs.get('assignVar')
    ts = [s for i in f.calls('instr') for s in [i.ops[2]] if len(i.ops) == 3 and s[0] == 's' and 'disjoint' in s[1]]
    if g is None or not ts:
        return
    for c in g.calls('cat'):
        strs = [o[1] for o in c.ops if o[0] == 's']
        if not any('disjoint' in x or '($d)' in x for x in strs):
            continue
        if not any(i.op == 'call' and i.callee == 'sourceError' and any(flow.strip(g, o) == ['v', c.id] for o in i.ops) for i in g.insts()):
            continue
        rep.count('obligations')
        if not any(t[1] in x for x in strs for t in ts):
            rep.violation('message', '%s: the message about a $d violation does not contain the text MINIMIZE_WITH looks for (%r)' % (loc(c), ts[0][1]))


def bounds(m, rep, f, hdr):
    """only statements before the one being proved"""
    for i in f.calls('minimizeProof'):
        v = f.val(flow.strip(f, i.ops[0]))
        loops = [l for l in sem.loops_of(f, i.block) if l[0] != hdr]
        if not loops:
            continue
        h, body, lat = loops[0]
        # candidates for the loop variable
        phs = []
        if v is not None and v.op == 'load':
            a = sem.alloca_of(f, v.ops[0])
            for s in f.insts():
                if s.op == 'store' and sem.alloca_of(f, s.ops[1]) == a and s.block in body:
                    p = f.val(flow.strip(f, s.ops[0]))
                    if p is not None and p.op == 'phi' and p.block == h:
                        phs.append(p)
        elif v is not None and v.op == 'phi' and v.block == h:
            phs.append(v)
        for p in phs:
            rep.count('obligations')
            for o, b in p.ops:
                if b in body:
                    continue
                for l in sem.leaves(f, o):
                    t = opexpr(f, l)
                    if l[0] == 'c' and l[1] != 1 or re.match(r'^add\(ld\(&g_proveStatement\),(?!-1\))', t) or t == 'ld(&g_proveStatement)':
                        rep.violation('bounds|start', '%s: the scan starts at %s' % (loc(i), t))
            for b in body:
                bt = f.br_targets(f.blocks[b][-1])
                if not bt or (bt[1] in body) == (bt[2] in body):
                    continue
                c = f.val(bt[0])
                if c is None or c.op != 'icmp':
                    continue
                pred = c.pred if bt[1] in body else ir.NEG[c.pred]
                l, r = c.ops
                if not mentions(f, l, p.id):
                    l, r, pred = r, l, ir.SWAP[pred]
                if not mentions(f, l, p.id):
                    continue
                rl = [opexpr(f, x) for x in sem.leaves(f, r)]
                rep.count('obligations')
                if 'ld(&g_proveStatement)' in rl and pred == 'sle' or any(re.match(r'^add\(ld\(&g_proveStatement\),', x) and pred in ('slt', 'sle') and
                                                                         (x, pred) != ('add(ld(&g_proveStatement),-1)', 'sle') for x in rl):
                    rep.violation('bounds|end', '%s: the scan does not stop just before the statement being proved (%s %s)' % (loc(c), pred, rl))
                if any(x != '0' and re.match(r'^-?\d+$', x) for x in rl) and pred == 'slt':
                    rep.violation('bounds|end', '%s: the backward scan does not stop at the first statement (%s)' % (loc(c), rl))


def mentions(f, o, pid, d=0):
    o = flow.strip(f, o)
    if o == ['v', pid]:
        return True
    i = f.val(o)
    return i is not None and d < 3 and i.op in ('mul', 'sub', 'add', 'select') and any(mentions(f, x, pid, d + 1) for x in i.ops)


def check(m, rep):
    f, = need(m, 'command')
    nr = noreturn(m)
    h, body, lat = command_loop(f)
    for b in entry(f, 'MINIMIZE_WITH'):
        s = Min(f, nr, (b, 0), h)
        s.run()
        rep.count('trial_calls', len(s.calls))
        rep.count('trial_rounds', s.rounds)
        rep.count('obligations', len(s.points))
        for inst, p, key in s.errors:
            rep.violation('minimize|%s' % p[:70], '%s: %s; %s' % (loc(inst), p, s.witness(key)))
    message(m, rep, f)
    bounds(m, rep, f, h)
    replacement(m, rep, nr)


def replacement(m, rep, nr):
    """minimizeProof(): a subproof is replaced only by a complete and shorter one (any length with MAY_GROW)"""
    f = m.funcs.get('minimizeProof')
    if f is None:
        return
    adds = f.calls('addSubProof')
    if not adds:
        return

    def known(a, p, c, ao, co):
        return a.startswith('nmbrElementIn(') and c == '0' and p == 'eq'

    def shorter(a, p, c, ao, co):
        return a.startswith('subproofLen(') and c.startswith('nmbrLen(') and p == 'sgt'

    def grow(a, p, c, ao, co):
        return ao == ['v', 2] and c == '0' and p in ('ne', 'sgt')

    def match(a, p, c, ao, co):
        return a.startswith('checkStmtMatch(') and c == '0' and p in ('ne', 'sgt')

    def at(i):
        if i.is_call('addSubProof'):
            return [('a subproof may be replaced by one with unknown steps', ['known']),
                    ('a subproof may be replaced by a longer one without MAY_GROW', ['short', 'grow']),
                    ('a subproof may be replaced by a statement that does not match the step', ['match'])]

    ids = {i.id for i in f.insts() if i.op == 'call' and i.callee == 'replaceStatement'}
    s = Must(f, nr, lits={'known': known, 'short': shorter, 'grow': grow, 'match': match}, at=at,
             kills=lambda i: ('known', 'short') if i.id in ids else ('match',) if i.is_call('checkStmtMatch') else ())
    s.run()
    rep.count('obligations', len(s.points))
    for inst, p, key in s.errors:
        rep.violation('minimizeProof|%s' % p[:60], '%s: %s; %s' % (loc(inst), p, s.witness(key)))
