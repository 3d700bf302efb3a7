"""C20, C21: bookkeeping of the Proof Assistant: every change of the proof in progress is recorded for UNDO and announced."""
import ir
import flow
import sem
import undo
from ir import loc, opexpr
from base import Broken
from common import *
from oblig import Must

PIP = 'g_ProofInProgress'
FLAG = 'g_proofChangedFlag'
PUSH, UNDO, REDO, INIT = 2, 3, 4, 1


def roots(f, o, seen=None):
    """Globals ('g',name) and parameters ('a',k) whose storage an address operand lies in (through loads)."""
    seen = seen if seen is not None else set()
    o = flow.strip(f, o)
    if o[0] == 'g':
        return {('g', ir.gname(f.mod, o[1]))}
    if o[0] == 'e' and o[1] == 'gep':
        return roots(f, o[2], seen)
    if o[0] != 'v':
        return set()
    if o[1] < f.nargs:
        return {('a', o[1])}
    if o[1] in seen:
        return set()
    seen.add(o[1])
    i = f.inst[o[1]]
    if i.op in ('getelementptr', 'load'):
        return roots(f, i.ops[0], seen)
    if i.op == 'phi':
        return set().union(*[roots(f, x, seen) for x, b in i.ops])
    if i.op == 'select':
        return roots(f, i.ops[1], seen) | roots(f, i.ops[2], seen)
    return set()


def is_addr(f, o):
    """an address inside an object (not a pointer value read from it)"""
    return any(x[0] in ('g', 'e') or (x[0] == 'v' and (x[1] < f.nargs or f.inst[x[1]].op == 'getelementptr'))
               for x in sem.leaves(f, o))


class Writes:
    """Which parameters a function stores through."""

    def __init__(self, m):
        self.m = m
        self.w = {n: set() for n in m.funcs}
        ch = True
        while ch:
            ch = False
            for n, f in m.funcs.items():
                for i in f.insts():
                    for k in self.stored(f, i):
                        if k[0] == 'a' and k[1] not in self.w[n]:
                            self.w[n].add(k[1])
                            ch = True

    def stored(self, f, i):
        if i.op == 'store':
            return roots(f, i.ops[1])
        if i.op == 'call' and i.callee in self.w:
            r = set()
            for k in self.w[i.callee]:
                if k < len(i.ops) and is_addr(f, i.ops[k]):
                    r |= roots(f, i.ops[k])
            return r
        return set()


class Model:
    def __init__(self, m):
        self.m = m
        need(m, 'command', 'processUndoStack', 'nmbrLet', 'pntrLet', 'copyProofStruct')
        self.nr = noreturn(m)
        self.wr = Writes(m)
        self.mod = {}        # function -> True if it may change the proof in progress
        for n, f in m.funcs.items():
            self.mod[n] = any(('g', PIP) in self.wr.stored(f, i) for i in f.insts()
                              if not i.is_call('processUndoStack')) and n != 'processUndoStack'
        if not any(self.mod.values()):
            raise Broken('nothing changes %s' % PIP)
        ch = True
        while ch:
            ch = False
            for n, f in m.funcs.items():
                if not self.mod[n] and n != 'command' and any(i.op == 'call' and self.mod.get(i.callee) for i in f.insts()):
                    self.mod[n] = ch = True
        self.unfl = {n: False for n in m.funcs}
        ch = True
        while ch:
            ch = False
            for n, f in m.funcs.items():
                if self.mod[n] and not self.unfl[n] and n != 'command':
                    r = Unflagged(f, self)
                    r.run()
                    if r.errors:
                        self.unfl[n] = ch = True

    def effect(self, f, i):
        """None | 'flagged' | 'unflagged' | ('undo', action)"""
        if i.op == 'call' and i.callee == 'processUndoStack':
            a = i.ops[1]
            act = a[1] if a[0] == 'c' else None
            return ('undo', act)
        if ('g', PIP) in self.wr.stored(f, i):
            return 'unflagged'
        if i.op == 'call' and self.mod.get(i.callee):
            return 'unflagged' if self.unfl[i.callee] else 'flagged'
        return None


class Unflagged(flow.Monitor):
    """(modified, flag set): error at a return with a modification and no flag."""

    def __init__(self, f, M):
        flow.Monitor.__init__(self, f, (0, 0), (False, False))
        self.M = M

    def step(self, st, i):
        mod, fl = st
        if i.op == 'call' and i.callee in self.M.nr:
            return None
        if global_store_name(self.f, i) == FLAG:
            return (mod, i.ops[0][0] == 'c' and i.ops[0][1] != 0)
        e = self.M.effect(self.f, i)
        if e == 'unflagged':
            return (True, fl)
        if i.op == 'ret':
            if mod and not fl:
                self.err(i, 'unflagged')
            return None
        return st


def command_loop(f):
    best = max(f.loops, key=lambda l: len(l[1]), default=None)
    if best is None or len(best[1]) < 200:
        raise Broken('the command loop of command() was not found')
    return best


class Session(flow.Monitor):
    """One round of the command loop.  State: (value of the change flag, announced, cells, copies).

    copies: for the proof in progress and for every saved copy of it a pair (dirty, covered):
    dirty    it may differ from the newest UNDO entry (or from what the change flags announce)
    covered  whenever it differs, the change flag is set
    cells:   what is known about address-taken counters (zero / nonzero)
    aux:     (automatic unification has run since the last change, proof known to be complete)"""

    def __init__(self, f, M, hdr, body, mode):
        flow.Monitor.__init__(self, f, (hdr, 0), ('?', False, (), (('pip', False, True),), (False, None)))
        self.M, self.hdr, self.body, self.mode = M, hdr, body, mode
        self.sites = set()
        self.clears = set()
        self.cells = {i.id for i in f.insts() if i.op == 'alloca' and (i.aty or i.ty) in ('i64', 'i32', 'i8')}
        tr = set()
        for i in f.insts():
            if i.op == 'store' and sem.alloca_of(f, i.ops[1]) in self.cells:
                o = flow.strip(f, i.ops[0])
                if o[0] == 'v' and o[1] >= f.nargs and f.inst[o[1]].op == 'phi':
                    tr.add(o[1])
        self.track = tuple(sorted(tr))

    # -- cells
    def value(self, o):
        v = self.fact(o)
        if v[:2] == (0, 0):
            return 0
        if v[0] > 0 or v[1] < 0 or v[2] == 0:
            return 1
        return None

    def step(self, st, i):
        f = self.f
        v, ann, cells, cp, aux = st
        if i.op == 'store':
            a = sem.alloca_of(f, i.ops[1])
            if a in self.cells:
                d = dict(cells)
                x = self.value(i.ops[0])
                d.pop(a, None)
                if x is not None and any(c[1] for c in cp):
                    d[a] = x
                elif x == 0 and i.ops[0][0] == 'c':
                    d[a] = 0
                cells = tuple(sorted(d.items()))
        if i.op == 'call':
            if i.callee in self.M.nr:
                return None
            for o in i.ops:
                a = sem.alloca_of(f, o) if isinstance(o, list) else None
                if a in self.cells:
                    cells = tuple(x for x in cells if x[0] != a)
        self.aux = aux
        v, ann, d = self.effects(i, v, ann, dict((k, (d, c)) for k, d, c in cp))
        return (v, ann, cells, tuple(sorted((k, x[0], x[1]) for k, x in d.items())), self.aux)

    def effects(self, i, v, ann, d):
        f = self.f
        g = global_store_name(f, i)
        if g == FLAG:
            c = i.ops[0]
            if c[0] == 'c' and c[1]:
                return (1, ann, {k: (x[0], True) for k, x in d.items()})
            return (0 if c[0] == 'c' else '?', ann, {k: (x[0], not x[0]) for k, x in d.items()})
        if g == 'g_proofChanged':
            c = i.ops[0]
            self.clears.add(i.id)
            return (v, c[0] == 'c' and c[1] != 0, d)
        if g == 'g_PFASmode' and i.ops[0] == ['c', 0]:
            d['pip'] = (False, True)
            return (v, ann, d)
        if i.op != 'call':
            if ('g', PIP) in self.M.wr.stored(f, i):
                self.sites.add(i.id)
                d['pip'] = (True, v == 1)
                self.aux = (False, None)
            return (v, ann, d)
        if i.callee == 'processUndoStack':
            act = i.ops[1][1] if i.ops[1][0] == 'c' else None
            if act == PUSH and self.mode == 'undo':
                if ('g', PIP) in roots(f, i.ops[0]):
                    self.clears.add(i.id)
                    d['pip'] = (False, True)
            elif act == INIT and self.mode == 'announce':
                d['pip'] = (False, True)
            if act in (UNDO, REDO):
                self.aux = (False, None)
            if act in (UNDO, REDO) and self.mode == 'announce':
                self.sites.add(i.id)
                d['pip'] = (True, v == 1)
            return (v, ann, d)
        if i.callee == 'copyProofStruct':
            dst = sem.alloca_of(f, i.ops[0])
            src = roots(f, i.ops[1])
            sa = sem.alloca_of(f, i.ops[1])
            if sa is not None:
                k = 's%d' % sa
            elif ('g', PIP) in src:
                k = 'pip'
            else:
                k = None
            val = d.get(k, (True, v == 1))
            if dst is not None:
                d['s%d' % dst] = val
            elif ('g', PIP) in roots(f, i.ops[0]):
                self.sites.add(i.id)
                d['pip'] = val
                self.aux = (False, None)
            return (v, ann, d)
        if i.callee == 'nmbrLet':
            dst = sem.alloca_of(f, i.ops[0])
            if dst is not None:
                if opexpr(f, i.ops[1]) == 'ld(&%s)' % PIP:
                    d['n%d' % dst] = d['pip']
                else:
                    d.pop('n%d' % dst, None)
                return (v, ann, d)
        if i.callee == 'deallocProofStruct':
            dst = sem.alloca_of(f, i.ops[0])
            if dst is not None:
                d.pop('s%d' % dst, None)
                return (v, ann, d)
        e = self.M.effect(f, i)
        if e is None:
            return (v, ann, d)
        self.sites.add(i.id)
        if i.callee == 'autoUnify':
            if self.aux[0]:
                return (v, ann, d)      # nothing left to unify
            self.aux = (True, None)
        else:
            self.aux = (False, None)
        x = d['pip']
        if e == 'flagged':
            d['pip'] = (True, x[1])
            return (1 if v == 1 else '?', ann, d)
        d['pip'] = (True, v == 1)
        return (v, ann, d)

    def edge(self, st, b, t):
        v, ann, cells, cp, aux = st
        f = self.f
        cd = dict(cells)
        for a, p, c, ao, co in sem.facts(f, b, t):
            if c == '0' and a == 'ld(&%s)' % FLAG:
                if p == 'eq':
                    if v == 1:
                        return None
                    cp = tuple((k, d and not cv, cv) for k, d, cv in cp)
                    v = 0
                elif p in ('ne', 'sgt'):
                    if v == 0:
                        return None
                    v = 1
            elif ao[0] == 'v' and ao[1] >= f.nargs and co[0] == 'c':
                i = f.inst[ao[1]]
                if i.op == 'load' and sem.alloca_of(f, i.ops[0]) in self.cells:
                    k = sem.alloca_of(f, i.ops[0])
                    x = cd.get(k)
                    if c == '0' and x is not None:
                        if (p == 'eq' and x) or (p == 'ne' and not x):
                            return None
                elif i.is_call('nmbrElementIn') and c == '0' and opexpr(f, i.ops[1]) == 'ld(&%s)' % PIP and \
                        i.ops[2] == ['c', -63] and p in ('eq', 'ne'):
                    x = p == 'eq'
                    if aux[1] is not None and aux[1] != x:
                        return None
                    aux = (aux[0], x)
                elif i.is_call('nmbrEq') and c == '0' and p == 'ne':
                    for n, o in ((0, 1), (1, 0)):
                        l = f.val(i.ops[n])
                        if opexpr(f, i.ops[o]) == 'ld(&%s)' % PIP and l is not None and l.op == 'load':
                            k = 'n%s' % sem.alloca_of(f, l.ops[0])
                            d = {k2: (dd, cv) for k2, dd, cv in cp}
                            if k in d:
                                d['pip'] = d[k]
                                cp = tuple(sorted((k2, x[0], x[1]) for k2, x in d.items()))
        if t == self.hdr:
            d = {k: dd for k, dd, cv in cp}
            if d['pip'] and not (self.mode == 'announce' and ann):
                self.err(f.blocks[b][-1], 'changed')
            return None
        cells = tuple(sorted(cd.items()))
        return (v, ann, cells, cp, aux)


def check_undo(m, rep):
    M = Model(m)
    f = m['command']
    h, body, lat = command_loop(f)
    s = Session(f, M, h, body, 'undo')
    s.run()
    report(f, s, rep, 'not saved for UNDO')
    rep.cover['mutators'] = sum(M.mod.values())
    undo.check(m, rep)


def report(f, s, rep, what):
    rep.count('obligations', len(s.sites))
    rep.cover['change_sites'] = len(s.sites)
    rep.cover['recording_sites'] = len(s.clears)
    for inst, lab, key in s.errors:
        # the last change on the path
        w = s.witness(key)
        rep.violation('%s|%s' % (what.replace(' ', '-'), loc(inst)), '%s: the command ends with a changed proof that is %s; %s' % (loc(inst), what, w))


class Leave(flow.Monitor):
    """Leaving the Proof Assistant, erasing or ending: only with nothing unsaved, or after the warning was answered."""

    def __init__(self, f, M, hdr):
        flow.Monitor.__init__(self, f, (hdr, 0), frozenset())
        self.M, self.hdr = M, hdr
        self.points = set()
        self.saved = None

    def need(self, i, kind, st, what):
        self.points.add((i.id, kind))
        flag = 'g_proofChanged' if kind == 'proof' else 'g_sourceChanged'
        if flag + '=0' in st:
            return
        nv = [x for x in st if x.startswith('never')]
        if kind == 'proof' and 'status0' in st and nv:
            nv = {int(x[5:]) for x in nv}
            self.saved = nv if self.saved is None else self.saved & nv
            return
        if ('warn' + kind) not in st:
            self.err(i, 'the warning about unsaved changes to the %s is skipped before %s' % (kind, what))
        elif not st & {'yes', 'force'}:
            self.err(i, 'unsaved changes to the %s are given up without the consent of the user before %s' % (kind, what))

    def step(self, st, i):
        f = self.f
        if i.op == 'call':
            if i.callee in self.M.nr:
                return None
            if i.callee in ('print2', 'printLongLine'):
                t = ' '.join(x for x in text(f, i.ops[0]))
                if 'have not saved changes to the proof' in t:
                    st = st | {'warnproof'}
                if 'have not saved changes to the source' in t:
                    st = st | {'warnsource'}
            if i.callee == 'eraseSource':
                self.need(i, 'source', st, 'eraseSource()')
            if i.callee == 'cmdInput1':
                st = st - {'yes'}
        elif i.op == 'store':
            g = global_store_name(f, i)
            if g == 'g_PFASmode' and i.ops[0] == ['c', 0]:
                self.need(i, 'proof', st, 'the Proof Assistant is left')
            if g in ('g_proofChanged', 'g_sourceChanged') and not (i.ops[0] == ['c', 0]):
                st = st - {g + '=0'}
        elif i.op == 'ret':
            self.need(i, 'source', st, 'the program ends')
            return None
        return st

    def edge(self, st, b, t):
        f = self.f
        if t == self.hdr:
            return None
        add = set()
        for a, p, c, ao, co in sem.deep_facts(f, b, t):
            if c == '0' and p == 'eq':
                if a in ('ld(&g_proofChanged)', 'ld(&g_sourceChanged)'):
                    add.add(a[4:-1] + '=0')
                i = f.val(ao)
                if i is not None and i.is_call('processUndoStack') and i.ops[1] == ['c', 7]:
                    add.add('status0')
                if i is not None and i.op == 'phi' and i.block == self.hdr:
                    add.add('never%d' % i.id)      # a local flag kept by command(): the proof was never saved
            if a == 'ld(&g_listMode)' and c == '0' and p == 'ne':
                add.add('g_sourceChanged=0')      # the stand-alone text tools have no source
            if a.startswith('switchPos("FORCE"') and c == '0' and p in ('ne', 'sgt'):
                add.add('force')
            if p == 'eq' and c in ('121', '89'):
                add.add('yes')
        return st | add


def text(f, o, d=0):
    """constant parts of a string expression"""
    o = flow.strip(f, o)
    if o[0] == 's':
        return [o[1]]
    i = f.val(o)
    r = []
    if i is not None and d < 5:
        if i.op == 'call' and i.callee == 'cat':
            for x in i.ops:
                r += text(f, x, d + 1)
        elif i.op in ('phi', 'select'):
            for x in sem.leaves(f, o):
                if x != o:
                    r += text(f, x, d + 1)
        elif i.op == 'getelementptr':
            r += text(f, i.ops[0], d + 1)
    return r


class Clear(flow.Monitor):
    """Where the marks for unsaved changes may be reset, and where the source must be marked as changed.

    State facts: 'source=0', 'proof=0' (tested), 'asked...' , 'written', 'taken' (the proof in progress was copied for
    saving), 'owe' (mark of the proof was reset, the saved proof has to be stored), 'changed:<field>'."""

    def __init__(self, f, M, hdr, saved):
        self.web = set()
        st = list(saved)
        while st:
            v = st.pop()
            i = f.inst.get(v)
            if v in self.web or i is None or i.op != 'phi':
                continue
            self.web.add(v)
            st += [o[1] for o, b in i.ops if o[0] == 'v']
        self.track = tuple(sorted(self.web))
        self.saved = saved
        flow.Monitor.__init__(self, f, (hdr, 0), frozenset())
        self.M, self.hdr = M, hdr
        self.points = set()

    def step(self, st, i):
        f = self.f
        if i.op == 'call':
            if i.callee in self.M.nr:
                return None
            if i.callee in ('print2', 'printLongLine'):
                t = ' '.join(text(f, i.ops[0]))
                if 'have not saved changes to the proof' in t:
                    st = st | {'askproof'}
                if 'have not saved changes to the source' in t:
                    st = st | {'asksource'}
            if i.callee == 'nmbrLet' and sem.alloca_of(f, i.ops[0]) is not None:
                k = 'taken'
                if opexpr(f, i.ops[1]) == 'ld(&%s)' % PIP:
                    st = st | {k}
            if i.callee == 'eraseSource':
                st = frozenset(x for x in st if not x.startswith('changed:'))
            return st
        if i.op == 'ret':
            self.end(st, i)
            return None
        if i.op != 'store':
            return st
        g = global_store_name(f, i)
        zero = i.ops[0] == ['c', 0]
        if g == 'g_sourceChanged':
            if not zero:
                return frozenset(x for x in st if not x.startswith('changed:')) | {'marked'}
            self.points.add(i.id)
            if not st & {'g_sourceChanged=0', 'asksource', 'written'}:
                self.err(i, 'the changes to the source are marked as saved although nothing was written and the user was not asked')
            return st
        if g == 'g_proofChanged':
            if not zero:
                return st - {'owe'}
            self.points.add(i.id)
            if st & {'g_proofChanged=0', 'askproof'} or ('status0' in st):
                return st
            if 'taken' not in st:
                self.err(i, 'the changes to the proof are marked as saved although the proof in progress was not saved and '
                            'the user was not asked')
            return st | {'owe', 'cleared'}
        if i.ops[1][0] == 'v' and f.inst.get(i.ops[1][1]) is not None:
            a = opexpr(f, i.ops[1])
            fld = a.rsplit('.', 1)[-1]
            if fld in ('labelSectionChanged', 'mathSectionChanged', 'proofSectionChanged'):
                o = i.ops[0]
                k = 'changed:' + fld
                if o[0] == 'c' and o[1]:
                    self.points.add(i.id)
                    if 'marked' in st:
                        return st
                    return st | {k}
                return st - {k}       # put back
            if fld == 'proofSectionPtr':
                return st - {'owe'}
        return st

    def end(self, st, i):
        for x in sorted(st):
            if x == 'owe':
                self.err(i, 'the mark for unsaved proof changes was reset but no proof was stored')
            elif x.startswith('changed:'):
                self.err(i, 'the source was changed (%s) without marking it as changed' % x[8:])

    def edge(self, st, b, t):
        f = self.f
        add = set()
        for a, p, c, ao, co in sem.deep_facts(f, b, t):
            if c == '0' and p == 'eq' and a in ('ld(&g_proofChanged)', 'ld(&g_sourceChanged)'):
                add.add(a[4:-1] + '=0')
            i = f.val(ao)
            if i is not None and i.op == 'call' and c == '0':
                if i.callee == 'writeSource' and p in ('ne', 'sgt'):
                    add.add('written')
                if i.callee == 'processUndoStack' and i.ops[1] == ['c', 7] and p == 'eq':
                    add.add('status0')
        st = st | add
        if t == self.hdr:
            self.end(st, f.blocks[b][-1])
            if 'cleared' in st and 'status0' not in st and self.saved:
                for p in self.saved:
                    v = self.fact_after(['v', p])
                    if not (v[0] > 0 or v[1] < 0 or v[2] == 0):
                        self.err(f.blocks[b][-1], 'the proof was saved while UNDO is possible, but this is not remembered: undoing to '
                                                  'the first state would then count as unchanged')
            return None
        return st


def check_announce(m, rep):
    M = Model(m)
    f = m['command']
    h, body, lat = command_loop(f)
    s = Session(f, M, h, body, 'announce')
    s.run()
    report(f, s, rep, 'not announced')
    a = Leave(f, M, h)
    a.run()
    b = Clear(f, M, h, sorted(a.saved or ()))
    b.run()
    for s, lab in ((a, 'leave'), (b, 'mark')):
        rep.cover[lab + '_points'] = len(s.points)
        rep.count('obligations', len(s.points))
        for inst, p, key in s.errors:
            rep.violation('%s|%s|%s' % (lab, p[:50], loc(inst)), '%s: %s; %s' % (loc(inst), p, s.witness(key)))
    undo.stack_rules(m, rep, ('GET_STATUS', 'NEW_SIZE', 'INIT', 'PUSH'))
