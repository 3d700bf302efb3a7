"""C21, second half: the UNDO stack itself (processUndoStack) and the copying of proof states.

The stack function is followed once per action with symbolic values: the stack pointer, the end and the size are
tracked as (entry value + constant); what the rules do not recognise leaves them silent."""
import ir
import flow
import sem
from ir import loc, opexpr
from common import *

CELLS = {'stackPtr': 'P', 'stackEnd': 'E', 'stackSize': 'S'}
FLAGS = {'stackOverflowed': 'O', 'stackAborted': 'A'}
ACT = {'INIT': 1, 'PUSH': 2, 'UNDO': 3, 'REDO': 4, 'NEW_SIZE': 5, 'GET_SIZE': 6, 'GET_STATUS': 7}
FIELDS = ('target', 'source', 'user')


def cell(f, o):
    if o[0] != 'g':
        return None
    n = ir.gname(f.mod, o[1]).split('.')[-1]
    return CELLS.get(n) or FLAGS.get(n)


def is_stack(f, o):
    """o is the stack array loaded from its variable"""
    i = f.val(flow.strip(f, o))
    return i is not None and i.op == 'load' and i.ops[0][0] == 'g' and \
        ir.gname(f.mod, i.ops[0][1]).split('.')[-1] == 'proofStack'


def slot(f, o):
    """index operand of an address proofStack[x] (first field included)"""
    o = flow.strip(f, o)
    if is_stack(f, o):
        return ['c', 0]
    i = f.val(o)
    if i is not None and i.op == 'getelementptr' and is_stack(f, i.ops[0]) and i.path:
        return i.path[0][1]
    return None


def norm(a, p, b, k):
    """integers: < k is <= k-1, >= k is > k-1"""
    if p == 'slt':
        return (a, 'sle', b, k - 1)
    if p == 'sge':
        return (a, 'sgt', b, k - 1)
    return (a, p, b, k)


class Stack(flow.Monitor):
    """State: (cells, vals, facts, events)
    cells   tuple of (cell, (base, k)); base '' for constants, None = unknown
    vals    tuple of (load id, value)
    facts   what branches said about the entry values
    events  what happened so far"""

    def __init__(self, f, nr, act, name):
        cells = tuple(sorted([(c, (c + '0', 0)) for c in list(CELLS.values()) + list(FLAGS.values())]))
        flow.Monitor.__init__(self, f, (0, 0), (cells, (), frozenset(), frozenset()))
        self.fixed = {1: (act, act, None)}
        self.nr, self.act, self.name = nr, act, name
        self.points = set()
        self.track = tuple(i.ops[0][1] for i in f.insts() if i.op == 'ret' and i.ops and i.ops[0][0] == 'v')

    def sym(self, o, cells, vals, d=0):
        f = self.f
        o = flow.strip(f, o)
        if o[0] == 'c':
            return ('', o[1])
        if o[0] != 'v':
            return None
        if o[1] < f.nargs:
            return ('arg%d' % o[1], 0)
        if o[1] in vals:
            v = vals[o[1]]
            return self.sym(['v', v[1]], cells, vals, d + 1) if v[0] == '=' and d < 4 else v
        i = f.inst[o[1]]
        if i.op in ('add', 'sub') and d < 4:
            a, b = self.sym(i.ops[0], cells, vals, d + 1), self.sym(i.ops[1], cells, vals, d + 1)
            if a and b and b[0] == '':
                return (a[0], a[1] + (b[1] if i.op == 'add' else -b[1]))
        return None

    def step(self, st, i):
        f = self.f
        cs, vs, fa, ev = st
        cells, vals = dict(cs), dict(vs)
        if i.op == 'load':
            c = cell(f, i.ops[0])
            if c:
                vals[i.id] = cells.get(c)
        elif i.op == 'store':
            c = cell(f, i.ops[1])
            if c:
                cells[c] = self.sym(i.ops[0], cells, vals)
                if c in ('O', 'A') and cells[c] is None:
                    ev = ev | {'odd' + c}
            s = slot(f, i.ops[1])
            if s is not None and self.act == ACT['PUSH']:
                ev = ev | {'shifted'}
        elif i.op == 'call':
            if i.callee in self.nr:
                return None
            if i.callee == 'copyProofStruct':
                ev = self.copy(i, cells, vals, fa, ev)
            elif i.callee == 'deallocProofStruct':
                ev = ev | {'freed'}
        elif i.op == 'ret':
            self.end(i, cells, vals, fa, ev)
            return None
        keep = tuple(sorted((k, v) for k, v in vals.items() if v is not None))
        return (tuple(sorted(cells.items())), keep, fa, ev)

    def copy(self, i, cells, vals, fa, ev):
        f = self.f
        self.points.add(i.id)
        d, s = slot(f, i.ops[0]), slot(f, i.ops[1])
        if d is not None and flow.strip(f, i.ops[1]) == ['v', 0]:
            x = self.sym(d, cells, vals)
            if x is None:
                return ev | {'copied?'}
            if self.act == ACT['PUSH'] and x == ('P0', 1) and 'shifted' not in ev and not self.room(fa):
                self.err(i, 'PUSH writes beyond the end of a full stack')
            return ev | {('saved', x)}
        if s is not None and flow.strip(f, i.ops[0]) == ['v', 0]:
            x = self.sym(s, cells, vals)
            if x is None:
                return ev | {'copied?'}
            return ev | {('restored', x)}
        return ev | {'copied?'}

    def edge(self, st, b, t):
        f = self.f
        cs, vs, fa, ev = st
        cells, vals = dict(cs), dict(vs)
        new = set()
        for a, p, c, ao, co in sem.facts(f, b, t):
            x, y = self.sym(ao, cells, vals), self.sym(co, cells, vals)
            if x is None or y is None or x[0] == y[0]:
                continue
            # normal form: base + k  pred  base2
            k = x[1] - y[1]
            if x[0] and (y[0] == '' or x[0] < y[0]):
                new.add(norm(x[0], p, y[0], -k))      # x0 p y0 - k
        back = f.dominates(t, b)
        upd = {}
        for ph in flow.phis(f, t):
            o = flow.phi_in(ph, b)
            x = None if back else self.sym(o, cells, vals)
            if x is None and not back and o[0] == 'v' and o[1] >= f.nargs:
                x = ('=', o[1])
            upd[ph.id] = x
        vals.update(upd)
        vs = tuple(sorted((k, v) for k, v in vals.items() if v is not None))
        return (cs, vs, fa | frozenset(new), ev)

    def has(self, fa, a, ps, b, k):
        return any(norm(a, p, b, k) in fa for p in ps)

    def room(self, fa):
        return self.has(fa, 'P0', ('ne', 'slt'), 'S0', -1)

    def ptr_end_eq(self, fa):
        """nothing above the pointer: E0 == P0"""
        return self.has(fa, 'E0', ('eq', 'sle'), 'P0', 0)

    def end(self, i, cells, vals, fa, ev):
        if 'copied?' in ev:
            return
        P, E, S, O, A = (cells.get(k) for k in 'PESOA')
        act = self.act
        self.points.add((i.id, act))
        saved = [x for k, x in [e for e in ev if isinstance(e, tuple)] if k == 'saved']
        restored = [x for k, x in [e for e in ev if isinstance(e, tuple)] if k == 'restored']
        if act == ACT['PUSH']:
            if restored:
                self.err(i, 'PUSH changes the proof')
            if not saved:
                self.err(i, 'PUSH ends without saving the proof')
                return
            if P is None or E is None:
                return
            if saved[-1] != P:
                self.err(i, 'PUSH saves the proof in another place than the one the stack pointer names')
            if P == ('P0', 1):
                if E not in (('P0', 1), ('E0', 1)):
                    self.err(i, 'PUSH leaves later (redo) entries behind')
                elif E == ('E0', 1) and not self.ptr_end_eq(fa):
                    self.err(i, 'PUSH leaves later (redo) entries behind')
            elif P == ('P0', 0):
                if O != ('', 1) and 'oddO' not in ev:
                    self.err(i, 'PUSH drops the oldest entry without remembering that the original proof is gone')
                if 'shifted' not in ev:
                    self.err(i, 'PUSH overwrites the newest entry')
            elif P[0] in ('P0', '', 'E0'):
                self.err(i, 'PUSH moves the stack pointer by %d' % P[1])
        elif act == ACT['UNDO']:
            if saved:
                self.err(i, 'UNDO overwrites a saved proof')
            if P is None:
                return
            if E is not None and E != ('E0', 0):
                self.err(i, 'UNDO changes the number of saved proofs, REDO would be lost')
            if P == ('P0', 0):
                if restored:
                    self.err(i, 'UNDO restores a proof without moving the stack pointer')
                elif not self.has(fa, 'P0', ('eq', 'sle'), '', 0):
                    self.err(i, 'UNDO does nothing although an earlier proof is saved')
            elif P == ('P0', -1):
                if restored != [('P0', -1)]:
                    self.err(i, 'UNDO does not restore the proof before the last change')
                elif self.has(fa, 'P0', ('eq', 'sle'), '', 0):
                    self.err(i, 'UNDO moves below the oldest saved proof')
            elif P[0] in ('P0', '', 'E0'):
                self.err(i, 'UNDO moves the stack pointer to another entry than the previous one')
        elif act == ACT['REDO']:
            if saved:
                self.err(i, 'REDO overwrites a saved proof')
            if P is None:
                return
            if E is not None and E != ('E0', 0):
                self.err(i, 'REDO changes the number of saved proofs')
            if P == ('P0', 0):
                if restored:
                    self.err(i, 'REDO restores a proof without moving the stack pointer')
                elif not self.has(fa, 'E0', ('eq', 'sle'), 'P0', 0):
                    self.err(i, 'REDO does nothing although a later proof is saved')
            elif P == ('P0', 1):
                if restored != [('P0', 1)]:
                    self.err(i, 'REDO does not restore the proof after the undone change')
                elif not self.has(fa, 'E0', ('ne', 'sgt'), 'P0', 0):
                    self.err(i, 'REDO goes beyond the newest saved proof')
            elif P[0] in ('P0', '', 'E0'):
                self.err(i, 'REDO moves the stack pointer to another entry than the next one')
        elif act in (ACT['INIT'], ACT['NEW_SIZE']):
            if saved or restored:
                self.err(i, '%s changes the proof or saves one' % self.name)
            for c, x in (('P', P), ('E', E)):
                if x is not None and x != ('', -1):
                    self.err(i, '%s does not empty the stack' % self.name)
            if O is not None and O != ('', 0):
                if not (O == ('O0', 0) and self.has(fa, 'O0', ('eq',), '', 0)):
                    self.err(i, '%s keeps the overflow mark of the discarded stack' % self.name)
            if act == ACT['INIT']:
                if A is not None and A != ('', 0):
                    if not (A == ('A0', 0) and self.has(fa, 'A0', ('eq',), '', 0)):
                        self.err(i, 'INIT keeps the mark for a discarded stack')
            else:
                if S is not None and S != ('arg3', 1):
                    if not (S == ('S0', 0) and self.has(fa, 'S0', ('eq',), 'arg3', 1)):
                        self.err(i, 'the stack does not get room for the given number of UNDOs')
                if A is not None and not (A[0] == '' and A[1]):
                    safe = self.has(fa, 'P0', ('sle', 'slt', 'eq'), '', 0) and self.has(fa, 'O0', ('eq',), '', 0)
                    if not safe or A == ('', 0):
                        self.err(i, 'the stack is discarded without remembering that the proof may have been changed')
        elif act in (ACT['GET_STATUS'], ACT['GET_SIZE']):
            if saved or restored or P not in (('P0', 0), None) or E not in (('E0', 0), None):
                self.err(i, '%s changes the stack' % self.name)
            if act == ACT['GET_STATUS']:
                o = i.ops[0]
                while o[0] == 'v' and vals.get(o[1], ('',))[0] == '=':
                    o = ['v', vals[o[1]][1]]
                v = self.sym(o, cells, vals)
                if v is not None and v[0] == '' and v[1]:
                    return
                v = self.fact(o)
                if v[0] > 0 or v[1] < 0 or v[2] == 0:
                    return
                know = set()
                for a, p, c, ao, co in sem.implied(self.f, o, False) or ():
                    x = self.sym(ao, cells, vals)
                    if x is not None and c == '0' and p in ('eq',):
                        know.add(x)
                known = set(know) | {(x[0], 0) for x in fa if x[1] == 'eq' and x[2] == '' and x[3] == 0}
                for x, w in (('P0', 'changes can be undone'), ('O0', 'the original proof was dropped from the stack'),
                             ('A0', 'the stack was discarded')):
                    if (x, 0) not in known:
                        self.err(i, 'the status may say that the proof is unchanged although ' + w)
            else:
                r = self.sym(i.ops[0], cells, vals)
                if r is not None and r != ('S0', -1):
                    self.err(i, 'the size given back is not the number of possible UNDOs')


def stack_rules(m, rep, acts=None):
    f = m.funcs.get('processUndoStack')
    names = {ir.gname(f.mod, o[1]).split('.')[-1] for i in f.insts() for o in i.ops if isinstance(o, list) and o and o[0] == 'g'} if f else set()
    if f is None or not set(CELLS) <= names or not set(FLAGS) <= names or len(f.args) != 4:
        rep.cover['undo_stack'] = 'not recognised'
        return
    nr = noreturn(m)
    n = 0
    for name, act in sorted(ACT.items()):
        if acts and name not in acts:
            continue
        s = Stack(f, nr, act, name)
        s.run()
        n += len(s.points)
        for inst, p, key in s.errors:
            rep.violation('undo-stack|%s' % p[:60], '%s: %s; %s' % (loc(inst), p, s.witness(key)))
    rep.cover['undo_stack_points'] = n
    rep.count('obligations', n)
    if not acts:
        shift(f, rep)


def shift(f, rep):
    """the loop that makes room moves every field of every entry down by one"""
    seen = {}
    for i in f.insts():
        if i.op != 'store':
            continue
        a = f.val(i.ops[1])
        v = f.val(i.ops[0])
        if a is None or v is None or v.op != 'load':
            continue
        s = slot(f, i.ops[1])
        t = slot(f, v.ops[0])
        if s is None or t is None or s[0] != 'v' or f.inst.get(s[1]) is None:
            continue
        fd = [opexpr(f, x).rsplit('.', 1)[-1] if opexpr(f, x).endswith(('.target', '.source', '.user')) else 'proof'
              for x in (i.ops[1], v.ops[0])]
        l = sem.loop_of(f, i.block)
        if l is None:
            continue
        if fd[0] != fd[1]:
            rep.violation('undo-stack|shift-field', '%s: making room in the UNDO stack stores the %s part of an entry as %s' %
                          (loc(i), fd[1], fd[0]))
        k = sem.step_val(f, t, s[1]) if s[0] == 'v' else None
        j = sem.step_val(f, s, t[1]) if t[0] == 'v' else None
        if k not in (None, 1) or j not in (None, -1) or s == t:
            rep.violation('undo-stack|shift-index', '%s: making room in the UNDO stack moves an entry to a wrong place' % loc(i))
        seen.setdefault(l[0], {})[fd[0]] = i
    for h, d in seen.items():
        for x in ('proof',) + FIELDS:
            rep.count('obligations')
            if x not in d:
                rep.violation('undo-stack|shift-missing', '%s: making room in the UNDO stack forgets the %s part of the entries' %
                              (loc(list(d.values())[0]), x))


def part(f, o, arg):
    """field of the proof structure `arg` that address o designates: ('target', index operand) / ('target', None) for the field
    itself / ('proof', None)"""
    o = flow.strip(f, o)
    if o == ['v', arg]:
        return ('proof', None)
    i = f.val(o)
    if i is None or i.op != 'getelementptr':
        return None
    if flow.strip(f, i.ops[0]) == ['v', arg]:
        x = opexpr(f, o).rsplit('.', 1)[-1]
        return (x, None) if x in FIELDS else None
    b = f.val(flow.strip(f, i.ops[0]))
    if b is not None and b.op == 'load':
        p = part(f, b.ops[0], arg)
        if p and p[1] is None and len(i.path) == 1:
            return (p[0], i.path[0][1])
    return None


def copies(m, rep):
    f = m.funcs.get('copyProofStruct')
    if f is None or len(f.args) != 2:
        return
    done = {}
    whole = {}
    for i in f.insts():
        if not i.is_call('nmbrLet', 'pntrLet'):
            continue
        d = part(f, i.ops[0], 0)
        if d is None:
            continue
        if d[1] is None:
            whole[d[0]] = i
        v = f.val(flow.strip(f, i.ops[1]))
        s = part(f, v.ops[0], 1) if v is not None and v.op == 'load' else None
        if s is None:
            continue
        rep.count('obligations')
        if s[0] != d[0]:
            rep.violation('copy|field', '%s: the %s part of a proof state is copied to %s' % (loc(i), s[0], d[0]))
        if d[1] is not None and s[1] is not None and d[1] != s[1] and \
                flow.strip(f, d[1]) != flow.strip(f, s[1]):
            rep.violation('copy|index', '%s: a step of a proof state is copied to another step' % loc(i))
        done[d[0], d[1] is not None] = i
        if d[1] is not None:
            l = sem.loop_of(f, i.block)
            if l is not None:
                for c in sem.counting(f, l):
                    if c.incl or d[1] != ['v', c.phi.id]:
                        continue
                    ok = (c.start == ['c', 0] and c.step == 1 and c.pred in ('slt', 'ne') and full(f, c.bound, 0)) or \
                         (c.step == -1 and c.pred in ('sge', 'sgt') and (c.pred, c.bound) in (('sge', ['c', 0]), ('sgt', ['c', -1])))
                    if ok is False and known(f, c):
                        rep.violation('copy|range', '%s: not every step of a proof state is copied' % loc(i))
                if not all(f.dominates(i.block, x) for x in l[2]):
                    rep.violation('copy|some', '%s: the %s part is not copied for every step' % (loc(i), d[0]))
    elem = {x for x, e in done if e}
    if elem:
        for x in FIELDS:
            if x not in elem:
                rep.violation('copy|missing', 'copyProofStruct(): the %s part of a proof state is not copied' % x)
        if ('proof', False) not in done:
            rep.violation('copy|missing', 'copyProofStruct(): the proof of a proof state is not copied')


def full(f, o, d):
    """o is the length of the proof"""
    i = f.val(flow.strip(f, o))
    return i is not None and i.is_call('nmbrLen', 'pntrLen')


def known(f, c):
    """the bound or start is something definite but not the whole length"""
    if c.start[0] == 'c' and c.step == 1 and c.start[1] != 0:
        return True
    i = f.val(flow.strip(f, c.bound))
    return c.step == 1 and i is not None and i.op in ('add', 'sub') and any(full(f, x, 0) for x in i.ops) and \
        any(x[0] == 'c' and x[1] for x in i.ops)


def check(m, rep):
    stack_rules(m, rep)
    copies(m, rep)
    counter(m, rep)


def counter(m, rep):
    """work variables handed out after an UNDO or REDO must not be those of the proof that came back"""
    from conc import modsof
    C = 'g_pipDummyVars'
    f = m['processUndoStack']
    cmd = m['command']
    lowered = [i for i in cmd.insts() if i.op == 'store' and i.ops[0][0] == 'c' and i.ops[1][0] == 'g' and ir.gname(m, i.ops[1][1]) == C]
    if not lowered:
        return
    rep.rule('a command sets the counter of work variables back; wherever UNDO or REDO brings a proof back, the counter is set again from it')
    M = modsof(m)
    for i in f.calls('copyProofStruct'):
        if flow.strip(f, i.ops[0]) != ['v', 0]:
            continue
        rep.count('obligations')
        ok = False
        for b in f.reach_from(i.block):
            for j in f.blocks[b]:
                if (b != i.block or j.idx > i.idx) and (j.op == 'store' and j.ops[1][0] == 'g' and ir.gname(m, j.ops[1][1]) == C or j.op == 'call' and C in M.get(j.callee, ())):
                    ok = True
        if not ok and C in M.get('copyProofStruct', ()):
            ok = True
        if not ok:
            rep.violation('counter', 'processUndoStack(): a proof is brought back at %s but the counter of its work variables, which %s sets back, is not' % (ir.loc(i), ir.loc(lowered[0])))
