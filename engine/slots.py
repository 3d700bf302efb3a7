"""C09, second part: a file that stays open between commands is not dropped by another command."""
import flow
import sem
import ir
import grammar
from ir import loc
from common import *
from files import openers, gslot, mods
from redirect import live, command_loop

PAIRS = [('g_texFilePtr', 'g_texFileOpenFlag', 'LaTeX'), ('g_logFilePtr', 'g_logFileOpenFlag', 'log')]


class Slot(flow.Monitor):
    """State: (file in the slot: open/closed, flag, loads of the flag, loads of the slot still current)"""

    def __init__(self, f, A, slot, flagname, start, init, hdr=None):
        flow.Monitor.__init__(self, f, start, init + ((), frozenset()))
        self.A, self.slot, self.flagname, self.hdr = A, slot, flagname, hdr

    def step(self, st, i):
        f = self.f
        p, fl, loads, cur = st
        if i.op == 'load' and i.ops[0][0] == 'g':
            g = ir.gname(f.mod, i.ops[0][1])
            if g == self.flagname:
                return (p, fl, tuple(sorted(set(x for x in loads if x[0] != i.id) | {(i.id, fl)})), cur)
            if g == self.slot:
                return (p, fl, loads, cur | {i.id})
            return st
        if i.op == 'store' and i.ops[1][0] == 'g':
            g = ir.gname(f.mod, i.ops[1][1])
            if g == self.flagname:
                o = i.ops[0]
                if o[0] == 'c':
                    return (p, 1 if o[1] else 0, loads, cur)
                return [(p, 0, loads, cur), (p, 1, loads, cur)]
            if g == self.slot:
                o = flow.strip(f, i.ops[0])
                if p == 'open' and not (o[0] == 'v' and o[1] in cur):
                    self.err(i, 'dropped')
                v = f.val(o)
                if o[0] == 'v' and o[1] in cur:
                    return st
                if v is not None and v.op == 'call' and v.callee in self.A.openers and v.block == i.block:
                    return [('open', fl, loads, frozenset([v.id])), ('null', fl, loads, frozenset([v.id]))]
                return ('closed', fl, loads, frozenset())
            return st
        if i.op == 'call':
            if i.callee in self.A.nr:
                return None
            if i.callee == 'fclose':
                o = flow.strip(f, i.ops[0])
                if o[0] == 'v' and o[1] in cur:
                    return ('closed', fl, loads, cur)
                return st
            if i.callee in self.A.clobber[self.slot]:
                if p == 'open':
                    self.err(i, 'dropped')
                return ('closed', fl, loads, frozenset())
            return st
        if i.op == 'ret':
            return None
        return st

    def edge(self, st, b, t):
        f = self.f
        p, fl, loads, cur = st
        d = dict(loads)
        for (l, pr, r) in flow.edge_facts(f, b, t):
            o = flow.strip(f, l)
            if o[0] != 'v':
                continue
            if o[1] in d and r[0] == 'c':
                if (pr == 'eq' and d[o[1]] != r[1]) or (pr == 'ne' and d[o[1]] == r[1]):
                    return None
            if o[1] in cur and r[0] == 'n':
                if pr == 'eq' and p == 'open' or pr == 'ne' and p == 'null':
                    return None
        for a, pr, c, ao, co in sem.facts(f, b, t):
            v = f.val(ao)
            if fl and v is not None and v.is_call('cmdMatches') and c == '0' and pr != 'eq':
                w = grammar.literal(f, v)
                if w and self.A.refused(w, self.flagname):
                    return None
        if t == self.hdr:
            if p == 'open' and not fl:
                self.err(f.blocks[b][-1], 'unmarked')
            if p != 'open' and fl:
                self.err(f.blocks[b][-1], 'marked')
            return None
        lv = live(f)
        return (p, fl, tuple(x for x in loads if x[0] in lv[t]), frozenset(x for x in cur if x in lv[t]))


class Slots:
    def __init__(self, m):
        self.m, self.nr, self.openers = m, noreturn(m), openers(m)
        self.clobber = {}
        for slot, fl, n in PAIRS:
            d = {n2 for n2, f in m.funcs.items() if n2 not in ('command', 'main') and any(i.op == 'store' and gslot(f, i.ops[1]) == slot for i in f.insts())}
            c = m.may_call(d) | d
            self.clobber[slot] = c - {'command', 'main'} - self.nr
        self.g = grammar.Grammar(m)
        self.good = grammar.accepted(self.g.p)
        self.memo = {}

    def refused(self, cmd, flag):
        k = (cmd, flag)
        if k not in self.memo:
            part = self.g.parser(cmd, dict(grammar.MODES)['MM'])
            self.memo[k] = cmd in self.g.known and grammar.escapes(self.g.p, [0], self.good, part, flag, True) is None
        return self.memo[k]


TEXT = {'dropped': 'the %s file that may be open from an earlier command is replaced without being closed',
        'unmarked': 'the command ends with the %s file open but marked as closed, so that nothing closes it',
        'marked': 'the command ends with the %s file closed but marked as open'}


def check(m, rep):
    cmd, = need(m, 'command')
    A = Slots(m)
    h = command_loop(cmd)
    for slot, fl, name in PAIRS:
        if slot not in {g for g in m.globals}:
            continue
        for init in (('closed', 0), ('open', 1)):
            r = Slot(cmd, A, slot, fl, (h, 0), init, h)
            r.run()
            rep.count('session files followed', 1)
            for i, p, key in r.errors:
                rep.violation('session|%s|%s' % (slot, p), '%s (%s, %s); path %s' % (TEXT[p] % name, slot, loc(i), r.witness(key)))
        for n in sorted(A.clobber[slot]):
            f = m.funcs[n]
            rep.count('routines that borrow the handle', 1)
