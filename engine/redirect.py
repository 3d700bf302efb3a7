"""C12: output redirection to a string (g_outputToString) is always undone."""
import ir
import flow
from ir import loc
from base import Broken
from common import *

VAR = 'g_outputToString'


class Redir(flow.Monitor):
    """State: value of the redirection switch (0/1) plus the value saved by this function ('-',0,1)."""

    def __init__(self, f, R, init, start=(0, 0)):
        flow.Monitor.__init__(self, f, start, (init, ()))
        self.R, self.exits = R, set()
        self.hdr = None

    def step(self, st, i):
        f = self.f
        v, saved = st
        if i.op == 'load' and i.ops[0][0] == 'g' and ir.gname(f.mod, i.ops[0][1]) == VAR:
            return (v, tuple(sorted(set(x for x in saved if x[0] != i.id) | {(i.id, v)})))
        if i.op == 'store' and i.ops[1][0] == 'g' and ir.gname(f.mod, i.ops[1][1]) == VAR:
            o = i.ops[0]
            if o[0] == 'c':
                return (1 if o[1] else 0, saved)
            d = dict(saved)
            o = flow.strip(f, o)
            if o[0] == 'v' and o[1] in d:
                return (d[o[1]], saved)
            self.err(i, 'unknown value')
            return [(0, saved), (1, saved)]
        if i.op == 'call':
            if i.callee in self.R.nr:
                return None
            ex = self.R.effect(i.callee, v, self.context(i))
            return [(x, saved) for x in sorted(ex)]
        if i.op == 'ret':
            self.exits.add(v)
            if v != self.init[0]:
                self.err(i, 'exit')
            return None
        return st

    def context(self, i):
        """Facts about flag arguments of a routine whose effect depends on them."""
        if i.callee not in self.R.depends:
            return ()
        g = self.f.mod.funcs[i.callee]
        out = []
        for k, o in enumerate(i.ops[:g.nargs]):
            if g.args[k][2] == 'i8':
                v = self.fact(o)
                if v != flow.TOP:
                    out.append((k, v))
        return tuple(out)

    def edge(self, st, b, t):
        v, saved = st
        d = dict(saved)
        f = self.f
        for (l, p, r) in flow.edge_facts(f, b, t):
            o = flow.strip(f, l)
            if o[0] == 'v' and o[1] in d and r[0] == 'c':
                k = d[o[1]]
                if (p == 'eq' and k != r[1]) or (p == 'ne' and k == r[1]):
                    return None
        if self.hdr is not None and t == self.hdr:
            if v != 0:
                self.err(f.blocks[b][-1], 'next command')
            return None
        # forget saved values that no longer matter
        lv = live(f)
        saved = tuple(x for x in saved if x[0] in lv[t])
        return (v, saved)


def live(f):
    return flow.live_in(f)


class All:
    def __init__(self, m):
        self.m = m
        self.nr = noreturn(m)
        writers = set()
        for n, f in m.funcs.items():
            for i in f.insts():
                if i.op == 'store' and i.ops[1][0] == 'g' and ir.gname(m, i.ops[1][1]) == VAR:
                    writers.add(n)
        self.direct = writers
        self.touch = m.may_call(writers) | writers
        self.touch -= self.nr
        self.busy = set()
        self.depends = set()
        self.reset()
        # context-free first; routines that then seem to switch redirection are
        # analysed again per calling context
        for n in sorted(self.touch):
            for v in (0, 1):
                self.effect(n, v)
        self.depends = {n for (n, v, c), ex in self.memo.items() if v == 0 and ex != {v}}
        self.reset()

    def reset(self):
        self.memo = {}
        self.runs = {}

    def monitor(self, f, v, start=(0, 0)):
        r = Redir(f, self, v, start)
        ids = set()
        tr = flow.Tracker(f)
        for c in f.calls(*self.depends) if self.depends else ():
            g = self.m.funcs[c.callee]
            for k, o in enumerate(c.ops[:g.nargs]):
                if g.args[k][2] == 'i8':
                    ids |= tr.dep_ids(o)
        r.track = ids
        return r

    def effect(self, fn, v, ctx=()):
        if fn not in self.touch or fn not in self.m.funcs:
            return {v}
        k = (fn, v, ctx)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy:
            return {v}
        self.busy.add(k)
        r = self.monitor(self.m.funcs[fn], v)
        r.fixed = dict(ctx)
        r.run()
        self.busy.discard(k)
        # only exits that survive refinement
        ex = set(r.exits)
        if not any(p == 'exit' for i, p, key in r.errors):
            ex = {v} if ex else ex
        self.runs[k] = r
        self.memo[k] = ex or {v}
        return self.memo[k]


def check(m, rep):
    cmd, = need(m, 'command')
    A = All(m)
    rep.rule('output redirection into a string is switched off again on every path: when a command ends the switch '
             'is off, and no routine entered with the switch off returns with it on')
    h = command_loop(cmd)
    r = A.monitor(cmd, 0, start=(h, 0))
    r.hdr = h
    r.run()
    for n in sorted(A.direct):
        rep.count('functions_switching')
    rep.count('contexts_analysed', len(A.runs) + 1)
    rep.count('obligations', len(A.runs) + 1)
    for i, p, key in r.errors:
        rep.violation('command|%s' % p, 'redirection still on when the command ends: %s; path %s' % (loc(i), r.witness(key)))
    for (fn, v, ctx), rr in sorted(A.runs.items(), key=str):
        rep.sample('%s entered with %d leaves %s' % (fn, v, sorted(A.memo[(fn, v, ctx)])))
        if v:
            continue      # a routine entered with redirection on may finish it for its caller
        for i, p, key in rr.errors:
            rep.violation('%s|%s' % (fn, p), '%s() entered with redirection off returns with it on (%s); path %s' % (
                fn, loc(i), rr.witness(key)))


def command_loop(f):
    """Header of the interpreter loop: the loop of command() with the largest body."""
    if not f.loops:
        raise Broken('interpreter loop of command() not found')
    return max(f.loops, key=lambda l: len(l[1]))[0]
