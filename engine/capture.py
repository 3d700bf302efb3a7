"""C33: text captured for a file is written to it once, and in one piece."""
import ir
import flow
from ir import loc
from base import Broken
from common import *
from redirect import VAR, live, command_loop

STR = 'g_printString'
# E nothing captured, P captured and not yet used, L looked at or copied elsewhere, W written to a file and not yet cleared
HTML = 'g_htmlFlag'
LOOK = ('instr', 'strcmp', 'strncmp', 'strstr')
OUT = ('fprintf', 'fputs', 'fwrite')


def depends_on(f, o, d=0, seen=None):
    """does the value depend on the text captured so far?"""
    seen = set() if seen is None else seen
    if o[0] == 'e':
        return any(depends_on(f, x, d + 1, seen) for x in o[1:] if isinstance(x, list) and x and isinstance(x[0], str))
    if o[0] != 'v' or o[1] < f.nargs or o[1] in seen:
        return False
    seen.add(o[1])
    i = f.inst[o[1]]
    if i.op == 'load' and i.ops[0][0] == 'g' and ir.gname(f.mod, i.ops[0][1]) == STR:
        return True
    if i.op == 'phi':
        return any(depends_on(f, x, d + 1, seen) for x, b in i.ops)
    if i.op in ('getelementptr', 'select', 'freeze') or i.op == 'call' and i.ty == 'ptr':
        return any(depends_on(f, x, d + 1, seen) for x in i.ops if isinstance(x, list))
    return False


class Cap(flow.Monitor):
    """State: (redirection, captured text, HTML mode, saved values of the two switches)."""

    def __init__(self, f, R, init, start=(0, 0)):
        flow.Monitor.__init__(self, f, start, init + ((),))
        self.R, self.exits = R, set()
        self.hdr = None

    def step(self, st, i):
        f, R = self.f, self.R
        v, p, h, saved = st
        if i.op == 'load' and i.ops[0][0] == 'g':
            g = ir.gname(f.mod, i.ops[0][1])
            if g in (VAR, HTML):
                x = v if g == VAR else h
                return (v, p, h, tuple(sorted(set(x for x in saved if x[0] != i.id) | {(i.id, x)}, key=str)))
            return st
        if i.op == 'store' and i.ops[1][0] == 'g':
            g = ir.gname(f.mod, i.ops[1][1])
            if g in (VAR, HTML):
                o = i.ops[0]
                d = dict(saved)
                if o[0] == 'c':
                    xs = [1 if o[1] else 0]
                else:
                    o = flow.strip(f, o)
                    xs = [d[o[1]]] if o[0] == 'v' and o[1] in d else [0, 1]
                return [(x, p, h, saved) if g == VAR else (v, p, x, saved) for x in xs]
            if g == STR:
                return self.cleared(st, i)
        if i.op == 'store' and depends_on(f, i.ops[0]):
            return (v, 'L' if p == 'P' else p, h, saved)
        if i.op == 'call':
            if i.callee in R.nr:
                return None
            if i.callee == 'let':
                if i.ops[0][0] == 'g' and ir.gname(f.mod, i.ops[0][1]) == STR:
                    if depends_on(f, i.ops[1]):
                        return st
                    if i.ops[1][0] == 's' and not i.ops[1][1]:
                        return self.cleared(st, i)
                    if p == 'P':
                        self.err(i, 'lost')
                    return (v, 'P', h, saved)
                if depends_on(f, i.ops[1]):
                    return (v, 'L' if p == 'P' else p, h, saved)
                return st
            if i.callee in OUT:
                ops = i.ops[1:] if i.callee == 'fprintf' else i.ops[:1]
                if any(depends_on(f, o) for o in ops):
                    if p == 'W':
                        self.err(i, 'twice')
                    return (v, p if p == 'E' else 'W', h, saved)
                return st
            if i.callee in LOOK and any(depends_on(f, o) for o in i.ops):
                return (v, 'L' if p == 'P' else p, h, saved)
            ex = R.effect(i.callee, (v, p, h), self.context(i, saved))
            if ('append',) in ex:
                self.err(i, 'append')
                ex = ex - {('append',)}
            return [(x, y, z, saved) for x, y, z in sorted(ex)]
        if i.op == 'ret':
            if (v, p, h) == (self.init[0], 'E', self.init[2]):
                self.exits.add((v, p, h))
            else:
                self.err(i, ('exit', (v, p, h)))
            return None
        return st

    def cleared(self, st, i):
        v, p, h, saved = st
        if p == 'P':
            self.err(i, 'lost')
        return (v, 'E', h, saved)

    def context(self, i, saved):
        if i.callee not in self.R.depends:
            return ()
        g = self.f.mod.funcs[i.callee]
        d = dict(saved)
        out = []
        for k, o in enumerate(i.ops[:g.nargs]):
            if k in self.R.relevant[i.callee]:
                v = self.fact(o)
                o = flow.strip(self.f, o)
                if o[0] == 'v' and o[1] in d:
                    v = (d[o[1]], d[o[1]], None)
                if v != flow.TOP:
                    out.append((k, v))
        return tuple(out)

    def edge(self, st, b, t):
        v, p, h, saved = st
        d = dict(saved)
        f = self.f
        for (l, pr, r) in flow.edge_facts(f, b, t):
            o = flow.strip(f, l)
            if o[0] == 'v' and o[1] in d and r[0] == 'c':
                k = d[o[1]]
                if (pr == 'eq' and k != r[1]) or (pr == 'ne' and k == r[1]):
                    return None
            if o[0] == 'v' and o[1] >= f.nargs and r == ['c', 0]:
                x = f.inst[o[1]]
                if x.op == 'load' and x.sty != 'ptr' and depends_on(f, x.ops[0]):
                    if pr == 'eq':
                        p = 'E'
                    elif p == 'E':
                        return None
        k = (f.name, b, t)
        if k not in self.R.only:
            self.R.only[k] = self.check_only(b, t)
        if self.R.only[k]:
            p = 'L' if p == 'P' else p
        if self.hdr is not None and t == self.hdr:
            if v == 0 and p != 'E' and h == 0:
                self.err(f.blocks[b][-1], 'left' if p == 'P' else 'stale')
            return None
        lv = live(f)
        saved = tuple(x for x in saved if x[0] in lv[t])
        return (v, p, h, saved)

    def check_only(self, b, t):
        """the branch around the writing that a routine takes when it was only asked to check"""
        f = self.f
        if len(f.succ[b]) != 2:
            return False
        bt = f.br_targets(f.blocks[b][-1])
        if not bt or not only_args(f, bt[0]):
            return False
        if not asked(f, bt[0], t == bt[1]):
            return False
        o = [x for x in f.succ[b] if x != t]
        return bool(o) and f.ipdom.get(b) == t and any(i.is_call(*OUT) and any(depends_on(f, x) for x in i.ops) for i in f.blocks[o[0]])


def only_args(f, o, d=0):
    """is the condition computed from nothing but the arguments of the routine?"""
    o = flow.strip(f, o)
    if o[0] == 'c':
        return True
    if o[0] != 'v' or d > 6:
        return False
    if o[1] < f.nargs:
        return True
    i = f.inst[o[1]]
    return i.op in ('icmp', 'and', 'zext', 'sext', 'trunc', 'lshr', 'xor', 'freeze') and all(only_args(f, x, d + 1) for x in i.ops)


def value(f, o, args, d=0):
    o = flow.strip(f, o)
    if o[0] == 'c':
        return o[1]
    if o[0] != 'v' or d > 8:
        return None
    if o[1] < f.nargs:
        return args.get(o[1])
    i = f.inst[o[1]]
    xs = [value(f, x, args, d + 1) for x in i.ops[:2] if isinstance(x, list)]
    if None in xs:
        return None
    if i.op == 'icmp':
        a, b = xs
        return {'eq': a == b, 'ne': a != b}.get(i.pred, None if i.pred[0] not in 'us' else
                {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[i.pred[1:]])
    if i.op in ('and', 'xor', 'lshr'):
        return {'and': xs[0] & xs[1], 'xor': xs[0] ^ xs[1], 'lshr': xs[0] >> (xs[1] & 63)}[i.op]
    return xs[0]


def asked(f, o, want):
    """does some caller ask for this outcome of the condition by a constant?"""
    for g in f.mod.funcs.values():
        for c in g.calls(f.name):
            v = value(f, o, {k: x[1] for k, x in enumerate(c.ops[:f.nargs]) if x[0] == 'c'})
            if v is not None and bool(v) == want:
                return True
    return False


def arg_leaves(f, o, out, d=0):
    o = flow.strip(f, o)
    if o[0] != 'v' or d > 6:
        return
    if o[1] < f.nargs:
        out.add(o[1])
        return
    i = f.inst[o[1]]
    if i.op in ('icmp', 'and', 'or', 'zext', 'sext', 'trunc', 'freeze', 'select'):
        for x in i.ops:
            arg_leaves(f, x, out, d + 1)
    elif i.op == 'phi':
        for x, b in i.ops:
            arg_leaves(f, x, out, d + 1)


class All:
    def __init__(self, m):
        self.m = m
        self.nr = noreturn(m)
        touch, prints, html = set(), {'print2'}, set()
        for n, f in m.funcs.items():
            for i in f.insts():
                for o in i.ops:
                    if isinstance(o, list) and o and o[0] == 'g':
                        g = ir.gname(m, o[1])
                        if g == STR or g == VAR and i.op == 'store':
                            touch.add(n)
                        if g == HTML and i.op == 'store':
                            html.add(n)
        touch -= {'print2'}
        self.prints = m.may_call(prints) | prints
        self.direct = touch
        self.touch = (m.may_call(touch) | touch) - self.nr - {'print2'}
        self.touch |= {n for n in html if n in m.funcs}
        self.touch -= {'command', 'main'}
        self.busy, self.only = set(), {}
        self.depends = set()
        self.reset()
        for n in sorted(self.touch):
            for v in (0, 1):
                self.effect(n, (v, 'E', 0))
        self.depends = {n for (n, v, c), ex in self.memo.items() if any(x != v for x in ex)}
        rel = {}
        for n in sorted(self.depends):
            ks = self.flags(m.funcs[n])
            if ks:
                rel[n] = ks
        self.relevant = rel
        self.depends &= set(rel)
        self.reset()

    def flags(self, f):
        """arguments tested right before something happens to the captured text"""
        cd = f.control_deps()
        out, seen = set(), set()
        todo = [i.block for i in f.insts() if i.op == 'store' and i.ops[1][0] == 'g' and ir.gname(f.mod, i.ops[1][1]) in (VAR, STR) or
                i.op == 'call' and (i.callee in self.depends or i.is_call('let') and i.ops[0][0] == 'g' and ir.gname(f.mod, i.ops[0][1]) == STR or
                                    i.is_call(*OUT) and any(depends_on(f, x) for x in i.ops))]
        while todo:
            b = todo.pop()
            for a, s in cd[b]:
                if a in seen:
                    continue
                seen.add(a)
                bt = f.br_targets(f.blocks[a][-1])
                if not bt:
                    continue
                args = set()
                arg_leaves(f, bt[0], args)
                out |= args
                if not any(i.op in ('call', 'store') for i in f.blocks[a]):
                    todo.append(a)
        return sorted(k for k in out if f.args[k][2] == 'i8')

    def reset(self):
        self.memo, self.runs = {}, {}

    def monitor(self, f, s, start=(0, 0)):
        r = Cap(f, self, s, start)
        ids = set()
        tr = flow.Tracker(f)
        for c in f.calls(*self.depends) if self.depends else ():
            g = self.m.funcs[c.callee]
            for k, o in enumerate(c.ops[:g.nargs]):
                if k in self.relevant[c.callee]:
                    ids |= tr.dep_ids(o)
        r.track = ids
        return r

    def effect(self, fn, s, ctx=()):
        if fn not in self.touch or fn not in self.m.funcs:
            if fn in self.prints and s[0] and fn not in self.nr:
                if s[1] == 'W':
                    return {(s[0], 'P', s[2]), ('append',)}
                return {(s[0], 'P', s[2])}
            return {s}
        k = (fn, s, ctx)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy:
            return {s}
        self.busy.add(k)
        r = self.monitor(self.m.funcs[fn], s)
        r.fixed = dict(ctx)
        r.run()
        self.busy.discard(k)
        self.runs[k] = r
        for i, p, key in r.errors:
            if isinstance(p, tuple):
                r.exits.add(p[1])       # ways out that are consistent in themselves
        r.errors = [x for x in r.errors if not isinstance(x[1], tuple)]
        self.memo[k] = set(r.exits) or {s}
        return self.memo[k]


TEXT = {'lost': 'clears text that was captured but not written or used', 'twice': 'writes captured text a second time',
        'append': 'captures more text behind text that has been written already, so that it is written again',
        'stale': 'ends without clearing text that has been written or used, which the next capture then starts with',
        'left': 'ends with captured text that has not been written'}


def check(m, rep):
    cmd, = need(m, 'command')
    rep.rule('typestate of the capture string (empty, captured, looked at, written) along every path of every command and of the routines it calls, per value of the capture '
             'switch, HTML mode and flag arguments: text is cleared only after it was written to a file or used, is not written twice and not extended after it was written')
    A = All(m)
    h = command_loop(cmd)
    seen = {}
    for mode in (0, 1):
        r = A.monitor(cmd, (0, 'E', mode), start=(h, 0))
        r.hdr = h
        r.run()
        for i, p, key in r.errors:
            if isinstance(p, tuple):
                continue
            seen.setdefault(('command', p, i.id), (i, p, r.witness(key)))
    n = 0
    for (fn, v, ctx), rr in sorted(A.runs.items(), key=str):
        n += 1
        for i, p, key in rr.errors:
            seen.setdefault((fn, p, i.id), (i, p, rr.witness(key)))
    for n2 in sorted(A.direct):
        rep.count('routines that capture')
    rep.count('contexts analysed', n + 2)
    rep.count('obligations', n + 2)
    rep.atleast('routines that capture', 8)
    for (fn, p, k), (i, p2, w) in sorted(seen.items(), key=str):
        rep.violation('%s|%s' % (fn, p), '%s() %s (%s); path %s' % (fn, TEXT[p], loc(i), w))
