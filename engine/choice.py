"""C24: a step, a statement or a number the user gives is checked before it selects an entry."""
import ir
import flow
import sem
from conc import Conc, cell
from ir import loc, opexpr
from base import Broken
from common import *
from redirect import command_loop

# results that say "no such": value -> the rest is a valid number >= 1
LOOKUPS = {'getStepNum', 'getStatementNum', 'lookupLabel'}
CASTS = ('fptosi', 'trunc', 'sext', 'zext', 'freeze')
NEVER = -(1 << 62)


def closure(f, root):
    """values the number may reach and the cells it is stored in"""
    seen, w, cells = {root}, [root], set()
    while w:
        x = w.pop()
        for u in f.uses.get(x, ()):
            if u.op in CASTS or u.op in ('phi', 'select', 'add', 'sub'):
                if u.id not in seen:
                    seen.add(u.id)
                    w.append(u.id)
            elif u.op == 'store' and u.ops[0] == ['v', x]:
                c = cell(f, u.ops[1])
                if c and c not in cells:
                    cells.add(c)
                    for l in f.insts():
                        if l.op == 'load' and cell(f, l.ops[0]) == c and l.id not in seen:
                            seen.add(l.id)
                            w.append(l.id)
    return seen, cells


def index_params(m):
    """{function: {parameter: least offset}} for parameters used as an index without a test of their own"""
    out = {}
    for name, f in m.funcs.items():
        for a in range(f.nargs):
            if not str(f.args[a][2]).startswith('i') or f.args[a][2] in ('i1', 'i8'):
                continue
            k = own_index(f, a)
            if k is not None:
                out.setdefault(name, {})[a] = k
    for _ in range(3):
        for name, f in m.funcs.items():
            for i in f.calls():
                for pos, k in out.get(i.callee, {}).items():
                    if pos >= len(i.ops):
                        continue
                    a, c = offset(f, i.ops[pos])
                    if a is not None and a < f.nargs and not tested(f, a, i.block):
                        d = out.setdefault(name, {})
                        d[a] = min(d.get(a, k + c), k + c)
    return out


def offset(f, o):
    """(argument or value id, constant)"""
    o = flow.strip(f, o)
    c = 0
    while o[0] == 'v' and o[1] >= f.nargs:
        i = f.inst[o[1]]
        if i.op == 'add' and i.ops[1][0] == 'c':
            c += i.ops[1][1]
            o = flow.strip(f, i.ops[0])
        else:
            break
    return (o[1], c) if o[0] == 'v' else (None, c)


def own_index(f, a):
    best = None
    for i in f.insts():
        if i.op != 'getelementptr' or i.ops[0][0] != 'v':
            continue
        p = f.val(i.ops[0])
        if p is None or p.op != 'load':
            continue            # only arrays of the program's tables (held in memory)
        for x in i.path:
            if x[0] == 'f':
                continue
            v, c = offset(f, x[1])
            if v == a and not tested(f, a, i.block) and any(u.op in ('load', 'store', 'call', 'getelementptr') for u in f.uses.get(i.id, ())):
                best = c if best is None else min(best, c)
    return best


def tested(f, a, block):
    """is the argument compared with anything before the block?"""
    for b in range(len(f.blocks)):
        if not f.blocks[b] or not f.dominates(b, block) or b == block:
            continue
        bt = f.br_targets(f.blocks[b][-1])
        i = f.val(bt[0]) if bt else None
        if i is not None and i.op == 'icmp' and any(offset(f, o)[0] == a for o in i.ops):
            return True
        if f.blocks[b][-1].op == 'switch' and offset(f, f.blocks[b][-1].ops[0])[0] == a:
            return True
    return False


class Use(Conc):
    """extra: (lowest value, highest value, special values still possible, upper limits (text, c): value <= text + c, looked at)"""

    def __init__(self, f, src, nr, stop=None, params={}, specials=frozenset(), lo=None, depth=0):
        self.f = f
        arg = isinstance(src, int)
        self.srcid = src if arg else src.id
        self.stop, self.params, self.depth = stop, params, depth
        self.kind = 'arg' if arg else src.callee
        self.ids, cells = closure(f, self.srcid)
        self.sinks = 0
        Conc.__init__(self, f, (0, 0) if arg else (src.block, src.idx + 1), {}, cells, nr, (lo, None, specials, frozenset(), False))
        self.init = self.learn(self.init, self.srcid, ('x', 0))
        self.sinkblocks()

    def sinkblocks(self):
        f = self.f
        self.near = set()
        w = []
        for i in f.insts():
            if i.op == 'getelementptr' and f.uses.get(i.id) and any(x[0] != 'f' and self.may(x[1]) for x in i.path):
                p = f.val(i.ops[0])
                if p is not None and p.op == 'load':
                    w.append(i.block)
            elif i.op == 'call' and i.callee in f.mod.funcs and any(
                    (self.kind != 'val' or p in self.params.get(i.callee, ())) and self.may(o) for p, o in enumerate(i.ops)):
                w.append(i.block)
        self.any = bool(w)
        while w:
            b = w.pop()
            if b in self.near:
                continue
            self.near.add(b)
            if b != self.stop:
                w.extend(f.pred[b])

    def may(self, o):
        o = flow.strip(self.f, o)
        return o[0] == 'v' and o[1] in self.ids

    def value(self, st, o, d=0):
        f = self.f
        if o[0] == 'v' and o[1] == self.srcid:
            return ('x', 0)
        if o[0] == 'v' and o[1] >= f.nargs and d < 12:
            for k, v in st[1]:
                if k == o[1]:
                    return v
            i = f.inst[o[1]]
            if i.op in CASTS:
                v = self.value(st, i.ops[0], d + 1)
                if isinstance(v, tuple) and v[0] == 'x':
                    return v
                if i.op == 'fptosi':
                    return None
            if i.op == 'add':
                a, b = self.value(st, i.ops[0], d + 1), self.value(st, i.ops[1], d + 1)
                if isinstance(a, tuple) and a[0] == 'x' and isinstance(b, int):
                    return ('x', a[1] + b) if abs(a[1] + b) < 8 else None
                if isinstance(b, tuple) and b[0] == 'x' and isinstance(a, int):
                    return ('x', b[1] + a) if abs(b[1] + a) < 8 else None
                if isinstance(a, tuple) or isinstance(b, tuple):
                    return None
            if i.op in ('sub', 'mul', 'and', 'or', 'xor', 'select', 'getelementptr') and o[1] in self.ids:
                return None
            if i.op == 'icmp':
                a, b = self.value(st, i.ops[0], d + 1), self.value(st, i.ops[1], d + 1)
                if isinstance(a, tuple) and a[0] == 'x' or isinstance(b, tuple) and b[0] == 'x':
                    return None
        return Conc.value(self, st, o, d)

    def library(self, st, i):
        a = [self.value(st, o) for o in i.ops[:3]]
        if any(isinstance(x, tuple) and x[0] == 'x' for x in a):
            return None
        return Conc.library(self, st, i)

    def is_x(self, v):
        return isinstance(v, tuple) and v[0] == 'x'

    def step(self, st, i):
        f = self.f
        if i.op == 'getelementptr':
            p = f.val(i.ops[0])
            if p is not None and p.op == 'load':
                for x in i.path:
                    if x[0] != 'f':
                        v = self.value(st, x[1])
                        if self.is_x(v) and f.uses.get(i.id):
                            self.sink(st, i, v[1], opexpr(f, i.ops[0]))
        elif i.op == 'call' and i.callee in f.mod.funcs and i.id != self.srcid:
            ps = self.params.get(i.callee, {})
            for pos, o in enumerate(i.ops):
                v = self.value(st, o)
                if not self.is_x(v):
                    continue
                if pos in ps:
                    self.sink(st, i, v[1] + ps[pos], None)
                else:
                    for s in sorted(st[2][2]):
                        if s + v[1] < 0 and self.kind != 'val' and sensitive(f.mod, i.callee, pos, s + v[1], self.nr, self.params, self.depth):
                            self.sinks += 1
                            self.err(i, 'although it may be %d (no such)' % s)
        elif i.op == 'fcmp' and any(self.is_x(self.value(st, o)) for o in i.ops):
            e = st[2]
            st = (st[0], st[1], e[:4] + (True,))
        if i.id == self.srcid:
            return None
        if i.op in CASTS and i.id in self.ids:
            v = self.value(st, i.ops[0])
            if self.is_x(v):
                st = self.learn(st, i.id, v)
        r = Conc.step(self, st, i)
        if i.op in ('store', 'call') and isinstance(r, tuple) and any(not self.is_x(v) for k, v in r[0]):
            r = (tuple(x for x in r[0] if self.is_x(x[1])), r[1], r[2])
        return r

    def edge(self, st, b, t):
        st = Conc.edge(self, st, b, t)
        for r in st if isinstance(st, list) else [st]:
            if r is not None and not any(self.is_x(v) for k, v in r[0] + r[1]):
                return None
        return st

    def length(self, t, at):
        """does a text stand for the length of a list?"""
        if t.startswith('nmbrLen('):
            return True
        f = self.f
        if t.startswith('ld(&') and t.endswith(')') and t.count('(') == 1:
            best = None
            for i in f.insts():
                if i.op == 'store' and opexpr(f, i.ops[1]) == t[3:-1] and f.dom_inst(i, at) and (best is None or f.dom_inst(best, i)):
                    best = i
            v = best is not None and f.val(best.ops[0])
            return bool(v) and v.is_call('nmbrLen')
        return False

    def sink(self, st, i, k, base):
        lo, hi, sp, ups, odd = st[2]
        self.sinks += 1
        bad = sorted(s for s in sp if s + k < 0)
        if bad:
            self.err(i, 'although it may be %d (no such)' % bad[0])
            return
        if odd:
            return
        if (lo if lo is not None else NEVER) + k < 0 and (lo is None or lo < 1 or k < -1):
            self.err(i, 'although it may be %s' % ('negative' if lo is None else lo))
            return
        if self.kind == 'val' and not ups and hi is None:
            self.err(i, 'although it may be as large as you like')
            return
        if self.kind == 'val' and ups:
            for t, c in ups:
                if not self.length(t, i) or c + k <= -1:
                    return
            self.err(i, 'although it may be one beyond the last')

    def crossed(self, st, b, t):
        f = self.f
        if t == self.stop or t not in self.near:
            return None
        lo, hi, sp, ups, odd = st[2]
        for a, pr, c, ao, co in sem.deep_facts(f, b, t):
            v = self.value(st, ao)
            if not self.is_x(v):
                continue
            k = v[1]
            w = self.value(st, co)
            if self.is_x(w):
                continue
            if isinstance(w, int):
                n = w - k
                sp = frozenset(s for s in sp if {'eq': s == n, 'ne': s != n, 'slt': s < n, 'sle': s <= n, 'sgt': s > n, 'sge': s >= n,
                                                 'ult': 0 <= s < n, 'ule': 0 <= s <= n, 'ugt': not 0 <= s <= n, 'uge': not 0 <= s < n}[pr])
                if pr == 'eq':
                    if lo is not None and n < lo and n not in sp or hi is not None and n > hi:
                        return None
                    if n in sp or lo is None or n >= lo:
                        # only this value is left
                        if n in st[2][2]:
                            sp, lo, hi = frozenset([n]), n, n
                        else:
                            sp, lo, hi = frozenset(), n, n
                elif pr == 'ne':
                    if lo == n:
                        lo = lo + 1
                elif pr in ('sgt', 'sge'):
                    g = n + (pr == 'sgt')
                    if hi is not None and g > hi:
                        return None
                    lo = g if lo is None else max(lo, g)
                elif pr in ('slt', 'sle'):
                    h = n - (pr == 'slt')
                    hi = h if hi is None else min(hi, h)
                    if lo is not None and hi < lo and not sp:
                        return None
            elif pr in ('slt', 'sle', 'eq'):
                d = 0
                x = flow.strip(f, co)
                while x[0] == 'v' and x[1] >= f.nargs and f.inst[x[1]].op == 'add' and f.inst[x[1]].ops[1][0] == 'c':
                    d += f.inst[x[1]].ops[1][1]
                    x = flow.strip(f, f.inst[x[1]].ops[0])
                ups = ups | {(opexpr(f, x) if d else c, d - k - (pr == 'slt'))}
                if pr == 'eq':
                    odd = True
            elif pr in ('ult', 'ule'):
                odd = True
            elif pr in ('sgt', 'sge') and 'nmbrLen' not in c:
                odd = True          # compared with another number
        return (st[0], st[1], (lo, hi, sp, frozenset(list(sorted(ups))[:6]), odd))


class Result(Use):
    """the number read is returned only if it is a position of the proof"""

    def sinkblocks(self):
        self.near = set(range(len(self.f.blocks)))
        self.any = True

    def step(self, st, i):
        if i.op == 'ret' and i.ops:
            v = self.value(st, i.ops[0])
            if self.is_x(v) and v[1] == 0:
                lo, hi, sp, ups, odd = st[2]
                if lo is None or lo < 1:
                    self.err(i, 'may return a step number less than 1')
                elif not any(t.startswith('nmbrLen(arg1)') and c <= 0 for t, c in ups):
                    self.err(i, 'may return a step number beyond the end of the proof')
            return None
        return Use.step(self, st, i)


SENS = {}


def sensitive(m, name, pos, value, nr, params, depth):
    """does a function select an entry with a parameter that has this value?"""
    k = (id(m), name, pos, value)
    if k not in SENS:
        SENS[k] = False
        f = m.funcs[name]
        if depth < 4 and pos < f.nargs and str(f.args[pos][2]) in ('i64', 'i32'):
            r = Use(f, pos, nr, None, params, frozenset([value]), 1, depth + 1)
            r.init = (r.init[0], r.init[1], (value, value, frozenset([value]), frozenset(), False))
            if r.any:
                try:
                    r.run()
                    SENS[k] = bool(r.errors) and not r.unresolved
                except RuntimeError:
                    pass
    return SENS[k]


def check(m, rep):
    need(m, 'command')
    nr = noreturn(m)
    rep.rule('from each place where a number of the user is read (val) or a step or statement is looked up (getStepNum, getStatementNum, lookupLabel), on every path to a place where it selects an entry of a '
             'table, itself or inside a called function, the value for "no such" was excluded, or the number was compared with a lower and an upper limit')
    params = index_params(m)
    n = 0
    for name, f in sorted(m.funcs.items()):
        hdr = command_loop(f) if name == 'command' else None
        for i in list(f.insts()):
            if i.op != 'call' or i.callee not in LOOKUPS | {'val'} or i.block and not f.pred[i.block]:
                continue
            sp, lo = frozenset(), None
            if i.callee in LOOKUPS:
                sp, lo = frozenset([-1]), 1
                if i.callee == 'getStepNum' and i.ops[2:3] != [['c', 0]]:
                    sp = frozenset([-1, 0])
            r = Use(f, i, nr, hdr, params, sp, lo)
            if not r.any:
                continue
            try:
                r.run()
            except RuntimeError:
                rep.count('given up (too many states)', 1)
                continue
            if r.unresolved:
                rep.count('given up (too many states)', 1)
                continue
            if r.sinks:
                n += 1
                rep.count('obligations', 1)
            seen = set()
            for j, p, key in r.errors:
                if (j.id, p) in seen:
                    continue
                seen.add((j.id, p))
                rep.violation('%s|%s|%s' % (name, i.callee, j.callee or 'index'), '%s(): the number from %s() at %s selects an entry at %s %s (%s)' % (name, i.callee, loc(i), loc(j), p, r.witness(key)))
    rep.count('numbers that select an entry', n)
    rep.atleast('numbers that select an entry', 8)
    lookups(m, rep)
    commands(m, rep)


class Search(Conc):
    """One iteration of a search loop under an assumption: does the entry it looks at become the result?"""

    def __init__(self, f, header, record, fixed, facts, loads, calls, nr, what):
        self.record, self.fix, self.facts, self.loads, self.calls, self.header = record, fixed, facts, loads, calls, header
        self.what = what
        Conc.__init__(self, f, (header, 0), {}, set(), nr)

    def value(self, st, o, d=0):
        if o[0] == 'v' and o[1] in self.fix:
            return self.fix[o[1]]
        if o[0] == 'v' and o[1] >= self.f.nargs:
            i = self.f.inst[o[1]]
            if i.op == 'icmp':
                a, b = flow.strip(self.f, i.ops[0]), flow.strip(self.f, i.ops[1])
                for x, y, rel in self.facts:        # x rel y holds
                    for p, q, s in ((a, b, rel), (b, a, -rel)):
                        if p == x and q == y and i.pred in ORDER:
                            return int(ORDER[i.pred](s))
        return Conc.value(self, st, o, d)

    def step(self, st, i):
        if i.op == 'load':
            t = opexpr(self.f, ['v', i.id])
            for k, v in self.loads:
                if k(t):
                    return self.learn(st, i.id, v)
        return Conc.step(self, st, i)

    def call(self, st, i):
        return (self.calls.get(i.callee), st[2])

    def edge(self, st, b, t):
        r = Conc.edge(self, st, b, t)
        if r is None or (isinstance(r, list) and not r):
            return None
        if (b, t) in self.record:
            self.err(self.f.blocks[b][-1], self.what)
            return None
        return None if t == self.header else r


class Tally(Search):
    """after the search with a given number of matches: only -1 is returned"""

    def __init__(self, f, start, fixed, nr, n):
        self.n = n
        Search.__init__(self, f, start, (), fixed, [], [], {}, nr, '')
        self.header = None

    def step(self, st, i):
        if i.op == 'ret' and i.ops:
            if self.value(st, i.ops[0]) != -1:
                self.err(i, 'returns a statement although there are %d matches' % self.n)
            return None
        return Search.step(self, st, i)


def tally(f, p):
    """the values a conditional counter of a loop has (the phi, its increments and the phis that merge them)"""
    grp, inc = {p.id}, False
    change = True
    while change:
        change = False
        for i in f.insts():
            if i.id in grp:
                continue
            if i.op == 'add' and i.ops[0][0] == 'v' and i.ops[0][1] in grp and i.ops[1] == ['c', 1]:
                grp.add(i.id)
                inc = change = True
            elif i.op == 'phi' and i.ops and all((o[0] == 'v' and o[1] in grp or o == ['v', i.id]) for o, b in i.ops):
                grp.add(i.id)
                change = True
    ok = all(o[0] == 'c' and o[1] == 0 or o[0] == 'v' and (o[1] in grp or merges(f, o, grp)) for o, b in p.ops)
    return grp if inc and ok else None


def merges(f, o, grp):
    i = f.val(o)
    return i is not None and i.op == 'phi' and all(x[0] == 'v' and x[1] in grp for x, b in i.ops)


ORDER = {'eq': lambda s: s == 0, 'ne': lambda s: s != 0, 'slt': lambda s: s < 0, 'sle': lambda s: s <= 0, 'sgt': lambda s: s > 0, 'sge': lambda s: s >= 0}


def searches(f):
    """[(loop header, counter phi, edges over which the counter becomes the function's result)]"""
    heads = {l[0]: l for l in f.loops}
    rets = [b[-1] for b in f.blocks if b and b[-1].op == 'ret' and b[-1].ops]
    seen, w, edges = set(), [r.ops[0] for r in rets], {}
    while w:
        o = flow.strip(f, w.pop())
        if o[0] != 'v' or o[1] < f.nargs or o[1] in seen:
            continue
        seen.add(o[1])
        i = f.inst[o[1]]
        if i.op == 'select':
            w.extend(i.ops[1:3])
        elif i.op == 'phi':
            for v, pr in i.ops:
                v = flow.strip(f, v)
                c = f.val(v)
                if c is not None and c.op == 'phi' and c.block in heads and steps(f, c):
                    edges.setdefault((c.block, c.id), set()).add((pr, i.block))
                else:
                    w.append(v)
    return [(h, c, e) for (h, c), e in sorted(edges.items())]


def steps(f, phi):
    for v, pr in phi.ops:
        i = f.val(flow.strip(f, v))
        if i is not None and i.op == 'add' and i.ops[0] == ['v', phi.id] and i.ops[1][0] == 'c' and abs(i.ops[1][1]) == 1:
            return True
    return False


def lookups(m, rep):
    nr = noreturn(m)
    rep.rule('in getStatementNum and getStepNum, an entry that does not qualify (type not allowed, at or after the limit, other name, not a hypothesis of the statement, step already known) never becomes the result')
    need(m, 'getStatementNum', 'getStepNum')
    f = m.funcs['getStatementNum']
    for h, c, edges in searches(f):
        typ = lambda t: t.endswith('.type)') or t.endswith('.type')
        cases = []
        for n, (pos, ch) in enumerate(((3, 'a'), (4, 'p'), (5, 'e'), (6, 'f'))):
            cases.append(('a $%s although these are not allowed' % ch, {pos: 0, 7: 0}, [], [(typ, ord(ch))], {}))
        cnt = ['v', c]
        cases.append(('a statement after the limit', {}, [(cnt, ['v', 2], 1)], [], {}))
        cases.append(('the statement at the limit', {}, [(cnt, ['v', 2], 0)], [], {}))
        cases.append(('a statement with another name', {}, [], [], {'strcmp': 1, 'matchesList': 0}))
        for ch in 'ef':
            cases.append(('a $%s of another statement' % ch, {7: 1}, [], [(typ, ord(ch))], {'nmbrElementIn': 0}))
        for what, fixed, facts, loads, calls in cases:
            rep.count('cases of the statement search', 1)
            run(rep, f, Search(f, h, edges, fixed, facts, loads, calls, nr, 'takes %s' % what), what)
        for p in flow.phis(f, h):
            if p.id == c:
                continue
            grp = tally(f, p)
            if not grp:
                continue
            body = next(l[1] for l in f.loops if l[0] == h)
            outs = sorted({t for b in body for t in f.succ[b] if t not in body})
            for v in (0, 2):
                for t in outs:
                    rep.count('cases of the number of matches', 1)
                    run(rep, f, Tally(f, t, {x: v for x in grp if f.inst[x].op == 'phi'}, nr, v), 'matches')
    f = m.funcs['getStepNum']
    for h, c, edges in searches(f):
        rep.count('cases of the step search', 1)
        run(rep, f, Search(f, h, edges, {}, [], [(lambda t: t.startswith('ld(arg1['), 5)], {}, nr, 'takes a step that is already known'), 'known step')
        run(rep, f, Search(f, h, edges, {}, [], [(lambda t: t.startswith('ld(ld(&') and '[' in t, 0)], {}, nr, 'takes a step that is not essential'), 'not essential')
    for i in list(f.calls()):
        if i.callee == 'val' and (not i.block or f.pred[i.block]):
            rep.count('step numbers read', 1)
            run(rep, f, Result(f, i, nr), 'range')


def run(rep, f, s, what):
    try:
        s.run()
    except RuntimeError:
        rep.count('given up (too many states)', 1)
        return
    for i, p, key in s.errors[:1]:
        if not s.unresolved:
            rep.violation('%s|%s' % (f.name, what), '%s(): %s at %s (%s)' % (f.name, p, loc(i), s.witness(key)))


class Known(flow.Monitor):
    """from the choice of a step: an assignment is reached only after the step was found unknown"""

    def __init__(self, f, src, nr, stop, targets):
        self.nr, self.stop, self.targets, self.src = nr, stop, targets, src
        flow.Monitor.__init__(self, f, (src.block, src.idx + 1), ('?',))

    def step(self, st, i):
        if i.op == 'call':
            if i.callee in self.nr or i.id == self.src.id:
                return None
            if i.callee in self.targets:
                if st != ('yes',):
                    self.err(i, 'a step is assigned that need not be unknown')
                return None
        return st

    def edge(self, st, b, t):
        if t == self.stop:
            return None
        for a, pr, c, ao, co in sem.deep_facts(self.f, b, t):
            if co == ['c', -ord('?')] and a.startswith(('ld(ld(&g_ProofInProgress)[', 'ld(ld(&g_ProofInProgress.proof)[')):
                if pr == 'eq':
                    return ('yes',)
        return st


def commands(m, rep):
    need(m, 'command', 'assignStatement', 'proveByReplacement', 'getStatementNum')
    f = m.funcs['command']
    nr = noreturn(m)
    hdr = command_loop(f)
    rep.rule('ASSIGN and REPLACE take only a statement before the one being proved (a $e or $f only of that statement), PROVE only a $p, ASSIGN and MATCH STEP only an unknown step')
    starts = [i for i in f.calls() if i.callee == 'getStatementNum' and (not i.block or f.pred[i.block])]
    for i in starts:
        uses = targets(f, i, hdr, starts)
        o = i.ops
        lim = opexpr(f, o[2])
        if uses & {'assignStatement', 'proveByReplacement', 'replaceStatement', 'checkStmtMatch'}:
            rep.count('statements chosen for a step', 1)
            if o[2][0] == 'c' or lim.startswith('add(ld(&g_statements)') or lim == 'ld(&g_statements)':
                rep.violation('limit|%s' % '/'.join(sorted(uses)), 'command(): the statement chosen at %s for a step may be one after the statement being proved (limit %s)' % (loc(i), lim))
            for p, n in ((5, '$e'), (6, '$f')):
                if o[p][0] == 'c' and o[p][1] and o[7] == ['c', 0]:
                    rep.violation('hyp|%s' % n, 'command(): the %s chosen at %s for a step may belong to another statement' % (n, loc(i)))
        if 'g_proveStatement' in uses:
            rep.count('statements chosen to be proved', 1)
            for p, n in ((3, '$a'), (5, '$e'), (6, '$f')):
                if o[p][0] == 'c' and o[p][1]:
                    rep.violation('prove|%s' % n, 'command(): a %s can be chosen for PROVE at %s' % (n, loc(i)))
    for i in f.calls():
        if i.callee == 'getStepNum' or i.callee == 'val':
            r = Known(f, i, nr, hdr, {'assignStatement'} if i.callee == 'getStepNum' else {'interactiveMatch'})
            if not any(j.block in f.reach_from(i.block) for j in f.calls() if j.callee in r.targets):
                continue
            if not targets(f, i, hdr, []) & r.targets:
                continue
            rep.count('steps chosen to be assigned', 1)
            run(rep, f, r, 'unknown|%s' % '/'.join(r.targets))


def targets(f, src, hdr, starts):
    """functions the result is passed to and globals it is stored in"""
    ids, cells = closure(f, src.id)
    out = {c for c in cells if not c.startswith('A')}
    for j in f.calls():
        if any(flow.strip(f, o)[0] == 'v' and flow.strip(f, o)[1] in ids for o in j.ops):
            if f.dominates(src.block, j.block) and not any(k is not src and f.dominates(k.block, j.block) and f.dominates(src.block, k.block) for k in starts):
                out.add(j.callee)
    return out
