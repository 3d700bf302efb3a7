"""C26: what the program remembers about a database from one command to the next is forgotten by ERASE."""
import ir
import flow
import sem
from ir import loc, opexpr
from common import *

DB = {'g_Statement', 'g_MathToken', 'g_statements', 'g_mathTokens', 'g_sourcePtr', 'g_labelKey', 'g_mathKey'}
# numbers that only make sense for the database they were computed from
NUMBERS = ('g_statements', 'g_dummyVars', 'g_mathboxes', 'g_extHtmlStmt', 'g_minSubstLen', 'g_wrkProofMaxSize', 'g_texDefsRead',
           'g_bracketMatchInit')
STATE = ('g_sourceHasBeenRead', 'g_showStatement', 'g_proveStatement')
LISTS = ('vstring', 'nmbrString*', 'pntrString*')


def initial(m, g):
    d = m.globals.get(g)
    i = d.get('init') if d else None
    return i if i and i[0] == 'c' else None


def empty(o):
    return o[0] == 's' and o[1] == '' or 'Null' in str(o)


def load_g(f, o):
    o = flow.strip(f, o)
    i = f.val(o)
    if i is not None and i.op == 'load' and i.ops[0][0] == 'g':
        return i.ops[0][1]
    return None


def reads_db(m):
    """functions that look at the database, themselves or through others"""
    direct = {n for n, f in m.funcs.items() if any(i.op == 'load' and i.ops[0][0] == 'g' and i.ops[0][1] in DB for i in f.insts())}
    return direct, m.may_call(direct) | direct


def caches(m, readers):
    """{global: place} scalars whose first value is the sign for "not computed yet", computed from the database"""
    out = {}
    for n, f in m.funcs.items():
        if n not in readers or n == 'command':
            continue
        stores = {}
        for i in f.insts():
            if i.op == 'store' and i.ops[1][0] == 'g':
                stores.setdefault(i.ops[1][1], []).append(i)
        for g, ss in stores.items():
            c = initial(m, g)
            if c is None:
                continue
            if all(s.ops[0] == c for s in ss):
                continue
            hit = False
            for b in range(len(f.blocks)):
                for t in f.succ[b]:
                    for l, p, r in flow.edge_facts(f, b, t):
                        if load_g(f, l) == g and p == 'eq' and r == c and len(f.pred[t]) == 1 and \
                                any(s.ops[0] != c and f.dominates(t, s.block) for s in ss):
                            ld = f.val(flow.strip(f, l))
                            if region_reads(m, f, t, readers):
                                hit = True
                                where = ld
            if hit and not set_before(f, g, where) and not any(s.ops[0] == c and reaches(f, s, where) for s in ss):
                out.setdefault(g, loc(where))
    return out


def region_reads(m, f, t, readers):
    for b in range(len(f.blocks)):
        if f.dominates(t, b):
            for i in f.blocks[b]:
                if i.op == 'load' and i.ops[0][0] == 'g' and i.ops[0][1] in DB or i.op == 'call' and i.callee in readers:
                    return True
    return False


def reaches(f, s, ld):
    """the routine itself sets the variable back before the test"""
    if s.block == ld.block and s.idx < ld.idx:
        return True
    seen, st = set(), list(f.succ[s.block])
    while st:
        b = st.pop()
        if b not in seen:
            seen.add(b)
            st += f.succ[b]
    return ld.block in seen


def set_before(f, g, ld):
    """on every path from the entry to the test the function has itself set the variable"""
    seen = set()
    st = [0]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        killed = False
        for i in f.blocks[b]:
            if i is ld:
                return False
            if i.op == 'store' and i.ops[1] == ['g', g]:
                killed = True
                break
        if not killed:
            st += f.succ[b]
    return True


def lists(m, readers, erasers):
    """{global: place} strings and lists filled from the database that no routine but the ones ERASE runs empties again"""
    out, emptied = {}, set()
    for n, f in m.funcs.items():
        for i in f.calls():
            for k, o in enumerate(i.ops):
                if not (isinstance(o, list) and o[0] == 'g') or m.globals.get(o[1], {}).get('dtype') not in LISTS:
                    continue
                if i.callee in ('let', 'nmbrLet', 'pntrLet') and k == 0 and empty(i.ops[1]):
                    if n not in erasers and n not in ('freeData', 'main'):
                        emptied.add(o[1])
                elif n in readers and n not in ('command', 'main', 'processUndoStack') and n not in erasers:
                    if not (i.callee in ('let', 'nmbrLet', 'pntrLet') and const_text(i.ops[1])):
                        out.setdefault(o[1], loc(i))
    return {g: w for g, w in out.items() if g not in emptied}


def const_text(o):
    return o[0] == 's'


class Resets(flow.Monitor):
    """State: what has certainly been reset on the path."""

    def __init__(self, f, A, want, fixed, start=(0, 0), init=frozenset(), hdr=None):
        flow.Monitor.__init__(self, f, start, init)
        self.A, self.want, self.fixed, self.hdr = A, want, fixed, hdr
        self.ends = []

    def step(self, st, i):
        f, m = self.f, self.A.m
        if i.op == 'store' and i.ops[1][0] == 'g' and i.ops[1][1] in self.want:
            g = i.ops[1][1]
            c = initial(m, g)
            if c is not None:
                return st | {g} if i.ops[0] == c else st - {g}
            return st | {g} if empty(i.ops[0]) else st - {g}
        if i.op == 'call':
            if i.callee in self.A.nr:
                return None
            if i.callee in ('let', 'nmbrLet', 'pntrLet') and i.ops[0][0] == 'g':
                g = i.ops[0][1]
                if g in self.want:
                    return st | {g} if empty(i.ops[1]) else st - {g}
                return st
            if i.callee in m.funcs and i.callee not in self.A.quiet:
                fx = {k: (o[1], o[1], None) for k, o in enumerate(i.ops[:m.funcs[i.callee].nargs]) if o[0] == 'c'}
                return st | self.A.must(i.callee, fx)
        if i.op == 'ret':
            self.ends.append((i, st))
            self.err(i, ('ret', st))
            return None
        return st

    def edge(self, st, b, t):
        f, m = self.f, self.A.m
        for l, p, r in flow.edge_facts(f, b, t):
            g = load_g(f, l)
            if g is None or p != 'eq':
                continue
            if g == 'g_statements' and r == ['c', 0]:
                return None       # nothing has been read
            if g in self.want and r == initial(m, g):
                st = st | {g}
        if t == self.hdr:
            self.err(f.blocks[b][-1], ('next', st))
            return None
        return st


class All:
    def __init__(self, m, want):
        self.m, self.want = m, want
        self.nr = noreturn(m)
        touch = set()
        for n, f in m.funcs.items():
            for i in f.insts():
                if i.op in ('store', 'call') and any(isinstance(o, list) and o[0] == 'g' and o[1] in want for o in i.ops):
                    touch.add(n)
        self.quiet = set(m.funcs) - (m.may_call(touch) | touch) | {'let', 'nmbrLet', 'pntrLet'}
        self.memo, self.busy = {}, set()

    def must(self, fn, fx):
        k = (fn, tuple(sorted(fx.items())))
        if k in self.memo:
            return self.memo[k]
        if fn in self.busy:
            return frozenset()
        self.busy.add(fn)
        r = Resets(self.m.funcs[fn], self, self.want, fx)
        r.track = {x for x in fx}
        res = None
        for i, p, key in r.run():
            res = p[1] if res is None else res & p[1]
        self.busy.discard(fn)
        self.memo[k] = res if res is not None else frozenset(self.want)
        return self.memo[k]


def check(m, rep):
    cmd, es = need(m, 'command', 'eraseSource')
    rep.rule('everything kept between commands that was computed from the database is set back to its first value on every path of ERASE: lazily computed scalars, strings and lists '
             'filled from the database, and the numbers and marks of the current database')
    direct, readers = reads_db(m)
    erasers = {'eraseSource'}
    for c in es.calls():
        if c.callee in m.funcs and c.callee not in ('let', 'nmbrLet', 'pntrLet'):
            erasers.add(c.callee)
    ca = caches(m, direct | {n for n in readers if n != 'command'})
    li = lists(m, direct, erasers)
    nums = {g: None for g in NUMBERS if g in m.globals}
    want = set(ca) | set(li) | set(nums) | {g for g in STATE if g in m.globals}
    A = All(m, want)
    rep.count('obligations', len(want))
    rep.count('cached numbers', len(ca))
    rep.count('cached strings and lists', len(li))
    rep.sample('caches: ' + ', '.join(sorted(ca)))
    rep.sample('strings and lists: ' + ', '.join(sorted(li)))
    rep.atleast('cached numbers', 2)
    done = A.must('eraseSource', {})
    for g in sorted(want - set(STATE)):
        if g not in done:
            w = ca.get(g) or li.get(g)
            rep.violation('kept|%s' % g, '%s%s is not reset on every path of eraseSource(), so it still holds what was computed from the erased database' % (
                g, ' (computed in %s)' % w if w else ''))
    # the command itself
    import redirect
    import paths
    h = redirect.command_loop(cmd)
    for b in paths.entry(cmd, 'ERASE'):
        r = Resets(cmd, A, want, {}, (b, 0), frozenset(), h)
        rep.count('ERASE entries')
        for i, p, key in r.run():
            if not p[1] & set(nums):
                continue          # the user declined
            for g in STATE:
                if g in want and g not in p[1]:
                    rep.violation('kept|%s' % g, '%s is not reset when ERASE ends (%s); path %s' % (g, loc(i), r.witness(key)))
