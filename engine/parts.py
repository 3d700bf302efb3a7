"""C37: the parts of the proof in progress (steps, targets, sources, user assignments) stay in step.

Every function that gives one of the four arrays of a proof state a new value is followed along all of its paths; the new value is kept
as a list of pieces (stretch of the old array, stretch of another string, empty entries, single elements) whose ends are sums of
symbolic terms.  At the return the pieces of the four arrays are laid beside each other.  Pieces that are not recognised make the array
unknown and the rules about it silent."""
import re
import ir
import flow
import sem
from ir import loc, opexpr
from common import *
from trace import Lin

FIELDS = ('target', 'source', 'user')
PARTS = ('proof',) + FIELDS
N = 'the old length'


def clean(t):
    return re.sub(r'#\d+', '', t)


def part(f, o):
    """(text of the proof structure, field) whose address is o"""
    o = flow.strip(f, o)
    t = opexpr(f, o)
    for x in FIELDS:
        if t.endswith('.' + x):
            b = t[:-len(x) - 1]
            return (b, x) if struct(f, b) else None
    return (t, 'proof') if struct(f, t) else None


def struct(f, t):
    if t in ('&g_ProofInProgress', 'g_ProofInProgress'):
        return True
    r = re.match(r'arg(\d+)$', t)
    return bool(r) and int(r.group(1)) < len(f.args) and 'pip_struct' in f.args[int(r.group(1))][1]


def held(f, o):
    """the part that value o is read from"""
    i = f.val(flow.strip(f, o))
    return part(f, i.ops[0]) if i is not None and i.op == 'load' else None


def entry(f, o):
    """(structure, field, index operands to be added) of the address of one entry of a part"""
    i = f.val(flow.strip(f, o))
    if i is None:
        return None
    if i.op == 'load':
        p = held(f, o)
        return p + ((),) if p else None
    if i.op == 'getelementptr' and len(i.path) == 1 and i.path[0][0] != 'f':
        p = entry(f, i.ops[0])
        return p[:2] + (p[2] + (i.path[0][1],),) if p else None
    return None


def empty(f, o):
    t = opexpr(f, flow.strip(f, o))
    return t.startswith(('&g_NmbrNull', '&g_PntrNull', 'g_NmbrNull', 'g_PntrNull'))


def length(segs):
    r = Lin(0)
    for s in segs:
        r = r + (s[3] - s[2])
    return r


class Follow:
    """State: (values of calls, parts, facts on lengths); parts: (structure, part) -> tuple of pieces (kind, what, lo, hi) or None."""

    def __init__(self, f, nr):
        self.f, self.nr = f, nr
        self.ends = []
        self.other = set()
        self.dead = sem.dead_blocks(f, nr)

    def run(self):
        flow.explore(self.f, ((), (), ()), self.step, self.edge, limit=60000)

    def lin(self, o, vals, d=0):
        f = self.f
        o = flow.strip(f, o)
        if o[0] == 'c':
            return Lin(o[1])
        i = f.val(o)
        if i is not None and d < 12:
            if i.op in ('add', 'sub'):
                a, b = self.lin(i.ops[0], vals, d + 1), self.lin(i.ops[1], vals, d + 1)
                return a + b if i.op == 'add' else a - b
            if i.op == 'call' and i.id in dict(vals):
                return dict(vals)[i.id]
        return Lin(0, {(clean(opexpr(f, o))): 1})

    def initial(self, p):
        return (('old', p, Lin(0), Lin(0, {N: 1})),)

    def now(self, parts, p):
        return dict(parts).get(p, self.initial(p))

    def text(self, o, st, d=0):
        """pieces of a string value"""
        f = self.f
        vals, parts, _ = st
        o = flow.strip(f, o)
        if empty(f, o):
            return ()
        h = held(f, o)
        if h:
            return self.now(parts, h)
        i = f.val(o)
        if i is None or i.op == 'load':
            t = clean(opexpr(f, o))
            return (('new', t, Lin(0), Lin(0, {'nmbrLen(%s)' % t: 1})),)
        if i.op != 'call' or d > 12 or not i.callee:
            return None
        n = i.callee[4:]
        if i.callee[:4] not in ('nmbr', 'pntr'):
            return None
        if n == 'Cat':
            r = ()
            for x in i.ops:
                if x[0] == 'n' or opexpr(f, x) == 'null':
                    break
                y = self.text(x, st, d + 1)
                if y is None:
                    return None
                r += y
            return r
        if n in ('Space', 'NSpace', 'PSpace'):
            return (('blank', n, Lin(0), self.lin(i.ops[0], vals)),)
        if n == 'MakeTempAlloc':
            return self.text(i.ops[0], st, d + 1)
        if n == 'AddElement':
            y = self.text(i.ops[0], st, d + 1)
            if y is None:
                return None
            if i.callee == 'pntrAddElement':
                return y + (('blank', n, Lin(0), Lin(1)),)
            return y + (('elem', self.lin(i.ops[1], vals), Lin(0), Lin(1)),)
        if n in ('Left', 'Right', 'Seg', 'Mid'):
            y = self.text(i.ops[0], st, d + 1)
            if y is None or len(y) != 1:
                return None
            k, w, lo, hi = y[0]
            a = self.lin(i.ops[1], vals)
            if n == 'Left':
                return ((k, w, lo, lo + a),)
            if n == 'Right':
                return ((k, w, lo + a - 1, hi),)
            b = self.lin(i.ops[2], vals)
            return ((k, w, lo + a - 1, lo + b),) if n == 'Seg' else ((k, w, lo + a - 1, lo + a - 1 + b),)
        return None

    def reads(self, o, d=0):
        """the parts a string value is made of"""
        h = held(self.f, o)
        if h:
            return {h}
        i = self.f.val(flow.strip(self.f, o))
        r = set()
        if i is not None and i.op == 'call' and d < 12 and i.callee and i.callee[:4] == 'pntr' and i.callee != 'pntrLen' and 'Space' not in i.callee:
            for x in i.ops:
                if x[0] == 'v':
                    r |= self.reads(x, d + 1)
        return r

    def put(self, st, p, v):
        d = dict(st[1])
        d[p] = v
        return (st[0], tuple(sorted(d.items(), key=lambda x: x[0])), st[2])

    def step(self, st, i):
        f = self.f
        if i.op == 'ret':
            self.ends.append((st, i))
            return None
        if i.op != 'call':
            return st
        if i.callee in self.nr:
            return None
        if i.callee in ('nmbrLen', 'pntrLen', 'subproofLen'):
            h = held(f, i.ops[0])
            v = None
            if h:
                w = self.now(st[1], h)
                if w is not None and i.callee != 'subproofLen':
                    v = length(w)
                elif w == self.initial(h):
                    v = Lin(0, {('subproof', repr(self.lin(i.ops[1], st[0]))): 1})
                if v is None:
                    v = Lin(0, {('subproof', 'of the changed proof', i.id) if i.callee == 'subproofLen' and w is not None else 'value %d' % i.id: 1})
                d = dict(st[0])
                d[i.id] = v
                return (tuple(sorted(d.items())), st[1], st[2])
            return st
        for k, o in enumerate(i.ops):
            if o[0] not in 'vga' and o[0] != 'e':
                continue
            p = part(f, o)
            if p is None or (p[1] == 'proof' and i.callee not in ('nmbrLet',)):
                if p is not None and i.callee is not None and any(x[0][0] == p[0] for x in st[1]):
                    for x in PARTS:
                        st = self.put(st, (p[0], x), None)
                continue
            if i.callee in ('nmbrLet', 'pntrLet') and k == 0:
                v = self.text(i.ops[1], st)
                if p[1] != 'proof':
                    self.other |= {(i, p, x) for x in self.reads(i.ops[1]) if x[0] == p[0] and x[1] != p[1]}
                if v is not None and len(v) > 8:
                    v = None
                st = self.put(st, p, v)
            else:
                st = self.put(st, p, None)
        return st

    def edge(self, st, b, t):
        if t in self.dead:
            return None
        f = self.f
        n = []
        for a, p, c, ao, co in sem.deep_facts(f, b, t):
            if ao[0] in ('v', 'c') and co[0] in ('v', 'c'):
                d = self.lin(ao, st[0]) - self.lin(co, st[0])
                if d.t and all(self.free(x) for x, k in d.t):
                    n.append((d, p))
        if n:
            return (st[0], st[1], tuple(sorted(set(st[2]) | set(n), key=repr))[:12])
        return st

    def free(self, x):
        return (isinstance(x, tuple) and x[0] == 'subproof') or (isinstance(x, str) and x.startswith('nmbrLen('))


def unequal(d, facts):
    """True: the difference d is not 0 on some run of the path; False: it is 0; None: not known"""
    if d.const is not None:
        return d.const != 0
    if len(d.t) != 1:
        if any(set(x for x, k in g.t) & set(x for x, k in d.t) for g, p in facts):
            return None
        return True if all(free(x) for x, k in d.t) else None
    x, k = d.t[0]
    if not free(x) or abs(k) != 1:
        return None
    lo, hi, ne = 1, None, set()
    if isinstance(x, str) and x == N:
        lo = 1
    for g, p in facts:
        if [y for y, _ in g.t] != [x]:
            if x in [y for y, _ in g.t]:
                return None
            continue
        kk = g.t[0][1]
        if abs(kk) != 1:
            return None
        v = -g.c * kk          # g pred 0  <=>  x (pred or mirrored) v
        if kk < 0:
            p = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(p, p)
        if p == 'eq':
            lo, hi = max(lo, v), v if hi is None else min(hi, v)
        elif p == 'ne':
            ne.add(v)
        elif p == 'sgt':
            lo = max(lo, v + 1)
        elif p == 'sge':
            lo = max(lo, v)
        elif p == 'slt':
            hi = v - 1 if hi is None else min(hi, v - 1)
        elif p == 'sle':
            hi = v if hi is None else min(hi, v)
        else:
            return None
    zero = -d.c * k
    while lo in ne:
        lo += 1
    while hi is not None and hi in ne:
        hi -= 1
    if hi is not None and lo > hi:
        return False
    return not (lo == hi == zero)


def free(x):
    return x == N or (isinstance(x, tuple) and x[0] == 'subproof') or (isinstance(x, str) and (
        x.startswith('nmbrLen(') or re.match(r'arg\d+$', x) is not None))


def lay(f, rep, st, i, base, mon):
    """lay the four parts beside each other"""
    facts = st[2]
    got = {x: mon.now(st[1], (base, x)) for x in PARTS}
    pr = got['proof']
    if pr is None:
        return
    rep.count('values', sum(1 for x in PARTS if got[x] is not None))
    init = {x: mon.initial((base, x)) for x in PARTS}
    lp = length(pr)
    for x in FIELDS:
        if got[x] is None:
            continue
        rep.count('lengths')
        if unequal(length(got[x]) - lp, facts):
            rep.violation('length|%s|%s' % (f.name, x),
                          '%s(): the proof gets the length %s but its %s part the length %s (path to %s)' % (f.name, lp, x, length(got[x]), loc(i)))
    if pr == init['proof'] or not pr:
        return
    first = pr[0] if pr[0][0] == 'old' and pr[0][2] == Lin(0) else None
    last = pr[-1] if pr[-1][0] == 'old' and pr[-1][3] == Lin(0, {N: 1}) else None
    if first is None or last is None or first is last:
        return
    mid = pr[1:-1]
    gone = last[2] - first[3]
    sub = Lin(0, {('subproof', repr(last[2] - 1)): 1})
    rep.count('replacements')
    taken = [s for s in mid if s[0] == 'elem']
    if len(mid) == 1 and taken:
        if taken[0][1].const is not None and taken[0][1].const != -63:
            rep.violation('unknown|%s' % f.name, '%s(): the step taken back does not become an unknown step (%s)' % (f.name, loc(i)))
        if unequal(gone - sub, ()):
            rep.violation('gone|%s' % f.name, '%s(): the steps removed are not those of the subproof of the step: %s (%s)' % (f.name, gone, loc(i)))
    elif len(mid) == 1 and mid[0][0] == 'new':
        if (gone - 1).const not in (None, 0):
            rep.violation('gone|%s' % f.name, '%s(): other steps than the unknown one are removed (%s)' % (f.name, loc(i)))
    for x in FIELDS:
        v = got[x]
        if v is None or len(v) < 2:
            continue
        a, b = v[0], v[-1]
        if a[0] == 'old' and a[2] == Lin(0):
            d = (a[3] - first[3]).const
            if d is not None and (d < 0 or (d > 0 and x != 'source')):
                rep.violation('before|%s|%s' % (f.name, x), '%s(): the %s part keeps the first %s entries, the proof the first %s steps (%s)' % (
                    f.name, x, a[3], first[3], loc(i)))
        if b[0] == 'old' and b[3] == Lin(0, {N: 1}):
            d = (b[2] - last[2]).const
            if d is not None and (d > 0 or (d != -1 and x != 'source')):
                rep.violation('after|%s|%s' % (f.name, x), '%s(): the %s part goes on with entry %s, the proof with step %s (0 = first); the step '
                              'concerned keeps its %s (%s)' % (f.name, x, b[2], last[2], x, loc(i)))
    if taken:
        erased(f, rep, mon, base, first[3], last[2] - 1, got)


def erased(f, rep, mon, base, lo, step, got):
    """entries emptied in place before a subproof is taken back"""
    seen = {}
    for i in f.insts():
        if not i.is_call('nmbrLet'):
            continue
        e = entry(f, i.ops[0])
        if e is None and part(f, i.ops[0]) is None and any('.' + x in opexpr(f, i.ops[0]) for x in FIELDS):
            return
        if e is None or e[0] != base or not empty(f, i.ops[1]):
            continue
        seen.setdefault(e[1], []).append((i, e[2]))
    vals = max((st[0] for st, _ in mon.ends), key=len, default=())
    for x in FIELDS:
        reach = False
        odd = False
        for i, ix in seen.get(x, ()):
            rep.count('erasures')
            l = sem.loop_of(f, i.block)
            t = Lin(0)
            for x1 in ix:
                t = t + mon.lin(x1, vals)
            if l is None:
                if (t - step).const == 0:
                    reach = True
                    if x != 'source':
                        rep.violation('erased|%s' % x, '%s: the %s of the step that stays is erased' % (loc(i), x))
                elif (t - step).const is None:
                    odd = True
                continue
            r = span(f, l, t, mon, vals, i.block)
            if r is None:
                odd = True
                continue
            a, b, ne = r
            top = (b - step).const
            if top is None:
                odd = True
                continue
            has = top >= 0 and not any((y - step).const == 0 for y in ne)
            if top > 0 or (has and x != 'source'):
                rep.violation('erased|%s' % x, '%s: the %s of a step that stays is erased' % (loc(i), x))
            if has:
                reach = True
            if (a - lo).const is not None and (a - lo).const < 0:
                rep.violation('erased|%s' % x, '%s: the %s of a step before the subproof is erased' % (loc(i), x))
        if x == 'source' and not reach and not odd and got[x] is not None:
            b = got[x][-1] if got[x] else None
            if b and b[0] == 'old' and (b[2] - step).const == 0:
                rep.violation('stale|source', '%s(): the unknown step keeps the source of the step that was taken back' % f.name)


def span(f, l, t, mon, vals, block):
    """(smallest, largest, excluded) index inside the loop"""
    lo = hi = None
    ne = []
    phs = {clean(opexpr(f, ['v', p.id])): p for p in flow.phis(f, l[0])}
    own = [(x, k) for x, k in t.t if x in phs]
    if len(own) != 1 or abs(own[0][1]) != 1:
        return None
    me, sign = own[0]
    ph = phs[me]
    rest = t - Lin(0, {me: sign})
    starts = [o for o, b in ph.ops if b not in l[1]]
    steps = {sem.step_of(f, o, ph.id) for o, b in ph.ops if b in l[1]}
    if len(starts) != 1 or steps not in ({1}, {-1}):
        return None
    s = mon.lin(starts[0], vals)
    if steps == {1}:
        lo = s
    else:
        hi = s
    b = block
    fs = []
    while b != l[0]:
        ps = [p for p in f.pred[b]]
        d = f.idom.get(b)
        if d is None or d == b:
            return None
        # facts that hold on all paths from the dominator
        if len(ps) == 1:
            fs += list(sem.deep_facts(f, ps[0], b))
        b = d
    for a, p, c, ao, co in fs:
        if me not in clean(a) and me not in clean(c):
            continue
        if ao[0] not in 'vc' or co[0] not in 'vc':
            return None
        v = mon.lin(co, vals) - mon.lin(ao, vals) + Lin(0, {me: 1})     # me pred v, or mirrored
        if any(x == me for x, k in v.t):
            v = mon.lin(ao, vals) - mon.lin(co, vals) + Lin(0, {me: 1})
            p = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(p, p)
        if any(me in str(x) for x, k in v.t):
            return None
        if p in ('slt', 'sle'):
            v = v - 1 if p == 'slt' else v
            k = None if hi is None else (v - hi).const
            if hi is None or (k is not None and k < 0):
                hi = v
        elif p in ('sgt', 'sge'):
            v = v + 1 if p == 'sgt' else v
            k = None if lo is None else (v - lo).const
            if lo is None or (k is not None and k > 0):
                lo = v
        elif p == 'ne':
            ne.append(v)
        else:
            return None
    if lo is None or hi is None:
        return None
    if sign < 0:
        lo, hi, ne = hi.scale(-1), lo.scale(-1), [x.scale(-1) for x in ne]
    return lo + rest, hi + rest, [x + rest for x in ne]


def place(m, rep, nr):
    """a subproof that replaces another one goes where that one was"""
    for f in m.funcs.values():
        if not getattr(f, 'blocks', None):
            continue
        cut = [i for i in f.insts() if i.is_call('deleteSubProof')]
        add = [i for i in f.insts() if i.is_call('addSubProof')]
        for d in cut:
            seen = set()
            todo = [(d.block, f.blocks[d.block].index(d) + 1)]
            while todo:
                b, k = todo.pop()
                stop = False
                for i in f.blocks[b][k:]:
                    if i.op != 'call':
                        continue
                    if i.callee in ('deleteSubProof', 'initProofStruct', 'copyProofStruct') or i.callee in nr:
                        stop = True
                        break
                    if i.is_call('addSubProof'):
                        put(f, rep, d, i)
                        stop = True
                        break
                if stop:
                    continue
                for t in f.succ[b]:
                    if t not in seen:
                        seen.add(t)
                        todo.append((t, 0))
        for i in add:
            known(f, rep, i)


def sums(f, o, d=0):
    """Lin over operands"""
    o = flow.strip(f, o)
    if o[0] == 'c':
        return Lin(o[1])
    i = f.val(o)
    if i is not None and d < 10 and i.op in ('add', 'sub'):
        a, b = sums(f, i.ops[0], d + 1), sums(f, i.ops[1], d + 1)
        return a + b if i.op == 'add' else a - b
    return Lin(0, {tuple(o[:2]) if not isinstance(o[1], (list, dict)) else opexpr(f, o): 1})


def put(f, rep, d, i):
    x, t = sums(f, d.ops[0]), sums(f, i.ops[1])
    r = t - x - 1
    rep.count('places')
    if r.const is not None:
        # the subproof was longer than one step
        rep.violation('place|%s' % f.name, '%s: the subproof of step %s (0 = first) was deleted at %s but its replacement does not go to where it began' % (
            loc(i), clean(opexpr(f, d.ops[0])), loc(d)))
        return
    if len(r.t) != 1 or r.t[0][1] != -1:
        return
    q = f.val(list(r.t[0][0])) if isinstance(r.t[0][0], tuple) else None
    if q is not None and q.op == 'phi':
        for o, b in q.ops:
            measured(f, rep, d, i, x, f.val(flow.strip(f, o)), None)
    else:
        measured(f, rep, d, i, x, q, r)


def measured(f, rep, d, i, x, q, r):
    if q is None or not q.is_call('subproofLen'):
        return
    h = held(f, q.ops[0])
    if h is None or h[1] != 'proof':
        return
    if f.dominates(d.block, q.block) and (d.block != q.block or f.blocks[d.block].index(d) < f.blocks[d.block].index(q)):
        rep.violation('measured|%s' % f.name, '%s: the length of the subproof is taken after it was deleted at %s' % (loc(q), loc(d)))
        return
    k = (sums(f, q.ops[1]) - x).const
    if k is not None and k != 0:
        rep.violation('measured|%s' % f.name, '%s: the length is that of the subproof of another step than the one deleted at %s' % (loc(q), loc(d)))
        return
    if k == 0 and r is not None and r.c != 0:
        rep.violation('place|%s' % f.name, '%s: the replacement of the subproof deleted at %s is put %+d steps beside it' % (loc(i), loc(d), r.c))


def known(f, rep, i):
    """what is worked out after an insertion is worked out for the steps inserted"""
    b, k = i.block, f.blocks[i.block].index(i) + 1
    t = sums(f, i.ops[1])
    for _ in range(4):
        for j in f.blocks[b][k:]:
            if j.op == 'call' and j.callee in ('addSubProof', 'deleteSubProof', 'initProofStruct'):
                return
            if j.is_call('assignKnownSteps'):
                rep.count('places')
                c = (sums(f, j.ops[0]) - t).const
                if c not in (None, 0):
                    rep.violation('known|%s' % f.name, '%s: the known steps are worked out %+d steps beside the subproof put in at %s' % (loc(j), c, loc(i)))
                n = f.val(flow.strip(f, j.ops[1]))
                s = sums(f, j.ops[1])
                if len(s.t) == 1 and s.c and isinstance(s.t[0][0], tuple):
                    n = f.val(list(s.t[0][0]))
                    if n is not None and n.is_call('nmbrLen') and clean(opexpr(f, n.ops[0])) == clean(opexpr(f, i.ops[0])):
                        rep.violation('known|%s' % f.name, '%s: the known steps are worked out for %+d steps more than were put in at %s' % (
                            loc(j), s.c, loc(i)))
                return
            if j.is_call('initStep') and f.name == 'assignStatement':
                rep.count('places')
                n = [x for x in f.insts() if x.is_call('nmbrLet') and clean('ld(%s)' % opexpr(f, x.ops[0])) == clean(opexpr(f, i.ops[0]))
                     and not empty(f, x.ops[1])]
                v = f.val(flow.strip(f, n[0].ops[1])) if len(n) == 1 else None
                if v is not None and v.is_call('nmbrSpace'):
                    want = named(f, v.ops[0]) + named(f, i.ops[1]) - 1
                    c = (named(f, j.ops[0]) - want).const
                    if c not in (None, 0):
                        rep.violation('known|%s' % f.name, '%s: the step filled in is %+d beside the statement assigned' % (loc(j), c))
                return
        if len(f.succ[b]) != 1:
            return
        b, k = f.succ[b][0], 0


def named(f, o):
    """Lin over texts"""
    o = flow.strip(f, o)
    if o[0] == 'c':
        return Lin(o[1])
    i = f.val(o)
    if i is not None and i.op in ('add', 'sub'):
        a, b = named(f, i.ops[0]), named(f, i.ops[1])
        return a + b if i.op == 'add' else a - b
    return Lin(0, {clean(opexpr(f, o)): 1})


def extent(m, rep):
    """subproofLen(): the steps counted back until nothing is missing"""
    f = m.funcs.get('subproofLen')
    if f is None or len(f.args) != 2 or len(f.loops) != 1:
        return
    h, body, lat = f.loops[0]
    ph = list(flow.phis(f, h))
    exits = [(b, t) for b in body for t in f.succ[b] if t not in body]
    if len(ph) != 2 or exits[0][0] != h or len(exits) != 1:
        return
    own = {clean(opexpr(f, ['v', p.id])): p for p in ph}
    lv = None
    for a, p, c, ao, co in sem.facts(f, *exits[0]):
        d = named(f, ao) - named(f, co)
        if d.t and d.t[0][0] in own and len(d.t) == 1 and p in ('eq', 'sle') and d.c == 0:
            lv = own[d.t[0][0]]
    if lv is None:
        return
    pos = [p for p in ph if p is not lv][0]
    lname, pname = clean(opexpr(f, ['v', lv.id])), clean(opexpr(f, ['v', pos.id]))
    L, P = Lin(0, {lname: 1}), Lin(0, {pname: 1})
    seen = [i for b in body for i in f.blocks[b] if i.op == 'getelementptr' and len(i.path) == 1 and i.path[0][0] != 'f' and
            flow.strip(f, i.ops[0]) == ['v', 0]]
    if not seen:
        return
    ks = {(named(f, i.path[0][1]) - P).const for i in seen}
    steps = {(named(f, o) - P).const for o, b in pos.ops if b in body}
    if len(ks) != 1 or None in ks or steps != {-1}:
        return
    k = ks.pop()
    rep.count('extents')
    start = [o for o, b in pos.ops if b not in body][0]
    lstart = [o for o, b in lv.ops if b not in body][0]
    if (named(f, start) - Lin(0, {'arg1': 1})).const not in (None, -k) or named(f, lstart).const not in (None, 1):
        rep.violation('extent|start', 'subproofLen(): the subproof of a step is not counted from that step on (%s)' % loc(lv))
    for i in f.insts():
        if i.op == 'ret' and i.ops:
            c = (named(f, i.ops[0]) - (Lin(1, {'arg1': 1}) - P - (k + 1))).const
            if c not in (None, 0):
                rep.violation('extent|length', '%s: the length of a subproof is %+d beside the number of steps counted' % (loc(i), c))
    # the ways round the loop
    work = [(h, (), (h,))]
    n = 0
    while work and n < 2000:
        b, fs, way = work.pop()
        n += 1
        if any(i.op == 'call' and i.callee in NORET for i in f.blocks[b]):
            continue
        for t in f.succ[b]:
            if t not in body:
                continue
            g = fs + tuple(sem.facts(f, b, t))
            if t != h:
                if t not in way:
                    work.append((t, g, way + (t,)))
                continue
            d = named(f, flow.phi_in(lv, b)) - L
            x = [y for y, _ in d.t]
            one = d.const is not None
            if not one and (len(x) != 1 or not str(x[0]).endswith('.numReqHyp)')):
                continue
            if d.c != -1 or (not one and d.t[0][1] != 1):
                rep.violation('extent|count', 'subproofLen(): a step changes the number of missing steps by %s (%s)' % (d, loc(f.blocks[b][-1])))
            elif one:
                kinds = [(p, co[1]) for a, p, c, ao, co in g if clean(a).endswith('.type)') and co[0] == 'c']
                if any(p == 'eq' and v in (97, 112) for p, v in kinds) or {('ne', 101), ('ne', 102)} <= set(kinds):
                    rep.violation('extent|kind', 'subproofLen(): the hypotheses of an assertion are not counted (%s)' % loc(f.blocks[b][-1]))


def check(m, rep):
    nr = noreturn(m)
    rep.rule('each function that rebuilds the steps, targets, sources or user assignments of a proof state: on every path the four get the same '
             'length, a step that stays keeps its entries, the step replaced or taken back keeps its target and user assignment and loses its '
             'source; a replacement goes where the deleted subproof began, and the steps worked out next are those put in')
    need(m, 'addSubProof', 'deleteSubProof')
    for f in m.funcs.values():
        if not getattr(f, 'blocks', None):
            continue
        bases = set()
        for i in f.insts():
            if i.is_call('nmbrLet', 'pntrLet'):
                p = part(f, i.ops[0])
                if p:
                    bases.add(p[0])
        if not bases:
            continue
        rep.count('rebuilders')
        mon = Follow(f, nr)
        try:
            mon.run()
        except RuntimeError:
            continue
        for i, p, x in mon.other:
            rep.violation('mixed|%s|%s' % (f.name, p[1]), '%s: the %s part is made of the %s part' % (loc(i), p[1], x[1]))
        for st, i in mon.ends:
            rep.count('paths')
            for b in {x[0][0] for x in st[1]} & bases:
                lay(f, rep, st, i, b, mon)
    place(m, rep, nr)
    extent(m, rep)
    rep.atleast('rebuilders', 1)
