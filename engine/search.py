"""C39: what is looked up by name is found if and only if it is there.

Tables that are searched with bsearch() belong to the qsort() that put them in order: both must use the same order, the same entry size and the
same extent, nothing may be added between the sorting and the search, and what a search returns is used only if something was found."""
import re
import flow
import sem
import closure
from ir import loc, opexpr
from common import *


def clean(t):
    return re.sub(r'#\d+', '', t)


def order(m, f):
    """(comparing function, key of an entry, direction, further arguments) of a comparator, or None"""
    rets = [i for i in f.insts() if i.op == 'ret']
    if len(rets) != 1:
        return None
    o, sign = flow.strip(f, rets[0].ops[0]), 1
    i = f.val(o)
    while i is not None and i.op == 'sub' and i.ops[0] == ['c', 0]:
        i, sign = f.val(flow.strip(f, i.ops[1])), -sign
    if i is None or i.op != 'call' or i.callee not in ('strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'strcoll', 'memcmp'):
        return None
    a, b = clean(opexpr(f, i.ops[0])), clean(opexpr(f, i.ops[1]))
    more = tuple(clean(opexpr(f, x)) for x in i.ops[2:])
    if 'arg1' in a and 'arg0' in b and 'arg0' not in a and 'arg1' not in b:
        a, b, sign = b, a, -sign
    if 'arg0' not in a or 'arg1' not in b or 'arg1' in a or 'arg0' in b:
        return None
    return (i.callee, b.replace('arg1', 'X'), sign, more, a.replace('arg0', 'X'))


def root(f, o):
    """(text of the array, linear offset) of a pointer into it"""
    p = f.val(flow.strip(f, o))
    off = {}
    while p is not None and p.op == 'getelementptr' and len(p.path) == 1 and p.path[0][0] != 'f':
        combine(f, p.path[0][1], off)
        o = p.ops[0]
        p = f.val(flow.strip(f, o))
    return opexpr(f, o), off


def combine(f, o, out, sign=1, d=0):
    o = flow.strip(f, o)
    i = f.val(o)
    if o[0] == 'c':
        out[''] = out.get('', 0) + sign * o[1]
    elif i is not None and d < 8 and i.op in ('add', 'sub'):
        combine(f, i.ops[0], out, sign, d + 1)
        combine(f, i.ops[1], out, sign if i.op == 'add' else -sign, d + 1)
    elif i is not None and d < 8 and i.op == 'xor' and i.ops[1] == ['c', -1]:
        combine(f, i.ops[0], out, -sign, d + 1)
        out[''] = out.get('', 0) - sign
    else:
        t = opexpr(f, o)
        out[t] = out.get(t, 0) + sign
    return out


def same(a, b):
    """difference of two linear values if it is a constant"""
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) - v
    k = r.pop('', 0)
    return k if not any(r.values()) else None


class Family:
    """tables linked by stores: the order of one is the order of all"""

    def __init__(self, m):
        self.up = {}
        self.ends = {}
        for f in m.funcs.values():
            if not getattr(f, 'blocks', None):
                continue
            for i in f.insts():
                if i.op == 'store' and i.ops[1][0] in ('g', 'v') and opexpr(f, i.ops[1]).startswith('&g_'):
                    v = f.val(i.ops[0])
                    if v is not None and v.op in ('getelementptr', 'load'):
                        r, off = root(f, i.ops[0])
                        if re.match(r'ld\(&g_\w+\)$', r):
                            self.join('ld(%s)' % opexpr(f, i.ops[1]), r)
                elif i.op == 'call' and i.callee and i.callee.startswith(('memcpy', 'llvm.memcpy')):
                    d, s = table(f, i.ops[0]), table(f, i.ops[1])
                    if d and s:
                        self.join(d, s)

    def find(self, x):
        while x in self.up:
            x = self.up[x]
        return x

    def join(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            self.up[a] = b


def table(f, o):
    """text of the global that holds the table: read from it or stored to it"""
    t = root(f, o)[0]
    if re.match(r'ld\(&', t):
        return t
    v = f.val(flow.strip(f, o))
    if v is not None and v.op == 'call':
        for i in f.insts():
            if i.op == 'store' and i.ops[0] == ['v', v.id] and opexpr(f, i.ops[1]).startswith('&g_'):
                return 'ld(%s)' % opexpr(f, i.ops[1])
    return None


def check(m, rep):
    rep.rule('for every bsearch(): the comparator orders entries by the same key, function and direction as the comparator of the qsort() that sorted the '
             'table (or the table it was copied from or points into); the sizes and the number of entries agree; parts and copies of a sorted table '
             'end where it ends; every entry is filled before it is sorted; nothing is added or moved between qsort() and bsearch() in the same '
             'function, except behind the entries that are searched; what bsearch() returns is read only where it is not null')
    nr = noreturn(m)
    fam = Family(m)
    sorts, finds = [], []
    for f in m.funcs.values():
        if getattr(f, 'blocks', None):
            for i in f.insts():
                if i.is_call('qsort'):
                    sorts.append((f, i))
                elif i.is_call('bsearch'):
                    finds.append((f, i))
    rep.count('sorted tables', len(sorts))
    rep.count('searches', len(finds))
    rep.atleast('searches', 3)
    by = {}
    for f, i in sorts:
        t = table(f, i.ops[0])
        if t:
            by.setdefault(fam.find(t), []).append((f, i))
    pairs = {}
    for f, i in finds:
        t = table(f, i.ops[1])
        if t:
            pairs.setdefault(t, []).append((f, i))
    comparators(m, rep, fam, by, pairs)
    extents(m, rep, fam, by, pairs, nr)
    for f, i in sorts:
        filled(f, i, rep)
    for f in m.funcs.values():
        if getattr(f, 'blocks', None):
            for t in pairs:
                n = {count_cell(g, i.ops[2]) for g, i in pairs[t]} - {None}
                if len(n) == 1:
                    packing(f, rep, t, n.pop())
    for f in {f.name: f for f, i in finds}.values():
        for t in sorted({t for t in pairs if any(g.name == f.name for g, i in pairs[t])}):
            ss = [i for g, i in by.get(fam.find(t), ()) if g.name == f.name and table(f, i.ops[0]) == t]
            if ss:
                fresh(f, rep, nr, t, ss, [i for g, i in pairs[t] if g.name == f.name])
    for f, i in finds:
        found(f, i, rep, nr)


def comparators(m, rep, fam, by, pairs):
    for t, fs in pairs.items():
        for g, i in fs:
            sc = order(m, m.funcs[i.ops[4][1]]) if i.ops[4][0] in ('f', 'g') and i.ops[4][1] in m.funcs else None
            for f, s in by.get(fam.find(t), ()):
                if s.ops[3][0] not in ('f', 'g') or s.ops[3][1] not in m.funcs:
                    continue
                so = order(m, m.funcs[s.ops[3][1]])
                if i.ops[3][0] == 'c' and s.ops[2][0] == 'c' and i.ops[3] != s.ops[2]:
                    rep.violation('size|%s|%s' % (g.name, clean(t)), '%s: entries of %s are searched as %d bytes each but sorted as %d (%s)'
                                  % (loc(i), t, i.ops[3][1], s.ops[2][1], loc(s)))
                if so is not None and so[1] != so[4]:
                    rep.violation('sort|%s' % s.ops[3][1], '%s: %s() compares %s of one entry with %s of the other' % (loc(s), s.ops[3][1], so[4], so[1]))
                    continue
                if sc is None or so is None:
                    continue
                rep.count('orders compared')
                if sc[4] != 'X' and sc[4] != so[1]:
                    continue
                if sc[0] in ('strncmp', 'strcasecmp', 'strncasecmp', 'memcmp'):
                    rep.violation('whole|%s' % i.ops[4][1], '%s: %s() compares with %s(), so another name may be found' % (loc(i), i.ops[4][1], sc[0]))
                    continue
                if so[:4] != sc[:4]:
                    what = 'in another direction' if so[:2] == sc[:2] and so[3] == sc[3] else 'by another key or comparison'
                    rep.violation('order|%s|%s' % (s.ops[3][1], i.ops[4][1]), '%s: %s is searched with %s() %s than it is sorted with %s() (%s)'
                                  % (loc(i), t, i.ops[4][1], what, s.ops[3][1], loc(s)))


def count_cell(f, o):
    t = opexpr(f, flow.strip(f, o))
    return t if re.match(r'ld\(&[\w.]+\)$', t) else None


def extents(m, rep, fam, by, pairs, nr):
    cells = {}
    for t, fs in pairs.items():
        seen = {}
        for g, i in fs:
            if root(g, i.ops[1])[1]:
                rep.violation('extent|%s|%s' % (g.name, clean(t)), '%s: the search does not begin with the first entry of %s' % (loc(i), t))
            l = combine(g, i.ops[2], {})
            k = l.pop('', 0)
            if len(l) == 1 and list(l.values()) == [1] and re.match(r'ld\(&[\w.]+\)$', list(l)[0]):
                rep.count('extents')
                seen.setdefault(list(l)[0], []).append((g, i))
                if k:
                    rep.violation('extent|%s|%s' % (g.name, clean(t)), '%s: %+d entries of %s are searched than there are' % (loc(i), k, t))
        if len(seen) > 1:
            top = max(seen, key=lambda x: len(seen[x]))
            for c in seen:
                if c != top and len(seen[c]) < len(seen[top]):
                    g, i = seen[c][0]
                    rep.violation('extent|%s|%s' % (g.name, clean(t)), '%s: %s is searched over %s entries, elsewhere over %s' % (loc(i), t, c, top))
        if seen:
            cells[t] = max(seen, key=lambda x: len(seen[x]))
        for f, s in by.get(fam.find(t), ()):
            if t in cells and table(f, s.ops[0]) == t and not root(f, s.ops[0])[1]:
                k = same(combine(f, s.ops[1], {}), {cells[t]: 1})
                if k:
                    rep.violation('extent|%s|%s' % (f.name, clean(t)), '%s: %+d entries of %s are sorted than there are' % (loc(s), k, t))
    # parts and copies of a sorted table
    for f in m.funcs.values():
        if not getattr(f, 'blocks', None):
            continue
        for b in range(len(f.blocks)) if isinstance(f.blocks, list) else list(f.blocks):
            st = {}
            for i in f.blocks[b]:
                if i.op == 'store':
                    st[opexpr(f, i.ops[1])] = i
            for t, n in cells.items():
                p, c = st.get(t[3:-1]), st.get(n[3:-1])
                if p is None or c is None:
                    continue
                r, off = root(f, p.ops[0])
                for g, s in by.get(fam.find(t), ()):
                    if g.name != f.name:
                        continue
                    r0, off0 = root(f, s.ops[0])
                    if r0 != r:
                        continue
                    e0 = combine(f, s.ops[1], dict(off0))
                    e1 = combine(f, c.ops[0], dict(off))
                    rep.count('extents')
                    d = same(e1, e0)
                    if d:
                        rep.violation('end|%s|%s' % (f.name, t), '%s: the table %s ends %d entr%s %s the sorted table' % (
                            loc(c), t, abs(d), 'y' if abs(d) == 1 else 'ies', 'before' if d < 0 else 'after'))
        for i in f.insts():
            if i.op == 'call' and i.callee and i.callee.startswith(('memcpy', 'llvm.memcpy')):
                d, s = table(f, i.ops[0]), table(f, i.ops[1])
                if d not in cells or s not in cells:
                    continue
                w = combine(f, i.ops[2], {})
                k = w.pop('', 0)
                x = re.match(r'(?:shl\((.*),3|mul\((.*),8)\)$', list(w)[0]) if len(w) == 1 and list(w.values()) == [1] else None
                if x is None or k % 8:
                    continue
                n = {x.group(1) or x.group(2): 1, '': k // 8}
                rep.count('copies')
                if same(n, {cells[s]: 1}):
                    rep.violation('copy|%s|%s' % (f.name, d), '%s: not all of %s is copied' % (loc(i), s))
                for x in f.insts():
                    if x.op == 'store' and opexpr(f, x.ops[1]) == cells[d][3:-1]:
                        k = same(combine(f, x.ops[0], {}), n)
                        if k:
                            rep.violation('copy|%s|%s' % (f.name, d), '%s: %s is said to have %+d entries' % (loc(x), d, k))


def filled(f, s, rep):
    """the loop that fills the table before it is sorted leaves no entry out"""
    r0, off0 = root(f, s.ops[0])
    for l in f.loops:
        if s.block in l[1]:
            continue
        for b in l[1]:
            for i in f.blocks[b]:
                if i.op != 'store' or not f.dominates(l[0], s.block) or sem.loop_of(f, b)[0] != l[0]:
                    continue
                p = f.val(i.ops[1])
                if p is None or p.op != 'getelementptr' or len(p.path) != 1 or opexpr(f, p.ops[0]) != r0:
                    continue
                sc = closure.Scan(f, l, p.path[0][1])
                if not sc.ok or opexpr(f, flow.strip(f, i.ops[0])) != opexpr(f, flow.strip(f, p.path[0][1])):
                    continue
                rep.count('fillings')
                lo, hi = sc.ends()
                n = combine(f, s.ops[1], {})
                k = n.pop('', 0)
                if len(n) != 1 or list(n.values()) != [1]:
                    continue
                t = list(n)[0]
                a = off0.get('', 0)
                if any(x and x != '' for x in off0):
                    continue
                if lo[0] is None and lo[1] > a:
                    rep.violation('fill|%s|%s' % (f.name, r0), '%s: the first entries that are sorted were not filled' % loc(i))
                if hi[0] == t and hi[1] < a + k - 1:
                    rep.violation('fill|%s|%s' % (f.name, r0), '%s: the last entries that are sorted were not filled' % loc(i))
                if abs(sc.step) != 1:
                    rep.violation('fill|%s|%s' % (f.name, r0), '%s: not every entry is filled' % loc(i))


class Fresh(flow.Monitor):
    """State of a table: new (nothing known), sorted, more (entries added behind the sorted ones), mixed."""

    def __init__(self, f, nr, t, sorts, finds):
        flow.Monitor.__init__(self, f, (0, 0), ('new', None))
        self.nr, self.t = nr, t
        self.sorts, self.finds = {i.id for i in sorts}, {i.id for i in finds}
        self.dead = sem.dead_blocks(f, nr)
        self.cells = {}
        for i in list(sorts) + list(finds):
            o = i.ops[1] if i.is_call('qsort') else i.ops[2]
            c = count_cell(f, o)
            if c:
                self.cells[c] = True
        self.kinds = {}
        for i in f.insts():
            if i.op == 'store' and i.ops[1][0] == 'v':
                p = f.val(i.ops[1])
                ix = []
                while p is not None and p.op == 'getelementptr':
                    ix += [x[1] for x in p.path if x[0] != 'f']
                    p = f.val(p.ops[0])
                if p is not None and opexpr(f, ['v', p.id]) == t and ix:
                    self.kinds[i.id] = 'more' if len(ix) == 1 and opexpr(f, flow.strip(f, ix[0])) in self.cells else 'mixed'

    def step(self, st, i):
        if i.op == 'store' and i.id in self.kinds:
            if st[0] == 'sorted':
                return (self.kinds[i.id], st[1])
            if st[0] == 'new':
                return ('mixed', None)
            if st[0] == 'more' and self.kinds[i.id] == 'mixed':
                return ('mixed', st[1])
        if i.op != 'call':
            return st
        if i.callee in self.nr:
            return None
        if i.id in self.sorts:
            return ('sorted', flow.strip(self.f, i.ops[1])[1])
        if i.id in self.finds:
            n = flow.strip(self.f, i.ops[2])
            if st[0] == 'mixed' or (st[0] == 'more' and n[1] != st[1]):
                self.err(i, 'entries of %s are not sorted in' % self.t)
                return None
        return st

    def edge(self, st, b, t):
        if t in self.dead:
            return None
        f = self.f
        for a, p, c, ao, co in sem.facts(f, b, t):
            if a in self.cells and co[0] == 'c' and co[1] + (-1 if p == 'slt' else 0) <= 1 and p in ('eq', 'sle', 'slt'):
                return ('sorted', None)          # nothing to be sorted
        if st[0] == 'more' and st[1] is not None:
            for a, p, c, ao, co in sem.facts(f, b, t):
                if co[0] == 'v' and co[1] == st[1] and a in self.cells and p in ('eq', 'sle', 'ule', 'slt', 'ult'):
                    return ('sorted', st[1])
        return st


def fresh(f, rep, nr, t, sorts, finds):
    mon = Fresh(f, nr, t, sorts, finds)
    try:
        mon.run()
    except RuntimeError:
        return
    rep.count('tables sorted and searched in one function')
    for i, msg, k in mon.errors:
        rep.violation('fresh|%s|%s' % (f.name, clean(t)), '%s: %s; path: %s' % (loc(i), msg, mon.witness(k)))


def packing(f, rep, t, n):
    """entries are moved to the front of a sorted table: each is kept or counted as dropped, and the order stays"""
    for l in f.loops:
        if any(x[0] in l[1] and x[0] != l[0] for x in f.loops):
            continue
        st = []
        for b in l[1]:
            for i in f.blocks[b]:
                if i.op == 'store':
                    v = f.val(flow.strip(f, i.ops[0]))
                    p, q = f.val(i.ops[1]), f.val(v.ops[0]) if v is not None and v.op == 'load' else None
                    if p is not None and q is not None and p.op == q.op == 'getelementptr' and len(p.path) == len(q.path) == 1 \
                            and opexpr(f, p.ops[0]) == opexpr(f, q.ops[0]) == t:
                        st.append((i, p.path[0][1], q.path[0][1]))
        if len(st) != 1:
            continue
        i, to, fr = st[0]
        rep.count('packings')
        sc = closure.Scan(f, l, fr)
        bad = sc.complaint((None, 0), lambda x: -1 if x == n else None) if sc.ok else None
        if bad:
            rep.violation('pack|%s|%s' % (f.name, t), '%s: the loop that packs the table %s' % (loc(i), bad))
        d = combine(f, fr, {})
        for k, v in combine(f, to, {}).items():
            d[k] = d.get(k, 0) - v
        d = {k: v for k, v in d.items() if v}
        if len(d) != 1 or list(d.values()) != [1]:
            continue
        gone = list(d)[0]
        x = re.match(r'phi(\d+)$', gone)
        ph = f.inst.get(int(x.group(1))) if x else None
        if ph is None or ph.block != l[0] or ph.op != 'phi':
            continue
        for path in rounds(f, l):
            last = path[-1]
            o = dict((b, v) for v, b in ph.ops).get(last)
            at = len(path) - 1
            while o is not None:
                v = f.val(flow.strip(f, o))
                if v is None or v.op != 'phi' or v.id == ph.id or v.block not in path:
                    break
                at = path.index(v.block)
                o = dict((b, y) for y, b in v.ops).get(path[at - 1]) if at else None
            if o is None:
                continue
            k = same(combine(f, o, {}), {gone: 1})
            kept = i.block in path
            if k is not None and k != (0 if kept else 1):
                rep.violation('pack|%s|%s' % (f.name, t), '%s: an entry that is %s counts as %s (path: blocks at lines %s)' % (
                    loc(i), 'kept' if kept else 'left out', 'dropped' if k else 'kept', '>'.join(str(f.blocks[b][0].loc[1]) for b in path)))
        for x in f.insts():
            if x.op == 'store' and opexpr(f, x.ops[1]) == n[3:-1] and x.block not in l[1] and f.dominates(l[0], x.block):
                k = same(combine(f, x.ops[0], {}), {n: 1, gone: -1})
                if k:
                    rep.violation('pack|%s|%s' % (f.name, t), '%s: after the packing %s has %+d entries' % (loc(x), t, k))


def rounds(f, l, limit=64):
    out, work = [], [(l[0],)]
    while work and len(out) < limit:
        p = work.pop()
        for t in f.succ[p[-1]]:
            if t == l[0]:
                out.append(p)
            elif t in l[1] and t not in p:
                work.append(p + (t,))
    return out


class Found(flow.Monitor):
    def __init__(self, f, nr, call):
        flow.Monitor.__init__(self, f, (call.block, f.blocks[call.block].index(call) + 1), '?')
        self.nr, self.call = nr, call
        self.dead = sem.dead_blocks(f, nr)
        self.t = opexpr(f, ['v', call.id])

    def ours(self, o, d=0):
        f = self.f
        v = f.val(flow.strip(f, o))
        while v is not None and v.op == 'getelementptr':
            v = f.val(flow.strip(f, v.ops[0]))
        return v is not None and v.id == self.call.id

    def step(self, st, i):
        if i.id == self.call.id or i.op == 'ret' or (i.op == 'call' and i.callee in self.nr):
            return None
        if i.op in ('load', 'store') and self.ours(i.ops[0] if i.op == 'load' else i.ops[1]):
            self.err(i, 'read')
            return None
        return st

    def edge(self, st, b, t):
        f = self.f
        if t in self.dead:
            return None
        for a, p, c, ao, co in sem.deep_facts(f, b, t):
            if self.ours(ao) and (co[0] == 'n' or co == ['c', 0]):
                return None if p == 'ne' else 'null'
        return st


def found(f, call, rep, nr):
    mon = Found(f, nr, call)
    try:
        mon.run()
    except RuntimeError:
        return
    rep.count('results')
    for i, msg, k in mon.errors[:1]:
        rep.violation('found|%s|%s' % (f.name, clean(opexpr(f, call.ops[1]))), '%s: the result of the search at %s is used although nothing may have been found; path: %s'
                      % (loc(i), loc(call), mon.witness(k)))
