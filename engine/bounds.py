"""C18: no access before the start of a string, no growth beyond a fixed-size table, no number that overflows while it is read."""
import re
import ir
import flow
import sem
from ir import loc, opexpr
from common import *
from conc import cell

FAR = 1 << 40


def lin(f, o, d=0):
    """(summands, constant)"""
    o = flow.strip(f, o)
    if o[0] == 'c':
        return [], o[1]
    v = f.val(o)
    if v is not None and v.op == 'add' and d < 6:
        a, b = lin(f, v.ops[0], d + 1), lin(f, v.ops[1], d + 1)
        return a[0] + b[0], a[1] + b[1]
    return [o], 0


def address(f, o):
    """(base, summands, constant) of an address inside a string"""
    roots, c, base = [], 0, o
    p = f.val(o)
    while p is not None and p.op == 'getelementptr':
        if any(x[0] == 'f' for x in p.path):
            break
        if p.aty not in ('i8', None) and not str(p.aty).startswith('['):
            return o, [], 0
        for x in p.path:
            r, k = lin(f, x[1])
            roots += r
            c += k
        base = p.ops[0]
        p = f.val(base)
    return base, roots, c


def dominating(f, b):
    """facts that hold in a block because of the branches that dominate it"""
    out = []
    x = b
    while x:
        if len(f.pred[x]) == 1:
            out += [(f.pred[x][0], q) for q in sem.deep_facts(f, f.pred[x][0], x)]
        d = f.idom[x]
        if d is None or d == x:
            break
        x = d
    return out


def least(f, o, seen=()):
    """a lower bound that follows from how a position is computed (None: unknown)"""
    o = flow.strip(f, o)
    if o[0] == 'c':
        return o[1]
    v = f.val(o)
    if v is None or len(seen) > 12:
        return None
    if v.op == 'add':
        a, b = least(f, v.ops[0], seen), least(f, v.ops[1], seen)
        return a + b if a is not None and b is not None else None
    if v.is_call('strlen') or v.is_call('instr') or v.is_call('rinstr'):
        return 0
    if v.op == 'phi':
        if v.id in seen:
            return FAR
        r = []
        for x, b in v.ops:
            s, k = lin(f, x)
            if k < 0 and any(y[0] == 'v' and (y[1] == v.id or y[1] in seen) for y in s):
                return None         # goes down round a loop
            z = least(f, x, seen + (v.id,))
            if z is None:
                return None
            r.append(min(z, FAR))
        return min(r)
    return None


class Before(flow.Monitor):
    """from the place where a length or position is found to the access: the least value it may have.
    State: that value, or None once something was found out about the string that is not understood"""

    def __init__(self, f, root, base, use, need_, nr, init):
        self.root, self.use, self.need, self.nr = root, use, need_, nr
        self.base = base
        self.far = least(f, root.ops[0]) if root.is_call('instr') else None
        flow.Monitor.__init__(self, f, (root.block, root.idx + 1), (init,))

    def step(self, st, i):
        if i.op == 'call':
            if i.callee in self.nr or i.id == self.root.id:
                return None
        if i.id == self.use.id:
            if st[0] is not None and st[0] < self.need:
                self.err(i, 'where %s may be as small as %d' % (self.root.callee, st[0]))
            return None
        return st

    def edge(self, st, b, t):
        lo = st[0]
        if lo is None:
            return st
        for a, p, c, ao, co in sem.deep_facts(self.f, b, t):
            lo = learn(self.f, self.root, self.base, self.far, lo, a, p, c, ao, co)
            if lo is None:
                break
        return (lo,)


def learn(f, root, base, far, lo, a, p, c, ao, co):
    ao = flow.strip(f, ao)
    r, k = lin(f, ao)
    if r == [['v', root.id]]:
        if co[0] != 'c':
            return lo if p in ('slt', 'sle', 'ult', 'ule') else None
        n = co[1] - k
        if p in ('sgt', 'ugt'):
            n += 1
        if p in ('sgt', 'sge', 'ugt', 'uge', 'eq'):
            lo = max(lo, n)
        elif p == 'ne' and n == lo:
            lo += 1
        if lo > 0 and far is not None:
            lo = max(lo, far)
        elif lo > 0 and root.is_call('instr') and far is None:
            return None
        return lo
    v = f.val(ao)
    if v is None:
        return lo
    if v.op == 'load' and v.ty == 'i8':
        x, rr, kk = address(f, v.ops[0])
        if opexpr(f, x) == base:
            if not rr and kk >= 0:
                if co[0] == 'c' and (p == 'ne' and co[1] == 0 or p == 'eq' and co[1] != 0) and root.is_call('strlen'):
                    return max(lo, kk + 1)
                if kk == 0 and p == 'eq' and co == ['c', 0] or p == 'ne' and co[0] == 'c':
                    return lo
            if rr == [['v', root.id]]:
                return lo
            return None
        return lo
    if v.op == 'call' and v.callee in ('strlen', 'instr', 'rinstr', 'strcmp', 'strncmp', 'strchr', 'strstr', 'strpbrk', 'strrchr') and any(base in opexpr(f, o) for o in v.ops):
        if v.callee == 'strlen' and root.is_call('strlen') and opexpr(f, v.ops[0]) == base and co[0] == 'c':
            n = co[1] + (p in ('sgt', 'ugt'))
            if p in ('sgt', 'sge', 'ugt', 'uge', 'eq'):
                return max(lo, n)
            if p == 'ne' and co[1] == lo:
                return lo + 1
            return lo
        if v.callee in ('instr', 'rinstr') and p == 'eq' and co == ['c', 0]:
            return lo
        return None
    return lo


def built(f, x, base, root):
    """is the string one that another routine of the program made (so that its least length is not known here)?"""
    c = f.val(x)
    if c is None or c.op == 'alloca':
        return False
    if c.op != 'load':
        return True
    name = cell(f, c.ops[0])
    if name is None:
        o = flow.strip(f, c.ops[0])
        return not (root.is_call('instr') and o[0] == 'v' and o[1] < f.nargs)
    for i in f.insts():
        if i.is_call('let') and cell(f, i.ops[0]) == name and f.dom_inst(i, root) and handed(f, i.ops[1]):
            return True
        if i.op == 'store' and cell(f, i.ops[1]) == name:
            v = f.val(i.ops[0])
            if v is not None and v.op == 'call' and v.callee in f.mod.funcs and f.mod.funcs[v.callee].blocks and f.dom_inst(i, root) and v.callee not in ('cmdInput', 'cmdInput1', 'left', 'right', 'mid', 'seg', 'edit'):
                return True
    return False


def handed(f, o):
    """a copy of a parameter: what it holds is up to the caller"""
    o = flow.strip(f, o)
    return o[0] == 'v' and o[1] < f.nargs


def strings(m, rep):
    nr = noreturn(m)
    rep.rule('an access at strlen(s) - k, or at a position found by instr() less k, happens only where the length or position was found to be at least k on every path')
    for name, f in sorted(m.funcs.items()):
        if not f.blocks:
            continue
        for i in list(f.insts()):
            a = i.ops[0] if i.op == 'load' else i.ops[1] if i.op == 'store' else None
            if a is None or (i.block and not f.pred[i.block]) or (i.op == 'load' and i.ty != 'i8'):
                continue
            x, roots, c = address(f, a)
            if c >= 0 or len(roots) != 1:
                continue
            r = f.val(roots[0])
            if r is None or r.op != 'call' or r.callee not in ('strlen', 'instr'):
                continue
            base = opexpr(f, x)
            s = r.ops[0] if r.callee == 'strlen' else r.ops[1]
            if opexpr(f, s) != base and r.callee == 'strlen' or not f.dom_inst(r, i):
                continue
            if built(f, x, base, r):
                rep.count('strings made elsewhere', 1)
                continue
            lo = 0
            far = least(f, r.ops[0]) if r.callee == 'instr' else None
            for d, (t, p, e, ao, co) in dominating(f, r.block):
                if lo is not None and not written(f, x, d, r):
                    lo = learn(f, r, base, far, lo, t, p, e, ao, co)
            rep.count('accesses before a length or position', 1)
            rep.sample('%s %s[%s%d]' % (loc(i), base, r.callee, c))
            mon = Before(f, r, base, i, -c, nr, lo)
            try:
                mon.run()
            except RuntimeError:
                continue
            for j, p, key in mon.errors[:1]:
                if not mon.unresolved:
                    rep.violation('%s|%s|%d' % (name, r.callee, c), '%s(): access to %s at %d before the end or a found position at %s %s (%s)' % (name, base, -c, loc(i), p, mon.witness(key)))


def written(f, x, d, r):
    """may the string be replaced between the branch at the end of block d and r?"""
    c = f.val(x)
    if c is None or c.op != 'load':
        return False
    name = cell(f, c.ops[0])
    for i in f.insts():
        if (i.is_call('let') and cell(f, i.ops[0]) == name or i.op == 'store' and cell(f, i.ops[1]) == name) and f.dominates(d, i.block) and f.dom_inst(i, r) and i.block != d:
            return True
    return False


class Grow(flow.Monitor):
    """from a multiplication of a number that is being read, round the loop: is it compared with a limit before it is multiplied again?"""

    def __init__(self, f, mul, nr):
        self.mul, self.nr = mul, nr
        flow.Monitor.__init__(self, f, (mul.block, mul.idx + 1), ((mul.id,),))

    def step(self, st, i):
        ids = st[0]
        if i.op == 'call' and i.callee in self.nr:
            return None
        if i.id == self.mul.id:
            if any(flow.strip(self.f, o)[0] == 'v' and flow.strip(self.f, o)[1] in ids for o in i.ops):
                self.err(i, 'is multiplied again without having been compared with a limit')
            return None
        if i.op in ('add', 'sub', 'sext', 'zext', 'trunc', 'mul', 'freeze') and any(o[0] == 'v' and o[1] in ids for o in i.ops):
            return (tuple(sorted(set(ids) | {i.id})),)
        return st

    def edge(self, st, b, t):
        ids = st[0]
        for a, p, c, ao, co in sem.deep_facts(self.f, b, t):
            r, k = lin(self.f, ao)
            if p in ('slt', 'sle', 'ult', 'ule', 'eq') and any(o[0] == 'v' and o[1] in ids for o in [ao] + r):
                return None
        new = set()
        lv = flow.relevant(self.f, t)
        for ph in flow.phis(self.f, t):
            o = flow.phi_in(ph, b)
            if o is not None and o[0] == 'v' and o[1] in ids:
                new.add(ph.id)
        new |= {x for x in ids if x in lv}
        return (tuple(sorted(new)),) if new else None


def numbers(m, rep):
    nr = noreturn(m)
    rep.rule('a number that is put together digit by digit is compared with an upper limit before it is multiplied once more')
    for name, f in sorted(m.funcs.items()):
        for i in f.insts():
            if i.op not in ('mul', 'shl') or i.ty not in ('i64', 'i32') or (i.block and not f.pred[i.block]):
                continue
            if not any(i.block in l[1] for l in f.loops) or not digits(f, i):
                continue
            rep.count('numbers put together from digits', 1)
            g = Grow(f, i, nr)
            try:
                g.run()
            except RuntimeError:
                continue
            for j, p, key in g.errors[:1]:
                if not g.unresolved:
                    rep.violation('%s|overflow' % name, '%s(): the number %s at %s (%s)' % (name, p, loc(i), g.witness(key)))


def digits(f, mul):
    """is a weight of a character added to the product?"""
    seen, w = set(), [mul.id]
    while w:
        x = w.pop()
        for u in f.uses.get(x, ()):
            if u.op == 'add' and u.id not in seen:
                seen.add(u.id)
                w.append(u.id)
                for o in u.ops:
                    v = f.val(flow.strip(f, o))
                    while v is not None and v.op == 'add':
                        v = f.val(flow.strip(f, v.ops[0]))
                    if v is not None and v.op == 'load' and v.ty == 'i8':
                        return True
    return False


class Table(flow.Monitor):
    """a counter that grows while a fixed-size table is filled: is it below the size at each write?
    State: (hi, offset of the cell, ((value, offset), ...)): every value in the list and the cell is x + offset for one x <= hi;
    hi is None when x was never compared, '?' when it was compared with something that is not a constant"""

    def __init__(self, f, name, group, nr, writes):
        self.cellname, self.group, self.nr, self.writes = name, group, nr, writes
        self.most = min(8, max(n for w in writes.values() for x, n, t in w))
        flow.Monitor.__init__(self, f, (0, 0), (None, 0, (), False))

    def off(self, st, o):
        r, k = lin(self.f, o)
        if len(r) == 1 and r[0][0] == 'v':
            for v, d in st[2]:
                if v == r[0][1]:
                    return d + k
        return None

    def step(self, st, i):
        f = self.f
        if i.op == 'call' and i.callee in self.nr:
            return None
        if i.op == 'load' and self.cellname and cell(f, i.ops[0]) == self.cellname:
            return (st[0], st[1], tuple(sorted([x for x in st[2] if x[0] != i.id] + [(i.id, st[1])])), st[3])
        if i.op == 'store' and self.cellname and cell(f, i.ops[1]) == self.cellname:
            d = self.off(st, i.ops[0])
            if d is not None:
                return (st[0], d, st[2], st[3])
            if i.ops[0][0] == 'c':
                return (i.ops[0][1], 0, (), False)
            return (None, 0, (), False)
        if i.id in self.writes:
            for idx, n, what in self.writes[i.id]:
                d = self.off(st, idx)
                if d is None or st[0] == '?':
                    continue
                if st[0] is None:
                    self.err(i, 'without having been compared with the size of %s' % what)
                elif st[0] + d >= n:
                    self.err(i, 'where it may be %d although %s has %d entries' % (st[0] + d, what, n))
        return st

    def edge(self, st, b, t):
        f = self.f
        hi, cd, al, fresh = st
        for a, p, c, ao, co in sem.deep_facts(f, b, t):
            d = self.off((hi, cd, al), ao)
            if d is None:
                continue
            if co[0] == 'c':
                n = co[1] - d
                if p in ('slt', 'ult'):
                    n -= 1
                elif p == 'ne':
                    if isinstance(hi, int) and hi > n or n < 2:
                        continue
                    n -= 1
                elif p not in ('sle', 'ule', 'eq'):
                    continue
                hi, fresh = n, True
            elif p in ('slt', 'sle', 'ult', 'ule', 'ne'):
                if hi is None:
                    hi = '?'
        new = {}
        lv = flow.relevant(f, t)
        for v, d in al:
            if v in lv:
                new[v] = d
        for ph in flow.phis(f, t):
            if ph.id not in self.group:
                new.pop(ph.id, None)
                continue
            o = flow.phi_in(ph, b)
            d = self.off((hi, cd, al), o) if o is not None else None
            if d is not None:
                new[ph.id] = d
            elif o is not None and o[0] == 'c':
                return (o[1], 0, ((ph.id, 0),), False)
            else:
                return ('?', 0, (), False)
        base = min(list(new.values()) + ([cd] if self.cellname else []) or [0])
        if isinstance(hi, int):
            if base > 0 and not fresh and hi + base > self.most:
                hi = None       # grew without a comparison
            else:
                hi += base
        if base > 0:
            fresh = False
        return (hi, cd - base if self.cellname else 0, tuple(sorted((v, d - base) for v, d in new.items())), fresh)


def tables(m, rep):
    nr = noreturn(m)
    rep.rule('an index that grows by one and at which a fixed-size table is written was compared with the size of the table before it')
    for name, f in sorted(m.funcs.items()):
        if not f.blocks:
            continue
        found = {}
        for g in f.insts():
            if g.op != 'getelementptr' or not str(g.aty).startswith('[') or (g.block and not f.pred[g.block]):
                continue
            var = [x[1] for x in g.path if x[0] == 'a' and x[1][0] != 'c']
            if len(var) != 1:
                continue
            w = [u for u in f.uses.get(g.id, ()) if u.op == 'store' and u.ops[1] == ['v', g.id] or u.is_call('let') and u.ops[0] == ['v', g.id]]
            if not w:
                continue
            r, k = lin(f, var[0])
            if len(r) != 1 or r[0][0] != 'v' or r[0][1] < f.nargs:
                continue
            v = f.inst[r[0][1]]
            key = None
            if v.op == 'load' and cell(f, v.ops[0]):
                key = ('cell', cell(f, v.ops[0]))
                if not grows(m, f, key[1]):
                    continue
            elif v.op == 'phi':
                grp = group(f, v)
                if grp:
                    key = ('phi', grp)
            if key:
                n = int(re.match(r'\[(\d+)', str(g.aty)).group(1))
                for u in w:
                    found.setdefault(key, {}).setdefault(u.id, []).append((var[0], n, opexpr(f, g.ops[0]).lstrip('&')))
        for (kind, k), ws in sorted(found.items(), key=str):
            rep.count('tables filled', 1)
            mon = Table(f, k if kind == 'cell' else None, k if kind == 'phi' else frozenset(), nr, ws)
            try:
                mon.run()
            except RuntimeError:
                rep.count('given up', 1)
                continue
            rep.sample('%s: %s' % (name, sorted({x[2] for w in ws.values() for x in w})))
            seen = set()
            for i, p, key in mon.errors:
                if i.id in seen or mon.unresolved:
                    continue
                seen.add(i.id)
                rep.violation('%s|%s' % (name, opexpr(f, i.ops[0] if i.op == 'call' else i.ops[1])), '%s(): a table is written at %s at an index that grows, %s (%s)' % (name, loc(i), p, mon.witness(key)))


def grows(m, f, name):
    for g in [f]:
        for i in g.insts():
            if i.op == 'store' and cell(g, i.ops[1]) == name:
                r, k = lin(g, i.ops[0])
                if len(r) == 1 and k == 1 and r[0][0] == 'v' and r[0][1] >= g.nargs and g.inst[r[0][1]].op == 'load' and cell(g, g.inst[r[0][1]].ops[0]) == name:
                    return True
    return False


def group(f, phi):
    """the phis that merge a counter and its increments by one"""
    grp, grown = {phi.id}, False
    w = [phi]
    while w:
        p = w.pop()
        for o, b in p.ops:
            r, k = lin(f, o)
            if len(r) == 1 and r[0][0] == 'v' and r[0][1] >= f.nargs:
                v = f.inst[r[0][1]]
                if k == 1:
                    grown = True
                if v.op == 'phi' and v.id not in grp:
                    grp.add(v.id)
                    w.append(v)
    return frozenset(grp) if grown else None


def check(m, rep):
    strings(m, rep)
    numbers(m, rep)
    tables(m, rep)
    rep.atleast('accesses before a length or position', 6)
    rep.atleast('tables filled', 8)
