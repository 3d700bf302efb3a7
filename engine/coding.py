"""C48: the numbers of a compressed proof are read as they are written.

The writer peels digits off a number: table[(v + c) % N], then v := (v + c) / N.  The reader puts them together again: n := n * N + place + k, where
place is the position of the character in its table.  Both are inverse to each other for every number if and only if N is the length of the table
on both sides and k = -c (for the last character, which stands for a position counted from 0, k is the difference to that).  This is algebra on
the expressions of the source; no value is computed."""
import re
import flow
from ir import loc, opexpr
from common import *


def lin(f, o, out=None, sign=1, d=0):
    """linear form: ({atom operand key: [coefficient, operand]}, constant)"""
    if out is None:
        out = [{}, 0]
    o = flow.strip(f, o)
    i = f.val(o)
    if i is not None and i.op == 'trunc':
        o = flow.strip(f, i.ops[0])
        i = f.val(o)
    if o[0] == 'c':
        out[1] += sign * o[1]
    elif i is not None and d < 10 and i.op in ('add', 'sub'):
        lin(f, i.ops[0], out, sign, d + 1)
        lin(f, i.ops[1], out, sign if i.op == 'add' else -sign, d + 1)
    elif i is not None and d < 10 and i.op == 'xor' and i.ops[1] == ['c', -1]:
        lin(f, i.ops[0], out, -sign, d + 1)
        out[1] -= sign
    else:
        t = opexpr(f, o)
        e = out[0].setdefault(t, [0, o])
        e[0] += sign
        if not e[0]:
            del out[0][t]
    return out


class Text:
    """constant strings and numbers that variables stand for"""

    def __init__(self, m):
        self.m = m
        self.st = {}
        for f in m.funcs.values():
            if getattr(f, 'blocks', None):
                for i in f.insts():
                    if i.op == 'store':
                        t = opexpr(f, i.ops[1])
                        if t.startswith('&') and '[' not in t:
                            self.st.setdefault(self.key(f, t), []).append((f, i.ops[0]))

    def key(self, f, t):
        return t if '.' in t or t.startswith('&g_') else (f.name, t)

    def one(self, f, t):
        s = self.st.get(self.key(f, t), ())
        return s[0] if len(s) == 1 else None

    def string(self, f, o, d=0):
        o = flow.strip(f, o)
        t = opexpr(f, o)
        if re.match(r'"[^"\\]*"$', t):
            return t[1:-1]
        i = f.val(o)
        if d < 4 and i is not None and i.op == 'load':
            s = self.one(f, opexpr(f, i.ops[0]))
            if s:
                return self.string(s[0], s[1], d + 1)
        return None

    def nums(self, f, o):
        """the known numbers a value may be"""
        o = flow.strip(f, o)
        i = f.val(o)
        if i is not None and i.op == 'select':
            return self.nums(f, i.ops[1]) + self.nums(f, i.ops[2])
        if i is not None and i.op == 'phi' and all(x != o for x, b in i.ops):
            return [n for x, b in i.ops for n in [self.num(f, x)] if n is not None]
        if i is not None and i.op == 'load':
            a = f.val(flow.strip(f, i.ops[0]))
            if a is not None and a.op in ('phi', 'select'):
                out = []
                for x in [x for x, b in a.ops] if a.op == 'phi' else a.ops[1:]:
                    e = self.one(f, opexpr(f, x))
                    n = self.num(e[0], e[1]) if e else None
                    out += [n] if n is not None else []
                return out
        n = self.num(f, o)
        return [n] if n is not None else []

    def num(self, f, o, d=0):
        o = flow.strip(f, o)
        if o[0] == 'c':
            return o[1]
        i = f.val(o)
        if d >= 4 or i is None:
            return None
        if i.op == 'call' and i.callee == 'strlen':
            s = self.string(f, i.ops[0])
            return len(s) if s is not None else None
        if i.op == 'load':
            s = self.one(f, opexpr(f, i.ops[0]))
            if s:
                return self.num(s[0], s[1], d + 1)
        return None


def peels(m, tx):
    """(function, load of the character, table, v, constant, modulus, store)"""
    out = []
    for f in m.funcs.values():
        if not getattr(f, 'blocks', None):
            continue
        for i in f.insts():
            if i.op != 'store':
                continue
            c = f.val(flow.strip(f, i.ops[0]))
            if c is None or c.op != 'load':
                continue
            g = f.val(flow.strip(f, c.ops[0]))
            if g is None or g.op != 'getelementptr' or len(g.path) != 1 or g.path[0][0] == 'f':
                continue
            T = tx.string(f, g.ops[0])
            r = f.val(flow.strip(f, g.path[0][1]))
            if T is None or r is None or r.op not in ('srem', 'urem'):
                continue
            out.append((f, i, T, lin(f, r.ops[0]), ([n for n in tx.nums(f, r.ops[1]) if n != len(T)] + tx.nums(f, r.ops[1]) + [None])[0]))
    return out


def place(f, i):
    """linear form of the position a character is stored at"""
    p = f.val(flow.strip(f, i.ops[1]))
    out = [{}, 0]
    while p is not None and p.op == 'getelementptr' and len(p.path) == 1 and p.path[0][0] != 'f':
        lin(f, p.path[0][1], out)
        p = f.val(flow.strip(f, p.ops[0]))
    return out


def minus(a, b):
    d, k = {t: list(e) for t, e in a[0].items()}, a[1] - b[1]
    for t, (c, o) in b[0].items():
        e = d.setdefault(t, [0, o])
        e[0] -= c
        if not e[0]:
            del d[t]
    return d, k


def writer(m, rep, tx):
    """table -> role and constant; reports what does not fit"""
    roles, marks = {}, set()
    ps = peels(m, tx)
    rep.count('characters taken from a table by a remainder', len(ps))
    fs = {}
    for p in ps:
        fs.setdefault(p[0].name, []).append(p)
    for name, l in fs.items():
        f = l[0][0]
        consts = {}
        for _, i, T, v, N in l:
            if N is not None and N != len(T):
                rep.violation('base:%s:%s' % (name, T), '%s: the digit is the remainder of a division by %d, but the table "%s" has %d characters' %
                              (loc(i), N, T, len(T)))
            vs = list(v[0])
            if len(vs) == 1 and v[0][vs[0]][0] == 1:
                consts.setdefault(T, set()).add(v[1])
                a = f.val(v[0][vs[0]][1])
                if a is not None and a.op == 'call' and a.callee == 'nmbrElementIn':
                    roles.setdefault(T, set()).add(('last', v[1]))
                    rep.sample('%s: "%s"[(position %+d) %% %s]' % (loc(i), T, v[1], N))
                elif a is not None and a.op in ('phi', 'sdiv', 'udiv'):
                    roles.setdefault(T, set()).add(('more', v[1]))
                    rep.sample('%s: "%s"[(rest %+d) %% %s]' % (loc(i), T, v[1], N))
        # divisions that go with the remainders
        lens = {}
        for T in consts:
            lens.setdefault(len(T), set()).add(T)
        divs = [i for i in f.insts() if i.op in ('sdiv', 'udiv')]
        quot = {}
        for i in divs:
            ns = tx.nums(f, i.ops[1])
            N = ns[0] if len(set(ns)) == 1 else None
            v = lin(f, i.ops[0])
            if len(v[0]) == 1 and list(v[0].values())[0][0] == 1:
                quot[i.id] = (list(v[0])[0], v[1], N, list(v[0].values())[0][1])
        for _, s, T, v, N in l:
            vs = list(v[0])
            if len(vs) != 1:
                continue
            mine = [(d, q) for d, q in quot.items() if q[0] == vs[0] and q[2] is not None]
            for d, q in mine:
                rep.count('divisions', 1)
                if q[2] != len(T):
                    rep.violation('rest:%s:%s' % (name, T), '%s: the rest of a number whose digit is from "%s" (%d characters) is its quotient by %d' %
                                  (loc(f.inst[d]), T, len(T), q[2]))
                elif q[1] != v[1]:
                    rep.violation('shift:%s:%s' % (name, T), '%s: the digit is taken from the number %+d, but the rest is divided from the number %+d' %
                                  (loc(s), v[1], q[1]))
        # one divisor for every place of a position
        last = [T for T in consts if any(r[0] == 'last' for r in roles.get(T, ()))]
        rest = [T for T in consts if T not in last]
        for d, q in quot.items():
            a = f.val(q[3])
            if not last or not rest or a is None or a.op != 'phi' or len(a.ops) != 2 or q[2] is None:
                continue
            ls = [lin(f, o) for o, b in a.ops]
            at = [[f.val(o) for c, o in x[0].values()] for x in ls]
            own = [k for k in (0, 1) if len(at[k]) == 1 and at[k][0] is not None and at[k][0].id == d]
            if len(own) != 1:
                continue
            if not any(z is not None and (z.is_call('nmbrElementIn') or z.op == 'load' and 'numReqHyp' in opexpr(f, ['v', z.id])) for z in at[1 - own[0]]):
                continue
            bad = [T for T in last + rest if len(T) != q[2]]
            if bad:
                rep.violation('same:%s' % name, '%s: a position is divided by %d for every place, but "%s" has %d characters' %
                              (loc([i for i in divs if i.id == d][0]), q[2], bad[0], len(bad[0])))
        # other chains of divisions (lengths): same constants
        byid = {i.id: i for i in divs}
        known = set(len(T) for T in [tx.string(f, g.ops[0]) for g in f.insts() if g.op == 'getelementptr'] if T is not None)
        for d, q in quot.items():
            a = f.val(q[3])
            if a is None or a.op != 'phi':
                continue
            inc = [f.val(flow.strip(f, o)) for o, b in a.ops]
            if not inc or any(x is None or x.op not in ('sdiv', 'udiv') for x in inc) or not any(x.id == d for x in inc):
                continue
            Ts = lens.get(q[2], ())
            rep.count('divisions', 1)
            if not Ts:
                if q[2] is not None and consts and q[2] not in known:
                    rep.violation('chain:%s:%d' % (name, q[2]), '%s: places are counted with divisions by %d; no table has that many characters' %
                                  (loc(byid[d]), q[2]))
                continue
            cs = set().union(*(consts[T] for T in Ts))
            if q[1] not in cs:
                rep.violation('count:%s' % name, '%s: places are counted by dividing the rest %+d by %d, but digits are taken from the rest %s' %
                              (loc(byid[d]), q[1], q[2], '/'.join('%+d' % c for c in sorted(cs))))
            for x in inc:
                if x.id == d:
                    continue
                qq = quot.get(x.id)
                if qq is None or qq[2] is None:
                    continue
                first = [T for T in roles if any(r[0] == 'last' for r in roles[T])]
                if first and all(qq[2] != len(T) for T in first):
                    rep.violation('chain0:%s' % name, '%s: the first place is counted with a division by %d; the last character is from "%s"' %
                                  (loc(x), qq[2], first[0]))
        # places: the last character at the end, each further one before it
        P = {}
        for _, s, T, v, N in l:
            for r in roles.get(T, ()):
                P.setdefault(r[0], []).append((s, place(f, s)))
        for s0, p0 in P.get('last', ()):
            for s1, p1 in P.get('more', ()):
                d, k = minus(p0, p1)
                if len(d) == 1:
                    (c, o), = d.values()
                    a = f.val(o)
                    if a is None or a.op != 'phi' or c not in (1, -1):
                        continue
                    st = [lin(f, x) for x, b in a.ops]
                    init = [x[1] for x in st if not x[0]]
                    step = [x[1] for x in st if len(x[0]) == 1 and list(x[0].values())[0][0] == 1 and
                            f.val(list(x[0].values())[0][1]) is a]
                    if len(init) == 1 and len(step) == 1 and len(a.ops) == 2:
                        rep.count('places', 1)
                        if c * init[0] + k != 1 or c * step[0] != 1:
                            rep.violation('place:%s' % name, '%s: characters before the last one are stored %d, %d, ... places before it instead of '
                                          '1, 2, ...' % (loc(s1), c * init[0] + k, c * (init[0] + step[0]) + k))
        # other characters stored in the same text
        bases = set()
        for _, s, T, v, N in l:
            p = f.val(flow.strip(f, s.ops[1]))
            while p is not None and p.op == 'getelementptr':
                o = p.ops[0]
                p = f.val(flow.strip(f, o))
                bases.add(opexpr(f, o))
        for i in f.insts():
            if i.op == 'store':
                p, o = f.val(flow.strip(f, i.ops[1])), None
                if p is None or p.op != 'getelementptr':
                    continue
                while p is not None and p.op == 'getelementptr':
                    o = p.ops[0]
                    p = f.val(flow.strip(f, o))
                if opexpr(f, o) in bases:
                    n = tx.num(f, i.ops[0])
                    if n is not None and 32 < n < 127:
                        marks.add((chr(n), loc(i)))
    return roles, marks


class Reader:
    def __init__(self, m, tx):
        self.cls, self.weight, self.single = {}, {}, {}
        self.f = None
        self.where = {}
        tabs = {}
        for f in m.funcs.values():
            if not getattr(f, 'blocks', None):
                continue
            for i in f.insts():
                if i.op != 'store':
                    continue
                g = f.val(flow.strip(f, i.ops[1]))
                fix = re.match(r'(&[\w.]+)\[(\d+)\]$', opexpr(f, i.ops[1]))
                if fix:
                    self.single.setdefault(fix.group(1), {})[int(fix.group(2))] = (tx.num(f, i.ops[0]), loc(i))
                    continue
                if g is None or g.op != 'getelementptr':
                    continue
                base = opexpr(f, g.ops[0])
                ix = [p[1] for p in g.path if p[0] != 'f']
                if not base.startswith('&') or len(ix) == 0:
                    continue
                x = flow.strip(f, ix[-1])
                c = f.val(x)
                n = tx.num(f, x)
                if n is not None:
                    self.single.setdefault(base, {})[n] = (tx.num(f, i.ops[0]), loc(i))
                    continue
                if c is None or c.op != 'load':
                    continue
                h = f.val(flow.strip(f, c.ops[0]))
                if h is None or h.op != 'getelementptr' or len(h.path) != 1:
                    continue
                T = tx.string(f, h.ops[0])
                if T is None:
                    continue
                v = lin(f, i.ops[0])
                at = lin(f, h.path[0][1])
                self.where[(base, T)] = loc(i)
                if not v[0]:
                    self.cls.setdefault(base, {})[T] = v[1]
                else:
                    d = minus(v, at)
                    self.weight.setdefault(base, {})[T] = d[1] if not d[0] else None


def region(f, start, stop):
    """blocks reachable from start without entering stop"""
    seen, st = set(), [start]
    while st:
        b = st.pop()
        if b in seen or b in stop:
            continue
        seen.add(b)
        st.extend(f.succ[b])
    return seen


def check(m, rep):
    rep.rule('writer: a character taken from a table by (v + c) mod N has N equal to the length of the table, and every quotient of the same v has the '
             'same c and N; chains of divisions that count places use the same; further characters go directly before the last one. reader: the '
             'tables with their classes have the same characters, and in the part for each class n becomes n * N + place + k with N the length of the '
             'table and k = -c (for the last character: the position counted from 0); after the last character n is 0 again, white space leaves '
             'it unchanged; every other character that is written has a class of its own')
    elements(m, rep)
    order(m, rep)
    rep.atleast('conversions of back references', 5)
    tx = Text(m)
    roles, marks = writer(m, rep, tx)
    R = Reader(m, tx)
    rep.count('tables of the reader', sum(len(x) for x in R.cls.values()))
    last = [T for T in roles if any(r[0] == 'last' for r in roles[T])]
    more = [T for T in roles if any(r[0] == 'more' for r in roles[T])]
    for b, cl in R.cls.items():
        W = [w for w in R.weight if set(R.weight[w]) & set(cl)]
        if len(W) != 1 or not last or not more:
            continue
        w = W[0]
        for T in last + more:
            if T not in cl:
                rep.violation('table:%s' % T, 'the writer takes characters from "%s", but the reader knows %s' %
                              (T, ', '.join('"%s" (%s)' % (x, R.where[(b, x)]) for x in sorted(cl))))
        chars = ''.join(last + more)
        for c in sorted(set(chars)):
            if chars.count(c) > 1:
                rep.violation('twice:%s' % c, 'the character %s stands for two digits' % c)
        if len(set(cl.values())) != len(cl):
            rep.violation('class', 'two tables of the reader have the same class (%s)' % '; '.join(sorted(R.where[(b, x)] for x in cl)))
            continue
        single = R.single.get(b, {})
        kinds = {}
        for c, at in sorted(marks):
            if c in chars:
                rep.violation('mark:%s' % c, '%s writes %s, which is also a digit' % (at, c))
                continue
            e = single.get(ord(c))
            rep.count('other characters written', 1)
            if e is None:
                rep.violation('mark:%s' % c, '%s writes %s, which has no class in the reader' % (at, c))
            elif e[0] is not None and e[0] in cl.values():
                rep.violation('mark:%s' % c, '%s gives %s the class of a digit' % (e[1], c))
            elif e[0] is not None:
                if e[0] in kinds:
                    rep.violation('mark:%s' % c, '%s gives %s the class of %s' % (e[1], c, kinds[e[0]]))
                kinds[e[0]] = c
        for f in m.funcs.values():
            if getattr(f, 'blocks', None):
                for i in f.insts():
                    if i.op == 'switch':
                        v = f.val(flow.strip(f, i.ops[0]))
                        if v is not None and v.op == 'load':
                            g = f.val(flow.strip(f, v.ops[0]))
                            if g is not None and g.op == 'getelementptr' and opexpr(f, g.ops[0]) == b:
                                reading(m, rep, tx, R, f, i, b, w, cl, roles)


def reading(m, rep, tx, R, f, sw, b, w, cl, roles):
    cases = dict(sw.cases)
    rep.count('switches', 1)
    head = sw.block
    own = {}
    for k, t in cases.items():
        own[k] = region(f, t, {head}) if t != head else set()
    excl = {k: own[k] - set().union(*[own[x] for x in own if cases[x] != cases[k]]) for k in own}
    number = set()
    found = {}
    for k in excl:
        if k not in cl.values():
            mark(m, rep, R, f, excl[k], k)
    for T, k in cl.items():
        if k not in cases:
            rep.violation('case:%s' % T, '%s: no part for the characters "%s" (class %d)' % (loc(sw), T, k))
            continue
        fs = [x for x in (form(f, tx, i, w) for bl in sorted(excl[k]) for i in f.blocks[bl]) if x]
        found[T] = fs
        for i, L, mul, N, c in fs:
            if mul:
                number.add(mul)
    if len(number) != 1:
        return
    V, = number
    v = f.inst[V]
    if v.op != 'phi':
        return
    for T, fs in found.items():
        k, w0 = cl[T], R.weight[w].get(T)
        kinds = {r[0]: set(x[1] for x in roles[T] if x[0] == r[0]) for r in roles.get(T, ())}
        if w0 is None or len(kinds) != 1:
            continue
        kind, cs = list(kinds.items())[0]
        if len(cs) != 1:
            continue
        ce = min(cs)
        ids = set(x[0].id for x in fs)
        for i, L, mul, N, c in fs:
            if mul:
                rep.count('numbers put together', 1)
                for n in sorted(set(N) - {len(T)}):
                    rep.violation('scale:%s' % T, '%s: the number is multiplied by %d, but "%s" has %d characters' % (loc(i), n, T, len(T)))
            elif any(u.op == 'phi' and u.block not in excl[k] or u.op in ('icmp', 'getelementptr') for u in users(f, i)) and nonzero(f, v, i.block, head):
                rep.violation('drop:%s' % T, '%s: what was read before is dropped although it need not be 0' % loc(i))
        if kind == 'more':
            for i, L, mul, N, c in fs:
                us = users(f, i)
                if not any(u.op == 'phi' and u.block not in excl[k] for u in us):
                    continue
                if any(bool(x[2]) == bool(mul) and x[4] + w0 == -ce for x in fs if x[0] is not i):
                    continue    # the right value is there too: this one is an adjustment on one of two ways
                if c + w0 != -ce:
                    rep.violation('offset:%s' % T, '%s: a character "%s" counts as its place %+d here, but was taken from the rest %+d' %
                                  (loc(i), T, c + w0, ce))
                else:
                    rep.sample('%s: number * %s + place %+d' % (loc(i), '/'.join(map(str, N or ())) or '0', c + w0))
        else:
            for bl in sorted(excl[k]):
                for g in f.blocks[bl]:
                    if g.op != 'getelementptr' or len(g.path) != 1 or g.path[0][0] == 'f' or not any(u.op == 'load' for u in users(f, g)):
                        continue
                    L = lin(f, g.path[0][1])
                    cand = [L]
                    if len(L[0]) == 1:
                        (co, o), = L[0].values()
                        p = f.val(o)
                        if p is not None and p.op == 'phi' and co == 1:
                            cand = []
                            for x, _ in p.ops:
                                q = lin(f, x)
                                q[1] += L[1]
                                cand.append(q)
                    for q in cand:
                        r = parts(f, tx, q, w)
                        if r is None:
                            continue
                        rep.count('references looked up', 1)
                        # position p counted from 1: p + ce was split, p - 1 is looked up
                        if q[1] + w0 != -ce - 1:
                            rep.violation('index:%s' % T, '%s: the entry looked up is off by %+d from the one the writer meant' %
                                          (loc(g), q[1] + w0 + ce + 1))
            back = reaching(f, v, excl[k], head)
            rep.count('ways back after the last character', len(back))
            for o, src in back:
                if o != ['c', 0]:
                    rep.violation('reset:%s' % T, '%s: the number is not 0 again after the last character "%s"' % (loc(f.blocks[src][-1]), T))
    # white space
    for k, t in cases.items():
        for bl in [t]:
            if head in f.pred[t]:
                for p in f.blocks[t]:
                    if p.op == 'phi' and feeds(f, p, v):
                        for o, src in p.ops:
                            if src == head and k not in cl.values() and flow.strip(f, o) != ['v', v.id]:
                                rep.violation('space', '%s: a character without meaning changes the number' % loc(sw))


def parts(f, tx, L, w):
    """(number, factor, its value) if the linear form is number * factor + weight + constant"""
    ws = ms = None
    for c, o in L[0].values():
        i = f.val(flow.strip(f, o))
        if i is None or c != 1:
            return None
        if i.op == 'load':
            g = f.val(flow.strip(f, i.ops[0]))
            if g is not None and g.op == 'getelementptr' and opexpr(f, g.ops[0]) == w and ws is None:
                ws = i
                continue
        if i.op in ('mul', 'shl') and ms is None:
            for a, b in ((i.ops[0], i.ops[1]), (i.ops[1], i.ops[0])) if i.op == 'mul' else ((i.ops[0], i.ops[1]),):
                x = f.val(flow.strip(f, a))
                if x is not None and x.op == 'phi':
                    n = tx.nums(f, b)
                    ms = (x.id, [1 << k for k in n if 0 <= k < 32] if i.op == 'shl' else n)
                    break
            else:
                return None
            continue
        return None
    if ws is None:
        return None
    return ms or (None, None)


def form(f, tx, i, w):
    if i.op not in ('add', 'sub', 'zext', 'load'):
        return None
    L = lin(f, ['v', i.id])
    p = parts(f, tx, L, w)
    if p is None:
        return None
    us = users(f, i)
    if not any(u.op not in ('add', 'sub', 'zext', 'sext', 'trunc') for u in us):
        return None
    return i, L, p[0], p[1], L[1]


def users(f, i):
    c = f.__dict__.setdefault('_users', None)
    if c is None:
        c = {}
        for x in f.insts():
            os = [o for o, _ in x.ops] if x.op == 'phi' else list(x.ops)
            os += [p[1] for p in x.path or () if p[0] != 'f']
            for o in os:
                if isinstance(o, list) and o and o[0] == 'v':
                    c.setdefault(o[1], []).append(x)
        f._users = c
    return c.get(i.id, [])


def nonzero(f, v, bl, head):
    """can bl be reached from head by a way on which v was not found to be 0?"""
    seen, st = set(), [head]
    while st:
        b = st.pop()
        if b == bl:
            return True
        if b in seen:
            continue
        seen.add(b)
        for s in f.succ[b]:
            if s == head:
                continue
            if any(x[1] == 'eq' and flow.strip(f, x[0]) == ['v', v.id] and x[2] == ['c', 0] for x in flow.edge_facts(f, b, s)):
                continue
            st.append(s)
    return False


def reaching(f, v, blocks, head):
    """(value, block) pairs of the number that come from the blocks"""
    out, seen = [], set()

    def walk(o, src, d=0):
        o = flow.strip(f, o)
        i = f.val(o)
        if src in blocks and not (i is not None and i.op == 'phi' and i.block in blocks):
            out.append((o, src))
            return
        if i is not None and i.op == 'phi' and i is not v and (i.id, src) not in seen:
            seen.add((i.id, src))
            for x, b in i.ops:
                walk(x, b, d + 1)

    for o, b in v.ops:
        walk(o, b)
    return out


def feeds(f, p, v, d=0):
    return any(flow.strip(f, o) == ['v', p.id] for o, b in v.ops)


def elements(m, rep):
    """back references: -1000 - step, in every function that makes, recognizes or resolves one"""
    rep.rule('an element of a proof that is compared with a number between -1010 and -990 is compared so that -1000 and below is a back reference; '
             'where a step number is made from it, or it from a step number, the sum of both is -1000; the entry a label mark stands for is the step '
             'just read; references come last in the list of the labels, and the labels are written in the order in which they are counted')
    for f in m.funcs.values():
        if not getattr(f, 'blocks', None):
            continue
        forms = {}
        for i in f.insts():
            if i.op == 'icmp' and i.ty is not None and i.pred in ('slt', 'sgt', 'sle', 'sge'):
                for a, b, sw in ((0, 1, 0), (1, 0, 1)):
                    x, c = i.ops[a], i.ops[b]
                    v = f.val(flow.strip(f, x))
                    if c[0] != 'c' or not -1010 <= c[1] <= -990 or v is None or not element(f, v):
                        continue
                    p = i.pred if not sw else {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}[i.pred]
                    # greatest number on the lower side
                    t = c[1] - 1 if p in ('slt', 'sge') else c[1]
                    rep.count('tests for a back reference', 1)
                    if t != -1000:
                        rep.violation('limit:%s' % f.name, '%s: numbers up to %d are taken for back references instead of up to -1000' % (loc(i), t))
            elif i.op in ('sub', 'add', 'xor'):
                L = lin(f, ['v', i.id])
                if len(L[0]) == 1 and -1010 <= L[1] <= -990:
                    (t, (c, o)), = L[0].items()
                    if c == -1:
                        forms.setdefault(t, []).append((L[1], i, o))
        for t, l in forms.items():
            v = f.val(flow.strip(f, l[0][2]))
            for c, i, o in l if t.endswith('numSteps)') else ():
                for u in users(f, i):
                    g = f.val(flow.strip(f, u.ops[1])) if u.op == 'store' and u.ops[0] == ['v', i.id] else None
                    if g is not None and g.op == 'getelementptr' and g.path[-1][0] == 'f' and c != -1000:
                        rep.violation('declared:%s' % f.name, '%s: a label declared before a step stands for another step' % loc(i))
            if v is None or t.endswith('numSteps)') or not (element(f, v) or any(put(f, x[1]) for x in l)):
                continue
            rep.count('conversions of back references', 1)
            bad = [x for x in l if x[0] != -1000 and put(f, x[1])]
            ix = [x for x in l if any(u.op == 'getelementptr' for u in users(f, x[1]))]
            if ix and all(x[0] != -1000 for x in ix):
                bad += ix
            if bad:
                rep.violation('step:%s' % f.name, '%s: a back reference and its step are converted into each other with %d instead of -1000' %
                              (loc(bad[0][1]), bad[0][0]))
            elif all(x[0] != -1000 for x in l):
                rep.violation('step:%s' % f.name, '%s: a back reference and its step are converted into each other with %d instead of -1000' %
                              (loc(l[0][1]), l[0][0]))


def element(f, v):
    """read from an array of numbers"""
    if v.op != 'load' or v.ty != 'i64':
        return False
    g = f.val(flow.strip(f, v.ops[0]))
    return g is not None and g.op == 'getelementptr' and len(g.path) == 1 and g.path[0][0] != 'f'


def put(f, i):
    """stored into an array of numbers or added to one"""
    for u in users(f, i):
        if u.is_call('nmbrAddElement') and u.ops[1] == ['v', i.id]:
            return True
        if u.op == 'store' and u.ops[0] == ['v', i.id]:
            g = f.val(flow.strip(f, u.ops[1]))
            if g is not None and g.op == 'getelementptr' and len(g.path) == 1 and g.path[0][0] != 'f':
                return True
    return False


def variables(f, o, d=0):
    """the lists that a list is made of, in order"""
    i = f.val(flow.strip(f, o))
    if i is None:
        return []
    if i.op == 'load':
        return [opexpr(f, i.ops[0])]
    if i.op == 'call' and i.callee == 'nmbrCat' and d < 3:
        return [x for a in i.ops for x in variables(f, a, d + 1)]
    if i.op == 'call' and i.callee in ('nmbrLeft', 'nmbrRight', 'nmbrSeg', 'nmbrMid') and d < 3:
        return variables(f, i.ops[0], d + 1)
    return []


def order(m, rep):
    for f in m.funcs.values():
        if not getattr(f, 'blocks', None) or not any(True for _ in f.calls('nmbrElementIn')):
            continue
        refs = set()
        for i in f.insts():
            if i.op == 'store':
                g = f.val(flow.strip(f, i.ops[1]))
                if g is not None and g.op == 'getelementptr':
                    L = lin(f, i.ops[0])
                    if len(L[0]) == 1 and list(L[0].values())[0][0] == -1 and -1010 <= L[1] <= -990:
                        b = f.val(flow.strip(f, g.ops[0]))
                        if b is not None and b.op == 'load':
                            refs.add(opexpr(f, b.ops[0]))
        if not refs:
            continue
        whole = []
        for c in f.calls('nmbrLet'):
            t = opexpr(f, c.ops[0])
            if any(t == x for e in f.calls('nmbrElementIn') for x in variables(f, e.ops[1])):
                vs = variables(f, c.ops[1])
                if refs & set(vs) and t not in vs:
                    whole.append((c, vs))
        for c, vs in whole:
            rep.count('lists of labels', 1)
            if vs[-1] not in refs:
                rep.violation('refs:%s' % f.name, '%s: back references are counted before labels of the list, but read after them' % loc(c))
            for p in f.calls('nmbrCvtRToVString'):
                ws = variables(f, p.ops[0])
                if len(ws) >= 2 and all(x in vs for x in ws) and len(set(ws)) == len(ws):
                    rep.count('lists of labels written', 1)
                    if [x for x in vs if x in ws] != ws:
                        rep.violation('list:%s' % f.name, '%s: labels are written in another order than they are counted in (%s)' % (loc(p), loc(c)))
                    # what is left out in front is what is left in the counted list
        cut = {}
        for c in f.calls('nmbrLet'):
            i = f.val(flow.strip(f, c.ops[1]))
            if i is not None and i.is_call('nmbrLeft') and variables(f, i.ops[0]) == [opexpr(f, c.ops[0])]:
                cut.setdefault(opexpr(f, c.ops[0]), []).append(lin(f, i.ops[1]))
        for p in f.calls('nmbrCvtRToVString'):
            for r in [f.val(flow.strip(f, p.ops[0]))]:
                if r is None or not r.is_call('nmbrCat'):
                    continue
                for a in r.ops:
                    x = f.val(flow.strip(f, a))
                    if x is None or not x.is_call('nmbrRight'):
                        continue
                    vs = variables(f, x.ops[0])
                    R = lin(f, x.ops[1])
                    for L in cut.get(vs[0] if vs else None, ()):
                        d, k = minus(R, L)
                        if not d:
                            rep.count('cuts of the list', 1)
                            if k != 1:
                                rep.violation('cut:%s' % f.name, '%s: the labels written begin %d after the end of those that are implied' % (loc(x), k))


def mark(m, rep, R, f, excl, mk):
    """the entry for a label mark is the step just read"""
    for bl in sorted(excl):
        for i in f.blocks[bl]:
            if i.op == 'store':
                L = lin(f, i.ops[0])
                g = f.val(flow.strip(f, i.ops[1]))
                if g is None or g.op != 'getelementptr' or len(L[0]) != 1 or not -1010 <= L[1] <= -990:
                    continue
                (t, (c, o)), = L[0].items()
                if c == -1 and t.endswith('numSteps)'):
                    rep.count('label marks', 1)
                    # steps are counted from 0, so the last one is numSteps - 1
                    if L[1] != -999:
                        rep.violation('marked', '%s: the label mark stands for step numSteps %+d instead of the last one read' % (loc(i), -1000 - L[1]))
