"""C38: what copies a text file line by line (TOOLS, the pages with markers) loses no line.

Every innermost loop that reads lines with linput() and writes a file is followed round by round: a line that was read is written before
the next one is read or the loop is left, or it was joined to another line, or the path shows one of the reasons for which the command
leaves a line out."""
import re
import ir
import flow
import sem
import closure
from ir import loc, opexpr
from common import *

WRITES = ('fprintf', 'fputs', 'fputc', 'fwrite')


def clean(t):
    return re.sub(r'#\d+', '', t)


def loops(f):
    """innermost loops that read lines: (loop, reads, writes)"""
    r = {}
    for i in f.insts():
        if i.is_call('linput') and len(i.ops) == 3:
            l = sem.loop_of(f, i.block)
            if l is not None:
                r.setdefault(l[0], (l, []))[1].append(i)
    for l, rd in r.values():
        yield l, rd, [i for b in l[1] for i in f.blocks[b] if i.op == 'call' and i.callee in WRITES]


def modes(f, o, seen=None):
    """constants given to a value under cmdMatches("X"): {constant: {X}}"""
    seen = seen if seen is not None else set()
    out = {}
    i = f.val(flow.strip(f, o))
    if i is not None and i.op == 'ashr' and i.ops[1][0] == 'c':     # (flag) of a wider value
        return {k >> i.ops[1][1]: v for k, v in modes(f, i.ops[0], seen).items()}
    if i is None or i.op != 'phi' or i.id in seen:
        return out
    seen.add(i.id)
    for x, b in i.ops:
        if x[0] == 'c':
            edges = [(b, i.block)] if len(f.succ[b]) > 1 else [(p, b) for p in f.pred[b]]
            for p, t in edges:
                for a, pr, c, ao, co in sem.facts(f, p, t):
                    call = f.val(flow.strip(f, ao))
                    if call is not None and call.is_call('cmdMatches') and co == ['c', 0] and pr == 'ne':
                        for s in const_strings(f, call.ops[0]):
                            if s:
                                out.setdefault(x[1], set()).add(s)
        else:
            for k, v in modes(f, x, seen).items():
                out.setdefault(k, set()).update(v)
    return out


def blank(f, x):
    """the value is 0 if and only if a string is empty: its first character, its length, the comparison with the empty string"""
    if x is None:
        return False
    if x.op == 'load':
        return x.ty == 'i8'
    return x.is_call('strlen') or (x.is_call('strcmp') and any(const_strings(f, o) == {''} for o in x.ops[:2]))


def switched(f, b, t, names):
    """the commands for which a switch goes to the block t, or None"""
    term = f.blocks[b][-1]
    if names is None or term.op != 'switch' or term.default == t or opexpr(f, flow.strip(f, term.ops[0])) != names[0]:
        return None
    return frozenset(x for k, bb in term.cases if bb == t for x in names[1].get(k, ()))


class Lines(flow.Monitor):
    """State: (lines read and not written, mode facts, reasons, results of the reads and the values that hold them)."""

    def __init__(self, f, nr, loop, reads, names):
        flow.Monitor.__init__(self, f, (loop[0], 0), ((), (), frozenset(), ()))
        self.nr, self.loop, self.reads, self.names = nr, loop, {i.id: i for i in reads}, names
        self.vars = {opexpr(f, i.ops[2]) for i in reads}
        self.dead = sem.dead_blocks(f, nr)
        self.rounds = 0
        self.memo = {}

    def mode(self, st):
        """commands the path is possible for, or None"""
        if self.names is None:
            return None
        return dict(st[1]).get('eq')

    def excuse(self, st):
        cm, why = self.mode(st), st[2]
        if 'argument' in why:
            return True
        if cm is None:
            return False
        if cm & {'BUILD', 'BREAK'} and 'empty' in why:
            return True
        return bool(cm & {'MATCH'} and 'no match' in why)

    def lost(self, st, i, at):
        for v, s in st[0]:
            if s == 'yes' and not self.excuse(st):
                self.err(i, (v, at))
                return True
        return False

    def step(self, st, i):
        if i.op != 'call':
            return st
        f = self.f
        if i.callee in self.nr:
            return None
        pend = dict(st[0])
        if i.id in self.reads:
            v = opexpr(f, i.ops[2])
            same = {x for x in pend if pend[x] == 'yes' and (x == v or self.ahead(x))}
            if same and not self.excuse(st):
                self.err(i, (sorted(same)[0], 'read'))
                return None
            pend[v] = i.id
            res = {k: x for k, x in st[3] if k != i.id and x != i.id}
            return (tuple(sorted(pend.items(), key=str)), st[1], st[2] if any(x == 'yes' for x in pend.values()) else frozenset(),
                    tuple(sorted(res.items(), key=str)))
        if i.callee in WRITES:
            for v in list(pend):
                if pend[v] == 'yes' and not self.ahead(v):
                    del pend[v]
            return (tuple(sorted(pend.items(), key=str)), st[1], frozenset(), st[3])
        if i.callee == 'let':
            t = opexpr(f, i.ops[1])
            d = opexpr(f, i.ops[0])
            for v in list(pend):
                if self.ahead(v) and 'ld(%s)' % v in t and d != v:
                    del pend[v]
                    if t.startswith('ld('):      # taken over as the next line
                        pend[d] = 'yes'
                elif self.ahead(v) and d == v and pend[v] == 'yes':
                    self.err(i, (v, 'gone'))
                    return None
            return (tuple(sorted(pend.items(), key=str)), st[1], st[2], st[3])
        return st

    def ahead(self, v):
        """the line is read to be looked at before its turn"""
        if v not in self.memo:
            f = self.f
            self.memo[v] = len(self.vars) > 1 and any(
                i.is_call('let') and opexpr(f, i.ops[1]) == 'ld(%s)' % v and opexpr(f, i.ops[0]) in self.vars
                for b in self.loop[1] for i in f.blocks[b])
        return self.memo[v]

    def edge(self, st, b, t):
        f = self.f
        if t in self.dead:
            return None
        pend, md, why, res = dict(st[0]), dict(st[1]), set(st[2]), dict(st[3])
        for a, p, c, ao, co in sem.deep_facts(f, b, t):
            x = f.val(flow.strip(f, ao))
            if x is not None and co == ['c', 0] and p in ('eq', 'ne', 'sgt', 'slt', 'sle', 'ugt'):
                r = x.id if x.id in self.reads else res.get(x.id)
                if r in self.reads:
                    got = p in ('ne', 'sgt', 'ugt')
                    if res.get(r, got) != got:
                        return None
                    res[r] = got
                    for v in list(pend):
                        if pend[v] == r:
                            if got:
                                pend[v] = 'yes'
                            else:
                                del pend[v]
                elif (r is False and p in ('ne', 'sgt', 'ugt')) or (r is True and p in ('eq', 'sle')):
                    return None
            if co[0] == 'c' and self.names is not None and a == self.names[0]:
                al = md.get('eq')
                n = self.names[1].get(co[1])
                if p == 'eq':
                    if n is None or (al is not None and not al & n) or (md.get('ne') or frozenset()) & n:
                        return None
                    md['eq'] = frozenset(n)
                elif p == 'ne' and n:
                    if al is not None and al <= n:
                        return None
                    md['ne'] = (md.get('ne') or frozenset()) | n
            if co == ['c', 0] and p == 'eq':
                if blank(f, x) or (x is not None and res.get(x.id) == 'nonblank'):
                    why.add('empty')
                else:
                    why.add('no match')
            if re.match(r'arg\d+$', a) and co == ['c', 0] and p == 'ne':
                why.add('argument')
        sw = switched(f, b, t, self.names)
        if sw is not None:
            al = (md['eq'] & sw if 'eq' in md else sw) - (md.get('ne') or frozenset())
            if not al:
                return None
            md['eq'] = al
        new = {}
        for ph in flow.phis(f, t):
            o = flow.strip(f, flow.phi_in(ph, b))
            if o[0] == 'v':
                r = o[1] if o[1] in self.reads else res.get(o[1])
                if r in self.reads:
                    # what was read at the last time round counts as known
                    new[ph.id] = res[r] if t == self.loop[0] and r in res else r
                elif r is False or r is True:
                    new[ph.id] = r
                x = f.val(o)
                while x is not None and x.op in ('zext', 'sext', 'trunc', 'freeze'):
                    x = f.val(x.ops[0])
                if x is not None and x.op == 'icmp' and x.pred in ('ne', 'ugt', 'sgt') and x.ops[1] == ['c', 0] \
                        and blank(f, f.val(flow.strip(f, x.ops[0]))):
                    new[ph.id] = 'nonblank'
                elif x is not None and res.get(x.id) == 'nonblank':
                    new[ph.id] = 'nonblank'
        res = {k: x for k, x in res.items() if k not in {ph.id for ph in flow.phis(f, t)}}
        res.update(new)
        st = (tuple(sorted(pend.items(), key=str)), tuple(sorted(md.items(), key=str)), frozenset(why), tuple(sorted(res.items(), key=str)))
        if t == self.loop[0]:
            self.rounds += 1
            for v, s in pend.items():
                if s == 'yes' and not self.ahead(v):
                    if self.excuse(st):
                        pend.pop(v)
                        break
                    self.err(f.blocks[b][-1], (v, 'round'))
                    return None
            return (tuple(sorted(pend.items(), key=str)), st[1], frozenset() if not pend else st[2], st[3])
        if t not in self.loop[1]:
            self.lost(self.after(st, t), f.blocks[b][-1], 'left')
            return None
        return st

    def after(self, st, t):
        """the state after what is written between leaving the loop and the next reading"""
        f = self.f
        seen = set()
        while t not in seen and t not in self.dead:
            seen.add(t)
            for i in f.blocks[t]:
                if i.op == 'call' and i.callee in WRITES:
                    return ((), st[1], st[2], st[3])
                if i.op == 'call' and (i.callee == 'linput' or i.callee in self.nr):
                    return st
            if len(f.succ[t]) != 1:
                return st
            t = f.succ[t][0]
        return ((), st[1], st[2], st[3]) if t in self.dead else st


SAY = {'read': 'the next line is read before the line read into %s was written or joined', 'gone': 'the line read into %s is thrown away',
       'round': 'the line read into %s is not written', 'left': 'the loop is left before the line read into %s was written'}


def manifold(f, l):
    seen = {}
    for b in l[1]:
        for t in f.succ[b]:
            for a, p, c, ao, co in sem.facts(f, b, t):
                v = f.val(flow.strip(f, ao))
                if co[0] == 'c' and v is not None and v.block not in l[1]:
                    seen.setdefault(a, set()).add(co[1])
    return any(len(x) > 3 for x in seen.values())


def copying(m, f, rep, nr):
    for l, rd, wr in loops(f):
        if not wr:
            continue
        rep.count('copying loops')
        rep.count('reads', len(rd))
        rep.count('writes', len(wr))
        names = None
        for b in l[1]:
            for t in f.succ[b]:
                for a, p, c, ao, co in sem.facts(f, b, t):
                    v = f.val(flow.strip(f, ao))
                    if names is None and v is not None and v.op in ('phi', 'ashr') and v.block not in l[1] and co[0] == 'c':
                        md = modes(f, ao)
                        if len(md) > 3:
                            names = (a, {k: frozenset(x) for k, x in md.items()})
        if names is None and manifold(f, l):
            continue                            # several commands that cannot be told apart
        mon = Lines(f, nr, l, rd, names)
        try:
            mon.run()
        except RuntimeError:
            continue
        rep.count('rounds', mon.rounds)
        if names:
            rep.count('kinds of command', len(names[1]))
        done = set()
        for i, (v, at), k in mon.errors:
            if (v, at) in done:
                continue
            done.add((v, at))
            rep.violation('line|%s|%s|%s' % (f.name, v, at), '%s: %s; path: %s' % (loc(i), SAY[at] % v.lstrip('&'), mon.witness(k)))
        if names and any('BUILD' in x for x in names[1].values()):
            rest(f, rep, nr, l, names)


def rest(f, rep, nr, l, names):
    """BUILD: the line begun is written after the last line was read"""
    build = [k for k, x in names[1].items() if 'BUILD' in x][0]
    exits = {t for b in l[1] for t in f.succ[b] if t not in l[1]}
    work = [(t, ()) for t in exits]
    seen = set()
    while work:
        b, why = work.pop()
        if (b, why) in seen:
            continue
        seen.add((b, why))
        stop = False
        for i in f.blocks[b]:
            if i.op == 'call' and (i.callee in WRITES or i.callee in nr):
                stop = True
                break
            if i.op == 'call' and i.callee == 'fclose':
                rep.violation('rest|%s' % f.name, '%s: the line that BUILD has begun is not written before the file is closed (%s)' % (
                    loc(i), f.name))
                return
        if stop:
            continue
        for t in f.succ[b]:
            ok = True
            for a, p, c, ao, co in sem.facts(f, b, t):
                x = f.val(flow.strip(f, ao))
                if a == names[0] and co[0] == 'c' and ((p == 'ne' and co[1] == build) or (p == 'eq' and co[1] != build)):
                    ok = False
                if co == ['c', 0] and p == 'eq' and x is not None and x.op == 'load' and x.ty == 'i8':
                    ok = False
            if ok:
                work.append((t, why))
    rep.count('remainders')


def markers(f, rep, nr):
    """the line with the marker that ends the replaced part is kept"""
    for l, rd, wr in loops(f):
        if wr:
            continue
        for b in sorted(l[1]):
            for t in f.succ[b]:
                if t in l[1]:
                    continue
                for a, p, c, ao, co in sem.facts(f, b, t):
                    x = f.val(flow.strip(f, ao))
                    if x is None or not x.is_call('strcmp') or p != 'eq' or co != ['c', 0] or '#END#' not in a:
                        continue
                    rep.count('markers')
                    kept(f, rep, nr, t, x)


def kept(f, rep, nr, t, x):
    work, seen = [t], set()
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        stop = False
        for i in f.blocks[b]:
            if i.op == 'call' and (i.callee in WRITES or i.callee in nr):
                stop = True
                break
            if i.op == 'ret' or i.is_call('linput') or (i.is_call('fclose')):
                rep.violation('marker|%s' % f.name, '%s: the line with the end marker (%s) is not written' % (loc(i), loc(x)))
                return
        if stop:
            continue
        for s in f.succ[b]:
            if any(re.match(r'arg\d+$', a) and co == ['c', 0] and p == 'ne' for a, p, c, ao, co in sem.facts(f, b, s)):
                continue
            work.append(s)


def sorting(f, rep, nr):
    """SORT and its kin: every line read, every line that is due written"""
    for l in f.loops:
        wr = [i for b in l[1] for i in f.blocks[b] if i.op == 'call' and i.callee == 'fprintf' and sem.loop_of(f, i.block)[0] == l[0]]
        for w in wr:
            if len(w.ops) != 3:
                continue
            e = closure.at(f, w.ops[2])
            if e is None or 'pntrTmp' not in e[0] or flow.strip(f, e[1])[0] != 'v':
                continue
            due(f, rep, nr, l, w, e)
    for i in f.insts():
        if i.is_call('linput') and len(i.ops) == 3:
            e = closure.cell(f, i.ops[2])
            l = sem.loop_of(f, i.block)
            if e is None or l is None or 'pntrTmp' not in e[0]:
                continue
            whole(f, rep, l, e[1], i, 'read')


def whole(f, rep, l, ix, i, what):
    """the loop runs over entries 0 to count - 1"""
    sc = closure.Scan(f, l, ix)
    rep.count('scans')
    if not sc.ok:
        return None
    n = size(f, l)
    bad = sc.complaint((None, 0), lambda t: -1 if n is not None and t == n else None)
    if bad:
        rep.violation('scan|%s|%s' % (f.name, what), '%s: the loop over the lines %s' % (loc(i), bad))
    return sc


def size(f, l):
    """text of the number of lines the table was made for"""
    best = None
    for i in f.insts():
        if i.is_call('pntrSpace') and f.dominates(i.block, l[0]):
            best = opexpr(f, flow.strip(f, i.ops[0]))
    return best


def due(f, rep, nr, l, w, e):
    sc = whole(f, rep, l, e[1], w, 'write')
    names = None
    for b in l[1]:
        for t in f.succ[b]:
            for a, p, c, ao, co in sem.facts(f, b, t):
                v = f.val(flow.strip(f, ao))
                if names is None and v is not None and v.op in ('phi', 'ashr') and v.block not in l[1] and co[0] == 'c':
                    md = modes(f, ao)
                    if len(md) > 3:
                        names = (a, {k: frozenset(x) for k, x in md.items()})
    if names is None or sc is None:
        return
    me = opexpr(f, flow.strip(f, e[1]))
    n = size(f, l)
    mon = Due(f, nr, l, w, names, me, e[0], n)
    try:
        mon.run()
    except RuntimeError:
        return
    rep.count('decisions', mon.rounds)
    done = set()
    for i, msg, k in mon.errors:
        if msg not in done:
            done.add(msg)
            rep.violation('due|%s|%s' % (f.name, msg), '%s: %s; path: %s' % (loc(i), msg, mon.witness(k)))


def lin(f, o):
    """closure.lin(), where a join of one and the same value counts as that value"""
    t, c = closure.lin(f, o)
    m = re.match(r'phi(\d+)$', t or '')
    if m and int(m.group(1)) in f.inst:
        i = f.inst[int(m.group(1))]
        xs = {opexpr(f, flow.strip(f, x)) for x, b in i.ops} if i.op == 'phi' else ()
        if len(xs) == 1:
            t2, c2 = closure.lin(f, i.ops[0][0])
            return t2, c + c2
    return t, c


def spot(f, o):
    """(table, text, constant): the value is the entry text + constant of the table"""
    v = f.val(flow.strip(f, o))
    if v is None or v.op != 'load':
        return None
    p = f.val(v.ops[0])
    txt, k = None, 0
    while p is not None and p.op == 'getelementptr':
        if len(p.path) != 1 or p.path[0][0] == 'f':
            return None
        t, c = lin(f, p.path[0][1])
        if t is not None and txt is not None:
            return None
        txt, k = t or txt, k + c
        base = p.ops[0]
        p = f.val(base)
    return (opexpr(f, ['v', p.id]), txt, k) if p is not None else None


class Due(flow.Monitor):
    """State: (mode, what is known about the line and its neighbours, written,
    the constants kept in local variables that live in memory)."""

    def __init__(self, f, nr, loop, w, names, me, table, n):
        flow.Monitor.__init__(self, f, (loop[0], 0), (None, frozenset(), None, frozenset()))
        self.all = frozenset(x for v in names[1].values() for x in v)
        self.nr, self.loop, self.w, self.names, self.me, self.table, self.n = nr, loop, w, names, me, table, n
        self.dead = sem.dead_blocks(f, nr)
        self.rounds = 0
        self.track = {i.ops[0][1] for b in loop[1] for i in f.blocks[b] if i.op == 'store' and self.local(i.ops[1]) is not None
                      and i.ops[0][0] == 'v' and f.val(i.ops[0]) is not None and f.val(i.ops[0]).op == 'phi'}

    def step(self, st, i):
        if i.op == 'call' and i.callee in self.nr:
            return None
        if i.id == self.w.id:
            return (st[0], st[1], True, st[3])
        if i.op == 'store':
            c = self.local(i.ops[1])
            if c is not None:
                kept = frozenset(x for x in st[3] if x[0] != c)
                v = i.ops[0]
                k = v[1] if v[0] == 'c' else None
                if k is None and v[0] == 'v':
                    k = dict(st[3]).get(flow.strip(self.f, v)[1])
                if k is None and v[0] == 'v':
                    x = self.fact(v)
                    k = x[0] if x and x[0] == x[1] else None
                return st[:3] + (kept | {(c, k)} if k is not None else kept,)
        elif i.op == 'load':
            k = dict(st[3]).get(self.local(i.ops[0]))
            kept = frozenset(x for x in st[3] if x[0] != i.id)
            return st[:3] + (kept | {(i.id, k)} if k is not None else kept,)
        elif i.op == 'call':
            gone = {self.local(o) for o in i.ops}
            if any(x[0] in gone for x in st[3]):
                return st[:3] + (frozenset(x for x in st[3] if x[0] not in gone),)
        return st

    def local(self, o):
        v = self.f.val(o)
        return v.id if v is not None and v.op == 'alloca' else None

    def contrary(self, x, p, co, mem):
        """the value is known to be a constant that contradicts the fact"""
        if x is None or x.op not in ('load', 'phi') or co[0] != 'c':
            return False
        v = dict(mem).get(x.id)
        return v is not None and p in ('eq', 'ne') and (v == co[1]) != (p == 'eq')

    def near(self, call):
        """-1/+1: the comparison of the line with the one before/after it"""
        f = self.f
        ks = []
        for o in call.ops[:2]:
            e = spot(f, o)
            if e is None or e[:2] != (self.table, self.me):
                return None
            ks.append(e[2])
        return {(-1, 0): -1, (0, 1): 1}.get(tuple(sorted(ks)))

    def edge(self, st, b, t):
        f = self.f
        if t in self.dead:
            return None
        md, kn, wr, mem = st
        if b == self.loop[0] and t in self.loop[1]:
            md, kn, wr = self.all, frozenset(), False
        kn = set(kn)
        sw = switched(f, b, t, self.names)
        if sw is not None and md is not None:
            md = md & sw
            if not md:
                return None
        df = list(sem.deep_facts(f, b, t))
        if len(f.succ[b]) > 1 and not wr and b != self.loop[0] and f.blocks[b][-1].op != 'switch' and not any(self.plain(x, mem) for x in df):
            kn.add('?')
        for a, p, c, ao, co in df:
            x = f.val(flow.strip(f, ao))
            if a == self.names[0] and co[0] == 'c':
                s = self.names[1].get(co[1])
                if md is not None and p in ('eq', 'ne'):
                    md = md & (s or frozenset()) if p == 'eq' else md - (s or frozenset())
                    if not md:
                        return None
            if self.contrary(x, p, co, mem):
                return None
            if x is not None and x.is_call('strcmp') and co == ['c', 0] and p in ('eq', 'ne'):
                d = self.near(x)
                if d:
                    kn.add(('before' if d < 0 else 'after') + (' same' if p == 'eq' else ' differs'))
            t1, k1 = lin(f, ao)
            t2, k2 = lin(f, co)
            if t1 == self.me and t2 is None:
                k = k2 - k1
                if (p, k) in (('eq', 0), ('slt', 1), ('sle', 0)):
                    kn.add('first')
                elif (p, k) in (('ne', 0), ('sgt', 0), ('sge', 1)):
                    kn.add('not first')
            elif t1 == self.me and self.n is not None and t2 == self.n:
                k = k2 - k1
                if (p, k) in (('eq', -1), ('sge', -1), ('sgt', -2)):
                    kn.add('last')
                elif (p, k) in (('ne', -1), ('slt', -1), ('sle', -2)):
                    kn.add('not last')
        for x, y in (('first', 'not first'), ('last', 'not last'), ('before same', 'before differs'), ('after same', 'after differs')):
            if x in kn and y in kn:
                return None
        kn = frozenset(kn)
        old = dict(mem)
        for i in f.blocks[t]:
            if i.op == 'phi':
                mem = frozenset(x for x in mem if x[0] != i.id)
                for o, q in i.ops:
                    if q == b:
                        o = flow.strip(f, o)
                        k = o[1] if o[0] == 'c' else old.get(o[1]) if o[0] == 'v' else None
                        if k is not None:
                            mem = mem | {(i.id, k)}
        if t == self.loop[0] and wr is not None:
            self.rounds += 1
            msg = self.judge(md, kn, wr)
            if msg:
                self.err(f.blocks[b][-1], msg)
            return (None, frozenset(), None, mem)
        if t not in self.loop[1]:
            return None
        return (md, kn, wr, mem)

    def plain(self, fact, mem):
        """a condition that is understood: what the command is, which line it is, a comparison with a neighbour, a flag"""
        f = self.f
        a, p, c, ao, co = fact
        x = f.val(flow.strip(f, ao))
        if a == self.names[0] or (x is not None and x.id in dict(mem)):
            return True
        if x is not None and x.is_call('strcmp'):
            return co == ['c', 0] and bool(self.near(x))
        t1, t2 = lin(f, ao)[0], lin(f, co)[0]
        return t1 == self.me and (t2 is None or t2 == self.n)

    def judge(self, md, kn, wr):
        if not md:
            return None
        new = True if kn & {'first', 'before differs'} else False if 'before same' in kn else None
        end = True if kn & {'last', 'after differs'} else False if 'after same' in kn else None
        wants = set()
        for x in md:
            if x in ('SORT', 'REVERSE'):
                wants.add(True)
            elif x == 'UNDUPLICATE':
                wants.add(new)
            elif x == 'UNIQUE':
                wants.add(False if new is False or end is False else True if new and end else None)
            elif x == 'DUPLICATE':
                wants.add(False if new is True or end is False else True if new is False and end else None)
            else:
                wants.add(None)
        if wants == {None} and wr and '?' not in kn and md <= {'UNDUPLICATE', 'UNIQUE', 'DUPLICATE'}:
            return '%s writes a line%s without a look at its neighbours' % ('/'.join(sorted(md)), ' that is ' + ', '.join(sorted(kn)) if kn else '')
        want = wants.pop() if len(wants) == 1 else None
        if want is None or want == wr:
            return None
        kn = kn - {'?'}
        return '%s %s a line %s' % ('/'.join(sorted(md)), 'writes' if wr else 'leaves out',
                                    'that is ' + ', '.join(sorted(kn)) if kn else 'whatever it is')


def turning(f, rep):
    """REVERSE: the lines are exchanged in pairs from both ends, each pair once"""
    for l in f.loops:
        if any(x[0] in l[1] and x[0] != l[0] for x in f.loops):
            continue
        order = [b for b in f.rpo if b in l[1]] if hasattr(f, 'rpo') else sorted(l[1])
        st = [i for b in order for i in f.blocks[b] if i.op == 'store']
        if len([i for i in st if slot_of(f, i.ops[1])]) < 2 or any(len([t for t in f.succ[b] if t in l[1]]) > 1 for b in l[1]):
            continue
        n = size(f, l)
        if n is not None:
            turn(f, rep, l, order, n)


def combine(f, o, heads, sign=1, out=None, d=0):
    """a value as {text: factor}, '' for the constant"""
    out = {} if out is None else out
    o = flow.strip(f, o)
    i = f.val(o)
    if o[0] == 'c':
        out[''] = out.get('', 0) + sign * o[1]
    elif i is not None and d < 8 and i.op in ('add', 'sub'):
        combine(f, i.ops[0], heads, sign, out, d + 1)
        combine(f, i.ops[1], heads, sign if i.op == 'add' else -sign, out, d + 1)
    elif i is not None and d < 8 and i.op == 'xor' and i.ops[1] == ['c', -1]:
        combine(f, i.ops[0], heads, -sign, out, d + 1)
        out[''] = out.get('', 0) - sign
    else:
        t, k = opexpr(f, o), 0
        if t in heads:
            t, k = heads[t][0], -heads[t][1]
        out[t] = out.get(t, 0) + sign
        out[''] = out.get('', 0) + sign * k
    return out


def slot_of(f, addr):
    """(table, index operands) of an entry of the list of lines"""
    p = f.val(flow.strip(f, addr))
    ix = []
    while p is not None and p.op == 'getelementptr':
        if len(p.path) != 1 or p.path[0][0] == 'f':
            return None
        ix.append(p.path[0][1])
        p = f.val(flow.strip(f, p.ops[0]))
    t = opexpr(f, ['v', p.id]) if p is not None and ix else ''
    return (t, ix) if 'pntrTmp' in t else None


def turn(f, rep, l, order, n):
    heads = {}
    for b in order:
        for i in f.blocks[b]:
            if i.op == 'store':
                t, k = closure.lin(f, i.ops[0])
                x = re.match(r'phi(\d+)$', t or '')
                if x and f.inst[int(x.group(1))].block == l[0]:
                    heads[t] = ('ld(%s)' % opexpr(f, i.ops[1]), k)

    def place(ix):
        c = {}
        for o in ix:
            combine(f, o, heads, 1, c)
        k = c.pop('', 0)
        ends = c.pop(n, 0)
        c = {t: x for t, x in c.items() if x}
        if len(c) == 1 and (ends, set(c.values())) in ((0, {1}), (1, {-1})):
            return ('far' if ends else 'near', list(c)[0], k)
        return None

    slots, cells, vals, used = {}, {}, {}, {}
    for b in order:
        for i in f.blocks[b]:
            if i.op in ('call', 'phi') and i.block != l[0]:
                return
            if i.op == 'load':
                e = slot_of(f, i.ops[0])
                if e:
                    q = place(e[1])
                    used.setdefault(q, e[1])
                    vals[i.id] = slots.get(q, ('was', q))
                else:
                    vals[i.id] = cells.get(opexpr(f, i.ops[0]))
            elif i.op == 'store':
                v = vals.get(flow.strip(f, i.ops[0])[1]) if i.ops[0][0] == 'v' else None
                e = slot_of(f, i.ops[1])
                if e:
                    q = place(e[1])
                    used.setdefault(q, e[1])
                    slots[q] = v
                else:
                    cells[opexpr(f, i.ops[1])] = v
    if None in used or None in slots.values() or not slots:
        return
    i = f.blocks[order[-1]][-1]
    if len({q[1] for q in used}) == 1 and {v[1] for v in slots.values()} != set(slots):
        rep.count('exchanges')
        rep.violation('turn|%s|exchange' % f.name, '%s: the two lines are not exchanged: one of them is lost' % loc(i))
        return
    if len(used) != 2 or len(slots) != 2:
        return
    near = [q for q in used if q[0] == 'near']
    far = [q for q in used if q[0] == 'far']
    if len(near) != 1 or len(far) != 1 or near[0][1] != far[0][1]:
        return
    rep.count('exchanges')
    a, z = near[0], far[0]
    if a[2] + z[2] != -1:
        rep.violation('turn|%s|pair' % f.name, '%s: the lines exchanged are not equally far from the two ends' % loc(i))
    if slots[a] != ('was', z) or slots[z] != ('was', a):
        rep.violation('turn|%s|exchange' % f.name, '%s: the two lines are not exchanged: one of them is lost' % loc(i))
    sc = closure.Scan(f, l, used[a][0])
    if not sc.ok or len(used[a]) != 1:
        return
    lo, hi = sc.ends()
    half = ('lshr(%s,1)' % n, 'sdiv(%s,2)' % n, 'ashr(%s,1)' % n)
    bad = None
    if lo == (None, 0) and hi[0] == n:
        bad = 'each pair is exchanged twice'
    elif lo[0] in half and (lo[1] != 0 or (hi[0] == n and hi[1] != -1)):
        bad = 'the loop does not run from the middle to the end'
    elif hi[0] in half and (hi[1] != -1 or (lo[0] is None and lo[1] != 0)):
        bad = 'the loop does not run from the beginning to the middle'
    if bad:
        rep.violation('turn|%s|range' % f.name, '%s: %s' % (loc(i), bad))


def check(m, rep):
    nr = noreturn(m)
    rep.rule('every innermost loop that reads lines with linput() and writes a file: each line read is written, joined to another line or left out '
             'for a reason of the command (MATCH: no match; BREAK, BUILD: nothing in it) before the next one is read or the loop is left; what '
             'BUILD has begun is written at the end; the line with an end marker is kept; SORT and its kin read and write the entries 0 to count - 1, and a line is written if and only if the conditions on the path (first, last, equal to a neighbour) make it due')
    for f in m.funcs.values():
        if getattr(f, 'blocks', None):
            copying(m, f, rep, nr)
            markers(f, rep, nr)
            sorting(f, rep, nr)
            turning(f, rep)
    rep.atleast('copying loops', 3)
