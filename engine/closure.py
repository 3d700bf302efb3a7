"""C31: the traces through proofs (SHOW TRACE_BACK, SHOW USAGE and what builds on them) are complete."""
import re
import ir
import flow
import sem
from ir import loc, opexpr
from common import *
from sem import X, facts

YES, NO = 89, 78
A, Pr, E, F = 97, 112, 101, 102


def lin(f, o):
    """(text or None, constant) of a value"""
    o = flow.strip(f, o)
    k = 0
    while o[0] == 'v' and o[1] >= f.nargs:
        i = f.inst[o[1]]
        if i.op == 'add' and i.ops[1][0] == 'c':
            k += i.ops[1][1]
            o = flow.strip(f, i.ops[0])
            continue
        break
    if o[0] == 'c':
        return None, o[1] + k
    return opexpr(f, o), k


def at(f, o):
    """(text of the array, index operand) if o is array[index] or *array"""
    v = f.val(flow.strip(f, o))
    if v is None or v.op != 'load':
        return None
    return cell(f, v.ops[0])


def cell(f, addr):
    p = f.val(addr)
    if p is not None and p.op == 'getelementptr':
        if len(p.path) != 1 or p.path[0][0] == 'f':
            return None
        return opexpr(f, p.ops[0]), flow.strip(f, p.path[0][1])
    return None


def stored(i):
    """constant or operand written by a store, and its cell"""
    return cell(i.func, i.ops[1]) if i.op == 'store' else None


class Memory:
    """A running number that is kept in a local variable in memory: within the loop the variable (text cell) is own + off."""

    def __init__(self, cell, own, off, name, start, step, phi):
        self.cell, self.own, self.off, self.name = cell, own, off, name
        self.start, self.step, self.phi = start, step, phi

    def lin(self, x):
        return (self.own, x[1] + self.off) if x[0] == self.cell else x

    def canon(self, t):
        return t.replace(self.cell, self.name)


def in_memory(f, loop):
    h, body, lat = loop
    for i in f.blocks[h]:
        if i.op != 'store' or sem.alloca_of(f, i.ops[1]) is None or f.val(i.ops[0]) is None:
            continue
        var = i.ops[1]
        if any(j is not i and ((j.op == 'store' and j.ops[1] == var) or (j.op == 'call' and var in j.ops))
               for b in body for j in f.blocks[b]):
            continue
        txt = 'ld(%s)' % opexpr(f, var)
        val = f.val(i.ops[0])
        if val.op == 'phi' and val.block == h:
            own = opexpr(f, ['v', val.id])
            starts = [o for o, b in val.ops if b not in body]
            steps = {lin(f, o) for o, b in val.ops if b in body}
            steps = {(k if t in (txt, own) else None) for t, k in steps}
            if len(starts) == 1 and len(steps) == 1 and None not in steps:
                return Memory(txt, own, 0, own, lin(f, starts[0]), steps.pop(), val)
        base, k = lin(f, i.ops[0])
        for ld in f.blocks[h]:
            if ld.op == 'load' and opexpr(f, ['v', ld.id]) == base:
                ph = f.val(ld.ops[0])
                if ph is None or ph.op != 'phi' or ph.block != h:
                    continue
                outs = [o for o, b in ph.ops if b not in body]
                ins = [o for o, b in ph.ops if b in body]
                if len(outs) == 1 and all(o == var for o in ins):
                    return Memory(txt, base, k, opexpr(f, i.ops[0]), ('ld(%s)' % opexpr(f, outs[0]), 0), k, None)
    return None


class Count:
    """The running number own goes on from start by step while own pred bound + off; leaves through the edge block->exit_to."""

    def __init__(self, own, start, step, pred, bound, off, block, exit_to):
        self.own, self.start, self.step, self.pred = own, start, step, pred
        self.bound, self.off, self.block, self.exit_to = bound, off, block, exit_to


def counted(f, loop):
    h, body, lat = loop
    mem = in_memory(f, loop)
    run = []
    for ph in flow.phis(f, h):
        starts = [o for o, b in ph.ops if b not in body]
        steps = {sem.step_of(f, o, ph.id) for o, b in ph.ops if b in body}
        if len(starts) == 1 and len(steps) == 1 and None not in steps:
            run.append((opexpr(f, ['v', ph.id]), lin(f, starts[0]), steps.pop()))
    if mem:
        run.append((mem.own, mem.start, mem.step))
    r = []
    for own, start, step in run:
        for b in sorted(body):
            for t in f.succ[b]:
                if t in body:
                    continue
                for a, p, c, ao, co in facts(f, b, t):
                    x, k = lin(f, ao)
                    if mem:
                        x, k = mem.lin((x, k))
                    if x != own:
                        continue
                    if b in lat and k == step:
                        k = 0
                    r.append(Count(own, start, step, ir.NEG[p], co, -k, b, t))
    return r, mem


class Scan:
    """What a loop runs over: the values of one running number."""

    def __init__(self, f, loop, v):
        self.ok = False
        self.f, self.loop = f, loop
        txt, k = lin(f, v)
        self.norm = set()
        cs, mem = counted(f, loop)
        if mem:
            txt, k = mem.lin((txt, k))
        for c in cs:
            self.norm.add((c.block, c.exit_to))
            if c.own != txt:
                continue
            s, sk = c.start
            b, bk = lin(f, c.bound)
            if b == txt:
                continue
            bk += c.off
            self.first, self.step = (s, sk + k), c.step
            if c.step > 0 and c.pred in ('slt', 'ult', 'ne'):
                self.last = (b, bk + k - 1)
            elif c.step > 0 and c.pred in ('sle', 'ule'):
                self.last = (b, bk + k)
            elif c.step < 0 and c.pred in ('sgt', 'ugt', 'ne'):
                self.last = (b, bk + k + 1)
            elif c.step < 0 and c.pred in ('sge', 'uge'):
                self.last = (b, bk + k)
            else:
                continue
            self.ok = True
            self.count = c
            break

    def ends(self):
        """(smallest, largest) value"""
        return (self.first, self.last) if self.step > 0 else (self.last, self.first)

    def complaint(self, low, high):
        """what is left out; low/high are (text, constant) or a function of the text giving the constant that is due (None: unknown)"""
        if not self.ok:
            return None
        if abs(self.step) != 1:
            return 'runs in steps of %d' % self.step
        a, b = self.ends()
        for got, want, sign, what in ((a, low, 1, 'starts after the first'), (b, high, -1, 'stops before the last')):
            if callable(want):
                k = want(got[0])
            else:
                k = want[1] if got[0] == want[0] else None
            if k is not None and sign * (got[1] - k) > 0:
                return what
        return None


class Round(flow.Monitor):
    """One round after the other of a loop.  State: (lasting facts, facts of this round or None outside, growth of the counter).
    names(fact) -> iterable of names; event(inst) -> iterable of names; judge(names, grown) -> message or None."""

    def __init__(self, f, nr, loop, names, event, judge, lasting=(), counter=None, normal=(), start=(0, 0)):
        flow.Monitor.__init__(self, f, start, (frozenset(), None, ()))
        self.nr, self.loop, self.names, self.event, self.judge = nr, loop, names, event, judge
        self.lasting, self.counter, self.normal = set(lasting), counter, set(normal)
        self.rounds = 0
        self._k = {}
        self.dead = sem.dead_blocks(f, nr)
        self.inner = {l[0]: l for l in f.loops if l[0] in loop[1] and l[0] != loop[0]}

    def step(self, st, i):
        if i.op == 'call' and i.callee in self.nr:
            return None
        if i.op == 'ret':
            return None
        n = self._k.get(i.id)
        if n is None:
            n = self._k[i.id] = frozenset(self.event(i))
        if n:
            la, lo, gr = st
            la |= n & self.lasting
            if lo is not None:
                lo |= n - self.lasting
            return (la, lo, gr)
        return st

    def delta(self, o, gr):
        o = flow.strip(self.f, o)
        t, k = lin(self.f, o)
        d = dict(gr)
        x = o
        while x[0] == 'v' and x[1] >= self.f.nargs and self.f.inst[x[1]].op == 'add' and self.f.inst[x[1]].ops[1][0] == 'c':
            x = flow.strip(self.f, self.f.inst[x[1]].ops[0])
        if x[0] == 'v' and x[1] in d and d[x[1]] is not None:
            return d[x[1]] + k
        return None

    def edge(self, st, b, t):
        f = self.f
        la, lo, gr = st
        h, body, lat = self.loop
        key = (b, t)
        n = self._k.get(key)
        if n is None:
            n = set()
            for fa in sem.deep_facts(f, b, t):
                n |= set(self.names(fa))
            n = self._k[key] = frozenset(n)
        la |= n & self.lasting
        if any('no ' + x in la for x in la) or any(x.replace(' is ', ' not ', 1) in la for x in la if ' is ' in x):
            return None        # contradictory: there is no such path
        if lo is not None:
            lo |= n - self.lasting
        if lo is not None and (t == h or t not in body):
            if t == h:
                self.rounds += 1
            g = None
            if self.counter is not None and t == h:
                g = self.delta(flow.phi_in(self.counter, b), gr)
            if t in self.dead:
                return None
            if not (t not in body and (b, t) in self.normal and (b == h or not lo)):
                msg = self.judge(la | lo, g) if t == h or (b, t) in self.normal else self.left(la | lo) if self.normal else None
                if msg:
                    self.err(f.blocks[b][-1], msg)
            if t != h:
                lo, gr = None, ()
        if t == h:
            lo = frozenset()
            gr = ((self.counter.id, 0),) if self.counter is not None else ()
        elif lo is not None and self.counter is not None:
            d = dict(gr)
            for ph in flow.phis(f, t):
                x = self.delta(flow.phi_in(ph, b), gr)
                if x is not None:
                    d[ph.id] = x
                else:
                    d.pop(ph.id, None)
            gr = tuple(sorted(d.items()))
        return (la, lo, gr)

    def left(self, names):
        return 'left'


def report(rep, f, mon, rule, text, key=None):
    mon.run()
    rep.count('rounds', mon.rounds)
    done = set()
    for i, msg, k in mon.errors:
        if msg in done:
            continue
        done.add(msg)
        rep.violation('%s|%s|%s' % (rule, f.name, msg if key is None else key + msg),
                      '%s(): %s (%s); path: %s' % (f.name, text % {'what': msg}, loc(i), mon.witness(k)))


def taken(f, i):
    """a proof is taken over from the work area"""
    return i.is_call('nmbrLet') and 'g_WrkProof.proofString' in opexpr(f, i.ops[1])


def parsed(fa, of):
    """the parser found errors in the proof of `of`"""
    a, p, c, ao, co = fa
    if not a.startswith('parseProof('):
        return False
    v = True
    try:
        k = int(c)
    except ValueError:
        return False
    return (p == 'sgt' and k >= 1) or (p == 'sge' and k >= 2) or (p == 'eq' and k >= 2)


def assertion(fa, v, out):
    """names for tests of the type of statement v (a text)"""
    a, p, c, ao, co = fa
    if a == 'ld(ld(&g_Statement)[%s].type)' % v:
        for nm, k in (('a', A), ('p', Pr), ('e', E), ('f', F)):
            if c == str(k) and p in ('ne', 'eq'):
                out.add(('not ' if p == 'ne' else 'is ') + nm)
        if p == 'eq' and c in (str(A), str(Pr), str(E), str(F)):
            for nm, k in (('a', A), ('p', Pr), ('e', E), ('f', F)):
                if c != str(k):
                    out.add('not ' + nm)


def args_of(f, fa, out):
    a, p, c, ao, co = fa
    mm = re.match(r'(?:ld\()?arg(\d+)\)?(?:\[0\]\))?$', a)
    if mm and c == '0':
        if p in ('ne', 'sgt', 'ugt'):
            out.add('arg' + mm.group(1))
        elif p in ('eq', 'sle', 'ule'):
            out.add('no arg' + mm.group(1))


LAST = ['arg%d' % k for k in range(9)] + ['no arg%d' % k for k in range(9)]


def innermost(f, block):
    return sem.loop_of(f, block)


def back(f, m, rep, nr):
    """traceProofWork(): the work list"""
    flags = 'ld(arg3)'
    marks = {}
    for i in f.insts():
        s = stored(i)
        if s and s[0] == flags and i.ops[0] == ['c', YES]:
            ls = sem.loops_of(f, i.block)
            if ls:
                marks.setdefault((ls[0][0], X(f, s[1])), []).append((i, s[1], ls))
    rep.count('work-list loops', len(marks))
    ess = {opexpr(f, i.ops[0]) for i in f.calls('nmbrLet') if 'nmbrGetEssential(' in opexpr(f, i.ops[1])}
    for (h, v), ms in sorted(marks.items()):
        i, vo, ls = ms[0]
        if len(ls) < 2 and not any(i.is_call(f.name) for i in f.insts()):
            rep.violation('list|%s|once' % f.name, '%s(): the statements found are not traced in their turn, the steps of one proof '
                          'are looked at only (%s)' % (f.name, loc(i)))
        if len(ls) < 2 or at(f, vo) is None:
            continue
        inner, outer = ls[0], ls[1]
        proof, idx = at(f, vo)
        rep.count('obligations')
        # the list of work
        ctr, lst = None, None
        for s in f.insts():
            c = stored(s)
            if s.block in inner[1] and c and X(f, s.ops[0]) == v and c[0] != flags:
                lst = c[0]
                for ph in flow.phis(f, inner[0]):
                    if ['v', ph.id] == c[1]:
                        ctr = ph

        def names(fa):
            out = set()
            a, p, c, ao, co = fa
            args_of(f, fa, out)
            assertion(fa, v, out)
            if a == v and re.match(r'-?\d+$', c):
                k = int(c)
                if (p == 'slt' and k <= 0) or (p == 'sle' and k < 0) or (p == 'eq' and k < 0):
                    out.add('negative')
                if (p in ('sle', 'slt') and k <= -1000) or (p == 'ne' and k == -63):
                    out.add('local')
            if a.startswith('nmbrElementIn(') and p in ('ne', 'sgt') and c == '0':
                out.add('noted')
            e = at(f, ao)
            if e:
                same = X(f, e[1]) == v
                if e[0] == flags and same and ((p == 'ne' and c == str(NO)) or (p == 'eq' and c == str(YES))):
                    out.add('seen')
                elif same and e[0] not in (flags, lst) and \
                        ((p == 'ne' and c == str(YES)) or (p == 'eq' and c == str(NO))):
                    out.add('filtered')
                if p == 'eq' and c == '0' and e[0] in {'ld(%s)' % x for x in ess} and e[1] == idx:
                    out.add('floating')
            return out

        def event(i):
            s = stored(i)
            if s and s[0] == flags and i.ops[0] == ['c', YES] and X(f, s[1]) == v:
                yield 'marked'
            if s and s[0] != flags and X(f, i.ops[0]) == v:
                yield 'listed'
            if i.is_call('nmbrLet') and 'nmbrAddElement(' in opexpr(f, i.ops[1]):
                if opexpr(f, i.ops[0]) == 'arg4':
                    yield 'noted'
                elif opexpr(f, i.ops[1]).endswith(',%s)#%d' % (v, f.val(i.ops[1]).id)):
                    yield 'listed'

        def judge(n, g):
            if 'arg1' in n and 'floating' in n:
                return None
            if 'negative' in n:
                return None if n & {'local', 'noted'} else 'is unknown and its proof is not put on the list of unproved statements'
            if {'not a', 'not p'} <= n or 'seen' in n:
                return None
            if 'filtered' in n and 'arg2' in n:
                return None
            if 'marked' not in n:
                return 'refers to a statement that is not marked as used'
            if 'listed' not in n:
                return 'refers to a statement that is marked but not put on the list of those to be traced'
            if g is not None and g != 1:
                return 'puts a statement on the list that grows by %d entries' % g
            return None

        sc = Scan(f, inner, idx)
        mon = Round(f, nr, inner, names, event, judge, LAST, ctr, sc.norm)
        report(rep, f, mon, 'trace', 'a step of a traced proof %(what)s')
        msg = sc.complaint((None, 0), lambda b: -1 if b and b.startswith('nmbrLen(%s)' % proof) else None)
        rep.count('scans', sc.ok)
        if msg:
            rep.violation('scan|%s|steps' % f.name, '%s(): the scan of the steps of a traced proof %s (%s)'
                          % (f.name, msg, loc(f.blocks[inner[0]][-1])))
        # the statements on the list
        item = None
        for c in f.calls('parseProof'):
            if c.block in outer[1]:
                item = c.ops[0]
        if item is None or at(f, item) is None:
            continue
        iv, ib = X(f, item), at(f, item)

        def names2(fa):
            out = set()
            assertion(fa, iv, out)
            if parsed(fa, iv):
                out.add('bad')
            return out

        def event2(i):
            if i.block == inner[0] or i.block in inner[1]:
                yield 'scanned'
            if i.is_call('parseProof') and X(f, i.ops[0]) == iv:
                yield 'parsed'
            if taken(f, i):
                yield 'taken'

        def judge2(n, g):
            if 'not p' in n:
                return None
            if 'scanned' not in n:
                return 'is not searched for the statements it uses'
            if 'parsed' not in n:
                return 'is not read'
            if not n & {'bad', 'taken'} and 'g_WrkProof' not in proof:
                return 'is not taken from where it was read'
            return None

        sc = Scan(f, outer, ib[1])
        mon = Round(f, nr, outer, names2, event2, judge2, (), None, sc.norm)
        report(rep, f, mon, 'list', 'the proof of a statement on the list %(what)s')
        rep.count('scans', sc.ok)

        def limit(b):
            return -1 if b is not None and re.match(r'phi\d+$', b) else None
        msg = sc.complaint((None, 0), limit)
        if msg:
            rep.violation('scan|%s|list' % f.name, '%s(): the scan of the list of statements to be traced %s (%s)'
                          % (f.name, msg, loc(f.blocks[outer[0]][-1])))
        if sc.ok and ctr is not None:
            grown = grows(f, outer, sc.last[0], ctr)
            if grown is False:
                rep.violation('scan|%s|growth' % f.name, '%s(): the scan of the statements to be traced does not go on to those '
                              'that are added to the list (%s)' % (f.name, loc(f.blocks[outer[0]][-1])))


def grows(f, loop, txt, ctr):
    """does the loop's limit follow the counter ctr of an inner loop?"""
    for ph in flow.phis(f, loop[0]):
        if opexpr(f, ['v', ph.id]) == txt:
            return follows(f, ph, ctr, loop)
    return False if txt is None or re.match(r'phi\d+$', txt) else None


def follows(f, ph, ctr, loop):
    seen, st = set(), [o for o, b in ph.ops if b in loop[1]]
    while st:
        o = flow.strip(f, st.pop())
        if o[0] != 'v' or o[1] < f.nargs or o[1] in seen:
            continue
        seen.add(o[1])
        if o[1] == ctr.id:
            return True
        i = f.inst[o[1]]
        if i.op == 'phi':
            st += [x for x, b in i.ops]
        elif i.op in ('add', 'select'):
            st += i.ops
        elif i.op in ('load', 'call'):
            return None
    return False


def filt(f, rep, nr):
    """traceProofWork(): the statements through which /TO is reached"""
    for c in f.calls('traceUsage'):
        l = sem.loop_of(f, c.block)
        if l is None:
            continue
        v = X(f, c.ops[0])
        rep.count('obligations')
        if X(f, c.ops[1]) == '0':
            rep.violation('filter|%s|direct' % f.name, '%s(): for /TO only direct usage is looked up (%s)' % (f.name, loc(c)))
        k = X(f, c.ops[2])
        if re.match(r'add\(arg0,-\d+\)$', k):
            rep.violation('filter|%s|cutoff' % f.name, '%s(): for /TO usage is looked up to before the statement only (%s)'
                          % (f.name, loc(c)))
        base = None
        for i in f.insts():
            s = stored(i)
            if s and i.block in l[1] and i.ops[0] == ['c', YES] and s[0] != 'ld(arg3)':
                base = s[0]
        if base is None:
            continue

        def names(fa):
            out = set()
            assertion(fa, v, out)
            a, p, x, ao, co = fa
            if a.startswith('matchesList(') and p == 'eq' and x == '0':
                out.add('unmatched')
            e = at(f, ao)
            if a in ('ld(ld(&str1))',) or a.startswith('ld(traceUsage(') or (e is None and re.match(r'ld\(ld\(&\w+\)\)$', a)):
                if p in ('ne', 'eq') and ((p == 'ne') == (x == str(YES))):
                    out.add('unused')
            return out

        def event(i):
            s = stored(i)
            if s and i.ops[0] == ['c', YES] and s[0] == base and X(f, s[1]) == v:
                yield 'itself'
            if s and i.block in l[1] and s[0] == base and X(f, s[1]) != v and sem.loop_of(f, i.block) != l:
                yield 'used'
            if i is c:
                yield 'called'
            for l2 in sem.loops_of(f, i.block):
                if l2[1] < l[1] and l2[0] == i.block:
                    yield 'used'

        def judge(n, g):
            if {'not a', 'not p'} <= n or 'unmatched' in n:
                return None
            if 'itself' not in n:
                return 'is left out itself'
            if 'called' in n and not n & {'used', 'unused'}:
                return 'is left out with the statements that use it'
            return None

        sc = Scan(f, l, c.ops[0])
        mon = Round(f, nr, l, names, event, judge, (), None, sc.norm)
        report(rep, f, mon, 'filter', 'a statement that matches the list of /TO %(what)s')
        rep.count('scans', sc.ok)
        msg = sc.complaint((None, 1), ('ld(&g_statements)', 0))
        if msg:
            rep.violation('scan|%s|filter' % f.name, '%s(): the scan for statements that match the list of /TO %s (%s)'
                          % (f.name, msg, loc(c)))
        for i in f.insts():
            s = stored(i)
            if not (s and i.block in l[1] and i.ops[0] == ['c', YES] and s[0] == base and X(f, s[1]) != v):
                continue
            l2 = sem.loop_of(f, i.block)
            if l2 is None or l2 == l:
                continue
            w = X(f, s[1])

            def names3(fa):
                a, p, x, ao, co = fa
                e = at(f, ao)
                if e and X(f, e[1]) == w and e[0] != base and p in ('ne', 'eq') and ((p == 'ne') == (x == str(YES))):
                    yield 'unused'
                if e and X(f, e[1]) == w and e[0] == base and p in ('ne', 'eq') and ((p == 'eq') == (x == str(YES))):
                    yield 'unused'

            def event3(j):
                s2 = stored(j)
                if s2 and s2[0] == base and X(f, s2[1]) == w and j.ops[0] == ['c', YES]:
                    yield 'marked'
            sc = Scan(f, l2, s[1])
            mon = Round(f, nr, l2, names3, event3, lambda n, g: None if n & {'unused', 'marked'} else 'left out', (), None, sc.norm)
            report(rep, f, mon, 'filter use', 'a statement that uses one of the list of /TO is %(what)s')
            msg = sc.complaint(lambda b: 1 if b == v else 1 if b is None else None, ('ld(&g_statements)', 0))
            rep.count('scans', sc.ok)
            if msg:
                rep.violation('scan|%s|filter use' % f.name, '%s(): the scan of the statements that use one of the list of /TO %s (%s)'
                              % (f.name, msg, loc(i)))


def usage(f, rep, nr):
    """traceUsage()"""
    for c in f.calls('parseProof'):
        l = sem.loop_of(f, c.block)
        if l is None:
            continue
        v = X(f, c.ops[0])
        rep.count('obligations')
        adds = [i for i in f.calls('nmbrLet') if i.block in l[1] and opexpr(f, i.ops[1]).startswith('nmbrAddElement(')
                and opexpr(f, i.ops[1]).rsplit(',', 1)[1].startswith(')') is False
                and X(f, f.val(i.ops[1]).ops[1]) == v]
        if not adds:
            rep.violation('usage|%s|add' % f.name, '%s(): no statement is put on the list of those that use the statement' % f.name)
            continue
        lst = opexpr(f, adds[0].ops[0])
        look = [i for i in f.calls('nmbrElementIn') if i.block in l[1]]
        inner = None
        li = None
        for i in look:
            il = sem.loop_of(f, i.block)
            e = at(f, i.ops[2])
            if il is not None and il[1] < l[1] and e and e[0] == 'ld(%s)' % lst:
                inner, li, idx = il, i, e[1]
        scan = Scan(f, inner, idx) if inner is not None else None
        bound = scan.count.bound if scan and scan.ok else None
        ctr = None
        for ph in flow.phis(f, l[0]):
            if bound is not None and flow.strip(f, bound) == ['v', ph.id]:
                ctr = ph

        def names(fa):
            out = set()
            args_of(f, fa, out)
            a, p, x, ao, co = fa
            assertion(fa, v, out)
            o2 = set()
            assertion(fa, 'arg0', o2)
            out |= {'traced ' + y for y in o2}
            if p == 'eq' and x == '0':
                if a.startswith('instr(') or a.startswith('strstr('):
                    out.add('no label')
                if re.search(r'\[%s\]\.proofSectionPtr\)\)$' % re.escape(v), a):
                    out.add('no proof')
                if a.startswith('nmbrElementIn('):
                    out.add('absent')
            if p == 'ne' and x == '0' and a.startswith('nmbrElementIn('):
                out.add('found')
            if parsed(fa, v):
                out.add('bad')
            return out

        def event(i):
            if i in adds:
                yield 'added'
            if i is c:
                yield 'parsed'
            if taken(f, i):
                yield 'taken'
            if inner is not None and i.block == inner[0]:
                yield 'searched'

        def judge(n, g):
            if 'not p' in n:
                return None
            if n & {'no proof', 'no label'} and 'parsed' not in n:
                if 'arg1' in n:
                    return 'is passed over because the label is not in it although indirect usage is asked for'
                if not (n & {'traced not e', 'traced is a', 'traced is p'} and n & {'traced not f', 'traced is a', 'traced is p'}):
                    return 'is passed over because the label is not in it although a compressed proof does not name its hypotheses'
                return None
            if 'parsed' not in n:
                return 'is not read'
            if not n & {'bad', 'taken'}:
                return 'is not taken from where it was read'
            if 'added' not in n:
                if inner is not None and 'found' in n:
                    return 'uses the statement and is not put on the list'
                return None if 'searched' in n or inner is None else 'is not searched'
            if 'arg1' in n and g is not None and g != 1:
                return 'is found but statements that use it are not looked for'
            if 'no arg1' in n and g is not None and g != 0:
                return 'is found and indirect usage looked for although only direct usage is asked for'
            if inner is not None and 'found' not in n:
                return 'is put on the list without using the statement'
            return None

        class R(Round):
            def left(self, n):
                return None

        sc = Scan(f, l, c.ops[0])
        last = LAST + ['traced ' + y + z for y in ('is ', 'not ') for z in 'apef']
        mon = R(f, nr, l, names, event, judge, last, ctr, sc.norm)
        report(rep, f, mon, 'usage', 'a proof %(what)s')
        rep.count('scans', sc.ok)
        msg = sc.complaint(('arg0', 1), lambda b: 0 if b == 'ld(&g_statements)' or b and re.match(r'phi\d+$|arg2$', b) else None)
        if msg:
            rep.violation('scan|%s|proofs' % f.name, '%s(): the scan of the proofs %s (%s)' % (f.name, msg, loc(c)))
        if inner is not None:
            def names2(fa):
                a, p, x, ao, co = fa
                if a.startswith('nmbrElementIn(') and x == '0':
                    yield 'absent' if p == 'eq' else 'found'

            class I(Round):
                def left(self, n):
                    return None if 'found' in n else 'left'

            mon = I(f, nr, inner, names2, lambda i: (), lambda n, g: None if n & {'absent'} else 'is not looked for',
                    (), None, scan.norm)
            report(rep, f, mon, 'usage search', 'a statement that uses the given one %(what)s in a proof')
            rep.count('scans', scan.ok)
            msg = scan.complaint((None, 0), lambda b: -1 if b and re.match(r'phi\d+$', b) else None)
            if msg:
                rep.violation('scan|%s|list' % f.name, '%s(): the scan of the statements to be looked for %s (%s)'
                              % (f.name, msg, loc(li)))
            k = f.val(li.ops[0])
            if li.ops[0][0] == 'c' and li.ops[0][1] > 1:
                rep.violation('usage|%s|from' % f.name, '%s(): the search in a proof starts at step %d (%s)'
                              % (f.name, li.ops[0][1], loc(li)))
        # the part of a compressed proof that is searched for the label
        for l2 in f.loops:
            if not l2[1] < l[1]:
                continue
            for b in l2[1]:
                for t in f.succ[b]:
                    if t not in l2[1] and any(fa[1] == 'eq' and fa[2] == '41' for fa in facts(f, b, t)):
                        rep.count('obligations')
                        if not any(i.op == 'call' and i.callee not in nr for b2 in l2[1] for i in f.blocks[b2]):
                            rep.violation('usage|%s|comment' % f.name, '%s(): the end of the list of labels is looked for without '
                                          'passing over comments, labels behind it are not seen (%s)' % (f.name, loc(f.blocks[b][-1])))
        # the result
        for i in f.insts():
            s = stored(i)
            if s and i.ops[0] == ['c', YES] and sem.loop_of(f, i.block) is not None:
                e = at(f, s[1])
                l3 = sem.loop_of(f, i.block)
                if not e or e[0] != 'ld(%s)' % lst or l3[0] in l[1]:
                    continue
                w = X(f, s[1])

                def event3(j, base=s[0]):
                    q = stored(j)
                    if q and q[0] == base and X(f, q[1]) == w and j.ops[0] == ['c', YES]:
                        yield 'marked'
                s3 = Scan(f, l3, e[1])
                mon = Round(f, nr, l3, lambda fa: (), event3, lambda n, g: None if 'marked' in n else 'is not marked', (), None,
                            s3.norm)
                report(rep, f, mon, 'usage result', 'a statement on the list %(what)s in the result')
                rep.count('scans', s3.ok)
                msg = s3.complaint((None, 1), lambda b: -1 if b and b.startswith('nmbrLen(ld(%s))' % lst) else None)
                if msg:
                    rep.violation('scan|%s|result' % f.name, '%s(): the scan that marks the statements found %s (%s)'
                                  % (f.name, msg, loc(i)))


def results(m, f):
    """texts of the arrays of flags a trace function filled, and where"""
    r = {}
    for i in f.insts():
        if i.is_call('traceProofWork'):
            r.setdefault('ld(%s)' % opexpr(f, i.ops[3]), []).append(i.block)
        if i.op == 'store':
            v = f.val(i.ops[0])
            if v is not None and v.is_call('traceUsage'):
                r.setdefault('ld(%s)' % opexpr(f, i.ops[1]), []).append(i.block)
                r.setdefault(opexpr(f, i.ops[0]), []).append(i.block)
        s = stored(i)
        if f.name == 'proofStmtSumm' and s and i.ops[0] == ['c', YES] and s[0].startswith('ld(&'):
            l = sem.loop_of(f, i.block)
            r.setdefault(s[0], []).append(l[0] if l else i.block)
    return r


def shown(m, f, rep, nr):
    """what was traced is put out"""
    flags = results(m, f)
    if not flags:
        return
    todo = {}
    for i in f.insts():
        if i.op not in ('icmp', 'switch'):
            continue
        e = at(f, i.ops[0])
        l = sem.loop_of(f, i.block)
        if e and l and e[0] in flags and lin(f, e[1])[0] is not None and any(f.dominates(b, l[0]) for b in flags[e[0]]):
            mem = in_memory(f, l)
            todo.setdefault((l[0], mem.canon(X(f, e[1])) if mem else X(f, e[1])), (l, e, mem))
    for (h, v), (l, e, mem) in sorted(todo.items()):
        lab = 'ld(&g_Statement)[%s].labelName)' % v

        def puts(i):
            return i.op == 'call' and i.callee in ('let', 'print2', 'printLongLine') and \
                any(lab in (mem.canon(opexpr(f, o)) if mem else opexpr(f, o)) for o in i.ops)
        if not any(puts(i) for b in l[1] for i in f.blocks[b]):
            continue
        rep.count('obligations')

        def names(fa):
            out = set()
            if mem:
                fa = tuple(mem.canon(y) if z in (0, 2) else y for z, y in enumerate(fa))
            a, p, x, ao, co = fa
            assertion(fa, v, out)
            args_of(f, fa, out)
            q = at(f, ao)
            if q and q[0] in flags and (mem.canon(X(f, q[1])) if mem else X(f, q[1])) == v and ((p == 'ne' and x == str(YES)) or (p == 'eq' and x == str(NO))):
                out.add('unused')
            if a.startswith('matchesList(') and p == 'eq' and x == '0':
                out.add('unmatched')
            if a.startswith('strcmp(') and p == 'ne' and x == '0':
                out.add('other kind')
            return out

        def event(i):
            if puts(i):
                yield 'shown'

        axioms = f.name == 'traceProof'

        def judge(n, g):
            if n & {'shown', 'unused', 'other kind'}:
                return None
            if 'unmatched' in n:
                return None if not axioms or 'arg3' in n else 'left out although no list to match is given'
            if 'not a' in n and ('arg2' in n or not axioms):
                return None
            return 'left out'

        class R(Round):
            def left(self, n):
                return None if 'arg5' in n else judge(n, None)

        sc = Scan(f, l, e[1])
        mon = R(f, nr, l, names, event, judge, LAST, None, sc.norm, start=(h, 0))
        mon.init = (frozenset(), frozenset(), ())
        report(rep, f, mon, 'shown', 'a statement that was found is %(what)s')
        rep.count('scans', sc.ok)

        def high(b):
            return -1 if b == 'arg0' else 0 if b == 'ld(&g_statements)' else None

        def low(b):
            return 1 if b is None or b == 'ld(&g_showStatement)' else None
        msg = sc.complaint(low, high)
        if msg:
            rep.violation('scan|%s|shown|%s' % (f.name, sc.count.block), '%s(): the scan that shows the statements found %s (%s)'
                          % (f.name, msg, loc(f.blocks[h][-1])))


WORK = ('traceUsage', 'traceProof', 'traceProofTree', 'countSteps')


def selected(m, f, rep, nr):
    """SHOW TRACE_BACK and SHOW USAGE: each statement that matches is traced"""
    for c in [i for i in f.calls('traceUsage')] + [i for i in f.calls('traceProof')]:
        cands = [l for l in sem.loops_of(f, c.block)
                 if any(i.is_call('matchesList') for b in l[1] for i in f.blocks[b]) and len(l[1]) < 200]
        if not cands:
            continue
        l = cands[0]
        mt = [i for b in l[1] for i in f.blocks[b] if i.is_call('matchesList')][0]
        mm = re.match(r'ld\(ld\(&g_Statement\)\[(.*)\]\.labelName\)$', X(f, mt.ops[0]))
        v = mm and mm.group(1)
        if not v:
            continue
        rep.count('obligations')
        p0 = f.val(f.val(mt.ops[0]).ops[0])
        idx = [q[1] for q in p0.path if isinstance(q[1], (list, tuple))]
        theorems = c.callee == 'traceProof'
        if theorems and X(f, c.ops[5]) != '0':
            continue
        mem = in_memory(f, l)

        def same(t):
            return mem.canon(t) if mem else t
        v = same(v)

        def names(fa):
            out = set()
            fa = tuple(same(y) if k in (0, 2) else y for k, y in enumerate(fa))
            assertion(fa, v, out)
            a, p, x, ao, co = fa
            if a.startswith('matchesList(') and p == 'eq' and x == '0':
                out.add('unmatched')
            if a.startswith('traceProof(') and ((p == 'eq' and x == '-1') or (p == 'slt' and x == '0')):
                out.add('aborted')
            if p == 'eq' and x == '0' and a == 'ld(ld(ld(&g_Statement)[%s].labelName))' % v:
                out.add('unlabelled')
            return out

        def event(i):
            if i.op == 'call' and i.callee in WORK:
                yield 'traced'

        def judge(n, g):
            if n & {'traced', 'unmatched', 'unlabelled'}:
                return None
            if 'not p' in n and (theorems or 'not a' in n):
                return None
            return 'not traced'

        class R(Round):
            def left(self, n):
                return None if 'aborted' in n else 'followed by no other'
        sc = Scan(f, l, idx[0])
        mon = R(f, nr, l, names, event, judge, (), None, sc.norm, start=(l[0], 0))
        mon.init = (frozenset(), frozenset(), ())
        report(rep, f, mon, 'selected ' + c.callee, 'a statement that matches is %(what)s')
        rep.count('scans', sc.ok)
        msg = sc.complaint((None, 1), ('ld(&g_statements)', 0))
        if msg:
            rep.violation('scan|%s|%s' % (f.name, c.callee), '%s(): the scan for the statements to be traced %s (%s)'
                          % (f.name, msg, loc(c)))
        got = same(X(f, c.ops[0]))
        if got not in (v, 'ld(&g_showStatement)') and lin(f, c.ops[0])[0] == lin(f, idx[0])[0]:
            rep.violation('selected|%s|other' % c.callee, '%s(): another statement than the one that matches is traced (%s)'
                          % (f.name, loc(c)))


def single(m, f, rep, nr):
    """proofStmtSumm(), traceProofTreeRec(): the steps of one proof"""
    ess = {opexpr(f, i.ops[0]) for i in f.calls('nmbrLet') if 'nmbrGetEssential(' in opexpr(f, i.ops[1])}
    done = {}
    for i in f.insts():
        v = None
        if i.is_call(f.name):
            v, kind = i.ops[0], 'traced'
        elif i.is_call('nmbrLet') and opexpr(f, i.ops[1]).startswith('nmbrAddElement('):
            v, kind = f.val(i.ops[1]).ops[1], 'listed'
        e = v and at(f, v)
        l = sem.loop_of(f, i.block)
        if e and l and re.match(r'phi\d+$', X(f, e[1])):
            done.setdefault((l[0], X(f, v)), (l, e, {}))[2].setdefault(i.id, kind)
    for (h, v), (l, e, kinds) in sorted(done.items()):
        if not any(taken(f, i) and opexpr(f, i.ops[0]) == e[0][3:-1] for i in f.calls('nmbrLet')):
            continue
        rep.count('obligations')
        tree = 'traced' in kinds.values()

        def names(fa):
            out = set()
            a, p, c, ao, co = fa
            args_of(f, fa, out)
            assertion(fa, v, out)
            if a == v and re.match(r'-?\d+$', c):
                k = int(c)
                if (p == 'slt' and k <= 0) or (p == 'sle' and k < 0) or (p == 'eq' and k < 0):
                    out.add('negative')
            if a.startswith('nmbrElementIn(') and p in ('ne', 'sgt') and c == '0':
                out.add('noted global' if '&stmtFoundList' in a else 'noted')
            q = at(f, ao)
            if q and p == 'eq' and c == '0' and q[0] in {'ld(%s)' % x for x in ess} and q[1] == e[1]:
                out.add('floating')
            return out

        def event(i):
            if i.id in kinds:
                yield kinds[i.id]

        def judge(n, g):
            if 'negative' in n or ('arg1' in n and 'floating' in n):
                return None
            if tree:
                return None if n & {'traced', 'noted global'} else 'neither traced nor known to have been'
            if {'not a', 'not p'} <= n or n & {'noted', 'listed'}:
                return None
            return 'not put on the list'
        sc = Scan(f, l, e[1])
        mon = Round(f, nr, l, names, event, judge, LAST, None, sc.norm)
        report(rep, f, mon, 'single', 'a statement that a step of the proof refers to is %(what)s')
        rep.count('scans', sc.ok)
        msg = sc.complaint((None, 0), lambda b: -1 if b and b.startswith('nmbrLen(%s)' % e[0]) else None)
        if msg:
            rep.violation('scan|%s|steps' % f.name, '%s(): the scan of the steps of the proof %s (%s)'
                          % (f.name, msg, loc(f.blocks[h][-1])))


def check(m, rep):
    nr = noreturn(m)
    f, g, t, c = need(m, 'traceProofWork', 'traceUsage', 'traceProof', 'command')
    back(f, m, rep, nr)
    filt(f, rep, nr)
    usage(g, rep, nr)
    for h in m.funcs.values():
        if h.name not in ('traceProofWork', 'traceUsage'):
            shown(m, h, rep, nr)
    selected(m, c, rep, nr)
    for n in ('proofStmtSumm', 'traceProofTreeRec'):
        if n in m.funcs:
            single(m, m.funcs[n], rep, nr)
    rep.rule('traces through proofs: one round of each loop = one path; it marks and lists what it finds or passed an admissible test')
