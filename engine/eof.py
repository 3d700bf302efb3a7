"""C17: the end of the input never makes the program read or ask for ever."""
import ir
import flow
import sem
import paths
from conc import Conc, cell
from ir import loc
from base import Broken
from common import *
from redirect import command_loop

NEST = 'g_commandFileNestingLevel'
READERS = {'fgets': 0, 'getchar': -1, 'fgetc': -1, 'getc': -1, '_IO_getc': -1, 'getc_unlocked': -1, 'getchar_unlocked': -1, 'linput': 0, 'cmdInput': 0, 'cmdInput1': None,
           'fread': 0, 'getline': -1}
REOPEN = {'fopen', 'freopen', 'fSafeOpen', 'rewind', 'fseek', 'fsetpos'}
YES, EXIT = ('s', 'Y'), ('s', 'EXIT')


def answers(a):
    """what cmdInput1() gives back at the end of the input, by the question"""
    if isinstance(a, tuple):
        return [YES] if a[1].startswith('Do') else [EXIT]
    return [EXIT, YES]


def bounded(f, loop, block):
    """does a counter end the loop, whatever is read?"""
    h, body, latches = loop
    if any(all(f.dominates(c.block, x) for x in latches) and (c.pred[-2:] in ('lt', 'le') and c.step > 0 or c.pred[-2:] in ('gt', 'ge') and c.step < 0 or
           c.pred == 'ne' and abs(c.step) == 1) for c in sem.counting(f, loop)):
        return True
    # a counter that lives in memory
    for ph in flow.phis(f, h):
        backs = [f.val(o) for o, b in ph.ops if b in body]
        kept = [i for i in f.blocks[h] if i.op == 'store' and i.ops[0] == ['v', ph.id] and cell(f, i.ops[1])]
        if not backs or not kept or not all(a is not None and a.op == 'add' and a.ops[1][0] == 'c' and a.ops[1][1] > 0 for a in backs):
            continue
        mem = kept[0].ops[1]
        if not all((l := f.val(a.ops[0])) is not None and l.op == 'load' and l.ops[0] == mem for a in backs):
            continue
        if any(i.op == 'store' and i.ops[1] == mem and i is not kept[0] or i.op == 'call' and mem in i.ops for b in body for i in f.blocks[b]):
            continue
        if any(t not in body and pr in ('sge', 'sgt', 'uge', 'ugt') and ao == ['v', ph.id] for b in body if all(f.dominates(b, x) for x in latches)
               for t in f.succ[b] for a, pr, c, ao, co in sem.facts(f, b, t)):
            return True
    return False


class Again(Conc):
    """Rounds of the outermost loop around a read.  Once that read has met the end of the input (extra), all further ones do: is it reached again?"""

    def __init__(self, f, site, first, nr, stop):
        self.site = site
        self.stop = stop
        self.first = first
        ls = [l for l in sem.loops_of(f, site.block) if l[0] != stop]
        self.scope = ls[-1][1] if ls else ()
        self.counted = [l for l in ls if bounded(f, l, site.block)]
        self.inner = ls[0] if ls and ls[0] not in self.counted else None
        w = {NEST}
        for b in self.scope:
            for u in f.blocks[b]:
                if u.op == 'store' and u.ops[0] == ['v', site.id]:
                    w.add(cell(f, u.ops[1]))
                if u.is_call('linput') and len(u.ops) > 2:
                    w.add(cell(f, u.ops[2]))
        w.discard(None)
        self.met = 0
        Conc.__init__(self, f, (ls[-1][0] if ls else 0, 0), {NEST: 0}, w, nr, ())

    stable = frozenset([NEST])

    def call(self, st, i):
        if i.callee in REOPEN:
            return None
        if i.id == self.site.id:
            if st[2]:
                self.err(i, 'again')
                return None
            self.met += 1
            return [(self.first, ('end', 0)), (None, ())]
        if i.callee in READERS and not st[2]:
            return (None, st[2])
        if i.callee in READERS:
            v = READERS[i.callee]
            if v is not None:
                return (v, st[2])
            return [(a, st[2]) for a in answers(self.value(st, i.ops[0]))]
        if i.callee == 'feof':
            return (1 if st[2] else None, st[2])
        return (None, st[2])

    def clobbers(self, i, v):
        return not (i.callee == 'linput' and v == 0)

    def crossed(self, st, b, t):
        if t == self.stop or t not in self.scope:
            return None
        for l in self.counted:
            if t == l[0] and b in l[1]:
                return None
        if st[2] and self.inner and t == self.inner[0] and b in self.inner[1]:
            n = st[2][1] + 1
            if n > 2:
                self.err(self.f.blocks[b][-1], 'round')
                return None
            return (st[0], st[1], ('end', n))
        return st


class Given(Conc):
    """cmdInput1() and cmdInput() at the end of the input"""

    def __init__(self, f, nr, ask, want):
        self.want = want
        w = {'A%d' % i.id for i in f.insts() if i.op == 'alloca'} | {NEST}
        self.good = 0
        Conc.__init__(self, f, (0, 0), {NEST: 0}, w, nr, ())
        if ask is not None:
            self.init = self.learn(self.init, 0, ('s', ask))

    stable = frozenset([NEST])

    def call(self, st, i):
        if i.callee in READERS:
            if st[2] == ('read',):
                self.err(i, 'reads again after the end of the input')
                return None
            return (READERS[i.callee], ('read',))
        return (None, st[2])

    def ret(self, st, i):
        if st[2] != ('read',):
            return
        v = self.value(st, i.ops[0]) if i.ops else None
        if v is None:
            return
        self.good += v == self.want
        if v != self.want:
            self.err(i, 'gives "%s" instead of %s' % (v[1] if isinstance(v, tuple) else v, '"%s"' % self.want[1] if isinstance(self.want, tuple) else self.want))


def keep_args():
    """arguments stay known on the way"""
    orig = flow.relevant

    def rel(f, t):
        return set(orig(f, t)) | set(range(f.nargs))
    return rel


class Exit(Conc):
    def __init__(self, f, start, cells, nr, hdr, goal):
        self.hdr, self.goal = hdr, goal
        self.left = 0
        w = set(cells) | {NEST, 'g_toolsMode', 'g_PFASmode'} | {ir_cell for ir_cell in ('A%d' % i.id for i in f.insts() if i.op == 'alloca')}
        Conc.__init__(self, f, start, dict(cells, **{NEST: 0}), w, nr, ())

    stable = frozenset([NEST, 'g_toolsMode', 'g_PFASmode', 'g_listMode'])

    def call(self, st, i):
        if i.callee == 'cmdMatches' and i.ops[0][0] == 's':
            return (int(i.ops[0][1] == 'EXIT'), st[2])
        if i.callee == 'cmdInput1':
            return [(a, st[2]) for a in answers(self.value(st, i.ops[0]))[-1:]]
        if i.callee == 'switchPos' and i.ops[0][:2] == ['s', 'FORCE']:
            return (0, st[2])
        if i.callee == 'feof':
            return (1, st[2])
        return (None, st[2])

    def ret(self, st, i):
        self.left += 1

    def crossed(self, st, b, t):
        if t == self.hdr:
            if self.goal and self.get(st, self.goal) == 0:
                self.left += 1
            else:
                self.err(self.f.blocks[b][-1], 'stays')
            return None
        return st


def from_user(f, o, d=0):
    """is the number read from a text of the user: val() of something?"""
    o = flow.strip(f, o)
    i = f.val(o)
    if i is None or d > 8:
        return None
    if i.op == 'call':
        return i if i.callee == 'val' else None
    if i.op in ('fptosi', 'fptoui', 'sitofp', 'trunc', 'sext', 'zext', 'freeze', 'mul'):
        for x in i.ops:
            r = from_user(f, x, d + 1)
            if r is not None:
                return r
    return None


def check_steps(m, rep):
    """a loop that goes on by a number of the user: the number is known not to be zero"""
    for name, f in sorted(m.funcs.items()):
        for l in f.loops:
            phs = {ph.id: ph for ph in flow.phis(f, l[0])}
            seen = set()
            for b in l[1]:
                for a in f.blocks[b]:
                    if a.op not in ('add', 'fadd', 'sub'):
                        continue
                    for x, y in ((a.ops[0], a.ops[1]), (a.ops[1], a.ops[0])):
                        v = from_user(f, y)
                        x = flow.strip(f, x)
                        if v is None or not goes_round(f, l, phs, x, a) or v.id in seen or b not in [k for l2 in [sem.loop_of(f, b)] if l2 for k in l2[1] if l2[0] == l[0]]:
                            continue
                        seen.add(v.id)
                        rep.count('loops stepping by a number of the user', 1)
                        rep.count('obligations', 1)
                        if not positive(f, l, v):
                            rep.violation('step|%s' % name, '%s(): the loop at %s goes on by a number the user gave (%s), which may be zero' % (name, loc(f.blocks[l[0]][0]), loc(v)))


def goes_round(f, l, phs, x, a):
    """x + number is the next value of the variable x that decides when the loop is left"""
    if x[0] != 'v':
        return False
    t = tested(f, l)
    back = [ph for ph in phs.values() if any(o == ['v', a.id] and p in l[1] for o, p in ph.ops)]
    if x[1] in phs:
        return any(ph.id == x[1] and ph.id in t for ph in back)
    i = f.val(x)
    if i is None or i.op != 'load' or cell(f, i.ops[0]) is None:
        return False
    stored = any(u.op == 'store' and u.ops[1] == i.ops[0] and (u.ops[0] == ['v', a.id] or any(u.ops[0] == ['v', ph.id] for ph in back)) for b in l[1] for u in f.blocks[b])
    return stored and (any(ph.id in t for ph in back) or i.ops[0] in loads_tested(f, l))


def tested(f, l):
    """phis of the header on which leaving the loop depends"""
    out = set()
    for b in l[1]:
        if all(t in l[1] for t in f.succ[b]):
            continue
        bt = f.br_targets(f.blocks[b][-1])
        if not bt:
            continue
        seen, w = set(), [bt[0]]
        while w:
            o = flow.strip(f, w.pop())
            if o[0] != 'v' or o[1] in seen or o[1] < f.nargs:
                continue
            seen.add(o[1])
            i = f.inst[o[1]]
            if i.op == 'phi' and i.block == l[0]:
                out.add(i.id)
            elif i.op in ('icmp', 'fcmp', 'add', 'sub', 'sitofp', 'and', 'or', 'select'):
                w.extend(i.ops)
    return out


def loads_tested(f, l):
    out = []
    for b in l[1]:
        if all(t in l[1] for t in f.succ[b]):
            continue
        bt = f.br_targets(f.blocks[b][-1])
        w = [bt[0]] if bt else []
        seen = set()
        while w:
            i = f.val(flow.strip(f, w.pop()))
            if i is None or i.id in seen:
                continue
            seen.add(i.id)
            if i.op == 'load':
                out.append(i.ops[0])
            elif i.op in ('icmp', 'fcmp', 'add', 'sub', 'sitofp', 'and', 'or', 'select'):
                w.extend(i.ops)
    return out


def same_source(f, a, b):
    return a.id == b.id or flow_text(f, a) == flow_text(f, b)


def flow_text(f, i):
    return sem.X(f, i.ops[0])


def positive(f, l, v):
    """some edge every path to the loop crosses, or one in the loop, shows that the number is above zero"""
    for b in range(len(f.blocks)):
        if not f.blocks[b]:
            continue
        for t in f.succ[b]:
            if len(f.pred[t]) != 1 or not f.dominates(t, l[0]):
                continue
            for a, pr, c, ao, co in sem.deep_facts(f, b, t):
                for o, k, p in ((ao, co, pr), (co, ao, {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(pr, pr))):
                    w = from_user(f, o)
                    if w is None or k[0] != 'c' or not same_source(f, w, v):
                        continue
                    if p == 'sgt' and k[1] >= 0 or p == 'sge' and k[1] > 0 or p == 'ne' and k[1] == 0 or p == 'eq' and k[1] > 0:
                        return True
            bt = f.br_targets(f.blocks[b][-1])
            i = f.val(bt[0]) if bt else None
            if i is not None and i.op == 'fcmp' and any((w := from_user_f(f, o)) is not None and same_source(f, w, v) for o in i.ops):
                return True
    return False


def from_user_f(f, o):
    i = f.val(flow.strip(f, o))
    return i if i is not None and i.op == 'call' and i.callee == 'val' else None


def check(m, rep):
    need(m, 'cmdInput', 'cmdInput1', 'linput', 'command', 'print2')
    nr = noreturn(m)
    rep.rule('from each read (fgets, getchar, linput, cmdInput, cmdInput1) that meets the end of the input, with all further reads meeting it too, no path leads back to the same read without '
             'reopening the file, unless a counter ends the loop')
    rep.rule('cmdInput() and linput() hand on the end of the input; cmdInput1() turns it into "Y" for a question that begins with "Do" and into EXIT for every other')
    rep.rule('EXIT with such answers leaves the Text Tools, the Proof Assistant or the program on every path')
    rep.rule('a loop that goes on by a number the user gave is entered only if that number was found to be positive')
    sites = 0
    hdr = {'command': command_loop(m['command'])}
    for name, f in sorted(m.funcs.items()):
        for i in list(f.insts()):
            if i.op != 'call' or i.callee not in READERS or i.callee == 'fread' or not f.pred[i.block] and i.block:
                continue
            sites += 1
            v = READERS[i.callee]
            firsts = [v] if v is not None else answers(tuple(i.ops[0][:2]) if i.ops[0][0] == 's' else None)
            for first in firsts:
                r = Again(f, i, first, nr, hdr.get(name))
                try:
                    r.run()
                except RuntimeError:
                    rep.count('reads given up (too many states)', 1)
                    continue
                for e, p, key in r.errors[:1]:
                    rep.violation('again|%s|%s' % (name, i.callee), '%s() goes round and round after the end of the input (%s) (%s)' % (name, loc(i), r.witness(key)))
            rep.count('obligations', 1)
    rep.count('places that read', sites)
    rep.atleast('places that read', 20)
    check_given(m, rep, nr)
    check_exit(m, rep, nr)
    check_steps(m, rep)


def check_given(m, rep, nr):
    orig = flow.relevant
    flow.relevant = keep_args()
    try:
        for fn, ask, want in (('cmdInput', None, 0), ('linput', None, 0), ('cmdInput1', 'Do you want to EXIT anyway (Y, N) <N>? ', YES), ('cmdInput1', 'Do you want to ERASE anyway (Y, N) <N>? ', YES),
                              ('cmdInput1', 'MM> ', EXIT), ('cmdInput1', 'MM-PA> ', EXIT), ('cmdInput1', 'TOOLS> ', EXIT)):
            r = Given(m[fn], nr, ask, want)
            r.run()
            rep.count('obligations', 1)
            rep.count('ends of the input handed on', r.good)
            for i, p, key in r.errors:
                rep.violation('given|%s|%s' % (fn, p), '%s()%s %s at the end of the input (%s)' % (fn, ' asked "%s"' % ask if ask else '', p, r.witness(key)))
    finally:
        flow.relevant = orig


def check_exit(m, rep, nr):
    f = m['command']
    h = command_loop(f)
    es = paths.entry(f, 'EXIT')
    if not es:
        raise Broken('no branch for EXIT')
    for cells, goal in (({'g_toolsMode': 1, 'g_listMode': 0, 'g_PFASmode': 0}, 'g_toolsMode'), ({'g_toolsMode': 1, 'g_listMode': 0, 'g_PFASmode': 1}, 'g_toolsMode'),
                        ({'g_toolsMode': 0, 'g_listMode': 0, 'g_PFASmode': 1}, 'g_PFASmode'), ({'g_toolsMode': 0, 'g_listMode': 0, 'g_PFASmode': 0}, None)):
        left = 0
        for e in es:
            r = Exit(f, (e, 0), cells, nr, h, goal)
            r.run()
            left += r.left
            for i, p, key in r.errors:
                rep.violation('exit|%s' % (goal or 'program'), 'EXIT does not leave the %s although nobody is left to answer (%s)' % (
                    {'g_toolsMode': 'Text Tools', 'g_PFASmode': 'Proof Assistant'}.get(goal, 'program'), r.witness(key)))
        rep.count('obligations', 1)
        rep.count('ways EXIT leaves', left)
        if not left:
            raise Broken('EXIT is never left')
