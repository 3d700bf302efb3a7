"""C19: statements marked as discouraged are used, and proofs marked so are replaced, only on request."""
import re
import ir
import flow
import sem
from ir import loc, opexpr
from sem import facts
from common import *
from pa import command_loop

PROOF, USAGE = 1, 2
USERS = {'assignStatement': 0, 'replaceStatement': 0, 'minimizeProof': 0}
SEARCH = ('proveFloating', 'proveByReplacement', 'replaceStatement')


def override_params(m):
    """{function: parameter indexes that receive the OVERRIDE qualifier}"""
    r = {}
    for n in SEARCH:
        f = m.funcs.get(n)
        if f is None:
            continue
        for g in m.calls_to(n):
            if g.func.name != 'command':
                continue
            for k, o in enumerate(g.ops):
                if about(g.func, o):
                    r.setdefault(n, set()).add(k)
    ch = True
    while ch:
        ch = False
        for n in list(r):
            for q in SEARCH:
                for g in m.calls_to(q):
                    if g.func.name != n:
                        continue
                    for k, o in enumerate(g.ops):
                        o = flow.strip(g.func, o)
                        if o[0] == 'v' and o[1] in r[n] and k not in r.setdefault(q, set()):
                            r[q].add(k)
                            ch = True
    return r


def about(f, o, d=0, seen=None):
    """the value is decided by the OVERRIDE qualifier"""
    seen = seen if seen is not None else set()
    o = flow.strip(f, o)
    if o[0] != 'v' or o[1] < f.nargs or o[1] in seen or d > 6:
        return False
    seen.add(o[1])
    i = f.inst[o[1]]
    if i.op == 'call':
        return i.callee == 'switchPos' and i.ops[0][0] == 's' and i.ops[0][1] == 'OVERRIDE'
    if i.op == 'phi':
        for x, b in i.ops:
            if about(f, x, d + 1, seen):
                return True
            t = f.blocks[b][-1]
            bt = f.br_targets(t)
            if bt and about(f, bt[0], d + 1, seen):
                return True
            for p in f.pred[b]:
                if len(f.pred[b]) == 1:
                    bt = f.br_targets(f.blocks[p][-1])
                    if bt and bt[1] != bt[2] and about(f, bt[0], d + 1, seen):
                        return True
        return False
    if i.op in ('icmp', 'select', 'or', 'xor', 'and', 'zext', 'trunc'):
        return any(about(f, x, d + 1, seen) for x in i.ops)
    return False


def is_override(a, p, c):
    return a.startswith('switchPos("OVERRIDE"') and c == '0' and p in ('ne', 'sgt') or \
        a == 'ld(&g_globalDiscouragement)' and (p, c) in (('eq', '0'), ('ne', '1'))


def is_input(a):
    return a.startswith('switchPos("') or a == 'ld(&g_globalDiscouragement)'


def decided(f, o, d=0):
    i = f.val(flow.strip(f, o))
    if i is None or d > 4:
        return False
    if i.op == 'phi':
        return len(i.ops) <= 5 and all(x[0] == 'c' or decided(f, x, d + 1) for x, b in i.ops)
    return i.op == 'icmp' or i.op == 'call' and i.callee == 'switchPos'


class Use(flow.Monitor):
    def __init__(self, f, nr, start, hdr, ovr, params, problems):
        self.nr, self.hdr, self.ovr, self.params = nr, hdr, ovr, params
        self.mine = params.get(f.name, set())
        tr = set()
        self.cells = set()
        for i in f.insts():
            if i.op != 'call':
                continue
            if i.callee in SEARCH:
                for k in params.get(i.callee, ()):
                    o = flow.strip(f, i.ops[k])
                    if o[0] == 'v' and o[1] >= f.nargs:
                        tr.add(o[1])
            if i.callee in USERS or i.callee == 'getMarkupFlag':
                o = flow.strip(f, i.ops[0])
                v = f.val(o)
                if v is not None and v.op == 'load':
                    a = sem.alloca_of(f, v.ops[0])
                    if a is not None:
                        self.cells.add(a)
        self.phis = set()
        for i in f.insts():
            if i.op == 'phi' and len(i.ops) <= 5 and i.block != hdr and about(f, ['v', i.id]) and \
                    all(x[0] == 'c' or decided(f, x) for x, b in i.ops):
                self.phis.add(i.id)
                tr.add(i.id)
        self.track = tuple(sorted(tr))
        flow.Monitor.__init__(self, f, start, frozenset())
        self.points = set()

    def origin(self, st, o):
        """the value a flag variable was last given on this path"""
        o = flow.strip(self.f, o)
        for _ in range(6):
            n = next((x[2] for x in st if x[0] == 'ph' and ['v', x[1]] == o), None)
            if n is None:
                break
            o = flow.strip(self.f, list(n))
        return o

    def wrong_source(self, st, o):
        """the value is nonzero for another reason than the OVERRIDE qualifier or SET DISCOURAGEMENT OFF"""
        o = self.origin(st, o)
        i = self.f.val(o)
        if i is None or not self.ovr:
            return False
        out = []
        if i.op == 'icmp':
            flow.cond_facts(self.f, o, True, out)
        else:
            out = [(o, 'ne', ['c', 0])]
        fs = [(opexpr(self.f, flow.strip(self.f, l)), q, opexpr(self.f, r)) for l, q, r in out]
        return any(is_input(a) for a, q, c in fs) and not any(is_override(*x) for x in fs)

    def text(self, st, o):
        f = self.f
        o = flow.strip(f, o)
        v = f.val(o)
        if v is not None and v.op == 'load':
            a = sem.alloca_of(f, v.ops[0])
            for x in st:
                if x[0] == '=' and x[1] == a:
                    return x[2]
        return opexpr(f, o)

    def need(self, i, st, mode, text, what):
        self.points.add((i.id, what))
        if 'override' in st or ('free', mode, text) in st:
            return
        self.err(i, what)

    def step(self, st, i):
        f = self.f
        if i.op == 'call':
            if i.callee in self.nr:
                if i.callee == 'bug' and f.name == 'proveFloating' and 'override' not in st and any(x[0] == 'disc' for x in st):
                    self.points.add((i.id, 'bug'))
                    self.err(i, 'a statement whose usage is discouraged gets as far as an internal error')
                return None
            for o in i.ops:
                a = sem.alloca_of(f, o) if isinstance(o, list) else None
                if a in self.cells:
                    st = self.drop(st, a)
            if i.callee in USERS and f.name in ('command', 'proveByReplacement'):
                self.need(i, st, USAGE, self.text(st, i.ops[0]), 'a statement whose usage is discouraged may be used by %s()' % i.callee)
            if f.name == 'proveFloating' and i.callee == 'nmbrAddElement':
                o = flow.strip(f, i.ops[1])
                v = f.val(o)
                if o[0] == 'v' and not (v is not None and v.op == 'load'):
                    self.need(i, st, USAGE, self.text(st, o), 'the search may use a statement whose usage is discouraged')
            if i.callee in SEARCH and f.name in ('command',) + SEARCH:
                for k in self.params.get(i.callee, ()):
                    o = flow.strip(f, i.ops[k])
                    self.points.add((i.id, 'arg'))
                    if o[0] == 'v' and o[1] in self.mine or 'override' in st:
                        continue
                    v = self.fact(o)
                    if not (v[0] > 0 or v[1] < 0 or v[2] == 0) and not self.wrong_source(st, o):
                        continue
                    if f.name == 'command' and not feeds(f, i, self.hdr):
                        continue
                    self.err(i, '%s() is told to use discouraged statements without the OVERRIDE qualifier' % i.callee)
        elif i.op == 'store':
            a = sem.alloca_of(f, i.ops[1])
            if a in self.cells:
                t = self.text(st, i.ops[0])
                st = self.drop(st, a) | {('=', a, t)}
            g = global_store_name(f, i)
            if g:
                t = '&%s)' % g
                st = frozenset(x for x in st if not (x[0] in ('free', 'disc', '=') and t in x[2]))
            if g == 'g_PFASmode' and i.ops[0][0] == 'c' and i.ops[0][1] and f.name == 'command':
                self.need(i, st, PROOF, 'ld(&g_proveStatement)', 'a proof whose modification is discouraged may be worked on')
            elif f.name == 'command' and opexpr(f, i.ops[1]).endswith('.proofSectionPtr') and 'notnew' not in st:
                self.need(i, st, PROOF, 'ld(&g_proveStatement)', 'a proof whose modification is discouraged may be replaced')
        elif i.op == 'ret':
            return None
        return st

    def drop(self, st, a):
        return frozenset(x for x in st if not (x[0] == '=' and x[1] == a) and not (x[0] in ('free', 'disc') and ('&%s)' % cellname(self.f, a)) in x[2]))

    def edge(self, st, b, t):
        f = self.f
        if t == self.hdr and f.name == 'command':
            return None
        add = set()
        fs = list(sem.deep_facts(f, b, t))
        for a, p, c, ao, co in list(fs):
            if c == '0' and p in ('eq', 'ne'):
                o = self.origin(st, ao)
                if o != ao:
                    out = []
                    flow.cond_facts(f, o, p == 'ne', out)
                    fs += [(opexpr(f, flow.strip(f, l)), q, opexpr(f, r), flow.strip(f, l), r) for l, q, r in out]
        for a, p, c, ao, co in fs:
            if self.ovr and is_override(a, p, c):
                add.add('override')
            if ao[0] == 'v' and ao[1] in self.mine and ao[1] < f.nargs and c == '0' and p in ('ne', 'sgt'):
                add.add('override')
            i = f.val(ao)
            if i is None or i.op != 'call':
                continue
            if i.callee == 'getMarkupFlag' and c == '0' and i.ops[1][0] == 'c':
                add.add(('free' if p == 'eq' else 'disc', i.ops[1][1], self.text(st, i.ops[0])))
            if i.callee == 'cmdMatches' and i.ops[0][0] == 's' and c == '0':
                if i.ops[0][1] == 'SAVE NEW_PROOF':
                    add.add('new' if p in ('ne', 'sgt') else 'notnew')
                elif p == 'ne' and not 'SAVE NEW_PROOF'.startswith(i.ops[0][1]):
                    add.add('notnew')
        st = st | add
        if 'new' in st and 'notnew' in st:
            return None
        if any(x[0] == 'disc' and ('free',) + x[1:] in st for x in st):
            return None
        ph = [x.id for x in flow.phis(f, t)]
        old = st
        keep = flow.relevant(f, t)
        st = frozenset(x for x in st if x[0] != 'ph' or x[1] not in ph and x[1] in keep)
        for x in flow.phis(f, t):
            o = flow.phi_in(x, b)
            if x.id in self.phis and o[0] == 'v':
                o = self.origin(old, o)
                if o[0] == 'v':
                    st = st | {('ph', x.id, tuple(o))}
        if ph and any(x[0] in ('free', 'disc', '=') for x in st):
            st = frozenset(x for x in st if not (x[0] in ('free', 'disc', '=') and any(re.search(r'phi%d\b' % k, x[2]) for k in ph)))
        return st


def cellname(f, a):
    s = opexpr(f, ['v', a])
    return s[1:] if s.startswith('&') else s


def feeds(f, call, hdr):
    """the result ends up in the proof in progress"""
    cells = {sem.alloca_of(f, i.ops[1]) for i in f.insts() if i.op == 'store' and ['v', call.id] in sem.leaves(f, i.ops[0])} - {None}
    reach, st = {call.block}, [call.block]
    while st:
        for t in f.succ[st.pop()]:
            if t != hdr and t not in reach:
                reach.add(t)
                st.append(t)
    for i in f.insts():
        if not i.is_call('addSubProof') or i.block not in reach:
            continue
        for l in sem.leaves(f, i.ops[0]):
            v = f.val(l)
            if l == ['v', call.id] or v is not None and v.op == 'load' and sem.alloca_of(f, v.ops[0]) in cells:
                return True
    return False


class Flag(flow.Monitor):
    """getMarkupFlag(): which text decides which stored mark, and which mark answers which question"""

    def __init__(self, f, nr):
        flow.Monitor.__init__(self, f, (0, 0), frozenset())
        self.nr = nr
        self.points = set()
        self.arrays = {}

    def step(self, st, i):
        f = self.f
        if i.op == 'call' and i.callee in self.nr:
            return None
        if i.op == 'store' and i.ops[0][0] == 'c' and i.ops[0][1] in (78, 89):
            a = f.val(i.ops[1])
            v = f.val(a.ops[0]) if a is not None and a.op == 'getelementptr' else None
            if v is not None and v.op == 'load':
                n = opexpr(f, v.ops[0])
                ms = {x[1] for x in st if x[0] == 'has'} if i.ops[0][1] == 89 else \
                     {x[1] for x in st if isinstance(x, tuple) and x[0] == 'hasnot'}
                self.arrays.setdefault((n, i.ops[0][1]), []).append((i, ms, 'nohyp' in st))
        if i.op == 'ret':
            return None
        return st

    def edge(self, st, b, t):
        f = self.f
        add = set()
        for a, p, c, ao, co in sem.facts(f, b, t):
            i = f.val(ao)
            if i is not None and i.is_call('instr') and c == '0':
                g = load_of_global(f, i.ops[2])
                if g:
                    k = ('has', g) if p in ('ne', 'sgt') else ('hasnot', g)
                    st = frozenset(x for x in st if not (isinstance(x, tuple) and x[1] == g))
                    add.add(k)
            if a.endswith('.type)') and c in ('97', '112') and p == 'eq':
                add.add('nohyp')
            if a.endswith('.type)') and c in ('101', '102') and p == 'eq':
                add.add('hyp')
        return st | add


def markup(m, rep, nr):
    f = m.funcs.get('getMarkupFlag')
    if f is None or len(f.args) != 2:
        return
    s = Flag(f, nr)
    s.run()
    # what each array stands for
    answers = {}
    for mode in (PROOF, USAGE):
        r = Ret(f, nr)
        r.fixed = {1: (mode, mode, None)}
        r.run()
        answers[mode] = r.seen_arrays
    for mode, mark, what in ((PROOF, 'g_proofDiscouragedMarkup', 'proof modification'), (USAGE, 'g_usageDiscouragedMarkup', 'usage')):
        other = 'g_usageDiscouragedMarkup' if mode == PROOF else 'g_proofDiscouragedMarkup'
        for n, val, when in sorted(answers[mode]):
            rep.count('obligations')
            if (val, when) in ((89, 0), (78, 1)):
                rep.violation('markup|answer %d' % mode, 'getMarkupFlag(): the answer for %s is the opposite of the stored mark' % what)
            ys = s.arrays.get((n, 89), [])
            for i, ms, _ in ys:
                if mark not in ms:
                    rep.violation('markup|mark %d' % mode, '%s: a statement is marked (%s discouraged) without its comment containing the tag' % (loc(i), what))
            for i, ms, _ in s.arrays.get((n, 78), []):
                if mark not in ms and ms:
                    rep.violation('markup|unmark %d' % mode, '%s: a statement is taken as not marked (%s) by looking for another tag' % (loc(i), what))
    for i in f.calls('edit'):
        if i.ops[1][0] == 'c' and i.ops[1][1] & 4:
            rep.count('obligations')
            ok = any(x.op == 'store' and x.ops[0] == ['c', 32] and newline(f, x) for x in f.insts())
            if not ok:
                rep.violation('markup|lines', '%s: line ends are removed from the comment before looking for the tag, words of a tag broken across '
                              'lines run together' % loc(i))


def newline(f, st):
    """the store happens where the byte was found to be a line end (or where that is not decided by a comparison)"""
    cs = set()
    for p in f.pred[st.block]:
        for a, pr, c, ao, co in facts(f, p, st.block):
            if pr == 'eq' and co[0] == 'c':
                cs.add(co[1])
    return not cs or 10 in cs


class Ret(flow.Monitor):
    """arrays consulted for the answer: (array, compared value, result)"""

    def __init__(self, f, nr):
        flow.Monitor.__init__(self, f, (0, 0), 0)
        self.nr = nr
        self.seen_arrays = set()

    def step(self, st, i):
        f = self.f
        if i.op == 'call' and i.callee in self.nr:
            return None
        if i.op == 'ret' and i.ops:
            for l in sem.leaves(f, i.ops[0]):
                j = f.val(l)
                if j is not None and j.op == 'icmp' and j.ops[1][0] == 'c' and j.pred in ('eq', 'ne'):
                    self.cands = getattr(self, 'cands', set()) | {j.id}
        return st

    def edge(self, st, b, t):
        f = self.f
        for ph in flow.phis(f, t):
            o = flow.strip(f, flow.phi_in(ph, b))
            j = f.val(o)
            if j is None or j.op != 'icmp' or j.pred not in ('eq', 'ne') or j.ops[1][0] != 'c':
                continue
            v = f.val(flow.strip(f, j.ops[0]))
            if v is None or v.op != 'load':
                continue
            a = f.val(v.ops[0])
            w = f.val(a.ops[0]) if a is not None and a.op == 'getelementptr' else None
            if w is not None and w.op == 'load' and any(x.op == 'ret' and x.ops and flow.strip(f, x.ops[0]) == ['v', ph.id] for x in f.insts()):
                self.seen_arrays.add((opexpr(f, w.ops[0]), j.ops[1][1], 1 if j.pred == 'eq' else 0))
        return st


def check(m, rep):
    f, = need(m, 'command')
    nr = noreturn(m)
    params = override_params(m)
    h, body, lat = command_loop(f)
    n = 0
    for name, start, hdr in [('command', (h, 0), h)] + [(x, (0, 0), None) for x in SEARCH]:
        g = m.funcs.get(name)
        if g is None:
            continue
        s = Use(g, nr, start, hdr, name == 'command', params, None)
        s.run()
        n += len(s.points)
        for inst, p, key in s.errors:
            rep.violation('%s|%s' % (name, p[:60]), '%s: %s; %s' % (loc(inst), p, s.witness(key)))
    rep.cover['uses'] = n
    rep.count('obligations', n)
    markup(m, rep, nr)
