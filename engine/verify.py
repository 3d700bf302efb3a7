"""C01-C04: the proof checker (parseProof, parseCompressedProof, verifyProof, assignVar, verifyProofs)."""
import re
import ir
import flow
import sem
from ir import loc, opexpr
from base import Broken
from common import *
from sem import X, facts

EC = '&g_WrkProof.errorCount'


def msg_of(f, i):
    """constant head of the message of a diagnostic call"""
    for o in i.ops:
        for s in const_strings(f, o):
            if s and len(s) > 8:
                return s[:60]
        v = f.val(flow.strip(f, o))
        if v is not None and v.op == 'call' and v.callee == 'cat':
            for x in v.ops:
                if x[0] == 's' and len(x[1]) > 8:
                    return x[1][:60]
    return '?'


def ret_alloca(f):
    """the local variable whose value the function returns"""
    r = set()
    for i in f.insts():
        if i.op == 'ret' and i.ops:
            for o in sem.leaves(f, i.ops[0]):
                v = f.val(o)
                if v is not None and v.op == 'load':
                    r.add(sem.alloca_of(f, v.ops[0]))
    return r.pop() if len(r) == 1 else None


class Status(flow.Monitor):
    """State: (pending diagnostic id or None, an error was found, result empty?)."""

    def __init__(self, f, nr, least, res=None):
        flow.Monitor.__init__(self, f, (0, 0), (None, None, 1))
        self.nr, self.least, self.res = nr, least, res
        self.guards = {}
        errs = {}
        for i in f.calls('sourceError', 'rawSourceError'):
            errs.setdefault(i.block, i)
        # guard "only the first error of a proof is shown": both sides are errors
        for b in range(len(f.blocks)):
            for t in f.succ[b]:
                fs = facts(f, b, t)
                if any(a == 'ld(%s)' % EC and p == 'ne' and c == '0' for a, p, c, _, _ in fs):
                    other = [x for x in f.succ[b] if x != t]
                    for x in other:
                        for eb, i in errs.items():
                            if f.dominates(x, eb) and f.pred[x] == [b]:
                                self.guards[(b, t)] = i
                                break

    def step(self, st, i):
        pend, e, emp = st
        f = self.f
        if i.op == 'call':
            if i.callee in self.nr:
                return None
            if i.callee in ('sourceError', 'rawSourceError'):
                pend = i.id
                e = e or i.id
            if i.callee in ('nmbrLet', 'let') and self.res is not None and sem.alloca_of(f, i.ops[0]) == self.res:
                emp = 1 if sem.is_empty_nmbr(f, i.ops[1]) else 0
        elif i.op == 'store':
            a = opexpr(f, i.ops[1])
            if a == EC:
                v = f.val(flow.strip(f, i.ops[0]))
                if v is not None and v.op == 'add' and sem.is_load_of(f, v.ops[0], EC) and v.ops[1][0] == 'c' and v.ops[1][1] > 0:
                    pend = None
                elif i.ops[0] == ['c', 0] and (pend or e):
                    self.err(i, ('forgotten', e))
            elif self.res is not None and sem.alloca_of(f, i.ops[1]) == self.res:
                emp = 1 if sem.is_empty_nmbr(f, i.ops[0]) else 0
        elif i.op == 'ret':
            if pend is not None:
                self.err(i, ('uncounted', pend))
            if e is not None:
                if self.res is not None:
                    if not emp:
                        self.err(i, ('accepted', e))
                elif self.fact(i.ops[0])[0] < self.least:
                    self.err(i, ('accepted', e))
            return None
        return (pend, e, emp)

    def edge(self, st, b, t):
        g = self.guards.get((b, t))
        if g is not None:
            return (g.id, st[1] or g.id, st[2])
        return st


WHAT = {'uncounted': 'is not counted as an error of the proof',
        'accepted': 'does not raise the status that is returned to the caller',
        'forgotten': 'is forgotten: the error count is set back to zero'}


def diag_rules(m, rep, nr):
    for n, least, res in (('parseProof', 1, 0), ('parseCompressedProof', 1, 0), ('verifyProof', 2, 0), ('assignVar', 0, 1)):
        f, = need(m, n)
        ra = ret_alloca(f) if res else None
        if res and ra is None:
            continue
        # a diagnostic is followed on its own, so that unrelated ones do not multiply the states
        mon = Status(f, nr, least, ra)
        mon.track = ret_ids(f)
        mon.limit = 400000
        mon.run()
        nd = sum(1 for _ in f.calls('sourceError'))
        rep.count('diagnostics', nd)
        rep.count('error_guards', len(mon.guards))
        rep.count('obligations', nd + len(mon.guards))
        for i, p, key in mon.errors:
            d = f.inst[p[1]]
            rep.violation('%s|%s|%s' % (p[0], n, msg_of(f, d)),
                          'the problem reported at %s %s (return at %s); path %s' % (loc(d), WHAT[p[0]], loc(i), mon.witness(key)))


def ret_ids(f):
    r = set()
    tr = flow.Tracker(f)
    for i in f.insts():
        if i.op == 'ret' and i.ops:
            r |= {x for x in tr.dep_ids(i.ops[0])}
    return r


def alias(f, pair, b, t):
    """pair = (ids known to have the value, value): follow it through the merges of block t"""
    if not pair:
        return pair
    ids = pair[0]
    new = [x for x in ids]
    for ph in flow.phis(f, t):
        o = flow.strip(f, flow.phi_in(ph, b))
        if o[0] == 'v' and o[1] in ids:
            if ph.id not in new:
                new.append(ph.id)
        elif ph.id in new:
            new.remove(ph.id)
    live = flow.relevant(f, t)
    return (tuple(new[:1] + sorted(x for x in new[1:] if x in live)), pair[1]) if new else None


class Summary(flow.Monitor):
    """verifyProofs(): state (value of the last parse status, of the last verify status,
    an unreported failure id, an unverified proof, list of unproved statements non-empty)."""

    def __init__(self, f, nr, lists):
        flow.Monitor.__init__(self, f, (0, 0), (None, None, 0, 0, 0))
        self.nr, self.lists = nr, lists
        self.heads = set()

    def step(self, st, i):
        k, v, bad, unv, lst = st
        f = self.f
        if i.op == 'call':
            if i.callee in self.nr:
                return None
            if i.callee == 'parseProof':
                return [(((i.id,), x), None, max(bad, 1 if x >= 1 else 0), 1 if x < 2 else unv, lst) for x in (0, 1, 2, 3)]
            if i.callee == 'verifyProof':
                return [(k, ((i.id,), x), max(bad, 1 if x >= 2 else 0), 0, lst) for x in (0, 1, 2)]
            if i.callee == 'let' and sem.alloca_of(f, i.ops[0]) in self.lists:
                c = f.val(flow.strip(f, i.ops[1]))
                if i.ops[1] == ['s', ''] or (i.ops[1][0] == 's' and i.ops[1][1] == ''):
                    lst = 0
                elif c is not None and c.op == 'call' and c.callee == 'cat' and any(o[0] == 's' and o[1] for o in c.ops):
                    lst = 1
            if i.callee == 'print2':
                for s in const_strings(f, i.ops[0]):
                    if s and s.startswith('All proofs'):
                        if bad:
                            self.err(i, 'failed')
                        if unv and 'verified' in s:
                            self.err(i, 'unverified')
        return (k, v, bad, unv, lst)

    def edge(self, st, b, t):
        k, v, bad, unv, lst = st
        f = self.f
        for l, p, r in flow.edge_facts(f, b, t):
            o = flow.strip(f, l)
            if r[0] == 'c':
                for pair in (k, v):
                    if pair and o[0] == 'v' and o[1] in pair[0]:
                        x = pair[1]
                        if not {'eq': x == r[1], 'ne': x != r[1], 'slt': x < r[1], 'sle': x <= r[1], 'sgt': x > r[1],
                                'sge': x >= r[1]}.get(p, True):
                            return None
                # emptyProofList[0]
                i = f.val(o)
                if i is not None and i.op == 'load' and r[1] == 0:
                    q = f.val(i.ops[0])
                    if q is not None and q.op == 'load' and sem.alloca_of(f, q.ops[0]) in self.lists:
                        if (p == 'eq' and lst) or (p == 'ne' and not lst):
                            return None
        # the statement's own results no longer matter when the next one is looked at
        for h, body, lat in f.loops:
            if t == h and k and f.inst[k[0][0]].block in body:
                k = v = None
        return (alias(f, k, b, t), alias(f, v, b, t), bad, unv, lst)


def summary_rule(m, rep, nr):
    f, = need(m, 'verifyProofs')
    lists = set()
    for i in f.calls('let'):
        a = sem.alloca_of(f, i.ops[0])
        if a is not None:
            lists.add(a)
    # only lists that are tested for emptiness
    tested = set()
    for i in f.insts():
        if i.op == 'icmp' and i.ops[1] == ['c', 0]:
            v = f.val(flow.strip(f, i.ops[0]))
            q = f.val(v.ops[0]) if v is not None and v.op == 'load' else None
            if q is not None and q.op == 'load':
                tested.add(sem.alloca_of(f, q.ops[0]))
    lists &= tested
    s = Summary(f, nr, lists)
    s.run()
    n = sum(1 for i in f.calls('print2') for x in const_strings(f, i.ops[0]) if x and x.startswith('All proofs'))
    rep.count('success_messages', n)
    rep.atleast('success_messages', 1)
    if not any(True for _ in f.calls('verifyProof')):
        rep.violation('summary|verifyProofs|noverify', 'verifyProofs() claims success without calling verifyProof()')
    rep.count('obligations', n)
    for i, p, key in s.errors:
        rep.violation('summary|verifyProofs|%s' % p, 'the message at %s can be printed although %s; path %s' % (
            loc(i), 'a proof failed its check' if p == 'failed' else 'a proof was parsed but never verified', s.witness(key)))


class Args(flow.Monitor):
    pass


def check_status(m, rep):
    nr = noreturn(m)
    rep.rule('on every path, a diagnostic of the proof parser or verifier (or the branch that suppresses a repeated one) '
             'is followed by an increment of the proof error count, and the status returned is an error status')
    rep.rule('"All proofs ..." is printed only on paths on which every parseProof status was 0 and every verifyProof '
             'status below 2, and every parsed proof was verified')
    diag_rules(m, rep, nr)
    summary_rule(m, rep, nr)


# ------------------------------------------------------------------ C02
class Accept(flow.Monitor):
    """verifyProof(): state (result compared and equal, step results: 0 none / 1 fresh / 2 must fail, unknown hyp seen)."""

    def __init__(self, f, nr):
        flow.Monitor.__init__(self, f, (0, 0), (0, None, 0))
        self.nr = nr

    def step(self, st, i):
        eq, stp, unk = st
        f = self.f
        if i.op == 'call':
            if i.callee in self.nr:
                return None
            if i.callee == 'assignVar':
                if stp == 'fresh':
                    self.err(i, 'unchecked')
                if len(i.ops) >= 6:
                    fl = self.fact(i.ops[5])
                    if not unk and not (fl[0] == 0 and fl[1] == 0):
                        self.err(i, 'unkhyp')
                stp = stp if stp == 'must' else 'fresh'
        elif i.op == 'ret':
            v = self.fact(i.ops[0])
            if stp == 'fresh':
                self.err(i, 'unchecked')
            if stp == 'must' and v[0] < 2:
                self.err(i, 'empty result')
            if v[0] <= 0 <= v[1] and v[2] != 0 and not eq:
                self.err(i, 'uncompared')
            return None
        return (eq, stp, unk)

    def edge(self, st, b, t):
        eq, stp, unk = st
        f = self.f
        for a, p, c, ao, co in facts(f, b, t):
            v = f.val(ao)
            if v is None:
                continue
            if v.op == 'call' and v.callee == 'nmbrEq' and c == '0' and p == 'ne' and self.rightcmp(v):
                eq = 1
            if v.op == 'load' and c == '-1':
                p0 = f.val(flow.strip(f, v.ops[0]))
                base = flow.strip(f, v.ops[0])
                if p0 is not None and p0.op == 'getelementptr' and len(p0.path) == 1 and p0.path[0][1] == ['c', 0]:
                    base = flow.strip(f, p0.ops[0])
                bv = f.val(base)
                if bv is None:
                    continue
                if bv.op == 'call' and bv.callee == 'assignVar':
                    if stp == 'fresh':
                        stp = ('empty' if not unk else None) if p == 'eq' else None
                elif 'mathStringPtrs' in opexpr(f, base):
                    if p == 'eq':
                        unk = 1
        if stp == 'empty':
            stp = 'must'
        # a new step: forget its unknown hypotheses
        for h, body, lat in f.loops:
            if t == h and b in body and any(i.op == 'call' and i.callee == 'assignVar' for x in body for i in f.blocks[x]):
                unk = 0
                if stp == 'fresh':
                    self.err(f.blocks[b][-1], 'unchecked')
                    stp = 'must'
        return (eq, stp, unk)

    def rightcmp(self, v):
        s = sorted(opexpr(self.f, o) for o in v.ops[:2])
        return any(re.fullmatch(r'ld\(ld\(&g_Statement\)\[arg0\]\.mathString\)', x) for x in s) and \
            any(re.fullmatch(r'ld\(ld\(&g_WrkProof\.mathStringPtrs\)\[(add\(ld\(&g_WrkProof\.numSteps\),-1\)|'
                             r'sub\(ld\(&g_WrkProof\.numSteps\),1\))\]\)', x) or
                re.fullmatch(r'ld\(ld\(&g_WrkProof\.mathStringPtrs\)\[ld\(&g_WrkProof\.numSteps\)\]\[-1\]\)', x) or
                re.fullmatch(r'ld\(ld\(&g_WrkProof\.mathStringPtrs\)\[ld\(ld\(&g_WrkProof\.RPNStack\)(\[0\])?\)\]\)', x)
                for x in s)


TXT = {'unchecked': 'the result of unifying a step is used without testing whether unification failed',
       'empty result': 'a step whose unification failed does not make the proof fail',
       'uncompared': 'the proof is accepted without its last step having been found equal to the statement',
       'unkhyp': 'unification errors are tolerated although no hypothesis of the step is unknown'}


def accept_rule(m, rep, nr):
    f, = need(m, 'verifyProof')
    a = Accept(f, nr)
    a.track = ret_ids(f)
    for c in f.calls('assignVar'):
        a.track |= flow.Tracker(f).dep_ids(c.ops[5])
    a.run()
    n = sum(1 for _ in f.calls('assignVar'))
    rep.count('unification_sites', n)
    if not n:
        rep.violation('accept|verifyProof|nounify', 'verifyProof() never unifies the hypotheses of a step')
    rep.count('obligations', 1 + 3 * n)
    for i, p, key in a.errors:
        rep.violation('accept|verifyProof|%s' % p, '%s: %s; path %s' % (TXT[p], loc(i), a.witness(key)))
    # the arguments of the unification
    for c in f.calls('assignVar'):
        t = [X(f, o) for o in c.ops]
        rep.count('obligations')
        if 'g_WrkProof.proofString' not in t[2] or t[3] != 'arg0':
            rep.violation('accept|verifyProof|args', 'assignVar() at %s is not given the referenced assertion and the statement being '
                          'proved: %s, %s' % (loc(c), t[2], t[3]))
    # what a step's string may be
    for i in f.insts():
        if i.op != 'store' or not re.match(r'^ld\(&g_WrkProof\.mathStringPtrs\)\[', opexpr(f, i.ops[1])):
            continue
        rep.count('step_results')
        rep.count('obligations')
        src = [X(f, o) for o in sem.leaves(f, i.ops[0])]
        idx = opexpr(f, i.ops[1])[len('ld(&g_WrkProof.mathStringPtrs)'):]
        for s in src:
            if 'NmbrNull' in s or s.startswith('assignVar('):
                continue
            if s.startswith('ld(ld(&g_WrkProof.mathStringPtrs)['):
                # a local label: earlier step -1000 - token
                if 'sub(-1000,' in s or 'sub(-1000, ' in s or '-1000' in s:
                    continue
            if re.fullmatch(r'ld\(ld\(&g_Statement\)\[ld\(ld\(&g_WrkProof\.proofString\)%s\)\]\.mathString\)' % re.escape(idx), s):
                if hyp_only(f, i):
                    continue
                rep.violation('accept|verifyProof|copied', 'at %s a step takes over the referenced statement itself although it '
                              'need not be a hypothesis' % loc(i))
                continue
            rep.violation('accept|verifyProof|source', 'at %s a step gets a string that is not derived from its label: %s' % (loc(i), s))


def hyp_only(f, inst):
    """every path to inst passes a branch on type == 'e' or type == 'f'"""
    class P(flow.Monitor):
        def step(self, st, i):
            if i.id == inst.id and not st:
                self.err(i, 'x')
            return st

        def edge(self, st, b, t):
            for a, p, c, ao, co in facts(f, b, t):
                if a.endswith('.type)') and p == 'eq' and c in ('101', '102') and 'proofString' in a:
                    return 1
            for h, body, lat in f.loops:
                if t == h and b in body:
                    return 0
            return st
    p = P(f, (0, 0), 0)
    p.run()
    return not p.errors


class Match(flow.Monitor):
    """assignVar(): the result is built only from a complete match.  State: (scheme used up, instance used up)."""

    def __init__(self, f, nr, res):
        flow.Monitor.__init__(self, f, (0, 0), (0, 0, 0))
        self.nr, self.res = nr, res

    def step(self, st, i):
        if i.op == 'call':
            if i.callee in self.nr:
                return None
            if i.callee == 'nmbrLet' and sem.alloca_of(self.f, i.ops[0]) == self.res and not sem.is_empty_nmbr(self.f, i.ops[1]):
                if not (st[0] and st[1]):
                    self.err(i, 'partial')
        return st

    def edge(self, st, b, t):
        f = self.f
        s, q, w = st
        for a, p, c, ao, co in facts(f, b, t):
            for n in (0, 1):
                # position == length - 1 (or position + 1 == length)
                if p in ('eq', 'sge') and self.isend(ao, co, n):
                    if n == 0:
                        s = 1
                    else:
                        q = 1
        for h in self.heads:
            if t == h:
                s = q = 0
        return (s, q, w)

    def isend(self, ao, co, n):
        f = self.f
        for l, r in ((ao, co), (co, ao)):
            c = f.val(l)
            pos = r
            if c is not None and c.op in ('add', 'sub') and c.ops[1][0] == 'c' and c.ops[1][1] in (-1, 1):
                if (c.op == 'add') != (c.ops[1][1] == -1):
                    continue
                c = f.val(flow.strip(f, c.ops[0]))
            else:
                pv = f.val(r)
                if pv is None or pv.op != 'add' or pv.ops[1] != ['c', 1]:
                    continue
                pos = pv.ops[0]
            if c is not None and c.op == 'call' and c.callee == 'nmbrLen' and self.isparam(c.ops[0], n):
                return True
        return False

    def isparam(self, o, n):
        f = self.f
        o = flow.strip(f, o)
        if o == ['v', n]:
            return True
        v = f.val(o)
        if v is not None and v.op == 'load':
            a = sem.alloca_of(f, v.ops[0])
            if a is not None:
                return any(i.op == 'store' and i.ops[1] == ['v', a] and i.ops[0] == ['v', n] for i in f.insts())
        return False


def match_loop(f, mt):
    """the loop that walks over scheme and instance: outermost loop with branch facts on both ends"""
    best = None
    for l in f.loops:
        h, body, lat = l
        hit = set()
        for b in body:
            for t in f.succ[b]:
                for a, p, c, ao, co in facts(f, b, t):
                    for n in (0, 1):
                        if mt.isend(ao, co, n):
                            hit.add(n)
        if hit == {0, 1}:
            if best is None or len(body) < len(best[1]):
                best = l
    return best


class Transition(flow.Monitor):
    """One round of the matching loop.  State: (position effects, token class, equal, mismatch, new var, compared)."""

    def __init__(self, f, nr, loop, pphi, isp):
        flow.Monitor.__init__(self, f, (loop[0], 0), ((), None, 0, 0, 0, 0))
        self.nr, self.loop, self.pphi, self.isparam = nr, loop, pphi, isp
        self.moves = 0

    def pos(self, env, o):
        """'same', '+1', 'set' for the value of the scheme position"""
        f = self.f
        o = flow.strip(f, o)
        d = dict(env)
        if o == ['v', self.pphi.id]:
            return 'same'
        if o[0] == 'v' and o[1] in d:
            return d[o[1]]
        v = f.val(o)
        if v is not None and v.op == 'add' and v.ops[1] == ['c', 1] and self.pos(env, v.ops[0]) == 'same':
            return '+1'
        return 'set'

    def step(self, st, i):
        if i.op == 'call' and i.callee in self.nr:
            return None
        if i.op == 'ret':
            return None
        return st

    def edge(self, st, b, t):
        env, cls, eq, mis, new, cmp_ = st
        f = self.f
        h, body, lat = self.loop
        if t not in body:
            return None
        for a, p, c, ao, co in facts(f, b, t):
            if a.endswith('.tokenType)') and 'g_MathToken' in a and c in ('0', '1'):
                v = int(c)
                k = v if p == 'eq' else (1 - v if p == 'ne' else None)
                tok = token_index(f, ao)
                if k is not None and self.elem(tok, 0):
                    cls = 'con' if k == sem.CON else 'var'
            e1, e2 = self.elem(ao, 0), self.elem(co, 1)
            if e1 and e2 and e1 == ['v', self.pphi.id]:
                if p == 'eq':
                    eq = 1
            if self.elem(ao, 1) and self.elem(co, 1) and opexpr(f, ao) != opexpr(f, co):
                if p == 'ne':
                    mis = 1
                else:
                    cmp_ = 1
            if a.endswith('.tmp)') and 'g_MathToken' in a and p in ('sgt', 'sge'):
                new = 1
            # running over the end of the instance is a mismatch too
            if p in ('sge', 'sgt'):
                v = f.val(co)
                if v is not None and v.op == 'call' and v.callee == 'nmbrLen' and self.isparam(v.ops[0], 1):
                    mis = 1
        ne = dict(env)
        for ph in flow.phis(f, t):
            if ph.ty in ('i64', 'i32') and t != h:
                ne[ph.id] = self.pos(env, flow.phi_in(ph, b))
        if t == h:
            mv = self.pos(env, flow.phi_in(self.pphi, b))
            self.moves += 1
            if mv == '+1':
                if cls == 'con' and not eq:
                    self.err(f.blocks[b][-1], 'constant')
                if cls == 'var' and not new and mis:
                    self.err(f.blocks[b][-1], 'variable')
                if cls is None and not eq:
                    self.err(f.blocks[b][-1], 'unclassified')
            return None
        live = {x: y for x, y in ne.items() if x != self.pphi.id}
        return (tuple(sorted(live.items())), cls, eq, mis, new, cmp_)

    def elem(self, o, n):
        """index operand if o is an element of parameter array n"""
        f = self.f
        v = f.val(o) if o is not None else None
        if v is None or v.op != 'load':
            return None
        p = f.val(flow.strip(f, v.ops[0]))
        while p is not None and p.op == 'getelementptr':
            if self.isparam(p.ops[0], n):
                return flow.strip(f, p.path[0][1]) if len(p.path) == 1 else True
            p = f.val(flow.strip(f, p.ops[0]))
        return None


def token_index(f, o):
    """T of a value g_MathToken[T].tokenType"""
    v = f.val(flow.strip(f, o))
    if v is None or v.op != 'load':
        return None
    p = f.val(v.ops[0])
    if p is None or p.op != 'getelementptr':
        return None
    return flow.strip(f, p.path[0][1])


def match_rule(m, rep, nr):
    f, = need(m, 'assignVar')
    res = ret_alloca(f)
    if res is None:
        return
    mt = Match(f, nr, res)
    mt.heads = set()
    ml = match_loop(f, mt)
    if ml is not None:
        mt.heads = {ml[0]}
    mt.run()
    n = sum(1 for i in f.calls('nmbrLet') if sem.alloca_of(f, i.ops[0]) == res and not sem.is_empty_nmbr(f, i.ops[1]))
    rep.count('result_sites', n)
    rep.atleast('result_sites', 1)
    rep.count('obligations', n)
    for i, p, key in mt.errors:
        rep.violation('match|assignVar|partial', 'the result of a step can be built at %s although scheme and hypotheses have not '
                      'been matched to their ends; path %s' % (loc(i), mt.witness(key)))
    if ml is None:
        rep.sample('matching loop of assignVar not recognised: per-token rule not applied')
        return
    pphi = None
    for ph in flow.phis(f, ml[0]):
        for b in ml[1]:
            for i in f.blocks[b]:
                if i.op == 'getelementptr' and mt.isparam(i.ops[0], 0) and flow.strip(f, i.path[0][1]) == ['v', ph.id]:
                    pphi = ph
    if pphi is None:
        rep.sample('scheme position of assignVar not recognised: per-token rule not applied')
        return
    tr = Transition(f, nr, ml, pphi, mt.isparam)
    tr.run()
    rep.count('match_rounds', tr.moves)
    rep.count('obligations', tr.moves)
    for i, p, key in tr.errors:
        rep.violation('match|assignVar|%s' % p, {
            'constant': 'a constant of the scheme is passed over without being equal to the hypothesis token',
            'variable': 'a second occurrence of a variable is passed over although its substitution differs',
            'unclassified': 'a token is passed over without looking at its type'}[p] + ' (%s); path %s' % (loc(i), tr.witness(key)))
    # the comparison of repeated variables covers the whole substitution
    for l in f.loops:
        if not (l[1] < ml[1]):
            continue
        cmpb = [b for b in l[1] for t in f.succ[b] for a, p, c, ao, co in facts(f, b, t)
                if tr.elem(ao, 1) and tr.elem(co, 1) and opexpr(f, ao) != opexpr(f, co)]
        if not cmpb or sem.loop_of(f, cmpb[0])[0] != l[0]:
            continue
        for k in sem.counting(f, l):
            if k.pred in ('slt', 'ne') and 'nmbrLen' not in X(f, k.bound):
                rep.count('obligations')
                if X(f, k.start) != '0' or k.step != 1 or not whole_len(f, k.bound):
                    rep.violation('match|assignVar|range', 'repeated variables are compared over %s .. %s step %d only (%s)' % (
                        X(f, k.start), X(f, k.bound), k.step, loc(f.blocks[k.block][-1])))


def whole_len(f, o):
    """an array element used as is (not reduced by arithmetic)"""
    v = f.val(flow.strip(f, o))
    return v is not None and v.op == 'load'


def step_loops(m, rep, nr):
    """verifyProof(): all steps and all hypotheses are visited"""
    f, = need(m, 'verifyProof')
    dead = sem.dead_blocks(f, nr)
    for c in f.calls('assignVar'):
        ls = sem.loops_of(f, c.block)
        for l in ls:
            full_range(f, l, rep, dead, 'steps', 'g_WrkProof.numSteps', 'verifyProof')
    # hypothesis loop: contains the test for unknown hypotheses
    for l in f.loops:
        if any(i.op == 'call' and i.callee == 'assignVar' for b in l[1] for i in f.blocks[b]):
            continue
        if not any(i.op == 'call' and i.callee == 'nmbrCat' for b in l[1] for i in f.blocks[b]):
            continue
        full_range(f, l, rep, dead, 'hypotheses', None, 'verifyProof')


def full_range(f, l, rep, dead, what, bound, fn):
    """a counting loop leaves only by exhaustion; wrong constants are reported, unknown shapes are not"""
    ks = [k for k in sem.counting(f, l)]
    if not ks:
        rep.sample('loop over %s in %s not a counting loop: coverage not judged' % (what, fn))
        return
    rep.count('coverage_loops')
    rep.count('obligations')
    ex = sem.exits(f, l, dead)
    good = {(k.block, k.exit_to) for k in ks}
    for e in ex:
        if e not in good and not is_ret_path(f, e[1]):
            rep.violation('coverage|%s|%s|exit' % (fn, what), 'the loop over all %s can be left early at %s' % (
                what, loc(f.blocks[e[0]][-1])))
    if bound:
        if not any(bound in X(f, k.bound) or bound in X(f, k.start) for k in ks):
            return
        for k in ks:
            b = X(f, k.bound)
            if bound in b:
                if b != 'ld(&%s)' % bound and k.pred in ('slt', 'ne'):
                    rep.violation('coverage|%s|%s|bound' % (fn, what), 'the loop over all %s ends at %s (%s)' % (what, b, loc(f.blocks[k.block][-1])))
                if k.step == 1 and X(f, k.start) != '0':
                    rep.violation('coverage|%s|%s|start' % (fn, what), 'the loop over all %s starts at %s (%s)' % (
                        what, X(f, k.start), loc(f.blocks[k.block][-1])))


def is_ret_path(f, t):
    return False


def check_accept(m, rep):
    nr = noreturn(m)
    rep.rule('verifyProof returns "verified" only on paths where the last step was compared equal to the statement; each '
             'unification result is tested, and a failed one (unless a hypothesis of the step is unknown) makes the status an error')
    rep.rule('assignVar builds a result only when scheme and instance were matched to their ends; constants are passed over only '
             'when equal, repeated variables only when no difference was found over the whole substitution')
    accept_rule(m, rep, nr)
    match_rule(m, rep, nr)
    step_loops(m, rep, nr)
