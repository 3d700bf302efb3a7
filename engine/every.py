"""C36: a command for a list of labels deals with every statement that matches."""
import re
import ir
import flow
import sem
from ir import loc, opexpr
from common import *
from sem import X, facts
from closure import Scan, Round, in_memory, report, assertion, parsed

A, P = 97, 112
HIGH = {'ld(&g_statements)': 0, 'ld(&g_proveStatement)': -1, 'arg0': -1}
# what is done with one statement
ACTIONS = ('parseProof', 'typeStatement', 'traceProof', 'traceProofTree', 'countSteps', 'traceUsage', 'expandProof', 'showDetailStep',
           'proofStmtSumm', 'typeProof')
# what must not end the scan
CONTENT = dict.fromkeys(('instr', 'rinstr', 'strcmp', 'strncmp', 'nmbrElementIn', 'nmbrEq'), 'because of the text of one statement')
CONTENT.update(dict.fromkeys(('parseProof', 'verifyProof'), 'because of the proof of one statement'))
CONTENT['switchPos'] = 'after one statement when a qualifier is given'
# these are for $p only
ONLY_P = ('parseProof', 'traceProof', 'traceProofTree', 'countSteps', 'expandProof', 'typeProof')


def scans(f):
    """(loop, scan, filter call, text of the statement number)"""
    r = []
    for c in f.calls('matchesList'):
        t = opexpr(f, c.ops[0])
        m = re.match(r'ld\(ld\(&g_Statement\)\[(.*)\]\.labelName\)$', t)
        ld = f.val(flow.strip(f, c.ops[0]))
        if m is None or ld is None or ld.op != 'load':
            continue
        g = f.val(flow.strip(f, ld.ops[0]))
        if g is None or g.op != 'getelementptr':
            continue
        idx = [e[1] for e in g.path if e[0] in ('i', 'a')]
        if len(idx) != 1:
            continue
        for l in sem.loops_of(f, c.block):
            sc = Scan(f, l, idx[0])
            if sc.ok:
                r.append((l, sc, c, m.group(1)))
                break
    return r


def about(f, fa, v, calls, mem=None):
    """'match', 'no match', 'is x', 'not x', 'label' or None for what a fact says about statement v"""
    a, p, c, ao, co = fa
    s = set()
    if mem:
        a, v = mem.canon(a), mem.canon(v)
    assertion((a, p, c, ao, co), v, s)
    if s:
        return s
    x = f.val(flow.strip(f, ao))
    if x is not None and x.op == 'call' and x.id in calls and c == '0':
        return {'match'} if p == 'ne' else {'no match'} if p == 'eq' else set()
    if a == 'ld(ld(ld(&g_Statement)[%s].labelName))' % v and c == '0':
        return {'label'} if p == 'ne' else {'no label'}
    return set()


class Graph:
    """the loop, for statements of one kind with a label"""

    def __init__(self, f, nr, loop, v, calls, kind):
        self.f, self.loop = f, loop
        self.mem = in_memory(f, loop)
        h, body, lat = loop
        self.dead = sem.dead_blocks(f, nr)
        self.edges, self.fact = {}, {}
        other = 'a' if kind == 'p' else 'p'
        for b in body:
            for t in f.succ[b]:
                if t in self.dead:
                    continue
                s = set()
                for fa in sem.deep_facts(f, b, t):
                    s |= about(f, fa, v, calls, self.mem)
                if kind != ' ' and ('not ' + kind in s or s & {'is ' + k for k in 'apef' if k != kind} or 'no label' in s):
                    continue
                self.edges.setdefault(b, []).append(t)
                self.fact[b, t] = s

    def reach(self, goals):
        """blocks from which a goal is reached within the round"""
        h, body, lat = self.loop
        pre = {}
        for b, ts in self.edges.items():
            for t in ts:
                pre.setdefault(t, []).append(b)
        seen, st = set(goals), list(goals)
        while st:
            x = st.pop()
            if x == h and x not in goals:
                continue
            for b in pre.get(x, ()):
                if b not in seen:
                    seen.add(b)
                    if b != h:
                        st.append(b)
        return seen


def back(g):
    """blocks from which the next round is reached"""
    h, body, lat = g.loop
    seen, st = set(), []
    for b, ts in g.edges.items():
        if h in ts and b not in seen:
            seen.add(b)
            st.append(b)
    pre = {}
    for b, ts in g.edges.items():
        for t in ts:
            if t != h:
                pre.setdefault(t, []).append(b)
    while st:
        x = st.pop()
        for b in pre.get(x, ()):
            if b not in seen:
                seen.add(b)
                st.append(b)
    return seen


def returns(f, t, dead):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen or x in dead:
            continue
        seen.add(x)
        if f.blocks[x][-1].op == 'ret':
            return True
        st += f.succ[x]
    return False


def one(f, rep, nr, loop, sc, c, v, all_calls):
    h, body, lat = loop
    rep.count('scans')
    what = 'the scan of the statements for a list of labels'
    msg = sc.complaint((None, 1), lambda t: HIGH.get(t))
    rep.count('obligations')
    if msg:
        rep.violation('scan|%s|%s|%s' % (f.name, v, msg), '%s(): %s %s (%s)' % (f.name, what, msg, loc(c)))
    did = {i.callee for b in body for i in f.blocks[b] if i.op == 'call'}
    for kind in 'pa ':
        if kind == 'a' and did & set(ONLY_P):
            continue
        g = Graph(f, nr, loop, v, {c.id}, kind)
        if kind != ' ' and c.block not in live(g):
            if kind == 'a' or did & set(ONLY_P):
                rep.violation('passed|%s|all' % f.name, '%s(): %s passes over all $%s statements (%s)' % (f.name, what, kind, loc(c)))
            continue
        # passed over before the label was looked at
        can = g.reach({c.block})
        before = live(g, stop=c.block)
        for (b, t), s in g.fact.items():
            if kind != ' ' and f.name not in ('getStatementNum', 'traceProof') and b in before and b != c.block and idle(g, t) and (t not in can or t == h) and t in body and \
                    (s & {'is p', 'is a', 'label'} or kind != ' ' and any(x.startswith('not ') for x in s)):
                rep.violation('passed|%s|%s' % (f.name, kind), '%s(): %s passes over $%s statements before their label is compared (%s)' % (
                    f.name, what, kind, loc(f.blocks[b][-1])))
        rep.count('obligations')
        # the scan ends before the last statement
        on = back(g)
        seen, without = live(g), live(g, 'no match')
        content = []
        for b, t in sorted(g.fact):
            if b in seen and t in on and len(g.edges[b]) > 1:
                for fa in facts(f, b, t):
                    x = f.val(flow.strip(f, fa[3]))
                    if x is not None and x.op == 'call' and x.callee in CONTENT and x.callee != 'switchPos' and x.block in body:
                        content.append((CONTENT[x.callee], (b, t)))
        for (b, t), s in g.fact.items():
            if b not in on or t in on or (b, t) in sc.norm or t == h or not returns(f, t, g.dead):
                continue
            rep.count('ways out')
            why = None
            if 'match' in s:
                why = 'at the first statement that matches'
            elif 'no match' in s or c.block in seen and b not in without:
                why = 'at a statement whose label does not match'
            elif any(x.startswith(('is ', 'not ')) for x in s):
                why = 'at a statement of some kind'
            else:
                for fa in facts(f, b, t):
                    x = f.val(flow.strip(f, fa[3]))
                    if x is not None and x.op == 'call' and x.callee in CONTENT and x.block in body:
                        why = CONTENT[x.callee]
            if why is None and not any(f.val(flow.strip(f, fa[3])) is not None and f.val(flow.strip(f, fa[3])).op == 'call' for fa in facts(f, b, t)):
                why = next((w for w, e in content if b not in live(g, cut=e)), None)
            if why:
                rep.violation('ends|%s|%s' % (f.name, why), '%s(): %s ends %s (%s)' % (f.name, what, why, loc(f.blocks[b][-1])))
    # a statement that matches is dealt with
    kinds = ACTIONS + (('print2', 'printLongLine') if 'typeProof' in did else ())
    acts = {i.id for b in body for i in f.blocks[b] if i.op == 'call' and i.callee in kinds} if did & set(ACTIONS) else ()
    if not acts:
        return

    def names(fa):
        out = about(f, fa, v, {c.id}, g.mem)
        if parsed(fa, None):
            out.add('faulty')
        a, p, k, ao, co = fa
        if a.startswith('arg1') and k == '0' and p == 'eq':
            out.add('syntax only')
        return out

    def event(i):
        if i.id in acts:
            yield 'acted'
        if i.is_call('verifyProof'):
            yield 'verified'

    def judge(n, grown):
        if 'match' not in n or n & {'not p', 'no match'}:
            return None
        if 'acted' not in n:
            return 'a statement that matches is passed over'
        if f.name == 'verifyProofs' and not n & {'faulty', 'syntax only', 'verified'}:
            return 'the proof of a statement that matches is not verified'
    rep.count('obligations')
    mon = Round(f, nr, loop, names, event, judge, normal=sc.norm)
    mon.left = lambda n: None
    report(rep, f, mon, 'dealt', '%(what)s')


def idle(g, t):
    """from t on, the round ends without anything having been done"""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen or x == g.loop[0]:
            continue
        seen.add(x)
        if x not in g.loop[1] or any(i.op == 'call' and i.callee not in ('free_vstring', 'freeTempAlloc', 'let') for i in g.f.blocks[x]):
            return False
        st += g.edges.get(x, ())
    return True


def live(g, but=None, stop=None, cut=None):
    seen, st = set(), [g.loop[0]]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x == stop:
            continue
        st += [t for t in g.edges.get(x, ()) if t in g.loop[1] and t != g.loop[0] and but not in g.fact[x, t] and (x, t) != cut]
    return seen


def check(m, rep):
    nr = noreturn(m)
    rep.rule('every loop over the statements in which the label of the running statement is compared with a list given by the user: the scan '
             'covers all statements (before the one being proved); no $p ($a) is passed over for its kind; neither a label that does not match '
             'nor one that does ends the scan; a $p that matches is dealt with')
    for f in m.funcs.values():
        if not getattr(f, 'blocks', None):
            continue
        for l, sc, c, v in scans(f):
            one(f, rep, nr, l, sc, c, v, None)
    rep.atleast('scans', 5)
