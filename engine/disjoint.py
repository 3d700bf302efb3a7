"""C03: the disjoint-variable check of assignVar()."""
import re
import ir
import flow
import sem
from ir import loc, opexpr
from common import *
from sem import X, facts
import verify

EC = verify.EC
FIELD = re.compile(r'ld\(&g_Statement\)\[arg(\d+)\]\.(\w+)$')


def stmt_field(f, o):
    """(argument number, field) if o is the value of g_Statement[argN].field"""
    v = f.val(flow.strip(f, o))
    if v is None or v.op != 'load':
        return None
    mm = FIELD.search(opexpr(f, v.ops[0]))
    return (int(mm.group(1)), mm.group(2)) if mm else None


def element(f, o):
    """(array value operand, index operand) if o is array[index]"""
    v = f.val(flow.strip(f, o))
    if v is None or v.op != 'load':
        return None
    p = f.val(v.ops[0])
    if p is None or p.op != 'getelementptr' or len(p.path) != 1:
        return None
    return p.ops[0], flow.strip(f, p.path[0][1])


def depends(f, o, seen=None):
    """statement fields a value is computed from, not looking through merges and calls"""
    seen = seen if seen is not None else set()
    r = set()
    st = [o]
    while st:
        x = flow.strip(f, st.pop())
        if x[0] != 'v' or x[1] < f.nargs or x[1] in seen:
            continue
        seen.add(x[1])
        sf = stmt_field(f, x)
        if sf:
            r.add(sf)
        i = f.inst[x[1]]
        if i.op in ('phi', 'call', 'select'):
            continue
        if i.op == 'getelementptr':
            st.append(i.ops[0])
            st.extend(e[1] for e in i.path if isinstance(e[1], (list, tuple)))
        else:
            st.extend(i.ops)
    return r


class Model:
    def __init__(self, f, mt):
        self.f, self.mt = f, mt
        self.cls = {}
        for i in f.insts():
            if i.op != 'load':
                continue
            p = f.val(i.ops[0])
            if p is None or p.op != 'getelementptr':
                continue
            base = p
            while base is not None and base.op == 'getelementptr':
                nb = base.ops[0]
                if mt.isparam(nb, 1):
                    break
                base = f.val(nb)
            if base is None or base.op != 'getelementptr':
                continue
            d = {x[1] for x in depends(f, i.ops[0]) if x[0] == 2}
            if d == {'reqDisjVarsA'}:
                self.cls[i.id] = 'a'
            elif d == {'reqDisjVarsB'}:
                self.cls[i.id] = 'b'

    def token(self, o, env=()):
        o = flow.strip(self.f, o)
        if o[0] == 'v':
            if o[1] in self.cls:
                return self.cls[o[1]]
            return dict(env).get(o[1])
        return None


class Pair(flow.Monitor):
    """One pair of variables of the two substitutions.  State: (begun, settled, matches, phi classes)."""

    def __init__(self, f, nr, M, loop, inner):
        flow.Monitor.__init__(self, f, (loop[0], 0), (0, None, frozenset(), ()))
        self.nr, self.M, self.loop, self.inner = nr, M, loop, inner
        self.rounds = 0
        self.counted = {(k.block, k.exit_to) for k in sem.counting(f, loop)}

    def step(self, st, i):
        begun, done, mt, env = st
        if i.op == 'call':
            if i.callee in self.nr:
                return None
            if i.callee in ('sourceError', 'rawSourceError', 'errorMessage'):
                done = 'reported'
        if i.id in self.M.cls:
            begun = 1
        if i.op == 'ret':
            if not done:
                self.err(i, 'left')
            return None
        return (begun, done, mt, env)

    def edge(self, st, b, t):
        f, M = self.f, self.M
        begun, done, mt, env = st
        h, body, lat = self.loop
        for a, p, c, ao, co in facts(f, b, t):
            if a.endswith('.tokenType)') and c in ('0', '1') and p in ('eq', 'ne'):
                k = int(c) if p == 'eq' else 1 - int(c)
                tk = verify.token_index(f, ao)
                if k == sem.CON and tk is not None and M.token(tk, env):
                    done = done or 'constant'
            if a == 'ld(%s)' % EC and p in ('ne', 'sgt', 'ugt') and c == '0':
                done = done or 'reported'
            if p == 'eq':
                e = element(f, ao)
                if e:
                    sf = stmt_field(f, e[0])
                    cl = M.token(co, env)
                    if sf and cl and sf[0] == 3 and sf[1][3:] in ('DisjVarsA', 'DisjVarsB'):
                        mt = mt | {(sf[1][:3], sf[1][-1], e[1][1] if e[1][0] == 'v' else str(e[1]), cl)}
        for k, i2 in {(x[0], x[2]) for x in mt}:
            if {x[3] for x in mt if x[0] == k and x[2] == i2} == {'a', 'b'} and \
               {x[1] for x in mt if x[0] == k and x[2] == i2} == {'A', 'B'}:
                pairs = {(x[1], x[3]) for x in mt if x[0] == k and x[2] == i2}
                if {('A', 'a'), ('B', 'b')} <= pairs or {('A', 'b'), ('B', 'a')} <= pairs:
                    done = done or 'found'
        if self.inner is not None and t == self.inner[0] and b not in self.inner[1]:
            done = done or 'scanned'
        if t == h or t not in body:
            if b == self.loop[0] and t not in body and not begun:
                return None        # the loop has finished
            if t == h:
                self.rounds += 1
            if not done:
                self.err(f.blocks[b][-1], 'missed' if self.inner is None else 'skipped')
            elif t not in body and done != 'reported' and (b, t) not in self.counted:
                self.err(f.blocks[b][-1], 'left')
            return None
        ne = dict(env)
        drop = set()
        for ph in flow.phis(f, t):
            drop.add(ph.id)
            c = M.token(flow.phi_in(ph, b), env)
            if c:
                ne[ph.id] = c
            else:
                ne.pop(ph.id, None)
        if drop:
            mt = frozenset(x for x in mt if x[2] not in drop)
        return (begun, done, mt, tuple(sorted(ne.items())))


class Reach(flow.Monitor):
    """The result of a step is built only after the $d conditions were scanned.  State: scanned?"""

    def __init__(self, f, nr, res, head):
        flow.Monitor.__init__(self, f, (0, 0), 0)
        self.nr, self.res, self.head = nr, res, head
        self.built = 0

    def step(self, st, i):
        f = self.f
        if i.op == 'call':
            if i.callee in self.nr:
                return None
            if i.callee == 'nmbrLet' and sem.alloca_of(f, i.ops[0]) == self.res and not sem.is_empty_nmbr(f, i.ops[1]):
                self.built += 1
                if not st:
                    self.err(i, 'unscanned')
                return None
        return st

    def edge(self, st, b, t):
        f = self.f
        if t in self.head:
            return 1
        for a, p, c, ao, co in facts(f, b, t):
            v = f.val(flow.strip(f, ao))
            if v is not None and v.op == 'call' and v.callee == 'nmbrLen' and c in ('0', '1'):
                sf = stmt_field(f, v.ops[0])
                if sf and sf[0] == 2 and sf[1].startswith('reqDisjVars') and (p, c) in (('eq', '0'), ('sle', '0'), ('slt', '1')):
                    return 1
            e = element(f, ao)
            if e and p == 'eq' and c == '-1':
                sf = stmt_field(f, e[0])
                if sf and sf[0] == 2 and sf[1].startswith('reqDisjVars') and e[1] == ['c', 0]:
                    return 1
        return st


def check(m, rep):
    rep.rule('in assignVar, for every $d pair of the applied assertion, every variable of the one substitution and every variable '
             'of the other: each path through the round either reports a violation or has found both variables, at one index, in a '
             '$d list of the statement being proved')
    rep.rule('the three scans (pairs, first substitution, second substitution) start at 0, advance by 1, run to the full length and '
             'skip only constants; no step result is built before the scan')
    nr = noreturn(m)
    f, = need(m, 'assignVar')
    res = verify.ret_alloca(f)
    mt = verify.Match(f, nr, res)
    M = Model(f, mt)
    used = any(stmt_field(f, ['v', i.id]) in ((2, 'reqDisjVarsA'), (2, 'reqDisjVarsB')) for i in f.insts() if i.op == 'load')
    if not used:
        rep.violation('absent|assignVar', 'the $d conditions of the applied assertion are not looked at')
        return
    A = [i for i in M.cls if M.cls[i] == 'a']
    B = [i for i in M.cls if M.cls[i] == 'b']
    rep.count('token_sites', len(M.cls))
    if not A or not B:
        rep.sample('substitution tokens not recognised: pair rule not applied')
        return
    best = None
    for x in A:
        for y in B:
            lx, ly = sem.loop_of(f, f.inst[x].block), sem.loop_of(f, f.inst[y].block)
            if not lx or not ly:
                continue
            if lx[0] != ly[0] and (lx[1] < ly[1] or ly[1] < lx[1]):
                inner, mid = (lx, ly) if lx[1] < ly[1] else (ly, lx)
                if best is None or len(inner[1]) > len(best[0][1]):
                    best = (inner, mid, x if inner is lx else y, y if inner is lx else x)
    if best is None:
        rep.sample('nest of substitution scans not recognised')
        return
    inner, mid, iid, mid_id = best
    outer = [l for l in f.loops if mid[1] < l[1]]
    outer = min(outer, key=lambda l: len(l[1])) if outer else None
    dead = sem.dead_blocks(f, nr)
    for name, l, sub, tok in (('second substitution', inner, None, iid), ('first substitution', mid, inner, mid_id), ('pairs', outer, mid, None)):
        if l is None:
            continue
        pm = Pair(f, nr, M, l, sub)
        pm.run()
        rep.count('rounds', pm.rounds)
        rep.count('obligations', 1 + pm.rounds)
        for i, p, key in pm.errors:
            rep.violation('disjoint|assignVar|%s|%s' % (name, p), {
                'missed': 'two variables are passed over although no common $d entry of the statement was found and nothing was reported',
                'skipped': 'a variable (or $d pair) is passed over without looking at its partners',
                'left': 'the scan is left before all pairs were looked at'}[p] + ' (%s); path %s' % (loc(i), pm.witness(key)))
        cs = [k for k in sem.counting(f, l) if k.step]
        good = None
        for k in cs:
            if tok is not None:
                d = depends(f, k.bound)
                want = (2, 'reqDisjVars' + M.cls[tok].upper())
                if want in d and f.val(flow.strip(f, k.bound)).op == 'load':
                    good = k
                elif k.pred in ('slt', 'sle', 'ne') and not k.incl:
                    good = good or k
            else:
                good = k
        if good is None:
            rep.sample('%s: not a counting loop' % name)
            continue
        k = good
        rep.count('obligations')
        bv = f.val(flow.strip(f, k.bound))
        ok = True
        if tok is not None:
            ok = (2, 'reqDisjVars' + M.cls[tok].upper()) in depends(f, k.bound) and bv is not None and bv.op == 'load'
            sure = bv is not None and (bv.op == 'load' or (bv.op == 'add' and bv.ops[1][0] == 'c' and depends(f, k.bound)))
            if not depends(f, k.bound):
                sure = False
        else:
            sf = stmt_field(f, bv.ops[0]) if bv is not None and bv.op == 'call' and bv.callee == 'nmbrLen' else None
            ok = sf is not None and sf[0] == 2 and sf[1].startswith('reqDisjVars')
            sure = sf is not None or (bv is not None and bv.op in ('add', 'sdiv', 'udiv', 'ashr') and
                                      'nmbrLen' in opexpr(f, bv.ops[0]))
        wrong = []
        if k.step == 1 and k.start[0] == 'c' and k.start[1] > 0:
            wrong.append('starts at %d' % k.start[1])
        if k.step > 1:
            wrong.append('advances by %d' % k.step)
        if k.step == 1 and not ok and sure:
            wrong.append('ends at %s' % X(f, k.bound))
        for w in wrong:
            rep.violation('disjoint|assignVar|%s|range' % name, 'the scan of the %s %s (%s)' % (name, w, loc(f.blocks[k.block][-1])))
    if res is not None and outer is not None:
        r = Reach(f, nr, res, {outer[0]})
        r.run()
        rep.count('result_sites', r.built and 1)
        rep.count('obligations')
        for i, p, key in r.errors:
            rep.violation('disjoint|assignVar|unscanned', 'the result of a step is built at %s on a path that does not scan the $d '
                          'conditions; path %s' % (loc(i), r.witness(key)))
