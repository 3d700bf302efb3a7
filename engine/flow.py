"""Exhaustive path-set analyses on the control-flow graphs of ir.Function."""
from collections import deque
import ir


def explore(f, init, on_inst, on_edge, start=(0, 0), limit=400000):
    """Enumerate every reachable (block, state) of the product of f's CFG and a
    finite-state monitor.  on_inst(state, inst) -> state | list of states | None
    (None = path ends here).  on_edge(state, from_block, to_block) -> state | None
    (None = edge infeasible).  Phi nodes are handled by on_edge.  Returns a dict
    (block,state)->predecessor for witness reconstruction."""
    b0, k0 = start
    seen = {(b0, init): None}
    work = deque([(b0, init, k0)])
    n = 0
    while work:
        b, st0, k = work.popleft()
        n += 1
        if n > limit:
            raise RuntimeError('state explosion in %s' % f.name)
        states = [st0]
        for i in f.blocks[b][k:]:
            if i.op == 'phi':
                continue
            nxt = []
            for s in states:
                r = on_inst(s, i)
                if r is None:
                    continue
                if isinstance(r, list):
                    for x in r:
                        if x not in nxt:
                            nxt.append(x)
                elif r not in nxt:
                    nxt.append(r)
            states = nxt
            if not states:
                break
        for s in states:
            for t in f.succ[b]:
                r = on_edge(s, b, t)
                if r is None:
                    continue
                if not isinstance(r, list):
                    r = [r]
                for x in r:
                    key = (t, x)
                    if key not in seen:
                        seen[key] = (b, st0)
                        work.append((t, x, 0))
    return seen


def witness(f, seen, key, maxn=12):
    """Source lines of a path that reaches key, newest last."""
    chain = []
    k = key
    while k is not None and len(chain) < 5000:
        chain.append(k[0])
        k = seen.get(k)
    chain.reverse()
    lines = []
    for b in chain:
        for i in f.blocks[b]:
            if i.loc:
                l = i.loc[1]
                if not lines or lines[-1] != l:
                    lines.append(l)
                break
    if len(lines) > maxn:
        lines = lines[:3] + ['...'] + lines[-(maxn - 3):]
    return 'lines ' + '>'.join(str(x) for x in lines)


def phis(f, b):
    for i in f.blocks[b]:
        if i.op != 'phi':
            break
        yield i


def phi_in(i, frm):
    for o, b in i.ops:
        if b == frm:
            return o
    return None


# ----------------------------------------------------------- branch edge facts
def strip(f, o):
    """Look through value-preserving casts."""
    while o[0] == 'v' and o[1] >= f.nargs:
        i = f.inst[o[1]]
        if i.op in ('zext', 'sext', 'freeze', 'bitcast'):
            o = i.ops[0]
        else:
            break
    return o


def edge_facts(f, b, t):
    """Atomic facts (lhs operand, pred, rhs operand) that hold on edge b->t."""
    term = f.blocks[b][-1]
    out = []
    bt = f.br_targets(term)
    if bt:
        c, tb, fb = bt
        if tb == fb:
            return out
        if t == tb:
            cond_facts(f, c, True, out)
        elif t == fb:
            cond_facts(f, c, False, out)
    elif term.op == 'switch':
        vals = [v for v, bb in term.cases if bb == t]
        if t == term.default:
            if not vals:
                for v, bb in term.cases:
                    out.append((term.ops[0], 'ne', ['c', v]))
        elif len(vals) == 1:
            out.append((term.ops[0], 'eq', ['c', vals[0]]))
        else:
            for v, bb in term.cases:
                if bb != t:
                    out.append((term.ops[0], 'ne', ['c', v]))
    return out


def cond_facts(f, o, truth, out, d=0):
    if d > 8:
        return
    if o[0] != 'v' or o[1] < f.nargs:
        return
    i = f.inst[o[1]]
    if i.op == 'icmp':
        p = i.pred if truth else ir.NEG[i.pred]
        out.append((i.ops[0], p, i.ops[1]))
        # compare of a widened boolean with 0
        if i.ops[1] == ['c', 0] and p in ('ne', 'eq'):
            s = strip(f, i.ops[0])
            si = f.val(s)
            if si is not None and si.ty == 'i1':
                cond_facts(f, s, p == 'ne', out, d + 1)
    elif i.op == 'xor' and i.ty == 'i1' and i.ops[1] in (['c', -1], ['c', 1]):
        cond_facts(f, i.ops[0], not truth, out, d + 1)
    elif i.op == 'and' and i.ty == 'i1' and truth:
        for x in i.ops:
            cond_facts(f, x, True, out, d + 1)
    elif i.op == 'or' and i.ty == 'i1' and not truth:
        for x in i.ops:
            cond_facts(f, x, False, out, d + 1)
    elif i.op == 'select' and i.ty == 'i1':
        # select c, a, false == c && a ; select c, true, b == c || b
        if i.ops[2] == ['c', 0] and truth:
            cond_facts(f, i.ops[0], True, out, d + 1)
            cond_facts(f, i.ops[1], True, out, d + 1)
        elif i.ops[1] in (['c', -1], ['c', 1]) and not truth:
            cond_facts(f, i.ops[0], False, out, d + 1)
            cond_facts(f, i.ops[2], False, out, d + 1)
    elif i.op in ('trunc', 'freeze'):
        cond_facts(f, i.ops[0], truth, out, d + 1)
    if i.ty == 'i1' and i.op in ('phi', 'call', 'load', 'trunc'):
        out.append((o, 'ne' if truth else 'eq', ['c', 0]))


# ------------------------------------------------------- small interval domain
INF = 1 << 62


def iv_meet(iv, pred, c):
    lo, hi = iv
    if pred == 'eq':
        lo, hi = max(lo, c), min(hi, c)
    elif pred == 'ne':
        if lo == c:
            lo += 1
        if hi == c:
            hi -= 1
    elif pred == 'slt':
        hi = min(hi, c - 1)
    elif pred == 'sle':
        hi = min(hi, c)
    elif pred == 'sgt':
        lo = max(lo, c + 1)
    elif pred == 'sge':
        lo = max(lo, c)
    elif pred == 'ult':
        if lo >= 0 and c >= 0:
            hi = min(hi, c - 1)
    elif pred == 'ugt':
        if lo >= 0 and c >= 0:
            lo = max(lo, c + 1)
    if lo > hi:
        return None
    return (lo, hi)


class Webs:
    """Path-exact tracking of a set of integer SSA values ("web"): constants that
    flow through phis, casts, selects and +-constant are tracked along each path,
    and edges whose condition contradicts the tracked value are pruned."""

    def __init__(self, f, roots, maxphis=40):
        self.f = f
        self.tr = set()
        st = list(roots)
        while st:
            v = st.pop()
            if v in self.tr or v < f.nargs:
                continue
            i = f.inst.get(v)
            if i is None:
                continue
            if i.op == 'phi':
                self.tr.add(v)
                for o, b in i.ops:
                    if o[0] == 'v':
                        st.append(o[1])
            elif i.op in ('zext', 'sext', 'trunc', 'freeze'):
                if i.ops[0][0] == 'v':
                    st.append(i.ops[0][1])
            elif i.op == 'select':
                for o in i.ops[1:]:
                    if o[0] == 'v':
                        st.append(o[1])

    def value(self, env, o):
        f = self.f
        if o[0] == 'c':
            return o[1]
        if o[0] != 'v' or o[1] < f.nargs:
            return None
        if o[1] in env:
            return env[o[1]]
        i = f.inst[o[1]]
        if i.op in ('zext', 'sext', 'freeze'):
            v = self.value(env, i.ops[0])
            return v
        if i.op == 'trunc':
            v = self.value(env, i.ops[0])
            if v is not None and -128 <= v <= 127:
                return v
            return None
        if i.op == 'icmp':
            a, b = self.value(env, i.ops[0]), self.value(env, i.ops[1])
            if a is None or b is None:
                return None
            return {'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b,
                    'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[i.pred] and 1 or 0
        if i.op == 'select':
            c = self.value(env, i.ops[0])
            if c is not None:
                return self.value(env, i.ops[1 if c else 2])
            a, b = self.value(env, i.ops[1]), self.value(env, i.ops[2])
            return a if a == b else None
        if i.op == 'add':
            a, b = self.value(env, i.ops[0]), self.value(env, i.ops[1])
            return None if a is None or b is None else a + b
        return None

    def edge(self, envt, b, t):
        """envt: sorted tuple of (phi id, const). Returns new env tuple or None if infeasible."""
        f = self.f
        env = dict(envt)
        term = f.blocks[b][-1]
        bt = f.br_targets(term)
        if bt and bt[1] != bt[2]:
            c = self.value(env, bt[0])
            if c is not None:
                if (bt[1] if c else bt[2]) != t:
                    return None
        elif term.op == 'switch':
            c = self.value(env, term.ops[0])
            if c is not None:
                dest = term.default
                for v, bb in term.cases:
                    if v == c:
                        dest = bb
                if dest != t:
                    return None
        # learn equalities on tracked phis
        for (l, p, r) in edge_facts(f, b, t):
            l2 = strip(f, l)
            if p == 'eq' and r[0] == 'c' and l2[0] == 'v' and l2[1] in self.tr and l2[1] not in env:
                env[l2[1]] = r[1]
        new = dict(env)
        for ph in phis(f, t):
            if ph.id in self.tr:
                v = self.value(env, phi_in(ph, b))
                if v is None:
                    new.pop(ph.id, None)
                else:
                    new[ph.id] = v
        return tuple(sorted(new.items()))


# ----------------------------------------------- correlated-branch refinement
TOP = (-INF, INF, None)


def live_in(f):
    """block -> set of value ids live on entry, counting address computations as uses of their base."""
    if getattr(f, '_live', None) is not None:
        return f._live
    n = len(f.blocks)
    gen = [set() for _ in range(n)]
    kill = [set() for _ in range(n)]
    out_phi = [set() for _ in range(n)]
    for b, bl in enumerate(f.blocks):
        for i in bl:
            if i.op == 'phi':
                for o, p in i.ops:
                    if o[0] == 'v':
                        out_phi[p].add(o[1])
                kill[b].add(i.id)
                continue
            for v in ir.all_values(i):
                if v not in kill[b]:
                    gen[b].add(v)
            kill[b].add(i.id)
    live = [set(g) for g in gen]
    work = list(range(n))
    inq = set(work)
    while work:
        b = work.pop()
        inq.discard(b)
        o = set(out_phi[b])
        for s in f.succ[b]:
            o |= live[s]
        nl = gen[b] | (o - kill[b])
        if nl != live[b]:
            live[b] = nl
            for p in f.pred[b]:
                if p not in inq:
                    inq.add(p)
                    work.append(p)
    f._live = live
    return live


def relevant(f, t):
    """Values whose facts can still matter from block t on: live there, or an
    ingredient of a live comparison or conversion."""
    c = getattr(f, '_relevant', None)
    if c is None:
        c = f._relevant = {}
    if t in c:
        return c[t]
    keep = set()
    st = list(live_in(f)[t]) + [i.id for i in phis(f, t)]
    while st:
        v = st.pop()
        if v in keep:
            continue
        keep.add(v)
        i = f.inst.get(v)
        if i is not None and i.op in ('zext', 'sext', 'trunc', 'freeze', 'icmp', 'select', 'add', 'xor', 'and', 'or'):
            st.extend(x for x in ir.all_values(i))
    c[t] = keep
    return keep


class Tracker:
    """Path facts about a chosen set of SSA integers/pointers: an interval and one
    excluded constant.  `env` is a sorted tuple ((id, (lo, hi, excluded)), ...).
    Facts come from constants flowing through phis and from branch conditions; they
    are dropped when the value is recomputed.  Contradicted edges are infeasible."""

    def __init__(self, f, ids=(), fixed=None, ranges=None):
        self.f = f
        self.ids = set(ids)
        self.fixed = fixed or {}
        self.ranges = ranges or {}

    def get(self, env, o, d=0):
        f = self.f
        if o[0] == 'v' and o[1] in self.fixed:
            return self.fixed[o[1]]
        if o[0] == 'v' and o[1] in self.ranges and o[1] not in env:
            return self.ranges[o[1]]
        if o[0] == 'c':
            return (o[1], o[1], None)
        if o[0] == 'n':
            return (0, 0, None)
        if o[0] in ('s', 'g', 'f'):
            return (-INF, INF, 0)
        if o[0] != 'v':
            return TOP
        if o[1] in env:
            return env[o[1]]
        if o[1] < f.nargs or d > 6:
            return TOP
        i = f.inst[o[1]]
        if i.op in ('zext', 'sext', 'freeze', 'trunc'):
            v = self.get(env, i.ops[0], d + 1)
            if i.op == 'trunc' and not (-128 <= v[0] and v[1] <= 127):
                return TOP
            if i.op == 'zext':
                src = f.val(i.ops[0])
                if src is not None and src.ty == 'i1':
                    if v[:2] in ((-1, -1), (1, 1)):
                        return (1, 1, None)
                    if v[:2] == (0, 0):
                        return v
                    if v[2] == 0:
                        return (1, 1, None)
                    return (0, 1, None)
                if v[0] < 0:
                    return (0, INF, v[2] if v[2] == 0 else None)
            return v
        if i.op == 'icmp':
            t = self.truth(env, i)
            return (0, 1, None) if t is None else ((1, 1, None) if t else (0, 0, None))
        if i.op == 'select':
            c = self.truth_op(env, i.ops[0])
            if c is not None:
                return self.get(env, i.ops[1 if c else 2], d + 1)
            a, b = self.get(env, i.ops[1], d + 1), self.get(env, i.ops[2], d + 1)
            return (min(a[0], b[0]), max(a[1], b[1]), a[2] if a[2] == b[2] else None)
        if i.op == 'add' and i.ops[1][0] == 'c':
            a = self.get(env, i.ops[0], d + 1)
            k = i.ops[1][1]
            return (a[0] + k if a[0] > -INF else -INF, a[1] + k if a[1] < INF else INF,
                    None if a[2] is None else a[2] + k)
        if i.op == 'or':
            a, b = self.get(env, i.ops[0], d + 1), self.get(env, i.ops[1], d + 1)
            if a[:2] == (0, 0):
                return b
            if b[:2] == (0, 0):
                return a
            if any(x[0] > 0 or x[1] < 0 or x[2] == 0 for x in (a, b)):
                return (max(a[0], b[0]), INF, None) if a[0] >= 0 and b[0] >= 0 else (-INF, INF, 0)
            return TOP
        if i.op == 'and' and ((0, 0) in (self.get(env, x, d + 1)[:2] for x in i.ops)):
            return (0, 0, None)
        if i.op == 'add' and self.ranges:
            a, b = self.get(env, i.ops[0], d + 1), self.get(env, i.ops[1], d + 1)
            return (a[0] + b[0] if -INF < a[0] and -INF < b[0] else -INF,
                    a[1] + b[1] if a[1] < INF and b[1] < INF else INF, None)
        return TOP

    def truth(self, env, i):
        a, b = self.get(env, i.ops[0]), self.get(env, i.ops[1])
        p = i.pred
        if p in ('ult', 'ule', 'ugt', 'uge'):
            if a[0] < 0 or b[0] < 0:
                return None
            p = {'ult': 'slt', 'ule': 'sle', 'ugt': 'sgt', 'uge': 'sge'}[p]
        if p in ('eq', 'ne'):
            if a[0] == a[1] == b[0] == b[1]:
                return p == 'eq'
            if a[1] < b[0] or b[1] < a[0]:
                return p == 'ne'
            if (b[0] == b[1] and a[2] == b[0]) or (a[0] == a[1] and b[2] == a[0]):
                return p == 'ne'
        elif p == 'slt':
            if a[1] < b[0]:
                return True
            if a[0] >= b[1]:
                return False
        elif p == 'sle':
            if a[1] <= b[0]:
                return True
            if a[0] > b[1]:
                return False
        elif p == 'sgt':
            if a[0] > b[1]:
                return True
            if a[1] <= b[0]:
                return False
        elif p == 'sge':
            if a[0] >= b[1]:
                return True
            if a[1] < b[0]:
                return False
        return None

    def truth_op(self, env, o):
        v = self.get(env, o)
        if v[0] == v[1]:
            return v[0] != 0
        if v[0] > 0 or v[1] < 0 or v[2] == 0:
            return True
        return None

    def meet(self, v, p, c):
        iv = iv_meet(v[:2], p, c)
        if iv is None:
            return None
        ne = v[2]
        if p == 'ne' and iv[0] < c < iv[1]:
            if ne is None or c == 0:
                ne = c
        if ne is not None:
            if iv == (ne, ne):
                return None
            if iv[0] == ne:
                iv = (iv[0] + 1, iv[1])
            if iv[1] == ne:
                iv = (iv[0], iv[1] - 1)
            if not iv[0] <= ne <= iv[1]:
                ne = None
        if iv[0] > iv[1]:
            return None
        return (iv[0], iv[1], ne)

    def edge(self, envt, b, t):
        f = self.f
        env = dict(envt)
        term = f.blocks[b][-1]
        bt = f.br_targets(term)
        if bt and bt[1] != bt[2]:
            c = self.truth_op(env, bt[0])
            if c is not None and (bt[1] if c else bt[2]) != t:
                return None
        elif term.op == 'switch':
            v = self.get(env, term.ops[0])
            if v[0] == v[1]:
                dest = term.default
                for k, bb in term.cases:
                    if k == v[0]:
                        dest = bb
                if dest != t:
                    return None
        for (l, p, r) in edge_facts(f, b, t):
            c = self.get(env, r)
            if c[0] != c[1]:
                continue
            l2 = strip(f, l)
            for x in (l, l2):
                if x[0] == 'v' and x[1] in self.ids:
                    cur = env.get(x[1]) or self.get({k: v for k, v in env.items() if k != x[1]}, x)
                    nv = self.meet(cur, p, c[0])
                    if nv is None:
                        return None
                    env[x[1]] = nv
        new = dict(env)
        for ph in phis(f, t):
            if ph.id in self.ids:
                o = phi_in(ph, b)
                v = self.grown(env, o) if self.selfdep(ph, o) else self.get(env, o)
                new.pop(ph.id, None)
                if v != TOP:
                    new[ph.id] = v
        keep = relevant(f, t)
        return tuple(sorted(((a, v) for a, v in new.items() if v != TOP and a in keep), key=lambda x: x[0]))

    def grown(self, env, o):
        """the next value of a counter: only whether it stays positive matters"""
        v = self.get(env, o)
        if v[0] > 0:
            return (1, INF, None)
        return TOP

    def selfdep(self, ph, o):
        """o is ph plus/minus something (a counter): not worth enumerating."""
        f = self.f
        seen = set()
        st = [(o, False)]
        while st:
            x, ar = st.pop()
            if x[0] != 'v' or x[1] < f.nargs:
                continue
            if x[1] == ph.id:
                if ar:
                    return True
                continue
            if (x[1], ar) in seen or len(seen) > 60:
                continue
            seen.add((x[1], ar))
            i = f.inst[x[1]]
            if i.op in ('add', 'sub', 'mul', 'getelementptr'):
                st.extend((y, True) for y in i.ops)
            elif i.op in ('zext', 'sext', 'trunc'):
                st.append((i.ops[0], ar))
            elif i.op == 'phi':
                st.extend((y, ar) for y, bb in i.ops)
            elif i.op == 'select':
                st.extend((y, ar) for y in i.ops[1:])
        return False

    def at(self, block):
        """Facts established by the branches that dominate block."""
        f = self.f
        chain = []
        b = block
        while b in f.idom and f.idom[b] != b:
            if len(f.pred[b]) == 1 and f.pred[b][0] != b:
                chain.append((f.pred[b][0], b))
            b = f.idom[b]
        env = ()
        for p, x in reversed(chain):
            e = self.edge(env, p, x)
            if e is None:
                return ()
            env = e
        return env

    def inst(self, envt, i):
        """A tracked value is recomputed: forget what was known."""
        if i.id in self.ids and i.op != 'phi':
            return tuple(x for x in envt if x[0] != i.id)
        return envt

    def dep_ids(self, o):
        """values whose tracking could decide operand o."""
        f = self.f
        r = set()
        seen = set()
        st = [(o, 0)]
        while st:
            o, d = st.pop()
            if o[0] != 'v' or d > 8 or o[1] in seen:
                continue
            seen.add(o[1])
            if o[1] < f.nargs:
                r.add(o[1])
                continue
            i = f.inst[o[1]]
            if i.op == 'phi':
                r.add(i.id)
                for j in phis(f, i.block):
                    # a merge of constants next to this one encodes the same decision
                    if j.id != i.id and all(x[0] == 'c' for x, b in j.ops) and any(x[0] == 'c' for x, b in i.ops):
                        r.add(j.id)
                for x, b in i.ops:
                    if x[0] == 'v':
                        st.append((x, d))
            elif i.op in ('zext', 'sext', 'trunc', 'freeze', 'icmp', 'select', 'add', 'xor', 'and', 'or'):
                for x in i.ops:
                    st.append((x, d + 1))
            else:
                r.add(i.id)
        return r


def block_path(seen, key):
    chain = []
    while key is not None:
        chain.append(key[0])
        key = seen.get(key)
    chain.reverse()
    return chain


def start_env(tr, block, assume):
    env = tr.at(block)
    if assume:
        env = dict(env)
        env.update(assume)
        env = tuple(sorted(env.items(), key=lambda x: x[0]))
    return env


def infeasible_ids(f, path, fixed=None, ranges=None, assume=None, k=0):
    """Replay a block path with all facts tracked; if contradictory, return the
    ids that decide the contradiction, else None."""
    allids = set(range(f.nargs)) | set(f.inst)
    tr = Tracker(f, allids, fixed, ranges)
    env = start_env(tr, path[0], assume)
    for n, (a, b) in enumerate(zip(path, path[1:])):
        for i in f.blocks[a][k if n == 0 else 0:]:
            if i.op != 'phi':
                env = tr.inst(env, i)
        e = tr.edge(env, a, b)
        if e is None:
            term = f.blocks[a][-1]
            o = term.ops[0]
            return tr.dep_ids(o)
        env = e
    return None


def refine(f, make, rounds=25, fixed=None):
    """make(tracker) -> (seen, errors) with errors = [(key_of_seen, payload)].
    Re-runs with more tracked values while some error's witness path is
    contradictory.  Returns (seen, surviving errors, tracker)."""
    ids = set()
    for _ in range(rounds):
        tr = Tracker(f, ids, fixed)
        seen, errs = make(tr)
        if not errs:
            return seen, errs, tr
        add = set()
        for key, p in errs:
            d = infeasible_ids(f, block_path(seen, key), fixed)
            if d:
                add |= d - ids
        if not add:
            return seen, errs, tr
        ids |= add
    return seen, errs, tr


class Monitor:
    """A finite-state path monitor with witness-driven branch refinement.
    Subclasses define step(st, inst) -> st | [st] | None and edge(st, b, t) -> st |
    [st] | None and call self.err(inst, payload) for a violation on this path.
    run() keeps only violations whose witness path is not contradictory."""

    limit = 300000
    track = ()        # value ids to track from the start
    fixed = None      # {value id: fact} assumed throughout (calling context)
    ranges = None     # {value id: fact} that hold whenever nothing better is known
    assume = None     # {value id: fact} assumed at the start point, until recomputed

    def __init__(self, f, start=(0, 0), init=()):
        self.f, self.start, self.init = f, start, init

    def fact(self, o):
        """(lo, hi, excluded) known about an operand on the current path (inside step)."""
        return self.tr.get(dict(self.env), o)

    def step(self, st, i):
        return st

    def edge(self, st, b, t):
        return st

    def fact_after(self, o):
        """the same after the current edge (inside edge)."""
        return self.tr.get(dict(self.env2), o)

    def err(self, inst, payload):
        self._errs.append((self._cur, (inst, payload)))

    def _make(self, tr):
        f = self.f
        self._errs = []
        b0, k0 = self.start
        init = (start_env(tr, b0, self.assume), self.init)
        seen = {(b0, init): None}
        work = deque([(b0, init, k0)])
        n = 0
        while work:
            b, st0, k = work.popleft()
            n += 1
            if n > self.limit:
                raise RuntimeError('state explosion in %s' % f.name)
            self._cur = (b, st0)
            states = [st0]
            for i in f.blocks[b][k:]:
                if i.op == 'phi':
                    continue
                nxt = []
                for env, s in states:
                    e2 = tr.inst(env, i)
                    self.tr, self.env = tr, env
                    r = self.step(s, i)
                    if r is None:
                        continue
                    if not isinstance(r, list):
                        r = [r]
                    for x in r:
                        if (e2, x) not in nxt:
                            nxt.append((e2, x))
                states = nxt
                if not states:
                    break
            for env, s in states:
                for t in f.succ[b]:
                    e2 = tr.edge(env, b, t)
                    if e2 is None:
                        continue
                    self.tr, self.env2 = tr, e2
                    r = self.edge(s, b, t)
                    if r is None:
                        continue
                    if not isinstance(r, list):
                        r = [r]
                    for x in r:
                        key = (t, (e2, x))
                        if key not in seen:
                            seen[key] = (b, st0)
                            work.append((t, (e2, x), 0))
        # shortest witnesses of each violation
        uniq = {}
        for key, (i, p) in self._errs:
            uniq.setdefault((i.id, p), []).append(key)
        return seen, uniq

    def run(self):
        """Violations that survive branch correlation.  Each candidate is refined on
        its own: the values that contradict its witness path are tracked, and the
        search is repeated until it vanishes or a consistent witness remains."""
        f = self.f
        self.errors = []
        self.unresolved = 0
        base = self.fixed
        seen, uniq = self._make(Tracker(f, set(self.track) | set(self.assume or ()), base, self.ranges))
        for e in list(uniq):
            ids = set(self.track) | set(self.assume or ())
            s, u = seen, uniq
            for _ in range(20):
                keys = u.get(e)
                if not keys:
                    break
                add = set()
                good = None
                for key in keys[:3]:
                    d = infeasible_ids(f, block_path(s, key), base, self.ranges, self.assume, self.start[1])
                    if d is None:
                        good = key
                        break
                    if not add:
                        add = d - ids
                if good is None and not add:
                    good = keys[0]
                if good is not None:
                    self.errors.append((f.inst[e[0]], e[1], good, s))
                    break
                ids |= add
                try:
                    s, u = self._make(Tracker(f, ids, base, self.ranges))
                except RuntimeError:
                    self.unresolved += 1
                    self.errors.append((f.inst[e[0]], e[1], keys[0], s))
                    break
        self.seen = {}
        for x in self.errors:
            k = x[2]
            while k is not None and k not in self.seen:
                self.seen[k] = x[3].get(k)
                k = x[3].get(k)
        self.errors = [x[:3] for x in self.errors]
        return self.errors

    def witness(self, key):
        return witness(self.f, self.seen, key)
