"""Semantic matching helpers on the resolved program: conditions, counting loops, element accesses."""
import re
import ir
import flow
from ir import opexpr

CON, VAR = 1, 0          # mathToken types con_/var_ are read from the source (see token_type)


def X(f, o):
    """Canonical text of a value, casts removed."""
    return opexpr(f, flow.strip(f, o))


SWAPP = dict(ir.SWAP)


def facts(f, b, t):
    """Atomic facts on edge b->t as (text, pred, text, op, op), both orientations."""
    out = []
    for l, p, r in flow.edge_facts(f, b, t):
        l2, r2 = flow.strip(f, l), flow.strip(f, r)
        a, c = opexpr(f, l2), opexpr(f, r2)
        out.append((a, p, c, l2, r2))
        out.append((c, SWAPP[p], a, r2, l2))
    return out


def leaves(f, o, seen=None):
    """Non-phi, non-select operands that may flow into o."""
    seen = seen if seen is not None else set()
    o = flow.strip(f, o)
    if o[0] == 'v' and o[1] >= f.nargs:
        if o[1] in seen:
            return []
        i = f.inst[o[1]]
        if i.op == 'phi':
            seen.add(o[1])
            r = []
            for x, b in i.ops:
                r += leaves(f, x, seen)
            return r
        if i.op == 'select':
            seen.add(o[1])
            return leaves(f, i.ops[1], seen) + leaves(f, i.ops[2], seen)
    return [o]


class Count:
    """A counting loop: phi starts at `start`, changes by `step`, stays in the loop while
    (value pred bound)."""
    def __init__(self, header, body, phi, start, step, pred, bound, block, exit_to, incl):
        self.header, self.body, self.phi = header, body, phi
        self.start, self.step, self.pred, self.bound = start, step, pred, bound
        self.block, self.exit_to = block, exit_to
        self.incl = incl


def counting(f, loop):
    """Counting descriptions of a natural loop (several if several counters)."""
    h, body, latches = loop
    out = []
    for ph in flow.phis(f, h):
        starts = [o for o, b in ph.ops if b not in body]
        backs = [o for o, b in ph.ops if b in body]
        if len(starts) != 1 or not backs:
            continue
        step = None
        ok = True
        for o in backs:
            s = step_of(f, o, ph.id)
            if s is None or (step is not None and s != step):
                ok = False
                break
            step = s
        if not ok or not step:
            continue
        for b in sorted(body):
            for t in f.succ[b]:
                if t in body:
                    continue
                # leaving edge: the negation of the staying condition
                for a, p, c, ao, co in facts(f, b, t):
                    if ao == ['v', ph.id] or (step_val(f, ao, ph.id) is not None and b in latches):
                        out.append(Count(h, body, ph, starts[0], step, ir.NEG[p], co, b, t,
                                         ao != ['v', ph.id]))
    return out


def step_of(f, o, pid, seen=None, d=0):
    """constant k when o == phi + k on every way round the loop."""
    o = flow.strip(f, o)
    if o == ['v', pid]:
        return None
    v = step_val(f, o, pid)
    if v is not None:
        return v
    if o[0] == 'v' and o[1] >= f.nargs and d < 4:
        i = f.inst[o[1]]
        if i.op == 'phi':
            ks = {step_of(f, x, pid, seen, d + 1) for x, b in i.ops}
            if len(ks) == 1:
                return ks.pop()
    return None


def step_val(f, o, pid):
    o = flow.strip(f, o)
    if o[0] != 'v' or o[1] < f.nargs:
        return None
    i = f.inst[o[1]]
    if i.op == 'add' and flow.strip(f, i.ops[0]) == ['v', pid] and i.ops[1][0] == 'c':
        return i.ops[1][1]
    if i.op == 'getelementptr' and i.ops[0] == ['v', pid] and len(i.path) == 1 and i.path[0][1][0] == 'c':
        return i.path[0][1][1]
    return None


def loop_of(f, block):
    """innermost loop containing block, or None"""
    best = None
    for l in f.loops:
        if block in l[1] and (best is None or len(l[1]) < len(best[1])):
            best = l
    return best


def loops_of(f, block):
    """all loops containing block, innermost first"""
    return sorted([l for l in f.loops if block in l[1]], key=lambda l: len(l[1]))


def dead_blocks(f, nr):
    """blocks that end in a call that does not return (bug(), fatal errors)."""
    r = set()
    for b, bl in enumerate(f.blocks):
        if any(i.op == 'call' and i.callee in nr for i in bl):
            r.add(b)
    return r


def exits(f, loop, dead=()):
    """edges leaving the loop, ignoring those that come from or run straight into a block that never returns"""
    h, body, latches = loop
    out = []
    for b in sorted(body):
        if b in dead:
            continue
        for t in f.succ[b]:
            if t not in body and t not in dead:
                out.append((b, t))
    return out


def field_addr(f, o):
    """(base text, field name) of an address of a structure field."""
    s = opexpr(f, o)
    m = re.match(r'^(.*)\.(\w+)$', s, re.S)
    return (m.group(1), m.group(2)) if m else (None, None)


def is_load_of(f, o, addr):
    o = flow.strip(f, o)
    i = f.val(o)
    return i is not None and i.op == 'load' and opexpr(f, i.ops[0]) == addr


def alloca_of(f, o):
    """id of the local variable whose address o is"""
    if o[0] == 'v' and o[1] >= f.nargs and f.inst[o[1]].op == 'alloca':
        return o[1]
    return None


def is_empty_nmbr(f, o):
    """o is the null number string (NULL_NMBRSTRING / free_nmbrString)"""
    return opexpr(f, o) in ('&g_NmbrNull.nullElement', '&g_NmbrNull[?]', '&NULL_NMBRSTRING') or 'NmbrNull' in opexpr(f, o)


def extended(f, l, counted=()):
    """loop body plus the blocks that only run on the way out of it (error branches before a break)"""
    h, body, lat = l
    ext = set(body)
    skip = {t for b, t in counted}
    ch = True
    while ch:
        ch = False
        for b in list(ext):
            for t in f.succ[b]:
                if t not in ext and t not in skip and all(p in ext for p in f.pred[t]):
                    ext.add(t)
                    ch = True
    return ext


def implied(f, o, truth=True, d=0):
    """Facts (text, pred, text, op, op) implied by a value being nonzero / zero."""
    o = flow.strip(f, o)
    if o[0] != 'v' or o[1] < f.nargs or d > 6:
        return None if o[0] != 'c' else ([] if bool(o[1]) == truth else False)
    i = f.inst[o[1]]
    if i.op == 'icmp':
        l2, r2 = flow.strip(f, i.ops[0]), flow.strip(f, i.ops[1])
        p = i.pred if truth else ir.NEG[i.pred]
        a, c = opexpr(f, l2), opexpr(f, r2)
        out = [(a, p, c, l2, r2), (c, SWAPP[p], a, r2, l2)]
        if c == '0' and p in ('eq', 'ne'):
            more = implied(f, l2, p == 'ne', d + 1)
            if more:
                out += more
        return out
    if i.op in ('phi', 'select'):
        ops = [x for x, b in i.ops] if i.op == 'phi' else i.ops[1:]
        res = None
        for k, x in enumerate(ops):
            r = implied(f, x, truth, d + 1)
            if r is False:
                continue
            if r is None:
                return None
            r = list(r)
            if i.op == 'phi':
                pass
            else:
                c = implied(f, i.ops[0], k == 0, d + 1)
                r += c or []
            res = r if res is None else [q for q in res if q in r]
        return False if res is None else res
    if i.op == 'xor' and i.ops[1] == ['c', 1]:
        return implied(f, i.ops[0], not truth, d + 1)
    return None


def deep_facts(f, b, t):
    """facts() plus those implied by comparing a flag variable with zero."""
    out = list(facts(f, b, t))
    for a, p, c, ao, co in list(out):
        if c == '0' and p in ('eq', 'ne'):
            r = implied(f, ao, p == 'ne')
            if r:
                out += [x for x in r if x not in out]
    return out
