"""Temporary-string lifetimes (C13) and ownership of local dynamic strings (C14)."""
import ir
import flow
from ir import loc, expr
from base import Broken
from common import *

BASE = {'tempAlloc': 'v', 'makeTempAlloc': 'v', 'nmbrTempAlloc': 'n', 'nmbrMakeTempAlloc': 'n',
        'pntrTempAlloc': 'p', 'pntrMakeTempAlloc': 'p'}
START = {'g_startTempAllocStack': 'v', 'g_nmbrStartTempAllocStack': 'n', 'g_pntrStartTempAllocStack': 'p'}
TOP = {'g_tempAllocStackTop': 'v', 'g_nmbrTempAllocStackTop': 'n', 'g_pntrTempAllocStackTop': 'p'}
KINDNAME = {'v': 'character string', 'n': 'number string', 'p': 'pointer string'}
LET = {'let': 'v', 'nmbrLet': 'n', 'pntrLet': 'p'}


# Filled on first use only (guarded by a global); a later call finds it filled and
# releases nothing.
LAZY = ('assignMathboxInfo',)


def must_call(m, z):
    """Functions every completed execution of which has called z."""
    s = {z}
    changed = True
    while changed:
        changed = False
        for n, f in m.funcs.items():
            if n in s:
                continue
            seen = set()
            st = [0]
            ok = True
            while st and ok:
                b = st.pop()
                if b in seen:
                    continue
                seen.add(b)
                hit = False
                for i in f.blocks[b]:
                    if i.op == 'call' and i.callee in s:
                        hit = True
                        break
                    if i.op == 'ret':
                        ok = False
                        break
                if not hit:
                    st.extend(f.succ[b])
            if ok:
                s.add(n)
                changed = True
    return s


def base_flush(i):
    """Kind of temporaries released by this call instruction itself."""
    if i.op != 'call':
        return None
    if i.callee == 'freeTempAlloc':
        return 'v'
    if i.callee in ('nmbrTempAlloc', 'pntrTempAlloc') and i.ops and i.ops[0] == ['c', 0]:
        return i.callee[0]
    return None


def protects(f, i):
    """('on'|'off', kind) when a store changes the floor below which temporaries survive."""
    if i.op != 'store' or i.ops[1][0] != 'g':
        return None
    k = START.get(ir.gname(f.mod, i.ops[1][1]))
    if not k:
        return None
    src = load_of_global(f, i.ops[0])
    if src in TOP and TOP[src] == k:
        return ('on', k)
    return ('off', k)


class Info:
    """Module-wide summaries: which functions release temporaries of their caller,
    which return temporaries, which use a parameter after releasing temporaries."""

    def __init__(self, m):
        self.m = m
        self.nr = noreturn(m)
        self._skip = set()
        for n in list(BASE) + ['freeTempAlloc'] + list(LET):
            if n not in m.funcs:
                raise Broken('string library function %s() not found' % n)
        self.flush = {k: set() for k in 'vnp'}
        self._flush()
        self.flush_all = self.flush
        # second solution in which the lazily initialised tables already exist
        self.lazy = [n for n in LAZY if n in m.funcs]
        self.flush = {k: set() for k in 'vnp'}
        self._skip = set(self.lazy)
        self._flush()
        self.flush_warm, self.flush = self.flush, self.flush_all
        self._skip = set()
        self.warm_fns = {}
        for z in self.lazy:
            self.warm_fns[z] = must_call(m, z)
        self._busy = False
        self.rettemp = {}
        self._rettemp()

    def callee_flush(self, i):
        """kinds a call instruction may release (caller-visible)."""
        if i.op != 'call' or i.callee in self.nr:
            return ()
        b = base_flush(i)
        if b:
            return (b,)
        if i.callee in ('nmbrTempAlloc', 'pntrTempAlloc', 'freeTempAlloc'):
            return ()
        if i.callee is None:
            return ()
        fl = self.flush
        if not self._busy and i.callee in fl['v'] and i.callee not in self.flush_warm['v'] and self.warm(i):
            fl = self.flush_warm
        return tuple(k for k in 'vnp' if i.callee in fl[k])

    def warm(self, i):
        """Every lazily filled table was already filled by a call that dominates i."""
        f = i.func
        for z in self.lazy:
            if not any(c is not i and f.dom_inst(c, i) for c in f.calls(*self.warm_fns[z])):
                return False
        return True

    _busy = True

    def _flush(self):
        m = self.m
        changed = True
        while changed:
            changed = False
            for n, f in m.funcs.items():
                if n in ('nmbrTempAlloc', 'pntrTempAlloc') or n in self._skip:
                    continue
                for k in 'vnp':
                    if n in self.flush[k]:
                        continue
                    if n == 'freeTempAlloc':
                        if k == 'v':
                            self.flush[k].add(n)
                            changed = True
                        continue
                    if self._unprotected(f, k):
                        self.flush[k].add(n)
                        changed = True

    def _unprotected(self, f, k):
        """May f release temporaries of kind k that existed before it was called?"""
        if not any(k in self.callee_flush(i) for i in f.calls()):
            return False
        seen = set()
        st = [(0, False)]
        while st:
            b, p = st.pop()
            if (b, p) in seen:
                continue
            seen.add((b, p))
            stop = False
            for i in f.blocks[b]:
                if i.op == 'store':
                    pr = protects(f, i)
                    if pr and pr[1] == k:
                        p = pr[0] == 'on'
                elif i.op == 'call':
                    if i.callee in self.nr:
                        stop = True
                        break
                    if not p and k in self.callee_flush(i):
                        return True
            if not stop:
                st.extend((s, p) for s in f.succ[b])
        return False

    def _rettemp(self):
        m = self.m
        self.rettemp = dict(BASE)
        changed = True
        while changed:
            changed = False
            for n, f in m.funcs.items():
                if n in self.rettemp:
                    continue
                for i in f.insts():
                    if i.op == 'ret' and i.ops:
                        k = self._origin_kind(f, i.ops[0], set())
                        if k:
                            self.rettemp[n] = k
                            changed = True

    def _origin_kind(self, f, o, seen):
        if o[0] != 'v' or o[1] < f.nargs or o[1] in seen:
            return None
        seen.add(o[1])
        i = f.inst[o[1]]
        if i.op == 'call':
            if i.callee in self.rettemp and not base_flush(i):
                return self.rettemp[i.callee]
        elif i.op == 'phi':
            for x, b in i.ops:
                k = self._origin_kind(f, x, seen)
                if k:
                    return k
        elif i.op == 'select':
            return self._origin_kind(f, i.ops[1], seen) or self._origin_kind(f, i.ops[2], seen)
        elif i.op in ('getelementptr', 'bitcast'):
            return self._origin_kind(f, i.ops[0], seen)
        return None


def derived(f, o, al):
    """operand designates (or points into) the tracked temporary."""
    n = 0
    while o[0] == 'v' and n < 20:
        if o[1] in al:
            return True
        if o[1] < f.nargs:
            return False
        i = f.inst[o[1]]
        if i.op in ('getelementptr', 'bitcast', 'freeze'):
            o = i.ops[0]
        else:
            return False
        n += 1
    return False


class Temp(flow.Monitor):
    """Follow one temporary (call result or parameter) and report any use after it was
    released.  State: (one alias: SSA id or local slot, released?, protected?)."""
    limit = 400000

    def __init__(self, f, info, kind, op=None, arg=None, puse=None):
        start = (0, 0) if op is None else (op.block, op.idx + 1)
        flow.Monitor.__init__(self, f, start, (arg if op is None else op.id, False, False))
        self.info, self.kind, self.op, self.arg, self.puse = info, kind, op, arg, puse
        self.escapes = []
        self.nomem = op is None

    def step(self, st, i):
        a, dead, prot = st
        f = self.f
        if i is self.op or i.id == a:
            return None
        al = (a,)
        if i.op == 'load':
            if derived(f, i.ops[0], al):
                if dead:
                    self.err(i, 'read')
                    return None
                return st
            s = i.ops[0]
            if s[0] == 'v' and a == 'A%d' % s[1]:
                return [st, (i.id, dead, prot)]
            return st
        if i.op == 'store':
            if derived(f, i.ops[1], al):
                if dead:
                    self.err(i, 'written')
                    return None
                return st
            d = i.ops[1]
            slot = 'A%d' % d[1] if d[0] == 'v' and d[1] >= f.nargs and f.inst[d[1]].op == 'alloca' else None
            if derived(f, i.ops[0], al):
                if slot and not self.nomem:
                    return [st, (slot, dead, prot)]
                if not slot and self.op is not None and i not in self.escapes:
                    self.escapes.append(i)
                return st
            if slot and slot == a:
                return None
            pr = protects(f, i)
            if pr and pr[1] == self.kind:
                return (a, dead, pr[0] == 'on')
            return st
        if i.op == 'call':
            if i.callee in self.info.nr:
                return None
            for k, o in enumerate(i.ops):
                if derived(f, o, al):
                    if dead:
                        self.err(i, 'passed to %s()' % i.callee)
                        return None
                    if self.puse is not None:
                        key = (i.callee, k, self.kind)
                        g = f.mod.funcs.get(i.callee)
                        if g is not None and k >= g.nargs:
                            key = (i.callee, '...', self.kind)
                        if key in self.puse and context_use(self.info, i, k, self.kind, self.puse):
                            self.err(i, 'passed to %s(), which uses it after releasing temporaries' % i.callee)
            if not prot and self.kind in self.info.callee_flush(i):
                return (a, True, prot)
            return st
        if i.op == 'ret':
            if i.ops and derived(f, i.ops[0], al) and dead:
                self.err(i, 'returned')
            return None
        return st

    def edge(self, st, b, t):
        a, dead, prot = st
        f = self.f
        new = set()
        if isinstance(a, str):
            new.add(a)
        else:
            for ph in flow.phis(f, t):
                o = flow.phi_in(ph, b)
                if o is not None and derived(f, o, (a,)):
                    new.add(ph.id)
            d = f.inst.get(a)
            if d is None or (f.dominates(d.block, t) and not (d.op == 'phi' and d.block == t)):
                if a in flow.live_in(f)[t]:
                    new.add(a)
        return [(x, dead, prot) for x in sorted(new, key=str)]


def param_summaries(m, info):
    puse = set()
    changed = True
    ptr = [(n, k) for n, f in m.funcs.items() for k, a in enumerate(f.args) if a[2] == 'ptr']
    rounds = 0
    while changed and rounds < 8:
        changed = False
        rounds += 1
        for n, k in ptr:
            f = m.funcs[n]
            if n in BASE or n in ('let', 'nmbrLet', 'pntrLet', 'freeTempAlloc'):
                continue
            if not f.uses.get(k):
                continue
            for kind in 'vnp':
                if (n, k, kind) in puse:
                    continue
                if n not in info.flush[kind]:
                    continue
                t = Temp(f, info, kind, arg=k, puse=puse)
                t.run()
                if t.errors:
                    puse.add((n, k, kind))
                    changed = True
    return puse


_ctx = {}


def context_use(info, call, k, kind, puse):
    """Is the late use of parameter k still possible given the constants this call passes?"""
    g = info.m.funcs.get(call.callee)
    if g is None or k >= g.nargs:
        return True
    consts = tuple((j, o[0], o[1]) for j, o in enumerate(call.ops) if j < g.nargs and o[0] in ('c', 's'))
    if not consts:
        return True
    ck = (call.callee, k, kind, consts)
    if ck not in _ctx:
        fixed = {}
        cs = {}
        for j, t, v in consts:
            if t == 'c':
                fixed[j] = (v, v, None)
            else:
                cs[j] = v
        for c in g.calls('strcmp'):
            a, b = c.ops[0], c.ops[1]
            if b[0] == 'v' and a[0] == 's':
                a, b = b, a
            if a[0] == 'v' and a[1] in cs and b[0] == 's':
                eq = cs[a[1]] == b[1]
                fixed[c.id] = (0, 0, None) if eq else (-flow.INF, flow.INF, 0)
        t = Temp(g, info, kind, arg=k, puse=puse)
        t.fixed = fixed
        t.run()
        _ctx[ck] = bool(t.errors)
    return _ctx[ck]


def simple(f, info, i, kind, puse):
    """Every use of the temporary precedes any release, within its own block."""
    us = f.uses.get(i.id, [])
    last = -1
    for u in us:
        if u.block != i.block or u.op not in ('call', 'load', 'icmp', 'ret'):
            return False
        last = max(last, u.idx)
        if u.op == 'call':
            for k, o in enumerate(u.ops):
                if o == ['v', i.id]:
                    key = (u.callee, k, kind)
                    g = f.mod.funcs.get(u.callee)
                    if g is not None and k >= g.nargs:
                        key = (u.callee, '...', kind)
                    if key in puse and context_use(info, u, k, kind, puse):
                        return False
    for x in f.blocks[i.block][i.idx + 1:last]:
        if x.op == 'call' and kind in info.callee_flush(x):
            return False
    return True


def check_temps(m, rep):
    info = Info(m)
    puse = param_summaries(m, info)
    rep.rule('a temporary string/number string/pointer string is never read, written, passed on or returned on a '
             'path after an operation that releases temporaries of its kind')
    n = 0
    hard = 0
    for fn, f in sorted(m.funcs.items()):
        for i in f.calls():
            kind = info.rettemp.get(i.callee)
            if not kind or base_flush(i):
                continue
            n += 1
            if simple(f, info, i, kind, puse):
                continue
            hard += 1
            t = Temp(f, info, kind, op=i, puse=puse)
            t.run()
            for at, how, key in t.errors:
                rep.violation('stale|%s|%s' % (f.name, i.callee),
                              'temporary %s made by %s() at %s is %s at %s after it may have been released; path %s' % (
                                  KINDNAME[kind], i.callee, loc(i), how, loc(at), t.witness(key)))
            for e in t.escapes:
                rep.violation('escape|%s|%s' % (f.name, i.callee),
                              'temporary %s made by %s() at %s is stored into longer-lived memory at %s: %s' % (
                                  KINDNAME[kind], i.callee, loc(i), loc(e), expr(e)))
    rep.count('temporaries', n)
    rep.count('obligations', n)
    rep.count('path_tracked', hard)
    rep.count('functions_returning_temporaries', len(info.rettemp))
    rep.count('functions_releasing_temporaries', len(info.flush['v'] | info.flush['n'] | info.flush['p']))
    rep.count('parameters_needing_stable_strings', len(puse))


def cycle_without(f, i, stops, nr):
    """Is there a cycle in f through instruction i on which no instruction in
    `stops` (set of ids) and no never-returning call occurs?"""
    def scan(b, k0):
        """None if blocked, else True when block b from index k0 passes to its end."""
        for x in f.blocks[b][k0:]:
            if x.id in stops or (x.op == 'call' and x.callee in nr):
                return False
            if x is i and k0 == 0:
                return 'hit'
        return True
    r = scan(i.block, i.idx + 1)
    if r is not True:
        return False
    seen = set()
    st = list(f.succ[i.block])
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        r = scan(b, 0)
        if r == 'hit':
            return True
        if r:
            st.extend(f.succ[b])
    return False


def check_tempstack(m, rep):
    info = Info(m)
    rep.rule('a loop that creates temporaries releases temporaries of that kind on every way round, so the '
             'fixed-size temporary stack cannot overflow')
    for fn, f in sorted(m.funcs.items()):
        inl = set()
        for h, body, lat in f.loops:
            inl |= body
        for b in sorted(inl):
            for i in f.blocks[b]:
                if i.op != 'call' or base_flush(i):
                    continue
                kind = info.rettemp.get(i.callee)
                if not kind:
                    continue
                rep.count('temporaries_in_loops')
                stops = {x.id for x in f.calls() if kind in info.callee_flush(x)}
                if cycle_without(f, i, stops, info.nr):
                    rep.violation('pileup|%s|%s' % (f.name, i.callee), 'loop around %s creates a temporary %s with %s() each time round without releasing any' % (loc(i), KINDNAME[kind], i.callee))


# ------------------------------------------------------------------ C14: ownership
def is_empty_value(o):
    """The address of a constant: the canonical empty string / empty list."""
    return o[0] in ('s', 'g', 'n') or (o[0] == 'e' and o[1] == 'gep')


def root_load(f, o, seen=None):
    """Set of load instructions an operand's value may come from (through phis/casts)."""
    seen = seen if seen is not None else set()
    if o[0] != 'v' or o[1] < f.nargs or o[1] in seen:
        return set()
    seen.add(o[1])
    i = f.inst[o[1]]
    if i.op == 'load':
        return {i}
    if i.op == 'phi':
        r = set()
        for x, b in i.ops:
            r |= root_load(f, x, seen)
        return r
    if i.op == 'select':
        return root_load(f, i.ops[1], seen) | root_load(f, i.ops[2], seen)
    if i.op in ('bitcast', 'freeze'):
        return root_load(f, i.ops[0], seen)
    return set()


class Own(flow.Monitor):
    """One string variable (local slot, or *parameter): E empty, A owns memory, T handed over."""

    def __init__(self, f, O, ref, start_state='E', is_param=False):
        start = (0, 0)
        flow.Monitor.__init__(self, f, start, start_state if is_param else 'U')
        self.O, self.ref, self.is_param = O, ref, is_param
        self.exits = set()

    def isvar(self, o):
        return o[0] == 'v' and o[1] == self.ref

    def fromvar(self, o):
        return any(self.isvar(l.ops[0]) for l in root_load(self.f, o))

    def step(self, st, i):
        f = self.f
        if i.op == 'store':
            if self.isvar(i.ops[1]):
                v = i.ops[0]
                if st == 'A' and not self.moved_later(i):
                    self.err(i, 'leak: the string is overwritten without being freed')
                if is_empty_value(v):
                    return 'E'
                k = f.val(v)
                return 'A'
            if i.ops[0][0] == 'v' and self.fromvar(i.ops[0]):
                return 'T' if st == 'A' else st
            return st
        if i.op == 'call':
            if i.callee in self.O.nr:
                return None
            for k, o in enumerate(i.ops):
                if self.isvar(o):
                    if i.callee in LET and k == 0:
                        if st == 'T':
                            self.err(i, 'the string is freed or changed although it was handed to another owner')
                        if len(i.ops) > 1 and is_empty_value(i.ops[1]) and i.ops[1] != ['s', '?'] and not (
                                i.ops[1][0] == 's' and i.ops[1][1] != ''):
                            return 'E'
                        return 'A'
                    ex = self.O.param_effect(i.callee, k, st)
                    return sorted(ex)
                if o[0] == 'v' and i.callee in self.O.takes and k == 0 and self.fromvar(o):
                    return 'T' if st in 'A' else st
            return st
        if i.op == 'ret':
            if i.ops and self.fromvar(i.ops[0]):
                self.exits.add('T' if st != 'E' else 'E')
                return None
            self.exits.add(st)
            if st == 'A' and not self.is_param:
                self.err(i, 'leak: the function returns while the string is still allocated')
            return None
        return st

    def moved_later(self, i):
        """The old content is still held in an SSA value that is used after i."""
        f = self.f
        for l in f.insts():
            if l.op == 'load' and self.isvar(l.ops[0]) and f.dom_inst(l, i):
                for u in f.uses.get(l.id, ()):
                    if u.op in ('store', 'ret', 'phi') or (u.op == 'call' and u.callee in self.O.takes):
                        if (u.block == i.block and u.idx > i.idx) or u.block != i.block or u.op == 'phi':
                            return True
                    if u is i:
                        return True
        return False


class Owners:
    def __init__(self, m):
        self.m = m
        self.nr = noreturn(m)
        self.takes = {'makeTempAlloc', 'nmbrMakeTempAlloc', 'pntrMakeTempAlloc', 'free'}
        self.eff = {}
        self.busy = set()

    def param_effect(self, callee, k, st):
        if st == 'U':
            st = 'E'
        g = self.m.funcs.get(callee)
        if g is None or k >= g.nargs:
            return {'A'}
        if callee in ('strcpy', 'strlen', 'strcmp'):
            return {st}
        key = (callee, k, st)
        if key in self.eff:
            return self.eff[key]
        if key in self.busy:
            return {st}
        self.busy.add(key)
        o = Own(g, self, k, st, is_param=True)
        o.run()
        self.busy.discard(key)
        r = {x for x in o.exits if x in 'EAT'} or {st}
        r = {'A' if x == 'T' else x for x in r}
        self.eff[key] = r
        return r


def string_slots(f):
    out = {}
    for i in f.calls(*LET):
        o = i.ops[0]
        if o[0] == 'v' and o[1] >= f.nargs and f.inst[o[1]].op == 'alloca':
            out.setdefault(o[1], LET[i.callee])
    return out


def check_own(m, rep):
    O = Owners(m)
    rep.rule('every local dynamic string is, on every path to a return of its function, freed, returned or handed '
             'over; it is never overwritten while it owns memory and never freed after being handed over')
    for n, f in sorted(m.funcs.items()):
        if n in LET:
            continue
        sl = string_slots(f)
        for a, kind in sorted(sl.items()):
            rep.count('local_strings')
            o = Own(f, O, a)
            o.run()
            for at, why, key in o.errors:
                nm = f.inst[a].name or '?'
                rep.violation('own|%s|%s|%s' % (n, nm, why.split(':')[0].split()[0]),
                              'local %s "%s" of %s(): %s at %s; path %s' % (KINDNAME[kind], nm, n, why, loc(at), o.witness(key)))
    rep.count('obligations', rep.cover.get('local_strings', 0))
