"""Path monitor for long command functions: literals about canonical texts, with local variables in memory and flag
merges resolved to the values they were last given on the path."""
import re
import ir
import flow
import sem
from ir import opexpr
from common import *


def cellname(f, a):
    s = opexpr(f, ['v', a])
    return s[1:] if s.startswith('&') else s


def decided(f, o, d=0):
    """a truth value assembled from constants, comparisons and qualifier lookups"""
    i = f.val(flow.strip(f, o))
    if i is None or d > 4:
        return False
    if i.op == 'phi':
        return len(i.ops) <= 5 and all(x[0] == 'c' or decided(f, x, d + 1) for x, b in i.ops)
    return i.op == 'icmp' or i.op == 'call' and i.callee == 'switchPos'


class Path(flow.Monitor):
    """State: frozenset of tuples.  ('=', alloca, op): value of a local in memory; ('ph', phi, op): value a flag merge got.
    Subclasses implement on_inst(st, i) -> st | None and on_facts(st, b, t, facts) -> st | None and may override stop(b, t)."""

    def __init__(self, f, nr, start, hdr=None, init=frozenset(), cells=None, command=None, merges=True):
        self.nr, self.hdr, self.command = nr, hdr, command
        if cells is None:
            cells = {i.id for i in f.insts() if i.op == 'alloca'}
        self.cells = cells
        self.names = {a: 'ld(&%s)' % cellname(f, a) for a in cells}
        self.phis = set()
        for i in f.insts():
            if merges and i.op == 'phi' and len(i.ops) <= 5 and i.block != hdr and all(x[0] == 'c' or decided(f, x) for x, b in i.ops) \
                    and any(x[0] != 'c' for x, b in i.ops):
                self.phis.add(i.id)
        flow.Monitor.__init__(self, f, start, init)
        self.points = set()
        self._addr = {}
        self._txt = {}

    # --- texts
    def raw(self, o):
        k = tuple(o) if len(o) < 4 else None
        t = self._txt.get(k)
        if t is None:
            t = self._txt[k] = opexpr(self.f, flow.strip(self.f, o))
        return t

    def subst(self, st, s):
        if 'ld(&' not in s:
            return s
        for x in st:
            if x[0] == '=':
                n = self.names[x[1]]
                if n in s:
                    s = s.replace(n, self.raw(list(x[2])))
        return s

    def T(self, st, o):
        return self.subst(st, self.raw(o))

    def origin(self, st, o):
        """the value behind local variables and merges, as far as this path decides it"""
        f = self.f
        o = flow.strip(f, o)
        for _ in range(8):
            v = f.val(o)
            n = None
            if v is not None and v.op == 'phi':
                n = next((x[2] for x in st if x[0] == 'ph' and x[1] == v.id), None)
            elif v is not None and v.op == 'load':
                a = sem.alloca_of(f, v.ops[0])
                n = next((x[2] for x in st if x[0] == '=' and x[1] == a), None) if a is not None else None
            if n is None:
                break
            o = flow.strip(f, list(n))
        return o

    def forget(self, st, text):
        return frozenset(x for x in st if x[0] in ('=', 'ph') or not any(isinstance(y, str) and text in y for y in x[1:]))

    # --- engine
    def touched(self, i):
        r = self._addr.get(i.id)
        if r is None:
            r = [a for a in (sem.alloca_of(self.f, o) for o in i.ops if isinstance(o, list)) if a in self.cells]
            self._addr[i.id] = r
        return r

    def step(self, st, i):
        f = self.f
        if i.op == 'call':
            if i.callee in self.nr:
                self.on_inst(st, i)
                return None
            ts = self.touched(i)
            st = self.on_inst(st, i)
            if st is None:
                return None
            for a in ts:
                st = self.forget(frozenset(x for x in st if not (x[0] == '=' and x[1] == a)), self.names[a]) | self.keep(st, i, a)
        elif i.op == 'store':
            a = sem.alloca_of(f, i.ops[1])
            st = self.on_inst(st, i)
            if st is None:
                return None
            if a in self.cells:
                o = self.origin(st, i.ops[0])
                st = self.forget(frozenset(x for x in st if not (x[0] == '=' and x[1] == a)), self.names[a])
                if self.binds(o):
                    st = st | {('=', a, tuple(o))}
            g = global_store_name(f, i)
            if g:
                st = self.forget(st, '&%s)' % g)
        elif i.op == 'ret':
            self.on_inst(st, i)
            return None
        else:
            st = self.on_inst(st, i)
        return st

    def other(self, b, t):
        """the edge is only taken by another command"""
        for a, p, c, ao, co in sem.facts(self.f, b, t):
            v = self.f.val(ao)
            if v is not None and v.is_call('cmdMatches') and v.ops[0][0] == 's' and c == '0':
                s = v.ops[0][1]
                if p in ('ne', 'sgt') and not self.command.startswith(s) or p == 'eq' and s == self.command:
                    return True
        return False

    def binds(self, o):
        """values of local variables worth remembering"""
        v = self.f.val(o)
        return o[0] == 'c' or v is not None and v.op != 'load'

    def keep(self, st, i, a):
        """literals that survive (or are made by) passing the variable's address to a call"""
        return frozenset()

    def edge(self, st, b, t):
        f = self.f
        fs = []
        if self.command and self.other(b, t):
            return None
        for a, p, c, ao, co in sem.deep_facts(f, b, t):
            fs.append((self.subst(st, a), p, self.subst(st, c), ao, co))
            if c == '0' and p in ('eq', 'ne'):
                o = self.origin(st, ao)
                if o[0] == 'c':
                    if (o[1] == 0) != (p == 'eq'):
                        return None
                elif o != flow.strip(f, ao):
                    out = []
                    flow.cond_facts(f, o, p == 'ne', out)
                    out.append((o, p, ['c', 0]))
                    for l, q, r in out:
                        l2, r2 = flow.strip(f, l), flow.strip(f, r)
                        fs.append((self.T(st, l2), q, self.T(st, r2), l2, r2))
                        fs.append((self.T(st, r2), sem.SWAPP[q], self.T(st, l2), r2, l2))
                    more = sem.implied(f, o, p == 'ne')
                    fs += [(self.subst(st, x[0]), x[1], self.subst(st, x[2]), x[3], x[4]) for x in more or []]
            elif co[0] == 'c' and ao[0] == 'v':
                o = self.origin(st, ao)
                if o[0] == 'c':
                    if flow.iv_meet((o[1], o[1]), p, co[1]) is None:
                        return None
        st = self.on_facts(st, b, t, fs)
        if st is None or t == self.hdr:
            return None
        old = st
        ph = {x.id for x in flow.phis(f, t)}
        if ph:
            pat = re.compile(r'phi(%s)\b' % '|'.join(map(str, ph)))
            keep = flow.relevant(f, t)
            st = frozenset(x for x in st if not (
                x[0] == 'ph' and (x[1] in ph or x[1] not in keep) or
                x[0] == '=' and pat.search(self.raw(list(x[2]))) or
                x[0] not in ('=', 'ph') and any(isinstance(y, str) and pat.search(y) for y in x[1:])))
            for x in flow.phis(f, t):
                o = flow.phi_in(x, b)
                if x.id in self.phis and o[0] in ('v', 'c'):
                    o = self.origin(old, o)
                    if o != ['v', x.id]:
                        st = st | {('ph', x.id, tuple(o))}
            st = self.merged(old, st, b, t)
        return st

    def merged(self, old, st, b, t):
        return st

    def on_inst(self, st, i):
        return st

    def on_facts(self, st, b, t, fs):
        return st


def entry(f, command):
    """blocks entered when the command was recognised"""
    r = []
    for b in range(len(f.blocks)):
        for t in f.succ[b]:
            for a, p, c, ao, co in sem.facts(f, b, t):
                v = f.val(ao)
                if v is not None and v.is_call('cmdMatches') and v.ops[0][0] == 's' and v.ops[0][1] == command and c == '0' and p in ('ne', 'sgt') and t not in r:
                    r.append(t)
    return r
