"""Must-pass obligations: at a given point, one literal of each clause must have been established on the path."""
import ir
import flow
import sem
from ir import loc, opexpr
from sem import X, facts
from common import *

EC = 'ld(&g_WrkProof.errorCount)'


class Must(flow.Monitor):
    """State: set of established literal names.

    lits     {name: fn(a, pred, c, ao, co) -> bool}   established on a branch edge
    events   {name: fn(inst) -> bool}                 established by an instruction
    kills    fn(inst) -> names dropped                (evaluated before events)
    resets   {block: names or None}                   dropped on entering block (None = all)
    at       fn(inst) -> [(label, names)]             clauses due before inst
    at_edge  fn(b, t) -> [(label, names)]             clauses due on an edge
    until    fn(b, t) -> bool                         stop following this path
    excl     pairs of literals that cannot hold together: such a path does not exist
    """

    excl = ()
    deep = False      # also use what flag variables imply

    def __init__(self, f, nr, start=(0, 0), lits=None, events=None, kills=None, resets=None, at=None, at_edge=None,
                 until=None, init=frozenset()):
        flow.Monitor.__init__(self, f, start, frozenset(init))
        self.nr = nr
        self.lits, self.events = lits or {}, events or {}
        self.kills, self.resets = kills, resets or {}
        self.at, self.at_edge, self.until = at, at_edge, until
        self.points = set()
        self._ef = {}
        self._if = {}

    def due(self, st, clauses, inst, key):
        for label, names in clauses:
            self.points.add((key, label))
            if not any((n in st) if isinstance(n, str) else n(self) for n in names):
                self.err(inst, label)

    def step(self, st, i):
        if i.op == 'call' and i.callee in self.nr:
            return None
        if self.at:
            cl = self.at(i)
            if cl:
                self.due(st, cl, i, i.id)
        k = self._if.get(i.id)
        if k is None:
            k = self._if[i.id] = (frozenset(self.kills(i) or ()) if self.kills else frozenset(),
                                  frozenset(n for n, fn in self.events.items() if fn(i)))
        if k[0]:
            st = st - k[0]
        if k[1]:
            st = st | k[1]
        if i.op == 'ret':
            return None
        return st

    def edge(self, st, b, t):
        f = self.f
        k = self._ef.get((b, t))
        if k is None:
            new = set()
            for fa in (sem.deep_facts if self.deep else facts)(f, b, t):
                for n, fn in self.lits.items():
                    if n not in new and fn(*fa):
                        new.add(n)
            k = self._ef[(b, t)] = frozenset(new)
        st = st | k
        if any(x in st and y in st for x, y in self.excl):
            return None
        if self.at_edge:
            cl = self.at_edge(b, t)
            if cl:
                self.due(st, cl, f.blocks[b][-1], (b, t))
        if t in self.resets:
            r = self.resets[t]
            st = frozenset() if r is None else st - r
        if self.until and self.until(b, t):
            return None
        return st


REPORT = ('sourceError', 'rawSourceError', 'errorMessage', 'mathTokenError')


def reported_event(i):
    return i.op == 'call' and i.callee in REPORT


def reported_lit(a, p, c, ao, co):
    """the guard that suppresses all but the first message of a proof: an error was already shown"""
    return a == EC and c == '0' and p in ('ne', 'sgt', 'ugt')


def iteration(f, l):
    """edge predicate: end of one round of loop l (back edge or leaving it)"""
    h, body, lat = l
    return lambda b, t: b in body and (t == h or t not in body)
