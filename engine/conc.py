"""Path exploration with a few memory cells and the values computed from them known exactly (constants, strings)."""
import flow
import ir
from files import mods

MEMO = {}


def modsof(m):
    if id(m) not in MEMO:
        MEMO.clear()
        MEMO[id(m)] = mods(m)
    return MEMO[id(m)]


def cell(f, o):
    """the named memory cell an address operand designates (a global or a local variable)"""
    if o[0] == 'g':
        return ir.gname(f.mod, o[1])
    i = f.val(o)
    if i is not None and i.op == 'alloca':
        return 'A%d' % i.id
    return None


def m_array(m, g):
    return str(m.globals[g].get('dtype') or m.globals[g].get('type') or '').find('[') >= 0 if g in m.globals else False


class Conc(flow.Monitor):
    """State: (cells, values, extra).  cells: sorted tuple of (cell, value) for cells with a known value; values: the same for SSA
    values.  A value is an int or ('s', text).  Subclasses implement call(i, value, extra) -> None (path ends) | (known result or None, extra)
    | list of those, ret(i, extra) and store(i, name, extra)."""

    stable = frozenset()        # globals no call changes

    def __init__(self, f, start, cells, watch, nr, extra=()):
        self.nr = nr
        self.watch = set(watch)
        self.M = modsof(f.mod)
        flow.Monitor.__init__(self, f, start, (tuple(sorted(cells.items())), (), extra))
        self.counters = flow.Tracker(f)

    # --- evaluation
    def value(self, st, o, d=0):
        f = self.f
        if o[0] == 'c':
            return o[1]
        if o[0] == 'n':
            return 0
        if o[0] == 's':
            return ('s', o[1])
        if o[0] != 'v' or d > 12:
            return None
        for k, v in st[1]:
            if k == o[1]:
                return v
        if o[1] < f.nargs:
            return None
        i = f.inst[o[1]]
        op = i.op
        if op in ('zext', 'sext', 'freeze', 'trunc', 'bitcast'):
            v = self.value(st, i.ops[0], d + 1)
            if isinstance(v, int) and op == 'zext' and v < 0:
                src = f.val(i.ops[0])
                return 1 if src is not None and src.ty == 'i1' else v & 0xff
            return v
        if op == 'icmp':
            a, b = self.value(st, i.ops[0], d + 1), self.value(st, i.ops[1], d + 1)
            if isinstance(a, int) and isinstance(b, int):
                if i.pred[0] == 'u':
                    a, b = a & ((1 << 64) - 1), b & ((1 << 64) - 1)
                return int({'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b,
                            'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[i.pred])
            if (isinstance(a, tuple) and b == 0 or isinstance(b, tuple) and a == 0) and i.pred in ('eq', 'ne'):
                return int(i.pred == 'ne')
            return None
        if op == 'select':
            c = self.value(st, i.ops[0], d + 1)
            if isinstance(c, int):
                return self.value(st, i.ops[1 if c else 2], d + 1)
            a, b = self.value(st, i.ops[1], d + 1), self.value(st, i.ops[2], d + 1)
            return a if a == b else None
        if op in ('add', 'sub', 'and', 'or', 'xor', 'mul'):
            a, b = self.value(st, i.ops[0], d + 1), self.value(st, i.ops[1], d + 1)
            one = i.ty == 'i1'
            if op == 'and' and (a == 0 or b == 0):
                return 0
            if op == 'or' and one and (a in (1, -1) or b in (1, -1)):
                return 1
            if op == 'or' and (isinstance(a, int) and a or isinstance(b, int) and b) and not (isinstance(a, int) and isinstance(b, int)):
                return None
            if isinstance(a, int) and isinstance(b, int):
                if one:
                    a, b = a & 1, b & 1
                return {'add': a + b, 'sub': a - b, 'and': a & b, 'or': a | b, 'xor': a ^ b, 'mul': a * b}[op]
            return None
        if op == 'getelementptr':
            v = self.value(st, i.ops[0], d + 1)
            if isinstance(v, tuple) and i.path and len(i.path) == 1:
                k = self.value(st, i.path[0][1], d + 1)
                if isinstance(k, int) and 0 <= k <= len(v[1]):
                    return ('s', v[1][k:])
            return None
        return None

    def get(self, st, name):
        for k, v in st[0]:
            if k == name:
                return v
        return None

    def put(self, st, name, v):
        c = tuple(x for x in st[0] if x[0] != name)
        if v is not None:
            c = tuple(sorted(c + ((name, v),)))
        return (c, st[1], st[2])

    def learn(self, st, id_, v):
        s = tuple(x for x in st[1] if x[0] != id_)
        if v is not None:
            s = tuple(sorted(s + ((id_, v),), key=lambda x: x[0]))
        return (st[0], s, st[2])

    # --- hooks
    def call(self, st, i):
        return (None, st[2])

    def ret(self, st, i):
        pass

    def clobbers(self, i, v):
        """does a call with the result v change what it gets the address of, and globals?"""
        return True

    def stored(self, st, i, name):
        return st

    def crossed(self, st, b, t):
        """a state about to take the edge b -> t (feasible); None to stop"""
        return st

    def library(self, st, i):
        a = [self.value(st, o) for o in i.ops[:3]]
        if i.callee in ('strcmp', 'strncmp') and isinstance(a[0], tuple) and isinstance(a[1], tuple):
            x, y = a[0][1], a[1][1]
            if i.callee == 'strncmp':
                if not isinstance(a[2], int):
                    return None
                x, y = x[:a[2]], y[:a[2]]
            return (x > y) - (x < y)
        if i.callee == 'strlen' and isinstance(a[0], tuple):
            return len(a[0][1])
        if i.callee in ('left', 'right') and isinstance(a[0], tuple) and isinstance(a[1], int):
            n = a[1]
            return ('s', a[0][1][:max(n, 0)] if i.callee == 'left' else a[0][1][max(n - 1, 0):])
        if i.callee == 'cat' and len(i.ops) > 1 and i.ops[-1] == ['n']:
            xs = [self.value(st, o) for o in i.ops[:-1]]
            if all(isinstance(x, tuple) for x in xs):
                return ('s', ''.join(x[1] for x in xs))
        return None

    # --- machine
    def step(self, st, i):
        f = self.f
        if i.op == 'load':
            name = cell(f, i.ops[0]) or self.element(st, i.ops[0])
            if name is not None:
                return self.learn(st, i.id, self.get(st, name))
            v = self.value(st, i.ops[0])
            if isinstance(v, tuple) and i.ty == 'i8':
                return self.learn(st, i.id, ord(v[1][0]) if v[1] else 0)
            return self.learn(st, i.id, None)
        if i.op == 'store':
            name = cell(f, i.ops[1])
            if name is None:
                name = self.element(st, i.ops[1])
                if name is None:
                    return self.stored(st, i, self.slot(i.ops[1]))
                st = self.put(st, name, self.value(st, i.ops[0]))
                return self.stored(st, i, name)
            if name in self.watch:
                st = self.put(st, name, self.value(st, i.ops[0]))
            return self.stored(st, i, name)
        if i.op == 'call':
            if i.callee in self.nr:
                return None
            if i.callee.startswith('llvm.'):
                return st
            rs = self.call(st, i)
            if rs is None:
                return None
            out = []
            for v, extra in (rs if isinstance(rs, list) else [rs]):
                s = (st[0], st[1], extra)
                if i.callee == 'let':
                    name = cell(f, i.ops[0])
                    if name in self.watch:
                        s = self.put(s, name, self.value(st, i.ops[1]))
                elif self.clobbers(i, v):
                    for o in i.ops:
                        if isinstance(o, list) and o:
                            name = cell(f, o)
                            if name in self.watch:
                                s = self.put(s, name, None)
                    for g in self.M.get(i.callee, ()):
                        if g in self.watch and g not in self.stable:
                            s = self.put(s, g, None)
                if i.ty and i.ty != 'void':
                    if v is None:
                        v = self.library(st, i)
                    s = self.learn(s, i.id, v)
                out.append(s)
            return out
        if i.op == 'ret':
            self.ret(st, i)
            return None
        return st

    def element(self, st, o):
        """name[k] for an element of a watched array, if the index is known"""
        f = self.f
        i = f.val(o)
        if i is not None and i.op == 'getelementptr' and i.ops[0][0] == 'g':
            name = ir.gname(f.mod, i.ops[0][1])
            if name in self.watch:
                ks = [self.value(st, x[1]) for x in i.path]
                ks = ks[1:] if len(ks) == 2 and ks[0] == 0 else ks
                if len(ks) == 1 and isinstance(ks[0], int):
                    return '%s[%d]' % (name, ks[0])
        if o[0] == 'e' and o[1] == 'gep' and o[2][0] == 'g' and ir.gname(f.mod, o[2][1]) in self.watch:
            ks = [x[1] for x in o[3:] if isinstance(x, list) and x[0] == 'c']
            if ks:
                return '%s[%d]' % (ir.gname(f.mod, o[2][1]), ks[-1])
        if o[0] == 'g' and ir.gname(f.mod, o[1]) in self.watch and m_array(f.mod, ir.gname(f.mod, o[1])):
            return '%s[0]' % ir.gname(f.mod, o[1])
        return None

    def slot(self, o):
        i = self.f.val(o)
        if i is not None and i.op == 'getelementptr':
            return cell(self.f, i.ops[0]) or self.slot(i.ops[0])
        if o[0] == 'e' and o[1] == 'gep' and o[2][0] == 'g':
            return ir.gname(self.f.mod, o[2][1])
        return None

    def emptied(self, st, b, c, truth):
        """a string cell whose first character was found to be the end of the string"""
        f = self.f
        i = f.val(c)
        if i is None or i.op != 'icmp' or i.pred not in ('eq', 'ne') or i.ops[1] != ['c', 0] or (i.pred == 'eq') != truth:
            return st
        x = f.val(flow.strip(f, i.ops[0]))
        if x is None or x.op != 'load' or x.ty != 'i8' or x.block != b:
            return st
        p = f.val(x.ops[0])
        if p is None or p.op != 'load' or p.block != b or any(u.op in ('call', 'store') for u in f.blocks[b][p.idx:]):
            return st
        name = cell(f, p.ops[0])
        return self.put(st, name, ('s', '')) if name in self.watch else st

    def edge(self, st, b, t):
        f = self.f
        term = f.blocks[b][-1]
        bt = f.br_targets(term)
        if bt and bt[1] != bt[2]:
            c = self.value(st, bt[0])
            if isinstance(c, int) and (bt[1] if c else bt[2]) != t:
                return None
            if c is None:
                st = self.emptied(st, b, bt[0], bt[1] == t)
        elif term.op == 'switch':
            v = self.value(st, term.ops[0])
            if isinstance(v, int):
                dest = term.default
                for k, bb in term.cases:
                    if k == v:
                        dest = bb
                if dest != t:
                    return None
        st = self.crossed(st, b, t)
        if st is None:
            return None
        new = []
        for ph in flow.phis(f, t):
            o = flow.phi_in(ph, b)
            v = self.value(st, o) if o is not None and not self.counters.selfdep(ph, o) else None
            new.append((ph.id, v))
        s = dict(st[1])
        for k, v in new:
            s.pop(k, None)
            if v is not None:
                s[k] = v
        lv = flow.relevant(f, t)
        return (st[0], tuple(sorted(((k, v) for k, v in s.items() if k in lv), key=lambda x: x[0])), st[2])
