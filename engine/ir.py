"""Resolved-program model: loads the JSON that tool/mmexport writes."""
import json


class Inst:
    __slots__ = ('id', 'op', 'ty', 'loc', 'ops', 'callee', 'icallee', 'path', 'pred', 'cases', 'default',
                 'name', 'dty', 'aty', 'sty', 'block', 'func', 'idx', '_expr')

    def __init__(self, d, block, func, idx):
        self.id = d['id']
        self.op = d['op']
        self.ty = d.get('ty')
        self.loc = d.get('loc')
        self.ops = d['ops']
        self.callee = d.get('callee')
        self.icallee = d.get('icallee')
        self.path = d.get('path')
        self.pred = d.get('pred')
        self.cases = d.get('cases')
        self.default = d.get('default')
        self.name = d.get('name')
        self.dty = d.get('dty')
        self.aty = d.get('aty')
        self.sty = d.get('sty')
        self.block = block
        self.func = func
        self.idx = idx
        self._expr = None

    def __repr__(self):
        return '<%s %s#%d %s %s>' % (self.func.name, self.op, self.id, self.callee or '', self.loc and self.loc[:2])

    def is_call(self, *names):
        return self.op == 'call' and (not names or self.callee in names)


# assumption shared by all rules: the developer debug switches are off
DEBUG_SWITCHES = {'db%d' % k for k in range(10)}


class Function:
    def __init__(self, name, d, mod):
        self.name = name
        self.mod = mod
        self.args = d['args']
        self.nargs = len(d['args'])
        self.rettype = d.get('rettype')
        self.file = d.get('file')
        self.line = d.get('line')
        self.vararg = d.get('vararg')
        self.blocks = []
        self.inst = {}
        for bi, bl in enumerate(d['blocks']):
            ins = []
            for k, i in enumerate(bl):
                o = Inst(i, bi, self, k)
                ins.append(o)
                self.inst[o.id] = o
            self.blocks.append(ins)
        self.succ = []
        for b in self.blocks:
            self.succ.append(self._succ(b[-1]))
        for b in range(len(self.blocks)):
            off = self._debug_edge(b)
            if off is not None and len(self.succ[b]) == 2:
                self.succ[b] = [x for x in self.succ[b] if x != off]
        self.pred = [[] for _ in self.blocks]
        for b, ss in enumerate(self.succ):
            for s in ss:
                if b not in self.pred[s]:
                    self.pred[s].append(b)
        self._uses = None
        self._dom = self._pdom = None
        self._loops = None
        self._reach = None

    def _succ(self, t):
        if t.op == 'br':
            r = [o[1] for o in t.ops if o[0] == 'b']
            # conditional br operand order in LLVM is cond, false, true
            if len(r) == 2:
                r = [r[1], r[0]]
            out = []
            for x in r:
                if x not in out:
                    out.append(x)
            return out
        if t.op == 'switch':
            out = [t.default]
            for _, b in t.cases:
                if b not in out:
                    out.append(b)
            return out
        return []

    def _debug_edge(self, b):
        """Target of a branch that is taken only while a developer debug switch
        (db, db0..db9, g_debugFlag-style globals set by SET DEBUG) is on."""
        bt = self.br_targets(self.blocks[b][-1])
        if not bt or bt[0][0] != 'v' or bt[0][1] < self.nargs:
            return None
        c = self.inst[bt[0][1]]
        if c.op != 'icmp' or c.pred not in ('eq', 'ne') or c.ops[1] != ['c', 0]:
            return None
        o = c.ops[0]
        if o[0] != 'v' or o[1] < self.nargs:
            return None
        l = self.inst[o[1]]
        if l.op == 'load' and l.ops[0][0] == 'g' and l.ops[0][1] in DEBUG_SWITCHES:
            return bt[1] if c.pred == 'ne' else bt[2]
        return None

    def br_targets(self, t):
        """(cond operand, true block, false block) of a conditional branch, else None."""
        if t.op == 'br' and len(t.ops) == 3:
            return t.ops[0], t.ops[2][1], t.ops[1][1]
        return None

    def insts(self):
        for b in self.blocks:
            for i in b:
                yield i

    def calls(self, *names):
        for i in self.insts():
            if i.op == 'call' and (not names or i.callee in names):
                yield i

    @property
    def uses(self):
        if self._uses is None:
            u = {}
            for i in self.insts():
                for v in all_values(i):
                    u.setdefault(v, []).append(i)
            self._uses = u
        return self._uses

    # ---- dominators
    def _domtree(self, succ, pred, roots, n):
        order = []
        seen = set()
        for r in roots:
            if r in seen:
                continue
            stack = [(r, iter(succ[r]))]
            seen.add(r)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(succ[s])))
                        break
                else:
                    order.append(b)
                    stack.pop()
        order.reverse()
        num = {b: i for i, b in enumerate(order)}
        idom = {}
        for r in roots:
            idom[r] = r
        changed = True

        def inter(a, b):
            while a != b:
                while num[a] > num[b]:
                    a = idom[a]
                while num[b] > num[a]:
                    b = idom[b]
            return a
        while changed:
            changed = False
            for b in order:
                if b in roots:
                    continue
                new = None
                for p in pred[b]:
                    if p in idom and p in num:
                        new = p if new is None else inter(p, new)
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    changed = True
        return idom, num

    @property
    def idom(self):
        if self._dom is None:
            self._dom, self._rpo = self._domtree(self.succ, self.pred, [0], len(self.blocks))
        return self._dom

    @property
    def ipdom(self):
        """Immediate post-dominators, with a virtual exit (block -1 -> index n)."""
        if self._pdom is None:
            n = len(self.blocks)
            succ = [list(x) for x in self.pred] + [[]]
            pred = [list(x) for x in self.succ] + [[]]
            for b in range(n):
                if not self.succ[b]:
                    succ[n].append(b)
                    pred[b].append(n)
            # blocks in infinite loops: connect nothing (unreachable from exit)
            self._pdom, _ = self._domtree(succ, pred, [n], n + 1)
        return self._pdom

    def dominates(self, a, b):
        idom = self.idom
        while True:
            if a == b:
                return True
            if b not in idom or idom[b] == b:
                return False
            b = idom[b]

    def dom_inst(self, i, j):
        if i.block == j.block:
            return i.idx < j.idx
        return self.dominates(i.block, j.block)

    def control_deps(self):
        """block -> set of (branch block, succ index) it is control dependent on."""
        n = len(self.blocks)
        ip = self.ipdom
        cd = [set() for _ in range(n)]
        for a in range(n):
            if len(self.succ[a]) < 2:
                continue
            stop = ip.get(a)
            for k, s in enumerate(self.succ[a]):
                x = s
                guard = 0
                while x != stop and x is not None and x < n and guard < 10000:
                    cd[x].add((a, s))
                    nx = ip.get(x)
                    if nx == x:
                        break
                    x = nx
                    guard += 1
        return cd

    @property
    def loops(self):
        """list of (header, set(blocks), [latches]) natural loops merged by header."""
        if self._loops is None:
            L = {}
            self.idom
            for b in range(len(self.blocks)):
                for s in self.succ[b]:
                    if b in self.idom and self.dominates(s, b):
                        body = L.setdefault(s, (set([s]), []))
                        body[1].append(b)
                        st = [b]
                        while st:
                            x = st.pop()
                            if x in body[0]:
                                continue
                            body[0].add(x)
                            st.extend(self.pred[x])
            self._loops = [(h, bl[0], bl[1]) for h, bl in L.items()]
        return self._loops

    def reach_from(self, b, stop=()):
        seen = set()
        st = [b]
        while st:
            x = st.pop()
            if x in seen or x in stop:
                continue
            seen.add(x)
            st.extend(self.succ[x])
        return seen

    # ---- value helpers
    def val(self, op):
        """Inst for an operand, or None."""
        if op[0] == 'v':
            return self.inst.get(op[1])
        return None

    def argno(self, op):
        return op[1] if op[0] == 'v' and op[1] < self.nargs else None


def all_values(i):
    """ids of instruction/argument values used by i."""
    out = []

    def w(o):
        if not isinstance(o, list) or not o:
            return
        if o[0] == 'v' and len(o) == 2 and isinstance(o[1], int):
            out.append(o[1])
        elif o[0] == 'e':
            for x in o[1:]:
                if isinstance(x, list):
                    for y in x:
                        w(y)
    if i.op == 'phi':
        for o, b in i.ops:
            w(o)
    else:
        for o in i.ops:
            w(o)
    if i.icallee:
        w(i.icallee)
    if i.path:
        for s in i.path:
            if s[0] in ('i', 'a', '?'):
                w(s[1])
    return out


class Module:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.structs = d['structs']
        self.globals = d['globals']
        self.decls = d['decls']
        self.inlined = d['inlined']
        self.funcs = {n: Function(n, f, self) for n, f in d['funcs'].items()}
        self._callers = None
        self._callees = None

    def __getitem__(self, n):
        return self.funcs[n]

    def fn(self, n):
        return self.funcs.get(n)

    def calls(self, *names):
        for f in self.funcs.values():
            for i in f.calls(*names):
                yield i

    def calls_to(self, name):
        c = self.__dict__.setdefault('_ct', {})
        if name not in c:
            c[name] = list(self.calls(name))
        return c[name]

    @property
    def callees(self):
        if self._callees is None:
            self._callees = {}
            for n, f in self.funcs.items():
                s = set()
                for i in f.insts():
                    if i.op == 'call' and i.callee:
                        s.add(i.callee)
                    # address-taken functions (qsort/bsearch callbacks)
                    for o in i.ops:
                        if isinstance(o, list) and o and o[0] == 'f':
                            s.add(o[1])
                self._callees[n] = s
        return self._callees

    @property
    def callers(self):
        if self._callers is None:
            self._callers = {}
            for n, s in self.callees.items():
                for c in s:
                    self._callers.setdefault(c, set()).add(n)
        return self._callers

    def reach(self, roots, stop=()):
        """functions reachable from roots in the call graph."""
        seen = set()
        st = list(roots)
        while st:
            x = st.pop()
            if x in seen or x in stop:
                continue
            seen.add(x)
            st.extend(self.callees.get(x, ()))
        return seen

    def may_call(self, targets):
        """defined functions from which some target is reachable."""
        targets = set(targets)
        seen = set(targets)
        st = list(targets)
        while st:
            x = st.pop()
            for c in self.callers.get(x, ()):
                if c not in seen:
                    seen.add(c)
                    st.append(c)
        return seen


def loc(i):
    if i is None:
        return '?'
    l = i.loc
    if not l:
        # nearest located instruction in the block
        bl = i.func.blocks[i.block]
        for k in range(i.idx, -1, -1):
            if bl[k].loc:
                l = bl[k].loc
                break
        else:
            for k in range(i.idx, len(bl)):
                if bl[k].loc:
                    l = bl[k].loc
                    break
    if not l:
        return '%s' % i.func.name
    f = l[0]
    if '/src/' in f:
        f = 'src/' + f.split('/src/')[-1]
    elif not f.startswith('src/'):
        f = 'src/' + f.split('/')[-1]
    return '%s:%d (%s)' % (f, l[1], l[2] or i.func.name)


# ------------------------------------------------------------------ expressions
SWAP = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge',
        'uge': 'ule', 'eq': 'eq', 'ne': 'ne'}
NEG = {'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule',
       'ule': 'ugt', 'eq': 'ne', 'ne': 'eq'}


def opexpr(f, o, d=0):
    k = o[0]
    if k == 'c':
        return str(o[1])
    if k == 'n':
        return 'null'
    if k == 's':
        return json.dumps(o[1])
    if k == 'g':
        return '&' + gname(f.mod, o[1])
    if k == 'f':
        return '&' + o[1]
    if k == 'u':
        return 'undef'
    if k == 'd':
        return str(o[1])
    if k == 'e':
        if o[1] == 'gep':
            return gepexpr(f, opexpr(f, o[2], d + 1), o[3], d)
        return '%s(%s)' % (o[1], ','.join(opexpr(f, x, d + 1) for x in o[2]))
    if k == 'v':
        if o[1] < f.nargs:
            return 'arg%d' % o[1]
        return expr(f.inst[o[1]], d + 1)
    return '?'


def gname(mod, n):
    g = mod.globals.get(n)
    if g and g.get('name'):
        return (g['func'] + '.' if g.get('func') else '') + g['name']
    return n


def gepexpr(f, base, path, d):
    s = base
    amp = True
    for st in path:
        if st[0] == 'i':
            if st[1] == ['c', 0]:
                continue
            ix = opexpr(f, st[1], d + 1)
            s = ('%s[%s]' % (s[1:], ix)) if s.startswith('&') and False else '%s[%s]' % (s, ix)
        elif st[0] == 'f':
            s = '%s.%s' % (s, st[3])
        elif st[0] == 'a':
            s = '%s[%s]' % (s, opexpr(f, st[1], d + 1))
        else:
            s = s + '[?]'
    return s


def expr(i, d=0):
    """Readable canonical expression of an instruction (names locals by SSA id)."""
    if i._expr is not None:
        return i._expr
    if d > 12:
        return '...'
    f = i.func
    if i.op == 'load':
        r = 'ld(%s)' % opexpr(f, i.ops[0], d)
    elif i.op == 'getelementptr':
        r = gepexpr(f, opexpr(f, i.ops[0], d), i.path, d)
    elif i.op == 'alloca':
        r = '&%s' % (i.name or ('loc%d' % i.id))
    elif i.op == 'phi':
        r = 'phi%d' % i.id
    elif i.op == 'call':
        r = '%s(%s)#%d' % (i.callee or '*', ','.join(opexpr(f, o, d) for o in i.ops), i.id)
        if d > 3:
            r = '%s()#%d' % (i.callee or '*', i.id)
    elif i.op == 'icmp':
        r = '(%s %s %s)' % (opexpr(f, i.ops[0], d), i.pred, opexpr(f, i.ops[1], d))
    elif i.op in ('zext', 'sext', 'trunc', 'bitcast', 'freeze'):
        r = opexpr(f, i.ops[0], d)
    elif i.op == 'select':
        r = '(%s ? %s : %s)' % tuple(opexpr(f, o, d) for o in i.ops)
    else:
        r = '%s(%s)' % (i.op, ','.join(opexpr(f, o, d) for o in i.ops if o[0] != 'b'))
    if d == 0 or len(r) < 200:
        i._expr = r
    return r
