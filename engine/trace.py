"""Path-by-path abstract interpretation of one routine: whole numbers as linear forms over named unknowns, texts as lists of
pieces.  Branches whose outcome follows from the values (or from an earlier branch of the path) are taken accordingly, all
others both ways; loops inside the walked part are entered once with everything they change unknown."""
import ir
import flow
from ir import loc
from common import *

INF = 1 << 60


class Lin:
    __slots__ = ('c', 't', '_h')

    def __init__(self, c=0, t=()):
        self.c, self.t = c, tuple(sorted(((s, k) for s, k in dict(t).items() if k), key=lambda x: repr(x[0])))
        self._h = hash((c, self.t))

    def __eq__(self, o):
        return isinstance(o, Lin) and self._h == o._h and self.c == o.c and self.t == o.t

    def __hash__(self):
        return self._h

    def __add__(self, o):
        if not isinstance(o, Lin):
            o = Lin(o)
        d = dict(self.t)
        for s, k in o.t:
            d[s] = d.get(s, 0) + k
        return Lin(self.c + o.c, d)

    def scale(self, n):
        return Lin(self.c * n, {s: k * n for s, k in self.t})

    def __sub__(self, o):
        return self + (o if isinstance(o, Lin) else Lin(o)).scale(-1)

    @property
    def const(self):
        return self.c if not self.t else None

    def __repr__(self):
        r = ['%s%s' % ('' if k == 1 else '%d*' % k, name(s)) for s, k in self.t]
        if self.c or not r:
            r.append(str(self.c))
        return ' + '.join(r).replace('+ -', '- ')


def name(s):
    if isinstance(s, tuple):
        if s[0] == 'ld':
            return name(s[1])
        if s[0] == 'gep':
            return '%s[%s]' % (name(s[1]), ']['.join(str(x) for x in s[2]))
        if s[0] in ('a', 'g', 'x'):
            return str(s[-1])
        return '%s(%s)' % (s[0], ','.join(name(x) for x in s[1:]))
    return str(s)


def sym(s):
    return Lin(0, {s: 1})


END = sym('END')


class Str:
    """Text as a sequence of pieces: ('lit', s), ('cut', name, lo, hi) = characters lo..hi-1 counted from 1, hi END = to the
    end, ('sym', name) = all of an unknown text."""
    __slots__ = ('p', '_h')

    def __init__(self, pieces=()):
        out = []
        for x in pieces:
            if x[0] == 'lit' and not x[1]:
                continue
            if x[0] == 'cut' and x[2] == x[3]:
                continue
            if out and out[-1][0] == 'lit' and x[0] == 'lit':
                out[-1] = ('lit', out[-1][1] + x[1])
            elif out and out[-1][0] == 'cut' and x[0] == 'cut' and out[-1][1] == x[1] and out[-1][3] == x[2]:
                out[-1] = ('cut', x[1], out[-1][2], x[3])
            else:
                out.append(x)
        out = [('sym', x[1]) if x[0] == 'cut' and x[2] == Lin(1) and x[3] == END else x for x in out]
        self.p = tuple(out)
        self._h = hash(self.p)

    def __eq__(self, o):
        return isinstance(o, Str) and self.p == o.p

    def __hash__(self):
        return self._h

    def length(self):
        r = Lin(0)
        for x in self.p:
            if x[0] == 'lit':
                r = r + len(x[1].encode('latin-1', 'replace'))
            elif x[0] == 'sym':
                r = r + sym(('len', x[1]))
            elif x[3] == END:
                r = r + sym(('len', x[1])) - x[2] + 1
            else:
                r = r + x[3] - x[2]
        return r

    def cut(self, lo, hi):
        """characters lo..hi-1; None when the pieces do not tell"""
        if len(self.p) == 1 and self.p[0][0] == 'sym':
            return Str([('cut', self.p[0][1], lo, hi)])
        if not self.p:
            return self
        return None

    def __repr__(self):
        r = []
        for x in self.p:
            r.append(repr(x[1]) if x[0] == 'lit' else name(x[1]) if x[0] == 'sym' else '%s<%s..%s>' % (name(x[1]), x[2], x[3]))
        return ' '.join(r) or "''"


def S(n):
    return Str([('sym', n)])


def lit(s):
    return Str([('lit', s)])


def root(k):
    """global or local an address key belongs to"""
    while k[0] in ('gep', 'deref'):
        k = k[1]
        while isinstance(k, Str):
            if len(k.p) != 1 or k.p[0][0] != 'sym':
                return ('?',)
            k = k.p[0][1]
            k = k[1] if k[0] == 'ld' else k
    return k


def modset(m):
    """globals (or what they point to) each function may change, transitively"""
    r = m.__dict__.get('_modset')
    if r is not None:
        return r
    import source
    r = {}
    for n, f in m.funcs.items():
        s = set()
        for i in f.insts():
            if i.op == 'store':
                for b in source.bases(f, i.ops[1]):
                    if b[0] == 'g':
                        s.add(ir.gname(m, b[1]))
                    else:
                        g = load_of_global(f, b)
                        if g:
                            s.add(g)
            elif i.op == 'call':
                for o in i.ops:
                    if isinstance(o, list):
                        for b in source.bases(f, o):
                            if b[0] == 'g' and b[1] in m.globals:
                                s.add(ir.gname(m, b[1]))
        r[n] = s
    ch = True
    while ch:
        ch = False
        for n in r:
            for c in m.callees.get(n, ()):
                if c in r and not r[c] <= r[n]:
                    r[n] |= r[c]
                    ch = True
    m._modset = r
    return r


class State:
    __slots__ = ('env', 'mem', 'rng', 'trail', 'heads', 'epoch')

    def copy(self):
        s = State()
        s.env, s.mem, s.rng = dict(self.env), dict(self.mem), dict(self.rng)
        s.trail, s.heads, s.epoch = list(self.trail), dict(self.heads), self.epoch
        return s


class Walk:
    """stop(i) -> True: paths end before instruction i.  handle(w, st, i, args) -> value or None: models of calls."""

    limit = 20000

    def __init__(self, f, nr, start, stop, handle=None, init=None, rng=None, through=None, once=None, env=None):
        self.f, self.nr, self.stop, self.handle = f, nr, stop, handle
        self.loops = {h: (h, body, lat) for h, body, lat in f.loops}
        self.paths = []
        self.fresh = 0
        self.over = False
        st = State()
        st.env, st.mem, st.rng, st.trail, st.heads, st.epoch = dict(env or {}), dict(init or {}), dict(rng or {}), [], {}, 0
        self.once = once
        self.outer = {h for h, body, lat in f.loops if start[0] in body or through in body}
        work = [(start[0], start[1], st)]
        n = 0
        while work:
            b, k, st = work.pop()
            n += 1
            if n > self.limit:
                self.over = True
                break
            for b2, st2 in self.block(b, k, st):
                work.append((b2, 0, st2))

    # ---- one block
    def block(self, b, k, st):
        f = self.f
        for i in f.blocks[b][k:]:
            if i.op == 'phi':
                continue
            if self.stop(i):
                self.paths.append(('stop', i, st))
                return []
            if i.op == 'ret':
                st.trail.append(('ret', i, self.val(st, i.ops[0]) if i.ops else None))
                self.paths.append(('ret', i, st))
                return []
            if i.op == 'unreachable':
                return []
            if i.op == 'call' and i.callee in self.nr:
                self.paths.append(('dead', i, st))
                return []
            if i.op in ('br', 'switch'):
                break
            self.inst(st, i)
        out = []
        succ = f.succ[b]
        for n, t in enumerate(succ):
            s = st if n == len(succ) - 1 else st.copy()
            if self.assume(s, b, t) and self.enter(s, b, t):
                out.append((t, s))
        return out

    def assume(self, st, b, t):
        for l, p, r in flow.edge_facts(self.f, b, t):
            a, c = self.val(st, l), self.val(st, r)
            if not self.learn(st, a, p, c):
                return False
        return True

    def learn(self, st, a, p, c):
        st.trail.append(('fact', a, p, c))
        if isinstance(a, Lin) and isinstance(c, Lin):
            d = a - c
            k = Lin(0, d.t)
            if d.t and d.t[0][1] < 0:
                k, p, n = k.scale(-1), ir.SWAP[p], d.c
            else:
                n = -d.c
            # k p n
            if p[0] == 'u' and p not in ('ult', 'ule', 'ugt', 'uge'):
                return True
            if p[0] == 'u':
                p = 's' + p[1:]     # sizes and positions are not negative
            lo, hi, ex = st.rng.get(k, (-INF, INF, frozenset())) if k.t else (0, 0, frozenset())
            if p == 'ne':
                ex = ex | {n}
            else:
                r = flow.iv_meet((lo, hi), p, n)
                if r is None:
                    return False
                lo, hi = r
            while lo in ex:
                lo += 1
            while hi in ex:
                hi -= 1
            if lo > hi:
                return False
            if k.t:
                st.rng[k] = (lo, hi, ex)
            return True
        if isinstance(a, Str) and isinstance(c, Lin) or isinstance(c, Str) and isinstance(a, Lin):
            x, y = (a, c) if isinstance(a, Str) else (c, a)
            if y.const == 0 and p in ('eq', 'ne'):
                if any(q[0] == 'lit' or q[0] == 'cut' for q in x.p) or not x.p:
                    return p == 'ne'
                k = ('null', x)
                old = st.rng.get(k)
                if old is not None and old != p:
                    return False
                st.rng[k] = p
        return True

    def enter(self, st, b, t):
        f = self.f
        ph = list(flow.phis(f, t))
        vals = {x.id: self.val(st, flow.phi_in(x, b)) for x in ph}
        lp = self.loops.get(t)
        if t == self.once:
            st.env.update(vals)
            self.paths.append(('round', f.blocks[t][0], st))
            return False
        if lp and t not in self.outer:
            if b in lp[1]:
                # another round only when this one changed something besides the counters
                st.trail.append(('back', t, dict(vals)))
                n = st.heads.get(t, 0)
                same = all(vals[x.id] == st.env.get(x.id) for x in ph if not self.stepping(x, lp))
                if same and not self.again(st, t) or n > 3:
                    self.paths.append(('back' if same else 'lost', f.blocks[t][0], st))
                    return False
                st.heads[t] = n + 1
                st.trail.append(('enter', t, dict(vals)))
            else:
                st.trail.append(('enter', t, dict(vals)))
                st.heads[t] = 1
                self.havoc(st, t, lp, ph, vals)
        st.env.update(vals)
        return True

    def havoc(self, st, t, lp, ph, vals):
        for x in ph:
            v = vals[x.id]
            step = self.stepping(x, lp)
            if not step:
                continue
            self.fresh += 1
            vals[x.id] = sym(('x', self.fresh, 'loop%d' % x.id)) if x.ty != 'ptr' else S(('x', self.fresh, 'loop%d' % x.id))
            st.trail.append(('head', t, x.id, vals[x.id], v))
            if step and isinstance(v, Lin) and isinstance(vals[x.id], Lin):
                self.learn(st, vals[x.id], 'sge' if step > 0 else 'sle', v)
        for bb in lp[1]:
            for i in self.f.blocks[bb]:
                if i.op == 'store':
                    k = self.key(st, i.ops[1], quiet=True)
                    if k is not None and k[0] in ('a', 'g'):
                        st.mem[k] = self.unknown(i, k)

    def again(self, st, t):
        """go round a loop once more with the values of this path"""
        return False

    def stepping(self, x, lp):
        import sem
        ks = {sem.step_of(self.f, o, x.id) for o, b in x.ops if b in lp[1]}
        return ks.pop() if len(ks) == 1 else None

    def unknown(self, i, k):
        self.fresh += 1
        n = ('ld', k, self.fresh)
        ty = i.sty if i.op == 'store' else i.ty
        return S(n) if ty == 'ptr' else sym(n)

    # ---- values
    def val(self, st, o):
        f = self.f
        t = o[0]
        if t == 'c':
            return Lin(o[1])
        if t == 'n':
            return Lin(0)
        if t == 's':
            return lit(o[1])
        if t == 'g':
            return ('A', ('g', ir.gname(f.mod, o[1])))
        if t == 'v':
            if o[1] in st.env:
                return st.env[o[1]]
            if o[1] < f.nargs:
                n = ('arg', o[1])
                return S(n) if f.args[o[1]][2] == 'ptr' else sym(n)
            i = f.inst[o[1]]
            if i.op == 'alloca':
                return ('A', ('a', i.id, i.name))
            if i.op == 'phi' and i.id not in st.env:
                return S(('phi', i.id)) if i.ty == 'ptr' else sym(('phi', i.id))
            if i.op in ('call', 'load'):
                return S(('v', i.id)) if i.ty == 'ptr' else sym(('v', i.id))
            v = self.compute(st, i)
            return v
        if t == 'e' and o[1] == 'gep':
            b = self.val(st, o[2])
            return self.gep(st, b, o[3], None)
        return ('U', repr(o))

    def gep(self, st, b, path, aty):
        idx = []
        if path and len(path) == 1 and str(aty).startswith('%struct'):
            # the first field has the address of the structure
            first = self.first(str(aty))
            if first:
                path = list(path) + [['f', 0, 0, first]]
        for s in path or ():
            if s[0] in ('i', 'a'):
                idx.append(self.val(st, s[1]))
            elif s[0] == 'f':
                idx.append(s[3])
            else:
                return ('U', 'gep')
        if len(idx) == 1 and isinstance(idx[0], Lin):
            if isinstance(b, Str):
                return ('T', b, idx[0]) if idx[0] != Lin(0) else b
            if isinstance(b, tuple) and b[0] == 'T':
                return ('T', b[1], b[2] + idx[0])
        if isinstance(b, tuple) and b[0] == 'A' and all(isinstance(x, Lin) and x == Lin(0) for x in idx):
            return b
        if isinstance(b, (Str,)):
            return ('A', ('gep', b, tuple(idx)))
        if isinstance(b, tuple) and b[0] == 'A':
            return ('A', ('gep', b[1], tuple(idx)))
        return ('U', 'gep')

    def first(self, aty):
        d = self.f.mod.structs.get(aty) or self.f.mod.structs.get(aty.lstrip('%')) or self.f.mod.structs.get(aty.replace('%struct.', ''))
        try:
            return d['fields'][0]['name'] if isinstance(d, dict) else d[0][0] if isinstance(d[0], list) else d[0]
        except (TypeError, KeyError, IndexError):
            return None

    def compute(self, st, i):
        op = i.op
        if op in ('sext', 'zext', 'trunc', 'freeze', 'bitcast'):
            return self.val(st, i.ops[0])
        if op == 'ptrtoint':
            a = self.val(st, i.ops[0])
            if isinstance(a, Str):
                return sym(('addr', a))
            if isinstance(a, tuple) and a[0] == 'T':
                return sym(('addr', a[1])) + a[2]
        if op == 'getelementptr':
            return self.gep(st, self.val(st, i.ops[0]), i.path, i.aty)
        if op in ('add', 'sub', 'mul', 'xor', 'shl'):
            a, c = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            if isinstance(a, Lin) and isinstance(c, Lin):
                if op == 'add':
                    return a + c
                if op == 'sub':
                    return a - c
                if op == 'xor' and c.const == -1:
                    return a.scale(-1) - 1
                if op == 'mul' and c.const is not None:
                    return a.scale(c.const)
                if op == 'shl' and c.const is not None and 0 <= c.const < 32:
                    return a.scale(1 << c.const)
            if op == 'sub' and all(isinstance(x, (Str, tuple)) for x in (a, c)):
                p = [(x, Lin(0)) if isinstance(x, Str) else x[1:] if x[0] == 'T' else (None, None) for x in (a, c)]
                if p[0][0] is not None and p[0][0] == p[1][0]:
                    return p[0][1] - p[1][1]
            return sym((op, a, c))
        if op == 'icmp':
            a, c = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            yes, no = st.copy(), st.copy()
            y, n = self.learn(yes, a, i.pred, c), self.learn(no, a, ir.NEG[i.pred], c)
            if y and not n:
                return Lin(1)
            if n and not y:
                return Lin(0)
            return sym(('icmp', a, i.pred, c))
        if op == 'select':
            c = self.val(st, i.ops[0])
            if isinstance(c, Lin) and c.const is not None:
                return self.val(st, i.ops[1 if c.const else 2])
            return sym(('select', i.id)) if i.ty != 'ptr' else S(('select', i.id))
        return sym((op,) + tuple(self.val(st, o) for o in i.ops if o[0] != 'b')) if i.ty != 'ptr' else S((op, i.id))

    def key(self, st, o, quiet=False):
        v = self.val(st, o)
        if isinstance(v, tuple) and v[0] == 'A':
            return v[1]
        if isinstance(v, Str):
            return ('deref', v)
        if isinstance(v, tuple) and v[0] == 'T':
            return ('char', v[1], v[2])
        return None

    def load(self, st, k, ty, i=None):
        if k in st.mem:
            return st.mem[k]
        if k[0] == 'char':
            return sym(k)
        n = ('ld', k, st.epoch if k[0] != 'a' else 0)
        v = S(n) if ty == 'ptr' else sym(n)
        st.mem[k] = v
        return v

    def store(self, st, k, v, i):
        st.trail.append(('store', k, v, i))
        if k[0] == 'gep':
            for q in list(st.mem):
                if q != k and q[0] == 'gep' and q[1] == k[1] and len(q[2]) == len(k[2]) and self.mayalias(q[2], k[2]):
                    del st.mem[q]
        st.mem[k] = v

    def mayalias(self, a, b):
        for x, y in zip(a, b):
            if isinstance(x, Lin) and isinstance(y, Lin):
                d = (x - y).const
                if d is not None and d != 0:
                    return False
            elif x != y:
                return False
        return True

    def inst(self, st, i):
        if i.op == 'load':
            k = self.key(st, i.ops[0])
            st.env[i.id] = self.load(st, k, i.ty, i) if k is not None else self.unknown(i, ('?',))
        elif i.op == 'store':
            k = self.key(st, i.ops[1])
            v = self.val(st, i.ops[0])
            if k is not None:
                self.store(st, k, v, i)
        elif i.op == 'call':
            args = [self.val(st, o) for o in i.ops]
            st.env[i.id] = self.call(st, i, args)
            st.trail.append(('call', i, args, st.env[i.id]))
        elif i.op == 'alloca':
            pass
        elif i.ty:
            st.env[i.id] = self.compute(st, i)

    def call(self, st, i, a):
        c = i.callee
        if self.handle:
            r = self.handle(self, st, i, a)
            if r is not None:
                return r
        if c == 'let' and len(a) == 2:
            k = a[0][1] if isinstance(a[0], tuple) and a[0][0] == 'A' else None
            if k is not None:
                self.store(st, k, a[1] if isinstance(a[1], Str) else S(('v', i.id)), i)
            return Lin(0)
        if c == 'cat':
            p = []
            for x in a:
                if isinstance(x, Lin) and x.const == 0:
                    return Str(p)
                if not isinstance(x, Str):
                    break
                p += x.p
        if c == 'left' and isinstance(a[0], tuple) and a[0][0] == 'T' and isinstance(a[1], Lin):
            s = a[0][1].cut(a[0][2] + 1, a[0][2] + 1 + a[1])
            if s is not None:
                return s
        if c in ('left', 'right', 'seg', 'mid') and isinstance(a[0], Str):
            s = None
            if c == 'left':
                s = a[0].cut(Lin(1), a[1] + 1)
            elif c == 'right':
                s = a[0].cut(a[1], END)
            elif c == 'seg':
                s = a[0].cut(a[1], a[2] + 1)
            elif c == 'mid':
                s = a[0].cut(a[1], a[1] + a[2])
            if s is not None:
                return s
        if c == 'strlen':
            if isinstance(a[0], Str):
                return a[0].length()
        if c in ('strcmp', 'strncmp') and all(isinstance(x, (Str, Lin)) or x[0] == 'T' for x in a):
            return sym((c,) + tuple(a))
        if c == 'realloc' and isinstance(a[0], Str):
            return a[0]
        # anything else: what it may change is unknown afterwards
        for x in a:
            if isinstance(x, tuple) and x[0] == 'A' and c not in ('strcpy', 'strcat'):
                st.mem.pop(x[1], None)
                self.fresh += 1
                st.mem[x[1]] = None
                del st.mem[x[1]]
                if x[1][0] == 'a':
                    st.mem[x[1]] = self.cellvalue(x[1])
        ms = modset(self.f.mod).get(c)
        if ms is None and c in self.f.mod.decls:
            ms = set()
        for k in list(st.mem):
            r = root(k)
            if r[0] == 'g' and (ms is None or r[1] in ms):
                del st.mem[k]
                st.epoch += 1
        return S(('v', i.id)) if i.ty == 'ptr' else sym(('v', i.id))

    def cellvalue(self, k):
        self.fresh += 1
        i = self.f.inst.get(k[1])
        n = ('ld', k, self.fresh)
        return S(n) if i is not None and 'ptr' in str(i.aty) else sym(n)
