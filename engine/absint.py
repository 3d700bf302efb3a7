"""Abstract interpretation of character-scanning code.

A function that scans a text with finite control is interpreted over a finite abstraction: the control state, the values
that stay finite (flags, modes, characters), and positions relative to the last character looked at.  The text is
left open and chosen character by character, each time the code looks at a new one.  In lockstep a specification automaton
reads the same characters.  The product of both is finite and is explored completely, so the verdict holds for texts of
every length.  Nothing is executed; unknown values make the interpreter follow both branches."""
import collections
import sem
import flow
from ir import loc
from common import *

TOP = ('top', False)
TAINT = ('top', True)      # unknown because of this abstraction (not because the program may really see any value)
NULL = ('null',)
CTYPE = {}


def ctype_bits(ch):
    if ch in CTYPE:
        return CTYPE[ch]
    c = ch & 255
    s = chr(c)
    b = 0
    if c < 128:
        up, lo, dg = 'A' <= s <= 'Z', 'a' <= s <= 'z', '0' <= s <= '9'
        b |= 256 * up | 512 * lo | 1024 * (up or lo) | 2048 * dg
        b |= 4096 * (dg or s in 'abcdefABCDEF')
        b |= 8192 * (s in ' \t\n\v\f\r')
        b |= 16384 * (32 <= c < 127)
        b |= 32768 * (32 < c < 127)
        b |= 1 * (s in ' \t')
        b |= 2 * (c < 32 or c == 127)
        b |= 4 * (32 < c < 127 and not (up or lo or dg))
        b |= 8 * (up or lo or dg)
    if b >= 32768:
        b -= 65536
    CTYPE[ch] = b
    return b


WIDTH = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}


def signed(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if w > 1 and v >> (w - 1) else v


class Overflow(Exception):
    pass


class Spec:
    """Specification automaton.  start: initial state; step(state, ch, pos) -> state, ch = 0 at the end of text.
    error(state): an error message is required for every text with this prefix.  expect(state) -> events emitted by the last
    step.  result(state): for functions that return a position, the required position once known, else None."""
    start = None

    def step(self, s, ch, pos):
        raise NotImplementedError

    def error(self, s):
        return False

    def events(self, s):
        return ()

    def norm(self, s, T):
        return s

    def count(self, s):
        return 0


class Machine:
    def __init__(self, f, nr, spec, alphabet, args, globals_=None, report=(), hook=None, limit=400000, back=1, far=4,
                 ret=None):
        self.f, self.nr, self.spec = f, nr, spec
        self.alphabet = sorted(set(alphabet))
        self.args, self.report, self.hook, self.limit = args, report, hook, limit
        self.globals = globals_ or {}
        self.far, self.ret = far, ret
        self.back = back if any(i.op == 'getelementptr' and any(p[0] in ('i', 'a') and isinstance(p[1], list) and
                                p[1][0] == 'c' and p[1][1] < 0 for p in i.path or ()) and
                                any(u.op == 'load' for u in f.uses.get(i.id, ())) for i in f.insts()) else 0
        self.problems = []       # (kind, inst, text, tainted)
        self.states = 0
        self.tainted = {}
        # values that characters are read through
        self.deref = set()
        todo = [o for i in f.insts() if i.op == 'load' or i.op == 'call' and i.callee in ('strchr', 'strlen')
                for o in i.ops[:1]]
        while todo:
            o = todo.pop()
            v = f.val(o)
            k = o[1] if o[0] == 'v' else None
            if k is None or k in self.deref:
                continue
            self.deref.add(k)
            if v is not None and v.op == 'getelementptr':
                todo.append(v.ops[0])
                todo += [p[1] for p in v.path or () if p[0] in ('i', 'a') and isinstance(p[1], list)]
            elif v is not None and v.op == 'phi':
                todo += [x for x, b in v.ops]
            elif v is not None and v.op in ('sext', 'zext', 'add', 'sub', 'select'):
                todo += v.ops
        self.ends = 0
        self.heads = {l[0] for l in f.loops}
        self._live()
        self._counters()

    # -------------------------------------------------------------- static preparation
    def _live(self):
        f = self.f
        from ir import all_values
        n = len(f.blocks)
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        for b, bl in enumerate(f.blocks):
            for i in bl:
                if i.op != 'phi':
                    for v in all_values(i):
                        if v not in dfn[b]:
                            use[b].add(v)
                dfn[b].add(i.id)
        live = [set() for _ in range(n)]      # live at block start, after phis
        phis = [{i.id for i in bl if i.op == 'phi'} for bl in f.blocks]
        phiuse = [collections.defaultdict(set) for _ in range(n)]
        for b, bl in enumerate(f.blocks):
            for i in bl:
                if i.op == 'phi':
                    for o, p in i.ops:
                        if o[0] == 'v':
                            phiuse[b][p].add(o[1])
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                out = set()
                for s in f.succ[b]:
                    out |= (live[s] - phis[s]) | phiuse[s][b]
                new = use[b] | (out - dfn[b]) | (live[b] & phis[b])
                # phis of this block that are used later stay in the set
                new |= {p for p in phis[b] if p in use[b] or p in out}
                for i in f.blocks[b]:
                    if i.op != 'phi':
                        for v in all_values(i):
                            if v in phis[b]:
                                new.add(v)
                if new != live[b]:
                    live[b] = new
                    ch = True
        self.live = live

    def _counters(self):
        """integer values on an arithmetic cycle through a phi: unbounded, hence unknown unless they are positions"""
        f = self.f
        self.cnt = set()
        for l in f.loops:
            for i in f.blocks[l[0]]:
                if i.op != 'phi' or i.ty not in ('i64', 'i32', 'i16'):
                    continue
                seen = set()
                st = [(o, False) for o, b in i.ops if b in l[1]]
                while st:
                    o, ar = st.pop()
                    v = f.val(o)
                    if v is None:
                        continue
                    if v.id == i.id:
                        if ar:
                            self.cnt.add(i.id)
                        continue
                    if (v.id, ar) in seen:
                        continue
                    seen.add((v.id, ar))
                    if v.op == 'phi':
                        st.extend((x, ar) for x, b in v.ops)
                    elif v.op in ('add', 'sub', 'mul', 'shl'):
                        st.extend((x, True) for x in v.ops)
                    elif v.op in ('select',):
                        st.extend((x, ar) for x in v.ops[1:])
                    elif v.op in ('sext', 'zext', 'trunc', 'freeze'):
                        st.append((v.ops[0], ar))

    # -------------------------------------------------------------- values
    def value(self, env, o):
        k = o[0]
        if k == 'c':
            return o[1]
        if k == 'n':
            return NULL
        if k == 'v':
            return env.get(o[1], TOP)
        if k == 'g':
            return ('g', o[1])
        return TOP

    def width(self, *ops):
        for o in ops:
            v = self.f.val(o)
            if v is not None and v.ty in WIDTH:
                return WIDTH[v.ty]
            if o[0] == 'v' and o[1] < self.f.nargs:
                a = self.f.args[o[1]]
                t = a[0] if isinstance(a, (list, tuple)) else a
                if t in WIDTH:
                    return WIDTH[t]
        return 64

    def compare(self, p, a, b, w):
        """True, False or a top"""
        if isinstance(a, int) and isinstance(b, int):
            if p[0] == 'u':
                a &= (1 << w) - 1
                b &= (1 << w) - 1
            q = p[1:] if p not in ('eq', 'ne') else p
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[q]
        if TOP in (a, b):
            return TOP
        ka, kb = (x[0] if isinstance(x, tuple) else 'i' for x in (a, b))
        q = p[1:] if p not in ('eq', 'ne') else p
        if ka == 'p' and kb == 'p':
            d = a[1] - b[1]
            return {'eq': d == 0, 'ne': d != 0, 'lt': d < 0, 'le': d <= 0, 'gt': d > 0, 'ge': d >= 0}[q]
        if ka in ('p', 'far', 'g') and kb == 'null' or kb in ('p', 'far', 'g') and ka == 'null':
            return {'eq': False, 'ne': True}.get(q, TOP)
        if ka == 'null' and kb == 'null':
            return q in ('eq', 'le', 'ge')
        if ka == 'far' and kb == 'p' and b[1] != 0:
            return {'eq': False, 'ne': True, 'lt': True, 'le': True, 'gt': False, 'ge': False}[q]
        if kb == 'far' and ka == 'p' and a[1] != 0:
            return {'eq': False, 'ne': True, 'lt': False, 'le': False, 'gt': True, 'ge': True}[q]
        if 'far' in (ka, kb) and 'p' in (ka, kb):     # a position well inside the text against its start
            if ka == 'far':
                return {'eq': False, 'ne': True, 'lt': False, 'le': False, 'gt': True, 'ge': True}[q]
            return {'eq': False, 'ne': True, 'lt': True, 'le': True, 'gt': False, 'ge': False}[q]
        if ka == 'r' and kb == 'r':
            return self.compare(p, a[1], b[1], w)
        if 'n' in (ka, kb):
            if ka == kb:
                return self.compare(p, a[1], b[1], w)
            return TOP
        if 'r' in (ka, kb):
            # a position: nonnegative; against a constant it is exact while small
            x, c = (a, b) if ka == 'r' else (b, a)
            if isinstance(c, int):
                q2 = q if ka == 'r' else {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(q, q)
                return self.compare(q2 if q2 in ('eq', 'ne') else 's' + q2, x[1], c, 64)
        return TAINT if TAINT in (a, b) or 'far' in (ka, kb) else TOP

    # -------------------------------------------------------------- exploration
    def explore(self):
        f = self.f
        env = {}
        for k, v in enumerate(self.args):
            env[k] = v
        s0 = dict(env=env, tape=(), T=0, spec=self.spec.start, rep=False, q=(), taint=False, mem=dict(self.globals),
                  text=())
        self.seen = set()
        self.work = collections.deque([(0, 0, None, s0)])
        while self.work:
            b, k, scan, s = self.work.popleft()
            self.run(b, k, scan, s)
        return self

    def fork(self, s):
        n = dict(s)
        n['env'] = dict(s['env'])
        n['mem'] = dict(s['mem'])
        return n

    def need_char(self, s, pos):
        """character at absolute position pos, or None (unknown), or a list of successor states to continue with"""
        T = s['T']
        if pos < T:
            k = pos - (T - len(s['tape']))
            if k >= 0 and pos >= 0:
                return s['tape'][k]
            return None
        if s['tape'] and s['tape'][-1] == 0:
            return 'over'
        out = []
        for c in self.alphabet:
            n = self.fork(s)
            n['tape'] = s['tape'] + (c,)
            n['T'] = T + 1
            n['text'] = s['text'] + (c,)
            sp = self.spec.step(s['spec'], c, T)
            n['spec'] = sp
            if n['q'] is not None:
                if self.spec.error(sp):
                    n['q'] = None
                else:
                    n['q'] = self.match(n, [('s', e) for e in self.spec.events(sp)], None)
                    if n['q'] == 'bad':
                        continue
            out.append(n)
        return out

    def match(self, s, new, inst):
        """queues of unmatched events, one per kind of event"""
        q = list(s['q'])
        for side, e in new:
            k = next((j for j, x in enumerate(q) if x[1][0] == e[0] and x[0] != side), None)
            if k is not None:
                if not self.same(q[k][1], e):
                    self.problem('event', inst, s, '%s, required: %s' % ((e, q[k][1]) if side == 'i' else (q[k][1], e)))
                    return 'bad'
                q.pop(k)
            else:
                q.append((side, e))
        if len(q) > 24:
            self.problem('event', inst, s, 'missing or surplus events %s' % (q[:2],))
            return 'bad'
        return tuple(q)

    def same(self, a, b):
        if len(a) != len(b):
            return False
        return all(x == y or x is None or y is None for x, y in zip(a, b))

    def problem(self, kind, inst, s, msg):
        self.problems.append((kind, inst, s['text'], s['taint'], msg))

    def key(self, b, k, scan, s):
        T = s['T']
        lo = T
        far = self.far
        cnt = self.spec.count(s['spec'])

        def norm(v):
            nonlocal lo
            if isinstance(v, tuple):
                if v[0] in ('p', 'r'):
                    if v[0] == 'p' and v[1] == 0 and T > far:
                        return ('start',), v
                    d = v[1] - T
                    if d < -far or d > far:
                        return (('far',), ('far',)) if v[0] == 'p' else (TAINT, TAINT)
                    return (v[0], d), v
                if v[0] == 'n':
                    d = v[1] - cnt
                    return (('n', d), v) if -3 <= d <= 3 else (TAINT, TAINT)
            return v, v
        env = {}
        kk = []
        cur = None
        ids = self.live[b]
        if k:
            ids = ids | {j.id for j in self.f.blocks[b][:k + 1]}
        for i in sorted(ids):
            if i not in s['env']:
                continue
            nv, v = norm(s['env'][i])
            env[i] = v
            kk.append((i, nv))
            if i in self.deref and isinstance(v, tuple) and v[0] in ('p', 'r') and nv[0] in ('p', 'r') and v[1] >= T - 2:
                cur = v[1] if cur is None else min(cur, v[1])
        if scan is not None:
            cur = scan
        lo = T if cur is None else min(T, cur - self.back)
        keep = max(0, min(len(s['tape']), T - lo))
        s['tape'] = s['tape'][len(s['tape']) - keep:] if keep else ((0,) if s['tape'][-1:] == (0,) else ())
        s['env'] = env
        mem = []
        for g in sorted(s['mem']):
            nv, v = norm(s['mem'][g])
            s['mem'][g] = v
            mem.append((g, nv))
        q = s['q'] if s['q'] is None else tuple((x, self.normev(e, T, cnt)) for x, e in s['q'])
        return (b, k, None if scan is None else scan - T, tuple(kk), tuple(mem), s['tape'],
                self.spec.norm(s['spec'], T), s['rep'], q, s['taint'], min(T, far + 1) if T <= far else None)

    def normev(self, e, T, cnt):
        return tuple((x[0], x[1] - T) if isinstance(x, tuple) and x[0] in ('p', 'r') else
                     (x[0], x[1] - cnt) if isinstance(x, tuple) and x[0] == 'n' else x for x in e)

    def push(self, b, k, scan, s):
        ky = self.key(b, k, scan, s)
        if ky in self.seen:
            return
        self.seen.add(ky)
        self.states += 1
        if self.states > self.limit:
            raise Overflow()
        self.work.append((b, k, scan, s))

    def finish(self, s, inst, value):
        """the function returns"""
        self.ends += 1
        if self.ret:
            self.ret(self, s, inst, value)
            return
        if not (s['tape'] and s['tape'][-1] == 0):
            self.problem('early', inst, s, 'the scan ends before the end of the text')
            return
        e = self.spec.error(s['spec'])
        if e and not s['rep']:
            self.problem('silent', inst, s, str(e))
        elif s['rep'] and not e:
            self.problem('spurious', inst, s, 'an error is reported for a correct text')
        elif s['q']:
            self.problem('event', inst, s, 'missing or surplus event %s' % (s['q'][0],))

    def goto(self, s, b, t):
        """take edge b -> t; returns True when the run continues in place (state mutated)"""
        f = self.f
        env = s['env']
        new = {}
        for i in f.blocks[t]:
            if i.op != 'phi':
                break
            for o, p in i.ops:
                if p == b:
                    v = self.value(env, o)
                    if i.id in self.cnt and isinstance(v, int):
                        v = ('r', v) if s['T'] <= self.far else (v if v == 0 else TAINT)
                    elif i.id in self.cnt and not (isinstance(v, tuple) and v[0] == 'r'):
                        v = TAINT
                    new[i.id] = v
        env.update(new)

    def run(self, b, k, scan, s):
        f = self.f
        while True:
            bl = f.blocks[b]
            while k < len(bl):
                i = bl[k]
                env = s['env']
                if i.op == 'phi':
                    k += 1
                    continue
                if i.op == 'call':
                    r = self.call(b, k, scan, s, i)
                    scan = None
                    if r == 'stop':
                        return
                    if i.id is not None and i.ty not in (None, 'void'):
                        env[i.id] = r
                    k += 1
                    continue
                if i.op == 'ret':
                    self.finish(s, i, self.value(env, i.ops[0]) if i.ops else None)
                    return
                if i.op == 'unreachable':
                    return
                if i.op in ('br', 'switch'):
                    t = self.targets(s, i)
                    if t is None:
                        return
                    outs = []
                    for x, taint in t:
                        n = s if len(t) == 1 else self.fork(s)
                        if taint:
                            n['taint'] = True
                            self.tainted[i.id] = self.tainted.get(i.id, 0) + 1
                        self.goto(n, b, x)
                        outs.append((x, n))
                    if len(outs) == 1 and outs[0][0] not in self.heads:
                        b, k, s = outs[0][0], 0, outs[0][1]
                        break
                    for x, n in outs:
                        self.push(x, 0, None, n)
                    return
                if i.op == 'store':
                    a = i.ops[1]
                    if a[0] == 'g' and a[1] in s['mem']:
                        s['mem'][a[1]] = self.value(env, i.ops[0])
                    if self.hook:
                        e = self.hook(self, s, i)
                        if e and not self.emit(s, i, e):
                            return
                    k += 1
                    continue
                if i.op == 'load':
                    r = self.load(s, i)
                    if isinstance(r, list):
                        for n in r:
                            self.push(b, k, None, n)
                        return
                    if r == 'stop':
                        return
                    env[i.id] = r
                    k += 1
                    continue
                env[i.id] = self.compute(s, i)
                k += 1
            else:
                return

    def emit(self, s, i, e):
        if s['q'] is None:
            return True
        q = self.match(s, [('i', e)], i)
        if q == 'bad':
            return False
        s['q'] = q
        return True

    def targets(self, s, i):
        env = s['env']
        f = self.f
        if i.op == 'switch':
            v = self.value(env, i.ops[0])
            if isinstance(v, int):
                for c, t in i.cases:
                    if c == v:
                        return [(t, False)]
                return [(i.default, False)]
            taint = v == TAINT or (isinstance(v, tuple) and v[0] in ('far', 'r', 'p'))
            return [(t, taint) for t in dict.fromkeys([t for c, t in i.cases] + [i.default])]
        bt = f.br_targets(i)
        if not bt:
            return [(f.succ[i.block][0], False)]
        c, tb, fb = bt
        live = f.succ[i.block]
        v = self.value(env, c)
        if isinstance(v, (bool, int)):
            t = tb if v else fb
            return [(t, False)] if t in live else None
        taint = v == TAINT
        return [(t, taint) for t in dict.fromkeys((tb, fb)) if t in live]

    def load(self, s, i):
        a = self.value(s['env'], i.ops[0])
        if a[0] == 'p':
            r = self.need_char(s, a[1])
            if r == 'over':
                self.problem('over', i, s, 'the scan looks beyond the end of the text')
                return 'stop'
            return TAINT if r is None else r
        if a[0] == 'far' or a == TAINT:
            return TAINT
        if a[0] == 'ct':
            return ('ctab',)
        if a[0] == 'cte':
            return ctype_bits(a[1])
        if a[0] == 'tab':
            t = self.tables.get(a[1])
            if t is not None:
                return t(a[2])
        if a[0] == 'g' and a[1] in s['mem']:
            return s['mem'][a[1]]
        return TOP

    tables = {}

    def compute(self, s, i):
        env = s['env']
        op = i.op
        if op == 'alloca':
            return TOP
        if op == 'getelementptr':
            base = self.value(env, i.ops[0])
            if not isinstance(base, tuple):
                return TOP
            plain = all(p[0] in ('i', 'a') for p in i.path) if i.path else True
            idx = [self.value(env, p[1]) if isinstance(p[1], list) else p[1] for p in (i.path or []) if p[0] in ('i', 'a')]
            if base[0] == 'p' and plain and len(idx) == 1:
                x = idx[0]
                if isinstance(x, int):
                    return ('p', base[1] + x)
                if isinstance(x, tuple) and x[0] == 'r' and base[1] == 0:
                    return ('p', x[1])
                return x if x in (TOP, TAINT) else TAINT
            if base[0] == 'ctab' and len(idx) == 1:
                return ('cte', idx[0]) if isinstance(idx[0], int) else TOP
            if base[0] == 'g' and plain and base[1] in self.tables:
                x = idx[-1] if idx else 0
                if isinstance(x, int):
                    return ('tab', base[1], x)
            if base[0] == 'far' or base == TAINT:
                return TAINT
            return TOP
        if op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
            v = self.value(env, i.ops[0])
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                if op == 'zext':
                    return v & ((1 << self.width(i.ops[0])) - 1)
                if op == 'trunc':
                    return signed(v, WIDTH.get(i.ty, 64))
            return v
        if op == 'icmp':
            a, b = self.value(env, i.ops[0]), self.value(env, i.ops[1])
            return self.compare(i.pred, a, b, self.width(i.ops[0], i.ops[1]))
        if op == 'select':
            c = self.value(env, i.ops[0])
            if isinstance(c, (bool, int)):
                return self.value(env, i.ops[1] if c else i.ops[2])
            a, b = self.value(env, i.ops[1]), self.value(env, i.ops[2])
            return a if a == b else (TAINT if TAINT in (a, b, c) else TOP)
        if op in ('add', 'sub', 'and', 'or', 'xor', 'mul', 'shl', 'sdiv', 'srem', 'udiv', 'urem', 'lshr', 'ashr'):
            a, b = self.value(env, i.ops[0]), self.value(env, i.ops[1])
            a = int(a) if isinstance(a, bool) else a
            b = int(b) if isinstance(b, bool) else b
            w = WIDTH.get(i.ty, 64)
            if isinstance(a, int) and isinstance(b, int):
                try:
                    r = {'add': lambda: a + b, 'sub': lambda: a - b, 'and': lambda: a & b, 'or': lambda: a | b,
                         'xor': lambda: a ^ b, 'mul': lambda: a * b, 'shl': lambda: a << b,
                         'sdiv': lambda: int(a / b), 'srem': lambda: a - int(a / b) * b,
                         'udiv': lambda: (a & (1 << w) - 1) // b, 'urem': lambda: (a & (1 << w) - 1) % b,
                         'lshr': lambda: (a & (1 << w) - 1) >> b, 'ashr': lambda: a >> b}[op]()
                except (ZeroDivisionError, ValueError):
                    return TOP
                return (r & 1) if w == 1 else signed(r, w)
            if op == 'add':
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, tuple) and x[0] in ('r', 'p', 'n') and isinstance(y, int):
                        return (x[0], x[1] + y)
            if op == 'sub':
                if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] and a[0] in ('p', 'r'):
                    if b[1] == 0 and a[0] == 'p':
                        return ('r', a[1])
                    return a[1] - b[1]
                if isinstance(a, tuple) and a[0] in ('r', 'p', 'n') and isinstance(b, int):
                    return (a[0], a[1] - b)
            if op == 'xor' and isinstance(a, int) is False and b in (1, -1) and a in (TOP, TAINT):
                return a
            for x in (a, b):
                if isinstance(x, tuple) and (x == TAINT or x[0] in ('r', 'p', 'far')):
                    return TAINT
            return TOP
        return TOP

    def call(self, b, k, scan, s, i):
        env = s['env']
        if i.callee in self.nr:
            return 'stop'
        if i.callee in self.report:
            s['rep'] = True
        elif i.callee == '__ctype_b_loc':
            return ('ct',)
        elif i.callee in ('strchr', 'strlen', 'strpbrk') and i.ops:
            p = self.value(env, i.ops[0])
            if isinstance(p, tuple) and (p[0] == 'p' or scan is not None) and i.callee != 'strpbrk':
                pos = p[1] if scan is None else scan
                want = 0 if i.callee == 'strlen' else self.value(env, i.ops[1])
                if not isinstance(want, int):
                    return TAINT
                want = signed(want, 8)
                r = self.need_char(s, pos)
                if r == 'over':
                    self.problem('over', i, s, 'the scan looks beyond the end of the text')
                    return 'stop'
                if isinstance(r, list):
                    for n in r:
                        self.push(b, k, pos, n)
                    return 'stop'
                if r is None:
                    return TAINT
                if r == want:
                    if i.callee == 'strlen':
                        if p[0] != 'p':
                            return TAINT
                        return ('r', pos) if p[1] == 0 else (pos - p[1] if pos - p[1] <= self.far else ('r', pos - p[1]))
                    return ('p', pos)
                if r == 0:
                    return NULL
                self.push(b, k, pos + 1, s)
                return 'stop'
            return TAINT
        elif i.callee in ('toupper', 'tolower') and i.ops:
            v = self.value(env, i.ops[0])
            if isinstance(v, int):
                c = chr(v & 255)
                if v < 128 and v >= 0:
                    return ord(c.upper() if i.callee == 'toupper' else c.lower())
                return v
        if self.hook:
            e = self.hook(self, s, i)
            if e and not self.emit(s, i, e):
                return 'stop'
        return TOP


def show(text):
    return ''.join('<end>' if c == 0 else chr(c) if 32 <= c < 127 else {10: '\\n', 9: '\\t'}.get(c, '\\x%02x' % (c & 255))
                   for c in text)


def char_constants(f):
    """characters the code compares against"""
    out = set()
    for i in f.insts():
        if i.op == 'icmp':
            for o in i.ops:
                if o[0] == 'c' and -128 <= o[1] <= 127:
                    out |= {o[1]}
                    if i.pred not in ('eq', 'ne'):
                        out |= {max(-128, o[1] - 1), min(127, o[1] + 1)}
        elif i.op == 'switch':
            for c, t in i.cases:
                if -128 <= c <= 127:
                    out.add(c)
    return out


CLASSES = [0, 9, 10, 32, 1, -1, -128, ord('x'), ord('Z'), ord('7'), ord('%')]
