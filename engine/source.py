"""C23: only SAVE PROOF, SAVE NEW_PROOF and WRITE SOURCE (FORMAT, REWRAP) change the database in memory."""
import ir
import flow
import sem
import paths
import pa
from ir import loc, opexpr
from base import Broken
from common import *

TEXT = ('labelSectionPtr', 'mathSectionPtr', 'proofSectionPtr', 'statementPtr')
# the routines READ consists of; they build the table of statements
READERS = ('initBigArrays', 'parseKeywords', 'parseLabels', 'parseMathDecl', 'parseStatements', 'assignStmtFileAndLineNum',
           'readInput', 'readRawSource', 'readInclude', 'readSourceAndIncludes', 'eraseSource')
REPORTS = ('errorMessage', 'sourceError', 'rawSourceError', 'mathTokenError', 'getFileAndLineNum')


def same(f, a, b, d=0):
    """The two operands are computed in the same way (memory reads are compared by their address)."""
    a, b = flow.strip(f, a), flow.strip(f, b)
    if a == b:
        return True
    if d > 12 or a[0] != b[0]:
        return False
    if a[0] == 'e':
        return a == b
    if a[0] != 'v' or a[1] < f.nargs or b[1] < f.nargs:
        return False
    x, y = f.inst[a[1]], f.inst[b[1]]
    if x.op != y.op or len(x.ops) != len(y.ops):
        return False
    if x.op in ('phi', 'call', 'alloca', 'select'):
        return False
    if x.path != y.path and x.op == 'getelementptr':
        if x.path is None or y.path is None or len(x.path) != len(y.path):
            return False
        for p, q in zip(x.path, y.path):
            if p != q and not (isinstance(p, list) and isinstance(q, list) and len(p) == len(q) and p[0] == q[0] and
                               all(u == v or (isinstance(u, list) and isinstance(v, list) and same(f, u, v, d + 1))
                                   for u, v in zip(p[1:], q[1:]))):
                return False
    if x.pred != y.pred:
        return False
    return all(same(f, u, v, d + 1) for u, v in zip(x.ops, y.ops))


def bases(f, o, seen=None):
    """The pointers an address is computed from (through offsets, phis and selects)."""
    seen = seen if seen is not None else set()
    o = flow.strip(f, o)
    if o[0] == 'v' and o[1] >= f.nargs:
        i = f.inst[o[1]]
        if i.op == 'getelementptr':
            return bases(f, i.ops[0], seen)
        if i.op in ('phi', 'select'):
            if i.id in seen:
                return []
            seen.add(i.id)
            r = []
            for x in ([x for x, b in i.ops] if i.op == 'phi' else i.ops[1:]):
                r += bases(f, x, seen)
            return r
    return [o]


def stmt_field(f, addr):
    """name of the field of a g_Statement[] entry at this address"""
    a = flow.strip(f, addr)
    if not any(load_of_global(f, b) == 'g_Statement' for b in bases(f, a)):
        return None
    return sem.field_addr(f, a)[1] or 'lineNum'


def array_of(f, addr):
    """field of g_Statement[] the addressed array or text belongs to"""
    for b in bases(f, addr):
        v = f.val(b)
        if v is not None and v.op == 'load':
            n = stmt_field(f, v.ops[0])
            if n:
                return n
    return None


class Text:
    """Which pointers point into the text of the database."""

    def __init__(self, f):
        self.f = f
        self.arrays = {}

    def source(self, o, d=0):
        f = self.f
        for b in bases(f, o):
            v = f.val(b)
            if v is None or v.op != 'load':
                continue
            n = stmt_field(f, v.ops[0])
            if n in TEXT:
                return True
            if load_of_global(f, b) == 'g_sourcePtr':
                return True
            e = opexpr(f, v.ops[0])
            if 'g_WrkProof.stepSrcPtrPntr' in e or 'g_WrkProof.tokenSrcPtrPntr' in e:
                return True
            # an element of a local list of pointers
            a = self.array(v.ops[0])
            if a is not None and d < 3 and self.holds(a, d + 1):
                return True
        return False

    def array(self, addr):
        for b in bases(self.f, addr):
            v = self.f.val(b)
            if v is not None and v.op == 'load' and b != flow.strip(self.f, addr):
                a = sem.alloca_of(self.f, v.ops[0])
                if a is not None:
                    return a
        return None

    def holds(self, a, d):
        if a not in self.arrays:
            self.arrays[a] = False
            for i in self.f.insts():
                if i.op == 'store' and i.sty == 'ptr' and self.array(i.ops[1]) == a and self.source(i.ops[0], d):
                    self.arrays[a] = True
                    break
        return self.arrays[a]


def saved_load(f, store):
    """the load whose value is stored back to the place it was read from"""
    for o in sem.leaves(f, store.ops[0]):
        v = f.val(o)
        if v is not None and v.op == 'load' and same(f, v.ops[0], store.ops[1]):
            return v
    return None


class Open(flow.Monitor):
    """From a temporary change on, the original comes back before anything else can see it."""

    def __init__(self, f, nr, s, restores, loads, others, stop):
        k = next(k for k, j in enumerate(f.blocks[s.block]) if j.id == s.id) + 1
        flow.Monitor.__init__(self, f, (s.block, k), 0)
        self.nr, self.s, self.restores, self.loads, self.others, self.stop = nr, s, restores, loads, others, stop
        self.head = redirect_head(f)

    def step(self, st, i):
        if i.op == 'call':
            if i.callee in self.nr:
                return None
            if i.callee in self.stop:
                self.err(i, '%s() is called' % i.callee)
                return None
        elif i.op == 'store':
            if i.id in self.restores:
                return None
            if i.id == self.s.id:
                self.err(i, 'it is made again')
                return None
            if i.id in self.others:
                self.err(i, 'another place is changed')
                return None
        elif i.op == 'load' and i.id in self.loads:
            self.err(i, 'the temporary value is taken for the original')
            return None
        elif i.op == 'ret':
            self.err(i, '%s() returns' % self.f.name)
            return None
        return st

    def edge(self, st, b, t):
        if self.head is not None and t == self.head:
            self.err(self.f.blocks[t][-1], 'the next command is read')
            return None
        return st


def redirect_head(f):
    import redirect
    return redirect.command_loop(f) if f.name == 'command' else None


def equal_before(f, s, const):
    """the place changed by s is known to hold const when s is reached"""
    dead = sem.dead_blocks(f, noreturn(f.mod))
    for b in range(len(f.blocks)):
        for t in f.succ[b]:
            if not f.dominates(t, s.block) or [p for p in f.pred[t] if p not in dead] != [b]:
                continue
            for l, p, r in flow.edge_facts(f, b, t):
                l2 = flow.strip(f, l)
                v = f.val(l2)
                if v is None:
                    continue
                if v.op == 'load' and p == 'eq' and r == const and same(f, v.ops[0], s.ops[1]):
                    return True
                if v.is_call('strcmp') and p == 'eq' and r == ['c', 0]:
                    for x, y in ((0, 1), (1, 0)):
                        w = f.val(flow.strip(f, v.ops[x]))
                        if w is not None and w.op == 'load' and same(f, w.ops[0], s.ops[1]) and v.ops[y][:2] == const[:2]:
                            return True
    return False


def restores_of(f, s, stores):
    """stores that put back what was at the address s changes; and the loads the value was saved by"""
    rs, ls = set(), set()
    for r in stores:
        if r.id == s.id or not same(f, r.ops[1], s.ops[1]):
            continue
        v = saved_load(f, r)
        if v is not None:
            if f.dom_inst(v, s):
                rs.add(r.id)
                ls.add(v.id)
        elif r.ops[0][0] in ('c', 's') and equal_before(f, s, r.ops[0]):
            rs.add(r.id)
    return rs, ls


def check(m, rep):
    nr = noreturn(m)
    need(m, 'command', 'parseProof', 'outputStatement', 'traceUsage')
    rep.rule('text: a byte of the database text is only changed temporarily; the byte saved before is stored back to the same place on every path '
             'before the routine returns, another place is changed or the text is reported')
    rep.rule('statements: outside the routines of READ, a field of a stored statement is only changed by SAVE PROOF / SAVE NEW_PROOF and by '
             'outputStatement(), or temporarily with the value saved before being stored back on every path')
    wr = pa.Writes(m)
    ntext = nfield = 0
    for n, f in sorted(m.funcs.items()):
        if n in READERS:
            continue
        tx = Text(f)
        stores = list(i for i in f.insts() if i.op == 'store')
        text = [i for i in stores if i.sty == 'i8' and not stmt_field(f, i.ops[1]) and tx.source(i.ops[1])]
        temps = [i for i in text if saved_load(f, i) is None]
        for s in temps:
            ntext += 1
            rs, ls = restores_of(f, s, text)
            if not rs:
                rep.violation('text|%s|%s' % (n, opexpr(f, s.ops[1])[:60]), 'C23: %s() changes the database text at %s and never puts the '
                              'original byte back' % (n, loc(s)))
                continue
            mon = Open(f, nr, s, rs, set(), {x.id for x in temps}, REPORTS + ('cmdInput1', 'parseProof', 'verifyProof'))
            for i, p, key in mon.run():
                rep.violation('text|%s|%s' % (n, p), 'C23: %s(): the database text changed at %s is not restored when %s at %s (%s)'
                              % (n, loc(s), p, loc(i), mon.witness(key)))
            rep.count('obligations')
        for i in text:
            if saved_load(f, i) is not None and not any(f.dom_inst(saved_load(f, i), s) and same(f, s.ops[1], i.ops[1]) for s in temps):
                # a byte stored back where it came from changes nothing
                rep.count('neutral')
        fields = [i for i in stores if stmt_field(f, i.ops[1]) or (i.sty != 'i8' and array_of(f, i.ops[1]))]
        if not fields and n != 'command':
            fields = []
        perm = permanent(m, f)
        temps = [i for i in fields if saved_load(f, i) is None]
        rset = set()
        for s in temps:
            rs, ls = restores_of(f, s, fields)
            rset |= rs
        for s in temps:
            if s.id in rset:
                continue
            name = stmt_field(f, s.ops[1]) or array_of(f, s.ops[1])
            nfield += 1
            if perm(s):
                rep.count('saving')
                continue
            rs, ls = restores_of(f, s, fields)
            if not rs:
                rep.violation('field|%s|%s' % (n, name), 'C23: %s() changes the %s of a stored statement at %s and does not put the original '
                              'back' % (n, name, loc(s)))
                continue
            mon = Open(f, nr, s, rs, ls, set(), ('cmdInput1',))
            for i, p, key in mon.run():
                rep.violation('field|%s|%s|%s' % (n, name, p), 'C23: %s(): the %s of a statement changed at %s is not put back when %s at %s (%s)'
                              % (n, name, loc(s), p, loc(i), mon.witness(key)))
            rep.count('obligations')
        for i in f.calls('memcpy', 'memmove', 'memset', 'strcpy', 'strncpy', 'strcat', 'strncat', 'sprintf', 'snprintf'):
            if tx.source(i.ops[0]):
                rep.violation('text|%s|%s' % (n, i.callee), 'C23: %s() changes the database text by %s() at %s' % (n, i.callee, loc(i)))
        # through a routine that writes through its argument
        for i in f.insts():
            if i.op != 'call' or i.callee not in wr.w:
                continue
            for k in wr.w[i.callee]:
                if k < len(i.ops) and not pa.is_addr(f, i.ops[k]) and tx.source(i.ops[k]) and direct(m, i.callee, k):
                    rep.violation('text|%s|%s' % (n, i.callee), 'C23: %s() passes the database text to %s(), which writes to it, at %s'
                                  % (n, i.callee, loc(i)))
                if k < len(i.ops) and pa.is_addr(f, i.ops[k]) and stmt_field(f, i.ops[k]):
                    nfield += 1
                    if not perm(i):
                        rep.violation('field|%s|%s' % (n, stmt_field(f, i.ops[k])), 'C23: %s() changes the %s of a stored statement by %s() at %s'
                                      % (n, stmt_field(f, i.ops[k]), i.callee, loc(i)))
    rep.count('text changes', ntext)
    rep.count('field changes', nfield)
    rep.atleast('text changes', 5)
    rep.atleast('field changes', 12)
    rewrap(m, rep)
    owners(m, rep)


def direct(m, callee, k):
    """the routine stores bytes at its argument k itself"""
    f = m.funcs.get(callee)
    return f is not None and any(i.op == 'store' and i.sty == 'i8' and ['v', k] in bases(f, i.ops[1]) for i in f.insts())


def permanent(m, f):
    if f.name == 'outputStatement':
        return lambda i: True
    if f.name != 'command':
        return lambda i: False
    ents = paths.entry(f, 'SAVE PROOF') + paths.entry(f, 'SAVE NEW_PROOF')

    def ok(i):
        return bool(ents) and not avoids(f, ents, i)
    return ok


def avoids(f, ents, i):
    """i can be reached from the start of a command without passing one of the blocks"""
    h = redirect_head(f)
    seen, st = set(), [h]
    while st:
        b = st.pop()
        if b in seen or b in ents:
            continue
        seen.add(b)
        if b == i.block:
            return True
        st.extend(t for t in f.succ[b] if t != h)
    return False


def rewrap(m, rep):
    """outputStatement() changes the sections only if it is asked to reformat."""
    rep.rule('outputStatement() edits its copies of the sections only if the reformat flag is set')
    f = m.funcs['outputStatement']
    parts = set()
    for i in f.insts():
        if i.op == 'store' and stmt_field(f, i.ops[1]) in TEXT:
            v = f.val(i.ops[0])
            if v is not None and v.op == 'load' and sem.alloca_of(f, v.ops[0]) is not None:
                parts.add(v.ops[0][1])
    n = 0
    guard = set()
    for b in range(len(f.blocks)):
        for t in f.succ[b]:
            for a, p, c, ao, co in sem.facts(f, b, t):
                if ao[0] == 'v' and ao[1] == 1 and co[0] == 'c' and (p == 'sgt' and co[1] >= 0 or p == 'ne' and co[1] == 0 or
                                                                    p == 'sge' and co[1] > 0 or p == 'eq' and co[1] > 0):
                    guard.add((b, t))
    for i in f.calls('let'):
        a = sem.alloca_of(f, i.ops[0])
        if a not in parts:
            continue
        v = f.val(i.ops[1])
        if i.ops[1][0] == 's' and not i.ops[1][1] or v is not None and v.is_call('space'):
            continue
        n += 1
        if reach_avoiding(f, guard, i.block):
            rep.violation('rewrap|%s' % n, 'C23: outputStatement() edits a section at %s although no reformatting was asked for' % loc(i))
    rep.count('obligations', n)


def reach_avoiding(f, edges, target):
    seen, st = set(), [0]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        if b == target:
            return True
        st.extend(t for t in f.succ[b] if (b, t) not in edges)
    return False


# ------------------------------------------------------------------ who owns the text of a section
SECTIONS = ('labelSection', 'mathSection', 'proofSection')


def base_same(f, a, b):
    """two field addresses belong to the same statement"""
    x, y = f.val(flow.strip(f, a)), f.val(flow.strip(f, b))
    if x is None or y is None or x.op != 'getelementptr' or y.op != 'getelementptr':
        return opexpr(f, a).rsplit('.', 1)[0] == opexpr(f, b).rsplit('.', 1)[0]
    return same(f, x.ops[0], y.ops[0]) and opexpr(f, a).rsplit('.', 1)[0] == opexpr(f, b).rsplit('.', 1)[0]


def var_of_value(f, o):
    """string variable whose content the operand is"""
    v = f.val(flow.strip(f, o))
    if v is not None and v.op == 'load':
        a = flow.strip(f, v.ops[0])
        if sem.alloca_of(f, a) is not None or a[0] == 'g':
            return a
    return None


def from_strlen(f, o, var, d=0):
    v = f.val(flow.strip(f, o))
    if v is None or d > 6:
        return False
    if v.is_call('strlen'):
        return var_of_value(f, v.ops[0]) == var
    if v.op in ('add', 'sub', 'phi', 'select'):
        return any(from_strlen(f, x[0] if v.op == 'phi' else x, var, d + 1) for x in v.ops)
    return False


def after_all(f, i, s):
    """every path from s runs i"""
    b, n = s.block, 0
    while b in f.ipdom and n < 100000:
        if b == i.block:
            return True
        if f.ipdom[b] == b:
            return False
        b, n = f.ipdom[b], n + 1
    return False


class Given(flow.Monitor):
    """A string variable whose memory now belongs to a statement is not freed or changed until it was made empty (or the old text is back)."""

    def __init__(self, f, nr, s, var, restores):
        flow.Monitor.__init__(self, f, after(f, s), 0)
        self.nr, self.var, self.restores = nr, var, restores
        self.head = redirect_head(f)

    def step(self, st, i):
        if i.op == 'call':
            if i.callee in self.nr:
                return None
            if i.callee == 'let' and flow.strip(self.f, i.ops[0]) == self.var:
                self.err(i, 'freed or overwritten')
                return None
        elif i.op == 'store':
            if i.id in self.restores or flow.strip(self.f, i.ops[1]) == self.var:
                return None
        return st

    def edge(self, st, b, t):
        return None if self.head is not None and t == self.head and self.var[0] != 'g' else st


class Borrowed(flow.Monitor):
    """A string variable set to point into the database is not freed unless the section was replaced before."""

    def __init__(self, f, nr, s, var):
        flow.Monitor.__init__(self, f, after(f, s), 0)
        self.nr, self.var = nr, var

    def step(self, st, i):
        if i.op == 'call':
            if i.callee in self.nr:
                return None
            if i.callee == 'let' and flow.strip(self.f, i.ops[0]) == self.var:
                self.err(i, 'freed')
                return None
        elif i.op == 'store' and flow.strip(self.f, i.ops[1]) == self.var:
            return None
        return st


def after(f, s):
    return (s.block, next(k for k, j in enumerate(f.blocks[s.block]) if j.id == s.id) + 1)


def known_changed(f, i, field_ptr):
    """i runs only if the section is marked as changed"""
    dead = sem.dead_blocks(f, noreturn(f.mod))
    part = stmt_field(f, field_ptr)[:-3] + 'Changed'
    for b in range(len(f.blocks)):
        for t in f.succ[b]:
            if not f.dominates(t, i.block) or [p for p in f.pred[t] if p not in dead] != [b]:
                continue
            for l, p, r in flow.edge_facts(f, b, t):
                v = f.val(flow.strip(f, l))
                if v is not None and v.op == 'load' and stmt_field(f, v.ops[0]) == part and base_same(f, v.ops[0], field_ptr) and r[0] == 'c' \
                        and (p == 'eq' and r[1] != 0 or p == 'ne' and r[1] == 0 or p == 'sgt' and r[1] >= 0):
                    return True
    return False


def alive(f, nr):
    """blocks that can be reached without passing a call that does not return"""
    dead = sem.dead_blocks(f, nr)
    seen, st = set(), [0]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        if b not in dead:
            st.extend(f.succ[b])
    return seen


def owners(m, rep):
    rep.rule('text of a section is freed only where the section is known to be marked as changed; a replacement is stored together with the length '
             'of that very text and the mark, and the variable it was built in gives it up')
    nr = noreturn(m)
    frees = gives = 0
    for n, f in sorted(m.funcs.items()):
        stores = [i for i in f.insts() if i.op == 'store']
        fields = [i for i in stores if stmt_field(f, i.ops[1])]
        live = alive(f, nr)
        # freed directly
        for i in f.calls('let', 'free'):
            a = i.ops[0]
            v = f.val(flow.strip(f, a))
            if i.callee == 'free':
                a = v.ops[0] if v is not None and v.op == 'load' else None
            if a is None or stmt_field(f, a) not in [s + 'Ptr' for s in SECTIONS]:
                continue
            frees += 1
            if i.block in live and not known_changed(f, i, a):
                rep.violation('free|%s|%s' % (n, stmt_field(f, a)), 'C23: %s() frees the %s of a statement at %s although it may be part of the '
                              'source text' % (n, stmt_field(f, a), loc(i)))
        for s in stores:
            var = flow.strip(f, s.ops[1])
            if sem.alloca_of(f, var) is None and var[0] != 'g':
                continue
            if s.sty != 'ptr':
                continue
            for o in bases(f, s.ops[0]):
                v = f.val(o)
                if v is None or v.op != 'load' or stmt_field(f, v.ops[0]) not in [x + 'Ptr' for x in SECTIONS]:
                    continue
                frees += 1
                if known_changed(f, s, v.ops[0]):
                    continue
                mon = Borrowed(f, nr, s, var)
                for i, p, key in mon.run():
                    rep.violation('free|%s|%s' % (n, stmt_field(f, v.ops[0])), 'C23: %s() makes "%s" point to the %s of a statement at %s, which may be '
                                  'part of the source text, and it is %s at %s (%s)' % (n, opexpr(f, var), stmt_field(f, v.ops[0]), loc(s), p, loc(i),
                                                                                        mon.witness(key)))
        # given to a statement
        for s in fields:
            nm = stmt_field(f, s.ops[1])
            if nm not in [x + 'Ptr' for x in SECTIONS] or saved_load(f, s) is not None:
                continue
            var = var_of_value(f, s.ops[0])
            if var is None:
                continue
            gives += 1
            rs, ls = restores_of(f, s, fields)
            lens = [i for i in fields if stmt_field(f, i.ops[1]) == nm[:-3] + 'Len' and base_same(f, i.ops[1], s.ops[1]) and
                    from_strlen(f, i.ops[0], var) and (f.dominates(i.block, s.block) or after_all(f, i, s))]
            if not lens:
                rep.violation('len|%s|%s' % (n, nm), 'C23: %s() replaces the %s of a statement at %s without storing the length of the new text'
                              % (n, nm, loc(s)))
            marks = [i for i in fields if stmt_field(f, i.ops[1]) == nm[:-3] + 'Changed' and base_same(f, i.ops[1], s.ops[1]) and
                     i.ops[0][0] == 'c' and i.ops[0][1] and (f.dominates(i.block, s.block) or after_all(f, i, s))]
            if not marks and not rs:
                rep.violation('mark|%s|%s' % (n, nm), 'C23: %s() replaces the %s of a statement at %s without marking it as changed' % (n, nm, loc(s)))
            mon = Given(f, nr, s, var, rs)
            for i, p, key in mon.run():
                rep.violation('given|%s|%s' % (n, nm), 'C23: %s(): the text stored as %s at %s is %s at %s while the statement still uses it (%s)'
                              % (n, nm, loc(s), p, loc(i), mon.witness(key)))
            rep.count('obligations', 3)
    rep.count('frees of sections', frees)
    rep.count('replaced sections', gives)
    rep.atleast('replaced sections', 5)
