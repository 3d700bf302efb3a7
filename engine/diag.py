"""C11, C14: READ and VERIFY MARKUP say that no errors were found only when none was reported."""
import ir
import flow
import sem
from ir import loc, opexpr
from base import Broken
from common import *
from oblig import Must
from sem import facts

COUNT = 'g_errorCount'
OUT = ('print2', 'printLongLine', 'printf')


def heads(f, o, d=0):
    """constant beginnings a text operand may have"""
    r = set()
    for x in sem.leaves(f, o):
        if x[0] == 's':
            r.add(x[1])
        else:
            v = f.val(x)
            if v is not None and v.op == 'call' and v.callee == 'cat' and d < 3:
                r |= heads(f, v.ops[0], d + 1)
            elif v is not None and v.op == 'load' and sem.alloca_of(f, v.ops[0]) is not None and d < 3:
                # a text put together in a local string just before
                a = sem.alloca_of(f, v.ops[0])
                best = None
                for j in f.calls('let'):
                    if sem.alloca_of(f, j.ops[0]) == a and f.dom_inst(j, v) and (best is None or f.dom_inst(best, j)):
                        best = j
                if best is not None:
                    r |= heads(f, best.ops[1], d + 1)
    return r


def diagnostics(f, words=('?Warning', '?Error')):
    out = []
    for i in f.calls(*OUT):
        if i.ops and any(s.lstrip('\n ').startswith(words) for s in heads(f, i.ops[0])):
            out.append(i)
    out += f.calls('rawSourceError', 'sourceError', 'errorMessage')
    return out


def ret_track(f):
    tr = flow.Tracker(f)
    r = set()
    for i in f.insts():
        if i.op == 'ret' and i.ops:
            r |= tr.dep_ids(i.ops[0])
    return r


def after(f, i):
    return (i.block, next(k for k, j in enumerate(f.blocks[i.block]) if j.id == i.id) + 1)


def text(f, i):
    for s in heads(f, i.ops[0]):
        return s.strip()[:50]
    return i.callee


# ------------------------------------------------------------------------------- the error counter
def is_incr(f, i):
    v = f.val(flow.strip(f, i.ops[0]))
    return v is not None and v.op == 'add' and v.ops[1][0] == 'c' and v.ops[1][1] > 0 and load_of_global(f, v.ops[0]) == COUNT


class Counted(flow.Monitor):
    """errorMessage() with severity "error": on every way to a return the message is printed and counted once."""

    def __init__(self, f, nr, sev):
        flow.Monitor.__init__(self, f, (0, 0), (0, 0))
        self.nr = nr
        self.fixed = {sev: (2, 2, None)}
        self.rets = 0

    def step(self, st, i):
        f = self.f
        n, pr = st
        if i.op == 'call':
            if i.callee in self.nr:
                return None
            if i.callee in ('print2', 'printLongLine'):
                pr = 1
        elif i.op == 'store' and global_store_name(f, i) == COUNT:
            if is_incr(f, i):
                n = min(n + 1, 2)
            else:
                self.err(i, 'the counter is overwritten')
        elif i.op == 'ret':
            self.rets += 1
            if n != 1:
                self.err(i, 'the error is not counted' if not n else 'the error is counted twice')
            if not pr:
                self.err(i, 'the error is not shown')
            return None
        return (n, pr)


class Calls(flow.Monitor):
    """on every way to a return one of the wanted calls was made"""

    def __init__(self, f, nr, want):
        flow.Monitor.__init__(self, f, (0, 0), 0)
        self.nr, self.want = nr, want

    def step(self, st, i):
        if i.op == 'call':
            if i.callee in self.nr:
                return None
            if self.want(i):
                return 1
        elif i.op == 'ret':
            if not st:
                self.err(i, 'returns without reporting')
            return None
        return st


def check_counter(m, rep):
    rep.rule('errorMessage() with the severity of an error shows the message and adds one to g_errorCount on every path that '
             'returns; sourceError(), rawSourceError() and mathTokenError() reach it with that severity on every path')
    nr = noreturn(m)
    em, se, rse = need(m, 'errorMessage', 'sourceError', 'rawSourceError')
    sev = None
    for k, a in enumerate(em.args):
        if a[2] == 'i8':
            sev = k
    if sev is None:
        return
    mon = Counted(em, nr, sev)
    for i, p, key in mon.run():
        rep.violation('counted|errorMessage|%s' % p, 'C11: errorMessage(): %s on a path returning at %s (%s)' % (p, loc(i), mon.witness(key)))
    rep.count('obligations', mon.rets)

    def error_level(f, i):
        o = flow.strip(f, i.ops[sev]) if len(i.ops) > sev else None
        return o is not None and (o[0] != 'c' or o[1] >= 2)
    chain = {'errorMessage'}
    for n in ('rawSourceError', 'sourceError', 'mathTokenError'):
        f = m.funcs.get(n)
        if f is None:
            continue
        mon = Calls(f, nr, lambda i, f=f: i.callee in ('sourceError', 'rawSourceError') or i.callee == 'errorMessage' and error_level(f, i))
        for i, p, key in mon.run():
            rep.violation('chain|%s' % n, 'C11: %s() returns at %s without an error having been reported (%s)' % (n, loc(i), mon.witness(key)))
        rep.count('obligations')
        chain.add(n)
    # who writes the counter
    rep.rule('g_errorCount is only counted up by errorMessage() and only set back to zero where a command begins, by LET and by ERASE')
    writers = {}
    for n, f in m.funcs.items():
        for i in f.insts():
            if i.op == 'store' and global_store_name(f, i) == COUNT:
                writers.setdefault(n, []).append(i)
                rep.count('obligations')
                if is_incr(f, i):
                    continue
                if i.ops[0] != ['c', 0] and i.ops[0][0] == 'c':
                    rep.violation('set|%s' % n, 'C11: %s() sets the error count to %s at %s' % (n, i.ops[0][1], loc(i)))
    return writers


class NoReset(flow.Monitor):
    """From the start of reading to the verdict, the error count is not set back."""

    def __init__(self, f, nr, start, resets, writers, sink):
        flow.Monitor.__init__(self, f, start, ())
        self.nr, self.resets, self.writers, self.sink = nr, resets, writers, sink
        self.seen_sink = 0

    def step(self, st, i):
        if i.op == 'call':
            if i.callee in self.nr:
                return None
            if i.id in self.sink:
                self.seen_sink += 1
                if st:
                    self.err(i, st)
                return None
            if i.callee in self.resets and i.callee != self.f.name:
                return ('%s() at %s' % (i.callee, loc(i)),)
        elif i.op == 'store' and global_store_name(self.f, i) == COUNT and not is_incr(self.f, i):
            return ('the store at %s' % loc(i),)
        elif i.op == 'ret':
            return None
        return st


def uses_text(f, i, words):
    """the call has an argument that is (or is put together from) a constant beginning with one of the words"""
    if i.callee == 'cat':
        return False
    return any(s.startswith(words) for o in i.ops if o[0] in ('s', 'v') for s in (heads(f, o) if i.callee in OUT or i.callee == 'let' else
                                                                               ({o[1]} if o[0] == 's' else ())))


def check_read(m, rep):
    writers = check_counter(m, rep)
    nr = noreturn(m)
    ri, = need(m, 'readInput')
    # the functions that set the counter back to zero, directly or through calls
    direct = {n for n, l in (writers or {}).items() if n != 'errorMessage' and any(not is_incr(m.funcs[n], i) for i in l)}
    resets = {n for n in m.funcs if n in direct or m.reach([n]) & direct} - {'errorMessage', 'command'}
    bad = m.reach(['readInput', 'verifyProofs']) & direct
    for n in sorted(bad):
        rep.violation('reset|%s' % n, 'C11: the error count is set back in %s(), which is part of reading or verifying a source file' % n)
    rep.rule('from readInput() to the verdict of READ nothing sets g_errorCount back; "No errors were found" is reached only where '
             'g_errorCount is zero after the last call that may report an error and a source was really read')
    maycount = set(m.may_call(['errorMessage'])) | {'errorMessage'}
    n = 0
    for f in m.funcs.values():
        for rc in f.calls('readInput'):
            good = [i for i in f.insts() if i.op == 'call' and (i.callee == 'let' or i.callee in OUT) and uses_text(f, i, ('No errors were found',))
                    and reaches(f, rc, i)]
            counts = [i for i in f.insts() if i.op == 'call' and i.callee in OUT and i.ops and any('error' in s and 'found' in s and not s.startswith('No') for s in heads(f, i.ops[0])) and reaches(f, rc, i)]
            if not good:
                continue
            n += 1
            hdr = command_header(f)
            mon = NoReset(f, nr, after(f, rc), resets, writers, {i.id for i in good + counts})
            if hdr is not None:
                mon.edge = lambda st, b, t: None if t == hdr else st
            for i, p, key in mon.run():
                rep.violation('noreset|%s' % f.name, 'C11: in %s() %s sets the error count back between reading the source and the verdict at %s' % (f.name, p[0], loc(i)))
            rep.count('obligations', len(good) + len(counts))
            mon = Verdict(f, nr, (rc.block, after(f, rc)[1] - 1), maycount, {i.id for i in good}, {i.id for i in counts}, hdr)
            for i, p, key in mon.run():
                if p == 'nozero':
                    rep.violation('verdict|%s' % f.name, 'C11: in %s() "No errors were found" at %s can be reached while errors were counted (%s)' % (f.name, loc(i), mon.witness(key)))
                else:
                    rep.violation('verdict-read|%s' % f.name, 'C11: in %s() the verdict at %s can be reached although no source was read (%s)' % (f.name, loc(i), mon.witness(key)))
            rep.sample('%s:%s' % (f.name, ','.join(str(i.loc[1]) for i in good)))
    if not n:
        raise Broken('the verdict of READ was not found')
    check_source(m, rep)


class Verdict(flow.Monitor):
    """State: reads of the error count since the last call that may report an error, and what the branches said of them."""

    def __init__(self, f, nr, start, maycount, good, counts, hdr):
        flow.Monitor.__init__(self, f, start, frozenset())
        self.nr, self.maycount, self.good, self.counts, self.hdr = nr, maycount, good, counts, hdr

    def step(self, st, i):
        if i.op == 'call':
            if i.callee in self.nr:
                return None
            if i.id in self.good and 'zero' not in st:
                self.err(i, 'nozero')
            if i.id in self.good | self.counts and 'read' not in st:
                self.err(i, 'noread')
            if i.callee == 'readInput':
                return frozenset()
            if i.callee in self.maycount:
                return frozenset(x for x in st if x == 'read')
        elif i.op == 'load':
            g = load_of_global(self.f, ['v', i.id])
            if g in (COUNT, 'g_sourceHasBeenRead'):
                return st | {i.id}
        elif i.op == 'store' and global_store_name(self.f, i) == COUNT:
            return frozenset(x for x in st if x == 'read')
        elif i.op == 'ret':
            return None
        return st

    def edge(self, st, b, t):
        if t == self.hdr:
            return None
        for a, p, c, ao, co in sem.deep_facts(self.f, b, t):
            v = self.f.val(flow.strip(self.f, ao))
            if v is None or v.op != 'load' or v.id not in st:
                continue
            g = load_of_global(self.f, ['v', v.id])
            if g == COUNT and (c == '0' and p in ('eq', 'sle', 'ule') or c == '1' and p in ('slt', 'ult')):
                st = st | {'zero'}
            if g == 'g_sourceHasBeenRead' and (c == '1' and p in ('eq', 'sge') or c == '0' and p in ('ne', 'sgt')):
                st = st | {'read'}
        return st


def reaches(f, a, b):
    return a.block == b.block or b.block in f.reach_from(a.block)


def command_header(f):
    """header of the loop that handles one command per round"""
    if f.name != 'command':
        return None
    import redirect
    try:
        l = redirect.command_loop(f)
        return l[0] if isinstance(l, tuple) else l
    except Exception:
        return None


class ReadPath(flow.Monitor):
    """readInput: source marked as read only when it was there and was put through every stage"""

    STAGES = ('readRawSource', 'parseKeywords', 'parseLabels', 'parseMathDecl', 'parseStatements')

    def __init__(self, f, nr):
        flow.Monitor.__init__(self, f, (0, 0), (0, 0))
        self.nr = nr
        self.n = 0

    def step(self, st, i):
        got, src = st
        if i.op == 'call':
            if i.callee in self.nr:
                return None
            if i.callee == 'readSourceAndIncludes':
                return (0, 1)
            if i.callee in self.STAGES:
                k = self.STAGES.index(i.callee)
                if src != 2:
                    self.err(i, 'stage %s() is run although the source may not have been read' % i.callee)
                if got != k:
                    self.err(i, 'stage %s() is run out of order' % i.callee)
                    return None
                return (k + 1, src)
        elif i.op == 'store' and global_store_name(self.f, i) == 'g_sourceHasBeenRead' and i.ops[0] != ['c', 0]:
            self.n += 1
            if src != 2:
                self.err(i, 'the source is marked as read although it may not have been')
            elif got != len(self.STAGES):
                self.err(i, 'the source is marked as read before %s()' % self.STAGES[got])
        elif i.op == 'ret':
            return None
        return st

    def edge(self, st, b, t):
        got, src = st
        if src == 1:
            for a, p, c, ao, co in facts(self.f, b, t):
                if c in ('0', 'null') and (a == 'ld(&g_sourcePtr)' or a.startswith('readSourceAndIncludes(')):
                    if p == 'ne':
                        return (got, 2)
                    if p == 'eq':
                        return (got, 3)
        return st


class Flagged(flow.Monitor):
    """A file that is not there, or a message about an inclusion, raises the error flag on the way to the return.
    State: (pending cause, flag raised)."""

    def __init__(self, f, nr, diags, isflag, local, argk=None):
        flow.Monitor.__init__(self, f, (0, 0), (None, 0))
        self.nr, self.diags, self.isflag, self.local, self.argk = nr, diags, isflag, local, argk
        self.track = ret_track(f)
        self.points = set()

    def step(self, st, i):
        f = self.f
        pend, up = st
        if i.op == 'call':
            if i.callee in self.nr:
                return None
            if i.id in self.diags:
                self.points.add(i.id)
                if not up:
                    pend = ('message', i.id)
            elif i.callee == 'readInclude' and self.local is not None:
                if any(sem.alloca_of(f, o) == self.local for o in i.ops):
                    return [(pend, up), (None, 1)]
                self.err(i, 'readInclude() is not given the error flag')
            elif i.callee == 'readInclude' and self.argk is not None:
                if not any(self.isflag(o) for o in i.ops):
                    self.err(i, 'the nested readInclude() is not given the error flag')
        elif i.op == 'store' and self.isflag(i.ops[1]):
            if i.ops[0] == ['c', 0]:
                if up or pend:
                    self.err(i, 'the error flag is cleared after an error')
                return (pend, 0)
            return (None, 1)
        elif i.op == 'ret':
            if pend:
                self.err(i, (pend[0], pend[1]))
            elif self.local is not None and up:
                v = self.fact(i.ops[0]) if i.ops else flow.TOP
                if not (v[0] == v[1] == 0):
                    self.err(i, 'an incomplete source is returned although the error flag is raised')
            return None
        return (pend, up)

    def edge(self, st, b, t):
        f = self.f
        pend, up = st
        for a, p, c, ao, co in facts(f, b, t):
            if c in ('0', 'null') and p == 'eq':
                v = f.val(ao)
                if v is not None and v.is_call('readFileToString') or self.holds_file(ao):
                    if not up:
                        pend = ('missing file', f.blocks[b][-1].id)
            if self.local is not None:
                v = f.val(ao)
                if v is not None and v.op == 'load' and sem.alloca_of(f, v.ops[0]) == self.local and co[0] == 'c':
                    val = (1, 1) if up else (0, 0)
                    if flow.iv_meet(val, p, co[1]) is None:
                        return None
        return (pend, up)

    def holds_file(self, o):
        f = self.f
        v = f.val(o)
        if v is None or v.op != 'load':
            return False
        a = sem.alloca_of(f, v.ops[0])
        if a is None:
            return False
        # the last store before the load in dominance order
        best = None
        for j in f.insts():
            if j.op == 'store' and sem.alloca_of(f, j.ops[1]) == a and f.dom_inst(j, v) and (best is None or f.dom_inst(best, j)):
                best = j
        if best is None:
            return False
        w = f.val(flow.strip(f, best.ops[0]))
        return w is not None and w.is_call('readFileToString')


def check_source(m, rep):
    nr = noreturn(m)
    ri, rs, rinc = need(m, 'readInput', 'readSourceAndIncludes', 'readInclude')
    rep.rule('readInput() marks the source as read only when readSourceAndIncludes() delivered it and all stages of the parser ran')
    mon = ReadPath(ri, nr)
    for i, p, key in mon.run():
        rep.violation('stages|%s' % p, 'C11: readInput(): %s at %s (%s)' % (p, loc(i), mon.witness(key)))
    rep.count('obligations', 1 + len(ReadPath.STAGES))
    rep.rule('a missing include file or a message about an inclusion raises the error flag, the nested calls pass it on, and a raised '
             'flag makes readSourceAndIncludes() return nothing')
    flagarg = None
    for k in range(rinc.nargs):
        for i in rinc.insts():
            if i.op == 'store' and i.ops[1] == ['v', k] and i.ops[0][0] == 'c' and rinc.args[k][2] == 'ptr':
                if i.ops[0] == ['c', 1]:
                    flagarg = k
    if flagarg is None:
        for k, a in enumerate(rinc.args):
            if 'err' in str(a[0]).lower():
                flagarg = k
    if flagarg is not None:
        d = {i.id for i in diagnostics(rinc, ('?Error',))}
        mon = Flagged(rinc, nr, d, lambda o: o == ['v', flagarg], None, flagarg)
        for i, p, key in mon.run():
            flag_violation(rep, rinc, i, p, mon, key)
        rep.count('obligations', len(d) + 2)
        loc_ = None
        for i in rs.calls('readInclude'):
            if len(i.ops) > flagarg:
                loc_ = sem.alloca_of(rs, i.ops[flagarg])
        if loc_ is not None:
            d = {i.id for i in diagnostics(rs, ('?Error',))}
            mon = Flagged(rs, nr, d, lambda o: sem.alloca_of(rs, o) == loc_, loc_)
            for i, p, key in mon.run():
                flag_violation(rep, rs, i, p, mon, key)
            rep.count('obligations', len(d) + 2)


def flag_violation(rep, f, i, p, mon, key):
    if isinstance(p, tuple):
        j = f.inst[p[1]]
        rep.violation('flag|%s|%s' % (f.name, p[0]), 'C11: %s(): the %s at %s does not raise the error flag before the return at %s (%s)'
                      % (f.name, p[0], loc(j), loc(i), mon.witness(key)))
    else:
        rep.violation('flag|%s|%s' % (f.name, p), 'C11: %s(): %s at %s (%s)' % (f.name, p, loc(i), mon.witness(key)))


# ------------------------------------------------------------------------------- VERIFY MARKUP
def ret_consts(f):
    """the constants a function may return, None if something else"""
    r = set()
    for i in f.insts():
        if i.op == 'ret' and i.ops:
            for o in sem.leaves(f, i.ops[0]):
                if o[0] != 'c':
                    return None
                r.add(o[1])
    return r


class Silent(flow.Monitor):
    """The success message is not reachable."""

    def __init__(self, f, nr, start, sinks, assume=None, ranges=None):
        flow.Monitor.__init__(self, f, start, 0)
        self.nr, self.sinks = nr, sinks
        self.assume, self.ranges = assume, ranges
        self.hit = False

    def step(self, st, i):
        if i.op == 'call':
            if i.callee in self.nr:
                return None
            if i.id in self.sinks:
                self.err(i, 'sink')
                return None
        elif i.op == 'ret':
            return None
        return st


class Returns(flow.Monitor):
    """After a diagnostic the function returns nonzero (or the string constant that means failure)."""

    def __init__(self, f, nr, start, assume=None):
        flow.Monitor.__init__(self, f, start, 0)
        self.nr, self.assume = nr, assume
        self.track = ret_track(f)

    def step(self, st, i):
        if i.op == 'call':
            if i.callee in self.nr:
                return None
        elif i.op == 'ret':
            v = self.fact(i.ops[0])
            if not (v[0] > 0 or v[1] < 0 or v[2] == 0):
                self.err(i, 'zero')
            return None
        return st


class Fails(flow.Monitor):
    """After a diagnostic, the string returned is the failure constant.  State: constant last given to the result."""

    def __init__(self, f, nr, start, res):
        flow.Monitor.__init__(self, f, start, None)
        self.nr, self.res = nr, res

    def step(self, st, i):
        f = self.f
        if i.op == 'call':
            if i.callee in self.nr:
                return None
            if i.callee == 'let' and sem.alloca_of(f, i.ops[0]) == self.res:
                return i.ops[1][1] if i.ops[1][0] == 's' else '?'
        elif i.op == 'ret':
            if st != 'F':
                self.err(i, st)
            return None
        return st


class Looked(flow.Monitor):
    """From the call that returns "F"/"P", the result is looked at before the variable holding it is given up."""

    def __init__(self, f, nr, start, var, tests):
        flow.Monitor.__init__(self, f, start, 0)
        self.nr, self.var, self.tests = nr, var, tests
        self.found = set()

    def step(self, st, i):
        f = self.f
        if i.id in self.tests:
            self.found.add(i.id)
            return None
        if i.op == 'call':
            if i.callee in self.nr:
                return None
            if any(sem.alloca_of(f, o) == self.var for o in i.ops):
                self.err(i, 'ignored')
                return None
        elif i.op == 'store' and sem.alloca_of(f, i.ops[1]) == self.var or i.op == 'ret':
            self.err(i, 'ignored')
            return None
        return st


def tests_of(f, var, call):
    """instructions that decide whether the string in var is "F" -> the outcome when it is"""
    r = {}
    for i in f.insts():
        if i.op == 'load' and i.ty == 'i8':
            v = f.val(i.ops[0])
            if v is not None and v.op == 'getelementptr' and all(p[1] == ['c', 0] for p in v.path):
                v = f.val(v.ops[0])
            if v is not None and (v.id == call or v.op == 'load' and sem.alloca_of(f, v.ops[0]) == var):
                r[i.id] = (70, 70, None)
        elif i.op == 'call' and i.callee == 'strcmp' and any(o[0] == 's' and o[1] == 'F' for o in i.ops):
            for o in i.ops:
                v = f.val(o)
                if v is not None and (v.id == call or v.op == 'load' and sem.alloca_of(f, v.ops[0]) == var):
                    r[i.id] = (0, 0, None)
    return r


def value_range(f, o, ranges, seen=()):
    o = flow.strip(f, o)
    if o[0] == 'c':
        return (o[1], o[1])
    if o[0] != 'v' or o[1] < f.nargs or o[1] in seen or len(seen) > 30:
        return None
    if o[1] in ranges:
        return ranges[o[1]][:2]
    i = f.inst[o[1]]
    if i.op in ('trunc', 'phi', 'select'):
        ops = [x for x, b in i.ops] if i.op == 'phi' else (i.ops[1:] if i.op == 'select' else i.ops)
        r = None
        for x in ops:
            v = value_range(f, x, ranges, seen + (o[1],))
            if v is None:
                return None
            r = v if r is None else (min(r[0], v[0]), max(r[1], v[1]))
        return r
    if i.op in ('add', 'or'):
        a = [value_range(f, x, ranges, seen + (o[1],)) for x in i.ops]
        if None in a or i.op == 'or' and (a[0][0] < 0 or a[1][0] < 0):
            return None
        if i.op == 'or':
            return (0, a[0][1] + a[1][1])
        return (a[0][0] + a[1][0], a[0][1] + a[1][1])
    return None


SUBS = ('readTexDefs', 'getSectionHeadings', 'writeBibliography', 'printTexComment')


def nonneg(f, o, ranges, assumed):
    """never negative: made of such constants, results and sums (by induction around loops)"""
    o = flow.strip(f, o)
    if o[0] == 'c':
        return o[1] >= 0
    if o[0] != 'v' or o[1] < f.nargs:
        return False
    if o[1] in assumed:
        return True
    if o[1] in ranges:
        return ranges[o[1]][0] >= 0
    i = f.inst[o[1]]
    if i.op in ('phi', 'select', 'add', 'or', 'trunc'):
        assumed.add(o[1])
        ops = [x for x, b in i.ops] if i.op == 'phi' else (i.ops[1:] if i.op == 'select' else i.ops)
        return all(nonneg(f, x, ranges, assumed) for x in ops)
    return False


def result_ranges(m, vm, subs):
    """ranges of the results of the sub-checks and of the variables they are collected in"""
    ranges = {}
    for i in vm.calls(*subs):
        rs = ret_consts(m.funcs[i.callee])
        if rs:
            ranges[i.id] = (min(rs), max(rs), None)
    for i in vm.insts():
        if i.op == 'phi' and i.ty in ('i8', 'i16', 'i32', 'i64'):
            v = value_range(vm, ['v', i.id], ranges)
            if v is not None and v[0] >= 0:
                ranges[i.id] = (v[0], v[1], None)
            elif v is None and nonneg(vm, ['v', i.id], ranges, set()):
                ranges[i.id] = (0, flow.INF, None)
    return ranges


def check_markup(m, rep):
    nr = noreturn(m)
    vm, = need(m, 'verifyMarkup')
    sinks = {i.id for i in vm.insts() if i.op == 'call' and i.callee in OUT and uses_text(vm, i, ('No errors were found',))}
    if not sinks:
        raise Broken('the verdict of VERIFY MARKUP was not found')
    rep.rule('after each diagnostic of verifyMarkup() (message beginning "?Warning"/"?Error") its "No errors were found" is unreachable')
    ds = [i for i in diagnostics(vm) if i.id not in sinks]
    ranges = result_ranges(m, vm, [x for x in SUBS if x in m.funcs])
    for i in ds:
        mon = Silent(vm, nr, after(vm, i), sinks, None, ranges)
        rep.count('obligations')
        for j, p, key in mon.run():
            rep.violation('verdict|%s' % text(vm, i), 'C14: verifyMarkup() can print "No errors were found" at %s after the message at %s (%s)'
                          % (loc(j), loc(i), mon.witness(key)))
    rep.count('diagnostics', len(ds))
    # sub-checkers
    subs = []
    for n in SUBS:
        if n in m.funcs:
            subs.append(n)
    rep.rule('readTexDefs(), getSectionHeadings(), writeBibliography(), printTexComment() return nonzero and getContrib() returns "F" '
             'after each of their diagnostics, and verifyMarkup() takes every such result into account')
    wflags = warned_flags(m, nr)
    if not wflags and silent_about(m):
        rep.violation('warned|tokenToTex', 'C14: nothing tells printTexComment() that tokenToTex() has given a warning (%s), so the comment counts as correct' % loc(silent_about(m)))
    for n in subs:
        f = m.funcs[n]
        for i in diagnostics(f):
            rep.count('obligations')
            rep.count('diagnostics')
            mon = Returns(f, nr, after(f, i))
            for j, p, key in mon.run():
                rep.violation('result|%s|%s' % (n, text(f, i)), 'C14: %s() can return 0 at %s after the message at %s (%s)'
                              % (n, loc(j), loc(i), mon.witness(key)))
        # nested sub-checkers: their nonzero result is passed on
        for i in f.calls(*[x for x in subs if x != n]):
            if n == 'printTexComment':
                continue
            rs = ret_consts(m.funcs[i.callee])
            for v in sorted({max(rs)} if rs else {1}):
                # a warning about the definitions has been given to verifyMarkup() itself; a severe error is met again
                rep.count('obligations')
                mon = Returns(f, nr, after(f, i), {i.id: (v, v, None)})
                for j, p, key in mon.run():
                    rep.violation('nested|%s|%s|%d' % (n, i.callee, v), 'C14: %s() can return 0 at %s although %s() returned %d at %s (%s)'
                                  % (n, loc(j), i.callee, v, loc(i), mon.witness(key)))
        for w, fns in wflags.items():
            for i in f.calls(*fns):
                if n != 'printTexComment':
                    continue
                rep.count('obligations')
                mon = Warned(f, nr, after(f, i), w)
                for j, p, key in mon.run():
                    rep.violation('warned|%s' % n, 'C14: %s() can return 0 at %s although %s() gave a warning at %s (%s)'
                                  % (n, loc(j), i.callee, loc(i), mon.witness(key)))
    for i in vm.calls(*subs):
        rs = ret_consts(m.funcs[i.callee]) or {1}
        for v in sorted(x for x in rs if x):
            rep.count('obligations')
            mon = Silent(vm, nr, after(vm, i), sinks, {i.id: (v, v, None)}, ranges)
            for j, p, key in mon.run():
                rep.violation('used|%s|%d' % (i.callee, v), 'C14: verifyMarkup() can print "No errors were found" at %s although %s() returned %d at %s (%s)'
                              % (loc(j), i.callee, v, loc(i), mon.witness(key)))
    rep.count('subchecks', len(list(vm.calls(*subs))))
    contrib(m, rep, nr, vm, sinks, ranges)
    reserved(m, rep, nr, vm)
    fresh(m, rep, nr, vm)


def contrib(m, rep, nr, vm, sinks, ranges):
    gc = m.funcs.get('getContrib')
    if gc is None:
        return
    import verify
    res = verify.ret_alloca(gc)
    if res is not None:
        for i in diagnostics(gc):
            rep.count('obligations')
            rep.count('diagnostics')
            mon = Fails(gc, nr, after(gc, i), res)
            for j, p, key in mon.run():
                rep.violation('contrib|%s' % i.loc[1], 'C14: getContrib() can return %r at %s after the message at %s (%s)' % (p, loc(j), loc(i), mon.witness(key)))
    # the call that prints (argument value taken from the mode getContrib compares before its messages)
    modes = print_modes(gc)
    for i in vm.calls('getContrib'):
        if len(i.ops) > 1 and i.ops[1][0] == 'c' and i.ops[1][1] in modes:
            var = None
            for j in vm.uses.get(i.id, ()):
                if j.op == 'store' and flow.strip(vm, j.ops[0]) == ['v', i.id]:
                    var = sem.alloca_of(vm, j.ops[1])
            if var is None:
                continue
            rep.count('obligations')
            b, k = after(vm, i)
            # start behind the store of the result
            while vm.blocks[b][k - 1].op != 'store' and k < len(vm.blocks[b]):
                k += 1
            tests = tests_of(vm, var, i.id)
            lk = Looked(vm, nr, (b, k), var, tests)
            for j, p, key in lk.run():
                rep.violation('used|getContrib', 'C14: verifyMarkup() does not look at the result of getContrib() at %s before %s (%s)' % (loc(i), loc(j), lk.witness(key)))
            for t in sorted(lk.found):
                mon = Silent(vm, nr, after(vm, vm.inst[t]), sinks, {t: tests[t]}, ranges)
                for j, p, key in mon.run():
                    rep.violation('used|getContrib', 'C14: verifyMarkup() can print "No errors were found" at %s although getContrib() reported an error at %s (%s)'
                                  % (loc(j), loc(i), mon.witness(key)))


def print_modes(gc):
    """values of the mode argument for which getContrib() gives messages"""
    r = set()
    for i in diagnostics(gc):
        b = i.block
        while b in gc.idom and gc.idom[b] != b:
            if len(gc.pred[b]) == 1:
                for a, p, c, ao, co in sem.deep_facts(gc, gc.pred[b][0], b):
                    if ao == ['v', 1] and p == 'eq' and co[0] == 'c':
                        r.add(co[1])
            b = gc.idom[b]
    if not r:
        # a flag variable: constants the mode is compared with where it is set
        for b in range(len(gc.blocks)):
            for t in gc.succ[b]:
                for a, p, c, ao, co in facts(gc, b, t):
                    if ao == ['v', 1] and p == 'eq' and co[0] == 'c':
                        r.add(co[1])
        prints = {10}
        r = r & prints or r
    return r


class Warned(flow.Monitor):
    """State 1 until the warned flag is looked at."""

    def __init__(self, f, nr, start, w):
        flow.Monitor.__init__(self, f, start, 1)
        self.nr, self.w = nr, w
        self.track = ret_track(f)

    def step(self, st, i):
        if i.op == 'call' and i.callee in self.nr:
            return None
        if i.op == 'store' and global_store_name(self.f, i) == self.w and st == 1:
            self.err(i, 'cleared')
        if i.op == 'ret':
            v = self.fact(i.ops[0])
            if not (v[0] > 0 or v[1] < 0 or v[2] == 0):
                self.err(i, 'zero')
            return None
        return st

    def edge(self, st, b, t):
        if st == 1:
            for a, p, c, ao, co in facts(self.f, b, t):
                if a == 'ld(&%s)' % self.w and c == '0':
                    return None if p == 'eq' else 2
        return st


def silent_about(m):
    """a diagnostic of tokenToTex() on whose paths nothing is stored that outlives the call, though printTexComment() runs it"""
    f = m.funcs.get('tokenToTex')
    pc = m.funcs.get('printTexComment')
    if f is None or pc is None or 'tokenToTex' not in m.reach(['printTexComment']):
        return None
    ds = diagnostics(f)
    for i in f.insts():
        if i.op == 'store' and not (global_store_name(f, i) and 'utput' in global_store_name(f, i)) and sem.alloca_of(f, i.ops[1]) is None and \
                any(d.block in f.reach_from(i.block) or i.block in f.reach_from(d.block) for d in ds):
            return None
    return ds[0] if ds else None


def warned_flags(m, nr):
    """{global raised by tokenToTex() together with its warnings: functions through which printTexComment() runs it}"""
    f = m.funcs.get('tokenToTex')
    pc = m.funcs.get('printTexComment')
    if f is None or pc is None:
        return {}
    ds = diagnostics(f)
    out = {}
    for i in f.insts():
        if i.op == 'store' and i.ops[0][0] == 'c' and i.ops[0][1] != 0 and global_store_name(f, i) and 'utput' not in global_store_name(f, i):
            if any(f.dom_inst(i, d) or f.dom_inst(d, i) for d in ds):
                fns = [n for n in {c.callee for c in pc.calls()} if n in m.funcs and n != 'printTexComment' and
                       'tokenToTex' in (m.reach([n], stop=('printTexComment',)) | {n})]
                out[global_store_name(f, i)] = fns
    return out


def reserved(m, rep, nr, vm):
    """the list of reserved file names is what every label is looked up in"""
    rep.rule('at the lookup of a label among the reserved file names, the list of these names is what the searched string holds')
    lists = [(i, sem.alloca_of(vm, i.ops[0])) for i in vm.calls('let') if sem.alloca_of(vm, i.ops[0]) is not None and
             any(',CON,' in s for s in heads(vm, i.ops[1]))]
    for li, a in lists:
        for i in vm.calls('instr'):
            v = vm.val(i.ops[1])
            if v is None or v.op != 'load' or sem.alloca_of(vm, v.ops[0]) != a or not reaches(vm, li, i):
                continue
            # only lookups of the label (haystack = the list) on the first statement
            if not f_first(vm, li, i, a):
                continue
            rep.count('obligations')
            mon = Holds(vm, nr, after(vm, li), a, i.id)
            for j, p, key in mon.run():
                rep.violation('reserved', 'C14: the list of reserved file names is overwritten at %s before the lookup at %s (%s)' % (p, loc(j), mon.witness(key)))


def f_first(f, li, i, a):
    """i is reached from li without another assignment on some path"""
    mon = Holds(f, set(), after(f, li), a, i.id)
    mon.run()
    return mon.clean


class Holds(flow.Monitor):
    def __init__(self, f, nr, start, a, sink):
        flow.Monitor.__init__(self, f, start, '')
        self.nr, self.a, self.sink, self.clean = nr, a, sink, False

    def step(self, st, i):
        f = self.f
        if i.op == 'call':
            if i.callee in self.nr:
                return None
            if i.id == self.sink:
                if st:
                    self.err(i, st)
                else:
                    self.clean = True
            if any(sem.alloca_of(f, o) == self.a for o in i.ops if isinstance(o, list)):
                return loc(i)
        elif i.op == 'store' and sem.alloca_of(f, i.ops[1]) == self.a:
            return loc(i)
        return st


def fresh(m, rep, nr, vm):
    """definitions are read afresh for each of the three kinds"""
    f = m.funcs.get('readTexDefs')
    if f is None or 'eraseTexDefs' not in m.funcs:
        return
    rep.rule('verifyMarkup() discards typesetting definitions read earlier before it checks them, so that the check is not skipped')
    calls = list(vm.calls('readTexDefs'))
    for i in calls:
        rep.count('obligations')
    mon = Must(vm, nr, (0, 0), None, {'erased': lambda i: i.op == 'call' and i.callee == 'eraseTexDefs'},
               at=lambda i: [('stale', ('erased',))] if i.op == 'call' and i.callee == 'readTexDefs' else [])
    for i, p, key in mon.run():
        rep.violation('stale', 'C14: verifyMarkup() checks the typesetting definitions at %s without having discarded those read earlier (%s)' % (loc(i), mon.witness(key)))
