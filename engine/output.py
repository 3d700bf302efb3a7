"""C32: everything the user is shown goes through print2, which serves screen, log and capture alike."""
import re
import ir
import flow
import sem
import paths
from conc import Conc, cell
from ir import loc
from base import Broken
from common import *
from redirect import command_loop

LAYER = {'print2', 'cmdInput', 'cmdInput1', 'linput'}
OUT, SILENT, LOG, NEST = 'g_outputToString', 'g_commandFileSilentFlag', 'g_logFileOpenFlag', 'g_commandFileNestingLevel'
ARR = 'g_commandFileSilent'
LOGPTR, STR = 'g_logFilePtr', 'g_printString'
STDOUT = {'printf': None, 'puts': None, 'putchar': None, 'vprintf': None, 'fprintf': 0, 'vfprintf': 0, 'fputs': 1, 'fputc': 1, 'putc': 1, '_IO_putc': 1, 'fwrite': 3}


def to_terminal(f, i):
    """does the call write to the terminal?"""
    if i.callee not in STDOUT:
        return False
    k = STDOUT[i.callee]
    if k is None:
        return True
    if k >= len(i.ops):
        return False
    return load_of_global(f, i.ops[k]) in ('stdout', 'stderr', 'stdio')


def debugging(f, b, reach):
    """is the block reached only with a debug switch on (those edges are not in the graph) or after an allocation failed?"""
    if b not in reach:
        return True
    seen = set()
    x = b
    while x is not None and x not in seen:
        seen.add(x)
        if f.pred[x] and all_guarded(f, x):
            return True
        x = f.idom.get(x)
    return False


def all_guarded(f, x):
    for p in f.pred[x]:
        ok = False
        for a, pr, c, ao, co in sem.deep_facts(f, p, x):
            g = load_of_global(f, flow.strip(f, ao))
            if g and re.fullmatch(r'db[0-9]', g) and pr == 'ne':
                ok = True
            v = f.val(flow.strip(f, ao))
            if pr == 'eq' and c in ('0', 'null') and v is not None and v.op == 'call' and v.callee in ('malloc', 'calloc', 'realloc'):
                ok = True
        if not ok:
            return False
    return bool(f.pred[x])


def fatal(f, i, nr):
    """does every path from here abort?"""
    seen, w = {i.block}, [(i.block, i.idx + 1)]
    while w:
        b, k = w.pop()
        stop = False
        for x in f.blocks[b][k:]:
            if x.op == 'call' and x.callee in nr:
                stop = True
                break
            if x.op == 'ret':
                return False
        if stop:
            continue
        for t in f.succ[b]:
            if t not in seen:
                seen.add(t)
                w.append((t, 0))
    return True


def cap(n):
    return min(n, 2)


class Print2(Conc):
    """extra: (screen, log, captured, passed on, withheld)"""

    def __init__(self, f, cells, nr):
        self.buf = None
        for i in f.calls('vsprintf', 'vsnprintf', 'vasprintf'):
            if i.ops[0][0] == 'v':
                self.buf = flow.strip(f, i.ops[0])
        if self.buf is None:
            raise Broken('print2: the buffer of the formatted text')
        self.results = []
        Conc.__init__(self, f, (0, 0), cells, set(cells), nr, (0, 0, 0, 0, frozenset()))

    stable = frozenset([OUT, SILENT, LOG])

    def is_buf(self, o, d=0):
        o = flow.strip(self.f, o)
        return o == self.buf or o[0] == 'v' and o[1] == self.buf[1]

    def derived(self, o, d=0):
        if self.is_buf(o):
            return True
        i = self.f.val(flow.strip(self.f, o))
        return d < 6 and i is not None and i.op in ('call', 'phi', 'select', 'getelementptr') and i.ty == 'ptr' and \
            any(self.derived(x[0] if i.op == 'phi' else x, d + 1) for x in i.ops if isinstance(x, (list, tuple)) and x)

    def call(self, st, i):
        f = self.f
        s, l, c, p, w = st[2]
        n = i.callee
        if n in STDOUT:
            ops = i.ops
            whole = n in ('printf', 'fprintf') and any(ops[k] == ['s', '%s'] or ops[k][:2] == ['s', '%s'] for k in (0, 1) if k < len(ops)) and self.is_buf(ops[-1]) \
                or n in ('fputs', 'puts') and self.is_buf(ops[0])
            if to_terminal(f, i):
                if whole and n != 'puts':
                    s = cap(s + 1)
            elif n in ('fprintf', 'fputs') and load_of_global(f, ops[0 if n == 'fprintf' else 1]) == LOGPTR:
                if whole:
                    l = cap(l + 1)
                else:
                    l = 2
        elif n == 'let' and i.ops[0][0] == 'g' and ir.gname(f.mod, i.ops[0][1]) == STR:
            c = cap(c + 1) if self.appends(i.ops[1]) else 2
        elif n in ('printLongLine', 'print2') and any(self.derived(o) for o in i.ops):
            p = cap(p + 1)
        return (None, (s, l, c, p, w))

    def appends(self, o):
        i = self.f.val(flow.strip(self.f, o))
        return i is not None and i.is_call('cat') and len(i.ops) == 3 and load_of_global(self.f, i.ops[0]) == STR and self.is_buf(i.ops[1])

    def stored(self, st, i, name):
        if name in ('g_quitPrint', 'backFromCmdInput'):
            s, l, c, p, w = st[2]
            return (st[0], st[1], (s, l, c, p, w - {name} if i.ops[0] == ['c', 0] else w | {name}))
        return st

    def crossed(self, st, b, t):
        s, l, c, p, w = st[2]
        for a, pr, k, ao, ko in sem.facts(self.f, b, t):
            g = load_of_global(self.f, flow.strip(self.f, ao))
            if g in ('g_quitPrint', 'backFromCmdInput') and k == '0':
                w = w - {g} if pr == 'eq' else w | {g}
        return (st[0], st[1], (s, l, c, p, w))

    def ret(self, st, i):
        out, sil, log = (self.get(st, x) for x in (OUT, SILENT, LOG))
        s, l, c, p, w = st[2]
        if 'backFromCmdInput' in w or 'g_quitPrint' in w and not out:
            return
        if p == 1 and not out and (s, l, c) == (0, 0, 0):
            return
        want = (int(not out and not sil), int(bool(log) and not out), int(bool(out)), 0)
        names = ('the screen', 'the log file', 'the captured text', 'printLongLine')
        for have, need_, what in zip((s, l, c, p), want, names):
            if have != need_:
                self.err(i, (what, have, need_, 'captured' if out else 'shown', 'silent' if sil else 'not silent', 'log open' if log else 'no log'))


def check_print2(m, rep, nr):
    f = m['print2']
    for out in (0, 1):
        for sil in (0, 1):
            for log in (0, 1):
                r = Print2(f, {OUT: out, SILENT: sil, LOG: log}, nr)
                r.run()
                rep.count('combinations of capture, silence and log', 1)
                rep.count('obligations', 1)
                for i, p, key in r.errors:
                    rep.violation('print2|%s|%s' % (p[0], 'missing' if p[1] < p[2] else 'extra'), 'print2(): with output %s, %s, %s a text goes to %s %s (%s)' % (
                        p[3], p[4], p[5], p[0], 'not at all' if p[1] == 0 else 'more than once or in part' if p[2] else 'although it must not', r.witness(key)))


class Input(Conc):
    """extra: (end of file, log lines, shown lines, closed)"""

    def __init__(self, f, cells, nr, ans):
        self.ans = ans
        w = set(cells) | {ARR} | {'A%d' % i.id for i in f.insts() if i.op == 'alloca'}
        Conc.__init__(self, f, (0, 0), cells, w, nr, ('?', 0, 0, 0))
        self.ask = None

    stable = frozenset([OUT, SILENT, LOG, NEST, ARR])

    def mentions(self, o, what, d=0):
        """does the value depend on the answer (or the question)?"""
        f = self.f
        o = flow.strip(f, o)
        if o[0] != 'v' or d > 6:
            return False
        if o[1] < f.nargs:
            return what == 'ask'
        i = f.inst[o[1]]
        if i.op == 'call' and i.callee == 'cmdInput':
            return what == 'answer'
        if i.op == 'load':
            a = f.val(i.ops[0])
            if a is not None and a.op == 'alloca':
                for x in f.insts():
                    if x.op == 'store' and x.ops[1] == ['v', a.id] and x is not i and self.mentions(x.ops[0], what, d + 1) or \
                            x.op == 'call' and x.callee == 'let' and x.ops[0] == ['v', a.id] and self.mentions(x.ops[1], what, d + 1):
                        return True
            return False
        if i.op in ('call', 'phi', 'select', 'getelementptr'):
            return any(self.mentions(x[0] if i.op == 'phi' else x, what, d + 1) for x in i.ops if isinstance(x, (list, tuple)) and x)
        return False

    def call(self, st, i):
        f = self.f
        e, l, s, c = st[2]
        n = i.callee
        if n == 'cmdInput':
            return [(0, (True, l, s, c)), (('s', self.ans), (False, l, s, c))]
        if n == 'fprintf' and load_of_global(f, i.ops[0]) == LOGPTR and e != '?':
            full = any(self.mentions(o, 'answer') for o in i.ops[2:]) and any(self.mentions(o, 'ask') for o in i.ops[2:])
            l = cap(l + 1) if full else 2
        if n in ('print2', 'printLongLine') and e != '?' and any(self.mentions(o, 'answer') for o in i.ops):
            s = cap(s + 1)
        if n == 'fclose' and self.slot_of(i.ops[0]) == 'g_commandFilePtr':
            c = cap(c + 1)
        return (None, (e, l, s, c))

    def slot_of(self, o):
        i = self.f.val(flow.strip(self.f, o))
        return self.slot(i.ops[0]) if i is not None and i.op == 'load' else None

    def ret(self, st, i):
        e, l, s, c = st[2]
        nest, log = self.start_nest, self.start_log
        if e == '?':
            self.err(i, 'returns an answer without reading one')
            return
        if nest == 0:
            if l != log:
                self.err(i, 'writes a question and its answer %s to the log file' % ('although no log is open' if not log else 'not' if l == 0 else 'more than once or in part'))
        elif not e:
            if not s:
                self.err(i, 'does not show a line read from a SUBMIT file')
        else:
            if c != 1:
                self.err(i, 'does not close a SUBMIT file at its end')
            if self.get(st, NEST) != nest - 1:
                self.err(i, 'does not return to the previous SUBMIT file at the end of one')
            want = 0 if nest == 1 else self.outer
            got = self.get(st, SILENT)
            if got != want:
                self.err(i, 'leaves the SILENT state of a SUBMIT file on or wrong at its end')


def check_input(m, rep, nr):
    f = m['cmdInput1']
    for nest in (0, 1, 2):
        for log in (0, 1):
            for outer, ans in [(x, y) for x in ((0, 1) if nest == 2 else (0,)) for y in ('answer', '')]:
                cells = {NEST: nest, LOG: log, OUT: 0, SILENT: 1}
                if nest == 2:
                    cells[ARR + '[1]'] = outer
                    cells[ARR + '[2]'] = 1
                if nest == 1:
                    cells[ARR + '[0]'] = 1      # never set for the terminal
                r = Input(f, cells, nr, ans)
                r.start_nest, r.start_log, r.outer = nest, log, outer
                r.run()
                rep.count('states in which a line is read', 1)
                rep.count('obligations', 1)
                for i, p, key in r.errors:
                    rep.violation('cmdInput1|%s' % p, 'cmdInput1() %s (%s)' % (p, r.witness(key)))


class Submit(Conc):
    def __init__(self, f, start, cells, nr, hdr, silent):
        self.hdr, self.silent = hdr, silent
        Conc.__init__(self, f, start, cells, {NEST, SILENT, ARR}, nr, ())

    stable = frozenset([SILENT, NEST, ARR])

    def call(self, st, i):
        if i.callee == 'switchPos' and i.ops[0][:2] == ['s', 'SILENT']:
            return (self.silent, st[2])
        if i.callee == 'cmdMatches' and i.ops[0][0] == 's':
            return (int(i.ops[0][1] == 'SUBMIT'), st[2])
        return (None, st[2])

    def crossed(self, st, b, t):
        if t == self.hdr:
            i = self.f.blocks[b][-1]
            if self.get(st, NEST) == self.nest + 1:
                self.opened += 1
                want = int(bool(self.silent or self.outer))
                if self.get(st, SILENT) not in ((0,) if not want else (1, 3)):
                    self.err(i, 'sets the SILENT state of the file wrongly')
                if self.get(st, '%s[%d]' % (ARR, self.nest + 1)) != want:
                    self.err(i, 'does not remember the SILENT state of the file for the time after a nested one')
            return None
        return st


def check_submit(m, rep, nr):
    f = m['command']
    h = command_loop(f)
    es = paths.entry(f, 'SUBMIT')
    if not es:
        return
    opened = 0
    for nest in (0, 3):
        for outer in ((0, 1) if nest else (0,)):
            for silent in (0, 3):
                for e in es:
                    r = Submit(f, (e, 0), {NEST: nest, SILENT: outer}, nr, h, silent)
                    r.nest, r.outer, r.opened = nest, outer, 0
                    r.run()
                    opened += r.opened
                    rep.count('SUBMIT states', 1)
                    rep.count('obligations', 1)
                    for i, p, key in r.errors:
                        rep.violation('SUBMIT|%s' % p, 'SUBMIT %s (%s)' % (p, r.witness(key)))
    if not opened:
        raise Broken('SUBMIT never opens a file')


def check(m, rep):
    need(m, 'print2', 'cmdInput1', 'command')
    nr = noreturn(m)
    rep.rule('every call that writes to the terminal outside print2(), cmdInput(), cmdInput1() and linput() is reached only with a debug switch on or is followed by an abort on every path')
    rep.rule('print2(): for every combination of capture, SILENT and log, each path that is not withheld (quit at the scroll prompt) writes the formatted text exactly to the places it belongs to, once')
    rep.rule('cmdInput1(): each question and answer reaches the log; each line of a SUBMIT file is shown; its end closes it and restores the SILENT state outside; SUBMIT sets it')
    n = 0
    for name, f in sorted(m.funcs.items()):
        reach = f.reach_from(0)
        for i in f.insts():
            if i.op != 'call' or not to_terminal(f, i):
                continue
            n += 1
            if name in LAYER or debugging(f, i.block, reach) or fatal(f, i, nr):
                continue
            rep.violation('direct|%s' % name, '%s() writes to the terminal by %s() (%s), so that the text is missing in the log and ignores SILENT' % (name, i.callee, loc(i)))
    rep.count('direct writes to the terminal', n)
    rep.count('obligations', n)
    rep.atleast('direct writes to the terminal', 15)
    check_print2(m, rep, nr)
    check_input(m, rep, nr)
    check_submit(m, rep, nr)
