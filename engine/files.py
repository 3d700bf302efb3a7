"""File-handle typestate: C09 (closed on every path) and C10 (never used unchecked)."""
import ir
import flow
from ir import loc
from common import *

# Handles that stay open between commands, owned by the session (closed by CLOSE
# LOG / CLOSE TEX / EXIT / end of a SUBMIT file / normal program end).
SESSION = {'g_logFilePtr', 'g_texFilePtr', 'g_listFile_fp', 'g_commandFilePtr'}
STDIO_OK = {'stdin', 'stdout', 'stderr'}
USES = {'fprintf': [0], 'fputs': [1], 'fgets': [2], 'fread': [3], 'fwrite': [3], 'fseek': [0], 'ftell': [0],
        'feof': [0], 'rewind': [0], 'fclose': [0], 'fflush': [0], 'fputc': [1], 'fgetc': [0], 'getc': [0],
        'putc': [1], 'ferror': [0], 'vfprintf': [0], 'fscanf': [0]}


def is_file_type(t):
    return t in ('FILE*', '_IO_FILE*')


def openers(m):
    o = {'fopen', 'freopen', 'fdopen', 'tmpfile', 'popen'}
    for n, f in m.funcs.items():
        if is_file_type(f.rettype):
            o.add(n)
    return o


def summaries(m, nr):
    """(fn, argno) -> 'closes' | 'uses' | 'keeps' for FILE* parameters."""
    S = {}
    params = [(n, k) for n, f in m.funcs.items() for k, a in enumerate(f.args) if is_file_type(a[1])]
    for p in params:
        S[p] = set()
    changed = True
    while changed:
        changed = False
        for (n, k) in params:
            f = m.funcs[n]
            r = Track(f, m, nr, S, None, arg=k).summary()
            if r != S[(n, k)]:
                S[(n, k)] = r
                changed = True
    return S


def gslot(f, o):
    """Name of the global (or global array) an address operand designates."""
    if o[0] == 'g':
        return ir.gname(f.mod, o[1])
    if o[0] == 'e' and o[1] == 'gep' and o[2][0] == 'g':
        return ir.gname(f.mod, o[2][1])
    if o[0] == 'v' and o[1] >= f.nargs:
        i = f.inst[o[1]]
        if i.op == 'getelementptr':
            return gslot(f, i.ops[0])
        if i.op == 'alloca':
            return 'A%d' % i.id
    return None


class Track(flow.Monitor):
    """Follow one handle (result of call `op`, or parameter `arg`) over all paths.
    State: (aliases: SSA ids and slot names, null: '?'|'null'|'nonnull')."""

    def __init__(self, f, m, nr, S, op, arg=None, mods=None):
        start = (0, 0) if op is None else (op.block, op.idx + 1)
        flow.Monitor.__init__(self, f, start, (frozenset([arg if op is None else op.id]), '?'))
        self.m, self.nr, self.S, self.op, self.arg = m, nr, S, op, arg
        self.mods = mods or {}
        self.eff = set()
        self.closed_all = True
        self.used = False
        self.outer = None
        if op is not None:
            best = None
            for h, body, lat in f.loops:
                if op.block in body and (best is None or len(body) > len(best[1])):
                    best = (h, body)
            self.outer = best[0] if best else None

    def isalias(self, st, o):
        return o[0] == 'v' and o[1] in st[0]

    def step(self, st, i):
        al, null = st
        f = self.f
        if i.op == 'load':
            g = gslot(f, i.ops[0])
            if g is not None and g in al:
                return (al | {i.id}, null)
            if i.id in al:
                return (al - {i.id}, null)
            return st
        if i.op == 'store':
            g = gslot(f, i.ops[1])
            if self.isalias(st, i.ops[0]):
                if g is None:
                    self.eff.add('escapes')
                    return (al | {'?mem'}, null)
                return (al | {g}, null)
            if g is not None and g in al:
                al = al - {g}
                if not al and null != 'null':
                    return self.lost(i, 'the only reference to it is overwritten')
                return (al, null)
            return st
        if i.op == 'call':
            if i is self.op:
                if null != 'null':
                    self.lost(i, 'the same open call runs again')
                return None
            if i.callee in self.nr:
                return None
            touched = [k for k, o in enumerate(i.ops) if self.isalias(st, o)]
            if touched:
                k = touched[0]
                us = USES.get(i.callee)
                summ = self.S.get((i.callee, k))
                uses = (us is not None and k in us) or (summ is not None and ('uses' in summ or 'closes' in summ))
                closes = i.callee == 'fclose' or (summ is not None and 'closes' in summ)
                if uses and null != 'nonnull':
                    self.used = True
                    self.err(i, ('nullcheck', null))
                    null = 'nonnull'
                if closes:
                    self.eff.add('closes')
                    return None
                if us is None and summ is None and i.callee not in ('printf', 'print2'):
                    self.eff.add('escapes')
                return (al, null)
            # callee may overwrite a global slot
            md = self.mods.get(i.callee)
            if md:
                gone = [g for g in al if isinstance(g, str) and g in md]
                if gone:
                    return (al - set(gone), null)
            return st
        if i.op == 'ret':
            if i.ops and self.isalias(st, i.ops[0]):
                self.eff.add('returns')
                return None
            if null != 'null':
                slots = {a for a in al if isinstance(a, str)}
                if not (slots & SESSION) and '?mem' not in slots:
                    self.lost(i, 'the function returns')
                self.closed_all = False
            return None
        return st

    def lost(self, i, why):
        self.closed_all = False
        self.err(i, ('leak', why))
        return None

    def edge(self, st, b, t):
        al, null = st
        f = self.f
        for (l, p, r) in flow.edge_facts(f, b, t):
            if r[0] == 'n' and l[0] == 'v' and l[1] in al:
                if p == 'eq':
                    if null == 'nonnull':
                        return None
                    null = 'null'
                elif p == 'ne':
                    if null == 'null':
                        return None
                    null = 'nonnull'
        if t == self.outer and {a for a in al if isinstance(a, str)} & SESSION:
            return None
        if t == self.outer and f.name == 'command':
            # the interpreter loop: one iteration is one command
            if null != 'null':
                self.lost(f.blocks[b][-1], 'the command ends')
            return None
        new = set(a for a in al if isinstance(a, str))
        for ph in flow.phis(f, t):
            o = flow.phi_in(ph, b)
            if o is not None and o[0] == 'v' and o[1] in al:
                new.add(ph.id)
        # SSA aliases stay valid where their definition dominates
        for a in al:
            if not isinstance(a, str):
                d = f.inst.get(a)
                if d is None:
                    new.add(a)
                elif d.op == 'phi' and d.block == t:
                    pass
                elif f.dominates(d.block, t):
                    new.add(a)
        if not new and null != 'null':
            self.lost(f.blocks[b][-1], 'no variable refers to it any more')
            return None
        return (frozenset(new), null)

    def summary(self):
        self.run()
        r = set(self.eff)
        if 'closes' in r and not self.closed_all:
            r.discard('closes')
            r.add('maycloses')
        if self.used:
            r.add('uses')
        return r


def mods(m):
    direct = {}
    for n, f in m.funcs.items():
        s = set()
        for i in f.insts():
            if i.op == 'store':
                g = gslot(f, i.ops[1])
                if g and not g.startswith('A'):
                    s.add(g)
        direct[n] = s
    out = {}
    for n in m.funcs:
        s = set()
        for c in m.reach([n]):
            s |= direct.get(c, set())
        out[n] = s
    return out


def analyse(m):
    nr = noreturn(m)
    op = openers(m)
    md = mods(m)
    S = summaries(m, nr)
    res = []
    sites = []
    for n, f in sorted(m.funcs.items()):
        for i in f.calls():
            if i.callee in op:
                if len(i.ops) > 1 and const_strings(f, i.ops[1]) == {'d'}:
                    continue          # fSafeOpen(..., "d", ...) only renames the file away
                t = Track(f, m, nr, S, i, mods=md)
                t.run()
                sites.append(i)
                res.append((i, t))
    return sites, res, S


def check_close(m, rep):
    rep.rule('every handle obtained from fopen/fSafeOpen (and wrappers) is, on every path, closed, returned to the '
             'caller or kept in a session-owned global before the last reference disappears')
    sites, res, S = analyse(m)
    rep.count('open_sites', len(sites))
    rep.count('obligations', len(sites))
    rep.count('handle_parameters', len(S))
    for i, t in res:
        rep.sample('%s in %s' % (i.callee, loc(i)))
        for at, (kind, why), key in t.errors:
            if kind == 'leak':
                rep.violation('leak|%s|%s|%s' % (i.func.name, i.callee, why.split()[-1]),
                              'file opened at %s is never closed: %s at %s; path %s' % (loc(i), why, loc(at), t.witness(key)))
    rep.atleast('open_sites', 35)
    rep.rule('the file behind the LaTeX and the log slot is not replaced while open, and its flag is on exactly while it is open, on every path of every command')
    import slots
    slots.check(m, rep)


def check_null(m, rep):
    rep.rule('no handle obtained from fopen/fSafeOpen is read, written or closed on a path where it has not been '
             'compared with NULL and found non-NULL')
    sites, res, S = analyse(m)
    rep.count('open_sites', len(sites))
    rep.count('obligations', len(sites))
    for i, t in res:
        rep.sample('%s in %s' % (i.callee, loc(i)))
        for at, (kind, why), key in t.errors:
            if kind == 'nullcheck':
                rep.violation('unchecked|%s|%s' % (i.func.name, at.callee),
                              'handle opened at %s is used by %s() at %s without a NULL check; path %s' % (
                                  loc(i), at.callee, loc(at), t.witness(key)))
    rep.atleast('open_sites', 35)
