"""C29: what the command line accepts is what the commands carry out.

The parser of the command line (processCommandLine) and the interpreter (command) are compared command by command.  For a
command, the part of each function that only runs for that command is found by following the answers of cmdMatches()."""
import flow
import sem
import ir
from base import Broken
from common import *
import redirect
import paths

PARSER, LOOP = 'processCommandLine', 'command'
# accepted, documented as having no effect any more
OBSOLETE = {('VERIFY MARKUP', 'FILE_SKIP'), ('VERIFY MARKUP', 'TOP_DATE_SKIP'),
            ('SHOW PROOF', 'VERBOSE'), ('SHOW NEW_PROOF', 'VERBOSE')}
# asks for what is done anyway
DEFAULT = {('IMPROVE', '1')}
# looked up, but not offered
HIDDEN = {'WINDOW', 'INTERACTIVE', 'TIME'}


def literal(f, i):
    return i.ops[0][1] if i.ops and i.ops[0][0] == 's' else None


def commands(f):
    r = set()
    for i in f.insts():
        if i.is_call('cmdMatches'):
            s = literal(f, i)
            if s:
                r.add(s)
    return r


def asked_at(f, i):
    """number of the word asked for last before i"""
    b, k = i.block, i.idx
    for _ in range(20):
        for x in reversed(f.blocks[b][:k]):
            if x.is_call('getFullArg'):
                return x.ops[0][1] if x.ops[0][0] == 'c' else None
        ps = set(f.pred[b])
        if len(ps) != 1:
            return None
        b = ps.pop()
        k = len(f.blocks[b])
    return None


class Part:
    """the blocks of f that run for a command"""

    def __init__(self, f, command, starts, hdr=None, mode=()):
        self.f, self.command = f, command
        self.mode = dict(mode)
        self.blocks = set(starts)
        w = list(starts)
        while w:
            b = w.pop()
            for t in f.succ[b]:
                if t in self.blocks or t == hdr or not self.open(b, t):
                    continue
                self.blocks.add(t)
                w.append(t)

    def open(self, b, t):
        f = self.f
        for a, p, c, ao, co in sem.facts(f, b, t):
            if c != '0' or p not in ('eq', 'ne', 'sgt'):
                continue
            v = f.val(ao)
            if v is not None and v.is_call('cmdMatches') and literal(f, v):
                s = literal(f, v)
                if p != 'eq' and not (self.command + ' ').startswith(s + ' ') and not (s + ' ').startswith(self.command + ' '):
                    return False
                if p == 'eq' and (self.command + ' ').startswith(s + ' '):
                    return False
            elif v is not None and v.is_call('lastArgMatches') and literal(f, v):
                k = asked_at(f, v)
                ws = self.command.split(' ')
                if k is not None and k < len(ws) and (ws[k] == literal(f, v)) != (p != 'eq'):
                    return False
            elif v is not None and v.op == 'load':
                g = load_of_global(f, ao)
                if g in self.mode and (self.mode[g] == 0) == (p != 'eq'):
                    return False
        return True

    def insts(self):
        for b in sorted(self.blocks):
            for i in self.f.blocks[b]:
                yield i


def reaches(f, i, j, kill=(), blocks=None):
    """a path from i to j on which no instruction of kill lies"""
    w, seen = [(i.block, i.idx + 1)], set()
    while w:
        b, k = w.pop()
        dead = False
        for x in f.blocks[b][k:]:
            if x is j:
                return True
            if x in kill:
                dead = True
                break
        if not dead:
            for t in f.succ[b]:
                if t not in seen and (blocks is None or t in blocks):
                    seen.add(t)
                    w.append((t, 0))
    return False


def texts(f, o, d=0, blocks=None):
    """possible texts of a string argument; None where it is not constant"""
    o = flow.strip(f, o)
    if o[0] == 's':
        return [o[1]]
    v = f.val(o)
    if v is None or d > 6:
        return [None]
    if v.is_call('cat'):
        t = ['']
        for x in v.ops:
            if isinstance(x, list) and x[0] in ('s', 'v'):
                t = [None if a is None else a + ('\0' if b is None else b) for a in t for b in texts(f, x, d + 1, blocks)]
                if len(t) > 16:
                    return [None]
        return t
    if v.op == 'phi':
        return [t for x, b in v.ops for t in texts(f, x, d + 1, blocks)]
    if v.op == 'select':
        return [t for x in v.ops[1:3] for t in texts(f, x, d + 1, blocks)]
    if v.op == 'load':
        a = sem.alloca_of(f, v.ops[0])
        if a is not None:
            lets = [i for i in f.insts() if i.is_call('let', 'free_vstring') and sem.alloca_of(f, i.ops[0]) == a and (blocks is None or i.block in blocks)]
            r = [i for i in lets if i.is_call('let') and reaches(f, i, v, [j for j in lets if j is not i], blocks)]
            if r:
                return [t for i in r for t in texts(f, i.ops[1], d + 1, blocks)]
    return [None]


def words(t):
    """words of a list of keywords, without the default in angle brackets"""
    return [w for w in t.split('|') if w and not w.startswith('<')]


KEY = __import__('re').compile(r'^[A-Z_$/<][A-Z_0-9|<>/$?.-]*$')


def keyword_list(t):
    return t is not None and t != '' and KEY.match(t) is not None


class Grammar:
    def __init__(self, m):
        self.m = m
        need(m, PARSER, LOOP, 'cmdMatches', 'getFullArg', 'switchPos', 'lastArgMatches')
        self.p, self.c = m[PARSER], m[LOOP]
        self.hdr = command_head(self.c)
        self.handlers = commands(self.c)
        self.known = commands(self.p)
        if len(self.handlers) < 60:
            raise Broken('commands of the interpreter not recognised')
        self._pp, self._cp = {}, {}
        self._txt = {}

    def text(self, i, part):
        k = i.id, part.command, tuple(sorted(part.mode.items()))
        if k not in self._txt:
            self._txt[k] = texts(self.p, i.ops[1], 0, part.blocks)
        return self._txt[k]

    def parser(self, cmd, mode=()):
        k = (cmd, tuple(mode))
        if k not in self._pp:
            self._pp[k] = Part(self.p, cmd, [0], None, mode)
        return self._pp[k]

    def handler(self, cmd, mode=()):
        k = (cmd, tuple(mode))
        if k not in self._cp:
            e = paths.entry(self.c, cmd)
            self._cp[k] = Part(self.c, cmd, e, self.hdr, mode)
        return self._cp[k]

    def lists(self, part):
        """(call, text, is qualifier list) for each keyword list the parser may ask for"""
        f = self.p
        plain, w = {0}, [0]
        while w:
            b = w.pop()
            for t in f.succ[b]:
                if t in plain or t not in part.blocks:
                    continue
                if not part.open(b, t) or any(
                        c == '0' and p in ('ne', 'sgt') and slash(f, ao) for a, p, c, ao, co in sem.facts(f, b, t)):
                    continue
                plain.add(t)
                w.append(t)
        for i in part.insts():
            if i.is_call('getFullArg'):
                for t in self.text(i, part):
                    yield i, t, i.block not in plain


def slash(f, o):
    v = f.val(o)
    return v is not None and v.is_call('lastArgMatches') and literal(f, v) == '/'


def command_head(c):
    return redirect.command_loop(c)


MODES = (('TOOLS', (('g_toolsMode', 1),)), ('MM', (('g_toolsMode', 0), ('g_PFASmode', 0))),
         ('MM-PA', (('g_toolsMode', 0), ('g_PFASmode', 1))))


def first_words(g, mode):
    """the words accepted as first word in a mode"""
    part = Part(g.p, '?', [0], None, mode)
    r = set()
    for i in part.insts():
        if i.is_call('getFullArg') and i.ops[0] == ['c', 0]:
            for t in g.text(i, part):
                if t is None:
                    return None
                r |= {w for w in words(t) if '\0' not in w}
    return r


def nextload(f, st, a):
    """the local is assigned again before it is read, on every path"""
    w, seen = [(st.block, st.idx + 1)], set()
    while w:
        b, k = w.pop()
        stop = False
        for x in f.blocks[b][k:]:
            if x.op == 'store' and sem.alloca_of(f, x.ops[1]) == a:
                stop = True
                break
            if x.op == 'load' and sem.alloca_of(f, x.ops[0]) == a or x.op == 'call' and any(
                    isinstance(o, list) and sem.alloca_of(f, o) == a for o in x.ops):
                return False
        if not stop:
            for t in f.succ[b]:
                if t not in seen:
                    seen.add(t)
                    w.append((t, 0))
    return True


def effective(f, v, seen=None):
    """does the value decide anything?"""
    w, seen = [v.id], {v.id}
    while w:
        x = w.pop()
        for u in f.uses.get(x, ()):
            if u.op == 'br' and len({tuple(o) for o in u.ops[1:]}) == 1:
                continue                        # both ways lead to the same place
            if u.op == 'store':
                a = sem.alloca_of(f, u.ops[1])
                if a is not None and not any(l.op == 'load' and sem.alloca_of(f, l.ops[0]) == a and reaches(f, u, l) or
                                             l.op == 'call' and any(isinstance(o, list) and sem.alloca_of(f, o) == a for o in l.ops)
                                             for l in f.insts()):
                    continue
                if a is not None and f.inst[a].ty is not None and nextload(f, u, a):
                    continue
            if u.op in ('br', 'switch', 'ret', 'call', 'store'):
                return True
            if u.id is not None and u.id not in seen:
                seen.add(u.id)
                w.append(u.id)
    return False


def check_words(g, rep):
    """each accepted word leads to a branch of the interpreter"""
    handled_first = {h.split(' ')[0] for h in g.handlers}
    for name, mode in MODES:
        ws = first_words(g, mode)
        if ws is None:
            rep.count('lists not constant', 1)
            continue
        rep.count('command words', len(ws))
        for w in sorted(ws):
            if w not in handled_first:
                rep.violation('command|%s' % w, 'the command line accepts the command %s (%s mode) but %s() has no branch for it' % (w, name, LOOP))
    tops = set()
    for name, mode in MODES:
        tops |= first_words(g, mode) or set()
    todo = sorted((w, mode) for name, mode in MODES for w in first_words(g, mode) or ())
    for w, mode in todo:
        if w == 'HELP':
            continue
        follow(g, rep, w, mode)


def follow(g, rep, cmd, mode):
    """the interpreter's end ("not implemented") is not reached with this command"""
    n = len(cmd.split(' '))
    part = g.parser(cmd, mode)
    subs = set()
    if any(h.startswith(cmd + ' ') for h in g.handlers) and n < 4:
        for i, t, q in g.lists(part):
            if not q and keyword_list(t) and i.ops[0] == ['c', n] and not t.startswith('/'):
                subs |= set(words(t))
    for x in sorted(subs - {'$', '/'}):
        follow(g, rep, '%s %s' % (cmd, x), mode)
    if subs:
        return
    rep.count('commands followed', 1)
    h = Part(g.c, cmd, [g.hdr], None, mode)
    last = [i for i in h.insts() if i.is_call('print2') and i.ops[0][0] == 's' and 'has not been implemented.' in i.ops[0][1]]
    if last and cmd not in g.handlers:
        rep.violation('command|%s' % cmd, 'the command line accepts %s but %s() has no branch for it (ends at %s)' % (cmd, LOOP, ir.loc(last[0])))


def all_commands(g):
    """full commands (one or two words) per mode"""
    r = []
    for name, mode in MODES:
        for w in sorted(first_words(g, mode) or ()):
            if w == 'HELP':
                continue
            subs = sorted({x for i, t, q in g.lists(g.parser(w, mode)) if not q and keyword_list(t) and i.ops[0] == ['c', 1]
                           for x in words(t)} - {'$', '/'})
            subs = [x for x in subs if any((h + ' ').startswith('%s %s ' % (w, x)) for h in g.handlers | g.known)]
            for x in subs or [None]:
                r.append((name, mode, w if x is None else '%s %s' % (w, x)))
            if subs and w in g.handlers:
                pass
    return r


def entries(g, cmd):
    """starts of the interpreter's code for a command: the branch of the longest matching prefix"""
    e = paths.entry(g.c, cmd)
    while not e and ' ' in cmd:
        cmd = cmd.rsplit(' ', 1)[0]
        e = paths.entry(g.c, cmd)
    return e


def check_qualifiers(g, rep):
    offered_all, looked_all = {}, {}
    for name, mode, cmd in all_commands(g):
        part = g.parser(cmd, mode)
        offered = {}
        for i, t, q in g.lists(part):
            if q and keyword_list(t):
                for w in words(t):
                    if w not in ('$', '/'):
                        offered.setdefault(w, i)
        k = ('h', cmd)
        e = entries(g, cmd) + paths.entry(g.c, cmd.split(' ')[0])
        if not e:
            continue
        h = Part(g.c, cmd, e, g.hdr)
        looked = {}
        for i in h.insts():
            if i.is_call('switchPos'):
                s = literal(g.c, i)
                if s is None:
                    looked = None
                    break
                looked.setdefault(s, []).append(i)
        if looked is None:
            rep.count('commands with computed qualifiers', 1)
            continue
        rep.count('commands', 1)
        for w in sorted(offered):
            rep.count('qualifiers', 1)
            if w not in looked:
                if (cmd, w) not in OBSOLETE:
                    rep.violation('ignored|%s|%s' % (cmd, w), '%s accepts the qualifier %s (%s) but %s() never looks for it' % (
                        cmd, w, ir.loc(offered[w]), LOOP))
            elif (cmd, w) not in DEFAULT and not any(effective(g.c, i) for i in looked[w]):
                rep.violation('idle|%s|%s' % (cmd, w), '%s looks for the qualifier %s (%s) but the answer is not used' % (cmd, w, ir.loc(looked[w][0])))
        for w in looked:
            for i in looked[w]:
                looked_all.setdefault((w, i.id), set()).add(cmd)
                if w in offered:
                    offered_all.setdefault((w, i.id), set()).add(cmd)
    for (w, i), cs in sorted(looked_all.items(), key=lambda x: str(x)):
        if (w, i) not in offered_all and w not in HIDDEN:
            rep.violation('unreachable|%s|%s' % (sorted(cs)[0], w), '%s looks for the qualifier %s, which the command line never accepts for it' % (
                '/'.join(sorted(cs)), w))


def linear(f, o, d=0):
    """(roots, constant): an index as a sum of values and a constant"""
    o = flow.strip(f, o)
    if o[0] == 'c':
        return [], o[1]
    v = f.val(o)
    if v is not None and v.op == 'add' and d < 5:
        a, b = linear(f, v.ops[0], d + 1), linear(f, v.ops[1], d + 1)
        return a[0] + b[0], a[1] + b[1]
    return [o], 0


def choices(f, o, d=0):
    """the alternatives of a conditional index (not of one that changes in a loop), or just the index"""
    o = flow.strip(f, o)
    v = f.val(o)
    if v is None or d > 4:
        return [o]
    if v.op == 'select':
        w = v.ops[1:3]
    elif v.op == 'phi' and not any(f.dominates(v.block, p) for x, p in v.ops):
        w = [x for x, p in v.ops]
    elif v.op == 'add' and v.ops[1][0] == 'c':
        r = choices(f, v.ops[0], d + 1)
        return [('+', x, v.ops[1][1]) for x in r] if len(r) > 1 else [o]
    else:
        return [o]
    return [y for x in w for y in choices(f, x, d + 1)]


def reads_by_choice(f):
    """(load, lookup, constant) for reads of words whose index is chosen among several places behind qualifiers"""
    for i, roots, c in word_reads(f):
        if len(roots) != 1:
            continue
        r = choices(f, roots[0])
        if len(r) < 2:
            continue
        for x in r:
            k = c
            while x[0] == '+':
                k, x = k + x[2], x[1]
            rr, kk = linear(f, x)
            if len(rr) == 1 and f.val(rr[0]) is not None and f.val(rr[0]).is_call('switchPos') and literal(f, f.val(rr[0])):
                yield i, f.val(rr[0]), k + kk


def word_reads(f):
    """(load, index roots, constant) for each word of the command line that is read"""
    for i in f.insts():
        if i.op != 'load' or i.ops[0][0] != 'v':
            continue
        p = f.val(i.ops[0])
        roots, c, ok = [], 0, False
        if p is not None and p.op == 'load' and load_of_global(f, ['v', p.id]) == 'g_fullArg':
            ok = True
        while p is not None and p.op == 'getelementptr':
            for s in p.path:
                r, k = linear(f, s[1])
                roots += r
                c += k
            q = p.ops[0]
            if load_of_global(f, q) == 'g_fullArg':
                ok = True
                break
            p = f.val(q)
        if ok:
            yield i, roots, c


def flows(f, v):
    """does the value itself (not just a comparison with it) go anywhere?"""
    w, seen = [v.id], {v.id}
    while w:
        x = w.pop()
        for u in f.uses.get(x, ()):
            if u.op in ('icmp', 'br', 'switch'):
                continue
            if u.op == 'store' and sem.alloca_of(f, u.ops[1]) is not None:
                continue
            if u.op in ('store', 'ret', 'call', 'getelementptr'):
                return True
            if u.id is not None and u.id not in seen:
                seen.add(u.id)
                w.append(u.id)
    return False


def unguarded(f, pos, read):
    """a path from the lookup to the read on which the qualifier was not found to be there"""
    w, seen = [pos.block], {pos.block}
    while w:
        b = w.pop()
        if b == read.block:
            return True
        for t in f.succ[b]:
            if t in seen:
                continue
            if any(ao == ['v', pos.id] and c == '0' and p in ('ne', 'sgt') for a, p, c, ao, co in sem.deep_facts(f, b, t)):
                continue
            seen.add(t)
            w.append(t)
    return False


def valued(g, part):
    """qualifiers the parser asks a value for: qualifier -> call"""
    f, r = g.p, {}
    for b in part.blocks:
        for t in f.succ[b]:
            if t not in part.blocks:
                continue
            for a, p, c, ao, co in sem.facts(f, b, t):
                v = f.val(ao)
                if c == '0' and p in ('ne', 'sgt') and v is not None and v.is_call('lastArgMatches') and literal(f, v) not in (None, '/'):
                    # the next question asked
                    x, seen = t, set()
                    while x is not None and x not in seen:
                        seen.add(x)
                        q = next((i for i in f.blocks[x] if i.is_call('getFullArg')), None)
                        if q is not None:
                            tx = g.text(q, part)
                            if all(y is not None and y[:1] in '#*&' for y in tx):
                                r[literal(f, v)] = q
                            break
                        n = [y for y in f.succ[x] if y in part.blocks]
                        x = n[0] if len(n) == 1 else None
    return r


def check_values(g, rep):
    """the value of a qualifier is the word right behind it, and it is read only for qualifiers that have one"""
    f = g.c
    reads = {}
    for i, roots, c in word_reads(f):
        if len(roots) == 1:
            v = f.val(roots[0])
            if v is not None and v.is_call('switchPos') and literal(f, v):
                reads.setdefault(v.id, []).append((i, c))
    asked = {}
    for name, mode, cmd in all_commands(g):
        val = valued(g, g.parser(cmd, mode))
        e = entries(g, cmd) + paths.entry(f, cmd.split(' ')[0])
        if not e:
            continue
        part = Part(f, cmd, e, g.hdr)
        for i in part.insts():
            if not i.is_call('switchPos'):
                continue
            w = literal(f, i)
            if w in val:
                asked.setdefault(i.id, cmd)
        for w, q in sorted(val.items()):
            ls = [i for i in part.insts() if i.is_call('switchPos') and literal(f, i) == w]
            rep.count('values of qualifiers', 1)
            if ls and not any(flows(f, i) for i in ls):
                rep.violation('value|%s|%s' % (cmd, w), '%s asks for a value of the qualifier %s (%s) but %s() never reads it' % (cmd, w, ir.loc(q), LOOP))
    for i, pos, c in reads_by_choice(f):
        rep.count('reads of values', 1)
        if c != 1:
            w = literal(f, pos)
            rep.violation('offset|%s' % w, 'the word %d behind the qualifier %s may be taken for its value (%s) instead of the next one' % (c, w, ir.loc(i)))
    for k, rs in sorted(reads.items()):
        pos = f.inst[k]
        w = literal(f, pos)
        for i, c in rs:
            rep.count('reads of values', 1)
            if c != 1:
                rep.violation('offset|%s' % w, 'the word %d behind the qualifier %s is taken for its value (%s) instead of the next one' % (c, w, ir.loc(i)))
            elif k not in asked and w not in HIDDEN and w != 'PARAMETER':
                rep.violation('novalue|%s' % w, 'a value of the qualifier %s is read (%s) which the command line never asks for' % (w, ir.loc(i)))
            if unguarded(f, pos, i):
                rep.violation('absent|%s' % w, 'the value of the qualifier %s is read (%s) although it may not have been given' % (w, ir.loc(i)))


def accepted(f):
    """blocks from which the parser returns success"""
    r = set()
    for i in f.insts():
        if i.op != 'ret':
            continue
        w, seen = [(i.block, i.ops[0])], set()
        while w:
            b, o = w.pop()
            o = flow.strip(f, o)
            if o[0] == 'c':
                if o[1] != 0:
                    r.add(b)
                continue
            v = f.val(o)
            if v is not None and v.op == 'phi' and v.id not in seen:
                seen.add(v.id)
                for x, p in v.ops:
                    w.append((p, x))
            else:
                r.add(b)
    return r


def within(f):
    """block -> commands whose recognition dominates it"""
    r = {}
    for b in range(len(f.blocks)):
        for t in f.succ[b]:
            if len(set(f.pred[t])) != 1:
                continue
            for a, p, c, ao, co in sem.facts(f, b, t):
                v = f.val(ao)
                if c == '0' and p in ('ne', 'sgt') and v is not None and v.is_call('cmdMatches') and literal(f, v):
                    r.setdefault(t, set()).add(literal(f, v))
    return r


def check_positions(g, rep):
    """each word a command takes by its number was asked for on every way to success"""
    f = g.c
    good = accepted(g.p)
    w = within(f)
    full = {}
    for name, mode, cmd in all_commands(g):
        full.setdefault(cmd, []).append(mode)
    todo = {}
    for i, roots, c in word_reads(f):
        if roots:
            continue
        cmds = {s for t, ss in w.items() if f.dominates(t, i.block) for s in ss}
        if cmds:
            todo.setdefault((max(cmds, key=len), c), i)
    for (cmd, k), i in sorted(todo.items(), key=lambda x: x[0]):
        if k < len(cmd.split(' ')) or any(h.startswith(cmd + ' ') for h in g.handlers | g.known):
            continue
        rep.count('words by number', 1)
        for mode in {x for c in full for x in full[c] if (cmd + ' ').startswith(c + ' ') or (c + ' ').startswith(cmd + ' ')}:
            part = g.parser(cmd, mode)
            st, seen = [0], {0}
            while st:
                b = st.pop()
                if b in good:
                    rep.violation('word|%s|%d' % (cmd, k), '%s uses word %d of the command (%s) but the command line can be accepted without asking for it' % (
                        cmd, k, ir.loc(i)))
                    break
                for t in g.p.succ[b]:
                    if t in part.blocks and t not in seen and part.open(b, t) and not got(g.p, b, t, k):
                        seen.add(t)
                        st.append(t)


def got(f, b, t, k):
    """the edge is taken when word k has been read"""
    for a, p, c, ao, co in sem.deep_facts(f, b, t):
        v = f.val(ao)
        if c == '0' and p in ('ne', 'sgt') and v is not None and v.is_call('getFullArg') and v.ops[0] == ['c', k]:
            return True
    return False


def check(m, rep):
    g = Grammar(m)
    check_words(g, rep)
    check_qualifiers(g, rep)
    check_values(g, rep)
    check_positions(g, rep)
    check_sticky(g, rep)


# settings a qualifier makes for later commands on purpose
LASTING = {'NO_HEADER', 'HTML', 'ALT_HTML', 'MNEMONICS', 'INTERACTIVE'}


def merged_from(f, phi, hdr):
    """phis a value of the loop head reaches unchanged"""
    r, w = {phi.id}, [phi.id]
    while w:
        x = w.pop()
        for u in f.uses.get(x, ()):
            if u.op == 'phi' and u.id not in r and u.block != hdr:
                r.add(u.id)
                w.append(u.id)
    return r


def side(f, s, t, b, phi):
    """does the value a merge gets from block b come over the edge s -> t, at once?"""
    if s == b and t == phi.block or t == b:
        return True
    x, n = b, 0
    while len(set(f.pred[x])) == 1 and n < 4:
        if x == t:
            return True
        x = f.pred[x][0]
        n += 1
    return False


def check_sticky(g, rep):
    """what a qualifier switches on for a command is not left on for the next"""
    f, hdr = g.c, g.hdr
    edges = {}
    for b in range(len(f.blocks)):
        for t in f.succ[b]:
            for a, p, c, ao, co in sem.facts(f, b, t):
                v = f.val(ao)
                if c == '0' and v is not None and v.is_call('switchPos') and literal(f, v) and literal(f, v) not in LASTING:
                    edges.setdefault((b, t), []).append((v, p))
    loop = next(l[1] for l in f.loops if l[0] == hdr)
    # variables that keep their value from one command to the next
    for h in flow.phis(f, hdr):
        rep.count('variables kept between commands', 1)
        same = merged_from(f, h, hdr)
        for x in sorted(same):
            i = f.inst[x]
            if i.block == hdr:
                continue
            old = [b for o, b in i.ops if o[0] == 'v' and o[1] in same]
            new = [(o, b) for o, b in i.ops if not (o[0] == 'v' and o[1] in same)]
            for o, b in new:
                if o[0] == 'c' and o[1] == 0:
                    continue
                for (s, t), fs in edges.items():
                    for v, p in fs:
                        if p in ('ne', 'sgt') and side(f, s, t, b, i) and any(
                                x is v and p2 == 'eq' and side(f, s2, t2, q, i) for (s2, t2), fs2 in edges.items() for x, p2 in fs2 for q in old):
                            rep.violation('sticky|%s|%s' % (h.name, literal(f, v)), 'the variable %s keeps what the qualifier %s set it to (%s) when a later command comes without it' % (
                                h.name, literal(f, v), ir.loc(v)))
    # the same for variables of the program
    for i in f.insts():
        gl = global_store_name(f, i)
        if not gl or i.block not in loop or i.ops[0][0] != 'c' or i.ops[0][1] == 0:
            continue
        for (s, t), fs in edges.items():
            for v, p in fs:
                if p not in ('ne', 'sgt') or len(set(f.pred[t])) != 1 or not f.dominates(t, i.block):
                    continue
                rep.count('variables set by qualifiers', 1)
                if left_alone(f, hdr, v, gl, edges):
                    rep.violation('sticky|%s|%s' % (gl, literal(f, v)), '%s stays as the qualifier %s set it (%s) when a later command comes without it' % (
                        gl, literal(f, v), ir.loc(i)))


def left_alone(f, hdr, v, gl, edges):
    """a path through one command on which v is found 0 and the global is not assigned (neither before nor after)"""
    stores = {i.block for i in f.insts() if global_store_name(f, i) == gl}

    def walk(starts, goals, back):
        w, seen = list(starts), set(starts)
        while w:
            b = w.pop()
            if b in stores:
                continue
            if b in goals:
                return True
            for t in (f.pred[b] if back else f.succ[b]):
                if t not in seen:
                    seen.add(t)
                    w.append(t)
        return False
    # blocks right behind a recognised command
    begin = {t for b in range(len(f.blocks)) for t in f.succ[b] if any(
        (lambda x: x is not None and x.is_call('cmdMatches'))(f.val(ao)) and p in ('ne', 'sgt') and c == '0' for a, p, c, ao, co in sem.facts(f, b, t))}
    begin = {b for b in begin if f.dominates(b, v.block)}
    inner = [b for b in begin if not any(o != b and f.dominates(b, o) for o in begin)]
    if v.block in stores or not inner or not walk([v.block], set(inner), True):
        return False
    off = {t for (s, t), fs in edges.items() for x, p in fs if x is v and p == 'eq'}
    return walk(off, {hdr}, False)


NEED_DB = '''MARKUP|MIDI|OPEN TEX|PROVE|SAVE PROOF|SEARCH|SHOW LABELS|SHOW PROOF|SHOW SOURCE|SHOW STATEMENT|SHOW TRACE_BACK|SHOW USAGE|VERIFY MARKUP|VERIFY PROOF|WRITE BIBLIOGRAPHY|WRITE RECENT_ADDITIONS|WRITE SOURCE|WRITE THEOREM_LIST'''.split('|')
NEED_PROOF = '''ASSIGN|REPLACE|LET|UNIFY|IMPROVE|MINIMIZE_WITH|EXPAND|MATCH|DELETE|UNDO|REDO|INITIALIZE|_EXIT_PA'''.split('|')
NO_PROOF = ['READ', 'ERASE', 'PROVE']


def escapes(f, starts, goals, part, gl, zero):
    """can a goal be reached without passing a branch on which the global is (zero: ==, else !=) 0?"""
    w, seen = list(starts), set(starts)
    while w:
        b = w.pop()
        if b in goals:
            return b
        for t in f.succ[b]:
            if t in seen or t not in part.blocks or not part.open(b, t):
                continue
            if any(load_of_global(f, ao) == gl and (c == '0' and p == ('eq' if zero else 'ne') or c == '0' and not zero and p == 'sgt' or
                                                    c == '1' and p == ('ne' if zero else 'eq'))
                   for a, p, c, ao, co in sem.deep_facts(f, b, t)):
                continue
            seen.add(t)
            w.append(t)
    return None


def check_state(m, rep):
    g = Grammar(m)
    need(m, 'readInput')
    good = accepted(g.p)
    modes = dict(MODES)
    mm, pa = first_words(g, modes['MM']), first_words(g, modes['MM-PA'])
    if mm is None or pa is None:
        rep.count('lists not constant', 1)
    else:
        for w in NEED_PROOF:
            rep.count('commands that need a proof in progress', 1)
            if w in mm:
                rep.violation('mode|%s' % w, 'the command line accepts %s without a proof in progress (the word list of the MM> prompt has it)' % w)
        for w in NO_PROOF:
            rep.count('commands forbidden during a proof', 1)
            if w in pa:
                rep.violation('mode|%s' % w, 'the command line accepts %s while a proof is in progress (the word list of the MM-PA> prompt has it)' % w)
        for w in ('SHOW', 'SAVE'):
            part = g.parser(w, modes['MM'])
            for i, t, q in g.lists(part):
                if not q and keyword_list(t) and 'NEW_PROOF' in words(t):
                    rep.violation('mode|%s NEW_PROOF' % w, 'the command line accepts %s NEW_PROOF without a proof in progress (%s)' % (w, ir.loc(i)))
            rep.count('commands that need a proof in progress', 1)
    have = {cmd for name, mode, cmd in all_commands(g) if name == 'MM'}
    for cmd in NEED_DB:
        if cmd not in have:
            continue
        rep.count('commands that need a database', 1)
        part = g.parser(cmd, modes['MM'])
        if escapes(g.p, [0], good, part, 'g_sourceHasBeenRead', False) is not None:
            # the interpreter may ask instead
            h = Part(g.c, cmd, entries(g, cmd), g.hdr)
            work = {i.block for i in h.insts() if i.is_call() and i.callee not in ('print2', 'cat', 'let', 'switchPos', 'cmdMatches')}
            if not h.blocks or escapes(g.c, entries(g, cmd), work, h, 'g_sourceHasBeenRead', False) is not None:
                rep.violation('database|%s' % cmd, '%s is carried out without asking whether a database has been read (g_sourceHasBeenRead)' % cmd)
    for i in g.c.insts():
        if i.is_call('readInput'):
            rep.count('reading a database', 1)
            e = entries(g, 'READ')
            h = Part(g.c, 'READ', e, g.hdr)
            if escapes(g.c, e, {i.block}, h, 'g_sourceHasBeenRead', True) is not None:
                rep.violation('twice|READ', 'READ reads a database (%s) without asking whether one has been read already' % ir.loc(i))
    prove = Part(g.c, 'PROVE', entries(g, 'PROVE'), g.hdr)
    for i in [x for f in m.funcs.values() for x in f.insts() if global_store_name(f, x) == 'g_PFASmode']:
        if i.ops[0] != ['c', 0]:
            rep.count('starts of a proof', 1)
            if i.func.name != LOOP or i.block not in prove.blocks:
                rep.violation('start|%s' % i.func.name, 'a command other than PROVE switches to the Proof Assistant (%s)' % ir.loc(i))
