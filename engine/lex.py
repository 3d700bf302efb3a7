"""C07: lexical structure of a database (characters, comments, keywords, tokens) against the Metamath grammar."""
import sem
import absint
from absint import Machine, Spec, Overflow, show, char_constants, CLASSES, TOP, ctype_bits
from ir import loc, opexpr
from base import Broken
from common import *
from sem import X


def graph(c):
    return bool(ctype_bits(c) & 32768)


def space(c):
    return bool(ctype_bits(c) & 8192)


D = ord('$')


class RawSpec(Spec):
    """characters, comments, white space around keywords.  State: (prev is graph, in comment, follow, dollar, error)"""
    start = (False, False, False, None, None)

    def key(self, s, inside, c):
        """hook for subclasses: keyword character c after '$' outside of comments"""

    def step(self, s, ch, pos):
        pg, inside, follow, dollar, err = s
        if err:
            return s
        if follow and graph(ch):
            err = 'a keyword that is not followed by white space is not reported'
        follow = False
        if dollar is not None:
            if dollar and (not inside or ch == ord(')')):
                err = err or 'a keyword that is not preceded by white space is not reported'
            if ch:
                follow = not inside or ch == ord(')')
                if ch == ord('('):
                    if inside:
                        err = err or 'a nested comment is not reported'
                    inside = True
                elif ch == ord(')'):
                    if not inside:
                        err = err or 'a comment terminator outside of a comment is not reported'
                    inside = False
                elif not inside and ch in (ord('['), ord(']')):
                    err = err or 'an ill-formed include is not reported'
            dollar = None
        if ch == 0:
            if inside:
                err = err or 'a comment that is not closed at the end of the text is not reported'
        elif ch == D:
            dollar = pg
        elif not graph(ch) and not space(ch):
            err = err or 'an illegal character is not reported'
        return (graph(ch), inside, follow, dollar, err)

    def error(self, s):
        return s[4]

    def norm(self, s, T):
        return s[4] or s


KEYS = {ord(c): ord(c) for c in 'cvefdap{}'}


class KeySpec(Spec):
    """order of keywords.  State: (raw state, mode, type, section start, statements, events, error, don't care)"""

    def __init__(self):
        self.raw = RawSpec()
        self.start = (RawSpec.start, 0, 0, 0, 0, (), None, False)

    def step(self, s, ch, pos):
        raw, mode, ty, sec, n, ev, err, dc = s
        inside0, dollar = raw[1], raw[3]
        raw2 = self.raw.step(raw, ch, pos)
        if err or dc:
            return (raw2, mode, ty, sec, n, (), err, dc)
        if raw2[4]:
            return (raw2, mode, ty, sec, n, (), None, True)      # reported when the text was read
        ev = []
        if dollar is not None and not inside0 and not raw2[1]:
            start = pos + 1
            at = pos - 1
            if ch == D:                     # "$$": reported when the text was read
                return (raw2, mode, ty, sec, n, (), None, True)
            if mode == 0:
                if ch in KEYS:
                    n += 1
                    ty = KEYS[ch]
                    ev = [('type', ty, ('n', n)), ('lptr', ('p', sec), ('n', n)), ('llen', at - sec, ('n', n)),
                          ('sptr', ('p', at), ('n', n))]
                    sec = start
                    mode = 0 if ch in (ord('{'), ord('}')) else 1
                else:
                    err = 'a keyword that cannot begin a statement is not reported'
            elif mode == 1:
                if ch == (ord('=') if ty == ord('p') else ord('.')):
                    ev = [('mptr', ('p', sec), ('n', n)), ('mlen', at - sec, ('n', n))]
                    sec = start
                    mode = 2 if ty == ord('p') else 0
                else:
                    err = 'a missing "%s" is not reported' % ('$=' if ty == ord('p') else '$.')
            elif ch == ord('.'):
                ev = [('pptr', ('p', sec), ('n', n)), ('plen', at - sec, ('n', n))]
                sec = start
                mode = 0
            else:
                err = 'a missing "$." after a proof is not reported'
        if ch == 0 and not err:
            if mode:
                err = 'a missing "$." at the end of the file is not reported'
            else:
                ev = ev + [('type', 63, ('n', n + 1)), ('lptr', ('p', sec), ('n', n + 1)), ('llen', pos - sec, ('n', n + 1)),
                           ('sptr', ('p', pos - 1), ('n', n + 1))]
        return (raw2, mode, ty, sec, n, tuple(ev), err, dc)

    def error(self, s):
        return s[6]

    def events(self, s):
        return s[5]

    def count(self, s):
        return s[4]

    def norm(self, s, T):
        d = s[3] - T
        if s[6]:
            return s[6]
        return (s[0], s[1], s[2], d if d >= -7 else None, s[6], s[7])


FIELDS = {'type': 'type', 'labelSectionPtr': 'lptr', 'labelSectionLen': 'llen', 'statementPtr': 'sptr',
          'mathSectionPtr': 'mptr', 'mathSectionLen': 'mlen', 'proofSectionPtr': 'pptr', 'proofSectionLen': 'plen'}


def stmt_field(mc, s, o):
    """(index value, field) of an address  g_Statement[...].field"""
    f = mc.f
    idx = 0
    field = None
    while True:
        i = f.val(o)
        if i is None:
            return None
        if i.op == 'load':
            if i.ops[0] == ['g', 'g_Statement'] or X(f, o) == 'ld(&g_Statement)':
                return idx, field
            return None
        if i.op != 'getelementptr':
            return None
        for p in i.path:
            if p[0] in ('i', 'a'):
                v = mc.value(s['env'], p[1]) if isinstance(p[1], list) else p[1]
                if isinstance(v, int) and isinstance(idx, int):
                    idx += v
                elif isinstance(v, tuple) and v[0] == 'n' and isinstance(idx, int):
                    idx = ('n', v[1] + idx)
                elif isinstance(v, int) and isinstance(idx, tuple) and idx[0] == 'n':
                    idx = ('n', idx[1] + v)
                else:
                    idx = TOP
            elif p[0] == 'f':
                field = field or p[3]
        o = i.ops[0]


def keyword_hook(mc, s, i):
    if i.op != 'store':
        return None
    r = stmt_field(mc, s, i.ops[1])
    if r is None or r[1] not in FIELDS or not (isinstance(r[0], tuple) and r[0][0] == 'n'):
        return None
    v = mc.value(s['env'], i.ops[0])
    k = FIELDS[r[1]]
    if isinstance(v, tuple) and v[0] in ('top', 'far', 'start'):
        v = None
    if isinstance(v, tuple) and v[0] == 'r':
        v = None
    if v == ('g',) or (isinstance(v, tuple) and v[0] not in ('p',)):
        return None if k == 'type' else (k, None, r[0])
    return (k, v, r[0])


class DontCare:
    """runs a Machine; problems on texts the specification leaves open are dropped"""


def judge(mc, rep, what, fn):
    rep.count('automata')
    rep.count('product_states', mc.states)
    rep.count('obligations', max(1, mc.ends))
    seen = set()
    for kind, inst, text, taint, msg in mc.problems:
        if taint:
            rep.count('undecided')
            continue
        k = '%s|%s|%s' % (fn, kind, msg.split(' %')[0][:60] if kind != 'event' else (msg.split(',')[0]))
        if kind in ('silent', 'spurious', 'over', 'early'):
            k = '%s|%s|%s' % (fn, kind, msg[:80])
        if k in seen:
            continue
        seen.add(k)
        if len(seen) <= 6:
            rep.violation(k, '%s(): %s; text "%s"%s' % (fn, msg, show(text), ' (%s)' % loc(inst) if inst is not None else ''))


class Lexer(Machine):
    """Machine that stops following texts on which the specification does not care"""

    def finish(self, s, inst, value):
        if getattr(self.spec, 'dontcare', None) and self.spec.dontcare(s['spec']):
            return
        Machine.finish(self, s, inst, value)

    def push(self, b, k, scan, s):
        if getattr(self.spec, 'dontcare', None) and self.spec.dontcare(s['spec']):
            return
        if s['rep'] and self.spec.error(s['spec']):
            self.ends += 1
            return
        Machine.push(self, b, k, scan, s)


KeySpec.dontcare = lambda self, s: s[7]


# ---------------------------------------------------------------- functions that measure tokens
class LenSpec(Spec):
    """result(): the length the function has to return; None while still open.  State is subclass-defined; the last
    component is the result."""

    def result(self, s):
        return s[-1]

    def norm(self, s, T):
        return s[:-1] + (None if s[-1] is None else max(s[-1] - T, -9),)


class WhiteSpec(LenSpec):
    """white space and comments.  State: (phase, result)"""
    start = ('w', None)

    def step(self, s, ch, pos):
        ph, r = s
        if r is not None or ph == 'dc':
            return s
        if ph == 'w':
            if ch == 0:
                return ('w', pos)
            if ch == D:
                return ('$', None)
            return ('w', pos) if graph(ch) else s
        if ph == '$':
            if ch == ord('('):
                return ('(', None)
            if ch == ord('!'):
                return ('!', None)
            return ('w', pos - 1)
        if ph == '(':           # after "$(": white space must follow
            return ('c' if space(ch) else 'dc', None)
        if ph == 'c':           # in a comment, previous character is white space
            if ch == 0:
                return ('c', pos)
            if ch == D:
                return ('c$', None)
            return ('c' if space(ch) else 'cg', None)
        if ph == 'cg':          # in a comment, inside a word
            if ch == 0:
                return ('c', pos)
            if ch == D:
                return ('cg$', None)
            return ('c' if space(ch) else 'cg', None)
        if ph == 'c$':
            if ch == 0:
                return ('c', pos)
            if ch == ord(')'):
                return ('e', None)
            if ch == ord('('):
                return ('dc', None)
            if ch == D:
                return ('cg$', None)
            return ('c' if space(ch) else 'cg', None)
        if ph == 'cg$':         # "$" that is not preceded by white space
            if ch == 0:
                return ('c', pos)
            if ch in (ord(')'), ord('(')):
                return ('dc', None)
            if ch == D:
                return ('cg$', None)
            return ('c' if space(ch) else 'cg', None)
        if ph == 'e':           # after "$)": white space must follow
            if ch == 0:
                return ('w', pos)
            return ('w' if space(ch) else 'dc', None)
        if ph == '!':
            if ch == 0:
                return ('dc', None)
            return ('w' if ch == 10 else '!', None)

    def dontcare(self, s):
        return s[0] == 'dc'


class TokenSpec(LenSpec):
    """a token ends at white space; a keyword has length 0; "$" and a digit is a token"""
    start = ('t', None)
    stop = ()

    def step(self, s, ch, pos):
        ph, r = s
        if r is not None or ph == 'dc':
            return s
        if ph == 't':
            if ch == D:
                return ('$', None)
            if ch in self.stop:
                return ('t', max(1, pos) if pos == 0 else pos)
            return s if graph(ch) else ('t', pos)
        if ch == D:
            return ('dc', None)
        if 48 <= ch <= 57:
            return ('t' if not self.stop else 'dc', None)
        return ('t', pos - 1)

    def dontcare(self, s):
        return s[0] == 'dc'


class ProofTokenSpec(TokenSpec):
    stop = tuple(ord(c) for c in ':?()=')


class RawTokenSpec(LenSpec):
    start = (None,)

    def step(self, s, ch, pos):
        if s[0] is not None or graph(ch):
            return s
        return (pos,)


class RawWhiteSpec(LenSpec):
    start = (None,)

    def step(self, s, ch, pos):
        if s[0] is not None or not (ch == 0 or graph(ch)):
            return s
        return (pos,)


def check_length(mc, s, inst, value):
    sp = mc.spec
    T = s['T']
    todo = [(s['spec'], s['text'], T)]
    got = value[1] if isinstance(value, tuple) and value[0] == 'r' else value
    if not isinstance(got, int):
        mc.problems.append(('result', inst, s['text'], True, 'unknown result'))
        return
    for d in range(4):
        nxt = []
        for st, text, t in todo:
            if getattr(sp, 'dontcare', None) and sp.dontcare(st):
                continue
            want = sp.result(st)
            if want is not None:
                if want != got:
                    mc.problems.append(('result', inst, text, s['taint'], 'wrong length, required is %d' % want
                                        if t < 12 else 'wrong length'))
                continue
            if text and text[-1] == 0:
                continue
            if d == 3:
                mc.problems.append(('result', inst, text, s['taint'], 'ends too early'))
                continue
            nxt += [(sp.step(st, c, t), text + (c,), t + 1) for c in mc.alphabet]
        todo = nxt


def run_machine(rep, f, nr, spec, **kw):
    alpha = set(CLASSES) | {x for x in char_constants(f)} | {ord(c) for c in '$()[]{}.=!?:cvap'}
    mc = Lexer(f, nr, spec, alpha, **kw)
    try:
        mc.explore()
    except Overflow:
        rep.count('incomplete_explorations')      # what was found so far stands
    return mc


def check_chars(m, rep):
    rep.rule('The scanners readRawSource, parseKeywords, whiteSpaceLen, tokenLen, rawTokenLen, proofTokenLen and rawWhiteSpaceLen are '
             'abstractly interpreted on an open text in lockstep with an automaton of the Metamath grammar; the product is explored '
             'completely: error iff required, the same statements with the same sections, the same lengths.')
    nr = noreturn(m)
    f, = need(m, 'readRawSource')
    mc = run_machine(rep, f, nr, RawSpec(), args=[('p', 0), TOP], report=('rawSourceError', 'sourceError'))
    if mc:
        judge(mc, rep, 'raw', f.name)
    f, = need(m, 'parseKeywords')
    mc = run_machine(rep, f, nr, KeySpec(), args=[], globals_={'g_sourcePtr': ('p', 0), 'g_statements': ('n', 0)},
                     report=('sourceError', 'rawSourceError'), hook=keyword_hook, far=3)
    if mc:
        judge(mc, rep, 'key', f.name)
    for n, sp in (('whiteSpaceLen', WhiteSpec), ('tokenLen', TokenSpec), ('rawTokenLen', RawTokenSpec),
                  ('proofTokenLen', ProofTokenSpec), ('rawWhiteSpaceLen', RawWhiteSpec)):
        if n not in m.funcs:
            continue
        f = m.funcs[n]
        mc = run_machine(rep, f, nr, sp(), args=[('p', 0)], ret=check_length)
        if mc:
            judge(mc, rep, n, n)


# ---------------------------------------------------------------- labels and declarations
import re           # noqa: E402
import flow         # noqa: E402
from oblig import Must, reported_event    # noqa: E402
from sem import facts                     # noqa: E402

LTEXT = {
    'char': 'a character of a label is accepted without having been found legal and without an error message',
    'notallowed': 'a label on a statement that must not have one is not reported',
    'required': 'a missing label is not reported',
    'second': 'a second label of a statement is not reported',
    'after': 'a token after the last statement is not reported',
    'dup': 'two equal labels that are neighbours in the sorted label list are not reported',
    'empty': 'a $c or $v statement without symbols is not reported',
    'math': 'a label that equals a math symbol is not reported',
}


def num(c):
    return re.match(r'-?\d+$', c) is not None


def zero(p, c):
    return (p == 'eq' and c == '0') or (p in ('slt', 'ult') and c == '1') or (p in ('sle', 'ule') and c == '0')


def nonzero(p, c):
    return c == '0' and p in ('ne', 'sgt', 'ugt') or c == '1' and p in ('sge', 'uge')


def tok_calls(f, body, base=None):
    return [i for i in f.insts() if i.op == 'call' and i.callee == 'tokenLen' and i.block in body]


def go(rep, f, mon, names):
    mon.run()
    rep.count('obligations', len(mon.points))
    for i, p, key in mon.errors:
        rep.violation('%s|%s' % (f.name, p), '%s (%s); path %s' % (LTEXT[p], loc(i), mon.witness(key)))


def stmt_loop(f, pick):
    """(loop, count) of the loop over all statements that satisfies pick(loop)"""
    for l in sorted(f.loops, key=lambda l: -len(l[1])):
        for k in sem.counting(f, l):
            if X(f, k.bound) == 'ld(&g_statements)' and pick(l):
                return l, k
    return None


def full_range(f, k, first, bound):
    """the counting loop visits first .. bound inclusive (bound text), leaving only at its end"""
    st = X(f, k.start)
    if k.step == 1:
        b = X(f, k.bound)
        if st == str(first) and b == bound and k.pred in ('sle', 'ule'):
            return True
        if st == str(first) and k.pred in ('slt', 'ult', 'ne') and b == 'add(%s,1)' % bound:
            return True
        if num(st) and b == bound and (int(st) > first or k.pred in ('slt', 'ult', 'ne')):
            return False
    return None


def label_rules(m, rep):
    nr = noreturn(m)
    f, = need(m, 'parseLabels')
    # which characters are legal
    table = {}
    bad = None
    gen = None
    for i in f.insts():
        if i.op == 'store':
            e = f.val(i.ops[1])
            t = opexpr(f, i.ops[1])
            g = re.match(r'&illegalLabelChar\[(.*)\]$', t)
            if g:
                if num(g.group(1)) and i.ops[0][0] == 'c':
                    table[int(g.group(1))] = (i.ops[0][1], i)
                elif not num(g.group(1)):
                    v = X(f, i.ops[0])
                    gen = (v, i, g.group(1))
    if gen and '__ctype_b_loc' in gen[0]:
        rep.count('label_tables')
        rep.count('obligations', 4)
        if re.match(r'\(ld\(ld\(__ctype_b_loc\(\)#\d+\)\[.*\]\) sgt -1\)$', gen[0]):
            rep.violation('parseLabels|class', 'legal label characters are not the letters and digits (%s)' % loc(gen[1]))
        g = re.match(r'\(and\(ld\(ld\(__ctype_b_loc\(\)#\d+\)\[(.*)\]\),(\d+)\) eq 0\)$', gen[0])
        if g and g.group(2) in ('8', '1024', '512', '256', '2048', '32768', '16384', '4', '8192', '2', '4096'):
            if g.group(2) != '8':
                rep.violation('parseLabels|class', 'legal label characters are not the letters and digits (%s)' % loc(gen[1]))
            for c in '-_.':
                if table.get(ord(c), (1,))[0] != 0:
                    rep.violation('parseLabels|legal %s' % c, 'the character "%s" is not allowed in labels (%s)' % (c, loc(gen[1])))
            for k, (v, i) in table.items():
                if v == 0 and chr(k) not in '-_.' and not (k < 128 and chr(k).isalnum()):
                    rep.violation('parseLabels|illegal %d' % k, 'the character code %d is allowed in labels (%s)' % (k, loc(i)))
                if v != 0 and (chr(k) in '-_.' or (k < 128 and chr(k).isalnum())):
                    rep.violation('parseLabels|illegal %d' % k, 'the character code %d is not allowed in labels (%s)' % (k, loc(i)))
            for l in f.loops:
                if gen[1].block in l[1]:
                    for k in sem.counting(f, l):
                        if k.bound[0] == 'c' and ('v', k.phi.id) and opexpr(f, ['v', k.phi.id]) == gen[2]:
                            n = k.bound[1] + (1 if k.pred in ('sle', 'ule') else 0)
                            if X(f, k.start) != '0' or n < 256:
                                rep.violation('parseLabels|table', 'the table of label characters is filled only in part (%s)' % loc(gen[1]))
    # the statement loop
    r = stmt_loop(f, lambda l: len(tok_calls(f, l[1])) > 0)
    if r is None:
        return
    L, K = r
    rep.count('statement_loops')
    if full_range(f, K, 1, 'ld(&g_statements)') is False:
        rep.violation('parseLabels|range', 'not all statements are scanned for labels (%s)' % loc(K.phi))
    st = opexpr(f, ['v', K.phi.id])
    ty = 'ld(ld(&g_Statement)[%s].type)' % st
    end = lambda b, t: b in L[1] and (t == L[0] or t not in L[1])
    calls = tok_calls(f, L[1])
    base = 'ld(ld(&g_Statement)[%s].labelSectionPtr)' % st
    first = [c for c in calls if X(f, c.ops[0]).startswith(base) and 'tokenLen' not in X(f, c.ops[0])]
    if len(first) != 1:
        return
    first = first[0]
    second = [c for c in calls if c is not first and 'whiteSpaceLen' in X(f, c.ops[0]) and
              'tokenLen' in full(f, c.ops[0])]
    ft = X(f, ['v', first.id])
    lits = {
        'has': lambda a, p, c, ao, co: a == ft and nonzero(p, c),
        'hasnot': lambda a, p, c, ao, co: a == ft and zero(p, c),
    }
    for x in 'cv{}defap':
        k = ord(x)
        lits['t!' + x] = lambda a, p, c, ao, co, k=k: a == ty and num(c) and ((p == 'ne' and int(c) == k) or (p == 'eq' and int(c) != k))
        lits['t=' + x] = lambda a, p, c, ao, co, k=k: a == ty and num(c) and p == 'eq' and int(c) == k
    excl = [('has', 'hasnot')] + [('t=' + x, 't!' + x) for x in 'cv{}defap']
    if not any(lits['has'](*fa) for b in L[1] for t in f.succ[b] for fa in facts(f, b, t)):
        return
    # characters
    inner = [l for l in f.loops if l[1] < L[1] and any(
        i.op == 'load' and re.match(r'&illegalLabelChar\[', opexpr(f, i.ops[0])) for b in l[1] for i in f.blocks[b])]
    seen = None
    for l in inner:
        rep.count('label_scans')
        ks = sem.counting(f, l)
        for k in ks:
            if k.pred == 'slt' and k.step == 1 and re.match(r'add\(%s,-\d+\)$' % re.escape(ft), X(f, k.bound)) and not k.incl:
                rep.violation('parseLabels|chars', 'the last characters of a label are not examined (%s)' % loc(k.phi))
        ks = [k for k in ks if X(f, k.bound) == ft]
        if len(ks) != 1:
            continue
        k = ks[0]
        ix = opexpr(f, ['v', k.phi.id])
        seen = l
        if (k.step, k.pred) == (1, 'slt') and X(f, k.start) != '0' or k.step == 1 and k.pred == 'slt' and k.incl:
            rep.violation('parseLabels|chars', 'the first characters of a label are not examined (%s)' % loc(k.phi))
        reads = {opexpr(f, ['v', i.id]) for b in l[1] for i in f.blocks[b]
                 if i.op == 'load' and re.match(r'&illegalLabelChar\[', opexpr(f, i.ops[0])) and
                 re.search(re.escape('[%s])' % ix), opexpr(f, i.ops[0]) + ')')}
        if not reads:
            continue
        mon = Must(f, nr, (l[0], 0), {'legal': lambda a, p, c, ao, co: (a in reads or a.startswith('ld(') and a.endswith('[%s])' % ix) and 'illegal' not in a)
                                      and zero(p, c)}, {'reported': reported_event},
                   at_edge=lambda b, t: [('char', ('legal', 'reported'))] if (b in sem_ext(f, l) and (t == l[0] or t not in sem_ext(f, l)))
                   and (b, t) != (k.block, k.exit_to) else [], until=lambda b, t: t == l[0] or t not in sem_ext(f, l))
        go(rep, f, mon, None)
    if seen is not None:
        mon = Must(f, nr, (L[0], 0), dict(lits), {'reported': reported_event, 'scan': lambda i: i.block == seen[0]},
                   at_edge=lambda b, t: [('char', ('hasnot', 'scan'))] if end(b, t) and (b, t) != (K.block, K.exit_to) else [],
                   until=end)
        mon.excl = excl
        go(rep, f, mon, None)

    def clauses(b, t):
        if not end(b, t) or (b, t) == (K.block, K.exit_to):
            return []
        out = []
        for x in 'dcv{}':
            out.append(('notallowed', ('hasnot', 't!' + x, 'reported')))
        for x in 'efap':
            out.append(('required', ('has', 't!' + x, 'reported')))
        return out
    rets = set()

    def rep_event(i):
        return reported_event(i) and not (seen and i.block in sem_ext(f, seen))
    mon = Must(f, nr, (L[0], 0), lits, {'reported': rep_event}, at_edge=clauses, until=end)
    mon.excl = excl
    go(rep, f, mon, None)
    if not second:
        rep.violation('parseLabels|second', LTEXT['second'] + ' (%s)' % loc(first)) if not tok_calls2(f, L[1], first) else None
    for c in second:
        t2 = X(f, ['v', c.id])
        mon = Must(f, nr, (L[0], 0), dict(lits, one=lambda a, p, c, ao, co: a == t2 and zero(p, c)), {'reported': reported_event},
                   kills=lambda i, c=c: {'reported', 'one'} if i is c else None,
                   at_edge=lambda b, t: [('second', ('hasnot', 'one', 'reported'))] if end(b, t) and (b, t) != (K.block, K.exit_to) else [],
                   until=end)
        mon.excl = excl
        go(rep, f, mon, None)
    # after the last statement
    last = [c for c in f.calls('tokenLen') if c.block not in L[1] and '[1].labelSectionPtr' in full(f, c.ops[0])]
    allrep = [i for i in f.insts() if reported_event(i) and i.block not in L[1]]
    for c in last:
        t2 = X(f, ['v', c.id])
        mon = Must(f, nr, (c.block, c.idx), {'none': lambda a, p, x, ao, co: a == t2 and zero(p, x)}, {'reported': reported_event},
                   at=lambda i: [('after', ('none', 'reported'))] if i.op == 'ret' or i.callee == 'qsort' else [],
                   until=lambda b, t: f.dominates(t, b))
        go(rep, f, mon, None)
    if not last and not allrep:
        rep.violation('parseLabels|after', LTEXT['after'])
    # sorted label list
    sorts(m, rep)
    strs = {}
    for i in f.insts():
        if i.op == 'call' and i.callee == 'strcmp':
            g = [neigh(f, o) for o in i.ops[:2]]
            if all(g):
                strs[X(f, ['v', i.id])] = (g, i)
    dl = [l for l in f.loops if any(i.block in l[1] for g, i in strs.values())]
    if len(dl) == 1:
        l = dl[0]
        ks = [k for k in sem.counting(f, l)]
        ks = [k for k in ks if X(f, k.bound) == 'ld(&g_numLabelKeys)' or 'ld(&g_numLabelKeys)' in X(f, k.bound)]
        if len(ks) == 1:
            k = ks[0]
            ix = opexpr(f, ['v', k.phi.id])
            rep.count('duplicate_scans')
            ok = []
            errs = []
            for d, edge in ((1, 'add(ld(&g_numLabelKeys),-1)'), (-1, '0')):
                pair = {t for t, (g, i) in strs.items() if sorted(g, key=str) == sorted([(ix, 0), (ix, d)], key=str)}
                if not pair:
                    continue
                lits2 = {'differ': lambda a, p, c, ao, co: a in pair and p in ('ne', 'slt', 'sgt') and c == '0',
                         'same': lambda a, p, c, ao, co: a in pair and p == 'eq' and c == '0'}
                if d == 1:
                    lits2['edge'] = lambda a, p, c, ao, co: a == ix and c == edge and p in ('sge', 'eq') or \
                        a == 'add(%s,1)' % ix and c == 'ld(&g_numLabelKeys)' and p in ('sge', 'eq')
                else:
                    lits2['edge'] = lambda a, p, c, ao, co: a == ix and (c == '0' and p in ('eq', 'sle') or c == '1' and p == 'slt')
                mon = Must(f, nr, (l[0], 0), lits2, {'reported': reported_event},
                           at_edge=lambda b, t: [('dup', ('differ', 'edge', 'reported'))] if b in l[1] and (t == l[0] or t not in l[1])
                           and (b, t) != (k.block, k.exit_to) else [], until=lambda b, t: b in l[1] and (t == l[0] or t not in l[1]))
                mon.excl = [('differ', 'same')]
                mon.run()
                n0 = X(f, k.start)
                rng = k.step == 1 and k.pred in ('slt', 'ne', 'ult')
                full_ = rng and ((d == 1 and n0 == '0' and X(f, k.bound) in ('ld(&g_numLabelKeys)', edge)) or
                                 (d == -1 and n0 in ('0', '1') and X(f, k.bound) == 'ld(&g_numLabelKeys)'))
                errs.append((mon, full_, loc(k.phi)))
                rep.count('obligations', len(mon.points))
                if not mon.errors and full_:
                    ok.append(d)
            if errs and not ok:
                mon, full_, where = errs[0]
                for i, p, key in mon.errors[:1]:
                    rep.violation('parseLabels|dup', '%s (%s); path %s' % (LTEXT['dup'], loc(i), mon.witness(key)))
                if not mon.errors:
                    rep.violation('parseLabels|duprange', 'not all neighbours in the sorted label list are compared (%s)' % where)


def tok_calls2(f, body, first):
    return [c for c in tok_calls(f, body) if c is not first]


def sem_ext(f, l):
    c = getattr(f, '_ext', None)
    if c is None:
        c = f._ext = {}
    if l[0] not in c:
        c[l[0]] = sem.extended(f, l, {(k.block, k.exit_to) for k in sem.counting(f, l)})
    return c[l[0]]


def full(f, o):
    """text of a value with the results of calls spelled out"""
    i = f.val(flow.strip(f, o))
    s = X(f, o)
    if i is not None and i.op == 'getelementptr':
        s += ' ' + full(f, i.ops[0])
        for p in i.path or ():
            if p[0] in ('i', 'a') and isinstance(p[1], list):
                s += ' ' + full(f, p[1])
    if i is not None and i.op == 'call':
        s += ' ' + ' '.join(full(f, x) for x in i.ops)
    return s


def neigh(f, o):
    """(index text, offset) of  g_Statement[g_labelKeyBase[index + offset]].labelName"""
    i = f.val(flow.strip(f, o))
    if i is None or i.op != 'load':
        return None
    g = re.match(r'ld\(ld\(&g_Statement\)\[ld\(ld\(&g_labelKeyBase\)((?:\[[^\[\]]+\])+)\)\]\.labelName\)$', X(f, o))
    if not g:
        return None
    off = 0
    ix = None
    for p in re.findall(r'\[([^\[\]]+)\]', g.group(1)):
        h = re.match(r'add\((.+),(-?\d+)\)$', p)
        if h:
            off += int(h.group(2))
            p = h.group(1)
        if num(p):
            off += int(p)
        elif ix is None:
            ix = p
        else:
            return None
    return (ix, off) if ix else None


KEYS2 = {'labelSortCmp': ('g_Statement', 'labelName'), 'mathSortCmp': ('g_MathToken', 'tokenName')}
TABLES = {'labelSrchCmp': {('ld(&g_labelKeyBase)', 'ld(&g_numLabelKeys)'), ('ld(&g_allLabelKeyBase)', 'ld(&g_numAllLabelKeys)')},
          'mathSrchCmp': {('ld(&g_mathKey)', 'ld(&g_mathTokens)')}}


def sorts(m, rep):
    """the sorted lists are sorted and searched with the same order and in full length"""
    for name in ('labelSortCmp', 'mathSortCmp', 'labelSrchCmp', 'mathSrchCmp'):
        g = m.fn(name)
        if g is None:
            continue
        rets = [i for i in g.insts() if i.op == 'ret' and i.ops]
        cs = [i for i in g.insts() if i.op == 'call']
        if len(rets) != 1 or len(cs) != 1 or X(g, rets[0].ops[0]) != X(g, ['v', cs[0].id]):
            continue
        rep.count('orders')
        rep.count('obligations')
        c = cs[0]
        a, b = X(g, c.ops[0]), X(g, c.ops[1])
        lab = '.labelName' in a + b or 'MathToken' in a + b
        if c.callee in ('strcasecmp', 'strncmp', 'strncasecmp', 'memcmp'):
            rep.violation('%s|compare' % name, 'names are not compared in full (%s at %s)' % (c.callee, loc(c)))
        elif c.callee == 'strcmp' and lab:
            if name.endswith('SortCmp'):
                if not ('arg0' in a and 'arg1' in b):
                    rep.violation('%s|order' % name, 'the sort order is not that of the search (%s)' % loc(c))
            elif not (a == 'arg0' and 'arg1' in b):
                rep.violation('%s|order' % name, 'the search order is not that of the sort (%s)' % loc(c))
    for f in m.funcs.values():
        for i in f.calls('bsearch'):
            cmp_ = [o[1] for o in i.ops if o[0] == 'f']
            if not cmp_ or cmp_[0] not in TABLES:
                continue
            rep.count('searches')
            rep.count('obligations')
            arr, n = X(f, i.ops[1]), X(f, i.ops[2])
            if (arr, n) in TABLES[cmp_[0]]:
                continue
            if any(arr == x for x, y in TABLES[cmp_[0]]) and n.startswith(('add(ld(&', 'sub(ld(&', 'ld(&', 'sdiv(ld(&')):
                rep.violation('%s|search' % f.name, 'a sorted list is not searched in its own length (%s)' % loc(i))
            elif any(n == y for x, y in TABLES[cmp_[0]]) and arr.startswith('ld(&'):
                rep.violation('%s|search' % f.name, 'a list is searched that is not the sorted one (%s)' % loc(i))
        for i in f.calls('qsort'):
            cmp_ = [o[1] for o in i.ops if o[0] == 'f']
            if cmp_ == ['labelSortCmp']:
                rep.count('obligations')
                if X(f, i.ops[1]) != 'ld(&g_statements)' and re.match(r'(add|sub)\(ld\(&g_(statements|numLabelKeys)', X(f, i.ops[1])):
                    rep.violation('%s|sort' % f.name, 'the label list is not sorted in full (%s)' % loc(i))
            elif cmp_ == ['mathSortCmp']:
                rep.count('obligations')
                if re.match(r'(add|sub)\(ld\(&g_mathTokens', X(f, i.ops[1])):
                    rep.violation('%s|sort' % f.name, 'the symbol list is not sorted in full (%s)' % loc(i))


def decl_rules(m, rep):
    nr = noreturn(m)
    f, = need(m, 'parseMathDecl')
    r = stmt_loop(f, lambda l: len(tok_calls(f, l[1])) > 0)
    if r is not None:
        L, K = r
        rep.count('statement_loops')
        if full_range(f, K, 1, 'ld(&g_statements)') is False:
            rep.violation('parseMathDecl|range', 'not all statements are scanned for declarations (%s)' % loc(K.phi))
        st = opexpr(f, ['v', K.phi.id])
        ty = 'ld(ld(&g_Statement)[%s].type)' % st
        end = lambda b, t: b in L[1] and (t == L[0] or t not in L[1])
        lens = {X(f, i.ops[0]) for i in f.insts() if i.op == 'store' and opexpr(f, i.ops[1]).endswith('].mathStringLen')}

        def nz(a, p, c, ao, co):
            if a in lens and nonzero(p, c):
                return True
            return p == 'ne' and a == 'ld(&g_mathTokens)' and c == a
        lits = {'some': nz}
        for x in 'cv':
            k = ord(x)
            lits['t!' + x] = lambda a, p, c, ao, co, k=k: a == ty and num(c) and ((p == 'ne' and int(c) == k) or (p == 'eq' and int(c) != k))
            lits['t=' + x] = lambda a, p, c, ao, co, k=k: a == ty and num(c) and p == 'eq' and int(c) == k
        mk = lambda i: i.op == 'store' and i.ops[1] == ['g', 'g_mathTokens']
        mon = Must(f, nr, (L[0], 0), lits, {'reported': reported_event, 'made': mk},
                   at_edge=lambda b, t: [('empty', ('some', 'made', 'reported', 't!' + x)) for x in 'cv']
                   if end(b, t) and (b, t) != (K.block, K.exit_to) else [], until=end)
        mon.excl = [('t=c', 't!c'), ('t=v', 't!v')]
        go(rep, f, mon, None)
        # constants are what $c declares, variables what $v declares
        con = 0
        ts = [i for i in f.insts() if i.op == 'store' and i.block in L[1] and opexpr(f, i.ops[1]).endswith('.tokenType')]

        def due(i):
            if i in ts and i.ops[0][0] == 'c':
                return [('kind', ('t=c', 't!v') if i.ops[0][1] == CON else ('t=v', 't!c'))]
            return []
        if ts and all(i.ops[0][0] == 'c' for i in ts):
            LTEXT['kind'] = 'a symbol is made a constant or a variable regardless of the statement that declares it'
            mon = Must(f, nr, (L[0], 0), lits, {}, at=due, until=end)
            mon.excl = [('t=c', 't!c'), ('t=v', 't!v')]
            go(rep, f, mon, None)
    # labels against math symbols
    for l in f.loops:
        bs = [i for i in f.insts() if i.op == 'call' and i.callee == 'bsearch' and i.block in l[1]]
        if len(bs) != 1:
            continue
        c = bs[0]
        ks = [k for k in sem.counting(f, l) if 'ld(&g_mathTokens)' in X(f, k.bound)]
        if len(ks) != 1:
            continue
        k = ks[0]
        rep.count('clash_scans')
        if not (k.step == 1 and X(f, k.start) == '0' and X(f, k.bound) == 'ld(&g_mathTokens)' and k.pred in ('slt', 'ult', 'ne')):
            if k.step == 1 and num(X(f, k.start)) and (X(f, k.start) != '0' or X(f, k.bound).startswith(('add(', 'sub('))):
                rep.violation('parseMathDecl|clashrange', 'not all math symbols are compared with the labels (%s)' % loc(k.phi))
        t = X(f, ['v', c.id])
        ext = l[1]
        mon = Must(f, nr, (l[0], 0), {'none': lambda a, p, x, ao, co: a == t and p == 'eq' and x in ('null', '0')},
                   {'reported': reported_event},
                   at_edge=lambda b, t2: [('math', ('none', 'reported'))] if b in ext and (t2 == l[0] or t2 not in ext) and
                   (b, t2) != (k.block, k.exit_to) else [], until=lambda b, t2: b in ext and (t2 == l[0] or t2 not in ext))
        go(rep, f, mon, None)
    else:
        if not list(f.calls('bsearch')) and not list(f.calls('labelSrchCmp', 'lookupLabel')) and not any(
                i.callee == 'strcmp' for i in f.calls()):
            rep.violation('parseMathDecl|math', LTEXT['math'])


CON = 1


def check(m, rep):
    check_chars(m, rep)
    rep.rule('Labels and declarations: each round of the scans over statements, label characters, sorted labels and math symbols has passed the test '
             'that shows the construct to be legal or has reported an error; sorted lists are sorted and searched in one order and in full length.')
    label_rules(m, rep)
    decl_rules(m, rep)
