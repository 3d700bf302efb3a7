"""C25: inclusions.  One round of readInclude() (from one found inclusion to the search for the next one) is interpreted on
every path; the resulting text, size, position and table entries are compared with what the inclusion stands for."""
import ir
import trace
from trace import Lin, Str, S, lit, sym, END, root
from ir import loc
from base import Broken
from common import *

T = S('T')
P1, P2, E1, E2 = (sym(x) for x in ('cmdPos1', 'cmdPos2', 'endPos1', 'endPos2'))
FN = S('includeFn')
START = sym('startOffset')
FBO, SRC, SIZE, LINE, ERR = sym(('arg', 1)), S(('arg', 2)), ('deref', S(('arg', 3))), sym(('arg', 4)), ('deref', S(('arg', 5)))
KINDS = {ord('B'): 'B', ord('I'): 'I', ord('S'): 'S', ord('E'): 'E', ord('N'): 'N'}
G0 = sym('g_includeCalls')
MAX0 = sym('g_MAX_INCLUDECALLS')


def F(pos):
    """number of line ends before (0-based) position pos of the text"""
    return sym(('F', pos)) if pos != Lin(0) else Lin(0)


def entry(st, idx, field, w):
    """value of a field of g_IncludeCall[idx]"""
    for k, v in st.mem.items():
        if k[0] == 'gep' and root(k) == ('g', 'g_IncludeCall') and len(k[2]) == 2 and k[2][1] == field and k[2][0] == idx:
            return v
    return None


def is_table(k, field):
    """index, when the key is that field of an entry of g_IncludeCall"""
    if isinstance(k, tuple) and k[0] == 'gep' and root(k) == ('g', 'g_IncludeCall') and len(k[2]) == 2 and k[2][1] == field:
        return k[2][0]
    return None


def loaded(v, field):
    """index, when v was read from that field of an entry"""
    if isinstance(v, Str) and len(v.p) == 1 and v.p[0][0] == 'sym':
        n = v.p[0][1]
    elif isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
        n = v.t[0][0]
    else:
        return None
    return is_table(n[1], field) if isinstance(n, tuple) and n[0] == 'ld' else None


def compared(v):
    """index, when v is the comparison of an entry's file name with the new one"""
    if isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and isinstance(v.t[0][0], tuple) and v.t[0][0][0] == 'strcmp':
        a, b = v.t[0][0][1:]
        for x, y in ((a, b), (b, a)):
            if y == FN:
                return loaded(x, 'included_fn')
    return None


def matches(trail, ne=False):
    """entries found to be of the same file: [(position in trail, index)]"""
    out = []
    for n, x in enumerate(trail):
        if x[0] == 'fact' and x[2] == ('ne' if ne else 'eq') and isinstance(x[3], Lin) and x[3].const == 0:
            ix = compared(x[1])
            if ix is not None:
                out.append((n, ix))
    return out


def is_return(trail, idx, upto, cut=0):
    """the entry is known to be the continuation of a parent file"""
    for x in trail[cut:upto]:
        if x[0] == 'fact' and isinstance(x[3], Lin) and loaded(x[1], 'pushOrPop') == idx:
            c = x[3].const
            if x[2] == 'ne' and c == 0 or x[2] == 'eq' and c not in (None, 0) or x[2] in ('sgt', 'ugt') and c == 0:
                return True
    return False


class Round(trace.Walk):
    def again(self, st, t):
        n = max([k for k, x in enumerate(st.trail) if x[0] == 'enter' and x[1] == t] or [0])
        return any(k > n and not is_return(st.trail, ix, len(st.trail)) for k, ix in matches(st.trail))


def handle(w, st, i, a):
    c = i.callee
    if c == 'readFileToString':
        n = ('file', i.id)
        if isinstance(a[2], tuple) and a[2][0] == 'A' or isinstance(a[2], Str):
            k = a[2][1] if isinstance(a[2], tuple) else ('deref', a[2])
            w.store(st, k, sym(('len', n)), i)
        return S(n)
    if c == 'readInclude':
        n = ('inc', i.id)
        k = a[3][1] if isinstance(a[3], tuple) and a[3][0] == 'A' else ('deref', a[3]) if isinstance(a[3], Str) else None
        st.trail.append(('rec', i, a, w.load(st, k, 'i64') if k else None, st.mem.get(('g', 'g_includeCalls'))))
        if k:
            w.store(st, k, sym(('len', n)), i)
        w.fresh += 1
        st.mem[('g', 'g_includeCalls')] = sym(('x', w.fresh, 'g_includeCalls after'))
        st.mem[('g', 'g_MAX_INCLUDECALLS')] = sym(('x', w.fresh, 'g_MAX_INCLUDECALLS after'))
        w.learn(st, st.mem[('g', 'g_includeCalls')], 'slt', st.mem[('g', 'g_MAX_INCLUDECALLS')])
        return S(n)
    if c == 'countLines':
        b, o = (a[0], Lin(0)) if isinstance(a[0], Str) else a[0][1:] if isinstance(a[0], tuple) and a[0][0] == 'T' else (None, None)
        if b == T and isinstance(a[1], Lin):
            return F(o + a[1]) - F(o)
    if c in ('print2', 'printf'):
        return Lin(0)
    return None


def words(s):
    return s.split()


def comment(pieces, word, w):
    """the pieces are the comment  $( word $[ includeFn $] $)"""
    return len(pieces) == 3 and pieces[0][0] == 'lit' and words(pieces[0][1]) == ['$(', word, '$['] and pieces[0][1][-1:].isspace() and \
        pieces[1] == ('sym', 'includeFn') and pieces[2][0] == 'lit' and words(pieces[2][1]) == ['$]', '$)'] and pieces[2][1][:1].isspace()


def length(pieces):
    return Str(pieces).length()


def check(m, rep):
    f, = need(m, 'readInclude')
    need(m, 'getNextInclusion', 'readFileToString', 'readSourceAndIncludes')
    nr = noreturn(m)
    rep.rule('one round of readInclude(), all paths: text, size, search position, recursion arguments and table entries are those of the '
             'inclusion found (linear forms over the positions, pieces of the text)')
    rep.rule('the search for an earlier inclusion compares every entry of the table up to the current ones; only a found entry makes a Skip')
    found = list(f.calls('getNextInclusion'))
    if len(found) != 1:
        raise Broken('readInclude(): expected one search for the next inclusion, found %d' % len(found))
    g = found[0]
    stop = lambda i: i.id == g.id
    # the first round starts with the text and the line number given
    w0 = trace.Walk(f, nr, (0, 0), stop, handle, through=g.block)
    for end, i, st in w0.paths:
        if end != 'stop':
            continue
        rep.count('obligations')
        if w0.val(st, g.ops[0]) != S(('arg', 0)) or w0.val(st, g.ops[1]) != Lin(0):
            rep.violation('start', 'C25: readInclude() does not begin the search for inclusions at the start of the given text (%s, %s)'
                          % (w0.val(st, g.ops[0]), w0.val(st, g.ops[1])))
    v = f.val(g.ops[0])
    if v is None or v.op != 'load':
        rep.count('not decided')
        return
    k = next(k for k, j in enumerate(f.blocks[g.block]) if j.id == g.id) + 1
    init = {}
    probe = trace.State()
    probe.env, probe.mem, probe.rng, probe.trail, probe.heads, probe.epoch = {}, {}, {}, [], {}, 0
    init[w0.key(probe, v.ops[0])] = T
    for n, val in ((2, P1), (3, P2), (4, E1), (5, E2), (6, sym('cmdType')), (7, FN)):
        init[w0.key(probe, g.ops[n])] = val
    init[('g', 'g_includeCalls')] = G0
    init[('g', 'g_MAX_INCLUDECALLS')] = MAX0
    init[SIZE] = sym('size')
    # loop-carried values: the search position and the parent's line number
    o = g.ops[1]
    so = f.val(o)
    lines = [x for h, body, lat in f.loops if g.block in body for x in __import__('flow').phis(f, h)
             if any(y == ['v', 4] for y, b in x.ops)]
    for kd in 'BISEN':
        one_kind(m, rep, f, nr, g, k, init, so, o, lines, kd, stop)
    rep.atleast('obligations', 10)
    top(m, rep, nr)
    locate(m, rep, nr)
    recognise(m, rep, nr)
    rep.sample('readInclude(): paths %d' % rep.cover.get('paths', 0))


def one_kind(m, rep, f, nr, g, k, init, so, o, lines, kd, stop):
    ini = dict(init)
    for key, v in init.items():
        if v == sym('cmdType'):
            ini[key] = Lin(ord(kd))
    rng = {}

    class R(Round):
        def __init__(s, *a, **b):
            Round.__init__(s, *a, **b)

        def block(s, b, kk, st):
            if not st.env and so is not None:
                st.env[so.id] = START
                for x in lines:
                    st.env[x.id] = sym('parentLine')
                s.learn(st, G0, 'slt', MAX0)
            return Round.block(s, b, kk, st)
    w = R(f, nr, (g.block, k), stop, handle, ini, rng)
    if w.over:
        rep.count('not decided')
        return
    w.shift = shifts(w)
    for end, i, st in w.paths:
        rep.count('paths')
        c = Case(rep, f, w, st, kd, g)
        if end == 'dead':
            c.dead(i)
        elif end == 'lost':
            rep.count('paths not followed')
        elif end == 'back':
            c.latch()
        elif end == 'ret':
            c.end(i)
        else:
            c.round(o, lines)


def keys(x):
    out = []
    if x[0] == 'fact':
        for v in (x[1], x[3]):
            if isinstance(v, Lin):
                for s, c in v.t:
                    if isinstance(s, tuple):
                        if s[0] == 'ld':
                            out.append(s[1])
                        elif s[0] in ('strcmp',):
                            for y in s[1:]:
                                if isinstance(y, Str) and len(y.p) == 1 and y.p[0][0] == 'sym' and isinstance(y.p[0][1], tuple) and y.p[0][1][0] == 'ld':
                                    out.append(y.p[0][1][1])
    return out


def shifts(w):
    """{(loop, counter): difference between the entry compared in a round and the counter at its start}"""
    out = {}
    for end, i, st in w.paths:
        if end != 'back':
            continue
        byloop = [x for x in st.trail if x[0] == 'head']
        n = max([k for k, x in enumerate(st.trail) if x[0] == 'enter'] or [0])
        for x in st.trail[n:]:
            for k in keys(x):
                for fld in ('included_fn', 'pushOrPop'):
                    ix = is_table(k, fld)
                    if ix is None:
                        continue
                    for h in byloop:
                        if isinstance(h[3], Lin) and (ix - h[3]).const is not None:
                            out.setdefault((h[1], h[2]), set()).add((ix - h[3]).const)
    return {k: v.pop() for k, v in out.items() if len(v) == 1}


class Case:
    def __init__(self, rep, f, w, st, kd, g):
        self.rep, self.f, self.w, self.st, self.kd, self.g = rep, f, w, st, kd, g
        self.trail = st.trail

    def bad(self, key, msg, at=None):
        txt = {'B': '"$( Begin $[ ... $( End $["', 'I': '"$[ $]"', 'S': '"$( Skip $["', 'E': '"$( Begin $[" without End', 'N': 'no inclusion'}
        new = [x[1] for x in self.trail if x[0] == 'rec']
        how = ' (first inclusion)' if new else '' if self.kd in 'EN' else ' (included before)'
        at = at or next((x[-1] if x[0] == 'store' else x[1] for x in reversed(self.trail) if x[0] in ('store', 'call')), self.g)
        self.rep.violation('%s|%s%s' % (key, self.kd, '|new' if new else ''), 'C25: readInclude(), case %s%s: %s (path ending at %s)'
                           % (txt[self.kd], how, msg, loc(at)))

    def ok(self):
        self.rep.count('obligations')

    # a round of the search that goes on must have ruled the entry out
    def latch(self):
        t = self.trail
        n = max([k for k, x in enumerate(t) if x[0] == 'enter'] or [0])
        cand = {is_table(k, fld) for x in t[n:] for k in keys(x) for fld in ('included_fn', 'pushOrPop')} - {None}
        if not cand:
            return
        self.rep.count('search rounds')
        gone = {ix for k, ix in matches(t, ne=True) if k >= n}
        gone |= {ix for ix in cand if is_return(t, ix, len(t), n)}
        found = {ix for k, ix in matches(t) if k >= n}
        if not gone and not found:
            self.bad('ruled out', 'the search for an earlier inclusion passes over an entry whose file name it has not compared')

    def dead(self, i):
        """finding an earlier inclusion is never an internal error"""
        if i.callee == 'bug' and any(not is_return(self.trail, ix, len(self.trail)) for n, ix in matches(self.trail)):
            self.bad('aborts', 'an inclusion of a file that was included before is an internal error', i)

    def end(self, i):
        st = self.st
        if self.kd == 'N':
            self.ok()
            r = next(x[2] for x in reversed(self.trail) if x[0] == 'ret')
            if r != T:
                self.bad('returned', 'the text returned is %s, not the text with its inclusions' % r, i)
            if st.mem.get(SIZE, sym('size')) != sym('size'):
                self.bad('size', 'the size is changed at the end', i)
        elif st.mem.get(ERR) != Lin(1):
            self.bad('early', 'the routine ends before all inclusions are processed, without an error', i)

    def round(self, o, lines):
        st, w, kd, t = self.st, self.w, self.kd, self.trail
        text = w.val(st, self.g.ops[0])
        pos = w.val(st, o)
        if kd == 'N':
            self.bad('end', 'the search goes on although there are no more inclusions')
            return
        self.ok()
        if not isinstance(text, Str):
            self.rep.count('not decided')
            return
        size = st.mem.get(SIZE, sym('size'))
        if kd == 'E':
            if st.mem.get(ERR) != Lin(1):
                self.bad('error', 'no error is flagged')
            if text != T or size != sym('size'):
                self.bad('text', 'the text is changed')
            return
        rec = [x for x in t if x[0] == 'rec']
        files = [x for x in t if x[0] == 'call' and x[1].callee == 'readFileToString']
        new = bool(rec)
        found = [(n, ix) for n, ix in matches(t) if not is_return(t, ix, len(t))]
        first = min([n for n, x in enumerate(t) if x[0] == 'rec' or x[0] == 'call' and x[1].callee == 'readFileToString'] or [len(t)])
        if files and not new:
            self.bad('expand', 'the text of the file is not searched for inclusions itself', files[0][1])
            return
        if new and found:
            self.bad('again', 'the file is brought in again although an entry of the table is of the same file', rec[0][1])
            return
        if not new and not found:
            self.bad('skipped', 'the inclusion is skipped although no entry of the table is of the same file')
            return
        if new:
            self.searched(first)
        self.registered(first if new else min(n for n, ix in found))
        if len(rec) > 1 or len(files) > 1:
            self.bad('twice', 'the file is read or expanded twice', rec[-1][1])
            return
        # the text
        q = E2 if kd == 'B' else P2
        inc = None
        p = list(text.p)
        tail = [x for x in p if x[0] == 'cut' and x[1] == 'T' and x[3] == END]
        if new:
            inc = S(('inc', rec[0][1].id))
            n = [j for j, x in enumerate(p) if x == inc.p[0]]
            if len(n) != 1:
                self.bad('text', 'the expanded text is not put in its place (text is now: %s)' % text, rec[0][1])
                return
            pre, post = p[:n[0]], p[n[0] + 1:]
            incpos = length(pre)
            if kd == 'B':
                if pre != [('cut', 'T', Lin(1), P2)] or post != [('cut', 'T', E1, END)]:
                    self.bad('text', 'the source between Begin and End is not replaced by its expansion alone (text is now: %s)' % text)
                    return
                after = incpos + E2 - E1
            else:
                if pre[:1] != [('cut', 'T', Lin(1), P1)] or post[-1:] != [('cut', 'T', P2, END)] or not comment(pre[1:], 'Begin', w) or \
                        not comment(post[:-1], 'End', w) or not pre[-1][1][-1:].isspace():
                    self.bad('text', 'the inclusion is not replaced by the file between its Begin and End comments (text is now: %s)' % text)
                    return
                after = incpos + length(inc.p) + length(post[:-1])
            if kd == 'B':
                after = incpos + length(inc.p) + E2 - E1
            self.recursion(rec[0], files, incpos)
        elif kd == 'S':
            if text != T:
                self.bad('text', 'the text around a Skip comment is changed (text is now: %s)' % text)
                return
            after = P2 - 1
        else:
            if p[:1] != [('cut', 'T', Lin(1), P1)] or p[-1:] != [('cut', 'T', q, END)] or not comment(p[1:-1], 'Skip', w):
                self.bad('text', 'the inclusion is not replaced by a Skip comment (text is now: %s)' % text)
                return
            after = P1 - 1 + length(p[1:-1])
        want = sym('size') + text.length() - T.length()
        if size != want:
            self.bad('size', 'the size becomes %s, but the text grows to %s' % (size, want))
        if pos != after:
            self.bad('position', 'the search goes on at offset %s instead of %s, behind the inclusion' % (pos, after))
        # where error messages place the text
        ent, cont = G0 + 1, G0 + 2
        off = entry(st, cont, 'current_offset', w)
        if off is not None and off != FBO + after:
            self.bad('offset', 'the parent file is taken to go on at offset %s instead of %s' % (off, FBO + after))
        fn = entry(st, cont, 'source_fn', w)
        if fn is not None and fn != SRC:
            self.bad('file', 'the continuation of the parent file gets the file name %s' % fn)
        fn = entry(st, ent, 'source_fn', w)
        if new and fn is not None and fn != (SRC if kd == 'B' else FN):
            self.bad('file', 'the included text gets the file name %s' % fn)
        line0 = sym('parentLine') if lines else None
        if line0 is not None:
            here = lambda z: line0 + F(z) - F(START)
            for x in lines:
                v = st.env.get(x.id)
                if isinstance(v, Lin) and v != here(q - 1):
                    self.bad('line', 'the line number of the rest of the parent file is taken as %s instead of %s' % (v, here(q - 1)))
            cl = entry(st, cont, 'current_line', w)
            if isinstance(cl, Lin) and off is not None and cl != here(q - 1):
                self.bad('line', 'the parent file goes on with line %s instead of %s' % (cl, here(q - 1)))
        if new:
            eo, cl = entry(st, ent, 'current_offset', w), entry(st, ent, 'current_line', w)
            if isinstance(eo, Lin) and isinstance(cl, Lin):
                d = (eo - FBO - incpos).const
                if kd == 'B':
                    good = d == 0 and (line0 is None or cl == here(P2 - 1)) or d == -1 and (line0 is None or cl == here(P2 - 2))
                else:
                    nl = pre[-1][1].endswith('\n')
                    good = d == 0 and cl == Lin(1) or d == -1 and cl == Lin(0 if nl else 1)
                if not good:
                    self.bad('first line', 'the included text is taken to begin at offset %s with line %s; it begins at offset %s'
                             % (eo, cl, FBO + incpos))

    def recursion(self, rec, files, incpos):
        i, a, size, calls = rec[1:]
        st, w, kd = self.st, self.w, self.kd
        self.ok()
        if kd == 'B':
            text = Str([('cut', 'T', P2, E1)])
        else:
            if not files:
                self.bad('file read', 'the included file is not read', i)
                return
            fs = S(('file', files[0][1].id))
            missing = st.rng.get(('null', fs)) == 'eq'
            text = Str() if missing else fs
            if missing and st.mem.get(ERR) != Lin(1):
                self.bad('missing', 'no error is flagged for a file that cannot be read', files[0][1])
            name = files[0][2][0]
            if isinstance(name, Str) and name.p[-1:] != (('sym', 'includeFn'),):
                self.bad('file name', 'the file read is %s' % name, files[0][1])
        if a[0] != text:
            self.bad('expanded', 'the text searched for further inclusions is %s instead of %s' % (a[0], text), i)
        if size != text.length():
            self.bad('size given', 'the size of the text to expand is given as %s instead of %s' % (size, text.length()), i)
        if a[1] != FBO + incpos:
            self.bad('offset given', 'the offset of the text to expand is given as %s instead of %s' % (a[1], FBO + incpos), i)
        if a[2] != (SRC if kd == 'B' else FN):
            self.bad('name given', 'the text to expand is taken to be in file %s' % a[2], i)
        if isinstance(a[4], Lin):
            want = sym('parentLine') + F(P2 - 1) - F(START) if kd == 'B' else Lin(1)
            if a[4] != want:
                self.bad('line given', 'the text to expand is taken to begin with line %s instead of %s' % (a[4], want), i)
        if a[5] != S(('arg', 5)):
            self.bad('flag given', 'errors of nested inclusions are not flagged', i)
        if calls is not None and calls != G0 + 2:
            self.bad('entries', 'nested inclusions are entered at %s instead of behind the two entries of this one' % calls, i)

    def searched(self, first):
        """all entries made before were compared"""
        t, w = self.trail, self.w
        heads = [(n, x) for n, x in enumerate(t[:first]) if x[0] == 'head']
        ok = None
        for n, x in heads:
            h, pid, v, v0 = x[1:]
            if not isinstance(v, Lin) or not isinstance(v0, Lin):
                continue
            lp = w.loops[h]
            if not self.table_loop(lp):
                continue
            step = w.stepping(w.f.inst[pid], lp)
            if step not in (1, -1):
                continue
            c = w.shift.get((h, pid))
            if c is None:
                continue
            v, v0 = v + c, v0 + c
            s = self.st.copy()
            if step == 1:
                lo = v0 == Lin(0)
                all_ = not w.learn(s, v, 'sle', G0)
                own = w.learn(self.st.copy(), v, 'sle', G0 + 1)
            else:
                lo = v0 == G0
                all_ = not w.learn(s, v, 'sge', Lin(0))
                own = True
            if lo and all_ and own:
                self.ok()
                return
            ok = (v0, lo, all_, own)
        if ok is None:
            if not any(self.table_loop(lp) for lp in w.loops.values() if lp[0] not in w.outer):
                self.bad('search', 'the file is brought in without a search for an earlier inclusion of it')
            else:
                self.rep.count('not decided')
            return
        self.bad('search', 'the search for an earlier inclusion %s' % (
            'begins at entry %s' % ok[0] if not ok[1] else 'ends before the last entry' if not ok[2] else 'runs over the entry of this inclusion itself'))

    def table_loop(self, lp):
        f = self.w.f
        return any(i.op == 'getelementptr' and 'included_fn' in ir.opexpr(f, ['v', i.id]) for b in lp[1] for i in f.blocks[b])

    def registered(self, first):
        """the two entries exist before anything looks at the table"""
        t, w = self.trail, self.w
        got = {}
        mx = MAX0
        for x in t[:first]:
            if x[0] == 'store':
                got[x[1]] = x[2]
        ent = {}
        for k, v in got.items():
            for fld in ('pushOrPop', 'included_fn'):
                ix = is_table(k, fld)
                if ix is not None:
                    ent[(ix, fld)] = v
        self.ok()
        if ent.get((G0 + 1, 'pushOrPop')) != Lin(0) or ent.get((G0 + 1, 'included_fn')) != FN:
            self.bad('registered', 'the inclusion is not entered in the table before %s'
                     % ('it is expanded' if any(x[0] == 'rec' for x in t) else 'the table is searched'))
        v = ent.get((G0 + 2, 'pushOrPop'))
        if v is None or v == Lin(0):
            self.bad('continuation', 'the continuation of the parent file is not entered in the table (as such)')
        n = got.get(('g', 'g_includeCalls'))
        if n is not None and n != G0 + 2:
            self.bad('entries', 'the number of entries becomes %s instead of %s' % (n, G0 + 2))
        # every entry written is inside the table
        s = self.st.copy()
        mx = MAX0
        for x in t:
            if x[0] == 'rec':
                break
            if x[0] == 'store' and x[1] == ('g', 'g_MAX_INCLUDECALLS'):
                mx = x[2]
            if x[0] == 'store' and isinstance(x[1], tuple) and x[1][0] == 'gep' and root(x[1]) == ('g', 'g_IncludeCall') and isinstance(mx, Lin):
                self.ok()
                if w.learn(self.st.copy(), x[1][2][0], 'sge', mx):
                    self.bad('table', 'entry %s may be beyond the end of the table' % x[1][2][0], x[3])
                    break
            if x[0] == 'call' and x[1].callee == 'realloc' and isinstance(x[2][1], Lin) and isinstance(mx, Lin):
                c = [kk for ss, kk in x[2][1].t]
                if len(c) == 1 and x[2][1] != mx.scale(c[0]):
                    self.bad('table', 'the table is enlarged to %s bytes, not for %s entries' % (x[2][1], mx), x[1])


def top(m, rep, nr):
    """the main file is the first entry"""
    f = m.funcs['readSourceAndIncludes']
    g = list(f.calls('readInclude'))
    if len(g) != 1:
        raise Broken('readSourceAndIncludes(): expected one call of readInclude()')
    w = trace.Walk(f, nr, (0, 0), lambda i: i.id == g[0].id, handle)
    IN = S(('arg', 0))
    for end, i, st in w.paths:
        if end != 'stop':
            rep.violation('top|skipped', 'C25: readSourceAndIncludes(): a path to %s does not search the text for inclusions' % loc(i))
            continue
        rep.count('obligations')
        a = [w.val(st, o) for o in g[0].ops]

        def bad(key, msg):
            rep.violation('top|' + key, 'C25: readSourceAndIncludes(): %s (%s)' % (msg, loc(g[0])))
        files = [x for x in st.trail if x[0] == 'call' and x[1].callee == 'readFileToString']
        if not files:
            bad('read', 'the source file is not read')
            continue
        fs = S(('file', files[0][1].id))
        missing = st.rng.get(('null', fs)) == 'eq'
        if a[0] != (Str() if missing else fs):
            bad('text', 'the text searched for inclusions is %s' % a[0])
        if a[1] != Lin(0) or a[2] != IN or a[4] != Lin(1):
            bad('place', 'the main text is taken to be in file %s at offset %s, line %s' % (a[2], a[1], a[4]))
        for fld, want in (('pushOrPop', Lin(0)), ('included_fn', IN), ('source_fn', IN), ('current_offset', Lin(0)), ('current_line', Lin(1))):
            v = entry(st, Lin(0), fld, w)
            if v is not None and v != want or v is None and fld in ('pushOrPop', 'included_fn'):
                bad('entry|' + fld, 'the first entry of the table has %s = %s instead of %s' % (fld, v, want))
        if st.mem.get(('g', 'g_includeCalls')) != Lin(1):
            bad('entries', 'the number of the last entry is %s instead of 1' % st.mem.get(('g', 'g_includeCalls')))
    # the end of the text closes the table
    k = next(k for k, j in enumerate(f.blocks[g[0].block]) if j.id == g[0].id)
    w = trace.Walk(f, nr, (g[0].block, k), lambda i: False, handle)
    for end, i, st in w.paths:
        if end != 'ret':
            continue
        r = next(x[2] for x in reversed(st.trail) if x[0] == 'ret')
        if isinstance(r, Lin) and r.const == 0:
            continue
        rep.count('obligations')
        if r != S(('inc', g[0].id)):
            rep.violation('top|returned', 'C25: readSourceAndIncludes() returns %s instead of the text with its inclusions (%s)' % (r, loc(i)))
        v = entry(st, Lin(1), 'current_offset', w)
        if v != sym(('len', ('inc', g[0].id))):
            rep.violation('top|end', 'C25: readSourceAndIncludes(): the end of the main file is entered as %s instead of the size of the text (%s)'
                          % (v, loc(i)))


def locate(m, rep, nr):
    """file and line of a place in the text: of the last entry that begins before it"""
    f, = need(m, 'getFileAndLineNum')
    rep.rule('getFileAndLineNum(): the entry used is the one beginning closest before the place, all entries are looked at, and its file name '
             'and line number plus the line ends between are returned')
    POS = sym(('addr', S(('arg', 1)))) - sym(('addr', S(('arg', 0))))
    BUF = S(('arg', 0))

    def hand(w, st, i, a):
        if i.callee == 'countLines':
            b, o = (a[0], Lin(0)) if isinstance(a[0], Str) else a[0][1:] if isinstance(a[0], tuple) and a[0][0] == 'T' else (None, None)
            if b == BUF and isinstance(a[1], Lin):
                return F(o + a[1]) - F(o)
            return None
        if i.callee == 'print2':
            return Lin(0)
        return None
    w = trace.Walk(f, nr, (0, 0), lambda i: False, hand, {('g', 'g_includeCalls'): G0})
    if w.over:
        rep.count('not decided')
        return

    def table(v):
        """[(field, index)] of the entries a value was read from"""
        out = []
        for s, c in v.t if isinstance(v, Lin) else ():
            if isinstance(s, tuple) and s[0] == 'ld':
                for fld in ('current_offset', 'current_line'):
                    ix = is_table(s[1], fld)
                    if ix is not None:
                        out.append((fld, ix, c))
        return out

    def co(trail, ix):
        for x in trail:
            if x[0] in ('fact', 'call', 'store'):
                for v in x[1:] if x[0] == 'fact' else [x[2]] if x[0] == 'store' else x[2]:
                    for y in ([v] if isinstance(v, Lin) else [v[2]] if isinstance(v, tuple) and v and v[0] == 'T' else []):
                        for s, c in y.t:
                            if isinstance(s, tuple) and s[0] == 'ld' and is_table(s[1], 'current_offset') == ix:
                                return sym(s)
        return None

    def bad(key, msg, i):
        rep.violation('locate|' + key, 'C25: getFileAndLineNum(): %s (%s)' % (msg, loc(i)))
    for end, i, st in w.paths:
        if end == 'ret':
            rep.count('obligations')
            v = st.mem.get(('deref', S(('arg', 2))))
            r = next(x[2] for x in reversed(st.trail) if x[0] == 'ret')
            fi = loaded(r, 'source_fn')
            ln = [(ix, c) for fld, ix, c in table(v) if fld == 'current_line']
            other = loaded(r, 'included_fn')
            if other is not None:
                bad('entry', 'the name of the file included is returned, not that of the file the text is in', i)
            if fi is None or not isinstance(v, Lin) or len(ln) != 1:
                rep.count('not decided')
                continue
            ix = ln[0][0]
            if fi != ix:
                bad('entry', 'the file name of entry %s is given with the line number of entry %s' % (fi, ix), i)
                continue
            off = co(st.trail, ix)
            if off is None:
                continue
            base = v - sym(next(s for s, c in v.t if isinstance(s, tuple) and s[0] == 'ld' and is_table(s[1], 'current_line') == ix))
            want = [F(POS) - F(off)] + ([F(POS + off) - F(off), F(POS)] if ix == Lin(0) else [])
            if base not in want:
                bad('line', 'the line number counts %s beyond the line of the entry instead of %s' % (base, want[0]), i)
            heads = [x for x in st.trail if x[0] == 'head']
            for x in heads:
                h, pid, hv, v0 = x[1:]
                step = w.stepping(f.inst[pid], w.loops[h])
                if step == 1 and isinstance(v0, Lin) and isinstance(hv, Lin):
                    # several rounds: the counter of the last one
                    last = [y[2].get(pid) for y in st.trail if y[0] == 'enter' and y[1] == h]
                    cur = st.env.get(pid, hv)
                    if v0.const not in (0, 1):
                        bad('first', 'the search for the entry begins with entry %s' % v0, i)
                    if isinstance(cur, Lin) and w.learn(st.copy(), cur, 'sle', G0):
                        bad('last', 'the search for the entry ends before the last one', i)
        elif end == 'back':
            heads = [x for x in st.trail if x[0] == 'head']
            if not heads:
                continue
            h, pid, hv, v0 = heads[-1][1:]
            n = max(k for k, x in enumerate(st.trail) if x[0] == 'enter')
            # the entry of this round was not taken: it begins behind the place or further before it
            cur = st.env.get(pid)
            off = co(st.trail[n:], cur) if isinstance(cur, Lin) else None
            if off is None:
                continue
            rep.count('search rounds')
            best = [x for x in st.trail if x[0] == 'enter'][-1][2]
            dist = POS - off
            s = st.copy()
            if not w.learn(s, dist, 'sge', Lin(0)):
                continue
            smaller = False
            for k, b in best.items():
                if k != pid and isinstance(b, Lin) and (b == POS or (b - POS).t and all(c == -1 for s2, c in (b - POS).t)):
                    smaller = not w.learn(s.copy(), dist, 'slt', b)
                    if smaller:
                        break
            if not smaller:
                bad('passed', 'an entry that begins before the place and after the one found so far is passed over', i)


def recognise(m, rep, nr):
    """getNextInclusion(): what counts as an inclusion, and the positions given for it"""
    f, = need(m, 'getNextInclusion')
    need(m, 'rawWhiteSpaceLen', 'rawTokenLen', 'whiteSpaceLen')
    rep.rule('getNextInclusion(), one round per token and mode: an inclusion is reported exactly when all of its tokens are there, with the '
             'positions of its first token and behind its last one and the file name between the brackets')
    # the outer loop: the one that asks for tokens in its header
    loops = [l for l in f.loops if any(i.is_call('rawTokenLen') for b in l[1] for i in f.blocks[b])]
    if not loops:
        rep.count('not decided')
        return
    h, body, lat = max(loops, key=lambda l: len(l[1]))
    ph = list(__import__('flow').phis(f, h))
    ptr = [x for x in ph if x.ty == 'ptr']
    modes = [x for x in ph if x.ty != 'ptr' and any(o == ['c', 0] for o, b in x.ops) and any(o == ['c', 1] or f.val(o) is not None for o, b in x.ops)]
    modes = [x for x in modes if {k for k in consts(f, x)} == {0, 1}]
    if len(ptr) != 1 or len(modes) != 1:
        rep.count('not decided')
        return
    BUF, POS = S(('arg', 0)), sym('pos')
    OUT = {k: ('deref', S(('arg', n))) for k, n in (('cmdPos1', 2), ('cmdPos2', 3), ('endPos1', 4), ('endPos2', 5), ('type', 6), ('name', 7))}

    def at(v):
        return (v, Lin(0)) if isinstance(v, Str) else v[1:] if isinstance(v, tuple) and v[0] == 'T' else (None, None)

    ids = {}

    def pid(st, o):
        o = norm(st, o)
        return ids.setdefault(o, 'p%d' % len(ids))

    def hand(w, st, i, a):
        c = i.callee
        if c in ('rawWhiteSpaceLen', 'whiteSpaceLen', 'rawTokenLen'):
            b, o = at(a[0])
            if b == BUF:
                r = sym(({'rawWhiteSpaceLen': 'rws', 'whiteSpaceLen': 'ws', 'rawTokenLen': 'tok'}[c], pid(st, o)))
                w.learn(st, r, 'sge', Lin(0))
                return norm(st, r)
        if c == 'strncmp' and len(a) == 3:
            # which word the token is compared with
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                b, o = at(y)
                if b == BUF and isinstance(x, Str) and x != BUF:
                    n = pid(st, o)
                    whole = norm(st, a[2]) == norm(st, sym(('tok', n))) or x.p[:1] and x.p[0][0] == 'lit' and a[2] == x.length()
                    return sym(('cmp', x, n) if whole else ('cmp', x, n, a[2]))
        if c in ('print2', 'printf'):
            return Lin(0)
        if c == 'let' and a[0] == S(('arg', 7)):
            w.store(st, OUT['name'], a[1], i)
            return Lin(0)
        return None

    class Scan(trace.Walk):
        def load(self, st, k, ty, i=None):
            if k[0] == 'char' and k[1] == BUF:
                return norm(st, sym(('char', pid(st, k[2]))))
            if k[0] == 'char':
                return sym(('char', k[1], norm(st, k[2])))
            return trace.Walk.load(self, st, k, ty, i)

    for end, i, st, mode in rounds(f, nr, h, ptr[0], modes[0], BUF, POS, OUT, hand, rep, Scan):
        rep.count('obligations')
        W0 = st.walk

        def tok(o):
            return norm(st, sym(('tok', pid(st, o))))

        def rws(o):
            return norm(st, o + sym(('rws', pid(st, o))))

        def ws(o):
            return norm(st, o + sym(('ws', pid(st, o))))

        def ch(o):
            return sym(('char', pid(st, o)))

        def word(t, o):
            """literals: the token at o is t"""
            return [(tok(o), Lin(len(t))), (sym(('cmp', lit(t), pid(st, o))), Lin(0))]
        P0 = rws(POS)
        A = norm(st, P0 + tok(P0))
        N = ws(A)
        C = ws(N + tok(N))
        W = rws(A)

        def learn2(a, p, c):
            return W0.learn(st.copy(), norm(st, a), p, c)

        def holds(lits):
            """all literals are known on the path"""
            return all(not learn2(a, 'ne', c) for a, c in lits)

        def ruled(lits):
            return any(not learn2(a, 'eq', c) for a, c in lits)
        t = st.mem.get(OUT['type'])
        typ = chr(t.const) if isinstance(t, Lin) and t.const in KINDS else None
        cls = {'I': [(ch(P0), Lin(ord('$'))), (ch(P0 + 1), Lin(ord('[')))] + word('$]', C)}
        names = {'I': (N, C + 2)}
        for wd, k in (('Skip', 'S'), ('Begin', 'B'), ('End', 'X')):
            b = rws(W + len(wd))
            n = rws(b + 2)
            e = rws(n + tok(n))
            z = rws(e + 2)
            cls[k] = [(ch(P0), Lin(ord('$'))), (ch(P0 + 1), Lin(ord('(')))] + word(wd, W) + word('$[', b) + word('$]', e) + word('$)', z)
            names[k] = (n, z + 2)

        def bad(key, msg):
            rep.violation('recognise|%s' % key, 'C25: getNextInclusion(): %s (%s)' % (msg, loc(next((x[-1] for x in reversed(st.trail) if x[0] == 'store'), i))))

        def same(v, want):
            return isinstance(v, Lin) and (norm(st, v) == want or not W0.learn(st.copy(), norm(st, v) - want, 'ne', Lin(0)))
        what = {'I': '$[ $]', 'S': '$( Skip $[ $] $)', 'B': '$( Begin $[ $] $)', 'X': '$( End $[ $] $)'}

        def named(k, v):
            n, z = names[k]
            if isinstance(v, Str) and len(v.p) == 1 and v.p[0][0] == 'cut' and v.p[0][1] == ('arg', 0):
                x = v.p[0]
                return norm(st, x[2]) == n + 1 and norm(st, x[3] - x[2]) == norm(st, tok(n))
            return False
        changed = {x[1] for x in st.trail if x[0] == 'store'}
        if end == 'ret':
            if typ is None:
                rep.count('not decided')
                continue
            atend = not learn2(tok(P0), 'ne', Lin(0))
            if typ in 'NE':
                if not atend:
                    bad('end', 'the search ends before the end of the text')
                elif (typ == 'E') != (mode == 1):
                    bad('type end', 'at the end of the text %s is reported %s a Begin comment whose End is missing'
                        % ('an error' if typ == 'E' else 'no inclusion', 'with' if mode else 'without'))
                continue
            k = 'X' if mode == 1 else typ
            if mode == 1 and typ != 'B' or mode == 0 and typ not in 'IS':
                bad('type', 'an inclusion of type %s is reported %s a Begin comment' % (typ, 'after' if mode else 'without'))
                continue
            if not holds(cls[k]):
                bad('tokens %s' % k, '"%s" is reported although not all of its tokens are there' % what[k])
                continue
            p1, p2 = ('endPos1', 'endPos2') if mode else ('cmdPos1', 'cmdPos2')
            if not same(st.mem.get(OUT[p1]), norm(st, P0) + 1):
                bad('begin %s' % k, 'the position of "%s" is %s, not that of its first character' % (what[k], st.mem.get(OUT[p1])))
            if not same(st.mem.get(OUT[p2]), names[k][1] + 1):
                bad('behind %s' % k, 'the position behind "%s" is %s instead of %s' % (what[k], st.mem.get(OUT[p2]), names[k][1] + 1))
            if mode == 0:
                if not named(k, st.mem.get(OUT['name'])):
                    bad('name %s' % k, 'the file name of "%s" is not the token between its brackets (%s)' % (what[k], st.mem.get(OUT['name'])))
                for x in ('endPos1', 'endPos2'):
                    if st.mem.get(OUT[x]) != Lin(0):
                        bad('ends %s' % k, 'a position of an End comment is given for "%s"' % what[k])
            else:
                n, z = names[k]
                nm = st.mem.get(OUT['name'])
                eq = [(sym(('cmp', nm, pid(st, n))), Lin(0)), (sym(('char', nm, norm(st, tok(n)))), Lin(0))]
                if not all(known(st, W0, a) for a, c in eq) and not equal_names(st, nm, n):
                    bad('same name', 'an End comment is taken for the matching one although its file name need not be the same')
                for x in ('cmdPos1', 'cmdPos2'):
                    if OUT[x] in changed:
                        bad('kept', 'the position of the Begin comment is changed while its End is looked for')
        else:
            nm = st.env.get(modes[0].id)
            nm = nm.const if isinstance(nm, Lin) else None
            if nm is None:
                rep.count('not decided')
                continue
            if mode == 0 and nm == 1:
                k = 'B'
                if not holds(cls[k]):
                    bad('tokens B', 'the search for an End begins although not all tokens of the Begin comment are there')
                    continue
                if not same(st.mem.get(OUT['cmdPos1']), norm(st, P0) + 1):
                    bad('begin B', 'the position of "%s" is %s, not that of its first character' % (what[k], st.mem.get(OUT['cmdPos1'])))
                v = st.mem.get(OUT['cmdPos2'])
                z = names[k][1]
                for s2, v2 in split(st, W0, v):
                    d = (norm(s2, v2) - norm(s2, z)).const if isinstance(v2, Lin) else None
                    if d not in (1, 2):
                        bad('behind B', 'the position behind "%s" is %s' % (what[k], v))
                    elif d == 2 and W0.learn(s2.copy(), ch(z), 'eq', Lin(0)):
                        bad('behind B', 'a character behind "%s" is counted although the text may end there' % what[k])
                if not named(k, st.mem.get(OUT['name'])):
                    bad('name B', 'the file name of "%s" is not the token between its brackets' % what[k])
            elif mode == 1 and nm == 0:
                bad('end lost', 'the search for the End comment is given up')
            else:
                for k in (('I', 'S', 'B') if mode == 0 else ()):
                    if not ruled(cls[k]):
                        bad('missed %s' % k, '"%s" can be passed over' % what[k])
                if mode == 1 and not ruled(cls['X']):
                    nmv = st.mem.get(OUT['name'])
                    n = names['X'][0]
                    differ = [x for x in st.trail if x[0] == 'fact' and x[2] == 'ne' and isinstance(x[1], Lin) and x[1].t and
                              isinstance(x[1].t[0][0], tuple) and x[1].t[0][0][0] in ('cmp', 'char', 'strcmp')]
                    if not differ:
                        bad('missed End', 'the matching End comment can be passed over')
    rep.sample('getNextInclusion(): rounds %d' % rep.cover.get('token rounds', 0))


def consts(f, x, seen=None):
    import sem
    return {o[1] for o in sem.leaves(f, ['v', x.id]) if o[0] == 'c'}


def rounds(f, nr, h, ptr, mode, BUF, POS, OUT, hand, rep, Scan):
    for md in (0, 1):
        init = {OUT['name']: S('oldname')}
        w = Scan(f, nr, (h, 0), lambda i: False, hand, init, None, h, h, {ptr.id: ('T', BUF, POS), mode.id: Lin(md)})
        if w.over:
            rep.count('not decided')
            continue
        for end, i, st in w.paths:
            if end in ('ret', 'round'):
                rep.count('token rounds')
                st2 = Traced(st, w)
                yield end, i, st2, md


class Traced(trace.State):
    __slots__ = ('walk',)

    def __init__(self, st, w):
        for a in ('env', 'mem', 'rng', 'trail', 'heads', 'epoch'):
            setattr(self, a, getattr(st, a))
        self.walk = w


def norm(st, v):
    """unknowns with one possible value are replaced by it"""
    if not isinstance(v, Lin):
        return v
    r = v
    for s, k in v.t:
        x = st.rng.get(sym(s))
        if isinstance(x, tuple) and x[0] == x[1]:
            r = r - sym(s).scale(k) + x[0] * k
    return r


def split(st, w, v):
    """the value without comparisons taken as numbers: one result for each of their outcomes"""
    for s, k in v.t if isinstance(v, Lin) else ():
        if isinstance(s, tuple) and s[0] == 'icmp':
            out = []
            for yes in (1, 0):
                c = st.copy()
                if w.learn(c, s[1], s[2] if yes else ir.NEG[s[2]], s[3]):
                    out += split(c, w, v - sym(s).scale(k) + yes * k)
            return out
    return [(st, v)]


def known(st, w, a):
    """a is known to be zero"""
    return not w.learn(st.copy(), a, 'ne', Lin(0)) or any(
        x[0] == 'fact' and x[2] == 'eq' and isinstance(x[3], Lin) and x[3].const == 0 and isinstance(x[1], Lin) and norm(st, x[1]) == norm(st, a)
        for x in st.trail)


def equal_names(st, nm, n):
    """the names were compared as a whole"""
    for x in st.trail:
        if x[0] == 'fact' and x[2] == 'eq' and isinstance(x[3], Lin) and x[3].const == 0 and isinstance(x[1], Lin) and len(x[1].t) == 1:
            s = x[1].t[0][0]
            if isinstance(s, tuple) and s[0] == 'strcmp' and nm in s[1:]:
                return True
    return False
