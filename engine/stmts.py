"""C05: well-formedness of statements.  C06: scoping and the frame of an assertion (parseStatements)."""
import re
import ir
import flow
import sem
from ir import loc, opexpr
from base import Broken
from common import *
from sem import X, facts
from oblig import Must, reported_event
import verify

CODE = {'d': 100, 'e': 101, 'f': 102, 'a': 97, 'p': 112, 'v': 118, 'c': 99, '{': 123, '}': 125}
SCOPE = 'ld(&g_currentScope)'


class P:
    """parseStatements(): the statement loop and its parts"""

    def __init__(self, m, rep):
        self.m, self.rep = m, rep
        self.nr = noreturn(m)
        self.f, = need(m, 'parseStatements')
        f = self.f
        best = None
        for l in f.loops:
            for k in sem.counting(f, l):
                if X(f, k.bound) == 'ld(&g_statements)' and (best is None or len(l[1]) > len(best[0][1])):
                    best = (l, k)
        if best is None or not any(i.callee in ('sourceError',) for b in best[0][1] for i in f.blocks[b]):
            raise Broken('statement loop of parseStatements not found')
        self.S, self.K = best
        self.st = opexpr(f, ['v', self.K.phi.id])
        self.type = 'ld(ld(&g_Statement)[%s].type)' % self.st
        self.dead = sem.dead_blocks(f, self.nr)
        # copies of the statement type kept in a local variable
        self.types = {self.type}
        for i in f.insts():
            if i.op == 'phi' and all(X(f, x) == self.type for x, b in i.ops):
                self.types.add(opexpr(f, ['v', i.id]))

    def tlits(self, which):
        """literals  't=x' and 't!x' on the type of the statement"""
        out = {}
        for x in which:
            k = CODE[x]

            def eq(a, p, c, ao, co, k=k):
                return a in self.types and p == 'eq' and c == str(k)

            def ne(a, p, c, ao, co, k=k):
                return a in self.types and ((p == 'ne' and c == str(k)) or (p == 'eq' and c.lstrip('-').isdigit() and c != str(k)))
            out['t=' + x] = eq
            out['t!' + x] = ne
        return out

    def inner(self, block):
        """loops inside the statement loop that contain block, innermost first"""
        return [l for l in sem.loops_of(self.f, block) if l[0] != self.S[0] and l[1] < self.S[1]]

    excl = [('t=' + x, 't!' + x) for x in CODE]

    def run(self, mon, text, tag=''):
        mon.excl = mon.excl or self.excl
        mon.run()
        self.rep.count('obligations', len(mon.points))
        for i, p, key in mon.errors:
            self.rep.violation('parseStatements|%s%s' % (p, tag), '%s (%s); path %s' % (text[p], loc(i), mon.witness(key)))
        return mon


def implies_ne(p, c, k):
    """(x p c) implies x != k"""
    if not re.match(r'-?\d+$', c):
        return False
    c = int(c)
    return {'ne': c == k, 'eq': c != k, 'sgt': k <= c, 'sge': k < c, 'slt': k >= c, 'sle': k > c,
            'ugt': k <= c, 'uge': k < c, 'ult': c >= 0 and k >= c, 'ule': c >= 0 and k > c}[p]


def plain_elem(f, o):
    """(base operand, index operand) of a plain array element address"""
    v = f.val(o)
    if v is None or v.op != 'getelementptr' or len(v.path) != 1:
        return None
    if 'struct.' in (v.aty or '') or not isinstance(v.path[0][1], (list, tuple)):
        return None
    return v.ops[0], flow.strip(f, v.path[0][1])


def istype_tok(f, a, ao, want, cands):
    """literal 'token is a constant/variable' for a token among cands (texts)"""
    tk = verify.token_index(f, ao)
    return tk is not None and (X(f, tk) in cands)


def tok_lit(f, const, cands):
    def g(a, p, c, ao, co):
        if p not in ('eq', 'ne') or c not in ('0', '1') or not a.endswith('.tokenType)'):
            return False
        k = int(c) if p == 'eq' else 1 - int(c)
        return k == (1 if const else 0) and istype_tok(f, a, ao, k, cands)
    return g


TEXT = {
    'd-const': 'a constant symbol is accepted in a $d statement without an error message',
    'first': 'the first symbol of a statement is not a constant and no error is reported',
    'f-second': 'the second symbol of a $f statement is not a variable and no error is reported',
    'f-third': 'a third symbol of a $f statement is accepted without an error message',
    'inactive': 'a symbol is taken into a statement without having been found active and without an error message',
    'd-short': 'a $d statement with fewer than two symbols is not reported',
    'empty': 'an empty statement is not reported',
    'f-short': 'a $f statement with a single symbol is not reported',
    'c-scope': 'a $c declaration inside a scope is not reported',
    'dup': 'a symbol that is still active in this scope is declared again without an error message',
    'unscanned': 'a symbol with namesakes is declared without looking at them',
    'clash': 'a symbol is declared both constant and variable without an error message',
    'too-many': 'a surplus $} is not reported',
    'missing': 'missing $} at the end of the file are not reported',
    'pair': 'a pair of variables of a $d statement is neither recorded nor found to be recorded already, and nothing is reported',
    'no-f': 'a variable that no $f hypothesis of the assertion covers is not reported',
    'dup-f': 'two $f hypotheses for the same variable are not reported',
}


def web(f, o):
    """texts of o and of everything that can flow into it through merges"""
    r = {X(f, o)}
    seen = set()
    st = [o]
    while st:
        x = flow.strip(f, st.pop())
        r.add(X(f, x))
        i = f.val(x)
        if i is None or i.op not in ('phi', 'select') or i.id in seen:
            continue
        seen.add(i.id)
        st.extend([y for y, b in i.ops] if i.op == 'phi' else i.ops[1:])
    return r


def tokens(q):
    """symbols of $d/$e/$f/$a/$p statements"""
    f, rep = q.f, q.rep
    W = []
    for i in f.insts():
        if i.op != 'store' or i.block not in q.S[1]:
            continue
        e = plain_elem(f, i.ops[1])
        if e is None:
            continue
        # the value comes from the table of declared symbols
        for x in sem.leaves(f, i.ops[0]):
            t = opexpr(f, x)
            if t.startswith('ld(') and ('ld(&g_mathKey)[' in t or 'ld(bsearch(' in t) and '.tokenType' not in t and '.active' not in t:
                W.append((i, e))
                break
    rep.count('symbol_stores', len(W))
    for w, (base, idx) in W:
        cands = web(f, w.ops[0])
        heads = {l[0] for l in q.inner(w.block)}
        tl = q.tlits('df')
        lits = dict(tl)
        lits['con'] = tok_lit(f, True, cands)
        lits['var'] = tok_lit(f, False, cands)
        for k in (0, 1, 2):
            lits['len!%d' % k] = lambda a, p, c, ao, co, k=k: a == X(f, idx) and implies_ne(p, c, k)

        def active(a, p, c, ao, co):
            mm = re.match(r'ld\(ld\(&g_MathToken\)\[(.*)\]\.active\)$', a, re.S)
            return bool(mm) and mm.group(1) in cands and ((p == 'ne' and c == '0') or (p == 'eq' and c == '1'))
        lits['act'] = active

        def long(x):
            # a value computed from a symbol length, which is never negative
            return any(f.val(y) is not None and f.val(y).op == 'call' and f.val(y).callee == 'tokenLen' for y in sem.leaves(f, x))
        lits['none'] = lambda a, p, c, ao, co: c == '0' and p in ('sle', 'slt') and a.startswith('phi') and long(ao)
        lits['some'] = lambda a, p, c, ao, co: c == '0' and p == 'ne' and a.startswith('phi') and long(ao)
        tokenlits = frozenset(['con', 'var', 'len!0', 'len!1', 'len!2', 'act', 'rep', 'none', 'some'])
        resets = {h: tokenlits for h in heads}
        resets[q.S[0]] = None
        cl = [('d-const', ['t!d', 'var', 'rep']), ('first', ['t=d', 'len!0', 'con', 'rep']),
              ('f-second', ['t!f', 'var', 'len!1', 'rep']), ('f-third', ['t!f', 'len!2', 'rep']), ('inactive', ['act', 'rep'])]
        mon = Must(f, q.nr, (q.S[0], 0), lits, {'rep': reported_event}, resets=resets,
                   at=lambda i: cl if i.id == w.id else None, until=lambda b, t: t not in q.S[1])
        mon.excl = q.excl + [('con', 'var'), ('none', 'some')]
        q.run(mon, TEXT)
    # lengths
    for i in f.insts():
        if i.op != 'store' or i.block not in q.S[1] or opexpr(f, i.ops[1]) != 'ld(&g_Statement)[%s].mathStringLen' % q.st:
            continue
        ix = X(f, i.ops[0])
        if i.ops[0][0] != 'v' or f.val(i.ops[0]) is None or f.val(i.ops[0]).op != 'phi':
            continue
        lits = q.tlits('df')
        for k in (0, 1):
            lits['len!%d' % k] = lambda a, p, c, ao, co, k=k: a == ix and implies_ne(p, c, k)
        lits['len!01'] = lambda a, p, c, ao, co: a == ix and implies_ne(p, c, 0) and implies_ne(p, c, 1) and p not in ('eq',) or \
            (a == ix and p == 'eq' and c.isdigit() and int(c) > 1)
        heads = {l[0]: frozenset(['rep', 'len!0', 'len!1', 'len!01']) for l in f.loops
                 if l[1] < q.S[1] and i.block not in l[1] and any(w.block in l[1] for w, e in W)}
        heads[q.S[0]] = None
        cl = [('d-short', ['t!d', 'len!01', 'rep', lambda m: {'len!0', 'len!1'} <= m._now]),
              ('empty', ['len!0', 'len!01', 'rep']), ('f-short', ['t!f', 'len!01', 'len!1', 'rep'])]
        mon = Len(f, q.nr, (q.S[0], 0), lits, {'rep': reported_event}, resets=heads,
                  at=lambda j: cl if j.id == i.id else None, until=lambda b, t: t not in q.S[1])
        q.run(mon, TEXT)
        rep.count('length_stores')


class Len(Must):
    def due(self, st, clauses, inst, key):
        self._now = st
        Must.due(self, st, clauses, inst, key)


def declarations(q):
    """$c and $v"""
    f, rep = q.f, q.rep
    n = 0
    for w in f.insts():
        if w.op != 'store' or w.block not in q.S[1] or w.ops[0] != ['c', 1]:
            continue
        mm = re.match(r'ld\(&g_MathToken\)\[(.*)\]\.active$', opexpr(f, w.ops[1]), re.S)
        ls = q.inner(w.block)
        if not mm or not ls:
            continue
        D = ls[-1]
        tok = mm.group(1)
        n += 1
        # $c in the outermost scope
        lits = q.tlits('cv')
        lits['outer'] = lambda a, p, c, ao, co: a == SCOPE and ((p in ('sle', 'eq') and c == '0') or (p == 'slt' and c == '1'))
        mon = Must(f, q.nr, (q.S[0], 0), lits, {'rep': reported_event}, resets={q.S[0]: None},
                   at_edge=lambda b, t: [('c-scope', ['t=v', 't!c', 'outer', 'rep'])] if t == D[0] and b not in D[1] else None,
                   until=lambda b, t: t == D[0] or t not in q.S[1])
        q.run(mon, TEXT)
        # namesakes
        act = re.compile(r'ld\(ld\(&g_MathToken\)\[(ld\(ld\(&g_mathKey\)\[.*\]\))\]\.(active|scope|tokenType)\)$', re.S)
        scans, types = [], []
        for i in f.insts():
            if i.op == 'load' and i.block in D[1]:
                a = act.match(opexpr(f, ['v', i.id]))
                if a:
                    l = sem.loop_of(f, i.block)
                    if l and l[0] != D[0] and l[1] < D[1]:
                        (scans if a.group(2) == 'active' else types if a.group(2) == 'tokenType' else []).append(l)
        scans = list({l[0]: l for l in scans}.values())
        types = list({l[0]: l for l in types}.values())

        def inactive(a, p, c, ao, co):
            a2 = act.match(a)
            return bool(a2) and a2.group(2) == 'active' and ((p == 'eq' and c == '0'))

        def newer(a, p, c, ao, co):
            a2 = act.match(a)
            return bool(a2) and a2.group(2) == 'scope' and c == SCOPE and p == 'sgt'
        for l in scans:
            cnt = {(k.block, k.exit_to) for k in sem.counting(f, l)}
            end = round_end(f, l, cnt)
            mon = Must(f, q.nr, (l[0], 0), {'in': inactive, 'newer': newer}, {'rep': reported_event},
                       at_edge=lambda b, t, l=l: [('dup', ['in', 'newer', 'rep'])]
                       if end(b, t) and (b, t) not in cnt else None, until=end)
            q.run(mon, TEXT)
            rep.count('namesake_scans')
        if scans:
            def unique(a, p, c, ao, co):
                v = f.val(flow.strip(f, ao))
                return p == 'eq' and c == '0' and v is not None and v.op == 'load' and a.startswith('ld(malloc(') and tok in a
            allowed = scans + types
            for grp in (scans, types):
                if not grp:
                    continue
                gh = {l[0] for l in grp}
                mon = Must(f, q.nr, (D[0], 0), {'uniq': unique}, {}, resets={D[0]: None},
                           at=lambda i: [('unscanned', ['uniq', 'scan'])] if i.id == w.id else None,
                           until=lambda b, t: t not in D[1])
                old = mon.edge

                def edge(st, b, t, old=old, gh=gh):
                    r = old(st, b, t)
                    if r is not None and t in gh:
                        r = r | {'scan'}
                    return r
                mon.edge = edge
                q.run(mon, TEXT)
        clash(q, w, D, tok, act, types)
    rep.count('declaration_sites', n)


class Clash(flow.Monitor):
    """State: (a constant seen, a variable seen, reported, own type)"""

    def __init__(self, q, w, D, tok, act, init=(0, 0, 0, None)):
        flow.Monitor.__init__(self, q.f, (D[0], 0), init)
        self.q, self.w, self.D, self.tok, self.act = q, w, D, tok, act

    def step(self, st, i):
        if i.op == 'call' and i.callee in self.q.nr:
            return None
        if reported_event(i):
            st = st[:2] + (1, st[3])
        if i.id == self.w.id:
            con, var, rep, own = st
            if not rep and ((con and own != 'con') or (var and own != 'var')):
                self.err(i, 'clash')
            return None
        return st

    def edge(self, st, b, t):
        if t not in self.D[1] or t == self.D[0]:
            return None
        con, var, rep, own = st
        for a, p, c, ao, co in facts(self.f, b, t):
            if a.endswith('.tokenType)') and p in ('eq', 'ne') and c in ('0', '1'):
                k = int(c) if p == 'eq' else 1 - int(c)
                if a == 'ld(ld(&g_MathToken)[%s].tokenType)' % self.tok:
                    new = 'con' if k else 'var'
                    if own not in (None, new):
                        return None
                    own = new
                elif self.act.match(a) and p == 'eq':
                    if k:
                        con = 1
                    else:
                        var = 1
        return (con, var, rep, own)


def clash(q, w, D, tok, act, types):
    """the scan over the namesakes must see every kind, and the outcome must be reported"""
    f, rep = q.f, q.rep
    if not types:
        return
    c = Clash(q, w, D, tok, act)
    c.run()
    rep.count('obligations')
    for i, p, key in c.errors:
        rep.violation('parseStatements|clash', '%s (%s); path %s' % (TEXT['clash'], loc(i), c.witness(key)))


def scopes(q):
    """balance of ${ and $}"""
    f, rep = q.f, q.rep
    n = 0
    for i in f.insts():
        if global_store_name(f, i) != 'g_currentScope' or i.block not in q.S[1]:
            continue
        v = f.val(flow.strip(f, i.ops[0]))
        if v is None or v.op != 'add' or v.ops[1] != ['c', -1]:
            continue
        n += 1
        new = {X(f, i.ops[0]), SCOPE}
        old = {X(f, x) for x in [v.ops[0]]} | {X(f, x) for x in sem.leaves(f, v.ops[0])}

        def nonneg(a, p, c, ao, co):
            if not re.match(r'-?\d+$', c):
                return False
            c = int(c)
            if a in new and a != SCOPE or (a == SCOPE and ao[0] == 'v' and f.inst[ao[1]].op == 'load' and
                                           f.dom_inst(i, f.inst[ao[1]])):
                return (p == 'sgt' and c >= -1) or (p == 'sge' and c >= 0)
            if a in old:
                return (p == 'sgt' and c >= 0) or (p == 'sge' and c >= 1)
            return False
        # established before or after the decrement, within the round
        mon = Must(f, q.nr, (q.S[0], 0), dict(q.tlits('}'), ok=nonneg), {'rep': reported_event, 'dec': lambda j: j.id == i.id},
                   resets={q.S[0]: None},
                   at_edge=lambda b, t: [('too-many', ['ok', 'rep', lambda m: 'dec' not in m._now])] if t == q.S[0] else None,
                   until=lambda b, t: t == q.S[0] or t not in q.S[1])
        mon.__class__ = Len
        q.run(mon, TEXT)
    rep.count('scope_closings', n)
    # the end of the file
    lits = {'closed': lambda a, p, c, ao, co: a == SCOPE and ((p in ('sle', 'eq') and c == '0') or (p == 'slt' and c == '1'))}
    for b in sorted(q.S[1]):
        for t in f.succ[b]:
            if t in q.S[1] or b in q.dead or t in q.dead:
                continue
            mon = Must(f, q.nr, (t, 0), lits, {'rep': reported_event},
                       at=lambda i: [('missing', ['closed', 'rep'])] if i.op == 'ret' else None)
            q.run(mon, TEXT)


HYP = ('activeEHypStack_struct', 'activeFHypStack_struct')


def stack_base(f, o):
    """(struct name, base operand) of an address inside a stack entry"""
    p = f.val(o)
    while p is not None and p.op == 'getelementptr':
        if (p.aty or '').startswith('%struct.active'):
            return p.aty[8:], p.ops[0]
        p = f.val(p.ops[0])
    return None


def base_id(q, o):
    """identity of a stack: the merge at the head of the statement loop that its address comes from"""
    hd = {opexpr(q.f, ['v', ph.id]) for ph in flow.phis(q.f, q.S[0])}
    return frozenset(web(q.f, o) & hd) or frozenset(web(q.f, o))


def hyp_stacks(q):
    """both hypothesis stacks have the same entry type: tell them apart by what is pushed"""
    f = q.f
    out = {}
    for i in f.insts():
        if i.op == 'store' and i.block in q.S[1]:
            sb = stack_base(f, i.ops[1])
            if sb and sb[0] in HYP:
                for a, p, c, ao, co in chain_facts(f, i.block, q.S[0]):
                    if a in q.types and p == 'eq' and c in ('101', '102'):
                        out[base_id(q, sb[1])] = HYP[c == '102']
                    elif a in q.types and p == 'ne' and c in ('101', '102'):
                        out.setdefault(base_id(q, sb[1]), HYP[c == '101'])
    return out


def kind_of(q, o):
    sb = stack_base(q.f, o)
    if sb is None:
        return None
    if sb[0] in HYP:
        if not hasattr(q, 'hyp'):
            q.hyp = hyp_stacks(q)
        return q.hyp.get(base_id(q, sb[1]))
    return sb[0]


def stack_ptrs(q, kind):
    """stores into the named stack: list of (store, base text, index operand, field)"""
    f = q.f
    out = []
    for i in f.insts():
        if i.op != 'store':
            continue
        p = f.val(i.ops[1])
        if p is None or p.op != 'getelementptr' or kind_of(q, i.ops[1]) != kind:
            continue
        t = opexpr(f, i.ops[1])
        fld = t.rsplit('.', 1)[1] if re.search(r'\]\.\w+$', t) else 'first'
        out.append((i, fld))
    return out


def round_end(f, l, cnt):
    E = sem.extended(f, l, cnt)
    return lambda b, t: b in E and (t == l[0] or t not in E)


def pairs(q):
    """all pairs of a $d statement"""
    f, rep = q.f, q.rep
    st = [i for i, fld in stack_ptrs(q, 'activeDisjHypStack_struct') if fld == 'tokenNumB' and i.block in q.S[1]]
    for w in st:
        ls = q.inner(w.block)
        if len(ls) < 2:
            continue
        J, I = ls[0], ls[1]
        cj = [k for k in sem.counting(f, J)]
        ci = [k for k in sem.counting(f, I)]
        if not cj or not ci:
            continue

        def eqA(a, p, c, ao, co):
            v = f.val(flow.strip(f, co))
            g = f.val(v.ops[0]) if v is not None and v.op == 'load' else None
            return p == 'eq' and g is not None and g.op == 'getelementptr' and g.aty == '%struct.activeDisjHypStack_struct' and \
                not re.search(r'\]\.\w+\)$', c)

        def eqB(a, p, c, ao, co):
            return p == 'eq' and c.endswith('.tokenNumB)')

        def same(a, p, c, ao, co):
            # both elements equal: the pair is rejected elsewhere
            return False

        cnt = {(k.block, k.exit_to) for k in cj}
        end = round_end(f, J, cnt)
        # a match must hold for both components at once: forget on the next candidate
        inn = [l for l in f.loops if l[1] < J[1]]
        resets = {l[0]: frozenset(['A', 'B', 'exh', 'rest']) for l in inn}
        # a counter that ran up to its bound is equal to the bound
        kk = {(opexpr(f, ['v', k.phi.id]), X(f, k.bound)) for l in inn for k in sem.counting(f, l)
              if k.step == 1 and k.start == ['c', 0] and k.pred in ('slt', 'ult') and not k.incl}
        mon = Len(f, q.nr, (J[0], 0), {'A': eqA, 'B': eqB, 'exh': lambda a, p, c, ao, co: (a, c) in kk and p in ('sge', 'uge', 'eq'),
                                       'rest': lambda a, p, c, ao, co: (a, c) in kk and p in ('ne', 'slt', 'ult')}, {'rep': reported_event, 'push': lambda i: i.id == w.id}, resets=resets,
                  at_edge=lambda b, t: [('pair', ['push', 'rep', lambda m: {'A', 'B'} <= m._now])]
                  if end(b, t) and (b, t) not in cnt else None, until=end)
        mon.excl = q.excl + [('exh', 'rest')]
        q.run(mon, TEXT)
        rep.count('pair_loops')
        # ranges
        wrong = []
        lenx = [X(f, k.bound) for k in cj]
        for k in cj:
            s = sem.step_val(f, k.start, ci[0].phi.id)
            if k.step != 1:
                wrong.append('second variable advances by %d' % k.step)
            if s is not None and s > 1:
                wrong.append('second variable starts at the first plus %d' % s)
            if s is None and k.start[0] == 'c' and k.start[1] > 0:
                wrong.append('second variable starts at %d' % k.start[1])
            bv = f.val(flow.strip(f, k.bound))
            if bv is not None and bv.op == 'add' and bv.ops[1][0] == 'c' and bv.ops[1][1] < 0 and k.pred in ('slt', 'ne') and not k.incl:
                wrong.append('second variable ends at %s' % X(f, k.bound))
        for k in ci:
            if k.step != 1:
                wrong.append('first variable advances by %d' % k.step)
            if k.start[0] == 'c' and k.start[1] > 0:
                wrong.append('first variable starts at %d' % k.start[1])
            bv = f.val(flow.strip(f, k.bound))
            if bv is not None and bv.op == 'add' and bv.ops[1][0] == 'c' and bv.ops[1][1] < -1 and k.pred in ('slt', 'ne') and not k.incl:
                wrong.append('first variable ends at %s' % X(f, k.bound))
        rep.count('obligations', 2)
        for x in wrong:
            rep.violation('parseStatements|pair-range', 'the pairs of a $d statement are not all visited: %s (%s)' % (x, loc(w)))


MS1 = re.compile(r'^ld\(ld\(ld\(&g_Statement\)\[(.*)\]\.mathString\)\[1\]\)$', re.S)


def fhyps(q):
    """every variable of an assertion has exactly one $f"""
    f, rep = q.f, q.rep
    KL = {}
    for i in f.insts():
        if i.op == 'load' and i.block in q.S[1] and MS1.match(opexpr(f, ['v', i.id])):
            l = sem.loop_of(f, i.block)
            if l and l[0] != q.S[0] and l[1] < q.S[1]:
                KL.setdefault(l[0], (l, set()))[1].add(i.id)
    rep.count('f_scans', len(KL))
    for l, ids in list(KL.values()):
        ks = sem.counting(f, l)
        if not ks:
            continue
        outer = [x for x in q.inner(l[0]) if x[0] != l[0]]
        # the loaded variable is compared with the token
        cmp_ = []
        for b in sorted(l[1]):
            for t in f.succ[b]:
                for a, p, c, ao, co in facts(f, b, t):
                    if MS1.match(a) and re.match(r'^\w', c):
                        cmp_.append((a, c))
        if not cmp_ or not outer:
            continue
        ctr = [opexpr(f, ['v', k.phi.id]) for k in ks]
        cmp_.sort(key=lambda x: not any(re.search(c + r'(?!\d)', x[0]) for c in ctr))
        hyp = MS1.match(cmp_[0][0]).group(1)
        tok = cmp_[0][1]
        other_f = bool(MS1.match(tok))

        def notf(a, p, c, ao, co):
            mm = re.match(r'ld\(ld\(&g_Statement\)\[(.*)\]\.type\)$', a, re.S)
            return bool(mm) and mm.group(1) == hyp and ((p == 'ne' and c == '102') or (p == 'eq' and c.isdigit() and c != '102'))

        def badlen(a, p, c, ao, co):
            mm = re.match(r'ld\(ld\(&g_Statement\)\[(.*)\]\.mathStringLen\)$', a, re.S)
            return bool(mm) and mm.group(1) == hyp and p == 'ne' and c == '2'

        def neq(a, p, c, ao, co):
            return MS1.match(a) and p == 'ne' and c == tok
        cnt = {(k.block, k.exit_to) for k in ks}
        end = round_end(f, l, cnt)
        if other_f:
            mon = Must(f, q.nr, (l[0], 0), {'notf': notf, 'len': badlen, 'neq': neq}, {'rep': reported_event},
                       at_edge=lambda b, t: [('dup-f', ['notf', 'len', 'neq', 'rep'])]
                       if end(b, t) and (b, t) not in cnt else None, until=end)
            q.run(mon, TEXT)
        else:
            J = outer[0]
            cj = {(k.block, k.exit_to) for k in sem.counting(f, J)}

            def eq(a, p, c, ao, co):
                return bool(MS1.match(a)) and p == 'eq' and c == tok

            def isf(a, p, c, ao, co):
                mm = re.match(r'ld\(ld\(&g_Statement\)\[(.*)\]\.type\)$', a, re.S)
                return bool(mm) and mm.group(1) == hyp and p == 'eq' and c == '102'

            def con(a, p, c, ao, co):
                return a == 'ld(ld(&g_MathToken)[%s].tokenType)' % tok and ((p == 'eq' and c == '1') or (p == 'ne' and c == '0'))

            endj = round_end(f, J, cj)
            mon = Len(f, q.nr, (J[0], 0), {'eq': eq, 'isf': isf, 'con': con}, {'rep': reported_event},
                      resets={l[0]: frozenset(['eq', 'isf'])},
                      at_edge=lambda b, t: [('no-f', ['con', 'rep', lambda m: {'eq', 'isf'} <= m._now])]
                      if endj(b, t) and (b, t) not in cj else None, until=endj)
            q.run(mon, TEXT)
            for k in sem.counting(f, J):
                rep.count('obligations')
                bv = f.val(flow.strip(f, k.bound))
                if (k.step == 1 and k.start[0] == 'c' and k.start[1] > 0) or k.step > 1 or \
                   (bv is not None and bv.op == 'add' and bv.ops[1][0] == 'c' and bv.ops[1][1] < 0 and not k.incl):
                    rep.violation('parseStatements|no-f-range', 'not every symbol is checked for its $f hypothesis (%s)' %
                                  loc(f.blocks[k.block][-1]))
        # the $f scan starts at the first hypothesis and goes up to the current one
        I = outer[-1]
        ci = sem.counting(f, I)
        for k in ks:
            rep.count('obligations')
            bv = f.val(flow.strip(f, k.bound))
            if k.step == 1 and k.start[0] == 'c' and k.start[1] > 0 and other_f:
                rep.violation('parseStatements|f-range', 'the scan of earlier $f hypotheses starts at %d (%s)' %
                              (k.start[1], loc(f.blocks[k.block][-1])))
            if other_f and bv is not None and bv.op == 'add' and bv.ops[1][0] == 'c' and bv.ops[1][1] < 0 and \
               any(flow.strip(f, bv.ops[0]) == ['v', z.phi.id] for z in ci):
                rep.violation('parseStatements|f-range', 'the scan of earlier $f hypotheses ends at %s (%s)' %
                              (X(f, k.bound), loc(f.blocks[k.block][-1])))
        for k in ci:
            rep.count('obligations')
            bt = X(f, k.bound)
            if k.step == 1 and k.start[0] == 'c' and k.start[1] > 0:
                rep.violation('parseStatements|hyp-range', 'the hypotheses are checked only from number %d (%s)' %
                              (k.start[1], loc(f.blocks[k.block][-1])))
            if ('reqHypList' in bt or 'numReqHyp' in bt) and k.pred in ('slt', 'ne') and not k.incl and '1)' not in bt[-3:] and \
               bt.startswith(('nmbrLen', 'ld(')):
                rep.violation('parseStatements|hyp-range', 'the statement itself is not checked for $f hypotheses (%s)' %
                              loc(f.blocks[k.block][-1]))
    if KL:
        # the checks are made for every $a and $p
        heads = set()
        for l, ids in KL.values():
            o = q.inner(l[0])
            if o:
                heads.add(o[-1][0])
        lits = q.tlits('ap')

        class Entered(Must):
            pass
        mon = Must(f, q.nr, (q.S[0], 0), lits, {}, resets={q.S[0]: None},
                   at_edge=lambda b, t: [('skipped', ['chk', lambda m: not ({'t=a', 't=p'} & m._now)])] if t == q.S[0] else None,
                   until=lambda b, t: t == q.S[0] or t not in q.S[1])
        mon.__class__ = Len
        old = mon.edge

        def edge(st, b, t):
            if t in heads:
                return None
            return old(st, b, t)
        mon.edge = edge
        mon.excl = q.excl
        mon.run()
        rep.count('obligations')
        for i, p, key in mon.errors:
            rep.violation('parseStatements|no-f|skipped', 'a $a or $p statement is not checked for $f hypotheses; path %s' % mon.witness(key))


def check_form(m, rep):
    rep.rule('parseStatements, each path through one round of the statement loop: a symbol is stored in a statement only after it was '
             'found active (or an error was reported), $d holds only variables, other statements start with a constant, $f is a constant and a '
             'variable, lengths are checked; $c only in the outermost scope; redeclarations and constant/variable clashes are '
             'reported; ${ and $} balance; every pair of a $d is recorded; every variable of an assertion has exactly one $f')
    q = P(m, rep)
    tokens(q)
    declarations(q)
    scopes(q)
    pairs(q)
    fhyps(q)


# ---------------------------------------------------------------- C06
STACKS = {'activeConstStack_struct': 'constants', 'activeVarStack_struct': 'variables', 'activeEHypStack_struct': '$e hypotheses',
          'activeFHypStack_struct': '$f hypotheses', 'activeDisjHypStack_struct': '$d conditions'}
FT = {
    'unpopped': 'a constant or variable that goes out of scope stays active',
    'push': 'a declared symbol is not put on the stack of active symbols of its kind',
    'hyp-push': 'a hypothesis is not put on the stack of active hypotheses',
    'pos': 'the stack position of a declared variable is not recorded',
    'var': 'a variable of an expression is neither marked nor already marked as required',
    'e-hyp': 'an active $e hypothesis is left out of the mandatory hypotheses',
    'f-req': 'a $f hypothesis is made mandatory although its variable was not found to be required',
    'f-opt': 'a $f hypothesis is made optional although its variable was not found to be unused',
    'f-hyp': 'an active $f hypothesis is put in neither list',
    'd-req': 'a $d pair is made mandatory although not both variables were found to be required',
    'd-opt': 'a $d pair is made optional although neither variable was found to be unused',
    'd-hyp': 'an active $d pair is put in neither list',
    'frame': 'a list of the frame is not recorded for an assertion',
    'order': 'the mandatory hypotheses are not put in the order of their appearance',
    'clear': 'the mark of a variable is not cleared for the next statement',
    'label': 'the label of a hypothesis stays in the table of assertions',
}


def sloads(q, kind):
    f = q.f
    out = []
    for i in f.insts():
        if i.op != 'load':
            continue
        p = f.val(i.ops[0])
        if p is None or p.op != 'getelementptr' or kind_of(q, i.ops[0]) != kind:
            continue
        t = opexpr(f, i.ops[0])
        fld = t.rsplit('.', 1)[1] if re.search(r'\]\.\w+$', t) else 'first'
        out.append((i, fld, p))
    return out


def scope_off(f, q, o, dec):
    """k when o == scope at the start of the round + k"""
    o = flow.strip(f, o)
    v = f.val(o)
    k = 0
    while v is not None and v.op == 'add' and v.ops[1][0] == 'c':
        k += v.ops[1][1]
        v = f.val(flow.strip(f, v.ops[0]))
    if v is None or v.op != 'load' or opexpr(f, v.ops[0]) != '&g_currentScope':
        return None
    if any(f.dom_inst(d, v) for d in dec):
        k -= 1
    return k


def pops(q):
    f, rep = q.f, q.rep
    dec = []
    for i in f.insts():
        if global_store_name(f, i) == 'g_currentScope' and i.block in q.S[1]:
            v = f.val(flow.strip(f, i.ops[0]))
            if v is not None and v.op == 'add' and v.ops[1] == ['c', -1]:
                dec.append(i)
    for kind, name in STACKS.items():
        L = [x for x in sloads(q, kind) if x[1] == 'scope' and x[0].block in q.S[1]]
        pushes = [i for i, fld in stack_ptrs(q, kind)]
        if not L:
            if pushes:
                rep.violation('parseStatements|pop|%s' % kind, 'the active %s are never removed at the end of a scope' % name)
            continue
        for ld, fld, p in L:
            ls = q.inner(ld.block)
            l = ls[0] if ls else None
            if l is None:
                continue
            downs = [ph for ph in flow.phis(f, l[0]) if any(sem.step_of(f, o, ph.id) == -1 for o, b in ph.ops if b in l[1])]
            if not downs:
                continue
            rep.count('pop_loops')
            ctr = {opexpr(f, ['v', ph.id]) for ph in downs}
            bad = None
            for b, t in sem.exits(f, l, q.dead):
                rep.count('obligations')
                ok = None
                for a, pr, c, ao, co in facts(f, b, t):
                    if flow.strip(f, ao) == ['v', ld.id] or a == X(f, ['v', ld.id]):
                        k = scope_off(f, q, co, dec)
                        if k is None:
                            continue
                        ok = (pr == 'slt' and k == 0) or (pr == 'sle' and k == -1) or (pr == 'ne' and k == 0)
                    elif a in ctr and (c, pr) in (('0', 'eq'), ('0', 'sle'), ('0', 'ule'), ('1', 'slt'), ('1', 'ult'), ('-1', 'eq')):
                        ok = True if ok is None else ok
                if not ok:
                    bad = (b, t, ok)
                    rep.violation('parseStatements|pop|%s' % kind, 'the removal of the %s of a scope stops under another condition than '
                                  '"stack empty or entry of an outer scope" (%s)' % (name, loc(f.blocks[b][-1])))
            # the shortened stack is what the next statement sees
            for ph in downs:
                for o, b in ph.ops:
                    if b in l[1]:
                        continue
                    s = flow.strip(f, o)
                    sv = f.val(s)
                    if sv is not None and sv.op == 'phi' and sv.block == q.S[0]:
                        rep.count('obligations')
                        if opexpr(f, ['v', ph.id]) not in web(f, s):
                            rep.violation('parseStatements|pop|%s|lost' % kind, 'the shortened stack of %s is not kept (%s)' % (name, loc(ld)))
            if kind in ('activeConstStack_struct', 'activeVarStack_struct'):
                def off(i):
                    return i.op == 'store' and i.ops[0] == ['c', 0] and opexpr(f, i.ops[1]).endswith('].active')
                mon = Must(f, q.nr, (l[0], 0), {}, {'off': off}, at_edge=lambda b, t, l=l: [('unpopped', ['off'])] if t == l[0] else None,
                           until=lambda b, t, l=l: t == l[0] or t not in l[1])
                q.run(mon, FT, '|' + kind)


def pushes(q):
    f, rep = q.f, q.rep
    for kind, name in STACKS.items():
        for i, fld in stack_ptrs(q, kind):
            if fld != 'scope' or i.block not in q.S[1]:
                continue
            rep.count('obligations')
            rep.count('pushes')
            if X(f, i.ops[0]) != SCOPE:
                rep.violation('parseStatements|scope|%s' % kind, 'an entry of the %s is given the scope %s instead of the current one (%s)' %
                              (name, X(f, i.ops[0]), loc(i)))
    for i in f.insts():
        if i.op == 'store' and i.block in q.S[1] and re.match(r'ld\(&g_(MathToken|Statement)\)\[.*\]\.scope$', opexpr(f, i.ops[1]), re.S):
            rep.count('obligations')
            if X(f, i.ops[0]) != SCOPE:
                rep.violation('parseStatements|scope|%s' % opexpr(f, i.ops[1])[4:15], 'the recorded scope is %s instead of the current one (%s)' %
                              (X(f, i.ops[0]), loc(i)))
    # declared symbols
    for w in f.insts():
        if w.op != 'store' or w.block not in q.S[1] or w.ops[0] != ['c', 1]:
            continue
        mm = re.match(r'ld\(&g_MathToken\)\[(.*)\]\.active$', opexpr(f, w.ops[1]), re.S)
        ls = q.inner(w.block)
        if not mm or not ls:
            continue
        D = ls[-1]
        tok = mm.group(1)
        ev = {}
        for nm, kind in (('V', 'activeVarStack_struct'), ('C', 'activeConstStack_struct')):
            ids = {i.id for i, fld in stack_ptrs(q, kind) if fld == 'first' and i.block in D[1] and X(f, i.ops[0]) == tok}
            ev['push' + nm] = lambda i, ids=ids: i.id in ids
        posn = {i.id for i in f.insts() if i.op == 'store' and i.block in D[1] and
                opexpr(f, i.ops[1]) == 'ld(&g_MathToken)[%s].tmp' % tok}
        ev['pos'] = lambda i: i.id in posn
        lits = q.tlits('vc')
        tl = frozenset(ev)
        mon = Len(f, q.nr, (q.S[0], 0), lits, ev, resets={q.S[0]: None, D[0]: tl},
                  at_edge=lambda b, t: [('push', ['pushV', 't!v', 't=c']), ('push', ['pushC', 't!c', 't=v']), ('pos', ['pos', 't!v', 't=c'])]
                  if t == D[0] and b in D[1] else None, until=lambda b, t: t not in q.S[1])
        q.run(mon, FT)
        # recorded position = position used
        idx = set()
        for i, fld in stack_ptrs(q, 'activeVarStack_struct'):
            if fld == 'first' and i.block in D[1]:
                p = f.val(i.ops[1])
                if len(p.path) == 1:
                    idx.add(X(f, p.path[0][1]))
        for i in f.insts():
            if i.id in posn and idx:
                rep.count('obligations')
                if X(f, i.ops[0]) not in idx:
                    rep.violation('parseStatements|pos', FT['pos'] + ' (%s)' % loc(i))
    # hypotheses
    for x, kind in (('e', 'activeEHypStack_struct'), ('f', 'activeFHypStack_struct')):
        ids = {i.id for i, fld in stack_ptrs(q, kind) if fld == 'first' and i.block in q.S[1]}
        vl = {i.id for i, fld in stack_ptrs(q, kind) if fld == 'varList' and i.block in q.S[1]}
        if not ids:
            continue
        for i, fld in stack_ptrs(q, kind):
            if i.id in ids and X(f, i.ops[0]) != q.st and f.val(i.ops[0]) is not None and f.val(flow.strip(f, i.ops[0])).op in ('phi', 'add', 'sub'):
                rep.violation('parseStatements|hyp-push|number', 'a hypothesis is recorded under the number %s (%s)' % (X(f, i.ops[0]), loc(i)))
        mon = Len(f, q.nr, (q.S[0], 0), q.tlits(x), {'push': lambda i: i.id in ids, 'vars': lambda i: i.id in vl}, resets={q.S[0]: None},
                  at_edge=lambda b, t: [('hyp-push', ['push', 't!' + x]), ('hyp-push', ['vars', 't!' + x])] if t == q.S[0] else None,
                  until=lambda b, t: t == q.S[0] or t not in q.S[1])
        q.run(mon, FT, '|' + x)
    # pointers grow
    for kind, name in STACKS.items():
        for i, fld in stack_ptrs(q, kind):
            if fld != 'first' or i.block not in q.S[1]:
                continue
            p = f.val(i.ops[1])
            if len(p.path) != 1:
                continue
            o = flow.strip(f, p.path[0][1])
            heads = [ph for ph in flow.phis(f, q.S[0]) if opexpr(f, ['v', ph.id]) in web(f, o)]
            for ph in heads:
                rep.count('obligations')
                w = web(f, ['v', ph.id])
                if not any(t.startswith('add(') and t.endswith(',1)') or t == '1' for t in w):
                    rep.violation('parseStatements|push|%s|lost' % kind, 'an entry put on the stack of %s is not kept (%s)' % (name, loc(i)))


FLAG = re.compile(r'\.tmpFlag\)$')


def flag_tok(f, o):
    """text of the token whose mark o is"""
    mm = re.search(r'\[ld\(ld\(&g_MathToken\)\[(.*)\]\.tmp\)\]\.tmpFlag\)?$', X(f, o), re.S)
    return mm.group(1) if mm else None


def flag_lits(f, tok=None, first=None):
    def on(a, p, c, ao, co):
        if not FLAG.search(a) or (tok is not None and flag_tok(f, ao) != tok):
            return False
        return (p == 'ne' and c == '0') or (p == 'eq' and c in ('1', '2'))

    def off(a, p, c, ao, co):
        if not FLAG.search(a) or (tok is not None and flag_tok(f, ao) != tok):
            return False
        return p == 'eq' and c == '0'
    return on, off


def lists(q):
    """field of g_Statement[stmt] -> (alloc call, memcpy call, count text, source base operand)"""
    f = q.f
    out = {}
    for i in f.insts():
        if i.op != 'store' or i.block not in q.S[1]:
            continue
        mm = re.match(r'ld\(&g_Statement\)\[%s\]\.(\w+)$' % re.escape(q.st), opexpr(f, i.ops[1]))
        if not mm or not re.match(r'(req|opt)(Hyp|Var|Disj)', mm.group(1)):
            continue
        v = f.val(flow.strip(f, i.ops[0]))
        e = dict(store=i, alloc=v, copy=None)
        if v is not None and v.op == 'call':
            for c in f.calls('memcpy'):
                if flow.strip(f, c.ops[0]) == ['v', v.id]:
                    s = f.val(flow.strip(f, c.ops[2]))
                    if s is not None and s.op in ('shl', 'mul') and s.ops[1][0] == 'c':
                        e['copy'], e['count'], e['src'] = c, flow.strip(f, s.ops[0]), c.ops[1]
        out[mm.group(1)] = e
    return out


def chain_facts(f, b, head):
    """facts established by the branches that dominate block b, back to the loop header"""
    out = []
    while b != head and b in f.idom and f.idom[b] != b:
        if len(f.pred[b]) == 1:
            out += facts(f, f.pred[b][0], b)
        b = f.idom[b]
    return out


def frames(q):
    f, rep = q.f, q.rep
    LS = lists(q)
    rep.count('frame_lists', len(LS))
    want_all = ['reqHypList', 'reqVarList', 'reqDisjVarsA', 'reqDisjVarsB', 'reqDisjVarsStmt', 'numReqHyp']
    want_p = ['optHypList', 'optVarList', 'optDisjVarsA', 'optDisjVarsB', 'optDisjVarsStmt']
    ev = {}
    for n in want_all + want_p:
        ad = 'ld(&g_Statement)[%s].%s' % (q.st, n)
        ids = {i.id for i in f.insts() if i.op == 'store' and opexpr(f, i.ops[1]) == ad}
        if ids:
            ev[n] = lambda i, ids=ids: i.id in ids
    cl = [('frame', [n, lambda m: not ({'t=a', 't=p'} & m._now)]) for n in want_all if n in ev] + \
         [('frame', [n, lambda m: 't=p' not in m._now]) for n in want_p if n in ev]
    mon = Len(f, q.nr, (q.S[0], 0), q.tlits('ap'), ev, resets={q.S[0]: None},
              at_edge=lambda b, t: cl if t == q.S[0] else None, until=lambda b, t: t == q.S[0] or t not in q.S[1])
    q.run(mon, FT)
    # what is copied into each list
    arr = {}
    for n, e in LS.items():
        if e['copy'] is None:
            continue
        rep.count('obligations')
        for w in web(f, e['src']):
            arr.setdefault(w, set()).add(n)
        al = flow.strip(f, ['v', e['alloc'].id])
        term = [i for i in f.insts() if i.op == 'store' and i.ops[0] == ['c', -1] and plain_elem(f, i.ops[1]) and
                flow.strip(f, plain_elem(f, i.ops[1])[0]) == al]
        for i in term:
            if X(f, plain_elem(f, i.ops[1])[1]) != X(f, e['count']):
                rep.violation('parseStatements|list|%s' % n, 'the end mark of %s is not behind the copied entries (%s)' % (n, loc(i)))
    for i in f.insts():
        if i.op == 'store' and opexpr(f, i.ops[1]) == 'ld(&g_Statement)[%s].numReqHyp' % q.st and 'reqHypList' in LS and LS['reqHypList']['copy']:
            rep.count('obligations')
            if X(f, i.ops[0]) != X(f, LS['reqHypList']['count']):
                rep.violation('parseStatements|list|numReqHyp', 'the number of mandatory hypotheses is not the length of their list (%s)' % loc(i))

    def target(i):
        """lists a store into a work array ends up in"""
        e = plain_elem(f, i.ops[1])
        r = set()
        if e:
            for w in web(f, e[0]):
                r |= arr.get(w, set())
        return r
    # variables become required
    for s in f.insts():
        if s.op != 'store' or s.block not in q.S[1] or s.ops[0][0] != 'c' or s.ops[0][1] == 0:
            continue
        tk = flag_tok(f, s.ops[1])
        if tk is None:
            continue
        ls = q.inner(s.block)
        if not ls:
            continue
        l = ls[0]
        app = {i.id for i in f.insts() if i.op == 'store' and i.block in l[1] and plain_elem(f, i.ops[1]) and X(f, i.ops[0]) == tk}
        if not app:
            continue
        on, off = flag_lits(f, tk)
        marks = {i.id for i in f.insts() if i.op == 'store' and i.block in l[1] and i.ops[0][0] == 'c' and i.ops[0][1] != 0 and
                 flag_tok(f, i.ops[1]) == tk}
        con = tok_lit(f, True, {tk})
        end = round_end(f, l, ())
        cnt_ = set()
        for b in l[1]:
            for t in f.succ[b]:
                if t not in l[1] and any(a == tk and p == 'eq' and c == '-1' for a, p, c, ao, co in facts(f, b, t)):
                    cnt_.add((b, t))
                if t not in l[1] and b in l[2] + [l[0]]:
                    cnt_.add((b, t))
        mon = Len(f, q.nr, (l[0], 0), {'on': on, 'con': con}, {'mark': lambda i: i.id in marks, 'app': lambda i: i.id in app},
                  at_edge=lambda b, t: [('var', ['on', 'con', lambda m: {'mark', 'app'} <= m._now])]
                  if (t == l[0] or t not in l[1]) and b in l[1] and (b, t) not in cnt_ else None,
                  until=lambda b, t: b in l[1] and (t == l[0] or t not in l[1]))
        q.run(mon, FT, '|%d' % len(marks))
        rep.count('variable_scans')
    # hypotheses
    hyps(q, arr, target)
    disj(q, target)
    order(q)
    clear(q)


def hyps(q, arr, target):
    f, rep = q.f, q.rep
    for kind, x in (('activeEHypStack_struct', 'e'), ('activeFHypStack_struct', 'f')):
        src = {i.id for i, fld, p in sloads(q, kind) if fld == 'first' and i.block in q.S[1]}
        ss = [i for i in f.insts() if i.op == 'store' and i.block in q.S[1] and plain_elem(f, i.ops[1]) and
              flow.strip(f, i.ops[0])[0] == 'v' and flow.strip(f, i.ops[0])[1] in src]
        loops_ = {}
        for i in ss:
            ls = q.inner(i.block)
            if ls:
                loops_.setdefault(ls[0][0], (ls[0], []))[1].append(i)
        for l, sts in loops_.values():
            ks = sem.counting(f, l)
            if not ks:
                continue
            cnt = {(k.block, k.exit_to) for k in ks}
            ids = {i.id for i in sts}
            rep.count('hypothesis_loops')
            opt = {i.id for i in sts if 'optHypList' in target(i)}
            on, off = flag_lits(f)
            none = lambda a, p, c, ao, co: p == 'eq' and c == '-1' and 'varList' in a

            def at(i):
                if i.id not in ids or x == 'e':
                    return None
                return [('f-opt', ['off'])] if i.id in opt else [('f-req', ['on', 'none'])]
            end = round_end(f, l, cnt)
            mon = Must(f, q.nr, (l[0], 0), {'on': on, 'off': off, 'none': none}, {'put': lambda i: i.id in ids}, at=at,
                       at_edge=lambda b, t: [(x + '-hyp', ['put'])] if end(b, t) and (b, t) not in cnt else None, until=end)
            mon.excl = [('on', 'off')]
            q.run(mon, FT)
            for k in ks:
                rep.count('obligations')
                w = []
                if k.step == 1 and k.start[0] == 'c' and k.start[1] > 0:
                    w.append('starts at %d' % k.start[1])
                if k.step > 1:
                    w.append('advances by %d' % k.step)
                bv = f.val(flow.strip(f, k.bound))
                if bv is not None and bv.op == 'add' and bv.ops[1][0] == 'c' and bv.ops[1][1] < 0 and not k.incl and k.pred in ('slt', 'ne'):
                    w.append('ends at %s' % X(f, k.bound))
                for z in w:
                    rep.violation('parseStatements|%s-hyp|range' % x, 'the scan of the active $%s hypotheses %s (%s)' % (x, z, loc(f.blocks[k.block][-1])))


def disj(q, target):
    f, rep = q.f, q.rep
    kind = 'activeDisjHypStack_struct'
    src = {i.id: fld for i, fld, p in sloads(q, kind) if i.block in q.S[1]}
    ss = [i for i in f.insts() if i.op == 'store' and i.block in q.S[1] and plain_elem(f, i.ops[1]) and
          flow.strip(f, i.ops[0])[0] == 'v' and flow.strip(f, i.ops[0])[1] in src]
    loops_ = {}
    for i in ss:
        ls = q.inner(i.block)
        if ls:
            loops_.setdefault(ls[0][0], (ls[0], []))[1].append(i)
    WANT = {'first': 'A', 'tokenNumB': 'B', 'statemNum': 'Stmt'}
    for l, sts in loops_.values():
        ks = sem.counting(f, l)
        if not ks:
            continue
        cnt = {(k.block, k.exit_to) for k in ks}
        req, opt = set(), set()
        for i in sts:
            t = target(i)
            fld = src[flow.strip(f, i.ops[0])[1]]
            for n in sorted(t):
                rep.count('obligations')
                if n[-len(WANT.get(fld, '?')):] != WANT.get(fld, '?'):
                    rep.violation('parseStatements|d-list|%s' % n, 'the list %s is filled with another component of the $d condition (%s)' % (n, loc(i)))
                (req if n.startswith('req') else opt).add(i.id)
        rep.count('d_loops')

        def which(ao):
            t = flag_tok(f, ao)
            if t is None:
                return None
            v = f.val(flow.strip(f, ao))
            return 'B' if t.endswith('.tokenNumB)') else 'A'
        lits = {}
        for x in 'AB':
            lits['on' + x] = lambda a, p, c, ao, co, x=x: bool(FLAG.search(a)) and which(ao) == x and ((p == 'ne' and c == '0') or (p == 'eq' and c in ('1', '2')))
            lits['off' + x] = lambda a, p, c, ao, co, x=x: bool(FLAG.search(a)) and which(ao) == x and p == 'eq' and c == '0'

        def at(i):
            if i.id in req:
                return [('d-req', ['onA']), ('d-req', ['onB'])]
            if i.id in opt:
                return [('d-opt', ['offA', 'offB'])]
        end = round_end(f, l, cnt)
        mon = Must(f, q.nr, (l[0], 0), lits, {'put': lambda i: i.id in req or i.id in opt}, at=at,
                   at_edge=lambda b, t: [('d-hyp', ['put'])] if end(b, t) and (b, t) not in cnt and (req or opt) else None, until=end)
        mon.excl = [('onA', 'offA'), ('onB', 'offB')]
        q.run(mon, FT)
        for k in ks:
            rep.count('obligations')
            bv = f.val(flow.strip(f, k.bound))
            if (k.step == 1 and k.start[0] == 'c' and k.start[1] > 0) or k.step > 1 or \
               (bv is not None and bv.op == 'add' and bv.ops[1][0] == 'c' and bv.ops[1][1] < 0 and not k.incl and k.pred in ('slt', 'ne')):
                rep.violation('parseStatements|d-hyp|range', 'the scan of the active $d conditions is not complete (%s)' % loc(f.blocks[k.block][-1]))


def order(q):
    """merging the sorted $e and $f lists: the smaller statement number first"""
    f, rep = q.f, q.rep
    for s in f.insts():
        if s.op != 'store' or s.block not in q.S[1] or not plain_elem(f, s.ops[1]):
            continue
        v = f.val(flow.strip(f, s.ops[0]))
        if v is None or v.op != 'load' or not plain_elem(f, v.ops[0]):
            continue
        base = X(f, plain_elem(f, v.ops[0])[0])
        if base == X(f, plain_elem(f, s.ops[1])[0]):
            continue
        ls = q.inner(s.block)
        if not ls:
            continue
        me = X(f, ['v', v.id])
        for a, p, c, ao, co in chain_facts(f, s.block, ls[0][0]):
            o = f.val(flow.strip(f, co))
            if a == me and o is not None and o.op == 'load' and plain_elem(f, o.ops[0]) and X(f, plain_elem(f, o.ops[0])[0]) == base and a != c:
                rep.count('obligations')
                rep.count('order_sites')
                if p in ('sgt', 'sge'):
                    rep.violation('parseStatements|order', FT['order'] + ' (%s)' % loc(s))


def clear(q):
    """marks are cleared again"""
    f, rep = q.f, q.rep
    n = 0
    for s in f.insts():
        if s.op != 'store' or s.block not in q.S[1] or s.ops[0] != ['c', 0] or not opexpr(f, s.ops[1]).endswith('.tmpFlag'):
            continue
        ls = q.inner(s.block)
        if not ls:
            continue
        l = ls[0]
        ks = sem.counting(f, l)
        if not ks or not any(opexpr(f, ['v', k.phi.id]) in opexpr(f, s.ops[1]) for k in ks):
            continue
        n += 1
        on, off = flag_lits(f)
        cnt = {(k.block, k.exit_to) for k in ks}
        mon = Must(f, q.nr, (l[0], 0), {'off': off}, {'clr': lambda i: i.op == 'store' and i.ops[0] == ['c', 0] and opexpr(f, i.ops[1]).endswith('.tmpFlag')},
                   at_edge=lambda b, t: [('clear', ['off', 'clr'])] if b in l[1] and (t == l[0] or t not in l[1]) and (b, t) not in cnt else None,
                   until=lambda b, t: b in l[1] and (t == l[0] or t not in l[1]))
        q.run(mon, FT)
        for k in ks:
            rep.count('obligations')
            if (k.step == 1 and k.start[0] == 'c' and k.start[1] > 0) or k.step > 1:
                rep.violation('parseStatements|clear|range', FT['clear'] + ' (%s)' % loc(s))
    rep.count('clear_loops', n)
    # every statement that marks variables also passes a clearing loop
    heads = set()
    for s in f.insts():
        if s.op == 'store' and s.block in q.S[1] and s.ops[0] == ['c', 0] and opexpr(f, s.ops[1]).endswith('.tmpFlag'):
            for l in q.inner(s.block)[:1]:
                if any(opexpr(f, ['v', k.phi.id]) in opexpr(f, s.ops[1]) for k in sem.counting(f, l)):
                    heads.add(l[0])

    def mark(i):
        return i.op == 'store' and i.ops[0][0] == 'c' and i.ops[0][1] != 0 and flag_tok(f, i.ops[1]) is not None
    mon = Len(f, q.nr, (q.S[0], 0), {}, {'mark': mark}, resets={q.S[0]: None},
              at_edge=lambda b, t: [('clear', [lambda m: 'mark' not in m._now])] if t == q.S[0] else None,
              until=lambda b, t: t == q.S[0] or t not in q.S[1])
    for h in heads:
        mon.resets[h] = None
    if heads:
        q.run(mon, FT)


def labels(q):
    """hypothesis labels leave the table of assertions"""
    f, rep = q.f, q.rep
    for i in f.insts():
        if i.op != 'store' or i.block in q.S[1] or not opexpr(f, i.ops[1]).startswith('ld(&g_labelKeyBase)['):
            continue
        l = sem.loop_of(f, i.block)
        v = f.val(flow.strip(f, i.ops[0]))
        if not l or v is None or v.op != 'load':
            continue
        el = X(f, i.ops[0])
        ty = 'ld(ld(&g_Statement)[%s].type)' % el

        def no(k):
            return lambda a, p, c, ao, co: a == ty and ((p == 'ne' and c == str(k)) or (p == 'eq' and c.isdigit() and c != str(k)))
        mon = Must(f, q.nr, (l[0], 0), {'e': no(101), 'f': no(102)}, {}, at=lambda j: [('label', ['e']), ('label', ['f'])] if j.id == i.id else None,
                   until=lambda b, t: t == l[0] or t not in l[1])
        q.run(mon, FT)
        rep.count('label_filters')


def check_frame(m, rep):
    rep.rule('parseStatements: at $} each of the five stacks is popped exactly down to the entries of outer scopes, symbols popped become '
             'inactive; entries carry the current scope; every declared symbol and every hypothesis is pushed')
    rep.rule('for $a and $p: every variable of the statement and of the active $e is marked, every active $e and every $f of a marked variable is '
             'mandatory, the other $f optional; a $d pair is mandatory if and only if both variables are marked; hypotheses are merged in order; each '
             'list is stored with its own length; marks are cleared; hypothesis labels leave the assertion table')
    q = P(m, rep)
    pops(q)
    pushes(q)
    frames(q)
    labels(q)
