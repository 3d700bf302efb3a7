"""C04: what a proof may refer to (parseProof, parseCompressedProof)."""
import re
import ir
import flow
import sem
from ir import loc, opexpr
from base import Broken
from common import *
from sem import X, facts
from oblig import Must, REPORT, reported_event, reported_lit, EC
import disjoint

RPN = '&g_WrkProof.RPNStackPtr'
PS = re.compile(r'ld\(&g_WrkProof\.proofString\)\[')
LM = re.compile(r'ld\(&g_WrkProof\.compressedPfLabelMap\)\[')


def lookup_calls(f, table):
    for i in f.calls('bsearch'):
        if len(i.ops) > 1 and table in opexpr(f, i.ops[1]):
            yield i


def found_value(f, o, call):
    """o is the value stored in the table entry that the lookup returned"""
    v = f.val(flow.strip(f, o))
    if v is None or v.op != 'load':
        return False
    a = v.ops[0]
    p = f.val(a)
    while p is not None and p.op == 'getelementptr':
        a = p.ops[0]
        p = f.val(a)
    return any(x == ['v', call.id] for x in sem.leaves(f, a)) or a == ['v', call.id]


def is_ps_store(f, i):
    return i.op == 'store' and PS.search(opexpr(f, i.ops[1])) is not None


def run(rep, mon, text, fn):
    mon.run()
    rep.count('obligations', len(mon.points))
    for i, p, key in mon.errors:
        rep.violation('%s|%s' % (fn, p), '%s (%s); path %s' % (text[p], loc(i), mon.witness(key)))
    return mon


TEXT = {'forward': 'a proof step takes over an assertion found by its label although it was not found to precede the theorem, and '
                   'no error is reported',
        'missing': 'a label that is not found is neither reported nor made an unknown step',
        'underflow': 'the stack is popped although it was not found to hold enough entries',
        'final': 'the proof is passed although the stack was not found to hold exactly one entry, and no error is reported',
        'local': 'a reference to a local label is passed although the label was not found to be declared earlier, and no error is reported',
        'index': 'a compressed label is looked up although its number was not found to be inside the list'}


def labels(m, rep, nr, f):
    n = f.name
    nl = 0
    for call in list(lookup_calls(f, 'g_labelKeyBase')):
        uses = [i for i in f.insts() if is_ps_store(f, i) and found_value(f, i.ops[0], call)]
        l = sem.loop_of(f, call.block)
        if not l:
            rep.sample('%s: label lookup %s not in a loop' % (n, loc(call)))
            continue
        # a step takes the assertion over
        for st in uses:
            nl += 1

            def before(a, p, c, ao, co, call=call):
                return p == 'slt' and co == ['v', 0] and found_value(f, ao, call)

            def stop(b, t, l=l):
                return b in l[1] and (t == l[0] or t not in l[1])

            # the check may come before or after the store: follow the whole round
            run(rep, Must(f, nr, (call.block, call.idx + 1), {'before': before, 'rep': reported_lit},
                          {'rep': reported_event, 'taken': lambda i, st=st: i.id == st.id,
                           'dropped': lambda i, st=st: is_ps_store(f, i) and i.id != st.id and i.ops[0][0] == 'c' and i.ops[0][1] < 0},
                          at_edge=lambda b, t, stop=stop: [('forward', ['before', 'rep', 'dropped', lambda s: False, 'nottaken'])]
                          if stop(b, t) else None,
                          until=stop, init=('nottaken',),
                          kills=lambda i, st=st: ('nottaken',) if i.id == st.id else ()), TEXT, n)
        # label not found

        def null(a, p, c, ao, co, call=call):
            return p == 'eq' and c == 'null' and any(x == ['v', call.id] for x in sem.leaves(f, ao))

        def found(a, p, c, ao, co, call=call):
            return p == 'ne' and c == 'null' and any(x == ['v', call.id] for x in sem.leaves(f, ao))

        def stop2(b, t, l=l):
            return b in l[1] and (t == l[0] or t not in l[1])
        if uses:
            run(rep, Must(f, nr, (call.block, call.idx + 1), {'found': found, 'rep': reported_lit}, {'rep': reported_event},
                      at_edge=lambda b, t: [('missing', ['found', 'rep'])] if stop2(b, t) else None, until=stop2), TEXT, n)
    return nl


def stack(m, rep, nr, f):
    n = f.name
    pops = []
    for i in f.insts():
        if i.op == 'store' and opexpr(f, i.ops[1]) == RPN:
            v = f.val(flow.strip(f, i.ops[0]))
            if v is None:
                continue
            if v.op == 'sub' or (v.op == 'add' and v.ops[1][0] == 'c' and v.ops[1][1] < 0):
                pops.append(i)
            elif v.op == 'add' and v.ops[1][0] != 'c':
                pops.append(i)
    rep.count('pops', len(pops))
    ids = {i.id for i in pops}

    def enough(a, p, c, ao, co):
        return a == 'ld(%s)' % RPN and p in ('sge', 'sgt', 'uge', 'ugt') and c.endswith('.numReqHyp)')

    def pushed(i):
        return i.op == 'store' and opexpr(f, i.ops[1]) == RPN
    run(rep, Must(f, nr, (0, 0), {'enough': enough}, {},
                  kills=lambda i: ('enough',) if pushed(i) else (),
                  at=lambda i: [('underflow', ['enough'])] if i.id in ids else None), TEXT, n)

    def one(a, p, c, ao, co):
        return a == 'ld(%s)' % RPN and c == '1' and p == 'eq'

    def failed(s):
        return False
    rets = [i for i in f.insts() if i.op == 'ret']

    def status(mon):
        i = mon.f.blocks[mon._cur[0]][-1]
        return i.op == 'ret' and bool(i.ops) and mon.fact(i.ops[0])[0] >= 1
    mon = Must(f, nr, (0, 0), {'one': one, 'rep': reported_lit}, {'rep': reported_event,
               'delegated': lambda i: i.op == 'call' and i.callee == 'parseCompressedProof'},
               kills=lambda i: ('one',) if pushed(i) else (),
               at=lambda i: [('final', ['one', 'rep', 'delegated', status])] if i.op == 'ret' else None)
    import verify
    mon.track = verify.ret_ids(f)
    run(rep, mon, TEXT, n)


def locals_(m, rep, nr, f):
    n = f.name
    for call in list(lookup_calls(f, 'hypAndLocLabel')):
        l = sem.loop_of(f, call.block)
        uses = [i for i in f.insts() if is_ps_store(f, i) and found_value(f, i.ops[0], call)]
        if not l or not uses or n != 'parseProof':
            continue

        def isref(o, call=call):
            v = f.val(flow.strip(f, o))
            return v is not None and v.op == 'sub' and v.ops[0] == ['c', -1000] and found_value(f, v.ops[1], call)

        def early(a, p, c, ao, co):
            return p in ('sle', 'slt') and isref(ao) and counter(f, co, l)

        def early2(a, p, c, ao, co, call=call):
            # step + j >= -1000 style comparisons are left alone
            return False

        def nonneg(a, p, c, ao, co, call=call):
            return found_value(f, ao, call) and ((p in ('sge', 'sgt') and c in ('0', '-1')) or (p == 'sgt' and c.startswith('-')))

        def stop(b, t, l=l):
            return b in l[1] and (t == l[0] or t not in l[1])

        def null(a, p, c, ao, co, call=call):
            return p == 'eq' and c == 'null' and any(x == ['v', call.id] for x in sem.leaves(f, ao))
        run(rep, Must(f, nr, (call.block, call.idx + 1), {'early': early, 'hyp': nonneg, 'null': null, 'rep': reported_lit},
                      {'rep': reported_event},
                      at_edge=lambda b, t: [('local', ['early', 'hyp', 'null', 'rep'])] if stop(b, t) else None, until=stop), TEXT, n)


def counter(f, o, l):
    o = flow.strip(f, o)
    return o[0] == 'v' and any(k.phi.id == o[1] for k in sem.counting(f, l))


def index(m, rep, nr, f):
    """compressed label number inside the list"""
    pts = {}
    for i in f.insts():
        if i.op == 'load' and LM.search(opexpr(f, i.ops[0])):
            p = f.val(i.ops[0])
            if p is not None and p.op == 'getelementptr' and len(p.path) == 1:
                pts[i.id] = flow.strip(f, p.path[0][1])
    rep.count('label_map_reads', len(pts))
    NUM = 'ld(&g_WrkProof.compressedPfNumLabels)'

    def inside(a, p, c, ao, co):
        return p in ('slt', 'ult') and c == NUM or (p == 'sle' and c == 'add(%s,-1)' % NUM)
    run(rep, Must(f, nr, (0, 0), {'inside': inside, 'rep': reported_lit}, {'rep': reported_event}, resets={
        sem.loop_of(f, f.inst[i].block)[0]: None for i in pts if sem.loop_of(f, f.inst[i].block)},
        at=lambda i: [('index', ['inside', 'rep'])] if i.id in pts else None), TEXT, f.name)


def active(m, rep, nr, f):
    """hypothesis tables are filled from the theorem's own hypotheses only"""
    nst = 0
    for i in f.insts():
        if i.op != 'store' or not opexpr(f, i.ops[1]).endswith('hypAndLocLabel)[' + opexpr(f, i.ops[1]).split('hypAndLocLabel)[')[-1]):
            continue
        if not opexpr(f, i.ops[1]).endswith('.labelTokenNum') and 'labelName' in opexpr(f, i.ops[1]):
            continue
        v = f.val(flow.strip(f, i.ops[0]))
        if v is None:
            continue
        o = flow.strip(f, i.ops[0])
        if v.op in ('sub', 'add') or v.op == 'load':
            nst += 1
            e = None
            x = o
            while True:
                w = f.val(x)
                if w is not None and w.op in ('sub', 'add'):
                    nc = [y for y in w.ops if y[0] != 'c']
                    if len(nc) != 1:
                        break
                    x = flow.strip(f, nc[0])
                    continue
                break
            e = disjoint.element(f, x)
            if e is None:
                continue
            sf = None
            for y in sem.leaves(f, e[0]):
                w = re.match(r'ld\(ld\(&g_Statement\)\[(.*)\]\.(\w+)\)$', opexpr(f, y))
                if not w or 'phi' in w.group(1):
                    continue
                rep.count('obligations')
                if w.group(1) != 'arg0' or w.group(2) not in ('reqHypList', 'optHypList'):
                    rep.violation('%s|active' % f.name, 'the table of hypotheses a proof may use is filled from %s of statement %s (%s)' %
                                  (w.group(2), w.group(1), loc(i)))
    rep.count('hypothesis_tables', nst)


def check(m, rep):
    rep.rule('parseProof/parseCompressedProof: a label found in the assertion table is taken over only on paths where its statement was '
             'found to precede the theorem, or an error is reported; a label not found is reported; a local label reference is '
             'reported unless the label was found to be declared earlier; hypothesis tables hold only the hypotheses of the theorem')
    rep.rule('the proof stack is popped only after being found deep enough, a compressed label is read only when inside the list, and '
             'the proof is passed only when the stack was found to hold one entry')
    nr = noreturn(m)
    tot = 0
    for fn in ('parseProof', 'parseCompressedProof'):
        f, = need(m, fn)
        tot += labels(m, rep, nr, f)
        stack(m, rep, nr, f)
        locals_(m, rep, nr, f)
        active(m, rep, nr, f)
        if fn == 'parseCompressedProof':
            index(m, rep, nr, f)
    rep.count('assertion_references', tot)
