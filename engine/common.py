"""Facts about the C library and metamath-exe shared by the rules."""
from base import Broken
import ir

# bug() reports an internal inconsistency; it returns only when a developer asks
# to ignore it, so the analyses treat it as the end of the path.
NORET = {'exit', 'abort', '_exit', 'bug'}


def noreturn(m):
    """Functions without a path to a return (given NORET)."""
    nr = set(NORET)
    changed = True
    while changed:
        changed = False
        for n, f in m.funcs.items():
            if n in nr:
                continue
            seen = set()
            st = [0]
            ret = False
            while st and not ret:
                b = st.pop()
                if b in seen:
                    continue
                seen.add(b)
                stop = False
                for i in f.blocks[b]:
                    if i.op == 'call' and i.callee in nr:
                        stop = True
                        break
                    if i.op == 'ret':
                        ret = True
                if not stop:
                    st.extend(f.succ[b])
            if not ret:
                nr.add(n)
                changed = True
    return nr


def need(m, *names):
    for n in names:
        if n not in m.funcs:
            raise Broken('anchor function %s() not found in the current source' % n)
    return [m.funcs[n] for n in names]


def srcfn(i):
    return (i.loc and i.loc[2]) or i.func.name


def global_store_name(f, i):
    """name of the global written by a store whose address is exactly a global, else None."""
    if i.op == 'store' and i.ops[1][0] == 'g':
        return ir.gname(f.mod, i.ops[1][1])
    return None


def load_of_global(f, o):
    if o[0] == 'v' and o[1] >= f.nargs:
        i = f.inst[o[1]]
        if i.op in ('zext', 'sext', 'trunc', 'freeze'):
            return load_of_global(f, i.ops[0])
        if i.op == 'load' and i.ops[0][0] == 'g':
            return ir.gname(f.mod, i.ops[0][1])
    return None


def const_strings(f, o, d=0, seen=None):
    """Set of constant strings an operand may be; None in the set = unknown."""
    seen = seen if seen is not None else set()
    if o[0] == 's':
        return {o[1]}
    if o[0] == 'v' and o[1] >= f.nargs:
        if o[1] in seen:
            return set()
        seen.add(o[1])
        i = f.inst[o[1]]
        if i.op == 'phi':
            r = set()
            for x, b in i.ops:
                r |= const_strings(f, x, d + 1, seen)
            return r
        if i.op == 'select':
            return const_strings(f, i.ops[1], d + 1, seen) | const_strings(f, i.ops[2], d + 1, seen)
    return {None}
