"""Which indices a counted loop visits, from the starts/steps of its variable and the facts at its exit."""
from summ import *


def covers(ip, p, i, count, lo=('c', 0)):
    """None: index variable i takes every value in [lo, count) before this exit; '?...': not resolved; else why not"""
    i = strip(i)
    if i[0] != 'it':
        if unknown(i):
            return '?index %s' % show(i)
        return 'only index %s is visited' % show(canon(i))
    same = (lambda b: count(b)) if callable(count) else (lambda b: canon(b) == canon(count))
    starts = ip.starts.get(i)
    if not starts:
        return '?loop'
    def last(v):
        if not callable(count):
            return lin(v) == lin(('op', '-', count, ('c', 1)))
        l = dict(lin(strip(v)))
        k = [x for x in l if x]
        return l.get((), 0) == -1 and len(k) == 1 and len(k[0]) == 1 and l[k[0]] == 1 and bool(count(strip(k[0][0])))
    if ip.counts_down(i, last):
        if p.facts.get(('op', '<', i, lo)) is True:
            return None
        return 'the loop can end before every index was visited'
    if not ip.counts_up(i, lo) and not up(starts, i, lo):
        return '?loop variable' if any(unknown(v) and v[0] not in ('op',) for v in starts) else 'the loop does not visit every index from %s on' % show(lo)
    bs = [strip(t[3]) for t, b in p.facts.items() if t[0] == 'op' and t[1] == '<' and strip(t[2]) == i and not b]
    bs += [strip(t[3]) if strip(t[2]) == i else strip(t[2]) for t, b in p.facts.items() if t[0] == 'op' and t[1] == '==' and i in (strip(t[2]), strip(t[3])) and b]
    if not bs:
        return 'the loop can end before every index was visited'
    if any(same(b) for b in bs):
        return None
    if any(unknown(b) for b in bs):
        return '?bound %s' % show(bs[0])
    return 'the loop runs to %s instead of %s' % (show(canon(bs[0])), 'the element count' if callable(count) else show(canon(count)))


def up(starts, i, lo):
    ok = False
    for v in starts:
        l = lin(v)
        if l == lin(lo):
            ok = True
        elif l != lin(('op', '+', i, ('c', 1))):
            return False
    return ok


def affine(ip, t):
    """rewrite loop variables that advance by a loop-invariant step as start + step * iteration number"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'it' and len(t) == 4:
        st = [x for x in ip.starts.get(t, ())]
        base = [x for x in st if not mentions(x, lambda y: y == t)]
        steps = {canon(('op', '-', x, t)) for x in st if mentions(x, lambda y: y == t)}
        if len(base) == 1 and len(steps) == 1 and t not in ip.stays:
            step = list(steps)[0]
            if not mentions(step, lambda y: y[0] == 'it' and y[1:3] == t[1:3]):
                b = affine(ip, base[0])
                return ('op', '+', b, ('op', '*', step, ('iter', t[1], t[2])))
        return t
    return tuple(affine(ip, x) if isinstance(x, tuple) else x for x in t)


def bare(t):
    t = strip(t)
    while t[0] in ('deref', 'addr', 'ref', '*') and isinstance(t[1], tuple):
        t = strip(t[1])
    return t


COUNTS = ('number_of_children', 'size', 'children_size')


def visits(ip, p, el, coll):
    """the loop that yields element `el` visits every element of coll (predicate on the collection term) before exit p:
    None yes; '?..' unresolved; else why not"""
    e = bare(el)
    if e[0] == 'idx':
        c, i = e[1], e[2]
    elif e[0] == 'call' and e[1].split('::')[-1] in ('operator[]', 'at', 'child', 'child_ptr') and len(e[2]) == 2:
        c, i = e[2]
    elif e[0] == 'call' and e[1] == '<at>':
        it = bare(e[2][0])
        if it[0] != 'it':
            return '?iterator'
        st = [strip(x) for x in ip.starts.get(it, ())]
        bs = [x for x in st if x[0] == 'call' and x[1].split('::')[-1] in ('begin', 'cbegin')]
        rest = [x for x in st if x not in bs]
        if not bs or any(x != ('op', '+', it, ('c', 1)) for x in rest):
            return 'the loop does not visit every element' if bs and not any(unknown(x) for x in rest) or not bs and st and all(x[0] == 'op' for x in st) else '?iterator'
        if not all(coll(bare(x[2][0])) for x in bs):
            return '?collection'
        for t, b in p.facts.items():
            if t[0] == 'op' and (t[1] == '<' and not b and strip(t[2]) == it or t[1] == '==' and b and it in (strip(t[2]), strip(t[3]))):
                o = strip(t[3]) if strip(t[2]) == it else strip(t[2])
                if o[0] == 'call' and o[1].split('::')[-1] in ('end', 'cend'):
                    return None
                return '?end' if unknown(o) else 'the loop stops at %s' % show(o)
        return 'the loop can end before every element was visited'
    elif e[0] == 'call' and e[1] == '<element>':
        if not coll(bare(e[2][0])):
            return '?collection'
        return None if ('ranged', e[3]) in p.ev else 'the loop can end before every element was visited'
    elif e[0] == 'call' and e[1].split('::')[-1] == 'next':
        return None if any(t[0] == 'call' and t[1].endswith('has_next') and not b for t, b in p.facts.items()) else '?iterator'
    else:
        return '?element %s' % show(e)[:80]
    if not coll(bare(c)):
        return '?collection %s' % show(c)[:60]
    return covers(ip, p, i, lambda b: b[0] == 'call' and b[1].split('::')[-1] in COUNTS)


def ranged(ip, s, n, container, entering):
    """Domain.on_range: remember that a range-based loop ran to its end"""
    k = ('ranged', ip.path + (n.id,))
    if entering:
        return s.withdom(s.dom - {k})
    return s.withdom(s.dom | {k})
