"""Exact meaning of small functions: every path summary (facts, result, effects) is compared, case by case, with
what is required in that case.

A requirement is a decision function over atoms (how many children, is there a child of that name, is the
string empty ...).  A path of the code is consistent with an assignment of the atoms when all its branch facts
evaluate to what the path took.  For every path and every assignment consistent with it the result (value
returned, error, effects) must be the required one.  Atoms are assigned on demand from small domains that
realise every order relation between the quantities compared; nothing of the source is executed."""
from summ import *
from loopcov import bare


class Need(Exception):
    def __init__(self, atom, dom):
        self.atom, self.dom = atom, dom


class Unk(Exception):
    pass


class Err(Exception):
    """the case raises an error"""


def ask(a, atom, dom):
    if atom in a:
        return a[atom]
    raise Need(atom, dom)


CMP = {'==': lambda x, y: x == y, '!=': lambda x, y: x != y}
ORD = {'<': lambda x, y: x < y, '<=': lambda x, y: x <= y, '>': lambda x, y: x > y, '>=': lambda x, y: x >= y}
AR = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y}


def isint(x):
    return isinstance(x, int)


def evalt(t, a, atom):
    """value of a term under the assignment a; atom(t, a, rec) gives the meaning of everything but arithmetic"""
    if t is True or t is False:
        return t
    if t is None:
        return None
    t0 = t
    while isinstance(t, tuple) and t and t[0] in ('cast', 'addr', 'deref', 'ref', 'loc'):
        if t[0] == 'cast':
            ty = t[1].replace('const ', '')
            t = t[2]
            if ty in ('unsigned long', 'size_t', 'unsigned int'):
                v = evalt(t, a, atom)
                if isint(v) and not isinstance(v, bool) and v < 0:
                    return v + (1 << 64)
                return v
            if ty in ('int', 'char', 'long', 'bool'):
                v = evalt(t, a, atom)
                if ty == 'bool' and isint(v):
                    return bool(v)
                if isint(v) and v >= (1 << 63):
                    return v - (1 << 64)
                return v
        elif t[0] in ('ref', 'loc'):
            t = t[1][1] if t[1][0] == '*' else t[1]
            if t and t[0] == 'v':
                raise Unk(t)
        else:
            t = t[1]
    rec = lambda x: evalt(x, a, atom)
    r = atom(t, a, rec)
    if r is not NotImplemented:
        return r
    if t[0] == 'c':
        return t[1]
    if t[0] == 'op':
        o = t[1]
        x = rec(t[2])
        y = rec(t[3])
        if o in CMP:
            if isinstance(x, bool) != isinstance(y, bool) and isint(x) and isint(y):
                x, y = int(x), int(y)
            return CMP[o](x, y)
        if o in ORD and isint(x) and isint(y):
            return ORD[o](x, y)
        if o in AR and isint(x) and isint(y):
            return AR[o](int(x), int(y))
        raise Unk(t)
    if t[0] == 'un' and t[1] == '!':
        x = rec(t[2])
        return not x
    if t[0] == 'un' and t[1] == '-':
        return -rec(t[2])
    if t[0] == 'lin':
        s = 0
        for k, c in t[1]:
            m = c
            for x in k:
                v = rec(x)
                if not isint(v):
                    raise Unk(t)
                m *= v
            s += m
        return s
    raise Unk(t)


def truth(v):
    """C truth of an evaluated object"""
    if v is None:
        return False
    if isinstance(v, (bool, int)):
        return bool(v)
    if isinstance(v, tuple) and v and v[0] == 'null?':
        raise Unk(v)
    return True


def models(facts, atom, a=None, unk=None, i=0):
    """assignments under which every fact holds; yields (assignment, facts not understood)"""
    a = a or {}
    unk = unk or ()
    while i < len(facts):
        t, b = facts[i]
        try:
            v = truth(evalt(t, a, atom))
        except Need as nd:
            for x in nd.dom:
                a2 = dict(a)
                a2[nd.atom] = x
                yield from models(facts, atom, a2, unk, i)
            return
        except (Unk, TypeError, KeyError, IndexError):
            unk = unk + (t,)
            i += 1
            continue
        if v != b:
            return
        i += 1
    yield a, unk


def results(fn, a):
    """all results of a decision function under extensions of a"""
    try:
        yield a, fn(a)
    except Need as nd:
        for x in nd.dom:
            a2 = dict(a)
            a2[nd.atom] = x
            yield from results(fn, a2)
    except Err:
        yield a, 'error'


def compare(p, atom, spec, outcome, a0=None, cap=4000):
    """None, '?..' or (case, required, found) for one path.
    spec(a) -> required outcome ('error', or anything comparable); outcome(p, ev) -> the outcome of the path"""
    n = 0
    q = None
    fs = sorted(p.facts.items(), key=lambda x: len(repr(x[0])))
    for a, unk in models(fs, atom, a0):
        for a2, want in results(spec, a):
            if want == 'any':
                continue
            try:
                for a3, got in results(lambda x: outcome(p, lambda t: evalt(t, x, atom)), a2):
                    n += 1
                    if n > cap:
                        return '?cases'
                    # facts that needed atoms assigned only now
                    if not holds(fs, a3, atom):
                        continue
                    if got != want:
                        if unk or got == 'unk':
                            q = q or '?%s' % show(unk[0] if unk else ('c', 'result'))[:80]
                            continue
                        return (a3, want, got)
            except Unk as u:
                q = q or '?%s' % (show(u.args[0])[:80] if u.args else '')
            except (TypeError, KeyError, IndexError) as e:
                q = q or '?%r' % e
    return q


def holds(fs, a, atom):
    for t, b in fs:
        try:
            if truth(evalt(t, a, atom)) != b:
                return False
        except (Unk, Need, TypeError, KeyError, IndexError):
            pass
    return True


def case(a):
    return ', '.join('%s=%s' % (word(k), word(v)) for k, v in sorted(a.items(), key=repr) if isinstance(k, tuple))


def word(v):
    if isinstance(v, tuple):
        if not v:
            return '()'
        if len(v) == 1:
            return word(v[0])
        return '%s(%s)' % (v[0], ','.join(word(x) for x in v[1:]))
    return str(v)
