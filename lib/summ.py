"""Path summaries: every path of a function as (facts, result, effects), with helper
functions inlined, and normal forms to compare them with what is required.

Nothing is executed: facts are the branch conditions on value numbers, `feasible`
drops the paths whose conditions contradict an assignment of constants to terms
(a type id, an endianness, an allocation flag)."""
from interp import Interp, Domain, strip, mentions
import os
import prog as P

KNOWN = set(open(os.path.dirname(os.path.abspath(__file__)) + '/known_functions.txt').read().split('\n'))

KIND = {0: 'empty', 1: 'object', 2: 'list', 3: 'int8', 4: 'int16', 5: 'int32', 6: 'int64', 7: 'uint8', 8: 'uint16', 9: 'uint32',
        10: 'uint64', 11: 'float32', 12: 'float64', 13: 'char8_str'}
ID = {v: k for k, v in KIND.items()}
CTYPE = {'int8': 'signed char', 'int16': 'short', 'int32': 'int', 'int64': 'long', 'uint8': 'unsigned char', 'uint16': 'unsigned short',
         'uint32': 'unsigned int', 'uint64': 'unsigned long', 'float32': 'float', 'float64': 'double', 'char8_str': 'char'}
# canonical C type -> kind
OFC = {v: k for k, v in CTYPE.items()}
OFC.update({'long long': 'int64', 'unsigned long long': 'uint64'})
WIDTH = {'int8': 1, 'int16': 2, 'int32': 4, 'int64': 8, 'uint8': 1, 'uint16': 2, 'uint32': 4, 'uint64': 8, 'float32': 4, 'float64': 8, 'char8_str': 1,
         'empty': 0, 'object': 0, 'list': 0}
NUM = ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float32', 'float64')
# names used in the API -> kind
NATIVE = {'char': 'int8', 'short': 'int16', 'int': 'int32', 'long': 'int64', 'long_long': 'int64', 'signed_char': 'int8', 'signed_short': 'int16',
          'signed_int': 'int32', 'signed_long': 'int64', 'signed_long_long': 'int64', 'unsigned_char': 'uint8', 'unsigned_short': 'uint16',
          'unsigned_int': 'uint32', 'unsigned_long': 'uint64', 'unsigned_long_long': 'uint64', 'float': 'float32', 'double': 'float64', 'index_t': 'int64'}
NAMES = dict(NATIVE, **{k: k for k in NUM})
I64 = ('long', 'unsigned long', 'long long', 'unsigned long long', 'const long', 'const unsigned long')
RANGE = {k: (0 if k[0] == 'u' else -(1 << (8 * WIDTH[k] - 1)), (1 << (8 * WIDTH[k] - (k[0] != 'u'))) - 1) for k in NUM if k[0] != 'f'}


def ids_by_name(pr):
    """type ids by name, from the enum of the analysed tree"""
    e = pr.enums.get('conduit::DataType::TypeID') or {}
    return e


DTF = ('m_id', 'm_num_ele', 'm_offset', 'm_stride', 'm_ele_bytes', 'm_endianness')


class Sum(Domain):
    """records effects: dom = tuple of events"""
    cap = 4000
    inline_depth = 8
    scaled = True

    def __init__(self, inl=None, pure=None, events=None, typed=True, dt=True):
        self._inl, self._pure, self._ev, self.typed, self.dt = inl, pure, events, typed, dt

    def inline(self, ip, ref, n):
        return bool(self._inl and self._inl(ref))

    def pure(self, ref):
        return bool(self._pure and self._pure(ref))

    def on_call(self, ip, s, n, ref, obj, args, locs):
        if ref is None:
            return None
        if self._ev:
            r = self._ev(ip, s, n, ref, obj, args, locs)
            if r is not None:
                return r
        return None

    def on_load(self, ip, s, n, loc):
        if n.k == 'Member' and loc[0] == '*' and loc[1][0] == 'fld' and loc not in s.env:
            b = strip(loc[1][1])
            if b[0] == 'call' and b[1] == 'conduit::DataType::DataType' and loc[1][2] in DTF:
                i = DTF.index(loc[1][2])
                if i < len(b[2]) and len(b[2]) == 6:
                    return [(s, b[2][i])]
                if len(b[2]) == 2 and i < 3:
                    return [(s, (b[2] + (('c', 0),))[i])]
        if self.typed and n.k in ('Un', 'Index') and loc[0] == '*' and loc not in s.env:
            t = loc[1]
            if t[0] == 'deref':
                return [(s, ('ld', n.ty, t[1]))]
            if t[0] == 'idx':
                return [(s, ('ld', n.ty, ('op', '+', strip(t[1]), ('op', '*', t[2], ip.szof(n.ty)))))]
        return None


class Path:
    __slots__ = ('facts', 'val', 'ev', 'kind', 'node', 'env', 'st')

    def __init__(self, kind, st, v, n):
        self.facts, self.val, self.ev, self.kind, self.node, self.env, self.st = st.facts, v, st.dom, kind, n, st.env, st
        if v is True or v is False:
            self.val = ('c', v)

    def fields(self, base=('this',)):
        """fields assigned on this path"""
        out = {}
        for k, v in self.env.items():
            if k[0] == '*' and k[1][0] == 'fld' and k[1][1] == base:
                out[k[1][2]] = v
        return out


def paths(pr, fn, dom, params=None):
    ip = Interp(pr, dom)
    return [Path(k, st, v, n) for k, st, v, n in ip.run(fn, param_values=params)], ip


def val(t, a):
    """constant value of a term under an assignment of constants to terms, or None"""
    t = strip(t)
    if t in a:
        return a[t]
    if t[0] == 'c':
        return t[1]
    if t[0] == 'op':
        x, y = val(t[2], a), val(t[3], a)
        if x is None or y is None:
            return None
        try:
            return {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '==': lambda: x == y, '<': lambda: x < y, '!=': lambda: x != y,
                    '>': lambda: x > y, '<=': lambda: x <= y, '>=': lambda: x >= y, '&': lambda: x & y, '|': lambda: x | y}[t[1]]()
        except (KeyError, TypeError):
            return None
    if t[0] == 'un' and t[1] == '!':
        x = val(t[2], a)
        return None if x is None else not x
    if t[0] == 'un' and t[1] == '-':
        x = val(t[2], a)
        return None if x is None else -x
    return None


def feasible(p, a):
    for t, b in p.facts.items():
        v = val(t, a)
        if v is not None and bool(v) != b:
            return False
    return True


def under(ps, a):
    return [p for p in ps if feasible(p, a)]


# ---------------------------------------------------------------- normal forms
def lin(t):
    """linear normal form: dict monomial (sorted tuple of atoms) -> integer coefficient"""
    if t[0] == 'cast':
        ty = t[1]
        x = strip1(t[2])
        if ty in I64 or ty.endswith('*') or t[2][0] == 'c':
            return lin(t[2])
        y = strip(t[2])
        return {(('cast', ty, canon(y)),): 1}
    if t[0] == 'c':
        if isinstance(t[1], (int, bool)):
            return {(): int(t[1])} if t[1] else {}
        return {(t,): 1}
    if t[0] == 'lin':
        return dict(t[1])
    if t[0] == 'op' and t[1] in ('+', '-'):
        a, b = dict(lin(t[2])), lin(t[3])
        for k, v in b.items():
            a[k] = a.get(k, 0) + (v if t[1] == '+' else -v)
        return {k: v for k, v in a.items() if v}
    if t[0] == 'op' and t[1] == '*':
        a, b = lin(t[2]), lin(t[3])
        r = {}
        for k, v in a.items():
            for k2, v2 in b.items():
                kk = tuple(sorted(k + k2, key=repr))
                r[kk] = r.get(kk, 0) + v * v2
        return {k: v for k, v in r.items() if v}
    if t[0] == 'un' and t[1] == '-':
        return {k: -v for k, v in lin(t[2]).items()}
    return {(canon(t),): 1}


def strip1(t):
    return t[2] if t[0] == 'cast' else t


def canon(t):
    """canonical term: casts dropped inside, arithmetic in linear normal form"""
    t = strip(t)
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] in ('c', 'p', 'this', 'u', 'glob', 'fn', 'it', 'mut', 'lin'):
        return t
    if t[0] == 'op' and t[1] in ('+', '-', '*') or t[0] == 'un' and t[1] == '-':
        l = lin(t)
        if set(l) <= {()}:
            return ('c', l.get((), 0))
        if list(l.values()) == [1] and len(list(l)[0]) == 1:
            return list(l)[0][0]
        return ('lin', tuple(sorted(l.items(), key=repr)))
    if t[0] == 'call' and t[3] == ():
        return ('call', t[1], tuple(canon(x) for x in t[2]), ())
    return tuple(canon(x) if isinstance(x, tuple) and x else x for x in t)


def show(t, depth=0):
    """readable form of a term"""
    if not isinstance(t, tuple) or not t:
        return str(t)
    if t[0] == 'c':
        return 'NULL' if t[1] is None else repr(t[1])
    if t[0] == 'p':
        return t[1]
    if t[0] == 'this':
        return 'this'
    if t[0] == 'fld':
        b = show(t[1])
        return t[2] if b == 'this' else b + '.' + t[2]
    if t[0] == 'cast':
        return '(%s)%s' % (t[1], show(t[2]))
    if t[0] == 'call':
        return '%s(%s)' % (t[1].split('::')[-1], ', '.join(show(x) for x in t[2]))
    if t[0] == 'op':
        return '(%s %s %s)' % (show(t[2]), t[1], show(t[3]))
    if t[0] == 'un':
        return '%s%s' % (t[1], show(t[2]))
    if t[0] == 'ld':
        return '*(%s*)(%s)' % (t[1], show(t[2]))
    if t[0] == 'lin':
        return ' + '.join(('' if c == 1 else '%d*' % c) + ('*'.join(show(x) for x in k) or '1') for k, c in t[1])
    if t[0] in ('addr', 'deref'):
        return ('&' if t[0] == 'addr' else '*') + show(t[1])
    if t[0] in ('it', 'mut', 'u', 'locaddr'):
        return '<%s>' % t[0]
    return str(t)[:80]


def inliner(pr, prefixes=(), names=(), ctors=False, skip=()):
    """inline members of the given classes, and file-local helpers"""
    def f(ref):
        if ref.get('ctor') and not ctors:
            return False
        if ref['qn'] in skip:
            return False
        if ref['qn'].startswith(tuple(prefixes)) or ref['qn'] in names:
            return True
        g = pr.funcs.get(ref['usr'])
        return g is not None and bool(g.flags.get('internal') or '(anonymous' in g.qn or g.flags.get('private') or g.qn not in KNOWN and g.body is not None)
    return f


def unknown(t):
    """the term contains something the analysis does not resolve"""
    return mentions(t, lambda x: x[0] in ('u', 'it', 'mut', 'lambda') or x[0] == 'call' and len(x) == 4 and x[3] != () and not x[1].startswith('conduit::DataType::DataType'))
