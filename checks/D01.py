"""D01: diff / equality verdicts never miss a difference they were asked about.

For every comparison routine: a path that answers "no difference" must have
compared everything that distinguishes the two operands (evidence below), on
every element of every loop, with the operands, tolerance and flags it was given.
"""
from common import Check
import prog as P
from interp import Interp, Domain, strip, mentions, DTALL, DTPRED

ND, NC = 'conduit::Node::diff', 'conduit::Node::diff_compatible'
SUB = (ND, NC, 'conduit::Schema::equals', 'conduit::Schema::compatible', 'conduit::DataType::equals', 'conduit::DataType::compatible')
ITERS = ('conduit::NodeConstIterator::', 'conduit::NodeIterator::')
TID = {0: 'empty', 1: 'object', 2: 'list', 3: 'int8', 4: 'int16', 5: 'int32', 6: 'int64', 7: 'uint8', 8: 'uint16', 9: 'uint32',
       10: 'uint64', 11: 'float32', 12: 'float64', 13: 'char8_str'}
CT = {'int8': 'signed char', 'int16': 'short', 'int32': 'int', 'int64': 'long', 'uint8': 'unsigned char', 'uint16': 'unsigned short',
      'uint32': 'unsigned int', 'uint64': 'unsigned long', 'float32': 'float', 'float64': 'double', 'char8_str': 'char'}
COUNTS = ('number_of_children', 'number_of_elements', 'size')
STRCMP = ('strcmp', 'std::strcmp', 'strncmp', 'std::strncmp', 'memcmp', 'std::memcmp')


def roots(t):
    r = set()
    if mentions(t, lambda x: x == ('this',)):
        r.add('this')
    if mentions(t, lambda x: x[0] == 'p' and x[2] == 0):
        r.add('that')
    return r


def owner(t):
    """the operand an object is a part of"""
    t = strip(t)
    while True:
        if t == ('this',):
            return {'this'}
        if t[0] == 'p':
            return {'that'} if t[2] == 0 else set()
        if t[0] in ('addr', 'deref', 'fld', 'idx', 'un'):
            t = strip(t[1] if t[0] != 'un' else t[2])
        elif t[0] == 'call' and t[2]:
            t = strip(t[2][0])
        else:
            return set()


def is_count(t):
    t = strip(t)
    return t[0] == 'call' and t[1].split('::')[-1] in COUNTS or t[0] == 'fld' and t[2] == 'm_num_ele'


class D(Domain):
    cap = 600
    inline_depth = 4

    def __init__(self, fn, ck, helpers):
        self.fn, self.ck, self.helpers = fn, ck, helpers
        self.sites = 0
        self.isdiff = fn.name in ('diff', 'diff_compatible')
        self.array = fn.qn.startswith('conduit::DataArray')

    def init(self):
        return (None, frozenset(), frozenset(), None)     # found site, pending, evidence, recorded validity

    def inline(self, ip, ref, n):
        if self.fn.qn.startswith('conduit::DataType::'):
            return ref['qn'].startswith('conduit::DataType::')
        return ref['usr'] in self.helpers

    def mutates(self, ref):
        return not ref['qn'].startswith(ITERS)

    def pure(self, ref):
        return ref['qn'].startswith(('std::min', 'std::max', 'std::abs', 'std::fabs', 'std::isnan', 'std::map', 'std::vector', 'std::_Rb')) \
            or ref['name'] in ('isnan', 'fabs', 'abs', 'strcmp', 'strstr', 'strncmp', 'strlen', 'memcmp', 'value', 'operator[]', 'element', 'child', 'children', 'fetch_existing', 'child_ptr', 'fetch_ptr')

    # -- dom updates
    def upd(self, s, found=None, addp=(), delp=(), ev=()):
        f, p, e, v = s.dom
        return s.withdom((f or found, (p - frozenset(delp)) | frozenset(addp), e | frozenset(ev), v))

    def enter(self, s, key):
        f, p, e, v = s.dom
        if ('elem', key) in p:
            return self.upd(s, addp=[('lost', key)])
        # a new element: earlier per-element evidence is void
        s = s.withdom((f, p, frozenset(x for x in e if x[0] != 'cmp'), v))
        return self.upd(s, addp=[('elem', key)])

    def compared(self, s):
        """the current elements have been compared equal"""
        f, p, e, v = s.dom
        return s.withdom((f, frozenset(x for x in p if x[0] != 'elem'), e, v))

    def bad(self, n, what, msg):
        self.ck.bad('%s:%s' % (what, self.fn.qn), n.fn.file if n.fn else self.fn.file, n.line, '%s: %s' % (self.fn.qn, msg))

    def on_range(self, ip, s, n, c, entering):
        r = roots(c)
        if len(r) != 1:
            return s
        k = list(r)[0]
        return self.enter(s, ('range', n.id)) if entering else self.upd(s, ev=[('all', k)])

    def on_call(self, ip, s, n, ref, obj, args, locs):
        if ref is None:
            return None
        qn, nm = ref['qn'], ref['name']
        if qn == 'conduit::utils::log::error':
            return [(self.upd(s, found=(n.line, 'an error logged')), ('u', 'void'))]
        if qn == 'conduit::utils::log::validation':
            out = []
            for s2, b in ip.decide(args[1], s):
                f, p, e, v = s2.dom
                if strip(args[0]) == ('p', self.fn.params[1][0], 1):
                    s2 = s2.withdom((f, p, e, b))
                out.append((s2, ('u', 'void')))
            return out
        if qn.startswith(ITERS):
            if nm == 'has_next':
                r = roots(obj)
                if len(r) == 1:
                    k = list(r)[0]
                    return [(self.enter(s, ('iter', k)), ('c', True)), (self.upd(s, ev=[('all', k)]), ('c', False))]
                return [(s, ('call', qn, (obj,), ip.path + (n.id,)))]
            if nm in ('next', 'peek_next'):
                return [(s, ('call', '<element>', (obj,), ip.path + (n.id,)))]
            if nm in ('name', 'index'):
                return [(s, ('call', qn, (obj,), ip.path + (n.id,)))]
        if nm in ('operator==', 'operator!=') and len(args) + (obj is not None) == 2 and ('iterator' in qn or any('iterator' in p[1] for p in ref['params'])):
            a, b = ([obj] if obj is not None else []) + list(args)
            t = ('op', '==', strip(a), strip(b))
            return [(s, t if nm == 'operator==' else ('un', '!', t))]
        if nm in ('operator++',) and obj is not None and 'iterator' in qn.lower():
            l = locs[0]
            v = ('op', '+', obj, ('c', 1))
            return [(s.set(l, v), v)]
        if nm == 'operator->' and obj is not None:
            return [(s, ('addr', ('deref', obj)))]
        if nm == 'compact_elements_to' and obj is not None and args and len(roots(obj)) == 1:
            for x in news(args[0]):
                f, p, e, v = s.dom
                s = s.withdom((f, p, frozenset(y for y in e if y[:2] != ('fill', x)) | {('fill', x, list(roots(obj))[0])}, v))
            return [(s, ('u', 'void'))]
        if qn == 'conduit::Node::children':
            return [(s, ('call', qn, (obj,), ()))]
        base = qn
        if qn.startswith('conduit::DataArray<') and nm in ('diff', 'diff_compatible', 'compatible'):
            base = 'DataArray'
        if (qn in SUB or base == 'DataArray') and not (qn.startswith('conduit::DataType') and self.fn.qn.startswith('conduit::DataType')):
            self.sites += 1
            want = self.fn.name
            if nm != want:
                self.bad(n, 'wrong-comparison', 'delegates to %s instead of %s' % (qn, want))
            ra, rb = owner(obj), owner(args[0])
            if base == 'DataArray' and (len(roots(obj)) > 1 or len(roots(args[0])) > 1):
                self.bad(n, 'operands', 'an array that is compared is made of the data of one operand and the layout of the other')
            elif not self.same_position(obj, args[0]):
                self.bad(n, 'operands', 'children at different positions are compared')
            if len(ra) != 1 or len(rb) != 1 or ra == rb:
                self.bad(n, 'operands', 'the delegated comparison does not compare a part of this with the same part of the other operand')
            elif want not in ('diff', 'equals') and ra != {'this'} :
                self.bad(n, 'operands', 'operands of a one-sided comparison are exchanged')
            if self.isdiff:
                for a, p in zip(args[1:], ref['params'][1:]):
                    if p[0] in ('epsilon', 'relaxint') or p[1] in ('const double', 'double', 'bool'):
                        if strip(a)[0] != 'p':
                            self.bad(n, 'option-dropped', 'the %s option is not passed on to the delegated comparison' % p[0])
            if qn in (ND, NC) or qn.startswith('conduit::Schema'):
                if self.positional(obj) and self.positional(args[0]) and self.kinds(s, 'this') == {'object'}:
                    self.bad(n, 'operands', 'children of objects are paired by position, not by name')
            ev = [('leaf', nm, self.ct(qn) if base == 'DataArray' else qn)]
            eq = self.upd(self.compared(s), ev=ev)
            ne = self.upd(s, found=(n.line, qn))
            if self.isdiff:
                return [(eq, ('c', False)), (ne, ('c', True))]
            return [(eq, ('c', True)), (ne, ('c', False))]
        return None

    def ct(self, qn):
        return qn[len('conduit::DataArray<'):qn.index('>')]

    def positional(self, t):
        t = strip(t)
        while t[0] in ('addr', 'deref'):
            t = strip(t[1])
        if t[0] == 'call' and t[1].split('::')[-1] in ('child', 'operator[]', 'child_ptr') and len(t[2]) == 2:
            k = strip(t[2][1])
            return k[0] == 'it'
        return False

    def same_position(self, a, b):
        ij = []
        for t in (a, b):
            t = strip(t)
            while t[0] in ('addr', 'deref'):
                t = strip(t[1])
            if t[0] == 'call' and t[1].split('::')[-1] in ('child', 'operator[]', 'child_ptr') and len(t[2]) == 2:
                ij.append(strip(t[2][1]))
            elif t[0] == 'idx':
                ij.append(strip(t[2]))
        if len(ij) != 2 or not all(numeric(i) for i in ij):
            return True
        return not lin_differs(ij[0], ij[1])

    def side(self, s, t):
        """the operand whose text a pointer or string holds (None: unknown)"""
        t = strip(t)
        if t[0] == 'call' and t[1].split('::')[-1] == 'substr' and t[2]:
            return self.side(s, t[2][0])
        ns = news(t)
        if ns:
            fs = {e[2] for e in s.dom[2] if e[0] == 'fill' and e[1] in ns}
            return fs.pop() if len(fs) == 1 else None
        r = roots(t)
        return list(r)[0] if len(r) == 1 else None

    def text(self, s, a, b):
        """the branch established that the texts of the two operands agree (diff: entirely; diff_compatible: this is a prefix)"""
        two = self.fn.name == 'diff'
        for x, y in ((a, b), (b, a)):
            if x[0] != 'call':
                continue
            nm = x[1].split('::')[-1]
            if nm in ('strcmp', 'strncmp', 'memcmp') and y == ('c', 0):
                sd = [self.side(s, z) for z in x[2][:2]]
                if None not in sd and sd[0] == sd[1]:
                    return False
                if nm != 'strcmp' and len(x[2]) > 2:
                    n = strip(x[2][2])
                    short = mentions(n, lambda z: z[0] == 'op' and z[1] == '-') or \
                        mentions(n, lambda z: z[0] == 'call' and z[1].split('::')[-1] in ('strlen', 'size', 'length')) and not mentions(n, lambda z: z[0] == 'op' and z[1] == '+')
                    lens = any(f[0] == 'op' and f[1] == '==' and v and all(strip(z)[0] == 'call' and strip(z)[1].split('::')[-1] in ('strlen', 'size', 'length') for z in f[2:4])
                               for f, v in s.facts.items())
                    if two and short and not lens and not (('le', 'this', 'that') in s.dom[2] and ('le', 'that', 'this') in s.dom[2]):
                        return False
                    if not two and mentions(n, lambda z: z[0] == 'call' and z[1].startswith('std::min')):
                        return False
                return True
            if nm == 'strstr':
                sd = [self.side(s, z) for z in x[2][:2]]
                if None not in sd and sd != ['that', 'this']:
                    return False
                return strip(y) == strip(x[2][0])
            if nm in ('find', 'compare', 'rfind'):
                return y == ('c', 0)
        if a[0] == b[0] == 'call' and not is_count(a) and not is_count(b) and not self.elems(a) and not self.elems(b):
            sd = [self.side(s, a), self.side(s, b)]        # the texts as std::string
            return None not in sd and sd[0] != sd[1] and all('element_ptr' in repr(x) or news(x) for x in (a, b))
        return False

    def kinds(self, s, who):
        """type ids the operand can still have"""
        poss = set(DTALL)
        for t, b in s.facts.items():
            if t[0] == 'call' and t[1].startswith('conduit::DataType::is_') and len(t[2]) == 1 and roots(t[2][0]) == {who}:
                ids = DTPRED.get(t[1].split('is_', 1)[1])
                if ids is not None:
                    poss = poss & ids if b else poss - ids
            if t[0] == 'op' and t[1] == '==' and t[3][0] == 'c' and isinstance(t[3][1], int) and self.is_id(t[2]) and roots(t[2]) == {who}:
                k = TID.get(t[3][1])
                poss = poss & {k} if b else poss - {k}
        return poss

    def is_id(self, t):
        t = strip(t)
        return t[0] == 'call' and t[1] == 'conduit::DataType::id' or t[0] == 'fld' and t[2] == 'm_id'

    def elems(self, t):
        """(roots, index) of element accesses within a term"""
        out = []

        def go(x):
            if x[0] == 'call' and x[1].split('::')[-1] in ('operator[]', 'element') and len(x[2]) == 2:
                out.append((frozenset(roots(x[2][0])), strip(x[2][1])))
                return
            for y in x:
                if isinstance(y, tuple) and y:
                    go(y)
        go(t)
        return out

    def pairs(self, t):
        e = self.elems(t)
        if narrowed(t):
            return False
        return bool(e) and {r for r, _ in e} == {frozenset(['this']), frozenset(['that'])} and len({i for _, i in e}) == 1

    def on_branch(self, ip, s, t, val):
        if t[0] == 'call' and t[1] in ('conduit::Schema::has_path', 'conduit::Schema::has_child') and not val and self.fn.qn == 'conduit::Schema::compatible':
            return self.compared(s)      # children only one side has are compatible
        if t[0] == 'call' and t[1].split('::')[-1] in ('element_ptr', '<new>') and not val:
            return None                  # the address of an element is not null
        if t[0] != 'op' or t[1] not in ('==', '<'):
            return s
        a, b = strip(t[2]), strip(t[3])
        if t[1] == '==' and val and ('c', 0) in (a, b) and any(x[0] == 'call' and x[1].split('::')[-1] in ('element_ptr', '<new>') for x in (a, b)):
            return None                  # the address of an element is not null
        # loop heads
        if t[1] == '<' and a[0] == 'it' or t[1] == '==' and (a[0] == 'it' or b[0] == 'it'):
            if t[1] == '==' and b[0] == 'it':
                a, b = b, a
            stay = val if t[1] == '<' else not val
            side = None
            if is_count(b) and len(roots(b)) == 1:
                side = [list(roots(b))[0]]
            elif b[0] == 'call' and b[1].startswith('std::min') and roots(b) == {'this', 'that'}:
                side = ['common']
            elif b[0] == 'call' and b[1].startswith('std::max') and roots(b) == {'this', 'that'}:
                side = ['this', 'that']
            elif b[0] == 'call' and b[1].split('::')[-1] in ('end', 'cend') and len(roots(b)) == 1:
                side = [list(roots(b))[0]]
            if side is not None:
                if stay:
                    return self.enter(s, a)
                if not self.full(ip, a, b):
                    return s
                return self.upd(s, ev=[('all', k) for k in side])
        # counts
        if is_count(a) and is_count(b) and len(roots(a)) == 1 and len(roots(b)) == 1 and roots(a) != roots(b):
            x, y = list(roots(a))[0], list(roots(b))[0]
            if t[1] == '==' and val:
                s = self.upd(s, ev=[('le', x, y), ('le', y, x)])
            if t[1] == '<':
                s = self.upd(s, ev=[('le', x, y)] if val else [('le', y, x)])
        # element comparisons
        ev = []
        if t[1] == '==' and val:
            if self.nan(a) and self.nan(b) and roots(a) | roots(b) == {'this', 'that'}:
                ev.append(('cmp', 'nan'))
            elif self.pairs(('op', '==', t[2], t[3])) and not self.nan(a):
                ev.append(('cmp', 'eq'))
            if self.text(s, a, b):
                s = self.upd(s, ev=[('string',)])
        if t[1] == '<' and not val and b == ('c', 0) and len(self.elems(a)) == 1:
            ev.append(('cmp', 'sign'))
        if t[1] == '<' and val and a == ('c', -1) and len(self.elems(b)) == 1:
            ev.append(('cmp', 'sign'))
        if t[1] == '<' and not val:
            e1, e2 = self.eps(a), self.eps(b)
            if e1 == '+' and self.pairs(t[3]):
                ev += [('cmp', 'hi')] + ([('cmp', 'lo')] if b[0] == 'call' and b[1].split('::')[-1] in ('abs', 'fabs') else [])
            if e2 == '-' and self.pairs(t[2]):
                ev.append(('cmp', 'lo'))
        if ev:
            s = self.upd(s, ev=ev)
            c = {x[1] for x in s.dom[2] if x[0] == 'cmp'}
            if 'eq' in c and ('sign' in c or not self.needs_sign(s)) or {'hi', 'lo', 'nan'} <= c:
                s = self.compared(s)
        return s

    def full(self, ip, it, bound):
        """the loop started at the beginning (or where an earlier loop of the same kind stopped)"""
        vs = ip.starts.get(it, set())
        for v in vs:
            v = strip(v)
            if v == ('op', '+', it, ('c', 1)) or v == ('c', 0) or v[0] == 'it' and v != it and self.full(ip, v, bound):
                continue
            if v[0] == 'call' and v[1].split('::')[-1] in ('begin', 'cbegin'):
                continue
            if v[0] == 'call' and v[1].split('::')[-1] == 'operator++':
                continue
            return False
        return bool(vs)

    def needs_sign(self, s):
        """a uint64 value and a signed one: as int64, the largest unsigned values look negative"""
        if self.array or not self.fn.qn.startswith('conduit::Node'):
            return False
        kt, ko = self.kinds(s, 'this'), self.kinds(s, 'that')
        return 'uint64' in kt and bool(ko & SIGNED) or 'uint64' in ko and bool(kt & SIGNED)

    def nan(self, t):
        t = strip(t)
        if t[0] == 'op' and t[1] == '!=' and strip(t[2]) == strip(t[3]):
            return True
        return t[0] == 'call' and t[1].split('::')[-1] == 'isnan'

    def eps(self, t):
        t = strip(t)
        if t[0] == 'p' and t[1] == self.fn.params[2][0] if len(self.fn.params) > 2 else False:
            return '+'
        if t[0] == 'un' and t[1] == '-' and self.eps(t[2]) == '+':
            return '-'
        return None


SIGNED = frozenset(('int8', 'int16', 'int32', 'int64'))
#: types that hold every value of the key
WIDER = {'float': ('double', 'long double'), 'double': ('long double',)}
_INT = [('signed char', 8, 1), ('char', 8, 1), ('short', 16, 1), ('int', 32, 1), ('long', 64, 1), ('long long', 64, 1), ('unsigned char', 8, 0), ('unsigned short', 16, 0),
        ('unsigned int', 32, 0), ('unsigned long', 64, 0), ('unsigned long long', 64, 0)]
for _n, _w, _s in _INT:
    WIDER[_n] = tuple(x for x, w, sg in _INT if w > _w or w == _w) + (('double',) if _w < 64 else ()) + (('float',) if _w < 32 else ()) + ('long double',)


def narrowed(t):
    """an element is converted to a type that cannot hold all its values before it is compared"""
    def elem_type(x):
        x = strip(x)
        if x[0] == 'call' and x[1].startswith('conduit::Data') and '<' in x[1] and x[1].split('::')[-1] in ('operator[]', 'element'):
            return x[1][x[1].index('<') + 1:x[1].index('>')]
        return None

    def go(x):
        if not isinstance(x, tuple) or not x:
            return False
        if x[0] == 'cast':
            e = elem_type(x[2])
            y = x
            while e is not None and y[0] == 'cast':
                to = y[1].replace('const ', '').replace('&', '').strip()
                if to != e and to in set(WIDER) | {'long double'} and to not in WIDER.get(e, ()):
                    return True
                y = y[2]
        return any(go(y) for y in x[1:])
    return go(t)


def news(t):
    out = set()

    def f(x):
        if x[0] == 'call' and x[1] == '<new>':
            out.add(x[3])
        return False
    mentions(t, f)
    return out


def numeric(t):
    t = strip(t)
    if t[0] == 'op' and t[1] in ('+', '-', '*'):
        return numeric(t[2]) and numeric(t[3])
    return t[0] == 'it' or t[0] == 'c' and isinstance(t[1], int) or is_count(t)


def lin(t):
    """linear form of an index"""
    t = strip(t)
    if t[0] == 'c':
        return {1: t[1]}
    if t[0] == 'op' and t[1] in ('+', '-'):
        a, b = dict(lin(t[2])), lin(t[3])
        for k, v in b.items():
            a[k] = a.get(k, 0) + (v if t[1] == '+' else -v)
        return {k: v for k, v in a.items() if v}
    return {t: 1}


def lin_differs(a, b):
    return {k: v for k, v in lin(a).items() if v} != {k: v for k, v in lin(b).items() if v}


def counts_known(ev):
    return ('le', 'this', 'that') in ev and ('le', 'that', 'this') in ev or ('all', 'common') in ev


def all_of(ev, k):
    o = 'that' if k == 'this' else 'this'
    return ('all', k) in ev or (('all', 'common') in ev or ('all', o) in ev) and ('le', k, o) in ev


def missing(ip, d, f, st):
    """what the no-difference answer on this path lacks, or None"""
    found, pend, ev, val = st.dom
    if found:
        return 'a difference reported by %s (line %d) is lost' % (found[1], found[0])
    if pend:
        return 'some element of a loop is not compared'
    if f.qn.startswith('conduit::DataType::'):
        want = {'equals': ('m_id', 'm_num_ele', 'm_offset', 'm_stride', 'm_ele_bytes', 'm_endianness'), 'compatible': ('m_id', 'm_ele_bytes')}[f.name]
        for w in want:
            if not any(t[0] == 'op' and t[1] == '==' and b and {x[2] for x in (strip(t[2]), strip(t[3])) if x[0] == 'fld'} == {w} and roots(t) == {'this', 'that'}
                       for t, b in st.facts.items()):
                return 'the %s of the two types is not compared' % w[2:]
        if f.name == 'compatible' and ('le', 'that', 'this') not in ev:
            return 'the element counts are not compared'
        return None
    kt = d.kinds(st, 'this')
    if d.array:
        two = f.name == 'diff'
        if kt & {'char8_str'} and not (kt - {'char8_str'}):
            cts = set()
            for t in st.facts:
                if t[0] == 'op':
                    cts |= {strip(x) for x in t[2:] if is_count(x)}
            zero = {frozenset(roots(c)) for c in cts if ip.bounds(c, st) == (0, 0)}
            if ('string',) in ev or len(zero) == 2:
                return None
            return 'the strings are not compared'
        if not all_of(ev, 'this'):
            return 'not every element is compared'
        if two and not (all_of(ev, 'that') and counts_known(ev)):
            return 'the numbers of elements are not compared'
        if not two and ('le', 'this', 'that') not in ev:
            return 'the numbers of elements are not compared'
        return None
    ideq = [b for t, b in st.facts.items() if t[0] == 'op' and t[1] == '==' and d.is_id(t[2]) and d.is_id(t[3]) and roots(t) == {'this', 'that'}]
    two = f.name in ('diff', 'equals')
    sides = {'diff': ('this', 'that'), 'diff_compatible': ('this',), 'equals': ('this', 'that'), 'compatible': ('that',)}[f.name]
    if not ideq and not (kt == d.kinds(st, 'that') and len(kt) == 1):
        return 'the types are not compared'
    if ideq and not ideq[0]:
        relax = [b for t, b in st.facts.items() if t[0] == 'p' and t[1] == f.params[-1][0]]
        if relax != [True]:
            return 'different types are accepted without the relaxed option'
        if kt & {'float32', 'float64', 'char8_str', 'object', 'list', 'empty'} or d.kinds(st, 'that') & {'float32', 'float64', 'char8_str', 'object', 'list', 'empty'}:
            return 'different non-integer types are accepted'
        for k in sides:
            if not all_of(ev, k):
                return 'not every element of integers of different types is compared'
        if not two and ('le', 'this', 'that') not in ev or two and not counts_known(ev):
            return 'the numbers of elements are not compared'
        return None
    if kt == {'empty'}:
        return None
    if kt <= {'object', 'list'}:
        for k in sides:
            if not all_of(ev, k):
                return 'not every child of both operands is compared' if two else 'not every child is compared'
        return None
    leaf = [e for e in ev if e[0] == 'leaf']
    if f.qn.startswith('conduit::Schema'):
        return None if any(e[2].startswith('conduit::DataType::') for e in leaf) else 'the leaf types are not compared'
    if kt - {'empty', 'object', 'list'} and not leaf:
        return 'a leaf is not compared'
    want = {CT[k] for k in kt if k in CT}
    if not all(e[2] in want and len(want) == 1 for e in leaf if e[2] in CT.values()):
        return 'a leaf of type %s is compared as %s' % ('/'.join(sorted(kt)), leaf[0][2])
    return None


def run(tier):
    ck = Check('D01', 'other', 'every path of a comparison routine that answers "no difference" has compared type, lengths and every element or child of both '
               'operands, found none different, and passed tolerance and options on; the recorded validity is the negated answer', tier)
    pr = P.load(lambda r: r in ('conduit/conduit_node.cpp', 'conduit/conduit_schema.cpp', 'conduit/conduit_data_array.cpp', 'conduit/conduit_data_type.cpp', 'conduit/conduit_log.cpp'))
    fns = [f for f in pr.funcs.values() if f.qn in SUB or f.qn.startswith('conduit::DataArray<') and f.name in ('diff', 'diff_compatible')]
    ck.floor('routines', len(fns), 12)
    main = {f.usr for f in fns}
    for f in sorted(fns, key=lambda f: (f.file, f.line, f.qn)):
        # helpers: functions of the same file, not themselves one of the routines, small, reached from it
        hs = helpers(pr, f, main)
        d = D(f, ck, hs)
        ip = Interp(pr, d)
        outs = ip.run(f)
        ck.count('exits', len(outs))
        for kind, st, v, n in outs:
            if kind != 'return':
                continue
            line = n.line if n is not None else f.end
            nodiff = v is False if d.isdiff else v is True
            if nodiff:
                m = missing(ip, d, f, st)
                if m:
                    ck.bad('no-difference:%s:%s' % (f.qn, m.split(' (line')[0]), f.file, line, '%s: can answer "no difference" although %s' % (f.qn, m))
                ck.ok()
            if d.isdiff and st.dom[3] is not (not v):
                ck.bad('validity:%s' % f.qn, f.file, line, '%s: the recorded validity is not the negated answer on some path' % f.qn)
        ck.ok(d.sites, '%s: %d delegated comparisons, %d exit states' % (f.qn, d.sites, len(outs)))
    return ck


CORE = ('conduit::Node', 'conduit::Schema', 'conduit::DataType', 'conduit::DataArray', 'conduit::DataAccessor', 'conduit::utils', 'conduit::NodeConstIterator', 'conduit::NodeIterator')


def helpers(pr, f, main):
    """internal functions reached from f (file-local, private, or not part of the documented classes' existing API)"""
    out = set()
    work = [f]
    while work:
        g = work.pop()
        for x in g.body.walk():
            if x.k in ('Call', 'MCall') and x.d[0] is not None:
                h = pr.funcs.get(x.d[0]['usr'])
                if h is None or h.usr in out or h.usr in main:
                    continue
                if h.flags.get('internal') or h.flags.get('private') and h.file == f.file and 'diff' in h.name or '(anonymous namespace)' in h.qn or '(anonymous)' in h.qn:
                    out.add(h.usr)
                    work.append(h)
    return out
