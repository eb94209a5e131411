"""Q01: reductions over typed arrays take every element into account, once."""
from common import Check
import prog as P
from summ import *
from loopcov import covers, bare

CLS = ('conduit::DataArray<', 'conduit::DataAccessor<')
U = 'conduit::blueprint::mesh::utils::'


class Dom(Sum):
    iters = True

    def init(self):
        return frozenset()

    def on_store(self, ip, s, n, loc, v):
        if loc[0] == 'v':
            return s.withdom(s.dom | {('st', loc, v, frozenset(s.facts.items()), n.line)})
        return s


def elem(t):
    """index of an element read, or None"""
    t = strip(t)
    while t[0] in ('deref', 'ref', '*'):
        t = strip(t[1])
    if t[0] == 'call' and t[1].split('::')[-1] in ('element', 'operator[]') and len(t[2]) == 2:
        return strip(t[2][1])
    if t[0] == 'ld' and t[2][0] == 'call' and t[2][1].endswith('element_ptr'):
        return strip(t[2][2][1])
    return None


def count(b):
    b = strip(b)
    return b[0] == 'call' and b[1].split('::')[-1] in ('number_of_elements', 'size')


def elems(t):
    """all element reads inside a term"""
    out = set()

    def f(x):
        if x and x[0] in ('call', 'ld') and elem(x) is not None:
            out.add(x)
        return False
    mentions(t, f)
    return out


class R:
    """one reduction: result variable r on path p"""

    def __init__(self, ck, f, what, tname):
        self.ck, self.f, self.what, self.tname = ck, f, what, tname
        self.key = '%s:%s' % (what, f.qn)

    def bad(self, msg, line=None):
        self.ck.bad(self.key, self.f.file, line or self.f.line, '%s: %s' % (self.f.qn, msg))

    def judge(self, ip, p, r, cmpv=None):
        what = self.what
        r = strip(r)
        if r[0] != 'it':
            if what in ('min', 'max', 'sum') and not unknown(r) and not elems(r):
                self.bad('the result is %s, whatever the elements are' % show(r))
                return True
            return None
        starts = [x for x in ip.starts.get(r, ())]
        if not starts:
            return None
        init = [x for x in starts if not mentions(x, lambda y: y == r) and not any(strip(elem(e))[0] == 'it' for e in elems(x))]
        steps = [x for x in starts if x not in init]
        if not steps:
            if any(unknown(x) for x in init):
                return None
            self.bad('no element enters the result')
            return True
        first = False
        for x in init:
            v = strip(x)
            e = elem(v)
            if e is not None:
                if e == ('c', 0) and what in ('min', 'max'):
                    first = True
                    continue
                self.bad('starts from element %s' % show(e))
                return True
            if what in ('sum', 'mean', 'count'):
                if v[0] == 'c' and v[1] != 0:
                    self.bad('starts from %s' % v[1])
                    return True
                if v[0] != 'c':
                    return None
            elif v[0] == 'call' and 'numeric_limits' in v[1]:
                n = v[1].split('::')[-1]
                t = v[1].split('numeric_limits<')[1].split('>')[0]
                flt = t in ('float', 'double')
                good = {'min': ('max', 'infinity'), 'max': ('lowest',) if flt else ('lowest', 'min')}[what]
                if n not in good:
                    self.bad('the search for the %s starts from numeric_limits<%s>::%s(), which elements can be %s' % (what, t, n, 'above' if what == 'min' else 'below'))
                    return True
                if self.tname and t != self.tname:
                    self.bad('the search for the %s of %s elements starts from a limit of %s' % (what, self.tname, t))
                    return True
            elif v[0] == 'c':
                self.bad('the search for the %s starts from %s' % (what, v[1]))
                return True
            else:
                return None
        idx = None
        for x in steps:
            es = elems(x)
            if what == 'count':
                if canon(x) != canon(('op', '+', r, ('c', 1))):
                    if unknown(('t',) + tuple(y for m in lin(x) for y in m if y != r)):
                        return None
                    self.bad('an occurrence counts as %s' % show(x))
                    return True
                continue
            if len(es) != 1:
                return None if not es or len(es) > 1 else None
            e = list(es)[0]
            idx = elem(e)
            if what in ('sum', 'mean'):
                l = lin(x)
                if l.get((r,)) != 1 or len(l) != 2:
                    self.bad('an element enters as %s' % show(x))
                    return True
                m, c = [(m, c) for m, c in l.items() if m != (r,)][0]
                if c != 1 or len(m) != 1:
                    self.bad('an element enters as %s' % show(x))
                    return True
                if what == 'mean' and not ('double' in casts(x, e) or self.tname == 'double'):
                    self.bad('the mean is accumulated as %s, not as a double' % (self.tname or 'elements'))
                    return True
                if any(narrow(t, self.tname) for t in casts(x, e)):
                    self.bad('elements are cut to %s before they are added' % [t for t in casts(x, e) if narrow(t, self.tname)][0])
                    return True
            else:
                v = strip(x)
                if v[0] == 'call' and v[1].split('::')[-1].split('<')[0] in ('min', 'max'):
                    if v[1].split('::')[-1].split('<')[0] != what:
                        self.bad('takes the %s' % v[1].split('::')[-1])
                        return True
                elif elem(v) is None:
                    return None
        # which iterations change the result
        cond = None
        ivars = set()
        for e in p.ev:
            if e[0] == 'st' and e[1] == r[3]:
                for t, b in e[3]:
                    for y in elems(t):
                        ivars.add(elem(y))
        if idx is None:
            idx = next(iter([i for i in ivars if i[0] == 'it']), None)
        if idx is None:
            return None
        if idx[0] != 'it':
            self.bad('only element %s is considered' % show(idx))
            return True
        why = covers(ip, p, idx, count)
        if why and first:
            why = covers(ip, p, idx, count, ('c', 1))
        if why:
            if why.startswith('?'):
                return None
            self.bad(why)
            return True
        for e in p.ev:
            if e[0] != 'st' or e[1] not in (r[3], idx[3]) or not mentions(e[2], lambda y: y == idx or y == r or elem(y) == idx):
                continue
            for t, b in e[3]:
                if not (elems(t) or mentions(t, lambda y: y == idx)):
                    continue
                if t[0] == 'op' and t[1] == '<' and strip(t[2]) == idx and count(t[3]):
                    continue
                if t[0] == 'op' and t[1] == '<' and strip(t[2]) == idx and strip(t[3]) == ('c', 0):
                    continue
                if t[0] == 'op' and t[1] == '==' and idx in (strip(t[2]), strip(t[3])) and any(count(z) for z in t[2:4]):
                    continue
                a, c = (strip(t[2]), strip(t[3])) if t[0] == 'op' and len(t) == 4 else (None, None)
                ok = False
                if a is not None and what in ('min', 'max') and t[1] in ('<',) and r in (a, c):
                    # (el < r) or (r < el)
                    less = elem(a) == idx
                    upd = e[1] == r[3]
                    # the update happens when the element is beyond the result
                    take = (b if less else not b) if what == 'min' else (not b if less else b)
                    ok = True
                    if upd and not take:
                        self.bad('the result becomes an element that is not %s' % ('smaller' if what == 'min' else 'larger'), e[4])
                        return True
                if a is not None and what == 'count' and t[1] == '==':
                    o = c if elem(a) == idx else a if elem(c) == idx else None
                    if o is not None and cmpv is not None and o == cmpv:
                        ok = True
                        if e[1] == r[3] and not b:
                            self.bad('elements different from the value are counted', e[4])
                            return True
                if not ok:
                    if a is None and unknown(t) and not elems(t):
                        continue
                    self.bad('whether an element counts depends on %s' % show(t)[:120], e[4])
                    return True
        if what in ('sum', 'mean') and r in ip.stays:
            self.bad('some iteration leaves the result unchanged')
            return True
        self.ck.ok(1, '%s: every element up to the element count' % self.f.qn)
        return True


def casts(t, e):
    """the casts between the root and element read e"""
    out = []

    def go(x):
        if not isinstance(x, tuple) or not x:
            return False
        if x == e:
            return True
        if x[0] == 'cast':
            if go(x[2]):
                out.append(x[1])
                return True
            return False
        return any(go(y) for y in x if isinstance(y, tuple))
    go(t)
    return out


SZ = {'signed char': 8, 'char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'float': 24, 'double': 53}


def narrow(t, frm):
    if t not in SZ or frm not in SZ or t == frm:
        return False
    if frm in ('float', 'double'):
        return t not in ('float', 'double') or t == 'float'
    if t in ('float', 'double'):
        return t == 'float' and SZ[frm] > 24
    return SZ[t] < SZ[frm]


def run(tier):
    ck = Check('Q01', 'other', 'every instantiation of min, max, sum, mean and count of DataArray and DataAccessor (and the extents of coordinate arrays) starts from the neutral value of its element type, visits every index '
               'below the number of elements, and lets each element enter unconditionally (sum, mean) or exactly when it improves the result or equals the value asked for', tier)
    pr = P.load(lambda r: r in ('conduit/conduit_data_array.cpp', 'conduit/conduit_data_accessor.cpp', 'blueprint/conduit_blueprint_mesh_utils.cpp'))
    n = done = 0
    known = inliner(pr, ())

    def inl(ref):
        return ref['qn'] not in KNOWN and known(ref)
    for f in sorted(pr.funcs.values(), key=lambda f: f.qn):
        if f.body is None:
            continue
        if f.qn.startswith(CLS) and f.name in ('min', 'max', 'sum', 'mean', 'count'):
            jobs = [(f.name, None)]
            tn = f.qn.split('<', 1)[1].split('>::')[0]
        elif f.name == 'typed_minmax' and f.qn.startswith(U):
            jobs = [('min', 1), ('max', 2)]
            tn = f.params[0][2].split('<')[1].split('>')[0] if '<' in f.params[0][2] else None
        else:
            continue
        try:
            ps, ip = paths(pr, f, Dom(inl=inl, pure=lambda ref: True))
        except P.ToolError as e:
            ck.notes.append('%s: %s' % (f.qn, e))
            continue
        for what, out in jobs:
            n += 1
            r = R(ck, f, what, tn)
            res = None
            for p in ps:
                if p.kind != 'return':
                    continue
                if out is None:
                    v = p.val
                else:
                    v = p.env.get(('*', ('p', f.params[out][0], out)))
                    if v is None:
                        if not any(q.env.get(('*', ('p', f.params[out][0], out))) for q in ps):
                            continue
                        r.bad('a path leaves %s unset' % f.params[out][0])
                        res = True
                        continue
                if v is None:
                    continue
                v = strip(v)
                if what == 'mean':
                    if v[0] == 'op' and v[1] == '/':
                        if not count(v[3]):
                            if not unknown(v[3]):
                                r.bad('the sum is divided by %s' % show(v[3]))
                                res = True
                            continue
                        if strip(v[2])[0] == 'call':
                            # the mean from another reduction: must not be the typed sum
                            if strip(v[2])[1].endswith('::sum') and tn not in ('double',):
                                r.bad('the mean is taken from the sum as %s' % tn)
                                res = True
                            continue
                        v = strip(v[2])
                    elif v[0] == 'it':
                        r.bad('the mean is not divided by the number of elements')
                        res = True
                        continue
                    else:
                        continue
                j = r.judge(ip, p, v, ('p', f.params[0][0], 0) if what == 'count' else None)
                res = res or j
            if res:
                done += 1
            else:
                ck.notes.append('%s %s: not resolved' % (f.qn, what))
    ck.count('resolved', done)
    ck.floor('reductions', n, 40)
    return ck
