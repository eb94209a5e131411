"""L01: the layout arithmetic (sizes, offsets) is exact and compaction/serialisation place every element accordingly."""
from common import Check
import prog as P
from summ import *
from loopcov import affine, visits, covers, bare, ranged
import T03

DT = 'conduit::DataType::'
SC = 'conduit::Schema::'
ND = 'conduit::Node::'
LEAF = [k for k in KIND.values() if k not in ('empty', 'object', 'list')]
CONT = ('object', 'list')


class Ev(Sum):
    iters = True

    def init(self):
        return frozenset()

    def on_range(self, ip, s, n, c, e):
        return ranged(ip, s, n, c, e)


def recorder(names, extra=None):
    """record calls of the named functions as events (name, object, args, line)"""
    def ev(ip, s, n, ref, obj, args, locs):
        if extra:
            r = extra(ip, s, n, ref, obj, args, locs)
            if r is not None:
                return r
        if ref['qn'] in names:
            o = strip(obj) if obj is not None else None
            e = ('ev', ref['qn'].split('::')[-1], o, tuple(args), n.line)
            return [(s.withdom(s.dom | {e}), ('call', ref['qn'], ((o,) if o is not None else ()) + tuple(args), ()))]
        return None
    return ev


class C:
    def __init__(self, ck, pr):
        self.ck, self.pr = ck, pr

    def fn(self, qn, nparams=None, ty=None, const=None):
        r = [f for f in self.pr.funcs.values() if f.qn == qn and f.body is not None and (nparams is None or len(f.params) == nparams) and (ty is None or f.params and ty in f.params[0][2])]
        if not r:
            self.ck.notes.append('%s not found' % qn)
        return r[0] if r else None

    def res(self, key, f, why):
        if why is None:
            self.ck.ok(1, key)
        elif why[0] == '?':
            self.ck.notes.append('%s: %s' % (key, why))
        else:
            self.ck.bad(key, f.file, f.line, '%s: %s' % (key, why))


def run(tier):
    ck = Check('L01', 'other', 'symbolic result of every size/offset function equals the layout arithmetic for every type, including zero elements; compaction and serialisation visit every child at the running compact offset '
               'and copy every element', tier)
    pr = P.load(lambda r: r in ('conduit/conduit_node.cpp', 'conduit/conduit_data_type.cpp', 'conduit/conduit_schema.cpp', 'conduit/conduit_utils.cpp', 'conduit/conduit_data_array.cpp'))
    c = C(ck, pr)
    sizes(c)
    totals(c)
    schema_compact(c)
    node_compact(c)
    strided(c)
    contiguous(c)
    arrays(c)
    return ck


def sub(l, a):
    """substitute constants for atoms in a linear form"""
    r = {}
    for k, v in l.items():
        kk = []
        for x in k:
            if x in a:
                v *= a[x]
            else:
                kk.append(x)
        r[tuple(kk)] = r.get(tuple(kk), 0) + v
    return {k: v for k, v in r.items() if v}


def poly(*terms):
    """polynomial from (coefficient, atom, atom...)"""
    r = {}
    for t in terms:
        k = tuple(sorted(t[1:], key=repr))
        r[k] = r.get(k, 0) + t[0]
    return {k: v for k, v in r.items() if v}


def num(t, a):
    return lin(t) if t is not None else None


def sizes(c):
    pr, ck = c.pr, c.ck
    T = ('this',)
    n, st, off, eb, mid = [('fld', T, x) for x in ('m_num_ele', 'm_stride', 'm_offset', 'm_ele_bytes', 'm_id')]
    inl = inliner(pr, (DT,))
    STR = poly((1, st, n), (-1, st), (1, eb))
    SPAN = poly((1, off), (1, st, n), (-1, st), (1, eb))
    cnt = 0

    def each(f, want0, want, extra=()):
        ps, ip = paths(pr, f, Sum(inl))
        for nm, a, w in (('no elements', {n: 0}, want0), ('one element', {n: 1}, want), ('two elements', {n: 2}, want), ('many elements', {}, want)):
            key = '%s: %s' % (f.name, nm)
            why = None
            for p in under(ps, a):
                if p.kind != 'return':
                    continue
                if nm == 'many elements' and not feasible(p, {n: 1 << 40}):
                    continue
                l = sub(lin(p.val), a)
                if nm == 'many elements' and [1 for t in p.facts if val(t, {n: 1}) is not None and val(t, {n: 1}) != val(t, {n: 1 << 40})]:
                    pass
                ws = [sub(x, a) for x in (w if isinstance(w, list) else [w])]
                if l not in ws:
                    why = '?%s' % show(p.val) if unknown(p.val) else 'returns %s, expected %s' % (show(canon(p.val)) if not a else show(('lin', tuple(l.items()))) or '0', show(('lin', tuple(ws[0].items()))) or '0')
            c.res(key, f, why)
    for nm, w0, w in (('strided_bytes', {}, STR), ('spanned_bytes', [poly((1, off)), {}], SPAN)):
        f = c.fn(DT + nm)
        if f:
            cnt += 1
            each(f, w0, w)
    f = c.fn(DT + 'element_index')
    if f:
        cnt += 1
        ps, ip = paths(pr, f, Sum(inl))
        i = ('p', f.params[0][0], 0)
        why = None
        for p in ps:
            if p.kind == 'return' and lin(p.val) != poly((1, off), (1, st, i)):
                why = '?' + show(p.val) if unknown(p.val) else 'returns %s, expected offset + stride * index' % show(canon(p.val))
        c.res('element_index', f, why)
    f = c.fn(DT + 'bytes_compact')
    if f:
        cnt += 1
        ps, ip = paths(pr, f, Sum(inl))
        for k in LEAF:
            q = [p for p in under(ps, {mid: ID[k]}) if p.kind == 'return']
            bad = [p for p in q if sub(lin(p.val), {mid: ID[k]}) != poly((WIDTH[k], n))]
            c.res('bytes_compact:' + k, f, '?no path' if not q else None if not bad else '?' + show(bad[0].val) if unknown(bad[0].val) else 'returns %s, expected %d * count' % (show(canon(bad[0].val)), WIDTH[k]))
    f = c.fn(DT + 'is_compact')
    if f:
        cnt += 1
        ps, ip = paths(pr, f, Sum(inl))
        for k in KIND.values():
            for nm, a in (('no elements', {n: 0}), ('one element', {n: 1}), ('many', {})):
                a = dict(a)
                a[mid] = ID[k]
                if k in CONT + ('empty',) and nm != 'many':
                    continue
                D = sub(poly((1, off), (1, st, n), (-1, st), (1, eb), (-WIDTH[k], n)), a) if nm != 'no elements' else poly((1, off))
                why = None
                for p in under(ps, a):
                    if p.kind != 'return' or nm == 'many' and not feasible(p, {**a, n: 1 << 40}):
                        continue
                    why = why or iscompact(p, a, k, D)
                c.res('is_compact:%s:%s' % (k, nm), f, why)
    f = c.fn(DT + 'compact_to')
    if f:
        cnt += 1
        ps, ip = paths(pr, f, Sum(inl))
        d = ('p', f.params[0][0], 0)
        for k in LEAF:
            why = None
            q = [p for p in under(ps, {mid: ID[k]}) if p.kind == 'return']
            for p in q:
                why = why or layout(p, d, ('this',), k, {})
            c.res('compact_to:' + k, f, '?no path' if not q else why)
    ck.floor('size functions', cnt, 3)


def iscompact(p, a, k, D):
    v = strip(p.val)
    x = val(v, a)
    if k in CONT + ('empty',):
        return None if x is not None and not x else '?' if x is None else 'a node of type %s counts as compact' % k
    neg = {kk: -vv for kk, vv in D.items()}
    if x is None and v[0] == 'op' and v[1] == '==':
        d = sub(lin(('op', '-', v[2], v[3])), a)
        return None if d in (D, neg) else '?' if unknown(v) else 'compares %s with %s' % (show(canon(v[2])), show(canon(v[3])))
    if x is None:
        return '?' + show(v)
    for t, b in p.facts.items():
        if t[0] == 'op' and t[1] == '==' and val(t, a) is None:
            d = sub(lin(('op', '-', t[2], t[3])), a)
            if d in (D, neg) and b == bool(x):
                return None
    if not D and x:
        return None
    return '?facts'


def layout(p, dst, src, k, over):
    """after p, data type object dst describes a compact array of kind k with src's count and byte order"""
    fs = p.fields(dst)
    if not fs:
        cp = [e for e in (p.ev or ()) if e[0] == 'ev' and e[1] in ('operator=', 'set')]
        return '?not resolved' if cp or not isinstance(p.ev, tuple) or True else None
    want = {'m_id': {(): ID[k]}, 'm_num_ele': lin(('fld', src, 'm_num_ele')), 'm_offset': over.get('m_offset', {}), 'm_stride': {(): WIDTH[k]}, 'm_ele_bytes': {(): WIDTH[k]}, 'm_endianness': lin(('fld', src, 'm_endianness'))}
    for x, w in want.items():
        if x not in fs:
            return '%s is not set' % x
        g = sub(lin(fs[x]), {('fld', src, 'm_id'): ID[k]})
        if g != w:
            if unknown(fs[x]):
                return '?%s = %s' % (x, show(fs[x]))
            return '%s becomes %s, expected %s' % (x, show(canon(fs[x])), show(('lin', tuple(w.items()))) or '0')
    return None


def iskids(x):
    """the children of this node / schema"""
    return x == ('this',) or x[0] == 'fld' and x[2] in ('children', 'm_children') or x[0] == 'call' and x[1].split('::')[-1] in ('children', 'schema') or x[0] == 'fld' and x[2] == 'm_schema'


def total_fold(ip, p, v, names):
    """v is the sum over every child of one of `names`(child)"""
    v = strip(v)
    if v[0] != 'it':
        return '?' + show(v) if unknown(v) else 'returns %s for an object or list' % show(canon(v))
    st = [strip(x) for x in ip.starts.get(v, ())]
    zero = [x for x in st if val(x, {}) == 0]
    rest = [x for x in st if x not in zero]
    if len(zero) != 1 or not rest:
        return '?accumulator' if any(unknown(x) for x in st) else 'the sum does not start at zero or adds nothing'
    for x in rest:
        d = canon(('op', '-', x, v))
        if d[0] == 'call' and d[1].split('::')[-1] in names:
            w = visits(ip, p, d[2][0], iskids)
            if w:
                return w
        elif d[0] == 'call':
            return 'adds %s of each child' % d[1].split('::')[-1] if d[1].startswith('conduit::') else '?' + show(d)
        else:
            return '?' + show(d)
    return None


def totals(c):
    pr, ck = c.pr, c.ck
    T = ('this',)
    dt = ('fld', T, 'm_dtype')
    n, st, off, eb, mid = [('fld', dt, x) for x in ('m_num_ele', 'm_stride', 'm_offset', 'm_ele_bytes', 'm_id')]
    cnt = 0
    for nm in ('total_strided_bytes', 'total_bytes_compact', 'spanned_bytes'):
        f = c.fn(SC + nm)
        if not f:
            continue
        cnt += 1

        class D(Ev):
            def on_store(self, ip, s, n, loc, v):
                x = strip(v)
                if x[0] == 'call' and x[1] == SC + 'spanned_bytes' and loc[0] == 'v':
                    old = s.env.get(loc)
                    if old is not None and val(old, {}) is None:
                        ok = any(t[0] == 'op' and t[1] == '<' and (b and strip(t[2]) == strip(old) and strip(t[3]) == x or not b and strip(t[2]) == x and strip(t[3]) == strip(old)) for t, b in s.facts.items())
                        if not ok and not mentions(old, lambda y: y == x) and strip(old)[0] == 'it':
                            return s.withdom(s.dom | {('notmax',)})
                return s
        d = D(inliner(pr, (DT, SC + 'dtype', SC + 'children')), pure=lambda r: r.get('const') or r['qn'].startswith(('std::max', 'std::vector')))
        ps, ip = paths(pr, f, d)
        for k in KIND.values():
            for cs, a in (('no elements', {n: 0}), ('any', {})):
                if cs == 'no elements' and k not in LEAF:
                    continue
                a = dict(a)
                a[mid] = ID[k]
                why = None
                q = [p for p in under(ps, a) if p.kind == 'return']
                for p in q:
                    if cs == 'any' and not feasible(p, {**a, n: 1 << 40}):
                        continue
                    if k in CONT:
                        w = total_fold(ip, p, p.val, (nm,)) if nm != 'spanned_bytes' else maxfold(ip, p, p.val)
                    elif k == 'empty':
                        w = None if val(p.val, {**a, **{x: 0 for x in (n, st, off, eb)}}) == 0 else '?' + show(p.val)
                    else:
                        want = {'total_strided_bytes': [poly((1, st, n), (-1, st), (1, eb))], 'total_bytes_compact': [poly((WIDTH[k], n))], 'spanned_bytes': [poly((1, off), (1, st, n), (-1, st), (1, eb))]}[nm]
                        if cs == 'no elements':
                            want = [{}] + ([poly((1, off))] if nm == 'spanned_bytes' else [])
                        g = sub(lin(p.val), a)
                        w = None if g in [sub(x, a) for x in want] else '?' + show(p.val) if unknown(p.val) else 'returns %s' % show(canon(p.val))
                    why = why or w
                c.res('Schema::%s:%s:%s' % (nm, k, cs), f, why if q else '?no path')
    # forwarders
    for qn, tgt in ((ND + 'total_strided_bytes', SC + 'total_strided_bytes'), (ND + 'total_bytes_compact', SC + 'total_bytes_compact'), (ND + 'is_compact', SC + 'is_compact')):
        f = c.fn(qn)
        if f:
            ps, ip = paths(pr, f, Sum(None, pure=lambda r: r.get('const')))
            for p in ps:
                if p.kind == 'return':
                    v = boolval(p)
                    c.res(qn.split('conduit::')[1], f, None if v[0] == 'call' and v[1] == tgt and bare(v[2][0]) == ('fld', ('this',), 'm_schema') else '?' + show(v) if v[0] == 'call' and v[1].split('::')[-1] == qn.split('::')[-1] or unknown(v) else 'returns %s' % show(v))
    f = c.fn(SC + 'is_compact')
    if f:
        ps, ip = paths(pr, f, Sum(None, pure=lambda r: r.get('const')))
        for p in ps:
            if p.kind == 'return':
                v = canon(boolval(p))
                names = {y[1].split('::')[-1] for y in v[2:4]} if v[0] == 'op' and v[1] == '==' and all(isinstance(y, tuple) and y[0] == 'call' for y in v[2:4]) else None
                c.res('Schema::is_compact', f, '?' + show(v) if names is None else None if names == {'total_bytes_compact', 'total_strided_bytes'} else 'compares %s' % sorted(names))
    ck.floor('total functions', cnt, 1)


def boolval(p):
    """a boolean result is split into two paths: the condition it returns"""
    v = strip(p.val)
    if v[0] == 'c' and isinstance(v[1], bool) and len(p.facts) == 1:
        (t, b), = p.facts.items()
        if b == v[1]:
            return t
    return v


def maxfold(ip, p, v):
    if ('notmax',) in p.ev:
        return 'keeps a smaller span than an earlier child (not the maximum)'
    v = strip(v)
    if v[0] != 'it':
        return '?' + show(v)
    st = [strip(x) for x in ip.starts.get(v, ())]
    for x in st:
        if val(x, {}) == 0:
            continue
        if x[0] == 'call' and x[1] == SC + 'spanned_bytes':
            w = visits(ip, p, x[2][0], iskids)
            if w:
                return w
        elif x[0] == 'call' and x[1].startswith('std::max'):
            y = [z for z in x[2] if strip(z) != v]
            y = bare(y[0]) if y else ('u',)
            if y[0] != 'call' or y[1] != SC + 'spanned_bytes':
                return '?' + show(x)
            w = visits(ip, p, y[2][0], iskids)
            if w:
                return w
        else:
            return '?' + show(x)
    return None if len(st) > 1 else '?'


def running(ip, acc, start, names, kids):
    """acc is start plus the sum of names(child) over the children handled so far"""
    acc = strip(acc)
    if acc[0] != 'it':
        l = lin(acc)
        return '?' + show(acc) if unknown(acc) else 'every child gets the offset %s' % show(canon(acc))
    st = [strip(x) for x in ip.starts.get(acc, ())]
    base = [x for x in st if not mentions(x, lambda y: y == acc)]
    if len(base) != 1 or lin(base[0]) != lin(start):
        return '?start' if any(unknown(x) for x in base) else 'the offset of the first child is %s, expected %s' % (', '.join(show(x) for x in base), show(start))
    adds = [canon(('op', '-', x, acc)) for x in st if x not in base]
    if not adds:
        return 'the offset never advances'
    for d in adds:
        if d[0] == 'call' and d[1].split('::')[-1] in names:
            if bare(d[2][0]) not in kids:
                return '?offset advances by %s' % show(d)
        elif d == ('c', 0):
            return 'the offset does not advance after some child'
        else:
            return '?' + show(d) if unknown(d) and not (d[0] == 'call' and d[1].startswith('conduit::')) else 'the offset advances by %s' % (d[1].split('::')[-1] + ' of the child' if d[0] == 'call' else show(d))
    return None


def schema_compact(c):
    pr, ck = c.pr, c.ck
    f = c.fn(SC + 'compact_to', 2)
    if f:
        d, off = ('p', f.params[0][0], 0), ('p', f.params[1][0], 1)
        names = (SC + 'compact_to', SC + 'add_child', SC + 'append', SC + 'init_object', SC + 'init_list')
        dom = Ev(inliner(pr, (DT, SC + 'dtype', SC + 'children', SC + 'object_order')), events=recorder(names), pure=lambda r: r.get('const') or r['qn'].startswith('std::vector'))
        ps, ip = paths(pr, f, dom)
        dt = ('fld', ('this',), 'm_dtype')
        for k in KIND.values():
            q = [p for p in under(ps, {('fld', dt, 'm_id'): ID[k]}) if p.kind == 'return']
            why = None if q else '?no path'
            for p in q:
                if k in CONT:
                    rec = [e for e in p.ev if e[0] == 'ev' and e[1] == 'compact_to']
                    mk = [e for e in p.ev if e[0] == 'ev' and e[1] in ('add_child', 'append')]
                    ini = [e for e in p.ev if e[0] == 'ev' and e[1] in ('init_object', 'init_list')]
                    if not rec:
                        w = None if noiter(p) and any(e[0] == 'ev' and e[1] == 'compact_to' for x in q for e in x.ev) else '?no recursion seen'
                    elif len(rec) > 1:
                        w = '?several recursions'
                    else:
                        e = rec[0]
                        w = visits(ip, p, e[2], iskids)
                        cd = bare(e[3][0])
                        if w is None:
                            if cd[0] != 'call' or cd[1] not in (SC + 'add_child', SC + 'append'):
                                w = '?destination child %s' % show(cd)
                            elif (cd[1] == SC + 'add_child') != (k == 'object'):
                                w = 'children are added to the destination as those of %s' % ('an object' if cd[1] == SC + 'add_child' else 'a list')
                            elif bare(cd[2][0]) != d:
                                w = '?destination'
                            elif k == 'object' and not samepos(e[2], cd[2][1]):
                                w = '?child name %s' % show(cd[2][1])
                        w = w or running(ip, e[3][1], off, ('total_bytes_compact',), (cd, bare(e[2])))
                        if w is None and ini and any((x[1] == 'init_object') != (k == 'object') for x in ini):
                            w = 'the destination of an %s is initialised as something else' % k
                elif k == 'empty':
                    w = None
                else:
                    w = layout(p, ('fld', d, 'm_dtype'), dt, k, {'m_offset': lin(off)})
                why = why or w
            c.res('Schema::compact_to:' + k, f, why)
    f = c.fn(SC + 'compact_to', 1)
    if f:
        dom = Ev(None, events=recorder((SC + 'compact_to', SC + 'reset')), pure=lambda r: False)
        ps, ip = paths(pr, f, dom)
        for p in ps:
            if p.kind == 'return':
                r = [e for e in p.ev if e[0] == 'ev' and e[1] == 'compact_to']
                w = '?' if len(r) != 1 else None if len(r[0][3]) == 2 and r[0][2] == ('this',) and lin(r[0][3][1]) == {} else 'compacts to offset %s' % show(r[0][3][-1])
                c.res('Schema::compact_to', f, w)


def noiter(p):
    """the path on which the loop over the children has no iteration"""
    def kid(x):
        return x[0] == 'call' and x[1].split('::')[-1] in ('end', 'cend', 'has_next', 'number_of_children', 'size', 'begin') or x[0] == 'it'
    return any(mentions(t, kid) for t in p.facts) or any(e[0] == 'ranged' for e in p.ev)


def samepos(el, name):
    """the name and the element have the same index"""
    def idx(t):
        t = bare(t)
        if t[0] == 'idx':
            return t[2]
        if t[0] == 'call' and t[1].split('::')[-1] in ('operator[]', 'at', 'child', 'child_ptr', 'child_name') and len(t[2]) == 2:
            return t[2][1]
        return None
    a, b = idx(el), idx(name)
    return a is not None and a == b or a is None and b is None


def node_compact(c):
    pr, ck = c.pr, c.ck
    DTY = T03.DTY
    mid, n, st = [('fld', DTY, x) for x in ('m_id', 'm_num_ele', 'm_stride')]
    EP0 = {(('fld', ('this',), 'm_data'),): 1, (('fld', DTY, 'm_offset'),): 1}
    inl = inliner(pr, (DT, ND + 'dtype', SC + 'dtype', ND + 'element_ptr', SC + 'element_index'), skip=(DT + 'is_compact',))
    MC, MS = 'conduit::utils::conduit_memcpy', 'conduit::utils::conduit_memcpy_strided_elements'
    names = (ND + 'compact_to', ND + 'serialize', ND + 'compact_elements_to', MC, MS, 'std::basic_ostream<char>::write', 'memcpy')

    def extra(ip, s, n, ref, obj, args, locs):
        if ref['name'] == 'write' and 'ostream' in ref['qn'] or ref['name'] in ('memcpy', 'memmove'):
            e = ('ev', 'write' if ref['name'] == 'write' else 'conduit_memcpy', strip(obj) if obj is not None else None, tuple(args), n.line)
            return [(s.withdom(s.dom | {e}), ('u', 'void'))]
        return None
    pure = lambda r: r.get('const') or r['qn'].startswith('std::vector')

    def summ(f):
        dom = Ev(inl, events=recorder(names, extra), pure=pure)
        return paths(pr, f, dom)
    # element copy
    f = c.fn(ND + 'compact_elements_to')
    if f:
        d = ('p', f.params[0][0], 0)
        ps, ip = summ(f)
        for k in LEAF:
            q = [p for p in under(ps, {mid: ID[k]}) if p.kind == 'return']
            why = None if q else '?no path'
            for p in q:
                why = why or elements(p, d, k, mid, n, st, EP0)
            c.res('compact_elements_to:' + k, f, why)
        for k in CONT + ('empty',):
            q = [p for p in under(ps, {mid: ID[k]}) if p.kind == 'return' and [e for e in p.ev if e[0] == 'ev']]
            c.res('compact_elements_to:' + k, f, 'copies bytes of an %s' % k if q else None)
    for qn, self_ in ((ND + 'compact_to', 'compact_to'), (ND + 'serialize', 'serialize')):
        f = c.fn(qn, 2)
        if not f:
            continue
        d, off = ('p', f.params[0][0], 0), ('p', f.params[1][0], 1)
        at = lin(('op', '+', d, off))
        ps, ip = summ(f)
        for k in KIND.values():
            q = [p for p in under(ps, {mid: ID[k]}) if p.kind == 'return']
            why = None if q else '?no path'
            for p in q:
                rec = [e for e in p.ev if e[0] == 'ev' and e[1] == self_]
                if k in CONT:
                    if not rec and noiter(p) and any(e[0] == 'ev' and e[1] == self_ for x in q for e in x.ev):
                        w = None
                    elif len(rec) != 1:
                        w = '?recursion' if rec or [e for e in p.ev if e[0] == 'ev'] else 'the children are not visited'
                    else:
                        e = rec[0]
                        w = visits(ip, p, e[2], iskids)
                        if len(e[3]) != 2:
                            w = w or '?arguments'
                        else:
                            w = w or (None if lin(e[3][0]) == lin(d) or lin(e[3][0]) == lin(('addr', ('idx', d, ('c', 0)))) else '?destination %s' % show(e[3][0]))
                            w = w or running(ip, e[3][1], off, ('total_bytes_compact',), (bare(e[2]),))
                elif k == 'empty':
                    w = None
                else:
                    w = 'a leaf recurses' if rec else leaf(p, at, k, mid, n, st, EP0)
                why = why or w
            c.res('Node::%s(ptr):%s' % (self_, k), f, why)
    # streams
    f = c.fn(ND + 'serialize', 1, 'ofstream')
    if f:
        ps, ip = summ(f)
        for k in KIND.values():
            q = [p for p in under(ps, {mid: ID[k]}) if p.kind == 'return']
            why = None if q else '?no path'
            for p in q:
                rec = [e for e in p.ev if e[0] == 'ev' and e[1] == 'serialize']
                wr = [e for e in p.ev if e[0] == 'ev' and e[1] == 'write']
                if k in CONT:
                    if not rec and noiter(p) and any(e[0] == 'ev' and e[1] == 'serialize' for x in q for e in x.ev):
                        w = None
                    else:
                        w = '?recursion' if len(rec) > 1 else 'the children are not visited' if not rec else visits(ip, p, rec[0][2], iskids)
                elif k == 'empty':
                    w = None
                elif len(wr) != 1:
                    w = '?write' if wr else 'a leaf is not written'
                else:
                    w = stream(p, wr[0], k, mid, n, st, EP0)
                why = why or w
            c.res('Node::serialize(ofstream):%s' % k, f, why)
    f = c.fn(ND + 'serialize', 1, 'vector')
    if f:
        ps, ip = summ(f)
        if not any(e[0] == 'ev' for p in ps for e in p.ev):
            c.res('Node::serialize(vector)', f, 'nothing is written')
        for p in ps:
            if p.kind != 'return':
                continue
            rec = [e for e in p.ev if e[0] == 'ev' and e[1] == 'serialize' and len(e[3]) == 2]
            w = '?' if len(rec) != 1 else vecstart(f, rec[0][3][0]) if vecstart(f, rec[0][3][0]) else None if lin(rec[0][3][1]) == {} else 'starts at offset %s' % show(rec[0][3][1])
            if w is None:
                w = vecsize(f)
            c.res('Node::serialize(vector)', f, w)


def vecstart(f, t):
    """the destination is the start of the vector"""
    t = strip(t)
    while t[0] in ('addr', 'deref', 'ref'):
        t = strip(t[1])
    if t[0] == 'call' and t[1].split('::')[-1] in ('operator[]', 'at') and len(t[2]) == 2 and strip(t[2][1])[0] == 'c' and strip(t[2][1])[1] != 0:
        return 'writes from element %s of the buffer on' % strip(t[2][1])[1]
    if t[0] == 'op' and t[1] in '+-' and strip(t[3])[0] == 'c' and strip(t[3])[1] != 0:
        return 'writes from byte %s of the buffer on' % strip(t[3])[1]
    return None


def vecsize(f):
    """the vector is sized with total_bytes_compact()"""
    cs = [x.d[0]['name'] for x in f.body.walk() if x.k == 'MCall' and x.d[0] is not None and x.d[0]['name'].startswith('total_')]
    if 'total_bytes_compact' in cs:
        return None
    return 'the buffer is sized with %s' % cs[0] if cs else '?buffer size'


def isc(p):
    """truth of is_compact() on this path, or None"""
    for t, b in p.facts.items():
        if t[0] == 'call' and t[1].split('::')[-1] == 'is_compact':
            return b
    return None


def contig(p, st):
    """the facts of this path say the elements are contiguous: True / False / None"""
    x = isc(p)
    if x is not None:
        return x
    for t, b in p.facts.items():
        if b and t[0] == 'op' and t[1] == '==' and (st in (canon(t[2]), canon(t[3])) or mentions(t, lambda y: y[0] == 'call' and 'bytes' in y[1])):
            return True
    return None if any(unknown(t) for t in p.facts) else False


def nbytes(t, k, mid, n, p):
    """the byte count is that of a compact copy: True / False / None"""
    x = canon(t)
    if x[0] == 'call' and x[1].split('::')[-1] in ('total_bytes_compact', 'bytes_compact'):
        return True
    if x[0] == 'call' and x[1].split('::')[-1] == 'total_strided_bytes':
        return bool(isc(p))
    l = sub(lin(t), {mid: ID[k]})
    if l == poly((WIDTH[k], n)):
        return True
    return None if unknown(t) else False


def elements(p, d, k, mid, n, st, EP0):
    ev = [e for e in p.ev if e[0] == 'ev']
    if len(ev) != 1:
        return '?several copies' if ev else 'nothing is copied'
    e = ev[0]
    if e[1] == 'conduit_memcpy_strided_elements' and len(e[3]) == 6:
        a = e[3]
        a0 = {mid: ID[k]}
        want = (lin(d), lin(n), {(): WIDTH[k]}, {(): WIDTH[k]}, EP0, lin(st))
        for i, nm in enumerate(('destination', 'count', 'element size', 'destination stride', 'source', 'source stride')):
            g = sub(lin(a[i]), a0)
            if g != want[i]:
                return '?%s %s' % (nm, show(a[i])) if unknown(a[i]) else '%s of the copy is %s' % (nm, show(canon(a[i])))
        return None
    if e[1] == 'conduit_memcpy':
        eqs = [b for t, b in p.facts.items() if t[0] == 'op' and t[1] == '==' and {canon(t[2]), canon(t[3])} & {st} and b]
        if not eqs and not isc(p):
            return 'strided elements are copied as if they were contiguous'
        a = e[3]
        if lin(a[0]) != lin(d) or lin(a[1]) != EP0:
            return '?copy'
        nb = nbytes(a[2], k, mid, n, p)
        return None if nb else '?size' if nb is None else 'copies %s bytes' % show(canon(a[2]))
    return '?' + e[1]


def leaf(p, at, k, mid, n, st, EP0):
    ev = [e for e in p.ev if e[0] == 'ev']
    if len(ev) != 1:
        return '?several copies' if ev else 'nothing is copied'
    e = ev[0]
    if e[1] == 'compact_elements_to':
        if e[2] != ('this',):
            return '?object'
        g = lin(e[3][0])
        return None if g == at or lin(('op', '+', e[3][0], ('c', 0))) == at else eladdr(e[3][0], at)
    if e[1] == 'conduit_memcpy':
        if contig(p, st) is not True:
            return 'strided elements are copied as if they were contiguous' if contig(p, st) is False else '?facts'
        if eladdr(e[3][0], at):
            return eladdr(e[3][0], at)
        if lin(e[3][1]) != EP0:
            return '?source' if unknown(e[3][1]) else 'copies from %s, expected the first element' % show(canon(e[3][1]))
        nb = nbytes(e[3][2], k, mid, n, p)
        return None if nb else '?size' if nb is None else 'copies %s bytes' % show(canon(e[3][2]))
    return elements(p, None, k, mid, n, st, EP0) if False else '?' + e[1]


def eladdr(t, at):
    t = strip(t)
    if t[0] == 'addr' and strip(t[1])[0] == 'idx':
        b = strip(t[1])
        t = ('op', '+', b[1], b[2])
    if lin(t) == at:
        return None
    return '?' + show(t) if unknown(t) else 'writes to %s, expected data + offset' % show(canon(t))


def stream(p, e, k, mid, n, st, EP0):
    buf, nb = e[3][0], e[3][1]
    cp = [x for x in p.ev if x[0] == 'ev' and x[1] == 'compact_elements_to']
    if cp:
        b = [bare(x[3][0]) for x in cp]
        if bare(buf) not in b:
            return '?buffer'
        r = nbytes(nb, k, mid, n, p)
        return None if r else '?size' if r is None else 'writes %s bytes' % show(canon(nb))
    if lin(buf) == EP0:
        if contig(p, st) is not True:
            return 'strided elements are written as if they were contiguous' if contig(p, st) is False else '?facts'
        r = nbytes(nb, k, mid, n, p)
        return None if r else '?size' if r is None else 'writes %s bytes' % show(canon(nb))
    if len([x for x in p.ev if x[0] == 'ev']) == 1 and strip(buf)[:2] == ('call', '<new>') and not any(mentions(x, lambda y: y == strip(buf)) for x in p.env if x[0] == '*'):
        return 'writes a buffer nothing was copied into'
    if strip(buf)[0] in ('fld', 'op') and not unknown(buf):
        return 'writes from %s, not from the first element' % show(canon(buf))
    return '?buffer %s' % show(buf)


def strided(c):
    pr, ck = c.pr, c.ck
    f = c.fn('conduit::utils::conduit_memcpy_strided_elements')
    if not f:
        return
    P_ = [('p', x[0], i) for i, x in enumerate(f.params)]
    d, num_, eb, ds, s_, ss = P_

    def extra(ip, s, n, ref, obj, args, locs):
        if ref['name'] in ('memcpy', 'conduit_memcpy', 'memmove'):
            e = ('ev', 'copy', None, tuple(args), n.line)
            return [(s.withdom(s.dom | {e}), ('u', 'void'))]
        return None
    inl = inliner(pr, ())
    ps, ip = paths(pr, f, Ev(inl, events=recorder((), extra)))
    for p in ps:
        if p.kind != 'return':
            continue
        eq = {}
        for t, b in p.facts.items():
            if b and t[0] == 'op' and t[1] == '==':
                for x, y in ((t[2], t[3]), (t[3], t[2])):
                    if strip(x) in (ds, ss) and strip(y) in (eb, ds, ss):
                        eq[strip(x)] = strip(y)
        ev = [e for e in p.ev if e[0] == 'ev']
        key = 'strided copy at line %d' % (ev[0][4] if ev else f.line)
        if not ev:
            # nothing copied: only for zero elements
            z = any(mentions(t, lambda x: x == num_) for t in p.facts) or noiter(p) and any(x.ev for x in ps)
            c.res('strided copy', f, None if z else 'nothing is copied')
            continue
        if len(ev) > 1:
            ck.notes.append(key + ': several copies')
            continue
        a = ev[0][3]
        if not mentions(a, lambda x: x[0] == 'it'):
            full = eq.get(ds) in (eb,) and eq.get(ss) in (eb,) or eq.get(ds) == eb and eq.get(ss) == ds or eq.get(ss) == eb and eq.get(ds) == ss
            w = None
            if lin(a[0]) != lin(d) or lin(a[1]) != lin(s_):
                w = 'copies %s to %s' % (show(canon(a[1])), show(canon(a[0])))
            elif lin(a[2]) not in (poly((1, eb, num_)),) and not (full and lin(a[2]) in (poly((1, ds, num_)), poly((1, ss, num_)))):
                w = 'copies %s bytes' % show(canon(a[2]))
            elif not full:
                w = 'one contiguous copy although %s need not be the element size' % ('the destination stride' if eq.get(ds) is None else 'the source stride')
            c.res(key, f, w)
            continue
        b = [lin(affine(ip, x)) for x in a]
        it = {x for l in b for kk in l for x in kk if x[0] == 'iter'}
        if len(it) != 1 or any(x[0] == 'it' for l in b for kk in l for x in kk):
            ck.notes.append(key + ': loop not resolved')
            continue
        I = list(it)[0]
        w = None
        if b[0] != poly((1, d), (1, ds, I)):
            w = 'destination of copy i is %s' % show(('lin', tuple(b[0].items())))
        elif b[1] != poly((1, s_), (1, ss, I)):
            w = 'source of copy i is %s' % show(('lin', tuple(b[1].items())))
        elif b[2] != lin(eb):
            w = 'each copy is of %s bytes' % show(('lin', tuple(b[2].items())))
        else:
            # number of iterations
            ok = None
            for t, bb in p.facts.items():
                if t[0] == 'op' and t[1] in ('<', '==') and mentions(t, lambda x: x[0] == 'it' and x[1:3] == I[1:3]):
                    l, r = lin(affine(ip, t[2])), lin(affine(ip, t[3]))
                    df = {kk: l.get(kk, 0) - r.get(kk, 0) for kk in set(l) | set(r)}
                    df = {kk: v for kk, v in df.items() if v}
                    if (t[1] == '<' and not bb or t[1] == '==' and bb) and df in (poly((1, I), (-1, num_)), poly((-1, I), (1, num_)) if t[1] == '==' else {0: 0}):
                        ok = True
                    elif ok is None:
                        ok = False
                        bound = t
            w = None if ok else '?bound' if ok is None or unknown(('t', [x for x in bound[2:] if strip(x)[0] != 'it'][0])) else 'the loop ends at %s' % show(bound)
        c.res(key, f, w)


def contiguous(c):
    """contiguous_with: leaf adjacency, and the running end pointer"""
    pr, ck = c.pr, c.ck
    DTY = T03.DTY
    mid = ('fld', DTY, 'm_id')
    EP0 = {(('fld', ('this',), 'm_data'),): 1, (('fld', DTY, 'm_offset'),): 1}
    inl = inliner(pr, (DT, ND + 'dtype', SC + 'dtype', ND + 'element_ptr', SC + 'element_index'))
    NM = ND + 'contiguous_with'

    class D(Ev):
        def on_store(self, ip, s, n, loc, v):
            if END[0] is not None and loc in END[0]:
                return s.withdom(frozenset(e for e in s.dom if e[0] != 'end') | {('end', strip(v))})
            return s

    def ev(ip, s, n, ref, obj, args, locs):
        if ref['qn'] == NM and len(args) == 2:
            e = ('ev', 'contiguous_with', strip(obj), tuple(args), n.line)
            return [(s.withdom(s.dom | {e}), ('call', NM, (strip(obj),) + tuple(args), ()))]
        return None
    END = [None]
    f = c.fn(NM, 2)
    if f:
        st, en = ('p', f.params[0][0], 0), ('p', f.params[1][0], 1)
        END[0] = (('v', (), f.params[1][1]), ('*', en))
        ps, ip = paths(pr, f, D(inl, events=ev, pure=lambda r: r.get('const')))
        start_known = [strip(t) for p in ps for t in p.facts if strip(t) == st]
        for k in LEAF:
            for has in (True, False):
                q = [p for p in under(ps, {mid: ID[k]}) if p.kind == 'return' and truth(p, st) in (has, None)]
                why = None if q else '?no path'
                for p in q:
                    why = why or adjacent(p, st, has, EP0)
                c.res('contiguous_with:%s:%s' % (k, 'after an address' if has else 'first'), f, why)
    for nm, np_, ty in (('contiguous_with', 1, '*'), ('is_contiguous', 0, None)):
        f = c.fn(ND + nm, np_, ty)
        if not f:
            continue
        END[0] = None
        ps, ip = paths(pr, f, D(inliner(pr, (), skip=(NM,)), events=ev, pure=lambda r: False))
        for p in ps:
            for e in p.ev:
                if e[0] == 'ev' and len(e[3]) == 2:
                    a, b = bare(e[3][0]), bare(e[3][1])
                    nul = a == ('c', None) or a == ('c', 0)
                    c.res('%s(%d)' % (nm, np_), f, None if nul or a == b or unknown(b) else 'the end pointer starts at %s, not at the address given: a node without data leaves it there' % show(b))


def truth(p, t):
    for x, b in p.facts.items():
        if strip(x) == t:
            return b
        if x[0] == 'op' and x[1] == '==' and t in (strip(x[2]), strip(x[3])) and (strip(x[2]) in (('c', None), ('c', 0)) or strip(x[3]) in (('c', None), ('c', 0))):
            return not b
    return None


def adjacent(p, st, has, EP0):
    v = strip(p.val)
    x = val(v, {})
    if x is None:
        return '?' + show(v)
    eq = None
    for t, b in p.facts.items():
        if t[0] == 'op' and t[1] == '==':
            l = lin(('op', '-', t[2], t[3]))
            w = dict(EP0)
            w[(st,)] = -1
            if l == w or l == {k: -v for k, v in w.items()}:
                eq = b
    if x:
        if has and eq is not True:
            return '?' if any(unknown(t) for t in p.facts) else 'a leaf counts as contiguous without being at the address of the preceding end'
        e = [y[1] for y in p.ev if y[0] == 'end']
        if len(e) != 1:
            return '?end pointer' if e else 'the end pointer is not advanced past a leaf'
        l = dict(lin(e[0]))
        for kk, vv in EP0.items():
            l[kk] = l.get(kk, 0) - vv
        l2 = dict(lin(e[0]))
        l2[(st,)] = l2.get((st,), 0) - 1
        for d in (l, l2) if has else (l,):
            d = {a: b for a, b in d.items() if b}
            if len(d) == 1:
                (a, b), = d.items()
                if b == 1 and len(a) == 1 and a[0][0] == 'call' and a[0][1].split('::')[-1] in ('total_strided_bytes', 'strided_bytes'):
                    return None
            if d == lin(('op', '+', ('op', '*', ('op', '-', ('fld', T03.DTY, 'm_num_ele'), ('c', 1)), ('fld', T03.DTY, 'm_stride')), ('fld', T03.DTY, 'm_ele_bytes'))):
                return None
        d = {a: b for a, b in l.items() if b}
        if any(unknown(y) for a in d for y in a):
            return '?end %s' % show(e[0])
        return 'the end of a leaf is taken to be %s' % show(canon(e[0]))
    return None


def arrays(c):
    """DataArray<T>::compact_elements_to"""
    pr, ck = c.pr, c.ck
    d0 = ('fld', ('this',), 'm_dtype')
    mid, n, st = [('fld', d0, x) for x in ('m_id', 'm_num_ele', 'm_stride')]
    EP0 = {(('fld', ('this',), 'm_data'),): 1, (('fld', d0, 'm_offset'),): 1}
    for f in sorted([f for f in pr.funcs.values() if f.name == 'compact_elements_to' and f.qn.startswith('conduit::DataArray') and f.body is not None], key=lambda f: f.qn):
        cls = f.qn.rsplit('::', 1)[0]
        dom = Ev(inliner(pr, (DT, cls + '::element_ptr', cls + '::dtype'), skip=(DT + 'is_compact',)), pure=lambda r: r.get('const'),
                 events=recorder(('conduit::utils::conduit_memcpy', 'conduit::utils::conduit_memcpy_strided_elements')))
        ps, ip = paths(pr, f, dom)
        for k in LEAF:
            q = [p for p in under(ps, {mid: ID[k]}) if p.kind == 'return']
            why = None if q else '?no path'
            for p in q:
                why = why or elements(p, ('p', f.params[0][0], 0), k, mid, n, st, EP0)
            c.res('%s::compact_elements_to:%s' % (cls.split('::')[-1], k), f, why)
