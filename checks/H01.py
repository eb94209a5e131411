"""H01: identifiers, statuses, transfers and type maps of the HDF5 layer of relay."""
import re
from common import Check
import prog as P
from summ import *
from interp import strip, mentions, State
from loopcov import bare

FILE = 'conduit_relay_io_hdf5.cpp'
NM = 'conduit::relay::io::'
ND, DT = 'conduit::Node::', 'conduit::DataType::'
# what an identifier is, by the call it comes from
OPEN = {'H5Fopen': 'file', 'H5Fcreate': 'file', 'H5Iget_file_id': 'file', 'H5Freopen': 'file',
        'H5Gopen2': 'group', 'H5Gopen1': 'group', 'H5Gcreate2': 'group', 'H5Gcreate1': 'group',
        'H5Dopen2': 'dataset', 'H5Dopen1': 'dataset', 'H5Dcreate2': 'dataset', 'H5Dcreate1': 'dataset',
        'H5Oopen': 'object', 'H5Oopen_by_idx': 'object', 'H5Oopen_by_addr': 'object', 'H5Oopen_by_token': 'object',
        'H5Dget_space': 'dataspace', 'H5Screate': 'dataspace', 'H5Screate_simple': 'dataspace', 'H5Scopy': 'dataspace', 'H5Aget_space': 'dataspace',
        'H5Dget_type': 'datatype', 'H5Tcreate': 'datatype', 'H5Tcopy': 'datatype', 'H5Aget_type': 'datatype',
        'H5Pcreate': 'property list', 'H5Pcopy': 'property list', 'H5Gget_create_plist': 'property list', 'H5Dget_create_plist': 'property list', 'H5Fget_access_plist': 'property list',
        'H5Acreate2': 'attribute', 'H5Acreate1': 'attribute', 'H5Aopen': 'attribute', 'H5Aopen_by_name': 'attribute'}
CLOSE = {'H5Fclose': ('file',), 'H5Gclose': ('group',), 'H5Dclose': ('dataset',), 'H5Oclose': ('object', 'group', 'dataset', 'datatype'), 'H5Sclose': ('dataspace',),
         'H5Tclose': ('datatype',), 'H5Pclose': ('property list',), 'H5Aclose': ('attribute',), 'H5Idec_ref': None}
# calls whose failure may not pass unnoticed
MUST = ('H5Fopen', 'H5Dread', 'H5Dwrite', 'H5Awrite', 'H5Dset_extent', 'H5Literate', 'H5Literate1', 'H5Literate2', 'H5Ldelete', 'H5Adelete', 'H5Dcreate2', 'H5Gcreate2', 'H5Fcreate', 'H5Acreate2')
# identifiers that only look something up in the library's own tables
LOOK = ('H5Iis_valid', 'H5Iget_type', 'H5Iget_ref')


def is5(q):
    return q.startswith('H5') and len(q) > 3 and q[2].isupper() and q[3].islower() and '::' not in q


def add(s, *e):
    return s.withdom(s.dom | {e})


def bad(s, n, msg):
    return add(s, 'BAD', msg, n.line)


def ids(t):
    """the identifier value denoted by a term"""
    return bare(t)


class HD(Sum):
    iters = True
    cap = 6000

    def __init__(self, summ, *a, **k):
        Sum.__init__(self, *a, **k)
        self.summ = summ

    def init(self):
        return frozenset()

    def on_branch(self, ip, s, term, b):
        t = strip(term)
        d = None
        if t[0] == 'op' and t[1] == '&' or t[0] == 'op' and mentions(t, lambda x: x[0] == 'op' and x[1] == '&'):
            d = set(s.dom) | {('flags',)}
        for e in s.dom:
            if e[0] in ('own', 'st', 'lco') and mentions(t, lambda x: x == e[1]):
                k = subst(t, e[1])
                neg = val(k, {('ID',): -1})
                pos = [val(k, {('ID',): v}) for v in (1, 72057594037927936)]
                if neg is None or None in pos:
                    continue
                neg, pos = bool(neg) == b, [bool(x) == b for x in pos]
                if not neg and not any(pos) and e[0] == 'own':
                    return None
                if not neg and any(pos):
                    if e[0] in ('st', 'lco'):
                        d = (d or set(s.dom)) - {e}
                    if e[0] == 'lco':
                        d.add(('lcook',))
                elif neg and not any(pos):
                    d = (d or set(s.dom)) - {e}
                    if e[0] == 'st':
                        d.add(('failed',) + e[1:])
                    elif e[0] == 'own':
                        d.add(('invalid', e[1]))
        return s if d is None else s.withdom(frozenset(d))

    def on_store(self, ip, s, n, loc, v):
        if loc[0] == '*':
            i = ids(v)
            for e in s.dom:
                if e[0] == 'own' and e[1] == i:
                    s = s.withdom(frozenset(s.dom - {e}) | {('out', e[1], e[2], loc)})
                    break
        return s

    def dom_live(self, s):
        return ()


def subst(t, x):
    if strip(t) == x:
        return ('ID',)
    t = strip(t)
    if t[0] == 'op':
        return ('op', t[1], subst(t[2], x), subst(t[3], x))
    if t[0] == 'un':
        return ('un', t[1], subst(t[2], x))
    return t


def fact(s, t):
    for k, b in s.facts.items():
        if bare(k) == t:
            return b
    return None


def closeid(s, n, i, fn, kinds):
    own = [e for e in s.dom if e[0] == 'own' and e[1] == i]
    if ('closed', i) in s.dom:
        return bad(s, n, '%s closes an identifier that is already closed' % fn)
    if own:
        e = own[0]
        if kinds is not None and e[2] not in kinds:
            s = bad(s, n, 'the identifier from line %d is a%s %s: %s does not release it' % (e[3], 'n' if e[2][0] in 'aeo' else '', 'object opened by name, which need not be a ' + kinds[0] if e[2] == 'object' else e[2], fn))
        s = s.withdom(s.dom - {e})
    elif i[0] == 'p' or i[0] == 'deref':
        s = add(s, 'pclose', i, fn, n.line)
    elif i[0] == 'glob':
        s = bad(s, n, '%s closes a predefined identifier' % fn)
    return add(s, 'closed', i)


def maker(f, pr, maps):
    def ev(ip, s, n, ref, obj, args, locs):
        q = ref['qn']
        if not is5(q):
            sm = ip.dom.summ.get(ref['usr'])
            if sm is not None and ip.dom.inline(ip, ref, n):
                return None
            if sm is None:
                # a value the analysis does not follow any further takes the identifier over
                for i, a in enumerate(args):
                    if a is None or q.startswith(('std::basic_ostream', 'std::operator', 'std::__cxx11')) or 'operator<<' in q:
                        continue
                    x = ids(a)
                    for e in s.dom:
                        if e[0] == 'own' and e[1] == x and pr.funcs.get(ref['usr']) is None:
                            s = s.withdom(s.dom - {e})
                            break
                r = extra(ip, s, n, ref, obj, args, locs)
                return r
            r = extra(ip, s, n, ref, obj, args, locs)
            if r is not None:
                return r
            for i, a in enumerate(args):
                if a is not None and ('closed', ids(a)) in s.dom and i < len(ref['params']) and ref['params'][i][1].replace('&', '').replace('const', '').strip() == 'long':
                    s = bad(s, n, '%s is given an identifier that is already closed' % ref['qn'].split('::')[-1])
            for i, fn, always in sm['close']:
                if i < len(args):
                    x = ids(args[i])
                    if always:
                        s = closeid(s, n, x, fn, CLOSE.get(fn))
                    else:
                        for e in s.dom:
                            if e[0] == 'own' and e[1] == x:
                                s = s.withdom((s.dom - {e}) | {('own?', x)})
                                break
            uid = ip.path + (n.id,)
            if sm['ret'] is not None:
                v = ('h5', q.split('::')[-1], uid)
                s = opened(s, n, v, sm['ret'])
            out = []
            for s2, w in ip.opaque(n, ref, obj, locs[0], args, locs[1], s):
                # an identifier passed by reference still denotes the same object
                for i, l in enumerate(locs[1] or []):
                    if l is not None and i < len(ref['params']) and ref['params'][i][1] == 'long &' and l in s.env:
                        s2 = s2.set(l, s.env[l])
                out.append((s2, v if sm['ret'] is not None else w))
            return out
        # ------------------------------------------------ HDF5 itself
        a = [ids(x) for x in args if x is not None]
        uid = ip.path + (n.id,)
        ps = ref['params']
        if q in CLOSE:
            s = closeid(s, n, a[0], q, CLOSE[q])
            s = add(s, 'h5', n.line)
            return [(s, ('h5', q, uid))]
        for i, x in enumerate(a):
            if ('closed', x) in s.dom and i < len(ps) and ps[i][1] == 'long' and q not in LOOK:
                s = bad(s, n, '%s uses an identifier that is already closed' % q)
        s = add(s, 'h5', n.line)
        if q in ('H5Tequal', 'H5Tget_class', 'H5Tget_size', 'H5Sget_simple_extent_ndims', 'H5Sget_simple_extent_npoints', 'H5Tis_variable_str'):
            return [(s, ('call', q, tuple(a), ()))]
        v = ('h5', q, uid)
        if q in OPEN:
            s = opened(s, n, v, OPEN[q])
            s = s.withdom(frozenset(e for e in s.dom if not (e[0] == 'from' and e[1] == v)) | {('from', v, q, tuple(a))})
        if q in MUST:
            s = forget(s.withdom(frozenset(e for e in s.dom if not (e[0] == 'failed' and e[1] == v))), v)
            s = add(s, 'st', v, q, n.line)
        s = semantics(ip, s, n, q, a, v)
        # what the call writes through pointers to locals
        for i, x in enumerate(a):
            if x[0] == 'locaddr' and i < len(ps) and not ps[i][1].startswith('const '):
                s = s.set(x[1], ('mut', uid, i, x[1]))
        return [(s, v)]
    return ev


def opened(s, n, v, kind):
    s = forget(s, v)
    for e in s.dom:
        if e[0] == 'own' and e[1] == v:
            s = bad(s, n, 'the %s identifier opened in the previous round of the loop is still open' % e[2])
    return s.withdom(frozenset(e for e in s.dom if not (e[0] in ('own', 'closed', 'own?', 'invalid') and e[1] == v)) | {('own', v, kind, n.line)})


def forget(s, v):
    f = {k: b for k, b in s.facts.items() if not mentions(k, lambda x: x == v)}
    return State(s.env, f, s.dom) if len(f) != len(s.facts) else s


def extra(ip, s, n, ref, obj, args, locs):
    """conduit calls that matter for transfers"""
    q = ref['qn']
    for a in list(args) + ([obj] if ref['name'] not in ('data_ptr', 'dtype', 'schema') else []):
        x = bare(a) if a is not None else None
        if x is not None and ('got', x) in s.dom and q != ND + 'data_ptr':
            s = s.withdom(s.dom - {('got', x)})
            return ip.opaque(n, ref, obj, locs[0], args, locs[1], s)
    if q == ND + 'compact_to' and locs[1] and locs[1][0] is not None:
        l = locs[1][0]
        v = ('ccopy', bare(obj), ip.path + (n.id,))
        if l[0] == 'v' or l in s.env:
            return [(s.set(l, v), ('u', 'void'))]
    if q == NM + 'make_dataset_opt_copy' and len(args) == 3 and locs[1][2] is not None:
        nm = args[1]
        while nm[0] in ('cast', 'call') and (nm[0] == 'cast' or nm[2]):
            nm = nm[2] if nm[0] == 'cast' else nm[2][0]
        if nm[0] == 'c' and isinstance(nm[1], str) and locs[1][2][0] == 'v':
            return [(s.set(locs[1][2], ('optvec', nm[1])), ('u', 'void'))]
    if q == NM + 'conduit_node_to_argarray' and len(args) == 5:
        s = add(s, 'argarray', bare(args[1]), bare(args[2]), bare(args[4]), n.line)
        return ip.opaque(n, ref, obj, locs[0], args, locs[1], s)
    if q == DT + 'set_endianness' and locs[0] is not None and locs[0][0] == 'v':
        v = ('dte', bare(obj), bare(args[0]))
        return [(s.set(locs[0], v), ('u', 'void'))]
    return None


def src(s, X):
    X = bare(X)
    return src(s, X[1]) if X[0] == 'ccopy' else X


def only(t):
    """array literal of one element"""
    t = bare(t)
    return bare(t[1]) if t[0] == 'list' and len(t) == 2 else (bare(t[1][0]) if t[0] == 'list' and len(t) > 1 and isinstance(t[1], tuple) and t[1] and isinstance(t[1][0], tuple) else None)


def optname(x):
    x = bare(x)
    if x[0] == 'call' and x[1].endswith('::data') and x[2]:
        x = bare(x[2][0])
    return x[1] if x[0] == 'optvec' else None


def origin(s, v):
    for e in s.dom:
        if e[0] == 'from' and e[1] == v:
            return e[2], e[3]
    return None, ()


def semantics(ip, s, n, q, a, v):
    if q == 'H5Sget_simple_extent_dims':
        for x in a[1:3]:
            if x in (('c', 0), ('c', None)):
                continue
            w = sized(s, x, a[0], n)
            if w:
                s = bad(s, n, w)
            s = add(s, 'dims', n.line)
    elif q in ('H5Fget_obj_count', 'H5Fget_obj_ids'):
        s = add(s, q, a[0], a[1], n.line, a[2] if len(a) > 2 else v, v)
    elif q == 'H5Pset_link_creation_order':
        s = add(s, 'order', a[0], a[1])
    elif q in ('H5Gcreate2', 'H5Fcreate'):
        pl = a[3] if q == 'H5Gcreate2' else a[2]
        o = [e[2] for e in s.dom if e[0] == 'order' and e[1] == pl]
        if pl == ('c', 0) or not o and pl[0] == 'h5':
            s = bad(s, n, '%s without a property list that tracks the creation order of links: the order of the children is lost' % q)
        elif o and o[0][0] == 'c' and (o[0][1] & 3) != 3:
            s = bad(s, n, '%s with a property list that does not both track and index the creation order of links' % q)
        s = add(s, 'creates', n.line)
    elif q == 'H5Pset_chunk' or q == 'H5Sselect_hyperslab' and a[1] == ('c', 0):
        if q == 'H5Sselect_hyperslab':
            s = s.withdom(frozenset(e for e in s.dom if not (e[0] == 'slab' and e[1] == a[0])) | {('slab', a[0], a[2], a[3], a[4], a[5])})
            nm = [optname(x) for x in a[2:5]]
            for w, g in zip(('offsets', 'strides', 'sizes'), nm):
                if g is not None and g != w:
                    s = bad(s, n, 'the selection takes its %s from the %s of the options' % (w, g))
    elif q == 'H5Pget_link_creation_order':
        s = add(s, 'lco', v)
    elif q.startswith('H5Literate') and '_' not in q:
        s = add(s, 'iterate', a[1], a[2], a[3], n.line)
    elif q in ('H5Lget_name_by_idx', 'H5Oopen_by_idx', 'H5Oget_info_by_idx', 'H5Lget_info_by_idx'):
        s = add(s, 'by_idx', n.line)
        if a[2] == ('c', 0):
            s = bad(s, n, '%s goes by name, not by creation order' % q)
        elif a[3][0] == 'c' and a[3] != ('c', 0):
            s = bad(s, n, '%s does not count in increasing creation order' % q)
    elif q == 'H5Dset_extent':
        s = add(s, 'extent', a[0], a[1], n.line)
        for e in s.dom:
            if e[0] == 'from' and e[2] == 'H5Dget_space':
                s = add(s, 'stale', e[1])
    elif q == 'H5Dwrite':
        s = write(ip, s, n, a)
    elif q == 'H5Dread':
        s = read(ip, s, n, a)
    return s


def sized(s, x, space, n):
    """the destination has an element per dimension of the dataspace"""
    nd = ('call', 'H5Sget_simple_extent_ndims', (space,), ())
    if x[0] == 'call' and x[1].startswith('std::vector') and x[1].endswith('::data'):
        w = bare(x[2][0])
        if w[0] == 'call' and 'vector' in w[1] and w[2]:
            c = w[2][0]
            if mentions(c, lambda y: y == nd):
                return None
            c = bare(c)
            if c[0] == 'c':
                # fine when the rank was found to be at most that
                if rank_known(s, nd, c[1]):
                    return None
                return 'the dimensions are written to %d element(s), but the dataspace may have more' % c[1]
        return None
    if x[0] in ('u', 'locaddr', 'list', 'arr'):
        # declared size of the arrays named in the call
        k = min([int(m) for y in n.walk() for m in re.findall(r'^[^\[]*\[(\d+)\]$', y.ty or '')] or [1])
        if k >= 32 or rank_known(s, nd, k):
            return None
        return 'the dimensions are written to an array of fixed size, but the dataspace may have more'
    return None


def rank_known(s, nd, k):
    for t, b in s.facts.items():
        t = subst(t, nd)
        ok = [r for r in range(0, 40) if val(t, {('ID',): r}) is not None and bool(val(t, {('ID',): r})) == b]
        if mentions(t, lambda y: y == ('ID',)) and ok and max(ok) <= max(k, 1):
            return True
    return False


def dtof(X):
    return ('call', ND + 'dtype', (X,), ())


def iscompact(s, X):
    for c in (('call', DT + 'is_compact', (dtof(X),), ()), ('call', ND + 'is_compact', (X,), ())):
        if fact(s, c):
            return True
    return False


def write(ip, s, n, a):
    b = bare(a[5])
    if not (b[0] == 'call' and b[1] == ND + 'data_ptr'):
        return s
    X = bare(b[2][0])
    if X[0] not in ('p', 'ccopy', 'deref', 'fld'):
        if X[0] == 'call' and X[1] == ND + 'Node' and not X[2]:
            return bad(s, n, 'H5Dwrite of the data of a node that is empty at that point')
        return s
    s = add(s, 'xfer', n.line)
    if X[0] != 'ccopy' and not iscompact(s, X):
        s = bad(s, n, 'H5Dwrite takes the data of `%s` as contiguous, which it need not be there' % show(X))
    Y = src(s, X)
    m = bare(a[1])
    if m[0] == 'call' and m[1] == NM + 'conduit_dtype_to_hdf5_dtype':
        d = bare(m[2][0])
        if d[0] == 'call' and d[1] == ND + 'dtype' and bare(d[2][0]) not in (Y, X):
            s = bad(s, n, 'H5Dwrite describes the data with the type of another node')
    elif m[0] == 'glob':
        s = bad(s, n, 'H5Dwrite describes the data with a fixed type')
    if a[3] == ('c', 0):
        s = whole(s, n)
    if (a[2] == ('c', 0)) != (a[3] == ('c', 0)):
        s = bad(s, n, 'H5Dwrite selects part of one of memory and dataset only')
    elif a[2] != ('c', 0):
        fn, fa = origin(s, a[2])
        cnt = ('call', DT + 'number_of_elements', (dtof(Y),), ())
        if fn == 'H5Screate_simple':
            c = only(fa[1])
            if c is not None and canon(c) != canon(cnt) and not unk(c):
                s = bad(s, n, 'H5Dwrite transfers %s element(s), the node has number_of_elements()' % show(c))
        if ('stale', a[3]) in s.dom:
            s = bad(s, n, 'H5Dwrite to a dataspace fetched before the dataset was extended')
        sl = [e for e in s.dom if e[0] == 'slab' and e[1] == a[3]]
        if not sl:
            s = bad(s, n, 'H5Dwrite to a dataspace without a selection')
        else:
            off, st, c, blk = sl[0][2:]
            if only(c) is not None and canon(only(c)) != canon(cnt) and not unk(only(c)):
                s = bad(s, n, 'the selection has %s element(s), the node has number_of_elements()' % show(only(c)))
            o, k = only(off), only(st)
            for what, t in (('offset', o), ('stride', k)):
                if t is not None and not optval(s, t, what):
                    s = bad(s, n, 'the %s of the selection is not the one of the options' % what)
            ex = [e for e in s.dom if e[0] == 'extent']
            if o is not None and k is not None:
                s = chosen(s, n, o, k)
                if not ex:
                    s = inside(s, n, o, k, cnt)
            if ex and o is not None and k is not None and only(ex[0][2]) is not None:
                N = ('A', 'n')
                d = lin(absn(('op', '-', only(ex[0][2]), ('op', '+', o, ('op', '+', ('op', '*', ('op', '-', cnt, ('c', 1)), k), ('c', 1)))), cnt))
                if any(d.values()):
                    s = bad(s, n, 'the dataset is extended to %s, the selection ends at offset + (n-1)*stride + 1' % show(only(ex[0][2])))
    return s


def given(s, what):
    """is the option present, on this path"""
    for k, b in s.facts.items():
        k = bare(k)
        if k[0] == 'call' and k[1] in (ND + 'has_child', ND + 'has_path') and len(k[2]) == 2 and bare(k[2][1]) == ('c', what):
            return b
    return None


def excluded(s, t, v):
    """the facts of the path rule out that t is v"""
    for k, b in s.facts.items():
        if mentions(k, lambda x: x == t):
            w = val(subst(k, t), {('ID',): v})
            if w is not None and bool(w) != b:
                return True
    return False


def uses(t, what):
    return "'%s'" % what in repr(t)


def whole(s, n):
    """everything is written only when no offset and no stride is asked for"""
    if given(s, 'offset') is None and given(s, 'stride') is None:
        return s
    for what, d in (('offset', 0), ('stride', 1)):
        if given(s, what) is False:
            continue
        ts = {bare(x) for k, b in s.facts.items() if strip(k)[0] == 'op' for x in strip(k)[2:4] if uses(x, what) and bare(x)[0] == 'call'}
        if not any(all(excluded(s, t, v) for v in range(0, 4) if v != d) for t in ts):
            s = bad(s, n, 'H5Dwrite writes the dataset from its start without gaps although the options may have another %s' % what)
    return s


def chosen(s, n, o, k):
    for what, t in (('offset', o), ('stride', k)):
        if given(s, what) and t[0] == 'c':
            s = bad(s, n, 'the selection ignores the %s of the options' % what)
    if k[0] != 'c' and uses(k, 'stride') and not unk(k) and not excluded(s, k, 0):
        s = bad(s, n, 'a stride of 0 is accepted')
    return s


def elem(t):
    """value of element 0 of a one element array"""
    t = bare(t)
    if t[0] == 'ld':
        l = lin(t[2])
        b = [x[0] for x in l if len(x) == 1]
        if len(l) == 1 and len(b) == 1 and b[0][0] == 'list':
            return only(b[0])
    return t


def inside(s, n, o, k, cnt):
    """the dataset is not extended: it is known to reach the end of the selection"""
    end = ('op', '+', o, ('op', '+', ('op', '*', ('op', '-', cnt, ('c', 1)), k), ('c', 1)))
    seen = False
    for t, b in s.facts.items():
        t = strip(t)
        if t[0] != 'op' or t[1] != '<' or not mentions(t, lambda x: x[0] == 'call' and x[1] == 'H5Sget_simple_extent_npoints'):
            continue
        A, B = elem(t[2]), elem(t[3])
        if A is None or B is None or unk(A) or unk(B):
            return s
        pts = []
        mentions(t, lambda x: pts.append(x) if x[0] == 'call' and x[1] == 'H5Sget_simple_extent_npoints' else False)
        # A < B is b:  room = (A - B) >= 0 or (B - A) >= 1
        room = ('op', '-', A, B) if not b else ('op', '-', ('op', '-', B, A), ('c', 1))
        d = lin(absn(('op', '-', ('op', '-', pts[0], end), room), cnt))
        d = {x: v for x, v in d.items() if v}
        if not d or set(d) == {()} and d[()] >= 0:
            return s
        seen = True
    return bad(s, n, 'the dataset may end before the last element selected') if seen else s


def absn(t, cnt):
    t = bare(t)
    if t == cnt:
        return ('p', 'n')
    if t[0] == 'op':
        return ('op', t[1], absn(t[2], cnt), absn(t[3], cnt))
    if t[0] == 'lin':
        return ('lin', tuple((tuple(sorted((absn(a, cnt) for a in k), key=repr)), v) for k, v in t[1]))
    if t[0] == 'call':
        return ('p', repr(t))
    return t


def unk(t):
    return mentions(t, lambda x: x[0] in ('u', 'it', 'mut'))


def optval(s, t, what):
    """the option's value, or the default when the option is absent"""
    t = bare(t)
    txt = repr(t)
    names = [x for x in ('offset', 'stride', 'size') if "'%s'" % x in txt]
    if t[0] == 'c':
        return t[1] == (0 if what == 'offset' else 1)
    return not names or what in names


def read(ip, s, n, a):
    b = bare(a[5])
    if not (b[0] == 'call' and b[1] == ND + 'data_ptr'):
        return s
    X = bare(b[2][0])
    s = add(s, 'xfer', n.line)
    m = bare(a[1])
    fn, fa = origin(s, a[2])
    if fn == 'H5Screate_simple' and only(fa[1]) is not None and mentions(only(fa[1]), lambda x: x == ('optvec', 'sizes')):
        s = bad(s, n, 'the memory selected for the read has as many elements as one dimension of the selection')
    # the type conduit derived for the stored data
    dts = derived(s, m)
    if X[0] == 'call' and X[1] == ND + 'Node':
        d = bare(X[2][0]) if X[2] else None
        if d is None:
            return bad(s, n, 'H5Dread into a node that is empty at that point')
        s = add(s, 'got', X)
        if dts is False or dts is not None and d not in dts:
            if d[0] in ('call', 'dte'):
                s = bad(s, n, 'H5Dread into a node whose type is not the one of the data read')
        return s
    if X[0] in ('p', 'deref', 'fld'):
        if not iscompact(s, X):
            s = bad(s, n, 'H5Dread into `%s`, whose layout need not be compact there' % show(X))
        comp = None
        for t, f in s.facts.items():
            t = bare(t)
            if f and t[0] == 'call' and t[1] in (DT + 'compatible', DT + 'equals') and bare(t[2][0]) == dtof(X):
                comp = bare(t[2][1])
        if comp is None:
            s = bad(s, n, 'H5Dread into `%s` without having found its type compatible with the data' % show(X))
        elif dts and comp not in dts and comp[0] in ('call', 'dte'):
            s = bad(s, n, 'H5Dread into a node found compatible with another type than the one of the data read')
        if comp is not None and comp[0] != 'dte' and m != ('call', NM + 'conduit_dtype_to_hdf5_dtype', (dtof(X),), ()) and fact(s, ('call', DT + 'endianness_matches_machine', (comp,), ())) is False:
            s = bad(s, n, 'H5Dread into `%s` of values in the byte order of the file, which is not that of the machine' % show(X))
        if not endian(s, X, comp):
            s = bad(s, n, 'H5Dread into `%s` without having compared byte orders' % show(X))
    return s


def endian(s, X, comp):
    for t, f in s.facts.items():
        t = bare(t)
        if t[0] == 'call' and t[1] in (DT + 'endianness_matches_machine',) and bare(t[2][0]) == dtof(X) and f:
            return True
        if t[0] == 'call' and t[1] == DT + 'equals' and bare(t[2][0]) == dtof(X) and f:
            return True
        if t[0] == 'op' and t[1] in ('==', '!=') and f == (t[1] == '=='):
            for u, w in ((bare(t[2]), bare(t[3])), (bare(t[3]), bare(t[2]))):
                if u[0] == 'call' and u[1] == DT + 'endianness' and bare(u[2][0]) == dtof(X):
                    return True
    return False


def derived(s, m):
    """conduit types that describe memory laid out as the HDF5 type m: a set, None (unknown)"""
    if m[0] == 'h5':
        fn, fa = origin(s, m)
        if fn == 'H5Tcopy':
            return derived(s, fa[0])
        if fn in ('H5Dget_type', None):
            out = set()
            for e in s.dom:
                if e[0] == 'dt' and e[1] == m:
                    if e[3]:
                        out.add(e[2])
            return None
    if m[0] == 'call' and m[1] == NM + 'conduit_dtype_to_hdf5_dtype':
        return {bare(m[2][0])}
    return None


def run(tier):
    ck = Check('H01', 'other', 'ownership and status typestate of HDF5 identifiers over every path, transfer buffers against the node layout, type maps evaluated for every type', tier)
    pr = P.load(lambda r: r in ('relay/' + FILE, 'conduit/conduit_data_type.cpp'))
    fs = [f for f in sorted(pr.funcs.values(), key=lambda f: (f.file, f.line)) if f.file.endswith(FILE) and f.body is not None]
    summ = {}
    todo = [f for f in fs if f.qn.startswith(NM)]
    names = {f.usr: f for f in todo}
    # callees first
    order, seen = [], set()

    def visit(f):
        if f.usr in seen:
            return
        seen.add(f.usr)
        for x in f.body.walk():
            if x.k in ('Call', 'MCall') and x.d[0] is not None and x.d[0]['usr'] in names:
                visit(names[x.d[0]['usr']])
        order.append(f)
    for f in todo:
        visit(f)
    n5, nf = set(), 0
    inl = inliner(pr, ())
    for f in order:
        summ[f.usr] = {'ret': None, 'close': ()}
    for f in order:
        if f.name == 'hdf5_dtype_to_conduit_dtype':
            summ[f.usr] = {'ret': None, 'close': ()}
            continue
        if inl({'usr': f.usr, 'qn': f.qn}) and '::HDF5' not in f.qn and called(f, order):
            # analysed where it is called
            continue
        nf += one(ck, pr, f, summ, n5)
    ck.count('functions', nf)
    ck.count('hdf5_call_sites', len(n5))
    ck.floor('hdf5_call_sites', len(n5), 40)
    maps(ck, pr, fs)
    stack(ck, pr, fs)
    callbacks(ck, pr, fs)
    copies(ck, pr, fs)
    return ck


def called(f, fs):
    return any(x.k == 'Call' and x.d[0] is not None and x.d[0]['usr'] == f.usr for g in fs if g is not f for x in g.body.walk())


def one(ck, pr, f, summ, n5):
    inl = inliner(pr, ())

    def inline(ref):
        g = pr.funcs.get(ref['usr'])
        if g is not None and g.body is not None and g.file.endswith(FILE) and g.ret == 'long' and not any('conduit::Node' in t for _, _, t in g.params) and 'plist' in g.name:
            return True
        return inl(ref)
    dom = HD(summ, inline, events=maker(f, pr, None), pure=lambda r: r.get('const') or r['qn'].startswith(('std::vector', 'std::basic_string', 'std::operator')) or r['qn'] in (NM + 'conduit_dtype_to_hdf5_dtype', NM + 'hdf5_dtype_to_conduit_dtype') or r['qn'].startswith(DT) or r['qn'] in (ND + 'data_ptr', ND + 'dtype'))
    try:
        ps, ip = paths(pr, f, dom)
    except Exception as ex:
        ck.notes.append('%s: %s' % (f.qn, ex))
        summ[f.usr] = {'ret': None, 'close': ()}
        return 0
    key = '%s/%s' % (f.name, ','.join(t.replace('conduit::', '').replace('std::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'string') for _, _, t in f.params))
    msgs, n = set(), 0
    ret, closes, iters = set(), [], []
    for p in ps:
        for e in p.ev:
            if e[0] == 'h5':
                n5.add(e[1])
        if p.kind != 'return':
            continue
        n += 1
        rv = bare(p.val) if p.val is not None else ('u', 'void')
        held = {bare(v) for k, v in p.env.items() if k[0] == '*'}
        for e in p.ev:
            if e[0] == 'BAD':
                msgs.add(e[1:])
            elif e[0] == 'own':
                if e[1] == rv:
                    ret.add(e[2])
                elif e[1] not in held:
                    msgs.add(('the %s identifier opened here is still open when the function returns' % e[2], e[3]))
            elif e[0] == 'got':
                msgs.add(('what is read into a temporary is not copied to the node', f.line))
            elif e[0] == 'failed' and not (e[2] == 'H5Fopen' and f.ret == 'bool'):
                msgs.add(('the function can return normally after %s failed' % e[2], e[3]))
            elif e[0] == 'st' and (e[1] != rv or f.qn in KNOWN):
                msgs.add(('the result of %s is not checked on some path' % e[2], e[3]))
        cs = {e[1]: e for e in p.ev if e[0] == 'pclose'}
        for i, (nm, vid, ty) in enumerate(f.params):
            if ty == 'long &':
                v = bare(p.env.get(('*', ('p', nm, i)), ('p', nm, i)))
                if v[0] == 'h5' and v[1] in OPEN and not any(k[0] == 'p' and k[1] == nm for k in cs):
                    msgs.add(('the identifier given in `%s` is replaced by another without being closed' % nm, f.line))
        if f.qn == NM + 'hdf5_close_file' and not any(k[0] == 'p' and k[1] == f.params[0][0] for k in cs):
            msgs.add(('the file is not closed', f.line))
        closes.append(cs)
        for i, e in cs.items():
            # a reference parameter gets a new identifier instead of the closed one
            nm = i[1] if i[0] == 'p' else None
        if rv != ('u', 'void') and ('closed', rv) in p.ev:
            msgs.add(('the function returns an identifier it has closed', f.line))
        for e in p.ev:
            if e[0] == 'argarray':
                nm, alt, dft = e[1:4]
                want = {'offsets': ('offset', 0), 'strides': ('stride', 1), 'sizes': ('size', None)}
                if nm[0] == 'c' and nm[1] in want and alt[0] == 'c':
                    if alt[1] != want[nm[1]][0]:
                        msgs.add(('`%s` falls back to the option `%s`' % (nm[1], alt[1]), e[4]))
                    if want[nm[1]][1] is not None and dft[0] == 'c' and dft[1] != want[nm[1]][1]:
                        msgs.add(('`%s` is %s when it is not given' % (nm[1], dft[1]), e[4]))
            elif e[0] == 'iterate':
                tracked = [b for k, b in p.facts.items() if bare(k)[0] == 'op' and bare(k)[1] == '&' and bare(bare(k)[3])[0] == 'c' and bare(bare(k)[3])[1] & 3]
                if tracked and tracked[0] and e[1] == ('c', 0):
                    msgs.add(('children are read in name order although the creation order is tracked', e[4]))
                if ('lcook',) in p.ev and not tracked and e[1] == ('c', 0) and ('flags',) not in p.ev:
                    msgs.add(('children are read in name order without looking at the creation order flags just fetched', e[4]))
                if e[2][0] == 'c' and e[2][1] != 0 or e[3] not in (('c', 0), ('c', None)) and e[3][0] == 'c':
                    msgs.add(('the iteration over the children is not in increasing order from the first', e[4]))
                iters.append(e)
        cnt = {e[1]: e for e in p.ev if e[0] == 'H5Fget_obj_count'}
        for e in p.ev:
            if e[0] == 'H5Fget_obj_ids':
                for c in p.ev:
                    if c[0] == 'H5Fget_obj_count' and e[4] == c[5] and (c[1], c[2]) != (e[1], e[2]):
                        msgs.add(('the identifiers of %s are fetched, those of %s were counted' % (show(e[1]), show(c[1])), e[3]))
    if iters and all(e[1] == ('c', 0) for e in iters):
        msgs.add(('children are always read in name order', iters[0][4]))
    ret = next(iter(ret)) if ret else None
    cl = []
    for i, (nm, vid, ty) in enumerate(f.params):
        hit = [c for c in closes if ('p', nm) in c or any(k[0] == 'p' and k[1] == nm for k in c)]
        if hit:
            fn = next(e[2] for c in hit for k, e in c.items() if k[0] == 'p' and k[1] == nm)
            if ty.endswith('&'):
                # replaced by another identifier for the same object
                for p in ps:
                    pass
                continue
            cl.append((i, fn, len(hit) == len(closes)))
    summ[f.usr] = {'ret': ret, 'close': tuple(cl)}
    for m, l in sorted(msgs):
        ck.bad(key + ':' + m[:60], f.file, l, '%s: %s' % (f.qn, m))
    if not msgs and n:
        ck.ok(n, key)
    return 1


def enums(pr):
    for q, e in pr.enums.items():
        if q.endswith('Endianness::TypeID') or 'BIG_ID' in e:
            return e.get('DEFAULT_ID', 0), e.get('BIG_ID', 1), e.get('LITTLE_ID', 2)
    return 0, 1, 2


def parse(g):
    """(kind, byte order) of a predefined HDF5 type, None for other values"""
    m = re.match(r'H5T_(STD|IEEE)_([IUF])(\d+)(LE|BE)_g$', g)
    if m:
        return {'I': 'int', 'U': 'uint', 'F': 'float'}[m.group(2)] + m.group(3), m.group(4)
    return None


def maps(ck, pr, fs):
    D, B, L = enums(pr)
    n = 0
    for f in fs:
        if f.qn == NM + 'conduit_dtype_to_hdf5_dtype':
            n += 1
            ps, ip = paths(pr, f, Sum(inliner(pr, (DT,)), pure=lambda r: True))
            d = ('p', f.params[0][0], 0)
            for k in NUM + ('char8_str',):
                for e, name in ((B, 'BE'), (L, 'LE'), (D, 'LE')):
                    a = {('fld', d, 'm_id'): ID[k], ('fld', d, 'm_endianness'): e,
                         ('call', 'conduit::Endianness::machine_is_little_endian', (), ()): True, ('call', 'conduit::Endianness::machine_is_big_endian', (), ()): False, ('call', 'conduit::Endianness::machine_default', (), ()): L}
                    qs = [p for p in under(ps, a)]
                    key = 'to_hdf5:%s:%s' % (k, name)
                    if not qs:
                        continue
                    bads = set()
                    for p in qs:
                        if p.kind != 'return':
                            if len(qs) == 1:
                                bads.add('raises an error for %s' % k)
                            continue
                        v = bare(p.val)
                        if v[0] != 'glob':
                            if v[0] == 'c':
                                bads.add('%s is mapped to no HDF5 type' % k)
                            continue
                        if k == 'char8_str':
                            if v[1] != 'H5T_C_S1_g':
                                bads.add('char8_str is mapped to %s' % v[1])
                        elif v[1].startswith('H5T_NATIVE_'):
                            continue
                        elif parse(v[1]) != (k, name) and not (k.endswith('int8') and parse(v[1]) and parse(v[1])[0] == k):
                            bads.add('%s %s is mapped to %s' % (k, name, v[1]))
                    if bads:
                        ck.bad(key, f.file, f.line, '%s: %s' % (f.qn, '; '.join(sorted(bads))))
                    else:
                        ck.ok(1, key)
        elif f.qn == NM + 'hdf5_dtype_to_conduit_dtype' and f.body is not None:
            ps, ip = paths(pr, f, Sum(inliner(pr, (DT,)), pure=lambda r: True))
            gl = set()
            for p in ps:
                for t in p.facts:
                    for c in teq(t):
                        gl |= {x[1] for x in map(bare, c[2]) if x[0] == 'glob'}
            if not gl:
                continue
            n += 1
            num = set()
            for k in NUM:
                for e, name in ((B, 'BE'), (L, 'LE')):
                    g = 'H5T_%s_%s%dLE_g' % ('IEEE' if k[0] == 'f' else 'STD', {'i': 'I', 'u': 'U', 'f': 'F'}[k[0]], 8 * WIDTH[k])
                    g = g.replace('LE_g', name + '_g')
                    key = 'from_hdf5:%s:%s' % (k, name)
                    qs = []
                    for p in ps:
                        a = {}
                        for t in p.facts:
                            for c in teq(t):
                                x = [y[1] for y in map(bare, c[2]) if y[0] == 'glob']
                                if len(x) == 1 and not x[0].startswith('H5T_NATIVE_'):
                                    a[c] = int(x[0] == g)
                        if feasible(p, a):
                            qs.append(p)
                    bads = set()
                    for p in qs:
                        if p.kind != 'return':
                            if all(q.kind != 'return' for q in qs):
                                bads.add('%s is not recognised' % g)
                            continue
                        i, en, ne = dtval(p)
                        if i is None or en is None:
                            continue
                        num.add(ne)
                        if KIND.get(i) != k:
                            bads.add('%s becomes %s' % (g, KIND.get(i, i)))
                        if WIDTH[k] > 1 and en != (B if name == 'BE' else L) and not (en == D and name == 'LE'):
                            bads.add('%s becomes %s with byte order %s' % (g, k, {B: 'big', L: 'little', D: 'default'}.get(en, en)))
                    if bads:
                        ck.bad(key, f.file, f.line, '%s: %s' % (f.qn, '; '.join(sorted(bads))))
                    elif qs:
                        ck.ok(1, key)
            if len(num) > 1:
                ck.bad('from_hdf5:count', f.file, f.line, '%s: the number of elements is not computed alike for all types' % f.qn)
    ck.count('type_maps', n)


def teq(t):
    out = []
    mentions(t, lambda x: bool(x[0] == 'call' and x[1] == 'H5Tequal' and out.append(x)))
    return out


def dtval(p):
    """(type id, byte order, number of elements) of the DataType a path returns"""
    v = bare(p.val)
    if v[0] == 'call' and v[1] == DT + 'DataType' and len(v[2]) == 6:
        c = [bare(x) for x in v[2]]
        return (c[0][1] if c[0][0] == 'c' else None), (c[5][1] if c[5][0] == 'c' else None), c[1]
    out = {}
    for k, w in p.env.items():
        if k[0] == '*' and k[1][0] == 'fld' and k[1][1][0] == 'v':
            out.setdefault(k[1][1], {})[k[1][2]] = bare(w)
    if len(out) == 1:
        d = next(iter(out.values()))
        i, e = d.get('m_id'), d.get('m_endianness')
        return (i[1] if i and i[0] == 'c' else None), (e[1] if e and e[0] == 'c' else None), d.get('m_num_ele')
    return None, None, None


def stack(ck, pr, fs):
    """the error callback of the application comes back when the suppressing object goes away"""
    q = NM + 'HDF5ErrorStackSupressor::'
    th = ('this',)

    def ev(ip, s, n, ref, obj, args, locs):
        if ref['qn'].startswith(('H5Eget_auto', 'H5Eset_auto')):
            s = s.withdom(s.dom + ((ref['qn'][:11], tuple(bare(a) for a in args)),))
            return [(s, ('c', 0))]
        return None
    ctor = [f for f in fs if f.qn == q + 'HDF5ErrorStackSupressor' and not f.params]
    dtor = [f for f in fs if f.qn == q + '~HDF5ErrorStackSupressor']
    if not ctor or not dtor:
        ck.notes.append('no error stack suppressor')
        return
    saved, flag = None, set()
    cp, _ = paths(pr, ctor[0], Sum(inliner(pr, (q,)), events=ev, pure=lambda r: True))
    msgs = set()
    for p in cp:
        if p.kind != 'return':
            continue
        ev1 = [e for e in p.ev if e[0] == 'H5Eset_auto']
        if ev1:
            g = [e for e in p.ev if e[0] == 'H5Eget_auto']
            if not g or p.ev.index(g[0]) > p.ev.index(ev1[0]):
                msgs.add('the error callback is replaced without having been saved')
            else:
                sv = tuple(x[1] if x[0] in ('addr', 'locaddr') else x for x in g[0][1][1:])
                saved = tuple(x[1] if x[0] == '*' else x for x in sv)
        act = [bare(v) for k, v in p.env.items() if k[0] == '*' and k[1][0] == 'fld' and k[1][2] == 'active']
        if act:
            a = val(act[0], {bare(k): b for k, b in p.facts.items()})
            if a is not None and bool(a) != bool(ev1):
                msgs.add('the flag that makes the destructor restore the error callback does not say whether it was replaced')
    dp, _ = paths(pr, dtor[0], Sum(inliner(pr, (q,)), events=ev, pure=lambda r: True))
    for p in dp:
        act = [b for k, b in p.facts.items() if bare(k) == ('fld', th, 'active')]
        sets = [e for e in p.ev if e[0] == 'H5Eset_auto']
        if act and act[0] and not sets:
            msgs.add('the destructor does not restore the error callback')
        for e in sets:
            if saved and tuple(bare(x) for x in e[1][1:]) != saved and all(x[0] in ('fld', 'c') for x in e[1][1:]):
                msgs.add('the destructor sets something else than the saved error callback')
    for m in sorted(msgs):
        ck.bad('error-stack:' + m[:40], ctor[0].file, ctor[0].line, m)
    if not msgs:
        ck.ok(len(cp) + len(dp), 'error-stack')


def callbacks(ck, pr, fs):
    """a callback of H5Literate that returns nonzero would end the iteration early"""
    names = {}
    for f in fs:
        for x in f.body.walk():
            if x.k == 'Call' and x.d[0] is not None and x.d[0]['qn'].startswith('H5Literate'):
                for y in x.walk():
                    if y.k == 'Ref' and y is not x:
                        for g in fs:
                            if g.name == ref_name(y) and g.ret == 'int':
                                names[g.usr] = g
    for g in names.values():
        try:
            ps, ip = paths(pr, g, Sum(inliner(pr, ()), pure=lambda r: True))
        except Exception as ex:
            ck.notes.append('%s: %s' % (g.qn, ex))
            continue
        b = {show(p.val) for p in ps if p.kind == 'return' and bare(p.val)[0] == 'c' and bare(p.val)[1] != 0}
        if b:
            ck.bad('callback:' + g.name, g.file, g.line, '%s returns %s: H5Literate stops there, the remaining children are not read' % (g.qn, ', '.join(sorted(b))))
        else:
            ck.ok(1, 'callback ' + g.name)
    ck.count('iteration_callbacks', len(names))


def ref_name(y):
    return y.d[1]['name'] if y.d[0] == 'f' and isinstance(y.d[1], dict) else None


class AD(Sum):
    iters = True

    def init(self):
        return frozenset()

    def on_store(self, ip, s, n, loc, v):
        if loc[0] == '*':
            l = loc[1]
            if l[0] == 'idx':
                s = s.withdom(s.dom | {('arr', bare(l[1]), strip(l[2]), v, n.line)})
            elif l[0] == 'call' and l[1].endswith('operator[]') and len(l[2]) == 2:
                s = s.withdom(s.dom | {('arr', bare(l[2][0]), strip(l[2][1]), v, n.line)})
        return s


def copies(ck, pr, fs):
    """the offsets, strides and sizes handed to HDF5 are those of the options, in every dimension"""
    from loopcov import covers
    for f in fs:
        if f.qn != NM + 'make_dataset_opt_copy':
            continue
        pure = lambda r: r.get('const') or 'operator[]' in r['qn'] or r['qn'].startswith(('std::vector', 'std::basic_string'))
        ps, ip = paths(pr, f, AD(inliner(pr, ()), pure=pure))
        why, n = None, 0
        for p in ps:
            if p.kind != 'return':
                continue
            for e in p.ev:
                if e[0] != 'arr':
                    continue
                n += 1
                w = covers(ip, p, e[2], lambda b: strip(b)[0] == 'call' and strip(b)[1].split('::')[-1] in ('number_of_elements', 'size'))
                if w and w[0] != '?':
                    why = why or w
                x = strip(e[3])
                if x[0] == 'call' and x[1].split('::')[-1] in ('operator[]', 'element') and len(x[2]) == 2 and strip(x[2][1]) != e[2] and not unknown(x[2][1]):
                    why = why or 'dimension %s gets the value of %s' % (show(e[2]), show(x[2][1]))
        if why:
            ck.bad('copies:' + f.name, f.file, f.line, '%s: not every dimension of the option is handed on: %s' % (f.qn, why))
        elif n:
            ck.ok(n, 'copies')
