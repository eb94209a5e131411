"""R01: every MPI transfer of relay::mpi moves exactly the compact bytes of the node it is about."""
from common import Check
import prog as P
from summ import *
from interp import strip
from loopcov import bare

NM = 'conduit::relay::mpi::'
ND, SC, DT = 'conduit::Node::', 'conduit::Schema::', 'conduit::DataType::'
# function -> (send triple, receive triple): positions of (buffer, count, type)
TRI = {'MPI_Send': ((0, 1, 2), None), 'MPI_Isend': ((0, 1, 2), None), 'MPI_Recv': (None, (0, 1, 2)), 'MPI_Irecv': (None, (0, 1, 2)),
       'MPI_Reduce': ((0, 2, 3), (1, 2, 3)), 'MPI_Allreduce': ((0, 2, 3), (1, 2, 3)), 'MPI_Gather': ((0, 1, 2), (3, 4, 5)), 'MPI_Allgather': ((0, 1, 2), (3, 4, 5)),
       'MPI_Gatherv': ((0, 1, 2), None), 'MPI_Allgatherv': ((0, 1, 2), None), 'MPI_Bcast': ((0, 1, 2), (0, 1, 2)), 'MPI_Scatter': ((0, 1, 2), (3, 4, 5)), 'MPI_Ssend': ((0, 1, 2), None)}
COLL = ('MPI_Reduce', 'MPI_Allreduce', 'MPI_Gather', 'MPI_Allgather', 'MPI_Gatherv', 'MPI_Allgatherv', 'MPI_Bcast', 'MPI_Barrier', 'MPI_Scatter', 'MPI_Scatterv', 'MPI_Alltoall', 'MPI_Alltoallv', 'MPI_Scan')
# comm / root argument positions of what is called
COMM = {'MPI_Send': (3, 4, 5), 'MPI_Isend': (3, 4, 5), 'MPI_Recv': (3, 4, 5), 'MPI_Irecv': (3, 4, 5), 'MPI_Reduce': (4, 5, 6), 'MPI_Allreduce': (4, 5), 'MPI_Gather': (6, 7), 'MPI_Allgather': (6,),
        'MPI_Gatherv': (7, 8), 'MPI_Allgatherv': (7,), 'MPI_Bcast': (3, 4), 'MPI_Probe': (0, 1, 2)}
LOCAL = ('MPI_Comm_rank', 'MPI_Comm_size', 'MPI_Wtime', 'MPI_Get_count', 'MPI_Error_string', 'MPI_Comm_f2c', 'MPI_Comm_c2f', 'MPI_Initialized', 'MPI_Finalized', 'MPI_Get_processor_name', 'MPI_Wtick')


def isnode(v):
    return v[0] in ('ccopy', 'alloc', 'listof', 'bytes')


def made_by_new(v):
    """the node a new expression makes, or the value itself"""
    w = v
    while w[0] in ('deref', 'addr'):
        w = bare(w[1])
    if w[0] == 'call' and w[1] == '<new>' and len(w[2]) == 2 and w[2][0] == 'conduit::Node' and isnode(bare(w[2][1])):
        return bare(w[2][1])
    return v


def slot(t):
    """(index, field, k): entry of the list of operations the value is kept in"""
    t = bare(t)
    while t[0] in ('deref', 'addr'):
        t = bare(t[1])
    if t[0] == 'ld' and strip(t[2])[0] == 'op':
        l = lin(t[2])
        b = [k[0] for k in l if len(k) == 1 and k[0][0] == 'fld']
        if len(b) != 1 or set(l) - {(b[0],), ()}:
            return None
        k, f = l.get((), 0), b[0]
        k = k // 8 if '*' in t[1] else k
    elif t[0] == 'idx' and bare(t[1])[0] == 'fld' and strip(t[2])[0] == 'c':
        f, k = bare(t[1]), strip(t[2])[1]
    else:
        return None
    v = bare(f[1])
    if v[0] == 'call' and v[1].startswith('std::vector') and v[1].endswith('operator[]'):
        return (strip(v[2][1]), f[2], k)
    return None


def opfacts(s):
    """what is known of the kind of the operations: {(index, kind, truth)}"""
    r = set()
    for k, b in s.facts.items():
        k = strip(k)
        if k[0] == 'op' and k[1] == '==':
            for x, y in ((k[2], k[3]), (k[3], k[2])):
                x, y = bare(x), strip(y)
                if x[0] == 'fld' and x[2] == 'op' and y[0] == 'c':
                    v = bare(x[1])
                    if v[0] == 'call' and v[1].endswith('operator[]'):
                        r.add((strip(v[2][1]), y[1], b))
    return frozenset(r)


def nullness(k):
    """(m_rcv_ptr field, True when the fact being true means it is null) or None"""
    k = strip(k)
    if k[0] == 'op' and k[1] == '==':
        for x, y in ((k[2], k[3]), (k[3], k[2])):
            if bare(x)[0] == 'fld' and bare(x)[2] == 'm_rcv_ptr' and strip(y) in (('c', None), ('c', 0)):
                return bare(x), True
    elif bare(k)[0] == 'fld' and bare(k)[2] == 'm_rcv_ptr':
        return bare(k), False
    return None


def C(q, *a):
    return ('call', q, tuple(a), ())


def src(v):
    """what a node or schema value describes the compact layout of, or None"""
    v = bare(v)
    if v[0] == 'ccopy':
        return src(v[1])
    if v[0] == 'alloc':
        return src(v[1])
    if v[0] == 'cs':
        return src(v[1])
    if v[0] == 'call' and v[1] == ND + 'schema':
        return src(v[2][0])
    return v


def compact(v):
    """the schema value is laid out compactly from offset 0"""
    v = bare(v)
    if v[0] in ('cs', 'gen'):
        return True
    if v[0] == 'call' and v[1] == ND + 'schema':
        w = bare(v[2][0])
        return w[0] == 'ccopy' or w[0] == 'alloc' and compact(w[1])
    if v[0] == 'call' and v[1] == SC + 'Schema' and not v[2]:
        return False
    if v[0] == 'built':
        return False if len(v[2]) > 1 else None
    if v[0] == 'it':
        return None
    return None if v[0] in ('mut', 'u') else False


def nbytes(t):
    """normal form of a byte count"""
    t = bare(t)
    if t[0] == 'cast':
        t = bare(t[2])
    if t[0] == 'call' and t[1] in (ND + 'total_bytes_compact', SC + 'total_bytes_compact', ND + 'total_strided_bytes_'):
        v = made_by_new(bare(t[2][0]))
        if v[0] == 'bytes':
            return canon(v[1])
        if v[0] == 'listof':
            return ('mul', src(v[1]), canon(v[2]))
        return ('tbc', src(v))
    return canon(t)


class MD(Sum):
    iters = True
    cap = 3000

    def init(self):
        return frozenset({('seq', ())})

    def on_delete(self, ip, s, n, v):
        return [(add(s, 'del', n.line), ('u', 'void'))]

    def on_new(self, ip, s, n, v):
        if 'conduit::Node' in n.d[0]:
            c = v[2][1:]
            if len(c) == 1:
                x = bare(c[0])
                # the constructor call itself
                if x[0] == 'call' and x[1] == ND + 'Node' and len(x[2]) == 1:
                    x = bare(x[2][0])
                s = s.set(('*', ('deref', v)), x if isnode(x) else made(x, v[3]))
        return [(s, v)]

    def on_branch(self, ip, s, term, b):
        k = strip(term)
        if k[0] == 'op' and k[1] in ('==', '!='):
            ok = b == (k[1] == '==')
            rs = (bare(k[2]), bare(k[3]))
        else:
            ok, rs = not b, (bare(k),)
        z = nullness(term)
        if z is not None and b != z[1]:
            s = add(s, 'pend', z[0])
        if ok:
            d = frozenset(e for e in s.dom if not (e[0] == 'mpi' and e[1] in rs))
            if d != s.dom:
                s = s.withdom(d)
        return s

    def on_store(self, ip, s, n, loc, v):
        if loc[0] == '*' and loc[1][0] == 'fld' and loc[1][2] in ('m_rcv_ptr', 'm_request'):
            s = s.withdom(frozenset(e for e in s.dom if e[:2] != ('fldset', loc[1])) | {('fldset', loc[1], v)})
        if loc[0] == '*' and loc[1][0] == 'fld' and loc[1][2] == 'm_rcv_ptr' and strip(v) in (('c', None), ('c', 0)):
            s = s.withdom(frozenset(e for e in s.dom if e != ('keep', loc[1])))
        if loc[0] == '*' and loc[1][0] == 'idx':
            s = add(s, 'arr', bare(loc[1][1]), strip(loc[1][2]), bare(v), n.line)
        elif loc[0] == '*' and loc[1][0] == 'call' and loc[1][1].startswith('std::vector') and loc[1][1].endswith('operator[]'):
            s = add(s, 'arr', bare(loc[1][2][0]), strip(loc[1][2][1]), bare(v), n.line)
        return s


def made(x, uid):
    x = bare(x)
    if x[0] == 'call' and x[1] in (DT + 'uint8', DT + 'int8', DT + 'c_char', DT + 'char8_str', DT + 'c_unsigned_char') and x[2]:
        return ('bytes', x[2][0], uid)
    if x[0] == 'call' and x[1] == DT + 'DataType':
        return ('u', 'node', uid)
    return ('alloc', x, uid)


def facts(s, t):
    for k, b in s.facts.items():
        if bare(k) == t:
            return b
    return None


def nonnull(s, t):
    for k, b in s.facts.items():
        k = strip(k)
        if bare(k) == t:
            return b
        if k[0] == 'op' and k[1] == '==' and t in (bare(k[2]), bare(k[3])):
            o = bare(k[3]) if bare(k[2]) == t else bare(k[2])
            if o in (('c', None), ('c', 0)):
                return not b
    return None


def add(s, *e):
    return s.withdom(s.dom | {e})


def bad(s, n, msg):
    return add(s, 'BAD', msg, n.line)


def buffer(s, t, ip=None):
    """(problem or None, what the memory holds/describes)"""
    t = bare(t)
    if t[0] == 'call' and t[1] == ND + 'contiguous_data_ptr':
        X = bare(t[2][0])
        if isnode(X):
            return None, X
        if not nonnull(s, t):
            return 'the node may not be contiguous there', X
        if not facts(s, C(ND + 'is_compact', X)):
            return 'the node may not be compact there', X
        return None, X
    if t[0] == 'call' and t[1] in (ND + 'data_ptr', ND + 'element_ptr'):
        Y = made_by_new(bare(t[2][0]))
        if t[1] == ND + 'element_ptr':
            if canon(t[2][1]) == ('c', 0):
                if facts(s, C(ND + 'is_compact', Y)) or isnode(Y):
                    return None, Y
                return 'the node may not be compact there', Y
            return '?', None
        if Y[0] in ('bytes', 'listof', 'ccopy'):
            return None, Y
        if Y[0] == 'alloc':
            c = compact(Y[1])
            if bare(Y[1])[0] == 'it' and ip is not None and any(bare(x)[0] == 'built' for x in ip.starts.get(bare(Y[1]), ())):
                c = False
            return (None, Y) if c else ('?' if c is None else 'its layout need not be compact', Y)
        if Y[0] in ('p', 'fld', 'deref') or Y[0] == 'call' and Y[1] in (ND + 'fetch', ND + 'child'):
            return 'data_ptr() of a node given by the caller is not where its elements start', Y
    if t[0] == 'c' and t[1] in (0, None):
        return 'null', None
    return '?', None


def known(e, i):
    return len(e) > i


def triple(ip, s, n, nm, what, buf, cnt, ty, rank):
    w, X = buffer(s, buf, ip)
    if w == '?':
        s = text(s, n, nm, bare(buf), cnt)
    if w == '?' or w == 'null':
        return s
    s = add(s, 'xfer', n.line, what)
    if w:
        return bad(s, n, '%s: %s data at %s, but %s' % (nm, what, show(bare(buf)), w))
    ty = bare(ty)
    tn = ty[1] if ty[0] == 'glob' else (ty[1][1] if ty[0] == 'addr' and ty[1][0] == 'glob' else None)
    Y = src(X) if X[0] not in ('bytes', 'listof') else X
    if tn in ('ompi_mpi_byte', 'ompi_mpi_char', 'MPI_BYTE', 'MPI_CHAR'):
        c = nbytes(cnt)
        if X[0] == 'bytes':
            want = canon(X[1])
        elif X[0] == 'listof':
            want = ('tbc', src(X[1]))
        else:
            want = ('tbc', Y)
        g = [e for e in s.dom if e[0] == 'gen']
        if nm == 'MPI_Bcast' and g and rank is not True:
            want = ('tbc', g[0][1])
        d = lin(('op', '-', c, want)) if X[0] == 'bytes' else {}
        if d and set(d) == {()}:
            return bad(s, n, '%s: counts %s for a buffer of %s bytes' % (nm, show2(c), show2(want)))
        if c == want or c[0] in ('mut', 'u', 'it') or c[0] == 'tbc' and unknown(c[1]):
            return s
        if c[0] == 'tbc' or c[0] in ('c', 'lin', 'call', 'mul', 'p'):
            return bad(s, n, '%s: counts %s for a buffer of %s' % (nm, show2(c), show2(want)))
        return s
    if ty[0] == 'call' and ty[1] == NM + 'conduit_dtype_to_mpi_dtype':
        D = bare(ty[2][0])
        c = bare(cnt)
        if D[0] == 'call' and D[1] == ND + 'dtype':
            if src(D[2][0]) != Y and not (what == 'receives' and fits(s, Y, src(D[2][0]))):
                s = bad(s, n, '%s: %s uses the data type of another node' % (nm, what))
        if c[0] == 'call' and c[1] in (DT + 'number_of_elements',):
            d = bare(c[2][0])
            if d[0] == 'call' and d[1] == ND + 'dtype' and src(d[2][0]) != Y and not (what == 'receives' and fits(s, Y, src(d[2][0]))):
                s = bad(s, n, '%s: %s counts the elements of another node' % (nm, what))
        elif c[0] == 'call' and c[1] in (ND + 'total_bytes_compact', ND + 'number_of_children') or c[0] == 'c':
            s = bad(s, n, '%s: %s counts %s instead of elements' % (nm, what, show(c)))
    return s


def text(s, n, nm, b, cnt):
    """a schema sent as text goes with its terminator"""
    if b[0] == 'call' and b[1].split('::')[-1] in ('c_str', 'data') and 'basic_string' in b[1]:
        l = lin(strip(cnt))
        js = [k for k in l if len(k) == 1 and k[0][0] == 'call' and k[0][1].split('::')[-1] in ('size', 'length') and bare(k[0][2][0]) == bare(b[2][0])]
        if js and (l.get((), 0) != 1 or len(l) != 2 or l[js[0]] != 1):
            s = bad(s, n, '%s: the text is sent with %s characters instead of its length and the terminator' % (nm, show(canon(cnt))))
    return s


def fits(s, a, b):
    """node a is known to hold what b describes"""
    return facts(s, C(ND + 'compatible', a, b)) or facts(s, C(SC + 'compatible', C(ND + 'schema', a), C(ND + 'schema', b)))


def show2(c):
    if c[0] == 'tbc':
        return 'the compact bytes of ' + show(c[1])
    if c[0] == 'mul':
        return '%s times %s' % (show(c[2]), show(c[1]))
    return show(c)


def ranked(s):
    """is this rank the root on this path"""
    for k, b in s.facts.items():
        k = strip(k)
        if k[0] == 'op' and k[1] == '==':
            ts = [bare(k[2]), bare(k[3])]
            if any(t[0] == 'call' and t[1] in (NM + 'rank',) or t[0] == 'outv' for t in ts) and any(t[0] == 'p' and t[1] == 'root' for t in ts):
                return b
    return None


def build(s, o):
    v = s.env.get(o[1])
    if v is None:
        return s
    v = bare(v)
    if v[0] == 'call' and v[1] == SC + 'Schema' and not v[2]:
        return s.set(o[1], ('built', v[3], frozenset({o[2]})))
    if v[0] == 'built':
        return s.set(o[1], ('built', v[1], v[2] | {o[2]}))
    if v[0] == 'it':
        return s.set(o[1], ('built', v, frozenset({o[2], 'more'})))
    return s


def events(ip, s, n, ref, obj, args, locs):
    q, m = ref['qn'], ref['name']
    L0, LA = locs if locs else (None, [])
    V = ('u', 'void')
    o = bare(obj) if obj is not None else None
    if q in (ND + 'operator[]', ND + 'fetch', SC + 'operator[]', SC + 'fetch', SC + 'append', ND + 'append', ND + 'fetch_existing') and o is not None:
        base = L0 if L0 is not None else ('*', o)
        k = bare(args[0]) if args else ('c', n.id)
        t = ('kid', base, k)
        return [(s, t)]
    if q == ND + 'compact_to' and len(args) == 1 and LA[0] is not None:
        return [(s.set(LA[0], ('ccopy', o, ip.path + (n.id,))), V)]
    if q == SC + 'compact_to' and LA and LA[0] is not None:
        return [(s.set(LA[0], ('cs', o)), V)]
    if q == SC + 'operator=' and L0 is not None:
        return [(s.set(L0, bare(args[0])), V)]
    if q in (SC + 'set', ND + 'set_schema', ND + 'set', ND + 'set_dtype', ND + 'operator=') and o is not None and len(args) == 1:
        a = bare(args[0])
        loc = L0 if L0 is not None else ('*', o)
        ty = ref['params'][0][1]
        if o[0] == 'kid':
            s = add(s, 'kidset', o, a, ip.path + (n.id,), q.startswith(SC))
            if q.startswith(SC):
                s = build(s, o)
        if q == SC + 'set':
            if 'Schema' in ty:
                return [(s.set(loc, a), V)]
            return [(s, V)]
        if 'Schema' in ty:
            return [(s.set(loc, ('alloc', a, ip.path + (n.id,))), V)]
        if 'DataType' in ty:
            return [(s.set(loc, made(a, ip.path + (n.id,))), V)]
        if 'Node' in ty:
            s = add(s, 'upd', o if not isnode(o) else loc, a, bare(LA[0]) if LA and LA[0] is not None else None, frozenset(e[1] for e in s.dom if e[0] == 'called'))
            return [(s, V)]
        return [(s, V)]
    if q == ND + 'Node' and len(args) == 1 and not ref.get('ctor') in ('copy', 'move'):
        return [(s, made(args[0], ip.path + (n.id,)))]
    if q == ND + 'update' and o is not None:
        if o[0] == 'kid':
            s = add(s, 'kidset', o, ('update', bare(args[0])), ip.path + (n.id,), False)
        if slot(o) is not None:
            s = add(s, 'opupd', slot(o), opfacts(s), n.line)
        if o[0] == 'fld' and o[2] == 'm_rcv_ptr':
            g = [(z, b != z[1]) for z, b in ((nullness(k), b) for k, b in s.facts.items()) if z is not None]
            if (o, True) not in [(z[0], b) for z, b in g]:
                s = bad(s, n, 'the node of a request is written without knowing that the request has one')
            s = s.withdom((s.dom - {('pend', o)}) | (set() if s.env.get(('*', o)) in (('c', None), ('c', 0)) else {('keep', o)}))
        return [(add(s, 'upd', o, bare(args[0]), bare(LA[0]) if LA and LA[0] is not None else None, frozenset(e[1] for e in s.dom if e[0] == 'called')), V)]
    if q == ND + 'list_of' and o is not None:
        loc = L0 if L0 is not None else ('*', o)
        return [(s.set(loc, ('listof', bare(args[0]), args[1], ip.path + (n.id,))), V)]
    if q.startswith(ND + 'set_external') and o is not None and o[0] == 'kid':
        s = s.withdom(frozenset(e for e in s.dom if not (e[0] == 'ext' and e[1] == o)) | {('ext', o, tuple(bare(a) for a in args))})
        return [(s, V)]
    if q == ND + 'reset' and o is not None:
        if L0 is not None:
            s = s.set(L0, ('u', 'reset', n.id))
        return [(add(s, 'reset', bare(L0) if L0 is not None else o, n.line), V)]
    if q.startswith('conduit::Generator::') and m == 'walk' and LA and LA[0] is not None:
        g = ('gen', ip.path + (n.id,))
        return [(add(s.set(LA[0], g), 'gen', g), V)]
    if q in (SC + 'to_json', ND + 'to_json_') and o is not None:
        c = compact(o)
        s = add(s, 'json', n.line)
        if c is False:
            s = bad(s, n, 'the schema sent is %s, which need not be the compact one of the data sent' % show(o))
        return [(s, C(q, o))]
    if q == 'MPI_Get_count' and bare(args[2])[0] == 'locaddr':
        l = bare(args[2])[1]
        s = add(s, 'getcount', bare(args[0]), ip.path + (n.id,), n.line)
        return [(s.set(l, ('count', ip.path + (n.id,))), ('c', 0))]
    if q.startswith('MPI_') or q.startswith('PMPI_'):
        if q in LOCAL:
            return None
        a = args
        # unchecked earlier call
        r = ('call', q, tuple(args), ip.path + (n.id,))
        s = add(s, 'opx', q, tuple(args), opfacts(s), n.line)
        s = s.withdom(s.dom | {('mpi', r, n.line), ('called', q), ('args', q, tuple(args), n.line)})
        if q in TRI:
            snd, rcv = TRI[q]
            rank = ranked(s)
            if q in ('MPI_Reduce', 'MPI_Gather', 'MPI_Gatherv') and rank is False:
                rcv = None
            if snd and not (q == 'MPI_Bcast' and rank is False):
                s = triple(ip, s, n, q, 'sends', a[snd[0]], a[snd[1]], a[snd[2]], rank)
            if rcv and not (q in ('MPI_Bcast',) and rank is True):
                s = triple(ip, s, n, q, 'receives', a[rcv[0]], a[rcv[1]], a[rcv[2]], rank)
                b, X = buffer(s, a[rcv[0]], ip)
                if X is not None and not b:
                    s = add(s, 'into', X, q, n.line)
                    g = [e for e in s.dom if e[0] == 'gen']
                    if q == 'MPI_Bcast' and g and X[0] == 'p' and not facts(s, C(SC + 'compatible', C(ND + 'schema', X), g[0][1])) and not facts(s, C(SC + 'equals', C(ND + 'schema', X), g[0][1])):
                        s = bad(s, n, 'data is received in place in a node that is not known to hold what the schema received describes')
        if q in ('MPI_Gatherv', 'MPI_Allgatherv') and not (q == 'MPI_Gatherv' and ranked(s) is False):
            w, X = buffer(s, a[3], ip)
            if w and w not in ('?', 'null'):
                s = bad(s, n, '%s: receives at %s, but %s' % (q, show(bare(a[3])), w))
        if q in COMM and q != 'MPI_Probe':
            s = add(s, 'pass', q, tuple(bare(a[i]) for i in COMM[q] if i < len(a)), n.line)
        if q in COLL:
            sq = next(e for e in s.dom if e[0] == 'seq')
            call = (q,) + tuple(bare(a[i]) for i in COMM.get(q, ()) if i < len(a))
            if not sq[1] or sq[1][-1] != call or len(sq[1]) < 12:
                s = s.withdom((s.dom - {sq}) | {('seq', (sq[1] + (call,))[:14])})
        # out arguments
        for x in a:
            x = bare(x)
            if x[0] == 'locaddr' and q not in ('MPI_Send', 'MPI_Isend'):
                cur = s.env.get(x[1])
                if cur is not None and cur[0] != 'ref' and q != 'MPI_Bcast':
                    s = s.set(x[1], ('mut', ip.path + (n.id,), 0, x[1]))
        return [(s, r)]
    return None


def run(tier):
    ck = Check('R01', 'other', 'symbolic path summaries of every transfer routine: buffer, count and type of each MPI call against the node layout; error-code, copy-out and collective-order obligations on every path', tier)
    pr = P.load(lambda r: r in ('relay/conduit_relay_mpi.cpp',))
    n = 0
    for f in sorted(pr.funcs.values(), key=lambda f: (f.file, f.line)):
        if not f.file.endswith('conduit_relay_mpi.cpp') or f.body is None or not f.qn.startswith(NM) or 'TagLimits' in f.qn or 'HandleMPI' in f.qn:
            continue
        if f.qn not in KNOWN:
            continue
        if f.name in ('rank', 'size') or not any(x.k == 'Call' and x.d[0] is not None and x.d[0]['qn'].startswith('MPI_') for x in f.body.walk()) and not via(pr, f):
            continue
        n += 1
        one(ck, pr, f)
    ck.count('routines', n)
    ck.floor('routines', n, 8)
    tables(ck, pr)
    helpers(ck, pr)
    oplist(ck, pr)
    who(ck, pr)
    return ck


def via(pr, f):
    """reaches an MPI call through a helper that is not part of the known interface"""
    seen, todo = set(), [f]
    while todo:
        g = todo.pop()
        for x in g.body.walk():
            if x.k == 'Call' and x.d[0] is not None:
                if x.d[0]['qn'].startswith('MPI_') and g is not f:
                    return True
                h = pr.funcs.get(x.d[0]['usr'])
                if h is not None and h.body is not None and h.qn not in KNOWN and h.usr not in seen and h.qn.startswith('conduit::'):
                    seen.add(h.usr)
                    todo.append(h)
    return False


def one(ck, pr, f):
    dom = MD(inliner(pr, (), skip=(NM + 'safe_tag', NM + 'invalid_tag')), events=events,
             pure=lambda r: r.get('const') or r['qn'].startswith('std::vector') or r['qn'] in (NM + 'rank', NM + 'size', NM + 'conduit_dtype_to_mpi_dtype', NM + 'safe_tag') or r['qn'].startswith(DT) or r['qn'] in (ND + 'contiguous_data_ptr', ND + 'data_ptr', ND + 'element_ptr', ND + 'schema', ND + 'dtype', SC + 'dtype'))
    try:
        ps, ip = paths(pr, f, dom)
    except Exception as ex:
        ck.notes.append('%s: %s' % (f.qn, ex))
        return
    key = '%s/%d' % (f.name, len(f.params))
    msgs, n = set(), 0
    seqs = {}
    for p in ps:
        for e in p.ev:
            if e[0] == 'BAD':
                msgs.add(e[1:])
        if p.kind != 'return':
            continue
        n += 1
        for e in p.ev:
            if e[0] == 'pend':
                msgs.add(('data received in the buffer of the request is not copied to the node', f.line))
            if e[0] == 'keep':
                msgs.add(('the request keeps pointing to the node after it completed', f.line))
            if e[0] == 'mpi':
                msgs.add(('the result of %s is not checked' % e[1][1], e[2]))
        for e in p.ev:
            if e[0] == 'into':
                w = copied(f, p, e)
                if w:
                    msgs.add((w, e[3]))
        for w, l in encode(p) + decode(p) + request(f, p) + waits(f, p, ip) + gatherv(p, ip) + queued(f, p, ip) + passed(f, p):
            if w[0] != '?':
                msgs.add((w, l or f.line))
            elif w not in ck.notes:
                ck.notes.append(f.qn + ' ' + w)
        sq = next(e for e in p.ev if e[0] == 'seq')[1]
        seqs.setdefault(sq, p)
    if f.name == 'execute_internal' and any(e[0] == 'opx' and e[1] == 'MPI_Isend' for p in ps for e in p.ev) and not any(e[0] == 'del' for p in ps for e in p.ev):
        msgs.add(('the message buffers are not released', f.line))
    if len(seqs) > 1:
        msgs.add(('ranks can take paths with different sequences of collective calls: %s' % ' / '.join('[%s]' % ', '.join(c[0] for c in q) for q in sorted(seqs, key=repr)), f.line))
    for m, l in sorted(msgs):
        ck.bad(key + ':' + m[:50], f.file, l, '%s: %s' % (f.qn, m))
    if not msgs and n:
        ck.ok(n, key)
        ck.count('paths', n)
    return ps


def copied(f, p, e):
    """the received data reaches the node of the caller"""
    X, q, line = e[1:]
    if q == 'MPI_Irecv' or X[0] == 'bytes':
        return None
    if not isnode(X):
        return None
    Y = src(X[1]) if X[0] == 'listof' else src(X)
    if Y[0] not in ('p', 'gen'):
        return None
    for loc, v in p.env.items():
        if v == X and loc[0] == '*' and loc[1][0] == 'p':
            return None
    for u in p.ev:
        if u[0] == 'upd' and u[2] == X:
            t = u[1]
            if t[0] == 'p':
                return None
    return 'what %s receives is not copied to the node of the caller' % q


def encode(p):
    """the message of *_using_schema: length, schema text, data, in this order"""
    out = []
    par = {}
    for e in p.ev:
        if e[0] == 'kidset' and e[1][2][0] == 'c':
            par.setdefault(e[1][1], []).append(e)
    for loc, es in par.items():
        names = {e[1][2][1]: e for e in es}
        if not {'schema', 'data'} <= set(names):
            continue
        sc = bare(names['schema'][2])
        if names['schema'][4]:
            order = [e[1][2][1] for e in sorted(es, key=lambda e: e[3])]
            if order != ['schema_len', 'schema', 'data']:
                out.append(('the parts of the message are laid out as %s' % ', '.join(map(str, order)), None))
            if sc[0] != 'call' or not sc[1].startswith(DT):
                continue
            if sc[1] != DT + 'char8_str':
                out.append(('the schema text is laid out as %s' % show(sc), None))
            else:
                c = strip(sc[2][0])
                l = lin(c)
                js = [k for k in l if k and k[0][0] == 'call' and k[0][1].split('::')[-1] in ('size', 'length')]
                if js and (l.get((), 0) != 1 or len(l) != 2):
                    out.append(('the schema text gets room for %s characters instead of its length and the terminator' % show(canon(c)), None))
            if 'schema_len' in names:
                h = bare(names['schema_len'][2])
                if h[0] == 'call' and h[1].startswith(DT) and h[1] not in (DT + 'int64', DT + 'c_long', DT + 'c_long_long'):
                    out.append(('the length is laid out as %s, the receiver skips 8 bytes' % show(h), None))
        else:
            d = names['data'][2]
            if sc[0] == 'call' and sc[1] == SC + 'to_json' and d[0] == 'update':
                if src(sc[2][0]) != src(d[1]) and not (unknown(sc) and unknown(d[1])):
                    if bare(src(sc[2][0])) != bare(d[1]):
                        out.append(('the schema sent is not that of the data sent', None))
    return out


def decode(p):
    out = []
    par = {}
    for e in p.ev:
        if e[0] == 'ext' and e[1][2][0] == 'c':
            par.setdefault(e[1][1], {})[e[1][2][1]] = e[2]
    for loc, d in par.items():
        if not {'schema', 'data'} <= set(d):
            continue
        s, x = d['schema'][0], d['data']
        b = d.get('schema_len', (None,))[0]
        K = ('kid', loc, ('c', 'schema'))
        ptr = x[-1]
        if len(x) != 2 or x[0][0] != 'gen':
            out.append(('the data is not described by the schema received', None))
            continue
        diff = lin(('op', '-', ptr, s))
        ok = len(diff) == 1 and list(diff.values()) == [1] and () not in diff
        k = list(diff)[0][0] if ok and len(list(diff)[0]) == 1 else None
        if not (k and k[0] == 'call' and k[1].startswith(ND) and k[1].split('::')[-1] in ('total_bytes_compact', 'total_strided_bytes') and bare(k[2][0]) == K):
            if not any(unknown(m) for kk in diff for m in kk if isinstance(m, tuple)):
                out.append(('the data is not read from where the schema text ends: %s past its start' % show(canon(('op', '-', ptr, s))), None))
        if b is not None:
            o = lin(('op', '-', s, b))
            if o != {(): 8}:
                if set(o) <= {()}:
                    out.append(('the schema text is read %s bytes past the start of the message' % o.get((), 0), None))
        u = [e for e in p.ev if e[0] == 'upd' and e[2] == ('kid', loc, ('c', 'data'))]
        if any('MPI_Irecv' in e[4] and not e[4] & {'MPI_Wait', 'MPI_Waitall'} for e in u):
            out.append(('the message is read before its transfer is complete', None))
        if not u:
            out.append(('the data received is not copied to the node of the caller', None))
    return out


def flds(p):
    return {e[1]: e[2] for e in p.ev if e[0] == 'fldset'}


def request(f, p):
    """isend / irecv leave in the request what wait needs"""
    out = []
    for e in p.ev:
        if e[0] != 'args' or e[1] not in ('MPI_Isend', 'MPI_Irecv') or not any('Request' in x[2] for x in f.params):
            continue
        i = next(i for i, x in enumerate(f.params) if 'Request' in x[2])
        R = ('p', f.params[i][0], i)
        a = bare(e[2][-1])
        if a[0] == 'fld' and a != ('fld', R, 'm_request') and a[:2] == ('fld', R):
            out.append(('the MPI request is not stored in the request', e[3]))
        X = buffer(p.st, e[2][0])[1]
        v = [w for k, w in flds(p).items() if k[0] == 'fld' and bare(k[1]) == R and k[2] == 'm_rcv_ptr']
        if X is None or not v:
            if X is not None and not unknown(X):
                out.append(('m_rcv_ptr is not set: wait could copy to the node of an earlier request', e[3]))
            continue
        v = strip(v[0])
        null = v in (('c', None), ('c', 0))
        if e[1] == 'MPI_Irecv' and isnode(X):
            n = src(X)
            if null or bare(v) != n:
                out.append(('what is received in the buffer of the request will not be copied to the node', e[3]))
            m = p.env.get(('*', ('fld', R, 'm_buffer')))
            if m != X:
                out.append(('data is received into a buffer that does not live until wait', e[3]))
        elif e[1] == 'MPI_Isend' and isnode(X):
            if p.env.get(('*', ('fld', R, 'm_buffer'))) != X:
                out.append(('the data sent is in a buffer that does not live until wait', e[3]))
            if not null:
                out.append(('a send request would be copied out as a receive', e[3]))
        elif not null:
            out.append(('wait would overwrite the node with an old buffer', e[3]))
    return out


def waits(f, p, ip):
    if f.name not in ('wait', 'wait_all'):
        return []
    out = []
    q = 'MPI_Wait' if f.name == 'wait' else 'MPI_Waitall'
    ri = next((i for i, x in enumerate(f.params) if 'Request' in x[2]), None)
    if ri is None:
        return [('?request', None)]
    R = ('p', f.params[ri][0], ri)
    if ('called', q) not in p.ev:
        if f.name == 'wait':
            return [('returns without waiting', None)]
        return []
    rcv = lambda k: k[0] == 'fld' and k[2] == 'm_rcv_ptr' and mentions(k, lambda x: x == R)
    el = None
    if f.name == 'wait':
        base = {R}
    for e in p.ev:
        if e[0] == 'upd':
            if q not in e[4]:
                out.append(('data is copied out before the transfer is complete', None))
            t = e[1]
            if t[0] == 'fld' and t[2] == 'm_rcv_ptr' and e[3] is not None and e[3] != ('fld', bare(t[1]), 'm_buffer') and e[3][:1] == ('fld',):
                out.append(('another buffer is copied to the node', None))
            if e[2][:2] == ('u', 'reset'):
                out.append(('the buffer is reset before it is copied out', None))
    if f.name == 'wait':
        has = None
        for t, b in p.facts.items():
            x = strip(t)
            if bare(x) == ('fld', R, 'm_rcv_ptr'):
                has = b
            elif x[0] == 'op' and x[1] == '==' and ('fld', R, 'm_rcv_ptr') in (bare(x[2]), bare(x[3])):
                has = not b
        up = [e for e in p.ev if e[0] == 'upd' and e[1] == ('fld', R, 'm_rcv_ptr')]
        if has is not False and not up:
            out.append(('data received in the buffer of the request is not copied to the node', None))
        v = p.env.get(('*', ('fld', R, 'm_rcv_ptr')))
        if has is not False and v not in (('c', None), ('c', 0)):
            out.append(('the request keeps pointing to the node after it completed', None))
        if not any(e[0] == 'reset' and e[1] == ('fld', R, 'm_buffer') for e in p.ev):
            out.append(('the buffer of the request is not released', None))
        a = next(e for e in p.ev if e[0] == 'args' and e[1] == q)
        if bare(a[2][0]) != ('fld', R, 'm_request'):
            out.append(('it does not wait for the request given', None))
        return out
    cnt = ('p', f.params[0][0], 0)
    a = next(e for e in p.ev if e[0] == 'args' and e[1] == q)
    if bare(a[2][0]) != cnt and not unknown(a[2][0]):
        out.append(('it waits for %s requests' % show(a[2][0]), None))
    J = bare(a[2][1])
    # every request is handed to MPI and written back
    st = [e for e in p.ev if e[0] == 'arr' and e[1] == J]
    if st:
        for e in st:
            w = covers2(ip, p, e[2], cnt)
            if w:
                out.append((w if w[0] == '?' else 'not every request is waited for: ' + w, e[4]))
            v = e[3]
            if v[0] == 'fld' and v[2] == 'm_request':
                b = bare(v[1])
                if b[0] == 'idx' and strip(b[2]) != e[2]:
                    out.append(('the requests are handed over in another order', e[4]))
    seen = set()
    for k, v in flds(p).items():
        if k[0] == 'fld' and bare(k[1])[0] == 'idx' and bare(bare(k[1])[1]) == R:
            w = covers2(ip, p, strip(bare(k[1])[2]), cnt)
            if w and w[0] != '?':
                out.append(('%s is not updated in every request: %s' % (k[2], w), None))
            if k[2] == 'm_request':
                seen.add('req')
                lv = strip(v)
                if lv[0] == 'ld' and lin(lv[2]) != lin(('op', '+', J, ('op', '*', bare(k[1])[2], ('c', 8)))) and mentions(lv[2], lambda x: bare(x) == J):
                    out.append(('a request gets the handle of another', None))
    entered = any(t[0] == 'op' and t[1] == '<' and b and bare(t[3]) == cnt for t, b in p.facts.items()) or any(e[0] == 'reset' for e in p.ev)
    for e in p.ev:
        if e[0] == 'reset' and e[1][0] == 'fld':
            b = bare(e[1][1])
            if b[0] == 'idx':
                w = covers2(ip, p, strip(b[2]), cnt)
                if w and w[0] != '?':
                    out.append(('not every request is completed: ' + w, e[2]))
    return out


def covers2(ip, p, i, cnt):
    from loopcov import covers
    return covers(ip, p, i, cnt)


def gatherv(p, ip):
    """counts and displacements describe consecutive pieces, each as long as its sender says"""
    out = []
    lay = {}
    for e in p.ev:
        if e[0] == 'kidset' and e[1][2][0] == 'c' and e[2][0] == 'call' and e[2][1].startswith(DT):
            lay.setdefault(e[1][1], []).append((e[3], e[1][2][1]))
    snd = next((bare(e[2][0]) for e in p.ev if e[0] == 'args' and e[1] in ('MPI_Gather', 'MPI_Allgather') and bare(e[2][0])[0] == 'list'), None)
    for e in p.ev:
        if e[0] != 'args' or e[1] not in ('MPI_Gatherv', 'MPI_Allgatherv'):
            continue
        cn, dp = bare(e[2][4]), bare(e[2][5])
        cs = [x for x in p.ev if x[0] == 'arr' and x[1] == cn]
        ds = [x for x in p.ev if x[0] == 'arr' and x[1] == dp]
        if bool(cs) != bool(ds) and cn != dp and all(x[0] == 'call' for x in (cn, dp)):
            out.append(('the %s are never stored' % ('displacements' if cs else 'counts'), e[3]))
        out += pieces(p, bare(e[2][3]), cn, dp, e[3])
        if not cs or not ds or cn == dp:
            if cn == dp and cn[0] != 'c':
                out.append(('counts are used as displacements', e[3]))
            continue
        c, d = cs[0], ds[0]
        if c[2] != d[2]:
            out.append(('a displacement is stored for another rank than its count', e[3]))
        v = strip(d[3])
        if v[0] == 'it':
            for st in ip.starts.get(v, ()):
                if lin(st) not in (lin(('c', 0)), lin(('op', '+', v, c[3]))):
                    out.append(('displacements do not advance by the counts: %s' % show(st), d[4]))
        elif not unknown(v):
            out.append(('displacements do not advance by the counts', d[4]))
        i = strip(c[2])
        if i[0] == 'it':
            if not ip.counts_up(i, ('c', 0)):
                out.append(('the counts are not stored for rank 0, 1, ...', c[4]))
        name = None

        def nm(x):
            nonlocal name
            if x[0] == 'kid' and x[2][0] == 'c':
                name = x[2][1]
            return False
        mentions(c[3], nm)
        order = next(([k for _, k in sorted(v)] for v in lay.values() if name in [k for _, k in v]), None)
        if name and order and snd:
            k = order.index(name)
            if k + 1 < len(snd) and canon(snd[1 + k]) != canon(e[2][1]):
                out.append(('the count announced as %s is not the count sent' % name, e[3]))
        elif not name:
            out.append(('?counts', e[3]))
    return out


def pieces(p, buf, cn, dp, line):
    """schemas gathered as text are parsed where their displacement says"""
    out = []
    if buf[0] == 'c':
        return out
    for e in p.ev:
        if e[0] != 'kidset' or not e[4]:
            continue
        l = lin(e[2])
        if (buf,) not in l and not any(len(k) == 1 and bare(k[0]) == buf for k in l):
            a = bare(e[2])
            if a[0] == 'idx':
                a = ('addr', a)
            if a[0] == 'addr' and bare(a[1])[0] == 'idx' and bare(bare(a[1])[1]) == buf:
                l = {k: v for k, v in lin(bare(a[1])[2]).items()}
            else:
                continue
        else:
            l = {k: v for k, v in l.items() if not (len(k) == 1 and bare(k[0]) == buf)}
        ks = [k[0] for k in l if len(k) == 1]
        if len(l) == 1 and len(ks) == 1:
            d = bare(ks[0])
            if d[0] == 'ld':
                b = lin(d[2])
                if any(len(k) == 1 and canon(bare(k[0])) == canon(cn) for k in b) and cn != dp:
                    out.append(('a schema is parsed at the count of its rank instead of its displacement', line))
    return out


def queued(f, p, ip):
    """operations kept in a list: peer, tag and request of each transfer belong to the same entry, and all are waited for"""
    out = []

    def at(t):
        r = []

        def v(x):
            if x[0] == 'call' and x[1].startswith('std::vector') and x[1].endswith('operator[]'):
                r.append((bare(x[2][0]), strip(x[2][1])))
            return False
        mentions(t, v)
        return r
    req = None
    for e in p.ev:
        if e[0] == 'args' and e[1] in ('MPI_Isend', 'MPI_Irecv'):
            peer, tag, rq = e[2][3], e[2][4], e[2][6]
            ix = {i for t in (peer, tag, rq) for _, i in at(t)}
            if at(peer) and at(rq) and len(ix) > 1:
                out.append(('%s mixes entries of the list of operations' % e[1], e[3]))
            b = bare(peer)
            if at(peer) and b[0] == 'fld' and b[2] != 'rank':
                out.append(('%s is addressed to %s' % (e[1], b[2]), e[3]))
            tg = bare(tag)
            if tg[0] == 'call' and tg[1].endswith('safe_tag'):
                tg = bare(tg[2][0])
            if at(tag) and tg[0] == 'fld' and tg[2] != 'tag':
                out.append(('%s uses tag %s' % (e[1], tg[2]), e[3]))
            if at(rq):
                req = at(rq)[0]
                i = req[1]
                if i[0] == 'it' and not ip.counts_up(i, ('c', 0)):
                    out.append(('not every operation is carried out', e[3]))
    out += entries(p)
    if req:
        w = [e for e in p.ev if e[0] == 'args' and e[1] == 'MPI_Waitall']
        if not w:
            out.append(('the transfers started are not waited for', None))
        for e in w:
            c = bare(e[2][0])
            if not (c[0] == 'call' and c[1].split('::')[-1] == 'size') and not unknown(c):
                out.append(('only %s transfers are waited for' % show(c), e[3]))
            a = at(e[2][1])
            if a and canon(a[0][1]) != ('c', 0):
                out.append(('not every transfer is waited for', e[3]))
    return out


def entries(p):
    """buffer, status, node and kind of each operation belong to the entry whose transfer it is"""
    out = []
    SEND, RECV = 1, 2

    def ix(t):
        r = set()

        def v(x):
            if x[0] == 'call' and x[1].startswith('std::vector') and x[1].endswith('operator[]'):
                r.add(strip(x[2][1]))
            return False
        mentions(t, v)
        return r

    def kind(fs, i, k, what, l):
        for j, c, b in fs:
            if j != i and not unknown(j):
                out.append(('%s: the kind of another operation decides' % what, l))
            elif j == i and (c == k) != b:
                out.append(('%s: for an operation that is not %s' % (what, 'a send' if k == SEND else 'a receive'), l))
    ops = [e for e in p.ev if e[0] == 'opx' and e[1] in ('MPI_Isend', 'MPI_Irecv') and len(ix(e[2][6])) == 1 and ix(e[2][3])]
    for e in ops:
        i = list(ix(e[2][6]))[0]
        kind(e[3], i, SEND if e[1] == 'MPI_Isend' else RECV, e[1], e[4])
        t = bare(e[2][0])
        if t[0] == 'call' and t[1] == ND + 'data_ptr':
            w = bare(t[2][0])
            while w[0] in ('deref', 'addr'):
                w = bare(w[1])
            if w[0] == 'call' and w[1] == '<new>':
                st = [(x[1], x[2]) for x in p.ev if x[0] == 'arr' and x[1][0] == 'fld' and x[1][2] == 'node' and x[3] == w]
                if not st:
                    out.append(('%s: the buffer is not kept until the transfer is complete' % e[1], e[4]))
                for b, k in st:
                    if ix(b) and ix(b) != {i}:
                        out.append(('%s: the buffer is kept in another entry' % e[1], e[4]))
                    fr = [x for x in p.ev if x[0] == 'arr' and x[1] == ('fld', b[1], 'free') and x[2] == k]
                    if not any(x[3] in (('c', True), ('c', 1)) for x in fr):
                        out.append(('%s: the buffer will never be released' % e[1], e[4]))
                    if strip(k) == ('c', 0):
                        out.append(('%s: the node of the caller is replaced by the buffer' % e[1], e[4]))
                if e[1] == 'MPI_Isend':
                    for x in p.ev:
                        if x[0] == 'kidset' and x[1][2] == ('c', 'data') and x[2][0] == 'update':
                            sl = slot(x[2][1])
                            if sl and (sl[0] != i or sl[1:] != ('node', 0)):
                                out.append(('the message is made of the node of another entry', e[4]))
        if e[1] == 'MPI_Irecv':
            for x in p.ev:
                if x[0] == 'opx' and x[1] == 'MPI_Probe' and ix(x[2][0]):
                    if not (x[2][0] == e[2][3] and x[2][1] == e[2][4] and x[2][2] == e[2][5]):
                        out.append(('the message probed for is not the one received', x[4]))
            c = bare(e[2][1])
            g = [x for x in p.ev if x[0] == 'getcount' and ('count', x[2]) == c]
            pb = [x for x in p.ev if x[0] == 'opx' and x[1] == 'MPI_Probe']
            if g and pb and not any(bare(x[2][3]) == g[0][1] for x in pb):
                out.append(('the size received is not that of the message probed', g[0][3]))
    for e in p.ev:
        if e[0] != 'opupd':
            continue
        i, fld, k = e[1]
        kind(e[2], i, RECV, 'update', e[3])
        if (fld, k) != ('node', 0):
            out.append(('what is received is not copied to the node given', e[3]))
        for x in p.ev:
            if x[0] == 'ext' and x[1][2] == ('c', 'schema_len'):
                j = ix(x[2][0])
                if j and j != {i}:
                    out.append(('a node gets the message of another operation', e[3]))
    return out


class CL(Sum):
    """clear() / add_*: deletes, and what is appended"""
    iters = True

    def init(self):
        return frozenset()

    def on_delete(self, ip, s, n, v):
        fr = set()
        for k, b in s.facts.items():
            sl = slot(strip(k))
            if sl and sl[1] == 'free':
                fr.add((sl[0], sl[2], b))
        return [(s.withdom(s.dom | {('del', slot(v), frozenset(fr), n.line)}), ('u', 'void'))]

    def on_branch(self, ip, s, term, b):
        sl = slot(strip(term))
        if sl and sl[1] == 'free' and b:
            s = s.withdom(s.dom | {('own', sl[0], sl[2])})
        return s


def clev(ip, s, n, ref, obj, args, locs):
    if ref['qn'].startswith('std::vector') and obj is not None:
        o = bare(obj)
        if o[0] == 'fld' and o[2] == 'operations':
            if ref['name'] == 'clear':
                return [(s.withdom(s.dom | {('cleared',)}), ('u', 'void'))]
            if ref['name'] in ('push_back', 'emplace_back') and len(args) == 1:
                L = locs[1][0] if locs and locs[1] else None
                c = [e for e in s.dom if e[0] == 'push']
                return [(s.withdom(s.dom | {('push', len(c), L, args[0], n.line)}), ('u', 'void'))]
    if ref['qn'] == NM + 'invalid_tag':
        return [(s, ('call', NM + 'invalid_tag', tuple(args), ()))]
    return None


def oplist(ck, pr):
    U = NM + 'communicate_using_schema::'
    pure = lambda r: r.get('const') or r['qn'].startswith('std::vector')
    for f in sorted(pr.funcs.values(), key=lambda f: f.line):
        if f.body is None or f.qn not in (U + 'clear', U + 'add_isend', U + 'add_irecv'):
            continue
        ps, ip = paths(pr, f, CL(inliner(pr, (), skip=(NM + 'safe_tag', NM + 'invalid_tag')), events=clev, pure=pure))
        msgs = set()
        if f.name == 'clear':
            rel = set()
            for p in ps:
                if p.kind != 'return':
                    continue
                for e in p.ev:
                    if e[0] != 'del' or e[1] is None:
                        continue
                    i, fld, k = e[1]
                    if (i, k, True) not in e[2]:
                        msgs.add(('node %s of an operation is deleted without knowing that the list owns it' % k, e[3]))
                    rel.add(k)
                for e in p.ev:
                    if e[0] == 'own' and not any(d[0] == 'del' and d[1] is not None and d[1][0] == e[1] and d[1][2] == e[2] for d in p.ev):
                        msgs.add(('a buffer the list owns is not deleted', f.line))
                if ('cleared',) not in p.ev:
                    msgs.add(('the operations stay in the list: a second execute would repeat them', f.line))
            if not any(e[0] in ('del', 'own') and (e[1] is None or e[1][2:] == (1,) or e[0] == 'own' and e[2] == 1) for p in ps for e in p.ev):
                msgs.add(('the message buffers are never deleted', f.line))
        else:
            P0, P1, P2 = [('p', f.params[i][0], i) for i in range(3)]
            tg = C(NM + 'invalid_tag', P2)
            for p in ps:
                inv = next((b for k, b in p.facts.items() if strip(k)[:2] == tg[:2] and bare(strip(k)[2][0]) == P2), None)
                if p.kind == 'throw' and inv is False:
                    msgs.add(('a valid tag is refused', f.line))
                if p.kind != 'return':
                    continue
                if inv is None:
                    msgs.add(('the tag is not checked', f.line))
                if inv is True:
                    msgs.add(('an invalid tag is accepted', f.line))
                    continue
                pu = [e for e in p.ev if e[0] == 'push']
                if len(pu) != 1:
                    msgs.add(('%d operations are added' % len(pu), f.line))
                    continue
                L = pu[0][2]
                if L is None:
                    continue
                get = lambda n: p.env.get(('*', ('fld', L, n)))
                arr = lambda n, k: p.env.get(('*', ('idx', ('fld', L, n), ('c', k))))
                want = [('op', get('op'), lambda v: strip(v) == ('c', 1 if f.name == 'add_isend' else 2)), ('rank', get('rank'), lambda v: bare(v) == P1), ('tag', get('tag'), lambda v: bare(v) == P2),
                        ('node[0]', arr('node', 0), lambda v: unaddr(v) == P0), ('free[0]', arr('free', 0), lambda v: strip(v) in (('c', False), ('c', 0))), ('free[1]', arr('free', 1), lambda v: strip(v) in (('c', False), ('c', 0)))]
                if all(v is None for _, v, _ in want):
                    continue
                for nm, v, ok in want:
                    if v is None:
                        if any(x.k in ('For', 'While', 'Do', 'RangeFor', 'InitList', 'ForRange') for x in f.body.walk()) or p.env.get(L, ('u',))[0] not in ('u', 'call'):
                            continue
                        msgs.add(('%s of the operation is not set' % nm, f.line))
                    elif not ok(v) and not unknown(v):
                        msgs.add(('%s of the operation is %s' % (nm, show(strip(v))), f.line))
        for m, l in sorted(msgs):
            ck.bad('list/%s:%s' % (f.name, m[:40]), f.file, l, '%s: %s' % (f.qn, m))
        if not msgs:
            ck.ok(len(ps), 'list/' + f.name)


def unaddr(v):
    v = bare(v)
    while v[0] in ('addr', 'deref'):
        v = bare(v[1])
    return v


def who(ck, pr):
    """rank() and size() are about the communicator given"""
    for f in pr.funcs.values():
        if f.body is None or f.qn not in (NM + 'rank', NM + 'size') or len(f.params) != 1:
            continue
        want = 'MPI_Comm_' + f.name
        got = []

        def ev(ip, s, n, ref, obj, args, locs):
            if ref['qn'] in ('MPI_Comm_rank', 'MPI_Comm_size'):
                l = bare(args[1])
                if l[0] == 'locaddr':
                    s = s.set(l[1], ('got', ref['qn'], bare(args[0])))
                return [(s, ('c', 0))]
            return None
        ps, ip = paths(pr, f, Sum(inliner(pr, ()), events=ev, pure=lambda r: True))
        for p in ps:
            if p.kind == 'return' and p.val is not None:
                v = bare(p.val)
                if v[0] == 'got' and (v[1] != want or v[2] != ('p', f.params[0][0], 0)):
                    ck.bad('who:' + f.name, f.file, f.line, '%s: returns %s of %s' % (f.qn, v[1], show(v[2])))
                elif v[0] == 'got':
                    ck.ok(1, 'who')


def passed(f, p):
    """destination, tag, root, operation and communicator are those of the caller"""
    out = []
    byn = {x[0]: ('p', x[0], i) for i, x in enumerate(f.params)}
    for e in p.ev:
        if e[0] != 'pass':
            continue
        vs = e[2]
        C_ = next((byn[k] for k in byn if 'omm' in k), None)
        if C_ is not None and vs[-1] != C_ and vs[-1][0] in ('p', 'glob', 'c'):
            out.append(('%s uses communicator %s' % (e[1], show(vs[-1])), e[3]))
        if 'root' in byn and e[1] in ('MPI_Reduce', 'MPI_Gather', 'MPI_Gatherv', 'MPI_Bcast') and vs[-2] != byn['root'] and not unknown(vs[-2]):
            out.append(('%s has root %s' % (e[1], show(vs[-2])), e[3]))
        peer = byn.get('dest') or byn.get('src')
        if e[1] in ('MPI_Send', 'MPI_Isend', 'MPI_Recv', 'MPI_Irecv') and peer and vs[0] != peer and vs[0][0] in ('p', 'c'):
            out.append(('%s is addressed to %s' % (e[1], show(vs[0])), e[3]))
        if e[1] in ('MPI_Send', 'MPI_Isend', 'MPI_Recv', 'MPI_Irecv') and 'tag' in byn:
            t = vs[1]
            if t != byn['tag'] and not (t[0] == 'call' and t[1].endswith('safe_tag') and bare(t[2][0]) == byn['tag']) and t[0] in ('p', 'c', 'call', 'lin', 'op') and not (t[0] == 'call' and t[1] not in (NM + 'safe_tag',)):
                out.append(('%s has tag %s' % (e[1], show(t)), e[3]))
        if e[1] in ('MPI_Reduce', 'MPI_Allreduce'):
            op = next((byn[k] for k in byn if k.endswith('op')), None)
            if op is not None and vs[0] != op and not unknown(vs[0]):
                out.append(('%s uses another operation' % e[1], e[3]))
    return out


MPIK = {'int8_t': 'int8', 'int16_t': 'int16', 'int32_t': 'int32', 'int64_t': 'int64', 'uint8_t': 'uint8', 'uint16_t': 'uint16', 'uint32_t': 'uint32', 'uint64_t': 'uint64',
        'char': 'char8_str', 'signed_char': 'int8', 'short': 'int16', 'int': 'int32', 'long': 'int64', 'long_long': 'int64', 'long_long_int': 'int64', 'byte': 'uint8', 'unsigned_char': 'uint8',
        'unsigned_short': 'uint16', 'unsigned': 'uint32', 'unsigned_long': 'uint64', 'unsigned_long_long': 'uint64', 'float': 'float32', 'double': 'float64'}


def gname(t):
    t = bare(t)
    if t[0] == 'glob':
        n = t[1].split('::')[-1]
        return n[9:] if n.startswith('ompi_mpi_') else n
    return None


def tables(ck, pr):
    fs = {f.qn: f for f in pr.funcs.values() if f.body is not None}
    f, g = fs.get(NM + 'conduit_dtype_to_mpi_dtype'), fs.get(NM + 'mpi_dtype_to_conduit_dtype_id')
    if f is None or g is None:
        ck.notes.append('type tables not found')
        return
    pure = lambda r: True
    ps, _ = paths(pr, f, Sum(inliner(pr, ()), pure=pure))
    gs, _ = paths(pr, g, Sum(inliner(pr, ()), pure=pure))
    idt = C(DT + 'id', ('p', f.params[0][0], 0))

    def fwd(k):
        r = set()
        for p in ps:
            if p.kind == 'return' and feasible(p, {idt: ID[k]}):
                r.add(gname(p.val))
        return r

    def back(nm):
        r = set()
        for p in gs:
            ok = p.kind == 'return'
            for t, b in p.facts.items():
                if t[0] == 'op' and t[1] == '==':
                    o = gname(t[3]) or gname(t[2])
                    if o is None:
                        continue
                    if (o == nm) != b:
                        ok = False
            if ok:
                r.add(val(p.val, {}))
        return r
    for k in NUM + ('char8_str',):
        r = fwd(k)
        if len(r) != 1 or None in r:
            ck.notes.append('conduit_dtype_to_mpi_dtype: %s not resolved' % k)
            continue
        nm = list(r)[0]
        kk = MPIK.get(nm)
        if kk != k:
            ck.bad('to_mpi:' + k, f.file, f.line, '%s: %s is sent as MPI type %s' % (f.qn, k, nm))
        else:
            ck.ok(1, 'to_mpi')
        b = back(nm)
        if len(b) == 1 and None not in b:
            if list(b)[0] != ID[k]:
                ck.bad('roundtrip:' + k, g.file, g.line, '%s: MPI type %s of %s comes back as %s' % (g.qn, nm, k, KIND.get(list(b)[0])))
            else:
                ck.ok(1, 'roundtrip')
    for k in ('empty', 'object', 'list'):
        r = fwd(k)
        if r and not r <= {None, 'datatype_null'} and len(r) == 1:
            ck.bad('to_mpi:' + k, f.file, f.line, '%s: %s, which is no leaf type, is sent as %s' % (f.qn, k, list(r)[0]))
    for nm, k in sorted(MPIK.items()):
        b = back(nm)
        if len(b) == 1 and None not in b and list(b)[0] != 0:
            if list(b)[0] != ID[k]:
                ck.bad('from_mpi:' + nm, g.file, g.line, '%s: MPI type %s is taken for %s' % (g.qn, nm, KIND.get(list(b)[0])))
            else:
                ck.ok(1, 'from_mpi')


def helpers(ck, pr):
    for f in sorted(pr.funcs.values(), key=lambda f: f.line):
        if f.body is None or not f.qn.startswith(NM) or f.qn.count('::') != 3:
            continue
        m = f.name
        want = None
        for o in ('sum', 'min', 'max', 'prod'):
            if m.startswith(o + '_') and m.endswith('reduce'):
                want = (m[len(o) + 1:], o)
        if m in ('wait_send', 'wait_recv'):
            want = ('wait', None)
        if m in ('wait_all_send', 'wait_all_recv'):
            want = ('wait_all', None)
        if want is None:
            continue

        def ev(ip, s, n, ref, obj, args, locs):
            if ref['qn'].startswith(NM) and (ref['qn'].endswith('reduce') or ref['name'].startswith('wait')):
                return [(s.withdom(s.dom | {('call', ref['name'], tuple(bare(a) for a in args))}), ('u', 'r'))]
            return None

        class D(Sum):
            def init(self):
                return frozenset()
        ps, ip = paths(pr, f, D(inliner(pr, ()), events=ev, pure=lambda r: True))
        why = None
        for p in ps:
            if p.kind != 'return':
                continue
            c = [e for e in p.ev if e[0] == 'call']
            if len(c) != 1:
                why = why or '?'
                continue
            if c[0][1] != want[0]:
                if c[0][1] in ('reduce', 'all_reduce', 'wait', 'wait_all'):
                    why = why or 'calls %s' % c[0][1]
                continue
            a = list(c[0][2])
            if want[1]:
                op = gname(a.pop(2))
                if op and op.replace('op_', '') != want[1] and op.split('_')[-1] != want[1]:
                    why = why or 'reduces with %s' % op
            ex = [('p', x[0], i) for i, x in enumerate(f.params)]
            if a != ex and not any(unknown(x) for x in a):
                why = why or 'does not pass on its arguments'
        if why and why[0] != '?':
            ck.bad('helper:' + m, f.file, f.line, '%s: %s' % (f.qn, why))
        elif not why:
            ck.ok(1, 'helper')
