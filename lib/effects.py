"""Effects of the setter families: every setter is reduced, by inlining the overloads it
forwards to, to primitive effects on one node (init / release / schema set / data pointer
/ copy), which are compared with what its name and parameter types prescribe."""
from summ import *

ND = 'conduit::Node::'
SC = 'conduit::Schema::'
PURE_STD = ('size', 'length', 'begin', 'end', 'c_str', 'data', 'operator[]', 'empty', 'at')
PRIM = {ND + 'init', ND + 'release', ND + 'reset', ND + 'allocate', ND + 'walk_schema', ND + 'mirror_node', ND + 'cleanup',
        ND + 'set_node', ND + 'set_external_node', ND + 'set_schema', ND + 'set_data_using_schema', ND + 'set_external_data_using_schema'}
COPY = {'conduit::utils::conduit_memcpy': 'memcpy', 'conduit::utils::conduit_memcpy_strided_elements': 'strided', 'conduit::utils::conduit_memset': 'memset',
        'memcpy': 'memcpy', 'memset': 'memset', 'std::memcpy': 'memcpy'}


def base(t):
    """the node a term denotes: pointers and addresses of it dropped"""
    t = strip(t)
    while t[0] in ('addr', 'deref'):
        t = strip(t[1])
    return t


def resolve(t, s, depth=0, frozen=False):
    """replace local objects by what they were initialised with, and project fields of constructed descriptors and arrays"""
    if not isinstance(t, tuple) or not t or depth > 40:
        return t
    if t[0] == 'v':
        v = s.env.get(t)
        if v is None:
            return t
        return resolve(v[1], s, depth + 1) if v[0] == 'ref' else resolve(v, s, depth + 1, True)
    if t[0] == 'locaddr':
        v = s.env.get(t[1])
        return ('addr', resolve(v, s, depth + 1, True)) if v is not None else t
    if t[0] == '*' and len(t) == 2:
        return resolve(t[1], s, depth + 1, frozen)
    if t[0] == 'fld':
        l = ('*', t)
        if not frozen and l in s.env:
            return resolve(s.env[l], s, depth + 1, True)
        b = resolve(strip(t[1]), s, depth + 1, frozen)
        if b[0] == 'addr' and b[1][0] == 'call':
            b = b[1]
        if b[0] == 'call' and b[1].startswith('conduit::DataArray') and len(b[2]) == 2 and t[2] in ('m_data', 'm_dtype'):
            return b[2][t[2] == 'm_dtype']
        if b[0] == 'call' and b[1] == 'conduit::DataType::DataType' and t[2] in DTF:
            i = DTF.index(t[2])
            if len(b[2]) == 6:
                return b[2][i]
            if len(b[2]) == 2 and i < 3:
                return (b[2] + (('c', 0),))[i]
        return ('fld', b, t[2])
    return tuple(resolve(x, s, depth + 1, frozen) if isinstance(x, tuple) else x for x in t)


class Eff(Sum):
    """dom: ordered tuple of events"""
    inline_depth = 14
    def init(self):
        return ()

    def pure(self, ref):
        q = ref['qn']
        return q.startswith('std::') and ref['qn'].split('::')[-1] in PURE_STD or q in ('strlen', 'std::strlen') or q.startswith('conduit::DataType::') or Sum.pure(self, ref)

    def on_call(self, ip, s, n, ref, obj, args, locs):
        if ref is None:
            return None
        q = ref['qn']
        if q in PRIM or q in COPY or q == SC + 'set':
            args = [resolve(a, s) if a else a for a in args]
        if q in PRIM:
            if obj is not None:
                b = base(obj)
                ev = (q.split('::')[-1], b) + tuple(args)
                s = s.withdom(s.dom + (ev,))
                for fl in ('m_schema', 'm_data'):
                    for o in (b, ('deref', b)):
                        s = s.set(('*', ('fld', o, fl)), ('post', len(s.dom), b, fl))
            else:
                s = s.withdom(s.dom + ((q.split('::')[-1], None) + tuple(args),))
            return [(s, ('u', 'void'))]
        if q == SC + 'set' and obj is not None:
            s = s.withdom(s.dom + (('schema', base(obj)) + tuple(args),))
            return [(s, ('u', 'void'))]
        if q in COPY:
            s = s.withdom(s.dom + ((COPY[q],) + tuple(args),))
            return [(s, args[0] if args else ('u', 'void'))]
        if q == ND + 'fetch' and len(args) == 1 and obj is not None:
            return [(s.withdom(s.dom + (('fetch', base(obj), args[0]),)), ('call', q, (base(obj), args[0]), ()))]
        if q in (ND + 'operator[]', ND + 'fetch_existing', ND + 'child', ND + 'add_child') and len(args) == 1 and obj is not None and 'string' in ref['params'][0][1]:
            b = base(obj)
            m = 'fetch' if q.endswith('operator[]') else q.split('::')[-1]
            if m == 'fetch_existing' and any(t[0] == 'call' and t[1] == ND + 'has_path' and v and base(t[2][0]) == b and strip(t[2][1]) == strip(args[0]) for t, v in s.facts.items()):
                m = 'fetch'
            return [(s.withdom(s.dom + (('fetch', b, args[0]),)), ('call', ND + m, (b, args[0]), ()))]
        return None

    def on_load(self, ip, s, n, loc):
        if n.k == 'Member' and loc[0] == '*' and loc[1][0] == 'fld' and loc not in s.env:
            b = strip(loc[1][1])
            if b[0] == 'call' and b[1].startswith(('conduit::DataArray<', 'conduit::DataAccessor<', 'conduit::DataArray::DataArray', 'conduit::DataAccessor::')) and len(b[2]) == 2:
                if loc[1][2] == 'm_data':
                    return [(s, b[2][0])]
                if loc[1][2] == 'm_dtype':
                    return [(s, b[2][1])]
        return Sum.on_load(self, ip, s, n, loc)

    def on_store(self, ip, s, n, loc, v):
        if loc[0] == '*' and loc[1][0] == 'fld' and loc[1][2] in ('m_data', 'm_schema', 'm_alloced', 'm_data_size', 'm_mmaped', 'm_owns_schema'):
            return s.withdom(s.dom + (('store', base(loc[1][1]), loc[1][2], v),))
        if loc[0] == '*' and loc[1][0] in ('deref', 'idx') and n.c:
            t = loc[1]
            ptr = t[1] if t[0] == 'deref' else ('op', '+', t[1], ('op', '*', t[2], ip.szof(n.c[0].ty)))
            return s.withdom(s.dom + (('put', n.c[0].ty, ptr, v),))
        return s


# ---------------------------------------------------------------- prescriptions
import os, re


def newfn(pr, f):
    """a function the analysed tree has and the reference list has not: an extracted helper"""
    return f.qn not in KNOWN


def tyclean(t):
    t = t.strip()
    while True:
        u = re.sub(r'^const ', '', t)
        u = re.sub(r' ?&$', '', u)
        u = re.sub(r' ?\*const$', ' *', u)
        if u == t:
            return t
        t = u.strip()


def elem(t):
    return re.sub(r'^const ', '', t).strip()


def form(ty):
    """(form, element type)"""
    t = tyclean(ty)
    m = re.match(r'conduit::DataArray<([a-z ]+)>$', t)
    if m:
        return 'array', m.group(1)
    m = re.match(r'std::vector<([a-z ]+), ', t)
    if m:
        return 'vector', m.group(1)
    m = re.match(r'std::initializer_list<([a-z ]+)>', t)
    if m:
        return 'list', m.group(1)
    if t.startswith('std::basic_string<char'):
        return 'string', 'char'
    if t in ('conduit_node_impl *', 'const conduit_node_impl *'):
        return 'node', None
    if t.endswith('*'):
        return 'ptr', elem(t[:-1].strip())
    if t in ('conduit::Node', 'conduit::DataType', 'conduit::Schema'):
        return t.split('::')[1].lower(), None
    if t in OFC or t == 'char':
        return 'scalar', t
    return None, None


def kindof(t):
    return 'int8' if t == 'char' else OFC.get(t)


SFX = re.compile(r'^(?:_(?P<ty>u?int(?:8|16|32|64)|float32|float64|index_t|char8_str|string|(?:signed_|unsigned_)?(?:char|short|int|long|long_long)|float|double))?'
                 r'(?:_(?P<form>ptr|array|vector|initializer_list))?(?P<det>_detailed)?$')


def n(l):
    return {k: v for k, v in l.items() if v}


def add(*ts):
    r = {}
    for t in ts:
        for k, v in (lin(t) if isinstance(t, tuple) else t).items():
            r[k] = r.get(k, 0) + v
    return n(r)


def dtargs(v):
    v = strip(v)
    if v[0] == 'call' and v[1] == 'conduit::DataType::DataType' and len(v[2]) in (2, 6):
        a = list(v[2])
        if len(a) == 2:
            k = KIND.get(a[0][1]) if a[0][0] == 'c' else None
            w = ('c', WIDTH.get(k)) if k else ('u', 'width')
            a += [('c', 0), w, w, ('c', 0)]
        return [canon(x) for x in a]
    return None


def is_zero_guard(p, atom):
    """the path is taken for an empty source only (or the guard speaks about the element count)"""
    return any(mentions(t, lambda x: x == atom) for t in p.facts)


class Want:
    pass


def prescribe(f, capi):
    """what the setter must do, from its name and parameter types; None when it is not a setter of the families"""
    w = Want()
    ps = [(nm, ty) for nm, _, ty in f.params]
    P_ = [('p', nm, i) for i, (nm, ty) in enumerate(ps)]
    nm = f.name
    i = 0
    w.base = ('this',)
    if capi:
        if not nm.startswith('conduit_node_set_') or not ps:
            return None
        nm = nm[len('conduit_node_'):]
        w.base = P_[0]
        i = 1
    m = re.match(r'^set(_path)?(_external)?(.*)$', nm)
    if f.name == 'operator=' and not capi:
        w.path, w.ext, sfx = False, False, ''
    elif m:
        w.path, w.ext, sfx = bool(m.group(1)), bool(m.group(2)), m.group(3)
    else:
        return None
    if w.path:
        if i >= len(ps):
            return None
        w.base = ('call', ND + 'fetch', (w.base, P_[i]), ())
        i += 1
    if i >= len(ps):
        return None
    w.sfx = sfx
    w.form, w.elem = form(ps[i][1])
    w.data = P_[i]
    w.rest = P_[i + 1:]
    if w.form is None:
        return None
    if w.form in ('node', 'datatype', 'schema'):
        return w
    m = SFX.match(sfx)
    if not m:
        return None
    w.kind = kindof(w.elem)
    if w.kind is None:
        return None
    w.name_kind = None
    if m.group('ty') in ('char8_str', 'string'):
        w.name_kind = 'char8_str'
    elif m.group('ty'):
        w.name_kind = NAMES[m.group('ty')]
    if w.form == 'string' or w.form == 'ptr' and w.elem == 'char' and not w.rest:
        w.kind = 'char8_str'
        w.form = 'string' if w.form == 'string' else 'cstr'
    return w


def source(w):
    """(source address, number of elements, byte stride, descriptor fields, count atom)"""
    W = ('c', WIDTH[w.kind])
    d = w.data
    idc = ('c', ID[w.kind])
    if w.form == 'array':
        dt = ('fld', d, 'm_dtype')
        nn = ('fld', dt, 'm_num_ele')
        return add(('fld', d, 'm_data'), ('fld', dt, 'm_offset')), nn, ('fld', dt, 'm_stride'), None, nn, ('fld', d, 'm_data')
    if w.form == 'ptr':
        r = list(w.rest) + [None] * 5
        nn, off, st, eb, en = r[0], r[1] or ('c', 0), r[2] or W, r[3] or W, r[4] or ('c', 0)
        return add(d, off), nn, st, [idc, nn, off, st, eb, en], nn, d
    if w.form == 'scalar':
        return None, ('c', 1), W, None, None, None
    return None, None, W, None, None, None


def same_count(w, t):
    """the term is the number of elements of the source"""
    t = canon(t)
    if t[0] == 'call' and t[1].startswith('std::') and t[1].endswith('::empty') and tuple(map(base, t[2])) == (w.data,):
        return True       # only reached for guards
    if w.form in ('vector', 'list'):
        return t[0] == 'call' and t[1].startswith('std::') and t[1].endswith('::size') and tuple(map(base, t[2])) == (w.data,)
    if w.form in ('string', 'cstr'):
        l = lin(t)
        if l.pop((), 0) != 1 or len(l) != 1 or list(l.values()) != [1]:
            return False
        a = list(l)[0]
        return len(a) == 1 and a[0][0] == 'call' and a[0][1].split('::')[-1] in ('length', 'size', 'strlen') and base(a[0][2][0]) == w.data
    s = source(w)
    return canon(t) == canon(s[1])


def same_src(w, t):
    t = strip(t)
    if w.form in ('vector', 'list'):
        t2 = strip(t[1]) if t[0] == 'addr' else t
        if t2[0] == 'deref':
            t2 = strip(t2[1])
        if t2[0] == 'call' and t2[1].startswith('std::'):
            fn = t2[1].split('::')[-1]
            return base(t2[2][0]) == w.data and (fn in ('begin', 'data', 'front') or fn in ('operator[]', 'at') and strip(t2[2][1]) == ('c', 0))
        return t2[0] in ('idx',) and base(t2[1]) == w.data and strip(t2[2]) == ('c', 0)
    if w.form == 'string':
        return t[0] == 'call' and t[1].split('::')[-1] in ('c_str', 'data') and base(t[2][0]) == w.data
    if w.form == 'cstr':
        return lin(t) == lin(w.data) or t[0] == 'call' and t[1].split('::')[-1] in ('c_str', 'data') and base(t[2][0]) == w.data
    if w.form == 'scalar':
        return t == ('addr', w.data) or t[0] == 'addr' and strip(t[1]) == w.data
    return lin(t) == source(w)[0]


def elt(l, w, post):
    """address of the first element of the node after the last (re)initialisation"""
    return l == add(('post', post, w.base, 'm_data'), ('fld', ('fld', ('post', post, w.base, 'm_schema'), 'm_dtype'), 'm_offset'))


def judge(w, p):
    """None, or (what, sure) : why the effects of this path are not the prescribed ones"""
    evs = list(p.ev)
    vague = unknown(('x',) + tuple(tuple(e[1:]) for e in evs)) or any(e[0] == 'other' for e in evs)
    fetches = [e for e in evs if e[0] == 'fetch']
    evs2 = [e for e in evs if e[0] not in ('fetch', 'other')]
    if w.path and not fetches and evs2:
        return 'the path argument is not used to select the node'
    for e in evs2:
        if e[0] in ('init', 'release', 'reset', 'store', 'allocate', 'set_node', 'set_external_node', 'set_schema', 'set_data_using_schema', 'set_external_data_using_schema') and e[1] != w.base:
            return 'acts on %s instead of %s' % (show(e[1]), show(w.base))
    if w.form in ('node', 'schema', 'datatype'):
        return judge_whole(w, p, evs2)
    if w.ext:
        return judge_ext(w, p, evs2)
    W = WIDTH[w.kind]
    ini = [(i, e) for i, e in enumerate(p.ev) if e[0] == 'init']
    if not ini:
        return 'the node is not initialised to hold the value'
    if any(e[0] == 'release' for e in evs2) and [e[0] for e in evs2].index('release') > [e[0] for e in evs2].index('init'):
        return 'the node is released after it was initialised'
    k, e = ini[-1]
    dt = dtargs(e[2])
    if dt is None:
        return 'initialised with %s' % show(canon(e[2]))
    if dt[0] != ('c', ID[w.kind]):
        return 'the node is made a %s' % KIND.get(dt[0][1], show(dt[0])) if dt[0][0] == 'c' else 'the node gets type id %s' % show(dt[0])
    if not same_count(w, dt[1]):
        return 'the node is made to hold %s elements' % show(dt[1])
    if [dt[2]] + dt[3:5] != [('c', 0), ('c', W), ('c', W)] or dt[5] not in (('c', 0), ('c', 2), ('c', 1)) or dt[5] == ('c', 1):
        return 'the node gets the layout (offset %s, stride %s, element bytes %s, endianness %s)' % tuple(map(show, dt[2:]))
    copies = [e for e in p.ev[k + 1:] if e[0] in ('memcpy', 'strided', 'put')]
    if not copies:
        if w.form != 'scalar' and any(same_count(w, x) or same_count(w, ('op', '+', x, ('c', 1))) for t in p.facts for x in subterms(t)):
            return None
        return 'nothing is copied into the node'
    if len(copies) > 1:
        return 'several copies are made'
    c = copies[0]
    post = k + 1
    if c[0] == 'put':
        if w.form != 'scalar':
            return 'only a single element is stored'
        if kindof(tyclean(c[1])) != w.kind:
            return 'stored as %s' % c[1]
        if not elt(lin(c[2]), w, post):
            return 'stored at %s' % show(canon(c[2]))
        return None if strip(c[3]) == w.data else 'stores %s' % show(c[3])
    dst = lin(c[1])
    if not elt(dst, w, post):
        return 'copied to %s, not to the first element of the node' % show(canon(c[1]))
    pstride = ('fld', ('fld', ('post', post, w.base, 'm_schema'), 'm_dtype'), 'm_stride')
    peb = ('fld', ('fld', ('post', post, w.base, 'm_schema'), 'm_dtype'), 'm_ele_bytes')
    if c[0] == 'memcpy':
        if not same_src(w, c[2]):
            return 'copied from %s' % show(canon(c[2]))
        if w.form == 'scalar':
            return None if canon(c[3]) in (('c', W), peb) else '%s bytes are copied' % show(canon(c[3]))
        l = lin(c[3])
        cnt = {}
        for a, v in l.items():
            cnt[a] = v
        okc = any(lin(('op', '*', ('c', W), x)) == l for x in counts(w, p, dt[1]))
        if not okc:
            return '%s bytes are copied' % show(canon(c[3]))
        if any(mentions(t, lambda x: x == pstride or x[0] == 'call' and x[1].split('::')[-1] in ('is_compact', 'is_contiguous')) for t in p.facts) or \
                any(mentions(t, lambda x: x == peb) for t in p.facts):
            return None
        return 'elements are copied contiguously although the node may be strided'
    _, d, cn, eb, ds, src, ss = c
    if canon(eb) not in (('c', W), peb):
        return 'element size %s is used' % show(canon(eb))
    if not same_count(w, cn) and not (w.form == 'scalar' and canon(cn) == ('c', 1)):
        return '%s elements are copied, not the number the source has' % show(canon(cn))
    if w.form != 'scalar' and canon(ds) != canon(pstride):
        return 'written with stride %s, not the stride of the node' % show(canon(ds))
    if not same_src(w, src):
        return 'copied from %s' % show(canon(src))
    want = source(w)[2]
    if w.form != 'scalar' and canon(ss) != canon(want) and not (w.form not in ('array', 'ptr') and canon(ss) == peb):
        return 'the source is read with stride %s' % show(canon(ss))
    return None


def counts(w, p, dtn):
    return [dtn]


def subterms(t):
    if isinstance(t, tuple) and t:
        yield t
        for x in t:
            if isinstance(x, tuple):
                for y in subterms(x):
                    yield y


def judge_ext(w, p, evs):
    names = [e[0] for e in evs]
    rel = [i for i, e in enumerate(evs) if e[0] in ('release', 'reset')]
    sch = [i for i, e in enumerate(evs) if e[0] == 'schema']
    st = [i for i, e in enumerate(evs) if e[0] == 'store' and e[2] == 'm_data']
    cp = [e for e in evs if e[0] in ('memcpy', 'strided', 'put')]
    if cp:
        return 'copies data although the node is to describe external memory'
    if any(e[0] in ('init', 'allocate') for e in evs):
        return 'allocates memory although the node is to describe external memory'
    if not rel:
        return 'what the node held before is not released'
    if not sch:
        return 'the description is not set'
    if rel[-1] > sch[0] or st and rel[-1] > st[0]:
        return 'the node is released after it was set'
    e = evs[sch[-1]]
    if e[1][0] == 'post' and e[1][2] != w.base or e[1][0] == 'fld' and e[1][1] != w.base:
        return 'the description of another node is set'
    if w.form == 'array':
        okdt = canon(e[2]) == ('fld', w.data, 'm_dtype')
        if not okdt:
            a = dtargs(e[2])
            okdt = a is not None and a[0] == ('c', ID[w.kind]) and a[1:] == [('fld', ('fld', w.data, 'm_dtype'), x) for x in DTF[1:]]
        if not okdt:
            return 'described as %s' % show(canon(e[2]))
    else:
        a = dtargs(e[2])
        if a is None:
            return 'described as %s' % show(canon(e[2]))
        if a[0] != ('c', ID[w.kind]):
            return 'described as %s' % (KIND.get(a[0][1]) if a[0][0] == 'c' else show(a[0]))
        if not same_count(w, a[1]):
            return 'described as having %s elements' % show(a[1])
        if w.form == 'ptr':
            want = [canon(x) for x in source(w)[3]]
            for j in range(2, 6):
                if a[j] != want[j]:
                    return '%s is %s instead of %s' % (DTF[j][2:], show(a[j]), show(want[j]))
        else:
            W = ('c', WIDTH[w.kind])
            if a[2:5] != [('c', 0), W, W] or a[5] != ('c', 0):
                return 'described with the layout (%s)' % ', '.join(map(show, a[2:]))
    if not st:
        if w.form in ('vector', 'list') and any(same_count(w, x) for t in p.facts for x in subterms(t)):
            return None
        return 'the data pointer is not set'
    v = evs[st[-1]][3]
    if w.form == 'array':
        good = canon(v) == ('fld', w.data, 'm_data')
    elif w.form == 'ptr' or w.form == 'cstr':
        good = strip(v) == w.data
    else:
        good = same_src(w, v)
    if not good:
        return 'the data pointer is set to %s' % show(canon(v))
    for e in evs:
        if e[0] == 'store' and e[2] != 'm_data':
            if strip(e[3]) not in (('c', False), ('c', 0)):
                return 'marks external memory as owned (%s = %s)' % (e[2], show(e[3]))
    return None


def judge_whole(w, p, evs):
    """Node / DataType / Schema arguments"""
    nm = [e[0] for e in evs]
    d = w.data
    if w.form == 'node':
        want = 'set_external_node' if w.ext else 'set_node'
        x = [e for e in evs if e[0] in ('set_node', 'set_external_node')]
        if w.sfx in ('_node',) and w.base == ('this',):
            return None          # the routine itself
        if not evs and any(mentions(t, lambda x: x[0] == 'op' and x[1] in ('==', '!=') and {base(x[2]), base(x[3])} == {w.base, d}) for t in p.facts):
            return None          # self assignment
        if len(x) != 1 or x[0][0] != want or base(x[0][2]) != d:
            return 'does %s instead of %s(%s)' % (', '.join(nm) or 'nothing', want, show(d))
        return None
    data = w.rest[0] if w.rest else None
    if w.form == 'schema':
        want = ('set_external_data_using_schema' if w.ext else 'set_data_using_schema') if data else 'set_schema'
        x = [e for e in evs if e[0] == want]
        if x:
            if len(x) != 1 or len(evs) != 1 or base(x[0][2]) != d or data and strip(x[0][3]) != data:
                return 'does %s' % ', '.join(nm)
            return None
        if any(e[0] in ('set_external_data_using_schema', 'set_data_using_schema', 'set_schema') for e in evs):
            return 'does %s instead of %s' % (', '.join(nm), want)
    if w.form == 'datatype' and not data:
        if nm == ['init'] and base(evs[0][2]) == d:
            return None
        return 'does %s' % ', '.join(nm)
    if w.form == 'datatype' and w.ext:
        sch = [e for e in evs if e[0] == 'schema']
        st = [e for e in evs if e[0] == 'store' and e[2] == 'm_data']
        if nm[0] not in ('reset', 'release') or len(sch) != 1 or base(sch[0][2]) != d or len(st) != 1 or strip(st[0][3]) != data:
            return 'does %s' % ', '.join(nm)
        return None
    # description, then (for copies) memory of the spanned size filled from the data, then the walk
    rel = [i for i, e in enumerate(evs) if e[0] in ('release', 'reset')]
    sch = [i for i, e in enumerate(evs) if e[0] == 'schema']
    al = [i for i, e in enumerate(evs) if e[0] == 'allocate']
    wk = [i for i, e in enumerate(evs) if e[0] == 'walk_schema']
    if not rel or not sch or sch[0] < rel[-1]:
        return 'does %s: the node is not released before it is described anew' % ', '.join(nm)
    if base(evs[sch[0]][2]) != d:
        return 'described as %s' % show(canon(evs[sch[0]][2]))
    if len(wk) != 1:
        return 'the children are not pointed at the data (no walk over the schema)'
    wa = evs[wk[0]]
    if base(wa[2]) != w.base or base(wa[3])[0] not in ('post', 'fld') or base(wa[3])[-1] != 'm_schema':
        return 'the walk is over %s' % show(wa[3])
    if w.ext:
        if al or any(e[0] in ('memcpy',) for e in evs):
            return 'allocates or copies although the data is external'
        return None if strip(wa[4]) == data else 'the walk is given %s' % show(wa[4])
    if not al or al[0] < sch[0]:
        return 'memory is not allocated after the description is set'
    size = canon(evs[al[0]][2])
    if not is_spanned(size):
        return 'allocates %s, not the bytes the schema spans' % show(size)
    if data:
        cp = [e for e in evs if e[0] == 'memcpy']
        if len(cp) != 1 or base(cp[0][1])[-1] != 'm_data' or strip(cp[0][2]) != data or not is_spanned(canon(cp[0][3])):
            return 'does not copy the spanned bytes of the data'
    if base(wa[4])[-1] != 'm_data':
        return 'the walk is given %s' % show(wa[4])
    return None


def is_spanned(t):
    return t[0] == 'call' and t[1].split('::')[-1] in ('spanned_bytes',)
