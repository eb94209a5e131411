"""M01: a node owns at most one buffer, frees exactly what it allocated, once, with the allocator that made it."""
from common import Check
import prog as P
from summ import *
from loopcov import bare
import N01

ND, SC = N01.ND, N01.SC
T = ('this',)
PRIM = ('release', 'cleanup', 'init_defaults', 'set_data_ptr', 'walk_schema', 'mirror_node', '~Node', 'swap')
OWN = ('m_data', 'm_alloced', 'm_mmaped', 'm_mmap', 'm_allocator_id', 'm_data_size')


def run(tier):
    ck = Check('M01', 'other', 'ownership typestate (nothing owned / allocated / mapped / external) along every path of every Node operation; exact effect summaries of allocate, release, mmap and the allocator registry', tier)
    pr = P.load(lambda r: r in ('conduit/conduit_node.cpp', 'conduit/conduit_schema.cpp', 'conduit/conduit_data_type.cpp'))
    n = 0
    for f in sorted(pr.funcs.values(), key=lambda f: (f.file, f.line)):
        if not f.qn.startswith(ND) or f.body is None or f.qn.count('::') != 2 or f.name in PRIM or f.flags.get('internal'):
            continue
        if f.name == 'allocate' or f.name == 'mmap' and 'long' in f.params[-1][2]:
            continue
        if f.qn not in KNOWN and f.flags.get('private'):
            continue
        if relevant(f):
            n += 1
            one(ck, pr, f)
    ck.count('operations', n)
    ck.floor('operations', n, 20)
    release(ck, pr)
    acquire(ck, pr)
    mmap(ck, pr)
    N01.swap(ck, pr, OWN)
    registry(ck)
    return ck


def relevant(f):
    for x in f.body.walk():
        if x.k == 'Member' and x.d[0] == 'm' and x.d[1] in OWN:
            return True
        if x.k in ('MCall', 'Call') and x.d[0] is not None and x.d[0]['qn'].startswith(ND) and x.d[0]['name'] in ('allocate', 'mmap', 'set_data_ptr', 'walk_schema', 'mirror_node'):
            return True
    return False


def get(s, N):
    for e in s.dom:
        if e[0] == 'own' and e[1] == N:
            return e[2]
    # facts about the flags
    al = mm = dn = None
    for t, b in s.facts.items():
        x = strip(t)
        if x == ('fld', N, 'm_alloced'):
            al = b
        elif x == ('fld', N, 'm_mmaped'):
            mm = b
        elif x == ('fld', N, 'm_data'):
            dn = not b
        elif x[0] == 'op' and x[1] == '==' and ('fld', N, 'm_data') in (bare(x[2]), bare(x[3])) and (null(x[2]) or null(x[3])):
            dn = b
    if dn or al is False and mm is False:
        return 'N'
    return 'U'


def put(s, N, v):
    return s.withdom(frozenset(e for e in s.dom if not (e[0] == 'own' and e[1] == N)) | {('own', N, v)})


def bad(s, msg, n):
    return s.withdom(s.dom | {('BAD', msg, n.line)})


class OD(Sum):
    iters = True
    cap = 4000

    def init(self):
        return frozenset()

    def on_new(self, ip, s, n, v):
        if n.d[0].replace('const ', '').strip().startswith('conduit::Node') and 'MMap' not in n.d[0]:
            return [(put(s, bare(v), 'N'), v)]
        return [(s, v)]

    def on_store(self, ip, s, n, loc, v):
        if loc[0] != '*' or loc[1][0] != 'fld' or loc[1][2] not in OWN:
            return s
        N, x = bare(loc[1][1]), loc[1][2]
        if N[0] == 'call' and N[1].endswith('MMap'):
            return s
        st = get(s, N)
        if x == 'm_data':
            if bare(v) == ('fld', N, 'm_data'):
                return s
            if st in ('A', 'M', 'A-', 'M-'):
                s = bad(s, 'the buffer the node owns is lost when the data pointer is replaced', n)
            elif st == 'U':
                s = bad(s, 'the data pointer is replaced although the node may own a buffer', n)
            return put(s, N, 'N' if null(v) else 'E')
        if x in ('m_alloced', 'm_mmaped'):
            w = 'A' if x == 'm_alloced' else 'M'
            b = val(v, {})
            if b is None:
                return s
            if not b:
                if st == w:
                    return put(s, N, w + '-')
                if st == 'U':
                    s = bad(s, 'ownership of a buffer is dropped without freeing it', n)
                return s
            if st == w or st == w + '-':
                return put(s, N, w)
            return put(bad(s, 'the node claims to own a buffer it did not acquire', n), N, w)
        if x == 'm_allocator_id':
            if st in ('U', 'A', 'A-'):
                s = bad(s, 'the allocator changes while the node may own a buffer from the old one', n)
        return s


def events(ip, s, n, ref, obj, args, locs):
    q, m = ref['qn'], ref['name']
    V = ('u', 'void')
    if q.startswith(ND) and obj is not None:
        N = bare(obj)
        st = get(s, N)
        if m in ('release', 'reset', 'init_defaults'):
            if st in ('A-', 'M-'):
                s = bad(s, 'the buffer is no longer marked as owned when the node is released: it leaks', n)
            return [(put(s, N, 'N'), V)]
        if m in ('init', 'set_dtype', 'init_list', 'init_object'):
            k = N01.TYPED.get(m) or N01.kindof(args)
            if st in ('A-', 'M-'):
                s = bad(s, 'the node is initialised again while its buffer is not marked as owned', n)
            if k in ('object', 'list', 'empty'):
                return [(put(s, N, 'N' if st in ('N',) else 'K'), V)]
            return [(put(s, N, 'K'), V)]
        if m in ('allocate', 'mmap') and q != f'{ND}mmap_':
            if m == 'mmap' and not (len(args) == 2 and 'long' in (ref['params'][1][1] if len(ref['params']) > 1 else '')):
                return [(put(s, N, 'K'), V)]
            if st in ('A', 'M', 'A-', 'M-'):
                s = bad(s, 'a second buffer is acquired while the node owns one: the first leaks', n)
            elif st in ('U', 'K'):
                s = bad(s, 'a buffer is acquired although the node may own one already', n)
            if args and narrowed(args[-1]):
                s = bad(s, 'the size of the buffer is cut to 32 bits', n)
            return [(put(s, N, 'A' if m == 'allocate' else 'M'), V)]
        if m == 'set_data_ptr':
            return data(s, N, args[0], n)
    if q.startswith(ND) and m == 'walk_schema' and len(args) >= 3:
        return data(s, bare(args[0]), args[2], n)
    if q.startswith(ND) and m == 'mirror_node' and len(args) >= 3:
        return data(s, bare(args[0]), ('fld', bare(args[2]), 'm_data'), n)
    return None


def data(s, N, v, n):
    st = get(s, N)
    v = bare(v)
    if v == ('fld', N, 'm_data'):
        return [(s, ('u', 'void'))]
    if st in ('A', 'M', 'A-', 'M-'):
        if not unknown(v) and not (v[0] == 'call'):
            s = bad(s, 'the buffer the node owns is lost when the data pointer is replaced', n)
        return [(s, ('u', 'void'))]
    if st in ('U', 'K') and N == T:
        s = bad(s, 'the data pointer is replaced although the node may own a buffer', n)
    return [(put(s, N, 'E'), ('u', 'void'))]


def one(ck, pr, f):
    def inl(ref):
        if ref.get('ctor'):
            return False
        if ref['qn'] in (ND + 'dtype', SC + 'dtype', 'conduit::DataType::id'):
            return True
        if ref['qn'] == ND + 'allocate' and 'DataType' in ref['params'][0][1]:
            return False
        g = pr.funcs.get(ref['usr'])
        return g is not None and g.body is not None and g.qn not in KNOWN and g.qn.startswith('conduit::')
    dom = OD(inl, events=events, pure=lambda r: r.get('const') or r['qn'].startswith('std::'))
    if f.flags.get('ctor'):
        dom.init = lambda: frozenset({('own', T, 'N')})
    try:
        ps, ip = paths(pr, f, dom)
    except Exception as ex:
        ck.notes.append('%s: %s' % (f.qn, ex))
        return
    key = '%s/%s' % (f.name, ','.join(x[2].replace('conduit::', '').replace('const ', '').strip() for x in f.params))[:120]
    msgs, n = set(), 0
    for p in ps:
        for e in p.ev:
            if e[0] == 'BAD':
                msgs.add(e[1:])
        if p.kind == 'return':
            n += 1
        for e in p.ev:
            if e[0] == 'own' and e[2] in ('A-', 'M-'):
                msgs.add(('ends with a buffer that is not marked as owned: it leaks', f.line) if p.kind == 'return' else
                         ('an error is raised while a buffer is not marked as owned: it leaks', f.line))
    for m, l in sorted(msgs):
        ck.bad(key + ':' + m[:50], f.file, l, '%s: %s' % (f.qn, m))
    if not msgs and n:
        ck.ok(n, key)
        ck.count('paths', n)


def rep(ck, f, key, why):
    if why is None:
        ck.ok(1, key)
    elif why[0] == '?':
        ck.notes.append(key + ': ' + why)
    else:
        ck.bad(key + ':' + why[:40], f.file, f.line, '%s: %s' % (f.qn, why))


class RD(Sum):
    iters = True

    def init(self):
        return frozenset()

    def on_delete(self, ip, s, n, v):
        return [(s.withdom(s.dom | {('delete', bare(v), n.line)}), ('u', 'void'))]


def release(ck, pr):
    for f in [f for f in pr.funcs.values() if f.qn == ND + 'release' and f.body is not None]:
        def ev(ip, s, n, ref, obj, args, locs):
            if ref['name'] == 'conduit_free':
                return [(s.withdom(s.dom | {('free', bare(args[0]), bare(args[1]), n.line)}), ('u', 'void'))]
            return None
        ps, ip = paths(pr, f, RD(inliner(pr, (ND + 'dtype', SC + 'dtype', 'conduit::DataType::')), events=ev, pure=lambda r: r.get('const') or r['qn'].startswith('std::')))
        A, MM, D, M = [('fld', T, x) for x in ('m_alloced', 'm_mmaped', 'm_data', 'm_mmap')]
        for name, asg in (('allocated', {A: 1, MM: 0, D: 1}), ('mapped', {A: 0, MM: 1, M: 1, D: 1}), ('external', {A: 0, MM: 0, D: 1}), ('nothing', {A: 0, MM: 0, D: 0})):
            q = [p for p in under(ps, asg) if p.kind == 'return']
            why = None if q else '?no path'
            for p in q:
                fr = [e for e in p.ev if e[0] == 'free']
                de = [e for e in p.ev if e[0] == 'delete' and e[1] == M]
                fs = p.fields()
                if name == 'allocated':
                    if not fr:
                        why = why or 'an allocated buffer is not freed%s' % cond(p)
                    elif len(fr) > 1:
                        why = why or 'an allocated buffer is freed twice'
                    elif fr[0][1] != D or fr[0][2] != ('fld', T, 'm_allocator_id'):
                        why = why or ('?' if unknown(('t', fr[0][1], fr[0][2])) else 'freed with %s, %s instead of the node\'s buffer and allocator' % (show(fr[0][1]), show(fr[0][2])))
                    elif val(fs.get('m_alloced', ('u', 0)), {}) not in (0, False):
                        why = why or 'a freed buffer still counts as allocated'
                    elif not null(fs.get('m_data')):
                        why = why or 'the pointer to a freed buffer remains'
                elif fr:
                    why = why or 'memory the node did not allocate is freed (%s)' % name
                if name == 'mapped':
                    if len(de) != 1:
                        why = why or 'the mapping is not released'
                    elif val(fs.get('m_mmaped', ('u', 0)), {}) not in (0, False):
                        why = why or 'a released mapping still counts as mapped'
                    elif not null(fs.get('m_data')):
                        why = why or 'the pointer into a released mapping remains'
                elif de and name != 'nothing':
                    why = why or 'a mapping is deleted that is not there'
            rep(ck, f, 'release:' + name, why)


def null(t):
    t = strip(t) if t is not None else ('u', 0)
    return t in (('c', None), ('c', 0))


def cond(p):
    ids = [show(t) for t, b in p.facts.items() if mentions(t, lambda x: x[0] == 'fld' and x[2] == 'm_id') and b]
    return ' when ' + ids[0] if ids else ''


def acquire(ck, pr):
    for f in [f for f in pr.funcs.values() if f.qn == ND + 'allocate' and f.body is not None]:
        if 'DataType' in f.params[0][2]:
            continue

        def ev(ip, s, n, ref, obj, args, locs):
            if ref['name'] == 'conduit_allocate':
                return [(s, ('call', 'conduit_allocate', tuple(bare(a) for a in args), ()))]
            return None
        ps, ip = paths(pr, f, RD(inliner(pr, ()), events=ev))
        why = None
        sz = ('p', f.params[0][0], 0)
        for p in ps:
            if p.kind != 'return':
                continue
            fs = p.fields()
            d = bare(fs.get('m_data', ('u', 0)))
            if d[0] != 'call' or d[1] != 'conduit_allocate':
                why = why or ('?' if unknown(d) else 'the data pointer is not the new buffer')
                continue
            a = d[2]
            if lin(('op', '*', a[0], a[1])) != lin(sz):
                why = why or 'the buffer has %s * %s bytes' % (show(a[0]), show(a[1]))
            if a[2] != ('fld', T, 'm_allocator_id'):
                why = why or 'the buffer comes from allocator %s, not the one it is freed with' % show(a[2])
            if bare(fs.get('m_data_size', ('u', 0))) != sz:
                why = why or 'the recorded size is not the size of the buffer'
            if val(fs.get('m_alloced', ('u', 0)), {}) not in (1, True):
                why = why or 'the new buffer is not marked as owned'
            if val(fs.get('m_mmaped', ('u', 0)), {}) not in (0, False):
                why = why or 'the node still counts as mapped'
        rep(ck, f, 'allocate', why)


def mmap(ck, pr):
    for f in [f for f in pr.funcs.values() if f.qn == ND + 'mmap' and f.body is not None and 'long' in f.params[-1][2]]:
        def ev(ip, s, n, ref, obj, args, locs):
            if ref['qn'] == ND + 'MMap::open':
                fs = {k[1][2]: v for k, v in s.env.items() if k[0] == '*' and k[1][0] == 'fld' and k[1][1] == T}
                own = val(fs.get('m_mmaped', ('u', 0)), {}) in (1, True)
                return [(s.withdom(s.dom | {('open', bare(obj), tuple(bare(a) for a in args), own)}), ('u', 'void'))]
            if ref['qn'] == ND + 'MMap::data_ptr':
                return [(s, ('call', 'mdata', (bare(obj),), ()))]
            return None
        ps, ip = paths(pr, f, RD(inliner(pr, ()), events=ev))
        why = None
        for p in ps:
            if p.kind != 'return':
                continue
            fs = p.fields()
            mm = bare(fs.get('m_mmap', ('u', 0)))
            op = [e for e in p.ev if e[0] == 'open']
            if not op:
                why = why or '?open'
                continue
            if op[0][1] != mm and op[0][1] != ('fld', T, 'm_mmap'):
                why = why or '?mapping'
            if op[0][2] and op[0][2][-1] != ('p', f.params[1][0], 1):
                why = why or 'another size is mapped than asked for'
            if val(fs.get('m_mmaped', ('u', 0)), {}) not in (1, True):
                why = why or 'the mapping is not marked as owned'
            elif not op[0][3]:
                why = why or 'the mapping is not marked as owned before it is opened: it leaks when opening fails'
            if val(fs.get('m_alloced', ('u', 0)), {}) not in (0, False):
                why = why or 'the node counts as allocated'
            d = bare(fs.get('m_data', ('u', 0)))
            if not (d[0] == 'call' and d[1] == 'mdata'):
                why = why or ('?' if unknown(d) else 'the data pointer is not the mapping')
        rep(ck, f, 'mmap', why)
    # the mapping itself
    for f in [f for f in pr.funcs.values() if f.qn == ND + 'MMap::open' and f.body is not None]:
        def ev(ip, s, n, ref, obj, args, locs):
            if ref['name'] == 'mmap' and not ref['qn'].startswith('conduit'):
                return [(s.withdom(s.dom | {('map', tuple(args), n.line)}), ('call', 'mmap', (), (n.id,)))]
            if ref['name'] == 'open' and not ref['qn'].startswith('conduit'):
                return [(s, ('call', 'fd', (), (n.id,)))]
            if ref['name'] == 'close' and not ref['qn'].startswith('conduit'):
                return [(s.withdom(s.dom | {('close', bare(args[0]))}), ('call', 'close', (), (n.id,)))]
            return None
        ps, ip = paths(pr, f, RD(inliner(pr, ()), events=ev))
        why = None
        sz = ('p', f.params[1][0], 1)
        for p in ps:
            fs = p.fields()
            mp = [e for e in p.ev if e[0] == 'map']
            if p.kind == 'return' and mp:
                ln = mp[0][1][1]
                if narrowed(ln):
                    why = why or 'the size is cut to 32 bits: only part of a large file is mapped'
                elif bare(ln) != sz:
                    why = why or ('?' if unknown(bare(ln)) else 'another size is mapped than asked for')
                s2 = fs.get('m_data_size')
                if s2 is not None and narrowed(s2):
                    why = why or 'the recorded size is cut to 32 bits: only part of a large mapping is released'
                elif s2 is None or bare(s2) != sz:
                    why = why or '?recorded size'
                for t in terms(p):
                    if t[0] == 'call' and t[1] in ('fd', 'mmap') and feasible(p, {t: -1}):
                        why = why or ('a mapping that failed is taken for a mapping' if t[1] == 'mmap' else 'a file that could not be opened is mapped')
            if p.kind != 'return' and mp:
                d = fs.get('m_data')
                if d is not None and not null(d):
                    why = why or 'a failed mapping stays recorded: it is unmapped later'
                if not [e for e in p.ev if e[0] == 'close']:
                    why = why or 'the file stays open when mapping fails'
        rep(ck, f, 'MMap::open', why)
    for f in [f for f in pr.funcs.values() if f.qn == ND + 'MMap::close' and f.body is not None]:
        def ev(ip, s, n, ref, obj, args, locs):
            if ref['name'] in ('munmap', 'close') and not ref['qn'].startswith('conduit'):
                if ref['name'] == 'munmap' and narrowed(args[1]):
                    s = s.withdom(s.dom | {('narrow',)})
                return [(s.withdom(s.dom | {(ref['name'],) + tuple(bare(a) for a in args)}), ('call', ref['name'], (), (n.id,)))]
            return None
        ps, ip = paths(pr, f, RD(inliner(pr, ()), events=ev))
        why = None
        D = ('fld', T, 'm_data')
        for p in ps:
            if p.kind != 'return':
                continue
            nul = any((strip(t) == D and not b) or (t[0] == 'op' and t[1] == '==' and D in (bare(t[2]), bare(t[3])) and b) for t, b in p.facts.items())
            un = [e for e in p.ev if e[0] == 'munmap']
            cl = [e for e in p.ev if e[0] == 'close']
            fs = p.fields()
            if nul:
                if un:
                    why = why or 'a mapping that is not there is unmapped'
                continue
            if ('narrow',) in p.ev:
                why = why or 'the size is cut to 32 bits: only part of a large mapping is released'
            if len(un) != 1 or un[0][1] != D or un[0][2] != ('fld', T, 'm_data_size'):
                why = why or 'the mapping is not unmapped with its address and size'
            if len(cl) != 1 or cl[0][1] != ('fld', T, 'm_mmap_fd'):
                why = why or 'the file is not closed'
            if not null(fs.get('m_data')):
                why = why or 'the mapping stays recorded: it is unmapped twice'
        rep(ck, f, 'MMap::close', why)
    for f in [f for f in pr.funcs.values() if f.qn == ND + 'MMap::~MMap' and f.body is not None]:
        def ev(ip, s, n, ref, obj, args, locs):
            if ref['name'] == 'munmap' and not ref['qn'].startswith('conduit') or ref['qn'] == ND + 'MMap::close':
                return [(s.withdom(s.dom | {('closed',)}), ('u', 'void'))]
            return None
        ps, ip = paths(pr, f, RD(inliner(pr, ()), events=ev))
        why = None
        for p in ps:
            if p.kind == 'return' and ('closed',) not in p.ev and not any(
                    (strip(t) == D and not b) or (t[0] == 'op' and t[1] == '==' and D in (bare(t[2]), bare(t[3])) and b) for t, b in p.facts.items()):
                why = 'a mapping is destroyed without being unmapped'
        rep(ck, f, '~MMap', why)


def terms(p):
    """the results of the system calls a path asked about or kept"""
    r = set()

    def go(t):
        if isinstance(t, tuple):
            if t and t[0] == 'call' and t[1] in ('fd', 'mmap'):
                r.add(t)
            for x in t:
                go(x)
    for t in p.facts:
        go(t)
    for v in p.fields().values():
        go(v)
    return r


def narrowed(t):
    """the term passed through a 32-bit integer"""
    while isinstance(t, tuple) and t[0] == 'cast':
        if t[1].replace('const ', '') in ('int', 'unsigned int', 'short', 'unsigned short'):
            return True
        t = t[2]
    return False


def registry(ck):
    pr = P.load(lambda r: r in ('conduit/conduit_utils.cpp',))
    fs = {f.qn: f for f in pr.funcs.values() if f.body is not None and '/conduit_utils.cpp' in f.file}
    U = 'conduit::utils::'
    am = U + 'detail::AllocManager::'
    if am + 'register_allocator' not in fs:
        am = next((q[:-len('register_allocator')] for q in fs if q.endswith('AllocManager::register_allocator')), am)
    f = fs.get(am + 'register_allocator')
    if f is None:
        ck.notes.append('allocator registry not found')
        return
    st = set()

    class MD(Sum):
        def init(self):
            return frozenset()

        def on_store(self, ip, s, n, loc, v):
            if loc[0] == '*':
                k = at(loc[1])
                if k:
                    return s.withdom(s.dom | {('put', k[0], k[1], bare(v))})
            return s
    ps, ip = paths(pr, f, MD(inliner(pr, ()), pure=lambda r: r['qn'].startswith('std::map')))
    why = None
    ID = ('fld', T, 'm_allocator_id')
    for p in ps:
        if p.kind != 'return':
            continue
        pu = {e[1]: e[2:] for e in p.ev if e[0] == 'put'}
        if len(pu) != 2:
            why = why or '?registry'
            continue
        ks = {canon(v[0]) for v in pu.values()}
        if len(ks) != 1:
            why = why or 'allocate and free functions are registered under different ids'
        for mp, v in pu.items():
            want = 1 if 'free' in mp else 0
            if v[1] != ('p', f.params[want][0], want):
                why = why or 'the functions are registered in the wrong tables'
        if p.val is not None and canon(p.val) not in ks:
            why = why or ('?' if unknown(p.val) else 'the id returned is not the one registered')
        new = p.env.get(('*', ID))
        if new is None or lin(new) != lin(('op', '+', ID, ('c', 1))):
            why = why or 'the next allocator gets the same id'
    rep(ck, f, 'register_allocator', why)
    for nm, idx, tab in (('allocate', 2, 'm_allocator_map'), ('free', 1, 'm_free_map')):
        f = fs.get(am + nm)
        if f is None:
            continue
        class IC(RD):
            def on_call(self, ip, s, n, ref, obj, args, *r):
                if ref is None and n.k == 'ICall':
                    return [(s.withdom(s.dom | {('icall', bare(obj), tuple(bare(a) for a in args))}), ('u', 'r'))]
                return RD.on_call(self, ip, s, n, ref, obj, args, *r)
        ps, ip = paths(pr, f, IC(inliner(pr, ()), pure=lambda r: True))
        why = None
        for p in ps:
            c = [e for e in p.ev if e[0] == 'icall']
            if p.kind != 'return':
                continue
            if len(c) != 1:
                why = why or '?call'
                continue
            k = at(c[0][1])
            if k is None:
                why = why or '?call'
            elif k[0] != tab:
                why = why or 'the %s function is taken from %s' % (nm, k[0])
            elif k[1] != ('p', f.params[idx][0], idx):
                why = why or ('?' if unknown(k[1]) else 'the function used is not the one registered for the given allocator')
            elif c[0][2] != tuple(('p', f.params[i][0], i) for i in range(idx)):
                why = why or 'it does not pass on its arguments'
        rep(ck, f, 'AllocManager::' + nm, why)
    for nm, am_nm, k in (('conduit_allocate', 'allocate', 3), ('conduit_free', 'free', 2)):
        f = fs.get(U + nm)
        if f is None:
            continue

        def ev(ip, s, n, ref, obj, args, locs):
            if ref['name'] in ('allocate', 'free') and 'AllocManager' in ref['qn']:
                return [(s.withdom(s.dom | {('call', ref['name'], tuple(bare(a) for a in args))}), ('u', 'r'))]
            return None
        ps, ip = paths(pr, f, RD(inliner(pr, ()), events=ev, pure=lambda r: True))
        why = None
        for p in ps:
            c = [e for e in p.ev if e[0] == 'call']
            if p.kind != 'return':
                continue
            if len(c) != 1:
                why = why or '?call'
            elif c[0][1] != am_nm or c[0][2] != tuple(('p', f.params[i][0], i) for i in range(k)):
                why = why or 'it does not pass on its arguments'
        rep(ck, f, nm, why)


def at(t):
    t = bare(t)
    if t[0] == 'call' and t[1].split('::')[-1] in ('operator[]', 'at') and len(t[2]) == 2:
        b = bare(t[2][0])
        if b[0] == 'fld':
            return b[2], bare(t[2][1])
    return None
