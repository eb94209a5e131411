"""V01: blueprint element shapes and grid axes mean the same everywhere.

The shape tables are constants of the program: their initialisers are read from the
syntax tree and every function that answers from them (ShapeType, ShapeCascade) is
summarised path by path; its answers, for every shape, must describe the boundary of
that shape.  The counting and coordinate functions are summarised the same way: what
belongs to one axis is combined with that axis only."""
from common import Check
import prog as P
from summ import *
from loopcov import covers, ranged, bare

U = 'conduit::blueprint::mesh::utils::'
# dimension, number of points, faces (vertex cycles) in the numbering of the Blueprint documentation
SHAPES = {
    'point': (0, 1, ()), 'line': (1, 2, ((0,), (1,))), 'tri': (2, 3, ((0, 1), (1, 2), (2, 0))), 'quad': (2, 4, ((0, 1), (1, 2), (2, 3), (3, 0))),
    'tet': (3, 4, ((0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3))),
    'hex': (3, 8, ((0, 1, 2, 3), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7), (4, 5, 6, 7))),
    'wedge': (3, 6, ((0, 1, 2), (3, 4, 5), (0, 1, 4, 3), (1, 2, 5, 4), (2, 0, 3, 5))),
    'pyramid': (3, 5, ((0, 1, 2, 3), (0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4))),
    'polygonal': (2, -1, None), 'polyhedral': (3, -1, None), 'mixed': (-1, -1, None)}
LETTER = {0: 'p', 1: 'l', 2: 'f', 3: 'c'}
UNDER = {'polygonal': 'line', 'polyhedral': 'polygonal', 'mixed': None, 'point': None}


def const(n):
    """value of a constant initialiser: list, number, string, ('&', table) or None (not resolved)"""
    if n is None:
        return None
    if n.k == 'Int' or n.k == 'Str' or n.k == 'Float':
        return n.d
    if n.k in ('Cast', 'Paren', 'Temp', 'Bind', 'Cleanups', 'ExprWithCleanups'):
        if n.k == 'Cast' and n.d and n.d[0] == 'NullToPointer':
            return 0
        return const(n.c[0]) if n.c else None
    if n.k in ('Null', 'NullPtr', 'CXXNullPtr'):
        return 0
    if n.k == 'InitList':
        return [const(x) for x in n.c]
    if n.k == 'Construct':
        c = [x for x in n.c if x is not None and x.k != 'DefArg']
        return const(c[0]) if len(c) == 1 else None
    if n.k == 'Un' and n.d == '-':
        v = const(n.c[0])
        return -v if isinstance(v, int) else None
    if n.k == 'Un' and n.d == '&':
        x = n.c[0]
        z = True
        while x.k == 'Index':
            z = z and const(x.c[1]) == 0
            x = x.c[0]
            while x.k == 'Cast':
                x = x.c[0]
        return ('&', x.d[3]) if z and x.k == 'Ref' and x.d[0] == 'g' else None
    if n.k == 'Ref' and n.d[0] == 'g':
        return ('&', n.d[3])
    if n.k == 'Index':
        x = n.c[0]
        while x.k == 'Cast':
            x = x.c[0]
        return ('&', x.d[3]) if const(n.c[1]) == 0 and x.k == 'Ref' and x.d[0] == 'g' else None
    for c in n.c:
        if c is not None:
            return const(c) if len(n.c) == 1 else None
    return None


def flat(v):
    return [y for x in v for y in flat(x)] if isinstance(v, list) else [v]


def cyc(f):
    """a vertex cycle up to rotation and direction"""
    f = tuple(f)
    r = [f[i:] + f[:i] for i in range(len(f))]
    g = f[::-1]
    return min(r + [g[i:] + g[:i] for i in range(len(f))])


def boundary(name, faces):
    """why the list of faces is not the boundary of the shape (None: it is); faces may split quads into triangles"""
    want = {cyc(f) for f in SHAPES[name][2]}
    dim, npts = SHAPES[name][:2]
    for f in faces:
        if len(set(f)) != len(f):
            return 'face %s repeats a vertex' % (tuple(f),)
        if any(not isinstance(v, int) or v < 0 or v >= npts for v in f):
            return 'face %s names a vertex outside 0..%d' % (tuple(f), npts - 1)
    left = set(want)
    rest = []
    for f in faces:
        c = cyc(f)
        if c in left:
            left.discard(c)
        else:
            rest.append(tuple(f))
    for q in sorted(left):
        if len(q) != 4:
            return 'face %s of a %s is missing' % (q, name)
        ok = None
        for d in (0, 1):
            a, b = (q[d], q[1 + d], q[2 + d]), (q[2 + d], q[(3 + d) % 4], q[d])
            m = [f for f in rest if cyc(f) in (cyc(a), cyc(b))]
            if len(m) == 2 and {cyc(f) for f in m} == {cyc(a), cyc(b)}:
                ok = m
        if ok is None:
            return 'face %s of a %s is missing or not covered by two triangles' % (q, name)
        for f in ok:
            rest.remove(f)
    if rest:
        return '%s is not a face of a %s' % (rest[0], name)
    return None


def oriented(faces):
    """every directed edge occurs once, and once in the other direction"""
    e = [(f[i], f[(i + 1) % len(f)]) for f in faces for i in range(len(f))]
    return len(set(e)) == len(e) and all((b, a) in e for a, b in e)


class Dom(Sum):
    iters = True
    cap = 3000

    def init(self):
        return frozenset()

    def on_range(self, ip, s, n, c, e):
        return ranged(ip, s, n, c, e)

    def on_store(self, ip, s, n, loc, v):
        l = loc
        if l[0] == '*' and l[1][0] in ('idx', 'p', 'deref', 'call'):
            return s.withdom(s.dom | {('st', l[1], v, n.line)})
        return s


def names(ref):
    return ref['name']


class V:
    def __init__(self, ck, pr):
        self.ck, self.pr = ck, pr
        self.tab = {}
        for q, (f, ln, ty, init) in pr.globals.items():
            if q.startswith(U):
                self.tab[q] = (const(init) if init is not None else None, f, ln)

    def t(self, name):
        return self.tab.get(U + name, (None, '', 0))

    # ------------------------------------------------------------------ tables
    def tables(self):
        ck = self.ck
        shapes, f, ln = self.t('TOPO_SHAPES')
        if not isinstance(shapes, list) or any(not isinstance(x, str) for x in shapes):
            raise P.ToolError('the list of shapes is not resolved')
        self.shapes = shapes
        if len(set(shapes)) != len(shapes):
            ck.bad('shapes:distinct', f, ln, 'TOPO_SHAPES names a shape twice')
        for want in SHAPES:
            if want not in shapes:
                ck.bad('shapes:' + want, f, ln, 'TOPO_SHAPES does not know the shape %s' % want)
            else:
                ck.ok(1)
        cols = {}
        for c in ('IDS', 'DIMS', 'INDEX_COUNTS', 'EMBED_TYPES', 'EMBED_COUNTS', 'EMBEDDINGS'):
            v, cf, cl = self.t('TOPO_SHAPE_' + c)
            if not isinstance(v, list):
                ck.notes.append('TOPO_SHAPE_%s: not resolved' % c)
                continue
            cols[c] = (v, cf, cl)
            if len(v) < len(shapes):
                ck.bad('table:%s:length' % c, cf, cl, 'TOPO_SHAPE_%s has %d entries for %d shapes: asking about %s reads past its end' % (c, len(v), len(shapes), shapes[len(v)]))
            else:
                ck.ok(1, 'TOPO_SHAPE_%s has an entry for every shape' % c)
        self.cols = cols

        def col(c, k):
            return cols[c][0][k] if c in cols and k < len(cols[c][0]) else None
        self.col = col
        for k, nm in enumerate(shapes):
            if nm not in SHAPES:
                ck.notes.append('shape %s is not in the documentation' % nm)
                continue
            dim, npts, faces = SHAPES[nm]
            under = UNDER.get(nm, {1: 'point', 2: 'line'}.get(dim))
            for c, want in (('DIMS', dim), ('INDEX_COUNTS', npts), ('IDS', LETTER.get(dim))):
                g = col(c, k)
                if g is not None and want is not None:
                    self.cell(c, nm, g, want)
            e = col('EMBED_TYPES', k)
            if e is not None:
                if faces is None or not faces:
                    self.cell('EMBED_TYPES', nm, e, -1 if under is None else shapes.index(under) if under in shapes else -1)
                    continue
            cnt, ptr = col('EMBED_COUNTS', k), col('EMBEDDINGS', k)
            if e is None or cnt is None or ptr is None:
                continue
            if not isinstance(e, int) or not 0 <= e < len(shapes) or shapes[e] not in SHAPES or SHAPES[shapes[e]][0] != dim - 1:
                ck.bad('table:EMBED_TYPES:' + nm, *cols['EMBED_TYPES'][1:], 'a %s is said to be bounded by shapes %r' % (nm, shapes[e] if isinstance(e, int) and 0 <= e < len(shapes) else e))
                continue
            rows = self.rows(ptr, SHAPES[shapes[e]][1], cnt, nm)
            if rows is None:
                continue
            why = boundary(nm, rows)
            if why:
                ck.bad('embedding:' + nm, *self.tab[ptr[1]][1:], 'the %s sides of a %s: %s' % (cnt, nm, why))
            else:
                ck.ok(len(rows), 'sides of %s: %s' % (nm, rows))
        ck.count('shapes', len(shapes))

    def cell(self, c, nm, got, want):
        if got != want:
            self.ck.bad('table:%s:%s' % (c, nm), *self.cols[c][1:], 'TOPO_SHAPE_%s says %r for %s, which is %r' % (c, got, nm, want))
        else:
            self.ck.ok(1)

    def rows(self, ptr, width, cnt, nm):
        ck = self.ck
        if not (isinstance(ptr, tuple) and ptr[0] == '&') or ptr[1] not in self.tab:
            if ptr == 0:
                ck.bad('embedding:' + nm, *self.cols['EMBEDDINGS'][1:], 'the sides of a %s are not described' % nm)
            else:
                ck.notes.append('sides of %s not resolved' % nm)
            return None
        v = flat(self.tab[ptr[1]][0] or [])
        if any(not isinstance(x, int) for x in v):
            ck.notes.append('sides of %s not resolved' % nm)
            return None
        if len(v) < width * cnt:
            ck.bad('embedding:' + nm, *self.tab[ptr[1]][1:], 'the table of the sides of a %s holds %d numbers, %d sides of %d points are read from it' % (nm, len(v), cnt, width))
            return None
        return [v[i * width:(i + 1) * width] for i in range(cnt)]

    # --------------------------------------------------------------- evaluation
    def ev(self, t, a):
        """value of a term for a given shape: number, string, ('&', table, offset) or None"""
        t = strip(t)
        if t in a:
            return a[t]
        if t[0] == 'c':
            return 0 if t[1] is None else int(t[1]) if isinstance(t[1], bool) else t[1]
        if t[0] == 'szof':
            b, _, r = t[1].partition('[')
            n = 8 if b.strip() in ('long', 'unsigned long', 'long long') else None
            for x in r.replace(']', '').split('['):
                n = n * int(x) if n and x.isdigit() else None if x else n
            return n
        if t[0] == 'glob':
            q = t[1]
            for nm in ('wedge', 'pyramid'):
                if q.endswith('::%s_id' % nm):
                    return self.shapes.index(nm) if nm in self.shapes else None
            v = self.tab.get(q, (None,))[0]
            return v if isinstance(v, int) else ('&', q, 0) if isinstance(v, list) else None
        if t[0] == 'call' and t[1].split('::')[-1] in ('operator[]', 'at') and len(t[2]) == 2:
            c, i = bare(t[2][0]), self.ev(t[2][1], a)
            if c[0] == 'glob' and isinstance(i, int):
                v = self.tab.get(c[1], (None,))[0]
                if isinstance(v, list) and 0 <= i < len(v):
                    x = v[i]
                    return ('&', x[1], 0) if isinstance(x, tuple) else x
            return None
        if t[0] == 'op':
            x, y = self.ev(t[2], a), self.ev(t[3], a)
            if x is None or y is None:
                return None
            if t[1] in ('+', '-') and isinstance(x, tuple) and isinstance(y, int):
                return ('&', x[1], x[2] + (y if t[1] == '+' else -y))
            if t[1] == '+' and isinstance(y, tuple) and isinstance(x, int):
                return ('&', y[1], y[2] + x)
            if isinstance(x, tuple) or isinstance(y, tuple):
                return {'==': int(x == y), '!=': int(x != y)}.get(t[1])
            try:
                return {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '==': lambda: int(x == y), '<': lambda: int(x < y), '!=': lambda: int(x != y),
                        '>': lambda: int(x > y), '<=': lambda: int(x <= y), '>=': lambda: int(x >= y), '&&': lambda: int(bool(x and y)), '||': lambda: int(bool(x or y))}[t[1]]()
            except (KeyError, TypeError):
                return None
        if t[0] == 'un':
            x = self.ev(t[2], a)
            return None if x is None else int(not x) if t[1] == '!' else -x if t[1] == '-' and isinstance(x, int) else None
        if t[0] == 'ld':
            x = self.ev(t[2], a)
            if not isinstance(x, tuple):
                return None
            if '[' in t[1]:
                return x
            v = flat(self.tab.get(x[1], (None,))[0] or [])
            return v[x[2] // 8] if x[2] % 8 == 0 and 0 <= x[2] // 8 < len(v) else None
        if t[0] == 'addr':
            x = t[1]
            if x[0] == 'idx':
                b, i = self.ev(x[1], a), self.ev(x[2], a)
                return ('&', b[1], b[2] + 8 * i) if isinstance(b, tuple) and isinstance(i, int) else None
            if x[0] == 'ld':
                return self.ev(x[2], a)
            return self.ev(x, a)
        if t[0] == 'idx':
            b, i = self.ev(t[1], a), self.ev(t[2], a)
            if isinstance(b, tuple) and isinstance(i, int):
                v = flat(self.tab.get(b[1], (None,))[0] or [])
                o = b[2] // 8 + i
                return v[o] if 0 <= o < len(v) else None
            return None
        if t[0] == 'deref':
            return self.ev(('ld', 'long', t[1]), a)
        return None

    def poss(self, ps, a):
        """paths not contradicted by the assignment, and whether all their conditions were decided"""
        out = []
        for p in ps:
            sure = True
            for t, b in p.facts.items():
                v = self.ev(t, a)
                if v is None:
                    sure = False
                elif bool(v) != b:
                    break
            else:
                out.append((p, sure))
        return out

    def shape_fields(self, k):
        """the fields ShapeType takes for shape number k, as the tables give them"""
        f = lambda x: ('fld', ('this',), x)
        e = self.col('EMBEDDINGS', k)
        return {f('id'): k, f('dim'): self.col('DIMS', k), f('indices'): self.col('INDEX_COUNTS', k), f('embed_id'): self.col('EMBED_TYPES', k),
                f('embed_count'): self.col('EMBED_COUNTS', k), f('type'): self.shapes[k], f('embedding'): ('&', e[1], 0) if isinstance(e, tuple) else 0}

    # ---------------------------------------------------------------- functions
    def run(self, f, inl=None):
        base = inliner(self.pr, (), skip=())

        def g(ref):
            if inl is not None and ref['qn'].startswith(inl):
                return True
            return base(ref) and not ref['qn'].startswith(U + 'ShapeType::') and ref['qn'] not in KNOWN
        try:
            return paths(self.pr, f, Dom(inl=g, pure=lambda ref: ref['name'] not in ('init',), events=self.event))
        except P.ToolError as e:
            self.ck.notes.append('%s: %s' % (f.qn, e))
            return None, None

    def event(self, ip, s, n, ref, obj, args, locs):
        nm = ref['name']
        if nm == 'init' and ref['qn'].startswith(U):
            return [(s.withdom(s.dom | {('init', tuple(args), n.line, n.id)}), ('u', 'void'))]
        if nm in ('push_back', 'set', 'to_data_type', 'set_external', 'operator=', 'operator*=', 'operator+=') and not ref['qn'].startswith('std::basic_string'):
            if ref['qn'].startswith(('std::vector', 'conduit::Node')):
                return [(s.withdom(s.dom | {(nm, obj, tuple(args), n.line)}), ('u', 'void'))]
        return None

    def shapetype(self):
        ck, pr = self.ck, self.pr
        st = U + 'ShapeType::'
        for f in pr.get(st + 'init'):
            if len(f.params) != 1:
                continue
            arg = ('p', f.params[0][0], 0)
            if 'basic_string' in f.params[0][2]:
                self.byname(f, arg)
                continue
            ps, ip = self.run(f, st + 'init')
            if ps is None:
                continue
            for k in [-1, len(self.shapes)] + list(range(len(self.shapes))):
                valid = 0 <= k < len(self.shapes)
                want = self.shape_fields(k) if valid else {('fld', ('this',), x): -1 for x in ('id', 'dim')}
                a = {arg: k, ('call', '', (), ()): 0}
                for t in {t for p in ps for q in p.facts for t in sub(q)}:
                    if t[0] == 'call' and t[1].endswith('::size') and bare(t[2][0])[0] == 'glob':
                        v = self.tab.get(bare(t[2][0])[1], (None,))[0]
                        if isinstance(v, list):
                            a[t] = len(v)
                for p, sure in self.poss(ps, a):
                    if p.kind != 'return':
                        continue
                    got = p.fields()
                    for (x, w) in want.items():
                        if w is None or x[2] not in got and not sure:
                            continue
                        g = self.ev(got[x[2]], a) if x[2] in got else 'nothing'
                        if g is None:
                            if valid and not unknown(got[x[2]]) and mentions(got[x[2]], lambda y: y == arg):
                                ck.bad('init:%s' % x[2], f.file, f.line, 'ShapeType(%s): %s reads %s, which has no entry for it' % (self.shapes[k], x[2], show(got[x[2]]).replace(U, '')))
                            else:
                                ck.notes.append('init(%s): %s not resolved' % (k, x[2]))
                        elif g != w:
                            ck.bad('init:%s' % x[2], f.file, f.line, 'ShapeType(%s): %s becomes %s instead of %s' % (self.shapes[k] if valid else k, x[2], g, w))
                        else:
                            ck.ok(1)
        table = {'is_poly': lambda n, d: n in ('polygonal', 'polyhedral'), 'is_polygonal': lambda n, d: n == 'polygonal', 'is_polyhedral': lambda n, d: n == 'polyhedral',
                 'is_valid': lambda n, d: True}
        nf = 0
        for nm, want in table.items():
            for f in pr.get(st + nm):
                ps, ip = self.run(f, st + 'is_')
                if ps is None:
                    continue
                nf += 1
                for k, sh in enumerate(self.shapes):
                    if sh not in SHAPES:
                        continue
                    a = self.shape_fields(k)
                    for p, sure in self.poss(ps, a):
                        if p.kind != 'return' or p.val is None or not sure:
                            continue
                        v = self.ev(p.val, a)
                        if v is None:
                            ck.notes.append('%s(%s) not resolved' % (nm, sh))
                        elif bool(v) != want(sh, None):
                            ck.bad('%s:%s' % (nm, sh), f.file, p.node.line if p.node else f.line, '%s() says %s for %s' % (nm, bool(v), sh))
                        else:
                            ck.ok(1)
        num = {}
        for f in pr.get(st + 'num_faces'):
            ps, ip = self.run(f)
            for k, sh in enumerate(self.shapes):
                if ps is None or not SHAPES.get(sh, (0, 0, None))[2]:
                    continue
                a = self.shape_fields(k)
                for p, sure in self.poss(ps, a):
                    v = self.ev(p.val, a) if p.kind == 'return' and p.val is not None else None
                    if v is None or not sure:
                        ck.notes.append('num_faces(%s) not resolved' % sh)
                        continue
                    num[sh] = v
                    if v != len(SHAPES[sh][2]):
                        ck.bad('num_faces:' + sh, f.file, p.node.line if p.node else f.line, 'num_faces() says %s for %s, which has %d' % (v, sh, len(SHAPES[sh][2])))
                    else:
                        ck.ok(1)
            nf += 1
        for f in pr.get(st + 'get_face'):
            ps, ip = self.run(f)
            if ps is None or len(f.params) != 2:
                continue
            nf += 1
            fp, np = ('p', f.params[0][0], 0), ('p', f.params[1][0], 1)
            for k, sh in enumerate(self.shapes):
                if sh not in SHAPES or not SHAPES[sh][2]:
                    continue
                faces, why = [], None
                for i in range(len(SHAPES[sh][2])):
                    a = dict(self.shape_fields(k), **{})
                    a[fp] = i
                    cand = self.poss(ps, a)
                    if len(cand) != 1 or not cand[0][1] or cand[0][0].kind != 'return':
                        why = '?'
                        break
                    p = cand[0][0]
                    n = p.env.get(('*', np))
                    n = self.ev(n, a) if n is not None else None
                    b = self.ev(p.val, a)
                    if not isinstance(n, int) or not isinstance(b, tuple):
                        why = '?'
                        break
                    v = flat(self.tab[b[1]][0])
                    o = b[2] // 8
                    if b[2] % 8 or o < 0 or n < 1 or o + n > len(v):
                        why = 'get_face(%d) of a %s reads %s[%d..%d] of %d' % (i, sh, b[1].split('::')[-1], o, o + n - 1, len(v))
                        break
                    faces.append(v[o:o + n])
                if why == '?':
                    ck.notes.append('get_face(%s) not resolved' % sh)
                    continue
                why = why or boundary(sh, faces) or (len(faces) != len(SHAPES[sh][2]) and 'wrong number of faces') or (
                    'the faces of a %s are not all turned the same way (outwards)' % sh if SHAPES[sh][0] == 3 and not oriented(faces) else None)
                if why:
                    ck.bad('get_face:' + sh, f.file, f.line, why)
                else:
                    ck.ok(len(faces), 'get_face: %s %s' % (sh, faces))
        ck.count('shape functions', nf)

    def byname(self, f, arg):
        ck = self.ck
        ps, ip = self.run(f)
        if ps is None:
            return
        hit = False
        for p in ps:
            if p.kind != 'return':
                continue
            for e in p.ev:
                if e[0] != 'init':
                    continue
                v = strip(e[1][-1])
                if v == ('c', -1):
                    continue
                eq = [t for t, b in ip.at(e[3]).items() if b] if hasattr(ip, 'at') else None
                if v[0] == 'it':
                    hit = True
                    why = covers(ip, p, v, lambda b: b[0] == 'call' and b[1].endswith('::size') and bare(b[2][0]) == ('glob', U + 'TOPO_SHAPES'))
                    if why and not why.startswith('?') and 'end before' not in why:
                        ck.bad('init:name', f.file, e[2], 'looking a shape up by name: %s' % why)
                    else:
                        ck.ok(1)
        if not hit:
            ck.notes.append('lookup by name not resolved')

    def bytopo(self):
        """ShapeType(topology): the shape named, or the one the dimension implies"""
        ck, pr = self.ck, self.pr
        for f in pr.get(U + 'ShapeType::ShapeType'):
            if len(f.params) != 1 or 'Node' not in f.params[0][2]:
                continue
            ps, ip = self.run(f)
            if ps is None:
                continue
            n = 0
            for p in ps:
                if p.kind != 'return':
                    continue
                ini = [e for e in p.ev if e[0] == 'init' and strip(e[1][-1]) != ('c', -1)]
                if len(ini) != 1:
                    if not ini:
                        ck.notes.append('ShapeType(topology): a path without shape')
                    continue
                v = strip(ini[0][1][-1])
                dim = [t[3][1] if t[3][0] == 'c' else t[2][1] for t, b in p.facts.items() if b and t[0] == 'op' and t[1] == '==' and
                       any(strip(x)[0] == 'call' and strip(x)[1].endswith('coordset::dims') for x in t[2:4]) and any(strip(x)[0] == 'c' for x in t[2:4])]
                ty = [strip(t[3])[1] for t, b in p.facts.items() if b and t[0] == 'op' and t[1] == '==' and 'as_string' in str(t[2])[:400] and strip(t[3])[0] == 'c']
                n += 1
                if v[0] == 'c':
                    want = {0: 'point', 1: 'line', 2: 'quad', 3: 'hex'}.get(dim[0]) if dim else 'point' if 'points' in ty else None
                    if want is None:
                        ck.notes.append('ShapeType(topology): condition of %s not resolved' % v[1])
                    elif v[1] != want:
                        ck.bad('topology:%s' % want, f.file, ini[0][2], 'a %s topology is taken to be made of %s, not %s' % ('%d-dimensional' % dim[0] if dim else 'points', v[1], want))
                    else:
                        ck.ok(1)
                elif 'shape' not in str(v) and not unknown(v):
                    ck.bad('topology:named', f.file, ini[0][2], 'the shape is read from %s' % show(v))
                else:
                    ck.ok(1)
            ck.count('topology cases', n)

    def cascade(self):
        """level d of a cascade is the boundary shape of level d + 1; their number is the product of the levels between"""
        ck = self.ck
        for f in self.pr.get(U + 'ShapeCascade::get_num_embedded'):
            ps, ip = self.run(f)
            for p in ps or ():
                v = strip(p.val) if p.kind == 'return' and p.val is not None else None
                if v is None or v[0] != 'it':
                    continue
                for x in ip.starts.get(v, ()):
                    l = lin(x)
                    if l == {(): 1}:
                        ck.ok(1)
                        continue
                    k = [m for m in l if v in m]
                    if len(l) == 1 and k and l[k[0]] == 1 and len(k[0]) == 2:
                        o = [y for y in k[0] if y != v][0] if k[0][0] != k[0][1] else v
                        if o[0] == 'fld' and o[2] != 'embed_count':
                            ck.bad('cascade:count', f.file, f.line, 'the number of embedded shapes multiplies %s' % show(o))
                        else:
                            ck.ok(1)

    # -------------------------------------------------------- counts and offsets
    def ax(self, t):
        """(kind, index) of an axis name: 'L' logical (i, j, k), 'C' coordinate (x, y, z, ...)"""
        t = bare(t)
        if t[0] == 'call' and t[1].split('::')[-1] in ('operator[]', 'at') and len(t[2]) == 2:
            c = bare(t[2][0])
            if c == ('glob', U + 'LOGICAL_AXES'):
                return 'L', strip(t[2][1])
            if c[0] == 'call' and c[1].endswith('coordset::axes') or c[0] == 'fld' and c[2] == 'second' or c[0] == 'glob' and c[1].endswith('_AXES'):
                return 'C', strip(t[2][1])
        return None

    def node(self, t):
        """path below a node as list of constants and axes, outermost first, or None"""
        t = bare(t)
        out = []
        while t[0] == 'call' and t[1].split('::')[-1] in ('operator[]', 'fetch_existing', 'fetch', 'child', 'fetch_ptr') and len(t[2]) == 2:
            k = strip(t[2][1])
            a = self.ax(k)
            if a:
                out.insert(0, a)
            elif k[0] == 'c' and isinstance(k[1], str):
                out[:0] = k[1].split('/')
            elif k[0] == 'call' and k[1].split('::')[-1] == 'operator+' and strip(k[2][0]) == ('c', 'd') and self.ax(k[2][1]):
                a = self.ax(k[2][1])
                out.insert(0, ('d' + a[0], a[1]))
            else:
                out.insert(0, ('?', k))
            t = bare(t[2][0])
        return out

    def quantity(self, t):
        """('dims'|'len'|'origin'|'spacing', axis index) of an axis, or None"""
        t = strip(t)
        if t[0] == 'call':
            n = t[1].split('::')[-1]
            if n.startswith(('to_', 'as_')) and t[2]:
                p = self.node(t[2][0])
                if len(p) >= 2 and p[-2] in ('dims', 'origin', 'spacing') and isinstance(p[-1], tuple):
                    want = {'dims': 'L', 'origin': 'C', 'spacing': 'dC'}[p[-2]]
                    return (p[-2], p[-1][1]) if p[-1][0] == want else ('wrong', '%s looked up by a %s axis name' % (p[-2], p[-1][0]))
            if n == 'number_of_elements' and t[2]:
                d = bare(t[2][0])
                if d[0] == 'call' and d[1].split('::')[-1] == 'dtype':
                    p = self.node(d[2][0])
                    if len(p) >= 2 and p[-2] == 'values' and isinstance(p[-1], tuple):
                        return ('len', p[-1][1]) if p[-1][0] == 'C' else ('wrong', 'values looked up by a %s axis name' % p[-1][0])
        return None

    def ctype(self, p):
        """the grid type this path is about"""
        for t, b in p.facts.items():
            if b and t[0] == 'op' and t[1] == '==':
                for x in (strip(t[2]), strip(t[3])):
                    if x[0] == 'c' and x[1] in ('uniform', 'rectilinear', 'structured', 'explicit', 'points', 'unstructured'):
                        return x[1]
        return None

    def grids(self):
        ck = self.ck
        n = 0
        for qn, minus in ((U + 'coordset::logical_dims', 0), (U + 'topology::logical_dims', 1)):
            for f in self.pr.get(qn):
                ps, ip = self.run(f)
                for p in ps or ():
                    for e in p.ev:
                        if e[0] != 'st' or e[1][0] != 'idx' or bare(e[1][1])[0] != 'p':
                            continue
                        n += self.extent(f, p, e, minus)
        for f in self.pr.get(U + 'coordset::length'):
            ps, ip = self.run(f)
            for p in ps or ():
                v = strip(p.val) if p.kind == 'return' and p.val is not None else None
                if v is None or v[0] != 'it':
                    continue
                prod = [self.quantity(y) for x in ip.starts.get(v, ()) for m in lin(x) if v in m for y in m if y != v]
                if prod and all(prod) and {q[0] for q in prod} != {'dims', 'len'}:
                    ck.bad('length:coordset', f.file, f.line, 'the number of points of a uniform or rectilinear coordset is not the product over its axes (multiplied: %s)' % ', '.join(sorted({q[0] for q in prod})))
                for x in ip.starts.get(v, ()):
                    q = self.quantity(x)
                    l = lin(x)
                    if q and q[0] == 'len' or l == {(): 1}:
                        ck.ok(1)
                        continue
                    k = list(l)
                    if len(k) == 1 and l[k[0]] == 1 and v in k[0] and len(k[0]) == 2:
                        q = self.quantity([y for y in k[0] if y != v][0])
                        if q is None:
                            ck.notes.append('coordset::length: %s' % show(x)[:80])
                        elif q[0] not in ('dims', 'len'):
                            ck.bad('length:coordset', f.file, f.line, 'the number of points multiplies %s' % show(x))
                        else:
                            ck.ok(1)
                            n += 1
                    elif all(y == v or self.quantity(y) for m in k for y in m):
                        ck.bad('length:coordset', f.file, f.line, 'the number of points becomes %s' % show(x)[:160])
        for f in self.pr.get(U + 'topology::length'):
            ps, ip = self.run(f)
            for p in ps or ():
                if p.kind != 'return' or p.val is None:
                    continue
                l = lin(p.val)
                ix = sorted(str(sub_index(y)) for m in l for y in m)
                if len(l) == 1 and list(l.values()) == [1] and ix == ['0', '1', '2']:
                    ck.ok(1)
                    n += 1
                elif all(sub_index(y) is not None for m in l for y in m):
                    ck.bad('length:topology', f.file, f.line, 'the number of elements is %s' % show(p.val))
        for qn, what, dflt in ((U + 'coordset::uniform::spacing', 'spacing', 1), (U + 'coordset::uniform::origin', 'origin', 0)):
            for f in self.pr.get(qn):
                ps, ip = self.run(f)
                for p in ps or ():
                    if p.kind == 'return' and p.val is not None:
                        v = bare(p.val)
                        if v[0] == 'call' and v[1].split('::')[-1] == 'vector' and len(v[2]) > 1:
                            d = strip(v[2][1])
                            if d[0] == 'c' and d[1] != dflt:
                                ck.bad('default:' + what, f.file, f.line, 'a missing %s counts as %s' % (what, d[1]))
                            else:
                                ck.ok(1)
                    for e in p.ev:
                        if e[0] == 'st' and e[1][0] == 'call' and len(e[1][2]) == 2:
                            n += self.same_axis(f, e, what)
        ck.count('extents and axis values', n)

    def same_axis(self, f, e, what):
        q = self.quantity(e[2])
        i = strip(e[1][2][1])
        if q is None or unknown_but_it(i):
            self.ck.notes.append('%s: %s not resolved' % (f.qn, show(e[2])[:80]))
            return 0
        if q[0] != what or q[1] != i:
            self.ck.bad('axis:%s' % f.qn.split('::')[-1], f.file, e[3], '%s: entry %s takes %s' % (f.qn, show(i), show(e[2])[:160]))
            return 1
        self.ck.ok(1)
        return 1

    def extent(self, f, p, e, minus):
        """a stored extent belongs to its axis and counts points (or elements, one less)"""
        ck = self.ck
        i = strip(e[1][2])
        v = strip(e[2])
        ty = self.ctype(p)
        l = lin(v)
        q = [(self.quantity(y), m) for m in l for y in m]
        q = [(x, m) for x, m in q if x]
        key = 'extent:%s' % f.qn[len(U):]
        if not q:
            if v[0] == 'op' and v[1] == '/':
                d = strip(v[3])
                if d[0] == 'fld' and d[2] != 'indices':
                    ck.bad(key, f.file, e[3], '%s: elements of a fixed shape are counted as connectivity entries / %s' % (f.qn, d[2]))
                    return 1
                ck.ok(1)
                return 1
            return 0
        if len(q) != 1:
            return 0
        (kind, ix), m = q[0]
        if kind == 'wrong':
            ck.bad(key, f.file, e[3], '%s: %s' % (f.qn, ix))
            return 1
        if ix != i and not (unknown(i) and i[0] != 'it'):
            ck.bad(key, f.file, e[3], '%s: the extent of axis %s is taken from axis %s' % (f.qn, show(i), show(ix)))
            return 1
        if len(m) == 1 and l[m] == 1 and set(l) <= {m, ()}:
            k = -l.get((), 0)
            if ty in ('uniform', 'rectilinear') and k != minus:
                ck.bad(key, f.file, e[3], '%s: along an axis with n points of a %s grid the extent is n - %d, not n - %d' % (f.qn, ty, k, minus))
                return 1
            if ty == 'uniform' and kind != 'dims' or ty == 'rectilinear' and kind != 'len':
                ck.bad(key, f.file, e[3], '%s: the extent of a %s grid is read from its %s' % (f.qn, ty, {'dims': 'dims', 'len': 'values'}.get(kind, kind)))
                return 1
        ck.ok(1, '%s: %s' % (f.qn[len(U):], show(v)[:100].replace(U, '')))
        return 1

    def coords(self):
        """converted coordinates are origin + index * spacing of the same axis, stored at their index"""
        ck = self.ck
        n = 0
        for f in self.pr.funcs.values():
            if f.name not in ('convert_coordset_to_rectilinear', 'convert_coordset_to_explicit') or f.body is None:
                continue
            ps, ip = self.run(f)
            asked = {}
            for p in ps or ():
                has = asked[id(p)] = {}
                for t, b in p.facts.items():
                    if t[0] == 'call' and t[1].split('::')[-1] in ('has_child', 'has_path') and len(t[2]) == 2 and strip(t[2][1])[0] == 'c':
                        has[strip(t[2][1])[1]] = b
            known = set(k for h in asked.values() for k in h)
            for p in ps or ():
                has = asked[id(p)]
                idx = set()
                for e in p.ev:
                    if e[0] == 'set' and len(e[2]) == 1:
                        x = strip(e[2][0])
                        if x[0] != 'op' or x[1] not in ('+', '-'):
                            continue
                        A, B = strip(x[2]), strip(x[3])
                        if B[0] != 'op' or B[1] != '*':
                            A, B = B, A
                        if x[1] != '+' or B[0] != 'op' or B[1] != '*':
                            if self.quantity(A) or self.quantity(B):
                                ck.bad('coords:%s' % f.name, f.file, e[3], '%s: a coordinate becomes %s' % (f.name, show(x)[:200].replace(U, '')))
                            continue
                        d, S = strip(B[2]), strip(B[3])
                        if self.quantity(d) or d[0] == 'c':
                            d, S = S, d
                        if d[0] != 'it':
                            continue
                        n += 1
                        idx.add(d)
                        qa, qs = self.quantity(A), self.quantity(S)
                        why = None
                        if qa is not None and qa[0] != 'origin':
                            why = 'starts at the %s' % (qa,)
                        elif qs is not None and qs[0] != 'spacing':
                            why = 'advances by the %s' % (qs,)
                        elif qa and qs and qa[1] != qs[1]:
                            why = 'mixes the origin of one axis and the spacing of another'
                        elif qa is None and A[0] == 'c' and A[1] != 0:
                            why = 'starts at %s without an origin' % A[1]
                        elif qs is None and S[0] == 'c' and S[1] != 1:
                            why = 'advances by %s without a spacing' % S[1]
                        elif has.get('origin') and qa is None and A[0] == 'c' or has.get('spacing') and qs is None and S[0] == 'c':
                            why = 'ignores the %s given' % ('origin' if qa is None and has.get('origin') else 'spacing')
                        elif 'origin' in known and 'origin' not in has and qa is None and A[0] == 'c':
                            why = 'takes the default origin without asking for one'
                        elif 'spacing' in known and 'spacing' not in has and qs is None and S[0] == 'c':
                            why = 'takes the default spacing without asking for one'
                        if why:
                            ck.bad('coords:%s' % f.name, f.file, e[3], '%s: a coordinate %s' % (f.name, why))
                        else:
                            ck.ok(1)
                for e in p.ev:
                    if e[0] != 'set_external':
                        continue
                    for y in e[2]:
                        y = strip(y)
                        if y[0] == 'call' and y[1].endswith('element_ptr') and 'values' in self.node(y[2][0]):
                            l = lin(y[2][1])
                            m = [k for k in l if any(z in idx for z in k)]
                            if idx and all(z[0] == 'it' or z[0] == 'ld' for k in l for z in k) and not m and 'rectilinear' in f.name:
                                ck.bad('coords:%s' % f.name, f.file, e[3], '%s: coordinate number %s is stored at index %s' % (f.name, [show(z) for z in idx], show(y[2][1])[:120]))
                            elif () in l and 'rectilinear' in f.name:
                                ck.bad('coords:%s' % f.name, f.file, e[3], '%s: coordinates are stored shifted by %d' % (f.name, l[()]))
                            else:
                                ck.ok(1)
        ck.count('coordinate formulas', n)

    def offsets(self):
        """generated offsets are running sums of the sizes, from zero, each stored before its size is added"""
        ck = self.ck
        n = 0
        for f in self.pr.get(U + 'topology::unstructured::generate_offsets'):
            if len(f.params) != 3:
                continue
            ps, ip = self.run(f)
            seen = set()
            for p in ps or ():
                for e in p.ev:
                    if e in seen or e[0] not in ('st', 'push_back'):
                        continue
                    seen.add(e)
                    if e[0] == 'st' and e[1][0] == 'call' and len(e[1][2]) == 2 and 'map' in str(bare(e[1][2][0]))[:60]:
                        v = strip(e[2])
                        if v[0] == 'call' and v[1].endswith('operator[]') and bare(v[2][0])[0] == 'glob':
                            n += 1
                            t = bare(v[2][0])[1].split('::')[-1]
                            if t != 'TOPO_SHAPE_INDEX_COUNTS':
                                ck.bad('offsets:stream', f.file, e[3], 'the points of a streamed element are counted by %s' % t)
                            else:
                                ck.ok(1)
                        continue
                    x = strip(e[2] if e[0] == 'st' else e[2][0])
                    i = strip(e[1][2][1]) if e[0] == 'st' and e[1][0] == 'call' and len(e[1][2]) == 2 else None
                    dest = f.params[1][0] if f.params[1][0] in str(e[1]) else f.params[2][0] if f.params[2][0] in str(e[1]) else None
                    if x[0] != 'it':
                        l = lin(x)
                        m = list(l)
                        if len(m) == 1 and i is not None and i in m[0] and len(m[0]) == 2:
                            o = [y for y in m[0] if y != i][0]
                            n += 1
                            if l[m[0]] != 1 or o[0] == 'fld' and o[2] != 'indices':
                                ck.bad('offsets:fixed', f.file, e[3], 'the offset of element e of a fixed shape is %s' % show(x))
                            else:
                                ck.ok(1)
                        elif any(y[0] == 'it' and any(strip(z) != y and mentions(z, lambda w: w == y) for z in ip.starts.get(y, ())) and y != i for k in m for y in k):
                            n += 1
                            ck.bad('offsets:running', f.file, e[3], 'an offset is stored as %s: after the size of the element itself was added' % show(canon(x))[:160])
                        elif not unknown(x) and i is not None:
                            ck.bad('offsets:running', f.file, e[3], 'an offset is stored as %s' % show(x))
                        continue
                    n += self.running(f, ip, x, i, e, dest)
        ck.count('offset stores', n)

    def restarts(self, f, x, v):
        """the loop of x runs again and again, appending to something that outlives it"""
        if v[0] == 'it':
            v = v[3]
        if x[1] or v[0] != 'v' or v[1]:
            return False
        for o in f.body.walk():
            if o.k in ('For', 'While', 'Do', 'RangeFor') and o.id != x[2]:
                sub = list(o.walk())
                if any(y.id == x[2] for y in sub) and not any(y.k == 'Var' and y.d[1] == v[2] for y in sub):
                    return True
        return False

    def running(self, f, ip, x, i, e, dest):
        ck = self.ck
        k = 0
        for s in ip.starts.get(x, ()):
            s = strip(s)
            l = lin(s)
            if s[0] == 'c' and e[0] == 'push_back' and self.restarts(f, x, bare(e[1])):
                ck.bad('offsets:start', f.file, e[3], 'the running offset starts at %s again for every group of elements' % (s[1],))
                continue
            if s[0] == 'it' and s != x:
                k += 1
                continue
            if (x,) in l and l[(x,)] == 1:
                rest = {m: c for m, c in l.items() if m != (x,)}
                if len(rest) != 1:
                    ck.bad('offsets:running', f.file, e[3], 'an offset advances by %s' % show(s)[:160])
                    continue
                m, c = list(rest.items())[0]
                o = m[0] if len(m) == 1 else None
                if c != 1:
                    ck.bad('offsets:running', f.file, e[3], 'an offset advances by %s' % show(s)[:160])
                elif o and o[0] == 'call' and o[1].split('::')[-1] == 'operator[]':
                    c0 = str(bare(o[2][0]))
                    if i is not None and strip(o[2][1])[0] in ('it', 'c', 'lin', 'op') and canon(o[2][1]) != canon(i) and 'map' not in c0[:60]:
                        ck.bad('offsets:running', f.file, e[3], 'offset %s advances by size %s' % (show(i), show(o[2][1])))
                    elif dest and ('subelements/sizes' in c0) != ('sub' in dest) and 'sizes' in c0:
                        ck.bad('offsets:running', f.file, e[3], '%s is computed from the other sizes' % dest)
                    else:
                        ck.ok(1)
                        k += 1
                continue
            if not l or s == ('c', 0):
                ck.ok(1)
                k += 1
            elif s[0] == 'c':
                ck.bad('offsets:start', f.file, e[3], 'the first offset is %s' % s[1])
            elif s[0] == 'call' and s[1].split('::')[-1].startswith('to_') and self.node(s[2][0]) and self.node(s[2][0])[-1] == 'offsets' and not mentions(s, lambda y: y[0] == 'call' and y[1].endswith('element_ptr')):
                ck.bad('offsets:group', f.file, e[3], 'every group of streamed elements starts at the first of the given offsets')
            else:
                k += 1
        return k

    def lookups(self):
        """a shape found by its name is asked for its number of points, at its own index"""
        ck = self.ck
        n = 0
        for f in self.pr.funcs.values():
            if f.body is None or f.qn.startswith((U + 'ShapeType::', U + 'ShapeCascade::')) or not f.qn.startswith('conduit::blueprint'):
                continue
            for x in f.body.walk():
                if x.k != 'If':
                    continue
                js = {y for y in map(shape_at, x.c[0].walk() if x.c[0] is not None else ()) if y and y[0] == 'TOPO_SHAPES'}
                if not js:
                    # the condition may be another child
                    js = {y for c in x.c[:2] if c is not None for y in map(shape_at, c.walk()) if y and y[0] == 'TOPO_SHAPES'}
                if len(js) != 1:
                    continue
                j = list(js)[0]
                for c in x.c[1:2] if len(x.c) < 3 else x.c[1:]:
                    if c is None:
                        continue
                    for y in c.walk():
                        a = shape_at(y)
                        if not a or a[0] == 'TOPO_SHAPES':
                            continue
                        n += 1
                        if a[1] != j[1]:
                            ck.bad('lookup:%s' % f.qn, f.file, y.line, '%s: shape %s is found, but entry %s of %s is read' % (f.qn, j[1], a[1], a[0]))
                        elif a[0] == 'TOPO_SHAPE_EMBED_COUNTS':
                            ck.bad('lookup:%s' % f.qn, f.file, y.line, '%s: the number of points of a shape found by name is read from %s' % (f.qn, a[0]))
                        else:
                            ck.ok(1)
        ck.count('lookups by name', n)

    def enum(self):
        for q, vals in self.pr.enums.items():
            if q.split('::')[-1] != 'ShapeId':
                continue
            for k, v in vals.items():
                nm = k.split('::')[-1].lower()
                if nm in self.shapes:
                    if v != self.shapes.index(nm):
                        self.ck.bad('enum:' + nm, self.t('TOPO_SHAPES')[1], 0, 'ShapeId::%s is %s but %s is shape number %d' % (k, v, nm, self.shapes.index(nm)))
                    else:
                        self.ck.ok(1)
            self.ck.count('enumerators', len(vals))


def sub_index(y):
    y = strip(y)
    if y[0] == 'ld':
        a = strip(y[2])
        if a[0] == 'op' and a[1] == '+':
            k = strip(a[3])
            if k[0] == 'op' and k[1] == '*' and strip(k[2])[0] == 'c':
                return strip(k[2])[1]
            if k[0] == 'c':
                return k[1] // 8
    return None


def unknown_but_it(t):
    return strip(t)[0] != 'it' and unknown(t)


def shape_at(n):
    """(table, index variable) of a read TOPO_SHAPE...[j]"""
    if n.k not in ('Index', 'OpCall', 'Call', 'CallOp', 'MCall'):
        return None
    g = [x for x in n.walk() if x.k == 'Ref' and x.d[0] == 'g' and x.d[1].startswith('TOPO_SHAPE')]
    v = [x for x in n.walk() if x.k == 'Ref' and x.d[0] in ('v', 'p')]
    if len(g) == 1 and len(v) == 1 and len(list(n.walk())) < 14 and not any(x.k in ('Bin', 'Cmp') for x in n.walk()):
        return g[0].d[1], v[0].d[1]
    return None


def sub(t):
    yield t
    for x in t:
        if isinstance(x, tuple) and x:
            if isinstance(x[0], str):
                yield from sub(x)
            else:
                for y in x:
                    if isinstance(y, tuple) and y:
                        yield from sub(y)


def relations(ck, pr):
    """one-to-many relations: item `many` of `one` is indices[offsets[one] + many]; an absent array stands for its default"""
    O = 'conduit::blueprint::o2mrelation::'
    ROLES = ('offsets', 'indices', 'sizes')

    def ev(ip, s, n, ref, obj, args, locs):
        if ref['qn'].startswith('conduit::DataAccessor<') and ref['name'] in ('operator[]', 'element') and len(args) == 1:
            return [(s, ('call', 'at', (obj, args[0]), ()))]
        return None

    def role(t):
        found = set()

        def look(y):
            if y[0] == 'fld':
                found.update(r for r in ROLES if r in y[2])
            return False
        if mentions(t, lambda y: y[0] == 'call' and y[1] == 'at'):
            return None
        mentions(t, look)
        return found.pop() if len(found) == 1 else None

    def norm(t):
        """linear form over parameters and array entries"""
        out = {}
        for k, c in lin(t).items():
            kk = []
            for a in k:
                a = strip(a)
                if a[0] == 'call' and a[1] == 'at' and role(a[2][0]):
                    kk.append(('at', role(a[2][0]), tuple(sorted(norm(a[2][1]).items(), key=repr))))
                else:
                    kk.append(a)
            kk = tuple(sorted(kk, key=repr))
            out[kk] = out.get(kk, 0) + c
        return {k: c for k, c in out.items() if c}

    def has(p):
        """role -> present on this path"""
        h = {}
        for x, b in p.facts.items():
            r = role(x)
            if r is None or x[0] == 'call' and x[1].split('::')[-1] not in ('number_of_elements',) or mentions(x, lambda y: y[0] == 'p'):
                continue
            if x[0] == 'op' and x[1] == '==' and ('c', 0) in x[2:]:
                b = not b
            elif x[0] == 'op' and not (x[1] == '<' and x[2] == ('c', 0)):
                continue
            h[r] = b
        return h

    def at(r, form):
        return {(('at', r, tuple(sorted(form.items(), key=repr))),): 1}

    def plus(a, b):
        out = dict(a)
        for k, c in b.items():
            out[k] = out.get(k, 0) + c
        return {k: c for k, c in out.items() if c}
    dom = Sum(inliner(pr, (O,), skip=(O + 'O2MIterator::elements',)), pure=lambda r: True, events=ev)
    n = 0
    for f in sorted(pr.funcs.values(), key=lambda f: (f.file, f.line)):
        if f.body is None or f.cls not in (O + 'O2MIndex', O + 'O2MIterator') or f.name not in ('index', 'size', 'offset', 'elements'):
            continue
        it = f.cls.endswith('Iterator')
        if len(f.params) != {'index': 3 if it else 2, 'elements': 2}.get(f.name, 1):
            continue
        one = ('p', f.params[0][0], 0)
        o = {(one,): 1}
        ps, ip = paths(pr, f, dom)
        n += 1
        for p in ps:
            if p.kind != 'return' or p.val is None:
                continue
            h = has(p)
            facts = p.facts
            ty = None
            if it:
                k = ('p', f.params[-1][0], len(f.params) - 1)
                eq = {x[3][1] if x[2] == k else x[2][1]: b for x, b in facts.items() if x[0] == 'op' and x[1] == '==' and k in x[2:] and (x[3] if x[2] == k else x[2])[0] == 'c'}
                ty = [v for v, b in eq.items() if b]
                ty = ty[0] if ty else ([v for v in (0, 1, 2) if v not in eq] + [None])[0] if len([v for v in (0, 1, 2) if v not in eq]) == 1 else None
                if ty is None:
                    continue
            need, want = (), None
            first = at('offsets', o) if h.get('offsets') else o
            if f.name == 'offset':
                need, want = ('offsets',), first
            elif f.name == 'index':
                many = {(('p', f.params[1][0], 1),): 1}
                if it:
                    mk = ('p', f.params[1][0], 1)
                    if any(x[0] == 'op' and mk in x[2:] for x in facts) and any(x[0] == 'op' and x[1] in ('<', '==') and mk in x[2:] and ip_before(x, b, mk) for x, b in facts.items()):
                        ck.ok(1)
                        continue
                    many = plus(many, {(): -1})
                if ty in (None, 0):
                    need = ('offsets', 'indices')
                    pos = plus(first, many)
                    want = at('indices', pos) if h.get('indices') else pos
                else:
                    want = o if ty == 1 else many
            else:
                if it and ty != 2 or not it and any(b and x[0] == 'op' and x[1] in ('==', '<') and one in x[2:] for x, b in facts.items()):
                    continue
                if it and any(mentions(x, lambda y: y[0] == 'call' and y[1].split('::')[-1] in ('elements', 'number_of_elements')) and mentions(x, lambda y: y == one) and not b for x, b in facts.items()):
                    want = {}
                else:
                    need, want = ('sizes',), at('sizes', o) if h.get('sizes') else {(): 1}
            if any(r not in h for r in need):
                ck.notes.append('%s: presence of %s not resolved' % (f.qn, '/'.join(need)))
                continue
            got = norm(p.val)
            if got == want:
                ck.ok(1, '%s %s' % (f.qn, h))
            elif any(unknown(y) for k in got for y in k if y[0] != 'at'):
                ck.notes.append('%s: value not resolved' % f.qn)
            else:
                ck.bad('relation:%s::%s:%s' % (f.cls.split('::')[-1], f.name, ','.join('%s%s' % ('' if b else 'no ', r) for r, b in sorted(h.items()))), f.file, p.node.line if p.node else f.line,
                       '%s%s gives %s' % (f.qn, ' (with %s)' % ', '.join(r for r in sorted(h) if h[r]) if any(h.values()) else '', show(canon(p.val))))
    ck.counts['relation lookups'] = n


def ip_before(x, b, mk):
    """the fact says that the iterator stands before the first item (many < 1)"""
    l, r = x[2], x[3]
    if x[1] == '==':
        return b and ('c', 0) in (l, r)
    if l == mk and r[0] == 'c':
        return b and r[1] <= 1
    if r == mk and l[0] == 'c':
        return not b and l[1] <= 0
    return False


def run(tier):
    ck = Check('V01', 'other', 'the shape tables, read as constants, and every path of the functions answering from them describe for every shape exactly the sides of that shape; extents, lengths, converted coordinates and generated offsets are the prescribed linear forms of quantities of the same axis or element', tier)
    pr = P.load(lambda r: r in ('blueprint/conduit_blueprint_mesh_utils.cpp', 'blueprint/conduit_blueprint_mesh.cpp', 'blueprint/conduit_blueprint_mesh_partition.cpp',
                             'blueprint/conduit_blueprint_o2mrelation_index.cpp', 'blueprint/conduit_blueprint_o2mrelation_iterator.cpp'))
    v = V(ck, pr)
    v.tables()
    v.shapetype()
    v.bytopo()
    v.cascade()
    v.enum()
    v.grids()
    v.coords()
    v.offsets()
    v.lookups()
    relations(ck, pr)
    return ck
