"""Required-check analysis for blueprint verify routines.

dom = frozenset of the requirements still pending.  Paths on which a sub-check
failed or an error was logged are dropped: B01 decides that those return false.
"""
import prog as P
from interp import Interp, Domain, strip, mentions, DTPRED
import vfold
from vfold import is_subcheck_ref, relevant_helpers, info_param

GET = ('conduit::Node::fetch_ptr', 'conduit::Node::child_ptr', 'conduit::Node::operator[]', 'conduit::Node::fetch_existing', 'conduit::Node::child', 'conduit::Node::fetch')
ITERS = ('conduit::NodeConstIterator::', 'conduit::NodeIterator::')
ITER_NEXT = ('conduit::NodeConstIterator::next', 'conduit::NodeIterator::next')
ITER_HAS = ('conduit::NodeConstIterator::has_next', 'conduit::NodeIterator::has_next')


def join(b, k):
    return (b[0], (b[1] + '/' + k).strip('/'))


GLOBS = {}
ANY = (-1, '?')


def keyof(k):
    """the child name a string term denotes, '*' when it is not constant"""
    k = strip(k)
    if k[0] == 'c' and isinstance(k[1], str):
        return k[1]
    if k[0] == 'glob' and k[1] in GLOBS:
        w = strings(GLOBS[k[1]][3])
        if len(w) == 1 and '[' not in str(GLOBS[k[1]][1:3]) and 'vector' not in str(GLOBS[k[1]][1:3]):
            return w[0]
    return '*'


def npath(v):
    """(parameter index, path) of a Node-valued term, or None"""
    v = strip(v)
    if not isinstance(v, tuple):
        return None
    if v[0] == 'p':
        return (v[2], '')
    if v[0] == 'addr' or v[0] == 'deref':
        return npath(v[1])
    if v[0] == 'call':
        if v[1] in GET and len(v[2]) == 2:
            b = npath(v[2][0])
            if b is None:
                return None
            return join(b, keyof(v[2][1]))
        if v[1] == '<element>' or v[1] in ITER_NEXT:
            return elem(v[2][0])
    return None


def strings(n):
    """string literals of an initialiser"""
    return [] if n is None else [x.d for x in n.walk() if x.k == 'Str']


def spath(v):
    """(parameter index, part) of a string term that is a protocol argument or its head/tail"""
    v = strip(v)
    if v[0] == 'p':
        return (v[2], '')
    if v[0] == 'split':
        b = spath(v[2])
        return b and (b[0], b[1] + v[1])
    return None


def elem(c):
    c = strip(c)
    if c[0] == 'call' and c[1] == 'conduit::Node::children':
        b = npath(c[2][0])
        if b is not None:
            return join(b, '*')
    return None


def kind_of(ref):
    n = ref['name']
    if n == 'verify':
        q = ref['qn']
        for pre in ('conduit::blueprint::mesh::', 'conduit::blueprint::'):
            if q.startswith(pre) and q != pre + 'verify':
                q = q[len(pre):]
                break
        else:
            q = q.replace('conduit::blueprint::', '')
        return q
    if n.startswith('verify_') and n.endswith('_field'):
        return n[7:-6]
    if n == 'verify_field_exists':
        return 'exists'
    return n


def event(ref, args, prog=None):
    """(kind, (param, path), extra) of a sub-check call"""
    k = kind_of(ref)
    params = ref['params']
    ns = [i for i, p in enumerate(params) if p[1] == 'const conduit::Node &']
    if not ns:
        return None
    extra = None
    if k == 'reference' and len(ns) == 2:
        node = args[ns[1]]
        fi = ns[1] + 2
        extra = strip(args[fi + 1])
        extra = extra[1] if extra[0] == 'c' else '?'
    else:
        node = args[ns[0]]
        fi = ns[0] + 2
    p = npath(node)
    if p is None:
        return None
    if ref['name'] != 'verify' and fi < len(params) and 'basic_string' in params[fi][1]:
        f = strip(args[fi])
        if f[0] == 'c':
            if f[1]:
                p = join(p, f[1])
        else:
            p = join(p, '*')
        if k == 'enum' and fi + 1 < len(args):
            e = strip(args[fi + 1])
            if e[0] == 'glob':
                extra = '|'.join(sorted(strings(prog.globals[e[1]][3]))) if prog and e[1] in prog.globals else '?'
            elif e[0] == 'call' and len(e[2]) >= 2 and strip(e[2][1])[0] == 'c':
                extra = strip(e[2][1])[1]
            else:
                extra = '?'
    if k == 'object':
        ex = []
        for i in range(fi + 1, len(args)):
            a = strip(args[i])
            ex.append(str(a[1]) if a[0] == 'c' else '?')
        extra = ','.join(ex)
    if k == 'mlarray' or k == 'mlarray::verify':
        extra = ','.join(str(strip(a)[1]) if strip(a)[0] == 'c' else '?' for a in args[fi + 1:])
    return (k, p, extra)


PRIM = {'string': 'is_string', 'integer': 'is_integer', 'number': 'is_number', 'object': 'is_object'}


class Req:
    """accepting run => event (kind, path, extra) happened, unless one of the facts held"""
    __slots__ = ('kind', 'path', 'extra', 'unless', 'scope', 'alts')

    def __init__(self, kind, path, extra=None, unless=(), alts=(), per=None):
        self.kind, self.path, self.extra, self.unless, self.alts = kind, path, extra, frozenset(unless), frozenset(alts)
        parts = path[1].split('/')
        self.scope = None
        if '*' in parts:
            i = len(parts) - 1 - parts[::-1].index('*')
            self.scope = (path[0], '/'.join(parts[:i + 1]))
        if per is not None:
            self.scope = per or None

    def key(self):
        if self.kind == 'never':
            return 'one of(%s)' % ', '.join(sorted('%s%s(%s)' % ('' if u[-1] else 'not ', u[0] if u[0] != 'is' else u[2], u[1][1] + (' ' + u[2] if u[0] == 'eq' else '')) for u in self.unless))
        return '%s(%s%s)' % (self.kind, self.path[1] or '<node>', ',' + self.extra if self.extra else '')


class RDomain(vfold.VDomain):
    cap = 800

    def __init__(self, prog, opaque, relevant, reqs=()):
        super().__init__(prog, relevant)
        GLOBS.clear()
        GLOBS.update(prog.globals)
        self.opaque = opaque
        self.reqs = list(reqs)
        self.seen = set()
        self.sat = set()
        self.trg = set()
        self.info = None
        self.replay = False
        self.byunless = {}
        for i, r in enumerate(self.reqs):
            for u in r.unless:
                self.byunless.setdefault(u, set()).add(i)

    def inline(self, ip, ref, n):
        if ref['usr'] in self.opaque:
            return False
        if ref['usr'] in self.relevant or is_subcheck_ref(ref):
            return True
        # a small predicate on the tree (a condition moved into a helper)
        f = self.prog.funcs.get(ref['usr'])
        if f is None or '/libs/blueprint/' not in f.file or f.end - f.line > 30 or f.body is None:
            return False
        return not any(x.k in ('For', 'While', 'Do', 'RangeFor', 'ForRange') for x in f.body.walk())

    def mutates(self, ref):
        return not ref['qn'].startswith(ITERS)

    def start(self):
        return frozenset((i, 0) for i, r in enumerate(self.reqs) if r.scope is None or r.kind == 'exhaust')

    def fact(self, s, w):
        if self.replay and '*' in w[1][1]:
            return s
        self.seen.add(w)
        d = set(self.byunless.get(w, ()))
        if w[0] == 'eq' and w[3]:
            # equal to one literal: different from every other
            for u, ids in self.byunless.items():
                if u[0] == 'eq' and u[1] == w[1] and u[2] != w[2] and not u[3]:
                    d |= ids
        elif w[0] == 'is' and w[3] and w[2][3:] in DTPRED:
            mine = DTPRED[w[2][3:]]
            for u, ids in self.byunless.items():
                if u[0] == 'is' and u[1] == w[1] and u[2][3:] in DTPRED:
                    o = DTPRED[u[2][3:]]
                    if (not u[3] and not (o & mine)) or (u[3] and mine <= o):
                        d |= ids
        return self.drop(s, d)

    def drop(self, s, ids):
        gone = frozenset(x for x in s.dom if x[0] in ids)
        return s.withdom(s.dom - gone) if gone else s

    def evt(self, s, e):
        if self.replay:
            return s
        self.seen.add(e)
        out = set()
        for i, r in enumerate(self.reqs):
            if e[1] == r.path and (e[0] == r.kind and self.extra_ok(e, r) or e[0] in r.alts or e[0] == PRIM.get(r.kind)):
                out.add(i)
        self.sat |= out
        return self.drop(s, out)

    def extra_ok(self, e, r):
        if r.extra is None or e[2] is None:
            return True
        if e[0] == 'enum':
            return e[2] == '?' or e[2] == r.extra
        if e[0] in ('object', 'mlarray', 'mlarray::verify'):
            # allow_list, allow_empty may only be stricter; depth bounds have to agree
            for i, (a, b) in enumerate(zip(e[2].split(','), r.extra.split(','))):
                if e[0] == 'object' and i == 2 and b == '?' and a == '0':
                    return False    # the child count is not demanded any more
                if a == '?' and b == 'False':
                    return False
                if '?' in (a, b):
                    continue
                if b == 'True' and a == 'False':
                    continue
                if a != b and not (e[0] == 'object' and b == '0'):
                    return False
            return True
        return e[2] == '?' or e[2] == r.extra

    def on_call(self, ip, s, n, ref, obj, args, locs):
        if ref is None:
            return None
        qn = ref['qn']
        if qn == vfold.LOGERR:
            return []
        if qn == vfold.LOGVAL:
            return [(x, ('u', 'void')) for x, b in ip.decide(args[1], s)] if False else [(s, ('u', 'void'))]
        if qn in ITER_HAS:
            p = elem(obj)
            v = ('call', qn, (obj,), ip.path + (n.id,))
            if p is None:
                return [(s, v)]
            return [(s, ('c', True)), (self.evt(s, ('exhaust', p, None)), ('c', False))]
        if qn in ITER_NEXT:
            v = ('call', '<element>', (obj,), ip.path + (n.id,))
            p = npath(v)
            if p is not None:
                self.seen.add(('each', p))
                # pending separately for each loop: one loop that checks every element is enough
                add = frozenset((i, ip.path + (n.id,)) for i, r in enumerate(self.reqs) if r.scope == p and r.kind != 'exhaust')
                self.trg |= add
                s = s.withdom(s.dom | add)
                if add:
                    # what is already known about the tree outside the loop
                    self.replay = True
                    for t, b in list(s.facts.items()):
                        s = self.on_branch(ip, s, t, b)
                    self.replay = False
            return [(s, v)]
        if qn.startswith(ITERS) and ref['name'] in ('name', 'index', 'peek_next'):
            return [(s, ('call', qn, (obj,), ip.path + (n.id,)))]
        if qn == 'conduit::utils::split_path' and len(args) == 3:
            for l, w in ((locs[1][1], '<head>'), (locs[1][2], '<tail>')):
                s = s.set(l, ('split', w, args[0]))
            return [(s, ('u', 'void'))]
        if qn == 'conduit::Node::children':
            return [(s, ('call', qn, (obj,), ()))]
        if ref['usr'] in self.opaque:
            e = event(ref, args, self.prog)
            if e is not None:
                s = self.evt(s, e)
                if e[0] in PRIM and (e[0] != 'object' or str(e[2]).startswith('False')):
                    s = self.fact(s, ('is', e[1], PRIM[e[0]], True))
                    if e[1][1]:
                        s = self.fact(s, ('has', e[1], True))
            return [(s, ('c', True))]
        return None

    def on_branch(self, ip, s, t, val):
        if t[0] == 'p':
            return self.fact(s, ('param', (t[2], ''), val))
        if t[0] == 'op' and t[1] in ('==', '<'):
            a, b = strip(t[2]), strip(t[3])
            for x, ne in ((a, (t[1] == '==' and b == ('c', 0) or t[1] == '<' and b == ('c', 1)) and not val),
                          (b, (t[1] == '<' and a == ('c', 0)) and val)):
                if ne and x[0] == 'call' and x[1] == 'conduit::Node::number_of_children':
                    p = npath(x[2][0])
                    if p is not None:
                        return self.evt(s, ('nonempty', p, None))
            if t[1] == '<' and not val:
                if b[0] == 'p':
                    s = self.evt(s, ('least', (b[2], ''), None))
                if a[0] == 'p':
                    s = self.evt(s, ('most', (a[2], ''), None))
            for x, y in ((a, b), (b, a)):
                if t[1] == '==' and x[0] == 'p' and y == ('c', 0):
                    s = self.fact(s, ('param', (x[2], ''), not val))
                if t[1] == '==' and x[0] == 'call' and x[1] == 'conduit::Node::fetch_ptr' and y[0] == 'c' and not y[1]:
                    s = self.hasfact(s, npath(x), not val)
                if t[1] == '==' and val and x[0] == 'call' and x[1] == 'conduit::Node::number_of_children' and y[0] == 'p':
                    p = npath(x[2][0])
                    if p is not None:
                        s = self.evt(s, ('nchildren', p, y[2]))
                if t[1] == '==' and x[0] == 'call' and x[1] == 'conduit::DataType::id' and y[0] == 'c' and y[1] in (0, 1, 2):
                    s = self.isfact(s, x[2][0], ('is_empty', 'is_object', 'is_list')[y[1]], val)
            if t[1] == '<' and a == ('c', 0) and b[0] == 'p':
                s = self.fact(s, ('param', (b[2], ''), val))
            if t[1] == '==' and val:
                for x in (a, b):
                    if a[0] != 'c' and b[0] != 'c' and x[0] == 'call' and x[1].endswith('::number_of_elements') and x[2]:
                        d = strip(x[2][0])
                        p = npath(d[2][0]) if d[0] == 'call' and d[1] == 'conduit::Node::dtype' else npath(d)
                        s = self.evt(s, ('length', p or ANY, None))
                for x, y in ((a, b), (b, a)):
                    if x[0] == 'call' and x[1] == 'conduit::Node::as_string' and mentions(y, lambda z: z and z[0] == 'p'):
                        p = npath(x[2][0])
                        if p is not None:
                            s = self.evt(s, ('member', p, None))
        if t[0] == 'call' and t[1] in ('conduit::Node::has_child', 'conduit::Node::has_path'):
            p = npath(t[2][0])
            if p is not None:
                s = self.hasfact(s, join(p, keyof(t[2][1])), val)
        elif t[0] == 'call' and t[1] == 'conduit::Node::fetch_ptr':
            s = self.hasfact(s, npath(t), val)
        elif t[0] == 'op' and t[1] == '==':
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                a, b = strip(a), strip(b)
                if b[0] == 'c' and isinstance(b[1], str):
                    p = None
                    if a[0] == 'call' and a[1] == 'conduit::Node::as_string':
                        p = npath(a[2][0])
                    elif a[0] == 'call' and a[1].endswith('::name') and a[2] and a[1].startswith(ITERS + ('conduit::Node::',)):
                        p = npath(a[2][0]) if a[1] == 'conduit::Node::name' else elem(a[2][0])
                        p = p and join(p, '@name')
                    else:
                        p = spath(a)
                    if p is not None:
                        s = self.fact(s, ('eq', p, b[1], val))
        elif t[0] == 'call' and t[1].startswith('conduit::DataType::is_') and t[2]:
            s = self.isfact(s, t[2][0], t[1].split('::')[-1], val)
        return s

    def hasfact(self, s, q, val):
        if q is None:
            return s
        s = self.fact(s, ('has', q, val))
        return self.evt(s, ('exists', q, None)) if val else s

    def isfact(self, s, d, w, val):
        d = strip(d)
        if d[0] == 'call' and d[1] == 'conduit::Node::dtype':
            p = npath(d[2][0])
            if p is not None:
                s = self.fact(s, ('is', p, w, val))
            if val:
                s = self.evt(s, (w, p or ANY, None))
        return s


def analyse(pr, f, opaque, relevant, reqs):
    """-> (domain, set of requirement ids pending at some accepting exit, {id: node})"""
    d = RDomain(pr, opaque - {f.usr}, relevant - {f.usr}, reqs)
    ip = Interp(pr, d)
    pend = {}
    acc = 0
    for kind, st, v, n in ip.run(f, d.start()):
        if kind == 'return' and v is not False:
            acc += 1
            for i in st.dom:
                pend.setdefault(i, n)
    bad = {}
    for i, r in enumerate(d.reqs):
        sites = [x for x in d.trg if x[0] == i] + ([(i, 0)] if r.scope is None or r.kind == 'exhaust' else [])
        if sites and all(x in pend for x in sites):
            bad[i] = pend[sites[0]]
    return d, bad, acc
