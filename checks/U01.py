"""U01: copying and merging trees pair every child of the source with the child of the same name or position."""
from common import Check
import prog as P
from summ import *
from interp import DTALL, DTPRED
from loopcov import covers, bare

ND = 'conduit::Node::'
TID = {0: 'empty', 1: 'object', 2: 'list', 3: 'int8', 4: 'int16', 5: 'int32', 6: 'int64', 7: 'uint8', 8: 'uint16', 9: 'uint32', 10: 'uint64', 11: 'float32', 12: 'float64', 13: 'char8_str'}
COUNTS = ('number_of_children', 'size', 'children_size')
REC = {'set_node': ('set', 'set_node', 'operator='), 'update': ('update',), 'update_compatible': ('update_compatible',), 'update_external': ('update_external',), 'mirror_node': ('mirror_node',)}
LEAFOPS = ('compact_to', 'set', 'set_node', 'set_external', 'set_external_node', 'operator=')
V = ('u', 'void')


class Spec:
    def __init__(self, fn):
        self.fn = fn
        self.name = fn.name
        if fn.name == 'mirror_node':
            self.dst, self.src, self.sch = ('p', fn.params[0][0], 0), ('p', fn.params[2][0], 2), ('p', fn.params[1][0], 1)
        else:
            self.dst, self.src, self.sch = ('this',), ('p', fn.params[0][0], 0), None


def root(t):
    """the object a term is (a part of)"""
    t = bare(t)
    while True:
        if t in (('this',),) or t[0] == 'p':
            return t
        if t[0] in ('fld', 'idx'):
            t = bare(t[1])
        elif t[0] == 'call' and t[2] and isinstance(t[2][0], tuple):
            t = bare(t[2][0])
        else:
            return t


def names_of(t):
    """the owner when t is a collection of the names (or of the pointers) of all children of it"""
    t = bare(t)
    if t[0] == 'call' and t[1].split('::')[-1] in ('child_names', 'object_order', 'children', 'm_children') and t[2]:
        return root(t[2][0])
    if t[0] == 'fld' and t[2] in ('m_children',):
        return root(t[1])
    return None


class U(Sum):
    iters = True
    cap = 4000

    def init(self):
        return frozenset()

    def mutates(self, ref):
        return not ref['qn'].startswith(('conduit::NodeIterator', 'conduit::NodeConstIterator'))

    def src_bound(self, b):
        b = bare(b)
        if b[0] != 'call' or not b[2]:
            return False
        nm = b[1].split('::')[-1]
        if nm in COUNTS or nm in ('end', 'cend'):
            r = root(b[2][0])
            return r == self.sp.src or self.sp.sch is not None and r == self.sp.sch
        return False

    def enter(self, s, key):
        d = s.dom
        if ('pend', key) in d:
            d = d | {('lost', key)}
        return s.withdom(d | {('pend', key)})

    def on_branch(self, ip, s, t, val):
        if t[0] == 'op' and t[1] in ('<', '=='):
            a, b = strip(t[2]), strip(t[3])
            if t[1] == '==' and b[0] == 'it':
                a, b = b, a
            if a[0] == 'it' and self.src_bound(b):
                if val == (t[1] == '<'):
                    return self.enter(s, a)
            # a child the destination lacks is not updated
        if t[0] == 'call' and t[1].split('::')[-1] in ('has_child', 'has_path') and not val and self.sp.name == 'update_compatible' and root(t[2][0]) == self.sp.dst:
            return s.withdom(frozenset(e for e in s.dom if e[0] != 'pend'))
        return s

    def on_range(self, ip, s, n, c, entering):
        k = ip.path + (n.id,)
        if names_of(c) in (self.sp.src, self.sp.sch) or root(c) == self.sp.src:
            if entering:
                return self.enter(s, ('range', k))
            return s.withdom(s.dom | {('all', ('range', k))})
        return s


def keys_in(t):
    out = set()

    def f(x):
        if x[0] == 'it':
            out.add(x)
        if x[0] == 'call' and x[1] == '<element>':
            out.add(('range', x[3]))
            out.add(('iter', root(x[2][0])))
        return False
    mentions(t, f)
    return out


def child_key(t, s):
    """which child a term denotes: ('at', i) position or name number i, ('name', term), ('elem', x), 'append'; None unknown"""
    t = bare(t)
    if t[0] == 'call':
        nm = t[1].split('::')[-1]
        if nm == '<new>':
            l = [e[2] for e in s.dom if e[0] == 'link' and e[1] == t]
            return child_key(l[0], s) if len(l) == 1 else None
        if nm == 'append':
            return 'append'
        if nm == '<element>':
            return ('elem', canon(t))
        if nm == '<at>':
            i = bare(t[2][0])
            return ('at', i) if i[0] == 'it' else None
        if nm in ('child', 'child_ptr', 'operator[]', 'at', 'fetch', 'fetch_existing', 'fetch_ptr', 'add_child', 'child_name') and len(t[2]) == 2:
            return index_key(t[2][1], s)
    if t[0] == 'idx':
        return index_key(t[2], s)
    if t[0] == 'ld':
        return None
    return None


def index_key(k, s):
    k = bare(k)
    if k[0] == 'it':
        return ('at', k)
    if k[0] == 'c':
        return ('at', k)
    if k[0] == 'op':
        return ('at', canon(k))
    if k[0] == 'call':
        nm = k[1].split('::')[-1]
        if nm == 'child_index' and len(k[2]) == 2:
            return index_key(k[2][1], s)
        if nm in ('operator[]', 'at', 'child_name') and len(k[2]) == 2:
            return index_key(k[2][1], s)
        if nm == '<at>':
            i = bare(k[2][0])
            return ('at', i) if i[0] == 'it' else None
        if nm == '<element>':
            return ('elem', canon(k))
        if nm == 'name' and k[2]:
            return ('elem', ('iter', root(k[2][0])))
        if nm in ('c_str', 'basic_string') and k[2]:
            return index_key(k[2][0], s)
    if k[0] == 'idx':
        return index_key(k[2], s)
    return None


def handler(sp, ck):
    def ev(ip, s, n, ref, obj, args, locs):
        q, nm = ref['qn'], ref['name']
        it = 'NodeIterator' in q or 'NodeConstIterator' in q
        if it and nm == 'has_next' and obj is not None and root(obj) == sp.src:
            return [(dom.enter(s, ('iter', sp.src)), ('c', True)), (s.withdom(s.dom | {('all', ('iter', sp.src))}), ('c', False))]
        if it and nm in ('next', 'peek_next'):
            return [(s, ('call', '<element>', (obj,), ip.path + (n.id,)))]
        if q == ND + 'set_schema_ptr' and obj is not None:
            return [(s.withdom(frozenset(e for e in s.dom if e[:2] != ('link', bare(obj))) | {('link', bare(obj), bare(args[0]))}), V)]
        if q in (ND + 'reset', ND + 'release', ND + 'init') and obj is not None:
            return [(s.withdom(s.dom | {(nm, bare(obj))}), V)]
        if q == ND + 'set_data_ptr' and obj is not None:
            return [(s.withdom(s.dom | {('data', bare(obj), canon(strip(args[0])))}), V)]
        if nm == 'conduit_memcpy_strided_elements' and len(args) >= 6:
            return [(s.withdom(s.dom | {('copy', tuple(canon(strip(a)) for a in args[:6]), n.line)}), V)]
        if q.startswith(ND):
            if nm in REC[sp.name] or nm in LEAFOPS:
                if nm == 'mirror_node':
                    if len(args) < 3:
                        return None
                    d, c = args[0], args[2]
                    l = [e[2] for e in s.dom if e[0] == 'link' and e[1] == bare(d)]
                    if l and bare(args[1]) != l[0]:
                        s = s.withdom(s.dom | {('bad', 'the child is mirrored with a schema that is not its own', n.line)})
                elif nm == 'compact_to':
                    if len(args) != 1:
                        return None
                    d, c = args[0], obj
                elif args and ref['params'] and 'Node' in ref['params'][0][1] and 'Schema' not in ref['params'][0][1]:
                    d, c = obj, args[0]
                else:
                    return None
                if d is None or c is None:
                    return None
                if nm in REC[sp.name] and bare(c) != sp.src:
                    dk, sk = child_key(d, s), child_key(c, s)
                    rd, rs = root(d), root(c)
                    bad = None
                    if rs != sp.src:
                        if rs == sp.dst:
                            bad = 'a child is copied from the destination instead of the source'
                    elif rd == sp.src:
                        bad = 'a child is copied into the source'
                    if not bad and dk is not None and sk is not None and dk != 'append' and dk != sk and not (dk[0] == 'elem' and sk[0] == 'elem'):
                        if dk[0] == sk[0] and lin(dk[1]) == lin(sk[1]):
                            pass
                        elif dk[0] == sk[0]:
                            bad = 'a child of the source is copied to a child of another name or position'
                    if not bad and dk == 'append' and sk is not None and sk[0] == 'at' and strip(sk[1])[0] != 'it' and \
                            any(e[0] == 'pend' and e[1][0] == 'it' and (mentions(sk[1], lambda x: x == e[1]) or not mentions(sk[1], lambda x: x[0] == 'it')) for e in s.dom):
                        bad = 'another child of the source is copied than the one at hand'
                    ks = keys_in(c)
                    dom_ = frozenset(e for e in s.dom if not (e[0] == 'pend' and e[1] in ks))
                    made = dk == 'append' or bare(d)[0] == 'call' and bare(d)[1].split('::')[-1] in ('append', 'add_child', '<new>')
                    dom_ |= {('rec', k, made) for k in ks if k[0] != 'it' or ('pend', k) in s.dom}
                    if bad:
                        dom_ |= {('bad', bad, n.line)}
                    if rs == sp.src and (dk is None or sk is None):
                        dom_ |= {('note', 'child correspondence', n.line)}
                    return [(s.withdom(dom_), V)]
                return [(s.withdom(s.dom | {('leaf', nm, bare(d), bare(c), n.line)}), V)]
        return None
    dom = U(inl=lambda ref: False, pure=lambda ref: True, events=ev)
    dom.sp = sp
    return dom


def kinds(p, who):
    poss = set(DTALL)
    for t, b in p.facts.items():
        if t[0] == 'call' and t[1].startswith('conduit::DataType::is_') and len(t[2]) == 1 and root(t[2][0]) == who:
            ids = DTPRED.get(t[1].split('is_', 1)[1])
            if ids is not None:
                poss = poss & ids if b else poss - ids
        if t[0] == 'op' and t[1] == '==' and strip(t[3])[0] == 'c' and is_id(t[2]) and root(t[2]) == who:
            k = TID.get(strip(t[3])[1])
            poss = poss & {k} if b else poss - {k}
    return poss


def is_id(t):
    t = strip(t)
    return t[0] == 'call' and t[1] == 'conduit::DataType::id' or t[0] == 'fld' and t[2] == 'm_id'


def is_num(t):
    t = strip(t)
    return t[0] == 'call' and t[1].split('::')[-1] == 'number_of_elements' or t[0] == 'fld' and t[2] == 'm_num_ele'


def complete(ip, p, dom):
    """None: some loop over all children of the source ran to its end on this path; '?': unresolved; else why not"""
    if any(e[0] == 'all' for e in p.ev):
        return None
    why = None
    for t, b in p.facts.items():
        if t[0] != 'op' or t[1] not in ('<', '=='):
            continue
        a, o = strip(t[2]), strip(t[3])
        if t[1] == '==' and o[0] == 'it':
            a, o = o, a
        if a[0] == 'op' and t[1] == '<' and not b and dom.src_bound(o):
            l = dict(lin(a))
            c = l.pop((), 0)
            if len(l) == 1 and len(list(l)[0]) == 1 and list(l)[0][0][0] == 'it' and c > 0:
                why = 'the loop stops %d before the last' % c
        if a[0] == 'it' and b == (t[1] == '==') and dom.src_bound(o):
            w = whole(ip, a, set())
            if w is None:
                return None
            why = w
        elif a[0] == 'it' and b == (t[1] == '==') and mentions(o, lambda x: dom.src_bound(x)):
            why = 'the loop stops at %s' % show(canon(o))
        # counting down
        if t[1] == '<' and b and o == ('c', 0) and a[0] == 'it':
            return None
    if why is None and any(mentions(t, lambda x: x[0] in ('u', 'lambda')) for t in p.facts):
        return '?loop'
    return why or 'there is no loop over the children of the source that runs to its end'


def whole(ip, it, seen):
    st = [strip(x) for x in ip.starts.get(it, ())]
    if not st:
        return '?loop'
    seen = seen | {it}
    for v in st:
        if v in (('c', 0), ('op', '+', it, ('c', 1))) or v[0] == 'call' and v[1].split('::')[-1] in ('begin', 'cbegin') or v in seen:
            continue
        if v[0] == 'it':
            w = whole(ip, v, seen)
            if w:
                return w
            continue
        if v[0] == 'op' and lin(v) == lin(('op', '+', it, ('c', 1))):
            continue
        if unknown(v):
            return '?start'
        return 'the loop over the children of the source starts or steps by %s' % show(canon(v))
    return None


def run(tier):
    ck = Check('U01', 'other', 'on every path of the copying and merging routines: the loop over the children of the source visits each of them, every visit copies that child into the child of the same name or position, '
               'and leaves are copied with the counts and strides of the two leaves', tier)
    pr = P.load(lambda r: r in ('conduit/conduit_node.cpp', 'conduit/conduit_schema.cpp', 'conduit/conduit_data_type.cpp'))
    n = 0
    for f in sorted(pr.funcs.values(), key=lambda f: (f.file, f.line)):
        if f.body is not None and f.qn in [ND + x for x in REC]:
            n += 1
            one(ck, pr, f)
    ck.count('routines', n)
    ck.floor('routines', n, 4)
    external(ck, pr)
    listof(ck, pr)
    move(ck, pr)
    ctors(ck, pr)
    return ck


def one(ck, pr, f):
    sp = Spec(f)
    dom = handler(sp, ck)
    known = KNOWN_HELPERS
    dom._inl = lambda ref: ref['usr'] in pr.funcs and pr.funcs[ref['usr']].body is not None and ref['qn'].startswith((ND, 'conduit::')) and ref['qn'] not in known and ref['name'] not in STD
    ps, ip = paths(pr, f, dom)
    msgs, notes, n = set(), set(), 0
    twice(ip, ps, dom, msgs, f)
    for p in ps:
        if p.kind != 'return':
            continue
        n += 1
        for e in p.ev:
            if e[0] == 'bad':
                msgs.add((e[1], e[2]))
            elif e[0] == 'note':
                notes.add((e[1], e[2]))
        same = any(b and t[0] == 'op' and t[1] == '==' and {bare(t[2]), bare(t[3])} == {sp.dst, sp.src} for t, b in p.facts.items())
        if same:
            continue
        kt = kinds(p, sp.sch if sp.sch is not None else sp.src)
        if sp.name == 'mirror_node':
            if not any(e[0] == 'data' and e[1] == sp.dst and is_field(e[2], sp.src, 'm_data') for e in p.ev):
                msgs.add(('the data pointer of the source is not taken over', f.line))
        tree = kt & {'object', 'list'}
        if tree and kt <= {'object', 'list'}:
            if sp.name == 'update_compatible' and kt == {'list'} and 'list' not in kinds(p, sp.dst):
                continue
            if any(e[0] in ('pend', 'lost') for e in p.ev):
                msgs.add(('a child of the source is skipped', f.line))
            w = complete(ip, p, dom)
            if w and sp.name == 'update_compatible' and kt == {'list'} and ran_out(ip, p, sp):
                w = None
            if w and w[0] == '?':
                notes.add((w, f.line))
            elif w:
                msgs.add(('not every child of the source is copied: ' + w, f.line))
            if sp.name == 'set_node' and not any(e[0] in ('reset', 'release', 'init') and e[1] == sp.dst for e in p.ev):
                msgs.add(('the earlier contents are kept', f.line))
            for e in p.ev:
                if e[0] == 'rec' and e[2] and e[1][0] == 'it' and not whole_up(ip, e[1]):
                    msgs.add(('children are added in another order than in the source', f.line))
        elif tree:
            if sp.name == 'mirror_node' and not kt <= {'object', 'list'}:
                if 'object' in kt or 'list' in kt:
                    if any(e[0] == 'rec' for e in p.ev):
                        continue
                    msgs.add(('the children of %s are not copied' % ' or '.join(sorted(tree)), f.line))
                continue
            if any(e[0] == 'rec' or e[0] == 'all' for e in p.ev) or any(mentions(t, lambda x: x[0] == 'it') for t in p.facts):
                w = complete(ip, p, dom)
                if w and w[0] != '?':
                    msgs.add(('not every child of the source is copied: ' + w, f.line))
            else:
                msgs.add(('the children of %s are not copied' % ' or '.join(sorted(tree)), f.line))
        elif kt == {'empty'}:
            if sp.name == 'set_node' and not any(e[0] in ('reset', 'release') and e[1] == sp.dst for e in p.ev) and not any(e[0] == 'leaf' for e in p.ev):
                msgs.add(('an empty source leaves the earlier contents', f.line))
        elif sp.name != 'mirror_node':
            w = leaf(p, sp)
            if w:
                msgs.add((w, f.line))
    for m, l in sorted(notes):
        ck.notes.append('%s:%d: %s: %s' % (f.rel, l, f.qn, m))
    if msgs:
        for m, l in sorted(msgs):
            ck.bad('tree:%s:%s' % (f.name, m[:60]), f.file, l, '%s: %s' % (f.qn, m))
    elif n:
        ck.ok(n, 'tree:' + f.name)
    ck.count('paths', n)


def is_field(t, who, name):
    t = strip(t)
    if t[0] == 'call' and t[1].split('::')[-1] == 'data_ptr':
        return bare(t[2][0]) == who
    return t[0] == 'fld' and t[2] == name and bare(t[1]) == who


def whole_up(ip, it):
    w = whole(ip, it, set())
    return w is None or w[0] == '?'


def ran_out(ip, p, sp):
    """the loop ended because the destination has no further child"""
    for t, b in p.facts.items():
        if t[0] == 'op' and t[1] == '<' and not b and strip(t[2])[0] == 'it':
            o = bare(t[3])
            if o[0] == 'call' and o[1].split('::')[-1] in COUNTS and root(o[2][0]) == sp.dst:
                return whole(ip, strip(t[2]), set()) is None
            if o[0] == 'call' and o[1].startswith('std::min'):
                return True
    return False


def twice(ip, ps, dom, msgs, f):
    """a second loop over the source that starts over although an earlier one already copied children"""
    for p in ps:
        rec = {e[1] for e in p.ev if e[0] == 'rec' and e[1][0] == 'it'}
        loops = {}
        for it in rec:
            loops.setdefault(it[1:3], set()).add(it)
        if len(loops) < 2:
            continue
        # every loop but one must start where another one stopped
        fresh = 0
        for its in loops.values():
            st = {strip(v) for it in its for v in ip.starts.get(it, ())}
            others = [v for v in st if v[0] == 'it' and v not in its]
            if not others and all(v == ('c', 0) or v in its or mentions(v, lambda x: x in its) for v in st):
                fresh += 1
        if fresh > 1:
            msgs.add(('the children of the source are copied twice', f.line))


def leaf(p, sp):
    """why a leaf is not copied correctly on this path, or None"""
    cp = [e for e in p.ev if e[0] == 'copy']
    lf = [e for e in p.ev if e[0] == 'leaf']
    ideq = [b for t, b in p.facts.items() if t[0] == 'op' and t[1] == '==' and is_id(t[2]) and is_id(t[3]) and {root(t[2]), root(t[3])} == {sp.dst, sp.src}]
    less = [(root(t[2]), root(t[3]), b) for t, b in p.facts.items() if t[0] == 'op' and t[1] == '<' and is_num(t[2]) and is_num(t[3])]
    fits = any((a, c) == (sp.dst, sp.src) and not b or (a, c) == (sp.src, sp.dst) and b for a, c, b in less) or \
        any(t[0] == 'op' and t[1] == '==' and b and is_num(t[2]) and is_num(t[3]) and {root(t[2]), root(t[3])} == {sp.dst, sp.src} for t, b in p.facts.items())
    compat = any(t[0] == 'call' and t[1] == 'conduit::DataType::compatible' and b and root(t[2][0]) == sp.dst and root(t[2][1]) == sp.src for t, b in p.facts.items())
    if lf:
        for e in lf:
            if e[2] != sp.dst or e[3] != sp.src:
                return 'a leaf is copied between other nodes than the source and the destination'
            ext = e[1].startswith('set_external')
            if ext != (sp.name == 'update_external'):
                return 'a leaf is %s' % ('made to share memory instead of copied' if ext else 'copied instead of shared')
        if sp.name == 'update_compatible':
            return 'a leaf is replaced although only compatible leaves may change' if not (ideq == [True] and fits or compat) else None
        if sp.name == 'update' and (ideq == [True] and fits or compat):
            return 'a leaf with room for the source is replaced instead of filled (its layout and further elements are lost)'
        return None
    if cp:
        if sp.name in ('update_external',):
            return 'a leaf is copied instead of shared'
        if not (ideq == [True] and fits or compat):
            return 'elements are copied although the types or counts of the two leaves were not found to fit'
        if len(cp) > 1:
            return None
        d, num, nb, ds, s, ss = [strip(x) for x in cp[0][1]]
        for t, nm, who in ((d, 'element_ptr', sp.dst), (s, 'element_ptr', sp.src), (num, 'number_of_elements', sp.src), (ds, 'stride', sp.dst), (ss, 'stride', sp.src), (nb, 'element_bytes', None)):
            if t[0] == 'call' and t[1].split('::')[-1] in ('element_ptr', 'number_of_elements', 'stride', 'element_bytes', 'bytes_compact', 'strided_bytes', 'spanned_bytes', 'total_bytes_compact', 'offset', 'data_ptr', 'default_bytes') or t[0] in ('c', 'op', 'fld'):
                ok = t[0] == 'call' and t[1].split('::')[-1] == nm and (who is None or root(t) == who)
                if nm == 'element_bytes' and t[0] == 'call' and t[1].split('::')[-1] == 'default_bytes':
                    ok = True
                if nm == 'element_ptr' and ok and len(t[2]) > 1 and strip(t[2][1]) != ('c', 0):
                    ok = False
                if nm == 'number_of_elements' and t[0] == 'call' and t[1].split('::')[-1] == nm and eqn(p, sp):
                    ok = True
                if not ok:
                    return 'the %s of a leaf copy is %s instead of the %s of the %s' % (
                        {'element_ptr': 'address', 'number_of_elements': 'count', 'stride': 'stride', 'element_bytes': 'element size'}[nm], show(t), nm, 'source' if who == sp.src else 'destination')
        return None
    if sp.name == 'update_compatible':
        if ideq == [False] or any((a, c) == (sp.dst, sp.src) and b or (a, c) == (sp.src, sp.dst) and not b for a, c, b in less) or \
                any(t[0] == 'call' and t[1] == 'conduit::DataType::compatible' and not b for t, b in p.facts.items()):
            return None
        return 'a leaf of the same type with room for the source is not updated'
    if any(unknown(t) for t in p.facts):
        return None
    return 'a leaf is not copied'


def eqn(p, sp):
    return any(t[0] == 'op' and t[1] == '==' and b and is_num(t[2]) and is_num(t[3]) for t, b in p.facts.items())


KNOWN_HELPERS = set()
for _l in open(__import__('os').path.dirname(__import__('os').path.abspath(__file__)) + '/../lib/known_functions.txt'):
    KNOWN_HELPERS.add(_l.strip())
STD = ('dtype', 'schema', 'id', 'child', 'add_child')


class Seq(Sum):
    iters = True

    def init(self):
        return ()


def seqpaths(pr, f, want):
    """ordered events of the calls named in want"""
    def ev(ip, s, n, ref, obj, args, locs):
        if ref['name'] in want and ref['qn'].startswith('conduit::'):
            e = (ref['name'], bare(obj) if obj is not None else None, tuple(strip(a) for a in args), n.line)
            if e in s.dom:
                return [(s, V)]
            r = V if ref['name'] not in ('append', 'allocate') else ('call', ref['qn'], (bare(obj),) + tuple(args), ip.path + (n.id,))
            return [(s.withdom(s.dom + (e,)), r)]
        return None
    dom = Seq(pure=lambda ref: True, events=ev,
              inl=lambda ref: ref['usr'] in pr.funcs and pr.funcs[ref['usr']].body is not None and ref['qn'].startswith('conduit::') and ref['qn'] not in KNOWN_HELPERS)
    return paths(pr, f, dom)


def external(ck, pr):
    for f in pr.get(ND + 'set_external_node'):
        if f.body is None:
            continue
        src = ('p', f.params[0][0], 0)
        ps, ip = seqpaths(pr, f, ('reset', 'release', 'set', 'mirror_node', 'init'))
        for p in ps:
            if p.kind != 'return':
                continue
            ev = list(p.ev)
            if any(b and t[0] == 'op' and t[1] == '==' and {bare(t[2]), bare(t[3])} == {('this',), src} for t, b in p.facts.items()):
                continue
            bad = None
            st = [i for i, e in enumerate(ev) if e[0] == 'set' and e[1] is not None and root(e[1]) == ('this',)]
            mi = [i for i, e in enumerate(ev) if e[0] == 'mirror_node']
            re = [i for i, e in enumerate(ev) if e[0] in ('reset', 'release') and e[1] == ('this',)]
            if not mi:
                bad = 'the source is not mirrored'
            elif not st or root(ev[st[-1]][2][0]) != src or st[-1] > mi[0]:
                bad = 'the schema of the source is not taken over before its nodes are mirrored'
            elif not re or re[0] > st[0]:
                bad = 'what the node held is not released before it takes over the source'
            else:
                a = ev[mi[0]][2]
                if bare(a[0]) != ('this',) or root(a[1]) != ('this',) or bare(a[2]) != src:
                    bad = 'mirror_node is called for other nodes than this and the source'
            if bad:
                ck.bad('external:' + bad[:50], f.file, f.line, '%s: %s' % (f.qn, bad))
            else:
                ck.ok(1, 'external')


def listof(ck, pr):
    """list_of, list_of_external: entry i describes the bytes at i * entry size"""
    for nm in ('list_of', 'list_of_external'):
        for f in pr.get(ND + nm):
            if f.body is None:
                continue
            key = 'list:%s(%s)' % (nm, len(f.params))
            ext = nm.endswith('external')
            off = 1 if ext else 0
            ps, ip = seqpaths(pr, f, ('append', 'set_external', 'allocate', 'compact_to', 'init_list', 'list_of', 'reset', 'release', 'init'))
            msgs = set()
            n = 0
            fwd = [e for p in ps for e in p.ev if e[0] == nm]
            if fwd:
                ck.ok(1, key)
                continue
            num = ('p', f.params[off + 1][0], off + 1)
            saw = False
            for p in ps:
                if p.kind != 'return':
                    continue
                n += 1
                se = [e for e in p.ev if e[0] == 'set_external']
                ap = [e for e in p.ev if e[0] == 'append']
                al = [e for e in p.ev if e[0] == 'allocate']
                if not ext and al and al[0][2]:
                    w = room(al[0][2][0], p, num)
                    if w:
                        msgs.add(w)
                loops = [strip(t[2]) for t, b in p.facts.items() if t[0] == 'op' and t[1] == '<' and not b and strip(t[2])[0] == 'it']
                ok = [i for i in loops if p.facts.get(('op', '<', i, num)) is False or any(canon(t[3]) == canon(num) for t, b in p.facts.items() if t[0] == 'op' and strip(t[2]) == i and not b)]
                if loops and not ok:
                    msgs.add('the loop does not make one entry per requested entry')
                for i in ok:
                    w = covers(ip, p, i, num)
                    if w and w[0] != '?':
                        msgs.add('the entries are not made once each: ' + w)
                for e in se:
                    saw = True
                    if not (e[1] is not None and e[1][0] == 'call' and e[1][1].split('::')[-1] == 'append'):
                        continue
                    ptr = e[2][1] if len(e[2]) > 1 else None
                    if ptr is None:
                        continue
                    w = step(ip, ptr, e[2][0], f, ext, p)
                    if w:
                        msgs.add(w)
            if msgs:
                for m in sorted(msgs):
                    ck.bad(key + ':' + m[:50], f.file, f.line, '%s: %s' % (f.qn, m))
            elif n:
                ck.ok(n, key)


def iteration(x, ip):
    x = strip(x)
    if x[0] == 'op':
        l = [(k, v) for k, v in lin(x).items() if v]
        if len(l) == 1 and l[0][1] == 1 and len(l[0][0]) == 1:
            x = l[0][0][0]
    return x[0] == 'iter' or x[0] == 'it' and ip.counts_up(x, ('c', 0))


def step(ip, ptr, sch, f, ext, p):
    """the address of entry i is base + i * (compact size of the entry schema)"""
    from loopcov import affine
    o = strip(ptr)
    if o[0] == 'it' and o in ip.stays:
        return 'an entry can lie at the address of the one before it'
    comp = [bare(e[2][0]) for e in p.ev if e[0] == 'compact_to' and e[2]]
    if comp and bare(sch)[0] == 'p' and bare(sch) not in comp:
        return 'the entries are described by the schema given, not by its compact form'
    t = affine(ip, o)
    if strip(t)[0] == 'it':
        return None
    l = lin(t)
    base = [k for k in l if len(k) == 1 and strip(k[0])[0] in ('p', 'fld', 'this') or len(k) == 1 and strip(k[0])[0] == 'call' and strip(k[0])[1].split('::')[-1] in ('data_ptr', 'element_ptr')]
    prod = [k for k in l if len(k) == 2 and any(iteration(x, ip) for x in k)]
    rest = [k for k in l if k not in base and k not in prod and l[k]]
    if not base or len(base) > 1 or l[base[0]] != 1:
        return None
    if rest:
        return None if any(mentions(x, lambda y: y[0] == 'u') for k in rest for x in k) else 'the first entry does not lie at the start of the data'
    if len(prod) != 1:
        return 'the entries do not lie one after the other'
    size = [x for x in prod[0] if not iteration(x, ip)]
    if len(size) != 1 or l[prod[0]] != 1:
        return 'entry i does not lie i entry sizes after the first'
    z = strip(size[0])
    if z[0] == 'call' and z[1].split('::')[-1] in ('total_strided_bytes', 'total_spanned_bytes', 'spanned_bytes', 'strided_bytes') and bare(z[2][0])[0] == 'p':
        return 'the entries are spaced by %s of the schema given instead of the compact size of one entry' % z[1].split('::')[-1]
    return None


def room(al, p, num):
    """list_of allocates entry size * number of entries"""
    t = strip(al)
    if t[0] == 'call' and t[1] == 'conduit::DataType::uint8' and t[2]:
        t = strip(t[2][0])
    l = {k: v for k, v in lin(t).items() if v}
    if unknown(t) or not l:
        return None
    ok = len(l) == 1
    for k, v in l.items():
        ok = ok and v == 1 and len(k) == 2 and num in [strip(x) for x in k] and any(strip(x)[0] == 'call' and strip(x)[1].split('::')[-1].startswith('total_') for x in k)
    return None if ok else 'the memory allocated is %s instead of the size of one entry times the number of entries' % show(canon(t))


CT = ('set', 'set_external', 'set_node', 'set_dtype', 'set_data_using_dtype', 'set_data_using_schema', 'set_schema', 'set_external_node', 'set_external_data_using_schema',
      'set_external_data_using_dtype', 'walk', 'parse', 'init_defaults', 'generate', 'generate_external', 'load', 'mmap', 'init')


def ctors(ck, pr):
    """a constructor leaves the node as the setter with the same arguments would"""
    n = 0
    for f in pr.get('conduit::Node::Node'):
        if f.body is None or not f.params:
            continue
        ty = [p[2] for p in f.params]
        first = ('p', f.params[0][0], 0)
        if not ty[0] or not any(x in ty[0] for x in ('Node', 'Schema', 'DataType')):
            continue
        ps, ip = seqpaths(pr, f, CT)
        for p in ps:
            if p.kind != 'return':
                continue
            n += 1
            st = [e for e in p.ev if e[0] in CT and e[0] not in ('init_defaults', 'init') and (e[1] is None or e[1] == ('this',))]
            ext = [b for t, b in p.facts.items() if strip(t)[0] == 'p' and strip(t)[2] == len(f.params) - 1 and 'bool' in ty[-1]]
            bad = None
            if not any(e[0] == 'init_defaults' for e in p.ev):
                bad = 'the defaults are not set'
            elif not st:
                bad = 'what is given is not stored'
            else:
                e = st[0]
                want = [('p', q[0], i) for i, q in enumerate(f.params) if 'bool' not in q[2]]
                got = [bare(a) for a in e[2]]
                if got[:len(want)] != want and not any(mentions(a, lambda x: x[0] == 'u') for a in got):
                    bad = 'the arguments do not reach %s in their places' % e[0]
                if ext and ext[0] != e[0].startswith('set_external'):
                    bad = 'external data is copied' if ext[0] else 'data to be copied is taken as external'
            if bad:
                ck.bad('ctor:%s:%s' % (len(f.params), bad[:30]), f.file, f.line, 'Node::Node(%s ...): %s' % (ty[0], bad))
            else:
                ck.ok(1, 'constructor')
    ck.count('constructor paths', n)


def move(ck, pr):
    for f in pr.get(ND + 'move'):
        if f.body is None or len(f.params) != 1:
            continue
        src = ('p', f.params[0][0], 0)
        ps, ip = seqpaths(pr, f, ('reset', 'release', 'swap'))
        for p in ps:
            if p.kind != 'return':
                continue
            nm = [(e[0], e[1]) for e in p.ev]
            r = [i for i, e in enumerate(nm) if e[0] in ('reset', 'release')]
            w = [i for i, e in enumerate(p.ev) if e[0] == 'swap']
            bad = None
            if len(w) != 1 or {bare(p.ev[w[0]][2][0]), p.ev[w[0]][1]} != {('this',), src}:
                bad = 'the contents of the source are not exchanged with this node once'
            elif not any(i < w[0] and nm[i][1] == ('this',) or i > w[0] and nm[i][1] == src for i in r):
                bad = 'the source is left with the earlier contents of this node'
            elif any(i < w[0] and nm[i][1] == src or i > w[0] and nm[i][1] == ('this',) for i in r):
                bad = 'the moved contents are reset'
            if bad:
                ck.bad('move:' + bad[:40], f.file, f.line, '%s: %s' % (f.qn, bad))
            else:
                ck.ok(1, 'move')
