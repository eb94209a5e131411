"""N01: a node's children and its schema's children always correspond, one to one and in order, with the right parents."""
from common import Check
import prog as P
from summ import *
from loopcov import visits, covers, bare, ranged

SC = 'conduit::Schema::'
ND = 'conduit::Node::'
PRIM = ('release', 'cleanup', 'init_defaults', 'set_schema_ptr', 'append_node_ptr', 'set_parent', 'set_data_ptr', 'walk_schema', 'mirror_node', 'allocate', '~Node', 'swap')
TYPED = {'init_list': 'list', 'init_object': 'object'}
REL = ('release', 'reset', 'init', 'init_list', 'init_object', 'walk_schema', 'mirror_node', 'm_children', 'set_schema_ptr', 'append_node_ptr', 'add_child', 'append', 'fetch_ptr', 'remove', 'remove_child', 'push_back', 'erase', 'clear')


def run(tier):
    ck = Check('N01', 'other', 'typestate of (children, schema children) along every path of every Node operation: released, schema replaced, schema child pending, child removed; every path ends with the two in correspondence; '
               'every child node is linked to its schema, its parent and the allocator', tier)
    pr = P.load(lambda r: r in ('conduit/conduit_node.cpp', 'conduit/conduit_schema.cpp', 'conduit/conduit_data_type.cpp'))
    ops = 0
    for f in sorted(pr.funcs.values(), key=lambda f: (f.file, f.line)):
        if not f.qn.startswith(ND) or f.body is None or f.qn.count('::') != 2 or f.name in PRIM or f.flags.get('internal'):
            continue
        if f.qn not in KNOWN and f.flags.get('private'):
            continue
        if not relevant(f):
            continue
        ops += 1
        one(ck, pr, f)
    ck.count('operations', ops)
    ck.floor('operations', ops, 20)
    for nm in ('walk_schema', 'mirror_node'):
        walk(ck, pr, nm)
    primitives(ck, pr)
    swap(ck, pr)
    import n01schema
    n01schema.schema(ck, pr)
    import n01gen
    n01gen.gen(ck)
    return ck


def relevant(f):
    for x in f.body.walk():
        if x.k in ('MCall', 'Call') and x.d[0] is not None and x.d[0]['name'] in REL:
            return True
        if x.k == 'Member' and x.d[0] == 'm' and x.d[1] in ('m_children', 'm_schema') and f.name not in ():
            if x.d[1] == 'm_children':
                return True
    return False


class NS(Sum):
    iters = True
    cap = 3000

    def init(self):
        return frozenset()

    def on_range(self, ip, s, n, c, e):
        return ranged(ip, s, n, c, e)

    def on_new(self, ip, s, n, v):
        if n.d[0].replace('const ', '').strip().startswith('conduit::Node'):
            return [(s.withdom(s.dom | {('new', v)}), v)]
        return [(s, v)]

    def on_delete(self, ip, s, n, v):
        e = bare(v)
        k = kid(e)
        if k:
            s = s.withdom(s.dom | {('del', k[0], k[1], n.line)})
        return [(s, ('u', 'void'))]

    def on_store(self, ip, s, n, loc, v):
        if loc[0] == '*' and loc[1][0] == 'fld' and loc[1][2] == 'm_parent':
            return s.withdom(s.dom | {('par', bare(loc[1][1]), bare(v))})
        return s


def kid(e):
    """(node, index) of a child term m_children[i]"""
    if e[0] == 'idx' and bare(e[1])[0] == 'fld' and bare(e[1])[2] == 'm_children':
        return bare(bare(e[1])[1]), canon(e[2])
    if e[0] == 'call' and e[1].split('::')[-1] in ('operator[]', 'at') and len(e[2]) == 2:
        c = bare(e[2][0])
        if c[0] == 'fld' and c[2] == 'm_children':
            return bare(c[1]), canon(e[2][1])
        if c[0] not in ('call',) and e[1].startswith(ND):
            return c, canon(e[2][1])
    if e[0] == 'call' and e[1] == '<at>':
        # begin() + i
        l = lin(e[2][0])
        b = [k for k in l if len(k) == 1 and k[0][0] == 'call' and k[0][1].split('::')[-1] == 'begin']
        if len(b) == 1 and l[b[0]] == 1:
            c = bare(b[0][0][2][0])
            if c[0] == 'fld' and c[2] == 'm_children':
                r = {k: v for k, v in l.items() if k != b[0]}
                return bare(c[1]), canon(('lin', tuple(sorted(r.items(), key=repr))))
    if e[0] == 'call' and e[1] in (ND + 'child', ND + 'child_ptr') and len(e[2]) == 2:
        return bare(e[2][0]), canon(e[2][1])
    return None


def norm_idx(t):
    t = canon(t)
    if t[0] == 'lin':
        l = dict(t[1])
        if len(l) == 1:
            (k, v), = l.items()
            if v == 1 and len(k) == 1:
                return k[0]
    return t


def owner(o):
    """the node whose schema this is"""
    o = bare(o)
    if o[0] == 'fld' and o[2] == 'm_schema':
        return bare(o[1])
    if o[0] == 'call' and o[1] in (ND + 'schema_ptr', ND + 'schema') and o[2]:
        return bare(o[2][0])
    return None


def get(dom, N):
    for e in dom:
        if e[0] == 'st' and e[1] == N:
            return e[2], e[3]
    return 'C', None


def put(s, N, st, ty=None):
    return s.withdom(frozenset(e for e in s.dom if not (e[0] == 'st' and e[1] == N)) | {('st', N, st, ty)})


def bad(s, msg, n):
    return s.withdom(s.dom | {('BAD', msg, n.line)})


def kindof(args):
    """object / list / leaf for a DataType argument"""
    if not args:
        return None
    a = bare(args[0])
    if a[0] == 'call' and a[1] == 'conduit::DataType::DataType' and a[2]:
        i = val(a[2][0], {})
        if i is not None:
            return KIND.get(i)
    if a[0] == 'call' and a[1].startswith('conduit::DataType::'):
        return a[1].split('::')[-1]
    if a[0] == 'c' and isinstance(a[1], int):
        return KIND.get(a[1])
    return None


def typed(ip, s, N):
    """container type known from the facts"""
    for t, b in s.facts.items():
        if t[0] == 'op' and t[1] == '==' and b and val(t[3], {}) in (1, 2):
            x = strip(t[2])
            if x == ('fld', ('fld', ('fld', N, 'm_schema'), 'm_dtype'), 'm_id'):
                return KIND[val(t[3], {})]
    return None


def leafy(s, N):
    """facts exclude object and list"""
    x = ('fld', ('fld', ('fld', N, 'm_schema'), 'm_dtype'), 'm_id')
    no = set()
    for t, b in s.facts.items():
        if t[0] == 'op' and t[1] == '==' and strip(t[2]) == x:
            v = val(t[3], {})
            if b:
                return v not in (1, 2)
            no.add(v)
    return {1, 2} <= no


def events(pr):
    def ev(ip, s, n, ref, obj, args, locs):
        q, nm = ref['qn'], ref['name']
        V = ('u', 'void')
        if q.startswith(ND) and obj is not None:
            N = bare(obj)
            st, ty = get(s.dom, N)
            if nm == 'release':
                if st in ('P', 'X'):
                    s = bad(s, 'released with a half-made child', n)
                return [(put(s, N, 'R'), V)]
            if nm == 'init_defaults':
                return [(put(s, N, 'C', 'empty'), V)]
            if nm == 'reset':
                return [(put(s, N, 'C', 'empty'), V)]
            if nm in ('init', 'set_dtype') or nm in TYPED:
                k = TYPED.get(nm) or kindof(args)
                if st == 'R':
                    s = bad(s, 'init after release may keep the old schema, whose children have no nodes any more', n)
                elif st != 'C':
                    s = bad(s, 'init of a node whose children and schema do not correspond', n)
                return [(put(s, N, 'C', k), V)]
            if nm == 'set_schema_ptr':
                return [(s.withdom(s.dom | {('sch', N, bare(args[0]))}), V)]
            if nm == 'set_allocator':
                return [(s.withdom(s.dom | {('all', N, bare(args[0]))}), V)]
            if nm == 'append_node_ptr':
                return [(push(s, N, args[0], n), V)]
            if nm == 'set_data_ptr':
                return [(s.withdom(s.dom | {('dat', N, bare(args[0]))}), V)]
            if nm in ('walk_schema', 'mirror_node'):
                return walked(s, n, nm, args)
            if nm == 'allocate':
                return [(s, V)]
        if q.startswith(ND) and nm in ('walk_schema', 'mirror_node'):
            return walked(s, n, nm, args)
        if q.startswith(SC) and obj is not None:
            N = owner(obj)
            if N is not None:
                st, ty = get(s.dom, N)
                ty = ty or typed(ip, s, N)
                if nm in ('set', 'operator=') and args:
                    pt = ref.get('params') or ''
                    isschema = 'Schema' in argty(n, ref)
                    if st == 'P' or st == 'X':
                        s = bad(s, 'the schema is replaced while a child is half made', n)
                    elif st == 'C' and ty != 'empty' and not leafy(s, N):
                        s = bad(s, 'the schema is replaced while the child nodes of the old one exist', n)
                    return [(put(s, N, 'W' if isschema else 'C', None if isschema else kindof(args) or 'leaf'), V)]
                if nm == 'reset':
                    if st == 'C' and ty != 'empty' and not leafy(s, N):
                        s = bad(s, 'the schema is reset while the child nodes exist', n)
                    return [(put(s, N, 'C', 'empty'), V)]
                if nm == 'walk_schema':
                    return [(put(s, N, 'W'), V)]
                if nm in ('append', 'add_child', 'fetch_ptr', 'fetch', 'operator[]') and not ref.get('const'):
                    want = 'list' if nm == 'append' else 'object'
                    if nm == 'operator[]' and args and 'basic_string' not in argty(n, ref):
                        return None
                    v = ('call', SC + 'newchild', (bare(obj),), ip.path + (n.id,))
                    if st in ('R', 'W'):
                        s = bad(s, 'a schema child is added while the schema has children without nodes', n)
                    elif st == 'P':
                        s = bad(s, 'a second schema child is added before the node of the first', n)
                    elif ty != want:
                        s = bad(s, 'a schema child is added to a node not known to be an %s: the schema may drop its children while their nodes remain' % want, n)
                    return [(put(s, N, 'P', want), v)]
                if nm == 'remove' or nm == 'remove_child':
                    a = bare(args[0])
                    i = canon(args[0]) if nm == 'remove' else ('call', SC + 'child_index', (bare(obj), a), ())
                    return [(s.withdom(s.dom | {('srm', N, canon(i), n.line)}), V)]
                if nm == 'child_index':
                    return [(s, ('call', SC + 'child_index', (bare(obj), bare(args[0])), ()))]
            if nm == 'compact_to' and args:
                M = owner(args[0])
                if M is not None:
                    st, ty = get(s.dom, M)
                    if not (st == 'C' and ty == 'empty' or st == 'R'):
                        s = bad(s, 'the schema is replaced while the child nodes of the old one exist', n)
                    return [(put(s, M, 'W'), V)]
        if q.startswith('std::vector<conduit::Node *') and obj is not None:
            o = bare(obj)
            if o[0] == 'fld' and o[2] == 'm_children':
                N = bare(o[1])
                if nm in ('push_back', 'emplace_back'):
                    return [(push(s, N, args[0], n), V)]
                if nm == 'erase':
                    k = kid(('call', '<at>', (args[0],), ()))
                    s = s.withdom(s.dom | {('erm', N, norm_idx(k[1]) if k else ('u', 'idx'), n.line)})
                    return [(s, V)]
                if nm == 'clear':
                    return [(put(s, N, 'R'), V)]
        return None
    return ev


def argty(n, ref):
    a = n.c[1:] if n.k in ('MCall', 'OpCall') else n.c
    return a[0].ty if a and a[0] is not None else ''


def walked(s, n, nm, args):
    N = bare(args[0])
    o = owner(args[1])
    st, ty = get(s.dom, N)
    if o != N and not unknown(('t', args[1])):
        s = bad(s, '%s over a schema that is not the node\'s own' % nm, n)
    if nm == 'walk_schema' and len(args) > 3:
        a = bare(args[3])
        if a != ('fld', N, 'm_allocator_id') and not unknown(a):
            s = bad(s, 'the children get %s as allocator, not that of their parent' % show(a), n)
    if st not in ('W',) and not (st == 'C' and ty in ('empty', 'leaf') or st == 'C' and ty in KIND.values() and ty not in ('object', 'list')):
        s = bad(s, '%s although the node may already have children' % nm, n)
    return [(put(s, N, 'C'), ('u', 'void'))]


def push(s, N, c, n):
    st, ty = get(s.dom, N)
    if st != 'P':
        s = bad(s, 'a child node is added without a new schema child', n)
    s = s.withdom(s.dom | {('push', N, bare(c), n.line)})
    return put(s, N, 'C', ty)


def one(ck, pr, f):
    evs = events(pr)
    known = {ND + 'dtype', SC + 'dtype', ND + 'schema_ptr', ND + 'schema', ND + 'set_parent', 'conduit::DataType::is_object', 'conduit::DataType::is_list', 'conduit::DataType::is_empty', 'conduit::DataType::id'}

    def inl(ref):
        if ref.get('ctor'):
            return False
        if ref['qn'] in known:
            return True
        if ref['qn'] == f.qn and ref['usr'] != f.usr and len(ref['usr']) != len(f.usr):
            return False
        g = pr.funcs.get(ref['usr'])
        return g is not None and g.body is not None and g.qn not in KNOWN and g.qn.startswith('conduit::')

    dom = NS(inl, events=evs, pure=lambda r: r.get('const') or r['qn'].startswith('std::vector'))
    if f.flags.get('ctor'):
        dom.init = lambda: frozenset({('st', ('this',), 'C', 'empty')})
    try:
        ps, ip = paths(pr, f, dom)
    except Exception as ex:
        ck.notes.append('%s: %s' % (f.qn, ex))
        return
    key = '%s/%s' % (f.name, ','.join(x[2].replace('conduit::', '').replace('const ', '').strip() for x in f.params))[:120]
    msgs = set()
    n = 0
    for p in ps:
        for e in p.ev:
            if e[0] == 'BAD':
                msgs.add((e[1], e[2]))
        if p.kind != 'return':
            continue
        n += 1
        for e in p.ev:
            if e[0] == 'st':
                if e[2] == 'R':
                    msgs.add(('ends with its child nodes released but its schema unchanged', f.line))
                elif e[2] == 'W':
                    msgs.add(('ends with a new schema but without the child nodes for it', f.line))
                elif e[2] == 'P':
                    msgs.add(('ends with a schema child that has no node', f.line))
        links(p, msgs, f, ip)
        removal(p, msgs, f)
    if msgs:
        for m, l in sorted(msgs):
            ck.bad(key + ':' + m[:50], f.file, l, '%s: %s' % (f.qn, m))
    elif n:
        ck.ok(n, key)
        ck.count('paths', n)


def links(p, msgs, f, ip):
    for e in p.ev:
        if e[0] != 'push':
            continue
        N, c, line = e[1:]
        new = ('new', c) in p.ev
        if not new:
            continue
        sch = [x[2] for x in p.ev if x[0] == 'sch' and x[1] == c]
        par = [x[2] for x in p.ev if x[0] == 'par' and x[1] == c]
        al = [x[2] for x in p.ev if x[0] == 'all' and x[1] == c]
        if not sch:
            msgs.add(('the new child node is not linked to its schema', line))
        else:
            for y in sch:
                if not (y[0] == 'call' and (y[1] == SC + 'newchild' and owner(y[2][0]) in (N, None) or y[1] in (SC + 'child', SC + 'child_ptr') and owner(y[2][0]) in (N, None))) and not unknown(y):
                    msgs.add(('the new child node is linked to another schema', line))
                elif y[0] == 'call' and y[1] in (SC + 'child', SC + 'child_ptr') and len(y[2]) == 2 and val(y[2][1], {}) is not None:
                    msgs.add(('the new child node is linked to the schema of child %s' % val(y[2][1], {}), line))
        if not par:
            msgs.add(('the new child node has no parent', line))
        elif any(y != N for y in par):
            msgs.add(('the new child node gets another parent', line))
        if not al:
            msgs.add(('the new child node does not inherit the allocator', line))


def removal(p, msgs, f):
    d = [e for e in p.ev if e[0] == 'del']
    r = [e for e in p.ev if e[0] == 'srm']
    x = [e for e in p.ev if e[0] == 'erm']
    if not (r or x):
        return
    if not d:
        msgs.add(('a child is removed but its node is not deleted', f.line))
        return
    if not r:
        msgs.add(('a child node is removed but its schema child is not', f.line))
    if not x:
        msgs.add(('a schema child is removed but the node stays in the list of children', f.line))
    ix = {norm_idx(e[2]) for e in d + r + x}
    ix = {y for y in ix if not unknown(y)}
    if len(ix) > 1:
        msgs.add(('node, schema and list entry of different children are removed', f.line))


def walk(ck, pr, nm):
    for f in [f for f in pr.funcs.values() if f.qn == ND + nm and f.body is not None]:
        N, S = ('p', f.params[0][0], 0), ('p', f.params[1][0], 1)
        third = ('p', f.params[2][0], 2)
        evs = events(pr)

        def ev(ip, s, n, ref, obj, args, locs, evs=evs):
            q, m = ref['qn'], ref['name']
            if q == ND + nm:
                return [(s.withdom(s.dom | {('rec', tuple(bare(a) for a in args), n.line)}), ('u', 'void'))]
            if q == ND + 'append_node_ptr' or q.startswith('std::vector<conduit::Node *') and m == 'push_back':
                o = bare(obj)
                o = bare(o[1]) if o[0] == 'fld' and o[2] == 'm_children' else o
                return [(s.withdom(s.dom | {('push', o, bare(args[0]), n.line)}), ('u', 'void'))]
            if q.startswith(SC) and m in ('add_child', 'child', 'child_ptr', 'operator[]') and obj is not None and bare(obj) == S:
                return [(s, ('call', SC + m, (S, strip(args[0])), ()))]
            if q in (SC + 'children', SC + 'object_order', SC + 'number_of_children', SC + 'child_names') and obj is not None:
                return [(s, ('call', q, (bare(obj),), ()))]
            if q in (ND + 'set_schema_ptr', ND + 'set_allocator', ND + 'set_data_ptr'):
                return evs(ip, s, n, ref, obj, args, locs)
            return None
        known = {SC + 'dtype', 'conduit::DataType::is_object', 'conduit::DataType::is_list', 'conduit::DataType::id', ND + 'set_parent'}

        def inl(ref):
            g = pr.funcs.get(ref['usr'])
            return ref['qn'] in known or g is not None and g.body is not None and g.qn not in KNOWN and g.qn.startswith('conduit::') and not ref.get('ctor')
        ps, ip = paths(pr, f, NS(inl, events=ev, pure=lambda r: r.get('const') or r['qn'].startswith('std::vector')))
        mid = ('fld', ('fld', S, 'm_dtype'), 'm_id')
        for k in ('object', 'list', 'int32'):
            q = [p for p in under(ps, {mid: ID[k]}) if p.kind == 'return']
            key = '%s:%s' % (nm, k)
            why = None if q else '?no path'
            seen = False
            for p in q:
                rec = [e for e in p.ev if e[0] == 'rec']
                pu = [e for e in p.ev if e[0] == 'push']
                da = [e for e in p.ev if e[0] == 'dat' and e[1] == N]
                if not da:
                    if not [e for e in p.ev if e[0] == 'dat']:
                        why = why or 'the data pointer of the node is not set'
                elif nm == 'walk_schema' and any(e[2] != third for e in da) or nm == 'mirror_node' and any(e[2] != ('fld', third, 'm_data') for e in da):
                    why = why or ('?data %s' % show(da[0][2]) if unknown(da[0][2]) else 'the data pointer of the node becomes %s' % show(da[0][2]))
                if k == 'int32':
                    if rec or pu:
                        why = why or 'a leaf gets children'
                    continue
                if not rec and not pu:
                    continue
                seen = True
                if len(rec) != 1 or len(pu) != 1:
                    why = why or ('?' if len(rec) > 1 or len(pu) > 1 else 'a child is %s' % ('built but not added' if rec else 'added but not built'))
                    continue
                c, cs = rec[0][1][0], rec[0][1][1]
                if pu[0][1] != N or pu[0][2] != c:
                    why = why or 'the child is added to another node'
                sch = [x[2] for x in p.ev if x[0] == 'sch' and x[1] == c]
                par = [x[2] for x in p.ev if x[0] == 'par' and x[1] == c]
                al = [x[2] for x in p.ev if x[0] == 'all' and x[1] == c]
                if sch != [cs]:
                    why = why or ('the child node is not linked to its schema' if not sch else '?' if any(unknown(y) for y in sch) else 'the child node is linked to another schema than its own')
                if par != [N]:
                    why = why or ('the child node has no parent' if not par else 'the child node gets another parent')
                if not al:
                    why = why or 'the child node does not inherit the allocator'
                i = index(cs, S)
                if i is None:
                    why = why or '?child schema %s' % show(cs)
                else:
                    w = covers(ip, p, i, lambda b: b[0] == 'call' and b[1].split('::')[-1] in ('size', 'number_of_children'))
                    import n01schema
                    why = why or w or ('the child nodes are made in reverse order' if n01schema.descending(ip, i) else None)
                if nm == 'mirror_node' and i is not None:
                    j = bare(rec[0][1][2])
                    j = j[2][1] if j[0] == 'call' and j[1].split('::')[-1] in ('child', 'child_ptr', 'operator[]') else j[2] if j[0] == 'idx' else None
                    if j is None:
                        why = why or '?source child'
                    elif canon(j) != canon(i):
                        why = why or 'a child mirrors another child of the source'
                if nm == 'walk_schema' and rec[0][1][2] != third:
                    why = why or '?data of the child'
            if why is None and k != 'int32' and not seen:
                why = '?no children built'
            if why is None:
                ck.ok(1, key)
            elif why[0] == '?':
                ck.notes.append(key + ': ' + why)
            else:
                ck.bad(key, f.file, f.line, '%s: %s' % (f.qn, why))


def index(cs, S):
    """index of the child schema cs of S"""
    cs = bare(cs)
    if cs[0] == 'call' and cs[1] in (SC + 'child', SC + 'child_ptr') and bare(cs[2][0]) == S:
        return cs[2][1]
    if cs[0] == 'idx':
        return cs[2]
    if cs[0] == 'call' and cs[1].split('::')[-1] in ('operator[]', 'at') and 'vector' in cs[1]:
        return cs[2][1]
    if cs[0] == 'call' and cs[1] in (SC + 'add_child', SC + 'operator[]') and len(cs[2]) == 2:
        a = bare(cs[2][1])
        if a[0] == 'call' and len(a[2]) >= 1 and a[1].startswith('std::basic_string'):
            a = bare(a[2][0])
        if a[0] == 'call' and a[1].split('::')[-1] in ('operator[]', 'at', 'child_name') and len(a[2]) == 2:
            return a[2][1]
        if a[0] == 'idx':
            return a[2]
    return None


def primitives(ck, pr):
    """release, cleanup, set_schema_ptr, append_node_ptr"""
    T = ('this',)
    for f in [f for f in pr.funcs.values() if f.qn == ND + 'release' and f.body is not None]:
        def ev(ip, s, n, ref, obj, args, locs):
            if ref['qn'].startswith('std::vector<conduit::Node *') and ref['name'] == 'clear' and bare(obj) == ('fld', T, 'm_children'):
                return [(s.withdom(s.dom | {('clear', n.line)}), ('u', 'void'))]
            return None
        inl = inliner(pr, (ND + 'dtype', SC + 'dtype', 'conduit::DataType::'))
        ps, ip = paths(pr, f, NS(inl, events=ev, pure=lambda r: r.get('const') or r['qn'].startswith('std::vector')))
        seen = False
        why = None
        for p in ps:
            if p.kind != 'return':
                continue
            d = [e for e in p.ev if e[0] == 'del']
            if not [e for e in p.ev if e[0] == 'clear'] and ('*', ('fld', T, 'm_children')) not in p.env:
                why = why or 'the list of children is not cleared'
            if d:
                seen = True
                w = covers(ip, p, d[0][2], lambda b: b[0] == 'call' and b[1].split('::')[-1] in ('size', 'number_of_children'))
                why = why or w
            # any element form
        if not seen and why is None:
            why = '?deletion of the children not seen'
        report(ck, f, 'release', why)
    for f in [f for f in pr.funcs.values() if f.qn == ND + 'set_schema_ptr' and f.body is not None]:
        ps, ip = paths(pr, f, DelDom(inliner(pr, ())))
        why = None
        for p in ps:
            if p.kind != 'return':
                continue
            own = None
            for t, b in p.facts.items():
                if strip(t) == ('fld', T, 'm_owns_schema'):
                    own = b
            dl = [e for e in p.ev if e[0] == 'delete']
            fs = p.fields()
            if fs.get('m_schema') != ('p', f.params[0][0], 0):
                why = why or 'the schema pointer is not replaced'
            if own and not [e for e in dl if e[1] == ('fld', T, 'm_schema')]:
                why = why or 'the schema the node owned is not deleted'
            if own is not True and dl:
                why = why or 'a schema the node may not own is deleted'
            o = fs.get('m_owns_schema')
            if own is not False and (o is None or val(o, {}) not in (0, False)):
                why = why or 'the node still counts as owner of a schema that is not its own'
        report(ck, f, 'set_schema_ptr', why)
    for f in [f for f in pr.funcs.values() if f.qn == ND + 'cleanup' and f.body is not None]:
        ps, ip = paths(pr, f, DelDom(inliner(pr, (), skip=(ND + 'release',)), events=recev((ND + 'release',))))
        why = None
        for p in ps:
            if p.kind != 'return':
                continue
            own = nul = None
            for t, b in p.facts.items():
                if strip(t) == ('fld', T, 'm_owns_schema'):
                    own = b
                if mentions(t, lambda x: x == ('fld', T, 'm_schema')):
                    nul = t
            dl = [e for e in p.ev if e[0] == 'delete' and e[1] == ('fld', T, 'm_schema')]
            if own is not True and dl:
                why = why or 'a schema the node may not own is deleted'
            if own is True and nul is None and not dl:
                why = why or 'the schema the node owns is not deleted'
            if not [e for e in p.ev if e[0] == 'call' and e[1] == 'release']:
                why = why or 'the children and data are not released'
            if dl and [e for e in p.ev if e[0] == 'late']:
                why = why or 'the schema is deleted before the children are released'
        report(ck, f, 'cleanup', why)


def report(ck, f, key, why):
    if why is None:
        ck.ok(1, key)
    elif why[0] == '?':
        ck.notes.append(key + ': ' + why)
    else:
        ck.bad(key, f.file, f.line, '%s: %s' % (f.qn, why))


def recev(names):
    def ev(ip, s, n, ref, obj, args, locs):
        if ref['qn'] in names:
            late = {('late',)} if any(e[0] == 'delete' for e in s.dom) else set()
            return [(s.withdom(s.dom | {('call', ref['name'], n.line)} | late), ('u', 'void'))]
        return None
    return ev


class DelDom(Sum):
    def init(self):
        return frozenset()

    def on_delete(self, ip, s, n, v):
        return [(s.withdom(s.dom | {('delete', bare(v), n.line)}), ('u', 'void'))]


def swap(ck, pr, only=None):
    FLD = only or ('m_data', 'm_data_size', 'm_schema', 'm_alloced', 'm_mmaped', 'm_mmap', 'm_allocator_id', 'm_children')
    for f in [f for f in pr.funcs.values() if f.qn == ND + 'swap' and f.body is not None]:
        T, B = ('this',), ('p', f.params[0][0], 0)

        def ev(ip, s, n, ref, obj, args, locs):
            q, m = ref['qn'], ref['name']
            L, A = (locs or (None, []))[1], args
            if m == 'swap' and (q.startswith('std::') or 'vector' in q):
                if obj is not None and len(args) == 1:
                    L, A = [locs[0], L[0]], [strip(obj), args[0]]
                if len(A) == 2 and len(L) == 2 and all(x is not None for x in L):
                    a, b = ip.load(L[0], s), ip.load(L[1], s)
                    s = s.set(L[0], b).set(L[1], a)
                    return [(s, ('u', 'void'))]
            if q == SC + 'child_index':
                if any(e[0] == 'slot' for e in s.dom):
                    s = s.withdom(s.dom | {('stale', n.line)})
                return [(s, ('call', q, (bare(obj), bare(args[0])), ()))]
            return None

        class D(NS):
            def on_store(self, ip, s, n, loc, v):
                s = NS.on_store(self, ip, s, n, loc, v)
                t = loc[1] if loc[0] == '*' else None
                if t is not None and t[0] == 'fld' and t[2] == 'm_parent' and kid(bare(t[1])) and bare(v) in (T, B):
                    c = bare(t[1])
                    for x in s.facts:
                        if mentions(x, lambda y: bare(y) == c if isinstance(y, tuple) and y and y[0] in ('call', 'idx', 'ld') else False) and not (x[0] == 'op' and x[1] == '==' and c in (bare(x[2]), bare(x[3]))):
                            s = s.withdom(s.dom | {('parif', n.line)})
                if t is not None and (t[0] == 'idx' or t[0] == 'call' and t[1].split('::')[-1] in ('operator[]', 'at')):
                    s = s.withdom(s.dom | {('slot', bare(v))})
                return s
        inl = inliner(pr, (ND + 'parent', SC + 'parent', SC + 'children', ND + 'set_parent', ND + 'is_root', SC + 'is_root'))
        ps, ip = paths(pr, f, D(inl, events=ev, pure=lambda r: r.get('const') or r['qn'].startswith('std::vector')))
        why = set()
        rep = set()
        n = 0
        for p in ps:
            if p.kind != 'return':
                continue
            if any(bare(t[2]) == T and bare(t[3]) == B or bare(t[2]) == B and bare(t[3]) == T for t, b in p.facts.items() if t[0] == 'op' and t[1] == '==' and b):
                continue    # swap with itself
            n += 1
            for x in FLD:
                a, b = p.env.get(('*', ('fld', T, x))), p.env.get(('*', ('fld', B, x)))
                if a is None and b is None:
                    why.add('%s is not exchanged' % x)
                elif bare(a or ('u',)) != ('fld', B, x) or bare(b or ('u',)) != ('fld', T, x):
                    if not unknown(('t', a or ('c', 0), b or ('c', 0))):
                        why.add('%s is not exchanged' % x)
            sl = {e[1] for e in p.ev if e[0] == 'slot'}
            for nm, N, oth in (('this node', T, B), ('the other node', B, T)):
                has = None
                for t, b in p.facts.items():
                    if mentions(t, lambda x: x == ('fld', N, 'm_parent')):
                        has = b if not (t[0] == 'op') else (not b)
                if has and ('fld', oth, 'm_schema') not in sl:
                    why.add('the schema of %s is not replaced in its parent\'s schema' % nm)
            if any(e[0] == 'stale' for e in p.ev):
                why.add('a child index is looked up after a slot was already overwritten: two children of the same parent are not exchanged')
            ex = {p.env.get(('*', ('fld', ('fld', N, 'm_schema'), 'm_parent'))) for N in (T, B)}
            if None in ex:
                why.add('the parents of the schemas are not exchanged')
            if any(e[0] == 'parif' for e in p.ev):
                why.add('only some of the children get their new parent')
            for e in p.ev:
                if e[0] == 'par' and (kid(e[1]) or e[1][0] == 'call' and e[1][1] in ('<at>', '<element>', ND + 'next')):
                    rep.add(e[2])
                    k = kid(e[1])
                    if k and k[1][0] != 'call':
                        w = covers(ip, p, k[1], lambda b: b[0] == 'call' and b[1].split('::')[-1] in ('size', 'number_of_children'))
                        if w and w[0] != '?':
                            why.add('not every child gets its new parent: ' + w)
        if n:
            for N, nm in ((T, 'this node'), (B, 'the other node')):
                if N not in rep:
                    why.add('the children that %s receives keep their old parent' % nm)
        if only:
            why = {w for w in why if w.split(' ')[0] in only}
        if why:
            for w in sorted(why):
                ck.bad('swap:' + w[:40], f.file, f.line, '%s: %s' % (f.qn, w))
        elif n:
            ck.ok(n * len(FLD), 'swap')
