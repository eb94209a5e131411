"""Schema side of N01: children, object_order and object_map describe the same children; the hierarchy matches the dtype."""
from summ import *
from loopcov import visits, covers, bare, ranged
import N01 as M

SC = 'conduit::Schema::'
ACC = ('children', 'object_order', 'object_map')
T = ('this',)
N0 = ('call', SC + 'count', (T,), ())


class SS(M.NS):
    ctor = False

    def on_new(self, ip, s, n, v):
        t = n.d[0].replace('const ', '').strip()
        if t.startswith('conduit::Schema'):
            return [(s.withdom(s.dom | {('new', v, t.split('::')[-1])}), v)]
        return [(s, v)]

    def on_delete(self, ip, s, n, v):
        e = bare(v)
        k = elem(e)
        if k and k[0] == 'children':
            s = s.withdom(s.dom | {('del', k[1], k[2], n.line)})
        else:
            s = s.withdom(s.dom | {('delx', e, n.line)})
        return [(s, ('u', 'void'))]

    def on_store(self, ip, s, n, loc, v):
        if loc[0] != '*':
            return s
        t = loc[1]
        if t[0] == 'fld' and t[2] == 'm_parent':
            return s.withdom(s.dom | {('par', bare(t[1]), bare(v))})
        if t[0] == 'fld' and t[2] == 'm_dtype' and bare(t[1]) == T:
            return s.withdom(s.dom | {('dt', bare(v), n.line)})
        if t[0] == 'fld' and t[2] == 'm_id' and bare(t[1]) == ('fld', T, 'm_dtype'):
            return s.withdom(s.dom | {('dt', ('id', bare(v)), n.line)})
        if t[0] == 'fld' and t[2] == 'm_hierarchy_data' and bare(t[1]) == T:
            if val(v, {}) != 0 and not any(e == ('ty', 'empty') or e[0] == 'hier' and val(e[1], {}) == 0 for e in s.dom) and \
                    any(e[0] == 'new' and e[1] == bare(v) for e in s.dom) and not leaf_fact(s) and not self.ctor:
                s = s.withdom(s.dom | {('lost', n.line)})
            return s.withdom(frozenset(e for e in s.dom if e[0] != 'hier') | {('hier', bare(v))})
        a = acc(t)
        if a:
            b = acc(v)
            return s.withdom(s.dom | {('copy', a[0], a[1], b[1] if b else ('u', 'x'), n.line)})
        k = elem(t)
        if k:
            have = {e[0] for e in s.dom}
            if k[0] == 'object_map':
                s = s.withdom(s.dom | {('mst', k[1], k[2], strip(v), 'oer' in have, 'mer' in have, n.line)})
            elif k[0] == 'object_order':
                s = s.withdom(s.dom | {('ost', k[1], k[2], bare(v), n.line)})
            else:
                s = s.withdom(s.dom | {('cst', k[1], k[2], bare(v), n.line)})
                if last(v, k[1]):
                    s = s.withdom(s.dom | {('moved', k[1], n.line)})
        return s


def last(t, S):
    t = bare(t)
    return t[0] == 'call' and t[1].split('::')[-1] == 'back' and acc(t[2][0]) == ('children', S)


def leaf_fact(s):
    ne = {val(t[3], {}) for t, b in s.facts.items() if t[0] == 'op' and t[1] == '==' and not b and is_id(t[2], ('fld', ('fld', T, 'm_dtype'), 'm_id'))}
    eq = {val(t[3], {}) for t, b in s.facts.items() if t[0] == 'op' and t[1] == '==' and b and is_id(t[2], ('fld', ('fld', T, 'm_dtype'), 'm_id'))}
    return {1, 2} <= ne or eq and not eq & {1, 2, None}


def acc(t):
    """(which, schema) of an accessor call"""
    t = bare(t)
    if t[0] == 'call' and t[1].startswith(SC) and t[1].split('::')[-1] in ACC and t[2]:
        return t[1].split('::')[-1], bare(t[2][0])
    if t[0] == 'fld' and t[2] in ACC and bare(t[1])[0] == 'call' and bare(t[1])[1].endswith('_hierarchy'):
        return t[2], bare(bare(t[1])[2][0])
    return None


def elem(t):
    """(which, schema, index or name)"""
    t = bare(t)
    if t[0] == 'idx':
        a = acc(t[1])
        return a + (canon(t[2]),) if a else None
    if t[0] == 'call' and t[1].split('::')[-1] in ('operator[]', 'at') and len(t[2]) == 2:
        a = acc(t[2][0])
        if a:
            return a + (bare(t[2][1]) if a[0] == 'object_map' else canon(t[2][1]),)
    if t[0] == 'call' and t[1] == '<at>':
        l = lin(t[2][0])
        b = [k for k in l if len(k) == 1 and k[0][0] == 'call' and k[0][1].split('::')[-1] in ('begin', 'cbegin')]
        if len(b) == 1 and l[b[0]] == 1:
            a = acc(b[0][0][2][0])
            if a:
                r = {k: v for k, v in l.items() if k != b[0]}
                return a + (canon(('lin', tuple(sorted(r.items(), key=repr)))),)
    return None


def same_child(name, idx):
    """does name denote the child at idx?"""
    if idx[0] == 'call' and idx[1] == SC + 'child_index' and len(idx[2]) == 2 and bare(idx[2][1]) == bare(name):
        return True
    k = elem(idx)
    if k and k[0] == 'object_map' and k[2] == bare(name):
        return True
    k = elem(name)
    return bool(k and k[0] == 'object_order' and M.norm_idx(k[2]) == M.norm_idx(idx))


def count(s, which, S):
    d = 0
    for e in s.dom:
        if e[0] == {'children': 'cpush', 'object_order': 'opush', 'object_map': 'mnew'}[which] and e[1] == S:
            d += 1
        if e[0] == {'children': 'cer', 'object_order': 'oer', 'object_map': 'mer'}[which] and e[1] == S:
            d -= 1
    return d


def events(pr, f):
    V = ('u', 'void')

    def ev(ip, s, n, ref, obj, args, locs):
        q, m = ref['qn'], ref['name']
        if q.startswith(SC) and m in ACC and obj is not None:
            return [(s, ('call', SC + m, (bare(obj),), ()))]
        if q.startswith(SC) and obj is not None and bare(obj) == T:
            if m in ('init_object', 'init_list'):
                k = m[5:]
                s = s.withdom(frozenset(e for e in s.dom if e[0] not in ('ty', 'hier', 'dt')) | {('ty', k)})
                return [(s, V)]
            if m in ('reset', 'release'):
                s = s.withdom(frozenset(e for e in s.dom if e[0] not in ('ty', 'hier', 'dt')) | {('ty', 'empty')})
                return [(s, V)]
            if m == 'child_index':
                return [(s, ('call', q, (T, bare(args[0])), ()))]
            if m == 'number_of_children':
                return [(s, ('op', '+', N0, ('c', count(s, 'children', T))))]
        if q.startswith('conduit::DataType::') and m in ('operator=', 'set') and len(args) == 1 and bare(obj) == ('fld', T, 'm_dtype'):
            return [(s.withdom(s.dom | {('dt', bare(args[0]), n.line)}), V)]
        if q == 'conduit::DataType::set_id' and obj is not None and bare(obj) == ('fld', T, 'm_dtype'):
            return [(s.withdom(s.dom | {('dt', ('id', bare(args[0])), n.line)}), V)]
        if m in ('swap', 'iter_swap') and q.startswith('std::') and obj is None and len(args) == 2:
            for x, y in ((args[0], args[1]), (args[1], args[0])):
                k = elem(x)
                if k and k[0] == 'children' and last(y, k[1]):
                    return [(s.withdom(s.dom | {('moved', k[1], n.line)}), V)]
        a = acc(obj) if obj is not None and q.startswith('std::') else None
        if a:
            w, S = a
            if m == 'size':
                if S == T:
                    return [(s, ('op', '+', N0, ('c', count(s, w, S))))]
                return [(s, ('call', SC + 'count', (S,), ()))]
            if m in ('push_back', 'emplace_back'):
                return [(s.withdom(s.dom | {('cpush' if w == 'children' else 'opush', S, bare(args[0]), n.line)}), V)]
            if m == 'erase':
                if w == 'object_map':
                    x = bare(args[0])
                    if x[0] == 'call' and x[1].split('::')[-1] == 'find' and len(x[2]) == 2:
                        x = bare(x[2][1])
                    return [(s.withdom(s.dom | {('mer', S, x, n.line)}), V)]
                k = elem(('call', '<at>', (args[0],), ()))
                return [(s.withdom(s.dom | {('cer' if w == 'children' else 'oer', S, M.norm_idx(k[2]) if k else ('u', 'idx'), n.line)}), V)]
            if m in ('insert', 'emplace') and w == 'object_map':
                x = args
                if len(args) == 1:
                    c = bare(args[0])
                    x = c[2] if c[0] == 'call' and ('pair' in c[1]) else None
                s = s.withdom(s.dom | ({('mst', S, bare(x[0]), strip(x[1]), False, False, n.line)} if x and len(x) == 2 else {('odd', w)}))
                return [(s, V)]
            if m == 'operator=':
                b = acc(args[0])
                return [(s.withdom(s.dom | {('copy', w, S, b[1] if b else ('u', 'x'), n.line)}), V)]
            if m in ('clear', 'swap', 'resize', 'insert', 'emplace', 'pop_back', 'assign'):
                return [(s.withdom(s.dom | {('odd', w)}), V)]
        return None
    return ev


def schema(ck, pr):
    n = 0
    for f in sorted(pr.funcs.values(), key=lambda f: (f.file, f.line)):
        if not f.qn.startswith(SC) or f.body is None or f.qn.count('::') != 2 or f.flags.get('const') or f.flags.get('internal'):
            continue
        if f.qn not in KNOWN and f.flags.get('private') or f.name in ('init_defaults', 'children', 'object_map', 'object_order', 'object_hierarchy', 'list_hierarchy', '~Schema'):
            continue
        n += 1
        one(ck, pr, f)
    ck.count('schema operations', n)
    ck.floor('schema operations', n, 8)


def one(ck, pr, f):
    def inl(ref):
        if ref.get('ctor'):
            return False
        if ref['qn'] in (SC + 'dtype', 'conduit::DataType::id', 'conduit::DataType::is_object', 'conduit::DataType::is_list'):
            return True
        g = pr.funcs.get(ref['usr'])
        return g is not None and g.body is not None and g.qn not in KNOWN and g.qn.startswith('conduit::')
    dom = SS(inl, events=events(pr, f), pure=lambda r: r.get('const') or r['qn'].startswith(('std::vector', 'std::map')) or r['qn'] == SC + 'parent')
    dom.ctor = bool(f.flags.get('ctor')) or f.name == 'init_defaults'
    try:
        ps, ip = paths(pr, f, dom)
    except Exception as ex:
        ck.notes.append('%s: %s' % (f.qn, ex))
        return
    key = 'Schema::%s/%s' % (f.name, ','.join(x[2].replace('conduit::', '').replace('const ', '').strip() for x in f.params))[:100]
    why, n = set(), 0
    for p in ps:
        if p.kind != 'return':
            continue
        n += 1
        grow(ip, p, f, why)
        shrink(ip, p, f, why)
        hier(ip, p, f, why)
        if any(e[0] == 'lost' for e in p.ev):
            why.add('the hierarchy is replaced while it may hold children, which are lost')
        if any(e[0] == 'moved' for e in p.ev):
            why.add('the last child is moved to another position')
    if f.name == 'release':
        released(ip, ps, f, why)
    hard = {w for w in why if w[0] != '?'}
    for w in sorted(why - hard):
        ck.notes.append(key + ': ' + w)
    if hard:
        for w in sorted(hard):
            ck.bad(key + ':' + w[:50], f.file, f.line, '%s: %s' % (f.qn, w))
    elif n and not why:
        ck.ok(n, key)
        ck.count('schema paths', n)


def kind(p):
    for e in p.ev:
        if e[0] == 'ty':
            return e[1]
    mid = ('fld', ('fld', T, 'm_dtype'), 'm_id')
    for t, b in p.facts.items():
        if t[0] == 'op' and t[1] == '==' and b and strip(t[2]) == mid and val(t[3], {}) in (1, 2):
            return KIND[val(t[3], {})]
    return None


def grow(ip, p, f, why):
    cp = [e for e in p.ev if e[0] == 'cpush']
    op = [e for e in p.ev if e[0] == 'opush']
    ms = [e for e in p.ev if e[0] == 'mst']
    me = [e for e in p.ev if e[0] == 'mer']
    cpy = {e[1]: e[3] for e in p.ev if e[0] == 'copy'}
    if any(e[0] == 'odd' for e in p.ev):
        why.add('?bulk change of the child tables')
        return
    ty = kind(p)
    for e in cp:
        c = e[2]
        par = [x[2] for x in p.ev if x[0] == 'par' and x[1] == c]
        if not [x for x in p.ev if x[0] == 'new' and x[1] == c]:
            why.add('?the added child schema is not made here')
            continue
        if not par:
            why.add('the new child schema has no parent')
        elif any(y != e[1] for y in par):
            why.add('the new child schema gets another parent')
    if not (cp or op or cpy) and not (ms and not me and not [e for e in ms if shifts(e)]):
        return
    if cpy or cp and any(mentions(e[2], lambda x: x[0] == 'it') for e in cp):
        # copy of another schema
        if ty == 'object' and not ('object_order' in cpy and 'object_map' in cpy):
            if not (op or ms):
                why.add('the children are copied but not %s' % ' and '.join(x for x in ('object_order', 'object_map') if x not in cpy))
            else:
                why.add('?copy')
            return
        src = set(cpy.values())
        for e in cp:
            a = made_from(ip, p, e[2])
            if a is None:
                why.add('?copied child')
                continue
            src.add(a[1])
            w = covers(ip, p, a[2], lambda b: canon(b) == canon(('call', SC + 'count', (a[1],), ())))
            if descending(ip, a[2]):
                why.add('the children are copied in reverse order')
            elif w:
                why.add(w)
        if len({x for x in src if not unknown(x)}) > 1:
            why.add('children, order and map are copied from different schemas')
        return
    if len(cp) > 1 or len(op) > 1:
        why.add('?several children')
        return
    if ty == 'list':
        if op or ms:
            why.add('a list entry gets a name')
        return
    if ty is None:
        why.add('a child is added to a schema not known to be an object or a list')
        return
    if not cp:
        why.add('a name is recorded without a child schema')
        return
    if not op:
        why.add('the child is missing in object_order')
    if not ms:
        why.add('the child is missing in object_map')
    if op and ms:
        if bare(op[0][2]) != bare(ms[0][2]) and not unknown(('t', op[0][2], ms[0][2])):
            why.add('object_order and object_map record different names')
        v = lin(ms[0][3])
        if v != lin(N0) and not unknown(ms[0][3]):
            why.add('object_map records index %s for the child at the end' % show(canon(ms[0][3])))


def descending(ip, i):
    i = strip(i)
    its = []
    mentions(i, lambda x: its.append(x) if x[0] == 'it' else False)
    return any(lin(v) == lin(('op', '-', x, ('c', 1))) for x in its for v in ip.starts.get(x, ()))


def made_from(ip, p, c):
    """('children', S, i) for new Schema(*S.children()[i])"""
    n = [x for x in p.ev if x[0] == 'new' and x[1] == c]
    if not n:
        return None
    a = c
    if a[0] == 'new' or a[0] == 'call':
        for x in subterms(a):
            k = elem(x) if isinstance(x, tuple) and x and x[0] in ('idx', 'call') else None
            if k and k[0] == 'children':
                return k
    return None


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def shifts(e):
    """map[x] = map[x] - 1"""
    v = lin(e[3])
    return v.get((), 0) == -1 and len(v) == 2


def shrink(ip, p, f, why):
    cer = [e for e in p.ev if e[0] == 'cer']
    oer = [e for e in p.ev if e[0] == 'oer']
    mer = [e for e in p.ev if e[0] == 'mer']
    de = [e for e in p.ev if e[0] == 'del']
    ost = [e for e in p.ev if e[0] == 'ost']
    ms = [e for e in p.ev if e[0] == 'mst']
    if any(e[0] == 'odd' for e in p.ev) or not (cer or oer or mer or ost):
        return
    if ost and not cer and not oer:
        # rename
        new = [e for e in ms if bare(e[2]) == ost[0][3]]
        if not mer:
            why.add('the old name stays in object_map')
        elif not same_child(mer[0][2], ost[0][2]) and not unknown(('t', mer[0][2], ost[0][2])):
            why.add('?old name and renamed entry')
        if not new:
            why.add('the new name is missing in object_map' if not ms else 'object_map and object_order get different names')
        elif M.norm_idx(canon(new[0][3])) != M.norm_idx(ost[0][2]) and not (elem(new[0][3]) and elem(ost[0][2]) and elem(new[0][3]) == elem(ost[0][2])):
            why.add('?index of the renamed entry') if unknown(new[0][3]) else why.add('object_map maps the new name to another index than object_order')
        return
    if mer and ms and not cer and not oer:
        why.add('a child is renamed in object_map but not in object_order')
        return
    if not cer:
        why.add('the child schema stays in the list of children')
        return
    ix = cer[0][2]
    dx = [e for e in p.ev if e[0] == 'delx']
    if not de and not dx:
        why.add('the removed child schema is not deleted')
    elif de and M.norm_idx(de[0][2]) != M.norm_idx(ix) and not unknown(('t', de[0][2], ix)):
        why.add('another child schema is deleted than removed')
    ty = kind(p)
    no = any(t[0] == 'op' and t[1] == '==' and not b and val(t[3], {}) == 1 and strip(t[2]) == ('fld', ('fld', T, 'm_dtype'), 'm_id') for t, b in p.facts.items())
    if ty == 'list' or no:
        if oer or mer:
            why.add('names are removed from a list')
        return
    if not oer:
        why.add('the name stays in object_order')
    elif M.norm_idx(oer[0][2]) != M.norm_idx(ix) and not unknown(('t', oer[0][2], ix)):
        why.add('another name than the child\'s is removed from object_order')
    if not mer:
        why.add('the name stays in object_map')
    elif not same_child(mer[0][2], ix):
        why.add('?name removed from object_map') if unknown(mer[0][2]) else why.add('another name than the child\'s is removed from object_map')
    sh = [e for e in ms if shifts(e)]
    if not sh:
        if ms:
            why.add('?indices in object_map')
        else:
            # the path on which the loop is skipped: nothing after idx
            it = [t for t, b in p.facts.items() if t[0] == 'op' and t[1] == '<' and not b]
            if not it:
                why.add('the indices of the later children are not shifted in object_map')
    for e in sh:
        k = elem(e[2])
        if k is None or k[0] != 'object_order':
            why.add('?shifted name')
            continue
        v = lin(e[3])
        x = [q for q in v if q != ()]
        kk = elem(x[0][0]) if len(x[0]) == 1 else None
        if kk and kk[0] == 'object_map' and bare(kk[2]) != bare(e[2]):
            why.add('a later child gets the index of another child')
        cnt = lambda b: canon(b) in (canon(N0), canon(('op', '-', N0, ('c', 1))))
        w1 = covers(ip, p, k[2], cnt, lo=ix)
        w2 = covers(ip, p, k[2], cnt, lo=canon(('op', '+', ix, ('c', 1))))
        if w1 and w2:
            why.add(('?' if w1[0] == '?' or w2[0] == '?' else '') + 'not exactly the children after the removed one are shifted in object_map: ' + w2)
            continue
        if not w1 and e[5] and not e[4]:
            why.add('the shift re-inserts the removed name into object_map')
        if w1 and e[4]:
            why.add('the child right after the removed one is not shifted in object_map')


def hier(ip, p, f, why):
    """the hierarchy matches the dtype"""
    dts = [e for e in p.ev if e[0] == 'dt']
    hs = [e for e in p.ev if e[0] == 'hier']
    ty = next((e[1] for e in p.ev if e[0] == 'ty'), None)
    h = None
    for e in hs:
        if val(e[1], {}) == 0 and e[1][0] == 'c':
            h = 'none'
        else:
            nw = [x for x in p.ev if x[0] == 'new' and x[1] == e[1]]
            h = nw[0][2] if nw else '?'
    if h is None and ty is not None:
        h = {'object': 'Schema_Object_Hierarchy', 'list': 'Schema_List_Hierarchy', 'empty': 'none'}[ty]
    for e in dts:
        d = e[1]
        k = None
        if d[0] == 'id':
            idt = strip(d[1])
            k = KIND.get(val(idt, {})) if val(idt, {}) is not None else None
        else:
            k = M.kindof([d])
            idt = ('fld', d, 'm_id')
        if k is None:
            # what the facts say about the id
            eq = [val(t[3], {}) for t, b in p.facts.items() if t[0] == 'op' and t[1] == '==' and b and is_id(t[2], idt)]
            ne = {val(t[3], {}) for t, b in p.facts.items() if t[0] == 'op' and t[1] == '==' and not b and is_id(t[2], idt)}
            if eq and eq[0] is not None:
                k = KIND.get(eq[0])
            elif {1, 2} <= ne:
                k = 'leaf'
            elif unknown(idt):
                why.add('?dtype')
                continue
            else:
                why.add('the dtype may become an object or a list without the hierarchy for its children')
                continue
        want = {'object': 'Schema_Object_Hierarchy', 'list': 'Schema_List_Hierarchy'}.get(k, 'none')
        if h is None and want == 'none':
            why.add('the dtype is replaced by a leaf type but a hierarchy may remain')
        elif h != want and h not in ('?',):
            why.add('the dtype becomes %s but the hierarchy is %s' % (k, h or 'unchanged'))
    if hs and not dts and h not in ('none', '?', None) and f.name != 'init_defaults':
        why.add('a hierarchy is set without the dtype')


def is_id(t, idt):
    t = strip(t)
    return t == idt or t[0] == 'call' and t[1] == 'conduit::DataType::id' and idt[0] == 'fld' and bare(t[2][0]) == bare(idt[1])


def released(ip, ps, f, why):
    seen = False
    for p in ps:
        if p.kind != 'return':
            continue
        de = [e for e in p.ev if e[0] == 'del']
        if de:
            seen = True
            w = covers(ip, p, de[0][2], lambda b: canon(b) == canon(N0))
            if w:
                why.add(w)
        if not [e for e in p.ev if e[0] == 'hier']:
            why.add('the hierarchy pointer remains')
    if not seen:
        why.add('?deletion of the children')
