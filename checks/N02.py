"""N02: lookups by index, name and path: bounds checked first, paths make progress, '..' is the parent, self-copies are harmless."""
from common import Check
import prog as P
from summ import *
from loopcov import bare
import N01

SC = 'conduit::Schema::'
ND = 'conduit::Node::'
T = ('this',)
VEC = ('std::vector<conduit::Node *', 'std::vector<conduit::Schema *')
UNS = ('unsigned long', 'size_t', 'unsigned int', 'uint64')


def run(tier):
    ck = Check('N02', 'other', 'guard analysis of every child access (index known to be inside on every path to it), progress of path recursion, parent steps, self-copy', tier)
    pr = P.load(lambda r: r in ('conduit/conduit_node.cpp', 'conduit/conduit_schema.cpp', 'conduit/conduit_data_type.cpp'))
    n = 0
    for f in sorted(pr.funcs.values(), key=lambda f: (f.file, f.line)):
        if f.body is None or not f.qn.startswith((ND, SC)) or f.qn.count('::') != 2 or f.flags.get('internal'):
            continue
        if f.qn not in KNOWN and f.flags.get('private'):
            continue
        if accesses(f):
            n += 1
            guard(ck, pr, f)
    ck.count('functions', n)
    ck.floor('functions', n, 8)
    child_index(ck, pr)
    progress(ck, pr)
    selfcopy(ck, pr)
    iterators(ck)
    return ck


def accesses(f):
    return any(x.k in ('OpCall', 'MCall') and x.d[0] is not None and x.d[0]['qn'].startswith(VEC) and x.d[0]['name'] in ('operator[]', 'at', 'back', 'front') for x in f.body.walk())


def holder(c):
    """the node or schema whose children vector this is"""
    c = bare(c)
    if c[0] == 'fld' and c[2] in ('m_children', 'children'):
        b = bare(c[1])
        if b[0] == 'call' and b[1].endswith('_hierarchy') and b[2]:
            return bare(b[2][0])
        return b
    if c[0] == 'call' and c[1] == SC + 'children' and c[2]:
        return bare(c[2][0])
    return None


def tree(h):
    """node and its schema count as the same tree (N01)"""
    h = bare(h)
    if h[0] == 'fld' and h[2] == 'm_schema':
        return bare(h[1])
    if h[0] == 'call' and h[1] in (ND + 'schema', ND + 'schema_ptr') and h[2]:
        return bare(h[2][0])
    return h


def countof(b):
    b = strip(b)
    if b[0] == 'call' and b[1].split('::')[-1] in ('size', 'number_of_children') and b[2]:
        h = holder(b[2][0]) if b[1].split('::')[-1] == 'size' else bare(b[2][0])
        if h is None:
            o = bare(b[2][0])
            if o[0] == 'call' and o[1] in (SC + 'object_order', ND + 'child_names', SC + 'child_names') and o[2]:
                h = bare(o[2][0])
        return tree(h) if h is not None else None
    return None


def guarded(ip, s, t, H, raw):
    """None: index in range; '?': not resolved; else why not"""
    H = tree(H)
    t = strip(t)
    if t[0] == 'call' and t[1] in (SC + 'child_index', ND + 'child_index') and t[2]:
        if len(t[2]) == 2 and tree(t[2][0]) == H:
            return None
        return '?index of another schema'
    k = lin(t)
    # size - 1 after a push
    for x, c in k.items():
        if len(x) == 1 and c == 1 and countof(x[0]) == H and k.get((), 0) < 0 and len(k) == 2 or len(k) == 1 and len(x) == 1 and countof(x[0]) == H and False:
            return None if any(e[0] == 'push' and tree(e[1]) == H for e in s.dom) else '?last child'
    lowok = val(t, {}) is not None and val(t, {}) >= 0
    lowok = lowok or ('uns', t) in s.dom
    up = None
    other = False
    for f, b in s.facts.items():
        if f[0] != 'op':
            continue
        A, B = f[2], f[3]
        if f[1] == '<':
            if strip(A) == t and countof(B) == H and b:
                up = True
            elif strip(A) == t and b:
                if atmost(s, B, H):
                    up = True
                else:
                    other = other or ('u' if unknown(strip(B)) else 'k')
            if strip(A) == t and val(B, {}) == 0 and not b:
                lowok = True
        elif f[1] == '<=':
            if strip(B) == t and countof(A) == H and not b:
                up = True
            if val(A, {}) == 0 and strip(B) == t and b:
                lowok = True
    if t[0] == 'it':
        st = ip.starts.get(t, ())
        if not st:
            return '?loop'
        lowok = all(nonneg(v, t) for v in st)
    if raw:
        lowok = True       # the index is unsigned already
    if up and lowok:
        return None
    if up:
        return 'a negative index is not excluded'
    if other == 'u' or other and not isinstance(countof_any(s, t), tuple):
        return '?bound'
    if other:
        return 'its bound is the number of children of another node'
    if unknown(t):
        return '?index'
    return 'unchecked'


def atmost(s, B, H):
    """the facts say B <= number of children of H"""
    B = strip(B)
    for f, b in s.facts.items():
        if f[0] == 'op' and f[1] == '<' and not b and countof(f[2]) == H and strip(f[3]) == B:
            return True
        if f[0] == 'op' and f[1] == '==' and b and (countof(f[2]) == H and strip(f[3]) == B or countof(f[3]) == H and strip(f[2]) == B):
            return True
    return False


def countof_any(s, t):
    """the node whose child count bounds t"""
    for f, b in s.facts.items():
        if f[0] == 'op' and f[1] == '<' and b and strip(f[2]) == t:
            h = countof(f[3])
            if h is not None:
                return h
    return None


def nonneg(v, t):
    v = strip(v)
    x = val(v, {})
    if x is not None:
        return x >= 0
    return mentions(v, lambda y: y == t) or True


class GD(N01.NS):
    def on_cmp(self, s, v):
        """remember which terms were compared as unsigned"""
        if v[1] in ('<', '<=', '>', '>='):
            for x in (v[2], v[3]):
                if x[0] == 'cast' and x[1].replace('const ', '') in UNS:
                    s = s.withdom(s.dom | {('uns', strip(x))})
        return s


def guard(ck, pr, f):
    def ev(ip, s, n, ref, obj, args, locs):
        q, m = ref['qn'], ref['name']
        if q.startswith(VEC):
            H = holder(obj) if obj is not None else None
            if H is None:
                return None
            if m in ('operator[]', 'at') and args:
                if m == 'operator[]':
                    ty = n.c[1].ty if n.k == 'OpCall' and len(n.c) > 1 else ''
                    why = guarded(ip, s, args[0], H, unsigned(n, args[0], s))
                    s = s.withdom(s.dom | {('acc', why, n.line, show(strip(args[0]))[:60])})
                return [(s, ('call', q, (strip(obj), args[0]), ()))]
            if m in ('push_back', 'emplace_back'):
                return [(s.withdom(s.dom | {('push', H)}), ('u', 'void'))]
            if m == 'size':
                return [(s, ('call', q, (strip(obj),), ()))]
            if m == 'begin':
                return [(s, ('call', q, (strip(obj),), ()))]
        if q == SC + 'children' and obj is not None:
            return [(s, ('call', q, (bare(obj),), ()))]
        if q in (SC + 'child_index', ND + 'child_index') and obj is not None and args:
            return [(s, ('call', q, (bare(obj), bare(args[0])), ()))]
        if q in (SC + 'number_of_children', ND + 'number_of_children') and obj is not None:
            return [(s, ('call', q, (bare(obj),), ()))]
        return None
    dom = GD(inliner(pr, (ND + 'dtype', SC + 'dtype', ND + 'schema_ptr', ND + 'schema')), events=ev, pure=lambda r: r.get('const') or r['qn'].startswith('std::vector'))
    try:
        ps, ip = paths(pr, f, dom)
    except Exception as ex:
        ck.notes.append('%s: %s' % (f.qn, ex))
        return
    acc = {e[1:] for p in ps for e in p.ev if e[0] == 'acc'}
    key = '%s/%s' % (f.qn.replace('conduit::', ''), ','.join(x[2].replace('conduit::', '').replace('const ', '').strip()[:24] for x in f.params))
    for why, line, idx in sorted(acc, key=repr):
        if why is None:
            ck.ok(1, '%s [%s]' % (key, idx))
        elif why[0] == '?':
            ck.notes.append('%s:%s [%s]: %s' % (key, line, idx, why))
        else:
            ck.bad('%s:%s' % (key, idx), f.file, line, '%s: child [%s] is accessed %s' % (f.qn, idx, 'although ' + why if why != 'unchecked' else 'before the index is checked against the number of children'))


def unsigned(n, a, s):
    """the index variable itself has an unsigned type"""
    x = n.c[1] if n.k == 'OpCall' and len(n.c) > 1 else n.c[-1] if n.c else None
    while x is not None and x.k in ('Cast', 'ImplicitCast', 'Paren') and x.c:
        x = x.c[0]
    return x is not None and x.ty.replace('const ', '') in UNS


def child_index(ck, pr):
    """by-name lookups report a missing name as an error"""
    for f in [f for f in pr.funcs.values() if f.qn == SC + 'child_index' and f.body is not None and 'basic_string' in f.params[0][2]]:
        def ev(ip, s, n, ref, obj, args, locs):
            if ref['name'] == 'find' and ref['qn'].startswith('std::map'):
                return [(s, ('call', 'find', (bare(args[0]),), ()))]
            if ref['name'] in ('end', 'cend') and ref['qn'].startswith('std::map'):
                return [(s, ('call', 'mapend', (), ()))]
            return None
        ps, ip = paths(pr, f, N01.NS(inliner(pr, ()), events=ev, pure=lambda r: True))
        why, n = None, 0
        nm = ('p', f.params[0][0], 0)
        for p in ps:
            if p.kind != 'return':
                continue
            n += 1
            known = any(t[0] == 'op' and t[1] == '==' and not b and {('call', 'find', (nm,), ()), ('call', 'mapend', (), ())} <= {strip(t[2]), strip(t[3])} for t, b in p.facts.items())
            has = any(t[0] == 'call' and t[1] == SC + 'has_child' and b for t, b in p.facts.items())
            v = p.val
            if not known and not has:
                why = why or ('a name that is not there does not lead to an error' if not mentions(v or ('c', 0), lambda x: x[0] == 'call' and x[1].split('::')[-1] == 'at') else None)
            elif known and v is not None and not mentions(v, lambda x: x == ('call', 'find', (nm,), ())) and not mentions(v, lambda x: x[0] == 'call' and x[1].split('::')[-1] in ('operator[]', 'at')):
                why = why or ('?' if unknown(v) else 'the result is not the recorded index')
        fin(ck, f, 'child_index', why if n else '?no path')


def fin(ck, f, key, why):
    if why is None:
        ck.ok(1, key)
    elif why[0] == '?':
        ck.notes.append(key + ': ' + why)
    else:
        ck.bad(key, f.file, f.line, '%s: %s' % (f.qn, why))


def progress(ck, pr):
    n = 0
    for f in sorted(pr.funcs.values(), key=lambda f: (f.file, f.line)):
        if f.body is None or not f.qn.startswith((ND, SC)) or f.qn.count('::') != 2 or f.name not in ('fetch', 'fetch_existing', 'has_path', 'remove') or not f.params or 'basic_string' not in f.params[0][2]:
            continue
        path = ('p', f.params[0][0], 0)

        def ev(ip, s, n, ref, obj, args, locs, f=f, path=path):
            q, m = ref['qn'], ref['name']
            if m == 'split_path':
                ls = (locs or (None, []))[1]
                whole = bare(args[0])
                s2 = s
                for i, w in ((1, 'curr'), (2, 'next')):
                    if i < len(ls) and ls[i] is not None:
                        s2 = s2.set(ls[i], ('call', w, (whole,), ()))
                return [(s2, ('u', 'void'))]
            if q == f.qn and obj is not None and args and 'basic_string' in (n.c[1].ty if n.k == 'MCall' and len(n.c) > 1 and n.c[1] is not None else ''):
                return [(s.withdom(s.dom | {('rec', bare(obj), bare(args[0]), empt(s, path), n.line)}), ('call', q, (bare(obj), bare(args[0])), ()))]
            if q in (SC + 'child_index', ND + 'child', SC + 'child') and any(e[0] == 'x' for e in ()):
                return None
            if q == SC + 'child_index' and obj is not None:
                s = s.withdom(s.dom | {('look', bare(args[0]), n.line)})
                return [(s, ('call', q, (bare(obj), bare(args[0])), ()))]
            return None
        dom = N01.NS(inliner(pr, ()), events=ev, pure=lambda r: r.get('const') or r['qn'].startswith(('std::vector', 'std::basic_string')) or r['qn'] in (SC + 'parent', ND + 'parent'))
        try:
            ps, ip = paths(pr, f, dom)
        except Exception as ex:
            ck.notes.append('%s: %s' % (f.qn, ex))
            continue
        n += 1
        why = None
        up = False
        for p in ps:
            for e in [e for e in p.ev if e[0] == 'rec']:
                o, a, ne = e[1:4]
                if o != T:
                    continue
                if a[0] == 'call' and a[1] == 'next':
                    if not ne:
                        why = why or 'an empty path leads to a call with the same empty path: the lookup never ends'
                elif a == path:
                    why = why or 'the lookup calls itself with the same path'
                else:
                    why = why or '?recursion on %s' % show(a)[:60]
            dd = [t for t, b in p.facts.items() if t[0] == 'op' and t[1] == '==' and b and ('c', '..') in (strip(t[2]), strip(t[3])) and any(strip(x)[0] == 'call' and strip(x)[1] == 'curr' for x in (t[2], t[3]))]
            if dd and f.name in ('fetch', 'fetch_existing'):
                up = True
                par = any(mentions(t, lambda x: x == ('fld', T, 'm_parent')) and ((t[0] == 'op' and not b) or (t[0] == 'fld' and b)) for t, b in p.facts.items())
                if par:
                    if not any(e[0] == 'rec' and mentions(e[1], lambda x: x == ('fld', T, 'm_parent')) and e[2][:2] == ('call', 'next') for e in p.ev):
                        why = why or '".." does not continue at the parent'
                    if any(e[0] == 'look' and e[1][:2] == ('call', 'curr') for e in p.ev):
                        why = why or '".." is looked up as the name of a child first'
        fin(ck, f, '%s:path/%s' % (f.qn.replace('conduit::', ''), 'const' if f.flags.get('const') else ''), why)
        if f.name in ('fetch', 'fetch_existing') and not up and why is None and any(e[0] == 'rec' for p in ps for e in p.ev):
            ck.notes.append('%s: no parent step seen' % f.qn)
    ck.count('path functions', n)
    ck.floor('path functions', n, 4)


def empt(s, path):
    """path known to be non-empty"""
    for t, b in s.facts.items():
        if t[0] == 'call' and t[1].split('::')[-1] == 'empty' and t[2] and bare(t[2][0]) == path and not b:
            return True
        if t[0] == 'op' and t[1] == '==' and not b:
            x, y = strip(t[2]), strip(t[3])
            if path in (x, y) and ('c', '') in (x, y):
                return True
            for u, v in ((x, y), (y, x)):
                if u[0] == 'call' and u[1].split('::')[-1] in ('size', 'length') and u[2] and bare(u[2][0]) == path and val(v, {}) == 0:
                    return True
        if t[0] == 'op' and t[1] == '<' and b and val(t[2], {}) == 0:
            u = strip(t[3])
            if u[0] == 'call' and u[1].split('::')[-1] in ('size', 'length') and bare(u[2][0]) == path:
                return True
    return False


def selfcopy(ck, pr):
    """copying a node to itself changes nothing"""
    for q in (ND + 'set_node', ND + 'operator=', SC + 'set', SC + 'operator='):
        for f in [f for f in pr.funcs.values() if f.qn == q and f.body is not None and len(f.params) == 1 and f.params[0][2].replace('const ', '').strip() in ('conduit::Node &', 'conduit::Schema &')]:
            A = ('p', f.params[0][0], 0)

            def ev(ip, s, n, ref, obj, args, locs):
                if obj is not None and bare(obj) == T and not ref.get('const') and ref['qn'].startswith((ND, SC)):
                    if ref['name'] in ('set', 'set_node') and ref['qn'].startswith(ND) and args and bare(args[0]) == A:
                        return [(s.withdom(s.dom | {('to', ref['name'])}), ('u', 'void'))]
                    return [(s.withdom(s.dom | {('mod', ref['name'], n.line)}), ('u', 'void'))]
                return None
            ps, ip = paths(pr, f, N01.NS(inliner(pr, (), skip=(ND + 'set', ND + 'set_node')), events=ev, pure=lambda r: r.get('const')))
            why = None
            for p in ps:
                if p.kind != 'return':
                    continue
                differ = any(t[0] == 'op' and t[1] == '==' and not b and {bare(t[2]), bare(t[3])} == {T, A} for t, b in p.facts.items())
                m = [e for e in p.ev if e[0] in ('mod',)]
                if m and not differ:
                    why = why or 'copying it to itself runs %s before the contents are copied' % sorted(m)[0][1]
            fin(ck, f, '%s:self' % q.replace('conduit::', ''), why)


def iterators(ck):
    """an iterator over children visits them one by one, in order"""
    pr = P.load(lambda r: r in ('conduit/conduit_node_iterator.cpp',))
    n = 0
    I, C = ('fld', T, 'm_index'), ('fld', T, 'm_num_children')

    def plus(k):
        return lin(('op', '+', I, ('c', k)))
    # method: (precondition, change of the index, child returned)
    spec = {'next': ('next', 1, 0), 'peek_next': ('next', 0, 0), 'previous': ('prev', -1, -2), 'node': (None, 0, -1), 'index': (None, 0, 'i'),
            'to_front': (None, ('c', 0), None), 'to_back': (None, C, None), 'has_next': (None, 0, 'hn')}
    for cls in ('NodeIterator', 'NodeConstIterator'):
        q = 'conduit::%s::' % cls
        for f in sorted([f for f in pr.funcs.values() if f.qn.startswith(q) and f.body is not None and f.qn.count('::') == 2 and f.name in spec], key=lambda f: f.line):
            pre, dx, ret = spec[f.name]

            def ev(ip, s, nn, ref, obj, args, locs):
                if ref['qn'] in (ND + 'child', ND + 'child_ptr', ND + 'operator[]') and args:
                    return [(s, ('call', ND + 'child', (bare(obj), strip(args[0])), ()))]
                return None
            ps, ip = paths(pr, f, Sum(inliner(pr, (q + 'has_next', q + 'has_previous')), events=ev, pure=lambda r: r.get('const')))
            why = None
            k = 0
            for p in ps:
                if p.kind != 'return':
                    continue
                k += 1
                new = p.env.get(('*', I), I)
                # index change
                want = dx if isinstance(dx, tuple) else None
                if want is not None:
                    if lin(new) != lin(want):
                        why = why or ('?' if unknown(new) else 'the position becomes %s' % show(canon(new)))
                elif lin(new) != plus(dx):
                    why = why or ('?' if unknown(new) else 'the position becomes %s' % show(canon(new)))
                v = bare(p.val) if isinstance(p.val, tuple) else None
                if isinstance(ret, int) and v is not None:
                    if v[0] == 'call' and v[1] == ND + 'child':
                        if lin(v[2][1]) != plus(ret):
                            why = why or ('?' if unknown(v[2][1]) else 'the child returned is %s' % show(canon(v[2][1])))
                    else:
                        why = why or '?result'
                elif ret == 'i':
                    if lin(p.val) != plus(-1):
                        why = why or ('?' if unknown(p.val) else 'the index returned is %s' % show(canon(p.val)))
                if pre == 'next':
                    if p.facts.get(('op', '<', I, C)) is not True:
                        why = why or 'it steps although there may be no next child'
                if pre == 'prev' and not any(t[0] == 'op' and t[1] == '<' and (val(t[2], {}) == 1 and strip(t[3]) == I and b or strip(t[2]) == I and val(t[3], {}) == 2 and not b) for t, b in p.facts.items()):
                    why = why or '?previous'
                if ret == 'hn':
                    w = p.val == ('c', True) or p.val is True
                    lt = p.facts.get(('op', '<', I, C))
                    if p.val[0] != 'c':
                        if strip(p.val) != ('op', '<', I, C):
                            why = why or '?result %s' % show(p.val)
                    elif w and lt is not True:
                        why = why or 'true although there may be no next child'
                    elif not w and lt is True:
                        why = why or 'false although there is a next child'
            n += 1
            fin(ck, f, '%s::%s' % (cls, f.name), why if k else '?no path')
    ck.count('iterator methods', n)
