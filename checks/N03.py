"""N03: names, positions and paths resolve to exactly the child they denote; iterators step exactly."""
from common import Check
import prog as P
from cases import *
from loopcov import covers

SC = 'conduit::Schema::'
ND = 'conduit::Node::'
DT = 'conduit::DataType::'
T = ('this',)
KINDS = ('object', 'list', 'int32', 'empty')
BYNAME = {'is_object': ('object',), 'is_list': ('list',), 'is_empty': ('empty',)}


def kind(a, X):
    return ask(a, ('kind', X), KINDS)


def nch(a, X):
    if kind(a, X) not in ('object', 'list'):
        return 0
    return ask(a, ('n', X), (0, 1, 2, 3))


def has(a, X, s):
    if kind(a, X) != 'object' or nch(a, X) == 0 or a.get(('..', s)):
        return False
    return ask(a, ('has', X, s), (True, False))


def pos(a, X, s):
    n = nch(a, X)
    p = ask(a, ('pos', X, s), tuple(range(n)))
    for k, v in a.items():
        # two different names are at different positions
        if k[0] == 'pos' and k[1] == X and k[2] != s and v == p and a.get(('has',) + k[1:]) and not same(a, k[2], s):
            raise Need(('infeasible',), ())
    return p


def same(a, s, t):
    return s == t or ask(a, ('same',) + tuple(sorted((s, t), key=repr)), (False,))


def parent(a, X):
    return ask(a, ('parent', X), (('P', X), None))


def empty(a, s):
    if isinstance(s, str):
        return s == ''
    if isinstance(s, tuple) and s[0] in ('curr', 'next') and ('..', s) in a and a[('..', s)]:
        return False
    if isinstance(s, tuple) and s[0] in ('curr', 'next'):
        if ('empty', s[1]) in a and a[('empty', s[1])]:
            return True
    return ask(a, ('empty', s), (True, False))


def streq(a, x, y):
    if isinstance(x, str) and isinstance(y, str):
        return x == y
    if isinstance(x, str):
        x, y = y, x
    if y == '':
        return empty(a, x)
    if isinstance(y, str):
        if empty(a, x):
            return False
        return ask(a, (y, x), (True, False))
    if x == y:
        return True
    raise Unk(('c', 'string comparison'))


IDS = {v: k for k, v in KIND.items()}


def base(qn):
    return qn.rsplit('::', 1)[-1]


def atom(t, a, rec):
    k = t[0]
    if k == 'this':
        return 'this'
    if k == 'p':
        if t[1] in a.get('ints', ()):
            return ask(a, ('i', t[1]), (-1, 0, 1, 2, 3))
        return ('p', t[1])
    if k == 'fld':
        X = rec(t[1])
        f = t[2]
        if f in ('m_schema',):
            return X
        if f == 'm_dtype':
            return ('dt', X)
        if f == 'm_parent':
            return parent(a, X)
        if f == 'm_hierarchy_data':
            return ('h', X)
        if f in ('m_children', 'children'):
            return ('kids', X[1] if X[0] == 'h' else X)
        if f == 'object_map':
            return ('map', X[1])
        if f == 'object_order':
            return ('order', X[1])
        if f in ('second', 'first') and isinstance(X, tuple) and X[0] == 'mit':
            return pos(a, X[1], X[2]) if f == 'second' else X[2]
        if f == 'second' and isinstance(X, tuple) and X[0] == 'ins':
            return X[1]
        if f == 'm_node':
            return node_of(a, X)
        if f == 'm_index':
            return ask(a, ('index', X), (0, 1, 2, 3))
        if f == 'm_num_children':
            return nch(a, node_of(a, X))
        return ('fld', X, f)
    if k == 'glob':
        return ('glob', t[1])
    if k == 'at':
        return rec(t[1])
    if k == 'it':
        # a loop variable: some position; one that keeps where `this` was found is that position
        if ('pos', t[3]) in a.get('ev', ()):
            return mypos(a)
        return ask(a, ('it', t), (0, 1, 2, 3))
    if k == 'call':
        q, m = t[1], base(t[1])
        av = t[2]
        if m in ('curr', 'next') and q == m:
            s = rec(av[0])
            if s == '':
                return ''
            if isinstance(s, str):
                raise Unk(t)
            if s[0] == 'curr':
                return s if m == 'curr' else ''      # no separator left in it
            return (m, s)
        if m in ('schema', 'schema_ptr') and len(av) == 1:
            return rec(av[0])
        if m == 'dtype':
            return ('dt', rec(av[0]))
        if q == DT + 'id':
            X = rec(av[0])
            return IDS[kind(a, X[1])]
        if q.startswith(DT + 'is_') and m[3:] in ('object', 'list', 'empty'):
            X = rec(av[0])
            return kind(a, X[1]) == m[3:]
        if m == 'parent' or m == 'parent_ptr':
            return parent(a, rec(av[0]))
        if m == 'number_of_children':
            return nch(a, rec(av[0]))
        if m in ('size', 'length') and len(av) == 1:
            X = rec(av[0])
            if isinstance(X, tuple) and X[0] in ('kids', 'order', 'map'):
                return nch(a, X[1])
            if isinstance(X, str):
                return len(X)
            return strlen(a, X)
        if m == 'empty' and len(av) == 1:
            X = rec(av[0])
            if isinstance(X, tuple) and X[0] in ('kids', 'order', 'map'):
                return nch(a, X[1]) == 0
            return empty(a, X)
        if m in ('operator[]', 'at') and len(av) in (2, 3):
            X, i = rec(av[0]), rec(av[1])
            if isinstance(X, tuple) and X[0] in ('kids', 'order'):
                if len(av) == 3 and isint(i) and nch(a, X[1]) <= i < nch(a, X[1]) + val(av[2], {}):
                    return 'added'
                if kind(a, X[1]) not in ('object', 'list') or X[0] == 'order' and kind(a, X[1]) != 'object':
                    return ('outside',)
                if not isint(i):
                    raise Unk(t)
                if 0 <= i < nch(a, X[1]):
                    return ('child' if X[0] == 'kids' else 'name', X[1], i)
                return ('outside',)
            if isinstance(X, tuple) and X[0] == 'map':
                if has(a, X[1], i):
                    return pos(a, X[1], i)
                return ('outside',)
            if isint(i) and i >= 0 and m == 'operator[]' and not isinstance(X, str) and X[0] == 'path':
                return ask(a, ('char', X, i), (93, 120)) if i < strlen(a, X) else 0
            if isint(i) and i > 0 and m == 'operator[]' and not isinstance(X, str) and X[0] in ('p', 'curr', 'next'):
                if strlen(a, X) <= i:
                    return 0
                return ask(a, ('char', X, i), (47, 120))
            if i == 0 and m == 'operator[]':
                if empty(a, X):
                    return 0
                if X[0] == 'curr':
                    return 120
                return 47 if ask(a, ('lead', X), (True, False)) else 120
            raise Unk(t)
        if m == 'insit':
            return ('ins', rec(av[0]))
        if m == '<at>':
            return rec(av[0])
        if m in ('find', 'count') and len(av) in (2, 3):
            X = rec(av[0])
            if isinstance(X, tuple) and X[0] == 'map':
                s = rec(av[1])
                if m == 'count':
                    return int(has(a, X[1], s))
                return ('mit', X[1], s) if has(a, X[1], s) else ('mend', X[1])
            if m == 'find' and rec(av[1]) in ('/', 47):
                if isinstance(X, str):
                    return X.find('/') % (1 << 64)
                return ask(a, ('slash', X), ((1 << 64) - 1, 1))
        if m in ('begin', 'cbegin') and len(av) >= 1:
            return ('at', rec(av[0]), 0)
        if m in ('operator+', 'operator-') and len(av) == 2:
            X, i = rec(av[0]), rec(av[1])
            if isinstance(X, tuple) and X[0] == 'at' and isint(i):
                return ('at', X[1], X[2] + (i if m == 'operator+' else -i))
        if m in ('end', 'cend') and len(av) == 1:
            X = rec(av[0])
            return ('mend', X[1])
        if m == 'at' and len(av) == 1 or m in ('operator*', 'operator->') and len(av) == 1:
            return rec(av[0])
        if m == 'substr':
            X = rec(av[0])
            i = rec(av[1]) if len(av) > 1 else 0
            n = strlen(a, X)
            cnt = rec(av[2]) if len(av) > 2 and av[2][0] != 'u' else n
            if isint(i) and isint(cnt):
                if i == 0 and cnt >= n:
                    return X
                if i == 1 and cnt >= n - 1:
                    return ('tail', X)
                return ('part', X, i, cnt)
        if m == 'has_path':
            return hpath(a, rec(av[0]), rec(av[1]))
        if m == 'has_child':
            return has(a, rec(av[0]), rec(av[1]))
        if m == 'child_index' and len(av) == 2:
            X, s = rec(av[0]), rec(av[1])
            if not has(a, X, s):
                raise Err()
            return pos(a, X, s)
        if m in ('fetch_existing', 'fetch', 'fetch_ptr', 'remove') and len(av) == 2:
            return ('walk', rec(av[0]), rec(av[1]))
        if m in ('child', 'child_ptr') and len(av) == 2:
            X, i = rec(av[0]), rec(av[1])
            if isint(i):
                if 0 <= i < nch(a, X):
                    return ('child', X, i)
                return ('outside',)
            if has(a, X, i):
                return ('child', X, pos(a, X, i))
            raise Err()
        if m == 'child_name' and len(av) == 2:
            X, i = rec(av[0]), rec(av[1])
            if kind(a, X) == 'object' and 0 <= i < nch(a, X):
                return ('name', X, i)
            return ''
        if m in ('name', 'path') and len(av) == 1:
            return (m, rec(av[0]))
        if m == 'child_names' and len(av) == 1:
            X = rec(av[0])
            return ('order', X) if kind(a, X) == 'object' else ('glob', SC + 'm_empty_child_names')
        if m in ('object_order',) and len(av) == 1:
            return ('order', rec(av[0]))
        if m == 'str' and q == 'str':
            return cat([rec(x) for x in av])
        if m in ('basic_string', 'operator basic_string') and len(av) <= 2:
            return rec(av[0]) if av else ''
        if m in ('NodeIterator', 'NodeConstIterator', 'NodeChildIterator', 'NodeConstChildIterator'):
            return (m,) + tuple(rec(x) for x in av)
        if m in ('has_next', 'has_previous') and len(av) == 1:
            X = rec(av[0])
            i = ask(a, ('index', X), (0, 1, 2, 3))
            return i < nch(a, ('N', X)) if m == 'has_next' else i > 1
        raise Unk(t)
    if k == 'op' and t[1] in ('+', '-'):
        x, y = rec(t[2]), rec(t[3])
        if isinstance(x, tuple) and x[0] == 'at' and isint(y):
            return ('at', x[1], x[2] + (y if t[1] == '+' else -y))
        if isinstance(y, tuple) and y[0] == 'at' and isint(x) and t[1] == '+':
            return ('at', y[1], y[2] + x)
    if k == 'op' and t[1] in ('<', '<=', '>', '>='):
        x, y = rec(t[2]), rec(t[3])
        if isint(x) and isint(y):
            u = a.get('ev', ())
            if x < 0 and ('uns', strip(t[2])) in u:
                x += 1 << 64
            if y < 0 and ('uns', strip(t[3])) in u:
                y += 1 << 64
            return ORD[t[1]](x, y)
    if k == 'op' and t[1] in ('==', '!='):
        x, y = rec(t[2]), rec(t[3])
        if 'this' in (x, y) and (any(isinstance(z, tuple) and z[0] == 'p' for z in (x, y))):
            return t[1] == '!='
        if 'this' not in (x, y) and (isinstance(x, tuple) and isinstance(y, str) or isinstance(x, str) and isinstance(y, tuple)):
            r = streq(a, x, y)
            return r if t[1] == '==' else not r
        if all(isinstance(z, tuple) and z[0] == 'N' for z in (x, y)) and x != y:
            o = [z[1] for z in (x, y) if z[1] != 'this']
            if len(o) == 1 and ask(a, ('same node', o[0]), (False, True)):
                x = y
            return (x == y) == (t[1] == '==')
        # which child of the parent is this
        for u, v in ((x, y), (y, x)):
            if u == 'this' and isinstance(v, tuple) and v[0] == 'child' and v[1] == ('P', 'this'):
                r = v[2] == mypos(a)
                return r if t[1] == '==' else not r
    return NotImplemented


def node_of(a, X):
    return ('N', 'this' if a.get(('same node', X)) else X)


def mypos(a):
    return ask(a, ('position of this',), tuple(range(nch(a, ('P', 'this')))))


def strlen(a, X):
    if isinstance(X, str):
        return len(X)
    if empty(a, X):
        return 0
    return ask(a, ('len', X), (1, 2))


def cat(parts):
    """a string put together: adjacent constants joined"""
    out = []
    for p in parts:
        if isinstance(p, tuple) and p and p[0] == 'cat':
            out += list(p[1:])
        elif p == '' or p is None:
            continue
        elif isint(p):
            out.append(('dec', p))
        else:
            out.append(p)
    r = []
    for p in out:
        if isinstance(p, str) and r and isinstance(r[-1], str) and r[-1] != 'this':
            r[-1] += p
        else:
            r.append(p)
    if not r:
        return ''
    if len(r) == 1:
        return r[0]
    return ('cat',) + tuple(r)


def hpath(a, X, s):
    return ask(a, ('has_path', X, s), (True, False))


# ---------------------------------------------------------------- what is required
def want_number(a, f):
    return nch(a, 'this')


def want_child_i(a, f):
    i = ask(a, ('i', f.params[0][0]), (-1, 0, 1, 2, 3))
    if 0 <= i < nch(a, 'this'):
        return ('child', 'this', i)
    return 'error'


def par(f, i=0):
    return ('p', f.params[i][0])


def want_child_s(a, f):
    s = par(f)
    if has(a, 'this', s):
        return ('child', 'this', pos(a, 'this', s))
    return 'error'


def want_index(a, f):
    s = par(f)
    return pos(a, 'this', s) if has(a, 'this', s) else 'error'


def want_child_name(a, f):
    i = ask(a, ('i', f.params[0][0]), (-1, 0, 1, 2, 3))
    if kind(a, 'this') == 'object' and 0 <= i < nch(a, 'this'):
        return ('name', 'this', i)
    return ''


def want_has_child(a, f):
    return has(a, 'this', par(f))


def want_has_path(a, f):
    s = par(f)
    if kind(a, 'this') != 'object':
        return False
    if not empty(a, s) and ask(a, ('lead', s), (True, False)):
        s = ('tail', s)
    c, n = ('curr', s), ('next', s)
    if not has(a, 'this', c):
        return False
    if empty(a, n):
        return True
    return hpath(a, ('child', 'this', pos(a, 'this', c)), n)


def want_existing(a, f):
    s = par(f)
    node = f.qn.startswith(ND)
    if kind(a, 'this') != 'object':
        return 'error'
    if node and empty(a, s):
        return 'error'
    c, n = ('curr', s), ('next', s)
    if node and empty(a, c):
        return ('walk', 'this', n)
    if streq(a, c, '..'):
        p = parent(a, 'this')
        if p is not None:
            return ('walk', p, n)
        return 'error'
    if not has(a, 'this', c):
        return 'error'
    ch = ('child', 'this', pos(a, 'this', c))
    return ch if empty(a, n) else ('walk', ch, n)


def want_fetch(a, f):
    """fetch creates what is missing: what it returns"""
    s = par(f)
    node = f.qn.startswith(ND)
    if kind(a, 'this') != 'object':
        return 'any'            # becomes an object (N01)
    if node and empty(a, s):
        return 'error'
    c, n = ('curr', s), ('next', s)
    if node and empty(a, c):
        return ('walk', 'this', n)
    if streq(a, c, '..'):
        p = parent(a, 'this')
        if p is not None:
            return ('walk', p, n)
        return 'error' if node else 'any'
    if kind(a, 'this') == 'object' and has(a, 'this', c):
        ch = ('child', 'this', pos(a, 'this', c))
    else:
        ch = 'added'
    return ch if empty(a, n) else ('walk', ch, n)


def want_fetch_ptr(a, f):
    if not want_has_path(a, f):
        return None
    return want_existing(a, f)


def want_name(a, f):
    p = parent(a, 'this')
    if p is None:
        return ''
    k = kind(a, p)
    if k not in ('object', 'list') or nch(a, p) == 0:
        return 'any'
    i = mypos(a)
    if k == 'list':
        return ('cat', '[', ('dec', i), ']')
    nm = ('name', p, i)
    if ask(a, ('slash', nm), ((1 << 64) - 1, 1)) == 1:
        return ('cat', '{', nm, '}')
    return nm


def want_path(a, f):
    p = parent(a, 'this')
    if p is None:
        return ''
    if empty(a, ('path', p)):
        return ('name', 'this')
    return ('cat', ('path', p), '/', ('name', 'this'))


def want_add(a, f):
    if kind(a, 'this') != 'object':
        return 'any'
    s = par(f)
    return ('child', 'this', pos(a, 'this', s)) if has(a, 'this', s) else 'added'


def want_names(a, f):
    return ('order', 'this') if kind(a, 'this') == 'object' else ('glob', SC + 'm_empty_child_names')


def want_root(a, f):
    return parent(a, 'this') is None


def want_parent(a, f):
    return parent(a, 'this')


def want_remove_i(a, f):
    i = ask(a, ('i', f.params[0][0]), (-1, 0, 1, 2, 3))
    if 0 <= i < nch(a, 'this'):
        return ('gone', ('child', 'this', i))
    return 'error'


def want_remove_s(a, f):
    s = par(f)
    if kind(a, 'this') != 'object':
        return 'error'
    c, n = ('curr', s), ('next', s)
    if f.name == 'remove' and not empty(a, n):
        if not has(a, 'this', c):
            return 'error'
        return ('in', ('child', 'this', pos(a, 'this', c)), n)
    if f.name == 'remove_child':
        c = s
    if not has(a, 'this', c):
        return 'error'
    return ('gone', ('child', 'this', pos(a, 'this', c)))


def want_rename(a, f):
    s, t = par(f, 0), par(f, 1)
    if kind(a, 'this') != 'object' or not has(a, 'this', s) or has(a, 'this', t):
        return 'error'
    return ('renamed', s, pos(a, 'this', s), t)


NAV = [('number_of_children', 0, want_number), ('child_name', 'i', want_child_name), ('child', 'i', want_child_i), ('child_ptr', 'i', want_child_i), ('operator[]', 'i', want_child_i),
       ('child', 's', want_child_s), ('child_ptr', 's', want_child_s), ('child_index', 's', want_index), ('has_child', 's', want_has_child), ('has_path', 's', want_has_path),
       ('fetch_existing', 's', want_existing), ('fetch', 'sc', want_existing), ('operator[]', 'sc', want_existing), ('fetch_ptr', 'sc', None),
       ('fetch', 's', want_fetch), ('fetch_ptr', 's', want_fetch), ('operator[]', 's', want_fetch), ('name', 0, want_name), ('path', 0, want_path), ('child_names', 0, want_names),
       ('is_root', 0, want_root), ('parent', 0, want_parent), ('remove', 'i', want_remove_i), ('remove', 's', want_remove_s), ('remove_child', 's', want_remove_s),
       ('rename_child', 'ss', want_rename), ('add_child', 's', want_add)]


READS = ('parent', 'fetch', 'fetch_existing', 'fetch_ptr', 'dtype', 'schema', 'schema_ptr', 'child', 'child_ptr', 'children', 'object_order', 'object_map', 'object_hierarchy',
         'list_hierarchy', 'operator[]', 'number_of_children', 'child_name', 'child_names', 'child_index')


def pure(r):
    return r.get('const') or r['qn'].startswith('std::') or r['name'] in READS


class Nav(Sum):
    iters = True
    cap = 3000

    def inline(self, ip, ref, n):
        if ref['name'] in ('init', 'init_object', 'init_list', 'reset', 'release'):
            return False
        if ref['name'] in ('fetch', 'fetch_existing', 'fetch_ptr', 'remove', 'has_path', 'path', 'name'):
            # a step to another node is the same operation there
            o = n.c[0] if n.c else None
            while o is not None and o.k == 'Cast' and o.c:
                o = o.c[0]
            if o is None or not (o.k == 'This' or o.k == 'Member' and o.d[1] == 'm_schema' and o.c and o.c[0].k == 'This' and ref['name'] != 'fetch_ptr'):
                return False
        return Sum.inline(self, ip, ref, n)

    def on_cmp(self, s, v):
        if v[1] in ('<', '<=', '>', '>='):
            for x in (v[2], v[3]):
                if x[0] == 'cast' and x[1].replace('const ', '') in ('unsigned long', 'size_t', 'unsigned int') and ('uns', strip(x)) not in s.dom:
                    s = s.withdom(s.dom + (('uns', strip(x)),))
        return s

    def on_branch(self, ip, s, t, b):
        if t[0] == 'op' and t[1] == '==':
            for x, y in ((strip(t[2]), strip(t[3])), (strip(t[3]), strip(t[2]))):
                i = search(x)
                if bare(y) in (T, ('fld', T, 'm_schema')) and i is not None and i[0] == 'it':
                    for e in (('tested', i),) + ((('found', i),) if b else ()):
                        if e not in s.dom:
                            s = s.withdom(s.dom + (e,))
        return s

    def on_store(self, ip, s, n, loc, v):
        if loc[0] == '*' and loc[1][0] == 'call' and base(loc[1][1]) in ('operator[]', 'at') and bare(loc[1][2][0])[0] == 'fld':
            m = bare(loc[1][2][0])
            if m[2] in ('object_map', 'object_order'):
                return s.withdom(s.dom + (('ins', m, bare(loc[1][2][1]), v),))
        v = strip(v)
        if v[0] == 'it' and ('found', v) in s.dom and ('pos', loc) not in s.dom:
            return s.withdom(s.dom + (('pos', loc),))
        return s


def search(x):
    """index of a child of the parent of this"""
    x = bare(x)
    if x[0] == 'call' and base(x[1]) in ('operator[]', 'at', 'child', 'child_ptr') and len(x[2]) >= 2 and mentions(x[2][0], lambda y: y[0] == 'fld' and y[2] == 'm_parent' or y[0] == 'call' and base(y[1]) == 'parent'):
        return strip(x[2][1])
    return None


def ev(ip, s, n, ref, obj, args, locs):
    q, m = ref['qn'], ref['name']
    if m == 'remove' and len(args) == 1 and obj is not None and bare(obj) not in (T, ('fld', T, 'm_schema')) and q in (SC + 'remove', ND + 'remove'):
        return [(s.withdom(s.dom + (('rem', bare(obj), args[0]),)), ('u', 'void'))]
    if m == 'split_path':
        ls = (locs or (None, []))[1]
        w = bare(args[0])
        for i, x in ((1, 'curr'), (2, 'next')):
            if i < len(ls) and ls[i] is not None:
                s = s.set(ls[i], ('call', x, (w,), ()))
        return [(s, ('u', 'void'))]
    if q.startswith(('std::vector<conduit::Node *', 'std::vector<conduit::Schema *')) and obj is not None:
        if m in ('push_back', 'emplace_back'):
            return [(s.withdom(s.dom + (('push', bare(obj), bare(args[0])),)), ('u', 'void'))]
        if m == 'size':
            k = sum(1 for e in s.dom if e[0] == 'push' and e[1] == bare(obj))
            v = ('call', q, (bare(obj),), ())
            return [(s, ('op', '+', v, ('c', k)) if k else v)]
        if m == 'erase':
            return [(s.withdom(s.dom + (('erase', bare(obj), args[0]),)), ('u', 'void'))]
        if m == 'begin' or m == 'back':
            k = sum(1 for e in s.dom if e[0] == 'push' and e[1] == bare(obj))
            return [(s, ('call', m, (bare(obj), ('c', k)), ()))]
        if m in ('operator[]', 'at') and args:
            k = sum(1 for e in s.dom if e[0] == 'push' and e[1] == bare(obj))
            return [(s, ('call', q, (bare(obj), args[0]) + ((('c', k),) if k else ()), ()))]
    if m in ('find', 'count', 'operator[]', 'at') and q.startswith('std::map<') and obj is not None and args:
        for e in reversed(s.dom):
            if e[0] == 'ins' and e[1] == bare(obj) and e[2] == bare(args[0]):
                return [(s, ('c', 1) if m == 'count' else ('call', 'insit', (e[3],), ()) if m == 'find' else e[3])]
    if m == 'erase' and q.startswith(('std::map<', 'std::vector<')) and obj is not None:
        return [(s.withdom(s.dom + (('erase', bare(obj), args[0]),)), ('u', 'void'))]
    if m == 'operator<<' and 'ostream' in q + (ref['params'][0][1] if ref['params'] else ''):
        if obj is not None:
            l, v = (locs or (None, []))[0], args[0] if args else None
        else:
            l, v = (locs or (None, []))[1][0], args[1] if len(args) > 1 else None
        if l is not None and l[0] == 'v' and v is not None:
            cur = ip.load(l, s)
            parts = cur[2] if cur[0] == 'call' and cur[1] == 'str' else ()
            s = s.set(l, ('call', 'str', parts + (v,), ()))
            return [(s, ('ref', l))]
        return None
    if m == 'str' and 'ostringstream' in q and obj is not None and not args:
        l = (locs or (None, []))[0]
        if l is not None:
            cur = ip.load(l, s)
            return [(s, cur if cur[0] == 'call' and cur[1] == 'str' else ('call', 'str', (), ()))]
    return None


def outcome(f, w):
    def g(p, e):
        if p.kind == 'throw':
            return 'error'
        if w in (want_remove_i, want_remove_s, want_rename):
            return effect(p, e, w)
        if p.val is None:
            raise Unk(('c', 'no value'))
        r = e(p.val)
        if r is None and w not in (want_parent,):
            r = '' if w in (want_name, want_path) else r
        return added(p, r)
    return g


def added(p, r):
    return r


def effect(p, e, w):
    if w is want_rename:
        er = [e(x[2]) for x in p.ev if x[0] == 'erase' and e(x[1])[0] == 'map']
        mp = [(e(x[2]), e(x[3])) for x in p.ev if x[0] == 'ins' and e(x[1])[0] == 'map']
        od = [(e(x[2]), e(x[3])) for x in p.ev if x[0] == 'ins' and e(x[1])[0] == 'order']
        if len(er) != 1 or len(mp) != 1 or len(od) != 1:
            return ('not all three records changed',)
        if mp[0][0] != od[0][1] or mp[0][1] != od[0][0]:
            return ('records disagree', mp[0], od[0])
        return ('renamed', er[0], mp[0][1], mp[0][0])
    rec = [(e(x[1]), e(x[2])) for x in p.ev if x[0] == 'rem']
    gone = []
    for x in p.ev:
        if x[0] == 'erase':
            v = e(x[1])
            if v[0] in ('kids', 'order'):
                i = strip(x[2])
                while i[0] == 'call' and base(i[1]) in ('__normal_iterator',) and i[2]:
                    i = strip(i[2][0])
                i = e(i)
                if not (isinstance(i, tuple) and i[0] == 'at' and i[1] == v):
                    raise Unk(x[2])
                gone.append(('child', v[1], i[2]))
            elif v[0] == 'map':
                k = e(x[2])
                if isinstance(k, tuple) and k[0] == 'name':
                    gone.append(('child', k[1], k[2]))
    if rec and not gone:
        return ('in',) + rec[0]
    if len(set(gone)) != 1:
        return ('nothing removed',) if not gone else ('different children removed',) + tuple(sorted(set(gone)))
    if not any(x[0] == 'erase' and e(x[1])[0] == 'kids' for x in p.ev):
        return ('nothing removed',)
    return ('gone', gone[0])


def const(f):
    return f.usr.endswith('#1')


def sig(f):
    ps = [x[2].replace('const ', '') for x in f.params]
    if not ps:
        return 0
    r = ''
    for x in ps:
        if 'basic_string' in x and x.endswith('&'):
            r += 's'
        elif x.strip() in ('long', 'index_t', 'int'):
            r += 'i'
        else:
            return None
    return r


def run(tier):
    ck = Check('N03', 'other', 'case analysis of path summaries: for every path of every navigation function and every case consistent with its branch facts, the result is the one the tree defines', tier)
    pr = P.load(lambda r: r in ('conduit/conduit_node.cpp', 'conduit/conduit_schema.cpp', 'conduit/conduit_data_type.cpp', 'conduit/conduit_node_iterator.cpp'),
                extra={'inst_child_iterator.cpp': ('#include "conduit.hpp"\ntemplate class conduit::NodeChildIteratorBase<conduit::Node&, conduit::Node*, conduit::NodeChildIterator>;\n'
                                                   'template class conduit::NodeChildIteratorBase<conduit::Node const &, conduit::Node const *, conduit::NodeConstChildIterator>;\n',
                                                   'conduit/conduit_node_iterator.cpp')})
    n = 0
    for nm, sg, w in NAV:
        for cls in (SC, ND):
            for f in sorted([f for f in pr.funcs.values() if f.qn == cls + nm and f.body is not None], key=lambda f: f.line):
                c = bool(const(f))
                s = sig(f)
                if s != (sg.replace('c', '') if isinstance(sg, str) else sg):
                    continue
                if nm in ('fetch', 'operator[]', 'fetch_ptr') and s == 's' and c != ('c' in sg):
                    continue
                n += 1
                nav(ck, pr, f, w or (want_fetch_ptr if cls == ND else want_existing))
    ck.count('functions', n)
    ck.floor('functions', n, 20)
    iterators(ck, pr)
    child_iterators(ck, pr)
    roles(ck, pr)
    splits(ck)
    return ck


# ---------------------------------------------------------------- iterators
def ix(a):
    return ask(a, ('index', 'this'), (0, 1, 2, 3))


def state(a):
    """the iterator as it was"""
    return (('N', 'this'), ix(a), nch(a, ('N', 'this')))


def it_child(a, i):
    N = ('N', 'this')
    return ('child', N, i) if 0 <= i < nch(a, N) else 'any'


def it_want(f):
    nm, n = f.name, len(f.params)
    cls = f.qn.split('::')[1]

    def w(a):
        N = ('N', 'this')
        if nm in ('NodeIterator', 'NodeConstIterator') or nm == 'operator=':
            if n == 0:
                return (None, (None, 0, 0))
            if n == 1 and 'Iterator' in f.params[0][2]:
                o = ('p', f.params[0][0])
                r = (node_of(a, o), ask(a, ('index', o), (0, 1, 2, 3)), nch(a, node_of(a, o)))
                return (None, r)
            i = ask(a, ('i', f.params[1][0]), (-1, 0, 1, 2, 3)) if n == 2 else 0
            return (None, (('p', f.params[0][0]), i, nch(a, ('p', f.params[0][0]))))
        i, c = ix(a), nch(a, N)
        st = (N, i, c)
        if i > c:
            return 'any'
        if nm == 'has_next':
            return (i < c, st)
        if nm == 'has_previous':
            return (i > 1, st)
        if nm == 'index':
            return (i - 1, st)
        if nm == 'node':
            return (it_child(a, i - 1), st) if 1 <= i else 'any'
        if nm == 'name':
            if i < 1:
                return 'any'
            k = kind(a, N)
            return (('dec', i - 1) if k == 'list' else ('name', N, i - 1), st)
        if nm == 'next':
            return (it_child(a, i), (N, i + 1, c)) if i < c else 'error'
        if nm == 'peek_next':
            return (it_child(a, i), st) if i < c else 'error'
        if nm == 'previous':
            return (it_child(a, i - 2), (N, i - 1, c)) if i > 1 else 'error'
        if nm == 'peek_previous':
            return 'any' if i > 1 else 'error'
        if nm == 'to_front':
            return (None, (N, 0, c))
        if nm == 'to_back':
            return (None, (N, c, c))
        if nm in ('begin', 'cbegin'):
            return ((None, N, i), st)
        if nm in ('end', 'cend'):
            return ((None, N, c), st)
        return 'any'
    return w


def it_outcome(f):
    def g(p, e):
        if p.kind == 'throw':
            return 'error'
        fl = p.fields()
        ctor = f.name in ('NodeIterator', 'NodeConstIterator')
        st = []
        for x in ('m_node', 'm_index', 'm_num_children'):
            if x in fl:
                st.append(e(fl[x]))
            elif ctor:
                st.append('never set')
            else:
                st.append(e(('fld', T, x)))
        if f.name in ('operator=',) or ctor or f.name in ('to_front', 'to_back'):
            return (None, tuple(st))
        v = e(p.val)
        if f.name in ('begin', 'end', 'cbegin', 'cend') and isinstance(v, tuple):
            v = (None,) + v[1:]
        return (v, tuple(st))
    return g


def iterators(ck, pr):
    n = 0
    for cls in ('NodeIterator', 'NodeConstIterator'):
        q = 'conduit::%s::' % cls
        for f in sorted([f for f in pr.funcs.values() if f.qn.startswith(q) and f.body is not None and f.qn.count('::') == 2 and f.name[0] != '~' and f.name != 'info'], key=lambda f: f.line):
            n += 1
            key = '%s::%s/%s' % (cls, f.name, ','.join(x[2].replace('conduit::', '').replace('const ', '') for x in f.params))
            dom = Nav(inliner(pr, (q,)), events=ev, pure=pure)
            try:
                ps, ip = paths(pr, f, dom)
            except P.ToolError as ex:
                ck.notes.append('%s: %s' % (key, ex))
                continue
            judge(ck, f, key, ps, it_want(f), it_outcome(f))
    ck.count('iterator methods', n)


def roles(ck, pr):
    """init_object/init_list keep what is one already and otherwise start afresh"""
    for nm, k in (('init_object', 'object'), ('init_list', 'list')):
        for f in [f for f in pr.funcs.values() if f.qn == SC + nm and f.body is not None]:
            def ev2(ip, s, n, ref, obj, args, locs):
                if ref['qn'] in (SC + 'reset', SC + 'release') and obj is not None and bare(obj) == T:
                    return [(s.withdom(s.dom + (('reset',),)), ('u', 'void'))]
                if ref['qn'] == DT + 'operator=' and obj is not None and bare(obj) == ('fld', T, 'm_dtype') and args:
                    return [(s.set(('*', ('fld', T, 'm_dtype')), args[0]), ('u', 'void'))]
                return ev(ip, s, n, ref, obj, args, locs)
            ps, ip = paths(pr, f, Nav(inliner(pr, (SC,)), events=ev2, pure=lambda r: pure(r) or r['qn'].startswith(DT)))

            def out(p, e):
                fl = p.fields()
                d, h = fl.get('m_dtype'), fl.get('m_hierarchy_data')
                if d is None and h is None and ('reset',) not in p.ev:
                    return 'kept'
                if d is None or h is None or ('reset',) not in p.ev:
                    return ('reset' if ('reset',) in p.ev else 'not reset', 'dtype set' if d else 'dtype kept', 'new children' if h else 'no new children')
                d, h = bare(d), bare(h)
                if d[0] != 'call' or h[0] != 'call' or h[1] != '<new>':
                    raise Unk(d)
                return ('fresh', base(d[1]), h[2][0].split('_')[1].lower() if '_' in h[2][0] else h[2][0])
            judge(ck, f, 'Schema::' + nm, ps, lambda a: 'kept' if kind(a, 'this') == k else ('fresh', k, k), out)


NPOS = (1 << 64) - 1


def splits(ck):
    """split_string, rsplit_string: the two parts around the first / last separator"""
    pr = P.load(lambda r: r == 'conduit/conduit_utils.cpp')
    U = 'conduit::utils::'
    n = 0
    for nm in ('split_string', 'rsplit_string', 'split_path', 'rsplit_path'):
        for f in [f for f in pr.funcs.values() if f.qn == U + nm and f.body is not None and f.params and all('basic_string' in x[2] and 'vector' not in x[2] for x in f.params)]:
            S, C, X = ('p', f.params[0][0], 0), ('p', f.params[-2][0], len(f.params) - 2), ('p', f.params[-1][0], len(f.params) - 1)

            def ev2(ip, s, n, ref, obj, args, locs):
                l = (locs or (None, []))[0]
                if ref['name'] == 'clear' and l is not None:
                    return [(s.set(l, ('c', '')), ('u', 'void'))]
                if ref['name'] in ('operator=', 'assign') and 'basic_string' in ref['qn'] and l is not None and len(args) == 1:
                    return [(s.set(l, args[0]), ('ref', l))]
                return None
            ps, ip = paths(pr, f, Nav(inliner(pr, (U + 'split_', U + 'rsplit_')), events=ev2, pure=lambda r: True))

            def at(t, a, rec):
                L = ask(a, ('length',), (0, 1, 2, 3))
                if t == S:
                    return sub(0, L)
                if t[0] == 'p':
                    return '/' if t not in (C, X) else ('old', t[1])
                if t[0] == 'call':
                    m = base(t[1])
                    av = t[2]
                    if m in ('find', 'rfind', 'find_first_of', 'find_last_of') and rec(av[0]) == sub(0, L):
                        d = (NPOS,) + tuple(range(L))
                        first = ask(a, ('first separator',), d)
                        if m in ('find', 'find_first_of'):
                            return first
                        return ask(a, ('last separator',), (NPOS,) if first == NPOS else tuple(range(first, L)))
                    if m in ('size', 'length'):
                        v = rec(av[0])
                        return 0 if v == '' else 1 if v == '/' else v[2] - v[1]
                    if m == 'empty':
                        return rec(av[0]) == ''
                    if m == 'substr':
                        v = rec(av[0])
                        i = rec(av[1]) if len(av) > 1 else 0
                        k = rec(av[2]) if len(av) > 2 and strip(av[2])[0] != 'u' else NPOS
                        if v == '':
                            return ''
                        if not isint(i) or not isint(k) or v[0] != 'sub':
                            raise Unk(t)
                        if k < 0:
                            k += 1 << 64
                        if i < 0 or i > v[2] - v[1]:
                            return 'out of range'
                        return sub(v[1] + i, min(v[2], v[1] + i + k))
                    if m == 'basic_string':
                        return rec(av[0]) if av else ''
                    raise Unk(t)
                if t[0] == 'glob' and t[1].endswith('npos'):
                    return NPOS
                if t[0] == 'op' and t[1] in ORD:
                    x, y = rec(t[2]), rec(t[3])
                    if isint(x) and isint(y):
                        return ORD[t[1]](x % (1 << 64), y % (1 << 64))
                return NotImplemented

            def want(a):
                L = ask(a, ('length',), (0, 1, 2, 3))
                first = ask(a, ('first separator',), (NPOS,) + tuple(range(L)))
                if first == NPOS:
                    return (sub(0, L), '')
                if nm[0] == 's':
                    return (sub(0, first), sub(first + 1, L))
                last = ask(a, ('last separator',), tuple(range(first, L)))
                return (sub(last + 1, L), sub(0, last))

            def out(p, e):
                if p.kind == 'throw':
                    return 'error'
                return (e(p.env.get(('*', C), C)), e(p.env.get(('*', X), X)))
            n += 1
            judge(ck, f, 'utils::' + nm, ps, want, out, at)
    ck.count('string splitters', n)


def sub(i, j):
    return '' if i >= j else ('sub', i, j)


def child_iterators(ck, pr):
    n = 0
    for f in sorted([f for f in pr.funcs.values() if f.qn.startswith('conduit::NodeChildIteratorBase<') and f.body is not None], key=lambda f: (f.qn, f.line)):
        nm = f.name
        arg = ('p', f.params[0][0]) if f.params else None
        intarg = bool(f.params) and f.params[0][2].strip() in ('long', 'const long')
        if nm.startswith('NodeChildIteratorBase') or nm in ('operator++', 'operator--') and f.params or nm == 'operator+' or nm == 'operator-' and intarg or nm == 'name':
            continue

        def want(a, nm=nm, arg=arg, intarg=intarg, f=f):
            N = ('N', 'this')
            i = ix(a)
            j = None
            if arg:
                j = ask(a, ('i', arg[1]), (-1, 0, 1, 2)) if intarg else ask(a, ('index', arg), (0, 1, 2, 3))
            sn = intarg or arg is None or same_node(a, arg)
            if nm in ('operator==', 'operator!='):
                return ((sn and i == j) == (nm == 'operator=='), i)
            if nm == 'operator++':
                return (None, i + 1)
            if nm == 'operator--':
                return (None, i - 1)
            if nm == 'operator+=':
                return (None, i + j)
            if nm == 'operator-=':
                return (None, i - j)
            if nm in ('operator*', 'operator->'):
                return (('child', N, i), i) if i < nch(a, N) else 'any'
            if nm == 'operator[]':
                return (('child', N, i + j), i) if 0 <= i + j < nch(a, N) else 'any'
            if nm == 'operator-':
                return (i - j, i)
            if nm[8:] in ORD:
                return (ORD[nm[8:]](i, j), i)
            if nm == 'get_parent':
                return (N, i)
            if nm == 'get_index':
                return (i, i)
            return 'any'

        def out(p, e, nm=nm):
            if p.kind == 'throw':
                return 'error'
            fl = p.fields()
            i = e(fl['m_index']) if 'm_index' in fl else e(('fld', T, 'm_index'))
            return (None if nm in ('operator++', 'operator--', 'operator+=', 'operator-=') else e(p.val), i)
        q = f.qn.rsplit('::', 1)[0] + '::'
        ps, ip = paths(pr, f, Nav(inliner(pr, (q,)), events=ev, pure=pure))
        n += 1
        judge(ck, f, '%s::%s' % ('NodeConstChildIterator' if 'const' in f.qn else 'NodeChildIterator', nm), ps, want, out, childit)
    ck.count('child iterator operators', n)


def same_node(a, arg):
    return ask(a, ('same node', arg), (True, False))


def childit(t, a, rec):
    """m_parent of a child iterator is the node it runs over"""
    if t[0] == 'fld' and t[2] == 'm_parent':
        X = rec(t[1])
        if X == 'this' or same_node(a, X):
            return ('N', 'this')
        return ('N', X)
    return atom(t, a, rec)


def judge(ck, f, key, ps, want, out, atom=atom):
    why = None
    for p in ps:
        # fields already written are in the environment, not in the facts
        a0 = {'ints': frozenset(x[0] for x in f.params if x[2].replace('const ', '').strip() in ('long', 'int', 'index_t')), 'ev': p.ev}
        r = compare(p, atom, want, out, a0)
        if isinstance(r, str):
            ck.notes.append('%s: %s' % (key, r))
            why = why or r
        elif r is not None:
            a, w, got = r
            ck.bad(key, f.file, p.node.line if p.node is not None else f.line, '%s: with %s it gives %s instead of %s' % (f.qn, case(a), word(got), word(w)))
            return
    if why is None:
        ck.ok(len(ps), key)


def nav(ck, pr, f, w):
    key = '%s/%s' % (f.qn.replace('conduit::', ''), (sig(f) or '') if not const(f) else (sig(f) or '') + ' const')
    skip = {SC + 'path', SC + 'name', ND + 'path', ND + 'name'} - {f.qn, SC + f.name}
    dom = Nav(inliner(pr, (SC, ND + 'child', ND + 'has_', ND + 'fetch', ND + 'schema', ND + 'dtype', ND + 'number_of_children', ND + 'remove_child'), skip=tuple(skip)), events=ev,
              pure=pure)
    try:
        ps, ip = paths(pr, f, dom)
    except P.ToolError as ex:
        ck.notes.append('%s: %s' % (key, ex))
        return
    why = None
    k = 0
    searched = {e[1] for p in ps for e in p.ev if e[0] == 'tested'}
    for p in ps:
        a0 = {'ints': frozenset(x[0] for x in f.params if 'basic_string' not in x[2]), 'ev': p.ev}
        if searched and p.kind == 'return' and not any(e[0] == 'found' for e in p.ev) and any(mentions(t, lambda x: x[0] == 'it') for t in p.facts):
            # `this` is one of the children of its parent: not finding it means that the search leaves some out
            for i in searched:
                r = covers(ip, p, i, lambda b: base(strip(b)[1]) in ('size', 'number_of_children') if strip(b)[0] == 'call' else False)
                if r and r[0] != '?' and any(e[0] == 'tested' for e in p.ev):
                    why = why if isinstance(why, tuple) else (p, 'the search for its place among the children: ' + r)
            continue
        r = compare(p, atom, lambda a: w(a, f), outcome(f, w), a0)
        k += 1
        if isinstance(r, str):
            ck.notes.append('%s: %s' % (key, r))
            why = why or r
        elif r is not None:
            a, want, got = r
            if why is not None and isinstance(why, tuple):
                break
            why = (p, 'with %s it gives %s instead of %s' % (case(a), word(got), word(want)))
            break
    if why is None:
        ck.ok(k, key)
    elif isinstance(why, tuple):
        p, m = why
        ck.bad(key, f.file, p.node.line if p.node is not None else f.line, '%s: %s' % (f.qn, m))
