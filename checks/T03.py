"""T03: numeric conversions. Every stored kind is handled, read as its stored type and
converted directly (or through a type that loses nothing); array conversions and
element loops cover every element."""
import re
from common import Check
import prog as P
from summ import *

ND = 'conduit::Node::'
DTY = ('fld', ('fld', ('this',), 'm_schema'), 'm_dtype')
MID = ('fld', DTY, 'm_id')
HERE = {(('fld', ('this',), 'm_data'),): 1, (('fld', DTY, 'm_offset'),): 1}
ids = ID


def clean(t):
    return t.replace('const ', '').replace(' &', '').strip()


def kind(t):
    t = clean(t)
    if t == 'char':
        return 'int8'
    return OFC.get(t) or ('float80' if t == 'long double' else None)


def lossless(s, z):
    """every value of s is representable in z"""
    if s == z or z == 'float80':
        return True
    if s in RANGE and z in RANGE:
        return RANGE[z][0] <= RANGE[s][0] and RANGE[z][1] >= RANGE[s][1]
    if s in RANGE and z[0] == 'f':
        return WIDTH[s] < (8 if z == 'float64' else 4)
    return s == 'float32' and z == 'float64'


def chain_ok(s, zs, t):
    """conversion of s through the types zs gives the same as the direct conversion to t"""
    cur = s
    for z in zs:
        if z is None:
            return False
        if z == cur or z == t:
            cur = z
            continue
        if lossless(cur, z):
            continue                       # still exactly the value of cur
        if t in RANGE and z in RANGE and WIDTH[z] >= WIDTH[t] and (cur in RANGE or lossless(t, z)):
            continue
        return False
    return True


def chain(v):
    """(types passed through innermost first, innermost term)"""
    zs = []
    while v[0] == 'cast':
        zs.append(kind(v[1]))
        v = v[2]
    zs.reverse()
    return zs, v


def vartypes(f):
    out = {}
    for x in f.body.walk():
        if x.k == 'Var':
            out[x.d[1]] = x.ty
    return out


class Conv(Sum):
    def __init__(self, *a, **k):
        Sum.__init__(self, *a, **k)

    guards = False

    def init(self):
        return frozenset()

    def on_store(self, ip, s, n, loc, v):
        if loc[0] == '*' and loc[1][0] in ('deref', 'idx') and n.c:
            t = loc[1]
            ptr = t[1] if t[0] == 'deref' else ('op', '+', t[1], ('op', '*', t[2], ip.szof(n.c[0].ty)))
            e = {('st', clean(n.c[0].ty), ptr, v, n.line)}
            if self.guards:
                its = lambda x: x[0] == 'it'
                e.add(('guard', frozenset((t, b) for t, b in s.facts.items() if mentions(t, its))))
            return s.withdom(s.dom | e)
        return s


def run(tier):
    ck = Check('T03', 'other', 'for every conversion and every stored type id: the stored element is read as its stored type and reaches the target type directly or through a type that loses nothing; '
               'array conversions allocate the target type with the same length and convert every element from index 0', tier)
    pr = P.load(lambda r: r in ('conduit/conduit_node.cpp', 'conduit/conduit_data_type.cpp', 'conduit/conduit_schema.cpp', 'conduit/conduit_data_array.cpp', 'conduit/conduit_data_accessor.cpp'))
    scalars(ck, pr)
    arrays(ck, pr)
    accessors(ck, pr)
    loops(ck, pr)
    return ck


def scalars(ck, pr):
    dom = Sum(inliner(pr, ('conduit::DataType::', 'conduit::Node::element_ptr', 'conduit::Node::dtype', 'conduit::Schema::dtype', 'conduit::Node::as_', 'conduit::Node::to_'),
                      skip=('conduit::DataType::id_to_name', 'conduit::Node::to_string', 'conduit::Node::to_json', 'conduit::Node::to_yaml')))
    n = 0
    for f in sorted(pr.funcs.values(), key=lambda f: f.line):
        if f.cls != 'conduit::Node' or f.params or not f.name.startswith('to_'):
            continue
        nm = f.name[3:]
        t = NAMES.get(nm) or ('float80' if nm == 'long_double' else None)
        if t is None:
            continue
        if kind(f.ret) != t:
            ck.bad('ret:' + f.name, f.file, f.line, '%s returns %s' % (f.qn, f.ret))
        n += 1
        vt = vartypes(f)
        ps, ip = paths(pr, f, dom)
        for k in KIND.values():
            vals = [p for p in under(ps, {MID: ids[k]}) if p.kind == 'return']
            if not vals:
                ck.notes.append('%s: no result for %s' % (f.name, k))
            parsed = False
            for p in vals:
                zs, v = chain(p.val)
                line = p.node.line if p.node else f.line
                what = None
                if k in NUM:
                    if v[0] == 'ld':
                        s = kind(v[1])
                        if s != k:
                            what = 'a stored %s is read as %s' % (k, v[1])
                        elif lin(v[2]) != HERE:
                            what = 'the element is read at %s' % show(canon(v[2]))
                        elif not chain_ok(k, zs + [t], t):
                            what = 'a stored %s is converted to %s through %s, which loses information' % (k, t, '/'.join(map(str, zs)))
                    elif unknown(v):
                        ck.notes.append('%s: value for %s not resolved' % (f.name, k))
                        continue
                    else:
                        what = 'a stored %s yields %s' % (k, show(v))
                elif k == 'char8_str':
                    if v[0] == 'mut' and v[3][0] == 'v':
                        ty = vt.get(v[3][2])
                        z = kind(ty) if ty else None
                        parsed = True
                        if z is not None and (WIDTH.get(z, 16) < 2 or not lossless(t, z)):
                            what = 'text is parsed as %s, which cannot hold every %s' % (ty, t)
                        elif z is not None and not chain_ok(t, [], t):
                            what = 'parsed text is converted through %s' % zs
                    elif unknown(v):
                        parsed = True
                        continue
                    elif not (v[0] == 'c' and not v[1]):
                        what = 'text yields %s' % show(v)
                else:
                    if not (v[0] == 'c' and not v[1]) and not unknown(v):
                        what = 'a node of type %s yields %s' % (k, show(v))
                if what:
                    ck.bad('%s:%s' % (f.name, k), f.file, line, '%s: %s' % (f.qn, what))
                else:
                    ck.ok(1, '%s from %s' % (f.name, k))
            if k == 'char8_str' and vals and not parsed:
                ck.bad('%s:text' % f.name, f.file, f.line, '%s: text is not parsed' % f.qn)
    ck.floor('scalar conversions', n, 20)


def arrays(ck, pr):
    def ev(ip, s, n, ref, obj, args, locs):
        qn = ref['qn']
        if qn.startswith(ND + 'as_') and qn.endswith(('_array', '_accessor')):
            return [(s, ('call', qn, (obj,), ()))]
        if qn == ND + 'set' or qn.startswith('conduit::DataArray<') and ref['name'] in ('set', 'operator='):
            return [(s.withdom(s.dom | {(qn, obj) + tuple(args)}), ('u', 'void'))]
        if ref['name'].startswith('to_') and ref['name'].endswith('_array') and qn.startswith(ND):
            return [(s.withdom(s.dom | {(qn, obj) + tuple(args)}), ('u', 'void'))] if ip.fnstack[0].name == 'to_data_type' else None
        return None
    dom = Conv(inliner(pr, ('conduit::DataType::', 'conduit::Node::dtype', 'conduit::Schema::dtype', 'conduit::Node::to_')), events=ev)
    n = 0
    for f in sorted(pr.funcs.values(), key=lambda f: f.line):
        if f.cls != 'conduit::Node' or len(f.params) != 1 or not re.match(r'to_.*_array$', f.name):
            continue
        t = NAMES.get(f.name[3:-6])
        if t is None:
            continue
        n += 1
        res = ('p', f.params[0][0], 0)
        ps, ip = paths(pr, f, dom)
        for k in NUM:
            for p in under(ps, {MID: ids[k]}):
                if p.kind != 'return':
                    ck.bad('%s:%s' % (f.name, k), f.file, f.line, '%s: a stored %s is refused' % (f.qn, k))
                    continue
                what = None
                alloc = [e for e in p.ev if e[0] == ND + 'set']
                conv = [e for e in p.ev if e[0].startswith('conduit::DataArray<')]
                if len(alloc) != 1 or len(conv) != 1:
                    if not conv or not alloc:
                        if any(unknown(x) for x in p.ev) or not p.ev and p.st.env is None:
                            ck.notes.append('%s: effects for %s not resolved' % (f.name, k))
                            continue
                        what = 'a stored %s is not converted' % k
                    else:
                        what = 'a stored %s is converted more than once' % k
                else:
                    a = strip(alloc[0][2])
                    if a[0] == 'call' and a[1] == 'conduit::DataType::DataType':
                        d = [canon(x) for x in a[2]]
                        w = ('c', WIDTH[t])
                        if d[0] != ('c', ids[t]) or d[1] != ('fld', DTY, 'm_num_ele') or d[2:5] != [('c', 0), w, w]:
                            what = 'the result is allocated as DataType(%s)' % ', '.join(map(show, d))
                    if strip(alloc[0][1]) != res:
                        what = 'the result node is not the one given'
                    e = conv[0]
                    ty = e[0][len('conduit::DataArray<'):e[0].index('>')]
                    if kind(ty) != t:
                        what = 'the elements are stored as %s' % ty
                    dst, src = strip(e[1]), strip(e[2])
                    if src[0] == 'call' and src[1].startswith(ND + 'as_'):
                        m = re.match(r'as_(.*)_(array|accessor)$', src[1].split('::')[-1])
                        sk = NAMES.get(m.group(1)) if m else None
                        if m and m.group(2) == 'array' and sk != k:
                            what = 'a stored %s is read through %s' % (k, src[1].split('::')[-1])
                        if m and m.group(2) == 'accessor' and not chain_ok(k, [sk], t):
                            what = 'a stored %s is converted through %s' % (k, sk)
                        if strip(src[2][0]) != ('this',):
                            what = 'the source is not this node'
                    if dst[0] == 'call' and dst[1].startswith(ND + 'as_'):
                        m = re.match(r'as_(.*)_array$', dst[1].split('::')[-1])
                        if m and NAMES.get(m.group(1)) != t:
                            what = 'the result is accessed as %s' % m.group(1)
                        if strip(dst[2][0]) != res:
                            what = 'the elements are not stored in the result node'
                if what:
                    ck.bad('%s:%s' % (f.name, k), f.file, f.line, '%s: %s' % (f.qn, what))
                else:
                    ck.ok(1, '%s from %s' % (f.name, k))
    ck.floor('array conversions', n, 20)
    for f in pr.get(ND + 'to_data_type'):
        ps, ip = paths(pr, f, dom)
        want = ('p', f.params[0][0], 0)
        for k in NUM:
            for p in under(ps, {want: ids[k]}):
                if p.kind != 'return':
                    ck.bad('to_data_type:' + k, f.file, f.line, 'to_data_type refuses %s' % k)
                    continue
                e = [x for x in p.ev if x[0].startswith(ND + 'to_')]
                if len(e) != 1 or NAMES.get(e[0][0][len(ND) + 3:-6]) != k or strip(e[0][1]) != ('this',) or strip(e[0][2]) != ('p', f.params[1][0], 1):
                    if not e and any(unknown(x) for x in p.ev):
                        continue
                    ck.bad('to_data_type:' + k, f.file, f.line, 'to_data_type(%s) performs %s' % (k, [show(x[0]) for x in e]))
                else:
                    ck.ok(1)


def accessors(ck, pr):
    dom = Conv(inliner(pr, ('conduit::DataType::', 'conduit::DataAccessor<'), skip=('conduit::DataType::id_to_name',)))
    d = ('fld', ('this',), 'm_dtype')
    mid = ('fld', d, 'm_id')
    n = 0
    for f in sorted(pr.funcs.values(), key=lambda f: (f.line, f.qn)):
        if not f.qn.startswith('conduit::DataAccessor<'):
            continue
        t = kind(f.cls[f.cls.index('<') + 1:f.cls.index('>')])
        if t is None:
            continue
        if f.name in ('element', 'operator[]') and len(f.params) == 1:
            idx = ('p', f.params[0][0], 0)
            want = addr(d, idx)
            ps, ip = paths(pr, f, dom)
            n += 1
            for k in NUM:
                for p in under(ps, {mid: ids[k]}):
                    if p.kind != 'return':
                        continue
                    zs, v = chain(p.val)
                    what = None
                    if v[0] != 'ld':
                        if unknown(v):
                            continue
                        what = 'yields %s' % show(v)
                    elif kind(v[1]) != k:
                        what = 'is read as %s' % v[1]
                    elif lin(v[2]) != want:
                        what = 'is read at %s' % show(canon(v[2]))
                    elif not chain_ok(k, zs + [t], t):
                        what = 'is converted through %s' % zs
                    if what:
                        ck.bad('%s::%s:%s' % (f.cls, f.name, k), f.file, p.node.line if p.node else f.line, '%s: a stored %s %s' % (f.qn, k, what))
                    else:
                        ck.ok(1)
        elif f.name in ('set', 'fill') and f.params and kind(f.params[-1][2]) == t and len(f.params) == (2 if f.name == 'set' else 1):
            src = ('p', f.params[-1][0], len(f.params) - 1)
            ps, ip = paths(pr, f, dom)
            n += 1
            for k in NUM:
                for p in under(ps, {mid: ids[k]}):
                    if p.kind != 'return':
                        ck.bad('%s::%s:%s' % (f.cls, f.name, k), f.file, f.line, '%s: a stored %s is refused' % (f.qn, k))
                        continue
                    st = [e for e in p.ev if e[0] == 'st']
                    what = None
                    if f.name == 'fill' and not st:
                        # zero iterations
                        if not any(mentions(tt, lambda y: y[0] == 'it') for tt in p.facts):
                            what = 'is not written'
                    elif len(st) != 1:
                        what = 'is not written' if not st else 'is written more than once'
                    else:
                        _, ty, ptr, v, line = st[0]
                        zs, v = chain(v)
                        if kind(ty) != k:
                            what = 'is written as %s' % ty
                        elif v != src:
                            if unknown(v):
                                continue
                            what = 'becomes %s' % show(v)
                        elif not chain_ok(t, zs + [k], k):
                            what = 'is converted through %s' % zs
                        else:
                            a = lin(ptr)
                            if f.name == 'set':
                                if a != addr(d, ('p', f.params[0][0], 0)):
                                    what = 'is written at %s' % show(canon(ptr))
                            else:
                                what = every(ip, p, a, d, ('fld', d, 'm_num_ele'))
                    if what:
                        ck.bad('%s::%s:%s' % (f.cls, f.name, k), f.file, f.line, '%s: a stored %s %s' % (f.qn, k, what))
                    else:
                        ck.ok(1)
    ck.floor('accessor operations', n, 20)


def addr(d, idx, base=('this',)):
    return {(('fld', base, 'm_data'),): 1, (('fld', d, 'm_offset'),): 1, tuple(sorted((('fld', d, 'm_stride'), idx), key=repr)): 1}


def data(t, p0):
    """&v[0] and v.data() are the base of a vector"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'addr' and t[1][0] == 'acc' and strip(t[1][2]) == p0 and strip(t[1][3]) == ('c', 0):
        return p0
    if t[0] == 'call' and t[1].endswith('::data') and len(t[2]) == 1 and strip(t[2][0]) == p0:
        return p0
    return tuple(data(x, p0) if isinstance(x, tuple) else x for x in t)


def loopvar(a, d):
    """the index term of an element address"""
    for k in a:
        if ('fld', d, 'm_stride') in k and len(k) == 2:
            x = [y for y in k if y != ('fld', d, 'm_stride')]
            if len(x) == 1:
                return x[0]
    return None


def every(ip, p, a, d, count):
    """the loop writes element i for every i in [0, count)"""
    i = loopvar(a, d)
    if i is not None and i[0] == 'it' and a == dict(addr(d, i), **{}) | {(('fld', d, 'm_stride'),): -1}:
        # a loop that counts down before it uses the index
        if ip.counts_down(i, lambda v: lin(v) == lin(count)):
            if p.facts.get(('op', '<', ('c', 0), i)) is False or p.facts.get(('op', '==', i, ('c', 0))) is True or p.facts.get(('op', '==', ('c', 0), i)) is True:
                return None
            return 'is not written at every index (the loop can end early)'
    if i is None or a != addr(d, i):
        if any(mentions(y, lambda x: x[0] in ('u', 'mut')) for k in a for y in k):
            return None
        return 'is written at %s' % show(('lin', tuple(sorted(a.items(), key=repr))))
    if i[0] != 'it':
        return 'is written at a fixed index'
    if ip.counts_down(i, lambda v: lin(v) == lin(('op', '-', count, ('c', 1)))):
        if p.facts.get(('op', '<', i, ('c', 0))) is True:
            return None
        return 'is not written at every index (the loop can end early)'
    if not ip.counts_up(i):
        return None if not ip.starts.get(i) or any(unknown(v) and v[0] != 'op' for v in ip.starts[i]) else 'is not written at every index from 0'
    bs = [strip(t[3]) for t, b in p.facts.items() if t[0] == 'op' and t[1] == '<' and strip(t[2]) == i and not b]
    bs += [strip(t[3]) if strip(t[2]) == i else strip(t[2]) for t, b in p.facts.items() if t[0] == 'op' and t[1] == '==' and i in (strip(t[2]), strip(t[3])) and b]
    if not bs:
        return 'is not written at every index (the loop can end early)'
    if not any(canon(b) == count for b in bs):
        if any(unknown(b) for b in bs):
            return None
        return 'is written up to index %s instead of %s' % (show(bs[0]), show(count))
    return None


def loops(ck, pr):
    """DataArray::set / fill overloads: element i = (T) source i for every i"""
    def ev(ip, s, n, ref, obj, args, locs):
        if ref['name'] == 'element' and ref['qn'].startswith('conduit::DataAccessor<'):
            return [(s, ('acc', ref['qn'], obj, args[0]))]
        if ref['name'] == 'operator[]' and ref['qn'].startswith(('conduit::DataAccessor<', 'std::vector<')):
            return [(s, ('acc', ref['qn'], obj, args[0]))]
        if ref['name'] == 'size' and ref['qn'].startswith('std::vector<'):
            return [(s, ('call', 'size', (obj,), ()))]
        if ref['qn'].startswith('conduit::DataArray<') and ref['name'] == 'set' and ip.fnstack[0].name == 'operator=':
            return [(s.withdom(s.dom | {('set', obj) + tuple(args)}), ('u', 'void'))]
        return None
    inl = inliner(pr, ('conduit::DataType::', 'conduit::DataArray<', 'conduit::DataAccessor<'))
    dom = Conv(inl, events=ev)
    d = ('fld', ('this',), 'm_dtype')
    n = 0
    for f in sorted(pr.funcs.values(), key=lambda f: (f.line, f.qn)):
        if not f.qn.startswith('conduit::DataArray<') or f.name not in ('set', 'fill') or not f.params:
            continue
        t = kind(f.cls[f.cls.index('<') + 1:f.cls.index('>')])
        if t is None:
            continue
        pt = clean(f.params[0][2])
        p0 = ('p', f.params[0][0], 0)
        single = f.name == 'set' and len(f.params) == 2 and kind(pt) is not None
        if single:
            sk, count, srcdesc = kind(f.params[1][2]), None, None
        elif f.name == 'fill' and len(f.params) == 1:
            sk, count = kind(pt), ('fld', d, 'm_num_ele')
        elif pt.endswith('*') and len(f.params) == 2:
            sk, count = kind(pt[:-1].strip()), ('p', f.params[1][0], 1)
        elif pt.startswith('std::initializer_list<') and len(f.params) == 1 and f.name == 'set':
            sk, count = kind(pt[len('std::initializer_list<'):].rstrip('>')), None
            if sk is not None:
                n += 1
                lists(ck, pr, f, inl, ev, t, sk, d, p0)
            continue
        elif pt.startswith('std::vector<') and len(f.params) == 1:
            sk, count = kind(pt[len('std::vector<'):].split(',')[0].rstrip('>')), ('call', 'size', (p0,), ())
        elif pt.startswith(('conduit::DataArray<', 'conduit::DataAccessor<')) and len(f.params) == 1:
            sk, count = kind(pt[pt.index('<') + 1:pt.index('>')]), ('fld', d, 'm_num_ele')
        else:
            continue
        if sk is None:
            continue
        n += 1
        ps, ip = paths(pr, f, dom)
        key = '%s::%s(%s)' % (f.cls, f.name, ', '.join(x[2] for x in f.params))
        if not any(p.ev for p in ps) and not any(unknown(x) and not mentions(x, lambda y: y[0] == 'it') for p in ps for x in p.facts):
            ck.bad(key, f.file, f.line, '%s: nothing is written' % key)
            continue
        for p in ps:
            if p.kind != 'return':
                continue
            st = [e for e in p.ev if e[0] == 'st']
            what = None
            if not st:
                if single or not any(mentions(tt, lambda y: y[0] == 'it') for tt in p.facts):
                    if p.ev or p.facts and any(unknown(x) and not mentions(x, lambda y: y[0] == 'it') for x in p.facts):
                        continue
                    what = 'nothing is written'
                else:
                    ck.ok(1)
                    continue
            elif len(st) > 1:
                what = 'elements are written more than once'
            else:
                _, ty, ptr, v, line = st[0]
                a = lin(ptr)
                zs, v = chain(v)
                if kind(ty) != t:
                    what = 'elements are written as %s' % ty
                elif not chain_ok(sk, zs + [t], t):
                    what = 'elements are converted through %s' % '/'.join(map(str, zs))
                elif single:
                    if a != addr(d, p0):
                        what = 'the element is written at %s' % show(canon(ptr))
                    elif v != ('p', f.params[1][0], 1):
                        what = None if unknown(v) else 'the element becomes %s' % show(v)
                else:
                    w = every(ip, p, a, d, count)
                    what = w and 'the array ' + w
                    i = loopvar(a, d)
                    if not what and i is not None:
                        if f.name == 'fill':
                            if v != p0 and not unknown(v):
                                what = 'elements become %s' % show(v)
                        elif v[0] == 'acc':
                            if strip(v[3]) != i or strip(v[2]) != p0:
                                what = 'element i becomes %s of the source' % show(v[3])
                        elif v[0] == 'ld':
                            if pt.endswith('*') or pt.startswith('std::vector<'):
                                w = lin(('op', '+', p0, ('op', '*', i, ip.szof(v[1]))))
                            else:
                                w = addr(('fld', p0, 'm_dtype'), i, p0)
                            if lin(data(v[2], p0)) != w:
                                what = 'element i is taken from %s' % show(canon(v[2]))
                            elif kind(v[1]) != sk:
                                what = 'source elements are read as %s' % v[1]
                        elif not unknown(v) or v[0] == 'it':
                            what = 'elements become %s' % show(v)
            if what:
                ck.bad(key, f.file, f.line, '%s: %s' % (key, what))
            else:
                ck.ok(1, key)
    ck.floor('element loops', n, 100)
    assigns(ck, pr)


def murky(t):
    """unresolved, other than by being a loop index"""
    return mentions(t, lambda x: x[0] in ('u', 'mut', 'lambda') or x[0] == 'call' and len(x) == 4 and x[3] != ())


def lists(ck, pr, f, inl, ev, t, sk, d, p0):
    """set from an initializer list: element i = (T) item i, up to the shorter of the two"""
    num = ('fld', d, 'm_num_ele')
    dom = Conv(inl, events=ev)
    dom.guards = True
    ps, ip = paths(pr, f, dom)
    key = '%s::%s(%s)' % (f.cls, f.name, ', '.join(x[2] for x in f.params))
    nm = lambda x: x[1].split('::')[-1] if x[0] == 'call' else None
    own = lambda x, m: nm(strip(x)) == m and len(strip(x)[2]) == 1 and strip(strip(x)[2][0]) == p0
    what = None if any(e[0] == 'st' for p in ps for e in p.ev) else 'nothing is written'

    def ends(tb, i, itr):
        """which of the two ends a fact is about: ('array'|'list'|'both'|None, not there yet)"""
        x, b = tb
        if x[0] != 'op':
            return None
        l, r = strip(x[2]), strip(x[3])
        if x[1] == '==':
            if r == i or r == itr:
                l, r = r, l
            if l == itr and own(r, 'end'):
                return 'list', not b
            if l == i and (canon(r) == num or own(r, 'size')):
                return ('array' if canon(r) == num else 'list'), not b
        if x[1] == '<' and l == itr and own(r, 'end'):
            return 'list', b
        if x[1] == '<' and l == i:
            if canon(r) == num:
                return 'array', b
            if own(r, 'size'):
                return 'list', b
            if r[0] == 'call' and r[1].startswith('std::min') and {canon(y) == num or own(y, 'size') for y in r[2]} == {True}:
                return 'both', b
        return None
    for p in ps:
        if p.kind != 'return' or what:
            continue
        st = [e for e in p.ev if e[0] == 'st']
        if not st:
            continue
        if len(st) > 1:
            what = 'elements are written more than once'
            break
        _, ty, ptr, v, line = st[0]
        a = lin(ptr)
        zs, v = chain(v)
        i = loopvar(a, d)
        itr = None
        if kind(ty) != t:
            what = 'elements are written as %s' % ty
        elif not chain_ok(sk, zs + [t], t):
            what = 'elements are converted through %s' % '/'.join(map(str, zs))
        elif i is None or a != addr(d, i):
            what = '?address' if any(unknown(y) for k in a for y in k) else 'elements are written at %s' % show(canon(ptr))
        elif i[0] != 'it':
            what = '?index' if unknown(i) else 'elements are written at a fixed index'
        elif not ip.counts_up(i):
            what = '?index' if not ip.starts.get(i) or any(unknown(x) and x[0] != 'op' for x in ip.starts[i]) else 'not every element from 0 is written'
        elif v[0] == 'ld':
            q = strip(v[2])
            if q[0] == 'it':
                itr = q
                vs = {strip(x) for x in ip.starts.get(q, ())}
                up = [x for x in vs if x[0] == 'op' and x[1] == '+' and strip(x[2]) == q and x[3] == ip.szof(v[1]) or nm(x) == 'operator++']
                if not (any(own(x, 'begin') for x in vs) and up and len(vs) == 2):
                    what = '?items' if any(unknown(x) and x[0] != 'op' for x in vs) else 'the items are not taken one after the other from the first'
            elif kind(v[1]) != sk:
                what = 'items are read as %s' % v[1]
        else:
            what = '?value' if unknown(v) else 'elements become %s' % show(v)
        if what:
            break
        for g in [e[1] for e in p.ev if e[0] == 'guard']:
            have = {ends(x, i, itr) for x in g}
            for x, b in p.facts.items():
                # the shorter of the two was chosen before
                if x[0] == 'op' and x[1] == '<' and {canon(strip(y)) == num for y in x[2:]} == {True, False} and any(own(y, 'size') for y in x[2:]):
                    short = 'array' if (canon(strip(x[2])) == num) == b else 'list'
                    if (short, True) in have:
                        have = have | {('both', True)}
            for side, msg in (('array', 'elements beyond the array are written'), ('list', 'items beyond the list are read')):
                if not have & {(side, True), ('both', True)}:
                    what = what or ('?bounds' if any(murky(x) and ends((x, b), i, itr) is None for x, b in g) else msg)
        have = {ends(x, i, itr) for x in p.facts.items()}
        if not what and not have & {('array', False), ('list', False), ('both', False)}:
            what = '?bounds' if any(murky(x) and ends((x, b), i, itr) is None for x, b in p.facts.items()) else 'the loop can end before the array or the list does'
    if what and what[0] == '?':
        ck.notes.append('%s: %s' % (key, what))
    elif what:
        ck.bad(key, f.file, f.line, '%s: %s' % (key, what))
    else:
        ck.ok(1, key)


def assigns(ck, pr):
    """operator= of arrays from lists and vectors is set"""
    def ev(ip, s, n, ref, obj, args, locs):
        if ref['qn'].startswith('conduit::DataArray<') and ref['name'] == 'set':
            return [(s.withdom(s.dom | {('set', strip(obj), tuple(strip(x) for x in args))}), ('u', 'void'))]
        return None
    n = 0
    for f in sorted(pr.funcs.values(), key=lambda f: (f.line, f.qn)):
        if not f.qn.startswith('conduit::DataArray<') or f.name != 'operator=' or len(f.params) != 1 or f.body is None or clean(f.params[0][2]).startswith('conduit::'):
            continue
        n += 1
        ps, ip = paths(pr, f, Conv(inliner(pr, ()), events=ev))
        p0 = ('p', f.params[0][0], 0)
        for p in ps:
            if p.kind != 'return' or p.facts or any(e[0] not in ('set',) for e in p.ev):
                continue
            key = '%s::operator=(%s)' % (f.cls, f.params[0][2])
            if {e[1:] for e in p.ev} != {(('this',), (p0,))}:
                ck.bad(key, f.file, f.line, '%s does not set the array to the values given' % key)
            else:
                ck.ok(1, key)
    ck.count('array assignments', n)
