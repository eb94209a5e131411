"""T02: typed reads. Each Node::as_* yields the element(s) stored, as the stored type,
only when the stored type is the one asked for; otherwise the empty value."""
import re
from common import Check
import prog as P
from summ import *

ND = 'conduit::Node::'
DTY = ('fld', ('fld', ('this',), 'm_schema'), 'm_dtype')
MID = ('fld', DTY, 'm_id')
HERE = {(('fld', ('this',), 'm_data'),): 1, (('fld', DTY, 'm_offset'),): 1}
RX = re.compile(r'^as_(.+?)(_ptr|_array|_accessor)?$')
OP = re.compile(r'operator (const )?(.*)$')


def empty(v):
    v = strip(v)
    if v[0] == 'c':
        return not v[1]
    if v[0] == 'call' and not v[2] and v[1].startswith(('conduit::DataArray', 'conduit::DataAccessor')):
        return True
    return v[0] == 'list' and len(v) == 1


def clean(ty):
    return ty.replace('const ', '').strip()


def run(tier):
    ck = Check('T02', 'other', 'for every as_* accessor and every type id: on the paths consistent with that id the result is the stored element(s) at data + offset, read as the stored type, '
               'if the id is the one asked for, and the empty value otherwise; conversion operators forward to the accessor of their own type', tier)
    pr = P.load(lambda r: r in ('conduit/conduit_node.cpp', 'conduit/conduit_data_type.cpp', 'conduit/conduit_schema.cpp', 'conduit/conduit_data_array.cpp', 'conduit/conduit_data_accessor.cpp'))
    ids = {k: i for i, k in KIND.items()}
    dom = Sum(inliner(pr, ('conduit::DataType::', 'conduit::Node::element_ptr', 'conduit::Node::dtype', 'conduit::Schema::dtype', 'conduit::Node::as_', 'conduit::Node::data_ptr'),
                      skip=('conduit::DataType::id_to_name',)))
    n = 0
    for f in sorted(pr.funcs.values(), key=lambda f: f.line):
        if f.cls != 'conduit::Node' or f.params or not f.name.startswith('as_'):
            continue
        m = RX.match(f.name)
        nm, shape = m.group(1), m.group(2) or ''
        if nm in ('char8_str', 'string'):
            k, shape = 'char8_str', '_ptr'
        elif nm in NAMES:
            k = NAMES[nm]
        else:
            continue
        n += 1
        ps, ip = paths(pr, f, dom)
        ck.count('paths', len(ps))
        for kk in KIND.values():
            for p in under(ps, {MID: ids[kk]}):
                if p.kind != 'return':
                    continue
                line = p.node.line if p.node else f.line
                what = None
                v = p.val
                if kk != k and shape != '_accessor':
                    if not empty(v):
                        if unknown(strip(v)) and not strip(v)[1:2] and True:
                            ck.notes.append('%s: value for %s not resolved' % (f.qn, kk))
                            continue
                        what = 'a node of type %s is read through %s as %s' % (kk, f.name, show(canon(v)))
                else:
                    what = right(v, k, shape, nm)
                if what:
                    ck.bad('%s:%s:%s' % (f.name, 'const' if f.ref.get('const') else '', kk), f.file, line, '%s: %s' % (f.qn, what))
                else:
                    ck.ok(1, '%s on %s' % (f.name, kk))
    ck.floor('accessors', n, 100)
    # conversion operators of Node::Value / Node::ConstValue
    dom2 = Sum(inliner(pr, ()), pure=lambda r: r['qn'].startswith((ND + 'as_', ND + 'to_')))
    CO = ('fld', ('this',), 'm_coerse')
    nv = 0
    for f in pr.funcs.values():
        if f.cls not in ('conduit::Node::Value', 'conduit::Node::ConstValue') or not f.name.startswith('operator '):
            continue
        nv += 1
        for p in paths(pr, f, dom2)[0]:
            if p.kind != 'return':
                continue
            v = strip(p.val)
            if v[0] != 'call' or not v[1].startswith((ND + 'as_', ND + 'to_')):
                ck.notes.append('%s %s: not a forward to an accessor' % (f.cls, f.name))
                continue
            g = [x for x in pr.get(v[1]) if same_type(x.ret, f.ret)]
            co = p.facts.get(CO)
            if not g or p.val[0] == 'cast' and not same_type(p.val[1], f.ret):
                ck.bad('value:%s:%s' % (f.cls, f.name), f.file, f.line, '%s::%s yields %s, whose type is not the one asked for' % (f.cls, f.name, show(v)))
            elif strip(v[2][0]) not in (('deref', ('fld', ('this',), 'm_node')), ('fld', ('this',), 'm_node')):
                ck.bad('value:%s:%s' % (f.cls, f.name), f.file, f.line, '%s::%s reads another node' % (f.cls, f.name))
            elif co is not None and v[1].startswith(ND + 'to_') != co or co is None and v[1].startswith(ND + 'to_'):
                ck.bad('value:%s:%s' % (f.cls, f.name), f.file, f.line, '%s::%s: conversion instead of a typed read, or the reverse' % (f.cls, f.name))
            else:
                ck.ok(1)
    ck.floor('value operators', nv, 40)
    elements(ck, pr)
    return ck


def same_type(a, b):
    a, b = clean(a), clean(b)
    return a == b or OFC.get(a) is not None and OFC.get(a) == OFC.get(b)


def right(v, k, shape, nm):
    ct = CTYPE[k]
    s = strip(v)
    alt = {ct, nm.replace('_', ' ').replace('signed long', 'long').replace('unlong', 'unsigned long').replace('signed int', 'int').replace('signed short', 'short')}
    if k == 'int8':
        alt |= {'char', 'signed char'}
    alt |= {t for t, kk in OFC.items() if kk == k}
    if shape in ('_array', '_accessor'):
        cls = 'conduit::DataArray<' if shape == '_array' else 'conduit::DataAccessor<'
        if s[0] != 'call' or not s[1].startswith(cls):
            return None if unknown(s) else 'the result is %s' % show(canon(s))
        t = s[1][len(cls):s[1].index('>')]
        if t not in alt:
            return 'the element type of the result is %s, expected %s' % (t, ct)
        if len(s[2]) < 2 or strip(s[2][0]) != ('fld', ('this',), 'm_data') or strip(s[2][1]) != DTY:
            return 'the array is not built from the data and descriptor of the node: (%s)' % ', '.join(show(canon(x)) for x in s[2])
        return None
    if shape == '_ptr':
        if lin(v) != HERE:
            return None if unknown(s) else 'the pointer is %s, not the address of the first element' % show(canon(v))
        return None
    if s[0] != 'ld':
        return None if unknown(s) else 'the result is %s, not the stored element' % show(canon(v))
    if clean(s[1]) not in alt:
        return 'the element is read as %s, expected %s' % (s[1], ct)
    c = v
    while c[0] == 'cast':
        if c[1] not in alt:
            return 'the element passes through %s' % c[1]
        c = c[2]
    if lin(s[2]) != HERE:
        return 'the element is read at %s' % show(canon(s[2]))
    return None


def elements(ck, pr):
    """element access of DataArray / DataAccessor: data + offset + stride * index"""
    dom = Sum(inliner(pr, ('conduit::DataType::', 'conduit::DataArray<', 'conduit::DataAccessor<')))
    n = 0
    for f in pr.funcs.values():
        if not f.qn.startswith(('conduit::DataArray<', 'conduit::DataAccessor<')) or f.name not in ('element_ptr', 'element', 'operator[]') or len(f.params) != 1:
            continue
        t = f.cls[f.cls.index('<') + 1:f.cls.index('>')]
        d = ('fld', ('this',), 'm_dtype')
        i = ('p', f.params[0][0], 0)
        want = {(('fld', ('this',), 'm_data'),): 1, (('fld', d, 'm_offset'),): 1, tuple(sorted((('fld', d, 'm_stride'), i), key=repr)): 1}
        acc = f.qn.startswith('conduit::DataAccessor<')
        ps, ip = paths(pr, f, dom)
        n += 1
        for p in ps:
            if p.kind != 'return':
                continue
            v = p.val
            if f.name == 'element_ptr':
                a = lin(v)
            elif acc:
                s = strip(v)
                if s[0] != 'ld':
                    continue
                a = lin(s[2])
            else:
                s = strip(v)
                if v[0] == 'ref':
                    s = v[1][1]
                    a = lin(s[1]) if s[0] == 'deref' else None
                else:
                    a = lin(s[2]) if s[0] == 'ld' else None
                if a is None:
                    ck.notes.append('%s: address not resolved' % f.qn)
                    continue
            if a != want:
                if any(unknown(x) for k in a for x in k):
                    ck.notes.append('%s: address not resolved' % f.qn)
                    continue
                ck.bad('address:%s::%s' % (f.cls, f.name), f.file, f.line, '%s addresses element %s at %s' % (f.qn, f.params[0][0], show(('lin', tuple(sorted(a.items(), key=repr))))))
            else:
                ck.ok(1)
    ck.floor('element accessors', n, 20)
    # views: construction, copying and assignment refer to the same elements
    def ev(ip, s, n, ref, obj, args, locs):
        if ref['qn'] in ('conduit::DataType::operator=', 'conduit::DataType::set') and len(args) == 1:
            return [(s.withdom(tuple(s.dom) + (('dt=', obj, args[0]),)), obj)]
        return None
    dom = Sum(inliner(pr, ('conduit::DataArray<', 'conduit::DataAccessor<')), events=ev)
    m = 0
    for f in sorted(pr.funcs.values(), key=lambda f: (f.line, f.qn)):
        if not f.qn.startswith(('conduit::DataArray<', 'conduit::DataAccessor<')) or f.flags.get('defaulted') or f.body is None:
            continue
        short = f.cls.split('<')[0].split('::')[-1]
        cls = f.name in (short, f.cls.split('::')[-1])
        if not cls and f.name != 'operator=' or not f.params:
            continue
        p0 = ('p', f.params[0][0], 0)
        if len(f.params) == 1 and clean(f.params[0][2]).rstrip('& ') == f.cls:
            want = {x: ('fld', p0, x) for x in ('m_data', 'm_dtype')}
        elif cls and len(f.params) == 2:
            want = {'m_data': p0, 'm_dtype': ('p', f.params[1][0], 1)}
        else:
            continue
        m += 1
        ps, ip = paths(pr, f, dom)
        for p in ps:
            if p.kind != 'return':
                continue
            if f.name == 'operator=' and any(b and x[0] == 'op' and x[1] == '==' and mentions(x, lambda y: y == ('this',)) and mentions(x, lambda y: y == p0) and not mentions(x, lambda y: y[0] == 'fld') for x, b in p.facts.items()):
                continue
            got = dict(p.fields())
            for e in p.ev:
                if e[0] == 'dt=' and canon(e[1]) == ('fld', ('this',), 'm_dtype'):
                    got['m_dtype'] = e[2]
            for x, w in want.items():
                g = strip(canon(got[x])) if x in got else None
                while g is not None and g[0] == 'call' and len(g[2]) == 1 and g[1].startswith('conduit::DataType::'):
                    g = strip(g[2][0])
                if g == w or g is not None and unknown(g) or g is not None and g[0] in ('call', 'obj', 'new'):
                    ck.ok(1)
                elif any(unknown(y) for y in p.facts):
                    ck.notes.append('%s: %s not resolved' % (f.qn, x))
                else:
                    ck.bad('view:%s::%s:%s' % (f.cls, f.name, x), f.file, f.line, '%s(%s): %s becomes %s' % (f.qn, f.params[0][2], x, 'nothing' if g is None else show(g)))
    ck.counts['view constructors and assignments'] = m
