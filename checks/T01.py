"""T01: the type tables of DataType agree with each other and with the C types.

Every table function is summarised path by path; for every type id (or name) the
paths consistent with it must yield the value the type system prescribes."""
from common import Check
import prog as P
from summ import *

DT = 'conduit::DataType::'
EN = 'conduit::Endianness::'
MID = ('fld', ('this',), 'm_id')
MEND = ('fld', ('this',), 'm_endianness')
FIELDS = ('m_id', 'm_num_ele', 'm_offset', 'm_stride', 'm_ele_bytes', 'm_endianness')
CN = {'char': 'int8', 'short': 'int16', 'int': 'int32', 'long': 'int64', 'long long': 'int64', 'float': 'float32', 'double': 'float64', 'char8_str': 'char8_str'}
CN.update({'signed ' + k: CN[k] for k in ('char', 'short', 'int', 'long', 'long long')})
CN.update({'unsigned ' + k: 'u' + CN[k] for k in ('char', 'short', 'int', 'long', 'long long')})
GROUP = {'number': NUM, 'integer': [k for k in NUM if k[0] != 'f'], 'signed_integer': [k for k in NUM if k[0] == 'i'],
         'unsigned_integer': [k for k in NUM if k[0] == 'u'], 'floating_point': ['float32', 'float64'], 'string': ['char8_str'], 'long_double': []}


class T:
    def __init__(self, ck, pr):
        self.ck, self.pr = ck, pr
        self.dom = Sum(inliner(pr, (DT, EN)))
        self.cache = {}

    def ps(self, f):
        if f.usr not in self.cache:
            ps, ip = paths(self.pr, f, self.dom)
            self.cache[f.usr] = ps
            self.ck.count('paths', len(ps))
        return self.cache[f.usr]

    def table(self, f, term, cases, what):
        """under term == key the function must return the expected value"""
        ps = self.ps(f)
        for key, want in cases:
            for p in under(ps, {term: key}):
                if p.kind != 'return' or p.val is None:
                    continue
                v = val(p.val, {term: key})
                got = canon(p.val) if v is None else ('c', v)
                if got != want and not same(got, want):
                    if v is None and unknown(got):
                        self.ck.notes.append('%s(%s): value not resolved' % (f.qn, key))
                        continue
                    self.ck.bad('%s:%s' % (f.qn, key), f.file, p.node.line if p.node else f.line,
                                '%s: for %s %s the result is %s, expected %s' % (f.qn, what, key, show(got), show(want)))
                else:
                    self.ck.ok(1, '%s: %s %s -> %s' % (f.qn, what, key, show(want)))


def same(got, want):
    return got[0] == 'c' and want[0] == 'c' and got[1] == want[1]


def dtval(v):
    """arguments of a DataType construction"""
    v = strip(v)
    if v[0] == 'call' and v[1] == DT + 'DataType':
        return [canon(x) for x in v[2]]
    return None


def run(tier):
    ck = Check('T01', 'other', 'each DataType/Endianness table function, summarised path by path, yields for every type id, name and endianness the value prescribed by the type system; '
               'constructors, set, assignment and factories carry every descriptor field over unchanged', tier)
    pr = P.load(lambda r: r in ('conduit/conduit_data_type.cpp', 'conduit/conduit_endianness.cpp'))
    t = T(ck, pr)
    en = pr.enums.get('conduit::DataType::TypeID') or next((e for q, e in pr.enums.items() if 'INT8_ID' in e and q.startswith('conduit::DataType')), None)
    if not en:
        raise P.ToolError('type id enumeration not found')
    idof = {}
    for k in KIND.values():
        c = k.upper() + '_ID'
        if c not in en:
            raise P.ToolError('type id %s not found' % c)
        idof[k] = en[c]
    if len(set(idof.values())) != len(idof):
        ck.bad('ids-distinct', pr.one(DT + 'id_to_name').file, 0, 'type ids are not pairwise distinct')
    ee = next((e for q, e in pr.enums.items() if q.startswith('conduit::Endianness') and 'BIG_ID' in e), None)
    kinds = list(idof)

    def first(qn, pty):
        return [f for f in pr.get(qn) if len(f.params) >= 1 and (('basic_string' in f.params[0][2]) == (pty == 'str'))]
    n = 0
    for f in first(DT + 'default_bytes', 'int'):
        t.table(f, ('p', f.params[0][0], 0), [(idof[k], ('c', WIDTH[k])) for k in kinds], 'type id')
        n += 1
    for f in first(DT + 'default_bytes', 'str'):
        t.table(f, ('p', f.params[0][0], 0), [(k, ('c', WIDTH[k])) for k in kinds], 'type name')
        n += 1
    for f in pr.get(DT + 'id_to_name'):
        t.table(f, ('p', f.params[0][0], 0), [(idof[k], ('c', k)) for k in kinds], 'type id')
        n += 1
    for f in pr.get(DT + 'name_to_id'):
        t.table(f, ('p', f.params[0][0], 0), [(k, ('c', idof[k])) for k in kinds] + [('no such type', ('c', idof['empty']))], 'type name')
        n += 1
    for f in pr.get(DT + 'c_type_name_to_id'):
        t.table(f, ('p', f.params[0][0], 0), [(k, ('c', idof[CN[k]])) for k in CN] + [('no such type', ('c', idof['empty']))], 'C type name')
        n += 1
    # predicates
    np = 0
    for f in pr.funcs.values():
        if not f.qn.startswith(DT + 'is_') or f.params:
            continue
        nm = f.name[3:]
        g = GROUP.get(nm) or ([NAMES[nm]] if nm in NAMES else [nm] if nm in idof else [] if nm == 'long_double' else None)
        if g is None:
            continue
        np += 1
        t.table(f, MID, [(idof[k], ('c', k in g)) for k in kinds], 'type id')
    ck.floor('predicates', np, 20)
    ck.floor('tables', n, 5)
    # factories
    nf = 0
    for f in pr.funcs.values():
        if not f.qn.startswith(DT) or not f.ref.get('static') or f.ret != 'conduit::DataType':
            continue
        nm = f.name[2:] if f.name.startswith('c_') else f.name
        k = NAMES.get(nm) or (nm if nm in idof else None)
        if k is None or len(f.params) not in (0, 5):
            continue
        nf += 1
        want = [('c', idof[k])] + [('p', x[0], i) for i, x in enumerate(f.params)]
        for p in t.ps(f):
            if p.kind != 'return':
                continue
            a = dtval(p.val)
            if a is None:
                ck.notes.append('%s: result not resolved' % f.qn)
                continue
            if a[:len(want)] != want:
                ck.bad('factory:' + f.qn, f.file, f.line, '%s builds DataType(%s) instead of DataType(%s)' % (f.qn, ', '.join(map(show, a)), ', '.join(map(show, want))))
            else:
                ck.ok(1)
    ck.floor('factories', nf, 10)
    # default descriptor per id: one element, packed, native endianness
    for f in pr.get(DT + 'default_dtype'):
        s = 'basic_string' in f.params[0][2]
        for k in kinds:
            for p in under(t.ps(f), {('p', f.params[0][0], 0): k if s else idof[k]}):
                if p.kind != 'return':
                    continue
                a = dtval(p.val)
                if a is None:
                    ck.notes.append('%s(%s): result not resolved' % (f.qn, k))
                    continue
                kk = 'empty' if k == 'char8_str' else k
                w = ('c', WIDTH[kk])
                if a[0] != ('c', idof[kk]) or len(a) == 6 and a[1:] != [('c', 1), ('c', 0), w, w, ('c', 0)]:
                    ck.bad('default:%s:%s' % (f.qn, k), f.file, p.node.line if p.node else f.line, '%s: default descriptor of %s is DataType(%s)' % (f.qn, k, ', '.join(map(show, a))))
                else:
                    ck.ok(1)
    # descriptor fields are carried over
    nc = 0
    for f in pr.funcs.values():
        ctor = f.qn == DT + 'DataType'
        if not ctor and f.qn not in (DT + 'set', DT + 'operator=', DT + 'reset'):
            continue
        if ctor and f.flags.get('defaulted'):
            continue
        ps = f.params
        if not ps:
            want = {'m_id': ('c', idof['empty']), 'm_num_ele': ('c', 0), 'm_offset': ('c', 0), 'm_stride': ('c', 0), 'm_ele_bytes': ('c', 0), 'm_endianness': ('c', ee['DEFAULT_ID'] if ee else 0)}
        elif len(ps) == 1 and 'DataType' in ps[0][2]:
            want = {x: ('fld', ('p', ps[0][0], 0), x) for x in FIELDS}
        elif len(ps) == 6:
            want = {x: ('p', ps[i][0], i) for i, x in enumerate(FIELDS)}
        elif len(ps) == 2:
            want = {'m_id': ('p', ps[0][0], 0), 'm_num_ele': ('p', ps[1][0], 1), 'm_offset': ('c', 0), 'm_endianness': ('c', ee['DEFAULT_ID'] if ee else 0)}
        else:
            continue
        nc += 1
        byname = ps and 'basic_string' in ps[0][2]
        for p in t.ps(f):
            if p.kind != 'return':
                continue
            got = p.fields()
            for x, w in want.items():
                g = canon(got[x]) if x in got else None
                if x == 'm_id' and byname:
                    g2 = [k for k in kinds if feasible(p, {('p', ps[0][0], 0): k})]
                    if len(g2) == 1 and g != ('c', idof[g2[0]]):
                        ck.bad('fields:%s:%s' % (f.qn, x), f.file, f.line, '%s(%s, ...): the id becomes %s' % (f.qn, g2[0], show(g)))
                    continue
                if g is None and mentions(p.val or (), lambda y: False):
                    continue
                if g != w and not (g is not None and unknown(g)):
                    ck.bad('fields:%s:%s' % (f.qn, x), f.file, f.line, '%s: %s becomes %s instead of %s' % (f.qn, x, 'nothing' if g is None else show(g), show(w)))
                else:
                    ck.ok(1)
            if len(ps) == 2:
                for k in kinds:
                    if feasible(p, {('p', ps[0][0], 0): idof[k]}):
                        for x in ('m_stride', 'm_ele_bytes'):
                            g = canon(got.get(x, ('c', None)))
                            if g != ('c', WIDTH[k]) and not unknown(g):
                                ck.bad('fields:%s:%s' % (f.qn, x), f.file, f.line, '%s: %s of %s becomes %s' % (f.qn, x, k, show(g)))
                            else:
                                ck.ok(1)
    ck.floor('constructors and setters', nc, 5)
    # endianness
    if ee:
        isl = lambda e, m: (e == 'LITTLE_ID') or e == 'DEFAULT_ID' and m
        isb = lambda e, m: (e == 'BIG_ID') or e == 'DEFAULT_ID' and not m
        want = {'is_little_endian': isl, 'is_big_endian': isb, 'endianness_matches_machine': lambda e, m: e == 'DEFAULT_ID' or (e == 'LITTLE_ID') == m}
        dom = Sum(inliner(pr, (DT,), skip=()), pure=lambda r: r['qn'].startswith(EN))
        LIT, BIG, MD = (('call', EN + x, (), ()) for x in ('machine_is_little_endian', 'machine_is_big_endian', 'machine_default'))
        for nm, w in want.items():
            for f in pr.get(DT + nm):
                ps, ip = paths(pr, f, dom)
                for e in ('DEFAULT_ID', 'LITTLE_ID', 'BIG_ID'):
                    for m in (True, False):
                        a = {MEND: ee[e], LIT: m, BIG: not m, MD: ee['LITTLE_ID' if m else 'BIG_ID']}
                        for p in under(ps, a):
                            v = val(p.val, a)
                            if v is not None and bool(v) != w(e, m):
                                ck.bad('endian:%s:%s' % (nm, e), f.file, f.line, '%s: %s with %s on a %s-endian machine' % (f.qn, bool(v), e, 'little' if m else 'big'))
                            else:
                                ck.ok(1)
        nme = {'DEFAULT_ID': 'default', 'BIG_ID': 'big', 'LITTLE_ID': 'little'}
        for f in pr.get(EN + 'id_to_name'):
            t.table(f, ('p', f.params[0][0], 0), [(ee[k], ('c', v)) for k, v in nme.items()], 'endianness')
        for f in pr.get(EN + 'name_to_id'):
            t.table(f, ('p', f.params[0][0], 0), [(v, ('c', ee[k])) for k, v in nme.items()], 'endianness name')
        for nm, w in (('machine_is_little_endian', 'LITTLE_ID'), ('machine_is_big_endian', 'BIG_ID')):
            for f in pr.get(EN + nm):
                ps, ip = paths(pr, f, Sum(None, pure=lambda r: r['qn'].startswith(EN)))
                for m in ('LITTLE_ID', 'BIG_ID'):
                    for p in under(ps, {MD: ee[m]}):
                        v = val(p.val, {MD: ee[m]})
                        if v is not None and bool(v) != (m == w):
                            ck.bad('endian:' + nm, f.file, f.line, '%s is %s on a %s machine' % (f.qn, bool(v), m))
                        else:
                            ck.ok(1)
    return ck
