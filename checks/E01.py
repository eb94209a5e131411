"""E01: byte-order conversion reverses exactly the bytes of each element, once, exactly when the byte orders differ."""
from common import Check
import prog as P
from summ import *
from loopcov import covers
import T03

EN = 'conduit::Endianness::'
DTY = T03.DTY
MID = T03.MID
MEND = ('fld', DTY, 'm_endianness')
W = {'swap16': 2, 'swap32': 4, 'swap64': 8}


def run(tier):
    ck = Check('E01', 'other', 'swap16/32/64 store source byte n-1-i at destination byte i for every i; Node::endian_swap, for every stored type and every pair of byte orders, calls the swap of the element width on every element '
               'exactly when the orders differ, records the requested order, and visits every child of an object or list', tier)
    pr = P.load(lambda r: r in ('conduit/conduit_node.cpp', 'conduit/conduit_data_type.cpp', 'conduit/conduit_schema.cpp', 'conduit/conduit_endianness.cpp'))
    n = 0
    for f in pr.funcs.values():
        if f.qn.startswith(EN) and f.name in W:
            n += 1
            swap(ck, pr, f)
    ck.floor('swap routines', n, 3)
    node(ck, pr)
    return ck


def pr_has(ip, ref):
    f = ip.prog.funcs.get(ref['usr'])
    return f is not None and f.body is not None


def at(l, base):
    """constant byte offset of a linear address from base, or None"""
    l = dict(l)
    if l.pop((base,), 0) != 1:
        return None
    o = l.pop((), 0)
    return o if not l else None


class Bytes(Sum):
    """byte memory: dom = sorted tuple of (base, offset, byte value)"""
    def init(self):
        return ()

    def where(self, ip, loc, ty):
        """(base term, offset) of a location, in bytes"""
        t = loc[1] if loc[0] == '*' else loc
        if t[0] == 'deref':
            a = lin(t[1])
        elif t[0] == 'idx':
            b = t[1]
            a = lin(('op', '+', ('addr', b) if strip(b)[0] in ('fld', 'v') else b, ('op', '*', t[2], ip.szof(ty))))
        elif t[0] == 'fld':
            a = lin(('addr', t))
        else:
            return None
        k = [x for x in a if x]
        if len(k) != 1 or a[k[0]] != 1 or len(k[0]) != 1:
            return None
        b = k[0][0]
        while b[0] in ('addr', 'deref', '*') or b[0] == 'fld' and b[1][0] in ('v', 'fld', 'locaddr') and (b[2].startswith('v') or True):
            b = b[1]
            if not isinstance(b, tuple):
                return None
        return b, a.get((), 0)

    def width(self, ty):
        k = OFC.get(ty.replace('const ', '').replace('volatile ', '').strip())
        return WIDTH[k] if k else None

    def on_store(self, ip, s, n, loc, v):
        if loc[0] == 'v' or not n.c:
            return s
        ty = n.c[0].ty
        w = self.width(ty)
        p = self.where(ip, loc, ty)
        if p is None or w is None:
            return s.withdom(s.dom + (('?',),)) if ('?',) not in s.dom else s
        b, o = p
        d = {x[:2]: x for x in s.dom if x[0] != '?'}
        q = ('?',) in s.dom
        v = strip(v)
        for i in range(w):
            if v[0] == 'bytes' and len(v[1]) == w:
                by = v[1][i]
            elif v[0] == 'ld':
                p2 = self.ptr(v[2])
                by = ('byte', p2[0], p2[1] + i) if p2 else ('?',)
            else:
                by = ('?',)
            d[(b, o + i)] = (b, o + i, by)
        return s.withdom(tuple(sorted(d.values(), key=repr)) + ((('?',),) if q else ()))

    def on_call(self, ip, s, n, ref, obj, args, locs):
        if ref is None or not pr_has(ip, ref):
            # memory handed to code that is not analysed
            if any(a is not None for a in args) and ('?',) not in s.dom:
                return [(s.withdom(s.dom + (('?',),)), ('call', ref['qn'] if ref else '?', tuple(args), ip.path + (n.id,)))]
        return None

    def ptr(self, t):
        a = lin(t)
        k = [x for x in a if x]
        if len(k) != 1 or a[k[0]] != 1 or len(k[0]) != 1:
            return None
        return k[0][0], a.get((), 0)

    def on_load(self, ip, s, n, loc):
        w = self.width(n.ty)
        if loc[0] == 'v' or w is None:
            return None
        p = self.where(ip, loc, n.ty)
        if p is None:
            return None
        d = {x[:2]: x[2] for x in s.dom if x[0] != '?'}
        if any((p[0], p[1] + i) in d for i in range(w)) or n.k in ('Un', 'Index'):
            return [(s, ('bytes', tuple(d.get((p[0], p[1] + i), ('byte', p[0], p[1] + i)) for i in range(w))))]
        return None


def swap(ck, pr, f):
    n = W[f.name]
    ps, ip = paths(pr, f, Bytes(inliner(pr, (EN,))))
    src = ('p', f.params[0][0], 0)
    dst = ('p', f.params[-1][0], len(f.params) - 1)
    for p in ps:
        if p.kind == 'throw':
            continue
        d = {x[:2]: x[2] for x in p.ev if x[0] != '?'}
        for i in range(n):
            got = d.get((dst, i))
            if got is None and ('?',) in p.ev or got == ('?',):
                ck.notes.append('%s: byte %d not resolved' % (f.qn, i))
                continue
            if got is None and dst == src and not d or got is None and not d:
                ck.notes.append('%s: no byte stores seen' % f.qn)
                continue
            if got != ('byte', src, n - 1 - i):
                ck.bad('%s/%d:%d' % (f.name, len(f.params), i), f.file, f.line, '%s: destination byte %d gets %s, expected source byte %d' %
                       (f.qn, i, 'nothing' if got is None else 'byte %s' % (got[2] if got[0] == 'byte' else '?'), n - 1 - i))
            else:
                ck.ok(1, '%s: byte %d <- byte %d' % (f.qn, i, n - 1 - i))
        extra = [k for k in d if k[0] == dst and not 0 <= k[1] < n]
        if extra:
            ck.bad('%s/%d:extra' % (f.name, len(f.params)), f.file, f.line, '%s writes byte %d' % (f.qn, extra[0][1]))


def node(ck, pr):
    fs = [f for f in pr.funcs.values() if f.qn == 'conduit::Node::endian_swap']
    ck.floor('endian_swap routines', len(fs), 1)

    class D(Sum):
        def init(self):
            return frozenset()

        def on_range(self, ip, s, n, v, more):
            return s if more else s.withdom(s.dom | {('ranged', v)})

    def ev(ip, s, n, ref, obj, args, locs):
        q = ref['qn']
        if q.startswith(EN) and ref['name'] in W:
            return [(s.withdom(s.dom | {('swap', W[ref['name']], tuple(args), n.line)}), ('u', 'void'))]
        if q == 'conduit::DataType::set_endianness':
            return [(s.withdom(s.dom | {('set', strip(obj), args[0], n.line)}), ('u', 'void'))]
        if q == 'conduit::Node::endian_swap':
            return [(s.withdom(s.dom | {('rec', strip(obj), args[0], n.line)}), ('u', 'void'))]
        if q == EN + 'machine_default':
            return [(s, ('call', q, (), ()))]
        if q in ('conduit::Node::child', 'conduit::Node::child_ptr', 'conduit::Node::operator[]'):
            return [(s, ('call', 'conduit::Node::child', (strip(obj), args[0]), ()))]
        if q.startswith('std::vector<conduit::Node *') and ref['name'] in ('operator[]', 'at'):
            return [(s, ('call', 'conduit::Node::child', (('this',), args[0]), ()))]
        return None
    dom = D(inliner(pr, ('conduit::DataType::', 'conduit::Node::element_ptr', 'conduit::Node::dtype', 'conduit::Schema::dtype'), skip=('conduit::DataType::set_endianness',)), events=ev,
            pure=lambda r: r['qn'].split('::')[-1] in ('number_of_children', 'size', 'children_size'))
    f = fs[0]
    ps, ip = paths(pr, f, dom)
    arg = ('p', f.params[0][0], 0)
    MD = ('call', EN + 'machine_default', (), ())
    e = pr.enums.get('conduit::Endianness::EndianessID') or {}
    ids = {'DEFAULT': 0, 'BIG': 1, 'LITTLE': 2}
    nn = ('fld', DTY, 'm_num_ele')
    for k in KIND.values():
        if k in ('empty',):
            continue
        for sn, sv in ids.items():
            for dn, dv in ids.items():
                for mach in ('BIG', 'LITTLE'):
                    a = {MID: ID[k], MEND: sv, arg: dv, MD: ids[mach]}
                    S, Dn = (mach if sn == 'DEFAULT' else sn), (mach if dn == 'DEFAULT' else dn)
                    q = [p for p in under(ps, a) if p.kind == 'return']
                    key = 'endian_swap:%s:%s->%s on %s' % (k, sn, dn, mach)
                    why = None
                    if not q:
                        ck.notes.append(key + ': no returning path')
                        continue
                    need = 'rec' if k in ('object', 'list') else 'swap' if S != Dn and WIDTH[k] > 1 else None
                    if need and not any(e[0] == need for p in q for e in p.ev):
                        why = '?: %s' % need if any(e[0] == '?' for p in q for e in p.ev) else ('the children are not visited' if need == 'rec' else 'no element is swapped')
                    for p in q:
                        why = why or (one(ck, ip, p, k, S != Dn, ids[Dn], a, nn))
                    if why and why[0] == '?':
                        ck.notes.append(key + why)
                    elif why:
                        ck.bad(key, f.file, f.line, '%s data, byte order %s to %s on a %s-endian machine: %s' % (k, sn, dn, mach.lower(), why))
                    else:
                        ck.ok(1, key)


def one(ck, ip, p, k, differ, want, a, nn):
    sw = [e for e in p.ev if e[0] == 'swap']
    st = [e for e in p.ev if e[0] == 'set']
    rec = [e for e in p.ev if e[0] == 'rec']
    if k in ('object', 'list'):
        if sw:
            return 'bytes of an %s are swapped' % k
        if not rec:
            if any(e[0] == 'ranged' and mentions(e[1], lambda x: 'children' in str(x)) for e in p.ev):
                return None
            if any(mentions(t, lambda x: x[0] in ('it', 'call') and 'children' in str(x) or x[0] == 'call' and 'has_next' in x[1]) for t in p.facts):
                return None
            return '?: children' if any(unknown(t) for t in p.facts) else 'the children are not visited'
        if len(rec) > 1:
            return '?: several recursions'
        o, v = rec[0][1], rec[0][2]
        if val(v, a) is None and strip(v)[0] != 'p' or val(v, a) is not None and val(v, a) not in (a.get(strip(v)), want):
            return 'the children are converted to another byte order'
        while o[0] in ('deref', 'addr'):
            o = strip(o[1])
        if o[0] == 'call' and o[1] == 'conduit::Node::child':
            w = covers(ip, p, o[2][1], lambda b: b[0] == 'call' and b[1].split('::')[-1] in ('number_of_children', 'size', 'children_size'))
            return w and (w if w[0] == '?' else 'children: ' + w)
        return None if unknown(o) else '?: %s' % show(o)
    if rec:
        return 'a leaf is treated as having children'
    if len({val(e[2], a) for e in st}) == 1 and st:
        if val(st[0][2], a) != want:
            return 'the byte order recorded is not the one asked for' if val(st[0][2], a) is not None else '?: recorded order'
    elif not st:
        fl = {x: v for x, v in p.env.items() if x == ('*', MEND)}
        if not fl:
            if not differ and k not in ('object', 'list'):
                if not differ and a[MEND] != 0 or True:
                    return None if a[MEND] == want else 'the byte order asked for is not recorded' if differ or a[MEND] == 0 and False else None
            return 'the byte order asked for is not recorded'
        v = val(list(fl.values())[0], a)
        if v is not None and v != want:
            return 'the byte order recorded is not the one asked for'
    w = WIDTH[k]
    if not differ or w == 1:
        return 'elements are swapped although %s' % ('they are single bytes' if differ else 'the byte orders agree') if [e for e in sw if e[1] > 1] else None
    if not sw:
        # zero elements: the loop was not entered
        if any(mentions(t, lambda x: x == nn) for t in p.facts):
            return None
        return 'no element is swapped'
    if len(sw) > 1:
        return 'elements are swapped more than once'
    _, sww, args, line = sw[0]
    if sww != w:
        return 'elements of %d bytes are swapped as %d-byte words' % (w, sww)
    if len(args) == 2 and lin(args[0]) != lin(args[1]):
        return 'elements are swapped into another place'
    al = lin(args[0])
    i = T03.loopvar(al, DTY)
    if i is None or al != T03.addr(DTY, i):
        return '?: address' if any(unknown(y) and not (y[0] == 'it' and ip.counts_up(y, ('c', 0))) for kk in al for y in kk) else 'swaps at %s, not at the address of an element' % show(canon(args[0]))
    return covers(ip, p, i, nn)
