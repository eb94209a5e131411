"""Parsers that build a node and its schema side by side: every schema child gets exactly one node, linked to it and to its parent."""
from summ import *
from loopcov import bare
import prog as P
import N01 as M

SC, ND = M.SC, M.ND


class GN(M.NS):
    cap = 6000


def gen(ck):
    pr = P.load(lambda r: r == 'conduit/conduit_generator.cpp')
    n = 0
    for f in sorted(pr.funcs.values(), key=lambda f: f.line):
        if f.body is None or not f.file.endswith('conduit_generator.cpp') or len(f.params) < 2 or 'conduit::Node *' not in f.params[0][2] or 'conduit::Schema *' not in f.params[1][2]:
            continue
        if not any(x.k == 'MCall' and x.d[0] and x.d[0]['name'] in ('append_node_ptr', 'set_schema_ptr') for x in f.body.walk()):
            continue
        n += 1
        one(ck, pr, f)
    ck.count('parser functions', n)


def one(ck, pr, f):
    N, S = ('p', f.params[0][0], 0), ('p', f.params[1][0], 1)

    def ev(ip, s, n, ref, obj, args, locs):
        q, m = ref['qn'], ref['name']
        V = ('u', 'void')
        if q.startswith(SC) and obj is not None and bare(obj) == S:
            if m in ('add_child', 'append', 'fetch', 'fetch_ptr') or m == 'operator[]' and not ref.get('const') and args and 'basic_string' in M.argty(n, ref):
                v = ('call', SC + 'newchild', (S,), ip.path + (n.id,))
                if any(e[0] == 'newc' for e in s.dom):
                    s = M.bad(s, 'a second schema child is made before the node of the first', n)
                return [(s.withdom(s.dom | {('newc', v, n.line)}), v)]
            if m in ('child', 'child_ptr'):
                c = [e for e in s.dom if e[0] == 'newc']
                return [(s, c[0][1] if c else ('call', q, (S, strip(args[0])), ()))]
            if m in ('set', 'reset', 'operator='):
                return [(s, V)]
        if q.startswith(ND) and obj is not None:
            o = bare(obj)
            if m == 'set_schema_ptr':
                return [(s.withdom(s.dom | {('sch', o, bare(args[0]))}), V)]
            if m == 'set_parent':
                return [(s.withdom(s.dom | {('par', o, bare(args[0]))}), V)]
            if m == 'append_node_ptr':
                c = bare(args[0])
                s2 = s.withdom(frozenset(e for e in s.dom if e[0] != 'newc') | {('push', o, c, n.line)})
                if o == N and not any(e[0] == 'newc' for e in s.dom):
                    s2 = M.bad(s2, 'a node is added without a new schema child', n)
                return [(s2, V)]
        # nothing else matters here
        g = pr.funcs.get(ref['usr'])
        if g is not None and g.body is not None and g.qn not in KNOWN and g.qn.startswith('conduit::') and not ref.get('ctor'):
            return None
        return [(s, ('call', q, tuple(bare(a) for a in args[:2]), ip.path + (n.id,)))]

    def inl(ref):
        g = pr.funcs.get(ref['usr'])
        return g is not None and g.body is not None and g.qn not in KNOWN and g.qn.startswith('conduit::') and not ref.get('ctor')
    key = f.qn.replace('conduit::', '')
    try:
        ps, ip = paths(pr, f, GN(inl, events=ev))
    except Exception as ex:
        ck.notes.append('%s: %s' % (f.qn, ex))
        return
    msgs, n = set(), 0
    for p in ps:
        for e in p.ev:
            if e[0] == 'BAD':
                msgs.add((e[1], e[2]))
        if p.kind != 'return':
            continue
        n += 1
        for e in p.ev:
            if e[0] == 'newc':
                msgs.add(('a schema child has no node', e[2]))
            if e[0] == 'push':
                o, c, line = e[1:]
                if ('new', c) not in p.ev:
                    continue
                sch = [x[2] for x in p.ev if x[0] == 'sch' and x[1] == c]
                par = [x[2] for x in p.ev if x[0] == 'par' and x[1] == c]
                if not sch:
                    msgs.add(('the new child node is not linked to its schema', line))
                elif any(not (y[0] == 'call' and y[1] == SC + 'newchild') and not unknown(y) for y in sch):
                    msgs.add(('the new child node is linked to another schema', line))
                if not par:
                    msgs.add(('the new child node has no parent', line))
                elif any(y != o for y in par):
                    msgs.add(('the new child node gets another parent', line))
                if o != N:
                    msgs.add(('the child node is added to another node', line)) if not unknown(o) else None
    for m, l in sorted(msgs):
        ck.bad('%s:%s' % (key, m[:50]), f.file, l, '%s: %s' % (f.qn, m))
    if not msgs and n:
        ck.ok(n, key)
        ck.count('parser paths', n)
