"""T05: setters store what they are given (C++ API)."""
from common import Check
import prog as P
from summ import *
from effects import *

FILES = ('conduit/conduit_node.cpp', 'conduit/conduit_data_type.cpp', 'conduit/conduit_schema.cpp', 'conduit/conduit_data_array.cpp')


def domain(pr, extra=()):
    pre = ('conduit::Node::set', 'conduit::Node::operator=', 'conduit::Node::element_ptr', 'conduit::Node::dtype', 'conduit::Schema::dtype', 'conduit::DataType::',
           'conduit::DataArray', 'conduit::cpp_node', 'conduit::Node::schema', 'conduit::Node::data_ptr') + tuple(extra)
    inl = inliner(pr, pre)

    def f(ref):
        q = ref['qn']
        if q in PRIM or q.startswith(('conduit::Schema::spanned_bytes', 'conduit::Schema::total', 'conduit::DataType::spanned')):
            return False
        if inl(ref):
            return True
        g = pr.funcs.get(ref['usr'])
        return g is not None and newfn(pr, g)
    return Eff(f, pure=lambda ref: ref['qn'].startswith(('conduit::Schema::spanned_bytes', 'conduit::Schema::total')))


def setters(ck, pr, dom, fs, capi):
    cnt = {}
    for f in fs:
        w = prescribe(f, capi)
        if w is None:
            if f.name.startswith(('set', 'conduit_node_set')):
                ck.notes.append('not a setter of the families: %s' % f.name)
            continue
        if not capi and f.name == 'set_node':
            continue
        key = '%s(%s)' % (f.name, ','.join(tyclean(t).split(', ')[0] for _, _, t in f.params))
        if getattr(w, 'name_kind', None) and w.name_kind != w.kind:
            ck.bad('name:' + key, f.file, f.line, '%s takes %s' % (f.name, f.params[-1][2]))
            continue
        try:
            ps, ip = paths(pr, f, dom)
        except P.ToolError as e:
            ck.notes.append('%s: %s' % (key, e))
            continue
        done = False
        for p in ps:
            if p.kind == 'throw':
                continue
            done = True
            why = judge(w, p)
            if why is None:
                ck.ok(1, '%s: %s of %s' % (key, 'external description' if w.ext else 'copy', w.form))
            elif vague(p):
                ck.notes.append('%s: unresolved (%s)' % (key, why))
            else:
                ck.bad('set:' + key, f.file, p.node.line if p.node else f.line, '%s: %s' % (key, why))
        if not done:
            ck.notes.append('%s: no returning path' % key)
        cnt[w.form] = cnt.get(w.form, 0) + 1
    for k, v in cnt.items():
        ck.count(k + ' setters', v)
    return sum(cnt.values())


def vague(p):
    return any(unknown(x) for e in p.ev for x in e[1:] if isinstance(x, tuple)) or any(e[0] == 'other' for e in p.ev)


def run(tier):
    ck = Check('T05', 'other', 'every Node setter, reduced to primitive effects through the overloads it forwards to, (a) initialises the node as the element type and count of its argument and copies exactly '
               'that many elements between the strides of source and node, or (b), for the external family, releases the node and describes exactly the memory, type, count, offset, stride, element size and byte order given', tier)
    pr = P.load(lambda r: r in FILES)
    fs = [f for f in sorted(pr.funcs.values(), key=lambda f: f.line) if f.cls == 'conduit::Node' and (f.name.startswith('set') or f.name == 'operator=')]
    ck.floor('setters', setters(ck, pr, domain(pr), fs, False), 300)
    return ck
