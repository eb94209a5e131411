"""C01: the C interface does what its name says: each wrapper hands every argument, in place and
order, to the C++ operation it names and returns that operation's result."""
import re
from common import Check
import prog as P
from summ import *
from effects import *
import T05

NS = (('conduit_node_', 'conduit::Node::'), ('conduit_datatype_', 'conduit::DataType::'), ('conduit_relay_mpi_io_', 'conduit::relay::mpi::io::'), ('conduit_relay_io_', 'conduit::relay::io::'),
      ('conduit_relay_', 'conduit::relay::'), ('conduit_blueprint_mpi_mesh_', 'conduit::blueprint::mpi::mesh::'), ('conduit_blueprint_mesh_examples_', 'conduit::blueprint::mesh::examples::'),
      ('conduit_blueprint_mesh_', 'conduit::blueprint::mesh::'), ('conduit_blueprint_mcarray_examples_', 'conduit::blueprint::mcarray::examples::'),
      ('conduit_blueprint_mcarray_', 'conduit::blueprint::mcarray::'), ('conduit_blueprint_table_examples_', 'conduit::blueprint::table::examples::'),
      ('conduit_blueprint_table_', 'conduit::blueprint::table::'), ('conduit_blueprint_', 'conduit::blueprint::'), ('conduit_utils_', 'conduit::utils::'), ('conduit_', 'conduit::'))
ALIAS = {'fetch': ('fetch', 'fetch_ptr', 'operator[]'), 'child': ('child', 'child_ptr', 'operator[]'), 'child_by_name': ('child', 'child_ptr', 'fetch_existing'),
         'remove_path': ('remove',), 'remove_child': ('remove', 'remove_child'), 'remove_child_by_name': ('remove_child',), 'contiguous_with_node': ('contiguous_with',),
         'contiguous_with_address': ('contiguous_with',), 'load_step_and_domain': ('load',), 'verify_sub_protocol': ('verify',), 'number_of_elements': ('number_of_elements',),
         'append': ('append', 'append_ptr'), 'fetch_existing': ('fetch_existing',), 'fetch_path_data_ptr': ('data_ptr',), 'fetch_path_element_ptr': ('element_ptr',)}
NOT = ('conduit_node_create', 'conduit_node_destroy', 'conduit_datatype_name_destroy')
PLAIN = ('strdup', 'MPI_Comm_f2c', '_conduit_strdup', 'conduit_fort_strdup', 'free', 'strlen')


class Rec(Sum):
    inline_depth = 10

    def init(self):
        return ()

    def on_call(self, ip, s, n, ref, obj, args, locs):
        if ref is None:
            return None
        q = ref['qn']
        if self._inl(ref):
            return None
        a = ((base(obj),) if obj is not None else ()) + tuple(strip(x) if x else x for x in args)
        v = ('call', q, a, ())
        return [(s.withdom(s.dom + (v,)), v)]


def kindname(n):
    """as_<type>[_ptr] -> kind, for names of the same type"""
    m = re.match(r'^(as|is|to)_([a-z0-9_]+?)(_ptr|_array)?$', n)
    if m and m.group(2) in NAMES:
        return m.group(1), NAMES[m.group(2)], m.group(3)
    return n


def run(tier):
    ck = Check('C01', 'other', 'every C wrapper calls the C++ operation its name denotes on the object it was given, passes each of its arguments exactly once and in order '
               '(an absent optional argument is passed as the documented default), and returns that operation\'s result; C setters have exactly the effects of the C++ setters', tier)
    pr = P.load(lambda r: r in T05.FILES or r.endswith('_c.cpp') or 'cpp_to_c' in r)
    fs = [f for f in sorted(pr.funcs.values(), key=lambda f: (f.file, f.line)) if f.name.startswith('conduit_') and f.qn == f.name and f.file.endswith('_c.cpp') and not f.name.endswith('_thunk')]
    setf = [f for f in fs if f.name.startswith('conduit_node_set')]
    k = T05.setters(ck, pr, T05.domain(pr), setf, True)
    ck.floor('C setters', k, 150)
    conv = inliner(pr, ('conduit::cpp_', 'conduit::c_'))

    def inl(ref):
        if conv(ref):
            return True
        g = pr.funcs.get(ref['usr'])
        return g is not None and newfn(pr, g)
    dom = Rec(inl)
    n = 0
    for f in fs:
        if f in setf:
            continue
        n += 1
        try:
            ps, ip = paths(pr, f, dom)
        except P.ToolError as e:
            ck.notes.append('%s: %s' % (f.name, e))
            continue
        for p in ps:
            if p.kind == 'throw':
                continue
            why = forward(f, p)
            if why is None:
                ck.ok(1, '%s forwards' % f.name)
            elif why[0] == '?':
                ck.notes.append('%s: %s' % (f.name, why[1:]))
            else:
                ck.bad('fwd:' + f.name, f.file, p.node.line if p.node else f.line, '%s: %s' % (f.name, why))
    ck.floor('C wrappers', n, 100)
    for f in fs:
        if f.name.startswith('conduit_utils_set_') and len(f.params) == 1:
            handler(ck, pr, f, inl)
    return ck


class Ind(Rec):
    def on_call(self, ip, s, n, ref, obj, args, locs):
        if ref is None:
            v = ('call', '<indirect>', (strip(obj),) + tuple(strip(x) for x in args), ())
            return [(s.withdom(s.dom + (v,)), v)]
        return Rec.on_call(self, ip, s, n, ref, obj, args, locs)


def handler(ck, pr, f, inl):
    """the C handler is kept, and the function installed calls it with file, line and message in their places"""
    try:
        ps, ip = paths(pr, f, Ind(inl))
    except P.ToolError as e:
        ck.notes.append('%s: %s' % (f.name, e))
        return
    for p in ps:
        if p.kind == 'throw':
            continue
        kept = [k[1][1] for k, v in p.env.items() if k[0] == '*' and k[1][0] == 'glob' and strip(v) == ('p', f.params[0][0], 0)]
        if not kept:
            if not [k for k in p.env if k[0] == '*' and k[1][0] == 'glob']:
                ck.bad('handler:' + f.name, f.file, f.line, '%s: a path does not keep the handler it was given' % f.name)
            continue
        fn = [strip(a) for e in p.ev if e[1].startswith('conduit::utils::set_') for a in e[2]]
        fn = [a[1] if a[0] in ('addr', 'deref') else a for a in fn]
        for a in fn:
            g = pr.funcs.get(a[2]) if a[0] == 'fn' else None
            if g is None or g.body is None or len(g.params) != 3:
                ck.notes.append('%s: installed function not resolved' % f.name)
                continue
            try:
                qs, _ = paths(pr, g, Ind(inl))
            except P.ToolError as e:
                ck.notes.append('%s: %s' % (g.name, e))
                continue
            called = False
            why = None
            for q in qs:
                for e in q.ev:
                    if e[1] != '<indirect>':
                        continue
                    called = True
                    c = e[2][0]
                    while c[0] in ('deref', 'addr', 'ld'):
                        c = strip(c[-1])
                    if c[0] == 'glob' and c[1] not in kept:
                        why = 'calls the handler of another function (%s)' % c[1]
                    for i, x in enumerate(e[2][1:]):
                        x = strip(x)
                        while x[0] == 'call' and x[2] and x[1].split('::')[-1] in ('c_str', 'data'):
                            x = strip(x[2][0])
                        if x[0] == 'p' and x[2] != i:
                            why = 'passes %s in the place of %s' % (x[1], g.params[i][0])
                    if why is None and not (c[0] == 'glob'):
                        ck.notes.append('%s: handler called through %s' % (g.name, show(c)))
                if why is None and not any(e[1] == '<indirect>' for e in q.ev) and q.kind == 'return' and not any(not b for b in q.facts.values()) and not q.facts:
                    why = 'a path does not call the handler'
            if not called:
                why = 'never calls the handler'
            if why:
                ck.bad('handler:%s' % g.name, g.file, g.line, '%s (installed by %s): %s' % (g.name, f.name, why))
            else:
                ck.ok(1, '%s installs %s' % (f.name, g.name))


def isnull(p, q):
    """the path is taken when pointer parameter q is NULL: True / False / None unknown"""
    for t, b in p.facts.items():
        t = strip(t)
        if t == q:
            return not b
        if t[0] == 'op' and t[1] in ('==', '!=') and ('c', None) in (strip(t[2]), strip(t[3])) or t[0] == 'op' and t[1] in ('==', '!=') and ('c', 0) in (strip(t[2]), strip(t[3])):
            o = strip(t[2]) if strip(t[3]) in (('c', None), ('c', 0)) else strip(t[3])
            if o == q:
                return b == (t[1] == '==')
    return None


def forward(f, p):
    P_ = [('p', nm, i) for i, (nm, _, ty) in enumerate(f.params)]
    tys = [tyclean(ty) for _, _, ty in f.params]
    if f.name == 'conduit_node_create':
        return None if strip(p.val)[0] in ('new',) or 'new' in str(strip(p.val)[0]) else '?result %s' % show(p.val)
    if f.name in NOT:
        return None
    for pre, ns in NS:
        if f.name.startswith(pre):
            op = f.name[len(pre):]
            break
    sig = [e for e in p.ev if not e[1].startswith('std::') and e[1] not in PLAIN]
    if f.name.startswith('conduit_utils_set_'):
        h = [e for e in sig if e[1] == ns + op]
        return None if h else 'does not install the handler through %s' % (ns + op)
    if not sig:
        return '?no call recorded'
    # the chain fetch(path) -> op, dtype() -> op
    g = sig[-1]
    q = g[1]
    opn = q.split('::')[-1]
    want = op
    m = re.match(r'fetch_path_(as_.*)$', op)
    if m:
        want = m.group(1)
    want = re.sub(r'_with_options$', '', want)
    okn = ALIAS.get(want, (want,))
    if opn not in okn and kindname(opn) != kindname(want):
        return 'calls %s' % q
    cls = q[:-len(opn)]
    if cls != ns and not (ns == 'conduit::Node::' and cls in ('conduit::DataType::', 'conduit::Schema::')):
        return 'calls %s, not an operation of %s' % (q, ns[:-2])
    # arguments: the chain flattened
    flat = []

    def fl(t):
        t = base(t)
        if t[0] == 'call' and t[1].startswith('conduit::Node::') and t[1].split('::')[-1] in ('fetch', 'dtype', 'schema', 'fetch_existing', 'fetch_ptr'):
            if op.startswith('fetch_path') and t[1].split('::')[-1] == 'fetch_existing':
                flat.append(('c', 'existing'))
            for x in t[2]:
                fl(x)
        elif t[0] == 'call' and t[1] == 'MPI_Comm_f2c':
            fl(t[2][0])
        else:
            flat.append(t)
    for x in g[2]:
        fl(x)
    i = 0
    j = 0
    vague = False
    while j < len(flat):
        a = flat[j]
        if a[0] == 'p':
            # parameters skipped must be NULL on this path
            while i < len(P_) and P_[i] != a:
                if isnull(p, P_[i]) is not True:
                    return 'argument %s is not passed on (or out of order)' % P_[i][1] if a in P_ else '?argument'
                i += 1
            if i >= len(P_):
                return 'argument %s is passed twice or out of order' % a[1]
            i += 1
        elif a == ('c', '') and i < len(P_) and tys[i].endswith('*') and isnull(p, P_[i]) is True:
            i += 1
        elif a == ('c', '') and i < len(P_) and isnull(p, P_[i]) is False:
            return 'argument %s is replaced by an empty string although it was given' % P_[i][1]
        elif a[0] == 'c':
            if i < len(P_):
                return 'a constant (%s) is passed in place of %s' % (show(a), P_[i][1]) if isnull(p, P_[i]) is not True else '?constant'
        else:
            vague = True
        j += 1
    rest = [x for x in P_[i:] if isnull(p, x) is not True]
    if rest:
        return ('?' if vague else '') + 'argument %s is not passed on' % rest[0][1]
    if vague:
        return '?argument %s' % show(g)[:60]
    # result
    if f.ret != 'void':
        if p.val is None:
            return 'no result'
        v = strip(p.val)
        if v[0] == 'c' and isinstance(v[1], (int, bool)):
            b = [bb for t, bb in p.facts.items() if strip(t) == g]
            if not b:
                return 'returns the constant %s' % show(v)
            return None if bool(v[1]) == b[0] else 'returns %s when the operation yields %s' % (show(v), b[0])
        if f.ret == 'char *' and not opn.startswith('as_'):
            if v[0] == 'call' and v[1].endswith('strdup'):
                v2 = strip(v[2][0])
                if v2[0] == 'call' and v2[1].split('::')[-1] in ('c_str', 'data') and base(v2[2][0]) == g:
                    return None
                return 'returns %s' % show(canon(v))
            return 'the caller does not get a string of its own: %s' % show(canon(v)) if not unknown(v) else '?result'
        if base(v) != g:
            return ('?' if unknown(v) else '') + 'returns %s' % show(canon(v))[:80]
    return None
