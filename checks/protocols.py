"""P01, protocols: which writer and reader a protocol name selects, what the generators read for each key."""
from summ import *
from interp import Interp, Domain, strip, mentions
from effects import newfn
from textout import bare
import prog as P
import re

# function (qualified name, parameter that selects it or None) -> protocol -> calls required; None = every other protocol
JW = {'json': ('to_pure_json',), 'conduit_json': ('to_detailed_json',), 'conduit_json_external': ('to_detailed_json_external',), 'conduit_base64_json': ('to_base64_json',), None: 'error'}
YW = {'yaml': ('to_pure_yaml',), None: 'error'}
SW = {'yaml': ('to_yaml_stream',), None: ('to_json_stream',)}
WALK = {'json': ('walk_pure_json_schema',), 'yaml': ('walk_pure_yaml_schema',), 'conduit_base64_json': ('parse_base64',), 'conduit_json': ('walk_json_schema',),
        'conduit_json_external': ('walk_json_schema',), 'conduit_yaml': ('walk_yaml_schema',), 'conduit_yaml_external': ('walk_yaml_schema',), None: 'error'}
WALKX = dict(WALK, conduit_json=('walk_json_schema_external',), conduit_json_external=('walk_json_schema_external',))
SAVE = {'conduit_bin': ('save', 'serialize'), 'yaml': ('to_yaml_stream',), None: ('to_json_stream',)}
LOAD = {'conduit_bin': ('load', 'load'), None: ('walk',)}
TABLES = [('conduit::Node::to_json_stream', 'ostream', 'protocol', JW), ('conduit::Node::to_yaml_stream', 'ostream', 'protocol', YW), ('conduit::Node::to_string_stream', 'ostream', 'protocol', SW),
          ('conduit::Node::to_json_stream', 'stream_path', 'protocol', JW), ('conduit::Node::to_yaml_stream', 'stream_path', 'protocol', YW), ('conduit::Node::to_string_stream', 'stream_path', 'protocol', SW),
          ('conduit::Generator::walk', 'Node', None, WALK), ('conduit::Generator::walk_external', 'Node', None, WALKX),
          ('conduit::Node::save', None, 'protocol', SAVE), ('conduit::Node::load', 'ibase', 'protocol', LOAD)]
PROTOS = ('json', 'yaml', 'conduit_json', 'conduit_json_external', 'conduit_base64_json', 'conduit_yaml', 'conduit_yaml_external', 'conduit_bin', 'other')
FORWARD = (('conduit::Node::to_pure_json', (False, False)), ('conduit::Node::to_detailed_json', (True, False)), ('conduit::Node::to_detailed_json_external', (True, True)))


def last(q):
    return q.split('::')[-1]


class D(Sum):
    def __init__(self, pr, want):
        def inl(ref):
            g = pr.funcs.get(ref['usr'])
            return g is not None and g.body is not None and not ref.get('ctor') and newfn(pr, g)

        def ev(ip, s, n, ref, obj, args, locs):
            if last(ref['qn']) in want and ref['qn'].startswith('conduit::'):
                d = s.dom + (('call', ref['qn'], obj, tuple(args), n.line, tuple(p[0] for p in ref['params'])),)
                return [(s.withdom(d), ('call', ref['qn'], ((obj,) if obj is not None else ()) + tuple(args), ip.path + (n.id,)))]
            return None
        Sum.__init__(self, inl, pure=lambda ref: ref['qn'].startswith(('std::', 'conduit::Generator::Parser::YAML::fetch', 'conduit::Generator::Parser::YAML::get_', 'conduit::Generator::Parser::YAML::check_', 'conduit::DataType::default_bytes',
                                                                       'conduit::Generator::Parser::parse_leaf', 'conduit::Generator::Parser::YAML::string')), events=ev)


def proto_ok(p, x):
    """the facts of the path allow the protocol to be x"""
    for t, b in p.facts.items():
        if t[0] == 'op' and t[1] == '==':
            for u, w in ((t[2], t[3]), (t[3], t[2])):
                w = bare(w)
                if w[0] == 'c' and isinstance(w[1], str) and w[1] != '':
                    if (w[1] == x) != b:
                        return False
                    break
    return True


def dispatch(ck, pr):
    n = 0
    for qn, sel, par, tab in TABLES:
        want = {c for v in tab.values() if v != 'error' for c in v} | {last(qn)}
        for f in pr.get(qn):
            if f.body is None:
                continue
            if par and not any(p[0] == par for p in f.params):
                continue
            if sel and not any(sel == p[0] or sel in p[2] for p in f.params):
                continue
            n += 1
            short = '%s(%s)' % (f.qn.replace('conduit::', ''), ', '.join(p[0] for p in f.params))
            try:
                ps, ip = paths(pr, f, D(pr, want))
            except P.ToolError as e:
                ck.notes.append('%s: %s' % (short, e))
                continue
            for x in PROTOS:
                req = tab.get(x, tab[None])
                fs = [p for p in ps if proto_ok(p, x)]
                if any(unresolved(t) for p in fs for t in p.facts):
                    ck.notes.append('%s: %s: unresolved' % (short, x))
                    continue
                rets = [p for p in fs if p.kind == 'return']
                fw = [p for p in rets if forwards(f, p)]
                for p in fw:
                    why = args_ok(f, p)
                    if why:
                        ck.bad('forward:%s:%s' % (short, why), f.file, p.ev[-1][4], '%s: %s' % (short, why))
                if fw and len(fw) == len(rets):
                    ck.ok(1, '%s: "%s" left to the other form of %s' % (short, x, f.name))
                    continue
                if req == 'error':
                    if rets and not all(p.ev == () and False for p in rets):
                        ck.bad('dispatch:%s:%s' % (short, x), f.file, f.line, '%s: protocol "%s" is accepted, and calls %s' % (short, x, ', '.join(last(c[1]) for c in rets[0].ev if c[0] == 'call') or 'nothing'))
                    else:
                        ck.ok(1, '%s: "%s" is refused' % (short, x))
                    continue
                if not rets:
                    ck.bad('dispatch:%s:%s' % (short, x), f.file, f.line, '%s: protocol "%s" always fails' % (short, x))
                    continue
                for p in rets:
                    got = tuple(last(c[1]) for c in p.ev if c[0] == 'call')
                    if sorted(got) != sorted(req):
                        ck.bad('dispatch:%s:%s' % (short, x), f.file, f.line, '%s: protocol "%s" calls %s instead of %s' % (short, x, ', '.join(got) or 'nothing', ', '.join(req)))
                        break
                    why = args_ok(f, p)
                    if why:
                        ck.bad('forward:%s:%s' % (short, why), f.file, p.ev[-1][4], '%s: %s' % (short, why))
                        break
                else:
                    ck.ok(1, '%s: "%s" -> %s' % (short, x, ', '.join(req)))
    # the fixed forms
    for qn, (det, addr) in FORWARD:
        for f in pr.get(qn):
            if f.body is None:
                continue
            n += 1
            try:
                ps, ip = paths(pr, f, D(pr, {'to_json_generic'}))
            except P.ToolError as e:
                continue
            for p in ps:
                if p.kind != 'return':
                    continue
                cs = [c for c in p.ev if c[0] == 'call']
                if len(cs) != 1:
                    if not cs:
                        ck.bad('form:' + qn, f.file, f.line, '%s writes nothing' % qn)
                    continue
                kw = dict(zip(cs[0][5], cs[0][3]))
                got = (cst(kw.get('detailed')), cst(kw.get('address')))
                if None in got:
                    ck.notes.append('%s: form not resolved' % qn)
                elif got != (det, addr):
                    ck.bad('form:' + qn, f.file, cs[0][4], '%s writes the form detailed=%s, address=%s' % (qn.replace('conduit::', ''), got[0], got[1]))
                else:
                    why = args_ok(f, p)
                    if why:
                        ck.bad('forward:%s' % qn, f.file, cs[0][4], '%s: %s' % (qn.replace('conduit::', ''), why))
                    else:
                        ck.ok(1, '%s: detailed=%s address=%s' % (qn, det, addr))
    return n


def forwards(f, p):
    """the path leaves everything, the protocol included, to another overload"""
    cs = [c for c in p.ev if c[0] == 'call']
    if len(cs) != 1 or last(cs[0][1]) != f.name:
        return False
    kw = dict(zip(cs[0][5], cs[0][3]))
    return 'protocol' in kw and bare(kw['protocol'])[:2] == ('p', 'protocol')


def cst(t):
    if t is None:
        return None
    t = bare(t)
    return bool(t[1]) if t[0] == 'c' else None


def unresolved(t):
    """a test of the protocol that is not a comparison with a literal"""
    return mentions(t, lambda x: x[0] == 'fld' and x[2] == 'm_protocol' or x[0] == 'p' and x[1] == 'protocol') and not (t[0] == 'op' and t[1] == '==' and any(bare(x)[0] == 'c' for x in t[2:]))


def args_ok(f, p):
    """a parameter passed on goes to the parameter of the same name"""
    names = {q[0] for q in f.params}
    for c in p.ev:
        if c[0] != 'call':
            continue
        for nm, a in zip(c[5], c[3]):
            b = bare(a)
            if b[0] == 'p' and nm in names and b[1] != nm and b[1] in c[5]:
                return '%s is passed as %s of %s' % (b[1], nm, last(c[1]))
    return None


# ------------------------------------------------------------------ keys of a leaf
ARGS = ('dtype', 'number_of_elements', 'offset', 'stride', 'element_bytes', 'endianness')
KEYS = {'number_of_elements': ('number_of_elements', 'length', 'value')}


def strings(t, acc):
    if not isinstance(t, tuple) or not t:
        return acc
    if t[0] == 'c':
        if isinstance(t[1], str):
            acc.add(t[1])
        return acc
    for x in t:
        strings(x, acc)
    return acc


def present(p):
    """key -> is it there, from the facts of the path"""
    out = {}
    for t, b in p.facts.items():
        u = t
        if u[0] == 'op' and u[1] == '==' and bare(u[3]) == ('c', None):
            u, b = u[2], not b
        u = bare(u)
        if u[0] == 'call' and last(u[1]) in ('HasMember', 'fetch_yaml_node_from_object_by_name', 'FindMember'):
            ks = strings(u, set())
            if len(ks) == 1:
                out[list(ks)[0]] = b
    return out


def leaf(ck, pr):
    n = 0
    en = {}
    for q, e in pr.enums.items():
        if q.startswith('conduit::Endianness'):
            en.update(e)
    idof = {k.split('::')[-1]: v for k, v in en.items()}
    big, little, dflt = idof.get('BIG_ID', 1), idof.get('LITTLE_ID', 2), idof.get('DEFAULT_ID', 0)
    for qn in ('conduit::Generator::Parser::JSON::parse_leaf_dtype', 'conduit::Generator::Parser::YAML::parse_leaf_dtype'):
        for f in pr.get(qn):
            if f.body is None:
                continue
            n += 1
            short = f.qn.replace('conduit::Generator::', '')
            try:
                ps, ip = paths(pr, f, D(pr, {'set'}))
            except P.ToolError as e:
                ck.notes.append('%s: %s' % (short, e))
                continue
            seen = {}
            for p in ps:
                if p.kind != 'return':
                    continue
                cs = [c for c in p.ev if c[0] == 'call' and c[1] == 'conduit::DataType::set']
                if not cs:
                    ck.bad('leaf:%s:none' % short, f.file, f.line, '%s: returns without describing the leaf' % short)
                    continue
                c = cs[-1]
                if len(c[3]) != 6:
                    ck.notes.append('%s: set with %d arguments' % (short, len(c[3])))
                    continue
                pres = present(p)
                mapping = bool(pres)
                for k, a in zip(ARGS, c[3]):
                    a = strip(a)
                    ss = strings(a, set())
                    own = set(KEYS.get(k, (k,)))
                    why = None
                    if k == 'endianness':
                        fe = {bare(y)[1]: b for t, b in p.facts.items() if t[0] == 'op' and t[1] == '==' for y in t[2:] if bare(y)[0] == 'c' and bare(y)[1] in ('big', 'little')}
                        want = big if fe.get('big') else little if fe.get('little') else dflt if pres.get('endianness') is not True else None
                        v = bare(a)
                        if v[0] == 'c' and want is not None and v[1] != want:
                            why = 'byte order "%s" is read as %s' % ('big' if fe.get('big') else 'little' if fe.get('little') else 'default', v[1])
                        elif v[0] != 'c' or want is None:
                            why = '?'
                    elif ss - own and not (k != 'dtype' and ss - own <= {'dtype'}):
                        why = '"%s" is taken from "%s"' % (k, sorted(ss - own)[0])
                    elif k in ('offset', 'stride', 'element_bytes'):
                        if pres.get(k) is True and k not in ss:
                            why = '"%s" is given and not used' % k
                        elif pres.get(k) is None and mapping:
                            why = '"%s" is never looked for' % k
                        elif k not in ss:
                            b = bare(a)
                            if k == 'offset' and b != ('p', 'offset', [i for i, q in enumerate(f.params) if q[0] == 'offset'][0]):
                                why = '?' if unknown(b) else 'the default offset is %s' % show(b)
                            elif k != 'offset' and not (b[0] == 'call' and last(b[1]) == 'default_bytes'):
                                why = '?' if unknown(b) else 'the default %s is %s' % (k, show(b))
                    elif k == 'number_of_elements' and mapping:
                        ne = pres.get('number_of_elements')
                        if ne is True and a == ('c', 1):
                            why = 'a given number of elements is replaced by one'
                        elif ne is True and not ss:
                            why = 'a given number of elements is not used'
                        elif ne is not True and pres.get('length') is False and not ss and a != ('c', 1):
                            if not pres.get('value') or a != ('c', 0):
                                why = 'a leaf with no number of elements gets %s elements' % show(a)
                    if why == '?':
                        ck.notes.append('%s: %s: %s' % (short, k, show(a)[:60]))
                    elif why:
                        seen[k] = False
                        ck.bad('leaf:%s:%s:%s' % (short, k, why), f.file, c[4], '%s: %s' % (short, why))
                    else:
                        seen.setdefault(k, True)
            for k, v in seen.items():
                if v:
                    ck.ok(1, '%s: "%s"' % (short, k))
    return n


TEXT = ('GetString', 'get_yaml_string')


def stored(ck, pr):
    """strings read from a text are stored as the parser gave them"""
    n = 0
    for f in sorted(pr.funcs.values(), key=lambda f: f.line):
        if not f.qn.startswith('conduit::Generator::Parser::') or f.body is None:
            continue
        for x in f.body.walk():
            if x.k in ('MCall', 'Call') and x.d and x.d[0] and x.d[0]['qn'] in ('conduit::Node::set', 'conduit::Node::set_string', 'conduit::Node::set_char8_str', 'conduit::Node::set_path') and x.d[0]['params'] \
                    and 'basic_string' in x.d[0]['params'][-1][1]:
                n += 1
                bad = [y for y in x.walk() if y.k in ('Call', 'MCall') and y is not x and y.d and y.d[0] and y.d[0]['qn'].startswith('conduit::utils::')]
                # through locals
                for y in list(x.walk()):
                    if y.k == 'Ref':
                        bad += local_calls(f, y)
                if bad:
                    ck.bad('stored:%s:%s' % (f.qn, bad[0].d[0]['qn']), f.file, x.line, '%s: the string stored went through %s after it was parsed' % (f.qn.replace('conduit::Generator::', ''), bad[0].d[0]['qn'].replace('conduit::', '')))
                else:
                    ck.ok(1, '%s: string stored as parsed' % f.qn.replace('conduit::Generator::', ''))
    return n


def local_calls(f, ref):
    out = []
    vid = ref.d[-1] if ref.d[0] == 'v' else None
    for y in f.body.walk():
        if y.k == 'Var' and isinstance(y.d, (tuple, list)) and len(y.d) > 1 and vid is not None and y.d[1] == vid:
            out += [z for z in y.walk() if z.k in ('Call', 'MCall') and z.d and z.d[0] and z.d[0]['qn'].startswith('conduit::utils::')]
    return out


GET = {'GetInt': 'int32', 'GetUint': 'uint32', 'GetInt64': 'int64', 'GetUint64': 'uint64', 'GetDouble': 'float64', 'GetFloat': 'float32', 'GetBool': 'uint8',
       'string_to_long': 'int64', 'string_to_unsigned_long': 'uint64', 'string_to_double': 'float64', 'get_yaml_long': 'int64', 'get_yaml_unsigned_long': 'uint64'}


def inside(a, b):
    """every value of type a is a value of type b"""
    if a[0] == 'f' or b[0] == 'f':
        return a[0] == b[0] == 'f' and WIDTH[a] <= WIDTH[b]
    return RANGE[b][0] <= RANGE[a][0] and RANGE[a][1] <= RANGE[b][1]


def typed(ck, pr):
    """a number read for a leaf of a declared type is stored as that type"""
    import P01
    n = 0
    for qn in ('JSON::parse_inline_leaf', 'YAML::parse_inline_leaf', 'JSON::parse_json_int64_array', 'JSON::parse_json_uint64_array', 'JSON::parse_json_float64_array', 'YAML::parse_yaml_array'):
        for f in pr.get('conduit::Generator::Parser::' + qn):
            if f.body is None or not any('Node' in q[2] and q[2].endswith('&') for q in f.params):
                continue
            n += 1
            try:
                ps, ip = paths(pr, f, D(pr, {'set'}))
            except P.ToolError as e:
                ck.notes.append('%s: %s' % (qn, e))
                continue
            got = {}
            for p in ps:
                if p.kind != 'return':
                    continue
                ks, ts = P01.kinds(p)
                if not ts:
                    continue
                for k in ks:
                    if k not in NUM:
                        continue
                    cs = [c for c in p.ev if c[0] == 'call' and c[1].endswith('::set')]
                    if not cs:
                        if not any(last(t[1]) in ('IsNull', 'IsNumber', 'IsString', 'IsBool') for t in p.facts if t[0] == 'call') and len(ks) > 1:
                            got.setdefault(k, 'nothing is stored')
                        continue
                    c = cs[-1]
                    why = None
                    if c[1].startswith('conduit::Node::'):
                        a = c[3][0]
                        t = a[1].replace('const ', '') if a[0] == 'cast' else None
                        tk = OFC.get(t)
                        if tk is None and strip(a)[0] == 'call' and last(strip(a)[1]) in GET:
                            tk = GET[last(strip(a)[1])]
                        if tk is None:
                            ck.notes.append('%s: %s: %s' % (qn, k, show(a)[:60]))
                            continue
                        if tk != k:
                            why = 'stored as %s' % tk
                        x = a
                        while x[0] == 'cast':
                            y = OFC.get(x[1].replace('const ', ''))
                            if y and not inside(k, y):
                                why = why or 'read through %s' % y
                            x = x[2]
                        g = GET.get(last(x[1])) if x[0] == 'call' else None
                        if g and not inside(k, g) and last(x[1]) != 'GetBool':
                            why = why or 'read with %s' % last(x[1])
                    else:
                        o = bare(c[2]) if c[2] is not None else None
                        m = re.match(r'as_(.*)_(array|accessor)$', last(o[1])) if o and o[0] == 'call' else None
                        tk = NAMES.get(m.group(1)) if m else None
                        if tk is None:
                            continue
                        if tk != k:
                            why = 'stored as %s' % tk
                    if why:
                        got[k] = why
                    else:
                        got.setdefault(k, None)
            for k, w in sorted(got.items()):
                if w:
                    ck.bad('typed:%s:%s' % (qn, k), f.file, f.line, '%s: a number for a leaf of type %s is %s' % (qn, k, w))
                else:
                    ck.ok(1, '%s: %s' % (qn, k))
    return n


class R(Sum):
    """integers of undeclared type: remembers the range questions that were asked"""

    def __init__(self, pr):
        self.pr = pr
        Sum.__init__(self, lambda ref: ref['qn'].startswith('conduit::Generator::Parser::') and ref['usr'] in pr.funcs and not re.search(r'walk_|yaml_(node|string|seq|map)|get_yaml|fetch_', ref['name']))

    def on_call(self, ip, s, n, ref, obj, args, locs):
        if ref is not None and ref['qn'] == 'conduit::Node::set' and len(args) == 1:
            return [(s.withdom(s.dom + (('set', args[0], n.line, frozenset((t, b) for t, b in s.facts.items() if t[0] == 'call')),)), ('u', 'void'))]
        return None

    def on_branch(self, ip, s, t, v):
        if t[0] == 'op' and t[1] in ('==', '<'):
            for a, b, left in ((strip(t[2]), strip(t[3]), True), (strip(t[3]), strip(t[2]), False)):
                if b[0] != 'c' or not isinstance(b[1], int):
                    continue
                if mentions(a, lambda x: x and x[0] == 'call' and x[1] == '__errno_location'):
                    s = s.withdom(s.dom + (('range', not v if t[1] == '==' else True),))
                elif a[0] == 'call' and last(a[1]) in ('strtol', 'strtoll', 'string_to_long'):
                    s = s.withdom(s.dom + (('sign',) if b[1] in (0, 1) else ('range', not v if t[1] == '==' else True),))
                elif b[1] == 45:
                    s = s.withdom(s.dom + (('sign',),))
        return s


ASK = {'GetInt64': ('IsInt64', 'IsInt'), 'GetInt': ('IsInt',), 'GetUint64': ('IsUint64', 'IsUint'), 'GetUint': ('IsUint',), 'GetDouble': ('IsNumber', 'IsDouble')}


def untyped(ck, pr):
    """an integer of no declared type gets a type that holds it"""
    n = 0
    ids = {v: k for k, v in (('int64', 6), ('uint64', 10))}
    for qn in ('JSON::json_to_numeric_dtype', 'YAML::yaml_leaf_to_numeric_dtype', 'YAML::parse_yaml_inline_leaf', 'JSON::walk_pure_json_schema'):
        for f in pr.get('conduit::Generator::Parser::' + qn):
            if f.body is None:
                continue
            try:
                ps, ip = paths(pr, f, R(pr))
            except P.ToolError as e:
                ck.notes.append('%s: %s' % (qn, e))
                continue
            n += 1
            bad = {}
            for p in ps:
                if p.kind != 'return':
                    continue
                seen = []
                for e in p.ev:
                    if e[0] != 'set':
                        seen.append(e)
                        continue
                    a = strip(e[1])
                    g = last(a[1]) if a[0] == 'call' else None
                    if g in ASK and qn.startswith('JSON'):
                        if not any(t[0] == 'call' and last(t[1]) in ASK[g] and t[2] == a[2] and b is True for t, b in e[3]):
                            bad[g] = (e[2], 'a value is read with %s without asking %s' % (g, ' or '.join(ASK[g])))
                        elif g == 'GetDouble':
                            asked = {last(t[1]): b for t, b in e[3] if t[2] == a[2]}
                            if not (asked.get('IsDouble') or (asked.get('IsInt64') is False and asked.get('IsUint64') is False)):
                                bad[g] = (e[2], 'a value that can be a 64 bit integer is read as float64')
                    elif g in ('strtol', 'strtoll', 'string_to_long') and ('range', True) not in seen:
                        bad[g] = (e[2], 'an integer is stored as int64 without asking whether it is in range')
                    elif g in ('strtoul', 'strtoull', 'string_to_unsigned_long') and ('sign',) not in seen:
                        bad[g] = (e[2], 'an integer is stored as uint64 without asking whether it is negative')
                v = p.val
                if f.ret != 'void' and v is not None and v[0] == 'c' and v[1] in ids and not isinstance(v[1], bool):
                    k = ids[v[1]]
                    if qn.startswith('JSON'):
                        want = ('IsInt64', 'IsInt') if k == 'int64' else ('IsUint64', 'IsUint')
                        if not any(t[0] == 'call' and last(t[1]) in want and b is True for t, b in p.facts.items()):
                            bad[k] = (p.node.line if p.node else f.end, 'a number is taken for %s that need not fit it' % k)
                    elif ('range', True) not in p.ev or (k == 'uint64' and ('sign',) not in p.ev):
                        bad[k] = (p.node.line if p.node else f.end, 'an integer is taken for %s that need not fit it' % k)
            if bad:
                for k, (line, m) in sorted(bad.items()):
                    ck.bad('untyped:%s:%s' % (qn, k), f.file, line, '%s: %s' % (f.qn, m))
            else:
                ck.ok(1, qn)
    return n


class B64(D):
    def mutates(self, ref):
        return ref['name'] not in ('data_ptr', 'schema', 'schema_ptr', 'c_str', 'dtype') and not ref['qn'].startswith('std::')


def node_of(t):
    """the node a pointer, schema or size term belongs to"""
    t = strip(t)
    while t[0] == 'call' and t[2] and last(t[1]) in ('data_ptr', 'element_ptr', 'schema', 'schema_ptr', 'spanned_bytes', 'total_bytes_compact', 'total_strided_bytes', 'dtype', 'bytes_compact', 'strided_bytes') \
            or t[0] in ('addr', 'deref'):
        t = strip(t[1] if t[0] in ('addr', 'deref') else t[2][0])
    return t


def base64(ck, pr):
    """the base64 form holds the compact data and the schema of just that data"""
    n = 0
    W = {'compact_to', 'base64_encode', 'base64_decode', 'to_json_stream', 'set', 'walk_json_schema'}
    for qn in ('conduit::Node::to_base64_json', 'conduit::Generator::Parser::JSON::parse_base64'):
        for f in pr.get(qn):
            if f.body is None:
                continue
            try:
                ps, ip = paths(pr, f, B64(pr, W))
            except P.ToolError as e:
                ck.notes.append('%s: %s' % (qn, e))
                continue
            for p in ps:
                if p.kind != 'return':
                    continue
                ev = {}
                for e in p.ev:
                    ev.setdefault(last(e[1]), []).append(e)
                why = None
                for e in ev.get('base64_encode', ()):
                    src = node_of(e[3][0])
                    cp = [strip(c[3][0]) for c in ev.get('compact_to', ()) if c[2] == ('this',)]
                    ln = strip(e[3][1])
                    if src[0] in ('u', 'mut'):
                        ck.notes.append('%s: the encoded data is not resolved' % qn)
                        continue
                    n += 1
                    if src == ('this',) or (src[0] == 'call' and src[1] == 'conduit::Node::Node' and src not in cp):
                        why = (e[4], 'encodes data that is not the compact copy of the node')
                    elif ln[0] == 'call' and last(ln[1]) in ('spanned_bytes', 'total_bytes_compact', 'total_strided_bytes') and node_of(ln) != src:
                        if not (node_of(ln) == ('this',) and last(ln[1]) == 'total_bytes_compact'):
                            why = (e[4], 'the number of bytes encoded is not that of the encoded data')
                    for x in ev.get('to_json_stream', ()):
                        o = node_of(x[2]) if x[2] is not None else None
                        if o is not None and o != src and o[0] not in ('u', 'mut'):
                            why = (x[4], 'writes a schema that does not describe the encoded data')
                    if not ev.get('to_json_stream'):
                        ck.notes.append('%s: the schema written is not resolved' % qn)
                for e in ev.get('base64_decode', ()):
                    n += 1
                    sr, ln, dst = strip(e[3][0]), strip(e[3][1]), node_of(e[3][2])
                    if ln[0] == 'call' and last(ln[1]) not in ('length', 'size', 'strlen'):
                        why = (e[4], 'the number of characters decoded is not the length of the text')
                    sets = [x for x in ev.get('set', ()) if x[2] == ('deref', ('p', 'node', 0))]
                    for x in sets:
                        if len(x[3]) == 2 and node_of(x[3][1]) != dst and node_of(x[3][1])[0] not in ('u', 'mut'):
                            why = (x[4], 'stores something else than the decoded data')
                    for x in ev.get('set', ()):
                        if x[2] is not None and strip(x[2]) == dst:
                            if not mentions(x[3][0], lambda y: y and y[0] == 'call' and last(y[1]) == 'base64_decode_buffer_size' and strip(y[2][0]) == ln) and mentions(x[3][0], lambda y: y and y[0] == 'call' and last(y[1]).startswith('base64_')):
                                why = (x[4], 'the decode buffer is not sized for the text')
                if why:
                    ck.bad('base64:%s:%s' % (last(qn), why[1].split()[0]), f.file, why[0], '%s: %s' % (f.qn, why[1]))
                elif 'base64_encode' in ev or 'base64_decode' in ev:
                    ck.ok(1, qn)
    return n


def run(ck, pr):
    ck.count('base64 codecs', base64(ck, pr))
    ck.count('untyped number readers', untyped(ck, pr))
    ck.count('typed readers', typed(ck, pr))
    ck.count('protocol dispatchers', dispatch(ck, pr))
    ck.count('leaf readers', leaf(ck, pr))
    ck.count('strings stored by the readers', stored(ck, pr))
