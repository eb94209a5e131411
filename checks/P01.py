"""P01: the text forms of a node write its names, strings, numbers and layout faithfully (JSON, YAML)."""
from common import Check
import prog as P
from textout import *
from loopcov import covers, bare as lbare
from effects import newfn
import chars, protocols

FILES = ('conduit/conduit_node.cpp', 'conduit/conduit_schema.cpp', 'conduit/conduit_data_type.cpp', 'conduit/conduit_data_array.cpp',
         'conduit/conduit_data_accessor.cpp', 'conduit/conduit_utils.cpp', 'conduit/conduit_generator.cpp')
WRITERS = ('to_json_generic', 'to_yaml_generic', 'to_json_stream', 'to_yaml_stream', 'to_pure_json', 'to_pure_yaml', 'to_detailed_json')
NAMEFN = ('object_order', 'child_names')
SAFE = ('conduit::DataType::id_to_name', 'conduit::DataType::name', 'conduit::Endianness::id_to_name', 'conduit::utils::to_hex_string')
STR = ('as_string', 'as_char8_str')


def last(q):
    return q.split('::')[-1]


def name_of(t):
    """(owner, index) when the term is the name of a child"""
    t = bare(t)
    if t[0] == 'call' and last(t[1]) in ('operator[]', 'at') and len(t[2]) == 2:
        c = bare(t[2][0])
        if c[0] == 'call' and last(c[1]) in NAMEFN:
            return (bare(c[2][0]), t[2][1])
        if c[0] == 'fld' and c[2] == 'object_order':
            return (c[1], t[2][1])
        return None
    if t[0] == 'call' and t[1] in ('<element>', '<at>'):
        c = bare(t[2][0])
        if c[0] == 'call' and last(c[1]) in NAMEFN:
            return (bare(c[2][0]), t)
        return None
    if t[0] == 'call' and last(t[1]) in ('name', 'child_name') and t[1].startswith(('conduit::Node', 'conduit::Schema')):
        return (bare(t[2][0]), t[2][1] if len(t[2]) > 1 else bare(t[2][0]))
    return None


def string_of(t):
    t = bare(t)
    if t[0] == 'call' and last(t[1]) in STR:
        return bare(t[2][0])
    if t[0] == 'call' and last(t[1]).startswith('basic_string') and len(t[2]) >= 1:
        return string_of(t[2][0])
    return None


def uncopy(t):
    t = bare(t)
    while t[0] == 'call' and last(t[1]).startswith(('basic_string', 'c_str', 'str')) and t[2] and last(t[1]) in ('basic_string', 'c_str', 'basic_string<char>'):
        t = bare(t[2][0])
    return t


def classify(dom, ip, s, n, ref, obj, args):
    if ref is not None:
        if ref['qn'] == 'conduit::utils::indent':
            return ('ws',)
        if last(ref['qn']) in WRITERS and obj is not None:
            return ('value', bare(obj), ref['qn'])
        return None
    v = uncopy(args[0])
    if v[0] == 'p' and v[1] in ('eoe', 'pad'):
        return ('ws',)
    if v[0] == 'call':
        if v[1] == 'conduit::utils::escape_special_chars':
            x = uncopy(v[2][0])
            return ('esc', 'text', x)
        if v[1] in SAFE:
            return ('safe', v)
        if v[1] == 'conduit::utils::float64_to_string':
            return ('ftext', 'float', v, finite(s, v))
    if name_of(v) is not None:
        return ('raw', 'the name of a child', v)
    if string_of(v) is not None:
        return ('raw', 'a string value', v)
    return None


def finite(s, v):
    """the branch conditions exclude inf and nan for this text: True, False, or None (not resolved)"""
    r = False
    for t, b in s.facts.items():
        if mentions(t, lambda x: x[0] == 'call' and last(x[1]) in ('find', 'find_first_of') and len(x[2]) > 1 and (uncopy(x[2][0]) == v or uncopy(x[2][0])[0] == 'mut')):
            if t[0] == 'op' and t[1] == '==' and not any(bare(y) == ('c', 0) for y in t[2:]):
                if b and finds_n(t):
                    return True
            elif t[0] != 'op':
                r = None
        elif mentions(t, lambda x: x[0] == 'call' and last(x[1]) in ('isfinite', '__builtin_isfinite')):
            if b:
                return True
        elif mentions(t, lambda x: x[0] == 'call' and last(x[1]) in ('isnan', 'isinf')):
            r = None
    return r


def finds_n(t):
    """the search is for a letter both inf and nan have"""
    out = []

    def look(x):
        if x[0] == 'call' and last(x[1]) in ('find', 'find_first_of') and len(x[2]) > 1:
            a = bare(x[2][1])
            if a[0] != 'c':
                out.append(True)
            elif last(x[1]) == 'find':
                out.append(a[1] in (ord('n'), 'n'))
            else:
                out.append(a[1] == ord('n') or isinstance(a[1], str) and ('n' in a[1] or 'ia' in a[1]))
        return False
    mentions(t, look)
    return all(out)


def kinds(p):
    """type ids for which the path is feasible"""
    ts = set()
    for t in p.facts:
        collect(t, ts)
    out = []
    for k, i in ID.items():
        a = {t: i for t in ts}
        if all(v is None or bool(v) == b for t, b in p.facts.items() for v in [val2(t, a, i)]):
            out.append(k)
    return out, ts


PRED = {'is_object': ('object',), 'is_list': ('list',), 'is_empty': ('empty',), 'is_number': NUM, 'is_string': ('char8_str',), 'is_char8_str': ('char8_str',),
        'is_floating_point': ('float32', 'float64'), 'is_integer': tuple(k for k in NUM if 'int' in k)}


def val2(t, a, i):
    if t[0] == 'call' and t[1].startswith('conduit::DataType::') and last(t[1]) in PRED:
        return KIND[i] in PRED[last(t[1])]
    return val(t, a)


def collect(t, acc):
    if not isinstance(t, tuple) or not t:
        return
    if t[0] == 'call' and t[1] == 'conduit::DataType::id' or t[0] == 'fld' and t[2] == 'm_id':
        acc.add(t)
        return
    for x in t:
        collect(x, acc)


def child_of(d):
    """(owner collection, index term) of the child a value call writes"""
    t = bare(d)
    if t[0] == 'call' and last(t[1]) in ('operator[]', 'at', 'child', 'child_ptr') and len(t[2]) == 2:
        return t[2]
    return None


def tree(ck, pr, qn, mode, yes, params=None):
    """a writer of a whole tree"""
    n = 0
    for f in pr.get(qn):
        st = [p[0] for p in f.params if 'ostream' in p[2]]
        if not st or f.body is None:
            continue
        n += 1
        pv = {}
        for i, (nm, _, ty) in enumerate(f.params):
            if nm in (params or {}):
                pv[i] = ('c', params[nm])
        dom = Text(classify, lambda ref: inl(pr, ref, f), mode, st[0])
        ps, ip = texts(ck, pr, f, dom, pv)
        if ps is None:
            continue
        short = f.qn.replace('conduit::', '')
        seen = {}
        for p in ps:
            if p.kind == 'throw':
                continue
            ks, ts = kinds(p)
            stk, lex, key, tags, fl = p.ev
            for k in ks:
                if stk is None:
                    ck.notes.append('%s: text for %s not followed' % (short, k))
                    seen.setdefault(k, 0)
                    continue
                why = tree_path(p, ip, k, mode, yes, stk, lex, tags, fl)
                if why is None:
                    seen[k] = seen.get(k, 0) + 1
                elif why.startswith('?'):
                    ck.notes.append('%s: %s: %s' % (short, k, why))
                    seen.setdefault(k, 0)
                else:
                    seen.setdefault(k, 0)
                    ck.bad('tree:%s:%s:%s' % (short, mode, k), f.file, f.line, '%s, node of type %s: %s' % (short, k, why))
        for k in ID:
            if k not in seen:
                ck.bad('tree:%s:%s:%s' % (short, mode, k), f.file, f.line, '%s: nothing is written for nodes of type %s' % (short, k))
            elif seen[k]:
                ck.ok(1, '%s: %s' % (short, k))
    return n


def texts(ck, pr, f, dom, pv=None):
    ip = TI(pr, dom)
    try:
        r = ip.run(f, param_values=pv)
    except P.ToolError as e:
        ck.notes.append('%s: %s' % (f.qn, e))
        return None, None
    for (file, line, msg), n in dom.errs.items():
        ck.bad('text:%s:%s' % (f.qn, msg), n.fn.file if n.fn else f.file, line, '%s: %s' % (f.qn.replace('conduit::', ''), msg))
    for x in sorted(dom.notes):
        ck.notes.append('%s: %s' % (f.name, x))
    ps = [Path(k, st, v, n) for k, st, v, n in r]
    return ps, ip


def tree_path(p, ip, k, mode, yes, stk, lex, tags, fl):
    if lex is not None:
        return 'a quoted string is not closed'
    if mode == 'json' and stk != (('top', 'done'),):
        return 'the text written is not one complete value'
    kvs = [x for x in fl if x[0] == 'kv']
    avs = [x for x in fl if x[0] == 'av']
    tvs = [x for x in fl if x[0] == 'tv']
    if mode == 'yaml':
        if k != 'object':
            avs = [('av',) + x[2:] for x in kvs if not x[1]]
            kvs = [x for x in kvs if x[1]]
        if k not in ('object', 'list'):
            tvs, avs = [('tv',) + x[1:] for x in avs], []
    if k in ('object', 'list'):
        items = kvs if k == 'object' else avs
        if mode == 'json' and tvs and tvs[0][1] != ('container', 'obj' if k == 'object' else 'arr'):
            return 'it is not written as %s' % ('an object' if k == 'object' else 'an array')
        if not tags:
            return 'its children are not written'
        if not items:
            return None if all(t == 'first' for _, t in tags) else '?no child written'
        for x in items:
            d = x[2] if k == 'object' else x[1]
            if d[0] != 'value':
                return '?value %s' % (d[0],)
            c = child_of(d[1])
            if c is None:
                return '?child %s' % show(d[1])[:60]
            owner, i = c
            if last(d[2]) not in yes['child']:
                return 'a child is written by %s' % last(d[2])
            if k == 'object':
                key = x[1]
                if not key or len(key) != 1 or key[0][0] not in ('esc', 'raw'):
                    return 'a child is written under %s instead of its name' % (keytext(key))
                nm = name_of(key[0][2])
                if nm is None:
                    return '?name'
                if canon(strip(nm[1])) != canon(strip(i)):
                    if unknown(nm[1]) and strip(nm[1])[0] not in ('it', 'op') or unknown(i) and strip(i)[0] not in ('it', 'op'):
                        return '?index'
                    return 'child %s is written under the name of child %s' % (show(i), show(nm[1]))
            w = covers(ip, p, i, lambda b: b[0] == 'call' and last(b[1]) in ('size', 'number_of_children', 'children_size'))
            if w is not None:
                return w
        return None
    if not tvs:
        if mode == 'yaml' and k == 'empty':
            return None
        if mode == 'yaml' and yes['leaf'] != 'node':
            return '?leaf'
        return 'no value is written'
    if len(tvs) > 1:
        return '?several values'
    d = tvs[0][1]
    if yes['leaf'] == 'dtype':
        if d[0] == 'value' and last(d[2]) in yes['child'] and d[1] == ('fld', ('this',), 'm_dtype'):
            return None
        if d[0] == 'value' and d[1][0] == 'call' and last(d[1][1]) == 'dtype':
            return None
        return '?leaf %s' % (d,)
    if k == 'empty':
        return None if d == ('lit', 'null') else 'written as %s instead of null' % (d[1],)
    if k == 'char8_str':
        if d[0] != 'str':
            return 'written as %s, not as a string' % (d[0],)
        c = d[1]
        if len(c) == 1 and c[0][0] == 'esc' and string_of(c[0][2]) is not None:
            return None
        if len(c) == 1 and c[0][0] == 'esc' and unknown(c[0][2]):
            return '?string'
        return 'the text between the quotes is not just the string value' if c else 'written as an empty string'
    if d[0] == 'value':
        t = bare(d[1])
        if t[0] == 'call' and last(t[1]).startswith('as_'):
            m = re.match(r'as_(.*)_(array|accessor)$', last(t[1]))
            kk = NAMES.get(m.group(1)) if m else None
            if kk == k:
                return None
            if kk is not None and m.group(2) == 'array':
                return 'elements are read as %s' % kk
            return '?accessor'
        return '?value %s' % show(t)[:60]
    if d[0] in ('str', 'lit'):
        return 'written as %s' % d[0]
    return '?value %s' % (d[0],)


def keytext(key):
    return '"%s"' % ''.join(x[1] if x[0] == 'lit' else '..' for x in key or ())


def inl(pr, ref, f):
    if ref.get('ctor'):
        return False
    g = pr.funcs.get(ref['usr'])
    if g is None or g.body is None or g.usr == f.usr:
        return False
    return newfn(pr, g)


# ------------------------------------------------------------------ layouts
FIELDS = {'number_of_elements': 'm_num_ele', 'offset': 'm_offset', 'stride': 'm_stride', 'element_bytes': 'm_ele_bytes'}


def layout(ck, pr, qn, mode):
    n = 0
    for f in pr.get(qn):
        st = [p[0] for p in f.params if 'ostream' in p[2]]
        if not st or f.body is None:
            continue
        n += 1
        dom = Text(classify, lambda ref: inl(pr, ref, f), mode, st[0])
        ps, ip = texts(ck, pr, f, dom)
        short = f.qn.replace('conduit::', '')
        for p in ps or ():
            if p.kind == 'throw':
                continue
            stk, lex, key, tags, fl = p.ev
            if stk is None:
                ck.notes.append('%s: text not followed' % short)
                continue
            if mode == 'json' and (stk != (('top', 'done'),) or lex is not None):
                ck.bad('layout:%s' % short, f.file, f.line, '%s: the text written is not one complete value' % short)
                continue
            ks, _ = kinds(p)
            kv = {}
            for x in fl:
                if x[0] == 'kv' and x[1] and len(x[1]) == 1 and x[1][0][0] == 'lit':
                    kv[x[1][0][1]] = (x[2], x[3])
            bad = None
            for key, (d, line) in sorted(kv.items()):
                why = None
                if key == 'dtype':
                    t = inner(d)
                    if t is None:
                        why = '?'
                    elif t[0] == 'call' and t[1] == 'conduit::DataType::id_to_name':
                        a = bare(t[2][0])
                        if not (a == ('fld', ('this',), 'm_id') or a[0] == 'call' and a[1] == 'conduit::DataType::id'):
                            why = 'the type written is that of %s' % show(a)
                    elif t[0] == 'call' and t[1] == 'conduit::DataType::name':
                        pass
                    else:
                        why = '?'
                elif key in FIELDS:
                    if d[0] != 'num':
                        why = '?'
                    else:
                        t = bare(d[2])
                        ok = t == ('fld', ('this',), FIELDS[key]) or t[0] == 'call' and t[1] == 'conduit::DataType::' + key
                        if not ok:
                            why = '"%s" is written with the value %s' % (key, show(t))
                elif key == 'endianness':
                    t = inner(d)
                    if t is None or t[0] != 'call' or t[1] != 'conduit::Endianness::id_to_name':
                        why = '?'
                    else:
                        a = bare(t[2][0])
                        dflt = None
                        for q, b in p.facts.items():
                            if q[0] == 'op' and q[1] == '==' and mentions(q, lambda y: y == ('fld', ('this',), 'm_endianness')) and q[3] == ('c', 0):
                                dflt = b
                        if a[0] == 'call' and last(a[1]) == 'machine_default':
                            if dflt is not True:
                                why = 'the byte order of this machine is written for data of another'
                        elif a == ('fld', ('this',), 'm_endianness') or a[0] == 'call' and last(a[1]) == 'endianness':
                            if dflt is True:
                                why = 'the default byte order is not named'
                        else:
                            why = '?'
                else:
                    continue
                if why == '?':
                    ck.notes.append('%s: %s: %s' % (short, key, str(d)[:80]))
                elif why:
                    bad = True
                    ck.bad('layout:%s:%s' % (short, key), f.file, line, '%s: %s' % (short, why))
                else:
                    ck.ok(1, '%s: "%s" carries its own field' % (short, key))
            for k in ks:
                if k in NUM + ('char8_str',):
                    miss = [x for x in ('dtype', 'endianness') + tuple(FIELDS) if x not in kv]
                    if miss:
                        ck.bad('layout:%s:%s' % (short, miss[0]), f.file, f.line, '%s: "%s" is not written for type %s' % (short, miss[0], k))
                        break
                elif 'dtype' not in kv:
                    ck.bad('layout:%s:dtype' % short, f.file, f.line, '%s: the type of %s is not written' % (short, k))
                    break
    return n


def inner(d):
    """the term a quoted (or bare) text holds"""
    if d[0] == 'str' and len(d[1]) == 1 and d[1][0][0] in ('safe', 'esc'):
        return bare(d[1][0][-1])
    if d[0] == 'text':
        return bare(d[1])
    return None


# ------------------------------------------------------------------ arrays
HOLDS = {'long': ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32'), 'long long': ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32'),
         'unsigned long': ('uint8', 'uint16', 'uint32', 'uint64'), 'unsigned long long': ('uint8', 'uint16', 'uint32', 'uint64'),
         'int': ('int8', 'int16', 'int32', 'uint8', 'uint16'), 'unsigned int': ('uint8', 'uint16', 'uint32'), 'short': ('int8', 'uint8', 'int16'),
         'unsigned short': ('uint8', 'uint16'), 'double': ('float32', 'float64')}


def arrays(ck, pr):
    n = 0
    for f in sorted(pr.funcs.values(), key=lambda f: (f.file, f.line, f.qn)):
        m = re.match(r'conduit::(DataArray|DataAccessor)<(.*)>::(to_json_stream|to_yaml_stream|to_summary_string_stream)$', f.qn)
        if not m or f.body is None:
            continue
        st = [p[0] for p in f.params if 'ostream' in p[2]]
        kind = OFC.get(m.group(2))
        if not st or kind is None or kind not in NUM:
            continue
        summ = m.group(3).startswith('to_summary')
        if summ and m.group(1) == 'DataArray':
            continue
        n += 1
        dom = Text(classify, lambda ref: inl(pr, ref, f), 'yaml' if summ else 'json', st[0])
        short = f.qn.replace('conduit::', '')
        ip = TI(pr, dom)
        try:
            r = ip.run(f)
        except P.ToolError as e:
            ck.notes.append('%s: %s' % (short, e))
            continue
        ps = []
        for k, s, v, nn in r:
            p = Path(k, s, v, nn)
            if k == 'throw':
                continue
            ks, ts = kinds(p)
            if m.group(1) == 'DataArray' and kind not in ks:
                continue
            ps.append(p)
        for (file, line, msg), nn in dom.errs.items():
            if 'as a character' in msg and m.group(1) == 'DataArray':
                continue        # judged below, for the type the array has
            ck.bad('text:%s:%s' % (short, msg), f.file, line, '%s: %s' % (short, msg))
        if summ:
            continue        # shows only some of the elements: just how each is written
        for x in sorted(dom.notes):
            ck.notes.append('%s: %s' % (short, x))
        if not ps:
            ck.bad('array:%s' % short, f.file, f.line, '%s: elements of type %s are never written' % (short, kind))
        done = set()
        for p in ps:
            stk, lex, key, tags, fl = p.ev
            if stk is None:
                ck.notes.append('%s: text not followed' % short)
                continue
            why = array_path(p, ip, kind, stk, lex, tags, fl)
            if why is None:
                ck.ok(1, '%s: every element, as a number of its type' % short)
            elif why.startswith('?'):
                ck.notes.append('%s: %s' % (short, why))
            elif why not in done:
                done.add(why)
                ck.bad('array:%s' % short, f.file, f.line, '%s: %s' % (short, why))
    return n


def array_path(p, ip, kind, stk, lex, tags, fl):
    if lex is not None:
        return 'a quoted string is not closed'
    if stk != (('top', 'done'),):
        return 'the text written is not one complete value'
    vals = [x[-2] for x in fl if x[0] in ('av', 'tv', 'kv') and x[-2][0] != 'container']
    if len(vals) == 1 and vals[0][0] == 'value':
        return None if vals[0][1] == ('this',) else '?other'
    if not vals:
        if not tags:
            return 'no element is written'
        return None if all(t == 'first' for _, t in tags) else 'no element is written'
    for d in vals:
        if d[0] == 'char':
            return 'a number of type %s is written as a character' % d[1]
        if d[0] == 'num':
            ty, t = d[1], d[2]
            while t[0] == 'cast' or t[:2] == ('un', '+'):
                if t[0] == 'cast' and t[1] in HOLDS and kind not in HOLDS[t[1]]:
                    return 'elements of type %s are written as %s' % (kind, t[1])
                t = t[2]
            if kind not in HOLDS.get(ty, ()):
                return 'elements of type %s are written as %s' % (kind, ty)
        elif d[0] == 'ftext' or d[0] == 'str' and len(d[1]) == 1 and d[1][0][0] == 'ftext':
            c = d[2] if d[0] == 'ftext' else d[1][0][2]
            if kind not in ('float32', 'float64'):
                return 'elements of type %s are written as double' % kind
            if d[0] == 'ftext' and d[3] is False:
                return 'inf and nan are written without quotes'
            t = c[2][0]
        else:
            return '?%s' % (d[0],)
        e = bare(t)
        if e[0] == 'ld' or e[0] == 'call' and last(e[1]) in ('element', 'operator[]') and len(e[2]) == 2:
            i = e[2][1] if e[0] == 'call' else None
        else:
            return '?element %s' % show(e)[:60]
        if i is None:
            continue
        w = covers(ip, p, i, lambda b: b[0] == 'call' and last(b[1]) in ('number_of_elements',) or b[0] == 'fld' and b[2] == 'm_num_ele')
        if w is not None:
            return w
    return None


def pairs(ck, pr):
    """to_base64_json: a complete object that holds the schema and the data of the compacted node"""
    n = 0
    for f in pr.get('conduit::Node::to_base64_json'):
        st = [p[0] for p in f.params if 'ostream' in p[2]]
        if not st or f.body is None:
            continue
        n += 1
        dom = Text(classify, lambda ref: inl(pr, ref, f), 'json', st[0])
        ps, ip = texts(ck, pr, f, dom)
        for p in ps or ():
            if p.kind == 'throw':
                continue
            stk, lex, key, tags, fl = p.ev
            if stk is None:
                ck.notes.append('to_base64_json: text not followed')
                continue
            if stk != (('top', 'done'),) or lex is not None:
                ck.bad('base64:complete', f.file, f.line, 'Node::to_base64_json: the text written is not one complete value')
                continue
            kv = {x[1][0][1]: x[2] for x in fl if x[0] == 'kv' and x[1] and len(x[1]) == 1 and x[1][0][0] == 'lit'}
            for k in ('schema', 'data', 'base64'):
                if k not in kv:
                    ck.bad('base64:' + k, f.file, f.line, 'Node::to_base64_json: "%s" is not written' % k)
                else:
                    ck.ok(1, 'to_base64_json: "%s"' % k)
    return n


def run(tier):
    ck = Check('P01', 'other', 'typestate of the output stream along every path of the JSON and YAML writers (one complete value, separators between elements only, names and strings quoted and escaped, each child under its own '
               'name, each element read as its type, each layout field under its own key); case tables of the character escapes for every character; the keys the generators read give the fields of the same name; protocol names select their writer and reader', tier)
    pr = P.load(lambda r: r in FILES)
    J = {'child': ('to_json_generic', 'to_json_stream', 'to_pure_json'), 'leaf': 'node'}
    Y = {'child': ('to_yaml_generic', 'to_yaml_stream', 'to_pure_yaml'), 'leaf': 'node'}
    n = tree(ck, pr, 'conduit::Node::to_json_generic', 'json', J, {'detailed': False, 'address': False})
    n += tree(ck, pr, 'conduit::Schema::to_json_stream', 'json', dict(J, leaf='dtype'))
    n += tree(ck, pr, 'conduit::Node::to_yaml_generic', 'yaml', Y, {'detailed': False})
    n += tree(ck, pr, 'conduit::Schema::to_yaml_stream', 'yaml', dict(Y, leaf='dtype'))
    n += layout(ck, pr, 'conduit::DataType::to_json_stream', 'json')
    n += layout(ck, pr, 'conduit::DataType::to_yaml_stream', 'yaml')
    n += pairs(ck, pr)
    ck.floor('tree writers', n, 3)
    ck.count('array writers', arrays(ck, pr))
    chars.run(ck, pr)
    protocols.run(ck, pr)
    return ck
