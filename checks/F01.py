"""F01: the Fortran interface binds the C functions it names with matching argument lists, and its
wrapper procedures forward their arguments (strings null-terminated) to the procedure they are named after."""
import glob, os, re
from common import Check
import prog as P
from summ import OFC, NAMES, WIDTH

WRAP = re.compile(r'^c_(conduit_.*)$')


def logical_lines(path):
    """(line number, text) with comments dropped and continuations joined; case kept for strings only"""
    out, cur, start = [], '', 0
    for i, l in enumerate(open(path, errors='replace'), 1):
        if l.lstrip().startswith('#'):
            continue
        q, t = None, ''
        for c in l.rstrip('\n'):
            if q:
                t += c
                if c == q:
                    q = None
            elif c in '"\'':
                q = c
                t += c
            elif c == '!':
                break
            else:
                t += c
        t = t.strip()
        if not t:
            continue
        if t.startswith('&'):
            t = t[1:].lstrip()
        if not cur:
            start = i
        if t.endswith('&'):
            cur += ' ' + t[:-1]
            continue
        for part in (cur + ' ' + t).split(';') if '"' not in cur + t and "'" not in cur + t else [cur + ' ' + t]:
            out.append((start, re.sub(r'\s+', ' ', part).strip()))
        cur = ''
    return out


class Proc:
    def __init__(self, line, kind, name, args, result, bind):
        self.line, self.kind, self.name, self.args, self.result, self.bind = line, kind, name.lower(), [a.lower() for a in args], result, bind
        self.decl = {}
        self.body = []
        self.file = None


def procs(path):
    """procedures of a file: interface bodies and module procedures"""
    res = []
    cur = None
    iface = 0
    for ln, t in logical_lines(path):
        l = t.lower()
        if re.match(r'(abstract )?interface\b', l):
            iface += 1
            continue
        if l.startswith('end interface'):
            iface -= 1
            continue
        m = re.match(r'^(?:(?:pure|recursive|elemental) )*(?:([a-z]+ ?(?:\([^)]*\))?) )?(function|subroutine) (\w+) ?(?:\(([^)]*)\))?(.*)$', t, re.I)
        if m and not l.startswith('end') and not l.startswith('call') and (m.group(1) is None or m.group(1).split('(')[0].strip().lower() in ('integer', 'real', 'type', 'logical', 'character')):
            args = [a.strip() for a in (m.group(4) or '').split(',') if a.strip()]
            tail = m.group(5)
            b = re.search(r'bind ?\( ?c ?(?:, ?name ?= ?["\']([^"\']*)["\'])? ?\)', tail, re.I)
            r = re.search(r'result ?\( ?(\w+) ?\)', tail, re.I)
            cur = Proc(ln, m.group(2).lower(), m.group(3), args, r.group(1).lower() if r else m.group(3).lower(), (b.group(1) or m.group(3).lower()) if b else None)
            cur.iface = iface > 0
            cur.file = path
            if m.group(1):
                cur.decl[cur.result] = (m.group(1).lower().replace(' ', ''), set(), False)
            res.append(cur)
            continue
        if re.match(r'^end ?(function|subroutine)\b', l):
            cur = None
            continue
        if cur is None:
            continue
        m = re.match(r'^((?:type|class|integer|real|logical|character|double precision|complex) ?(?:\((?:[^()]|\([^()]*\))*\))?)((?: ?, ?(?:\w+ ?(?:\([^)]*\))?))*) ?:: ?(.*)$', l)
        if m:
            base = m.group(1).replace(' ', '')
            attrs = {a.strip().replace(' ', '') for a in re.findall(r', ?(\w+ ?(?:\([^)]*\))?)', m.group(2))}
            dim = any(a.startswith('dimension') for a in attrs)
            for v in re.findall(r'(\w+) ?(\([^)]*\))?', m.group(3)):
                cur.decl[v[0]] = (base, attrs, dim or bool(v[1]))
            continue
        if l.startswith(('use ', 'implicit ', 'import')):
            continue
        cur.body.append((ln, t))
    return res


FT = {'integer(c_int8_t)': 1, 'integer(c_int16_t)': 2, 'integer(c_int32_t)': 4, 'integer(c_int64_t)': 8, 'integer(c_int)': 4, 'integer(c_long)': 8, 'integer(c_short)': 2,
      'integer(c_signed_char)': 1, 'integer(c_size_t)': 8, 'integer(1)': 1, 'integer(2)': 2, 'integer(4)': 4, 'integer(8)': 8, 'integer': 4, 'integer(c_long_long)': 8,
      'integer(c_intptr_t)': 8, 'integer(kind=c_size_t)': 8, 'integer(kind=4)': 4, 'integer(kind=8)': 8}
FR = {'real(c_float)': 4, 'real(c_double)': 8, 'real(4)': 4, 'real(8)': 8, 'real': 4, 'real(kind=4)': 4, 'real(kind=8)': 8, 'doubleprecision': 8}


def fclass(base):
    base = base.replace('kind=', '') if base.replace('kind=', '') in FT or base.replace('kind=', '') in FR else base
    if base in FT:
        return 'i', FT[base]
    if base in FR:
        return 'f', FR[base]
    if base == 'type(c_ptr)':
        return 'p', 8
    if base == 'type(c_funptr)':
        return 'fp', 8
    if base.startswith('character'):
        return 's', 1
    if base.startswith('logical'):
        return 'l', 1 if 'c_bool' in base else 4
    return None, 0


def cclass(ty):
    t = ty.replace('const ', '').strip()
    if '(*)' in t:
        return 'fp', 8, None
    if t.endswith('*'):
        e = t[:-1].strip()
        k = OFC.get(e)
        return 'p', 8, ('f' if k and k[0] == 'f' else 'i' if k else None, WIDTH[k]) if k else (e, 0)
    k = OFC.get(t) or {'bool': 'uint8'}.get(t)
    if t == 'bool':
        return 'l', 1, None
    if k is None:
        return None, 0, None
    return ('f' if k[0] == 'f' else 'i'), (1 if k == 'char8_str' else WIDTH[k]), None


def compat(f, dim, value, c):
    """None if a Fortran dummy (class,size), array?, by value? matches the C parameter"""
    fc, fs = f
    cc, cs, el = c
    if fc is None or cc is None:
        return '?'
    if cc == 'fp' or fc == 'fp':
        return None if cc == fc or cc == 'p' else 'a procedure pointer does not match'
    if cc == 'p':
        if fc == 'p':
            if value and not dim:
                return None
            return None if el and el[0] not in ('i', 'f', None) and False else 'a pointer is passed by reference (C gets its address)' if not dim else None
        if value and not dim:
            return 'a value is passed where C expects a pointer'
        if fc == 's':
            return None if el and (el[1] == 1 or el[0] == 'char') else 'a string is passed for %s' % (el,)
        if el and el[0] in ('i', 'f') and el != (fc, fs):
            return 'elements are %s*%d in Fortran and %s*%d in C' % (fc, fs, el[0], el[1])
        return None
    if dim or not value:
        return 'passed by reference where C expects a value'
    if fc == 'p':
        return 'a pointer is passed where C expects a value'
    if (fc, fs) != (cc, cs):
        return '%s*%d in Fortran, %s*%d in C' % (fc, fs, cc, cs)
    return None


def compat_ret(f, c):
    fc, fs = f
    cc, cs, el = c
    if fc is None or cc is None:
        return '?'
    if fc == 'l' and cc in ('i', 'l'):
        return None            # 0/1 results
    if cc == 'p':
        return None if fc == 'p' else 'a pointer is returned by C'
    return None if (fc, fs) == (cc, cs) else 'the result is %s*%d in Fortran and %s*%d in C' % (fc, fs, cc, cs)


def split_args(s):
    out, d, cur, q = [], 0, '', None
    for c in s:
        if q:
            cur += c
            if c == q:
                q = None
            continue
        if c in '"\'':
            q = c
        if c in '([':
            d += 1
        if c in ')]':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def calls(text):
    """(name, [args]) of procedure references in a statement"""
    res = []
    for m in re.finditer(r'\b(\w+) ?\(', text):
        d, i = 1, m.end()
        while i < len(text) and d:
            d += {'(': 1, ')': -1}.get(text[i], 0)
            i += 1
        res.append((m.group(1).lower(), split_args(text[m.end():i - 1])))
    return res


def run(tier):
    ck = Check('F01', 'other', 'every bind(C) interface names an existing C function and agrees with it in the number, order, type, size and passing mode of arguments and in the result; '
               'every wrapper procedure forwards its arguments in order to the procedure of its own name, null-terminating strings', tier)
    pr = P.load(lambda r: r.endswith('_c.cpp'))
    cf = {f.name: f for f in pr.funcs.values() if f.qn == f.name}
    CF.update(cf)
    files = sorted(glob.glob(P.REPO + '/src/libs/*/fortran/*.[fF]90'))
    allp = [p for fl in files for p in procs(fl)]
    bound = {}
    nb = nw = 0
    for p in allp:
        if p.bind is None:
            continue
        nb += 1
        bound[p.name] = p
        rel = P.rel(p.file)
        c = cf.get(p.bind)
        if c is None:
            if p.bind.startswith('conduit_'):
                ck.bad('bind:' + p.bind, p.file, p.line, 'the interface %s binds C function %s, which does not exist' % (p.name, p.bind))
            continue
        if base_name(p.name) != p.bind.lower():
            ck.bad('bindname:' + p.name, p.file, p.line, 'the interface %s binds C function %s' % (p.name, p.bind))
            continue
        if len(p.args) != len(c.params):
            ck.bad('nargs:' + p.name, p.file, p.line, '%s declares %d arguments, C function %s has %d' % (p.name, len(p.args), p.bind, len(c.params)))
            continue
        for i, a in enumerate(p.args):
            d = p.decl.get(a)
            if d is None:
                ck.bad('undecl:%s:%s' % (p.name, a), p.file, p.line, '%s: argument %s is not declared' % (p.name, a))
                continue
            why = compat(fclass(d[0]), d[2], 'value' in d[1], cclass(c.params[i][2]))
            if why == '?':
                ck.notes.append('%s: %s (%s) against %s not resolved' % (p.name, a, d[0], c.params[i][2]))
            elif why:
                ck.bad('arg:%s:%s' % (p.name, a), p.file, p.line, '%s: argument %s (%s) against %s of %s: %s' % (p.name, a, d[0], c.params[i][2], p.bind, why))
            else:
                ck.ok(1, '%s(%s) <-> %s' % (p.name, a, c.params[i][2]))
        if p.kind == 'subroutine':
            if c.ret != 'void':
                ck.notes.append('%s ignores the %s result of %s' % (p.name, c.ret, p.bind))
        else:
            d = p.decl.get(p.result)
            why = 'the C function returns nothing' if c.ret == 'void' else '?' if d is None else compat_ret(fclass(d[0]), cclass(c.ret))
            if why == '?':
                ck.notes.append('%s: result not resolved' % p.name)
            elif why:
                ck.bad('ret:' + p.name, p.file, p.line, '%s: %s' % (p.name, why))
            else:
                ck.ok(1)
    names = {p.name for p in allp}
    for p in allp:
        if p.bind is not None or p.iface or not p.body:
            continue
        nw += wrapper(ck, p, names, bound)
    bindings(ck, sorted({p.file for p in allp}), names)
    enums(ck)
    ck.floor('bind(C) interfaces', nb, 100)
    ck.counts['wrapper procedures'] = nw
    return ck


SUF = re.compile(r'(_(u?int(8|16|32|64)?|float(32|64)?|double|char8_str|node|ptr|by_index|by_name))+$')


def bindings(ck, files, names):
    """type-bound names stand for the procedures named after them, generics for specifics of the same operation"""
    n = 0
    for f in files:
        lines = logical_lines(f)
        b = {}
        for ln, t in lines:
            m = re.match(r'^procedure ?(?:, ?\w+ ?)*:: ?(.*)$', t, re.I)
            if m:
                for part in m.group(1).lower().split(','):
                    q = [x.strip() for x in part.split('=>')]
                    if len(q) == 2:
                        b[q[0]] = (q[1], ln)
        for x, (tgt, ln) in sorted(b.items()):
            n += 1
            m = re.match(r'^(conduit_\w*?obj_)(\w+)$', tgt)
            if m and m.group(2) != x and (m.group(1) + x in names or (m.group(2) in b and re.sub('_by_index$', '', x) != m.group(2))):
                ck.bad('method:' + x, f, ln, 'the method %s is bound to %s' % (x, tgt))
            else:
                ck.ok(1, 'method %s => %s' % (x, tgt))
        for ln, t in lines:
            m = re.match(r'^generic ?(?:, ?\w+ ?)*:: ?(\w+) ?=> ?(.*)$', t, re.I)
            if not m:
                continue
            g = m.group(1).lower()
            gs = {re.match(r'^generic ?(?:, ?\w+ ?)*:: ?(\w+)', u, re.I).group(1).lower() for _, u in lines if re.match(r'^generic ?(?:, ?\w+ ?)*:: ?\w+', u, re.I)}
            for s in [x.strip().lower() for x in m.group(2).split(',')]:
                n += 1
                op = lambda y: (SUF.sub('', y), '_ptr' in y)
                mine = op(s)
                other = mine[0] != op(g)[0] and any(op(h)[0] == mine[0] for h in gs if h != g)
                ptr = mine[0] == op(g)[0] and mine[1] != op(g)[1] and any(op(h) == mine for h in gs if h != g)
                if (other or ptr) and s != g + '_path':
                    ck.bad('generic:%s:%s' % (g, s), f, ln, 'the generic %s resolves to %s, another operation' % (g, s))
                else:
                    ck.ok(1)
    ck.counts['methods and generics'] = n


def enums(ck):
    """enumerators of the Fortran modules hold the values of the C ones of the same name"""
    cv = {}
    for h in glob.glob(os.path.join(P.REPO, 'src/libs/*/conduit*_types.h')) + glob.glob(os.path.join(P.REPO, 'src/libs/*/conduit*enum*.h')):
        text = re.sub(r'/\*.*?\*/|//[^\n]*', '', open(h, errors='replace').read(), flags=re.S)
        for body in re.findall(r'\benum\b[^{;]*\{([^}]*)\}', text):
            v = -1
            for e in body.split(','):
                e = e.strip()
                m = re.match(r'^(\w+)(?:\s*=\s*(\w+))?$', e)
                if not m:
                    break
                v = int(m.group(2), 0) if m.group(2) and m.group(2)[0].isdigit() else cv.get(m.group(2).lower()) if m.group(2) else v + 1
                if v is None:
                    break
                cv[m.group(1).lower()] = v
    n = 0
    for f in sorted(glob.glob(os.path.join(P.REPO, 'src/libs/*/fortran/*.f90')) + glob.glob(os.path.join(P.REPO, 'src/libs/*/fortran/*.inc'))):
        v = -1
        for ln, t in logical_lines(f):
            l = t.lower()
            if re.match(r'^enum ?,', l):
                v = -1
            m = re.match(r'^enumerator ?(?:::)? ?(.*)$', l)
            if not m:
                continue
            for e in m.group(1).split(','):
                q = re.match(r'^ ?(\w+)(?: ?= ?(-?\d+))? ?$', e)
                if not q:
                    break
                v = int(q.group(2)) if q.group(2) else v + 1
                n += 1
                if q.group(1) in cv and cv[q.group(1)] != v:
                    ck.bad('enum:' + q.group(1), f, ln, 'enumerator %s is %d, the C constant %d' % (q.group(1), v, cv[q.group(1)]))
                else:
                    ck.ok(1)
    ck.counts['enumerators'] = n


def base_name(n):
    m = WRAP.match(n)
    return m.group(1) if m else n


ALIAS = {}


def wrapper(ck, p, names, bound):
    stem = p.name.replace('conduit_node_obj_', 'conduit_node_').replace('conduit_obj_', 'conduit_')
    for pre in ('conduit_datatype_obj_', ):
        stem = stem.replace(pre, 'conduit_datatype_')
    objp = p.name != stem
    cs = [(ln, n, a) for ln, t in p.body for n, a in calls(t) if n in names or n in bound]
    if not cs:
        return 0
    # the procedures that stand for this one
    same = [x for x in cs if base_name(x[1]) == stem]
    args = set(p.args)

    def arg(x):
        """dummy argument a Fortran actual stands for"""
        y = x.lower().replace(' ', '')
        y = re.sub(r'%\w+$', '', y)
        m = re.match(r'^(?:trim\()?(\w+)\)?(?://c_null_char)?$', y)
        return m.group(1) if m else None
    if not same:
        # e.g. fetch_path_as_X: fetch, then as_X
        m = re.match(r'(.*_)fetch_path_(as_.*)$', stem)
        if m:
            second = [x for x in cs if base_name(x[1]) == m.group(1) + m.group(2)]
            first = [x for x in cs if base_name(x[1]) in (m.group(1) + 'fetch', m.group(1) + 'fetch_existing')]
            if not second or not first:
                others = [n for _, n, _ in cs]
                ck.bad('wrap:' + p.name, p.file, p.line, '%s calls %s, not fetch and %s' % (p.name, ', '.join(others), m.group(2)))
                return 1
            strings(ck, p, cs, bound)
            ck.ok(1, p.name)
            return 1
        others = sorted({n for _, n, _ in cs})
        if len(others) == 1 and stem in CF and base_name(others[0]) in CF:
            ck.bad('wrap:' + p.name, p.file, cs[0][0], '%s calls %s' % (p.name, others[0]))
            return 1
        ck.notes.append('%s: calls %s' % (p.name, ', '.join(others)))
        strings(ck, p, cs, bound)
        return 1
    ln, n, a = same[-1]
    got = [arg(x) for x in a]
    tgt = None
    want = [x for x in p.args]
    # dummies the callee does not take are results (f_out, res)
    got2 = [g for g in got if g in args]
    exp = [x for x in want if x in got2]
    if got2 != exp:
        ck.bad('order:' + p.name, p.file, ln, '%s passes its arguments as (%s), declared (%s)' % (p.name, ', '.join(map(str, got)), ', '.join(want)))
        return 1
    missing = [x for x in want if x not in got2 and not any(re.search(r'\b%s\b' % re.escape(x), t.lower()) for _, t in p.body)]
    if missing:
        ck.bad('unused:' + p.name, p.file, ln, '%s does not use its argument %s' % (p.name, missing[0]))
        return 1
    strings(ck, p, cs, bound)
    ck.ok(1, '%s -> %s' % (p.name, n))
    return 1


CF = {}


def strings(ck, p, cs, bound):
    """strings handed to C are null-terminated"""
    for ln, n, a in cs:
        if n not in bound:
            continue
        b = bound[n]
        for i, x in enumerate(a):
            if i >= len(b.args):
                break
            d = b.decl.get(b.args[i])
            if d is None or fclass(d[0])[0] != 's':
                continue
            y = x.lower().replace(' ', '')
            m = re.match(r'^(?:trim\()?(\w+)\)?$', y)
            dd = p.decl.get(m.group(1)) if m else None
            if dd is not None and dd[0].startswith('character') and m:
                # a dummy or local handed on as it is
                if any(re.search(r'\b%s ?=.*c_null_char' % m.group(1), t.lower()) for _, t in p.body):
                    ck.ok(1)
                    continue
                ck.bad('nul:%s:%s' % (p.name, b.args[i]), p.file, ln, '%s passes %s to C function %s without a terminating null' % (p.name, x, b.bind))
            elif 'c_null_char' in y or 'char(0)' in y or m is None:
                ck.ok(1)
