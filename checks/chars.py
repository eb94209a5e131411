"""P01, characters: the escape table of utils::escape_special_chars and its inverse, read off the loop bodies."""
from summ import *
from interp import Interp, Domain, strip, mentions
from effects import newfn
from loopcov import covers
import prog as P
import cases, json


class Acc(Domain):
    cap = 3000
    inline_depth = 5
    iters = True

    def __init__(self, pr):
        self.pr = pr

    def init(self):
        return ()

    def inline(self, ip, ref, n):
        g = self.pr.funcs.get(ref['usr'])
        return g is not None and g.body is not None and not ref.get('ctor') and (newfn(self.pr, g) or '::check_' in g.qn)

    def pure(self, ref):
        return ref['qn'].startswith(('std::basic_string', 'std::__cxx11', 'std::stoi', 'std::stol', 'std::strto', 'strto', 'std::is', 'is', 'tolower', 'toupper', 'std::to')) and not ref['qn'].endswith('::erase')

    def on_call(self, ip, s, n, ref, obj, args, locs):
        if ref is None:
            return None
        nm = ref['qn'].split('::')[-1]
        if nm in ('operator+=', 'push_back', 'append', 'operator<<') and 'basic_' in ref['qn'] or nm == 'operator<<':
            if obj is not None:
                tgt, vs = locs[0], list(args)
            else:
                tgt, vs = (locs[1][0] if locs[1] else None), list(args[1:])
            if nm == 'append' and len(vs) == 2:
                vs = [('rep', vs[0], vs[1], ref['params'][0][1])]
            elif len(vs) != 1:
                return None
            return [(s.withdom(s.dom + ((tgt, vs[0]),)), obj if obj is not None else args[0])]
        return None


class CI(Interp):
    def __init__(self, pr, dom):
        Interp.__init__(self, pr, dom)
        self.rounds = {}      # loop -> list of (facts, events, env after)
        self.heads, self.first = {}, {}

    def loop_enter(self, n, s, ids, lo, hi):
        k = (self.path, n.id)
        marked = [x for x in s.dom if x[:2] == ('loop', k)]
        if marked:
            i = s.dom.index(marked[0])
            self.rounds.setdefault(k, []).append((dict(s.facts), s.dom[i + 1:], dict(s.env)))
            self.heads.setdefault(k, []).append(marked[0][2])
            s = s.withdom(s.dom[:i])
        s2 = Interp.loop_enter(self, n, s, ids, lo, hi)
        bools = frozenset((l, v[1]) for l, v in s2.env.items() if l[0] == 'v' and v[0] == 'c' and isinstance(v[1], bool))
        if not marked:
            self.first.setdefault(k, set()).add(bools)
        return s2.withdom(s2.dom + (('loop', k, bools),))


class Skip(Exception):
    pass


def atomf(inp, text):
    """meaning of the terms of a loop body for the text `text` (bytes as ints), index variable in a['i']"""
    def size():
        return len(text)

    def at(i):
        if not isinstance(i, int):
            raise cases.Unk(i)
        if i == len(text):
            return 0
        if i < 0 or i > len(text):
            raise cases.Unk(i)
        c = text[i]
        return c - 256 if c > 127 else c

    def atom(t, a, rec):
        k = t[0]
        if k == 'it':
            return a[t] if t in a else a['i']
        if k == 'c' and isinstance(t[1], str):
            return t[1]
        if k in ('p',):
            if t[1] == inp:
                return ''.join(map(chr, text))
            raise cases.Unk(t)
        if k == '*' or k == 'v':
            raise cases.Unk(t)
        if k == 'idx':
            b = rec(t[1])
            if isinstance(b, str):
                i = rec(t[2])
                return sch(b, i)
        if k == 'ld':
            x = strip(t[2])
            if x[0] == 'op' and x[1] == '+':
                for u, w in ((x[2], x[3]), (x[3], x[2])):
                    try:
                        b = rec(u)
                        if isinstance(b, str):
                            return sch(b, rec(w))
                    except cases.Unk:
                        pass
            raise cases.Unk(t)
        if k == 'cast':
            return NotImplemented
        if k == 'op' and t[1] in ('&', '|', '>>', '<<', '/', '%', '^'):
            x, y = rec(t[2]), rec(t[3])
            if not (isinstance(x, int) and isinstance(y, int)):
                raise cases.Unk(t)
            if t[1] in '/%':
                if y == 0:
                    raise cases.Unk(t)
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return q if t[1] == '/' else x - q * y
            return {'&': x & y, '|': x | y, '>>': x >> y, '<<': x << y, '^': x ^ y}[t[1]]
        if k == 'op' and t[1] in ('==', '!='):
            x, y = rec(t[2]), rec(t[3])
            if isinstance(x, str) and isinstance(y, str) or isinstance(x, int) and isinstance(y, int):
                return (x == y) == (t[1] == '==')
            raise cases.Unk(t)
        if k == 'call':
            nm = t[1].split('::')[-1]
            if nm == '<element>' or nm == '<at>':
                return at(a['i'])
            xs = [rec(x) for x in t[2] if not (isinstance(x, tuple) and x and x[0] == 'u')]
            if xs and isinstance(xs[0], str):
                o, r = xs[0], xs[1:]
                if nm in ('size', 'length'):
                    return len(o)
                if nm == 'empty':
                    return not o
                if nm in ('operator[]', 'at'):
                    return sch(o, r[0])
                if nm == 'substr':
                    return o[r[0]:r[0] + r[1]] if len(r) > 1 else o[r[0]:]
                if nm == 'compare':
                    if len(r) == 1:
                        x, y = o, r[0]
                    elif len(r) == 3:
                        x, y = o[r[0]:r[0] + r[1]], r[2]
                    else:
                        raise cases.Unk(t)
                    return (x > y) - (x < y)
                if nm in ('find', 'find_first_of', 'find_first_not_of') and r:
                    y = r[0] if isinstance(r[0], str) else chr(r[0] & 255)
                    st = r[1] if len(r) > 1 else 0
                    if nm == 'find':
                        p = o.find(y, st)
                    else:
                        p = next((j for j in range(st, len(o)) if (o[j] in y) == (nm == 'find_first_of')), -1)
                    return p if p >= 0 else (1 << 64) - 1
                if nm in ('stoi', 'stol', 'stoul', 'strtol', 'strtoul'):
                    base = [x for x in r if isinstance(x, int) and x]
                    try:
                        return int(o, base[-1] if base else 10)
                    except ValueError:
                        raise cases.Unk(t)
                if nm in ('c_str', 'data') or nm.startswith('basic_string'):
                    return o
            if len(xs) == 1 and isinstance(xs[0], int):
                c = xs[0]
                if nm in ('iscntrl',):
                    return 0 <= c < 32 or c == 127
                if nm == 'isxdigit':
                    return 0 <= c < 128 and chr(c) in '0123456789abcdefABCDEF'
                if nm == 'isdigit':
                    return 48 <= c < 58
                if nm == 'isprint':
                    return 32 <= c < 127
                if nm == 'tolower':
                    return ord(chr(c).lower()) if 0 <= c < 128 else c
                if nm == 'toupper':
                    return ord(chr(c).upper()) if 0 <= c < 128 else c
            raise cases.Unk(t)
        if k == 'glob':
            raise cases.Unk(t)
        return NotImplemented
    return atom


def sch(b, i):
    if not isinstance(i, int) or not 0 <= i <= len(b):
        raise cases.Unk(i)
    if i == len(b):
        return 0
    c = ord(b[i])
    return c - 256 if c > 127 else c


def ev(t, i, atom, its):
    a = {'i': i}
    return evc(t, a, atom)


def evc(t, a, atom):
    """evalt with C casts to small types"""
    return cases.evalt(lower(t), a, atom2(atom))


def lower(t):
    """give small integer casts a meaning the evaluator keeps"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'cast' and t[1].replace('const ', '') in ('unsigned char', 'signed char', 'char'):
        return ('trunc', t[1].replace('const ', ''), lower(t[2]))
    if t[0] == 'c':
        return t
    return tuple(lower(x) if isinstance(x, tuple) else x for x in t)


def atom2(atom):
    def f(t, a, rec):
        if t[0] == 'trunc':
            v = rec(t[2])
            if not isinstance(v, int):
                raise cases.Unk(t)
            v &= 255
            return v if t[1] == 'unsigned char' or v < 128 else v - 256
        return atom(t, a, rec)
    return f


def step(rounds, inp, text, i, out):
    """the outcomes of one iteration on `text` at index i: list of (emitted text, next index)"""
    atom = atomf(inp, text)
    res = []
    for facts, evs, env, var in rounds:
        a = {'i': i}
        ok = True
        unk = None
        for t, b in facts.items():
            try:
                v = evc(t, a, atom)
                if cases.truth(v) != b:
                    ok = False
                    break
            except (cases.Unk, cases.Need, TypeError, KeyError, IndexError) as e:
                unk = t
        if not ok:
            continue
        if unk is not None:
            raise Skip('condition %s' % show(unk)[:80])
        txt = ''
        for tgt, v in evs:
            if tgt != out:
                continue
            if v[0] == 'rep':
                raise Skip('append')
            try:
                x = evc(v, a, atom)
            except (cases.Unk, cases.Need, TypeError, KeyError, IndexError):
                raise Skip('text %s' % show(v)[:80])
            txt += x if isinstance(x, str) else chr(x & 255)
        if var is None:
            nx = i + 1
        else:
            try:
                nx = evc(env[var], a, atom)
            except (cases.Unk, cases.Need, TypeError, KeyError, IndexError):
                raise Skip('index')
        res.append((txt, nx))
    return res


def table(ck, pr, qn, whole=False):
    """the loop of a text transformation"""
    fs = [f for f in pr.get(qn) if f.body is not None]
    if not fs:
        ck.notes.append('%s: not found' % qn)
        return None
    f = fs[0]
    dom = Acc(pr)
    ip = CI(pr, dom)
    try:
        r = ip.run(f)
    except P.ToolError as e:
        ck.notes.append('%s: %s' % (qn, e))
        return None
    outs = set()
    for k, s, v, n in r:
        if k != 'return':
            continue
        evs = [e for e in s.dom if e and e[0] != 'loop']
        outs |= {e[0] for e in evs}
        if evs:
            ck.notes.append('%s: text written outside its loop' % qn)
    ks = [k for k in ip.rounds]
    if len(ks) != 1:
        ck.notes.append('%s: %d loops' % (qn, len(ks)))
        return None
    rounds = []
    outs = set()
    k = ks[0]
    for facts, evs, env in ip.rounds[k]:
        var = None
        for loc, v in env.items():
            it = ('it',) + k + (loc,)
            if it in ip.starts and any(strip(x) == ('c', 0) for x in ip.starts[it]):
                var = loc
        outs |= {e[0] for e in evs if e[0] is not None}
        # the iteration's own variable is called i by the evaluation
        rounds.append((facts, evs, env, var))
    if whole:
        rv = {('v', (), y.d[-1]) for x in f.body.walk() if x.k == 'Return' for y in x.walk() if y.k == 'Ref' and y.d[0] == 'v'}
        outs &= rv
    if len(outs) != 1 or not rounds:
        ck.notes.append('%s: result not found' % qn)
        return None
    inp = f.params[0][0]
    return f, rounds, inp, list(outs)[0], ip


def run(ck, pr):
    sanitize(ck, pr)
    e = table(ck, pr, 'conduit::utils::escape_special_chars')
    tab = {}
    if e:
        f, rounds, inp, out, ip = e
        bad = set()
        for c in range(1, 256):
            try:
                rs = step(rounds, inp, [c], 0, out)
            except Skip as x:
                ck.notes.append('escape: %s' % x)
                continue
            if not rs:
                ck.bad('escape:lost', f.file, f.line, 'escape_special_chars: character %d is lost' % c)
                continue
            for txt, nx in set(rs):
                tab[c] = txt
                why = None
                if nx != 1:
                    why = 'the character after character %d is skipped or read again' % c
                elif c > 127:
                    if txt != chr(c):
                        why = 'character %d of a multi-byte character is changed' % c
                else:
                    try:
                        ok = json.loads('"' + txt + '"') == chr(c) and all(32 <= ord(x) < 127 for x in txt)
                    except ValueError:
                        ok = False
                    if not ok:
                        why = 'character %d becomes %r, which a JSON or YAML reader does not turn back into it' % (c, txt)
                if why is None:
                    ck.ok(1, 'escape of character %d' % c if c in (10, 34, 92) else None)
                else:
                    bad.add(why)
        for w in sorted(bad)[:4]:
            ck.bad('escape:' + w, f.file, f.line, 'escape_special_chars: ' + w)
    u = table(ck, pr, 'conduit::utils::unescape_special_chars')
    if u and tab:
        f, rounds, inp, out, ip = u
        bad = []
        cases_ = [(tab[c], chr(c)) for c in sorted(tab)]
        esc = {t[1] for t, _ in cases_ if len(t) > 1 and t[0] == '\\'} | {'/', 'n', 't', 'r', 'b', 'f', '"', '\\'}
        cases_ += [('\\' + chr(x), '\\' + chr(x)) for x in range(33, 127) if chr(x) not in esc]
        cases_ += [('\\', '\\'), ('\\/', '/'), ('\\n', '\n'), ('\\t', '\t'), ('\\r', '\r'), ('\\b', '\b'), ('\\f', '\f'), ('\\"', '"'), ('\\\\', '\\')]
        for src, want in cases_:
            for pre, post in (('', ''), ('x', 'y')):
                if src == '\\' and post:
                    continue
                text = [ord(x) for x in pre + src + post]
                try:
                    got = drive(rounds, inp, text, out)
                except Skip as x:
                    ck.notes.append('unescape: %s' % x)
                    continue
                if got != pre + want + post:
                    bad.append('%r becomes %r instead of %r' % (pre + src + post, got, pre + want + post))
                else:
                    ck.ok(1, 'unescape of %r' % src if src == '\\n' else None)
        for w in bad[:4]:
            ck.bad('unescape:' + w, f.file, f.line, 'unescape_special_chars: ' + w)


def sanitize(ck, pr):
    """json_sanitize, as an automaton over its boolean state, leaves every quoted string alone: product with the automaton of JSON strings"""
    e = table(ck, pr, 'conduit::utils::json_sanitize', True)
    if not e:
        return
    f, rounds, inp, out, ip = e
    k = list(ip.rounds)[0]
    rs = list(zip(ip.heads[k], rounds))
    inside = [ord(c) for c in '"\\a/ 0{:n._,']
    outside = [ord(c) for c in '{}[]:, \n01-"']
    vs = {l for b in ip.heads[k] for l, _ in b}
    start = [('out', b, None) for b in ip.first.get(k, ())]
    seen = {}
    todo = [(x, '') for x in start]
    n = 0
    try:
        while todo:
            (ref, b, prev), hist = todo.pop(0)
            if (ref, b, prev) in seen:
                continue
            seen[(ref, b, prev)] = hist
            for c in (outside if ref == 'out' else inside):
                for nxt in ((ord('/'), ord('x')) if ref != 'out' else (ord('x'),)):
                    text = ([prev] if prev is not None else []) + [c, nxt]
                    i = len(text) - 2
                    sub = [r for h, r in rs if h == b]
                    n += 1
                    res = steps(sub, inp, text, i, out, vs)
                    if not res:
                        raise Skip('no transition')
                    if len({(t, bb) for t, bb in res}) != 1:
                        raise Skip('several transitions')
                    t, bb = res[0]
                    if t != chr(c):
                        what = 'in a quoted string' if ref != 'out' else 'between values'
                        ck.bad('sanitize:' + what, f.file, f.line, 'json_sanitize: after %r, the character %r %s becomes %r' % (hist, chr(c), what, t))
                        return
                    r2 = ref
                    if ref == 'out':
                        r2 = 'str' if c == 34 else 'out'
                    elif ref == 'str':
                        r2 = 'out' if c == 34 else 'esc' if c == 92 else 'str'
                    else:
                        r2 = 'str'
                    todo.append(((r2, bb, c), (hist + chr(c))[-12:]))
            if len(seen) > 3000:
                raise Skip('states')
        ck.ok(len(seen), 'json_sanitize: quoted strings unchanged')
        ck.count('states of json_sanitize', len(seen))
    except Skip as x:
        ck.notes.append('json_sanitize: %s' % x)


def steps(rounds, inp, text, i, out, vs):
    res = []
    for r in rounds:
        for t, nx in step([r], inp, text, i, out):
            if nx != i + 1:
                raise Skip('index')
            res.append((t, frozenset((l, v[1]) for l, v in r[2].items() if l in vs and v[0] == 'c' and isinstance(v[1], bool))))
    return res


def drive(rounds, inp, text, out):
    """the table of the loop body applied along a text"""
    i, o, n = 0, '', 0
    while i < len(text):
        rs = set(step(rounds, inp, text, i, out))
        if len(rs) != 1:
            raise Skip('%d outcomes' % len(rs))
        t, j = rs.pop()
        o += t
        n += 1
        if not isinstance(j, int) or j <= i and n > 50:
            raise Skip('index')
        i = j
    return o
