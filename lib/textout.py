"""Typestate of a text writer: what is inserted into an output stream, along every path, followed by
an automaton of the JSON grammar (containers, keys, separators, quotes).  Loops are abstracted to
"first iteration" and "some later iteration"; whether an iteration was the last one is taken from the
branch conditions on the loop variable."""
from summ import *
from interp import Interp, Domain, strip, mentions
import cases
import re

WS = (('top', 'v'),)
CHARS = ('char', 'signed char', 'unsigned char', 'const char', 'const signed char', 'const unsigned char')
INTS = ('short', 'int', 'long', 'long long', 'unsigned short', 'unsigned int', 'unsigned long', 'unsigned long long', 'bool')
FLTS = ('float', 'double', 'long double')


class St(tuple):
    """(stack, inside-string content or None, pending key, loop tags, facts about what was written)"""


def bare(t):
    t = strip(t)
    while t and t[0] in ('deref', 'addr', 'ref', '*', 'loc') and isinstance(t[1], tuple):
        t = strip(t[1])
    return t


class Text(Domain):
    cap = 3000
    inline_depth = 6
    iters = True

    def __init__(self, classify, inl, mode='json', stream=None):
        self.classify, self._inl, self.mode, self.stream = classify, inl, mode, stream
        self.errs = {}
        self.notes = set()

    def init(self):
        return (WS, None, None, frozenset(), frozenset())

    def inline(self, ip, ref, n):
        return bool(self._inl(ref))

    def pure(self, ref):
        return ref['qn'].startswith(('conduit::utils::', 'conduit::DataType::', 'conduit::Endianness::', 'std::basic_string', 'std::char_traits'))

    # ------------------------------------------------------------------ stream operations
    def isout(self, v, l):
        for x in (v, l):
            if x is None:
                continue
            b = bare(x)
            if b and b[0] == 'p' and b[1] == self.stream:
                return True
        return False

    def on_call(self, ip, s, n, ref, obj, args, locs):
        if ref is None:
            return None
        qn = ref['qn']
        name = qn.split('::')[-1]
        ol, ls = locs
        if name == 'operator<<':
            if obj is not None and self.isout(obj, ol):
                return self.piece(ip, s, n, args[0], argty(n, 1), obj)
            if obj is None and len(args) == 2 and self.isout(args[0], ls[0] if ls else None):
                return self.piece(ip, s, n, args[1], argty(n, 1), args[0])
            return None
        if name in ('put', 'write') and obj is not None and self.isout(obj, ol):
            return self.piece(ip, s, n, args[0], argty(n, 1), obj)
        if any(self.isout(a, (ls[i] if ls and i < len(ls) else None)) for i, a in enumerate(args) if a is not None):
            if self._inl(ref):
                return None
            k = self.classify(self, ip, s, n, ref, obj, args)
            if k is not None:
                return [(self.emit(ip, s, n, k), ('u', 'void'))]
            s = self.emit(ip, s, n, ('unk', qn))
            return [(s, ('u', 'void'))]
        return None

    def piece(self, ip, s, n, v, ty, stream):
        v = strip(v) if v[0] != 'cast' else v
        t = ty.replace('const ', '').replace(' &', '').strip()
        b = bare(v)
        if b[0] == 'c' and isinstance(b[1], str):
            k = ('lit', b[1])
        elif b[0] == 'c' and t in CHARS and isinstance(b[1], int):
            k = ('lit', chr(b[1] & 255))
        elif t in CHARS:
            k = ('char', t, v)
        elif t in INTS or t in FLTS:
            k = ('num', t, v)
        else:
            k = self.classify(self, ip, s, n, None, None, (v,))
            if k is None:
                k = ('unk', show(v)[:80])
        return [(self.emit(ip, s, n, k), stream)]

    # ------------------------------------------------------------------ automaton
    def err(self, ip, s, n, msg):
        if s.dom[0] is None:
            return
        ok = self.feasible(ip, s)
        if ok is False:
            return
        if ok is None:
            self.notes.add('%d: %s (unresolved)' % (n.line, msg))
            return
        self.errs.setdefault((ip.fnstack[0].file, n.line, msg), n)

    def emit(self, ip, s, n, k):
        stk, lex, key, tags, fl = s.dom
        if stk is None:
            if k[0] == 'raw' and self.mode == 'json':
                self.errs.setdefault((ip.fnstack[0].file, n.line, '%s is written without escaping' % k[1]), n)
            return s
        # inside a string
        if lex is not None:
            if k[0] == 'lit':
                return self.lits(ip, s, n, k[1])
            if k[0] == 'raw':
                self.err(ip, s, n, '%s is written without escaping' % k[1])
                return s.withdom((stk, lex + (('esc',) + k[1:],), key, tags, fl))
            if k[0] in ('esc', 'safe', 'num', 'ftext'):
                return s.withdom((stk, lex + (k,), key, tags, fl))
            if k[0] == 'value':
                self.err(ip, s, n, 'a value is written inside a quoted string')
                return s
            if k[0] == 'char':
                return s.withdom((stk, lex + (k,), key, tags, fl))
            return self.unk(s)
        if k[0] == 'lit':
            return self.lits(ip, s, n, k[1])
        if k[0] == 'ws':
            return s
        if k[0] == 'raw' and self.mode == 'yaml':
            return s.withdom((stk, lex, (('raw',) + k[1:],), tags, fl))
        if k[0] in ('raw', 'esc'):
            self.err(ip, s, n, '%s is written outside quotes' % k[1])
            return self.unk(s)
        if k[0] == 'safe':
            return self.value(ip, s, n, ('text',) + k[1:])
        if k[0] == 'char':
            self.err(ip, s, n, 'a number of type %s is written as a character' % k[1])
            return self.value(ip, s, n, k)
        if k[0] in ('num', 'value', 'ftext'):
            return self.value(ip, s, n, k)
        return self.unk(s)

    def unk(self, s):
        return s.withdom((None, None) + s.dom[2:])

    def lits(self, ip, s, n, text):
        i = 0
        while i < len(text):
            c = text[i]
            stk, lex, key, tags, fl = s.dom
            if stk is None:
                return s
            if lex is not None:
                if c == '\\' and i + 1 < len(text):
                    s = s.withdom((stk, lex + (('lit', text[i:i + 2]),), key, tags, fl))
                    i += 2
                    continue
                if c == '"':
                    s = s.withdom((stk, None, key, tags, fl))
                    s = self.string(ip, s, n, join(lex))
                    i += 1
                    continue
                s = s.withdom((stk, lex + (('lit', c),), key, tags, fl))
                i += 1
                continue
            if c in ' \t\n\r':
                i += 1
                continue
            if c == '"':
                s = s.withdom((stk, (), key, tags, fl))
                i += 1
                continue
            if self.mode == 'yaml':
                if c in ':-#~[],':
                    i += 1
                    continue
                m = re.match(r'[A-Za-z0-9_.+-]+', text[i:])
                if not m:
                    i += 1
                    continue
                w = m.group()
                i += len(w)
                if text[i:i + 1] == ':':
                    s = s.withdom((stk, lex, (('lit', w),), tags, fl))
                else:
                    s = self.value(ip, s, n, ('lit', w))
                continue
            if c in '{[':
                s = self.need(ip, s, n, c)
                stk = s.dom[0]
                if stk is None:
                    return s
                s = s.withdom((stk + (('obj', 'k0', key) if c == '{' else ('arr', 'v0', key),), None, None, tags, fl))
                i += 1
                continue
            if c in '}]':
                k = 'obj' if c == '}' else 'arr'
                top = stk[-1]
                if top[0] != k or top[1] not in ('k0', 'v0', 'e'):
                    self.err(ip, s, n, '"%s" is written where %s is needed' % (c, wanted(top)))
                    return self.unk(s)
                s = s.withdom((stk[:-1], None, top[2], tags, fl))
                s = self.value(ip, s, n, ('container', k))
                i += 1
                continue
            if c in ':,':
                top = stk[-1]
                if c == ':' and top[:2] == ('obj', ':'):
                    nt = ('obj', 'v', top[2])
                elif c == ',' and top[0] in ('obj', 'arr') and top[1] == 'e':
                    nt = (top[0], 'k' if top[0] == 'obj' else 'v', top[2])
                else:
                    self.err(ip, s, n, '"%s" is written where %s is needed' % (c, wanted(top)))
                    return self.unk(s)
                s = s.withdom((stk[:-1] + (nt,), None, key, tags, fl))
                i += 1
                continue
            m = re.match(r'[A-Za-z0-9_.+-]+', text[i:])
            if not m:
                return self.unk(s)
            i += len(m.group())
            s = self.value(ip, s, n, ('lit', m.group()))
        return s

    def need(self, ip, s, n, what):
        """a value starts here"""
        stk = s.dom[0]
        top = stk[-1]
        if top[1] not in ('v', 'v0'):
            self.err(ip, s, n, '%s is written where %s is needed' % ('"%s"' % what if what in '{[' else what, wanted(top)))
            return self.unk(s)
        return s

    def value(self, ip, s, n, d):
        stk, lex, key, tags, fl = s.dom
        if self.mode == 'yaml':
            return s.withdom((stk, lex, None, tags, fl | {('kv', key, d, n.line)}))
        top = stk[-1]
        if top[1] not in ('v', 'v0'):
            self.err(ip, s, n, 'a value is written where %s is needed' % wanted(top))
            return self.unk(s)
        if top[0] == 'top':
            return s.withdom((stk[:-1] + (('top', 'done'),), None, None, tags, fl | {('tv', d, n.line)}))
        if top[0] == 'obj':
            return s.withdom((stk[:-1] + (('obj', 'e', top[2]),), None, None, tags, fl | {('kv', key, d, n.line)}))
        return s.withdom((stk[:-1] + (('arr', 'e', top[2]),), None, None, tags, fl | {('av', d, n.line)}))

    def string(self, ip, s, n, content):
        stk, lex, key, tags, fl = s.dom
        if self.mode == 'yaml':
            return self.value(ip, s, n, ('str', content))
        top = stk[-1]
        if top[0] == 'obj' and top[1] in ('k0', 'k'):
            return s.withdom((stk[:-1] + (('obj', ':', top[2]),), None, content, tags, fl))
        return self.value(ip, s, n, ('str', content))

    # ------------------------------------------------------------------ small cases of the facts
    def atom(self, ip, s, t, a, rec):
        if t[0] == 'it':
            tag = dict(s.dom[3]).get((t[1], t[2]))
            st = ip.starts.get(t, ())
            if not any(strip(x) == ('c', 0) for x in st):
                raise cases.Unk(t)
            return cases.ask(a, t, (0,) if tag == 'first' else (1, 2, 3, 4))
        if t[0] in ('call', 'p', 'fld', 'idx') or t[0] == '*':
            if t[0] == 'call' and t[1].split('::')[-1] in ('operator==', 'operator!='):
                raise cases.Unk(t)
            return cases.ask(a, t, (0, 1, 2, 3, 4))
        return NotImplemented

    def relevant(self, s):
        """facts about loop variables and the counts they are compared with"""
        ts = [(t, b) for t, b in s.facts.items() if t[0] == 'op' and t[1] in ('<', '==')]
        keep = [(t, b) for t, b in ts if mentions(t, lambda x: x[0] == 'it')]
        at = set()
        for t, b in keep:
            for x in t[2:]:
                atoms(x, at)
        return keep + [(t, b) for t, b in ts if (t, b) not in keep and any(mentions(t, lambda x: x == y) for y in at)]

    def feasible(self, ip, s):
        unk = False
        for a, u in cases.models(self.relevant(s), lambda t, a, rec: self.atom(ip, s, t, a, rec)):
            if not u:
                return True
            unk = True
        return None if unk else False


def atoms(t, acc):
    if not isinstance(t, tuple) or not t:
        return
    if t[0] in ('call', 'p', 'fld', 'it'):
        acc.add(t)
        return
    for x in t:
        atoms(x, acc)


def wanted(top):
    return {'k0': 'a name or "}"', 'k': 'a name', ':': '":"', 'v': 'a value', 'v0': 'a value or "]"', 'e': '"," or the end', 'done': 'nothing more'}[top[1]]


def join(lex):
    out = []
    for p in lex:
        if p[0] == 'lit' and out and out[-1][0] == 'lit':
            out[-1] = ('lit', out[-1][1] + p[1])
        else:
            out.append(p)
    return tuple(out)


def argty(n, i):
    c = n.c[1] if len(n.c) > 1 else n.c[0]
    return c.ty if c is not None else ''


class TI(Interp):
    def __init__(self, pr, dom):
        Interp.__init__(self, pr, dom)
        self.conds = {}
        self.cterm = {}

    def loop(self, n, sts, cond, body, inc, post=False, enter=None, leave=None):
        if cond is not None:
            self.conds[cond.id] = n
        return Interp.loop(self, n, sts, cond, body, inc, post, enter, leave)

    def loop_enter(self, n, s, ids, lo, hi):
        k = (self.path, n.id)
        tags = dict(s.dom[3])
        if k not in tags:
            tags[k] = 'first'
        else:
            tags[k] = self.lastness(k, s)
        s2 = Interp.loop_enter(self, n, s, ids, lo, hi)
        d = s2.dom
        return s2.withdom(d[:3] + (frozenset(tags.items()),) + d[4:])

    def lastness(self, k, s):
        """was the iteration that just ended the last one?  from the facts on its loop variable"""
        fs = self.dom.relevant(s)
        fs = [(t, b) for t, b in fs if mentions(t, lambda x: x[0] == 'it' and x[1:3] == k)] + [(t, b) for t, b in fs if not mentions(t, lambda x: x[0] == 'it')]
        ct = self.cterm.get(k)
        if ct is None:
            return 'later?' if len(fs) else 'later'
        others = [f for f in fs if f[0] != ct[0] and mentions(f[0], lambda x: x[0] == 'it')]
        if not others:
            return 'later'
        its = set()
        atoms(ct[0], its)
        its = [x for x in its if x[0] == 'it']
        if len(its) != 1:
            return 'later?'
        it = its[0]
        st = [strip(x) for x in self.starts.get(it, ())]
        nxt = {strip(v) for kk, v in s.env.items() if kk == it[3]}
        if nxt != {('op', '+', it, ('c', 1))} or ('c', 0) not in st:
            return 'later?'

        def atom(t, a, rec):
            if t == it:
                return cases.ask(a, t, (0, 1, 2, 3))
            return self.dom.atom(self, s, t, a, rec)

        def atom2(t, a, rec):
            if t == it:
                return a[it] + 1
            return atom(t, a, rec)
        seen = set()
        tag = dict(s.dom[3]).get(k)
        for a, u in cases.models(fs, atom):
            if u:
                return 'later?'
            if tag == 'first' and a.get(it, 0) != 0 or tag != 'first' and a.get(it, 1) == 0:
                continue
            try:
                seen.add(cases.truth(cases.evalt(ct[0], a, atom2)) == ct[1])
            except (cases.Unk, cases.Need, TypeError, KeyError):
                return 'later?'
        return {(True,): 'more', (False,): 'last'}.get(tuple(seen), 'later')

    def cond(self, n, s, keep=False):
        r = Interp.cond(self, n, s, keep)
        lp = self.conds.get(n.id)
        if lp is None:
            return r
        k = (self.path, lp.id)
        tag = dict(s.dom[3]).get(k)
        out = []
        for s2, b in r:
            new = [(t, v) for t, v in s2.facts.items() if s.facts.get(t) != v]
            if b and len(new) == 1:
                self.cterm[k] = new[0]
            if tag == 'last' and b or tag == 'more' and not b:
                continue
            if self.dom.feasible(self, s2) is False:
                continue
            if tag == 'later?' and s2.dom[0] is not None:
                self.dom.notes.add('%d: loop not resolved' % lp.line)
                s2 = self.dom.unk(s2)
            out.append((s2, b))
        return out
