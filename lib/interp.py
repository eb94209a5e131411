"""A path-sensitive, interprocedural abstract interpreter over the resolved AST.

Values are hash-consed terms (global value numbering); the analysis state maps
locations to values and holds branch facts about opaque terms.  States are merged
when equal (set-of-states joins), loops run to a fixpoint with the loop-modified
locations havocked, callees with a visible body are inlined when the domain wants
it.  No input is executed and no path is handed to a solver: every decision is a
table lookup on value numbers.

Terms:
  ('c', x)               constant (bool, int, str; None is the null pointer)
  ('p', name, i)         parameter of the analysed function
  ('this',)              this object
  ('fld', base, name)    member of an object
  ('call', qn, args, u)  result of a call; u = () for pure calls, else the call-site id
  ('op', o, a, b) ('un', o, a) ('cast', type, v) ('addr', v) ('deref', v) ('idx', b, i)
  ('u', x)               unknown
"""
import sys
from prog import ToolError, Func

sys.setrecursionlimit(100000)
CALLS = ('Call', 'MCall', 'OpCall', 'ICall')
TRUE, FALSE, NULL = ('c', True), ('c', False), ('c', None)


DTQ = 'conduit::DataType::is_'
_S = frozenset(('int8', 'int16', 'int32', 'int64'))
_U = frozenset('u' + x for x in _S)
_F = frozenset(('float32', 'float64'))
DTALL = _S | _U | _F | {'empty', 'object', 'list', 'char8_str'}
# what the DataType predicates mean (T04 decides that the code implements exactly this)
DTPRED = {'number': _S | _U | _F, 'integer': _S | _U, 'signed_integer': _S, 'unsigned_integer': _U, 'floating_point': _F,
          'string': frozenset(('char8_str',)), 'char8_str': frozenset(('char8_str',)), 'empty': frozenset(('empty',)),
          'object': frozenset(('object',)), 'list': frozenset(('list',))}
DTPRED.update({x: frozenset((x,)) for x in _S | _U | _F})


def unqual(ty):
    """a pointer type without qualifiers of the pointer itself"""
    while True:
        t = ty.rstrip()
        for q in ('const', 'volatile', '__restrict', 'restrict'):
            if t.endswith('*' + q) or t.endswith('* ' + q):
                t = t[:-len(q)].rstrip()
        if t == ty:
            return t
        ty = t


def isptr(ty):
    return unqual(ty).endswith('*')


class State:
    __slots__ = ('env', 'facts', 'dom', '_h')

    def __init__(self, env, facts, dom):
        self.env, self.facts, self.dom, self._h = env, facts, dom, None

    def key(self):
        if self._h is None:
            self._h = (frozenset(self.env.items()), frozenset(self.facts.items()), self.dom)
        return self._h

    def set(self, loc, v):
        e = dict(self.env)
        e[loc] = v
        return State(e, self.facts, self.dom)

    def unset(self, locs):
        e = {k: v for k, v in self.env.items() if k not in locs}
        return State(e, self.facts, self.dom)

    def fact(self, t, b):
        f = dict(self.facts)
        f[t] = b
        return State(self.env, f, self.dom)

    def withdom(self, d):
        return State(self.env, self.facts, d)


def mentions(t, pred):
    if isinstance(t, tuple) and t:
        if pred(t):
            return True
        for x in t:
            if isinstance(x, tuple) and mentions(x, pred):
                return True
    return False


def strip(v):
    """drop casts and address/deref pairs"""
    while isinstance(v, tuple) and v and v[0] == 'cast':
        v = v[2]
    return v


class Out:
    """outcomes of executing a statement"""
    __slots__ = ('normal', 'brk', 'cont', 'ret', 'thr')

    def __init__(self, normal=None):
        self.normal = normal if normal is not None else []
        self.brk, self.cont, self.ret, self.thr = [], [], [], []

    def absorb(self, o):
        self.brk += o.brk
        self.cont += o.cont
        self.ret += o.ret
        self.thr += o.thr


class Domain:
    """override to specialise the analysis"""
    name = 'domain'
    iters = False
    inline_depth = 6
    cap = 400
    pure_names = frozenset()
    on_cmp = None       # sees comparisons with their casts
    scaled = False      # pointer arithmetic in bytes

    def init(self):
        return ()

    def on_call(self, ip, st, n, ref, obj, args, locs):
        """return None for the default treatment, or a list of (state, value)"""
        return None

    def inline(self, ip, ref, n):
        return False

    def noreturn(self, ref):
        return ref is not None and (ref.get('noreturn') or ref['qn'] in (
            'conduit::utils::handle_error', 'exit', 'abort', 'std::terminate', 'std::abort', '__assert_fail'))

    def pure(self, ref):
        return False

    def mutates(self, ref):
        """may this non-const method change what the object denotes for the domain?"""
        return True

    def on_branch(self, ip, st, term, val):
        """called when an opaque condition is decided; returns a state or None (infeasible)"""
        return st

    def on_stmt(self, ip, st, n):
        return st

    def on_range(self, ip, st, n, container, entering):
        """a range-based for takes its next element / is exhausted"""
        return st

    def on_load(self, ip, st, n, loc):
        return None

    def on_store(self, ip, st, n, loc, v):
        return st

    def on_unwind(self, ip, st, n):
        """state at a point where an exception leaves the function (explicit throw)"""
        return st

    def merge(self, sts):
        return None


def boolish(t):
    """a term that is a truth value (the result of a has_.. or is_.. query, or its negation)"""
    if t[0] == 'un' and t[1] == '!':
        return boolish(strip(t[2]))
    return t[0] == 'call' and t[1].rsplit('::', 1)[-1].startswith(('has_', 'is_'))


class Interp:
    def __init__(self, prog, dom):
        self.prog, self.dom = prog, dom
        self.steps = 0
        self.branches = 0
        self.calls_seen = 0
        self.max_states = 0
        self.inlined = set()
        self.path = ()
        self.framevars = []
        self.step_limit = 3000000
        self.stack = []
        self.fnstack = []
        self.lam, self.lamf = {}, {}
        self.starts = {}
        self.stays = set()      # loop variables that some iteration leaves unchanged

    # ------------------------------------------------------------------ top level
    def run(self, fn, dom0=None, param_values=None):
        """returns list of (kind, state, value, node): kind in return/throw"""
        env = {}
        self.path = ()
        self.fnstack = [fn]
        for i, (name, vid, ty) in enumerate(fn.params):
            loc = ('v', (), vid)
            if param_values and i in param_values:
                env[loc] = param_values[i]
            elif ty.endswith('&'):
                env[loc] = ('ref', ('*', ('p', name, i)))
            else:
                env[loc] = ('p', name, i)
        st = State(env, {}, dom0 if dom0 is not None else self.dom.init())
        sts = [st]
        res = []
        for (nm, written, ini) in fn.inits:
            if ini is None:
                continue
            nxt = []
            for s in sts:
                for s2, v in self.ev(ini, s):
                    nxt.append(s2.set(('*', ('fld', ('this',), nm)), v))
            sts = nxt
        o = self.block(fn.body, sts)
        for s in o.normal:
            res.append(('return', s, None, None))
        for s, v, n in o.ret:
            res.append(('return', s, v, n))
        for s, n in o.thr:
            res.append(('throw', s, None, n))
        return res

    # ------------------------------------------------------------------ state sets
    def dedup(self, sts):
        seen = {}
        for s in sts:
            seen.setdefault(s.key(), s)
        l = list(seen.values())
        if len(l) > self.max_states:
            self.max_states = len(l)
        if len(l) > self.dom.cap:
            # widen: forget branch facts, then (if needed) variable values that differ
            seen = {}
            for s in l:
                s2 = State(s.env, {}, s.dom)
                seen.setdefault(s2.key(), s2)
            l = list(seen.values())
            if len(l) > self.dom.cap:
                groups = {}
                for s in l:
                    groups.setdefault(s.dom, []).append(s)
                l = []
                for d, g in groups.items():
                    common = dict(g[0].env)
                    for s in g[1:]:
                        for k in list(common):
                            if s.env.get(k) != common[k]:
                                # keep a marker that the value is unknown
                                common[k] = ('u', ('join', k))
                    l.append(State(common, {}, d))
        return l

    def gc(self, s):
        """drop facts about impure call results no longer held by any location"""
        if not s.facts:
            return s
        dead = []
        live = None
        for t in s.facts:
            if mentions(t, lambda x: x and x[0] == 'call' and len(x) == 4 and x[3] != ()):
                if live is None:
                    live = set()
                    for v in s.env.values():
                        self._calls(v, live)
                    self.dom_live(s, live)
                mine = set()
                self._calls(t, mine)
                if not (mine & live):
                    dead.append(t)
        if dead:
            f = {k: v for k, v in s.facts.items() if k not in dead}
            return State(s.env, f, s.dom)
        return s

    def dom_live(self, s, live):
        self._calls(s.dom, live)

    def _calls(self, v, acc):
        if isinstance(v, (tuple, frozenset)):
            if isinstance(v, tuple) and v and v[0] == 'call' and len(v) == 4 and v[3] != ():
                acc.add(v)
            for x in v:
                if isinstance(x, (tuple, frozenset)):
                    self._calls(x, acc)

    # ------------------------------------------------------------------ statements
    def block(self, n, sts):
        if n is None:
            return Out(list(sts))
        if n.k != 'Block':
            return self.stmt(n, sts)
        o = Out(list(sts))
        for c in n.c:
            if not o.normal:
                break
            r = self.stmt(c, o.normal)
            o.absorb(r)
            o.normal = self.dedup([self.gc(s) for s in r.normal])
        # leave scope: forget locals declared directly in this block
        gone = set()
        for c in n.c:
            if c is not None and c.k == 'Decl':
                for v in c.c:
                    gone.add(('v', self.path, v.d[1]))
        if gone:
            o.normal = self.dedup([s.unset(gone) for s in o.normal])
        return o

    def stmt(self, n, sts):
        self.steps += len(sts)
        if self.steps > self.step_limit:
            raise ToolError('analysis budget exceeded in %s' % self.fnstack[0].qn)
        if n is None:
            return Out(list(sts))
        k = n.k
        if k == 'Block':
            return self.block(n, sts)
        if k in ('Null',):
            return Out(list(sts))
        m = getattr(self, 's_' + k, None)
        if m:
            return m(n, sts)
        # expression statement
        o = Out()
        for s in sts:
            s = self.dom.on_stmt(self, s, n)
            self.stack.append(o)
            for s2, v in self.ev(n, s):
                o.normal.append(s2)
            self.stack.pop()
        return o

    def thrown(self, st, n):
        """record an abnormal exit of the current statement"""
        st = self.dom.on_unwind(self, st, n)
        if st is not None:
            self.stack[-1].thr.append((st, n))

    def s_Decl(self, n, sts):
        o = Out(list(sts))
        for v in n.c:
            nxt = []
            for s in o.normal:
                self.stack.append(o)
                nxt += self.declare(v, s)
                self.stack.pop()
            o.normal = nxt
        return o

    def declare(self, v, s):
        loc = ('v', self.path, v.d[1])
        if not v.c:
            return [s.set(loc, ('u', ('uninit', self.path, v.id)))]
        out = []
        if v.ty.endswith('&'):
            for s2, l in self.lval(v.c[0], s):
                out.append(s2.set(loc, ('ref', l)))
        else:
            for s2, val in self.ev(v.c[0], s):
                val = self.boolval(v.ty, val)
                s3 = self.dom.on_store(self, s2, v, loc, val)
                out.append(s3.set(loc, val))
        return out

    def boolval(self, ty, v):
        return v

    def s_If(self, n, sts):
        o = Out()
        init, cond, then, els = n.c
        if init is not None:
            r = self.stmt(init, sts)
            o.absorb(r)
            sts = r.normal
        T, F = [], []
        for s in sts:
            self.stack.append(o)
            for s2, b in self.cond(cond, s):
                (T if b else F).append(s2)
            self.stack.pop()
        T, F = self.dedup([self.gc2(s, cond) for s in T]), self.dedup([self.gc2(s, cond) for s in F])
        if T:
            r = self.block(then, T)
            o.absorb(r)
            o.normal += r.normal
        if F:
            if els is not None:
                r = self.block(els, F)
                o.absorb(r)
                o.normal += r.normal
            else:
                o.normal += F
        o.normal = self.dedup([self.gc(s) for s in o.normal])
        return o

    def gc2(self, s, cond):
        return self.gc(s)

    # loops -----------------------------------------------------------------
    def assigned(self, nodes):
        """local variable ids possibly modified within the nodes"""
        ids = set()
        for root in nodes:
            if root is None:
                continue
            for x in root.walk():
                if x.k in ('Assign', 'OpAssign') or (x.k == 'Un' and x.d in ('++', '--', 'p++', 'p--')):
                    t = x.c[0]
                    part = False
                    while t is not None and t.k in ('Member', 'Index', 'Cast') and t.c:
                        part = part or t.k != 'Cast'
                        t = t.c[0]
                    if t is not None and t.k == 'Ref' and t.d[0] in ('v', 'p') and not (part and t.ty.endswith('*')):
                        ids.add(t.d[2])
                elif x.k == 'Var':
                    ids.add(x.d[1])
                elif x.k == 'MCall' and x.d[0] is not None and not x.d[0].get('const') and self.dom.mutates(x.d[0]):
                    t = x.c[0]
                    if t is not None and t.k == 'Ref' and t.d[0] in ('v', 'p') and not t.ty.endswith('*'):
                        ids.add(t.d[2])
                elif x.k == 'OpCall' and x.d[1] in ('=', '+=', '-=', '++', '--', '<<', '>>'):
                    t = x.c[0]
                    if t is not None and t.k == 'Ref' and t.d[0] in ('v', 'p'):
                        ids.add(t.d[2])
        return ids

    def loop_enter(self, n, s, ids, lo, hi):
        """forget what an earlier iteration established"""
        path = self.path
        np = len(path)

        def inloop(u):
            return len(u) > np and u[:np] == path and lo <= u[np] <= hi

        def bad(t):
            if not t:
                return False
            if t[0] == 'call' and len(t) == 4 and t[3] != () and inloop(t[3]):
                return True
            if t[0] == 'mut' and inloop(t[1]):
                return True
            if t[0] == 'it' and t[1] == path and lo <= t[2] <= hi:
                return True
            return False
        env = {}
        # a reference keeps its target; what it refers to changes
        refd = {v[1] for k, v in s.env.items() if k[0] == 'v' and k[1] == path and k[2] in ids and v[0] == 'ref' and v[1][0] == 'v'}
        for k, v in s.env.items():
            if k in refd and v[0] != 'ref':
                env[k] = self.loopval(n, k, v)
            elif k[0] == 'v' and k[1] == path and k[2] in ids:
                if v[0] == 'ref':
                    if not mentions(v, bad):
                        env[k] = v
                    continue
                if v[0] == 'c' and isinstance(v[1], bool):
                    env[k] = v
                else:
                    env[k] = self.loopval(n, k, v)
            elif mentions(v, bad) or mentions(k, bad):
                if k[0] == 'v':
                    env[k] = ('it', path, n.id, k)
            else:
                env[k] = v
        facts = {}
        loopvars = {('it', path, n.id, ('v', path, i)) for i in ids}
        for t, b in s.facts.items():
            if not mentions(t, lambda x: bad(x) or x in loopvars):
                facts[t] = b
        return State(env, facts, s.dom)

    def loopval(self, n, k, v):
        it = ('it', self.path, n.id, k)
        if v != it:
            self.starts.setdefault(it, set()).add(v)
        else:
            self.stays.add(it)
        return it

    def counts_down(self, it, start):
        """the loop variable starts at `start` (a predicate) and only ever steps down by one"""
        ok = False
        for v in self.starts.get(it, ()):
            v = strip(v)
            if v in (('op', '-', it, ('c', 1)), ('op', '+', it, ('c', -1))):
                pass
            elif start(v):
                ok = True
            else:
                return False
        return ok

    def counts_up(self, it, start=('c', 0)):
        """the loop variable starts at `start` and only ever steps by one"""
        vs = self.starts.get(it, ())
        ok = False
        for v in vs:
            v = strip(v)
            if v == strip(start):
                ok = True
            elif v == ('op', '+', it, ('c', 1)) or v[0] == 'call' and v[1].endswith('operator++') and it in v[2]:
                pass
            else:
                return False
        return ok

    def loop(self, n, sts, cond, body, inc, post=False, enter=None, leave=None):
        """generic loop; returns Out. enter(state) binds per-iteration variables."""
        o = Out()
        ids = self.assigned([cond, body, inc])
        lo, hi = n.id, n.last
        heads = {}
        work = [self.loop_enter(n, s, ids, lo, hi) for s in sts]
        exits = []
        first = True
        rounds = 0
        while work:
            rounds += 1
            if rounds > 60:
                raise ToolError('loop at %s:%d did not stabilise' % (self.fnstack[-1].rel, n.line))
            new = []
            for s in self.dedup(work):
                k = s.key()
                if k not in heads:
                    heads[k] = s
                    new.append(s)
            if not new:
                break
            if len(heads) > self.dom.cap * 4:
                raise ToolError('too many loop states at %s:%d' % (self.fnstack[-1].rel, n.line))
            ents = []
            if post and first:
                ents = new
            else:
                if cond is None:
                    for s in new:
                        if enter:
                            exits.append(leave(s) if leave else s)
                            ents += enter(s, o)
                        else:
                            ents.append(s)
                else:
                    for s in new:
                        self.stack.append(o)
                        for s2, b in self.cond(cond, s):
                            if b:
                                ents.append(s2)
                            else:
                                exits.append(s2)
                        self.stack.pop()
            first = False
            ents = self.dedup([self.gc(s) for s in ents])
            if ents:
                r = self.block(body, ents)
                o.ret += r.ret
                o.thr += r.thr
                exits += r.brk
                back = r.normal + r.cont
            else:
                back = []
            if inc is not None and back:
                nb = []
                for s in back:
                    self.stack.append(o)
                    for s2, v in self.ev(inc, s):
                        nb.append(s2)
                    self.stack.pop()
                back = nb
            if post and cond is not None:
                nb = []
                for s in back:
                    self.stack.append(o)
                    for s2, b in self.cond(cond, s):
                        if b:
                            nb.append(s2)
                        else:
                            exits.append(s2)
                    self.stack.pop()
                back = nb
                first = True   # body runs unconditionally after the test
            work = [self.loop_enter(n, self.gc(s), ids, lo, hi) for s in back]
        o.normal = self.dedup([self.gc(s) for s in exits])
        return o

    def s_While(self, n, sts):
        return self.loop(n, sts, n.c[0], n.c[1], None)

    def s_Do(self, n, sts):
        return self.loop(n, sts, n.c[1], n.c[0], None, post=True)

    def s_For(self, n, sts):
        init, cond, inc, body = n.c
        o = Out()
        if init is not None:
            r = self.stmt(init, sts)
            o.absorb(r)
            sts = r.normal
        r = self.loop(n, sts, cond, body, inc)
        o.absorb(r)
        o.brk = []
        o.normal = r.normal
        if init is not None and init.k == 'Decl':
            gone = {('v', self.path, v.d[1]) for v in init.c}
            o.normal = self.dedup([s.unset(gone) for s in o.normal])
        return o

    def s_RangeFor(self, n, sts):
        rng, var, body = n.c
        o = Out()
        nxt = []
        for s in sts:
            self.stack.append(o)
            nxt += self.ev(rng, s)
            self.stack.pop()
        res = Out()
        res.absorb(o)

        byv = {}
        for s, v in nxt:
            byv.setdefault(v, []).append(s)
        for v, ss in byv.items():
            def enter(s, oo, v=v):
                loc = ('v', self.path, var.d[1])
                e = ('call', '<element>', (v,), self.path + (n.id,))
                s = self.dom.on_range(self, s, n, v, True)
                if var.ty.endswith('&'):
                    return [s.set(loc, ('ref', ('*', e)))]
                return [s.set(loc, e)]
            r = self.loop(n, ss, None, body, None, enter=enter, leave=lambda s, v=v: self.dom.on_range(self, s, n, v, False))
            res.absorb(r)
            res.normal += r.normal
        return res

    def s_Switch(self, n, sts):
        o = Out()
        cond, body = n.c
        items = []     # flattened: ('case', val, node) / ('default',) / ('stmt', node)

        def flat(x):
            if x.k == 'Case':
                items.append(('case', x.d, x))
                flat(x.c[1])
            elif x.k == 'Default':
                items.append(('default', None, x))
                flat(x.c[0])
            else:
                items.append(('stmt', None, x))
        for c in (body.c if body.k == 'Block' else [body]):
            if c is not None:
                flat(c)
        entry = {}     # item index -> states
        out_states = []
        has_default = any(i[0] == 'default' for i in items)
        for s in sts:
            self.stack.append(o)
            vals = self.ev(cond, s)
            self.stack.pop()
            for s2, v in vals:
                rest = s2
                sv = strip(v)
                for idx, it in enumerate(items):
                    if it[0] != 'case' or rest is None:
                        continue
                    for s3, b in self.decide(('op', '==', sv, ('c', it[1])), rest):
                        if b:
                            entry.setdefault(idx, []).append(s3)
                        else:
                            rest_next = s3
                    rr = [x for x, b in self.decide(('op', '==', sv, ('c', it[1])), rest) if not b]
                    rest = rr[0] if rr else None
                if rest is not None:
                    if has_default:
                        di = [i for i, it in enumerate(items) if it[0] == 'default'][0]
                        entry.setdefault(di, []).append(rest)
                    else:
                        out_states.append(rest)
        cur = []
        for idx, it in enumerate(items):
            cur = self.dedup(cur + entry.get(idx, []))
            if it[0] == 'stmt' and cur:
                r = self.stmt(it[2], cur)
                o.cont += r.cont
                o.ret += r.ret
                o.thr += r.thr
                out_states += r.brk
                cur = r.normal
        o.normal = self.dedup([self.gc(s) for s in out_states + cur])
        return o

    def s_Break(self, n, sts):
        o = Out([])
        o.brk = list(sts)
        return o

    def s_Continue(self, n, sts):
        o = Out([])
        o.cont = list(sts)
        return o

    def s_Return(self, n, sts):
        o = Out([])
        for s in sts:
            self.stack.append(o)
            if n.c:
                fn = self.fnstack[-1]
                if fn.ret.endswith('&'):
                    for s2, l in self.lval(n.c[0], s):
                        o.ret.append((s2, ('ref', l), n))
                elif fn.ret == 'bool':
                    for s2, b in self.cond(n.c[0], s, keep=True):
                        o.ret.append((s2, b, n))
                else:
                    for s2, v in self.ev(n.c[0], s):
                        o.ret.append((s2, v, n))
            else:
                o.ret.append((s, None, n))
            self.stack.pop()
        return o

    def s_Try(self, n, sts):
        r = self.block(n.c[0], sts)
        o = Out(list(r.normal))
        o.brk, o.cont, o.ret = list(r.brk), list(r.cont), list(r.ret)
        extra = self.dom_try(n, sts, r)
        thr = list(r.thr) + extra
        catchall = False
        for h in n.c[1:]:
            if h.ty == '' or 'conduit::Error' in h.ty or 'std::exception' in h.ty:
                catchall = True
        for h in n.c[1:]:
            hs = [s for s, _ in thr]
            if hs:
                rr = self.block(h.c[0], self.dedup(hs))
                o.absorb(rr)
                o.normal += rr.normal
        if not catchall:
            o.thr += thr
        return o

    def dom_try(self, n, sts, r):
        f = getattr(self.dom, 'try_states', None)
        return f(self, n, sts, r) if f else []

    def s_Throw(self, n, sts):
        o = Out([])
        for s in sts:
            self.stack.append(o)
            if n.c:
                for s2, v in self.ev(n.c[0], s):
                    self.thrown(s2, n)
            else:
                self.thrown(s, n)
            self.stack.pop()
        return o

    # ------------------------------------------------------------------ conditions
    def cond(self, n, s, keep=False):
        """evaluate a condition: list of (state, True/False)"""
        self.branches += 1
        k = n.k
        if k == 'Var':
            out = []
            for s2 in self.declare(n, s):
                v = self.load(('v', self.path, n.d[1]), s2)
                out += self.decide(v, s2)
            return out
        if k == 'Un' and n.d == '!':
            return [(s2, not b) for s2, b in self.cond(n.c[0], s)]
        if k == 'Bin' and n.d == '&&':
            out = []
            for s2, b in self.cond(n.c[0], s):
                if b:
                    out += self.cond(n.c[1], s2)
                else:
                    out.append((s2, False))
            return out
        if k == 'Bin' and n.d == '||':
            out = []
            for s2, b in self.cond(n.c[0], s):
                if b:
                    out.append((s2, True))
                else:
                    out += self.cond(n.c[1], s2)
            return out
        if k == 'Bool':
            return [(s, n.d)]
        if k == 'Cond':
            out = []
            for s2, b in self.cond(n.c[0], s):
                out += self.cond(n.c[1] if b else n.c[2], s2)
            return out
        if k == 'Cast' and n.d[0] in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            out = []
            for s2, v in self.ev(n.c[0], s):
                out += self.decide(v, s2)
            return out
        out = []
        for s2, v in self.ev(n, s):
            out += self.decide(v, s2)
        return out

    def decide(self, v, s):
        """split on the truth of term v"""
        v0 = v
        if v is True or v is False:
            return [(s, v)]
        while isinstance(v, tuple) and v[0] == 'cast':
            v = v[2]
        if v is None:
            v = ('u', 'void')
        if v[0] == 'c':
            return [(s, bool(v[1]))]
        if v[0] == 'addr':
            return [(s, True)]
        if v[0] == 'un' and v[1] == '!':
            return [(a, not b) for a, b in self.decide(v[2], s)]
        if v[0] == 'op':
            if self.dom.on_cmp is not None:
                s = self.dom.on_cmp(s, v)
            o, a, b = v[1], strip(v[2]), strip(v[3])
            if o == '!=':
                return [(x, not t) for x, t in self.decide(('op', '==', a, b), s)]
            if o == '>':
                return self.decide(('op', '<', b, a), s)
            if o == '>=':
                return [(x, not t) for x, t in self.decide(('op', '<', a, b), s)]
            if o == '<=':
                return [(x, not t) for x, t in self.decide(('op', '<', b, a), s)]
            if o in ('^', '==') and boolish(a) and boolish(b) and a != b:
                return [(s2, (x == y) == (o == '==')) for s1, x in self.decide(a, s) for s2, y in self.decide(b, s1)]
            if o == '==':
                if a == b:
                    return [(s, True)]
                if a[0] == 'c' and b[0] == 'c':
                    return [(s, a[1] == b[1] and type(a[1]) == type(b[1]) or (a[1] == b[1] and not isinstance(a[1], str)))]
                if a[0] == 'c':
                    a, b = b, a
                if b[0] == 'c' and b[1] == 0 and type(b[1]) is int and a[0] == 'op' and a[1] == '-':
                    return self.decide(('op', '==', a[2], a[3]), s)
                if b == ('c', None) or (b[0] == 'c' and b[1] is False) or (b == ('c', 0) and False):
                    return [(x, not t) for x, t in self.decide(a, s)]
                if b[0] == 'c' and b[1] is True and type(b[1]) is bool:
                    return self.decide(a, s)
                if b[0] == 'c':
                    # known equal / unequal to another constant
                    for (t, tv) in s.facts.items():
                        if tv and t[0] == 'op' and t[1] == '==' and t[2] == a and t[3][0] == 'c':
                            return [(s, t[3] == b)]
                    if b == ('c', 0) and a in s.facts and s.facts[a]:
                        return [(s, False)]
                elif repr(a) > repr(b):
                    a, b = b, a
            if o == '<' and a[0] == 'c' and b[0] == 'c' and isinstance(a[1], (int, float)) and isinstance(b[1], (int, float)):
                return [(s, a[1] < b[1])]
            if o == '<':
                # intervals from known facts on the same term
                lo, hi = self.bounds(a if b[0] == 'c' else b, s)
                if b[0] == 'c' and isinstance(b[1], int):
                    if hi is not None and hi < b[1]:
                        return [(s, True)]
                    if lo is not None and lo >= b[1]:
                        return [(s, False)]
                elif a[0] == 'c' and isinstance(a[1], int):
                    if lo is not None and lo > a[1]:
                        return [(s, True)]
                    if hi is not None and hi <= a[1]:
                        return [(s, False)]
            v = ('op', o, a, b)
            if o == '==' and b[0] == 'c' and isinstance(b[1], int):
                lo, hi = self.bounds(a, s)
                if (lo is not None and b[1] < lo) or (hi is not None and b[1] > hi):
                    return [(s, False)]
                if lo is not None and lo == hi == b[1]:
                    return [(s, True)]
        if v in s.facts:
            return [(s, s.facts[v])]
        if v[0] == 'call' and v[1].startswith(DTQ) and len(v[2]) == 1:
            ids = DTPRED.get(v[1][len(DTQ):])
            if ids is not None:
                poss = self.dtype_ids(v[2][0], s)
                if poss <= ids:
                    return [(s, True)]
                if not (poss & ids):
                    return [(s, False)]
        out = []
        for b in (True, False):
            s2 = s.fact(v, b)
            s2 = self.dom.on_branch(self, s2, v, b)
            if s2 is not None:
                out.append((s2, b))
        return out

    def dtype_ids(self, o, s):
        """type ids a DataType term can still have, given the predicates already decided on it"""
        poss = DTALL
        for t, b in s.facts.items():
            if t[0] == 'call' and t[2] and len(t[2]) == 1 and t[2][0] == o and t[1].startswith(DTQ):
                ids = DTPRED.get(t[1][len(DTQ):])
                if ids is not None:
                    poss = poss & ids if b else poss - ids
        return poss

    def bounds(self, t, s):
        lo = hi = None
        if t[0] == 'call' and t[1].rsplit('::', 1)[-1] in ('number_of_elements', 'number_of_children', 'size', 'length', 'strlen'):
            lo = 0
        for f, b in s.facts.items():
            if f[0] != 'op':
                continue
            if f[1] == '==' and f[2] == t and b and f[3][0] == 'c' and isinstance(f[3][1], int):
                return f[3][1], f[3][1]
            if f[1] == '<':
                if f[2] == t and f[3][0] == 'c' and isinstance(f[3][1], int):
                    if b:
                        hi = f[3][1] - 1 if hi is None else min(hi, f[3][1] - 1)
                    else:
                        lo = f[3][1] if lo is None else max(lo, f[3][1])
                elif f[3] == t and f[2][0] == 'c' and isinstance(f[2][1], int):
                    if b:
                        lo = f[2][1] + 1 if lo is None else max(lo, f[2][1] + 1)
                    else:
                        hi = f[2][1] if hi is None else min(hi, f[2][1])
        return lo, hi

    def bools(self, n, s):
        return [(s2, ('c', b)) for s2, b in self.cond(n, s)]

    # ------------------------------------------------------------------ locations
    def load(self, loc, s):
        v = s.env.get(loc)
        if v is None:
            if loc[0] == '*':
                return loc[1]
            return ('u', ('undef', loc))
        if v[0] == 'ref':
            return self.load(v[1], s)
        return v

    def lval(self, n, s):
        """list of (state, location)"""
        k = n.k
        if k == 'Ref':
            if n.d[0] in ('v', 'p'):
                loc = self.varloc(n.d[2], s)
                v = s.env.get(loc)
                if v is not None and v[0] == 'ref':
                    loc = v[1]
                return [(s, loc)]
            if n.d[0] == 'g':
                return [(s, ('*', ('glob', n.d[3])))]
            return [(a, ('*', b)) for a, b in self.ev(n, s)]
        if k == 'Member' and n.d[0] == 'm':
            base = n.c[0]
            out = []
            if base.ty.endswith('*'):
                for s2, b in self.ev(base, s):
                    b = self.deref(b)
                    if b[0] == 'loc':
                        b = b[1][1] if b[1][0] == '*' else b[1]
                    if b[0] == 'deref':
                        b = b[1]
                    out.append((s2, ('*', ('fld', b, n.d[1]))))
            else:
                for s2, l in self.lval(base, s):
                    b = l[1] if l[0] == '*' else l
                    if b[0] == 'deref':
                        b = b[1]
                    out.append((s2, ('*', ('fld', b, n.d[1]))))
            return out
        if k == 'Un' and n.d == '*':
            return [(a, self.asloc(self.deref(b))) for a, b in self.ev(n.c[0], s)]
        if k == 'Index':
            out = []
            for s2, b in self.ev(n.c[0], s):
                for s3, i in self.ev(n.c[1], s2):
                    out.append((s3, ('*', ('idx', b, i))))
            return out
        if k in ('Assign', 'OpAssign') or (k == 'Un' and n.d in ('++', '--')):
            out = []
            for s2, _ in self.ev(n, s):
                out += self.lval(n.c[0], s2)
            return out
        if k == 'Cond':
            out = []
            for s2, b in self.cond(n.c[0], s):
                out += self.lval(n.c[1] if b else n.c[2], s2)
            return out
        if k == 'Cast':
            return self.lval(n.c[0], s)
        out = []
        for s2, v in (getattr(self, 'e_' + k)(n, s) if k in CALLS else self.ev(n, s)):
            out.append((s2, self.asloc(v)))
        return out

    def asloc(self, v):
        if v[0] == 'ref':
            return v[1]
        if v[0] == 'loc':
            return v[1]
        return ('*', v)

    def varloc(self, vid, s):
        """variable in this frame or (lambda/captured) an outer one"""
        loc = ('v', self.path, vid)
        if loc in s.env:
            return loc
        p = self.path
        while p:
            p = p[:-1]
            l2 = ('v', p, vid)
            if l2 in s.env:
                return l2
        return loc

    def deref(self, v):
        v = strip(v)
        if v[0] == 'addr':
            return v[1]
        if v[0] == 'locaddr':
            return ('loc', v[1])
        if v == ('this',):
            return v
        return ('deref', v)

    def objval(self, n, s):
        """value identifying the object an MCall acts on, plus its location"""
        out = []
        if n.ty.endswith('*'):
            for s2, v in self.ev(n, s):
                d = self.deref(v)
                if d[0] == 'loc':
                    out.append((s2, self.load(d[1], s2), d[1]))
                else:
                    out.append((s2, d, ('*', d)))
        else:
            for s2, l in self.lval(n, s):
                out.append((s2, self.load(l, s2), l))
        return out

    # ------------------------------------------------------------------ expressions
    def evs(self, nodes, s):
        """evaluate a list left to right: list of (state, [values])"""
        cur = [(s, [])]
        for x in nodes:
            nxt = []
            for s2, vs in cur:
                for s3, v in self.ev(x, s2):
                    nxt.append((s3, vs + [v]))
            cur = nxt
        return cur

    def ev(self, n, s):
        if n is None:
            return [(s, ('u', 'none'))]
        m = getattr(self, 'e_' + n.k, None)
        if m:
            r = m(n, s)
            if n.k in CALLS:
                r = [(a, self.load(v[1], a) if v[0] == 'ref' else v) for a, v in r]
            return r
        return self.e_generic(n, s)

    def e_generic(self, n, s):
        out = []
        for s2, vs in self.evs([c for c in n.c if c is not None], s):
            out.append((s2, ('u', (n.k, self.path, n.id))))
        return out

    def e_Int(self, n, s):
        return [(s, ('c', n.d))]

    def e_Bool(self, n, s):
        return [(s, ('c', n.d))]

    def e_Str(self, n, s):
        return [(s, ('c', n.d))]

    def e_Float(self, n, s):
        return [(s, ('c', float(n.d) if n.d not in (None,) else 0.0))]

    def e_Nullptr(self, n, s):
        return [(s, NULL)]

    def e_ZeroInit(self, n, s):
        return [(s, ('c', 0))]

    def e_This(self, n, s):
        p = self.path
        while True:
            v = s.env.get(('this', p))
            if v is not None or not p:
                return [(s, v if v is not None else ('this',))]
            p = p[:-1]

    def e_Sizeof(self, n, s):
        return [(s, ('c', n.d[0]))]

    def e_DefArg(self, n, s):
        return self.ev(n.c[0], s)

    def e_Ref(self, n, s):
        d = n.d
        if d[0] == 'e':
            return [(s, ('c', d[2]))]
        if d[0] == 'f':
            return [(s, ('fn', d[1]['qn'], d[1]['usr']))]
        if d[0] == 'g':
            if len(d) > 4:
                return [(s, ('c', d[4]))]
            return [(s, self.load(('*', ('glob', d[3])), s))]
        loc = self.varloc(d[2], s)
        r = self.dom.on_load(self, s, n, loc)
        if r is not None:
            return r
        return [(s, self.load(loc, s))]

    def e_Member(self, n, s):
        if n.d[0] == 'f':
            return [(s, ('fn', n.d[1]['qn'], n.d[1]['usr']))]
        if n.d[0] == 'e':
            return [(s, ('c', n.d[2]))]
        if n.d[0] == 'g':
            return [(s, ('glob', n.d[3]))]
        out = []
        for s2, l in self.lval(n, s):
            r = self.dom.on_load(self, s2, n, l)
            if r is not None:
                out += r
            else:
                out.append((s2, self.load(l, s2)))
        return out

    def e_Index(self, n, s):
        out = []
        for s2, l in self.lval(n, s):
            r = self.dom.on_load(self, s2, n, l)
            out += r if r is not None else [(s2, self.load(l, s2))]
        return out

    def e_Cast(self, n, s):
        if n.d[0] in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            out = []
            for s2, v in self.ev(n.c[0], s):
                sv = strip(v)
                if sv[0] == 'c':
                    out.append((s2, ('c', bool(sv[1]))))
                else:
                    out.append((s2, sv))
            return out
        out = []
        for s2, v in self.ev(n.c[0], s):
            if n.d[0] == 'NullToPointer':
                out.append((s2, NULL))
            elif n.d[0] == 'IntegralCast' and v[0] == 'c' and isinstance(v[1], (int, bool)):
                out.append((s2, ('c', int(v[1]) if n.ty != 'bool' else bool(v[1]))))
            elif n.d[0] in ('BitCast', 'NoOp', 'LValueToRValue', 'IntegralCast', 'FloatingCast', 'IntegralToFloating', 'FloatingToIntegral', 'ArrayToPointerDecay', 'BaseToDerived', 'DerivedToBase', 'Dynamic', 'IntegralToPointer', 'PointerToIntegral', 'LValueBitCast', 'ToVoid'):
                out.append((s2, ('cast', n.ty, v)))
            else:
                out.append((s2, ('cast', n.ty, v)))
        return out

    def e_Cond(self, n, s):
        out = []
        for s2, b in self.cond(n.c[0], s):
            out += self.ev(n.c[1] if b else n.c[2], s2)
        return out

    def e_Un(self, n, s):
        o = n.d
        if o == '!':
            return [(s2, ('c', b)) for s2, b in self.cond(n, s)] if self.split_bool(n) else [(s2, ('un', '!', v)) for s2, v in self.ev(n.c[0], s)]
        if o == '*':
            out = []
            for s2, l in self.lval(n, s):
                r = self.dom.on_load(self, s2, n, l)
                if r is not None:
                    out += r
                else:
                    out.append((s2, self.load(l, s2)))
            return out
        if o == '&':
            out = []
            for s2, l in self.lval(n.c[0], s):
                if l[0] == 'v':
                    out.append((s2, ('locaddr', l)))
                else:
                    out.append((s2, ('addr', l[1])))
            return out
        if o in ('++', '--', 'p++', 'p--'):
            out = []
            for s2, l in self.lval(n.c[0], s):
                v = self.load(l, s2)
                nv = self.arith('+' if '+' in o else '-', v, self.scale(('c', 1), n.ty) if isptr(n.ty) and self.dom.scaled else ('c', 1))
                s3 = self.dom.on_store(self, s2, n, l, nv).set(l, nv)
                out.append((s3, v if o[0] == 'p' else nv))
            return out
        out = []
        for s2, v in self.ev(n.c[0], s):
            if v[0] == 'c' and o == '-' and isinstance(v[1], (int, float)):
                out.append((s2, ('c', -v[1])))
            else:
                out.append((s2, ('un', o, v)))
        return out

    def arith(self, o, a, b):
        if a[0] == 'c' and b[0] == 'c' and isinstance(a[1], int) and isinstance(b[1], int):
            try:
                if o == '+':
                    return ('c', a[1] + b[1])
                if o == '-':
                    return ('c', a[1] - b[1])
                if o == '*':
                    return ('c', a[1] * b[1])
                if o == '|':
                    return ('c', a[1] | b[1])
                if o == '&':
                    return ('c', a[1] & b[1])
                if o == '<<':
                    return ('c', a[1] << b[1])
            except Exception:
                pass
        return ('op', o, a, b)

    def split_bool(self, n):
        return True

    def e_Bin(self, n, s):
        o = n.d
        if o in ('&&', '||'):
            return [(s2, ('c', b)) for s2, b in self.cond(n, s)]
        if o == ',':
            return [(s3, b) for s2, _ in self.ev(n.c[0], s) for s3, b in self.ev(n.c[1], s2)]
        out = []
        for s2, (a, b) in self.evs(n.c, s):
            if o in ('+', '-') and isptr(n.ty) and self.dom.scaled:
                if isptr(n.c[0].ty):
                    b = self.scale(b, n.ty)
                else:
                    a = self.scale(a, n.ty)
            out.append((s2, self.arith(o, a, b)))
        return out

    def scale(self, v, pty):
        return self.arith('*', v, self.szof(unqual(pty)[:-1].strip()))

    def szof(self, ty):
        ty = ty.replace('const ', '').replace('volatile ', '').strip()
        w = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'void': 1, 'bool': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'float': 4,
             'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, 'double': 8}.get(ty)
        if ty.endswith('*'):
            w = 8
        return ('c', w) if w else ('szof', ty)

    def e_Assign(self, n, s):
        out = []
        for s2, v in self.ev(n.c[1], s):
            for s3, l in self.lval(n.c[0], s2):
                s4 = self.dom.on_store(self, s3, n, l, v)
                out.append((s4.set(l, v), v))
        return out

    def e_OpAssign(self, n, s):
        o = n.d[:-1]
        out = []
        isb = n.c[0].ty == 'bool'
        if isb and o in ('&', '|', '^'):
            for s2, rb in self.cond(self.rhs(n.c[1]), s):
                for s3, l in self.lval(n.c[0], s2):
                    for s4, lb in self.decide(self.load(l, s3), s3):
                        nb = (lb and rb) if o == '&' else (lb or rb) if o == '|' else (lb != rb)
                        v = ('c', nb)
                        s5 = self.dom.on_store(self, s4, n, l, v)
                        out.append((s5.set(l, v), v))
            return out
        for s2, b in self.ev(n.c[1], s):
            for s3, l in self.lval(n.c[0], s2):
                if o in ('+', '-') and isptr(n.c[0].ty) and self.dom.scaled:
                    b = self.scale(b, n.c[0].ty)
                v = self.arith(o, self.load(l, s3), b)
                s4 = self.dom.on_store(self, s3, n, l, v)
                out.append((s4.set(l, v), v))
        return out

    def rhs(self, n):
        while n.k == 'Cast' and n.d[0] == 'IntegralCast' and n.c[0].ty == 'bool':
            n = n.c[0]
        return n

    def e_InitList(self, n, s):
        return [(s2, ('list',) + tuple(vs)) for s2, vs in self.evs([c for c in n.c if c is not None], s)]

    def e_Lambda(self, n, s):
        self.lam[n.id] = n
        return [(s, ('lambda', self.path, n.id))]

    def e_New(self, n, s):
        out = []
        for s2, vs in self.evs([c for c in n.c if c is not None], s):
            r = getattr(self.dom, 'on_new', None)
            v = ('call', '<new>', (n.d[0],) + tuple(vs), self.path + (n.id,))
            if r:
                out += r(self, s2, n, v)
            else:
                out.append((s2, v))
        return out

    def e_Delete(self, n, s):
        out = []
        for s2, v in self.ev(n.c[0], s):
            r = getattr(self.dom, 'on_delete', None)
            if r:
                out += r(self, s2, n, v)
            else:
                out.append((s2, ('u', 'void')))
        return out

    def e_Throw(self, n, s):
        for s2, v in (self.ev(n.c[0], s) if n.c else [(s, None)]):
            self.thrown(s2, n)
        return []

    # ------------------------------------------------------------------ calls
    def e_Construct(self, n, s):
        ref = n.d[0]
        args = n.c
        # copies and moves keep the value; std::string(const char*) keeps the value
        if ref is not None and ref.get('ctor') in ('copy', 'move') and len(args) >= 1:
            return self.ev(args[0], s)
        if self.dom.iters and ref is not None and len(args) == 1 and ref['name'] in ('__normal_iterator', '_Rb_tree_const_iterator'):
            return self.ev(args[0], s)
        if n.ty.startswith('std::basic_string<char') or n.ty.startswith('const std::basic_string<char') or 'basic_string<char' in n.ty[:40]:
            real = [a for a in args if a is not None and a.k != 'DefArg']
            if len(real) == 1:
                return self.ev(real[0], s)
            if not real:
                return [(s, ('c', ''))]
        return self.call(n, ref, None, args, s)

    def e_Call(self, n, s):
        return self.call(n, n.d[0], None, n.c, s)

    def e_ICall(self, n, s):
        out = []
        for s2, vs in self.evs(n.c, s):
            r = self.dom.on_call(self, s2, n, None, vs[0], vs[1:], None)
            if r is not None:
                out += r
            else:
                out.append((s2, ('call', '<indirect>', tuple(vs), self.path + (n.id,))))
        return out

    def e_MCall(self, n, s):
        return self.call(n, n.d[0], n.c[0], n.c[1:], s)

    def e_OpCall(self, n, s):
        ref, op, ismember = n.d
        if op == '()' and ref is not None:
            # call of a lambda held in a local
            out = []
            rest = []
            for s2, v in self.ev(n.c[0], s):
                if v[0] == 'lambda':
                    out += self.call_lambda(n, v, n.c[1:], s2)
                else:
                    rest.append(s2)
            for s2 in rest:
                out += self.call(n, ref, n.c[0], n.c[1:], s2)
            return out
        if op == '=' and ref is not None and len(n.c) == 2:
            r = self.call(n, ref, n.c[0], n.c[1:], s) if not self.value_assign(n) else None
            if r is not None:
                return r
            out = []
            for s2, v in self.ev(n.c[1], s):
                for s3, l in self.lval(n.c[0], s2):
                    s4 = self.dom.on_store(self, s3, n, l, v)
                    out.append((s4.set(l, v), v))
            return out
        if op in ('==', '!=') and len(n.c) == 2 and 'basic_string' in (n.c[0].ty + n.c[1].ty):
            out = []
            for s2, (a, b) in self.evs(n.c, s):
                t = ('op', '==', a, b)
                out.append((s2, t if op == '==' else ('un', '!', t)))
            return out
        if self.dom.iters and n.c and '_iterator<' in n.c[0].ty[:120]:
            r = self.iter_op(n, op, s)
            if r is not None:
                return r
        if ismember:
            return self.call(n, ref, n.c[0], n.c[1:], s)
        return self.call(n, ref, None, n.c, s)

    def iter_op(self, n, op, s):
        """standard iterators as positions: begin(c) + k"""
        if op in ('==', '!=', '<', '>', '<=', '>=') and len(n.c) == 2:
            out = []
            for s2, (a, b) in self.evs(n.c, s):
                if op in ('==', '!='):
                    x = ('op', '==', a, b)
                    out.append((s2, x if op == '==' else ('un', '!', x)))
                elif op in ('<', '>='):
                    x = ('op', '<', a, b)
                    out.append((s2, x if op == '<' else ('un', '!', x)))
                else:
                    x = ('op', '<', b, a)
                    out.append((s2, x if op == '>' else ('un', '!', x)))
            return out
        if op in ('++', '--'):
            out = []
            for s2, v in self.ev(n.c[0], s):
                for s3, l in self.lval(n.c[0], s2):
                    nv = ('op', '+' if op == '++' else '-', v, ('c', 1))
                    s4 = self.dom.on_store(self, s3, n, l, nv)
                    out.append((s4.set(l, nv), v if len(n.c) == 2 else nv))
            return out
        if op in ('+', '-') and len(n.c) == 2:
            return [(s2, ('op', op, a, b)) for s2, (a, b) in self.evs(n.c, s)]
        if op in ('*', '->') and len(n.c) == 1:
            return [(s2, ('call', '<at>', (v,), ())) for s2, v in self.ev(n.c[0], s)]
        return None

    def value_assign(self, n):
        t = n.c[0].ty
        return 'basic_string<' in t[:40] or 'shared_ptr' in t[:30] or t.endswith('Iterator') or '_iterator<' in t[:80]

    def call_lambda(self, n, v, argn, s):
        ln = self.lam.get(v[2])
        f = self.lamfunc(ln) if ln is not None else None
        if f is None or f.body is None or len(self.path) >= self.dom.inline_depth or f in self.fnstack:
            return [(s2, ('call', '<lambda>', tuple(vs), self.path + (n.id,))) for s2, vs in self.evs(argn, s)]
        cur = [(s, [], [])]
        for i, a in enumerate(argn):
            nxt = []
            byref = i < len(f.params) and f.params[i][2].endswith('&')
            for s2, vs, ls in cur:
                if byref:
                    for s3, l in self.lval(a, s2):
                        nxt.append((s3, vs + [self.load(l, s3)], ls + [l]))
                else:
                    for s3, x in self.ev(a, s2):
                        nxt.append((s3, vs + [x], ls + [None]))
            cur = nxt
        out = []
        for s2, vs, ls in cur:
            out += self.inline(n, f, None, None, vs, ls, s2)
        return out

    def lamfunc(self, ln):
        f = self.lamf.get(ln.id)
        if f is None:
            o = ln.fn or self.fnstack[-1]
            f = Func()
            f.usr, f.qn, f.name, f.cls, f.ref = 'lambda:%d' % ln.id, o.qn + '::<lambda>', '<lambda>', None, ln.d[0]
            f.file, f.line, f.end, f.tu, f.unit, f.flags = o.file, ln.line, ln.line, o.tu, o.unit, {}
            f.params, f.body, f.inits, f.ret = ln.d[1], (ln.c[0] if ln.c else None), [], ln.d[0]['ret'] if ln.d[0] else ''
            self.lamf[ln.id] = f
        return f

    def call(self, n, ref, objn, argn, s):
        self.calls_seen += 1
        out = []
        cur = []
        if objn is not None:
            for s2, v, l in self.objval(objn, s):
                cur.append((s2, v, l, [], []))
        else:
            cur = [(s, None, None, [], [])]
        params = ref['params'] if ref else []
        for i, a in enumerate(argn):
            nxt = []
            pty = params[i][1] if i < len(params) else ''
            byref = pty.endswith('&')
            for (s2, ov, ol, vs, ls) in cur:
                if a is None:
                    nxt.append((s2, ov, ol, vs + [('u', 'none')], ls + [None]))
                    continue
                if byref:
                    for s3, l in self.lval(a, s2):
                        nxt.append((s3, ov, ol, vs + [self.load(l, s3)], ls + [l]))
                else:
                    for s3, v in self.ev(a, s2):
                        nxt.append((s3, ov, ol, vs + [v], ls + [None]))
            cur = nxt
        for (s2, ov, ol, vs, ls) in cur:
            out += self.invoke(n, ref, ov, ol, vs, ls, s2)
        return out

    def invoke(self, n, ref, ov, ol, vs, ls, s):
        r = self.dom.on_call(self, s, n, ref, ov, vs, (ol, ls))
        if r is not None:
            return r
        if ref is None:
            return [(s, ('call', '?', tuple(vs), self.path + (n.id,)))]
        if self.dom.noreturn(ref):
            self.thrown(s, n)
            return []
        if self.dom.inline(self, ref, n) and len(self.path) < self.dom.inline_depth:
            f = self.prog.funcs.get(ref['usr'])
            if f is not None and f not in self.fnstack:
                return self.inline(n, f, ov, ol, vs, ls, s)
        return self.opaque(n, ref, ov, ol, vs, ls, s)

    def opaque(self, n, ref, ov, ol, vs, ls, s):
        qn = ref['qn']
        isctor = bool(ref.get('ctor'))
        pure = self.dom.pure(ref) or (ref.get('const') and ov is not None) or isctor and False
        uid = () if pure else self.path + (n.id,)
        args = ((ov,) if ov is not None else ()) + tuple(vs)
        v = ('call', qn, args, uid)
        # effects on locals passed by non-const reference / address, and on the object
        changed = []
        if ol is not None and not ref.get('const') and not ref.get('static'):
            if ol[0] == 'v' or ol in s.env:
                changed.append(ol)
        for i, l in enumerate(ls or []):
            if l is not None and not ref['params'][i][1].startswith('const ') and (l[0] == 'v' or l in s.env):
                changed.append(l)
        for a in vs:
            a2 = strip(a) if a else a
            if a2 and a2[0] == 'locaddr' :
                changed.append(a2[1])
        if not pure:
            for j, l in enumerate(changed):
                cur = s.env.get(l)
                if cur is not None and cur[0] == 'ref':
                    continue
                s = s.set(l, ('mut', self.path + (n.id,), j, l))
        if ref.get('ret', '') == 'bool' and False:
            pass
        return [(s, v)]

    def inline(self, n, f, ov, ol, vs, ls, s):
        self.inlined.add(f.usr)
        old = self.path
        self.path = old + (n.id,)
        self.fnstack.append(f)
        env = dict(s.env)
        for i, (name, vid, ty) in enumerate(f.params):
            loc = ('v', self.path, vid)
            if i >= len(vs):
                env[loc] = ('u', ('missing', i))
            elif ty.endswith('&') and ls[i] is not None:
                env[loc] = ('ref', ls[i])
            else:
                env[loc] = vs[i]
        if ov is not None:
            env[('this', self.path)] = self.thisptr(ov, ol)
        s2 = State(env, s.facts, s.dom)
        sts = [s2]
        for (nm, written, ini) in f.inits:
            if ini is None or ov is None:
                continue
            nxt = []
            for x in sts:
                for x2, v in self.ev(ini, x):
                    nxt.append(x2)
            sts = nxt
        o = self.block(f.body, sts)
        mypath = self.path
        self.path = old
        self.fnstack.pop()

        def pop(st, keep=None):
            e = {k: v for k, v in st.env.items() if not ((k[0] == 'v' and k[1][:len(mypath)] == mypath) or (k[0] == 'this' and len(k) > 1 and k[1][:len(mypath)] == mypath))}
            return State(e, st.facts, st.dom)
        res = []
        seen = set()

        def add(st, v):
            key = (st.key(), v)
            if key not in seen:
                seen.add(key)
                res.append((st, v))
        for st, v, rn in o.ret:
            if v is True or v is False:
                v = ('c', v)
            if v is not None and v[0] == 'ref' and v[1][0] == 'v' and v[1][1][:len(mypath)] == mypath:
                v = self.load(v[1], st)
            add(pop(st), v if v is not None else ('u', 'void'))
        for st in o.normal:
            add(pop(st), ('u', 'void'))
        for st, tn in o.thr:
            self.stack[-1].thr.append((pop(st), tn))
        return res

    def thisptr(self, ov, ol):
        if ov == ('this',):
            return ov
        if ol is not None and ol[0] == 'v':
            return ('locaddr', ol)
        return ('addr', ov)
