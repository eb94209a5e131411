"""R02: every rank takes part in every collective (uniformity of control flow in the parallel routines).

A forward data-flow analysis over the syntax tree of every routine that can reach an MPI
collective.  The abstract value of a variable is the set of reasons why it could differ between
ranks: the rank itself, a node the caller gave (each rank holds its own domains), a field.  A
collective that delivers the same result to all ranks makes its output uniform.  Every collective
call, and every call of a routine that makes one, must be reached under uniform conditions only.
"""
from common import Check
import prog as P

SEL = ('blueprint/conduit_blueprint_mpi', 'blueprint/conduit_blueprint_mesh_partition.cpp', 'blueprint/conduit_blueprint_mesh_flatten.cpp',
       'relay/conduit_relay_io_blueprint.cpp', 'relay/conduit_relay_io_silo.cpp', 'relay/conduit_relay_mpi_io.cpp', 'relay/conduit_relay_mpi_io_blueprint.cpp')
# results are the same on all ranks: output argument
MPIC = {'MPI_Allreduce': 1, 'MPI_Allgather': 3, 'MPI_Allgatherv': 3, 'MPI_Bcast': 0, 'MPI_Reduce': None, 'MPI_Gather': None, 'MPI_Gatherv': None,
        'MPI_Scatter': None, 'MPI_Scatterv': None, 'MPI_Alltoall': None, 'MPI_Alltoallv': None, 'MPI_Scan': None, 'MPI_Exscan': None, 'MPI_Barrier': None,
        'MPI_Comm_split': None, 'MPI_Comm_dup': None, 'MPI_Comm_create': None}
MPIROOT = {'MPI_Bcast': 3, 'MPI_Reduce': 5, 'MPI_Gather': 6, 'MPI_Gatherv': 7, 'MPI_Scatter': 6}
RM = 'conduit::relay::mpi::'
RELAY = {'all_reduce': 1, 'sum_all_reduce': 1, 'min_all_reduce': 1, 'max_all_reduce': 1, 'prod_all_reduce': 1, 'all_gather': 1, 'all_gather_using_schema': 1,
         'broadcast': 0, 'broadcast_using_schema': 0, 'gather': None, 'gather_using_schema': None, 'reduce': None, 'sum_reduce': None, 'min_reduce': None,
         'max_reduce': None, 'prod_reduce': None}
RROOT = {'broadcast': 1, 'broadcast_using_schema': 1, 'gather': 2, 'gather_using_schema': 2, 'reduce': 3, 'sum_reduce': 2, 'min_reduce': 2, 'max_reduce': 2, 'prod_reduce': 2}
RANK = ('rank',)
E = frozenset()


def coll_prim(r):
    """(is a primitive collective, uniform output argument or None, root argument or None)"""
    if r is None:
        return None
    q = r['qn']
    if q in MPIC:
        return (MPIC[q], MPIROOT.get(q))
    if q.startswith(RM):
        n = q[len(RM):]
        if n in RELAY:
            return (RELAY[n], RROOT.get(n))
    return None


CALLS = ('Call', 'MCall', 'OpCall', 'Construct', 'ICall')
IO = ('open', 'write', 'save', 'read', 'load', 'create_', 'DB', 'hdf5_', 'silo_')
THROWS = ('conduit::utils::handle_error',)
PASS = ('Cast', 'Paren', 'DefArg', 'Temp', 'Bind', 'Cleanups')


def strip(x):
    while x is not None and x.k in PASS and x.c:
        x = x.c[0]
    return x


def is_out(ty):
    """a parameter type through which the callee can write"""
    t = ty.strip()
    if t.endswith('&') and not t.endswith('&&'):
        return 'const' not in t.split('<')[0].split('*')[-1] and not t.startswith('const ') or t.endswith('*&')
    if t.endswith('*'):
        return not t.startswith('const ')
    return False


def literal(x):
    x = strip(x)
    while x is not None and x.k == 'Construct' and x.c:
        x = strip(x.c[0])
    return x.d if x is not None and x.k == 'Str' else None


def values(deps):
    """the same reasons, for the values stored in a node only (not its children and types)"""
    return frozenset(a if a[0] == 'val' else ('val', a) for a in deps)


STRUCT = ('number_of_children', 'has_child', 'has_path', 'dtype', 'name', 'path', 'child_names', 'schema', 'children')


class Ctx:
    """conditions a statement is control dependent on: tuple of (deps, line, kind)"""
    __slots__ = ('items', 'deps')

    def __init__(self, items=()):
        self.items = items
        self.deps = frozenset().union(*[i[0] for i in items]) if items else E

    def add(self, deps, line, kind):
        if not deps:
            return self
        it = (deps, line, kind)
        return self if it in self.items else Ctx(self.items + (it,))


class Fun:
    def __init__(self, an, f):
        self.an, self.f = an, f
        self.obl = {}      # call id -> (node, items)
        self.args = {}     # call id -> list of deps per argument
        self.ret = set()
        self.rets = []     # return under condition
        self.outs = {}     # param index -> deps at exit
        self.pidx = {}
        env = {}
        self.params = []
        for i, (nm, pid, ty) in enumerate(f.params):
            self.pidx[pid] = i
            env[(pid, '')] = frozenset([('par', i)])
        self.alias = {}
        self.valias = set()
        self.val = False
        self.env = env
        self.loops = []
        self.lenv = []
        self.finals = []
        self.acc = []

    def run(self):
        for fld, _, init in self.f.inits or []:
            if init is not None:
                v = self.ev(init, self.env, Ctx())
                if fld:
                    self.an.write_field(self.f, fld, v)
        env = self.ex(self.f.body, dict(self.env), Ctx())
        for e in self.finals + ([env] if env is not None else []):
            for pid, i in self.pidx.items():
                self.outs[i] = self.outs.get(i, E) | self.read(('v', pid, ''), e)

    # ---- helpers
    def retctx(self, ctx):
        for d, l, k in self.rets:
            ctx = ctx.add(d, l, k)
        for lp in self.loops:
            for d, l, k in lp:
                ctx = ctx.add(d, l, k)
        return ctx

    @staticmethod
    def join(a, b):
        if a is None:
            return b
        if b is None:
            return a
        r = dict(a)
        for k, v in b.items():
            o = r.get(k)
            r[k] = v if o is None else (o | v)
        return r

    def root(self, x):
        """(variable cell or field, whole cell?) an lvalue expression designates.  A cell is (variable, constant child path)"""
        direct, path = True, []
        self.val = False

        def cell(i):
            return ('v', i, '/'.join(reversed(path)))
        while x is not None:
            x = strip(x)
            if x is None:
                return None, False
            if x.k == 'Ref':
                if x.d[0] in ('p', 'v', 'l'):
                    return cell(x.d[2]), direct
                return None, False
            if x.k == 'Member':
                b = strip(x.c[0]) if x.c else None
                if b is not None and b.k == 'This' or b is None:
                    return ('f', x.d[2]), direct
                x, direct, path = b, False, []
            elif x.k in ('Index', 'Un', 'MCall', 'OpCall'):
                if x.k == 'Un' and x.d not in ('*', '&', '++', '--'):
                    return None, False
                r = x.d[0] if x.k in ('MCall', 'OpCall') else None
                if r is not None and r.get('cls') == 'conduit::Node' and r['name'] in ('operator[]', 'fetch', 'fetch_existing', 'child', 'add_child'):
                    p = literal(x.c[1]) if len(x.c) > 1 else None
                    if p is not None:
                        path.append(p.strip('/'))
                    else:
                        direct, path = False, []
                elif r is not None and r['name'] in ('value', 'data', 'element_ptr', 'data_ptr', 'begin', 'c_str') or (r is not None and r['name'].startswith('as_')):
                    self.val = self.val or r.get('cls') == 'conduit::Node'
                elif x.k != 'Un' or x.d == '*':
                    direct = False
                    if x.k != 'Un':
                        path = []
                if x.k == 'Un' and x.d == '&' and strip(x.c[0]) is not None and strip(x.c[0]).k in ('Index', 'OpCall'):
                    y = strip(x.c[0])
                    i = strip(y.c[1]) if len(y.c) > 1 else None
                    if i is not None and i.k == 'Int' and str(i.d) == '0':      # &v[0]: the whole buffer
                        x = y.c[0]
                        continue
                x = x.c[0] if x.c else None
            elif x.k == 'Construct' and len(x.c) == 1:
                x = x.c[0]
            elif x.k == 'This':
                return ('this', None), False
            else:
                return None, False
        return None, False

    @staticmethod
    def cells(env, i, p):
        """cells of variable i below path p (p itself included)"""
        return [k for k in env if k[0] == i and (p == '' or k[1] == p or k[1].startswith(p + '/'))]

    def put(self, env, i, p, deps, strong):
        if strong:
            for k in self.cells(env, i, p):
                if k[1] != p:
                    del env[k]
            env[(i, p)] = deps
        else:
            base = self.get(env, i, p) if (i, p) not in env else env[(i, p)]
            env[(i, p)] = base | deps
            for k in self.cells(env, i, p):
                env[k] = env[k] | deps

    def get(self, env, i, p):
        q = p
        r = None
        while True:
            if (i, q) in env:
                r = env[(i, q)]
                break
            if q == '':
                break
            q = q.rsplit('/', 1)[0] if '/' in q else ''
        r = r or E
        for k in self.cells(env, i, p):
            r = r | env[k]
        return r

    def write(self, x, deps, env, ctx, strong=True):
        deps = frozenset(deps) | ctx.deps
        k, direct = self.root(x)
        val = self.val
        if val:
            deps = values(deps)
        if k is None:
            return
        if k[0] == 'f':
            self.an.write_field(self.f, k[1], deps)
            return
        if k[0] == 'this':
            return
        self.put(env, k[1], k[2], deps, strong and direct)
        done = {(k[1], k[2])}
        work = [(k[1], k[2])]
        while work:
            i, p = work.pop()
            for (ai, ap), tg in self.alias.items():
                if ai == i and (ap == p or ap == '' or p == ''):
                    for r in tg:
                        if r[0] == 'f':
                            self.an.write_field(self.f, r[1], deps)
                        elif (r[1], r[2]) not in done:
                            done.add((r[1], r[2]))
                            work.append((r[1], r[2]))
                            whole = strong and direct and len(tg) == 1 and ap == p
                            self.put(env, r[1], r[2], values(deps) if (ai, ap, r) in self.valias else deps, whole)

    def read(self, k, env, seen=()):
        if k[0] == 'f':
            return frozenset([('fld', k[1])])
        if k[0] != 'v':
            return E
        r = self.get(env, k[1], k[2])
        for (ai, ap), tg in self.alias.items():
            if ai == k[1] and (ap == k[2] or ap == '' or k[2] == '') and (ai, ap) not in seen:
                for a in tg:
                    r = r | self.read(a, env, seen + ((ai, ap),))
        return r

    def bind(self, i, p, key, val=False):
        if key is not None and key[0] in ('v', 'f') and not (key[0] == 'v' and key[1] == i):
            self.alias.setdefault((i, p), set()).add(key)
            if val:
                self.valias.add((i, p, key))

    # ---- expressions
    def ev(self, x, env, ctx):
        if x is None:
            return E
        k = x.k
        if k == 'Ref':
            if x.d[0] in ('p', 'v', 'l'):
                return self.read(('v', x.d[2], ''), env)
            return E
        if k == 'Member':
            b = strip(x.c[0]) if x.c else None
            if b is None or b.k == 'This':
                return frozenset([('fld', x.d[2])])
            return self.ev(b, env, ctx)
        if k in CALLS:
            return self.call(x, env, ctx)
        if k in ('Assign', 'OpAssign'):
            v = self.ev(x.c[1], env, ctx)
            if k == 'OpAssign':
                v = v | self.ev(x.c[0], env, ctx)
            else:
                self.ev(x.c[0], env, ctx)
            self.write(x.c[0], v, env, ctx)
            return v
        if k == 'Un' and ('++' in str(x.d) or '--' in str(x.d)):
            v = self.ev(x.c[0], env, ctx)
            self.write(x.c[0], v, env, ctx)
            return v
        if k == 'Cond':
            c = self.ev(x.c[0], env, ctx)
            cx = ctx.add(c, x.line, 'branch')
            return c | self.ev(x.c[1], env, cx) | self.ev(x.c[2], env, cx)
        if k == 'Bin' and x.d in ('&&', '||'):
            a = self.ev(x.c[0], env, ctx)
            return a | self.ev(x.c[1], env, ctx.add(a, x.line, 'branch'))
        if k == 'Lambda':
            sub = dict(env)
            for c in x.c:
                if c is not None:
                    self.lam(c, sub, ctx)
            for kk, vv in sub.items():
                if kk in env:
                    env[kk] = env[kk] | vv
            r = E
            for y in x.walk():
                if y.k == 'Ref' and y.d[0] in ('p', 'v', 'l'):
                    r = r | self.read(('v', y.d[2], ''), env)
            return r
        r = E
        for c in x.c:
            if c is not None:
                r = r | self.ev(c, env, ctx)
        return r

    def lam(self, b, env, ctx):
        save = self.rets, self.loops, self.ret, self.finals, self.lenv
        self.rets, self.loops, self.ret, self.finals, self.lenv = [], [], set(), [], []
        self.ex(b, env, ctx)
        self.rets, self.loops, self.ret, self.finals, self.lenv = save

    def call(self, x, env, ctx):
        r = x.d[0]
        qn = r['qn'] if r else ''
        kids = list(x.c)
        obj = None
        if x.k == 'MCall':
            obj, args = kids[0], kids[1:]
        else:
            args = kids
        member_op = x.k == 'OpCall' and r is not None and r.get('cls') and len(args) == len(r['params']) + 1
        if member_op:
            obj, args = args[0], args[1:]
        od = self.ev(obj, env, ctx) if obj is not None else E
        ad = [self.ev(a, env, ctx) for a in args]
        alld = od.union(*ad) if ad else od
        for a in self.acc:
            a |= alld
        if qn in THROWS:
            return E
        if qn == 'MPI_Comm_rank':
            self.write(args[1], frozenset([RANK]), env, ctx)
            return E
        if qn == 'MPI_Comm_size':
            self.write(args[1], E, env, ctx)
            return E
        if qn == RM + 'rank':
            return frozenset([RANK])
        if qn == RM + 'size':
            return E
        pc = coll_prim(r)
        if pc is not None:
            items = self.retctx(ctx).items
            if pc[1] is not None and pc[1] < len(ad) and ad[pc[1]]:
                items = items + ((ad[pc[1]], x.line, 'root'),)
            self.note(x, items)
            if pc[0] is not None:
                self.write(args[pc[0]], E, env, ctx)
            else:
                for i, a in enumerate(args):
                    if i < len(r['params']) and is_out(r['params'][i][1]):
                        self.write(a, frozenset([RANK]) | alld, env, ctx, strong=False)
            return E
        if qn.startswith(RM) and '::' not in qn[len(RM):]:      # point to point
            for i, a in enumerate(args):
                if i < len(r['params']) and is_out(r['params'][i][1]):
                    self.write(a, frozenset([RANK]) | alld, env, ctx, strong=False)
            return E
        if r is not None and r.get('cls') == 'conduit::Node' and obj is not None and r['name'] in ('operator[]', 'fetch', 'fetch_existing', 'child') and args and literal(args[0]) is not None:
            k, _ = self.root(x)
            if k is not None and k[0] == 'v':
                return self.read(k, env)
        if r is not None and r.get('cls') == 'conduit::Node' and r['name'] == 'set_external' and obj is not None and args:
            k, direct = self.root(obj)
            src, _ = self.root(args[0])
            if k is not None and k[0] == 'v' and direct and src is not None:
                if strip(args[0]).k == 'Ref' and strip(args[0]).d[0] == 'v' and 'Node' not in (strip(args[0]).ty or '') or True:
                    self.bind(k[1], k[2], src)
        if r is not None and r.get('cls') == 'conduit::Node' and r['name'] in STRUCT:
            alld = frozenset(a for a in alld if a[0] != 'val')
        tg = self.an.targets(r)
        if any(t in self.an.coll for t in tg):
            self.note(x, self.retctx(ctx).items)
        if tg and all(t in self.an.sums for t in tg):
            self.args[x.id] = (x, tg, ad, od)
            res, outs = E, {}
            for t in tg:
                ret, o = self.an.sums[t]
                res = res | self.subst(ret, ad)
                for i, v in o.items():
                    outs[i] = outs.get(i, E) | self.subst(v, ad)
            for i, v in outs.items():
                if i < len(args) and i < len(r['params']) and is_out(r['params'][i][1]):
                    self.write(args[i], v, env, ctx)
            return res
        # other library code: the results depend on the arguments
        if r is None:
            return alld
        if obj is not None and x.k in ('MCall', 'OpCall'):
            nm = r['name']
            if nm == 'operator=' or r.get('cls') == 'conduit::Node' and nm in ('set', 'reset', 'set_external', 'set_node', 'update') and nm != 'update':
                self.write(obj, alld - od if nm != 'reset' else E, env, ctx)
                return alld - od
            if not r.get('const') and nm not in ('operator[]', 'begin', 'end', 'child', 'fetch', 'next', 'value', 'data', 'at', 'front', 'back', 'has_next', 'children', 'element_ptr', 'data_ptr', 'contiguous_data_ptr', 'name', 'parent', 'operator*', 'operator->', 'get', 'find') and not nm.startswith(('as_', 'to_')):
                rest = frozenset().union(*ad) if ad else E
                if rest or ctx.deps:
                    self.write(obj, rest, env, ctx, strong=False)
        for i, a in enumerate(args):
            j = i
            if j < len(r['params']) and is_out(r['params'][j][1]) and x.k != 'Construct':
                if alld or ctx.deps:
                    self.write(a, alld, env, ctx, strong=False)
        return alld

    def subst(self, deps, ad):
        r = set()
        for d in deps:
            if d[0] == 'val' and d[1][0] == 'par':
                if d[1][1] < len(ad):
                    r |= values(ad[d[1][1]])
            elif d[0] == 'par':
                if d[1] < len(ad):
                    r |= ad[d[1]]
            else:
                r.add(d)
        return frozenset(r)

    def note(self, x, items):
        o = self.obl.get(x.id)
        if o is None:
            self.obl[x.id] = (x, set(items))
        else:
            o[1].update(items)

    # ---- statements: returns env or None when control does not continue
    def ex(self, s, env, ctx):
        if s is None or env is None:
            return env
        k = s.k
        cx = self.retctx(ctx)
        if k == 'Block':
            for c in s.c:
                env = self.ex(c, env, ctx)
                if env is None:
                    return None
            return env
        if k == 'Decl':
            for v in s.c:
                self.ex(v, env, ctx)
            return env
        if k == 'Var':
            ty = s.ty or ''
            d = E
            if s.c and s.c[0] is not None:
                d = self.ev(s.c[0], env, cx)
                if ty.rstrip().endswith(('&', '*')) or 'Iterator' in ty or 'DataArray' in ty or 'iterator' in ty:
                    rk, whole = self.root(s.c[0])
                    if rk is not None and rk[0] in ('v', 'f'):
                        self.bind(s.d[1], '', rk, self.val)
                        self.put(env, s.d[1], '', cx.deps if whole else d | cx.deps, True)
                        return env
            self.put(env, s.d[1], '', d | cx.deps, True)
            return env
        if k == 'If':
            init, c, th, el = s.c[0], s.c[1], s.c[2], s.c[3] if len(s.c) > 3 else None
            if init is not None:
                env = self.ex(init, env, ctx)
            if c is not None and c.k in ('Decl', 'Var'):
                env = self.ex(c, env, ctx)
                d = E
            else:
                d = self.ev(c, env, cx)
            same = bool(d) and self.seq(th) and self.seq(th) == self.seq(el)
            c2 = ctx.add(d, s.line, 'same' if same else 'branch')
            e1 = self.ex(th, dict(env), c2)
            e2 = self.ex(el, dict(env), c2) if el is not None else dict(env)
            return self.join(e1, e2)
        if k in ('While', 'Do', 'For', 'RangeFor'):
            return self.loop(s, env, ctx)
        if k == 'Switch':
            d = self.ev(s.c[0], env, cx)
            c2 = ctx.add(d, s.line, 'branch')
            self.loops.append([])
            self.lenv.append([])
            out = dict(env)
            for c in s.c[1:]:
                e = self.ex(c, dict(out), c2)
                out = self.join(out, e)
            self.loops.pop()
            for e in self.lenv.pop():
                out = self.join(out, e)
            return out
        if k in ('Case', 'Default', 'Label'):
            for c in s.c:
                env = self.ex(c, env, ctx) if env is not None else None
            return env
        if k == 'Return':
            if s.c and s.c[0] is not None:
                self.ret |= self.ev(s.c[0], env, cx)
            self.ret |= cx.deps
            if ctx.items and not any(i[2] == 'catch' for i in ctx.items):
                self.rets += [(i[0], i[1], 'return') for i in ctx.items if i[2] != 'return']
            self.finals.append(env)
            return None
        if k in ('Break', 'Continue'):
            if self.loops:
                self.loops[-1] += [(i[0], i[1], k.lower()) for i in ctx.items]
                self.lenv[-1].append(env)
            return None
        if k == 'Throw':
            return None
        if k == 'Try':
            before = dict(env)
            self.acc.append(set())
            env = self.ex(s.c[0], env, ctx)
            errs = frozenset(self.acc.pop())
            if any(y.k in CALLS and y.d[0] is not None and y.d[0]['name'].startswith(IO) for y in s.c[0].walk()):
                errs = errs | frozenset([('err',)])
            for c in s.c[1:]:
                e = self.ex(c, self.join(before, dict(env)) if env is not None else dict(before), ctx.add(errs, s.line, 'catch'))
                env = self.join(env, e)
            return env
        if k == 'Catch':
            for c in s.c:
                env = self.ex(c, env, ctx) if env is not None else None
            return env
        self.ev(s, env, cx)
        y = strip(s)
        if y is not None and y.k in CALLS and y.d[0] is not None and y.d[0]['qn'] in THROWS:
            return None
        return env

    def seq(self, s):
        """the collectives a statement executes, if it does so unconditionally"""
        if s is None:
            return ()
        out = []
        for y in s.walk():
            if y.k in ('If', 'For', 'While', 'Do', 'RangeFor', 'Switch', 'Cond', 'Return', 'Break', 'Continue', 'Throw', 'Try', 'Lambda'):
                if any(self.iscoll(z) for z in y.walk()) or y.k in ('Return', 'Break', 'Continue', 'Throw'):
                    return None
            if self.iscoll(y):
                pc = coll_prim(y.d[0])
                a = y.c
                root = None
                if pc is not None and pc[1] is not None and pc[1] < len(a):
                    z = strip(a[pc[1]])
                    root = (z.k, str(z.d)) if z is not None else None
                out.append((y.d[0]['qn'], root))
        return tuple(out)

    def iscoll(self, y):
        return y.k in CALLS and y.d[0] is not None and (coll_prim(y.d[0]) is not None or any(t in self.an.coll for t in self.an.targets(y.d[0])))

    def loop(self, s, env, ctx):
        k = s.k
        if k == 'For':
            init, c, inc, body = s.c[0], s.c[1], s.c[2], s.c[3]
            if init is not None:
                env = self.ex(init, env, ctx)
        elif k == 'While':
            c, inc, body = s.c[0], None, s.c[1]
        elif k == 'Do':
            body, c, inc = s.c[0], s.c[1], None
        else:
            c, inc, body = None, None, s.c[2]
        self.loops.append([])
        self.lenv.append([])
        for _ in range(6):
            start = dict(env)
            cx = self.retctx(ctx)
            if k == 'RangeFor':
                d = self.ev(s.c[0], env, cx)
                v = s.c[1]
                rk, _x = self.root(s.c[0])
                if rk is not None and rk[0] in ('v', 'f') and (v.ty or '').rstrip().endswith('&') and not (v.ty or '').startswith('const'):
                    self.bind(v.d[1], '', rk)
                self.put(env, v.d[1], '', d | cx.deps, True)
            else:
                d = self.ev(c, env, cx) if c is not None and c.k not in ('Decl', 'Var') else E
            c2 = ctx.add(d, s.line, 'loop')
            e = self.ex(body, dict(env), c2)
            if e is not None and inc is not None:
                self.ev(inc, e, self.retctx(c2))
            env = self.join(dict(env), e) if e is not None else dict(env)
            for e in self.lenv[-1]:
                env = self.join(env, e)
            self.lenv[-1] = []
            if env == start:
                break
        self.loops.pop()
        self.lenv.pop()
        # leaving the loop early under a condition: variables changed in the loop carry it already
        return env


class An:
    def __init__(self, pr):
        self.pr = pr
        self.over = {}
        recs = pr.records
        meth = {}
        for r in recs.values():
            for m, virt in r['methods']:
                meth.setdefault(r['qn'], {})[(m['name'], tuple(p[1] for p in m['params']))] = m
        def bases(q, seen):
            for b in recs.get(q, {}).get('bases', []):
                b = b.replace('class ', '').replace('struct ', '')
                if b not in seen:
                    seen.append(b)
                    bases(b, seen)
            return seen
        for q in recs:
            for b in bases(q, []):
                for sig, m in meth.get(b, {}).items():
                    d = meth.get(q, {}).get(sig)
                    if d is not None and d['usr'] in pr.funcs and (m.get('virtual') or True) and not m['name'].startswith('~') and m['name'] != b.split('::')[-1]:
                        self.over.setdefault(m['usr'], set()).add(d['usr'])
        self.fields = {}
        self.sums = {}
        self.coll = set()
        self.funs = {}
        callees = {}
        for u, f in pr.funcs.items():
            if f.body is None:
                continue
            cs = set()
            prim = False
            for y in f.body.walk():
                if y.k in CALLS and y.d[0] is not None:
                    if coll_prim(y.d[0]) is not None:
                        prim = True
                    cs |= set(self.targets(y.d[0]))
            callees[u] = cs
            if prim and not f.qn.startswith(RM + 'all_') and not self.isrelay(f):
                self.coll.add(u)
        ch = True
        while ch:
            ch = False
            for u, cs in callees.items():
                if u not in self.coll and not self.isrelay(self.pr.funcs[u]) and cs & self.coll:
                    self.coll.add(u)
                    ch = True
        self.callees = callees

    def isrelay(self, f):
        return f.file.endswith('relay/conduit_relay_mpi.cpp')

    def targets(self, r):
        if r is None:
            return []
        u = r['usr']
        ov = [x for x in sorted(self.over.get(u, ())) if '::mpi::' in self.pr.funcs[x].qn]
        if ov:               # the object analysed is the parallel one
            return ov
        t = [u] if u in self.pr.funcs else []
        return t + [x for x in self.over.get(u, ()) if x not in t]

    def write_field(self, f, fld, deps):
        q = fld
        d = set()
        for a in deps:
            if a[0] == 'val':
                a = a[1]
            if a[0] == 'par':
                d.add(('parof', f.usr, a[1]))
            elif a != ('fld', q):
                d.add(a)
        o = self.fields.get(q, frozenset())
        n = o | frozenset(d)
        if q not in self.fields or n != o:
            self.fields[q] = n
            self.dirty = True

    def solve(self):
        # collective functions and what they call inside the analysed files that matters for values: only collective ones get summaries
        order = sorted(self.coll, key=lambda u: (self.pr.funcs[u].file, self.pr.funcs[u].line))
        for _ in range(8):
            self.dirty = False
            for u in order:
                f = self.pr.funcs[u]
                fn = Fun(self, f)
                fn.run()
                self.funs[u] = fn
                new = (frozenset(fn.ret), dict(fn.outs))
                if self.sums.get(u) != new:
                    self.sums[u] = new
                    self.dirty = True
            if not self.dirty:
                break
        # fields also get values in constructors and other members
        cls = set(self.pr.funcs[u].cls for u in self.coll if self.pr.funcs[u].cls)
        for u, f in self.pr.funcs.items():
            if u not in self.coll and f.body is not None and f.cls and (f.cls in cls or self.derived(f.cls, cls)):
                Fun(self, f).run()
        return order

    def derived(self, c, cls):
        for q in cls:
            for b in self.pr.records.get(q, {}).get('bases', []):
                if b.replace('class ', '').replace('struct ', '') == c:
                    return True
        return False

    # ---- why a value can differ between ranks
    def why(self, atom, u, seen=()):
        """None when the value is the same on all ranks, else a reason"""
        key = (atom, u)
        if key in seen or len(seen) > 40:
            return None
        seen = seen + (key,)
        if atom[0] == 'val':
            return self.why(atom[1], u, seen)
        if atom == RANK:
            return 'the rank'
        if atom[0] == 'err':
            return 'an error only this rank may have met'
        if atom[0] == 'par':
            f = self.pr.funcs[u]
            ps = self.calls_of(u)
            nm, _, ty = f.params[atom[1]]
            if f.cls and f.cls.endswith('ParallelMeshFlattener') and 'conduit::Node' in ty and not ty.startswith('const'):
                return None      # the table under construction: its columns come from the broadcast field list
            if ps:
                for cu, (x, tg, ad, od) in ps:
                    if atom[1] < len(ad):
                        for a in ad[atom[1]]:
                            r = self.why(a, cu, seen)
                            if r:
                                return r
                return None
            return self.bytype(nm, ty)
        if atom[0] == 'parof':
            return self.why(('par', atom[2]), atom[1], seen)
        if atom[0] == 'fld':
            v = self.fields.get(atom[1])
            if v is None:
                return None
            for a in v:
                r = self.why(a, u, seen)
                if r:
                    return r
            return None
        return None

    @staticmethod
    def bytype(nm, ty):
        if 'conduit::Node' in ty and not (nm or '').startswith(('opt', 'opts')):
            return 'the node `%s`, of which every rank has its own' % nm
        return None

    def calls_of(self, u):
        out = []
        for cu, fn in self.funs.items():
            for c in fn.args.values():
                if u in c[1]:
                    out.append((cu, c))
        return out


def run(tier):
    ck = Check('R02', 'other', 'data-flow analysis of the reasons for which a value can differ between ranks: every call that reaches an MPI collective is reached under conditions (branches, loop bounds, earlier returns) '
               'that are the same on all ranks, and names the same root on all ranks', tier)
    pr = P.load(lambda r: r.startswith(SEL), variant='mpi')
    an = An(pr)
    order = an.solve()
    n = conds = 0
    for u in order:
        fn = an.funs[u]
        for x, its in sorted(fn.obl.values(), key=lambda o: o[0].line):
            n += 1
            what = x.d[0]['qn'].replace('conduit::', '')
            msgs = []
            for deps, line, kind in sorted(its, key=lambda i: (i[1], i[2], sorted(map(str, i[0])))):
                if kind == 'same':
                    continue
                conds += 1
                rs = sorted(set(filter(None, (an.why(a, u) for a in sorted(deps, key=str)))))
                if rs:
                    msgs.append((line, kind, rs[0]))
            if not msgs:
                ck.ok(1, '%s:%d %s: reached by all ranks' % (fn.f.rel, x.line, what))
                continue
            line, kind, r = msgs[0]
            key = 'uniform:%s:%s:%s' % (fn.f.qn, what, kind)
            how = {'root': 'its root argument depends on %s', 'return': 'a return before it depends on %s', 'loop': 'the loop around it depends on %s', 'catch': 'it is in the handler of %s'}.get(kind, 'the condition around it depends on %s')
            ck.bad(key, fn.f.file, line, '%s: %s (line %d) may not be executed alike by all ranks: %s' % (fn.f.qn.replace('conduit::', ''), what, x.line, how % r))
    ck.count('conditions', conds)
    ck.count('routines', len(order))
    ck.floor('collective calls', n, 40)
    return ck
