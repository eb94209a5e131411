"""Loading of the resolved program.

configure(): configures a fresh scratch build tree from /repo's current sources (no
compilation), so that generated headers and the set of translation units are current.
load(): parses the wanted translation units with the libTooling exporter and merges
them into one Program (function bodies keyed by USR).
"""
import json, os, subprocess, sys, shutil, tempfile, hashlib, atexit
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = REPO + '/src'
CMAKE = '/opt/vp/cmake'


class ToolError(Exception):
    """analysis could not be carried out (exit 2, never a verdict)"""


def tool():
    src = ROOT + '/tool/cexport.cpp'
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    p = ROOT + '/.build/cexport-' + h
    if not os.path.exists(p):
        r = subprocess.run(['bash', ROOT + '/tool/build.sh', p], capture_output=True, text=True)
        if r.returncode:
            raise ToolError('cannot build exporter: ' + r.stderr[-2000:])
    return p


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='verif-')
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def configure():
    b = scratch() + '/cfg'
    if os.path.exists(b + '/compile_commands.json'):
        return b
    env = {k: v for k, v in os.environ.items() if k not in
           ('CFLAGS', 'CXXFLAGS', 'FFLAGS', 'LDFLAGS', 'CPATH', 'LIBRARY_PATH', 'LD_LIBRARY_PATH', 'PYTHONPATH')}
    env.update(CC='/usr/bin/gcc', CXX='/usr/bin/g++', FC='/usr/bin/gfortran', HOME='/root', LC_ALL='C.UTF-8',
               PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
    src = CMAKE
    if REPO != '/repo':      # development only: analyse a copy of the repository
        src = scratch() + '/cmake'
        shutil.copytree(CMAKE, src)
        f = src + '/CMakeLists.txt'
        t = open(f).read().replace('/repo/', REPO + '/')
        open(f, 'w').write(t)
    r = subprocess.run(['cmake', '-S', src, '-B', b, '-G', 'Ninja', '-DPython3_EXECUTABLE=/usr/bin/python3.12',
                        '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON'], env=env, capture_output=True, text=True)
    if r.returncode or not os.path.exists(b + '/compile_commands.json'):
        raise ToolError('cmake configure failed: ' + (r.stderr or r.stdout)[-2000:])
    return b


class N:
    """one AST node"""
    __slots__ = ('k', 'line', 'ty', 'd', 'c', 'id', 'last', 'p', 'fn')

    def __repr__(self):
        return '<%s@%s %r>' % (self.k, self.line, self.d)

    def walk(self):
        st = [self]
        while st:
            n = st.pop()
            yield n
            for x in reversed(n.c):
                if x is not None:
                    st.append(x)


class Func:
    __slots__ = ('usr', 'qn', 'name', 'cls', 'ref', 'file', 'line', 'end', 'params', 'body', 'inits', 'ret', 'flags', 'tu', 'unit', '_raw', '_parsed')

    def __repr__(self):
        return '<Func %s %s:%d>' % (self.qn, self.file, self.line)

    @property
    def rel(self):
        return rel(self.file)


def rel(f):
    return f[len(REPO) + 1:] if f.startswith(REPO + '/') else f


class Program:
    def __init__(self):
        self.funcs = {}        # usr -> Func (with body)
        self.refs = {}         # usr -> ref dict
        self.byname = {}       # qn -> [Func]
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.decl_qns = {}     # qn -> [ref]
        self.units = []
        self.lines = 0

    def get(self, qn):
        return self.byname.get(qn, [])

    def one(self, qn, pred=None):
        l = [f for f in self.get(qn) if pred is None or pred(f)]
        if len(l) != 1:
            raise ToolError('anchor %s: expected one definition, found %d' % (qn, len(l)))
        return l[0]

    def in_file(self, suffixes):
        return [f for f in self.funcs.values() if f.file.endswith(tuple(suffixes))]


_counter = [0]


def _mk(a, types, refs, fn, parent):
    if a is None:
        return None
    n = N()
    k, line, ty, d, ch = a
    n.k = k
    n.line = line
    n.ty = types[ty] if ty >= 0 else ''
    n.fn = fn
    n.p = parent
    _counter[0] += 1
    n.id = _counter[0]
    if k in ('Call', 'MCall', 'OpCall', 'Construct', 'ICall', 'Lambda'):
        r = refs[d[0]] if d[0] >= 0 else None
        n.d = (r,) + tuple(d[1:]) if k != 'Lambda' else (r, [(x[0], x[1], types[x[2]]) for x in d[1]])
    elif k == 'Ref' or k == 'Member':
        if d[0] == 'f':
            n.d = ('f', refs[d[1]])
        else:
            n.d = tuple(d)
    elif k == 'New':
        n.d = (types[d[0]], d[1])
    elif k == 'Sizeof':
        n.d = (d[0], types[d[1]])
    else:
        n.d = tuple(d) if isinstance(d, list) else d
    n.c = [_mk(x, types, refs, fn, n) for x in ch]
    n.last = _counter[0]
    return n


def _load_tu(prog, path, unit):
    with open(path) as f:
        t = json.load(f)
    types, files = t['types'], t['files']
    refs = []
    for r in t['funcs']:
        r['file'] = files[r['file']]
        r['ret'] = types[r['ret']]
        r['params'] = [(p[0], types[p[1]]) for p in r['params']]
        old = prog.refs.get(r['usr'])
        if old is None:
            prog.refs[r['usr']] = r
            old = r
        refs.append(old)
    for i in t['decls']:
        r = refs[i]
        l = prog.decl_qns.setdefault(r['qn'], [])
        if r not in l:
            l.append(r)
    for b in t['bodies']:
        r = refs[b['f']]
        if r['usr'] in prog.funcs:
            continue
        f = Func()
        f.usr, f.qn, f.name, f.cls, f.ref = r['usr'], r['qn'], r['name'], r.get('cls'), r
        f.file, f.line, f.end, f.tu, f.unit = files[b['file']], b['line'], b['end'], path, unit
        f.params = [(p[0], p[1], types[p[2]]) for p in b['params']]
        f.ret = r['ret']
        f.flags = {k: b[k] for k in ('defaulted', 'inst', 'private', 'internal') if k in b}
        f.body = _mk(b['body'], types, refs, f, None)
        f.inits = [(i[0], i[1], _mk(i[2], types, refs, f, None)) for i in b.get('inits', [])]
        prog.funcs[f.usr] = f
        prog.byname.setdefault(f.qn, []).append(f)
        prog.lines += max(0, f.end - f.line + 1)
    for r in t['records']:
        r['file'] = files[r['file']]
        r['fields'] = [(x[0], types[x[1]], x[2], x[3]) for x in r['fields']]
        r['bases'] = [types[x] for x in r['bases']]
        r['methods'] = [(refs[x[0]], x[1]) for x in r['methods']]
        prog.records.setdefault(r['qn'], r)
    for e in t['enums']:
        prog.enums.setdefault(e['qn'], dict(e['consts']))
    for g in t['globals']:
        if g['qn'] not in prog.globals:
            prog.globals[g['qn']] = (files[g['file']], g['line'], types[g['ty']], _mk(g['init'], types, refs, None, None))


def commands():
    b = configure()
    out = []
    for c in json.load(open(b + '/compile_commands.json')):
        f = c['file']
        if f.startswith(SRC + '/libs/') and f.endswith(('.cpp', '.c')):
            out.append(c)
    return out


def load(select, variant=None, extra=None):
    """select: predicate on the path relative to src/libs (e.g. 'conduit/conduit_node.cpp').
    variant: 'mpi' picks the CONDUIT_RELAY_IO_MPI_ENABLED compile of files compiled twice.
    extra: {name: (text, like)} further units, compiled as `like` is (explicit instantiations of the tree's templates)"""
    t = tool()
    b = configure()
    todo, seen = [], set()
    for c in commands():
        r = c['file'][len(SRC + '/libs/'):]
        mpi = 'CONDUIT_RELAY_IO_MPI_ENABLED' in c['command'] and 'conduit_relay_mpi_io' in c.get('output', '')
        twice = mpi and not r.endswith(('conduit_relay_mpi_io.cpp', 'conduit_relay_mpi_io_c.cpp'))
        if twice and variant != 'mpi':
            continue
        if not select(r):
            continue
        key = (r, mpi)
        if key in seen:
            continue
        seen.add(key)
        todo.append((c, r, mpi))
    for nm, (text, like) in (extra or {}).items():
        c = [c for c in commands() if c['file'] == SRC + '/libs/' + like]
        if not c:
            continue
        fn = scratch() + '/' + nm
        open(fn, 'w').write(text)
        todo.append((dict(c[0], file=fn, command=c[0]['command'].replace(c[0]['file'], fn)), nm, False))
    if not todo:
        raise ToolError('no translation unit selected')
    out = scratch() + '/facts'
    os.makedirs(out, exist_ok=True)

    def run(x):
        i, (c, r, mpi) = x
        db = '%s/db%d' % (scratch(), i)
        os.makedirs(db, exist_ok=True)
        json.dump([c], open(db + '/compile_commands.json', 'w'))
        o = '%s/%s%s.json' % (out, r.replace('/', '_'), '.mpi' if mpi else '')
        if not os.path.exists(o):
            p = subprocess.run([t, '-p', db, '-o', o, '-prefix=' + SRC + '/libs,' + b, '-exclude=thirdparty_builtin',
                                '--extra-arg=-Wno-everything', c['file']], capture_output=True, text=True)
            if p.returncode or not os.path.exists(o):
                raise ToolError('cannot parse %s: %s' % (r, p.stderr[-1500:]))
        return o, r, mpi
    prog = Program()
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(run, enumerate(todo)))
    sys.setrecursionlimit(100000)
    for o, r, mpi in res:
        _load_tu(prog, o, r + ('[mpi]' if mpi else ''))
        prog.units.append(r + ('[mpi]' if mpi else ''))
    return prog


if __name__ == '__main__':
    print('exporter:', tool())
