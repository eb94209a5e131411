"""B02: blueprint verify accepts only trees on which every check of the protocol was made and passed."""
import json, os
from multiprocessing import Pool
from common import Check
import prog as P
from vreq import *

TABLE = os.path.dirname(os.path.abspath(__file__)) + '/data/verify_requirements.json'
_ctx = {}


def load_table():
    t = {}
    for r in json.load(open(TABLE)):
        t[(r['routine'], r['nparams'])] = r
    return t


def mkreq(e):
    return Req(e['check'], tuple(e['path']), e.get('arg'), [tuple(tuple(y) if isinstance(y, list) else y for y in u) for u in e.get('unless', [])],
               per=tuple(e['per']) if 'per' in e else None)


def expand(reqs, table, have, depth=0):
    """a required internal helper that no longer exists: require what it required (its successor is analysed inline)"""
    out = []
    for r in reqs:
        if r.kind.startswith('verify_') and r.kind not in have and depth < 4:
            sub = [v for k, v in table.items() if k[0].split('::')[-1] == r.kind]
            if sub:
                s2 = []
                for e in sub[0]['requires']:
                    q = mkreq(e)
                    p = join(r.path, q.path[1]) if q.path[1] else r.path
                    un = {(u[0], join(r.path, u[1][1])) + tuple(u[2:]) for u in q.unless} | set(r.unless)
                    s2.append(Req(q.kind, p, q.extra, un))
                out += expand(s2, table, have, depth + 1)
                continue
        out.append(r)
    return out


def work(u):
    pr, opaque, rel, table, have = _ctx['x']
    f = pr.funcs[u]
    ent = table[(f.qn, len(f.params))]
    reqs = expand([mkreq(e) for e in ent['requires']], table, have)
    stl = any(x.k == 'Call' and x.d[0] is not None and x.d[0]['qn'].startswith(('std::find', 'std::count', 'std::any_of')) for x in f.body.walk())
    some = set(i for i, e in enumerate(ent['requires']) if e.get('some'))
    try:
        d, bad, acc = analyse(pr, f, opaque, rel, reqs)
    except P.ToolError as e:
        return (u, 0, 0, [], str(e))
    out = []
    und = []
    for i, r in enumerate(reqs):
        if r.kind == 'member' and stl:
            continue
        if r.kind == 'exhaust':
            if ('each', r.path) in d.seen and i in bad:
                out.append((i, r.key(), bad[i].line if bad[i] is not None else f.end, 'skipped'))
        elif r.kind == 'never':
            said = [any(x[:-1] == u[:-1] for x in d.seen) for u in r.unless]
            if not all(said) and (any(said) or len(said) > 2):
                und.append('%s: a condition of %s is decided in a way the rule does not read' % (f.qn, r.key()))
            elif i in bad:
                out.append((i, r.key(), bad[i].line if bad[i] is not None else f.end, 'skipped'))
        elif i not in d.sat:
            out.append((i, r.key(), f.line, 'gone'))
        elif i in bad and i not in some:
            out.append((i, r.key(), bad[i].line if bad[i] is not None else f.end, 'skipped'))
    return (u, len(reqs), acc, out, None if not und else und)


def run(tier):
    ck = Check('B02', 'other', 'on every path of a blueprint verify routine that can return true, each check the protocol requires '
               '(table verify_requirements.json: kind of check, path in the tree, exempting condition) has been made on that path of the tree; '
               'for containers, on every child', tier)
    pr = P.load(lambda r: r.startswith('blueprint/conduit_') or r in ('conduit/conduit_log.cpp',))
    table = load_table()
    fns = [f for f in pr.funcs.values() if is_subcheck_ref(f.ref) and '/libs/blueprint/' in f.file]
    have = {f.name for f in fns}
    known = {k for k in table} | {tuple(x) for x in ()}
    rel = relevant_helpers(pr, fns, None)
    opaque = {f.usr for f in fns if f.name == 'verify' or (f.qn, len(f.params)) in known} - rel
    todo = [f for f in fns if (f.qn, len(f.params)) in table]
    missing = set(table) - {(f.qn, len(f.params)) for f in todo}
    for m in sorted(missing):
        ck.notes.append('routine %s/%d no longer exists; its requirements are decided where its successor is called' % m)
        if m[0].endswith('::verify'):
            raise P.ToolError('verify routine %s/%d not found' % m)
    _ctx['x'] = (pr, opaque, rel, table, have)
    with Pool(8) as p:
        res = p.map(work, [f.usr for f in sorted(todo, key=lambda f: f.line - f.end)], 1)
    n = 0
    for u, nr, acc, out, err in res:
        f = pr.funcs[u]
        if isinstance(err, list):
            ck.notes += ['undecided: ' + x for x in err]
        elif err:
            ck.notes.append('undecided: %s: %s' % (f.qn, err))
            continue
        n += nr
        ck.count('accepting_exits', acc)
        ck.ok(nr - len(out), '%s: %d requirements' % (f.qn, nr))
        for i, key, line, why in out:
            msg = {'gone': '%s: the required check %s is not made any more', 'skipped': '%s: can return true without the required check %s'}[why]
            ck.bad('required:%s:%s' % (f.qn, key), f.file, line, msg % (f.qn, key))
    ck.floor('requirements', n, 150)
    ck.counts['routines'] = len(todo)
    return ck
