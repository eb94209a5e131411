"""B01: a blueprint verify verdict never hides a failed sub-check."""
from common import Check
import prog as P
from interp import Interp
from vfold import *


def reduces(f):
    """the verdict is reduced over MPI ranks (decided by the collective's result, not by local folding)"""
    return any(x.k == 'Call' and x.d[0] is not None and x.d[0]['qn'].startswith('conduit::relay::mpi::') and 'reduce' in x.d[0]['name']
               for x in f.body.walk())


def run(tier):
    ck = Check('B01', 'other', 'on every path of every blueprint verify routine: a sub-check that returned false or an error that was logged '
               'forces the routine to return false, and the routine records on its own info node the same validity it returns', tier)
    pr = P.load(lambda r: r.startswith('blueprint/conduit_') or r in ('conduit/conduit_log.cpp',))
    fns = [f for f in pr.funcs.values() if is_subcheck_ref(f.ref) and '/libs/blueprint/' in f.file
           and not reduces(f)]
    ck.floor('verify_routines', len(fns), 55)
    rel = relevant_helpers(pr, fns, None)
    sites = 0
    for f in sorted(fns, key=lambda f: (f.file, f.line)):
        dom = VDomain(pr, rel - {f.usr})
        ii = info_param(f)
        dom.info = ('p', f.params[ii][0], ii)
        ip = Interp(pr, dom)
        init = (None, None)
        pv = None
        outs = ip.run(f, init)
        sites += len(dom.sites)
        ck.count('paths', len(outs))
        boolrefs = [i for i, p in enumerate(f.params) if p[2] == 'bool &']
        public = f.name == 'verify'
        for kind, st, v, n in outs:
            if kind != 'return':
                continue
            failed, val = st.dom
            line = n.line if n is not None else f.end
            if failed and v is not False:
                # also folded when the caller-visible bool& reports it
                if any(ip.load(('*', ('p', f.params[i][0], i)), st) == ('c', False) for i in boolrefs):
                    continue
                ck.bad('lost-failure:%s:%s' % (f.qn, failed[2]), f.file, failed[1],
                       '%s: failure reported by %s here can still end in a true verdict (return at line %d)' % (f.qn, failed[2], line))
            elif public and val is not None and v is not None and val is not v and not (v is False and val is False):
                if val is True and v is False or val is False and v is True:
                    ck.bad('validity-mismatch:%s' % f.qn, f.file, line, '%s: returns %s but records valid=%s on its info node' % (f.qn, v, val))
            elif public and val is None:
                ck.bad('validity-missing:%s' % f.qn, f.file, line, '%s: a path returns %s without recording validity on its info node' % (f.qn, v))
        ck.ok(len(dom.sites) + 1, '%s (%s:%d): %d sub-check/error sites, %d exit states' % (f.qn, f.rel, f.line, len(dom.sites), len(outs)))
    ck.floor('subcheck_sites', sites, 200)
    return ck
