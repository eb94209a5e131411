"""Verdict folding: shared by the blueprint verify checks and Node::diff.

For every verify-style function the path-sensitive abstract interpreter tracks
whether some sub-check reported failure (or an error was logged) and what the
function returns.  Rule: failed on a path => that path returns false.
"""
import prog as P
from interp import Interp, Domain, TRUE, FALSE, strip

LOGERR = 'conduit::utils::log::error'
LOGVAL = 'conduit::utils::log::validation'


def info_param(f):
    """index of the mutable Node& parameter that carries the report (last Node&)"""
    r = None
    for i, p in enumerate(f.params):
        if p[2] == 'conduit::Node &':
            r = i
    return r


def is_subcheck_ref(ref):
    """bool-returning verify routine with an info report parameter"""
    return (ref is not None and ref['ret'] == 'bool' and ref['name'].startswith('verify')
            and any(p[1] == 'conduit::Node &' for p in ref['params']))


class VDomain(Domain):
    """dom = (failed site or None, own-info validity None/True/False)"""
    cap = 600
    inline_depth = 5

    def __init__(self, prog, relevant):
        self.prog, self.relevant = prog, relevant
        self.sites = {}
        self.events = []

    def init(self):
        return (None, None)

    def inline(self, ip, ref, n):
        return ref['usr'] in self.relevant

    def pure(self, ref):
        if ref['ret'].endswith('*') or ref['ret'].endswith('&'):
            return ref['name'] in ('operator[]', 'fetch_existing', 'fetch', 'child', 'dtype')
        return False

    def same_info(self, ip, v):
        return v == self.info

    def on_call(self, ip, s, n, ref, obj, args, locs):
        if ref is None:
            return None
        qn = ref['qn']
        if qn == LOGERR:
            self.sites[n.id] = n
            failed, val = s.dom
            return [(s.withdom((failed or (n.fn.rel, n.line, 'log::error'), val)), ('u', 'void'))]
        if qn == LOGVAL:
            out = []
            for s2, b in ip.decide(args[1], s):
                failed, val = s2.dom
                if self.same_info(ip, args[0]):
                    val = b if val is None else (val and b)
                    s2 = s2.withdom((failed, val))
                out.append((s2, ('u', 'void')))
            return out
        if is_subcheck_ref(ref) and ref['usr'] not in self.relevant:
            self.sites[n.id] = n
            out = []
            infos = [a for a, p in zip(args, ref['params']) if p[1] == 'conduit::Node &']
            for b in (True, False):
                failed, val = s.dom
                if not b:
                    failed = failed or (n.fn.rel, n.line, ref['qn'])
                if infos and self.same_info(ip, infos[-1]):
                    val = b if val is None else (val and b)
                s2 = s.withdom((failed, val))
                out.append((s2, ('c', b)))
            return out
        return None


def relevant_helpers(prog, roots, keep_opaque):
    """functions to inline: not sub-checks themselves (or sub-checks that also report
    through a bool& parameter), from which log::error / a sub-check is reachable"""
    direct = {}
    for f in prog.funcs.values():
        cs = set()
        for x in f.body.walk():
            if x.k in ('Call', 'MCall', 'OpCall', 'Construct') and x.d[0] is not None:
                cs.add(x.d[0]['usr'])
        direct[f.usr] = cs
    reach = set()
    for f in prog.funcs.values():
        if any(is_subcheck_ref(prog.refs.get(u)) or prog.refs[u]['qn'] == LOGERR for u in direct[f.usr] if u in prog.refs):
            reach.add(f.usr)
    changed = True
    while changed:
        changed = False
        for f in prog.funcs.values():
            if f.usr not in reach and any(u in reach and not is_subcheck_ref(prog.refs[u]) for u in direct[f.usr]):
                reach.add(f.usr)
                changed = True
    out = set()
    for u in reach:
        f = prog.funcs[u]
        if '/libs/' not in f.file:
            continue
        if is_subcheck_ref(f.ref) and not any(p[2] == 'bool &' for p in f.params):
            continue
        out.add(u)
    return out
