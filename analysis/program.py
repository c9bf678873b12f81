"""Whole-program index over the extracted facts."""
import os, facts
from facts import AnalysisError, REPO

def walk(n):
    """All dict nodes below n (n included), in source order."""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if 'k' in x or 'id' in x: yield x
            kids = [v for v in x.values() if isinstance(v, (dict, list))]
            st.extend(reversed(kids))
        elif isinstance(x, list):
            st.extend(reversed(x))

class Program:
    def __init__(self):
        tus, self.gen, self.units = facts.load()
        self.fns, self.byq, self.records, self.vars = {}, {}, {}, {}
        for ti, tu in enumerate(tus):
            aux = tu['tu'].endswith('instantiate.cpp')
            for f in tu['functions']:
                if f['id'] in self.fns: continue
                if aux and f['file'].endswith('instantiate.cpp'): continue
                f['_tu'] = ti
                self.fns[f['id']] = f
                self.byq.setdefault(f['q'], []).append(f)
            for r in tu['records']: self.records.setdefault(r['t'], r)
            for v in tu['vars']:
                if v['id'] not in self.vars or ('e' in v and 'e' not in self.vars[v['id']]): self.vars[v['id']] = v
        self.over = {}          # overridden id -> direct overriders
        self.methods = {}       # id -> (record, method)
        for r in self.records.values():
            for m in r['methods']:
                self.methods[m['id']] = (r, m)
                for o in m['over']: self.over.setdefault(o, set()).add(m['id'])
        self.derived = {}
        for r in self.records.values():
            for b in r['bases']: self.derived.setdefault(b, set()).add(r['t'])

    def rel(self, path):
        for p in (REPO + '/', ):
            if path.startswith(p): return path[len(p):]
        return os.path.basename(path)

    def impls(self, mid):
        """All implementations a virtual call to mid may reach."""
        out, todo = set(), [mid]
        while todo:
            m = todo.pop()
            if m in out: continue
            out.add(m); todo += list(self.over.get(m, ()))
        return [self.fns[m] for m in sorted(out) if m in self.fns and ('body' in self.fns[m])]

    def q(self, qname, **kw):
        """Functions with this qualified name (all instantiations)."""
        r = self.byq.get(qname, [])
        if kw.get('n') is not None: r = [f for f in r if len(f['params']) == kw['n']]
        return r

    def one(self, qname, n=None, pred=None):
        r = [f for f in self.q(qname) if (n is None or len(f['params']) == n) and (pred is None or pred(f))]
        if len(r) != 1: raise AnalysisError('anchor %s: expected one function, found %d' % (qname, len(r)))
        return r[0]

    def some(self, qname, n=None, pred=None, at_least=1):
        r = [f for f in self.q(qname) if (n is None or len(f['params']) == n) and (pred is None or pred(f))]
        if len(r) < at_least: raise AnalysisError('anchor %s: expected at least %d functions, found %d' % (qname, at_least, len(r)))
        return r

    def subclasses(self, cls):
        out, todo = set(), [cls]
        while todo:
            c = todo.pop()
            for d in self.derived.get(c, ()):
                if d not in out: out.add(d); todo.append(d)
        return sorted(out)

    def bases(self, cls):
        out, todo = set(), [cls]
        while todo:
            c = todo.pop()
            for d in self.records.get(c, {}).get('bases', ()):
                if d not in out: out.add(d); todo.append(d)
        return out

    def repo_functions(self):
        return [f for f in self.fns.values() if 'body' in f and not f['impl']]

_p = None
def program():
    global _p
    if _p is None: _p = Program()
    return _p
