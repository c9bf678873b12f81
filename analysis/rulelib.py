"""Helpers shared by the rules."""
import re
from facts import AnalysisError
from program import program, walk
from evaluate import Evaluator, analyse, State
import terms
from terms import *

NOISE = {'MaRC::Progress::Notifier::notify_plotted', 'MaRC::Progress::Observer::notify', 'MaRC::Progress::Notifier::notify_done',
         'MaRC::Progress::Notifier::notify', 'MaRC::error', 'MaRC::warn', 'MaRC::info', 'MaRC::debug'}

def base_type(t): return t.replace('const ', '').rstrip(' &').strip()

def record_of(p, q, ta=None):
    r = [x for x in p.records.values() if x['q'] == q and (ta is None or ta(x['t']))]
    return r

def fields_by_type(rec, pred):
    return [f['n'] for f in rec['fields'] if pred(base_type(f['t']))]

def atoms_all(t):
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            out.add(x); todo += list(x)
    return out

_FIELD = {}
def memo(f):
    """Remembers what was found for a program."""
    def g(p, *a):
        k = (f.__name__, id(p)) + a
        if k not in _FIELD: _FIELD[k] = f(p, *a)
        return _FIELD[k]
    return g

@memo
def set_field(p, q, i, nparams=None):
    """The member that a constructor or setter fills from its i-th parameter."""
    fs = [f for f in p.q(q) if 'body' in f and len(f['params']) > i and (nparams is None or len(f['params']) == nparams)]
    out = set()
    for f in fs:
        E = Evaluator(opaque=NOISE); E.run(f)
        par = ('parm', f['params'][i]['n'])
        for e in E.events:
            if e.kind == 'store' and e.loc[0] == 'fld' and e.loc[1] == ('deref', ('v', 'this')) and par in atoms_all(e.value): out.add(e.loc[2])
    if len(out) != 1: raise AnalysisError('%s: cannot determine the member set from parameter %d (%s)' % (q, i, sorted(map(str, out))))
    return out.pop()

@memo
def getter_field(p, q):
    """The field a trivial accessor returns (by analysing it)."""
    out = {}
    for f in p.q(q):
        if f['params'] or 'body' not in f: continue
        E = analyse(f)
        v = E.value
        if v[0] == 'ref': loc = v[1]
        elif v[0] in ('init', 'obj'): loc = v[1]
        else: continue
        if loc[0] == 'fld': out[f.get('cls') or f.get('clsq')] = loc[2]
    vals = set(out.values())
    if len(vals) != 1: raise AnalysisError('accessor %s: cannot determine the field it returns (%s)' % (q, sorted(map(str, vals))))
    return vals.pop()

@memo
def read_field(p, q):
    """The only member that an accessor reads."""
    out = set()
    for f in p.q(q):
        if f['params'] or 'body' not in f: continue
        E = analyse(f)
        out |= {a[2] for a in atoms_all(E.value) if a and a[0] == 'fld'}
    if len(out) != 1: raise AnalysisError('%s: cannot determine the member it reads (%s)' % (q, sorted(map(str, out))))
    return out.pop()

def untrunc(t):
    while t[0] == 'call' and t[1] == 'trunc': t = t[2][0]
    return t

def root(loc):
    while isinstance(loc, tuple) and len(loc) > 1 and loc[0] in ('fld', 'elem', 'optval') and isinstance(loc[1], tuple): loc = loc[1]
    return loc

def fields_in(t, name):
    """('init', ('fld', X, name)) atoms below t."""
    return {a for a in atoms(t) if a[0] == 'init' and a[1][0] == 'fld' and a[1][2] == name}

def opaque_terms(t):
    """Sub-terms the analysis knows nothing about."""
    return {a for a in atoms(t) if a[0] in ('ret', 'lout', 'trip', 'undef', 'maythrow', 'lsym')}

TA_NAMES = {'unsigned char': 'byte', 'short': 'short', 'int': 'long', 'long': 'longlong', 'long long': 'longlong', 'float': 'float', 'double': 'double'}
LIMITS = {'unsigned char': (0, 255), 'short': (-2**15, 2**15 - 1), 'int': (-2**31, 2**31 - 1), 'long': (-2**63, 2**63 - 1), 'long long': (-2**63, 2**63 - 1)}

def find_split(t, minmax=True):
    """An ite (or min/max) occurring in the value t, outermost first."""
    todo, mm = [t], None
    while todo:
        x = todo.pop(0)
        if not isinstance(x, tuple) or not x: continue
        if x[0] == 'ite': return x
        if minmax and x[0] == 'call' and x[1] in ('min', 'max') and len(x[2]) == 2: mm = x
        if x[0] in ('cmp', 'and', 'or', '!', 'has', 'isnan', 'init', 's'): continue
        todo += [y for y in x if isinstance(y, tuple)]
    return mm

def cases(t, g=(), minmax=True, limit=64):
    """(guard, leaf) pairs of a gated value; min and max are split too."""
    out, todo = [], [(tuple(g), t)]
    while todo:
        g, t = todo.pop(0)
        x = find_split(t, minmax) if len(out) + len(todo) < limit else None
        if x is None: out.append((g, t)); continue
        if x[0] == 'ite': c, a, b = x[1], x[2], x[3]
        else:
            u, v = x[2]
            c = cmp('<=', u, v, False)
            a, b = (u, v) if x[1] == 'min' else (v, u)
        for cc, vv in ((c, a), (lnot(c), b)):
            if cc == FALSE or lnot(cc) in g: continue
            nt = subst(t, {x: vv})
            if cc[0] != 'b':
                lit, pol = (cc[1], FALSE) if cc[0] == '!' else (cc, TRUE)
                nt = subst(nt, {lit: pol}) if lit[0] in ('has', 'isnan') else nt
            todo.append((g + (() if cc == TRUE else (cc,)), nt))
    return out

def feasible(*g): return satisfiable(land(*[x for h in g for x in (h if h and isinstance(h[0], tuple) else (h,))]))

def enum_values(p, part):
    """enumerator -> value, for enumerators whose qualified name contains part."""
    out = {}
    for f in p.fns.values():
        if 'body' not in f: continue
        for n in walk(f['body']):
            if n.get('dk') == 'enum' and part in n.get('n', '') and 'cv' in n: out[n['n']] = int(n['cv'])
    return out
