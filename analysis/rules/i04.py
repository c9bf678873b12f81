"""I04  Settings of one map, plane or image never leak into the next.

For every production of the grammar, the state the parser is left in after a
map (plane, image) that uses it is computed by composing the semantic actions.
A following map (plane, image) must have exactly the effects it has on its own:
this is checked wherever it reads a variable whose value differs."""
from sentences import *
import re as _re

MINIMUM = {'map after map': 100, 'plane after plane': 40, 'image after image': 20}

def canon(steps, entry, env_entry):
    """Steps of an entry, object and call numbers renamed by first appearance."""
    out = []
    ids = {}
    def ren(m): return '#%d' % ids.setdefault(m.group(0), len(ids))
    for s in steps:
        if s.entry != entry: continue
        t = full(s)
        t = t.replace('kw %d ' % entry, 'kw ')
        t = _re.sub(r'<\d+ \d+>', ren, t)
        out.append((t, s))
    return out

def full(s):
    return '%s %s(%s)%s' % (s.kind, s.name, ', '.join(deep(a) for a in s.args), ' if ' + ' && '.join(sorted(deep(x) for x in s.guard)) if s.guard else '')

DISCRIMINANT = {'geometry': num(0)}       # OrthographicCenter: DEFAULT, other members unused

def split(t, n):
    """A record whose discriminant n is gated, as a gate over records."""
    v = dict(t[1])[n]
    if v[0] != 'ite': return t
    def fix(u, pos):
        u = subst(u, {v[1]: TRUE if pos else FALSE})
        L = units(v[1] if pos else lnot(v[1]))
        return settle(u, L) if L else u
    a, b = (('rec', tuple((m, fix(x, pos)) for m, x in t[1])) for pos in (True, False))
    return ('ite', v[1], split(a, n), split(b, n))

def deep(t):
    """Complete rendering (show abbreviates)."""
    if not isinstance(t, tuple): return str(t)
    if t and t[0] == 'rec':
        for n in DISCRIMINANT:
            if n in dict(t[1]) and dict(t[1])[n][0] == 'ite': return deep(split(t, n))
    if t and t[0] == 'rec' and any(n in DISCRIMINANT and v == DISCRIMINANT[n] for n, v in t[1]): t = ('rec', tuple((n, v) for n, v in t[1] if n in DISCRIMINANT))
    if t and isinstance(t[0], int) and len(t) == 2 and isinstance(t[1], int): return '<%d %d>' % t
    if t and t[0] == 'kw': return '<kw %s %s %s>' % (t[1], t[2], t[3])
    return '(' + ' '.join(deep(x) for x in t) + ')'

def state(R):
    return {l: v for l, v in R.env.items() if root(l)[0] == 'glob'}

def same(a, b):
    n = lambda t: _re.sub(r'<\d+ \d+>', '#', deep(t))
    return n(a) == n(b)

def mark(t, e):
    t2 = Tree(t.prod, [mark0(k) if isinstance(k, Tree) else k for k in t.kids]); t2.entry = e
    return t2
def mark0(t): return Tree(t.prod, [mark0(k) if isinstance(k, Tree) else k for k in t.kids])

def trees(S, nt, choose=None):
    out, seen = [], set()
    for q in S.g.prods.values():
        if q.lhs not in S.reachable(nt) or not q.useful: continue
        t = S.with_prod(nt, q, {k: v for k, v in (choose or {}).items() if k != q.lhs})
        if t is None: continue
        k = ' '.join(t.tokens())
        if k in seen: continue
        seen.add(k); out.append((q, t))
    return out

def name(p, loc):
    r = root(loc)
    v = p.vars.get(r[1]) if hasattr(p.vars, 'get') else None
    n = str(r[1]).split(':')[-1]
    return n + ('.' + loc[2] if loc[0] == 'fld' else '')

def level(rep, S, nt, title, choose=None):
    p = S.g.p
    all_ = trees(S, nt, choose)
    host = None if nt == 'map_setup' else S.with_prod('map_setup', S.best[nt], choose)
    def start():
        """Parser state just before a construct of this kind."""
        R = Runner(S); R.entry = 0
        if host is not None: before(R, host, nt)
        R.reads = set()
        return R
    firsts = []
    for q, t in all_:
        R = start(); R.entry = 1
        try: R.reduce(t)
        except RecursionError: continue
        if satisfiable(land(*R.pc)): firsts.append((q, t, R))
    base = start()
    # alone: effects and variables read
    alone = []
    for q, t, R in firsts:
        R2 = start(); R2.entry = 2; R2.reduce(mark0(t))
        alone.append((q, t, canon(R2.steps, 2, None), reads_of(S, t, start)))
    n = 0
    done = set()
    for q1, t1, R1 in firsts:
        st1 = state(R1)
        changed = {l for l in st1 if not same(st1[l], base.value(l))}
        for q2, t2, want, reads in alone:
            hot = {l for l in changed if l in reads or any(root(x) == root(l) for x in reads)}
            n += 1
            if not hot: rep.ok(title, q2.lhs, '/repo/src/parse.yy', q2.line); continue
            sig = (q2.no, tuple(sorted((str(l), deep(st1[l])) for l in hot)))
            if sig in done: continue
            done.add(sig)
            R = start(); R.entry = 1; R.reduce(mark0(t1))
            R.entry = 2; R.reduce(mark0(t2))
            got = canon(R.steps, 2, None)
            a, b = [x for x, s in want], [x for x, s in got]
            if a == b: rep.ok(title, q2.lhs, '/repo/src/parse.yy', q2.line); continue
            d = [(x, s) for x, s in got if x not in a] + [(x, s) for x, s in want if x not in b]
            if not d: rep.ok(title, q2.lhs, '/repo/src/parse.yy', q2.line); continue
            x, s = d[0]
            vs = sorted({name(p, l) for l in hot if carries(x, st1[l])} or {name(p, l) for l in hot})
            rep.bad(title, s.name, '/repo/src/parse.yy', s.line, '%s is affected by the preceding %s (%s -> %s) through %s' % (s.name, title.split()[-1], q1.lhs, ' '.join(q1.rhs)[:50], ', '.join(vs)[:120]), key='%s|%s' % (s.name, vs[0] if vs else ''))

def carries(text, v): 
    return any(deep(k).replace('kw 1', 'kw 1') in text for k in atoms(v) if k[0] == 'kw') or deep(v) in text

def reads_of(S, t, start):
    R = start(); R.entry = 2
    R.track, R.written = set(), set()
    R.reduce(mark0(t))
    return R.track

def before(R, tree, nt):
    """Run the reductions of the map that precede its first construct of kind nt."""
    class Stop(Exception): pass
    def go(t):
        if t.prod.lhs == nt: raise Stop()
        syms = []
        for k in t.kids:
            if isinstance(k, Tree): syms.append(go(k))
            elif k in ATOMIC: syms.append({ATOMIC[k]: ('kw', R.entry, R.kw, ATOMIC[k])})
            elif k == '_STRING': syms.append({'sval': ('kw', R.entry, R.kw, 'sval')})
            else:
                R.keyword(k); syms.append({})
        return R.act(t.prod, syms)
    try: go(tree)
    except Stop: pass

def check(rep):
    S = sentences()
    rep.part(level, rep, S, 'map_setup', 'map after map')
    rep.part(level, rep, S, 'plane_setup', 'plane after plane')
    # numbered planes
    ch = {nt: q for nt, kw in (('planes', 'PLANES'), ('plane_size', 'PLANE')) for q in S.g.of(nt) if kw in q.rhs and 'size' in q.rhs}
    rep.part(level, rep, S, 'plane_setup', 'plane after plane', ch)
    rep.part(level, rep, S, 'image_setup', 'image after image')
