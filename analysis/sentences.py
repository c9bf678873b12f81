"""Composition of the grammar's semantic actions along derivations.

A derivation is reduced bottom-up; each action's effect (analysed once, as terms
over $k and the parser's variables) is applied to the accumulated state by
substitution.  Numbers and text in the input are symbolic leaves
('kw', entry, KEYWORD, kind), named after the keyword they follow."""
from grammar import *
import terms

ATOMIC = {'expr': 'val', 'integer': 'ival'}

class Tree:
    def __init__(s, prod, kids): s.prod, s.kids = prod, kids
    def tokens(s):
        for k in s.kids:
            if isinstance(k, Tree): yield from k.tokens()
            else: yield k

class Step:
    """One effect of a reduction."""
    def __init__(s, kind, name, this, args, guard, prod, line, entry, snap=None, result=None): s.kind, s.name, s.this, s.args, s.guard, s.prod, s.line, s.entry, s.snap, s.result = kind, name, this, args, guard, prod, line, entry, snap, result
    def __repr__(s): return '%s %s(%s)%s' % (s.kind, s.name, ', '.join(show(a) for a in s.args), ' if ' + show(land(*s.guard)) if s.guard else '')

class Sentences:
    def __init__(self):
        self.g = g = grammar()
        self.cost, self.best = {}, {}
        ch = True
        while ch:
            ch = False
            for q in g.prods.values():
                if q.lhs == '$accept' or not q.useful: continue
                c = 1
                for s in q.rhs:
                    if s in g.nonterminals and s not in ATOMIC: c += self.cost.get(s, 10**6)
                    else: c += 2
                if c < self.cost.get(q.lhs, 10**6): self.cost[q.lhs] = c; self.best[q.lhs] = q; ch = True
        self.parents = {}
        for q in g.prods.values():
            for i, s in enumerate(q.rhs):
                if s in g.nonterminals: self.parents.setdefault(s, []).append((q, i))
    def minimal(self, nt, choose=None):
        if choose and nt in choose: q = choose[nt]
        else: q = self.best.get(nt)
        if q is None: raise AnalysisError('no derivation for %s' % nt)
        return self.build(q, choose)
    def build(self, q, choose=None):
        return Tree(q, [self.minimal(s, choose) if s in self.g.nonterminals and s not in ATOMIC else s for s in q.rhs])
    def with_prod(self, top, q, choose=None):
        """Cheapest derivation of top that uses production q."""
        if q.lhs == top: return self.build(q, choose)
        # breadth-first over parents
        seen, todo = {q.lhs}, [(q.lhs, self.build(q, choose))]
        while todo:
            nt, t = todo.pop(0)
            for par, i in sorted(self.parents.get(nt, []), key=lambda x: (sum(self.cost.get(s, 2) for s in x[0].rhs), x[0].no)):
                kids = [t if j == i else (self.minimal(s, choose) if s in self.g.nonterminals and s not in ATOMIC else s) for j, s in enumerate(par.rhs)]
                u = Tree(par, kids)
                if par.lhs == top: return u
                if par.lhs not in seen: seen.add(par.lhs); todo.append((par.lhs, u))
        return None
    def reachable(self, top):
        out, todo = set(), [top]
        while todo:
            n = todo.pop()
            if n in out: continue
            out.add(n)
            for q in self.g.of(n): todo += [s for s in q.rhs if s in self.g.nonterminals and s not in ATOMIC]
        return out

def subst_exact(t, x, y):
    """t with the value x replaced by y, polynomials renormalised, no boolean folding."""
    if t[0] == 'cmp': return ('cmp', t[1], subst(t[2], {x: y})) + tuple(t[3:])
    return (t[0], subst(t[1], {x: y})) + tuple(t[2:])

_leaves, _decided = {}, {}
def leaves_of(t):
    if t not in _leaves: _leaves[t] = frozenset(a for a in atoms(t) if a[0] in ('kw', 'init', 'ret', 'obj', 'has', 'call'))
    return _leaves[t]

def decide(what, pc, gs):
    k = (what, pc, gs)
    if k not in _decided: _decided[k] = satisfiable(land(*(pc + gs))) if what == 'sat' else implies(list(pc), gs[0])
    return _decided[k]

def initial(p):
    """Initial values of the parser's variables."""
    env = {}
    for v in p.vars.values():
        loc = ('glob', v['id'])
        t = v.get('t', '')
        if re.match(r'std::(vector|list|deque|map|basic_string)', t): env[loc] = ('vec', num(0), num(0)) if 'string' not in t else ('str', '')
        elif re.match(r'std::(unique_ptr|shared_ptr)', t): env[loc] = NULL
        elif t.startswith('std::optional'): env[loc] = ('none',)
    return env

class Runner:
    def __init__(self, S):
        self.S, self.g = S, S.g
        p = self.g.p
        self.env = {}
        self.steps, self.pc, self.n, self.errors = [], [], 0, []
        self.pcseen, self.lits = [], []
        self.globals, self.reads, self.track, self.written = {}, set(), None, set()
        ev = Evaluator()
        for v in p.vars.values():
            loc = ('glob', v['id'])
            self.globals[loc] = v
        self.ev = ev
        self.kw, self.entry = '', 0
    def read_initial(self, loc):
        v = self.globals.get(loc)
        if v is None: return None
        t = v.get('t', '')
        if re.match(r'(const )?std::(unique_ptr|shared_ptr)', t): return NULL
        if t.startswith('std::optional'): return ('none',)
        if re.match(r'std::(vector|list|deque)', t): return ('vec', num(0), num(0))
        if 'cv' in v: return self.ev.cv(v['cv'])
        if 'e' in v:
            try:
                st = State({}, ())
                fr = self.ev.newframe(dict(q='init', file='', params=[], line=0), ('deref', ('v', 'this')))
                self.ev.stack.append(fr)
                r = self.ev.ev(v['e'], st, fr)
                self.ev.stack.pop()
                return r
            except Exception: return None
        if t in ('bool',): return FALSE
        if t in ('double', 'int', 'long', 'unsigned long', 'float'): return num(0)
        return None
    def record_initial(self, loc):
        """Initial members of a parser variable of class type: {name: value} or None."""
        v = self.globals.get(loc)
        if v is None or 'e' not in v: return None
        if loc in _records: return _records[loc]
        recs = [r for r in self.g.p.records.values() if r['q'] == v.get('t', '').replace('const ', '')]
        out = None
        if recs:
            names = [f['n'] for f in recs[0]['fields']]
            e = v['e']
            r = self.read_initial(loc)
            if r is not None and r[0] == 'list' and len(r) - 1 == len(names): out = dict(zip(names, r[1:]))
            elif e.get('k') == 'Ctor' and not e.get('args'):
                fs = [f for f in self.g.p.fns.values() if f['q'] == e['fn'] and not f['params'] and 'body' in f]
                if fs:
                    env = Evaluator().run(fs[0]).final.env
                    got = {l[2]: x for l, x in env.items() if l[0] == 'fld' and l[1][0] == 'deref'}
                    if set(got) == set(names): out = got
        _records[loc] = out
        return out
    def value(self, loc):
        """Current value of a location of the parser state."""
        if self.track is not None and root(loc)[0] == 'glob' and loc not in self.written and root(loc) not in self.written: self.track.add(loc)
        if loc in self.env: return self.env[loc]
        if loc[0] == 'fld' and loc[1] in self.env: 
            b = self.env[loc[1]]
            if b[0] == 'rec': return dict(b[1]).get(loc[2], ('init', loc))
            if b[0] == 'list' and loc[1] in self.globals:
                recs = [r for r in self.g.p.records.values() if r['q'] == self.globals[loc[1]].get('t', '').replace('const ', '')]
                names = [f['n'] for f in recs[0]['fields']] if recs else []
                if loc[2] in names and len(names) == len(b) - 1: return b[1 + names.index(loc[2])]
            return ('get', b, loc[2])
        if root(loc)[0] == 'glob': self.reads.add(loc)
        if loc[0] == 'glob':
            v = self.read_initial(loc)
            if v is not None: self.env[loc] = v; return v
        if loc[0] == 'fld' and loc[1][0] == 'glob':
            rec = self.record_initial(loc[1])
            if rec and loc[2] in rec: self.env[loc] = rec[loc[2]]; return rec[loc[2]]
            v = self.read_initial(loc[1])
            if v is not None and v[0] in ('list', 'rec', 'agg'): return ('get', v, loc[2])
        return ('init', loc)
    def resolve(self, t, q, syms, memo=None):
        """A term of an action in the current state."""
        if memo is None: memo = {}
        if not isinstance(t, tuple): return t
        if t in memo: return memo[t]
        r = self._resolve(t, q, syms, memo)
        memo[t] = r
        return r
    def _resolve(self, t, q, syms, memo):
        k = t[0] if t else None
        if k == 'init' and isinstance(t[1], tuple):
            loc = self.rloc(t[1], q, syms, memo)
            return self.load(loc, syms)
        if k == 'size' and isinstance(t[1], tuple):
            loc = self.rloc(t[1], q, syms, memo)
            v = self.value(loc) if loc[0] in ('glob', 'fld') else None
            if v is not None and v[0] == 'vec': return v[1]
            return ('size', loc)
        if k in ('ret', 'new', 'lout', 'iter', 'trip', 'lsym') and len(t) > 1 and isinstance(t[1], int): return (k, (self.n, t[1])) + tuple(t[2:])
        if k == 'new' and len(t) == 3 and isinstance(t[2], int): return (k, t[1], (self.n, t[2]))
        if k == 'p':
            out = num(0)
            for m, c in to_poly(t).items():
                x = num(c)
                for a, e in m: x = mul(x, power(self.resolve(a, q, syms, memo), e))
                out = add(out, x)
            return out
        kids = tuple(self.resolve(x, q, syms, memo) for x in t)
        if kids == t: return t
        # rebuild with the smart constructors
        return subst(('wrap', kids), {})[1] if False else self.rebuild(kids)
    def rebuild(self, t, depth=0):
        k = t[0]
        if k in ('cmp', 'isnan', 'has') and depth < 6:
            x = find_split(t[2] if k == 'cmp' else t[1], False)
            if x is not None:
                a, b = (self.rebuild(subst_exact(t, x, y), depth + 1) for y in (x[2], x[3]))
                return ite(x[1], a, b)
        if k == 'cmp':
            if t[2][0] == 'pair': return t
            d = t[2]
            if d[0] == 'fc' and d[1] == 'nan': return FALSE
            if is_num(d):
                z = d[1]
                return {'<': TRUE if z < 0 else FALSE, '<=': TRUE if z <= 0 else FALSE, '==': TRUE if z == 0 else FALSE}.get(t[1], t)
            return t
        if k == 'and': return land(*t[1])
        if k == 'or': return lor(*t[1])
        if k == '!': return lnot(t[1])
        if k == 'ite': return ite(t[1], t[2], t[3])
        if k == 'has': return has(t[1])
        if k == 'isnan':
            if t[1] == ('fc', 'nan'): return TRUE
            if is_num(t[1]): return FALSE
            return t
        if k == 'val': return val(t[1])
        if k == 'call': return call(t[1], t[2])
        return t
    def rloc(self, loc, q, syms, memo):
        if not isinstance(loc, tuple): return loc
        n = len(q.rhs)
        if loc[0] == 'elem' and loc[1] == ('deref', ('init', YYVSP)) and is_num(loc[2]): return ('sym', int(loc[2][1]) + n)
        if loc[0] == 'fld': return ('fld', self.rloc(loc[1], q, syms, memo), loc[2])
        if loc[0] == 'deref': return ('deref', self.resolve(loc[1], q, syms, memo))
        if loc[0] == 'elem': return ('elem', self.rloc(loc[1], q, syms, memo), self.resolve(loc[2], q, syms, memo))
        if loc[0] in ('optval', 'opt*'): return (loc[0], self.rloc(loc[1], q, syms, memo))
        return loc
    def load(self, loc, syms):
        path, b = [], loc
        while b[0] == 'fld': path.insert(0, b[2]); b = b[1]
        if b[0] == 'sym':
            v = syms[b[1] - 1] if 0 < b[1] <= len(syms) else None
            if v is None: return ('init', loc)
            return v.get('.'.join(path), ('init', loc))
        if b[0] in ('optval', 'opt*'): return val(self.load(b[1], syms))
        return self.value(loc)
    def run(self, tree, entry=None):
        if entry is not None: self.entry = entry
        was = self.entry
        if getattr(tree, 'entry', None) is not None: self.entry = tree.entry
        try: return self.reduce(tree)
        finally:
            if getattr(tree, 'entry', None) is not None: self.entry = was
    def reduce(self, tree):
        syms = []
        for k in tree.kids:
            if isinstance(k, Tree): syms.append(self.run(k))
            elif k in ATOMIC: syms.append({ATOMIC[k]: ('kw', self.entry, self.kw, ATOMIC[k])})
            elif k == '_STRING': syms.append({'sval': ('kw', self.entry, self.kw, 'sval')})
            else: self.keyword(k); syms.append({})
        return self.act(tree.prod, syms)
    def related(self, gs):
        """Path conditions connected with gs by common unknowns."""
        have = set().union(*[leaves_of(x) for x in gs])
        out, rest = [], list(self.pc)
        while True:
            new = [x for x in rest if leaves_of(x) & have]
            if not new: return [x for x in self.pc if x in out]
            for x in new: out.append(x); have |= leaves_of(x)
            rest = [x for x in rest if x not in out]
    def keyword(self, k):
        if len(k) > 1 and k[0] != "'" and k.strip('"_').upper() == k.strip('"_') and k.strip('"')[0].isalpha() or k.startswith('_') or k.startswith('"'): self.kw = k.strip('"')
    def act(self, q, syms):
        """Effect of reducing by q."""
        E = self.g.action(q)
        if E is None: return syms[0] if syms else {}
        self.n += 1
        memo = {}
        start = dict(self.env)
        for e in E.events:
            if e.kind not in ('call', 'make', 'store', 'throw', 'goto', 'push', 'resize'): continue
            gs = [self.resolve(x, q, syms, memo) for x in e.guard]
            if any(x == FALSE for x in gs): continue
            gs = [x for x in gs if x != TRUE]
            if gs:
                rel = self.related(gs)
                if not decide('sat', tuple(rel), tuple(gs)): continue
                gs = [x for x in gs if not decide('imp', tuple(rel), (x,))]
            if e.kind == 'call':
                if e.fn in NOISE or e.fn.startswith('std::') or not e.fn.startswith('MaRC::'): continue
                th = self.rloc(e.this, q, syms, memo) if isinstance(e.this, tuple) and e.this[0] != 'none' else None
                snap = None
                if th is not None and root(th)[0] == 'sym': snap = dict(syms[root(th)[1] - 1]) if 0 < root(th)[1] <= len(syms) else None
                self.steps.append(Step('call', e.fn, th, [self.arg(a, q, syms, memo) for a in e.args], gs, q, e.line, self.entry, snap, self.resolve(e.result, q, syms, memo) if isinstance(e.d.get('result'), tuple) else None))
            elif e.kind == 'make': self.steps.append(Step('make', e.cls, self.resolve(e.obj, q, syms, memo), [self.arg(a, q, syms, memo) for a in e.args], gs, q, e.line, self.entry))
            elif e.kind == 'push': self.steps.append(Step('push', show(e.cont), self.rloc(e.cont, q, syms, memo), [self.arg(a, q, syms, memo) for a in e.args], gs, q, e.line, self.entry))
            elif e.kind in ('throw', 'goto'): self.errors.append((q, e, gs))
            elif e.kind == 'store' and root(e.loc) == ('parm', 'pp'):
                self.steps.append(Step('config', self.field_name(e.loc), None, [self.resolve(e.value, q, syms, memo)], gs, q, e.line, self.entry))
        fin = E.final
        new, out = {}, {}
        for loc, v in fin.env.items():
            r = root(loc)
            if r[0] == 'glob' or r == ('parm', 'pp'): new[self.rloc(loc, q, syms, memo)] = self.resolve(v, q, syms, memo)
            elif r == YYVAL:
                path, b = [], loc
                while b[0] == 'fld': path.insert(0, b[2]); b = b[1]
                out['.'.join(path)] = self.resolve(v, q, syms, memo)
        for x in fin.guard:
            y = self.resolve(x, q, syms, memo)
            if y != TRUE and y not in self.pc: self.pc.append(y)
        for loc in new:
            for k in [k for k in self.env if k != loc and k[0] == 'fld' and k[1] == loc]: del self.env[k]
        if self.pc != self.pcseen: self.pcseen, self.lits = list(self.pc), units(land(*self.pc))
        if self.lits: new = {l: settle(v, self.lits) if contains(v, lambda x: x[0] == 'ite') else v for l, v in new.items()}
        self.env.update(new)
        self.written.update(new)
        if not out and not any(e.kind == 'store' and root(e.loc) == YYVAL for e in E.events): out = dict(syms[0]) if syms else {}
        return out
    def field_name(self, loc): return loc[2] if loc[0] == 'fld' else str(loc)
    def arg(self, a, q, syms, memo):
        if a[0] == 'ref':
            loc = self.rloc(a[1], q, syms, memo)
            if loc[0] == 'glob':
                rec = self.record_initial(loc)
                if rec and loc not in self.env:
                    for n in rec: self.value(('fld', loc, n))
                flds = sorted((k[2], v) for k, v in self.env.items() if k[0] == 'fld' and k[1] == loc)
                if flds: return ('rec', tuple(flds))
                return self.value(loc)
            if root(loc)[0] == 'sym' or loc[0] == 'fld': return self.load(loc, syms)
            return ('ref', loc)
        return self.resolve(a, q, syms, memo)

_records = {}
_s = None
def sentences():
    global _s
    if _s is None: _s = Sentences()
    return _s
