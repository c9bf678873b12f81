"""Predicated value-flow analysis.

A forward, structured dataflow analysis over the type-checked syntax tree.  A
state maps locations to value numbers (terms) and carries the conjunction of
branch predicates that must hold; joins produce gated (ite) values and the
disjunction of predicates; loops are widened (every location the body writes
becomes a loop symbol) and induction variables get their closed form.  Calls
to functions of the program are expanded in place, calls to anything else are
modelled (std) or opaque.  Every observable effect is recorded as an event
together with the predicate under which it happens.
"""
import re
from terms import *
import terms
from program import program, walk

def signature(cls):
    """parameter types of a std::function type"""
    m = re.match(r'^(?:const )?std::function<.*?\((.*)\)>', cls)
    if not m or not m.group(1).strip(): return []
    out, depth, cur = [], 0, ''
    for ch in m.group(1):
        if ch in '<(': depth += 1
        if ch in '>)': depth -= 1
        if ch == ',' and not depth: out.append(cur.strip()); cur = ''
        else: cur += ch
    return out + [cur.strip()]

class State:
    __slots__ = ('env', 'guard', 'dead')
    def __init__(s, env=None, guard=(), dead=False): s.env, s.guard, s.dead = env or {}, guard, dead
    def copy(s): return State(dict(s.env), s.guard, s.dead)
    def set(s, o): s.env, s.guard, s.dead = o.env, o.guard, o.dead

class Event:
    __slots__ = ('kind', 'd', 'guard', 'file', 'line', 'stack', 'loops', 'seq')
    def __repr__(e):
        return '%s:%s %s %s  if %s' % (e.file.rsplit('/', 1)[-1], e.line, e.kind,
               ' '.join('%s=%s' % (k, show(v) if isinstance(v, tuple) and v and isinstance(v[0], str) else ('[' + ', '.join(show(x) for x in v) + ']' if isinstance(v, (list, tuple)) else v)) for k, v in e.d.items()),
               ' && '.join(show(g) for g in e.guard))
    def __getattr__(e, n):
        try: return e.d[n]
        except KeyError: raise AttributeError(n)

class Loop:
    def __init__(s, id, line): s.id, s.line, s.ivs, s.updates, s.trip, s.parent, s.exits = id, line, {}, {}, None, None, []

class Frame:
    def __init__(s, no, fn, this): s.no, s.fn, s.this, s.returns, s.loops, s.labels = no, fn, this, [], [], []

def unsigned(t): return bool(re.match(r'^(const )?(unsigned|bool|std::size_t)', t)) if t else False
def integral(t):
    t = t.replace('const ', '').replace('volatile ', '').rstrip(' &')
    return t in ('int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'signed char', 'unsigned char', 'long long', 'unsigned long long', 'bool')
def floating(t): return t.replace('const ', '').rstrip(' &') in ('float', 'double', 'long double')

STDVALUE = re.compile(r'^(const )?(std::(optional|shared_ptr|unique_ptr|function|basic_string|basic_string_view|reference_wrapper)<|.*\*( const)?$)')
PURE = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sqrt', 'hypot', 'floor', 'ceil', 'round', 'lround', 'llround', 'nearbyint', 'rint', 'trunc', 'log', 'log10', 'exp', 'pow', 'fmod', 'fabs', 'abs', 'fma', 'cbrt', 'sinh', 'cosh', 'tanh', 'ldexp', 'remainder', 'copysign', 'nextafter', 'log2', 'exp2', 'expm1', 'log1p', 'fmin', 'fmax'}

class Evaluator:
    def __init__(self, prog=None, opaque=(), maxdepth=10, asserts=False, force=(), wrap=False, unroll=0, probe=None, snap=(), let=False):
        self.p = prog or program()
        self.opaque = set(opaque)          # qualified names never expanded
        self.force = set(force)
        self.maxdepth, self.asserts, self.wrap, self.unroll = maxdepth, asserts, wrap, unroll
        self.events, self.loops, self.throws, self.exits = [], {}, [], []
        self.mute, self.nfr, self.nobj, self.nloop, self.ncall = 0, 0, 0, 0, 0; self.pretry = {}
        self.stack, self.loopstack = [], []
        self.writes = None
        self.lamfr = {}
        self.callinfo = {}
        self.let, self.defs, self.named = let, {}, {}      # let: name intermediate values instead of expanding them
        self.snap = set(snap)               # opaque functions whose calls record the state
        self.probe = probe or {}            # opaque function -> arguments to try its functor with
        self.pos = ('', 0)
        self.unknown = {}

    # ------------------------------------------------------------ events
    def event(self, kind, st, **d):
        if self.mute or st.dead: return None
        if kind in ('index', 'range', 'reverse', 'swapranges', 'fillrange'):
            c = d.get('cont') or (d['it'][1] if d['it'][0] == 'it' else None)
            if c is not None: d['size'] = self.size_of(st, c)
        e = Event(); e.kind, e.d, e.guard = kind, d, st.guard
        e.file, e.line = self.pos
        e.stack = tuple(f.fn['q'] for f in self.stack); e.loops = tuple(self.loopstack); e.seq = len(self.events)
        self.events.append(e)
        return e

    # ------------------------------------------------------------ locations
    def read(self, st, loc, t=''):
        if loc in st.env:
            v = st.env[loc]
        else:
            v = None
            if loc[0] == 'fld' and loc[1] in st.env:
                b = st.env[loc[1]]
                v = self.get(b, loc[2])
            elif loc[0] == 'elem' and loc[1] in st.env and st.env[loc[1]][0] == 'vec':
                b = st.env[loc[1]]
                v = ('at', b[2], loc[2]) if b[2][0] == 'out' else ('init', loc)
            elif loc[0] == 'elem' and self.unroll: v = self.initial_element(st, loc)
            if v is None:
                if loc[0] == 'glob':
                    v = self.global_value(loc)
                if v is None: v = ('init', loc)
        if t and unsigned(t) and v[0] not in ('n', 'p', 'b', 'ite', 'cmp', '!', 'and', 'or') and not t.startswith('bool'): terms.NONNEG.add(v)
        return v
    def initial_element(self, st, loc):
        """Element of an array that was initialised by a list."""
        path = []
        while loc[0] == 'elem':
            if not is_num(loc[2]): return None
            path.append(int(loc[2][1])); loc = loc[1]
            b = st.env.get(loc)
            if b is not None:
                if b[0] != 'list': return None
                for i in reversed(path):
                    if b[0] != 'list': return None
                    if i + 1 >= len(b): return num(0)
                    b = b[i + 1]
                return b
        return None
    def drop_lists(self, st, loc):
        """An element at an unknown index was written: initial values are no longer known."""
        sym = False
        while loc[0] == 'elem':
            sym = sym or not is_num(loc[2]); loc = loc[1]
            if sym and st.env.get(loc, ('',))[0] == 'list': del st.env[loc]
    def global_value(self, loc):
        v = self.p.vars.get(loc[1])
        if v and 'cv' in v and (v['const'] or v['cx']): return self.cv(v['cv'])
        return None
    def get(self, b, f):
        if b[0] == 'ite': return ite(b[1], self.get(b[2], f), self.get(b[3], f))
        if b[0] == 'obj' : return ('init', ('fld', b, f))
        if b[0] == 'init': return ('init', ('fld', b[1], f))
        return ('get', b, f)
    def store(self, st, loc, v, t=''):
        if st.dead: return
        if loc[0] == 'opt*':        # assignment through an optional
            return self.store(st, loc[1], ('some', v))
        self.forget(st, loc)
        v = self.name(v)
        st.env[loc] = v
        if self.unroll and loc[0] == 'elem': self.drop_lists(st, loc)
        if self.writes is not None: self.writes.add(loc)
        root = loc
        while root[0] in ('fld', 'elem') and isinstance(root[1], tuple): root = root[1]
        if loc[0] != 'var' and root[0] != 'tmp':
            self.event('store', st, loc=loc, value=v)
        elif root[0] in ('var', 'tmp') and loc[0] == 'elem': self.event('store', st, loc=loc, value=v)
    def name(self, v):
        if not self.let or v[0] not in ('p', 'call', 'ite') or is_bool(v): return v
        if v[0] == 'p' and (len(v[1]) == 1 and len(v[1][0][0]) <= 1 or any(a[0] in ('addr', 'data') for mono, c in v[1] for a, e in mono)): return v
        if v not in self.named:
            n = self.named[v] = ('def', len(self.defs))
            self.defs[n] = v
        return self.named[v]
    def forget(self, st, loc):
        """Drop what is known about sub-objects of loc."""
        if loc[0] == 'elem':
            for k in [k for k in st.env if k[0] == 'elem' and k[1] == loc[1] and k != loc]:
                d = sub(k[2], loc[2])
                if not (is_num(d) and d[1] != 0): del st.env[k]
            return
        for k in [k for k in st.env if k != loc and self.under(k, loc)]: del st.env[k]
    def under(self, k, loc):
        while isinstance(k, tuple) and len(k) > 1 and k[0] in ('fld', 'elem'):
            k = k[1]
            if k == loc: return True
        return False
    def havoc(self, st, loc, v):
        self.forget(st, loc); st.env[loc] = v
        if self.writes is not None: self.writes.add(loc)

    def cv(self, c):
        if isinstance(c, bool): return TRUE if c else FALSE
        if isinstance(c, dict): return num(float(c['f']))
        if isinstance(c, str):
            if c.startswith('i:'): return ('n', Fraction(int(c[2:])))
            return ('fc', c)
        return num(c)

    # ------------------------------------------------------------ joins
    def join(self, states):
        ss = [s for s in states if not s.dead]
        if not ss: return State(dead=True)
        r = ss[0]
        for s in ss[1:]: r = self.join2(r, s)
        return r
    def join2(self, a, b):
        k = 0
        while k < len(a.guard) and k < len(b.guard) and a.guard[k] == b.guard[k]: k += 1
        ra, rb = a.guard[k:], b.guard[k:]
        ca, cb = land(*ra), land(*rb)
        g = lor(ca, cb)
        sel = ca
        for x in ra:
            if lnot(x) in rb: sel = x; break
        env = {}
        if a.env is b.env: env = dict(a.env)
        else:
            for loc in list(a.env) + [x for x in b.env if x not in a.env]:
                va = a.env.get(loc); vb = b.env.get(loc)
                if va == vb: env[loc] = va; continue
                if va is None:
                    if loc[0] == 'var': continue      # out of scope on one side
                    va = self.read(a, loc)
                if vb is None:
                    if loc[0] == 'var': continue
                    vb = self.read(b, loc)
                env[loc] = self.mite(sel, va, vb)
        return State(env, a.guard[:k] + (() if g == TRUE else (g,)))
    def mite(self, c, a, b):
        if a[0] == 'ref' or b[0] == 'ref' : return a if a[0] == 'ref' else b
        return ite(c, a, b)

    def assume(self, st, c):
        if c == TRUE: return st
        if c == FALSE: st.dead = True; return st
        new = []
        for x in (c[1] if c[0] == 'and' else (c,)):
            x = self.under_guard(st, x)
            if x == TRUE: continue
            if x == FALSE: st.dead = True; return st
            new.append(x)
        st.guard = st.guard + tuple(new)
        return st
    def under_guard(self, st, f):
        """Simplify f by the literals already assumed."""
        for g in st.guard:
            if g[0] in ('and', 'or', 'ite'): continue
            a, v = (g[1], False) if g[0] == '!' else (g, True)
            if f == g: return TRUE
            if f[0] in ('and', 'or', '!', 'ite') or f == a: f = assign(f, a, v)
            if f in (TRUE, FALSE): return f
            if a[0] == 'cmp' and f[0] == 'cmp' and f[2] != a[2] and a[3] and f[3]:
                if lnot(a) == f: return FALSE if v else TRUE
        return f

    # ------------------------------------------------------------ running
    def run(self, fn, this=None, args=None, guard=()):
        """Analyse fn from symbolic arguments; returns the merged final state."""
        st = State({}, tuple(guard))
        fr = self.newframe(fn, this if this is not None else ('deref', ('v', 'this')))
        self.params = []
        for i, p in enumerate(fn['params']):
            loc = ('parm', p['n'] or 'arg%d' % i)
            if args is not None and i < len(args) and args[i] is not None:
                self.bind_param(st, fr, p, args[i]); self.params.append(args[i]); continue
            if p['t'].endswith('&'):
                st.env[('var', fr.no, p['id'], p['n'])] = ('ref', loc)
                self.params.append(('ref', loc))
            else:
                v = ('init', loc)
                if unsigned(p['t']) and not p['t'].startswith('bool'): terms.NONNEG.add(v)
                st.env[('var', fr.no, p['id'], p['n'])] = v
                self.params.append(v)
        self.stack.append(fr)
        self.pos = (fn['file'], fn['line'])
        if fn.get('ctor'): self.ctor_inits(fn, fr, st)
        if 'body' in fn: self.exec(fn['body'], st, fr)
        self.stack.pop()
        if not st.dead: fr.returns.append((st.copy(), ('void',), fn.get('end', 0)))
        self.final = self.join([s for s, v, l in fr.returns])
        self.returns = fr.returns
        rv = None
        for s, v, l in fr.returns:
            if s.dead: continue
            c = land(*s.guard)
            rv = v if rv is None else self.mite(c, v, rv)
        self.value = rv if rv is not None else ('void',)
        return self
    def newframe(self, fn, this):
        self.nfr += 1
        return Frame(self.nfr, fn, this)
    def bind_param(self, st, fr, p, a):
        """a: ('ref', loc) or a value term."""
        loc = ('var', fr.no, p['id'], p['n'])
        t = p['t']
        if t.endswith('&') or '(&)' in t:
            if a[0] == 'ref': st.env[loc] = a
            else:
                self.nobj += 1
                tmp = ('tmp', self.nobj)
                st.env[tmp] = a
                st.env[loc] = ('ref', tmp)
        else:
            if a[0] == 'ref':
                st.env[loc] = self.read(st, a[1], t) if self.valuetype(t) else a
            else: st.env[loc] = a
    def valuetype(self, t):
        t0 = t.replace('const ', '').rstrip(' &')
        return integral(t0) or floating(t0) or bool(STDVALUE.match(t0)) or (t0 not in self.p.records and not t0.startswith('std::'))

    def ctor_inits(self, fn, fr, st):
        for i in fn.get('inits', []):
            self.pos = (fn['file'], i.get('l', fn['line']))
            e = i.get('e')
            if 'field' in i:
                loc = ('fld', fr.this, i['field'])
                if e is None: continue
                if i['ft'].endswith('&'):
                    st.env[loc] = ('ref', self.lv(e, st, fr))
                elif i['ft'].endswith(']') or e['k'] == 'InitList' and not self.valuetype(i['ft']):
                    self.init_into(loc, e, i['ft'], st, fr)
                else: self.init_into(loc, e, i['ft'], st, fr)
            elif 'base' in i and e is not None:
                if e['k'] == 'Ctor': self.construct(e, fr.this, st, fr)
                else: self.ev(e, st, fr)
            elif 'deleg' in i and e['k'] == 'Ctor': self.construct(e, fr.this, st, fr)

    def init_into(self, loc, e, t, st, fr):
        """Initialise the object at loc from expression e."""
        if st.dead: return
        if e['k'] == 'Ctor' and e['fn'].split('::')[0] != 'std' and e['id'] in self.p.fns:
            if self.construct(e, loc, st, fr): return
        if e['k'] == 'InitList' and not self.valuetype(t):
            rec = self.p.records.get(t.replace('const ', ''))
            for k, c in enumerate(e['c']):
                if rec and k < len(rec['fields']):
                    f = rec['fields'][k]
                    self.init_into(('fld', loc, f['n']), c, f['t'], st, fr)
                else: self.store(st, ('elem', loc, num(k)), self.ev(c, st, fr))
            return
        v = self.coerce(self.ev(e, st, fr), t, e)
        if self.unroll and v[0] in ('ref', 'obj', 'init') and not t.endswith('&') and not self.valuetype(t) and v[1] != loc:
            self.copy_object(st, v[1], loc); return
        self.store(st, loc, v)

    def coerce(self, v, t, e=None):
        t0 = t.replace('const ', '')
        if t0.startswith('std::optional<'):
            if v[0] in ('some', 'none', 'ite', 'init', 'ret', 'out', 'val', 'lsym', 'lout', 'get'): return v
            if e is not None and e.get('t', '').replace('const ', '').startswith('std::optional'): return v
            return ('some', v)
        return v

    # ------------------------------------------------------------ statements
    def exec(self, s, st, fr):
        if s is None or st.dead: return
        self.pos = (s.get('f', fr.fn['file']), s.get('l', self.pos[1]))
        k = s['k']
        m = getattr(self, 'x_' + k, None)
        if m: return m(s, st, fr)
        self.unknown[k] = self.unknown.get(k, 0) + 1
        for c in s.get('c', []): self.exec(c, st, fr)

    def x_Block(self, s, st, fr):
        for c in s['c']:
            if st.dead: return
            self.exec(c, st, fr)
    def x_Nop(self, s, st, fr): pass
    def x_Expr(self, s, st, fr): self.ev(s['e'], st, fr, drop=True)
    def x_Decl(self, s, st, fr):
        for v in s['vars']: self.declare(v, st, fr)
    def declare(self, v, st, fr):
        if st.dead: return
        loc = ('var', fr.no, v['id'], v['n'])
        t = v['t']
        e = v.get('e')
        if v.get('st'): loc = ('glob', 'static:' + fr.fn['q'] + '::' + v['n'])
        if e is None:
            st.env[loc] = ('undef', v['n'])
            if self.writes is not None: self.writes.add(loc)
            return
        if t.endswith('&'):
            l = self.lv(e, st, fr)
            st.env[loc] = ('ref', l)
            return
        if v.get('bind'):
            val_ = self.ev(e, st, fr)
            for i, b in enumerate(v['bind']):
                st.env[('var', fr.no, b['id'], b['n'])] = ('get', val_, i)
            return
        if self.writes is not None: self.writes.add(loc)
        if not self.valuetype(t):
            e2 = e
            if e2['k'] in ('Ref', 'Mem', 'Call', 'Un', 'Sub') and not t.startswith('std::'):
                # copy of an object
                src = self.lv(e2, st, fr) if e2['k'] != 'Call' or self.is_lvalue_call(e2) else None
                if src is not None:
                    self.copy_object(st, src, loc); return
            self.init_into(loc, e, t, st, fr); return
        v2 = self.coerce(self.ev(e, st, fr), t, e)
        if st.dead: return
        self.forget(st, loc)
        st.env[loc] = self.name(v2)
    def is_lvalue_call(self, e):
        f = self.p.fns.get(e.get('id'))
        return bool(f and f['ret'].endswith('&'))
    def copy_object(self, st, src, dst):
        self.forget(st, dst)
        subs = [(k, v) for k, v in st.env.items() if self.under(k, src)]
        st.env[dst] = self.read(st, src)
        if st.env[dst][0] == 'init' and st.env[dst][1] == dst: del st.env[dst]
        for k, v in subs: st.env[self.rebase(k, src, dst)] = v
    def rebase(self, k, a, b):
        if k == a: return b
        if isinstance(k, tuple) and k[0] in ('fld', 'elem'): return (k[0], self.rebase(k[1], a, b)) + k[2:]
        return k

    def x_If(self, s, st, fr):
        if 'init' in s: self.exec(s['init'], st, fr)
        if 'cvar' in s: self.declare(s['cvar'], st, fr)
        c = self.under_guard(st, self.cond(s['cond'], st, fr))
        if st.dead: return
        a, b = st.copy(), st.copy()
        self.assume(a, c); self.assume(b, lnot(c))
        self.exec(s['then'], a, fr)
        if 'else' in s: self.exec(s['else'], b, fr)
        st.set(self.join([a, b]))

    def cond(self, e, st, fr):
        v = self.ev(e, st, fr)
        return self.tobool(v, e.get('t', ''))
    def tobool(self, v, t=''):
        if v[0] == 'n': return TRUE if v[1] else FALSE
        if is_bool(v): return v
        if v[0] == 'ite': return ite(v[1], self.tobool(v[2], t), self.tobool(v[3], t))
        if v[0] in ('some', 'none', 'null', 'new', 'addr'): return has(v)
        if t.endswith('*'): return has(v)
        return v        # opaque boolean atom

    def x_Return(self, s, st, fr):
        v = ('void',)
        if 'e' in s and s['e'] is not None:
            if fr.fn['ret'].endswith('&'): v = ('ref', self.lv(s['e'], st, fr))
            elif not self.valuetype(fr.fn['ret']) and s['e']['k'] in ('Ctor', 'InitList') and fr.fn['ret'].replace('const ', '') in self.p.records:
                self.nobj += 1
                loc = ('tmp', self.nobj)
                self.init_into(loc, s['e'], fr.fn['ret'], st, fr); v = ('ref', loc)
            elif not self.valuetype(fr.fn['ret']) and s['e']['k'] in ('Ref', 'Mem') and fr.fn['ret'].replace('const ', '') in self.p.records:
                v = ('ref', self.lv(s['e'], st, fr))
            else: v = self.coerce(self.ev(s['e'], st, fr), fr.fn['ret'], s['e'])
        if not st.dead:
            self.event('return', st, value=v, fn=fr.fn['q'])
            fr.returns.append((st.copy(), v, s.get('l', 0)))
        st.dead = True

    def x_Break(self, s, st, fr):
        if fr.loops: fr.loops[-1]['break'].append(st.copy())
        st.dead = True
    def x_Continue(self, s, st, fr):
        for l in reversed(fr.loops):
            if l['kind'] == 'loop': l['cont'].append(st.copy()); break
        st.dead = True
    def x_Goto(self, s, st, fr):
        self.event('goto', st, label=s['n'])
        fr.labels.append((s['n'], st.copy()))
        st.dead = True
    def x_Label(self, s, st, fr): self.exec(s['s'], st, fr)
    def x_Case(self, s, st, fr): self.exec(s['s'], st, fr)
    def x_Default(self, s, st, fr): self.exec(s['s'], st, fr)

    def x_Switch(self, s, st, fr):
        v = self.ev(s['cond'], st, fr)
        ctx = {'kind': 'switch', 'break': [], 'cont': []}
        fr.loops.append(ctx)
        body = s['body']['c'] if s['body']['k'] == 'Block' else [s['body']]
        entry = st.copy(); cur = State(dead=True)
        seen, hasdef = [], False
        defcond_needed = []
        # flatten nested labels
        items = []
        for b in body:
            labs = []
            while b is not None and b['k'] in ('Case', 'Default'):
                labs.append(b); b = b['s']
            items.append((labs, b))
        allc = [self.cmpv(v, self.ev(l['v'], entry.copy(), fr)) for labs, b in items for l in labs if l['k'] == 'Case']
        for labs, b in items:
            if labs:
                conds = []
                for l in labs:
                    if l['k'] == 'Case': conds.append(self.cmpv(v, self.ev(l['v'], entry.copy(), fr)))
                    else: hasdef = True; conds.append(land(*[lnot(c) for c in allc]))
                e = entry.copy(); self.assume(e, lor(*conds))
                cur = self.join([cur, e])
            if b is not None and not cur.dead: self.exec(b, cur, fr)
        fr.loops.pop()
        outs = ctx['break'] + [cur]
        if not hasdef:
            e = entry.copy(); self.assume(e, land(*[lnot(c) for c in allc])); outs.append(e)
        st.set(self.join(outs))
    def cmpv(self, a, b): return cmp('==', a, b, True)

    def x_Try(self, s, st, fr):
        pre = st.copy()
        saved, self.throws = self.throws, []
        w0, self.writes = self.writes, set()
        self.ncall += 1
        atom = ('exc', self.ncall)
        mark = len(self.events)
        self.exec(s['body'], st, fr)
        written, self.writes = self.writes, w0
        if w0 is not None: w0 |= written
        throws, self.throws = self.throws, saved
        outs = [st.copy()]
        for i, h in enumerate(s['handlers']):
            hs = pre.copy()
            for loc in written:
                hs.env[loc] = ('maythrow', atom, loc)
                if loc in pre.env: self.pretry[hs.env[loc]] = pre.env[loc]
            hs.guard = hs.guard + (('exc', atom[1], i),)
            if 'id' in h: hs.env[('var', fr.no, h['id'], 'e')] = ('ref', ('caught', atom[1]))
            self.pos = (fr.fn['file'], h.get('l', 0))
            self.event('catch', hs, type=h.get('t', '...'), index=i)
            self.exec(h['body'], hs, fr)
            outs.append(hs)
        st.set(self.join(outs))

    # ------------------------------------------------------------ loops
    def x_For(self, s, st, fr):
        if 'init' in s: self.exec(s['init'], st, fr)
        self.loop(s, st, fr, cond=s.get('cond'), body=s.get('body'), inc=s.get('inc'))
    def x_While(self, s, st, fr):
        self.loop(s, st, fr, cond=s.get('cond'), body=s.get('body'), cvar=s.get('cvar'))
    def x_Do(self, s, st, fr):
        self.loop(s, st, fr, cond=s.get('cond'), body=s.get('body'), post=True)
    def x_RangeFor(self, s, st, fr):
        v = s['var']; r = s['range']
        cont = self.lv(r, st, fr)
        if (self.unroll or re.search(r'\[\d\]$|^(const )?std::array<.*, \d>( const)?( &)?$', r.get('t', '')) and any(n.get('k') in ('Throw', 'Return', 'Break') for n in walk(s['body']))) and not v.get('bind') and not st.dead and self.unrolled_range(s, st, fr, v, r, cont): return
        self.loop(s, st, fr, body=s['body'], rng=(cont, v))
    def fixed_range(self, r, cont, st):
        """The elements of a range of fixed size: a C array, or a class whose begin and end point into one."""
        t = r.get('t', '').replace('const ', '').rstrip('& ')
        m = re.search(r'\[(\d+)\]$', t)
        if m: return [('elem', cont, num(i)) for i in range(int(m.group(1)))]
        m = re.match(r'std::array<.*, (\d+)>$', t)
        if m: return [('elem', cont, num(i)) for i in range(int(m.group(1)))]
        if t not in self.p.records: return None
        ends = []
        for n in ('begin', 'end'):
            fs = [f for f in self.p.fns.values() if f.get('cls') == t and f['n'] == n and not f['params'] and 'body' in f]
            if not fs: return None
            v = self.inline(fs[0], cont, [], st.copy())
            d = to_poly(v)
            ptrs = [m for m in d if len(m) == 1 and m[0][0][0] == 'addr']
            rest = from_poly({k: x for k, x in d.items() if k not in ptrs})
            if len(ptrs) != 1 or rest[0] != 'n' or d[ptrs[0]] != 1: return None
            ends.append((ptrs[0][0][0][1], int(rest[1])))
        (a, i), (b, j) = ends
        if a != b or a[0] != 'elem' or a[2][0] != 'n': return None
        return [('elem', a[1], num(int(a[2][1]) + k)) for k in range(i, j)]
    def pointer(self, v):
        """(array, index) a pointer with a known index points to"""
        if v[0] not in ('addr', 'p'): return None
        d = to_poly(v)
        ptrs = [m for m in d if len(m) == 1 and m[0][0][0] == 'addr' and m[0][1] == 1]
        rest = from_poly({k: x for k, x in d.items() if k not in ptrs})
        if len(ptrs) != 1 or d[ptrs[0]] != 1 or rest[0] != 'n': return None
        a = ptrs[0][0][0][1]
        if a[0] != 'elem' or a[2][0] != 'n': return None
        return a[1], int(a[2][1]) + int(rest[1])
    def unrolled_range(self, s, st, fr, v, r, cont):
        els = self.fixed_range(r, cont, st)
        if els is None or len(els) > max(self.unroll or 0, 4): return False
        def step(cur, el):
            ctx = {'kind': 'loop', 'break': [], 'cont': []}
            fr.loops.append(ctx)
            loc = ('var', fr.no, v['id'], v['n'])
            cur.env[loc] = ('ref', el) if v['t'].endswith('&') or not self.valuetype(v['t']) else self.read(cur, el)
            self.exec(s['body'], cur, fr)
            fr.loops.pop()
            return ctx
        cur, brk = st, []
        for el in els:
            if cur.dead: break
            ctx = step(cur, el)
            brk += ctx['break']
            cur.set(self.join([cur.copy()] + ctx['cont']))
        if brk: st.set(self.join([cur.copy()] + brk))
        return True

    def loop(self, s, st, fr, cond=None, body=None, inc=None, post=False, rng=None, cvar=None, elem=None, bodyfn=None):
        if st.dead: return
        self.nloop += 1
        lid = self.nloop
        L = Loop(lid, s.get('l', 0)); L.parent = self.loopstack[-1] if self.loopstack else None
        L.fn = fr.fn['q']; L.file = s.get('f', fr.fn['file']); L.kind = s.get('k')
        N = ('iter', lid); terms.NONNEG.add(N)
        def once(st0):
            """one generic iteration; returns (end state, exit states, cond term)"""
            cs = State(dead=True); c = TRUE
            if rng:
                size = self.size_of(st0, rng[0])
                c = cmp('<', N, size, True)
            elif cond is not None and not post:
                if cvar: self.declare(cvar, st0, fr)
                c = self.cond(cond, st0, fr)
            ex = st0.copy(); self.assume(ex, lnot(c))
            self.assume(st0, c)
            ctx = {'kind': 'loop', 'break': [], 'cont': []}
            fr.loops.append(ctx)
            self.loopstack.append(lid)
            if rng:
                vv = rng[1]
                loc = ('var', fr.no, vv['id'], vv['n'])
                el = ('elem', rng[0], N)
                if vv.get('bind'):
                    for i, b in enumerate(vv['bind']): st0.env[('var', fr.no, b['id'], b['n'])] = ('get', self.read(st0, el), i)
                elif vv['t'].endswith('&') or not self.valuetype(vv['t']): st0.env[loc] = ('ref', el)
                else: st0.env[loc] = self.read(st0, el)
            if bodyfn: bodyfn(st0, N)
            else: self.exec(body, st0, fr)
            end = self.join([st0] + ctx['cont'])
            if inc is not None and not end.dead: self.ev(inc, end, fr, drop=True)
            if post and not end.dead:
                c = self.cond(cond, end, fr)
                ex = end.copy(); self.assume(ex, lnot(c)); self.assume(end, c)
            self.loopstack.pop()
            fr.loops.pop()
            return end, ex, ctx['break'], c
        if self.unroll and not rng and not post and cond is not None and not bodyfn and self.unrolled(s, st, fr, cond, body, inc, cvar): return
        # pass 1: which locations does the body write?
        self.mute += 1
        w0, self.writes = self.writes, set()
        sv = (len(fr.returns), len(self.throws), len(fr.labels), self.nobj, self.ncall, self.nloop, self.nfr)
        try: once(st.copy())
        finally:
            written, self.writes = self.writes, w0
            self.mute -= 1
        del fr.returns[sv[0]:]; del self.throws[sv[1]:]; del fr.labels[sv[2]:]
        self.nloop = sv[5]
        live = {k for k in written if k in st.env or k[0] != 'var' or any(self.under(x, k) for x in st.env)}
        if w0 is not None: w0 |= written
        # pass 2: from the widened state
        base = st.copy()
        init = {}
        for loc in sorted(live, key=key):
            if loc[0] == 'elem': 
                for k in [k for k in base.env if k[0] == 'elem' and k[1] == loc[1]]: del base.env[k]
                base.env.pop(loc, None)
                if self.unroll:
                    k = loc
                    while k[0] == 'elem':
                        k = k[1]
                        if base.env.get(k, ('',))[0] == 'list': del base.env[k]
                continue
            init[loc] = self.read(st, loc)
            if init[loc][0] == 'ref': continue
            self.forget(base, loc)
            base.env[loc] = ('lsym', lid, loc)
            if init[loc][0] == 'it': base.env[loc] = ('it', init[loc][1], ('lsym', lid, loc))
            if init[loc] in terms.NONNEG or (is_num(init[loc]) and init[loc][1] >= 0): pass
        mark = len(self.events)
        rmark, tmark, lmark = len(fr.returns), len(self.throws), len(fr.labels)
        self.nloop = sv[5]
        w1, self.writes = self.writes, set()
        end, ex, brk, c = once(base.copy())
        self.writes = w1
        inner = list(range(sv[5] + 1, self.nloop + 1))
        # induction variables
        m = {}
        if not end.dead:
            for loc in init:
                sym = ('lsym', lid, loc)
                if init[loc][0] == 'ref': continue
                ev_ = self.read(end, loc)
                i0 = init[loc]
                if ev_[0] == 'it' or i0[0] == 'it':
                    if ev_[0] != 'it' or i0[0] != 'it' or ev_[1] != i0[1]: L.updates[loc] = (i0, ev_); continue
                    i0, ev_ = i0[2], ev_[2]
                if ev_[0] in ('n', 'p', 'lsym', 'init') or True:
                    if init[loc][0] in ('undef', 'some', 'none', 'b', 'null', 'new') or is_bool(ev_) or ev_[0] in ('ite', 'some'): 
                        L.updates[loc] = (init[loc], ev_); continue
                    try: d = sub(ev_, sym)
                    except Exception: L.updates[loc] = (init[loc], ev_); continue
                    if not contains(d, lambda t: (t[0] == 'lsym' and t[1] == lid) or t == N or (t[0] == 'ret' and t[1] > sv[4]) or (t[0] == 'tmp' and t[1] > sv[3]) or (t[0] in ('iter', 'lsym', 'lout', 'trip') and t[1] in inner and t[0] != 'trip')):
                        if ev_ == sym: m[sym] = i0
                        else: m[sym] = add(i0, mul(d, N)); L.ivs[loc] = (i0, d)
                    else: L.updates[loc] = (init[loc], ev_)
        # derived: updates whose value at iteration start equals f(N) are left symbolic
        if m:
            memo = {}
            sb = lambda t: subst(t, m, memo)
            for e in self.events[mark:]: self.subst_event(e, sb)
            for lst, k in ((fr.returns, rmark),):
                for i in range(k, len(lst)): lst[i] = (self.subst_state(lst[i][0], sb), sb(lst[i][1]), lst[i][2])
            for i in range(tmark, len(self.throws)): self.throws[i] = (self.throws[i][0], self.subst_state(self.throws[i][1], sb)) + tuple(self.throws[i][2:])
            for i in range(lmark, len(fr.labels)): fr.labels[i] = (fr.labels[i][0], self.subst_state(fr.labels[i][1], sb))
            end, ex, brk, c = self.subst_state(end, sb), self.subst_state(ex, sb), [self.subst_state(x, sb) for x in brk], sb(c)
            L.updates = {k: (a, sb(b)) for k, (a, b) in L.updates.items()}
            for i in inner:
                il = self.loops.get(i)
                if il:
                    il.updates = {k: (sb(a), sb(b)) for k, (a, b) in il.updates.items()}
                    il.ivs = {k: (sb(a), sb(b)) for k, (a, b) in il.ivs.items()}
                    if il.trip: il.trip = sb(il.trip)
                    if il.cond: il.cond = sb(il.cond)
        L.cond = c; L.breaks = len(brk); L.init = init; L.endguard = end.guard if not end.dead else None
        L.returns = len(fr.returns) - rmark; L.rng = rng[0] if rng else None; L.post = post; L.nolimit = cond is None and not rng
        # trip count
        trip = self.trip(c, N, post)
        L.trip = trip
        self.loops[lid] = L
        T = trip if trip is not None else ('trip', lid)
        if trip is None: terms.NONNEG.add(T)
        # state after the loop
        if ex.dead: out = ex
        else:
            m2 = {N: T} if not post else {N: T}
            for loc in init:
                sym = ('lsym', lid, loc)
                if sym not in m: m2[sym] = ('lout', lid, loc)
            memo2 = {}
            if trip is not None and not post:
                out = State({k: subst(v, m2, memo2) for k, v in ex.env.items()}, st.guard)
            else: out = State({k: subst(v, m2, memo2) for k, v in ex.env.items()}, tuple(subst(g, m2, memo2) for g in ex.guard))
            L.outs = {loc: out.env.get(loc) for loc in init}
        brk = [b for b in brk if not b.dead]
        if brk and not out.dead:
            # left either at its bound or by the first break
            B = ('ret', 0, 'broke %d' % lid)
            out.guard = tuple(out.guard) + (lnot(B),)
            for b in brk: b.guard = tuple(b.guard) + (B,)
        st.set(self.join([out] + brk))

    def unrolled(self, s, st, fr, cond, body, inc, cvar):
        """Run a loop whose condition is decided in every round (at most `unroll` rounds)."""
        def attempt(cur):
            for _ in range(self.unroll + 1):
                if cvar: return None
                c = self.cond(cond, cur, fr)
                if c == FALSE: return cur
                if c != TRUE or _ == self.unroll: return None
                ctx = {'kind': 'loop', 'break': [], 'cont': []}
                fr.loops.append(ctx)
                self.exec(body, cur, fr)
                fr.loops.pop()
                if ctx['break']: return None
                cur = self.join([cur] + ctx['cont'])
                if cur.dead: return None
                if inc is not None: self.ev(inc, cur, fr, drop=True)
            return None
        sv = (len(fr.returns), len(self.throws), len(fr.labels), self.nobj, self.ncall, self.nloop, self.nfr, len(self.events), len(fr.loops))
        w0 = None if self.writes is None else set(self.writes)
        out = attempt(st.copy())
        if out is None:
            del fr.returns[sv[0]:]; del self.throws[sv[1]:]; del fr.labels[sv[2]:]; del self.events[sv[7]:]; del fr.loops[sv[8]:]
            self.nobj, self.ncall, self.nloop, self.nfr = sv[3:7]
            self.writes = w0
            return False
        st.set(out)
        return True
    def trip(self, c, N, post=False):
        if c[0] == '!' and c[1][0] == 'cmp' and c[1][1] == '==' and c[1][2][0] != 'pair':      # counts up to exactly its bound
            p = to_poly(c[1][2])
            co = p.get(((N, 1),))
            if co is None or not c[1][3]: return None
            rest = from_poly({k: v / -co for k, v in p.items() if k != ((N, 1),)})
            if contains(rest, lambda t: t == N or t[0] in ('lsym',)) or satisfiable(cmp('<', rest, num(0), True)): return None
            return rest
        if c[0] != 'cmp' or c[2][0] == 'pair': return None
        p = to_poly(c[2])
        m = ((N, 1),)
        if m not in p: return None
        co = p[m]
        rest = from_poly({k: v for k, v in p.items() if k != m})
        if contains(rest, lambda t: t == N or t[0] in ('lsym',)): return None
        if c[3] and c[1] == '<' and co == 1: return neg(rest)            # N + rest < 0
        return None
    def subst_event(self, e, sb):
        e.guard = tuple(x for x in (sb(g) for g in e.guard) if x != TRUE)
        e.d = {k: self.subst_any(v, sb) for k, v in e.d.items()}
    def subst_any(self, v, sb):
        if isinstance(v, tuple) and v and isinstance(v[0], str): return sb(v)
        if isinstance(v, (list, tuple)): return type(v)(self.subst_any(x, sb) for x in v)
        return v
    def subst_state(self, s, sb):
        if s.dead: return s
        return State({sb(k) if k[0] in ('elem', 'fld') else k: sb(v) for k, v in s.env.items()}, tuple(x for x in (sb(g) for g in s.guard) if x != TRUE), s.dead)

    def size_of(self, st, cont):
        v = st.env.get(cont)
        if v is not None:
            if v[0] == 'vec': return v[1]
            if v[0] == 'init': cont = v[1]
        r = ('size', cont)
        terms.NONNEG.add(r)
        return r

    # ------------------------------------------------------------ lvalues
    def lv(self, e, st, fr):
        """The location an expression denotes (a temporary when it has none)."""
        k = e['k']
        if k == 'Ref':
            if e['dk'] == 'global': return ('glob', e['id'])
            if e['dk'] == 'slocal': return ('glob', 'static:' + e['n'])
            if e['dk'] in ('fn', 'enum'): return ('fnref', e['n'])
            n = e['n'].rsplit('::', 1)[-1]
            for f in [fr.no] + self.outer(fr):
                loc = ('var', f, e['id'], n)
                if loc in st.env:
                    v = st.env[loc]
                    return v[1] if v[0] == 'ref' else loc
            return ('var', fr.no, e['id'], n)
        if k == 'This': return ('thisptr',)
        if k == 'Mem':
            b = e['b']
            if e['arrow']: bl = self.deref(self.ev(b, st, fr), st, b.get('t', ''))
            else: bl = self.lv(b, st, fr)
            loc = ('fld', bl, e['n'])
            v = st.env.get(loc)
            if v is not None and v[0] == 'ref': return v[1]
            return loc
        if k == 'Un' and e['op'] == '*':
            return self.deref(self.ev(e['e'], st, fr), st, e['e'].get('t', ''))
        if k == 'Un' and e['op'] in ('++', '--'):
            self.ev(e, st, fr); return self.lv(e['e'], st, fr)
        if k == 'Sub':
            a = e['a']
            i = self.ev(e['i'], st, fr)
            at = a.get('t', '')
            if at.endswith('*'):
                c = self.deref(self.ev(a, st, fr), st, at, quiet=True)
            else: c = self.lv(a, st, fr)
            if c[0] == 'elem' and at.endswith('*'):      # pointer arithmetic base
                self.event('index', st, cont=c[1], index=add(c[2], i), how='[]')
                return ('elem', c[1], add(c[2], i))
            self.event('index', st, cont=c, index=i, how='[]', atype=at)
            return ('elem', c, i)
        if k == 'Call':
            r = self.callexpr(e, st, fr, want='lv')
            if r[0] == 'ref': return r[1]
            return self.temp(st, r)
        if k == 'Cond':
            v = self.ev(e, st, fr)
            return self.temp(st, v)
        if k == 'Assign':
            l = self.lv(e['a'], st, fr)
            self.ev(e, st, fr)
            return l
        if k == 'Cast': return self.lv(e['e'], st, fr) if e['ck'] in ('BaseToDerived', 'Dynamic', 'BitCast', 'ToVoid') else self.temp(st, self.ev(e, st, fr))
        if k == 'Ctor':
            self.nobj += 1
            loc = ('tmp', self.nobj)
            if e['id'] in self.p.fns and e['fn'].split('::')[0] != 'std' and self.construct(e, loc, st, fr): return loc
            st.env[loc] = self.ev(e, st, fr)
            return loc
        return self.temp(st, self.ev(e, st, fr))
    def temp(self, st, v):
        if v[0] == 'obj': return v
        if v[0] == 'ref': return v[1]
        if v[0] == 'init': return v[1]
        self.nobj += 1
        loc = ('tmp', self.nobj)
        st.env[loc] = v
        return loc
    def outer(self, fr):
        r = []
        f = getattr(fr, 'outerfr', None)
        while f is not None:
            r.append(f.no); f = getattr(f, 'outerfr', None)
        return r
    def deref(self, v, st, t='', quiet=False):
        if v[0] == 'addr': return v[1]
        if v[0] == 'it':
            self.event('index', st, cont=v[1], index=v[2], how='*')
            return ('elem', v[1], v[2])
        if v[0] == 'ref': return v[1]
        if v == ('thisptr',): return self.stack[-1].this
        if v[0] == 'new': return ('newobj', v)
        if v[0] == 'ite':
            # both arms name objects: keep the gated pointer
            pass
        if v[0] == 'p':      # pointer arithmetic: base + offset
            d = to_poly(v)
            ptrs = [m for m in d if len(m) == 1 and m[0][0][0] in ('addr', 'data')]
            if len(ptrs) == 1:
                b = ptrs[0][0][0]
                rest = from_poly({k: x for k, x in d.items() if k != ptrs[0]})
                c = b[1]
                loc = ('elem', c[1], add(c[2], rest)) if c[0] == 'elem' else ('elem', c, rest)
                if not quiet: self.event('index', st, cont=loc[1], index=loc[2], how='*')
                return loc
        if v[0] == 'data': return ('elem', v[1], num(0))
        if not quiet: self.event('deref', st, ptr=v, type=t)
        return ('deref', v)

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fr, drop=False):
        if e is None: return ('void',)
        if st.dead: return ('undef', 'dead')
        if 'cv' in e and e['k'] not in ('Assign', 'Call') : return self.cv(e['cv'])
        if 'cv' in e and e['k'] == 'Call': return self.cv(e['cv'])
        k = e['k']
        if 'l' in e: self.pos = (e.get('f', fr.fn['file']), e['l'])
        m = getattr(self, 'e_' + k, None)
        if m: return m(e, st, fr)
        self.unknown[k] = self.unknown.get(k, 0) + 1
        for c in e.get('c', []): self.ev(c, st, fr)
        self.ncall += 1
        return ('ret', self.ncall, k)
    def e_Str(self, e, st, fr): return ('s', e['v'])
    def e_Null(self, e, st, fr): return NULL
    def e_Lit(self, e, st, fr): return ('undef', 'lit')
    def e_ZeroInit(self, e, st, fr):
        t = e['t']
        if t.endswith('*'): return NULL
        if t.startswith('bool'): return FALSE
        if integral(t) or floating(t): return num(0)
        return ('zero', t)
    def e_Ref(self, e, st, fr):
        if e['dk'] == 'fn': return ('fnref', e['n'], e['id'])
        if e['dk'] == 'enum': return ('enum', e['n'])
        return self.rvalue(self.lv(e, st, fr), e, st)
    def e_Mem(self, e, st, fr):
        if e['b'] is not None and not e['arrow'] and e['b']['k'] in ('Call', 'Ctor') :
            l = self.lv(e['b'], st, fr)
            return self.rvalue(('fld', l, e['n']), e, st)
        return self.rvalue(self.lv(e, st, fr), e, st)
    def rvalue(self, loc, e, st):
        t = e.get('t', '')
        if loc[0] == 'fnref': return loc
        if loc == ('thisptr',): return loc
        if not self.valuetype(t) and t and t.replace('const ', '').rstrip('& ') in self.p.records: 
            v = st.env.get(loc)
            return v if v is not None and v[0] not in ('undef',) else ('obj', loc)
        return self.read(st, loc, t)
    def e_This(self, e, st, fr):
        return ('addr', fr.this)
    def e_Un(self, e, st, fr):
        op = e['op']
        if op in ('++', '--', 'post++', 'post--'):
            loc = self.lv(e['e'], st, fr)
            v = self.read(st, loc, e['e'].get('t', ''))
            d = num(1 if '+' in op else -1)
            n = self.advance(v, d)
            self.store(st, loc, n)
            return v if op.startswith('post') else n
        if op == '*':
            t = e['e'].get('t', '')
            return self.rvalue(self.lv(e, st, fr), e, st)
        if op == '&':
            x = e['e']
            if x['k'] == 'Ref' and x['dk'] == 'fn': return ('fnref', x['n'], x['id'])
            return ('addr', self.lv(x, st, fr))
        v = self.ev(e['e'], st, fr)
        if op == '-': return neg(v) if v[0] != 'ite' else ite(v[1], neg(v[2]), neg(v[3]))
        if op == '+': return v
        if op == '!': return lnot(self.tobool(v, e['e'].get('t', '')))
        return ('call', 'un' + op, (v,))
    def advance(self, v, d):
        if v[0] == 'it': return ('it', v[1], add(v[2], d))
        return add(v, d)
    def e_Bin(self, e, st, fr):
        op = e['op']
        if op in ('&&', '||'):
            a = self.cond(e['a'], st, fr)
            if st.dead: return a
            s1 = st.copy(); self.assume(s1, a if op == '&&' else lnot(a))
            s2 = st.copy(); self.assume(s2, lnot(a) if op == '&&' else a)
            if s1.dead: return FALSE if op == '&&' else TRUE
            env0 = dict(s1.env)
            b = self.cond(e['b'], s1, fr)
            if s1.env == env0 and not s1.dead and s1.guard[:len(st.guard)] == st.guard and len(s1.guard) - len(st.guard) <= len(a[1] if a[0] == 'and' else (a,)) : pass
            else: st.set(self.join([s1, s2]))
            return land(a, b) if op == '&&' else lor(a, b)
        if op == ',':
            self.ev(e['a'], st, fr, drop=True)
            return self.ev(e['b'], st, fr)
        a = self.ev(e['a'], st, fr); b = self.ev(e['b'], st, fr)
        return self.binop(op, a, b, e, st, e['a'].get('t', ''), e['b'].get('t', ''))
    def binop(self, op, a, b, e, st, ta, tb):
        t = e.get('ct') or e.get('t', '')
        if a[0] == 'ref': a = self.read(st, a[1])
        if b[0] == 'ref': b = self.read(st, b[1])
        if op in ('<', '>', '<=', '>=', '==', '!='):
            isint = (integral(ta) and integral(tb))
            return cmp(op, a, b, isint)
        if op == '+': 
            if a[0] == 'it': return ('it', a[1], add(a[2], b))
            r = self.arith(add, a, b)
        elif op == '-':
            if a[0] == 'it' and b[0] == 'it' and a[1] == b[1]: return sub(a[2], b[2])
            if a[0] == 'it': return ('it', a[1], sub(a[2], b))
            if unsigned(t): self.event('usub', st, a=a, b=b)
            r = self.arith(sub if not (self.wrap and unsigned(t)) else lambda x, y: self.usub(x, y, st), a, b)
        elif op == '*': r = self.arith(mul, a, b)
        elif op == '/':
            if integral(t):
                self.event('idiv', st, a=a, b=b)
                if is_num(a) and is_num(b) and b[1] != 0: r = num(int(a[1] / b[1]))
                else:
                    r = ('call', 'idiv', (a, b))
                    if unsigned(t): terms.NONNEG.add(r)
            else:
                self.event('fdiv', st, a=a, b=b)
                r = self.arith(div, a, b)
        else:
            if op == '%': self.event('idiv', st, a=a, b=b)
            r = ('call', op, (a, b))
        return r
    def usub(self, a, b, st):
        """Unsigned difference: a plain difference only where it cannot wrap around."""
        if is_num(b) and b[1] == 0: return a
        if implies(st.guard, cmp('<=', b, a, True)): return sub(a, b)
        r = ('call', 'usub', (a, b))
        terms.NONNEG.add(r)
        return r
    def arith(self, f, a, b):
        if a[0] == 'ite' and b[0] == 'ite' and a[1] == b[1]: return ite(a[1], self.arith(f, a[2], b[2]), self.arith(f, a[3], b[3]))
        if a[0] == 'ite' and b[0] != 'ite': return ite(a[1], self.arith(f, a[2], b), self.arith(f, a[3], b))
        if b[0] == 'ite' and a[0] != 'ite': return ite(b[1], self.arith(f, a, b[2]), self.arith(f, a, b[3]))
        if is_bool(a): a = ite(a, num(1), num(0)) if a not in (TRUE, FALSE) else num(int(a == TRUE))
        if is_bool(b): b = ite(b, num(1), num(0)) if b not in (TRUE, FALSE) else num(int(b == TRUE))
        if a[0] == 'ite' or b[0] == 'ite': return ('call', f.__name__.replace('<lambda>', 'usub'), (a, b))
        return f(a, b)
    def e_Assign(self, e, st, fr):
        op = e['op']
        if op == '=':
            # the right-hand side is sequenced before the left (C++17)
            v = self.ev(e['b'], st, fr)
            loc = self.lv(e['a'], st, fr)
            v = self.coerce(v, e['a'].get('t', ''), e['b'])
            self.store(st, loc, v)
            return v
        b = self.ev(e['b'], st, fr)
        loc = self.lv(e['a'], st, fr)
        a = self.read(st, loc, e['a'].get('t', ''))
        v = self.binop(op[:-1], a, b, e, st, e['a'].get('t', ''), e['b'].get('t', ''))
        ct, at = e.get('ct', ''), e['a'].get('t', '')
        if floating(ct) and integral(at):
            self.event('f2i', st, value=v, to=at); v = ('call', 'trunc', (v,))
        self.store(st, loc, v)
        return v
    def e_Cond(self, e, st, fr):
        c = self.under_guard(st, self.cond(e['c'], st, fr))
        a, b = st.copy(), st.copy()
        self.assume(a, c); self.assume(b, lnot(c))
        va = self.ev(e['a'], a, fr); vb = self.ev(e['b'], b, fr)
        if va[0] == 'obj' and vb[0] != 'obj' : pass
        j = self.join([a, b])
        st.set(j)
        if a.dead and not b.dead: return vb
        if b.dead and not a.dead: return va
        if 'std::optional' in e.get('t', ''):
            va, vb = self.coerce(va, e['t'], e['a']), self.coerce(vb, e['t'], e['b'])
        return self.mite(c, va, vb)
    def e_Cast(self, e, st, fr):
        ck = e['ck']
        if ck in ('ToVoid',): self.ev(e['e'], st, fr, drop=True); return ('void',)
        v = self.ev(e['e'], st, fr)
        if v[0] == 'ref': v = self.read(st, v[1])
        if ck == 'FloatingToIntegral':
            self.event('f2i', st, value=v, to=e['t'])
            if v[0] == 'n': return num(int(v[1]))
            r = ('call', 'trunc', (v,))
            if unsigned(e['t']): terms.NONNEG.add(r)
            return r
        if ck == 'IntegralToBoolean': return v if is_bool(v) else self.nz(v, True)
        if ck == 'FloatingToBoolean': return self.nz(v, False)
        if ck in ('PointerToBoolean', 'MemberPointerToBoolean'): return has(v)
        if ck == 'NullToPointer': return NULL
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingCast'):
            if ck == 'IntegralCast':
                src, dst = e['e'].get('t', ''), e['t']
                if not unsigned(src) and unsigned(dst):
                    self.event('s2u', st, value=v, to=dst)
                    if self.wrap and v[0] not in ('n', 'ite') and not is_bool(v) and integral(src) and not positive(st.guard, v):
                        v = ('call', 's2u', (v,)); terms.NONNEG.add(v)
            if is_bool(v) and not e['t'].startswith('bool') and v not in (TRUE, FALSE): return v
            return v
        if ck in ('Dynamic', 'BaseToDerived'): return v if ck != 'Dynamic' else ('dyncast', v, e['t'])
        if ck == 'BitCast' or ck == 'LValueBitCast': return v
        return v
    def nz(self, v, isint):
        return lnot(cmp('==', v, num(0), isint))
    def e_InitList(self, e, st, fr):
        vs = [self.ev(c, st, fr) for c in e['c']]
        if len(vs) == 1 and (integral(e['t']) or floating(e['t']) or e['t'].endswith('*')): return vs[0]
        if not vs and (integral(e['t']) or floating(e['t'])): return num(0)
        if not vs and e['t'].endswith('*'): return NULL
        return ('list',) + tuple(vs)
    def e_Sub(self, e, st, fr): return self.rvalue(self.lv(e, st, fr), e, st)
    def e_Throw(self, e, st, fr):
        a = ('void',)
        t = 'rethrow'
        if e.get('e'):
            t = e['e'].get('t', '')
            a = self.ev(e['e'], st, fr)
        self.event('throw', st, type=t, value=a)
        if not st.dead: self.throws.append((t, st.copy(), self.pos))
        st.dead = True
        return ('void',)
    def e_New(self, e, st, fr):
        self.nobj += 1
        v = ('new', e['t'].rstrip('* '), self.nobj)
        if e.get('e'): 
            if e['e']['k'] == 'Ctor': self.construct(e['e'], ('newobj', v), st, fr)
            else: self.ev(e['e'], st, fr)
        self.event('new', st, obj=v)
        return v
    def e_Delete(self, e, st, fr):
        v = self.ev(e['e'], st, fr)
        self.event('delete', st, ptr=v)
        return ('void',)
    def e_Lambda(self, e, st, fr):
        self.nobj += 1
        for c in e['caps']:
            if 'e' in c and 'id' in c:
                loc = ('var', fr.no, c['id'], c['n'])
                if loc not in st.env and not any(('var', f, c['id'], c['n']) in st.env for f in self.outer(fr)):
                    st.env[loc] = self.ev(c['e'], st, fr)
        v = ('lam', e['id'], fr.no, tuple(e.get('insts', ())))
        self.lamfr[fr.no] = fr
        return v
    def e_Other(self, e, st, fr):
        cls = e.get('cls')
        for c in e.get('c', []):
            if c is not None: self.ev(c, st, fr)
        self.ncall += 1
        return ('ret', self.ncall, cls)
    def e_Ctor(self, e, st, fr):
        cls = e['fn'].rsplit('::', 1)[0]
        t = e['t'].replace('const ', '')
        if t.startswith('std::'):
            args = e['args']
            if t.startswith('std::optional<'):
                if not args: return ('none',)
                a = args[0]
                if a['k'] == 'Ref' and a['n'].endswith('nullopt'): return ('none',)
                v = self.ev(a, st, fr)
                if a.get('t', '').replace('const ', '').startswith('std::optional<'): return v
                if 'nullopt' in a.get('t', ''): return ('none',)
                return ('some', self.conv(v, t[14:-1], a.get('t', ''), st))
            if re.match(r'std::(shared_ptr|unique_ptr|__shared_ptr)<', t):
                if not args: return NULL
                v = self.ev(args[0], st, fr)
                for a in args[1:]: self.ev(a, st, fr)
                return v
            if t.startswith('std::function<'):
                if not args: return NULL
                return self.ev(args[0], st, fr)
            if t.startswith('std::vector<') or t.startswith('std::array<'):
                vs = [self.ev(a, st, fr) for a in args if not 'allocator' in a.get('t', '')[:16]]
                if len(args) >= 1 and args[0].get('t', '') and integral(args[0]['t']):
                    fill = vs[1] if len(vs) > 1 else num(0)
                    return ('vec', vs[0], fill)
                if not vs:
                    m = re.search(r', (\d+)>$', t)
                    if t.startswith('std::array<') and m: return ('vec', num(int(m.group(1))), ('undef', 'array'))
                    return ('vec', num(0), num(0))
                if vs[0][0] == 'list': return ('vec', num(len(vs[0]) - 1), vs[0])
                return ('std', t.split('<')[0], tuple(vs))
            if t.startswith('std::basic_string'):
                vs = [self.ev(a, st, fr) for a in args if 'allocator' not in a.get('t', '')]
                if not vs: return ('s', '')
                if len(vs) == 1: 
                    return vs[0]
                return ('call', 'string', tuple(vs))
            vs = [self.ev(a, st, fr) for a in args]
            if len(vs) == 1 and vs[0][0] == 's': return ('std', t.split('<')[0], tuple(vs))
            return ('std', t.split('<')[0], tuple(vs))
        self.nobj += 1
        loc = ('tmp', self.nobj)
        if self.construct(e, loc, st, fr): return ('obj', loc)
        return ('ctor', e['fn'], self.nobj)
    def conv(self, v, to, frm, st):
        if floating(frm) and integral(to):
            self.event('f2i', st, value=v, to=to)
            return ('call', 'trunc', (v,)) if v[0] != 'n' else num(int(v[1]))
        return v
    def construct(self, e, loc, st, fr):
        fn = self.p.fns.get(e['id'])
        args = [self.arg(a, st, fr, p) for a, p in zip(e['args'], (fn['params'] if fn else [{'t': ''}] * len(e['args'])))]
        self.event('construct', st, cls=e['fn'], obj=loc, args=args)
        if fn is None or len(self.stack) > self.maxdepth or e['fn'] in self.opaque:
            return False
        if any(f.fn is fn for f in self.stack): return False
        if fn.get('copymove') and fn['impl']:
            if args and args[0][0] == 'ref': self.copy_object(st, args[0][1], loc)
            return True
        self.inline(fn, loc, args, st)
        return True

    # ------------------------------------------------------------ calls
    def arg(self, a, st, fr, p):
        """Evaluate an argument for parameter p: ('ref', loc) for references."""
        t = p['t']
        if '(&)' in t and a['k'] in ('Ref', 'Mem', 'Sub'): return ('ref', self.lv(a, st, fr))
        if t.endswith('&'):
            if t.startswith('const ') or t.endswith('&&'):
                # scalars by const reference: pass the value when there is no object
                if a['k'] in ('Ref', 'Mem', 'Sub') or (a['k'] == 'Un' and a['op'] == '*') or (a['k'] == 'Call' and (self.is_lvalue_call(a))):
                    return ('ref', self.lv(a, st, fr))
                if a['k'] == 'Ctor' or (a['k'] == 'Call' and not self.valuetype(a.get('t', ''))): return ('ref', self.lv(a, st, fr))
                return self.coerce(self.ev(a, st, fr), t.rstrip('& '), a)
            return ('ref', self.lv(a, st, fr))
        if not self.valuetype(t) and a['k'] in ('Ref', 'Mem', 'Call', 'Ctor', 'Un'):
            if t.replace('const ', '') in self.p.records: return ('ref', self.lv(a, st, fr))
        v = self.ev(a, st, fr)
        return self.coerce(v, t, a)

    def callexpr(self, e, st, fr, want='rv'):
        pos = self.pos
        if 'fn' not in e:
            fe = e['fe']
            f = self.ev(fe, st, fr)
            args = [self.ev(a, st, fr) for a in e['args']]
            if f[0] == 'fnref' and len(f) > 2:
                fn = self.p.fns.get(f[2])
                if fn: return self.do_call(fn, None, args, e, st, fr)
                return self.pure_or_opaque(f[1], None, args, e, st, fr)
            if f[0] == 'lam': return self.call_lambda(f, args, st, fr, e)
            self.ncall += 1
            r = ('ret', self.ncall, 'indirect')
            self.pos = pos
            self.event('icall', st, callee=f, args=args, result=r)
            return r
        fnq = e['fn']
        if fnq in ('__assert_fail', '__assert_perror_fail'):
            if self.asserts: st.dead = True
            self.event('assert', st)
            return ('void',)
        if fnq in ('exit', '_exit', 'abort', 'std::exit', 'std::abort', 'std::terminate'):
            args = [self.ev(a, st, fr) for a in e['args']]
            self.event('exit', st, fn=fnq, args=args)
            st.dead = True
            return ('void',)
        fn = self.p.fns.get(e['id'])
        if fnq.startswith(('std::', '__gnu_cxx::', 'fmt::')) or (fn is None and fnq.rsplit('::', 1)[-1] in PURE):
            return self.stdcall(e, st, fr, want)
        target = fn
        if e.get('virt'):
            im = self.p.impls(e['id'])
            target = im[0] if len(im) == 1 else None
        this = None
        if e.get('obj') is not None:
            o = e['obj']
            if e.get('arrow'):
                if o['k'] == 'This': this = fr.this
                else: this = self.deref(self.ev(o, st, fr), st, o.get('t', ''))
            elif o['k'] == 'This': this = fr.this
            else: this = self.lv(o, st, fr)
            if e.get('virt') and target is None and this[0] in ('tmp', 'var'): 
                pass
        sig = fn or target
        ps = sig['params'] if sig else self.sig_params(e)
        args = [self.arg(a, st, fr, ps[i] if i < len(ps) else {'t': a.get('t', '')}) for i, a in enumerate(e['args'])]
        if sig is None and '::' not in fnq:     # C library: a local array is written through its address
            for i, a in enumerate(e['args']):
                if not a.get('t', '').endswith('*') or a['t'].startswith('const '): continue
                while a['k'] == 'Cast': a = a['e']
                if a['k'] == 'Ref' and a.get('dk') == 'var' and a.get('t', '').endswith(']') and not a['t'].startswith('const '): args[i] = ('addr', self.lv(a, st, fr))
        if st.dead: return ('undef', 'dead')
        self.pos = pos
        return self.do_call(target, this, args, e, st, fr)
    def sig_params(self, e):
        # a declaration only: derive from the mangled method table when known
        return [{'t': self.decl_param(e, i, a)} for i, a in enumerate(e['args'])]
    def decl_param(self, e, i, a):
        im = self.p.impls(e['id']) if e.get('virt') else []
        if im and i < len(im[0]['params']): return im[0]['params'][i]['t']
        return a.get('t', '')
    def do_call(self, fn, this, args, e, st, fr):
        q = e.get('fn') or (fn['q'] if fn else '?')
        ok = fn is not None and 'body' in fn and q not in self.opaque and (len(self.stack) <= self.maxdepth or q in self.force) and not any(f.fn is fn for f in self.stack)
        if q.endswith('::operator=') and this and len(args) == 1 and (fn is None or 'body' not in fn or fn.get('impl')):
            # compiler-generated assignment: member by member
            recs = [x for x in self.p.records.values() if x['q'] == q[:-11]]
            names = [x['n'] for x in recs[0]['fields']] if recs else []
            a, vals = args[0], None
            if a[0] in ('ref', 'obj'): vals = [self.read(st, ('fld', a[1], n)) for n in names]
            elif a[0] == 'list' and len(a) == len(names) + 1: vals = list(a[1:])
            if names and vals:
                src = a[1] if a[0] in ('ref', 'obj') else None
                subs = [(k, v) for k, v in st.env.items() if src is not None and src != this and self.under(k, src)]
                for n, v in zip(names, vals):
                    self.store(st, ('fld', this, n), v)
                    if self.unroll and v[0] == 'list':
                        for i, x in enumerate(v[1:]): self.store(st, ('elem', ('fld', this, n), num(i)), x)
                for k, v in subs:                      # arrays inside, element by element
                    if k[0] == 'elem':
                        st.env[self.rebase(k, src, this)] = v
                        if self.writes is not None: self.writes.add(self.rebase(k, src, this))
                return ('ref', this)
        if ok:
            self.event('enter', st, fn=q, this=this if this else ('none',), args=args)
            return self.inline(fn, this, args, st)
        self.ncall += 1
        r = ('ret', self.ncall, q)
        self.callinfo[r] = dict(fn=q, this=this, args=args, line=self.pos)
        t = e.get('t', '')
        if unsigned(t) and not t.startswith('bool'): terms.NONNEG.add(r)
        ev_ = self.event('call', st, fn=q, this=this if this else ('none',), args=args, result=r, id=e.get('id', ''))
        if ev_:
            ev_.d['pre'] = [self.read(st, a[1]) if a[0] in ('ref', 'addr') and a[1][0] in ('var', 'parm', 'tmp', 'fld') else a for a in args]
            b = [a for a in args if a[0] == 'data']
            if b: ev_.d['bufsize'] = self.size_of(st, b[0][1])
            if q in self.snap: ev_.d['state'] = st.copy()
            if q in self.probe:
                ev_.d['probe'] = []
                for a in ev_.d['pre']:
                    if a[0] != 'lam': continue
                    self.mute += 1
                    try: ev_.d['probe'].append(self.call_lambda(a, list(self.probe[q]), st.copy(), fr))
                    finally: self.mute -= 1
        # out parameters
        ps = fn['params'] if fn else self.sig_params(e)
        for i, a in enumerate(args):
            pt = ps[i]['t'] if i < len(ps) else ''
            if a[0] == 'ref' and not pt.startswith('const ') and pt.endswith('&') and not pt.endswith('&&'): self.havoc(st, a[1], ('out', r, i))
            if a[0] == 'addr' and not pt.startswith('const '): self.havoc(st, a[1], ('out', r, i))
            if a[0] == 'data' and not pt.startswith('const '): self.havoc(st, a[1], ('vec', self.size_of(st, a[1]), ('out', r, i)))
        return r
    def inline(self, fn, this, args, st):
        fr = self.newframe(fn, this if this is not None else (self.stack[-1].this if self.stack and fn.get('lambda') else ('none',)))
        for p, a in zip(fn['params'], args): self.bind_param(st, fr, p, a)
        return self.inline_frame(fn, fr, st)
    def inline_frame(self, fn, fr, st):
        self.stack.append(fr)
        pos = self.pos
        if fn.get('ctor'): self.ctor_inits(fn, fr, st)
        if 'body' in fn: self.exec(fn['body'], st, fr)
        self.stack.pop()
        self.pos = pos
        if not st.dead: fr.returns.append((st.copy(), ('void',), 0))
        rets = [(s, v) for s, v, l in fr.returns if not s.dead]
        if not rets:
            st.dead = True
            return ('undef', 'dead')
        out, val_ = rets[0]
        for s, v in rets[1:]:
            # select on the discriminating guard suffix
            k = 0
            while k < len(out.guard) and k < len(s.guard) and out.guard[k] == s.guard[k]: k += 1
            sel = land(*out.guard[k:])
            for x in out.guard[k:]:
                if lnot(x) in s.guard[k:]: sel = x; break
            val_ = self.mite(sel, val_, v)
            out = self.join2(out, s)
        env = {k: v for k, v in out.env.items() if not (k[0] == 'var' and k[1] == fr.no)}
        st.env, st.guard, st.dead = env, out.guard, False
        return val_
    def call_lambda(self, lam, args, st, fr, e=None):
        fn = self.p.fns.get(lam[1])
        if fn is None or 'body' not in fn:
            for i in lam[3]:
                if i in self.p.fns and len(self.p.fns[i]['params']) == len(args): fn = self.p.fns[i]
        if fn is None or 'body' not in fn:
            self.ncall += 1
            r = ('ret', self.ncall, 'lambda')
            self.event('icall', st, callee=lam, args=args, result=r)
            return r
        dfr = self.lamfr.get(lam[2])
        nf = self.newframe(fn, dfr.this if dfr else ('none',))
        nf.outerfr = dfr
        for p, a in zip(fn['params'], args): self.bind_param(st, nf, p, a)
        self.event('enter', st, fn='lambda', this=('none',), args=args)
        return self.inline_frame(fn, nf, st)

    def pure_or_opaque(self, q, this, args, e, st, fr):
        n = q.rsplit('::', 1)[-1]
        if n in PURE: return call(n, [a if a[0] != 'ref' else self.read(st, a[1]) for a in args])
        return self.do_call(None, this, args, e, st, fr)

    def e_Call(self, e, st, fr):
        r = self.callexpr(e, st, fr)
        if r[0] == 'ref':
            t = e.get('t', '')
            if t.replace('const ', '').rstrip('& ') in self.p.records:
                v = st.env.get(r[1])
                return v if v is not None and v[0] not in ('undef', 'ref') else ('obj', r[1])
            return self.read(st, r[1], t)
        return r

    # ------------------------------------------------------------ library models
    def stdcall(self, e, st, fr, want):
        q = e['fn']
        n = q.rsplit('::', 1)[-1]
        A = e['args']
        ev = lambda a: self.ev(a, st, fr)
        obj = e.get('obj')
        cls = e.get('cls', '')
        opr = e.get('opr')
        if self.unroll and obj is None:
            if n in ('begin', 'cbegin', 'end', 'cend') and len(A) == 1:
                els = self.fixed_range(A[0], self.lv(A[0], st, fr), st)
                if els: return add(('addr', els[0]), num(len(els) if n.endswith('end') else 0))
            if n in ('inner_product', 'accumulate') and len(A) == (4 if n == 'inner_product' else 3):
                v = [ev(a) for a in A]
                at = [self.pointer(x) for x in v[:-1]]
                if all(at) and at[0][0] == at[1][0] and 0 <= at[1][1] - at[0][1] <= self.unroll:
                    r = v[-1]
                    for k in range(at[1][1] - at[0][1]):
                        x = self.read(st, ('elem', at[0][0], num(at[0][1] + k)), 'double')
                        if n == 'inner_product': x = mul(x, self.read(st, ('elem', at[2][0], num(at[2][1] + k)), 'double'))
                        r = add(r, x)
                    return r
        if obj is None:
            # free functions
            if n in ('move', 'forward', 'ref', 'cref', 'as_const', 'addressof') and len(A) == 1:
                if n == 'addressof': return ('addr', self.lv(A[0], st, fr))
                t = A[0].get('t', '')
                if A[0]['k'] in ('Ref', 'Mem', 'Sub') or (A[0]['k'] == 'Un' and A[0]['op'] == '*'): return ('ref', self.lv(A[0], st, fr))
                return ev(A[0])
            if n in ('isnan', 'isfinite', 'isinf', 'signbit'):
                v = ev(A[0])
                if v[0] == 'fc': return ('b', {'isnan': v[1] == 'nan', 'isfinite': False, 'isinf': v[1] != 'nan'}.get(n, False))
                if v[0] == 'n': return FALSE if n in ('isnan', 'isinf') else TRUE
                return ('isnan', v) if n == 'isnan' else (n, v)
            if n in ('min', 'max') and len(A) >= 2:
                a, b = ev(A[0]), ev(A[1])
                return call(n, (a, b))
            if n == 'make_optional' and len(A) == 1 and 'optional<' in e.get('t', ''):
                v = ev(A[0])
                return ('some', self.read(st, v[1]) if v[0] == 'ref' else v)
            if n == 'data' and len(A) == 1 and 'vector<' in A[0].get('t', '') and A[0]['k'] in ('Ref', 'Mem'): return ('data', self.lv(A[0], st, fr))
            if n == 'clamp' and len(A) >= 3:
                x, lo, hi = ev(A[0]), ev(A[1]), ev(A[2])
                return call('min', (call('max', (x, lo)), hi))
            if n in PURE and not e.get('virt'):
                vs = [ev(a) for a in A]
                vs = [self.read(st, v[1]) if v[0] == 'ref' else v for v in vs]
                if n == 'fabs': n = 'abs'
                r = call(n, vs)
                if n == 'sqrt': self.event('sqrt', st, value=vs[0])
                if n in ('asin', 'acos'): self.event('asin', st, value=vs[0], fn=n)
                return r
            if n in ('make_unique', 'make_shared'):
                vs = [self.arg(a, st, fr, {'t': 'const T &' if not self.valuetype(a.get('t', '')) else a.get('t', '')}) for a in A]
                self.nobj += 1
                t = (e.get('ta') or ['?'])[0]
                v = ('new', t, self.nobj)
                self.callinfo[v] = dict(fn=n, args=vs, cls=t, line=self.pos)
                self.event('make', st, cls=t, args=vs, obj=v, nodes=[(a.get('l'), a.get('t')) for a in A])
                return v
            if n in ('begin', 'cbegin'): return ('it', self.lv(A[0], st, fr), num(0))
            if n in ('end', 'cend'):
                c = self.lv(A[0], st, fr); return ('it', c, self.size_of(st, c))
            if n == 'size': 
                c = self.lv(A[0], st, fr); return self.size_of(st, c)
            if n in ('next', 'prev') and A:
                v = ev(A[0]); d = ev(A[1]) if len(A) > 1 else num(1)
                if v[0] == 'it': return ('it', v[1], add(v[2], d if n == 'next' else neg(d)))
            if n == 'distance':
                a, b = ev(A[0]), ev(A[1])
                if a[0] == b[0] == 'it': return sub(b[2], a[2])
            if n == 'advance' and len(A) == 2:
                loc = self.lv(A[0], st, fr); d = ev(A[1]); self.store(st, loc, self.advance(self.read(st, loc), d)); return ('void',)
            if n in ('swap', 'iter_swap') and len(A) == 2:
                if n == 'swap': a, b = self.lv(A[0], st, fr), self.lv(A[1], st, fr)
                else: a, b = self.deref(ev(A[0]), st), self.deref(ev(A[1]), st)
                va, vb = self.read(st, a), self.read(st, b)
                self.event('swap', st, a=a, b=b)
                self.store(st, a, vb); self.store(st, b, va)
                return ('void',)
            if n in ('for_each', 'accumulate', 'transform', 'any_of', 'all_of', 'none_of', 'find_if', 'count_if', 'reverse', 'swap_ranges', 'fill', 'fill_n', 'copy', 'reverse_copy', 'generate', 'copy_n'):
                r = self.algorithm(n, e, A, st, fr)
                if r is not None: return r
            if opr or n.startswith('operator'):
                op = opr or n[8:]
                vs = [ev(a) for a in A]
                vs = [self.read(st, v[1]) if v[0] == 'ref' else v for v in vs]
                if len(vs) == 2 and op in ('==', '!='):
                    a, b = vs
                    if a[0] == 'it' and b[0] == 'it' and a[1] == b[1]: return cmp(op, a[2], b[2], True)
                    if 'nullptr' in A[1].get('t', '') or b == NULL: return has(a) if op == '!=' else lnot(has(a))
                    if 'nullptr' in A[0].get('t', '') or a == NULL: return has(b) if op == '!=' else lnot(has(b))
                    if 'nullopt' in A[1].get('t', ''): return has(a) if op == '!=' else lnot(has(a))
                    ta, tb = A[0].get('t', ''), A[1].get('t', '')
                    if 'std::optional' in ta and 'std::optional' not in tb:
                        c = land(has(a), cmp('==', val(a), b, integral(tb))); return c if op == '==' else lnot(c)
                    if a[0] == 's' or b[0] == 's' or 'string' in ta:
                        c = ('call', 'streq', tuple(sorted((a, b), key=key))); return c if op == '==' else lnot(c)
                if len(vs) == 2 and op in ('<', '>', '<=', '>='):
                    a, b = vs
                    ta, tb = A[0].get('t', ''), A[1].get('t', '')
                    oa, ob = 'std::optional' in ta, 'std::optional' in tb
                    isint = not ('double' in ta or 'float' in ta or 'double' in tb or 'float' in tb)
                    if a[0] == 'it' and b[0] == 'it' and a[1] == b[1]: return cmp(op, a[2], b[2], True)
                    if oa or ob:
                        if op in ('>', '>='): a, b, oa, ob, op = b, a, ob, oa, {'>': '<', '>=': '<='}[op]
                        ha = has(a) if oa else TRUE; hb = has(b) if ob else TRUE
                        va = val(a) if oa else a; vb = val(b) if ob else b
                        c = cmp(op, va, vb, isint)
                        # an empty optional is less than any value
                        if op == '<': return lor(land(lnot(ha), hb), land(ha, hb, c))
                        return lor(lnot(ha), land(ha, hb, c))
                if len(vs) == 2 and op == '-' and vs[0][0] == vs[1][0] == 'it': return sub(vs[0][2], vs[1][2])
                if len(vs) == 2 and op == '+' and vs[0][0] == 'it': return ('it', vs[0][1], add(vs[0][2], vs[1]))
                if op == '+': return ('call', 'concat', tuple(vs))
                if op == '<<':
                    self.ncall += 1
                    self.event('call', st, fn=q, this=('none',), args=vs, result=('ret', self.ncall, q), id='')
                    return vs[0]
                return ('call', 'op' + op, tuple(vs))
            if n in ('strcmp', 'strncmp', 'strlen', 'stoi', 'to_string', 'tolower', 'make_pair', 'get', 'format', 'string_view', 'quiet_NaN', 'lowest', 'isdigit', 'isspace', 'toupper'):
                vs = [ev(a) for a in A]
                return ('call', n, tuple(self.read(st, v[1]) if v[0] == 'ref' else v for v in vs))
            args = [self.arg(a, st, fr, {'t': a.get('t', '') + (' &' if a['k'] in ('Ref', 'Mem') and not a.get('t', '').startswith('const ') and not a.get('t', '').endswith('*') else '')}) for a in A]
            vs = [self.read(st, a[1]) if a[0] == 'ref' and a[1] in st.env else a for a in args]
            for a, b in zip(vs, vs[1:]):
                if a[0] == b[0] == 'it' and a[1] == b[1]: self.event('range', st, cont=a[1], first=a[2], last=b[2], fn=n)
            return self.opaque_call(q, None, args, e, st)
        # ---- member functions
        if re.match(r'(const )?std::(optional|_Optional)', cls):
            loc = self.lv(obj, st, fr)
            o = self.read(st, loc)
            if n in ('operator bool', 'has_value'): return has(o)
            if n == 'operator*' or n == 'value':
                self.event('optderef', st, opt=o, checked=(n == 'value'))
                if n == 'value':
                    pass
                if want == 'lv': return ('ref', ('optval', loc)) if o[0] != 'some' else ('ref', self.temp(st, o[1]))
                return val(o)
            if n == 'operator->':
                self.event('optderef', st, opt=o, checked=False); return ('addr', self.temp(st, val(o)))
            if n == 'value_or': d = ev(A[0]); return ite(has(o), val(o), d)
            if n == 'reset': self.store(st, loc, ('none',)); return ('void',)
            if n == 'emplace' or n == 'operator=':
                a = A[0] if A else None
                if a is None: v = ('some', num(0))
                elif 'nullopt' in a.get('t', ''): v = ('none',)
                else:
                    v = ev(a)
                    at = a.get('t', '').replace('const ', '')
                    if not at.startswith('std::optional<') : v = ('some', self.conv(v, cls.replace('const ', '')[14:-1], at, st))
                self.store(st, loc, v)
                return ('ref', loc)
        if re.match(r'(const )?std::(shared_ptr|unique_ptr|__shared_ptr|__uniq|__shared_ptr_access)', cls):
            loc = None
            if obj['k'] in ('Ref', 'Mem') or (obj['k'] == 'Un' and obj['op'] == '*') or obj['k'] == 'Sub': loc = self.lv(obj, st, fr); v = self.read(st, loc)
            elif obj['k'] == 'Call':
                v = self.callexpr(obj, st, fr, want='lv')
                if v[0] == 'ref': loc = v[1]; v = self.read(st, loc)
            else: v = ev(obj)
            if n in ('operator->', 'operator*', 'get'):
                if n == 'get': return v
                if n == 'operator->': return v if v[0] != 'init' else v
                return ('ref', self.deref(v, st, cls))
            if n == 'operator bool': return has(v)
            if n == 'reset':
                nv = ev(A[0]) if A else NULL
                self.event('ptrreset', st, ptr=v)
                if loc is not None: self.store(st, loc, nv)
                return ('void',)
            if n == 'operator=':
                nv = ev(A[0])
                if nv[0] == 'ref': nv = self.read(st, nv[1])
                if loc is not None: self.store(st, loc, nv)
                return ('ref', loc) if loc else nv
            if n == 'release':
                if loc is not None: self.store(st, loc, NULL)
                return v
            if n == 'use_count': self.ncall += 1; return ('ret', self.ncall, q)
            if n == 'operator[]':
                i = ev(A[0])
                c = self.deref(v, st, cls)
                self.event('index', st, cont=c, index=i, how='[]'); return ('ref', ('elem', c, i))
        if re.match(r'(const )?std::(vector|array|basic_string|list|deque|initializer_list|map|unordered_map|set|basic_string_view|unique_ptr<.*\[\])', cls):
            c = self.lv(obj, st, fr)
            iscont = not re.match(r'(const )?std::(map|unordered_map|set)', cls)
            if n in ('size', 'length'): return self.size_of(st, c)
            if n == 'empty': return cmp('==', self.size_of(st, c), num(0), True)
            if n in ('operator[]', 'at') and iscont:
                i = ev(A[0])
                if i[0] == 'ref': i = self.read(st, i[1])
                self.event('index', st, cont=c, index=i, how=n if n == 'at' else '[]')
                v = st.env.get(c)
                if want != 'lv' and v is not None and v[0] == 'vec' and ('elem', c, i) not in st.env and not any(k[0] == 'elem' and k[1] == c for k in st.env):
                    if v[2][0] == 'list' and is_num(i) and 0 <= i[1] < len(v[2]) - 1: return v[2][1 + int(i[1])]
                    if v[2][0] == 'out': return ('at', v[2], i)
                    if v[2][0] not in ('list', 'appended') and not self.loopstack: return v[2]
                return ('ref', ('elem', c, i))
            if n in ('begin', 'cbegin'): return ('it', c, num(0))
            if n in ('end', 'cend'): return ('it', c, self.size_of(st, c))
            if n in ('rbegin', 'rend', 'crbegin', 'crend'): self.ncall += 1; return ('ret', self.ncall, q)
            if n == 'front': return ('ref', ('elem', c, num(0)))
            if n == 'back': return ('ref', ('elem', c, sub(self.size_of(st, c), num(1))))
            if n == 'data':
                return ('data', c)
            if n in ('c_str',): return self.read(st, c)
            if n in ('push_back', 'emplace_back'):
                vs = [ev(a) for a in A]
                vs = [self.read(st, v[1]) if v[0] == 'ref' else v for v in vs]
                self.event('push', st, cont=c, value=vs[0] if vs else ('void',), args=vs)
                old = self.size_of(st, c)
                self.havoc(st, c, ('vec', add(old, num(1)), ('appended',)))
                return ('ref', ('elem', c, old))
            if n in ('resize', 'assign'):
                vs = [ev(a) for a in A]
                self.event('resize', st, cont=c, args=vs)
                self.havoc(st, c, ('vec', vs[0] if vs else num(0), vs[1] if len(vs) > 1 else num(0)))
                return ('void',)
            if n == 'clear': self.havoc(st, c, ('vec', num(0), num(0))); return ('void',)
            if n == 'pop_back': self.havoc(st, c, ('vec', sub(self.size_of(st, c), num(1)), ('appended',))); return ('void',)
            if n == 'reserve': [ev(a) for a in A]; return ('void',)
            if n == 'operator=':
                v = ev(A[0])
                if v[0] == 'ref': v = self.read(st, v[1])
                self.store(st, c, v)
                return ('ref', c)
            if n == 'fill':
                v = ev(A[0])
                self.event('fill', st, cont=c, value=v)
                return ('void',)
            if n == 'swap' and len(A) == 1:
                b = self.lv(A[0], st, fr)
                va, vb = self.read(st, c), self.read(st, b)
                self.event('swap', st, a=c, b=b)
                self.store(st, c, vb); self.store(st, b, va)
                return ('void',)
            vs = [ev(a) for a in A]
            vs = [self.read(st, v[1]) if v[0] == 'ref' else v for v in vs]
            if n in ('append', 'operator+=', 'insert', 'erase', 'pop_back', 'swap', 'emplace', 'push_front'):
                self.ncall += 1
                self.event('call', st, fn=q, this=c, args=vs, result=('ret', self.ncall, q), id='')
                self.havoc(st, c, ('out', ('ret', self.ncall, q), 'this'))
                return ('ref', c)
            if n in ('compare', 'find', 'substr', 'count', 'rfind', 'find_first_of', 'max_size'): return ('call', n, (self.read(st, c),) + tuple(vs))
            return self.opaque_call(q, c, vs, e, st)
        if re.match(r'(const )?std::_Bit_reference', cls):
            loc = self.lv(obj, st, fr)
            if n == 'operator=':
                v = ev(A[0])
                if v[0] == 'ref': v = self.read(st, v[1])
                self.store(st, loc, v); return ('ref', loc)
            if n == 'operator bool': return self.read(st, loc)
            if n == 'flip': self.store(st, loc, lnot(self.read(st, loc))); return ('void',)
        if re.match(r'(const )?(__gnu_cxx::__normal_iterator|std::_?_?.*iterator)', cls) or '_iterator' in cls:
            loc = self.lv(obj, st, fr); v = self.read(st, loc)
            if n == 'operator*': return ('ref', self.deref(v, st, cls))
            if n == 'operator->': return v
            if n == 'operator=':
                nv = ev(A[0])
                self.store(st, loc, self.read(st, nv[1]) if nv[0] == 'ref' else nv); return ('ref', loc)
            if n == 'operator++' or n == 'operator--':
                nv = self.advance(v, num(1 if '++' in n else -1)) if v[0] in ('it',) else ('itn', v)
                self.store(st, loc, nv)
                return v if A else ('ref', loc)
            if n in ('operator+=', 'operator-='):
                d = ev(A[0]); nv = ('it', v[1], add(v[2], d if '+' in n else neg(d))) if v[0] == 'it' else ('itn', v)
                self.store(st, loc, nv); return ('ref', loc)
            if n in ('operator+', 'operator-'):
                d = ev(A[0])
                if v[0] == 'it': return ('it', v[1], add(v[2], d if '+' in n else neg(d)))
        if re.match(r'(const )?std::function', cls):
            v = ev(obj)
            if v[0] == 'obj': v = self.read(st, v[1])
            if n == 'operator bool': return has(v)
            if n == 'operator()':
                pts = signature(cls)
                if len(pts) != len(A): pts = [a.get('t', '') + (' &' if a['k'] in ('Ref', 'Mem') and not self.valuetype(a.get('t', '')) else '') for a in A]
                vs = [self.arg(a, st, fr, {'t': t}) for a, t in zip(A, pts)]
                if v[0] == 'lam': return self.call_lambda(v, vs, st, fr, e)
                if v[0] == 'fnref' and len(v) > 2 and v[2] in self.p.fns: return self.do_call(self.p.fns[v[2]], None, vs, e, st, fr)
                self.ncall += 1
                r = ('ret', self.ncall, 'functor')
                if unsigned(e.get('t', '')) and not e['t'].startswith('bool'): terms.NONNEG.add(r)
                self.callinfo[r] = dict(fn='functor', args=vs, callee=v)
                self.event('icall', st, callee=v, args=vs, result=r)
                for i, (a, t) in enumerate(zip(vs, pts)):
                    if a[0] == 'ref' and not t.startswith('const ') and t.endswith('&') and not t.endswith('&&'): self.havoc(st, a[1], ('out', r, i))
                return r
        # anything else
        loc = self.lv(obj, st, fr) if not e.get('arrow') else self.deref(ev(obj), st, obj.get('t', ''))
        args = [self.arg(a, st, fr, {'t': a.get('t', '')}) for a in A]
        return self.opaque_call(q, loc, args, e, st)

    def opaque_call(self, q, this, args, e, st):
        self.ncall += 1
        r = ('ret', self.ncall, q)
        self.callinfo[r] = dict(fn=q, this=this, args=args, line=self.pos)
        self.event('call', st, fn=q, this=this if this else ('none',), args=args, result=r, id=e.get('id', ''))
        for i, a in enumerate(args):
            if a[0] == 'addr': self.havoc(st, a[1], ('out', r, i))
        if unsigned(e.get('t', '')) and not e['t'].startswith('bool'): terms.NONNEG.add(r)
        return r

    def algorithm(self, n, e, A, st, fr):
        its = []
        for a in A[:2]:
            v = self.ev(a, st, fr)
            its.append(v)
        if n in ('fill_n', 'copy_n'):
            b, cnt = its
            if b[0] == 'ref': b = self.read(st, b[1])
            val_ = self.ev(A[2], st, fr)
            self.event('fillrange', st, it=b, count=cnt, value=val_, fn=n)
            return ('void',)
        b, en = its
        if b[0] != 'it' or en[0] != 'it' or b[1] != en[1]: 
            if n == 'fill':
                self.event('fillrange', st, it=b, count=('unknown',), value=self.ev(A[2], st, fr), fn=n); return ('void',)
            return None
        cnt = sub(en[2], b[2]); cont = b[1]
        if n == 'fill':
            self.event('fillrange', st, it=b, count=cnt, value=self.ev(A[2], st, fr), fn=n); return ('void',)
        if n == 'reverse':
            self.event('reverse', st, cont=cont, first=b[2], last=en[2]); return ('void',)
        if n == 'swap_ranges':
            d = self.ev(A[2], st, fr)
            self.event('swapranges', st, cont=cont, first=b[2], last=en[2], dest=d); return ('void',)
        s = dict(k='algo:' + n, l=e.get('l', 0))
        if n in ('for_each', 'any_of', 'all_of', 'none_of', 'find_if', 'count_if', 'transform', 'accumulate'):
            f = self.ev(A[-1], st, fr) if not (n == 'accumulate' and len(A) == 3) else None
            self.nobj += 1
            acc = ('var', fr.no, 'acc%d' % self.nobj, 'acc')
            if n == 'accumulate': st.env[acc] = self.ev(A[2], st, fr)
            else: st.env[acc] = FALSE if n in ('any_of', 'none_of') else (TRUE if n == 'all_of' else num(0))
            dest = self.ev(A[2], st, fr) if n == 'transform' else None
            N0 = ('iter', self.nloop + 1)
            def body(s0, N):
                el = ('elem', cont, add(b[2], N))
                if n == 'accumulate':
                    if f is None: r = self.arith(add, self.read(s0, acc), self.read(s0, el))
                    else: r = self.callv(f, [self.read(s0, acc), ('ref', el)], s0, fr)
                    if r[0] == 'ref': r = self.read(s0, r[1])
                    self.store(s0, acc, r); return
                r = self.callv(f, [('ref', el)], s0, fr)
                if n in ('any_of', 'none_of'): self.store(s0, acc, lor(self.read(s0, acc), self.tobool(r)))
                elif n == 'all_of': self.store(s0, acc, land(self.read(s0, acc), self.tobool(r)))
                elif n == 'count_if': self.store(s0, acc, self.arith(add, self.read(s0, acc), ite(self.tobool(r), num(1), num(0))))
                elif n == 'transform' and dest is not None and dest[0] == 'it':
                    self.store(s0, ('elem', dest[1], add(dest[2], N)), r)
            # an artificial counter: N < cnt
            self.algo_loop(s, st, fr, cnt, body)
            r = self.read(st, acc)
            if n == 'none_of': r = lnot(r)
            if n == 'for_each' or n == 'transform' or n == 'find_if': return ('ret', self.ncall, n)
            return r
        return None
    def callv(self, f, args, st, fr):
        if f[0] == 'lam': return self.call_lambda(f, args, st, fr)
        if f[0] == 'fnref' and len(f) > 2 and f[2] in self.p.fns: return self.do_call(self.p.fns[f[2]], None, args, {'fn': f[1], 'args': [], 't': ''}, st, fr)
        self.ncall += 1
        r = ('ret', self.ncall, 'functor')
        self.event('icall', st, callee=f, args=args, result=r)
        return r
    def algo_loop(self, s, st, fr, cnt, body):
        # reuse the loop machinery with a synthetic range of known size
        self.nobj += 1
        cont = ('tmp', self.nobj)
        st.env[cont] = ('vec', cnt, num(0))
        v = dict(id='algo%d' % self.nobj, n='__i', t='int')
        self.loop(dict(k='RangeFor', l=s['l']), st, fr, rng=(cont, v), bodyfn=body)

def analyse(fn, **kw):
    run = {k: kw.pop(k) for k in ('this', 'args', 'guard') if k in kw}
    return Evaluator(**kw).run(fn, **run)
