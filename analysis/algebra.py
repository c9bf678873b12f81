"""Deciding whether two closed-form expressions extracted from the source are
the same function.

Proof: both are brought to a canonical form, a quotient of polynomials over
generators (variables, the sine and cosine of every base angle, square roots)
modulo  sin^2 = 1 - cos^2  and  sqrt(x)^2 = x ; equal if the cross product of
the difference reduces to zero.  Sums and multiples of angles, inverse
trigonometric functions below trigonometric ones, hypot and powers are expanded.
Refutation: a point at which the two expressions have clearly different values.
Neither: the question is left undecided."""
import math, time
from fractions import Fraction as Fr
from rulelib import *

class Unknown(Exception): pass

ONE, ZERO = {(): Fr(1)}, {}

def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def mmul(a, b):
    d = dict(a)
    for g, e in b: d[g] = d.get(g, 0) + e
    return tuple(sorted(((g, e) for g, e in d.items() if e), key=repr))
def const(p): return p.get((), Fr(0)) if not p or set(p) == {()} else None

class Field:
    LIMIT = 6000
    def __init__(s, positive=lambda g: False):
        s.positive, s.deadline = positive, None
        s.memo, s.radicand = {}, {}
    # ---- polynomials modulo the relations
    def pmul(s, a, b):
        if s.deadline and time.time() > s.deadline: raise Unknown('proof took too long')
        if len(a) * len(b) > s.LIMIT * 4: raise Unknown('expression too large')
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = mmul(m, n)
                v = r.get(k, 0) + c * d
                if v: r[k] = v
                else: r.pop(k, None)
        return s.reduce(r)
    def reduce(s, p):
        while True:
            hit = None
            for m in p:
                for g, e in m:
                    if e >= 2 and g[0] in ('S', 'R') and len(g) == 2: hit = (m, g, e); break
                if hit: break
            if not hit: return p
            m, g, e = hit
            c = p.pop(m)
            rest = tuple((h, f) for h, f in m if h != g)
            if e > 2: rest = mmul(rest, ((g, e - 2),))
            sq = {(): Fr(1), ((('C', g[1]), 2),): Fr(-1)} if g[0] == 'S' else s.radicand[g]
            q = {}
            for n, d in sq.items():
                k = mmul(rest, n); q[k] = q.get(k, 0) + c * d
            p = padd(p, {k: v for k, v in q.items() if v})
            if len(p) > s.LIMIT: raise Unknown('expression too large')
    # ---- fractions
    def norm(s, f):
        n, d = f
        if not d: raise Unknown('division by zero')
        if not n: return (ZERO, ONE)
        # cancel a common monomial
        common = None
        for m in list(n) + list(d):
            m = dict(m)
            common = m if common is None else {g: min(e, m[g]) for g, e in common.items() if g in m}
            if not common: break
        if common:
            inv = tuple((g, -e) for g, e in common.items())
            n = {mmul(m, inv): c for m, c in n.items()}; d = {mmul(m, inv): c for m, c in d.items()}
        lead = d[min(d, key=repr)]
        if lead != 1: n = {m: c / lead for m, c in n.items()}; d = {m: c / lead for m, c in d.items()}
        if len(d) > 1:
            q = s.divide(n, d)
            if q is not None: return (q, ONE)
            q = s.divide(d, n) if len(n) > 1 else None
            if q is not None: return s.norm((ONE, q))
        return (n, d)
    def divide(s, n, d):
        """exact polynomial quotient n / d, or None"""
        gens = sorted({g for m in list(n) + list(d) for g, _ in m}, key=repr)
        ix = {g: i for i, g in enumerate(gens)}
        def key(m):
            v = [0] * len(gens)
            for g, e in m: v[ix[g]] = e
            return v
        dm = max(d, key=key); dk = dict(dm)
        q, n, steps = {}, dict(n), 0
        while n:
            steps += 1
            if steps > 400: return None
            m = max(n, key=key); mk = dict(m)
            if any(mk.get(g, 0) < e for g, e in dk.items()): return None
            t = mmul(m, tuple((g, -e) for g, e in dm)); c = n[m] / d[dm]
            q[t] = q.get(t, 0) + c
            n = padd(n, {mmul(t, k): c * v for k, v in d.items()}, -1)
        return q
    def add(s, a, b, k=1):
        if a[1] == b[1]: return s.norm((padd(a[0], b[0], k), a[1]))
        return s.norm((padd(s.pmul(a[0], b[1]), s.pmul(b[0], a[1]), k), s.pmul(a[1], b[1])))
    def mul(s, a, b): return s.norm((s.pmul(a[0], b[0]), s.pmul(a[1], b[1])))
    def inv(s, a):
        if not a[0]: raise Unknown('division by zero')
        return s.norm((a[1], a[0]))
    def power(s, a, e):
        if e < 0: return s.power(s.inv(a), -e)
        r = (ONE, ONE)
        for _ in range(e): r = s.mul(r, a)
        return r
    def gen(s, g): return ({((g, 1),): Fr(1)}, ONE)
    def num(s, q): return ({(): Fr(q)} if q else ZERO, ONE)
    def key(s, f): return (tuple(sorted(f[0].items(), key=repr)), tuple(sorted(f[1].items(), key=repr)))
    def equal(s, a, b): return not padd(s.pmul(a[0], b[1]), s.pmul(b[0], a[1]), -1)
    def pos(s, g): return g[0] == 'R' and len(g) == 2 or s.positive(g)
    def sqrt(s, f):
        n, d = f
        if not n: return (ZERO, ONE)
        r = s.pmul(n, d)
        out = (ONE, d)
        if len(d) > 1 or any(not s.pos(g) and e % 2 for m in d for g, e in m): out = (ONE, s.absolute(d))
        elif next(iter(d.values())) < 0: out = (ONE, {m: -c for m, c in d.items()})
        # content
        cs = list(r.values())
        g = Fr(math.gcd(*[c.numerator for c in cs]), math.lcm(*[c.denominator for c in cs]))
        if r[max(r, key=repr)] < 0 and len(r) == 1: raise Unknown('root of a negative number')
        sq = Fr(1)
        for part, up in ((g.numerator, True), (g.denominator, False)):
            k = 1
            x = part
            p = 2
            while p * p <= x and p < 1000:
                while x % (p * p) == 0: x //= p * p; k *= p
                p += 1
            y = math.isqrt(x)
            if y * y == x: k *= y
            sq = sq * k if up else sq / k
        r = {m: c / (sq * sq) for m, c in r.items()}
        den = math.lcm(*[c.denominator for c in r.values()])
        if den != 1: r = {m: c * den * den for m, c in r.items()}; sq /= den
        out = (({(): sq}), out[1])
        common = None
        for m in r:
            m = dict(m)
            common = m if common is None else {h: min(e, m[h]) for h, e in common.items() if h in m}
        take = tuple((h, e // 2) for h, e in (common or {}).items() if e >= 2 and s.pos(h))
        if take:
            r = {mmul(m, tuple((h, -2 * e) for h, e in take)): c for m, c in r.items()}
            out = ({mmul(m, take): c for m, c in out[0].items()}, out[1])
        c = const(r)
        if c == 1: return s.norm(out)
        h = ('R', tuple(sorted(r.items(), key=repr)))
        s.radicand[h] = r
        return s.mul(out, s.gen(h))
    def absolute(s, d):
        if len(d) == 1:
            (m, c), = d.items()
            out = ({(): abs(c)})
            for g, e in m:
                out = s.pmul(out, {((g, e),): Fr(1)} if s.pos(g) or e % 2 == 0 else {((('abs', g), e),): Fr(1)})
            return out
        if all(c > 0 and all(s.pos(g) or e % 2 == 0 for g, e in m) for m, c in d.items()): return d
        return {((('abs', tuple(sorted(d.items(), key=repr))), 1),): Fr(1)}
    # ---- terms
    def of(s, t):
        if t in s.memo:
            r = s.memo[t]
            if isinstance(r, Unknown): raise r
            return r
        try: r = s._of(t)
        except Unknown as e: s.memo[t] = e; raise
        s.memo[t] = r
        return r
    def _of(s, t):
        k = t[0]
        if k == 'n': return s.num(t[1])
        if k == 'p':
            r = (ZERO, ONE)
            for mono, c in t[1]:
                m = s.num(c)
                for a, e in mono: m = s.mul(m, s.power(s.of(a), e))
                r = s.add(r, m)
            return r
        if k == 'call':
            f, a = t[1], t[2]
            if f in ('mul',) and len(a) == 2: return s.mul(s.of(a[0]), s.of(a[1]))
            if f == 'div' and len(a) == 2: return s.mul(s.of(a[0]), s.inv(s.of(a[1])))
            if f in ('add', 'sub') and len(a) == 2: return s.add(s.of(a[0]), s.of(a[1]), 1 if f == 'add' else -1)
            if f == 'neg': return s.mul(s.of(a[0]), s.num(-1))
            if f in ('sin', 'cos', 'tan'):
                c, sn = s.angle(s.of(a[0]))
                return {'sin': sn, 'cos': c}[f] if f != 'tan' else s.mul(sn, s.inv(c))
            if f == 'sqrt': return s.sqrt(s.of(a[0]))
            if f == 'hypot':
                r = (ZERO, ONE)
                for x in a: r = s.add(r, s.power(s.of(x), 2))
                return s.sqrt(r)
            if f == 'pow' and is_num(a[1]):
                e = a[1][1]
                if e.denominator == 1 and abs(e) <= 8: return s.power(s.of(a[0]), int(e))
                if e.denominator == 2 and abs(e) <= 4: return s.power(s.sqrt(s.of(a[0])), int(2 * e))
            if f == 'abs': return (s.absolute(s.of(a[0])[0]), s.absolute(s.of(a[0])[1])) if len(s.of(a[0])[1]) == 1 else s.gen(('fn', 'abs', (s.key(s.of(a[0])),)))
            if f in ('atan', 'asin', 'acos', 'atan2', 'log', 'exp', 'pow', 'asinh', 'atanh', 'sinh', 'cosh', 'tanh', 'cbrt'):
                g = ('fn', f, tuple(s.key(s.of(x)) for x in a))
                s.inverse = getattr(s, 'inverse', {}); s.inverse[g] = [s.of(x) for x in a]
                if f == 'exp' and len(s.of(a[0])[0]) == 1:
                    (m, c), = s.of(a[0])[0].items()
                    if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][:2] == ('fn', 'log') and const(s.of(a[0])[1]) == 1: return s.inverse[m[0][0]][0]
                return s.gen(g)
        if k == 'ite': raise Unknown('conditional value')
        return s.gen(('t', t))
    def angle(s, f):
        """(cos, sin) of a fraction"""
        n, d = f
        if const(d) is None:
            if len(n) == 1 and len(d) == 1: return s.gen(('C', s.key(f))), s.gen(('S', s.key(f)))
            parts = [(({m: Fr(1)}, d), c) for m, c in n.items()] if len(d) == 1 else None
            if parts is None: return s.gen(('C', s.key(f))), s.gen(('S', s.key(f)))
            parts = [(s.norm(x), c) for x, c in parts]
        else:
            k = const(d)
            parts = [(({m: Fr(1)}, ONE), c / k) for m, c in n.items()]
        c, sn = s.num(1), s.num(0)
        for x, q in parts:
            c2, s2 = s.multiple(x, q)
            c, sn = s.add(s.mul(c, c2), s.mul(sn, s2), -1), s.add(s.mul(sn, c2), s.mul(c, s2))
        return c, sn
    def multiple(s, x, q):
        PI = ('t', ('k', 'pi'))
        if x[1] == ONE and set(x[0]) == {((PI, 1),)} and (2 * q).denominator == 1:
            return [(s.num(a), s.num(b)) for a, b in ((1, 0), (0, 1), (-1, 0), (0, -1))][int(2 * q) % 4]
        if x[0] and set(x[0]) == {()} and x[1] == ONE:      # a plain number of radians
            g = s.num(q); return s.gen(('C', s.key(g))), s.gen(('S', s.key(g)))
        neg, q = q < 0, abs(q)
        deg = q * 180
        if q.denominator != 1 and deg.denominator == 1 and deg <= 6 and all(any(g == PI for g, e in m) for m in x[0]): x, q = s.mul(x, s.num(Fr(1, 180))), int(deg)      # degrees
        elif q.denominator != 1: x = s.mul(x, s.num(Fr(1, q.denominator))); q = q.numerator
        else: q = int(q)
        if q > 6: raise Unknown('large multiple of an angle')
        c1, s1 = s.base(x)
        c, sn = s.num(1), s.num(0)
        for _ in range(q): c, sn = s.add(s.mul(c, c1), s.mul(sn, s1), -1), s.add(s.mul(sn, c1), s.mul(c, s1))
        return c, (s.mul(sn, s.num(-1)) if neg else sn)
    def base(s, x):
        if x[1] == ONE and len(x[0]) == 1:
            (m, c), = x[0].items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'fn':
                f, a = m[0][0][1], s.inverse[m[0][0]]
                one = s.num(1)
                if f == 'atan':
                    h = s.sqrt(s.add(one, s.power(a[0], 2)))
                    return s.inv(h), s.mul(a[0], s.inv(h))
                if f == 'asin': return s.sqrt(s.add(one, s.power(a[0], 2), -1)), a[0]
                if f == 'acos': return a[0], s.sqrt(s.add(one, s.power(a[0], 2), -1))
                if f == 'atan2':
                    h = s.sqrt(s.add(s.power(a[0], 2), s.power(a[1], 2)))
                    return s.mul(a[1], s.inv(h)), s.mul(a[0], s.inv(h))
        k = s.key(x)
        return s.gen(('C', k)), s.gen(('S', k))

# ---------------------------------------------------------------- points
def real(q):
    try: return float(q)
    except OverflowError: return math.inf if q > 0 else -math.inf

class Point:
    """A point: values of the variables, and definitions (lookup) of derived ones."""
    def __init__(s, base, lookup=lambda t: None): s.base, s.lookup, s.memo = base, lookup, {}
    def __call__(s, t):
        d = s.lookup(t)
        if d is not None: return truth(d, s) if is_bool(d) and d[0] != 'v' and d[0] != 'n' else value(d, s)
        return s.base(t)

def resolve(t, env):
    """The term with every conditional, min, max and abs replaced by the branch taken
    at the point: valid on the whole region where the same branches are taken."""
    k = t[0]
    if k == 'ite': return resolve(t[2] if truth(t[1], env) else t[3], env)
    if k == 'call':
        if t[1] in ('min', 'max') and len(t[2]) == 2:
            a, b = t[2]
            x, y = value(a, env), value(b, env)
            return resolve(a if (x <= y) == (t[1] == 'min') else b, env)
        if t[1] == 'abs': return resolve(t[2][0], env) if value(t[2][0], env) >= 0 else neg(resolve(t[2][0], env))
        if t[1] in ('mul', 'add', 'sub'):
            a, b = [resolve(x, env) for x in t[2]]
            return {'mul': mul, 'add': add, 'sub': sub}[t[1]](a, b)
        return ('call', t[1], tuple(resolve(x, env) for x in t[2]))
    if k == 'p':
        r = num(0)
        for mono, c in t[1]:
            m = ('n', c)
            for a, e in mono: m = mul(m, power(resolve(a, env), e))
            r = add(r, m)
        return r
    d = env.lookup(t) if isinstance(env, Point) else None
    return t if d is None else resolve(d, env)

def value(t, env):
    """The value of a term at a point; env(atom) gives the variables."""
    if not isinstance(env, Point) or t[0] not in ('p', 'ite', 'call'): return value_(t, env)
    m = env.memo.get(id(t))
    if m is None:
        m = env.memo[id(t)] = (t, value_(t, env))
    return m[1]

def value_(t, env):
    k = t[0]
    if k == 'n': return real(t[1])
    if t == ('k', 'pi'): return math.pi
    if k == 'fc': return float(t[1])
    if k == 'p':
        r = 0.
        for mono, c in t[1]:
            m = real(c)
            for a, e in mono: m *= value(a, env) ** e
            r += m
        return r
    if k == 'ite': return value(t[2] if truth(t[1], env) else t[3], env)
    if is_bool(t) and k in ('cmp', 'and', 'or', '!', 'b', 'isnan'): return 1. if truth(t, env) else 0.
    if k == 'call':
        a = [value(x, env) for x in t[2]]
        f = t[1]
        if f == 'mul': return a[0] * a[1]
        if f == 'div': return a[0] / a[1]
        if f == 'add': return a[0] + a[1]
        if f == 'sub': return a[0] - a[1]
        if f == 'neg': return -a[0]
        if f == 'mod' or f == 'fmod': return math.fmod(a[0], a[1])
        if f == 'abs': return abs(a[0])
        if f == 'min': return min(a)
        if f == 'max': return max(a)
        if f == 'round': return math.floor(abs(a[0]) + .5) * (1 if a[0] >= 0 else -1)
        if f == 'trunc': return float(math.trunc(a[0]))
        if f == 'cbrt': return math.copysign(abs(a[0]) ** (1 / 3), a[0])
        if f in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sqrt', 'hypot', 'log', 'exp', 'pow', 'floor', 'ceil', 'sinh', 'cosh', 'tanh', 'asinh', 'atanh', 'copysign'):
            return float(getattr(math, f)(*a))
        raise Unknown('function ' + f)
    v = env(t)
    if v is None: raise Unknown('variable ' + show(t)[:60])
    return float(v)

def truth(c, env):
    k = c[0]
    if k == 'b': return c[1]
    if c == TRUE: return True
    if c == FALSE: return False
    if k == '!': return not truth(c[1], env)
    if k in ('and', 'or'):
        xs = c[1] if len(c) == 2 and isinstance(c[1], (tuple, frozenset)) and not isinstance(next(iter(c[1])), str) else c[1:]
        return (all if k == 'and' else any)(truth(x, env) for x in xs)
    if k == 'cmp' and c[2][0] != 'pair':
        v = value(c[2], env)
        return v < 0 if c[1] == '<' else v <= 0 if c[1] == '<=' else v == 0
    if k == 'cmp':
        a, b = value(c[2][1], env), value(c[2][2], env)
        return a < b if c[1] == '<' else a <= b if c[1] == '<=' else a == b
    if k == 'isnan': return math.isnan(value(c[1], env))
    if k == 'ite': return truth(c[2] if truth(c[1], env) else c[3], env)
    v = env(c)
    if v is None: raise Unknown('condition ' + show(c)[:60])
    return bool(v)

def same(a, b, positive=lambda g: False, points=(), period=None, prove=True):
    """'equal' (proved), 'differ' (with a point), or 'unknown'.  points: functions
    atom -> value.  period: values are angles, equal modulo it.  Expressions with
    conditionals are proved equal on each region (choice of branches) that the
    points meet."""
    F = Field(positive)
    F.deadline = time.time() + min(120., BUDGET[0])
    started = time.time()
    try: return same_(F, a, b, list(points), period, prove)
    finally: BUDGET[0] = max(2., BUDGET[0] - (time.time() - started))

BUDGET = [300.]         # seconds of proof effort per run; beyond it questions stay undecided

def same_(F, a, b, points, period, prove):
    done = {}
    def proved(a, b):
        if (a, b) in done: return done[a, b]
        ok = False
        if not prove: return ok
        try: ok = F.equal(F.of(a), F.of(b))
        except (Unknown, RecursionError): pass
        if not ok and period:
            try: ok = all(F.equal(F.of(('call', f, (a,))), F.of(('call', f, (b,)))) for f in ('sin', 'cos'))
            except (Unknown, RecursionError): pass
        done[a, b] = ok
        return ok
    plain = not any(isinstance(x, Point) for x in points) and not has_ite(a) and not has_ite(b)
    agree, why, regions = 0, None, set()
    for env in points:
        try: x, y = value(a, env), value(b, env)
        except (Unknown, ValueError, ZeroDivisionError, OverflowError, TypeError) as e: why = str(e); continue
        if math.isnan(x) or math.isnan(y) or math.isinf(x) or math.isinf(y): continue
        d = abs(x - y)
        if period: d = abs(math.remainder(x - y, period))
        if d > 1e-7 * max(1e-3, abs(x), abs(y)): return 'differ', (x, y)
        agree += 1
        if not plain:
            try: regions.add((resolve(a, env), resolve(b, env)))
            except (Unknown, ValueError, ZeroDivisionError, OverflowError, TypeError) as e: why = str(e); regions.add((a, b))
    if plain and proved(a, b): return 'equal', None
    if not plain and agree and all(not has_ite(x) and not has_ite(y) and proved(x, y) for x, y in regions): return 'equal', None
    return 'unknown', 'agree at %d points%s' % (agree, '' if why is None else ', ' + why)

def has_ite(t):
    return find_split(t, False) is not None
