"""Terms, vectors and sample points for the geometry rules (G01-G03)."""
import random
from rulelib import *
from algebra import *

BODY = 'MaRC::OblateSpheroid'
THIS = ('deref', ('v', 'this'))
PI = ('k', 'pi')
def V(n): return ('v', n)
def fn(f, *x): return ('call', f, tuple(x))
def sin(x): return fn('sin', x)
def cos(x): return fn('cos', x)
def sqrt(x): return fn('sqrt', x)
def inv(x): return power(x, -1)
def sq(x): return power(x, 2)
def tot(*x):
    r = num(0)
    for y in x: r = add(r, y)
    return r
def prod(*x):
    r = num(1)
    for y in x: r = mul(r, y)
    return r
def sphere(lat, lon): return [mul(cos(lat), cos(lon)), mul(cos(lat), sin(lon)), sin(lat)]
def dot(u, v): return tot(*[mul(a, b) for a, b in zip(u, v)])
def scale(k, u): return [mul(k, x) for x in u]
def minus(u, v): return [sub(a, b) for a, b in zip(u, v)]
def matvec(m, v): return [dot(row, v) for row in m]
def matmat(a, b): return [[dot(row, [b[k][j] for k in range(3)]) for j in range(3)] for row in a]
def transposed(m): return [[m[j][i] for j in range(3)] for i in range(3)]
# the rotations of the code's convention (coordinate rotations)
def rx(t): return [[num(1), num(0), num(0)], [num(0), cos(t), sin(t)], [num(0), neg(sin(t)), cos(t)]]
def ry(t): return [[cos(t), num(0), neg(sin(t))], [num(0), num(1), num(0)], [sin(t), num(0), cos(t)]]
def rz(t): return [[cos(t), sin(t), num(0)], [neg(sin(t)), cos(t), num(0)], [num(0), num(0), num(1)]]

class Names:
    """The fields behind the accessors of the body."""
    def __init__(s, p):
        s.p = p
        s.a, s.b = getter_field(p, BODY + '::eq_rad'), getter_field(p, BODY + '::pol_rad')
        s.e = getter_field(p, BODY + '::first_eccentricity')
    def body(s, loc): return ('init', ('fld', loc, s.a)), ('init', ('fld', loc, s.b)), ('init', ('fld', loc, s.e))
    def role(s, t):
        """'a', 'b', 'e' for a term that is a radius or the eccentricity of any body"""
        if t[0] == 'init' and t[1][0] == 'fld': return {s.a: 'a', s.b: 'b', s.e: 'e'}.get(t[1][2])
        return None

def canonical_body(N, t):
    """All reads of the radii and the eccentricity, of whatever body object, as a, b, e."""
    m = {x: V('body.' + N.role(x)) for x in atoms(t) if N.role(x)}
    return subst(t, m)

A, B, ECC = V('body.a'), V('body.b'), V('body.e')
POSITIVE = {A, B, ECC, V('range'), V('radius')}

def positive_in(*angles):
    """positivity of generators: radii, the range, and the cosine of latitudes"""
    F = Field()
    keys = {F.key(F.of(x)) for x in angles}
    def pos(g): return g[0] == 't' and g[1] in POSITIVE or g[0] == 'C' and g[1] in keys
    return pos

def points(kinds, n=12, fix=None):
    """n points; kinds: atom -> kind or None.  Kinds: lat, lon, len, far, unit, bool, int, any."""
    out = []
    for k in range(n):
        rnd = random.Random(1000 + k)
        d = {}
        a = rnd.uniform(1.5, 3.); b = a * rnd.uniform(.7, .97)
        d[A], d[B] = a, b
        d[ECC] = math.sqrt(1 - (b / a) ** 2)
        def env(t, d=d, rnd=rnd):
            if t in d: return d[t]
            kd = kinds(t)
            if kd is None: return None
            if callable(kd): v = kd(env)
            elif kd == 'lat': v = rnd.uniform(-1.3, 1.3)
            elif kd == 'lon': v = rnd.uniform(0.1, 6.2)
            elif kd == 'small': v = rnd.uniform(-.5, .5)
            elif kd == 'len': v = rnd.uniform(.5, 3.)
            elif kd == 'far': v = rnd.uniform(8, 20)
            elif kd == 'unit': v = rnd.uniform(-1, 1)
            elif kd == 'bool': v = rnd.random() < .5
            elif kd == 'int': v = rnd.randint(0, 9)
            elif kd == 'count': v = rnd.randint(10, 40)
            else: v = rnd.uniform(-2, 2)
            d[t] = v
            return v
        if fix: fix(env, d, rnd)
        out.append(env)
    return out

def decide(r, rule, f, line, code, spec, pts, pos=lambda g: False, what='', key=None, period=None):
    """Record the outcome of comparing a formula of the code with its definition."""
    v, info = same(code, spec, pos, pts, period)
    where = (f['q'], f['file'], line or f['line'])
    if v == 'equal': r.ok(rule, *where); return True
    if v == 'differ': r.bad(rule, *where, '%s: the formula in the code gives %.9g where its definition gives %.9g' % (what, info[0], info[1]), key or f['q'] + ':' + what); return False
    r.skip(rule, *where, '%s: neither proved nor refuted (%s)' % (what, info))
    return None
