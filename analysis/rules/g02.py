"""G02: map projections.  For every projection the latitude and longitude handed
to the plotter are extracted as closed formulas over the pixel's line and sample,
the map size and the constructor's arguments (the constructor's formulas for the
members are substituted), and compared with the projection's definition.  Where
the latitude is found by root finding, the equation handed to the solver and its
target value are extracted and compared instead."""
from geometry import *

MINIMUM = {'simple cylindrical': 2, 'mercator': 3, 'polar stereographic': 3, 'orthographic': 5}
RF, QR = 'MaRC::root_find', 'MaRC::quadratic_roots'
K, I, S, L, G, PRO = V('k'), V('i'), V('S'), V('L'), V('latg'), V('prograde')
HALF = num(Fr(1, 2))
DEG = mul(PI, num(Fr(1, 180)))

def check(r):
    p = program()
    for f in (cylindrical, mercator, stereographic, orthographic): r.part(f, r, p)

class Pixel:
    """The plotting call of a projection, in terms of k, i, S, L and the constructor's arguments."""
    def __init__(s, p, cls, nargs, opaque=(), prog=None, names=None):
        s.p, s.cls, s.N = p, cls, Names(p)
        s.pf = getter_field(p, 'MaRC::BodyData::prograde')
        s.f = p.one(cls + '::plot_map')
        s.E = Evaluator(opaque=NOISE | {RF} | set(opaque), unroll=4, probe={RF: [G]}); s.E.run(s.f)
        c = [x for x in p.fns.values() if x.get('clsq') == cls and x.get('ctor') and 'body' in x and len(x['params']) == nargs]
        if len(c) != 1: raise AnalysisError('%s: %d constructors with %d parameters' % (cls, len(c), nargs))
        s.c = c[0]
        args = []
        for i, x in enumerate(s.c['params']):
            n = V(names[i]) if names else V(x['n'])
            args.append(('ref', n) if x['t'].endswith('&') else n)
        s.C = Evaluator(opaque=NOISE, unroll=4); s.C.run(s.c, args=args)
        s.fields = {k[2]: v for k, v in s.C.final.env.items() if k[0] == 'fld' and k[1] == THIS}
        icalls = [e for e in s.E.events if e.kind == 'icall' and len(e.args) == 3]
        if len(icalls) != 1 or len(icalls[0].loops) != 2: raise AnalysisError('%s: the plotting call is not in a loop over lines and samples' % s.f['q'])
        s.e = icalls[0]
        s.lat, s.lon = s.term(s.e.args[0]), s.term(s.e.args[1])
        s.line = s.e.line
        s.extra = {}
        s.solver = [e for e in s.E.events if e.kind == 'call' and e.fn == RF]
    def term(s, t): return t
    def lookup(s, t):
        """what an atom of the code's formulas stands for"""
        if t[0] == 'iter': return {s.e.loops[0]: K, s.e.loops[1]: I}.get(t[1])
        if t[0] == 'get': return s.extra.get(t)
        if t[0] == 'ret': return s.extra.get(t)
        if t[0] != 'init': return None
        if t[1][0] == 'parm': return {s.f['params'][0]['n']: S, s.f['params'][1]['n']: L}.get(t[1][1])
        if t[1][0] != 'fld': return None
        if t[1][1] == THIS: return s.fields.get(t[1][2])
        if t[1][2] == s.pf: return PRO
        role = s.N.role(t)
        return V('body.' + role) if role else None
    def at(s, env): return Point(env, s.lookup)

def graphic(t): return fn('atan', prod(sq(A), power(B, -2), fn('tan', t)))
def centric(t): return fn('atan', prod(sq(B), power(A, -2), fn('tan', t)))
def ite_(c, a, b): return ('ite', c, a, b)
def pixel_points(X, n, fix):
    def k2(t):
        if t == PRO: return 'bool'
        return None
    def f2(env, d, rnd):
        d[S], d[L] = float(rnd.randint(20, 60)), float(rnd.randint(20, 60))
        d[K], d[I] = float(rnd.randint(0, int(d[L]) - 1)), float(rnd.randint(0, int(d[S]) - 1))
        d[PRO] = bool(rnd.random() < .5)
        fix(env, d, rnd)
    return [X.at(e) for e in points(k2, n, f2)]

def cylindrical(r, p):
    rule = 'simple cylindrical'
    X = Pixel(p, 'MaRC::SimpleCylindrical', 6, names=['body', 'lo_lat', 'hi_lat', 'lo_lon', 'hi_lon', 'graphic'])
    n = {x: V(x) for x in ('lo_lat', 'hi_lat', 'lo_lon', 'hi_lon', 'graphic')}
    def fix(env, d, rnd):
        d[n['graphic']] = rnd.random() < .5
        d[n['lo_lat']] = rnd.uniform(-80, 20); d[n['hi_lat']] = rnd.uniform(d[n['lo_lat']] + 10, 85)
        d[n['lo_lon']] = float(rnd.randint(0, 30) * 10)
        how = rnd.randint(0, 3)
        d[n['hi_lon']] = {0: d[n['lo_lon']] + 40, 1: d[n['lo_lon']] - 35 if d[n['lo_lon']] >= 35 else d[n['lo_lon']] + 20, 2: d[n['lo_lon']], 3: d[n['lo_lon']] + 17.5}[how]
        if how == 2 and rnd.random() < .3: d[n['lo_lon']] = d[n['hi_lon']] = 0.
    pts = pixel_points(X, 48, fix)
    lo, hi = mul(DEG, n['lo_lat']), mul(DEG, n['hi_lat'])
    def along(a, b): return add(a, prod(add(K, HALF), sub(b, a), inv(L)))
    lat = ite_(n['graphic'], centric(along(graphic(lo), graphic(hi))), along(lo, hi))
    decide(r, rule, X.f, X.line, X.lat, lat, pts, what='latitude of a pixel', period=2 * math.pi)
    lo, hi = mul(DEG, n['lo_lon']), mul(DEG, n['hi_lon'])
    lo2 = ite_(cmp('<', n['hi_lon'], n['lo_lon'], False), sub(lo, mul(num(2), PI)), lo)
    hi2 = ite_(cmp('==', n['hi_lon'], n['lo_lon'], False), add(hi, mul(num(2), PI)), hi)
    step = prod(add(I, HALF), sub_(hi2, lo2), inv(S))
    lon = ite_(PRO, sub_(hi2, step), add_(lo2, step))
    decide(r, rule, X.f, X.line, X.lon, lon, pts, what='longitude of a pixel', period=2 * math.pi)

def sub_(a, b): return fn('sub', a, b)
def add_(a, b): return fn('add', a, b)
def mul_(*x):
    r = x[0]
    for y in x[1:]: r = fn('mul', r, y)
    return r

def solved(r, rule, X, target, equation, pts, what):
    """The equation solved for the latitude: the target and the function agree with
    the definition, or are the same strictly monotonic image of it."""
    if len(X.solver) != 1 or len(X.solver[0].probe) != 1:
        r.skip(rule, X.f['q'], X.f['file'], X.line, 'the solver call is not understood'); return None
    e = X.solver[0]
    t, q = X.term(e.args[0]), X.term(e.probe[0])
    where = (X.f['q'], X.f['file'], e.line)
    v, info = same(t, q, lambda g: False, pts)
    if all(proved_at(t, target, x) and proved_at(q, equation, x) for x in pts):
        r.ok(rule, *where); r.ok(rule, *where)
    elif v == 'differ':
        r.bad(rule, *where, '%s: at the latitude of the pixel the projection equation has the value %.9g, but %.9g is solved for' % (what, info[1], info[0]), X.f['q'] + ':' + what)
    else: r.skip(rule, *where, '%s: neither proved nor refuted (%s)' % (what, info))
    # the bracket contains the solution
    if len(e.args) >= 4:
        lo, hi = X.term(e.args[1]), X.term(e.args[2])
        for env in pts:
            try: x, y, z = value(lo, env), value(G, env), value(hi, env)
            except (Unknown, ValueError, ZeroDivisionError, OverflowError, TypeError): break
            if not x <= y <= z: r.bad(rule, *where, '%s: the latitude %.6g is not between the limits %.6g and %.6g searched' % (what, y, x, z), X.f['q'] + ':bracket'); break
        else: r.ok(rule, *where)
    X.extra[e.result] = G
    return True

def proved_at(a, b, env):
    try: return prove(resolve(a, env), resolve(b, env))
    except (Unknown, ValueError, ZeroDivisionError, OverflowError, TypeError): return False

def prove(a, b, pos=lambda g: g[0] == 't'):
    F = Field(pos)
    try: return F.equal(F.of(a), F.of(b))
    except (Unknown, RecursionError): return False

def mercator(r, p):
    rule = 'mercator'
    X = Pixel(p, 'MaRC::Mercator', 1, names=['body'])
    t = mul(ECC, sin(G))
    eq = fn('log', mul(fn('tan', add(mul(PI, num(Fr(1, 4))), mul(G, HALF))), fn('pow', mul(sub(num(1), t), inv(add(num(1), t))), mul(ECC, HALF))))
    target = prod(sub(prod(num(2), add(K, HALF), inv(L)), num(1)), L, inv(S), PI)
    def fix(env, d, rnd):
        d[G] = rnd.uniform(-1.2, 1.2)
        d[K] = (value(eq, env) / (d[L] / d[S] * math.pi) + 1) / 2 * d[L] - .5
    pts = pixel_points(X, 24, fix)
    m = solved(r, rule, X, target, eq, pts, 'latitude of a line')
    if m: decide(r, rule, X.f, X.line, X.lat, centric(G), pts, what='latitude of a pixel', period=2 * math.pi)
    turn = prod(num(2), PI, add(I, HALF), inv(S))
    decide(r, rule, X.f, X.line, X.lon, ite_(PRO, neg(turn), turn), pts, what='longitude of a pixel', period=2 * math.pi)

def stereographic(r, p):
    rule = 'polar stereographic'
    X = Pixel(p, 'MaRC::PolarStereographic', 3, names=['body', 'max_lat', 'north'])
    north, ml = V('north'), V('max_lat')
    def shape(g):
        t = mul(ECC, sin(g))
        return mul(fn('tan', sub(mul(PI, num(Fr(1, 4))), mul(g, HALF))), fn('pow', mul(add(num(1), t), inv(sub(num(1), t))), mul(ECC, HALF)))
    edge = graphic(mul(DEG, ml))
    x, y = sub(add(K, HALF), mul(L, HALF)), sub(add(I, HALF), mul(S, HALF))
    def fix(env, d, rnd):
        d[north] = rnd.random() < .5
        d[ml] = rnd.choice((0., rnd.uniform(-70, 70)))
        d[G] = rnd.uniform(0, 1.4)
        th = rnd.uniform(-3, 3)
        top = math.atan((d[A] / d[B]) ** 2 * math.tan(d[ml] * math.pi / 180)) * (1 if d[north] else -1)
        def at(g): return value(subst(shape(V('z')), {V('z'): ('v', 'at')}), lambda t: g if t == V('at') else env(t))
        rho = at(d[G]) / at(top) * min(d[S], d[L]) / 2
        d[K] = rho * math.cos(th) + d[L] / 2 - .5; d[I] = rho * math.sin(th) + d[S] / 2 - .5
    pts = pixel_points(X, 48, fix)
    if len(X.solver) != 1 or len(X.solver[0].probe) != 1: r.skip(rule, X.f['q'], X.f['file'], X.line, 'the solver call is not understood'); return
    e = X.solver[0]
    t, q = X.term(e.args[0]), X.term(e.probe[0])
    coeff = V('coeff')
    v, info = same(t, q, lambda g: False, pts)
    where = (X.f['q'], X.f['file'], e.line)
    if v == 'differ': r.bad(rule, *where, 'at the latitude of the pixel the projection equation has the value %.9g, but %.9g is solved for' % (info[1], info[0]), X.f['q'] + ':equation')
    else:
        # target / equation(g) is  2 hypot / min(S, L) * shape(edge) / shape(g), region by region
        ok = True
        for env in pts:
            try: a = resolve(mul_(t, shape(G)), env); b = resolve(mul_(q, num(2), fn('hypot', x, y), inv(fn('min', S, L)), ite_(north, shape(edge), shape(neg(edge)))), env)
            except (Unknown, ValueError, ZeroDivisionError, OverflowError, TypeError): ok = False; break
            if not prove(a, b): ok = False; break
        if ok: r.ok(rule, *where)
        else: r.skip(rule, *where, 'neither proved nor refuted (%s)' % info)
    if len(e.args) >= 4:
        lo, hi = X.term(e.args[1]), X.term(e.args[2])
        bad = [env for env in pts if not value(lo, env) <= value(G, env) <= value(hi, env)]
        r.check(not bad, rule, *where, 'the latitude is not between the limits searched', X.f['q'] + ':bracket')
    X.extra[e.result] = G
    decide(r, rule, X.f, X.line, X.lat, centric(ite_(north, G, neg(G))), pts, what='latitude of a pixel', period=2 * math.pi)
    ccw = lor(land(north, PRO), land(lnot(north), lnot(PRO)))
    decide(r, rule, X.f, X.line, X.lon, fn('atan2', ite_(ccw, y, neg(y)), x), pts, what='longitude of a pixel', period=2 * math.pi)

def orthographic(r, p):
    rule = 'orthographic'
    X = Pixel(p, 'MaRC::Orthographic', 6, opaque={QR}, names=['body', 'olat', 'olon', 'pa', 'km', 'center'])
    olat, olon, pa, km = V('olat'), V('olon'), V('pa'), V('km')
    calls = [e for e in X.E.events if e.kind == 'call' and e.fn == QR]
    if len(calls) != 1: raise AnalysisError('%s: %d quadratic equations' % (X.f['q'], len(calls)))
    e = calls[0]
    rec = p.records.get('MaRC::OrthographicCenter') or {}
    names = [x['n'] for x in rec.get('fields', [])]
    if len(names) != 3: raise AnalysisError('OrthographicCenter: fields %s' % names)
    C = {n: ('init', ('fld', V('center'), n)) for n in names}
    g_, c1, c2 = [C[n] for n in names]
    code = dict(zip(('DEFAULT_CENTER', 'CENTER_GIVEN', 'LAT_LON_GIVEN'), mode_numbers(p)))
    r1, r2 = V('r1'), V('r2')
    out = {}
    for a in set(x for t in (X.e.args[0], X.e.args[1]) for x in atoms(t)):
        if a[0] == 'get' and a[1] == ('out', e.result, 3): out[a] = {'first': r1, 'second': r2}.get(a[2])
    if set(out.values()) != {r1, r2}: r.skip(rule, X.f['q'], X.f['file'], X.line, 'the roots are not used as expected'); return
    X.extra.update(out)
    lat, lon = X.lat, X.lon
    coef = [X.term(a) for a in e.args[:3]]
    def fix_for(mode, polar):
        def fix(env, d, rnd):
            d[olat] = rnd.choice((90., -90.)) if polar else rnd.uniform(-60, 60)
            d[olon] = rnd.uniform(-170, 340)
            d[pa] = rnd.uniform(-170, 170)
            d[km] = rnd.choice((-1., .3, .05))
            d[g_] = float(code[mode])
            if mode == 'LAT_LON_GIVEN':
                d[c1] = (d[olat] * .6 if polar else max(-80, min(80, d[olat] + rnd.uniform(-30, 30)))); d[c2] = (d[olon] + rnd.uniform(-30, 30)) % 360
            else: d[c1] = rnd.uniform(1, 60); d[c2] = rnd.uniform(1, 60)
            d[r1], d[r2] = rnd.uniform(-3, -.5), rnd.uniform(-3, -.5)
        return fix
    y = V('y')
    for mode in sorted(code):
        for polar in (False, True):
            pts = pixel_points(X, 16, fix_for(mode, polar))
            tag = '%s%s' % (mode.lower().replace('_', ' '), ', polar' if polar else '')
            scale_ = ite_(cmp('<', num(0), km, False), km, fn('div', prod(num(Fr(20, 9)), A), fn('min', S, L)))
            sl, so = (ite_(cmp('<', num(0), olat, False), mul(PI, HALF), neg(mul(PI, HALF))), num(0)) if polar else (mul(DEG, olat), mul(DEG, olon))
            PA = mul(DEG, pa)
            i0, k0, ox, oz = S, L, num(0), num(0)
            ccw = lor(land(cmp('<', num(0), olat, False), PRO), land(cmp('<', olat, num(0), False), lnot(PRO)))
            if mode == 'LAT_LON_GIVEN':
                # image coordinates of the point to be shown at the centre
                la, lo = mul(DEG, c1), mul(DEG, c2)
                rad = inv(sqrt(add(prod(sq(cos(la)), power(A, -2)), prod(sq(sin(la)), power(B, -2)))))
                if not polar:
                    sh = fn('sub', so, lo)
                    P = [mul_(rad, cos(la), sin(sh), ite_(PRO, num(1), num(-1))), mul_(num(-1), rad, cos(la), cos(sh)), mul(rad, sin(la))]
                    im = lmatvec(ry(PA), lmatvec(rx(neg(sl)), P))
                    ox, oz = im[0], im[2]
                else:
                    # longitude lo lies at angle lo from the vertical, on the side of ccw
                    ox, oz = mul_(rad, cos(la), sin(lo), ite_(ccw, num(1), num(-1))), mul_(rad, cos(la), cos(lo))
            if mode == 'CENTER_GIVEN': x0, z0 = fn('mul', sub(add(I, HALF), c1), scale_), fn('mul', sub(add(K, HALF), c2), scale_)
            else: x0, z0 = add_(fn('mul', sub(add(I, HALF), mul(S, HALF)), scale_), ox), add_(fn('mul', sub(add(K, HALF), mul(L, HALF)), scale_), oz)
            if not polar:
                im = [add_(mul_(cos(PA), x0), mul_(sin(PA), z0)), None, add_(mul_(neg(sin(PA)), x0), mul_(cos(PA), z0))]     # rotated by -PA about the line of sight
            else: im = [x0, None, z0]
            near = fn('min', r1, r2)
            b = lmatvec(rx(sl), [im[0], near, im[2]])
            slat = fn('atan2', b[2], fn('hypot', b[0], b[1]))
            if polar: slon = fn('atan2', mul_(ite_(ccw, num(1), num(-1)), x0), z0)
            else: slon = ite_(PRO, sub_(so, fn('atan2', b[0], fn('neg', b[1]))), add_(so, fn('atan2', b[0], fn('neg', b[1]))))
            decide(r, rule, X.f, X.line, lat, slat, pts, what='latitude of a pixel (%s)' % tag, period=2 * math.pi)
            decide(r, rule, X.f, X.line, lon, slon, pts, what='longitude of a pixel (%s)' % tag, period=2 * math.pi)
            # the point looked for is on the body
            def equations(y):
                bb = lmatvec(rx(sl), [im[0], y, im[2]])
                return (fn('sub', tot_([mul_(bb[0], bb[0], power(A, -2)), mul_(bb[1], bb[1], power(A, -2)), mul_(bb[2], bb[2], power(B, -2))]), num(1)),
                        tot_([mul_(coef[0], y, y), mul_(coef[1], y), coef[2]]))
            # the same equation up to a common factor: the ratio is the same at any two heights
            (e1, q1), (e2, q2) = equations(y), equations(num(5))
            if mode == 'LAT_LON_GIVEN':      # only the offsets of x and z differ from the other modes
                if same(mul_(q1, e2), mul_(e1, q2), points=[with_(env, y, .7) for env in pts], prove=False)[0] != 'differ': continue
            y7 = [with_(env, y, .7) for env in pts]
            if same(q1, mul_(e1, sq(A), sq(B)), points=y7)[0] == 'equal': r.ok(rule, X.f['q'], X.f['file'], e.line); continue
            decide(r, rule, X.f, e.line, mul_(q1, e2), mul_(e1, q2), [with_(env, y, .7) for env in pts], what='equation of the body (%s)' % tag)

def with_(env, k, v): return Point(lambda t: v if t == k else env.base(t), env.lookup)
def tot_(xs):
    r = xs[0]
    for x in xs[1:]: r = fn('add', r, x)
    return r
def lmatvec(m, v): return [tot_([mul_(a, b) for a, b in zip(row, v)]) for row in m]

def mode_numbers(p):
    v = {k.rsplit('::', 1)[-1]: n for k, n in enum_values(p, '_GIVEN').items()}
    if not {'CENTER_GIVEN', 'LAT_LON_GIVEN'} <= set(v): raise AnalysisError('OrthographicCenter: kinds of centre not found')
    return [next(n for n in range(99) if n not in v.values()), v['CENTER_GIVEN'], v['LAT_LON_GIVEN']]
