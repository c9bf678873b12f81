"""G01: geometry of the observed body.  The value of every geometric function of
the oblate spheroid is extracted as a closed formula over its arguments and the
two radii, and compared with its definition (position, normal, observer and sun
as vectors) by canonical form; the intersection of a line of sight is checked
against the equation of the ellipsoid, coefficient by coefficient."""
from geometry import *

MINIMUM = {'radius and latitude formulas': 4, 'photometric cosines': 3, 'line of sight meets the body': 6, 'roots of a quadratic': 2}

def check(r):
    p = program()
    N = Names(p)
    r.part(shape, r, p, N)
    r.part(photometry, r, p, N)
    r.part(intersection, r, p, N)
    r.part(roots, r, p)

def formula(p, N, q, args, opaque=()):
    f = p.one(q)
    if len(f['params']) != len(args): raise AnalysisError('%s: %d parameters' % (q, len(f['params'])))
    E = Evaluator(opaque=NOISE | set(opaque), unroll=4); E.run(f, args=list(args))
    return f, E

KINDS = {V('lat'): 'lat', V('latg'): 'lat', V('lon'): 'lon', V('olat'): 'lat', V('olon'): 'lon', V('slat'): 'lat', V('slon'): 'lon', V('range'): 'far', V('x'): 'lat'}
def kinds(t): return KINDS.get(t)

def shape(r, p, N):
    rule = 'radius and latitude formulas'
    lat = V('lat')
    pos = positive_in(lat)
    pts = points(kinds)
    f, E = formula(p, N, BODY + '::centric_radius', [lat])
    spec = inv(sqrt(add(prod(sq(cos(lat)), power(A, -2)), prod(sq(sin(lat)), power(B, -2)))))
    decide(r, rule, f, 0, canonical_body(N, E.value), spec, pts, pos, 'distance of the surface from the centre')
    for q, k in (('graphic_latitude', prod(sq(A), power(B, -2))), ('centric_latitude', prod(sq(B), power(A, -2)))):
        f, E = formula(p, N, BODY + '::' + q, [lat])
        v = canonical_body(N, E.value)
        spec = fn('atan', mul(k, fn('tan', lat)))
        d = same(v, spec, pos, pts, 2 * math.pi)[0]
        if d == 'unknown' and all(same(g(v), g(spec), pos)[0] == 'equal' for g in (sin, cos)): r.ok(rule, f['q'], f['file'], f['line'])
        else: decide(r, rule, f, 0, v, spec, pts, pos, q.replace('_', ' '), period=2 * math.pi)
    # eccentricity, as the constructor sets it
    c = [x for x in p.fns.values() if x.get('clsq') == BODY and x.get('ctor') and 'body' in x and len(x['params']) == 3]
    if len(c) == 1:
        E = Evaluator(opaque=NOISE); E.run(c[0], args=[V('prograde'), A, B])
        final = E.final.env
        ef = [v for k, v in final.items() if k[0] == 'fld' and k[2] == N.e]
        af = [v for k, v in final.items() if k[0] == 'fld' and k[2] == N.a]
        bf = [v for k, v in final.items() if k[0] == 'fld' and k[2] == N.b]
        g = land(*E.final.guard)
        pts = points(lambda t: 'bool' if t == V('prograde') else None)
        for name, got, spec in (('eccentricity', ef, sqrt(sub(num(1), prod(sq(B), power(A, -2))))), ('equatorial radius', af, A), ('polar radius', bf, B)):
            if len(got) != 1: r.skip(rule, c[0]['q'], c[0]['file'], c[0]['line'], name + ' not found'); continue
            decide(r, rule, c[0], 0, got[0], spec, pts, pos, name)
    e2 = sub(num(1), prod(sq(B), power(A, -2)))
    for q in ('N', 'M'):
        fs = [x for x in p.q(BODY + '::' + q) if 'body' in x]
        if not fs: continue
        f, E = formula(p, N, BODY + '::' + q, [lat], {BODY + '::graphic_latitude'})
        m = {e.result: V('latg') for e in E.events if e.kind == 'call' and e.fn == BODY + '::graphic_latitude' and list(e.args) == [lat]}
        v = subst(canonical_body(N, E.value), dict(m)); v = subst(v, {ECC: sqrt(e2)})
        w = sub(num(1), mul(e2, sq(sin(V('latg')))))
        spec = mul(A, inv(sqrt(w))) if q == 'N' else prod(A, sub(num(1), e2), inv(fn('pow', w, num(Fr(3, 2)))))
        decide(r, rule, f, 0, v, spec, points(kinds), pos, 'radius of curvature ' + q)

def photometry(r, p, N):
    """mu, mu0 and cos(phase) from vectors: surface point, normal, observer and sun."""
    rule = 'photometric cosines'
    lat, lon, G, R = V('lat'), V('lon'), V('latg'), V('radius')
    pt, n = scale(R, sphere(lat, lon)), sphere(G, lon)
    obs = scale(V('range'), sphere(V('olat'), V('olon')))
    w = minus(obs, pt)
    sun = sphere(V('slat'), V('slon'))
    dist = inv(sqrt(dot(w, w)))
    specs = (('mu', ['olat', 'olon', 'lat', 'lon', 'range'], mul(dot(n, w), dist), 'cosine of the emission angle'),
             ('mu0', ['slat', 'slon', 'lat', 'lon'], dot(n, sun), 'cosine of the incidence angle'),
             ('cos_phase', ['olat', 'olon', 'slat', 'slon', 'lat', 'lon', 'range'], mul(dot(sun, w), dist), 'cosine of the phase angle'))
    real = {R: inv(sqrt(add(prod(sq(cos(lat)), power(A, -2)), prod(sq(sin(lat)), power(B, -2))))), G: fn('atan', prod(sq(A), power(B, -2), fn('tan', lat)))}
    pos = positive_in(lat)
    CR, GL = BODY + '::centric_radius', BODY + '::graphic_latitude'
    for q, names, spec, what in specs:
        f, E = formula(p, N, BODY + '::' + q, [V(x) for x in names], {CR, GL})
        m = {e.result: {CR: R, GL: G}[e.fn] for e in E.events if e.kind == 'call' and e.fn in (CR, GL) and list(e.args) == [lat]}
        v = canonical_body(N, subst(E.value, m))
        if not any(x[0] == 'ret' for x in atoms(v)) and same(v, spec, pos)[0] == 'equal': r.ok(rule, f['q'], f['file'], f['line']); continue
        f, E = formula(p, N, BODY + '::' + q, [V(x) for x in names])
        decide(r, rule, f, 0, canonical_body(N, E.value), subst(spec, real), points(kinds), lambda g: False, what)

def components(p, t, name):
    """elements of the vector argument `name`, as V(name0..2)"""
    m = {}
    for a in atoms(t):
        if a[0] == 'init' and a[1][0] == 'elem' and is_num(a[1][2]) and root(a[1]) == V(name): m[a] = V('%s%d' % (name, int(a[1][2][1])))
    return subst(t, m)

def intersection(r, p, N):
    rule = 'line of sight meets the body'
    q = BODY + '::ellipse_intersection'
    QR = 'MaRC::quadratic_roots'
    f = p.one(q)
    args = [('ref', V('o')), ('ref', V('d')), ('ref', V('lat_out')), ('ref', V('lon_out'))]
    o, d = [V('o%d' % i) for i in range(3)], [V('d%d' % i) for i in range(3)]
    W = [power(A, -2), power(A, -2), power(B, -2)]
    qa, qb, qc = dot([mul(w, x) for w, x in zip(W, d)], d), mul(num(2), dot([mul(w, x) for w, x in zip(W, o)], d)), sub(dot([mul(w, x) for w, x in zip(W, o)], o), num(1))
    fix_ = lambda t: components(p, components(p, canonical_body(N, t), 'o'), 'd')
    def line(env, dd, rnd):
        # an observer outside the body looking at it
        u = [rnd.uniform(-1, 1) for _ in range(3)]; m = math.sqrt(sum(x * x for x in u))
        for i in range(3): dd[o[i]] = 10 * u[i] / m
        for i in range(3): dd[d[i]] = -dd[o[i]] + rnd.uniform(-.5, .5)
    pts = points(lambda t: None, 12, line)
    E = Evaluator(opaque=NOISE | {QR}, unroll=4); E.run(f, args=args)
    calls = [e for e in E.events if e.kind == 'call' and e.fn == QR]
    if len(calls) == 1:
        got = [fix_(x) for x in calls[0].args[:3]]
        # the same quadratic, up to a common factor
        ratio = None
        for name, g, s in (('quadratic term', got[0], qa), ('linear term', got[1], qb), ('constant term', got[2], qc)):
            lhs, rhs = (mul(g, qa), mul(s, got[0])) if name != 'quadratic term' else (g, mul(s, mul(g, inv(qa))))
            decide(r, rule, f, calls[0].line, lhs, rhs, pts, what='equation of the intersection, ' + name)
        res = calls[0].result
        for st, v, ln in E.returns:
            if st.dead: continue
            ok = v == num(0)
            if ok and satisfiable(land(*(tuple(st.guard) + (lnot(res),)))): r.bad(rule, f['q'], f['file'], ln, 'an intersection is reported although there is none', q + ':none')
            elif ok: r.ok(rule, f['q'], f['file'], ln)
    # position of the intersection, everything expanded
    E = Evaluator(opaque=NOISE, unroll=4); E.run(f, args=args)
    disc = sqrt(sub(sq(qb), prod(num(4), qa, qc)))
    k = prod(sub(neg(qb), disc), num(Fr(1, 2)), inv(qa))          # the nearer one
    P = [add(x, mul(k, y)) for x, y in zip(o, d)]
    specs = {'lat_out': fn('atan2', P[2], fn('hypot', P[0], P[1])), 'lon_out': fn('atan2', P[0], neg(P[1]))}
    for nm, spec in specs.items():
        v = E.final.env.get(V(nm))
        if v is None: r.skip(rule, f['q'], f['file'], f['line'], nm); continue
        v = fix_(v)
        got = [same(x, spec, lambda g: False, pts, 2 * math.pi, prove=False) for x in [v]][0]
        bad = got[0] == 'differ'
        if bad: r.bad(rule, f['q'], f['file'], f['line'], '%s of the intersection is %.9g where the nearer point of the body on the line has %.9g' % (nm[:3], got[1][0], got[1][1]), q + ':' + nm)
        elif len(calls) == 1: r.ok(rule, f['q'], f['file'], f['line'])
        else: r.skip(rule, f['q'], f['file'], f['line'], nm)

def roots(r, p):
    """quadratic_roots: both values are roots; none is claimed for a negative discriminant."""
    rule = 'roots of a quadratic'
    f = p.one('MaRC::quadratic_roots')
    a, b, c = V('qa'), V('qb'), V('qc')
    E = Evaluator(opaque=NOISE); E.run(f, args=[a, b, c, ('ref', V('roots'))])
    disc = sub(sq(b), prod(num(4), a, c))
    vals = {}
    for k, v in E.final.env.items():
        if k[0] == 'fld' and k[1] == V('roots'): vals[k[2]] = v
    def fix(env, d, rnd):
        while True:
            x, y, z = rnd.uniform(.5, 2) * rnd.choice((1, -1)), rnd.uniform(-4, 4), rnd.uniform(-2, 2)
            if y * y - 4 * x * z > .1: break
        d[a], d[b], d[c] = x, y, z
    pts = points(lambda t: None, 16, fix)
    s = sqrt(disc)
    for n, v in sorted(vals.items()):
        worst = None
        for env in pts:
            try: x = value(v, env)
            except (Unknown, ValueError, ZeroDivisionError, OverflowError) as e: worst = 'skip'; break
            e = env(a) * x * x + env(b) * x + env(c)
            if abs(e) > 1e-7: worst = (x, e)
        if worst == 'skip': r.skip(rule, f['q'], f['file'], f['line'], n); continue
        if worst: r.bad(rule, f['q'], f['file'], f['line'], '%s is %.9g, which is not a root (a x^2 + b x + c = %.3g)' % (n, worst[0], worst[1]), f['q'] + ':' + n); continue
        F = Field()
        good = 0
        for g, leaf in cases(v, minmax=False):
            try:
                x = F.of(leaf)
                good += F.equal(F.add(F.add(F.mul(F.of(a), F.power(x, 2)), F.mul(F.of(b), x)), F.of(c)), F.num(0))
            except Unknown: pass
        if good: r.ok(rule, f['q'], f['file'], f['line'])
        else: r.skip(rule, f['q'], f['file'], f['line'], n)
    if len(vals) == 2:
        x, y = [vals[k] for k in sorted(vals)]
        for env in pts:
            try: u, w = value(x, env), value(y, env)
            except (Unknown, ValueError, ZeroDivisionError, OverflowError): break
            if abs(u - w) < 1e-6: r.bad(rule, f['q'], f['file'], f['line'], 'the same root is given twice', f['q'] + ':twice'); break
        else: r.ok(rule, f['q'], f['file'], f['line'])
    for st, v, ln in E.returns:
        if st.dead: continue
        for g, leaf in cases(v):
            if leaf != TRUE: continue
            env_bad = land(*(tuple(st.guard) + tuple(g) + (cmp('<', disc, num(0), False),)))
            r.check(not satisfiable(env_bad), rule, f['q'], f['file'], ln, 'roots are claimed for a negative discriminant', f['q'] + ':real')
