"""G03: camera geometry.  The constructor, the setters, finalize_setup, latlon2pix,
pix2latlon and is_visible of ViewingGeometry are reduced to formulas over what
the user gives; each is compared with the perspective camera defined here from
vectors (position of the point, of the observer, direction of the pole on the
image), and the two directions with each other."""
from geometry import *

VG = 'MaRC::ViewingGeometry'
GC = 'MaRC::GeometricCorrection::'
EI = BODY + '::ellipse_intersection'
MINIMUM = {'point of the body to image position': 2, 'image position to line of sight': 3, 'longitude of the point seen': 1,
           'camera placed by body centre': 8, 'camera placed by latitude and longitude': 8,
           'visibility': 1, 'geometric correction': 3, 'rotations': 4}

def check(r):
    p = program()
    N = Names(p)
    r.part(rotations, r, p)
    r.part(corrections, r, p)
    r.part(visibility, r, p, N)
    r.part(camera, r, p, N)

# ------------------------------------------------------------------ fields set by the interface
SETTERS = {'sub_observ_lat': 'lat', 'sub_observ_lon': 'lon', 'sub_solar_lat': 'lat', 'sub_solar_lon': 'lon', 'range': 'far', 'position_angle': 'lon1',
           'km_per_pixel': 'len', 'focal_length': 'len', 'scale': 'len', 'body_center_sample': 'pix', 'body_center_line': 'pix',
           'lat_at_center': 'lat', 'lon_at_center': 'lon', 'optical_axis_sample': 'pix', 'optical_axis_line': 'pix'}

class Camera:
    def __init__(s, p, N):
        s.p, s.N = p, N
        s.prograde = getter_field(p, 'MaRC::BodyData::prograde')
        c = [f for f in p.fns.values() if f.get('clsq') == VG and f.get('ctor') and 'body' in f and len(f['params']) == 1 and not f.get('copymove')]
        if len(c) != 1: raise AnalysisError('constructor of ViewingGeometry not found')
        E = Evaluator(opaque=NOISE); E.run(c[0], args=[V('body')])
        s.initial = s.fields(E)
        s.set = {}
        for n in SETTERS:
            f = p.one(VG + '::' + n)
            E = Evaluator(opaque=NOISE); E.run(f, args=[V('in.' + n)])
            s.set[n] = (f, s.fields(E))
        f = s.setup = p.one(VG + '::finalize_setup')
        E = Evaluator(opaque=NOISE, unroll=4, let=True); E.run(f, args=[V('in.samples'), V('in.lines')])
        s.final = s.fields(E)
        # the first reading in finalize_setup of what it sets later is the value before it
        s.final = {k: s.clean(s.pre(v)) for k, v in s.final.items()}
        s.defs = {k: s.clean(s.pre(v)) for k, v in E.defs.items()}
        s.initial = {k: s.clean(v) for k, v in s.initial.items()}
        s.set = {n: (f, {k: s.clean(v) for k, v in fl.items()}) for n, (f, fl) in s.set.items()}
        s.E = E
    def fields(s, E):
        return {k: v for k, v in E.final.env.items() if root(k) == THIS}
    def pre(s, t):
        m = {x: ('pre', x[1]) for x in atoms(t) if x[0] == 'init' and root(x[1]) == THIS and not s.bodyread(x)}
        return subst(canonical_body(s.N, t), m)
    def bodyread(s, x):
        return s.N.role(x) or x[1][0] == 'fld' and x[1][2] == s.prograde
    def clean(s, t):
        m = {x: V('in.prograde') for x in atoms(t) if x[0] == 'init' and x[1][0] == 'fld' and x[1][2] == s.prograde}
        return subst(canonical_body(s.N, t), m)
    def point(s, base, given):
        """A camera with the given settings: base values of 'in.*', definitions of fields."""
        set_ = {}
        for n in given:
            set_.update(s.set[n][1])
        def lookup(t):
            if t[0] == 'def': return s.defs[t]
            if t[0] == 'init':
                if t[1] in s.final: return s.final[t[1]]
                if s.N.role(t): return canonical_body(s.N, t)
                if t[1][0] == 'fld' and t[1][2] == s.prograde: return V('in.prograde')
                if root(t[1]) == THIS: return ('pre', t[1])
            if t[0] == 'pre':
                if t[1] in set_: return set_[t[1]]
                if t[1] in s.initial: return s.initial[t[1]]
            return None
        return Point(base, lookup)

def root(k):
    while k[0] in ('fld', 'elem'): k = k[1]
    return k

def settings(k, which, kd):
    """one set of values given by a user; which: settings used"""
    rnd = random.Random(77 * k + 5)
    d = {}
    a = rnd.uniform(1.5, 3.); b = a * rnd.uniform(.7, .97)
    d[A], d[B], d[ECC] = a, b, math.sqrt(1 - (b / a) ** 2)
    d[V('in.prograde')] = k % 2 == 0
    d[V('in.samples')], d[V('in.lines')] = rnd.randint(300, 500), rnd.randint(200, 400)
    for n, kind in SETTERS.items():
        d[V('in.' + n)] = {'lat': rnd.uniform(-1., 1.), 'lon': rnd.uniform(.1, 6.2), 'far': rnd.uniform(15, 30), 'lon1': rnd.uniform(-3, 3), 'len': rnd.uniform(.5, 3), 'pix': rnd.uniform(100, 300)}[kind]
    d[V('in.km_per_pixel')] = rnd.uniform(.005, .02)
    d[V('in.focal_length')] = rnd.uniform(20., 60.); d[V('in.scale')] = rnd.uniform(30., 60.)
    # a point on the near side
    d[V('lat')] = d[V('in.sub_observ_lat')] * .8 + rnd.uniform(-.3, .3)
    d[V('lon')] = d[V('in.sub_observ_lon')] + rnd.uniform(-.6, .6)
    d[V('in.lat_at_center')] = d[V('in.sub_observ_lat')] * .8 + rnd.uniform(-.3, .3)
    d[V('in.lon_at_center')] = d[V('in.sub_observ_lon')] + rnd.uniform(-.6, .6)
    d[V('s')], d[V('l')] = rnd.uniform(100, 300), rnd.uniform(100, 300)
    for n, kind in SETTERS.items():         # angles are given in degrees
        if kind in ANGLES: d[V('in.' + n)] = math.degrees(d[V('in.' + n)])
    return d
ANGLES = ('lat', 'lon', 'lon1')

def vec(x): return list(x)
def dotn(u, v): return sum(a * b for a, b in zip(u, v))
def norm(u): return math.sqrt(dotn(u, u))
def unit(u): return [a / norm(u) for a in u]
def cross(u, v): return [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
def lin(*t): return [sum(k * v[i] for k, v in t) for i in range(3)]

class Model:
    """The camera as defined by what the user gives (oracle)."""
    def __init__(m, d, given):
        g = lambda n: math.radians(d[V('in.' + n)]) if SETTERS[n] in ANGLES else d[V('in.' + n)]
        m.a, m.b, m.pro = d[A], d[B], d[V('in.prograde')]
        sl, R = g('sub_observ_lat'), g('range')
        m.slon = g('sub_observ_lon')
        m.oas = g('optical_axis_sample') if 'optical_axis_sample' in given else d[V('in.samples')] / 2
        m.oal = g('optical_axis_line') if 'optical_axis_line' in given else d[V('in.lines')] / 2
        m.rb = [0., -R * math.cos(sl), R * math.sin(sl)]
        PA = g('position_angle')
        f = g('focal_length') * g('scale') if 'km_per_pixel' not in given else None
        km = g('km_per_pixel') if 'km_per_pixel' in given else None
        if 'lat_at_center' not in given:
            m.sc, m.lc = g('body_center_sample'), g('body_center_line')
            if km is None: km = R / math.sqrt((m.oas - m.sc) ** 2 + (m.oal - m.lc) ** 2 + f * f)
            ro = [(m.oas - m.sc) * km, 0., (m.lc - m.oal) * km]
            h2 = R * R - dotn(ro, ro)
            if h2 <= 0: raise ValueError('body out of reach')
            m.normal = math.sqrt(h2)
            ro[1] = -m.normal
            # pole on the image: (-sin PA c, s, cos PA c) with c > 0, at the sub-observer latitude from ro
            u = unit(ro)
            P, Q = -math.sin(PA) * u[0] + math.cos(PA) * u[2], u[1]
            h = math.hypot(P, Q); w = math.sin(sl) / h
            if abs(w) > 1: raise ValueError('no orientation')
            phi = math.atan2(Q, P)
            sols = [t for t in (phi + math.acos(w), phi - math.acos(w)) if math.cos(t) > 1e-6]
            if len(sols) != 1: raise ValueError('ambiguous orientation')
            c, s = math.cos(sols[0]), math.sin(sols[0])
            n = [-math.sin(PA) * c, s, math.cos(PA) * c]
            # body axes in camera coordinates
            ub = unit(m.rb)
            zc = n; xc = unit(cross(u, n)); xb = unit(cross(ub, [0., 0., 1.]))     # xb along the body's x axis
            yc = cross(zc, xc)
            sg = dotn(xb, [1., 0., 0.])
            xc = [sg * t for t in xc]; yc = [sg * t for t in yc]
        else:
            q = m.surface(g('lat_at_center'), g('lon_at_center'))
            ax = unit(lin((1, q), (-1, m.rb)))        # the optical axis, in body coordinates
            # camera: y along ax, pole at PA on the image
            nb = [0., 0., 1.]
            t = unit(lin((1, nb), (-dotn(nb, ax), ax)))     # pole as projected on the image
            s = cross(ax, t)                                 # right-handed: t, then to its right
            # image right x and up z: t = -sin PA x + cos PA z
            x = lin((-math.sin(PA), t), (math.cos(PA), s)); z = lin((math.cos(PA), t), (math.sin(PA), s))
            m.axes = (x, ax, z)
            ro = [dotn(m.rb, e) for e in m.axes]
            m.normal = -ro[1]
            if km is None: km = m.normal / f
            m.sc, m.lc = m.oas - ro[0] / km, m.oal + ro[2] / km
            xc = [e[0] for e in m.axes]; yc = [e[1] for e in m.axes]; zc = [e[2] for e in m.axes]
        m.km, m.f = km, m.normal / km
        m.cam = lambda v: lin((v[0], xc), (v[1], yc), (v[2], zc))
        m.body = lambda v: [dotn(v, xc), dotn(v, yc), dotn(v, zc)]
    def surface(m, lat, lon):
        r = 1 / math.sqrt((math.cos(lat) / m.a) ** 2 + (math.sin(lat) / m.b) ** 2)
        l = m.slon - lon if m.pro else lon - m.slon
        return [r * math.cos(lat) * math.sin(l), -r * math.cos(lat) * math.cos(l), r * math.sin(lat)]
    def pixel(m, lat, lon):
        v = m.cam(lin((1, m.surface(lat, lon)), (-1, m.rb)))
        return m.oas + m.f * v[0] / v[1], m.oal - m.f * v[2] / v[1]
    def sight(m, s, l):
        """unit vector of the line of sight of an image position, in body coordinates"""
        return unit(m.body([s - m.oas, m.f, m.oal - l]))

CASES = [('camera placed by body centre', ['body_center_sample', 'body_center_line'], ['km_per_pixel'], []),
         ('camera placed by body centre', ['body_center_sample', 'body_center_line'], ['focal_length', 'scale'], []),
         ('camera placed by body centre', ['body_center_sample', 'body_center_line'], ['km_per_pixel'], ['optical_axis_sample', 'optical_axis_line']),
         ('camera placed by body centre', ['body_center_sample', 'body_center_line'], ['focal_length', 'scale'], ['optical_axis_sample', 'optical_axis_line']),
         ('camera placed by latitude and longitude', ['lat_at_center', 'lon_at_center'], ['km_per_pixel'], []),
         ('camera placed by latitude and longitude', ['lat_at_center', 'lon_at_center'], ['focal_length', 'scale'], []),
         ('camera placed by latitude and longitude', ['lat_at_center', 'lon_at_center'], ['km_per_pixel'], ['optical_axis_sample', 'optical_axis_line']),
         ('camera placed by latitude and longitude', ['lat_at_center', 'lon_at_center'], ['focal_length', 'scale'], ['optical_axis_sample', 'optical_axis_line'])]

def close(x, y, tol=1e-6): return abs(x - y) <= tol * max(1., abs(x), abs(y))

def camera(r, p, N):
    C = Camera(p, N)
    fwd = Forward(p, C)
    bwd = Backward(p, C)
    fwd.structure(r)
    bwd.structure(r)
    structure(r, p, C)
    for rule, place, size, axis in CASES:
        given = ['sub_observ_lat', 'sub_observ_lon', 'range', 'position_angle'] + place + size + axis
        name = ', '.join(x.replace('_', ' ') for x in size + (axis and ['optical axis']))
        tally = {}
        for k in range(10):
            d = settings(k, given, None)
            try: m = Model(d, given)
            except ValueError: continue
            pt = C.point(lambda t, d=d: d.get(t), given)
            def compare(what, f, line, xs, ys, tol=1e-6):
                try: xs = [value(x, pt) if isinstance(x, tuple) else x for x in xs]
                except (Unknown, ValueError, ZeroDivisionError, OverflowError, TypeError) as e:
                    tally.setdefault((what, f['q'], f['file'], line), []).append(str(e)); return
                ok = all(close(x, y, tol) for x, y in zip(xs, ys))
                tally.setdefault((what, f['q'], f['file'], line), []).append(None if ok else (xs, ys))
            compare('image position of a point of the body', fwd.f, fwd.line, fwd.xz, m.pixel(d[V('lat')], d[V('lon')]))
            try:
                dv = unit([value(x, pt) for x in bwd.dvec])
                compare('line of sight of an image position', bwd.f, bwd.line, dv, m.sight(*[value(subst_in(bwd.inp, V(n), pt), pt) for n in ('s', 'l')]))
                compare('position of the observer', bwd.f, bwd.line, bwd.obs, m.rb)
            except (Unknown, ValueError, ZeroDivisionError, OverflowError, TypeError) as e:
                tally.setdefault(('line of sight of an image position', bwd.f['q'], bwd.f['file'], bwd.line), []).append(str(e))
        for (what, q, file, line), got in sorted(tally.items()):
            badp = [g for g in got if isinstance(g, tuple)]
            good = [g for g in got if g is None]
            if badp:
                xs, ys = badp[0]
                r.bad(rule, q, file, line, '%s (%s given): the formulas in the code give (%s) where the camera so defined gives (%s)' % (what, name, ', '.join('%.7g' % x for x in xs), ', '.join('%.7g' % y for y in ys)), '%s:%s' % (rule, what))
            elif good: r.ok(rule, q, file, line)
            else: r.skip(rule, q, file, line, '%s (%s): not evaluated (%s)' % (what, name, got[0]))

def subst_in(inp, t, pt): return t

class Forward:
    """latlon2pix: the position before the geometric correction, and the result."""
    def __init__(s, p, C):
        s.C = C
        f = s.f = p.one(VG + '::latlon2pix')
        E = s.E = Evaluator(opaque=NOISE | {VG + '::is_visible'}, unroll=4, snap={GC + 'object_to_image'})
        E.run(f, args=[V('lat'), V('lon'), ('ref', V('x')), ('ref', V('z'))])
        es = [e for e in E.events if e.kind == 'call' and 'state' in e.d]
        if len(es) != 1: raise AnalysisError('%d applications of the geometric correction in latlon2pix' % len(es))
        s.call = es[0]; s.line = es[0].line
        line, sample = [E.read(es[0].state, a[1]) if a[0] == 'ref' else a for a in es[0].args]
        s.xz = [C.clean(sample), C.clean(line)]
        s.visible = [e for e in E.events if e.kind == 'call' and e.fn == VG + '::is_visible']
    def structure(s, r):
        rule = 'point of the body to image position'
        where = (s.f['q'], s.f['file'], s.line)
        res = s.call.result
        fx, fz = [s.E.read(s.E.final, V(n)) for n in 'xz']
        want = [('out', res, 1), ('out', res, 0)]
        rets = [(st, v) for st, v, _ in s.E.returns if not st.dead]
        got = []
        for st, v in rets:
            if v == FALSE or v == num(0): continue
            if v not in (TRUE, num(1)):
                v = None
            got.append((s.E.read(st, V('x')), s.E.read(st, V('z'))))
        if not got: r.bad(rule, *where, 'no successful result', s.f['q'] + ':result')
        elif all(list(g) == want for g in got): r.ok(rule, *where)
        elif any(contains(t, lambda u: u == s.call.result) or t[0] == 'out' for g in got for t in g) and not all(contains(t, lambda u: u == res) for g in got for t in g):
            r.bad(rule, *where, 'the position returned is not the geometrically corrected one (sample %s, line %s)' % tuple(show(x)[:60] for x in got[0]), s.f['q'] + ':corrected')
        elif [tuple(reversed(g)) for g in got] == [tuple(want)] * len(got): r.bad(rule, *where, 'sample and line of the corrected position are exchanged', s.f['q'] + ':corrected')
        else: r.skip(rule, *where, 'result is not the corrected position as such')
        # only points that are visible get a position
        vis = s.visible
        ok = len(vis) >= 1 and all(list(e.args) == [V('lat'), V('lon')] for e in vis)
        if not vis: r.bad(rule, *where, 'a position is given without testing whether the point is visible', s.f['q'] + ':visible')
        elif not ok: r.bad(rule, *where, 'visibility is tested for another point (%s)' % ', '.join(show(a)[:40] for a in vis[0].args), s.f['q'] + ':visible')
        else:
            bads = [l for st, v, l in s.E.returns if not st.dead and v not in (FALSE, num(0)) and satisfiable(land(*st.guard, lnot(vis[0].result), s.E.tobool(v)))]
            if bads: r.bad(rule, s.f['q'], s.f['file'], bads[0], 'a position is given for a point that is not visible', s.f['q'] + ':visible')
            else: r.ok(rule, *where)

class Backward:
    """pix2latlon: the line of sight handed to the intersection, and the longitude."""
    def __init__(s, p, C):
        s.C = C
        f = s.f = p.one(VG + '::pix2latlon')
        E = s.E = Evaluator(opaque=NOISE | {EI}, unroll=4, snap={EI, GC + 'image_to_object'})
        E.run(f, args=[V('s'), V('l'), ('ref', V('lat')), ('ref', V('lon'))])
        es = [e for e in E.events if e.kind == 'call' and e.fn == EI]
        if len(es) != 1: raise AnalysisError('%d intersections in pix2latlon' % len(es))
        e = s.call = es[0]; s.line = e.line
        s.corr = [x for x in E.events if x.kind == 'call' and x.fn == GC + 'image_to_object']
        s.inp = None
        def vector(a):
            if a[0] != 'ref': raise AnalysisError('intersection: argument %s' % show(a))
            els = {}
            for k, v in e.state.env.items():
                if k[0] == 'elem' and under(k, a[1]): els[k[2]] = v
            if len(els) != 3:
                if root(a[1]) != THIS: raise AnalysisError('elements of the line of sight not found')
                vf = [k for k in C.final if k[0] == 'elem' and under(k, a[1])]
                return [('init', k) for k in sorted(vf, key=lambda k: k[2][1])]
            return [els[num(i)] for i in range(3)]
        def under(k, l):
            while k[0] in ('fld', 'elem'):
                if k == l: return True
                k = k[1]
            return k == l
        m = {}
        for x in s.corr:
            m[('out', x.result, 0)] = V('l'); m[('out', x.result, 1)] = V('s')
        s.obs = [C.clean(t) for t in vector(e.args[0])]
        s.dvec = [subst(C.clean(t), m) for t in vector(e.args[1])]
    def structure(s, r):
        rule = 'image position to line of sight'
        where = (s.f['q'], s.f['file'], s.line)
        if not s.corr: r.bad(rule, *where, 'the geometric correction is not applied to the position', s.f['q'] + ':correction')
        else:
            for x in s.corr:
                got = [s.E.read(x.state, a[1]) if a[0] == 'ref' else a for a in x.args]
                if got == [V('l'), V('s')]: r.ok(rule, s.f['q'], s.f['file'], x.line)
                elif got == [V('s'), V('l')]: r.bad(rule, s.f['q'], s.f['file'], x.line, 'sample and line are exchanged in the geometric correction', s.f['q'] + ':correction')
                else: r.bad(rule, s.f['q'], s.f['file'], x.line, 'the geometric correction is applied to (line %s, sample %s) instead of the position given' % tuple(show(g)[:50] for g in got), s.f['q'] + ':correction')
        raw = [t for t in s.dvec if contains(t, lambda u: u[0] in ('out',))]
        if len(s.corr) == 1 and not raw: r.ok(rule, *where)
        # reports success exactly when the line of sight meets the body
        v = s.E.value
        res = s.call.result
        okc = cmp('==', res, num(0), True)
        tv = s.E.tobool(v) if v is not None else None
        if tv is not None and contains(tv, lambda u: u == res):
            a, b = satisfiable(land(tv, lnot(okc))), satisfiable(land(okc, lnot(tv)))
            if a or b: r.bad(rule, *where, 'success is reported although the line of sight misses the body' if a else 'failure is reported although the line of sight meets the body', s.f['q'] + ':result')
            else: r.ok(rule, *where)
        else: r.skip(rule, *where, 'result not recognised')
        # longitude
        rule = 'longitude of the point seen'
        o = s.C.clean(s.E.read(s.E.final, V('lon'))); la = s.C.clean(s.E.read(s.E.final, V('lat')))
        m = {('out', res, 2): V('ilat'), ('out', res, 3): V('ilon')}
        o, la = subst(o, m), subst(la, m)
        lonf = [x for x in atoms(o) if x[0] == 'init' and root(x[1]) == THIS]
        slk = list(s.C.set['sub_observ_lon'][1])
        for k in range(8):
            d = settings(k, [], None); d[V('ilon')] = .3 + .1 * k; d[V('ilat')] = .2 - .05 * k
            d[res] = 0
            base = lambda t, d=d: d.get(t)
            slon = math.radians(d[V('in.sub_observ_lon')]); d[V('slon')] = slon
            lookup = lambda t: V('slon') if t[0] == 'init' and t[1] in slk else None
            try: got, gl = value(o, Point(base, lookup)), value(la, Point(base, lookup))
            except (Unknown, ValueError, TypeError) as e: r.skip(rule, *where, str(e)); return
            want = slon + (-d[V('ilon')] if d[V('in.prograde')] else d[V('ilon')])
            if abs(math.remainder(got - want, 2 * math.pi)) > 1e-7 or not close(gl, d[V('ilat')]):
                r.bad(rule, *where, 'on a %s body, the longitude of the point seen is %.6g for %.6g from the sub-observer longitude %.6g' % ('prograde' if d[V('in.prograde')] else 'retrograde', got, d[V('ilon')], slon), s.f['q'] + ':longitude'); return
        r.ok(rule, *where)

def structure(r, p, C):
    """What every setter stores, proved."""
    rule = 'settings'
    for n, (f, flds) in C.set.items():
        x = V('in.' + n)
        hit = [(k, v) for k, v in flds.items() if contains(v, lambda u: u == x)]
        where = (f['q'], f['file'], f['line'])
        if len(hit) != 1: r.skip(rule, *where, 'sets %d fields' % len(hit)); continue
        pts = points(lambda t: 'len' if t == x else None)
        if SETTERS[n] in ANGLES:
            pts = [lambda t, y=y: y if t == x else None for y in ((-50., -89., 0., 33., 88.) if SETTERS[n] == 'lat' else (-50., -200., -355., 0., 33., 179., 250., 359.))]
        spec = prod(x, PI, num(Fr(1, 180))) if SETTERS[n] in ANGLES else x
        decide(r, rule, f, 0, hit[0][1], spec, pts, what=n.replace('_', ' '), period=2 * math.pi if SETTERS[n] in ('lon', 'lon1') else None)
    # arc seconds per pixel
    f = p.one(VG + '::arcsec_per_pixel')
    E = Evaluator(opaque=NOISE); E.run(f, args=[V('arc')])
    kf = [k for k in C.set['km_per_pixel'][1]]; rf = [k for k in C.set['range'][1]]
    v = [v for k, v in C.fields(E).items() if k in kf]
    if len(v) == 1:
        v = subst(v[0], {('init', k): V('range') for k in rf})
        decide(r, rule, f, 0, v, prod(PI, num(Fr(1, 648000)), V('arc'), V('range')), points(lambda t: 'len' if t == V('arc') else 'far' if t == V('range') else None), what='km per pixel from arc seconds per pixel')
    f = p.one(VG + '::emi_ang_limit')
    E = Evaluator(opaque=NOISE); E.run(f, args=[V('ang')])
    v = [v for k, v in C.fields(E).items() if contains(v, lambda u: u == V('ang'))]
    if len(v) == 1:
        decide(r, rule, f, 0, v[0], cos(prod(V('ang'), PI, num(Fr(1, 180)))), points(lambda t: 'len' if t == V('ang') else None), what='cosine of the emission angle limit')

# ------------------------------------------------------------------ visibility
def visibility(r, p, N):
    rule = 'visibility'
    C = None
    f = p.one(VG + '::is_visible')
    MU, MU0 = BODY + '::mu', BODY + '::mu0'
    E = Evaluator(opaque=NOISE | {MU, MU0}); E.run(f, args=[V('lat'), V('lon')])
    fld = {}
    for n in ('sub_observ_lat', 'sub_observ_lon', 'sub_solar_lat', 'sub_solar_lon', 'range', 'emi_ang_limit', 'use_terminator'):
        g = p.one(VG + '::' + n)
        G = Evaluator(opaque=NOISE); G.run(g, args=[V('in')])
        k = [k for k, v in G.final.env.items() if root(k) == THIS and contains(v, lambda u: u == V('in'))]
        if len(k) != 1: raise AnalysisError('field of ' + n)
        fld[n] = ('init', k[0])
    where = (f['q'], f['file'], f['line'])
    mu = [e for e in E.events if e.kind == 'call' and e.fn == MU]; mu0 = [e for e in E.events if e.kind == 'call' and e.fn == MU0]
    want = [fld['sub_observ_lat'], fld['sub_observ_lon'], V('lat'), V('lon'), fld['range']]
    want0 = [fld['sub_solar_lat'], fld['sub_solar_lon'], V('lat'), V('lon')]
    for es, w, what in ((mu, want, 'emission'), (mu0, want0, 'incidence')):
        if not es: r.bad(rule, *where, 'the %s angle is not looked at' % what, f['q'] + ':' + what); return
        for e in es:
            if list(e.args) != w: r.bad(rule, f['q'], f['file'], e.line, 'the %s angle is that of other arguments (%s)' % (what, ', '.join(show(a)[:40] for a in e.args)), f['q'] + ':' + what); return
    m = {e.result: V('mu') for e in mu}; m.update({e.result: V('mu0') for e in mu0})
    m[fld['emi_ang_limit']] = V('limit')
    v = subst(E.tobool(E.value), m)
    ut = subst(E.tobool(fld['use_terminator']), m)
    spec = land(cmp('<', V('limit'), V('mu'), False), lor(lnot(ut), cmp('<', num(0), V('mu0'), False)))
    a, b = satisfiable(land(v, lnot(spec))), satisfiable(land(spec, lnot(v)))
    if a or b: r.bad(rule, *where, 'a point is visible if mu exceeds the emission angle limit and, beyond the terminator only if asked for, mu0 is positive: %s' % ('not so for a point taken as visible' if a else 'not so for a point taken as hidden'), f['q'] + ':condition')
    else: r.ok(rule, *where)

# ------------------------------------------------------------------ rotations
def rotations(r, p):
    rule = 'rotations'
    th = V('th')
    specs = {'X': rx, 'Y': ry, 'Z': rz}
    v = [V('v0'), V('v1'), V('v2')]
    for ax, R in specs.items():
        for f in p.q('MaRC::Geometry::Rot%sMatrix' % ax):
            if 'body' not in f: continue
            E = Evaluator(opaque=NOISE, unroll=4); E.run(f, args=[th])
            # apply it to a vector: read the elements of the result
            els = elements(E, E.value)
            if len(els) != 9: r.skip(rule, f['q'], f['file'], f['line'], 'elements not found'); continue
            for (i, j), t in sorted(els.items()):
                if not decide(r, rule, f, 0, t, R(th)[i][j], points(lambda t: 'lon' if t == th else None), what='element %d,%d of the rotation matrix' % (i, j)): break
        for f in p.q('MaRC::Geometry::Rot%s' % ax):
            if 'body' not in f or len(f['params']) != 3: continue
            E = Evaluator(opaque=NOISE, unroll=4)
            src, dst = V('src'), V('dst')
            E.run(f, args=[th, ('ref', src), ('ref', dst)])
            got = {k[2][1]: t for k, t in E.final.env.items() if k[0] == 'elem' and root(k) == dst and k[2][0] == 'n'}
            m = {}
            for t in got.values():
                for a in atoms(t):
                    if a[0] == 'init' and a[1][0] == 'elem' and root(a[1]) == src and a[1][2][0] == 'n': m[a] = v[int(a[1][2][1])]
            if len(got) != 3: r.skip(rule, f['q'], f['file'], f['line'], 'result not found'); continue
            spec = matvec(R(th), v)
            for i in range(3):
                if not decide(r, rule, f, 0, subst(got[i], m), spec[i], points(lambda t: 'lon' if t == th else 'any' if t in v else None), what='component %d of the rotated vector' % i): break

def elements(E, v):
    out = {}
    if v is None or v[0] not in ('ref', 'obj', 'init'): return out
    for k, t in E.final.env.items():
        if k[0] == 'elem' and k[1][0] == 'elem' and k[2][0] == 'n' and k[1][2][0] == 'n':
            b = k[1][1]
            while b[0] == 'fld': b = b[1]
            if b == v[1]:
                m = k[1][1]
                return {(i, j): E.read(E.final, ('elem', ('elem', m, num(i)), num(j)), 'double') for i in range(3) for j in range(3)}
    return out

# ------------------------------------------------------------------ geometric correction
def corrections(r, p):
    rule = 'geometric correction'
    n = 0
    for rec in sorted({f['clsq'] for f in p.fns.values() if f['n'] in ('image_to_object', 'object_to_image') and 'body' in f and f.get('clsq')}):
        fs = {f['n']: f for f in p.fns.values() if f.get('clsq') == rec and f['n'] in ('image_to_object', 'object_to_image') and 'body' in f}
        if len(fs) != 2: continue
        out = {}
        for k, f in fs.items():
            E = Evaluator(opaque=NOISE); E.run(f, args=[('ref', V('l')), ('ref', V('s'))])
            i = {('init', V('l')): V('l'), ('init', V('s')): V('s')}
            out[k] = [subst(E.read(E.final, V(x)), i) for x in 'ls']
        pts = []
        for k in range(12):
            rnd = random.Random(k)
            flag = k % 2 == 1
            hi = 390. if flag else 790.
            d = {V('l'): rnd.uniform(5, hi), V('s'): rnd.uniform(5, hi)}
            if k == 10: d = {V('l'): 400., V('s'): 400.}; flag = False
            if k == 11: d = {V('l'): 200., V('s'): 200.}; flag = True
            pts.append((d, flag))
        for first, second in (('object_to_image', 'image_to_object'), ('image_to_object', 'object_to_image')):
            f = fs[second]
            badp, why, good = None, None, 0
            for d, flag in pts:
                def env(t, d=d, flag=flag):
                    if t in d: return d[t]
                    if t[0] == 'init' and t[1][0] == 'fld' and root(t[1]) == THIS: return flag
                    return None
                try:
                    mid = dict(zip((V('l'), V('s')), [value(t, env) for t in out[first]]))
                    def env2(t, mid=mid, env=env): return mid[t] if t in mid else env(t)
                    end = [value(t, env2) for t in out[second]]
                except (Unknown, ValueError, ZeroDivisionError, OverflowError, TypeError) as e: why = str(e); continue
                if not all(close(x, d[V(n)], 1e-7) for x, n in zip(end, 'ls')): badp = (d, end, flag)
                else: good += 1
            where = (f['q'], f['file'], f['line'])
            if badp: r.bad(rule, *where, 'line, sample %.4f, %.4f comes back as %.4f, %.4f through %s and %s' % (badp[0][V('l')], badp[0][V('s')], badp[1][0], badp[1][1], first, second), f['q'] + ':inverse')
            elif good: r.ok(rule, *where)
            else: r.skip(rule, *where, why)
        # the size of the distortion: outward along the radius
        if any(out[k] != [V('l'), V('s')] for k in out):
            gll(r, rule, rec, fs['object_to_image'], out['object_to_image'])

def gll(r, rule, rec, f, o2i):
    """Galileo: radial distortion 1 + 6.58e-9 rho^2 about the optical axis (400, 400), of full resolution pixels."""
    if not rec.endswith('GLLGeometricCorrection'): return
    l, s = V('l'), V('s')
    fl = {x for t in o2i for x in atoms(t) if x[0] == 'init' and root(x[1]) == THIS}
    for mode in (False, True):
        k = num(2 if mode else 1)
        x, y = sub(mul(k, s), num(400)), sub(mul(k, l), num(400))
        c = add(num(1), mul(num(Fr(658, 10**11)), add(sq(x), sq(y))))
        spec = [mul(add(mul(y, c), num(400)), inv(k)), mul(add(mul(x, c), num(400)), inv(k))]
        for t, sp, what in zip(o2i, spec, ('line', 'sample')):
            v = subst(t, {z: TRUE if mode else FALSE for z in fl})
            decide(r, rule, f, 0, v, sp, points(lambda t: 'pix' if t in (l, s) else None), what='distorted %s, %s' % (what, 'summation mode' if mode else 'full resolution'))
