"""I01: invalid geometry and sizes are refused.  For every number a user can enter
the condition under which it is accepted is computed (semantic actions composed
along a smallest complete input, with the conditions under which the library
functions it is handed to return normally) and compared with the documented
domain in every region its comparisons distinguish, not-a-number included.  The
library's own interfaces are decided alike."""
import math
from fractions import Fraction
from sentences import *
from rules.i03 import contexts, graft, read_settings, V, F, record_of
import rules.i03 as i03
from geometry import Names

INF = math.inf
# domain: lowest, included, highest, included
LAT, NLAT, LON, POS, FIN, FLAT = (-90, True, 90, True), (0, True, 90, True), (-360, True, 360, True), (0, False, INF, False), (-INF, False, INF, False), (0, True, 1, False)
EMI = (-90, True, 90, True)
DOMAIN = {'SUB_OBSERV_LAT': LAT, 'SUB_SOLAR_LAT': LAT, 'LO_LAT': LAT, 'HI_LAT': LAT, 'LAT_AT_CENTER': LAT, 'MAX_LAT': (-90, False, 90, False),
          'SUB_OBSERV_LON': LON, 'SUB_SOLAR_LON': LON, 'LO_LON': LON, 'HI_LON': LON, 'LON_AT_CENTER': LON, 'POSITION_ANGLE': LON,
          'RANGE': POS, 'KM_PER_PIXEL': POS, 'ARCSEC_PER_PIX': POS, 'FOCAL_LENGTH': POS, 'PIXEL_SCALE': POS,
          'GRID_INTERVAL': POS, 'LAT_GRID_INTERVAL': POS, 'LON_GRID_INTERVAL': POS, 'SAMPLES': POS, 'LINES': POS, 'PLANES': POS,
          'EMI_ANG_LIMIT': EMI, 'EQ_RAD': POS, 'POL_RAD': POS, 'FLATTENING': FLAT, 'SAMPLE_OA': FIN, 'LINE_OA': FIN,
          'DATA_MIN': FIN, 'DATA_MAX': FIN}
# a setting without which the set-up of an image fails; member of the geometry
MANDATORY = {V + 'km_per_pixel', V + 'arcsec_per_pixel', V + 'focal_length', V + 'scale'}
LIB = [(V + 'sub_observ_lat', 0, LAT), (V + 'sub_observ_lon', 0, LON), (V + 'sub_solar_lat', 0, LAT), (V + 'sub_solar_lon', 0, LON),
       (V + 'sub_observ', 0, LAT), (V + 'sub_observ', 1, LON), (V + 'sub_solar', 0, LAT), (V + 'sub_solar', 1, LON),
       (V + 'lat_at_center', 0, LAT), (V + 'lon_at_center', 0, LON), (V + 'lat_lon_center', 0, LAT), (V + 'lat_lon_center', 1, LON),
       (V + 'position_angle', 0, LON), (V + 'range', 0, POS), (V + 'focal_length', 0, POS), (V + 'scale', 0, POS), (V + 'km_per_pixel', 0, POS), (V + 'arcsec_per_pixel', 0, POS),
       (V + 'body_center', 0, FIN), (V + 'body_center', 1, FIN), (V + 'body_center_sample', 0, FIN), (V + 'body_center_line', 0, FIN),
       (V + 'optical_axis', 0, FIN), (V + 'optical_axis', 1, FIN), (V + 'optical_axis_sample', 0, FIN), (V + 'optical_axis_line', 0, FIN), (V + 'emi_ang_limit', 0, EMI),
       ('MaRC::OblateSpheroid', 1, POS), ('MaRC::OblateSpheroid', 2, POS),
       ('MaRC::SimpleCylindrical', 1, LAT), ('MaRC::SimpleCylindrical', 2, LAT), ('MaRC::SimpleCylindrical', 3, LON), ('MaRC::SimpleCylindrical', 4, LON),
       ('MaRC::Orthographic', 1, LAT), ('MaRC::Orthographic', 2, LON), ('MaRC::Orthographic', 3, LON),
       ('MaRC::validate_latitude', 0, LAT), ('MaRC::validate_longitude', 0, LON), ('MaRC::validate_position_angle', 0, LON)]
MINIMUM = {'number entered by the user': 60, 'argument of the library': 35, 'setting that must be given': 3}

NAN = float('nan')
def inside(d, v):
    if v != v: return False
    return (d[0] < v or d[1] and v == d[0]) and (v < d[2] or d[3] and v == d[2])

# ------------------------------------------------------------------ value of a term with one quantity known
class Unknown(Exception): pass
FUN = {'abs': abs, 'fabs': abs, 'floor': lambda x: float(math.floor(x)) if math.isfinite(x) else x, 'trunc': lambda x: x if x != x or math.isinf(x) else float(int(x)),
       's2u': lambda x: x if x >= 0 else x + 2.0**64, 'u2s': lambda x: x}
def value(t, L, v):
    k = t[0]
    if t == L: return v
    if k == 'n': return float(t[1])
    if k == 'init' and names().role(t): return 1e-30        # a radius: positive, however small
    if k == 'k' and t[1] == 'pi': return math.pi
    if k == 'fc': return NAN if t[1] == 'nan' else INF if t[1] in ('inf', 'huge') else unknown()
    if k == 'some' and len(t) == 2: return value(t[1], L, v)
    if k == 'get' and t[1][0] == 'rec' and t[2] in dict(t[1][1]): return value(dict(t[1][1])[t[2]], L, v)
    if k == 'p':
        s, bad = 0.0, False
        for m, c in to_poly(t).items():
            x = float(c)
            for a, e in m:
                try: y = value(a, L, v)
                except Unknown: bad = True; continue
                if y != y: return NAN                # whatever the others are
                x = x * y ** float(e) if y or e > 0 else x * INF if x else NAN
            s += x
        return unknown() if bad else s
    if k == 'ite':
        c = truth(t[1], L, v)
        return value(t[2] if c == TRUE else t[3] if c == FALSE else unknown(), L, v)
    if k == 'call':
        a = [value(x, L, v) for x in t[2]]
        if t[1] in FUN and len(a) == 1: return FUN[t[1]](a[0])
        if t[1] == 'fmod' and len(a) == 2: return math.fmod(*a) if math.isfinite(a[0]) and a[1] else NAN
        if t[1] in ('min', 'max') and len(a) == 2 and a[0] == a[0] and a[1] == a[1]: return (min if t[1] == 'min' else max)(a)
        if t[1] in ('sin', 'cos', 'tan', 'sqrt') and len(a) == 1 and a[0] != a[0]: return NAN
        if t[1] == 'sqrt' and len(a) == 1 and a[0] >= 0: return math.sqrt(a[0])
        if t[1] in ('sin', 'cos', 'tan', 'atan') and len(a) == 1 and math.isfinite(a[0]): return getattr(math, t[1])(a[0])
    unknown()
def unknown(): raise Unknown
_names = None
def names():
    global _names
    if _names is None: _names = Names(program())
    return _names

def truth(t, L, v):
    """t with L = v: TRUE, FALSE or what is left."""
    k = t[0]
    if k == 'b' or t in (TRUE, FALSE): return t
    if k == 'and': return land(*[truth(x, L, v) for x in t[1]])
    if k == 'or': return lor(*[truth(x, L, v) for x in t[1]])
    if k == '!': return lnot(truth(t[1], L, v))
    if k == 'ite':
        c = truth(t[1], L, v)
        if c in (TRUE, FALSE): return truth(t[2] if c == TRUE else t[3], L, v)
        return lor(land(c, truth(t[2], L, v)), land(lnot(c), truth(t[3], L, v)))
    try:
        if k == 'cmp' and t[2][0] != 'pair':
            z = value(t[2], L, v)
            return TRUE if {'<': z < 0, '<=': z <= 0, '==': z == 0}[t[1]] else FALSE
        if k == 'isnan':
            z = value(t[1], L, v); return TRUE if z != z else FALSE
    except (Unknown, KeyError, OverflowError, ZeroDivisionError): pass
    # a comparison with something else than L is a free condition, the same at every occurrence
    if k == 'cmp' and t[2][0] != 'pair' and v == v and math.isfinite(v) and mentions(t, L):
        d = subst(t[2], {L: num(Fraction(v))})
        if not mentions(d, L) and not any(x[0] == 'call' for x in atoms(d)): return cmp(t[1], d, num(0), bool(t[3]))
    if contains(t, lambda x: x == L): return ('has', ('at', repr(v), t)) if is_bool(t) else t
    return t

def mentions(t, L): return contains(t, lambda x: x == L)
def dependent(t): return contains(t, lambda x: x[0] == 'at')

# ------------------------------------------------------------------ regions
def points(conds, L, dom):
    """A representative of every region the conditions can tell apart."""
    b = {x for x in (dom[0], dom[2]) if math.isfinite(x)} | {0.0}
    todo = list(conds)
    while todo:
        t = todo.pop()
        if not isinstance(t, tuple): continue
        if t and t[0] == 'cmp' and t[2][0] != 'pair' and mentions(t, L):
            f = lambda x: value(t[2], L, x)
            try:                                    # piecewise linear: a x + b or a |x| + b
                for s in (1, -1):
                    y1, y2 = f(s * 1e3), f(s * 2e3)
                    a = (y2 - y1) / 1e3
                    if a: b.add(round(s * (1e3 - y1 / a), 9))
            except (Unknown, ZeroDivisionError, OverflowError): pass
        todo += [x for x in t if isinstance(x, tuple)]
    b = sorted(x for x in b if abs(x) < 1e15)
    out = {NAN, -1e12, 1e12} | {float(x) for x in b}
    for x in b: d = 1e-6 * max(1, abs(x)); out |= {x - d, x + d}
    for x, y in zip(b, b[1:]): out.add((x + y) / 2)
    return sorted((x for x in out if x == x)) + [NAN]

# ------------------------------------------------------------------ when library functions return
_cond = {}
def returns(kind, name, n):
    k = (kind, name, n)
    if k in _cond: return _cond[k]
    p, fs = program(), []
    if kind == 'make': fs = [f for f in p.fns.values() if f.get('clsq') == name and f.get('ctor') and 'body' in f and not f.get('copymove') and len(f['params']) == n]
    else: fs = [f for f in p.q(name) if 'body' in f and len(f['params']) == n and not f.get('virt_pure')]
    out = None
    if len(fs) == 1:
        try:
            E = Evaluator(opaque=NOISE); E.run(fs[0], args=[('arg', i) for i in range(n)])
            out = (fs[0], [TRUE] if E.final is None else list(E.final.guard) if not E.final.dead else [FALSE])
        except AnalysisError: out = None
    _cond[k] = out
    return out

def settle_get(t):
    """Members of records given as arguments."""
    m = {x: dict(x[1][1])[x[2]] for x in atoms(t) if x[0] == 'get' and isinstance(x[1], tuple) and x[1][0] == 'rec' and x[2] in dict(x[1][1])}
    return subst(t, m) if m else t

def atoms_and_bools(t):
    if t[0] in ('and', 'or'): return set().union(*[atoms_and_bools(x) for x in t[1]])
    return atoms_and_bools(t[1]) if t[0] == '!' else {t}

def step_condition(s):
    """Condition for the step not to fail, or None if its function cannot be followed."""
    c = returns(s.kind, s.name, len(s.args))
    if c is None: return TRUE
    m = {('arg', i): a for i, a in enumerate(s.args) if a[0] != 'ref'}
    if s.snap and s.kind == 'call':
        for k, x in s.snap.items(): m[('init', ('fld', ('deref', ('v', 'this')), k.rsplit('.', 1)[-1]))] = x
    # the factory a plane's range is given to is new
    if s.name.startswith('MaRC::SourceImageFactory::'): m.update({x: FALSE for y in c[1] for x in atoms_and_bools(y) if x[0] == 'has'})
    return lor(lnot(land(*s.guard)), land(*[settle_get(subst(x, m)) for x in c[1]]))

# ------------------------------------------------------------------ numbers in the input
INTEGER = ('SAMPLES', 'LINES', 'PLANES')
def domain(kw, mods):
    d = DOMAIN[kw]
    if d == LAT and any(m in ("'N'", "'S'") for m in mods): return NLAT
    if kw == 'MAX_LAT' and any(m in ("'N'", "'S'") for m in mods): return (0, True, 90, False)
    return d

def judge(r, S, tree, q, label, done):
    R = Runner(S); R.run(tree, 1)
    sets = read_settings(tree)
    leaves = set()
    for t in list(R.pc) + [a for s in R.steps for a in s.args] + [x for s in R.steps for x in s.guard]:
        leaves |= {a for a in atoms(t) if a[0] == 'kw'} if isinstance(t, tuple) else set()
    for L in sorted(leaves, key=str):
        kw = L[2].replace('LONG', 'LON') if L[2] not in DOMAIN else L[2]
        if kw in ('EQ_RAD', 'POL_RAD', 'FLATTENING') or kw not in DOMAIN or L[1] != 1 or L[3] not in ('val', 'ival'): continue
        for mods in sets.get(L[2], {()}):
            sinks = [s for s in R.steps if any(mentions(a, L) for a in s.args) and s.kind in ('call', 'make')]
            k = (kw, tuple(mods), tuple(sorted({(s.name, s.line) for s in sinks})), q.lhs if L[2] in q.rhs else None)
            if k in done: continue
            done.add(k)
            number(r, S, R, L, kw, domain(kw, mods), sinks, q, mods)

def number(r, S, R, L, kw, dom, sinks, q, mods):
    conds = list(R.pc) + [step_condition(s) for s in R.steps]
    conds = [c for c in conds if mentions(c, L)]
    line = (sinks[0].line if sinks else q.line)
    ctx = '%s%s (%s)' % (kw, ''.join(' ' + m for m in mods), ', '.join(sorted({s.name.replace('MaRC::', '') for s in sinks})) or 'checked only')
    file = '/repo/src/parse.yy'
    pts = points(conds + [g for s in sinks for g in s.guard], L, dom)
    if L[3] == 'ival' or kw in INTEGER: pts = [x for x in pts if x == x and x == int(x) and abs(x) < 2**31]
    nsinks = [s for s in sinks if not (s.name.startswith('fmt::'))]
    for v in pts:
        c = land(*[truth(x, L, v) for x in conds])
        ok = inside(dom, v)
        name = 'not-a-number' if v != v else '%g' % v
        if c != FALSE and c != TRUE:
            if not satisfiable(c): c = FALSE
        dropped = bool(nsinks) and all(land(*[truth(g, L, v) for g in s.guard]) == FALSE for s in nsinks)
        if ok and (kw, v) in (('HI_LAT', -90.0), ('LO_LAT', 90.0), ('HI_LAT', 0.0)): continue       # no room for the other limit
        if ok:
            if c == FALSE: r.bad('number entered by the user', q.lhs, file, line, '%s: %s is refused although it is valid' % (ctx, name), key='refused.' + kw); return
            if dropped: r.bad('number entered by the user', q.lhs, file, line, '%s: %s is ignored although it is valid' % (ctx, name), key='ignored.' + kw); return
            continue
        if c == FALSE: continue
        if dropped:
            if all(s.name in MANDATORY for s in nsinks): continue
            r.bad('number entered by the user', q.lhs, file, line, '%s: invalid value %s is ignored without an error' % (ctx, name), key='dropped.' + kw); return
        if dependent(c): r.skip('number entered by the user', q.lhs, file, line, '%s: condition at %s not followed' % (ctx, name)); return
        r.bad('number entered by the user', q.lhs, file, line, '%s: invalid value %s is accepted' % (ctx, name), key='accepted.' + kw); return
    r.ok('number entered by the user', q.lhs, file, line, '%s: accepted exactly in its domain, at %d regions' % (ctx, len(pts)))

def inputs(r):
    i03.setup_pi()
    S = sentences(); done = set()
    numeric = lambda q: any(s in ATOMIC or s == 'size' for s in q.rhs)
    for label, ch in contexts(S):
        for q in S.g.prods.values():
            if q.lhs not in S.reachable('map_setup') or not q.useful or q.lhs == '$accept' or not numeric(q): continue
            tree = S.with_prod('map_setup', q, {k: v for k, v in ch.items() if k != q.lhs})
            if tree is not None: r.part(judge, r, S, tree, q, label, done)
        for sel in ('plane_type', 'projection_type'):
            for c in S.g.of(sel):
                for q in S.g.prods.values():
                    if q.lhs in S.reachable(c.rhs[0]) and q.useful and numeric(q):
                        sub_ = S.with_prod(c.rhs[0], q, {k: v for k, v in ch.items() if k != q.lhs})
                        if sub_ is not None: r.part(judge, r, S, graft(S, c, sub_, ch), q, label, done)

# ------------------------------------------------------------------ the library's own interfaces
def library(r):
    p = program()
    for name, i, dom in LIB:
        fs = [f for f in p.q(name) if 'body' in f and len(f['params']) > i]
        kind = 'call'
        if not fs: kind = 'make'; fs = [f for f in p.fns.values() if f.get('clsq') == name and f.get('ctor') and 'body' in f and not f.get('copymove') and len(f['params']) > i]
        for f in fs:
            c = returns(kind, name, len(f['params']))
            if c is None: r.skip('argument of the library', name, f['file'], f['line'], 'not followed'); continue
            L = ('arg', i)
            for v in points(c[1], L, dom):
                t = land(*[truth(x, L, v) for x in c[1]])
                if t not in (TRUE, FALSE) and not satisfiable(t): t = FALSE
                ok, n = inside(dom, v), 'not-a-number' if v != v else '%g' % v
                w = '%s %s of %s' % (n, f['params'][i]['n'], name.replace('MaRC::', ''))
                if ok and t == FALSE: r.bad('argument of the library', name, f['file'], f['line'], w + ' is refused although it is valid', key='%s.%d' % (name, i)); break
                if not ok and t != FALSE:
                    if dependent(t): r.skip('argument of the library', name, f['file'], f['line'], w + ': condition not followed')
                    else: r.bad('argument of the library', name, f['file'], f['line'], w + ' is accepted although it is invalid', key='%s.%d' % (name, i))
                    break
            else: r.ok('argument of the library', name, f['file'], f['line'], 'argument %d accepted exactly in its domain' % i)

def mandatory(r):
    """An image whose scale or position is not given is refused at set-up."""
    p = program()
    f = p.one(V + 'finalize_setup')
    E = Evaluator(opaque=NOISE); E.run(f, args=[('arg', 0), ('arg', 1)])
    fld = {}
    for n in ('km_per_pixel', 'focal_length', 'scale'):
        g = p.one(V + n)
        X = Evaluator(opaque=NOISE); X.run(g, args=[('arg', 0)])
        c = [k for k, v in X.final.env.items() if k[0] == 'fld' and mentions(v, ('arg', 0))]
        if len(c) != 1: raise AnalysisError('member set by %s not found' % n)
        fld[n] = ('init', c[0])
    for what, names in (('scale', ('km_per_pixel', 'focal_length', 'scale')), ('pixel scale', ('km_per_pixel', 'scale')), ('focal length', ('km_per_pixel', 'focal_length'))):
        X = Evaluator(opaque=NOISE)
        g = [subst(x, {fld[n]: ('fc', 'nan') for n in names}) for x in E.final.guard]
        t = land(*[truth(x, ('none',), 0.0) for x in g])
        r.check(t == FALSE or not satisfiable(t), 'setting that must be given', f['q'], f['file'], f['line'], 'set-up %s when the %s is not given' % ('fails' if t == FALSE or not satisfiable(t) else 'succeeds', what), key='mandatory.' + what)

THIS_ = ('deref', ('v', 'this'))
def radii(r):
    """Radii and flattening: conditions of Radii::validate and of the spheroid's constructor."""
    S, p = sentences(), program()
    f = p.one('MaRC::Radii::validate')
    E = Evaluator(opaque=NOISE); E.run(f)
    c = returns('make', 'MaRC::OblateSpheroid', 3)
    if c is None: raise AnalysisError('constructor of OblateSpheroid not followed')
    after = lambda n: E.final.env.get(('fld', THIS_, n), ('init', ('fld', THIS_, n)))
    conds0 = list(E.final.guard) + [subst(x, {('arg', 1): after('eq_rad'), ('arg', 2): after('pol_rad')}) for x in c[1]]
    for q in S.g.of('radii'):
        R = Runner(S); R.run(S.with_prod('map_setup', q), 1)
        for s in R.steps:
            if not (s.kind == 'call' and s.name.endswith('Radii::validate') and s.snap): continue
            m = {('init', ('fld', THIS_, k.rsplit('.', 1)[-1])): v for k, v in s.snap.items()}
            conds = [subst(x, m) for x in conds0]
            Ls = sorted({a for v in s.snap.values() for a in atoms(v) | {v} if a[0] == 'kw'}, key=str)
            for L in Ls:
                dom = DOMAIN.get(L[2])
                if dom is None: continue
                # the other quantity has a value that fits every valid one of this
                best = {'EQ_RAD': (1e-3, 1e9), 'POL_RAD': (1e-3, 1e9), 'FLATTENING': (0.5, 0.0)}
                for v in points(conds, L, dom):
                    name = 'not-a-number' if v != v else '%g' % v
                    got = []
                    for other in (x for o in Ls if o != L for x in best[o[2]] + ((v,) if v == v and inside(DOMAIN[o[2]], v) else ())):
                        o = [x for x in Ls if x != L][0]
                        got.append(land(*[truth(subst(x, {o: num(Fraction(other))}), L, v) for x in conds]))
                    if any(x not in (TRUE, FALSE) for x in got): r.skip('number entered by the user', q.lhs, s.prod and '/repo/src/parse.yy', s.line, '%s: condition at %s not followed' % (L[2], name)); break
                    if inside(dom, v) != any(x == TRUE for x in got):
                        r.bad('number entered by the user', f['q'], f['file'], f['line'], '%s (with %s): %s' % (L[2], ', '.join(x[2] for x in Ls if x != L), ('valid value %s is refused' if inside(dom, v) else 'invalid value %s is accepted') % name), key='radii.' + L[2]); break
                else: r.ok('number entered by the user', f['q'], f['file'], f['line'], '%s with %s: accepted exactly in its domain' % (L[2], ', '.join(x[2] for x in Ls if x != L)))

def check(r):
    r.part(radii, r)
    r.part(library, r)
    r.part(mandatory, r)
    r.part(inputs, r)
