"""I03  Each keyword's value reaches the quantity it names, by its convention.

Every production of the grammar is placed in a smallest complete input
(and again with each spelling of latitudes, longitudes, ranges and angles); the
semantic actions are composed along the derivation and the terms that arrive at
MaRC's own interfaces are compared with what the keywords in the input say."""
from sentences import *

MINIMUM = {'value': 200, 'choice': 30, 'setting applied': 100, 'configuration default': 8, 'default': 20}
AU = Fraction(1495978707, 10)

V = 'MaRC::ViewingGeometry::'
M = 'MaRC::map_parameters::'
P = 'MaRC::PhotoImageParameters::'
F = 'MaRC::PhotoImageFactory::'
YN = dict(YES=TRUE, NO=FALSE)
TYPES = dict(BYTE=8, SHORT=16, LONG=32, LONGLONG=64, FLOAT=-32, DOUBLE=-64)

# sink -> per argument: (kind, keywords...), or None
SINKS = {
    ('call', M + 'author'): [('text', 'AUTHOR')],
    ('call', M + 'origin'): [('text', 'ORIGIN')],
    ('call', M + 'object'): [('text', 'BODY')],
    ('call', M + 'push_comment'): [('text', 'COMMENT')],
    ('call', M + 'push_xcomment'): [('text', 'XCOMMENT')],
    ('call', M + 'bzero'): [('num', 'DATA_OFFSET')],
    ('call', M + 'bscale'): [('num', 'DATA_SCALE')],
    ('call', M + 'blank'): [('int', 'DATA_BLANK')],
    ('call', M + 'bitpix'): [('choice', 'DATA_TYPE', {k: num(v) for k, v in TYPES.items()})],
    ('call', 'MaRC::MapCommand::grid_intervals'): [('num', 'LAT_GRID_INTERVAL', 'GRID_INTERVAL'), ('num', 'LON_GRID_INTERVAL', 'GRID_INTERVAL')],
    ('make', 'MaRC::MapCommand'): [('text', 'MAP'), ('int', 'SAMPLES'), ('int', 'LINES'), None, None],
    ('make', 'MaRC::OblateSpheroid'): [('choice', 'ROTATION', dict(PROGRADE=TRUE, RETROGRADE=FALSE)), ('num', 'EQ_RAD'), ('num', 'POL_RAD')],
    ('make', 'MaRC::Orthographic'): [None, ('lat', 'SUB_OBSERV_LAT'), ('lon', 'SUB_OBSERV_LON'), ('pa', 'POSITION_ANGLE'), ('num', 'KM_PER_PIXEL'), ('center',)],
    ('make', 'MaRC::PolarStereographic'): [None, ('lat', 'MAX_LAT'), ('choice', 'POLE', {"'N'": TRUE, "'S'": FALSE})],
    ('make', 'MaRC::SimpleCylindrical'): [None, ('lat', 'LO_LAT'), ('lat', 'HI_LAT'), ('lon', 'LO_LON'), ('lon', 'HI_LON'), ('choice', 'LATITUDE_TYPE', dict(CENTRIC=FALSE, GRAPHIC=TRUE))],
    ('make', 'MaRC::MuImageFactory'): [None, ('lat', 'SUB_OBSERV_LAT'), ('lon', 'SUB_OBSERV_LON'), ('range', 'RANGE')],
    ('make', 'MaRC::Mu0ImageFactory'): [None, ('lat', 'SUB_SOLAR_LAT'), ('lon', 'SUB_SOLAR_LON')],
    ('make', 'MaRC::CosPhaseImageFactory'): [None, ('lat', 'SUB_OBSERV_LAT'), ('lon', 'SUB_OBSERV_LON'), ('lat', 'SUB_SOLAR_LAT'), ('lon', 'SUB_SOLAR_LON'), ('range', 'RANGE')],
    ('make', 'MaRC::LatitudeImageFactory'): [None, ('choice', 'LATITUDE', dict(CENTRIC=FALSE, GRAPHIC=TRUE))],
    ('make', 'MaRC::MosaicImageFactory'): [None, ('choice', 'AVERAGING', None)],
    ('make', 'MaRC::PhotoImageFactory'): [('text', 'IMAGE')],
    ('call', F + 'flat_field'): [('text', 'FLAT_FIELD')],
    ('call', F + 'invert'): [('choice', 'INVERT', dict(VERTICAL=TRUE, HORIZONTAL=FALSE, BOTH=TRUE)), ('choice', 'INVERT', dict(VERTICAL=FALSE, HORIZONTAL=TRUE, BOTH=TRUE))],
    ('call', F + 'interpolate'): [('choice', 'INTERPOLATE', YN)],
    ('call', F + 'geometric_correction'): [('choice', 'GEOM_CORRECT', YN)],
    ('call', P + 'remove_sky'): [('choice', 'REMOVE_SKY', YN)],
    ('call', P + 'nibble'): [('int', 'NIBBLE')],
    ('call', P + 'nibble_left'): [('int', 'NIBBLE_LEFT')],
    ('call', P + 'nibble_right'): [('int', 'NIBBLE_RIGHT')],
    ('call', P + 'nibble_top'): [('int', 'NIBBLE_TOP')],
    ('call', P + 'nibble_bottom'): [('int', 'NIBBLE_BOTTOM')],
    ('call', 'MaRC::SourceImageFactory::minimum'): [('num', 'DATA_MIN')],
    ('call', 'MaRC::SourceImageFactory::maximum'): [('num', 'DATA_MAX')],
    ('call', V + 'sub_observ'): [('lat', 'SUB_OBSERV_LAT'), ('lon', 'SUB_OBSERV_LON')],
    ('call', V + 'sub_solar'): [('lat', 'SUB_SOLAR_LAT'), ('lon', 'SUB_SOLAR_LON')],
    ('call', V + 'position_angle'): [('pa', 'POSITION_ANGLE')],
    ('call', V + 'range'): [('range', 'RANGE')],
    ('call', V + 'km_per_pixel'): [('num', 'KM_PER_PIXEL')],
    ('call', V + 'arcsec_per_pixel'): [('num', 'ARCSEC_PER_PIX')],
    ('call', V + 'focal_length'): [('num', 'FOCAL_LENGTH')],
    ('call', V + 'scale'): [('num', 'PIXEL_SCALE')],
    ('call', V + 'body_center'): [('num', 'SAMPLE_CENTER'), ('num', 'LINE_CENTER')],
    ('call', V + 'lat_lon_center'): [('lat', 'LAT_AT_CENTER'), ('lon', 'LON_AT_CENTER')],
    ('call', V + 'optical_axis'): [('num', 'SAMPLE_OA'), ('num', 'LINE_OA')],
    ('call', V + 'emi_ang_limit'): [('num', 'EMI_ANG_LIMIT')],
    ('call', V + 'use_terminator'): [('choice', 'TERMINATOR', YN)],
}
DEFAULT = {'AVERAGING': 'WEIGHTED', 'LATITUDE_TYPE': 'CENTRIC', 'LATITUDE': 'CENTRIC', 'LO_LAT': num(-90), 'HI_LAT': num(90), 'LO_LON': num(0), 'HI_LON': num(360)}
# class members with documented defaults: setter -> value while not set
MEMBER_DEFAULT = {F + 'interpolate': (FALSE, 'INTERPOLATE'), F + 'geometric_correction': (FALSE, 'GEOM_CORRECT'), P + 'remove_sky': (TRUE, 'REMOVE_SKY'), V + 'use_terminator': (FALSE, 'TERMINATOR'),
                  F + 'invert': (FALSE, 'INVERT'), P + 'nibble_left': (num(0), 'NIBBLE_LEFT'), P + 'nibble_right': (num(0), 'NIBBLE_RIGHT'), P + 'nibble_top': (num(0), 'NIBBLE_TOP'), P + 'nibble_bottom': (num(0), 'NIBBLE_BOTTOM')}
# configuration defaults: keyword -> member of the parameters the value must be kept in
CONFIG = {'GRID_INTERVAL': ('lat_interval', 'lon_interval'), 'LAT_GRID_INTERVAL': ('lat_interval',), 'LON_GRID_INTERVAL': ('lon_interval',),
          'DATA_MIN': ('minimum',), 'DATA_MAX': ('maximum',), 'NIBBLE': ('nibble_left', 'nibble_right', 'nibble_top', 'nibble_bottom'),
          'NIBBLE_LEFT': ('nibble_left',), 'NIBBLE_RIGHT': ('nibble_right',), 'NIBBLE_TOP': ('nibble_top',), 'NIBBLE_BOTTOM': ('nibble_bottom',)}
# an argument not given in the input may only come from this configuration default
FROM_CONFIG = {('MaRC::MapCommand::grid_intervals', 0): 'lat_interval', ('MaRC::MapCommand::grid_intervals', 1): 'lon_interval',
               ('MaRC::SourceImageFactory::minimum', 0): 'minimum', ('MaRC::SourceImageFactory::maximum', 0): 'maximum',
               (P + 'nibble_left', 0): 'nibble_left', (P + 'nibble_right', 0): 'nibble_right', (P + 'nibble_top', 0): 'nibble_top', (P + 'nibble_bottom', 0): 'nibble_bottom'}
# keyword -> the interfaces one of which must receive it
APPLIES = {}
for (k, fn), args in SINKS.items():
    for i, a in enumerate(args):
        if a and a[0] != 'center':
            for kw in (x for x in a[1:] if isinstance(x, str)): APPLIES.setdefault(kw, []).append((k, fn, i, a))

def following(toks, i):
    mods = []
    for j in range(i + 2, len(toks)):
        if j + 1 < len(toks) and toks[j + 1] == "':'": break
        mods.append(toks[j].strip('"_') if toks[j][0] != "'" else toks[j])
    return tuple(mods)

def read_settings(tree, head=False):
    toks, out = list(tree.tokens()), {}
    if head and 'PLANE' in [t.strip('"_') for t in toks]: toks = toks[:[t.strip('"_') for t in toks].index('PLANE')]
    for i, t in enumerate(toks):
        if i + 1 < len(toks) and toks[i + 1] == "':'": out.setdefault(t.strip('"_'), set()).add(following(toks, i))
    # a bare latitude type among a projection's options
    for kw, ms in list(out.items()):
        for m in ms:
            if kw not in ('LATITUDE_TYPE', 'LATITUDE') and m and m[-1] in ('CENTRIC', 'GRAPHIC'): out.setdefault('LATITUDE_TYPE', set()).add((m[-1],))
    if 'LATITUDE' in out and ('LATITUDE_TYPE' in out):
        # "LATITUDE: LATITUDE_TYPE: GRAPHIC"
        toks2 = [t.strip('"_') for t in toks]
        for i, t in enumerate(toks2):
            if t == 'LATITUDE' and i + 2 < len(toks2) and toks2[i + 2] == 'LATITUDE_TYPE': out['LATITUDE'] |= {following(toks, i + 2)}; out['LATITUDE'].discard(())
    return out

def kws(t): return {a for a in atoms(t) if a[0] == 'kw'}

def unwrap(t):
    while t[0] == 'some' and len(t) == 2: t = t[1]
    return untrunc(t)

def strip_conv(t):
    """Conversions between number types."""
    t = unwrap(t)
    while t[0] == 'call' and t[1] in ('trunc', 's2u', 'u2s') and len(t[2]) == 1: t = unwrap(t[2][0])
    return t

def linear(t, v, period):
    """c if t == c*v + k*period (v possibly reduced modulo period), else None."""
    fm = call('fmod', (v, num(period)))
    for x in (v, fm):
        for c in (1, -1):
            d = sub(t, mul(num(c), x))
            if is_num(d) and d[1] % period == 0: return c
    return None

class Judge:
    def __init__(self, rep, R, sets, q, label):
        self.rep, self.R, self.sets, self.q, self.label = rep, R, sets, q, label
        self.avg = {k.rsplit('_', 1)[1]: num(v) for k, v in enum_values(program(), 'AVG_').items()}
    def site(self, st): return dict(fn=st.name, file='/repo/src/parse.yy', line=st.line)
    def value(self, st, kind, kw, arg, plain=True):
        """None if the argument is the keyword's value under its convention, else why not."""
        mods = self.sets[kw]
        arg = strip_conv(arg)
        v = ('kw', st.entry, kw, {'text': 'sval', 'int': 'ival'}.get(kind, 'val'))
        out = []
        for g, leaf in cases(arg):
            if any(x == FALSE for x in g) or (g and not satisfiable(land(*(self.R.pc + list(st.guard) + list(g))))): continue
            leaf = strip_conv(leaf)
            if not plain and not kws(leaf) and not opaque_terms(leaf): continue
            why = None
            for m in mods:
                why = self.leaf(kind, kw, m, v, leaf, g)
                if why is None: break
            if why: return why
        return None
    def leaf(self, kind, kw, m, v, leaf, g):
        if kind in ('num', 'int', 'text'):
            if leaf == v: return None
            if leaf[0] == 'call' and leaf[1] == 'string' and len(leaf[2]) == 1 and leaf[2][0] == v: return None
            return '%s instead of the %s value' % (show(leaf), kw)
        if kind == 'range':
            f = AU if 'AU' in m else Fraction(1)
            c = coefficient(leaf, v)
            if c is None: return '%s is not the %s value' % (show(leaf), kw)
            if abs(c - f) > f / 10**7: return 'the %s value times %s, expected %s' % (kw, float(c), float(f))
            return None
        if kind == 'pa':
            c = linear(leaf, v, 360)
            want = -1 if 'CW' in m else 1
        elif kind == 'lon':
            c = linear(leaf, v, 360)
            want = 1
            if "'E'" in m or "'W'" in m:
                pro = self.prograde(g)
                if pro is None: return None
                want = (-1 if pro else 1) if "'E'" in m else (1 if pro else -1)
        elif kind == 'lat':
            w = -1 if "'S'" in m else 1
            if "'G'" in m: return self.graphic(leaf, kw, v, w)
            c, want = coefficient(leaf, v), w
        if c is None:
            if opaque_terms(leaf): return 'unknown'
            return '%s is not the %s value' % (show(leaf), kw)
        if c != want: return 'the %s value%s is taken with the wrong sense (%s)' % (kw, ' ' + ' '.join(m[1:]) if len(m) > 1 else '', show(leaf))
        return None
    def prograde(self, g):
        for x in g:
            for neg, a in ((False, x), (True, x[1] if x[0] == '!' else None)):
                if a and a[0] == 'ret' and 'prograde' in str(a[-1]): return not neg
        r = self.sets.get('ROTATION', {()})
        if len(r) == 1: return 'PROGRADE' in next(iter(r))
        return None
    def graphic(self, leaf, kw, v, w):
        rets = [a for a in atoms(leaf) if a[0] == 'ret']
        for s in self.R.steps:
            if s.kind == 'call' and s.name.endswith('centric_latitude') and s.result in rets:
                c = coefficient(s.args[0], v)
                rad = mul(num(Fraction(w, 180)), PI)
                if sub(s.args[0], mul(rad, v)) != num(0): return 'planetographic latitude %s is converted from %s, expected %s radians of the %s value' % (kw, show(s.args[0]), '-' if w < 0 else '', kw)
                if sub(leaf, mul(mul(num(180), power(PI, -1)), s.result)) != num(0): return 'the converted planetographic latitude is used as %s' % show(leaf)
                return None
        if kws(leaf) == {v} and not opaque_terms(leaf): return 'planetographic latitude %s is not converted (%s)' % (kw, show(leaf))
        return 'unknown'

def coefficient(t, v):
    p = to_poly(t)
    if len(p) != 1: return None
    (m, c), = p.items()
    return c if m == ((v, 1),) else None

PI = None

def setup_pi():
    global PI
    import terms as T
    PI = T.PI if hasattr(T, 'PI') else ('k', 'pi')

def check_center(rep, J, st, arg):
    """The centre record handed to the orthographic projection."""
    if arg[0] != 'rec': return
    f = dict(arg[1])
    geo = enum_values(program(), 'GeometryType') or {}
    geo = {k.rsplit('::', 1)[1]: num(v) for k, v in geo.items()}
    want = geo.get('CENTER_GIVEN' if 'SAMPLE_CENTER' in J.head else 'LAT_LON_GIVEN' if 'LAT_AT_CENTER' in J.head else 'DEFAULT')
    if 'geometry' in f and want is not None:
        vals = {x for g, x in cases(f['geometry']) if is_num(x)}
        if want != geo.get('DEFAULT') and len(vals) > 1: vals.discard(geo.get('DEFAULT'))
        if vals: rep.check(vals == {want}, 'choice', st.name, '/repo/src/parse.yy', st.line, 'the map centre is given as kind %s, expected %s' % ('/'.join(show(x) for x in vals), show(want)), key=st.name + '.geometry')
    pairs = [('SAMPLE_CENTER', 'num', 'sample_lat_center'), ('LINE_CENTER', 'num', 'line_lon_center')] if 'SAMPLE_CENTER' in J.head else [('LAT_AT_CENTER', 'lat', 'sample_lat_center'), ('LON_AT_CENTER', 'lon', 'line_lon_center')] if 'LAT_AT_CENTER' in J.head else []
    for kw, kind, fld in pairs:
        if fld not in f: rep.skip('value', st.name, '/repo/src/parse.yy', st.line, 'centre member %s' % fld); continue
        v = f[fld]
        if not kws(v) and not any(a[0] == 'ret' for a in atoms(v)): rep.bad('value', st.name, '/repo/src/parse.yy', st.line, '%s does not reach the map centre (%s)' % (kw, fld), key=st.name + '.' + kw); continue
        why = J.value(st, kind, kw, v, False)
        if why == 'unknown': rep.skip('value', st.name, '/repo/src/parse.yy', st.line, show(v))
        else: rep.check(why is None, 'value', st.name, '/repo/src/parse.yy', st.line, 'map centre %s: %s' % (fld, why), key=st.name + '.' + kw)

def judge(rep, S, tree, q, label, used):
    text = ' '.join(tree.tokens())
    if text in used: return
    used.add(text)
    R = Runner(S); R.run(tree, 1)
    sets = read_settings(tree)
    J = Judge(rep, R, sets, q, label)
    J.head = read_settings(tree, True)
    where = '%s -> %s' % (q.lhs, ' '.join(q.rhs)[:60])
    reached = {}
    for st in R.steps:
        spec = SINKS.get((st.kind, st.name))
        if spec is None: continue
        used.add((st.kind, st.name))
        for i, a in enumerate(spec):
            if a is None or i >= len(st.args): continue
            arg = st.args[i]
            if a[0] == 'center': check_center(rep, J, st, arg); continue
            names = [x for x in a[1:] if isinstance(x, str)]
            given = [k for k in names if k in sets]
            key = '%s[%d]' % (st.name, i)
            if a[0] == 'choice':
                table = a[2] if a[2] is not None else J.avg
                if given:
                    opts = {table[m[0]] for m in sets[given[0]] if m and m[0] in table}
                    if not opts: continue
                    got = strip_conv(arg)
                    if opaque_terms(got) or got[0] in ('init', 'ite'): rep.skip('choice', st.name, '/repo/src/parse.yy', st.line, show(got)); continue
                    rep.check(got in opts, 'choice', st.name, '/repo/src/parse.yy', st.line, '%s: %s gives %s, expected %s (%s)' % (given[0], '/'.join(' '.join(m) for m in sets[given[0]]), show(got), '/'.join(show(o) for o in opts), where), key=key)
                    if got in opts: reached.setdefault(given[0], []).append(st)
                elif names[0] in DEFAULT:
                    got = strip_conv(arg)
                    if opaque_terms(got) or got[0] in ('init', 'ite'): rep.skip('default', st.name, '/repo/src/parse.yy', st.line, show(got)); continue
                    rep.check(got == table.get(DEFAULT[names[0]]), 'default', st.name, '/repo/src/parse.yy', st.line, '%s is %s when not given, documented default %s' % (names[0], show(got), DEFAULT[names[0]]), key=key)
                continue
            mine = kws(arg)
            if given:
                kw = given[0]
                if mine:
                    why = J.value(st, a[0], kw, arg)
                    if why == 'unknown': rep.skip('value', st.name, '/repo/src/parse.yy', st.line, show(arg)); reached.setdefault((kw, st.name, i), []).append(st); continue
                    rep.check(why is None, 'value', st.name, '/repo/src/parse.yy', st.line, 'argument %d: %s  (%s)' % (i + 1, why, where), key=key)
                    reached.setdefault((kw, st.name, i), []).append(st)
                elif opaque_terms(arg): reached.setdefault((kw, st.name, i), []).append(st)
            else:
                foreign = {k for k in mine}
                rep.check(not foreign, 'value', st.name, '/repo/src/parse.yy', st.line, 'argument %d receives the %s value, though %s was not given (%s)' % (i + 1, '/'.join(sorted(k[2] for k in foreign)), '/'.join(names), where), key=key)
                if names[0] in DEFAULT and is_num(arg): rep.check(arg == DEFAULT[names[0]], 'default', st.name, '/repo/src/parse.yy', st.line, '%s is %s when not given, documented default %s' % (names[0], show(arg), show(DEFAULT[names[0]])), key=key)
                src = FROM_CONFIG.get((st.name, i))
                if src and not foreign:
                    locs = {x[1][2] for x in all_inits(arg) if root(x[1]) == ('parm', 'pp')}
                    if locs: rep.check(locs == {src}, 'value', st.name, '/repo/src/parse.yy', st.line, 'argument %d defaults to the configured %s, expected %s' % (i + 1, '/'.join(sorted(locs)), src), key=key)
    grid = any('YES' in m for m in sets.get('GRID', ()))
    drawn = [s for s in R.steps if s.name == 'MaRC::MapCommand::grid_intervals']
    if program().q('MaRC::MapCommand::grid_intervals'):
        if grid: rep.check(bool(drawn), 'grid requested', 'MaRC::MapCommand::grid_intervals', '/repo/src/parse.yy', q.line, 'GRID: YES makes no grid (%s)' % where, key='grid.yes')
        else: rep.check(not drawn, 'grid requested', 'MaRC::MapCommand::grid_intervals', '/repo/src/parse.yy', q.line, 'a grid is made though none was requested (%s)' % where, key='grid.no')
    # each keyword given must have reached one of its interfaces
    for kw, mods in sets.items():
        if kw not in APPLIES: continue
        cands = APPLIES[kw]
        if cands[0][3][0] == 'choice':
            if all(not (m and (cands[0][3][2] if cands[0][3][2] is not None else J.avg).get(m[0])) for m in mods): continue
            hit = reached.get(kw)
            if not hit:
                # the value may equal the default and need no call: only a call with another value, or none at all for a non-default, is wrong
                done = [(k, n) for k, n, i, a in cands if (k, n) in {(s.kind, s.name) for s in R.steps}]
                wantcall = any(k == 'call' for k, n, i, a in cands)
                if wantcall and not done and any(program().q(n) for k, n, i, a in cands if k == 'call') and any((cands[0][3][2] or {}).get(m[0]) == TRUE or kw in ('DATA_TYPE', 'INVERT') for m in mods if m):
                    rep.bad('setting applied', kw, '/repo/src/parse.yy', q.line, '%s: %s has no effect (%s)' % (kw, '/'.join(' '.join(m) for m in mods), where), key=kw)
                continue
            sts = hit
        else:
            sts = [s for (k2, n, i), ss in ((x, y) for x, y in reached.items() if isinstance(x, tuple)) if k2 == kw for s in ss]
            if not sts:
                if kw == 'FLATTENING' or not any(callable_(k, n) for k, n, i, a in cands): continue
                if indirectly(R, kw): rep.skip('setting applied', kw, '/repo/src/parse.yy', q.line, 'passed on another way'); continue
                if not relevant(kw, sets, R): continue
                rep.bad('setting applied', kw, '/repo/src/parse.yy', q.line, 'the %s value has no effect (%s)' % (kw, where), key=kw); continue
        # not under a condition that fails for plain valid values
        for s in sts:
            g = land(*s.guard)
            for n in (1, 7, 30):
                m = {k: num(n) for k in kws(g)}
                if not m: break
                gv = close(g, m); pv = close(land(*[x for x in R.pc if kws(x) & set(m)]), m)
                if pv != FALSE and gv == FALSE:
                    rep.bad('setting applied', kw, '/repo/src/parse.yy', s.line, 'the %s value is not used when it is %d (condition %s)' % (kw, n, show(g)), key=kw); break
            else: rep.ok('setting applied', kw, '/repo/src/parse.yy', s.line); continue
            if not kws(g): rep.ok('setting applied', kw, '/repo/src/parse.yy', s.line)

def close(t, m):
    try: return subst(t, m)
    except Exception: return t

def callable_(k, n): return bool(program().q(n)) or k == 'make' and bool(record_of(program(), n))

def indirectly(R, kw):
    """The value reaches a step outside the table, or an unresolved object."""
    for s in R.steps:
        for a in s.args:
            if any(k[2] == kw for k in kws(a)): return True
        if s.snap and any(k[2] == kw for v in s.snap.values() for k in kws(v)): return True
    return False

# productions whose values are documented as accepted without effect in some settings
def relevant(kw, sets, R):
    made = {s.name for s in R.steps if s.kind == 'make'}
    if kw in ('SUB_OBSERV_LAT', 'SUB_OBSERV_LON', 'RANGE') and 'MU0' in sets: return False
    if kw in ('SUB_SOLAR_LAT', 'SUB_SOLAR_LON') and 'MU' in sets: return False
    if kw in ('GRID_INTERVAL', 'LAT_GRID_INTERVAL', 'LON_GRID_INTERVAL') and any(m and m[0] == 'NO' for m in sets.get('GRID', ())): return False
    return True

def all_inits(t): return [x for x in atoms(t) if x[0] == 'init']

def config(rep, S):
    for q in S.g.prods.values():
        if q.lhs not in S.reachable('user_file_parse') or not q.useful: continue
        tree = S.with_prod('user_file_parse', q)
        if tree is None: continue
        R = Runner(S); R.run(tree, 1)
        sets = read_settings(tree)
        final = {}
        for s in R.steps:
            if s.kind == 'config': final[s.name] = s
        for kw in sets:
            if kw == 'GRID_INTERVAL' and ('LAT_GRID_INTERVAL' in sets or 'LON_GRID_INTERVAL' in sets): continue
            for fld in CONFIG.get(kw, ()):
                st = final.get(fld)
                v = {a for a in (('kw', 1, kw, 'val'), ('kw', 1, kw, 'ival'))}
                if st is None: rep.bad('configuration default', 'user_file_parse', '/repo/src/parse.yy', q.line, 'the configured %s is not kept as a default (%s)' % (kw, fld), key='config.' + fld); continue
                got = strip_conv(R.env.get(('fld', ('parm', 'pp'), fld), st.args[0]))
                leaves = {strip_conv(x) for g, x in cases(got) if satisfiable(land(*(R.pc + list(g))))}
                seen = {k for x in leaves for k in kws(x)}
                if leaves and leaves <= v: rep.ok('configuration default', 'user_file_parse', '/repo/src/parse.yy', st.line, kw)
                elif seen - v or not seen: rep.bad('configuration default', 'user_file_parse', '/repo/src/parse.yy', st.line, 'the configured %s becomes %s in the default %s' % (kw, show(got), fld), key='config.' + fld)
                else: rep.skip('configuration default', 'user_file_parse', '/repo/src/parse.yy', st.line, show(got))
        for fld, st in final.items():
            if any(fld in CONFIG.get(kw, ()) for kw in sets): continue
            got = strip_conv(R.env.get(('fld', ('parm', 'pp'), fld), st.args[0]))
            if is_num(got) or got[0] == 'fc' or kws(got): rep.bad('configuration default', 'user_file_parse', '/repo/src/parse.yy', st.line, 'the default %s becomes %s though the configuration does not set it' % (fld, show(got)), key='config.' + fld)
            else: rep.ok('configuration default', 'user_file_parse', '/repo/src/parse.yy', st.line, fld)

def radii(rep, S):
    """Radii and flattening reach their own members."""
    for q in S.g.of('radii'):
        tree = S.with_prod('map_setup', q)
        R = Runner(S); R.run(tree, 1)
        sets = read_settings(tree)
        for s in R.steps:
            if s.kind == 'call' and s.name.endswith('Radii::validate') and s.snap:
                rec = {k.rsplit('.', 1)[-1]: v for k, v in s.snap.items()}
                for kw, fld in (('EQ_RAD', 'eq_rad'), ('POL_RAD', 'pol_rad'), ('FLATTENING', 'flattening')):
                    if fld not in rec: continue
                    ks = kws(rec[fld])
                    want = {('kw', 1, kw, 'val')} if kw in sets else set()
                    rep.check(ks == want and (not want or strip_conv(rec[fld]) in want), 'value', s.name, '/repo/src/parse.yy', s.line, '%s holds %s' % (fld, show(rec[fld])), key='radii.' + fld)

def completion(rep, S):
    """Two of radius, radius and flattening determine the third."""
    f = program().one('MaRC::Radii::validate')
    E = Evaluator(opaque=NOISE); E.run(f)
    fld = lambda n: ('init', ('fld', ('deref', ('v', 'this')), n))
    e, q, fl = fld('eq_rad'), fld('pol_rad'), fld('flattening')
    a, b, c = ('v', 'eq'), ('v', 'pol'), ('v', 'fl')
    unset = num(-1)
    for what, m, want in (('both radii', {e: a, q: b, fl: unset}, (a, b)), ('equatorial radius and flattening', {e: a, q: unset, fl: c}, (a, mul(a, sub(num(1), c)))),
                          ('polar radius and flattening', {e: unset, q: b, fl: c}, (div(b, sub(num(1), c)), b))):
        good = {cmp('<', a, num(0), False): FALSE, cmp('<=', a, num(0), False): FALSE, cmp('<', num(0), a, False): TRUE, cmp('<', b, num(0), False): FALSE, cmp('<=', b, num(0), False): FALSE, cmp('<', num(0), b, False): TRUE,
                cmp('<=', num(0), a, False): TRUE, cmp('<=', num(0), b, False): TRUE, cmp('<=', num(0), c, False): TRUE, cmp('<', c, num(1), False): TRUE, cmp('<', c, num(0), False): FALSE, cmp('<=', num(1), c, False): FALSE}
        for n, w in zip(('eq_rad', 'pol_rad'), want):
            v = E.final.env.get(fld(n)[1], fld(n))
            v = subst(subst(v, m), good)
            if v[0] == 'ite': rep.skip('value', f['q'], f['file'], f['line'], '%s from %s: %s' % (n, what, show(v))); continue
            rep.check(v == w, 'value', f['q'], f['file'], f['line'], '%s from %s is %s' % (n, what, show(v)), key='completion.%s.%s' % (n, what))

def members(rep, S):
    """Documented defaults kept in the classes themselves."""
    p = program()
    for setter, (want, kw) in MEMBER_DEFAULT.items():
        fs = [f for f in p.q(setter) if f['params'] and 'body' in f]
        if not fs: continue
        cls = setter.rsplit('::', 1)[0]
        flds = set()
        for f in fs:
            E = analyse(f)
            flds |= {e.loc[2] for e in E.events if e.kind == 'store' and e.loc[0] == 'fld' and root(e.loc[1])[0] == 'deref'}
        ctors = [f for f in p.q(cls + '::' + cls.rsplit('::', 1)[1]) if 'body' in f and not f.get('implicit')]
        for c in ctors:
            E = analyse(c)
            for fld in sorted(flds):
                v = [x for l, x in E.final.env.items() if l[0] == 'fld' and l[2] == fld]
                if len(v) != 1 or not (is_num(v[0]) or v[0][0] == 'b'): rep.skip('default', cls, c['file'], c['line'], fld); continue
                rep.check(v[0] == want, 'default', cls, c['file'], c['line'], '%s: %s starts as %s, documented default %s' % (kw, fld, show(v[0]), show(want)), key='%s.%s' % (cls, fld))
    for c in [f for f in p.q('MaRC::ParseParameter::ParseParameter') if 'body' in f]:
        E = analyse(c)
        for fld in ('lat_interval', 'lon_interval'):
            v = [x for l, x in E.final.env.items() if l[0] == 'fld' and l[2] == fld]
            if len(v) == 1 and is_num(v[0]): rep.check(v[0] == num(10), 'default', 'MaRC::ParseParameter', c['file'], c['line'], '%s starts as %s, documented default 10' % (fld, show(v[0])), key='config.' + fld)

def mosaics(rep, S, used):
    """Averaging, in each projection, with several images in a plane."""
    two = [q for q in S.g.of('image') if q.rhs.count('image') == 1]
    for c in S.g.of('projection_type'):
        for avg in S.g.of('averaging'):
            ch = {'averaging': avg, 'projection_type': c}
            for nt in S.reachable(c.rhs[0]):
                o = [q for q in S.g.of(nt) if 'options' in q.rhs]
                if o: ch[nt] = o[0]
            for q in two: rep.part(judge, rep, S, S.with_prod('map_setup', q, ch), q, 'mosaic', used)

def sweep(rep, S, choose, label, used):
    for q in S.g.prods.values():
        if q.lhs not in S.reachable('map_setup') or not q.useful or q.lhs == '$accept': continue
        ch = {k: v for k, v in choose.items() if k != q.lhs}
        tree = S.with_prod('map_setup', q, ch)
        if tree is not None: rep.part(judge, rep, S, tree, q, label, used)

def pick(S, lhs, *has):
    for q in S.g.of(lhs):
        if all(h in q.rhs for h in has): return q
    return None

def contexts(S):
    g = S.g
    out = [('plain', {})]
    a = dict(latitude_sub=pick(S, 'latitude_sub', "'S'"), longitude=pick(S, 'longitude', "'E'"), range=pick(S, 'range', 'AU'), position_angle=pick(S, 'position_angle', 'CW'))
    b = dict(latitude=pick(S, 'latitude', "'G'"), longitude=pick(S, 'longitude', "'W'"), rotation=pick(S, 'rotation', 'RETROGRADE'), latitude_sub=pick(S, 'latitude_sub', "'S'"))
    out += [('south, east', {k: v for k, v in a.items() if v}), ('planetographic, west, retrograde', {k: v for k, v in b.items() if v})]
    return out

def check(rep):
    setup_pi()
    S = sentences()
    used = set()
    for label, ch in contexts(S):
        sweep(rep, S, ch, label, used)
        # every production of a plane, in each kind of plane and projection
        for sel in ('plane_type', 'projection_type'):
            for c in S.g.of(sel):
                for q in S.g.prods.values():
                    if q.lhs in S.reachable(c.rhs[0]) and q.useful:
                        sub_ = S.with_prod(c.rhs[0], q, {k: v for k, v in ch.items() if k != q.lhs})
                        if sub_ is None: continue
                        tree = graft(S, c, sub_, ch)
                        rep.part(judge, rep, S, tree, q, label, used)
    rep.part(mosaics, rep, S, used)
    rep.part(members, rep, S)
    rep.part(config, rep, S)
    rep.part(radii, rep, S)
    rep.part(completion, rep, S)
    rep.part(scanner, rep)

ALIAS = {'PROJECTION': 'TYPE', 'CENTRIC_LAT': 'CENTRIC', 'GRAPHIC_LAT': 'GRAPHIC', 'Y': 'YES', 'N': 'NO'}
UNITS = ["'C'", "'G'", "'N'", "'S'", "'E'", "'W'", 'AU', 'KM', 'CW', 'CCW', 'AUTO', 'TABLE']
POLES = {'N': "'N'", 'NORTH': "'N'", 'S': "'S'", 'SOUTH': "'S'"}

def scanner(rep):
    """Each keyword of the input file is scanned as the token of that name, and
    what may follow it can be scanned where the scanner then is."""
    from lexer import lexer
    L, g = lexer(), grammar()
    F = '/repo/src/lexer.ll'
    names = {int(v['tok']): n for n, v in g.terminals.items() if v['tok'] is not None}
    inv = {v: k for k, v in L.sc.items()}
    canon = lambda t: t.strip('"').lstrip('_')
    used = {t for q in g.prods.values() if q.useful for t in q.rhs if t in g.terminals}
    def token(a):
        """The one terminal rule a yields ('' none, None unknown)."""
        o = L.outcome(a)
        vs = {v for _, v in o['rets']}
        if not vs: return ''
        if len(vs) == 1 and is_num(list(vs)[0]): return names.get(int(list(vs)[0][1]))
        return None
    kwterm = {canon(t): t for t in g.terminals if canon(t).replace('_', '').isalnum() and canon(t).isupper() and t not in ('NUM', 'VAR', 'FNCT', 'NEG', '_STRING')}
    words = L.words('INITIAL')
    for w, a in sorted(words.items()):
        t = token(a)
        if t is None or t == '': continue
        c = ALIAS.get(w, w)
        if c in kwterm:
            rep.check(t == kwterm[c], 'keyword token', 'scanner', F, L.outcome(a)['line'], 'the keyword %s is taken for %s' % (w, canon(t)), key='kw|' + w)
    for u in UNITS:
        if u not in g.terminals: continue
        w = u.strip("'")
        a, n = L.scan(w + '\n', 'expression')
        t = token(a) if n == len(w) else None
        if t is None and n == len(w): rep.skip('keyword token', 'scanner', F, 0, w); continue
        rep.check(t == u, 'keyword token', 'scanner', F, L.outcome(a)['line'], '%s after a number is taken for %s' % (w, t), key='unit|' + w)
    if 'pole' in L.sc:
        for w, u in POLES.items():
            a, n = L.scan(w + '\n', 'pole')
            rep.check(n == len(w) and token(a) == u, 'keyword token', 'scanner', F, L.outcome(a)['line'] if n else 0, 'the pole %s is taken for %s' % (w, token(a) if n else None), key='pole|' + w)
    # what can be scanned in each state
    can = {}
    for sc in L.sc:
        ts = set()
        for w in ('abc', ' abc', '12', '-', '+', '(', 'A', 'N', 'S', ':') : 
            a, n = L.scan(w, sc)
            if n: ts.add(token(a))
        for w in list(words) + [u.strip("'") for u in UNITS] + list(POLES):
            a, n = L.scan(w + '\n', sc)
            if n == len(w): ts.add(token(a))
        a, n = L.scan('sin', sc)
        if n == 3 and token(a) is None: ts |= {'FNCT', 'VAR'}
        can[sc] = ts
    first = firsts(g)
    def spaces(sc):
        a, n = L.scan(' ', sc)
        return n and token(a) == ''
    for q in g.prods.values():
        if not q.useful: continue
        for i, k in enumerate(q.rhs):
            if k not in g.terminals or canon(k) not in kwterm or q.rhs[i + 1:i + 2] != ["':'"] or i + 2 >= len(q.rhs): continue
            ws = [w for w, a in words.items() if token(a) == k]
            if not ws: rep.bad('keyword token', 'scanner', F, 0, 'the keyword %s cannot be entered' % canon(k), key='cannot|' + canon(k)); continue
            nxt = q.rhs[i + 2]
            want = first.get(nxt, {nxt}) if nxt in g.nonterminals else {nxt}
            for w in ws:
                a = words[w]
                st = inv.get(L.outcome(a)['begin'], 'INITIAL')
                b, n = L.scan(':', st)
                if not (n == 1 and token(b) == "':'"): rep.bad('keyword token', 'scanner', F, L.outcome(a)['line'], 'no colon is recognised after %s' % w, key='colon|' + w); continue
                st2 = inv.get(L.outcome(b)['begin'], st)
                miss = {t for t in want if t in g.terminals and t not in can[st2] and t in used and t != 'error'}
                rep.check(not miss, 'keyword token', 'scanner', F, L.outcome(a)['line'], 'the value of %s cannot be entered: %s is not recognised after it' % (w, ', '.join(sorted(map(canon, miss)))), key='value|' + w)
    # a file name is one word: blanks around it and a comment after it are not part of it
    for k in ('MAP', 'IMAGE', 'FLAT_FIELD'):
        if k not in words: continue
        a = words[k]
        st = inv.get(L.outcome(a)['begin'], 'INITIAL')
        b, n = L.scan(':', st)
        if n != 1: continue
        st = inv.get(L.outcome(b)['begin'], st)
        for name in ['a%sb' % chr(c) for c in range(33, 127) if chr(c) not in ':'] + ['x.fits']:
            rest, got = '  ' + name + ' # note\n', None
            for _ in range(6):
                b, n = L.scan(rest, st)
                if not n: break
                lex, rest = rest[:n], rest[n:]
                st2 = inv.get(L.outcome(b)['begin'], st)
                if token(b) != '': got = lex if token(b) in ('_STRING', '"text"') else None; break
                st = st2
            rep.check(got == name, 'keyword token', 'scanner', F, L.outcome(a)['line'], 'the file name %r given for %s is taken for %r' % (name, k, got), key='file|' + k)
    # text values are the text entered
    for sc, w in (('string', 'abc.fits'), ('comment', 'a comment')):
        if sc not in L.sc: continue
        a, n = L.scan(w, sc)
        rep.check(n == len(w) and token(a) in ('_STRING', '"text"'), 'keyword token', 'scanner', F, L.outcome(a)['line'] if n else 0, 'text is cut short: %r of %r' % (w[:n], w), key='text|' + sc)
        E = L.outcome(a)['E']
        st = [e for e in E.events if e.kind == 'store' and e.loc[0] == 'fld' and e.loc[2] == 'sval']
        if st and st[-1].value[0] == 'ret':
            src = [e for e in E.events if e.kind == 'call' and e.result == st[-1].value]
            if src and src[0].args: rep.check('yyget_text' in str(src[0].args[0]) or 'yytext' in str(src[0].args[0]), 'keyword token', 'scanner', F, L.outcome(a)['line'], 'the text handed on is not the text entered', key='yytext|' + sc)
        else: rep.bad('keyword token', 'scanner', F, L.outcome(a)['line'], 'the text entered is not handed on', key='sval|' + sc) if not st else rep.skip('keyword token', 'scanner', F, 0, 'text')

def firsts(g):
    """FIRST sets of the grammar's nonterminals (terminals only)."""
    nullable, ch = set(), True
    while ch:
        ch = False
        for q in g.prods.values():
            if q.lhs not in nullable and all(s in nullable for s in q.rhs): nullable.add(q.lhs); ch = True
    F, ch = {n: set() for n in g.nonterminals}, True
    while ch:
        ch = False
        for q in g.prods.values():
            if not q.useful: continue
            for s in q.rhs:
                new = F[s] if s in F else {s}
                if not new <= F[q.lhs]: F[q.lhs] |= new; ch = True
                if s not in nullable: break
    return F

def graft(S, c, sub_, ch):
    """A whole map whose production c has sub_ below it."""
    outer = S.with_prod('map_setup', c, ch)
    def go(t):
        if t.prod is c: return Tree(c, [sub_])
        return Tree(t.prod, [go(k) if isinstance(k, Tree) else k for k in t.kids])
    return go(outer)
