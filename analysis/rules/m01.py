"""M01: every store into a map plane is found by expanding MapFactory::plot and
MapFactory::make_map for each pixel type; at each store the branch predicate in
force must imply that the source read succeeded and that the datum lies in the
inclusive range held by the plotting parameters, the stored value must be that
datum, the position the one handed in; conversely the predicate must be implied
by 'read succeeded and in range'.  make_map: the plane starts as samples*lines
blanks, the blank is the type's empty value or the user's blank after a range
check, and the plotting functor forwards latitude, longitude and position."""
from rulelib import *

MINIMUM = {'store is guarded': 6, 'blank fill': 6, 'range adopted': 12, 'functor forwards': 6}

def check(r):
    p = program()
    fmin, fmax = getter_field(p, 'MaRC::extrema::minimum'), getter_field(p, 'MaRC::extrema::maximum')
    plots = p.some('MaRC::MapFactory::plot', n=4, pred=lambda f: f.get('ta'))
    makes = p.some('MaRC::MapFactory::make_map', n=3)
    for f in plots: plot(r, p, f, fmin, fmax)
    for f in makes: make_map(r, p, f, fmin, fmax)
    if len(makes) < 6 or len(plots) < 6: raise AnalysisError('make_map/plot: fewer than six pixel types instantiated')

def params_fields(p, rec):
    def one(pred, what):
        fs = [f for f in rec['fields'] if pred(f)]
        if len(fs) != 1: raise AnalysisError('MapFactory::parameters: no unique %s member' % what)
        return fs[0]['n']
    return dict(map=one(lambda f: 'vector<' in f['t'], 'map'), minmax=one(lambda f: 'extrema<' in f['t'], 'range'),
                info=one(lambda f: 'plot_info' in f['t'], 'info'), source=one(lambda f: 'SourceImage' in f['t'], 'source'))

def plot(r, p, f, fmin, fmax):
    T = f['ta'][0]
    recs = [x for t, x in p.records.items() if t == base_type(f['params'][0]['t'])]
    if not recs: raise AnalysisError('record of %s not found' % f['params'][0]['t'])
    F = params_fields(p, recs[0])
    E = analyse(f, opaque=NOISE)
    P = ('parm', f['params'][0]['n'])
    mapc = ('fld', P, F['map'])
    reads = [e for e in E.events if e.kind == 'call' and e.fn == 'MaRC::SourceImage::read_data']
    if not reads: raise AnalysisError('plot<%s>: no source read' % T)
    off, lat, lon = [('init', ('parm', f['params'][i]['n'])) for i in (3, 1, 2)]
    stores = [e for e in E.events if e.kind in ('store', 'swap', 'fill', 'fillrange', 'resize', 'push') and touches(e, mapc)]
    if not stores: raise AnalysisError('plot<%s>: no store into the map found' % T)
    key = 'plot<%s>' % TA_NAMES.get(T, T)
    for e in E.events:
        if e.kind in ('call', 'icall') and any(isinstance(a, tuple) and a[0] == 'ref' and a[1] == mapc for a in e.d.get('args', [])):
            r.bad('store is guarded', f['q'], e.file, e.line, 'the map is handed to %s, which may change it' % e.d.get('fn'), key)
    for e in stores:
        if e.kind != 'store': r.bad('store is guarded', f['q'], e.file, e.line, 'map changed other than by storing one datum', key); continue
        v = untrunc(e.value)
        g = land(*e.guard)
        src = [x for x in reads if v == ('out', x.result, 2) or (x.args[2][0] == 'ref' and v == ('out', x.result, 2))]
        if v[0] == 'call' and v[1] in ('round', 'floor', 'ceil', 'nearbyint', 'rint'): v = v[2][0]
        if not r.check(bool(src), 'store value is the datum read', f['q'], e.file, e.line, 'value stored is %s, not the datum the source supplied' % show(e.value), key): continue
        x = src[0]
        r.check(e.loc[2] == off, 'store position', f['q'], e.file, e.line, 'stored at %s instead of the position handed in' % show(e.loc[2]), key)
        r.check(x.args[0] == lat and x.args[1] == lon, 'read at the pixel', f['q'], x.file, x.line, 'source read at (%s, %s), not at the pixel\'s (lat, lon)' % (show(x.args[0]), show(x.args[1])), key)
        r.check(implies(g, x.result), 'store is guarded', f['q'], e.file, e.line, 'a pixel is written although the source read failed', key + ' read')
        mn, mx = ('init', ('fld', ('fld', P, F['minmax']), fmin)), ('init', ('fld', ('fld', P, F['minmax']), fmax))
        lo, hi = cmp('<=', val(mn), v, False), cmp('<=', v, val(mx), False)
        both = land(g, has(mn), has(mx))
        r.check(implies(both, lo), 'store is guarded', f['q'], e.file, e.line, 'a datum below the minimum in force may be written', key + ' minimum')
        r.check(implies(both, hi), 'store is guarded', f['q'], e.file, e.line, 'a datum above the maximum in force may be written', key + ' maximum')
    # completeness: accepted data are written
    e0 = [e for e in stores if e.kind == 'store']
    if e0 and reads:
        x = reads[0]; v = ('out', x.result, 2)
        mn, mx = ('init', ('fld', ('fld', P, F['minmax']), fmin)), ('init', ('fld', ('fld', P, F['minmax']), fmax))
        want = land(x.result, has(mn), has(mx), cmp('<=', val(mn), v, False), cmp('<=', v, val(mx), False))
        got = lor(*[land(*e.guard) for e in e0])
        ex = opaque_terms(got) - {x.result}
        if not implies(want, got):
            if ex: r.skip('accepted data are written', f['q'], f['file'], f['line'], 'guard depends on %s' % [show(t) for t in ex])
            else: r.bad('accepted data are written', f['q'], e0[0].file, e0[0].line, 'a datum inside the inclusive range may be dropped: written only if %s' % show(got)[:300], key)
        else: r.ok('accepted data are written', f['q'], e0[0].file, e0[0].line)

def touches(e, cont):
    for k in ('loc', 'cont', 'a', 'b'):
        l = e.d.get(k)
        while isinstance(l, tuple) and l:
            if l == cont: return True
            if l[0] in ('elem', 'fld') : l = l[1]
            else: break
    it = e.d.get('it')
    return bool(it) and isinstance(it, tuple) and len(it) > 1 and it[1] == cont

def make_map(r, p, f, fmin, fmax):
    T = f['ta'][0]
    key = 'make_map<%s>' % TA_NAMES.get(T, T)
    E = analyse(f, opaque=NOISE)
    calls = [e for e in E.events if e.kind == 'call' and e.fn.endswith('::plot_map')]
    if not calls: raise AnalysisError('make_map<%s>: no call of plot_map' % T)
    rv = E.value
    info = ('parm', f['params'][2]['n'])
    S, L = ('init', ('fld', info, getter_field(p, 'MaRC::plot_info::samples'))), ('init', ('fld', info, getter_field(p, 'MaRC::plot_info::lines')))
    bf = ('init', ('fld', info, getter_field(p, 'MaRC::plot_info::blank')))
    if rv[0] != 'vec': r.skip('blank fill', f['q'], f['file'], f['line'], 'returned plane is %s' % show(rv)); r.counts['blank fill'] = r.counts.get('blank fill', 0) + 1
    else:
        r.check(rv[1] == mul(S, L), 'plane size', f['q'], f['file'], f['line'], 'plane has %s pixels, not samples*lines' % show(rv[1]), key)
        fill = rv[2]
        if T in LIMITS:
            lo, hi = LIMITS[T]
            # any value the user did not ask for must be the type's empty value
            w, wo = assume_has(fill, bf, True), assume_has(fill, bf, False)
            r.check(untrunc(w) == val(bf), 'blank fill', f['q'], f['file'], f['line'], 'with a user blank the plane starts as %s' % show(w), key + ' user')
            r.check(wo == num(0), 'blank fill', f['q'], f['file'], f['line'], 'without a user blank the plane starts as %s' % show(wo), key + ' default')
            g = land(*calls[0].guard, has(bf))
            for c, w in ((cmp('<=', num(lo), val(bf), True), 'below'), (cmp('<=', val(bf), num(hi), True), 'above')):
                r.check(implies(g, c) , 'blank is representable', f['q'], f['file'], f['line'], 'a blank %s the range of %s is used' % (w, T), key + ' ' + w)
            for c in (num(lo), num(hi)):
                m = {val(bf): c}
                dead = subst(land(*[x for x in calls[0].guard]), {**m, has(bf): TRUE}) == FALSE
                r.check(not dead, 'blank limits are accepted', f['q'], f['file'], f['line'], 'blank %s, representable in %s, is refused' % (show(c), T), key + ' ' + show(c))
        else:
            r.check(fill == ('fc', 'nan'), 'blank fill', f['q'], f['file'], f['line'], 'floating-point plane starts as %s, not NaN' % show(fill), key)
    # adopted range
    cons = [e for e in E.events if e.kind == 'construct' and 'MapFactory::parameters' in e.cls]
    if not cons: raise AnalysisError('make_map<%s>: plotting parameters are not constructed' % T)
    rec = [x for t, x in p.records.items() if x['q'] == 'MaRC::MapFactory::parameters' and ('<%s>' % T) in t]
    F = params_fields(p, rec[0])
    obj = cons[0].obj
    st = E.final
    mm = E.read(st, ('fld', obj, F['minmax']))
    mmloc = mm[1] if mm[0] in ('obj', 'init') else ('fld', obj, F['minmax'])
    user = ('parm', f['params'][1]['n'])
    for fld, nm, pick, d in ((fmin, 'minimum', 'max', 0), (fmax, 'maximum', 'min', 1)):
        got = E.read(st, ('fld', mmloc, fld))
        u = ('init', ('fld', user, fld))
        w, wo = assume_has(val(got), u, True), assume_has(val(got), u, False)
        if opaque_terms(w) or got[0] == 'init' and got[1] == ('fld', mmloc, fld): r.skip('range adopted', f['q'], f['file'], f['line'], 'cannot follow the %s' % nm); r.counts['range adopted'] = r.counts.get('range adopted', 0) + 1; continue
        other = ('init', ('fld', user, fmax if fld == fmin else fmin))
        ok = contains(w, lambda t: t == u or t == val(u)) and not contains(w, lambda t: t == other)
        r.check(ok, 'range adopted', f['q'], f['file'], f['line'], 'the user %s is not what limits the data: %s' % (nm, show(w)), key + ' ' + nm)
        if T in LIMITS:
            c = untrunc(wo)
            if c[0] == 'call' and c[1] in ('max', 'min'):
                a = [approx(x) for x in c[2]]
                c = num(int({'max': max, 'min': min}[c[1]](a))) if None not in a else c
            a = approx(c)
            ok = a is not None and abs(a - LIMITS[T][d]) <= 1e-9 * abs(LIMITS[T][d])
            r.check(ok, 'default range is the type\'s', f['q'], f['file'], f['line'], 'without a user %s the data are limited by %s' % (nm, show(wo)), key + ' default ' + nm)
    # functor
    lams = []
    for a in calls[0].args:
        v = a
        if v[0] == 'ref': v = E.read(st, v[1])
        if v[0] == 'lam': lams.append(v)
    if not lams: r.skip('functor forwards', f['q'], calls[0].file, calls[0].line, 'plot functor is not a lambda'); r.counts['functor forwards'] = r.counts.get('functor forwards', 0) + 1; return
    n0 = len(E.events)
    E.opaque.add('MaRC::MapFactory::plot')
    a = [('v', 'lat'), ('v', 'lon'), ('v', 'pos')]
    s2 = st.copy(); s2.dead = False
    E.stack.append(E.lamfr[lams[0][2]])
    E.call_lambda(lams[0], a, s2, E.lamfr[lams[0][2]])
    E.stack.pop()
    pc = [e for e in E.events[n0:] if e.kind == 'call' and e.fn == 'MaRC::MapFactory::plot']
    if not pc: r.bad('functor forwards', f['q'], calls[0].file, calls[0].line, 'the functor given to plot_map does not plot', key); return
    for e in pc:
        ok = list(e.args[1:]) == a
        r.check(ok, 'functor forwards', f['q'], e.file, e.line, 'pixel plotted with (%s) instead of (lat, lon, position)' % ', '.join(show(x) for x in e.args[1:]), key)
        r.check(e.args[0] == ('ref', obj), 'functor uses the parameters', f['q'], e.file, e.line, 'plots with other parameters', key)
    s, l = calls[0].args[:2]
    r.check((s, l) == (S, L), 'plot_map extent', f['q'], calls[0].file, calls[0].line, 'plot_map is given (%s, %s), not (samples, lines)' % (show(s), show(l)), key)

def assume_has(t, o, v):
    """Simplify t assuming has(o) == v."""
    h = has(o)
    return subst(t, {h: TRUE if v else FALSE})
