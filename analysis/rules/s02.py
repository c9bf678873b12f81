"""S02: the condition under which PhotoImage::read_data succeeds is computed as a
formula over its guards; it must imply, for the pixel actually read: the viewing
geometry reported the point visible; the pixel is inside [left,right) x
[top,bottom); it is on the body whenever a body mask exists; the photo pixel is
not NaN; interpolation and photometric correction succeeded and the final datum
is not NaN.  Constructors must set the area from the four nibbles (the
interpolation from the same ones), the mask exactly when sky removal is on.
The geometry must report a point visible only if the cosine of its emission
angle exceeds the limit and, with terminator avoidance, it is lit; every mask
pixel set must have been hit by its own line of sight.  Interpolation only uses
pixels of its area."""
from rulelib import *

MINIMUM = {'visible point': 1, 'inside the usable area': 4, 'on the body': 1, 'not blank': 2, 'area from nibbles': 4, 'interpolation area': 4, 'mask when sky is removed': 1, 'visibility': 2, 'mask pixel': 1}
THIS = ('deref', ('v', 'this'))
OP = NOISE | {'MaRC::ViewingGeometry::latlon2pix', 'MaRC::PhotoImage::data_weight', 'MaRC::InterpolationStrategy::interpolate', 'MaRC::PhotometricCorrection::correct'}
def fld(n): return ('init', ('fld', THIS, n))
def negor(x): return lnot(x)

def sites(f): return f['q'], f['file'], f['line']

def check(r):
    p = program()
    for part in (photo, ctor, bilinear, geometry, mask, factory): r.part(part, r, p)

def size_fields(p):
    """Members holding the photo's samples and lines, from its constructor."""
    f = [f for f in p.q('MaRC::PhotoImage::PhotoImage') if len(f['params']) == 5]
    if not f: raise AnalysisError('PhotoImage constructor not found')
    f = f[0]
    E = analyse(f, opaque=NOISE | {'MaRC::ViewingGeometry::body_mask', 'MaRC::PhotoImageParameters::validate_parameters'})
    out = []
    for n in [x['n'] for x in f['params'] if 'unsigned long' in x['t']]:
        h = [d['n'] for d in p.records['MaRC::PhotoImage']['fields'] if E.read(E.final, ('fld', THIS, d['n'])) == ('init', ('parm', n))]
        if len(h) != 1: raise AnalysisError('no member holds the photo size %s' % n)
        out += h
    return out

def split_index(idx, samples):
    """(sample, line) terms of line*samples + sample."""
    d = to_poly(idx)
    k, i = {}, {}
    for m, c in d.items():
        e = dict(m)
        if e.get(samples, 0) == 1:
            del e[samples]; k[tuple(sorted(e.items(), key=lambda x: key(x[0])))] = c
        else: i[m] = c
    return from_poly(i), from_poly(k)

def photo(r, p):
    rec = p.records['MaRC::PhotoImage']
    f = p.one('MaRC::PhotoImage::read_data', 5)
    E = analyse(f, opaque=OP)
    q, fi, li = sites(f)
    us = units(E.value)
    us = us + [(settle(a, us), v) for a, v in us if settle(a, us) != a]
    succ = land(*([E.value] + [a if v else lnot(a) for a, v in us]))
    vis = [e for e in E.events if e.kind == 'call' and e.fn.endswith('::latlon2pix')]
    if not vis: raise AnalysisError('read_data does not locate the pixel')
    v = vis[0]
    prm = [('init', ('parm', x['n'])) for x in f['params'][:2]]
    r.check(list(v.args[:2]) == prm, 'visible point', q, v.file, v.line, 'the pixel is located for (%s)' % ', '.join(show(a) for a in v.args[:2]), 'coordinates')
    r.check(implies([succ], v.result), 'visible point', q, fi, li, 'a datum may be supplied although the geometry reported the point not visible', 'visible')
    img = fields_by_type(rec, lambda t: t.startswith('std::vector<double'))
    msk = fields_by_type(rec, lambda t: t.startswith('std::vector<bool'))
    if len(img) != 1 or len(msk) != 1: raise AnalysisError('PhotoImage fields changed')
    I, M = ('fld', THIS, img[0]), ('fld', THIS, msk[0])
    S = fld(size_fields(p)[0])
    data = ('parm', f['params'][2]['n'])
    # the pixel whose value is handed on
    dv = settle(E.read(E.final, data), us)
    src = [e for e in E.events if e.kind == 'index' and e.cont == I]
    idx = {e.index for e in src}
    ip = [e for e in E.events if e.kind == 'call' and e.fn.endswith('::interpolate')]
    used = [e for e in src if any(a == ('init', ('elem', I, e.index)) for x in (E.returns) for a in atoms(E.read(x[0], data)) | {E.read(x[0], data)})]
    used = used or [e for e in src if ip and any(a == ('init', ('elem', I, e.index)) for x in ip for a in (atoms(x.pre[3]) | {x.pre[3]}))]
    cand = {e.index for e in used} or idx
    if len(cand) != 1: r.skip('inside the usable area', q, fi, li, 'pixel read not identified'); return
    ix = cand.pop()
    i, k = split_index(ix, S)
    X, Z = ('out', v.result, 2), ('out', v.result, 3)
    r.check(X in atoms(i) and Z not in atoms(i) and Z in atoms(k) and X not in atoms(k), 'inside the usable area', q, src[0].file, src[0].line, 'the pixel read is sample %s, line %s' % (show(i), show(k)), 'pixel')
    names = {n: getter_field(p, 'MaRC::PhotoImage::' + n) for n in ('left', 'right', 'top', 'bottom')}
    for n, c in (('left', cmp('<=', fld(names['left']), i, True)), ('right', cmp('<', i, fld(names['right']), True)),
                 ('top', cmp('<=', fld(names['top']), k, True)), ('bottom', cmp('<', k, fld(names['bottom']), True))):
        r.check(implies([succ], c), 'inside the usable area', q, fi, li, 'a pixel beyond the %s limit may supply a datum' % n, n)
    m = ('init', ('elem', M, ix))
    ms = [e for e in E.events if e.kind == 'index' and e.cont == M]
    size = ms[0].d.get('size') if ms else ('size', M)
    em = cmp('==', size, num(0), True)
    r.check(implies([succ], lor(em, m)), 'on the body', q, fi, li, 'a pixel off the body may supply a datum', 'mask')
    # NaN
    nan = [a for a in atoms(succ) if a[0] == 'isnan']
    pix = ('init', ('elem', I, ix))
    r.check(implies([succ], lnot(('isnan', pix))), 'not blank', q, fi, li, 'a blank (NaN) photo pixel may supply a datum', 'pixel')
    ok = True
    for g, d in cases(dv):
        gs = [succ] + list(g)
        if not satisfiable(land(*gs)): continue
        if d == pix: continue
        ok = ok and implies(gs, lnot(('isnan', d)))
        if not any(e.result in atoms(d) or d == e.result for e in ip): r.check(d[0] != 'init' or d[1] != data, 'not blank', q, fi, li, 'success without a datum', 'datum set')
    r.check(ok, 'not blank', q, fi, li, 'a blank (NaN) datum may be supplied', 'datum')
    for e in [e for e in E.events if e.kind == 'call' and (e.fn.endswith('::interpolate') or e.fn.endswith('::correct'))]:
        r.check(implies([succ] , e.result) or implies([succ], lor(e.result, lnot(land(*e.guard)))), 'processing succeeded', q, e.file, e.line, 'a datum is supplied although %s failed' % e.fn.split('::')[-1])
        if e.fn.endswith('::interpolate'):
            a = list(e.args)
            r.check(a[1] == X and a[2] == Z, 'interpolated at the pixel', q, e.file, e.line, 'interpolates at (%s)' % ', '.join(show(x) for x in a[1:3]))
    for e in [e for e in E.events if e.kind == 'call' and e.fn.endswith('::data_weight')]:
        r.check(list(e.args[:2]) == [i, k], 'weight of the pixel read', q, e.file, e.line, 'the weight is computed for (%s)' % ', '.join(show(x) for x in e.args[:2]))
    g = p.one('MaRC::PhotoImage::read_data', 3)
    E3 = analyse(g, opaque=OP | {'MaRC::PhotoImage::read_data'})
    cs = [e for e in E3.events if e.kind == 'call' and e.fn == 'MaRC::PhotoImage::read_data']
    if len(cs) == 1:
        c = cs[0]
        r.check(list(c.args[:2]) == [('init', ('parm', x['n'])) for x in g['params'][:2]] and E3.value == c.result, 'plain read', *sites(g), 'returns %s of (%s)' % (show(E3.value), ', '.join(show(a) for a in c.args[:2])))
        fin = E3.read(E3.final, ('parm', g['params'][2]['n']))
        r.check(all(d == ('out', c.result, 2) for gg, d in cases(fin) if satisfiable(land(*gg, c.result))), 'plain read', *sites(g), 'the datum handed on is %s' % show(fin), 'datum')
    else: r.skip('plain read', *sites(g), 'not a delegation')

def pfield(p, n): return getter_field(p, 'MaRC::PhotoImageParameters::' + n)

def ctor(r, p):
    cs = [f for f in p.q('MaRC::PhotoImage::PhotoImage') if len(f['params']) == 5]
    if not cs: raise AnalysisError('PhotoImage constructor not found')
    f = cs[0]
    E = analyse(f, opaque=NOISE | {'MaRC::ViewingGeometry::body_mask', 'MaRC::PhotoImageParameters::validate_parameters'})
    q, fi, li = sites(f)
    sz = [x['n'] for x in f['params'] if 'unsigned long' in x['t']]
    S, L = [('init', ('parm', n)) for n in sz]
    for want, n, dim in (('nibble_left', 'left', None), ('nibble_right', 'right', S), ('nibble_top', 'top', None), ('nibble_bottom', 'bottom', L)):
        v = E.read(E.final, ('fld', THIS, getter_field(p, 'MaRC::PhotoImage::' + n)))
        nf = pfield(p, want)
        x = v if dim is None else sub(dim, v)
        good = x[0] == 'init' and x[1][0] == 'fld' and x[1][2] == nf
        lit = any(a[0] in ('lout', 'ret') for a in atoms(x) | {x})
        if lit: r.skip('area from nibbles', q, fi, li, show(v))
        else: r.check(good, 'area from nibbles', q, fi, li, 'the %s limit is %s' % (n, show(v)), n)
    bm = [e for e in E.events if e.kind == 'call' and e.fn.endswith('::body_mask')]
    rs = pfield(p, 'remove_sky')
    msk = fields_by_type(p.records['MaRC::PhotoImage'], lambda t: t.startswith('std::vector<bool'))[0]
    v = E.read(E.final, ('fld', THIS, msk))
    if len(bm) != 1: r.skip('mask when sky is removed', q, fi, li, '%d mask computations' % len(bm)); return
    e = bm[0]
    r.check(list(e.args[:2]) == [S, L], 'mask when sky is removed', q, e.file, e.line, 'the mask is made for (%s)' % ', '.join(show(a) for a in e.args[:2]), 'size')
    for g, leaf in cases(v):
        lits = [(a, False if x[0] == '!' else True) for x in g for a in [x[1] if x[0] == '!' else x] if a[0] == 'init' and a[1][0] == 'fld' and a[1][2] == rs]
        want = leaf == e.result
        if not lits: r.check(leaf == e.result, 'mask when sky is removed', q, fi, li, 'the mask is %s' % show(leaf), 'always')
        else: r.check(lits[0][1] == want, 'mask when sky is removed', q, fi, li, 'with sky removal %s the mask is %s' % ('on' if lits[0][1] else 'off', show(leaf)), 'choice')

def bilinear(r, p):
    cs = [f for f in p.q('MaRC::BilinearInterpolation::BilinearInterpolation') if len(f['params']) == 6]
    if not cs: raise AnalysisError('BilinearInterpolation constructor not found')
    f = cs[0]
    E = analyse(f)
    P = [('init', ('parm', x['n'])) for x in f['params']]
    role = {}
    for fd in p.records['MaRC::BilinearInterpolation']['fields']:
        v = E.read(E.final, ('fld', THIS, fd['n']))
        for n, w in (('samples', P[0]), ('lines', P[1]), ('left', P[2]), ('right', sub(P[0], P[3])), ('top', P[4]), ('bottom', sub(P[1], P[5]))):
            if v == w: role[n] = fld(fd['n'])
    if not {'samples', 'left', 'right', 'top', 'bottom'} <= set(role):
        missing = {'samples', 'left', 'right', 'top', 'bottom'} - set(role)
        r.bad('interpolation area', f['q'], f['file'], f['line'], 'no member holds the %s limit' % ', '.join(sorted(missing)), 'members'); return
    f = p.one('MaRC::BilinearInterpolation::interpolate')
    E = analyse(f)
    buf = f['params'][0]['n']
    x, z = [('init', ('parm', a['n'])) for a in f['params'][1:3]]
    ev = [e for e in E.events if e.kind == 'index' or e.kind == 'ptrindex']
    n = 0
    for e in ev:
        i, k = split_index(e.index, role['samples'])
        g = list(e.guard)
        for nm, c in (('left', cmp('<=', role['left'], i, True)), ('right', cmp('<', i, role['right'], True)), ('top', cmp('<=', role['top'], k, True)), ('bottom', cmp('<', k, role['bottom'], True))):
            n += 1
            r.check(implies(g, c), 'interpolation area', f['q'], e.file, e.line, 'interpolation may use a pixel (sample %s, line %s) beyond the %s limit' % (show(i), show(k), nm), nm)
        r.check(x not in atoms(k) and z not in atoms(i), 'interpolation area', f['q'], e.file, e.line, 'interpolation uses sample %s, line %s' % (show(i), show(k)), 'axes')

def geometry(r, p):
    f = p.one('MaRC::ViewingGeometry::latlon2pix')
    E = analyse(f, opaque=NOISE | {'MaRC::ViewingGeometry::is_visible', 'MaRC::BodyData::centric_radius', 'MaRC::GeometricCorrection::object_to_image'})
    q, fi, li = sites(f)
    prm = [('init', ('parm', x['n'])) for x in f['params'][:2]]
    cs = [e for e in E.events if e.kind == 'call' and e.fn.endswith('::is_visible')]
    if not cs: r.bad('visibility', q, fi, li, 'a pixel is located without asking whether the point is visible', 'asked')
    else:
        r.check(implies([E.value], cs[0].result) and list(cs[0].args[:2]) == prm, 'visibility', q, fi, li, 'success if %s for (%s)' % (show(E.value), ', '.join(show(a) for a in cs[0].args)), 'asked')
    f = p.one('MaRC::ViewingGeometry::is_visible')
    E = analyse(f, opaque=NOISE | {'MaRC::BodyData::mu', 'MaRC::BodyData::mu0', 'MaRC::OblateSpheroid::mu', 'MaRC::OblateSpheroid::mu0'})
    q, fi, li = sites(f)
    prm = [('init', ('parm', x['n'])) for x in f['params'][:2]]
    mu = [e for e in E.events if e.kind == 'call' and e.fn.endswith('::mu')]
    mu0 = [e for e in E.events if e.kind == 'call' and e.fn.endswith('::mu0')]
    lim = limit_field(p)
    if len(mu) != 1 or len(mu0) != 1: r.skip('visibility', q, fi, li, 'emission/incidence cosines not identified'); r.skip('visibility', q, fi, li, ''); return
    r.check(implies([E.value], cmp('<=', fld(lim), mu[0].result, False)), 'visibility', q, fi, li, 'a point beyond the emission angle limit may be visible: %s' % show(E.value), 'emission limit')
    term = [g for g in setter_fields(p, 'MaRC::ViewingGeometry::use_terminator')]
    if len(term) == 1:
        r.check(implies([E.value, fld(term[0])], cmp('<=', num(0), mu0[0].result, False)), 'visibility', q, fi, li, 'with terminator avoidance an unlit point may be visible: %s' % show(E.value), 'terminator')
        # and nothing else hides a point
        r.check(implies([cmp('<', fld(lim), mu[0].result, False), lnot(fld(term[0]))], E.value, nan_safe=True) or opaque_other(E.value, mu + mu0), 'visibility', q, fi, li, 'a visible point is refused: %s' % show(E.value), 'complete')
    for e, pre in ((mu[0], 'sub_observ'), (mu0[0], 'sub_solar')):
        a = list(e.args)
        la, lo = setter_fields(p, 'MaRC::ViewingGeometry::%s_lat' % pre), setter_fields(p, 'MaRC::ViewingGeometry::%s_lon' % pre)
        want = [fld(la[0]) if la else None, fld(lo[0]) if lo else None] + prm
        r.check(a[:4] == want, 'visibility', q, e.file, e.line, '%s is computed from (%s)' % (e.fn.split('::')[-1], ', '.join(show(x) for x in a)), pre)
    # limit = cos(angle)
    f = p.one('MaRC::ViewingGeometry::emi_ang_limit', 1)
    E = analyse(f)
    ang = ('init', ('parm', f['params'][0]['n']))
    v = E.read(E.final, ('fld', THIS, lim))
    leaves = {x for g, x in cases(v)}
    r.check(call('cos', (mul(ang, div(PI, num(180))),)) in leaves or any(a[0] == 'ret' for x in leaves for a in atoms(x) | {x}), 'emission limit', *sites(f), 'the limit becomes %s' % show(v))

def opaque_other(t, calls):
    ok = {e.result for e in calls}
    return any(a[0] in ('ret', 'lout') and a not in ok for a in atoms(t))

def limit_field(p):
    s = setter_fields(p, 'MaRC::ViewingGeometry::emi_ang_limit')
    if len(s) != 1: raise AnalysisError('emission angle limit: %s' % s)
    return s[0]

def setter_fields(p, q):
    out = []
    for f in p.q(q):
        if 'body' not in f or not f['params']: continue
        for e in analyse(f, opaque=NOISE).events:
            if e.kind == 'store' and e.loc[0] == 'fld' and e.loc[1] == THIS and e.loc[2] not in out: out.append(e.loc[2])
    return out

def mask(r, p):
    f = p.one('MaRC::ViewingGeometry::body_mask')
    E = analyse(f, opaque=NOISE | {'MaRC::ViewingGeometry::pix2latlon'})
    q, fi, li = sites(f)
    S, L = [('init', ('parm', x['n'])) for x in f['params'][:2]]
    st = [e for e in E.events if e.kind == 'store' and e.loc[0] == 'elem']
    cs = {e.result: e for e in E.events if e.kind == 'call' and e.fn.endswith('::pix2latlon')}
    if not st or not cs: r.skip('mask pixel', q, fi, li, 'mask not followed'); return
    for e in st:
        for g, v in cases(e.value, tuple(e.guard)):
            if not satisfiable(land(*g)): continue
            i, k = split_index(e.loc[2], S)
            hit = [c for c in cs.values() if tuple(c.args[:2]) == (i, k)]
            if v == FALSE: 
                r.check(any(implies(list(g), lnot(c.result)) for c in hit), 'mask pixel', q, e.file, e.line, 'a pixel on the body is masked', 'false'); continue
            if v == TRUE: ok = any(implies(list(g), c.result) for c in hit)
            else: ok = any(v == c.result for c in hit) or (is_bool(v) and any(implies(list(g) + [v], c.result) for c in hit))
            r.check(ok, 'mask pixel', q, e.file, e.line, 'pixel (sample %s, line %s) is taken for body although its line of sight was not found to hit it' % (show(i), show(k)), 'true')
            for what, x, n in (('samples', i, S), ('lines', k, L)):
                its = [a for a in atoms(x) | {x} if a[0] == 'iter' and a[1] in E.loops and E.loops[a[1]].trip]
                if len(its) != 1: continue
                first, last = subst(x, {its[0]: num(0)}), subst(x, {its[0]: sub(E.loops[its[0][1]].trip, num(1))})
                lo, hi = sorted((first, last), key=lambda t: not is_num(t))
                if is_num(lo) and is_num(sub(hi, n)): r.check(lo == num(0) and sub(n, hi) == num(1), 'mask pixel', q, e.file, e.line, '%s %s to %s of %s are tested' % (what, show(lo), show(hi), show(n)), 'all ' + what)
            # every pixel that hits is marked
            for c in hit:
                whole = {cmp('<', ('iter', l.id), l.trip, True) for l in E.loops.values() if l.trip}
                extra = [x for x in g if x != c.result and x not in whole]
                r.check(not extra or any(contains(x, lambda t: t == c.result) for x in extra), 'mask pixel', q, e.file, e.line, 'a pixel on the body is marked only if %s' % show(land(*extra)), 'complete')

def factory(r, p):
    f = p.one('MaRC::PhotoImageFactory::make')
    ms = [e for e in photo_make(p, f).events if e.kind == 'make' and e.cls.endswith('BilinearInterpolation')]
    if not ms: r.skip('interpolation area', f['q'], f['file'], f['line'], 'interpolation not set up here'); return
    for e in ms:
        a = [x if x[0] != 'ref' else x for x in e.args]
        for n, x in zip(('nibble_left', 'nibble_right', 'nibble_top', 'nibble_bottom'), a[2:6]):
            nf = pfield(p, n)
            if x[0] == 'init' and x[1][0] == 'fld': r.check(x[1][2] == nf, 'interpolation area', f['q'], e.file, e.line, 'interpolation is given %s for %s' % (show(x), n), n)
            else: r.skip('interpolation area', f['q'], e.file, e.line, '%s given as %s' % (n, show(x)))

_pm = []
def photo_make(p, f):
    if not _pm:
        _pm.append(analyse(f, opaque=NOISE | {x['q'] for x in p.fns.values() if x['q'].startswith('MaRC::FITS::') or x['q'] in ('MaRC::ViewingGeometry::finalize_setup', 'MaRC::invert_samples', 'MaRC::invert_lines')}))
    return _pm[0]
