"""M03: the two update functions of extrema<T> and the effect of plotting on the
plane's extrema are put in gated normal form over the old range and the datum.
Values are touched only through comparisons, so every ordering and every
empty/non-empty state is covered: the new minimum is the datum or the old
minimum, at most both; symmetrically for the maximum; no datum, no change.  The
header writer takes minimum and maximum from there, and only if data were mapped."""
from rulelib import *

MINIMUM = {'update by datum': 24, 'merge of ranges': 8, 'plot updates extrema': 24, 'header extrema': 12}

def check(r):
    p = program()
    fmin, fmax = getter_field(p, 'MaRC::extrema::minimum'), getter_field(p, 'MaRC::extrema::maximum')
    this = ('deref', ('v', 'this'))
    ups = p.some('MaRC::extrema::update')
    for f in ups:
        prm = f['params'][0]
        E = analyse(f)
        X = ('parm', prm['n'])
        for fld, nm, sgn in ((fmin, 'minimum', 1), (fmax, 'maximum', -1)):
            old = ('init', ('fld', this, fld))
            new = E.read(E.final, ('fld', this, fld))
            key = '%s %s' % (f['q'], nm)
            if 'extrema' in prm['t']:
                o = ('init', ('fld', X, fld))
                judge(r, 'merge of ranges', f, E.final.guard, new, old, val(o), has(o), sgn, nm, key + ' ' + base_type(prm['t']))
            else:
                judge(r, 'update by datum', f, E.final.guard, new, old, ('init', X), TRUE, sgn, nm, key + ' ' + base_type(prm['t']))
    plots(r, p, fmin, fmax)
    header(r, p, fmin, fmax)
    # nobody else writes the extrema of a plane
    ef = None
    for rec in p.records.values():
        if rec['q'] != 'MaRC::plot_info': continue
        ef = fields_by_type(rec, lambda t: 'extrema<' in t)
        for m in rec['methods']:
            f = p.fns.get(m['id'])
            if not f or 'body' not in f or f.get('ctor') or f.get('dtor'): continue
            if f['const']: continue
            E = analyse(f)
            for e in E.events:
                if e.kind == 'store' and e.loc[0] == 'fld' and any(isinstance(x, tuple) and x[:1] == ('fld',) and x[2] in ef for x in chain(e.loc)):
                    ok = 'MaRC::extrema::update' in e.stack
                    r.check(ok, 'only updates change the extrema', f['q'], e.file, e.line, 'the extrema of a plane are set other than by an update')
    if not ef: raise AnalysisError('plot_info has no extrema')

def chain(loc):
    while isinstance(loc, tuple) and loc and loc[0] in ('fld', 'elem'):
        yield loc; loc = loc[1]

def judge(r, rule, f, g0, new, old, d, present, sgn, nm, key, where=None):
    """new = update(old, d) when `present` else old."""
    file, line = where or (f['file'], f['line'])
    le = lambda a, b: cmp('<=', a, b, False) if sgn > 0 else cmp('<=', b, a, False)
    bad = None
    for g, v in cases(new):
        for pr in (True, False):
            if pr is False and present == TRUE: continue
            gg = land(*g0, *g, present if pr else lnot(present))
            for ho in (True, False):
                ggg = land(gg, has(old) if ho else lnot(has(old)))
                if not satisfiable(ggg, nan_safe=True): continue
                st = 'a previous %s and %s' % (nm if ho else 'no ' + nm, 'a new value' if pr else 'no new value')
                if ho and v == ('some', val(old)): v = old
                if not pr:
                    if v != old: bad = '%s: becomes %s' % (st, show(v))
                    continue
                if v == old:
                    if not ho: bad = '%s: stays empty' % st
                    elif not implies(ggg, le(val(old), d), nan_safe=True): bad = '%s: keeps %s although the new value is beyond it' % (st, show(v))
                elif v == ('some', d):
                    if ho and not implies(ggg, le(d, val(old)), nan_safe=True): bad = '%s: takes the new value although the old one is beyond it' % st
                elif v[0] == 'some' and v[1][0] == 'call' and v[1][1] == ('min' if sgn > 0 else 'max') and set(v[1][2]) == {d, val(old)} and ho: pass
                else:
                    bad = '%s: becomes %s' % (st, show(v))
    r.check(bad is None, rule, f['q'], file, line, 'with %s' % bad if bad else '', key)
    # value and presence obligations are separate instances
    r.ok(rule, f['q'], file, line, nm)

def plots(r, p, fmin, fmax):
    import rules.m01 as m01
    for f in p.some('MaRC::MapFactory::plot', n=4, pred=lambda f: f.get('ta')):
        T = f['ta'][0]
        rec = p.records[base_type(f['params'][0]['t'])]
        F = m01.params_fields(p, rec)
        E = analyse(f, opaque=NOISE)
        P = ('parm', f['params'][0]['n'])
        mapc = ('fld', P, F['map'])
        info = ('fld', P, F['info'])
        inforec = [x for t, x in p.records.items() if x['q'] == 'MaRC::plot_info' and '<%s>' % T in t]
        ef = fields_by_type(inforec[0], lambda t: 'extrema<' in t)
        stores = [e for e in E.events if e.kind == 'store' and e.loc[0] == 'elem' and e.loc[1] == mapc]
        if not stores: raise AnalysisError('plot<%s>: no store into the map' % T)
        written = lor(*[land(*e.guard) for e in stores])
        for fld, nm, sgn in ((fmin, 'minimum', 1), (fmax, 'maximum', -1)):
            loc = ('fld', ('fld', info, ef[0]), fld)
            old, new = ('init', loc), E.read(E.final, loc)
            d = stores[0].value
            judge(r, 'plot updates extrema', f, (), new, old, d, written, sgn, nm, 'plot<%s> %s' % (TA_NAMES.get(T, T), nm), (stores[0].file, stores[0].line))

def header(r, p, fmin, fmax):
    for f in p.some('MaRC::MapCommand::make_map_planes'):
        T = (f.get('ta') or ['?'])[0]
        E = analyse(f, opaque=NOISE | {'MaRC::MapFactory::make_map', 'MaRC::FITS::image::datamin', 'MaRC::FITS::image::datamax', 'MaRC::FITS::image::write', 'MaRC::FITS::output_file::make_image', 'MaRC::FITS::image::blank', 'MaRC::MapCommand::write_virtual_image_facts', 'MaRC::MapCommand::number_of_digits', 'MaRC::FITS::image::update_key', 'MaRC::FITS::image::bscale', 'MaRC::FITS::image::bzero', 'MaRC::FITS::image::comment', 'MaRC::FITS::image::history', 'MaRC::FITS::image::author', 'MaRC::FITS::image::origin', 'MaRC::FITS::image::object'})
        mk = [e for e in E.events if e.kind == 'call' and e.fn == 'MaRC::MapFactory::make_map']
        if not mk: raise AnalysisError('make_map_planes<%s>: no map is made' % T)
        if mk[0].args[2][0] != 'ref': raise AnalysisError('make_map_planes<%s>: plot information is not passed by reference' % T)
        for fn, fld, oth in (('datamin', fmin, fmax), ('datamax', fmax, fmin)):
            es = [e for e in E.events if e.kind == 'call' and e.fn == 'MaRC::FITS::image::' + fn]
            if not es: r.bad('header extrema', f['q'], f['file'], f['line'], '%s is never recorded' % fn, '%s<%s>' % (fn, T)); continue
            for e in es:
                v = e.args[0]
                fields = {a[1][2] for a in atoms(v) if a[0] == 'init' and a[1][0] == 'fld'} | {x[2] for x in gets(v)}
                r.check(fld in fields and oth not in fields, 'header extrema', f['q'], e.file, e.line, '%s is recorded from %s' % (fn, show(v)), '%s<%s>' % (fn, T))
                # guarded by "data mapped": some value present
                g = land(*e.guard)
                hs = [x for x in atoms_bool(g) if x[0] == 'has']
                r.check(bool(hs) and all(True for x in hs), 'header extrema only with data', f['q'], e.file, e.line, '%s is recorded although no data were mapped' % fn, '%s<%s>' % (fn, T))

def gets(t):
    out = set()
    contains(t, lambda x: (x[0] == 'get' and out.add(x)) and False)
    contains(t, lambda x: (x[0] == 'fld' and out.add(x)) and False)
    return out
def atoms_bool(g):
    d = {}; literals(g, d); return list(d)
