"""M02: in every plot_map override the plotting functor's call sites are found and
the position argument is put in closed form over the induction variables of the
enclosing loops.  It must be samples*line + sample with an outer loop of exactly
'lines' and an inner loop of exactly 'samples' iterations (or one loop of
samples*lines); on one pass through the body the functor is called at most once;
only the off-body test of a projection that has one may skip it."""
from rulelib import *

MINIMUM = {'row-major position': 4, 'loop bounds': 4, 'called once': 4}
# root_find either returns the latitude or throws; quadratic_roots tells whether
# the line of sight meets the body.
OPAQUE = NOISE | {'MaRC::root_find', 'MaRC::quadratic_roots'}

def check(r):
    p = program()
    im = [f for f in p.fns.values() if f['n'] == 'plot_map' and f['q'] != 'MaRC::MapFactory::plot_map' and 'body' in f and f.get('cls') in set(p.subclasses('MaRC::MapFactory'))]
    if len(im) < 4: raise AnalysisError('plot_map: %d overriders found, expected at least 4' % len(im))
    for f in sorted(im, key=lambda f: f['q']): one(r, p, f)

def iters(t): return {a for a in atoms(t) if a[0] == 'iter'}

def one(r, p, f):
    E = analyse(f, opaque=OPAQUE)
    q = f['q']
    S, L = [('init', ('parm', f['params'][i]['n'])) for i in (0, 1)]
    pl = ('parm', f['params'][2]['n'])
    calls = [e for e in E.events if e.kind == 'icall' and e.callee in (('init', pl), pl, ('obj', pl))]
    if not calls:
        passed = [e for e in E.events if e.kind in ('call', 'icall') and any(a in (('ref', pl), ('init', pl)) for a in e.d['args'])]
        if passed: r.skip('row-major position', q, f['file'], f['line'], 'functor handed to %s' % passed[0].d.get('fn'))
        raise AnalysisError('%s: the plotting functor is never called' % q)
    for e in calls:
        pos = e.args[2]
        ls = [E.loops[i] for i in e.loops]
        its = [('iter', l.id) for l in ls]
        shape = None
        if len(ls) == 2:
            want = add(mul(S, its[0]), its[1])
            trips = (ls[0].trip, ls[1].trip)
            good = trips == (L, S)
        elif len(ls) == 1:
            want = its[0]; good = ls[0].trip == mul(S, L); trips = (ls[0].trip,)
        else: want = None; good = False; trips = ()
        if want is None:
            r.bad('loop bounds', q, e.file, e.line, 'pixels are plotted inside %d nested loops' % len(ls)); continue
        if not good:
            r.bad('loop bounds', q, e.file, e.line, 'the pixel loops run over (%s), not over lines and samples' % ', '.join(show(t) if t else '?' for t in trips))
        else: r.ok('loop bounds', q, e.file, e.line)
        if pos == want: r.ok('row-major position', q, e.file, e.line, show(pos))
        else: r.bad('row-major position', q, e.file, e.line, 'pixel position is %s, expected %s' % (describe(E, pos), show(want)))
        # coordinates belong to this pixel: functions of the loop counters, not of leftovers
        for a, nm in ((e.args[0], 'latitude'), (e.args[1], 'longitude')):
            left = {x for x in atoms(a) if x[0] == 'lsym'}
            bad = [x for x in left if not stale_ok(E, x)]
            r.check(not bad, 'coordinates are this pixel\'s', q, e.file, e.line, '%s depends on a value carried over from another pixel (%s)' % (nm, ', '.join(show(x[2]) for x in bad)), q + ' ' + nm)
        if len(ls) == 2 and not opaque_terms(e.args[0]) and not opaque_terms(e.args[1]):
            lat, lon = iters(e.args[0]), iters(e.args[1])
            rot = {a for a in atoms(e.args[0]) if a[0] == 'init' and a[1][0] == 'elem'}
            if not rot:
                r.check(its[0] in lat or its[1] in lat, 'latitude varies over the map', q, e.file, e.line, 'latitude does not depend on the pixel')
                r.check(its[0] in lon or its[1] in lon, 'longitude varies over the map', q, e.file, e.line, 'longitude does not depend on the pixel')
                if lat and lon and lat != set(its):
                    r.check(lat == {its[0]} and lon == {its[1]}, 'line gives latitude, sample gives longitude', q, e.file, e.line, 'latitude depends on %s, longitude on %s' % (lat, lon))
        # breaks out of the pixel loops lose pixels
        for l in ls:
            r.check(not l.breaks and not l.returns, 'no early exit', q, l.file, l.line, 'the pixel loop may be left before its last pixel')
    # at most once
    for i, a in enumerate(calls):
        for b in calls[i + 1:]:
            same = land(*a.guard, *b.guard)
            r.check(not satisfiable(same), 'called once', q, b.file, b.line, 'a pixel may be plotted twice in one pass')
    r.ok('called once', q, f['file'], f['line'], '%d call site(s)' % len(calls))
    # skipping
    e = calls[0]
    loopcond = [E.loops[i].cond for i in e.loops]
    got = lor(*[land(*strip(E, c)) for c in calls])
    lits = {}
    literals(got, lits)
    visible = [x for x in lits if x[0] == 'ret' and x[2] == 'MaRC::quadratic_roots']
    if not visible and not any('quadratic' in show(x) for x in lits):
        if implies(land(*loopcond), got): r.ok('no pixel is skipped', q, e.file, e.line)
        else:
            integer = [x for x in lits if not (x[0] == 'cmp' and x[3])]
            r.bad('no pixel is skipped', q, e.file, e.line, 'a pixel is plotted only if %s' % show(got)[:300])
    else:
        # only the off-body test may skip
        g = got
        for v in visible: g = assign(g, v, True)
        if implies(land(*loopcond), g): r.ok('only off-body pixels are skipped', q, e.file, e.line)
        else: r.bad('only off-body pixels are skipped', q, e.file, e.line, 'an on-body pixel is plotted only if %s' % show(g)[:300])
        g0 = got
        for v in visible: g0 = assign(g0, v, False)
        r.check(g0 == FALSE or not satisfiable(land(*loopcond, g0)), 'off-body pixels are skipped', q, e.file, e.line, 'a pixel off the body may be plotted')

def strip(E, e):
    """The part of the guard that depends on the pixel."""
    ids = set(e.loops)
    return [g for g in e.guard if contains(g, lambda t: (t[0] in ('iter', 'lsym') and t[1] in ids) or t[0] in ('ret', 'out'))
            and g not in [E.loops[i].cond for i in e.loops]]

def stale_ok(E, x):
    # a scalar re-read before being written in the same pass
    lid, loc = x[1], x[2]
    return loc[0] != 'var' or lid not in E.loops

def describe(E, pos):
    for a in atoms(pos):
        if a[0] == 'lsym' and a[1] in E.loops and a[2] in E.loops[a[1]].updates:
            i, u = E.loops[a[1]].updates[a[2]]
            return '%s (starts at %s, each pass: %s)' % (show(pos), show(i), show(u)[:200])
    return show(pos)
