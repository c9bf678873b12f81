"""S01: for every compositing strategy the accumulation loop over the images is
summarised by its per-pass update of each accumulator; every update must be the
identity when the pass' read_data returned false, and one of
  sum += datum, wsum += weight*datum, wtot += weight, count += 1, last = datum
when it returned true.  Every return is then split into its guarded leaves and
compared with the definition of the strategy (first success / sum over count /
weighted sum over weight total, a single datum if only one image contributed),
"no datum" being reported exactly when the success count is zero.  Each image is
read once, at the coordinates given, with a fresh weight and with scanning on
for the weighted mean; the mosaic forwards its images and coordinates and
succeeds exactly when the strategy reports a contributor; the averaging option
selects the strategy of that name; each factory contributes one image."""
from rulelib import *

MINIMUM = {'a failed read contributes nothing': 2, 'composite value': 3, 'contributors reported': 3, 'strategy of the averaging option': 3, 'mosaic forwards': 1}
READ = 'MaRC::SourceImage::read_data'
K = ('ghost', 'K')          # number of images that supplied a datum

def nonneg(): terms.NONNEG.add(K)

def check(r):
    p = program()
    nonneg()
    kinds = strategies(r, p)
    subs = p.subclasses('MaRC::compositing_strategy')
    im = [f for f in p.fns.values() if f['n'] == 'composite' and 'body' in f and f.get('cls') in subs]
    if len(im) < 3: raise AnalysisError('composite: %d overriders found, expected 3' % len(im))
    for f in sorted(im, key=lambda f: f['q']):
        strategy(r, p, f, kinds.get(f['cls'].split('::')[-1]))
    mosaic(r, p)
    factory(r, p)

def strategies(r, p):
    """averaging option -> strategy class, from the place that builds it."""
    out = {}
    f = p.one('MaRC::MosaicImageFactory::make')
    E = analyse(f, opaque=NOISE | {'MaRC::SourceImageFactory::make', 'MaRC::PhotoImageFactory::make', 'MaRC::extrema::update'})
    en = {v: n.split('::')[-1] for n, v in enum_values(p, 'average_type::AVG_').items()}
    want = {'AVG_NONE': 'first_read', 'AVG_UNWEIGHTED': 'unweighted_average', 'AVG_WEIGHTED': 'weighted_average'}
    if set(en.values()) != set(want): raise AnalysisError('averaging options: %s' % en)
    # the strategy object is created under a condition on the option
    ev = [e for e in E.events if e.kind in ('make', 'new') and any(w in show(e.obj) for w in want.values())]
    if not ev: raise AnalysisError('no compositing strategy is created in MosaicImageFactory::make')
    names = fields_by_type(p.records['MaRC::MosaicImageFactory'], lambda t: t.endswith('average_type'))
    opt = set()
    for e in ev:
        for g in e.guard:
            for a in atoms(g):
                if a[0] == 'init' and a[1][0] == 'fld' and a[1][2] in names: opt.add(a)
    got = {}
    for v, n in sorted(en.items()):
        for e in ev:
            g = [subst(x, {a: num(v) for a in opt}) for x in e.guard]
            if satisfiable(land(*g)): got.setdefault(n, []).append(e)
    for n, w in want.items():
        es = got.get(n, [])
        cl = sorted({c for e in es for c in want.values() if re.search(r'\b%s\b' % c, e.obj[1])})
        e = (es or ev)[0]
        r.check(cl == [w], 'strategy of the averaging option', f['q'], e.file, e.line, 'option %s leads to %s, documented %s' % (n, cl, w), n)
        if len(cl) == 1: out[cl[0]] = w
    # the option stored is the one given
    for c in [x for x in p.fns.values() if x.get('ctor') and x.get('cls') == 'MaRC::MosaicImageFactory' and 'body' in x and len(x['params']) == 2]:
        Ec = analyse(c)
        for a in opt:
            v = Ec.read(Ec.final, ('fld', ('deref', ('v', 'this')), a[1][2]))
            r.check(v in [('init', ('parm', x['n'])) for x in c['params']], 'option kept', c['q'], c['file'], c['line'], 'the averaging option is stored as %s' % show(v))
    return {w: w for w in want.values()}

def find_lout(t): return {a for a in atoms(t) if a[0] == 'lout'}

def strategy(r, p, f, kind):
    E = analyse(f)
    calls = [e for e in E.events if e.kind == 'call' and e.fn == READ]
    if not calls:
        r.skip('composite value', f['q'], f['file'], f['line'], 'images are read indirectly'); raise AnalysisError('%s reads no image' % f['q'])
    if len({e.result for e in calls}) != 1 or len(E.loops) != 1:
        for e in calls: r.skip('composite value', f['q'], e.file, e.line, 'more than one reading site or loop')
        return
    ev = calls[0]
    res = ev.result
    L = list(E.loops.values())[0]
    prm = [('init', ('parm', x['n'])) for x in f['params'] if not x['t'].endswith('&')]
    data = [('parm', x['n']) for x in f['params'] if x['t'].replace(' ', '') == 'double&'][0]
    images = [('parm', x['n']) for x in f['params'] if 'vector' in x['t'] or 'list' in x['t']]
    # -- the read itself
    r.check(list(ev.args[:2]) == prm[:2], 'read at the point asked for', f['q'], ev.file, ev.line, 'reads at (%s)' % ', '.join(show(a) for a in ev.args[:2]))
    if images:
        if L.trip is not None and L.trip[0] in ('n', 'p', 'size'):
            rest = {a for a in atoms(L.trip) if a[0] == 'size'}
            if rest and L.trip[0] == 'size': r.ok('every image is asked', f['q'], ev.file, ev.line)
            elif rest: r.bad('every image is asked', f['q'], f['file'], L.line, 'the loop makes %s passes' % show(L.trip))
    gl = [g for g in ev.guard if not (g[0] == 'cmp' and any(a[0] == 'size' for a in atoms(g)))]
    gl = [g for g in gl if opaque_terms(g) & {a for a in opaque_terms(g) if a[0] in ('lsym', 'lout')}]
    if gl and kind != 'first_read':
        r.bad('every image is asked', f['q'], ev.file, ev.line, 'an image is skipped unless %s' % show(land(*gl)))
    D, W = ('out', res, 2), ('out', res, 3)
    if kind == 'weighted_average':
        if len(ev.args) < 5: r.bad('weights are computed', f['q'], ev.file, ev.line, 'the weight is not asked for')
        else:
            r.check(ev.args[4] == TRUE, 'weights are computed', f['q'], ev.file, ev.line, 'scanning for weights is %s' % show(ev.args[4]), 'scan')
            w0 = ev.pre[3]
            r.check(w0[0] == 'n' and w0[1] > 0 if w0[0] == 'n' else not opaque_terms(w0), 'weights are computed', f['q'], ev.file, ev.line, 'the weight of an image starts as %s' % show(w0), 'fresh weight')
    # -- accumulators
    acc = {}
    D1, W1 = ('ghost', 'D'), ('ghost', 'W')
    for loc, (init, new) in L.updates.items():
        if loc[0] == 'glob' or loc == ('lit',): continue
        old = ('lsym', L.id, loc)
        fail, good = (subst(new, {res: v, D: D1, W: W1}) for v in (FALSE, TRUE))
        lo = ('lout', L.id, loc)
        keep = fail == old
        d = sub(good, old) if good[0] in ('n', 'p', 'lsym', 'out', 'init', 'ghost') else None
        k = 'unknown'
        if good == D1: k = 'last'
        elif good == TRUE and init == FALSE: k = 'flag'
        elif good[0] == 'n' and good[1] > 0 and init == num(0) and fail == old: k = 'flag%s' % good[1]
        elif d == D1: k = 'sum'
        elif d == mul(W1, D1): k = 'wsum'
        elif d == W1: k = 'wtot'
        elif d == num(1): k = 'count'
        elif good == ite(cmp('==', ('lsym', L.id, ()), num(0), True), D1, old): k = 'first'
        if k in ('sum', 'wsum', 'wtot', 'count') and init != num(0):
            r.bad('accumulators start empty', f['q'], f['file'], L.line, '%s starts as %s' % (show(loc), show(init)), show(loc))
        if k == 'unknown' and keep and not any(a[0] in ('lsym', 'lout') for a in atoms(good) | {good}): k = 'junk'
        if not keep: k = 'junk' if k != 'unknown' or any(x in atoms(fail) | {fail} for x in (D1, W1)) else 'unknown'
        acc[loc] = (k, lo, fail)
    env = {}
    # a flag that ends the loop: nothing is read after the first success
    stop = [loc for loc, (k, lo, fail) in acc.items() if k.startswith('flag') and implies(list(ev.guard), eqv(('lsym', L.id, loc), L.updates[loc][0]))]
    for loc in stop if kind == 'first_read' else []:
        for l2, (k2, lo2, fail2) in acc.items():
            good = subst(L.updates[l2][1], {res: TRUE, D: D1, W: W1})
            if good == D1 and k2 in ('junk', 'last'): env[lo2] = ite(cmp('<', num(0), K, True), ('ghost', 'FIRST'), ('ghost', 'JUNK', l2))
    for loc, (k, lo, fail) in acc.items():
        g = {'count': K, 'flag': cmp('<', num(0), K, True), 'sum': ('ghost', 'SUM'), 'wsum': ('ghost', 'WSUM'), 'wtot': ('ghost', 'WTOT'), 'last': ('ghost', 'LAST'), 'junk': ('ghost', 'JUNK', loc)}.get(k)
        if k.startswith('flag') and k != 'flag': g = ite(cmp('<', num(0), K, True), num(int(k[4:])), num(0)); k = 'flag'
        if g is not None and lo not in env: env[lo] = g
        if k != 'unknown' and k != 'junk': r.ok('a failed read contributes nothing', f['q'], f['file'], L.line, '%s is %s' % (show(loc), k))
        if k == 'junk':
            # harmless unless it is used as a datum (decided at the leaves) or it counts
            r.ok('a failed read contributes nothing', f['q'], f['file'], L.line, '%s is scratch' % show(loc))
    if kind == 'first_read' and not acc: r.ok('a failed read contributes nothing', f['q'], f['file'], L.line)
    # -- returns
    for st, value, line in E.returns:
        dv = E.read(st, data)
        g0 = [subst(x, env) for x in st.guard]
        for gv, v in cases(subst(value, env), tuple(g0)):
            for g, d in cases(subst(dv, env), gv):
                if not satisfiable(land(*g)): continue
                leaf(r, f, kind, res, D, W, list(g), v, d, line, L)

def eqv(a, b):
    if is_bool(b): return a if b == TRUE else lnot(a)
    return cmp('==', a, b, True)

def reads_out(t, res): return any(a[0] == 'out' and a[1] == res for a in atoms(t))

def pos(g, v):
    """Is the returned count positive? True/False/None."""
    if is_bool(v): c = v
    else: c = cmp('<', num(0), v, True)
    if implies(g, c): return True
    if implies(g, lnot(c)): return False
    return None

def leaf(r, f, kind, res, D, W, g, v, d, line, L):
    lout = lambda t: any(a[0] == 'lout' for a in atoms(t))
    site = (f['q'], f['file'], line)
    inloop = any(res in atoms(x) or x == res for x in g)
    junk = [a for a in atoms(d) | {d} if a[0] == 'ghost' and a[1] == 'JUNK'] or ([d] if reads_out(d, res) and implies(g, lnot(res)) else [])
    if inloop and implies(g, res):
        # leaves as soon as an image succeeded
        P = pos(g, v)
        r.check(P is True, 'contributors reported', *site, 'a successful read is reported as %s' % show(v), 'early') if P is not None else r.skip('contributors reported', *site, show(v))
        if kind == 'first_read': r.check(d == D, 'composite value', *site, 'the datum reported is %s' % show(d), 'early')
        else: r.bad('composite value', *site, 'the remaining images are not considered', 'early')
        return
    if inloop and implies(g, lnot(res)):
        P = pos(g, v)
        if P is True: r.bad('contributors reported', *site, 'a failed read is reported as success', 'early failure')
        else: r.bad('contributors reported', *site, 'a failed read ends the search', 'early failure')
        return
    if L.endguard is None or implies(list(L.endguard), lnot(res)): g = g + [cmp('==', K, num(0), True)]     # a success leaves the loop
    gz, gp = g + [cmp('==', K, num(0), True)], g + [cmp('<', num(0), K, True)]
    if any(lout(x) for x in g) or lout(v):
        r.skip('contributors reported', *site, 'returns %s' % show(v))
    else:
        okz = not satisfiable(land(*gz)) or pos(gz, v) is False
        okp = not satisfiable(land(*gp)) or pos(gp, v) is True
        r.check(okz and okp, 'contributors reported', *site, 'returns %s, which is not positive exactly when an image supplied a datum' % show(v), 'count')
    if not satisfiable(land(*gp)): return
    if junk:
        r.bad('a failed read contributes nothing', *site, 'the datum reported may come from a read that failed', 'datum'); return
    if lout(d) or any(a[0] == 'lsym' for a in atoms(d)): r.skip('composite value', *site, show(d)); return
    one = implies(gp, cmp('==', K, num(1), True))
    S_, WS, WT, LA = (('ghost', n) for n in ('SUM', 'WSUM', 'WTOT', 'LAST'))
    if kind == 'unweighted_average':
        good = d == div(S_, K) or (one and d in (S_, LA))
        r.check(good, 'composite value', *site, 'with %s contributors the datum is %s, expected the mean' % ('one' if one else 'several', show(d)), 'mean')
    elif kind == 'weighted_average':
        wpos = implies(gp, cmp('<', num(0), WT, False))
        wzero = implies(gp, lnot(cmp('<', num(0), WT, False))) or implies(gp, cmp('==', WT, num(0), False))
        if d == div(WS, WT): r.check(wpos or implies(gp, lnot(cmp('==', WT, num(0), False))), 'composite value', *site, 'the weight total may be zero', 'weight total')
        elif d == LA: r.check(one or wzero or implies(gp, lor(cmp('==', K, num(1), True), lnot(cmp('<', num(0), WT, False)))), 'composite value', *site, 'one datum stands for several weighted ones', 'mean')
        elif d == div(S_, K): r.check(wzero, 'composite value', *site, 'a plain mean stands for the weighted mean', 'mean')
        else: r.bad('composite value', *site, 'the datum is %s, expected the weighted mean' % show(d), 'mean')
    else:
        if d == ('ghost', 'FIRST'): r.ok('composite value', *site)
        elif d in (LA, S_) or S_ in atoms(d): r.check(one, 'composite value', *site, 'the datum is %s, expected the first success' % show(d), 'first')
        else: r.skip('composite value', *site, show(d))

def mosaic(r, p):
    for f in p.q('MaRC::MosaicImage::read_data'):
        if len(f['params']) != 3 or 'body' not in f: continue
        E = analyse(f)
        cs = [e for e in E.events if e.kind == 'call' and e.fn.endswith('::composite')]
        if len(cs) != 1: r.skip('mosaic forwards', f['q'], f['file'], f['line'], '%d composite calls' % len(cs)); continue
        e = cs[0]
        la, lo = [('init', ('parm', x['n'])) for x in f['params'][:2]]
        da = ('parm', f['params'][2]['n'])
        r.check(list(e.args[1:3]) == [la, lo], 'mosaic forwards', f['q'], e.file, e.line, 'composites at (%s)' % ', '.join(show(a) for a in e.args[1:3]), 'coordinates')
        okv = True
        for g, v in cases(E.value):
            c = cmp('<', num(0), e.result, True)
            if is_bool(v): okv = okv and not satisfiable(land(*g, c, lnot(v))) and not satisfiable(land(*g, lnot(c), v))
        r.check(okv, 'mosaic forwards', f['q'], e.file, e.line, 'succeeds if %s' % show(E.value), 'success')
        fin = E.read(E.final, da)
        bad = [d for g, d in cases(fin) if d != ('out', e.result, 3) and satisfiable(land(*g, cmp('<', num(0), e.result, True)))]
        r.check(not bad, 'mosaic forwards', f['q'], e.file, e.line, 'the datum handed on is %s' % show(fin), 'datum')

def factory(r, p):
    f = p.one('MaRC::MosaicImageFactory::make')
    E = analyse(f, opaque=NOISE | {'MaRC::SourceImageFactory::make', 'MaRC::PhotoImageFactory::make', 'MaRC::extrema::update'})
    mk = [e for e in E.events if e.kind == 'call' and e.fn.endswith('ImageFactory::make')]
    pu = [e for e in E.events if e.kind == 'push' and any(m.result in atoms(e.value) | {e.value} for m in mk)]
    if not mk or not pu: r.skip('every image takes part', f['q'], f['file'], f['line'], 'image list not followed'); return
    e = pu[0]
    cond = [g for g in e.guard if not any(a[0] in ('size', 'iter') for a in atoms(g))]
    extra = [g for g in cond if not any(m.result in atoms(g) for m in mk)]
    r.check(not extra, 'every image takes part', f['q'], e.file, e.line, 'an image takes part only if %s' % show(land(*extra)))
    for m in mk:
        mc = [g for g in m.guard if not any(a[0] in ('size', 'iter') for a in atoms(g))]
        r.check(not mc, 'every image takes part', f['q'], m.file, m.line, 'an image is made only if %s' % show(land(*mc)), 'make')
