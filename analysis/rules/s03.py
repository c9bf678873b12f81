"""S03: PhotoImage::data_weight is followed with its scans inlined; the value left
in the weight is a minimum of distances.  On every path it must contain the four
distances to the image edges and nothing else but distances n found under the
guard "mask pixel q is off the body", where q differs from the weighted pixel by
exactly n samples or n lines; all four directions must be scanned, outward from
the pixel to the limit of the usable area."""
from rulelib import *
import rules.s02 as s02

MINIMUM = {'edge distance': 1, 'distance to the sky': 4, 'scan reaches the limit': 4}
THIS = s02.THIS
fld = s02.fld

def flat(E, t, seen=()):
    """Alternatives of t, each a set of terms t is the minimum of."""
    if t[0] == 'call' and t[1] == 'min':
        out = [set()]
        for a in t[2]: out = [x | y for x in out for y in flat(E, a, seen)]
        return uniq(out)
    if t[0] == 'ite':
        a, b = flat(E, t[2], seen), flat(E, t[3], seen)
        c = t[1]
        if c[0] == 'cmp' and c[1] == '<':       # a selection of the smaller one
            d = c[2]
            if d == sub(t[2], t[3]) or d == neg(sub(t[3], t[2])): return uniq([x | y for x in a for y in b])
        if c[0] == '!' and c[1][0] == 'cmp' and c[1][2] == sub(t[3], t[2]): return uniq([x | y for x in a for y in b])
        return uniq(a + b)
    if t[0] == 'lout' and t[1] in E.loops and t not in seen:
        L = E.loops[t[1]]
        u = L.updates.get(t[2])
        if u: return uniq([x | (y - {('lsym', t[1], t[2])}) for x in flat(E, u[0], seen + (t,)) for y in flat(E, u[1], seen + (t,))])
    return [{t}]

def uniq(xs):
    out = []
    for x in xs:
        if x not in out: out.append(x)
    return out[:256]

def check(r):
    p = program()
    r.part(weights, r, p); r.part(use, r, p)

def weights(r, p):
    f = p.one('MaRC::PhotoImage::data_weight')
    E = analyse(f)
    q, fi, li = f['q'], f['file'], f['line']
    i, k = [('init', ('parm', x['n'])) for x in f['params'][:2]]
    w = ('parm', f['params'][2]['n'])
    S, L = [fld(n) for n in s02.size_fields(p)]
    lim = {n: fld(getter_field(p, 'MaRC::PhotoImage::' + n)) for n in ('left', 'right', 'top', 'bottom')}
    edges = {i, sub(S, i), k, sub(L, k)}
    fin = E.read(E.final, w)
    alts = flat(E, fin)
    scans = {}
    # distances found by scanning
    msk = fields_by_type(p.records['MaRC::PhotoImage'], lambda t: t.startswith('std::vector<bool'))[0]
    M = ('fld', THIS, msk)
    here = add(mul(k, S), i)
    for e in [e for e in E.events if e.kind == 'store' and e.loc == w and e.loops]:
        lid = e.loops[-1]
        Lp = E.loops[lid]
        for alt in flat(E, e.value):
            # one alternative per guard
            for d in alt - edges:
                if not any(a == ('iter', lid) for a in atoms(d) | {d}): continue
                offs = [x[1][1][2] for x in e.guard if x[0] == '!' and x[1][0] == 'init' and x[1][1][0] == 'elem' and x[1][1][1] == M]
                if not offs:
                    on = [x for x in e.guard if x[0] == 'init' and x[1][0] == 'elem' and x[1][1] == M]
                    if on: r.bad('distance to the sky', q, e.file, e.line, 'the weight is lowered to %s by a pixel on the body' % show(d), 'on body')
                    elif opaque_guard(e.guard): r.skip('distance to the sky', q, e.file, e.line, 'distance %s under %s' % (show(d), show(land(*e.guard))))
                    else: r.bad('distance to the sky', q, e.file, e.line, 'the weight is lowered to %s although no pixel was found off the body' % show(d), 'unguarded')
                    continue
                delta = sub(offs[-1], here)
                dirs = {'right': d, 'left': neg(d), 'bottom': mul(d, S), 'top': neg(mul(d, S))}
                hit = [n for n, t in dirs.items() if t == delta]
                r.check(bool(hit), 'distance to the sky', q, e.file, e.line, 'the weight is lowered to %s by the pixel %s away from it' % (show(d), show(delta)), 'distance')
                if not hit: continue
                scans.setdefault(hit[0], []).append((d, Lp, e))
                extra = [g for g in e.guard if not (g[0] == '!' and g[1][0] == 'init' and g[1][1][0] == 'elem' and g[1][1][1] == M) and not (Lp.trip and g == cmp('<', ('iter', lid), Lp.trip, True)) and not (g[0] == '!' and g[1] == cmp('==', ('size', M), num(0), True)) and not smaller(g, d)]
                if extra and not any(opaque_terms(x) for x in extra):
                    r.bad('distance to the sky', q, e.file, e.line, 'an off-body pixel lowers the weight only if %s' % show(land(*extra)), 'extra condition')
    # every path
    known = edges | {d for v in scans.values() for d, _, _ in v}
    vague = False
    for a in alts:
        miss = edges - a
        other = a - known
        if any(opaque_terms(x) or x[0] in ('lout', 'lsym', 'ret') for x in other): vague = True; r.skip('edge distance', q, fi, li, 'weight %s' % ', '.join(show(x) for x in other)); continue
        if miss: r.bad('edge distance', q, fi, li, 'a weight is not limited by the distance %s to the edge of the image' % ', '.join(sorted(show(x) for x in miss)), 'edges')
        elif other: r.bad('edge distance', q, fi, li, 'the weight may become %s, which is no distance to an edge or off-body pixel' % ', '.join(sorted(show(x) for x in other)), 'other')
        else: r.ok('edge distance', q, fi, li)
    if not scans and any(e.kind == 'index' and e.cont == M for e in E.events):
        for n in lim: r.skip('distance to the sky', q, fi, li, 'scan not followed'); r.skip('scan reaches the limit', q, fi, li, n)
        return
    for n, far in (('right', sub(sub(lim['right'], num(1)), i)), ('left', sub(i, lim['left'])), ('bottom', sub(sub(lim['bottom'], num(1)), k)), ('top', sub(k, lim['top']))):
        if n not in scans and vague: r.skip('scan reaches the limit', q, fi, li, n); continue
        if n not in scans: r.bad('scan reaches the limit', q, fi, li, 'no scan for off-body pixels towards the %s' % n, n); continue
        d, Lp, e = scans[n][0]
        if not Lp.trip or opaque_terms(Lp.trip): r.skip('scan reaches the limit', q, e.file, e.line, n); continue
        a, b = subst(d, {('iter', Lp.id): num(0)}), subst(d, {('iter', Lp.id): sub(Lp.trip, num(1))})
        if is_num(a) and a[1] in (0, 1): ok = b == far
        elif is_num(b) and b[1] in (0, 1) and not Lp.breaks: ok = a == far
        else: ok = False
        r.check(ok, 'scan reaches the limit', q, e.file, e.line, 'towards the %s distances %s to %s are scanned, not up to %s' % (n, show(a), show(b), show(far)), n)

def opaque_guard(g): return any(opaque_terms(x) for x in g)
def smaller(g, d):
    return g[0] == 'cmp' and g[1] == '<' and contains(g, lambda t: t == d or t[0] == 'iter') and contains(g, lambda t: t[0] in ('lsym', 'lout', 'call'))

def use(r, p):
    """The weight is computed exactly when asked for, for the pixel read."""
    f = p.one('MaRC::PhotoImage::read_data', 5)
    E = analyse(f, opaque=s02.OP)
    scan = ('init', ('parm', f['params'][4]['n']))
    cs = [e for e in E.events if e.kind == 'call' and e.fn.endswith('::data_weight')]
    if not cs: r.skip('weight when asked for', f['q'], f['file'], f['line'], 'weight not computed by data_weight'); return
    us = units(E.value); us = us + [(settle(a, us), v) for a, v in us if settle(a, us) != a]
    succ = [E.value] + [a if v else lnot(a) for a, v in us]
    for e in cs:
        g = [settle(x, us) for x in e.guard]
        rest = [x for x in g if not implies(succ + [scan], x)]
        r.check(not rest, 'weight when asked for', f['q'], e.file, e.line, 'the weight is computed only if %s' % show(land(*rest)), 'always')
