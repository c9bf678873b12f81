"""S04: BilinearInterpolation::interpolate is reduced to a gated polynomial in the
four neighbouring pixels and the position inside their cell.  For each of the 16
combinations of blank (NaN) neighbours the success condition and the datum are
specialised; wherever it succeeds no blank pixel has a coefficient, the
coefficients sum to one and none is negative anywhere in the cell (they are
multi-affine, so the four corners decide).  With all four valid the datum is
their mean weighted along samples by the sample offset and along lines by the
line offset only; it fails only if no two adjacent pixels are valid.  The null
strategy leaves the datum alone."""
import itertools
from rulelib import *
import rules.s02 as s02

MINIMUM = {'neighbours': 1, 'blank neighbours unused': 4, 'coefficients sum to one': 4, 'mean of its neighbours': 4}

def check(r):
    p = program()
    r.part(bilinear, r, p); r.part(null, r, p)

def bilinear(r, p):
    f = p.one('MaRC::BilinearInterpolation::interpolate')
    E = analyse(f)
    q, fi, li = f['q'], f['file'], f['line']
    x, z = [('init', ('parm', a['n'])) for a in f['params'][1:3]]
    out = ('parm', f['params'][3]['n'])
    ctor = [c for c in p.q('MaRC::BilinearInterpolation::BilinearInterpolation') if len(c['params']) == 6][0]
    EC = analyse(ctor)
    S = [d['n'] for d in p.records['MaRC::BilinearInterpolation']['fields'] if EC.read(EC.final, ('fld', s02.THIS, d['n'])) == ('init', ('parm', ctor['params'][0]['n']))]
    if len(S) != 1: raise AnalysisError('interpolation: no member holds the number of samples')
    S = s02.fld(S[0])
    px = {}
    for e in E.events:
        if e.kind not in ('index', 'ptrindex'): continue
        px[('init', ('elem', e.cont, e.index))] = s02.split_index(e.index, S)
    sym = {}
    for t, (i, k) in px.items():
        di, dk = sub(i, call('trunc', (x,))), sub(k, call('trunc', (z,)))
        if not is_num(di): di = sub(i, call('trunc', (call('floor', (x,)),)))
        if not is_num(dk): dk = sub(k, call('trunc', (call('floor', (z,)),)))
        if not (is_num(di) and is_num(dk)):
            if opaque_terms(i) | opaque_terms(k): raise AnalysisError('interpolation: pixel index %s, %s' % (show(i), show(k)))
            r.bad('neighbours', q, fi, li, 'interpolation uses sample %s, line %s' % (show(i), show(k)), 'axes'); continue
        sym[t] = (int(di[1]), int(dk[1]))
    want = {(0, 0), (1, 0), (0, 1), (1, 1)}
    r.check(set(sym.values()) == want, 'neighbours', q, fi, li, 'the pixels used lie at %s from the pixel' % sorted(sym.values()), 'cell')
    if set(sym.values()) != want: return
    tl = sorted(sym, key=lambda t: sym[t])
    u, v = ('v', 'u'), ('v', 'v')
    ends = [(s, val_, ln) for s, val_, ln in E.returns]
    if not ends: raise AnalysisError('interpolation: no returns')
    base = {call('trunc', (x,)): sub(x, u), call('trunc', (z,)): sub(z, v), call('trunc', (call('floor', (x,)),)): sub(x, u), call('trunc', (call('floor', (z,)),)): sub(z, v)}
    fin = E.read(E.final, out)
    gh = {t: ('v', 'p%d%d' % sym[t]) for t in tl}
    for n in range(16):
        nan = {t: bool(n >> j & 1) for j, t in enumerate(tl)}
        lits = [(('isnan', t), b) for t, b in nan.items()]
        ok = E.value
        for a, b in lits: ok = assign_deep(ok, a, b)
        d = fin
        for a, b in lits: d = assign_deep(d, a, b)
        valid = {sym[t] for t in tl if not nan[t]}
        adjacent = any(a in valid and b in valid for a, b in (((0, 0), (1, 0)), ((1, 0), (1, 1)), ((0, 1), (1, 1)), ((0, 0), (0, 1))))
        name = 'valid: %s' % (', '.join('%d%d' % c for c in sorted(valid)) or 'none')
        # paths that succeed
        leaves = []
        for g, w in cases(d, (ok,), minmax=False):
            if not satisfiable(land(*g)): continue
            if opaque_terms(w): raise AnalysisError('interpolation: datum %s' % show(w))
            leaves.append((g, w))
        if not leaves:
            r.check(not adjacent, 'interpolates when it can', q, fi, li, 'fails although two adjacent pixels are valid (%s)' % name, 'partial'); continue
        for g, w in leaves:
            if w == ('init', out) or out in [a for a in atoms(w)]: r.bad('mean of its neighbours', q, fi, li, 'success without a datum (%s)' % name, 'datum'); continue
            w = subst(subst(w, gh), base)
            co, rest = {}, w
            for t in tl:
                one = subst(w, {gh[y]: (num(1) if y == t else num(0)) for y in tl})
                co[sym[t]] = one
            const_ = subst(w, {gh[y]: num(0) for y in tl})
            if const_ != num(0):
                if opaque_terms(const_): raise AnalysisError('interpolation datum')
                r.bad('coefficients sum to one', q, fi, li, 'the datum has a part %s not taken from any pixel (%s)' % (show(const_), name), 'constant'); continue
            lin = num(0)
            for t in tl: lin = add(lin, mul(co[sym[t]], gh[t]))
            if lin != w: r.bad('mean of its neighbours', q, fi, li, 'the datum %s is not linear in the pixels (%s)' % (show(w), name), 'linear'); continue
            for t in tl:
                if nan[t]: r.check(co[sym[t]] == num(0), 'blank neighbours unused', q, fi, li, 'a blank pixel at offset %s contributes (%s)' % (sym[t], name), 'blank')
            tot = num(0)
            for c in co.values(): tot = add(tot, c)
            r.check(tot == num(1), 'coefficients sum to one', q, fi, li, 'the coefficients sum to %s (%s)' % (show(tot), name), 'sum')
            for c, t in co.items():
                vals = [subst(t, {u: num(a), v: num(b)}) for a in (0, 1) for b in (0, 1)]
                aff = all(e <= 1 for m in to_poly(t) for _, e in m)
                if not all(is_num(y) for y in vals) or not aff: r.bad('mean of its neighbours', q, fi, li, 'the coefficient of pixel %s is %s' % (c, show(t)), 'position'); continue
                r.check(min(y[1] for y in vals) >= 0, 'mean of its neighbours', q, fi, li, 'the coefficient %s of the pixel at offset %s is negative inside the cell (%s)' % (show(t), c, name), 'sign')
            if len(valid) == 4:
                mx, mz = add(co[(1, 0)], co[(1, 1)]), add(co[(0, 1)], co[(1, 1)])
                r.check(v not in atoms(mx) and u not in atoms(mz), 'mean of its neighbours', q, fi, li, 'moving along lines changes the weighting of samples: %s, %s' % (show(mx), show(mz)), 'axes')
                r.check(u in atoms(mx) and v in atoms(mz) and inc(mx, u) and inc(mz, v), 'mean of its neighbours', q, fi, li, 'the weighting does not follow the position: %s, %s' % (show(mx), show(mz)), 'follows')

def inc(t, u): return subst(t, {u: num(1)})[0] == 'n' and subst(t, {u: num(0)})[0] == 'n' and subst(t, {u: num(1)})[1] > subst(t, {u: num(0)})[1]

def assign_deep(t, a, v):
    if t == a: return TRUE if v else FALSE
    return subst(t, {a: TRUE if v else FALSE})

def null(r, p):
    fs = [f for f in p.q('MaRC::NullInterpolation::interpolate') if 'body' in f]
    if not fs: r.skip('no interpolation', '', '', 0, 'no null strategy'); return
    f = fs[0]
    E = analyse(f)
    out = ('parm', f['params'][3]['n'] or 'd')
    st = [e for e in E.events if e.kind == 'store']
    r.check(not st and E.value == TRUE, 'no interpolation', f['q'], f['file'], f['line'], 'without interpolation the datum is changed or refused')
