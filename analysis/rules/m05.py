"""M05: every access to a pixel buffer (subscript, iterator dereference, fill,
search, reverse, swap of a range) reachable from grid drawing, map plotting,
photo loading and photo reading is found, and its position, written as
line * samples + sample, must be shown to lie inside the buffer by the branch
conditions dominating the access together with what the photo's constructor
established for its members.  Unsigned differences count as non-negative only
where a dominating comparison bounds them, so wrap-around is not assumed away."""
from rulelib import *
import terms as T

MINIMUM = {'grid position': 7, 'photo position': 6, 'photo bounds': 4, 'range inversion': 2, 'source loading': 3}
OPAQUE = NOISE | {'MaRC::root_find', 'MaRC::quadratic_roots'}

def intval(t):
    """Integer valued whatever the atoms are?"""
    for m, c in to_poly(t).items():
        if c.denominator != 1: return False
        for x, e in m:
            if e < 0: return False
            if x in T.NONNEG: continue
            if x[0] == 'call' and x[1] in ('trunc', 'round', 'floor', 'ceil', 'idiv', 'min', 'max', 'nearbyint', 'rint', 'lround', 'llround', 's2u', 'usub'):
                if x[1] in ('min', 'max') and not all(intval(y) for y in x[2]): return False
                continue
            if x[0] == 'p' and intval(x): continue
            return False
    return True

def equalities(g):
    m = {}
    for x in g:
        if x[0] != 'cmp' or x[1] != '==' or x[2][0] == 'pair': continue
        p = to_poly(subst(x[2], m)) if m else to_poly(x[2])
        cand = [k for k in p if len(k) == 1 and k[0][1] == 1 and abs(p[k]) == 1 and k[0][0][0] in ('size', 'at', 'init', 'out', 'ret')
                and not any(k[0][0] in dict(o) for o in p if o != k)]
        cand.sort(key=lambda k: (k[0][0][0] != 'size', key(k)))
        if cand:
            k = cand[0]; co = p[k]
            v = from_poly({o: -c / co for o, c in p.items() if o != k})
            m = {a: subst(b, {k[0][0]: v}) for a, b in m.items()}; m[k[0][0]] = v
    return m

def precise(x):
    if x[0] == 'cmp' and not x[3] and x[2][0] != 'pair' and x[1] in ('<', '<=') and intval(x[2]): return cmp(x[1], x[2], num(0), True)
    return x

def facts(g, idx):
    """Guards made precise for integers, conversions and unsigned differences
    resolved where they cannot wrap, with facts about truncation."""
    out = [precise(x) for x in g]
    for _ in range(4):
        pool = set()
        for x in out + [idx]: pool |= atoms(x)
        m, more = {}, []
        for a in pool:
            if a[0] != 'call': continue
            if a[1] == 'idiv' and is_num(a[2][1]) and a[2][1][1] > 0 and a[2][0] in T.NONNEG:
                more.append(cmp('<=', mul(a, a[2][1]), a[2][0], True))
        base = out + more
        for a in pool:
            if a[0] != 'call': continue
            y = a[2][0] if a[2] else None
            if a[1] == 'trunc':
                pos = positive(base, y, intval(y))
                if intval(y) and (pos or a not in T.NONNEG): m[a] = y
                elif pos: more += [cmp('<=', num(0), a, True), cmp('<=', a, y, False)]
            elif a[1] == 'floor': more.append(cmp('<=', a, y, False))
            elif a[1] == 's2u' and implies(base, cmp('<=', num(0), y, True)): m[a] = y
            elif a[1] == 'usub' and implies(base, cmp('<=', a[2][1], a[2][0], True)): m[a] = sub(*a[2])
        if not m: return out + more, idx
        out = [precise(subst(subst(x, m), m)) for x in out]; idx = subst(subst(idx, m), m)
    return out + more, idx

def topcases(t, g):
    """Split on the alternatives of t itself (not on those inside opaque arguments)."""
    def find(x):
        if x[0] == 'ite': return x
        if x[0] == 'p':
            for mo, c in x[1]:
                for b, e in mo:
                    y = find(b)
                    if y: return y
        if x[0] == 'call' and x[1] in ('usub', 'add', 'sub', 'mul'):
            for b in x[2]:
                y = find(b)
                if y: return y
        return None
    out, todo = [], [(tuple(g), t)]
    while todo:
        g, t = todo.pop()
        x = find(t)
        if x is None or len(out) + len(todo) > 64: out.append((g, t)); continue
        todo += [(g + (x[1],), subst(t, {x: x[2]})), (g + (lnot(x[1]),), subst(t, {x: x[3]}))]
    return out

def split(idx, S):
    """idx as (line, sample): the part with factor S, and the rest."""
    a, b = {}, {}
    for m, c in to_poly(idx).items():
        d = dict(m)
        if d.get(S, 0) == 1:
            a[tuple(x for x in m if x[0] != S)] = c
        else: b[m] = c
    return from_poly(a), from_poly(b)

def inside(idx, size, guard, extra=(), past=False):
    """Is 0 <= idx < size (<= size when past) implied?  Returns None when it is."""
    bad = None
    for g, i in topcases(idx, tuple(guard) + tuple(extra)):
        m = equalities(g)
        z = size
        g = [x for x in (subst(x, m) for x in g) if x != TRUE] if m else list(g)
        i, z = (subst(i, m), subst(z, m)) if m else (i, z)
        f, i = facts(g, i)
        if not satisfiable(land(*f)): continue
        if direct(i, z, f, past): continue
        ok = False
        zp = to_poly(z)
        if len(zp) == 1:
            (mono, c), = zp.items()
            if c == 1 and len(mono) == 2 and all(e == 1 for _, e in mono):
                for S, L in ((mono[0][0], mono[1][0]), (mono[1][0], mono[0][0])):
                    a, b = split(i, S)
                    if past:      # one past the end: a*S + b <= S*L
                        if implies(f, cmp('<=', num(0), a, True)) and implies(f, cmp('<', a, L, True)) and implies(f, cmp('<=', num(0), b, True)) and implies(f, cmp('<=', b, S, True)): ok = True
                        if implies(f, cmp('<=', num(0), a, True)) and implies(f, cmp('<=', a, L, True)) and b == num(0): ok = True
                    elif implies(f, cmp('<=', num(0), a, True)) and implies(f, cmp('<', a, L, True)) and implies(f, cmp('<=', num(0), b, True)) and implies(f, cmp('<', b, S, True)): ok = True
                    if ok: break
        if not ok: bad = (g, i, z); break
    return bad

def direct(i, z, f, past):
    return implies(f, cmp('<=', num(0), i, True)) and implies(f, cmp('<=' if past else '<', i, z, True))

def sites(E, want):
    """(event, label, position, one-past?) for every access to a wanted container."""
    for e in E.events:
        if e.kind == 'index' and want(e.cont): yield e, e.index, False
        elif e.kind in ('range', 'reverse') and want(e.cont):
            yield e, e.first, True; yield e, e.last, True
        elif e.kind == 'swapranges' and want(e.cont):
            yield e, e.first, True; yield e, e.last, True
            if e.dest[0] == 'it' and e.dest[1] == e.cont:
                yield e, e.dest[2], True; yield e, add(e.dest[2], sub(e.last, e.first)), True
        elif e.kind == 'fillrange' and e.it[0] == 'it' and want(e.it[1]):
            yield e, e.it[2], True
            if e.count[0] != 'unknown': yield e, add(e.it[2], e.count), True

def judge(r, rule, f, E, want, size=None, extra=(), followed=False):
    n = 0
    for e, i, past in sites(E, want):
        z = size if size is not None else e.d.get('size')
        n += 1
        if followed and z is not None and z[0] == 'size' and z[1][0] != 'parm': r.skip(rule, f['q'], e.file, e.line, 'size of %s not followed' % show(e.d.get('cont') or e.it[1])); continue
        b = inside(i, z, e.guard, extra, past)
        r.check(b is None, rule, f['q'], e.file, e.line, 'position %s is not shown to be inside the %s elements of %s' % (show(i), show(z), show(e.d.get('cont') or e.it[1])), '%s:%s' % (e.kind, 'end' if past else 'at'))
    return n

def check(r):
    p = program()
    # ---- grids
    subs = set(p.subclasses('MaRC::MapFactory'))
    for f in sorted((f for f in p.fns.values() if f['n'] == 'plot_grid' and 'body' in f and f.get('cls') in subs), key=lambda f: f['q']):
        E = analyse(f, wrap=True, opaque=OPAQUE)
        G = [('parm', x['n']) for x in f['params'] if 'vector<' in x['t']]
        ints = [('init', ('parm', x['n'])) for x in f['params'] if unsigned_t(x['t'])]
        if len(G) != 1 or len(ints) != 2: raise AnalysisError('%s: unexpected parameters' % f['q'])
        judge(r, 'grid position', f, E, lambda c: c == G[0], size=mul(*ints))
    # ---- inversion of images
    for q in ('MaRC::invert_samples', 'MaRC::invert_lines'):
        for f in p.some(q):
            E = analyse(f, wrap=True)
            C = ('parm', f['params'][0]['n'])
            if not judge(r, 'range inversion', f, E, lambda c: c == C): raise AnalysisError(q + ': no access to the image found')
    # ---- body mask
    f = p.one('MaRC::ViewingGeometry::body_mask')
    E = analyse(f, wrap=True, opaque=OPAQUE | {'MaRC::ViewingGeometry::pix2latlon'})
    judge(r, 'source loading', f, E, lambda c: c[0] in ('var', 'tmp'))
    v = E.value
    S, L = [('init', ('parm', x['n'])) for x in f['params'][:2]]
    msize = v[1] if v[0] == 'vec' else None
    r.check(msize == mul(S, L), 'photo bounds', f['q'], f['file'], f['line'], 'the body mask has %s elements' % (show(msize) if msize else '?'), 'mask')
    # ---- loading a photo
    f = p.one('MaRC::PhotoImageFactory::make')
    E = analyse(f, wrap=True, opaque=OPAQUE | {'MaRC::ViewingGeometry::body_mask', 'MaRC::ViewingGeometry::finalize_setup'})
    judge(r, 'source loading', f, E, lambda c: c[0] in ('var', 'tmp', 'parm') and not isinstance(c[-1], int), followed=True)
    rd = [e for e in E.events if e.kind == 'call' and e.fn in ('ffgpxvll', 'ffgpxv', 'ffgpvd', 'ffgpv')]
    if not rd: raise AnalysisError('no pixel read found while loading a photo')
    for e in rd:
        buf = [a for a in e.args if a[0] == 'data']
        sz = e.d.get('bufsize')
        if not buf or sz is None: r.skip('source loading', f['q'], e.file, e.line, 'read buffer not followed'); continue
        fits = lambda a: a == sz or sz == ('call', 's2u', (a,))      # a negative count reads nothing
        cnt = [a for a in e.args if fits(a)]
        r.check(bool(cnt), 'source loading', f['q'], e.file, e.line, 'a read of %s pixels goes to a buffer of %s' % (', '.join(show(a) for a in e.args[3:4]), show(sz)), 'read')
    photo(r, p)

def unsigned_t(t): return t.replace('const ', '').startswith('unsigned')

def photo(r, p):
    """The photo: what its constructor guarantees, and every access relying on it."""
    ct = [f for f in p.q('MaRC::PhotoImage::PhotoImage') if len(f['params']) == 5 and 'body' in f]
    if len(ct) != 1: raise AnalysisError('PhotoImage constructor not found')
    f = ct[0]
    E = Evaluator(wrap=True, opaque=OPAQUE | {'MaRC::ViewingGeometry::body_mask'}).run(f)
    fin = E.final
    this = ('deref', ('v', 'this'))
    S, L = [('init', ('parm', x['n'])) for x in f['params'][1:3]]
    rd = [g for g in p.q('MaRC::PhotoImage::read_data') if len(g['params']) == 5]
    if len(rd) != 1: raise AnalysisError('PhotoImage::read_data not found')
    R = analyse(rd[0], wrap=True, opaque=OPAQUE | {'MaRC::ViewingGeometry::latlon2pix', 'MaRC::InterpolationStrategy::interpolate', 'MaRC::PhotometricCorrection::correct'}, asserts=False)
    fields = {}
    rec = p.records['MaRC::PhotoImage']
    inv, size = [], {}
    for fd in rec['fields']:
        loc = ('fld', this, fd['n'])
        v = fin.env.get(loc)
        fields[fd['n']] = v
    samp = [n for n, v in fields.items() if v == S]; lin = [n for n, v in fields.items() if v == L]
    if len(samp) < 1 or len(lin) < 1: raise AnalysisError('PhotoImage: members holding the image size not found')
    FS, FL = ('init', ('fld', this, samp[0])), ('init', ('fld', this, lin[0]))
    for x in (FS, FL): T.NONNEG.add(x)
    g0 = fin.guard
    # bounds: unsigned members that are not the size itself
    for fd in rec['fields']:
        n, v = fd['n'], fields[fd['n']]
        if not unsigned_t(fd['t']) or v in (S, L) or v is None: continue
        fld = ('init', ('fld', this, n)); T.NONNEG.add(fld)
        for X, F, nm in ((S, FS, 'samples'), (L, FL, 'lines')):
            fx, w = facts(list(g0), v)
            if implies(fx, cmp('<=', w, X, True)) and (X in atoms(v)):
                inv.append(cmp('<=', fld, F, True)); r.ok('photo bounds', f['q'], f['file'], f['line'], n)
            elif X in atoms(v):
                r.bad('photo bounds', f['q'], f['file'], f['line'], 'member %s = %s may exceed the number of %s (or wrap around) for accepted nibble values' % (n, show(v), nm), n)
    imgs = [fd['n'] for fd in rec['fields'] if 'vector<double' in fd['t']]
    masks = [fd['n'] for fd in rec['fields'] if 'vector<bool' in fd['t']]
    if len(imgs) != 1 or len(masks) != 1: raise AnalysisError('PhotoImage: buffers not found')
    iv = fields[imgs[0]]
    zi = ('size', iv[1]) if iv and iv[0] == 'init' else (iv[1] if iv and iv[0] == 'vec' else ('size', ('fld', this, imgs[0])))
    cand = [x for x in g0 if x[0] == 'cmp' and x[1] == '==' and x[2][0] != 'pair']
    okimg = any(contains(x, lambda t: t[0] == 'size') and implies([x], cmp('==', z, mul(S, L), True)) for x in cand for z in atoms(x) if z[0] == 'size')
    r.check(okimg, 'photo bounds', f['q'], f['file'], f['line'], 'the image is not shown to have samples*lines pixels once constructed', 'image size')
    bm = [e for e in E.events if e.kind == 'call' and e.fn.endswith('::body_mask')]
    if not bm: raise AnalysisError('PhotoImage: body mask is not computed in the constructor')
    for e in bm: r.check(list(e.args[:2]) == [S, L], 'photo bounds', f['q'], e.file, e.line, 'the body mask is made for %s' % [show(a) for a in e.args], 'mask size')
    cont = {('fld', this, imgs[0]), ('fld', this, masks[0])}
    n = judge(r, 'photo position', rd[0], R, lambda c: c in cont, size=mul(FS, FL), extra=tuple(inv))
    if n < 2: raise AnalysisError('PhotoImage::read_data: accesses not found')
    # ---- interpolation reads the same photo within its own bounds
    for b in [g for g in p.fns.values() if g['n'] == 'interpolate' and 'body' in g and g.get('cls') in p.subclasses('MaRC::InterpolationStrategy')]:
        B = analyse(b)
        D = ('deref', ('init', ('parm', b['params'][0]['n'])))
        acc = [e for e in B.events if e.kind == 'index']
        if not acc: continue
        cls = b['cls']
        cts = [g for g in p.fns.values() if g.get('ctor') and g.get('cls') == cls and len(g['params']) == 6]
        if len(cts) != 1: r.skip('photo position', b['q'], b['file'], b['line'], 'constructor not recognised'); continue
        C = Evaluator().run(cts[0])
        cs, cl = [('init', ('parm', x['n'])) for x in cts[0]['params'][:2]]
        extra, hs = [], None
        for fd in p.records[cls]['fields']:
            v = C.final.env.get(('fld', this, fd['n'])); fld = ('init', ('fld', this, fd['n']))
            T.NONNEG.add(fld)
            if v == cs: hs = fld
        lines = ('init', ('fld', this, '<lines>')); T.NONNEG.add(lines)
        for fd in p.records[cls]['fields']:
            v = C.final.env.get(('fld', this, fd['n'])); fld = ('init', ('fld', this, fd['n']))
            if v is None or fld == hs: continue
            # no wrap-around here: the photo refuses such nibble values
            if cs in atoms(v) and implies([], cmp('<=', v, cs, True)): extra.append(cmp('<=', fld, hs, True))
            if cl in atoms(v) and implies([], cmp('<=', v, cl, True)): extra.append(cmp('<=', fld, lines, True))
        if hs is None: raise AnalysisError('%s: row length not found' % cls)
        judge(r, 'photo position', b, B, lambda c: True, size=mul(hs, lines), extra=tuple(extra))
