"""F07: a map's planes in its file.  The state of FITS::image is characterised by
the terms its constructor stores (position of the next plane, pixels per plane,
pixels in all) and each write is compared with the only transition that keeps
the planes adjacent; the image created for a map and the loop that makes and
writes the planes are traced back to the map size and the list of planes."""
from rulelib import *
from rules.f04 import opaque_set, members, relevant, atoms_all, IMG, PAR

MINIMUM = {'image created with the size of the map': 6, 'plane stored at its own place': 4, 'a whole plane is stored': 4, 'next plane follows the previous one': 4, 'plane accepted while there is room': 4, 'each plane is made from its own source': 6, 'each plane is written': 6, 'grid has the size of the map': 1}

def check(r):
    p = program()
    r.part(image, r, p)
    r.part(planes, r, p)
    r.part(grid, r, p)

def this_field(n): return ('fld', ('deref', ('v', 'this')), n)

def fields(p):
    """roles of the fields of FITS::image, from what the constructor stores"""
    f = [x for x in p.fns.values() if x.get('clsq') == IMG and x.get('ctor') and 'body' in x and len(x['params']) >= 5][0]
    E = analyse(f, opaque=NOISE)
    cr = [e for e in E.events if e.kind == 'call' and e.fn in ('ffcrimll', 'ffcrim')]
    if not cr: raise AnalysisError('creation of the image not found')
    ax = cr[0].pre[3]
    if ax[0] != 'list' or len(ax) < 4: raise AnalysisError('axes of the image not understood: %s' % show(ax)[:80])
    s, l, n = [untrunc(x) for x in ax[1:4]]
    stores = {}
    for e in E.events:
        if e.kind == 'store' and e.loc[0] == 'fld' and e.loc[1] == ('deref', ('v', 'this')): stores[e.loc[2]] = untrunc(e.value)
    return f, cr[0], (s, l, n), stores

def image(r, p):
    f, cr, (s, l, n), st = fields(p)
    plane, whole = mul(s, l), mul(mul(s, l), n)
    written = set()
    for g in p.fns.values():
        if g.get('clsq') != IMG or g.get('ctor') or 'body' not in g: continue
        for e in analyse(g, opaque=NOISE).events:
            if e.kind == 'store' and e.loc[0] == 'fld' and e.loc[1] == ('deref', ('v', 'this')): written.add(e.loc[2])
    const = {x: v for x, v in st.items() if x not in written}
    nel = [x for x, v in const.items() if v == plane]
    mx = [x for x, v in const.items() if v == whole]
    sub = {('init', this_field(x)): v for x, v in const.items() if v[0] != 'call'}
    for w in p.fns.values():
        if w.get('clsq') != IMG or w['n'] != 'write' or 'body' not in w: continue
        where = '%s<%s>' % (w['q'], (w.get('ta') or [''])[0][:40])
        E = analyse(w, opaque=NOISE)
        ws = [e for e in E.events if e.kind == 'call' and e.fn in ('ffppr', 'ffpprll', 'ffppx', 'ffppxll')]
        if len(ws) != 1 or ws[0].fn != 'ffppr' or ws[0].loops:
            r.skip('plane stored at its own place', where, w['file'], w['line'], '%d writes of pixels' % len(ws)); continue
        e = ws[0]
        first, count, guard = untrunc(e.pre[2]), untrunc(e.pre[3]), land(*e.guard)
        pos = [a for a in atoms(first) if a[0] == 'init' and a[1][0] == 'fld' and a[1][2] in written]
        if len(pos) != 1: r.skip('plane stored at its own place', where, e.file, e.line, show(first)[:80]); continue
        pos, name = pos[0], pos[0][1][2]
        v0 = st.get(name)
        if v0 is None: r.bad('plane stored at its own place', where, e.file, e.line, 'the position %s of the first plane is never set' % name); continue
        f0 = subst(subst(first, {pos: v0}), sub)
        fs = [q for q in E.events if q.kind == 'store' and q.loc == this_field(name)]
        if opaque_terms(f0): r.skip('plane stored at its own place', where, e.file, e.line, show(f0)[:80]); continue
        r.check(f0 == num(1), 'plane stored at its own place', where, e.file, e.line, 'the first plane is written at pixel %s instead of 1' % show(f0)[:60])
        size = [a for a in atoms_all(guard) if a and a[0] == 'size']
        c = subst(count, sub)
        eq = [subst(x, sub) for x in (cmp('==', count, a, True) for a in size)]
        same = c == plane or (count in size and any(not satisfiable(land(guard, lnot(cmp('==', count, ('init', this_field(x)), True)))) for x in nel))
        r.check(same, 'a whole plane is stored', where, e.file, e.line, '%s pixels are written for a plane of %s' % (show(c)[:60], show(plane)))
        # the data written are those handed in
        if e.pre[4][0] == 'data' and any(a[0] == 'parm' for a in atoms_all(e.pre[4]) if a): r.ok('a whole plane is stored', where, e.file, e.line)
        else: r.skip('a whole plane is stored', where, e.file, e.line, show(e.pre[4])[:80])
        # sizes agree
        if nel and size:
            N = ('init', this_field(nel[0]))
            r.check(not satisfiable(land(guard, lnot(cmp('==', size[0], N, True)))), 'a whole plane is stored', where, e.file, e.line, 'data of another size than the plane are written')
            if mx:
                X = ('init', this_field(mx[0]))
                room = land(cmp('==', size[0], N, True), cmp('<=', first, X, True))
                miss = land(room, lnot(guard))
                r.check(not satisfiable(miss), 'plane accepted while there is room', where, e.file, e.line, 'a plane is refused although there is room for it: %s' % show(miss)[:140])
                over = land(guard, cmp('>', first, X, True))
                r.check(not satisfiable(over), 'plane accepted while there is room', where, e.file, e.line, 'a plane is written behind the end of the image')
            else: r.skip('plane accepted while there is room', where, e.file, e.line, 'no total')
        elif not size: r.bad('a whole plane is stored', where, e.file, e.line, 'the number of pixels handed in is not compared with the size of a plane')
        # progress
        if not fs: r.bad('next plane follows the previous one', where, w['file'], w['line'], 'the position of the next plane is never advanced'); continue
        fin = E.final.env.get(this_field(name)) if hasattr(E.final, 'env') else None
        for q in fs:
            step = subst(sub_(subst(first, {pos: untrunc(q.value)}), first), sub)
            r.check(step == plane or (mulsize(step, size) and same), 'next plane follows the previous one', where, q.file, q.line, 'the next plane starts %s pixels behind this one instead of %s' % (show(step)[:60], show(plane)))
            okg = land(*q.guard)
            # advanced exactly when the plane was written
            r.check(not satisfiable(land(okg, lnot(guard))), 'next plane follows the previous one', where, q.file, q.line, 'the position advances although nothing was written')
        res = [a for a in atoms_all(E.value) if a and a[0] == 'out' and a[1] == e.result]
        T = E.value
        if T[0] not in ('ret', 'void'):
            adv = lor(*[land(*q.guard) for q in fs])
            r.check(not satisfiable(land(T, lnot(adv))), 'next plane follows the previous one', where, w['file'], w['line'], 'success is reported although the position was not advanced')

def mulsize(step, size): return step in size
def sub_(a, b): return add(a, mul(num(-1), b))

def planes(r, p):
    op = opaque_set(p) - {'MaRC::FITS::output_file::make_image'} - {IMG + '::image'}
    ctor = [x['q'] for x in p.fns.values() if x.get('clsq') == IMG and x.get('ctor')]
    op -= set(ctor)
    for f in p.q('MaRC::MapCommand::make_map_planes'):
        if 'body' not in f: continue
        where = f['q'] + '<%s>' % (f.get('ta') or [''])[0]
        E = Evaluator(opaque=op); E.run(f)
        FAC = set_field(p, 'MaRC::MapCommand::image_factories', 0)
        isfac = lambda t: t[0] == 'size' and any(a and a[0] == 'fld' and a[2] == FAC for a in atoms_all(t))
        fac = [a for e in E.events if e.kind == 'call' and e.fn == 'MaRC::SourceImageFactory::make' for a in atoms_all(e.this) if a and a[0] == 'fld' and a[2] == FAC]
        created(r, p, E, f, where, 'image created with the size of the map', isfac, 'the number of planes')
        ws = [e for e in E.events if e.kind == 'call' and e.fn == IMG + '::write']
        mk = [e for e in E.events if e.kind == 'call' and e.fn == 'MaRC::SourceImageFactory::make']
        mm = [e for e in E.events if e.kind == 'call' and e.fn == 'MaRC::MapFactory::make_map']
        mx = [e for e in E.events if e.kind == 'call' and e.fn == 'MaRC::SourceImageFactory::minmax']
        if len(ws) != 1 or len(mk) != 1 or len(mm) != 1: r.skip('each plane is written', where, f['file'], f['line'], '%d writes, %d sources, %d maps' % (len(ws), len(mk), len(mm))); continue
        w, m, k = ws[0], mm[0], mk[0]
        r.check(m.result in atoms_all(w.pre[0]), 'each plane is written', where, w.file, w.line, 'what is written is %s, not the plane just made' % show(w.pre[0])[:60])
        r.check(k.result in atoms_all(m.args[0]), 'each plane is made from its own source', where, m.file, m.line, 'the plane is made from %s' % show(m.args[0])[:60])
        for x in mx: r.check(x.this == k.this, 'each plane is made from its own source', where, x.file, x.line, 'the data range is that of %s, the source is %s' % (show(x.this)[:50], show(k.this)[:50]))
        if not (w.loops and m.loops and k.loops): r.bad('each plane is written', where, w.file, w.line, 'the planes are not made and written in one loop'); continue
        lid = [getattr(l, 'id', l) for l in k.loops]
        L = E.loops.get(lid[-1])
        r.check(list(w.loops) == list(k.loops), 'each plane is written', where, w.file, w.line, 'making and writing a plane happen in different loops')
        trip = L.trip if L else None
        if trip and not opaque_terms(trip): r.check(isfac(trip), 'each plane is written', where, w.file, L.line, 'the loop over the planes makes %s rounds' % show(trip)[:60])
        else: r.skip('each plane is written', where, w.file, w.line, 'number of rounds')
        # nothing but a missing source stands between a plane and its write
        gs = [c for c in relevant(w.guard) if not any(x and x[0] in (('iter',) if trip else ('iter', 'lsym')) for x in atoms_all(c)) and k.result not in atoms_all(c)]
        gs = [c for c in gs if not any(x and x[0] in ('get', 'optval') or x and x[0] == 'ret' and ('minmax' in str(x)) for x in atoms_all(c)) and not any(x and x[0] == 'out' for x in atoms_all(c)) and 'minmax' not in show(c)]
        gs = [c for c in gs if not any(x and x[0] == 'ret' and 'make_image' in str(x) or x and x[0] in ('new', 'strlen') for x in atoms_all(c))]
        gs = [c for c in gs if 'strlen' not in str(c)]
        if not gs or not satisfiable(lnot(land(*gs))): r.ok('each plane is written', where, w.file, w.line)
        else: r.check(False, 'each plane is written', where, w.file, w.line, 'a plane is only written if %s' % show(land(*gs))[:100])

def command_fields(p):
    """samples, lines, latitude and longitude interval of the grid"""
    c = [f for f in p.q('MaRC::MapCommand::MapCommand') if 'body' in f and len(f['params']) > 2]
    if not c: raise AnalysisError('constructor of MapCommand not found')
    n = [i for i, x in enumerate(c[0]['params']) if base_type(x['t']) in ('long', 'int', 'unsigned long', 'size_t', 'std::size_t', 'long long')]
    if len(n) != 2: raise AnalysisError('size of the map not found among the parameters of MapCommand')
    G = 'MaRC::MapCommand::grid_intervals'
    return tuple(set_field(p, 'MaRC::MapCommand::MapCommand', i, len(c[0]['params'])) for i in n) + (set_field(p, G, 0, 2), set_field(p, G, 1, 2))

def created(r, p, E, f, where, rule, isplanes, text):
    cr = [e for e in E.events if e.kind == 'call' and e.fn in ('ffcrimll', 'ffcrim')]
    mk = [e for e in E.events if e.kind == 'make' and e.cls == IMG]
    if not cr and len(mk) == 1:
        c = [x for x in p.fns.values() if x.get('clsq') == IMG and x.get('ctor') and 'body' in x and len(x['params']) == len(mk[0].args)]
        if len(c) == 1:
            C = Evaluator(opaque=NOISE); C.run(c[0], args=list(mk[0].args))
            cr = [e for e in C.events if e.kind == 'call' and e.fn in ('ffcrimll', 'ffcrim')]
    if len(cr) != 1: r.skip(rule, where, f['file'], f['line'], '%d images created' % len(cr)); return
    e = cr[0]
    ax = e.pre[3]
    if ax[0] != 'list' or len(ax) < 4: r.skip(rule, where, e.file, e.line, show(ax)[:60]); return
    for i, (n, pred) in enumerate((('samples', lambda t: t == ('init', this_field(command_fields(p)[0]))), ('lines', lambda t: t == ('init', this_field(command_fields(p)[1]))), (text, isplanes))):
        t = untrunc(ax[1 + i])
        if any(x and x[0] in ('ret', 'lout') for x in atoms_all(t)): r.skip(rule, where, e.file, e.line, show(t)[:60]); continue
        r.check(pred(t), rule, where, e.file, f['line'], 'axis %d of the image is %s instead of %s' % (i + 1, show(t)[:50], n))
    n = untrunc(ax[3])
    nax = e.pre[2]
    for g, v in cases(nax):
        if v not in (num(2), num(3)): r.check(False, rule, where, e.file, e.line, 'an image of %s dimensions is created' % show(v)[:30]); continue
        if v == num(2):
            c = land(*(tuple(g) + (cmp('>', n, num(1), True),)))
            r.check(not satisfiable(c), rule, where, e.file, e.line, 'a map of several planes is created with two dimensions')

def grid(r, p):
    f = p.one('MaRC::MapCommand::write_grid')
    op = opaque_set(p) - {'MaRC::FITS::output_file::make_image', IMG + '::image'}
    E = Evaluator(opaque=op); E.run(f)
    created(r, p, E, f, f['q'], 'grid has the size of the map', lambda t: t == num(1), 'one')
    mg = [e for e in E.events if e.kind == 'call' and e.fn == 'MaRC::MapFactory::make_grid']
    ws = [e for e in E.events if e.kind == 'call' and e.fn == IMG + '::write']
    if len(mg) != 1 or len(ws) != 1: r.skip('grid has the size of the map', f['q'], f['file'], f['line'], 'grid not found'); return
    for i, n in enumerate(command_fields(p)):
        t = untrunc(mg[0].pre[i])
        if t[0] == 'init' and t[1][0] == 'fld': r.check(t[1][2] == n, 'grid has the size of the map', f['q'], f['file'], mg[0].line, 'the grid is made with %s where %s is expected' % (t[1][2], n))
        else: r.skip('grid has the size of the map', f['q'], f['file'], mg[0].line, show(t)[:40])
    r.check(mg[0].result in atoms_all(ws[0].pre[0]), 'grid has the size of the map', f['q'], ws[0].file, ws[0].line, 'what is written is not the grid')
