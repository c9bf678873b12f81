"""F06: scaling of virtual planes.  Stored value, header scale and header offset
are computed as rational terms over the fields of VirtualImage and the identity
offset + scale*stored = physical is decided by normal form; the same terms are
followed through every factory (data range, constructor arguments) and into the
header writes."""
from rulelib import *
from rules.f04 import opaque_set, members, relevant, atoms_all, IMG, PAR, keytext

MINIMUM = {'header scaling undoes the stored scaling': 1, 'scaling applied is the one chosen': 5, 'data range scaled like the data': 10, 'range offered for scaling is that of the plane': 5, 'floating point planes are not scaled': 4, 'scale and offset recorded in the header': 8, 'unit of the plane': 5, 'physical value of the plane': 5}
VI = 'MaRC::VirtualImage'
RANGE = {'MaRC::LatitudeImage': (-90, 90), 'MaRC::MuImage': (-1, 1), 'MaRC::Mu0Image': (-1, 1), 'MaRC::CosPhaseImage': (-1, 1), 'MaRC::LongitudeImage': (0, 360)}
THIS = ('deref', ('v', 'this'))

def check(r):
    p = program()
    r.part(inverse, r, p)
    for f in sorted(p.fns.values(), key=lambda f: f['q']):
        if f['n'] == 'make' and 'body' in f and f.get('clsq', '').endswith('ImageFactory'): r.part(factory, r, p, f)
    r.part(floats, r, p)
    r.part(header, r, p)
    r.part(units, r, p)
    r.part(values, r, p)

def body_members(p):
    m = members(p, 'MaRC::BodyData', 'MaRC::OblateSpheroid')
    return m | {'MaRC::BodyData::' + x.split('::')[-1] for x in m}

def forward(p):
    """(stored value, physical value) of VirtualImage::read_data"""
    f = p.one(VI + '::read_data')
    E = analyse(f, opaque=NOISE | members(p, VI) - {VI + '::scale', VI + '::offset', VI + '::read_data'})
    calls = [e for e in E.events if e.kind == 'call' and e.fn.endswith('::read_data_i')]
    if len(calls) != 1: raise AnalysisError('read_data: %d reads' % len(calls))
    raw = ('out', calls[0].result, 2)
    loc = [k for k in E.final.env if k == ('parm', f['params'][2]['n']) or (k[0] == 'parm' and k[1] == f['params'][2]['n'])]
    st = [e for e in E.events if e.kind == 'store' and any(a == raw for a in atoms(e.value))]
    fin = None
    for k, v in E.final.env.items():
        if k[0] == 'parm' and raw in atoms_all(v): fin = v
    if fin is None: raise AnalysisError('read_data: stored value not found')
    return f, calls[0], raw, fin, E

def inverse(r, p):
    f, call, raw, fin, E = forward(p)
    s = analyse(p.one(VI + '::scale'), opaque=NOISE).value
    o = analyse(p.one(VI + '::offset'), opaque=NOISE).value
    n = 0
    for g, v in cases(fin):
        if raw not in atoms(v): continue
        if not satisfiable(land(*(tuple(g) + (call.result,)))): continue
        if opaque_terms(s) or opaque_terms(o) or {a for a in opaque_terms(v) if a != raw and a != call.result}: r.skip('header scaling undoes the stored scaling', f['q'], f['file'], f['line'], show(v)[:80]); continue
        n += 1
        back = add(o, mul(s, v))
        r.check(back == raw, 'header scaling undoes the stored scaling', f['q'], f['file'], f['line'], 'offset + scale * stored is %s, not the physical value' % show(back)[:160])
    if not n: r.skip('header scaling undoes the stored scaling', f['q'], f['file'], f['line'], show(fin)[:100])
    # a failed read is reported
    r.check(E.value == call.result or not satisfiable(land(E.value, lnot(call.result))) if E.value[0] not in ('ret',) or E.value == call.result else True, 'header scaling undoes the stored scaling', f['q'], f['file'], f['line'], 'a datum is reported although none was read')

def factory(r, p, f):
    E = analyse(f, opaque=NOISE | {'MaRC::ViewingGeometry::finalize_setup', 'MaRC::ViewingGeometry::body_mask'})
    mk = [e for e in E.events if e.kind == 'make']
    so = [e for e in E.events if e.kind == 'icall']
    mk = [e for e in mk if e.cls in RANGE]
    if not mk: return
    if len(mk) != 1 or len(so) != 1: r.skip('scaling applied is the one chosen', f['q'], f['file'], f['line'], '%d images made' % len(mk)); return
    mk, so = mk[0], so[0]
    lo, hi = so.args[0], so.args[1]
    S, O = ('out', so.result, 2), ('out', so.result, 3)
    want = RANGE[mk.cls]
    if lo[0] == 'n' or (untrunc(lo) == num(want[0])) or not atoms(lo): 
        if mk.cls == 'MaRC::LongitudeImage': ok = sub(hi, lo) == num(360)
        else: ok = lo == num(want[0]) and hi == num(want[1])
        r.check(ok, 'range offered for scaling is that of the plane', f['q'], so.file, so.line, 'the scaling is chosen for values from %s to %s' % (show(lo), show(hi)))
    else: r.skip('range offered for scaling is that of the plane', f['q'], so.file, so.line, show(lo)[:50])
    # the image is only made if a scaling was found
    r.check(not satisfiable(land(*(tuple(mk.guard) + (lnot(so.result),)))), 'scaling applied is the one chosen', f['q'], mk.file, mk.line, 'the image is made although its values do not fit the data type')
    c = [x for x in p.fns.values() if x.get('clsq') == mk.cls and x.get('ctor') and 'body' in x and len(x['params']) == len(mk.args)]
    if len(c) != 1: r.skip('scaling applied is the one chosen', f['q'], mk.file, mk.line, 'constructor of %s' % mk.cls); return
    C = Evaluator(opaque=NOISE); C.run(c[0], args=list(mk.args))
    st = {}
    for e in C.events:
        if e.kind == 'store' and e.loc[0] == 'fld' and e.loc[1] == THIS: st[('init', e.loc)] = untrunc(e.value)
    _, call, raw, fin, _ = forward(p)
    for g, v in cases(fin):
        if raw not in atoms(v) or not satisfiable(land(*(tuple(g) + (call.result,)))): continue
        w = subst(v, st)
        if {a for a in opaque_terms(w) if a not in (raw, call.result, so.result)}: r.skip('scaling applied is the one chosen', f['q'], mk.file, mk.line, show(w)[:80]); continue
        r.check(w == add(mul(raw, S), O), 'scaling applied is the one chosen', f['q'], mk.file, mk.line, 'values are stored as %s instead of the scaling chosen for the data type' % show(w)[:100])
        # data range
        for name, d in (('minimum', lo), ('maximum', hi)):
            fs = [e for e in E.events if e.kind == 'store' and e.loc[0] == 'fld' and e.loc[2] == getter_field(p, 'MaRC::extrema::' + name)]
            if not fs: r.bad('data range scaled like the data', f['q'], f['file'], f['line'], 'the %s of the data is not set' % name); continue
            fin2 = E.final.env.get(fs[-1].loc)
            if fin2 is None: r.skip('data range scaled like the data', f['q'], f['file'], f['line'], name); continue
            user = ('init', fs[-1].loc)
            for g2, leaf in cases(fin2, minmax=False):
                while leaf[0] == 'some': leaf = leaf[1]
                given = satisfiable(land(*(tuple(g2) + (('has', user),)))) and any(h == ('has', user) for h in g2)
                inner = [a for a in atoms_all(leaf) if a and a[0] == 'val' and user in atoms_all(a)] 
                if leaf == user or leaf == ('val', user):
                    if satisfiable(land(*(tuple(g2) + (('has', user), so.result)))): r.bad('data range scaled like the data', f['q'], f['file'], f['line'], 'the %s set by the user is compared with the scaled data' % name, '%s:%s' % (f['q'], name))
                    continue
                if leaf[0] == 'none': continue
                leafs = cases(leaf)
                for g3, l3 in leafs:
                    uv = [a for a in atoms(l3) if a[0] == 'val' and a[1] == user]
                    base = uv[0] if uv else d
                    if {a for a in opaque_terms(l3) if a != so.result}: r.skip('data range scaled like the data', f['q'], f['file'], f['line'], show(l3)[:80]); continue
                    r.check(l3 == subst(w, {raw: base}), 'data range scaled like the data', f['q'], f['file'], f['line'], 'the %s data are compared with is %s while the data are %s' % (name, show(l3)[:60], show(w)[:60]), '%s:%s' % (f['q'], name))

def floats(r, p):
    for f in p.fns.values():
        T = (f.get('ta') or [''])[0]
        if f['q'] != 'MaRC::scale_and_offset' or T not in ('float', 'double') or 'body' not in f: continue
        E = analyse(f, opaque=NOISE)
        fin = {k[1]: v for k, v in E.final.env.items() if k[0] == 'parm'}
        for n, w in ((f['params'][2]['n'], num(1)), (f['params'][3]['n'], num(0))):
            v = fin.get(n)
            if v is None: r.bad('floating point planes are not scaled', f['q'] + '<%s>' % T, f['file'], f['line'], '%s is not set' % n); continue
            if opaque_terms(v): r.skip('floating point planes are not scaled', f['q'] + '<%s>' % T, f['file'], f['line'], show(v)[:60]); continue
            r.check(v == w, 'floating point planes are not scaled', f['q'] + '<%s>' % T, f['file'], f['line'], '%s is %s, yet the header of floating point maps records none' % (n, show(v)[:40]))

def almost(v, src):
    """v is src, or 0 where src is negligible"""
    for g, l in cases(v, minmax=False):
        if l == src: continue
        if l == num(0) and g and any('abs' in str(c) and src in atoms_all(c) for c in g): continue
        return False
    return True

def header(r, p):
    op = opaque_set(p)
    for f in p.q('MaRC::MapCommand::make_map_planes'):
        if 'body' not in f: continue
        T = (f.get('ta') or [''])[0]
        where = 'MaRC::MapCommand::make_map_planes<%s>' % T
        E = Evaluator(opaque=op); E.run(f)
        mk = [e for e in E.events if e.kind == 'call' and e.fn == 'MaRC::SourceImageFactory::make']
        ws = [e for e in E.events if e.kind == 'call' and e.fn == IMG + '::write']
        if len(mk) != 1 or len(ws) != 1: r.skip('scale and offset recorded in the header', where, f['file'], f['line'], 'plane loop'); continue
        mk, ws = mk[0], ws[0]
        sc = [e for e in E.events if e.kind == 'call' and e.fn == VI + '::scale']
        of = [e for e in E.events if e.kind == 'call' and e.fn == VI + '::offset']
        if not sc or not of: r.bad('scale and offset recorded in the header', where, f['file'], f['line'], 'scale and offset of a virtual plane are never recorded'); continue
        for e in sc + of: r.check(mk.result in atoms_all(e.this), 'scale and offset recorded in the header', where, e.file, e.line, 'the scaling recorded is not that of the plane being made')
        virt = [a for a in atoms_all(sc[0].this) if a and a[0] == 'dyncast']
        got = {}
        for e in E.events:
            if e.kind != 'call' or not e.fn.startswith(IMG + '::') or not e.loops: continue
            m = e.fn.split('::')[-1]
            if m in ('bscale', 'bzero'):
                src = (sc if m == 'bscale' else of)[0].result
                srcs = [x.result for x in (sc if m == 'bscale' else of)]
                r.check(any(almost(e.pre[0], s) for s in srcs), 'scale and offset recorded in the header', where, e.file, e.line, '%s of the plane is given %s' % (m.upper(), show(e.pre[0])[:80]))
                got[m] = e
            if m == 'internal_scale':
                r.check(e.pre[0] == num(1) and e.pre[1] == num(0), 'scale and offset recorded in the header', where, e.file, e.line, 'stored values are scaled again by %s and %s' % (show(e.pre[0])[:30], show(e.pre[1])[:30])); got[m] = e
            if m == 'history':
                t = show(e.pre[0])
                srcs = {'BSCALE': [x.result for x in sc], 'BZERO': [x.result for x in of]}
                for k, ss in srcs.items():
                    if k + ':' in str(e.pre[0]):
                        o = srcs['BZERO' if k == 'BSCALE' else 'BSCALE']
                        has_ = any(s in atoms_all(e.pre[0]) for s in ss); other = any(s in atoms_all(e.pre[0]) for s in o)
                        fa = [y for x in atoms_all(e.pre[0]) if x and x[0] == 'call' and x[1] in ('format', 'to_string') for y in x[2] if any(s in atoms_all(y) for s in ss) and y[0] != 'call']
                        r.check(has_ and not other and (not fa or any(almost(y, s) for y in fa for s in ss)), 'scale and offset recorded in the header', where, e.file, e.line, '%s of the plane is described by %s' % (k, t[:80])); got['h' + k] = e
        integer = T not in ('float', 'double')
        bp = [e for e in E.events if e.kind == 'call' and e.fn == PAR + '::bitpix']
        for one in (True, False):
            need = ('bscale', 'bzero', 'internal_scale') if one else ('hBSCALE', 'hBZERO')
            for m in need:
                e = got.get(m)
                if e is None: r.bad('scale and offset recorded in the header', where, f['file'], f['line'], '%s of a virtual plane is never written' % m.lstrip('h'), where + ':' + m); continue
                r.check(e.seq < ws.seq, 'scale and offset recorded in the header', where, e.file, e.line, '%s comes after the plane was written' % m)
                if list(e.loops) != list(ws.loops): continue
                cs = []
                for c in e.guard:
                    if c in ws.guard: continue
                    if virt and any(v in atoms_all(c) for v in virt): continue
                    A = atoms_all(c)
                    if any(x.result in A for x in bp):
                        vs = [subst(c, {x.result: num(b) for x in bp}) for b in (8, 16, 32, 64)]
                        if all(v == TRUE for v in vs): continue
                        if FALSE in vs: r.bad('scale and offset recorded in the header', where, e.file, e.line, '%s is not written for integer maps' % m, where + ':' + m); continue
                    cs.append(c)
                facs = [a for a in A_sizes(cs)]
                sub_ = {a: num(1 if one else 3) for a in facs}
                rest = [subst(c, sub_) for c in cs]
                rest = [c for c in rest if c != TRUE]
                if FALSE in rest: r.bad('scale and offset recorded in the header', where, e.file, e.line, '%s is not written for a map of %s' % (m.lstrip('h'), 'one plane' if one else 'several planes'), where + ':' + m)
                elif not rest or not satisfiable(lnot(land(*rest))): r.ok('scale and offset recorded in the header', where, e.file, e.line)
                elif any(x and x[0] in ('out', 'lout', 'trip', 'undef') for c in rest for x in atoms_all(c)): r.skip('scale and offset recorded in the header', where, e.file, e.line, show(land(*rest))[:80])
                else: r.bad('scale and offset recorded in the header', where, e.file, e.line, '%s is only written if %s' % (m.lstrip('h'), show(land(*rest))[:80]), where + ':' + m)

def A_sizes(cs): return {a for c in cs for a in atoms_all(c) if a and a[0] == 'size' and any(x and x[0] == 'fld' and x[2] == set_field(program(), 'MaRC::MapCommand::image_factories', 0) for x in atoms_all(a))}

UNITS = {'MaRC::LatitudeImageFactory': 'deg', 'MaRC::LongitudeImageFactory': 'deg', 'MaRC::MuImageFactory': None, 'MaRC::Mu0ImageFactory': None, 'MaRC::CosPhaseImageFactory': None}
def units(r, p):
    for c, u in UNITS.items():
        fs = [f for f in p.q(c + '::populate_parameters') if 'body' in f]
        if len(fs) != 1: r.skip('unit of the plane', c, '', 0, 'populate_parameters'); continue
        f = fs[0]
        E = Evaluator(opaque=opaque_set(p)); E.run(f)
        us = [e for e in E.events if e.kind == 'call' and e.fn == PAR + '::bunit' and e.args]
        if u is None: r.check(not us, 'unit of the plane', f['q'], f['file'], f['line'], 'the dimensionless plane is given the unit %s' % (show(us[0].pre[0])[:30] if us else ''))
        elif not us: r.bad('unit of the plane', f['q'], f['file'], f['line'], 'no unit is recorded')
        else:
            for e in us:
                t = [x[1] for x in atoms_all(e.pre[0]) if x and x[0] in ('str', 's', 'lit') and len(x) > 1 and isinstance(x[1], str)]
                if not t: r.skip('unit of the plane', f['q'], e.file, e.line, show(e.pre[0])[:40])
                else: r.check(t == [u], 'unit of the plane', f['q'], e.file, e.line, 'the unit recorded is %s' % t)

BODY = {'MaRC::MuImage': 'mu', 'MaRC::Mu0Image': 'mu0', 'MaRC::CosPhaseImage': 'cos_phase'}
def values(r, p):
    deg = None
    for c, m in BODY.items():
        f = p.one(c + '::read_data_i')
        E = analyse(f, opaque=NOISE | body_members(p))
        dat = ('parm', f['params'][2]['n'])
        v = [x for k, x in E.final.env.items() if k[0] == 'parm' and k[1] == f['params'][2]['n']]
        if not v: r.bad('physical value of the plane', f['q'], f['file'], f['line'], 'the datum is never set'); continue
        names = {a[2].split('::')[-1] for a in atoms(v[0]) if a[0] == 'ret' and len(a) > 2}
        if len(names) != 1 or v[0][0] != 'ret':
            if names - {m}: r.bad('physical value of the plane', f['q'], f['file'], f['line'], 'the plane holds %s' % sorted(names))
            else: r.skip('physical value of the plane', f['q'], f['file'], f['line'], show(v[0])[:80])
            continue
        r.check(names == {m}, 'physical value of the plane', f['q'], f['file'], f['line'], 'the plane holds %s instead of %s' % (names.pop(), m))
    f = p.one('MaRC::LatitudeImage::read_data_i')
    E = analyse(f, opaque=NOISE | body_members(p))
    lat = f['params'][0]['n']
    v = [x for k, x in E.final.env.items() if k[0] == 'parm' and k[1] == f['params'][2]['n']]
    for g, l in cases(v[0]) if v else []:
        rets = [a for a in atoms(l) if a[0] == 'ret']
        ps = [a for a in atoms(l) if a[0] == 'parm' and a[1] == lat]
        if [a for a in atoms(l) if a[0] == 'parm' and a[1] == f['params'][2]['n']]: continue
        graphic = [h for h in g if any(x and x[0] == 'fld' and 'graphic' in str(x[2]) for x in atoms_all(h))]
        if not graphic: r.skip('physical value of the plane', f['q'], f['file'], f['line'], show(l)[:60]); continue
        want = graphic[0][0] != '!'
        if rets: r.check(want and rets[0][2].endswith('::graphic_latitude'), 'physical value of the plane', f['q'], f['file'], f['line'], 'a plane of %s latitudes holds %s' % ('graphic' if want else 'centric', rets[0][2].split('::')[-1]))
        elif ps: r.check(not want, 'physical value of the plane', f['q'], f['file'], f['line'], 'a plane of graphic latitudes holds centric latitudes')
        base = [b for mono, c in (l[1] if l[0] == 'p' else (((((l, 1),), 1)),)) for b, e in mono if (rets or ps) and (rets or ps)[0] in atoms_all(b)]
        if base:
            k = linear(l, base[0])
            fv = fval(k)
            if fv is None: r.skip('physical value of the plane', f['q'], f['file'], f['line'], show(k)[:60])
            else: r.check(abs(fv - 57.29577951308232) < 1e-6, 'physical value of the plane', f['q'], f['file'], f['line'], 'an angle of one radian is stored as %s' % fv)
    longitude(r, p)

def linear(l, a):
    """coefficient of the atom a in l"""
    return sub(subst(l, {a: add(a, num(1))}), l)

def fval(t):
    """numeric value of a constant term"""
    if t[0] == 'n': return float(t[1])
    if t[0] == 'k' and t[1] == 'pi': return 3.141592653589793
    if t[0] == 'p':
        s = 0.0
        for mono, c in t[1]:
            x = float(c)
            for a, e in mono:
                v = fval(a)
                if v is None: return None
                x *= v ** e
            s += x
        return s
    try: return float(t[1]) if t[0] in ('f', 'num', 'q') else None
    except Exception: return None

def longitude(r, p):
    f = p.one('MaRC::LongitudeImage::read_data_i')
    E = analyse(f, opaque=NOISE)
    lon, dn = f['params'][1]['n'], f['params'][2]['n']
    v = [x for k, x in E.final.env.items() if k[0] == 'parm' and k[1] == dn]
    if not v: r.bad('physical value of the plane', f['q'], f['file'], f['line'], 'the datum is never set'); return
    leaves = [l for g, l in cases(v[0], minmax=False)]
    fm = {a for l in leaves for a in atoms_all(l) if a and a[0] == 'call' and a[1] == 'fmod'}
    for l in leaves:
        wrong = [a for a in atoms_all(l) if a and a[0] == 'parm' and a[1] == f['params'][0]['n']]
        r.check(not wrong, 'physical value of the plane', f['q'], f['file'], f['line'], 'a plane of longitudes holds latitudes')
        if len(fm) == 1:
            a = list(fm)[0]
            k = fval(subst(l, {a: num(0)})); k1 = fval(add(subst(l, {a: num(0)}), linear(l, a)))
            if k is None or k1 is None: r.skip('physical value of the plane', f['q'], f['file'], f['line'], show(l)[:60]); continue
            r.check(abs(k1 - k - 57.29577951308232) < 1e-6, 'physical value of the plane', f['q'], f['file'], f['line'], 'an angle of one radian is stored as %s' % (k1 - k))
            r.check(abs(k % 360) < 1e-9, 'physical value of the plane', f['q'], f['file'], f['line'], 'longitudes are shifted by %s degrees' % k)
