"""F04: provenance of header values.  Every CFITSIO call that writes or reads a
header card is reached through the FITS::image and FITS::file members; the
keyword literal it carries is compared with the one documented for the member,
the value with the member's argument or result, and the condition under which
it is written with the existence of the value.  Between them, the arguments
handed to the writers are traced back to the map parameter, plotting statistic
or source file entry they come from."""
from rulelib import *

MINIMUM = {'keyword of a written value': 12, 'keyword of a read value': 12, 'header value comes from its own setting': 20, 'existing value is written': 20, 'setting derived from its own keyword': 8, 'value written under its keyword': 12, 'value read is returned': 12, 'free text goes to its own image': 2}
WRITES = {'author': 'AUTHOR', 'bzero': 'BZERO', 'bscale': 'BSCALE', 'bunit': 'BUNIT', 'object': 'OBJECT', 'origin': 'ORIGIN', 'datamin': 'DATAMIN', 'datamax': 'DATAMAX', 'blank': 'BLANK'}
READS = {'author': 'AUTHOR', 'blank': 'BLANK', 'bscale': 'BSCALE', 'bunit': 'BUNIT', 'bzero': 'BZERO', 'datamax': 'DATAMAX', 'datamin': 'DATAMIN', 'date_obs': 'DATE-OBS', 'equinox': 'EQUINOX', 'instrument': 'INSTRUME', 'object': 'OBJECT', 'observer': 'OBSERVER', 'origin': 'ORIGIN', 'reference': 'REFERENC', 'telescope': 'TELESCOP'}
IMG, FIL, PAR = 'MaRC::FITS::image', 'MaRC::FITS::file', 'MaRC::map_parameters'
PUT = ('ffuky', 'ffpky', 'ffuky_safe')
STATED = ('author', 'origin', 'object', 'blank')

def text(t):
    if t[0] == 'str': return t[1]
    return t[1] if t[0] == 'lit' and isinstance(t[1], str) else None

def conj(g): return list(g)

def absent(f, v, g=TRUE):
    """the condition under which the argument v of the member holds no value"""
    for x in atoms_all(g):
        if x and x[0] in ('isnan', 'has', 'size') and len(x) > 1 and isinstance(x[1], tuple) and any(a[0] == 'parm' for a in atoms_all(x[1]) if a): v = x[1]; break
    t = base_type(f['params'][0]['t'])
    if 'basic_string' in t: return cmp('==', ('size', v), num(0), True)
    if 'optional' in t: return lnot(('has', v))
    if t in ('double', 'float'): return ('isnan', v)
    return FALSE

def check(r):
    p = program()
    r.part(writers, r, p)
    r.part(constructor, r, p)
    r.part(readers, r, p)
    r.part(planes, r, p)
    r.part(grid, r, p)
    r.part(derived, r, p)
    r.part(range_, r, p)

def keytext(t): return t[1] if t[0] in ('str', 'lit', 's') else None

def writers(r, p):
    for f in p.fns.values():
        if f.get('clsq') != IMG or 'body' not in f or f.get('ctor') or f['n'] not in WRITES: continue
        E = analyse(f, opaque=NOISE)
        ws = [e for e in E.events if e.kind == 'call' and e.fn in PUT]
        key, pa = WRITES[f['n']], ('parm', f['params'][0]['n'])
        pv = [a for e in ws for a in atoms(e.pre[3]) if a[0] == 'parm'] or [pa]
        v = pv[0]
        T = (f.get('ta') or [''])[0]
        where = f['q'] + ('<%s>' % T if T else '')
        if not ws:
            if f['n'] == 'blank' and T in ('float', 'double'): r.ok('keyword of a written value', where, f['file'], f['line']); continue
            if any(e.kind == 'call' and e.fn not in NOISE for e in E.events): r.skip('keyword of a written value', where, f['file'], f['line'], 'no header write found')
            else: r.bad('existing value is written', where, f['file'], f['line'], '%s is never written' % key)
            continue
        for e in ws:
            k = keytext(e.pre[2])
            if k is None: r.skip('keyword of a written value', where, e.file, e.line, show(e.pre[2])); continue
            r.check(k == key, 'keyword of a written value', where, f['file'], f['line'], 'the %s value is written under keyword %s' % (key, k))
            val = untrunc(e.pre[3])
            inner = val[1] if val[0] in ('optval', 'deref', 'init') and len(val) > 1 else val
            ats = {a for a in atoms(val) if a[0] == 'parm'}
            if ats and (val in ats or val[0] in ('optval', 'val', 'deref') or (val[0] == 'init')): r.ok('value written under its keyword', where, e.file, e.line)
            elif opaque_terms(val): r.skip('value written under its keyword', where, e.file, e.line, show(val))
            else: r.bad('value written under its keyword', where, e.file, e.line, '%s is given %s rather than the value handed in' % (key, show(val)[:80]))
        g = lor(*[land(*e.guard) for e in ws])
        ab = absent(f, v, g)
        for e in ws:
            if 'basic_string' in f['params'][0]['t'] or 'optional' in f['params'][0]['t']:
                r.check(not satisfiable(land(*(tuple(e.guard) + (ab,)))), 'existing value is written', where, e.file, e.line, '%s is written although there is no value' % key)
        if base_type(f['params'][0]['t']) in LIMITS: g = subst(g, {x: FALSE for x in atoms_all(g) if x and x[0] == 'isnan'})
        miss = land(lnot(g), lnot(ab))
        foreign = {a for a in atoms(g) if a[0] in ('ret', 'lout', 'out')}
        if foreign: r.skip('existing value is written', where, f['file'], f['line'], show(g)[:120])
        elif f['n'] == 'blank' and T in ('float', 'double'): r.bad('existing value is written', where, f['file'], f['line'], 'BLANK is written for a floating point image', where)
        else: r.check(not satisfiable(miss), 'existing value is written', where, f['file'], f['line'], '%s is left out although there is a value, when %s' % (key, show(miss)[:120]))
    for m, fn, ix in (('comment', 'ffpcom', 1), ('history', 'ffphis', 1)):
        for f in p.q(IMG + '::' + m):
            if 'body' not in f: continue
            E = analyse(f, opaque=NOISE)
            ws = [e for e in E.events if e.kind == 'call' and e.fn in ('ffpcom', 'ffphis') + PUT]
            if not ws: r.skip('keyword of a written value', f['q'], f['file'], f['line'], 'no header write found'); continue
            for e in ws:
                r.check(e.fn == fn, 'keyword of a written value', f['q'], e.file, e.line, '%s text is written with %s' % (m, e.fn))
                r.check(any(a[0] == 'parm' for a in atoms(e.pre[ix])), 'value written under its keyword', f['q'], e.file, e.line, 'the text written is %s' % show(e.pre[ix])[:80])

def constructor(r, p):
    for f in p.fns.values():
        if f.get('clsq') != IMG or not f.get('ctor') or 'body' not in f or len(f['params']) < 5: continue
        E = analyse(f, opaque=NOISE)
        ws = [e for e in E.events if e.kind == 'call' and e.fn in PUT]
        par = f['params'][-1]['n']
        for e in ws:
            k = keytext(e.pre[2])
            ps = {a for a in atoms(e.pre[3]) if a[0] == 'parm'}
            if k == 'EXTNAME': r.check(bool(ps), 'value written under its keyword', f['q'], e.file, e.line, 'EXTNAME is given %s' % show(e.pre[3])[:60])
            elif k == 'CREATOR': r.check(not ps and (keytext(e.pre[3]) or 'MaRC').startswith('MaRC'), 'value written under its keyword', f['q'], e.file, e.line, 'CREATOR is given %s' % show(e.pre[3])[:60])
            elif k in WRITES.values(): r.skip('value written under its keyword', f['q'], e.file, e.line, str(k))

def readers(r, p):
    for f in p.fns.values():
        if f.get('clsq') != FIL or 'body' not in f or f['n'] not in READS or f['params']: continue
        E = analyse(f, opaque=NOISE)
        rs = [e for e in E.events if e.kind == 'call' and e.fn in ('ffgky', 'ffgkyn', 'ffgkey', 'ffgkls')]
        key = READS[f['n']]
        if not rs: r.skip('keyword of a read value', f['q'], f['file'], f['line'], 'no header read found'); continue
        for e in rs:
            k = keytext(e.pre[2])
            if k is None: r.skip('keyword of a read value', f['q'], e.file, e.line, show(e.pre[2])); continue
            r.check(k == key, 'keyword of a read value', f['q'], f['file'], f['line'], 'the %s value is read from keyword %s' % (key, k))
        leaves = [v for g, v in cases(E.value)]
        for v in leaves:
            while v[0] == 'some': v = v[1]
            if v[0] == 'none' or keytext(v) == '': continue
            outs = {a for a in atoms(v) if a[0] == 'out'}
            if outs and all(any(a[1] == e.result and a[2] == 3 for e in rs) for a in outs) and v in outs: r.ok('value read is returned', f['q'], f['file'], f['line'])
            elif outs and v in outs: r.bad('value read is returned', f['q'], f['file'], f['line'], '%s returned instead of the value of %s' % (show(v)[:60], key))
            elif v[0] in ('num', 'f'): r.bad('value read is returned', f['q'], f['file'], f['line'], 'the constant %s is returned as the value of %s' % (show(v)[:60], key))
            else: r.skip('value read is returned', f['q'], f['file'], f['line'], show(v)[:80])

def members(p, *classes): return {f['q'] for f in p.fns.values() if f.get('clsq') in classes}

def opaque_set(p):
    return NOISE | members(p, IMG, FIL, PAR, 'MaRC::FITS::output_file', 'MaRC::MapFactory', 'MaRC::SourceImageFactory', 'MaRC::VirtualImage', 'MaRC::plot_info', 'MaRC::Progress::Notifier')

def origins(t, cls):
    """members of cls the value comes from"""
    return {a[2].split('::')[-1] for a in atoms(t) if a[0] == 'ret' and len(a) > 2 and isinstance(a[2], str) and a[2].startswith(cls + '::')}

def resolve(e, E, i=0):
    """value of an argument, looking through references to temporaries"""
    return e.pre[i]

def relevant(g):
    """the conditions of g that are not merely about a loop having ended"""
    return [c for c in conj(g) if not any(a and a[0] in ('lout', 'maythrow', 'trip', 'undef') for a in atoms_all(c))]

def planes(r, p):
    op = opaque_set(p)
    for f in p.q('MaRC::MapCommand::make_map_planes'):
        if 'body' not in f: continue
        E = Evaluator(opaque=op); E.run(f)
        where = f['q'] + '<%s>' % (f.get('ta') or [''])[0]
        calls = [e for e in E.events if e.kind == 'call' and e.fn.startswith(IMG + '::')]
        tmps = {}
        seen = {}
        for e in calls:
            m = e.fn.split('::')[-1]
            if m not in WRITES and m != 'comment': continue
            v = resolve(e, E)
            src, st, vi = origins(v, PAR), origins(v, 'MaRC::plot_info'), origins(v, 'MaRC::VirtualImage')
            if m == 'comment':
                loops = [E.loops[l] for l in e.loops if l in E.loops] if e.loops and not hasattr(e.loops[0], 'id') else list(e.loops)
                names = set()
                for q in E.events:
                    if q.kind == 'call' and q.fn.startswith(PAR + '::') and q.fn.endswith('comments') and q.seq < e.seq: names.add(q.fn.split('::')[-1])
                if names: r.check(names == {'comments'}, 'free text goes to its own image', where, e.file, e.line, 'map comments are taken from %s' % sorted(names)); seen.setdefault('comment', []).append(e)
                continue
            want = {'datamin': 'minimum', 'datamax': 'maximum'}.get(m)
            if want:
                if st: r.check(st == {want}, 'header value comes from its own setting', where, e.file, e.line, '%s is given the %s of the mapped data' % (WRITES[m], '/'.join(sorted(st)))); seen.setdefault(m, []).append(e)
                elif src: r.bad('header value comes from its own setting', where, e.file, e.line, '%s is given the %s setting' % (WRITES[m], '/'.join(sorted(src))))
                else: r.skip('header value comes from its own setting', where, e.file, e.line, show(v)[:60]); seen.setdefault(m, []).append(e)
            elif src or st: r.check(src == {m} and not st, 'header value comes from its own setting', where, e.file, e.line, '%s is given the %s value' % (WRITES[m], '/'.join(sorted(src | st)))); seen.setdefault(m, []).append(e)
            elif vi: r.check(vi == {{'bscale': 'scale', 'bzero': 'offset'}.get(m)}, 'header value comes from its own setting', where, e.file, e.line, '%s is given the %s of the plane' % (WRITES[m], '/'.join(sorted(vi))))
            else: r.skip('header value comes from its own setting', where, e.file, e.line, show(v)[:60]); seen.setdefault(m, []).append(e)
        for m in STATED + ('datamin', 'datamax'):
            es = seen.get(m, [])
            if not es:
                if m == 'blank' and (f.get('ta') or [''])[0] in ('float', 'double'): continue
                r.bad('existing value is written', where, f['file'], f['line'], '%s is never written to the map header' % WRITES[m]); continue
            alts = []
            for e in es:
                a, v = e.args[0], e.pre[0]
                gs = relevant(e.guard)
                there = {('size', v), ('size', a)} | ({('size', a[1])} if a[0] == 'ref' else set())
                keep = []
                for c in gs:
                    lit = c[1] if c[0] == '!' else c
                    if lit[0] == 'cmp' and any(s in atoms_all(lit) for s in there): continue
                    if lit[0] == 'has' or lit[0] == 'isnan': continue
                    if any(x[0] == 'ret' and 'data_mapped' in str(x) for x in atoms(lit)) and m in ('datamin', 'datamax') and c[0] != '!': continue
                    keep.append(c)
                alts.append(land(*keep))
            g = lor(*alts)
            if g == TRUE or not satisfiable(lnot(g)): r.ok('existing value is written', where, es[0].file, es[0].line)
            elif any(x[0] in ('ret', 'lout', 'out', 'iter', 'lsym') for x in atoms(g)): r.skip('existing value is written', where, es[0].file, es[0].line, show(g)[:100])
            else: r.bad('existing value is written', where, es[0].file, es[0].line, '%s is only written if %s' % (WRITES[m], show(g)[:100]))
        for e in seen.get('comment', []):
            a = e.args[0]
            own = ('size', root(a[1])) if a[0] == 'ref' else None
            gs = [c for c in relevant(e.guard) if not any(x and x[0] in ('iter', 'lsym') for x in atoms_all(c)) and own not in atoms_all(c)]
            if any(x[0] in ('ret', 'lout', 'out') for c in gs for x in atoms(c)): r.skip('existing value is written', where, e.file, e.line, show(land(*gs))[:80])
            else: r.check(not satisfiable(lnot(land(*gs))), 'existing value is written', where, e.file, e.line, 'map comments are only written if %s' % show(land(*gs))[:80])
        if 'comment' not in seen: r.bad('existing value is written', where, f['file'], f['line'], 'map comments are never written to the map header')

def grid(r, p):
    op = opaque_set(p)
    f = p.one('MaRC::MapCommand::write_grid')
    E = Evaluator(opaque=op); E.run(f)
    cs = [e for e in E.events if e.kind == 'call' and e.fn == IMG + '::comment']
    names = {q.fn.split('::')[-1] for q in E.events if q.kind == 'call' and q.fn.startswith(PAR + '::') and q.fn.endswith('comments')}
    if not cs: r.bad('existing value is written', f['q'], f['file'], f['line'], 'grid comments are never written to the grid header')
    elif names: r.check(names == {'xcomments'}, 'free text goes to its own image', f['q'], f['file'], f['line'], 'grid comments are taken from %s' % sorted(names))
    for e in E.events:
        if e.kind == 'call' and e.fn.startswith(IMG + '::') and e.fn.split('::')[-1] in WRITES:
            src = origins(e.pre[0], PAR)
            m = e.fn.split('::')[-1]
            if src: r.check(src == {m}, 'header value comes from its own setting', f['q'], e.file, e.line, '%s of the grid is given the %s value' % (WRITES[m], '/'.join(sorted(src))))

def derived(r, p):
    op = opaque_set(p)
    for f in p.fns.values():
        if f['n'] != 'populate_parameters' or 'body' not in f or not f.get('clsq', '').endswith('PhotoImageFactory'): continue
        E = Evaluator(opaque=op); E.run(f)
        got = {}
        for e in E.events:
            if e.kind != 'call' or not e.fn.startswith(PAR + '::') or not e.args: continue
            m = e.fn.split('::')[-1]
            src = origins(e.pre[0], FIL) | origins(e.pre[0], 'MaRC::FITS::input_file')
            if not src: r.skip('setting derived from its own keyword', f['q'], e.file, e.line, show(e.pre[0])[:80]); got.setdefault(m, e); continue
            r.check(src == {m}, 'setting derived from its own keyword', f['q'], e.file, e.line, 'the %s setting is derived from the %s entry of the image file' % (m, '/'.join(sorted(src))), f['q'] + ':' + m)
            gs = [c for c in relevant(e.guard) if not any(x[0] == 'ret' for x in atoms(c))]
            if gs and satisfiable(lnot(land(*gs))): r.bad('setting derived from its own keyword', f['q'], e.file, e.line, 'the %s setting is only derived if %s' % (m, show(land(*gs))[:80]), f['q'] + ':' + m)
            got[m] = e
        for m in ('author', 'bitpix', 'blank', 'object', 'origin'):
            if m not in got: r.bad('setting derived from its own keyword', f['q'], f['file'], f['line'], 'the %s entry of the image file is not taken over' % m, f['q'] + ':' + m)

def range_(r, p):
    f = p.one('MaRC::PhotoImageFactory::make')
    E = Evaluator(opaque=opaque_set(p) | {'MaRC::FITS::input_file::read', 'MaRC::ViewingGeometry::finalize_setup', 'MaRC::PhotoImageFactory::flat_field_correct', 'MaRC::invert_samples', 'MaRC::invert_lines'})
    E.run(f)
    for e in E.events:
        if e.kind == 'call' and e.fn in ('MaRC::SourceImageFactory::minimum', 'MaRC::SourceImageFactory::maximum') and e.args:
            src = origins(e.pre[0], FIL)
            want = {'minimum': 'datamin', 'maximum': 'datamax'}[e.fn.split('::')[-1]]
            if src: r.check(src == {want}, 'setting derived from its own keyword', f['q'], e.file, e.line, 'the %s of the accepted data is taken from the %s entry of the image file' % (e.fn.split('::')[-1], '/'.join(sorted(src))))
            else: r.skip('setting derived from its own keyword', f['q'], e.file, e.line, show(e.pre[0])[:80])
