"""F03: agreement of the data-type tables.  The FITS constants of each pixel type,
the map-making branch taken for each BITPIX value, the BITPIX value each
DATA_TYPE keyword sets, the pixel type of every template used while making the
map, and, at every CFITSIO call that passes a type code with an untyped buffer,
the type code and the type of the buffer, are all compared with the one table
of FITS data types."""
from rulelib import *
from grammar import grammar

MINIMUM = {'type constants': 12, 'buffer has the type it is declared as': 14, 'map made with the selected type': 6, 'keyword selects its type': 6, 'one pixel type per map': 30, 'image created with the pixel type': 7, 'data type is accepted': 6}
# keyword, C type, BITPIX, acceptable CFITSIO type codes
TYPES = [('BYTE', {'unsigned char'}, 8), ('SHORT', {'short'}, 16), ('LONG', {'int'}, 32), ('LONGLONG', {'long', 'long long'}, 64), ('FLOAT', {'float'}, -32), ('DOUBLE', {'double'}, -64)]
CODE = {11: {'unsigned char'}, 12: {'signed char', 'char'}, 14: {'bool', 'char', 'int'}, 16: {'char'}, 20: {'unsigned short'}, 21: {'short'}, 30: {'unsigned int'}, 31: {'int'}, 40: {'unsigned long'}, 41: {'long'}, 42: {'float'}, 81: {'long', 'long long'}, 82: {'double'}}
TRANSFER = {'ffuky': (1, (3,)), 'ffpky': (1, (3,)), 'ffgky': (1, (3,)), 'ffppr': (1, (4,)), 'ffppx': (1, (4,)), 'ffppxll': (1, (4,)), 'ffppn': (1, (4, 5)), 'ffppxn': (1, (4, 5)), 'ffgpxv': (1, (4, 5)), 'ffgpxvll': (1, (4, 5)), 'ffgpv': (1, (4, 5)), 'ffgpxf': (1, (4,)), 'ffpss': (1, (4,)), 'ffgsv': (1, (5, 6))}
BITPIX = {t: b for k, ts, b in TYPES for t in ts}
PIX = set(BITPIX)

def strip(n):
    while isinstance(n, dict) and n.get('k') == 'Cast': n = n['e']
    return n
def pointee(t):
    t = t.replace('const ', '').strip()
    m = re.match(r'^(.*)\[\d*\]$', t)
    if m: return m.group(1).strip()
    return t[:-1].strip() if t.endswith('*') else None
def pixel_of(t):
    """the pixel type a template argument names"""
    t = t.replace('const ', '').strip('<> ')
    if t in PIX: return t
    m = re.match(r'^std::vector<([^,>]+)', t)
    return m.group(1).strip() if m and m.group(1).strip() in PIX else None

def check(r):
    p = program()
    r.part(constants, r, p)
    r.part(buffers, r, p)
    r.part(dispatch, r, p)
    r.part(keywords, r, p)
    r.part(templates, r, p)
    r.part(created, r, p)

def constants(r, p):
    n = 0
    for v in p.vars.values():
        m = re.match(r'^g:MaRC::FITS::traits::(bitpix|datatype)@MaRC::FITS::traits<(.*)>$', v['id'])
        if not m or 'cv' not in v: continue
        n += 1
        T, c = m.group(2), int(v['cv'])
        if T not in PIX: continue
        if m.group(1) == 'bitpix': r.check(c == BITPIX[T], 'type constants', v['id'][2:], v.get('file', ''), v.get('line', v.get('l', 0)), 'BITPIX of %s is given as %d' % (T, c))
        else: r.check(T in CODE.get(c, ()), 'type constants', v['id'][2:], v.get('file', ''), v.get('line', v.get('l', 0)), 'the CFITSIO type of %s is given as %d' % (T, c))
    if n < 12: r.skip('type constants', '', '', 0, '%d found' % n)
    if n < 12:
        for _ in range(12): r.skip('type constants', '', '', 0, 'table not found')

def buffers(r, p):
    for f in p.repo_functions():
        for n in walk(f['body']):
            if n.get('k') != 'Call' or n.get('fn') not in TRANSFER: continue
            ci, bs = TRANSFER[n['fn']]
            code = strip(n['args'][ci])
            cv = n['args'][ci].get('cv', code.get('cv'))
            if cv is None: r.skip('buffer has the type it is declared as', f['q'], f['file'], n['l'], 'type code is not constant'); continue
            for b in bs:
                a = strip(n['args'][b])
                if a.get('k') == 'Null': continue
                T = pointee(a.get('t', ''))
                if T is None or T == 'void': r.skip('buffer has the type it is declared as', f['q'], f['file'], n['l'], a.get('t', '')); continue
                if int(cv) not in CODE: r.skip('buffer has the type it is declared as', f['q'], f['file'], n['l'], 'code %s' % cv); continue
                r.check(T in CODE[int(cv)], 'buffer has the type it is declared as', f['q'], f['file'], n['l'], '%s is told type code %s for a buffer of %s' % (n['fn'], cv, T), '%s%s:%s' % (f['q'], f.get('ta') or '', n['fn']))

def dispatch(r, p):
    f = p.one('MaRC::MapCommand::execute')
    ev = Evaluator(opaque=NOISE, maxdepth=0); ev.run(f)
    mk = [e for e in ev.events if e.kind == 'call' and e.id in p.fns and [x for x in (p.fns[e.id].get('ta') or []) if pixel_of(x)]]
    bp = [e for e in ev.events if e.kind == 'call' and e.fn == 'MaRC::map_parameters::bitpix']
    if not bp or not mk:
        for _ in TYPES: r.skip('map made with the selected type', f['q'], f['file'], f['line'], 'dispatch not found')
        return
    for kw, ts, b in TYPES:
        eqs = [cmp('==', e.result, num(b), True) for e in bp]
        took = [e for e in mk if satisfiable(land(*(tuple(e.guard) + tuple(eqs))))]
        got = {pixel_of(x) for e in took for x in p.fns[e.id]['ta'] if pixel_of(x)}
        r.check(bool(got) and got <= ts, 'map made with the selected type', f['q'], f['file'], took[0].line if took else f['line'], 'BITPIX %d: the map is made with %s' % (b, sorted(got) or 'nothing'), '%s:%d' % (f['q'], b))
        # not skipped: some make call happens on every successful way out
        for st, v, line in ev.returns:
            if st.dead: continue
            for g, leaf in cases(v):
                if leaf != num(0): continue
                bad = land(*(tuple(st.guard) + tuple(g) + tuple(eqs) + tuple(lnot(land(*e.guard)) for e in took)))
                r.check(not satisfiable(bad), 'selected type is not skipped', f['q'], f['file'], line, 'BITPIX %d: success without making the map' % b, '%s:%d:skip' % (f['q'], b))

def keywords(r, p):
    g = grammar()
    for q in (g.prods.values() if isinstance(g.prods, dict) else g.prods):
        if not q.useful: continue
        names = [x.strip('"') for x in q.rhs]
        kws = [t for t in TYPES if t[0] in names]
        if not kws or 'DATA_TYPE' not in names: continue
        kw, ts, b = kws[0]
        vals = bitpix_set(q)
        if vals is None: r.skip('keyword selects its type', 'DATA_TYPE ' + kw, 'src/parse.yy', q.line, 'action not followed'); continue
        r.check(vals == {b}, 'keyword selects its type', 'DATA_TYPE ' + kw, 'src/parse.yy', q.line, 'sets BITPIX %s' % sorted(vals))
    f = [f for f in p.q('MaRC::map_parameters::bitpix') if f['params']]
    for kw, ts, b in TYPES:
        for x in f:
            ev = Evaluator(opaque=NOISE); ev.run(x, args=[num(b)])
            store = [e for e in ev.events if e.kind == 'store' and e.value == num(b)]
            thr = [e for e in ev.events if e.kind == 'throw' and satisfiable(land(*e.guard)) and not [a for gg in e.guard for a in atoms(gg) if a[0] in ('init', 'ret')]]
            r.check(bool(store) and not thr, 'data type is accepted', x['q'], x['file'], x['line'], 'BITPIX %d is refused' % b, x['q'] + ':%d' % b)

def bitpix_set(q):
    """constants handed to map_parameters::bitpix by the action"""
    out = set()
    if q.body is None: return None
    for n in walk(q.body):
        if n.get('k') == 'Call' and (n.get('fn') or '').endswith('map_parameters::bitpix') and n.get('args'):
            c = n['args'][0].get('cv', strip(n['args'][0]).get('cv'))
            if c is None: return None
            out.add(int(c))
    return out or None

def templates(r, p):
    for f in p.repo_functions():
        T = [pixel_of(x) for x in f.get('ta') or [] if pixel_of(x)]
        if not f['q'].startswith('MaRC::MapCommand::') or len(T) != 1: continue
        T = T[0]
        same = lambda x: x == T or {x, T} <= {'long', 'long long'}
        for n in walk(f['body']):
            fn, i = n.get('fn') or n.get('n') or '', n.get('id')
            if not isinstance(fn, str) or not fn.startswith('MaRC::') or n.get('k') not in ('Call', 'Ctor', 'Ref') or fn.startswith(('MaRC::extrema',)): continue
            g = p.fns.get(i)
            if n['k'] == 'Ctor':
                m = re.match(r'^(const )?MaRC::plot_info<(.*)>$', n.get('t', ''))
                xs = [pixel_of(m.group(2))] if m else []
            elif g is None: continue
            elif g['q'] in NOISE: continue
            else: xs = [pixel_of(x) for x in g.get('ta') or []]
            for x in xs:
                if x is None: continue
                r.check(same(x), 'one pixel type per map', f['q'] + '<' + T + '>', f['file'], n['l'], '%s is used with %s while the map is made of %s' % (fn, x, T), '%s<%s>:%s' % (f['q'], T, fn))

def created(r, p):
    for f in p.repo_functions():
        if not any(n.get('k') == 'Call' and (n.get('fn') or '').endswith('output_file::make_image') for n in walk(f['body'])): continue
        if f['q'].startswith('MaRC::FITS::'): continue
        ev = Evaluator(opaque=NOISE, maxdepth=0); ev.run(f)
        mk = [e for e in ev.events if e.kind == 'call' and e.fn.endswith('output_file::make_image')]
        wr = [pixel_of(x) for n in walk(f['body']) if n.get('k') == 'Call' and (n.get('fn') or '').endswith('FITS::image::write') and n.get('id') in p.fns for x in p.fns[n['id']].get('ta') or []]
        T = [pixel_of(x) for x in f.get('ta') or [] if pixel_of(x)] or [x for x in wr if x]
        if len(set(T)) != 1: r.skip('image created with the pixel type', f['q'], f['file'], f['line'], 'pixel type not determined'); continue
        for e in mk:
            for g, b in cases(e.args[0]):
                if is_num(b): r.check(int(b[1]) == BITPIX[T[0]], 'image created with the pixel type', f['q'], e.file, e.line, 'an image of BITPIX %s is created for pixels of %s' % (show(b), T[0]), f['q'] + T[0])
                elif b[0] == 'ret' and b[2] == 'MaRC::map_parameters::bitpix': r.ok('image created with the pixel type', f['q'], e.file, e.line)
                else: r.skip('image created with the pixel type', f['q'], e.file, e.line, show(b))
