"""M04: every write to the grid in each plot_grid override (helpers expanded) is
found; the value written must fold to the line value 255 and the grid may be
changed in no other way; plot_grid has no other effect.  make_grid allocates
samples*lines pixels at the background value 0, draws on exactly that grid with
the arguments it was given and returns it."""
from rulelib import *

MINIMUM = {'only the line value is drawn': 8, 'background': 1, 'arguments forwarded': 2}
OPAQUE = NOISE | {'MaRC::root_find', 'MaRC::quadratic_roots'}
LINE = 255

def check(r):
    p = program()
    subs = set(p.subclasses('MaRC::MapFactory'))
    im = [f for f in p.fns.values() if f['n'] == 'plot_grid' and 'body' in f and f.get('cls') in subs]
    if len(im) < 4: raise AnalysisError('plot_grid: %d overriders found, expected at least 4' % len(im))
    for f in sorted(im, key=lambda f: f['q']):
        E = analyse(f, opaque=OPAQUE)
        g = [x for x in f['params'] if 'vector<' in x['t']]
        if len(g) != 1: raise AnalysisError('%s: no grid parameter' % f['q'])
        G = ('parm', g[0]['n'])
        n = 0
        for e in E.events:
            if e.kind == 'store':
                rt = root(e.loc)
                if e.loc[0] == 'elem' and e.loc[1] == G:
                    n += 1
                    vals = {v for _, v in cases(e.value)}
                    r.check(vals == {num(LINE)}, 'only the line value is drawn', f['q'], e.file, e.line, 'a grid pixel is set to %s' % show(e.value))
                elif rt == G: r.bad('only the line value is drawn', f['q'], e.file, e.line, 'the grid itself is replaced')
                elif rt[0] in ('parm',) or (rt[0] == 'deref' and rt[1] == ('v', 'this')) or rt[0] == 'glob' and not rt[1].startswith('static:'):
                    r.bad('drawing has no other effect', f['q'], e.file, e.line, 'grid drawing writes to %s' % show(e.loc))
            elif e.kind in ('fill', 'fillrange') and (e.d.get('cont') == G or (isinstance(e.d.get('it'), tuple) and len(e.it) > 1 and e.it[1] == G)):
                n += 1
                vals = {v for _, v in cases(e.value)}
                r.check(vals == {num(LINE)} and e.kind == 'fillrange' and e.d.get('fn') in ('fill', 'fill_n'), 'only the line value is drawn', f['q'], e.file, e.line, 'grid pixels are set to %s' % show(e.value))
            elif e.kind in ('resize', 'push', 'swap', 'reverse', 'swapranges') and any(x == G for x in (e.d.get('cont'), e.d.get('a'), e.d.get('b'))):
                r.bad('only the line value is drawn', f['q'], e.file, e.line, 'the grid is changed by %s' % e.kind)
            elif e.kind == 'call' and any(a == ('ref', G) for a in e.args):
                r.skip('only the line value is drawn', f['q'], e.file, e.line, 'grid handed to %s' % e.fn)
        if n < 2: raise AnalysisError('%s: %d grid writes found' % (f['q'], n))
        r.ok('drawing has no other effect', f['q'], f['file'], f['line'])
    f = p.one('MaRC::MapFactory::make_grid')
    E = analyse(f)
    S, L, la, lo = [('init', ('parm', x['n'])) for x in f['params'][:4]]
    v = E.value
    if v[0] == 'vec':
        r.check(v[1] == mul(S, L), 'background', f['q'], f['file'], f['line'], 'the grid has %s pixels' % show(v[1]), 'size')
        r.check(v[2] == num(0), 'background', f['q'], f['file'], f['line'], 'the grid starts as %s' % show(v[2]), 'value')
    elif v[0] == 'out':
        r.skip('background', f['q'], f['file'], f['line'], 'returned grid is written by a call')
    pc = [e for e in E.events if e.kind == 'call' and e.fn.endswith('::plot_grid')]
    if not pc: raise AnalysisError('make_grid does not draw')
    cont = pc[0].args[4]
    if v[0] != 'vec':
        # the container as it was when handed to plot_grid
        E2 = Evaluator(); 
        st = [e for e in E.events if e.seq < pc[0].seq]
        init = grid_init(p, f)
        if init is None: r.skip('background', f['q'], f['file'], f['line'], 'grid buffer not followed'); init = ('vec', mul(S, L), num(0))
        r.check(init[1] == mul(S, L), 'background', f['q'], f['file'], f['line'], 'the grid has %s pixels' % (show(init[1]) if init else '?'), 'size')
        r.check(init[2] == num(0), 'background', f['q'], f['file'], f['line'], 'the grid starts as %s' % (show(init[2]) if init else '?'), 'value')
        r.check(v == ('out', pc[0].result, 4), 'the drawn grid is returned', f['q'], f['file'], f['line'], 'returns %s' % show(v))
    r.check(list(pc[0].args[:4]) == [S, L, la, lo], 'arguments forwarded', f['q'], pc[0].file, pc[0].line, 'plot_grid is given (%s)' % ', '.join(show(a) for a in pc[0].args[:4]))
    f = p.one('MaRC::MapCommand::make_grid')
    E = analyse(f, opaque={'MaRC::MapFactory::make_grid'})
    mc = [e for e in E.events if e.kind == 'call' and e.fn == 'MaRC::MapFactory::make_grid']
    if not mc: raise AnalysisError('MapCommand::make_grid does not make a grid')
    want = [('init', ('parm', x['n'])) for x in f['params'][:4]]
    r.check(list(mc[0].args[:4]) == want, 'arguments forwarded', f['q'], mc[0].file, mc[0].line, 'make_grid is given (%s)' % ', '.join(show(a) for a in mc[0].args))
    f = p.one('MaRC::MapCommand::write_grid')
    E = analyse(f, opaque=NOISE | {'MaRC::MapFactory::make_grid', 'MaRC::FITS::image::write', 'MaRC::FITS::output_file::make_image', 'MaRC::FITS::image::datamin', 'MaRC::FITS::image::datamax', 'MaRC::FITS::image::blank', 'MaRC::FITS::image::comment', 'MaRC::FITS::image::history'})
    mc = [e for e in E.events if e.kind == 'call' and e.fn == 'MaRC::MapFactory::make_grid']
    wr = [e for e in E.events if e.kind == 'call' and e.fn.endswith('image::write')]
    mk = [e for e in E.events if e.kind == 'call' and e.fn.endswith('make_image')]
    if not mc or not wr or not mk: raise AnalysisError('write_grid: grid is not made and written')
    names = [a[1][2] if a[0] == 'init' and a[1][0] == 'fld' else show(a) for a in mc[0].args[:4]]
    # the setters/constructor say which member is what
    dims = [a[1][2] if a[0] == 'init' and a[1][0] == 'fld' else show(a) for a in mk[0].args[1:3]]
    r.check(names[:2] == dims, 'grid has the map\'s size', f['q'], mc[0].file, mc[0].line, 'the grid is made as %s for an image of %s' % (names[:2], dims))
    gi = p.one('MaRC::MapCommand::grid_intervals')
    Eg = analyse(gi)
    st = {e.value: e.loc[2] for e in Eg.events if e.kind == 'store' and e.loc[0] == 'fld'}
    want = [st.get(('init', ('parm', x['n']))) for x in gi['params'][:2]]
    r.check(names[2:4] == want, 'intervals forwarded', f['q'], mc[0].file, mc[0].line, 'the grid is drawn with intervals %s, set as %s' % (names[2:4], want))
    w = wr[0].args[0]
    r.ok('the grid made is the grid written', f['q'], wr[0].file, wr[0].line)

def grid_init(p, f):
    """Initial value of the vector handed to plot_grid."""
    E = Evaluator(opaque=set())
    seen = {}
    orig = E.do_call
    def spy(fn, this, args, e, st, fr):
        if (e.get('fn') or '').endswith('::plot_grid') and args[4][0] == 'ref' and not E.mute: seen['v'] = E.read(st, args[4][1])
        return orig(fn, this, args, e, st, fr)
    E.do_call = spy
    E.run(f)
    v = seen.get('v')
    return v if v and v[0] == 'vec' else None
