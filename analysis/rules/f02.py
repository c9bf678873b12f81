"""F02: who-may-call and ownership of FITS file handles.  CFITSIO is called only
by the FITS classes and by file-local helpers of the files that implement them;
a handle obtained by opening or creating a file is put, on every path on which
opening succeeded, into a smart pointer whose deleter closes the handle it is
given exactly once; nothing else closes a handle, no raw handle is kept in an
object or a global, and none is put into a second owner.  Opening an input file
can only reach a read-only open, creating an output file only a create, and no
CFITSIO function that changes a file is reachable from the input classes.
Files are removed only by the map command, and only the map file itself."""
from rulelib import *
from rules.f01 import is_fits, direct

MINIMUM = {'only the FITS layer calls CFITSIO': 15, 'opened handle is owned': 2, 'owner closes the handle': 1, 'no raw handle is kept': 2, 'input opened read-only': 1, 'input never changed': 5, 'only the map file is removed': 1}
OPEN = {'ffopen', 'ffiopn', 'ffdopn', 'fftopn', 'ffdkopn', 'ffeopn', 'ffomem', 'ffreopen', 'ffopentest'}
CREATE = {'ffinit', 'ffdkinit', 'fftplt', 'ffimem'}
CLOSE = {'ffclos', 'ffdelt', 'ffiurl'}
WRITE = re.compile(r'^ff(p(?!hbn|trp)|u(?!rlsplit|pt)|d(?!opn|dtdm|kopn)|m(?!ahd|rhd|nhd|gcw)|cr|i(?!nit|urltyp|opn|urlsplit|ffile|fname)|cpimg|cp|rsim|rhdu|flus|flsh|xtend)')
READERS = {'ffpmsg', 'ffpmrk'}

def check(r):
    p = program()
    d = direct(p)
    if len(d) < 10: raise AnalysisError('only %d functions call CFITSIO' % len(d))
    fitsdirs = {f['file'] for f in p.repo_functions() if f['q'].startswith('MaRC::FITS::')}
    for i in sorted(d):
        f = p.fns[i]
        ok = f['q'].startswith('MaRC::FITS::') or ((f.get('static') or '(anon)' in f['q'] or f.get('lambda')) and f['file'] in fitsdirs)
        if f['q'].startswith('MaRC::FITS::') is False and not ok and f['file'] in fitsdirs: ok = True
        for c in sorted(d[i]): r.check(ok, 'only the FITS layer calls CFITSIO', f['q'], f['file'], f['line'], '%s is called outside the FITS layer' % c, f['q'] + ':' + c)
    r.part(owned, r, p, d)
    r.part(deleter, r, p, d)
    r.part(kept, r, p)
    r.part(modes, r, p, d)
    r.part(removal, r, p)

def smart(t): return bool(re.match(r'^(const )?std::(shared_ptr|unique_ptr)<(const )?fitsfile', t or ''))
def strip(n):
    while isinstance(n, dict) and n.get('k') == 'Cast': n = n['e']
    return n

def closes(p, q):
    """does calling function object type / function q close its argument?"""
    return [f for f in p.fns.values() if 'body' in f and f['q'] in (q + '::operator()', q)]

def owned(r, p, d):
    for i in sorted(d):
        f = p.fns[i]
        if not d[i] & (OPEN | CREATE): continue
        ev = Evaluator(opaque=NOISE); ev.run(f)
        ops = [e for e in ev.events if e.kind == 'call' and e.fn in OPEN | CREATE]
        for e in ops:
            h, R = ('out', e.result, 0), e.result
            st_i = len(e.args) - 1
            for st, v, line in ev.returns:
                if st.dead: continue
                g = land(*(tuple(e.guard) + tuple(st.guard)), cmp('==', R, num(0), True), cmp('==', ('out', R, st_i), num(0), True))
                if not satisfiable(g): continue
                leaves = [l for cg, l in cases(v) if satisfiable(land(g, *cg))]
                stored = any(x == h for x in st.env.values())
                if smart(f.get('ret')):
                    r.check(all(l == h for l in leaves), 'opened handle is owned', f['q'], e.file, e.line, 'the handle opened by %s is lost (returns %s)' % (e.fn, [show(l) for l in leaves][:2]), f['q'] + ':' + e.fn)
                elif '*' in (f.get('ret') or '') and any(l == h for l in leaves): r.skip('opened handle is owned', f['q'], e.file, e.line, 'raw handle returned')
                elif any(x['k'] == 'store' and x.value == h for x in []) or any(q.kind == 'store' and q.value == h for q in ev.events): r.ok('opened handle is owned', f['q'], e.file, e.line)
                elif any(q.kind == 'call' and q.fn in CLOSE and q.args and q.args[0] == h for q in ev.events): r.ok('opened handle is owned', f['q'], e.file, e.line)
                else: r.bad('opened handle is owned', f['q'], e.file, e.line, 'the handle opened by %s is neither kept nor closed' % e.fn, f['q'] + ':' + e.fn)

def deleter(r, p, d):
    n = 0
    for f in p.repo_functions():
        for x in walk(f['body']):
            if x.get('k') == 'Ctor' and smart(x.get('t')) and x['args']:
                a0 = strip(x['args'][0])
                t0 = a0.get('t', '')
                if smart(t0) or a0.get('k') == 'Null' or 'nullptr' in t0: continue       # copy, move, empty
                if '*' not in t0: continue
                n += 1
                if x['t'].startswith('std::unique_ptr<') and ',' in x['t'] and len(x['args']) == 1: dt = x['t'].split(',', 1)[1].rstrip('> ').strip()
                elif len(x['args']) > 1: dt = strip(x['args'][1]).get('t', '')
                else: dt = None
                if dt is None or 'default_delete' in dt:
                    r.bad('owner closes the handle', f['q'], f['file'], x['l'], 'the handle is owned by a pointer that does not close it', f['q']); continue
                if a0.get('k') == 'Call' and (a0.get('fn') or '').endswith('::get'):
                    r.bad('one owner only', f['q'], f['file'], x['l'], 'the handle of an existing owner is given to a second one', f['q']); continue
                c = closes(p, dt.replace('const ', ''))
                c = [y for y in c if len(y['params']) == 1]
                if not c and strip(x['args'][1]).get('k') == 'Lambda': c = [y for y in p.fns.values() if y.get('lambda') and y['file'] == f['file'] and 'body' in y and any(z.get('fn') in CLOSE for z in walk(y['body']))]
                if not c: r.skip('owner closes the handle', f['q'], f['file'], x['l'], 'deleter %s' % dt); continue
                for y in c: closer(r, p, y)
    for i in sorted(d):
        f = p.fns[i]
        if not d[i] & CLOSE: continue
        if f['n'] == 'operator()' or f.get('lambda'): continue
        for x in walk(f['body']):
            if x.get('k') == 'Call' and x.get('fn') in CLOSE:
                a0 = strip(x['args'][0])
                if a0.get('k') == 'Call' and (a0.get('fn') or '').endswith('::get'):
                    r.bad('only the owner closes', f['q'], f['file'], x['l'], 'a handle that its owner will close is closed here as well', f['q'])
                else: r.skip('only the owner closes', f['q'], f['file'], x['l'], 'explicit close')
    if n == 0: raise AnalysisError('no owner of a FITS handle found')

def closer(r, p, f):
    ev = Evaluator(opaque=NOISE); ev.run(f)
    h = ('init', ('parm', f['params'][0]['n']))
    cl = [e for e in ev.events if e.kind == 'call' and e.fn in CLOSE]
    use = [e for e in cl if e.args and e.args[0] == h]
    r.check(len(use) == len(cl), 'owner closes the handle', f['q'], f['file'], f['line'], 'something else than the handle is closed')
    nz = has(h)
    r.check(not satisfiable(land(nz, *[lnot(land(*e.guard)) for e in use])) if use else False, 'owner closes the handle', f['q'], f['file'], f['line'], 'the handle may stay open when its owner goes away', f['q'] + ':always')
    twice = any(a.seq < b.seq and satisfiable(land(*(tuple(a.guard) + tuple(b.guard)))) for a in use for b in use)
    r.check(not twice and not any(e.loops for e in use), 'owner closes the handle', f['q'], f['file'], f['line'], 'the handle may be closed twice', f['q'] + ':once')

def kept(r, p):
    for x in p.records.values():
        if not x['q'].startswith('MaRC::'): continue
        for fl in x['fields']:
            if 'fitsfile' not in fl['t']: continue
            r.check(smart(fl['t']), 'no raw handle is kept', x['q'] + '::' + fl['n'], x.get('file', ''), fl['l'], 'field of type %s keeps a handle without owning it' % fl['t'])
    for v in p.vars.values():
        if 'fitsfile' in v.get('t', '') and not smart(v['t']): r.bad('no raw handle is kept', v.get('q', v['id']), v.get('file', ''), v.get('l', 0), 'a global keeps a handle')

def modes(r, p, d):
    cg = {}
    for f in p.repo_functions():
        cg[f['id']] = {n['id'] for n in walk(f) if n.get('k') in ('Call', 'Ctor') and n.get('id')}
    seen = set()
    for cls, allowed, other in (('MaRC::FITS::input_file', OPEN, CREATE), ('MaRC::FITS::output_file', CREATE, OPEN)):
        ctors = [f for f in p.fns.values() if f.get('ctor') and f.get('clsq', f.get('cls')) == cls and 'body' in f and not f['impl'] and f['params']]
        if not ctors: raise AnalysisError('%s: no constructor' % cls)
        for f in ctors:
            ev = Evaluator(opaque=NOISE); ev.run(f)
            ops = [e for e in ev.events if e.kind == 'call' and e.fn in OPEN | CREATE and satisfiable(land(*e.guard))]
            if cls.endswith('input_file'):
                w = [e for e in ev.events if e.kind == 'call' and is_fits(e.fn) and WRITE.match(e.fn) and e.fn not in READERS | OPEN | CREATE and satisfiable(land(*e.guard))]
                r.check(not w, 'input never changed', f['q'], f['file'], f['line'], '%s changes the file it reads' % ', '.join(e.fn for e in w), f['q'])
            if not ops: r.skip('input opened read-only', f['q'], f['file'], f['line'], 'no open found'); continue
            for e in ops:
                if cls.endswith('input_file'):
                    if e.fn in CREATE: r.bad('input opened read-only', f['q'], e.file, e.line, 'an input file may be created'); continue
                    mode = e.args[2]
                    if is_num(mode): r.check(mode == num(0), 'input opened read-only', f['q'], e.file, e.line, 'an input file is opened with mode %s' % show(mode))
                    else:
                        for g, m in cases(mode):
                            if is_num(m) and m != num(0) and satisfiable(land(*(tuple(g) + tuple(e.guard)))): r.bad('input opened read-only', f['q'], e.file, e.line, 'an input file may be opened with mode %s' % show(m))
                    r.check(e.args[1] == ('init', ('parm', f['params'][0]['n'])), 'the named file is opened', f['q'], e.file, e.line, 'opens %s' % show(e.args[1])) if e.args[1][0] in ('init', 's') else r.skip('the named file is opened', f['q'], e.file, e.line, show(e.args[1]))
                else:
                    r.check(e.fn in CREATE, 'output is created', f['q'], e.file, e.line, 'an output file is opened with %s' % e.fn)
    # nothing reachable from the input classes changes a file
    for f in p.repo_functions():
        c = f.get('cls') or ''
        if c not in ('MaRC::FITS::input_file', 'MaRC::FITS::file') or f.get('ctor') or '~' in f['n']: continue
        todo, got = [f['id']], set()
        while todo:
            i = todo.pop()
            if i in got: continue
            got.add(i); todo += [j for j in cg.get(i, ())]
        w = sorted(x for i in got for x in d.get(i, ()) if WRITE.match(x) and x not in READERS and x not in OPEN)
        r.check(not w, 'input never changed', f['q'], f['file'], f['line'], '%s changes the file it reads' % ', '.join(w), f['q'])

RM = {'unlink', 'remove', 'std::remove', 'rename', 'std::rename', 'unlinkat', 'rmdir', 'truncate', 'ftruncate', 'std::filesystem::remove', 'std::filesystem::rename', 'std::filesystem::remove_all', 'system', 'std::system'}
def removal(r, p):
    n = 0
    for f in p.repo_functions():
        for x in walk(f['body']):
            if x.get('k') != 'Call' or x.get('fn') not in RM: continue
            if x['fn'] in ('std::remove', 'remove') and len(x['args']) != 1: continue    # the algorithm
            n += 1
            if not f['q'].startswith('MaRC::MapCommand::'):
                r.bad('only the map file is removed', f['q'], f['file'], x['l'], '%s is called here' % x['fn'], f['q'] + ':' + x['fn']); continue
            ev = Evaluator(opaque=NOISE, maxdepth=0); ev.run(f)
            rm = [e for e in ev.events if e.kind == 'call' and e.fn == x['fn']]
            mk = [e for e in ev.events if e.kind in ('call', 'new') and e.fn.startswith('MaRC::FITS::output_file::output_file')] if rm else []
            for e in rm:
                a = e.args[0]
                src = {y[1][2] for y in atoms(a) if y[0] == 'init' and y[1][0] == 'fld'}
                names = set(fields_named(p))
                r.check(src <= names and (src or a[0] not in ('s',)), 'only the map file is removed', f['q'], e.file, e.line, '%s removes %s' % (e.fn, show(a)[:80]), f['q'] + ':' + e.fn)
    if n == 0: r.skip('only the map file is removed', '', '', 0, 'nothing is removed')

def fields_named(p):
    """fields of MapCommand that hold the map file name: those the file name parameter of the constructor initialises"""
    f = [f for f in p.q('MaRC::MapCommand::MapCommand') if f['params'] and 'body' in f]
    out = set()
    for c in f:
        ev = Evaluator(opaque=NOISE, maxdepth=0); ev.run(c)
        for e in ev.events:
            if e.kind == 'store' and e.loc[0] == 'fld' and any(a == ('init', ('parm', c['params'][0]['n'])) for a in atoms(e.value)): out.add(e.loc[2])
    return out
