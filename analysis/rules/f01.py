"""F01: typestate of the CFITSIO status.  Every function that calls CFITSIO is
analysed with its helpers expanded.  A call that takes a status must start with
status 0 (or with the status of a preceding call, which then stands for both);
on every way out of the function on which the call may have failed the failure
must have become an exception or a failing return value (in a destructor, or
for a checksum verification, a report; a missing keyword may instead yield an
empty value); and no further file operation may start before the failure is
excluded.  Callers of functions that return failure must fail in turn, and the
map command may only report success after a checked flush or close of the
file that follows the last write."""
from rulelib import *

MINIMUM = {'status starts at zero': 15, 'failure not ignored': 15, 'no operation after a failure': 3, 'failure passed on': 7, 'success only after a checked flush': 1}
REPORT = {'MaRC::error', 'MaRC::warn', 'MaRC::critical', 'ffrprt'}
FREE = {'ffgerr', 'ffrprt', 'ffcmsg', 'ffgmsg', 'ffvers', 'ffpmsg', 'ffcmrk', 'ffpmrk', 'ffxmsg'}     # cannot fail
LENIENT = {'ffvcks', 'ffpcks', 'ffclos', 'ffflus', 'ffflsh', 'ffupck'}                      # a report is enough (in a destructor or for verification)
KEYREAD = re.compile(r'^ffgk|^ffgky|^ffgcrd|^ffgsky|^ffgksl')
CLOSE = {'ffclos', 'ffflus', 'ffflsh', 'ffdelt'}
KEY_NO_EXIST = num(202)

def is_fits(q): return bool(re.match(r'^(ff[a-z0-9]+|fits_[a-z0-9_]+)$', q or ''))

def direct(p):
    """function -> CFITSIO functions it calls itself"""
    out = {}
    for f in p.repo_functions():
        for n in walk(f['body']):
            if n.get('k') == 'Call' and is_fits(n.get('fn')): out.setdefault(f['id'], set()).add(n['fn'])
        for i in f.get('inits') or []:
            for n in walk(i):
                if n.get('k') == 'Call' and is_fits(n.get('fn')): out.setdefault(f['id'], set()).add(n['fn'])
    return out

def status_arg(e):
    """index of the status argument of a CFITSIO call event"""
    if e.fn in FREE or not e.args: return None
    return len(e.args) - 1 if e.args[-1][0] in ('addr', 'init', 'ref') else None

def failing(v):
    """does this return value mean failure?"""
    return v == FALSE or (is_num(v) and v[1] != 0)

def is_empty(v):
    return v[0] in ('none', 'null') or v == ('s', '') or v == num(0) and False

def check(r):
    p = program()
    d = direct(p)
    if len(d) < 10: raise AnalysisError('only %d functions call CFITSIO' % len(d))
    keyed = set()
    for fid in sorted(d):
        f = p.fns[fid]
        if d[fid] <= FREE: continue
        r.part(one, r, p, f)
    r.part(callers, r, p, d)
    r.part(flushed, r, p, d)

def one(r, p, f):
    ev = Evaluator(opaque=NOISE)
    ev.run(f)
    calls = [e for e in ev.events if e.kind == 'call' and is_fits(e.fn) and e.fn not in FREE]
    name = f['q']
    dtor = '~' in f['n'] or f['q'].endswith('closer::operator()') or bool(f.get('noexc'))
    chain, ident = {}, {}
    ok = []
    for e in calls:
        i = status_arg(e)
        if i is None: continue
        pre = e.pre[i] if e.d.get('pre') else ('undef',)
        for _, v in cases(pre):
            if v == num(0): r.ok('status starts at zero', name, e.file, e.line)
            elif v[0] == 'out' and any(c.result == v[1] for c in ok): r.ok('status starts at zero', name, e.file, e.line)
            elif v[0] == 'init' and v[1][0] in ('parm', 'deref'): r.skip('status starts at zero', name, e.file, e.line, 'status given by the caller')
            elif is_num(v): r.bad('status starts at zero', name, e.file, e.line, '%s is called with status %s, so it does nothing' % (e.fn, show(v)), name + ':' + e.fn)
            elif v[0] in ('undef', 'init'): r.bad('status starts at zero', name, e.file, e.line, '%s is called with an uninitialised status' % e.fn, name + ':' + e.fn)
            else: r.skip('status starts at zero', name, e.file, e.line, show(v))
        ident[('out', e.result, i)] = e.result
        for a in atoms(pre):
            if a[0] == 'out': chain.setdefault(a[1], []).append(e)
        ok.append(e)
    norm = lambda t: subst(t, ident)
    def failed(e):
        """e's own status reported, or that of the call its status was handed on to"""
        c = cmp('<', num(0), e.result, True)      # CFITSIO: errors are positive
        out = [c]
        for n in chain.get(e.result, []):
            # CFITSIO keeps a non-zero status: if e failed and n ran, n's result is non-zero too
            out.append(lor(land(c, *[]) and lnot(land(*[norm(g) for g in n.guard])) if n.guard else FALSE, failed(n)))
        return land(*out)
    reports = [e for e in ev.events if e.kind == 'call' and e.fn in REPORT]
    for e in ok:
        if e.fn in CLOSE and dtor: r.skip('failure not ignored', name, e.file, e.line, 'file released in a destructor'); continue
        fail = failed(e)
        g0 = land(*[norm(g) for g in e.guard])
        for st, v, line in ev.returns:
            if st.dead: continue
            g = land(*[norm(x) for x in st.guard])
            for cg, leaf in cases(norm(v)) if v != ('void',) else [((), v)]:
                if failing(leaf): r.ok('failure not ignored', name, e.file, e.line); continue
                bad = land(g0, g, fail, *cg)
                if dtor or e.fn in LENIENT:
                    bad = land(bad, *[lnot(land(*[norm(x) for x in q.guard])) for q in reports if q.seq > e.seq])
                elif KEYREAD.match(e.fn) and (is_empty(leaf) or leaf == ('void',)):
                    bad = land(bad, lnot(cmp('==', e.result, KEY_NO_EXIST, True)))
                if is_bool(leaf) and leaf not in (TRUE, FALSE): bad = land(bad, leaf)
                r.check(not satisfiable(bad), 'failure not ignored', name, e.file, e.line,
                        '%s may fail without the failure being raised (leaves at line %s with %s)' % (e.fn, line, show(leaf)[:80]), name + ':' + e.fn)
        later = [c for c in calls if c.seq > e.seq]
        for c in later:
            i = status_arg(c)
            if i is not None and c.d.get('pre') and any(a[0] == 'out' and a[1] == e.result for a in atoms(c.pre[i])): continue
            if c.fn in CLOSE: continue
            if c in chain.get(e.result, []): continue
            if any(c in chain.get(n.result, []) for n in chain.get(e.result, [])): continue
            bad = land(g0, fail, *[norm(x) for x in c.guard])
            r.check(not satisfiable(bad), 'no operation after a failure', name, c.file, c.line, '%s is called although %s at line %s may have failed' % (c.fn, e.fn, e.line), name + ':' + e.fn + ':' + c.fn)

def returns_failure(p, d):
    """functions of the FITS layer that report a failed CFITSIO call by returning false or a number"""
    out = {}
    for fid in d:
        f = p.fns[fid]
        if f.get('ret') not in ('bool', 'int'): continue
        ev = Evaluator(opaque=NOISE); ev.run(f)
        for st, v, line in ev.returns:
            if st.dead: continue
            if any(failing(l) for _, l in cases(v)) and any(e.kind == 'call' and is_fits(e.fn) and e.fn not in FREE and satisfiable(land(*e.guard)) for e in ev.events):
                out[fid] = f
    return out

def callers(r, p, d): pass_on(r, p, returns_failure(p, d))

def pass_on(r, p, fail, skip=()):
    todo, done = set(fail), set()
    while todo:
        cur, todo = todo, set()
        done |= cur
        for f in p.repo_functions():
            if f['q'] in skip: continue
            sites = [n for n in walk(f['body']) if n.get('k') == 'Call' and n.get('id') in cur]
            if not sites: continue
            names = {p.fns[n['id']]['q'] for n in sites}
            ev = Evaluator(opaque=NOISE | names, maxdepth=0); ev.run(f)
            prop = False
            for e in ev.events:
                if e.kind != 'call' or e.fn not in names or (e.id in p.fns and e.id not in cur): continue
                R = e.result
                isbool = p.fns[e.id]['ret'] == 'bool' if e.id in p.fns else True
                bad_r = lnot(R) if isbool else lnot(cmp('==', R, num(0), True))
                if e.loops: decided = in_loop(r, p, ev, f, e, bad_r)
                else: decided = None
                if decided is not None: prop = prop or decided; continue
                res = None
                for st, v, line in ev.returns:
                    if st.dead: continue
                    for cg, leaf in cases(v) if v != ('void',) else [((), v)]:
                        if failing(leaf): prop = True; continue
                        b = land(*(tuple(e.guard) + tuple(st.guard) + tuple(cg) + (bad_r,)))
                        if is_bool(leaf) and leaf not in (TRUE, FALSE): b = land(b, leaf); prop = True
                        if satisfiable(b): res = line
                r.check(res is None, 'failure passed on', f['q'], e.file, e.line, 'a failed %s goes unnoticed by the caller (leaves at line %s)' % (e.fn, res), f['q'] + ':' + e.fn)
            if f.get('ret') in ('bool', 'int') and prop and f['id'] not in done: todo.add(f['id'])

def in_loop(r, p, ev, f, e, bad_r):
    """A failing call inside a loop: a flag must be set under the failure, keep
    its value in the other iterations and make the function fail afterwards; or
    the loop is left with a failure."""
    l = ev.loops.get(e.loops[-1])
    if l is None: return None
    # left at once
    for st, v, line in ev.returns:
        if not st.dead and failing(v) and satisfiable(land(*(tuple(st.guard) + (bad_r,)))) and any(a == e.result for g in st.guard for a in atoms(g)):
            r.ok('failure passed on', f['q'], e.file, e.line); return True
    # a flag: the value returned after the loop
    flags = {x[2] for st, v, _ in ev.returns if not st.dead for x in atoms(v) if x[0] == 'lout' and x[1] == l.id}
    why = None
    for loc in flags:
        if loc not in l.updates: continue
        bad, forgot, odd = False, False, False
        for g, leaf in cases(l.updates[loc][1]):
            if failing(leaf): continue
            if (is_bool(leaf) or leaf in (e.result, lnot(e.result))) and leaf[0] not in ('b', 'lsym') and not any(x[0] == 'lsym' for x in atoms(leaf)): g, leaf = tuple(g) + (leaf,), TRUE
            if satisfiable(land(bad_r, *(tuple(g) + tuple(e.guard)))):
                if leaf[0] in ('lsym', 'b', 'n'): bad = True
                else: odd = True
            elif leaf[0] in ('b', 'n'): forgot = True
            elif leaf[0] != 'lsym': odd = True
        if not (bad or forgot or odd): r.ok('failure passed on', f['q'], e.file, e.line); return True
        if odd: r.skip('failure passed on', f['q'], e.file, e.line, 'loop flag not followed'); return True
        why = 'a failed %s goes unnoticed by the caller' % e.fn if bad else 'the failure of %s is forgotten in a later round of the loop' % e.fn
    if not flags and any(x[0] in ('lout', 'ret', 'out') for st, v, _ in ev.returns if not st.dead for x in atoms(v)): why = None
    elif not flags: why = 'a failed %s goes unnoticed by the caller' % e.fn
    if why: r.bad('failure passed on', f['q'], e.file, e.line, why, f['q'] + ':' + e.fn); return False
    r.skip('failure passed on', f['q'], e.file, e.line, 'loop flag not followed'); return True

def flushed(r, p, d):
    """Success is reported only after a checked flush or close that follows the last write."""
    cg = {}
    for f in p.repo_functions():
        cg[f['id']] = {n['id'] for n in walk(f['body']) if n.get('k') in ('Call', 'Ctor') and n.get('id')}
    def reach(i, pred, seen=None):
        seen = set() if seen is None else seen
        if i in seen: return False
        seen.add(i)
        if pred(i): return True
        return any(reach(j, pred, seen) for j in cg.get(i, ()))
    writes = lambda i: bool(d.get(i, set()) & {'ffppr', 'ffppx', 'ffppn', 'ffp2de', 'ffppxll', 'ffuky', 'ffphis', 'ffpcom', 'ffcrimll'})
    f = p.one('MaRC::MapCommand::execute')
    flush_fns = {i for i in d if d[i] & {'ffflus', 'ffflsh'} or (d[i] & {'ffclos'} and 'closer' not in p.fns[i]['q'] and '~' not in p.fns[i]['n'])}
    wr_names, fl_names = set(), set()
    for j in cg[f['id']]:
        if j not in p.fns: continue
        if j in flush_fns or reach(j, lambda i: i in flush_fns): fl_names.add(p.fns[j]['q'])
        elif reach(j, writes): wr_names.add(p.fns[j]['q'])
    if not wr_names: raise AnalysisError('execute: no writing call found')
    ev = Evaluator(opaque=NOISE | wr_names | fl_names | {'MaRC::MapCommand::populate_map_parameters'}); ev.run(f)
    wr = [e for e in ev.events if e.kind == 'call' and e.fn in wr_names]
    fl = [e for e in ev.events if e.kind == 'call' and e.fn in fl_names]
    n = 0
    for st, v, line in ev.returns:
        if st.dead: continue
        for g, leaf in cases(v):
            if leaf != num(0): continue
            G = tuple(st.guard) + tuple(g)
            ws = [e for e in wr if satisfiable(land(*(G + tuple(e.guard))))]
            if not ws: continue
            n += 1
            last = max(e.seq for e in ws)
            miss = land(*(G + tuple(lnot(land(*e.guard)) for e in fl if e.seq > last)))
            r.check(not satisfiable(miss), 'success only after a checked flush', f['q'], f['file'], line, 'success is reported although buffered data may not have reached the file', f['q'])
    if n == 0: r.skip('success only after a checked flush', f['q'], f['file'], f['line'], 'no success return found')
