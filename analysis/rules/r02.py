"""R02: failures reach the exit status.  main is analysed with the parser, the
command line and the map commands opaque: whenever one of them reports failure
the value main returns must be non-zero (through the loops as well, where a
failing status once set must survive the later rounds); every handler of an
exception must leave with a non-zero status or raise again.  Functions that
report a failure by their value hand it on all the way up; a semantic action
that has reported an error never lets the parse succeed; and every input file
and every map command is processed."""
from rulelib import *
from grammar import grammar
from rules import f01

MINIMUM = {'failure becomes exit status': 4, 'exception becomes exit status': 1, 'parse failure passed on': 2, 'failure passed on': 4, 'reported error stops the parse': 25, 'every command is run': 2}
PARSE, CL, EXEC = 'MaRC::parse_file', 'MaRC::command_line::parse', 'MaRC::MapCommand::execute'
ENOENT = num(2)

def status(v):
    """False: zero, True: non-zero, None: unknown"""
    if is_num(v): return v[1].denominator == 1 and int(v[1]) & 0xff != 0
    if v == FALSE: return False
    if v == TRUE: return True
    return None

def check(r):
    p = program()
    r.part(main, r, p)
    r.part(handlers, r, p)
    r.part(parse_file, r, p)
    r.part(fallible, r, p)
    r.part(actions, r, p)

def failed(p, e):
    isbool = p.fns[e.id]['ret'] == 'bool' if e.id in p.fns else False
    return lnot(e.result) if isbool else lnot(cmp('==', e.result, num(0), True))

def is_enoent(g):
    """the literal  errno == ENOENT"""
    return g[0] == 'cmp' and any(a[0] == 'init' or a[0] == 'ret' and a[2] == '__errno_location' or a[0] == 'out' for a in atoms(g)) and any('errno' in str(a) for a in atoms(g))

def propagate(r, p, ev, f, e, bad, rule, what):
    """does a failing e always make the value of f non-zero?"""
    res = None
    verdict = f01_loop(r, p, ev, f, e, bad, rule, what) if e.loops else None
    if verdict is not None: return
    for st, v, line in ev.returns:
        if st.dead: continue
        for cg, leaf in cases(v):
            s = status(leaf)
            if s: continue
            G = tuple(e.guard) + tuple(st.guard) + tuple(cg) + (bad,)
            G = tuple(x for x in G if not (x[0] == '!' and x[1][0] == 'exc'))
            if not satisfiable(land(*G)): continue
            # a missing configuration file is no failure
            lits = [x for x in atoms_lits(land(*G)) if is_enoent(x)]
            if lits and e.fn == PARSE and not e.loops and not satisfiable(land(*(G + tuple(lnot(x) for x in lits)))): continue
            if s is None:
                if leaf[0] in ('lout',):
                    # value of a status variable after a later loop
                    init = ev.loops[leaf[1]].updates.get(leaf[2], (None,))[0] if leaf[1] in ev.loops else None
                    if init is not None and status(init) is False: res = line; continue
                r.skip(rule, f['q'], e.file, e.line, 'status %s not followed' % show(leaf)[:60]); return
            res = line
    r.check(res is None, rule, f['q'], e.file, e.line, 'a failed %s ends with status zero (leaves at line %s)' % (what, res), f['q'] + ':' + e.fn + (':loop' if e.loops else ''))

def atoms_lits(t):
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, tuple) or not x: continue
        if x[0] in ('and', 'or', '!'): todo += [y for y in x[1:] if isinstance(y, tuple)] + [z for y in x[1:] if isinstance(y, tuple) and y and isinstance(y[0], tuple) for z in y]
        else: out.add(x)
    return out

def f01_loop(r, p, ev, f, e, bad, rule, what):
    l = ev.loops.get(e.loops[-1])
    if l is None: return None
    exits = [(st, v, line) for st, v, line in ev.returns if not st.dead and any(a == e.result for g in st.guard for a in atoms(g))]
    key = f['q'] + ':' + e.fn + ':loop'
    flags = {x[2] for st, v, _ in ev.returns if not st.dead for x in atoms(v) if x[0] == 'lout' and x[1] == l.id}
    # what one round makes of the status when the call failed
    flag_ok, why = False, None
    for loc in flags:
        if loc not in l.updates: continue
        good = True
        for g, leaf in cases(l.updates[loc][1]):
            s = status(leaf)
            if s: continue
            fails = satisfiable(land(bad, *(tuple(g) + tuple(e.guard))))
            if leaf == e.result or (leaf[0] == '!' and leaf[1] == e.result):
                # status taken from the call: right for this round, but a later success resets it
                good = False; why = 'the failure of %s is forgotten when a later one succeeds' % what; continue
            if s is False:
                if fails: good = False; why = 'a failed %s resets the status to zero' % what
                else: good = False; why = 'the failure of %s is forgotten when a later one succeeds' % what
            elif leaf[0] == 'lsym':
                if fails and not left_by(exits, g, e, bad): good = False; why = 'a failed %s does not change the exit status' % what
            else:
                r.skip(rule, f['q'], e.file, e.line, 'status %s' % show(leaf)[:60]); return True
        if good: flag_ok = True
    if flag_ok: r.ok(rule, f['q'], e.file, e.line); return True
    bad_exit = [line for st, v, line in exits if satisfiable(land(bad, *(tuple(st.guard) + tuple(e.guard)))) and any(status(x) is False for _, x in cases(v))]
    ok_exit = [line for st, v, line in exits if satisfiable(land(bad, *(tuple(st.guard) + tuple(e.guard)))) and all(status(x) for _, x in cases(v))]
    if ok_exit and not bad_exit: r.ok(rule, f['q'], e.file, e.line); return True
    if why is None and not ok_exit:
        if flags: return None
        why = 'a failed %s does not change the exit status' % what
    r.bad(rule, f['q'], e.file, e.line, why or 'a failed %s ends with status zero' % what, key)
    return True

def left_by(exits, g, e, bad):
    return any(satisfiable(land(bad, *(tuple(st.guard) + tuple(e.guard)))) for st, v, line in exits)

def main(r, p):
    f = p.one('main')
    ev = Evaluator(opaque=NOISE | {PARSE, CL, EXEC, 'MaRC::ParseParameter::ParseParameter', 'MaRC::get_config_filename'}); ev.run(f)
    seen = {}
    for e in ev.events:
        if e.kind == 'call' and e.fn in (PARSE, CL, EXEC):
            seen.setdefault((e.fn, bool(e.loops)), e)
            propagate(r, p, ev, f, e, failed(p, e), 'failure becomes exit status', {PARSE: 'parse of a file', CL: 'command line parse', EXEC: 'map command'}[e.fn])
    for e in ev.events:
        if e.kind != 'catch': continue
        for st, v, line in ev.returns:
            if st.dead: continue
            for cg, leaf in cases(v):
                if not any(x[0] == 'exc' for g in tuple(st.guard) + tuple(cg) for x in [g]): continue
                if leaf[0] == 'maythrow': leaf = ev.pretry.get(leaf, leaf)
                r.check(status(leaf) is not False, 'exception becomes exit status', f['q'], f['file'], e.line, 'an exception ends the program with status zero', 'main:catch')
    # every file and every command
    for fn, what in ((PARSE, 'input file'), (EXEC, 'map command')):
        es = [e for e in ev.events if e.kind == 'call' and e.fn == fn and e.loops]
        if not es: r.skip('every command is run', f['q'], f['file'], f['line'], 'no loop over the %ss' % what); continue
        e = es[0]; l = ev.loops[e.loops[-1]]
        inside = cmp('<', ('iter', l.id), l.trip, True) if l.trip is not None else None
        implied = lambda g: inside is not None and not satisfiable(land(inside, lnot(g)))
        own = [g for g in e.guard if not implied(g) and any(a == ('iter', l.id) or a[0] == 'lsym' and a[1] == l.id for a in atoms(g))]
        if own and not any(a[0] in ('ret', 'out') for g in own for a in atoms(g)):
            r.bad('every command is run', f['q'], e.file, e.line, 'a %s is passed over when %s does not hold' % (what, show(own[0])[:80]), 'main:' + fn)
        elif l.trip is not None and l.trip[0] == 'size': r.ok('every command is run', f['q'], e.file, e.line)
        elif l.trip is not None and any(a[0] == 'size' for a in atoms(l.trip)):
            r.bad('every command is run', f['q'], e.file, e.line, 'the loop over the %ss runs %s times' % (what, show(l.trip)[:80]), 'main:' + fn)
        else: r.skip('every command is run', f['q'], e.file, e.line, 'loop not followed')

def handlers(r, p):
    """An exception caught anywhere but in main must be raised again or end in failure."""
    for f in p.repo_functions():
        for n in walk(f['body']):
            if n.get('k') != 'Try' or f['q'] == 'main': continue
            for h in n['handlers']:
                ks = {m.get('k') for m in walk(h['body'])}
                rets = [m for m in walk(h['body']) if m.get('k') == 'Return' and 'e' in m]
                vals = [m['e'].get('cv') for m in rets]
                names = {m.get('fn', '') for m in walk(h['body']) if m.get('k') == 'Call'}
                where = (f['q'], f['file'], h.get('l', n.get('l', 0)))
                if 'Throw' in ks or 'Goto' in ks or names & {'exit', 'abort', 'std::terminate', '_exit', 'std::exit'}: r.ok('exception becomes exit status', *where)
                elif not rets and f.get('ret') == 'void' or not rets and f['q'] not in ('main',) and not any(m.get('k') == 'Assign' for m in walk(h['body'])):
                    r.bad('exception becomes exit status', *where, 'an exception is swallowed here', f['q'] + ':catch')
                elif rets and all(v is not None for v in vals):
                    isb = f.get('ret') == 'bool'
                    good = [(v in ('0', 'false')) if isb else v not in ('0',) for v in vals]
                    r.check(all(good), 'exception becomes exit status', *where, 'an exception is turned into success', f['q'] + ':catch')
                else: r.skip('exception becomes exit status', *where, 'handler not followed')

def parse_file(r, p):
    fs = [f for f in p.q(PARSE) if 'body' in f]
    if not fs: raise AnalysisError('parse_file not found')
    f = fs[0]
    ev = Evaluator(opaque=NOISE | {'yyparse', 'yylex_init', 'MaRC::strerror'}); ev.run(f)
    n = 0
    for e in ev.events:
        if e.kind != 'call' or e.fn not in ('fopen', 'std::fopen', 'yylex_init', 'yyparse'): continue
        n += 1
        bad = lnot(('has', e.result)) if 'fopen' in e.fn else lnot(cmp('==', e.result, num(0), True))
        res = None
        for st, v, line in ev.returns:
            if st.dead: continue
            for cg, leaf in cases(v):
                if status(leaf): continue
                if 'fopen' not in e.fn and leaf == e.result: continue
                G = land(bad, *(tuple(e.guard) + tuple(st.guard) + tuple(cg)))
                if satisfiable(G): res = (line, leaf)
        r.check(res is None or status(res[1]) is None and res[1][0] not in ('n', 'ret'), 'parse failure passed on', f['q'], e.file, e.line, 'a failed %s is not reported as a failure of the file (leaves at line %s)' % (e.fn, res and res[0]), f['q'] + ':' + e.fn)
    if n < 2: raise AnalysisError('parse_file: no failure sources')

def fallible(r, p):
    """Functions that report an error and return failure: their callers fail in turn."""
    fail = {}
    for f in p.repo_functions():
        if f.get('ret') not in ('bool', 'int') or f['q'] in ('main', 'yyparse'): continue
        if not any(n.get('k') == 'Call' and n.get('fn') == 'MaRC::error' for n in walk(f['body'])): continue
        try: ev = Evaluator(opaque=NOISE, maxdepth=0); ev.run(f)
        except AnalysisError: continue
        errs = [e for e in ev.events if e.kind == 'call' and e.fn == 'MaRC::error']
        for e in errs:
            if e.loops: continue
            own = [g for g in e.guard if g != TRUE]
            for st, v, line in ev.returns:
                if st.dead or not own or not set(own) <= set(st.guard): continue
                for cg, leaf in cases(v):
                    if leaf == TRUE and f['ret'] == 'bool' or leaf == num(0) and f['ret'] == 'int':
                        r.bad('failure passed on', f['q'], e.file, e.line, 'an error is reported but success returned at line %s' % line, f['q'] + ':error')
        if any(f01.failing(leaf) and any(satisfiable(land(*(tuple(st.guard) + tuple(e.guard) + tuple(cg)))) for e in errs)
               for st, v, _ in ev.returns if not st.dead for cg, leaf in cases(v)): fail[f['id']] = f
    for q in ('MaRC::MapCommand::populate_map_parameters',):
        for f in p.q(q):
            if 'body' in f and f.get('ret') == 'bool': fail[f['id']] = f
    if not fail: raise AnalysisError('no fallible functions')
    f01.pass_on(r, p, fail, skip={'main', 'yyparse'})
    planes(r, p)

def planes(r, p):
    """A plane for which no source image can be made is a failure."""
    for f in p.q('MaRC::MapCommand::make_map_planes'):
        if 'body' not in f: continue
        ev = Evaluator(opaque=NOISE, maxdepth=0); ev.run(f)
        for e in ev.events:
            if e.kind not in ('call', 'vcall') or not e.fn.endswith('SourceImageFactory::make') or not e.loops: continue
            f01.in_loop(r, p, ev, f, e, lnot(('has', e.result)))

def actions(r, p):
    g = grammar()
    n = 0
    for q in g.prods.values():
        if not q.useful: continue
        E = g.action(q)
        if E is None: continue
        fall = {}
        for e in E.events:
            if e.kind != 'call' or not (e.fn == 'MaRC::error' or e.fn.endswith('::yyerror') or e.fn == 'yyerror'): continue
            n += 1
            alive = False if E.final.dead else satisfiable(land(*(tuple(e.guard) + tuple(E.final.guard))))
            r.check(not alive, 'reported error stops the parse', '%s: %s' % (q.lhs, ' '.join(q.rhs)), '/repo/src/parse.yy', e.line, 'an error is reported but the input is accepted all the same', q.lhs + ':' + ' '.join(q.rhs))
        for e in E.events:
            if e.kind == 'goto' and e.d.get('label') in ('yyacceptlab',) and not (q.lhs == '$accept'):
                r.bad('reported error stops the parse', q.lhs, '/repo/src/parse.yy', e.line, 'the parse is declared successful before the end of the input', q.lhs + ':accept')
        if 'error' in q.rhs and not any(e.kind == 'goto' for e in E.events):
            r.bad('reported error stops the parse', q.lhs, '/repo/src/parse.yy', q.line, 'a syntax error is recovered from and the input accepted', q.lhs + ':error')
    for q in g.prods.values():
        if q.useful and 'error' in q.rhs and q.body is None:
            r.bad('reported error stops the parse', q.lhs, '/repo/src/parse.yy', q.line, 'a syntax error is recovered from and the input accepted', q.lhs + ':error')
    if n < 10: raise AnalysisError('no reported errors in the actions')
