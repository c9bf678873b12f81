"""F05: value flow through the parameter merge.  map_parameters::merge is analysed
with its helpers expanded; the value each setting has afterwards is split into
its cases.  It may only be the old value or the other set's value of the same
setting; the other's value is taken only where there was none and the setting
is not locked by the user, and is taken wherever the user gave none and a value
exists; nothing else enters the decision.  Each setter stores its argument in
the setting the getter of the same name returns and locks that setting's own
key, so user values are the locked ones.  The map command fills one fresh set
per plane, merges the planes first and the result into the user's set, and
fails when any of these fails."""
from rulelib import *

MINIMUM = {'setter and getter name the same setting': 14, 'user value locks its own setting': 14, 'only the same setting is merged': 13, 'user value is kept': 13, 'derived value is adopted': 12, 'planes are merged into the user\'s settings': 4}
P = 'MaRC::map_parameters'
T = ('deref', ('v', 'this'))
UNMERGED = {'datamin', 'datamax'}          # found from the data that is mapped

def tests(ev):
    """bitset queries as pure terms"""
    m = {}
    for e in ev.events:
        if e.kind == 'call' and e.fn in ('std::bitset::test', 'std::bitset::operator[]') and e.args and is_num(e.args[0]): m[e.result] = ('locked', int(e.args[0][1]))
    return m

def settings(r, p):
    """name -> (field, key)"""
    out = {}
    for f in p.fns.values():
        if f.get('cls') != P or 'body' not in f or f.get('ctor') or f.get('access') != 0 and False: continue
        if len(f['params']) != 1 or f.get('ret') != 'void' or f['n'].startswith('operator'): continue
        g = [x for x in p.q(P + '::' + f['n']) if not x['params'] and 'body' in x]
        push = f['n'].startswith('push_')
        if not g and not push: continue
        ev = Evaluator(opaque=NOISE); ev.run(f)
        par = ('init', ('parm', f['params'][0]['n']))
        st = [e for e in ev.events if e.kind == 'store' and e.loc[0] == 'fld' and e.loc[1] == T]
        locks = [e for e in ev.events if e.kind == 'call' and e.fn == 'std::bitset::set']
        user = cmp('==', ('init', ('fld', T, read_field(p, P + '::user_supplied'))), num(0), True)
        key = None
        for e in locks:
            if e.args and is_num(e.args[0]): key = int(e.args[0][1])
            if len(e.args) > 1 and e.args[1] == FALSE: r.bad('user value locks its own setting', f['q'], e.file, e.line, 'the setting is unlocked')
        if push:
            ps = [e for e in ev.events if e.kind == 'push']
            fld = ps[0].cont[2] if ps and ps[0].cont[0] == 'fld' else None
        else:
            same = [e for e in st if e.value == par]
            if not st: r.bad('setter and getter name the same setting', f['q'], f['file'], f['line'], 'nothing is stored'); continue
            G = analyse(g[0], opaque=NOISE)
            gf = getfield(G)
            if gf is None: r.skip('setter and getter name the same setting', f['q'], f['file'], f['line'], 'getter not followed'); continue
            r.check(len(same) == len(st) == 1 and same[0].loc[2] == gf, 'setter and getter name the same setting', f['q'], f['file'], f['line'],
                    'sets %s, but %s() returns %s' % ([(e.loc[2], show(e.value)) for e in st], f['n'], gf))
            fld = gf
        if fld is None: continue
        if f['n'] != 'bitpix':
            miss = land(user, *[lnot(land(*e.guard)) for e in locks])
            r.check(bool(locks) and not satisfiable(miss), 'user value locks its own setting', f['q'], f['file'], f['line'], 'a value given by the user is not protected', f['q'])
            r.check(not any(satisfiable(land(lnot(user), *e.guard)) for e in locks), 'derived values lock nothing', f['q'], f['file'], f['line'], 'a derived value locks the setting', f['q'])
        out[f['n']] = (fld, key)
    keys = {}
    for n, (fld, k) in out.items():
        if k is not None: keys.setdefault(k, []).append(n)
    for k, ns in sorted(keys.items()):
        r.check(len(ns) == 1, 'user value locks its own setting', P, '', 0, '%s share one lock' % ', '.join(sorted(ns)), 'key%d' % k)
    return out

def getfield(G):
    v = G.value
    for c, l in cases(v):
        if l[0] == 'ref' and l[1][0] == 'fld': return l[1][2]
        if l[0] in ('init', 'obj') and l[1][0] == 'fld': return l[1][2]
    return None

def check(r):
    p = program()
    S = settings(r, p)
    if len(S) < 10: raise AnalysisError('only %d settings found' % len(S))
    r.part(merging, r, p, S)
    r.part(command, r, p)

def merging(r, p, S):
    f = p.one(P + '::merge')
    ev = Evaluator(opaque=NOISE | {'MaRC::almost_equal'}); ev.run(f)
    internal = {read_field(p, P + '::user_supplied')} | {n for x in record_of(p, P) for n in fields_by_type(x, lambda t: 'bitset<' in t)}
    tm = tests(ev)
    q = ('parm', f['params'][0]['n'])
    user = cmp('==', ('init', ('fld', T, read_field(p, P + '::user_supplied'))), num(0), True)
    for st, v, line in ev.returns:
        if not st.dead and v == FALSE: r.skip('merge succeeds', f['q'], f['file'], line, 'merge may refuse')
    for name, (fld, key) in sorted(S.items()):
        mine, other = ('fld', T, fld), ('fld', q, fld)
        if name.startswith('push_'):
            sp = [e for e in ev.events if e.kind == 'call' and e.fn.endswith(('list::splice', 'list::insert')) and e.this == mine]
            st = [e for e in ev.events if e.kind == 'store' and root(e.loc) == T and e.loc == mine]
            if not sp: r.skip('derived value is adopted', f['q'], f['file'], f['line'], name); continue
            for e in sp:
                src = {fl for a in e.args for fl in fieldrefs(a, q)}
                r.check(src <= {fld}, 'only the same setting is merged', f['q'], e.file, e.line, '%s receives %s' % (fld, sorted(src)), name)
                g = subst(land(*e.guard), tm)
                r.check(not satisfiable(land(g, user, ('locked', key))), 'user value is kept', f['q'], e.file, e.line, 'derived %s is added to what the user gave' % fld, name)
            continue
        v = ev.final.env.get(mine)
        if v is None or v == ('init', mine):
            if name in UNMERGED: r.ok('only the same setting is merged', f['q'], f['file'], f['line']); continue
            r.bad('derived value is adopted', f['q'], f['file'], f['line'], 'the %s of the source images is never adopted' % name, name); continue
        v = subst(v, tm)
        iM, iO = ('init', mine), ('init', other)
        opt = lambda loc: has(('init', loc))
        strs = any(a[0] == 'size' and a[1] == mine for a in atoms(v)) or not any(a[0] == 'has' for a in subterms(v))
        deps = set()
        for a in atoms(v):
            if a[0] == 'init' and a[1][0] == 'fld' and a[1] not in (mine, other) and a[1][2] not in internal : deps.add(show(a))
            if a[0] == 'locked' and a[1] != key: deps.add('lock %d' % a[1])
        r.check(not deps, 'only the same setting is merged', f['q'], f['file'], f['line'], 'whether %s is adopted depends on %s' % (name, sorted(deps)[:3]), name)
        lock = ('locked', key) if key is not None else TRUE
        kind = fkind(p, fld)
        if kind == 'string': unset, otherset = cmp('==', ('size', mine), num(0), True), lnot(cmp('==', ('size', other), num(0), True))
        elif kind == 'int': unset, otherset = cmp('==', iM, num(0), True), lnot(cmp('==', iO, num(0), True))
        else: unset, otherset = lnot(has(iM)), has(iO)
        for g, leaf in cases(v, minmax=False):
            G = land(*g)
            if leaf == iO or (leaf[0] == 'some' and leaf[1] == ('val', iO)):
                b1 = land(G, user, lock, lnot(unset)) if key is not None else land(G, user, lnot(unset))
                r.check(not satisfiable(b1), 'user value is kept', f['q'], f['file'], f['line'], 'the %s given by the user may be replaced' % name, name)
                if key is not None and kind != 'string' : r.check(not satisfiable(land(G, lnot(unset), otherset)), 'first value is kept', f['q'], f['file'], f['line'], 'an existing %s is replaced' % name, name)
                elif kind == 'string': r.check(not satisfiable(land(G, lnot(unset))), 'first value is kept', f['q'], f['file'], f['line'], 'an existing %s is replaced' % name, name)
                if kind == 'optional': r.check(not satisfiable(land(G, lnot(otherset), lnot(unset))), 'first value is kept', f['q'], f['file'], f['line'], 'the %s is lost when the source has none' % name, name)
            elif leaf == iM:
                nan = [a for a in subterms(v) if a[0] == 'isnan']
                b = land(G, unset, otherset, *([lnot(lock)] if key is not None else []), *[lnot(a) for a in nan])
                if kind == 'int': b = land(b, TRUE)
                # values the setter would refuse cannot be present
                if kind == 'int': 
                    r.check(not satisfiable(land(b, *[cmp('==', iO, num(16), True)])), 'derived value is adopted', f['q'], f['file'], f['line'], 'a derived %s may be ignored although the user gave none' % name, name)
                else: r.check(not satisfiable(b), 'derived value is adopted', f['q'], f['file'], f['line'], 'a derived %s may be ignored although the user gave none' % name, name)
            elif leaf[0] == 'init' and leaf[1][0] == 'fld': r.bad('only the same setting is merged', f['q'], f['file'], f['line'], '%s receives %s' % (name, show(leaf)), name)
            elif leaf[0] in ('none', 's', 'n', 'b'): r.bad('only the same setting is merged', f['q'], f['file'], f['line'], '%s becomes %s' % (name, show(leaf)), name)
            else: r.skip('only the same setting is merged', f['q'], f['file'], f['line'], '%s becomes %s' % (name, show(leaf)[:60]))

def fkind(p, fld):
    rec = p.records[P]
    t = [x['t'] for x in rec['fields'] if x['n'] == fld][0]
    return 'string' if 'basic_string' in t else 'optional' if 'optional' in t else 'int' if t == 'int' else 'other'

def subterms(t):
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, tuple): continue
        if x and isinstance(x[0], str): out.add(x)
        todo += [y for y in x if isinstance(y, tuple)]
    return out

def fieldrefs(t, base):
    return {x[2] for x in subterms(t) if x[0] == 'fld' and x[1] == base}

def command(r, p):
    f = p.one('MaRC::MapCommand::populate_map_parameters')
    ev = Evaluator(opaque=NOISE | {P + '::merge'}, maxdepth=1); ev.run(f)
    rule = 'planes are merged into the user\'s settings'
    pop = [e for e in ev.events if e.kind == 'call' and e.fn.endswith('::populate_parameters')]
    mg = [e for e in ev.events if e.kind == 'call' and e.fn == P + '::merge']
    if not pop or not mg: raise AnalysisError('populate_map_parameters: merge not found')
    def loc(a): return a[1] if a[0] == 'ref' else a
    own = {n for x in record_of(p, 'MaRC::MapCommand') for n in fields_by_type(x, lambda t: 'map_parameters' in t)}
    def is_user(l): return l[0] == 'deref' and any(a and a[0] == 'fld' and a[2] in own for a in atoms_all(l))
    for e in mg:
        if is_user(loc(e.args[0])): r.bad(rule, f['q'], e.file, e.line, 'the user\'s settings are merged into the derived ones', f['q'] + ':direction')
    fin = [e for e in mg if is_user(e.this)]
    r.check(bool(fin), rule, f['q'], f['file'], f['line'], 'the derived settings never reach the user\'s', f['q'] + ':final')
    for e in pop:
        tgt = loc(e.args[0])
        if is_user(tgt): r.bad(rule, f['q'], e.file, e.line, 'source images set the user\'s settings directly', f['q'] + ':direct'); continue
        nxt = [m for m in mg if m.seq > e.seq and loc(m.args[0]) == tgt]
        r.check(bool(nxt), rule, f['q'], e.file, e.line, 'the settings of a plane are not merged', f['q'] + ':plane')
        for m in nxt:
            miss = land(*(tuple(e.guard) + (e.result, lnot(land(*m.guard)))))
            r.check(not satisfiable(miss), rule, f['q'], m.file, m.line, 'the settings of some planes are not merged', f['q'] + ':all')
            if not is_user(m.this):
                ok = [x for x in mg if is_user(x.this) and loc(x.args[0]) == m.this and x.seq > m.seq]
                r.check(bool(ok), rule, f['q'], m.file, m.line, 'the merged settings of the planes are not handed on', f['q'] + ':handed')
    for e in pop + mg:
        for st, v, line in ev.returns:
            if st.dead: continue
            for g, leaf in cases(v):
                if leaf == FALSE or leaf == e.result: continue
                if e.loops and not any(a == e.result for x in st.guard for a in atoms(x)): continue
                b = land(*(tuple(e.guard) + tuple(st.guard) + tuple(g) + (lnot(e.result),)))
                if e.loops: continue
                r.check(not satisfiable(b), 'failure to collect settings is reported', f['q'], e.file, e.line, 'a failed %s is ignored' % e.fn, f['q'] + ':' + e.fn)
