"""I06  Arithmetic expressions mean what they say.

The scanner's automaton (flex tables) and the parser's LALR automaton (bison
report) of the current sources are followed on every combination of two and
three operators, with unary minus, parentheses and function calls, in every
context an expression may appear in; the semantic actions are composed as
symbolic terms and compared with the usual meaning.  Number syntax is decided
for all numerals by a product of the scanner automaton with that of numerals;
the function table, the symbol lookup and the text-to-number conversion are
analysed on the syntax tree."""
import itertools
import xml.etree.ElementTree as ET
from sentences import *
from lexer import lexer

MINIMUM = {'expression meaning': 100, 'numerals': 2, 'function table': 5}
YY = 'src/parse.yy'
FUNCTIONS = {'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'asin': 'asin', 'acos': 'acos', 'atan': 'atan', 'exp': 'exp', 'ln': 'log', 'sqrt': 'sqrt'}

class LR:
    """The LALR automaton of the input grammar."""
    def __init__(self, g):
        self.g = g
        root = ET.parse(os.path.join(g.p.gen, 'parse.xml')).getroot()
        self.shift, self.goto, self.red = {}, {}, {}
        for s in root.find('automaton'):
            n = int(s.get('number'))
            a = s.find('actions')
            for t in a.find('transitions'):
                (self.shift if t.get('type') == 'shift' else self.goto)[n, t.get('symbol')] = int(t.get('state'))
            for r in a.find('reductions'):
                if r.get('enabled') == 'true': self.red.setdefault(n, {})[r.get('symbol')] = r.get('rule')
    def contexts(self, nt): return sorted(s for s, x in self.goto if x == nt)
    def end(self, s, ops):
        """Rule reduced in s when the expression is over."""
        d = self.red.get(s, {})
        rs = {r for t, r in d.items() if t not in ops}
        return rs.pop() if len(rs) == 1 else None
    def parse(self, s0, nt, toks, ops):
        """Tree of toks = [(terminal, leaf)] as an nt from state s0, or None."""
        st, i = [(s0, None)], 0
        for _ in range(400):
            s = st[-1][0]
            if i == len(toks):
                if len(st) == 2 and s == self.goto.get((s0, nt)): return st[1][1]
                r = self.end(s, ops)
            else:
                t = toks[i][0]
                if (s, t) in self.shift:
                    st.append((self.shift[s, t], toks[i])); i += 1; continue
                d = self.red.get(s, {})
                r = d.get(t, d.get('$default'))
            if r is None or r == 'accept': return None
            q = self.g.prods[int(r)]
            kids = [k for _, k in st[len(st) - len(q.rhs):]] if q.rhs else []
            if q.rhs: del st[len(st) - len(q.rhs):]
            if (st[-1][0], q.lhs) not in self.goto: return None
            st.append((self.goto[st[-1][0], q.lhs], Tree(q, kids)))
        return None

class Meaning:
    """Value of a parse tree as a term over the numerals and function names."""
    def __init__(self):
        self.S, self.memo = sentences(), {}
    def leaf(self, t):
        term, text = t
        if term == 'NUM': return {'sval': ('text', text)}
        if term in ('FNCT', 'VAR'): return {'tptr': ('symbol', text)}
        return {}
    def of(self, tree):
        syms = []
        for k in tree.kids: syms.append(self.of(k) if isinstance(k, Tree) else self.leaf(k))
        key = (tree.prod.no, repr(syms))
        if key not in self.memo:
            R = Runner(self.S)
            out = R.act(tree.prod, syms)
            E = self.S.g.action(tree.prod)
            m = {}
            if E is not None:
                memo = {}
                for e in E.events:
                    if e.kind == 'icall':
                        cal = R.resolve(e.callee, tree.prod, syms, memo)
                        while cal[0] in ('init', 'addr', 'ref') or cal[0] == 'deref' and cal[1][0] == 'init': cal = cal[1]
                        # the function held by a symbol
                        if cal[0] == 'fld' and cal[2] == 'fnctptr' and cal[1][0] == 'fld' and cal[1][1][0] == 'deref' and cal[1][1][1][0] == 'symbol' and len(e.args) == 1:
                            m[R.resolve(e.result, tree.prod, syms, memo)] = ('call', 'fn ' + cal[1][1][1][1], (R.resolve(e.args[0], tree.prod, syms, memo),))
                    if e.kind == 'call' and e.fn in ('strtod', 'std::strtod', 'strtoll', 'std::strtoll', 'strtold', 'atof', 'std::atof') and e.args:
                        m[R.resolve(e.result, tree.prod, syms, memo)] = ('numeral', R.resolve(e.args[0], tree.prod, syms, memo))
            self.memo[key] = {k: subst(v, m) for k, v in out.items()}
        return self.memo[key]

# expected meaning: a small precedence parser over the characters of the text
class Expect:
    def __init__(self, text): self.t, self.i = text.replace(' ', ''), 0
    def peek(self): return self.t[self.i] if self.i < len(self.t) else ''
    def sum(self):
        x = self.prod()
        while self.peek() in ('+', '-') and self.peek():
            o = self.peek(); self.i += 1
            y = self.prod()
            x = add(x, y) if o == '+' else sub(x, y)
        return x
    def prod(self):
        x = self.unary()
        while self.peek() in ('*', '/') and self.peek():
            o = self.peek(); self.i += 1
            y = self.unary()
            x = mul(x, y) if o == '*' else div(x, y)
        return x
    def unary(self):
        if self.peek() == '-': self.i += 1; return neg(self.unary())
        if self.peek() == '+': self.i += 1; return self.unary()
        return self.pow()
    def pow(self):
        x = self.atom()
        if self.peek() == '^':
            self.i += 1
            return call('pow', (x, self.unary()))
        return x
    def atom(self):
        if self.peek() == '(':
            self.i += 1; x = self.sum(); self.i += 1; return x
        if self.peek().isalpha():
            j = self.i
            while self.peek().isalpha(): self.i += 1
            f = self.t[j:self.i]
            self.i += 1; x = self.sum(); self.i += 1
            return ('call', 'fn ' + f, (x,))
        j = self.i
        while self.peek().isdigit(): self.i += 1
        return ('numeral', ('text', self.t[j:self.i]))

def texts(deep):
    ops = '+-*/^'
    out = ['2', '(2)', '-2', '((2))', 'sin(2)', '-(2)', '- -2', 'sin(-2)', '-sin(2)', 'sqrt(exp(2))', 'cos((2))']
    for o in ops:
        out += ['2%s3' % o, '2%s-3' % o, '-2%s3' % o, '(2%s3)' % o, '-(2%s3)' % o, 'sin(2%s3)' % o, 'sin(2)%s3' % o, '2%ssin(3)' % o, '-2%s-3' % o, '2%s(3)' % o, '(2)%s3' % o, '(-2)%s3' % o]
        for p in ops:
            out += ['2%s3%s5' % (o, p), '(2%s3)%s5' % (o, p), '2%s(3%s5)' % (o, p), '2%s-3%s5' % (o, p), '-2%s3%s5' % (o, p), '2%s3%s-5' % (o, p), 'sin(2%s3)%s5' % (o, p), '2%ssin(3%s5)' % (o, p)]
            for r in ops:
                out.append('2%s3%s5%s7' % (o, p, r))
                if deep:
                    out += ['2%s(3%s5)%s7' % (o, p, r), '(2%s3)%s(5%s7)' % (o, p, r), '2%s(3%s5%s7)' % (o, p, r), '2%s-3%s5%s-7' % (o, p, r)]
                    for s in ops: out.append('2%s3%s5%s7%s11' % (o, p, r, s))
    return out

def spaced(t):
    out, i = [], 0
    while i < len(t):
        j = i
        while j < len(t) and (t[j].isalnum()): j += 1
        if j == i: j = i + 1
        out.append(t[i:j]); i = j
    return ' '.join(out)

def token_names(g): return {int(v['tok']): n for n, v in g.terminals.items() if v['tok'] is not None}

def tokens(L, names, text, state='expression'):
    """Terminals the scanner yields for text, or (None, why)."""
    out, sc = [], state
    inv = {v: k for k, v in L.sc.items()}
    while text:
        a, n = L.scan(text, sc)
        if not n: return None
        o = L.outcome(a)
        lex = text[:n]; text = text[n:]
        rets = o['rets']
        sym = [v for g, v in rets if v[0] == 'init' and v[1][0] == 'fld' and v[1][2] == 'type']
        if sym: t = 'FNCT' if lex in FUNCTIONS else None
        elif not rets: t = ''
        elif len(rets) == 1 and is_num(rets[0][1]): t = names.get(int(rets[0][1][1]))
        else: return None
        if o['begin'] is not None: sc = inv.get(o['begin'], sc)
        if t is None: return None
        if t: out.append((t, lex))
    return out

def expr_symbol(g):
    if 'expr' in g.nonterminals: return 'expr'
    c = {q.rhs[2] for q in g.prods.values() if len(q.rhs) == 3 and q.rhs[0] in ('DATA_OFFSET', 'DATA_SCALE') and q.rhs[2] in g.nonterminals}
    if len(c) != 1: raise AnalysisError('expression symbol not found')
    return c.pop()

def check(rep):
    rep.part(meaning, rep)
    rep.part(numerals, rep)
    rep.part(conversion, rep)
    rep.part(table, rep)
    rep.part(lookup, rep)
    rep.part(variables, rep)

def action_line(g, tree):
    return (tree.prod.line if tree is not None and tree.prod.line else 0)

def meaning(rep):
    g = grammar()
    L, lr, M = lexer(), LR(g), Meaning()
    names = token_names(g)
    nt = expr_symbol(g)
    ops = {"'%s'" % c for c in '+-*/^=()'} | {'NUM', 'VAR', 'FNCT'}
    ctx = lr.contexts(nt)
    # contexts that behave alike are followed once
    groups = {}
    for s in ctx:
        groups.setdefault((tuple(sorted((t, lr.shift[s, t]) for t in ops if (s, t) in lr.shift)), tuple(sorted((n, x) for (q, n), x in lr.goto.items() if q == s and n != nt))), []).append(s)
    for t in texts(rep.tier == 'thorough'):
        want = Expect(t).sum()
        for txt in (t, spaced(t)):
            toks = tokens(L, names, txt)
            if toks is None:
                rep.bad('expression meaning', 'scanner', '/repo/src/lexer.ll', 0, 'the scanner does not recognise the expression %r' % txt, key='scan|' + txt); continue
            for ss in groups.values():
                for s in ss[:1] if ss[0] in ctx[:1] else ss[:1]:
                    tree = lr.parse(s, nt, toks, ops)
                    if tree is None:
                        rep.bad('expression meaning', nt, '/repo/' + YY, 0, 'the expression %r is refused (scanned as %s)' % (txt, ' '.join(x for x, _ in toks)), key='parse|' + txt); continue
                    v = M.of(tree)
                    got = v.get('val')
                    if got is None and len(v) == 1: got = list(v.values())[0]
                    if got is None or opaque_terms(got) or any(a[0] in ('get', 'out') for a in atoms(got)):
                        rep.skip('expression meaning', nt, '/repo/' + YY, action_line(g, tree), 'value of %r not followed: %s' % (txt, show(got) if got else None)); continue
                    rep.check(same(got, want), 'expression meaning', nt, '/repo/' + YY, action_line(g, tree), 'the expression %r evaluates to %s instead of %s' % (txt, nice(got), nice(want)), key='value|' + txt)

def same(a, b):
    return a == b or sub(a, b) == num(0) or normal(a) == normal(b)

def normal(t):
    """Renormalised value: powers through pow()."""
    if not isinstance(t, tuple): return t
    return subst(t, {})

def nice(t):
    s = show(t)
    return re.sub(r"<numeral <text (\w+)>>", r'\1', s).replace("'", '')

def numeral_dfa(s, c):
    """Unsigned decimal numerals: digits [. digits] [e [sign] digits]."""
    d, e = c.isdigit(), c in 'eE'
    if s == 'start': return 'int' if d else 'dot0' if c == '.' else None
    if s == 'int': return 'int' if d else 'frac' if c == '.' else 'e' if e else None
    if s == 'dot0': return 'frac' if d else None
    if s == 'frac': return 'frac' if d else 'e' if e else None
    if s == 'e': return 'x1' if d else 'es' if c in '+-' else None
    if s == 'es': return 'x1' if d else None
    if s == 'x1': return 'x2' if d else None
    if s == 'x2': return 'x3' if d else None
    return None
FINAL = {'int', 'frac', 'x1', 'x2', 'x3'}

def returned(L, act):
    o = L.outcome(act)
    return {int(v[1]) if is_num(v) else None for g, v in o['rets']}

def numerals(rep):
    g, L = grammar(), lexer()
    names = token_names(g)
    num_tok = int(g.terminals['NUM']['tok'])
    F = '/repo/src/lexer.ll'
    # (a) every unsigned numeral is one NUM token
    seen, todo = set(), [('start', L.start('expression'), '')]
    fails = []
    while todo:
        r, s, w = todo.pop(0)
        if (r, s) in seen: continue
        seen.add((r, s))
        if r in FINAL and (not L.accept(s) or returned(L, L.accept(s)) != {num_tok}): fails.append(w); continue
        for c in '0123456789.eE+-':
            r2 = numeral_dfa(r, c)
            if r2 is None: continue
            s2 = L.step(s, c) if not (w and L.final(s)) else None
            if s2 is None:
                # the scanner stops early: some numeral through here is split
                if r2 in FINAL: fails.append(w + c)
                else: fails.append(w + c + ('5' if r2 != 'e' else '5'))
                continue
            todo.append((r2, s2, w + c))
    rep.check(not fails, 'numerals', 'scanner', F, 0, 'the numeral %r is not scanned as one number' % (fails[0] if fails else ''), key='numeral')
    for _ in range(max(0, len(seen) - 1)): rep.ok('numerals')
    # (b) an operator character is a token of its own, whatever follows
    for c in '+-*/^()':
        a, n = L.scan(c, 'expression')
        want = "'%s'" % c
        got = {names.get(x) for x in returned(L, a)} if n else set()
        rep.check(got == {want}, 'operators', 'scanner', F, L.outcome(a)['line'] if n else 0, 'the operator %s is scanned as %s' % (c, sorted(map(str, got))), key='operator|' + c)
        s = L.step(L.start('expression'), c)
        longer, seen2, todo2 = None, set(), [(s, c)] if s is not None and not L.final(s) else []
        while todo2 and longer is None:
            s, w = todo2.pop(0)
            if s in seen2: continue
            seen2.add(s)
            for d in L.chars:
                s2 = L.step(s, d)
                if s2 is None: continue
                if L.accept(s2): longer = w + d; break
                if not L.final(s2): todo2.append((s2, w + d))
        rep.check(longer is None, 'operators', 'scanner', F, 0, 'the operator %s is swallowed when followed without a space, as in %r' % (c, longer), key='operator-joined|' + c)
    # (c) whatever is scanned as a number has only characters of a number
    seen, todo, bad = set(), [(L.start('expression'), '')], None
    while todo and bad is None:
        s, w = todo.pop(0)
        if s in seen or (w and L.final(s)): continue
        seen.add(s)
        for c in L.chars:
            s2 = L.step(s, c)
            if s2 is None: continue
            a = L.accept(s2)
            if a and num_tok in returned(L, a) and c not in '0123456789.eE+-': bad = w + c; break
            todo.append((s2, w + c))
    rep.check(bad is None, 'numerals', 'scanner', F, 0, 'the text %r is scanned as a number' % bad, key='numeral-chars')

def find_calls(E, names): return [e for e in E.events if e.kind == 'call' and e.fn.replace('std::', '') in names]

def conversion(rep):
    """Text becomes a number in full, or not at all."""
    g = grammar()
    for q in g.prods.values():
        if 'NUM' not in q.rhs or q.body is None: continue
        E = g.action(q)
        k = q.rhs.index('NUM') + 1
        fn, F = 'action of "%s: %s"' % (q.lhs, ' '.join(q.rhs)), '/repo/' + YY
        calls = find_calls(E, ('strtod', 'strtoll', 'strtol', 'strtof', 'strtold', 'atof', 'atoi', 'atol', 'atoll', 'stod', 'stoll', 'stol', 'stoi'))
        if len(calls) != 1:
            rep.skip('conversion', fn, F, q.line, 'number conversion not found'); continue
        c = calls[0]
        short = c.fn.replace('std::', '')
        text = subst_loc(c.args[0], {})
        txt = g.rename(q, c.args[0])
        me = ('init', ('fld', ('sym', k), 'sval'))
        neg_ = "'-'" in q.rhs
        isint = any(l[0] == 'fld' and root(l) == YYVAL and l[-1] == 'ival' for l in E.final.env)
        if short.startswith('sto'):
            rep.ok('conversion', fn, F, q.line); continue
        ok = txt == me or (neg_ and contains(txt, lambda x: x == me))
        rep.check(ok, 'conversion', fn, F, c.line, 'the number is not converted from its own text but from %s' % show(txt), key='text|' + q.lhs)
        if short in ('atof', 'atoi', 'atol', 'atoll'):
            rep.bad('conversion', fn, F, c.line, '%s cannot report an invalid number' % short, key='atof|' + q.lhs); continue
        want = ('strtoll', 'strtol') if isint else ('strtod', 'strtold')
        rep.check(short in want, 'conversion', fn, F, c.line, 'a %s is converted by %s' % ('whole number' if isint else 'number', short), key='converter|' + q.lhs)
        if isint and len(c.args) > 2: rep.check(c.args[2] == num(10), 'conversion', fn, F, c.line, 'number base %s' % show(c.args[2]), key='base|' + q.lhs)
        # value
        vals = [v for l, v in E.final.env.items() if root(l) == YYVAL]
        gu = list(E.final.guard)
        got = [v for v in vals]
        r = c.result
        exact = got and all(settle(v, units(land(*gu))) == r if v[0] == 'ite' else v in (r, neg(r) if neg_ and txt == me else r) for v in got)
        if not exact and got and all(not contains(v, lambda x: x == r) for v in got): rep.bad('conversion', fn, F, q.line, 'the value is not the converted number', key='value|' + q.lhs)
        elif not exact and got: rep.skip('conversion', fn, F, q.line, 'value not followed')
        else: rep.ok('conversion', fn, F, q.line)
        # success implies everything was consumed and in range
        end = ('out', r, 1)
        ends = [a for a in atoms(land(*gu)) if a == end]
        some = implies(gu, lnot(cmp('==', end, c.args[0], False))) or implies(gu, lnot(cmp('==', sub(end, c.args[0]), num(0), False)))
        rep.check(some, 'conversion', fn, F, c.line, 'text without digits is accepted as a number', key='nodigits|' + q.lhs)
        tail = ('init', ('deref', end))
        full = implies(gu, cmp('==', tail, num(0), True)) or implies(gu, cmp('==', ('init', ('elem', ('deref', end), num(0))), num(0), True))
        if isint: rep.check(full, 'conversion', fn, F, c.line, 'a number is accepted although only its beginning was converted (SAMPLES: 1e3 becomes 1)', key='trailing|' + q.lhs)
        errs = [a for a in atoms(land(*gu)) if a[0] == 'init' and a[1][0] == 'deref' and a[1][1][0] == 'ret' and '__errno_location' in str(a[1][1])]
        rng = any(implies(gu, lnot(cmp('==', a, num(34), True))) for a in errs)
        rep.check(rng, 'conversion', fn, F, c.line, 'a number out of range is accepted', key='erange|' + q.lhs)
        i = E.events.index(c)
        cleared = [e for e in E.events[:i] if e.kind == 'store' and '__errno_location' in str(e.loc) and e.value == num(0)]
        rep.check(bool(cleared), 'conversion', fn, F, c.line, 'errno is not cleared before the conversion, so an earlier error refuses a valid number', key='errno|' + q.lhs)

def pairs(n, out):
    """(text, function) pairs in constant tables and calls."""
    if not isinstance(n, dict):
        if isinstance(n, list):
            for x in n: pairs(x, out)
        return
    if n.get('k') in ('InitList', 'Call', 'Ctor', 'OpCall', 'Bin'):
        strs = [x for x in walk(n) if x.get('k') == 'Str' and isinstance(x.get('v'), str)]
        fns = [x for x in walk(n) if x.get('k') == 'Ref' and x.get('dk') == 'fn' and 'double (double)' in x.get('t', '')]
        fns += [x for x in walk(n) if x.get('k') == 'Lambda']
        if len(strs) == 1 and len(fns) == 1 and (n.get('k') != 'Call' or True):
            out.append((strs[0]['v'], fns[0], n.get('l', 0))); return
    for v in n.values():
        if isinstance(v, (dict, list)): pairs(v, out)

def function_of(p, n):
    """The library function a reference denotes, through wrappers returning it."""
    if n.get('k') == 'Lambda': return None
    name = n.get('n', '').split('::')[-1]
    f = p.fns.get(n.get('id'))
    if f is not None and 'body' in f:
        E = analyse(f)
        v = E.value
        if v and v[0] == 'call' and len(v[2]) == 1 and v[2][0] == ('init', ('parm', f['params'][0]['n'])): return v[1]
        return None
    return name

def table(rep):
    p = program()
    F = '/repo/src/calc.cpp'
    out = []
    for f in p.fns.values():
        if 'symrec' in f['q'] and 'body' in f:
            pairs(f['body'], out)
            for i in f.get('inits', []): pairs(i.get('e', {}), out)
    for v in p.vars.values():
        if v.get('f', v.get('file', '')).endswith(('calc.cpp', 'calc.h')) and 'e' in v: pairs(v['e'], out)
    if not out:
        rep.skip('function table', 'symrec', F, 0, 'function table not recognised'); return
    seen = {}
    for name, ref, line in out:
        fn = function_of(p, ref)
        if name in seen: continue          # emplace keeps the first
        seen[name] = fn
        if fn is None: rep.skip('function table', name, F, line, 'not followed'); continue
        if name in FUNCTIONS: rep.check(fn == FUNCTIONS[name], 'function table', 'symrec::symrec', F, line, 'the function %s evaluates %s' % (name, fn), key=name)
    if len(seen) >= 5:
        for n in FUNCTIONS: rep.check(n in seen, 'function table', 'symrec::symrec', F, 0, 'the documented function %s is missing' % n, key='missing|' + n)
    # symbols are what their type says
    g = grammar()
    tok = {n: int(g.terminals[n]['tok']) for n in ('FNCT', 'VAR') if n in g.terminals}
    for f in p.q('MaRC::sym_entry::sym_entry'):
        if f.get('copymove') or not f['params'] or 'body' not in f: continue
        E = analyse(f)
        ty = [v for l, v in E.final.env.items() if l[0] == 'fld' and l[2] == 'type']
        kind = 'FNCT' if '(' in f['params'][0]['t'] else 'VAR'
        if ty and is_num(ty[0]) and kind in tok: rep.check(int(ty[0][1]) == tok[kind], 'symbol type', f['q'], F, f['line'], 'a %s symbol is scanned as another kind of token' % kind, key=kind)

def lookup(rep):
    g, L, p = grammar(), lexer(), program()
    F = '/repo/src/lexer.ll'
    names = token_names(g)
    for w in list(FUNCTIONS) + ['foo', 'pi', 'x1']:
        a, n = L.scan(w + ('(' if w in FUNCTIONS else '\n'), 'expression')
        if not rep.check(n == len(w), 'symbol lookup', 'scanner', F, 0, 'the name %r is not scanned as a whole' % w, key='name|' + w): continue
        o = L.outcome(a)
        E = o['E']
        gets = [e for e in E.events if e.kind == 'call' and 'getsym' in e.fn]
        if len(gets) != 1:
            toks = {names.get(x) for x in returned(L, a)}
            rep.check(not toks & {'FNCT', 'VAR', 'NUM'}, 'symbol lookup', 'scanner', F, o['line'], 'the name %r is accepted without being looked up' % w, key='nolookup|' + w) if None not in toks else rep.skip('symbol lookup', 'scanner', F, o['line'], 'lookup not recognised'); continue
        e = gets[0]
        text = [x for x in E.events if x.kind == 'call' and x.fn == 'yyget_text']
        if e.args and e.args[0][0] == 'ret': rep.check('yyget_text' in str(e.args[0]), 'symbol lookup', 'scanner', F, o['line'], 'the name looked up is not the text scanned', key='text')
        for gu, v in o['rets']:
            gu = list(gu)
            null = implies(gu, lnot(has(e.result)))
            some = implies(gu, has(e.result))
            if is_num(v):
                t = names.get(int(v[1]))
                used = any(t in q.rhs for q in g.prods.values() if q.useful)
                if null: rep.check(not used, 'symbol lookup', 'scanner', F, o['line'], 'an undefined name is accepted as %s' % t, key='undefined')
                elif t in ('FNCT', 'VAR'): rep.check(some, 'symbol lookup', 'scanner', F, o['line'], 'a name is accepted as %s without having been found' % t, key='unfound')
            elif v == ('init', ('fld', ('deref', e.result), 'type')):
                rep.check(some, 'symbol lookup', 'scanner', F, o['line'], 'an undefined name is used as a symbol', key='null')
                st = [x for x in E.events if x.kind == 'store' and x.loc[0] == 'fld' and x.loc[2] == 'tptr']
                if st: rep.check(st[-1].value == e.result, 'symbol lookup', 'scanner', F, o['line'], 'the parser is handed another symbol than the one found', key='tptr')
                else: rep.bad('symbol lookup', 'scanner', F, o['line'], 'the symbol found is not handed to the parser', key='tptr')
    for f in p.q('MaRC::symrec::getsym'):
        if 'body' not in f: continue
        E = analyse(f)
        for gu, v in cases(E.value):
            if v == NULL or v == ('null',): rep.ok('symbol lookup', f['q'], f['file'], f['line']); continue
            if v[0] == 'addr' and 'find' in str(v): 
                # only when found
                rep.check(bool(gu), 'symbol lookup', f['q'], f['file'], f['line'], 'the entry is used without having been found', key='getsym')

def variables(rep):
    g = grammar()
    F = '/repo/' + YY
    for q in g.prods.values():
        if 'VAR' not in q.rhs or q.body is None: continue
        M = Runner(sentences())
        syms = [{'val': ('v', 'a%d' % i), 'tptr': ('v', 't%d' % i)} for i in range(len(q.rhs))]
        out = M.act(q, syms)
        k = q.rhs.index('VAR')
        loc = ('fld', ('fld', ('deref', ('v', 't%d' % k)), 'value'), 'var')
        v = out.get('val')
        if v is None: continue
        if len(q.rhs) == 1: rep.check(v == ('init', loc), 'variables', 'expr', F, q.line, 'a variable evaluates to %s' % show(v), key='var')
        elif len(q.rhs) == 3: rep.check(v == ('v', 'a2'), 'variables', 'expr', F, q.line, 'an assignment evaluates to %s' % show(v), key='assign')
