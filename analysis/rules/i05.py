"""I05  Text read from input files is neither leaked nor used after release.

An ownership (typestate) analysis of every semantic action that receives text:
each piece of text is held, owned by a local that releases it, or released; the
states are followed over every path of the action, through helper functions.
The scanner must hand over a fresh copy of the text, and the parser must release
text it discards after a syntax error."""
from sentences import *
from lexer import lexer

MINIMUM = {'released once': 5, 'fresh copy': 2}
F = '/repo/src/parse.yy'
FREE = ('free', 'std::free', 'cfree')
OWNER = re.compile(r'(const )?std::(unique_ptr|shared_ptr)<(const )?char(\[\])?(, (.*))?>$')

def unwrap(n):
    while isinstance(n, dict) and n.get('k') in ('Cast', 'Paren', 'Bind', 'Temp') and isinstance(n.get('e'), dict): n = n['e']
    return n

class Bad(Exception): pass

class Text:
    """Follows one piece of text through a function body."""
    def __init__(self, p, match, q=None, depth=0):
        self.p, self.match, self.q, self.depth = p, match, q, depth
        self.problems = []      # (line, message, key)
        self.exits = []         # status at each exit
        self.escaped = []
        self.used = False
        self.passed = False
    # state: (status, aliases, owners); owners: ((var id, scope depth), ...)
    def problem(self, l, m, k):
        if (k, m) not in [(x[2], x[1]) for x in self.problems]: self.problems.append((l, m, k))
    def alias(self, n, st):
        """Does this expression denote the text's address?"""
        n = unwrap(n)
        if not isinstance(n, dict): return False
        if self.match(n): return True
        k = n.get('k')
        if k == 'Ref': return n.get('id') in st['al']
        if k == 'Call' and n.get('fn', '').endswith(('unique_ptr::get', 'shared_ptr::get')) and n.get('obj'): return self.owner(n['obj'], st)
        if k == 'Cond': return self.alias(n.get('a'), st) or self.alias(n.get('b'), st)
        if k == 'Ctor' and n.get('fn', '').startswith('std::basic_string_view') and n.get('args'): return self.alias(n['args'][0], st)
        return False
    def owner(self, n, st):
        n = unwrap(n)
        return isinstance(n, dict) and n.get('k') == 'Ref' and n.get('id') in st['ow']
    def release(self, st, l, how):
        if st['s'] == 'freed': self.problem(l, 'the text is released twice (%s)' % how, 'double')
        elif st['s'] == 'owned' and how == 'free': self.problem(l, 'the text is released although a local variable releases it too', 'double')
        elif st['s'] == 'moved': self.problem(l, 'the text is released although it was handed on', 'double')
        st['s'] = 'freed'
    def touch(self, st, l):
        self.used = True
        if st['s'] == 'freed': self.problem(l, 'the text is used after its release', 'use')
    def deleter_ok(self, t):
        m = OWNER.match(t)
        if not m: return True
        d = m.group(6)
        if d is None or d.startswith('std::default_delete'): return False
        if '(' in d: return True
        fs = [f for f in self.p.fns.values() if f['q'].endswith('operator()') and (f.get('cls') == d or f.get('clsq') == d or f['q'] == d + '::operator()') and 'body' in f]
        if not fs: return True
        return any(n.get('k') == 'Call' and n.get('fn') in FREE for f in fs for n in walk(f['body']))
    def expr(self, n, st):
        n0, n = n, unwrap(n)
        if isinstance(n, list):
            for x in n: self.expr(x, st)
            return
        if not isinstance(n, dict): return
        k, l = n.get('k'), n.get('l', 0)
        if self.alias(n, st):
            if not self.match(n) and k == 'Call': self.expr(n.get('obj'), st) if False else None
            self.touch(st, l); return
        if k in ('Call', 'Ctor', 'OpCall'):
            fn, args = n.get('fn', ''), n.get('args') or []
            obj = n.get('obj')
            if fn in FREE and args and self.alias(args[0], st): self.release(st, l, 'free'); return
            if obj is not None and self.owner(obj, st):
                m = fn.rsplit('::', 1)[-1]
                if m == 'release':
                    st['ow'] = {}; st['s'] = 'held' if st['s'] == 'owned' else st['s']; return
                if m == 'reset':
                    for a in args: self.expr(a, st)
                    self.release(st, l, 'reset'); st['ow'] = {}; return
                self.touch(st, l)
                for a in args: self.expr(a, st)
                return
            if k == 'Ctor' and OWNER.match(n.get('t', '')) and args and self.alias(args[0], st):
                # a temporary owner: released at the end of the statement
                self.own(st, n.get('t', ''), l)
                st['tmp'] = True
                return
            if (fn.endswith('::operator delete') or fn == 'operator delete') and args and self.alias(args[0], st):
                self.problem(l, 'the text was allocated by strdup but is released by delete', 'dealloc'); self.release(st, l, 'delete'); return
            if fn.endswith('basic_string_view::operator=') and args and self.alias(args[-1], st):
                self.touch(st, l)
                u = unwrap(obj if obj is not None else args[0])
                if isinstance(u, dict) and u.get('k') == 'Ref' and u.get('dk') in ('var', 'parm'): st['al'].add(u['id'])
                else: self.problem(l, 'a pointer to the text is kept beyond the statement that consumes it', 'escape')
                return
            al = [i for i, a in enumerate(args) if self.alias(a, st)]
            for a in ([obj] if obj is not None else []) + list(args):
                if not self.alias(a, st): self.expr(a, st)
            for i in al:
                self.touch(st, l)
                if fn.startswith(('std::', 'fmt::')) or k == 'Ctor' and fn.startswith('std::'): continue
                f = self.p.fns.get(n.get('id'))
                if f is not None and 'body' in f and self.depth < 4 and i < len(f['params']): self.into(f, i, st, l)
            return
        if k in ('New', 'NewArr'): pass
        if k == 'Delete' and self.alias(n.get('e'), st):
            self.problem(l, 'the text was allocated by strdup but is released by delete', 'dealloc'); self.release(st, l, 'delete'); return
        if k in ('Assign', 'Bin') and n.get('op', '=') == '=':
            L, R = n.get('a') or n.get('lhs'), n.get('b') or n.get('rhs')
            if R is not None and self.alias(R, st):
                self.touch(st, l)
                u = unwrap(L)
                if u.get('k') == 'Ref' and u.get('dk') in ('var', 'parm'): st['al'].add(u['id']); return
                t = u.get('t', '')
                if t.rstrip().endswith('*') or 'string_view' in t:
                    if self.yyval(u): st['s'] = 'moved'; self.passed = True
                    else:
                        self.escaped.append(l)
                        self.problem(l, 'a pointer to the text is kept beyond the statement that consumes it', 'escape')
                return
        for key, v in n.items():
            if key in ('k', 't', 'f', 'l', 'id', 'n', 'q'): continue
            if isinstance(v, (dict, list)): self.expr(v, st)
    def yyval(self, u):
        return u.get('k') == 'Mem' and u.get('n') == 'sval' and any(x.get('n') == 'yyparse::yyval' for x in walk(u))
    def own(self, st, t, l):
        if st['s'] == 'owned': self.problem(l, 'the text is owned by two variables', 'double')
        elif st['s'] == 'freed': self.problem(l, 'the text is taken over after its release', 'use')
        if not self.deleter_ok(t): self.problem(l, 'the text was allocated by strdup but is released by delete', 'dealloc')
        st['s'] = 'owned'
    def into(self, f, i, st, l):
        """The text is passed to parameter i of a function of the program."""
        par = f['params'][i]
        pid = par['id']
        s = Text(self.p, lambda n: n.get('k') == 'Ref' and n.get('id') == pid, None, self.depth + 1)
        for ini in f.get('inits', []):
            e = unwrap(ini.get('e') or {})
            if isinstance(e, dict) and s.alias(e, dict(al=set(), ow={}, s='held')) and (ini.get('ft', '').rstrip().endswith('*') or 'string_view' in ini.get('ft', '')):
                self.problem(l, '%s keeps a pointer to the text beyond the statement that consumes it' % f['q'], 'escape')
        ends = s.run(f['body'])
        for a, m, k in s.problems: self.problem(l, '%s: %s' % (f['q'], m), k)
        if ends and all(e == 'freed' for e in ends): self.release(st, l, 'free')
        elif any(e == 'freed' for e in ends): st['s'] = 'maybe'
    def run(self, body):
        st = dict(s='held', al=set(), ow={}, tmp=False)
        outs = self.block(body, [st], 0)
        for s in outs: self.exits.append(s['s'])
        return self.exits
    def leave(self, st, depth):
        """Destroy the owners declared at this depth or deeper."""
        for o, d in list(st['ow'].items()):
            if d >= depth:
                del st['ow'][o]
                if st['s'] == 'owned' and not st['ow']: st['s'] = 'freed'
                # its address may not be used through plain aliases any more
    def copy(self, st): return dict(s=st['s'], al=set(st['al']), ow=dict(st['ow']), tmp=False)
    def merge(self, xs):
        out = []
        for x in xs:
            if x not in out: out.append(x)
        return out[:16]
    def stmt_end(self, st):
        if st.get('tmp'):
            st['tmp'] = False
            if st['s'] == 'owned' and not st['ow']: st['s'] = 'freed'
    def block(self, n, sts, depth):
        """All statements of a block; states after it (scope left)."""
        kids = n.get('c', []) if isinstance(n, dict) and n.get('k') == 'Block' else [n]
        for c in kids: sts = self.stmt(c, sts, depth + 1)
        for s in sts: self.leave(s, depth + 1)
        return self.merge(sts)
    def leave_fn(self, st):
        self.stmt_end(st); self.leave(st, 0); self.exits.append(st['s'])
    def stmt(self, n, sts, depth):
        if n is None or not sts: return sts
        k = n.get('k')
        if k == 'Block': return self.block(n, sts, depth)
        if k == 'Decl':
            for s in sts:
                for v in n.get('vars', []):
                    e = v.get('e')
                    u = unwrap(e) if e else None
                    t = v.get('t', '')
                    if u is None: continue
                    while isinstance(u, dict) and u.get('k') in ('InitList',) and len(u.get('c', u.get('args', [])) or []) == 1: u = unwrap((u.get('c') or u.get('args'))[0])
                    a = (u.get('args') or [None])[0] if isinstance(u, dict) and u.get('k') == 'Ctor' else u
                    if OWNER.match(t) and a is not None and (self.alias(a, s)):
                        self.own(s, t, n.get('l', v.get('l', 0))); s['ow'][v['id']] = depth; continue
                    if OWNER.match(t) and a is not None:
                        r = unwrap(a)
                        if isinstance(r, dict) and r.get('k') == 'Call' and r.get('fn', '') in ('std::move', 'std::forward') and self.owner((r.get('args') or [None])[0], s):
                            s['ow'] = {v['id']: depth}; continue
                        if isinstance(r, dict) and r.get('k') == 'Ctor' and OWNER.match(r.get('t', '')) and r.get('args') and self.alias(r['args'][0], s):
                            self.own(s, t, n.get('l', 0)); s['ow'][v['id']] = depth; continue
                    if self.alias(u, s) and (t.rstrip().rstrip('const').rstrip().endswith('*') or 'string_view' in t or t.startswith('auto') or t.endswith('&')):
                        self.touch(s, n.get('l', 0)); s['al'].add(v['id']); continue
                    self.expr(e, s)
                self.stmt_end(s)
            return sts
        if k == 'If':
            a, b = [], []
            for s in sts:
                if n.get('init'): self.stmt(n['init'], [s], depth)
                self.expr(n.get('cond') or n.get('c'), s)
                a.append(self.copy(s)); b.append(self.copy(s))
            th, el = n.get('then') or n.get('a') or n.get('s'), n.get('else') or n.get('b')
            a = self.block(th, a, depth) if th else a
            b = self.block(el, b, depth) if el else b
            return self.merge(a + b)
        if k in ('Goto', 'Return', 'Throw'):
            for s in sts:
                if n.get('e'): self.expr(n['e'], s)
                self.leave_fn(s)
            return []
        if k in ('For', 'While', 'Do', 'ForRange', 'RangeFor'):
            for s in sts:
                for key, v in n.items():
                    if key not in ('body', 's') and isinstance(v, (dict, list)) and key not in ('k',): self.expr(v, s)
            body = n.get('body') or n.get('s')
            more = self.block(body, [self.copy(s) for s in sts], depth) if body else []
            more2 = self.block(body, [self.copy(s) for s in more], depth) if body and more else []
            return self.merge(sts + more + more2)
        if k == 'Try':
            body = n.get('body') or n.get('b')
            start = [self.copy(s) for s in sts]
            out = self.block(body, sts, depth) if body else sts
            for h in n.get('handlers', n.get('c', [])) or []:
                if isinstance(h, dict): out = out + self.block(h.get('body') or h.get('s') or h, [self.copy(s) for s in start], depth)
            return self.merge(out)
        if k in ('Switch',):
            for s in sts: self.expr(n.get('cond') or n.get('e'), s)
            return self.merge(sts + self.block(n.get('body'), [self.copy(s) for s in sts], depth))
        if k in ('Case', 'Default', 'Label'): return self.stmt(n.get('s'), sts, depth)
        if k == 'Expr' or True:
            e = n.get('e', n)
            u = unwrap(e)
            thrown = isinstance(u, dict) and u.get('k') == 'Throw'
            for s in sts:
                self.expr(e, s); self.stmt_end(s)
                if thrown: self.leave_fn(s)
            return [] if thrown else sts

def check(rep):
    g = grammar()
    rep.part(actions, rep, g)
    rep.part(scanner, rep, g)
    rep.part(discarded, rep, g)

def text_symbols(g):
    """Terminals (and nonterminals) whose value is text."""
    out = {'NUM', '_STRING'} & set(g.terminals)
    for q in g.prods.values():
        if q.body is None: continue
        n = len(q.rhs)
        for st in q.body:
            for x in walk(st):
                if x.get('k') == 'Mem' and x.get('n') == 'sval':
                    i = index_of(x)
                    if i is not None and 0 <= i + n - 1 < n: out.add(q.rhs[i + n - 1])
    return out

def index_of(mem):
    b = unwrap(mem.get('b'))
    if isinstance(b, dict) and b.get('k') == 'Sub':
        a, i = unwrap(b.get('a')), unwrap(b.get('i'))
        if isinstance(a, dict) and a.get('n') == 'yyparse::yyvsp':
            if 'cv' in i: return int(i['cv'])
            if i.get('k') == 'Un' and 'e' in i and 'cv' in unwrap(i['e']): return -int(unwrap(i['e'])['cv'])
    return None

def actions(rep, g):
    p = g.p
    txt = text_symbols(g)
    for q in g.prods.values():
        if not q.useful: continue
        n = len(q.rhs)
        for k, s in enumerate(q.rhs):
            if s not in txt: continue
            name = 'action of "%s: %s"' % (q.lhs, ' '.join(q.rhs))
            key = '%s.%s' % (q.lhs, '_'.join(q.rhs))
            if q.body is None:
                if k == 0 and q.lhs in txt: rep.ok('released once', name, F, q.line)
                else: rep.bad('released once', name, F, q.line, 'the text of %s is never released' % s, key=key)
                continue
            want = k + 1 - n
            T = Text(p, lambda m: m.get('k') == 'Mem' and m.get('n') == 'sval' and index_of(m) == want, q)
            T.run(dict(k='Block', c=q.body))
            for l, m, kk in T.problems: rep.bad('released once' if kk in ('double', 'dealloc') else 'no use after release', name, F, l or q.line, m, key=key + '|' + kk)
            if not T.exits: rep.skip('released once', name, F, q.line, 'no path followed'); continue
            for e in T.exits:
                if e == 'maybe': rep.skip('released once', name, F, q.line, 'release depends on a helper'); continue
                rep.check(e in ('freed', 'moved'), 'released once', name, F, q.line, 'on some path the text of %s is not released' % s, key=key + '|leak')
            if not T.problems: rep.ok('no use after release', name, F, q.line)

def scanner(rep, g):
    L = lexer()
    txt = text_symbols(g)
    toks = {int(g.terminals[t]['tok']): t for t in txt if t in g.terminals}
    for a in sorted(x for x in L.actions if x):
        o = L.outcome(a)
        rets = {int(v[1]) for _, v in o['rets'] if is_num(v)}
        hit = rets & set(toks)
        if not hit: continue
        E = o['E']
        st = [e for e in E.events if e.kind == 'store' and e.loc[0] == 'fld' and e.loc[2] == 'sval']
        LF = '/repo/src/lexer.ll'
        if not st: rep.bad('fresh copy', 'scanner', LF, o['line'], 'the text of %s is not handed to the parser' % toks[hit.pop()], key='none|%s' % toks.get(list(rets)[0])); continue
        for e in st:
            v = e.value
            src = [c for c in E.events if c.kind == 'call' and c.result == v] if v[0] == 'ret' else []
            if src:
                n = src[0].fn.replace('std::', '')
                if n in ('yyget_text',): rep.bad('fresh copy', 'scanner', LF, o['line'], 'the parser is handed a pointer into the scanner\'s buffer', key='buffer|%s' % '/'.join(toks[h] for h in hit))
                else: rep.ok('fresh copy', 'scanner', LF, o['line'])
            elif contains(v, lambda x: isinstance(x, tuple) and len(x) > 2 and x[0] == 'ret' and x[2] == 'yyget_text') or 'yytext' in str(v): rep.bad('fresh copy', 'scanner', LF, o['line'], 'the parser is handed a pointer into the scanner\'s buffer', key='buffer|%s' % '/'.join(toks[h] for h in hit))
            elif v[0] == 'null' or v == NULL: rep.ok('fresh copy', 'scanner', LF, o['line'])
            else: rep.skip('fresh copy', 'scanner', LF, o['line'], show(v))
    # text is only allocated when it is handed over
    for a in sorted(x for x in L.actions if x):
        o = L.outcome(a)
        E = o['E']
        dup = [e for e in E.events if e.kind == 'call' and e.fn.replace('std::', '') in ('strdup', 'strndup')]
        rets = {int(v[1]) for _, v in o['rets'] if is_num(v)}
        stored = [e for e in E.events if e.kind == 'store' and e.loc[0] == 'fld' and e.loc[2] == 'sval']
        freed = [e for e in E.events if e.kind == 'call' and e.fn.replace('std::', '') == 'free']
        if dup and stored and not freed:
            rep.check(bool(rets) and rets <= set(toks), 'handed over', 'scanner', '/repo/src/lexer.ll', o['line'], 'text is copied for a token whose text the parser does not release', key='stray|%d' % a)

def discarded(rep, g):
    """After a syntax error the parser releases the text it discards."""
    p = g.p
    fs = [f for f in p.fns.values() if f['q'] == 'yydestruct' and 'body' in f]
    if not fs: rep.skip('discarded text', 'yydestruct', F, 0, 'not found'); return
    f = fs[0]
    rel = [n for n in walk(f['body']) if n.get('k') == 'Call' and n.get('fn') in FREE]
    sw = [n for n in walk(f['body']) if n.get('k') == 'Switch']
    got = set()
    for s in sw:
        cur, rels = [], {}
        for st in s['body'].get('c', []):
            fresh = False
            while st is not None and st.get('k') in ('Case', 'Default'):
                if not fresh and rels.get(tuple(cur)) is not None: cur = []
                fresh = True
                if st['k'] == 'Case': cur = cur + [int(st['v'].get('cv'))]
                st = st['s']
            if st is None: continue
            if st.get('k') == 'Break': cur = []; continue
            fr = [n for n in walk(st) if n.get('k') == 'Call' and n.get('fn') in FREE]
            if fr:
                for c in cur: got.add(c); 
                if len(fr) > 1: rep.bad('discarded text', 'yydestruct', F, fr[1].get('l', 0), 'discarded text is released twice', key='twice')
    for t in sorted(text_symbols(g)):
        if t not in g.terminals: continue
        rep.check(int(g.terminals[t]['n']) in got, 'discarded text', 'yydestruct', F, 0, 'the text of %s is not released when the parser discards it after an error' % t, key='discard|' + t)
