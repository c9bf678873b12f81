"""The scanner: flex's own automaton for the current lexer.ll, and what each
rule's action does, analysed on the type-checked syntax tree of the generated
scanner."""
import os, re
from rulelib import *

class Lexer:
    def __init__(self):
        p = self.p = program()
        src = open(os.path.join(p.gen, 'lexer.cc')).read()
        T = {}
        for n in ('accept', 'ec', 'meta', 'base', 'def', 'nxt', 'chk'):
            m = re.search(r'yy_%s\[\d+\]\s*=\s*\{([^}]*)\}' % n, src)
            if not m: raise AnalysisError('scanner table %s not found' % n)
            T[n] = [int(x) for x in m.group(1).replace('\n', ' ').split(',')]
        self.T = T
        self.lim = int(re.search(r'yy_current_state >= (\d+)', src).group(1))
        self.jam = int(re.search(r'yy_base\[yy_current_state\] != (\d+)', src).group(1))
        self.sc = {'INITIAL': 0}
        a = src.index('#define INITIAL 0')
        for m in re.finditer(r'#define (\w+) (\d+)\n', src[a:a + 2000]): self.sc[m.group(1)] = int(m.group(2))
        self.chars = [chr(c) for c in range(1, 127)]
        self.memo = {}
        fs = [f for f in p.fns.values() if f['q'] == 'yylex' and 'body' in f]
        if len(fs) != 1: raise AnalysisError('generated scanner not found')
        self.fn = fs[0]
        self.load_actions()
    def start(self, sc): return 1 + 2 * self.sc[sc]
    def step(self, s, c):
        """Next automaton state, None when the scanner stops."""
        k = (s, c)
        if k in self.memo: return self.memo[k]
        T, y = self.T, self.T['ec'][ord(c)]
        while T['chk'][T['base'][s] + y] != s:
            s = T['def'][s]
            if s >= self.lim: y = T['meta'][y]
        s = T['nxt'][T['base'][s] + y]
        # the state the jam is recorded in still accepts what was read before
        r = None if T['base'][s] == self.jam and not self.T['accept'][s] else s
        self.memo[k] = r
        return r
    def final(self, s): return self.T['base'][s] == self.jam
    def accept(self, s): return self.T['accept'][s]
    def scan(self, text, sc):
        """(action, length) of the longest match at the start of text."""
        s, best = self.start(sc), (0, 0)
        for i, c in enumerate(text):
            s = self.step(s, c)
            if s is None: break
            if self.accept(s): best = (self.accept(s), i + 1)
            if self.final(s): break
        return best
    def words(self, sc, limit=4000, width=24):
        """Keyword-like lexemes (capitals, digits, _) and their actions."""
        out, todo = {}, [('', self.start(sc))]
        alphabet = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789'
        while todo and len(out) < limit:
            w, s = todo.pop()
            if len(w) >= width or (w and self.final(s)): continue
            for c in alphabet:
                n = self.step(s, c)
                if n is None: continue
                if self.accept(n): out[w + c] = self.accept(n)
                todo.append((w + c, n))
        return out
    def load_actions(self):
        sws = [n for n in walk(self.fn['body']) if n.get('k') == 'Switch']
        sw = max(sws, key=lambda s: sum(1 for x in walk(s['body']) if x.get('k') == 'Case'))
        self.actions, cur = {}, []
        for st in sw['body']['c']:
            while st is not None and st.get('k') in ('Case', 'Default'):
                v = None if st['k'] == 'Default' else int(st['v'].get('cv'))
                if cur and self.actions.get(cur[-1]): cur = []
                cur = (cur if cur and not self.actions.get(cur[-1]) else []) + [v]
                if v is not None: self.actions.setdefault(v, [])
                st = st['s']
            if st is None: continue
            for v in cur:
                if v is not None: self.actions.setdefault(v, []).append(st)
        self.outs = {}
    def outcome(self, act):
        """What scanning rule `act` does: dict(E, returns=[(guard, value)], begin=..., falls=bool)."""
        if act in self.outs: return self.outs[act]
        body = []
        for s in self.actions.get(act, []):
            if s.get('k') == 'Break': break
            body.append(s)
        f = dict(self.fn)
        f['body'] = dict(k='Block', c=body, l=self.fn['line'])
        ev = Evaluator(opaque={x['q'] for x in self.p.fns.values() if not x['file'].endswith('lexer.ll')} | NOISE)
        E = ev.run(f)
        begin = None
        for l, v in list(E.final.env.items()):
            pass
        stores = [e for e in E.events if e.kind == 'store' and e.loc[0] == 'fld' and e.loc[2] == 'yy_start']
        if stores and is_num(stores[-1].value): begin = (int(stores[-1].value[1]) - 1) // 2
        o = dict(E=E, begin=begin, stores=stores, rets=[(e.guard, e.value) for e in E.events if e.kind == 'return'], line=next((n['l'] for s in body for n in walk(s) if n.get('f', '').endswith('lexer.ll')), 0))
        self.outs[act] = o
        return o

_l = None
def lexer():
    global _l
    if _l is None: _l = Lexer()
    return _l
