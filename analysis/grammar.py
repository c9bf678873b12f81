"""The grammar of input files: productions (from bison's own report on the
current parse.yy) and, for each, what its semantic action does, analysed on the
type-checked syntax tree of the generated parser."""
import os, xml.etree.ElementTree as ET
from rulelib import *

class Production:
    """no, lhs, rhs; E = analysis of the action or None (default $$ = $1)."""

YYVSP, YYVAL = ('parm', 'yyvsp'), ('parm', 'yyval')

def sym(k): return ('sym', k)          # location of $k

class Grammar:
    def __init__(self):
        p = self.p = program()
        root = ET.parse(os.path.join(p.gen, 'parse.xml')).getroot()
        g = root.find('grammar')
        self.prods = {}
        for r in g.find('rules'):
            q = Production()
            q.no = int(r.get('number')); q.lhs = r.find('lhs').text
            q.rhs = [s.text for s in r.find('rhs') if s.tag == 'symbol']
            q.useful = r.get('usefulness') == 'useful'
            q.E, q.line, q.body, q.file = None, 0, None, '/repo/src/parse.yy'
            q.prec = r.get('percent_prec')
            self.prods[q.no] = q
        self.terminals, self.nonterminals, self.names = {}, set(), {}
        for t in g.find('terminals'):
            self.terminals[t.get('name')] = dict(prec=t.get('prec'), assoc=t.get('assoc'), n=t.get('symbol-number'), tok=t.get('token-number'))
        for t in g.find('nonterminals'): self.nonterminals.add(t.get('name'))
        self.types = {}
        self.load_actions()
    def load_actions(self):
        p = self.p
        fs = [f for f in p.fns.values() if f['q'] == 'yyparse' and 'body' in f]
        if len(fs) != 1: raise AnalysisError('generated parser not found')
        f = self.fn = fs[0]
        sws = [n for n in walk(f['body']) if n.get('k') == 'Switch']
        sw = max(sws, key=lambda s: len(s['body'].get('c', [])))
        cur, ids = None, {}
        for n in walk(f['body']):
            if n.get('k') == 'Ref' and n.get('n', '') in ('yyparse::yyvsp', 'yyparse::yyval', 'yyparse::yylloc', 'yyparse::yylsp'): ids[n['n'][9:]] = n['id']
        self.ids = ids
        bodies = {}
        for st in sw['body']['c']:
            while st is not None and st.get('k') in ('Case', 'Default'):
                cur = None if st['k'] == 'Default' else int(st['v'].get('cv')) - 1
                st = st['s']
            if cur is not None and st is not None: bodies.setdefault(cur, []).append(st)
        away = {x['q'] for x in p.fns.values() if not (x['file'].endswith('parse.yy') or x['file'].endswith('parse.cc'))}
        self.away = away | NOISE
        for no, b in bodies.items():
            q = self.prods.get(no)
            if q is None: raise AnalysisError('action of unknown production %d' % no)
            stm = []
            for s in b:
                if s.get('k') == 'Break': break
                stm.append(s)
            q.body = stm
            q.line = next((n['l'] for s in stm for n in walk(s) if n.get('f', '').endswith('parse.yy')), 0)
        if len(bodies) < 20: raise AnalysisError('parser actions not found')
    def action(self, q):
        """Analysis of the action of production q, $k as ('init', ('sym', k)...)."""
        if q.body is None: return None
        if q.E is not None: return q.E
        f = dict(self.fn)
        f['params'] = [dict(n='yyvsp', id=self.ids.get('yyvsp', '?'), t='YYSTYPE *'), dict(n='yyval', id=self.ids.get('yyval', '?'), t='YYSTYPE &')] + [x for x in self.fn['params']] + [dict(n='yylloc', id=self.ids.get('yylloc', '?'), t='YYLTYPE &')]
        f['body'] = dict(k='Block', c=q.body, l=q.line)
        f['line'] = q.line
        ev = Evaluator(opaque=self.away)
        E = ev.run(f)
        q.E = E
        return E
    def rename(self, q, t):
        """yyvsp[k - n] -> $k."""
        n = len(q.rhs)
        m = {}
        for a in list(all_locs(t)):
            if a[0] == 'elem' and a[1] == ('deref', ('init', YYVSP)) and is_num(a[2]): m[a] = ('sym', int(a[2][1]) + n)
        return subst_loc(t, m)
    def of(self, lhs): return [q for q in self.prods.values() if q.lhs == lhs]

def all_locs(t, out=None):
    if out is None: out = set()
    if isinstance(t, tuple):
        if t and t[0] == 'elem': out.add(t)
        for x in t: all_locs(x, out)
    return out

def subst_loc(t, m):
    if isinstance(t, tuple):
        if t in m: return m[t]
        return tuple(subst_loc(x, m) for x in t)
    return t

_g = None
def grammar():
    global _g
    if _g is None: _g = Grammar()
    return _g
