"""Value-number terms, their algebraic normal form, and guard formulas.

Terms are tuples:
  ('n', Fraction)            number            ('fc', 'inf'|'-inf'|'nan')
  ('k', name)                named constant    ('s', text)  ('b', bool)  ('null',)
  ('p', ((mono, coeff),...)) polynomial, mono = ((term, exponent), ...)
  ('call', name, args)       uninterpreted pure function
  ('cmp', op, d, int)        d op 0, op in '<' '<=' '=='
  ('!', x) ('and', xs) ('or', xs) ('ite', c, a, b)
  anything else              opaque atom
"""
from fractions import Fraction
import math

TRUE, FALSE, NULL = ('b', True), ('b', False), ('null',)

_key = {}
def key(t):
    k = _key.get(t)
    if k is None:
        k = repr(t); _key[t] = k
    return k

def num(x):
    if isinstance(x, float):
        if math.isnan(x): return ('fc', 'nan')
        if math.isinf(x): return ('fc', 'inf' if x > 0 else '-inf')
        return pi_const(x)
    return ('n', Fraction(x))

def pi_const(x):
    """Floating constants that are small rational multiples of pi (or 1/pi)
    become exact multiples of the symbol pi; others become decimal rationals."""
    if x == 0: return ('n', Fraction(0))
    for inv in (False, True):
        r = x * math.pi if inv else x / math.pi
        if abs(r) > 1e-7 and abs(r) < 1e7:
            fr = Fraction(r).limit_denominator(2 * 648000)
            if fr != 0 and abs(float(fr) - r) <= 4e-16 * abs(r) * 4 and (fr.numerator * fr.denominator) != 0:
                # only accept simple ones: integers, 1/n, n/2^k, with tiny height
                if min(abs(fr.numerator), fr.denominator) <= 4:
                    p = ('k', 'pi')
                    return mul(('n', fr), power(p, -1) if inv else p)
    # exact decimal when the shortest repr says so
    return ('n', Fraction(repr(x)))

def to_poly(t):
    if t[0] == 'n': return {(): t[1]} if t[1] else {}
    if t[0] == 'p': return dict(t[1])
    return {((t, 1),): Fraction(1)}

def from_poly(d):
    d = {m: c for m, c in d.items() if c}
    if not d: return ('n', Fraction(0))
    if len(d) == 1:
        (m, c), = d.items()
        if m == (): return ('n', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
    return ('p', tuple(sorted(d.items(), key=lambda mc: key(mc[0]))))

def add(a, b):
    if a[0] == 'fc' or b[0] == 'fc': return ('call', 'add', (a, b))
    if a[0] == 'ite' and b[0] in ('n', 'k', 'p') : return ite(a[1], add(a[2], b), add(a[3], b))
    if b[0] == 'ite' and a[0] in ('n', 'k', 'p') and False: return ite(b[1], add(a, b[2]), add(a, b[3]))
    d = to_poly(a)
    for m, c in to_poly(b).items():
        d[m] = d.get(m, 0) + c
    return from_poly(d)

def _mm(m1, m2):
    d = dict(m1)
    for t, e in m2:
        d[t] = d.get(t, 0) + e
        if d[t] == 0: del d[t]
    return tuple(sorted(d.items(), key=lambda te: key(te[0])))

def mul(a, b):
    if a[0] == 'fc' or b[0] == 'fc': return ('call', 'mul', (a, b))
    A, B = to_poly(a), to_poly(b)
    if len(A) * len(B) > 400: return ('call', 'mul', tuple(sorted((a, b), key=key)))
    for X, Y, x in ((A, B, a), (B, A, b)):
        if len(X) > 1 and len(Y) == 1:
            # cancel (p)^-1 * p
            (m, c), = Y.items()
            n = primitive(x)
            for i, (t, e) in enumerate(m):
                if t == n[0] and e < 0:
                    m2 = _mm(m, ((t, 1),))
                    return from_poly({m2: c * n[1]})
    d = {}
    for m1, c1 in A.items():
        for m2, c2 in B.items():
            m = _mm(m1, m2); d[m] = d.get(m, 0) + c1 * c2
    # expand positive powers of polynomial bases
    r = {}
    for m, c in d.items():
        bad = [(t, e) for t, e in m if t[0] == 'p' and e > 0]
        if bad:
            rest = from_poly({tuple(te for te in m if te not in bad): c})
            for t, e in bad:
                for _ in range(e): rest = mul(rest, t)
            for m2, c2 in to_poly(rest).items(): r[m2] = r.get(m2, 0) + c2
        else: r[m] = r.get(m, 0) + c
    return from_poly(r)

def primitive(t):
    """(primitive part, content) with leading coefficient 1."""
    d = to_poly(t)
    ms = sorted(d, key=key)
    c = d[ms[-1]]
    return from_poly({m: x / c for m, x in d.items()}), c

def power(t, e):
    if e == 0: return num(1)
    if t[0] == 'n':
        if t[1] == 0 and e < 0: return ('call', 'div', (num(1), t))
        return ('n', t[1] ** e)
    if t[0] == 'p':
        d = to_poly(t)
        if len(d) == 1:
            (m, c), = d.items()
            return from_poly({tuple((x, y * e) for x, y in m): c ** e})
        if e < 0:
            p, c = primitive(t)
            return from_poly({((p, e),): c ** e})
        r = num(1)
        for _ in range(e): r = mul(r, t)
        return r
    return from_poly({((t, e),): Fraction(1)})

def neg(a): return mul(num(-1), a)
def sub(a, b): return add(a, neg(b))
def div(a, b):
    if b[0] == 'fc' or a[0] == 'fc': return ('call', 'div', (a, b))
    return mul(a, power(b, -1))

def is_num(t): return t[0] == 'n'
def const(t): return t[1] if t[0] == 'n' else None

PI = ('k', 'pi')
def approx(t):
    """Numeric value of a constant term (pi included) or None."""
    if t[0] == 'n': return float(t[1]) if abs(t[1]) < 10**300 else None
    if t[0] == 'fc': return float(t[1])
    if t == PI: return math.pi
    if t[0] == 'p':
        s = 0.0
        for m, c in t[1]:
            try: v = float(c)
            except OverflowError: return None
            for x, e in m:
                a = approx(x)
                if a is None: return None
                v *= a ** e
            s += v
        return s
    return None

# ---------------------------------------------------------------- booleans
def lnot(x):
    if x == TRUE: return FALSE
    if x == FALSE: return TRUE
    if x[0] == '!': return x[1]
    if x[0] == 'and': return lor(*[lnot(y) for y in x[1]])
    if x[0] == 'or': return land(*[lnot(y) for y in x[1]])
    if x[0] == 'cmp' and x[3] and x[1] == '<':      # integers: !(d<0) == -d-1<0
        return ('cmp', '<', sub(neg(x[2]), num(1)), True)
    if x[0] == 'ite': return ite(x[1], lnot(x[2]), lnot(x[3]))
    return ('!', x)

def _flat(op, xs):
    out = []
    for x in xs:
        if x[0] == op: out += list(x[1])
        else: out.append(x)
    return out

def land(*xs):
    s = []
    for x in _flat('and', xs):
        if x == FALSE: return FALSE
        if x == TRUE or x in s: continue
        if lnot(x) in s: return FALSE
        s.append(x)
    if not s: return TRUE
    if len(s) == 1: return s[0]
    r = _absorb(s, 'or', lor)
    if r is not None: return land(*r)
    return ('and', tuple(s))

def _absorb(s, dual, build):
    """Unit absorption: literals of s simplify its compound members."""
    if not any(x[0] == dual for x in s): return None
    lit = {x for x in s if x[0] != dual}
    if not lit: return None
    out, changed = [], False
    for x in s:
        if x[0] == dual:
            if any(y in lit for y in x[1]): changed = True; continue
            k = [y for y in x[1] if lnot(y) not in lit]
            if len(k) != len(x[1]): changed = True; x = build(*k)
        out.append(x)
    return out if changed else None

def lor(*xs):
    s = []
    for x in _flat('or', xs):
        if x == TRUE: return TRUE
        if x == FALSE or x in s: continue
        if lnot(x) in s: return TRUE
        s.append(x)
    if not s: return FALSE
    if len(s) == 1: return s[0]
    r = _absorb(s, 'and', land)
    if r is not None: return lor(*r)
    # (a & c) | (!a & c) == c ; a | (!a & c) == a | c
    if len(s) == 2:
        a, b = (set(x[1]) if x[0] == 'and' else {x} for x in s)
        da, db = a - b, b - a
        if not da: return s[0]
        if not db: return s[1]
        if len(da) == 1 and len(db) == 1:
            (u,), (v,) = da, db
            if lnot(u) == v: return land(*[x for x in (s[0][1] if s[0][0] == 'and' else (s[0],)) if x in b])
        if len(da) == 1:
            (u,) = da
            if lnot(u) in db: return lor(s[0], land(*[x for x in (s[1][1] if s[1][0] == 'and' else (s[1],)) if x != lnot(u)]))
        if len(db) == 1:
            (u,) = db
            if lnot(u) in da: return lor(land(*[x for x in (s[0][1] if s[0][0] == 'and' else (s[0],)) if x != lnot(u)]), s[1])
    return ('or', tuple(s))

def is_bool(t): return t[0] in ('b', 'cmp', '!', 'and', 'or', 'has', 'isnan') or (t[0] == 'ite' and is_bool(t[2]) and is_bool(t[3]))

def ite(c, a, b):
    if c == TRUE: return a
    if c == FALSE: return b
    if a == b: return a
    if a == TRUE and b == FALSE: return c
    if a == FALSE and b == TRUE: return lnot(c)
    if a == TRUE and is_bool(b): return lor(c, b)
    if b == FALSE and is_bool(a): return land(c, a)
    if a == FALSE and is_bool(b): return land(lnot(c), b)
    if b == TRUE and is_bool(a): return lor(lnot(c), a)
    if a[0] == 'ite' and a[1] == c: a = a[2]
    if b[0] == 'ite' and b[1] == c: b = b[3]
    if a == b: return a
    if c[0] == '!': return ('ite', c[1], b, a)
    return ('ite', c, a, b)

def cmp(op, a, b, isint):
    """a op b, op in < <= == > >= !="""
    if op == '>': return cmp('<', b, a, isint)
    if op == '>=': return cmp('<=', b, a, isint)
    if op == '!=': return lnot(cmp('==', a, b, isint))
    for x, y in ((a, b), (b, a)):
        if y[0] == 'null' and op == '==': return lnot(has(x))
    if op == '==' and (is_bool(a) or is_bool(b)):
        if a == TRUE: return b
        if b == TRUE: return a
        if a == FALSE: return lnot(b)
        if b == FALSE: return lnot(a)
    if op == '==' and (a[0] in ('s', 'enum') or b[0] in ('s', 'enum')):
        if a == b: return TRUE
        return ('cmp', '==', ('pair',) + tuple(sorted((a, b), key=key)), False)
    if a[0] == 'ite' and b[0] in ('n', 'p', 'k', 'fc', 'enum'): return ite(a[1], cmp(op, a[2], b, isint), cmp(op, a[3], b, isint))
    if b[0] == 'ite' and a[0] in ('n', 'p', 'k', 'fc', 'enum'): return ite(b[1], cmp(op, a, b[2], isint), cmp(op, a, b[3], isint))
    if a[0] == 'fc' or b[0] == 'fc':
        va, vb = approx(a), approx(b)
        if va is not None and vb is not None:
            return ('b', {'<': va < vb, '<=': va <= vb, '==': va == vb}[op])
        return ('cmpfc', op, a, b)
    d = sub(a, b)
    if d[0] == 'n':
        return ('b', {'<': d[1] < 0, '<=': d[1] <= 0, '==': d[1] == 0}[op])
    v = approx(d)
    if v is not None:
        return ('b', {'<': v < 0, '<=': v <= 0, '==': v == 0}[op])
    if op == '==':
        p, c = primitive(d)
        return ('cmp', '==', p, isint)
    if isint and op == '<=': return ('cmp', '<', sub(d, num(1)), True)
    # scale so that the content is 1 in absolute value
    p, c = primitive(d)
    if not isint: d = p if c > 0 else neg(p)
    return ('cmp', op, d, isint)

def has(x):
    if x[0] in ('some', 'new', 'addr', 'lam', 's', 'fnref'): return TRUE
    if x[0] in ('none', 'null'): return FALSE
    if x[0] == 'ite': return ite(x[1], has(x[2]), has(x[3]))
    return ('has', x)

def val(x):
    if x[0] == 'some': return x[1]
    if x[0] == 'ite':
        a, b = val(x[2]), val(x[3])
        if x[2][0] == 'none': return b
        if x[3][0] == 'none': return a
        return ite(x[1], a, b)
    return ('val', x)

def subst(t, m, memo=None):
    """Replace sub-terms by the mapping m, renormalising."""
    if memo is None: memo = {}
    if t in m: return m[t]
    if t in memo: return memo[t]
    k = t[0] if t else None
    if k == 'p':
        r = num(0)
        for mono, c in t[1]:
            x = ('n', c)
            for b, e in mono: x = mul(x, power(subst(b, m, memo), e))
            r = add(r, x)
    elif k == '!': r = lnot(subst(t[1], m, memo))
    elif k == 'and': r = land(*[subst(x, m, memo) for x in t[1]])
    elif k == 'or': r = lor(*[subst(x, m, memo) for x in t[1]])
    elif k == 'ite': r = ite(*[subst(x, m, memo) for x in t[1:]])
    elif k == 'cmp':
        if t[2][0] == 'pair': r = cmp('==', subst(t[2][1], m, memo), subst(t[2][2], m, memo), False)
        else: r = cmp(t[1], subst(t[2], m, memo), num(0), t[3])
    elif k == 'has': r = has(subst(t[1], m, memo))
    elif k == 'val': r = val(subst(t[1], m, memo))
    elif isinstance(t, tuple):
        r = tuple(subst(x, m, memo) if isinstance(x, tuple) else x for x in t)
        if r != t and r and r[0] == 'call': r = call(r[1], r[2])
        if r != t and t in NONNEG and r[0] not in ('n', 'p', 'ite'): NONNEG.add(r)
    else: r = t
    memo[t] = r
    return r

def call(name, args):
    args = tuple(args)
    if name in ('abs', 'fabs'):
        x = args[0]
        if x[0] == 'n': return ('n', abs(x[1]))
        if x[0] == 'p':
            p, c = primitive(x)
            if c != 1: return mul(('n', abs(c)), call('abs', (p,)))
        return ('call', 'abs', args)
    if name == 'sqrt' and args[0][0] == 'n':
        f = args[0][1]
        n, d = math.isqrt(abs(f.numerator)), math.isqrt(f.denominator)
        if f >= 0 and n * n == f.numerator and d * d == f.denominator: return ('n', Fraction(n, d))
    if name == 'pow' and args[1][0] == 'n' and args[1][1].denominator == 1 and abs(args[1][1]) <= 4:
        return power(args[0], int(args[1][1]))
    if name in ('min', 'max') :
        if args[0] == args[1]: return args[0]
        args = tuple(sorted(args, key=key))
    if name in ('cos',) and args[0][0] == 'p':      # even
        p, c = primitive(args[0])
        if c < 0: return call('cos', (neg(args[0]),))
    if name in ('sin', 'tan', 'asin', 'atan') and args[0][0] == 'p':   # odd
        p, c = primitive(args[0])
        if c < 0: return neg(call(name, (neg(args[0]),)))
    return ('call', name, args)

def atoms(t, out=None):
    """All sub-terms that are not structural."""
    if out is None: out = set()
    if not isinstance(t, tuple) or not t: return out
    k = t[0]
    if k == 'p':
        for mono, c in t[1]:
            for b, e in mono: atoms(b, out)
    elif k in ('and', 'or'):
        for x in t[1]: atoms(x, out)
    elif k in ('!', 'ite'):
        for x in t[1:]: atoms(x, out)
    elif k == 'cmp': atoms(t[2], out)
    elif k == 'call':
        out.add(t)
        for x in t[2]: atoms(x, out)
    elif k not in ('n', 'fc', 's', 'b'):
        out.add(t)
        for x in t[1:]:
            if isinstance(x, tuple): atoms(x, out)
    return out

def contains(t, pred, memo=None):
    if memo is None: memo = {}
    if t in memo: return memo[t]
    r = False
    if isinstance(t, tuple):
        if t and isinstance(t[0], str) and pred(t): r = True
        else:
            for x in t:
                if isinstance(x, tuple) and contains(x, pred, memo): r = True; break
    memo[t] = r
    return r

# ------------------------------------------------- implication of guards
def literals(f, out):
    if f[0] in ('and', 'or'):
        for x in f[1]: literals(x, out)
    elif f[0] == '!': literals(f[1], out)
    elif f[0] == 'ite':
        for x in f[1:]: literals(x, out)
    elif f[0] != 'b': out.setdefault(f, 0); out[f] += 1

def assign(f, atom, v):
    """f with atom := v."""
    if f == atom: return TRUE if v else FALSE
    if f[0] == 'and': return land(*[assign(x, atom, v) for x in f[1]])
    if f[0] == 'or': return lor(*[assign(x, atom, v) for x in f[1]])
    if f[0] == '!': return lnot(assign(f[1], atom, v))
    if f[0] == 'ite': return ite(*[assign(x, atom, v) for x in f[1:]])
    return f

def units(f):
    """Literals that must hold for f to hold."""
    out, todo, done = [], f, set()
    while True:
        new = [x for x in (todo[1] if todo[0] == 'and' else (todo,)) if x[0] not in ('and', 'or', 'ite', 'b') and x not in done]
        if not new: return out
        for u in new:
            done.add(u)
            a, v = (u[1], False) if u[0] == '!' else (u, True)
            if a[0] in ('and', 'or', 'ite'): continue
            out.append((a, v)); todo = land(assign(todo, a, v), u)
            if todo == FALSE: return out

def settle(t, lits):
    """t with the conditions of its gates decided by the literals."""
    if not isinstance(t, tuple): return t
    if t[0] == 'ite':
        c = t[1]
        for a, v in lits: c = assign(c, a, v)
        if c == TRUE: return settle(t[2], lits)
        if c == FALSE: return settle(t[3], lits)
        return ite(c, settle(t[2], lits), settle(t[3], lits))
    return tuple(settle(x, lits) for x in t) if contains(t, lambda x: x[0] == 'ite') else t

def linear(d):
    """(tuple of (mono, coeff) without the constant, constant) of a poly."""
    p = to_poly(d)
    c = p.pop((), Fraction(0))
    return p, c

NONNEG = set()      # terms known to be >= 0 (unsigned quantities); filled by the evaluator

class Inconsistent(Exception): pass

def nonnan_parts(p, out):
    """NaN propagates through arithmetic: if the sum compares true, no part is NaN."""
    for m in p:
        for x, e in m:
            if x in out: continue
            out.add(x)
            if x[0] == 'p': nonnan_parts(to_poly(x), out)
            elif x[0] == 'call' and x[1] in ('abs', 'sin', 'cos', 'tan', 'atan', 'asin', 'acos', 'sqrt', 'floor', 'ceil', 'round', 'log', 'exp', 'atan2'):
                for y in x[2]: nonnan_parts(to_poly(y), out)

def consistent(lits, nonneg=None, nan_safe=False):
    """Is the conjunction of (atom, bool) literals satisfiable as far as the
    linear order of the compared quantities is concerned?  Floating-point
    comparisons involving NaN are false, so a negated comparison constrains
    nothing unless its operand is known not to be a NaN."""
    cons = []       # (poly dict, const, strict): sum <(=) 0
    eqs = []
    notnan = set()
    isn = set()
    for a, v in lits:
        if a[0] == 'isnan': (isn if v else notnan).add(a[1])
        if a[0] == 'isfinite' and v: notnan.add(a[1])
    pend = []
    for a, v in lits:
        if a[0] != 'cmp' or a[2][0] == 'pair': continue
        op, d, isint = a[1], a[2], a[3]
        p, c = linear(d)
        if not isint and v and any(m and x in isn for m in p for x, e in m): return False
        if v:
            if not isint: nonnan_parts(p, notnan)
            if op == '<': cons.append((p, c + (1 if isint else 0), not isint))
            elif op == '<=': cons.append((p, c, False))
            else:
                eqs.append((p, c))
        else: pend.append((op, p, c, isint))
    def safe(p):
        def ok(x):
            if x in notnan or x[0] in ('n', 'k'): return True
            if x[0] == 'p': return safe(to_poly(x))
            return x[0] == 'call' and x[1] in ('abs', 'floor', 'ceil', 'round', 'atan', 'atan2') and all(safe(to_poly(y)) for y in x[2])
        return nan_safe or all(ok(x) for m in p for x, e in m)
    neqs = []
    for op, p, c, isint in pend:
        if not isint and op != '==' and not safe(p): continue
        if op == '<': cons.append(({m: -x for m, x in p.items()}, -c, False))     # d >= 0
        elif op == '<=': cons.append(({m: -x for m, x in p.items()}, -c, True))
        else: neqs.append((p, c))
    for p, c in eqs:
        cons.append((p, c, False)); cons.append(({m: -x for m, x in p.items()}, -c, False))
    nn = NONNEG if nonneg is None else nonneg
    vs = set(m for p, c, s in cons for m in p)
    for m in vs:
        if len(m) == 1 and m[0][1] == 1 and (m[0][0] in nn or (m[0][0][0] == 'call' and m[0][0][1] in ('abs', 'sqrt'))):
            cons.append(({m: Fraction(-1)}, Fraction(0), False))
        elif all(x in nn for x, e in m):
            cons.append(({m: Fraction(-1)}, Fraction(0), False))
    for m in list(vs):
        # |x| >= x and |x| >= -x
        if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'call' and m[0][0][1] == 'abs':
            x = m[0][0][2][0]
            px, cx = linear(x)
            for sg in (1, -1):
                q = {k: sg * v for k, v in px.items()}; q[m] = q.get(m, 0) - 1
                cons.append((q, sg * cx, False))
    if not fm(cons): return False
    for p, c in neqs:
        if not p and c == 0: return False
        # d != 0 : inconsistent only if both d<0 and d>0 are
        if not fm(cons + [(p, c, True)]) and not fm(cons + [({m: -x for m, x in p.items()}, -c, True)]): return False
    return True

def fm(cons):
    """Fourier-Motzkin projection; False when empty."""
    cons = [({m: x for m, x in p.items() if x}, c, s) for p, c, s in cons]
    # substitute pi by its value through interval bounds
    PIM = ((PI, 1),)
    if any(PIM in p for p, c, s in cons):
        cons += [({PIM: Fraction(1)}, Fraction(-31415926535898, 10**13), False), ({PIM: Fraction(-1)}, Fraction(31415926535897, 10**13), False)]
    for _ in range(40):
        live = []
        for p, c, s in cons:
            if not p:
                if c > 0 or (c == 0 and s): return False
            else: live.append((p, c, s))
        cons = live
        if not cons: return True
        cnt = {}
        for p, c, s in cons:
            for m, x in p.items():
                u = cnt.setdefault(m, [0, 0]); u[x > 0] += 1
        m = min(cnt, key=lambda k: (cnt[k][0] * cnt[k][1] - cnt[k][0] - cnt[k][1]))
        up = [k for k in cons if k[0].get(m, 0) > 0]; lo = [k for k in cons if k[0].get(m, 0) < 0]
        rest = [k for k in cons if not k[0].get(m, 0)]
        if len(up) * len(lo) > 600: return True
        seen = set()
        for a in up:
            for b in lo:
                fa, fb = -b[0][m], a[0][m]
                p = {}
                for k, x in a[0].items(): p[k] = p.get(k, 0) + fa * x
                for k, x in b[0].items(): p[k] = p.get(k, 0) + fb * x
                p = {k: x for k, x in p.items() if x}
                c = fa * a[1] + fb * b[1]
                s = a[2] or b[2]
                g = max([abs(x) for x in p.values()] or [1])
                p = {k: x / g for k, x in p.items()}; c = c / g
                kk = (frozenset(p.items()), c, s)
                if kk in seen: continue
                seen.add(kk); rest.append((p, c, s))
        cons = rest
        if len(cons) > 1500: return True
    return True

def satisfiable(f, lits=(), nan_safe=False, budget=None):
    if budget is None: budget = [4000]
    if f == FALSE: return False
    # unit literals first
    if f[0] == 'and':
        us = [x for x in f[1] if x[0] not in ('and', 'or', 'ite')]
        if us:
            g, L = f, list(lits)
            for u in us:
                a, v = (u[1], False) if u[0] == '!' else (u, True)
                if u[0] == '!' and a[0] in ('and', 'or', 'ite'): continue
                g = assign(g, a, v); L.append((a, v))
            if g == FALSE: return False
            if g == f: pass
            else:
                if not consistent(L, nan_safe=nan_safe): return False
                return satisfiable(g, tuple(L), nan_safe, budget)
    if f == TRUE: return consistent(list(lits), nan_safe=nan_safe)
    budget[0] -= 1
    if budget[0] < 0: return True
    ls = {}
    literals(f, ls)
    a = max(ls, key=lambda x: (ls[x], key(x)))
    for v in (True, False):
        g = assign(f, a, v)
        L = tuple(lits) + ((a, v),)
        if g == FALSE or not consistent(list(L), nan_safe=nan_safe): continue
        if satisfiable(g, L, nan_safe, budget): return True
    return False

def implies(guards, goal, nan_safe=False):
    """Do the guards (a formula or a sequence of them) imply goal?"""
    if isinstance(guards, (list, tuple)) and (not guards or isinstance(guards[0], tuple)):
        g = land(*guards)
    else: g = guards
    return not satisfiable(land(g, lnot(goal)), nan_safe=nan_safe)

def positive(f, y, isint=True):
    """0 <= y, from the guards f; products of non-negative factors included."""
    if implies(f, cmp('<=', num(0), y, isint)): return True
    return y[0] == 'p' and all(c > 0 and all(b in NONNEG or implies(f, cmp('<=', num(0), b, isint)) for b, e in m) for m, c in y[1])

def show(t, depth=6):
    if not isinstance(t, tuple) or not t: return str(t)
    if depth == 0: return '...'
    s = lambda x: show(x, depth - 1)
    k = t[0]
    if k == 'n':
        if t[1].denominator < 1000: return str(t[1]) if abs(t[1]) < 10 ** 30 else '%.6e' % float(t[1]) if abs(t[1]) < 10 ** 300 else 'huge'
        try: return repr(float(t[1]))
        except OverflowError: return 'huge'
    if k in ('k', 'fc'): return t[1]
    if k == 's': return repr(t[1])
    if k == 'b': return str(t[1]).lower()
    if k == 'p':
        out = []
        for m, c in t[1]:
            f = [s(b) + ('' if e == 1 else '^%d' % e) for b, e in m]
            cs = show(('n', c))
            if f and c == 1: out.append('*'.join(f))
            elif f and c == -1: out.append('-' + '*'.join(f))
            else: out.append('*'.join([cs] + f))
        return '(' + ' + '.join(out).replace('+ -', '- ') + ')'
    if k == 'call': return '%s(%s)' % (t[1], ', '.join(s(x) for x in t[2]))
    if k == 'cmp':
        if t[2][0] == 'pair': return '%s == %s' % (s(t[2][1]), s(t[2][2]))
        p, c = linear(t[2])
        return '%s %s %s' % (s(from_poly(p)), t[1], s(('n', -c)))
    if k == '!': return '!(%s)' % s(t[1])
    if k in ('and', 'or'): return '(' + (' && ' if k == 'and' else ' || ').join(s(x) for x in t[1]) + ')'
    if k == 'ite': return '(%s ? %s : %s)' % (s(t[1]), s(t[2]), s(t[3]))
    if k == 'has': return 'has(%s)' % s(t[1])
    if k == 'val': return '*%s' % s(t[1])
    if k == 'init': return s(t[1])
    if k == 'var': return str(t[-1])
    if k == 'fld': return '%s.%s' % (s(t[1]), t[2])
    if k == 'deref': return '*%s' % s(t[1])
    if k == 'v': return str(t[1])
    if k == 'elem': return '%s[%s]' % (s(t[1]), s(t[2]))
    return '<' + ' '.join(s(x) if isinstance(x, tuple) else str(x) for x in t) + '>'
