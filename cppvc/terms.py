"""Hash-consed term language used by the verification-condition generator.

Sorts: 'I' (mathematical integer), 'R' (mathematical real), 'B' (bool),
'A'+s (total map from integers to s), 'U...' (uninterpreted).

Numeric terms are kept in polynomial normal form, so that equality modulo
associativity / commutativity / distributivity is syntactic.  Binders are
locally nameless: `bv(k)` is a loose bound variable, terms handed to the
outside never contain loose bound variables.
"""
from fractions import Fraction
import itertools

_table = {}
_uid = itertools.count()


class T(object):
    __slots__ = ('op', 'args', 'data', 'sort', 'uid', 'loose', 'hasw', '__weakref__')

    def __repr__(self):
        return show(self)

    # arithmetic sugar -------------------------------------------------
    def __add__(self, o): return add(self, lift(o, self.sort))
    def __radd__(self, o): return add(lift(o, self.sort), self)
    def __sub__(self, o): return sub(self, lift(o, self.sort))
    def __rsub__(self, o): return sub(lift(o, self.sort), self)
    def __mul__(self, o): return mul(self, lift(o, self.sort))
    def __rmul__(self, o): return mul(lift(o, self.sort), self)
    def __truediv__(self, o): return rdiv(self, lift(o, self.sort))
    def __neg__(self): return neg(self)
    def __le__(self, o): return le(self, lift(o, self.sort))
    def __lt__(self, o): return lt(self, lift(o, self.sort))
    def __ge__(self, o): return le(lift(o, self.sort), self)
    def __gt__(self, o): return lt(lift(o, self.sort), self)
    def __getitem__(self, i): return select(self, lift(i, 'I'))


def lift(x, sort='I'):
    if isinstance(x, T):
        if sort == 'R' and x.sort == 'I':
            return to_real(x)
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if sort == 'R':
        return real(x)
    return integer(x)


def mk(op, args, data, sort, loose=None):
    key = (op, data, sort, tuple(a.uid for a in args))
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = tuple(args)
        t.data = data
        t.sort = sort
        t.uid = next(_uid)
        if loose is None:
            l = 0
            for a in args:
                if a.loose > l:
                    l = a.loose
            if op in BINDERS:
                # args[0] is the body, under `data` binders
                l = max(args[0].loose - BINDERS[op], 0)
                for a in args[1:]:
                    if a.loose > l:
                        l = a.loose
            t.loose = l
        else:
            t.loose = loose
        t.hasw = None
        _table[key] = t
    return t


BINDERS = {'lam': 1, 'sum': 1, 'forall': 1, 'exists': 1, 'pick': 1, 'pfx': 1, 'nth': 1, 'rmax': 1}
# lam  : args (body,)
# sum  : args (body, lo, hi)     sum_{bv0 in [lo,hi)} body      ('I' or 'R')
# pick : args (body, lo, hi)     some bv0 in [lo,hi) with body, if there is one (choice)
# forall/exists : args (body,)   over all integers


# --------------------------------------------------------------- constants
def integer(n):
    return poly_term({(): n} if n else {}, 'I')


def real(x):
    if isinstance(x, float):
        x = Fraction(x)
    if isinstance(x, int):
        x = Fraction(x)
    if isinstance(x, Fraction) and x.denominator == 1:
        x = int(x)
    return poly_term({(): x} if x else {}, 'R')


# --------------------------------------------------------------- polynomials
def poly(t):
    if t.op == 'poly':
        return dict(t.data_poly()) if False else _poly_cache(t)
    return {(t,): 1}


_pc = {}


def _poly_cache(t):
    return _pc[t.uid]


def _mono_key(m):
    return tuple(a.uid for a in m)


def poly_term(p, sort):
    """p: dict monomial(tuple of atoms sorted by uid) -> nonzero coef"""
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1:
            return m[0]
    items = sorted(((_mono_key(m), c) for m, c in p.items()), key=lambda x: x[0])
    atoms = []
    seen = set()
    for m in sorted(p, key=_mono_key):
        for a in m:
            if a.uid not in seen:
                seen.add(a.uid)
                atoms.append(a)
    t = mk('poly', atoms, tuple(items), sort)
    if t.uid not in _pc:
        _pc[t.uid] = p
    return t


def is_const(t):
    if t.op == 'poly':
        p = _pc[t.uid]
        return not p or (len(p) == 1 and () in p)
    return False


def const_val(t):
    p = _pc[t.uid]
    return p.get((), 0)


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        n = r.get(m, 0) + k * c
        if n == 0:
            r.pop(m, None)
        else:
            r[m] = n
    return r


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


def add(a, b):
    if a.sort != b.sort:
        a, b = lift(a, 'R'), lift(b, 'R')
    return poly_term(padd(poly(a), poly(b)), a.sort)


def sub(a, b):
    if a.sort != b.sort:
        a, b = lift(a, 'R'), lift(b, 'R')
    return poly_term(padd(poly(a), poly(b), -1), a.sort)


def neg(a):
    return poly_term({m: -c for m, c in poly(a).items()}, a.sort)


def scale(a, k):
    if k == 0:
        return poly_term({}, a.sort)
    return poly_term({m: _norm(c * k) for m, c in poly(a).items()}, a.sort)


def _mul_mono(m, n):
    return tuple(sorted(m + n, key=lambda a: a.uid))


def _cancel_inv(m):
    """x * inv(x) is NOT simplified (x may be zero)."""
    return m


def mul(a, b):
    if a.sort != b.sort:
        a, b = lift(a, 'R'), lift(b, 'R')
    # push multiplication through 0/1-valued ites: ite(c,x,0)*y = ite(c,x*y,0)
    pa, pb = poly(a), poly(b)
    r = {}
    for m, c in pa.items():
        for n, d in pb.items():
            k = _mul_mono(m, n)
            v = r.get(k, 0) + c * d
            if v == 0:
                r.pop(k, None)
            else:
                r[k] = _norm(v)
    # distribute over single ite factors whose else branch is 0
    out = {}
    extra = None
    for m, c in r.items():
        it = next((x for x in m if x.op == 'ite'), None)
        if it is not None and len(m) > 1:
            rest = list(m)
            rest.remove(it)
            rt = poly_term({tuple(rest): c}, a.sort)
            t = ite(it.args[0], mul(it.args[1], rt), mul(it.args[2], rt))
            extra = t if extra is None else add(extra, t)
        else:
            out[m] = c
    res = poly_term(out, a.sort)
    if extra is not None:
        res = add(res, extra)
    return res


def inv(b):
    """1/b with inv(0)=unspecified"""
    if is_const(b) and const_val(b) != 0:
        return real(Fraction(1) / Fraction(const_val(b)))
    p = poly(b)
    if len(p) == 1:
        (m, c), = p.items()
        if c != 1 and m:
            return scale(inv(poly_term({m: 1}, 'R')), Fraction(1) / Fraction(c))
    if b.op == 'ite':
        return ite(b.args[0], inv(b.args[1]), inv(b.args[2]))
    return mk('inv', (b,), None, 'R')


def rdiv(a, b):
    a, b = lift(a, 'R'), lift(b, 'R')
    return mul(a, inv(b))


def idiv(a, b):
    """C truncating division"""
    if is_const(a) and is_const(b) and const_val(b) != 0:
        x, y = const_val(a), const_val(b)
        q = abs(x) // abs(y)
        return integer(q if (x >= 0) == (y >= 0) else -q)
    if is_const(b) and const_val(b) == 1:
        return a
    return mk('idiv', (a, b), None, 'I')


def imod(a, b):
    if is_const(a) and is_const(b) and const_val(b) != 0:
        x, y = const_val(a), const_val(b)
        r = abs(x) % abs(y)
        return integer(r if x >= 0 else -r)
    return mk('imod', (a, b), None, 'I')


def fdiv(a, b):
    """floor division (spec-level; exact polynomial multiples are pulled out)"""
    if is_const(a) and is_const(b) and const_val(b) > 0:
        return integer(const_val(a) // const_val(b))
    if b.op != 'poly':
        p = poly(a)
        out, rest = {}, {}
        for m, c in p.items():
            if b in m:
                l = list(m)
                l.remove(b)
                out[tuple(l)] = out.get(tuple(l), 0) + c
            else:
                rest[m] = c
        if out:
            r = poly_term(rest, 'I')
            q = poly_term(out, 'I')
            return add(q, fdiv(r, b))
    if is_const(a) and const_val(a) == 0:
        return ZERO
    return mk('fdiv', (a, b), None, 'I')


def to_real(a):
    if a.sort == 'R':
        return a
    if a.sort == 'B':
        return ite(a, real(1), real(0))
    p = poly(a)
    r = {}
    for m, c in p.items():
        mm = tuple(sorted((mk('i2r', (x,), None, 'R') if x.op != 'ite' else x for x in m), key=lambda x: x.uid))
        r[mm] = r.get(mm, 0) + c
    if any(x.op == 'ite' for m in p for x in m):
        res = real(0)
        for m, c in p.items():
            t = real(c)
            for x in m:
                if x.op == 'ite':
                    t = mul(t, ite(x.args[0], to_real(x.args[1]), to_real(x.args[2])))
                else:
                    t = mul(t, mk('i2r', (x,), None, 'R'))
            res = add(res, t)
        return res
    return poly_term({m: c for m, c in r.items() if c}, 'R')


def trunc(a):
    if a.sort == "I": return a
    """double -> int conversion"""
    if is_const(a):
        v = const_val(a)
        q = abs(v).__floor__() if isinstance(v, Fraction) else abs(v)
        return integer(q if v >= 0 else -q)
    p = poly(a)
    if all(isinstance(c, int) for c in p.values()) and all(x.op == 'i2r' for m in p for x in m):
        return poly_term({tuple(sorted((x.args[0] for x in m), key=lambda t: t.uid)): c for m, c in p.items()}, 'I')
    return mk('trunc', (a,), None, 'I')


# --------------------------------------------------------------- booleans
def _boolc(v):
    return mk('true' if v else 'false', (), None, 'B')


TRUE = _boolc(True)
FALSE = _boolc(False)


def bnot(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    if a.op == 'le0' and a.args[0].sort == 'I':
        return le0(sub(integer(1), a.args[0]))
    if a.op == 'le0':
        return lt0(neg(a.args[0]))
    if a.op == 'lt0':
        return le0(neg(a.args[0]))
    if a.op == 'and':
        return bor(*[bnot(x) for x in a.args])
    if a.op == 'or':
        return band(*[bnot(x) for x in a.args])
    if a.op == 'forall':
        return mk('exists', (bnot(a.args[0]),), a.data, 'B')
    if a.op == 'exists':
        return mk('forall', (bnot(a.args[0]),), a.data, 'B')
    if a.op == 'ite':
        return ite(a.args[0], bnot(a.args[1]), bnot(a.args[2]))
    return mk('not', (a,), None, 'B')


def band(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is TRUE: continue
        if x is FALSE: return FALSE
        for y in (x.args if x.op == 'and' else (x,)):
            if y.uid not in seen:
                seen.add(y.uid)
                out.append(y)
    for y in out:
        if bnot_uid(y) in seen:
            return FALSE
    if any(y.op == 'not' and y.args[0].op == 'eq0' for y in out): out = _implied_ne(out)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    out.sort(key=lambda t: t.uid)
    return mk('and', out, None, 'B')


def _lin_key(p):
    """(uid of p without its constant, constant)"""
    d = dict(poly(p))
    c = d.pop((), 0)
    return poly_term(d, p.sort).uid, c


def _implied_ne(out):
    """drop p != k where a bound q <= 0 in the same conjunction already excludes it"""
    bounds = {}
    for y in out:
        if y.op == 'le0':
            u, c = _lin_key(y.args[0])
            if u not in bounds or c > bounds[u]: bounds[u] = c
    if not bounds: return out
    r = []
    for y in out:
        if y.op == 'not' and y.args[0].op == 'eq0' and y.args[0].args[0].sort in 'IR':
            q = y.args[0].args[0]
            hit = False
            for s in (q, neg(q)):
                u, d = _lin_key(s)
                if u in bounds and d < bounds[u]: hit = True      # p0 <= -c and p0 = -d > -c
            if hit: continue
        r.append(y)
    return r


def bnot_uid(y):
    return bnot(y).uid


def bor(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is FALSE: continue
        if x is TRUE: return TRUE
        for y in (x.args if x.op == 'or' else (x,)):
            if y.uid not in seen:
                seen.add(y.uid)
                out.append(y)
    for y in out:
        if bnot_uid(y) in seen:
            return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    out.sort(key=lambda t: t.uid)
    return mk('or', out, None, 'B')


def implies(a, b):
    return bor(bnot(a), b)


def iff(a, b):
    return eq(a, b)


def _signnorm(p):
    """normalise polynomial for ==0"""
    if not p: return p
    ks = sorted((m for m in p if m), key=_mono_key)
    if ks and p[ks[0]] < 0:
        p = {m: -c for m, c in p.items()}
    return p


def _gcdnorm(p, sort):
    if sort == 'R':
        ks = sorted((m for m in p if m), key=_mono_key)
        if ks:
            c = abs(p[ks[0]])
            if c != 1:
                p = {m: _norm(Fraction(v) / Fraction(c)) for m, v in p.items()}
        return p
    from math import gcd
    g = 0
    for m, c in p.items():
        if m: g = gcd(g, c)
    if g > 1:
        c0 = p.get((), 0)
        q = {m: c // g for m, c in p.items() if m}
        return q, c0, g
    return p


def le0(t):
    if is_const(t):
        return TRUE if const_val(t) <= 0 else FALSE
    if t.op == 'ite' and (is_const(t.args[1]) or is_const(t.args[2])):
        return ite(t.args[0], le0(t.args[1]), le0(t.args[2]))
    p = poly(t)
    n = _gcdnorm(p, t.sort)
    if isinstance(n, tuple):
        q, c0, g = n
        # q*g + c0 <= 0  <=> q <= floor(-c0/g)
        b = (-c0) // g
        q = dict(q)
        if b: q[()] = -b
        n = q
    return mk('le0', (poly_term(n, t.sort),), None, 'B')


def lt0(t):
    if is_const(t):
        return TRUE if const_val(t) < 0 else FALSE
    if t.sort == 'I':
        return le0(add(t, integer(1)))
    if t.op == 'ite' and (is_const(t.args[1]) or is_const(t.args[2])):
        return ite(t.args[0], lt0(t.args[1]), lt0(t.args[2]))
    n = _gcdnorm(poly(t), t.sort)
    return mk('lt0', (poly_term(n, t.sort),), None, 'B')


def le(a, b): return le0(sub(a, b))
def lt(a, b): return lt0(sub(a, b))


def eq(a, b):
    if a is b: return TRUE
    if a.sort in 'IR' and b.sort in 'IR':
        d = sub(a, b)
        if is_const(d):
            return TRUE if const_val(d) == 0 else FALSE
        if a.op == 'ite' and is_const(b) and (is_const(a.args[1]) or is_const(a.args[2])):
            return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
        if b.op == 'ite' and is_const(a) and (is_const(b.args[1]) or is_const(b.args[2])):
            return ite(b.args[0], eq(b.args[1], a), eq(b.args[2], a))
        p = _signnorm(poly(d))
        n = _gcdnorm(p, d.sort)
        if isinstance(n, tuple):
            q, c0, g = n
            if c0 % g: return FALSE
            q = dict(q)
            if c0: q[()] = c0 // g
            n = q
        return mk('eq0', (poly_term(n, d.sort),), None, 'B')
    if a.sort == 'B':
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return bnot(b)
        if b is FALSE: return bnot(a)
    if a.op == 'tok' and b.op == 'tok':
        return TRUE if a is b else FALSE
    if a.uid > b.uid: a, b = b, a
    return mk('eq', (a, b), None, 'B')


def ne(a, b): return bnot(eq(a, b))


def _assume_lit(t, c, val, memo):
    """replace syntactic occurrences of boolean c by val inside t (shallow, through ite/bool ops)"""
    if t.op == 'ite' and t.args[0] is c:
        return t.args[1] if val else t.args[2]
    return t


def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    nc = None
    if c.op == 'or' or c.op == 'lt0' or (c.op == 'le0' and c.args[0].sort == 'I' and bnot(c).uid < c.uid):
        nc = bnot(c)
        if nc.op != 'or' and (c.op != 'le0' or nc.uid < c.uid):
            c, a, b = nc, b, a
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    # nested: ite(c, ite(d,x,y), y) = ite(c&d, x, y)
    if a.op == 'ite' and a.args[2] is b:
        return ite(band(c, a.args[0]), a.args[1], b)
    if a.sort == 'B':
        if a is TRUE: return bor(c, b)
        if a is FALSE: return band(bnot(c), b)
        if b is TRUE: return bor(bnot(c), a)
        if b is FALSE: return band(c, a)
        return mk('ite', (c, a, b), None, 'B')
    if a.sort in 'IR':
        if c.op == 'eq0' and c.args[0].sort == a.sort:
            d = sub(a, b)               # ite(a == b, a, b) = b
            if d is c.args[0] or neg(d) is c.args[0]: return b
        pa, pb = poly(a), poly(b)
        if pa and pb:
            common = {m: k for m, k in pa.items() if pb.get(m) == k}
            if common:
                ra = {m: k for m, k in pa.items() if m not in common}
                rb = {m: k for m, k in pb.items() if m not in common}
                return add(poly_term(common, a.sort),
                           ite(c, poly_term(ra, a.sort), poly_term(rb, a.sort)))
        if len(pa) == 0 and len(pb) == 1:
            pass
        # factor out a common numeric sign: ite(c,-x,0) -> -ite(c,x,0)
        if not pb and pa:
            ks = sorted(pa, key=_mono_key)
            k0 = pa[ks[0]]
            if k0 != 1 and (a.sort == 'R' or k0 == -1):
                return scale(ite(c, scale(a, (Fraction(1) / Fraction(k0)) if a.sort == 'R' else k0), b), k0)
        if not pa and pb:
            ks = sorted(pb, key=_mono_key)
            k0 = pb[ks[0]]
            if k0 != 1 and (a.sort == 'R' or k0 == -1):
                return scale(ite(c, a, scale(b, (Fraction(1) / Fraction(k0)) if a.sort == 'R' else k0)), k0)
    return mk('ite', (c, a, b), None, a.sort)


# --------------------------------------------------------------- vars, UFs, tokens
_ctr = itertools.count()


def var(name, sort):
    return mk('var', (), name, sort)


def fresh(hint, sort):
    return var('%s!%d' % (hint, next(_ctr)), sort)


def app(name, args, sort):
    return mk('app', tuple(args), name, sort)


def tok(name, sort='U'):
    return mk('tok', (), name, sort)


def bv(k, sort='I'):
    return mk('bv', (), k, sort, loose=k + 1)


# --------------------------------------------------------------- arrays
def carr(vals, default, elem):
    """constant array: tuple of terms at 0..n-1, default elsewhere"""
    return mk('carr', tuple(vals) + (default,), None, 'A' + elem)


def default_of(sort):
    if sort == 'I': return integer(0)
    if sort == 'R': return real(0)
    if sort == 'B': return FALSE
    if sort[0] == 'A': return carr((), default_of(sort[1:]), sort[1:])
    return tok('default', sort)


def select(a, i):
    assert a.sort[0] == 'A', (a, a.sort)
    while True:
        if a.op == 'store':
            c = eq(a.args[1], i)
            if c is TRUE: return a.args[2]
            if c is FALSE:
                a = a.args[0]
                continue
            return ite(c, a.args[2], select(a.args[0], i))
        if a.op == 'lam':
            return open_(a.args[0], i)
        if a.op == 'ite':
            return ite(a.args[0], select(a.args[1], i), select(a.args[2], i))
        if a.op == 'carr':
            if is_const(i):
                k = const_val(i)
                if 0 <= k < len(a.args) - 1: return a.args[k]
                return a.args[-1]
            if len(a.args) <= 1: return a.args[-1]
            if len(a.args) <= 9:
                r = a.args[-1]
                for k in range(len(a.args) - 1):
                    r = ite(eq(i, integer(k)), a.args[k], r)
                return r
        if i.op == 'ite' and i.sort == 'I' and False:
            return ite(i.args[0], select(a, i.args[1]), select(a, i.args[2]))
        return mk('sel', (a, i), None, a.sort[1:])


def store(a, i, v):
    if a.op == 'carr' and is_const(i) and 0 <= const_val(i) < len(a.args) - 1:
        l = list(a.args)
        l[const_val(i)] = v
        return carr(l[:-1], l[-1], a.sort[1:])
    if a.op == 'store' and a.args[1] is i:
        a = a.args[0]
    if v.op == 'sel' and v.args[0] is a and v.args[1] is i:
        return a
    return mk('store', (a, i, v), None, a.sort)


# --------------------------------------------------------------- binders
def _close(t, v, depth, memo):
    """replace var v by bv(depth)"""
    if not occurs(v, t):
        return t
    k = (t.uid, depth)
    r = memo.get(k)
    if r is not None: return r
    if t is v:
        r = bv(depth, v.sort)
    else:
        b = BINDERS.get(t.op, 0)
        na = []
        for n, a in enumerate(t.args):
            na.append(_close(a, v, depth + b if n == 0 else depth, memo))
        r = rebuild(t, na)
    memo[k] = r
    return r


_fv = {}


def free_vars(t):
    r = _fv.get(t.uid)
    if r is None:
        if t.op == 'var':
            r = frozenset((t.uid,))
        else:
            if len(t.args) == 1:
                r = free_vars(t.args[0])
            else:
                r = frozenset()
                for a in t.args:
                    f = free_vars(a)
                    if f is not r:
                        r = r | f if r else f
        _fv[t.uid] = r
    return r


_byuid_var = {}


def var_terms(t, out=None, seen=None):
    """set of free variable terms"""
    if out is None: out, seen = set(), set()
    st = [t]
    while st:
        x = st.pop()
        if x.uid in seen: continue
        seen.add(x.uid)
        if x.op == 'var': out.add(x)
        st.extend(x.args)
    return out


def occurs(v, t):
    return v.uid in free_vars(t)


def close(t, v):
    return _close(t, v, 0, {})


_open_memo = {}


def open_(t, s):
    """instantiate bv(0) in t with (closed-at-this-level) term s"""
    if t.loose == 0:
        return t
    k = (t.uid, s.uid)
    r = _open_memo.get(k)
    if r is None:
        r = _open(t, s, 0, {})
        _open_memo[k] = r
    return r


def _open(t, s, depth, memo):
    if t.loose <= depth:
        return t
    k = (t.uid, depth)
    r = memo.get(k)
    if r is not None: return r
    if t.op == 'bv':
        if t.data == depth: r = s if s.loose == 0 or depth == 0 else shift(s, depth)
        elif t.data > depth: r = bv(t.data - 1, t.sort)
        else: r = t
    else:
        b = BINDERS.get(t.op, 0)
        na = [_open(a, s, depth + b if n == 0 else depth, memo) for n, a in enumerate(t.args)]
        r = rebuild(t, na)
    memo[k] = r
    return r


def shift(t, d, cut=0, memo=None):
    """shift loose bvs >= cut by d"""
    if t.loose <= cut: return t
    if memo is None: memo = {}
    k = (t.uid, cut)
    r = memo.get(k)
    if r is not None: return r
    if t.op == 'bv':
        r = bv(t.data + d, t.sort)
    else:
        b = BINDERS.get(t.op, 0)
        r = rebuild(t, [shift(a, d, cut + b if n == 0 else cut, memo) for n, a in enumerate(t.args)])
    memo[k] = r
    return r


def subst(t, m, memo=None):
    """m: dict var-term uid -> term.  capture-free because replacement terms are closed."""
    if memo is None: memo = {}
    m = {(k.uid if isinstance(k, T) else k): v for k, v in m.items()}
    keys = frozenset(m)
    return _subst(t, m, keys, memo)


def _subst(t, m, keys, memo):
    if not (free_vars(t) & keys):
        return t
    r = memo.get(t.uid)
    if r is not None: return r
    if t.op == 'var':
        r = m[t.uid]
    else:
        r = rebuild(t, [_subst(a, m, keys, memo) for a in t.args])
    memo[t.uid] = r
    return r


def rebuild(t, na):
    op = t.op
    if all(x is y for x, y in zip(na, t.args)):
        return t
    if op == 'poly':
        mp = {a.uid: b for a, b in zip(t.args, na)}
        res = {}
        simple = all(b.op not in ('poly', 'ite') or b is a for a, b in zip(t.args, na))
        p = _pc[t.uid]
        if simple:
            for m, c in p.items():
                k = tuple(sorted((mp[a.uid] for a in m), key=lambda x: x.uid))
                v = res.get(k, 0) + c
                if v == 0: res.pop(k, None)
                else: res[k] = v
            return poly_term(res, t.sort)
        acc = poly_term({}, t.sort)
        for m, c in p.items():
            f = poly_term({(): c}, t.sort)
            for a in m:
                f = mul(f, mp[a.uid])
            acc = add(acc, f)
        return acc
    if op == 'inv': return inv(na[0])
    if op == 'idiv': return idiv(*na)
    if op == 'imod': return imod(*na)
    if op == 'fdiv': return fdiv(*na)
    if op == 'i2r': return to_real(na[0])
    if op == 'trunc': return trunc(na[0])
    if op == 'not': return bnot(na[0])
    if op == 'and': return band(*na)
    if op == 'or': return bor(*na)
    if op == 'le0': return le0(na[0])
    if op == 'lt0': return lt0(na[0])
    if op == 'eq0': return eq(na[0], poly_term({}, na[0].sort))
    if op == 'eq': return eq(*na)
    if op == 'ite': return ite(*na)
    if op == 'sel': return select(*na)
    if op == 'store': return store(*na)
    if op == 'lam': return _lam_body(na[0])
    if op == 'sum': return mk_sum(*na)
    if op == 'pick': return mk_pick(*na)
    if op == 'nth': return mk_nth(*na)
    if op == 'rmax': return mk_rmax(*na)
    if op == 'forall': return mk_forall(na[0], t.data)
    if op == 'exists': return mk_exists(na[0], t.data)
    if op == 'carr': return carr(na[:-1], na[-1], t.sort[1:])
    if op in REBUILD: return REBUILD[op](t, na)
    return mk(op, na, t.data, t.sort)


REBUILD = {}


def lam(f, hint='c'):
    """array comprehension; f: term -> term"""
    v = fresh(hint, 'I')
    return _lam_body(close(f(v), v))


def _lam_body(body):
    # eta: lam c. a[c] -> a
    if body.op == 'sel' and body.args[1].op == 'bv' and body.args[1].data == 0 and body.args[0].loose == 0:
        return body.args[0]
    return mk('lam', (body,), None, 'A' + body.sort)


UNROLL = 64


def summ(f, lo, hi):
    v = fresh('k', 'I')
    b = f(v)
    return mk_sum(close(b, v), lo, hi)


def uses_bv0(t):
    return _uses(t, 0, {})


def _uses(t, d, memo):
    if t.loose <= d: return False
    k = (t.uid, d)
    r = memo.get(k)
    if r is not None: return r
    if t.op == 'bv':
        r = t.data == d
    else:
        b = BINDERS.get(t.op, 0)
        r = any(_uses(a, d + b if n == 0 else d, memo) for n, a in enumerate(t.args))
    memo[k] = r
    return r


def unbind(t):
    """t has no bv0: remove one binder level"""
    if t.loose == 0: return t
    return _open(t, ZERO, 0, {})


def mk_sum(body, lo, hi):
    sort = body.sort
    z = poly_term({}, sort)
    d = sub(hi, lo)
    if is_const(d) and const_val(d) <= 0: return z
    if is_const(lo) and is_const(hi):
        n = const_val(d)
        if n <= UNROLL or CONCRETE[0]:
            acc = z
            for k in range(const_val(lo), const_val(hi)):
                acc = add(acc, open_(body, integer(k)))
            return acc
    if is_const(d) and const_val(d) == 1:
        return open_(body, lo)
    body = _in_range(body, lo, hi)
    p = poly(body)
    if not p: return z
    acc = z
    for m, c in p.items():
        ind = [a for a in m if not uses_bv0(a)]
        dep = [a for a in m if uses_bv0(a)]
        coef = poly_term({tuple(sorted((unbind(a) for a in ind), key=lambda x: x.uid)): c}, sort)
        if not dep:
            n = ite(le(lo, hi), sub(hi, lo), integer(0))
            if sort == 'R': n = to_real(n)
            acc = add(acc, mul(coef, n))
            continue
        core = poly_term({tuple(dep): 1}, sort)
        # pull out loop-invariant guards
        guard = []
        if core.op == 'ite' and is_const(core.args[2]) and const_val(core.args[2]) == 0:
            cond = core.args[0]
            conj = list(cond.args) if cond.op == 'and' else [cond]
            keep = []
            for q in conj:
                if uses_bv0(q): keep.append(q)
                else: guard.append(unbind(q))
            if guard:
                core = ite(band(*keep), core.args[1], core.args[2])
                inner = mk_sum(core, lo, hi)
                acc = add(acc, mul(coef, ite(band(*guard), inner, z)))
                continue
            # pull factors out of  ite(c, f*g, 0)
            pb = poly(core.args[1])
            if len(pb) == 1:
                (mm, cc), = pb.items()
                ind2 = [a for a in mm if not uses_bv0(a)]
                if ind2 or cc != 1:
                    dep2 = [a for a in mm if uses_bv0(a)]
                    f = poly_term({tuple(sorted((unbind(a) for a in ind2), key=lambda x: x.uid)): cc}, sort)
                    core = ite(core.args[0], poly_term({tuple(dep2): 1}, sort), z)
                    acc = add(acc, mul(mul(coef, f), mk_sum(core, lo, hi)))
                    continue
            elif len(pb) > 1:
                for mm, cc in pb.items():
                    acc = add(acc, mul(coef, mk_sum(ite(core.args[0], poly_term({mm: cc}, sort), z), lo, hi)))
                continue
        # a case for the first (last) position alone: split it off
        at = [_lin_eq_bv0(q) for q in _ite_conds(core)]
        if lo in at:
            c1 = _assume_bv0(core, lo, False)
            acc = add(acc, mul(coef, add(ite(lt(lo, hi), open_(core, lo), z), mk_sum(c1, add(lo, integer(1)), hi))))
            continue
        last = sub(hi, integer(1))
        if last in at:
            c1 = _assume_bv0(core, last, False)
            acc = add(acc, mul(coef, add(ite(lt(lo, hi), open_(core, last), z), mk_sum(c1, lo, last))))
            continue
        acc = add(acc, mul(coef, _canon_sum(core, lo, hi, sort)))
    return acc


def _lit_range(q, lo, hi):
    """truth of a literal over bv0 that follows from  lo <= bv0 < hi  (None: open)"""
    if q.op != 'le0' or q.args[0].sort != 'I': return None
    l = _lin_bv0(q.args[0])
    if l is None or uses_bv0(l[1]): return None
    sign, r = l[0], unbind(l[1])
    top, bot = (add(sub(hi, ONE), r), add(lo, r)) if sign == 1 else (sub(r, lo), add(sub(r, hi), ONE))
    if is_const(top) and const_val(top) <= 0: return TRUE
    if is_const(bot) and const_val(bot) >= 1: return FALSE
    return None


def _in_range(x, lo, hi):
    """x with the conditions outside binders that the summation range decides replaced"""
    known = {}
    for q in _ite_conds(x):
        if q.uid not in known:
            v = _lit_range(q, lo, hi)
            if v is not None: known[q.uid] = v
    if not known: return x
    memo = {}

    def go(t):
        if t.uid in known: return known[t.uid]
        if t.loose == 0 or t.op in BINDERS: return t
        r = memo.get(t.uid)
        if r is None:
            r = memo[t.uid] = rebuild(t, tuple(go(a) for a in t.args))
        return r
    return go(x)


def _ite_conds(x):
    """equality conditions of the conditional values in x (outside binders)"""
    out, st, seen = [], [x], set()
    while st:
        x = st.pop()
        if x.uid in seen or x.loose == 0: continue
        seen.add(x.uid)
        if x.op in BINDERS: continue
        if x.op == 'ite':
            c = x.args[0]
            out.extend(c.args if c.op in ('and', 'or') else [c])
        st.extend(x.args)
    return out


def _lin_eq_bv0(q):
    """q is  bv0 == e  (or its negation) with e free of bv0 -> e"""
    if q.op == 'not': q = q.args[0]
    if q.op != 'eq0' or q.args[0].sort != 'I': return None
    l = _lin_bv0(q.args[0])
    if l is None: return None
    s, r = l
    if uses_bv0(r): return None
    return scale(unbind(r), -s)


def _assume_bv0(x, e, truth):
    """x with the conditions  bv0 == e  outside binders replaced"""
    memo = {}
    def go(t):
        if t.loose == 0 or t.op in BINDERS: return t
        r = memo.get(t.uid)
        if r is None:
            if t.op == 'eq0' and _lin_eq_bv0(t) is e: r = TRUE if truth else FALSE
            else: r = rebuild(t, tuple(go(a) for a in t.args))
            memo[t.uid] = r
        return r
    return go(x)


def _lin_bv0(i):
    """i == sign*bv0 + s with s free of bv0 -> (sign, s)"""
    if i.sort != 'I': return None
    p = poly(i)
    sign = None
    rest = {}
    for m, c in p.items():
        if len(m) == 1 and m[0].op == 'bv' and m[0].data == 0:
            sign = c
        elif any(uses_bv0(a) for a in m):
            return None
        else:
            rest[m] = c
    if sign not in (1, -1): return None
    return sign, poly_term(rest, 'I')


def _canon_sum(core, lo, hi, sort):
    best = None
    st = [core]
    seen = set()
    while st:
        x = st.pop()
        if x.uid in seen or x.loose == 0: continue
        seen.add(x.uid)
        if x.op in BINDERS:
            st.extend(x.args[1:])
            continue
        if x.op == 'sel' and not uses_bv0(x.args[0]):
            l = _lin_bv0(x.args[1])
            if l is not None:
                key = (unbind(x.args[0]).uid, l[0], l[1].uid)
                if best is None or key < best[0]:
                    best = (key, l)
        st.extend(x.args)
    if best is not None:
        sign, s = best[1]
        if not (sign == 1 and is_const(s) and const_val(s) == 0):
            s = unbind(s)
            w = fresh('w', 'I')
            if sign == 1:
                nb = open_(core, sub(w, s))
                lo, hi = add(lo, s), add(hi, s)
            else:
                nb = open_(core, sub(s, w))
                lo, hi = add(sub(s, hi), ONE), add(sub(s, lo), ONE)
            core = close(shift(nb, 1), w)
            if core.op == 'poly':
                return mk_sum(core, lo, hi)
    return mk('sum', (core, lo, hi), None, sort)


CONCRETE = [False]


def mk_pick(body, lo, hi):
    if CONCRETE[0] and is_const(lo) and is_const(hi):
        for k in range(const_val(lo), const_val(hi)):
            if open_(body, integer(k)) is TRUE:
                return integer(k)
        return integer(-1)
    return mk('pick', (body, lo, hi), None, 'I')


def pick(f, lo, hi):
    v = fresh('k', 'I')
    return mk_pick(close(f(v), v), lo, hi)


def mk_nth(body, lo, t):
    """the e >= lo with SUM[lo,e) body <= t < SUM[lo,e+1) body, for a non-negative body (unique when there is
       one): inverse of a running count"""
    return mk('nth', (body, lo, t), None, 'I')


def mk_rmax(body, hi, init):
    """the largest of init and body(0) ... body(hi-1)"""
    if is_const(hi) and const_val(hi) <= 0: return init
    if CONCRETE[0] and is_const(hi):
        r = init
        for k in range(const_val(hi)):
            v = open_(body, integer(k))
            r = ite(lt(r, v), v, r)
        return r
    return mk('rmax', (body, hi, init), None, init.sort)


def rmax(f, hi, init):
    v = fresh('k', 'I')
    return mk_rmax(close(f(v), v), hi, init)


def forall(f, sorts='I', hint='q'):
    if isinstance(sorts, str) and len(sorts) >= 1 and sorts in ('I', 'R'):
        v = fresh(hint, sorts)
        return mk_forall(close(f(v), v), sorts)
    raise ValueError


def forall_range(f, lo, hi, hint='q'):
    lo, hi = lift(lo), lift(hi)
    if is_const(lo) and is_const(hi) and (CONCRETE[0] or const_val(hi) - const_val(lo) <= 4):
        return band(*[f(integer(k)) for k in range(const_val(lo), const_val(hi))])
    v = fresh(hint, 'I')
    body = close(f(v), v)
    small = _in_range(body, lo, hi)
    body = f(v) if small is body else open_(small, v)
    return mk_forall(close(implies(band(le(lo, v), lt(v, hi)), body), v), 'I')


def exists_range(f, lo, hi, hint='e'):
    lo, hi = lift(lo), lift(hi)
    if is_const(lo) and is_const(hi) and (CONCRETE[0] or const_val(hi) - const_val(lo) <= 4):
        return bor(*[f(integer(k)) for k in range(const_val(lo), const_val(hi))])
    v = fresh(hint, 'I')
    return mk_exists(close(band(le(lo, v), lt(v, hi), f(v)), v), 'I')


def mk_forall(body, sort):
    if body in (TRUE, FALSE): return body
    if body.op == 'and':
        return band(*[mk_forall(b, sort) for b in body.args])
    if not uses_bv0(body): return unbind(body)
    return mk('forall', (body,), sort, 'B')


def mk_exists(body, sort):
    if body in (TRUE, FALSE): return body
    if body.op == 'or':
        return bor(*[mk_exists(b, sort) for b in body.args])
    if not uses_bv0(body): return unbind(body)
    return mk('exists', (body,), sort, 'B')


ZERO = integer(0)
ONE = integer(1)


def imin(a, b): return ite(le(a, b), a, b)
def imax(a, b): return ite(le(a, b), b, a)


# --------------------------------------------------------------- printing
def show(t, depth=0):
    if depth > 14: return '...'
    op = t.op
    s = lambda x: show(x, depth + 1)
    if op == 'poly':
        p = _pc[t.uid]
        if not p: return '0'
        out = []
        for m, c in p.items():
            f = '*'.join(s(a) for a in m)
            if not m: out.append(str(c))
            elif c == 1: out.append(f)
            elif c == -1: out.append('-' + f)
            else: out.append('%s*%s' % (c, f))
        return '(' + ' + '.join(out) + ')' if len(out) > 1 else out[0]
    if op == 'var': return t.data
    if op == 'bv': return '#%d' % t.data
    if op in ('true', 'false'): return op
    if op == 'sel': return '%s[%s]' % (s(t.args[0]), s(t.args[1]))
    if op == 'store': return '%s{%s:=%s}' % tuple(map(s, t.args))
    if op == 'ite': return '(%s ? %s : %s)' % tuple(map(s, t.args))
    if op == 'and': return '(' + ' & '.join(map(s, t.args)) + ')'
    if op == 'or': return '(' + ' | '.join(map(s, t.args)) + ')'
    if op == 'not': return '!' + s(t.args[0])
    if op == 'le0': return s(t.args[0]) + '<=0'
    if op == 'lt0': return s(t.args[0]) + '<0'
    if op == 'eq0': return s(t.args[0]) + '==0'
    if op == 'eq': return '(%s == %s)' % tuple(map(s, t.args))
    if op == 'app': return '%s(%s)' % (t.data, ', '.join(map(s, t.args)))
    if op == 'tok': return "'%s'" % (t.data,)
    if op == 'lam': return '\\.' + s(t.args[0])
    if op == 'sum': return 'SUM[%s,%s)(%s)' % (s(t.args[1]), s(t.args[2]), s(t.args[0]))
    if op in ('forall', 'exists'): return op + '.' + s(t.args[0])
    if op == 'carr': return '[' + ', '.join(s(a) for a in t.args[:-1]) + '|' + s(t.args[-1]) + ']'
    return '%s%s(%s)' % (op, '' if t.data is None else ':%s' % (t.data,), ', '.join(map(s, t.args)))


def subterms(t, pred, out=None, seen=None):
    if seen is None: seen = set()
    if out is None: out = []
    st = [t]
    while st:
        x = st.pop()
        if x.uid in seen: continue
        seen.add(x.uid)
        if pred(x): out.append(x)
        st.extend(x.args)
    return out
