"""Discharging verification conditions with z3 (and cvc5 as a second back end).

Hypotheses and goal are terms; the goal is negated and skolemised here, folds are
unfolded at the ground index terms that occur, and instances of the (valid) fold
lemmas are added; z3 decides the resulting formula by E-matching on the remaining
quantifiers.  'unsat' = proved; anything else = not proved.
"""
import time, os, sys
import z3
from .terms import *
from . import terms as TT

MAXEXT = 80


class Exporter(object):
    def __init__(self):
        self.memo = {}
        self.sorts = {}
        self.fns = {}
        self.skel = {}
        self.side = []       # extra axioms generated while exporting
        self.names = {}

    def sort(self, s):
        if s == 'I': return z3.IntSort()
        if s == 'R': return z3.RealSort()
        if s == 'B': return z3.BoolSort()
        r = self.sorts.get(s)
        if r is None:
            r = z3.DeclareSort('S_' + s)
            self.sorts[s] = r
        return r

    def fn(self, name, *sorts):
        k = (name,) + sorts
        f = self.fns.get(k)
        if f is None:
            f = z3.Function(name + '.' + '_'.join(sorts), *[self.sort(s) for s in sorts])
            self.fns[k] = f
        return f

    # -- skeletons ------------------------------------------------------
    def skeleton(self, body):
        """abstract maximal subterms of body that do not use its binder (bv0)"""
        r = self.skel.get(body.uid)
        if r is not None: return r
        params = []
        pidx = {}

        def dep(t, d):
            return any_below(t, d)

        def param(t, d):
            p = TT.shift(t, -d, d) if t.loose > 0 else t
            k = pidx.get(p.uid)
            if k is None:
                k = len(params)
                pidx[p.uid] = k
                params.append(p)
            return mk('par', (), k, t.sort)

        memo = {}

        def go(t, d):
            if is_ground_const(t): return t
            key = (t.uid, d)
            if key in memo: return memo[key]
            if not dep(t, d):
                r = param(t, d)
            elif t.op == 'bv':
                r = t
            elif t.op == 'poly':
                p = poly(t)
                ind = {m: c for m, c in p.items() if m and not any(dep(a, d) for a in m)}
                rest = {m: c for m, c in p.items() if m not in ind}
                items = []
                for m, c in sorted(rest.items(), key=lambda x: TT._mono_key(x[0])):
                    f = []
                    for a in m: f.append(go(a, d))
                    items.append((c, f))
                if ind:
                    items.append((1, [param(TT.poly_term(ind, t.sort), d)]))
                args = [a for c, f in items for a in f]
                r = mk('spoly', args, tuple((c, len(f)) for c, f in items), t.sort)
            else:
                b = BINDERS.get(t.op, 0)
                r = mk('s:' + t.op, [go(a, d + b if n == 0 else d) for n, a in enumerate(t.args)], t.data, t.sort,
                       loose=0)
            memo[key] = r
            return r
        sk = go(body, 1)
        r = (sk.uid, params)
        self.skel[body.uid] = r
        return r

    # -- conversion ------------------------------------------------------
    def cv(self, t, env=()):
        if t.loose == 0:
            r = self.memo.get(t.uid)
            if r is not None: return r
            r = self._cv(t, env)
            self.memo[t.uid] = r
            return r
        return self._cv(t, env)

    def prefix(self, body, params, env, at):
        sk, ps = self.skeleton(body)
        f = self.fn('P%d' % sk, *([p.sort for p in ps] + ['I', body.sort]))
        return f(*([self.cv(p, env) for p in ps] + [at]))

    def _cv(self, t, env):
        op = t.op
        cv = self.cv
        if op == 'poly':
            p = poly(t)
            isI = t.sort == 'I'
            acc = []
            for m, c in p.items():
                if isI: k = z3.IntVal(c)
                else: k = z3.RealVal(c if isinstance(c, int) else '%d/%d' % (c.numerator, c.denominator))
                if not m:
                    acc.append(k)
                    continue
                f = cv(m[0], env)
                for a in m[1:]:
                    f = self.fn('mul' + t.sort, t.sort, t.sort, t.sort)(f, cv(a, env))
                acc.append(f if c == 1 else k * f)
            if not acc: return z3.IntVal(0) if isI else z3.RealVal(0)
            return acc[0] if len(acc) == 1 else z3.Sum(acc)
        if op == 'var':
            return z3.Const(t.data + ':' + t.sort, self.sort(t.sort))
        if op == 'tok':
            return z3.Const('tok:' + str(t.data), self.sort(t.sort))
        if op == 'bv':
            return env[t.data]
        if op == 'true': return z3.BoolVal(True)
        if op == 'false': return z3.BoolVal(False)
        if op == 'not': return z3.Not(cv(t.args[0], env))
        if op == 'and': return z3.And([cv(a, env) for a in t.args])
        if op == 'or': return z3.Or([cv(a, env) for a in t.args])
        if op == 'le0': return cv(t.args[0], env) <= 0
        if op == 'lt0': return cv(t.args[0], env) < 0
        if op == 'eq0': return cv(t.args[0], env) == 0
        if op == 'eq': return cv(t.args[0], env) == cv(t.args[1], env)
        if op == 'ite': return z3.If(cv(t.args[0], env), cv(t.args[1], env), cv(t.args[2], env))
        if op == 'sel':
            a, i = t.args
            return self.fn('sel', a.sort, 'I', t.sort)(cv(a, env), cv(i, env))
        if op == 'i2r': return z3.ToReal(cv(t.args[0], env))
        if op in ('inv', 'idiv', 'imod', 'fdiv', 'trunc'):
            return self.fn(op, *([a.sort for a in t.args] + [t.sort]))(*[cv(a, env) for a in t.args])
        if op == 'app':
            if not t.args: return z3.Const('app:' + t.data, self.sort(t.sort))
            return self.fn('u:' + t.data, *([a.sort for a in t.args] + [t.sort]))(*[cv(a, env) for a in t.args])
        if op == 'sum':
            body, lo, hi = t.args
            l, h = cv(lo, env), cv(hi, env)
            z = z3.IntVal(0) if t.sort == 'I' else z3.RealVal(0)
            return z3.If(l <= h, self.prefix(body, None, env, h) - self.prefix(body, None, env, l), z)
        if op == 'pfx':
            return self.prefix(t.args[0], None, env, cv(t.args[1], env))
        if op in ('pick', 'nth'):
            body, lo, hi = t.args
            sk, ps = self.skeleton(body)
            f = self.fn(('K%d' if op == 'pick' else 'N%d') % sk, *([p.sort for p in ps] + ['I', 'I', 'I']))
            return f(*([cv(p, env) for p in ps] + [cv(lo, env), cv(hi, env)]))
        if op == 'rmax':
            body, hi, init = t.args
            sk, ps = self.skeleton(body)
            f = self.fn('M%d' % sk, *([p.sort for p in ps] + ['I', init.sort, t.sort]))
            return f(*([cv(p, env) for p in ps] + [cv(hi, env), cv(init, env)]))
        if op in ('forall', 'exists'):
            return self.quant(t, env)
        if op in ('store', 'lam', 'carr'):
            if t.loose:
                raise Unsupported('array value under binder: %s' % show(t))
            c = z3.Const('arr%d' % t.uid, self.sort(t.sort))
            self.memo[t.uid] = c
            self.side.append((t, c))
            return c
        raise Unsupported('cannot export ' + op)

    def quant(self, t, env):
        vs = []
        body = t
        while body.op == t.op:
            v = z3.Const('q%d_%d' % (len(env) + len(vs), t.uid), self.sort(body.data))
            vs.append(v)
            env = (v,) + tuple(env)
            body = body.args[0]
        b = self.cv(body, env)
        pats = self.patterns(body, env, vs)
        if t.op == 'forall':
            return z3.ForAll(vs, b, patterns=pats) if pats else z3.ForAll(vs, b)
        return z3.Exists(vs, b, patterns=pats) if pats else z3.Exists(vs, b)

    def patterns(self, body, env, vs):
        """multi-patterns made of select/app terms whose arguments are bound variables directly"""
        n = len(vs)
        # candidate terms: subterms at binder depth n (not inside inner binders)
        cands = []
        st = [body]
        seen = set()
        while st:
            x = st.pop()
            if x.uid in seen or x.loose == 0: continue
            seen.add(x.uid)
            if x.op in BINDERS:
                st.extend(x.args[1:])
                continue
            if x.op in ('sel', 'app') and x.sort != 'B' or x.op in ('sel', 'app'):
                ok = True
                used = set()
                stack = list(x.args)
                direct = False
                while stack:
                    y = stack.pop()
                    if y.loose == 0: continue
                    if y.op == 'bv':
                        used.add(y.data)
                        continue
                    if y.op in ('sel', 'app'):
                        stack.extend(y.args)
                        continue
                    if y.op == 'poly':
                        # arithmetic inside a pattern: allowed only as second choice
                        ok = False
                        break
                    ok = False
                    break
                used = {u for u in used if u < n}
                if ok and used:
                    cands.append((x, used))
            st.extend(x.args)
        if not cands: return None
        # smallest terms first; keep minimal ones
        cands.sort(key=lambda p: (-len(p[1]), size(p[0]), p[0].uid))
        single = [x for x, u in cands if len(u) == n]
        if single:
            # drop patterns that contain another candidate pattern
            single.sort(key=size)
            keep = []
            for x in single:
                if not any(contains(x, y) for y in keep): keep.append(x)
            return [self.cv(x, env) for x in keep[:4]]
        # multi-pattern: greedy cover, all minimal pairs
        res = []
        by = {}
        for x, u in cands:
            for i in u: by.setdefault(i, []).append((x, u))
        if len(by) < n: return None
        import itertools
        lists = [sorted(by[i], key=lambda p: size(p[0]))[:3] for i in range(n)]
        for comb in itertools.islice(itertools.product(*lists), 6):
            ts, cov = [], set()
            for x, u in comb:
                if x not in ts: ts.append(x)
                cov |= u
            if len(cov) == n:
                res.append(z3.MultiPattern(*[self.cv(x, env) for x in ts]))
        return res or None


class Unsupported(Exception):
    pass


def size(t):
    n, st = 0, [t]
    while st:
        x = st.pop()
        n += 1
        st.extend(x.args)
        if n > 200: break
    return n


def contains(x, y):
    st = [x]
    while st:
        a = st.pop()
        if a is y: return True
        st.extend(a.args)
    return False


def is_ground_const(t):
    return t.op in ('true', 'false', 'tok') or (t.op == 'poly' and is_const(t))


def any_below(t, d):
    """t uses some bv with index < d (relative to t's own level)"""
    return _anyb(t, d, 0, {})


def _anyb(t, d, off, memo):
    if t.loose <= off: return False
    k = (t.uid, off)
    r = memo.get(k)
    if r is not None: return r
    if t.op == 'bv':
        r = off <= t.data < d + off
    else:
        b = BINDERS.get(t.op, 0)
        r = any(_anyb(a, d, off + b if n == 0 else off, memo) for n, a in enumerate(t.args))
    memo[k] = r
    return r


def skolemize(t, sk=None):
    """positive formula: strip existentials"""
    if t.op == 'and': return band(*[skolemize(a) for a in t.args])
    if t.op == 'or': return bor(*[skolemize(a) for a in t.args])
    if t.op == 'exists': return skolemize(open_(t.args[0], fresh('sk', t.data)))
    if t.op == 'ite':
        c, a, b = t.args
        if has_quant(a) or has_quant(b):
            return band(bor(bnot(c), skolemize(a)), bor(c, skolemize(b)))
    if t.op == 'eq' and t.args[0].sort == 'B' and (has_quant(t.args[0]) or has_quant(t.args[1])):
        a, b = t.args
        return band(bor(skolemize(bnot(a)), skolemize(b)), bor(skolemize(a), skolemize(bnot(b))))
    if t.op == 'not' and t.args[0].op == 'eq' and t.args[0].args[0].sort == 'B' and \
            (has_quant(t.args[0].args[0]) or has_quant(t.args[0].args[1])):
        a, b = t.args[0].args
        return band(bor(skolemize(a), skolemize(b)), bor(skolemize(bnot(a)), skolemize(bnot(b))))
    return t


_pn = {}


def qdepth(t):
    if t.op == 'forall': return 1 + qdepth(t.args[0])
    if t.op in ('and', 'or'): return max(qdepth(a) for a in t.args)
    return 0


def prenex(t):
    """forall i. A(i) | forall j. B(i, j)  ->  forall i j. A(i) | B(i, j)   (hypotheses; better triggers)"""
    if t.op == 'and': return band(*[prenex(a) for a in t.args])
    if t.op != 'forall' or qdepth(t) != 2: return t
    r = _pn.get(t.uid)
    if r is not None: return r
    v = fresh('q', t.data)
    b = open_(t.args[0], v)
    if b.op == 'forall':
        r = TT.mk('forall', (close(prenex(b), v),), t.data, 'B')
    elif b.op == 'or' and sum(a.op == 'forall' for a in b.args) == 1:
        q = [a for a in b.args if a.op == 'forall'][0]
        w = fresh('q', q.data)
        nb = bor(*([a for a in b.args if a is not q] + [open_(q.args[0], w)]))
        r = prenex(TT.mk('forall', (close(nb, w),), q.data, 'B'))
        r = TT.mk('forall', (close(r, v),), t.data, 'B')
    else: r = t
    _pn[t.uid] = r
    return r


_hq = {}


def has_quant(t):
    r = _hq.get(t.uid)
    if r is None:
        r = t.op in ('forall', 'exists') or any(has_quant(a) for a in t.args)
        _hq[t.uid] = r
    return r


def solve_eq(f):
    if f.op == 'eq0':
        p = f.args[0]
        pp = poly(p)
        for m, c in sorted(pp.items(), key=lambda x: -x[0][0].uid if x[0] else 0):
            if len(m) == 1 and m[0].op == 'var' and c in (1, -1):
                v = m[0]
                rest = TT.scale(sub(p, TT.scale(v, c)), -c)
                if v.uid not in free_vars(rest): return v, rest
        if p.sort == 'R':
            for m, c in sorted(pp.items(), key=lambda x: -x[0][0].uid if x[0] else 0):
                if len(m) == 1 and m[0].op == 'var':
                    v = m[0]
                    from fractions import Fraction
                    rest = TT.scale(sub(p, TT.scale(v, c)), -1 / Fraction(c))
                    if v.uid not in free_vars(rest): return v, rest
    elif f.op == 'eq' and f.args[0].sort not in ('B',):
        a, b = f.args
        for x, y in ((a, b), (b, a)):
            if x.op == 'var' and x.uid not in free_vars(y): return x, y
    return None


def nonneg_body(b):
    if b.op == 'ite': return nonneg_body(b.args[1]) and nonneg_body(b.args[2])
    if is_const(b): return const_val(b) >= 0
    if b.op == 'sum': return nonneg_body(b.args[0])
    if b.op == 'app' and b.data in ('fabs', 'sqrt'): return True
    if b.op == 'poly':
        p = poly(b)
        for m, c in p.items():
            if c < 0: return False
            for a in m:
                if not (nonneg_body(a) or m.count(a) % 2 == 0): return False
        return True
    return False


def unit_body(b):
    if b.op == 'ite': return unit_body(b.args[1]) and unit_body(b.args[2])
    if is_const(b): return 0 <= const_val(b) <= 1
    return False


class Problem(object):
    def __init__(self, hyps, goal, ext=True, extra=()):
        self.forms = []
        for h in hyps:
            h = prenex(skolemize(h))
            if h is not TRUE: self.forms.append(h)
        self.ngoal = skolemize(bnot(goal))
        self.ng = []
        for x in (self.ngoal.args if self.ngoal.op == 'and' else (self.ngoal,)): self.ng.append(x)
        self.eliminate()
        if ext and self.name_quotients(): self.eliminate()
        if ext:
            self.small_fdivs()
            self.simplify_sums()
            self.distribute()
        self.ngoal = band(*self.ng)
        self.forms.append(self.ngoal)
        self.done = set()
        self.lite = ext == 'lite'
        self.ext = bool(ext) and not self.lite
        self.lem = []

    def eliminate(self):
        """use top-level equations  v == t  to substitute v away (Gaussian elimination)"""
        fs = []
        for f in self.forms:
            if f.op == 'and': fs.extend(f.args)
            else: fs.append(f)
        ng = self.ng
        for rounds in range(40):
            best = None
            for f in ng + fs:
                e = solve_eq(f)
                if e is not None:
                    best = (f, e)
                    break
            if best is None: break
            f0, (v, t) = best
            memo = {}
            m = {v: t}

            def sb(lst):
                out = []
                for f in lst:
                    if f is f0: continue
                    g = subst(f, m, memo) if v.uid in free_vars(f) else f
                    if g.op == 'and': out.extend(g.args)
                    elif g is not TRUE: out.append(g)
                return out
            memo = {}
            fs = sb(fs)
            ng = sb(ng)
        self.forms = fs
        self.ng = ng

    def simplify_sums(self):
        """in sums of the goal: d + R*k == 0 with |d| < R becomes d == 0 & k == 0, conditions that do not
           depend on the summation index move outwards, and a sum over k with k == j has one term"""
        def cands(p, ctx):
            pp = poly(p)
            fs = {}
            for m in pp:
                if len(m) >= 2:
                    for x in set(m): fs[x.uid] = x
            for u in sorted(fs):
                R = fs[u]
                K, D = {}, {}
                for m, k in pp.items():
                    if R in m:
                        l = list(m)
                        l.remove(R)
                        K[tuple(l)] = k
                    else: D[m] = k
                if not D or not K: continue
                K, D = TT.poly_term(K, 'I'), TT.poly_term(D, 'I')
                if is_const(K) or is_const(D): continue
                g = band(lt(neg(R), D), lt(D, R))
                if prove(self.forms + ctx, g, 2500, False)[0]: return band(eq(D, ZERO), eq(K, ZERO))
            return None

        def worth(t):
            st, seen = [t], set()
            while st:
                x = st.pop()
                if x.uid in seen: continue
                seen.add(x.uid)
                if x.op == 'ite': return True
                st.extend(x.args)
            return False

        def cond(c, ctx):
            if c.op in ('and', 'or'): return (band if c.op == 'and' else bor)(*[cond(x, ctx) for x in c.args])
            if c.op == 'eq0' and c.args[0].sort == 'I':
                r = cands(c.args[0], ctx)
                if r is not None: return r
            return c

        memo = {}

        def go(t, ctx):
            k = (t.uid, tuple(x.uid for x in ctx))
            if k in memo: return memo[k]
            r = go_(t, ctx)
            memo[k] = r
            return r

        def go_(t, ctx):
            if not t.args or not worth(t): return t
            if t.op == 'sum':
                lo, hi = go(t.args[1], ctx), go(t.args[2], ctx)
                v = fresh('k', 'I')
                b = go(open_(t.args[0], v), ctx + [le(lo, v), lt(v, hi)])
                if b.op == 'ite' and is_const(b.args[2]) and const_val(b.args[2]) == 0:
                    c, f = b.args[0], b.args[1]
                    lits = list(c.args) if c.op == 'and' else [c]
                    for l in lits:
                        if l.op != 'eq0' or l.args[0].sort != 'I': continue
                        k = poly(l.args[0]).get((v,))
                        if k not in (1, -1): continue
                        j = TT.scale(sub(l.args[0], TT.scale(v, k)), -k)
                        if v.uid in free_vars(j): continue
                        return subst(ite(band(le(lo, j), lt(j, hi), *[x for x in lits if x is not l]), f, b.args[2]), {v: j})
                    ind = [l for l in lits if v.uid not in free_vars(l)]
                    if ind:
                        dep = [l for l in lits if v.uid in free_vars(l)]
                        return ite(band(*ind), mk_sum(close(ite(band(*dep), f, b.args[2]), v), lo, hi), poly_term_zero(t.sort))
                return mk_sum(close(b, v), lo, hi)
            if t.op == 'ite':
                c = cond(t.args[0], ctx)
                return ite(c, go(t.args[1], ctx + [c]), go(t.args[2], ctx))
            if t.op == 'poly':
                s = None
                for m, k in sorted(poly(t).items(), key=lambda x: TT._mono_key(x[0])):
                    x = TT.poly_term({(): k}, t.sort)
                    for y in m: x = mul(x, go(y, ctx))
                    s = x if s is None else add(s, x)
                return s
            if t.op in ('eq0', 'le0', 'lt0', 'not', 'and', 'or', 'sel', 'neg', 'abs', 'i2r'):
                return rebuild(t, [go(a, ctx) for a in t.args])
            return t

        if not any(t.op == 'sum' and worth(t.args[0]) for t in self.ground_terms(self.ng).values()): return
        ctx = [x for x in self.ng if x.op == 'le0']
        ng = []
        for x in self.ng:
            y = go(x, ctx)
            ng.extend(y.args if y.op == 'and' else (y,))
        self.ng = ng

    def matching(self, body, allterms):
        """values w for which body(w) reads an array cell that is read elsewhere"""
        z = var('z!match', 'I')
        b = open_(body, z)
        pats, st, seen = [], [b], set()
        while st:
            t = st.pop()
            if t.uid in seen or z.uid not in free_vars(t): continue
            seen.add(t.uid)
            if t.op == 'sel' and t.loose == 0 and t.args[1].sort == 'I' and z.uid not in free_vars(t.args[0]):
                i = t.args[1]
                pp = poly(i)
                for k in (1, -1):
                    if pp.get((z,)) == k:
                        r = sub(i, TT.scale(z, k))
                        if z.uid not in free_vars(r): pats.append((t.args[0], r, k))
            st.extend(t.args)
        out = {}
        for x in allterms.values():
            if x.op != 'sel' or x.loose: continue
            for a, r, k in pats:
                if x.args[0] is a:
                    w = TT.scale(sub(x.args[1], r), k)
                    out[w.uid] = w
        return dict(sorted(out.items())[:12])

    def name_quotients(self):
        """v == t(fdiv(.. v ..)): the quotient gets a name so that v can be eliminated"""
        did = False
        for _ in range(3):
            hit = None
            for f in self.ng + self.forms:
                if f.op != 'eq0' or f.args[0].sort != 'I': continue
                p = f.args[0]
                for m, c in sorted(poly(p).items(), key=lambda x: -x[0][0].uid if x[0] else 0):
                    if len(m) != 1 or m[0].op != 'var' or c not in (1, -1): continue
                    v = m[0]
                    rest = sub(p, TT.scale(v, c))
                    ds = [t for u, t in sorted(self.ground_terms([rest]).items()) if t.op == 'fdiv' and v.uid in free_vars(t)]
                    ds = [d for d in ds if not any(d is not e and contains(e, d) for e in ds)]
                    if not ds or len(ds) > 2: continue
                    hit = ds
                    break
                if hit: break
            if not hit: break
            did = True
            for d in hit:
                q = fresh('quo', 'I')
                memo = {}

                def go(t):
                    if t is d: return q
                    r = memo.get(t.uid)
                    if r is None:
                        r = rebuild(t, [go(a) for a in t.args]) if t.args else t
                        memo[t.uid] = r
                    return r
                a, b = d.args
                self.forms = [go(x) for x in self.forms]
                self.forms.append(implies(le(ONE, b), band(le(mul(b, q), a), lt(a, add(mul(b, q), b)))))
                ng = []
                for x in self.ng:
                    y = go(x)
                    ng.extend(y.args if y.op == 'and' else (y,))
                self.ng = ng
        return did

    def small_fdivs(self):
        """fdiv(a, b) with 0 <= a < b known is replaced by 0, so that normalisation sees through it"""
        ds = [t for u, t in sorted(self.ground_terms(self.ng).items()) if t.op == 'fdiv']
        if not ds or len(ds) > 6: return
        lits = [h for h in self.forms + self.ng if not has_quant(h) and h.op in ('le0', 'eq0', 'lt0')]
        m = {}
        for t in ds:
            a, b = t.args
            small = lambda a: (lambda g: prove(lits, g, 1000, False)[0] or
                               prove(self.forms + [x for x in self.ng if x.op == 'le0'], g, 2000, False)[0])(band(le(ZERO, a), lt(a, b)))
            if small(a):
                m[t.uid] = ZERO
                continue
            for e in self.forms + self.ng:
                if e.op != 'eq0' or e.args[0].sort != 'I': continue
                for k in (1, -1):
                    t2 = TT.fdiv(add(a, TT.scale(e.args[0], k)), b)
                    if t2.op == 'fdiv' or len(poly(t2)) < 2 and t2.op != 'var': continue
                    rs = [x for x in (t2.args if t2.op == 'poly' else ()) if x.op == 'fdiv' and x.args[1] is b]
                    if len(rs) != 1 or not small(rs[0].args[0]): continue
                    m[t.uid] = sub(t2, rs[0])
                    break
                if t.uid in m: break
        if not m: return
        memo = {}

        def go(t):
            if t.loose == 0 and t.uid in m: return m[t.uid]
            r = memo.get(t.uid)
            if r is None:
                r = rebuild(t, [go(a) for a in t.args]) if t.args else t
                memo[t.uid] = r
            return r
        self.forms = [go(f) for f in self.forms]
        ng = []
        for f in self.ng:
            f = go(f)
            ng.extend(f.args if f.op == 'and' else (f,))
        self.ng = ng

    def distribute(self):
        """sums that occur inside products are rewritten as prefix-sum differences over a common
           base, so that polynomial normalisation distributes the product"""
        nl = {}
        allt = self.ground_terms(self.ng + self.forms)
        for t in allt.values():
            if t.op == 'poly':
                for m in poly(t):
                    if len(m) > 1:
                        for a in m:
                            if a.op == 'sum': nl.setdefault(a.args[0].uid, []).append(a)
        if not nl: return
        sums = {}
        for t in allt.values():
            if t.op == 'sum' and t.args[0].uid in nl: sums.setdefault(t.args[0].uid, []).append(t)
        lits = [h for h in self.forms + self.ng if not has_quant(h) or h.op == 'forall']
        m = {}
        for uid in sorted(sums):
            ss = sorted(sums[uid], key=lambda t: t.uid)
            if len(ss) < 2: continue
            ends = {}
            ok = []
            for s in ss:
                g = le(s.args[1], s.args[2])
                if g is TRUE or any(g is l for l in lits) or prove(lits, g, 1500, False)[0]:
                    ok.append(s)
                    for e in s.args[1:]: ends[e.uid] = e
            if len(ok) < 2: continue
            body = ok[0].args[0]
            # classes of endpoints that differ by a constant
            rep = {}
            es = sorted(ends.values(), key=lambda t: t.uid)
            reps = []
            for e in es:
                for r in reps:
                    d = sub(e, r[0])
                    if is_const(d) and abs(const_val(d)) <= 4:
                        r.append(e)
                        break
                else:
                    reps.append([e])
            val = {}
            for cl in reps:
                base = min(cl, key=lambda e: const_val(sub(e, cl[0])))
                b0 = mk('pfx', (body, base), None, body.sort)
                for e in cl:
                    acc = b0
                    for k in range(const_val(sub(e, base))):
                        acc = add(acc, open_(body, add(base, integer(k))))
                    val[e.uid] = acc
            for s in ok:
                m[s.uid] = sub(val[s.args[2].uid], val[s.args[1].uid])
        if not m: return
        memo = {}

        def go(t):
            if t.loose == 0 and t.uid in m: return m[t.uid]
            r = memo.get(t.uid)
            if r is None:
                r = rebuild(t, [go(a) for a in t.args]) if t.args else t
                memo[t.uid] = r
            return r
        self.forms = [go(f) for f in self.forms]
        ng = []
        for f in self.ng:
            f = go(f)
            ng.extend(f.args if f.op == 'and' else (f,))
        self.ng = ng

    def ground_terms(self, forms):
        out = {}
        st = list(forms)
        seen = set()
        while st:
            x = st.pop()
            if x.uid in seen: continue
            seen.add(x.uid)
            if x.loose == 0: out[x.uid] = x
            st.extend(x.args)
        return out

    def instantiate(self):
        """foralls without a usable trigger are instantiated at the integer variables of the goal"""
        vs = sorted([v for v in TT.var_terms(self.ngoal) if v.sort == 'I'], key=lambda t: t.uid)
        vs = [v for v in vs if '!' in v.data or '.' not in v.data][-6:]
        if not vs: return
        ex = Exporter()
        out = []

        def inner(f):
            if f.op == 'forall': return f
            if f.op in ('or', 'and'):
                for a in f.args:
                    r = inner(a)
                    if r is not None: return r
            return None

        def repl(f, q, b):
            if f is q: return b
            if f.op in ('or', 'and'): return (bor if f.op == 'or' else band)(*[repl(a, q, b) for a in f.args])
            return f

        def go(f, d):
            q = inner(f)
            if q is None:
                if d > 0: out.append(f)
                return
            b, n = q, 0
            while b.op == 'forall': b, n = b.args[0], n + 1
            if d == 0:
                try: ok = q.data != 'I' or ex.patterns(b, tuple(z3.Int('p%d' % i) for i in range(n)), range(n)) is not None
                except Exception: ok = True
                if ok: return
            if d >= 2 or len(out) > 80: return
            for v in vs: go(repl(f, q, open_(q.args[0], v)), d + 1)
        for f in self.forms:
            for g in (f.args if f.op == 'and' else (f,)):
                if g.op in ('forall', 'or') and has_quant(g): go(g, 0)
        for f in out:
            if f is not TRUE: self.forms.append(skolemize(f))

    def saturate(self, rounds=3):
        self.instantiate()
        pending = list(self.forms)
        goal_terms = set(self.ground_terms([self.ngoal]))
        allterms = {}
        n_ext = npick = np2 = nmono = 0
        for rd in range(rounds):
            g = self.ground_terms(pending)
            new = {k: v for k, v in g.items() if k not in allterms}
            allterms.update(new)
            out, fromext = [], []
            # ---- sums
            sums = [t for t in allterms.values() if t.op == 'sum']
            bybody = {}
            for s in sums + [t for t in allterms.values() if t.op == 'pfx']:
                e = bybody.setdefault(s.args[0].uid, (s.args[0], {}))[1]
                for x in s.args[1:]: e[x.uid] = x
            for uid in sorted(bybody):
                body, ends = bybody[uid]
                es = sorted(ends.values(), key=lambda t: t.uid)
                for e in es:
                    for base in ((e, sub(e, ONE)) if rd <= 1 else ()):
                        k = ('unf', uid, base.uid)
                        if k in self.done: continue
                        self.done.add(k)
                        # P(base+1) = P(base) + body(base)
                        out.append(('unf', body, base))
                nn, un = nonneg_body(body), unit_body(body)
                if nn:
                    for e in es:
                        for f in es:
                            if e is f: continue
                            k = ('mono', uid, e.uid, f.uid)
                            if k in self.done or nmono >= (300 if self.lite else 2500): continue
                            nmono += 1
                            self.done.add(k)
                            out.append(('mono', body, e, f, un))
            # ---- sums of terms that are non-negative on the range
                elif body.sort == 'I' and rd <= 1 and len(es) <= 8:
                    for e in es:
                        for f in es:
                            if e is f: continue
                            k = ('cmono', uid, e.uid, f.uid)
                            if k in self.done or le(e, f) is FALSE: continue
                            self.done.add(k)
                            out.append(('cmono', body, e, f, fresh('mono', 'I')))
                            if not is_const(e): out.append(('cmono', body, add(e, ONE), f, fresh('mono', 'I')))
            # ---- extensionality
            if self.ext and rd <= 1:
                ss = sorted(sums, key=lambda t: t.uid)
                for i, s in enumerate(ss):
                    for s2 in ss[i + 1:]:
                        if s.sort != s2.sort or s.args[0] is s2.args[0]: continue
                        if s.uid not in goal_terms and s2.uid not in goal_terms and rd > 0: continue
                        k = ('ext', s.uid, s2.uid)
                        if k in self.done: continue
                        if n_ext >= MAXEXT: continue
                        self.done.add(k)
                        n_ext += 1
                        sk = fresh('ext', 'I')
                        f = bor(eq_noskel(s, s2), ne(s.args[1], s2.args[1]), ne(s.args[2], s2.args[2]),
                                band(le(s.args[1], sk), lt(sk, s.args[2]),
                                     ne(open_(s.args[0], sk), open_(s2.args[0], sk))))
                        out.append(('f', f))
                        fromext.append(f)
                # a sum all of whose terms vanish
                for s in ss:
                    k = ('zero', s.uid)
                    if k in self.done or s.uid not in goal_terms: continue
                    self.done.add(k)
                    sk = fresh('ext', 'I')
                    z = poly_term_zero(s.sort)
                    out.append(('f', bor(eq_noskel(s, z), band(le(s.args[1], sk), lt(sk, s.args[2]),
                                                               ne(open_(s.args[0], sk), z)))))
            if rd == 0 and fromext: goal_terms |= set(self.ground_terms(fromext))
            # ---- running maxima
            for t in [t for t in allterms.values() if t.op == 'rmax']:
                k = ('rmax', t.uid)
                if k in self.done: continue
                self.done.add(k)
                body, hi, init = t.args
                at = lambda e: open_(body, e)
                w = fresh('arg', 'I')
                out.append(('f', le(init, t)))
                out.append(('f', forall_range(lambda e: le(at(e), t), ZERO, hi)))
                out.append(('f', bor(eq(t, init), band(le(ZERO, w), lt(w, hi), eq(t, at(w))))))
                out.append(('f', bor(le(hi, ZERO), le(at(sub(hi, ONE)), t))))
                for x in sorted(allterms.values(), key=lambda y: y.uid):
                    if x.op == 'var' and x.sort == 'I' and x is not w and x.uid in goal_terms:
                        out.append(('f', implies(band(le(ZERO, x), lt(x, hi)), le(at(x), t))))
                for u in [u for u in allterms.values() if u.op == 'rmax' and u is not t and u.args[0] is body]:
                    out.append(('f', implies(band(eq(u.args[2], init), eq(u.args[1], hi)), eq(u, t))))
            # ---- inverse counts
            for t in [t for t in allterms.values() if t.op == 'nth']:
                body, lo, cc = t.args
                at = lambda e: TT.mk_sum(body, lo, e)
                holds = lambda e: band(le(lo, e), le(at(e), cc), lt(cc, add(at(e), open_(body, e))))
                ws = {}
                for x in list(allterms.values()):
                    if len(ws) >= 14: break
                    if x.op in ('sum', 'pfx') and x.args[0] is body and (x.op == 'pfx' or x.args[1] is lo):
                        h = x.args[-1]
                        k = ('nthe', t.uid, h.uid)
                        if h is not t and k not in self.done:
                            self.done.add(k)
                            out.append(('f', implies(band(le(ZERO, cc), lt(cc, at(h))), band(lt(t, h), holds(t)))))
                        for e in (h, sub(h, ONE)):
                            if e is not t and len(TT.subterms(e, lambda z: z.op == 'nth')) == 0: ws[e.uid] = e
                for x in sorted(self.matching(body, allterms).values(), key=lambda y: y.uid): ws[x.uid] = x
                for x in sorted(allterms.values(), key=lambda y: y.uid):
                    if len(ws) < 22 and x.op == 'var' and x.sort == 'I': ws[x.uid] = x
                for w in sorted(ws.values(), key=lambda y: y.uid):
                    k = ('nthw', t.uid, w.uid)
                    if k in self.done or w is t: continue
                    self.done.add(k)
                    out.append(('f', implies(holds(w), eq(w, t))))
            # ---- choice
            idxs = None
            for t in [t for t in allterms.values() if t.op == 'pick']:
                body, lo, hi = t.args
                if self.lite: continue
                if idxs is None:
                    idxs = {}
                    for x in allterms.values():
                        if x.op == 'var' and x.sort == 'I': idxs[x.uid] = x
                        if x.op == 'sel' and x.args[1].loose == 0: idxs[x.args[1].uid] = x.args[1]
                        if x.op == 'pick': idxs[x.uid] = x
                ws = self.matching(body, allterms)
                for u, x in sorted(idxs.items()):
                        if len(ws) < 20 and x.op == 'var': ws[u] = x
                for u, x in sorted(idxs.items(), key=lambda y: (y[1].op != 'var', y[0])):
                    if len(ws) < 40: ws[u] = x
                for w in sorted(ws.values(), key=lambda t: t.uid):
                    if npick >= 240: break
                    k = ('pick', t.uid, w.uid)
                    if k in self.done: continue
                    self.done.add(k)
                    npick += 1
                    out.append(('f', implies(band(le(lo, w), lt(w, hi), open_(body, w)),
                                             band(le(lo, t), lt(t, hi), open_(body, t)))))
            # ---- integer products
            prods = {}
            for t in allterms.values():
                if t.op == 'poly' and t.sort == 'I':
                    for m in poly(t):
                        if len(m) == 2: prods[m] = TT.poly_term({m: 1}, 'I')
            pl = sorted(prods.items(), key=lambda x: x[1].uid)
            for m, pt in pl:
                k = ('p1', pt.uid)
                if k not in self.done:
                    self.done.add(k)
                    for a, c in ((m[0], m[1]), (m[1], m[0])):
                        out.append(('f', implies(eq(a, ZERO), eq(pt, ZERO))))
                        out.append(('f', implies(band(le(ONE, a), le(ZERO, c)), le(c, pt))))
                        out.append(('f', implies(band(le(a, integer(-1)), le(ZERO, c)), le(pt, neg(c)))))
            for i, (m, pt) in enumerate(pl):
                for m2, pt2 in pl[i + 1:]:
                    for x in set(m) & set(m2):
                        k = ('p2', pt.uid, pt2.uid, x.uid)
                        if k in self.done or np2 >= 700: continue
                        self.done.add(k)
                        np2 += 1
                        a = list(m); a.remove(x); a = a[0]
                        b = list(m2); b.remove(x); b = b[0]
                        # (a<b, x>=0 -> a x + x <= b x) and the exact unit-step version
                        out.append(('f', implies(band(lt(a, b), le(ZERO, x)), le(add(pt, x), pt2))))
                        out.append(('f', implies(band(lt(b, a), le(ZERO, x)), le(add(pt2, x), pt))))
                        out.append(('f', implies(eq(a, b), eq(pt, pt2))))
                        out.append(('f', implies(eq(add(a, ONE), b), eq(add(pt, x), pt2))))
                        out.append(('f', implies(eq(add(b, ONE), a), eq(add(pt2, x), pt))))
            # ---- real products that differ in one factor
            rp = {}
            for t in allterms.values():
                if t.op == 'poly' and t.sort == 'R':
                    for m in poly(t):
                        if 2 <= len(m) <= 3: rp[m] = None
            if len(rp) <= 40:
                rl = sorted(rp, key=TT._mono_key)
                for i, m in enumerate(rl):
                    for m2 in rl[i + 1:]:
                        if len(m) != len(m2): continue
                        l, l2 = list(m), list(m2)
                        for x in m:
                            if x in l2:
                                l.remove(x)
                                l2.remove(x)
                        if len(l) != 1: continue
                        k = ('rp', m, m2)
                        if k in self.done: continue
                        self.done.add(k)
                        out.append(('f', implies(eq(l[0], l2[0]), eq(TT.poly_term({m: 1}, 'R'), TT.poly_term({m2: 1}, 'R')))))
                        a, b = l[0], l2[0]
                        if a.op == 'sel' and b.op == 'sel' and a.args[0] is b.args[0]:
                            out.append(('f', implies(eq(a.args[1], b.args[1]), eq(a, b))))
            def cofactors(P, ncof):
                fx = {}
                for m, c in P.items():
                    if len(m) < 2: continue
                    for y in set(m):
                        x = list(m)
                        x.remove(y)
                        x = tuple(x)
                        fx.setdefault(x, []).append((y, c))
                for xm in sorted(fx, key=TT._mono_key):
                    cs = fx[xm]
                    if len(cs) < 2 or ncof >= 120: continue
                    if min(c for y, c in cs) == max(c for y, c in cs): continue
                    B = ZERO
                    for y, c in cs: B = add(B, TT.scale(y, c))
                    if is_const(B): continue
                    if poly(B)[min(poly(B), key=TT._mono_key)] < 0: B = neg(B)
                    k = ('cof', xm, B.uid)
                    if k in self.done: continue
                    self.done.add(k)
                    ncof += 1
                    x = TT.poly_term({xm: 1}, 'I')
                    xB = mul(x, B)
                    if len(xm) == 1:
                        out.append(('f', implies(band(le(ZERO, x), le(ONE, B)), le(x, xB))))
                        out.append(('f', implies(band(le(ZERO, x), le(B, integer(-1))), le(xB, neg(x)))))
                    out.append(('f', implies(eq(B, ZERO), eq(xB, ZERO))))
                return ncof
            # ---- higher monomials vanish with a factor; a factor times its (integral) cofactor
            ncof = 0
            for t in sorted(allterms.values(), key=lambda t: t.uid):
                if t.op != 'poly' or t.sort != 'I': continue
                P = poly(t)
                for m in P:
                    if len(m) < 3: continue
                    k = ('p3', m)
                    if k in self.done: continue
                    self.done.add(k)
                    for x in set(m): out.append(('f', implies(eq(x, ZERO), eq(TT.poly_term({m: 1}, 'I'), ZERO))))
                ncof = cofactors(P, ncof)
            if any(len(m) > 1 for t in allterms.values() if t.op == 'poly' and t.sort == 'I' for m in poly(t)):
                byarr = {}
                for t in allterms.values():
                    if t.op == 'sel': byarr.setdefault(t.args[0].uid, {})[t.args[1].uid] = t.args[1]
                for au in sorted(byarr):
                    ix = [t for u, t in sorted(byarr[au].items())]
                    if len(ix) > 8: continue
                    for i, e in enumerate(ix):
                        for f in ix[i + 1:]:
                            D = poly(sub(e, f))
                            if any(len(m) > 1 for m in D): ncof = cofactors(D, ncof)
            # ---- linear facts multiplied by a common non-negative factor
            if prods and len(prods) >= 3:
                fac = {}
                for m in prods:
                    for x, y in ((m[0], m[1]), (m[1], m[0])): fac.setdefault(x.uid, (x, set()))[1].add(y.uid)
                nadd = 0
                for t in sorted(allterms.values(), key=lambda t: t.uid):
                    if t.op not in ('le0', 'eq0') or t.args[0].sort != 'I' or nadd > 250: continue
                    L = poly(t.args[0])
                    ms = [m for m in L if m]
                    if len(ms) < 3 or len(ms) > 6 or any(len(m) != 1 for m in ms): continue
                    for xu in sorted(fac):
                        x, others = fac[xu]
                        if not all(m[0].uid in others for m in ms): continue
                        k = ('lin', t.uid, xu)
                        if k in self.done: continue
                        self.done.add(k)
                        nadd += 1
                        lx = mul(t.args[0], x)
                        if t.op == 'le0':
                            out.append(('f', implies(band(t, le(ZERO, x)), le(lx, ZERO))))
                            out.append(('f', implies(band(bnot(t), le(ZERO, x)), le(x, lx))))
                        else:
                            out.append(('f', implies(t, eq(lx, ZERO))))
            # ---- floor division, integer division
            for t in list(allterms.values()):
                if t.op in ('fdiv', 'idiv', 'imod'):
                    k = ('div', t.uid)
                    if k in self.done: continue
                    self.done.add(k)
                    a, b = t.args
                    if t.op == 'fdiv':
                        out.append(('f', implies(lt(ZERO, b), band(le(mul(b, t), a), lt(a, add(mul(b, t), b))))))
                        out.append(('f', implies(band(le(ZERO, a), lt(a, b)), eq(t, ZERO))))
                    elif t.op == 'idiv':
                        out.append(('f', implies(band(lt(ZERO, b), le(ZERO, a)), band(le(mul(b, t), a), lt(a, add(mul(b, t), b))))))
                    elif t.op == 'imod':
                        q = mk('idiv', (a, b), None, 'I')
                        out.append(('f', implies(band(lt(ZERO, b), le(ZERO, a)), band(le(ZERO, t), lt(t, b), eq(a, add(mul(b, q), t))))))
                if t.op == 'app' and t.data in ('sqrt', 'fabs'):
                    k = ('sq', t.uid)
                    if k in self.done: continue
                    self.done.add(k)
                    out.append(('f', le(real(0), t)))
                    x = t.args[0]
                    if t.data == 'fabs':
                        out.append(('f', eq_noskel(t, ite(lt(x, real(0)), neg(x), x))))
                    else:
                        out.append(('f', implies(lt(real(0), x), lt(real(0), t))))
                        out.append(('f', implies(eq(x, real(0)), eq(t, real(0)))))
                        out.append(('f', implies(le(real(0), x), eq(mul(t, t), x))))
                if t.op == 'poly' and t.sort == 'R':
                    for m in poly(t):
                        if len(m) == 2:
                            pt = TT.poly_term({m: 1}, 'R')
                            k = ('r', pt.uid)
                            if k in self.done: continue
                            self.done.add(k)
                            if m[0] is m[1]:
                                out.append(('f', le(real(0), pt)))
                                out.append(('f', implies(ne(m[0], real(0)), lt(real(0), pt))))
                            for a, c in ((m[0], m[1]), (m[1], m[0])):
                                out.append(('f', implies(eq(a, real(0)), eq(pt, real(0)))))
                                out.append(('f', implies(eq(a, real(1)), eq(pt, c))))
                                out.append(('f', implies(eq(a, real(-1)), eq(pt, neg(c)))))
                            if m[0].op == 'inv' or m[1].op == 'inv':
                                iv, ot = (m[0], m[1]) if m[0].op == 'inv' else (m[1], m[0])
                                out.append(('f', implies(band(eq(iv.args[0], ot), ne(ot, real(0))), eq(pt, real(1)))))
                if t.op == 'inv':
                    k = ('inv', t.uid)
                    if k in self.done: continue
                    self.done.add(k)
                    x = t.args[0]
                    out.append(('f', implies(eq(x, real(1)), eq(t, real(1)))))
                    out.append(('f', implies(lt(real(0), x), lt(real(0), t))))
            pending = []
            for o in out:
                if o[0] == 'f':
                    if o[1] is TRUE: continue
                    self.lem.append(o)
                    pending.append(o[1])
                else:
                    self.lem.append(o)
                    if o[0] == 'cmono': pending.append(lt(open_(o[1], o[4]), ZERO))
                    if o[0] == 'unf':
                        pending.append(open_(o[1], o[2]))
                        pending.append(o[2])
            if not pending: break

    def to_z3(self):
        ex = Exporter()
        cons = []
        for f in self.forms:
            cons.append(ex.cv(f))
        for o in self.lem:
            if o[0] == 'f':
                cons.append(ex.cv(o[1]))
            elif o[0] == 'unf':
                body, base = o[1], o[2]
                b = ex.cv(base)
                b1 = ex.cv(add(base, ONE))
                cons.append(ex.prefix(body, None, (), b1) == ex.prefix(body, None, (), b) + ex.cv(open_(body, base)))
            elif o[0] == 'mono':
                body, e, f, un = o[1:]
                e_, f_ = ex.cv(e), ex.cv(f)
                pe, pf = ex.prefix(body, None, (), e_), ex.prefix(body, None, (), f_)
                cons.append(z3.Implies(e_ <= f_, pe <= pf))
                if ('unf', body.uid, e.uid) in self.done:
                    cons.append(z3.Implies(e_ < f_, pe + ex.cv(open_(body, e)) <= pf))
                if un: cons.append(z3.Implies(e_ <= f_, pf - pe <= f_ - e_))
            elif o[0] == 'cmono':
                body, e, f, sk = o[1:]
                e_, f_, k_ = ex.cv(e), ex.cv(f), ex.cv(sk)
                pe, pf = ex.prefix(body, None, (), e_), ex.prefix(body, None, (), f_)
                cons.append(z3.Implies(e_ <= f_, z3.Or(pe <= pf, z3.And(e_ <= k_, k_ < f_, ex.cv(lt(open_(body, sk), ZERO))))))
        # closed reads that occur only below quantifiers: make them visible to matching
        seen, gs = set(), {}

        def go(t, inq):
            if (t.uid, inq) in seen: return
            seen.add((t.uid, inq))
            if inq and t.op == 'sel' and t.loose == 0 and not t.sort.startswith('A'): gs[t.uid] = t
            for a in t.args:
                if isinstance(a, T): go(a, inq or t.op in ('forall', 'exists'))
        for f in self.forms: go(f, False)
        for t in [gs[k] for k in sorted(gs)][:200]:
            try: e = ex.cv(t)
            except Unsupported: continue
            cons.append(z3.Function('vis:' + str(e.sort()), e.sort(), z3.BoolSort())(e))
        n = 0
        while n < len(ex.side):
            t, c = ex.side[n]
            n += 1
            v = z3.Int('ax%d' % t.uid)
            vv = fresh('ax', 'I')
            body = close(select(t, vv), vv)
            lhs = ex.fn('sel', t.sort, 'I', t.sort[1:])(c, v)
            if body.loose == 0:
                rhs = ex.cv(body)
            else:
                rhs = ex.cv(body, (v,))
            cons.append(z3.ForAll([v], lhs == rhs, patterns=[lhs]))
        return cons


def poly_term_zero(sort):
    return TT.poly_term({}, sort)


def eq_noskel(a, b):
    return eq(a, b)


STATS = {'queries': 0, 'time': 0.0, 'proved': 0, 'trivial': 0}


def fold_names(hs, goal):
    """named sums: equalities between atoms are applied as rewrites, and  v * inv(v)  cancels where v /= 0 is provable"""
    if not any('fn!' in v.data for h in hs + [goal] for v in var_terms(h)): return hs, goal
    rep, kept, defs = {}, [], {}

    def find(a):
        while a.uid in rep: a = rep[a.uid]
        return a
    for rnd in range(3):
        n0 = len(rep)
        for h in hs:
            for q in (h.args if h.op == 'and' else (h,)):
                if q.op != 'eq0' or q.args[0].sort != 'R': continue
                ms = list(poly(q.args[0]).items())
                if len(ms) > 2:
                    # two names of the same polynomial
                    nv = [(m[0], c) for m, c in ms if len(m) == 1 and m[0].op == 'var' and 'fn!' in m[0].data and abs(c) == 1]
                    if len(nv) != 1: continue
                    v, c = nv[0]
                    P = scale(sub(q.args[0], scale(v, c)), -c)
                    if v.uid in free_vars(P): continue
                    a, b = find(v), find(defs.setdefault(P.uid, v))
                    if a is not b: rep[a.uid] = b
                    continue
                if len(ms) != 2 or any(len(m) != 1 for m, c in ms) or ms[0][1] + ms[1][1] != 0: continue
                a, b = find(ms[0][0][0]), find(ms[1][0][0])
                if a is b or not all(x.loose == 0 and (x.op == 'sum' or (x.op == 'var' and 'fn!' in x.data)) for x in (a, b)): continue
                if (a.op == 'var') == (b.op == 'var') and a.uid < b.uid or a.op == 'var' and b.op != 'var': a, b = b, a
                rep[a.uid] = b
                if a.op == 'sum': kept.append((a, b))
        if len(rep) == n0: break
        hs, goal = _fold(hs, goal, find)
    vs = [t for t in subterms(goal, lambda x: x.op == 'inv' and x.args[0].op == 'var')]
    goal2 = goal
    for t in vs:
        v = t.args[0]
        if goal.op == 'eq0' and prove([h for h in hs if v.uid in free_vars(h) and not any(x.op == 'inv' for x in subterms(h, lambda x: x.op == 'inv'))], ne(v, real(0)), 1500)[0]:
            out = real(0)
            for m, c in poly(goal2.args[0]).items():
                m = list(m)
                while v in m and t in m:
                    m.remove(v)
                    m.remove(t)
                out = add(out, poly_term({tuple(sorted(m, key=lambda a: a.uid)): c}, 'R'))
            goal2 = eq(out, real(0))
            if goal2.op != 'eq0': break
    return hs + [eq(a, find(b)) for a, b in kept], goal2


def _fold(hs, goal, find):
    memo = {}

    def go(x):
        y = find(x)
        if y is not x: return y
        r = memo.get(x.uid)
        if r is None:
            r = memo[x.uid] = rebuild(x, tuple(go(a) for a in x.args)) if x.args else x
        return r
    return [h for h in (go(h) for h in hs) if h is not TRUE], go(goal)


def is_instance(hs, goal):
    """the goal is literally an instance of a quantified hypothesis at one of its own integer variables"""
    if goal.op not in ('eq0', 'le0', 'lt0'): return False
    vs = [v for v in TT.var_terms(goal) if v.sort == 'I' and '!' in v.data]
    if not vs: return False
    have = {h.uid for h in hs}
    same = {goal.uid}
    if goal.op == 'eq0': same.add(eq(neg(goal.args[0]), real(0) if goal.args[0].sort == 'R' else ZERO).uid)
    for h in hs:
        if h.op != 'forall' or h.data != 'I' or h.args[0].op == 'forall': continue
        for v in vs:
            b = open_(h.args[0], v)
            ds = b.args if b.op == 'or' else (b,)
            if any(d.uid in same or goal.op == 'eq0' and d.op == 'eq0' and add(d.args[0], goal.args[0]) in (ZERO, real(0)) for d in ds) and \
               all(d.uid in same or bnot(d).uid in have or goal.op == 'eq0' and d.op == 'eq0' and add(d.args[0], goal.args[0]) in (ZERO, real(0)) for d in ds):
                return True
    return False


def prove(hyps, goal, timeout=10000, ext=True, want=None):
    """-> (proved: bool, reason: str, seconds)"""
    t0 = time.time()
    if goal is TRUE:
        STATS['trivial'] += 1
        return True, 'trivial', 0.0
    hs = []
    for h in hyps:
        if h is FALSE:
            STATS['trivial'] += 1
            return True, 'trivial', 0.0
        if h is goal:
            STATS['trivial'] += 1
            return True, 'trivial', 0.0
        if h is not TRUE: hs.append(h)
    if goal.op == 'and':
        for g in goal.args:
            ok, why, _ = prove(hs, g, timeout, ext)
            if not ok: return False, why, time.time() - t0
        return True, 'unsat', time.time() - t0
    hs, goal = fold_names(hs, goal)
    if goal is TRUE: return True, 'folded', time.time() - t0
    hs = relevant(hs, goal)
    if is_instance(hs, goal):
        STATS['trivial'] += 1
        return True, 'instance', time.time() - t0
    try:
        p = Problem(hs, goal, ext)
        p.saturate()
        cons = p.to_z3()
    except Unsupported as e:
        return False, 'unsupported: %s' % e, time.time() - t0
    s = z3.Solver()
    s.set('timeout', int(timeout))
    s.set('auto_config', False)
    s.set('mbqi', False)
    s.set('random_seed', 1)
    s.add(*cons)
    if want is not None: want['smt2'] = s
    r = s.check()
    dt = time.time() - t0
    STATS['queries'] += 1
    STATS['time'] += dt
    if r == z3.unsat:
        STATS['proved'] += 1
        return True, 'unsat', dt
    return False, ('sat' if r == z3.sat else 'unknown: ' + s.reason_unknown()), dt


def has_compaction(t):
    return bool(TT.subterms(t, lambda z: z.op == 'nth'))


def resolve_counts(hyps, goal):
    """inverse-count terms whose value is one of the variables at hand are replaced by it: (hyps, goal)"""
    if goal.op == 'or':
        tgt = [a for a in goal.args if has_compaction(a)]
        if len(tgt) != 1: return None
        hyps = hyps + [bnot(a) for a in goal.args if a is not tgt[0]]
        goal = tgt[0]
    did = False
    for _ in range(4):
        ts = TT.subterms(goal, lambda z: z.op == 'nth' and z.loose == 0)
        ts = [t for t in ts if not any(has_compaction(a) for a in t.args)]
        hit = None
        for t in sorted(ts, key=lambda z: z.uid)[:3]:
            body, lo, cc = t.args
            vs = [v for v in TT.var_terms(band(goal, *hyps)) if v.sort == 'I']
            fv = TT.free_vars(cc)
            fg = TT.free_vars(goal)
            vs = sorted([v for v in vs if v.uid in fg or v.uid in fv], key=lambda v: (v.uid not in fv, v.uid))
            es = TT.subterms(band(goal, *hyps), lambda z: z.op == 'sum' and z.args[0] is body and z.args[2].loose == 0 and z.args[2] is not t)
            es = sorted(set(z.args[2] for z in es if not has_compaction(z.args[2])), key=lambda z: z.uid)
            for w in es[:4] + vs[:6]:
                at = TT.mk_sum(body, lo, w)
                need = (le(lo, w), le(at, cc), lt(cc, add(at, open_(body, w))))
                if all(prove(hyps, q, 2500, 'lite')[0] for q in need):
                    hit = (t, w)
                    break
            if hit: break
        if hit is None: break
        goal = replace(goal, hit[0], hit[1])
        did = True
    return (hyps, goal) if did else None


def replace(t, a, b, memo=None):
    if memo is None: memo = {}
    if t is a: return b
    r = memo.get(t.uid)
    if r is None:
        r = TT.rebuild(t, [replace(x, a, b, memo) for x in t.args]) if t.args else t
        memo[t.uid] = r
    return r


def relevant(hs, goal):
    """conjunct splitting only (all hypotheses are kept)"""
    out, seen = [], set()
    for h in hs:
        for x in (h.args if h.op == 'and' else (h,)):
            if x.uid not in seen:
                seen.add(x.uid)
                out.append(x)
    return out


def cond_terms(forms):
    """ground conditions of if-then-else terms, by number of occurrences"""
    seen, cnt = set(), {}
    st = list(forms)
    while st:
        t = st.pop()
        if t.uid in seen: continue
        seen.add(t.uid)
        if t.op == 'ite':
            c = t.args[0]
            for c in (c.args if c.op in ('and', 'or') else (c,)):
                if c.loose == 0 and not has_quant(c) and c.op != 'and' and c.op != 'or':
                    cnt[c.uid] = (cnt.get(c.uid, (0, c))[0] + 1, c)
        st.extend(t.args)
    return [c for n, c in sorted(cnt.values(), key=lambda x: (-x[0], x[1].uid))]


def assume_cond(forms, c, val):
    """replace if-then-else on c (or its negation) by the branch taken"""
    nc = bnot(c)
    memo = {}

    def go(t):
        r = memo.get(t.uid)
        if r is not None: return r
        if t.op == 'ite':
            q = t.args[0]
            if q.op in ('and', 'or'):
                q = (band if q.op == 'and' else bor)(*[(TRUE if val else FALSE) if x is c else (FALSE if val else TRUE) if x is nc else x for x in q.args])
            elif q is c: q = TRUE if val else FALSE
            elif q is nc: q = FALSE if val else TRUE
            if q is TRUE: r = go(t.args[1])
            elif q is FALSE: r = go(t.args[2])
            else: r = TT.ite(go(q), go(t.args[1]), go(t.args[2]))
        else: r = rebuild(t, [go(a) for a in t.args]) if t.args else t
        memo[t.uid] = r
        return r
    return [go(f) for f in forms] + [c if val else nc]


def bound_conds(goal):
    """ground conditions occurring inside sums (where the solver cannot split on them)"""
    out, seen = {}, set()
    st = [(goal, False)]
    while st:
        t, inside = st.pop()
        if (t.uid, inside) in seen: continue
        seen.add((t.uid, inside))
        if t.op == 'ite' and inside:
            c = t.args[0]
            for q in (c.args if c.op in ('and', 'or') else (c,)):
                if q.loose == 0 and not has_quant(q) and q.op not in ('and', 'or'): out[q.uid] = q
        ins = inside or t.op in ('sum', 'pfx', 'nth', 'rmax')
        for a in t.args: st.append((a, ins))
    return [out[k] for k in sorted(out)]


def decide_conds(hyps, goal):
    """ground conditions inside sums that follow from (contradict) the hypotheses are replaced: goal or None"""
    did = False
    hyps = [h for h in relevant(hyps, goal) if not has_quant(h) and not TT.subterms(h, lambda z: z.op in ('sum', 'pfx', 'nth', 'rmax', 'pick'))]
    for c in bound_conds(goal)[:10]:
        for v in (True, False):
            if prove(hyps, c if v else bnot(c), 1000, False)[0]:
                goal = assume_cond([goal], c, v)[0]
                did = True
                break
    return goal if did else None


def prove_cases(hyps, goal, timeout=10000, depth=2, first=True):
    """prove, splitting on the conditions of if-then-else terms when the plain attempt fails"""
    ok, why, dt = prove(hyps, goal, timeout) if first else (False, '', 0.0)
    if ok or depth == 0 or 'unsupported' in why: return ok, why, dt
    hs = relevant([h for h in hyps if h is not TRUE], goal)
    for c in cond_terms([goal] + hs)[:4]:
        good = True
        for v in (True, False):
            fs = assume_cond(hs + [goal], c, v)
            o, w, d = prove_cases(fs[:-2] + fs[-1:], fs[-2], timeout, depth - 1)
            dt += d
            if not o:
                good = False
                break
        if good: return True, 'unsat', dt
    return False, why, dt
