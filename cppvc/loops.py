"""Loops.

For every loop the engine looks for an inductive invariant of the form
    leaf == closed_form(n)          (n = number of completed iterations)
for each variable / array the loop modifies.  Closed forms are *guessed* here from the
effect of one symbolic iteration; that they hold initially and are preserved by the body is
then recorded as an obligation for the solver, so a wrong guess can only make a proof fail.
Leaves for which no closed form is found are havoced and constrained by the candidate
invariants the contract supplies (those that the solver shows inductive are kept).
"""
from .terms import *
from . import terms as TT
from .values import *
from . import smt
import os

DEBUG = bool(os.environ.get('CPPVC_DEBUG'))
UNROLL_MAX = 10


def X():
    from . import exec as E
    return E


def err(msg): raise X().VCError(msg)


# ------------------------------------------------------------------ store comparison
def rename_cells(v, sigma):
    if isinstance(v, VRef):
        c = sigma.get(v.cell)
        return v if c is None or c == v.cell else VRef(c, v.et)
    if isinstance(v, Struct): return Struct(v.cls, {k: rename_cells(x, sigma) for k, x in v.f.items()})
    if isinstance(v, PtrV) and v.base is not None:
        c = sigma.get(v.base.cell)
        return v if c is None or c == v.base.cell else PtrV(LV(c, v.base.path), v.off)
    if isinstance(v, RefV):
        c = sigma.get(v.lv.cell)
        return v if c is None or c == v.lv.cell else RefV(LV(c, v.lv.path))
    return v


def unify(H, E):
    """E: store after the body.  Returns E restricted to H's cells with cells renamed so that
       every variable of H keeps its buffer cell."""
    E_ = X()
    bufH = E_.buffer_cells(H)
    sigma, inv_, work = {}, {}, []

    def bind(ce, ch):
        if ce in sigma:
            if sigma[ce] != ch: err('loop body re-seats a pointer or buffer')
            return
        if ch in inv_: err('loop body aliases buffers: %s %s %s' % (ch, ce, inv_[ch]))
        sigma[ce] = ch
        inv_[ch] = ce
        work.append((ch, ce))

    def walk(h, e):
        if h is e and not isinstance(h, (VRef, PtrV, RefV, Struct)): return
        if isinstance(h, VRef) and isinstance(e, VRef): bind(e.cell, h.cell)
        elif isinstance(h, Struct) and isinstance(e, Struct):
            for k in h.f:
                if k in e.f: walk(h.f[k], e.f[k])
        elif isinstance(h, PtrV) and isinstance(e, PtrV):
            if h.base is not None and e.base is not None: bind(e.base.cell, h.base.cell)
        elif isinstance(h, RefV) and isinstance(e, RefV):
            bind(e.lv.cell, h.lv.cell)
    roots = [c for c in H if c not in bufH]
    for c in roots:
        if c in E:
            if c in sigma or c in inv_:
                if sigma.get(c) != c: err('loop body re-seats a pointer')
            else: bind(c, c)
    while work:
        ch, ce = work.pop()
        if ch in H and ce in E: walk(H[ch], E[ce])
    for c in H:
        if c in E and c not in sigma and c not in inv_:
            sigma[c] = c
            inv_[c] = c
    out = {}
    for ch in H:
        ce = inv_.get(ch)
        if ce is None or ce not in E: continue
        out[ch] = rename_cells(E[ce], sigma)
    return out


def leaf_map(store):
    m = {}
    for c, v in store.items():
        for p, t in leaves(v): m[(c,) + p] = t
    return m


def diff(H, E):
    """keys of leaves that differ; undef list"""
    keys, undefs = set(), []

    def walk(c, h, e, path):
        if h is e: return
        if isinstance(h, Undef):
            if isinstance(e, T): undefs.append((c, path, e.sort))
            elif isinstance(e, (Struct, PtrV, VRef, Opaque)): err('uninitialised aggregate assigned in loop')
            return
        if isinstance(e, Undef):
            if isinstance(h, T): keys.add((c,) + path)
            return
        if isinstance(h, T):
            if not isinstance(e, T): err('value kind changes in loop')
            keys.add((c,) + path)
            return
        if isinstance(h, Struct) and isinstance(e, Struct) and h.cls == e.cls:
            for k in h.f: walk(c, h.f[k], e.f.get(k, UNDEF), path + (k,))
            return
        if isinstance(h, VecV) and isinstance(e, VecV):
            if h.size is not e.size: keys.add((c,) + path + ('#size',))
            walk(c, h.tree, e.tree, path + ('#el',))
            return
        if not same_shape(h, e):
            err('value shape changes in loop: %r -> %r' % (h, e))
        lh, le_ = dict(leaves(h)), dict(leaves(e))
        if set(lh) != set(le_): err('value shape changes in loop: %r -> %r' % (h, e))
        for p in lh:
            if lh[p] is not le_[p]: keys.add((c,) + path + p)
    for c in H:
        if c in E: walk(c, H[c], E[c], ())
    return keys, undefs


def set_leaves(store, vals):
    """new store with the given leaves replaced"""
    bycell = {}
    for k, t in vals.items(): bycell.setdefault(k[0], {})[k[1:]] = t
    out = dict(store)
    for c, d in bycell.items():
        out[c] = map_leaves_p(store[c], lambda p, t, d=d: d.get(p, t))
    return out


def set_undef(store, undefs):
    out = dict(store)

    def put(v, path, t):
        if not path: return t if isinstance(v, Undef) else v
        return v.set(path[0], put(v.f[path[0]], path[1:], t))
    for c, path, s in undefs:
        out[c] = put(out[c], path, fresh('uninit', s))
    return out


# ------------------------------------------------------------------ running the body once
def one_iter(ex, st, cond, body, inc):
    """run cond+body+inc from st; returns (state after or None, exits) where exits is a list of
       (kind, state); cond's value is assumed inside"""
    ex.st = st.copy()
    exits = []
    c = cond()
    cst = ex.st.copy()
    ex.assume(c, 'c')
    outs = body()
    conts = outs.pop('cont', [])
    if ex.st is not None: conts = conts + [ex.st]
    for k, v in outs.items():
        for s in v: exits.append((k, s))
    if conts:
        try:
            ex.st = ex.merge(conts)
        except X().NoMerge as e:
            err('cannot merge loop body states: %s' % e)
        inc()
    else:
        ex.st = None
    return ex.st, exits, c, cst


class guardctx(object):
    """dry / quick mode bracket"""
    def __init__(self, ex, quick):
        self.ex, self.quick = ex, quick

    def __enter__(self):
        self.ex.dry += 1
        self.ex.inloop += 1
        if self.quick: self.ex.quick += 1

    def __exit__(self, *a):
        self.ex.dry -= 1
        self.ex.inloop -= 1
        if self.quick: self.ex.quick -= 1


def havoc_name(ex, i, sort):
    return var('h@%d_%d%s' % (ex.inloop, i, sort), sort)


def havoc(ex, store, keys):
    lm = leaf_map(store)
    vals = {}
    for i, k in enumerate(sorted((k for k in keys if k in lm), key=keyorder)):
        vals[k] = havoc_name(ex, i, lm[k].sort)
    return set_leaves(store, vals), vals


def keyorder(k): return tuple(str(x) for x in k)


def modset(ex, S0, cond, body, inc):
    """set of leaves the loop may change; also initialises undefined leaves"""
    keys = set()
    for rounds in range(12):
        hs, vals = havoc(ex, S0.store, keys)
        with guardctx(ex, True):
            nfr = len(ex.frames)
            end, exits, c, cst = one_iter(ex, X().State(hs, S0.pc), cond, body, inc)
            del ex.frames[nfr:]
        new, und = set(), []
        for s in [end] + [s for k, s in exits if k == 'brk'] + [cst]:
            if s is None: continue
            E = unify(hs, s.store)
            k2, u2 = diff(hs, E)
            new |= k2
            und += u2
        if und:
            seen = set()
            und = [u for u in und if not ((u[0], u[1]) in seen or seen.add((u[0], u[1])))]
            S0 = X().State(set_undef(S0.store, und), S0.pc)
            continue
        if new <= keys: return keys, S0
        keys |= new
    err('loop modification set does not stabilise %r %r' % (keys, und))


def quick_loop(ex, cond, body, inc):
    S0 = ex.st
    keys, S0 = modset(ex, S0, cond, body, inc)
    hs, _ = havoc(ex, S0.store, keys)
    lm = leaf_map(hs)
    l0 = leaf_map(S0.store)
    qs = {}
    vals = {}
    for k in sorted((k for k in keys if k in lm), key=keyorder):
        s = lm[k].sort
        a = l0.get(k)
        if s == 'I' and a is not None and not is_const(a):
            # equal before: guessed equal afterwards (Loop.run2 checks the guess)
            if a.uid not in qs: qs[a.uid] = fresh('q', s)
            vals[k] = qs[a.uid]
        else: vals[k] = fresh('q', s)
    hs = set_leaves(hs, vals)
    ex.st = X().State(hs, S0.pc)
    cond()
    return {}


def try_unroll(ex, cond, body, inc):
    S0 = ex.st
    with guardctx(ex, True):
        ex.st = S0.copy()
        c = cond()
        k = 0
        if c is TRUE:
            ok = False
            nfr = len(ex.frames)
            while k < UNROLL_MAX:
                if c is FALSE:
                    ok = True
                    break
                if c is not TRUE: break
                try:
                    outs = body()
                    conts = outs.get('cont', [])
                    if ex.st is not None: conts = conts + [ex.st]
                    if not conts:
                        ok = True
                        break
                    ex.st = ex.merge(conts)
                    inc()
                    c = cond()
                except (X().VCError, X().NoMerge, X().Dead):
                    break
                k += 1
            if c is FALSE: ok = True
            del ex.frames[nfr:]
        else:
            ok = c is FALSE
    ex.st = S0
    if not ok: return None
    outs = {}
    brk = []
    while ex.st is not None:
        c = cond()
        if c is FALSE: break
        o = body()
        conts = o.pop('cont', [])
        brk += o.pop('brk', [])
        for kk, v in o.items(): outs.setdefault(kk, []).extend(v)
        if ex.st is not None: conts = conts + [ex.st]
        if not conts:
            ex.st = None
            break
        ex.st = ex.merge_or_fork(conts)
        inc()
    sts = brk + ([ex.st] if ex.st is not None else [])
    ex.st = ex.merge_or_fork(sts) if sts else None
    return outs


def run_loop(ex, node, cond, body, inc):
    if ex.quick: return quick_loop(ex, cond, body, inc)
    u = try_unroll(ex, cond, body, inc)
    if u is not None: return u
    ex.loops += 1
    return Loop(ex, node, cond, body, inc).run()


# ------------------------------------------------------------------ term surgery
def split_cond(t):
    """an if-condition of some ite in t that is not under a binder"""
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x.uid in seen: continue
        seen.add(x.uid)
        if x.op == 'ite' and x.args[0].loose == 0 and not split_cond(x.args[0]):
            return x.args[0]
        if x.op in BINDERS:
            st.extend(x.args[1:])
            continue
        st.extend(x.args)
    return None


def assume_in(t, c, val, memo=None):
    """simplify t under the assumption that boolean c has value val"""
    if memo is None: memo = {}
    return _assume(t, c, bnot(c), val, memo)


def _assume(t, c, nc, val, memo):
    r = memo.get(t.uid)
    if r is not None: return r
    if t is c: r = TRUE if val else FALSE
    elif t is nc: r = FALSE if val else TRUE
    elif not t.args: r = t
    elif t.op == 'poly' and not any(has_ite(a) for a in t.args): r = t
    else:
        r = rebuild(t, [_assume(a, c, nc, val, memo) if a.loose == 0 or True else a for a in t.args])
        if val and c.op == 'and' and r.op == 'ite':
            pass
    memo[t.uid] = r
    return r


_hi = {}


def has_ite(t):
    r = _hi.get(t.uid)
    if r is None:
        r = t.op == 'ite' or t.sort == 'B' or any(has_ite(a) for a in t.args)
        _hi[t.uid] = r
    return r


def cases(t, limit=24):
    """decision tree of t: list of (literals, value)"""
    out = []

    def go(t, lits):
        if len(out) > limit: return
        c = split_cond(t)
        if c is None:
            out.append((lits, t))
            return
        a = assume_in(t, c, True)
        if c.op == 'and':
            for x in c.args: a = assume_in(a, x, True)
        go(a, lits + [c])
        go(assume_in(t, c, False), lits + [bnot(c)])
    go(t, [])
    if len(out) > limit: return None
    return out


def conj_lits(ls):
    out = []
    for l in ls:
        if l.op == 'and': out.extend(l.args)
        else: out.append(l)
    return out


def select_n(a, idx):
    for i in idx: a = select(a, i)
    return a


def levels(sort):
    n = 0
    while sort[n] == 'A': n += 1
    return n


def lam_n(f, n, idx=()):
    if n == 0: return f(idx)
    return lam(lambda c: lam_n(f, n - 1, idx + (c,)))


def lin_in(p, m):
    """integer term p = a + b*m with a, b free of m -> (a, b) or None"""
    pp = poly(p)
    a, b = {}, {}
    for mono, k in pp.items():
        cnt = sum(1 for x in mono if x is m)
        if cnt == 0:
            if any(occurs(m, x) for x in mono): return None
            a[mono] = k
        elif cnt == 1:
            rest = list(mono)
            rest.remove(m)
            if any(occurs(m, x) for x in rest): return None
            b[tuple(rest)] = k
        else: return None
    return poly_term(a, p.sort), poly_term(b, p.sort)


class Loop(object):
    def __init__(self, ex, node, cond, body, inc):
        self.ex, self.node, self.cond, self.body, self.inc = ex, node, cond, body, inc

    # -- one symbolic iteration at n ------------------------------------
    def head(self, known, nterm, havocs):
        vals = {}
        for k in self.keys:
            if k in known: vals[k] = known[k](nterm)
            else: vals[k] = havocs[k]
        return set_leaves(self.S0.store, vals)

    def facts(self, n):
        fs = [le(ZERO, n)]
        if self.N is not None: fs.append(lt(n, self.N))
        return fs

    def iterate(self, known, quick=False, extra=(), dry=True, havocs=None):
        """-> (head store, end leaf map or None, end pc, exits, cond)"""
        ex = self.ex
        hv = havocs or self.hv
        hs = self.head(known, self.n, hv)
        pc = self.S0.pc + tuple(('f', f) for f in self.facts(self.n)) + tuple(('f', f) for f in extra)
        self.basepc = len(pc)
        nfr = len(ex.frames)
        self.mark = next(TT._ctr)
        if dry:
            with guardctx(ex, quick):
                end, exits, c, cst = one_iter(ex, X().State(hs, pc), self.cond, self.body, self.inc)
        else:
            ex.inloop += 1
            try:
                end, exits, c, cst = one_iter(ex, X().State(hs, pc), self.cond, self.body, self.inc)
            finally:
                ex.inloop -= 1
        del ex.frames[nfr:]
        E = None
        if end is not None:
            es = unify(hs, end.store)
            ks, und = diff(hs, es)
            E = leaf_map(es)
            for k in self.keys:
                if k not in E: E[k] = fresh('undef', self.L0[k].sort)
            extra_keys = ks - self.keys
            if extra_keys:
                # a leaf whose modification was not seen in the quick pass
                err('modification set grew: %r' % (extra_keys,))
        return hs, E, end, exits, c, cst

    def bad(self, t, self_var=None):
        fv = free_vars(t)
        if fv & self.unknown: return True
        for v in var_terms(t):
            nm = v.data
            if '!' in nm:
                try:
                    if int(nm[nm.rindex('!') + 1:]) >= self.mark: return True
                except ValueError: pass
        return False

    # -- closed forms ----------------------------------------------------
    def split_sum(self, G, n):
        """sum_{m<n} G(m)  with loop-invariant part pulled out and telescoping recognised"""
        nv = self.n
        s = G.sort
        p = dict(poly(G))
        inv_part, dep = {}, {}
        for mono, k in p.items():
            if any(occurs(nv, a) for a in mono): dep[mono] = k
            else: inv_part[mono] = k
        res = TT.poly_term({}, s)
        if inv_part:
            res = add(res, mul(lift(n, s), poly_term(inv_part, s)))
        # telescoping differences  c*t(n+1) - c*t(n)
        changed = True
        while changed:
            changed = False
            for mono, k in list(dep.items()):
                if mono not in dep: continue
                t0 = poly_term({mono: 1}, s)
                t1 = subst(t0, {nv: add(nv, ONE)})
                p1 = poly(t1)
                if len(p1) == 1:
                    (m1, k1), = p1.items()
                    if m1 != mono and k1 == 1 and dep.get(m1) == -k:
                        # k*t0 - k*t1 : telescopes to  k*(t(0) - t(n))
                        res = add(res, scale(sub(subst(t0, {nv: ZERO}), subst(t0, {nv: n})), k))
                        del dep[mono], dep[m1]
                        changed = True
                        break
        for mono, k in dep.items():
            t = poly_term({mono: 1}, s)
            r = None
            if t.op == 'sum' and not occurs(nv, t.args[0]):
                body, a, b = t.args
                if subst(a, {nv: add(nv, ONE)}) is b and occurs(nv, b):
                    r = mk_sum(body, subst(a, {nv: ZERO}), subst(a, {nv: n}))
            if r is None:
                r = summ(lambda m: subst(t, {nv: m}), ZERO, n)
            res = add(res, scale(r, k))
        return res

    def accumulated(self, L0, G):
        """L0 + sum_{m<.} G(m), consecutive counts merged"""
        m = var('macc@%d' % self.ex.inloop, 'I')
        t = add(L0, self.split_sum(G, m))
        if t.sort == 'I' and t.op == 'poly':
            hy = None
            again = True
            while again:
                again = False
                p = poly(t) if t.op == 'poly' else {}
                ss = [(q[0], k) for q, k in p.items() if len(q) == 1 and q[0].op == 'sum' and smt.unit_body(q[0].args[0])]
                for a, ka in ss:
                    for b, kb in ss:
                        if a is b or ka != kb or a.args[0] is not b.args[0] or a.args[2] is not b.args[1]: continue
                        if hy is None:
                            hy = self.hyps_at(self.n) + [le(ZERO, m)] + ([le(m, self.N)] if self.N is not None else [])
                        if self.provable(hy, band(le(a.args[1], a.args[2]), le(b.args[1], b.args[2]))):
                            t = add(sub(sub(t, scale(a, ka)), scale(b, kb)), scale(TT.mk_sum(a.args[0], a.args[1], b.args[2]), ka))
                            again = True
                            break
                    if again: break
        return lambda x: subst(t, {m: x})

    def provable(self, hyps, goal, timeout=4000):
        ex = self.ex
        key = (goal.uid, tuple(h.uid for h in hyps))
        r = ex.ccache.get(key)
        if r is None:
            r = smt.prove(hyps, goal, timeout)[0]
            ex.ccache[key] = r
        return r

    def solve(self, k, E, pc):
        H, L0, n = self.hv[k], self.L0[k], self.n
        e = E
        if levels(e.sort) > 0: return self.solve_array(k, H, e, L0, pc)
        if e.sort in 'IR':
            G = sub(e, H)
            if not self.bad(G):
                return self.accumulated(L0, self.drop_guard(G))
            if not self.bad(e):
                return lambda m: ite(eq(m, ZERO), L0, subst(e, {n: sub(m, ONE)}))
            # running maximum (minimum) of a nested loop
            for sg in (1, -1):
                t = scale(e, sg)
                if t.op == 'rmax' and t.args[2] is scale(H, sg) and not self.bad(t.args[0]) and not self.bad(t.args[1]):
                    body = TT.mk_rmax(t.args[0], t.args[1], scale(L0, sg))
                    return lambda m: scale(TT.rmax(lambda j: subst(body, {n: j}), m, scale(L0, sg)), sg)
            # conditional accumulate  ite(c, H+g, H): cases
            cs = cases(e)
            if cs is not None:
                G = self.combine(cs, H, lambda v: sub(v, H), TT.poly_term({}, e.sort))
                if G is not None and not self.bad(G):
                    return self.accumulated(L0, self.drop_guard(G))
            r = self.extremum(H, e, L0, cs) if cs is not None else None
            if r: return r
            if e.sort == 'I':
                # keeps its initial value
                e0 = subst(e, {H: L0})
                if not self.bad(e0) and self.N is not None and \
                        self.provable(self.hyps_at(n) + [le(ZERO, n), lt(n, self.N)], eq(e0, L0), 3000):
                    return lambda m: L0
            return self.solve_overwrite(H, e, L0, pc)
        if e.sort == 'B':
            g0, g1 = subst(e, {H: FALSE}), subst(e, {H: TRUE})
            if not self.bad(e):
                return lambda m: ite(eq(m, ZERO), L0, subst(e, {n: sub(m, ONE)}))
            if g1 is TRUE and not self.bad(g0):
                return lambda m: bor(L0, exists_range(lambda j: subst(g0, {n: j}), ZERO, m))
            if g0 is FALSE and not self.bad(g1):
                return lambda m: band(L0, forall_range(lambda j: subst(g1, {n: j}), ZERO, m))
            return self.solve_overwrite(H, e, L0, pc)
        if not self.bad(e):
            return lambda m: ite(eq(m, ZERO), L0, subst(e, {n: sub(m, ONE)}))
        return self.solve_overwrite(H, e, L0, pc)

    def drop_guard(self, G):
        """ite(c, g, 0) that equals g anyway (or equals 0)"""
        if G.op == 'ite' and not has_ite(G.args[1]) and not has_ite(G.args[2]):
            hy = self.hyps_at(self.n) + ([lt(self.n, self.N)] if self.N is not None else [])
            for g in G.args[1:]:
                ok = self.provable(hy, eq(G, g), 1500)
                if DEBUG: print('   drop_guard', show(G), ok, self.N, len(hy))
                if ok: return g
        return G

    def thin(self, w, cv):
        """drop conjuncts about the iteration alone that follow from the others"""
        if w.op != 'and': return w
        keep = list(w.args)
        for l in list(keep):
            if any(occurs(c, l) for c in cv) or len(keep) < 2: continue
            rest = [x for x in keep if x is not l]
            if self.provable(self.hyps_at(self.n) + rest, l, 1500): keep = rest
        return band(*keep)

    def combine(self, cs, H, f, zero):
        """nested ite over the cases: unchanged -> zero, else f(value)"""
        r = zero
        for lits, v in reversed(cs):
            x = zero if v is H else f(v)
            r = ite(band(*lits), x, r) if lits else x
        return r

    def extremum(self, H, e, L0, cs):
        """scalar replaced by a larger (smaller) value: a running maximum (minimum)"""
        n = self.n
        body = sign = None
        for lits, v in cs:
            if v is H: continue
            if self.bad(v): return None
            up = [l for l in lits if l is lt(H, v) or l is le(H, v)]
            dn = [l for l in lits if l is lt(v, H) or l is le(v, H)]
            if bool(up) == bool(dn) or body is not None: return None
            rest = [l for l in lits if not any(l is x for x in up + dn)]
            if any(self.bad(l) for l in rest): return None
            sign = 1 if up else -1
            body = ite(band(*rest), scale(v, sign), scale(L0, sign)) if rest else scale(v, sign)
        if body is None: return None
        return lambda m: scale(TT.rmax(lambda j: subst(body, {n: j}), m, scale(L0, sign)), sign)

    def solve_overwrite(self, H, e, L0, pc):
        """scalar assigned under a condition: the last assignment wins"""
        n = self.n
        cs = cases(e)
        if cs is None: return None
        w = bor(*[band(*l) for l, v in cs if v is not H])
        h = None
        for lits, v in reversed(cs):
            if v is H: continue
            h = v if h is None else ite(band(*lits), v, h)
        if h is None or self.bad(w) or self.bad(h): return None
        m1, m2 = var('ma', 'I'), var('mb', 'I')
        hy = self.hyps_at(m1) + self.hyps_at(m2)
        uniq = self.provable(hy + [subst(w, {n: m1}), subst(w, {n: m2})], eq(m1, m2))
        N = self.N

        def form(m):
            if uniq:
                P = pick(lambda j: subst(w, {n: j}), ZERO, N)
            else:
                P = pick(lambda j: band(subst(w, {n: j}),
                                        forall_range(lambda i: bnot(subst(w, {n: i})), add(j, ONE), m)), ZERO, m)
            return ite(band(le(ZERO, P), lt(P, m), subst(w, {n: P})), subst(h, {n: P}), L0)
        return form

    def hyps_at(self, m):
        """facts known at iteration m that do not involve havoced leaves"""
        base = [t for k, t in self.S0.pc] + self.ex.lemmas
        return base + [subst(f, {self.n: m}) for f in self.facts(self.n)]

    def solve_array(self, k, H, E, L0, pc):
        n, ex = self.n, self.ex
        r = levels(E.sort)
        cv = [var('c@%d_%d' % (ex.inloop, i), 'I') for i in range(r)]
        Hc = select_n(H, cv)
        e = select_n(E, cv)
        cs = cases(e)
        if cs is None: return None
        # under a guard  c == t  rewrite reads H[t] to H[c]
        ncs = []
        for lits, v in cs:
            ls = conj_lits(lits)
            v = self.rewrite_reads(v, ls, H, cv)
            if v is not Hc and self.bad(band(*lits)):
                # a guard on the old value of the cell itself belongs to the value
                rl = [self.rewrite_reads(l, ls, H, cv) for l in ls]
                own = [l for l in rl if self.bad(l)]
                v = ite(band(*own), v, Hc)
                lits = [l for l in rl if not any(l is o for o in own)]
            ncs.append((lits, v))
        writes = [(lits, v) for lits, v in ncs if v is not Hc]
        if not writes: return lambda m: L0
        w = bor(*[band(*l) for l, v in writes])
        if self.bad(w):
            if DEBUG: print('   array write region depends on unknown', show(w)[:300])
            return None
        h = None
        for lits, v in reversed(writes):
            h = v if h is None else ite(band(*lits), v, h)
        w = self.thin(w, cv)
        L0c = select_n(L0, cv)
        sp = self.compaction(w, h, cv, pc)
        if sp is None: sp = self.segments(w, h, cv, pc)
        if sp is not None:
            def form(m):
                def body(idx):
                    mp = {c: i for c, i in zip(cv, idx)}
                    return ite(subst(sp[0](m), mp), subst(sp[1], mp), select_n(L0, idx))
                return lam_n(body, r)
            return form
        J = self.inverse(w, cv, pc)
        if J is not None:
            h2 = self.replace_reads(h, H, L0, w, cv, J, pc)
            if h2 is not None:
                def form(m):
                    def body(idx):
                        mp = {c: i for c, i in zip(cv, idx)}
                        j = subst(J, mp)
                        mp[n] = j
                        return ite(band(le(ZERO, j), lt(j, m), subst(w, mp)), subst(h2, mp),
                                   select_n(L0, idx))
                    return lam_n(body, r)
                return form
            sc = self.scan(h, H, L0, w, cv, J, pc)
            if sc is not None: return sc
        # several writers of one cell: accumulation
        if Hc.sort in 'IR':
            G = TT.poly_term({}, Hc.sort)
            for lits, v in reversed(writes):
                d = sub(v, Hc)
                G = ite(band(*lits), d, G)
            if not self.bad(G):
                def form(m):
                    def body(idx):
                        mp = {c: i for c, i in zip(cv, idx)}
                        g = subst(G, mp)
                        return add(select_n(L0, idx), self.split_sum(g, m))
                    return lam_n(body, r)
                return form
            if DEBUG: print('   accumulate G bad:', show(G)[:600])
        if not self.bad(h):
            if not occurs(n, h):
                def form(m):
                    def body(idx):
                        mp = {c: i for c, i in zip(cv, idx)}
                        return ite(exists_range(lambda j: subst(w, dict(mp, **{}) if False else {**mp, n: j}), ZERO, m),
                                   subst(h, mp), select_n(L0, idx))
                    return lam_n(body, r)
                return form

            def form(m):
                def body(idx):
                    mp = {c: i for c, i in zip(cv, idx)}
                    P = pick(lambda j: band(subst(w, {**mp, n: j}),
                                            forall_range(lambda i: bnot(subst(w, {**mp, n: i})), add(j, ONE), m)),
                             ZERO, m)
                    mp2 = {**mp, n: P}
                    return ite(band(le(ZERO, P), lt(P, m), subst(w, mp2)), subst(h, mp2), select_n(L0, idx))
                return lam_n(body, r)
            return form
        if DEBUG: print('   array value bad:', show(h)[:600], 'J', J and show(J))
        return None

    def rewrite_reads(self, v, lits, H, cv):
        """reads H[t..] with t_i == c_i known from lits become H[c..]"""
        if H.uid not in free_vars(v): return v
        eqs = []
        for l in lits:
            if l.op in ('eq0', 'eq'): eqs.append(l)
        memo = {}

        def same(t, c):
            d = eq(t, c)
            return d is TRUE or any(d is q for q in eqs)

        def go(t):
            if H.uid not in free_vars(t): return t
            r = memo.get(t.uid)
            if r is not None: return r
            base, idx = t, []
            while base.op == 'sel':
                idx.insert(0, base.args[1])
                base = base.args[0]
            if base is H and len(idx) <= len(cv) and len(idx) > 0:
                if all(i.loose == 0 and (i is c or same(i, c)) for i, c in zip(idx, cv)):
                    r = select_n(H, cv[:len(idx)])
                    memo[t.uid] = r
                    return r
            r = rebuild(t, [go(a) for a in t.args])
            memo[t.uid] = r
            return r
        return go(v)

    def compaction(self, w, h, cv, pc):
        """the cell written is a running count: (write condition as a function of the trip count, value)"""
        n = self.n
        if self.bad(h): return None
        lits = conj_lits([w])
        hy = self.hyps_at(n) + ([lt(n, self.N)] if self.N is not None else [])

        def result(S, t, extra):
            """iteration n writes iff S(n) <= t < S(n) + body(n), S = SUM[lo, n+off) body"""
            body, lo, end = S.args
            off = sub(end, n)
            if not self.provable(hy, le(lo, off)): return None
            E = TT.mk_nth(body, lo, t)
            v = subst(h, {n: sub(E, off)})
            if DEBUG: print('   compaction', show(E)[:200])
            return (lambda m: band(le(TT.mk_sum(body, lo, off), t), lt(t, TT.mk_sum(body, lo, add(off, m))), extra)), v

        def count(p, sign, unit):
            """the one running count with coefficient `sign` in p"""
            cs = [q[0] for q, v in poly(p).items() if len(q) == 1 and q[0].op == 'sum' and v == sign and occurs(n, q[0].args[2])
                  and not occurs(n, q[0].args[0]) and not occurs(n, q[0].args[1])
                  and (smt.unit_body if unit else smt.nonneg_body)(q[0].args[0])]
            cs = [q for q in cs if (lambda li: li is not None and li[1] is ONE)(lin_in(q.args[2], n))]
            return cs[0] if len(cs) == 1 else None
        # guard(n) and c == S(n) + rest
        for l in lits:
            if l.op != 'eq0': continue
            p = poly(l.args[0])
            for c in cv:
                k = p.get((c,))
                if k not in (1, -1): continue
                S = count(l.args[0], -k, True)
                if S is None: continue
                t = add(scale(l.args[0], k), S)              # c - rest
                if occurs(n, t): continue
                others = [x for x in lits if x is not l]
                free = [x for x in others if not occurs(n, x)]
                others = [x for x in others if occurs(n, x)]
                if any(occurs(cc, x) for x in others for cc in cv): continue
                g = eq(TT.open_(S.args[0], S.args[2]), ONE)
                if not self.provable(hy + others, g) or not self.provable(hy + [g], band(*others)): continue
                r = result(S, t, band(*free))
                if r is not None: return r
        # S(n) + rest <= t < S(n) + rest + body(n)
        dep = [l for l in lits if occurs(n, l)]
        if len(dep) == 2 and all(l.op == 'le0' for l in dep):
            for lo, hi in (dep, dep[::-1]):
                S = count(lo.args[0], 1, False)
                if S is None: continue
                t = sub(S, lo.args[0])
                if occurs(n, t): continue
                y = add(sub(t, hi.args[0]), ONE)             # t < y
                if not self.provable(hy, eq(y, add(S, TT.open_(S.args[0], S.args[2])))): continue
                r = result(S, t, band(*[l for l in lits if not occurs(n, l)]))
                if r is not None: return r
        return None

    def segments(self, w, h, cv, pc):
        """x(n) <= t < x(n+1) with t and the value independent of the iteration: the segments join up"""
        n = self.n
        if occurs(n, h) or self.bad(h): return None
        lits = conj_lits([w])
        dep = [l for l in lits if occurs(n, l)]
        if len(dep) != 2 or any(l.op != 'le0' for l in dep): return None
        for lo, hi in (dep, dep[::-1]):
            a, b = lo.args[0], hi.args[0]          # x(n) - t <= 0 ; t - x(n+1) + 1 <= 0
            x0 = poly_term({q: v for q, v in poly(a).items() if any(occurs(n, y) for y in q)}, 'I')
            t = sub(x0, a)
            x1 = subst(x0, {n: add(n, ONE)})
            if eq(b, add(sub(t, x1), ONE)) is not TRUE: continue
            if not any(smt.unit_body(z.args[0]) for z in TT.subterms(x0, lambda z: z.op == 'sum')): continue
            hy = self.hyps_at(n) + ([lt(n, self.N)] if self.N is not None else [])
            if not self.provable(hy, le(x0, x1)): continue
            rest = band(*[l for l in lits if not occurs(n, l)])
            if DEBUG: print('   segments', show(x0)[:100], show(t)[:100])
            return (lambda m: band(le(subst(x0, {n: ZERO}), t), lt(t, subst(x0, {n: m})), rest)), h
        return None

    # inverse of the write region: the iteration that writes cell c
    def inverse(self, w, cv, pc):
        n, N = self.n, self.N
        if not occurs(n, w): return None
        if N is None: return None
        cands = []
        lits = []
        st = [w]
        while st:
            x = st.pop()
            if x.op in ('and', 'or'): st.extend(x.args)
            elif x.op == 'not': st.append(x.args[0])
            elif x.op == 'ite': st.extend(x.args)
            else: lits.append(x)
        for l in sorted(lits, key=lambda t: t.uid):
            if l.op in ('eq0', 'le0'):
                p = l.args[0]
                li = lin_in(p, n)
                if li is None:
                    # c - n + R*fdiv(c-n, R): remainder pattern
                    for f in fdivs(p):
                        num, R = f.args
                        q = lin_in(num, n)
                        if q is None or occurs(n, R): continue
                        a, b = q
                        if is_const(b) and const_val(b) == -1:
                            cands.append(sub(a, mul(R, TT.fdiv(a, R))))
                    # d(n) + R*n - c: n is the leading digit of c
                    pp = poly(p)
                    for m, k0 in sorted(pp.items(), key=lambda x: TT._mono_key(x[0])):
                        if n not in m or len(m) < 2 or k0 not in (1, -1): continue
                        R = list(m)
                        R.remove(n)
                        if any(occurs(n, x) for x in R): continue
                        R = poly_term({tuple(R): 1}, 'I')
                        a = poly_term({q: v for q, v in pp.items() if not any(occurs(n, x) for x in q)}, 'I')
                        cands.append(TT.fdiv(scale(a, -k0), R))
                    # n + R*d(n) - c: n is the trailing digit of c
                    k0 = pp.get((n,))
                    if k0 in (1, -1):
                        a = scale(poly_term({q: v for q, v in pp.items() if not any(occurs(n, x) for x in q)}, 'I'), -k0)
                        for q in sorted(pp, key=TT._mono_key):
                            if len(q) != 2 or not any(occurs(n, x) for x in q): continue
                            for R in q:
                                if not occurs(n, R): cands.append(sub(a, mul(R, TT.fdiv(a, R))))
                    continue
                a, b = li
                if is_const(b):
                    kb = const_val(b)
                    if kb == 0: continue
                    if kb in (1, -1): cands.append(scale(a, -kb))
                    elif kb < 0: cands.append(TT.fdiv(a, integer(-kb)))
                    else: cands.append(TT.fdiv(neg(a), integer(kb)))
                else:
                    # a + R*n (<=|==) 0
                    cands.append(TT.fdiv(neg(a), b))
                    cands.append(TT.fdiv(a, neg(b)))
        seen = set()
        hy = self.hyps_at(n)
        for J in cands:
            if J.uid in seen: continue
            seen.add(J.uid)
            if occurs(n, J) or not any(occurs(c, J) for c in cv): continue
            ok = self.provable(hy + [w], eq(n, J))
            if DEBUG: print('   inverse candidate', show(J)[:200], ok)
            if ok: return J
        m1, m2 = var('ma', 'I'), var('mb', 'I')
        hy = self.hyps_at(m1) + self.hyps_at(m2)
        if self.provable(hy + [subst(w, {n: m1}), subst(w, {n: m2})], eq(m1, m2)):
            return pick(lambda j: subst(w, {n: j}), ZERO, N)
        return None

    def replace_reads(self, h, H, L0, w, cv, J, pc):
        """value written, with reads of the array itself replaced by initial values"""
        if not self.bad(h): return h
        n = self.n
        r = len(cv)
        memo = {}
        fail = []

        def go(t):
            if H.uid not in free_vars(t): return t
            q = memo.get(t.uid)
            if q is not None: return q
            base, idx = t, []
            while base.op == 'sel':
                idx.insert(0, base.args[1])
                base = base.args[0]
            if base is H and len(idx) == r:
                if all(i is c for i, c in zip(idx, cv)):
                    q = select_n(L0, cv)
                elif all(i.loose == 0 for i in idx) and not any(self.bad(i) for i in idx):
                    # not written in an earlier iteration?
                    m = var('mw', 'I')
                    mp = {c: i for c, i in zip(cv, idx)}
                    mp[n] = m
                    wm = subst(w, mp)
                    hy = self.hyps_at(n) + self.hyps_at(m) + [lt(m, n)] + [t_ for k_, t_ in pc if not self.bad(t_)]
                    if self.provable(hy, bnot(wm)):
                        q = select_n(L0, idx)
                if q is None:
                    fail.append(t)
                    q = t
                memo[t.uid] = q
                return q
            q = rebuild(t, [go(a) for a in t.args])
            memo[t.uid] = q
            return q
        h2 = go(h)
        if fail or self.bad(h2): return None
        return h2

    def scan(self, h, H, L0, w, cv, J, pc):
        """a[f(n)] = a[f(n-1)] + g(n) : running sums"""
        n = self.n
        if len(cv) != 1 or h.sort not in 'IR': return None
        c = cv[0]
        # value at the cell written: express h with c := f(n)
        f = None
        st = [w]
        while st:
            x = st.pop()
            if x.op == 'and': st.extend(x.args)
            elif x.op == 'eq0':
                li = lin_in(x.args[0], c)
                if li is not None and is_const(li[1]) and const_val(li[1]) in (1, -1):
                    f = scale(li[0], -const_val(li[1]))
        if f is None or occurs(c, f): return None
        hn = subst(h, {c: f})
        # find the read of the previous cell
        prev = None
        fp = subst(f, {n: sub(n, ONE)})
        rd = select(H, fp)
        G = sub(hn, rd)
        cur = select(H, f)
        # reads of the current cell are still initial
        G = replace_term(G, cur, select(L0, f))
        if self.bad(G): return None
        first = select(L0, subst(fp, {n: ZERO}))

        def form(m):
            def body(idx):
                j = subst(J, {c: idx[0]})
                return ite(band(le(ZERO, j), lt(j, m), subst(w, {c: idx[0], n: j})),
                           add(first, self.split_sum(G, add(j, ONE))), select(L0, idx[0]))
            return lam_n(body, 1)
        return form

    # -- trip count -------------------------------------------------------
    def trip(self, C):
        n = self.n
        lits = list(C.args) if C.op == 'and' else [C]
        N = None
        rest = []
        for l in lits:
            x = None
            if N is None and not self.bad(l):
                if l.op == 'le0':
                    li = lin_in(l.args[0], n)
                    if li is not None and is_const(li[1]) and const_val(li[1]) > 0:
                        b = const_val(li[1])
                        if b == 1: x = add(neg(li[0]), ONE)
                        else: x = add(TT.fdiv(neg(li[0]), integer(b)), ONE)
                        if not self.ex.implied(le(ZERO, x)): x = imax(x, ZERO)
                elif l.op == 'not' and l.args[0].op == 'eq0' and l.args[0].args[0].sort == 'I':
                    li = lin_in(l.args[0].args[0], n)
                    if li is not None and is_const(li[1]) and const_val(li[1]) in (1, -1):
                        x = scale(li[0], -const_val(li[1]))
                        self.need = le(ZERO, x)
            if x is not None: N = x
            else: rest.append(l)
        return N, rest

    def run(self):
        ex = self.ex
        S0 = ex.st
        ex.loopstack.append(self)
        try:
            return self.run2(S0)
        finally:
            ex.loopstack.pop()

    def run2(self, S0):
        ex = self.ex
        keys, S0 = modset(ex, S0, self.cond, self.body, self.inc)
        self.S0, self.keys = S0, keys
        lm = leaf_map(S0.store)
        self.keys = keys = set(k for k in keys if k in lm)
        self.L0 = {k: lm[k] for k in keys}
        self.n = n = var('it@%d' % ex.inloop, 'I')
        self.N = None
        self.need = None
        self.hv = {k: havoc_name(ex, i, lm[k].sort) for i, k in enumerate(sorted(keys, key=keyorder))}
        names = {k: ex.cellname.get(k[0], '?') + ''.join('.%s' % x for x in k[1:]) for k in keys}
        known = {}
        # counters and trip count, from a quick pass
        self.unknown = frozenset(v.uid for v in self.hv.values())
        self.alias = {}
        cls = self.equal_start(keys)
        own = dict(self.hv)
        while True:
            self.alias = {k: g[0] for g in cls for k in g[1:]}
            self.hv = {k: own[self.alias.get(k, k)] for k in keys}
            self.unknown = frozenset(v.uid for v in self.hv.values())
            hs, E, end, exits, C, cst = self.iterate({}, quick=True)
            if E is None or not cls: break
            nxt = []
            for g in cls:
                parts = {}
                for k in g:
                    if not is_const(sub(E[k], self.hv[k])): parts.setdefault(E[k].uid, []).append(k)
                nxt += [p for p in parts.values() if len(p) > 1]
            if sorted(nxt, key=str) == sorted(cls, key=str):
                # the quick pass only guesses the effect of nested loops: confirm
                hs, E2, end2, _, _, _ = self.iterate({})
                nxt = []
                for g in cls if E2 is not None else []:
                    hy = [t for k, t in end2.pc] + ex.lemmas
                    ok = [g[0]] + [k for k in g[1:] if E2[k] is E2[g[0]] or self.provable(hy, eq(E2[k], E2[g[0]]), 3000)]
                    if len(ok) > 1: nxt.append(ok)
                if sorted(nxt, key=str) == sorted(cls, key=str): break
            if DEBUG: print('  [alias %s] %s -> %s' % (ex.where(self.node), [[(names[k], show(E[k])[:150]) for k in g] for g in cls], nxt))
            cls = nxt
        if E is None:
            return self.once(S0)
        for k in keys:
            if k in self.alias: continue
            e, H = E[k], self.hv[k]
            if e.sort == 'I':
                d = sub(e, H)
                if is_const(d):
                    L0 = self.L0[k]
                    known[k] = (lambda m, L0=L0, d=d: add(L0, mul(d, m)))
        self.unknown = frozenset(self.hv[k].uid for k in keys if k not in known)
        with guardctx(ex, True):
            ex.st = X().State(self.head(known, n, self.hv), S0.pc + (('f', le(ZERO, n)),))
            C = self.cond()
        ex.st = S0
        self.N, self.rest = self.trip(C)
        self.fuzzy = self.N is None
        if self.fuzzy:
            self.N = fresh('iters', 'I')
            self.rest = []
            S0.pc = S0.pc + (('f', le(ZERO, self.N)),)
        elif self.need is not None:
            if not ex.implied(self.need):
                ex.oblige('loop bound is reached', self.need, self.node)
                S0.pc = ex.st.pc
        else:
            pass
        # iterate: guess closed forms
        failed = set()
        for rnd in range(8):
            hs, E, end, exits, C, cst = self.iterate(known)
            if E is None: return self.once(S0)
            got = {}
            for k in sorted(keys - set(known), key=keyorder):
                if k in self.alias or (levels(E[k].sort) > 0 and ex.cellname.get(k[0]) in ex.scratch): continue
                f = self.solve(k, E[k], end.pc[self.basepc:])
                if f is not None: got[k] = f
                elif DEBUG: print('  [loop %s] round %d: no form for %s: %s' % (ex.where(self.node), rnd, names[k], show(E[k])[:400]))
            if not got: break
            known.update(got)
            for k, r in self.alias.items():
                if r in known: known[k] = known[r]
            self.unknown = frozenset(self.hv[k].uid for k in keys if k not in known)
            if len(known) == len(keys): break
        if DEBUG:
            for k in known: print('  [loop %s] %s = %s' % (ex.where(self.node), names[k], show(known[k](n))[:600]))
        unk = sorted(keys - set(known), key=keyorder)
        inv = []
        if unk:
            self.unknown = frozenset(self.hv[k].uid for k in unk)
            if DEBUG: print('  [loop %s] havoc: %s' % (ex.where(self.node), [names[k] for k in unk]))
            inv = self.houdini(known, unk, names)
            lost = [names[k] for k in unk if not (levels(self.L0[k].sort) > 0 and ex.cellname.get(k[0]) in ex.scratch)]
            if lost: ex.havoced.append((ex.where(self.node), lost, len(inv)))
        # final pass, obligations recorded
        return self.finish(known, unk, inv, names)

    def equal_start(self, keys):
        """groups of integer leaves with equal initial values: those that stay equal share one name (an invariant, proved in finish)"""
        groups = {}
        for k in sorted(keys, key=keyorder):
            if self.L0[k].sort == 'I' and not is_const(self.L0[k]): groups.setdefault(self.L0[k].uid, []).append(k)
        return [g for g in groups.values() if len(g) > 1]

    def ctx(self, store, n):
        return InvCtx(self.ex, self, store, n)

    def houdini(self, known, unk, names):
        ex = self.ex
        if not ex.spec_inv: return []
        S0, n = self.S0, self.n
        cands = []
        for g in ex.spec_inv:
            def at(store, m, g=g):
                return g(self.ctx(store, m))
            try:
                hd = at(self.head(known, n, self.hv), n)
            except KeyError:
                continue
            for i in range(len(hd or [])):
                cands.append(lambda store, m, g=g, i=i: g(self.ctx(store, m))[i])
        hyp0 = [t for k, t in S0.pc] + ex.lemmas
        keep = []
        for c in cands:
            g0 = c(self.head({**known}, ZERO, self.L0), ZERO)
            if self.provable(hyp0, g0, 5000): keep.append(c)
            elif DEBUG: print('   inv candidate fails initially', show(g0)[:300])
        while keep:
            hd = self.head(known, n, self.hv)
            fs = [c(hd, n) for c in keep]
            hs, E, end, exits, C, cst = self.iterate(known, extra=fs)
            es = unify(hs, end.store)
            hy = [t for k, t in end.pc] + ex.lemmas
            nk = []
            for c in keep:
                g = c(es, add(n, ONE))
                if self.provable(hy, g, 8000): nk.append(c)
                elif DEBUG: print('   inv candidate not preserved', show(g)[:3000])
            if len(nk) == len(keep): break
            keep = nk
        return keep

    def once(self, S0):
        """the body never completes normally: it runs at most once"""
        ex = self.ex
        ex.st = S0
        c = ex.as_bool(self.cond())
        outs = {}
        brk = []

        def th():
            o = self.body()
            brk.extend(o.pop('brk', []))
            if ex.st is not None or o.pop('cont', []): err('loop body shape')
            return o
        outs = ex.split(c, th, lambda: {})
        sts = brk + ([ex.st] if ex.st is not None else [])
        ex.st = ex.merge_or_fork(sts) if sts else None
        return outs

    def finish(self, known, unk, inv, names):
        ex, n, N, S0 = self.ex, self.n, self.N, self.S0
        hd = self.head(known, n, self.hv)
        extra = [c(hd, n) for c in inv]
        # break conditions that are known in closed form
        hs, E, end, exits, C, cst = self.iterate(known, extra=extra)
        bt = self.break_cond(exits, C)
        closed_br = bt is not None and not self.bad(bt)
        if bt is not FALSE and closed_br:
            extra.append(forall_range(lambda m: bnot(subst(bt, {n: m})), ZERO, n))
        done = self.completed(end) if bt is not FALSE and not closed_br else []
        for f in done: extra.append(forall_range(lambda m, f=f: subst(f, {n: m}), ZERO, n))
        if not ex.dry:
            # invariant holds initially
            for k in sorted(known, key=keyorder):
                g = self.same(known[k](ZERO), self.L0[k])
                ex.st = X().State(S0.store, S0.pc)
                ex.oblige('loop invariant holds initially: %s' % names[k], g, self.node)
            for k in sorted(self.alias, key=keyorder):
                ex.st = X().State(S0.store, S0.pc)
                ex.oblige('loop invariant holds initially: %s = %s' % (names[k], names[self.alias[k]]), eq(self.L0[k], self.L0[self.alias[k]]), self.node)
            for i, c in enumerate(inv):
                ex.st = X().State(S0.store, S0.pc)
                ex.oblige('loop invariant %d holds initially' % i, c(self.head(known, ZERO, self.L0), ZERO), self.node)
            hs, E, end, exits, C, cst = self.iterate(known, extra=extra, dry=False)
            if end is not None:
                ex.st = end
                es = unify(hs, end.store)
                for k in sorted(known, key=keyorder):
                    e2 = X().State(end.store, end.pc)
                    ex.st = e2
                    ex.oblige('loop invariant preserved: %s' % names[k], self.same(E[k], known[k](add(n, ONE))), self.node)
                for k in sorted(self.alias, key=keyorder):
                    ex.st = X().State(end.store, end.pc)
                    ex.oblige('loop invariant preserved: %s = %s' % (names[k], names[self.alias[k]]), eq(E[k], E[self.alias[k]]), self.node)
                for i, c in enumerate(inv):
                    ex.st = X().State(end.store, end.pc)
                    ex.oblige('loop invariant %d preserved' % i, c(es, add(n, ONE)), self.node)
        # exits
        outs = {}
        fin = []
        haveb = bt is not FALSE
        if haveb:
            b = fresh('b', 'I')
            base = S0.pc + (('f', band(le(ZERO, b), le(b, N))),)
            if closed_br:
                base = base + (('f', forall_range(lambda m: bnot(subst(bt, {n: m})), ZERO, b)),)
            for f in done: base = base + (('f', forall_range(lambda m, f=f: subst(f, {n: m}), ZERO, b)),)
        else:
            b = N
            base = S0.pc
        # normal exit
        hv2 = {k: (fresh('out', self.hv[k].sort)) for k in unk}
        for k, r in self.alias.items():
            if k in hv2 and r in hv2: hv2[k] = hv2[r]
        hvx = dict(self.hv)
        hvx.update(hv2)
        hx = self.head(known, b if haveb else N, hvx)
        pcx = base + ((('b', le(N, b)),) if haveb else ())
        for c in inv: pcx = pcx + (('f', c(hx, b if haveb else N)),)
        ex.st = X().State(hx, pcx)
        cN = self.cond()
        ex.assume(bnot(cN))
        if not haveb or not self.never_normal(cN):
            fin.append(ex.st)
        if self.fuzzy and not self.bad(C):
            ex.assume(forall_range(lambda m: subst(C, {n: m}), ZERO, N))
        # break / return / condition-failed exits at iteration b
        if haveb:
            sub_ = {n: b}
            for k in unk: sub_[self.hv[k]] = hv2[k]
            xs = list(exits)
            rest_states = self.rest_exit(cst, C)
            for kind, s in xs + rest_states:
                pcs = s.pc[len(S0.pc):]
                pc2 = base + (('b', lt(b, N)),)
                for kk, t in pcs:
                    t2 = subst(t, sub_)
                    if t2 is TRUE: continue
                    pc2 = pc2 + (('b' if kk == 'b' else 'f', t2),)
                st2 = {}
                for c, v in s.store.items():
                    if isinstance(c, str) and c != '$ret': continue
                    st2[c] = subst_value(v, sub_)
                if kind in ('brk', 'rest'):
                    st2 = unify(S0.store, st2)
                ns = X().State(st2, pc2)
                if kind in ('brk', 'rest'): fin.append(ns)
                else: outs.setdefault(kind, []).append(ns)
        fin = [s for s in fin if s is not None]
        if not fin:
            ex.st = None
        else:
            try:
                ex.st = ex.merge(fin)
            except X().NoMerge as e:
                err('cannot merge loop exits: %s' % e)
        return outs

    def completed(self, end):
        """facts that every iteration that completes normally establishes about its own index"""
        if end is None: return []
        fs = []
        for k, t in end.pc[self.basepc:]: fs.extend(t.args if t.op == 'and' else (t,))
        args = {}
        for f in fs:
            if f.op == 'le0': args[f.args[0].uid] = f.args[0]
        m = {}
        for u, a in sorted(args.items()):
            if neg(a).uid not in args: continue
            for v in var_terms(a):
                if v in m or not self.bad(v): continue
                li = lin_in(a, v)
                if li is None or not is_const(li[1]) or const_val(li[1]) not in (1, -1): continue
                r = scale(li[0], -const_val(li[1]))
                if self.bad(r): continue
                m[v] = r
                break
        out, seen = [], set()
        for f in fs:
            g = subst(f, m) if m else f
            if g is TRUE or g.uid in seen or self.bad(g) or not occurs(self.n, g): continue
            seen.add(g.uid)
            if any(g is x for x in self.facts(self.n)): continue
            if f.op == 'le0' and f.args[0].uid in args and neg(f.args[0]).uid in args: continue
            out.append(g)
        return out[:12]

    def never_normal(self, cN):
        return cN is TRUE

    def rest_exit(self, cst, C):
        """exit because a non-counting part of the condition fails (n < N)"""
        if not self.rest: return []
        r = band(*self.rest_at(C))
        s = cst.copy()
        s.pc = s.pc + (('b', bnot(r)),)
        return [('rest', s)]

    def rest_at(self, C):
        """non-affine conjuncts of the condition at the head"""
        lits = list(C.args) if C.op == 'and' else [C]
        n = self.n
        hy = None
        out = []
        for l in lits:
            if not self.bad(l):
                li = lin_in(l.args[0], n) if l.op == 'le0' else None
                if li is not None and is_const(li[1]) and const_val(li[1]) > 0 and self.ex.implied_by(
                        [t for k, t in self.S0.pc] + self.facts(n), l):
                    continue
            out.append(l)
        return out

    def break_cond(self, exits, C):
        n0 = len(self.S0.pc)
        ds = []
        for kind, s in exits:
            ds.append(band(*[t for k, t in s.pc[n0:] if k == 'b']))
        if self.rest:
            ds.append(bnot(band(*self.rest_at(C))))
        return bor(*ds) if ds else FALSE

    def same(self, a, b):
        r = levels(a.sort)
        if r == 0: return eq(a, b)
        if a is b: return TRUE
        idx = [fresh('c', 'I') for _ in range(r)]
        x, y = select_n(a, idx), select_n(b, idx)
        cs = cases(x)
        if cs is None or len(cs) == 1: return eq(x, y)
        return band(*[bor(*([bnot(l) for l in lits] + [eq(v, y)])) for lits, v in cs])


def replace_term(t, a, b):
    memo = {}

    def go(x):
        if x is a: return b
        r = memo.get(x.uid)
        if r is None:
            r = rebuild(x, [go(y) for y in x.args]) if x.args else x
            memo[x.uid] = r
        return r
    return go(t)


def fdivs(t):
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if x.uid in seen: continue
        seen.add(x.uid)
        if x.op == 'fdiv' and x.loose == 0: out.append(x)
        st.extend(x.args)
    return sorted(out, key=lambda x: x.uid)


def subst_value(v, m):
    if isinstance(v, T): return subst(v, m)
    if isinstance(v, Struct): return Struct(v.cls, {k: subst_value(x, m) for k, x in v.f.items()})
    if isinstance(v, VecV): return VecV(v.et, subst(v.size, m), subst_value(v.tree, m))
    return map_leaves_p(v, lambda p, t: subst(t, m))


class InvCtx(object):
    """what a contract-supplied invariant may look at"""
    def __init__(self, ex, loop, store, n):
        self.ex, self.loop, self.store, self.n = ex, loop, store, n
        self.N = loop.N

    def named(self, hint):
        for c in self.store:
            if self.ex.cellname.get(c) == hint: yield c

    def val(self, hint):
        for c in sorted([c for c in self.named(hint)], key=str, reverse=True):
            v = self.store[c]
            if isinstance(v, RefV):
                v = self.deref(v.lv)
            if isinstance(v, VRef): v = self.store[v.cell]
            return v
        raise KeyError(hint)

    def deref(self, lv):
        v = self.store[lv.cell]
        for k, x in lv.path:
            v = v.f[x] if k == 'f' else lift_get(v.tree, x)
        return v

    def lv(self, lv):
        v = self.deref(lv)
        if isinstance(v, VRef): v = self.store[v.cell]
        return v
