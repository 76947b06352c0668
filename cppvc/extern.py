"""Contracts of external (C) routines.  Each contract obliges the caller to meet the documented
argument requirements, and gives the caller the documented effect."""
from .terms import *
from . import terms as TT
from .values import *
from .exec import VCError


def ptr(ex, a):
    v = ex.rval(a)
    if not isinstance(v, PtrV): raise VCError('pointer argument expected: %r' % (v,))
    return v


def scalar(ex, a, sort='I'):
    p = ptr(ex, a)
    if p.base is None: raise VCError('null scalar argument')
    return lift(ex.as_int(ex.read(p.base if p.off is None else p.base.i(p.off))), sort)


def const_of(t, what):
    if not is_const(t): raise VCError('%s is not a constant' % what)
    return const_val(t)


def span(ex, p):
    """-> (LV of buffer or None, offset, size)"""
    if p.base is None: return None, ZERO, ZERO
    v = ex.read(p.base)
    if p.off is None or not isinstance(v, VecV): return p.base, ZERO, None
    return p.base, p.off, v.size


def need(ex, what, g, n): ex.oblige('%s' % what, g, n)


def can_access(ex, n, what, p, count):
    """count elements from p are inside its buffer"""
    base, off, sz = span(ex, p)
    if base is None:
        need(ex, '%s: array argument large enough' % what, le(count, ZERO), n)
    elif sz is None:
        need(ex, '%s: array argument large enough' % what, le(count, ONE), n)
    else:
        need(ex, '%s: array argument large enough' % what, bor(le(count, ZERO), band(le(ZERO, off), le(add(off, count), sz))), n)


def extent(rows, cols, ld):
    """elements spanned by a column-major rows x cols matrix of leading dimension ld"""
    return ite(band(lt(ZERO, rows), lt(ZERO, cols)), add(mul(ld, sub(cols, ONE)), rows), ZERO)


def distinct(ex, n, what, p, q):
    if p.base is not None and q.base is not None and p.base.same(q.base):
        need(ex, '%s: output overlaps an input' % what, FALSE, n)


def put(ex, p, f):
    """buffer contents c -> f(c, old value)"""
    base = p.base
    if base is None: return
    v = ex.read(base)
    old = v.tree
    ex.write(base, VecV(v.et, v.size, lam(lambda c: f(c, select(old, c)))))


EXT = {}


def ext(name):
    def w(f):
        EXT[name] = f
        return f
    return w


def lib_free(ex, n, name, d, args, kind):
    f = EXT.get(name)
    if f is None: return NotImplemented
    ex.used_contracts.add('external ' + name)
    return f(ex, n, args)


@ext('dgemm_')
def dgemm(ex, n, a):
    tA, tB = const_of(scalar(ex, a[0]), 'transA'), const_of(scalar(ex, a[1]), 'transB')
    if tA not in (78, 84) or tB not in (78, 84): need(ex, 'dgemm_: trans is N or T', FALSE, n)
    m, nn, k = [scalar(ex, x) for x in a[2:5]]
    alpha, beta = scalar(ex, a[5], 'R'), scalar(ex, a[10], 'R')
    A, lda, B, ldb, C, ldc = ptr(ex, a[6]), scalar(ex, a[7]), ptr(ex, a[8]), scalar(ex, a[9]), ptr(ex, a[11]), scalar(ex, a[12])
    ra, ca = (m, k) if tA == 78 else (k, m)
    rb, cb = (k, nn) if tB == 78 else (nn, k)
    for what, g in (('m >= 0', le(ZERO, m)), ('n >= 0', le(ZERO, nn)), ('k >= 0', le(ZERO, k)),
                    ('lda >= max(1, rows of A)', band(le(ONE, lda), le(ra, lda))),
                    ('ldb >= max(1, rows of B)', band(le(ONE, ldb), le(rb, ldb))),
                    ('ldc >= max(1, m)', band(le(ONE, ldc), le(m, ldc)))):
        need(ex, 'dgemm_: ' + what, g, n)
    can_access(ex, n, 'dgemm_: A', A, extent(ra, ca, lda))
    can_access(ex, n, 'dgemm_: B', B, extent(rb, cb, ldb))
    can_access(ex, n, 'dgemm_: C', C, extent(m, nn, ldc))
    distinct(ex, n, 'dgemm_', C, A)
    distinct(ex, n, 'dgemm_', C, B)

    def el(p, ld, i, j):
        if p.base is None: return real(0)
        return select(ex.read(p.base).tree, add(p.off, add(i, mul(ld, j))))

    def res(c, old):
        e = sub(c, C.off)
        j = TT.fdiv(e, ldc)
        i = sub(e, mul(ldc, j))
        s = summ(lambda l: mul(el(A, lda, *((i, l) if tA == 78 else (l, i))), el(B, ldb, *((l, j) if tB == 78 else (j, l)))), ZERO, k)
        val = mul(alpha, s)
        if not (is_const(beta) and const_val(beta) == 0): val = add(val, mul(beta, old))
        return ite(band(le(ZERO, i), lt(i, m), le(ZERO, j), lt(j, nn)), val, old)
    put(ex, C, res)


# ------------------------------------------------------------------ abstract linear operators
def op_entry(h, i, k): return app('op.m', [h, i, k], 'R')


def op_apply(h, n, src, off, at=False):
    """row i of the operator named h (or of its transpose) applied to src[off ...]"""
    return lambda i: summ(lambda k: mul(op_entry(h, k, i) if at else op_entry(h, i, k), select(src, add(off, k))), ZERO, n)


def handle_apply(ex, f, this, args):
    """Operator::Mult/MultAT(const VectorView&, VectorView) of an arbitrary linear operator: out = M in, nothing else changes"""
    if f.name not in ('Mult', 'MultAT') or len(f.params) != 2: return NotImplemented
    t = f.params[1]['type']
    if (t.get('desugaredQualType') or t['qualType']).rstrip().endswith('&'): return NotImplemented
    at = f.name == 'MultAT'
    h = ex.read(this).f
    rows, cols, h = h['rows_'], h['cols_'], h['handle#']
    if at: rows, cols = cols, rows
    vin = ex.read(args[0].lv) if isinstance(args[0], RefV) else args[0]
    vout = ex.read(args[1].lv) if isinstance(args[1], RefV) else args[1]

    def view(v):
        while isinstance(v, Struct) and 'size_' not in v.f:
            v = [w for k, w in v.f.items() if k.startswith('^')][0]
        p = [w for w in v.f.values() if isinstance(w, PtrV)]
        if len(p) != 1: raise VCError('view operand of an abstract operator: %r' % (v,))
        return p[0], v.f['size_']
    pi, ni = view(vin)
    po, no = view(vout)
    what = 'Operator::%s (abstract)' % f.name
    need(ex, '%s: input size' % what, eq(ni, cols), None)
    need(ex, '%s: output size' % what, eq(no, rows), None)
    ex.used_contracts.add(what)
    ex.assumptions.add('the class behind an Operator reference meets the contract of Operator::%s: out = M in for a fixed matrix M of Rows() x Cols(), only out is written; it overrides no other overload' % f.name)
    if po.base is None: return None
    if pi.base is not None and pi.base.same(po.base):
        need(ex, '%s: output does not overlap the input' % what, bor(le(add(pi.off, ni), po.off), le(add(po.off, no), pi.off), le(no, ZERO), le(ni, ZERO)), None)
    can_access(ex, None, what + ': input', pi, ni)
    can_access(ex, None, what + ': output', po, no)
    src = ex.read(pi.base) if pi.base is not None else None
    if isinstance(src, VRef): src = ex.st.store[src.cell]
    row = op_apply(h, cols, src.tree, pi.off, at) if src is not None else (lambda i: real(0))
    for hook in ex.on_apply: hook(h, at, (lambda i: select(src.tree, add(pi.off, i))) if src is not None else (lambda i: real(0)), row)
    v = ex.read(po.base)
    old = v.tree
    if ex.name_results == 'all':
        q, val = fresh('op', old.sort), row
        row = lambda i: select(q, i)
        ex.st.pc = ex.st.pc + (('f', forall_range(lambda i: eq(select(q, i), val(i)), ZERO, no)),)
    whole = is_const(po.off) and const_val(po.off) == 0 and ex.implied(eq(no, v.size))
    ex.write(po.base, VecV(v.et, v.size, lam(lambda c: row(c) if whole else
             ite(band(le(po.off, c), lt(c, add(po.off, no))), row(sub(c, po.off)), select(old, c)))))
    return None
