"""C02 sparse/dense conversions and sparse-times-dense products."""
from cppvc.spec import *
from specs.C09 import is_mat, mod

DRIVER = ['''
void cppvc_driver(const SparseMatrix<double>& A, const DenseMatrix& B, DenseMatrix& O)
{
    A.Mult(B, O); A.MultAT(B, O); A.MultCT(B, O); O = A.Mult(B); O = A.MultAT(B); O = A.MultCT(B);
    A.ToDense(O); A.TransposeDense(O); O = A.ToDense(); O = A.TransposeDense();
}
''']
SM = 'SparseMatrix<double>::'


def rowsum(A, B, i, k):
    """(A B)(i, k)"""
    return summ(lambda e: mul(select(A.dt, e), B.at(select(A.ix, e), k)), select(A.p, i), select(A.p, add(i, ONE)))


def colsum(A, B, j, k):
    """(A^T B)(j, k)"""
    return summ(lambda i: mul(B.at(i, k), summ(lambda e: ite(eq(select(A.ix, e), j), select(A.dt, e), real(0)),
                                               select(A.p, i), select(A.p, add(i, ONE)))), ZERO, A.r)


def prod(nm, out):
    def f(c):
        A = c.sparse('A')
        B = c.dense('B', rows=A.r if nm == 'MultAT' else A.c)
        O = c.dense('O') if out else None
        m = A.c if nm == 'MultAT' else A.r
        c.assume(le(ZERO, mul(m, B.c)))
        r = c.call(SM + nm, A, [B] + ([O] if out else []), sig='(const DenseMatrix &%s) const' % (', DenseMatrix &' if out else ''))
        v = (lambda i, k: colsum(A, B, i, k)) if nm == 'MultAT' else (lambda i, k: rowsum(A, B, i, k))
        lv = O.lv if out else c.result_lv(r)
        if nm == 'MultCT': is_mat(c, lv, B.c, m, lambda k, i: v(i, k))
        else: is_mat(c, lv, m, B.c, v)
        c.frame(mod(c, O) if out else [])
    contract('C02', '%s(B%s)' % (nm, ', out' if out else ''))(f)


for o in (True, False):
    for n in ('Mult', 'MultAT', 'MultCT'): prod(n, o)


def nodup(A):
    """no coordinate is stored twice"""
    return all_(lambda i: all_(lambda k: all_(lambda l: ne(select(A.ix, k), select(A.ix, l)), select(A.p, i), k),
                               select(A.p, i), select(A.p, add(i, ONE))), ZERO, A.r)


def conv(nm, out):
    tr = nm == 'TransposeDense'

    def f(c):
        A = c.sparse('A')
        c.assume(nodup(A), le(ZERO, mul(A.r, A.c)))
        O = c.dense('O') if out else None
        r = c.call(SM + nm, A, [O] if out else [], sig='(DenseMatrix &) const' if out else 'DenseMatrix () const')
        n = c.dn(O.lv if out else c.result_lv(r))
        rr, cc = (A.c, A.r) if tr else (A.r, A.c)
        c.ensure('shape', band(eq(n.r, rr), eq(n.c, cc), eq(n.size, mul(rr, cc))))
        at = lambda i, j: select(n.dt, add(j, mul(i, rr)) if tr else add(i, mul(j, rr)))
        i, j, k = c.int_('i', ZERO), c.int_('j', ZERO), c.int_('k', ZERO)
        inrow = lambda k: band(le(select(A.p, i), k), lt(k, select(A.p, add(i, ONE))))
        c.ensure('stored entries', implies(band(lt(i, A.r), inrow(k)), eq(at(i, select(A.ix, k)), select(A.dt, k))))
        c.ensure('zeros elsewhere', implies(band(lt(i, A.r), lt(j, A.c), forall_range(lambda k: ne(select(A.ix, k), j), select(A.p, i), select(A.p, add(i, ONE)))),
                                            eq(at(i, j), real(0))))
        c.frame(mod(c, O) if out else [])
    contract('C02', '%s(%s)' % (nm, 'out' if out else ''))(f)


for o in (True, False):
    for n in ('ToDense', 'TransposeDense'): conv(n, o)
