"""C05 sparse submatrix extraction."""
from cppvc.spec import *

DRIVER = ['''
void cppvc_driver(const SparseMatrix<double>& A, const std::vector<int>& r, std::vector<int>& m)
{
    A.GetSubMatrix(r, r); A.GetSubMatrix(r, r, m);
}
''']
SM = 'SparseMatrix<double>::'


def sub_(marker):
    def g(c):
        A = c.sparse('A')
        rows, cols = c.vec('int', 'rows'), c.vec('int', 'cols')
        c.assume(all_(lambda i: band(le(ZERO, select(rows.el, i)), lt(select(rows.el, i), A.r)), ZERO, rows.size))
        c.assume(all_(lambda i: band(le(ZERO, select(cols.el, i)), lt(select(cols.el, i), A.c)), ZERO, cols.size))
        c.assume(all_(lambda i: all_(lambda j: ne(select(cols.el, i), select(cols.el, j)), ZERO, i), ZERO, cols.size))
        args = [rows, cols]
        if marker:
            m = c.vec('int', 'marker', fill=integer(-1))
            c.assume(le(A.c, m.size))
            args.append(m)
        r = c.call(SM + 'GetSubMatrix', A, args, nparams=len(args))
        n = c.csr(c.result_lv(r))
        new = lambda k: pick(lambda j: eq(select(cols.el, j), select(A.ix, k)), ZERO, cols.size)     # requested number of the column of entry k
        keep = lambda k: band(le(ZERO, new(k)), lt(new(k), cols.size), eq(select(cols.el, new(k)), select(A.ix, k)))
        before = lambda lo, k: summ(lambda e: ite(keep(e), ONE, ZERO), lo, k)
        row = lambda i: select(A.p, select(rows.el, i))
        end = lambda i: select(A.p, add(select(rows.el, i), ONE))
        total = lambda i: summ(lambda q: before(row(q), end(q)), ZERO, i)
        c.ensure('shape', band(eq(n.r, rows.size), eq(n.c, cols.size), eq(n.psize, add(rows.size, ONE))))
        c.ensure('entry count', band(eq(n.nnz, total(rows.size)), eq(n.dsize, n.nnz)))
        c.ensure_all('row pointers', lambda i: eq(select(n.p, i), total(i)), ZERO, add(rows.size, ONE))
        i, k = c.int_('i', ZERO), c.int_('k', ZERO)
        sel = band(lt(i, rows.size), le(row(i), k), lt(k, end(i)), keep(k))
        at = add(total(i), before(row(i), k))
        c.ensure('columns renumbered in order', implies(sel, eq(select(n.ix, at), new(k))))
        c.ensure('values in order', implies(sel, eq(select(n.dt, at), select(A.dt, k))))
        if marker:
            t = c.now(m)
            c.ensure('marker length kept', eq(t.size, m.size))
            c.ensure_all('marker is all -1 again', lambda i: eq(select(t.tree, i), integer(-1)), ZERO, m.size)
        c.frame([m.buf] if marker else [])
    contract('C05', 'GetSubMatrix(%s)' % ('rows, cols, marker' if marker else 'rows, cols'))(g)


sub_(True)
sub_(False)
