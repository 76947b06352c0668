"""C06 in-place sparse edits and reductions."""
from cppvc.spec import *
from specs.C02 import nodup

DRIVER = ['''
void cppvc_driver(SparseMatrix<double>& A, const SparseMatrix<double>& D, const std::vector<double>& d, const std::vector<int>& p, VectorView<double> b, const VectorView<double>& x)
{
    A.ScaleRows(d); A.ScaleCols(d); A.InverseScaleRows(d); A.InverseScaleCols(d);
    A.ScaleRows(D); A.ScaleCols(D); A.InverseScaleRows(D); A.InverseScaleCols(D);
    A *= 2.0; A /= 2.0; A = 2.0; A.AddDiag(d); A.AddDiag(1.0); d = A.GetDiag(); A.Sum(); A.MaxNorm(); A.RowSize(1);
    A.PermuteCols(p); A.EliminateRowCol(1); A.EliminateRowCol(p); A.EliminateRow(1); A.EliminateCol(1); A.EliminateCol(p); A.EliminateCol(p, x, b);
    A.EliminateZeros(1.0); A.SortIndices();
}
SparseMatrix<double> use_times(const SparseMatrix<double>& A, double a) { return A * a; }
SparseMatrix<double> use_times2(const SparseMatrix<double>& A, double a) { return a * A; }
'''.replace('const std::vector<double>& d', 'std::vector<double>& d')]
SM = 'SparseMatrix<double>::'
R0 = real(0)


def post(c, A, f, what='data'):
    """stored entry k of row i becomes f(i, j, a, k); the pattern, the shape and the sizes stay"""
    n = c.csr(A.lv)
    i, k = c.int_('i', ZERO), c.int_('k', ZERO)
    inrow = band(lt(i, A.r), le(select(A.p, i), k), lt(k, select(A.p, add(i, ONE))))
    c.ensure(what + ' entries', implies(inrow, eq(select(n.dt, k), f(i, select(A.ix, k), select(A.dt, k), k))))
    same_shape(c, A, n)
    c.ensure_all('column indices unchanged', lambda e: eq(select(n.ix, e), select(A.ix, e)), ZERO, A.nnz)
    return n


def same_shape(c, A, n):
    c.ensure('shape and sizes unchanged', band(eq(n.r, A.r), eq(n.c, A.c), eq(n.psize, A.psize), eq(n.nnz, A.nnz), eq(n.dsize, A.dsize)))
    c.ensure_all('row pointers unchanged', lambda e: eq(select(n.p, e), select(A.p, e)), ZERO, A.psize)


def fr(c, A, more=()): c.frame([A.cell] + A.bufs + list(more))


def scl(nm, row, inv, mat):
    def g(c):
        A = c.sparse('A')
        n = A.r if row else A.c
        if mat:
            D = c.sparse('D')
            c.assume(eq(D.nnz, n))
            d, arg = D.dt, D
        else:
            v = c.vec('double', 'd', n)
            d, arg = v.el, v
        if inv: c.assume(all_(lambda i: ne(select(d, i), R0), ZERO, n))
        c.call(SM + nm, A, [arg], sig='(const SparseMatrix<double> &)' if mat else '(const std::vector<double>')
        s = lambda i, j: select(d, i if row else j)
        post(c, A, lambda i, j, a, k: (rdiv if inv else mul)(a, s(i, j)))
        fr(c, A)
    contract('C06', '%s(%s)' % (nm, 'diagonal matrix' if mat else 'vector'))(g)


for m in (False, True):
    scl('ScaleRows', True, False, m)
    scl('ScaleCols', False, False, m)
    scl('InverseScaleRows', True, True, m)
    scl('InverseScaleCols', False, True, m)


def scal(nm, f):
    def g(c):
        A, s = c.sparse('A'), c.real_('s')
        if nm != 'operator*=': c.assume(ne(s, R0))
        fs = [x for x in c.P.find(SM + nm, 1, '(double)') if x.body is not None]
        c.start()
        c.funcs.append(fs[0].qual + ' : ' + fs[0].type)
        r = c.ex.call(fs[0], A.lv, [s])
        c.ensure('returns the matrix', TRUE if isinstance(r, RefV) and r.lv.same(A.lv) else FALSE)
        post(c, A, lambda i, j, a, k: f(a, s))
        fr(c, A)
    contract('C06', nm + ' scalar')(g)


scal('operator*=', lambda a, s: mul(a, s))
scal('operator/=', lambda a, s: rdiv(a, s))
scal('operator=', lambda a, s: s)


def bins(nm):
    def g(c):
        A, s = c.sparse('A'), c.real_('s')
        r = c.call(nm, None, [A, s])
        n = c.csr(c.result_lv(r))
        same_shape(c, A, n)
        c.ensure_all('column indices', lambda e: eq(select(n.ix, e), select(A.ix, e)), ZERO, A.nnz)
        c.ensure_all('entries scaled', lambda e: eq(select(n.dt, e), mul(select(A.dt, e), s)), ZERO, A.nnz)
        c.frame()
    contract('C06', nm)(g)


bins('use_times')
bins('use_times2')


def adddiag(vector):
    def g(c):
        A = c.sparse('A')
        c.assume(eq(A.r, A.c))
        d = c.vec('double', 'd', A.r) if vector else c.real_('d')
        c.call(SM + 'AddDiag', A, [d], sig='(const std::vector' if vector else '(double)')
        v = (lambda i: select(d.el, i)) if vector else (lambda i: d)
        post(c, A, lambda i, j, a, k: ite(eq(i, j), add(a, v(i)), a))
        fr(c, A)
    contract('C06', 'AddDiag(%s)' % ('vector' if vector else 'scalar'))(g)


adddiag(True)
adddiag(False)


@contract('C06', 'GetDiag')
def getdiag(c):
    A = c.sparse('A')
    c.assume(eq(A.r, A.c))
    c.assume(nodup(A))
    r = c.call(SM + 'GetDiag', A, [])
    v = c.contents(r)
    i, k = c.int_('i', ZERO), c.int_('k', ZERO)
    row = lambda k: band(le(select(A.p, i), k), lt(k, select(A.p, add(i, ONE))))
    c.ensure('one value per row', eq(v.size, A.r))
    none = forall_range(lambda e: ne(select(A.ix, e), i), select(A.p, i), select(A.p, add(i, ONE)))
    c.ensure('the stored diagonal entry', implies(band(lt(i, A.r), row(k), eq(select(A.ix, k), i)), eq(select(v.tree, i), select(A.dt, k))))
    c.ensure('zero without a stored diagonal entry', implies(band(lt(i, A.r), none), eq(select(v.tree, i), R0)))
    c.frame()


@contract('C06', 'Sum')
def sum_(c):
    A = c.sparse('A')
    c.ensure('sum of the stored entries', eq(c.call(SM + 'Sum', A, []), summ(lambda k: select(A.dt, k), ZERO, A.nnz)))
    c.frame()


@contract('C06', 'RowSize')
def rowsize(c):
    A, i = c.sparse('A'), c.int_('row', ZERO)
    c.assume(lt(i, A.r))
    c.ensure('stored entries of the row', eq(c.call(SM + 'RowSize', A, [i]), sub(select(A.p, add(i, ONE)), select(A.p, i))))
    c.frame()


@contract('C06', 'PermuteCols')
def permute(c):
    A = c.sparse('A')
    p = c.vec('int', 'perm', A.c)
    c.assume(all_(lambda i: band(le(ZERO, select(p.el, i)), lt(select(p.el, i), A.c)), ZERO, A.c))
    c.call(SM + 'PermuteCols', A, [p])
    n = c.csr(A.lv)
    same_shape(c, A, n)
    c.ensure_all('columns renamed', lambda e: eq(select(n.ix, e), select(p.el, select(A.ix, e))), ZERO, A.nnz)
    c.ensure_all('values stay', lambda e: eq(select(n.dt, e), select(A.dt, e)), ZERO, A.nnz)
    fr(c, A)


def elim(nm, kind, f):
    def g(c):
        A = c.sparse('A')
        extra = []
        if kind == 'index':
            x = c.int_('index', ZERO)
            if nm != 'EliminateCol': c.assume(lt(x, A.r))
            if nm != 'EliminateRow': c.assume(lt(x, A.c))
            c.call(SM + nm, A, [x], sig='(int)')
            hit = lambda i: eq(i, x)
        else:
            if nm == 'EliminateRowCol': c.assume(eq(A.r, A.c))
            m = c.vec('int', 'marker')
            c.assume(le(A.c, m.size))
            c.call(SM + nm, A, [m], nparams=1, sig='(const std::vector<int')
            hit = lambda i: ne(select(m.el, i), ZERO)
        post(c, A, lambda i, j, a, k: f(hit, i, j, a))
        fr(c, A)
    contract('C06', '%s(%s)' % (nm, kind))(g)


one0 = lambda i, j: ite(eq(i, j), real(1), R0)
for kind in ('index', 'marker'):
    elim('EliminateRowCol', kind, lambda h, i, j, a: ite(bor(h(i), h(j)), one0(i, j), a))
    elim('EliminateCol', kind, lambda h, i, j, a: ite(h(j), R0, a))
elim('EliminateRow', 'index', lambda h, i, j, a: ite(h(i), R0, a))


@contract('C06', 'EliminateCol(marker, x, b)')
def elimb(c):
    A = c.sparse('A')
    m = c.vec('int', 'marker')
    c.assume(le(A.c, m.size))
    x, b = c.view('x', A.c), c.view('b', A.r)
    fs = [f for f in c.P.find(SM + 'EliminateCol', 3) if f.body is not None]
    c.start()
    c.funcs.append(fs[0].qual + ' : ' + fs[0].type)
    c.ex.call(fs[0], A.lv, [m.ref, x.ref, b.val])
    hit = lambda i: ne(select(m.el, i), ZERO)
    post(c, A, lambda i, j, a, k: ite(hit(j), R0, a))
    out = c.now(b)
    c.ensure_all('right-hand side corrected', lambda i: eq(select(out.tree, i), sub(select(b.el, i), summ(
        lambda k: ite(hit(select(A.ix, k)), mul(select(A.dt, k), select(x.el, select(A.ix, k))), R0), select(A.p, i), select(A.p, add(i, ONE))))), ZERO, A.r)
    fr(c, A, [b.buf])


@contract('C06', 'MaxNorm')
def maxnorm(c):
    A = c.sparse('A')
    ab = lambda v: ite(lt(v, R0), neg(v), v)
    c.ensure('sum of the magnitudes', eq(c.call(SM + 'MaxNorm', A, []), summ(lambda k: ab(select(A.dt, k)), ZERO, A.nnz)))
    c.frame()


@contract('C06', 'EliminateZeros')
def elimzeros(c):
    A, t = c.sparse('A'), c.real_('tol')
    c.assume(le(R0, t))
    c.call(SM + 'EliminateZeros', A, [t], nparams=1)
    n = c.csr(A.lv)
    keep = lambda k: lt(t, ite(lt(select(A.dt, k), R0), neg(select(A.dt, k)), select(A.dt, k)))
    pos = lambda k: summ(lambda e: ite(keep(e), ONE, ZERO), ZERO, k)
    c.ensure('shape unchanged', band(eq(n.r, A.r), eq(n.c, A.c), eq(n.psize, A.psize)))
    c.ensure('kept entries', band(eq(n.nnz, pos(A.nnz)), eq(n.dsize, n.nnz)))
    c.ensure_all('row pointers', lambda i: eq(select(n.p, i), pos(select(A.p, i))), ZERO, A.psize)
    c.ensure_all('kept columns', lambda k: implies(keep(k), eq(select(n.ix, pos(k)), select(A.ix, k))), ZERO, A.nnz)
    c.ensure_all('kept values', lambda k: implies(keep(k), eq(select(n.dt, pos(k)), select(A.dt, k))), ZERO, A.nnz)
    fr(c, A)


BOUNDED = [('SortIndices', 'std::sort through an index permutation inside the row loop: the permutation contract is not expressible as a closed form of the iteration')]
