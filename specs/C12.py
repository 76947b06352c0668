"""C12 block matrices."""
from cppvc.spec import *

DRIVER = ['''
template class BlockMatrix<double>;
BlockMatrix<double> use_bm(const std::vector<int>& r) { return BlockMatrix<double>(r); }
BlockMatrix<double> use_bm(const std::vector<int>& r, const std::vector<int>& c) { return BlockMatrix<double>(r, c); }
''']
BM = 'BlockMatrix<double>::'


def block(v):
    """accessors of the blocks in the lifted tree of A_: everything by block (i, j)"""
    rows = v.tree                       # VecV over block rows of VecV over block columns of SparseMatrix
    m = rows.tree
    s2 = lambda t, i, j: select(select(t, i), j)
    s3 = lambda t, i, j, k: select(select(select(t, i), j), k)
    op = m.f['^Operator']
    return Rec(nc=lambda i: select(rows.size, i), r=lambda i, j: s2(op.f['rows_'], i, j), c=lambda i, j: s2(op.f['cols_'], i, j),
               np=lambda i, j: s2(m.f['indptr_'].size, i, j), nix=lambda i, j: s2(m.f['indices_'].size, i, j), ndt=lambda i, j: s2(m.f['data_'].size, i, j),
               p=lambda i, j, k: s3(m.f['indptr_'].tree, i, j, k), ix=lambda i, j, k: s3(m.f['indices_'].tree, i, j, k), dt=lambda i, j, k: s3(m.f['data_'].tree, i, j, k))


def parts(c, st):
    op = st.f['^Operator']
    ro, co, A = c.contents(st.f['row_offsets_']), c.contents(st.f['col_offsets_']), c.contents(st.f['A_'])
    b = block(A)
    b.rows, b.cols = op.f['rows_'], op.f['cols_']
    b.ro, b.co = (lambda i: select(ro.tree, i)), (lambda j: select(co.tree, j))
    b.nro, b.nco, b.n = ro.size, co.size, A.size
    b.R, b.C = sub(ro.size, ONE), sub(co.size, ONE)
    b.used = lambda i, j: band(ne(b.r(i, j), ZERO), ne(b.c(i, j), ZERO))
    return b


def offsets(f, n, total):
    return [lt(ZERO, n), eq(f(ZERO), ZERO), eq(f(sub(n, ONE)), total), all_(lambda i: le(f(i), f(add(i, ONE))), ZERO, sub(n, ONE)),
            all_(lambda i: all_(lambda j: le(f(i), f(j)), i, n), ZERO, n),
            all_(lambda i: le(ZERO, f(i)), ZERO, n), all_(lambda i: le(f(i), total), ZERO, n)]


def valid_block(a, i, j):
    """either without entries of size zero, or a valid CSR matrix of the size of its slot"""
    z = le(ZERO, a.r(i, j)), le(ZERO, a.c(i, j))
    slot = band(eq(a.r(i, j), sub(a.ro(add(i, ONE)), a.ro(i))), eq(a.c(i, j), sub(a.co(add(j, ONE)), a.co(j))))
    ok = band(eq(a.np(i, j), add(a.r(i, j), ONE)), eq(a.p(i, j, ZERO), ZERO), eq(a.p(i, j, a.r(i, j)), a.nix(i, j)), eq(a.ndt(i, j), a.nix(i, j)),
              all_(lambda k: le(a.p(i, j, k), a.p(i, j, add(k, ONE))), ZERO, a.r(i, j)),
              all_(lambda k: band(le(ZERO, a.p(i, j, k)), le(a.p(i, j, k), a.nix(i, j))), ZERO, add(a.r(i, j), ONE)),
              all_(lambda k: band(le(ZERO, a.ix(i, j, k)), lt(a.ix(i, j, k), a.c(i, j))), ZERO, a.nix(i, j)))
    return band(*z, implies(a.used(i, j), band(slot, ok)), implies(bnot(a.used(i, j)), eq(a.nix(i, j), ZERO)), le(ZERO, a.nix(i, j)))


def bm(c, name='A'):
    cell = c.obj('BlockMatrix<double>', name)
    v = c.ex.st.store[cell]
    a = parts(c, v)
    a.cell, a.lv, a.ref = cell, LV(cell), RefV(LV(cell))
    a.bufs = [v.f[k].cell for k in ('row_offsets_', 'col_offsets_', 'A_')]
    c.assume(le(ZERO, a.rows), le(ZERO, a.cols))
    c.assume(*offsets(a.ro, a.nro, a.rows))
    c.assume(*offsets(a.co, a.nco, a.cols))
    c.assume(eq(a.n, a.R), all_(lambda i: eq(a.nc(i), a.C), ZERO, a.R))
    c.assume(all_(lambda i: all_(lambda j: valid_block(a, i, j), ZERO, a.C), ZERO, a.R))
    return a


def now(c, a): return parts(c, c.ex.st.store[a.cell])


def prod(at, virt):
    def g(c):
        a = bm(c)
        n, m = (a.rows, a.cols) if at else (a.cols, a.rows)
        x = c.view('x', n)
        nm = 'MultAT' if at else 'Mult'
        if virt:
            c.start()
            r = c.call('Operator::' + nm, LV(a.cell, (('f', '^Operator'),)), [x], sig='(const VectorView<double> &) const')
            v = c.ex.read(c.result_lv(r))
            view = [w for k, w in v.f.items() if k.startswith('^')][0]
            out = c.contents(v.f['data_'])
            c.ensure('result size', band(eq(view.f['size_'], m), eq(out.size, m)))
            fr = []
        else:
            y = c.view('y', m)
            c.call(BM + nm, a, [x, y])
            out = c.now(y)
            fr = [y.buf]
        ent = lambda i, j, l, f: summ(lambda k: f(k), a.p(i, j, l), a.p(i, j, add(l, ONE)))
        if at:
            spec = lambda q: summ(lambda i: summ(lambda l: summ(lambda j: ite(a.used(i, j), ent(i, j, l, lambda k: ite(eq(add(a.co(j), a.ix(i, j, k)), q), mul(a.dt(i, j, k), select(x.el, add(a.ro(i), l))), real(0))), real(0)), ZERO, a.C), ZERO, sub(a.ro(add(i, ONE)), a.ro(i))), ZERO, a.R)
            c.ensure_all('value', lambda q: eq(select(out.tree, q), spec(q)), ZERO, m)
        else:
            spec = lambda i, l: summ(lambda j: ite(a.used(i, j), ent(i, j, l, lambda k: mul(a.dt(i, j, k), select(x.el, add(a.co(j), a.ix(i, j, k))))), real(0)), ZERO, a.C)
            c.ensure_all('value', lambda i, l: eq(select(out.tree, add(a.ro(i), l)), spec(i, l)), ZERO, a.R, ZERO, lambda i: sub(a.ro(add(i, ONE)), a.ro(i)))
        c.frame(fr)
    contract('C12', '%s%s' % ('Operator::' if virt else '', 'MultAT' if at else 'Mult'))(g)


for at_ in (False, True):
    for vi in (False, True): prod(at_, vi)


def same_block(c, n, i, j, b, p, q):
    """block (i, j) of n equals the matrix given by b at (p, q)"""
    c.ensure('block shape', band(eq(n.r(i, j), b.r(p, q)), eq(n.c(i, j), b.c(p, q)), eq(n.np(i, j), b.np(p, q)), eq(n.nix(i, j), b.nix(p, q)), eq(n.ndt(i, j), b.ndt(p, q))))


@contract('C12', 'SetBlock, GetBlock')
def setblock(c):
    a = bm(c)
    i, j = c.int_('i', ZERO, a.R), c.int_('j', ZERO, a.C)
    M = c.sparse('M', rows=sub(a.ro(add(i, ONE)), a.ro(i)), cols=sub(a.co(add(j, ONE)), a.co(j)))
    c.call(BM + 'SetBlock', a, [i, j, M])
    n = now(c, a)
    c.ensure('layout kept', band(eq(n.rows, a.rows), eq(n.cols, a.cols), eq(n.nro, a.nro), eq(n.nco, a.nco), eq(n.n, a.n)))
    g = c.csr(c.ex.read(c.result_lv(c.call(BM + 'GetBlock', a, [i, j]))))
    c.ensure('block shape', band(eq(g.r, M.r), eq(g.c, M.c), eq(g.nnz, M.nnz)))
    c.ensure_all('row pointers', lambda k: eq(select(g.p, k), select(M.p, k)), ZERO, add(M.r, ONE))
    c.ensure_all('entries', lambda k: band(eq(select(g.ix, k), select(M.ix, k)), eq(select(g.dt, k), select(M.dt, k))), ZERO, M.nnz)
    oth = lambda p, q: bor(ne(p, i), ne(q, j))
    c.ensure_all('other blocks: shape', lambda p, q: implies(oth(p, q), band(eq(n.r(p, q), a.r(p, q)), eq(n.c(p, q), a.c(p, q)), eq(n.nix(p, q), a.nix(p, q)))), ZERO, a.R, ZERO, a.C)
    k = var('k', 'I')
    c.ensure_all('other blocks: entries', lambda p, q: implies(band(oth(p, q), le(ZERO, k), lt(k, a.nix(p, q))), band(eq(n.ix(p, q, k), a.ix(p, q, k)), eq(n.dt(p, q, k), a.dt(p, q, k)))), ZERO, a.R, ZERO, a.C)
    c.ensure_all('other blocks: row pointers', lambda p, q: implies(band(oth(p, q), le(ZERO, k), le(k, a.r(p, q))), eq(n.p(p, q, k), a.p(p, q, k))), ZERO, a.R, ZERO, a.C)


BOUNDED = [('BlockMatrix::Transpose', 'transposes each block by a counting sort, which has no closed form in reach'),
           ('BlockMatrix::Combine', 'that the total number of entries equals the entries of all rows needs an exchange of nested sums with data-dependent bounds, out of reach of the instantiation')]


def ctor(square):
    def g(c):
        n = c.int_('n', ONE)
        m = n if square else c.int_('m', ONE)
        ro = c.vec('int', 'ro', n)
        co = ro if square else c.vec('int', 'co', m)
        f, h = (lambda i: select(ro.el, i)), (lambda i: select(co.el, i))
        c.assume(*offsets(f, n, f(sub(n, ONE))))
        c.assume(*offsets(h, m, h(sub(m, ONE))))
        v = c.ex.read(c.result_lv(c.call('use_bm', None, [ro.val if hasattr(ro, 'val') else ro.ref] + ([] if square else [co.val if hasattr(co, 'val') else co.ref]), nparams=1 if square else 2)))
        a = parts(c, v)
        c.ensure('size', band(eq(a.rows, f(sub(n, ONE))), eq(a.cols, h(sub(m, ONE)))))
        c.ensure('offset counts', band(eq(a.nro, n), eq(a.nco, m), eq(a.n, sub(n, ONE))))
        c.ensure_all('row offsets', lambda i: eq(a.ro(i), f(i)), ZERO, n)
        c.ensure_all('column offsets', lambda i: eq(a.co(i), h(i)), ZERO, m)
        c.ensure_all('every block is the empty matrix', lambda i, j: band(eq(a.nc(i), a.C), eq(a.r(i, j), ZERO), eq(a.c(i, j), ZERO), eq(a.nix(i, j), ZERO)), ZERO, a.R, ZERO, a.C)
    contract('C12', 'constructor (%s)' % ('one offset list' if square else 'two offset lists'))(g)


ctor(True)
ctor(False)
