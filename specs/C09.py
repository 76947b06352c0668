"""C09 dense element, row, column and sub-block access."""
from cppvc.spec import *

DM = 'DenseMatrix::'
VW = 'VectorView<double>'
DRIVER = ['''
void cppvc_driver(const DenseMatrix& A, DenseMatrix& B, DenseMatrix& O, VectorView<double> x, const VectorView<double>& y, std::vector<int> r, std::vector<int> q, std::vector<double> d, const std::vector<DenseMatrix>& S)
{
    double e = A(0, 0); B(0, 0) = 1.0;
    A.GetCol<double>(0, x); A.GetRow<double>(0, x); Vector<double> v = A.GetCol<double>(0); v = A.GetRow<double>(0); B.GetCol(0, x);
    B.SetCol<double>(0, y); B.SetRow<double>(0, y); B.GetColView(0); A.GetColView(0);
    A.GetRow(0, 1); A.GetRow(0, 1, O); A.GetRow(r); A.GetRow(r, O); B.SetRow(0, A); A.GetCol(0, 1); A.GetCol(0, 1, O); B.SetCol(0, A);
    A.GetSubMatrix(0, 0, 1, 1); A.GetSubMatrix(0, 0, 1, 1, O); A.GetSubMatrix(r, q); A.GetSubMatrix(r, q, O);
    B.SetSubMatrix(0, 0, A); B.SetSubMatrix(0, 0, 1, 1, A); B.SetSubMatrixTranspose(0, 0, A); B.SetSubMatrixTranspose(0, 0, 1, 1, A);
    B.AddSubMatrix(r, q, A); d = A.GetDiag(); A.GetDiag(d); A.Transpose(); A.Transpose(O); HStack(S); HStack(S, O); A.CopyData(d);
    B.SetSize(2); B.SetSize(2, 3); B.SetSize(2, 1.0); B.SetSize(2, 3, 1.0);
}
void use_set(DenseMatrix& A, int i, int j, double a) { A(i, j) = a; }
double use_get(const DenseMatrix& A, int i, int j) { return A(i, j); }
void use_colview(DenseMatrix& A, int j, double a) { VectorView<double> v = A.GetColView(j); v = a; }
''']


def cell_(d, i, j): return add(i, mul(j, d.r))


def post_all(c, A, f, what='A'):
    """every element of the matrix: A(i,j) = f(i,j); shape and storage size unchanged"""
    n = c.dn(A.lv)
    c.ensure(what + ' keeps its shape', band(eq(n.r, A.r), eq(n.c, A.c), eq(n.size, mul(A.r, A.c))))
    c.ensure_all(what + ' elements', lambda i, j: eq(select(n.dt, cell_(A, i, j)), f(i, j)), ZERO, A.r, ZERO, A.c)


def is_mat(c, lv, r, cc, f, what='result'):
    n = c.dn(lv)
    c.ensure(what + ' shape', band(eq(n.r, r), eq(n.c, cc), eq(n.size, mul(r, cc))))
    c.ensure_all(what + ' elements', lambda i, j: eq(select(n.dt, add(i, mul(j, r))), f(i, j)), ZERO, r, ZERO, cc)


def mod(c, A): return [A.cell, A.buf]


@contract('C09', 'A(i,j) = a')
def set_(c):
    A = c.dense('A')
    i, j, a = c.int_('i', ZERO, A.r), c.int_('j', ZERO, A.c), var('a', 'R')
    c.call('use_set', None, [A, i, j, a])
    post_all(c, A, lambda k, l: ite(band(eq(k, i), eq(l, j)), a, A.at(k, l)))
    c.frame(mod(c, A))


@contract('C09', 'A(i,j)')
def get_(c):
    A = c.dense('A')
    i, j = c.int_('i', ZERO, A.r), c.int_('j', ZERO, A.c)
    r = c.call('use_get', None, [A, i, j])
    c.ensure('value', eq(r, A.at(i, j)))
    c.frame()


@contract('C09', 'GetColView aliases the column')
def colview(c):
    A = c.dense('A')
    j, a = c.int_('j', ZERO, A.c), var('a', 'R')
    c.call('use_colview', None, [A, j, a])
    post_all(c, A, lambda k, l: ite(eq(l, j), a, A.at(k, l)))
    c.frame(mod(c, A))


def line(nm, row, const):
    def g(c):
        A = c.dense('A')
        n, m = (A.r, A.c) if row else (A.c, A.r)
        k = c.int_('k', ZERO, n)
        x = c.view('x', m)
        sig = '(int, VectorView<double> &) const' if const else '(int, VectorView<double> &)'
        c.call(DM + nm, A, [k, x], sig=sig, const=const)
        out = c.now(x)
        c.ensure_all('x', lambda t: eq(select(out.tree, t), A.at(k, t) if row else A.at(t, k)), ZERO, m)
        c.frame([x.buf])
    contract('C09', nm + '(k, x)' + ('' if const else ' non-const'))(g)
line('GetRow', True, True)
line('GetCol', False, True)
line('GetCol', False, False)


def line1(nm, row):
    def g(c):
        A = c.dense('A')
        n, m = (A.r, A.c) if row else (A.c, A.r)
        k = c.int_('k', ZERO, n)
        r = c.call(DM + nm, A, [k], sig='Vector<double> (int) const')
        v = c.ex.read(c.result_lv(r))
        buf = c.contents(v.f['data_'])
        c.ensure('size', eq(buf.size, m))
        c.ensure_all('x', lambda t: eq(select(buf.tree, t), A.at(k, t) if row else A.at(t, k)), ZERO, m)
        c.frame()
    contract('C09', nm + '(k)')(g)
line1('GetRow', True)
line1('GetCol', False)


def setline(nm, row):
    def g(c):
        A = c.dense('A')
        n, m = (A.r, A.c) if row else (A.c, A.r)
        k = c.int_('k', ZERO, n)
        x = c.view('x', m)
        c.call(DM + nm, A, [k, x], sig='(int, const VectorView<double> &)')
        post_all(c, A, lambda i, j: ite(eq(i if row else j, k), select(x.el, j if row else i), A.at(i, j)))
        c.frame(mod(c, A))
    contract('C09', nm + '(k, x)')(g)
setline('SetRow', True)
setline('SetCol', False)


def ranges(c, A, i=True, j=True):
    r = []
    for b, n, nm in ((i, A.r, 'i'), (j, A.c, 'j')):
        if b:
            s, h = c.int_('s' + nm, ZERO), c.int_('h' + nm, ZERO)
            e = add(s, h)
            c.assume(le(e, n))
        else: s, e = ZERO, n
        r.append((s, e))
    return r


def sub_(nm, i, j, out):
    def g(c):
        A = c.dense('A')
        (si, ei), (sj, ej) = ranges(c, A, i, j)
        O = c.dense('O') if out else None
        args = ([si, sj, ei, ej] if i and j else [si, ei] if i else [sj, ej]) + ([O] if out else [])
        r = c.call(DM + nm, A, args, sig='(%s%s) const' % (', '.join(['int'] * (4 if i and j else 2)), ', DenseMatrix &' if out else ''))
        is_mat(c, O.lv if out else c.result_lv(r), sub(ei, si), sub(ej, sj), lambda k, l: A.at(add(k, si), add(l, sj)))
        c.frame(mod(c, O) if out else [])
    contract('C09', '%s(%s%s)' % (nm, 'range', ', out' if out else ''))(g)
for o in (False, True):
    sub_('GetSubMatrix', True, True, o)
    sub_('GetRow', True, False, o)
    sub_('GetCol', False, True, o)


def idxlist(c, nm, n):
    k = c.int_(nm + '.size', ZERO)
    v = c.vec('int', nm, k)
    c.assume(all_(lambda i: rng(select(v.el, i), ZERO, n), ZERO, k))
    return v


def subl(out):
    def g(c):
        A = c.dense('A')
        R, Q = idxlist(c, 'rows', A.r), idxlist(c, 'cols', A.c)
        O = c.dense('O') if out else None
        r = c.call(DM + 'GetSubMatrix', A, [R, Q] + ([O] if out else []), sig='const std::vector<int> &')
        is_mat(c, O.lv if out else c.result_lv(r), R.size, Q.size, lambda k, l: A.at(select(R.el, k), select(Q.el, l)))
        c.frame(mod(c, O) if out else [])
    contract('C09', 'GetSubMatrix(lists%s)' % (', out' if out else ''))(g)

    def h(c):
        A = c.dense('A')
        R = idxlist(c, 'rows', A.r)
        O = c.dense('O', R.size, A.c) if out else None
        r = c.call(DM + 'GetRow', A, [R] + ([O] if out else []), sig='const std::vector<int> &')
        is_mat(c, O.lv if out else c.result_lv(r), R.size, A.c, lambda k, l: A.at(select(R.el, k), l))
        c.frame(mod(c, O) if out else [])
    contract('C09', 'GetRow(list%s)' % (', out' if out else ''))(h)
subl(False)
subl(True)


def setsub(nm, kind, tr, ends):
    """kind: which offsets are given"""
    def g(c):
        A, B = c.dense('A'), None
        (si, ei), (sj, ej) = ranges(c, A, 'i' in kind, 'j' in kind)
        h, w = sub(ei, si), sub(ej, sj)
        B = c.dense('B', w if tr else h, h if tr else w)
        c.assume(le(ZERO, h), le(ZERO, w))
        args = ([si] if 'i' in kind else []) + ([sj] if 'j' in kind else []) + ([ei, ej] if ends else [])
        c.call(DM + nm, A, args + [B], sig='(%s, const DenseMatrix &)' % ', '.join(['int'] * len(args)))
        post_all(c, A, lambda k, l: ite(band(rng(k, si, ei), rng(l, sj, ej)), B.at(sub(l, sj), sub(k, si)) if tr else B.at(sub(k, si), sub(l, sj)), A.at(k, l)))
        c.frame(mod(c, A))
    contract('C09', '%s%s' % (nm, ' with ends' if ends else ''))(g)
setsub('SetSubMatrix', 'ij', False, False)
setsub('SetSubMatrix', 'ij', False, True)
setsub('SetSubMatrixTranspose', 'ij', True, False)
setsub('SetSubMatrixTranspose', 'ij', True, True)
setsub('SetRow', 'i', False, False)
setsub('SetCol', 'j', False, False)


@contract('C09', 'AddSubMatrix')
def addsub(c):
    A = c.dense('A')
    R, Q = idxlist(c, 'rows', A.r), idxlist(c, 'cols', A.c)
    B = c.dense('B', R.size, Q.size)
    c.call(DM + 'AddSubMatrix', A, [R, Q, B])
    hit = lambda i, j: summ(lambda l: summ(lambda k: ite(band(eq(select(R.el, k), i), eq(select(Q.el, l), j)), B.at(k, l), real(0)), ZERO, R.size), ZERO, Q.size)
    post_all(c, A, lambda i, j: add(A.at(i, j), hit(i, j)))
    c.frame(mod(c, A))


@contract('C09', 'GetDiag')
def diag(c):
    A = c.dense('A')
    c.assume(eq(A.r, A.c))
    r = c.call(DM + 'GetDiag', A, [])
    v = c.contents(c.ex.read(c.result_lv(r)))
    c.ensure('size', eq(v.size, A.r))
    c.ensure_all('diag', lambda i: eq(select(v.tree, i), A.at(i, i)), ZERO, A.r)
    c.frame()


@contract('C09', 'GetDiag(out)')
def diag_out(c):
    A = c.dense('A')
    c.assume(eq(A.r, A.c))
    d = c.vec('double', 'd', A.r)
    c.call(DM + 'GetDiag', A, [d])
    v = c.now(d)
    c.ensure('size', eq(v.size, A.r))
    c.ensure_all('diag', lambda i: eq(select(v.tree, i), A.at(i, i)), ZERO, A.r)
    c.frame([d.cell, d.buf])


@contract('C09', 'CopyData')
def copydata(c):
    A = c.dense('A')
    d = c.vec('double', 'd')
    c.call(DM + 'CopyData', A, [d])
    v = c.now(d)
    c.ensure('size', eq(v.size, mul(A.r, A.c)))
    c.ensure_all('data', lambda i: eq(select(v.tree, i), select(A.dt, i)), ZERO, A.size)
    c.frame([d.cell, d.buf])


for out in (False, True):
    def tr(c, out=out):
        A = c.dense('A')
        O = c.dense('O') if out else None
        r = c.call(DM + 'Transpose', A, [O] if out else [])
        is_mat(c, O.lv if out else c.result_lv(r), A.c, A.r, lambda i, j: A.at(j, i))
        c.frame(mod(c, O) if out else [])
    contract('C09', 'Transpose(%s)' % ('out' if out else ''))(tr)

for sq, val in ((0, 0), (0, 1), (1, 0), (1, 1)):
    def ss(c, sq=sq, val=val):
        A = c.dense('A')
        n, m, a = c.int_('n', ZERO), c.int_('m', ZERO), var('a', 'R')
        c.assume(le(ZERO, mul(n, m)), le(ZERO, mul(n, n)))
        if sq: m = n
        c.call(DM + 'SetSize', A, [n] + ([] if sq else [m]) + ([a] if val else []), sig='(int%s%s)' % ('' if sq else ', int', ', double' if val else ''))
        o = c.dn(A.lv)
        c.ensure('shape', band(eq(o.r, n), eq(o.c, m), eq(o.size, mul(n, m))))
        c.ensure_all('storage', lambda k: eq(select(o.dt, k), ite(lt(k, A.size), select(A.dt, k), a if val else real(0))), ZERO, mul(n, m))
        c.frame(mod(c, A))
    contract('C09', 'SetSize(%s%s)' % ('n' if sq else 'n,m', ',a' if val else ''))(ss)


def mats(c, nm='S'):
    """std::vector<DenseMatrix> whose blocks are valid and have R rows each"""
    S = c.vec('DenseMatrix', nm)
    R = c.int_(nm + '.rows', ZERO)
    t = S.el
    op = t.f['^Operator']
    d = t.f['data_']
    S.cols = lambda k: select(op.f['cols_'], k)
    S.rows = R
    t = Struct(t.cls, dict(t.f))
    t.f['^Operator'] = Struct(op.cls, dict(op.f, rows_=lam(lambda k: R)))
    t.f['data_'] = VecV(d.et, lam(lambda k: mul(R, S.cols(k))), d.tree)
    c.ex.st.store[S.buf] = VecV('DenseMatrix', S.size, t)
    S.el = t
    S.at = lambda k, i, j: select(select(d.tree, k), add(i, mul(j, R)))
    c.assume(all_(lambda k: band(le(ZERO, S.cols(k)), le(ZERO, mul(R, S.cols(k)))), ZERO, S.size))
    return S


for out in (False, True):
    def hs(c, out=out):
        S = mats(c)
        c.assume(lt(ZERO, S.size))
        O = c.dense('O') if out else None
        r = c.call('HStack', None, [S] + ([O] if out else []))
        off = lambda k: summ(S.cols, ZERO, k)
        n = c.dn(O.lv if out else c.result_lv(r))
        c.ensure('shape', band(eq(n.r, S.rows), eq(n.c, off(S.size)), eq(n.size, mul(n.r, n.c))))
        k = c.int_('k', ZERO, S.size)
        c.ensure_all('elements', lambda i, j: eq(select(n.dt, add(i, mul(add(off(k), j), S.rows))), S.at(k, i, j)), ZERO, S.rows, ZERO, S.cols(k))
        c.frame(mod(c, O) if out else [])
    contract('C09', 'HStack(%s)' % ('out' if out else ''))(hs)
