"""C01 sparse matrix-vector products."""
from cppvc.spec import *

DRIVER = ['''
void cppvc_driver(const SparseMatrix<double>& A, const VectorView<double>& x, VectorView<double> y)
{
    A.Mult<double,double>(x, y);
    A.MultAT<double,double>(x, y);
    Vector<double> a = A.Mult<double>(x);
    Vector<double> b = A.MultAT<double>(x);
    Vector<double> c = A.operator*<double>(x);
}
''']
SM = 'SparseMatrix<double>::'


def y_mult(A, x):
    return lambda i: summ(lambda k: mul(select(A.dt, k), select(x, select(A.ix, k))), select(A.p, i), select(A.p, add(i, ONE)))


def y_multat(A, x):
    return lambda i: summ(lambda r: mul(select(x, r), summ(lambda k: ite(eq(select(A.ix, k), i), select(A.dt, k), real(0)),
                                                         select(A.p, r), select(A.p, add(r, ONE)))), ZERO, A.r)


def mk(which, templ):
    def f(c):
        A = c.sparse('A')
        n, m = (A.c, A.r) if which == 'Mult' else (A.r, A.c)
        x, y = c.view('x', n), c.view('y', m)
        sig = 'VectorView<double> &, VectorView<double>) const'
        fs = [f for f in c.P.find(SM + which, 2, sig) if f.body is not None]
        fs = [f for f in fs if bool(f.virtual) != templ]
        if len(fs) != 1: raise VCError('%s overloads: %r' % (which, fs))
        c.start()
        c.funcs.append(fs[0].qual + ' : ' + fs[0].type)
        c.ex.call(fs[0], A.lv, [x.ref, y.val])
        spec = (y_mult if which == 'Mult' else y_multat)(A, x.el)
        out = c.now(y)
        c.ensure_all('y = %s x' % ('A' if which == 'Mult' else 'A^T'), lambda i: eq(select(out.tree, i), spec(i)), ZERO, m)
        c.frame([y.buf])
    return f


contract('C01', 'SparseMatrix::Mult(view,view)')(mk('Mult', True))
contract('C01', 'SparseMatrix::MultAT(view,view)')(mk('MultAT', True))
contract('C01', 'SparseMatrix::Mult virtual')(mk('Mult', False))
contract('C01', 'SparseMatrix::MultAT virtual')(mk('MultAT', False))


def ret(qual, which, virt=False):
    def f(c):
        A = c.sparse('A')
        n, m = (A.c, A.r) if which == 'Mult' else (A.r, A.c)
        x = c.view('x', n)
        c.start()
        this = LV(A.cell, (('f', '^Operator'),)) if virt else A.lv
        r = c.call(qual, this, [x], sig='(const VectorView<double> &) const')
        v = c.ex.read(c.result_lv(r))
        view = [w for k, w in v.f.items() if k.startswith('^')][0]
        buf = c.contents(v.f['data_'])
        spec = (y_mult if which == 'Mult' else y_multat)(A, x.el)
        c.ensure('result size', band(eq(view.f['size_'], m), eq(buf.size, m)))
        c.ensure('result view addresses its own storage', band(TRUE if view.f['data_'].base is not None and view.f['data_'].base.cell == v.f['data_'].cell else FALSE, eq(view.f['data_'].off, ZERO)))
        c.ensure_all('value', lambda i: eq(select(buf.tree, i), spec(i)), ZERO, m)
        c.frame()
    return f


contract('C01', 'SparseMatrix::Mult returning')(ret(SM + 'Mult', 'Mult'))
contract('C01', 'SparseMatrix::MultAT returning')(ret(SM + 'MultAT', 'MultAT'))
contract('C01', 'SparseMatrix::operator*')(ret(SM + 'operator*', 'Mult'))
contract('C01', 'Operator::Mult returning')(ret('Operator::Mult', 'Mult', True))
contract('C01', 'Operator::MultAT returning')(ret('Operator::MultAT', 'MultAT', True))
