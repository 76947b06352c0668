"""C10 dense arithmetic and products."""
from cppvc.spec import *
from specs.C09 import is_mat, post_all, mod

DM = 'DenseMatrix::'
T1 = 'VectorView<double>'
DRIVER = ['''
void cppvc_driver(const DenseMatrix& A, DenseMatrix& B, DenseMatrix& O, VectorView<double> x, const VectorView<double>& y, std::vector<double> d, Vector<double>& v)
{
    A.Mult<double, double>(y, x); A.MultAT<double, double>(y, x); v = A.Mult<double>(y); v = A.MultAT<double>(y);
    B.ScaleRows(d); B.ScaleCols(d); B.InverseScaleRows(d); B.InverseScaleCols(d);
    B.ScaleRows(v); B.ScaleCols(v); B.InverseScaleRows(v); B.InverseScaleCols(v);
}
DenseMatrix use_plus(const DenseMatrix& A, const DenseMatrix& B) { return A + B; }
DenseMatrix use_minus(const DenseMatrix& A, const DenseMatrix& B) { return A - B; }
DenseMatrix use_times(const DenseMatrix& A, double a) { return A * a; }
DenseMatrix use_times2(const DenseMatrix& A, double a) { return a * A; }
DenseMatrix use_div(const DenseMatrix& A, double a) { return A / a; }
void use_set(DenseMatrix& A, double a) { A = a; }
bool use_eq(const DenseMatrix& A, const DenseMatrix& B) { return A == B; }
''']


# ---- A x, A^T x
def fx(which, templ):
    def f(c):
        A = c.dense('A')
        n, m = (A.c, A.r) if which == 'Mult' else (A.r, A.c)
        x, y = c.view('x', n), c.view('y', m)
        sig = 'VectorView<double> &, VectorView<double>) const'
        fs = [f for f in c.P.find(DM + which, 2, sig) if f.body is not None and bool(f.virtual) != templ]
        if len(fs) != 1: raise VCError('%s overloads: %r' % (which, fs))
        c.start()
        c.funcs.append(fs[0].qual + ' : ' + fs[0].type)
        c.ex.call(fs[0], A.lv, [x.ref, y.val])
        out = c.now(y)
        c.ensure_all('y', lambda i: eq(select(out.tree, i), spec_x(A, x.el, which)(i)), ZERO, m)
        c.frame([y.buf])
    contract('C10', '%s(x, y)%s' % (which, '' if templ else ' virtual'))(f)


def spec_x(A, x, which):
    if which == 'Mult': return lambda i: summ(lambda k: mul(A.at(i, k), select(x, k)), ZERO, A.c)
    return lambda i: summ(lambda k: mul(A.at(k, i), select(x, k)), ZERO, A.r)


def rx(which, virt):
    def f(c):
        A = c.dense('A')
        n, m = (A.c, A.r) if which == 'Mult' else (A.r, A.c)
        x = c.view('x', n)
        this = LV(A.cell, (('f', '^Operator'),)) if virt else A.lv
        r = c.call(('Operator::' if virt else DM) + which, this, [x], sig='Vector<double> (const VectorView<double> &) const')
        v = c.ex.read(c.result_lv(r))
        buf = c.contents(v.f['data_'])
        view = v.f['^VectorView<double>']
        c.ensure('size', band(eq(view.f['size_'], m), eq(buf.size, m)))
        c.ensure_all('value', lambda i: eq(select(buf.tree, i), spec_x(A, x.el, which)(i)), ZERO, m)
        c.frame()
    contract('C10', '%s%s(x)' % ('Operator::' if virt else '', which))(f)


for w in ('Mult', 'MultAT'):
    fx(w, True)
    fx(w, False)
    rx(w, False)
    rx(w, True)


# ---- matrix products
def prod(nm, at, bt, out):
    def f(c):
        A, B0 = c.dense('A'), None
        m, k = (A.c, A.r) if at else (A.r, A.c)
        n = c.int_('n', ZERO)
        B = c.dense('B', n if bt else k, k if bt else n)
        c.assume(le(ZERO, mul(m, n)))
        O = c.dense('O') if out else None
        r = c.call(DM + nm, A, [B] + ([O] if out else []), sig='(const DenseMatrix &%s) const' % (', DenseMatrix &' if out else ''))
        a = (lambda i, l: A.at(l, i)) if at else A.at
        b = (lambda l, j: B.at(j, l)) if bt else B.at
        is_mat(c, O.lv if out else c.result_lv(r), m, n, lambda i, j: summ(lambda l: mul(a(i, l), b(l, j)), ZERO, k))
        c.frame(mod(c, O) if out else [])
    contract('C10', '%s(B%s)' % (nm, ', out' if out else ''))(f)


for o in (False, True):
    prod('Mult', False, False, o)
    prod('MultAT', True, False, o)
    prod('MultBT', False, True, o)
    prod('MultABT', True, True, o)


# ---- elementwise
def upd(nm, f, alias=False):
    def g(c):
        A = c.dense('A')
        B = A if alias else c.dense('B', A.r, A.c)
        r = c.call(DM + nm, A, [B], sig='(const DenseMatrix &)')
        c.ensure('returns the target', TRUE if isinstance(r, RefV) and r.lv.same(A.lv) else FALSE)
        post_all(c, A, lambda i, j: f(A.at(i, j), B.at(i, j)))
        c.frame(mod(c, A))
    contract('C10', nm + (' with itself' if alias else ''))(g)


for al in (False, True):
    upd('operator+=', lambda a, b: add(a, b), al)
    upd('operator-=', lambda a, b: sub(a, b), al)


def upds(nm, f, nz=False):
    def g(c):
        A, s = c.dense('A'), c.real_('s')
        if nz: c.assume(ne(s, real(0)))
        if nm == 'operator=': c.call('use_set', None, [A, s])
        else: c.call(DM + nm, A, [s], sig='(double)')
        post_all(c, A, lambda i, j: f(A.at(i, j), s))
        c.frame(mod(c, A))
    contract('C10', nm + ' scalar')(g)


upds('operator*=', lambda a, s: mul(a, s))
upds('operator/=', lambda a, s: rdiv(a, s), True)
upds('operator=', lambda a, s: s)


def bins(nm, f, kind):
    def g(c):
        A = c.dense('A')
        if kind == 'm':
            B = c.dense('B', A.r, A.c)
            r = c.call(nm, None, [A, B])
            h = lambda i, j: f(A.at(i, j), B.at(i, j))
        else:
            s = c.real_('s')
            if kind == 'd': c.assume(ne(s, real(0)))
            r = c.call(nm, None, [A, s])
            h = lambda i, j: f(A.at(i, j), s)
        is_mat(c, c.result_lv(r), A.r, A.c, h)
        c.frame()
    contract('C10', 'binary ' + nm)(g)


bins('use_plus', lambda a, b: add(a, b), 'm')
bins('use_minus', lambda a, b: sub(a, b), 'm')
bins('use_times', lambda a, b: mul(a, b), 's')
bins('use_times2', lambda a, b: mul(a, b), 's')
bins('use_div', lambda a, b: rdiv(a, b), 'd')


def scl(nm, row, inv, vt):
    def g(c):
        A = c.dense('A')
        n = A.r if row else A.c
        d = c.vec('double', 'd', n) if vt == 'std::vector' else c.vector('d', n)
        if inv: c.assume(all_(lambda i: ne(select(d.el, i), real(0)), ZERO, n))
        c.call(DM + nm, A, [d], sig=vt)
        s = lambda i, j: select(d.el, i if row else j)
        post_all(c, A, lambda i, j: (rdiv if inv else mul)(A.at(i, j), s(i, j)))
        c.frame(mod(c, A))
    contract('C10', '%s(%s)' % (nm, vt))(g)


for vt in ('std::vector', 'linalgcpp::Vector'):
    scl('ScaleRows', True, False, vt)
    scl('ScaleCols', False, False, vt)
    scl('InverseScaleRows', True, True, vt)
    scl('InverseScaleCols', False, True, vt)


@contract('C10', 'Sum')
def sum_(c):
    A = c.dense('A')
    c.assume(lt(ZERO, A.size))
    r = c.call(DM + 'Sum', A, [])
    c.ensure('sum of all entries', eq(r, summ(lambda k: select(A.dt, k), ZERO, A.size)))
    c.frame()


def ext_(nm, lo):
    def g(c):
        A = c.dense('A')
        c.assume(lt(ZERO, A.size))
        r = c.call(DM + nm, A, [])
        c.ensure_all('bounds every entry', lambda k: (le(r, select(A.dt, k)) if lo else le(select(A.dt, k), r)), ZERO, A.size)
        c.ensure('is an entry', exists_range(lambda k: eq(select(A.dt, k), r), ZERO, A.size))
        c.frame()
    contract('C10', nm)(g)


ext_('Max', False)
ext_('Min', True)


@contract('C10', 'operator==')
def eqq(c):
    A = c.dense('A')
    B = c.dense('B', A.r, A.c)
    r = c.call('use_eq', None, [A, B])
    d = lambda i, j: sub(A.at(i, j), B.at(i, j))
    tol = real(1e-12)
    near = lambda i, j: band(le(d(i, j), tol), le(neg(d(i, j)), tol))
    close = forall_range(lambda j: forall_range(lambda i: near(i, j), ZERO, A.r), ZERO, A.c)
    i, j = c.int_('i', ZERO), c.int_('j', ZERO)
    c.ensure('true only for close matrices', implies(band(r, lt(i, A.r), lt(j, A.c)), near(i, j)))
    c.ensure('false only when they differ', implies(close, r))
    c.frame()


@contract('C10', 'operator== of different shapes')
def eqd(c):
    A, B = c.dense('A'), c.dense('B')
    c.assume(bor(ne(A.r, B.r), ne(A.c, B.c)))
    c.ensure('not equal', bnot(c.call('use_eq', None, [A, B])))
    c.frame()
