"""C14 vector and view operations."""
from cppvc.spec import *

DRIVER = ['''
void cppvc_driver(VectorView<double> x, const VectorView<double>& y, const VectorView<double>& w, VectorView<double> z, Vector<double> V, const Vector<double>& W,
                  VectorView<int> xi, const VectorView<int>& yi, std::vector<int> idx)
{
    x += y; x -= y; x *= y; x /= y;
    x += 2.0; x -= 2.0; x *= 2.0; x /= 2.0;
    x = 3.0; x = y; x = z; x = std::move(z);
    x.Add(2.0, y); x.Add(y); x.Sub(2.0, y); x.Sub(y); x.Set(2.0, y); x.Set(y);
    double s = x.Sum() + Sum(x) + Mean(x) + Max(x) + Min(x) + AbsMax(x) + AbsMin(x) + L2Norm(x) + x.L2Norm() + y.Mult(w) + InnerProduct(y, w) + (y * w);
    bool b = (y == w);
    x.GetSubVector(idx, V); V = x.GetSubVector(idx);
    Normalize(x); x.Normalize(); SubAvg(x);
    Add(2.0, y, 3.0, w, 4.0, z); Add(y, w, z); Sub(y, w, z);
    V = V + W; V = V - W; V = V * 2.0; V = 2.0 * V; V = V / 2.0; V = 2.0 / V; V = 1.0;
    V.SetSize(3); V.SetSize(3, 1.0); V.Mult(y); V[0] = 1;
    xi += yi; xi -= yi; xi *= yi; xi = 3; xi = yi; xi += 1; xi -= 1; xi *= 2;
    int si = xi.Sum() + Sum(xi) + Max(xi) + Min(xi) + AbsMax(xi) + AbsMin(xi) + yi.Mult(yi);
    double m = Mean(xi);
    std::vector<double> sv; VectorView<double> q(sv); VectorView<double> q2(sv.data(), 3); VectorView<double> q3(q); VectorView<double> q4(std::move(q)); swap(q2, q3);
}
''']
V = 'VectorView<double>'


def win(c, name, n, T='double'):
    """a view of n elements somewhere inside a larger buffer"""
    N, off = c.int_(name + '.N', ZERO), c.int_(name + '.off', ZERO)
    c.assume(le(ZERO, n), le(add(off, n), N))
    b = c.buf(T, name, N)
    v = c.view(name, n, T, base=b, off=off)
    v.N = N
    v.at = lambda i: select(v.el, add(off, i))
    return v


def post(c, x, f, what):
    """every buffer element: f(i) at the i-th element of the view, unchanged elsewhere"""
    out = c.ex.st.store[x.buf]
    c.ensure_all(what, lambda i: eq(select(out.tree, add(x.off, i)), f(i)), ZERO, x.size)
    c.ensure_all(what + ': elements outside the view unchanged',
                 lambda k: implies(bor(lt(k, x.off), le(add(x.off, x.size), k)), eq(select(out.tree, k), select(x.el, k))), ZERO, x.N)
    c.ensure('storage keeps its size', eq(out.size, x.N))
    c.frame([x.buf])


def ret_view(c, r, x):
    """returned view / reference addresses the same range"""
    if r is None: return
    v = c.ex.read(r.lv) if isinstance(r, RefV) else r
    p = v.f['data_']
    c.ensure('returned view addresses the target', band(TRUE if p.base is not None and p.base.cell == x.buf else FALSE, eq(p.off, x.off), eq(v.f['size_'], x.size)))


ETS = {'double': ('VectorView<double>', 'R'), 'int': ('VectorView<int>', 'I')}


def elementwise(name, fn, sig, f, T='double', alias=False, nz=None):
    def g(c):
        n = c.int_('n', ZERO)
        x = win(c, 'x', n, T)
        y = x if alias else win(c, 'y', n, T)
        if nz: c.assume(all_(lambda i: ne(y.at(i), real(0) if T == 'double' else ZERO), ZERO, n))
        c.start()
        r = c.call(fn, None, [x, y], sig=sig)
        post(c, x, lambda i: f(x.at(i), y.at(i)), 'x_i')
        ret_view(c, r, x)
    contract('C14', name + (' (aliased)' if alias else ''))(g)


for T in ('double', 'int'):
    vv = 'VectorView<%s> (VectorView<%s>, const VectorView<%s> &)' % (T, T, T)
    for al in (False, True):
        for op, f in (('+', add), ('-', sub), ('*', mul), ('/', rdiv)):
            if op == '/' and T == 'int': continue
            elementwise('%s view %s= view' % (T, op), 'operator%s=' % op, vv, f, T, al, nz=op == '/')
    def scal(op, f, T):
        def g(c):
            n = c.int_('n', ZERO)
            x = win(c, 'x', n, T)
            a = var('a', ETS[T][1])
            if op == '/': c.assume(ne(a, real(0)))
            r = c.call('operator%s=' % op, None, [x, a], sig='VectorView<%s> (VectorView<%s>, %s)' % (T, T, T))
            post(c, x, lambda i: f(x.at(i), a), 'x_i')
            ret_view(c, r, x)
        contract('C14', '%s view %s= value' % (T, op))(g)
    for op, f in (('+', add), ('-', sub), ('*', mul), ('/', rdiv)):
        if op == '/' and T == 'int': continue
        scal(op, f, T)
    def fill(T):
        def g(c):
            n = c.int_('n', ZERO)
            x = win(c, 'x', n, T)
            a = var('a', ETS[T][1])
            r = c.call('VectorView<%s>::operator=' % T, x, [a], sig='(%s)' % T)
            post(c, x, lambda i: a, 'x_i')
            ret_view(c, r, x)
        contract('C14', '%s view = value' % T)(g)
    fill(T)
    def copy(T, sig, nm, al):
        def g(c):
            n = c.int_('n', ZERO)
            x = win(c, 'x', n, T)
            y = x if al else win(c, 'y', n, T)
            r = c.call('VectorView<%s>::operator=' % T, x, [y], sig=sig)
            post(c, x, lambda i: y.at(i), 'x_i')
            ret_view(c, r, x)
        contract('C14', '%s view = %s view%s' % (T, nm, ' (self)' if al else ''))(g)
    for al in (False, True):
        if T == 'double': copy(T, '(VectorView<%s> &)' % T, 'mutable', al)
        copy(T, '(const VectorView<%s> &)' % T, 'const', al)
        if T == 'double': copy(T, '(VectorView<%s> &&)' % T, 'moved', al)

for al in (False, True):
    def meth(nm, nargs, f, al):
        def g(c):
            n = c.int_('n', ZERO)
            x = win(c, 'x', n)
            y = x if al else win(c, 'y', n)
            a = var('alpha', 'R')
            r = c.call(V + '::' + nm, x, ([a] if nargs == 2 else []) + [y])
            post(c, x, lambda i: f(x.at(i), y.at(i), a), 'x_i')
            ret_view(c, r, x)
        contract('C14', 'view.%s(%sview)%s' % (nm, 'alpha, ' if nargs == 2 else '', ' (aliased)' if al else ''))(g)
    meth('Add', 2, lambda x, y, a: add(x, mul(a, y)), al)
    meth('Add', 1, lambda x, y, a: add(x, y), al)
    meth('Sub', 2, lambda x, y, a: sub(x, mul(a, y)), al)
    meth('Sub', 1, lambda x, y, a: sub(x, y), al)
    meth('Set', 2, lambda x, y, a: mul(a, y), al)
    meth('Set', 1, lambda x, y, a: y, al)


def dot(x, y, n): return summ(lambda i: mul(x.at(i), y.at(i)), ZERO, n)


def sum_of(x, n): return summ(lambda i: x.at(i), ZERO, n)


def reader(name, fn, member, spec, T='double', two=False, sig=None, nonempty=False, alias=False):
    def g(c):
        n = c.int_('n', ONE if nonempty else ZERO)
        x = win(c, 'x', n, T)
        y = x if alias else win(c, 'y', n, T)
        c.start()
        args = ([] if member else [x]) + ([y] if two else [])
        r = c.call(fn, x if member else None, args, sig=sig)
        if isinstance(r, RefV): r = c.ex.read(r.lv)
        spec(c, r, x, y, n)
        c.frame()
    contract('C14', name + (' (aliased)' if alias else ''))(g)


def is_(f): return lambda c, r, x, y, n: c.ensure('value', eq(r, f(x, y, n)))


for T in ('double', 'int'):
    VT = 'VectorView<%s>' % T
    reader(T + ' Sum (member)', VT + '::Sum', True, is_(lambda x, y, n: sum_of(x, n)), T)
    reader(T + ' Sum', 'Sum', False, is_(lambda x, y, n: sum_of(x, n)), T, sig='(const %s &)' % VT)
    reader(T + ' Mean', 'Mean', False, is_(lambda x, y, n: rdiv(lift(sum_of(x, n), 'R'), lift(n, 'R'))), T, sig='(const %s &)' % VT, nonempty=True)
    reader(T + ' Mult', VT + '::Mult', True, is_(lambda x, y, n: dot(x, y, n)), T, two=True, sig='const')
    def extreme(nm, T, key, hi):
        VT = 'VectorView<%s>' % T
        def s(c, r, x, y, n):
            c.ensure_all('bounds every element', lambda i: le(key(x.at(i)), r) if hi else le(r, key(x.at(i))), ZERO, n)
            c.ensure('is attained', exists_range(lambda k: eq(key(select(x.el, k)), r), x.off, add(x.off, n)))
        reader('%s %s' % (T, nm), nm, False, s, T, sig='(const %s &)' % VT, nonempty=True)
    idf = lambda v: v
    from cppvc.lib import fabs_
    extreme('Max', T, idf, True)
    extreme('Min', T, idf, False)
    extreme('AbsMax', T, fabs_, True)
    extreme('AbsMin', T, fabs_, False)

from cppvc.lib import sqrt_
for al in (False, True):
    reader('InnerProduct', 'InnerProduct', False, is_(lambda x, y, n: dot(x, y, n)), two=True, sig='(const %s &, const %s &)' % (V, V), alias=al)
    reader('view * view', 'operator*', False, is_(lambda x, y, n: dot(x, y, n)), two=True, sig='double (const %s &, const %s &)' % (V, V), alias=al)
reader('L2Norm', 'L2Norm', False, is_(lambda x, y, n: sqrt_(dot(x, x, n))), sig='(const %s &)' % V)
reader('L2Norm (member)', V + '::L2Norm', True, is_(lambda x, y, n: sqrt_(dot(x, x, n))))


@contract('C14', 'view == view')
def equal(c):
    n, m = c.int_('n', ZERO), c.int_('m', ZERO)
    x, y = win(c, 'x', n), win(c, 'y', m)
    r = c.call('operator==', None, [x, y], sig='(const %s &, const %s &)' % (V, V))
    tol = real(1e-12)
    near = lambda i: bnot(lt(tol, fabs_(sub(x.at(i), y.at(i)))))
    c.ensure('true only if sizes and all entries agree to 1e-12', implies(r, eq(n, m)))
    i = c.int_('i', ZERO, n)
    c.ensure('entry', implies(r, near(i)))
    c.ensure('true if all agree', implies(band(eq(n, m), all_(near, ZERO, n)), r))
    c.frame()


def resized(c, Vc, size, f, what='result', old=None):
    """Vc (cell of a Vector) holds exactly `size` elements f(i) in its own storage"""
    v = c.ex.read(Vc if isinstance(Vc, LV) else LV(Vc))
    view = [w for k, w in v.f.items() if k.startswith('^')][0]
    buf = c.contents(v.f['data_'])
    c.ensure(what + ' size', band(eq(view.f['size_'], size), eq(buf.size, size)))
    p = view.f['data_']
    own = TRUE if p.base is not None and isinstance(v.f['data_'], VRef) and p.base.cell == v.f['data_'].cell else FALSE
    c.ensure(what + ' view addresses its own storage', bor(eq(size, ZERO), band(own, eq(p.off if p.off is not None else ZERO, ZERO))))
    c.ensure_all(what + ' entries', lambda i: eq(select(buf.tree, i), f(i)), ZERO, size)


@contract('C14', 'GetSubVector(indices, out)')
def getsub(c):
    n, k = c.int_('n', ZERO), c.int_('k', ZERO)
    x = win(c, 'x', n)
    idx = c.vec('int', 'idx', k)
    o = c.vector('o', c.int_('o.size', ZERO))
    c.assume(all_(lambda i: rng(select(idx.el, i), ZERO, n), ZERO, k))
    c.start()
    c.call(V + '::GetSubVector', x, [idx, o])
    resized(c, o.cell, k, lambda i: x.at(select(idx.el, i)))
    c.frame([o.cell, o.buf])


@contract('C14', 'GetSubVector(indices)')
def getsub1(c):
    n, k = c.int_('n', ZERO), c.int_('k', ZERO)
    x = win(c, 'x', n)
    idx = c.vec('int', 'idx', k)
    c.assume(all_(lambda i: rng(select(idx.el, i), ZERO, n), ZERO, k))
    r = c.call(V + '::GetSubVector', x, [idx])
    resized(c, c.result_lv(r), k, lambda i: x.at(select(idx.el, i)))
    c.frame()


for nm, th in (('Normalize', False), (V + '::Normalize', True)):
    def norm(c, nm=nm, th=th):
        n = c.int_('n', ZERO)
        x = win(c, 'x', n)
        c.assume(ne(sqrt_(dot(x, x, n)), real(0)))
        c.call(nm, x if th else None, [] if th else [x])
        post(c, x, lambda i: rdiv(x.at(i), sqrt_(dot(x, x, n))), 'x_i / |x|')
    contract('C14', nm)(norm)


@contract('C14', 'SubAvg')
def subavg(c):
    n = c.int_('n', ONE)
    x = win(c, 'x', n)
    c.call('SubAvg', None, [x])
    post(c, x, lambda i: sub(x.at(i), rdiv(sum_of(x, n), lift(n, 'R'))), 'x_i - mean')


def add3(nm, kind, f, nargs, alias):
    def g(c):
        n = c.int_('n', ZERO)
        z = win(c, 'z', n)
        x = z if alias == 'x' else win(c, 'x', n)
        y = z if alias == 'y' else win(c, 'y', n)
        a, b, gm = var('a', 'R'), var('b', 'R'), var('g', 'R')
        args = [a, x, b, y, gm, z] if nargs == 6 else [x, y, z]
        sig = '(double, const {0} &, double, const {0} &, double, {0})' if nargs == 6 else '(const {0} &, const {0} &, {0})'
        c.call(kind, None, args, sig=sig.format(V))
        post(c, z, lambda i: f(x.at(i), y.at(i), z.at(i), a, b, gm), 'z_i')
    contract('C14', nm + (' (z aliases %s)' % alias if alias else ''))(g)


for al in (None, 'x', 'y'):
    add3('Add(a,x,b,y,c,z)', 'Add', lambda x, y, z, a, b, g: add(add(mul(a, x), mul(b, y)), mul(g, z)), 6, al)
    add3('Add(x,y,z)', 'Add', lambda x, y, z, a, b, g: add(x, y), 3, al)
    add3('Sub(x,y,z)', 'Sub', lambda x, y, z, a, b, g: sub(x, y), 3, al)

W = 'Vector<double>'


def vecop(nm, f, nz=None):
    def g(c):
        n = c.int_('n', ZERO)
        x, y = c.vector('x', n), c.vector('y', n)
        a = var('a', 'R')
        if nz == 'a': c.assume(ne(a, real(0)))
        if nz == 'x': c.assume(all_(lambda i: ne(select(x.el, i), real(0)), ZERO, n))
        r = c.call('use_' + nm, None, [x, y, a])
        resized(c, c.result_lv(r), n, lambda i: f(select(x.el, i), select(y.el, i), a))
        c.frame()
    contract('C14', 'Vector ' + nm)(g)


vecop('plus', lambda x, y, a: add(x, y))
vecop('minus', lambda x, y, a: sub(x, y))
vecop('times', lambda x, y, a: mul(x, a))
vecop('ltimes', lambda x, y, a: mul(x, a))
vecop('over', lambda x, y, a: rdiv(x, a), 'a')
vecop('lover', lambda x, y, a: rdiv(a, x), 'x')
DRIVER.append('''
Vector<double> use_plus(const Vector<double>& x, const Vector<double>& y, double a) { return x + y; }
Vector<double> use_minus(const Vector<double>& x, const Vector<double>& y, double a) { return x - y; }
Vector<double> use_times(const Vector<double>& x, const Vector<double>& y, double a) { return x * a; }
Vector<double> use_ltimes(const Vector<double>& x, const Vector<double>& y, double a) { return a * x; }
Vector<double> use_over(const Vector<double>& x, const Vector<double>& y, double a) { return x / a; }
Vector<double> use_lover(const Vector<double>& x, const Vector<double>& y, double a) { return a / x; }
void use_access(VectorView<double>& x, int i, double a) { x[i] = a; }
double use_get(const VectorView<double>& x, int i) { return x[i]; }
void use_range(VectorView<double>& x, double a) { for (double& e : x) e += a; }
void use_subview(VectorView<double>& x, int i, int n, double a) { VectorView<double> s(x.begin() + i, n); s = a; }
void use_stdview(std::vector<double>& x, double a) { VectorView<double> s(x); s *= a; }
void use_viewcopy(VectorView<double>& x, double a) { VectorView<double> s(x); VectorView<double> t(std::move(s)); t += a; }
void use_swap(VectorView<double>& x, VectorView<double>& y) { swap(x, y); }
void use_vfill(Vector<double>& x, double a) { x = a; }
Vector<double> use_vnew(int n, double a) { return Vector<double>(n, a); }
Vector<double> use_vnew0(int n) { return Vector<double>(n); }
Vector<double> use_vdata(const double* p, int n) { return Vector<double>(p, n); }
Vector<double> use_vview(const VectorView<double>& p) { return Vector<double>(p); }
Vector<double> use_vstd(std::vector<double> p) { return Vector<double>(std::move(p)); }
void use_vassign(Vector<double>& x, const VectorView<double>& y) { x = y; }
void use_setsize(Vector<double>& x, int n) { x.SetSize(n); }
void use_setsizev(Vector<double>& x, int n, double a) { x.SetSize(n, a); }
int use_size(const VectorView<double>& x) { return x.size(); }
''')


@contract('C14', 'view[i] = a')
def access(c):
    n = c.int_('n', ONE)
    x = win(c, 'x', n)
    i, a = c.int_('i', ZERO, n), var('a', 'R')
    c.call('use_access', None, [x, i, a])
    post(c, x, lambda k: ite(eq(k, i), a, x.at(k)), 'x_i')


@contract('C14', 'view[i]')
def access_get(c):
    n = c.int_('n', ONE)
    x = win(c, 'x', n)
    i = c.int_('i', ZERO, n)
    r = c.call('use_get', None, [x, i])
    c.ensure('value', eq(r, x.at(i)))
    c.ensure('size', eq(c.ex.call(c.find('use_size'), None, [x.ref]), n))
    c.frame()


@contract('C14', 'range-for over a view')
def range_for(c):
    n = c.int_('n', ZERO)
    x = win(c, 'x', n)
    a = var('a', 'R')
    c.call('use_range', None, [x, a])
    post(c, x, lambda k: add(x.at(k), a), 'x_i')


@contract('C14', 'sub-view writes through')
def subview(c):
    n = c.int_('n', ZERO)
    x = win(c, 'x', n)
    i, m, a = c.int_('i', ZERO), c.int_('m', ZERO), var('a', 'R')
    c.assume(le(add(i, m), n))
    c.call('use_subview', None, [x, i, m, a])
    post(c, x, lambda k: ite(rng(k, i, add(i, m)), a, x.at(k)), 'x_i')


@contract('C14', 'view of std::vector writes through')
def stdview(c):
    x = c.vec('double', 'x')
    a = var('a', 'R')
    c.call('use_stdview', None, [x, a])
    out = c.now(x)
    c.ensure('size', eq(out.size, x.size))
    c.ensure_all('x_i', lambda i: eq(select(out.tree, i), mul(select(x.el, i), a)), ZERO, x.size)
    c.frame([x.cell, x.buf])


@contract('C14', 'copied and moved views alias the same range')
def viewcopy(c):
    n = c.int_('n', ZERO)
    x = win(c, 'x', n)
    a = var('a', 'R')
    c.call('use_viewcopy', None, [x, a])
    post(c, x, lambda k: add(x.at(k), a), 'x_i')


@contract('C14', 'swap(view, view) exchanges the ranges, not the elements')
def viewswap(c):
    n, m = c.int_('n', ZERO), c.int_('m', ZERO)
    x, y = win(c, 'x', n), win(c, 'y', m)
    c.call('use_swap', None, [x, y])
    for a, b in ((x, y), (y, x)):
        v = c.ex.read(a.lv)
        p = v.f['data_']
        c.ensure('exchanged', band(TRUE if p.base.cell == b.buf else FALSE, eq(p.off, b.off), eq(v.f['size_'], b.size)))
    c.frame([x.cell, y.cell])


@contract('C14', 'Vector = value')
def vfill(c):
    n, a = c.int_('n', ZERO), var('a', 'R')
    x = c.vector('x', n)
    c.call('use_vfill', None, [x, a])
    resized(c, x.cell, n, lambda i: a)
    c.frame([x.cell, x.buf])


def maker(nm, build):
    def g(c):
        args, n, f = build(c)
        r = c.call(nm, None, args)
        resized(c, c.result_lv(r), n, f)
        c.frame([a.cell for a in args if nm == 'use_vstd'])
    contract('C14', nm)(g)


def b1(c):
    n, a = c.int_('n', ZERO), var('a', 'R')
    return [n, a], n, lambda i: a
def b2(c):
    n = c.int_('n', ZERO)
    return [n], n, lambda i: real(0)
def b3(c):
    n = c.int_('n', ZERO)
    x = win(c, 'x', n)
    return [PtrV(LV(x.buf), x.off), n], n, x.at
def b4(c):
    n = c.int_('n', ZERO)
    x = win(c, 'x', n)
    return [x], n, x.at


maker('use_vnew', b1)
maker('use_vnew0', b2)
maker('use_vdata', b3)
maker('use_vview', b4)


@contract('C14', 'Vector(std::vector)')
def vstd(c):
    x = c.vec('double', 'x')
    r = c.call('use_vstd', None, [VRef(x.buf, 'double')])
    resized(c, c.result_lv(r), x.size, lambda i: select(x.el, i))


@contract('C14', 'Vector = view')
def vassign(c):
    n, m = c.int_('n', ZERO), c.int_('m', ZERO)
    x, y = c.vector('x', n), win(c, 'y', m)
    c.call('use_vassign', None, [x, y])
    resized(c, x.cell, m, lambda i: y.at(i))
    c.frame([x.cell, x.buf])


for nm, k in (('use_setsize', 0), ('use_setsizev', 1)):
    def ss(c, nm=nm, k=k):
        n, m, a = c.int_('n', ZERO), c.int_('m', ZERO), var('a', 'R')
        x = c.vector('x', n)
        c.call(nm, None, [x, m] + ([a] if k else []))
        resized(c, x.cell, m, lambda i: ite(lt(i, n), select(x.el, i), a if k else real(0)))
        c.frame([x.cell, x.buf])
    contract('C14', 'Vector::SetSize%d' % k)(ss)
