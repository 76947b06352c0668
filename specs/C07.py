"""C07 coordinate matrices."""
from cppvc.spec import *
from cppvc.lib import fabs_

DRIVER = ['''
void cppvc_driver(CooMatrix<double>& A, const std::vector<int>& r, const std::vector<double>& v, double s)
{
    A.Add(r, r, v); A.Add(r, r, s, v);
}
SparseMatrix<double> use_tosparse(const CooMatrix<double>& A) { return A.ToSparse<double>(); }
''']
CM = 'CooMatrix<double>::'
BOUNDED = [('CooMatrix::ToSparse', 'hash maps from column to slot (std::unordered_map) are outside the verified library subset')]


def coo(c, name='A', sized=None):
    cell = c.obj('CooMatrix<double>', name)
    v = c.ex.st.store[cell]
    op = v.f['^Operator']
    ent = c.contents(v.f['entries_'])
    t = ent.tree
    a = Rec(cell=cell, lv=LV(cell), ref=RefV(LV(cell)), r=op.f['rows_'], c=op.f['cols_'], sized=v.f['size_set_'], n=ent.size, i=t.f['0'], j=t.f['1'], v=t.f['2'], buf=v.f['entries_'].cell)
    c.assume(le(ZERO, a.r), le(ZERO, a.c), le(ZERO, a.n))
    c.assume(all_(lambda e: band(le(ZERO, select(a.i, e)), le(ZERO, select(a.j, e))), ZERO, a.n))
    fit = all_(lambda e: band(lt(select(a.i, e), a.r), lt(select(a.j, e), a.c)), ZERO, a.n)
    if sized is True: c.assume(a.sized, fit)
    elif sized is False: c.assume(bnot(a.sized))
    else: c.assume(implies(a.sized, fit))
    return a


def coonow(c, a):
    v = c.ex.st.store[a.cell]
    op = v.f['^Operator']
    ent = c.contents(v.f['entries_'])
    return Rec(r=op.f['rows_'], c=op.f['cols_'], sized=v.f['size_set_'], n=ent.size, i=ent.tree.f['0'], j=ent.tree.f['1'], v=ent.tree.f['2'])


def entry(a, i, j): return summ(lambda e: ite(band(eq(select(a.i, e), i), eq(select(a.j, e), j)), select(a.v, e), real(0)), ZERO, a.n)


def size_posts(c, a, R, C):
    for nm, ix, d, fixed in (('rows', a.i, R, a.r), ('columns', a.j, C, a.c)):
        c.ensure('fixed %s kept' % nm, implies(a.sized, eq(d, fixed)))
        c.ensure_all('large enough: %s' % nm, lambda e: implies(bnot(a.sized), lt(select(ix, e), d)), ZERO, a.n)
        c.ensure('not larger than needed: %s' % nm, implies(bnot(a.sized), bor(eq(d, ONE), exists_range(lambda e: eq(add(select(ix, e), ONE), d), ZERO, a.n))))


@contract('C07', 'FindSize')
def findsize(c):
    a = coo(c)
    r = c.call(CM + 'FindSize', a)
    t = c.ex.read(c.result_lv(r))
    size_posts(c, a, t.f['0'], t.f['1'])
    c.frame()


@contract('C07', 'SetSize')
def setsize(c):
    a = coo(c)
    r, k = c.int_('r', ZERO), c.int_('k', ZERO)
    c.call(CM + 'SetSize', a, [r, k])
    n = coonow(c, a)
    c.ensure('size', band(n.sized, eq(n.r, r), eq(n.c, k)))
    c.ensure('entries', eq(n.n, a.n))
    c.frame([a.cell])


@contract('C07', 'Reserve')
def reserve(c):
    a = coo(c)
    c.call(CM + 'Reserve', a, [c.int_('s', ZERO)])
    n = coonow(c, a)
    c.ensure('size', band(eq(n.sized, a.sized), eq(n.r, a.r), eq(n.c, a.c), eq(n.n, a.n)))
    c.frame([a.cell])


def added(c, a, new, m):
    """m entries appended: new(e) = (row, col, value) of the e-th"""
    n = coonow(c, a)
    c.ensure('size kept', band(eq(n.sized, a.sized), eq(n.r, a.r), eq(n.c, a.c)))
    c.ensure('count', eq(n.n, add(a.n, m)))
    c.ensure_all('earlier entries kept', lambda e: band(eq(select(n.i, e), select(a.i, e)), eq(select(n.j, e), select(a.j, e)), eq(select(n.v, e), select(a.v, e))), ZERO, a.n)
    def f(e):
        i, j, v = new(e)
        at = add(a.n, e)
        return band(eq(select(n.i, at), i), eq(select(n.j, at), j), eq(select(n.v, at), v))
    c.ensure_all('new entries', f, ZERO, m)
    c.frame([a.cell, a.buf])
    return n


def index(c, a, x, cols):
    """an index that fits"""
    c.assume(le(ZERO, x), implies(a.sized, lt(x, a.c if cols else a.r)))


def indexes(c, a, v, cols):
    c.assume(all_(lambda k: band(le(ZERO, select(v.el, k)), implies(a.sized, lt(select(v.el, k), a.c if cols else a.r))), ZERO, v.size))


@contract('C07', 'Add(i, j, val)')
def add1(c):
    a = coo(c)
    i, j, v = c.int_('i'), c.int_('j'), c.real_('v')
    index(c, a, i, False), index(c, a, j, True)
    c.call(CM + 'Add', a, [i, j, v], sig='(int, int, double)')
    added(c, a, lambda e: (i, j, v), ONE)


@contract('C07', 'AddSym(i, j, val)')
def addsym(c):
    a = coo(c)
    i, j, v = c.int_('i'), c.int_('j'), c.real_('v')
    for x in (i, j): index(c, a, x, False), index(c, a, x, True)
    c.call(CM + 'AddSym', a, [i, j, v])
    n = coonow(c, a)
    c.ensure('count', eq(n.n, add(a.n, ite(eq(i, j), ONE, lift(2)))))
    c.ensure_all('earlier entries kept', lambda e: band(eq(select(n.i, e), select(a.i, e)), eq(select(n.j, e), select(a.j, e)), eq(select(n.v, e), select(a.v, e))), ZERO, a.n)
    f, s = a.n, add(a.n, ONE)
    c.ensure('entry', band(eq(select(n.i, f), i), eq(select(n.j, f), j), eq(select(n.v, f), v)))
    c.ensure('mirrored entry', implies(ne(i, j), band(eq(select(n.i, s), j), eq(select(n.j, s), i), eq(select(n.v, s), v))))
    c.frame([a.cell, a.buf])


def block(scaled, same):
    def g(c):
        a = coo(c)
        B = c.dense('B')
        rows = c.vec('int', 'rows', B.r)
        cols = rows if same else c.vec('int', 'cols', B.c)
        if same: c.assume(eq(B.r, B.c))
        indexes(c, a, rows, False), indexes(c, a, cols, True)
        s = c.real_('s')
        args = [rows] + ([] if same else [cols]) + ([s] if scaled else []) + [B]
        sig = '(const std::vector<int> &, %s%sconst DenseMatrix &)' % ('' if same else 'const std::vector<int> &, ', 'double, ' if scaled else '')
        c.call(CM + 'Add', a, args, sig=sig)
        n = coonow(c, a)
        m = mul(B.r, B.c)
        c.ensure('size kept', band(eq(n.sized, a.sized), eq(n.r, a.r), eq(n.c, a.c)))
        c.ensure('count', eq(n.n, add(a.n, m)))
        c.ensure_all('earlier entries kept', lambda e: band(eq(select(n.i, e), select(a.i, e)), eq(select(n.j, e), select(a.j, e)), eq(select(n.v, e), select(a.v, e))), ZERO, a.n)
        def f(j, i):
            e = add(a.n, add(mul(j, B.r), i))
            v = B.at(i, j)
            return band(eq(select(n.i, e), select(rows.el, i)), eq(select(n.j, e), select(cols.el, j)), eq(select(n.v, e), mul(s, v) if scaled else v))
        c.ensure_all('new entries', f, ZERO, B.c, ZERO, B.r)
        c.frame([a.cell, a.buf])
    contract('C07', 'Add(%s%sdense)' % ('indices, ' if same else 'rows, cols, ', 'scale, ' if scaled else ''))(g)


for sc in (False, True):
    for sm in (False, True): block(sc, sm)


def line(scaled, row):
    def g(c):
        a = coo(c)
        m = c.int_('m', ZERO)
        x = c.view('x', m)
        ids = c.vec('int', 'ids', m)
        k, s = c.int_('k'), c.real_('s')
        index(c, a, k, not row), indexes(c, a, ids, row)
        args = ([k, ids] if row else [ids, k]) + ([s] if scaled else []) + [x]
        sig = '(%s, %sconst VectorView<double> &)' % ('int, const std::vector<int> &' if row else 'const std::vector<int> &, int', 'double, ' if scaled else '')
        c.call(CM + 'Add', a, args, sig=sig)
        val = lambda e: mul(s, select(x.el, e)) if scaled else select(x.el, e)
        added(c, a, lambda e: (k, select(ids.el, e), val(e)) if row else (select(ids.el, e), k, val(e)), m)
    contract('C07', 'Add(%s, %svector)' % ('row, cols' if row else 'rows, col', 'scale, ' if scaled else ''))(g)


def pairs(scaled):
    def g(c):
        a = coo(c)
        m = c.int_('m', ZERO)
        rows, cols, x = c.vec('int', 'rows', m), c.vec('int', 'cols', m), c.vec('double', 'x', m)
        s = c.real_('s')
        indexes(c, a, rows, False), indexes(c, a, cols, True)
        args = [rows, cols] + ([s] if scaled else []) + [x]
        c.call(CM + 'Add', a, args, sig='(const std::vector<int> &, const std::vector<int> &, %sconst std::vector<double> &)' % ('double, ' if scaled else ''))
        added(c, a, lambda e: (select(rows.el, e), select(cols.el, e), mul(s, select(x.el, e)) if scaled else select(x.el, e)), m)
    contract('C07', 'Add(rows, cols, %svalues)' % ('scale, ' if scaled else ''))(g)


for sc in (False, True):
    pairs(sc)
    for rw in (False, True): line(sc, rw)


def todense(out, sized):
    def g(c):
        a = coo(c, sized=sized)
        if out:
            D = c.dense('D')
            c.call(CM + 'ToDense', a, [D])
            d = c.dn(D.lv)
        else:
            d = c.dn(c.result_lv(c.call(CM + 'ToDense', a, [])))
        size_posts(c, a, d.r, d.c)
        c.ensure('storage', eq(d.size, mul(d.r, d.c)))
        c.ensure_all('entries', lambda i, j: eq(d.at(i, j), entry(a, i, j)), ZERO, d.r, ZERO, d.c)
        c.frame([D.cell, D.buf] if out else [])
    contract('C07', 'ToDense(%s) %s' % ('output' if out else '', 'fixed size' if sized else 'automatic size'))(g)


for o_ in (True, False):
    for s_ in (True, False): todense(o_, s_)


def perm(rows, cols, nm):
    def g(c):
        a = coo(c, sized=True)
        args = []
        if rows: p = c.vec('int', 'p', a.r); args.append(p)
        if cols: q = c.vec('int', 'q', a.c); args.append(q)
        c.call(CM + nm, a, args)
        n = coonow(c, a)
        c.ensure('size kept', band(eq(n.sized, a.sized), eq(n.r, a.r), eq(n.c, a.c), eq(n.n, a.n)))
        c.ensure_all('entries', lambda e: band(eq(select(n.i, e), select(p.el, select(a.i, e)) if rows else select(a.i, e)),
                                               eq(select(n.j, e), select(q.el, select(a.j, e)) if cols else select(a.j, e)),
                                               eq(select(n.v, e), select(a.v, e))), ZERO, a.n)
        c.frame([a.cell, a.buf])
    contract('C07', nm)(g)


perm(True, False, 'PermuteRows')
perm(False, True, 'PermuteCols')
perm(True, True, 'PermuteRowsCols')


def prod(at, virt):
    def g(c):
        a = coo(c, sized=True)
        n, m = (a.r, a.c) if at else (a.c, a.r)
        x = c.view('x', n)
        nm = 'MultAT' if at else 'Mult'
        I, J = (a.j, a.i) if at else (a.i, a.j)
        spec = lambda i: summ(lambda e: ite(eq(select(I, e), i), mul(select(a.v, e), select(x.el, select(J, e))), real(0)), ZERO, a.n)
        if virt:
            c.start()
            r = c.call('Operator::' + nm, LV(a.cell, (('f', '^Operator'),)), [x], sig='(const VectorView<double> &) const')
            v = c.ex.read(c.result_lv(r))
            view = [w for k, w in v.f.items() if k.startswith('^')][0]
            out = c.contents(v.f['data_'])
            c.ensure('result size', band(eq(view.f['size_'], m), eq(out.size, m)))
            fr = []
        else:
            y = c.view('y', m)
            c.call(CM + nm, a, [x, y])
            out = c.now(y)
            fr = [y.buf]
        c.ensure_all('value', lambda i: eq(select(out.tree, i), spec(i)), ZERO, m)
        c.frame(fr)
    contract('C07', nm_(at, virt))(g)


def nm_(at, virt): return '%s%s' % ('Operator::' if virt else '', 'MultAT' if at else 'Mult')


for at_ in (False, True):
    for vi in (False, True): prod(at_, vi)


@contract('C07', 'EliminateZeros(tolerance)')
def elim(c):
    a = coo(c)
    t = c.real_('t')
    c.call(CM + 'EliminateZeros', a, [t])
    n = coonow(c, a)
    keep = lambda e: lt(t, fabs_(select(a.v, e)))
    cnt = lambda k: summ(lambda e: ite(keep(e), ONE, ZERO), ZERO, k)
    c.ensure('size kept', band(eq(n.sized, a.sized), eq(n.r, a.r), eq(n.c, a.c)))
    c.ensure('as many entries as exceed the tolerance', eq(n.n, cnt(a.n)))
    c.ensure_all('each of them is kept, in order', lambda e: implies(keep(e), band(eq(select(n.i, cnt(e)), select(a.i, e)), eq(select(n.j, cnt(e)), select(a.j, e)), eq(select(n.v, cnt(e)), select(a.v, e)))), ZERO, a.n)
    c.frame([a.cell, a.buf])
