"""C08 list-of-lists matrices."""
from cppvc.spec import *
from cppvc.lib import fabs_

DRIVER = ['''
template class LilMatrix<double>;
SparseMatrix<double> use_tosparse(const LilMatrix<double>& A) { return A.ToSparse<double>(); }
''']
LM = 'LilMatrix<double>::'
BOUNDED = [('LilMatrix::ToSparse', 'sorting every row inside a loop and merging equal neighbours has no closed form in reach'),
           ('LilMatrix::EliminateZeros', 'erases from every row inside a loop'),
           ('LilMatrix::Add(rows, cols, dense)', 'insertions at repeated rows inside nested loops have no closed form in reach')]


def parts(c, st):
    op = st.f['^Operator']
    rows = c.contents(st.f['entries_'])
    t = rows.tree               # VecV of VecV: sizes and elements lifted over the row
    return Rec(r=op.f['rows_'], c=op.f['cols_'], sized=st.f['size_set_'], n=rows.size, L=lambda i: select(t.size, i),
               j=lambda i, k: select(select(t.tree.f['first'], i), k), v=lambda i, k: select(select(t.tree.f['second'], i), k))


def lil(c, name='A', sized=None):
    cell = c.obj('LilMatrix<double>', name)
    v = c.ex.st.store[cell]
    a = parts(c, v)
    a.cell, a.lv, a.ref, a.buf = cell, LV(cell), RefV(LV(cell)), v.f['entries_'].cell
    c.assume(le(ZERO, a.r), le(ZERO, a.c), le(ZERO, a.n), all_(lambda i: le(ZERO, a.L(i)), ZERO, a.n))
    c.assume(all_(lambda i: all_(lambda k: le(ZERO, a.j(i, k)), ZERO, a.L(i)), ZERO, a.n))
    fit = all_(lambda i: all_(lambda k: lt(a.j(i, k), a.c), ZERO, a.L(i)), ZERO, a.n)
    if sized is True: c.assume(a.sized, eq(a.n, a.r), fit)
    elif sized is False: c.assume(bnot(a.sized))
    else: c.assume(implies(a.sized, band(eq(a.n, a.r), fit)))
    return a


def now(c, a): return parts(c, c.ex.st.store[a.cell])


def row_sum(a, i, j): return summ(lambda k: ite(eq(a.j(i, k), j), a.v(i, k), real(0)), ZERO, a.L(i))


def entry(a, i, j): return ite(lt(i, a.n), row_sum(a, i, j), real(0))


def size_posts(c, a, R, C):
    c.ensure('fixed size kept', implies(a.sized, band(eq(R, a.r), eq(C, a.c))))
    c.ensure('rows: as many as there are lists', implies(bnot(a.sized), bor(eq(R, a.n), band(le(a.n, ZERO), eq(R, ONE)))))
    c.ensure_all('large enough: columns', lambda i, k: implies(bnot(a.sized), lt(a.j(i, k), C)), ZERO, a.n, ZERO, lambda i: a.L(i))
    c.ensure('not larger than needed: columns', implies(bnot(a.sized), bor(eq(C, ONE), exists_range(lambda i: exists_range(lambda k: eq(add(a.j(i, k), ONE), C), ZERO, a.L(i)), ZERO, a.n))))


@contract('C08', 'FindSize')
def findsize(c):
    a = lil(c)
    t = c.ex.read(c.result_lv(c.call(LM + 'FindSize', a)))
    size_posts(c, a, t.f['0'], t.f['1'])
    c.frame()


@contract('C08', 'Rows, Cols')
def rowscols(c):
    a = lil(c)
    r = c.call(LM + 'Rows', a)
    k = c.call(LM + 'Cols', a)
    size_posts(c, a, r, k)
    c.frame()


@contract('C08', 'SetSize')
def setsize(c):
    a = lil(c)
    r, k = c.int_('r', ZERO), c.int_('k', ZERO)
    c.call(LM + 'SetSize', a, [r, k])
    n = now(c, a)
    c.ensure('size', band(n.sized, eq(n.r, r), eq(n.c, k)))
    c.ensure('one list per row', eq(n.n, r))
    c.ensure_all('new rows are empty', lambda i: eq(n.L(i), ZERO), a.n, r)
    c.ensure_all('earlier rows keep their length', lambda i: implies(lt(i, r), eq(n.L(i), a.L(i))), ZERO, a.n)
    c.ensure_all('earlier entries kept', lambda i, k: implies(lt(i, r), band(eq(n.j(i, k), a.j(i, k)), eq(n.v(i, k), a.v(i, k)))), ZERO, a.n, ZERO, lambda i: a.L(i))
    c.frame([a.cell, a.buf])


def index(c, a, i, j):
    c.assume(le(ZERO, i), le(ZERO, j), implies(a.sized, band(lt(i, a.r), lt(j, a.c))))


def old_len(a, i): return ite(lt(i, a.n), a.L(i), ZERO)


def add1(sized):
    def g(c):
        a = lil(c, sized=sized)
        i, j, v = c.int_('i'), c.int_('j'), c.real_('v')
        index(c, a, i, j)
        c.call(LM + 'Add', a, [i, j, v], sig='(int, int, double)')
        n = now(c, a)
        m = n.n
        c.ensure('size kept', band(eq(n.sized, a.sized), eq(n.r, a.r), eq(n.c, a.c)))
        c.ensure('row count', eq(n.n, ite(band(bnot(a.sized), le(a.n, i)), add(i, ONE), a.n)))
        c.ensure_all('row lengths', lambda x: eq(n.L(x), add(old_len(a, x), ite(eq(x, i), ONE, ZERO))), ZERO, m)
        is_new, a_last = (lambda k: band(eq(n.j(i, k), j), eq(n.v(i, k), v), lt(k, n.L(i)))), sub(n.L(i), ONE)
        # the new entry is in row i, every earlier entry is still there
        c.ensure('new entry', band(lt(i, n.n), bor(is_new(ZERO), is_new(a_last), exists_range(is_new, ZERO, n.L(i)))))
        s = lambda x: ite(eq(x, i), ONE, ZERO)
        c.ensure_all('earlier entries of other rows', lambda x, k: implies(ne(x, i), band(eq(n.j(x, k), a.j(x, k)), eq(n.v(x, k), a.v(x, k)))), ZERO, a.n, ZERO, lambda x: a.L(x))
        c.ensure_all('value', lambda x, y: eq(row_sum(n, x, y), add(entry(a, x, y), ite(band(eq(x, i), eq(y, j)), v, real(0)))), ZERO, m, ZERO, add(a.c, add(j, ONE)))
        c.frame([a.cell, a.buf])
    contract('C08', 'Add(i, j, val) %s' % ('fixed size' if sized else 'automatic size'))(g)


def addsym(sized, diag):
    def g(c):
        a = lil(c, sized=sized)
        i, v = c.int_('i'), c.real_('v')
        j = i if diag else c.int_('j')
        if not diag: c.assume(ne(i, j))
        index(c, a, i, j)
        index(c, a, j, i)
        c.call(LM + 'AddSym', a, [i, j, v])
        n = now(c, a)
        hit = lambda x, y: ite(bor(band(eq(x, i), eq(y, j)), band(eq(x, j), eq(y, i))), v, real(0))
        c.ensure('size kept', band(eq(n.sized, a.sized), eq(n.r, a.r), eq(n.c, a.c)))
        c.ensure('row count', bor(eq(n.n, a.n), band(bnot(a.sized), bor(eq(n.n, add(i, ONE)), eq(n.n, add(j, ONE))), le(a.n, n.n))))
        c.ensure('rows exist', band(lt(i, n.n), lt(j, n.n)))
        c.ensure_all('value', lambda x, y: eq(row_sum(n, x, y), add(entry(a, x, y), hit(x, y))), ZERO, n.n, ZERO, add(a.c, add(j, ONE)))
        c.frame([a.cell, a.buf])
    contract('C08', 'AddSym(i, %s, val) %s' % ('i' if diag else 'j', 'fixed size' if sized else 'automatic size'))(g)


for s_ in (True, False):
    add1(s_)
    addsym(s_, True)
    addsym(s_, False)


def todense(out, sized):
    def g(c):
        a = lil(c, sized=sized)
        if out:
            D = c.dense('D')
            c.call(LM + 'ToDense', a, [D])
            d = c.dn(D.lv)
        else:
            d = c.dn(c.result_lv(c.call(LM + 'ToDense', a, [])))
        size_posts(c, a, d.r, d.c)
        c.ensure('storage', eq(d.size, mul(d.r, d.c)))
        c.ensure_all('entries', lambda i, j: eq(d.at(i, j), entry(a, i, j)), ZERO, d.r, ZERO, d.c)
        c.frame([D.cell, D.buf] if out else [])
    contract('C08', 'ToDense(%s) %s' % ('output' if out else '', 'fixed size' if sized else 'automatic size'))(g)


for o_ in (True, False):
    for s_ in (True, False): todense(o_, s_)


def prod(at, virt):
    def g(c):
        a = lil(c, sized=True)
        n, m = (a.r, a.c) if at else (a.c, a.r)
        x = c.view('x', n)
        nm = 'MultAT' if at else 'Mult'
        if at: spec = lambda i: summ(lambda r: mul(select(x.el, r), row_sum(a, r, i)), ZERO, a.n)
        else: spec = lambda i: summ(lambda k: mul(a.v(i, k), select(x.el, a.j(i, k))), ZERO, a.L(i))
        if virt:
            c.start()
            r = c.call('Operator::' + nm, LV(a.cell, (('f', '^Operator'),)), [x], sig='(const VectorView<double> &) const')
            v = c.ex.read(c.result_lv(r))
            view = [w for k, w in v.f.items() if k.startswith('^')][0]
            out = c.contents(v.f['data_'])
            c.ensure('result size', band(eq(view.f['size_'], m), eq(out.size, m)))
            fr = []
        else:
            y = c.view('y', m)
            c.call(LM + nm, a, [x, y])
            out = c.now(y)
            fr = [y.buf]
        c.ensure_all('value', lambda i: eq(select(out.tree, i), spec(i)), ZERO, m)
        c.frame(fr)
    contract('C08', '%s%s' % ('Operator::' if virt else '', 'MultAT' if at else 'Mult'))(g)


for at_ in (False, True):
    for vi in (False, True): prod(at_, vi)
