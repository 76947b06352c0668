"""C13 block operators and block vectors."""
from cppvc.spec import *
from cppvc.extern import op_entry

DRIVER = ['''
template class BlockVector<double>;
BlockOperator use_bo(const std::vector<int>& r) { return BlockOperator(r); }
BlockOperator use_bo(const std::vector<int>& r, const std::vector<int>& c) { return BlockOperator(r, c); }
BlockOperator use_bo_copy(const BlockOperator& o) { return BlockOperator(o); }
BlockVector<double> use_bv(const std::vector<int>& r) { return BlockVector<double>(r); }
BlockVector<double> use_bv(const std::vector<int>& r, double v) { return BlockVector<double>(r, v); }
BlockVector<double> use_bv(const VectorView<double>& x, const std::vector<int>& r) { return BlockVector<double>(x, r); }
BlockVector<double> use_bv_copy(const BlockVector<double>& o) { return BlockVector<double>(o); }
void use_bv_assign(BlockVector<double>& a, const BlockVector<double>& b) { a = b; }
void use_bv_assign(BlockVector<double>& a, const VectorView<double>& b) { a = b; }
void use_bv_assign(BlockVector<double>& a, double b) { a = b; }
''']


def handle_of(c, p):
    if isinstance(p, T): return p
    if isinstance(p, Opaque): return p.data
    return c.ex.ptr_handle(p)


BO, BV = 'BlockOperator::', 'BlockVector<double>::'
H = lambda h: (app('op.rows', [h], 'I'), app('op.cols', [h], 'I'))


def offsets(f, n, total):
    return [lt(ZERO, n), eq(f(ZERO), ZERO), eq(f(sub(n, ONE)), total), all_(lambda i: le(f(i), f(add(i, ONE))), ZERO, sub(n, ONE)),
            all_(lambda i: all_(lambda j: le(f(i), f(j)), i, n), ZERO, n),
            all_(lambda i: le(ZERO, f(i)), ZERO, n), all_(lambda i: le(f(i), total), ZERO, n)]


def vparts(c, v):
    """vector object -> size, contents, view"""
    while 'data_' not in v.f or not isinstance(v.f['data_'], (VRef, VecV)):
        v = [w for k, w in v.f.items() if k.startswith('^')][0]
    view = [w for k, w in v.f.items() if k.startswith('^')][0]
    d = c.contents(v.f['data_'])
    return Rec(size=view.f['size_'], own=d.size, el=lambda i: select(d.tree, i), ptr=[w for w in view.f.values() if isinstance(w, PtrV)][0],
               cell=v.f['data_'].cell if isinstance(v.f['data_'], VRef) else None)


def bvparts(c, v):
    a = vparts(c, v)
    o = c.contents(v.f['offsets_'])
    a.no, a.o = o.size, (lambda i: select(o.tree, i))
    a.ocell = v.f['offsets_'].cell if isinstance(v.f['offsets_'], VRef) else None
    return a


def parts(c, st):
    op = st.f['^Operator']
    ro, co, A = c.contents(st.f['row_offsets_']), c.contents(st.f['col_offsets_']), c.contents(st.f['A_'])
    b = Rec(rows=op.f['rows_'], cols=op.f['cols_'], ro=lambda i: select(ro.tree, i), co=lambda j: select(co.tree, j),
            nro=ro.size, nco=co.size, n=A.size, R=sub(ro.size, ONE), C=sub(co.size, ONE),
            nc=lambda i: select(A.tree.size, i), h=lambda i, j: select(select(A.tree.tree, i), j))
    b.x, b.y, b.tmp = bvparts(c, st.f['x_']), bvparts(c, st.f['y_']), vparts(c, st.f['tmp_'])
    return b


def valid(a):
    f = [le(ZERO, a.rows), le(ZERO, a.cols)] + offsets(a.ro, a.nro, a.rows) + offsets(a.co, a.nco, a.cols)
    f += [eq(a.n, a.R), all_(lambda i: eq(a.nc(i), a.C), ZERO, a.R),
          eq(a.x.size, a.cols), eq(a.y.size, a.rows), eq(a.x.no, a.nco), eq(a.y.no, a.nro),
          all_(lambda i: eq(a.x.o(i), a.co(i)), ZERO, a.nco), all_(lambda i: eq(a.y.o(i), a.ro(i)), ZERO, a.nro)]

    def slot(i, j):
        h = a.h(i, j)
        r, k = H(h)
        return implies(ne(h, ZERO), band(eq(r, sub(a.ro(add(i, ONE)), a.ro(i))), eq(k, sub(a.co(add(j, ONE)), a.co(j)))))
    f.append(all_(lambda i: all_(lambda j: slot(i, j), ZERO, a.C), ZERO, a.R))
    return f


def bo(c, name='A'):
    cell = c.obj('BlockOperator', name)
    v = c.ex.st.store[cell]
    a = parts(c, v)
    a.cell, a.lv, a.ref = cell, LV(cell), RefV(LV(cell))
    c.ex.scratch = frozenset(['A.tmp_'])
    a.work = [a.x.cell, a.y.cell, a.tmp.cell]
    c.assume(*valid(a))
    return a


def now(c, a): return parts(c, c.ex.st.store[a.cell])


def prod(at, virt, twice=False):
    def g(c):
        a = bo(c)
        n, m = (a.rows, a.cols) if at else (a.cols, a.rows)
        x = c.view('x', n)
        nm = 'MultAT' if at else 'Mult'
        fr = a.work + [a.cell]
        if virt:
            c.start()
            r = c.call('Operator::' + nm, LV(a.cell, (('f', '^Operator'),)), [x], sig='(const VectorView<double> &) const')
            out = vparts(c, c.ex.read(c.result_lv(r)))
            c.ensure('result size', band(eq(out.size, m), eq(out.own, m)))
            el = out.el
        else:
            y = c.view('y', m)
            c.call(BO + nm, a, [x, y], sig='(const VectorView<double> &, VectorView<double>) const')
            el = lambda i: select(c.now(y).tree, i)
            fr = fr + [y.buf]
        if at:
            spec = lambda j, l: summ(lambda i: ite(ne(a.h(i, j), ZERO), summ(lambda k: mul(op_entry(a.h(i, j), k, l), select(x.el, add(a.ro(i), k))), ZERO, sub(a.ro(add(i, ONE)), a.ro(i))), real(0)), ZERO, a.R)
            c.ensure_all('value', lambda j, l: eq(el(add(a.co(j), l)), spec(j, l)), ZERO, a.C, ZERO, lambda j: sub(a.co(add(j, ONE)), a.co(j)))
        else:
            spec = lambda i, l: summ(lambda j: ite(ne(a.h(i, j), ZERO), summ(lambda k: mul(op_entry(a.h(i, j), l, k), select(x.el, add(a.co(j), k))), ZERO, sub(a.co(add(j, ONE)), a.co(j))), real(0)), ZERO, a.C)
            c.ensure_all('value', lambda i, l: eq(el(add(a.ro(i), l)), spec(i, l)), ZERO, a.R, ZERO, lambda i: sub(a.ro(add(i, ONE)), a.ro(i)))
        keep(c, a, 'the operator')
        c.frame(fr)
    contract('C13', '%s%s' % ('Operator::' if virt else '', 'MultAT' if at else 'Mult'))(g)


def keep(c, a, what, blocks=True):
    """layout and blocks unchanged, workspaces still of the right size: the object is as valid as before, so that applications can be repeated"""
    n = now(c, a)
    c.ensure(what + ': layout kept', band(eq(n.rows, a.rows), eq(n.cols, a.cols), eq(n.nro, a.nro), eq(n.nco, a.nco), eq(n.n, a.n)))
    c.ensure_all(what + ': row offsets kept', lambda i: band(eq(n.ro(i), a.ro(i)), eq(n.y.o(i), a.ro(i))), ZERO, a.nro)
    c.ensure_all(what + ': column offsets kept', lambda i: band(eq(n.co(i), a.co(i)), eq(n.x.o(i), a.co(i))), ZERO, a.nco)
    c.ensure(what + ': workspace sizes', band(eq(n.x.size, a.cols), eq(n.x.own, a.cols), eq(n.y.size, a.rows), eq(n.y.own, a.rows), eq(n.x.no, a.nco), eq(n.y.no, a.nro), eq(n.tmp.size, n.tmp.own)))
    if blocks: c.ensure_all(what + ': blocks kept', lambda i, j: band(eq(n.nc(i), a.C), eq(n.h(i, j), a.h(i, j))), ZERO, a.R, ZERO, a.C)


for at_ in (False, True):
    for vi in (False, True): prod(at_, vi)


@contract('C13', 'SetBlock, GetBlock')
def setblock(c):
    a = bo(c)
    i, j = c.int_('i', ZERO, a.R), c.int_('j', ZERO, a.C)
    M = c.operator('M', sub(a.ro(add(i, ONE)), a.ro(i)), sub(a.co(add(j, ONE)), a.co(j)))
    c.call(BO + 'SetBlock', a, [i, j, M])
    keep(c, a, 'SetBlock', False)
    n = now(c, a)
    c.ensure_all('blocks', lambda p, q: band(eq(n.nc(p), a.C), eq(n.h(p, q), ite(band(eq(p, i), eq(q, j)), M.h, a.h(p, q)))), ZERO, a.R, ZERO, a.C)
    g = c.call(BO + 'GetBlock', a, [i, j])
    c.ensure('GetBlock returns the operator set', eq(handle_of(c, g), M.h))


def ctor(square):
    def g(c):
        n = c.int_('n', ONE)
        m = n if square else c.int_('m', ONE)
        ro = c.vec('int', 'ro', n)
        co = ro if square else c.vec('int', 'co', m)
        f, h = (lambda i: select(ro.el, i)), (lambda i: select(co.el, i))
        c.assume(*offsets(f, n, f(sub(n, ONE))))
        c.assume(*offsets(h, m, h(sub(m, ONE))))
        v = c.ex.read(c.result_lv(c.call('use_bo', None, [ro.ref] + ([] if square else [co.ref]), nparams=1 if square else 2)))
        checkop(c, parts(c, v), f, h, n, m, lambda i, j: ZERO)
    contract('C13', 'BlockOperator constructor (%s)' % ('one offset list' if square else 'two offset lists'))(g)


def checkop(c, a, f, h, n, m, blk):
    c.ensure('size', band(eq(a.rows, f(sub(n, ONE))), eq(a.cols, h(sub(m, ONE)))))
    c.ensure('offset counts', band(eq(a.nro, n), eq(a.nco, m), eq(a.n, sub(n, ONE)), eq(a.x.no, m), eq(a.y.no, n)))
    c.ensure('workspaces', band(eq(a.x.size, a.cols), eq(a.x.own, a.cols), eq(a.y.size, a.rows), eq(a.y.own, a.rows)))
    c.ensure_all('row offsets', lambda i: band(eq(a.ro(i), f(i)), eq(a.y.o(i), f(i))), ZERO, n)
    c.ensure_all('column offsets', lambda i: band(eq(a.co(i), h(i)), eq(a.x.o(i), h(i))), ZERO, m)
    c.ensure_all('blocks', lambda i, j: band(eq(a.nc(i), a.C), eq(a.h(i, j), blk(i, j))), ZERO, a.R, ZERO, a.C)
    ownstore(c, a.x, 'x_')
    ownstore(c, a.y, 'y_')
    ownstore(c, a.tmp, 'tmp_')


def ownstore(c, v, what):
    """the view part spans exactly the owned storage"""
    ok = v.ptr.base is None or (v.cell is not None and v.ptr.base.same(LV(v.cell)))
    c.ensure('%s: view points into its own storage' % what, band(TRUE if ok else FALSE, eq(v.size, v.own), TRUE if v.ptr.base is None or v.ptr.off is None else eq(v.ptr.off, ZERO)))


ctor(True)
ctor(False)


@contract('C13', 'BlockOperator copy constructor')
def copyop(c):
    a = bo(c)
    v = c.ex.read(c.result_lv(c.call('use_bo_copy', None, [a])))
    b = parts(c, v)
    checkop(c, b, a.ro, a.co, a.nro, a.nco, a.h)
    for x in ('x', 'y', 'tmp'):
        p, q = getattr(a, x), getattr(b, x)
        c.ensure('%s_ is a separate object' % x, TRUE if p.cell != q.cell else FALSE)
    c.frame([])


# ------------------------------------------------------------------ block vectors
def bv(c, name='v'):
    cell = c.obj('BlockVector<double>', name)
    a = bvparts(c, c.ex.st.store[cell])
    b = Rec(cell=cell, lv=LV(cell), ref=RefV(LV(cell)), buf=a.cell, ocell=a.ocell, size=a.size, el=a.el, no=a.no, o=a.o)
    c.assume(*offsets(a.o, a.no, a.size))
    return b


def bvnow(c, a): return bvparts(c, c.ex.st.store[a.cell])


def slices(const):
    def g(c):
        a = bv(c)
        i, k = c.int_('i', ZERO, sub(a.no, ONE)), c.int_('k', ZERO)
        r = c.call(BV + 'GetBlock', a, [i], const=const)
        w = c.ex.read(c.result_lv(r))
        p = [x for x in w.f.values() if isinstance(x, PtrV)][0]
        c.ensure('slice length', eq(w.f['size_'], sub(a.o(add(i, ONE)), a.o(i))))
        c.ensure('slice aliases the vector at its offset', band(TRUE if p.base is not None and p.base.same(LV(a.buf)) else FALSE, eq(p.off, a.o(i)) if p.off is not None else FALSE))
        c.frame([])
    contract('C13', 'BlockVector::GetBlock%s' % (' const' if const else ''))(g)


slices(False)
slices(True)


def bvctor(kind):
    def g(c):
        n = c.int_('n', ONE)
        ro = c.vec('int', 'ro', n)
        f = lambda i: select(ro.el, i)
        c.assume(*offsets(f, n, f(sub(n, ONE))))
        val = c.real_('val')
        if kind == 'offsets': args, want = [ro.ref], None
        elif kind == 'value': args, want = [ro.ref, val], lambda i: val
        else:
            x = c.view('x', f(sub(n, ONE)))
            args, want = [x, ro.ref], lambda i: select(x.el, i)
        sig = dict(offsets='(const std::vector<int> &)', value='(const std::vector<int> &, double)', data='(const VectorView<double> &, const std::vector<int> &)')[kind]
        v = c.ex.read(c.result_lv(c.call('use_bv', None, args, sig=sig)))
        a = bvparts(c, v)
        checkbv(c, a, f, n, f(sub(n, ONE)), want)
        c.frame([])
    contract('C13', 'BlockVector constructor (%s)' % kind)(g)


def checkbv(c, a, f, n, size, want):
    c.ensure('size', eq(a.size, size))
    c.ensure('offset count', eq(a.no, n))
    c.ensure_all('offsets', lambda i: eq(a.o(i), f(i)), ZERO, n)
    ownstore(c, a, 'data')
    if want: c.ensure_all('entries', lambda i: eq(a.el(i), want(i)), ZERO, size)


for k_ in ('offsets', 'value', 'data'): bvctor(k_)


@contract('C13', 'BlockVector copy constructor')
def bvcopy(c):
    a = bv(c)
    v = c.ex.read(c.result_lv(c.call('use_bv_copy', None, [a])))
    b = bvparts(c, v)
    checkbv(c, b, a.o, a.no, a.size, a.el)
    c.ensure('the copy owns other storage', TRUE if b.cell != a.buf else FALSE)
    c.frame([])


@contract('C13', 'BlockVector assignment')
def bvassign(c):
    a, b = bv(c, 'a'), bv(c, 'b')
    c.call('use_bv_assign', None, [a, b], sig='(BlockVector<double> &, const BlockVector<double> &)')
    n = bvnow(c, a)
    checkbv(c, n, b.o, b.no, b.size, b.el)
    c.ensure('the copy owns other storage', TRUE if n.cell != b.buf else FALSE)
    c.frame([a.cell, a.buf, a.ocell])


@contract('C13', 'BlockVector = view')
def bvassignv(c):
    a = bv(c, 'a')
    x = c.view('x', a.size)
    c.call('use_bv_assign', None, [a, x], sig='(BlockVector<double> &, const VectorView<double> &)')
    n = bvnow(c, a)
    checkbv(c, n, a.o, a.no, a.size, lambda i: select(x.el, i))
    c.frame([a.cell, a.buf])


@contract('C13', 'BlockVector = scalar')
def bvassigns(c):
    a = bv(c, 'a')
    x = c.real_('x')
    c.call('use_bv_assign', None, [a, x], sig='(BlockVector<double> &, double)')
    n = bvnow(c, a)
    checkbv(c, n, a.o, a.no, a.size, lambda i: x)
    c.frame([a.cell, a.buf])
