"""C16 conjugate gradients."""
from cppvc.spec import *
from cppvc.extern import op_entry

DRIVER = ['''
PCGSolver use_pcg_copy(const PCGSolver& o) { return PCGSolver(o); }
''']
PCG = 'PCGSolver::'
SIG = '(const VectorView<double> &, VectorView<double>) const'


def fn(c, qual, sig=None):
    return Opaque('fn', c.find(qual, 2, sig).node)


def vec_of(c, v):
    """Vector<double> field -> (size, element)"""
    view = [w for k, w in v.f.items() if k.startswith('^')][0]
    d = c.contents(v.f['data_'])
    return Rec(size=view.f['size_'], own=d.size, el=lambda i: select(d.tree, i), cell=v.f['data_'].cell)


def sized(ex, v, n):
    cell = v.f['data_'].cell
    b = ex.st.store[cell]
    ex.st.store[cell] = VecV(b.et, n, b.tree)
    k = [k for k in v.f if k.startswith('^')][0]
    return v.set(k, v.f[k].set('size_', n))


WORK = ('Ap_', 'r_', 'p_', 'z_')


def solver(c, pre):
    ex = c.ex
    n = c.int_('n', ZERO)
    A = c.operator('A', n, n)
    M = c.operator('M', n, n) if pre else None
    cell = c.obj('PCGSolver', 'S')
    st = ex.st.store[cell]
    for k in WORK: st = st.set(k, sized(ex, st.f[k], n))
    for o in (A, M):
        if o: ex.st.store[o.cell] = ex.st.store[o.cell].set('rows_', n).set('cols_', n)
    sol = st.f['^Solver']
    op = sol.f['^Operator'].set('rows_', n).set('cols_', n)
    sol = sol.set('^Operator', op).set('A_', PtrV(A.lv, None)).set('Dot_', fn(c, 'InnerProduct', '(const VectorView<double> &, const VectorView<double> &)'))
    st = st.set('^Solver', sol).set('M_', PtrV(M.lv, None) if pre else PtrV(None, None))
    ex.st.store[cell] = st
    s = Rec(cell=cell, lv=LV(cell), ref=RefV(LV(cell)), n=n, A=A, M=M, max=sol.f['max_iter_'], rel=sol.f['rel_tol_'], abs=sol.f['abs_tol_'])
    s.work = [vec_of(c, st.f[w]) for w in WORK]
    c.assume(le(ZERO, s.max))
    ex.check_div = ex.name_results = True

    def spd(h, at, u, row):
        # A (and M) symmetric positive definite, at the vector applied to
        q = dot(u, row, n)
        ex.st.pc = ex.st.pc + (('f', le(real(0), q)), ('f', bor(lt(real(0), q), all_(lambda i: eq(u(i), real(0)), ZERO, n))))
    ex.on_apply.append(spd)
    return s


def dot(f, g, n): return summ(lambda i: mul(f(i), g(i)), ZERO, n)


def mult(pre, conv):
    def g(c):
        ex = c.ex
        s = solver(c, pre)
        n = s.n
        b, x = c.view('b', n), c.view('x', n)
        Ax = lambda X, i: summ(lambda k: mul(op_entry(s.A.h, i, k), X(k)), ZERO, n)
        pc = (lambda R, i: summ(lambda k: mul(op_entry(s.M.h, i, k), R(k)), ZERO, n)) if pre else (lambda R, i: R(i))
        x0 = lambda i: select(x.el, i)
        R0 = lambda i: sub(select(b.el, i), Ax(x0, i))
        r0 = fresh('fn', 'R')
        c.assume(eq(r0, dot(lambda i: pc(R0, i), R0, n)))
        a, d = mul(mul(r0, s.rel), s.rel), mul(s.abs, s.abs)
        tol = ite(lt(a, d), d, a)

        c.assume(le(r0, tol) if conv else lt(tol, r0))

        def state(deref):
            v = deref(LV(s.cell))
            w = {k: (lambda t: (lambda i: select(t, i)))(deref(v.f[k].f['data_']).tree) for k in WORK}
            return w['r_'], w['p_'], w['z_'], v.f['^Solver'].f['num_iter_']

        def inv(ic):
            def de(l):
                return ic.store[l.cell]
            r, p, z, num = state(de)
            X = lambda i: select(ic.store[x.buf].tree, i)
            return [all_(lambda i: eq(r(i), sub(select(b.el, i), Ax(X, i))), ZERO, n),
                    all_(lambda i: eq(z(i), pc(r, i)), ZERO, n),
                    eq(dot(p, r, n), dot(z, r, n)),
                    lt(tol, dot(z, r, n)),
                    le(ONE, num), bor(le(num, s.max), eq(num, ONE))]
        ex.spec_inv = [inv]
        c.call(PCG + 'Mult', s, [b, x], sig=SIG)
        c.settle()
        r, p, z, num = state(lambda l: ex.st.store[l.cell])
        X = lambda i: select(c.now(x).tree, i)
        one = ite(lt(s.max, ONE), ONE, s.max)
        c.ensure('iteration count', band(le(ONE, num), le(num, one)))
        c.ensure_all('the residual carried is b - A x', lambda i: eq(r(i), sub(select(b.el, i), Ax(X, i))), ZERO, n)
        c.ensure_all('the preconditioned residual carried is M (b - A x)', lambda i: eq(z(i), pc(r, i)), ZERO, n)
        c.ensure('stops before the limit only below the tolerance', bor(le(dot(z, r, n), tol), le(s.max, num)))
        if conv: c.ensure_all('a guess within tolerance (an exact one is) is kept', lambda j: eq(X(j), x0(j)), ZERO, n)
        c.frame([x.buf, s.cell] + [w.cell for w in s.work])
    contract('C16', 'PCGSolver::Mult (%s, %s)' % ('preconditioned' if pre else 'no preconditioner', 'guess already within tolerance' if conv else 'guess not within tolerance'))(g)


for pre_ in (False, True):
    for conv_ in (False, True): mult(pre_, conv_)


# ---------------- construction, copies, settings: they establish and keep the state assumed above
def fields(c, cell):
    v = cell if hasattr(cell, 'f') else c.ex.st.store[cell]
    sol = v.f['^Solver']
    return Rec(sol=sol, op=sol.f['^Operator'], A=sol.f['A_'], M=v.f['M_'], max=sol.f['max_iter_'], rel=sol.f['rel_tol_'], abs=sol.f['abs_tol_'], verb=sol.f['verbose_'],
               dot=sol.f['Dot_'], work=[vec_of(c, v.f[w]) for w in WORK], v=v)


def made(c, v, n, A, M, mx, rel, ab, fnode):
    f = fields(c, v)
    c.ensure('sizes', band(eq(f.op.f['rows_'], n), eq(f.op.f['cols_'], n)))
    for w, name in zip(f.work, WORK): c.ensure('workspace %s' % name, band(eq(w.size, n), eq(w.own, n)))
    c.ensure('limits', band(eq(f.max, mx), eq(f.rel, rel), eq(f.abs, ab)))
    same = lambda p, o: (p.base is None) if o is None else p.base is not None and (p.base.cell, p.base.path) == (o.lv.cell, o.lv.path) and p.off is None
    c.ensure('operator', TRUE if isinstance(f.A, PtrV) and same(f.A, A) else FALSE)
    c.ensure('preconditioner', TRUE if isinstance(f.M, PtrV) and same(f.M, M) else FALSE)
    c.ensure('inner product', TRUE if isinstance(f.dot, Opaque) and f.dot.data.get('name') == fnode.get('name') else FALSE)


DRIVER += ['''
void use_pcg_set(PCGSolver& s, int m, double r, double a) { s.SetMaxIter(m); s.SetRelTol(r); s.SetAbsTol(a); }
int use_pcg_its(const PCGSolver& s) { return s.GetNumIterations(); }
PCGSolver use_pcg(const Operator& A, int m, double r, double a) { return PCGSolver(A, m, r, a, false); }
PCGSolver use_pcgm(const Operator& A, const Operator& M, int m, double r, double a) { return PCGSolver(A, M, m, r, a, false); }
''']


def pcg_ctor(pre):
    def g(c):
        n = c.int_('n', ZERO)
        A = c.operator('A', n, n)
        M = c.operator('M', n, n) if pre else None
        for o in (A, M):
            if o: c.ex.st.store[o.cell] = c.ex.st.store[o.cell].set('rows_', n).set('cols_', n)
        mx, rel, ab = c.int_('m', ZERO), fresh('rel', 'R'), fresh('abs', 'R')
        r = c.call('use_pcgm' if pre else 'use_pcg', None, [A] + ([M] if pre else []) + [mx, rel, ab])
        v = c.ex.read(c.result_lv(r))
        made(c, v, n, A, M, mx, rel, ab, c.find('InnerProduct', 2, '(const VectorView<double> &, const VectorView<double> &)').node)
    contract('C16', 'PCGSolver constructor (%s)' % ('preconditioned' if pre else 'no preconditioner'))(g)


for pre_ in (False, True): pcg_ctor(pre_)


def settings(pre):
    def g(c):
        s = solver(c, pre)
        b = fields(c, s.cell)
        mx, rel, ab = c.int_('m', ZERO), fresh('rel', 'R'), fresh('abs', 'R')
        c.call('use_pcg_set', None, [s.ref, mx, rel, ab])
        fnode = b.dot.data
        made(c, s.cell, s.n, s.A, s.M, mx, rel, ab, fnode)
        v = c.ex.read(c.result_lv(c.call('use_pcg_copy', None, [s.ref])))
        made(c, v, s.n, s.A, s.M, mx, rel, ab, fnode)
        made(c, s.cell, s.n, s.A, s.M, mx, rel, ab, fnode)
        r = c.call('use_pcg_its', None, [s.ref])
        c.ensure('GetNumIterations', eq(r, fields(c, s.cell).sol.f['num_iter_']))
    contract('C16', 'settings and copy (%s)' % ('preconditioned' if pre else 'no preconditioner'))(g)


for pre_ in (False, True): settings(pre_)
