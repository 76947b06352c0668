"""C15 value semantics of vectors and matrices."""
from cppvc.spec import *
from cppvc.lib import contents

CLASSES = {'vec': 'Vector<double>', 'vecint': 'Vector<int>', 'dense': 'DenseMatrix', 'sparse': 'SparseMatrix<double>', 'sparseint': 'SparseMatrix<int>', 'coo': 'CooMatrix<double>',
           'lil': 'LilMatrix<double>', 'bvec': 'BlockVector<double>', 'bmat': 'BlockMatrix<double>'}
DRIVER = ['template class LilMatrix<double>; template class BlockMatrix<double>; template class BlockVector<double>;']
for k, t in CLASSES.items():
    DRIVER.append('''
{T} {k}_copy(const {T}& a) {{ {T} b(a); return b; }}
{T} {k}_move({T}& a) {{ {T} b(std::move(a)); return b; }}
void {k}_assign({T}& a, const {T}& b) {{ a = b; }}
void {k}_self({T}& a) {{ a = a; }}
void {k}_massign({T}& a, {T}& b) {{ a = std::move(b); }}
void {k}_swap({T}& a, {T}& b) {{ swap(a, b); }}
{T} {k}_def() {{ {T} b; return b; }}
void {k}_reuse({T}& a, {T}& b) {{ {T} c(std::move(a)); a = std::move(b); b = std::move(c); }}
{T} {k}_drain({T}& a) {{ {T} b(std::move(a)); {T} c(a); return c; }}
'''.format(T=t, k=k))


def build(c, k, name):
    T_ = CLASSES[k]
    if k in ('vec', 'vecint'):
        n = c.int_(name + '.n', ZERO)
        return c.vector(name, n, 'double' if k == 'vec' else 'int')
    if k == 'dense': return c.dense(name)
    if k == 'sparse': return c.sparse(name)
    if k == 'sparseint': return c.sparse(name, 'int')
    if k == 'bvec':
        n = c.int_(name + '.n', ZERO)
        v = c.vector(name, n)
        st = c.ex.st.store[v.cell]
        off = c.ex.symbolic('std::vector<int>', name + '.offsets')
        cls = c.P.classes[T_]
        b = Struct(T_, {'^' + norm_type(strip_cvref(cls.bases[0])): st, 'offsets_': off})
        cell = c.ex.alloc(b, name)
        return Rec(cell=cell, lv=LV(cell), ref=RefV(LV(cell)))
    cell = c.obj(T_, name)
    v = c.ex.st.store[cell]
    op = v.f['^Operator']
    c.assume(le(ZERO, op.f['rows_']), le(ZERO, op.f['cols_']))
    return Rec(cell=cell, lv=LV(cell), ref=RefV(LV(cell)))


def deep(c, v, store, own=None):
    """value with buffers replaced by their contents; a pointer into the object's own buffer becomes ('own', offset)"""
    if isinstance(v, Struct):
        bufs = own if own is not None else {x.cell: k for k, x in flat(v) if isinstance(x, VRef)}
        return Struct(v.cls, {k: deep(c, x, store, bufs) for k, x in v.f.items()})
    if isinstance(v, VRef):
        if v.cell not in store: raise VCError('dangling buffer')
        return store[v.cell]
    if isinstance(v, PtrV):
        if v.base is None: return 'null'
        if v.base.cell in (own or {}) and not v.base.path: return ('own', own[v.base.cell], v.off)
        return ('foreign', v.base.cell, v.off)
    return v


def flat(v, pre=()):
    if isinstance(v, Struct):
        for k, x in v.f.items():
            for y in flat(x, pre + (k,)): yield y
    else: yield pre, v


def same(c, a, b, empty=None):
    """term: deep values a and b denote the same value"""
    if isinstance(a, Struct):
        if not isinstance(b, Struct) or a.f.keys() != b.f.keys(): return FALSE
        gs = []
        sizes = a.f.get('size_') if a.cls.startswith('VectorView') else None
        for k in a.f:
            gs.append(same(c, a.f[k], b.f[k], sizes))
        return band(*gs)
    if isinstance(a, VecV): return band(eq(a.size, b.size), c.same_tree(a.tree, b.tree, a.size)) if isinstance(b, VecV) else FALSE
    if isinstance(a, tuple) or a == 'null' or isinstance(b, tuple) or b == 'null':
        z = eq(empty, ZERO) if empty is not None else FALSE
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'own' and b[0] == 'own' and a[1] == b[1]: return bor(z, eq(a[2], b[2]))
        return z           # the data pointer of an empty vector is never used
    if isinstance(a, T) and isinstance(b, T) and a.sort == b.sort: return eq(a, b)
    return FALSE


def bufs(v):
    return {x.cell for _, x in flat(v) if isinstance(x, VRef)} | {x.base.cell for _, x in flat(v) if isinstance(x, PtrV) and x.base is not None}


def initialised(c, v, what):
    bad = [k for k, x in flat(v) if isinstance(x, Undef)]
    c.ensure('%s has no indeterminate member' % what, FALSE if bad else TRUE)


def rd(c, x):
    if isinstance(x, Rec): x = LV(x.cell)
    if isinstance(x, RefV): x = x.lv
    return c.ex.read(x) if isinstance(x, LV) else x


def value(c, x, pre=False):
    st = c.pre if pre else c.ex.st.store
    return deep(c, st[x.cell] if isinstance(x, Rec) else rd(c, x), st)


for k in CLASSES:
    def copy_(c, k=k):
        a = build(c, k, 'a')
        c.start()
        r = c.result_lv(c.call(k + '_copy', None, [a]))
        c.ensure('copy equals source', same(c, value(c, a, True), value(c, r)))
        c.ensure('copy shares no storage with the source', TRUE if not (bufs(rd(c, r)) & bufs(rd(c, a))) else FALSE)
        initialised(c, rd(c, r), 'copy')
        c.frame()
    contract('C15', k + ' copy construction')(copy_)

    def move_(c, k=k):
        a = build(c, k, 'a')
        c.start()
        r = c.result_lv(c.call(k + '_move', None, [a]))
        c.ensure('moved-to object has the value', same(c, value(c, a, True), value(c, r)))
        c.ensure('moved-to object shares no storage with the source', TRUE if not (bufs(rd(c, r)) & bufs(rd(c, a))) else FALSE)
        initialised(c, rd(c, r), 'result')
        initialised(c, rd(c, a), 'moved-from object')
    contract('C15', k + ' move construction')(move_)

    def assign(c, k=k):
        a, b = build(c, k, 'a'), build(c, k, 'b')
        c.start()
        c.call(k + '_assign', None, [a, b])
        c.ensure('target equals source', same(c, value(c, b, True), value(c, a)))
        c.ensure('no shared storage', TRUE if not (bufs(rd(c, b)) & bufs(rd(c, a))) else FALSE)
        initialised(c, rd(c, a), 'target')
        c.frame({a.cell} | bufs(c.pre[a.cell]))
    contract('C15', k + ' copy assignment')(assign)

    def self_(c, k=k):
        a = build(c, k, 'a')
        c.start()
        c.call(k + '_self', None, [a])
        c.ensure('value kept', same(c, value(c, a, True), value(c, a)))
        initialised(c, rd(c, a), 'object')
    contract('C15', k + ' self-assignment')(self_)

    def massign(c, k=k):
        a, b = build(c, k, 'a'), build(c, k, 'b')
        c.start()
        c.call(k + '_massign', None, [a, b])
        c.ensure('target has the value', same(c, value(c, b, True), value(c, a)))
        c.ensure('no shared storage', TRUE if not (bufs(rd(c, b)) & bufs(rd(c, a))) else FALSE)
        initialised(c, rd(c, a), 'target')
        initialised(c, rd(c, b), 'moved-from object')
    contract('C15', k + ' move assignment')(massign)

    def swap_(c, k=k, f='_swap'):
        a, b = build(c, k, 'a'), build(c, k, 'b')
        c.start()
        c.call(k + f, None, [a, b])
        c.ensure('a has the value of b', same(c, value(c, b, True), value(c, a)))
        c.ensure('b has the value of a', same(c, value(c, a, True), value(c, b)))
        c.ensure('no shared storage', TRUE if not (bufs(rd(c, b)) & bufs(rd(c, a))) else FALSE)
    contract('C15', k + ' swap')(swap_)
    contract('C15', k + ' exchange through moves')(lambda c, k=k, swap_=swap_: swap_(c, k, '_reuse'))

    def def_(c, k=k):
        c.start()
        r = c.result_lv(c.call(k + '_def', None, []))
        initialised(c, rd(c, r), 'default-constructed object')
    contract('C15', k + ' default construction')(def_)

    def drain(c, k=k):
        a = build(c, k, 'a')
        c.start()
        r = c.result_lv(c.call(k + '_drain', None, [a]))
        initialised(c, rd(c, r), 'copy of a moved-from object')
    contract('C15', k + ' copy of a moved-from object')(drain)
