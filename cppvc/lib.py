"""Models (assumed contracts) of the standard library operations the code uses.

Every model here is part of the trusted base and is named in `ex.libused`, which the
evidence file reports.
"""
from .terms import *
from . import terms as TT
from .values import *
from .frontend import norm_type, strip_cvref, split_targs, tstr


def E():
    from . import exec as X
    return X


def err(msg):
    raise E().VCError(msg)


# ---------------------------------------------------------------- helpers
def contents(ex, v):
    if isinstance(v, VRef):
        if v.cell not in ex.st.store: err('dangling buffer')
        return ex.st.store[v.cell]
    if isinstance(v, VecV): return v
    err('not a container: %r' % (v,))


def is_vec(v): return isinstance(v, (VRef, VecV))


def set_contents(ex, lv, vec):
    """replace the contents of a vector variable; earlier iterators become invalid"""
    v = ex.read(lv)
    if isinstance(v, VRef):
        ex.st.store.pop(v.cell, None)
        nm = ex.cellname.get(v.cell, 'buf')
        ex.write(lv, VRef(ex.alloc(vec, nm if nm in ex.scratch else 'buf'), v.et))
    else:
        ex.write(lv, vec)


def elem_default(ex, et):
    return ex.empty_vec(et).tree


def const_tree(ex, et, val):
    """tree whose every element is val"""
    base = ex.empty_vec(et).tree
    if isinstance(val, PtrV): val = ex.ptr_handle(val)
    return map2(base, ex.fit(base, ex.inline_value(val)) if not isinstance(base, T) else val,
                lambda t, x: TT.carr((), lift(x, t.sort[1:]), t.sort[1:]))


def tree_lam(trees, f):
    """pointwise combination of element trees: f(c, sel_i...) at each leaf"""
    t0 = trees[0]
    if isinstance(t0, T):
        return lam(lambda c: f(c, *[select(t, c) for t in trees]))
    if isinstance(t0, Struct):
        return Struct(t0.cls, {k: tree_lam([t.f[k] for t in trees], f) for k in t0.f})
    if isinstance(t0, VecV):
        return VecV(t0.et, tree_lam([t.size for t in trees], f), tree_lam([t.tree for t in trees], f))
    return t0


def shifted(tree, d):
    if d is ZERO: return tree
    return map_leaves(tree, lambda t: lam(lambda c: select(t, add(c, d))))


def range_update(ex, old, lo, hi, new):
    """old tree with positions lo<=c<hi taken from `new`"""
    if lo is ZERO and old is None: return new
    return tree_lam([old, new], lambda c, o, w: ite(band(le(lo, c), lt(c, hi)), w, o))


def pair_range(ex, a, b, n, what='range'):
    """check that [a,b) is a valid range; returns (base lv or None, lo, hi)"""
    if not (isinstance(a, PtrV) and isinstance(b, PtrV)): err('%s of %r' % (what, a))
    if a.base is None or b.base is None:
        if a.base is None and b.base is None: return None, ZERO, ZERO
        err('range of null and non-null pointer')
    if not a.base.same(b.base): err('range over unrelated pointers')
    v = contents(ex, ex.read(a.base)) if a.base.cell in ex.st.store else None
    if v is None:
        ex.oblige('dangling iterator', FALSE, n)
        raise E().Dead()
    ex.oblige('%s within the sequence' % what, band(le(ZERO, a.off), le(a.off, b.off), le(b.off, v.size)), n)
    return a.base, a.off, b.off


def out_range(ex, p, cnt, n, what='output range'):
    if isinstance(p, PtrV) and p.base is None:
        ex.oblige('%s empty' % what, eq(cnt, ZERO), n)
        return None, ZERO
    if not isinstance(p, PtrV): err('output iterator %r' % (p,))
    if p.base.cell not in ex.st.store:
        ex.oblige('dangling iterator', FALSE, n)
        raise E().Dead()
    v = contents(ex, ex.read(p.base))
    ex.oblige('%s within the sequence' % what,
              bor(le(cnt, ZERO), band(le(ZERO, p.off), le(add(p.off, cnt), v.size))), n)
    return p.base, p.off


def counted_loop(ex, n, lo, hi, body):
    """synthetic loop  for (k = lo; k < hi; ++k) body(k)  through the loop engine"""
    from . import loops
    c = ex.alloc(lo, 'k')

    def cond(): return lt(ex.st.store[c], hi)

    def bd():
        body(ex.st.store[c])
        return {}

    def inc(): ex.st.store[c] = add(ex.st.store[c], ONE)
    key = dict(n)
    outs = loops.run_loop(ex, n, cond, bd, inc)
    ex.st.store.pop(c, None)
    return outs


def call_fn(ex, fv, args):
    """call a lambda / function pointer / functor value; args are T, LV or values"""
    if isinstance(fv, FuncV): return ex.call_lambda(fv, args)
    if isinstance(fv, Opaque) and fv.what == 'fn':
        d = fv.data
        f = ex.prog.definition(d['id'])
        a = [x if not isinstance(x, LV) else ex.read(x) for x in args]
        if f is not None and f.body is not None:
            return ex.call(f, None, [RefV(x) if isinstance(x, LV) else x for x in args])
        nm = d.get('name')
        if nm in ('isdigit', 'isspace', 'isalpha'):
            return app(nm, a, 'B')
        if nm == 'fabs': return fabs_(a[0])
    err('call of %r' % (fv,))


def fabs_(x):
    if x.sort == 'I': return ite(lt(x, ZERO), neg(x), x)
    if is_const(x): return real(abs(const_val(x)))
    return app('fabs', [x], 'R')


def sqrt_(x):
    return app('sqrt', [lift(x, 'R')], 'R')


# ---------------------------------------------------------------- constructors
def construct(ex, t, args, ctype, n):
    t = strip_cvref(t)
    b, targs = split_targs(t)
    ve = vec_elem(t)
    if ve is not None:
        return make_vector(ex, ve, args, ctype, n)
    if b in ('std::tuple', 'std::pair'):
        names = ('first', 'second') if b == 'std::pair' else [str(i) for i in range(len(targs))]
        if len(args) == 1 and strip_cvref(tstr(args[0])).startswith((b, 'tuple', 'pair')):
            v = ex.rval(args[0])
            return ex.copy_value(v) if args[0].get('valueCategory') == 'lvalue' else v
        if not args:
            return Struct(b, {nm: ex.value_init(x) for nm, x in zip(names, targs)})
        f = {}
        for nm, tt, a in zip(names, targs, args):
            if norm_type(tt).endswith('&'):
                f[nm] = RefV(ex.lval(a))
            else:
                v = ex.rval(a)
                if isinstance(v, T) and prim_sort(tt) == 'R': v = lift(v, 'R')
                f[nm] = v
        return Struct(b, f)
    if b in ('std::basic_string', 'std::string', 'string'):
        if not args: return tok(('str', '""'), 'U')
        v = ex.rval(args[0])
        if isinstance(v, T) and v.sort == 'U': return v
        if isinstance(v, PtrV):
            x = ex.read(v.base)
            if isinstance(x, T) and x.sort == 'U': return x
        return app('string', [x for x in [v] if isinstance(x, T)], 'U')
    if b.endswith('normal_iterator') and len(args) == 1: return ex.rval(args[0])
    if b.startswith('std::allocator'): return Opaque('alloc', tok('alloc'))
    if len(args) == 1:
        # copy / move of an opaque library object
        if args[0].get('kind') == 'LambdaExpr' or strip_cvref(tstr(args[0])) == t or 'lambda' in t:
            return ex.rval(args[0])
    if not args:
        return Opaque(b, fresh('obj', 'U'))
    x = getattr(ex, 'lib_construct', None)
    if x is not None:
        r = x(ex, t, args, ctype, n)
        if r is not None: return r
    err('library constructor %s (%s)' % (t, ctype))


def new_vec(ex, et, size, tree):
    return VRef(ex.alloc(VecV(et, size, tree), 'buf'), et)


def make_vector(ex, et, args, ctype, n):
    args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
    ex.libused.add('std::vector')
    if not args:
        v = ex.empty_vec(et)
        return VRef(ex.alloc(v, 'buf'), et)
    a0 = args[0]
    t0 = strip_cvref(tstr(a0))
    if vec_elem(t0) is not None and len(args) == 1:
        cat = a0.get('valueCategory')
        if cat == 'xvalue':
            lv = ex.lval(a0)
            v = ex.read(lv)
            if isinstance(v, VRef):
                ex.write(lv, VRef(ex.alloc(ex.empty_vec(et), 'buf'), et))
                return v
            r = VRef(ex.alloc(v, 'buf'), et)
            ex.write(lv, ex.empty_vec(et))
            return r
        v = ex.rval(a0)
        if cat == 'prvalue' and isinstance(v, VRef): return v
        return VRef(ex.alloc(contents(ex, v), 'buf'), et)
    if ptr_elem(t0) is not None and len(args) == 2:
        a, b = ex.rval(args[0]), ex.rval(args[1])
        base, lo, hi = pair_range(ex, a, b, n, 'source range')
        if base is None:
            return VRef(ex.alloc(ex.empty_vec(et), 'buf'), et)
        src = contents(ex, ex.read(base))
        tree = shifted(src.tree, lo)
        tree = conv_tree(ex, tree, et)
        return new_vec(ex, et, sub(hi, lo), tree)
    sz = ex.rval(a0)
    if isinstance(sz, T) and sz.sort == 'I':
        ex.oblige('vector size non-negative', le(ZERO, sz), n)
        if len(args) == 1:
            return new_vec(ex, et, sz, elem_default(ex, et))
        val = ex.rval(args[1])
        return new_vec(ex, et, sz, const_tree(ex, et, val))
    err('vector constructor (%s)' % ctype)


def conv_tree(ex, tree, et):
    s = prim_sort(et)
    if s and isinstance(tree, T) and tree.sort[1:] != s:
        if s == 'R': return lam(lambda c: to_real(select(tree, c)))
        if s == 'I' and tree.sort[1:] == 'R': return lam(lambda c: trunc(select(tree, c)))
        err('element conversion')
    return tree


# ---------------------------------------------------------------- members
def member_call(ex, n, c, objx, args):
    name = c['name']
    if c.get('isArrow'):
        lv = ex.deref(ex.rval(objx), n)
    else:
        lv = ex.lval(objx)
    v = ex.read(lv)
    if isinstance(v, Struct) and v.cls == 'std::#map':
        return map_member(ex, n, name, lv, v, args)
    if is_vec(v):
        return vec_member(ex, n, name, lv, v, args)
    if isinstance(v, T) and v.sort == 'U':
        return string_member(ex, n, name, lv, v, args)
    h = getattr(ex, 'lib_member', None)
    if h is not None:
        r = h(ex, n, name, lv, v, args)
        if r is not NotImplemented: return r
    if isinstance(v, Opaque):
        return opaque_member(ex, n, name, lv, v, args)
    if isinstance(v, Struct):
        # implicitly defined members
        if name.startswith('~'): return None
        if name == 'operator=':
            val = ex.rval(args[0])
            ex.write(lv, ex.copy_value(val))
            return RefV(lv)
    err('member call %s on %r' % (name, v))


def opaque_member(ex, n, name, lv, v, args):
    err('member call %s on %r' % (name, v))


def map_member(ex, n, name, lv, v, args):
    err('map member %s' % name)


def string_member(ex, n, name, lv, v, args):
    if name in ('c_str',): return v
    if name in ('size', 'length'):
        r = app('strlen', [v], 'I')
        ex.assume(le(ZERO, r))
        return r
    if name == 'empty': return eq(app('strlen', [v], 'I'), ZERO)
    err('string member %s' % name)


def vec_member(ex, n, name, lv, v, args):
    ex.libused.add('std::vector::' + name)
    vec = contents(ex, v)
    et = vec.et
    clv = ex.vec_lv(lv)
    if name in ('size',): return vec.size
    if name == 'empty': return eq(vec.size, ZERO)
    if name in ('begin', 'cbegin', 'data'): return PtrV(clv, ZERO)
    if name in ('end', 'cend'): return PtrV(clv, vec.size)
    if name in ('at', 'operator[]'):
        i = ex.rval(args[0])
        ex.check_index(clv, i, n)
        return clv.i(i)
    if name == 'front':
        ex.check_index(clv, ZERO, n)
        return clv.i(ZERO)
    if name == 'back':
        i = sub(vec.size, ONE)
        ex.check_index(clv, i, n)
        return clv.i(i)
    if name == 'reserve': 
        for a in args: ex.rval(a)
        return None
    if name == 'shrink_to_fit': return None
    if name == 'clear':
        set_contents(ex, lv, VecV(et, ZERO, vec.tree))
        return None
    if name in ('push_back', 'emplace_back', 'push_front', 'emplace_front'):
        front = name.endswith('front')
        if name.startswith('emplace'):
            if len(args) == 1 and strip_cvref(tstr(args[0])) == strip_cvref(et) or prim_sort(et):
                val = ex.rval(args[0])
            else:
                val = ex.construct(et, args, None, n)
        else:
            val = ex.rval(args[0])
        vec = contents(ex, ex.read(lv))
        val = ex.inline_value(val)
        if isinstance(val, T) and prim_sort(et) == 'R': val = lift(val, 'R')
        if front: set_contents(ex, lv, VecV(et, add(vec.size, ONE), ex.lset(shifted(vec.tree, integer(-1)), ZERO, val)))
        else: set_contents(ex, lv, VecV(et, add(vec.size, ONE), ex.lset(vec.tree, vec.size, val)))
        return None
    if name == 'pop_back':
        ex.oblige('pop_back on non-empty vector', lt(ZERO, vec.size), n)
        set_contents(ex, lv, VecV(et, sub(vec.size, ONE), vec.tree))
        return None
    if name == 'resize':
        sz = ex.rval(args[0])
        vec = contents(ex, ex.read(lv))
        ex.oblige('vector size non-negative', le(ZERO, sz), n)
        args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
        dflt = elem_default(ex, et) if len(args) < 2 else const_tree(ex, et, ex.rval(args[1]))
        old = vec.size
        if old is ZERO: tree = dflt
        else: tree = tree_lam([vec.tree, dflt], lambda c, a, b: ite(lt(c, old), a, b))
        set_contents(ex, lv, VecV(et, sz, tree))
        return None
    if name == 'assign':
        a0 = args[0]
        if ptr_elem(tstr(a0)) is not None:
            a, b = ex.rval(args[0]), ex.rval(args[1])
            base, lo, hi = pair_range(ex, a, b, n, 'source range')
            if base is None: set_contents(ex, lv, VecV(et, ZERO, vec.tree))
            else:
                src = contents(ex, ex.read(base))
                set_contents(ex, lv, VecV(et, sub(hi, lo), conv_tree(ex, shifted(src.tree, lo), et)))
            return None
        sz, val = ex.rval(args[0]), ex.rval(args[1])
        ex.oblige('vector size non-negative', le(ZERO, sz), n)
        set_contents(ex, lv, VecV(et, sz, const_tree(ex, et, val)))
        return None
    if name == 'erase' and len(args) == 2:
        a, b = ex.rval(args[0]), ex.rval(args[1])
        base, lo, hi = pair_range(ex, a, b, n, 'erased range')
        vec = contents(ex, ex.read(lv))
        d = sub(hi, lo)
        tree = tree_lam([vec.tree, shifted(vec.tree, d)], lambda c, o, w: ite(lt(c, lo), o, w)) if hi is not vec.size else vec.tree
        set_contents(ex, lv, VecV(et, sub(vec.size, d), tree))
        return PtrV(ex.vec_lv(lv), lo)
    if name == 'swap':
        return swap_lv(ex, lv, ex.lval(args[0]))
    if name == 'insert' and len(args) == 3 and ptr_elem(tstr(args[1])) is not None:
        p, a, b = [ex.rval(x) for x in args]
        base, lo, hi = pair_range(ex, a, b, n, 'source range')
        if base is None: return p
        src = contents(ex, ex.read(base))
        vec = contents(ex, ex.read(lv))
        d = sub(hi, lo)
        at = p.off
        tree = tree_lam([vec.tree, shifted(src.tree, sub(lo, at)), shifted(vec.tree, neg(d))],
                        lambda c, o, w, r: ite(lt(c, at), o, ite(lt(c, add(at, d)), w, r)))
        set_contents(ex, lv, VecV(et, add(vec.size, d), tree))
        return PtrV(ex.vec_lv(lv), at)
    if name == 'operator=':
        return vec_assign(ex, lv, args[0])
    if name == 'sort':      # std::list::sort
        sort_range(ex, n, clv, ZERO, vec.size, None)
        return None
    err('container member %s' % name)


def vec_assign(ex, lv, a):
    v = ex.read(lv)
    cat = a.get('valueCategory')
    if cat == 'xvalue':
        src = ex.lval(a)
        if src.same(lv): return RefV(lv)
        s = ex.read(src)
        if isinstance(s, VRef) and isinstance(v, VRef):
            ex.st.store.pop(v.cell, None)
            ex.write(lv, s)
            ex.write(src, VRef(ex.alloc(ex.empty_vec(s.et), 'buf'), s.et))
            return RefV(lv)
        set_contents(ex, lv, contents(ex, s))
        return RefV(lv)
    s = ex.rval(a)
    if isinstance(s, VRef) and isinstance(v, VRef) and s.cell == v.cell: return RefV(lv)
    c = contents(ex, s)
    v = ex.read(lv)
    et = vec_elem(tstr(a)) or c.et
    set_contents(ex, lv, VecV(contents(ex, v).et, c.size, c.tree))
    return RefV(lv)


def swap_lv(ex, a, b):
    va, vb = ex.read(a), ex.read(b)
    if isinstance(va, Undef) or isinstance(vb, Undef):
        ex.oblige('reads only initialised values (swap)', FALSE, None)
    elif isinstance(va, (VRef, VecV)) and isinstance(vb, (VRef, VecV)) and type(va) is not type(vb):
        ca, cb = contents(ex, va), contents(ex, vb)
        set_contents(ex, a, cb)
        set_contents(ex, b, ca)
        return None
    elif type(va) is not type(vb):
        err('swap of %r and %r' % (va, vb))
    if isinstance(va, Struct): err('std::swap of class %s' % va.cls)
    ex.write(a, vb)
    ex.write(b, va)
    return None


# ---------------------------------------------------------------- free functions
def seq_of(ex, a):
    """lvalue of a container-like argument"""
    return ex.lval(a)


def begin_end(ex, n, name, a):
    lv = ex.lval(a)
    v = ex.read(lv)
    if is_vec(v):
        vec = contents(ex, v)
        clv = ex.vec_lv(lv)
        return PtrV(clv, ZERO if name in ('begin', 'cbegin') else vec.size)
    if isinstance(v, Struct):
        c = ex.find_class(v.cls)
        full = lv
        isc = norm_type(tstr(a)).startswith('const ')
        while c is not None:
            ms = [m for m in c.methods if m.name == name.lstrip('c') and m.kind == 'CXXMethodDecl']
            if ms:
                pref = [m for m in ms if (') const' in m.type) == isc] or ms
                d = ex.prog.definition(pref[0].id)
                return ex.call(d, full, [])
            nxt = None
            o = ex.read(full)
            for b in c.bases:
                for k in o.f:
                    if k.startswith('^') and ex.find_class(k[1:]) is ex.find_class(strip_cvref(b)):
                        nxt = (ex.find_class(b), full.f(k))
            if nxt is None: break
            c, full = nxt
    err('%s of %r' % (name, v))


def elem_type_of(ex, base):
    return contents(ex, ex.read(base)).et


def free_call(ex, n, name, d, args, kind):
    h = getattr(ex, 'lib_free', None)
    if h is not None:
        r = h(ex, n, name, d, args, kind)
        if r is not NotImplemented: return r
    f = FREE.get(name)
    if f is None:
        err('call of %s' % name)
    ex.libused.add('std::' + name if not name.startswith('operator') else name)
    return f(ex, n, args, name, d)


FREE = {}


def reg(*names):
    def w(f):
        for nm in names: FREE[nm] = f
        return f
    return w


@reg('begin', 'end', 'cbegin', 'cend')
def f_begin(ex, n, args, name, d): return begin_end(ex, n, name, args[0])


@reg('data')
def f_data(ex, n, args, name, d): return begin_end(ex, n, 'begin', args[0])


@reg('move', 'forward')
def f_move(ex, n, args, name, d):
    if len(args) == 3: return f_copy(ex, n, args, 'copy', d)
    return ex.lval(args[0])


@reg('swap')
def f_swap(ex, n, args, name, d):
    return swap_lv(ex, ex.lval(args[0]), ex.lval(args[1]))


@reg('fabs', 'abs')
def f_fabs(ex, n, args, name, d): return fabs_(ex.as_int(ex.rval(args[0])))


@reg('sqrt')
def f_sqrt(ex, n, args, name, d):
    x = lift(ex.rval(args[0]), 'R')
    if getattr(ex, 'check_sqrt', True):
        pass
    return sqrt_(x)


@reg('pow')
def f_pow(ex, n, args, name, d):
    return app('pow', [lift(ex.rval(a), 'R') for a in args], 'R')


@reg('isnan', 'isinf', 'isfinite')
def f_isnan(ex, n, args, name, d):
    ex.assumptions.add('real arithmetic: isnan/isinf false')
    ex.rval(args[0])
    return TRUE if name == 'isfinite' else FALSE


@reg('max', 'min')
def f_max(ex, n, args, name, d):
    a, b = ex.rval(args[0]), ex.rval(args[1])
    if a.sort != b.sort: a, b = lift(a, 'R'), lift(b, 'R')
    if is_const(b) or (not is_const(a) and b.uid < a.uid): a, b = b, a
    if name == 'max': return ite(le(a, b), b, a)
    return ite(le(b, a), b, a)


@reg('isdigit', 'isspace', 'isalpha')
def f_isdigit(ex, n, args, name, d): return app(name, [ex.rval(args[0])], 'B')


@reg('distance')
def f_distance(ex, n, args, name, d): return ex.ptrop('-', ex.rval(args[1]), ex.rval(args[0]), n)


@reg('next')
def f_next(ex, n, args, name, d):
    return ex.padd(ex.rval(args[0]), ONE if len(args) < 2 or args[1]['kind'] == 'CXXDefaultArgExpr' else ex.rval(args[1]))


@reg('make_pair')
def f_make_pair(ex, n, args, name, d):
    return Struct('std::pair', {'first': ex.rval(args[0]), 'second': ex.rval(args[1])})


@reg('make_tuple')
def f_make_tuple(ex, n, args, name, d):
    return Struct('std::tuple', {str(i): ex.rval(a) for i, a in enumerate(args)})


@reg('tie')
def f_tie(ex, n, args, name, d):
    f = {}
    for i, a in enumerate(args):
        x = a
        while x['kind'] in ('ImplicitCastExpr', 'ParenExpr'): x = x['inner'][0]
        if x['kind'] == 'DeclRefExpr' and x['referencedDecl'].get('name') == 'ignore':
            f[str(i)] = UNDEF
        else:
            f[str(i)] = RefV(ex.lval(a))
    return Struct('std::tuple', f)


@reg('get')
def f_get(ex, n, args, name, d):
    import re
    lv = ex.lval(args[0])
    v = ex.read(lv)
    # index from the instantiated declaration's result type name / template args is not in the
    # AST of the call; recover it from the callee's type
    t = d.get('type', {}).get('qualType', '')
    m = re.search(r'__tuple_element_t<(\d+)|tuple_element<(\d+)', t)
    if m is None: err('std::get index in %s' % t)
    i = int(m.group(1) or m.group(2))
    key = str(i) if str(i) in v.f else ('first', 'second')[i]
    x = v.f[key]
    if isinstance(x, RefV): return x.lv
    return lv.f(key)


@reg('fill')
def f_fill(ex, n, args, name, d):
    a, b = ex.rval(args[0]), ex.rval(args[1])
    val = ex.rval(args[2])
    base, lo, hi = pair_range(ex, a, b, n, 'fill range')
    if base is None: return None
    vec = contents(ex, ex.read(base))
    s = prim_sort(vec.et)
    if isinstance(val, T) and s and val.sort != s:
        val = lift(val, s) if s == 'R' else trunc(val)
    new = const_tree(ex, vec.et, val)
    ex.write(base, VecV(vec.et, vec.size, range_update(ex, vec.tree, lo, hi, new)))
    return None


@reg('copy', 'copy_n')
def f_copy(ex, n, args, name, d):
    a, b, o = [ex.rval(x) for x in args]
    if name == 'copy_n':
        cnt = b
        base, lo = out_range(ex, a, cnt, n, 'source range')
        out = o
        cnt = imax(cnt, ZERO)
    else:
        base, lo, hi = pair_range(ex, a, b, n, 'source range')
        cnt = sub(hi, lo)
        out = o
    if base is None:
        return out
    obase, olo = out_range(ex, out, cnt, n)
    if obase is None: return out
    src = contents(ex, ex.read(base))
    dst = contents(ex, ex.read(obase))
    if obase.same(base) and olo is not lo:
        ex.oblige('copy ranges do not overlap', bor(le(add(olo, cnt), lo), le(add(lo, cnt), olo), le(olo, lo)), n)
    tree = conv_tree(ex, shifted(src.tree, sub(lo, olo)), dst.et)
    ex.write(obase, VecV(dst.et, dst.size, range_update(ex, dst.tree, olo, add(olo, cnt), tree)))
    return PtrV(obase, add(olo, cnt))


@reg('iota')
def f_iota(ex, n, args, name, d):
    a, b = ex.rval(args[0]), ex.rval(args[1])
    v0 = ex.rval(args[2])
    base, lo, hi = pair_range(ex, a, b, n, 'iota range')
    if base is None: return None
    vec = contents(ex, ex.read(base))
    s = vec.tree.sort[1:]
    tree = lam(lambda c: ite(band(le(lo, c), lt(c, hi)), lift(add(lift(v0, s), lift(sub(c, lo), s)), s), select(vec.tree, c)))
    ex.write(base, VecV(vec.et, vec.size, tree))
    return None


@reg('accumulate')
def f_accumulate(ex, n, args, name, d):
    a, b = ex.rval(args[0]), ex.rval(args[1])
    v0 = ex.rval(args[2])
    base, lo, hi = pair_range(ex, a, b, n, 'accumulated range')
    if base is None: return v0
    vec = contents(ex, ex.read(base))
    if len(args) == 3:
        t0 = strip_cvref(tstr(args[2]))
        s = v0.sort
        if s != vec.tree.sort[1:] and s == 'I': err('accumulate with narrowing accumulator')
        return add(v0, summ(lambda k: lift(select(vec.tree, k), s), lo, hi))
    fv = ex.rval(args[3])
    acc = ex.alloc(v0, 'acc')

    def body(k):
        ex.st.store[acc] = call_fn(ex, fv, [ex.st.store[acc], ex.read(base.i(k))])
    counted_loop(ex, n, lo, hi, body)
    return ex.st.store.pop(acc)


@reg('inner_product')
def f_inner(ex, n, args, name, d):
    a, b, c = [ex.rval(x) for x in args[:3]]
    v0 = ex.rval(args[3])
    base, lo, hi = pair_range(ex, a, b, n, 'range')
    if base is None: return v0
    ob, olo = out_range(ex, c, sub(hi, lo), n, 'second range')
    x, y = contents(ex, ex.read(base)), contents(ex, ex.read(ob))
    s = v0.sort
    dd = sub(olo, lo)
    return add(v0, summ(lambda k: mul(lift(select(x.tree, k), s), lift(select(y.tree, add(k, dd)), s)), lo, hi))


@reg('partial_sum')
def f_partial_sum(ex, n, args, name, d):
    a, b, c = [ex.rval(x) for x in args[:3]]
    base, lo, hi = pair_range(ex, a, b, n, 'range')
    if base is None: return c
    ob, olo = out_range(ex, c, sub(hi, lo), n)
    x, y = contents(ex, ex.read(base)), contents(ex, ex.read(ob))
    if len(args) != 3: err('partial_sum with operation')
    cnt = sub(hi, lo)
    src = x.tree
    dd = sub(lo, olo)
    tree = lam(lambda k: ite(band(le(olo, k), lt(k, add(olo, cnt))),
                             summ(lambda j: select(src, j), lo, add(add(k, dd), ONE)), select(y.tree, k)))
    ex.write(ob, VecV(y.et, y.size, tree))
    return PtrV(ob, add(olo, cnt))


@reg('transform')
def f_transform(ex, n, args, name, d):
    a, b = ex.rval(args[0]), ex.rval(args[1])
    base, lo, hi = pair_range(ex, a, b, n, 'source range')
    two = len(args) == 5
    in2 = ex.rval(args[2]) if two else None
    out = ex.rval(args[3 if two else 2])
    fv = ex.rval(args[4 if two else 3])
    if base is None: return out
    cnt = sub(hi, lo)
    if two: b2, l2 = out_range(ex, in2, cnt, n, 'second range')
    ob, olo = out_range(ex, out, cnt, n)

    def body(k):
        av = [ex.read(base.i(k))]
        if two: av.append(ex.read(b2.i(add(k, sub(l2, lo)))))
        r = call_fn(ex, fv, av)
        et = contents(ex, ex.read(ob)).et
        if isinstance(r, T) and prim_sort(et) == 'R': r = lift(r, 'R')
        ex.write(ob.i(add(k, sub(olo, lo))), r)
    counted_loop(ex, n, lo, hi, body)
    return PtrV(ob, add(olo, cnt))


@reg('for_each')
def f_for_each(ex, n, args, name, d):
    a, b = ex.rval(args[0]), ex.rval(args[1])
    base, lo, hi = pair_range(ex, a, b, n, 'range')
    fv = ex.rval(args[2])
    if base is None: return fv
    counted_loop(ex, n, lo, hi, lambda k: call_fn(ex, fv, [base.i(k)]))
    return fv


@reg('generate')
def f_generate(ex, n, args, name, d):
    a, b = ex.rval(args[0]), ex.rval(args[1])
    base, lo, hi = pair_range(ex, a, b, n, 'range')
    fv = ex.rval(args[2])
    if base is None: return None
    counted_loop(ex, n, lo, hi, lambda k: ex.write(base.i(k), call_fn(ex, fv, [])))
    return None


@reg('max_element', 'min_element')
def f_max_element(ex, n, args, name, d):
    a, b = ex.rval(args[0]), ex.rval(args[1])
    base, lo, hi = pair_range(ex, a, b, n, 'range')
    if base is None: return a
    vec = contents(ex, ex.read(base))
    t = vec.tree
    if len(args) > 2:
        # comparator: must be a pure function of the two elements
        fv = ex.rval(args[2])
        k1, k2 = fresh('k', 'I'), fresh('k', 'I')
        before, pc0 = dict(ex.st.store), ex.st.pc
        for k in (k1, k2): ex.assume(band(le(lo, k), lt(k, hi)))
        cmpt = ex.as_bool(call_fn(ex, fv, [lift_get(t, k1), lift_get(t, k2)]))
        for c, v in before.items():
            if ex.st.store.get(c) is not v: err('comparison with side effects')
        ex.st.pc, ex.st.store = pc0, before
        from .smt import Exporter
        sk, ps = Exporter().skeleton(two_level(cmpt, k1, k2))
        ls = [x for _, x in leaves(Struct('x', {'t': t}))] if not isinstance(t, T) else [t]
        m = app('%s%d' % (name, sk), ls + [x for x in ps if x not in ls] + [lo, hi], 'I')
        ex.assume(bor(band(eq(m, hi), le(hi, lo)), band(le(lo, m), lt(m, hi))))
        less = lambda i, j: subst(cmpt, {k1: i, k2: j})
        if name == 'max_element':
            ex.assume(forall_range(lambda k: bnot(less(m, k)), lo, hi))
        else:
            ex.assume(forall_range(lambda k: bnot(less(k, m)), lo, hi))
        return PtrV(base, m)
    # first extremal position: deterministic function of (array, range)
    m = app(name, [t, lo, hi], 'I')
    ex.assume(bor(band(eq(m, hi), le(hi, lo)), band(le(lo, m), lt(m, hi))))
    if name == 'max_element':
        ex.assume(forall_range(lambda k: le(select(t, k), select(t, m)), lo, hi))
    else:
        ex.assume(forall_range(lambda k: le(select(t, m), select(t, k)), lo, hi))
    return PtrV(base, m)


def pred_at(ex, base, fv, k, facts):
    """value of a pure predicate at element k (obligations inside are checked for all k)"""
    before = dict(ex.st.store)
    pc0 = ex.st.pc
    for f in facts: ex.assume(f)
    r = call_fn(ex, fv, [ex.read(base.i(k))])
    for c, v in before.items():
        if ex.st.store.get(c) is not v: err('predicate with side effects')
    ex.st.pc = pc0
    ex.st.store = before
    return ex.as_bool(r)


@reg('find', 'find_if')
def f_find(ex, n, args, name, d):
    a, b = ex.rval(args[0]), ex.rval(args[1])
    base, lo, hi = pair_range(ex, a, b, n, 'range')
    if base is None: return a
    vec = contents(ex, ex.read(base))
    if name == 'find':
        x = ex.rval(args[2])
        p = lambda k: eq(lift(select(vec.tree, k), x.sort), x)
    else:
        fv = ex.rval(args[2])
        kv = fresh('k', 'I')
        pt = pred_at(ex, base, fv, kv, [le(lo, kv), lt(kv, hi)])
        p = lambda k: subst(pt, {kv: k})
    m = fresh('pos', 'I')
    ex.assume(band(le(lo, m), le(m, hi)))
    ex.assume(forall_range(lambda k: bnot(p(k)), lo, m))
    ex.assume(implies(lt(m, hi), p(m)))
    return PtrV(base, m)


@reg('all_of', 'any_of', 'none_of')
def f_anyof(ex, n, args, name, d):
    a, b = ex.rval(args[0]), ex.rval(args[1])
    base, lo, hi = pair_range(ex, a, b, n, 'range')
    fv = ex.rval(args[2])
    if base is None: return FALSE if name == 'any_of' else TRUE
    kv = fresh('k', 'I')
    pt = pred_at(ex, base, fv, kv, [le(lo, kv), lt(kv, hi)])
    p = lambda k: subst(pt, {kv: k})
    if name == 'all_of': return forall_range(p, lo, hi)
    if name == 'any_of': return exists_range(p, lo, hi)
    return forall_range(lambda k: bnot(p(k)), lo, hi)


@reg('count', 'count_if')
def f_count(ex, n, args, name, d):
    a, b = ex.rval(args[0]), ex.rval(args[1])
    base, lo, hi = pair_range(ex, a, b, n, 'range')
    if base is None: return ZERO
    vec = contents(ex, ex.read(base))
    if name == 'count':
        x = ex.rval(args[2])
        return summ(lambda k: ite(eq(lift(select(vec.tree, k), x.sort), x), ONE, ZERO), lo, hi)
    fv = ex.rval(args[2])
    kv = fresh('k', 'I')
    pt = pred_at(ex, base, fv, kv, [le(lo, kv), lt(kv, hi)])
    return summ(lambda k: ite(subst(pt, {kv: k}), ONE, ZERO), lo, hi)


@reg('remove_if', 'remove')
def f_remove_if(ex, n, args, name, d):
    a, b = ex.rval(args[0]), ex.rval(args[1])
    base, lo, hi = pair_range(ex, a, b, n, 'range')
    if base is None: return a
    vec = contents(ex, ex.read(base))
    if name == 'remove':
        x = ex.rval(args[2])
        keep = lambda k: ne(lift(select(vec.tree, k), x.sort), x)
    else:
        fv = ex.rval(args[2])
        kv = fresh('k', 'I')
        pt = pred_at(ex, base, fv, kv, [le(lo, kv), lt(kv, hi)])
        keep = lambda k: bnot(subst(pt, {kv: k}))
    cnt = lambda k: summ(lambda j: ite(keep(j), ONE, ZERO), lo, k)
    end = add(lo, cnt(hi))
    src = lambda c: mk_nth(cnt(hi).args[0], lo, sub(c, lo)) if cnt(hi).op == 'sum' else pick(lambda k: band(keep(k), eq(cnt(k), sub(c, lo))), lo, hi)
    old = vec.tree
    junk = map_leaves(old, lambda t: fresh('removed', t.sort))

    def mkl(o, j):
        if isinstance(o, T):
            return lam(lambda c: ite(band(le(lo, c), lt(c, end)), select(o, src(c)),
                                     ite(band(le(end, c), lt(c, hi)), select(j, c), select(o, c))))
        if isinstance(o, Struct): return Struct(o.cls, {k: mkl(o.f[k], j.f[k]) for k in o.f})
        if isinstance(o, VecV): return VecV(o.et, mkl(o.size, j.size), mkl(o.tree, j.tree))
        return o
    ex.write(base, VecV(vec.et, vec.size, mkl(old, junk)))
    return PtrV(base, end)


def less_values(ex, et, a, b):
    """default operator< on element values"""
    if isinstance(a, T): return lt(a, b)
    if isinstance(a, Struct) and a.cls in ('std::tuple', 'std::pair'):
        keys = list(a.f)
        r = FALSE
        for k in reversed(keys):
            x, y = a.f[k], b.f[k]
            r = bor(less_values(ex, None, x, y), band(bnot(less_values(ex, None, y, x)), r))
        return r
    err('operator< on %r' % (a,))


def two_level(t, k1, k2):
    """t with k1 -> bv1, k2 -> bv0"""
    a = close(t, k1)            # k1 -> bv0, other loose indices unaffected (t is closed)
    b = mk('lam', (a,), None, 'AB')
    # close k2 inside: one more binder outside
    c = close(b, k2)
    return c


def sort_range(ex, n, base, lo, hi, fv):
    """stable or not: result is the image of the old range under a permutation p of [lo,hi),
       ordered by the comparison"""
    ex.libused.add('std::sort')
    vec = contents(ex, ex.read(base))
    old = vec.tree
    ls = [t for _, t in leaves(Struct('x', {'t': old}))] if not isinstance(old, T) else [old]
    k1, k2 = fresh('k', 'I'), fresh('k', 'I')
    if fv is None:
        cmpt = less_values(ex, vec.et, lift_get(old, k1), lift_get(old, k2))
    else:
        before = dict(ex.st.store)
        pc0 = ex.st.pc
        for k in (k1, k2): ex.assume(band(le(lo, k), lt(k, hi)))
        cmpt = ex.as_bool(call_fn(ex, fv, [lift_get(old, k1), lift_get(old, k2)]))
        for c, v in before.items():
            if ex.st.store.get(c) is not v: err('comparison with side effects')
        ex.st.pc, ex.st.store = pc0, before
    # the permutation depends on the data and on everything the comparison reads
    from .smt import Exporter
    body = two_level(cmpt, k1, k2)
    sk, ps = Exporter().skeleton(body)
    nm = 'sortp%d' % sk
    ls = ls + [x for x in ps if x not in ls]
    p = lambda c: app(nm, ls + [lo, hi, c], 'I')
    q = lambda c: app(nm + '_inv', ls + [lo, hi, c], 'I')
    less = lambda i, j: subst(cmpt, {k1: i, k2: j})
    ex.assume(forall_range(lambda c: band(le(lo, p(c)), lt(p(c), hi), eq(q(p(c)), c)), lo, hi))
    ex.assume(forall_range(lambda c: band(le(lo, q(c)), lt(q(c), hi), eq(p(q(c)), c)), lo, hi))
    ex.assume(forall_range(lambda c: forall_range(lambda e: bnot(less(p(e), p(c))), c, hi), lo, hi))
    new = tree_lam_idx(old, lambda c, t: ite(band(le(lo, c), lt(c, hi)), select(t, p(c)), select(t, c)))
    ex.write(base, VecV(vec.et, vec.size, new))
    return p, q


def tree_lam_idx(tree, f):
    return map_leaves(tree, lambda t: lam(lambda c: f(c, t)))


@reg('sort', 'stable_sort')
def f_sort(ex, n, args, name, d):
    a, b = ex.rval(args[0]), ex.rval(args[1])
    base, lo, hi = pair_range(ex, a, b, n, 'sorted range')
    if base is None: return None
    fv = ex.rval(args[2]) if len(args) > 2 else None
    sort_range(ex, n, base, lo, hi, fv)
    return None


# operators on library types
@reg('operator[]')
def f_index(ex, n, args, name, d):
    lv = ex.lval(args[0])
    v = ex.read(lv)
    if is_vec(v):
        return vec_member(ex, n, 'operator[]', lv, v, args[1:])
    if isinstance(v, PtrV):
        return ex.deref(ex.padd(v, ex.rval(args[1])), n)
    err('operator[] on %r' % (v,))


@reg('operator*')
def f_star(ex, n, args, name, d):
    if len(args) == 1: return ex.deref(ex.rval(args[0]), n)
    err('operator*')


@reg('operator->')
def f_arrow(ex, n, args, name, d): return ex.rval(args[0])


@reg('operator()')
def f_callop(ex, n, args, name, d):
    fv = ex.rval(args[0])
    if isinstance(fv, FuncV):
        vals = []
        for a in args[1:]:
            vals.append(ex.lval(a) if a.get('valueCategory') in ('lvalue', 'xvalue') else ex.rval(a))
        vals = [RefV(v) if isinstance(v, LV) else v for v in vals]
        return ex.call_lambda(fv, vals)
    if isinstance(fv, Opaque) and fv.what == 'fn':
        return call_fn(ex, fv, [ex.rval(a) for a in args[1:]])
    err('operator() on %r' % (fv,))


@reg('operator++', 'operator--')
def f_inc(ex, n, args, name, d):
    lv = ex.lval(args[0])
    v = ex.read(lv)
    if not isinstance(v, PtrV): err('%s on %r' % (name, v))
    ex.write(lv, ex.padd(v, integer(1 if name == 'operator++' else -1)))
    return v if len(args) == 2 else RefV(lv)


@reg('operator+=', 'operator-=')
def f_pluseq(ex, n, args, name, d):
    lv = ex.lval(args[0])
    v = ex.read(lv)
    k = ex.rval(args[1])
    if isinstance(v, PtrV):
        ex.write(lv, ex.padd(v, k if name == 'operator+=' else neg(k)))
        return RefV(lv)
    err('%s on %r' % (name, v))


@reg('operator+', 'operator-', 'operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=')
def f_binop(ex, n, args, name, d):
    op = name[len('operator'):]
    a, b = ex.rval(args[0]), ex.rval(args[1])
    if is_vec(a) and is_vec(b) and op in ('==', '!='):
        x, y = contents(ex, a), contents(ex, b)
        r = band(eq(x.size, y.size), forall_range(lambda k: eq(select(x.tree, k), select(y.tree, k)), ZERO, x.size))
        return r if op == '==' else bnot(r)
    if isinstance(a, Struct) and isinstance(b, Struct):
        if op == '<': return less_values(ex, None, a, b)
        if op == '>': return less_values(ex, None, b, a)
        if op in ('==', '!='):
            r = band(*[eq(a.f[k], b.f[k]) for k in a.f])
            return r if op == '==' else bnot(r)
    return ex.binop(op, a, b, n)


@reg('operator=')
def f_assign(ex, n, args, name, d):
    lv = ex.lval(args[0])
    v = ex.read(lv)
    if is_vec(v):
        return vec_assign(ex, lv, args[1])
    if isinstance(v, Struct) and v.cls in ('std::tuple', 'std::pair'):
        src = ex.rval(args[1])
        for (k, x), (k2, y) in zip(list(v.f.items()), list(src.f.items())):
            if isinstance(x, Undef) and n is not None and not isinstance(y, Undef) and v.cls == 'std::tuple' and k not in ():
                if any(isinstance(z, RefV) for z in v.f.values()): continue
            if isinstance(y, RefV): y = ex.read(y.lv)
            if isinstance(x, RefV):
                ex.write(x.lv, y)
            else:
                ex.write(lv.f(k), y)
        return RefV(lv)
    if isinstance(v, Struct):
        # implicitly-defined copy / move assignment
        if args[1].get('valueCategory') == 'xvalue': nv = ex.move_out(ex.lval(args[1]))
        elif args[1].get('valueCategory') == 'prvalue': nv = ex.rval(args[1])
        else: nv = ex.copy_value(ex.rval(args[1]))
        ex.write(lv, nv)
        return RefV(lv)
    val = ex.rval(args[1])
    ex.write(lv, val)
    return RefV(lv)


@reg('operator<<')
def f_shl(ex, n, args, name, d):
    # output to a stream: no effect on program state that the properties observe
    ex.assumptions.add('writing to an output stream does not change program state')
    r = ex.lval(args[0])
    a = args[1]
    if a.get('valueCategory') in ('lvalue', 'xvalue'):
        v = None
        try:
            lv = ex.lval(a)
        except E().VCError:
            lv = None
    else:
        if tstr(a).startswith('std::_') or 'ostream' in tstr(a) or '(' in tstr(a): pass
        else: ex.rval(a)
    return r


@reg('setw', 'setprecision', 'setfill')
def f_manip(ex, n, args, name, d):
    return Opaque('manip', tok('manip'))


@reg('printf', 'puts')
def f_printf(ex, n, args, name, d):
    for a in args: ex.rval(a) if not strip_cvref(tstr(a)).startswith('char') else None
    ex.assumptions.add('printf writes to the standard output only')
    return fresh('printf', 'I')
