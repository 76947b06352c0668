"""Value domain of the symbolic executor."""
from .terms import *
from . import terms as TT
from .frontend import norm_type, strip_cvref, split_targs


class Undef(object):
    def __repr__(self): return 'UNDEF'


UNDEF = Undef()


class Struct(object):
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls = cls
        self.f = f

    def __repr__(self):
        return '%s{%s}' % (self.cls, ', '.join('%s=%r' % i for i in self.f.items()))

    def set(self, k, v):
        d = dict(self.f)
        d[k] = v
        return Struct(self.cls, d)


class VecV(object):
    """contents of a std::vector / std::list / array: size and element map (a lifted tree)"""
    __slots__ = ('et', 'size', 'tree')

    def __init__(self, et, size, tree):
        self.et = et
        self.size = size
        self.tree = tree

    def __repr__(self): return 'Vec<%s>(%r; %r)' % (self.et, self.size, self.tree)


class VRef(object):
    """value of a std::vector variable: names the cell that holds its buffer"""
    __slots__ = ('cell', 'et')

    def __init__(self, cell, et):
        self.cell = cell
        self.et = et

    def __repr__(self): return 'VRef(%s)' % self.cell


class LV(object):
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = tuple(path)

    def f(self, name): return LV(self.cell, self.path + (('f', name),))
    def i(self, t): return LV(self.cell, self.path + (('i', t),))
    def same(self, o): return self.cell == o.cell and self.path == o.path
    def __repr__(self): return 'LV(%s%s)' % (self.cell, ''.join('.%s' % (p[1],) for p in self.path))


class PtrV(object):
    """pointer/iterator: base = LV of the buffer, off = element offset; base None = null;
       off None: pointer to a single object"""
    __slots__ = ('base', 'off')

    def __init__(self, base, off):
        self.base = base
        self.off = off

    def __repr__(self): return 'Ptr(%r+%r)' % (self.base, self.off)


class RefV(object):
    """contents of a reference cell"""
    __slots__ = ('lv',)

    def __init__(self, lv): self.lv = lv
    def __repr__(self): return 'Ref(%r)' % (self.lv,)


class FuncV(object):
    __slots__ = ('node', 'caps', 'this')

    def __init__(self, node, caps, this=None):
        self.node, self.caps, self.this = node, caps, this


class Opaque(object):
    """value the model gives no structure to"""
    __slots__ = ('what', 'data')

    def __init__(self, what, data=None):
        self.what = what
        self.data = data

    def __repr__(self): return 'Opaque(%s,%r)' % (self.what, self.data)


NULL = PtrV(None, ZERO)

INT_TYPES = {'int', 'unsigned int', 'long', 'unsigned long', 'size_t', 'std::size_t', 'char', 'short', 'long long',
             'unsigned long long', 'unsigned char', 'unsigned', 'long int', 'std::ptrdiff_t', 'ptrdiff_t',
             'SuiteSparse_long', 'int64_t', 'idx_t', 'signed char', 'std::streamsize', 'uint', 'int32_t'}
UNSIGNED = {'unsigned int', 'unsigned long', 'size_t', 'std::size_t', 'unsigned long long', 'unsigned char', 'unsigned'}
REAL_TYPES = {'double', 'float', 'long double', 'real_t'}


def prim_sort(t):
    t = strip_cvref(t)
    if t in INT_TYPES: return 'I'
    if t in REAL_TYPES: return 'R'
    if t in ('bool', '_Bool'): return 'B'
    return None


VECTOR_BASES = ('std::vector', 'std::list', 'std::deque', 'vector', 'list', 'std::initializer_list', 'std::array')


def vec_elem(t):
    """element type if t is a modelled sequence container"""
    b, a = split_targs(strip_cvref(t))
    if b in VECTOR_BASES and a:
        return norm_type(a[0])
    return None


def ptr_elem(t):
    t = strip_cvref(t)
    if t.endswith('*'):
        return t[:-1].strip()
    b, a = split_targs(t)
    if b in ('__gnu_cxx::__normal_iterator', '__normal_iterator'):
        return ptr_elem(a[0])
    if b in ('std::_List_iterator', 'std::_List_const_iterator', '_List_iterator'):
        return a[0]
    return None


# ------------------------------------------------------------------ lifted trees
def map_leaves(v, fn):
    if isinstance(v, T): return fn(v)
    if isinstance(v, Struct): return Struct(v.cls, {k: map_leaves(x, fn) for k, x in v.f.items()})
    if isinstance(v, VecV): return VecV(v.et, fn(v.size), map_leaves(v.tree, fn))
    if isinstance(v, (Undef, Opaque)): return v
    if isinstance(v, PtrV) and v.base is None: return v
    raise TypeError('not liftable: %r' % (v,))


def map2(a, b, fn):
    if isinstance(a, T) and isinstance(b, T): return fn(a, b)
    if isinstance(a, Struct) and isinstance(b, Struct) and a.cls == b.cls:
        return Struct(a.cls, {k: map2(a.f[k], b.f[k], fn) for k in a.f})
    if isinstance(a, VecV) and isinstance(b, VecV):
        return VecV(a.et, fn(a.size, b.size), map2(a.tree, b.tree, fn))
    if isinstance(a, (Undef, Opaque)): return a
    if isinstance(b, (Undef, Opaque)): return a
    raise TypeError('shape mismatch %r %r' % (a, b))


def lift_get(tree, i):
    return map_leaves(tree, lambda t: select(t, i))


def lift_set(tree, i, v):
    return map2(tree, v, lambda t, x: store(t, i, lift(x, t.sort[1:])))


def leaves(v, path=()):
    """yield (path, term) for each scalar leaf of a value (buffers are separate cells)"""
    if isinstance(v, T):
        yield path, v
    elif isinstance(v, Struct):
        for k in v.f:
            for x in leaves(v.f[k], path + (k,)): yield x
    elif isinstance(v, VecV):
        yield path + ('#size',), v.size
        for x in leaves(v.tree, path + ('#el',)): yield x
    elif isinstance(v, PtrV) and v.base is not None and v.off is not None:
        yield path + ('#off',), v.off
        for k, p in enumerate(v.base.path):
            if p[0] == 'i': yield path + ('#bp', k), p[1]
    elif isinstance(v, RefV):
        for k, p in enumerate(v.lv.path):
            if p[0] == 'i': yield path + ('#rp', k), p[1]
    elif isinstance(v, Opaque) and isinstance(v.data, T):
        yield path + ('#op',), v.data


def map_leaves_p(v, fn, path=()):
    """rebuild value with fn(path, term) applied at each leaf"""
    if isinstance(v, T): return fn(path, v)
    if isinstance(v, Struct):
        return Struct(v.cls, {k: map_leaves_p(v.f[k], fn, path + (k,)) for k in v.f})
    if isinstance(v, VecV):
        return VecV(v.et, fn(path + ('#size',), v.size), map_leaves_p(v.tree, fn, path + ('#el',)))
    if isinstance(v, PtrV) and v.base is not None and v.off is not None:
        off = fn(path + ('#off',), v.off)
        np = tuple((p if p[0] != 'i' else ('i', fn(path + ('#bp', k), p[1]))) for k, p in enumerate(v.base.path))
        return PtrV(LV(v.base.cell, np), off)
    if isinstance(v, RefV):
        np = tuple((p if p[0] != 'i' else ('i', fn(path + ('#rp', k), p[1]))) for k, p in enumerate(v.lv.path))
        return RefV(LV(v.lv.cell, np))
    if isinstance(v, Opaque) and isinstance(v.data, T):
        return Opaque(v.what, fn(path + ('#op',), v.data))
    return v


def same_shape(a, b):
    """b can overwrite a leaf-wise"""
    if type(a) is not type(b): return False
    if isinstance(a, Struct): return a.cls == b.cls and all(same_shape(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, VecV): return same_shape(a.tree, b.tree)
    if isinstance(a, PtrV):
        if (a.base is None) != (b.base is None): return False
        if a.base is None: return True
        if (a.off is None) != (b.off is None): return False
        return a.base.cell == b.base.cell and len(a.base.path) == len(b.base.path)
    if isinstance(a, RefV): return a.lv.cell == b.lv.cell and len(a.lv.path) == len(b.lv.path)
    if isinstance(a, VRef): return a.cell == b.cell
    return True
