"""Symbolic executor: weakest-precondition style VC generation over clang's AST.

Every reachable statement of the function under verification is executed on a
symbolic state; partial operations (element access, pointer use, library assert(),
preconditions of callees) generate obligations.  Calls to functions that have a
contract use the contract; other calls into /repo are inlined; calls into the
standard library use the models in lib.py.
"""
import sys, itertools
from .terms import *
from . import terms as TT
from .values import *
from .frontend import norm_type, strip_cvref, split_targs, tstr, Func
from . import smt

sys.setrecursionlimit(100000)


class VCError(Exception):
    """construct outside the supported subset (extraction break)"""


class NoMerge(Exception):
    pass


class Fork(Exception):
    def __init__(self, key):
        self.key = key


class Dead(Exception):
    pass


class State(object):
    __slots__ = ('store', 'pc')

    def __init__(self, store, pc):
        self.store = store
        self.pc = pc

    def copy(self):
        return State(dict(self.store), self.pc)


class Obl(object):
    __slots__ = ('kind', 'where', 'hyps', 'goal', 'status', 'reason', 'secs', 'name', 'func', 'backend')

    def __init__(self, kind, where, hyps, goal, func):
        self.kind, self.where, self.hyps, self.goal, self.func = kind, where, hyps, goal, func
        self.status = None
        self.reason = ''
        self.secs = 0.0
        self.backend = ''
        self.name = ''

    def __repr__(self):
        return '%s @ %s: %r' % (self.kind, self.where, self.goal)


class Frame(object):
    def __init__(self, func, this):
        self.func = func
        self.this = this      # cell holding RefV
        self.env = {}


IGNORED_CALLS = {'__assert_fail'}


class Exec(object):
    def __init__(self, prog, contracts=None, forced=None, verbose=False):
        self.prog = prog
        self.contracts = contracts or {}
        self.forced = forced or {}
        self.verbose = verbose
        self.obls = []
        self.dry = 0
        self.inloop = 0
        self.cellctr = itertools.count(1)
        self.frames = []
        self.st = State({}, ())
        self.branchctr = 0
        self.lemmas = []          # proved facts added to every obligation
        self.used_contracts = set()
        self.inlined = set()
        self.loops = 0
        self.loop_log = []
        self.ccache = {}
        self.throws = []
        self.libused = set()
        self.assumptions = set()
        self.on_apply = []        # consequences of assumptions about abstract operators, by application
        self.name_results = False # results of abstract operators and of function pointers get names (defining equations as facts)
        self.check_div = False    # divisions by zero are an error also for floating point
        self.spec_inv = None      # schema invariants supplied by the contract
        self.opq_types = {}
        self.cellname = {}
        self.depth = 0
        self.ifkeys = []
        self.quick = 0
        self.loopstack = []
        self.havoced = []

    # ------------------------------------------------------------- memory
    def alloc(self, v, hint='t'):
        c = next(self.cellctr)
        self.st.store[c] = v
        self.cellname[c] = hint
        return c

    def assume(self, t, kind='f'):
        if t is TRUE: return
        self.st.pc = self.st.pc + ((kind, t),)

    def facts(self):
        return [t for k, t in self.st.pc] + self.lemmas

    def where(self, node):
        fn = self.frames[-1].func if self.frames else None
        q = fn.qual if fn is not None else '?'
        ln = ''
        if node is not None:
            ln = node_line(node)
        return '%s%s' % (q, (':' + str(ln)) if ln else '')

    def oblige(self, kind, goal, node=None):
        if goal is TRUE: return
        if not self.dry:
            self.obls.append(Obl(kind, self.where(node), self.facts(), goal,
                                 self.frames[0].func.qual if self.frames else ''))
        self.assume(goal)

    def implied(self, t, timeout=3000):
        """does the current path imply t?  (used only to prune / choose strategies)"""
        if t is TRUE: return True
        if t is FALSE and not self.st.pc: return False
        if self.quick: return False
        hs = self.facts()
        key = (t.uid, tuple(h.uid for h in hs))
        r = self.ccache.get(key)
        if r is None:
            r = smt.prove(hs, t, timeout)[0]
            self.ccache[key] = r
        return r

    def implied_by(self, hs, t, timeout=3000):
        if t is TRUE: return True
        key = (t.uid, tuple(h.uid for h in hs))
        r = self.ccache.get(key)
        if r is None:
            r = smt.prove(hs, t, timeout)[0]
            self.ccache[key] = r
        return r

    def vec_lv(self, lv):
        """LV of a vector variable -> LV of its contents"""
        v = self.read(lv)
        if isinstance(v, VRef): return LV(v.cell)
        if isinstance(v, VecV): return lv
        raise VCError('not a vector: %r' % (v,))

    def read(self, lv):
        st = self.st.store
        if lv.cell not in st:
            self.oblige('dangling reference', FALSE, None)
            raise Dead()
        v = st[lv.cell]
        for k, x in lv.path:
            if k == 'f':
                if not isinstance(v, Struct) or x not in v.f:
                    raise VCError('no field %s in %r' % (x, v))
                v = v.f[x]
            else:
                if isinstance(v, VRef):
                    if v.cell not in st: raise VCError('dangling buffer')
                    v = st[v.cell]
                if not isinstance(v, VecV): raise VCError('index into %r' % (v,))
                v = lift_get(v.tree, x)
        return v

    def write(self, lv, val):
        st = self.st.store
        if lv.cell not in st:
            self.oblige('dangling reference', FALSE, None)
            raise Dead()
        st[lv.cell] = self._upd(st[lv.cell], lv.path, 0, val, False)

    def _upd(self, v, path, k, val, lifted):
        if k == len(path):
            return self.inline_value(val) if lifted else val
        kind, x = path[k]
        if kind == 'f':
            return v.set(x, self._upd(v.f[x], path, k + 1, val, lifted))
        if isinstance(v, VRef):
            cell = v.cell
            self.st.store[cell] = self._upd(self.st.store[cell], path, k, val, False)
            return v
        el = lift_get(v.tree, x) if k + 1 < len(path) else None
        nv = self._upd(el, path, k + 1, val, True)
        return VecV(v.et, v.size, self.lset(v.tree, x, nv))

    def lset(self, tree, x, nv):
        return lift_set(tree, x, self.fit(tree, nv))

    def fit(self, tree, nv):
        """fill UNDEF leaves of nv so that it has the shape of tree"""
        if isinstance(tree, T):
            if isinstance(nv, T): return nv
            if isinstance(nv, PtrV):
                return self.ptr_handle(nv)
            return fresh('undef', tree.sort[1:])
        if isinstance(tree, Struct):
            if not isinstance(nv, Struct): raise VCError('shape mismatch %r / %r' % (tree, nv))
            return Struct(nv.cls, {k: self.fit(tree.f[k], nv.f[k]) for k in tree.f})
        if isinstance(tree, VecV):
            return VecV(tree.et, nv.size, self.fit_l(tree.tree, nv.tree))
        return nv

    def fit_l(self, a, b):
        if isinstance(a, T):
            if isinstance(b, T): return b
            return fresh('undef', a.sort[1:])
        if isinstance(a, Struct): return Struct(b.cls, {k: self.fit_l(a.f[k], b.f[k]) for k in a.f})
        if isinstance(a, VecV): return VecV(a.et, b.size, self.fit_l(a.tree, b.tree))
        return b

    def ptr_handle(self, p):
        """pointer stored inside a container: an integer handle (0 = null)"""
        if p.base is None: return ZERO
        v = self.read(p.base) if p.off is None else None
        if isinstance(v, Struct) and 'handle#' in v.f:
            return v.f['handle#']
        raise VCError('cannot store pointer %r in a container' % (p,))

    def inline_value(self, v):
        if isinstance(v, VRef): return self.st.store[v.cell]
        if isinstance(v, Struct): return Struct(v.cls, {k: self.inline_value(x) for k, x in v.f.items()})
        return v

    def copy_value(self, v):
        if isinstance(v, VRef):
            return VRef(self.alloc(self.st.store[v.cell], 'buf'), v.et)
        if isinstance(v, VecV):
            return VRef(self.alloc(v, 'buf'), v.et)
        if isinstance(v, Struct):
            return Struct(v.cls, {k: self.copy_value(x) for k, x in v.f.items()})
        return v

    # ------------------------------------------------------------- shapes
    def lifted_tree(self, et, mkleaf, prefix='A'):
        s = prim_sort(et)
        et = strip_cvref(et)
        if s: return mkleaf(prefix + s)
        if et.endswith('*'):
            return mkleaf(prefix + 'I')
        ve = vec_elem(et)
        if ve:
            return VecV(ve, mkleaf(prefix + 'I'), self.lifted_tree(ve, mkleaf, prefix + 'A'))
        b, a = split_targs(et)
        if b in ('std::tuple', 'tuple'):
            return Struct('std::tuple', {str(i): self.lifted_tree(x, mkleaf, prefix) for i, x in enumerate(a)})
        if b in ('std::pair', 'pair'):
            return Struct('std::pair', {n: self.lifted_tree(x, mkleaf, prefix) for n, x in zip(('first', 'second'), a)})
        if b in ('std::string', 'std::basic_string', 'string'):
            return mkleaf(prefix + 'U')
        c = self.find_class(et)
        if c is None: raise VCError('element type %s' % et)
        f = {}
        for base in c.bases:
            bn = strip_cvref(base)
            f['^' + bn] = self.lifted_tree(bn, mkleaf, prefix)
        for n, t, nd in c.fields:
            f[n] = self.lifted_tree(t, mkleaf, prefix)
        return Struct(c.qual, f)

    def find_class(self, t):
        t = strip_cvref(t)
        c = self.prog.classes.get(t)
        if c is None:
            for q in self.prog.classes:
                if q.endswith('::' + t): return self.prog.classes[q]
        return c

    def empty_vec(self, et):
        return VecV(et, ZERO, self.lifted_tree(et, lambda s: TT.default_of(s)))

    def symbolic(self, t, name):
        """fresh symbolic value of a type (no invariants assumed)"""
        s = prim_sort(t)
        t = strip_cvref(t)
        if s: return var(name, s)
        ve = vec_elem(t)
        if ve:
            n = var(name + '.size', 'I')
            self.assume(le(ZERO, n))
            cnt = [0]

            def mkl(sort):
                cnt[0] += 1
                return var(name + '.el%s' % ('' if cnt[0] == 1 else cnt[0]), sort)
            return VRef(self.alloc(VecV(ve, n, self.lifted_tree(ve, mkl)), name), ve)
        if '(*)' in t: return Opaque('fn', None)
        if t.endswith('*'): return Opaque('handle', var(name, 'I'))
        c = self.find_class(t)
        if c is None: raise VCError('symbolic value of type %s' % t)
        f = {}
        if t.startswith('Vector<'):
            # class invariant: the view part spans exactly the owned storage
            et = [ft for n, ft, nd in c.fields if vec_elem(strip_cvref(ft))]
            own = self.symbolic(et[0], name)
            vb = strip_cvref(c.bases[0])
            vf = {}
            for n, ft, nd in self.find_class(vb).fields:
                vf[n] = PtrV(LV(own.cell), ZERO) if ft.strip().endswith('*') else self.st.store[own.cell].size
            return Struct(c.qual, {'^' + norm_type(vb): Struct(self.find_class(vb).qual, vf), c.fields[0][0]: own})
        for base in c.bases:
            bn = strip_cvref(base)
            f['^' + bn] = self.symbolic(bn, name)
        for n, ft, nd in c.fields:
            f[n] = self.symbolic(ft, name + '.' + n)
        return Struct(c.qual, f)

    # ------------------------------------------------------------- merging
    def merge(self, states):
        states = [s for s in states if s is not None]
        if not states: return None
        r = states[0]
        for s in states[1:]:
            r = self.merge2(r, s)
        return r

    def merge2(self, s1, s2):
        n = 0
        a, b = s1.pc, s2.pc
        while n < len(a) and n < len(b) and a[n][1] is b[n][1] and a[n][0] == b[n][0]: n += 1
        b1 = band(*[t for k, t in a[n:] if k == 'b'])
        b2 = band(*[t for k, t in b[n:] if k == 'b'])
        sel = b1
        map12 = {}
        newcells = {}
        work = []

        def pair(c1, c2):
            k = (c1, c2)
            if k in map12: return map12[k]
            if c1 == c2:
                nc = c1
            else:
                for (x, y) in map12:
                    if x == c1 or y == c2: raise NoMerge('buffer renaming')
                nc = next(self.cellctr)
                self.cellname[nc] = self.cellname.get(c1, 'm')
            map12[k] = nc
            work.append((c1, c2, nc))
            return nc

        def mlv(l1, l2):
            if len(l1.path) != len(l2.path): raise NoMerge('path')
            c = l1.cell if l1.cell == l2.cell else pair(l1.cell, l2.cell)
            p = []
            for (k1, x1), (k2, x2) in zip(l1.path, l2.path):
                if k1 != k2: raise NoMerge('path')
                if k1 == 'f':
                    if x1 != x2: raise NoMerge('path')
                    p.append((k1, x1))
                else:
                    p.append((k1, ite(sel, x1, x2)))
            return LV(c, p)

        def mv(v1, v2):
            if v1 is v2: return v1
            if isinstance(v1, T) and isinstance(v2, T):
                if v1.sort != v2.sort: raise NoMerge('sort')
                return ite(sel, v1, v2)
            if isinstance(v1, Undef) and isinstance(v2, T):
                return ite(sel, fresh('undef', v2.sort), v2)
            if isinstance(v2, Undef) and isinstance(v1, T):
                return ite(sel, v1, fresh('undef', v1.sort))
            if isinstance(v1, Undef): return v1
            if isinstance(v2, Undef): return v2
            if type(v1) is not type(v2): raise NoMerge('type %r %r' % (v1, v2))
            if isinstance(v1, Struct):
                if v1.cls != v2.cls: raise NoMerge('class')
                return Struct(v1.cls, {k: mv(v1.f[k], v2.f[k]) for k in v1.f})
            if isinstance(v1, VecV):
                return VecV(v1.et, ite(sel, v1.size, v2.size), mv(v1.tree, v2.tree))
            if isinstance(v1, VRef):
                return VRef(pair(v1.cell, v2.cell), v1.et)
            if isinstance(v1, PtrV):
                if v1.base is None and v2.base is None: return v1
                if v1.base is None or v2.base is None: raise NoMerge('null')
                if (v1.off is None) != (v2.off is None): raise NoMerge('ptr')
                return PtrV(mlv(v1.base, v2.base), None if v1.off is None else ite(sel, v1.off, v2.off))
            if isinstance(v1, RefV):
                return RefV(mlv(v1.lv, v2.lv))
            if isinstance(v1, Opaque):
                if v1.what == v2.what and isinstance(v1.data, T) and isinstance(v2.data, T):
                    return Opaque(v1.what, ite(sel, v1.data, v2.data))
                if v1.what == v2.what and v1.data == v2.data: return v1
                raise NoMerge('opaque')
            if isinstance(v1, FuncV) and v1.node is v2.node: return v1
            raise NoMerge('value %r' % (v1,))

        store = {}
        S1, S2 = s1.store, s2.store
        bufs1 = buffer_cells(S1)
        bufs2 = buffer_cells(S2)
        roots = [c for c in S1 if c in S2 and c not in bufs1 and c not in bufs2]
        for c in roots:
            store[c] = mv(S1[c], S2[c])
        # cells that exist on one side only (locals of that side)
        for c in S1:
            if c not in S2 and c not in bufs1: store[c] = S1[c]
        for c in S2:
            if c not in S1 and c not in bufs2: store[c] = S2[c]
        while work:
            c1, c2, nc = work.pop()
            if c1 not in S1 or c2 not in S2:
                if c1 not in S1 and c2 not in S2: continue
                raise NoMerge('dangling')
            store[nc] = mv(S1[c1], S2[c2])
        # buffers referenced from one-sided cells, or not reached
        for c in S1:
            if c in bufs1 and c not in store:
                if c in S2:
                    if c in bufs2 and S1[c] is not S2[c]:
                        try:
                            store[c] = mv(S1[c], S2[c])
                        except NoMerge:
                            pass
                    else:
                        store[c] = S1[c]
                else:
                    store[c] = S1[c]
        for c in S2:
            if c not in store and c not in S1: store[c] = S2[c]
        # consistency of renaming: a renamed buffer must not also survive un-renamed in a root
        ren1 = {c1 for (c1, c2) in map12 if c1 != c2}
        ren2 = {c2 for (c1, c2) in map12 if c1 != c2}
        for (c1, c2) in map12:
            if c1 == c2 and (c1 in ren1 or c1 in ren2): raise NoMerge('buffer renaming')
        pc = list(a[:n])
        bb = bor(b1, b2)
        if bb is not TRUE: pc.append(('b', bb))
        f2 = set(t.uid for k, t in b[n:] if k != 'b')
        common = set()
        for k, t in a[n:]:
            if k != 'b':
                if t.uid in f2:
                    pc.append((k, t))
                    common.add(t.uid)
                else:
                    g = implies(b1, t)
                    if g is not TRUE: pc.append((k, g))
        for k, t in b[n:]:
            if k != 'b' and t.uid not in common:
                g = implies(b2, t)
                if g is not TRUE: pc.append((k, g))
        return State(store, tuple(pc))

    # ------------------------------------------------------------- types
    def type_of(self, node):
        return tstr(node)

    # ------------------------------------------------------------- expressions
    def undef_fix(self, v, t):
        if isinstance(v, Undef):
            s = prim_sort(t)
            if s: return fresh('uninit', s)
            if ptr_elem(t): return v
        return v

    def rval(self, n):
        k = n['kind']
        m = getattr(self, 'r_' + k, None)
        if m is not None: return m(n)
        vc = n.get('valueCategory')
        if vc in ('lvalue', 'xvalue'):
            return self.read(self.lval(n))
        raise VCError('expression %s at %s' % (k, self.where(n)))

    def lval(self, n):
        k = n['kind']
        m = getattr(self, 'l_' + k, None)
        if m is not None: return m(n)
        if n.get('valueCategory') == 'prvalue':
            return LV(self.alloc(self.rval(n), 'tmp'))
        raise VCError('lvalue %s at %s' % (k, self.where(n)))

    # literals
    def r_IntegerLiteral(self, n): return integer(int(n['value']))

    def r_CharacterLiteral(self, n): return integer(int(n['value']))

    def r_FloatingLiteral(self, n):
        from fractions import Fraction
        return real(float(n['value'])) if 'value' in n else real(0)

    def r_CXXBoolLiteralExpr(self, n): return TRUE if n['value'] in (True, 'true') else FALSE

    def r_StringLiteral(self, n): return tok(('str', n['value']), 'U')

    def l_StringLiteral(self, n): return LV(self.alloc(self.r_StringLiteral(n), 'str'))

    def l_PredefinedExpr(self, n): return LV(self.alloc(tok(('str', '__func__'), 'U'), 'str'))

    def r_CXXNullPtrLiteralExpr(self, n): return NULL

    def r_GNUNullExpr(self, n): return NULL

    def r_SourceLocExpr(self, n): return ZERO

    def r_ImplicitValueInitExpr(self, n): return self.value_init(tstr(n))

    def r_CXXScalarValueInitExpr(self, n): return self.value_init(tstr(n))

    def value_init(self, t):
        s = prim_sort(t)
        if s == 'I': return ZERO
        if s == 'R': return real(0)
        if s == 'B': return FALSE
        t = strip_cvref(t)
        if t.endswith('*'): return NULL
        return self.construct(t, [], None)

    # wrappers
    def r_ParenExpr(self, n): return self.rval(n['inner'][0])

    def l_ParenExpr(self, n): return self.lval(n['inner'][0])

    def r_ConstantExpr(self, n): return self.rval(n['inner'][0])

    def r_ExprWithCleanups(self, n): return self.rval(n['inner'][0])

    def l_ExprWithCleanups(self, n): return self.lval(n['inner'][0])

    def r_SubstNonTypeTemplateParmExpr(self, n): return self.rval(n['inner'][-1])

    def r_CXXBindTemporaryExpr(self, n): return self.rval(n['inner'][0])

    def r_CXXStdInitializerListExpr(self, n): return self.rval(n['inner'][0])

    def r_MaterializeTemporaryExpr(self, n): return self.rval(n['inner'][0])

    def l_MaterializeTemporaryExpr(self, n):
        x = n['inner'][0]
        return LV(self.alloc(self.rval(x), 'tmp'))

    def l_CXXBindTemporaryExpr(self, n): return self.lval(n['inner'][0])

    def r_CXXDefaultInitExpr(self, n):
        return self.rval(n['inner'][0]) if n.get('inner') else ZERO

    # casts
    def cast(self, n):
        ck = n.get('castKind')
        x = n['inner'][0]
        if ck == 'LValueToRValue':
            v = self.read(self.lval(x))
            return self.undef_fix(v, tstr(n))
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'BuiltinFnToFnPtr',
                  'FunctionToPointerDecay', 'FloatingCast'):
            return self.rval(x)
        if ck == 'IntegralCast':
            v = self.rval(x)
            if v.sort == 'B': v = ite(v, ONE, ZERO)
            ft, tt = strip_cvref(tstr(x)), strip_cvref(tstr(n))
            if tt in UNSIGNED and ft not in UNSIGNED and not is_const(v):
                self.oblige('non-negative conversion to unsigned', le(ZERO, v), n)
            elif tt in UNSIGNED and ft not in UNSIGNED and const_val(v) < 0:
                raise VCError('negative constant converted to unsigned')
            elif tt in ('char', 'short', 'unsigned char', 'signed char') and ft != tt:
                raise VCError('narrowing conversion %s -> %s' % (ft, tt))
            return v
        if ck == 'IntegralToFloating': return to_real(self.as_int(self.rval(x)))
        if ck == 'FloatingToIntegral':
            return trunc(self.rval(x))
        if ck == 'IntegralToBoolean': return ne(self.rval(x), ZERO)
        if ck == 'FloatingToBoolean': return ne(self.rval(x), real(0))
        if ck == 'BooleanToSignedIntegral': return ite(self.rval(x), ONE, ZERO)
        if ck == 'PointerToBoolean':
            p = self.rval(x)
            return self.as_bool(p)
        if ck == 'NullToPointer':
            return NULL
        if ck == 'ToVoid':
            self.effect(x)
            return None
        if ck in ('UncheckedDerivedToBase', 'DerivedToBase'):
            if x.get('valueCategory') in ('lvalue', 'xvalue'):
                return self.read(self.cast_l(n))
            v = self.rval(x)
            if isinstance(v, PtrV):
                if v.base is None: return v
                if v.off is not None: raise VCError('base cast of element pointer')
                return PtrV(self.base_path(v.base, n), None)
            if isinstance(v, Opaque): return v
            for b in n.get('path', []):
                v = self.sub_base(v, b['name'])
            return v
        if ck == 'ArrayToPointerDecay':
            lv = self.lval(x)
            v = self.read(lv)
            if isinstance(v, (VRef, VecV)): return PtrV(self.vec_lv(lv), ZERO)
            return v
        if ck == 'BitCast' or ck == 'ReinterpretMemory':
            return self.rval(x)
        if ck == 'Dependent':
            return self.rval(x)
        raise VCError('cast %s at %s' % (ck, self.where(n)))

    def as_int(self, v):
        if isinstance(v, T) and v.sort == 'B': return ite(v, ONE, ZERO)
        return v

    def sub_base(self, v, name):
        for k in v.f:
            if k.startswith('^') and (k[1:] == name or k[1:].split('<')[0].split('::')[-1] == name):
                return v.f[k]
        raise VCError('no base %s in %s' % (name, v.cls))

    def base_path(self, lv, n):
        for b in n.get('path', []):
            v = self.read(lv)
            if not isinstance(v, Struct): raise VCError('base of %r' % (v,))
            for k in v.f:
                if k.startswith('^') and (k[1:] == b['name'] or k[1:].split('<')[0].split('::')[-1] == b['name']):
                    lv = lv.f(k)
                    break
            else:
                if v.cls.split('<')[0] == b['name'] or 'handle#' in v.f:
                    continue
                raise VCError('no base %s in %s' % (b['name'], v.cls))
        return lv

    def cast_l(self, n):
        ck = n.get('castKind')
        x = n['inner'][0]
        if ck in ('NoOp', 'LValueBitCast'):
            return self.lval(x)
        if ck in ('UncheckedDerivedToBase', 'DerivedToBase'):
            return self.base_path(self.lval(x), n)
        if ck == 'BaseToDerived':
            lv = self.lval(x)
            p = lv.path
            for _ in n.get('path', []):
                if p and p[-1][0] == 'f' and p[-1][1].startswith('^'): p = p[:-1]
            return LV(lv.cell, p)
        if n.get('valueCategory') == 'prvalue' or ck in ('ConstructorConversion', 'UserDefinedConversion'):
            return LV(self.alloc(self.rval(n), 'tmp'))
        raise VCError('lvalue cast %s' % ck)

    r_ImplicitCastExpr = r_CXXStaticCastExpr = r_CStyleCastExpr = r_CXXFunctionalCastExpr = cast
    r_CXXConstCastExpr = r_CXXReinterpretCastExpr = cast
    l_ImplicitCastExpr = l_CXXStaticCastExpr = l_CStyleCastExpr = l_CXXConstCastExpr = cast_l

    def l_CXXFunctionalCastExpr(self, n):
        return self.cast_l(n)

    # names
    def l_DeclRefExpr(self, n):
        d = n['referencedDecl']
        return self.decl_lv(d, n)

    def decl_lv(self, d, n=None):
        for fr in (self.frames[-1],):
            c = fr.env.get(d['id'])
            if c is not None:
                v = self.st.store.get(c)
                if isinstance(v, RefV): return v.lv
                return LV(c)
        g = self.global_lv(d)
        if g is not None: return g
        raise VCError('unknown name %s at %s' % (d.get('name'), self.where(n)))

    def global_lv(self, d):
        nm = d.get('name')
        if nm in ('cout', 'cerr', 'cin'):
            key = ('global', nm)
            if key not in self.st.store:
                self.st.store[key] = Opaque('stream', tok(('stdstream', nm), 'U'))
            return LV(key)
        dd = self.prog.decls.get(d['id'])
        if dd is not None and dd.get('inner') and dd.get('kind') == 'VarDecl':
            key = ('global', nm)
            if key not in self.st.store:
                self.st.store[key] = self.rval(dd['inner'][-1])
            return LV(key)
        return None

    def r_DeclRefExpr(self, n):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            if d['id'] in self.prog.enumvals:
                return integer(self.prog.enumvals[d['id']])
            raise VCError('enum constant %s' % d.get('name'))
        if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return Opaque('fn', d)
        if n.get('valueCategory') == 'lvalue':
            return self.read(self.l_DeclRefExpr(n))
        return self.read(self.l_DeclRefExpr(n))

    def this_lv(self):
        c = self.frames[-1].this
        if c is None: raise VCError('this outside method')
        return self.st.store[c].lv

    def r_CXXThisExpr(self, n):
        return PtrV(self.this_lv(), None)

    def deref(self, p, n=None):
        if isinstance(p, Opaque) and p.what == 'handle':
            self.oblige('null pointer dereference', ne(p.data, ZERO), n)
            return self.handle_lv(p.data, p)
        if isinstance(p, T):
            self.oblige('null pointer dereference', ne(p, ZERO), n)
            return self.handle_lv(p, None)
        if isinstance(p, Undef):
            self.oblige('dereference of uninitialised pointer', FALSE, n)
            raise Dead()
        if not isinstance(p, PtrV): raise VCError('dereference of %r' % (p,))
        if p.base is None:
            self.oblige('null pointer dereference', FALSE, n)
            raise Dead()
        if p.off is None: return p.base
        self.check_index(p.base, p.off, n)
        return p.base.i(p.off)

    def handle_lv(self, h, p):
        """abstract operator named by an integer handle"""
        c = self.alloc(Struct('#Operator', {'handle#': h, 'rows_': app('op.rows', [h], 'I'),
                                            'cols_': app('op.cols', [h], 'I')}), 'op')
        self.assume(band(le(ZERO, app('op.rows', [h], 'I')), le(ZERO, app('op.cols', [h], 'I'))))
        return LV(c)

    def check_index(self, vlv, off, n):
        if vlv.cell not in self.st.store:
            self.oblige('dangling pointer or iterator', FALSE, n)
            raise Dead()
        v = self.read(vlv)
        if isinstance(v, VRef): v = self.st.store[v.cell]
        if not isinstance(v, VecV): raise VCError('index into %r' % (v,))
        self.oblige('index in bounds', band(le(ZERO, off), lt(off, v.size)), n)

    def l_MemberExpr(self, n):
        x = n['inner'][0]
        fid = n.get('referencedMemberDecl')
        if n.get('isArrow'):
            base = self.deref(self.rval(x), n)
        else:
            base = self.lval(x)
        name = n['name']
        v = self.read(base)
        if isinstance(v, Struct) and name in v.f:
            return base.f(name)
        raise VCError('member %s of %r' % (name, v))

    def r_MemberExpr(self, n):
        if n.get('valueCategory') == 'prvalue' and n['inner'][0].get('valueCategory') == 'prvalue' and not n.get('isArrow'):
            v = self.rval(n['inner'][0])
            return v.f[n['name']]
        return self.read(self.l_MemberExpr(n))

    def l_ArraySubscriptExpr(self, n):
        a, i = n['inner']
        if strip_cvref(tstr(a)) in INT_TYPES: a, i = i, a
        p = self.rval(a)
        i = self.rval(i)
        return self.deref(self.padd(p, i), n)

    def padd(self, p, k):
        if not isinstance(p, PtrV): raise VCError('pointer arithmetic on %r' % (p,))
        if p.base is None:
            self.oblige('arithmetic on null pointer', eq(k, ZERO), None)
            return p
        if p.off is None: raise VCError('pointer arithmetic on object pointer')
        return PtrV(p.base, add(p.off, k))

    # operators
    def l_UnaryOperator(self, n):
        op = n['opcode']
        x = n['inner'][0]
        if op == '*': return self.deref(self.rval(x), n)
        if op in ('++', '--') and not n.get('isPostfix'):
            self.incdec(n)
            return self.lval(x)
        if op == '__extension__': return self.lval(x)
        raise VCError('lvalue unary %s' % op)

    def incdec(self, n):
        x = n['inner'][0]
        lv = self.lval(x)
        old = self.undef_fix(self.read(lv), tstr(x))
        d = 1 if n['opcode'] == '++' else -1
        if isinstance(old, PtrV): new = self.padd(old, integer(d))
        else:
            new = add(old, lift(d, old.sort))
            if strip_cvref(tstr(x)) in UNSIGNED and d < 0:
                self.oblige('unsigned value does not wrap', le(ZERO, new), n)
        self.write(lv, new)
        return old, new

    def r_UnaryOperator(self, n):
        op = n['opcode']
        x = n['inner'][0]
        if op in ('++', '--'):
            old, new = self.incdec(n)
            return old if n.get('isPostfix') else new
        if op == '*': return self.read(self.deref(self.rval(x), n))
        if op == '&':
            lv = self.lval(x)
            return self.addr(lv)
        if op == '__extension__': return self.rval(x)
        v = self.rval(x)
        if op == '-': return neg(v)
        if op == '+': return v
        if op == '!': return bnot(self.as_bool(v))
        raise VCError('unary %s' % op)

    def addr(self, lv):
        if lv.path and lv.path[-1][0] == 'i':
            return PtrV(LV(lv.cell, lv.path[:-1]), lv.path[-1][1])
        return PtrV(lv, None)

    def as_bool(self, v):
        if isinstance(v, PtrV): return FALSE if v.base is None else TRUE
        if isinstance(v, Opaque):
            if v.what == 'handle': return ne(v.data, ZERO)
            if isinstance(v.data, T) and v.data.sort == 'B': return v.data
            if v.what == 'fn': return TRUE
            raise VCError('bool of %r' % (v,))
        if not isinstance(v, T): raise VCError('bool of %r' % (v,))
        if v.sort == 'B': return v
        return ne(v, TT.poly_term({}, v.sort))

    def binop(self, op, a, b, node=None, t=''):
        if isinstance(a, (PtrV, Opaque)) or isinstance(b, (PtrV, Opaque)):
            return self.ptrop(op, a, b, node)
        if isinstance(a, Undef) or isinstance(b, Undef):
            raise VCError('arithmetic on undefined value')
        if op in ('==', '!=') and a.sort == 'B' and b.sort == 'B':
            r = eq(a, b)
            return r if op == '==' else bnot(r)
        if a.sort == 'U' or b.sort == 'U':
            if op in ('==', '!='):
                r = eq(a, b)
                return r if op == '==' else bnot(r)
        a, b = self.as_int(a), self.as_int(b)
        if a.sort != b.sort: a, b = lift(a, 'R'), lift(b, 'R')
        if op == '+': return add(a, b)
        if op == '-':
            r = sub(a, b)
            if a.sort == 'I' and t in UNSIGNED:
                self.oblige('unsigned value does not wrap', le(ZERO, r), node)
            return r
        if op == '*': return mul(a, b)
        if op == '/':
            if a.sort == 'I':
                self.oblige('division by zero', ne(b, ZERO), node)
                return idiv(a, b)
            if self.check_div: self.oblige('divisor is not zero', ne(b, real(0)), node)
            return rdiv(a, b)
        if op == '%':
            self.oblige('division by zero', ne(b, ZERO), node)
            return imod(a, b)
        if op == '<': return lt(a, b)
        if op == '<=': return le(a, b)
        if op == '>': return lt(b, a)
        if op == '>=': return le(b, a)
        if op == '==': return eq(a, b)
        if op == '!=': return ne(a, b)
        raise VCError('operator %s' % op)

    def ptrop(self, op, a, b, node):
        if op == '+':
            if isinstance(a, PtrV): return self.padd(a, b)
            return self.padd(b, a)
        if op == '-':
            if isinstance(b, PtrV):
                if a.base is None and b.base is None: return ZERO
                if not a.base.same(b.base): raise VCError('difference of unrelated pointers')
                return sub(a.off, b.off)
            return self.padd(a, neg(b))
        if op in ('==', '!=', '<', '<=', '>', '>='):
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                ha = a.data if isinstance(a, Opaque) else (ZERO if a.base is None else None)
                hb = b.data if isinstance(b, Opaque) else (ZERO if b.base is None else None)
                if ha is None or hb is None: raise VCError('pointer comparison')
                r = eq(ha, hb)
                return r if op == '==' else bnot(r)
            if a.base is None or b.base is None:
                if op in ('==', '!='):
                    r = TRUE if (a.base is None and b.base is None) else FALSE
                    return r if op == '==' else bnot(r)
                if a.base is None and b.base is None:
                    return TRUE if op in ('<=', '>=') else FALSE
            if a.base.same(b.base):
                if a.off is None:
                    r = TRUE
                    return r if op in ('==', '<=', '>=') else FALSE
                return self.binop(op, a.off, b.off)
            if op in ('==', '!=') and a.base.cell != b.base.cell:
                return FALSE if op == '==' else TRUE
            if op in ('==', '!=') and len(a.base.path) != len(b.base.path):
                return FALSE if op == '==' else TRUE
            raise VCError('comparison of unrelated pointers')
        raise VCError('pointer operator %s' % op)

    def shortcut(self, n, isand):
        a = self.as_bool(self.rval(n['inner'][0]))
        if a is (FALSE if isand else TRUE): return a
        st0 = self.st
        self.st = st0.copy()
        self.assume(a if isand else bnot(a), 'b')
        before = dict(self.st.store)
        b = self.as_bool(self.rval(n['inner'][1]))
        changed = any(self.st.store.get(c) is not v for c, v in before.items())
        if not changed:
            # keep facts established while evaluating the right operand, guarded
            extra = self.st.pc[len(st0.pc) + 1:] if a is not TRUE and a is not FALSE else self.st.pc[len(st0.pc):]
            store = self.st.store
            self.st = st0
            self.st.store = store
            g = a if isand else bnot(a)
            for k, t in extra: self.assume(implies(g, t))
            return band(a, b) if isand else bor(a, b)
        s1 = self.st
        s2 = st0
        s2.pc = s2.pc + (('b', bnot(a) if isand else a),)
        c = self.as_bool(a)
        self.st = self.merge([s1, s2])
        return band(a, b) if isand else bor(a, b)

    def r_BinaryOperator(self, n):
        op = n['opcode']
        if op == '&&': return self.shortcut(n, True)
        if op == '||': return self.shortcut(n, False)
        if op == ',':
            self.effect(n['inner'][0])
            return self.rval(n['inner'][1])
        if op == '=':
            self.l_BinaryOperator(n)
            return self.read(self.lval(n['inner'][0]))
        a = self.rval(n['inner'][0])
        b = self.rval(n['inner'][1])
        return self.binop(op, a, b, n, strip_cvref(tstr(n)))

    def l_BinaryOperator(self, n):
        op = n['opcode']
        if op == '=':
            v = self.rval(n['inner'][1])
            lv = self.lval(n['inner'][0])
            self.write(lv, v)
            return lv
        if op == ',':
            self.effect(n['inner'][0])
            return self.lval(n['inner'][1])
        raise VCError('lvalue binary %s' % op)

    def l_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        b = self.rval(n['inner'][1])
        lv = self.lval(n['inner'][0])
        a = self.undef_fix(self.read(lv), tstr(n['inner'][0]))
        ct = n.get('computeResultType', {}).get('qualType', '')
        lt_ = strip_cvref(tstr(n['inner'][0]))
        if isinstance(a, T) and isinstance(b, T) and prim_sort(lt_) == 'I' and prim_sort(ct) == 'R':
            r = trunc(self.binop(op, to_real(a), lift(b, 'R'), n))
        else:
            r = self.binop(op, a, b, n, lt_)
            if isinstance(r, T) and isinstance(a, T) and a.sort == 'R': r = lift(r, 'R')
            if isinstance(r, T) and isinstance(a, T) and a.sort == 'B' and r.sort != 'B': r = ne(r, ZERO)
        self.write(lv, r)
        return lv

    def r_CompoundAssignOperator(self, n):
        return self.read(self.l_CompoundAssignOperator(n))

    def is_assert(self, n):
        """cond ? void(0) : __assert_fail(...)"""
        if n['kind'] != 'ConditionalOperator': return False
        e = n['inner'][2]
        while e['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups'): e = e['inner'][0]
        if e['kind'] != 'CallExpr': return False
        c = e['inner'][0]
        while c['kind'] == 'ImplicitCastExpr': c = c['inner'][0]
        return c['kind'] == 'DeclRefExpr' and c['referencedDecl'].get('name') == '__assert_fail'

    def assert_text(self, n):
        e = n['inner'][2]
        while e['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups'): e = e['inner'][0]
        s = e['inner'][1]
        while s['kind'] == 'ImplicitCastExpr': s = s['inner'][0]
        return s.get('value', '')

    def do_assert(self, n):
        c = self.as_bool(self.rval(n['inner'][0]))
        self.oblige('assert(%s)' % self.assert_text(n).strip('"'), c, n)

    def cond_expr(self, n, ev):
        if self.is_assert(n):
            self.do_assert(n)
            return None
        c = self.as_bool(self.rval(n['inner'][0]))
        if c is TRUE: return ev(n['inner'][1])
        if c is FALSE: return ev(n['inner'][2])
        st0 = self.st
        res = []
        for cc, br in ((c, n['inner'][1]), (bnot(c), n['inner'][2])):
            self.st = st0.copy()
            self.assume(cc, 'b')
            try:
                v = ev(br)
            except Dead:
                continue
            self.st.store['$cv'] = v if not isinstance(v, LV) else RefV(v)
            if v is None: self.st.store['$cv'] = UNDEF
            res.append(self.st)
        if not res: raise Dead()
        self.st = self.merge(res)
        r = self.st.store.pop('$cv')
        if isinstance(r, RefV): r = r.lv
        return r

    def r_ConditionalOperator(self, n): return self.cond_expr(n, self.rval)

    def l_ConditionalOperator(self, n): return self.cond_expr(n, self.lval)

    def effect(self, n):
        """evaluate for side effects"""
        k = n['kind']
        if k in ('ExprWithCleanups', 'ParenExpr'):
            return self.effect(n['inner'][0])
        if k == 'ConditionalOperator' and self.is_assert(n):
            return self.do_assert(n)
        if k in ('CXXFunctionalCastExpr', 'CStyleCastExpr', 'ImplicitCastExpr', 'CXXStaticCastExpr') and n.get('castKind') == 'ToVoid':
            return self.effect(n['inner'][0])
        if n.get('valueCategory') in ('lvalue', 'xvalue'):
            self.lval(n)
        else:
            self.rval(n)

    # ------------------------------------------------------------- construction
    def r_CXXConstructExpr(self, n):
        t = strip_cvref(tstr(n))
        args = n.get('inner', [])
        ct = n.get('ctorType', {}).get('qualType', '')
        return self.construct(t, args, ct, n)

    r_CXXTemporaryObjectExpr = r_CXXConstructExpr

    def l_CXXConstructExpr(self, n): return LV(self.alloc(self.rval(n), 'tmp'))

    def r_InitListExpr(self, n):
        t = tstr(n)
        s = prim_sort(t)
        inner = n.get('inner', [])
        if s: return self.rval(inner[0]) if inner else self.value_init(t)
        st = strip_cvref(t)
        import re
        m = re.match(r'^(.*)\[(\d+)\]$', st)
        if m:
            et = strip_cvref(m.group(1))
            vals = [self.rval(x) for x in inner if x.get('kind') != 'ImplicitValueInitExpr' or True]
            v = VecV(et, integer(int(m.group(2))), self.lifted_tree(et, lambda s: TT.default_of(s)))
            for k, x in enumerate(vals):
                v = VecV(et, v.size, self.lset(v.tree, integer(k), self.inline_value(x)))
            return v
        ve = vec_elem(st)
        if ve is not None:
            v = self.empty_vec(ve)
            for k, x in enumerate(inner):
                v = VecV(ve, integer(k + 1), self.lset(v.tree, integer(k), self.inline_value(self.rval(x))))
            return VRef(self.alloc(v, 'buf'), ve)
        c = self.find_class(st)
        if c is not None:
            f = {}
            for (nm, ft, nd), x in zip(c.fields, inner):
                f[nm] = self.rval(x)
            return Struct(c.qual, f)
        if len(inner) == 1: return self.rval(inner[0])
        raise VCError('init list of %s' % t)

    def construct(self, t, args, ctype, n=None):
        from . import lib
        t = strip_cvref(t)
        s = prim_sort(t)
        if s:
            return self.rval(args[0]) if args else self.value_init(t)
        c = self.find_class(t)
        if c is None:
            return lib.construct(self, t, args, ctype, n)
        f = self.find_ctor(c, ctype, len(args))
        # copy / move without user-provided body
        if f is None or f.body is None or f.defaulted:
            if len(args) == 1 and strip_cvref(tstr(args[0])) in (c.qual, t) or (len(args) == 1 and self.find_class(tstr(args[0])) is c):
                if args[0].get('valueCategory') == 'xvalue':
                    lv = self.lval(args[0])
                    return self.move_out(lv)
                return self.copy_value(self.rval(args[0])) if args[0].get('valueCategory') != 'prvalue' else self.rval(args[0])
            if f is not None and f.inits:
                pass
            elif not args:
                return self.default_construct(c)
            else:
                raise VCError('constructor of %s (%s)' % (t, ctype))
        if len(args) == 1 and n is not None and n.get('elidable') and self.find_class(tstr(args[0])) is c:
            return self.rval(args[0])
        cell = self.alloc(self.blank(c), c.qual)
        self.call_ctor(f, LV(cell), self.bind_args(f, args))
        v = self.st.store.pop(cell)
        self.retarget(cell, v)
        return v

    def retarget(self, cell, v):
        pass

    def blank(self, c):
        f = {}
        for base in c.bases:
            bn = strip_cvref(base)
            bc = self.find_class(bn)
            f['^' + bn] = self.blank(bc) if bc is not None else UNDEF
        for nm, ft, nd in c.fields:
            f[nm] = UNDEF
        return Struct(c.qual, f)

    def default_construct(self, c):
        f = {}
        for base in c.bases:
            bn = strip_cvref(base)
            f['^' + bn] = self.construct(bn, [], 'void ()')
        for nm, ft, nd in c.fields:
            init = [x for x in nd.get('inner', []) if x.get('kind', '').endswith('Expr') or x.get('kind', '').endswith('Literal')]
            if init:
                f[nm] = self.rval(init[-1])
            elif prim_sort(ft) or ptr_elem(ft):
                f[nm] = UNDEF
            else:
                f[nm] = self.construct(strip_cvref(ft), [], 'void ()')
        return Struct(c.qual, f)

    def move_out(self, lv):
        """memberwise move"""
        v = self.read(lv)
        if isinstance(v, VRef):
            self.write(lv, VRef(self.alloc(self.empty_vec(v.et), 'buf'), v.et))
            return v
        if isinstance(v, VecV):
            r = self.copy_value(v)
            self.write(lv, self.empty_vec(v.et))
            return r
        if isinstance(v, Struct):
            f = {}
            for k in v.f:
                f[k] = self.move_out(lv.f(k))
            return Struct(v.cls, f)
        return v

    def find_ctor(self, c, ctype, nargs):
        cands = [m for m in c.methods if m.kind == 'CXXConstructorDecl']
        if ctype:
            key = sig_key(ctype)
            for m in cands:
                if sig_key(m.type) == key:
                    return self.prog.definition(m.id) or m
        cs = [m for m in cands if len(m.params) == nargs]
        if len(cs) == 1: return self.prog.definition(cs[0].id) or cs[0]
        cs = [m for m in cands if len(param_types(m.type)) == nargs]
        if len(cs) == 1: return self.prog.definition(cs[0].id) or cs[0]
        return None

    def call_ctor(self, f, this, args):
        con = self.contract_of(f)
        if con is not None:
            return con(self, f, this, args)
        self.enter(f, this, args)
        try:
            for x in f.inits:
                e = x['inner'][0] if x.get('inner') else None
                if 'anyInit' in x:
                    nm = x['anyInit']['name']
                    if e is None: continue
                    ft = x['anyInit'].get('type', {})
                    v = self.init_value(e, ft.get('desugaredQualType', ft.get('qualType', '')))
                    lv = self.this_lv().f(nm)
                    self.write(lv, v)
                elif 'baseInit' in x:
                    bt = strip_cvref(x['baseInit'].get('desugaredQualType', x['baseInit']['qualType']))
                    obj = self.read(self.this_lv())
                    key = None
                    for k in obj.f:
                        if k.startswith('^') and self.find_class(k[1:]) is self.find_class(bt): key = k
                    if key is None: raise VCError('base init %s' % bt)
                    self.init_base(e, self.this_lv().f(key))
                elif 'delegatingInit' in x:
                    v = self.rval(e)
                    self.write(self.this_lv(), v)
                else:
                    raise VCError('ctor initializer')
            self.run_body(f)
        finally:
            self.leave()

    def init_base(self, e, lv):
        while e['kind'] in ('ExprWithCleanups',): e = e['inner'][0]
        self.write(lv, self.rval(e))

    def init_value(self, e, t):
        k = strip_cvref(t)
        if norm_type(t).endswith('&'):
            return RefV(self.lval(e))
        if e['kind'] == 'ParenListExpr':
            return self.rval(e['inner'][0])
        return self.rval(e)

    # ------------------------------------------------------------- calls
    def callee(self, n):
        c = n['inner'][0]
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'CXXBindTemporaryExpr') : c = c['inner'][0]
        return c

    def param_is_ref(self, p):
        return norm_type(p).endswith('&')

    def bind_args(self, f, args):
        out = []
        ps = f.params
        for i, a in enumerate(args):
            p = ps[i] if i < len(ps) else None
            pt = tstr(p) if p is not None else tstr(a)
            if a['kind'] == 'CXXDefaultArgExpr':
                e = self.default_arg(f, i, a)
                out.append(RefV(self.lval(e)) if self.param_is_ref(pt) else self.rval(e))
                continue
            if self.param_is_ref(pt):
                out.append(RefV(self.lval(a)))
            else:
                v = self.rval(a)
                out.append(v)
        return out

    def default_arg(self, f, i, a):
        if a.get('inner'): return a['inner'][0]
        cands = [f]
        k = f.id
        while k in self.prog.prev:
            k = self.prog.prev[k]
            if k in self.prog.funcs: cands.append(self.prog.funcs[k])
        if f.cls is not None:
            for m in f.cls.methods:
                if m.name == f.name and m.type == f.type: cands.append(m)
        for g in cands:
            if i < len(g.params):
                for e in reversed(g.params[i].get('inner', [])):
                    if 'Expr' in e['kind'] or 'Literal' in e['kind'] or e['kind'].endswith('Operator'):
                        return e
        raise VCError('default argument %d of %s' % (i, f.qual))

    def contract_of(self, f):
        if not self.contracts or (self.frames and False): return None
        c = self.contracts.get(fkey(f))
        if c is None: return None
        if self.no_contract is not None and fkey(f) == self.no_contract and not self.frames: return None
        self.used_contracts.add(fkey(f))
        return c

    no_contract = None
    scratch = frozenset()       # names of buffers whose contents the contract does not speak about: loops forget them

    def enter(self, f, this, args):
        if len(self.frames) > 40: raise VCError('recursion')
        fr = Frame(f, None)
        if this is not None:
            fr.this = self.alloc(RefV(this), 'this')
        for p, v in zip(f.params, args):
            if isinstance(v, RefV) and not self.param_is_ref(tstr(p)):
                v = self.read(v.lv)
            fr.env[p['id']] = self.alloc(v, p.get('name', 'arg'))
        self.frames.append(fr)
        self.inlined.add(f.qual + ' : ' + norm_type(f.type))

    def leave(self):
        self.end_locals(self.frames[-1])
        self.frames.pop()

    def end_locals(self, fr, r=None):
        """the parameters and local variables of a returning function end their life"""
        if self.st is None: return
        keep = r.lv.cell if isinstance(r, RefV) else r.cell if isinstance(r, LV) else r.base.cell if isinstance(r, PtrV) and r.base is not None else None
        for c in list(fr.env.values()) + [fr.this]:
            if c != keep: self.st.store.pop(c, None)

    def run_body(self, f):
        outs = self.exec_stmt(f.body)
        sts = list(outs.get('ret', []))
        if self.st is not None: sts.append(self.st)
        if outs.get('brk') or outs.get('cont'): raise VCError('stray break')
        if not sts: raise Dead()
        self.st = self.merge_or_fork(sts)

    def merge_or_fork(self, sts):
        try:
            return self.merge(sts)
        except NoMerge as e:
            self.fork(str(e))

    def fork(self, why):
        if self.inloop or self.dry:
            raise VCError('states cannot be merged inside a loop: %s' % why)
        for k in self.ifkeys:
            if k not in self.forced:
                raise Fork(k)
        raise VCError('states cannot be merged: %s' % why)

    def call(self, f, this, args):
        """f: Func with definition; this LV or None; args list of values / RefV"""
        con = self.contract_of(f)
        if con is not None:
            return con(self, f, this, args)
        if this is not None and f.name in ('Mult', 'MultAT'):
            o = self.read(this)
            if isinstance(o, Struct) and 'handle#' in o.f:
                from . import extern
                r = extern.handle_apply(self, f, this, args)
                if r is not NotImplemented: return r
        if f.body is None:
            raise VCError('no body for %s' % f)
        mark = len(self.frames)
        self.enter(f, this, args)
        try:
            self.st.store.pop('$ret', None)
            self.run_body(f)
            r = self.st.store.pop('$ret', None)
            self.end_locals(self.frames[mark], r)
        finally:
            del self.frames[mark:]
        return r

    def ret_is_ref(self, f):
        return norm_type(f.ret_type()).endswith('&')

    def invoke(self, n, f, this, args):
        r = self.call(f, this, args)
        return r

    def r_CallExpr(self, n):
        r = self.do_call(n)
        if isinstance(r, RefV): return self.read(r.lv)
        if isinstance(r, LV): return self.read(r)
        return r

    def l_CallExpr(self, n):
        r = self.do_call(n)
        if isinstance(r, RefV): return r.lv
        if isinstance(r, LV): return r
        return LV(self.alloc(r, 'tmp'))

    r_CXXMemberCallExpr = r_CXXOperatorCallExpr = r_CallExpr
    l_CXXMemberCallExpr = l_CXXOperatorCallExpr = l_CallExpr

    def do_call(self, n):
        from . import lib
        k = n['kind']
        c = self.callee(n)
        args = n['inner'][1:]
        if k == 'CXXMemberCallExpr':
            if c['kind'] != 'MemberExpr': raise VCError('member call through %s' % c['kind'])
            fid = c.get('referencedMemberDecl')
            f = self.prog.definition(fid)
            objx = c['inner'][0]
            if f is not None and f.kind != 'CXXDestructorDecl':
                if c.get('isArrow'):
                    this = self.deref(self.rval(objx), n)
                else:
                    this = self.lval(objx)
                f, this = self.dispatch(f, this, c)
                if f is None:
                    return this
                return self.invoke(n, f, this, self.bind_args(f, args))
            return lib.member_call(self, n, c, objx, args)
        if c['kind'] == 'DeclRefExpr':
            d = c['referencedDecl']
            f = self.prog.definition(d['id'])
            if f is not None and (f.body is not None or self.contract_of(f) is not None or f.defaulted):
                if k == 'CXXOperatorCallExpr' and f.cls is not None and f.kind == 'CXXMethodDecl' and not f.static:
                    this = self.lval(args[0])
                    if f.body is None:
                        return self.default_assign(f, this, args[1])
                    f, this = self.dispatch(f, this, None)
                    return self.invoke(n, f, this, self.bind_args(f, args[1:]))
                return self.invoke(n, f, None, self.bind_args(f, args))
            return lib.free_call(self, n, d.get('name'), d, args, k)
        # call through a lambda or function object
        if k == 'CXXOperatorCallExpr': raise VCError('operator call')
        while c['kind'] in ('UnaryOperator', 'ImplicitCastExpr', 'ParenExpr') and c.get('opcode', '*') == '*': c = c['inner'][0]
        v = self.rval(c)
        if isinstance(v, FuncV):
            return self.call_lambda(v, [self.rval(a) for a in args])
        if isinstance(v, Opaque) and v.what == 'fn':
            f = self.prog.definition(v.data['id'])
            if f is not None and f.body is not None:
                r = self.invoke(n, f, None, self.bind_args(f, args))
                if self.name_results and isinstance(r, T):
                    t, r = r, fresh('fn', r.sort)
                    self.st.pc = self.st.pc + (('f', eq(r, t)),)
                return r
        if isinstance(v, PtrV) and v.base is None:
            self.oblige('call through a null function pointer', FALSE, n)
        raise VCError('indirect call')

    def default_assign(self, f, this, argx):
        if argx.get('valueCategory') == 'xvalue':
            v = self.move_out(self.lval(argx))
        elif argx.get('valueCategory') == 'prvalue':
            v = self.rval(argx)
        else:
            v = self.copy_value(self.read(self.lval(argx)))
        self.write(this, v)
        return RefV(this)

    def complete(self, lv):
        p = lv.path
        while p and p[-1][0] == 'f' and isinstance(p[-1][1], str) and p[-1][1].startswith('^'):
            p = p[:-1]
        return LV(lv.cell, p)

    def dispatch(self, f, this, mexpr):
        """virtual dispatch on the dynamic type of the object"""
        v = self.read(this)
        if isinstance(v, Struct) and 'handle#' in v.f:
            from . import lib
            return f, this
        if not f.virtual: return f, this
        if mexpr is not None and is_qualified(mexpr): return f, this
        full = self.complete(this)
        obj = self.read(full)
        if not isinstance(obj, Struct): return f, this
        # walk from most derived to the static class
        c = self.find_class(obj.cls)
        path = full
        while c is not None:
            for m in c.methods:
                if m.name == f.name and m.kind == 'CXXMethodDecl' and m.virtual and sig_key(m.type) == sig_key(f.type):
                    d = self.prog.definition(m.id)
                    if d is not None and (d.body is not None or self.contract_of(d)):
                        return d, path
            nxt = None
            o = self.read(path)
            for b in c.bases:
                bn = strip_cvref(b)
                for k in o.f:
                    if k.startswith('^') and self.find_class(k[1:]) is self.find_class(bn):
                        nxt = (self.find_class(bn), path.f(k))
            if nxt is None: break
            c, path = nxt
        return f, this

    # lambdas
    def r_LambdaExpr(self, n):
        rec = n['inner'][0]
        caps = {}
        op = None
        for m in rec.get('inner', []):
            if m.get('kind') == 'CXXMethodDecl' and m.get('name') == 'operator()':
                op = m
            if m.get('kind') == 'FunctionTemplateDecl':
                for x in m.get('inner', []):
                    if x.get('kind') == 'CXXMethodDecl': op = x
        return FuncV(op, dict(self.frames[-1].env), self.frames[-1].this)

    def call_lambda(self, fv, args, reflv=None):
        f = Func(fv.node, 'lambda', None, [])
        if f.body is None:
            raise VCError('generic lambda')
        fr = Frame(f, fv.this)
        fr.env = dict(fv.caps)
        for p, v in zip(f.params, args):
            if self.param_is_ref(tstr(p)) and not isinstance(v, RefV):
                v = RefV(v) if isinstance(v, LV) else RefV(LV(self.alloc(v, 'tmp')))
            elif not self.param_is_ref(tstr(p)) and isinstance(v, RefV):
                v = self.copy_value(self.read(v.lv))
            fr.env[p['id']] = self.alloc(v, p.get('name', 'arg'))
        mark = len(self.frames)
        self.frames.append(fr)
        try:
            self.st.store.pop('$ret', None)
            self.run_body(f)
            r = self.st.store.pop('$ret', None)
        finally:
            del self.frames[mark:]
        if isinstance(r, RefV): r = self.read(r.lv)
        return r

    # ------------------------------------------------------------- statements
    def exec_stmt(self, n):
        k = n['kind']
        m = getattr(self, 's_' + k, None)
        try:
            if m is not None:
                return m(n)
            self.effect(n)
            return {}
        except Dead:
            self.st = None
            return {}

    def s_CompoundStmt(self, n):
        outs = {}
        mark = []
        for s in n.get('inner', []):
            if self.st is None: break
            o = self.exec_stmt(s)
            for k, v in o.items():
                if v: outs.setdefault(k, []).extend(v)
        return outs

    def s_NullStmt(self, n): return {}

    def s_DeclStmt(self, n):
        for d in n.get('inner', []):
            if d['kind'] != 'VarDecl':
                continue
            self.declare(d)
        return {}

    def declare(self, d):
        t = tstr(d)
        init = [x for x in d.get('inner', []) if not x.get('kind', '').endswith(('Attr', 'Comment'))]
        if d.get('storageClass') == 'static': raise VCError('static local')
        if norm_type(t).endswith('&'):
            lv = self.lval(init[-1])
            self.frames[-1].env[d['id']] = self.alloc(RefV(lv), d.get('name', 'ref'))
            return
        if init and d.get('init'):
            v = self.rval(init[-1])
            if isinstance(v, VecV) and not strip_cvref(t).endswith(']'): v = self.copy_value(v)
        elif prim_sort(t) or ptr_elem(t):
            v = UNDEF
        else:
            st = strip_cvref(t)
            if st.endswith(']'):
                import re
                mm = re.match(r'^(.*)\[(\d+)\]$', st)
                et = strip_cvref(mm.group(1))
                v = VecV(et, integer(int(mm.group(2))), self.lifted_tree(et, lambda s: fresh('arr', s)))
            else:
                v = self.construct(st, [], 'void ()')
        if isinstance(v, T):
            s = prim_sort(t)
            if s == 'R' and v.sort == 'I': v = to_real(v)
        self.frames[-1].env[d['id']] = self.alloc(v, d.get('name', 'v'))

    def s_ReturnStmt(self, n):
        if n.get('inner'):
            e = n['inner'][0]
            fr = self.frames[-1].func
            rt = fr.ret_type() if fr is not None else ''
            if norm_type(rt).endswith('&'):
                self.st.store['$ret'] = RefV(self.lval(e))
            else:
                v = self.rval(e)
                if v is None: v = UNDEF
                self.st.store['$ret'] = v
        s = self.st
        self.st = None
        return {'ret': [s]}

    def s_BreakStmt(self, n):
        s, self.st = self.st, None
        return {'brk': [s]}

    def s_ContinueStmt(self, n):
        s, self.st = self.st, None
        return {'cont': [s]}

    def s_CXXThrowExpr(self, n): return self.do_throw(n)

    def r_CXXThrowExpr(self, n):
        self.do_throw(n)
        raise Dead()

    allow_throw = False

    def do_throw(self, n):
        if not self.dry:
            self.throws.append(self.st)
        if not self.allow_throw:
            self.oblige('throw is unreachable', FALSE, n)
        self.st = None
        return {}

    def s_CXXTryStmt(self, n):
        raise VCError('try block')

    def s_ExprWithCleanups(self, n):
        if n['inner'][0]['kind'] == 'CXXThrowExpr':
            return self.do_throw(n)
        self.effect(n)
        return {}

    def split(self, c, thunk1, thunk2):
        """run both branches; returns outs, sets self.st"""
        if c is TRUE: return thunk1()
        if c is FALSE: return thunk2()
        self.branchctr += 1
        key = self.branchctr
        top = not self.inloop and not self.dry
        if top and key in self.forced:
            side = self.forced[key]
            self.assume(c if side else bnot(c), 'b')
            return (thunk1 if side else thunk2)()
        if top: self.ifkeys.append(key)
        st0 = self.st
        outs = {}
        ends = []
        for cc, th in ((c, thunk1), (bnot(c), thunk2)):
            self.st = st0.copy()
            self.assume(cc, 'b')
            if self.quick_false(cc):
                self.st = None
                continue
            try:
                o = th()
            except Dead:
                o = {}
                self.st = None
            for k, v in o.items(): outs.setdefault(k, []).extend(v)
            if self.st is not None: ends.append(self.st)
        if not ends:
            self.st = None
        else:
            try:
                self.st = self.merge(ends)
            except NoMerge as e:
                if self.inloop or self.dry: raise VCError('cannot merge branches in loop: %s' % e)
                if top and key not in self.forced: raise Fork(key)
                raise
        return outs

    def quick_false(self, c):
        """syntactic contradiction of the new branch condition with the path"""
        nc = bnot(c)
        for k, t in self.st.pc[:-1]:
            if t is nc: return True
            if t.op == 'and' and any(x is nc for x in t.args): return True
        return False

    def s_IfStmt(self, n):
        inner = [x for x in n['inner']]
        if n.get('hasInit') or n.get('hasVar'): raise VCError('if with declaration')
        c = self.as_bool(self.rval(inner[0]))
        th = inner[1]
        el = inner[2] if n.get('hasElse') and len(inner) > 2 else None
        return self.split(c, lambda: self.exec_stmt(th), lambda: self.exec_stmt(el) if el is not None else {})

    def s_ForStmt(self, n):
        # inner: init, condvar, cond, inc, body
        init, cv, cond, inc, body = (n['inner'] + [{}] * 5)[:5]
        if cv.get('kind'): raise VCError('condition variable')
        if init.get('kind'):
            o = self.exec_stmt(init)
        return self.loop(n,
                         (lambda: self.as_bool(self.rval(cond))) if cond.get('kind') else (lambda: TRUE),
                         lambda: self.exec_stmt(body),
                         (lambda: self.effect(inc)) if inc.get('kind') else (lambda: None))

    def s_WhileStmt(self, n):
        inner = n['inner']
        cond, body = inner[0], inner[-1]
        if len(inner) > 2: raise VCError('condition variable')
        return self.loop(n, lambda: self.as_bool(self.rval(cond)), lambda: self.exec_stmt(body), lambda: None)

    def s_DoStmt(self, n):
        body, cond = n['inner']
        if self.spec_inv:
            # the contract's invariant holds at the head of the body:  while (true) { body; if (!cond) break; }
            def whole():
                outs = self.exec_stmt(body)
                if outs.get('cont'):
                    self.st = self.merge_or_fork([s for s in [self.st] + outs.pop('cont') if s is not None])
                if self.st is None: return outs
                c = self.as_bool(self.rval(cond))

                def stop():
                    s, self.st = self.st, None
                    return {'brk': [s]}
                for k, v in self.split(c, lambda: {}, stop).items(): outs.setdefault(k, []).extend(v)
                return outs
            return self.loop(n, lambda: TRUE, whole, lambda: None)
        first = self.exec_stmt(body)
        outs = {}
        brk = first.pop('brk', [])
        for s in first.pop('cont', []):
            self.st = s if self.st is None else self.merge_or_fork([self.st, s])
        for k, v in first.items(): outs.setdefault(k, []).extend(v)
        if self.st is not None:
            o = self.loop(n, lambda: self.as_bool(self.rval(cond)), lambda: self.exec_stmt(body), lambda: None)
            for k, v in o.items(): outs.setdefault(k, []).extend(v)
        if brk:
            self.st = self.merge_or_fork([s for s in [self.st] + brk if s is not None])
        return outs

    def s_CXXForRangeStmt(self, n):
        inner = n['inner']
        # init, range, begin, end, cond, inc, loopvar, body
        parts = [x for x in inner]
        if len(parts) == 8:
            init, rng, beg, end, cond, inc, lvar, body = parts
        else:
            raise VCError('range for shape %d' % len(parts))
        if init.get('kind'): self.exec_stmt(init)
        for d in (rng, beg, end):
            self.exec_stmt(d)
        def body_fn():
            self.exec_stmt(lvar)
            return self.exec_stmt(body)
        return self.loop(n, lambda: self.as_bool(self.rval(cond)), body_fn, lambda: self.effect(inc))

    def loop(self, n, cond, body, inc, label=None):
        from . import loops
        return loops.run_loop(self, n, cond, body, inc)

    # sizeof etc
    def r_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') == 'sizeof':
            t = n.get('argType', {}).get('qualType')
            if t is None and n.get('inner'): t = tstr(n['inner'][0])
            return app('sizeof', [tok(('type', strip_cvref(t or '?')), 'U')], 'I')
        raise VCError('type trait')


def buffer_cells(store):
    """cells that are vector buffers (reached only through VRef)"""
    out = set()

    def go(v):
        if isinstance(v, VRef):
            out.add(v.cell)
        elif isinstance(v, Struct):
            for x in v.f.values(): go(x)
    for v in store.values(): go(v)
    # VecV cells that are not referenced are dead buffers
    for c, v in store.items():
        if isinstance(v, VecV): out.add(c)
    return out


def param_types(t):
    """parameter type list of a function type string"""
    t = t.strip()
    d = 0
    # find the parameter list: last '(' group at depth 0 before trailing qualifiers
    # scan from the left: first '(' at depth 0 outside <>
    i = None
    for k, ch in enumerate(t):
        if ch == '<': d += 1
        elif ch == '>': d -= 1
        elif ch == '(' and d == 0:
            i = k
            break
    if i is None: return []
    d = 0
    for k in range(i, len(t)):
        if t[k] in '(<': d += 1
        elif t[k] in ')>':
            d -= 1
            if d == 0:
                j = k
                break
    inner = t[i + 1:j]
    out, d, cur = [], 0, ''
    for ch in inner:
        if ch in '<(': d += 1
        if ch in '>)': d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else: cur += ch
    if cur.strip() and cur.strip() != 'void': out.append(cur.strip())
    return out


def sig_key(t):
    ps = []
    for p in param_types(t):
        p = norm_type(p).replace('std::', '')
        ps.append(p)
    tail = t[t.rindex(')') + 1:] if ')' in t else ''
    # noexcept(...) may contain parens; const-ness
    return (tuple(ps), ' const' in t.split(')')[-1] or t.rstrip().endswith('const') or ') const' in t)


def fkey(f):
    return f.qual + '|' + ','.join(norm_type(p) for p in param_types(f.type)) + ('|const' if ') const' in f.type else '')


def is_qualified(m):
    """MemberExpr written with a nested-name qualifier (Base::f()) on implicit this"""
    x = m['inner'][0]
    while x['kind'] in ('ImplicitCastExpr',): x = x['inner'][0]
    r = m.get('range', {})
    b, e = r.get('begin', {}), r.get('end', {})
    if x['kind'] == 'CXXThisExpr' and x.get('implicit'):
        return b.get('offset') is not None and e.get('offset') is not None and b['offset'] != e['offset']
    return False


def node_line(n):
    for key in ('loc', 'range'):
        l = n.get(key)
        if not l: continue
        if key == 'range': l = l.get('begin', {})
        if 'expansionLoc' in l: l = l['expansionLoc']
        if 'line' in l: return l['line']
    return ''
