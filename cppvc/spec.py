"""Contracts: builders for symbolic operands, pre/postconditions, frames, and the runner."""
import os, sys, time, traceback, json, signal, pickle, select as _select
from .terms import *
from . import terms as TT
from .values import *
from . import exec as X
from . import smt, loops, extern
from .exec import Exec, VCError, Fork, Dead, Obl, State
from .frontend import norm_type, strip_cvref, Program

VIEW = 'VectorView<double>'
CONTRACTS = {}


def contract(prop, name=None, slow=False, **kw):
    def w(f):
        CONTRACTS.setdefault(prop, []).append((name or f.__name__, f, kw))
        return f
    return w


class Rec(object):
    """named terms of one object"""
    def __init__(self, **kw): self.__dict__.update(kw)


def rng(i, lo, hi): return band(le(lo, i), lt(i, hi))


def all_(f, lo, hi): return forall_range(f, lo, hi)


def valid_csr(a):
    """class invariant of SparseMatrix, as facts (list)"""
    p, ix = a.p, a.ix
    return [le(ZERO, a.r), le(ZERO, a.c), eq(a.psize, add(a.r, ONE)), eq(a.nnz, a.dsize),
            le(ZERO, a.nnz), eq(select(p, ZERO), ZERO), eq(select(p, a.r), a.nnz),
            all_(lambda i: all_(lambda j: le(select(p, i), select(p, j)), i, add(a.r, ONE)), ZERO, add(a.r, ONE)),
            all_(lambda i: band(le(ZERO, select(p, i)), le(select(p, i), a.nnz)), ZERO, add(a.r, ONE)),
            all_(lambda k: band(le(ZERO, select(ix, k)), lt(select(ix, k), a.c)), ZERO, a.nnz)]


def valid_csr_post(a):
    """the invariant in obligation form: (name, term or (f, lo, hi))"""
    p, ix = a.p, a.ix
    return [('rows, cols >= 0', band(le(ZERO, a.r), le(ZERO, a.c))),
            ('indptr has rows+1 entries', eq(a.psize, add(a.r, ONE))),
            ('indices and data have the same length', eq(a.nnz, a.dsize)),
            ('indptr starts at 0', eq(select(p, ZERO), ZERO)),
            ('indptr ends at nnz', eq(select(p, a.r), a.nnz)),
            ('indptr is monotone', (lambda i: le(select(p, i), select(p, add(i, ONE))), ZERO, a.r)),
            ('column indices in range', (lambda k: band(le(ZERO, select(ix, k)), lt(select(ix, k), a.c)), ZERO, a.nnz))]


class Ctx(object):
    def __init__(self, prog, ex, name):
        self.P, self.ex, self.name = prog, ex, name
        self.funcs = []
        self.roots = []
        self.pre_cells = None
        self.covers = []

    # ---------------------------------------------------------- operands
    def assume(self, *fs):
        for f in fs: self.ex.assume(f)

    def int_(self, name, lo=None, hi=None):
        v = var(name, 'I')
        if lo is not None: self.assume(le(lo, v))
        if hi is not None: self.assume(lt(v, hi))
        return v

    def real_(self, name): return var(name, 'R')

    def buf(self, et, name, size):
        cnt = [0]

        def mkl(sort):
            cnt[0] += 1
            return var(name + ('' if cnt[0] == 1 else '.%d' % cnt[0]), sort)
        return self.ex.alloc(VecV(et, lift(size), self.ex.lifted_tree(et, mkl)), name)

    def vec(self, et, name, size=None, fill=None):
        """std::vector<et> variable; size None: arbitrary; fill: every element has this value"""
        if size is None:
            size = self.int_(name + '.size', ZERO)
        b = self.buf(et, name, size)
        if fill is not None:
            v = self.ex.st.store[b]
            self.ex.st.store[b] = VecV(v.et, v.size, lam(lambda i: fill))
        cell = self.ex.alloc(VRef(b, et), name + '$v')
        return self.handle(cell, b)

    def handle(self, cell, b=None):
        h = Rec(cell=cell, lv=LV(cell))
        h.ref = RefV(h.lv)
        if b is not None:
            v = self.ex.st.store[b]
            h.size, h.el, h.buf = v.size, v.tree, b
        return h

    def view(self, name, n, T='double', base=None, off=ZERO, const=False):
        """VectorView<T> over a fresh buffer of exactly n elements (or into `base` at off)"""
        if base is None:
            base = self.buf(T, name, n)
        cls = 'VectorView<%s>' % T
        st = Struct(cls, {})
        f = {}
        for nm, t, nd in self.P.classes[cls].fields:
            f[nm] = PtrV(LV(base), off) if t.strip().endswith('*') else lift(n)
        cell = self.ex.alloc(Struct(cls, f), name + '$view')
        v = self.ex.st.store[base]
        return Rec(cell=cell, lv=LV(cell), ref=RefV(LV(cell)), buf=base, size=lift(n), off=off, el=v.tree, val=Struct(cls, f))

    def vector(self, name, n, T='double'):
        """Vector<T>: owns its storage, view points into it"""
        cls = 'Vector<%s>' % T
        b = self.buf(T, name, n)
        c = self.P.classes[cls]
        f = {}
        for bs in c.bases:
            vc = 'VectorView<%s>' % T
            vf = {}
            for nm, t, nd in self.P.classes[vc].fields:
                vf[nm] = PtrV(LV(b), ZERO) if t.strip().endswith('*') else lift(n)
            f['^' + norm_type(strip_cvref(bs))] = Struct(vc, vf)
        for nm, t, nd in c.fields:
            f[nm] = VRef(b, T)
        cell = self.ex.alloc(Struct(cls, f), name + '$vec')
        v = self.ex.st.store[b]
        return Rec(cell=cell, lv=LV(cell), ref=RefV(LV(cell)), buf=b, size=lift(n), el=v.tree)

    def obj(self, cls, name):
        v = self.ex.symbolic(cls, name)
        cell = self.ex.alloc(v, name)
        return cell

    def sparse(self, name, T='double', rows=None, cols=None, valid=True):
        cls = 'SparseMatrix<%s>' % T
        cell = self.obj(cls, name)
        st = self.ex.st.store
        v = st[cell]
        op = v.f['^Operator']
        if rows is not None or cols is not None:
            op = Struct(op.cls, dict(op.f, rows_=rows if rows is not None else op.f['rows_'],
                                     cols_=cols if cols is not None else op.f['cols_']))
            st[cell] = v.set('^Operator', op)
        a = self.csr(st[cell])
        a.cell, a.lv, a.ref = cell, LV(cell), RefV(LV(cell))
        if valid: self.assume(*valid_csr(a))
        return a

    def csr(self, v):
        """terms of a SparseMatrix value in the current state"""
        if isinstance(v, (LV,)): v = self.ex.read(v)
        if isinstance(v, RefV): v = self.ex.read(v.lv)
        ip, ix, dt = [self.contents(v.f[k]) for k in ('indptr_', 'indices_', 'data_')]
        op = v.f['^Operator']
        return Rec(r=op.f['rows_'], c=op.f['cols_'], p=ip.tree, psize=ip.size, ix=ix.tree, nnz=ix.size,
                   dt=dt.tree, dsize=dt.size, bufs=[x.cell for x in (v.f['indptr_'], v.f['indices_'], v.f['data_']) if isinstance(x, VRef)])

    def contents(self, v):
        if isinstance(v, LV): v = self.ex.read(v)
        if isinstance(v, RefV): v = self.ex.read(v.lv)
        if isinstance(v, VRef):
            if v.cell not in self.ex.st.store: raise VCError('dangling buffer in result')
            return self.ex.st.store[v.cell]
        return v

    def now(self, rec):
        """current contents of the buffer a record was created over"""
        v = self.contents(self.ex.st.store[rec.cell]) if isinstance(self.ex.st.store[rec.cell], VRef) else None
        if v is not None: return v
        return self.ex.st.store[rec.buf]

    def dense(self, name, rows=None, cols=None, valid=True):
        cell = self.obj('DenseMatrix', name)
        st = self.ex.st.store
        v = st[cell]
        op = v.f['^Operator']
        if rows is not None or cols is not None:
            op = Struct(op.cls, dict(op.f, rows_=rows if rows is not None else op.f['rows_'],
                                     cols_=cols if cols is not None else op.f['cols_']))
            st[cell] = v.set('^Operator', op)
        d = self.dn(st[cell])
        d.cell, d.lv, d.ref = cell, LV(cell), RefV(LV(cell))
        if valid:
            # size is rows*cols by construction
            b = st[cell].f['data_'].cell
            st[b] = VecV('double', mul(d.r, d.c), st[b].tree)
            d = self.dn(st[cell])
            d.cell, d.lv, d.ref = cell, LV(cell), RefV(LV(cell))
            self.assume(le(ZERO, d.r), le(ZERO, d.c), le(ZERO, mul(d.r, d.c)))
        d.buf = st[cell].f['data_'].cell
        return d

    def dn(self, v):
        if isinstance(v, LV): v = self.ex.read(v)
        if isinstance(v, RefV): v = self.ex.read(v.lv)
        dt = self.contents(v.f['data_'])
        op = v.f['^Operator']
        r = Rec(r=op.f['rows_'], c=op.f['cols_'], dt=dt.tree, size=dt.size)
        r.at = lambda i, j: select(r.dt, add(i, mul(j, r.r)))
        return r

    def operator(self, name, rows=None, cols=None):
        """an arbitrary linear Operator: its entries are op.m(handle, i, k)"""
        h = var(name + '.handle', 'I')
        r, k = app('op.rows', [h], 'I'), app('op.cols', [h], 'I')
        self.assume(ne(h, ZERO), le(ZERO, r), le(ZERO, k))
        if rows is not None: self.assume(eq(r, rows))
        if cols is not None: self.assume(eq(k, cols))
        cell = self.ex.alloc(Struct('#Operator', {'handle#': h, 'rows_': r, 'cols_': k}), name)
        return Rec(cell=cell, lv=LV(cell), ref=RefV(LV(cell)), r=r, c=k, h=h)

    # ---------------------------------------------------------- calling
    def find(self, qual, nparams=None, sig=None, const=None):
        fs = [f for f in self.P.find(qual, nparams, sig) if f.body is not None]
        if const is not None:
            fs = [f for f in fs if norm_type(f.type).rstrip().endswith('const') == const]
        if not fs: raise VCError('function under contract not found: %s %s' % (qual, sig or ''))
        if len(fs) > 1:
            raise VCError('ambiguous: %s' % [norm_type(f.type) for f in fs])
        return fs[0]

    def start(self):
        """call when the precondition is complete: remembers the pre-state"""
        self.pre = dict(self.ex.st.store)
        self.covers.append(('precondition', self.ex.facts()))

    def call(self, qual, this=None, args=(), nparams=None, sig=None, const=None):
        f = self.find(qual, len(args) if nparams is None else nparams, sig, const)
        self.funcs.append(f.qual + ' : ' + norm_type(f.type))
        if not hasattr(self, 'pre'): self.start()
        a = [x.val if isinstance(x, Rec) and hasattr(x, 'val') and not hasattr(x, 'byref') else (x.ref if isinstance(x, Rec) else x) for x in args]
        # reference parameters get the lvalue
        aa = []
        for p, x, v in zip(f.params, args, a):
            t = norm_type(p['type'].get('desugaredQualType', p['type']['qualType']))
            if isinstance(x, Rec) and t.endswith('&'): v = x.ref
            aa.append(v)
        th = this.lv if isinstance(this, Rec) else this
        return self.ex.call(f, th, aa)

    def result_lv(self, v, name='result'):
        if isinstance(v, RefV): return v.lv
        return LV(self.ex.alloc(v, name))

    # ---------------------------------------------------------- posts
    def settle(self):
        """conditions of the final state that its facts decide are decided (values and facts simplify)"""
        from .loops import assume_in
        ex = self.ex
        conds, seen = [], set()
        for v in list(ex.st.store.values()):
            for p, t in leaves(v):
                for q in subterms(t, lambda x: x.op == 'ite' and x.args[0].loose == 0):
                    if q.args[0].uid not in seen:
                        seen.add(q.args[0].uid)
                        conds.append(q.args[0])
        cnt = {}
        for k, t in ex.st.pc:
            for q in (t.args if t.op == 'or' else ()):
                if q.loose == 0 and q.op in ('le0', 'lt0', 'eq0', 'and'): cnt.setdefault(q, []).append(t)
        conds = conds[:24] + [q for q in cnt if len(cnt[q]) > 3 and q.uid not in seen][:12]
        for q in conds:
            val = True if ex.implied(q, 1500) else False if ex.implied(bnot(q), 1500) else None
            if val is None: continue
            memo = {}
            for cell, v in list(ex.st.store.items()):
                ex.st.store[cell] = map_leaves_p(v, lambda p, t: assume_in(t, q, val, memo))
            ex.st.pc = tuple((k, assume_in(t, q, val, memo)) for k, t in ex.st.pc) + (('f', q if val else bnot(q)),)

    def ensure(self, name, goal):
        ex = self.ex
        if goal is TRUE: goal = le(ZERO, ZERO)
        o = Obl('ensures ' + name, self.funcs[-1] if self.funcs else '', ex.facts(), goal, self.name)
        ex.obls.append(o)

    def ensure_all(self, name, f, lo, hi, lo2=None, hi2=None):
        """for all lo <= i < hi (and optionally lo2 <= j < hi2)"""
        ex = self.ex
        i = fresh('i', 'I')
        hs = ex.facts() + [rng(i, lo, hi)]
        if hi2 is not None:
            j = fresh('j', 'I')
            h2 = hi2(i) if callable(hi2) else hi2
            l2 = lo2(i) if callable(lo2) else lo2
            hs = hs + [rng(j, l2, h2)]
            g = f(i, j)
        else:
            g = f(i)
            if lo is not None: g = open_(TT._in_range(close(g, i), lo, hi), i)
        ex.obls.append(Obl('ensures ' + name, self.funcs[-1] if self.funcs else '', hs, g, self.name))

    def lemma(self, name, goal):
        """proved once, then available to later obligations"""
        self.ensure('lemma ' + name, goal)
        self.ex.assume(goal)

    def ensure_csr(self, a, what='result'):
        for nm, g in valid_csr_post(a):
            if isinstance(g, tuple): self.ensure_all('%s valid CSR: %s' % (what, nm), g[0], g[1], g[2])
            else: self.ensure('%s valid CSR: %s' % (what, nm), g)

    def frame(self, modifies=()):
        """every cell of the pre-state other than those in `modifies` is unchanged"""
        ok = set(modifies)
        now = self.ex.st.store
        for c, v in sorted(self.pre.items(), key=lambda x: str(x[0])):
            if c in ok: continue
            nm = self.ex.cellname.get(c, c)
            if c not in now:
                self.ensure('%s is not modified (still allocated)' % nm, FALSE)
                continue
            g = self.same_value(v, now[c])
            self.ensure('%s is not modified' % nm, g)

    def same_value(self, a, b):
        if a is b: return TRUE
        if type(a) is not type(b): return FALSE
        if isinstance(a, T): return eq(a, b) if a.sort == b.sort else FALSE
        if isinstance(a, Struct):
            if a.cls != b.cls: return FALSE
            return band(*[self.same_value(a.f[k], b.f[k]) for k in a.f])
        if isinstance(a, VecV):
            return band(eq(a.size, b.size), self.same_tree(a.tree, b.tree, a.size))
        if isinstance(a, VRef): return TRUE if a.cell == b.cell else FALSE
        if isinstance(a, PtrV):
            if a.base is None or b.base is None: return TRUE if a.base is b.base else FALSE
            if not a.base.same(b.base): return FALSE
            if a.off is None or b.off is None: return TRUE if a.off is b.off else FALSE
            return eq(a.off, b.off)
        if isinstance(a, RefV): return TRUE if a.lv.same(b.lv) else FALSE
        return TRUE if a == b else FALSE

    def same_tree(self, a, b, n):
        la = dict(leaves(a))
        lb = dict(leaves(b))
        if la.keys() != lb.keys(): return FALSE
        gs = []
        for k in la:
            if la[k] is lb[k]: continue
            gs.append(forall_range(lambda i: eq(select(la[k], i), select(lb[k], i)), ZERO, n))
        return band(*gs)


# ------------------------------------------------------------------ runner
class Outcome(object):
    """what one contract produced"""
    def __init__(self, name):
        self.name = name
        self.obls = []        # dicts
        self.error = None     # extraction break
        self.timeout = False
        self.gaps = []
        self.funcs = []
        self.inlined = []
        self.libused = []
        self.contracts = []
        self.assumptions = []
        self.loops = 0
        self.secs = 0.0
        self.literals = []


def run_contract(P, name, fn, opts):
    """symbolic execution of a contract (all forked paths); yields Ctx objects"""
    pend = [{}]
    done = []
    while pend:
        forced = pend.pop()
        if len(done) + len(pend) > 200: raise VCError('too many paths')
        ex = Exec(P, forced=forced)
        ex.lib_free = extern.lib_free
        ex.allow_throw = opts.get('allow_throw', False)
        c = Ctx(P, ex, name)
        try:
            fn(c)
            done.append(c)
        except Fork as e:
            for side in (False, True):
                d = dict(forced)
                d[e.key] = side
                pend.append(d)
        except Dead:
            c.dead = True
            done.append(c)
    return done


def literals_of(P, ctxs):
    out = set()
    quals = set()
    for c in ctxs: quals |= c.ex.inlined

    def go(n):
        if isinstance(n, dict):
            if n.get('kind') == 'IntegerLiteral':
                try: v = int(n['value'])
                except Exception: v = 0
                if 3 < v < 100000: out.add(v)
            for x in n.get('inner', []) or []: go(x)
    for fs in P.byqual.values():
        for f in fs:
            if f.body is not None and (f.qual + ' : ' + norm_type(f.type)) in quals: go(f.body)
    return sorted(out)


def strategies(hyps, goal, timeout):
    """one conjunct: a few differently prepared queries, the later ones with more time"""
    tot, why = 0.0, ''
    comp = smt.has_compaction(goal)
    plan = ((True, min(3000, timeout)), (False, min(3000, timeout)), (True, timeout))
    if comp:
        ok, why, dt = smt.prove(hyps, goal, min(4000, timeout), 'lite')
        tot += dt
        if ok or 'unsupported' in why: return ok, why, tot
        t0 = time.time()
        r = smt.resolve_counts([h for h in hyps if h is not TRUE], goal)
        tot += time.time() - t0
        if r is not None: hyps, goal = r
        if smt.has_compaction(goal): plan = (('lite', timeout),) + plan
    if not comp and smt.bound_conds(goal):
        t0 = time.time()
        goal = smt.decide_conds([h for h in hyps if h is not TRUE], goal) or goal
        tot += time.time() - t0
    for k, (ext, t) in enumerate(plan):
        if k == 1 and not comp and 1 <= len(smt.bound_conds(goal)) <= 10:
            ok, why, dt = smt.prove_cases(hyps, goal, min(2000, timeout), min(4, len(smt.bound_conds(goal))), False)
            tot += dt
            if ok: return ok, why, tot
        ok, why, dt = smt.prove(hyps, goal, t, ext)
        tot += dt
        if ok or 'unsupported' in why: return ok, why, tot
    if time.time() < DEADLINE[0]:
        ok, w, dt = smt.prove_cases(hyps, goal, min(4000, timeout), 3, False)
        tot += dt
        if ok: return ok, w, tot
    return False, why, tot


DEADLINE = [1e18]


def discharge(o, timeout, second=None):
    gs = list(o.goal.args) if o.goal.op == 'and' else [o.goal]
    o.status, o.reason, o.secs = True, 'trivial', 0.0
    for g in gs:
        ok, why, dt = strategies(o.hyps, g, timeout)
        o.secs += dt
        if not ok and second and time.time() < DEADLINE[0]:
            ok, why2, dt = smt.prove(o.hyps, g, second)
            o.secs += dt
        if not ok:
            o.status, o.reason = False, why
            return o
        if why != 'trivial': o.reason = why
    return o


def discharge_all(obls, timeout, second, t0, width=6, solo=8.0):
    """in order; once a contract has taken a while the rest is shared between forked workers"""
    i = 0
    while i < len(obls) and time.time() - t0 < solo:
        discharge(obls[i], timeout, second)
        i += 1
    rest = obls[i:]
    if not rest: return
    if len(rest) == 1:
        discharge(rest[0], timeout, second)
        return
    kids = []
    for w in range(min(width, len(rest))):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                res = []
                for o in rest[w::width]:
                    discharge(o, timeout, second)
                    res.append((o.status, o.reason, o.secs))
                with os.fdopen(wr, 'wb') as f: f.write(pickle.dumps((res, dict(smt.STATS))))
            except BaseException as e:
                os.write(2, ('worker: %s\n' % e).encode())
            os._exit(0)
        os.close(wr)
        kids.append((r, pid, rest[w::width]))
    base = dict(smt.STATS)
    for r, pid, part in kids:
        with os.fdopen(r, 'rb') as f: data = f.read()
        os.waitpid(pid, 0)
        try: res, st = pickle.loads(data)
        except Exception: res, st = [], base
        for k in st:
            smt.STATS[k] += st[k] - base[k]
        for k, o in enumerate(part):
            if k < len(res): o.status, o.reason, o.secs = res[k]
            else: o.status, o.reason, o.secs = False, 'worker died', 0.0


def do_one(P, name, fn, opts, timeout, second):
    out = Outcome(name)
    t0 = time.time()
    try:
        ctxs = run_contract(P, name, fn, opts)
    except VCError as e:
        out.error = 'extraction: %s' % e
        out.secs = time.time() - t0
        return out
    except Exception as e:
        out.error = 'internal: %s: %s' % (type(e).__name__, e)
        if os.environ.get('CPPVC_DEBUG'): traceback.print_exc()
        out.tb = traceback.format_exc()
        out.secs = time.time() - t0
        return out
    n = 0
    nonvac = False
    for c in ctxs:
        ex = c.ex
        out.funcs += [f for f in c.funcs if f not in out.funcs]
        out.inlined = sorted(set(out.inlined) | ex.inlined)
        out.libused = sorted(set(out.libused) | ex.libused)
        out.contracts = sorted(set(out.contracts) | set(str(k) for k in ex.used_contracts))
        out.assumptions = sorted(set(out.assumptions) | ex.assumptions)
        out.gaps += [str(g) for g in ex.havoced if not g[2]]
        discharge_all(ex.obls, timeout, second, t0)
        for o in ex.obls:
            n += 1
            d = dict(name='%s/%03d' % (name, n), kind=o.kind, where=o.where, ok=bool(o.status), reason=o.reason,
                     secs=round(o.secs, 4), goal='' if o.status else show(o.goal)[:2000])
            if not o.status: d['hyps'] = [show(h)[:600] for h in o.hyps[-25:]]
            out.obls.append(d)
        # vacuity: the precondition and the final path must not be contradictory
        for nm, facts in c.covers[:1]:
            ok, why, dt = smt.prove(facts, FALSE, 3000)
            if ok: out.error = 'vacuous %s' % nm
        if not getattr(c, 'dead', False):
            ok, why, dt = smt.prove(ex.facts(), FALSE, 3000)
            if not ok: nonvac = True
    if not nonvac and out.error is None and all(o['ok'] for o in out.obls):
        out.error = 'vacuous: no reachable final state'
    if not out.obls and out.error is None: out.error = 'vacuous: no obligations'
    out.literals = literals_of(P, ctxs)
    out.secs = time.time() - t0
    return out


def run_all(P, items, jobs=8, timeout=8000, second=25000, limit=400, stop=None):
    """items: [(name, fn, opts)] -> list of Outcome, each contract in its own forked process"""
    todo = list(enumerate(items))
    res = [None] * len(items)
    live = {}
    while todo or live:
        if stop is not None and stop([x for x in res if x is not None]):
            # a failing input is known: the remaining proof attempts cannot change the verdict
            for r, (k, pid, t0, chunks) in live.items():
                try: os.killpg(pid, signal.SIGKILL)
                except OSError:
                    try: os.kill(pid, signal.SIGKILL)
                    except OSError: pass
                os.close(r)
                os.waitpid(pid, 0)
            for k in [x[0] for x in todo] + [x[0] for x in live.values()]:
                o = Outcome(items[k][0])
                o.error = 'not attempted further: a failing input was found first'
                res[k] = o
            return res
        while todo and len(live) < jobs:
            k, (name, fn, opts) = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    import resource
                    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
                    os.setpgid(0, 0)
                    DEADLINE[0] = time.time() + limit * 0.6
                    o = do_one(P, name, fn, opts, timeout, second)
                    data = pickle.dumps(o.__dict__)
                    with os.fdopen(w, 'wb') as f: f.write(data)
                except BaseException as e:
                    try:
                        o = Outcome(name)
                        o.error = 'internal: %s %s' % (type(e).__name__, e)
                        with os.fdopen(w, 'wb') as f: f.write(pickle.dumps(o.__dict__))
                    except BaseException: pass
                os._exit(code)
            os.close(w)
            live[r] = (k, pid, time.time(), [])
        rs, _, _ = _select.select(list(live), [], [], 1.0)
        now = time.time()
        for r in list(live):
            k, pid, t0, chunks = live[r]
            fin = False
            if r in rs:
                b = os.read(r, 1 << 20)
                if b: chunks.append(b)
                else: fin = True
            elif now - t0 > limit:
                try: os.killpg(pid, signal.SIGKILL)
                except OSError: pass
                o = Outcome(items[k][0])
                o.timeout = True
                o.error = 'timeout: contract took more than %d s' % limit
                o.secs = now - t0
                res[k] = o
                os.close(r)
                os.waitpid(pid, 0)
                del live[r]
                continue
            if fin:
                os.close(r)
                os.waitpid(pid, 0)
                o = Outcome(items[k][0])
                try: o.__dict__.update(pickle.loads(b''.join(chunks)))
                except Exception as e:
                    o.error = 'internal: worker died (%s)' % e
                res[k] = o
                del live[r]
    return res
