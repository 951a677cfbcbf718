"""Verification-condition generator for the repository's C functions.

Works on clang's AST of the file as it is in /repo.  One function at a time: forward symbolic
execution with state merging; a call is replaced by the callee's contract when it has one and is
inlined otherwise; a loop is cut at its head by an inductive invariant.  Invariants are not
written against loop positions: candidates are generated from templates over whatever variables
the loop modifies (plus the contract's own candidate schemas), and the largest inductive subset is
found by Houdini iteration, each step a z3 query.  The final pass then discharges every
obligation (index in bounds, initialised before read, write inside the frame, callee
precondition, postcondition, divisor non-zero, no leak, ...) under those invariants.

Semantics: C integers are mathematical integers (no wrap-around), floats are exact reals,
distinct pointer parameters do not alias (checked on the Python side), malloc succeeds.
"""
import os
import time

from .obl import z3, Obl, Unsupported, model_str, solver
from . import cast

I = z3.IntVal


def R(x):
    return z3.ToReal(x) if z3.is_int(x) else x


def simp(x):
    return z3.simplify(x)


class Ptr:
    __slots__ = ('b', 'off')

    def __init__(self, b, off): self.b, self.off = b, off


class Null:
    pass


class Invalid:
    """A pointer whose target is unknown here (reassigned in a loop)."""


class FnRef:
    def __init__(self, name): self.name = name


class Block:
    def __init__(self, bid, name, kind, size, const=False, heap=False, param=False):
        self.id, self.name, self.kind, self.size = bid, name, kind, size
        self.const, self.heap, self.param = const, heap, param
        self.sort = z3.RealSort() if kind == 'float' else z3.IntSort()
        self.writable = None       # list of (lo, hi) or None = anywhere (heap/local)
        self.stride = None         # slice stride, when sliced


class St:
    __slots__ = ('vars', 'vinit', 'mem', 'init', 'pc', 'freed', 'heapset')

    def __init__(self):
        self.vars, self.vinit, self.mem, self.init = {}, {}, {}, {}
        self.pc = []
        self.freed = set()
        self.heapset = []

    def copy(self):
        s = St()
        s.vars, s.vinit = dict(self.vars), dict(self.vinit)
        s.mem, s.init = dict(self.mem), dict(self.init)
        s.pc = list(self.pc)
        s.freed = set(self.freed)
        s.heapset = list(self.heapset)
        return s


class Cand:
    __slots__ = ('name', 'fn', 'alive')

    def __init__(self, name, fn): self.name, self.fn, self.alive = name, fn, True


class LoopInfo:
    def __init__(self):
        self.cands = None
        self.counter = None


_UFC = {}


def uf(name, *args, ret=None):
    key = (name,) + tuple(a.sort().sexpr() for a in args)
    if key not in _UFC:
        _UFC[key] = z3.Function(name, *([a.sort() for a in args] + [ret if ret is not None else z3.RealSort()]))
    return _UFC[key](*args)


pow2f = z3.Function('pow2', z3.IntSort(), z3.IntSort())


def bad_pattern(e):
    stack, seen = [e], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES,
                                                z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_XOR, z3.Z3_OP_IFF):
            return True
        stack.extend(x.children())
    return False


def FA(ks, body, *pats):
    """Universal formula with alternative triggers (dropped where they are not legal triggers)."""
    ks = ks if isinstance(ks, list) else [ks]
    ps = [p for p in pats if not bad_pattern(p)]
    return z3.ForAll(ks, body, patterns=ps) if ps else z3.ForAll(ks, body)


class PView:
    """A pointer parameter inside a contract."""

    def __init__(self, cx, ptr, which):
        self.cx, self.ptr, self.which = cx, ptr, which

    def _arr(self, st):
        return st.mem[self.ptr.b]

    def at(self, i):                      # value at entry
        return z3.Select(self._arr(self.cx.pre), self.ptr.off + i)

    def post(self, i):                    # value now / at exit
        return z3.Select(self._arr(self.cx.now), self.ptr.off + i)

    def array(self):
        return self._arr(self.cx.pre)

    def array_post(self):
        return self._arr(self.cx.now)

    @property
    def off(self): return self.ptr.off

    @property
    def room(self):                       # number of elements from the pointer to the end of the block
        return self.cx.vc.blocks[self.ptr.b].size - self.ptr.off

    def init(self, i):
        a = self.cx.now.init.get(self.ptr.b)
        return z3.BoolVal(True) if a is None else z3.Select(a, self.ptr.off + i)

    def init_pre(self, i):
        a = self.cx.pre.init.get(self.ptr.b)
        return z3.BoolVal(True) if a is None else z3.Select(a, self.ptr.off + i)


class Ctx:
    """What a contract clause may talk about."""

    def __init__(self, vc, names, values, pre, now, ret=None):
        self.vc, self.pre, self.now, self.ret = vc, pre, now, ret
        self._v = {}
        for n, v in zip(names, values):
            self._v[n] = PView(self, v, n) if isinstance(v, Ptr) else v

    def __getattr__(self, n):
        try:
            return self.__dict__['_v'][n]
        except KeyError:
            raise AttributeError(n)

    def has(self, n):
        return n in self._v and not isinstance(self._v[n], (Null, Invalid))

    def forall(self, lo, hi, f, pat=None):
        self.vc.qn += 1
        k = z3.Int('q!%d' % self.vc.qn)
        b = f(k)
        body = z3.Implies(z3.And(lo <= k, k < hi), b)
        if pat is not None:
            ps = pat(k)
            return FA(k, body, *(ps if isinstance(ps, (tuple, list)) else (ps,)))
        return z3.ForAll([k], body)


class Contract:
    """requires / ensures: functions Ctx -> list of (name, formula).
    writes: {param: fn(ctx)->(lo, hi) element range that may change}; params not listed are not written.
    sizes: {param: fn(ctx)->elements available} used as a precondition at call sites and as the
    block size when the function itself is verified."""

    def __init__(self, name, params, sizes=None, requires=None, ensures=None, writes=None, cands=None,
                 inits=None, reads=None, sliced=None, result=None, assumed_ensures=None, strides=None, ghost=None, fill=None, hints=None, atmost=False):
        self.name, self.params = name, params
        self.sizes = sizes or {}
        self.requires = requires or (lambda c: [])
        self.ensures = ensures or (lambda c: [])
        self.assumed_ensures = assumed_ensures or (lambda c: [])
        self.writes = writes or {}
        self.cands = cands
        self.inits = inits or {}        # param -> fn(ctx)->(lo,hi) initialised on exit
        self.reads = reads or {}        # param -> fn(ctx)->(lo,hi) must be initialised on entry
        self.sliced = sliced or {}
        self.strides = strides
        self.result = result
        self.ghost = ghost
        self.hints = hints        # fn(block, offset) -> valid facts about the offset of an array read
        self.atmost = atmost      # counters that advance by at most a stride of another
        self.fill = fill          # row-major strides, outermost first, of arrays that nested loops fill


class VCGen:
    def __init__(self, ledger, fn, tu, contract, contracts=None, facets=('mem',), funcs=None, timeout_ms=8000,
                 max_passes=12, dims=None, unit=None, slice_loop=None, check_leak=True, fast_ms=1500):
        self.ledger, self.fn, self.tu, self.contract = ledger, fn, tu, contract
        self.contracts = contracts or {}
        self.funcs = funcs or {}
        self.facets = set(facets)
        self.timeout_ms, self.max_passes = timeout_ms, max_passes
        self.fast_ms = fast_ms
        self.blocks = {}
        self.loops = {}
        self.qn = 0
        self.fresh_n = 0
        self.mode = 'houdini'
        self.unit = unit or fn['name']
        self.dims = dims
        self.stack = []
        self.writes = None
        self.kills = 0
        self.check_leak = check_leak
        self.n_queries = 0
        self.obl_seen = {}
        self.sites = {}
        self.enclosing = []       # active loop counters (name, term)
        self.slice_active = None  # (term of the slice counter, ...)
        self.slice_count = contract.sliced.get('count') if contract.sliced else None

    # ------------------------------------------------------------------ utilities
    def fresh(self, name, sort):
        self.fresh_n += 1
        return z3.Const('%s!%d' % (name, self.fresh_n), sort)

    def new_block(self, st, name, kind, size, const=False, heap=False, param=False, zero=False, inited=True, site=None):
        # one identity per allocation site and call chain, so that invariants keep their meaning between rounds
        key = (tuple(x[0] for x in self.stack), site if site is not None else name)
        bid = self.sites.setdefault(key, len(self.sites))
        if bid in st.mem and bid not in st.freed and heap:
            raise Unsupported('an allocation site is reached again while its block is live')
        st.freed.discard(bid)
        if bid in st.heapset:
            st.heapset = [x for x in st.heapset if x != bid]
        b = Block(bid, name, kind, size, const, heap, param)
        self.blocks[bid] = b
        asort = z3.ArraySort(z3.IntSort(), b.sort)
        if zero:
            st.mem[bid] = z3.K(z3.IntSort(), I(0) if b.sort == z3.IntSort() else z3.RealVal(0))
        else:
            st.mem[bid] = self.fresh('M_' + name, asort)
        if not inited and not zero:
            st.init[bid] = z3.K(z3.IntSort(), z3.BoolVal(False))
        else:
            st.init[bid] = None
        if heap:
            st.heapset.append(bid)
        return b

    def assume(self, st, f):
        st.pc.append(f)

    def query(self, pc, goal, ms, mbqi=None):
        self.n_queries += 1
        t0 = time.time()
        if z3.is_true(z3.simplify(goal)):
            return 'proved', 0.0, None, ''
        s = solver(ms)
        if mbqi is False:
            s.set('smt.mbqi', False)
        for p in pc:
            s.add(p)
        s.add(z3.Not(goal))
        r = s.check()
        dt = time.time() - t0
        if r == z3.unsat:
            return 'proved', dt, None, ''
        if r == z3.sat:
            return 'refuted', dt, s.model(), 'counterexample'
        return 'unknown', dt, None, s.reason_unknown()

    def oblige(self, st, kind, goal, node=None, detail=''):
        if self.mode != 'check':
            # assume it from here on: later obligations need not fail again for the same reason
            return
        line = (node or {}).get('_line', 0)
        name = '%s%s' % (kind, (': ' + detail) if detail else '')
        where = '%s:%s' % (self.tu['path'], line)
        status, dt, model, why = self.query(st.pc, goal, 2500, mbqi=False)
        if status == 'unknown':
            status, dt2, model, why = self.retry(st.pc, goal)
            dt += dt2
        if status == 'unknown':
            status, dt2, model, why = self.query(st.pc, goal, self.timeout_ms)
            dt += dt2
        key = (self.unit, name, where)
        old = self.obl_seen.get(key)
        o = Obl(self.unit, name, status, 'z3', dt, model_str(model, 40), where, why)
        self.ledger.add(o)
        self.obl_seen[key] = o
        if status == 'proved':
            st.pc.append(goal)

    def retry(self, pc, goal):
        t0 = time.time()
        # only the hypotheses near the goal first (fewer hypotheses: still sound)
        syms = [symbols(h) for h in pc]
        near = symbols(goal)
        for level in range(3):
            pick = [i for i, y in enumerate(syms) if y & near]
            r, dt, m, why = self.query([pc[i] for i in pick], goal, min(self.timeout_ms, 3000), mbqi=False)
            if r == 'proved':
                return 'proved', time.time() - t0, None, ''
            for i in pick:
                near = near | syms[i]
        # quantifier-free core, then other strategies
        qf = [p for p in pc if not has_quant(p)]
        for hyp, opts in ((qf, {}), (pc, {'smt.mbqi': False, 'smt.arith.solver': 2})):
            s = solver(self.timeout_ms)
            for k, v in opts.items():
                try:
                    s.set(k, v)
                except z3.Z3Exception:
                    pass
            s.add(*hyp)
            s.add(z3.Not(goal))
            r = s.check()
            if r == z3.unsat:
                return 'proved', time.time() - t0, None, ''
        return 'unknown', time.time() - t0, None, 'unknown after retries'

    # ------------------------------------------------------------------ driver
    def entry_state(self):
        st = St()
        names = self.contract.params
        decls = cast.params(self.fn)
        if len(decls) != len(names):
            raise Unsupported('%s: the contract names %d parameters, the function has %d'
                              % (self.fn['name'], len(names), len(decls)))
        vals = []
        sized = []
        for nm, d in zip(names, decls):
            k = cast.kind_of(cast.qt(d))
            if isinstance(k, tuple) and k[0] == 'ptr':
                ek = cast.kind_of(k[1])
                if ek == 'void' or isinstance(ek, tuple):
                    if cast.strip(k[1]) in ('char',):
                        ek = 'int'
                    else:
                        raise Unsupported('parameter type %s' % cast.qt(d))
                const = 'const' in cast.qt(d).split('*')[0]
                size = z3.Int('size_' + nm)
                b = self.new_block(st, nm, 'float' if ek == 'float' else 'int', size, const=const, param=True)
                b.writable = []
                v = Ptr(b.id, I(0))
                sized.append((nm, b))
                st.pc.append(size >= 0)
            elif k == 'float':
                v = z3.Real('arg_' + nm)
            elif k in ('int', 'uint'):
                v = z3.Int('arg_' + nm)
                if k == 'uint':
                    st.pc.append(v >= 0)
            else:
                raise Unsupported('parameter type %s' % cast.qt(d))
            vals.append(v)
        # parameters may be reassigned, so they are ordinary variables; address-taken ones get a block
        taken = self.address_taken(cast.body(self.fn))
        for nm, d, v in zip(names, decls, vals):
            self.bind_var(st, d, v, taken)
        cx = Ctx(self, names, vals, st, st)
        for nm, b in sized:
            if nm in self.contract.sizes:
                n = self.contract.sizes[nm](cx)
                b.size = n
                st.pc.append(n >= 0)
                for q in (self.contract.reads.get(nm),):
                    pass
        for nm, rq in self.contract.requires(cx):
            st.pc.append(rq)
        for nm, b in sized:
            if nm in self.contract.writes:
                w = self.contract.writes[nm](cx)
                b.writable = [w]
            elif b.const:
                b.writable = []
            if nm in self.contract.reads:
                lo, hi = self.contract.reads[nm](cx)
                ia = self.fresh('I_' + nm, z3.ArraySort(z3.IntSort(), z3.BoolSort()))
                st.init[b.id] = ia
                st.pc.append(cx.forall(lo, hi, lambda k: z3.Select(ia, k), lambda k: z3.Select(ia, k)))
            elif nm in self.contract.inits:
                st.init[b.id] = z3.K(z3.IntSort(), z3.BoolVal(False))
            if self.contract.sliced and nm in self.contract.sliced:
                b.stride = self.contract.sliced[nm](cx)
        if self.contract.sliced and self.slice_count:
            self.slice_count_t = self.slice_count(cx)
        else:
            self.slice_count_t = None
        if self.contract.ghost:
            for f in self.contract.ghost(cx):
                st.pc.append(f)
        self.pre_ctx = (names, vals, st.copy())
        return st

    def run(self):
        """Houdini to a fixpoint, then the checking pass."""
        t0 = time.time()
        self.mode = 'houdini'
        self.reset_pass()
        self.exec_fn(self.entry_state())
        p = self.kills
        t1 = time.time()
        self.mode = 'check'
        self.reset_pass()
        n0 = len(self.ledger.obls)
        st = self.entry_state()
        # reachability of the precondition (anti-vacuity)
        s = solver(3000)
        s.add(*[p for p in st.pc if not has_quant(p)])
        cov = s.check()
        self.ledger.covers.append((self.unit, 'precondition satisfiable', str(cov)))
        if cov == z3.unsat:
            self.ledger.add(Obl(self.unit, 'precondition is satisfiable', 'refuted', 'z3', 0, None, '', 'vacuous'))
        self.exec_fn(st)
        inv = sum(1 for l in self.loops.values() for c in (l.cands or []) if c.alive)
        self.stats = dict(unit=self.unit, candidates_dropped=p, houdini_secs=round(t1 - t0, 2), loops=len(self.loops), invariants=inv,
                          obligations=len(self.ledger.obls) - n0, queries=self.n_queries, secs=round(time.time() - t0, 2))
        return self.stats

    def reset_pass(self):
        self.blocks = {}
        self.fresh_n = 0
        self.qn = 0
        self.stack = []
        self.enclosing = []
        self.slice_active = None
        self.returns = []

    def exec_fn(self, st):
        self.returns = []
        self.cur_fn = [self.fn['name']]
        out = self.stmt(st, cast.body(self.fn))
        rets = list(self.returns)
        if out is not None:
            rets.append((out, None))
        if self.mode == 'check':
            live = [self.query(s.pc, z3.BoolVal(False), 1500, mbqi=False)[0] != 'proved' for s, _ in rets]
            self.ledger.covers.append((self.unit, 'an exit is reachable', '%d of %d' % (sum(live), len(live))))
            if not any(live):
                self.ledger.add(Obl(self.unit, 'an exit of the function is reachable', 'refuted', 'z3', 0, None, '', 'vacuous'))
        for s, rv in rets:
            self.at_exit(s, rv)

    def at_exit(self, st, rv):
        names, vals, pre = self.pre_ctx
        cx = Ctx(self, names, vals, pre, st, rv)
        if self.mode == 'check':
            for nm, en in self.contract.ensures(cx):
                self.oblige(st, 'postcondition', en, {'_line': self.fn.get('_line', 0)}, nm)
            if 'init' in self.facets:
                for nm, f in self.contract.inits.items():
                    v = vals[names.index(nm)]
                    if st.init.get(v.b) is None:
                        continue
                    lo, hi = f(cx)
                    ia = st.init[v.b]
                    self.oblige(st, 'initialises', self.all_init(ia, lo, hi), None, nm)
            if 'mem' in self.facets and self.check_leak:
                for bid in st.heapset:
                    if bid not in st.freed:
                        self.oblige(st, 'no leak', z3.BoolVal(False), {'_line': self.fn.get('_line', 0)},
                                    'block %s is never freed' % self.blocks[bid].name)

    def all_init(self, ia, lo, hi):
        k = self.fresh('k', z3.IntSort())
        return z3.Implies(z3.And(lo <= k, k < hi), z3.Select(ia, k))

    # ------------------------------------------------------------------ variables
    def address_taken(self, node):
        out = set()

        def rec(n):
            if not isinstance(n, dict):
                return
            if n.get('kind') == 'UnaryOperator' and n.get('opcode') == '&':
                t = strip_parens(n['inner'][0])
                if t.get('kind') == 'DeclRefExpr':
                    out.add(t['referencedDecl']['id'])
            for c in n.get('inner', ()) or ():
                rec(c)
        rec(node)
        return out

    def bind_var(self, st, d, v, taken=None):
        did = d['id']
        k = cast.kind_of(cast.qt(d))
        if taken is not None and did in taken and not isinstance(k, tuple):
            b = self.new_block(st, d.get('name', 'v'), 'float' if k == 'float' else 'int', I(1), inited=v is not None, site=d['id'])
            if v is not None:
                st.mem[b.id] = z3.Store(st.mem[b.id], I(0), v)
            st.vars[did] = ('cell', b.id)
        else:
            st.vars[did] = v
        st.vinit[did] = z3.BoolVal(v is not None)

    # ------------------------------------------------------------------ statements
    def stmt(self, st, n):
        """Execute; returns the fall-through state or None."""
        if st is None:
            return None
        k = n.get('kind')
        if not k:
            return st
        f = getattr(self, 's_' + k, None)
        if f is not None:
            return f(st, n)
        if k.startswith('OMP'):
            return self.omp(st, n)
        # expression statement
        self.expr(st, n)
        return st

    def s_NullStmt(self, st, n): return st

    def s_CompoundStmt(self, st, n):
        for c in n.get('inner', ()) or ():
            st = self.stmt(st, c)
            if st is None:
                return None
        return st

    def s_AttributedStmt(self, st, n):
        return self.stmt(st, n['inner'][-1])

    def s_LabelStmt(self, st, n):
        raise Unsupported('label')

    def s_GotoStmt(self, st, n):
        raise Unsupported('goto')

    def s_DeclStmt(self, st, n):
        for d in n.get('inner', ()):
            if d.get('kind') != 'VarDecl':
                continue
            self.decl(st, d)
        return st

    def decl(self, st, d):
        k = cast.kind_of(cast.qt(d))
        inits = [c for c in d.get('inner', ()) or () if 'kind' in c and not c['kind'].endswith('Attr')]
        t = cast.strip(cast.qt(d))
        self.note_write(('v', d['id']))
        if t.endswith(']'):
            ek = cast.kind_of(t[:t.index('[')])
            cnt = t[t.index('[') + 1:t.index(']')]
            if not cnt.isdigit() or isinstance(ek, tuple):
                raise Unsupported('array declaration %s' % t)
            b = self.new_block(st, d['name'], 'float' if ek == 'float' else 'int', I(int(cnt)), inited=False, site=d['id'])
            if inits and inits[0].get('kind') == 'InitListExpr':
                for i, e in enumerate(inits[0].get('inner', ())):
                    st.mem[b.id] = z3.Store(st.mem[b.id], I(i), self.expr(st, e))
                st.init[b.id] = None
            st.vars[d['id']] = Ptr(b.id, I(0))
            st.vinit[d['id']] = z3.BoolVal(True)
            return
        v = None
        if inits:
            v = self.expr(st, inits[-1])
        if v is None:
            if isinstance(k, tuple):
                if k[0] == 'rec':
                    raise Unsupported('struct variable')
                st.vars[d['id']] = Invalid()
                st.vinit[d['id']] = z3.BoolVal(False)
                return
            if d['id'] in self.taken_here():
                self.bind_var(st, d, None, {d['id']})
                return
            st.vars[d['id']] = self.fresh(d.get('name', 'v'), z3.RealSort() if k == 'float' else z3.IntSort())
            st.vinit[d['id']] = z3.BoolVal(False)
            return
        v = self.convert(st, v, k, d)
        self.bind_var(st, d, v, self.taken_here())

    def taken_here(self):
        key = 'taken'
        fn = self.stack[-1][1] if self.stack else self.fn
        if '_taken' not in fn:
            fn['_taken'] = self.address_taken(cast.body(fn))
        return fn['_taken']

    def s_ReturnStmt(self, st, n):
        inner = n.get('inner') or []
        rv = self.expr(st, inner[0]) if inner else None
        self.returns.append((st, rv))
        return None

    def s_BreakStmt(self, st, n):
        self.breaks[-1].append(st)
        return None

    def s_ContinueStmt(self, st, n):
        self.conts[-1].append(st)
        return None

    breaks = []
    conts = []

    def s_IfStmt(self, st, n):
        inner = n['inner']
        c = self.cond(st, inner[0])
        sc = simp(c)
        # (when discovering writes the values are those of the first iteration only: both branches count)
        if z3.is_true(sc) and self.mode != 'discover':
            return self.stmt(st, inner[1])
        if z3.is_false(sc) and self.mode != 'discover':
            return self.stmt(st, inner[2]) if len(inner) > 2 else st
        base = len(st.pc)
        a, b = st.copy(), st.copy()
        a.pc.append(c)
        b.pc.append(z3.Not(c))
        ra = self.stmt(a, inner[1])
        rb = self.stmt(b, inner[2]) if len(inner) > 2 else b
        return self.merge(c, ra, rb, base)

    def s_SwitchStmt(self, st, n):
        v = self.expr(st, n['inner'][0])
        bodyn = n['inner'][1]
        # flatten:  case labels followed by statements up to break
        groups = []
        for c in bodyn.get('inner', ()):
            labels = []
            x = c
            while x.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if x['kind'] == 'CaseStmt':
                    labels.append(x['inner'][0])
                    x = x['inner'][-1]
                else:
                    labels.append(None)
                    x = x['inner'][0]
            if labels:
                groups.append([labels, [x]])
            else:
                groups[-1][1].append(x)
        out = None
        taken = []
        self.breaks.append([])
        fall = None
        default = None
        for labels, stmts in groups:
            conds = []
            for l in labels:
                if l is None:
                    default = (labels, stmts)
                else:
                    conds.append(v == self.expr(st, l))
            if any(l is None for l in labels):
                continue
            s = st.copy()
            c = z3.Or(*conds)
            s.pc.append(c)
            taken.append(c)
            if fall is not None:
                raise Unsupported('switch fall-through')
            for x in stmts:
                s = self.stmt(s, x)
                if s is None:
                    break
            if s is not None:
                fall = s
        s = st.copy()
        s.pc.append(z3.Not(z3.Or(*taken)) if taken else z3.BoolVal(True))
        if default is not None:
            for x in default[1]:
                s = self.stmt(s, x)
                if s is None:
                    break
        ends = self.breaks.pop()
        if s is not None:
            ends.append(s)
        if fall is not None:
            ends.append(fall)
        return self.merge_many(ends, len(st.pc))

    def merge(self, c, a, b, base):
        if a is None:
            return b
        if b is None:
            return a
        out = St()
        out.pc = a.pc[:base]
        for p in a.pc[base:]:
            if not z3.eq(p, c):
                out.pc.append(z3.Implies(c, p))
        for p in b.pc[base:]:
            out.pc.append(z3.Implies(z3.Not(c), p))
        for key in a.vars:
            if key not in b.vars:
                continue
            out.vars[key] = self.ite(c, a.vars[key], b.vars[key])
            out.vinit[key] = simp(z3.If(c, a.vinit[key], b.vinit[key]))
        for key in a.mem:
            if key in b.mem:
                x, y = a.mem[key], b.mem[key]
                out.mem[key] = x if x is y or z3.eq(x, y) else self.named_ite(out, c, x, y)
                ix, iy = a.init[key], b.init[key]
                if ix is None and iy is None:
                    out.init[key] = None
                else:
                    full = z3.K(z3.IntSort(), z3.BoolVal(True))
                    ix = full if ix is None else ix
                    iy = full if iy is None else iy
                    out.init[key] = ix if z3.eq(ix, iy) else self.named_ite(out, c, ix, iy)
            else:
                out.mem[key], out.init[key] = a.mem[key], a.init[key]
        for key in b.mem:
            if key not in out.mem:
                out.mem[key], out.init[key] = b.mem[key], b.init[key]
        out.heapset = list(a.heapset) + [x for x in b.heapset if x not in a.heapset]
        # freed on one side only: treat as freed for use-after-free, as not freed for leaks
        out.freed = a.freed & b.freed
        only = (a.freed ^ b.freed)
        for x in only:
            # allocated on that side only -> gone
            if x not in a.heapset or x not in b.heapset:
                out.freed.add(x)
            else:
                out.freed.add(x)
        for x in list(out.heapset):
            if (x in a.heapset) != (x in b.heapset) and x not in out.freed:
                pass
        return out

    def named_ite(self, st, c, x, y):
        # a name of its own, so that it can occur in quantifier patterns
        v = self.fresh('mrg', x.sort())
        st.pc.append(v == z3.If(c, x, y))
        return v

    def ite(self, c, x, y):
        if x is y:
            return x
        if isinstance(x, tuple) or isinstance(y, tuple):
            return x
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.b != y.b:
                return Invalid()
            return x if z3.eq(x.off, y.off) else Ptr(x.b, z3.If(c, x.off, y.off))
        if isinstance(x, (Ptr, Null, Invalid, FnRef)) or isinstance(y, (Ptr, Null, Invalid, FnRef)):
            return Invalid()
        if z3.eq(x, y):
            return x
        if x.sort() != y.sort():
            x, y = R(x), R(y)
        return z3.If(c, x, y)

    def merge_many(self, states, base):
        states = [s for s in states if s is not None]
        if not states:
            return None
        out = states[0]
        for s in states[1:]:
            b = self.fresh('sel', z3.BoolSort())
            # common prefix
            n = 0
            while n < len(out.pc) and n < len(s.pc) and (out.pc[n] is s.pc[n] or z3.eq(out.pc[n], s.pc[n])):
                n += 1
            out = self.merge(b, out, s, n)
        return out

    # ------------------------------------------------------------------ OpenMP
    def omp(self, st, n):
        k = n['kind']
        body = None

        def find(x):
            if x.get('kind') in ('ForStmt',):
                return x
            for c in x.get('inner', ()) or ():
                if c.get('kind', '').startswith('OMP') and c['kind'].endswith('Clause'):
                    continue
                r = find(c)
                if r is not None:
                    return r
            return None
        if 'For' in k or 'Simd' in k:
            body = find(n)
            if body is None:
                raise Unsupported('OpenMP directive %s' % k)
            if 'Parallel' in k:
                self.parallel_loop(st, n, body)
            return self.stmt(st, body)
        raise Unsupported('OpenMP directive %s' % k)

    def pragma_names(self, n):
        """Variables named in private/lastprivate/... clauses (clang's JSON leaves the clauses out)."""
        import re
        rng = n.get('range') or {}
        a, b = (rng.get('begin') or {}).get('offset'), (rng.get('end') or {}).get('offset')
        if a is None or b is None:
            return set()
        with open(os.path.join(cast.REPO, self.tu['path']), 'rb') as f:
            text = f.read()[a:b + 200].decode('utf8', 'replace').replace('\\\n', ' ')
        line = text.splitlines()[0] if text else ''
        out = set()
        for kind, names in re.findall(r'\b(private|firstprivate|lastprivate|linear)\s*\(([^)]*)\)', line):
            out |= {x.strip() for x in names.split(':')[0].split(',')}
        for names in re.findall(r'\breduction\s*\(\s*[^:)]*:([^)]*)\)', line):
            out |= {x.strip() for x in names.split(',')}
        return out

    def parallel_loop(self, st, n, loop):
        """Scalars written in a worksharing loop must be private to an iteration."""
        if self.mode != 'check' or 'race' not in self.facets:
            return
        priv = set()
        names = self.pragma_names(n)

        def clauses(x):
            for c in x.get('inner', ()) or ():
                if c.get('kind') in ('OMPPrivateClause', 'OMPFirstprivateClause', 'OMPLastprivateClause', 'OMPReductionClause'):
                    def refs(y):
                        if y.get('kind') == 'DeclRefExpr':
                            priv.add(y['referencedDecl']['id'])
                        for z in y.get('inner', ()) or ():
                            refs(z)
                    refs(c)
        clauses(n)
        declared = set()
        assigned = {}

        def rec(x):
            if x.get('kind') == 'VarDecl':
                declared.add(x['id'])
            if x.get('kind') in ('BinaryOperator', 'CompoundAssignOperator') and (x.get('opcode') == '=' or x['kind'] == 'CompoundAssignOperator'):
                t = strip_parens(x['inner'][0])
                if t.get('kind') == 'DeclRefExpr':
                    assigned[t['referencedDecl']['id']] = (t['referencedDecl'].get('name'), x)
            if x.get('kind') == 'UnaryOperator' and x.get('opcode') in ('++', '--'):
                t = strip_parens(x['inner'][0])
                if t.get('kind') == 'DeclRefExpr':
                    assigned[t['referencedDecl']['id']] = (t['referencedDecl'].get('name'), x)
            for c in x.get('inner', ()) or ():
                rec(c)
        rec(loop)
        # the loop's own counter is private by the OpenMP rules
        own = None
        init = loop['inner'][0]
        t = strip_parens((init.get('inner') or [{}])[0]) if init.get('kind') == 'BinaryOperator' else {}
        if t.get('kind') == 'DeclRefExpr':
            own = t['referencedDecl']['id']
        for did, (nm, x) in assigned.items():
            ok = did in priv or did in declared or did == own or nm in names
            self.oblige(st, 'no data race', z3.BoolVal(ok), x, 'scalar %s is private to a parallel iteration' % nm)

    # ------------------------------------------------------------------ loops
    def s_ForStmt(self, st, n):
        init, _, cond, inc, body = (n['inner'] + [{}] * 5)[:5]
        if init.get('kind'):
            st = self.stmt(st, init)
        return self.loop(st, n, cond, inc, body, False)

    def s_WhileStmt(self, st, n):
        inner = n['inner']
        return self.loop(st, n, inner[0], {}, inner[-1], False)

    def s_DoStmt(self, st, n):
        body, cond = n['inner']
        return self.loop(st, n, cond, {}, body, True)

    def loop_key(self, n):
        return '/'.join([s[0] for s in self.stack] + [n['id']])

    def note_write(self, w):
        if self.writes is not None:
            self.writes.add(w)

    def discover(self, st, cond, inc, body):
        """What one iteration may write (executed symbolically once, nothing recorded)."""
        sv = (self.mode, self.writes, self.returns, self.fresh_n, self.breaks, self.conts)
        self.mode = 'discover'
        self.writes = set()
        self.returns = []
        self.breaks, self.conts = [[]], [[]]
        nb = set(st.mem)
        s = st.copy()
        if cond.get('kind'):
            self.cond(s, cond)
        r = self.stmt(s, body)
        for s2 in [r] + self.conts[-1]:
            if s2 is not None and inc.get('kind'):
                self.expr(s2, inc)
                break
        w = self.writes
        self.mode, self.writes, self.returns, _, self.breaks, self.conts = sv
        out = set()
        for x in w:
            if x[0] == 'v' and x[1] not in st.vars:
                continue
            if x[0] in ('m', 'f') and x[1] not in nb:
                continue
            out.add(x)
        return out

    def loop(self, st, n, cond, inc, body, is_do):
        if self.mode == 'discover':
            # one symbolic iteration is enough to see the writes
            self.breaks.append([])
            self.conts.append([])
            if cond.get('kind'):
                self.cond(st, cond)
            r = self.stmt(st.copy(), body)
            for s2 in [r] + self.conts[-1]:
                if s2 is not None and inc.get('kind'):
                    self.expr(s2, inc)
                    break
            self.breaks.pop()
            self.conts.pop()
            # the values after the loop are unknown but their sorts/blocks are those before
            return st
        key = self.loop_key(n)
        mods = self.discover(st, cond, inc, body)
        if self.writes is not None:
            self.writes |= mods
        info = self.loops.setdefault(key, LoopInfo())
        entry = st.copy()
        # ---- havoc
        hd = st.copy()
        mvars, mblocks = [], []
        for m in sorted(mods, key=str):
            if m[0] == 'v':
                did = m[1]
                v = hd.vars[did]
                if isinstance(v, tuple):
                    continue
                if isinstance(v, Ptr):
                    if ('p=', did) in mods:
                        hd.vars[did] = Invalid()
                    else:
                        hd.vars[did] = Ptr(v.b, self.fresh('off', z3.IntSort()))
                        mvars.append(did)
                elif isinstance(v, (Null, Invalid, FnRef)):
                    hd.vars[did] = Invalid()
                else:
                    hd.vars[did] = self.fresh(self.vname(did), v.sort())
                    mvars.append(did)
                hd.vinit[did] = self.fresh('vi', z3.BoolSort())
            elif m[0] == 'm':
                bid = m[1]
                b = self.blocks[bid]
                hd.mem[bid] = self.fresh('M_' + b.name, z3.ArraySort(z3.IntSort(), b.sort))
                if hd.init[bid] is not None:
                    hd.init[bid] = self.fresh('I_' + b.name, z3.ArraySort(z3.IntSort(), z3.BoolSort()))
                mblocks.append(bid)
            elif m[0] == 'f':
                raise Unsupported('a block allocated before a loop is freed inside it')
        self.mod_order = mvars
        if info.cands is None:
            info.cands = self.candidates(n, entry, hd, cond, mvars, mblocks, mods)
        lc = LoopCtx(self, entry, mvars, mblocks)
        # ---- initiation
        if self.mode == 'houdini':
            self.check_cands(info, entry, entry, lc)
        elif self.mode == 'check':
            self.confirm(info, entry, lc, n, 'holds on entry')
        hd0 = hd
        rounds = 0
        while True:
            kills0, nret = self.kills, len(self.returns)
            hd = hd0.copy()
            for c in info.cands:
                if c.alive:
                    f = self.cand(c, hd, lc)
                    if f is not None:
                        hd.pc.append(f)
            # slice loop?
            counter = self.loop_counter(cond, hd, mvars)
            opened = None
            if self.slice_count_t is not None and self.slice_active is None and counter is not None:
                did, term, bound, strict = counter
                if strict and bound is not None and (z3.eq(simp(bound), simp(self.slice_count_t))):
                    opened = term
            base = len(hd.pc)
            # ---- one iteration
            it = hd.copy()
            if not is_do and cond.get('kind'):
                c = self.cond(it, cond)
                it.pc.append(c)
            if opened is not None:
                self.slice_active = opened
                # nothing written in an earlier iteration may be read in this one, except sliced blocks
                for did in mvars:
                    if did != counter[0]:
                        it.vinit[did] = z3.BoolVal(False)
                for bid in mblocks:
                    b = self.blocks[bid]
                    if self.stride_of(b) is None:
                        it.init[bid] = z3.K(z3.IntSort(), z3.BoolVal(False))
            if counter is not None:
                self.enclosing.append((counter[0], counter[1]))
            self.breaks.append([])
            self.conts.append([])
            r = self.stmt(it, body)
            conts = self.conts.pop()
            brk = self.breaks.pop()
            end = self.merge_many([r] + conts, base)
            if end is not None:
                if inc.get('kind'):
                    self.expr(end, inc)
                if is_do and cond.get('kind'):
                    c = self.cond(end, cond)
                    exit_do = end.copy()
                    exit_do.pc.append(z3.Not(c))
                    end.pc.append(c)
            if counter is not None:
                self.enclosing.pop()
            if opened is not None:
                self.slice_active = None
            # ---- consecution
            if self.mode != 'houdini':
                if end is not None and self.mode == 'check':
                    self.confirm(info, end, lc, n, 'preserved')
                break
            if end is not None:
                self.check_cands(info, end, entry, lc)
            if self.kills == kills0:
                break
            del self.returns[nret:]
            rounds += 1
            if rounds > 40:
                raise Unsupported('%s: invariant inference did not converge' % self.unit)
        # ---- exit
        outs = []
        if is_do:
            if end is not None:
                outs.append(exit_do)
        else:
            ex = hd.copy()
            if cond.get('kind'):
                sv = self.mode
                if self.mode == 'check':
                    self.mode = 'quiet'
                c = self.cond(ex, cond)
                self.mode = sv
                ex.pc.append(z3.Not(c))
                outs.append(ex)
        outs += brk
        res = self.merge_many(outs, base)
        if res is not None and opened is not None:
            # scalars and scratch written in slice iterations are not to be read after the loop either
            for did in mvars:
                if did != counter[0]:
                    res.vinit[did] = z3.BoolVal(False)
            for bid in mblocks:
                if self.stride_of(self.blocks[bid]) is None:
                    res.init[bid] = z3.K(z3.IntSort(), z3.BoolVal(False))
        # heap blocks allocated inside the body must have been freed there
        if end is not None:
            for bid in end.heapset:
                if bid not in hd.heapset and bid not in end.freed:
                    if 'mem' in self.facets:
                        self.oblige(end, 'no leak', z3.BoolVal(False), n, 'block %s allocated in a loop' % self.blocks[bid].name)
        return res

    def stride_of(self, b):
        if b.stride is not None:
            return b.stride
        if b.param or self.slice_count_t is None or not b.heap:
            return None
        q = poly_div(b.size, self.slice_count_t)
        return q

    def vname(self, did):
        return self.names.get(did, 'v')

    names = {}

    def holds(self, st, f, ms):
        if f is None:
            return True
        r = self.query(st.pc, f, ms)[0]
        if r == 'unknown':
            qf = [p for p in st.pc if not has_quant(p)]
            if len(qf) != len(st.pc):
                r = self.query(qf, f, ms)[0]
        return r == 'proved'

    def cand(self, c, st, lc):
        try:
            return c.fn(st, lc)
        except KeyError:
            return None

    def check_cands(self, info, st, entry, lc):
        alive = [c for c in info.cands if c.alive]
        todo = []
        for c in alive:
            f = self.cand(c, st, lc)
            if f is None:
                c.alive = False
                self.kills += 1
                continue
            todo.append((c, f))
        if not todo:
            return
        sv = solver(self.fast_ms)
        sv.set('smt.mbqi', False)
        sv.add(*st.pc)
        qf = None
        for c, f in todo:
            self.n_queries += 1
            if z3.is_true(z3.simplify(f)):
                continue
            sv.push()
            sv.add(z3.Not(f))
            r = sv.check()
            sv.pop()
            if r == z3.unsat:
                continue
            if r == z3.unknown and not has_quant(f):
                # once more without the quantified hypotheses and the incremental core
                if qf is None:
                    qf = [p for p in st.pc if not has_quant(p)]
                if self.query(qf, f, self.fast_ms)[0] == 'proved':
                    continue
            c.alive = False
            self.kills += 1

    def confirm(self, info, st, lc, n, what):
        """The invariant of one loop as an obligation of the checking pass."""
        fs = [(c, self.cand(c, st, lc)) for c in info.cands if c.alive]
        fs = [(c, f) for c, f in fs if f is not None]
        if not fs:
            return
        t0 = time.time()
        bad = self.prove_all(st.pc, fs, self.timeout_ms)
        where = '%s:%s' % (self.tu['path'], n.get('_line'))
        self.ledger.add(Obl(self.unit, 'loop invariant %s (%d clauses)' % (what, len(fs)), 'unknown' if bad else 'proved', 'z3',
                            time.time() - t0, None, where, ', '.join(c.name for c in bad)))

    def prove_all(self, pc, fs, ms):
        """The clauses that could not be proved."""
        s = solver(ms)
        s.set('smt.mbqi', False)
        s.add(*pc)
        bad = []
        for c, f in fs:
            self.n_queries += 1
            if z3.is_true(z3.simplify(f)):
                continue
            s.push()
            s.add(z3.Not(f))
            r = s.check()
            s.pop()
            if r != z3.unsat:
                bad.append((c, f))
        out = []
        for c, f in bad:
            qf = [p for p in pc if not has_quant(p)]
            if self.query(qf, f, ms)[0] != 'proved' and self.query(pc, f, ms)[0] != 'proved':
                out.append(c)
        return out

    def loop_counter(self, cond, hd, mvars):
        """(decl, term, bound, strict) for conditions  v < E / v <= E / E > v  with v modified, int."""
        n = strip_casts(cond)
        if n.get('kind') != 'BinaryOperator':
            return None
        op = n['opcode']
        a, b = n['inner']
        if op in ('>', '>='):
            a, b = b, a
            op = {'>': '<', '>=': '<='}[op]
        if op not in ('<', '<=', '!='):
            return None
        d = strip_casts(a)
        if d.get('kind') != 'DeclRefExpr' or d['referencedDecl']['id'] not in mvars:
            return None
        did = d['referencedDecl']['id']
        sv = self.mode
        self.mode = 'quiet'
        s = hd.copy()
        try:
            bound = self.expr(s, b)
        except Unsupported:
            bound = None
        self.mode = sv
        if bound is not None and not (z3.is_expr(bound) and z3.is_int(bound)):
            bound = None
        return did, hd.vars[did], bound, op == '<'

    # ------------------------------------------------------------------ candidate invariants
    def candidates(self, n, entry, hd, cond, mvars, mblocks, mods):
        out = []
        ints = [d for d in mvars if not isinstance(hd.vars[d], Ptr) and z3.is_int(hd.vars[d])]
        ptrs = [d for d in mvars if isinstance(hd.vars[d], Ptr)]
        reals = [d for d in mvars if not isinstance(hd.vars[d], Ptr) and z3.is_real(hd.vars[d])]

        def add(name, fn):
            out.append(Cand(name, fn))

        def val(s, d):
            v = s.vars[d]
            return v.off if isinstance(v, Ptr) else v

        def val0(lc, d):
            v = lc.entry.vars[d]
            return v.off if isinstance(v, Ptr) else v
        allint = ints + ptrs
        for d in allint:
            nm = self.vname(d)
            add('%s >= its value at entry' % nm, lambda s, lc, d=d: val(s, d) >= val0(lc, d))
            add('%s <= its value at entry' % nm, lambda s, lc, d=d: val(s, d) <= val0(lc, d))
        # int cells of address-taken locals
        cells = [b for b in mblocks if self.blocks[b].kind == 'int' and simp(self.blocks[b].size).eq(I(1))]
        for b in cells:
            nm = self.blocks[b].name
            add('*%s >= 0' % nm, lambda s, lc, b=b: z3.Select(s.mem[b], I(0)) >= 0)
            for d in ints:
                add('*%s <= %s' % (nm, self.vname(d)),
                    lambda s, lc, b=b, d=d: z3.Select(s.mem[b], I(0)) <= val(s, d))
        # bounds taken from the loop condition
        for (a, op, b) in comparisons(cond):
            def mk(s, e):
                sv = self.mode
                self.mode = 'quiet'
                try:
                    return self.expr(s.copy(), e)
                finally:
                    self.mode = sv

            def f(s, lc, a=a, b=b, op=op):
                x, y = mk(s, a), mk(s, b)
                x0, y0 = mk(lc.entry, a), mk(lc.entry, b)
                if not (z3.is_expr(x) and z3.is_int(x) and z3.is_expr(y) and z3.is_int(y)):
                    return None
                if op == '<':
                    g = x <= y
                elif op == '<=':
                    g = x <= y + 1
                elif op == '>':
                    g = x >= y
                elif op == '>=':
                    g = x >= y - 1
                else:
                    return None
                return z3.Or(g, z3.And(x == x0, y == y0))
            add('weak loop condition', f)
            if op == '!=':
                add('v <= bound', lambda s, lc, a=a, b=b: mk(s, a) <= mk(s, b))
        # linear relations between counters
        if 1 < len(allint) <= 6:
            for i, d in enumerate(allint):
                for e in allint[i + 1:]:
                    add('%s and %s advance together' % (self.vname(d), self.vname(e)),
                        lambda s, lc, d=d, e=e: val(s, d) - val0(lc, d) == val(s, e) - val0(lc, e))
            if len(allint) >= 3:
                for d in allint:
                    rest = [x for x in allint if x != d]
                    for i, e in enumerate(rest):
                        for g in rest[i + 1:]:
                            add('%s = %s + %s' % (self.vname(d), self.vname(e), self.vname(g)),
                                lambda s, lc, d=d, e=e, g=g: val(s, d) - val0(lc, d) ==
                                (val(s, e) - val0(lc, e)) + (val(s, g) - val0(lc, g)))
        if self.contract.strides and len(allint) >= 2:
            for d in allint:
                for e in allint:
                    if d == e:
                        continue
                    for si, sf in enumerate(self.contract.strides):
                        def g(s, lc, d=d, e=e, sf=sf):
                            k = sf(lc)
                            return val(s, d) - val0(lc, d) == (val(s, e) - val0(lc, e)) * k
                        add('%s advances by stride #%d of %s' % (self.vname(d), si, self.vname(e)), g)
                        if self.contract.atmost:
                            def g2(s, lc, d=d, e=e, sf=sf):
                                k = sf(lc)
                                return val(s, d) - val0(lc, d) <= (val(s, e) - val0(lc, e)) * k
                            add('%s advances by at most stride #%d of %s' % (self.vname(d), si, self.vname(e)), g2)
        # definite initialisation
        if self.facets & {'init', 'flow'}:
            for d in mvars:
                add('%s is initialised' % self.vname(d), lambda s, lc, d=d: s.vinit[d])
                add('%s is initialised if it was' % self.vname(d),
                    lambda s, lc, d=d: z3.Implies(lc.entry.vinit[d], s.vinit[d]))
            for b in mblocks:
                if hd.init[b] is None:
                    continue
                nm = self.blocks[b].name
                size = self.blocks[b].size

                def fi(s, lc, b=b, size=size):
                    k = z3.Int('k!i')
                    ia, ie = s.init[b], lc.entry.init[b]
                    if ia is None:
                        return z3.BoolVal(True)
                    if ie is None:
                        return FA(k, z3.Select(ia, k), z3.Select(ia, k))
                    return FA(k, z3.Implies(z3.Select(ie, k), z3.Select(ia, k)), z3.Select(ia, k))
                add('cells of %s stay initialised' % nm, fi)

                def fa(s, lc, b=b, size=size):
                    k = z3.Int('k!i')
                    ia = s.init[b]
                    if ia is None:
                        return z3.BoolVal(True)
                    return FA(k, z3.Implies(z3.And(k >= 0, k < size), z3.Select(ia, k)), z3.Select(ia, k))
                add('%s is initialised' % nm, fa)
                idxs = [(self.vname(d), (lambda s, d=d: s.vars[d])) for d in ints] + \
                       [('*' + self.blocks[c].name, (lambda s, c=c: z3.Select(s.mem[c], I(0)))) for c in cells]
                for inm, get in idxs:
                    def fp(s, lc, b=b, get=get):
                        k = z3.Int('k!i')
                        ia = s.init[b]
                        if ia is None:
                            return z3.BoolVal(True)
                        return FA(k, z3.Implies(z3.And(k >= 0, k < get(s)), z3.Select(ia, k)), z3.Select(ia, k))
                    add('%s is initialised below %s' % (nm, inm), fp)
                for pnm, pos in self.fill_positions(ints):
                    def fq(s, lc, b=b, pos=pos):
                        k = z3.Int('k!i')
                        ia = s.init[b]
                        if ia is None:
                            return z3.BoolVal(True)
                        return FA(k, z3.Implies(z3.And(k >= 0, k < pos(s, lc)), z3.Select(ia, k)), z3.Select(ia, k))
                    add('%s is initialised below %s' % (nm, pnm), fq)
        if 'nonneg' in self.facets:
            for b in mblocks:
                if self.blocks[b].kind == 'float':
                    def fn(s, lc, b=b):
                        k = z3.Int('k!n')
                        return FA(k, z3.Select(s.mem[b], k) >= 0, z3.Select(s.mem[b], k))
                    def fn2(s, lc, b=b):
                        k = z3.Int('k!n')
                        return FA(k, z3.Implies(z3.And(k >= 0, k < self.blocks[b].size), z3.Select(s.mem[b], k) >= 0), z3.Select(s.mem[b], k))
                    def fn3(s, lc, b=b):
                        k = z3.Int('k!n')
                        return FA(k, z3.Implies(z3.And(k >= 0, k < self.blocks[b].size), z3.Select(s.mem[b], k) <= 0), z3.Select(s.mem[b], k))
                    add('%s has no negative element' % self.blocks[b].name, fn2)
                    add('%s has no positive element' % self.blocks[b].name, fn3)
            for d in reals:
                add('%s is not negative' % self.vname(d), lambda s, lc, d=d: s.vars[d] >= 0)
        if self.contract.cands is not None:
            lc = LoopCtx(self, entry, mvars, mblocks)
            counter = self.loop_counter(cond, hd, mvars) if cond is not None else None
            lc.counters = [counter[0]] if counter else ints
            for nm, fn in self.contract.cands(lc):
                add(nm, fn)
        return out

    def fill_positions(self, ints):
        """Positions  sum of counter * stride  over a nest of loops, outermost counter first."""
        out = []
        if not self.contract.fill:
            return out
        L = self.contract.fill
        enc = [d for d, _ in self.enclosing]
        for skip in range(len(enc) + 1):
            head = enc[skip:]
            if len(head) + 1 > len(L):
                continue
            for d in ints:
                if d in head:
                    continue
                seq = head + [d]

                def pos(s, lc, seq=seq):
                    t = I(0)
                    for x, f in zip(seq, L):
                        t = t + s.vars[x] * f(lc)
                    return t
                out.append(('position(%s)' % ', '.join(self.vname(x) for x in seq), pos))
        return out

    # ------------------------------------------------------------------ conditions and expressions
    def cond(self, st, n):
        n0 = strip_parens(n)
        k = n0.get('kind')
        if k == 'ImplicitCastExpr' and n0.get('castKind') in ('IntegralToBoolean', 'FloatingToBoolean', 'NoOp', 'LValueToRValue', 'IntegralCast') \
                and strip_parens(n0['inner'][0]).get('kind') in ('BinaryOperator', 'UnaryOperator') \
                and n0.get('castKind') != 'LValueToRValue':
            return self.cond(st, n0['inner'][0])
        if k == 'BinaryOperator':
            op = n0['opcode']
            a, b = n0['inner']
            if op in ('&&', '||'):
                ca = self.cond(st, a)
                s2 = st.copy()
                s2.pc.append(ca if op == '&&' else z3.Not(ca))
                cb = self.cond(s2, b)
                st.vars, st.mem = (s2.vars, s2.mem) if False else (st.vars, st.mem)
                return z3.And(ca, cb) if op == '&&' else z3.Or(ca, cb)
            if op in ('<', '<=', '>', '>=', '==', '!='):
                x, y = self.expr(st, a), self.expr(st, b)
                return self.compare(st, op, x, y)
        if k == 'UnaryOperator' and n0.get('opcode') == '!':
            return z3.Not(self.cond(st, n0['inner'][0]))
        v = self.expr(st, n0)
        if isinstance(v, Ptr):
            return z3.BoolVal(True)
        if isinstance(v, Null):
            return z3.BoolVal(False)
        if z3.is_bool(v):
            return v
        return v != 0

    def compare(self, st, op, x, y):
        if isinstance(x, (Ptr, Null, Invalid)) or isinstance(y, (Ptr, Null, Invalid)):
            xn, yn = isinstance(x, Null) or _zero(x), isinstance(y, Null) or _zero(y)
            if xn or yn:
                same = xn and yn
                return z3.BoolVal(same if op == '==' else not same)
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.b == y.b:
                x, y = x.off, y.off
            else:
                raise Unsupported('pointer comparison')
        if x.sort() != y.sort():
            x, y = R(x), R(y)
        return {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y,
                '==': lambda: x == y, '!=': lambda: x != y}[op]()

    def expr(self, st, n):
        k = n.get('kind')
        f = getattr(self, 'e_' + k, None)
        if f is None:
            raise Unsupported('C construct %s at line %s' % (k, n.get('_line')))
        return f(st, n)

    def e_ParenExpr(self, st, n): return self.expr(st, n['inner'][0])
    def e_ConstantExpr(self, st, n): return self.expr(st, n['inner'][0])
    def e_ExprWithCleanups(self, st, n): return self.expr(st, n['inner'][0])
    def e_IntegerLiteral(self, st, n): return I(int(n['value']))
    def e_CharacterLiteral(self, st, n): return I(int(n['value']))

    def e_StringLiteral(self, st, n):
        b = self.new_block(st, 'str', 'int', I(len(n.get('value', ''))), const=True, site=n['id'])
        return Ptr(b.id, I(0))

    def e_FloatingLiteral(self, st, n):
        from fractions import Fraction
        return z3.RealVal(str(Fraction(float(n['value'])) if False else Fraction(n['value'])))

    def e_UnaryExprOrTypeTraitExpr(self, st, n):
        if n.get('name') != 'sizeof':
            raise Unsupported('alignof')
        t = n.get('argType')
        if t:
            q = t.get('desugaredQualType') or t.get('qualType')
        else:
            q = cast.qt(n['inner'][0])
        sz = cast.sizeof(q)
        if sz is None:
            raise Unsupported('sizeof %s' % q)
        return I(sz)

    def e_DeclRefExpr(self, st, n):
        d = n['referencedDecl']
        if d.get('kind') == 'FunctionDecl':
            return FnRef(d['name'])
        if d.get('kind') == 'EnumConstantDecl':
            raise Unsupported('enum constant')
        did = d['id']
        self.names[did] = d.get('name', 'v')
        if did not in st.vars:
            # a file-scope variable
            k = cast.kind_of(cast.qt(n))
            if isinstance(k, tuple):
                raise Unsupported('global pointer %s' % d.get('name'))
            st.vars[did] = self.fresh('global_' + d.get('name', ''), z3.RealSort() if k == 'float' else z3.IntSort())
            st.vinit[did] = z3.BoolVal(True)
        v = st.vars[did]
        if isinstance(v, tuple):            # address-taken scalar
            return self.load(st, Ptr(v[1], I(0)), n)
        self.check_vinit(st, did, n)
        return v

    def check_vinit(self, st, did, n):
        if self.facets & {'init', 'flow'} and self.mode == 'check':
            vi = simp(st.vinit[did])
            if not z3.is_true(vi):
                self.oblige(st, 'initialised before use', vi, n, 'variable %s' % self.vname(did))

    # lvalues: ('v', did) | ('m', Ptr)
    def lvalue(self, st, n):
        n = strip_parens(n)
        k = n.get('kind')
        if k == 'DeclRefExpr':
            did = n['referencedDecl']['id']
            self.names[did] = n['referencedDecl'].get('name', 'v')
            if did not in st.vars:
                kk = cast.kind_of(cast.qt(n))
                st.vars[did] = self.fresh('global_' + self.names[did], z3.RealSort() if kk == 'float' else z3.IntSort())
                st.vinit[did] = z3.BoolVal(True)
            v = st.vars[did]
            if isinstance(v, tuple):
                return ('m', Ptr(v[1], I(0)))
            return ('v', did)
        if k == 'ArraySubscriptExpr':
            p = self.expr(st, n['inner'][0])
            i = self.expr(st, n['inner'][1])
            if not isinstance(p, Ptr) and isinstance(i, Ptr):
                p, i = i, p
            return ('m', self.padd(p, i, n))
        if k == 'UnaryOperator' and n['opcode'] == '*':
            p = self.expr(st, n['inner'][0])
            if not isinstance(p, Ptr):
                raise Unsupported('dereference of an unknown pointer at line %s' % n.get('_line'))
            return ('m', p)
        if k in ('ImplicitCastExpr', 'CStyleCastExpr') and n.get('castKind') in ('NoOp', 'LValueBitCast'):
            return self.lvalue(st, n['inner'][0])
        raise Unsupported('lvalue %s at line %s' % (k, n.get('_line')))

    def padd(self, p, i, n):
        if not isinstance(p, Ptr):
            raise Unsupported('indexing an unknown pointer at line %s' % n.get('_line'))
        return Ptr(p.b, simp(p.off + i))

    def bounds(self, st, p, n, what):
        b = self.blocks[p.b]
        if self.mode != 'check':
            return
        if p.b in st.freed and 'mem' in self.facets:
            self.oblige(st, 'no use after free', z3.BoolVal(False), n, b.name)
        if 'mem' in self.facets:
            self.oblige(st, 'index in bounds', z3.And(p.off >= 0, p.off < b.size), n, '%s of %s' % (what, b.name))
        elif not (z3.is_int_value(p.off) and z3.is_int_value(simp(b.size))):
            # bounds are another check's business; here they may be relied on
            st.pc.append(z3.And(p.off >= 0, p.off < b.size))

    def footprint(self, st, p, n, what, span=None):
        """An access to a sliced block lies in the slice the loop is working on."""
        if 'flow' not in self.facets or self.mode != 'check' or self.slice_count_t is None:
            return
        b = self.blocks[p.b]
        w = self.stride_of(b)
        if w is None:
            return
        lo, hi = p.off, p.off + (span if span is not None else 1)
        if self.slice_active is None:
            self.oblige(st, 'slice footprint', z3.BoolVal(False), n, '%s of %s outside a loop over slices' % (what, b.name))
            return
        s = self.slice_active
        self.oblige(st, 'slice footprint', z3.And(lo >= s * w, hi <= (s + 1) * w), n, '%s of %s stays in the slice being processed' % (what, b.name))

    def load(self, st, p, n):
        b = self.blocks[p.b]
        self.bounds(st, p, n, 'read')
        self.footprint(st, p, n, 'read')
        if self.facets & {'init', 'flow'} and self.mode == 'check':
            ia = st.init.get(p.b)
            if ia is not None:
                self.oblige(st, 'initialised before use', z3.Select(ia, p.off), n, 'element of %s' % b.name)
        if self.contract.hints and b.param:
            st.pc.extend(self.contract.hints(b, p.off))
        return z3.Select(st.mem[p.b], p.off)

    def assign(self, st, lv, v, n):
        if lv[0] == 'v':
            did = lv[1]
            self.note_write(('v', did))
            cur = st.vars.get(did)
            if isinstance(v, (Ptr, Null, Invalid)):
                if isinstance(v, Ptr) and isinstance(cur, Ptr) and v.b == cur.b:
                    pass
                else:
                    self.note_write(('p=', did))
                st.vars[did] = v
            else:
                if z3.is_expr(cur) and z3.is_real(cur) and z3.is_int(v):
                    v = R(v)
                elif z3.is_expr(cur) and z3.is_int(cur) and z3.is_real(v):
                    v = trunc(v)
                st.vars[did] = v
            st.vinit[did] = z3.BoolVal(True)
            return
        p = lv[1]
        b = self.blocks[p.b]
        self.note_write(('m', p.b))
        self.bounds(st, p, n, 'write')
        self.footprint(st, p, n, 'write')
        self.frame(st, p.b, p.off, p.off + 1, n)
        if b.sort == z3.RealSort() and z3.is_int(v):
            v = R(v)
        elif b.sort == z3.IntSort() and z3.is_real(v):
            v = trunc(v)
        st.mem[p.b] = z3.Store(st.mem[p.b], p.off, v)
        if st.init.get(p.b) is not None:
            st.init[p.b] = z3.Store(st.init[p.b], p.off, z3.BoolVal(True))

    def frame(self, st, bid, lo, hi, n):
        b = self.blocks[bid]
        if self.mode != 'check' or b.writable is None:
            return
        goal = z3.Or(*[z3.And(lo >= wl, hi <= wh) for wl, wh in b.writable]) if b.writable else z3.BoolVal(False)
        self.oblige(st, 'frame', goal, n, 'write to %s is allowed by the contract' % b.name)

    def e_ArraySubscriptExpr(self, st, n):
        lv = self.lvalue(st, n)
        return self.load(st, lv[1], n)

    def e_UnaryOperator(self, st, n):
        op = n['opcode']
        if op == '&':
            t = strip_parens(n['inner'][0])
            if t.get('kind') == 'DeclRefExpr' and t['referencedDecl'].get('kind') == 'FunctionDecl':
                return FnRef(t['referencedDecl']['name'])
            lv = self.lvalue(st, n['inner'][0])
            if lv[0] == 'm':
                return lv[1]
            raise Unsupported('address of a register variable')
        if op == '*':
            lv = self.lvalue(st, n)
            return self.load(st, lv[1], n)
        if op in ('++', '--'):
            lv = self.lvalue(st, n['inner'][0])
            old = self.rvalue(st, lv, n)
            d = 1 if op == '++' else -1
            new = Ptr(old.b, simp(old.off + d)) if isinstance(old, Ptr) else (old + d)
            self.assign(st, lv, new, n)
            return old if n.get('isPostfix') else new
        if op == '!':
            c = self.cond(st, n['inner'][0])
            return z3.If(c, I(0), I(1))
        v = self.expr(st, n['inner'][0])
        if op == '-':
            return -v
        if op == '+':
            return v
        raise Unsupported('unary %s' % op)

    def rvalue(self, st, lv, n):
        if lv[0] == 'v':
            self.check_vinit(st, lv[1], n)
            return st.vars[lv[1]]
        return self.load(st, lv[1], n)

    def e_BinaryOperator(self, st, n):
        op = n['opcode']
        a, b = n['inner']
        if op == '=':
            v = self.expr(st, b)
            lv = self.lvalue(st, a)
            self.assign(st, lv, v, n)
            return v
        if op == ',':
            self.expr(st, a)
            return self.expr(st, b)
        if op in ('&&', '||', '<', '<=', '>', '>=', '==', '!='):
            return z3.If(self.cond(st, n), I(1), I(0))
        x, y = self.expr(st, a), self.expr(st, b)
        return self.arith(st, op, x, y, n)

    def arith(self, st, op, x, y, n):
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if op == '+':
                return self.padd(x, y, n) if isinstance(x, Ptr) else self.padd(y, x, n)
            if op == '-' and isinstance(x, Ptr) and isinstance(y, Ptr) and x.b == y.b:
                return x.off - y.off
            if op == '-' and isinstance(x, Ptr):
                return Ptr(x.b, simp(x.off - y))
            raise Unsupported('pointer arithmetic')
        if not z3.is_expr(x) or not z3.is_expr(y):
            raise Unsupported('operands of %s at line %s' % (op, n.get('_line')))
        isint = z3.is_int(x) and z3.is_int(y)
        if not isint:
            x, y = R(x), R(y)
        if op == '+':
            return x + y
        if op == '-':
            return x - y
        if op == '*':
            return x * y
        if op == '/':
            if isint:
                if 'mem' in self.facets:
                    self.oblige(st, 'divisor is not zero', y != 0, n)
                return cdiv(x, y)
            return self.fdiv(st, x, y)
        if op == '%':
            if 'mem' in self.facets:
                self.oblige(st, 'divisor is not zero', y != 0, n)
            return x - y * cdiv(x, y)
        if op == '<<':
            return x * self.pow2(st, y)
        if op == '>>':
            return cdiv(x, self.pow2(st, y))
        raise Unsupported('operator %s at line %s' % (op, n.get('_line')))

    def fdiv(self, st, x, y):
        if 'nonneg' in self.facets:
            # x/0 is +-inf or NaN in IEEE arithmetic; all that is used of it is that a
            # non-negative number divided by +0 is not negative
            q = uf('fdiv', x, y)
            st.pc.append(z3.Implies(y != 0, q * y == x))
            st.pc.append(z3.Implies(z3.And(x >= 0, y >= 0), q >= 0))
            return q
        return x / y

    def pow2(self, st, y):
        y = simp(y)
        if z3.is_int_value(y):
            return I(2 ** y.as_long())
        p = pow2f(y)
        st.pc.append(z3.Implies(y >= 0, p >= 1))
        st.pc.append(z3.Implies(y == 0, p == 1))
        return p

    def e_CompoundAssignOperator(self, st, n):
        op = n['opcode'][:-1]
        a, b = n['inner']
        v = self.expr(st, b)
        lv = self.lvalue(st, a)
        old = self.rvalue(st, lv, n)
        new = self.arith(st, op, old, v, n)
        if z3.is_expr(new) and z3.is_real(new) and cast.kind_of(cast.qt(n)) in ('int', 'uint'):
            new = trunc(new)
        self.assign(st, lv, new, n)
        return new

    def e_ConditionalOperator(self, st, n):
        c = self.cond(st, n['inner'][0])
        sa, sb = st.copy(), st.copy()
        sa.pc.append(c)
        sb.pc.append(z3.Not(c))
        x = self.expr(sa, n['inner'][1])
        y = self.expr(sb, n['inner'][2])
        m = self.merge(c, sa, sb, len(st.pc))
        st.vars, st.vinit, st.mem, st.init, st.pc, st.freed, st.heapset = m.vars, m.vinit, m.mem, m.init, m.pc, m.freed, m.heapset
        return self.ite(c, x, y)

    def e_ImplicitCastExpr(self, st, n): return self.cast(st, n)
    def e_CStyleCastExpr(self, st, n): return self.cast(st, n)

    def cast(self, st, n):
        ck = n.get('castKind')
        inner = n['inner'][0]
        if ck == 'LValueToRValue':
            return self.expr(st, inner)
        if ck in ('NullToPointer',):
            return Null()
        if ck in ('FunctionToPointerDecay', 'ArrayToPointerDecay', 'NoOp', 'BuiltinFnToFnPtr'):
            if ck == 'ArrayToPointerDecay' and strip_parens(inner).get('kind') == 'DeclRefExpr':
                v = st.vars.get(strip_parens(inner)['referencedDecl']['id'])
                if isinstance(v, Ptr):
                    return v
            return self.expr(st, inner)
        if ck == 'ToVoid':
            self.expr(st, inner)
            return None
        if ck == 'BitCast':
            i2 = strip_parens(inner)
            # (T*) malloc(...)
            if i2.get('kind') in ('CallExpr',) or (i2.get('kind') == 'ImplicitCastExpr'):
                self.alloc_type = cast.kind_of(cast.qt(n))
            v = self.expr(st, inner)
            if isinstance(v, Ptr):
                tk = cast.kind_of(cast.qt(n))
                ek = cast.kind_of(tk[1]) if isinstance(tk, tuple) else None
                b = self.blocks[v.b]
                if ek in ('int', 'uint', 'float') and (b.kind == 'float') != (ek == 'float'):
                    raise Unsupported('pointer reinterpreted at line %s' % n.get('_line'))
            return v
        v = self.expr(st, inner)
        return self.convert(st, v, cast.kind_of(cast.qt(n)), n, ck)

    def convert(self, st, v, k, n, ck=None):
        if isinstance(v, (Ptr, Null, Invalid, FnRef)) or v is None:
            if isinstance(k, tuple) and k[0] == 'ptr' and z3.is_expr(v):
                return Null()
            return v
        if isinstance(k, tuple) and k[0] == 'ptr':
            if z3.is_int_value(simp(v)) and simp(v).as_long() == 0:
                return Null()
            raise Unsupported('integer to pointer')
        if z3.is_bool(v):
            v = z3.If(v, I(1), I(0))
        if k == 'float':
            return R(v)
        if k in ('int', 'uint'):
            if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
                return z3.If(v != 0, I(1), I(0))
            if z3.is_real(v):
                v = trunc(v)
            if k == 'uint' and 'mem' in self.facets and not z3.is_int_value(v):
                src = cast.kind_of(cast.qt((n.get('inner') or [{}])[0])) if n.get('inner') else None
                if src == 'int':
                    self.oblige(st, 'conversion to unsigned keeps the value', v >= 0, n)
            return v
        return v

    # ------------------------------------------------------------------ calls
    def e_CallExpr(self, st, n):
        callee = self.expr(st, n['inner'][0])
        if not isinstance(callee, FnRef):
            raise Unsupported('indirect call')
        name = callee.name
        at = getattr(self, 'alloc_type', None)
        self.alloc_type = None
        if name in ('malloc', 'calloc'):
            return self.alloc(st, n, name, at)
        args = n['inner'][1:]
        h = getattr(self, 'c_' + name, None)
        if h is not None:
            return h(st, n, args)
        if name in self.contracts:
            vals = [self.expr(st, a) for a in args]
            return self.call_contract(st, n, self.contracts[name], vals)
        if name in self.funcs:
            vals = [self.expr(st, a) for a in args]
            return self.inline(st, n, self.funcs[name], vals)
        raise Unsupported('call to %s at line %s' % (name, n.get('_line')))

    def alloc(self, st, n, name, at):
        args = n['inner'][1:]
        if at is None:
            at = self.decl_ptr_type
        ek = 'float'
        esz = 4
        if isinstance(at, tuple) and at[0] == 'ptr':
            ek = cast.kind_of(at[1])
            esz = cast.sizeof(at[1]) or 4
        if isinstance(ek, tuple):
            raise Unsupported('allocation of %s' % (ek,))
        if name == 'calloc':
            cnt = self.expr(st, args[0])
            per = simp(self.expr(st, args[1]))
            if z3.is_int_value(per) and per.as_long() != esz:
                cnt = const_div(cnt * per, esz)
        else:
            cnt = const_div(self.expr(st, args[0]), esz)
        if 'mem' in self.facets:
            self.oblige(st, 'allocation size', cnt >= 0, n)
        self.fresh_n += 1
        b = self.new_block(st, 'heap%d' % n.get('_line', 0), 'float' if ek == 'float' else 'int', simp(cnt),
                           heap=True, zero=name == 'calloc', inited=name == 'calloc', site=n['id'])
        return Ptr(b.id, I(0))

    decl_ptr_type = None

    def c_free(self, st, n, args):
        p = self.expr(st, args[0])
        if isinstance(p, Null):
            return None
        if not isinstance(p, Ptr):
            raise Unsupported('free of an unknown pointer at line %s' % n.get('_line'))
        if self.mode == 'check' and 'mem' in self.facets:
            self.oblige(st, 'free is valid', z3.And(z3.BoolVal(self.blocks[p.b].heap and p.b not in st.freed), p.off == 0), n, self.blocks[p.b].name)
        self.note_write(('f', p.b))
        st.freed.add(p.b)
        return None

    def c_memset(self, st, n, args):
        p = self.expr(st, args[0])
        val = simp(self.expr(st, args[1]))
        if not isinstance(p, Ptr):
            raise Unsupported('memset')
        b = self.blocks[p.b]
        cnt = const_div(self.expr(st, args[2]), self.elem_size(args[0]))
        if not (z3.is_int_value(val) and val.as_long() == 0):
            raise Unsupported('memset with a non-zero byte')
        self.range_write(st, p, cnt, n, lambda k: (I(0) if b.sort == z3.IntSort() else z3.RealVal(0)), aligned=True)
        return p

    def elem_size(self, a):
        # type of the pointer before the implicit conversion to void*
        x = a
        while x.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr') and cast.strip(cast.qt(x)) in ('void *', 'const void *', 'void*'):
            x = x['inner'][0]
        k = cast.kind_of(cast.qt(x))
        return cast.sizeof(k[1]) if isinstance(k, tuple) and k[0] == 'ptr' and cast.sizeof(k[1]) else 4

    def range_write(self, st, p, cnt, n, valf, aligned=False):
        b = self.blocks[p.b]
        self.note_write(('m', p.b))
        if self.mode == 'check':
            if 'mem' in self.facets:
                if p.b in st.freed:
                    self.oblige(st, 'no use after free', z3.BoolVal(False), n, b.name)
                self.oblige(st, 'index in bounds', z3.And(cnt >= 0, p.off >= 0, p.off + cnt <= b.size), n, 'block write of %s' % b.name)
            self.frame(st, p.b, p.off, p.off + cnt, n)
            if self.slice_active is not None:
                self.footprint(st, p, n, 'block write', cnt)
        old = st.mem[p.b]
        new = self.fresh('M_' + b.name, old.sort())
        k = z3.Int('k!w')
        inside = z3.And(k >= p.off, k < p.off + cnt)
        st.pc.append(FA(k, z3.Select(new, k) == z3.If(inside, valf(k), z3.Select(old, k)), z3.Select(new, k)))
        st.mem[p.b] = new
        if st.init.get(p.b) is not None:
            io = st.init[p.b]
            inew = self.fresh('I_' + b.name, io.sort())
            st.pc.append(FA(k, z3.Select(inew, k) == z3.Or(inside, z3.Select(io, k)), z3.Select(inew, k)))
            st.init[p.b] = inew

    def c_memcpy(self, st, n, args):
        d, s = self.expr(st, args[0]), self.expr(st, args[1])
        cnt = const_div(self.expr(st, args[2]), self.elem_size(args[0]))
        sb = self.blocks[s.b]
        if self.mode == 'check':
            if 'mem' in self.facets:
                self.oblige(st, 'index in bounds', z3.And(cnt >= 0, s.off >= 0, s.off + cnt <= sb.size), n, 'block read of %s' % sb.name)
            if self.slice_active is not None:
                self.footprint(st, s, n, 'block read', cnt)
            elif 'flow' in self.facets and self.slice_count_t is not None:
                ws, wd = self.stride_of(sb), self.stride_of(self.blocks[d.b])
                if ws is not None or wd is not None:
                    ok = z3.And(s.off == d.off, ws == wd) if ws is not None and wd is not None else z3.BoolVal(False)
                    self.oblige(st, 'slice footprint', ok, n, 'whole-array copy maps every slice to itself')
            if self.facets & {'init', 'flow'} and st.init.get(s.b) is not None:
                self.oblige(st, 'initialised before use', self.all_init(st.init[s.b], s.off, s.off + cnt), n, 'block read of %s' % sb.name)
        src = st.mem[s.b]
        self.range_write(st, d, cnt, n, lambda k: z3.Select(src, s.off + (k - d.off)), aligned=True)
        return d

    c___builtin_memcpy = c_memcpy
    c___builtin_memset = c_memset
    c_memmove = c_memcpy

    def _real1(name):
        def f(self, st, n, args):
            x = R(self.expr(st, args[0]))
            return uf(name, x)
        return f
    c_sin, c_sinf, c_cos, c_cosf = _real1('sin'), _real1('sin'), _real1('cos'), _real1('cos')
    c_exp, c_expf, c_log, c_logf = _real1('exp'), _real1('exp'), _real1('log'), _real1('log')
    c_tan, c_atan = _real1('tan'), _real1('atan')

    def c_sqrt(self, st, n, args):
        x = R(self.expr(st, args[0]))
        r = uf('sqrt', x)
        st.pc.append(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
        if 'nonneg' in self.facets:
            for a in squares(x):          # sqrt(a*a + b) >= |a| for b >= 0
                st.pc.append(z3.Implies(x >= a * a, z3.And(r >= a, r >= -a)))
                rest = simp(x - a * a, )
                st.pc.append(z3.Implies(rest >= 0, z3.And(r >= a, r >= -a)))
        return r
    c_sqrtf = c_sqrt

    def c_fmod(self, st, n, args):
        x, y = R(self.expr(st, args[0])), R(self.expr(st, args[1]))
        return uf('fmod', x, y)
    c_fmodf = c_fmod

    def c_pow(self, st, n, args):
        x, y = simp(R(self.expr(st, args[0]))), simp(R(self.expr(st, args[1])))
        if z3.is_rational_value(y) and y.denominator_as_long() == 1 and 0 <= y.numerator_as_long() <= 4:
            r = z3.RealVal(1)
            for _ in range(y.numerator_as_long()):
                r = r * x
            return r
        if z3.is_rational_value(x) and x.numerator_as_long() == 2 and x.denominator_as_long() == 1 and z3.is_to_real(y):
            return R(self.pow2(st, y.arg(0)))
        return uf('pow', x, y)
    c_powf = c_pow

    def c_floor(self, st, n, args):
        return R(z3.ToInt(R(self.expr(st, args[0]))))
    c_floorf = c_floor

    def c_ceil(self, st, n, args):
        return -R(z3.ToInt(-R(self.expr(st, args[0]))))
    c_ceilf = c_ceil

    def c_fabs(self, st, n, args):
        x = R(self.expr(st, args[0]))
        return z3.If(x < 0, -x, x)
    c_fabsf = c_fabs

    def c_abs(self, st, n, args):
        x = self.expr(st, args[0])
        return z3.If(x < 0, -x, x)
    c_labs = c_abs

    def c_fmax(self, st, n, args):
        x, y = R(self.expr(st, args[0])), R(self.expr(st, args[1]))
        return z3.If(x > y, x, y)

    def c_fmin(self, st, n, args):
        x, y = R(self.expr(st, args[0])), R(self.expr(st, args[1]))
        return z3.If(x < y, x, y)
    c_fmaxf, c_fminf = c_fmax, c_fmin

    def c_printf(self, st, n, args):
        for a in args:
            self.expr(st, a)
        return I(0)

    def c_omp_set_dynamic(self, st, n, args):
        self.expr(st, args[0])

    c_omp_set_num_threads = c_omp_set_dynamic

    def c_omp_get_max_threads(self, st, n, args):
        t = self.fresh('threads', z3.IntSort())
        st.pc.append(t >= 1)
        return t

    def c_rand(self, st, n, args):
        r = self.fresh('rand', z3.IntSort())
        st.pc.append(r >= 0)
        return r

    def c_qsort(self, st, n, args):
        p = self.expr(st, args[0])
        cnt = self.expr(st, args[1])
        esz = self.expr(st, args[2])
        cmpf = self.expr(st, args[3])
        b = self.blocks[p.b]
        if self.mode == 'check' and 'mem' in self.facets:
            self.oblige(st, 'index in bounds', z3.And(cnt >= 0, p.off >= 0, p.off + cnt <= b.size), n, 'qsort of %s' % b.name)
        self.note_write(('m', p.b))
        old = st.mem[p.b]
        new = self.fresh('M_' + b.name, old.sort())
        k = z3.Int('k!w')
        sorted_at = uf_sorted(b.sort)
        inside = z3.And(k >= p.off, k < p.off + cnt)
        st.pc.append(FA(k, z3.Select(new, k) == z3.If(inside, sorted_at(old, p.off, cnt, k - p.off), z3.Select(old, k)), z3.Select(new, k)))
        st.mem[p.b] = new
        self.qsorts = getattr(self, 'qsorts', [])
        self.qsorts.append((old, p.off, cnt, cmpf.name if isinstance(cmpf, FnRef) else None, esz))
        if self.mode == 'check':
            if 'order' in self.facets:
                self.oblige(st, 'qsort', z3.And(esz == (cast_size_for(b)), z3.BoolVal(isinstance(cmpf, FnRef))), n, 'element size and comparator')
            if 'init' in self.facets and st.init.get(p.b) is not None:
                self.oblige(st, 'initialised before use', self.all_init(st.init[p.b], p.off, p.off + cnt), n, 'qsort of %s' % b.name)
        return None

    def call_contract(self, st, n, c, vals):
        if len(vals) != len(c.params):
            raise Unsupported('%s called with %d arguments' % (c.name, len(vals)))
        pre = st.copy()
        cx = Ctx(self, c.params, vals, pre, pre)
        for i, nm in enumerate(c.params):
            if isinstance(vals[i], Invalid):
                raise Unsupported('unknown pointer passed to %s' % c.name)
        if self.mode == 'check':
            if 'mem' in self.facets:
                for nm, f in c.sizes.items():
                    if cx.has(nm) and isinstance(getattr(cx, nm), PView):
                        pv = getattr(cx, nm)
                        self.oblige(st, 'precondition of %s' % c.name, z3.And(pv.off >= 0, f(cx) <= pv.room), n, 'size of %s' % nm)
            for nm, rq in c.requires(cx):
                self.oblige(st, 'precondition of %s' % c.name, rq, n, nm)
            ptrs = [v.b for v in vals if isinstance(v, Ptr)]
            for nm in c.writes:
                v = vals[c.params.index(nm)]
                if isinstance(v, Ptr) and ptrs.count(v.b) > 1 and 'mem' in self.facets:
                    self.oblige(st, 'precondition of %s' % c.name, z3.BoolVal(False), n, '%s does not alias another argument' % nm)
            if self.facets & {'init', 'flow'}:
                for nm, f in c.reads.items():
                    v = vals[c.params.index(nm)]
                    if isinstance(v, Ptr) and st.init.get(v.b) is not None:
                        lo, hi = f(cx)
                        self.oblige(st, 'initialised before use', self.all_init(st.init[v.b], v.off + lo, v.off + hi), n, '%s passed to %s' % (nm, c.name))
            if 'flow' in self.facets and self.slice_count_t is not None:
                for nm, v in zip(c.params, vals):
                    if isinstance(v, Ptr) and self.stride_of(self.blocks[v.b]) is not None:
                        rng = c.writes.get(nm) or c.reads.get(nm)
                        if rng is not None:
                            lo, hi = rng(cx)
                            self.footprint(st, Ptr(v.b, simp(v.off + lo)), n, 'access by %s' % c.name, simp(hi - lo))
                            if nm in c.reads and nm in c.writes:
                                lo, hi = c.reads[nm](cx)
                                self.footprint(st, Ptr(v.b, simp(v.off + lo)), n, 'access by %s' % c.name, simp(hi - lo))
        else:
            for nm, rq in c.requires(cx):
                st.pc.append(rq)
        for nm, f in c.writes.items():
            v = vals[c.params.index(nm)]
            if not isinstance(v, Ptr):
                continue
            lo, hi = f(cx)
            lo, hi = simp(v.off + lo), simp(v.off + hi)
            self.note_write(('m', v.b))
            self.frame(st, v.b, lo, hi, n)
            b = self.blocks[v.b]
            old = st.mem[v.b]
            new = self.fresh('M_' + b.name, old.sort())
            if z3.is_int_value(lo) and z3.is_int_value(hi) and hi.as_long() - lo.as_long() == 1:
                x = self.fresh('out', b.sort)
                new = z3.Store(old, lo, x)
            else:
                k = z3.Int('k!f')
                if not self.whole(b, lo, hi):
                    st.pc.append(FA(k, z3.Implies(z3.Or(k < lo, k >= hi), z3.Select(new, k) == z3.Select(old, k)), z3.Select(new, k)))
            st.mem[v.b] = new
        now = st
        ret = None
        if c.result is not None:
            ret = self.fresh('ret_' + c.name, z3.IntSort() if c.result == 'int' else z3.RealSort())
        cx2 = Ctx(self, c.params, vals, pre, now, ret)
        for nm, f in c.inits.items():
            v = vals[c.params.index(nm)]
            if isinstance(v, Ptr) and st.init.get(v.b) is not None:
                lo, hi = f(cx2)
                lo, hi = v.off + lo, v.off + hi
                io = st.init[v.b]
                if z3.is_int_value(simp(hi - lo)) and simp(hi - lo).as_long() == 1:
                    st.init[v.b] = z3.Store(io, simp(lo), z3.BoolVal(True))
                else:
                    inew = self.fresh('I_' + self.blocks[v.b].name, io.sort())
                    k = z3.Int('k!w')
                    st.pc.append(FA(k, z3.Select(inew, k) == z3.Or(z3.And(k >= lo, k < hi), z3.Select(io, k)), z3.Select(inew, k)))
                    st.init[v.b] = inew
        for nm, en in list(c.ensures(cx2)) + list(c.assumed_ensures(cx2)):
            st.pc.append(en)
        return ret

    def whole(self, b, lo, hi):
        return z3.is_int_value(lo) and lo.as_long() == 0 and z3.eq(simp(hi), simp(b.size))

    def inline(self, st, n, fn, vals):
        if len(self.stack) > 6 or any(s[1] is fn for s in self.stack):
            raise Unsupported('recursion or deep call chain at %s' % fn['name'])
        decls = cast.params(fn)
        self.stack.append((n['id'], fn))
        sv = self.returns
        svb, svc = self.breaks, self.conts
        self.returns = []
        self.breaks, self.conts = [], []
        if '_taken' not in fn:
            fn['_taken'] = self.address_taken(cast.body(fn))
        inner = st.copy()
        for d, v in zip(decls, vals):
            k = cast.kind_of(cast.qt(d))
            self.names[d['id']] = d.get('name', 'p')
            if z3.is_expr(v):
                v = self.convert(inner, v, k, {})
            self.bind_var(inner, d, v, fn['_taken'])
        out = self.stmt(inner, cast.body(fn))
        rets = self.returns
        self.returns = sv
        self.breaks, self.conts = svb, svc
        self.stack.pop()
        ends = [(s, v) for s, v in rets]
        if out is not None:
            ends.append((out, None))
        if not ends:
            raise Unsupported('%s never returns' % fn['name'])
        res, rv = ends[0]
        if len(ends) > 1:
            rk = z3.is_expr(rv)
            for s, v in ends[1:]:
                b = self.fresh('sel', z3.BoolSort())
                m = 0
                while m < len(res.pc) and m < len(s.pc) and (res.pc[m] is s.pc[m] or z3.eq(res.pc[m], s.pc[m])):
                    m += 1
                if rk and v is not None:
                    rv = self.ite(b, rv, v)
                res = self.merge(b, res, s, m)
        for key in list(res.vars):
            if key not in st.vars:
                del res.vars[key]
        st.vars, st.vinit, st.mem, st.init, st.pc, st.freed, st.heapset = res.vars, res.vinit, res.mem, res.init, res.pc, res.freed, res.heapset
        return rv


class LoopCtx:
    """What candidate-invariant schemas may talk about."""

    def __init__(self, vc, entry, mvars, mblocks):
        self.vc, self.entry, self.mvars, self.mblocks = vc, entry, mvars, mblocks
        names, vals, pre = vc.pre_ctx
        self.fn = Ctx(vc, names, vals, pre, entry)
        self.pre = pre

    def ints(self):
        return [d for d in self.mvars if z3.is_expr(self.entry.vars[d]) and z3.is_int(self.entry.vars[d])]

    def reals(self):
        return [d for d in self.mvars if z3.is_expr(self.entry.vars[d]) and z3.is_real(self.entry.vars[d])]

    def all_ints(self):
        return [d for d, v in self.entry.vars.items() if z3.is_expr(v) and z3.is_int(v)]

    def local_ints(self):
        ids = {d['id'] for d in cast.params(self.vc.fn)}
        return [d for d in self.all_ints() if d not in ids]

    def blocks(self, kind=None):
        return [b for b in self.mblocks if kind is None or self.vc.blocks[b].kind == kind]

    def param_block(self, name):
        names, vals, pre = self.vc.pre_ctx
        return vals[names.index(name)].b

    def name(self, d): return self.vc.vname(d)


def uf_sorted(sort):
    key = ('sorted_at', sort.name())
    if key not in _UFC:
        _UFC[key] = z3.Function('sorted_at_' + sort.name(), z3.ArraySort(z3.IntSort(), sort), z3.IntSort(), z3.IntSort(), z3.IntSort(), sort)
    return _UFC[key]


def cast_size_for(b):
    return 4 if b.kind == 'float' else 2


def squares(e):
    out, stack, seen = [], [e], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_mul(x):
            ch = x.children()
            for i, a in enumerate(ch):
                if any(z3.eq(a, b) for b in ch[i + 1:]) and not any(z3.eq(a, o) for o in out):
                    out.append(a)
        if z3.is_add(x) or z3.is_sub(x) or z3.is_mul(x):
            stack.extend(x.children())
    return out[:4]


def _zero(x):
    return z3.is_expr(x) and z3.is_int_value(x) and x.as_long() == 0


def trunc(v):
    s = z3.simplify(v)
    if z3.is_to_real(s):
        return s.arg(0)
    return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))


def cdiv(x, y):
    """C integer division (truncation)."""
    ys = z3.simplify(y)
    if z3.is_int_value(ys) and ys.as_long() > 0:
        return z3.If(x >= 0, x / y, -((-x) / y))
    return z3.If(y > 0, z3.If(x >= 0, x / y, -((-x) / y)), z3.If(x >= 0, -(x / (-y)), (-x) / (-y)))


def has_quant(e, _memo={}):
    k = e.get_id()
    stack = [e]
    seen = set()
    while stack:
        x = stack.pop()
        if z3.is_quantifier(x):
            return True
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        stack.extend(x.children())
    return False


_SYM = {}


def symbols(e):
    k = e.get_id()
    if k in _SYM and _SYM[k][0].eq(e):
        return _SYM[k][1]
    out, stack, seen = set(), [e], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = x.decl().name()
            if not nm.startswith(('arg_', 'ghost_')):
                out.add(nm)
        stack.extend(x.children())
    _SYM[k] = (e, out)
    return out


def monomials(e):
    """e as list of (coeff, [factors]) after sum-of-monomials simplification; None if not polynomial."""
    e = z3.simplify(e, som=True)
    terms = e.children() if z3.is_add(e) else [e]
    out = []
    for t in terms:
        c, fs = 1, []
        st = [t]
        while st:
            x = st.pop()
            if z3.is_mul(x):
                st.extend(x.children())
            elif z3.is_int_value(x):
                c *= x.as_long()
            elif z3.is_app_of(x, z3.Z3_OP_POWER) and z3.is_int_value(x.arg(1)):
                fs += [x.arg(0)] * x.arg(1).as_long()
            else:
                fs.append(x)
        out.append((c, fs))
    return out


def unmono(ms):
    r = I(0)
    for c, fs in ms:
        t = I(c)
        for f in fs:
            t = t * f
        r = r + t
    return z3.simplify(r)


def const_div(e, k):
    """e / k when every monomial is divisible by k."""
    ms = monomials(e)
    if all(c % k == 0 for c, _ in ms):
        return unmono([(c // k, f) for c, f in ms])
    return e / k


def poly_div(e, d):
    """q with e == q*d as polynomials (d a single symbol), else None."""
    d = z3.simplify(d)
    if z3.is_int_value(d):
        return None
    ms = monomials(e)
    out = []
    for c, fs in ms:
        for i, f in enumerate(fs):
            if z3.eq(f, d):
                out.append((c, fs[:i] + fs[i + 1:]))
                break
        else:
            return None
    return unmono(out)


def strip_parens(n):
    while n.get('kind') in ('ParenExpr', 'ConstantExpr', 'ExprWithCleanups'):
        n = n['inner'][0]
    return n


def strip_casts(n):
    while n.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr', 'ConstantExpr'):
        n = n['inner'][0]
    return n


def comparisons(cond):
    out = []
    n = strip_parens(cond)
    if not n.get('kind'):
        return out
    if n['kind'] == 'ImplicitCastExpr':
        return comparisons(n['inner'][0])
    if n['kind'] == 'BinaryOperator':
        op = n['opcode']
        if op in ('&&', '||'):
            for c in n['inner']:
                out += comparisons(c)
        elif op in ('<', '<=', '>', '>=', '!='):
            out.append((n['inner'][0], op, n['inner'][1]))
    return out
