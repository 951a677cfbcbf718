"""Row-major positions of a multi-dimensional array inside a contract: the digits of a cell number, loop invariants that speak
about the cells a nest of loops has already visited, and the (valid) digit facts of array offsets met in the code."""
import itertools
from .obl import z3
from .cvc import FA, I


def _monomials(t):
    """Sum-of-monomials form of an integer term: list of (coefficient, [factors])."""
    t = z3.simplify(t, som=True)
    parts = t.children() if z3.is_add(t) else [t]
    out = []
    for p in parts:
        fs = list(p.children()) if z3.is_mul(p) else [p]
        c, rest = 1, []
        for f in fs:
            if z3.is_int_value(f):
                c *= f.as_long()
            elif z3.is_app_of(f, z3.Z3_OP_POWER) and z3.is_int_value(f.arg(1)):
                rest += [f.arg(0)] * f.arg(1).as_long()
            else:
                rest.append(f)
        out.append((c, rest))
    return out


class Grid:
    """names: extents from the slowest to the fastest varying dimension."""

    def __init__(self, *names):
        self.names = names
        self.n = len(names)
        self.ext = [z3.Int('arg_' + x) for x in names]
        self.stride = []
        for i in range(self.n):
            t = I(1)
            for e in self.ext[i + 1:]:
                t = t * e
            self.stride.append(t)
        self.D = [z3.Function('digit_' + x, z3.IntSort(), z3.IntSort()) for x in names]
        self.cell = z3.Function('cell_' + '_'.join(names), *[z3.IntSort()] * (self.n + 1))   # sum of digit * stride
        self.size = I(1)
        for e in self.ext:
            self.size = self.size * e

    def inside(self, m):
        return z3.And(m >= 0, m < self.size)

    def facts(self):
        """Every cell has digits."""
        m = z3.Int('m!d')
        parts = [self.D[i](m) * self.stride[i] for i in range(self.n)]
        return [FA(m, z3.Implies(self.inside(m), z3.And(m == z3.Sum(parts), self.cell(*[d(m) for d in self.D]) == m, *[z3.And(self.D[i](m) >= 0, self.D[i](m) < self.ext[i]) for i in range(self.n)])),
                   *[d(m) for d in self.D])]

    def split(self, off):
        """Terms a_i with off == sum a_i * stride_i as polynomials."""
        out = [I(0)] * self.n
        for c, fs in _monomials(off):
            for i in range(self.n):
                rest = list(fs)
                ok = True
                for e in self.ext[i + 1:]:
                    for q, f in enumerate(rest):
                        if f.eq(e):
                            del rest[q]
                            break
                    else:
                        ok = False
                        break
                if ok:
                    t = I(c)
                    for f in rest:
                        t = t * f
                    out[i] = out[i] + t
                    break
        return [z3.simplify(x) for x in out]

    def hint(self, off):
        """Digits are unique: if the offset is written as in-range digits, these are its digits."""
        a = self.split(off)
        whole = z3.Sum([x * s for x, s in zip(a, self.stride)])
        if not z3.is_true(z3.simplify(whole == off, som=True)) and not _same(whole, off):
            return []
        inr = z3.And(*[z3.And(x >= 0, x < e) for x, e in zip(a, self.ext)])
        return [self.cell(*a) == off, z3.Implies(inr, z3.And(*[d(off) == x for d, x in zip(self.D, a)]))]

    def visited(self, s, seq, perm, m, centre=None):
        """Cells whose digits come before the loop counters, in loop order."""
        less, eq = z3.BoolVal(False), z3.BoolVal(True)
        for x, p in zip(seq, perm):
            v = s.vars[x] + (centre[p] if centre is not None else 0)
            less = z3.Or(less, z3.And(eq, self.D[p](m) < v))
            eq = z3.And(eq, self.D[p](m) == v)
        return less

    def nests(self, lc):
        """Candidate loop orders: counters of enclosing loops and one of this loop, with the digit each runs over."""
        enc = [d for d, _ in lc.vc.enclosing]
        for d in lc.counters:
            if d in enc:
                continue
            for skip in range(len(enc) + 1):
                seq = enc[skip:] + [d]
                if len(seq) > self.n:
                    continue
                for perm in itertools.permutations(range(self.n), len(seq)):
                    yield seq, perm, '(%s) over digits %s' % (', '.join(lc.vc.vname(x) for x in seq), perm)

    def init_cands(self, lc):
        vc = lc.vc
        if 'init' not in vc.facets:
            return
        for seq, perm, nm in self.nests(lc):
            for b in lc.blocks('float'):
                def f(s, lc, b=b, seq=seq, perm=perm):
                    m = z3.Int('m!d')
                    ia = s.init[b]
                    if ia is None:
                        return z3.BoolVal(True)
                    return FA(m, z3.Implies(z3.And(m >= 0, m < vc.blocks[b].size, self.visited(s, seq, perm, m)), z3.Select(ia, m)), z3.Select(ia, m))
                yield '%s is initialised before %s' % (vc.blocks[b].name, nm), f


def _same(a, b):
    return z3.is_true(z3.simplify(z3.simplify(a - b, som=True) == 0))
