"""C01: the work split covers every slice exactly once."""
from ..obl import z3, Unsupported

ORACLE_S = 25
ORACLE_WHAT = ('get_ncore_slices, get_worker_ncore_slices and distribute_jobs executed on the real code for many sizes, core counts and '
               'chunk sizes; every index must be covered exactly once and the compiled result must equal the serial one')
ASSUMPTIONS = ['Python integers are mathematical integers; numpy int64 arithmetic does not overflow',
               'math.ceil(a/b) on Python ints is the exact ceiling (true below 2**53)']


def _setup(L, unit):
    from .. import pysym as P
    P.install()
    return P, P.Engine(L, unit)


def _slices(mode):
    def run(L):
        P, E = _setup(L, 'get_ncore_slices[nchunk %s]' % mode)
        import tomopy.util.mproc as m
        L.under_contract('tomopy.util.mproc.get_ncore_slices')
        L.trust('multiprocessing.cpu_count() returns an integer >= 1', 'numpy cumsum/ones/zeros closed forms (cumsum by induction)')

        def body():
            n = z3.Int('axis_size')
            E.assume(n >= 1)
            nc = P.SymInt(z3.Int('ncore'))
            E.assume(nc.t >= 0)
            if mode == 'none':
                ck = None
            elif mode == 'zero':
                ck = 0
            else:
                ck = P.SymInt(z3.Int('nchunk'))
                E.assume(ck.t >= 1)
            c, s = m.get_ncore_slices(P.SymInt(n), nc, ck)
            E.prove('at least one worker', P.toz(c) >= 1)
            E.prove('no more workers than slices', P.toz(c) <= n)
            k = z3.Int('k')
            if isinstance(s, list):
                s = P.SymList.of(s) if hasattr(P.SymList, 'of') else s
            N = P.toz(s.n)
            E.prove('there is work', N >= 1)
            E.assume(k >= 0, k < N)
            x = s.at(P.wrap(k))
            cl = lambda t: z3.If(P.toz(t) > n, n, P.toz(t))
            if isinstance(x, slice):
                y = s.at(P.wrap(z3.If(k + 1 < N, k + 1, k)))
                z, w = s.at(0), s.at(P.wrap(N - 1))
                if any(q.step is not None for q in (x, y, z, w)):
                    raise Unsupported('stepped slice')
                E.prove('the first part starts at 0', P.toz(z.start) == 0)
                E.prove('each part starts where the previous one ends', z3.Implies(k + 1 < N, cl(x.stop) == P.toz(y.start)))
                E.prove('the last part ends at the end of the axis', cl(w.stop) == n)
                E.prove('no part is empty', z3.And(P.toz(x.start) >= 0, P.toz(x.start) < cl(x.stop)))
            else:
                E.prove('one part per index', N == n)
                E.prove('part k is index k', P.toz(x) == k)
        E.explore(body)
    return run


def _ncore_nchunk(L):
    P, E = _setup(L, 'get_ncore_nchunk')
    import tomopy.util.mproc as m
    L.under_contract('tomopy.util.mproc.get_ncore_nchunk')

    for a in ('none', 'int'):
        for b in ('none', 'zero', 'int'):
            def body():
                n = z3.Int('axis_size')
                E.assume(n >= 1)
                nc = None if a == 'none' else P.SymInt(z3.Int('ncore'))
                if nc is not None:
                    E.assume(nc.t >= 1)
                ck = None if b == 'none' else 0 if b == 'zero' else P.SymInt(z3.Int('nchunk'))
                if b == 'int':
                    E.assume(ck.t >= 1)
                c, k = m.get_ncore_nchunk(P.SymInt(n), nc, ck)
                c, k = P.toz(c), P.toz(k)
                E.prove('at least one worker', c >= 1)
                E.prove('no more workers than slices', c <= n)
                if nc is not None:
                    E.prove('no more workers than asked for', c <= nc.t)
                if b == 'none':
                    E.prove('one round covers the axis', z3.And(k >= 1, c * k >= n))
                elif b == 'zero':
                    E.prove('dimension is collapsed on request', k == 0)
                else:
                    E.prove('chunk as asked, limited to the axis', k == z3.If(ck.t > n, n, ck.t))
            E.explore(body)


def _worker(mode):
    def run(L):
        P, E = _setup(L, 'get_worker_ncore_slices[nchunk %s]' % mode)
        import tomopy.util.mproc as m
        L.under_contract('tomopy.util.mproc.get_worker_ncore_slices')
        L.trust('one process (no MPI): get_nproc() is 1')

        def body():
            n = z3.Int('axis_size')
            E.assume(n >= 1)
            nc = P.SymInt(z3.Int('ncore'))
            E.assume(nc.t >= 1)
            ck = None if mode == 'none' else P.SymInt(z3.Int('nchunk'))
            if ck is not None:
                E.assume(ck.t >= 1)
            c, s = m.get_worker_ncore_slices(P.SymInt(n), nc, ck)
            k = z3.Int('k')
            N = P.toz(s.n)
            E.prove('there is work', N >= 1)
            E.assume(k >= 0, k < N)
            cl = lambda t: z3.If(P.toz(t) > n, n, P.toz(t))
            x, y = s.at(P.wrap(k)), s.at(P.wrap(z3.If(k + 1 < N, k + 1, k)))
            z, w = s.at(0), s.at(P.wrap(N - 1))
            E.prove('the first part starts at 0', P.toz(z.start) == 0)
            E.prove('each part starts where the previous one ends', z3.Implies(k + 1 < N, cl(x.stop) == P.toz(y.start)))
            E.prove('the last part ends at the end of the axis', cl(w.stop) == n)
            E.prove('no part is reversed', z3.And(P.toz(x.start) >= 0, P.toz(x.start) <= cl(x.stop)))
        E.explore(body)
    return run


UNITS = {
    'worker_default': _worker('none'),
    'worker_chunked': _worker('int'),
    'slices_default': _slices('none'),
    'slices_collapsed': _slices('zero'),
    'slices_chunked': _slices('int'),
    'ncore_nchunk': _ncore_nchunk,
}
