"""Case strategies (plain JSON values) and the deterministic builders that turn a case
into arrays.  Array entries come from a generator seeded by an integer of the case; their
*kind* (generic, real, small integers, sparse, strongly graded) is part of the case."""
import numpy as np
from hypothesis import strategies as st

seeds = st.integers(0, 2**31 - 1)
KINDS = ['cplx', 'cplx', 'real', 'int', 'graded']
kinds = st.sampled_from(KINDS)


def rng(seed, salt=0):
    return np.random.RandomState([seed & 0xffffffff, salt])


def arr(seed, shape, kind='cplx', salt=0):
    r = rng(seed, salt)
    if kind == 'real':
        a = r.randn(*shape)
        return a if seed % 2 else a + 0j
    a = r.randn(*shape) + 1j * r.randn(*shape)
    if kind == 'int':
        a = r.randint(-2, 3, shape) + 1j * r.randint(-2, 3, shape)
        if not a.any():
            a.flat[0] = 1
        return a.astype(complex)
    if kind == 'graded' and len(shape) == 3:
        # successive right-bond directions suppressed: graded Schmidt spectrum
        a = a * (0.25 ** np.arange(shape[2]))[None, None, :]
    if kind == 'sparse':
        m = r.rand(*shape) < 0.5
        a = a * m
        if not a.any():
            a.flat[0] = 1
    return a


def herm(seed, n, kind='cplx', salt=0):
    """a hermitian matrix; for some seeds as an array of real numbers, of integers, or in Fortran order"""
    a = arr(seed, (n, n), kind, salt)
    h = (a + a.conj().T) / 2
    if seed % 8 == 1:
        return np.ascontiguousarray(h.real)
    if seed % 8 == 2:
        h = np.rint(3 * h.real).astype(int)
        if not h.any():
            h[0, 0] = 1
        return h
    if seed % 8 == 3:
        return np.asfortranarray(h)
    return h


def unitary(seed, n, salt=0):
    """for some seeds real, or in Fortran order"""
    a = arr(seed, (n, n), 'cplx', salt)
    q, r = np.linalg.qr(a.real if seed % 8 == 5 else a)
    q = q * (np.diag(r) / abs(np.diag(r)))
    return np.asfortranarray(q) if seed % 8 == 6 else q


def op(seed, n, salt=0, scale=1.):
    """a square matrix; for some seeds as an array of real numbers, of integers, or in Fortran order"""
    a = arr(seed, (n, n), 'cplx', salt)
    k = (seed // 8) % 8
    if k == 1:
        return np.ascontiguousarray(a.real) * scale
    if k == 2:
        a = np.rint(a.real).astype(int)
        a[0, 0] = 1
        return a
    if k == 3:
        a = np.asfortranarray(a)
    return a * scale


# ---- finite MPS ----------------------------------------------------------------------
@st.composite
def mps_spec(draw, Lmin=1, Lmax=6, dmax=3, Dmax=4, maxdim=1100, dmin=2, kind=None,
             capped=False):
    """{L, d, bonds, kind, seed}: bonds are arbitrary (not monotone, may exceed what the
    Hilbert space supports) unless `capped`"""
    d = draw(st.integers(dmin, dmax)) if dmin != dmax else dmin
    if dmax == 3 and draw(st.integers(0, 11)) == 11:
        d = draw(st.integers(4, 5))
    if Dmax in (3, 4) and draw(st.integers(0, 11)) == 11:
        Dmax += 3
    while d**Lmin > maxdim:
        d -= 1
    top = Lmax
    if Lmax > 3 and draw(st.integers(0, 5)) == 5:       # now and then longer chains
        top = Lmax + 3
    while d**top > maxdim:
        top -= 1
    L = draw(st.integers(Lmin if top <= Lmax else Lmax, top))
    bonds = [draw(st.integers(1, Dmax)) for _ in range(L - 1)]
    if capped:
        bonds = [min(b, d**(i + 1), d**(L - 1 - i)) for i, b in enumerate(bonds)]
        for i in range(1, L - 1):
            bonds[i] = min(bonds[i], d * bonds[i - 1])
        for i in range(L - 3, -1, -1):
            bonds[i] = min(bonds[i], d * bonds[i + 1])
    return dict(L=L, d=d, bonds=bonds, kind=draw(kinds if kind is None else st.just(kind)),
                seed=draw(seeds))


def tensors(spec, salt=0, normalise=True):
    """site tensors for a spec (never the zero state)"""
    L, d = spec['L'], spec['d']
    b = [1] + list(spec['bonds']) + [1]
    from . import dense
    for k in range(50):
        ts = [arr(spec['seed'], (d, b[i], b[i + 1]), spec['kind'], 1000 * k + 31 * salt + i)
              for i in range(L)]
        ts = partly_real(ts, spec['seed'])
        n = np.linalg.norm(dense.vec(ts))
        if n > 1e-6:
            break
    else:
        ts = [np.ones((d, b[i], b[i + 1]), complex) for i in range(L)]
        n = np.linalg.norm(dense.vec(ts))
    if normalise:
        f = n ** (1. / L)
        ts = [t / f for t in ts]
    if spec['kind'] == 'real' and spec['seed'] % 2:      # real numbers also as real arrays
        ts = [t.real.copy() for t in ts]
    return layout(ts, spec['seed'])


def partly_real(ts, seed):
    """for some seeds some of the tensors as real arrays, the others complex"""
    if seed % 7 != 5:
        return ts
    return [np.ascontiguousarray(t.real) if (seed >> 4) >> (i % 16) & 1 and t.real.any() else t for i, t in enumerate(ts)]


def layout(ts, seed):
    """the same tensors, for some seeds in another memory layout (keep it with t.copy('K'))"""
    if seed % 5 == 3:
        return [np.asfortranarray(t) for t in ts]
    if seed % 10 == 4:      # views with their first two axes exchanged
        return [np.ascontiguousarray(t.swapaxes(0, 1)).swapaxes(0, 1) for t in ts]
    return ts


def site_states(seed, L, d, salt=0):
    """states of single sites: generic, real, or basis states as arrays of integers"""
    k = (seed // 4) % 4
    if k == 0:
        return [np.eye(d, dtype=int)[(seed + salt + i * i) % d] for i in range(L)]
    vs = [arr(seed, (d,), 'cplx', salt + i) for i in range(L)]
    return [np.ascontiguousarray(v.real) for v in vs] if k == 1 else vs


def with_np(s):
    """give the case a seed for numpy's global generator (the library's own draws)"""
    return st.builds(lambda c, n: dict(c, np=n), s, st.integers(0, 2**31 - 1))


def fd(**kw):
    """fixed dictionary strategy; always with an `np` seed"""
    kw.setdefault('np', st.integers(0, 2**20))
    return st.fixed_dictionaries(kw)
