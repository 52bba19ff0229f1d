"""C01: state tensor <-> MPS"""
import numpy as np
from pbt.core import Prop, st
from pbt import gen, dense as dn
from xmps.fMPS import fMPS

PROP = Prop('C01', 'random state tensors (d in 1..4, L in 1..8, generic/real/small-integer/'
            'low-Schmidt-rank) and random MPS with arbitrary bond structures; non-trivial = at '
            'least two sites and an entangled state')


def state(c):
    L, d = c['L'], c['d']
    if c['rankkind'] == 'full':
        v = gen.arr(c['seed'], (d**L,), c['kind'])
    else:
        # superposition of a few product states: low Schmidt rank everywhere
        n = {'product': 1, 'low': 2, 'ghz': 0, 'graded': 3, 'tiny': 4}[c['rankkind']]
        v = np.zeros(d**L, complex)
        if n == 0:
            for s in range(d):
                v[sum(s * d**k for k in range(L))] = 1
        for j in range(n):
            w = np.ones(1)
            for i in range(L):
                w = np.kron(w, gen.arr(c['seed'], (d,), c['kind'], 100 * j + i))
            # 'graded'/'tiny': Schmidt spectra over many orders of magnitude
            v = v + w * {'graded': 0.02, 'tiny': 2e-4}.get(c['rankkind'], 1.0)**j
        if np.linalg.norm(v) < 1e-9:
            v = v + 1
    return v / np.linalg.norm(v) * c['scale']


states = st.builds(lambda d, L, rest: dict(rest, d=d, L=min(L, {1: 8, 2: 8, 3: 5, 4: 4}[d])),
                   st.integers(2, 4), st.integers(1, 8),
                   gen.fd(kind=gen.kinds, seed=gen.seeds,
                          rankkind=st.sampled_from(['full', 'full', 'product', 'low', 'ghz', 'graded', 'tiny']),
                          scale=st.sampled_from([1.0, 1.0, 0.3, 20.0])))


def _check(c, x, left):
    psi = state(c)
    L, d = c['L'], c['d']
    inp = psi.reshape([d] * L)
    keep = inp.copy()
    m = fMPS().left_from_state(inp) if left else fMPS().right_from_state(inp)
    x.label('L=%d' % L, 'd=%d' % d, c['rankkind'])
    x.interesting(L > 1 and c['rankkind'] != 'product')
    x.close(inp, keep, 'the input tensor was modified', rtol=0, atol=0)
    x.require(len(m) == L and m.L == L and m.d == d, 'length/local dimension', L=m.L, d=m.d)
    v = dn.vec(m.data)
    x.same_ray(v, psi, 'decomposition represents another state')
    x.close(np.linalg.norm(v), 1, 'decomposed state is not normalised')
    for n, A in enumerate(m.data):
        A = np.asarray(A)
        if left:
            x.close(np.einsum('sab,sac->bc', A.conj(), A), np.eye(A.shape[2]),
                    'site %d is not left orthonormal' % n)
        else:
            x.close(np.einsum('sab,scb->ac', A, A.conj()), np.eye(A.shape[1]),
                    'site %d is not right orthonormal' % n)
        x.require(A.shape[1] <= min(d**n, d**(L - n)) and A.shape[2] <= min(d**(n + 1), d**(L - n - 1)),
                  'bond larger than the Hilbert space cut', site=n, shape=A.shape)
    x.require(m.D == max(max(A.shape[1:]) for A in m.data), 'reported bond dimension', D=m.D)
    r = m.recombine()
    x.require(r.shape == (d,) * L, 'recombined shape', shape=r.shape)
    x.close(r.reshape(-1), v, 'recombine differs from the contraction of the site tensors')


@PROP.sub('left_from_state', states, quick=500, rule='state -> left orthonormal MPS -> state')
def _(c, x):
    _check(c, x, True)


@PROP.sub('right_from_state', states, quick=500, rule='state -> right orthonormal MPS -> state')
def _(c, x):
    _check(c, x, False)


@PROP.sub('recombine', st.builds(lambda s, f: dict(s, f=f, np=0), gen.mps_spec(Lmax=7, dmax=4, Dmax=5),
                                 st.sampled_from([1.0, 1e-3, 50.0])), quick=500,
          rule='recombine of any MPS equals the contraction of its tensors, entry by entry')
def _(c, x):
    ts = [c['f'] * t for t in gen.tensors(c)]
    v = dn.vec(ts)
    x.label('L=%d' % c['L'], c['kind'])
    x.interesting(c['L'] > 1 and max(c['bonds'], default=1) > 1)
    r = fMPS(ts).recombine()
    x.require(r.shape == (c['d'],) * c['L'], 'recombined shape', shape=r.shape)
    x.close(r.reshape(-1), v, 'recombine', atol=1e-12)


@PROP.sub('roundtrip_mps', gen.mps_spec(Lmin=1, Lmax=7, dmax=3, Dmax=5), quick=400,
          rule='MPS -> state -> MPS (both directions) -> state')
def _(c, x):
    ts = gen.tensors(c)
    psi = dn.vec(ts)
    x.interesting(c['L'] > 1 and max(c['bonds'], default=1) > 1)
    st_ = fMPS(ts).recombine()
    x.same_ray(dn.vec(fMPS().left_from_state(st_).data), psi, 'left round trip')
    x.same_ray(dn.vec(fMPS().right_from_state(st_).data), psi, 'right round trip')


@PROP.sub('random', gen.fd(L=st.integers(2, 12), d=st.integers(2, 4), D=st.one_of(st.integers(1, 7), st.integers(1, 70)),
                           real=st.booleans()), quick=300,
          rule='random(L, d, D): a usable MPS of that length, local dimension and bond dimension')
def _(c, x):
    L, d, D = c['L'], c['d'], c['D']
    m = fMPS().random(L, d, D, real=c['real'])
    x.label('D=%d' % D, 'd=%d' % d)
    x.interesting(D > 1)
    want = [(d, min(d**n, d**(L - n), D), min(d**(n + 1), d**(L - n - 1), D)) for n in range(L)]
    got = [tuple(t.shape) for t in m.data]
    x.require(got == want, 'site tensor shapes', got=got, want=want)
    x.require(m.L == L and m.d == d and m.D == max(max(w[1:]) for w in want),
              'attributes', L=m.L, d=m.d, D=m.D)
    x.require([tuple(s) for s in m.structure()] == [w[1:] for w in want], 'structure')
    if c['real']:
        x.close(np.concatenate([np.asarray(t).imag.ravel() for t in m.data]),
                np.zeros(sum(t.size for t in m.data)), 'real tensors requested', atol=1e-12)
    if d**L < 5000:
        v = dn.vec(m.data)
        x.require(np.isfinite(v).all() and np.linalg.norm(v) > 0, 'random state is not a state')
        x.close(m.recombine().reshape(-1), v, 'recombine of a random MPS')


@PROP.sub('indexing', gen.mps_spec(Lmin=1, Lmax=7, dmax=3, Dmax=4), quick=150,
          rule='site access: 0-based brackets, 1-based call, length, append, extend')
def _(c, x):
    ts = gen.tensors(c)
    m = fMPS(list(ts))
    L = c['L']
    x.interesting(L > 1)
    x.require(len(m) == L and m.L == L and m.d == c['d'], 'length/d')
    x.require(m.D == max(max(t.shape[1:]) for t in ts) == m.bond_dimension, 'bond dimension', D=m.D)
    for k in range(L):
        x.close(m[k], ts[k], 'm[%d]' % k, rtol=0, atol=0)
        x.close(m(k + 1), ts[k], 'm(%d) is the 1-based index' % (k + 1), rtol=0, atol=0)
        x.close(m[k - L], ts[k], 'm[%d] counts from the end' % (k - L), rtol=0, atol=0)
        for a, b in zip(m[k:], ts[k:]):
            x.close(a, b, 'slice', rtol=0, atol=0)
        x.require(len(m[k:]) == L - k and len(m[:k]) == k, 'length of a slice')
    for i, t in enumerate(m):
        x.close(t, ts[i], 'iteration', rtol=0, atol=0)
    x.require(i == L - 1, 'iteration length')
    head = fMPS(list(ts[:-1])) if L > 1 else m
    a = head.append(ts[-1]) if L > 1 else m
    x.require(a == m and len(a) == L, 'append')
    x.require(L == 1 or len(head) == head.L == L - 1, 'append leaves the shorter chain as it was')
    for k in range(1, L):
        head, tail = fMPS(list(ts[:k])), fMPS(list(ts[k:]))
        e = head.extend(tail)
        x.require(len(e) == L and e == m and not (e != m), 'extend')
        x.require(len(head) == head.L == k and len(tail) == tail.L == L - k, 'extend leaves both parts as they were')
        e[0] = ts[0] + 1
        x.close(head[0], ts[0], 'the first part, after the extended chain changed', atol=0)
    k = c['seed'] % L
    other = fMPS(list(ts))
    other[k if c['seed'] % 3 else k - L] = ts[k] + 1
    x.close(other[k], ts[k] + 1, 'assigned tensor', atol=0)
    x.close(m[k], ts[k], 'the state the tensors came from', atol=0)
    x.require(other != m and not (other == m), 'changed tensor must compare unequal')
