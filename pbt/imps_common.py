"""Uniform infinite MPS: case strategy and dense reference (transfer-matrix eigenvectors,
reduced density matrices, time-dependent variational principle) written from the definitions."""
import numpy as np
from pbt.core import st
from pbt import gen, dense as dn


def uniform(dmax=3, Dmax=4, Dmin=1, skew=(1,), long=()):
    return gen.fd(skew=st.sampled_from(skew), d=st.integers(2, dmax), D=st.integers(Dmin, Dmax), seed=gen.seeds,
                  kind=st.sampled_from(['cplx', 'cplx', 'cplx', 'real', 'mixed'] + ['long'] * len(long)), corr=st.sampled_from(long or (1,)),
                  scale=st.sampled_from([1.0, 1.0, 0.05, 30.0]))


def build(c, salt=0):
    """a well-conditioned injective tensor (deterministic in the case)"""
    d, D = c['d'], c['D']
    for k in range(60):
        if c['kind'] == 'mixed':      # near a product state: graded Schmidt values
            A = 0.3 * gen.arr(c['seed'], (d, D, D), 'cplx', salt + 100 * k)
            A[0] += np.diag(0.8 ** np.arange(D))
            A = np.tensordot(gen.unitary(c['seed'], d, salt + 100 * k + 7), A, [1, 0])
        elif c['kind'] == 'long':     # nearly a sum of product states: long correlations
            A = np.zeros((d, D, D), complex)
            A[np.arange(D) % d, np.arange(D), np.arange(D)] = 1
            A = A + c['corr'] * gen.arr(c['seed'], (d, D, D), 'cplx', salt + 100 * k)
            X = gen.arr(c['seed'], (D, D), 'cplx', salt + 100 * k + 9) + 2 * np.eye(D)
            A = X @ A @ np.linalg.inv(X)
        else:
            A = gen.arr(c['seed'], (d, D, D), c['kind'], salt + 100 * k)
        if good(A, 0.975 if c['kind'] == 'long' else 0.93):
            # a diagonal gauge that makes the fixed points' diagonals uneven
            g = c.get('skew', 1)**gen.rng(c['seed'], 77).permutation(np.linspace(0, 1, D))
            A = A * c.get('scale', 1.0) * g[:, None] / g
            if c['kind'] == 'real' and c['seed'] % 2:
                A = np.ascontiguousarray(A.real)
            return gen.layout([A], c['seed'])[0]
    raise AssertionError('no well-conditioned tensor')


def good(A, gap=0.93):
    if D_(A) > 1 and dn.gap(A) > gap:
        return False
    _, l, r = dn.fixed(A)
    s = schmidt(A)
    return s[-1] > 3e-3 and min(np.linalg.eigvalsh(l)) > 1e-4 * max(np.linalg.eigvalsh(l)) and \
        min(np.linalg.eigvalsh(r)) > 1e-4 * max(np.linalg.eigvalsh(r))


def D_(A):
    return A.shape[1]


def schmidt(A):
    """Schmidt values of the uniform state, descending, normalised"""
    _, l, r = dn.fixed(A)
    w = np.linalg.eigvals(l @ r)
    s = np.sqrt(np.abs(np.sort(w.real)[::-1]))
    return s / np.linalg.norm(s)


def rdm(A, k=2):
    """reduced density matrix of k neighbouring sites"""
    eta, l, r = dn.fixed(A)
    M = dn.block([A] * k)
    return np.einsum('ab,sbc,cd,tad->st', l, M, r, M.conj(), optimize=True) / eta**k


def normalised(A):
    return A / np.sqrt(dn.fixed(A)[0].real)


def two_site(A, h):
    d = A.shape[0]
    AA = np.einsum('sab,tbc->stac', A, A)
    return AA, np.einsum('stuv,uvac->stac', h.reshape(d, d, d, d), AA)


def energy(A, h):
    return np.trace(rdm(A, 2) @ h).real


def left_env(A, h):
    """K = sum over n of the (h - e) block n sites to the left, transferred; K[bra, ket], tr(K r) = 0"""
    D = A.shape[1]
    _, l, r = dn.fixed(A)
    AA, HAA = two_site(A, h)
    e = np.einsum('ax,stxy,yb,stab->', l, HAA, r, AA.conj())
    hL = np.einsum('ax,stxy,stab->by', l, HAA - e * AA, AA.conj())
    T = np.einsum('sab,sxy->byax', A.conj(), A).reshape(D * D, D * D)
    K = np.linalg.solve(np.eye(D * D) - T + np.outer(l.reshape(-1), r.T.reshape(-1)), hL.reshape(-1)).reshape(D, D)
    return K - l * np.trace(K @ r)


def right_env(A, h):
    """mirror image; K[ket, bra], tr(l K) = 0"""
    D = A.shape[1]
    _, l, r = dn.fixed(A)
    AA, HAA = two_site(A, h)
    e = np.einsum('ax,stxy,yb,stab->', l, HAA, r, AA.conj())
    hR = np.einsum('stxy,yb,stab->xa', HAA - e * AA, r, AA.conj())
    T = dn.tm(A)
    K = np.linalg.solve(np.eye(D * D) - T + np.outer(r.reshape(-1), l.T.reshape(-1)), hR.reshape(-1)).reshape(D, D)
    return K - r * np.trace(l @ K)


def tdvp(A, h):
    """-i times the tangent-space projection of H|psi>, in the left gauge (sum A^dag l B = 0);
    A normalised so that its transfer matrix has leading eigenvalue 1"""
    d, D, _ = A.shape
    _, l, r = dn.fixed(A)
    AA, HAA = two_site(A, h)
    e = np.einsum('ax,stxy,yb,stab->', l, HAA, r, AA.conj()).real
    HAA = HAA - e * AA
    K = left_env(A, h)
    G = np.einsum('ax,stxy,yz,tbz->sab', l, HAA, r, A.conj())
    G = G + np.einsum('ax,stxy,yz,sab->tbz', l, HAA, r, A.conj())
    G = G + np.einsum('ax,sxy,yb->sab', K, A, r)
    M = np.einsum('sab,ax->bsx', A.conj(), l).reshape(D, d * D)
    N = np.linalg.svd(M)[2][D:].conj().T
    Lm = np.kron(np.eye(d), l)
    x = np.linalg.solve(N.conj().T @ Lm @ N, N.conj().T @ G.reshape(d * D, D)) @ np.linalg.inv(r)
    return -1j * (N @ x).reshape(d, D, D)


def flow(A, h, T, n=12):
    """the TDVP flow by small fourth-order steps"""
    A = normalised(A)
    dt = T / n
    for _ in range(n):
        k1 = tdvp(A, h)
        k2 = tdvp(normalised(A + dt / 2 * k1), h)
        k3 = tdvp(normalised(A + dt / 2 * k2), h)
        k4 = tdvp(normalised(A + dt * k3), h)
        A = normalised(A + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4))
    return A


# ---- one object asked again and again ---------------------------------------------------
STEPS = ['left', 'right', 'mixed', 'vidal', 'replace', 'gate', 'scale', 'inplace', 'gauge', 'data', 'copy', 'eigs', 'derivative', 'pick']
history = st.lists(st.sampled_from(STEPS), min_size=2, max_size=6)


def well(c, k):
    """a well-conditioned tensor that can follow the one of case c (same shape)"""
    return build(dict(c, seed=(c['seed'] + 17 * k) % 2**31, scale=1.), 500 + k)


def step(m, what, c, k, h):
    """do `what` to the object; returns the object to go on with (its tensor is m[0])"""
    d, D = c['d'], c['D']
    if what in ('left', 'right', 'mixed', 'vidal'):
        m.canonicalise('m' if what == 'mixed' else 'r' if what == 'vidal' else what[0], to_vidal=what == 'vidal')
    elif what == 'replace':
        m[0] = well(c, k)
    elif what == 'data':
        m.data = [well(c, k)]
    elif what == 'gate':
        m[0] = np.tensordot(gen.unitary(c['seed'], d, 300 + k), m[0], [1, 0])
    elif what == 'scale':
        m[0] = (1 + k % 3) * 0.7 * m[0]
    elif what == 'inplace':
        if not m[0].flags.writeable:
            m[0] = np.array(m[0])
        m[0][...] = well(c, k) if np.iscomplexobj(m[0]) else -1.3 * m[0]
    elif what == 'gauge':
        X = gen.unitary(c['seed'], D, 400 + k) @ np.diag(np.linspace(1, 1.5, D))
        m[0] = X @ m[0] @ np.linalg.inv(X)
    elif what == 'copy':
        old = m
        m = m.copy()
        old[0] = well(c, k + 30)
    elif what == 'eigs':
        m.eigs()
    elif what == 'derivative':
        m[0] = normalised(m[0])
        m.dA_dt([h])
    else:
        m = type(m)([np.array(m[0])])
    return m
