"""Dense reference model: everything here is written from the definitions with numpy only
and never calls the code under test."""
import itertools
from functools import reduce
import numpy as np
import scipy.linalg as sl


def vec(tensors):
    """state vector of an open-boundary MPS with site tensors (d, Dl, Dr), site 0 the most
    significant (C order); outer bonds have dimension 1"""
    v = None
    for t in tensors:
        t = np.asarray(t)
        v = t if v is None else np.einsum('axy,byz->abxz', v, t).reshape(
            v.shape[0] * t.shape[0], v.shape[1], t.shape[2])
    if v.shape[1:] != (1, 1):
        raise ValueError('outer bonds are %s' % (v.shape[1:],))
    return v[:, 0, 0]


def block(tensors):
    """(d^k, Dl, Dr) tensor of a chain segment"""
    v = None
    for t in tensors:
        t = np.asarray(t)
        v = t if v is None else np.einsum('axy,byz->abxz', v, t).reshape(
            v.shape[0] * t.shape[0], v.shape[1], t.shape[2])
    return v


def kron(*ops):
    return reduce(np.kron, ops, np.eye(1))


def embed(op, first, d, L):
    """op on contiguous sites first.. of an L-site chain of dimension d"""
    k = int(round(np.log(op.shape[0]) / np.log(d)))
    return kron(np.eye(d**first), op, np.eye(d**(L - first - k)))


def apply_local(psi, op, sites, d, L):
    """apply op (index order = order of `sites`) to arbitrary distinct sites"""
    k = len(sites)
    t = np.asarray(psi).reshape([d] * L)
    o = np.asarray(op).reshape([d] * (2 * k))
    t = np.tensordot(o, t, [list(range(k, 2 * k)), list(sites)])
    return np.moveaxis(t, list(range(k)), list(sites)).reshape(-1)


def expect(psi, op_psi):
    return np.vdot(psi, op_psi) / np.vdot(psi, psi)


def rdm(psi, sites, d, L):
    """normalised reduced density matrix on `sites`, <s|rho|s'> = sum psi_s psi*_s'"""
    t = np.asarray(psi).reshape([d] * L)
    rest = [i for i in range(L) if i not in sites]
    m = np.transpose(t, list(sites) + rest).reshape(d**len(sites), -1)
    r = m @ m.conj().T
    return r / np.trace(r)


def schmidt(psi, cut, d, L):
    """normalised Schmidt coefficients across the bond left of site `cut`"""
    s = np.linalg.svd(np.asarray(psi).reshape(d**cut, -1), compute_uv=False)
    return s / np.linalg.norm(s)


def chain(terms, d, L):
    """sum of two-site terms on (0,1), (1,2), ..."""
    H = np.zeros((d**L, d**L), complex)
    for i, h in enumerate(terms):
        H += embed(np.asarray(h), i, d, L)
    return H


def tangent(tensors):
    """matrix whose columns span the (complex-linear) tangent space of the set of states
    with these bond dimensions, at this state (includes the state itself)"""
    cols = []
    for n, t in enumerate(tensors):
        for idx in itertools.product(*[range(k) for k in t.shape]):
            e = np.zeros(t.shape, complex)
            e[idx] = 1
            cols.append(vec(list(tensors[:n]) + [e] + list(tensors[n + 1:])))
    return np.array(cols).T


def projector(cols, tol=1e-9):
    """orthogonal projector on the column space"""
    u, s, _ = np.linalg.svd(cols, full_matrices=False)
    u = u[:, s > tol * s[0]]
    return u @ u.conj().T


def expm(a):
    return sl.expm(a)


# spin operators from the definition (|m> ordered from m=S down to -S)
def spin_ops(S):
    m = np.arange(S, -S - 1, -1)
    sz = np.diag(m).astype(complex)
    sp = np.zeros((len(m), len(m)), complex)
    for i in range(len(m) - 1):
        sp[i, i + 1] = np.sqrt(S * (S + 1) - m[i + 1] * (m[i + 1] + 1))
    sm = sp.conj().T
    return (sp + sm) / 2, (sp - sm) / 2j, sz


PAULI = {'I': np.eye(2, dtype=complex),
         'X': np.array([[0, 1], [1, 0]], complex),
         'Y': np.array([[0, -1j], [1j, 0]]),
         'Z': np.array([[1, 0], [0, -1]], complex)}


# infinite chain, one-site unit cell -------------------------------------------------
def tm(A, B=None):
    """transfer matrix sum_s A_s (x) conj(B_s), acting on row-major vec of X: A X B^dag"""
    B = A if B is None else B
    return sum(np.kron(a, b.conj()) for a, b in zip(A, B))


def fixed(A):
    """(eta, l, r): leading eigenvalue of the transfer matrix, sum A r A^dag = eta r,
    sum A^dag l A = eta l, tr(l r) = 1, l, r positive"""
    D = A.shape[1]
    T = tm(A)
    w, v = np.linalg.eig(T)
    i = np.argmax(abs(w))
    r = v[:, i].reshape(D, D)
    wl, vl = np.linalg.eig(sum(np.kron(a.conj().T, a.T) for a in A))
    j = np.argmax(abs(wl))
    l = vl[:, j].reshape(D, D)
    r = r / np.trace(r)
    l = l / np.trace(l)
    r, l = (r + r.conj().T) / 2, (l + l.conj().T) / 2
    l = l / np.trace(l @ r)
    return w[i], l, r


def gap(A):
    """|second / first| eigenvalue of the transfer matrix"""
    w = np.sort(abs(np.linalg.eigvals(tm(A))))[::-1]
    return (w[1] / w[0]) if len(w) > 1 else 0.0


def iexpect(A, op, k=1):
    """expectation per site of a k-site operator in the uniform infinite state"""
    eta, l, r = fixed(A)
    M = block([A] * k)
    val = np.einsum('ab,sbc,cd,ted,ts,ea->', l, M, r, M.conj(), op, np.eye(A.shape[1]),
                    optimize=True)
    return val / eta**k


def permute_sites(psi, order, d, L):
    return np.transpose(np.asarray(psi).reshape([d] * L), order).reshape(-1)
