"""Shared by the checks on the time-dependent variational principle of the finite MPS:
states in a canonical form (full-rank, decently conditioned bonds), Hamiltonians, and the
dense picture of the tangent space."""
import numpy as np
from pbt.core import st
from pbt import gen, dense as dn
from pbt.fmps_common import any_mps, build
from xmps.fMPS import fMPS

HK = ['cplx', 'cplx', 'real', 'local', 'diag', 'uniform']


@st.composite
def case(draw, Lmin=2, Lmax=6, dmax=3, Dmax=4, maxdim=243, special=True, forms='LR', **kw):
    s = draw(any_mps(Lmin=Lmin, Lmax=Lmax, dmax=dmax, Dmax=Dmax, maxdim=maxdim, capped=True,
                     special=special, kind=draw(st.sampled_from(['cplx', 'cplx', 'cplx', 'real'])), **kw))
    s['form'] = draw(st.sampled_from(forms))
    s['ham'] = draw(st.sampled_from(HK))
    s['np'] = draw(st.integers(0, 2**20))
    return s


def terms(c, L=None):
    """two-site terms (each of norm 1), different on every bond unless 'uniform'"""
    d, L = c['d'], (L or c['L'])
    out = []
    for i in range(L - 1):
        k = 0 if c['ham'] == 'uniform' else i
        h = gen.herm(c['seed'], d * d, 'real' if c['ham'] == 'real' else 'cplx', 700 + k)
        if c['ham'] == 'diag':
            h = np.diag(np.diag(h))
        if c['ham'] == 'local':
            h = np.kron(gen.herm(c['seed'], d, 'cplx', 700 + k), np.eye(d)) + \
                np.kron(np.eye(d), gen.herm(c['seed'], d, 'cplx', 800 + k))
        out.append(h / max(np.linalg.norm(h, 2), 1e-12))
    return out


def state(c, tensors=None):
    """the fMPS of the case in its canonical form (form N: as it is), or None when a bond is badly conditioned
    (the equations divide by Schmidt coefficients)"""
    ts = build(c) if tensors is None else tensors
    m = fMPS([t.copy('K') for t in ts], c['d'])
    if c['form'] == 'N':
        l, r = envs(ts)
        for a in l + r:
            w = np.linalg.eigvalsh(a)
            if w[0] < 1e-3 * w[-1]:
                return None
        return m if conditioned(m) else None
    m = m.left_canonicalise() if c['form'] == 'L' else m.right_canonicalise()
    return m if conditioned(m) else None


def conditioned(m, smin=0.03):
    ts = [np.asarray(t) for t in m.data]
    psi = dn.vec(ts)
    for i in range(1, len(ts)):
        s = dn.schmidt(psi, i, m.d, m.L)
        D = ts[i].shape[1]
        if D > len(s) or s[D - 1] < smin:
            return False
    return True


def put(ts, rep):
    """the state with the tensors of `rep` (site -> tensor) put in"""
    return dn.vec([rep.get(n, t) for n, t in enumerate(ts)])


def tangent_vec(ts, B):
    """sum_n A..B_n..A"""
    return sum(put(ts, {n: np.asarray(b)}) for n, b in enumerate(B))


def psd_sqrt(a, inv=False):
    w, v = np.linalg.eigh((a + a.conj().T) / 2)
    w = np.sqrt(abs(w))
    return (v / w if inv else v * w) @ v.conj().T


def envs(ts):
    """l[n], r[n]: environments to the left of site n and to the right of site n"""
    L = len(ts)
    l, r = [np.eye(1, dtype=complex)], [np.eye(1, dtype=complex)]
    for t in ts[:-1]:
        l.append(np.einsum('sab,ac,scd->bd', t.conj(), l[-1], t))
    for t in ts[:0:-1]:
        r.append(np.einsum('sab,bc,sdc->ad', t, r[-1], t.conj()))
    return l, r[::-1]


def projected(ts, w):
    """component of w in the tangent space, orthogonal to the state"""
    P = dn.projector(dn.tangent(ts))
    psi = dn.vec(ts)
    return P @ w - psi * np.vdot(psi, w) / np.vdot(psi, psi)


def gauge_fixed(ts, w):
    """tensors B_n, each satisfying the left gauge condition, whose tangent vector is the
    orthogonal projection of w on the directions orthogonal to the state"""
    l, r = envs(ts)
    L = len(ts)
    out = []
    left = [np.ones((1, 1))]
    for t in ts:
        left.append(dn.block([left[-1].reshape(-1, 1, left[-1].shape[1]), t]).reshape(-1, t.shape[2]))
    right = [np.ones((1, 1))]
    for t in ts[::-1]:
        right.insert(0, np.einsum('sab,bx->asx', t, right[0]).reshape(t.shape[1], -1))
    for n, t in enumerate(ts):
        d, a, b = t.shape
        W = np.asarray(w).reshape(left[n].shape[0], d, right[n + 1].shape[1])
        F = np.einsum('xa,xsy,by->sab', left[n].conj(), W, right[n + 1].conj())
        li = psd_sqrt(l[n], True)
        A = (psd_sqrt(l[n]) @ t).reshape(d * a, b)
        X = (li @ F).reshape(d * a, b)
        X = X - dn.projector(A) @ X
        out.append(li @ X.reshape(d, a, b) @ np.linalg.inv(r[n]))
    return out


def standard_bonds(L, d, D):
    return [min(d**(i + 1), d**(L - 1 - i), D) for i in range(L - 1)]
