"""Shared between the finite-MPS checks: state specs with degenerate / rank-deficient
entanglement, and gauge predicates written from the definitions."""
import numpy as np
from pbt.core import st
from pbt import gen, dense as dn

SPECIAL = ['ghz', 'bell', 'w', 'product', 'padded', 'doubled']


@st.composite
def any_mps(draw, Lmin=1, Lmax=6, dmax=3, Dmax=4, maxdim=800, special=True, capped=None,
            kind=None):
    """generic MPS (70 %) or a structured one: GHZ / nearest-neighbour Bell pairs / W /
    product, possibly zero-padded or written with doubled redundant bonds"""
    cap = draw(st.booleans()) if capped is None else capped
    s = draw(gen.mps_spec(Lmin=Lmin, Lmax=Lmax, dmax=dmax, Dmax=Dmax, maxdim=maxdim, capped=cap,
                          kind=kind))
    s['special'] = draw(st.sampled_from([None] * 4 + SPECIAL)) if special else None
    s['np'] = 0
    s['capped'] = cap
    return s


def build(s):
    L, d, sp = s['L'], s['d'], s.get('special')
    if sp is None:
        return gen.tensors(s)
    if sp in ('ghz', 'w', 'bell', 'product'):
        ts = []
        if sp == 'ghz':
            for i in range(L):
                t = np.zeros((d, d, d), complex)
                for k in range(d):
                    t[k, k, k] = 1
                ts.append(t)
        elif sp == 'w':
            for i in range(L):
                t = np.zeros((d, 2, 2), complex)
                t[0, 0, 0] = t[0, 1, 1] = 1
                t[1, 0, 1] = 1
                ts.append(t)
        elif sp == 'bell':
            for i in range(L):
                if i % 2 == 0:
                    t = np.zeros((d, 1, d), complex)
                    for k in range(d):
                        t[k, 0, k] = 1
                    if i == L - 1:
                        t = t[:, :, :1]
                else:
                    t = np.zeros((d, d, 1), complex)
                    for k in range(d):
                        t[k, k, 0] = 1
                ts.append(t)
        else:
            ts = [gen.arr(s['seed'], (d, 1, 1), 'cplx', i) for i in range(L)]
        if sp == 'ghz':
            ts[0] = ts[0].sum(1, keepdims=True) if L > 1 else np.ones((d, 1, 1), complex)
            if L > 1:
                ts[-1] = ts[-1].sum(2, keepdims=True)
        if sp == 'w':
            if L > 1:
                ts[0], ts[-1] = ts[0][:, :1, :], ts[-1][:, :, 1:]
            else:
                ts[0] = ts[0][:, :1, 1:]
        # random local basis: keeps the entanglement, removes the zeros
        if s['seed'] % 3:
            ts = [np.tensordot(gen.unitary(s['seed'], d, 50 + i), t, [1, 0]) for i, t in enumerate(ts)]
    else:
        ts = gen.tensors(s)
        b = [t.shape[2] for t in ts]
        if sp == 'padded':
            out = []
            for i, t in enumerate(ts):
                l = 0 if i == 0 else 1
                r = 0 if i == L - 1 else 1
                out.append(np.pad(t, ((0, 0), (0, l), (0, r))))
            ts = out
        else:   # doubled: A -> A (+) A, same state up to a factor
            out = []
            for i, t in enumerate(ts):
                d_, a, c = t.shape
                n = np.zeros((d_, 2 * a, 2 * c), complex)
                n[:, :a, :c] = t
                n[:, a:, c:] = t
                if i == 0:
                    n = n[:, :a] + n[:, a:]
                if i == L - 1:
                    n = n[:, :, :c] + n[:, :, c:]
                out.append(n)
            ts = out
    ts = [np.ascontiguousarray(t) for t in ts]
    n = np.linalg.norm(dn.vec(ts)) ** (1. / L)
    return [t / n for t in ts]


def left_defect(A):
    A = np.asarray(A)
    return np.abs(np.einsum('sab,sac->bc', A.conj(), A) - np.eye(A.shape[2])).max()


def right_defect(A):
    A = np.asarray(A)
    return np.abs(np.einsum('sab,scb->ac', A, A.conj()) - np.eye(A.shape[1])).max()


def chain_shapes_ok(ts):
    return all(a.shape[2] == b.shape[1] for a, b in zip(ts, ts[1:])) and \
        ts[0].shape[1] == 1 and ts[-1].shape[2] == 1


def is_entangled(s):
    return s['L'] > 1 and s.get('special') != 'product' and max(s['bonds'], default=1) > 1
