"""Reference for chains too long for a state vector: plain transfer contractions and QR/SVD
sweeps over the site tensors (never the code under test)."""
import numpy as np
from pbt.core import st
from pbt import gen


@st.composite
def long_mps(draw, Lmin=9, Lmax=32, dmax=3, Dmax=5, capped=None):
    """{L, d, bonds, kind, seed, special, capped}: longer chains; special: a product state, a GHZ state, a repeated
    tensor, or none of these"""
    L = draw(st.one_of(st.integers(Lmin, min(Lmax, Lmin + 5)), st.integers(Lmin, Lmax)))
    d = draw(st.integers(2, dmax))
    top = draw(st.integers(1, Dmax))
    cap = draw(st.booleans()) if capped is None else capped
    b = [draw(st.integers(1, top)) for _ in range(6)]
    b = [b[(3 * i + i // 6) % 6] for i in range(L - 1)]
    if cap:
        b = [min(k, d**min(i + 1, 9), d**min(L - 1 - i, 9)) for i, k in enumerate(b)]
        for i in range(1, L - 1):
            b[i] = min(b[i], d * b[i - 1])
        for i in range(L - 3, -1, -1):
            b[i] = min(b[i], d * b[i + 1])
    return dict(L=L, d=d, bonds=b, kind=draw(st.sampled_from(['cplx', 'cplx', 'real', 'int'])), seed=draw(gen.seeds), capped=cap, np=0,
                special=draw(st.sampled_from([None, None, None, None, 'ghz', 'product', 'repeated'])))


def build(c):
    """site tensors, every one of unit Frobenius norm up to a factor that keeps the norm of the state near one"""
    L, d = c['L'], c['d']
    b = [1] + list(c['bonds']) + [1]
    if c['special'] == 'product':
        b = [1] * (L + 1)
    if c['special'] == 'ghz':
        U = [gen.unitary(c['seed'], d, 50 + i) for i in range(L)]
        t = np.zeros((d, d, d), complex)
        for k in range(d):
            t[k, k, k] = 1
        ts = [np.tensordot(u, t, [1, 0]) for u in U]
        ts[0], ts[-1] = ts[0].sum(1, keepdims=True), ts[-1].sum(2, keepdims=True)
    elif c['special'] == 'repeated':
        D = max(b)
        t = gen.arr(c['seed'], (d, D, D), c['kind'], 1)
        ts = [t[:, :1]] + [t.copy() for _ in range(L - 2)] + [t[:, :, :1]]
    else:
        ts = [gen.arr(c['seed'], (d, b[i], b[i + 1]), c['kind'], i) for i in range(L)]
    for k in range(50):
        n = lognorm(ts)
        if np.isfinite(n):
            break
        ts = [gen.arr(c['seed'], t.shape, 'cplx', 1000 * k + i) for i, t in enumerate(ts)]
    ts = [t * np.exp(-n / L) for t in ts]
    if c['kind'] == 'real' and c['seed'] % 2 and not any(t.imag.any() for t in ts):
        ts = [t.real.copy() for t in ts]
    return ts


def lognorm(ts):
    """log of the norm of the state"""
    F, s = np.ones((1, 1), complex), 0.
    for t in ts:
        F = np.einsum('ab,sac,sbd->cd', F, t, t.conj(), optimize=True)
        n = np.linalg.norm(F)
        if n == 0:
            return -np.inf
        F, s = F / n, s + np.log(n)
    return s / 2


def ov(bra, ket, ops=None):
    """<bra|op|ket>; ops: {site: one-site operator}"""
    F = np.ones((1, 1), complex)
    for i, (a, b) in enumerate(zip(bra, ket)):
        b = np.asarray(b)
        if ops and i in ops:
            b = np.tensordot(ops[i], b, [1, 0])
        F = np.einsum('ab,sac,sbd->cd', F, np.conj(a), b, optimize=True)
    return F[0, 0]


def local(op, d):
    """an operator on two sites as a sum of products"""
    o = np.asarray(op).reshape(d, d, d, d).transpose(0, 2, 1, 3).reshape(d * d, d * d)
    u, s, v = np.linalg.svd(o)
    return [((u[:, k] * s[k]).reshape(d, d), v[k].reshape(d, d)) for k in range(d * d) if s[k] > 1e-14 * s[0]]


def acted(ts, ops):
    return [np.tensordot(ops[i], t, [1, 0]) if i in ops else t for i, t in enumerate(ts)]


def add(us, vs, a=1, b=1):
    """a |us> + b |vs> as a block-diagonal MPS"""
    if len(us) == 1:
        return [a * us[0] + b * vs[0]]
    out = []
    for i, (u, v) in enumerate(zip(us, vs)):
        d, l, r = u.shape
        _, p, q = v.shape
        if i == 0:
            out.append(np.concatenate([a * u, b * v], 2))
        elif i == len(us) - 1:
            out.append(np.concatenate([u, v], 1))
        else:
            t = np.zeros((d, l + p, r + q), complex)
            t[:, :l, :r], t[:, l:, r:] = u, v
            out.append(t)
    return compress(out)


def compress(ts, tol=1e-14):
    """the same state with no bond larger than it has to be (QR sweep, then SVD sweep)"""
    ts = [np.asarray(t) for t in ts]
    R = np.eye(1)
    out = []
    for t in ts:
        t = np.einsum('ab,sbc->sac', R, t)
        d, l, r = t.shape
        q, R = np.linalg.qr(t.reshape(d * l, r))
        out.append(q.reshape(d, l, -1))
    out[-1] = np.einsum('sab,bc->sac', out[-1], R)
    for i in range(len(out) - 1, 0, -1):
        d, l, r = out[i].shape
        u, s, v = np.linalg.svd(out[i].transpose(1, 0, 2).reshape(l, d * r), full_matrices=False)
        k = max(1, np.count_nonzero(s > tol * s[0]))
        out[i] = v[:k].reshape(k, d, r).transpose(1, 0, 2)
        out[i - 1] = np.einsum('sab,bc->sac', out[i - 1], u[:, :k] * s[:k])
    return out


def two(ts, op, i, j):
    """op on sites i, j (any order, index order as given) applied exactly"""
    d = ts[0].shape[0]
    out = None
    for A, B in local(op, d):
        t = acted(ts, {i: A, j: B})
        out = t if out is None else add(out, t)
    return out


def distance(us, vs):
    """norm of the difference of the states"""
    return np.sqrt(max(0, (ov(us, us) + ov(vs, vs) - 2 * ov(us, vs).real).real))


def schmidt(ts):
    """normalised Schmidt coefficients at every cut 0..L"""
    L = len(ts)
    left = [np.eye(1)]
    for t in ts:
        t = np.einsum('ab,sbc->sac', left[-1], t)
        R = np.linalg.qr(t.reshape(-1, t.shape[2]))[1]
        left.append(R / np.linalg.norm(R))
    right = [np.eye(1)]
    for t in ts[::-1]:
        t = np.einsum('sab,bc->sac', t, right[-1])
        R = np.linalg.qr(t.transpose(0, 2, 1).reshape(-1, t.shape[1]))[1].T
        right.append(R / np.linalg.norm(R))
    out = []
    for k in range(L + 1):
        s = np.linalg.svd(left[k] @ right[L - k], compute_uv=False)
        out.append(s / np.linalg.norm(s))
    return out


def rdm(ts, sites):
    """normalised reduced density matrix on contiguous sites"""
    i, j = sites[0], sites[-1] + 1
    F = np.ones((1, 1), complex)
    for t in ts[:i]:
        F = np.einsum('ab,sac,sbd->cd', F, t, t.conj(), optimize=True)
        F = F / np.linalg.norm(F)
    G = np.ones((1, 1), complex)
    for t in ts[:j - 1:-1] if j < len(ts) else []:
        G = np.einsum('ab,sca,sdb->cd', G, t, t.conj(), optimize=True)
        G = G / np.linalg.norm(G)
    B = np.ones((1, 1, 1)) * np.eye(ts[i].shape[1])[None]
    for t in ts[i:j]:
        B = np.einsum('axy,byz->abxz', B, t).reshape(B.shape[0] * t.shape[0], B.shape[1], t.shape[2])
    r = np.einsum('ab,xac,ybd,cd->xy', F, B, B.conj(), G, optimize=True)
    return r / np.trace(r)
