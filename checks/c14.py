"""C14: the tangent space of the finite MPS: null projectors, coordinates, bases"""
import numpy as np
from pbt.core import Prop, st
from pbt import gen, dense as dn, tdvp_common as tc
from xmps.fMPS import fMPS

PROP = Prop('C14', 'random MPS, canonical or in any gauge (L 1..6, d 2..3, irregular bonds up to 4, degenerate spectra) and random coordinate vectors, '
            'against the dense tangent vectors; non-trivial = at least two sites carry tangent directions')
TOL = 1e-8
case = st.builds(lambda c, v, k: dict(c, v=v, pick=k), tc.case(Lmin=1, forms='LRN'), gen.seeds, st.integers(0, 5))


def start(c, x):
    m = tc.state(c)
    if m is None:
        x.label('ill-conditioned, skipped')
        return None
    ts = [np.asarray(t).copy() for t in m.data]
    dims = [(t.shape[0] * t.shape[1] - t.shape[2], t.shape[2]) for t in ts]
    x.interesting(sum(a * b > 0 for a, b in dims) > 1)
    x.label(c['form'])
    return m, ts, dims


def same(x, m, ts):
    for n, t in enumerate(ts):
        x.close(m[n], t, 'state unchanged', atol=0)


@PROP.sub('null', case, quick=250, rule='left and right null projectors')
def _(c, x):
    s = start(c, x)
    if s is None:
        return
    m, ts, dims = s
    nulls(c, x, m, ts)
    # the same object after a change of gauge, with the environments of before stored on it
    m.get_envs(True)
    new = regauge(c, ts)
    for n, t in enumerate(new):
        m[n] = t
    nulls(c, x, m, new)
    v = gen.arr(c['v'], (sum(a * b for a, b in dims),), 'cplx', 3)
    f = fMPS([t.copy() for t in new])
    m.get_envs(True)
    for n, t in enumerate(ts):
        m[n] = t
    m.get_envs(True)
    for n, t in enumerate(new):
        m[n] = t
    if len(v):
        got, want = m.import_tangent_vector(v), f.import_tangent_vector(v)
        for n in range(len(ts)):
            x.close(got[n], want[n], 'tangent vector of the coordinates after a change', atol=TOL * 100)
        x.close(m.extract_tangent_vector(want), v, 'coordinates of the tangent vector after a change', atol=1e-6)


def regauge(c, ts):
    new = [t for t in ts]
    for n in range(len(ts) - 1):
        b = ts[n].shape[2]
        X = gen.unitary(c['v'], b, 40 + n) @ np.diag(np.linspace(1, 1.4, b))
        new[n], new[n + 1] = new[n] @ X, np.linalg.inv(X) @ new[n + 1]
    return new


def nulls(c, x, m, ts):
    l, r = tc.envs(ts)
    for n, t in enumerate(ts):
        d, a, b = t.shape
        pr, vL = m.left_null_projector(n, get_vL=True)
        x.require(vL.shape == (d, a, d * a - b), 'vL of site %d: shape %s' % (n, vL.shape))
        V = vL.reshape(d * a, -1)
        x.close(V.conj().T @ V, np.eye(V.shape[1]), 'vL orthonormal', atol=TOL)
        lA = (tc.psd_sqrt(l[n]) @ t).reshape(d * a, b)
        x.close(lA.conj().T @ V, np.zeros((b, V.shape[1])), 'vL orthogonal to l^1/2 A', atol=TOL)
        # pr = l^-1/2 (1 - l^1/2 A (A^ l A)^-1 A^ l^1/2) l^-1/2
        Q = np.eye(d * a) - dn.projector(lA)
        k = np.kron(np.eye(d), tc.psd_sqrt(l[n], True))
        want = (k @ Q @ k).reshape(d, a, d, a)
        x.close(pr, want, 'left null projector', atol=TOL * 100)
        x.close(m.left_null_projector(n), want, 'left null projector without vL', atol=TOL * 100)
        U = gen.unitary(c['v'], V.shape[1], n) if V.shape[1] else np.zeros((0, 0))
        x.close(m.left_null_projector(n, vL=vL @ U) if V.shape[1] else want, want, 'left null projector from a given vL',
                atol=TOL * 100)
        pr, vR = m.right_null_projector(n, get_vR=True)
        Rr = np.moveaxis(t @ tc.psd_sqrt(r[n]), 1, 0).reshape(a, d * b)
        x.require(vR.shape == (d, d * b - a, b), 'vR of site %d: shape %s' % (n, vR.shape))
        V = np.moveaxis(vR, 1, 0).reshape(-1, d * b)
        x.close(V @ V.conj().T, np.eye(len(V)), 'vR orthonormal', atol=TOL)
        x.close(Rr @ V.conj().T, np.zeros((a, len(V))), 'vR orthogonal to A r^1/2', atol=TOL)
        k = np.kron(np.eye(d), tc.psd_sqrt(r[n], True))
        P = np.eye(d * b) - dn.projector(Rr.conj().T)
        want = (k @ P @ k).T.reshape(d, b, d, b)
        x.close(pr, want, 'right null projector', atol=TOL * 100)
        x.close(m.right_null_projector(n), want, 'right null projector without vR', atol=TOL * 100)
        if len(V):
            U = gen.unitary(c['v'], len(V), n)
            x.close(m.right_null_projector(n, vR=np.einsum('ji,sib->sjb', U, vR)), want, 'right null projector from a given vR', atol=TOL * 100)
        if n == c['v'] % len(ts):
            x.close(m.left_null_projector(n, store_envs=True), m.left_null_projector(n), 'left null projector, environments stored', atol=TOL * 100)
            x.close(m.right_null_projector(n, store_envs=True), want, 'right null projector, environments stored', atol=TOL * 100)
    same(x, m, ts)


@PROP.sub('coordinates', case, quick=300, rule='coordinates <-> tangent vectors: isometric, complete, gauge fixed')
def _(c, x):
    s = start(c, x)
    if s is None:
        return
    m, ts, dims = s
    sh = [tuple(int(i) for i in a) for a in m.tangent_space_dims()]
    x.require([a for a in sh if a[0] * a[1]] == [a for a in dims if a[0] * a[1]] and len(sh) == len(ts), 'dimensions %s %s' % (sh, dims))
    N = sum(a * b for a, b in dims)
    # the tangent space orthogonal to the state is exactly that big
    T = dn.tangent(ts)
    psi = dn.vec(ts)
    x.require(np.linalg.matrix_rank(T, tol=1e-7) == N + 1, 'dimension of the tangent space')
    if N == 0:
        x.label('no directions')
        return
    v, w = gen.arr(c['v'], (N,), 'cplx', 1), gen.arr(c['v'], (N,), 'cplx', 2)
    if c['v'] % 3 == 0:         # coordinates of very different sizes, and vanishing ones
        x.label('graded coordinates')
        v = v * 10. ** np.random.RandomState(c['v'] % 2**31).uniform(-5, 0, N) * (np.arange(N) % 5 > 0)
    B, C = m.import_tangent_vector(v), m.import_tangent_vector(w)
    l, r = tc.envs(ts)
    for n, (t, b) in enumerate(zip(ts, B.data)):
        x.require(b.shape == t.shape, 'tangent tensor shape')
        g = np.einsum('sab,ac,scd->bd', t.conj(), l[n], b)
        x.close(g, np.zeros_like(g), 'gauge condition on site %d' % n, atol=TOL * 100)
    p, q = tc.tangent_vec(ts, B.data), tc.tangent_vec(ts, C.data)
    x.close(np.vdot(p, q), np.vdot(v, w), 'inner products are kept', atol=TOL * 100)
    x.close(np.vdot(psi, p), 0, 'orthogonal to the state', atol=TOL * 100)
    x.close(dn.projector(T) @ p, p, 'in the tangent space', atol=TOL * 100)
    x.close(m.extract_tangent_vector(B), v, 'extract(import(v)) = v', atol=TOL * 100)
    a, b = gen.arr(c['v'], (2,), 'cplx', 3)
    D = m.import_tangent_vector(a * v + b * w)
    for n in range(len(ts)):
        x.close(D[n], a * B[n] + b * C[n], 'import is linear', atol=TOL * 100)
    # extracting any tangent vector of the manifold projects it
    X = [gen.arr(c['v'], t.shape, 'cplx', 20 + n) for n, t in enumerate(ts)]
    u = m.extract_tangent_vector(fMPS(X))
    back = m.import_tangent_vector(u)
    for n, t in enumerate(ts):
        A = (tc.psd_sqrt(l[n]) @ t).reshape(-1, t.shape[2])
        Y = (tc.psd_sqrt(l[n]) @ X[n]).reshape(-1, t.shape[2])
        Z = (tc.psd_sqrt(l[n], True) @ (Y - dn.projector(A) @ Y).reshape(t.shape))
        x.close(back[n], Z, 'import(extract(B)) is the gauge-fixed part of B on site %d' % n, atol=TOL * 1000)
    same(x, m, ts)


@PROP.sub('tangent_state', case, quick=200, rule='one-site tangent states')
def _(c, x):
    s = start(c, x)
    if s is None:
        return
    m, ts, dims = s
    sites = [n for n, (a, b) in enumerate(dims) if a * b]
    if not sites:
        x.label('no directions')
        return
    n = sites[c['pick'] % len(sites)]
    X = gen.arr(c['v'], dims[n], 'cplx')
    N = [a * b for a, b in dims]
    v = np.zeros(sum(N), complex)
    v[sum(N[:n]):sum(N[:n + 1])] = X.reshape(-1)
    want = tc.tangent_vec(ts, m.import_tangent_vector(v).data)
    _, vL = m.left_null_projector(n, get_vL=True)
    l, r = tc.envs(ts)
    # r^{-1/2} acts on the left leg of the next tensor: same state as on the right leg of this one
    for kw, w in (({}, 'default'), (dict(vL=vL), 'vL given'), (dict(envs=m.get_envs()), 'environments given')):
        p = m.tangent_state(X, n, **kw)
        x.require(isinstance(p, fMPS) and p.L == m.L, 'type')
        if n == m.L - 1:
            pass
        x.close(dn.vec([np.asarray(t) for t in p.data]), want, 'tangent state at site %d (%s)' % (n, w), atol=TOL * 100)
    same(x, m, ts)


@PROP.sub('basis', case, quick=120, rule='eye and rand bases of the tangent space are orthonormal and complete')
def _(c, x):
    s = start(c, x)
    if s is None:
        return
    m, ts, dims = s
    N = [a * b for a, b in dims if a * b]
    if not N:
        x.label('no directions')
        return
    for typ in ('eye', 'rand'):
        Q = np.asarray(m.tangent_space_basis(type=typ))
        x.require(Q.shape == (sum(N),) * 2, 'shape %s' % (Q.shape,))
        x.close(Q.conj().T @ Q, np.eye(sum(N)), typ + ' basis unitary', atol=TOL)
        o = 0
        for k in N:
            x.close(np.abs(Q[o:o + k, :o]).sum() + np.abs(Q[o:o + k, o + k:]).sum(), 0, typ + ' basis does not mix sites', atol=TOL)
            o += k
        if typ == 'eye':
            x.close(Q, np.eye(sum(N)), 'eye basis', atol=TOL)
    same(x, m, ts)
