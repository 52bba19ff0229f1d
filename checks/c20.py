"""C20: environments and transfer matrices, finite and infinite; states of given energy"""
import numpy as np
from pbt.core import Prop, st
from pbt import gen, dense as dn, imps_common as ic, tdvp_common as tc
from xmps.fMPS import fMPS
from xmps.iMPS import iMPS, Map, TransferMatrix
from xmps.ncon import ncon

PROP = Prop('C20', 'random MPS (any gauge, L 1..6, d 1..3, any bonds) with operators carrying extra legs; random infinite tensors and pairs of tensors (D 1..4); '
            'against explicit products of dense transfer matrices; non-trivial = complex data and a bond larger than one')
TOL = 1e-9


def tm(A, B=None):
    """E[(a a'), (b b')] = sum_s A[s,a,b] conj B[s,a',b']"""
    B = A if B is None else B
    return np.einsum('sab,scd->acbd', A, B.conj())


@PROP.sub('environments', st.builds(lambda c: c, gen.mps_spec(Lmax=6, dmax=3, Dmax=4, dmin=1, maxdim=800)), quick=300,
          rule='left and right environments of any MPS')
def _(c, x):
    ts = gen.tensors(c)
    L = len(ts)
    x.interesting(c['kind'] != 'real' and max(c['bonds'] + [1]) > 1)
    m = fMPS([t.copy('K') for t in ts], c['d'])
    l, r = m.get_envs()
    le, re = tc.envs(ts)        # le[n] to the left of site n, re[n] to the right of site n
    for n in range(L):
        sc = max(1, abs(le[n]).max()), max(1, abs(re[n]).max())
        x.close(l(n - 1), le[n], 'environment to the left of site %d' % n, atol=1e-8 * sc[0])
        x.close(r(n), re[n], 'environment to the right of site %d' % n, atol=1e-8 * sc[1])
    nn = np.linalg.norm(dn.vec(ts))**2
    x.close(l(L - 1), np.array([[nn]]), 'norm from the left', atol=1e-8)
    x.close(r(-1), np.array([[nn]]), 'norm from the right', atol=1e-8)
    for n in range(L):
        x.close(np.trace(l(n) @ (r(n) if n < L - 1 else np.eye(1))), nn, 'norm across bond %d' % n, atol=1e-8)
    lf, rf = m.get_envs(store_envs=True)
    x.require(m.l is lf and m.r is rf, 'environments stored')
    for n, t in enumerate(ts):
        x.close(m[n], t, 'state unchanged', atol=0)
    # a change of the state changes the environments asked for afterwards
    k = c['seed'] % L
    m[k] = 2 * ts[k]
    x.close(m.get_envs()[0](L - 1), np.array([[4 * nn]]), 'environments after a change', atol=1e-7)
    # also a change of gauge, and an assignment through the list, with the earlier environments stored
    if np.linalg.norm(dn.vec(ts)) > 1e-3:
        (m.left_canonicalise if c['seed'] % 2 else m.right_canonicalise)()
        again(m, x, 'after a change of gauge')
        m.data[0] = 3 * m.data[0]
        again(m, x, 'after another change')


def again(m, x, what):
    cur = [np.array(t) for t in m.data]
    le, re = tc.envs(cur)
    for store in (True, False, True):
        l, r = m.get_envs(store_envs=store)
        for n in range(len(cur)):
            x.close(l(n - 1), le[n], 'environment to the left of site %d %s' % (n, what), atol=1e-8 * max(1, abs(le[n]).max()))
            x.close(r(n), re[n], 'environment to the right of site %d %s' % (n, what), atol=1e-8 * max(1, abs(re[n]).max()))


@PROP.sub('transfer', st.builds(lambda c, i, j, e, f: dict(c, i=i, j=j, extra=e, all=f), gen.mps_spec(Lmin=1, Lmax=6, dmax=3, Dmax=4, maxdim=800), st.integers(0, 5),
                                st.integers(0, 5), st.one_of(st.lists(st.integers(1, 3), max_size=2), st.lists(st.integers(1, 2), min_size=3, max_size=6)), st.booleans()), quick=400,
          rule='operators with extra legs carried along the chain in either direction')
def _(c, x):
    ts = gen.tensors(c)
    L = len(ts)
    j, i = sorted((c['i'] % L, c['j'] % L))
    m = fMPS([t.copy('K') for t in ts], c['d'])
    x.interesting(i > j and c['kind'] != 'real' and max(c['bonds'] + [1]) > 1)
    x.label('%d sites, %d extra legs' % (i - j, len(c['extra'])))
    # op lives on the bond to the left of site i
    a = ts[i].shape[1]
    op = gen.arr(c['seed'], (a, a) + tuple(c['extra']), 'cplx', 50)
    keep = op.copy()
    want = {i: op}
    cur = op
    for n in range(i - 1, j - 1, -1):
        cur = np.tensordot(tm(ts[n]), cur, [[2, 3], [0, 1]])
        want[n] = cur
    got = m.left_transfer(op, j, i)
    for n in range(j, i + 1):
        x.close(got(n), want[n], 'left_transfer to %d' % n, atol=1e-8 * max(1, abs(want[n]).max()))
    x.close(m.left_transfer(op, j, i, ret_all=False), want[j], 'left_transfer, last only', atol=1e-8 * max(1, abs(want[j]).max()))
    x.close(op, keep, 'operator unchanged', atol=0)
    # op on the bond to the right of site j, carried to the bond right of site i; its last two legs contract with the tensors
    b = ts[j].shape[2]
    op = gen.arr(c['seed'], tuple(c['extra']) + (b, b), 'cplx', 51)
    keep = op.copy()
    got = m.right_transfer(op, j, i)
    cur = op
    for n in range(j, i + 1):
        if n > j:
            cur = np.tensordot(cur, tm(ts[n]), [[-2, -1], [0, 1]])
        x.close(got(n + 1), cur, 'right_transfer to the bond right of %d' % n, atol=1e-8 * max(1, abs(cur).max()))
    x.close(m.right_transfer(op, j, i, ret_all=False), cur, 'right_transfer, last only', atol=1e-8 * max(1, abs(cur).max()))
    x.close(op, keep, 'operator unchanged', atol=0)
    for n, t in enumerate(ts):
        x.close(m[n], t, 'state unchanged', atol=0)


@PROP.sub('links', st.builds(lambda c, k: dict(c, k=k), gen.mps_spec(Lmin=1, Lmax=5, dmax=3, Dmax=3, maxdim=100), st.one_of(st.none(), st.integers(1, 3))),
          quick=150, rule='index lists for the full contraction of a state')
def _(c, x):
    ts = gen.tensors(c)
    L, d = len(ts), c['d']
    m = fMPS([t.copy('K') for t in ts], d)
    v = dn.vec(ts)
    x.interesting(c['kind'] != 'real' and L > 1)
    O = gen.arr(c['seed'], (d**L, d**L), 'cplx', 9)
    got = ncon([t.conj() for t in ts] + [O.reshape([d] * (2 * L))] + ts, m.links())
    x.close(got, np.vdot(v, O @ v), 'expectation value by links()', atol=1e-8 * d**L)
    x.close(ncon([t.conj() for t in ts] + ts, m.links(op=False)), np.vdot(v, v), 'norm by links(op=False)', atol=1e-8)
    k = min(c['k'] or L, L)
    sub = ts[:k]
    e = gen.arr(c['seed'], (sub[-1].shape[2],), 'cplx', 4)
    sub = sub[:-1] + [np.tensordot(sub[-1], e, [2, 0])[:, :, None]]
    w = dn.vec(sub)
    O = gen.arr(c['seed'], (d**k, d**k), 'cplx', 10)
    x.close(ncon([t.conj() for t in sub] + sub, m.links(k, False)), np.vdot(w, w), 'links of %d sites, no operator' % k, atol=1e-8 * max(1, np.vdot(w, w).real))
    x.close(ncon([t.conj() for t in sub] + [O.reshape([d] * (2 * k))] + sub, m.links(k)), np.vdot(w, O @ w), 'links of %d sites' % k, atol=1e-8 * d**k * max(1, np.vdot(w, w).real))


@PROP.sub('infinite', st.builds(lambda c, s, v: dict(c, seed2=s, v=v), ic.uniform(Dmin=1, long=(0.05, 0.1, 0.2)), gen.seeds, gen.seeds), quick=250,
          rule='transfer matrices of one and of two tensors: products, matrix, fixed points')
def _(c, x):
    A = ic.build(c)
    B = ic.build(dict(c, seed=c['seed2']), 1)
    d, D = c['d'], c['D']
    x.interesting(D > 1 and c['kind'] != 'real')
    v = gen.arr(c['v'], (D, D), 'cplx')
    sc = max(1., abs(tm(A)).max(), abs(tm(A, B)).max())
    for M, F in ((Map(A, B), tm(A, B)), (TransferMatrix(A), tm(A)), (iMPS([A.copy('K')]).transfer_matrix(), tm(A))):
        what = type(M).__name__
        X = F.reshape(D * D, D * D)
        x.close(M.asmatrix(), X, what + ' as a matrix', atol=TOL * sc)
        x.close(M.mv(v.reshape(-1)), X @ v.reshape(-1), what + ': right action', atol=TOL * sc * D * D)
        x.close(M.mvr(v.reshape(-1)), X.conj().T @ v.reshape(-1), what + ': left action', atol=TOL * sc * D * D)
        o = M.aslinearoperator()
        x.require(tuple(o.shape) == (D * D, D * D), what + ': shape')
        x.close(o @ v.reshape(-1), X @ v.reshape(-1), what + ' as a linear operator', atol=TOL * sc * D * D)
        x.close(o.H @ v.reshape(-1), X.conj().T @ v.reshape(-1), what + ' as a linear operator, adjoint', atol=TOL * sc * D * D)
    eta, l, r = TransferMatrix(A).eigs()
    eta = np.squeeze(eta)
    e0, l0, r0 = dn.fixed(A)
    x.close(eta / e0, 1, 'largest eigenvalue', atol=1e-7)
    x.close(np.einsum('acbd,bd->ac', tm(A), r) / e0, r, 'right fixed point', atol=1e-6 * abs(r).max())
    x.close(np.einsum('acbd,ac->bd', tm(A).conj(), l) / e0, l, 'left fixed point', atol=1e-6 * abs(l).max())
    x.close(np.trace(l @ r), 1, 'normalised together', atol=1e-8)
    for f in (l, r):
        x.close(f, f.conj().T, 'hermitian', atol=1e-7 * abs(f).max())
        x.require(np.linalg.eigvalsh((f + f.conj().T) / 2)[0] > -1e-8 * abs(f).max(), 'positive')
    eta2, l2, r2 = TransferMatrix(A).eigs(l0=gen.herm(c['v'], D, 'cplx', 3) + 3 * np.eye(D), r0=gen.herm(c['v'], D, 'cplx', 4) + 3 * np.eye(D))
    x.close(np.squeeze(eta2) / e0, 1, 'largest eigenvalue from guesses', atol=1e-7)
    x.close(np.kron(l2, r2), np.kron(l, r), 'fixed points from guesses', atol=1e-6 * abs(l).max() * abs(r).max())
    for f in (Map(A, A).right_fixed_point()[1], Map(A, A).left_fixed_point()[1]):
        x.close(f, f.conj().T, 'one tensor twice: hermitian', atol=1e-7 * abs(f).max())
    # two different tensors
    w = np.linalg.eigvals(tm(A, B).reshape(D * D, -1))
    w = w[np.argsort(-abs(w))]
    if D > 1 and abs(w[1]) > 0.95 * abs(w[0]):
        x.label('two tensors: leading eigenvalue not unique')
        return
    M = Map(A, B)
    e, r = M.right_fixed_point()
    e = np.squeeze(e)
    x.close(e / w[0], 1, 'mixed: eigenvalue', atol=1e-6)
    x.close(np.einsum('acbd,bd->ac', tm(A, B), r), e * r, 'mixed: right fixed point', atol=1e-6 * abs(e) * abs(r).max())
    x.require(bool(M.is_right_eigenvector(r, 1 / e)), 'is_right_eigenvector accepts')
    e2, l = M.left_fixed_point()
    e2 = np.squeeze(e2)
    x.close(abs(e2 / w[0]), 1, 'mixed: left eigenvalue', atol=1e-6)
    x.close(np.einsum('acbd,ac->bd', tm(A, B).conj(), l), e2 * l, 'mixed: left fixed point', atol=1e-6 * abs(e) * abs(l).max())
    x.close(np.trace(l.conj().T @ l), 1, 'mixed: left fixed point normalised', atol=1e-7)
    x.require(bool(M.is_left_eigenvector(l, 1 / e2)), 'is_left_eigenvector accepts')
    if D > 1:
        y = r + 0.3 * abs(r).max() * v / abs(v).max()
        x.require(bool(M.is_right_eigenvector(y, 1 / e)) == bool(np.allclose(y, np.einsum('acbd,bd->ac', tm(A, B), y) / e)), 'is_right_eigenvector of another matrix')
        y = l + 0.3 * abs(l).max() * v / abs(v).max()
        x.require(bool(M.is_left_eigenvector(y, 1 / e2)) == bool(np.allclose(y, np.einsum('acbd,ac->bd', tm(A, B).conj(), y) / e2)), 'is_left_eigenvector of another matrix')
    e3, r3 = M.right_fixed_point(rotate=False)
    x.close(np.einsum('acbd,bd->ac', tm(A, B), r3), np.squeeze(e3) * r3, 'right fixed point, not rotated', atol=1e-6 * abs(e) * abs(r3).max())
    e3, l3 = M.left_fixed_point(l0=l, tol=1e-12)
    x.close(np.einsum('acbd,ac->bd', tm(A, B).conj(), l3), np.squeeze(e3) * l3, 'left fixed point from a guess', atol=1e-6 * abs(e) * abs(l).max())
    e3, r3 = M.right_fixed_point(r0=r, tol=1e-12)
    x.close(e3 / w[0], [1], 'right fixed point from a guess', atol=1e-6)


@PROP.sub('wide', st.builds(lambda c, s: dict(c, seed2=s), ic.uniform(Dmin=5, Dmax=9, dmax=2), gen.seeds), quick=40,
          rule='fixed points at bond dimensions where they are found by iteration')
def _(c, x):
    A, B = ic.build(c), ic.build(dict(c, seed=c['seed2']), 1)
    D = c['D']
    x.interesting(c['kind'] != 'real')
    e0, l0, r0 = dn.fixed(A)
    eta, l, r = TransferMatrix(A).eigs()
    x.close(np.squeeze(eta) / e0, 1, 'largest eigenvalue', atol=1e-9)
    T = tm(A) / e0
    x.close(np.einsum('acbd,bd->ac', T, r), r, 'right fixed point', atol=1e-8 * abs(r).max())
    x.close(np.einsum('acbd,ac->bd', T.conj(), l), l, 'left fixed point', atol=1e-8 * abs(l).max())
    for P, Q in ((A, A), (A, B)):
        T = tm(P, Q)
        w = np.linalg.eigvals(T.reshape(D * D, -1))
        w = w[np.argsort(-abs(w))]
        if abs(w[1]) > 0.9 * abs(w[0]):
            continue
        e, r = Map(P, Q).right_fixed_point()
        x.close(np.squeeze(e) / w[0], 1, 'map: eigenvalue', atol=1e-8)
        x.close(np.einsum('acbd,bd->ac', T, r) / w[0], r, 'map: right fixed point', atol=1e-8 * abs(r).max())
        e, l = Map(P, Q).left_fixed_point()
        x.close(abs(np.squeeze(e) / w[0]), 1, 'map: eigenvalue from the left', atol=1e-8)
        x.close(np.einsum('acbd,ac->bd', T.conj(), l) / np.conj(w[0]), l, 'map: left fixed point', atol=1e-8 * abs(l).max())


@PROP.sub('null_spaces', ic.uniform(Dmin=1, Dmax=4, long=(0.1, 0.2)), quick=150, rule='left and right null projectors of an infinite MPS')
def _(c, x):
    A = ic.normalised(ic.build(dict(c, scale=1.)))
    d, D = c['d'], c['D']
    x.interesting(D > 1 and c['kind'] != 'real')
    m = iMPS([A.copy('K')])
    _, l, r = m.eigs()
    pr, vL = m.left_null_projector(True)
    x.require(vL.shape == (d, D, d * D - D), 'vL: shape')
    V = vL.reshape(d * D, -1)
    x.close(V.conj().T @ V, np.eye(d * D - D), 'vL orthonormal', atol=1e-8)

    def metric(pr, g):
        """check that pr is the inverse of the metric on the vectors it should span"""
        n = pr.shape[0] * pr.shape[1]
        P = pr.reshape(n, n)
        sc = max(1, abs(P).max())
        G = np.kron(np.eye(d), g)
        x.close(P, P.conj().T, 'projector hermitian', atol=1e-7 * sc)
        x.close(P @ G @ P, P, 'projector property in the metric of the environment', atol=1e-6 * sc**2)
        x.close(np.trace(P @ G), d * D - D, 'rank', atol=1e-6 * sc)
    metric(pr, l)
    X = gen.arr(c['seed'], (d, D, D), 'cplx', 5)
    B = np.einsum('satb,tbc->sac', pr, X)
    x.close(np.einsum('sab,ac,scd->bd', A.conj(), l, B), np.zeros((D, D)), 'left gauge', atol=1e-6 * max(1, abs(B).max()))
    x.close(m.left_null_projector(), pr, 'without vL', atol=1e-6 * max(1, abs(pr).max()))
    pr, vR = m.right_null_projector(True)
    x.require(vR.shape == (d, d * D - D, D), 'vR: shape')
    V = np.moveaxis(vR, 1, 0).reshape(-1, d * D)
    x.close(V @ V.conj().T, np.eye(d * D - D), 'vR orthonormal', atol=1e-8)
    metric(pr, r.T)
    B = np.einsum('sbtc,tac->sab', pr, X)
    x.close(np.einsum('sab,bc,sdc->ad', B, r, A.conj()), np.zeros((D, D)), 'right gauge', atol=1e-6 * max(1, abs(B).max()))
    x.close(m.right_null_projector(), pr, 'without vR', atol=1e-6 * max(1, abs(pr).max()))


@PROP.sub('given_energy', gen.fd(L=st.integers(2, 5), D=st.integers(1, 3), seed=gen.seeds, frac=st.sampled_from([-0.5, -0.2, 0., 0.3]),
                                 ham=st.sampled_from(['cplx', 'real', 'uniform']), tol=st.sampled_from([1e-6, 1e-9])), quick=40, timeout=60,
          rule='random states of a given energy')
def _(c, x):
    L = c['L']
    hs = tc.terms(dict(c, d=2, kind='cplx'))
    H = dn.chain(hs, 2, L)
    w = np.linalg.eigvalsh(H)
    # reachable for product states: between the extreme energies of random product states
    np.random.seed(c['np'])
    e = c['frac'] * 0.3 * (w[-1] - w[0]) / 2 + np.trace(H).real / 2**L
    m = fMPS()
    try:
        m = m.random_with_energy_E(e, hs, L, 2, c['D'], tol=c['tol'])
    except Exception as err:
        x.require(str(err) in ('Too many iterations', 'local minimum'), 'refused with %r' % (err,))
        x.label('refused: %s' % err)
        return
    x.interesting(c['D'] > 1)
    x.label('converged')
    v = dn.vec([np.asarray(t) for t in m.data])
    x.close(np.linalg.norm(v), 1, 'normalised', atol=1e-7)
    x.close(np.vdot(v, H @ v).real, e, 'energy', atol=c['tol'] * 2 + 1e-8)
    x.require(m.L == L and m.d == 2 and max(t.shape[2] for t in m.data) <= c['D'], 'structure %s' % m.structure())


@PROP.sub('infinite_history', st.builds(lambda c, s: dict(c, seq=s), ic.uniform(Dmin=1, Dmax=3), ic.history), quick=150,
          rule='fixed points, transfer matrix and null projectors of one infinite MPS asked again after every change')
def _(c, x):
    d, D = c['d'], c['D']
    h = gen.herm(c['seed'], d * d, 'cplx', 7)
    m = iMPS([ic.build(c).copy('K')])
    x.interesting(D > 1 and len(set(c['seq'])) > 1)
    for k, what in enumerate(c['seq']):
        m = ic.step(m, what, c, k, h)
        A = np.array(m[0])
        if not ic.good(A, 0.98):        # (in-place changes of real tensors and gauges may spoil the conditioning)
            x.label('ill-conditioned')
            return
        w = ' after ' + ', '.join(c['seq'][:k + 1])
        e0, l0, r0 = dn.fixed(A)
        eta, l, r = m.eigs()
        x.close(np.squeeze(eta) / e0, 1, 'largest eigenvalue' + w, atol=1e-6)
        sc = abs(l).max() * abs(r).max()
        x.close(np.kron(l, r), np.kron(l0, r0) / np.trace(l0 @ r0), 'fixed points' + w, atol=1e-5 * sc)
        g, f = m.get_envs()
        x.close(np.kron(g, f), np.kron(l, r), 'environments' + w, atol=1e-5 * sc)
        x.require(m.l is g and m.r is f, 'environments stored' + w)
        v = gen.arr(c['seed'], (D, D), 'cplx', k)
        x.close(m.transfer_matrix().mv(v.reshape(-1)), tm(A).reshape(D * D, -1) @ v.reshape(-1), 'transfer matrix' + w, atol=1e-8 * max(1, abs(tm(A)).max()))
        if d > 1:
            pr = m.left_null_projector()
            X = gen.arr(c['seed'], (d, D, D), 'cplx', 5 + k)
            B = np.einsum('satb,tbc->sac', pr, X)
            n0 = np.linalg.norm(A)
            x.close(np.einsum('sab,ac,scd->bd', A.conj() / n0, l, B), np.zeros((D, D)), 'left gauge' + w, atol=1e-5 * max(1, abs(B).max() * abs(l).max()))
            pr = m.right_null_projector()
            B = np.einsum('sbtc,tac->sab', pr, X)
            x.close(np.einsum('sab,bc,sdc->ad', B, r, A.conj() / n0), np.zeros((D, D)), 'right gauge' + w, atol=1e-5 * max(1, abs(B).max() * abs(r).max()))
        x.close(m[0], A, 'tensor unchanged' + w, atol=0)
