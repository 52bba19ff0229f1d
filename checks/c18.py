"""C18: tensor utilities, predicates and example states"""
import itertools
import numpy as np
import scipy.linalg as sl
import scipy.sparse as sp
from scipy.sparse.linalg import aslinearoperator
from pbt.core import Prop, st
from pbt import gen, dense as dn
from pbt.fmps_common import build
from xmps import tensor as tn, tests as pr, mps_examples as ex, spin
from xmps.fMPS import fMPS, sympmat, changebasis

PROP = Prop('C18', 'random (complex, real, integer, sparse, rank-deficient, rectangular) matrices and tensors of all small sizes against numpy '
            'definitions; random MPS pairs of unequal structure; non-trivial = complex data and no dimension equal to one')
TOL = 1e-9
kinds = st.sampled_from(['cplx', 'cplx', 'real', 'int', 'sparse'])
dims = st.integers(1, 6)


def lowrank(seed, m, n, kind, k):
    if k is None or k >= min(m, n):
        return gen.arr(seed, (m, n), kind)
    if k == 0:
        return np.zeros((m, n), complex)
    return gen.arr(seed, (m, k), kind, 1) @ gen.arr(seed, (k, n), kind, 2)


@PROP.sub('factorise', gen.fd(m=dims, n=dims, kind=kinds, seed=gen.seeds, rank=st.sampled_from([None, None, 0, 1, 2])), quick=500,
          rule='unique qr and rq factorisations, truncated svd, diagonalise')
def _(c, x):
    m, n = c['m'], c['n']
    A = lowrank(c['seed'], m, n, c['kind'], c['rank'])
    if c['kind'] == 'real':
        A = A.real
    K = A.copy()
    k = min(m, n)
    x.interesting(k > 1 and c['kind'] == 'cplx')
    x.label('rank %s' % ('full' if c['rank'] is None else c['rank']))
    q, r = tn.uqr(A)
    x.require(q.shape == (m, k) and r.shape == (k, n), 'uqr shapes %s %s' % (q.shape, r.shape))
    x.close(q @ r, A, 'q r = A', atol=TOL)
    x.close(q.conj().T @ q, np.eye(k), 'q isometric', atol=TOL)
    x.close(np.tril(r, -1), 0 * r, 'r upper triangular', atol=TOL)
    x.require((np.diag(r).real >= -TOL).all(), 'diagonal of r not negative')
    x.close(np.diag(r).imag, 0 * np.diag(r).real, 'diagonal of r real', atol=TOL)
    if c['rank'] is None and m >= n and np.linalg.cond(A) < 1e4:
        U = gen.unitary(c['seed'], m, 5)
        x.close(tn.uqr(U @ A)[1], r, 'r is unique', atol=1e-6)
    r, q = tn.urq(A)
    x.require(q.shape == (k, n) and r.shape == (m, k), 'urq shapes %s %s' % (r.shape, q.shape))
    x.close(r @ q, A, 'r q = A', atol=TOL)
    x.close(q @ q.conj().T, np.eye(k), 'rows of q orthonormal', atol=TOL)
    x.close(A, K, 'argument unchanged', atol=0)
    for D in range(1, k + 2):
        U, s, V = tn.tr_svd(A, D)
        e = min(D, k)
        x.require(U.shape == (m, e) and s.shape == (e, e) and V.shape == (e, n), 'tr_svd shapes')
        x.close(U.conj().T @ U, np.eye(e), 'U isometric', atol=TOL)
        x.close(V @ V.conj().T, np.eye(e), 'V isometric', atol=TOL)
        w = np.linalg.svd(A, compute_uv=False)
        x.close(np.diag(s), w[:e], 'largest singular values', atol=TOL)
        x.close(np.linalg.norm(U @ s @ V - A), np.linalg.norm(w[e:]), 'best rank-%d approximation' % e, atol=1e-7)
    M = A[:k, :k] + A[:k, :k].conj().T
    V, S = tn.diagonalise(M)
    x.close(V @ S @ V.conj().T, M, 'diagonalise: V S V^H', atol=TOL)
    x.close(V.conj().T @ V, np.eye(k), 'diagonalise: unitary', atol=TOL)
    x.require((np.diff(np.diag(S).real) <= TOL).all() and abs(S - np.diag(np.diag(S))).max() < TOL, 'descending eigenvalues')
    # a fixed point rotated by a phase
    P = A[:k] @ A[:k].conj().T + np.eye(k)
    w = np.exp(1j * (c['seed'] % 628) / 100)
    R = tn.rotate_to_hermitian(P * w)
    x.require(np.allclose(R, P, atol=1e-7) or np.allclose(R, -P, atol=1e-7), 'rotate_to_hermitian recovers the hermitian matrix up to sign')
    w_, R_ = tn.rotate_to_hermitian(P * w, ret_phase=True)
    x.close(R_ * w_, P * w, 'rotate_to_hermitian: phase times matrix', atol=1e-7)
    x.require(tn.rank(np.diag([1., 0, 1e-300, -2, 0][:c['m']])) == np.count_nonzero([1., 0, 1e-300, -2, 0][:c['m']]), 'rank of a diagonal matrix')


@PROP.sub('isometry', gen.fd(m=dims, n=dims, extra=st.integers(0, 3), kind=kinds, seed=gen.seeds, none=st.booleans()), quick=400,
          rule='embeddings, null spaces and unitary extensions')
def _(c, x):
    m, n = max(c['m'], c['n']), min(c['m'], c['n'])
    x.interesting(n > 1 and m > n and c['kind'] == 'cplx')
    v = gen.arr(c['seed'], (c['m'], c['n']), c['kind'])
    u = tn.embed(v)
    N = c['m'] * c['n']
    x.require(u.shape == (N, N), 'embed: shape')
    x.close(u.conj().T @ u, np.eye(N), 'embed: unitary', atol=TOL)
    x.close(u[:, 0], v.reshape(-1) / np.linalg.norm(v), 'embed: first column', atol=TOL)
    if (c['m'], c['n']) == (2, 2):
        x.label('deembed')
        x.close(tn.deembed(u), v / np.linalg.norm(v), 'deembed', atol=TOL)
    Q = gen.unitary(c['seed'], m, 2)[:, :n]
    for q in (Q, Q.conj().T):
        D = None if c['none'] else m + c['extra']
        e = tn.unitary_extension(q, D)
        s = m if D is None else D
        x.require(e.shape == (s, s), 'unitary_extension: shape %s' % (e.shape,))
        x.close(e.conj().T @ e, np.eye(s), 'unitary_extension: unitary', atol=TOL)
        x.close(e[:q.shape[0], :q.shape[1]], q, 'unitary_extension: contains the isometry', atol=TOL)
    if m > n:
        A = gen.arr(c['seed'], (n, m), 'cplx', 4)
        if np.linalg.cond(A) < 1e5:
            V = tn.get_null_space(A)
            x.require(V.shape == (m, m - n), 'get_null_space: shape')
            x.close(A @ V, np.zeros((n, m - n)), 'get_null_space: null vectors', atol=TOL)
            x.close(V.conj().T @ V, np.eye(m - n), 'get_null_space: orthonormal', atol=TOL)
    B = gen.arr(c['seed'], (c['extra'] + 1, m), c['kind'], 6)
    for a, b in ((v, B), (B, v), (B, B.T)):
        o = tn.direct_sum(a, b)
        x.close(o, sl.block_diag(a, b), 'direct_sum', atol=0)
    x.close(tn.eye_like(v), np.eye(c['m']), 'eye_like', atol=0)


@PROP.sub('traces', gen.fd(dims=st.lists(st.integers(1, 3), min_size=1, max_size=5), keep=st.integers(1, 31), kind=kinds, seed=gen.seeds,
                           opt=st.booleans()), quick=400, rule='partial traces of matrices and of pure states')
def _(c, x):
    d = c['dims']
    L = len(d)
    keep = [i for i in range(L) if c['keep'] >> i & 1] or [0]
    x.interesting(1 < len(keep) + 1 <= L and min(d) > 1 and c['kind'] == 'cplx')
    x.label('%d of %d kept' % (len(keep), L))
    N = int(np.prod(d))
    rho = gen.arr(c['seed'], (N, N), c['kind'])
    t = rho.reshape(d + d)
    rest = [i for i in range(L) if i not in keep]
    p = t.transpose(keep + rest + [L + i for i in keep + rest])
    a, b = int(np.prod([d[i] for i in keep])), int(np.prod([d[i] for i in rest]))
    want = np.einsum('ajbj->ab', p.reshape(a, b, a, b))
    k = rho.copy()
    x.close(tn.partial_trace(rho, keep, d, optimize=c['opt']), want, 'tensor.partial_trace', atol=TOL)
    x.close(spin.partial_trace(rho, keep, d, optimize=c['opt']), want, 'spin.partial_trace', atol=TOL)
    x.close(rho, k, 'argument unchanged', atol=0)
    u = gen.arr(c['seed'], (N,), c['kind'], 3)
    M = u.reshape(d).transpose(keep + rest).reshape(a, b)
    x.close(tn.ρA(u, keep, d, optimize=c['opt']), M @ M.conj().T, 'reduced density matrix of a vector', atol=TOL)
    x.close(tn.ρA(u, [], d), np.outer(u, u.conj()), 'nothing named to keep: the whole state', atol=TOL)


@PROP.sub('legs', gen.fd(d=st.integers(1, 4), a=dims, b=dims, e=dims, kind=kinds, seed=gen.seeds, p=st.integers(1, 3), q=st.integers(1, 3)), quick=300,
          rule='transposes, bond products and tensor-product positions')
def _(c, x):
    d, a, b, e, p, q = (c[k] for k in 'dabepq')
    x.interesting(min(d, a, b, e) > 1 and c['kind'] == 'cplx')
    A = gen.arr(c['seed'], (d, a, b), c['kind'])
    M = gen.arr(c['seed'], (e, a), c['kind'], 1)
    N = gen.arr(c['seed'], (b, e), c['kind'], 2)
    x.close(tn.T(A), np.einsum('sab->sba', A), 'T', atol=0)
    x.close(tn.H(A), np.einsum('sab->sba', A.conj()), 'H', atol=0)
    x.close(tn.C(A), A.conj(), 'C', atol=0)
    x.close(tn.ldot(M, A), np.einsum('ea,sab->seb', M, A), 'ldot', atol=TOL)
    x.close(tn.rdot(A, N), np.einsum('sab,be->sae', A, N), 'rdot', atol=TOL)
    X, Y, Z = gen.arr(c['seed'], (d, d), c['kind'], 3), gen.arr(c['seed'], (p, q), c['kind'], 4), gen.arr(c['seed'], (d, d), c['kind'], 5)
    K, K3 = np.kron(X, Y), np.kron(X, np.kron(gen.arr(c['seed'], (d, d), c['kind'], 6), Z))
    X2 = gen.arr(c['seed'], (d, d), c['kind'], 6)
    h = tn.split_up(K, d, p, q)
    x.close(h, np.einsum('bd,ac->abcd', X, Y), 'split_up', atol=TOL)
    x.close(tn.split_up(np.kron(X, Z), d), np.einsum('bd,ac->abcd', X, Z), 'split_up, equal factors', atol=TOL)
    x.close(tn.split_up_3(K3, d), np.einsum('ij,kl,mn->ijklmn', X, X2, Z), 'split_up_3', atol=TOL)
    for i, j, k, l in itertools.product(range(d), range(d), range(p), range(q)):
        x.close(K[tn.loc((i, j), (k, l), None, p, q)], X[i, j] * Y[k, l], 'loc with dimensions', atol=TOL)
    for st_, uv in tn.basis_iterator(d):
        x.close(np.kron(X, Z)[tn.loc(st_, uv, d)], X[st_] * Z[uv], 'loc', atol=TOL)
        x.require(tn.p(st_, uv, d) == tn.loc(st_, uv, d), 'p is loc')
    x.require(len(list(tn.basis_iterator(d))) == d**4 and len(set(tn.single_basis_iterator(d))) == d**2, 'basis iterators')
    if d <= 2:
        for i, j, k, l, m, n in itertools.product(range(d), repeat=6):
            x.close(K3[tn.loc_3((i, j), (k, l), (m, n), d)], X[i, j] * X2[k, l] * Z[m, n], 'loc_3', atol=TOL)
    D = min(a, b)
    S = np.diag(np.r_[np.linspace(1, 2, max(1, D - 1)), [0.] * (D > 1)])
    k = np.count_nonzero(np.diag(S))
    At, Bt, V = A[:, :, :D], gen.arr(c['seed'], (d, D, e), c['kind'], 8), gen.arr(c['seed'], (D, e), c['kind'], 9)
    for lim in list(range(1, D + 2)) + [None]:
        n = k if lim is None else lim
        for o, w in zip(tn.truncate_A(At, S, V, lim), (At[:, :, :n], S[:n, :n], V[:n])):
            x.close(o, w, 'truncate_A', atol=0)
        for o, w in zip(tn.truncate_B(V.T, S, Bt, lim), (V.T[:, :n], S[:n, :n], Bt[:, :n])):
            x.close(o, w, 'truncate_B', atol=0)
    for o, w in zip(tn.truncate_A(At, S, V, None, minD=False), (At, S, V)):
        x.close(o, w, 'truncate_A keeps zeros', atol=0)
    for o, w in zip(tn.truncate_B(V.T, S, Bt, None, minD=False), (V.T, S, Bt)):
        x.close(o, w, 'truncate_B keeps zeros', atol=0)


@PROP.sub('eigenmatrix', gen.fd(K=st.integers(1, 4), d=st.integers(1, 4), kind=st.sampled_from(['cplx', 'real']), cp=st.booleans(), seed=gen.seeds),
          quick=150, rule='leading left and right eigenmatrices of maps')
def _(c, x):
    K = c['K']
    if c['cp']:
        A = gen.arr(c['seed'], (c['d'] + 1, K, K), c['kind'])
        if c['kind'] == 'real':
            A = A.real
        M = np.einsum('sab,scd->acbd', A, A.conj())
    else:
        M = gen.arr(c['seed'], (K, K, K, K), c['kind'])
        if c['kind'] == 'real':
            M = M.real
    w = np.linalg.eigvals(M.reshape(K * K, K * K))
    w = w[np.argsort(-abs(w))]
    if K > 1 and abs(w[1]) > 0.97 * abs(w[0]):
        x.label('leading eigenvalue not unique, skipped')
        return
    x.label('completely positive' if c['cp'] else 'general')
    x.interesting(K > 1 and c['kind'] == 'cplx')
    keep = M.copy()
    e, v = tn.r_eigenmatrix(M)
    x.close(e, w[0], 'leading eigenvalue', atol=1e-7)
    x.require(v.shape == (K, K) and np.linalg.norm(v) > 0.1, 'shape')
    x.close(np.einsum('abcd,cd->ab', M, v), e * v, 'right eigenmatrix', atol=1e-7)
    if c['cp']:
        x.close(v, v.conj().T, 'hermitian', atol=1e-7)
        x.require(np.linalg.eigvalsh((v + v.conj().T) / 2)[0] > -1e-9, 'positive')
    e, v = tn.l_eigenmatrix(M)
    x.close(e, w[0], 'leading eigenvalue (left)', atol=1e-7)
    x.close(np.einsum('ab,abcd->cd', v, M), e * v, 'left eigenmatrix', atol=1e-7)
    if c['cp']:
        x.close(v, v.conj().T, 'hermitian (left)', atol=1e-7)
        x.require(np.linalg.eigvalsh((v + v.conj().T) / 2)[0] > -1e-9, 'positive (left)')
    x.close(M, keep, 'argument unchanged', atol=0)


@PROP.sub('expm', gen.fd(n=st.integers(1, 8), kind=kinds, seed=gen.seeds, form=st.sampled_from(['array', 'operator', 'sparse']),
                         t=st.sampled_from([[0., 0], [0.1, 0], [-0.5, 0], [1., 0], [2.5, 0], [0, 0.3], [0., -1]])), quick=100, rule='lanczos_expm(A, v, t) = exp(tA) v')
def _(c, x):
    n = c['n']
    A = gen.arr(c['seed'], (n, n), c['kind']) / np.sqrt(n)
    v = gen.arr(c['seed'], (n,), 'cplx', 1)
    t = complex(*c['t']) if c['t'][1] else c['t'][0]
    x.interesting(n > 2 and t != 0)
    x.label(c['form'])
    B = {'array': A, 'operator': aslinearoperator(A), 'sparse': sp.csr_matrix(A)}[c['form']]
    np.random.seed(c['np'])
    want = sl.expm(t * A) @ v
    x.close(tn.lanczos_expm(B, v, t), want, 'exp(tA) v', atol=1e-7 * max(1, np.linalg.norm(want)))


@PROP.sub('haar', gen.fd(n=st.integers(1, 5), seed=gen.seeds), quick=6, thorough=40, timeout=120, rule='haar_unitary: unitary, moments of the trace')
def _(c, x):
    n = c['n']
    np.random.seed(c['np'])
    N = 4000
    U = np.array([tn.haar_unitary(n) for _ in range(N)])
    x.interesting(n > 1)
    x.close(np.einsum('nab,nac->nbc', U.conj(), U), np.broadcast_to(np.eye(n), U.shape), 'unitary', atol=TOL)
    t1, t2 = np.einsum('naa->n', U), np.einsum('nab,nba->n', U, U)
    # standard deviations: |tr U|^2 is exponential with mean 1, |tr U^2|^2 has mean min(2, n)
    for k, (got, want, sd) in {'tr U': (t1.mean(), 0, 1), 'tr U^2': (t2.mean(), 0, 1.5), '|tr U|^2': ((abs(t1)**2).mean(), 1, 1.1),
                               '|tr U^2|^2': ((abs(t2)**2).mean(), min(2, n), 3), 'tr U tr U^T*': (np.mean(t1**2), 0, 1.5)}.items():
        x.require(abs(got - want) < 7 * sd / np.sqrt(N), 'mean of %s is %s, expected %s' % (k, got, want))


@PROP.sub('pad', st.builds(lambda a, b, s: dict(a=a, b=dict(b, L=a['L'], d=a['d'], bonds=(b['bonds'] + s + s)[:a['L'] - 1])),
                           gen.mps_spec(Lmax=6, dmax=3, Dmax=5, maxdim=300), gen.mps_spec(Lmax=6, dmax=3, Dmax=5, maxdim=300),
                           st.lists(st.integers(1, 5), min_size=6, max_size=6)), quick=250, rule='mps_pad gives both states the same structure and changes neither')
def _(c, x):
    ta, tb = gen.tensors(c['a']), gen.tensors(c['b'], 1)
    a, b = fMPS([t.copy('K') for t in ta], c['a']['d']), fMPS([t.copy('K') for t in tb], c['a']['d'])
    x.interesting(c['a']['bonds'] != c['b']['bonds'])
    p, q = tn.mps_pad(a, b)
    x.require(p.structure() == q.structure(), 'structures %s %s' % (p.structure(), q.structure()))
    x.require(p.structure() == [(max(s.shape[1], t.shape[1]), max(s.shape[2], t.shape[2])) for s, t in zip(ta, tb)], 'padded no further than needed')
    x.require(tn.structure(p) == p.structure(), 'structure()')
    x.close(dn.vec([np.asarray(t) for t in p.data]), dn.vec(ta), 'first state', atol=TOL)
    x.close(dn.vec([np.asarray(t) for t in q.data]), dn.vec(tb), 'second state', atol=TOL)


@PROP.sub('predicates', gen.fd(d=st.integers(1, 3), bonds=st.lists(st.integers(1, 4), min_size=1, max_size=5), seed=gen.seeds, kind=kinds,
                               off=st.sampled_from([0, 0, 1e-12, 1e-5, 1e-2, 1]), site=st.integers(0, 4)), quick=300,
          rule='the canonical-form predicates accept exactly the tensors that satisfy the definition')
def _(c, x):
    b = [min(k, c['d'] * j) for j, k in zip([99] + c['bonds'][:-1], c['bonds'])]
    b = [1] + c['bonds']
    for i in range(1, len(b)):
        b[i] = min(b[i], c['d'] * b[i - 1])
    n = c['site'] % (len(b) - 1)
    x.interesting(c['off'] != 0 and c['off'] > 1e-10)
    x.label('defect %s' % c['off'])
    A = [gen.unitary(c['seed'], c['d'] * b[i], i)[:, :b[i + 1]].reshape(c['d'], b[i], b[i + 1]) for i in range(len(b) - 1)]
    A[n] = A[n] + c['off'] * gen.arr(c['seed'], A[n].shape, 'cplx', 30) / 3
    B = [a.transpose(0, 2, 1).copy() for a in A[::-1]]
    dl = [abs(np.einsum('sab,sac->bc', a.conj(), a) - np.eye(a.shape[2])).sum() for a in A]
    if 1e-10 < max(dl) < 1e-6:
        return
    good = max(dl) < 1e-10
    keep = [a.copy() for a in A]
    x.require(bool(pr.is_left_canonical(A)) == good, 'is_left_canonical of a defect %g' % max(dl))
    x.require(bool(pr.is_right_canonical(B)) == good, 'is_right_canonical of a defect %g' % max(dl))
    for f, t in ((pr.is_left_canonical, A), (pr.is_right_canonical, B)):
        ok, cl = f(t, error=True)
        x.require(bool(ok) == good, 'with error information')
        x.close(cl, dl if t is A else dl[::-1], 'error information', atol=1e-6)
    if max(dl) > 1e-6:      # a tolerance given
        for f, t in ((pr.is_left_canonical, A), (pr.is_right_canonical, B)):
            x.require(bool(f(t, c=2 * max(dl))) and bool(f(t, c=2 * max(dl), error=True)[0]), 'within the tolerance given')
            x.require(not f(t, c=max(dl) / 2) and not f(t, c=max(dl) / 2, error=True)[0], 'outside the tolerance given')
    for a, k in zip(A, keep):
        x.close(a, k, 'tensors unchanged', atol=0)
    # environments
    l = [np.eye(b[0]) + 0j]
    for a in A:
        l.append(np.einsum('sab,ac,scd->bd', a.conj(), l[-1], a))
    x.require(bool(pr.is_right_env_canonical(A, l)), 'is_right_env_canonical accepts the true environments')
    r = [np.swapaxes(e, 0, 1) for e in l[::-1]]
    x.require(bool(pr.is_left_env_canonical(B, r)), 'is_left_env_canonical accepts the true environments')
    if len(A) > 1:
        k = 1 + c['seed'] % (len(A) - 1)
        bad = [e + (i == k) * 0.01 * np.eye(len(e)) for i, e in enumerate(l)]
        x.require(not pr.is_right_env_canonical(A, bad), 'is_right_env_canonical rejects others')
        x.require(not pr.is_left_env_canonical(B, [np.swapaxes(e, 0, 1) for e in bad[::-1]]), 'is_left_env_canonical rejects others')
    S = [np.diag(gen.rng(c['seed'], 40 + i).rand(k) + 0.1) for i, k in enumerate(b)]
    S = [s / np.trace(s) for s in S]
    x.require(bool(pr.has_trace_1(S)) and bool(pr.is_full_rank(S)), 'Schmidt matrices of trace one and full rank')
    x.require(bool(pr.has_trace_1(S, error=True)[0]), 'has_trace_1 with error')
    S[n] = S[n] * (1.01 + c['off'])
    x.require(not pr.has_trace_1(S), 'has_trace_1 rejects')
    x.close(pr.has_trace_1(S, error=True)[1][n], 0.01 + c['off'], 'trace error', atol=1e-9)
    S[n] = S[n].copy()
    S[n][-1, -1] = 0
    x.require(not pr.is_full_rank(S), 'is_full_rank rejects')


BELL = {1: [1, 0, 0, 1], 2: [1, 0, 0, -1], 3: [0, 1, 1, 0], 4: [0, -1, 1, 0]}
PM = {1: (1, 1), 2: (1, -1), 3: (-1, 1), 4: (-1, -1)}


@PROP.sub('examples', gen.fd(i=st.integers(1, 4), j=st.integers(1, 4), n=st.integers(1, 4), seed=gen.seeds), quick=60, rule='named example states')
def _(c, x):
    i, j = c['i'], c['j']
    x.interesting(i != j)
    O = gen.herm(c['seed'], 2, 'cplx')
    z = np.eye(4)

    def px(i):
        a, b = PM[i]
        return np.kron([1, a], [1, b]) / 2
    for f, ref in ((ex.bell, lambda k: np.array(BELL[k]) / np.sqrt(2)), (ex.comp_z, lambda k: z[k - 1]), (ex.comp_x, px)):
        a, b = f(i), f(j)
        va = dn.vec([np.asarray(t) for t in a.data])
        x.same_ray(va, ref(i) + 0j, '%s(%d)' % (f.__name__, i), tol=TOL)
        x.close(np.linalg.norm(va), 1, '%s: norm' % f.__name__, atol=TOL)
        x.close(abs(a.overlap(b)), float(i == j), '%s: orthonormal' % f.__name__, atol=TOL)
        for s in range(2):
            x.close(a.E(O, s), dn.expect(ref(i) + 0j, dn.apply_local(ref(i) + 0j, O, [s], 2, 2)).real, '%s: expectation values' % f.__name__, atol=TOL)
    A = ex.AKLT()
    sx, sy, sz = spin.spins(1)
    ss = sum(np.kron(s, s) for s in (sx, sy, sz))
    P2 = ss @ ss / 6 + ss / 2 + np.eye(9) / 3
    x.close(A.energy([P2]), 0, 'AKLT: no total spin 2 on two neighbours', atol=1e-7)
    for s in (sx, sy, sz):
        x.close(A.E(s), 0, 'AKLT: no magnetisation', atol=1e-7)
        x.close(A.E(s @ s), 2 / 3, 'AKLT: isotropic', atol=1e-7)
    p = ex.i_comp_z(1 + i % 2)
    x.close(p.E(O), O[i % 2, i % 2].real, 'i_comp_z', atol=TOL)
    # the tensors of the cat state are known; its expectation values are those of their transfer matrix
    eps = [1e-2, 0.1, 0.3, 0.7][c['n'] - 1]
    a = np.array([[[1, eps], [eps, eps]], [[eps, eps], [eps, 1]]])
    want = cat_value(a, O)
    for m in (ex.i_cat(eps), ex.i_cat(eps).left_canonicalise()) + ((ex.i_cat(),) if c['n'] == 1 else ()):
        x.close(m.E(O), want, 'i_cat(%s)' % eps, atol=1e-7)
    x.close(ex.i_cat(eps).E(spin.paulis(0.5)[2]), 0, 'i_cat: both halves of the cat', atol=1e-7)


def cat_value(a, O):
    T = np.einsum('sab,scd->acbd', a, a).reshape(4, 4)
    w, l = np.linalg.eig(T.T)
    w, r = np.linalg.eig(T)
    l, r = [v[:, np.argmax(abs(np.linalg.eigvals(t)))] for v, t in ((l, T.T), (r, T))]
    k = np.argmax(abs(w))
    return ((l @ np.einsum('sab,st,tcd->acbd', a, O, a).reshape(4, 4) @ r) / (l @ r) / w[k]).real


@PROP.sub('symplectic', gen.fd(n=st.integers(1, 6), seed=gen.seeds), quick=40, rule='the symplectic form in both orders of the coordinates')
def _(c, x):
    n = c['n']
    x.interesting(n > 1)
    xs, ps = gen.arr(c['seed'], (n,), 'real').real, gen.arr(c['seed'], (n,), 'real', 1).real
    ys, qs = gen.arr(c['seed'], (n,), 'real', 2).real, gen.arr(c['seed'], (n,), 'real', 3).real
    v, w = np.r_[xs, ps], np.r_[ys, qs]
    x.close(v @ sympmat(n) @ w, xs @ qs - ps @ ys, 'sympmat', atol=TOL)
    x.close(changebasis(n) @ v, np.stack([xs, ps], 1).reshape(-1), 'changebasis', atol=0)
    x.close(changebasis(n) @ sympmat(n) @ changebasis(n).T, np.kron(np.eye(n), [[0, 1], [-1, 0]]), 'the symplectic form pair by pair', atol=0)
