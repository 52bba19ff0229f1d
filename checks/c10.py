"""C10: spin operators, gates and generators of SU(N)"""
import itertools
import numpy as np
import scipy.linalg as sl
from pbt.core import Prop, st
from pbt import gen, dense as dn
from xmps import spin as sp

PROP = Prop('C10', 'every spin 1/2..4, chain lengths and sites, random operators and Lie-algebra vectors (N = 2..8); '
            'non-trivial = a site inside the chain / a non-zero vector / N > 2')
TOL = 1e-9


def comm(a, b):
    return a @ b - b @ a


@PROP.sub('spins', gen.fd(twoS=st.integers(1, 8)), quick=20, thorough=40, rule='spin operators of any spin, ladders, Paulis')
def _(c, x):
    S = c['twoS'] / 2
    x.interesting(c['twoS'] > 1)
    ops = sp.spins(S)
    for g, w, n in zip(ops, dn.spin_ops(S), 'xyz'):
        x.close(g, w, 'S%s of spin %s' % (n, S), atol=TOL)
    x.require(bool(sp.CR(*ops)), 'CR rejects spin operators')
    x.require(not sp.CR(ops[0], ops[1], -ops[2]), 'CR accepts a wrong sign')
    x.require(not sp.CR(ops[1], ops[0], ops[2]), 'CR accepts exchanged operators')
    for g, w in zip(sp.paulis(S), dn.spin_ops(0.5)):
        x.close(g, 2 * w, 'Pauli matrices', atol=TOL)
    x.require(bool(sp.pCR(*sp.paulis(0.5))), 'pCR rejects the Pauli matrices')
    x.require(not sp.pCR(*sp.spins(0.5)), 'pCR accepts spin-1/2 operators')
    if S <= 1.5:
        m, p = sp.ladders(S)
        X, Y, _ = dn.spin_ops(S)
        x.close(p, X + 1j * Y, 'raising operator', atol=TOL)
        x.close(m, X - 1j * Y, 'lowering operator', atol=TOL)


@PROP.sub('embedding', gen.fd(d=st.integers(2, 4), n=st.integers(1, 9), i=st.integers(0, 8), seed=gen.seeds), quick=300,
          rule='operators placed on a chain: one-site (1-based) and two-site terms (0-based, n terms)')
def _(c, x):
    d, n = c['d'], c['n']
    while d**n > 520:
        n -= 1
    i = c['i'] % n
    o = gen.arr(c['seed'], (d, d))
    x.interesting(0 < i < n - 1)
    x.close(sp.n_body(o, i + 1, n), dn.embed(o, i, d, n), 'one-site operator on site %d of %d' % (i + 1, n), atol=TOL)
    x.raises(Exception, lambda: sp.n_body(o, n + 1, n), 'site beyond the chain')
    if n > 1:
        h = gen.arr(c['seed'], (d * d, d * d), 'cplx', 1)
        j = i % (n - 1)
        x.close(sp.n_body(h, j, n - 1, d=d), dn.embed(h, j, d, n), 'two-site term %d of %d' % (j, n - 1), atol=TOL)
    os = [gen.arr(c['seed'], (d, d), 'cplx', 5 + k) for k in range(min(n, 4))]
    x.close(sp.tensor(os), dn.kron(*os), 'tensor product', atol=TOL)
    S = (d - 1) / 2
    for g, w in zip(sp.N_body_spins(S, i + 1, n), dn.spin_ops(S)):
        x.close(g, dn.embed(w, i, d, n), 'N_body_spins', atol=TOL)
    m = min(n, 5)
    k = i % m
    for g, w in zip(sp.N_body_paulis(0.5, k + 1, m), dn.spin_ops(0.5)):
        x.close(g, dn.embed(2 * w, k, 2, m), 'N_body_paulis', atol=TOL)
    X, Y, _ = dn.spin_ops(S)
    for g, w in zip(sp.N_body_ladders(S, i + 1, n), (X - 1j * Y, X + 1j * Y)):
        x.close(g, dn.embed(w, i, d, n), 'N_body_ladders', atol=TOL)


@PROP.sub('gates', gen.fd(seed=gen.seeds, th=st.floats(-7, 7), ph=st.floats(-7, 7), m=st.integers(1, 5)), quick=200,
          rule='two-qubit gates, exchange symmetry, spinors, spherical coordinates, permutation symbol')
def _(c, x):
    s = c['seed']
    x.interesting(abs(c['th']) > 0.1)
    a, b = gen.arr(s, (2,)), gen.arr(s, (2,), 'cplx', 1)
    x.close(sp.swap() @ np.kron(a, b), np.kron(b, a), 'swap')
    I2, X, Z = np.eye(2), dn.PAULI['X'], dn.PAULI['Z']
    P0, P1 = np.diag([1, 0]), np.diag([0, 1])
    x.close(sp.CNOT(), np.kron(P0, I2) + np.kron(P1, X), 'CNOT')
    x.close(sp.CZ(), np.kron(P0, I2) + np.kron(P1, Z), 'CZ')
    x.close(sp.H, (X + Z) / np.sqrt(2), 'Hadamard')
    U, V = sp.CRy(c['th']), sp.CRy(c['ph'])
    x.close(U @ U.conj().T, np.eye(4), 'controlled rotation is unitary')
    x.close(U @ V, sp.CRy(c['th'] + c['ph']), 'controlled rotations compose')
    x.close(U[:2], np.eye(4)[:2], 'controlled rotation acts on |1> only')
    W = U[2:, 2:]
    x.close(W, sl.expm(1j * c['th'] / 2 * dn.PAULI['Y']), 'rotation about y')
    M = gen.arr(s, (4, 4), 'cplx', 2)
    S = sp.swap()
    sy, an = sp.swap_symmetrise(M), sp.swap_antisymmetrise(M)
    x.close(S @ sy @ S, sy, 'symmetric part', atol=TOL)
    x.close(S @ an @ S, -an, 'antisymmetric part', atol=TOL)
    x.close(sy + an, M, 'symmetric plus antisymmetric part', atol=TOL)
    x.require(bool(sp.is_swap_symmetric(sy)) and not sp.is_swap_symmetric(M), 'is_swap_symmetric')
    A, B = gen.arr(s, (3, 3), 'cplx', 3), gen.arr(s, (3, 3), 'cplx', 4)
    x.close(sp.comm(A, B), A @ B - B @ A, 'commutator')
    x.close(sp.acomm(A, B), A @ B + B @ A, 'anticommutator')
    keep = A.copy()
    x.close(sp.swap_rows(A, 0, 2), A[[2, 1, 0]], 'swap_rows')
    x.close(A, keep, 'swap_rows changed its argument')
    for q, n in ((sp.antiferro(), 'antiferro'), (sp.ferro(), 'ferro')):
        x.require(bool(sp.pCR(*q)), '%s spinor violates the SU(2) algebra' % n)
        for k in q:
            x.close(k, k.conj().T, '%s spinor is hermitian' % n)
    v = gen.arr(s, (c['m'],), 'real', 5).real * 2
    r = sp.Nsphere(v)
    want = [np.prod(np.sin(v[:k])) * np.cos(v[k]) for k in range(len(v))] + [np.prod(np.sin(v))]
    x.close(r, want, 'hyperspherical coordinates', atol=TOL)
    x.close(np.linalg.norm(r), 1, 'point on the sphere', atol=TOL)
    n = 2 + s % 4
    e = np.asarray(sp.levi_civita(n))
    for idx in itertools.product(range(n), repeat=n):
        w = 0 if len(set(idx)) < n else round(np.linalg.det(np.eye(n)[list(idx)]))
        x.require(e[idx] == w, 'Levi-Civita symbol at %s' % (idx,), got=e[idx], want=w)


@PROP.sub('su', gen.fd(N=st.integers(2, 8), seed=gen.seeds, scale=st.sampled_from([0.1, 1.0, 3.0])), quick=120,
          rule='generators, exponentials, coordinates; embedding in one qubit more')
def _(c, x):
    N = c['N']
    g = np.array(sp.su(N))
    x.interesting(N > 2)
    x.require(g.shape == (N * N - 1, N, N), 'number of generators', shape=g.shape)
    x.close(g, g.conj().transpose(0, 2, 1), 'generators are hermitian', atol=TOL)
    x.close(np.einsum('aii->a', g), np.zeros(len(g)), 'generators are traceless', atol=TOL)
    x.close(np.einsum('aij,bji->ab', g, g), 2 * np.eye(len(g)), 'generators are orthonormal', atol=TOL)
    v = gen.arr(c['seed'], (N * N - 1,), 'real').real * c['scale'] / N
    Q = np.einsum('a,aij->ij', v, g)
    U = sp.SU(v, N)
    x.close(U, sl.expm(-1j * Q), 'SU(v)', atol=TOL)
    x.close(sp.components(Q), v, 'components', atol=TOL)
    w = np.asarray(sp.extractv(U))
    ph = sl.expm(-1j * np.einsum('a,aij->ij', w, g))
    z = np.trace(U.conj().T @ ph) / N
    x.close(abs(z), 1, 'vector extracted from a unitary regenerates it up to a phase', atol=1e-7)
    if np.linalg.norm(Q, 2) < 3:
        x.label('principal branch')
        x.close(w, v, 'extracted vector', atol=1e-7)
        x.close(sp.to_new_v(v), v, 'to_new_v', atol=1e-7)
    if abs(U[0, 0]) > 0.1:
        x.require(bool(sp.equal_up_to_phase(U, U * np.exp(1j * c['scale'] * 2))), 'equal up to a phase')
        x.require(not sp.equal_up_to_phase(U, gen.unitary(c['seed'], N)), 'different unitaries compare equal')
    if N == 4:
        x.close(sp.SU4(v), U, 'SU4', atol=TOL)
        Q = np.einsum('a,aij->ij', v, sp.lambdas())
        x.close(sp.U4(v), sl.expm(-1j * Q), 'U4', atol=TOL)
        L = np.array(sp.lambdas())
        x.require(L.shape == (15, 4, 4), 'fifteen generators of SU(4)')
        x.close(L, L.conj().transpose(0, 2, 1), 'lambdas are hermitian', atol=TOL)
        x.close(np.einsum('aij,bji->ab', L, L), 2 * np.eye(15), 'lambdas are orthonormal', atol=TOL)
        x.close(np.einsum('aii->a', L), np.zeros(15), 'lambdas are traceless', atol=TOL)
        s = np.array(sp.slambdas())
        sw = sp.swap()
        for k in s:
            x.close(sw @ k @ sw, k, 'slambdas are exchange symmetric', atol=TOL)
        x.require(np.linalg.matrix_rank(s.reshape(len(s), -1)) == 9 == len(s), 'nine independent symmetric generators')
        u = v[:9]
        W = sp.U4s(u)
        x.close(W, sl.expm(-1j * np.einsum('a,aij->ij', u, s)), 'U4s', atol=TOL)
        x.close(sw @ W @ sw, W, 'U4s is exchange symmetric', atol=TOL)
    if N == 8:
        x.close(sp.SU8(v), U, 'SU8', atol=TOL)
    if N == 2:
        X = np.array(dn.spin_ops(0.5))
        R = sl.expm(-1j * np.einsum('a,aij->ij', v, X))
        x.close(sp.U1(v), np.kron(np.eye(2), R), 'U1', atol=TOL)
        x.close(sp.U2(v), np.kron(R, np.eye(2)), 'U2', atol=TOL)
    if N in (2, 4):
        q = {2: 1, 4: 2}[N]
        S = dn.kron(np.eye(2**(q - 1)), sp.swap())
        for w, want in (('right', np.kron(U, np.eye(2))), ('left', np.kron(np.eye(2), U)), ('mid', S @ np.kron(U, np.eye(2)) @ S)):
            x.close(sl.expm(-1j * np.einsum('a,aij->ij', sp.insu2N(v, w), np.array(sp.su(2 * N)))), want,
                    'generator embedded with the new qubit %s' % w, atol=1e-8)
        x.close(sp.SU(v, N, rep='2N'), S @ np.kron(U, np.eye(2)) @ S, "SU(rep='2N')", atol=1e-8)


def maker(name, c):
    """(function, arguments) for every function that returns operators"""
    n, d, N = 2 + c['seed'] % 3, 2 + c['seed'] % 2, c['N']
    i = c['seed'] % n
    o, h = gen.arr(c['seed'], (d, d)), gen.arr(c['seed'], (d * d, d * d), 'cplx', 1)
    v = gen.arr(c['seed'], (N * N - 1,), 'real').real
    v15 = gen.arr(c['seed'], (15,), 'real', 2).real
    M = gen.arr(c['seed'], (4, 4), 'cplx', 2)
    S = (d - 1) / 2
    return {'spins': (sp.spins, (S,)), 'paulis': (sp.paulis, (0.5,)), 'ladders': (sp.ladders, (S,)), 'swap': (sp.swap, ()), 'CZ': (sp.CZ, ()),
            'CNOT': (sp.CNOT, ()), 'CRy': (sp.CRy, (0.7,)), 'levi_civita': (sp.levi_civita, (n,)), 'antiferro': (sp.antiferro, ()),
            'ferro': (sp.ferro, ()), 'n_body': (sp.n_body, (o, i + 1, n)), 'n_body d': (sp.n_body, (h, i, n, d)), 'tensor': (sp.tensor, ([o, o],)),
            'N_body_spins': (sp.N_body_spins, (S, i + 1, n)), 'N_body_paulis': (sp.N_body_paulis, (0.5, i + 1, n)),
            'N_body_ladders': (sp.N_body_ladders, (S, i + 1, n)), 'su': (sp.su, (N,)), 'SU': (sp.SU, (v, N)), 'lambdas': (sp.lambdas, ()),
            'slambdas': (sp.slambdas, ()), 'U4': (sp.U4, (v15,)), 'SU4': (sp.SU4, (v15,)), 'U4s': (sp.U4s, (v15[:9],)), 'U1': (sp.U1, (v15[:3],)),
            'U2': (sp.U2, (v15[:3],)), 'swap_symmetrise': (sp.swap_symmetrise, (M,)), 'swap_antisymmetrise': (sp.swap_antisymmetrise, (M,)),
            'Nsphere': (sp.Nsphere, (v,)), 'components': (sp.components, (np.einsum('a,aij->ij', v, np.array(sp.su(N))),)),
            'extractv': (sp.extractv, (sp.SU(0.2 * v / N, N),)), 'swap_rows': (sp.swap_rows, (M, 0, 2))}[name]


NAMES = ['spins', 'paulis', 'ladders', 'swap', 'CZ', 'CNOT', 'CRy', 'levi_civita', 'antiferro', 'ferro', 'n_body', 'n_body d', 'tensor',
         'N_body_spins', 'N_body_paulis', 'N_body_ladders', 'su', 'SU', 'lambdas', 'slambdas', 'U4', 'SU4', 'U4s', 'U1', 'U2', 'swap_symmetrise',
         'swap_antisymmetrise', 'Nsphere', 'components', 'extractv', 'swap_rows']


def scramble(a):
    """overwrite every array of an answer"""
    if isinstance(a, np.ndarray) and a.dtype != object:
        if a.flags.writeable:
            a *= 2
            a += 1
    elif isinstance(a, (list, tuple, np.ndarray)):
        for b in a:
            scramble(b)


def copies(a):
    return np.array([np.array(b) for b in a]) if isinstance(a, (list, tuple)) else np.array(a)


@PROP.sub('fresh', gen.fd(seq=st.lists(st.sampled_from(NAMES), min_size=1, max_size=4), N=st.integers(2, 4), seed=gen.seeds), quick=250,
          rule='an answer belongs to the caller: overwriting it does not change what is answered later, nor the arguments')
def _(c, x):
    x.interesting(len(set(c['seq'])) > 1)
    todo = [(n,) + maker(n, c) for n in dict.fromkeys(c['seq'])]
    first = {n: copies(f(*a)) for n, f, a in todo}
    for n, f, a in todo:
        x.label(n)
        keep = [np.array(k) for k in a]
        scramble(f(*a))
        for k, w in zip(a, keep):
            x.close(np.array(k), w, 'argument of %s' % n, atol=0)
    for n, f, a in todo:
        x.close(copies(f(*a)), first[n], '%s after its answer was overwritten' % n, atol=1e-12)
