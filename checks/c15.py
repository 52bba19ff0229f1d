"""C15: linearised flow on the finite MPS: jac, F1, F2, christoffel, ddA_dt"""
import itertools
import numpy as np
from pbt.core import Prop, st
from pbt import gen, dense as dn, tdvp_common as tc
from xmps.fMPS import fMPS

PROP = Prop('C15', 'random canonical MPS (L 2..5 and 11..12, d 2..3, irregular bonds) with random site-dependent two-site terms, against '
            'dense second derivatives of the state and a numerical linearisation of the dense projected flow; '
            'non-trivial = complex data and at least two sites with tangent directions')
TOL = 1e-6
case = st.builds(lambda c, v: dict(c, v=v), tc.case(Lmin=2, Lmax=5, maxdim=81, Dmax=3), gen.seeds)


class Frame:
    """orthonormal tangent basis of the state (built from the library's vL, whose own
    correctness C14 decides) and its dense vectors"""

    def __init__(self, m, vLs=None):
        self.m, self.ts = m, [np.asarray(t).copy() for t in m.data]
        l, r = tc.envs(self.ts)
        self.psi = dn.vec(self.ts)
        self.l, self.r = l, r
        self.B, self.site, self.slices = [], [], {}
        for n, t in enumerate(self.ts):
            vL = np.asarray(m.left_null_projector(n, get_vL=True)[1] if vLs is None else vLs[n])
            a, b = vL.shape[-1], t.shape[2]
            self.slices[n] = slice(len(self.B), len(self.B) + a * b, 1)
            li, ri = tc.psd_sqrt(l[n], True), tc.psd_sqrt(r[n], True)
            for i, j in itertools.product(range(a), range(b)):
                X = np.zeros((a, b), complex)
                X[i, j] = 1
                self.B.append(li @ vL @ X @ ri)
                self.site.append(n)
        self.N = len(self.B)
        self.T = np.array([tc.put(self.ts, {n: b}) for n, b in zip(self.site, self.B)]).T.reshape(len(self.psi), self.N)

    def second(self, w):
        """S[a, c] = <d_a d_c psi | w>"""
        S = np.zeros((self.N, self.N), complex)
        for a in range(self.N):
            for c in range(a):
                if self.site[a] != self.site[c]:
                    v = tc.put(self.ts, {self.site[a]: self.B[a], self.site[c]: self.B[c]})
                    S[a, c] = S[c, a] = np.vdot(v, w)
        return S


def start(c, x, **kw):
    m = tc.state(c)
    if m is None:
        x.label('ill-conditioned, skipped')
        return None
    f = Frame(m, **kw)
    if f.N == 0:
        x.label('no directions')
        return None
    x.interesting(c['kind'] == 'cplx' and len(set(f.site)) > 1 and c['ham'] in ('cplx', 'uniform', 'local'))
    x.label(c['form'])
    return m, f


def same(x, m, f):
    for n, t in enumerate(f.ts):
        x.close(m[n], t, 'state unchanged', atol=0)


def real_form(J1, J2):
    """matrix of v -> J1 v + J2 v* on (Re v, Im v)"""
    return np.block([[J1.real + J2.real, -J1.imag + J2.imag], [J1.imag + J2.imag, J1.real - J2.real]])


def tol(x, f):
    # inverse square roots of environments enter up to four times
    return TOL


@PROP.sub('jac', case, quick=300, rule='the three parts and the real matrix of the Jacobian')
def _(c, x):
    s = start(c, x)
    if s is None:
        return
    m, f = s
    hs = tc.terms(c)
    H = dn.chain(hs, c['d'], c['L'])
    J1, J2, G = m.jac(hs, real_matrix=False)
    w = f.T @ (f.T.conj().T @ (-1j * H @ f.psi))
    w1 = -1j * f.T.conj().T @ H @ f.T
    w2 = -1j * f.second(H @ f.psi)
    w3 = -f.second(w)
    x.close(J1, w1, '-i<d psi|H|d psi>', atol=TOL)
    x.close(J2, w2, '-i<dd psi|H|psi>', atol=TOL)
    x.close(G, w3, '-<dd psi|d psi> dA/dt', atol=TOL)
    J = m.jac(hs)
    x.close(J, real_form(w1, w2 + w3), 'real Jacobian', atol=TOL)
    O = np.block([[np.zeros((f.N, f.N)), np.eye(f.N)], [-np.eye(f.N), np.zeros((f.N, f.N))]])
    x.close(O @ J, (O @ J).T, 'the linearised flow is Hamiltonian', atol=TOL)
    x.close(m.jac(hs, fix_vLs=False), J, 'without basis fixing (no earlier basis known)', atol=TOL)
    # another Hamiltonian on the same object: nothing is reused
    h2 = tc.terms(dict(c, seed=c['seed'] + 1))
    H2 = dn.chain(h2, c['d'], c['L'])
    J1, J2, G = m.jac(h2, real_matrix=False)
    x.close(J1, -1j * f.T.conj().T @ H2 @ f.T, 'J1 of a second Hamiltonian', atol=TOL)
    x.close(J2, -1j * f.second(H2 @ f.psi), 'J2 of a second Hamiltonian', atol=TOL)
    same(x, m, f)


@PROP.sub('linearisation', case, quick=60, rule='the Jacobian is the covariant derivative of the projected flow')
def _(c, x):
    s = start(c, x)
    if s is None:
        return
    m, f = s
    hs = tc.terms(c)
    H = dn.chain(hs, c['d'], c['L'])
    E = np.vdot(f.psi, H @ f.psi).real
    J = m.jac(hs)
    v = gen.arr(c['v'], (f.N,))
    v = v / np.linalg.norm(v)
    step = [sum((v[k] * f.B[k] for k in range(f.N) if f.site[k] == n), np.zeros_like(t)) for n, t in enumerate(f.ts)]

    def F(e):
        ts = [t + e * s for t, s in zip(f.ts, step)]
        return tc.projected(ts, -1j * H @ dn.vec(ts))
    e = 3e-4
    num = (8 * (F(e) - F(-e)) - (F(2 * e) - F(-2 * e))) / (12 * e)
    want = f.T.conj().T @ num - 1j * E * v     # the Jacobian keeps the phase rotation by the energy
    got = J @ np.concatenate([v.real, v.imag])
    x.close(got[:f.N] + 1j * got[f.N:], want, 'J v', atol=1e-4)
    same(x, m, f)


@PROP.sub('pieces', st.builds(lambda c, o: dict(c, order=o), case, gen.seeds), quick=200,
          rule='F1, F2 and christoffel for single pairs of sites, in any order, with and without sharing the memo')
def _(c, x):
    s = start(c, x)
    if s is None:
        return
    m, f = s
    L = c['L']
    hs = tc.terms(c)
    H = dn.chain(hs, c['d'], L)
    w1 = f.T.conj().T @ H @ f.T
    w2 = f.second(H @ f.psi)
    pairs = [(i, j) for i in range(L) for j in range(L) if f.slices[i].stop > f.slices[i].start and f.slices[j].stop > f.slices[j].start]
    r = gen.rng(c['order'])
    r.shuffle(pairs)
    pairs = pairs + [pairs[k] for k in r.randint(0, len(pairs), 3)]
    ids = [None, 'a%d' % c['order']][c['order'] % 2]
    x.label('memo shared' if ids else 'fresh')
    for i, j in pairs[:12]:
        i, j = int(i), int(j)
        a, b = f.slices[i], f.slices[j]
        g = np.asarray(m.F1(i, j, hs, id=ids))
        x.close(g.reshape(a.stop - a.start, -1), w1[a, b], 'F1(%d, %d)' % (i, j), atol=TOL)
        g = np.asarray(m.F2(i, j, hs, id=ids))
        x.close(g.reshape(a.stop - a.start, -1), w2[a, b], 'F2(%d, %d)' % (i, j), atol=TOL)
    if not ids:
        i, j = pairs[0]
        m.F1(int(i), int(j), hs, testing=True)      # the library's own cross-check
        m.F2(int(i), int(j), hs, testing=True)
    same(x, m, f)


@PROP.sub('christoffel', st.builds(lambda c, o: dict(c, order=o), case, gen.seeds), quick=250,
          rule='-<d_i d_j psi|d_k psi> with any subset of the three arguments closed')
def _(c, x):
    s = start(c, x)
    if s is None:
        return
    m, f = s
    L = c['L']
    r = gen.rng(c['order'])
    B = [m.import_tangent_vector(gen.arr(c['v'], (f.N,), 'cplx', k)) for k in range(3)]
    for _ in range(6):
        i, j, k = [int(n) for n in r.randint(0, L, 3)]
        if r.rand() < 0.6:
            k = min(i, j)
        want = 0 if i == j else -np.vdot(tc.put(f.ts, {i: B[0][i], j: B[1][j]}), tc.put(f.ts, {k: B[2][k]}))
        X = [(f.l[i] @ B[0][i] @ f.r[i]).conj(), (f.l[j] @ B[1][j] @ f.r[j]).conj(), f.l[k] @ B[2][k] @ f.r[k]]
        cl = [bool(b) for b in r.randint(0, 2, 3)]
        g = np.asarray(m.christoffel(i, j, k, closed=tuple(t if b else None for t, b in zip(X, cl))))
        if cl == [False, False, True]:
            a, b = f.slices[i], f.slices[j]
            if a.stop == a.start or b.stop == b.start:
                continue
            p = tc.put(f.ts, {k: B[2][k]})
            ref = np.zeros((a.stop - a.start, b.stop - b.start), complex)
            if i != j:
                for u, v in itertools.product(range(a.start, a.stop), range(b.start, b.stop)):
                    ref[u - a.start, v - b.start] = -np.vdot(tc.put(f.ts, {i: f.B[u], j: f.B[v]}), p)
            x.close(g.reshape(ref.shape), ref, 'christoffel(%d, %d, %d) in coordinates' % (i, j, k), atol=TOL)
            continue
        for t in [t for t, b in zip(X, cl) if not b]:
            x.require(g.shape[:3] == t.shape, 'open legs %s %s' % (g.shape, t.shape))
            g = np.tensordot(t, g, 3)
        x.close(g, want, 'christoffel(%d, %d, %d) closed %s' % (i, j, k, cl), atol=TOL)
    same(x, m, f)


@PROP.sub('ddA_dt', case, quick=100, rule='the derivative of a tangent vector along the flow')
def _(c, x):
    s = start(c, x)
    if s is None:
        return
    m, f = s
    hs = tc.terms(c)
    H = dn.chain(hs, c['d'], c['L'])
    w = f.T @ (f.T.conj().T @ (-1j * H @ f.psi))
    v = gen.arr(c['v'], (f.N,))
    got = m.ddA_dt(v, hs)
    want = -1j * f.T.conj().T @ H @ (f.T @ v) + (-1j * f.second(H @ f.psi) - f.second(w)) @ v.conj()
    x.close(got, want, 'ddA_dt(v)', atol=TOL * 10)
    same(x, m, f)


@PROP.sub('basis_fixing', case, quick=80, rule='with the basis of an earlier time the Jacobian is given in the closest basis')
def _(c, x):
    s = start(c, x)
    if s is None:
        return
    m, f = s
    hs = tc.terms(c)
    own = [m.left_null_projector(n, get_vL=True)[1] for n in range(m.L)]
    old = [v @ gen.unitary(c['v'], v.shape[-1], n) if v.shape[-1] else v for n, v in enumerate(own)]
    m.old_vL = old
    J = m.jac(hs)
    for n in range(m.L):
        x.close(m.new_vL[n], old[n], 'rotated copy of the basis is found again', atol=TOL)
    g = Frame(m, vLs=old)
    H = dn.chain(hs, c['d'], c['L'])
    w = g.T @ (g.T.conj().T @ (-1j * H @ g.psi))
    x.close(J, real_form(-1j * g.T.conj().T @ H @ g.T, -1j * g.second(H @ g.psi) - g.second(w)), 'Jacobian in the given basis', atol=TOL)
    # an unrelated earlier basis: a unitary rotation that maximises the overlap
    e = [v + 0.2 * gen.arr(c['v'], v.shape, 'cplx', 50 + n) for n, v in enumerate(own)]
    m.old_vL = e
    J = m.jac(hs)
    for n in range(m.L):
        D = own[n].shape[-1]
        if not D:
            continue
        V, O = [np.asarray(u).reshape(-1, D) for u in (m.new_vL[n], own[n])]
        x.close(V @ V.conj().T, O @ O.conj().T, 'same space', atol=TOL)
        S = V.conj().T @ e[n].reshape(-1, D)
        x.close(S, S.conj().T, 'best overlap (hermitian)', atol=TOL)
        x.require(np.linalg.eigvalsh(S).min() > -TOL, 'best overlap (positive)')
    g = Frame(m, vLs=m.new_vL)
    w = g.T @ (g.T.conj().T @ (-1j * H @ g.psi))
    x.close(J, real_form(-1j * g.T.conj().T @ H @ g.T, -1j * g.second(H @ g.psi) - g.second(w)), 'Jacobian in the closest basis', atol=TOL)
    x.close(m.jac(hs, fix_vLs=False), real_form(-1j * f.T.conj().T @ H @ f.T, -1j * f.second(H @ f.psi) - f.second(w)),
            'Jacobian in its own basis', atol=TOL)


@PROP.sub('F2_basis', st.builds(lambda c: c, tc.case(Lmin=2, Lmax=4, maxdim=27, Dmax=3)), quick=40,
          rule='the basis of most stretched directions is orthogonal and ordered')
def _(c, x):
    s = start(c, x)
    if s is None:
        return
    m, f = s
    hs = tc.terms(c)
    V = np.asarray(m.tangent_space_basis(type='F2', H=hs))
    x.require(V.shape == (2 * f.N,) * 2, 'shape')
    x.close(V.T @ V, np.eye(2 * f.N), 'orthogonal', atol=TOL)
    M = dn.expm(0.1 * np.asarray(m.jac(hs)).real)
    k = V.T @ (M @ M.T) @ V
    x.close(k, np.diag(np.diag(k)), 'stretched directions', atol=TOL)
    x.require((np.diff(np.diag(k)) < TOL).all(), 'ordered')


@PROP.sub('long', gen.fd(L=st.sampled_from([11, 12, 13]), d=st.just(2), kind=st.just('cplx'), seed=gen.seeds, v=gen.seeds,
                         form=st.sampled_from('LR'), ham=st.sampled_from(['cplx', 'uniform']), special=st.none()),
          quick=4, thorough=25, timeout=300, rule='long chains (site numbers with two digits)')
def _(c, x):
    c = dict(c, bonds=[2] * (c['L'] - 1))
    m = None
    for k in range(20):
        m = tc.state(dict(c, seed=c['seed'] + k))
        if m is not None:
            break
    if m is None:
        x.label('ill-conditioned, skipped')
        return
    f = Frame(m)
    x.interesting(True)
    hs = tc.terms(c)
    L = c['L']

    def app(v):
        return sum(dn.apply_local(v, h, [i, i + 1], 2, L) for i, h in enumerate(hs))
    HT = np.array([app(f.T[:, k]) for k in range(f.N)]).T
    Hp = app(f.psi)
    J1, J2, G = m.jac(hs, real_matrix=False)
    w = f.T @ (f.T.conj().T @ (-1j * Hp))
    x.close(J1, -1j * f.T.conj().T @ HT, '-i<d psi|H|d psi>', atol=TOL)
    x.close(J2, -1j * f.second(Hp), '-i<dd psi|H|psi>', atol=TOL)
    x.close(G, -f.second(w), '-<dd psi|d psi> dA/dt', atol=TOL)
    B = m.dA_dt(hs)
    x.close(tc.tangent_vec(f.ts, B.data), w, 'dA/dt', atol=TOL)
