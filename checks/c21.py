"""C21: thermofield double states"""
import numpy as np
from pbt.core import Prop, st
from pbt import gen, dense as dn, tdvp_common as tc
from pbt.fmps_common import any_mps, build, left_defect, right_defect
from checks import c17
from xmps.fMPS import fMPS, fTFD, fs
from xmps.fTDVP import Trajectory

PROP = Prop('C21', 'random doubled states: psi x psi of a random or structured MPS (L 1..5, d 2..3, any bonds) and generic states with two copies of each site, '
            'against dense vectors with the copies as separate legs; non-trivial = complex data and a bond larger than one')
TOL = 1e-7


def copies(v, d, L):
    """amplitudes of a doubled state: first-copy legs, then second-copy legs"""
    v = np.asarray(v).reshape([d, d] * L)
    return v.transpose(list(range(0, 2 * L, 2)) + list(range(1, 2 * L, 2)))


def interleave(a, b, d, L):
    """dense doubled vector of two state vectors"""
    v = np.multiply.outer(a.reshape([d] * L), b.reshape([d] * L))
    return v.transpose([j * L + i for i in range(L) for j in range(2)]).reshape(-1)


def double(H, d, L):
    n = d**L
    X = np.kron(H, np.eye(n)) + np.kron(np.eye(n), H)
    o = [j * L + i for i in range(L) for j in range(2)]
    return X.reshape([d] * 4 * L).transpose(o + [2 * L + k for k in o]).reshape(n * n, n * n)


@st.composite
def doubled(draw, maxdim=32, kinds=('pure', 'generic', 'generic'), Lmin=1):
    c = draw(any_mps(Lmin=Lmin, Lmax=5, dmax=3, Dmax=3, maxdim=maxdim, kind=draw(st.sampled_from(['cplx', 'cplx', 'real']))))
    c['tfd'] = draw(st.sampled_from(kinds))
    c['square'] = draw(st.booleans())
    c['form'] = draw(st.sampled_from('NNLRM'))
    c['np'] = draw(gen.seeds)
    return c


def bonds(ts):
    return [t.shape[1] for t in ts][1:]


def make(c, x=None, square=False):
    """(fTFD, its tensors) of the case"""
    d = c['d']
    if c['tfd'] == 'pure':
        ts = [np.kron(t, t) for t in build(c)]
    else:
        b = c['bonds']
        if square:
            b = [k * k for k in b]
        elif c['square']:
            b = [[1, 4][k > 1] for k in b]
        ts = gen.tensors(dict(c, special=None, d=d * d, bonds=b))
    m = fTFD([t.copy('K') for t in ts], d * d)
    return m, ts


@PROP.sub('embed', st.builds(lambda c, s: dict(c, seed2=s), any_mps(Lmin=1, Lmax=5, dmax=3, Dmax=3, maxdim=64), gen.seeds), quick=300,
          rule='doubled state of an MPS')
def _(c, x):
    ta = build(c)
    tb = gen.tensors(dict(c, seed=c['seed2'], special=None), 1)
    L, d = c['L'], c['d']
    x.interesting(c['kind'] == 'cplx' and max(bonds(ta) + [1]) > 1)
    a, b = fMPS([t.copy('K') for t in ta], d), fMPS([t.copy('K') for t in tb], d)
    A, B = fTFD().from_fMPS(a), fTFD().from_fMPS(b)
    va, vb = dn.vec(ta), dn.vec(tb)
    x.require(A.L == L and A.d == d * d and len(A.data) == L and len(A) == L, 'length and local dimension')
    x.close(dn.vec(A.data), interleave(va, va, d, L), 'doubled vector', atol=TOL)
    x.close(A.recombine().reshape(-1), interleave(va, va, d, L), 'recombine', atol=TOL)
    x.close(A.overlap(B), np.vdot(vb, va)**2, 'overlap of doubles is the squared overlap', atol=TOL)
    x.close(A.norm(), np.vdot(va, va)**2, 'norm', atol=TOL)
    x.require(A == A.symmetry(), 'a doubled state is symmetric')
    for t, k in zip(ta, a.data):
        x.close(k, t, 'MPS unchanged', atol=0)
    ops = [gen.herm(c['seed'], d, 'cplx', 50 + i) for i in range(3)]
    n = np.vdot(va, va).real
    site = c['seed'] % L
    want = [dn.expect(va, dn.apply_local(va, o, [site], d, L)) for o in ops]
    for lr in (0, 1):
        x.close(A.E(ops[0], site, lr), want[0], 'E on copy %d' % lr, atol=TOL)
        x.close(A.Es(ops, site, lr), want, 'Es on copy %d' % lr, atol=TOL)
    x.close(A.E(ops[1], site), want[1], 'E', atol=TOL)
    x.same_ray(dn.vec(A.data), interleave(va, va, d, L), 'state unchanged by asking', tol=1e-6)
    s = A.add(B)
    A = fTFD().from_fMPS(a)
    x.close(dn.vec(A.add(B).data), dn.vec(A.data) + dn.vec(B.data), 'add adds the vectors', atol=TOL)
    x.require(type(s) is fTFD, 'add gives a doubled state')


@PROP.sub('generic', doubled(), quick=300, rule='doubled states that are no products')
def _(c, x):
    m, ts = make(c)
    L, d = c['L'], c['d']
    x.interesting(c['kind'] == 'cplx' and max(bonds(ts) + [1]) > 1 and c['tfd'] == 'generic')
    v = dn.vec(ts)
    site = c['seed'] % L
    if c['form'] == 'L':
        m = m.left_canonicalise()
    elif c['form'] == 'R':
        m = m.right_canonicalise()
    elif c['form'] == 'M':
        m = m.mixed_canonicalise(c['np'] % L)
    x.require(isinstance(m, fTFD), 'canonical forms of a doubled state are doubled states')
    I = np.eye(d)
    for i in (site, (site + 1) % L, site):
        ops = [gen.herm(c['seed'], d, 'cplx', 50 + i + k) for k in range(3)]
        for lr in (c['np'] % 2, 1 - c['np'] % 2):
            big = [np.kron(o, I) if lr == 0 else np.kron(I, o) for o in ops]
            want = [dn.expect(v, dn.apply_local(v, o, [i], d * d, L)) for o in big]
            x.close(m.E(ops[0], i, lr), want[0], 'E on copy %d' % lr, atol=TOL)
            x.close(m.Es(ops, i, lr), want, 'Es on copy %d' % lr, atol=TOL)
    x.same_ray(dn.vec(m.data), v, 'state unchanged by asking', tol=1e-6)
    z = complex(*gen.arr(c['seed'], (2,), 'real', 90))
    m, ts = make(c)
    o, to = make(dict(c, seed=c['seed'] + 1, special=None, tfd='generic', bonds=bonds(ts), square=False)) if c['tfd'] == 'generic' else make(c)
    for what, r, w in (('+', m + o, [a + b for a, b in zip(ts, to)]), ('-', m - o, [a - b for a, b in zip(ts, to)]), ('*', m * z, [z * a for a in ts]),
                       ('scalar *', (2 - 1j) * m, [(2 - 1j) * a for a in ts]), ('/', m / z, [a / z for a in ts])):
        x.require(isinstance(r, fTFD) and r.L == L and r.d == d * d, what + ' gives a doubled state')
        for p, q in zip(r.data, w):
            x.close(p, q, what + ' acts tensor by tensor', atol=1e-10)
    for p, q in zip(m.data, ts):
        x.close(p, q, 'operands unchanged', atol=0)
    to = gen.tensors(dict(c, special=None, d=d * d, bonds=[1 + (k + i) % 3 for i, k in enumerate(c['bonds'])]), 3)
    o = fTFD(to, d * d)
    x.close(dn.vec(m.add(o).data), v + dn.vec(to), 'add adds the vectors', atol=TOL)


@PROP.sub('symmetry', st.builds(lambda c, p: dict(c, pure=p), doubled(maxdim=16), st.booleans()), quick=250, rule='exchange of the two copies')
def _(c, x):
    m, ts = make(c, square=True)
    L, d = c['L'], c['d']
    x.interesting(c['kind'] == 'cplx' and max(bonds(ts) + [1]) > 1 and c['tfd'] == 'generic')
    V = copies(dn.vec(ts), d, L)
    swap = list(range(L, 2 * L)) + list(range(L))
    s = m.symmetry()
    x.require(isinstance(s, fTFD), 'symmetry gives a doubled state')
    x.close(copies(dn.vec(s.data), d, L), V.transpose(swap), 'symmetry exchanges the copies', atol=TOL)
    for p, q in zip(s.symmetry().data, ts):
        x.close(p, q, 'twice is the identity', atol=0)
    y = m.symmetrise()
    for p, q, r in zip(y.data, ts, s.data):
        x.close(p, q + r, 'symmetrise', atol=1e-10)
    W = copies(dn.vec(y.data), d, L)
    x.close(W, W.transpose(swap), 'a symmetrised state is symmetric', atol=TOL * max(1, abs(W).max()))
    x.require(y == y.symmetry(), 'tensors of a symmetrised state are symmetric')
    for p, q in zip(m.data, ts):
        x.close(p, q, 'state unchanged', atol=0)
    # random states
    D = 1 + c['np'] % 3
    np.random.seed(c['np'])
    R = fTFD().random(L, d, D, pure=c['pure'])
    x.require(isinstance(R, fTFD) and R.L == L and R.d == d * d and len(R.data) == L, 'random: length and local dimension')
    x.require(R.data[0].shape[1] == 1 and R.data[-1].shape[2] == 1, 'random: open ends')
    x.require(max(max(t.shape[1:]) for t in R.data) <= D * D, 'random: bond dimension')
    x.require(R == R.symmetry(), 'random: symmetric')
    # (dense, too)
    W = copies(dn.vec(R.data), d, L)
    x.close(W / abs(W).max(), W.transpose(swap) / abs(W).max(), 'random: the vector is symmetric', atol=TOL)
    if c['pure']:
        sv = np.linalg.svd(W.reshape(d**L, -1), compute_uv=False)
        x.require(len(sv) == 1 or sv[1] < 1e-9 * sv[0], 'pure: a product of two states')


@PROP.sub('null', doubled(maxdim=16), quick=150, rule='null spaces split into symmetric and antisymmetric parts')
def _(c, x):
    c = dict(c, tfd='generic')
    m, ts = make(c, square=True)
    d = c['d']
    m = m.left_canonicalise() if c['form'] in 'LN' else m.right_canonicalise()
    ts = [np.asarray(t).copy() for t in m.data]
    if not tc.conditioned(m) or any(int(round(np.sqrt(t.shape[1])))**2 != t.shape[1] for t in ts):
        x.label('ill-conditioned or bonds no squares, skipped')
        return
    x.interesting(c['kind'] == 'cplx' and max(bonds(ts) + [1]) > 1)
    vs = m.get_vL()
    l, _ = tc.envs(ts)
    x.require(len(vs) == len(ts), 'one for each site')
    for n, (S, A, M) in enumerate(vs):
        pr, vL = m.left_null_projector(n, get_vL=True)
        D, D2 = ts[n].shape[1:]
        k = int(round(np.sqrt(D)))
        x.require(vL.shape == (d * d, D, d * d * D - D2), 'null space: shape %s' % (vL.shape,))
        x.close(np.einsum('sak,sal->kl', vL.conj(), vL), np.eye(vL.shape[2]), 'null space: orthonormal', atol=TOL)
        g = np.einsum('sab,ac,scde->bde', ts[n].conj(), l[n], pr)
        x.close(g, 0 * g, 'null projector: gauge condition', atol=TOL * 100)
        x.close(np.sort(np.diag(M)), [-1] * (k * (k - 1) // 2) + [1] * (k * (k + 1) // 2), 'exchange eigenvalues', atol=0)
        x.close(M, np.diag(np.diag(M)), 'exchange diagonal', atol=0)
        x.close(M @ fs(S), S, 'symmetric part', atol=TOL)
        x.close(M @ fs(A), -A, 'antisymmetric part', atol=TOL)
        x.require(S.shape == vL.shape and A.shape == vL.shape, 'parts: shapes')
        x.close(S + A, vL, 'parts add up', atol=TOL)
        Pp, Pm, M2 = m.symm_asymm(D)
        x.close(M2, M, 'symm_asymm', atol=0)
        x.close(Pp - Pm, M, 'projectors', atol=1e-12)
        x.close(Pp + Pm, np.eye(D), 'projectors complete', atol=1e-12)
        x.close(Pp @ Pp, Pp, 'projector', atol=1e-12)


@PROP.sub('local_overlap', st.builds(lambda c, i, k, o: dict(c, i=i, k=k, dbl=o), doubled(), st.integers(0, 4), st.integers(1, 3), st.booleans()), quick=250,
          rule='local overlaps with a product state')
def _(c, x):
    m, ts = make(c)
    L, d = c['L'], c['d']
    if c['form'] == 'L':
        m = m.left_canonicalise()
    elif c['form'] == 'R':
        m = m.right_canonicalise()
    elif c['form'] == 'M':
        m = m.mixed_canonicalise(c['np'] % L)
    x.interesting(c['kind'] == 'cplx' and max(bonds(ts) + [1]) > 1)
    tp = [gen.arr(c['seed'], (d, 1, 1), 'cplx', 60 + i) for i in range(L)]
    tp = [t / np.linalg.norm(t) for t in tp]
    p = fMPS([t.copy('K') for t in tp], d)
    v = dn.vec(ts)

    def want(sites):
        k = len(sites)
        rs = [np.outer(tp[s].reshape(-1), tp[s].reshape(-1).conj()) for s in sites]
        O = dn.kron(*[np.kron(r, r) if c['dbl'] else np.kron(np.eye(d), r) for r in rs])
        return dn.expect(v, dn.apply_local(v, O, list(sites), d * d, L))
    i = c['i'] % L
    sites = list(range(i, min(L, i + c['k'])))
    x.close(m.local_overlap(p, sites, c['dbl']), want(sites), 'local overlap on %s' % sites, atol=TOL)
    k = min(c['k'], L)
    As = [list(range(j, j + k)) for j in range(L - k + 1)]
    x.close(m.approx_overlap(p, As, c['dbl']), np.mean([want(a) for a in As]), 'mean over windows', atol=TOL)
    if not c['dbl']:
        x.close(m.local_overlap(p, sites), want(sites), 'local overlap, default', atol=TOL)
    x.same_ray(dn.vec(m.data), v, 'state unchanged by asking', tol=1e-6)
    if L > 1:
        big = fMPS([np.ones((d,) + s, complex) for s in [(1, 2)] + [(2, 2)] * (L - 2) + [(2, 1)]], d)
        x.raises(NotImplementedError, lambda: m.local_overlap(big, sites), 'entangled partner refused')
    x.raises(NotImplementedError, lambda: m.local_overlap(tp, sites), 'anything but an MPS refused')


@PROP.sub('measured', st.builds(lambda c, q, i, k, s2, r: dict(c, queries=q, i=i, k=k, seed2=s2, reuse=r), any_mps(Lmin=1, Lmax=4, dmax=2, Dmax=3, maxdim=16),
                                st.lists(st.sampled_from(['E_k', 'E_ks', 'rho', 'overlap', 'double', 'E', 'Es', 'entropy', 'E_L']), min_size=1, max_size=4),
                                st.integers(0, 4), st.integers(1, 3), gen.seeds, st.sampled_from(['fresh', 'fresh', 'embed', 'random', 'mixed'])), quick=250,
          rule='a doubled state just made, from an MPS or at random, also by an object used before, answers every question about an MPS')
def _(c, x):
    ta = build(c)
    L, d = c['L'], c['d']
    a = fMPS([t.copy('K') for t in ta], d)
    A = fTFD()
    if c['reuse'] != 'fresh':       # an object that has seen another state
        b = fMPS([t.copy('K') for t in gen.tensors(dict(c, seed=c['seed2'], special=None), 1)], d)
        A.from_fMPS(b)
        [A.left_canonicalise, A.right_canonicalise, lambda: A.mixed_orthogonalise(c['i'] % L)][c['seed2'] % 3]()
    if c['reuse'] in ('random', 'mixed'):
        np.random.seed(c['seed2'] % 2**32)
        A = A.random(L, d, 1 + c['k'] % 2, pure=c['reuse'] == 'random')
    else:
        A.from_fMPS(a)
    v = dn.vec([np.asarray(t) for t in A.data])
    if np.linalg.norm(v) < 1e-3:
        return
    q = d * d
    x.interesting(max(bonds(ta) + [1]) > 1 and L > 1)
    x.label(c['reuse'])
    i = c['i'] % L
    sites = list(range(i, min(L, i + c['k'], i + 2)))
    n = len(sites)
    tp = [gen.arr(c['seed'], (d, 1, 1), 'cplx', 60 + j) for j in range(L)]
    tp = [t / np.linalg.norm(t) for t in tp]
    rs = [np.outer(t.reshape(-1), t.reshape(-1).conj()) for t in tp]
    ev = lambda o, s: dn.expect(v, dn.apply_local(v, o, list(s), q, L))     # noqa: E731
    for j, w in enumerate(c['queries']):
        x.label(w)
        if w == 'E_k':
            o = gen.herm(c['seed'], q**n, 'cplx', 70 + j)
            x.close(A.E_k(o, sites), ev(o, sites).real, 'E_k on %s' % sites, atol=TOL, rtol=TOL)
        elif w == 'E_ks':
            o = [gen.herm(c['seed'], q, 'cplx', 70 + 5 * j + k) for k in range(n)]
            x.close(A.E_k(o, sites, single_string=True), ev(dn.kron(*o), sites).real, 'string on %s' % sites, atol=TOL, rtol=TOL)
        elif w == 'rho':
            x.close(A.rho(sites, single_string=False), dn.rdm(v, sites, q, L), 'density matrix of %s' % sites, atol=TOL)
        elif w in ('overlap', 'double'):
            O = dn.kron(*[np.kron(rs[s] if w == 'double' else np.eye(d), rs[s]) for s in sites])
            x.close(A.local_overlap(fMPS([t.copy('K') for t in tp], d), sites, double=w == 'double'), ev(O, sites), 'local overlap on %s' % sites, atol=TOL)
        elif w == 'E_L':
            o = gen.herm(c['seed'], q**L, 'cplx', 70 + j)
            u = dn.vec([np.asarray(t) for t in A.data])
            x.close(A.E_L(o), np.vdot(u, o @ u).real, 'E_L', atol=TOL * max(1, np.linalg.norm(u)**2), rtol=TOL)
        elif w == 'entropy':
            if L > 1:
                s2 = np.linalg.svd((v / np.linalg.norm(v)).reshape(q**i, -1), compute_uv=False)**2
                s2 = s2[s2 > 1e-7]
                x.close(A.entanglement_entropy(i), -np.sum(s2 * np.log(s2)), 'entropy of the bond left of %d' % i, atol=1e-5)
        else:
            o = gen.herm(c['seed'], d, 'cplx', 70 + j)
            lr = (c['i'] + j) % 2
            big = np.kron(o, np.eye(d)) if lr == 0 else np.kron(np.eye(d), o)
            x.close(A.E(o, i, lr) if w == 'E' else A.Es([o], i, lr)[0], ev(big, [i]), '%s on copy %d' % (w, lr), atol=TOL)
        x.same_ray(dn.vec([np.asarray(t) for t in A.data]), v, 'state after asking %s' % w, tol=1e-6)


@PROP.sub('evolution', st.builds(lambda c, f, h, g: dict(c, full=f, ham=h, form=g), doubled(maxdim=16), st.booleans(), st.sampled_from(tc.HK),
                                 st.sampled_from('LRN')), quick=150, rule='time derivative of a doubled state')
def _(c, x):
    m, ts = make(c)
    L, d = c['L'], c['d']
    m = tc.state(dict(c, d=d * d), ts)
    if m is None or (L < 2 and not c['full']):
        x.label('ill-conditioned or one site, skipped')
        return
    ts = [np.asarray(t).copy() for t in m.data]
    m = fTFD([t.copy('K') for t in ts], d * d)
    x.interesting(c['kind'] == 'cplx' and c['ham'] != 'real' and max(bonds(ts) + [1]) > 1)
    x.label('%s %s' % (c['tfd'], 'full' if c['full'] else 'terms'))
    if c['full']:
        H = gen.herm(c['seed'], d**L, 'real' if c['ham'] == 'real' else 'cplx', 900)
        H = H / np.linalg.norm(H, 2)
        k = H.copy()
        B = m.dA_dt(H, fullH=True)
        x.close(H, k, 'H unchanged', atol=0)
    else:
        hs = tc.terms(c)
        keep = [h.copy() for h in hs]
        H = dn.chain(hs, d, L)
        B = m.dA_dt(hs)
        for p, q in zip(hs, keep):
            x.close(p, q, 'terms unchanged', atol=0)
    H2 = double(H, d, L)
    psi = dn.vec(ts)
    x.require(all(np.asarray(b).shape == t.shape for b, t in zip(B.data, ts)), 'shapes')
    got = tc.tangent_vec(ts, B.data)
    x.close(got, tc.projected(ts, -1j * H2 @ psi), 'projected derivative of both copies', atol=1e-6)
    x.close(np.vdot(psi, got), 0, 'norm conserved', atol=1e-6)
    x.close(np.real(np.vdot(H2 @ psi, got)), 0, 'energy conserved', atol=1e-6)
    for p, q in zip(m.data, ts):
        x.close(p, q, 'state unchanged', atol=0)
    s = m + B * 0.01
    x.require(isinstance(s, fTFD), 'a step is a doubled state')
    k = m.copy()
    x.require(type(k) is fTFD and (k.L, k.d, k.D) == (m.L, m.d, m.D), 'a copy is a doubled state')
    for q in k.data:
        q *= 0
    for p, q in zip(m.data, ts):
        x.close(p, q, 'copy independent', atol=0)


@PROP.sub('trajectory', st.builds(lambda c, f, h, g, n, e: dict(c, full=f, ham=h, form=g, n=n, method=e), doubled(maxdim=16, Lmin=2), st.booleans(), st.sampled_from(tc.HK),
                                  st.sampled_from('LRN'), st.integers(2, 4), st.sampled_from(['rk4', 'euler'])), quick=60, rule='doubled states integrated in time stay doubled states and follow both copies')
def _(c, x):
    m, ts = make(c)
    L, d, dt = c['L'], c['d'], 0.02
    m = tc.state(dict(c, d=d * d), ts)
    if m is None:
        x.label('ill-conditioned, skipped')
        return
    ts = [np.asarray(t).copy() for t in m.data]
    m = fTFD([t.copy('K') for t in ts], d * d)
    if c['full']:
        arg = H = gen.herm(c['seed'], d**L, 'real' if c['ham'] == 'real' else 'cplx', 900)
        arg = H = H / np.linalg.norm(H, 2)
    else:
        arg = tc.terms(c)
        H = dn.chain(arg, d, L)
    H2 = double(H, d, L)
    ref = ts
    for _ in range(c['n']):
        ref = c17.REF[c['method']](ref, H2, dt)
        if not all(np.linalg.eigvalsh(a)[0] > 1e-4 * np.linalg.eigvalsh(a)[-1] for a in sum(tc.envs(ref), [])):
            x.label('became ill-conditioned, skipped')
            return
    x.interesting(c['kind'] == 'cplx' and c['ham'] != 'real' and max(bonds(ts) + [1]) > 1)
    tr = Trajectory(m, arg, fullH=c['full'])
    with c17.quiet():
        getattr(tr, c['method'] + 'int')(dt * np.arange(c['n'] + 1))
    x.require(len(tr.mps_history) == c['n'] + 1, 'one state per time')
    x.require(type(tr.mps) is fTFD and type(tr.mps_0) is fTFD, 'the states of the trajectory are doubled states')
    v = dn.vec([np.asarray(t) for t in tr.mps.data])
    w = dn.vec(ref)
    w = w / np.linalg.norm(w)
    x.same_ray(v, w, 'state at the end', tol=5e-6)
    i = c['seed'] % L
    o = gen.herm(c['seed'], d, 'cplx', 30)
    for lr, k in ((0, np.kron(o, np.eye(d))), (1, np.kron(np.eye(d), o))):
        x.close(tr.mps.E(o, i, lr), dn.expect(w, dn.apply_local(w, k, [i], d * d, L)), 'expectation value on one copy at the end', atol=1e-5)
    for p, q in zip(m.data, ts):
        x.close(p, q, 'the state given is unchanged', atol=0)
