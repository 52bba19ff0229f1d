"""C08: uniform infinite MPS: forms, expectation values, overlap"""
import numpy as np
from pbt.core import Prop, st
from pbt import gen, dense as dn, imps_common as ic
from xmps.iMPS import iMPS, ivMPS

PROP = Prop('C08', 'random injective tensors (d 2..3, D 2..4, complex / real / near-product, any scale), brought to left, '
            'right, symmetric, Vidal and mixed form alone or in sequence, compared with the transfer-matrix '
            'eigenvectors from dense diagonalisation; non-trivial = complex tensor')
TOL = 1e-6
fresh = lambda s: ''.join([s])   # a string equal to, but not necessarily the same object as, a literal


def form_ok(x, A, form, s, w):
    d, D, _ = A.shape
    I = np.eye(D)
    x.require(A.shape[1] == A.shape[2] == len(s), w + ': shape %s' % (A.shape,))
    L2 = np.diag(s**2)
    lft = lambda l: np.einsum('sab,ac,scd->bd', A.conj(), l, A)
    rgt = lambda r: np.einsum('sab,bc,sdc->ad', A, r, A.conj())
    if form == 'l':
        x.close(lft(I), I, w + ': sum A^dag A = 1', atol=TOL)
        x.close(rgt(L2), L2, w + ': sum A L^2 A^dag = L^2', atol=TOL)
    elif form == 'r':
        x.close(rgt(I), I, w + ': sum A A^dag = 1', atol=TOL)
        x.close(lft(L2), L2, w + ': sum A^dag L^2 A = L^2', atol=TOL)
    else:
        x.close(lft(np.diag(s)), np.diag(s), w + ': sum A^dag L A = L', atol=TOL)
        x.close(rgt(np.diag(s)), np.diag(s), w + ': sum A L A^dag = L', atol=TOL)


SKEW = (1, 1, 3, 7, 12)
LONG = (0.05, 0.1, 0.2)


def well_conditioned(A):
    _, l, r = dn.fixed(A)
    return max(np.linalg.cond(l), np.linalg.cond(r)) < 1e4


@PROP.sub('forms', st.builds(lambda c, q: dict(c, seq=q), ic.uniform(skew=SKEW, long=LONG),
                             st.lists(st.sampled_from(['l', 'r', 'm', 'L', 'R', 'copy', 'v', 'E', 'scale', 'gauge']),
                                      min_size=1, max_size=5)),
          quick=500, rule='sequences of form changes: same state, correct form, true Schmidt values')
def _(c, x):
    A = ic.build(c)
    d, D = c['d'], c['D']
    s = ic.schmidt(A)
    ref = ic.rdm(A, 3 if d == 2 else 2)
    k = 3 if d == 2 else 2
    m = iMPS([A.copy('K')])
    x.interesting(c['kind'] != 'real')
    op = gen.herm(c['seed'], d, 'cplx', 5)
    e = dn.iexpect(A, op).real
    for n, f in enumerate(c['seq']):
        w = 'step %d (%s)' % (n, f)
        x.label(f)
        form = None
        if f in 'lrm':
            m = m.canonicalise(fresh(f))
            form = f
        elif f == 'L':
            m = m.left_canonicalise()
            form = 'l'
        elif f == 'R':
            m = m.right_canonicalise()
            form = 'r'
        elif f == 'copy':
            old, m = m, m.copy()
            before = np.array(old[0])
            m.copy().left_canonicalise()
            old_m = m.copy()
            old_m[0] = 0 * before
            x.close(m[0], before, w + ': the original changed with its copy')
        elif f == 'v':
            v = m.canonicalise(to_vidal=True)
            G, L = v.data[0]
            x.close(np.diag(np.diag(L)), L, w + ': L diagonal')
            x.close(np.diag(L), s, w + ': Schmidt values', atol=TOL)
            form_ok(x, G @ L, 'r', s, w + ' G L')
            form_ok(x, L @ G, 'l', s, w + ' L G')
            x.close(np.asarray(v.E(op)).real, e, w + ': E of the Vidal form', rtol=TOL, atol=TOL * np.abs(op).max())
            m = v.to_iMPS()
            form = 'r'
        elif f == 'E':
            x.close(m.E(op), e, w + ': E', atol=TOL * np.abs(op).max())
        elif f == 'scale':
            m = m * (0.5 - 0.7j)
        elif f == 'gauge':
            X = gen.arr(c['seed'], (D, D), 'cplx', 40 + n) + 3 * np.eye(D)
            B = X @ m[0] @ np.linalg.inv(X)
            if well_conditioned(B):
                m = iMPS([B])
        x.close(ic.rdm(m[0], k), ref, w + ': reduced density matrix of %d sites' % k, atol=TOL)
        if form:
            form_ok(x, m[0], form, s, w)
        if form and hasattr(m, 'L'):
            x.close(np.diag(m.L), s, w + ': recorded Schmidt values', atol=TOL)


@PROP.sub('expectations', ic.uniform(skew=SKEW, long=LONG), quick=300, rule='E, Es, energy in every form against the dense fixed points')
def _(c, x):
    A = ic.build(c)
    d, D = c['d'], c['D']
    ops = [gen.herm(c['seed'], d, 'cplx', 5 + i) for i in range(3)] + [np.eye(d)]
    want = np.array([dn.iexpect(A, o).real for o in ops])
    x.interesting(c['kind'] != 'real')
    h = gen.herm(c['seed'], d * d, 'cplx', 15)
    en = ic.energy(A, h)
    sc = max(np.abs(o).max() for o in ops) + np.abs(h).max()
    for f in (None, 'l', 'r', 'm'):
        m = iMPS([A.copy('K')])
        if f:
            m.canonicalise(fresh(f))
        x.close([m.E(o, f) for o in ops], want, 'E, form %s' % f, atol=TOL * sc)
        x.close([m.copy().E(o, f) for o in ops], want, 'E on a copy, form %s' % f, atol=TOL * sc)
        m = iMPS([A.copy('K')])
        if f:
            m.canonicalise(fresh(f))
        x.close(np.array(m.Es(ops, f)).reshape(-1), want, 'Es, form %s' % f, atol=TOL * sc)
        if f:
            x.close(m.energy([h]), en, 'energy, form %s' % f, atol=TOL * sc)
            x.close([m.E(o) for o in ops], want, 'E without a declared form, after form %s' % f, atol=TOL * sc)
    x.close(iMPS([ic.normalised(A)]).energy([h]), en, 'energy of a normalised tensor in a generic gauge', atol=TOL * sc)
    m = iMPS([A.copy('K')])
    x.close(m.E(ops[0]), want[0], 'E of a raw tensor', atol=TOL * sc)
    x.close(ic.rdm(m[0], 2), ic.rdm(A, 2), 'state after E', atol=TOL)


@PROP.sub('overlap', st.builds(lambda c, s, near: dict(c, seed2=s, near=near), ic.uniform(skew=SKEW, long=LONG), gen.seeds, st.booleans()), quick=250,
          rule='squared overlap per site of two states; 1 for the same state in another gauge')
def _(c, x):
    A = ic.build(c)
    B = ic.build(dict(c, seed=c['seed2']), 500)
    if c['near']:
        B = ic.normalised(A) + 0.1 * ic.normalised(B)
        if not ic.good(B):
            return
    w = np.abs(np.linalg.eigvals(dn.tm(ic.normalised(A), ic.normalised(B))))
    w = np.sort(w)
    x.interesting()
    want = w[-1]**2
    x.close(np.reshape(iMPS([A.copy('K')]).overlap(iMPS([B.copy()])), -1), [want], 'overlap', atol=TOL)
    D = c['D']
    X = gen.arr(c['seed'], (D, D), 'cplx', 40) + 3 * np.eye(D)
    if well_conditioned(X @ A @ np.linalg.inv(X)):
        o = iMPS([A.copy('K')]).overlap(iMPS([2j * X @ A @ np.linalg.inv(X)]))
        x.close(np.reshape(o, -1)[0], 1.0, 'overlap with the same state in another gauge', atol=TOL)


@PROP.sub('mixed', ic.uniform(Dmax=3, skew=SKEW, long=LONG), quick=200, rule='mixed gauge AL C = C AR by QR iteration, also with long correlations')
def _(c, x):
    A = ic.build(dict(c, scale=1.0))
    x.interesting(c['kind'] != 'real')
    if c['D'] > 1:
        x.label('gap %.1f' % dn.gap(A))
    d, D = c['d'], c['D']
    s = ic.schmidt(A)
    AL, AR, C = iMPS([A.copy('K')]).mixed(1e-11)
    AL, AR = AL[0], AR[0]
    I = np.eye(D)
    x.close(np.einsum('sab,sac->bc', AL.conj(), AL), I, 'AL isometric', atol=TOL)
    x.close(np.einsum('sab,scb->ac', AR, AR.conj()), I, 'AR isometric', atol=TOL)
    x.close(AL @ C, C @ AR, 'AL C = C AR', atol=TOL)
    sv = np.linalg.svd(C, compute_uv=False)
    x.close(sv / np.linalg.norm(sv), s, 'singular values of C are the Schmidt values', atol=TOL)
    x.close(ic.rdm(AL, 2), ic.rdm(A, 2), 'state of AL', atol=TOL)
    x.close(ic.rdm(AR, 2), ic.rdm(A, 2), 'state of AR', atol=TOL)


@PROP.sub('vidal', gen.fd(d=st.integers(2, 3), D=st.integers(2, 4), rep=st.integers(1, 3), seed=gen.seeds), quick=200,
          rule='Vidal canonicalisation of a random (vertex, singular values) pair')
def _(c, x):
    d, D = c['d'], c['D']
    v = ivMPS().random(d, D)
    G, L = v.data[0]
    x.require(G.shape == (d, D, D) and L.shape == (D, D), 'shapes of a random Vidal MPS')
    x.require(v.d == d and v.D == D and v.period == 1 and ivMPS(v.data).period == 1, 'sizes of a random Vidal MPS')
    q = np.diag(np.diag(L))
    x.require(np.array_equal(q, L) and (np.diag(L) >= 0).all() and (np.diff(np.diag(L)) <= 0).all() and np.iscomplexobj(G), 'singular values of a random Vidal MPS')
    x.close(v.to_iMPS()[0], np.asarray(G) @ np.asarray(L), 'as a uniform MPS', atol=1e-12)
    x.close(np.asarray(v.transfer_matrix()), np.einsum('sab,scd->abcd', G @ L, (G @ L).conj()), 'transfer matrix', atol=1e-10)
    A = np.asarray(G) @ np.asarray(L)
    if not ic.good(A):
        x.label('ill-conditioned, not judged')
        return
    x.interesting()
    s = ic.schmidt(A)
    op = gen.herm(c['seed'], d, 'cplx', 3)
    for _k in range(c['rep']):
        v = v.canonicalise()
    G, L = v.data[0]
    x.close(np.sort(np.diag(L))[::-1], s, 'Schmidt values', atol=TOL)
    form_ok(x, G @ L, 'r', np.diag(L), 'G L')
    form_ok(x, L @ G, 'l', np.diag(L), 'L G')
    x.close(ic.rdm(G @ L, 2), ic.rdm(A, 2), 'state', atol=TOL)
    x.close(np.asarray(v.E(op)).real, dn.iexpect(A, op).real, 'E', atol=TOL * np.abs(op).max())


@PROP.sub('container', gen.fd(d=st.integers(1, 4), D=st.integers(1, 4), p=st.integers(1, 4), seed=gen.seeds), quick=200,
          rule='site access, itemwise arithmetic, copies, random')
def _(c, x):
    d, D, p = c['d'], c['D'], c['p']
    As = [gen.arr(c['seed'], (d, D, D), 'cplx', i) for i in range(p)]
    Bs = [gen.arr(c['seed'], (d, D, D), 'cplx', 10 + i) for i in range(p)]
    a, b = iMPS([t.copy('K') for t in As]), iMPS([t.copy('K') for t in Bs])
    x.interesting(p > 1)
    x.require(len(a) == p and a.period == p and a.d == d and a.D == D, 'sizes')
    for i in range(p):
        x.close(a[i], As[i], 'a[%d]' % i)
        x.close(a(i + 1), As[i], 'a(%d) is 1-based' % (i + 1))
        x.close((a + b)[i], As[i] + Bs[i], 'sum')
        x.close((a - b)[i], As[i] - Bs[i], 'difference')
        x.close((a * (2 - 1j))[i], As[i] * (2 - 1j), 'multiple')
        x.close(((2 - 1j) * a)[i], As[i] * (2 - 1j), 'multiple')
        x.close((a / (2 - 1j))[i], As[i] / (2 - 1j), 'quotient')
    x.require(bool(a == a.copy()) and bool(a != b), 'equality')
    for i in range(p):
        k = iMPS([t if j != i else t + 0.01 * Bs[i] for j, t in enumerate(As)])
        x.require(bool(a != k) and bool(k != a) and not a == k, 'states that differ in tensor %d only compare equal' % i)
    k = a.copy()
    k[0] = 0 * As[0]
    x.close(a[0], As[0], 'a copy is independent')
    for t in a.copy().data:
        t *= 0
    for i in range(p):
        x.close(a[i], As[i], 'a copy shares nothing', atol=0)
    x.require(bool(a != k), 'a changed copy differs')
    x.require(a.shape == (d, D, D) and str(d) in str(a) and str(D) in str(a), 'shape and text')
    if p == 1 and ic.good(As[0]):
        a.canonicalise('l')
        k = a.copy()
        x.close(k.l, a.l, 'fixed points of a copy')
        x.close(k.r, a.r, 'fixed points of a copy')
        x.require(type(a.energy([np.kron(np.eye(d), np.eye(d))])) is not complex and np.isrealobj(a.energy([gen.herm(c['seed'], d * d, 'cplx', 5)])), 'energies are real')
    if p == 1 and ic.good(As[0]):
        v = k.serialize()
        x.require(k.canonical == 'l' and k.random(d, D, p).canonical is None, 'random tensors are in no form')
        x.require(a.deserialize(v, d, D).canonical is None, 'no form is known of restored tensors')
    r = iMPS().random(d, D, p)
    x.require([t.shape for t in r.data] == [(d, D, D)] * p and r.period == p and r.d == d and r.D == D, 'random shape')


@PROP.sub('history', st.builds(lambda c, s, q: dict(c, seq=s, ask=q), ic.uniform(Dmin=1, Dmax=3), ic.history, st.lists(st.sampled_from(['E', 'Es', 'energy', 'overlap', 'form']), min_size=6, max_size=6)),
          quick=200, rule='expectation values, energies, overlaps and forms of one infinite MPS asked again after every change')
def _(c, x):
    d, D = c['d'], c['D']
    h = gen.herm(c['seed'], d * d, 'cplx', 7)
    O = gen.herm(c['seed'], d, 'cplx', 8)
    m = iMPS([ic.build(c).copy('K')])
    x.interesting(D > 1 and len(set(c['seq'])) > 1)
    for k, what in enumerate(c['seq']):
        m = ic.step(m, what, c, k, h)
        A = np.array(m[0])
        if not ic.good(A, 0.98):
            x.label('ill-conditioned')
            return
        w = ' after ' + ', '.join(c['seq'][:k + 1])
        rho = ic.rdm(A, 2)
        one = np.einsum('aibi->ab', rho.reshape([d] * 4))
        q = c['ask'][k]
        if q == 'energy':
            nA = m[0] if what == 'derivative' else ic.normalised(A)
            m[0] = nA       # energies are those of normalised states
            x.close(m.energy([h]), np.trace(rho @ h).real, 'energy' + w, atol=1e-6)
            x.close(m[0], nA, 'tensor unchanged by asking for the energy' + w, atol=0)
        elif q in ('E', 'Es'):
            got = m.E(O) if q == 'E' else m.Es([O, O @ O])[0]
            x.close(got, np.trace(one @ O), q + w, atol=1e-6)
        elif q == 'overlap':
            x.close(np.squeeze(m.overlap(iMPS([ic.normalised(A) * 1j]))), 1, 'overlap with the same state' + w, atol=1e-6)
            B = ic.well(c, 60 + k)
            T = np.einsum('sab,scd->acbd', ic.normalised(A), ic.normalised(B).conj()).reshape(D * D, -1)
            ev = np.sort(abs(np.linalg.eigvals(T)))[::-1]
            if D == 1 or ev[1] < 0.95 * ev[0]:
                x.close(np.squeeze(m.overlap(iMPS([B]))), ev[0]**2, 'overlap with another state' + w, atol=1e-6)
        else:
            hand = 'lrm'[(c['seed'] + k) % 3]
            m.canonicalise(hand)
            x.close(m.E(O, hand), np.trace(one @ O), 'E in the form ' + hand + w, atol=1e-6)
        if q != 'energy' and m.canonical is not None:
            # the label kept with the tensor, as it is now, is what E has to be told
            x.close(m.E(O, m.canonical), np.trace(one @ O), 'E in the form the state says it is in, after asking (%s)' % q + w, atol=1e-6)
        x.close(ic.rdm(np.array(m[0]), 2), rho, 'state, after asking (%s)' % q + w, atol=1e-6)
