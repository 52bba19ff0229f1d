"""C13: time-dependent variational principle on the finite MPS: the derivative"""
import numpy as np
from pbt.core import Prop, st
from pbt import gen, dense as dn, tdvp_common as tc
from xmps.fMPS import fMPS

PROP = Prop('C13', 'random MPS, canonical or in any gauge (L 2..10, d 2..3, irregular bonds up to 4, degenerate spectra) with random site-dependent '
            'two-site terms or a random full Hamiltonian, against the orthogonal projection of -iH|psi> on the dense tangent '
            'space; non-trivial = the projection matters (bonds below maximal) and complex data')
TOL = 1e-7


def start(c, x):
    m = tc.state(c)
    if m is None:
        x.label('ill-conditioned, skipped')
        return None
    ts = [np.asarray(t).copy() for t in m.data]
    full = all(b == min(c['d']**i, c['d']**(c['L'] - i)) for i, b in enumerate([t.shape[1] for t in ts]))
    x.interesting(not full and c['kind'] == 'cplx')
    x.label('%s bonds %s' % (c['form'], 'maximal' if full else 'restricted'))
    return m, ts


def judge(x, c, m, ts, B, H, what):
    psi = dn.vec(ts)
    x.require(len(B.data) == len(ts) and all(np.asarray(b).shape == t.shape for b, t in zip(B.data, ts)), what + ': shapes')
    got = tc.tangent_vec(ts, B.data)
    want = tc.projected(ts, -1j * H @ psi)
    x.close(got, want, what + ' is the projected -iH|psi>', atol=TOL)
    # left gauge, so the pieces are orthogonal to the state and to each other
    l, r = tc.envs(ts)
    for n, (a, b) in enumerate(zip(ts, B.data)):
        if n < len(ts) - 1 or True:
            g = np.einsum('sab,ac,scd->bd', a.conj(), l[n], np.asarray(b))
            x.close(g, np.zeros_like(g), what + ': gauge condition on site %d' % n, atol=TOL * 10)
    x.close(np.vdot(psi, got), 0, what + ': norm conserved', atol=TOL)
    x.close(np.real(np.vdot(H @ psi, got)), 0, what + ': energy conserved', atol=TOL)
    for n, t in enumerate(ts):
        x.close(m[n], t, 'state unchanged', atol=0)


@PROP.sub('terms', tc.case(forms='LRN'), quick=500, rule='Hamiltonian as a list of two-site terms')
def _(c, x):
    s = start(c, x)
    if s is None:
        return
    m, ts = s
    hs = tc.terms(c)
    H = dn.chain(hs, c['d'], c['L'])
    keep = [h.copy() for h in hs]
    B = m.dA_dt(hs)
    judge(x, c, m, ts, B, H, 'dA/dt')
    for a, b in zip(hs, keep):
        x.close(a, b, 'terms unchanged', atol=0)
    # order of calls and reuse of the same object do not matter
    h2 = tc.terms(dict(c, seed=c['seed'] + 1))
    judge(x, c, m, ts, m.dA_dt(h2), dn.chain(h2, c['d'], c['L']), 'dA/dt with another Hamiltonian on the same object')
    x.close(tc.tangent_vec(ts, m.dA_dt(hs).data), tc.tangent_vec(ts, B.data), 'dA/dt repeated', atol=1e-10)


@PROP.sub('full', tc.case(Lmin=1, Lmax=6, maxdim=100, forms='LRN'), quick=250, rule='Hamiltonian as one matrix on the whole chain')
def _(c, x):
    s = start(c, x)
    if s is None:
        return
    m, ts = s
    n = c['d']**c['L']
    H = gen.herm(c['seed'], n, 'real' if c['ham'] == 'real' else 'cplx', 900)
    if c['ham'] == 'uniform' and c['L'] > 1:
        H = dn.chain(tc.terms(c), c['d'], c['L'])
    H = H / np.linalg.norm(H, 2)
    k = H.copy()
    judge(x, c, m, ts, m.dA_dt(H, fullH=True), H, 'dA/dt (full H)')
    x.close(H, k, 'H unchanged', atol=0)


@PROP.sub('agree', tc.case(maxdim=100, forms='LRN'), quick=120, rule='terms and full matrix, shift by a constant, real time versus canonical form')
def _(c, x):
    s = start(c, x)
    if s is None:
        return
    m, ts = s
    d, L = c['d'], c['L']
    hs = tc.terms(c)
    H = dn.chain(hs, d, L)
    a = m.dA_dt(hs)
    b = m.dA_dt(H, fullH=True)
    for n in range(L):
        x.close(np.asarray(a[n]), np.asarray(b[n]), 'tensor %d from the terms and from the full matrix' % n, atol=TOL * 10)
    a2 = m.dA_dt([h + (0.3 + i) * np.eye(d * d) for i, h in enumerate(hs)])
    for n in range(L):
        x.close(np.asarray(a[n]), np.asarray(a2[n]), 'constant added to the Hamiltonian', atol=TOL * 10)
    # the velocity of the state does not depend on the canonical form it is written in
    o = m.copy()
    o = o.right_canonicalise() if c['form'] != 'R' else o.left_canonicalise()
    ots = [np.asarray(t) for t in o.data]
    u, v = tc.tangent_vec(ts, a.data), tc.tangent_vec(ots, o.dA_dt(hs).data)
    ph = np.vdot(dn.vec(ts), dn.vec(ots))
    x.close(abs(ph), 1, 'same state in the other form', atol=1e-9)
    x.close(v, u * ph, 'velocity in the other canonical form', atol=TOL * 10)


@PROP.sub('long', gen.fd(L=st.integers(7, 10), d=st.just(2), b=st.lists(st.integers(1, 3), min_size=9, max_size=9), kind=st.just('cplx'),
                         seed=gen.seeds, form=st.sampled_from('LRN'), ham=st.sampled_from(['cplx', 'uniform', 'local']), special=st.none()),
          quick=16, thorough=150, timeout=120, rule='longer chains')
def _(c, x):
    c = dict(c, bonds=[min(b, 2**(i + 1), 2**(c['L'] - 1 - i)) for i, b in enumerate(c['b'][:c['L'] - 1])])
    for i in range(1, c['L'] - 1):
        c['bonds'][i] = min(c['bonds'][i], 2 * c['bonds'][i - 1])
    for i in range(c['L'] - 3, -1, -1):
        c['bonds'][i] = min(c['bonds'][i], 2 * c['bonds'][i + 1])
    s = start(c, x)
    if s is None:
        return
    m, ts = s
    hs = tc.terms(c)
    L = c['L']
    psi = dn.vec(ts)
    Hp = sum(dn.apply_local(psi, h, [i, i + 1], 2, L) for i, h in enumerate(hs))
    x.close(tc.tangent_vec(ts, m.dA_dt(hs).data), tc.projected(ts, -1j * Hp), 'dA/dt', atol=TOL * 10)
