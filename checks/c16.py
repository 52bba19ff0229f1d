"""C16: enlarging the bond dimension: expand, dynamical_expand, grow, projection_error; gauge matching"""
import numpy as np
from pbt.core import Prop, st
from pbt import gen, dense as dn, tdvp_common as tc
from pbt.fmps_common import build, left_defect, right_defect, chain_shapes_ok
from xmps.fMPS import fMPS

PROP = Prop('C16', 'random MPS, canonical or in any gauge (L 1..6, d 2..3, irregular bonds, degenerate spectra) with random site-dependent two-site terms, '
            'against the dense state, the dense tangent projector and the exact evolution; non-trivial = bonds below maximal and complex data')
TOL = 1e-7


def start(c, x):
    m = tc.state(c)
    if m is None:
        x.label('ill-conditioned, skipped')
        return None
    ts = [np.asarray(t).copy() for t in m.data]
    full = all(b == min(c['d']**i, c['d']**(c['L'] - i)) for i, b in enumerate([t.shape[1] for t in ts]))
    x.interesting(not full and c['kind'] == 'cplx')
    x.label('%s bonds %s' % (c['form'], 'maximal' if full else 'restricted'))
    return m, ts


def bonds(m):
    return [np.asarray(t).shape[2] for t in m.data[:-1]]


def cap(L, d, D):
    return [min(D, d**(i + 1), d**(L - 1 - i)) for i in range(L - 1)]


@PROP.sub('expand', st.builds(lambda c, k: dict(c, k=k), tc.case(forms='LRN', Lmin=1), st.integers(0, 4)), quick=250,
          rule='padding to a larger bond dimension keeps the state')
def _(c, x):
    s = start(c, x)
    if s is None:
        return
    m, ts = s
    psi = dn.vec(ts)
    D_ = max([1] + bonds(m)) + c['k']
    o = m.expand(D_)
    x.require(o is m, 'returns the state')
    x.require(chain_shapes_ok(m.data), 'shapes')
    x.require(bonds(m) == cap(c['L'], c['d'], D_), 'bonds %s, asked for %d' % (bonds(m), D_))
    x.require(m.D == max([1] + bonds(m)), 'D attribute %s' % m.D)
    x.same_ray(dn.vec([np.asarray(t) for t in m.data]), psi, 'same state', tol=TOL)
    x.close(np.linalg.norm(dn.vec([np.asarray(t) for t in m.data])), 1, 'norm', atol=TOL)
    for n in range(m.L):
        x.close(left_defect(m[n]), 0, 'left canonical after expand, site %d' % n, atol=1e-7)
    # what is computed from the padded state
    O = gen.herm(c['seed'], c['d'], 'cplx', 3)
    n = c['seed'] % c['L']
    x.close(m.E(O, n), dn.expect(psi, dn.apply_local(psi, O, [n], c['d'], c['L'])).real, 'expectation value after expand', atol=1e-7)


@PROP.sub('projection_error', st.builds(lambda c, dt: dict(c, dt=dt), tc.case(forms='LRN'), st.sampled_from([1., 0.1, 0.01])), quick=200,
          rule='projection error is the weight of -iH|psi> dt outside the tangent space')
def _(c, x):
    s = start(c, x)
    if s is None:
        return
    m, ts = s
    hs = tc.terms(c)
    H = dn.chain(hs, c['d'], c['L'])
    psi = dn.vec(ts)
    w = -1j * H @ psi
    w = w - dn.projector(dn.tangent(ts)) @ w
    want = c['dt']**2 * np.vdot(w, w).real
    e = m.projection_error(hs, c['dt'])
    x.close(e / c['dt']**2, want / c['dt']**2, 'projection error', atol=TOL)
    if abs(e - want) < abs(want) * 1e-4:
        x.require(bool(m.should_expand(hs, c['dt'], want * 0.9)), 'should_expand below the error')
        x.require(not m.should_expand(hs, c['dt'], want * 1.1), 'should_expand above the error')
    if c['ham'] == 'local':
        x.close(e, 0, 'no error for a sum of one-site terms', atol=TOL)
    for n, t in enumerate(ts):
        x.close(m[n], t, 'state unchanged', atol=0)


@PROP.sub('dynamical', st.builds(lambda c, k: dict(c, k=k), tc.case(forms='LRN'), st.integers(0, 8)), quick=200,
          rule='one step with enlarged bonds follows the exact evolution to second order')
def _(c, x):
    s = start(c, x)
    if s is None:
        return
    m, ts = s
    hs = tc.terms(c)
    H = dn.chain(hs, c['d'], c['L'])
    psi = dn.vec(ts)
    E = np.vdot(psi, H @ psi).real
    D0 = m.D
    out = []
    for dt in (2e-3, 1e-3):
        p = m.copy()
        p.D = D0
        q = p.dynamical_expand(hs, dt, D0 + 1 + c['k'], None)
        x.require(q is p, 'returns the state')
        x.require(chain_shapes_ok(p.data), 'shapes')
        for a, b, cc in zip(bonds(m), bonds(p), cap(c['L'], c['d'], 10**6)):
            x.require(a <= b <= min(cc, a + 1 + c['k']), 'bond %d -> %d' % (a, b))
        x.require(p.D == max([1] + bonds(p)), 'D attribute')
        v = dn.vec([np.asarray(t) for t in p.data])
        # exact only if everything that leaves the manifold fits into the new directions
        w = -1j * (H - E * np.eye(len(H))) @ psi
        out.append(np.linalg.norm(v - dn.expm(-1j * dt * (H - E * np.eye(len(H)))) @ psi))
        lim = np.linalg.norm(w) * 1.01 * dt + 10 * len(hs)**2 * dt**2
        x.require(out[-1] < lim, 'error %g of a step of %g' % (out[-1], dt))
    enough = all(b - a >= min(c['d'] * l - a, c['d'] * r - a) for l, a, r, b in
                 zip([1] + bonds(m)[:-1], bonds(m), bonds(m)[1:] + [1], bonds(p)))
    if enough or c['ham'] == 'local':
        x.label('all directions fit')
        n = len(hs)
        for dt, e in zip((2e-3, 1e-3), out):
            x.require(e < 40 * n**2 * dt**2, 'error %g for dt %g' % (e, dt))


@PROP.sub('threshold', tc.case(forms='LRN'), quick=100, rule='dynamical_expand with a threshold expands exactly when the projection error reaches it')
def _(c, x):
    s = start(c, x)
    if s is None:
        return
    m, ts = s
    hs = tc.terms(c)
    e = m.copy().projection_error(hs, 0.1)
    p = m.copy().dynamical_expand(hs, 0.1, m.D + 2, e * 1.1 + 1e-12)
    for n, t in enumerate(ts):
        x.close(p[n], t, 'below the threshold nothing happens', atol=0)
    for n, t in enumerate(ts):
        x.close(m[n], t, 'original untouched', atol=0)
    if e > 1e-6:
        x.label('expands')
        p = m.copy()
        p.dynamical_expand(hs, 0.1, m.D + 2, e * 0.9)
        x.require(sum(bonds(p)) > sum(bonds(m)), 'above the threshold the bonds grow')
        q = m.copy()
        q.dynamical_expand(hs, 0.1, m.D + 2, None)
        x.same_ray(dn.vec([np.asarray(t) for t in p.data]), dn.vec([np.asarray(t) for t in q.data]), 'same step with and without threshold', tol=TOL)


@PROP.sub('grow', gen.fd(L=st.integers(2, 6), d=st.sampled_from([2, 2, 3]), seed=gen.seeds, form=st.sampled_from('LR'), k=st.integers(1, 9),
                         ham=st.sampled_from(['cplx', 'real', 'uniform'])), quick=120,
          rule='a product state grown to the bond dimension asked for follows the exact evolution')
def _(c, x):
    d = c['d']
    L = c['L'] if d == 2 else min(c['L'], 4)
    c = dict(c, L=L, bonds=[1] * (L - 1), kind='cplx', special=None)
    x.interesting(c['k'] > 1)
    hs = tc.terms(c)
    H = dn.chain(hs, d, L)
    dt = 1e-3
    m = tc.state(c)
    psi = dn.vec([np.asarray(t) for t in m.data])
    D_ = c['k']
    p = m.copy().grow(hs, dt, D_)
    goal = min(D_, d**(L // 2))
    x.require(p.D == goal and max([1] + bonds(p)) == goal, 'grown to %d of %d' % (p.D, goal))
    n = 0
    D = 1
    while D < goal:
        D = min(D * d, D_)
        n += 1
    v = dn.vec([np.asarray(t) for t in p.data])
    v = v / np.linalg.norm(v)
    if all(x <= d * y for x, y in zip(cap(L, d, D_), [1] + bonds(p))) and D_ >= d**(L // 2):
        # no truncation anywhere: second order error
        w = dn.expm(-1j * n * dt * H) @ psi
        x.require(np.sqrt(abs(1 - abs(np.vdot(v, w))**2)) < 60 * len(hs)**2 * dt**2 * max(1, n)**2 + 1e-7,
                  'infidelity %g' % np.sqrt(abs(1 - abs(np.vdot(v, w))**2)))
    x.require(np.sqrt(abs(1 - abs(np.vdot(v, psi))**2)) < 3 * n * len(hs) * dt + 1e-7, 'close to the initial state')
    x.require(m.grow(hs, dt, None) is m, 'grow(None) does nothing')


@PROP.sub('match_gauge', st.builds(lambda c, v: dict(c, v=v), tc.case(forms='LRN', Lmin=1), gen.seeds), quick=150,
          rule='gauge matching keeps the state and recovers tensors that differ by a gauge rotation')
def _(c, x):
    s = start(c, x)
    if s is None:
        return
    m, ts = s
    L = len(ts)
    psi = dn.vec(ts)
    if c['form'] == 'L':
        x.label('left form')
    # the same right-canonical state in a rotated basis on every bond
    U = [np.eye(1)] + [gen.unitary(c['v'], t.shape[1], n) for n, t in enumerate(ts[1:])] + [np.eye(1)]
    ro = [U[n].conj().T @ t @ U[n + 1] for n, t in enumerate(ts)]
    # (for some, with another phase)
    phase = np.exp(1j * (c['v'] % 7)) if c['v'] % 3 == 0 else 1
    a = fMPS([ro[0] * phase] + [t.copy('K') for t in ro[1:]], c['d'])
    b = fMPS([t.copy('K') for t in ts], c['d'])
    o = a.match_gauge_to(b)
    x.require(o is a, 'returns the state')
    if phase == 1:
        x.close(dn.vec([np.asarray(t) for t in a.data]), psi, 'same state', atol=TOL)
    x.same_ray(dn.vec([np.asarray(t) for t in a.data]), psi, 'same state after matching', tol=TOL)
    for t, s in zip(b, ts):
        x.close(t, s, 'the state matched to is left as it was', atol=0)
    if c['form'] == 'R':
        for n in range(L):
            x.close(a[n], ts[n], 'gauge rotation undone at site %d' % n, atol=TOL)
    # a different state: the state matched is unchanged, its form kept
    other = [t + 0.1 * gen.arr(c['v'], t.shape, 'cplx', 30 + n) for n, t in enumerate(ts)]
    a = fMPS([t.copy('K') for t in ts], c['d'])
    a.match_gauge_to(fMPS([t.copy('K') for t in other], c['d']))
    x.same_ray(dn.vec([np.asarray(t) for t in a.data]), psi, 'same state after matching to another', tol=TOL)
    if c['form'] == 'R':
        for n in range(1, L):
            x.close(right_defect(a[n]), 0, 'right canonical form kept', atol=1e-7)
