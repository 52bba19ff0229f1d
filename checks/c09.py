"""C09: time-dependent variational principle on the uniform infinite MPS"""
import numpy as np
from pbt.core import Prop, st
from pbt import gen, dense as dn, imps_common as ic
from xmps.iMPS import iMPS
from xmps.iTDVP import Trajectory
from xmps.iOptimize import find_ground_state

PROP = Prop('C09', 'random injective tensors (d 2..3, D 2..3) in any gauge with transfer eigenvalue 1 and random complex hermitian '
            'two-site terms, against an independent dense evaluation of the projected Schroedinger equation; '
            'non-trivial = complex tensor and complex term')
TOL = 1e-5


def ham(c, salt=6):
    n = c['d']**2
    h = gen.herm(c['seed'], n, 'real' if c['hreal'] else 'cplx', salt)
    return h / np.linalg.norm(h, 2)


def gauged(c, A):
    """the state of A in the gauge asked for, transfer eigenvalue 1"""
    g = c['gauge']
    if g == 'raw':
        return ic.normalised(A)
    m = iMPS([A.copy('K')]).canonicalise(g)
    return ic.normalised(m[0])


base = st.builds(lambda c, g, h: dict(c, gauge=g, hreal=h), ic.uniform(Dmax=3, Dmin=1, long=(0.1, 0.2)), st.sampled_from(['raw', 'l', 'l', 'r', 'm']),
                 st.booleans())


@PROP.sub('environments', base, quick=150, rule='Lh and Rh solve their linear equations; traceless against the fixed points')
def _(c, x):
    A = gauged(c, ic.build(c))
    h = ham(c)
    m = iMPS([A.copy('K')])
    _, l, r = dn.fixed(A)
    x.interesting(c['kind'] != 'real' and not c['hreal'])
    x.label(c['gauge'])
    K = m.Lh([h])
    x.close(K / np.abs(l).max(), ic.left_env(A, h) * _ratio(m, l, 0) / np.abs(l).max(), 'Lh', atol=TOL)
    K = m.Rh([h])
    x.close(K / np.abs(r).max(), ic.right_env(A, h) * _ratio(m, r, 1) / np.abs(r).max(), 'Rh', atol=TOL)
    x.close(m[0], A, 'tensor unchanged')


def _ratio(m, ref, k):
    """the fixed points are determined up to a scale (l -> a l, r -> r / a)"""
    v = m.get_envs()[k]
    return np.trace(v) / np.trace(ref)


@PROP.sub('derivative', base, quick=300, rule='dA/dt is -i times the projected H|psi>, in the left gauge')
def _(c, x):
    A = gauged(c, ic.build(c))
    h = ham(c)
    m = iMPS([A.copy('K')])
    x.interesting(c['kind'] != 'real' and not c['hreal'])
    x.label(c['gauge'])
    B = m.dA_dt([h])
    want = ic.tdvp(A, h)
    x.close(B[0], want, 'dA/dt', atol=TOL, rtol=TOL)
    x.close(np.real(m.e), ic.energy(A, h), 'recorded energy', atol=TOL)
    _, l, r = dn.fixed(A)
    x.close(np.einsum('sab,ac,scd->bd', A.conj(), l, np.asarray(B[0])), np.zeros((c['D'], c['D'])), 'left gauge condition',
            atol=TOL * np.abs(l).max() * max(1, np.abs(want).max()))
    x.close(m[0], A, 'tensor unchanged')
    # shifting the Hamiltonian by a constant only changes the recorded energy
    B2 = m.dA_dt([h + 0.7 * np.eye(len(h))])
    x.close(B2[0], want, 'dA/dt with a constant added to the Hamiltonian', atol=TOL, rtol=TOL)


@PROP.sub('step', st.builds(lambda c, dt: dict(c, dt=dt), base, st.sampled_from([0.02, 0.05, 0.1])), quick=120,
          rule='one Euler / Runge-Kutta step against the exact flow of the projected equation')
def _(c, x):
    A = gauged(c, ic.build(c))
    h = ham(c)
    dt = c['dt']
    B = ic.tdvp(A, h)
    size = np.abs(B).max() * dt * np.sqrt(np.linalg.cond(dn.fixed(A)[2]))
    if size > 0.15:
        x.label('step too large to judge')
        return
    x.interesting()
    m = iMPS([A.copy('K')])
    t = Trajectory(m, [h])
    R = ic.rdm(ic.flow(A, h, dt), 2)
    R1 = ic.rdm(ic.normalised(A + dt * B), 2)
    moved = np.abs(R - ic.rdm(A, 2)).max()
    e = t.euler(m.copy(), dt)
    r = t.rk4(m.copy(), dt)
    x.close(ic.rdm(e[0], 2), R1, 'Euler step', atol=TOL)
    err = np.abs(ic.rdm(r[0], 2) - R).max()
    # a fourth-order step: no worse than a few times the classical one (evaluated densely) and the solver's accuracy
    ref = np.abs(ic.rdm(ic.flow(A, h, dt, 1), 2) - R).max()
    x.require(err <= 5e-7 + 5 * ref, 'Runge-Kutta step is off by %.3g where the state moves by %.3g (fourth order: %.3g)' % (err, moved, ref))
    for q, n in ((e, 'euler'), (r, 'rk4')):
        x.close(np.einsum('sab,sac->bc', q[0].conj(), q[0]), np.eye(c['D']), n + ' returns a left canonical tensor', atol=TOL)
    # both steps recorded the state they started from
    x.require(len(t.mps_history) == 2, 'history has %d entries' % len(t.mps_history))
    for v in t.mps_history:
        x.close(iMPS().deserialize(v, c['d'], c['D'], real=True)[0], A, 'recorded state')
    t.rk4(m.copy(), dt, store=False)
    t.euler(m.copy(), dt, store=False)
    x.require(len(t.mps_history) == 2, 'store=False records nothing')
    for own in (None, [2 * h]):
        q = Trajectory(m, own)
        x.close(ic.rdm(q.euler(m.copy(), dt, H=[h])[0], 2), ic.rdm(e[0], 2), 'Euler step with the Hamiltonian given', atol=TOL)
        x.close(ic.rdm(q.rk4(m.copy(), dt, H=[h])[0], 2), ic.rdm(r[0], 2), 'Runge-Kutta step with the Hamiltonian given', atol=TOL)
    x.close(m[0], A, 'the state given is unchanged', atol=0)
    x.close(t.mps_0[0], A, 'the initial state is kept', atol=0)
    x.require(t.mps == t.mps_0 and t.run_name == '' and Trajectory(m, [h], run_name='r').run_name == 'r' and Trajectory().Ds == [] and Trajectory().mps is None, 'new trajectories')


@PROP.sub('trajectory', st.builds(lambda c, n, w: dict(c, n=n, which=w), base, st.integers(2, 5), st.sampled_from(['euler', 'rk4'])),
          quick=80, rule='integrated trajectories: recorded states, final state, energy conservation, echoes')
def _(c, x):
    A = gauged(c, ic.build(c))
    h = ham(c)
    dt = 0.01 if c['seed'] % 4 else -0.01
    N = c['n']
    T = 0.2 + np.linspace(0, dt * (N - 1), N)
    if c['seed'] % 3 == 1:
        T = [float(t) for t in T]
    if np.abs(ic.tdvp(A, h)).max() * abs(dt) * np.sqrt(np.linalg.cond(dn.fixed(A)[2])) > 0.05:
        x.label('step too large to judge')
        return
    x.interesting()
    x.label(c['which'])
    m = iMPS([A.copy('K')])
    t = Trajectory(m, [h], run_name='')
    (t.eulerint if c['which'] == 'euler' else t.rk4int)(T)
    x.close(m[0], A, 'the state given is unchanged', atol=0)
    x.close(t.mps_0[0], A, 'the initial state is kept', atol=0)
    hist = [iMPS().deserialize(v, c['d'], c['D'], real=True)[0] for v in t.mps_history]
    x.require(len(hist) == N, 'one state per requested time (%d for %d)' % (len(hist), N))
    cur = A
    for n, H in enumerate(hist):
        x.close(ic.rdm(H, 2), ic.rdm(cur, 2), 'state at time %d' % n, atol=1e-5)
        cur = ic.normalised(cur + dt * ic.tdvp(cur, h)) if c['which'] == 'euler' else ic.flow(cur, h, dt, 3)
    x.close(ic.rdm(t.mps[0], 2), ic.rdm(hist[-1], 2), 'final state is the one at the last requested time', atol=1e-8)
    if c['which'] == 'rk4':
        x.close(ic.energy(t.mps[0], h), ic.energy(A, h), 'energy is conserved', atol=1e-5)
    le = np.reshape(t.loschmidts(), -1)
    want = [-np.log(np.max(np.abs(np.linalg.eigvals(dn.tm(ic.normalised(H), ic.normalised(hist[0])))))**2) for H in hist]
    x.close(le, want, 'Loschmidt echo densities', atol=1e-6)
    if c['seed'] % 2:       # run on, in any method and of any length: from the final state
        x.label('continued')
        n2 = 1 + c['seed'] // 6 % 4
        old, end = [np.array(v) for v in t.mps_history], np.array(t.mps[0])
        euler = bool(c['seed'] // 3 % 2)
        (t.eulerint if euler else t.rk4int)(0.5 + dt * np.arange(max(n2, 2))[:n2 + 1])
        n2 = max(n2, 2)
        x.require(len(t.mps_history) == N + n2 and all(np.array_equal(a, b) for a, b in zip(old, t.mps_history)), 'the record is continued')
        hist = [iMPS().deserialize(v, c['d'], c['D'], real=True)[0] for v in t.mps_history[N:]]
        cur = end
        for n, H in enumerate(hist):
            x.close(ic.rdm(H, 2), ic.rdm(cur, 2), 'continued: state at time %d' % n, atol=1e-5)
            cur = ic.normalised(cur + dt * ic.tdvp(cur, h)) if euler else ic.flow(cur, h, dt, 3)
        x.close(ic.rdm(t.mps[0], 2), ic.rdm(hist[-1], 2), 'continued: final state is the one at the last requested time', atol=1e-8)
        x.require(len(np.reshape(t.loschmidts(), -1)) == N + n2, 'continued: one echo for each recorded state')


@PROP.sub('ground_state', gen.fd(D=st.integers(1, 3), hreal=st.booleans(), seed=gen.seeds, n=st.integers(3, 25), eps=st.sampled_from([1e-2, 0.03])),
          quick=40, rule='gradient descent: energies decrease, follow imaginary time, stay above a rigorous lower bound')
def _(c, x):
    c = dict(c, d=2)
    h = ham(c)
    np.random.seed(c['seed'])
    A = iMPS().random(2, c['D'])[0]
    if not ic.good(A):
        return
    np.random.seed(c['seed'])
    m, es = find_ground_state(h, c['D'], c['eps'], maxiters=c['n'], tol=1e-9)
    x.interesting(c['n'] > 3)
    es = np.real(np.array([np.reshape(e, -1)[0] for e in es] + [m.energy([h])]))
    x.require(len(es) == c['n'] + 1, 'one energy per iteration')
    x.close(es[0], ic.energy(A, h), 'energy of the initial state', atol=1e-6)
    x.close(es[-1], ic.energy(m[0], h), 'energy of the returned state', atol=1e-6)
    cur = ic.normalised(A)
    for k in range(c['n']):
        s = 1j * c['eps'] * ic.tdvp(cur, h)
        if np.abs(s).max() * np.sqrt(np.linalg.cond(dn.fixed(cur)[2])) > 0.1 or not ic.good(cur):
            x.label('ill-conditioned step')
            break
        x.close(es[k], ic.energy(cur, h), 'energy after %d steps' % k, atol=1e-4)
        cur = ic.normalised(cur - s)
        x.require(es[k + 1] <= es[k] + 1e-7, 'energy went up from %.10g to %.10g in step %d' % (es[k], es[k + 1], k))
    low = np.linalg.eigvalsh(dn.chain([h] * 5, 2, 6))[0] / 5
    x.require(es[-1] >= low - 1e-8, 'energy %.6g below the lower bound %.6g' % (es[-1], low))


@PROP.sub('history', st.builds(lambda c, s: dict(c, seq=s), ic.uniform(Dmin=1, Dmax=3), ic.history), quick=60,
          rule='environments and time derivative of one infinite MPS asked again, with another Hamiltonian, after every change')
def _(c, x):
    d, D = c['d'], c['D']
    m = iMPS([ic.build(c).copy('K')])
    x.interesting(D > 1 and len(set(c['seq'])) > 1)
    for k, what in enumerate(c['seq'][:4]):
        h = gen.herm(c['seed'], d * d, 'cplx', 7 + k)
        m = ic.step(m, what, c, k, h)
        A = np.array(m[0])
        if not ic.good(A, 0.98):
            x.label('ill-conditioned')
            return
        w = ' after ' + ', '.join(c['seq'][:k + 1])
        m[0] = A = ic.normalised(A)
        if k % 2:
            X = gen.unitary(c['seed'], D, 70 + k)
            m[0] = A = X @ A @ X.conj().T
        B = ic.tdvp(A, h)
        got = m.dA_dt([h])[0]
        x.close(got, B, 'dA_dt' + w, atol=1e-5 * max(1, abs(B).max()))
        x.close(m[0], A, 'tensor unchanged' + w, atol=0)
