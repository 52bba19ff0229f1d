"""C24: Lyapunov spectra, stopping and resuming, changing the bond dimension of a trajectory"""
import contextlib
import os
import shutil
import tempfile
import numpy as np
from pbt.core import Prop, st
from pbt import gen, dense as dn, tdvp_common as tc
from checks import c15, c17
from xmps.fMPS import fMPS
from xmps.fTDVP import Trajectory

PROP = Prop('C24', 'random canonical MPS (L 2..5, d 2..3, D 1..3) with random site-dependent terms: exponents of short runs against the separation of nearby '
            'states in the dense projected flow, and random sequences of runs, stops and resumptions against one long run; '
            'non-trivial = complex, entangled, and room outside the manifold')
quiet = c17.quiet
base = gen.fd(L=st.integers(2, 4), d=st.sampled_from([2, 2, 2, 3]), D=st.integers(1, 3), seed=gen.seeds, form=st.sampled_from('LR'),
              kind=st.sampled_from(['cplx', 'cplx', 'real']), ham=st.sampled_from(['cplx', 'cplx', 'real', 'uniform', 'local']))


def setup(c, x):
    s = c17.setup(dict(c, full=False), x)
    if s is None:
        return None
    c, m, hs, H = s
    f = c15.Frame(m)
    if f.N == 0:
        return None
    return c, m, hs, H, f


def flow_map(f, ts, H, t, n):
    """matrix of the linearised flow in real coordinates: tangent coordinates at 0 -> dense vectors orthogonal to the state at t"""
    eps = 1e-4

    def go(ts):
        for _ in range(n):
            ts = c17.rk4_ref(ts, H, t / n)
        return ts
    ref = dn.vec(go(ts))
    ref = ref / np.linalg.norm(ref)
    cols = []
    for k in range(2 * f.N):
        w = f.B[k % f.N] * (1 if k < f.N else 1j)
        s = f.site[k % f.N]
        v = [dn.vec(go([a + e * w if n == s else a for n, a in enumerate(ts)])) for e in (eps, -eps)]
        dv = (v[0] - v[1]) / (2 * eps)
        dv = dv - ref * np.vdot(ref, dv)
        cols.append(np.concatenate([dv.real, dv.imag]))
    return np.array(cols).T


@PROP.sub('growth', base, quick=60, timeout=200, rule='exponents are the growth of the separation of nearby states, to second order in the step')
def _(c, x):
    s = setup(c, x)
    if s is None:
        return
    c, m, hs, H, f = s
    if f.N > (9 if max(c['bonds']) == 1 else 7):
        return
    x.label('N=%d' % f.N)
    many = max(c['bonds']) == 1         # several steps: only product states (known finding)
    t = 0.15 if many else 0.02
    rng = np.random.RandomState(c['seed'] % 2**31)
    Q0 = np.linalg.qr(rng.randn(2 * f.N, 2 * f.N))[0] if c['seed'] % 2 else np.eye(2 * f.N)
    err = []
    for k in range(2):
        dt = t / 10 / 2**k if many else t / 2**k
        n = 10 * 2**k if many else 1
        F = flow_map(f, f.ts, H, dt * n, 6 if many else 2)
        O, R = np.linalg.qr(F @ Q0)
        want = np.log(abs(np.diag(R)))
        want_ = (want + np.log(abs(np.diag(np.linalg.qr(np.linalg.inv(O.T @ F).T @ Q0)[1])))) / 2
        with quiet():
            tr = Trajectory(m, hs)
            tr.lyapunov(dt * np.arange(max(n, 2)), thresh=None, initial_basis=Q0)
        x.require(np.shape(tr.lys) == (max(n, 2), 2 * f.N) == np.shape(tr.lys_), 'one row of exponents for each step')
        err.append([tr.lys[:n].sum(0) - want, tr.lys_[:n].sum(0) - want_])
    for e1, e2 in zip(*err):
        # the Jacobian is that at the beginning of each step: errors are first order in the step, so the error of the whole time
        # halves, and that of a single step is quartered
        q = 2 if many else 4
        x.close(q * e2 - e1, 0 * e1, 'growth over %s, extrapolated to zero step, against the separation of nearby states' % t, atol=1e-3 if many else 3e-5)
        x.require(np.abs(e1).max() < (0.06 if many else 0.01), 'growth differs from the separation of nearby states by %.2e' % np.abs(e1).max())
    x.close(dn.vec([np.asarray(a) for a in m.data]), f.psi, 'initial state unchanged', atol=0)


@PROP.sub('bookkeeping', st.builds(lambda c, **k: dict(c, **k), base, n=st.integers(2, 8), basis=st.sampled_from(['F2', 'eye', 'rand', 'matrix']), k=st.integers(0, 2),
                                   window=st.integers(1, 5), np=st.integers(0, 2**20), dt=st.sampled_from([0.02, 0.05]), th=st.integers(0, 3)),
          quick=110, rule='sums, averages, convergence, top exponent')
def _(c, x):
    s = setup(c, x)
    if s is None:
        return
    c, m, hs, H, f = s
    n, N = c['n'], 2 * f.N
    c['k'] = min(c['k'], n - 1)
    basis = c['basis']
    if basis == 'matrix':
        basis = np.linalg.qr(np.random.RandomState(c['np']).randn(N, N))[0]
    T = c['dt'] * np.arange(n)
    run = lambda **kw: Trajectory(m, hs).lyapunov(T, **dict(dict(thresh=None, initial_basis=basis, conv_window=c['window']), **kw))     # noqa: E731
    with quiet():
        np.random.seed(c['np'])
        tr = Trajectory(m, hs)
        t, (exps, lys, conv, paired), (exps_, lys_, conv_, paired_) = tr.lyapunov([float(a) for a in T] if c['np'] % 2 else T, thresh=None, initial_basis=basis,
                                                                                          conv_window=c['window'], k=c['k'])
    x.label(c['basis'])
    x.close(t, T[c['k']:], 'times', atol=0)
    x.require(np.shape(lys) == (n, N) and np.shape(lys_) == (n, N), 'shape of the exponents')
    x.close(np.sum(lys, 1), np.zeros(n), 'volume is conserved in every step', atol=1e-8)
    x.close(np.sum(lys_, 1), np.zeros(n), 'volume is conserved in every step (symmetrised)', atol=1e-8)
    for e, l, cv, p in ((exps, lys, conv, paired), (exps_, lys_, conv_, paired_)):
        mean = np.cumsum(l, 0) / np.arange(1, n + 1)[:, None]
        x.close(e, (mean / c['dt'])[c['k']:], 'running averages', atol=1e-8)
        run_ = np.vstack([np.zeros((1, N)), mean]) / c['dt']
        x.close(cv, [np.mean(np.var(run_[max(0, q + 1 - c['window']):q + 2], axis=0)) for q in range(n)], 'convergence', atol=1e-8)
        x.close(p, [np.linalg.norm(a + a[::-1]) for a in mean], 'pairing', atol=1e-8)
    x.close(tr.lys, lys, 'kept on the trajectory', atol=0)
    x.close(tr.lys_, lys_, 'kept on the trajectory', atol=0)
    Q = np.asarray(tr.Q)
    x.close(Q.conj().T @ Q, np.eye(N), 'basis orthonormal', atol=1e-8)
    x.require(tr.has_run_lyapunov is True, 'flag')
    if c['ham'] == 'local':
        if max(c['bonds']) == 1:
            x.close(lys, 0 * lys, 'local Hamiltonians do not separate product states', atol=1e-7)
        else:       # later steps: known finding
            x.close(lys[0], 0 * lys[0], 'local Hamiltonians only rotate', atol=1e-3)
    # the first vector evolves by itself
    with quiet():
        np.random.seed(c['np'])
        tj = Trajectory(m, hs)
        tj.lyapunov(T, thresh=None, initial_basis=basis, just_max=True)
    x.close(np.reshape(tj.lys, -1), np.asarray(lys)[:, 0], 'top vector alone', atol=1e-8)
    x.close(np.linalg.norm(tj.q), 1, 'top vector normalised', atol=1e-8)
    x.require(abs(np.vdot(tj.q, Q[:, 0])) > 1 - 1e-8, 'top vector is the first of the basis')
    # threshold: the run stops after the first step whose convergence is below
    th = sorted(conv)[c['th'] % n] * (1 + 1e-6) + 1e-12
    q = next(i for i in range(n) if conv[i] < th)
    with quiet():
        np.random.seed(c['np'])
        r = run(thresh=th)
    x.require(len(r[1][1]) == q + 1 and len(r[0]) == q + 1, 'threshold %.3g: %s steps, expected %s' % (th, len(r[1][1]), q + 1))
    x.close(r[1][1], np.asarray(lys)[:q + 1], 'exponents up to there', atol=1e-8)
    # saving keeps the exponents, the basis and the state reached, and clears
    d = tempfile.mkdtemp()
    try:
        os.mkdir(os.path.join(d, 'bases'))
        for one, names, want in ((tr, ('Q',), Q), (tj, ('q',), np.asarray(tj.q))):
            one.run_name = 'r'
            last, hist, ly = one.mps, np.array(one.mps_history[-1]), np.asarray(one.lys)
            one.save(loc=d + '/', exps=True, clear=c['n'] % 2 == 0)
            name = 'r_L%d_D%d_N%d' % (m.L, last.D, n)
            x.require(one.id == name and sorted(os.listdir(d)) == ['bases', name + '.npy'], 'files %s' % sorted(os.listdir(d)))
            x.close(np.load(os.path.join(d, name + '.npy')), ly, 'exponents saved', atol=0)
            x.close(np.load(os.path.join(d, 'bases', name + '_basis.npy')), want, 'basis saved', atol=0)
            back = fMPS().load(os.path.join(d, 'bases', name + '_state.npy'))
            x.require(back == last, 'state saved')
            if c['n'] % 2 == 0:
                x.require(one.mps_history == [] and not hasattr(one, 'lys') and one.mps == m, 'cleared')
                one.mps, one.lys = last, ly         # for the rest of the check
            os.remove(os.path.join(d, name + '.npy'))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    # the final state is that of the integrator
    ts = f.ts
    for _ in range(n):
        ts = c17.rk4_ref(ts, H, c['dt'])
    x.same_ray(dn.vec([np.asarray(a) for a in tr.mps.data]), dn.vec(ts), 'final state', tol=1e-6)
    x.close(dn.vec([np.asarray(a) for a in m.data]), f.psi, 'initial state unchanged', atol=0)


@PROP.sub('long', st.builds(lambda c, **k: dict(c, L=2 + c['L'] % 2, d=2, D=1, **k), base, n=st.integers(90, 300), window=st.sampled_from([None, None, 20, 100]),
                            k=st.integers(0, 50), dt=st.sampled_from([0.005, 0.01]), thresh=st.booleans()),
          quick=12, timeout=120, rule='runs of hundreds of steps: averages and convergence with the default window and threshold')
def _(c, x):
    s = setup(c, x)
    if s is None:
        return
    c, m, hs, H, f = s
    n, N, w = c['n'], 2 * f.N, c['window'] or 100
    x.interesting(n > w and c['ham'] != 'local')
    T = c['dt'] * np.arange(n)
    kw = dict(initial_basis='eye', k=c['k'], **({} if c['window'] is None else dict(conv_window=w)))
    with quiet():
        tr = Trajectory(m, hs)
        t, a, b = tr.lyapunov(T, thresh=None, **kw)
    x.close(t, T[c['k']:], 'times', atol=0)
    for e, l, cv, p in (a, b):
        l = np.asarray(l)
        x.require(l.shape == (n, N), 'one row of exponents for each step')
        x.close(l.sum(1), np.zeros(n), 'volume is conserved in every step', atol=1e-8)
        mean = np.array([l[:q + 1].mean(0) for q in range(n)])
        x.close(e, (mean / c['dt'])[c['k']:], 'running averages', atol=1e-7)
        run = np.vstack([np.zeros((1, N)), mean]) / c['dt']
        x.close(cv, [np.mean(np.var(run[max(0, q + 1 - w):q + 2], axis=0)) for q in range(n)], 'convergence', atol=1e-7)
        x.close(p, [np.linalg.norm(v + v[::-1]) for v in mean], 'pairing', atol=1e-8)
    Q = np.asarray(tr.Q)
    x.close(Q.conj().T @ Q, np.eye(N), 'basis orthonormal', atol=1e-8)
    ts = f.ts
    for _ in range(n):
        ts = c17.rk4_ref(ts, H, c['dt'])
    x.same_ray(dn.vec([np.asarray(q) for q in tr.mps.data]), dn.vec(ts), 'final state', tol=1e-6)
    if c['thresh']:
        q = next((i for i in range(n) if a[2][i] < 1e-5), n - 1)
        if all(abs(v - 1e-5) > 1e-9 for v in a[2][:q + 1]):
            x.label('default threshold')
            with quiet():
                t2, a2, _ = Trajectory(m, hs).lyapunov(T, initial_basis='eye', **({} if c['window'] is None else dict(conv_window=w)))
            x.require(len(a2[1]) == q + 1 and len(t2) == q + 1, 'default threshold: %s steps, expected %s' % (len(a2[1]), q + 1))


@PROP.sub('histories', st.builds(lambda c, **k: dict(c, **k), base, parts=st.lists(st.integers(1, 4), min_size=2, max_size=4), how=st.lists(st.sampled_from(['go', 'stop', 'stop', 'copy', 'again']), min_size=3, max_size=3),
                                 basis=st.sampled_from(['F2', 'eye', 'eye']), dt=st.sampled_from([0.02, 0.05]), lys=st.booleans(), other=st.booleans()),
          quick=80, rule='runs in parts, stopped, stored and resumed in between, equal one long run')
def _(c, x):
    s = setup(c, x)
    if s is None:
        return
    c, m, hs, H, f = s
    d = tempfile.mkdtemp()
    try:
        with quiet():
            tr = Trajectory(m, hs, run_name='run')
            done, runs = 0, 0
            for p, how in zip(c['parts'], c['how'] + ['end']):
                before = [np.array(getattr(tr, k)) if done else np.zeros((0, 2 * f.N)) for k in ('lys', 'lys_')]
                _, (_, l1, _, _), (_, l2, _, _) = tr.lyapunov(c['dt'] * np.arange(max(p, 2)), thresh=None, initial_basis=c['basis'])
                done += max(p, 2)
                for got, kept, old in ((l1, tr.lys, before[0]), (l2, tr.lys_, before[1])):
                    x.require(np.shape(got) == np.shape(kept) == (done, 2 * f.N), 'one row for every step so far: %s' % (np.shape(got),))
                    x.close(got, kept, 'returned and kept', atol=0)
                    x.close(got[:len(old)], old, 'the rows of earlier runs come first', atol=0)
                    x.close(np.sum(got, 1), np.zeros(done), 'volume is conserved', atol=1e-8)
                x.label(how)
                if how == 'copy':
                    tr = tr.copy()
                if how == 'again':
                    # resumed in the trajectory that was stopped
                    runs += 1
                    tr.stop(loc=d)
                    last = tr.mps
                    x.require(tr.resume('run', loc=d) is tr and tr.mps == last and tr.mps_0 == m, 'states restored')
                    x.require(tr.mps_history == [] and len(tr.Ds) == 1, 'the history starts where the run was resumed')
                if how == 'stop':
                    if c['other']:
                        o = Trajectory(m, hs, run_name='another')
                        o.stop(loc=d)
                    runs += 1
                    where = tr.stop(loc=d)
                    x.require(os.path.dirname(where) == d and os.path.basename(where) == 'run_%d' % runs, 'stored in ' + str(where))
                    new = Trajectory().resume('run', loc=d)
                    x.require(isinstance(new, Trajectory), 'resume gives a trajectory')
                    x.require(new.run_name == 'run' and new.mps_0 == tr.mps_0 and new.mps == tr.mps, 'states restored')
                    x.require(len(new.H) == len(hs), 'Hamiltonian restored')
                    for a, b in zip(new.H, hs):
                        x.close(a, b, 'Hamiltonian restored', atol=0)
                    x.close(new.lys, tr.lys, 'exponents restored', atol=0)
                    x.close(new.lys_, tr.lys_, 'exponents restored', atol=0)
                    x.close(new.Q, tr.Q, 'basis restored', atol=0)
                    if c['lys'] is False:
                        used = tr.copy().resume('run', loc=d, n=1, lys=False)
                        x.require(not hasattr(used, 'Q') and not hasattr(used, 'lys') and used.mps_history == [], 'states only, whatever there was before')
                        bare = Trajectory().resume('run', loc=d, n=1, lys=False)
                        x.require(not hasattr(bare, 'Q') and not hasattr(bare, 'lys') and bare.mps.L == m.L, 'states only')
                    tr = new
            # one run as long as all of them
            n = done
            one = Trajectory(m, hs)
            one.lyapunov(c['dt'] * np.arange(n), thresh=None, initial_basis=c['basis'])
        x.require(np.shape(tr.lys) == np.shape(one.lys), 'steps of all parts: %s, of one run: %s' % (np.shape(tr.lys), np.shape(one.lys)))
        x.close(tr.lys, one.lys, 'exponents of the parts', atol=1e-7)
        x.same_ray(dn.vec([np.asarray(a) for a in tr.mps.data]), dn.vec([np.asarray(a) for a in one.mps.data]), 'final state', tol=1e-8)
        x.close(abs(np.sum(np.conj(tr.Q) * one.Q, 0)), np.ones(2 * f.N), 'final basis', atol=1e-6)
        x.require(np.shape(tr.lys_) == np.shape(one.lys_), 'steps of all parts')
        x.close(tr.lys_, one.lys_, 'symmetrised exponents of the parts', atol=1e-7)
        tr.clear()
        x.require(not any(hasattr(tr, a) for a in ('lys', 'lys_', 'exps', 'Q', 'vL')) and tr.mps_history == [], 'cleared')
        x.require(tr.mps == m, 'back at the initial state')
        with quiet():
            tr.stop(loc=d)
            new = Trajectory().resume('run', loc=d)
        x.require(new.mps == m and not hasattr(new, 'lys'), 'stopped after clearing')
        x.close(dn.vec([np.asarray(a) for a in m.data]), f.psi, 'initial state unchanged', atol=0)
    finally:
        shutil.rmtree(d, ignore_errors=True)


@PROP.sub('top', st.builds(lambda c, **k: dict(c, **k), base, parts=st.lists(st.integers(2, 4), min_size=2, max_size=3), how=st.lists(st.sampled_from(['go', 'stop', 'copy']), min_size=2, max_size=2),
                           basis=st.sampled_from(['F2', 'eye', 'given']), dt=st.sampled_from([0.02, 0.05])),
          quick=80, rule='the top exponent alone, in parts, stopped and resumed, is the first of one run of the whole spectrum')
def _(c, x):
    s = setup(c, x)
    if s is None:
        return
    c, m, hs, H, f = s
    x.interesting(f.N > 1 and c['ham'] != 'local')
    d = tempfile.mkdtemp()
    basis = np.linalg.qr(gen.arr(c['seed'], (2 * f.N, 2 * f.N), 'real', 70))[0] if c['basis'] == 'given' else c['basis']
    try:
        with quiet():
            tr = Trajectory(m, hs, run_name='run')
            for p, how in zip(c['parts'], c['how'] + ['end']):
                tr.lyapunov(c['dt'] * np.arange(p), thresh=None, just_max=True, initial_basis=basis)
                x.label(how)
                if how == 'copy':
                    tr = tr.copy()
                if how == 'stop':
                    tr.stop(loc=d)
                    tr = Trajectory().resume('run', loc=d)
            n = sum(c['parts'])
            one = Trajectory(m, hs)
            one.lyapunov(c['dt'] * np.arange(n), thresh=None, initial_basis=basis)
        x.require(np.shape(tr.lys) == (n,), 'one exponent for each step: %s' % (np.shape(tr.lys),))
        x.close(tr.lys, one.lys[:, 0], 'top exponent of the parts', atol=1e-7)
        x.close(abs(np.vdot(tr.q, one.Q[:, 0])), 1, 'final vector', atol=1e-7)
        x.same_ray(dn.vec([np.asarray(a) for a in tr.mps.data]), dn.vec([np.asarray(a) for a in one.mps.data]), 'final state', tol=1e-8)
    finally:
        shutil.rmtree(d, ignore_errors=True)


@PROP.sub('converged', st.builds(lambda c, **k: dict(c, **k), base, n=st.integers(3, 7), window=st.integers(1, 4), dt=st.sampled_from([0.02, 0.05])),
          quick=60, rule='a run that stopped at its threshold goes on as if it had not')
def _(c, x):
    s = setup(c, x)
    if s is None:
        return
    c, m, hs, H, f = s
    n = c['n']
    kw = dict(initial_basis='eye', conv_window=c['window'])
    with quiet():
        one = Trajectory(m, hs)
        _, (_, _, conv, _), _ = one.lyapunov(c['dt'] * np.arange(n), thresh=None, **kw)
        q = int(np.argmin(conv[:n - 1]))
        if conv[q] < 1e-10 or any(v < conv[q] * 1.01 for v in conv[:q]):
            return
        x.interesting(f.N > 1 and q > 0)
        tr = Trajectory(m, hs)
        t, _, _ = tr.lyapunov(c['dt'] * np.arange(n), thresh=conv[q] * 1.005, **kw)
        x.require(len(t) == q + 1 == len(tr.lys), 'stopped after %d steps, expected %d' % (len(t), q + 1))
        ts = f.ts
        for _ in range(q + 1):
            ts = c17.rk4_ref(ts, H, c['dt'])
        x.same_ray(dn.vec([np.asarray(a) for a in tr.mps.data]), dn.vec(ts), 'state when it stopped', tol=1e-6)
        more = n - q - 1
        tr.lyapunov(c['dt'] * np.arange(max(more, 2)), thresh=None, **kw)
    x.close(tr.lys[:n], one.lys[:n], 'exponents after going on', atol=1e-7)
    if more >= 2:
        x.same_ray(dn.vec([np.asarray(a) for a in tr.mps.data]), dn.vec([np.asarray(a) for a in one.mps.data]), 'final state', tol=1e-8)


@PROP.sub('stored', st.builds(lambda c, **k: dict(c, **k), gen.mps_spec(Lmin=2, Lmax=6, dmax=3, Dmax=4), n=st.integers(0, 3), runs=st.integers(1, 3), form=st.sampled_from('LRN'),
                              name=st.sampled_from(['run', 'a state', 'x_1', 'L4_D2']), W=st.booleans(), basis=st.booleans()),
          quick=120, rule='a trajectory from any state, whatever its bonds, comes back from the files as it was')
def _(c, x):
    m = fMPS([t / np.linalg.norm(t) for t in gen.tensors(c)])
    if c['form'] == 'L':
        m.left_canonicalise()
    elif c['form'] == 'R':
        m.right_canonicalise()
    L, d = c['L'], c['d']
    standard = m.structure() == m.create_structure(L, d, m.D)
    x.label('standard bonds' if standard else 'other bonds')
    x.interesting(m.D > 1 and not standard)
    hs = [gen.herm(c['seed'], d * d, 'cplx', n) for n in range(L - 1)]
    W = [gen.arr(c['seed'], (2, 2, d, d), 'cplx', 40)] * L if c['W'] else None
    loc = tempfile.mkdtemp(prefix='xmpspbt')
    try:
        with quiet():
            tr = Trajectory(m, hs, W=W, run_name=c['name'])
            dirs = []
            for k in range(c['runs']):
                dirs.append(tr.stop(loc=loc))
                if k + 1 < c['runs']:
                    tr.mps = fMPS([t * (1 + k) for t in tr.mps.data])
            x.require([os.path.basename(q) for q in dirs] == ['%s_%d' % (c['name'], k + 1) for k in range(c['runs'])], 'folders %s' % dirs)
            for k in list(range(c['runs'])) + [None]:
                new = Trajectory().resume(c['name'], loc=loc, n=None if k is None else k + 1)
                f = 1.
                for i in range(c['runs'] - 1 if k is None else k):
                    f *= 1 + i
                x.require(new.mps.structure() == m.structure() and new.mps_0.structure() == m.structure(), 'bonds')
                for a, b in zip(new.mps, m):
                    x.close(a, np.asarray(b) * f, 'state of stop %s' % k, atol=0, rtol=1e-14)
                for a, b in zip(new.mps_0, m):
                    x.close(a, b, 'initial state', atol=0, rtol=0)
                x.require(new.mps.D == m.bond_dimension and (new.mps.L, new.mps.d) == (L, d), 'sizes')
                x.require(len(new.H) == len(hs) and (W is None) == (new.W is None), 'Hamiltonian')
                for a, b in zip(list(new.H) + list(new.W or []), hs + list(W or [])):
                    x.close(a, b, 'Hamiltonian', atol=0, rtol=0)
                x.require(not hasattr(new, 'lys') and not hasattr(new, 'Q') and new.mps_history == [], 'nothing else')
        if c['basis']:
            # the state beside a basis
            tr.mps_history = [tr.mps.serialize(real=True)]
            tr.lys, tr.exps, Q = np.ones((2, 3)), np.ones((2, 3)), gen.arr(c['seed'], (3, 3), 'real', 5)
            setattr(tr, 'q' if c['seed'] % 2 else 'Q', Q)
            os.mkdir(os.path.join(loc, 'bases'))
            last = tr.mps
            tr.save(loc=loc + '/', clear=bool(c['seed'] % 3))
            f = os.path.join(loc, 'bases', tr.id)
            x.close(np.load(f + '_basis.npy'), Q, 'basis', atol=0)
            back = fMPS().load(f + '_state.npy') if standard else fMPS().load(f + '_state.npy', structured=True)
            x.require(back.structure() == last.structure() and back == last, 'state saved')
    finally:
        shutil.rmtree(loc, ignore_errors=True)


@PROP.sub('bonds', st.builds(lambda c, **k: dict(c, **k), base, ops=st.lists(st.tuples(st.sampled_from(['expand', 'contract', 'grow', 'run', 'lyapunov']), st.integers(1, 5)), min_size=1, max_size=4)),
          quick=120, rule='bond dimension of a trajectory raised and lowered')
def _(c, x):
    s = setup(c, x)
    if s is None:
        return
    c, m, hs, H, f = s
    L, d = c['L'], c['d']
    x.interesting(c['D'] > 1 and c['kind'] == 'cplx')
    tr = Trajectory(m, hs)
    room = d**(L // 2)
    for op, D in c['ops']:
        before = [np.asarray(t).copy() for t in tr.mps.data]
        v = dn.vec(before)
        old = tr.mps.D
        x.label(op)
        with quiet():
            if op in ('expand', 'grow') and D < old:
                continue        # only to larger sizes
            if op == 'expand':
                r = tr.expand(D)
                x.same_ray(dn.vec([np.asarray(t) for t in tr.mps.data]), v, 'expanding keeps the state', tol=1e-8)
                x.require(tr.Ds[-1] == D, 'size recorded')
                x.require(max(max(t.shape[1:]) for t in tr.mps.data) <= max(D, old), 'bond dimension')
                break       # singular environments from here on
            elif op == 'contract':
                r = tr.contract(D)
                x.require(tr.mps.D <= D and max(max(t.shape[1:]) for t in tr.mps.data) <= D and tr.Ds[-1] == tr.mps.D, 'contracted')
                w = dn.vec([np.asarray(t) for t in tr.mps.data])
                x.close(np.linalg.norm(w), 1, 'normalised', atol=1e-8)
                bound = 0
                for i in range(1, L):
                    q = dn.schmidt(v / np.linalg.norm(v), i, d, L)
                    bound += (q[D:]**2).sum()
                ov = abs(np.vdot(w, v)) / np.linalg.norm(v)
                x.require(ov**2 >= 1 - bound - 1e-9, 'contracted state is close: overlap %s, weight discarded %s' % (ov**2, bound))
                if D >= old:
                    x.same_ray(w, v, 'nothing to contract', tol=1e-8)
            elif op == 'grow':
                dt = 0.05
                n = len(tr.Ds)
                r = tr.dynamical_expand(D, dt)
                w = dn.vec([np.asarray(t) for t in tr.mps.data])
                x.require(len(tr.Ds) == n and tr.Ds[-1] == tr.mps.D, 'size recorded')
                x.require(tr.mps.D <= D, 'bond dimension %s, asked for %s' % (tr.mps.D, D))
                u = dn.expm(-1j * dt * H) @ v / np.linalg.norm(v)
                x.require(np.linalg.norm(w / np.linalg.norm(w) - u * np.vdot(u, w) / abs(np.vdot(u, w)) / np.linalg.norm(w)) < 0.5, 'close to the evolution')
                break
            elif op == 'run':
                before = tr.mps.copy()
                tr.rk4int(np.array([0, 0.05]))
                # the recorded initial state and one step
                x.require(len(tr.mps_history) >= 2, 'recorded')
            elif op == 'lyapunov' and D <= 2 and D > old and L <= 3 and c['ham'] != 'local':     # (nothing entangles: nowhere to grow)
                tr2 = Trajectory(tr.mps, hs)
                tr2.lyapunov(np.array([0, .05]), D=D, thresh=None, initial_basis='eye')
                x.require(tr2.mps.D == min(D, room), 'pre-evolution grows the bond dimension')
                x.close(np.sum(tr2.lys, 1), np.zeros(2), 'volume conserved', atol=1e-7)
                tr3 = Trajectory(tr.mps, hs)
                tr3.lyapunov(np.array([0, .05]), D=D, t_burn=0, thresh=None, initial_basis='eye')
                x.require(tr3.mps.D == old, 'no pre-evolution asked for')
    x.close(dn.vec([np.asarray(a) for a in m.data]), f.psi, 'initial state unchanged', atol=0)


@PROP.probe('F79')
def _():
    # no projection at this bond dimension: every exponent is zero
    c = dict(D=2, L=3, d=2, form='R', ham='cplx', kind='cplx', np=0, seed=72, bonds=[2, 2], special=None)
    m = tc.state(c)
    tr = Trajectory(m, tc.terms(c))
    with quiet():
        tr.lyapunov(0.015 * np.arange(10), thresh=None, initial_basis='eye')
    return bool(np.abs(tr.lys.sum(0)).max() > 1e-5)
