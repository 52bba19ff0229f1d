"""C17: trajectories of the finite MPS: integrators, histories, derived quantities, files"""
import contextlib
import io
import os
import shutil
import tempfile
import numpy as np
from pbt.core import Prop, st
from pbt import gen, dense as dn, tdvp_common as tc
from pbt.fmps_common import any_mps, build
from xmps.fMPS import fMPS
from xmps.fTDVP import Trajectory

PROP = Prop('C17', 'random standard-structure MPS (L 2..5, d 2..3, D 1..4) with random site-dependent terms or a full Hamiltonian, steps of random '
            'size, and random sequences of Trajectory operations, against dense projected flow, exact evolution and a model of the history; '
            'non-trivial = entangled complex state')
TOL = 1e-7

base = gen.fd(L=st.integers(2, 5), d=st.sampled_from([2, 2, 2, 3]), D=st.integers(1, 4), seed=gen.seeds, form=st.sampled_from('LRN'),
              kind=st.sampled_from(['cplx', 'cplx', 'real']), ham=st.sampled_from(['cplx', 'cplx', 'real', 'uniform', 'local']),
              full=st.booleans(), dt=st.sampled_from([0.1, 0.05, 0.02]))


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        yield


def setup(c, x):
    c = dict(c, special=None)
    if c['d'] == 3:
        c['L'] = min(c['L'], 4)
    c['bonds'] = tc.standard_bonds(c['L'], c['d'], c['D'])
    c['D'] = max(c['bonds'])
    m = None
    for k in range(10):
        c['seed'] = c['seed'] + k
        m = tc.state(c)
        if m is not None:
            break
    if m is None:
        x.label('ill-conditioned, skipped')
        return None
    hs = tc.terms(c)
    H = dn.chain(hs, c['d'], c['L'])
    if c['full'] and c['ham'] != 'uniform':
        H = gen.herm(c['seed'], c['d']**c['L'], 'cplx', 900)
        H = H / np.linalg.norm(H, 2)
    x.interesting(c['D'] > 1 and c['kind'] == 'cplx')
    x.label('full H' if c['full'] else 'terms')
    return c, m, (H if c['full'] else hs), H


def arrays(m):
    return [np.asarray(t).copy() for t in m.data]


def unit(v):
    return v / np.linalg.norm(v)


def flow(H):
    def f(ts):
        return tc.gauge_fixed(ts, -1j * H @ dn.vec(ts))
    return f


def comb(ts, k, a):
    return [t + a * b for t, b in zip(ts, k)]


def euler_ref(ts, H, dt):
    return comb(ts, flow(H)(ts), dt)


def rk4_ref(ts, H, dt):
    f = flow(H)
    k1 = f(ts)
    k2 = f(comb(ts, k1, dt / 2))
    k3 = f(comb(ts, k2, dt / 2))
    k4 = f(comb(ts, k3, dt))
    return [t + dt / 6 * (a + 2 * b + 2 * cc + e) for t, a, b, cc, e in zip(ts, k1, k2, k3, k4)]


REF = dict(euler=euler_ref, rk4=rk4_ref)


def left_canonical(x, m, w):
    from pbt.fmps_common import left_defect
    for n in range(m.L):
        x.close(left_defect(m[n]), 0, w + ': left canonical at site %d' % n, atol=1e-8)


def load(v, c, D=None):
    """tensors of one history entry, read without the library"""
    D = c['D'] if D is None else D
    b = [1] + tc.standard_bonds(c['L'], c['d'], D) + [1]
    sh = [(c['d'], b[i], b[i + 1]) for i in range(c['L'])]
    n = sum(int(np.prod(s)) for s in sh)
    v = np.asarray(v)
    if v.shape != (2 * n,):
        return None
    z, out = v[:n] + 1j * v[n:], []
    for s in sh:
        k = int(np.prod(s))
        out.append(z[:k].reshape(s))
        z = z[k:]
    return out


@PROP.sub('step', st.builds(lambda c, m: dict(c, method=m), base, st.sampled_from(['euler', 'rk4', 'rk4'])), quick=250,
          rule='one Euler / Runge-Kutta step of the dense projected flow')
def _(c, x):
    s = setup(c, x)
    if s is None:
        return
    c, m, arg, H = s
    ts = arrays(m)
    tr = Trajectory(m, arg, fullH=c['full'])
    for n, t in enumerate(ts):
        x.close(tr.mps_0[n], t, 'initial state kept', atol=0)
    x.label(c['method'])
    if c['form'] == 'N':
        m = m.left_canonicalise()
        ts = arrays(m)
    p = getattr(tr, c['method'])(m, c['dt'])
    v = dn.vec(arrays(p))
    x.close(np.linalg.norm(v), 1, 'normalised', atol=1e-9)
    left_canonical(x, p, 'after the step')
    x.same_ray(v, dn.vec(REF[c['method']](ts, H, c['dt'])), 'state after the step', tol=1e-6)
    x.require(len(tr.mps_history) == 1 and load(tr.mps_history[0], c) is not None, 'the state before the step is stored')
    for a, b in zip(load(tr.mps_history[0], c), ts):
        x.close(a, b, 'stored state', atol=0)
    for n, t in enumerate(ts):
        x.close(m[n], t, 'the state given is unchanged', atol=0)
    q = getattr(tr, c['method'])(m, c['dt'], store=False)
    x.close(dn.vec(arrays(q)), v, 'step without storing', atol=1e-10)
    x.require(len(tr.mps_history) == 1, 'store=False stores nothing')
    # a Hamiltonian given with the step replaces that of the trajectory
    for own in (None, [2 * h for h in arg] if not c['full'] else 2 * arg):
        q = getattr(Trajectory(m, own, fullH=c['full']), c['method'])(m, c['dt'], H=arg)
        x.close(dn.vec(arrays(q)), v, 'step with the Hamiltonian given', atol=1e-10)
    x.require(Trajectory().Ds == [] and Trajectory().mps_history == [] and tr.mps_0.D == c['D'], 'new trajectories')


@PROP.sub('integrate', st.builds(lambda c, m, n: dict(c, method=m, n=n), base, st.sampled_from(['euler', 'rk4']), st.integers(2, 8)),
          quick=120, rule='eulerint / rk4int: the whole history, its expectation values, energies, entropies and echoes')
def _(c, x):
    s = setup(c, x)
    if s is None:
        return
    c, m, arg, H = s
    d, L, dt = c['d'], c['L'], c['dt']
    if c['seed'] % 5 == 2:
        x.label('times running backwards')
        dt = -dt
    T = np.linspace(0.3, 0.3 + dt * (c['n'] - 1), c['n'])
    if c['seed'] % 4 == 1:
        T = [float(t) for t in T]
    first = arrays(m)
    tr = Trajectory(m, arg, fullH=c['full'])
    with quiet():
        o = getattr(tr, c['method'] + 'int')(T)
    x.require(o is tr, 'returns the trajectory')
    x.require(len(tr.mps_history) == c['n'], 'one state per time, got %d for %d' % (len(tr.mps_history), c['n']))
    cur = dn.vec(arrays(m))
    hist = []
    for k, v in enumerate(tr.mps_history):
        ts = load(v, c)
        x.require(ts is not None, 'stored state has the standard structure')
        x.same_ray(dn.vec(ts), cur, 'state at time %d' % k, tol=2e-6)
        hist.append(dn.vec(ts))
        if all(np.linalg.eigvalsh(a)[0] > 1e-4 for a in sum(tc.envs(ts), [])):
            cur = dn.vec(REF[c['method']](ts, H, dt))
        else:
            x.label('became ill-conditioned')
            return
    x.same_ray(dn.vec(arrays(tr.mps)), hist[-1], 'state at the end is the last one stored')
    for n, t in enumerate(first):
        x.close(m[n], t, 'the state given is unchanged', atol=0)
        x.close(tr.mps_0[n], t, 'the initial state is kept', atol=0)
    observables(c, x, tr, hist, H)


def observables(c, x, tr, hist, H):
    d, L = c['d'], c['L']
    hist = [unit(h) for h in hist]
    site = c['seed'] % L
    ops = [gen.herm(c['seed'], d, 'cplx', 40 + i) for i in range(2)]
    with quiet():
        ev = np.asarray(tr.mps_evs(ops, site))
    want = [[np.vdot(h, dn.apply_local(h, o, [site], d, L)).real for o in ops] for h in hist]
    x.require(ev.shape == (len(hist), 2), 'mps_evs: %s for %d times' % (ev.shape, len(hist)))
    x.close(ev, want, 'mps_evs', atol=1e-7)
    with quiet():
        ml = tr.mps_list()
        dl = tr.deserialize()
    x.require(len(ml) == len(dl) == len(hist), 'mps_list: one state per time')
    for a, b, h in zip(ml, dl, hist):
        x.same_ray(dn.vec(arrays(a)), h, 'mps_list')
        x.same_ray(dn.vec(arrays(b)), h, 'deserialize')
    with quiet():
        e = np.asarray(tr.mps_energies())
    x.close(e, [np.vdot(h, H @ h).real for h in hist], 'mps_energies', atol=1e-7)
    with quiet():
        sc = tr.schmidts()
        lo = np.asarray(tr.loschmidt())
        vn = np.asarray(tr.von_neumann())
        r2 = np.asarray(tr.renyi(2))
        r3 = np.asarray(tr.renyi(α=0.5))
    x.close(lo, [abs(np.vdot(hist[0], h)) for h in hist], 'loschmidt', atol=1e-7)
    x.require(len(sc) == len(hist), 'schmidts: one entry per time')
    for k, h in enumerate(hist):
        pr = [dn.schmidt(h, i, d, L)**2 for i in range(1, L)]
        for i, p in enumerate(pr):
            q = np.sort(np.real(np.asarray(sc[k][i + 1])))[::-1]
            n = min(len(p), len(q))
            x.close(q[:n], p[:n], 'Schmidt values across bond %d' % i, atol=1e-7)
            x.close(np.concatenate([q[n:], p[n:]]), 0 * np.concatenate([q[n:], p[n:]]), 'further Schmidt values', atol=1e-7)
        S = max(-np.sum(p[p > 1e-30] * np.log(p[p > 1e-30])) for p in pr)
        x.close(vn[k], S, 'von Neumann entropy', atol=1e-5)
        x.close(r2[k], max(-np.log(np.sum(p**2)) for p in pr), 'Renyi entropy', atol=1e-5)
        if min(p.min() for p in pr) > 1e-10:
            x.close(r3[k], max(2 * np.log(np.sum(np.sqrt(p))) for p in pr), 'Renyi entropy of order 1/2', atol=1e-4)


@PROP.sub('exact', st.builds(lambda c, n, p: dict(c, n=n, product=p), base, st.integers(2, 6), st.sampled_from([False, False, True])),
          quick=120, rule='edint: exact evolution and everything derived from it')
def _(c, x):
    s = setup(c, x)
    if s is None:
        return
    c, m, arg, H = s
    d, L, dt = c['d'], c['L'], c['dt']
    if c['product']:
        x.label('product state of the basis')
        c['D'] = 1
        ts = []
        for i in range(L):
            t = np.zeros((d, 1, 1), complex)
            t[(c['seed'] >> i) % d] = 1
            ts.append(t)
        m = fMPS(ts, d)
    psi = dn.vec(arrays(m))
    if c['form'] == 'N':
        m = fMPS([t / np.linalg.norm(psi)**(1. / L) for t in m.data], d)
        psi = unit(psi)
    if c['seed'] % 3 == 0:
        x.label('times running backwards')
        dt = -dt
    if c['seed'] % 7 == 2 and L * d <= 10:
        x.label('many steps')
        c['n'] = 20 + c['seed'] % 30
    T = 0.2 + np.linspace(0, dt * (c['n'] - 1), c['n'])
    if c['seed'] % 4 == 1:
        T = [float(t) for t in T]
    tr = Trajectory(m, arg, fullH=c['full'])
    first = arrays(m)
    with quiet():
        tr.edint(T)
    for n, t in enumerate(first):
        x.close(m[n], t, 'the state given is unchanged', atol=0)
        x.close(tr.mps_0[n], t, 'the initial state is kept', atol=0)
    hist = [dn.expm(-1j * H * (t - T[0])) @ psi for t in T]
    x.require(len(tr.ed_history) == c['n'], 'one state per time')
    for a, b in zip(tr.ed_history, hist):
        x.close(a, b, 'exact state', atol=1e-8)
    x.same_ray(dn.vec(arrays(tr.mps)), hist[-1], 'state at the end')
    O = [gen.herm(c['seed'], d**L, 'cplx', 60 + i) for i in range(2)]
    x.close(tr.ed_evs(O), [[np.vdot(h, o @ h).real for o in O] for h in hist], 'ed_evs', atol=1e-7)
    x.close(np.asarray(tr.ed_energies()).reshape(-1), [np.vdot(psi, H @ psi).real] * c['n'], 'ed_energies', atol=1e-7)
    observables(c, x, tr, hist, H)
    x.close(tr.ed_evs(O[:1]), [[np.vdot(h, O[0] @ h).real] for h in hist], 'ed_evs again', atol=1e-7)
    # the evolution is linear
    z = 10.**(c['seed'] % 5 - 2) * np.exp(1j * (c['seed'] % 6))
    with quiet():
        t2 = Trajectory(fMPS([(z if n == c['seed'] % L else 1) * t for n, t in enumerate(first)], d), arg, fullH=c['full']).edint(T)
    for a, b in zip(t2.ed_history, hist):
        x.close(np.asarray(a) / z, b, 'exact state of a multiple of the state', atol=1e-8)


@PROP.sub('otoc', st.builds(lambda c, n: dict(c, n=n), base, st.integers(2, 5)), quick=60, rule='out-of-time-order commutator')
def _(c, x):
    s = setup(dict(c, full=True, L=min(c['L'], 4)), x)
    if s is None:
        return
    c, m, arg, H = s
    d, L = c['d'], c['L']
    psi = dn.vec(arrays(m))
    V, W = [dn.embed(gen.herm(c['seed'], d, 'cplx', 30 + i), (c['seed'] + i) % L, d, L) for i in range(2)]
    T = np.linspace(0, 3, c['n'])
    with quiet():
        got = Trajectory(m, arg, fullH=True).ed_OTOC(T, (V, W))
    want = []
    for t in T:
        U = dn.expm(-1j * H * t)
        Wt = U.conj().T @ W @ U
        C = Wt @ V - V @ Wt
        want.append(np.linalg.norm(C @ psi)**2)
    x.close(got, want, 'OTOC', atol=1e-7)


@PROP.sub('odeint', st.builds(lambda c, n: dict(c, n=n), base, st.integers(3, 6)), quick=30, timeout=120,
          rule='odeint follows the same flow as small Runge-Kutta steps')
def _(c, x):
    s = setup(dict(c, full=False, L=min(c['L'], 4), d=2), x)
    if s is None:
        return
    c, m, arg, H = s
    T = 0.2 + np.linspace(0, c['dt'] * (c['n'] - 1), c['n'])
    first = arrays(m)
    tr = Trajectory(m, arg)
    with quiet():
        tr.odeint(T)
    x.require(len(tr.mps_history) == c['n'], 'one state per time')
    x.close(dn.vec(arrays(tr.mps)), dn.vec(load(tr.mps_history[-1], c)), 'state at the end is the last one stored', atol=1e-12)
    for n, t in enumerate(first):
        x.close(m[n], t, 'the state given is unchanged', atol=0)
        x.close(tr.mps_0[n], t, 'the initial state is kept', atol=0)
    ts = arrays(m)
    for k in range(c['n']):
        if not all(np.linalg.eigvalsh(a)[0] > 1e-3 for a in sum(tc.envs(ts), [])):
            x.label('became ill-conditioned')
            return
        x.same_ray(dn.vec(load(tr.mps_history[k], c)), dn.vec(ts), 'state at time %d' % k, tol=3e-3)
        for _i in range(2):
            ts = rk4_ref(ts, H, c['dt'] / 2)
    with quiet():
        ev = tr.mps_evs([np.eye(2)], 0)
    x.close(ev, np.ones((c['n'], 1)), 'mps_evs after odeint', atol=1e-8)


ops = st.lists(st.one_of(
    st.tuples(st.sampled_from(['euler', 'rk4', 'ed']), st.integers(2, 4)),
    st.tuples(st.just('expand'), st.integers(1, 5)),
    st.tuples(st.just('contract'), st.integers(1, 5)),
    st.tuples(st.sampled_from(['clear', 'copy', 'look']), st.just(0))), min_size=2, max_size=7)


@PROP.sub('history', st.builds(lambda c, o: dict(c, ops=[list(i) for i in o]), base, ops), quick=150, timeout=60,
          rule='random sequences of runs, expansions, truncations, clear and copy against a model of the history')
def _(c, x):
    s = setup(dict(c, L=min(c['L'], 4), d=2, form='L'), x)
    if s is None:
        return
    c, m, arg, H = s
    d, L, dt = c['d'], c['L'], c['dt']
    T = lambda n: np.linspace(0, dt * (n - 1), n)
    tr = Trajectory(m, arg, fullH=c['full'])
    other = None
    psi0 = dn.vec(arrays(m))
    model = dict(hist=[], psi=psi0, D=c['D'], ed=None)
    ran = 0

    def check(tr, model, w):
        x.same_ray(dn.vec(arrays(tr.mps)), model['psi'], w + ': current state', tol=1e-5)
        x.require(len(tr.mps_history) == len(model['hist']), '%s: %d states stored, expected %d' % (w, len(tr.mps_history), len(model['hist'])))
        if model['hist']:
            with quiet():
                ml = tr.mps_list()
            x.require(len(ml) == len(model['hist']), '%s: mps_list returns %d of %d states' % (w, len(ml), len(model['hist'])))
            for a, b in zip(ml, model['hist']):
                x.same_ray(dn.vec(arrays(a)), b, w + ': stored states', tol=1e-5)
        x.require(hasattr(tr, 'ed_history') == (model['ed'] is not None), w + ': exact history kept or forgotten')
    for name, n in c['ops']:
        if name in ('euler', 'rk4'):
            if not tc.conditioned(tr.mps, 0.02):
                x.label('became ill-conditioned')
                return
            ran += 1
            ts = arrays(tr.mps.copy().left_canonicalise())
            with quiet():
                getattr(tr, name + 'int')(T(n))
            for k in range(n):
                model['hist'].append(dn.vec(ts))
                if k < n - 1:
                    ts = REF[name](ts, H, dt)
                    t2 = fMPS([t.copy('K') for t in ts], d).left_canonicalise()
                    ts = arrays(t2)
                    if not tc.conditioned(t2, 0.01):
                        x.label('became ill-conditioned')
                        return
            model['psi'] = model['hist'][-1]
        elif name == 'ed':
            if model['hist'] or model['ed'] is not None:
                continue        # an exact run and an approximate one do not share a history
            with quiet():
                tr.edint(T(n))
            model['ed'] = [dn.expm(-1j * H * t) @ model['psi'] for t in T(n)]
            model['psi'] = model['ed'][-1]
            x.close(tr.ed_history, model['ed'], 'exact history', atol=1e-6)
            model['D'] = d**(L // 2)
            with quiet():
                x.require(len(tr.mps_list()) == n, 'states of the exact run')
            model['hist'] = model['ed']
        elif name == 'expand':
            if n < model['D']:
                continue
            tr.expand(n)
            model['D'] = n
            x.require(max([1] + [np.asarray(t).shape[2] for t in tr.mps.data]) == min(n, d**(L // 2)), 'expanded bond dimension')
        elif name == 'contract':
            if model['ed'] is not None:
                continue
            p = model['psi']
            tr.contract(n)
            model['psi'] = dn.vec(arrays(tr.mps))
            p = p / np.linalg.norm(p)
            lost = sum((dn.schmidt(p, i, d, L)[n:]**2).sum() for i in range(1, L))
            x.require(abs(np.vdot(p, model['psi']))**2 >= 1 - lost - 1e-7, 'contract loses no more than the discarded weight', lost=lost)
            if n >= min(model['D'], d**(L // 2)):
                x.same_ray(model['psi'], p, 'contract to a larger bond dimension changes nothing', tol=1e-6)
            model['D'] = min(n, model['D'])
            x.require(max([1] + [np.asarray(t).shape[2] for t in tr.mps.data]) <= n, 'contracted bond dimension')
        elif name == 'clear':
            tr.clear()
            model = dict(hist=[], psi=psi0, D=c['D'], ed=None)
        elif name == 'copy':
            other = (tr, dict(model, hist=list(model['hist'])))
            tr = tr.copy()
        check(tr, model, 'after ' + name)
        if other is not None:
            check(other[0], other[1], 'the original of a copy after ' + name)
    x.label('%d runs' % ran)


@PROP.sub('ragged', st.builds(lambda c, r, dt, h: dict(c, runs=[list(i) for i in r], dt=dt, ham=h),
                              any_mps(Lmin=2, Lmax=5, dmax=3, Dmax=3, maxdim=90),
                              st.lists(st.tuples(st.sampled_from(['euler', 'rk4', 'rk4', 'ode']), st.integers(2, 4)), min_size=1, max_size=3),
                              st.sampled_from([0.1, 0.05]), st.sampled_from(['cplx', 'cplx', 'local', 'uniform'])), quick=100,
          rule='runs from states whose bonds are not the standard ones, have redundant directions, or no entanglement')
def _(c, x):
    ts = build(c)
    d, L, dt = c['d'], c['L'], c['dt']
    hs = tc.terms(c)
    H = dn.chain(hs, d, L)
    m = fMPS([t.copy('K') for t in ts], d)
    tr = Trajectory(m, hs)
    cur = fMPS([t.copy('K') for t in ts], d).left_canonicalise()
    x.same_ray(dn.vec(arrays(cur)), dn.vec(ts), 'canonical form of the initial state', tol=1e-6)
    hist = []
    for name, n in c['runs']:
        T = np.linspace(0, dt * (n - 1), n)
        if not tc.conditioned(cur, 0.02):
            x.label('ill-conditioned, stopped')
            return
        with quiet():
            getattr(tr, name + 'int')(T)
        if name == 'ode':
            hist = []
        for k in range(n):
            hist.append(dn.vec(arrays(cur)))
            if k < n - 1:
                a = arrays(cur)
                for _i in range(2 if name == 'ode' else 1):
                    a = REF['rk4' if name == 'ode' else name](a, H, dt / 2 if name == 'ode' else dt)
                cur = fMPS(a, d).left_canonicalise()
                if not tc.conditioned(cur, 0.01):
                    x.label('became ill-conditioned')
                    return
        x.label(name, 'standard' if [tuple(t.shape[1:]) for t in cur.data] == cur.create_structure(L, d, cur.bond_dimension) else 'not the standard bonds')
        x.interesting([tuple(t.shape[1:]) for t in cur.data] != cur.create_structure(L, d, cur.bond_dimension))
        tol = 3e-3 if 'ode' in [r[0] for r in c['runs']] else 1e-5
        x.same_ray(dn.vec(arrays(tr.mps)), hist[-1], 'state at the end', tol=tol)
        x.require(len(tr.mps_history) == len(hist) == len(tr.Ds) - 1, '%d states stored, %d sizes, expected %d' % (len(tr.mps_history), len(tr.Ds), len(hist)))
        with quiet():
            ml = tr.mps_list()
            lo = tr.loschmidt()
        for k, (a, b) in enumerate(zip(ml, hist)):
            x.same_ray(dn.vec(arrays(a)), b, 'state %d' % k, tol=tol)
        if 'ode' not in [r[0] for r in c['runs']]:
            x.close(np.ravel(lo), [abs(np.vdot(hist[0], b)) / np.linalg.norm(hist[0]) / np.linalg.norm(b) for b in hist], 'loschmidt', atol=1e-5)
    for a, t in zip(m.data, ts):
        x.close(a, t, 'the state given is unchanged', atol=0)


@PROP.sub('files', st.builds(lambda c, n, b: dict(c, n=n, clear=b), base, st.integers(2, 4), st.booleans()), quick=60,
          rule='save writes the whole history where it is told to')
def _(c, x):
    s = setup(dict(c, form='L', full=False), x)
    if s is None:
        return
    c, m, arg, H = s
    tr = Trajectory(m, arg, run_name='run')
    with quiet():
        tr.rk4int(np.linspace(0, c['dt'] * (c['n'] - 1), c['n']))
    h = [np.array(v) for v in tr.mps_history]
    tmp = tempfile.mkdtemp(prefix='xmpspbt')
    try:
        tr.save(tmp + '/', exps=False, clear=c['clear'])
        f = sorted(os.listdir(tmp))
        x.require(f == ['run_L%d_D%d_N%d.npy' % (c['L'], c['D'], c['n'])], 'files %s' % f)
        x.close(np.load(os.path.join(tmp, f[0])), h, 'stored history', atol=0)
        x.require(len(tr.mps_history) == (0 if c['clear'] else c['n']), 'history after save')
        if c['clear']:
            x.same_ray(dn.vec(arrays(tr.mps)), dn.vec(arrays(m)), 'back at the initial state')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
