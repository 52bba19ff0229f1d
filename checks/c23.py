"""C23: isometric PEPS, grouping of legs, disentangling"""
import itertools
import numpy as np
from pbt.core import Prop, st
from pbt import gen, dense as dn
from checks import c22
from xmps import fPEPS as P, peps_tools as T
from xmps.fPEPS import fPEPS

PROP = Prop('C23', 'random PEPS (1..4 x 1..4 sites, d 2..3, bond dimension 1..4) made isometric around every site, random tensors for the grouping of legs and two-site states '
            'for the disentangler; non-trivial = a centre with neighbours on several sides and bonds larger than one; entangled states')
TOL = 1e-8
SHAPES = [(2, 2), (2, 3), (3, 2), (3, 3), (2, 4), (4, 2), (3, 3), (1, 4), (4, 1), (3, 4), (4, 3), (1, 2)]


@PROP.sub('isometric', gen.fd(shape=st.sampled_from(SHAPES), d=st.sampled_from([2, 2, 3]), X=st.sampled_from([2, 3, 4, 1]), x=st.integers(0, 3), y=st.integers(0, 3),
                              real=st.booleans(), scale=st.sampled_from([0, 0, 0, 0, -9, -6, -4, 3, 6]), flip=st.sampled_from(['', 'T', 'R', 'U', 'TR', 'UT'])), quick=250, rule='isometrise around a site')
def _(c, x):
    Lx, Ly = c['shape']
    d = c['d'] if c['d']**(Lx * Ly) < 5000 else 2
    i, j = c['x'] % Lx, c['y'] % Ly
    a = fPEPS().random(Lx, Ly, d, c['X'])
    if c['real']:
        a.data = [[t.real.copy() for t in r] for r in a.data]
    if c['scale']:
        a.data = [[t * 10.**c['scale'] for t in r] for r in a.data]
    x.interesting(c['X'] > 1 and Lx > 1 and Ly > 1 and not c['real'])
    x.label('%dx%d' % (Lx, Ly))
    r = a.isometrise((i, j))
    x.require(r is a and a.oc == (i, j), 'works in place, centre recorded')
    for p, q in itertools.product(range(Lx), range(Ly)):
        t = a.data[q][p]
        x.require(t.ndim == 5 and t.shape[0] == d and max(t.shape[1:]) <= max(c['X'], 1), 'shape %s' % (t.shape,))
        out = [k for k, s in ((1, q > j), (2, p < i), (3, q < j), (4, p > i)) if s]     # legs towards the centre
        m = t.transpose([k for k in range(5) if k not in out] + out).reshape(-1, int(np.prod([t.shape[k] for k in out])))
        if out:
            x.close(m.conj().T @ m, np.eye(m.shape[1]), 'tensor at %s is an isometry towards the centre %s' % ((p, q), (i, j)), atol=TOL)
        else:
            x.close(np.linalg.norm(m), 1, 'the centre is normalised', atol=TOL)
    n = Lx * Ly
    v = c22.vec(a.data)
    x.close(np.linalg.norm(v), 1, 'norm', atol=1e-7)
    ops = [gen.herm(c['np'], d, 'cplx', k) for k in range(3)]
    want = [dn.expect(v, dn.apply_local(v, o, [j * Lx + i], d, n)) for o in ops]
    x.close(a.iso_E(ops[0]), want[0], 'expectation value at the centre', atol=TOL)
    x.close(a.iso_E(ops[1], (i, j)), want[1], 'expectation value at the centre, site given', atol=TOL)
    x.close(np.reshape(a.iso_Es([(o, (i, j)) for o in ops]), -1), want, 'several expectation values', atol=TOL)
    x.close(a.E(ops[2], (i, j)), want[2], 'the same from the whole lattice', atol=1e-7)
    b = a
    for f in c['flip']:
        b = getattr(b, f)
    x.close(b.iso_E(ops[0]), want[0], 'after reflections', atol=TOL)
    k = a.copy()
    x.require(k.oc == (i, j), 'copy keeps the centre')
    x.close(k.iso_E(ops[1]), want[1], 'on a copy', atol=TOL)
    x.close(c22.vec(a.data), v, 'asking leaves the state alone', atol=0)
    del k.oc
    x.raises(Exception, lambda: k.iso_E(ops[0]), 'without a centre')


@PROP.sub('tensors', gen.fd(s=st.lists(st.integers(1, 4), min_size=5, max_size=5), where=st.integers(1, 4), kind=st.sampled_from(['cplx', 'cplx', 'real']), seed=gen.seeds),
          quick=300, rule='single tensors made isometric towards a leg or a corner')
def _(c, x):
    s, w = c['s'], c['where']
    t = gen.arr(c['seed'], tuple(s), c['kind'])
    if np.linalg.norm(t) < 1e-9:
        return
    x.interesting(min(s) > 1 and c['kind'] == 'cplx')
    K = t.copy()
    prev, nxt, opp = (w - 2) % 4 + 1, w % 4 + 1, (w + 1) % 4 + 1
    for name, g, f, ins, outs in (('corner', P.tensor_grouping_diag, P.tensor_isometrise_diag, [0, w, nxt], [prev, opp]),
                                  ('leg', P.tensor_grouping_lrud, P.tensor_isometrise_lrud, [0, prev, w, nxt], [opp])):
        m, pipe = g(t, w)
        n_in, n_out = int(np.prod([s[k] for k in ins])), int(np.prod([s[k] for k in outs]))
        x.require(m.shape == (n_in, n_out), name + ': shape of the map')
        ref = t.transpose(ins + outs).reshape(n_in, n_out)
        sv = lambda y: np.linalg.svd(y, compute_uv=False)       # noqa: E731
        x.close(sv(m), sv(ref), name + ': the map joins these legs', atol=TOL * max(1, abs(t).max()) * n_in)
        x.close(T.ungroup_legs(m, pipe), t, name + ': ungrouped', atol=0)
        if n_in < n_out:
            x.raises(Exception, lambda: f(t, w), name + ': no isometry possible')
            continue
        u = f(t, w)
        x.require(u.shape == t.shape, name + ': shape')
        U = u.transpose(ins + outs).reshape(n_in, n_out)
        x.close(U.conj().T @ U, np.eye(n_out), name + ': isometry', atol=TOL)
        x.close(U @ (U.conj().T @ ref), ref, name + ': range kept', atol=1e-6 * max(1, np.linalg.norm(ref)))
    x.close(P.tensor_isometrise_center(t), t / np.linalg.norm(t), 'centre', atol=1e-10)
    for f, e in ((P.rotate_peps_tensor_cc, 'slurd'), (P.rotate_peps_tensor_ac, 'srdlu'), (P.transpose_peps_tensor, 'sldru')):
        x.close(f(t), np.einsum('surdl->' + e, t), 'rotated or transposed tensor', atol=0)
    x.close(P.transfer_tensor(t), np.einsum('sabcd,sefgh->aebfcgdh', t, t.conj()), 'transfer tensor', atol=1e-12 * max(1, abs(t).max()**2 * s[0]))
    x.close(t, K, 'argument unchanged', atol=0)
    n = c['seed'] % 60 + 1
    p, q = P.factors(n)
    best = min(abs(k - n // k) for k in range(1, n + 1) if n % k == 0)
    x.require(p * q == n and abs(p - q) == best, 'factors of %d' % n)
    m = gen.arr(c['seed'], (s[0] * s[1], s[2] * s[3]), c['kind'], 1)
    for D in (None, 1, 2, 50):
        U, S, V = P.tr_svd(m, D)
        k = min(min(m.shape), D or 10**6)
        x.require(U.shape[1] == k and V.shape[0] == k and S.shape == (k, k), 'tr_svd shapes')
        sv = np.linalg.svd(m, compute_uv=False)
        x.close(np.linalg.norm(m - U @ S @ V), np.sqrt((sv[k:]**2).sum()), 'tr_svd is optimal', atol=1e-8 * max(1, sv[0]))


@PROP.sub('legs', gen.fd(s=st.lists(st.integers(1, 4), min_size=1, max_size=6), order=st.integers(0, 719), cuts=st.integers(0, 31), kind=st.sampled_from(['cplx', 'int']), seed=gen.seeds),
          quick=300, rule='legs grouped and ungrouped')
def _(c, x):
    s = c['s']
    n = len(s)
    perms = list(itertools.permutations(range(n)))
    perm = list(perms[c['order'] % len(perms)])
    legs, cur = [], []
    for k, p in enumerate(perm):
        cur.append(p)
        if k == n - 1 or c['cuts'] >> k & 1:
            legs.append(cur)
            cur = []
    x.interesting(n > 2 and perm != sorted(perm) and 1 < len(legs) < n)
    t = gen.arr(c['seed'], tuple(s), c['kind'])
    K = [list(q) for q in legs]
    g, pipe = T.group_legs(t, legs)
    x.require(g.shape == tuple(int(np.prod([s[k] for k in q])) for q in legs), 'grouped shape')
    x.close(g, t.transpose(perm).reshape(g.shape), 'grouped entries', atol=0)
    x.require(legs == K, 'argument unchanged')
    x.close(T.ungroup_legs(g, pipe), t, 'ungrouped', atol=0)
    # single legs may change size in between
    big = [k for k, q in enumerate(legs) if len(q) == 1]
    if big:
        k = big[0]
        h = np.repeat(g, 2, axis=k)
        x.close(T.ungroup_legs(h, pipe), np.repeat(t, 2, axis=legs[k][0]), 'ungrouped with another dimension', atol=0)
    x.raises(ValueError, lambda: T.ungroup_legs(g[None], pipe), 'too many legs')
    inv = T.inverse_transpose(perm)
    x.require([perm[k] for k in inv] == list(range(n)), 'inverse permutation')


def renyi2(v):
    d1, d2, a, b = v.shape
    m = v.transpose([0, 2, 1, 3]).reshape(d1 * a, d2 * b)
    r = m @ m.conj().T
    return -np.log(np.trace(r @ r).real)


@PROP.sub('disentangle', gen.fd(d1=st.integers(1, 3), d2=st.integers(1, 3), a=st.integers(1, 4), b=st.integers(1, 4), kind=st.sampled_from(['cplx', 'cplx', 'real']), seed=gen.seeds,
                                prod=st.booleans()), quick=120, timeout=60, rule='Renyi entropy of a two-site state and the unitary that lowers it')
def _(c, x):
    d1, d2, a, b = c['d1'], c['d2'], c['a'], c['b']
    v = gen.arr(c['seed'], (d1, d2, a, b), c['kind'])
    if c['prod']:
        # a product state, entangled by a unitary
        v = np.einsum('ia,jb->ijab', gen.arr(c['seed'], (d1, a), c['kind'], 1), gen.arr(c['seed'], (d2, b), c['kind'], 2))
        W = gen.unitary(c['seed'], d1 * d2, 3)
        v = (W @ v.reshape(d1 * d2, -1)).reshape(d1, d2, a, b)
    v = v / np.linalg.norm(v)
    n = d1 * d2
    x.interesting(min(d1, d2, a, b) > 1 and c['kind'] == 'cplx')
    U = gen.unitary(c['seed'], n, 4)
    act = lambda u: (u @ v.reshape(n, -1)).reshape(v.shape)     # noqa: E731
    x.close(T.renyi(U.reshape(d1, d2, d1, d2), v), renyi2(act(U)), 'Renyi entropy after a unitary', atol=1e-8)
    S0 = T.renyi(np.eye(n).reshape(d1, d2, d1, d2), v)
    x.close(S0, renyi2(v), 'Renyi entropy', atol=1e-8)
    K = v.copy()
    eps = [1e-3, 1e-4][c['seed'] % 2]
    U, Ss = T.renyi_2_disentangler(v, eps=eps, max_iter=400)
    x.close(v, K, 'state unchanged', atol=0)
    x.require(np.shape(U) == (n, n), 'shape')
    x.close(U.conj().T @ U, np.eye(n), 'disentangler unitary', atol=1e-8)
    x.close(Ss[-1], renyi2(act(U)), 'recorded entropy is that of the state', atol=1e-8)
    if len(Ss) <= 400:
        x.require(Ss[-1] <= S0 + 1e-8, 'entropy %.6f is not above that of the state itself, %.6f' % (Ss[-1], S0))
        x.require((np.diff([S0] + list(Ss)) <= 1e-8).all(), 'entropy never rises')
        x.require(abs(Ss[-1] - Ss[-2]) <= eps, 'converged')
    # no step along the gradient is left that would lower it much
    for k in range(3):
        h = gen.herm(c['seed'], n, 'cplx', 10 + k)
        h = h / np.linalg.norm(h, 2)
        s = [renyi2((dn.expm(1j * e * h) @ act(U).reshape(n, -1)).reshape(v.shape)) for e in (-1e-3, 1e-3)]
        x.require(abs(s[1] - s[0]) / 2e-3 < 10 * np.sqrt(eps), 'stationary: slope %.2e' % (abs(s[1] - s[0]) / 2e-3))
