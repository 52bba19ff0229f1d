"""C22: projected entangled pair states"""
import itertools
from functools import reduce
import numpy as np
from pbt.core import Prop, st
from pbt import gen, dense as dn
from xmps import fPEPS as P
from xmps.fPEPS import fPEPS, fMPO
from xmps.fMPS import fMPS

PROP = Prop('C22', 'random complex PEPS on lattices of 1..4 x 1..4 sites (d 1..3, at most 600 amplitudes, every bond its own dimension 1..3) against a dense '
            'contraction by numpy.einsum; non-trivial = both sides longer than one, unequal sides and a bond larger than one')
TOL = 1e-8
SHAPES = [(3, 2), (2, 3), (2, 2), (4, 2), (2, 4), (3, 2), (2, 3), (3, 3), (1, 3), (4, 1), (1, 2), (3, 1), (1, 1)]


@st.composite
def lattice(draw, Dmax=3, dmin=1, minside=1, maxamp=600):
    d = draw(st.sampled_from([k for k in (2, 2, 2, 3, 1) if k >= dmin]))
    shapes = [q for q in SHAPES if min(q) >= minside and d**(q[0] * q[1]) <= maxamp]
    Lx, Ly = draw(st.sampled_from(shapes))
    bond = st.lists(st.sampled_from([k for k in (2, 3, 2, 1) if k <= Dmax]), min_size=9, max_size=9)
    if Lx * Ly > 6:
        Dmax = min(Dmax, 2)
    bond = bond.map(lambda b: [min(k, Dmax) for k in b])
    c = dict(Lx=Lx, Ly=Ly, d=d, h=draw(bond), v=draw(bond),
             kind=draw(st.sampled_from(['cplx', 'cplx', 'cplx', 'real', 'int'])), seed=draw(gen.seeds), np=draw(st.integers(0, 2**20)))
    if draw(st.integers(0, 5)) == 0:
        c['h'] = c['v'] = [1] * 9
    return c


def tensors(c, salt=0):
    Lx, Ly = c['Lx'], c['Ly']
    h = lambda j, i: c['h'][(j * 3 + i) % 9]        # noqa: E731  bond between (j, i) and (j, i + 1)
    v = lambda j, i: c['v'][(j * 4 + i) % 9]        # noqa: E731  bond between (j, i) and (j + 1, i)
    out = []
    for j in range(Ly):
        row = []
        for i in range(Lx):
            s = (c['d'], v(j - 1, i) if j else 1, h(j, i) if i < Lx - 1 else 1, v(j, i) if j < Ly - 1 else 1, h(j, i - 1) if i else 1)
            a = gen.arr(c['seed'], s, c['kind'], 1000 * salt + 20 * j + i)
            row.append(a / max(np.linalg.norm(a), 1e-3) * np.sqrt(c['d']))
        out.append(gen.partly_real(row, c['seed'] + 7 * j * j))
    return out


def vec(ts, phys=None):
    """amplitudes with sites in reading order"""
    Ly, Lx = len(ts), len(ts[0])
    lab = itertools.count()
    p = {(j, i): next(lab) for j in range(Ly) for i in range(Lx)}
    h = {(j, i): next(lab) for j in range(Ly) for i in range(Lx - 1)}
    v = {(j, i): next(lab) for j in range(Ly - 1) for i in range(Lx)}
    args = []
    for j in range(Ly):
        for i in range(Lx):
            t = ts[j][i]
            assert t.ndim == 5
            idx, lb = [slice(None)], [p[j, i]]
            for k, b in ((1, v.get((j - 1, i))), (2, h.get((j, i))), (3, v.get((j, i))), (4, h.get((j, i - 1)))):
                if b is None:
                    assert t.shape[k] == 1, 'leg out of the lattice'
                    idx.append(0)
                else:
                    idx.append(slice(None))
                    lb.append(b)
            args += [t[tuple(idx)], lb]
    return np.einsum(*args, list(p.values()), optimize='greedy').reshape(-1)


def peps(ts, d=None):
    return fPEPS([[t.copy('K') for t in row] for row in ts], d)


def interesting(x, c):
    x.label('%dx%d' % (c['Lx'], c['Ly']))
    x.interesting(c['Lx'] > 1 and c['Ly'] > 1 and c['Lx'] != c['Ly'] and max(c['h']) > 1 and c['d'] > 1 and c['kind'] == 'cplx')


def one(a):
    a = np.asarray(a)
    assert a.size == 1
    return a.reshape(-1)[0]


@PROP.sub('states', st.builds(lambda c, s: dict(c, seed2=s), lattice(), gen.seeds), quick=500, rule='vectors, overlaps, norms, sums, copies')
def _(c, x):
    interesting(x, c)
    ta, tb = tensors(c), tensors(dict(c, seed=c['seed2'], h=c['v'][::-1], v=c['h'][::-1]), 1)
    a, b = peps(ta), peps(tb)
    Lx, Ly, d = c['Lx'], c['Ly'], c['d']
    va, vb = vec(ta), vec(tb)
    sc = max(1, np.linalg.norm(va) * np.linalg.norm(vb))
    x.require((a.Lx, a.Ly, a.d) == (Lx, Ly, d), 'size: %s for %s' % ((a.Lx, a.Ly, a.d), (Lx, Ly, d)))
    D = max(max(t.shape[1:]) for r in ta for t in r)
    x.require(a.X == D and a.bond_dimension == D, 'bond dimension')
    x.require(a.structure == [[t.shape for t in r] for r in ta], 'structure')
    x.close(np.reshape(a.recombine(), -1), va, 'recombine', atol=TOL * sc)
    n = d**(Lx * Ly)
    snake = np.arange(n).reshape([d] * (Lx * Ly))
    order = [j * Lx + (i if j % 2 == 0 else Lx - 1 - i) for j in range(Ly) for i in range(Lx)]
    x.close(np.reshape(a.recombine('row_snake'), -1), va[snake.transpose(order).reshape(-1)], 'recombine in snake order', atol=TOL * sc)
    x.close(one(a.overlap(b)), np.vdot(va, vb), 'overlap', atol=TOL * sc)
    x.close(one(b.overlap(a)), np.vdot(vb, va), 'overlap exchanged', atol=TOL * sc)
    x.close(a.full_overlap(b), np.vdot(va, vb), 'full overlap', atol=TOL * sc)
    x.close(one(a.norm()), np.linalg.norm(va), 'norm', atol=1e-6 * sc)
    for mp in (a.row_mpos(b), a.col_mpos(b)):
        x.close(one(reduce(lambda p, q: p * q, mp[::-1]).recombine()), np.vdot(va, vb), 'product of row or column operators', atol=TOL * sc)
    for mp in (a.row_mpos(), a.col_mpos()):
        x.close(one(reduce(lambda p, q: p * q, mp[::-1]).recombine()), np.vdot(va, va), 'product of row or column operators, one state', atol=TOL * sc)
    if Lx > 1 and Ly > 1:
        s = a.add(b)
        x.close(vec(s.data), va + vb, 'sum', atol=TOL * sc)
        x.require((s.Lx, s.Ly, s.d) == (Lx, Ly, d), 'size of a sum')
    k = a.copy()
    x.require(k == a and (k.Lx, k.Ly, k.d, k.X) == (Lx, Ly, d, D) and not hasattr(k, 'oc'), 'copy is equal')
    i, j = c['seed'] % Ly, c['seed'] // 7 % Lx
    k.data[i][j] = k.data[i][j] + 0.01 * gen.arr(c['seed'], k.data[i][j].shape, 'cplx', 88)
    x.require(not k == a and not a == k, 'states that differ in the tensor (%d, %d) only compare equal' % (i, j))
    k = a.copy(tb)
    x.require(len(k.data) == Ly, 'copy with other tensors')
    x.close(vec(k.data), vb, 'copy with other tensors', atol=0)
    for r in k.data:
        for t in r:
            t *= 2
    x.close(vec(tb), vb, 'the tensors given to copy are not shared', atol=0)
    k = a.copy()
    k.data[-1][-1] *= 2
    x.close(vec(a.data), va, 'operands unchanged, copy independent', atol=0)
    x.require(np.linalg.norm(va) == 0 or not (k == a), 'changed copy is not equal')
    if np.linalg.norm(va) > 1e-6:
        a = fPEPS([[t.astype(complex) if i == j == 0 or c['np'] % 2 else t.copy('K') for i, t in enumerate(r)] for j, r in enumerate(ta)])     # the first may be divided in place
        r = a.normalise()
        x.require(r is a, 'normalise works in place')
        w = vec(a.data)
        x.close(np.linalg.norm(w), 1, 'normalised', atol=1e-6)
        x.close(w, va / np.linalg.norm(va), 'normalise only scales', atol=1e-6)
    np.random.seed(c['np'])
    if Lx * Ly > 1:
        X = 1 + c['np'] % 3
        r = fPEPS().random(Lx, Ly, d, X)
        x.require((r.Lx, r.Ly, r.d, r.X) == (Lx, Ly, d, X), 'random: size')
        w = vec(r.data)
        x.close(np.reshape(r.recombine(), -1), w, 'random: recombine', atol=TOL * max(1, abs(w).max()))
        for j, i in itertools.product(range(Ly), range(Lx)):
            x.require(r.data[j][i].shape == (d, X if j else 1, X if i < Lx - 1 else 1, X if j < Ly - 1 else 1, X if i else 1), 'random: structure')


@PROP.sub('values', st.builds(lambda c, x, y, w, h: dict(c, x=x, y=y, w=w, hh=h), lattice(maxamp=300), st.integers(0, 3), st.integers(0, 3), st.integers(1, 3), st.integers(1, 3)),
          quick=600, rule='expectation values, gates, contracted blocks, reduced density matrices')
def _(c, x):
    interesting(x, c)
    ts = tensors(c)
    a = peps(ts)
    Lx, Ly, d = c['Lx'], c['Ly'], c['d']
    v = vec(ts)
    N = max(1, np.vdot(v, v).real)
    i, j = c['x'] % Lx, c['y'] % Ly
    O = gen.herm(c['seed'], d, 'cplx', 5)
    G = gen.arr(c['seed'], (d, d), 'cplx', 6)
    op = lambda o, s: dn.apply_local(v, o, s, d, Lx * Ly)   # noqa: E731
    x.require(np.isrealobj(a.E(O, (i, j))), 'expectation values are real')
    x.close(a.E(O, (i, j)), np.vdot(v, op(O, [j * Lx + i])).real, 'E at %s' % ((i, j),), atol=TOL * N)
    g = a.apply(G, (i, j))
    x.close(vec(g.data), op(G, [j * Lx + i]), 'apply at %s' % ((i, j),), atol=TOL * N * d)
    x.require((g.Lx, g.Ly, g.d) == (Lx, Ly, d), 'apply keeps the size')
    x.close(vec(a.data), v, 'apply leaves the state alone', atol=0)
    w, h = min(c['w'], Lx - i), min(c['hh'], Ly - j)
    while d**(w * h) > 64:
        w, h = (w - 1, h) if w > h else (w, h - 1)
    sites = [(j + q) * Lx + i + p for q in range(h) for p in range(w)]
    O = gen.herm(c['seed'], d**(w * h), 'cplx', 7)
    x.label('block %dx%d' % (w, h))
    x.close(a.E_k(O, ((i, j), (w, h))), np.vdot(v, op(O, sites)).real, 'E_k on %s' % (((i, j), (w, h)),), atol=TOL * N * d**(w * h))
    e = a.contract(((i, j), (w, h)))
    rows = [[r] for r in range(j)] + [list(range(j, j + h))] + [[r] for r in range(j + h, Ly)]
    cols = [[r] for r in range(i)] + [list(range(i, i + w))] + [[r] for r in range(i + w, Lx)]
    order = [r * Lx + s for R in rows for C in cols for r in R for s in C]
    x.require((e.Lx, e.Ly) == (len(cols), len(rows)), 'contracted lattice: size')
    x.close(vec(e.data), v.reshape([d] * (Lx * Ly)).transpose(order).reshape(-1), 'contracted lattice', atol=TOL * N)
    x.close(vec(a.row_contract(j, j + h).data), v.reshape([d] * (Lx * Ly)).transpose(
        [r * Lx + s for R in rows for s in range(Lx) for r in R]).reshape(-1), 'contracted rows', atol=TOL * N)
    x.close(vec(a.col_contract(i, i + w).data), v.reshape([d] * (Lx * Ly)).transpose(
        [r * Lx + s for r in range(Ly) for C in cols for s in C]).reshape(-1), 'contracted columns', atol=TOL * N)
    x.close(vec(a.data), v, 'state unchanged', atol=0)
    # product states
    q = dict(c, h=[1] * 9, v=[1] * 9)
    tp, to = tensors(q, 2), tensors(q, 3)
    p = fPEPS([[t.astype(complex) for t in r] for r in tp]).normalise()
    o = fPEPS([[t.astype(complex) for t in r] for r in to]).normalise()
    r = p.rho(((i, j), (w, h)))
    R = dn.kron(*np.asarray(r).reshape(-1, d, d))
    vp, vo = vec(p.data), vec(o.data)
    x.close(np.linalg.norm(vp), 1, 'product state normalised', atol=1e-8)
    x.close(R, dn.rdm(vp, sites, d, Lx * Ly), 'reduced density matrix of a product state', atol=1e-8)
    x.close(p.E_k(R, ((i, j), (w, h))), 1, 'expectation of its own density matrix', atol=1e-8)
    x.close(p.E(np.asarray(r)[0, 0], (i, j)), 1, 'first site of the block', atol=1e-8)
    r = np.asarray(p.rho_proj(o, ((i, j), (w, h))))
    for n, (a_, b_) in enumerate(itertools.product(range(h), range(w))):
        s, t = p.data[j + a_][i + b_].reshape(-1), o.data[j + a_][i + b_].reshape(-1)
        x.close(r.reshape(-1, d, d)[n], np.outer(s, t.conj()), 'transition density matrix', atol=1e-8)


@PROP.sub('flips', st.builds(lambda c, i, j, f: dict(c, x=i, y=j, f=f), lattice(maxamp=300), st.integers(0, 3), st.integers(0, 3), st.lists(st.sampled_from('TRU'), min_size=1, max_size=5)),
          quick=500, rule='sequences of transpositions and reflections')
def _(c, x):
    interesting(x, c)
    ts = tensors(c)
    a = peps(ts)
    Lx, Ly, d = c['Lx'], c['Ly'], c['d']
    oc = (c['x'] % Lx, c['y'] % Ly)
    a.oc = oc
    G = np.arange(Lx * Ly).reshape(Ly, Lx)
    v = vec(ts)
    b = a
    for f in c['f']:
        b = getattr(b, f)
        G = {'T': G.T, 'R': G[:, ::-1], 'U': G[::-1]}[f]
    x.require((b.Ly, b.Lx) == G.shape and b.d == d and b.X == a.X, 'size after %s' % c['f'])
    x.require(G[b.oc[1], b.oc[0]] == oc[1] * Lx + oc[0], 'orthogonality centre after %s' % c['f'])
    x.close(vec(b.data), v.reshape([d] * (Lx * Ly)).transpose(list(G.reshape(-1))).reshape(-1), 'state after %s' % c['f'], atol=TOL)
    for f in 'TRU':
        x.require(getattr(getattr(a, f), f) == a, '%s twice is the identity' % f)
    k = a.copy()
    x.require(k.oc == oc and k == a, 'copy keeps the orthogonality centre')
    k.oc = (oc[0] + 1, oc[1])
    x.require(not (k == a), 'another centre is not equal')
    n = peps(ts)
    x.require(not (n == a) and not (a == n), 'with and without a centre')
    n.oc = oc
    x.require(n == a and a == n, 'the same centre')
    n.data[-1][-1] = np.pad(n.data[-1][-1], [(0, 1)] + [(0, 0)] * 4)
    n.d = a.d
    x.require(not (n == a), 'another shape')
    # nominal sizes are kept and compared
    n = fPEPS([[t.copy('K') for t in r] for r in ts], d, a.X + 3)
    n.oc = oc
    x.require(n.X == a.X + 3 and not (n == a) and not (a == n), 'another nominal bond dimension')
    for f in c['f']:
        n = getattr(n, f)
    x.require(n.X == a.X + 3 and n.copy().X == a.X + 3, 'nominal bond dimension kept')
    n = peps(ts, d + 1)
    n.oc = oc
    x.require(n.d == d + 1 and not (n == a) and not (a == n), 'another nominal site dimension')
    for f in c['f']:
        n = getattr(n, f)
    x.require(n.d == d + 1 and n.copy().d == d + 1, 'nominal site dimension kept')
    for r, q in zip(a.data, ts):
        for s, t in zip(r, q):
            x.close(s, t, 'state unchanged', atol=0)


@PROP.sub('from_mps', st.builds(lambda c, s: dict(c, given=s), lattice(dmin=2), st.booleans()), quick=400, rule='PEPS that contains an MPS along a snake')
def _(c, x):
    Lx, Ly, d = c['Lx'], c['Ly'], c['d']
    interesting(x, c)
    L = Lx * Ly
    ts = gen.tensors(dict(L=L, d=d, bonds=[c['h'][k % 9] for k in range(L - 1)], kind=c['kind'], seed=c['seed']))
    m = fMPS([t.copy('K') for t in ts], d)
    v = dn.vec(ts)
    p = fPEPS().from_mps(m) if Lx == Ly and c['given'] else fPEPS().from_mps(m, Lx)
    x.require((p.Lx, p.Ly, p.d) == (Lx, Ly, d), 'size')
    x.close(np.reshape(p.recombine('row_snake'), -1), v, 'snake order', atol=TOL)
    order = [j * Lx + (i if j % 2 == 0 else Lx - 1 - i) for j in range(Ly) for i in range(Lx)]
    x.close(vec(p.data), v.reshape([d] * L).transpose(order).reshape(-1), 'reading order', atol=TOL)
    x.close(one(p.norm()), np.linalg.norm(v), 'norm', atol=1e-6)
    for s, t in zip(m.data, ts):
        x.close(s, t, 'MPS unchanged', atol=0)
    if L % (Lx + 1):
        x.raises(AssertionError, lambda: fPEPS().from_mps(m, Lx + 1), 'lengths that do not fit are refused')


@PROP.sub('environment', st.builds(lambda c, i, j: dict(c, x=i, y=j), lattice(Dmax=2), st.integers(0, 3), st.integers(0, 3)), quick=500,
          rule='environment of one site, site given as (row, column)')
def _(c, x):
    interesting(x, c)
    ts = tensors(c)
    a = peps(ts)
    Lx, Ly = c['Lx'], c['Ly']
    i, j = c['x'] % Lx, c['y'] % Ly
    env = a.environment((j, i))
    t = ts[j][i]
    T = np.asarray(a.tm((j, i)))
    x.close(T, np.einsum('sabcd,sefgh->aebfcgdh', t, t.conj()), 'transfer tensor', atol=1e-12)
    x.close(P.transfer_tensor(t), T, 'transfer_tensor', atol=1e-12)
    x.require(env.shape == tuple(k**2 for k in t.shape[1:]), 'shape')
    # the environment does not depend on the tensor itself: put in any other tensor
    for s in (0, 1):
        n = t if s == 0 else gen.arr(c['seed'], t.shape, 'cplx', 77)
        us = [[n if (q, p) == (j, i) else u for p, u in enumerate(r)] for q, r in enumerate(ts)]
        w = vec(us)
        e = np.einsum('sabcd,sefgh->aebfcgdh', n, n.conj()).reshape(env.shape)
        x.close(np.sum(env * e), np.vdot(w, w), 'norm from the environment of %s' % ((j, i),), atol=TOL * max(1, np.vdot(w, w).real))
    x.close(np.vdot(vec(a.data) - vec(ts), vec(a.data) - vec(ts)), 0, 'state unchanged', atol=0)


@PROP.sub('truncate', st.builds(lambda c, ops: dict(c, ops=ops), lattice(minside=2), st.lists(st.tuples(st.sampled_from(['above', 'below', 'left', 'row', 'col', 'fix']), st.integers(0, 3),
                                                                                                         st.integers(0, 3), st.integers(1, 3)), min_size=1, max_size=4)),
          quick=400, rule='bonds cut to a size')
def _(c, x):
    interesting(x, c)
    Lx, Ly = c['Lx'], c['Ly']
    ts = tensors(c)
    a = peps(ts)
    w = [[t.copy('K') for t in r] for r in ts]

    def cut(j, i, leg, D):
        w[j][i] = w[j][i][tuple(slice(None, D) if k == leg else slice(None) for k in range(5))]
    ragged = False
    for f, p, q, D in c['ops']:
        if f == 'above':
            j = 1 + p % (Ly - 1)
            r = a.truncate_above(j, D)
            for i in range(Lx):
                cut(j, i, 1, D)
                cut(j - 1, i, 3, D)
        elif f == 'below':
            j = p % (Ly - 1)
            r = a.truncate_below(j, D)
            for i in range(Lx):
                cut(j, i, 3, D)
                cut(j + 1, i, 1, D)
        elif f == 'left':
            i = 1 + p % (Lx - 1)
            r = a.truncate_left(i, D)
            for j in range(Ly):
                cut(j, i, 4, D)
                cut(j, i - 1, 2, D)
        elif f == 'row':
            j = p % Ly
            r = a.truncate_along_row(j, D)
            for i in range(Lx):
                cut(j, i, 2, D)
                cut(j, i, 4, D)
        elif f == 'col':
            i = p % Lx
            r = a.truncate_along_column(i, D)
            for j in range(Ly):
                cut(j, i, 1, D)
                cut(j, i, 3, D)
        else:
            i, j = p % Lx, q % Ly
            # a tensor that does not fit its neighbours: smaller or larger, leg by leg
            s = [k if (c['seed'] >> (7 + leg)) % 3 == 2 else min(k, D) for leg, k in enumerate(a.data[j][i].shape[1:])]
            t = a.data[j][i][(slice(None),) + tuple(slice(None, k) for k in s)]
            inside = (j > 0, i < Lx - 1, j < Ly - 1, i > 0)
            a.data[j][i] = np.pad(t, [(0, 0)] + [(0, D if z and (c['seed'] >> (7 + leg)) % 3 == 2 else 0) for leg, z in enumerate(inside)], constant_values=7)
            for leg, k in zip((1, 2, 3, 4), s):
                cut(j, i, leg, k)
                J, I, back = [(j - 1, i, 3), (j, i + 1, 4), (j + 1, i, 1), (j, i - 1, 2)][leg - 1]
                if 0 <= J < Ly and 0 <= I < Lx:
                    cut(J, I, back, k)
            r = a.fix_neighbours(i, j)
        x.require(r is a, f + ' works in place')
        for y, z in zip(a.data, w):
            for s, t in zip(y, z):
                x.require(s.shape == t.shape, '%s: shape %s, expected %s' % (f, s.shape, t.shape))
                x.close(s, t, f + ': entries', atol=0)
    x.close(np.reshape(a.recombine(), -1), vec(w), 'truncated state', atol=TOL)
    b = peps(ts)
    x.raises(Exception, lambda: b.truncate_above(0, 1), 'nothing above the first row')
    x.raises(Exception, lambda: b.truncate_below(Ly - 1, 1), 'nothing below the last row')
    x.raises(Exception, lambda: b.truncate_left(0, 1), 'nothing left of the first column')


@st.composite
def mpo(draw):
    L = draw(st.sampled_from([3, 2, 4, 3, 1]))
    dims = lambda: draw(st.lists(st.sampled_from([2, 3, 2, 1]), min_size=L, max_size=L))    # noqa: E731
    return dict(L=L, a=dims(), b=dims(), e=dims(), X=dims(), Y=dims(), seed=draw(gen.seeds), kind=draw(st.sampled_from(['cplx', 'cplx', 'real'])), np=draw(gen.seeds))


def mtensors(c, up, down, X, salt):
    L = c['L']
    b = [1] + X[:L - 1] + [1]
    return [gen.arr(c['seed'], (up[i], b[i + 1], down[i], b[i]), c['kind'], salt + i) for i in range(L)]


def mvec(ts):
    """matrix from upper to lower legs"""
    m = np.ones((1, 1, 1))
    for t in ts:
        m = np.einsum('xyl,urdl->xuydr', m, t)
        m = m.reshape(m.shape[0] * m.shape[1], -1, m.shape[4])
    return m[:, :, 0]


@PROP.sub('mpo', mpo(), quick=250, rule='matrix product operators')
def _(c, x):
    L = c['L']
    A, B = mtensors(c, c['a'], c['b'], c['X'], 0), mtensors(c, c['e'], c['a'], c['Y'], 50)
    x.interesting(L > 1 and c['kind'] == 'cplx' and max(c['X'][:L - 1]) > 1)
    a, b = fMPO([t.copy('K') for t in A]), fMPO([t.copy('K') for t in B])
    MA, MB = mvec(A), mvec(B)
    sc = max(1, abs(MA).max()) * max(1, abs(MB).max()) * MA.shape[0]
    x.require(a.L == L and a.d == A[0].shape[0] and a.X == max(max(t.shape[1:]) for t in A), 'size')
    x.require(a.structure() == [t.shape for t in A], 'structure')
    x.require(str(a.structure()) == str(a), 'printed')
    x.close(a.recombine(), MA.conj().T, 'matrix', atol=TOL * sc)
    ab = a * b
    x.close(ab.recombine(), MA.conj().T @ MB.conj().T, 'product', atol=TOL * sc)
    x.require(ab.X == a.X * b.X and ab.L == L, 'product: size')
    for i, t in enumerate(ab.data):
        x.require(t.shape[1] == A[i].shape[1] * B[i].shape[1] and t.shape[3] == A[i].shape[3] * B[i].shape[3], 'product: bonds')
    for s, t in list(zip(a.data, A)) + list(zip(b.data, B)):
        x.close(s, t, 'factors unchanged', atol=0)
    x.close(fMPO([t.copy('K') for t in A]).transpose_ud().recombine(), MA.conj(), 'upper and lower legs exchanged', atol=TOL * sc)
    r = fMPO([t.copy('K') for t in A]).transpose_lr().reverse()
    k = [int(np.prod(d)) for d in (c['a'], c['b'])]
    M = MA.reshape(c['a'] + c['b']).transpose(list(range(L))[::-1] + list(range(L, 2 * L))[::-1]).reshape(k)
    x.close(r.recombine(), M.conj().T, 'mirrored', atol=TOL * sc)
    for s, t in zip(a.rotate_90().data, A):
        x.close(s, np.einsum('urdl->lurd', t), 'rotated clockwise', atol=0)
    for s, t in zip(a.unrotate_90().data, A):
        x.close(s, np.einsum('urdl->rdlu', t), 'rotated back', atol=0)
    # states
    ts = gen.tensors(dict(L=L, d=c['a'][0], bonds=c['Y'][:L - 1], kind=c['kind'], seed=c['seed'], np=0), 3)
    m = fMPS([t.copy('K') for t in ts], c['a'][0])
    z = fMPO().from_mps(m)
    v = dn.vec(ts)
    x.require(z.L == L and z.d == m.d, 'operator of a state: size')
    x.close(z.recombine().reshape(-1), v.conj(), 'operator of a state', atol=TOL * sc)
    O = mtensors(c, [c['a'][0]] * L, c['b'], c['X'], 90)
    MO = mvec(O)
    for w in (m, z):
        x.close((fMPO([t.copy('K') for t in O]) * w).recombine().reshape(-1), MO.conj().T @ v.conj(), 'operator times state', atol=TOL * max(1, abs(MO).max()) * MO.shape[0])
    np.random.seed(c['np'] % 2**32)
    d, X = c['a'][0], c['X'][0]
    R = fMPO().random(L, d, X)
    x.require((R.L, R.d, R.X) == (L, d, X) and R.structure() == [(d, X if i < L - 1 else 1, d, X if i else 1) for i in range(L)], 'random: structure')
    x.close(R.recombine(), mvec(R.data).conj().T, 'random: matrix', atol=TOL * max(1, abs(mvec(R.data)).max()))
    x.close(fMPO().trivial(L).recombine(), [[1]], 'trivial', atol=0)
