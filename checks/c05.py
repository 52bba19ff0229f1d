"""C05: Hilbert-space structure: overlaps, norm, addition, scalar multiplication"""
import numpy as np
from pbt.core import Prop, st
from pbt import gen, dense as dn, chain as ch
from pbt.fmps_common import any_mps, build, is_entangled
from xmps.fMPS import fMPS

PROP = Prop('C05', 'pairs/triples of MPS of equal length and local dimension with unrelated bond dimensions, '
            'random scales and complex scalars, compared with dense vectors; non-trivial = both states '
            'entangled (or the pair has different bond dimensions)')


@st.composite
def pair(draw, Lmin=1, Lmax=6, Dmax=4, maxdim=800, n=2, **k):
    a = draw(any_mps(Lmin=Lmin, Lmax=Lmax, Dmax=Dmax, maxdim=maxdim, **k))
    L = a['L']
    a['others'] = [dict(L=L, d=a['d'], kind=draw(gen.kinds), seed=draw(gen.seeds),
                        special=draw(st.sampled_from([None, None, None, 'ghz', 'padded', 'product'])),
                        bonds=[draw(st.integers(1, Dmax)) for _ in range(L - 1)]) for _ in range(n - 1)]
    a['scale'] = draw(st.sampled_from([1.0, 1.0, 1e-3, 25.0]))
    a['z'] = draw(st.sampled_from([[1.0, 0.0], [0.0, 1.0], [-2.0, 0.5], [0.3, -0.7]]))
    return a


def states(c):
    out = [[t * c['scale'] for t in build(c)]]
    out += [build(o) for o in c['others']]
    return out, [dn.vec(t) for t in out]


def mark(c, x):
    x.interesting(is_entangled(c) and all(is_entangled(o) for o in c['others']))
    x.label('L=%d' % c['L'], c.get('special') or 'generic')


@PROP.sub('overlap', pair(), quick=800, rule='overlap, its conjugate symmetry, full overlap, norm')
def _(c, x):
    (a, b), (u, v) = states(c)
    A, B = fMPS(a), fMPS(b)
    mark(c, x)
    sc = np.linalg.norm(u) * np.linalg.norm(v)
    x.close(A.overlap(B), np.vdot(v, u), 'A.overlap(B) is <B|A>', scale=sc, atol=1e-12)
    x.close(B.overlap(A), np.vdot(u, v), 'B.overlap(A)', scale=sc, atol=1e-12)
    x.close(A.full_overlap(B), np.vdot(u, v), 'full_overlap is <A|B>', scale=sc, atol=1e-12)
    x.close(A.norm(), np.vdot(u, u), 'norm() is <A|A>', atol=1e-12)
    x.close(B.norm(), np.vdot(v, v), 'norm() is <B|B>', atol=1e-12)
    x.close(dn.vec(A.data), u, 'overlap changed its argument', atol=1e-12)
    x.close(dn.vec(B.data), v, 'overlap changed its argument', atol=1e-12)


@PROP.sub('add', pair(n=3, Dmax=3, maxdim=400), quick=700, rule='addition and scalar multiplication as vectors')
def _(c, x):
    ts, (u, v, w) = states(c)
    A, B, C = [fMPS(t) for t in ts]
    z = complex(*c['z'])
    mark(c, x)
    at = 1e-9 * (np.linalg.norm(u) + 1)
    S = A.add(B)
    x.require(len(S) == c['L'] and S.L == c['L'] and S.d == c['d'], 'sum has the same shape')
    x.close(dn.vec(S.data), u + v, 'A.add(B)', atol=at)
    x.close(dn.vec(A.mul(z).data), z * u, 'A.mul(z)', atol=at)
    x.close(dn.vec(A.mul(z).add(B.mul(-1)).add(C).data), z * u - v + w, 'zA - B + C', atol=at)
    x.close(S.overlap(C), np.vdot(w, u + v), 'overlap of a sum', atol=at)
    x.close(dn.vec(A.data), u, 'operand modified', atol=1e-12)
    x.close(dn.vec(B.data), v, 'operand modified', atol=1e-12)
    s = u + v
    if np.linalg.norm(s) > 1e-3 * np.linalg.norm(u):
        x.same_ray(dn.vec(S.left_canonicalise().data), s, 'canonicalised sum', tol=2e-6)
        x.close(dn.vec(A.data), u, 'canonicalising the sum modified an operand', atol=1e-12)


@PROP.sub('itemwise', pair(Dmax=3), quick=250, rule='operators + - * / act tensor by tensor')
def _(c, x):
    a = build(c)
    L = c['L']
    z = complex(*c['z'])
    b = [gen.arr(c['seed'], t.shape, 'cplx', 400 + i) for i, t in enumerate(a)]
    A, B = fMPS(a), fMPS(b)
    mark(c, x)
    for i in range(L):
        x.close((A + B)[i], a[i] + b[i], '+')
        x.close((A - B)[i], a[i] - b[i], '-')
        x.close((A * z)[i], a[i] * z, '*')
        x.close((z * A)[i], a[i] * z, 'right *')
        x.close((A / z)[i], a[i] / z, '/')
    x.close(dn.vec((A * z).data), z**L * dn.vec(a), 'itemwise product scales the state by z**L', atol=1e-12)
    x.require(len(A + B) == L and (A * z).d == c['d'], 'shape')
    x.require(bool(A == fMPS([t.copy('K') for t in a])) and not A != A, 'equal tensors compare equal')
    for i in range(L):
        k = fMPS([t if j != i else t + 0.01 * b[i] for j, t in enumerate(a)])
        x.require(bool(A != k) and bool(k != A) and not A == k, 'states that differ on site %d only compare equal' % i)


@PROP.sub('local_overlap', st.builds(lambda p, k, i: dict(p, k=k, i=i), pair(Lmin=1, Lmax=5, maxdim=250), st.integers(1, 3),
                                     st.integers(0, 4)), quick=400,
          rule='tr(rho_A rho_B) on contiguous sites and its averages over windows')
def _(c, x):
    (a, b), (u, v) = states(c)
    L, d = c['L'], c['d']
    for q in (a, b):       # product states are taken at unit norm per site
        if max(max(t.shape[1:]) for t in q) == 1:
            for i, t in enumerate(q):
                q[i] = t / np.linalg.norm(t)
            x.label('product operand')
    A, B = fMPS(a), fMPS(b)
    k = min(c['k'], L)
    i = c['i'] % (L - k + 1)
    mark(c, x)
    want = lambda s: np.trace(dn.rdm(u, s, d, L) @ dn.rdm(v, s, d, L)).real
    s = list(range(i, i + k))
    x.close(A.local_overlap(B, s), want(s), 'local overlap on %s' % s, atol=2e-6)
    x.close(B.local_overlap(A, s), want(s), 'local overlap on %s (swapped)' % s, atol=2e-6)
    wins = [list(range(j, j + k)) for j in range(L - k + 1)]
    x.close(A.k_local_approx_overlap(B, k), np.mean([want(w) for w in wins]), 'k-local overlap', atol=2e-6)
    x.close(A.approx_overlap(B, wins[:2]), np.mean([want(w) for w in wins[:2]]), 'averaged overlap', atol=2e-6)
    # windows of any kind: disjoint ones that do or do not cover the chain, of different lengths, repeated
    r = gen.rng(c['seed'], 77)
    tiles = [list(range(j, j + k)) for j in range(i % k if i % k + k <= L else 0, L - k + 1, k)]
    mix = [list(range(j, j + int(r.randint(1, min(3, L - j) + 1)))) for j in r.randint(0, L, size=r.randint(1, 5))]
    for As in (tiles, mix):
        x.close(A.approx_overlap(B, As), np.mean([want(w) for w in As]), 'average over the windows %s' % As, atol=2e-6)
    A, B = fMPS(a), fMPS(b)
    x.same_ray(dn.vec(A.data), u, 'operand', tol=1e-6)


@PROP.sub('product', st.builds(lambda p: p, pair()), quick=250, rule='overlap with product states')
def _(c, x):
    (a, _b), (u, _v) = states(c)
    L, d = c['L'], c['d']
    ps = gen.site_states(c['seed'], L, d, 300)
    w = dn.kron(*[p.reshape(-1, 1) for p in ps]).reshape(-1)
    mark(c, x)
    A = fMPS(a)
    P = fMPS().from_product_state(ps)
    x.close(dn.vec(P.data), w, 'product state')
    x.close(A.product_state_overlap(ps), np.vdot(w, u), 'product state overlap',
            scale=np.linalg.norm(u) * np.linalg.norm(w), atol=1e-12)
    Ps = fMPS().from_product_states([ps, ps[::-1]])
    x.require(len(Ps) == 2, 'one MPS per product state')
    x.close(dn.vec(Ps[1].data), dn.kron(*[p.reshape(-1, 1) for p in ps[::-1]]).reshape(-1), 'second product state')


@PROP.sub('copy', pair(), quick=200, rule='a copy is independent of the original')
def _(c, x):
    (a, _b), (u, _v) = states(c)
    d, L = c['d'], c['L']
    A = fMPS([np.array(t) for t in a])
    mark(c, x)
    B = A.copy()
    x.close(dn.vec(B.data), u, 'copy', atol=1e-12)
    B.left_canonicalise(1)
    x.close(dn.vec(A.data), u, 'canonicalising a copy changed the original', atol=1e-12)
    B = A.copy()
    B.E(gen.herm(c['seed'], d), L - 1)
    B.rho([0], single_string=False)
    B[0] = 0 * B[0]
    x.close(dn.vec(A.data), u, 'working on a copy changed the original', atol=1e-12)
    B = A.copy()
    for t in B.data:
        t *= 0
    x.close(dn.vec(A.data), u, 'tensors of a copy scaled in place changed the original', atol=0)
    B = A.copy()
    A.right_canonicalise(1)
    x.close(dn.vec(B.data), u, 'canonicalising the original changed the copy', atol=1e-12)


@PROP.sub('long', st.builds(lambda a, b, s, k, z: dict(a=a, b=dict(b, L=a['L'], d=a['d'], bonds=(b['bonds'] * 4)[:a['L'] - 1]), k=k, i=s, z=z), ch.long_mps(), ch.long_mps(),
                            st.integers(0, 40), st.integers(1, 3), st.sampled_from([[1.0, 0.0], [0.0, 1.0], [-2.0, 0.5]])), quick=60, thorough=600, rule='chains of 9 to 32 sites')
def _(c, x):
    ta, tb = ch.build(c['a']), ch.build(c['b'])
    L, d = c['a']['L'], c['a']['d']
    z = complex(*c['z'])
    A, B = fMPS([t.copy('K') for t in ta], d), fMPS([t.copy('K') for t in tb], d)
    x.interesting(min(max(t.shape[2] for t in q) for q in (ta, tb)) > 1)
    want = ch.ov(tb, ta)
    x.close(A.overlap(B), want, 'overlap', atol=1e-9)
    x.close(B.overlap(A), np.conj(want), 'overlap the other way round', atol=1e-9)
    x.close(A.norm(), ch.ov(ta, ta).real, 'norm', rtol=1e-9)
    S = A.add(B.mul(z))
    vs = [np.asarray(t) for t in S.data]
    ref = ch.add(ta, tb, 1, z)
    x.require(ch.distance(vs, ref) < 1e-6 * (1 + abs(z)), 'sum')
    n = c['k']
    i = c['i'] % (L - n + 1)
    s = list(range(i, i + n))
    pure = [max(max(t.shape[1:]) for t in q) == 1 for q in (ta, tb)]
    if not any(pure):
        x.close(A.local_overlap(B, s), np.trace(ch.rdm(ta, s) @ ch.rdm(tb, s)).real, 'local overlap on %s' % s, atol=2e-6)
        wins = [list(range(j, j + n)) for j in range(L - n + 1)]
        x.close(A.k_local_approx_overlap(B, n), np.mean([np.trace(ch.rdm(ta, w) @ ch.rdm(tb, w)).real for w in wins]), '%d-local overlap' % n, atol=2e-6)
