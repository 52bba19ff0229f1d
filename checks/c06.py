"""C06: gates and projections"""
import numpy as np
from pbt.core import Prop, st
from pbt import gen, dense as dn, chain as ch
from pbt.fmps_common import any_mps, build, is_entangled, chain_shapes_ok, left_defect, right_defect
from xmps.fMPS import (fMPS, group_tensors, separate_tensor_qr, separate_tensor_rq, separate_tensor_svd, apply_unitary,
                       factors)

PROP = Prop('C06', 'random MPS and random circuits of one- and two-site gates (any pair of distinct sites in either '
            'order, unitary or not), basis-state projections, and truncating gates, compared with the gate '
            'applied to the dense vector; non-trivial = a two-site gate on an entangled state')
TOL = 2e-6


def gate(c, k, n):
    if c['unitary']:
        return gen.unitary(c['seed'], n, 100 + k)
    return gen.op(c['seed'], n, 100 + k, 1. / n)


@PROP.sub('apply', st.builds(lambda s, i, u: dict(s, i=i, unitary=u), any_mps(), st.integers(0, 5), st.booleans()), quick=300,
          rule='one-site gate; the original is untouched')
def _(c, x):
    ts = build(c)
    L, d = c['L'], c['d']
    psi = dn.vec(ts)
    i = c['i'] % L
    o = gate(c, 0, d)
    m = fMPS(ts)
    r = m.apply((o, i))
    x.interesting(is_entangled(c))
    x.close(dn.vec(r.data), dn.apply_local(psi, o, [i], d, L), 'apply', atol=1e-9)
    x.close(dn.vec(m.data), psi, 'apply changed the original', atol=1e-12)
    x.require([t.shape for t in r.data] == [t.shape for t in ts], 'one-site gates keep the bond dimensions')
    r = m.apply_two_site((o, [i]))
    x.close(dn.vec(r.data), dn.apply_local(psi, o, [i], d, L), 'one-site operator given to the two-site routine', atol=1e-9)
    if L > 1:
        j = (i + 1) % L
        for w, s in (('l', i), ('r', j)):
            r = fMPS([np.array(t) for t in ts]).apply_two_site((o, (i, j)), which=w)
            x.close(dn.vec(r.data), dn.apply_local(psi, o, [s], d, L), 'one-site operator on the chosen one of two sites',
                    atol=1e-9)


@PROP.sub('adjacent', st.builds(lambda s, q, u, f: dict(s, gates=q, unitary=u, flip=f), any_mps(Lmin=2),
                                st.lists(st.tuples(st.integers(0, 5), st.integers(0, 1), st.booleans()), min_size=1, max_size=4),
                                st.booleans(), st.just(0)), quick=500, rule='nearest-neighbour gates, either order of the sites')
def _(c, x):
    ts = build(c)
    L, d = c['L'], c['d']
    psi = dn.vec(ts)
    m = fMPS(ts)
    x.interesting(is_entangled(c))
    for k, (i, w, flip) in enumerate(c['gates']):
        i = i % (L - 1)
        sites = (i + 1, i) if flip else (i, i + 1)
        o = gate(c, k, d * d)
        r = m.apply_two_site((o, sites), which='lr'[w])
        psi = dn.apply_local(psi, o, sites, d, L)
        x.require(r is m, 'two-site gates act in place and return the MPS')
        x.require(chain_shapes_ok([np.asarray(t) for t in m.data]), 'bond mismatch')
        x.close(dn.vec(m.data), psi, 'two-site gate on %s' % (sites,), atol=1e-8)
        if w == 0:
            x.require(left_defect(m[i]) < TOL, "which='l' leaves a left isometry on the left site")
        else:
            x.require(right_defect(m[i + 1]) < TOL, "which='r' leaves a right isometry on the right site")


@PROP.sub('long_range', st.builds(lambda s, q, u: dict(s, gates=q, unitary=u), any_mps(Lmin=2, Lmax=6, dmax=3, Dmax=3, maxdim=250),
                                  st.lists(st.tuples(st.integers(0, 5), st.integers(1, 5), st.integers(0, 1)), min_size=1,
                                           max_size=3), st.booleans()),
          quick=500, rule='gates between any two sites in either order')
def _(c, x):
    ts = build(c)
    L, d = c['L'], c['d']
    psi = dn.vec(ts)
    m = fMPS(ts)
    x.interesting(is_entangled(c))
    for k, (i, s, w) in enumerate(c['gates']):
        i = i % L
        j = (i + 1 + s % (L - 1)) % L
        o = gate(c, k, d * d)
        m.apply_two_site((o, (i, j)), which='lr'[w])
        psi = dn.apply_local(psi, o, [i, j], d, L)
        x.label('distance %d' % abs(i - j), 'reversed' if j < i else 'ordered')
        x.close(dn.vec(m.data), psi, 'gate on sites (%d, %d)' % (i, j), atol=1e-8)


@PROP.sub('truncating', st.builds(lambda s, i, w, D, t: dict(s, i=i, w=w, D=D, unitary=True, tr=t),
                                  any_mps(Lmin=2, dmax=3, Dmax=4), st.integers(0, 5), st.integers(0, 1), st.integers(1, 12),
                                  st.booleans()),
          quick=500, rule='gate with a bond-dimension limit, at the orthogonality centre: optimal, normalised')
def _(c, x):
    ts = build(c)
    L, d, D = c['L'], c['d'], c['D']
    psi = dn.vec(ts)
    i = c['i'] % (L - 1)
    m = fMPS(ts).mixed_orthogonalise(i)
    o = gate(c, 0, d * d)
    phi = dn.apply_local(psi, o, [i, i + 1], d, L)
    phi = phi / np.linalg.norm(phi)
    m.apply_two_site((o, (i, i + 1)), 'lr'[c['w']], D, truncate_swaps=c['tr'])
    s = dn.schmidt(phi, i + 1, d, L)
    keep = np.sum(s[:D]**2)
    x.interesting(is_entangled(c) and keep < 1 - 1e-6)
    x.require(m[i].shape[2] <= D and m[i].shape[2] == m[i + 1].shape[1], 'bond limit', shape=m[i].shape, D=D)
    v = dn.vec(m.data)
    x.close(np.linalg.norm(v), 1, 'truncated state is normalised', atol=TOL)
    x.close(abs(np.vdot(v, phi))**2, keep, 'fidelity of the truncated gate is the kept Schmidt weight', atol=TOL)
    if c['w'] == 0:
        x.require(left_defect(m[i]) < TOL, 'left isometry')
    else:
        x.require(right_defect(m[i + 1]) < TOL, 'right isometry')


@PROP.sub('long_truncating', st.builds(lambda s, i, j, w, t, f, D: dict(s, i=i, j=j, w=w, unitary=True, tr=t, form=f, D=D),
                                       any_mps(Lmin=3, Lmax=5, dmax=3, Dmax=3, maxdim=250), st.integers(0, 5), st.integers(1, 5), st.integers(0, 1),
                                       st.booleans(), st.integers(0, 2), st.sampled_from([64, 64, 1, 2, 3])),
          quick=300, rule='long-range gate: exact with a limit no smaller than the Hilbert space needs; smaller limits are respected')
def _(c, x):
    ts = build(c)
    L, d = c['L'], c['d']
    psi = dn.vec(ts)
    i = c['i'] % L
    j = (i + 1 + c['j'] % (L - 1)) % L
    D = c['D']
    m = fMPS([t.copy('K') for t in ts])
    o = gate(c, 0, d * d)
    m.apply_two_site((o, (i, j)), 'lr'[c['w']], D, truncate_swaps=c['tr'])
    x.interesting(is_entangled(c))
    lo, hi = min(i, j), max(i, j)
    x.require(chain_shapes_ok([np.asarray(t) for t in m.data]), 'bond mismatch')
    if D >= 64:
        x.same_ray(dn.vec(m.data), dn.apply_local(psi, o, [i, j], d, L), 'gate on (%d, %d)' % (i, j), tol=TOL)
    elif c['tr'] or hi == lo + 1:
        x.label('limited')
        x.require(max(m[n].shape[2] for n in range(lo, hi)) <= D, 'bond limit', shapes=[t.shape for t in m.data], D=D)
    if D < 64 and not c['tr'] and hi > lo + 1:
        # the limit applies to the gate only: the exact exchanges that carry the sites together and back are not truncated
        x.label('gate truncated, exchanges exact')
        S = np.eye(d * d).reshape([d] * 4).transpose(1, 0, 2, 3).reshape(d * d, d * d)
        w = 'lr'[c['w']]
        r = fMPS([t.copy('K') for t in ts])
        for n in reversed(range(lo + 1, hi)):
            r.apply_two_site((S, (n, n + 1)), w)
        theta = np.tensordot(o if i < j else S @ o @ S, dn.block([r[lo], r[lo + 1]]), [1, 0])
        s = np.linalg.svd(theta.reshape(d, d, *theta.shape[1:]).transpose(0, 2, 1, 3).reshape(d * theta.shape[1], -1), compute_uv=False)
        if len(s) > D and s[D - 1] - s[D] < 1e-3 * s[0]:
            return
        r.apply_two_site((o, (lo, lo + 1) if i < j else (lo + 1, lo)), w, D)
        for n in range(lo + 1, hi):
            r.apply_two_site((S, (n, n + 1)), w)
        x.close(dn.vec(m.data), dn.vec(r.data), 'gate on (%d, %d) with a limit on the gate' % (i, j), atol=TOL, rtol=TOL)


@PROP.sub('post_select', st.builds(lambda s, q: dict(s, q=q), any_mps(Lmin=2), st.lists(st.tuples(st.integers(0, 5), st.integers(0, 2)),
                                                                                       min_size=1, max_size=4)),
          quick=400, rule='projection on a basis state removes the site; repeated down to one site; queries afterwards')
def _(c, x):
    ts = build(c)
    L, d = c['L'], c['d']
    psi = dn.vec(ts)
    m = fMPS(ts)
    if c['seed'] % 2:
        m.right_canonicalise()
        psi = dn.vec(m.data)
    x.interesting(is_entangled(c))
    for i, w in c['q']:
        if L == 1:
            break
        i, w = i % L, w % d
        r = m.post_select(i, w)
        x.require(r is m, 'returns the MPS')
        psi = np.take(psi.reshape([d] * L), w, axis=i).reshape(-1)
        L -= 1
        x.require(len(m) == L and m.L == L, 'one site fewer', L=m.L)
        x.close(dn.vec(m.data), psi, 'projected state', atol=1e-9)
        if np.linalg.norm(psi) > 1e-2:
            x.close(m.recombine().reshape(-1), psi, 'recombine after projection', atol=1e-9)
            if i != 1:
                o = gen.herm(c['seed'], d)
                x.close(m.E(o, 0), dn.expect(psi, dn.apply_local(psi, o, [0], d, L)).real, 'E after projection', atol=TOL, rtol=TOL)
                psi = dn.vec(m.data)
                x.label('queried')
        else:
            break


@PROP.sub('split', gen.fd(d=st.integers(2, 4), a=st.integers(1, 5), b=st.integers(1, 5), m=st.integers(1, 5), seed=gen.seeds,
                          kind=gen.kinds, D=st.integers(1, 20)), quick=400,
          rule='two-site tensors: group, split by QR / RQ / SVD, recombine')
def _(c, x):
    d, a, b, m = c['d'], c['a'], c['b'], c['m']
    A, B = gen.arr(c['seed'], (d, a, m), 'cplx', 1), gen.arr(c['seed'], (d, m, b), 'cplx', 2)
    x.interesting(min(a, b, m) > 1)
    M = np.einsum('iab,jbc->ijac', A, B).reshape(d * d, a, b)
    x.close(group_tensors([A, B]), M, 'group_tensors')
    for nm, f in (('qr', separate_tensor_qr), ('rq', separate_tensor_rq)):
        P, Q = f(M)
        x.close(dn.block([P, Q]), M, 'split by %s' % nm)
        x.require(P.shape[2] == Q.shape[1] == min(d * a, d * b), 'bond made by %s' % nm, shape=P.shape)
        x.require((left_defect(P) if nm == 'qr' else right_defect(Q)) < TOL, nm + ' isometry')
    full = M.reshape(d, d, a, b).transpose(0, 2, 1, 3).reshape(d * a, d * b)
    u, s, v = np.linalg.svd(full, full_matrices=False)
    D = c['D']
    best = ((u[:, :D] * s[:D]) @ v[:D]).reshape(d, a, d, b).transpose(0, 2, 1, 3).reshape(d * d, a, b) / np.linalg.norm(s[:D])
    for w in 'lr':
        P, Q = separate_tensor_svd(M, None, w)
        x.close(dn.block([P, Q]), M / np.linalg.norm(s), 'split by svd', atol=TOL)
        x.require(P.shape[2] == Q.shape[1] == min(d * a, d * b), 'bond made by svd', shape=P.shape)
        P, Q = separate_tensor_svd(M, D, w)
        x.require(P.shape[2] == Q.shape[1] <= D, 'bond', shape=P.shape)
        if len(s) <= D or s[D - 1] - s[D] > 1e-3 * s[0]:
            x.close(dn.block([P, Q]), best, 'split by truncated svd is the best normalised approximation', atol=TOL)
        x.require((left_defect(P) if w == 'l' else right_defect(Q)) < TOL, 'svd isometry')
    x.require(list(factors(d * d)) == [d, d], 'factors of a square')
    U = gen.unitary(c['seed'], d * d, 9)
    P, Q = apply_unitary([A, B], U, 'lr'[c['seed'] % 2])
    x.close(dn.block([P, Q]), np.tensordot(U, M, [1, 0]), 'apply_unitary')


@PROP.sub('long_chain', st.builds(lambda s, q, f, p: dict(s, gates=q, form=f, site=p), ch.long_mps(Dmax=3, dmax=2), st.lists(st.tuples(st.integers(0, 40), st.integers(0, 40), st.integers(0, 1)),
                                  min_size=1, max_size=3), st.sampled_from(['N', 'L', 'R', 'M']), st.integers(0, 40)), quick=100, thorough=1000, rule='chains of 9 to 32 sites')
def _(c, x):
    ts = ch.build(c)
    L, d = c['L'], c['d']
    m = fMPS([t.copy('K') for t in ts], d)
    {'N': lambda: m, 'L': m.left_canonicalise, 'R': m.right_canonicalise, 'M': lambda: m.mixed_canonicalise(c['site'] % L)}[c['form']]()
    us = ch.compress(ts)
    x.interesting(max(t.shape[2] for t in us) > 1)
    for k, (i, s, w) in enumerate(c['gates']):
        i = i % L
        j = (i + 1 + s % (L - 1)) % L
        if s % 2:
            j = i + 1 if i + 1 < L else i - 1
        o = gen.unitary(c['seed'], d * d, 60 + k)
        m.apply_two_site((o, (i, j)), 'lr'[w])
        us = ch.compress(ch.two(us, o, i, j))
        x.label('neighbours' if abs(i - j) == 1 else 'distance 2-8' if abs(i - j) < 9 else 'farther')
        o = gen.unitary(c['seed'], d, 80 + k)
        m = m.apply((o, s % L))
        us = ch.acted(us, {s % L: o})
        vs = [np.asarray(t) for t in m.data]
        x.require(chain_shapes_ok(vs), 'bond mismatch')
        x.close(abs(ch.ov(us, vs))**2, ch.ov(us, us).real * ch.ov(vs, vs).real, 'gate on (%d, %d)' % (i, j), rtol=1e-9)
        if c['form'] == 'N':
            x.close(ch.ov(us, vs), ch.ov(us, us).real, 'gate on (%d, %d): phase' % (i, j), rtol=1e-6)
