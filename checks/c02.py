"""C02: canonicalisation without truncation"""
import numpy as np
from pbt.core import Prop, st
from pbt import gen, dense as dn, chain as ch
from pbt.fmps_common import any_mps, build, left_defect, right_defect, chain_shapes_ok, is_entangled
from xmps.fMPS import fMPS, vfMPS

PROP = Prop('C02', 'random MPS (L 1..6, d 2..3, arbitrary or capped bonds, generic/real/integer/graded '
            'entries; GHZ, Bell-pair, W, product, zero-padded and redundantly doubled states; random '
            'overall scale) brought to each canonical or orthogonal form, alone or in sequences; '
            'non-trivial = entangled state on at least two sites')

FORMS = ['left', 'right', 'mixed', 'lorth', 'rorth', 'morth', 'left_nosweep', 'right_nosweep', 'testing_l',
         'testing_r']
TOL = 1e-6


def put(m, form, oc):
    """apply one form; returns the orthogonality centre it promises"""
    L = m.L
    if form == 'left':
        r = m.left_canonicalise(); c = L
    elif form == 'right':
        r = m.right_canonicalise(); c = 0
    elif form == 'testing_l':
        r = m.left_canonicalise(testing=True); c = L
    elif form == 'testing_r':
        r = m.right_canonicalise(testing=True); c = 0
    elif form == 'left_nosweep':
        r = m.left_canonicalise(sweep_back=False); c = L
    elif form == 'right_nosweep':
        r = m.right_canonicalise(sweep_back=False); c = 0
    elif form == 'mixed':
        r = m.mixed_canonicalise(oc); c = oc
    elif form == 'lorth':
        r = m.left_orthogonalise(); c = L
    elif form == 'rorth':
        r = m.right_orthogonalise(); c = 0
    else:
        r = m.mixed_orthogonalise(oc); c = oc
    return r, c


def check_form(x, m, form, c, psi):
    ts = [np.asarray(t) for t in m.data]
    L, d = m.L, psi_d(m)
    x.require(len(ts) == L and chain_shapes_ok(ts), '%s: bond dimensions do not match along the chain' % form,
              shapes=[t.shape for t in ts])
    v = dn.vec(ts)
    x.same_ray(v, psi, '%s changed the represented state' % form, tol=TOL)
    x.close(abs(np.linalg.norm(v)), 1, '%s: norm of the canonical state' % form, rtol=TOL)
    for n in range(L):
        if n < c:
            df = left_defect(occupied(m, form, ts[n], n, True))
            x.require(df < TOL, '%s: site left of the centre is not a left isometry' % form,
                      site=n, centre=c, defect=df)
        if n > c or (c == 0 and form in ('right', 'rorth', 'testing_r', 'right_nosweep')):
            df = right_defect(occupied(m, form, ts[n], n, False))
            x.require(df < TOL, '%s: site right of the centre is not a right isometry' % form,
                      site=n, centre=c, defect=df)
    x.require(m.oc == c, '%s: recorded orthogonality centre' % form, oc=m.oc, want=c)
    x.require(m.orthogonal, '%s: not flagged orthogonal' % form)
    x.require(m.bond_dimension == max(max(t.shape[1:]) for t in ts), '%s: bond_dimension' % form)
    if 'orth' not in form:
        x.require(m.D == m.bond_dimension, '%s: recorded bond dimension' % form, D=m.D)


def occupied(m, form, A, n, left):
    """the part of a site tensor whose bond directions carry Schmidt weight.  The
    environment-diagonal forms may keep directions of numerically zero weight, which are not
    part of the state; every other form has to be an isometry outright."""
    if form in ('left', 'testing_l') and left:
        return A[:, :, np.diag(np.asarray(m.Ls[n + 1])).real > 1e-9]
    if form in ('right', 'testing_r') and not left:
        return A[:, np.diag(np.asarray(m.Ls[n])).real > 1e-9, :]
    return A


def psi_d(m):
    return m.data[0].shape[0]


def check_envs(x, m, form, psi, d, L):
    """Ls: diagonal matrices of squared Schmidt coefficients, one per cut"""
    x.require(len(m.Ls) == L + 1, '%s: one environment per cut' % form, n=len(m.Ls))
    for k, Lk in enumerate(m.Ls):
        Lk = np.asarray(Lk)
        dg = np.diag(Lk)
        x.close(Lk, np.diag(dg), '%s: environment %d is not diagonal' % (form, k), atol=TOL)
        want = np.sort(dn.schmidt(psi, k, d, L)**2)[::-1]
        got = np.sort(dg.real)[::-1]
        n = max(len(want), len(got))
        x.close(np.pad(got, (0, n - len(got))), np.pad(want, (0, n - len(want))),
                '%s: environment at cut %d is not the Schmidt spectrum' % (form, k), atol=TOL)
    for k in range(L):
        A = np.asarray(m.data[k])
        if form in ('right', 'testing_r'):
            e = np.einsum('sab,ac,scd->bd', A.conj(), m.Ls[k], A)
            x.close(e, m.Ls[k + 1], '%s: left environments are not the recorded ones' % form, atol=TOL)
        else:
            e = np.einsum('sab,bc,sdc->ad', A, m.Ls[k + 1], A.conj())
            x.close(e, m.Ls[k], '%s: right environments are not the recorded ones' % form, atol=TOL)


seq = st.lists(st.tuples(st.sampled_from(FORMS), st.integers(0, 5)), min_size=1, max_size=5)
scales = st.sampled_from([1.0, 1.0, 1e-3, 30.0])


def body(c, x):
    f = c['scale']
    ts = [t * f for t in build(c)]
    psi = dn.vec(ts)
    m = fMPS(ts)
    L, d = c['L'], c['d']
    x.interesting(is_entangled(c))
    x.label(c['special'] or 'generic', 'L=%d' % L)
    for i, (form, oc) in enumerate(c['seq']):
        oc = oc % L
        r, cen = put(m, form, oc)
        x.label(form)
        x.require(r is m, '%s returns the MPS itself' % form)
        check_form(x, m, form, cen, psi)
        if form in ('left', 'right', 'testing_l', 'testing_r'):
            x.require(m.canonical, 'not flagged canonical')
            check_envs(x, m, form, psi, d, L)
            if c['special'] is None and c['kind'] in ('cplx', 'real') and form == 'testing_r' and c.get('capped'):
                x.require(m.is_right_canonical and m.is_right_env_canonical and m.ok and m.has_norm_1,
                          'self-test of right canonicality failed')
            if c['special'] is None and c['kind'] in ('cplx', 'real') and form == 'testing_l' and c.get('capped'):
                x.require(m.is_left_canonical and m.is_left_env_canonical and m.ok and m.has_norm_1,
                          'self-test of left canonicality failed')


PROP.sub('forms', st.builds(lambda s, q, f: dict(s, seq=q, scale=f), any_mps(special=False), seq, scales),
         quick=700, rule='generic states')(body)
PROP.sub('forms_structured', st.builds(lambda s, q, f: dict(s, seq=q, scale=f), any_mps(), seq, scales),
         quick=700, rule='degenerate and rank-deficient states')(body)


@PROP.sub('partial', st.builds(lambda s, f, l, f2, j: dict(s, k=f, left=l, scale=f2, j=j), any_mps(Lmin=1), st.integers(0, 7),
                               st.booleans(), scales, st.sampled_from([None, None, 0, 1, 2, 3, 4, 5, 6, 7])), quick=400,
          rule='orthogonalising part of the chain')
def _(c, x):
    ts = [t * c['scale'] for t in build(c)]
    psi = dn.vec(ts)
    L = c['L']
    k = c['k'] % (L + 1)
    m = fMPS(ts)
    x.interesting(is_entangled(c) and 0 < k < L)
    other = [t.copy('K') for t in ts]
    if c['left']:
        a, b = (0, k) if c['j'] is None else sorted((c['j'] % (L + 1), k))
        r = m.left_orthogonalise(to=k) if c['j'] is None else m.left_orthogonalise(a, b) if k % 2 else m.left_orthogonalise(fr=a, to=b)
        for n in range(a, b):
            x.require(left_defect(m[n]) < TOL, 'site is not a left isometry', site=n, fr=a, to=b)
        whole = b == L and a < b
    else:
        a, b = (k, L) if c['j'] is None else sorted((c['j'] % (L + 1), k))
        r = m.right_orthogonalise(fr=k) if c['j'] is None else m.right_orthogonalise(a, b) if k % 2 else m.right_orthogonalise(fr=a, to=b)
        for n in range(a, b):
            x.require(right_defect(m[n]) < TOL, 'site is not a right isometry', site=n, fr=a, to=b)
        whole = a == 0 and a < b
    x.require(r is m, 'returns the state')
    for n in range(L):
        if n < a - (not c['left']) or n > b - 1 + c['left']:
            x.close(m[n], other[n], 'site outside the part and its neighbour is untouched', atol=0)
    x.require(chain_shapes_ok([np.asarray(t) for t in m.data]), 'bond mismatch')
    v = dn.vec(m.data)
    if whole:
        x.same_ray(v / np.linalg.norm(v), psi / np.linalg.norm(psi), 'state', tol=TOL)
    else:
        x.close(v, psi, 'partial orthogonalisation is an exact gauge transformation', rtol=TOL)


@PROP.sub('entropy', any_mps(Lmin=2), quick=300, rule='entanglement entropy across every cut')
def _(c, x):
    ts = build(c)
    psi = dn.vec(ts)
    x.interesting(is_entangled(c))
    m = fMPS(ts)
    for k in range(c['L'] + 1):
        p = dn.schmidt(psi, k, c['d'], c['L'])**2
        p = p[p > 1e-14]
        x.close(m.entanglement_entropy(k), -np.sum(p * np.log(p)), 'entropy at cut %d' % k, atol=3e-6)
    x.same_ray(dn.vec(m.data), psi, 'state after the entropy queries', tol=TOL)


@PROP.sub('vidal', any_mps(special=False, capped=True, kind='cplx'), quick=250,
          rule='Vidal form and back')
def _(c, x):
    ts = build(c)
    psi = dn.vec(ts)
    L, d = c['L'], c['d']
    if min((dn.schmidt(psi, k, d, L)[b - 1] for k, b in enumerate([1] + c['bonds'])), default=1) < 1e-4:
        x.label('ill-conditioned: skipped')
        return
    x.interesting(is_entangled(c))
    m = fMPS(ts)
    v = vfMPS().from_fMPS(m)
    back = v.to_fMPS()
    x.same_ray(dn.vec(back.data), psi, 'Vidal form represents another state', tol=TOL)
    x.require(back == m and len(back) == L, 'back-conversion differs from the canonical MPS')
    for k, (Lam, G) in enumerate(v.data):
        got = np.sort(np.diag(Lam).real)[::-1]
        want = np.sort(dn.schmidt(psi, k, d, L)**2)[::-1][:len(got)]
        x.close(got, want, 'Vidal weights at cut %d' % k, atol=TOL)


def check_long(x, m, form, c, us, w):
    """the same clauses for chains without a state vector: us is a compressed reference, w its Schmidt coefficients"""
    ts = [np.asarray(t) for t in m.data]
    L = m.L
    x.require(len(ts) == L and chain_shapes_ok(ts), '%s: bond dimensions do not match along the chain' % form)
    n2 = ch.ov(ts, ts).real
    x.close(n2, 1, '%s: norm of the canonical state' % form, rtol=TOL)
    x.close(abs(ch.ov(us, ts))**2, ch.ov(us, us).real * n2, '%s changed the represented state' % form, rtol=1e-9)
    for n in range(L):
        if n < c:
            x.require(left_defect(occupied(m, form, ts[n], n, True)) < TOL, '%s: site left of the centre is not a left isometry' % form, site=n)
        if n > c or (c == 0 and form in ('right', 'rorth', 'testing_r', 'right_nosweep')):
            x.require(right_defect(occupied(m, form, ts[n], n, False)) < TOL, '%s: site right of the centre is not a right isometry' % form, site=n)
    x.require(m.oc == c and m.orthogonal, '%s: recorded orthogonality centre' % form, oc=m.oc, want=c)
    x.require(m.bond_dimension == max(max(t.shape[1:]) for t in ts), '%s: bond_dimension' % form)
    if form in ('left', 'right', 'testing_l', 'testing_r'):
        x.require(len(m.Ls) == L + 1, '%s: one environment per cut' % form)
        for k, Lk in enumerate(m.Ls):
            got = np.sort(np.diag(np.asarray(Lk)).real)[::-1]
            n = max(len(got), len(w[k]))
            x.close(np.pad(got, (0, n - len(got))), np.pad(w[k]**2, (0, n - len(w[k]))), '%s: environment at cut %d is not the Schmidt spectrum' % (form, k), atol=TOL)


@PROP.sub('long', st.builds(lambda s, q, f: dict(s, seq=q, scale=f), ch.long_mps(), st.lists(st.tuples(st.sampled_from(FORMS), st.integers(0, 40)), min_size=1, max_size=3),
                            st.sampled_from([1.0, 1.0, 0.5, 3.0])), quick=120, thorough=1200, rule='chains of 9 to 32 sites')
def _(c, x):
    ts = [t * c['scale'] for t in ch.build(c)]
    us = ch.compress(ts)
    w = ch.schmidt(us)
    L = c['L']
    x.interesting(max(len(s) for s in w) > 1)
    x.label(c['special'] or 'generic')
    m = fMPS([t.copy('K') for t in ts])
    for form, oc in c['seq']:
        r, cen = put(m, form, oc % L)
        x.require(r is m, '%s returns the MPS itself' % form)
        check_long(x, m, form, cen, us, w)
    for k in (1, L // 2, c['seed'] % (L + 1)):
        p = w[k][w[k] > 1e-7]**2
        x.close(m.entanglement_entropy(k), -np.sum(p * np.log(p)), 'entropy at cut %d' % k, atol=3e-6)


def _grey(v, lo=1e-9, hi=1e-3):
    return lo < v < hi


@PROP.sub('flags', st.builds(lambda s, q, e, f: dict(s, seq=q, edit=e, scale=f), any_mps(Lmin=1, Lmax=5, maxdim=200),
                             st.lists(st.tuples(st.sampled_from(['left', 'right', 'mixed', 'lorth', 'rorth', 'morth']), st.integers(0, 5)), max_size=2),
                             st.tuples(st.sampled_from(['none', 'none', 'scale', 'gauge', 'site', 'Ls']), st.integers(0, 5)), scales),
          quick=300, rule='the properties an MPS reports about itself are those of its tensors and Schmidt values, and asking changes neither')
def _(c, x):
    m = fMPS([t * c['scale'] for t in build(c)])
    L, d = c['L'], c['d']
    for form, oc in c['seq']:
        put(m, form, oc % L)
    e, i = c['edit'][0], c['edit'][1] % L
    if e == 'scale':
        m[i] = 1.5 * m[i]
    elif e == 'site':
        m[i] = np.asarray(m[i]) + gen.arr(c['seed'], m[i].shape, 'cplx', 77) / 2
    elif e == 'gauge' and i:
        u = gen.unitary(c['seed'], m[i].shape[1], 78)
        m[i - 1], m[i] = m[i - 1] @ u, u.conj().T @ m[i]
    elif e == 'Ls' and hasattr(m, 'Ls'):
        m.Ls[i] = 1.5 * np.asarray(m.Ls[i])
    x.label(e, *[f for f, _ in c['seq']])
    x.interesting(is_entangled(c) and bool(c['seq']))
    ts = [np.array(t) for t in m.data]
    if hasattr(m, 'Ls') and [l.shape[0] for l in m.Ls[:L]] != [t.shape[1] for t in ts] and [len(np.atleast_1d(l)) for l in m.Ls] != [1] + [t.shape[2] for t in ts]:
        x.label('Schmidt values of earlier bonds')       # (kept from a form before the last: no question to ask)
        return
    m.update_properties()
    x.require(all(np.array_equal(a, b) for a, b in zip(ts, m.data)), 'asking changed the tensors')
    want = {'is_left_canonical': max(abs(np.einsum('sab,sac->bc', t.conj(), t) - np.eye(t.shape[2])).max() for t in ts),
            'is_right_canonical': max(abs(np.einsum('sab,scb->ac', t, t.conj()) - np.eye(t.shape[1])).max() for t in ts),
            'has_norm_1': abs(np.linalg.norm(dn.vec(ts))**2 - 1)}
    if hasattr(m, 'Ls'):
        Ls = [np.asarray(l) for l in m.Ls]
        # (the last relation, to the environment of an empty chain, is the norm)
        want['is_right_env_canonical'] = max([0.] + [abs(np.einsum('sab,ac,scd->bd', t.conj(), l, t) - n).max() if l.shape[0] == t.shape[1] and n.shape[0] == t.shape[2] else 9.
                                                    for t, l, n in list(zip(ts, Ls, Ls[1:]))[:-1]])
        want['is_left_env_canonical'] = max([0.] + [abs(np.einsum('sab,bc,sdc->ad', t, l, t.conj()) - n).max() if l.shape[0] == t.shape[2] and n.shape[0] == t.shape[1] else 9.
                                                   for t, l, n in list(zip(ts, Ls[1:], Ls))[:-1]])
        want['has_trace_1'] = max(abs(np.trace(l) - 1) for l in Ls)
        small = min(abs(np.diag(l)).min() for l in Ls)
        if small == 0 or small > 1e-9:
            x.require(bool(m.is_full_rank) == (small > 0), 'is_full_rank with a Schmidt weight %g' % small)
    else:
        for k in ('is_left_env_canonical', 'is_right_env_canonical', 'is_full_rank', 'has_trace_1'):
            x.require(getattr(m, k) is False, '%s without Schmidt values' % k)
    for k, v in want.items():
        if not _grey(v):
            x.require(bool(getattr(m, k)) == (v < 1e-8), '%s with a defect %g' % (k, v), defects={a: float(b) for a, b in want.items()})
            x.label('%s %s' % (k, v < 1e-8))
