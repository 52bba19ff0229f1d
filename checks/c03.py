"""C03: truncation"""
import numpy as np
from pbt.core import Prop, st
from pbt import gen, dense as dn, chain as ch
from pbt.fmps_common import any_mps, build, chain_shapes_ok, is_entangled
from checks.c02 import check_form, check_envs, check_long
from xmps.fMPS import fMPS

PROP = Prop('C03', 'random and structured MPS truncated to D in 1..8 in each canonical form, starting from '
            'the opposite canonical form (the documented two-sweep use) or from an arbitrary gauge; '
            'non-trivial = the truncation discards Schmidt weight above 1e-6 (or, for the lossless clause, '
            'an entangled state)')
TOL = 1e-6


def trunc(m, form, D, oc):
    if form == 'left':
        return m.left_canonicalise(D), m.L
    if form == 'right':
        return m.right_canonicalise(D), 0
    if form == 'left_nosweep':
        return m.left_canonicalise(D, sweep_back=False), m.L
    if form == 'right_nosweep':
        return m.right_canonicalise(D, sweep_back=False), 0
    if form == 'ctor':
        return fMPS(m.data, D=D), 0
    if form == 'ctor_d':
        return fMPS(m.data, m.d, D), 0
    return m.mixed_canonicalise(oc, D), oc


FORMS = st.sampled_from(['left', 'right', 'left', 'right', 'mixed', 'left_nosweep', 'right_nosweep', 'ctor', 'ctor_d'])


def body(c, x):
    ts = build(c)
    L, d, D = c['L'], c['d'], c['D']
    psi = dn.vec(ts)
    psi = psi / np.linalg.norm(psi)
    if c['seed'] % 3:
        m = fMPS(ts)
    else:       # tensors put into an MPS of other bonds
        b = 1 + c['seed'] % 2 * 5
        m = fMPS([gen.arr(c['seed'], (d, 1 if i == 0 else b, 1 if i == L - 1 else b), 'cplx', 300 + i) for i in range(L)])
        for i, t in enumerate(ts):
            m[i] = t
        x.label('tensors replaced')
    form, oc = c['form'], c['oc'] % L
    if c['prep']:
        m = m.right_canonicalise() if form.startswith('left') else m.left_canonicalise()
    before = [t.shape for t in m.data]
    r, cen = trunc(m, form, D, oc)
    x.label(form, 'prep' if c['prep'] else 'raw', 'D=%d' % D)
    ts2 = [np.asarray(t) for t in r.data]
    if form[:4] != 'ctor':
        x.require(r is m, 'returns the MPS itself')
    x.require(len(r) == L and chain_shapes_ok(ts2), 'bonds do not match along the chain',
              shapes=[t.shape for t in ts2])
    for t, b in zip(ts2, before):
        x.require(max(t.shape[1:]) <= D, 'bond dimension above the requested one', shape=t.shape, D=D)
        x.require(t.shape[0] == b[0] and t.shape[1] <= max(b[1], 1) and t.shape[2] <= max(b[2], 1),
                  'truncation grew a tensor', before=b, after=t.shape)
    x.require(r.bond_dimension <= D and r.D <= D, 'reported bond dimension above the requested one', D=r.D)
    x.require(r.D == r.bond_dimension == max(max(t.shape[1:]) for t in ts2), 'reported bond dimension is not that of the tensors', D=r.D)
    v = dn.vec(ts2)
    n = np.linalg.norm(v)
    # an arbitrary-gauge truncation may legitimately discard everything; nothing to compare then
    if c['prep'] or (np.isfinite(n) and n > 1e-6):
        name = {'ctor': 'right', 'ctor_d': 'right'}.get(form, form)
        if form[:4] != 'ctor':
            check_form(x, r, name, cen, v)
        if form in ('left', 'right', 'ctor', 'ctor_d'):
            check_envs(x, r, name, v, d, L)
    F = abs(np.vdot(psi, v))**2 / n**2
    eps = [1 - np.sum(dn.schmidt(psi, k, d, L)[:D]**2) for k in range(1, L)]
    if c['prep']:
        x.interesting(max(eps, default=0) > 1e-6)
        x.require(F >= 1 - sum(eps) - TOL, 'truncation error above the discarded Schmidt weight',
                  fidelity=F, bound=1 - sum(eps))
        ref, gap = sequential(psi, D, d, L, form.startswith('left'))
        if gap > 1e-3:
            Fr = abs(np.vdot(psi, ref))**2 / np.linalg.norm(ref)**2
            x.require(F >= Fr - TOL, 'less of the state is kept than the dominant Schmidt directions hold',
                      fidelity=F, reference=Fr)
        if L == 2:
            x.close(F, 1 - sum(eps), 'two-site truncation is not optimal', atol=TOL)
    if D >= max(max(s[1:]) for s in before):
        x.label('lossless')
        x.interesting(is_entangled(c))
        x.require(F >= 1 - TOL, 'truncation to at least the present bond dimension changed the state', F=F)


def sequential(psi, D, d, L, left):
    """keep the D dominant Schmidt vectors cut after cut, in sweep order (dense); also the
    smallest relative gap met, since ties make the result ambiguous"""
    v, gap = psi, 1.0
    for k in (range(1, L) if left else range(L - 1, 0, -1)):
        u, s, w = np.linalg.svd(v.reshape(d**k, -1), full_matrices=False)
        if len(s) > D:
            gap = min(gap, (s[D - 1] - s[D]) / s[0] if s[D] > 1e-12 * s[0] else 1.0)
        v = ((u[:, :D] * s[:D]) @ w[:D]).reshape(-1)
    return v, gap


S = lambda prep, **k: st.builds(lambda s, D, f, oc: dict(s, D=D, form=f, oc=oc, prep=prep),
                                any_mps(Dmax=6, **k), st.integers(1, 8), FORMS, st.integers(0, 5))
PROP.sub('two_sweep', S(True, capped=True), quick=700, rule='from the opposite canonical form')(body)
PROP.sub('two_site', S(True, Lmin=2, Lmax=2), quick=200, rule='L=2: Eckart-Young optimal')(body)
PROP.sub('raw', S(False), quick=500, rule='from an arbitrary gauge: bounds, form, losslessness')(body)


@PROP.sub('long', st.builds(lambda s, D, f, oc: dict(s, D=D, form=f, oc=oc), ch.long_mps(capped=True, Dmax=6), st.sampled_from([1, 2, 2, 3, 3, 4, 5, 8]),
                            st.sampled_from(['left', 'right', 'mixed', 'left_nosweep', 'right_nosweep', 'ctor', 'ctor_d']), st.integers(0, 40)), quick=150, thorough=1500,
          rule='chains of 9 to 32 sites, from the opposite canonical form')
def _(c, x):
    ts = ch.build(c)
    L, D = c['L'], c['D']
    form, oc = c['form'], c['oc'] % L
    us = ch.compress(ts)
    w = ch.schmidt(us)
    eps = sum(np.sum(s[D:]**2) for s in w)
    x.interesting(eps > 1e-6)
    x.label(form, 'lossless' if eps < 1e-12 else 'lossy')
    m = fMPS([t.copy('K') for t in ts])
    m = m.right_canonicalise() if form.startswith('left') else m.left_canonicalise()
    r, cen = trunc(m, form, D, oc)
    vs = [np.asarray(t) for t in r.data]
    x.require(len(vs) == L and chain_shapes_ok(vs), 'bonds do not match along the chain')
    x.require(max(max(t.shape[1:]) for t in vs) <= D and r.D == r.bond_dimension <= D, 'bond dimension above the requested one')
    n2 = ch.ov(vs, vs).real
    F = abs(ch.ov(us, vs))**2 / n2 / ch.ov(us, us).real
    x.require(F >= 1 - eps - TOL, 'truncation error above the discarded Schmidt weight', fidelity=F, bound=1 - eps)
    if form[:4] != 'ctor':
        us = ch.compress(vs)
        check_long(x, r, form, cen, us, ch.schmidt(us))
