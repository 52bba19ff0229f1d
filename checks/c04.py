"""C04: expectation values and reduced density matrices after any history"""
import numpy as np
from pbt.core import Prop, st
from pbt import gen, dense as dn, chain as ch
from pbt.fmps_common import any_mps, build, is_entangled
from xmps.fMPS import fMPS

PROP = Prop('C04', 'histories of up to 6 gauge changes, gate applications, edits and queries on a random or '
            'structured MPS, compared after every step with a dense state vector; operators are random '
            'hermitian (complex, so that a transposition shows); non-trivial = entangled state and at least '
            'one in-place change followed by a query')
TOL = 2e-6

CHANGES = ['left', 'right', 'mixed', 'lorth', 'rorth', 'morth', 'lpart', 'rpart', 'apply', 'two', 'set', 'copy', 'mul',
           'ser', 'state_l', 'state_r', 'fresh', 'pair', 'expand', 'sum', 'prod', 'neg', 'entropy', 'random']
QUERIES = ['E', 'E_', 'Es', 'E_k', 'E_ks', 'rho', 'E', 'E_k', 'rho', 'rho1', 'rho1', 'energy']


def change(m, psi, op, c, k):
    """one history step: (mps, dense state), dense up to a factor"""
    name, a, b = op
    L, d = c['L'], c['d']
    i = a % L
    if name == 'left':
        m.left_canonicalise()
    elif name == 'right':
        m.right_canonicalise()
    elif name == 'mixed':
        m.mixed_canonicalise(i)
    elif name == 'lorth':
        m.left_orthogonalise()
    elif name == 'rorth':
        m.right_orthogonalise()
    elif name == 'morth':
        m.mixed_orthogonalise(i)
    elif name == 'lpart':
        m.left_orthogonalise(to=i)
    elif name == 'rpart':
        m.right_orthogonalise(fr=i)
    elif name == 'apply':
        o = gen.op(c['seed'], d, 700 + k, 1. / d)
        m = m.apply((o, i))
        psi = dn.apply_local(psi, o, [i], d, L)
    elif name == 'two':
        if L > 1:
            o = gen.unitary(c['seed'], d * d, 700 + k)
            i = a % (L - 1)
            m.apply_two_site((o, (i, i + 1)), which='lr'[b % 2])
            psi = dn.apply_local(psi, o, [i, i + 1], d, L)
    elif name == 'set':
        o = gen.op(c['seed'], d, 700 + k, 1. / d)
        m[i] = np.tensordot(o, np.asarray(m[i]), [1, 0])
        psi = dn.apply_local(psi, o, [i], d, L)
    elif name == 'copy':
        m = m.copy()
    elif name == 'mul':
        m = m.mul((0.4 + 0.3j) if b % 2 else -2.0)
    elif name == 'ser':
        vec = m.serialize(real=bool(b % 2))
        m = fMPS().deserialize(vec, structure=[t.shape for t in m.data], real=bool(b % 2))
    elif name == 'state_l':
        m = (m if b % 2 else fMPS()).left_from_state(psi.reshape([d] * L))
    elif name == 'state_r':
        m = (m if b % 2 else fMPS()).right_from_state(psi.reshape([d] * L))
    elif name == 'random':
        np.random.seed((c['seed'] + k) % 2**32)
        m = m.random(L, d, 1 + b % 3)
        psi = dn.vec([np.asarray(t) for t in m.data])
    elif name == 'fresh':
        m = fMPS([np.array(t) for t in m.data])
    elif name == 'pair':
        if L > 1:
            o = gen.unitary(c['seed'], d * d, 700 + k)
            j = (i + 1 + b % (L - 1)) % L
            m.apply_two_site((o, (i, j)), which='lr'[a % 2])
            psi = dn.apply_local(psi, o, [i, j], d, L)
    elif name == 'expand':
        m.right_canonicalise().left_canonicalise()      # (no bond larger than it can be)
        m.expand(max([1] + [t.shape[2] for t in m.data]) + b % 3)
    elif name == 'sum':
        if L > 1:
            o = [gen.arr(c['seed'], (d, 1 if j == 0 else 2, 1 if j == L - 1 else 2), 'cplx', 800 + 10 * k + j) for j in range(L)]
            v = dn.vec([np.asarray(t) for t in m.data])
            m = m.add(fMPS(o))
            psi = v + dn.vec(o)
    elif name == 'prod':
        o = gen.site_states(c['seed'] + 4 * b, L, d, 800 + 10 * k)
        m = fMPS().from_product_state(np.array([v if v.dtype == int else v / np.linalg.norm(v) for v in o]))
        psi = dn.kron(*[v[:, None] for v in o])[:, 0] if L > 1 else o[0]
    elif name == 'neg':
        m = (0.5j if b % 2 else -1) * m
    elif name == 'entropy':
        m.entanglement_entropy(i)
    return m, psi


def query(m, psi, op, c, k, x):
    name, a, b = op
    L, d = c['L'], c['d']
    i = a % L
    hm = lambda n, s=0: gen.herm(c['seed'], n, 'cplx', 900 + 10 * k + s)
    if name in ('E', 'E_'):
        o = hm(d)
        got = m.E(o, i) if name == 'E' else m.E_(o, i)
        x.require(np.isrealobj(got), name + ' is a real number', got=got)
        x.close(got, dn.expect(psi, dn.apply_local(psi, o, [i], d, L)).real, '%s at site %d' % (name, i), rtol=TOL,
                atol=TOL)
    elif name == 'Es':
        os_ = [hm(d, s) for s in range(3)]
        want = [dn.expect(psi, dn.apply_local(psi, o, [i], d, L)).real for o in os_]
        x.close(m.Es(os_, i), np.array(want), 'Es at site %d' % i, rtol=TOL, atol=TOL)
    elif name in ('E_k', 'E_ks'):
        n = 1 + b % min(3, L)
        i = a % (L - n + 1)
        sites = list(range(i, i + n))
        if name == 'E_k':
            o = hm(d**n)
            got = m.E_k(o, sites)
        else:
            parts = [hm(d, s) for s in range(n)]
            o = dn.kron(*parts)
            got = m.E_k(parts, sites, single_string=True)
        x.close(got, dn.expect(psi, dn.apply_local(psi, o, sites, d, L)).real, '%s on sites %s' % (name, sites),
                rtol=TOL, atol=TOL)
        x.label('E_k k=%d' % n)
    elif name == 'rho':
        n = 1 + b % min(3, L)
        i = a % (L - n + 1)
        sites = list(range(i, i + n))
        got = m.rho(sites, single_string=False)
        x.close(got, dn.rdm(psi, sites, d, L), 'rho on sites %s' % sites, rtol=TOL, atol=TOL)
    elif name == 'rho1':
        n = 1 + b % min(3, L)
        i = a % (L - n + 1)
        sites = list(range(i, i + n))
        got = m.rho(sites)
        if max(t.shape[2] for t in m.data) == 1:
            x.require(isinstance(got, list) and len(got) == n, 'bond dimension one: a density matrix for each site')
            x.label('product: list of density matrices')
            for s, g in zip(sites, got):
                x.close(g / np.trace(g), dn.rdm(psi, [s], d, L), 'rho of site %d' % s, rtol=TOL, atol=TOL)
        else:
            x.close(got, dn.rdm(psi, sites, d, L), 'rho on sites %s, as asked by default' % sites, rtol=TOL, atol=TOL)
    elif name == 'energy' and L > 1:
        hs = [hm(d * d, s) for s in range(L - 1)]
        n2 = np.linalg.norm(dn.vec([np.asarray(t) for t in m.data]))**2
        want = sum(np.vdot(psi, dn.apply_local(psi, h, [s, s + 1], d, L)).real for s, h in enumerate(hs)) * n2
        x.close(m.energy(dn.chain(hs, d, L), fullH=True), want, 'energy', rtol=TOL, atol=TOL * max(1, n2))


step = st.tuples(st.sampled_from(CHANGES + QUERIES), st.integers(0, 7), st.integers(0, 5))


@PROP.sub('history', st.builds(lambda s, h, q: dict(s, hist=h + [q]),
                               any_mps(Lmax=5, maxdim=300), st.lists(step, min_size=1, max_size=6),
                               st.tuples(st.sampled_from(QUERIES), st.integers(0, 7), st.integers(0, 5))),
          quick=1500, thorough=25000, rule='queries agree with the dense state at every point of a history; '
          'queries and gauge changes never change the state')
def _(c, x):
    ts = build(c)
    psi = dn.vec(ts)
    m = fMPS(ts)
    ch = False
    for k, op in enumerate(c['hist']):
        if op[0] in CHANGES:
            m, psi = change(m, psi, op, c, k)
            n = np.linalg.norm(psi)
            if n < 1e-3:
                return
            psi = psi / n
            ch = True
        else:
            query(m, psi, op, c, k, x)
            if ch:
                x.label('change then ' + op[0])
                x.interesting(is_entangled(c))
        x.label(op[0])
        x.same_ray(dn.vec(m.data), psi, 'state after step %d (%s)' % (k, op[0]), tol=TOL)


@PROP.sub('reuse', st.builds(lambda s, f, r, q: dict(s, first=f, remake=r, queries=q), any_mps(Lmax=5, maxdim=300),
                             st.tuples(st.sampled_from(['left', 'right', 'mixed', 'morth', 'lpart', 'rpart', 'two', 'entropy']), st.integers(0, 7), st.integers(0, 5)),
                             st.tuples(st.sampled_from(['random', 'random', 'state_l', 'state_r', 'set']), st.integers(0, 7), st.sampled_from([1, 3, 5])),
                             st.lists(st.tuples(st.sampled_from(QUERIES), st.integers(0, 7), st.integers(0, 5)), min_size=1, max_size=2)),
          quick=250, rule='an object that is given another state after it was brought to some form answers for the new one')
def _(c, x):
    m = fMPS(build(c))
    psi = dn.vec(m.data)
    for k, op in enumerate([c['first'], c['remake']]):
        m, psi = change(m, psi, op, c, k)
        if np.linalg.norm(psi) < 1e-3:
            return
        psi = psi / np.linalg.norm(psi)
    x.interesting(c['L'] > 1 and c['remake'][0] == 'random')
    x.label(c['first'][0], c['remake'][0])
    for k, op in enumerate(c['queries']):
        query(m, psi, op, c, 2 + k, x)
        x.same_ray(dn.vec(m.data), psi, 'state after asking %s' % op[0], tol=TOL)


@PROP.sub('all_sites', st.builds(lambda s, f, oc: dict(s, form=f, oc=oc), any_mps(Lmin=2, Lmax=5, maxdim=300),
                                 st.sampled_from(['left', 'right', 'mixed', 'morth', 'none']), st.integers(0, 4)),
          quick=150, rule='every site and every contiguous block of a state in a given gauge')
def _(c, x):
    ts = build(c)
    L, d = c['L'], c['d']
    psi = dn.vec(ts)
    m = fMPS(ts)
    m, psi = change(m, psi, (c['form'], c['oc'], 0), c, 0)
    x.interesting(is_entangled(c))
    x.label(c['form'])
    o = gen.herm(c['seed'], d, 'cplx', 5)
    for i in range(L):
        want = dn.expect(psi, dn.apply_local(psi, o, [i], d, L)).real
        for nm, f in (('E', lambda: m.E(o, i)), ('Es', lambda: m.Es([o], i)[0]), ('E_', lambda: m.E_(o, i)),
                      ('E_k', lambda: m.E_k(o, [i])), ('E again', lambda: m.E(o, i))):
            x.close(f(), want, '%s at site %d' % (nm, i), rtol=TOL, atol=TOL)
    for i in range(L):
        for j in range(i + 1, L + 1):
            s = list(range(i, j))
            if d**len(s) <= 81:
                x.close(m.rho(s, single_string=False), dn.rdm(psi, s, d, L), 'rho %s' % s, rtol=TOL, atol=TOL)


@PROP.sub('full_operator', any_mps(Lmax=5, maxdim=120), quick=200,
          rule='E_L: <psi|O|psi> of the represented vector for an operator on the whole chain')
def _(c, x):
    ts = build(c)
    L, d = c['L'], c['d']
    psi = dn.vec(ts)
    m = fMPS(ts)
    x.interesting(is_entangled(c))
    o = gen.herm(c['seed'], d**L, 'cplx', 5)
    x.close(m.E_L(o), np.vdot(psi, o @ psi).real, 'E_L', rtol=TOL, atol=TOL)
    x.close(m.energy(o, fullH=True), np.vdot(psi, o @ psi).real, 'energy of a full Hamiltonian', rtol=TOL, atol=TOL)
    m.left_canonicalise()
    x.close(m.E_L(o), dn.expect(psi, o @ psi).real, 'E_L after canonicalisation', rtol=TOL, atol=TOL)


@PROP.sub('energy', st.builds(lambda s, f: dict(s, form=f), any_mps(Lmin=2, Lmax=6, maxdim=300),
                              st.sampled_from(['left', 'right', 'state_l', 'state_r'])), quick=300,
          rule='energy of a nearest-neighbour Hamiltonian (different term on every bond)')
def _(c, x):
    ts = build(c)
    L, d = c['L'], c['d']
    psi = dn.vec(ts)
    psi = psi / np.linalg.norm(psi)
    m, _ = change(fMPS(ts), psi, (c['form'], 0, 0), c, 0)
    H = [gen.herm(c['seed'], d * d, 'cplx', 10 + i) for i in range(L - 1)]
    want = sum(np.vdot(psi, dn.apply_local(psi, h, [i, i + 1], d, L)).real for i, h in enumerate(H))
    x.interesting(is_entangled(c))
    x.label(c['form'])
    x.close(m.energy(H), want, 'energy', rtol=TOL, atol=TOL)
    x.close(m.energy(dn.chain(H, d, L), fullH=True), want, 'energy of the same Hamiltonian given in full',
            rtol=TOL, atol=TOL)


@PROP.sub('product', gen.fd(L=st.integers(1, 6), d=st.integers(2, 3), seed=gen.seeds, k=st.integers(1, 4), i=st.integers(0, 5)),
          quick=150, rule='product states: list of one-site density matrices; |self><other| reduced to sites')
def _(c, x):
    L, d = c['L'], c['d']
    vs = gen.site_states(c['seed'], L, d)
    vs = [v if v.dtype == int else v / np.linalg.norm(v) for v in vs]
    ws = gen.site_states(c['seed'] // 16, L, d, 50)
    m, w = fMPS().from_product_state(vs), fMPS().from_product_state(ws)
    k = min(c['k'], L)
    i = c['i'] % (L - k + 1)
    sites = list(range(i, i + k))
    x.interesting(L > 1)
    psi = dn.kron(*[v.reshape(-1, 1) for v in vs]).reshape(-1)
    phi = dn.kron(*[v.reshape(-1, 1) for v in ws]).reshape(-1)
    x.close(dn.vec(m.data), psi, 'product state')
    r = m.rho(sites)
    x.require(len(r) == k, 'one density matrix per site')
    for a, s in zip(r, sites):
        x.close(a, dn.rdm(psi, [s], d, L), 'density matrix of site %d' % s)
    r = m.rho_proj(w, sites)
    t = np.outer(psi, phi.conj()).reshape([d] * (2 * L))
    for s in reversed([s for s in range(L) if s not in sites]):
        t = np.trace(t, axis1=s, axis2=s + t.ndim // 2)
    x.close(np.asarray(r), t.reshape(d**k, d**k), 'partial trace of |self><other|')


@PROP.sub('long', st.builds(lambda s, h, q: dict(s, hist=h, queries=q), ch.long_mps(),
                            st.lists(st.tuples(st.sampled_from(['left', 'right', 'mixed', 'lorth', 'rorth', 'morth', 'lpart', 'rpart', 'apply', 'pair', 'set', 'copy', 'mul', 'ser', 'fresh']),
                                               st.integers(0, 40), st.integers(0, 40)), max_size=4),
                            st.lists(st.tuples(st.sampled_from(['E', 'E_', 'Es', 'E_k', 'E_ks', 'rho']), st.integers(0, 40), st.integers(0, 5)), min_size=1, max_size=4)),
          quick=120, thorough=1500, rule='chains of 9 to 32 sites')
def _(c, x):
    ts = ch.build(c)
    L, d = c['L'], c['d']
    us = ch.compress(ts)
    m = fMPS([t.copy('K') for t in ts])
    x.interesting(max(t.shape[2] for t in us) > 1)
    for k, (name, a, b) in enumerate(c['hist']):
        i = a % L
        x.label(name)
        if name in ('apply', 'set'):
            o = np.eye(d) / 2 + gen.op(c['seed'], d, 700 + k, 1. / d)
            us = ch.acted(us, {i: o})
            if name == 'apply':
                m = m.apply((o, i))
            else:
                m[i] = np.tensordot(o, np.asarray(m[i]), [1, 0])
        elif name == 'pair':
            o = gen.unitary(c['seed'], d * d, 700 + k)
            j = (i + 1 + b % (L - 1)) % L if b % 3 == 0 else (i + 1 if i + 1 < L else i - 1)
            m.apply_two_site((o, (i, j)), which='lr'[b % 2])
            us = ch.two(us, o, i, j)
        else:
            m, _ = change(m, None, (name, a, b), c, k)
        us = ch.compress(us)
    for k, (name, a, b) in enumerate(c['queries']):
        x.label(name)
        n = 1 + b % 3
        i = a % (L - n + 1)
        s = list(range(i, i + n))
        if name in ('E', 'E_', 'Es'):
            o = gen.herm(c['seed'], d, 'cplx', 900 + k)
            got = {'E': lambda: m.E(o, i), 'E_': lambda: m.E_(o, i), 'Es': lambda: m.Es([o], i)[0]}[name]()
            x.close(got, np.trace(o @ ch.rdm(us, [i])).real, '%s at site %d' % (name, i), rtol=TOL, atol=TOL)
        elif name == 'E_k':
            o = gen.herm(c['seed'], d**n, 'cplx', 900 + k)
            x.close(m.E_k(o, s), np.trace(o @ ch.rdm(us, s)).real, 'E_k on %s' % s, rtol=TOL, atol=TOL)
        elif name == 'E_ks':
            o = [gen.herm(c['seed'], d, 'cplx', 900 + 10 * k + q) for q in range(n)]
            x.close(m.E_k(o, s, single_string=True), np.trace(dn.kron(*o) @ ch.rdm(us, s)).real, 'string on %s' % s, rtol=TOL, atol=TOL)
        else:
            x.close(m.rho(s, single_string=False), ch.rdm(us, s), 'rho on %s' % s, rtol=TOL, atol=TOL)
        vs = [np.asarray(t) for t in m.data]
        x.close(abs(ch.ov(us, vs))**2 / ch.ov(us, us).real / ch.ov(vs, vs).real, 1, 'state after asking %s' % name, atol=1e-8)
