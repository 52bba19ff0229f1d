"""C11: Hamiltonians given by strings of Pauli matrices"""
import itertools
import numpy as np
from pbt.core import Prop, st
from pbt import gen, dense as dn
from xmps.Hamiltonians import Hamiltonian
from xmps.fMPS import fMPS

PROP = Prop('C11', 'random sets of two-site Pauli strings and fields with random real couplings, chains of 2..7 sites, '
            'call histories; non-trivial = at least one coupling and one field')
TOL = 2e-9
PAIRS = [a + b for a, b in itertools.product('XYZ', 'XYZ')]

vals = st.sampled_from([-2.0, -1.0, -0.5, 0.0, 0.25, 1.0, 1.7, 3.0, 4e-5, -2e-7, 70.0])
pair_strings = st.dictionaries(st.sampled_from(PAIRS), vals, max_size=4)
fields = st.dictionaries(st.sampled_from('XYZ'), vals, max_size=3)
heis_strings = st.dictionaries(st.sampled_from(['XX', 'YY', 'ZZ']), vals, max_size=3)


def fd(**k):
    return gen.fd(**k)


def want_full(pairs, fl, L):
    H = np.zeros((2**L, 2**L), complex)
    for s, J in pairs.items():
        o = np.kron(dn.PAULI[s[0]], dn.PAULI[s[1]])
        for i in range(L - 1):
            H += J * dn.embed(o, i, 2, L)
    for s, h in fl.items():
        for i in range(L):
            H += h * dn.embed(dn.PAULI[s], i, 2, L)
    return H


def spec(pairs, fl, form):
    """the two documented ways to write a uniform field"""
    d = dict(pairs)
    for s, h in fl.items():
        if form == 'single':
            d[s] = h
        else:
            d['I' + s] = h
            d[s + 'I'] = h
    return d


@PROP.sub('chain', fd(pairs=pair_strings, fields=fields, L=st.sampled_from([2, 3, 4, 5, 6, 7] * 3 + [8, 9]), form=st.sampled_from(['single', 'pairs'])), quick=300,
          rule='local terms of a chain add up to the Hamiltonian the strings spell')
def _(c, x):
    s = spec(c['pairs'], c['fields'], c['form'])
    keep = dict(s)
    H = Hamiltonian(s)
    L = c['L']
    x.interesting(any(c['pairs'].values()) and any(c['fields'].values()))
    x.require(s == keep, 'the dictionary given was changed', got=s)
    m = H.to_matrices(L)
    x.require(len(m) == L - 1, 'one term per bond', got=len(m))
    for h in m:
        x.require(np.shape(h) == (4, 4), 'two-site terms')
        x.close(h, np.conj(h).T, 'hermitian terms', atol=TOL)
    want = want_full(c['pairs'], c['fields'], L)
    x.close(dn.chain(m, 2, L), want, 'sum of the local terms (L = %d)' % L, atol=TOL)
    x.close(H.to_matrix(), sum([J * np.kron(dn.PAULI[k[0]], dn.PAULI[k[1]]) for k, J in spec(c['pairs'], c['fields'], 'pairs').items()],
                               np.zeros((4, 4))), 'two-site matrix', atol=TOL)
    x.close(dn.chain(H.to_matrices(L), 2, L), want, 'asked for again', atol=TOL)
    if L <= 5:
        ts = [gen.arr(c['np'], (2, 1 if i == 0 else 2, 1 if i == L - 1 else 2), 'cplx', i) for i in range(L)]
        psi = dn.vec(ts)
        ts[0] = ts[0] / np.linalg.norm(psi)
        psi = psi / np.linalg.norm(psi)
        mps = fMPS(ts).left_canonicalise()
        x.close(mps.energy(m), np.vdot(psi, want @ psi).real, 'energy of a state', atol=1e-7)


@PROP.sub('mpo', fd(pairs=heis_strings, fields=fields, L=st.integers(1, 6), form=st.sampled_from(['single', 'pairs']),
                    bad=st.sampled_from([None] * 4 + ['XY', 'ZX', 'asym'])), quick=200,
          rule='matrix product operator of a Heisenberg-type Hamiltonian; others are refused')
def _(c, x):
    s = spec(c['pairs'], c['fields'], c['form'])
    L = c['L']
    if c['bad'] == 'asym':
        s.pop('X', None)
        s['IX'], s['XI'] = 1.0, 0.5
    elif c['bad']:
        s[c['bad']] = 1.0
    H = Hamiltonian(s)
    if c['bad']:
        x.label('refused')
        x.raises(NotImplementedError, lambda: H.to_mpo(L), 'a Hamiltonian the operator form does not cover')
        return
    x.interesting(L > 2 and any(c['pairs'].values()))
    Ws = H.to_mpo(L)
    x.require(len(Ws) == L, 'one tensor per site')
    x.close(contract(Ws), want_full(c['pairs'], c['fields'], L), 'contracted operator (L = %d)' % L, atol=TOL)


@PROP.sub('long', fd(pairs=pair_strings, heis=heis_strings, fields=fields, L=st.integers(2, 80), again=st.integers(0, 80), form=st.sampled_from(['single', 'pairs']), seed=gen.seeds), quick=300,
          rule='chains of up to 80 sites: Pauli components of every term, product states in the matrix product operator')
def _(c, x):
    L = c['L']
    x.interesting(L > 9 and any(c['pairs'].values()) and any(c['fields'].values()))
    H = Hamiltonian(spec(c['pairs'], c['fields'], c['form']))
    for L in [L] + ([c['again']] if c['again'] > 1 else []):
        m = H.to_matrices(L)
        x.require(len(m) == L - 1, 'one term per bond', got=len(m))
        site = np.zeros((L, 3))
        for b, h in enumerate(m):
            p = np.array([[np.trace(np.kron(dn.PAULI[i], dn.PAULI[j]) @ h) / 4 for j in 'IXYZ'] for i in 'IXYZ'])
            x.close(p[1:, 1:], [[c['pairs'].get(i + j, 0) or 0 for j in 'XYZ'] for i in 'XYZ'], 'couplings on bond %d of %d sites' % (b, L), atol=TOL)
            x.close(p[0, 0], 0, 'no constant', atol=TOL)
            x.close(p.imag, 0 * p.imag, 'hermitian', atol=TOL)
            site[b] += p.real[1:, 0]
            site[b + 1] += p.real[0, 1:]
        x.close(site, [[c['fields'].get(i, 0) or 0 for i in 'XYZ']] * L, 'field on every one of %d sites' % L, atol=TOL)
    H = Hamiltonian(spec(c['heis'], c['fields'], c['form']))
    L = c['L']
    Ws = H.to_mpo(L)
    x.require(len(Ws) == L, 'one tensor per site')
    v = [gen.arr(c['seed'], (2,), 'cplx', i) for i in range(L)]
    v = [a / np.linalg.norm(a) for a in v]
    e = np.array([[np.vdot(a, dn.PAULI[i] @ a).real for i in 'XYZ'] for a in v])
    want = sum((c['heis'].get(i + i, 0) or 0) * e[:-1, k] @ e[1:, k] + (c['fields'].get(i, 0) or 0) * e[:, k].sum() for k, i in enumerate('XYZ'))
    got = None
    for W, a in zip(Ws, v):
        W = np.einsum('i,abij,j->ab', a.conj(), W, a)
        got = W[:1] if got is None else got @ W
    x.close(got[0, -1], want, 'expectation value of a product state of %d sites' % L, atol=1e-9 * L)


@PROP.sub('history', fd(pairs=pair_strings, fields=fields, seq=st.lists(st.tuples(
    st.sampled_from(['full', 'matrices', 'matrix', 'squeeze', 'again', 'str', 'mpo', 'from_matrix']), st.integers(2, 6)), min_size=1, max_size=5),
    scramble=st.booleans(), seed=gen.seeds), quick=400, rule='full Hamiltonian for any length after any sequence of requests')
def _(c, x):
    H = Hamiltonian(spec(c['pairs'], c['fields'], 'single'))
    x.interesting(len(c['seq']) > 1 and any(c['pairs'].values()))
    pairs, fl = c['pairs'], c['fields']
    last = None
    for f, L in c['seq']:
        x.label(f)
        want = want_full(pairs, fl, L)
        ans = []
        if f == 'full':
            last = L
            ans = [H.to_full(L)]
            x.close(ans[0], want, 'to_full(%d)' % L, atol=TOL)
            x.require(H.L == L and H.k == 2, 'length and range', L=H.L, k=H.k)
        elif f == 'matrices':
            ans = H.to_matrices(L)
            x.close(dn.chain(ans, 2, L), want, 'to_matrices(%d)' % L, atol=TOL)
        elif f == 'matrix':
            ans = [H.to_matrix()]
            w = sum([J * np.kron(dn.PAULI[k[0]], dn.PAULI[k[1]]) for k, J in spec(pairs, fl, 'pairs').items()], np.zeros((4, 4)))
            x.close(ans[0], w, 'to_matrix', atol=TOL)
        elif f == 'squeeze':
            x.require(H._squeeze() is H and all(abs(v) > 0 for v in H.strings.values()), 'squeeze drops zero couplings')
        elif f == 'str':
            x.require(isinstance(str(H), str), 'str')
        elif f == 'mpo':
            if all(abs(v) == 0 or k in ('XX', 'YY', 'ZZ') for k, v in pairs.items()):
                H._squeeze()
                Ws = H.to_mpo(L)
                x.close(contract(Ws), want, 'to_mpo(%d)' % L, atol=TOL)
                ans = Ws
        elif f == 'from_matrix':
            # the strings now spell another two-site matrix
            v = gen.arr(c['seed'], (12,), 'real', L).real
            pairs, fl = dict(zip(PAIRS, v)), dict(zip('XYZ', v[9:]))
            h = sum(J * np.kron(dn.PAULI[k[0]], dn.PAULI[k[1]]) for k, J in spec(pairs, fl, 'pairs').items())
            x.require(H.from_matrix(h) is H, 'from_matrix returns the Hamiltonian')
            last = None
        elif last:
            ans = [H.to_full()]
            x.close(ans[0], want_full(pairs, fl, last), 'to_full() again', atol=TOL)
        if c['scramble'] and f not in ('full', 'again'):
            for a in ans:
                if isinstance(a, np.ndarray) and a.flags.writeable:
                    a += 1


def contract(Ws):
    v = None
    for W in Ws:
        W = np.asarray(W)
        if v is None:
            v = W[:1]
        else:
            v = np.einsum('abij,bckl->acikjl', v, W).reshape(1, W.shape[1], v.shape[2] * 2, v.shape[3] * 2)
    return v[0, -1]


@PROP.sub('matrices', fd(seed=gen.seeds, L=st.integers(2, 6), k=st.integers(1, 3)), quick=200,
          rule='Hamiltonians given by local matrices; decomposition of a matrix into strings')
def _(c, x):
    L = max(c['L'], c['k'])
    k = c['k']
    hs = [gen.herm(c['seed'], 2**k, 'cplx', i) for i in range(L - k + 1)]
    H = Hamiltonian(matrices=hs)
    x.interesting(L > k)
    x.require(H.L == L and H.k == k and H.has_matrices and not H.has_strings, 'length and range', L=H.L, k=H.k)
    x.close(H.to_full(), sum(dn.embed(h, i, 2, L) for i, h in enumerate(hs)), 'full matrix', atol=TOL)
    M = gen.herm(c['seed'], 4, 'cplx', 50)
    G = Hamiltonian().from_matrix(M)
    x.close(G.to_matrix(), M - np.trace(M) / 4 * np.eye(4), 'strings of a two-site matrix (up to a constant)', atol=TOL)
    x.close(G.strings['XY'], np.trace(np.kron(dn.PAULI['X'], dn.PAULI['Y']) @ M) / 4, 'coefficient of XY', atol=TOL)
