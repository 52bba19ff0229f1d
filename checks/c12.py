"""C12: tensor network contraction"""
import numpy as np
from pbt.core import Prop, st
from pbt import gen
from xmps.ncon import ncon
from xmps import fMPS as fm

PROP = Prop('C12', 'random tensor networks (1..6 tensors, up to 7 bonds including self-loops, disconnected pieces and scalars, open '
            'legs, any contraction order and leg order) against einsum; malformed networks; non-trivial = two tensors sharing a bond')

nets = st.integers(1, 6).flatmap(lambda n: gen.fd(
    n=st.just(n), edges=st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1), st.integers(1, 3)), max_size=7),
    open=st.lists(st.tuples(st.integers(0, n - 1), st.integers(1, 3)), max_size=4), seed=gen.seeds,
    order=st.booleans(), forder=st.booleans(), labels=st.sampled_from(['first', 'first', 'offset', 'scattered', 'scattered']), layout=st.sampled_from(['C', 'F', 'strided']),
    kind=st.sampled_from(['cplx', 'real', 'int']),
    fault=st.sampled_from([None, 'dims', 'lists', 'legs', 'triple', 'dangling', 'open twice'])))


def network(c):
    r = gen.rng(c['seed'], 3)
    n = len(c['edges'])
    names = {'first': list(range(1, n + 1)), 'offset': list(range(7, n + 7)),
             'scattered': [int(k) + 1 for k in r.permutation(2 * n + 1)[:n]]}[c['labels']]
    legs = [[] for _ in range(c['n'])]
    for k, (a, b, dim) in enumerate(c['edges']):
        legs[a].append((names[k], dim))
        legs[b].append((names[k], dim))
    for k, (a, dim) in enumerate(c['open']):
        legs[a].append((-k - 1, dim))
    legs = [[l[i] for i in r.permutation(len(l))] for l in legs]
    ts = [gen.arr(c['seed'], tuple(x for _, x in l), c['kind'], 10 + i) if l else np.array(gen.arr(c['seed'], (1,), 'cplx', 10 + i)[0])
          for i, l in enumerate(legs)]
    if c['layout'] == 'F':
        ts = [np.asfortranarray(t) if t.ndim else t for t in ts]
    elif c['layout'] == 'strided':
        ts = [np.stack([t, t + 1], -1)[..., 0] if t.ndim else t for t in ts]
    v = [[k for k, _ in l] for l in legs]
    return ts, v, r, names


def reference(ts, v, forder):
    names = {}
    args = []
    for t, l in zip(ts, v):
        args += [t, [names.setdefault(k, len(names)) for k in l]]
    return np.einsum(*args, [names[k] for k in forder])


@PROP.sub('contract', nets, quick=900, rule='contraction of a well-formed network, in any order')
def _(c, x):
    ts, v, r, names = network(c)
    n, m = len(c['edges']), len(c['open'])
    x.interesting(any(a != b for a, b, _ in c['edges']))
    x.label('%d tensors' % c['n'])
    if any(a == b for a, b, _ in c['edges']):
        x.label('trace')
    forder = [-k - 1 for k in range(m)]
    kw = {}
    if c['order']:
        kw['order'] = [names[k] for k in r.permutation(n)]
    if c['forder']:
        forder = [int(-k - 1) for k in r.permutation(m)]
        kw['forder'] = forder
    want = reference(ts, v, forder)
    keep = [t.copy('K') for t in ts], [list(l) for l in v], {k: list(l) for k, l in kw.items()}
    got = ncon(ts, v, **kw)
    x.close(got, want, 'contraction', atol=1e-10, rtol=1e-10)
    x.require(len(ts) == c['n'] and v == keep[1] and kw == keep[2], 'an argument was changed', v=v, kw=kw)
    for a, b in zip(ts, keep[0]):
        x.close(a, b, 'a tensor was changed', atol=0, rtol=0)
    x.close(ncon(tuple(ts), [tuple(l) for l in v], **kw), want, 'tuples instead of lists, the same order lists again', atol=1e-10, rtol=1e-10)
    x.close(ncon(ts, v, check_indices=False, **kw), want, 'without index checks', atol=1e-10, rtol=1e-10)
    x.close(fm.ncon(ts, v, **kw), want, 'ncon as the MPS module uses it', atol=1e-10, rtol=1e-10)
    if c['n'] == 1 and v[0]:
        x.label('single tensor')
        x.close(ncon(ts[0], v[0], **kw), want, 'single tensor by itself', atol=1e-10, rtol=1e-10)


@PROP.sub('reject', nets, quick=500, rule='inconsistent networks are refused with ValueError')
def _(c, x):
    ts, v, r, names = network(c)
    f = c['fault']
    v = [list(l) for l in v]
    if f == 'dims':
        e = [(k, a) for k, (a, b, dim) in enumerate(c['edges']) if a != b]
        if not e:
            return
        k, a = e[c['seed'] % len(e)]
        i = v[a].index(names[k])
        ts[a] = np.concatenate([ts[a], ts[a]], axis=i)
    elif f == 'lists':
        v = v + [[]] if c['seed'] % 2 else v[:-1]
        if not v:
            return
    elif f == 'legs':
        i = c['seed'] % c['n']
        v[i] = v[i] + [-9]
    elif f == 'triple':
        if not c['edges']:
            return
        i = c['seed'] % c['n']
        k = c['edges'][0][2]
        ts[i] = np.stack([ts[i]] * k, -1)
        v[i].append(names[0])
    elif f == 'dangling':
        i = c['seed'] % c['n']
        ts[i] = ts[i][..., None]
        v[i].append(99)
    elif f == 'open twice':
        if not c['open']:
            return
        i = c['seed'] % c['n']
        ts[i] = ts[i][..., None]
        v[i].append(-1)
    else:
        return
    x.label(f)
    x.interesting()
    x.raises(ValueError, lambda: ncon(ts, v), 'inconsistent network (%s)' % f)
