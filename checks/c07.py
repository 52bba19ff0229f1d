"""C07: serialisation and files"""
import os
import tempfile
import numpy as np
from pbt.core import Prop, st
from pbt import gen, dense as dn
from pbt.fmps_common import any_mps, build
from xmps.fMPS import fMPS
from xmps.iMPS import iMPS

PROP = Prop('C07', 'finite MPS of any structure (standard ones also through the unstructured file format), infinite MPS with '
            'unit cells of 1..4 sites, real and complex vectors, chains of several saves and loads, random linear updates of '
            'serialised vectors; non-trivial = at least two sites and a bond dimension above 1')


def same(x, m, ts, w, dims=True):
    x.require(len(m) == len(ts) and m.L == len(ts), w + ': length')
    for i, t in enumerate(ts):
        x.require(np.asarray(m[i]).shape == t.shape, w + ': shape of site %d is %s, expected %s' % (i, np.asarray(m[i]).shape, t.shape))
        x.require(np.array_equal(np.asarray(m[i]), t), w + ': site %d differs' % i)
    x.require(not dims or m.d == ts[0].shape[0] and m.D == max(max(t.shape[1:]) for t in ts), w + ': recorded dimensions')


def standard(c):
    L, d, D = c['L'], c['d'], c['D']
    b = [min(d**min(i, L - i), D) for i in range(L + 1)]
    return gen.layout([gen.arr(c['seed'], (d, b[i], b[i + 1]), c['kind'], i) for i in range(L)], c['seed'])


@PROP.sub('vector', st.builds(lambda s, n, f: dict(s, n=n, form=f), any_mps(Lmax=7, maxdim=3000), st.integers(1, 3),
                              st.sampled_from(['raw', 'left', 'right'])), quick=600,
          rule='serialize then deserialize with the structure, complex and real vectors, repeatedly')
def _(c, x):
    ts = build(c)
    m = fMPS([t.copy('K') for t in ts])
    if c['form'] == 'left':
        ts = [np.array(t) for t in m.left_canonicalise().data]
    elif c['form'] == 'right':
        ts = [np.array(t) for t in m.right_canonicalise().data]
    st_ = [t.shape for t in ts]
    x.interesting(len(ts) > 1 and max(max(t.shape[1:]) for t in ts) > 1)
    v = m.serialize()
    n = sum(t.size for t in ts)
    x.require(np.shape(v) == (n,), 'serialized length')
    r = m.serialize(real=True)
    x.require(np.shape(r) == (2 * n,) and np.isrealobj(r), 'real serialization')
    x.close(np.asarray(r)[:n] + 1j * np.asarray(r)[n:], v, 'real and complex serialization agree', rtol=0, atol=0)
    k = m
    for _i in range(c['n']):
        k = fMPS().deserialize(k.serialize(), structure=st_)
        same(x, k, ts, 'complex round trip')
        k = fMPS().deserialize(k.serialize(real=True), structure=st_, real=True)
        same(x, k, ts, 'real round trip')
    w = gen.arr(c['seed'], (n,), 'cplx', 70)
    x.require(np.array_equal(fMPS().deserialize(w, structure=st_).serialize(), w), 'vector -> MPS -> vector')
    same(x, m, ts, 'the serialized MPS is unchanged', False)
    m2 = fMPS().deserialize(v, structure=st_)
    x.close(dn.vec(m2.data), dn.vec(ts), 'state')


std = gen.fd(L=st.integers(1, 8), d=st.integers(2, 4), D=st.integers(1, 6), kind=gen.kinds, seed=gen.seeds, n=st.integers(1, 3),
             name=st.sampled_from(['x', 'a b', 'run_1/mps', 'x.y']))


@PROP.sub('standard', std, quick=400, rule='deserialize(L, d, D); store / load of standard structures')
def _(c, x):
    ts = standard(c)
    D = max(max(t.shape[1:]) for t in ts)
    x.interesting(D > 1)
    m = fMPS([t.copy('K') for t in ts])
    for D_ in (D, c['D']):
        same(x, fMPS().deserialize(m.serialize(), c['L'], c['d'], D_), ts, 'deserialize(L, d, D)')
        same(x, fMPS().deserialize(m.serialize(real=True), c['L'], c['d'], D_, real=True), ts, 'deserialize(L, d, D, real)')
    files(c, x, ts, m, False)
    files(c, x, ts, m, True)
    r = fMPS().random(c['L'], c['d'], c['D'])
    ts = [np.array(t) for t in r.data]
    same(x, fMPS().deserialize(r.serialize(), c['L'], c['d'], c['D']), ts, 'random MPS')
    files(c, x, ts, r, False)


def files(c, x, ts, m, structured):
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, c.get('name', 'x'))
        os.makedirs(os.path.dirname(f), exist_ok=True)
        k = m
        for i in range(c.get('n', 1)):
            k.store(f, structured) if structured else k.store(f)
            k = fMPS().load(f + '.npy', structured) if structured else fMPS().load(f + '.npy')
            same(x, k, ts, 'store and load no. %d (structured=%s)' % (i, structured))
        same(x, m, ts, 'the stored MPS is unchanged')
        # another state of the same structure under the same name
        other = [t + 1 for t in ts]
        k = fMPS([t.copy('K') for t in other])
        k.store(f, structured) if structured else k.store(f)
        for i in range(2):
            k = fMPS().load(f + '.npy', structured) if structured else fMPS().load(f + '.npy')
            same(x, k, other, 'file written again (structured=%s)' % structured)


@PROP.sub('structured_files', any_mps(Lmax=7, maxdim=3000), quick=400, rule='structured store / load of any MPS')
def _(c, x):
    ts = build(c)
    m = fMPS([t.copy('K') for t in ts])
    x.interesting(len(ts) > 1 and max(max(t.shape[1:]) for t in ts) > 1)
    files(dict(c, n=2), x, ts, m, True)


@PROP.sub('infinite', gen.fd(d=st.integers(1, 4), D=st.integers(1, 5), p=st.integers(1, 4), kind=gen.kinds, seed=gen.seeds,
                             n=st.integers(1, 3)), quick=400, rule='infinite MPS with any unit cell')
def _(c, x):
    d, D, p = c['d'], c['D'], c['p']
    ts = gen.layout([gen.arr(c['seed'], (d, D, D), c['kind'], i) for i in range(p)], c['seed'])
    m = iMPS([t.copy('K') for t in ts])
    x.interesting(p > 1 and D > 1)

    def ok(k, w):
        x.require(len(k) == p and k.period == p and k.d == d and k.D == D, w + ': sizes')
        for i in range(p):
            x.require(np.array_equal(np.asarray(k[i]), ts[i]), w + ': site %d differs' % i)
    k = m
    with tempfile.TemporaryDirectory() as tmp:
        f = os.path.join(tmp, 'x')
        for _i in range(c['n']):
            k = iMPS().deserialize(k.serialize(), d, D, p)
            ok(k, 'complex round trip')
            r = k.serialize(real=True)
            x.require(np.isrealobj(r) and r.shape == (2 * p * d * D * D,), 'real vector')
            k = iMPS().deserialize(r, d, D, p, real=True)
            ok(k, 'real round trip')
            k.store(f)
            k = iMPS().load(f + '.npy')
            ok(k, 'store and load')
        # another state under the same name
        o = gen.arr(c['seed'], (d, D, D), 'cplx', 90)
        iMPS([o]).store(f)
        for i in range(2):
            k = iMPS().load(f + '.npy')
            x.require(len(k) == 1 and np.array_equal(np.asarray(k[0]), o), 'file written again')
    ok(m, 'original')
