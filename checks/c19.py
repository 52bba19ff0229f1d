"""C19: singular value decompositions, also when the fast LAPACK driver fails"""
import warnings
import numpy as np
import scipy.linalg as sl
from pbt.core import Prop, st
from pbt import gen, dense as dn
from pbt.fmps_common import left_defect, right_defect
from xmps import svd_robust as sr
from xmps.fMPS import fMPS

PROP = Prop('C19', 'random matrices (all small shapes, real, complex, integer, rank-deficient, badly scaled, other memory layouts) and random MPS operations, '
            'with the divide-and-conquer driver made to fail on a random schedule of calls; non-trivial = at least one injected failure was met')
TOL = 1e-9
REAL = sl.svd


class Failing:
    """scipy.linalg.svd whose gesdd driver does not converge on the calls named by `bits`"""

    def __init__(self, bits):
        self.bits, self.calls, self.failed = bits, 0, 0

    def __call__(self, a, full_matrices=True, compute_uv=True, overwrite_a=False, check_finite=True, lapack_driver='gesdd'):
        if lapack_driver == 'gesdd':
            self.calls += 1
            if self.bits >> (self.calls - 1) % 31 & 1:
                self.failed += 1
                if overwrite_a:      # what it was allowed to use as workspace is gone
                    a[...] = 7
                raise np.linalg.LinAlgError('SVD did not converge')
        return REAL(a, full_matrices, compute_uv, overwrite_a, check_finite, lapack_driver)

    def __enter__(self):
        sl.svd = self
        return self

    def __exit__(self, *a):
        sl.svd = REAL


def matrix(c):
    m, n = c['m'], c['n']
    A = gen.arr(c['seed'], (m, n), c['kind'])
    if c['rank'] is not None:
        A = gen.arr(c['seed'], (m, max(1, c['rank'])), c['kind'], 1) @ gen.arr(c['seed'], (max(1, c['rank']), n), c['kind'], 2) * (c['rank'] > 0)
    A = A * 10.**c['scale']
    if c['kind'] == 'real':
        A = A.real.copy()
    if c['order'] == 'F':
        A = np.asfortranarray(A)
    elif c['order'] == 'T':
        A = A.T.copy().T
    elif c['order'] == 'strided':
        A = np.repeat(np.repeat(A, 2, 0), 2, 1)[::2, ::2]
    return A


case = gen.fd(m=st.integers(1, 8), n=st.integers(1, 8), kind=st.sampled_from(['cplx', 'cplx', 'real', 'int', 'sparse']), seed=gen.seeds,
              rank=st.sampled_from([None, None, None, 0, 1, 2]), scale=st.sampled_from([0, 0, 0, -9, 9]),
              order=st.sampled_from(['C', 'F', 'T', 'strided']), full=st.booleans(), driver=st.sampled_from(['gesdd', 'gesdd', 'gesvd']),
              bits=st.sampled_from([0, 1, 2**31 - 1]), warn=st.booleans(), overwrite=st.booleans())


@PROP.sub('decompose', case, quick=700, rule='svd of one matrix, with and without a failing driver')
def _(c, x):
    A = matrix(c)
    m, n = A.shape
    k = min(m, n)
    keep = A.copy()
    w = np.linalg.svd(keep, compute_uv=False)
    s0 = max(1e-300, np.linalg.norm(keep)) if w.any() else 1.
    with warnings.catch_warnings(record=True) as ws, Failing(c['bits']) as f:
        warnings.simplefilter('always')
        kw = dict(overwrite_a=True) if c['overwrite'] else {}
        A_ = A.copy('K') if kw else A
        out = sr.svd(A_, c['full'], True, lapack_driver=c['driver'], warn=c['warn'], **kw)
        if kw and c['driver'] == 'gesdd' and not f.failed:
            x.close(A_, keep, 'matrix unchanged (overwrite_a is ignored with gesdd)', atol=0)
        vals = sr.svd(A, compute_uv=False, lapack_driver=c['driver'], warn=c['warn'])
    x.interesting(f.failed > 0 and k > 1)
    x.label('%s, %d failures' % (c['driver'], f.failed))
    U, S, V = out
    x.require(U.shape == ((m, m) if c['full'] else (m, k)) and S.shape == (k,) and V.shape == ((n, n) if c['full'] else (k, n)), 'shapes')
    x.close(U.conj().T @ U, np.eye(U.shape[1]), 'U', atol=TOL)
    x.close(V @ V.conj().T, np.eye(len(V)), 'V', atol=TOL)
    x.close((U[:, :k] * S) @ V[:k] / s0, keep / s0, 'U S V', atol=TOL)
    x.close(S / s0, w / s0, 'singular values, descending', atol=TOL)
    x.close(vals / s0, w / s0, 'singular values only', atol=TOL)
    x.close(A, keep, 'matrix unchanged', atol=0)
    if f.failed:
        x.require(any('gesdd' in str(i.message) for i in ws) == c['warn'], 'a failure is announced exactly when asked to')
    if c['driver'] == 'gesdd' and not c['bits']:
        x.require(not any('failed' in str(i.message) for i in ws), 'no warning without failure')
    # refusals
    x.raises(ValueError, lambda: sr.svd(A, lapack_driver='gesxx'), 'unknown driver')
    bad = keep + 0.
    bad[m - 1, 0] = [np.nan, np.inf][c['seed'] % 2]
    for drv in ('gesdd', 'gesvd'):
        x.raises((ValueError, np.linalg.LinAlgError), lambda: sr.svd(bad, lapack_driver=drv), 'not finite (%s)' % drv)


@PROP.sub('states', gen.fd(L=st.integers(2, 6), d=st.integers(2, 3), seed=gen.seeds, kind=st.sampled_from(['cplx', 'real', 'int']), bits=st.integers(1, 2**31 - 1),
                           rank=st.booleans(), ops=st.lists(st.sampled_from(['left', 'right', 'mixed', 'gate', 'entropy']), min_size=1, max_size=4)),
          quick=200, rule='matrix product states built and canonicalised while the driver fails on some calls')
def _(c, x):
    L, d = c['L'], c['d']
    L = L if d == 2 else min(L, 4)
    v = gen.arr(c['seed'], (d,) * L, c['kind'])
    if c['rank']:
        v = v * 0
    v = v.astype(complex)
    v[(0,) * L], v[(d - 1,) * L] = 0.6, 0.8j
    v = v / np.linalg.norm(v)
    U = gen.unitary(c['seed'], d * d, 3)
    with warnings.catch_warnings(), Failing(c['bits']) as f:
        warnings.simplefilter('ignore')
        for how in ('left', 'right'):
            m = fMPS()
            m = m.left_from_state(v.copy()) if how == 'left' else m.right_from_state(v.copy())
            ref = v.reshape(-1)
            x.same_ray(dn.vec([np.asarray(t) for t in m.data]), ref, '%s_from_state' % how, tol=1e-7)
            for k, op in enumerate(c['ops']):
                n = (c['seed'] + k) % (L - 1)
                if op == 'left':
                    m.left_canonicalise()
                    x.close(max(left_defect(m[i]) for i in range(L)), 0, 'left canonical', atol=1e-7)
                elif op == 'right':
                    m.right_canonicalise()
                    x.close(max(right_defect(m[i]) for i in range(L)), 0, 'right canonical', atol=1e-7)
                elif op == 'mixed':
                    m.mixed_canonicalise(n)
                elif op == 'gate':
                    m.apply_two_site((U, (n, n + 1)), 'lr'[k % 2], 1000)
                    ref = dn.apply_local(ref, U, [n, n + 1], d, L)
                else:
                    p = abs(np.linalg.svd(ref.reshape(d**(n + 1), -1), compute_uv=False))**2
                    p = p[p > 1e-14]
                    x.close(m.entanglement_entropy(n + 1), -(p * np.log(p)).sum(), 'entropy', atol=1e-6)
                x.same_ray(dn.vec([np.asarray(t) for t in m.data]), ref, 'after %s' % op, tol=1e-6)
    x.interesting(f.failed > 0)
    x.label('%d of %d calls failed' % (f.failed > 0 and 1, f.calls > 0 and 1))
