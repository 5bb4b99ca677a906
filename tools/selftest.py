"""Development: python tools/selftest.py -- which numpy expressions does the symbolic layer model faithfully?"""
import concurrent.futures as cf
import multiprocessing as mp
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from symex.job import run_job  # noqa: E402
E = """np.sum(np.exp(1j * np.inner(x[:2], y))).real
np.sum(np.exp(1j * np.inner(x[:2], y))).imag
abs(np.exp(1j * x)[0])
np.exp(-1j * y).real
(np.exp(1j * x) * 2 + 1).imag
np.sum(np.cos(x) + 1j * np.sin(x)).conjugate().imag
np.conj(np.exp(1j * x)).imag
(np.cos(x).sum() + 1j * np.sin(x).sum()).imag
np.dot(np.exp(1j * x), x).real
np.mean(np.exp(1j * x)).real
np.real(np.exp(1j * y))
np.array([complex(1, 2), 3]).imag
np.zeros(3, dtype=complex)
np.sum(x, where=np.array([True, False, True]))
np.sum(x, where=x > 0)
np.max(x, where=x > 0, initial=-5)
np.any(x > 0, where=m)
np.all(x > 0, where=m)
np.add.reduce(x, where=m)
np.mean(y, axis=(0, 1))
np.average(x, weights=np.array([1.0, 2.0, 3.0]))
np.average(y, axis=1, weights=[1.0, 3.0])
np.bitwise_or(n, 2)
n & 1
n | 4
n ^ 1
x.std()
y.var(axis=0)
x.cumprod()
np.choose(n % 2, [x, -x])
np.digitize(x, [-1.0, 0.0, 1.0], right=True)
np.float64(3) * x
np.nansum(y, axis=0)
np.linalg.norm(y, ord=1)
np.linalg.norm(x, ord=np.inf)
np.linalg.norm(x, 1)
np.linalg.norm(y, axis=1, keepdims=True)
np.logical_and.reduce([x > 0, x < 1])
np.logical_or.reduce(y > 0, axis=1)
np.add.outer(x, x)
np.subtract.outer(x, n)
np.lexsort((x, n))
np.lexsort(y.T)
np.squeeze(y[:, :1])
np.moveaxis(y, 0, 1)
np.average(y, axis=0, weights=x + 5)
np.average(y)
np.average(y, axis=1)
np.std(x)
np.var(y, axis=0)
np.select([x > 1, x > 0], [x, -x], 7.0)
np.choose([0, 1, 0], [x, -x])
np.digitize(x, [-1.0, 0.0, 1.0])
np.ravel_multi_index(tuple(n), (4, 4, 4))
np.ravel_multi_index((n, n), (4, 4))
np.unravel_index(n, (2, 2))
np.array(np.unravel_index(n[0] + n[1], (4, 2)))
np.roll(y, 1, axis=0)
np.flip(y, axis=1)
np.flipud(y)
np.fliplr(y)
np.rot90(y)
np.split(x, 3)
np.array_split(x, 2)
np.block([[y, y], [y, y]])
np.kron(y, np.eye(2))
np.divmod(x, 0.5)
np.modf(x)
np.nan_to_num(x)
np.in1d(n, [1, 2])
np.apply_along_axis(sum, 1, y)
np.vectorize(lambda v: v * 2)(x)
np.fromiter((v for v in x), dtype=float)
np.fromiter((int(v) for v in n), dtype=int)
np.broadcast_to(x, (2, 3))
np.insert(x, 1, 5.0)
np.insert(x, 3, [5.0, 6.0])
np.partition(x, 1)
np.median(x)
np.linalg.multi_dot([y.T, y, y.T])
np.deg2rad(x)
np.radians(x)
np.rad2deg(x)
np.float_power(x, 2)
np.power(x, 3)
np.fabs(x)
np.absolute(x)
np.sign(x)
np.negative(x)
np.positive(x)
np.reciprocal(x + 3)
np.true_divide(x, 2)
np.floor_divide(x, 0.5)
np.remainder(x, 0.5)
np.fmod(x, 0.5)
np.maximum.reduce(y, axis=0)
np.minimum.reduce(y)
np.add.reduce(y, axis=1)
np.logical_and.reduce(y > 0, axis=1)
np.logical_or.reduce(y > 0, axis=1)
np.add.outer(x, x)
np.subtract.outer(x, x)
np.multiply.outer(x, n)
np.hypot(x, 1.0)
np.heaviside(x, 0.5)
np.amin(y, axis=0)
np.amax(y)
np.nanmin(x)
np.nanmax(y, axis=1)
np.ptp(y, axis=0)
np.linalg.norm(y, axis=1)
np.linalg.norm(y)
np.linalg.norm(x, ord=1)
np.linalg.norm(x, np.inf)
np.linalg.det(y[:2])
np.linalg.inv(y[:2] + 5 * np.eye(2))
np.linalg.solve(y[:2] + 5 * np.eye(2), x[:2])
np.trace(y[:2])
np.diag(x)
np.diag(y[:2])
np.diagonal(y)
np.triu(y)
np.tril(y[:2], -1)
np.triu_indices(3, 1)
np.c_[y, x]
np.r_[x, x]
np.hstack([x, x])
np.vstack([x, x])
np.dstack([x, x])
np.column_stack([x, n])
np.stack([x, x], axis=-1)
np.concatenate([y, y], axis=1)
np.append(x, 3.0)
np.repeat(y, 2, axis=0)
np.repeat(x, [1, 2, 0])
np.tile(x, (2, 1))
np.meshgrid(x, x[:2])
np.meshgrid(x, x[:2], indexing="ij")
np.expand_dims(x, 0)
np.squeeze(y[:1])
np.moveaxis(y, 0, 1)
np.swapaxes(y, 0, 1)
np.transpose(y)
np.atleast_3d(x)
np.ravel(y, order="F")
np.reshape(y, (2, 3))
np.resize(x, (2, 2))
np.pad(x, (1, 2), constant_values=9)
np.pad(y, ((0, 0), (0, 1)), mode="constant")
np.pad(x, 1, mode="edge")
np.cumsum(y, axis=0)
np.cumprod(x)
np.diff(x)
np.ediff1d(x)
np.gradient(x)
np.interp(x, [-2.0, 0, 2.0], [0.0, 1.0, 4.0])
np.trapz(x)
np.convolve(x, [1, 1])
np.bincount(n)
np.bincount(n, minlength=6)
np.bincount(n, weights=x)
np.histogram(n, bins=[0, 1, 2, 3])[0]
np.unique(n)
np.unique(n, return_inverse=True)
np.unique(n, return_index=True)
np.unique(n, return_counts=True)
np.unique(k, axis=0)
np.sort(x)
np.sort(x)[::-1]
np.argsort(x)
np.argsort(-n, kind="stable")
np.lexsort((x, n))
np.searchsorted([0.0, 1.0], x)
np.searchsorted([0.0, 1.0], x, side="right")
np.where(x > 0)
np.where(x > 0, x, 0)
np.nonzero(m)
np.flatnonzero(x > 0)
np.argwhere(y > 0)
np.extract(m, x)
np.compress(m, x)
np.count_nonzero(y > 0, axis=0)
np.isin(n, [1, 3], invert=True)
np.intersect1d(n, [1, 2])
np.setdiff1d([0, 1, 2, 3], n)
np.union1d(n, [1])
np.setxor1d(n[:1], n[1:2])
np.isclose(x, 0.5)
np.allclose(x, x + 1e-12)
np.array_equal(n, n.copy())
np.any(y > 0, axis=1)
np.all(y > 0, axis=0)
np.take(x, [0, 2])
np.take(x, n % 3)
np.take_along_axis(y, np.array([[0], [1], [0]]), axis=1)
np.delete(x, 1)
np.delete(y, [0, 2], axis=0)
np.delete(x, m)
np.clip(x, -1, 1)
np.round(x)
np.around(x, 1)
np.rint(x)
np.fix(x)
np.trunc(x)
np.ceil(x)
np.floor(x).astype(int)
x.round(0)
np.dot(y, y.T)
np.matmul(y, y.T)
np.inner(y, y)
np.outer(x, x)
np.vdot(x, x)
np.tensordot(y, y, axes=([0], [0]))
np.einsum("ij,ij->i", y, y)
np.einsum("ij,kj->ik", y, y)
np.einsum("...j,ij->...i", y, y)
np.einsum("ii", y[:2])
np.cross(x, x[::-1])
np.cross(y[0], y[1])
np.linspace(0, 1, 4) * x[0]
np.linspace(x[0], x[1], 3)
np.arange(3) + x
np.ones_like(x)
np.zeros_like(n)
np.full_like(x, 3)
np.full((2, 2), x[0])
np.empty_like(x).shape
np.identity(2) * x[0]
np.eye(2, k=1)
np.array([x, x * 2]).T
np.asarray(x, dtype=float)
np.ascontiguousarray(y.T)
np.array(x, copy=True, ndmin=2)
np.copy(y)
np.isfinite(x)
np.isinf(x)
np.isnan(x)
np.iinfo(np.uint8).max + n
np.finfo(float).eps < x
np.less(x, 0)
np.greater_equal(x, n)
np.not_equal(n, 2)
np.logical_xor(m, x > 0)
np.logical_not(m)
np.bitwise_and(n, 1)
np.bitwise_or(m, x > 0)
np.invert(m)
n << 1
n >> 1
n // 2
n % 2
-n
abs(x)
x ** 2
2 ** n
x @ x
~m
m & (x > 0)
m * x
m.astype(int) + n
n.astype(np.uint8) - np.uint8(1)
n.astype(np.int8) * np.int8(50)
np.argmax(x)
np.argmin(y, axis=1)
x.argmax()
x.max() - x.min()
x.mean()
x.sum() + n.sum()
y.sum(axis=-1, keepdims=True)
np.sum(y, axis=(0, 1))
np.sum(x[m])
np.mean(y, axis=0)
np.prod(n + 1)
np.min(y, axis=0, initial=0)
np.max(x, initial=5)
np.sum(x, where=np.array([True, False, True]))
np.sqrt(np.square(x))
np.exp(0 * x)
np.log(np.exp(x * 0) + 1)
np.sin(x) ** 2 + np.cos(x) ** 2
np.arctan2(x[0] * 0, 1)
y[::-1]
y[:, 1]
y[n % 3]
y[n % 3, 0]
y[m]
y[np.ix_([0, 2], [1])]
y[..., 0]
y[None, :, 1]
x[[True, False, True]]
x[-1]
k[n % 2]
k[:, n % 3]
x.tolist()
list(map(float, x))
sorted(x)
sorted(x, reverse=True)
sum(x)
max(x)
min(n)
any(x > 1)
all(m)
[v for v in x if v > 0]
dict(zip([1, 2, 3], x))[2]
len(np.flatnonzero(m))
float(x[0]) + int(n[0])
int(x[0])
round(x[0])
round(float(x[1]), 0)
divmod(int(n[0]), 2)
divmod(x[0], 1)
bool(x[0] > 0)
x[0] if x[0] > x[1] else x[1]
str(n.dtype)
np.result_type(n, x)
np.promote_types(np.uint8, np.int8)
np.min_scalar_type(300)
np.ndim(x), np.shape(y), np.size(y)
np.asanyarray(x).copy()
np.require(x)
np.fromfunction(lambda i, j: i + j, (2, 2)) * x[0]
np.array(list(zip(x, x)))
np.array([[v] * 2 for v in x])
np.asarray([*x, 1.0])
np.hstack((x[:, None], y))
np.nanmean(x)
np.cov(y.T)
np.ptp(x)
np.quantile(x, 0.5)
np.tri(3)
np.polyval([1, 2], x)
np.polynomial.polynomial.polyval(x, [1, 2])
np.linalg.matrix_power(y[:2], 2)
np.linalg.pinv(np.eye(2) * 2)
np.linalg.matrix_rank(np.eye(2))
np.linalg.eigvalsh(np.eye(2))
np.ndenumerate(k).__class__.__name__
[i for i, v in np.ndenumerate(k) if v > 2]
list(np.ndindex(2, 2))
np.nditer(k).__class__.__name__
np.array_split(y, 2)[1]
np.char.add(["a"], ["b"]).tolist()
np.lib.stride_tricks.sliding_window_view(x, 2)
np.may_share_memory(x, x)
np.shares_memory(y, y[0])""".split("\n")
STM = """r = x.copy(); r[1] += 5
r = x.copy(); r[m] = 0
r = y.copy(); r[n % 3] = 1
r = y.copy(); r[:, 0] -= x
r = x.copy(); np.add.at(r, n % 3, 1.0)
r = y.copy(); np.fill_diagonal(r, 7)
r = x.copy(); np.put(r, [0, 2], [5, 6])
r = x.copy(); np.putmask(r, x > 0, 0)
r = x.copy(); np.place(r, m, [1.0])
r = x.copy(); np.copyto(r, n)
r = x.copy(); np.copyto(r, 0, where=np.array([True, False, True]))
r = np.empty(3); np.multiply(x, 2, out=r)
r = np.zeros((2, 3)); r[0] = x; r[1] = n
r = np.zeros(3, dtype=int); r[:] = n
r = x.copy(); r.sort()
r = n.copy(); r.sort()
r = x.copy(); r *= 2; r += n; r /= 4
r = x.astype(float); r[r < 0] *= -1
r = [0, 0, 0]\nfor i, v in enumerate(x): r[i] = v * i
r = {}\nfor v, w in zip([0, 1, 0], x): r.setdefault(v, []).append(w)\nr = [r[0], r[1]]
import itertools\nr = [sum(p) for p in itertools.product(x, repeat=2)]
import math\nr = [math.floor(x[0]), math.ceil(x[1]), math.fabs(x[2])]
import math\nr = [math.hypot(x[0], x[1]), math.sqrt(x[2] * x[2]), math.dist(x, n)]
import math\nr = math.isclose(x[0], 0.5)
import math\nr = math.prod(x)
import math\nr = math.fsum(x)
import functools, operator\nr = functools.reduce(operator.add, x)
import functools\nr = functools.reduce(np.dot, [y.T, y, x[:2]])
import collections\nd = collections.defaultdict(list)\nfor i, v in zip([0, 0, 1], x): d[i].append(v)\nr = [d[0], d[1]]
import collections\nr = sorted(collections.Counter(int(v) for v in n).items())
r = set(int(v) for v in n); r = sorted(r)
r = np.array([v for _, v in sorted(zip(n, x), key=lambda t: (t[0], t[1]))])
it = np.nditer(k, flags=["multi_index"]); r = [it.multi_index for v in it]
from scipy.sparse import coo_matrix\nr = coo_matrix((x, ([0, 1, 2], [2, 1, 0])), shape=(3, 3)).toarray()
from scipy.sparse import csr_matrix\nr = csr_matrix((x, ([0, 1, 0], [2, 1, 2])), shape=(3, 3)).toarray()
from scipy.spatial.distance import cdist\nr = cdist(y, y)
from scipy.spatial import distance_matrix\nr = distance_matrix(y, y)""".replace("\\n", "\n")
import re
STM = [s for s in re.split(r"\n(?=r = |import |from |it = )", STM) if s]
# glue multi-line statements
out = []
for s in STM:
    if out and (out[-1].split("\n")[-1].startswith(("import", "from"))):
        out[-1] += "\n" + s
    else:
        out.append(s)


def main():
    jobs = ["r = " + e for e in E] + out
    if len(sys.argv) > 1:
        jobs = [j for j in jobs if sys.argv[1] in j]
    ctx = mp.get_context("spawn")
    bad = 0
    with cf.ProcessPoolExecutor(8, mp_context=ctx, max_tasks_per_child=1) as ex:
        futs = {ex.submit(run_job, dict(module="harness.selftest", harness="np_expr", params=dict(expr=j), opts={},
                                        budget=15, witnesses=4)): j for j in jobs}
        for f in cf.as_completed(futs):
            try:
                r = f.result()
            except Exception as e:
                print(repr(futs[f]), "|", repr(e)[:100])
                continue
            ok = r["complete"] and not r["mismatches"] and not r["confirmed"] and not r["unconfirmed"] and r["validated"]
            if not ok:
                bad += 1
                print(repr(futs[f]), "|", sorted(set(r["degraded"]))[:1], r["error"],
                      "MISMATCH %s" % str(r["mismatches"][0])[:300] if r["mismatches"] else "", r["confirmed"][:1], flush=True)
    print(len(jobs), "expressions,", bad, "not modelled")


if __name__ == "__main__":
    main()
