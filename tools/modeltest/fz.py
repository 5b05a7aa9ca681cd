import numpy as np, itertools
EX = r'''
A.sum()
A.sum(axis=0)
A.sum(axis=1)
A.sum(axis=-1)
A.sum(axis=1, keepdims=True)
np.sum(A, 0)
A.mean(axis=1)
A.mean()
A.mean(axis=0, keepdims=True)
A - A.mean(axis=0)
A - A.mean(axis=1)[:, np.newaxis]
A - A.mean(axis=1, keepdims=True)
A.ravel()
A.ravel(order='F')
A.T.ravel()
A.T.flatten('F')
A.reshape(2, 3)
A.reshape((2, 3), order='F')
A.reshape(-1, 3)
A.T.reshape(3, 2)
np.reshape(A, (2, 3), order='F')
A[::-1]
A[:, ::-1]
A[::2]
A[1:]
A[:-1]
A[-1]
A[-2:]
A[:, -1]
A[1:, 0]
A[[2, 0]]
A[[2, 0], [1, 0]]
A[:, [1, 0]]
A[:, [1]]
A[np.newaxis]
A[..., 0]
A[..., np.newaxis]
A[A > 2]
A[A[:, 0] > 1]
A[v > 1]
A[v > 1, 0]
A[:, w > 5]
A.dot(B)
B.dot(A)
A @ B
np.dot(A, w)
v.dot(A)
v @ A
v.dot(v)
np.outer(v, w)
np.outer(w, v).T
np.inner(v, v)
np.vdot(A, A)
np.tensordot(A, B, axes=([1], [0]))
np.tensordot(A, A)
np.einsum('ij,jk->ik', A, B)
np.einsum('ij,ij->i', A, A)
np.einsum('ij,ij', A, A)
np.einsum('ij->ji', A)
np.einsum('ij->j', A)
np.einsum('ii', C)
np.einsum('ii->i', C)
np.einsum('i,j->ij', v, w)
np.einsum('ij,i->j', A, v)
np.trace(C)
C.trace()
np.diag(C)
np.diag(v)
np.diag(C, 1)
np.diag(C, k=-1)
np.diagonal(C)
np.diagonal(C, offset=1)
np.trace(C, offset=1)
np.trace(C, 1)
np.eye(3)
np.eye(3, 2)
np.eye(3, k=1)
np.identity(2)
np.zeros((2, 3)) + v
np.ones(3) * v
np.full((2, 2), 3.5)
np.full_like(A, 2.0)
np.zeros_like(A)
np.ones_like(A) - A
np.arange(4)
np.arange(1, 4)
np.arange(1, 8, 3)
np.arange(5, 0, -2)
np.linspace(0, 1, 5)
np.linspace(0, 1, 5, endpoint=False)
np.max(A)
A.max(axis=0)
A.min(axis=1)
np.argmax(A)
np.argmax(A, axis=0)
A.argmin(axis=1)
v.argmax()
v.argmin()
np.argsort(v)
np.sort(v)
np.sort(v)[::-1]
np.sort(A, axis=0)
np.sort(A)
np.cumsum(v)
np.cumsum(A, axis=0)
np.cumsum(A)
np.diff(v)
np.diff(A, axis=0)
np.prod(v)
A.prod(axis=0)
np.clip(A, 2, 4)
A.clip(2, 4)
np.clip(v, None, 2)
np.maximum(A, 3)
np.minimum(v, 2)
np.fmax(v, 2)
np.abs(-v)
abs(-v)
-A
A ** 2
A ** 0.5
2 ** v
np.sqrt(v)
np.square(A)
np.power(A, 2)
np.reciprocal(v)
1 / v
A / v[:, np.newaxis]
A / w
A * v[:, None]
A * w
A // 2
A % 2
v % 2
-v // 2
np.sign(v - 2)
np.where(A > 2, A, 0)
np.where(v > 1, 1, -1)
np.where(v > 1)[0]
np.nonzero(v > 1)[0]
np.flatnonzero(v > 1)
np.any(A > 5)
np.all(A > 0)
np.any(A > 5, axis=0)
np.all(A > 1, axis=1)
(A > 2).sum()
(A > 2).sum(axis=0)
np.count_nonzero(A > 2)
np.count_nonzero(A > 2, axis=1)
np.mean(A > 2)
np.concatenate([v, w])
np.concatenate((A, A), axis=1)
np.concatenate((A, A))
np.vstack((v, v))
np.vstack((A, w))
np.hstack((v, w))
np.hstack((A, A))
np.hstack((A, v[:, None]))
np.column_stack((v, v))
np.column_stack((A, v))
np.stack([v, v])
np.stack([v, v], axis=1)
np.stack([A, A], axis=-1)
np.tile(v, 2)
np.tile(v, (2, 1))
np.repeat(v, 2)
np.repeat(A, 2, axis=0)
np.repeat(A, 2)
np.transpose(A)
np.transpose(D3, (2, 0, 1))
D3.transpose(1, 0, 2)
D3.sum(axis=(0, 1))
D3.sum(axis=1)
D3[0]
D3[:, 1]
D3[..., 1]
D3[:, :, 0]
D3.dot(w)
D3 @ w
np.swapaxes(D3, 0, 2)
D3.reshape(2, -1)
D3.reshape(-1)
np.einsum('ijk,k->ij', D3, w)
np.einsum('ijk->kji', D3)
np.expand_dims(v, 0)
np.expand_dims(v, 1)
np.squeeze(v[:, None])
np.atleast_2d(v)
np.array([[1, 2], [3, 4]], ndmin=3)
np.array(v, ndmin=2)
np.linalg.norm(v)
np.linalg.norm(A)
np.linalg.norm(A, axis=0)
np.linalg.norm(A, axis=1)
np.linalg.norm(A, ord=1)
np.linalg.norm(v, 1)
np.linalg.norm(A, 'fro')
np.linalg.norm(A, axis=1, keepdims=True)
np.linalg.norm(v, np.inf)
np.roll(v, 1)
np.roll(A, 1, axis=0)
np.roll(v, -1)
np.flip(v)
np.flip(A, axis=0)
np.flipud(A)
np.fliplr(A)
np.triu(C)
np.tril(C, -1)
np.var(v)
np.std(A, axis=0)
np.var(v, ddof=1)
np.average(v, weights=v)
np.average(A, axis=0)
np.median(v)
np.take(v, [0, 2])
np.take(A, [0, 2], axis=0)
np.delete(v, 1)
np.insert(v, 1, 9)
np.append(v, w)
np.bincount(np.array([0, 1, 1, 2]))
np.bincount(np.array([0, 1, 1]), minlength=4)
np.unique(np.array([2, 1, 2]))
np.isin(v, [1, 2])
np.sum(v, initial=5.0)
np.max(v, initial=10.0)
np.sum(v, where=v > 1)
np.mean(A, keepdims=True)
np.all(A > 1, axis=1, keepdims=True)
np.ix_([0, 1], [1])[0]
A[np.ix_([0, 2], [1, 0])]
np.kron(w, v)
np.cross(v, v + 1)
np.meshgrid(v, w)[0]
np.array_split(v, 2)[0]
np.split(np.arange(6.0), 3)[1]
np.linalg.matrix_power(C, 2)
np.linalg.multi_dot([A, B, A])
np.matmul(A, B)
np.subtract(A, 1)
np.add(v, v)
np.add.reduce(A)
np.add.reduce(A, axis=1)
np.add.outer(v, w)
np.subtract.outer(v, w)
np.multiply.outer(v, w)
np.maximum.reduce(A)
np.add.accumulate(v)
np.true_divide(v, 2)
np.floor(v / 2)
np.ceil(v / 2)
np.round(v / 3, 2)
np.rint(v / 2)
np.hypot(v, v)
np.isclose(v, 2)
np.allclose(v, v)
np.array_equal(v, v)
np.logical_and(v > 0, v < 3)
np.logical_or(v > 2, v < 1)
~(v > 1)
(v > 1) & (v < 3)
(v > 1) | (v < 1)
(v > 1) ^ (v < 3)
np.nan_to_num(v)
np.dot(A.T, A)
A.T.dot(v)
np.trace(A.T.dot(A))
np.trace(A @ B)
(A * A).sum()
(A[:, :, None] - B[None]).sum(axis=1)
((A[:, None, :] - A[None, :, :]) ** 2).sum(axis=2)
((A[:, None] - A[None]) ** 2).sum(axis=-1)
A[None].shape[1]
A.shape[0] * A.size + A.ndim
len(A)
int(2.7)
int(-2.7)
-7 // 2
-7 % 3
7 % -3
divmod(-7, 2)[1]
round(2.5)
max(3, 1, 2)
min([3, 1, 2])
sum([1, 2, 3])
sum(v)
sorted([3, 1, 2])[0]
sorted([3, 1, 2], reverse=True)[0]
list(reversed([3, 1, 2]))[0]
[x for x in range(5, 0, -2)][1]
list(range(2, 9, 3))[-1]
[i * j for i in range(3) for j in range(i)][-1]
list(zip([1, 2], [3, 4]))[1][0]
[i for i, x in enumerate([5, 6], 1)][-1]
[1, 2, 3, 4][1:3][0]
[1, 2, 3, 4][::-1][0]
[1, 2, 3, 4][-3:][0]
bool(0)
not 3
(1 if v.sum() > 3 else 2)
any(x > 2 for x in [1, 2])
all(x > 0 for x in [1, 2])
1 < 2 < 2
3 if [] else 4
0 or 5
2 and 7
2 ** -1
7 / 2
True + 1
v[1] + A[1][0]
v[np.argmax(v)]
v[-1:][0]
np.array([v, v]).sum(axis=0)
np.array([[1, 2], [3, 4]]).T[0]
np.asarray([1, 2.5])
np.array([1, 2]) / 2
np.float64(3) / 2
np.dot(v, A)[1]
np.mean([1, 2, 4])
np.max([1, 5, 2])
np.sum([[1, 2], [3, 4]], axis=1)
np.argmax([1, 5, 5])
np.argmin([2, 1, 1])
np.cumprod(v)
np.ptp(v)
np.amax(A, axis=1)
np.nanmax(v)
np.nansum(A, axis=0)
np.searchsorted(v, 2)
np.sort(-v)
np.argsort(-v)
np.lexsort((v,))
np.triu_indices(3, 1)[0]
np.tril_indices(3)[1]
np.diag_indices(2)[0]
np.unravel_index(4, (3, 2))[1]
np.ravel_multi_index((1, 1), (3, 2))
np.broadcast_to(w, (3, 2))
np.moveaxis(D3, 0, -1)
np.rollaxis(D3, 2)
np.block([[C, C]])
np.r_[v, w]
np.c_[v, v]
np.pad(v, 1)
np.convolve(v, w)
np.interp(1.5, v, v)
np.gradient(v)
np.trapz(v)
np.heaviside(v - 1, 0.5)
np.copysign(v, -1)
np.fmod(-v, 2)
np.mod(-v, 2)
np.remainder(v, 2)
np.floor_divide(-v, 2)
np.negative(v)
np.exp(v * 0)
np.log(v / v)
np.linalg.inv(C)
np.linalg.solve(C, v)
np.linalg.det(C)
np.linspace(0, 1, 6)
np.trace(C, offset=-1)
np.diag(C, 2)
np.diagonal(C, offset=-1)
np.eye(3, k=2)
np.linalg.norm(A, 1)
np.linalg.norm(A, 2)
np.linalg.norm(A, ord=1, axis=1)
np.linalg.norm(A, ord=2, axis=1)
np.var(v, ddof=1)
np.var(v, ddof=2)
np.std(A, axis=0, ddof=1)
np.cumsum(A, axis=1)
np.diff(v, n=2)
np.diff(v, 1)
np.flip(A, axis=1)
np.flip(A)
np.roll(A, 2, axis=0)
np.roll(A, 1, axis=1)
np.roll(A, 1)
np.percentile(v, 50)
np.percentile(v, 20)
np.quantile(v, 0.2)
np.median(A, axis=0)
np.median(A, axis=1)
np.argsort(A, axis=0)
np.argsort(A, axis=1)
np.argmax(C, axis=0)
np.argmax(C, axis=1)
np.searchsorted(v, 2, side='right')
np.searchsorted(v, 1, side='right')
np.searchsorted(v, 1, side='left')
np.round(v / 3, 1)
np.round(v / 3)
np.nan_to_num(v / 0)
np.nan_to_num(v / 0, posinf=1.0)
np.clip(v, 2, None)
np.clip(v, None, 3)
np.repeat(v, 3)
np.tile(v, 3)
np.tensordot(C, C, axes=1)
np.tensordot(C, C, axes=2)
np.tensordot(C, C, axes=([0], [0]))
np.bincount(np.array([0, 1, 1]), weights=v)
np.average(v, weights=v ** 2)
np.sum(v, initial=6.0)
np.isclose(v, 2.05, atol=0.1)
np.isclose(v, 2.05)
np.allclose(v, v + 0.01, atol=0.1)
np.allclose(v, v + 0.01)
np.any(A > 5, axis=1)
np.count_nonzero(A > 2, axis=0)
np.linalg.matrix_power(C, 3)
np.triu(C, 1)
np.tril(C)
np.pad(v, 2)
np.unique(np.array([2, 1, 2]), return_counts=True)[1]
np.unique(np.array([2, 1, 2]), return_inverse=True)[1]
np.histogram(v, bins=2)[0]
np.meshgrid(v, w)[1]
np.array_split(v, 2)[1]
np.linalg.svd(C)[1][0]
np.linalg.eigvalsh(C)[0]
np.linalg.lstsq(A, v, rcond=None)[0]
np.linalg.lstsq(C, v, rcond=None)[0]
np.linalg.pinv(A)
np.take(v, [0, 1])
np.delete(v, 2)
np.insert(v, 1, 8)
np.stack([v, 2 * v], axis=0)
np.apply_along_axis(np.sum, 0, A)
np.apply_along_axis(np.sum, 1, A)
np.expand_dims(A, 1)
np.expand_dims(A, (0, 1))
np.moveaxis(D3, 0, 1)
np.rollaxis(D3, 1)
np.swapaxes(D3, 0, 1)
D3.transpose(2, 1, 0)
D3.max(axis=(0, 1))
D3.mean(axis=(1, 2))
np.linalg.norm(D3, axis=(1, 2))
np.linalg.norm(D3, axis=2)
np.einsum('ijk,jk->i', D3, C[:2, :2])
np.einsum('ijk,lk->ijl', D3, C[:2, :2])
np.einsum('ij,kj->ik', A, A)
np.einsum('ij,ij->j', A, A)
np.einsum('ij,jk,kl->il', A, B, A)
np.einsum('i,ij,j', v, A, w)
np.diag(A.dot(B))
np.diag(np.diag(C))
C.diagonal().sum()
C.diagonal(1)
C.T.diagonal(1)
np.tril_indices(3, -1)[0]
np.sum(A ** 2, axis=1)
(A ** 2).sum(axis=1)[:, None] + (B ** 2).sum(axis=0)[None, :] - 2 * A.dot(B)
np.sqrt(np.maximum(0, v - 2))
np.power(A, 3)
v ** 3
v ** -1
v ** -2
A[1:3][0]
A[1:-1]
A[:2, 1:]
A[-2:-1]
A[2:0:-1]
A[10:]
A[:, :1]
A[:, 0:1].T
A[None, :, 1]
v[None, :] - v[:, None]
(v[None, :] - v[:, None])[np.triu_indices(3, 1)]
np.where(v[:, None] > w / 3, A, -A)
np.concatenate([A[:1], A[1:]])
np.concatenate([A[1:], A[:1]])
np.vstack([A[1:], np.zeros((1, 2))])
np.hstack([A[:, :1], A[:, 1:]])
np.zeros(A.shape[0]) + 1
np.ones((A.shape[1], 2)).dot(B)
np.sum(np.outer(v, v))
np.outer(v, A)
A.dot(B).trace()
A.dot(B).dot(v)
A.dot(B.dot(v))
np.linalg.norm(A - B.T) ** 2
np.sum((A - B.T) ** 2)
np.trace((A - B.T).T.dot(A - B.T))
0.5 * np.linalg.norm(A.dot(C[:2, :2])) ** 2
'''
ST = r'''
x = A.copy(); x[0] = 9
x = A.copy(); x[:, 1] = v
x = A.copy(); x[1:] += 1
x = A.copy(); x[A > 2] = 0
x = A.copy(); x[[0, 2], [1, 0]] = 7
x = A.copy(); x[[0, 0]] += 1
x = A.copy(); y = x[1]; y += 10
x = A.copy(); y = x.T; y[0] = 5
x = A.copy(); y = x.ravel(); y[1] = 5
x = A.copy(); y = x.flatten(); y[1] = 5
x = A.copy(); y = x.reshape(2, 3); y[0] = 5
x = A.copy(); x *= w
x = A.copy(); x /= x.sum(axis=1)[:, np.newaxis]
x = A.copy(); x -= x.mean(axis=0)
x = v.copy(); x[1:] = x[:-1]
x = v.copy(); x[:-1] -= x[1:]
x = v.copy(); x[::2] = 0
x = v.copy(); np.add.at(x, [0, 0, 1], 1)
x = v.copy(); np.add(x, 1, out=x)
x = v.copy(); np.multiply(v, v, out=x)
x = np.zeros((3, 2)); np.dot(A, C[:2, :2], out=x)
x = np.zeros(3); np.sum(A, axis=1, out=x)
x = C.copy(); x[np.diag_indices(3)] = 0
x = C.copy(); np.fill_diagonal(x, 7)
x = C.copy(); x.flat[::4] = 7
x = np.zeros((2, 2)); x[0, 0], x[1, 1] = 3, 4
x = np.zeros((3, 3)); x[np.arange(3), [2, 0, 1]] = 1
x = np.zeros((3, 2)); x[np.arange(3), [1, 0, 1]] = v
x = np.zeros((3, 2)); np.put_along_axis(x, np.array([[1], [0], [1]]), 1, axis=1)
x = np.zeros(3); x[np.argmax(v)] = 1
x = 0\nfor i in range(4):\n    if i == 2:\n        continue\n    x += i
x = 0\nfor i in range(4):\n    if i == 2:\n        break\nelse:\n    x = 9\nx += i
x = 0\nwhile x < 5:\n    x += 2
x = [1]; x.append(3); x.extend([4, 5]); x.insert(0, 7); x = x[1] + x[-1] * x[0]
x = [3, 1, 2]; x.sort(); x = x[0]
x = [3, 1, 2]; y = x.pop(); x = y * 10 + len(x)
x = [3, 1, 2]; y = x.pop(0); x = y * 10 + x[0]
x = [3, 1, 2]; x.remove(1); x = x[1]
x = [3, 1, 2]; x.reverse(); x = x[0]
x = [3, 1, 2]; x = x.index(2)
x = {'a': 1, 'b': 2}; x['c'] = 3; x = sum(x.values())
x = {'a': 1}; x.update(b=5); x = x.get('b', 0) + x.get('z', 7)
x = {'a': 1}; y = x.pop('a'); x = len(x) + y
x = {'a': 1, 'b': 2}; x = x.setdefault('a', 9)
x, *y = [1, 2, 3]; x = y[1]
x = (lambda a, b=2: a * b)(3)
f = lambda *a, **k: len(a) + len(k)\nx = f(1, 2, z=3)
x = A.copy(); x.sort(axis=0)
x = A.copy(); x.sort()
x = v.copy(); x[x > 1] *= 2
x = v.copy(); x = np.where(x == x.max(), 0, x)
x = np.arange(3); x = x + 0.5
x = np.zeros(3, dtype=int); x[0] = 2.7
x = np.array([1, 2]); x[0] = 1.9
x = np.array([1.5, 2.5]).astype(int)
x = A.copy(); x[...] = 1
x = A.copy(); x[:] = w
x = A.copy(); x.fill(3)
x = A.copy(); x.T[1, 2] = 8
x = A.copy(); x[:, 0], x[:, 1] = x[:, 1].copy(), x[:, 0].copy()
x = A.copy(); x[:, [0, 1]] = x[:, [1, 0]]
x = A.copy(); x[0], x[1] = x[1], x[0]
x = np.empty((2, 3)); x[0] = v; x[1] = 2 * v
x = D3.copy(); x[0] = x[1].T[::1][:2].T if False else 0
x = D3.copy(); x[:, 0, :] = w
x = np.array([A[i].sum() for i in range(3)])
x = np.array([[i + j for j in range(2)] for i in range(3)])
x = np.concatenate([A[i] for i in range(3)])
x = np.stack([A[i] for i in reversed(range(3))])
x = np.hstack([A[1:], A[:-1]])
x = np.vstack([A[i:i + 2].ravel() for i in range(2)])
x = np.zeros((2, 2))\nfor lag in (1, 2):\n    x[:A.shape[0] - 2] += A[2 - lag:A.shape[0] - lag]
x = np.zeros((A.shape[0], A.shape[1]))\nfor i in range(A.shape[0]):\n    x[i] = A[i] * v[i]
x = np.zeros((A.shape[0], A.shape[1]))\nfor i in range(1, A.shape[0]):\n    x[i] = A[i - 1] + 1
x = np.zeros((A.shape[0], A.shape[1]))\nfor i in range(A.shape[1]):\n    x[:, i] = A[:, i].sum()
x = 0.0\nfor i in range(A.shape[0]):\n    x += A[i].sum() * i
x = 0.0\nfor i in range(A.shape[0]):\n    for j in range(A.shape[1]):\n        x += A[i, j] * v[i]
x = np.zeros((3, 3))\nfor i in range(3):\n    for j in range(i):\n        x[i, j] = v[i] - v[j]\n        x[j, i] = x[i, j]
x = A.copy()\nfor i in range(1, A.shape[0]):\n    x[i] += x[i - 1]
x = v.copy()\nfor i in range(v.shape[0] - 1):\n    x[i + 1] = x[i] * 2
x = A.copy()\nfor r in x:\n    r *= 2
x = A.copy()\nfor i, r in enumerate(x):\n    r += i
x = np.array([r.sum() for r in A])
x = np.array([a * b for a, b in zip(v, A[:, 0])])
x = np.array([v[i] for i in range(v.shape[0]) if i != 1])
x = np.zeros(A.shape)\nx[1:] = A[:-1]\nx[0] = A[-1]
x = A.copy()\ny = x[1:]\ny[:] = 0
x = A.copy()\ny = x[:, 0]\ny -= 1
x = A.copy()\ny = x\ny = y + 1\ny[0] = 0
x = A.copy()\ny = x\ny += 1
x = v.copy()\nx, y = x[::-1], x\ny[0] = 100
x = 10.0\nfor i in range(int(v.shape[0])):\n    if i >= 1:\n        x = x / 2\n    else:\n        x = x - 1
x = np.argsort(v)\nx = v[x]
x = A[np.argsort(v)]
x = A[np.argmin(v)]
x = np.zeros(A.shape)\nx[np.arange(A.shape[0]), np.argmax(A, axis=1)] = 1
x = np.zeros((A.shape[0], 2))\nlab = np.array([0, 1, 0])\nfor k in range(2):\n    x[lab == k, k] = 1
lab = np.array([0, 1, 0])\nx = np.array([A[lab == k].mean(axis=0) for k in range(2)])
lab = np.array([0, 1, 1, 0])\nx = np.zeros((2, 2))\nfor i, j in zip(lab[:-1], lab[1:]):\n    x[i, j] += 1
lab = np.array([0, 1, 1, 0])\nx = np.zeros((2, 2))\nnp.add.at(x, (lab[:-1], lab[1:]), 1)
lab = np.array([0, 1, 1, 0])\nx = np.eye(2)[lab]
x = np.maximum(A, 0) / np.maximum(A, 0).sum(axis=1, keepdims=True)
x = A / np.sum(A, axis=1)[:, None]; x = x.sum(axis=1)
x = A / A.sum(); x = x.sum()
x = A / A.sum(axis=0); x = x.sum(axis=0)
'''
PRE = '''    A = np.array([[1.0, 2.0], [3.0, 4.0], [6.0, 5.0]])
    B = np.array([[1.0, 0.0, 2.0], [3.0, 1.0, 4.0]])
    C = np.array([[4.0, 1.0, 2.0], [0.0, 3.0, 5.0], [7.0, 6.0, 8.0]])
    D3 = np.array([[[1.0, 2.0], [3.0, 4.0]], [[5.0, 6.0], [7.0, 9.0]], [[0.0, 3.0], [2.0, 8.0]]])
    v = np.array([1.0, 3.0, 2.0])
    w = np.array([2.0, 7.0])
'''
src='import numpy as np\n\n'; items=[]
for e in EX.strip().splitlines():
    src+='def f%d():\n%s    return %s\n\n'%(len(items),PRE,e); items.append(e)
for e in ST.strip().splitlines():
    b=e.replace('\\n','\n')
    b='\n'.join('    '+l for l in b.splitlines())
    src+='def f%d():\n%s%s\n    return x\n\n'%(len(items),PRE,b); items.append(e)
open('fz_src.py','w').write(src)
import json; json.dump(items,open('items.json','w'))
