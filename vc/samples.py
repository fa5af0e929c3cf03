"""Code on which selftest.py compares the verifier with CPython and numpy.

Each function is run twice: instrumented, on symbolic inputs of symbolic size (through the contracts of vc/snp.py and the loop rule of
vc/runtime.py), and as it stands on random inputs. The docstring declares the inputs: X[N,M] reals, q[K]:N integers in [0, N),
k:N an integer in [0, N), n the size itself; a name ending in + is a size of at least one."""
import numpy


# ---- numpy contracts
def n_broadcast(X, v):
    "X[N,M] v[M]"
    return X + v, X * v - 2, (X > v) * X, 1 / (1 + X * X)


def n_reduce(X):
    "X[N+,M+]"
    return X.sum(), X.sum(axis=0), X.sum(axis=1, keepdims=True), X.mean(axis=0), X.max(axis=1), X.min(axis=0), X.argmax(axis=1), X.var(axis=1)


def n_minmax(X, Y):
    "X[N,M] Y[N,M]"
    return numpy.maximum(X, Y), numpy.minimum(X, 0.5), numpy.where(X > Y, X, 0), numpy.clip(X, -0.5, 0.5), numpy.abs(X)


def n_unary(X):
    "X[N]"
    return numpy.exp(X), numpy.tanh(X), numpy.sqrt(X * X), numpy.square(X), numpy.log(1 + X * X), numpy.floor(X)


def n_dot(X, Y, v):
    "X[N,M] Y[M,K] v[M]"
    return numpy.dot(X, Y), X @ v, numpy.dot(Y.T, X.T), numpy.outer(v, v)


def n_slices(X, k):
    "X[N+,M+] k:N+"
    return X[k], X[:, 0], X[k:], X[:k], X[-1], X[1:, 1:], X[::-1]


def n_reshape(X):
    "X[N,M]"
    return X.T, X.reshape((X.shape[1], X.shape[0])), X.ravel(), X.reshape((X.shape[0], X.shape[1], 1)), X.reshape((-1,))


def n_reshape3(X):
    "X[N,M,K+]"
    return X.reshape((X.shape[0] * X.shape[1], X.shape[2])), X.transpose((1, 0, 2)), X.sum(axis=(0, 1)), X.transpose((2, 0, 1))


def n_gather(X, q):
    "X[N+,M] q[K]:N+"
    return X[q], X[q].sum(axis=0), X[q, :]


def n_scatter(X, q, V):
    "X[N+,M] q[K]:N+ V[K,M]"
    numpy.add.at(X, q, V)
    return X


def n_assign(X, Y, k):
    "X[N+,M] Y[N+,M] k:N+"
    X[k] = 1.5
    X[:, :1] *= 2
    Y += X
    Y[k] -= X[k]
    Z = X.copy()
    Z[:] = 0
    return X, Y, Z


def n_views(X, k):
    "X[N+,M] k:N+"
    V = X[k:]
    W = X.T
    V += 1
    W *= 2
    return X, V, W


def n_concat(X, Y, v):
    "X[N,M] Y[K,M] v[N]"
    return numpy.concatenate((X, Y)), numpy.hstack((X, X)), numpy.vstack([X, Y]), numpy.concatenate([v, v, v]), numpy.concatenate((X, X), axis=1)


def n_make(n, m):
    "n m"
    a = numpy.zeros((n, m))
    a += 3
    return a, numpy.arange(n) * 2, numpy.ones((m,)), numpy.full((n,), 7)


def n_mask(X):
    "X[N,M]"
    Y = X.copy()
    Y[X < 0] = 0
    Z = X.copy()
    Z[Z > 0.5] -= 0.25
    return Y, Z, (X < 0).sum(), (X > 5).any(), (X < 5).all()


def n_cumsum(q):
    "q[K]:4"
    return q.cumsum(), q.sum(), numpy.cumsum(q) - q


def n_int(q, k):
    "q[K]:9 k:9"
    return q % 4, q // 2, q * 2 + k, k // 3, k % 2, -k // 2


def n_take(X, w):
    "X[N,M+] w[N,1]:M+"
    return numpy.take_along_axis(X, w, axis=1),


def n_tile(X, n):
    "X[N,M] n"
    return numpy.expand_dims(X, 1), X[:, None] + 1, X[None], numpy.stack([X, X + 1])


# ---- the loop rule
def l_sum(X):
    "X[N]"
    t = 0
    for x in X:
        t += x
    return t


def l_nested(X):
    "X[N,M]"
    t, u = 0, 1
    for i in range(X.shape[0]):
        for j in range(X.shape[1]):
            t += X[i, j] * j
            u += i
    return t, u


def l_triangle(X):
    "X[N]"
    t = 0
    for i in range(len(X)):
        for j in range(i):
            t += X[j]
    return t


def l_last(X):
    "X[N]"
    prev, last = 0, -1
    for x in X:
        prev = last
        last = x
    return prev, last


def l_fill(X, v):
    "X[N,M] v[M]"
    Y = numpy.zeros((X.shape[0], X.shape[1]))
    for i in range(X.shape[0]):
        Y[i] = X[i] * 2 + v
    return Y


def l_ragged(q, X):
    "q[K]:3 X[9,M]"
    start = 0
    Y = numpy.zeros((len(q), X.shape[1]))
    for i, n in enumerate(q):
        if start + n > 9:
            raise IndexError("rows")
        Y[i] = X[start:start + n].sum(axis=0)
        start += n
    return Y, start


def l_accumulate(X, q, V):
    "X[N+] q[K]:N+ V[K]"
    for k in range(len(q)):
        X[q[k]] += V[k]
    return X


def l_append(X, k):
    "X[N+] k:N+"
    out = []
    for x in X:
        out.append(x * 2)
    return len(out), out[k]


def l_comprehension(X, k):
    "X[N+,M] k:N+"
    out = [x + i for i, x in enumerate(X)]
    return len(out), out[k]


def l_zip(X, Y):
    "X[N] Y[N]"
    t = 0
    for x, y in zip(X, Y):
        t += x * y
    return t


def l_while(n):
    "n"
    i, t = 0, 0
    while i < n:
        t += i * i
        i += 1
    return i, t


def l_step(n):
    "n"
    i, k = 0, 0
    while i < n:
        i += 3
        k += 1
    return k


def l_max(X):
    "X[N+]"
    best = X[0]
    for x in X:
        if x > best:
            best = x
    return best


def l_count(X):
    "X[N]"
    n = 0
    for x in X:
        if x > 0:
            n += 1
    return n


def l_early(X):
    "X[N]"
    for x in X:
        if x > 0.5:
            return 1
    return 0


def l_raise(q):
    "q[K]:5"
    for x in q:
        if x == 4:
            raise ValueError("four")
    return q.sum()


def l_else(X):
    "X[N]"
    t = 0
    for x in X:
        if x < -0.5:
            continue
        t += x
    return t


def l_reverse(X):
    "X[N]"
    Y = X.copy()
    for i in reversed(range(len(X))):
        Y[i] = X[len(X) - 1 - i]
    return Y


def l_shift(X):
    "X[N]"
    Y = numpy.zeros((len(X) + 1,))
    for i in range(len(X)):
        Y[i + 1] = X[i]
    return Y


def l_scale(n):
    "n"
    t = 1.0
    for i in range(n):
        t = t * 0.5
    return t


def l_pair(X):
    "X[N]"
    a, b = 0, 0
    for x in X:
        a += x
        b += a
    return a, b


def l_overwrite(X, q, V):
    "X[N+] q[K]:N+ V[K]"
    for k in range(len(q)):
        X[q[k]] = V[k]
    return X.sum() - X.sum(), V


def l_list_of_arrays(X, k):
    "X[N+,M] k:N+"
    parts = []
    for i in range(X.shape[0]):
        parts.append(X[i] * i)
    Y = numpy.concatenate(parts)
    return Y.sum(), parts[k]


def l_dict(X):
    "X[N]"
    d = {"t": 0, "n": 0}
    for x in X:
        d["t"] += x
        d["n"] += 1
    return d["t"], d["n"]


def l_slices(X, k):
    "X[N,M] k:N"
    Y = numpy.zeros((X.shape[0], X.shape[1]))
    Y[k:] += X[k:]
    for i in range(k):
        Y[i, :] -= X[i]
    return Y
