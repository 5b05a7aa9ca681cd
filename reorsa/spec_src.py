"""Reference formulas.  This module is never imported: it is read by the abstract interpreter, like the package."""
import numpy as np


# ------------------------------------------------------------------ objectives

def kernel_cost(K, W, D):
    R = W.dot(D)
    return K.trace() - 2 * R.dot(K).trace() + R.dot(K).dot(R.T).trace()


def reconstruction(X, W, D):
    n, d = X.shape
    return np.linalg.norm(X - W.dot(D)) ** 2 / (n * d)


def states(D, K):
    d = D.shape[1]
    G = D.dot(D.T)
    return 2.0 / (d * K * (K - 1)) * (K * G.trace() - G.sum())


def one_step(W, lags, order_weights, transition_matrices, max_lag):
    n = W.shape[0]
    z = np.zeros((n - max_lag, W.shape[1]))
    for i, lag in enumerate(lags):
        z = z + order_weights[i] * W[max_lag - lag:n - lag].dot(transition_matrices[i].T)
    return z


def weights_penalty(W, lags, order_weights, transition_matrices, max_lag):
    n, K = W.shape
    z = one_step(W, lags, order_weights, transition_matrices, max_lag)
    return np.linalg.norm(W[max_lag:] - z) ** 2 / (K * (n - max_lag))


def affiliation_cost(W, distances):
    return (W * distances).sum()


def kmeans_distances(X, T):
    K = T.shape[0]
    out = np.zeros((X.shape[0], K))
    for j in range(K):
        out[:, j] = np.linalg.norm(X - T[j], axis=1) ** 2
    return out


# ------------------------------------------------------------------ regressions

def varx_prediction(X, first, mu, A, p, U, B0, B, s):
    """mu + sum_i A_i x(t-i) + sum_j B_j u(t-j) for the times from first on; B0 multiplies u(t)."""
    n, d = X.shape
    z = np.zeros((n - first, d))
    if mu is not None:
        z = z + mu
    for i in range(1, p + 1):
        z = z + X[first - i:n - i].dot(A[i - 1].T)
    for j in range(1, s + 1):
        z = z + U[first - j:n - j].dot(B[j - 1].T)
    if B0 is not None:
        z = z + U[first:].dot(B0.T)
    return z


def rows(M, mask):
    return M[mask]


def from_row(M, first):
    return M[first:]


def weighted(w, first, M):
    return np.sqrt(w[first:])[:, np.newaxis] * M


def component(a, k):
    return a[k]


def equals(labels, k):
    return labels == k


def square_norms(R):
    return (R * R).sum(axis=1)


def columns(parts):
    return np.array(parts).T


def column(M, i):
    return M[:, i]


# ------------------------------------------------------------------ forecasts

def iterated(W, i, lags, order_weights, transition_matrices, horizon):
    """The weights horizon steps after sample i, from the weights at samples up to i."""
    path = [W[i]]
    for h in range(1, horizon + 1):
        z = np.zeros(W.shape[1])
        for l, lag in enumerate(lags):
            past = W[i + h - lag] if h - lag <= 0 else path[h - lag]
            z = z + order_weights[l] * transition_matrices[l].dot(past)
        path.append(z)
    return path[horizon]


def reconstructed(w, D):
    return w.dot(D)


def membership(labels, K):
    out = np.zeros((labels.shape[0], K))
    for k in range(K):
        out[labels == k, k] = 1.0
    return out


def chain(P, T, horizon):
    for h in range(horizon):
        P = P.dot(T.T)
    return P
