import numpy as np
from .base import BaseEstimator


def _check(X, y):
    X = np.asarray(X)
    y = np.asarray(y)
    if np.iscomplexobj(X) or np.iscomplexobj(y):
        raise ValueError("Complex data not supported")
    X = X.astype(float)
    y = y.astype(float)
    if X.ndim != 2:
        raise ValueError("Expected 2D array for X")
    if y.ndim not in (1, 2) or X.shape[0] != y.shape[0]:
        raise ValueError("Found input variables with inconsistent numbers of samples")
    if X.shape[0] == 0:
        raise ValueError("Found array with 0 sample(s)")
    if not np.isfinite(X).all() or not np.isfinite(y).all():
        raise ValueError("Input contains NaN, infinity or a value too large")
    return X, y


def _lstsq(X, y, intercept, weight=None):
    if weight is None:
        weight = np.ones(X.shape[0])
    if intercept:
        total = weight.sum()
        if total == 0:
            return np.zeros(X.shape[1]), 0.0
        xm = (X * weight[:, None]).sum(axis=0) / total
        ym = (y * weight).sum() / total
    else:
        xm = np.zeros(X.shape[1])
        ym = 0.0
    sw = np.sqrt(weight)
    coef = np.linalg.lstsq((X - xm) * sw[:, None], (y - ym) * sw, rcond=None)[0]
    return coef, ym - xm.dot(coef)


class LinearRegression(BaseEstimator):
    def __init__(
        self,
        *,
        fit_intercept=True,
        normalize=False,
        copy_X=True,
        n_jobs=None,
        positive=False
    ):
        self.fit_intercept = fit_intercept
        self.normalize = normalize
        self.n_jobs = n_jobs

    def fit(self, X, y, sample_weight=None):
        X, y = _check(X, y)
        if sample_weight is not None:
            sample_weight = np.asarray(sample_weight, dtype=float)
            if sample_weight.shape != (X.shape[0],):
                raise ValueError("sample_weight.shape is wrong")
        self.coef_, self.intercept_ = _lstsq(X, y, self.fit_intercept, sample_weight)
        return self

    def predict(self, X):
        return np.asarray(X, dtype=float).dot(self.coef_) + self.intercept_


class HuberRegressor(BaseEstimator):
    def __init__(
        self,
        *,
        epsilon=1.35,
        max_iter=100,
        alpha=0.0001,
        warm_start=False,
        fit_intercept=True,
        tol=1e-05
    ):
        if epsilon < 1.0:
            raise ValueError("epsilon should be greater than or equal to 1.0")
        self.epsilon = epsilon
        self.fit_intercept = fit_intercept

    def fit(self, X, y, sample_weight=None):
        X, y = _check(X, y)
        weight = np.ones(X.shape[0])
        for _ in range(30):
            coef, icpt = _lstsq(X, y, self.fit_intercept, weight)
            res = np.absolute(y - X.dot(coef) - icpt)
            sigma = np.median(res) / 0.6745
            if sigma <= 1e-12 * (np.absolute(y).max() + 1e-300):
                break
            u = res / sigma
            weight = np.where(
                u <= self.epsilon, 1.0, self.epsilon / np.maximum(u, 1e-300)
            )
        self.coef_, self.intercept_ = coef, icpt
        return self


class TheilSenRegressor(BaseEstimator):
    def __init__(
        self,
        *,
        fit_intercept=True,
        copy_X=True,
        max_subpopulation=10000,
        n_subsamples=None,
        max_iter=300,
        tol=0.001,
        random_state=None,
        n_jobs=None,
        verbose=False
    ):
        self.fit_intercept = fit_intercept
        self.n_subsamples = n_subsamples
        self.max_subpopulation = max_subpopulation

    def fit(self, X, y):
        X, y = _check(X, y)
        n, k = X.shape
        dim = k + 1 if self.fit_intercept else k
        size = n if self.n_subsamples is None else self.n_subsamples
        if self.n_subsamples is None:
            size = min(dim, n)
        elif size > n or size < dim:
            raise ValueError("Invalid parameter n_subsamples")
        rng = np.random.RandomState(0)
        coefs = []
        for _ in range(min(200, self.max_subpopulation)):
            idx = rng.choice(n, size=size, replace=False)
            c, i = _lstsq(X[idx], y[idx], self.fit_intercept)
            coefs.append(np.append(c, i))
        med = np.median(np.array(coefs), axis=0)
        self.coef_, self.intercept_ = med[:-1], med[-1]
        return self


class RANSACRegressor(BaseEstimator):
    def __init__(
        self,
        base_estimator=None,
        *,
        min_samples=None,
        residual_threshold=None,
        max_trials=100,
        random_state=None
    ):
        self.base_estimator = base_estimator
        self.min_samples = min_samples
        self.max_trials = max_trials

    def fit(self, X, y, sample_weight=None):
        X, y = _check(X, y)
        n = X.shape[0]
        if self.min_samples is None:
            m = X.shape[1] + 1
        elif 0 < self.min_samples < 1:
            m = int(np.ceil(self.min_samples * n))
        else:
            m = int(self.min_samples)
        if m > n:
            raise ValueError("min_samples may not be larger than number of samples")
        thresh = np.median(np.absolute(y - np.median(y)))
        rng = np.random.RandomState(0)
        best, best_count = None, -1
        est = self.base_estimator
        for _ in range(self.max_trials):
            idx = rng.choice(n, size=m, replace=False)
            est.fit(X[idx], y[idx])
            inl = np.absolute(y - est.predict(X)) <= thresh
            if inl.sum() > best_count:
                best, best_count = inl, inl.sum()
        est.fit(X[best], y[best])
        self.estimator_ = est
        self.inlier_mask_ = best
        return self
