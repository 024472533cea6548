import numpy as np


class RobustScaler:
    def fit_transform(self, X):
        X = np.asarray(X, dtype=float)
        if X.ndim != 2:
            raise ValueError("Expected 2D array")
        center = np.median(X, axis=0)
        q = np.percentile(X, [25, 75], axis=0)
        scale = q[1] - q[0]
        scale = np.where(scale == 0, 1.0, scale)
        return (X - center) / scale
