class BaseEstimator:
    """Stand-in for sklearn.base.BaseEstimator"""
