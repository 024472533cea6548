"""
Minimal stand-in for scikit-learn (not installed and not installable in this
sandbox). It implements, with numpy only, exactly the estimators and parameters
that resistics uses, following the documented scikit-learn semantics closely
enough that a correct caller recovers the coefficients of a consistent linear
system. It is an oracle-side dependency, not part of the code under test.
"""
__version__ = "0.24.2"
