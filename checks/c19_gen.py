from hypothesis import strategies as st
from glib import seeds, weighted

RULE = (
    "Regression input made directly from a known tensor for 1-3 outputs, 1-3 inputs, 1-3 cross channels, 1-4 "
    "frequencies. kinds: exact (noise-free, now and then with outputs that are zero, every solver must return the tensor), noisy (ordinary least squares against "
    "a complex least squares of its own, with and without intercept; other solvers against the estimator configured by "
    "hand), solution (component and tensor access, writing and reading solutions, contributors kept), weights (the robust weights of residuals). Non-trivial: more "
    "than one frequency or output, or noise."
)
ASSUMPTIONS = [
    "scikit-learn is not installed here: the estimators are a stand-in in /verif/stubs with the same interface, so what is decided is what resistics does around them",
    "random well-conditioned systems of at least twice as many windows as unknowns",
]
base = {
    "n_out": st.integers(1, 3),
    "n_in": st.integers(1, 3),
    "n_cross": st.integers(1, 3),
    "n_freqs": weighted((30, st.integers(1, 4)), (1, st.integers(5, 60))),
    "order": st.sampled_from(["down", "down", "up", "mixed"]),
    "n_wins": st.integers(8, 25),
    "tf": st.sampled_from(["ImpedanceTensor", "Tipper", "TransferFunction"]),
    "names": st.permutations(["Ex", "Ey", "Hx", "Hy", "Hz", "Bx", "By", "A", "AB"]),
    "scale": st.sampled_from([1, 1, 1e-3, 1e3]),
    "seed": seeds,
}
KINDS = [
    {
        "kind": "exact",
        "strategy": st.fixed_dictionaries(
            dict(base, solver=st.sampled_from(["OLS", "Huber", "TheilSen", "RANSAC", "WLS"]), intercept=st.booleans(), zscale=st.sampled_from([1, 1, 1, 1e-7, 1e6]), zero=st.sampled_from([0, 0, 0, 1, 2, 3]))
        ),
        "quick": 300,
        "thorough": 6000,
    },
    {
        "kind": "noisy",
        "strategy": st.fixed_dictionaries(
            dict(
                base, solver=st.sampled_from(["OLS", "OLS", "Huber", "TheilSen", "RANSAC", "WLS"]), intercept=st.booleans(),
                offset=st.booleans(), noise=st.sampled_from([0.01, 0.3, 3]),
                epsilon=st.sampled_from([1, 1.35, 3]), min_samples=st.sampled_from([0.5, 0.8, 0.6]),
                max_trials=st.integers(1, 20), n_sub=st.sampled_from([None, 0.6, 0.8]), max_sub=st.integers(5, 60), n_iter=st.integers(1, 8),
            )
        ),
        "quick": 400,
        "thorough": 8000,
    },
    {
        "kind": "solution",
        "strategy": st.fixed_dictionaries(
            dict(base, hist=st.integers(0, 3), special=st.booleans(), cross=st.booleans(), variation=st.text("abcXYZ _-", max_size=16))
        ),
        "quick": 800,
        "thorough": 20000,
    },
    {
        "kind": "weights",
        "strategy": st.fixed_dictionaries(
            dict(
                r=st.lists(st.one_of(st.floats(0, 10), st.integers(0, 8).map(float)), min_size=1, max_size=12),
                k=st.one_of(st.none(), st.none(), st.floats(0.5, 6), st.integers(1, 4).map(float)), column=st.booleans(),
            )
        ),
        "quick": 200,
        "thorough": 5000,
    },
]
