from hypothesis import strategies as st
from glib import simple_fields, fs_any, weighted

RULE = (
    "kinds: coincident (times that are exactly on samples, through time->sample and back), between (times a "
    "stated fraction of a sample away from one, also before the first and after the last sample), timedelta "
    "(seconds, pandas and native durations), array (datetime arrays against single conversions), nsamples "
    "(number of samples spanned by a duration, the three roundings). Oracle: exact rational arithmetic. "
    "Non-trivial: sample index > 0 for coincident, a time off the sample grid or outside the data for between, "
    "a fractional duration otherwise."
)
ASSUMPTIONS = [
    "a time within 1e-6 of a sampling period of a sample is coincident with it (floating point noise of 1/fs); "
    "times between 1e-6 and 1e-3 of a period from a sample are not generated",
]

k_any = st.one_of(st.integers(0, 50), st.integers(0, 10000), st.integers(0, 10**7))
n_any = st.one_of(st.integers(2, 100), st.integers(2, 10**5), st.integers(2, 10**8))
frac = st.one_of(
    st.sampled_from([0.5, 0.001, 0.999, 0.25, 0.75, 0.01, 0.99]),
    st.floats(0.001, 0.999),
)

KINDS = [
    {
        "kind": "coincident",
        "strategy": st.fixed_dictionaries(
            {"f": simple_fields(), "fs": fs_any(), "n": n_any, "i": st.integers(0, 10**8), "j": st.integers(0, 10**8)}
        ),
        "examples": [
            {"f": [2021, 1, 1, 0, 0, 0, 0], "fs": 10, "n": 100, "i": 11, "j": 29},
            {"f": [2021, 1, 1, 0, 0, 0, 0], "fs": 100, "n": 100, "i": 29, "j": 57},
        ],
        "quick": 5000,
        "thorough": 150000,
    },
    {
        "kind": "between",
        "strategy": st.fixed_dictionaries(
            {
                "f": simple_fields(),
                "fs": fs_any(),
                "n": st.one_of(st.integers(2, 100), st.integers(2, 10**6)),
                "k": st.one_of(st.integers(-3, 100), st.integers(-1000, 10**6)),
                "frac": frac,
            }
        ),
        "quick": 5000,
        "thorough": 150000,
    },
    {
        "kind": "timedelta",
        "strategy": st.fixed_dictionaries(
            {
                "how": st.sampled_from(["float", "int", "pandas", "native", "period"]),
                "secs": st.one_of(
                    st.integers(-100, 100), st.integers(-(10**9), 10**9)
                ),
                "us": st.one_of(st.just(0), st.integers(0, 999999)),
                "ns": st.one_of(st.just(0), st.integers(0, 999)),
                "x": st.one_of(
                    st.floats(-1000, 1000, allow_nan=False),
                    st.floats(0, 1e7, allow_nan=False),
                ),
                "fs": fs_any(),
            }
        ),
        "quick": 4000,
        "thorough": 80000,
    },
    {
        "kind": "array",
        "strategy": st.fixed_dictionaries(
            {
                "f": simple_fields(),
                "fs": fs_any(),
                "n": st.integers(1, 60),
                "samples": st.one_of(
                    st.none(),
                    st.lists(st.integers(0, 10**6), min_size=1, max_size=12),
                    st.lists(st.integers(0, 10**10), min_size=1, max_size=6),
                ),
            }
        ),
        "quick": 600,
        "thorough": 10000,
    },
    {
        "kind": "nsamples",
        "strategy": st.fixed_dictionaries(
            {
                "fs": fs_any(),
                "k": st.one_of(st.integers(0, 100), st.integers(0, 10**6)),
                "frac": st.one_of(st.just(0), st.floats(0.001, 0.499), st.floats(0.501, 0.999)),
                "method": st.sampled_from(["round", "ceil", "floor", None]),
            }
        ),
        "quick": 2500,
        "thorough": 50000,
    },
]
