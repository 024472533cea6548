from hypothesis import strategies as st
from glib import time_spec, fs_any, fs_common, weighted

RULE = (
    "A recording (1-5 channels, 2-600 samples, now and then up to 120000, any rate, float32/float64/int, prior history) and a time range "
    "given by two positions on its sample grid (on samples, between samples, before the start, after the end; "
    "as text, pandas timestamp or native datetime), applied through the subsection method or process, and "
    "nested once more. Oracle: the samples whose exact time lies in the range. Non-trivial: the range cuts "
    "at least one sample and keeps at least two."
)
ASSUMPTIONS = [
    "a bound within 1e-6 of a period of a sample counts as on it; bounds between 1e-6 and 1e-3 of a period are not generated",
    "a range that holds fewer than two samples may be refused with ValueError",
]

# a bound: sample index plus fraction of a period
pos = st.fixed_dictionaries(
    {
        "k": st.one_of(st.integers(-5, 700), st.integers(0, 80), st.integers(0, 10**6)),
        "frac": weighted(
            (3, st.just(0)),
            (2, st.sampled_from([0.5, 0.001, 0.999, 0.3])),
            (1, st.floats(0.001, 0.999)),
        ),
    }
)

KINDS = [
    {
        "kind": "sub",
        "strategy": st.fixed_dictionaries(
            {
                "td": time_spec(
                    n=weighted((14, st.integers(2, 60)), (14, st.integers(2, 600)), (1, st.integers(2000, 120000))),
                    fs=st.one_of(fs_common(), fs_any()),
                    dtype=st.sampled_from(["float64", "float32", "int32"]),
                ),
                "a": pos,
                "b": pos,
                "span": st.booleans(),
                "form": st.sampled_from(["text", "pandas", "native", "text"]),
                "via": st.sampled_from(["method", "process"]),
            }
        ),
        "quick": 3000,
        "thorough": 80000,
    },
    {
        "kind": "nested",
        "strategy": st.fixed_dictionaries(
            {
                "td": time_spec(n=st.integers(8, 400)),
                "cuts": st.lists(st.integers(0, 400), min_size=4, max_size=4),
            }
        ),
        "quick": 1000,
        "thorough": 20000,
    },
    {
        "kind": "view",
        "strategy": st.fixed_dictionaries(
            {"td": time_spec(), "chan": st.integers(0, 4), "bad": st.sampled_from(["size", "dtype", "name", "ok"])}
        ),
        "quick": 800,
        "thorough": 10000,
    },
]
