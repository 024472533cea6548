from hypothesis import strategies as st
from glib import time_spec, fs_any, fs_common, weighted, chans

RULE = (
    "A recording written with the numpy writer (or laid out as a text table with a header, a delimiter and one "
    "column per channel) and read back: whole, metadata only, and by a range whose two ends are each nothing, a "
    "sample, a time (on or between samples, inside or outside) or both; plus broken directories (missing data "
    "file, wrong suffix) and text written by the ascii writer. Oracle: the slice of the data in memory. "
    "Non-trivial: a proper sub-range was read, or a range was refused."
)
ASSUMPTIONS = [
    "the text reader returns float32; the text writer keeps six decimals (as its format says)",
    "times given to the reader are within 1e-6 of a sampling period of a sample or at least 1e-3 away",
]

bound = weighted(
    (2, st.just({})),
    (3, st.fixed_dictionaries({"s": st.one_of(st.integers(-2, 80), st.integers(0, 700))})),
    (
        3,
        st.fixed_dictionaries(
            {
                "k": st.one_of(st.integers(-2, 80), st.integers(0, 700)),
                "frac": st.sampled_from([0, 0, 0.5, 0.001, 0.999]),
            }
        ),
    ),
    (
        1,
        st.fixed_dictionaries(
            {
                "s": st.integers(-1, 80),
                "k": st.integers(-1, 80),
                "frac": st.sampled_from([0, 0.5]),
            }
        ),
    ),
)

KINDS = [
    {
        "kind": "numpy",
        "strategy": st.fixed_dictionaries(
            {
                "td": time_spec(dtype=st.sampled_from(["float64", "float32", "int32", "int64"])),
                "a": bound,
                "b": bound,
                "mod": st.booleans(),
                "pre": st.booleans(),
                "nans": st.booleans(),
                "scal": st.booleans(),
                "named": st.sampled_from(["data.npy", "raw.npy", "a b.npy", "data.1.npy", "metadata.npy"]),
            }
        ),
        "quick": 1500,
        "thorough": 30000,
    },
    {
        "kind": "ascii",
        "strategy": st.fixed_dictionaries(
            {
                "td": time_spec(n=st.integers(2, 60)),
                "a": bound,
                "b": bound,
                "mod": st.booleans(),
                "pre": st.booleans(),
                "delim": st.sampled_from([None, ",", ";", "\t", " "]),
                "header": st.integers(0, 4),
            }
        ),
        "quick": 800,
        "thorough": 15000,
    },
    {
        "kind": "asciiwrite",
        "strategy": st.fixed_dictionaries({"td": time_spec(n=st.integers(2, 60))}),
        "quick": 300,
        "thorough": 4000,
    },
    {
        "kind": "guard",
        "strategy": st.fixed_dictionaries(
            {
                "a": time_spec(n=st.integers(2, 30)),
                "b": time_spec(n=st.integers(2, 30)),
                "overwrite": st.booleans(),
                "twin": st.booleans(),
                "format": st.sampled_from(["numpy", "ascii"]),
            }
        ),
        "quick": 150,
        "thorough": 2000,
    },
    {
        "kind": "broken",
        "strategy": st.fixed_dictionaries(
            {
                "td": time_spec(n=st.integers(2, 30)),
                "how": st.sampled_from(["missing", "suffix", "nometa", "noext"]),
                "chan": st.integers(0, 4),
            }
        ),
        "quick": 200,
        "thorough": 2000,
    },
]
